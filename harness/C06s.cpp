// C06: enumerable helpers, searches, splits, joins and iterators over every short list, against plain list functions.
#include "ranges.h"



namespace
{
	template < typename R > void Answers(const R& r, const VI& v, const char* what)
	{
		const int x = seq::Pick(8), k = seq::Pick(5); const size_t n = v.size(), at = std::find(v.begin(), v.end(), x) - v.begin(), odd = std::find_if(v.begin(), v.end(), IsOdd) - v.begin();
		SEQ_LOG("%s: asking about %d and position %d", what, x, k);
		#define IS(E) SEQ_CHECK_MSG((E), "%s over %s with %d, %d", #E, Str(v).c_str(), x, k)
		IS(Range::Count(r) == n); IS((r | Count()) == n); IS((r | Any()) == (n != 0));
		IS(Range::Contains(r, x) == (at < n)); IS(Range::Contains(r, &IsOdd) == (odd < n));
		{ const optional<size_t> a = Range::IndexOf(r, x), b = Range::IndexOf(r, &IsOdd); IS(a.is_initialized() == (at < n) && (!a || *a == at)); IS(b.is_initialized() == (odd < n) && (!b || *b == odd)); }
		IS(Range::AnyOf(r, &IsOdd) == std::any_of(v.begin(), v.end(), IsOdd)); IS(Range::AllOf(r, &IsOdd) == std::all_of(v.begin(), v.end(), IsOdd)); IS(Range::NoneOf(r, &IsOdd) == std::none_of(v.begin(), v.end(), IsOdd));
		if (k < int(n)) { const int e = Range::ElementAt(r, k); IS(e == v[k]); } else IS(Throws([&]{ Range::ElementAt(r, k); }));
		{ const optional<int> e = Range::ElementAtOrDefault(r, k); IS(e.is_initialized() == (k < int(n)) && (!e || *e == v[k])); const int d = Range::ElementAtOrDefault(r, k, -7); IS(d == (k < int(n) ? v[k] : -7)); }
		if (n) { const int f = Range::First(r), g = r | First(); IS(f == v[0] && g == v[0]); } else IS(Throws([&]{ Range::First(r); }));
		{ const optional<int> f = Range::FirstOrDefault(r), g = r | FirstOrDefault(); IS(f.is_initialized() == (n > 0) && (!f || *f == v[0]) && g == f); const int h = Range::FirstOrDefault(r, -7); IS(h == (n ? v[0] : -7)); }
		{ int s = 0, h = 5; for (int y : v) { s += y; h = Digits(h, y); } const int f = Range::Fold(r, 5, &Digits); IS(Range::Sum(r) == s); IS(f == h); }
		{ const optional<int> f = Range::Fold(r, &Digits); int h = n ? v[0] : 0; for (size_t i = 1; i < n; ++i) h = Digits(h, v[i]); IS(f.is_initialized() == (n > 0) && (!f || *f == h)); }
		{ const optional<int> a = Range::MinElement(r), b = Range::MaxElement(r), c = Range::MinElement(r, comparers::Greater()), d = Range::MaxElement(r, comparers::Greater()); IS(a.is_initialized() == (n > 0) && b.is_initialized() == (n > 0) && c == b && d == a); if (n) { IS(*a == *std::min_element(v.begin(), v.end())); IS(*b == *std::max_element(v.begin(), v.end())); } }
		{ VI w; Range::ForEach(r, vh::Fn<void(int)>([&](int y) { w.push_back(y); })); IS(w == v); }
		{ VI w; Range::Copy(r, std::back_inserter(w)); IS(w == v); VI z(n, -1); Range::Copy(r, ToRange(z)); IS(z == v); if (n) { VI q(n - 1); IS(Throws([&]{ Range::Copy(r, ToRange(q)); })); } }
	}
}

#define LIST(MAX) const VI v = PickList(MAX); SEQ_LOG("over %s", Str(v).c_str());

SEQ_SCENARIO(range_answers, .Q(3).T(4).Split(4))
{
	LIST(depth);
	const std::list<int> l(v.begin(), v.end()); const std::forward_list<int> f(v.begin(), v.end()); const VI t = MapL(v, Affine);
	switch (seq::Pick(14))
	{
	case 0: Answers(ToRange(v), v, "a vector"); break;
	case 1: Answers(ToRange(l), v, "a list"); break;
	case 2: Answers(Range::Transform(ToRange(f), &Affine), t, "a transformed forward list"); break;
	case 3: Answers(Range::Filter(Range::Transform(ToRange(v), &Affine), &IsOdd), FilterL(t, IsOdd), "a filtered transform"); break;
	case 4: Answers(Range::Concat(Range::Transform(ToRange(v), &Affine), Range::Transform(ToRange(v), &Affine)), CatL(t, t), "joined transforms"); break;
	case 5: Answers(Range::Take(Range::Transform(ToRange(v), &Affine), 2), TakeL(t, 2), "a taken transform"); break;
	case 6: Answers(Range::Reverse(Range::Transform(ToRange(v), &Affine)), VI(t.rbegin(), t.rend()), "a reversed transform"); break;
	case 7: Answers(Range::Zip(&Digits, ToRange(v), Range::Drop(ToRange(v), 1)), PairsL(v, DropL(v, 1)), "pairs"); break;
	case 8: if (!v.empty()) Answers(Range::Take(Range::Cycle(Range::Transform(ToRange(v), &Affine)), 4), CycleL(t, 4), "a cycled transform"); break;
	case 9: Answers(Range::Flatten(Range::Transform(ToRange(v), &PartOf)), PartsL(v), "flattened parts"); break;
	case 10: if (v.size() == 1) Answers(Range::Single(v[0]), v, "a single"); break;
	case 11: { std::set<int> s(v.begin(), v.end()); Answers(ToRange(s), VI(s.begin(), s.end()), "a set"); } break;
	case 13: if (!v.empty()) { const size_t n = seq::Pick(4); auto r = ToRange(v); r.Next(); auto s = ToRange(v); s.Next(); Answers(Range::Take(r, n), TakeL(DropL(v, 1), n), "a part of a range that has moved on"); Answers(Range::Drop(s, n), DropL(v, 1 + n), "the rest of a range that has moved on");
		auto p = Range::Take(r, n); const size_t m = std::min(n, v.size() - 1), j = seq::Pick(5); SEQ_CHECK_MSG(p.GetSize() == m && p.GetPosition() == 0, "the part of %zu elements says %zu, at %zu", m, p.GetSize(), p.GetPosition());
		const bool refused = Throws([&]{ p.Move(int(j)); }); SEQ_CHECK_MSG((refused == (j > m)), "moving by %zu over a part of %zu elements", j, m); if (j < m) SEQ_CHECK_MSG((p.Get() == v[1 + j] && p.GetPosition() == j), "moved by %zu: %d", j, p.Get()); } break;
	case 12: { const auto p = std::make_pair(v.data(), v.data() + v.size()); Answers(ToRange(p), v, "a pair of pointers"); } break;
	}
}
SEQ_SCENARIO(sources, .Q(3).T(4).Split(3))
{
	LIST(depth); g_moves = depth; VI w = v; std::set<int> s(v.begin(), v.end()); std::map<int, int> m; for (int x : v) m[x] = Affine(x); const std::map<int, int>& cm = m; VI k, q; for (auto& p : m) { k.push_back(p.first); q.push_back(p.second); }
	switch (seq::Pick(9))
	{
	case 0: Check(ToRange(w), v); for (auto r = ToRange(w); r; ++r) *r += 5; for (size_t i = 0; i < v.size(); ++i) SEQ_CHECK_MSG(w[i] == v[i] + 5, "writing through a range: %s", Str(w).c_str()); break;
	case 1: Check(ToRange(s), VI(s.begin(), s.end())); break;
	case 2: Check(Range::MapKeys(ToRange(cm)), k); break;
	case 3: Check(Range::MapValues(ToRange(cm)), q); break;
	case 4: { const auto p = std::make_pair(v.begin(), v.end()); if (seq::Flip()) Check(ToRange(p), v); else Check(ToRange(v.begin(), v.end()), v); } break;
	case 5: if (v.size() == 3) { int a[3] = { v[0], v[1], v[2] }; Check(ToRange(a), v); } break;
	case 6: if (v.size() == 1) Check(Range::Single(v[0]), v); break;
	case 7: { std::vector<VI> parts; VI all; for (int x : v) { parts.push_back(VI(Table, Table + x)); all = CatL(all, parts.back()); } Check(Range::Flatten(ToRange(parts)), all); } break;
	case 8: { std::list<std::list<int>> parts; VI all; for (int x : v) { parts.push_back(std::list<int>(Table, Table + x)); all = CatL(all, VI(Table, Table + x)); } Check(Range::Reverse(Range::Flatten(ToRange(parts))), VI(all.rbegin(), all.rend())); } break;
	}
}
SEQ_SCENARIO(single_position, .Q(4).T(6).Split(2))
{
	const int x = seq::Pick(3); g_moves = depth; const VI v(1, x);
	switch (seq::Pick(4)) { case 0: Check(Range::Single(x), v); break; case 1: Check(Range::Transform(Range::Single(x), &Affine), MapL(v, Affine)); break; case 2: Check(Range::Concat(Range::Single(x), Range::Single(x + 1)), VI{ x, x + 1 }); break; case 3: Check(Range::Reverse(Range::Single(x)), v); break; }
}
namespace
{
	template < typename R > void FragmentAt(const R& r, const std::vector<VI>& ref, size_t i)
		{ SEQ_CHECK_MSG(r.Valid() == (i < ref.size()), "%s at fragment %zu of %zu", r.Valid() ? "valid" : "invalid", i, ref.size()); if (i < ref.size()) { VI a; for (auto x = r.Get(); x; ++x) a.push_back(*x); SEQ_CHECK_MSG(a == ref[i], "fragment %zu is %s, expected %s", i, Str(a).c_str(), Str(ref[i]).c_str()); } }
	template < typename R > void Fragments(R r, const std::vector<VI>& ref)
		{
			size_t n = 0; for (auto x = r.begin(); x != r.end(); ++x, ++n) FragmentAt(x, ref, n); SEQ_CHECK_MSG(n == ref.size(), "%zu fragments, expected %zu", n, ref.size());
			for (int i = 0; i <= int(ref.size()); ++i) { r.First(); for (int j = 0; j < i; ++j) r.Next(); FragmentAt(r, ref, i); for (int j = i; j--; ) { r.Prev(); FragmentAt(r, ref, j); } }
			if (!ref.empty()) { SEQ_LOG("last"); r.Last(); FragmentAt(r, ref, ref.size() - 1); r.Next(); FragmentAt(r, ref, ref.size()); } else { r.Last(); FragmentAt(r, ref, 0); }
		}
}
SEQ_SCENARIO(splits, .Q(5).T(7).Split(4))
{
	LIST(depth); const int size = 1 + seq::Pick(4); SEQ_LOG("in fragments of %d", size);
	std::vector<VI> ref; for (size_t i = 0; i < v.size(); i += size) ref.push_back(VI(v.begin() + i, v.begin() + std::min(v.size(), i + size)));
	const std::list<int> l(v.begin(), v.end());
	switch (seq::Pick(3)) { case 0: Fragments(Range::Split(v, size), ref); break; case 1: Fragments(Range::Split(v.begin(), v.end(), size), ref); break; case 2: Fragments(Range::Split(l, size), ref); break; }
}

namespace
{
	struct Base { int x; explicit Base(int x) : x(x) { } virtual ~Base() { } };
	struct Left : Base { explicit Left(int x) : Base(x) { } };
	struct Right : Base { explicit Right(int x) : Base(x) { } };
	typedef shared_ptr<Base> BaseP; typedef shared_ptr<Left> LeftP;
	int BaseX(const BaseP& p) { return p ? p->x : -1; } int LeftX(const LeftP& p) { return p->x; } int LeftR(const Left& p) { return p.x; }
}
SEQ_SCENARIO(of_type, .Q(4).T(5).Split(3))
{
	std::vector<BaseP> v; std::list<BaseP> l; VI left, all; const int n = seq::Pick(depth + 1); std::vector<Base*> raw; const shared_ptr<IList<BaseP>> e = make_shared_ptr<ArrayList<BaseP>>();
	for (int i = 0; i < n; ++i) { const int k = seq::Pick(3); SEQ_LOG("%s", k == 0 ? "left" : k == 1 ? "right" : "null"); BaseP p; if (k == 0) p = make_shared_ptr<Left>(i); else if (k == 1) p = make_shared_ptr<Right>(i); v.push_back(p); l.push_back(p); raw.push_back(p.get()); e->Add(p); all.push_back(k == 2 ? -1 : i); if (k == 0) left.push_back(i); }
	const bool pure = int(left.size()) == n; g_moves = 3;
	switch (seq::Pick(9))
	{
	case 0: Check(Range::Transform(Range::OfType<LeftP>(ToRange(v)), &LeftX), left); break;
	case 1: Check(Range::Transform(ToRange(l) | OfType<LeftP>(), &LeftX), left); break;
	case 2: Check(Range::Transform(Range::Reverse(Range::OfType<LeftP>(ToRange(l))), &LeftX), VI(left.rbegin(), left.rend())); break;
	case 3: if (pure) Check(Range::Transform(ToRange(v) | Cast<LeftP>(), &LeftX), left); else { SEQ_CHECK_MSG(Throws([&]{ for (auto r = ToRange(v) | Cast<LeftP>(); r; ++r) if (!r.Get()) throw std::runtime_error("null"); }), "casting to a type the elements do not have"); } break;
	case 4: { VI a; for (auto x = Enumerable::OfType<LeftP>(e)->GetEnumerator(); x->Valid(); x->Next()) a.push_back(LeftX(x->Get())); SEQ_CHECK_MSG(a == left, "enumerable of a type: %s", Str(a).c_str()); } break;
	case 5: { VI a; for (auto x = Enumerable::OfType<LeftP>(e->GetEnumerator()); x->Valid(); x->Next()) a.push_back(LeftX(x->Get())); SEQ_CHECK_MSG(a == left, "enumerator of a type: %s", Str(a).c_str()); } break;
	case 6: { VI a; FOR_EACH(LeftP p IN e) a.push_back(LeftX(p)); SEQ_CHECK_MSG(a == left, "iterating over a type: %s", Str(a).c_str()); } break;
	case 7: { VI a; FOR_EACH(BaseP p IN e) a.push_back(BaseX(p)); SEQ_CHECK_MSG(a == all, "iterating: %s", Str(a).c_str()); } break;
	case 8: if (pure) { VI a; for (auto x = Enumerable::Cast<LeftP>(e)->GetEnumerator(); x->Valid(); x->Next()) a.push_back(LeftX(x->Get())); SEQ_CHECK_MSG(a == left, "enumerable cast: %s", Str(a).c_str()); } break;
	}
}
