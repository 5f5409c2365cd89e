// C06: every nesting of enumerable helpers, over every short list, against plain list functions; diffs, joins and iterators.
#include "ranges.h"
#include <stingraykit/collection/ByteData.h>
#include <stingraykit/collection/EnumerableWrapper.h>



namespace
{
	typedef shared_ptr<IEnumerable<int>> En; typedef shared_ptr<IEnumerator<int>> Er;
	VI Read(const Er& e) { return All<VI>(e); }
	struct Parts { typedef En RetType; En operator () (int x) const { EnumerableBuilder<int> b; for (int i = 0; i < Cut(x); ++i) b % Table[i]; return b; } };
	struct PartErs { typedef Er RetType; Er operator () (int x) const { return Parts()(x)->GetEnumerator(); } };
	En Source(const VI& v)
	{
		switch (seq::Pick(3))
		{
		case 0: { SEQ_LOG("from an array list"); const shared_ptr<IList<int>> l = make_shared_ptr<ArrayList<int>>(); for (int x : v) l->Add(x); return l; }
		case 1: { SEQ_LOG("from a builder"); EnumerableBuilder<int> b; for (int x : v) b % x; return b; }
		default: { SEQ_LOG("from a container"); const shared_ptr<std::list<int>> h = make_shared_ptr<std::list<int>>(v.begin(), v.end()); return EnumerableFromStlContainer(*h, h); }
		}
	}
	void Views(const En& e, const VI& v)
	{
		Is("enumeration", e->GetEnumerator(), v); Is("second enumeration", e->GetEnumerator(), v);
		const Er a = e->GetEnumerator(); if (!v.empty()) a->Next(); Is("an enumeration within another", e->GetEnumerator(), v); if (!v.empty()) Is("the interrupted enumeration", a, From(v, 1));
		if (v.empty()) SEQ_CHECK_MSG(!e->GetEnumerator()->Valid(), "an empty enumeration is valid");
	}
	void Nest(En e, VI v, int depth)
	{
		for (; depth; --depth)
			switch (seq::Pick(14))
			{
			case 0: return Views(e, v);
			case 1: { bool (*f)(int) = seq::Flip() ? IsOdd : IsSmall; SEQ_LOG("where %s", f == IsOdd ? "odd" : "small"); e = seq::Flip() ? En(Enumerable::Where(e, f)) : En(e | Filter(f)); v = FilterL(v, f); } break;
			case 2: SEQ_LOG("transformed"); e = seq::Flip() ? En(Enumerable::Transform(e, &Affine)) : En(e | Transform(&Affine)); v = MapL(v, Affine); break;
			case 3: { const size_t k = seq::Pick(4); SEQ_LOG("first %zu", k); e = k % 2 ? En(Enumerable::Take(e, k)) : En(e | Take(k)); v = TakeL(v, k); } break;
			case 4: { const size_t k = seq::Pick(4); SEQ_LOG("without first %zu", k); e = k % 2 ? En(Enumerable::Skip(e, k)) : En(e | Drop(k)); v = DropL(v, k); } break;
			case 5: SEQ_LOG("reversed"); e = seq::Flip() ? En(Enumerable::Reverse(e)) : En(e | Reverse()); v = Rev(v); break;
			case 6: { const size_t k = seq::Pick(3); SEQ_LOG("with all but %zu appended", k); e = k ? En(Enumerable::Concat(e, En(Enumerable::Skip(e, k)))) : En(JoinEnumerables(e, e)); v = CatL(v, DropL(v, k)); } break;
			case 7: SEQ_LOG("or 9"); e = Enumerable::DefaultIfEmpty(e, 9); if (v.empty()) v.push_back(9); break;
			case 8: SEQ_LOG("or default"); e = Enumerable::DefaultIfEmpty(e); if (v.empty()) v.push_back(0); break;
			case 9: SEQ_LOG("parts flattened"); e = Enumerable::Flatten(Enumerable::Transform(e, Parts())); v = PartsL(v); break;
			case 10: SEQ_LOG("cloned"); e = seq::Flip() ? En(Enumerable::Clone(e)) : En(e | Clone()); break;
			case 11: SEQ_LOG("wrapped"); e = WrapEnumerable(e, &Affine); v = MapL(v, Affine); break;
			case 12: SEQ_LOG("wrapped and filtered"); e = WrapEnumerable(e, &Affine, &IsOdd); v = MapL(FilterL(v, IsOdd), Affine); break;
			case 13: SEQ_LOG("then one item, then nothing"); e = Enumerable::Concat(e, Enumerable::Concat(En(MakeOneItemEnumerable(7)), En(MakeEmptyEnumerable()))); v.push_back(7); break;
			}
		Views(e, v);
	}
	void NestEr(Er e, VI v, int depth)
	{
		for (; depth; --depth)
			switch (seq::Pick(12))
			{
			case 0: return Is("enumeration", e, v);
			case 1: { bool (*f)(int) = seq::Flip() ? IsOdd : IsSmall; SEQ_LOG("where %s", f == IsOdd ? "odd" : "small"); e = Enumerable::Where(e, f); v = FilterL(v, f); } break;
			case 2: SEQ_LOG("transformed"); e = Enumerable::Transform(e, &Affine); v = MapL(v, Affine); break;
			case 3: { const size_t k = seq::Pick(4); SEQ_LOG("first %zu", k); e = Enumerable::Take(e, k); v = TakeL(v, k); } break;
			case 4: { const size_t k = seq::Pick(4); SEQ_LOG("without first %zu", k); e = Enumerable::Skip(e, k); v = DropL(v, k); } break;
			case 5: SEQ_LOG("reversed"); e = Enumerable::Reverse(e); v = Rev(v); break;
			case 6: { const VI o = PickList(1); SEQ_LOG("joined with %s", Str(o).c_str()); EnumerableBuilder<int> b; for (int x : o) b % x; e = seq::Flip() ? Er(Enumerable::Concat(e, b.Get()->GetEnumerator())) : JoinEnumerators(e, b.Get()->GetEnumerator()); v = CatL(v, o); } break;
			case 7: SEQ_LOG("or 9"); e = Enumerable::DefaultIfEmpty(e, 9); if (v.empty()) v.push_back(9); break;
			case 8: SEQ_LOG("one step on"); if (v.empty()) return; e->Next(); v.erase(v.begin()); break;
			case 9: SEQ_LOG("parts flattened"); e = Enumerable::Flatten(Enumerable::Transform(e, PartErs())); v = PartsL(v); break;
			case 10: SEQ_LOG("wrapped"); e = WrapEnumerator(e, &Affine); v = MapL(v, Affine); break;
			case 11: SEQ_LOG("wrapped and filtered"); e = WrapEnumerator(e, &Affine, &IsOdd); v = MapL(FilterL(v, IsOdd), Affine); break;
			}
		Is("enumeration", e, v);
	}
}

#define LIST(MAX) const VI v = PickList(MAX); SEQ_LOG("over %s", Str(v).c_str());
SEQ_SCENARIO(enumerables, .Q(3).T(4).Split(6)) { LIST(3); Nest(Source(v), v, depth); }
SEQ_SCENARIO(enumerators, .Q(3).T(4).Split(6)) { LIST(3); NestEr(Source(v)->GetEnumerator(), v, depth); }
SEQ_SCENARIO(enumerable_ranges, .Q(3).T(4).Split(4))
{
	LIST(depth); g_moves = 3; const En e = Source(v);
	switch (seq::Pick(4)) { case 0: Check(ToRange(*e), v); break; case 1: Check(Range::Transform(ToRange(*e), &Affine), MapL(v, Affine)); break; case 2: Check(Range::Take(Range::Drop(ToRange(*e), 1), 2), TakeL(DropL(v, 1), 2)); break; case 3: { VI a; for (auto&& x : IterableRange(ToRange(*e))) a.push_back(x); SEQ_CHECK_MSG(a == v, "%s", Str(a).c_str()); } break; }
}
SEQ_SCENARIO(enumerable_answers, .Q(3).T(4).Split(4))
{
	LIST(depth); const En e = Source(v); const int x = seq::Pick(4), k = seq::Pick(5); const size_t n = v.size(), at = std::find(v.begin(), v.end(), x) - v.begin(), odd = std::find_if(v.begin(), v.end(), IsOdd) - v.begin(); SEQ_LOG("asking about %d and position %d", x, k);
	const VI odds = FilterL(v, IsOdd);
	#define IS(E) SEQ_CHECK_MSG((E), "%s over %s with %d, %d", #E, Str(v).c_str(), x, k)
	using namespace Enumerable;
	IS(Count(e) == n); IS(Count(e->GetEnumerator()) == n); IS((e | stingray::Count()) == n); IS(Count(e, &IsOdd) == odds.size()); IS(Any(e) == (n > 0)); IS((e | stingray::Any()) == (n > 0)); IS(Any(e, &IsOdd) == !odds.empty()); IS(All(e, &IsOdd) == (odds.size() == n));
	IS(Contains(e, x) == (at < n)); IS(Contains(e, &IsOdd) == (odd < n));
	{ const optional<size_t> a = IndexOf(e, x), b = IndexOf(e, &IsOdd); IS(a.is_initialized() == (at < n) && (!a || *a == at)); IS(b.is_initialized() == (odd < n) && (!b || *b == odd)); }
	if (k < int(n)) IS(ElementAt(e, k) == v[k]); else IS(Throws([&]{ ElementAt(e, k); }));
	{ const optional<int> a = ElementAtOrDefault(e, k); IS(a.is_initialized() == (k < int(n)) && (!a || *a == v[k])); IS(ElementAtOrDefault(e, k, -7) == (k < int(n) ? v[k] : -7)); }
	if (n) { IS(First(e) == v[0]); IS((e | stingray::First()) == v[0]); IS(Last(e) == v.back()); IS(Last(e->GetEnumerator()) == v.back()); } else { IS(Throws([&]{ First(e); })); IS(Throws([&]{ Last(e); })); }
	if (!odds.empty()) { IS(First(e, &IsOdd) == odds[0]); IS(Last(e, &IsOdd) == odds.back()); } else { IS(Throws([&]{ First(e, &IsOdd); })); IS(Throws([&]{ Last(e, &IsOdd); })); }
	{ const optional<int> a = FirstOrDefault(e), b = LastOrDefault(e), c = e | stingray::FirstOrDefault(); IS(a.is_initialized() == (n > 0) && b.is_initialized() == (n > 0) && a == c); if (n) IS(*a == v[0] && *b == v.back()); IS(FirstOrDefault(e, -7) == (n ? v[0] : -7)); IS(LastOrDefault(e, -7) == (n ? v.back() : -7)); }
	{ const optional<int> a = FirstOrDefault(e, &IsOdd), b = LastOrDefault(e, &IsOdd); IS(a.is_initialized() == !odds.empty() && b.is_initialized() == !odds.empty()); if (a) IS(*a == odds[0] && *b == odds.back()); IS(FirstOrDefault(e, &IsOdd, -7) == (odds.empty() ? -7 : odds[0])); IS(LastOrDefault(e, &IsOdd, -7) == (odds.empty() ? -7 : odds.back())); }
	if (n == 1) IS(Single(e) == v[0]); else IS(Throws([&]{ Single(e); }));
	{ int h = 5; for (int y : v) h = Digits(h, y); IS(Aggregate(e, 5, &Digits) == h); const optional<int> f = Aggregate(e, &Digits); int g = n ? v[0] : 0; for (size_t i = 1; i < n; ++i) g = Digits(g, v[i]); IS(f.is_initialized() == (n > 0) && (!f || *f == g)); }
	{ VI w; ForEach(e, vh::Fn<void(int)>([&](int y) { w.push_back(y); })); IS(w == v); VI q, r; FOR_EACH(int y IN e) q.push_back(y); FOR_EACH(int y IN e WHERE IsOdd(y)) r.push_back(y); IS(q == v); IS(r == odds); VI z; FOR_EACH(int y IN e) { if (y == x) break; z.push_back(y); } IS(z == TakeL(v, at)); VI u; FOR_EACH(int y IN e) { if (y == x) continue; u.push_back(y); } VI g; for (int y : v) if (y != x) g.push_back(y); IS(u == g); }
	#undef IS
}
namespace { bool SameMod(int a, int b) { return a % 2 == b % 2; } }
SEQ_SCENARIO(comparing, .Q(4).T(5).Split(4))
{
	const VI a = PickList(depth), b = PickList(depth); SEQ_LOG("%s and %s", Str(a).c_str(), Str(b).c_str()); EnumerableBuilder<int> x, y; for (int i : a) x % i; for (int i : b) y % i; const En e = x, f = y;
	bool mod = a.size() == b.size(); for (size_t i = 0; mod && i < a.size(); ++i) mod = SameMod(a[i], b[i]);
	SEQ_CHECK_MSG(Enumerable::SequenceEqual(e, f) == (a == b), "sequence equality"); SEQ_CHECK_MSG(Enumerable::SequenceEqual(e->GetEnumerator(), f->GetEnumerator()) == (a == b), "sequence equality of enumerators"); SEQ_CHECK_MSG(Enumerable::SequenceEqual(e, f, &SameMod) == mod, "sequence equality by a predicate");
	if (!std::is_sorted(a.begin(), a.end()) || !std::is_sorted(b.begin(), b.end())) return;
	VP ref; { size_t i = 0, j = 0; while (i < a.size() || j < b.size()) if (i < a.size() && j < b.size() && a[i] == b[j]) { ++i; ++j; } else if (j == b.size() || (i < a.size() && a[i] < b[j])) ref.push_back(PII(-1, a[i++])); else ref.push_back(PII(1, b[j++])); }
	struct G { static VP Do(const shared_ptr<IEnumerator<DiffEntry<int>>>& d) { VP r; for (; d->Valid(); d->Next()) { const DiffEntry<int> q = d->Get(); r.push_back(PII(q.Op == CollectionOp::Added ? 1 : q.Op == CollectionOp::Removed ? -1 : 0, q.Item)); } return r; } };
	const auto d = Enumerable::Diff(e, f, comparers::Cmp()); const VP r0 = G::Do(d->GetEnumerator()), r1 = G::Do(d->GetEnumerator()), r2 = G::Do(Enumerable::Diff(e->GetEnumerator(), f->GetEnumerator(), comparers::Cmp()));
	SEQ_CHECK_MSG(r0 == ref && r1 == ref && r2 == ref, "difference: %s then %s, of enumerators %s, expected %s", Str(r0).c_str(), Str(r1).c_str(), Str(r2).c_str(), Str(ref).c_str());
}
namespace
{
	typedef std::vector<u8> VB;
	struct Pieces { VB all; int n; Pieces() : n(0) { } template < typename I > void operator () (const I& a, const I& b) { all.insert(all.end(), a, b); ++n; SEQ_CHECK_MSG(a != b, "an empty piece"); } };
	template < typename J > void Joined(const J& j, const VB& ref)
	{
		const int n = ref.size(); SEQ_CHECK_MSG(j.size() == ref.size(), "size %zu of %d", j.size(), n);
		VB a; for (auto i = j.begin(); i != j.end(); ++i) a.push_back(*i); SEQ_CHECK_MSG(a == ref, "joined contents differ"); VB b; for (auto i = j.end(); i != j.begin(); ) b.push_back(*--i); std::reverse(b.begin(), b.end()); SEQ_CHECK_MSG(b == ref, "joined contents backwards differ");
		for (int p = 0; p <= n; ++p) for (int q = 0; q <= n; ++q)
		{
			auto i = j.begin() + p; const auto k = i + (q - p); SEQ_CHECK_MSG(k - i == q - p && (k == i) == (p == q) && (i < k) == (p < q) && (q == n || *k == ref[q]), "from %d to %d", p, q); i += q - p; SEQ_CHECK_MSG(i == k && i - j.begin() == q && j.end() - i == n - q && (i == j.end()) == (q == n), "moving from %d to %d", p, q);
			if (p <= q) { Pieces v; J::ApplyToIntervals(j.begin() + p, j.begin() + q, v); SEQ_CHECK_MSG(v.all == VB(ref.begin() + p, ref.begin() + q), "pieces from %d to %d hold %zu bytes", p, q, v.all.size()); }
		}
	}
}
SEQ_SCENARIO(data_joiner, .Q(3).T(4).Split(2))
{
	VB parts[3], ref; for (VB& p : parts) { const int n = seq::Pick(depth + 1); for (int i = 0; i < n; ++i) p.push_back(1 + ref.size() + i); ref.insert(ref.end(), p.begin(), p.end()); SEQ_LOG("%d bytes", n); }
	const ConstByteData last(parts[2].data(), parts[2].size()), mid(parts[1].data(), parts[1].size());
	switch (seq::Pick(3))
	{
	case 0: { typedef DataJoiner<TypeList<VB, VB, ConstByteData>> J; const J j(MakeTuple(&parts[0], &parts[1], &last)); Joined(j, ref); } break;
	case 1: { typedef DataJoiner<TypeList<VB, ConstByteData>> J; const J j(MakeTuple(&parts[0], &mid)); Joined(j, VB(ref.begin(), ref.begin() + parts[0].size() + parts[1].size())); } break;
	case 2: { typedef DataJoiner<TypeList<VB>> J; const J j(MakeTuple(&parts[0])); Joined(j, parts[0]); } break;
	}
}
SEQ_SCENARIO(keys_and_values, .Q(3).T(4).Split(2))
{
	std::map<int, int> m; const shared_ptr<IDictionary<int, int>> d = make_shared_ptr<MapDictionary<int, int>>(); const int n = seq::Pick(depth + 1); for (int i = 0; i < n; ++i) { const int k = seq::Pick(4); m[k] = 10 * k + i; d->Set(k, 10 * k + i); SEQ_LOG("%d:%d", k, 10 * k + i); }
	VI k, v; for (auto& p : m) { k.push_back(p.first); v.push_back(p.second); }
	VI a(keys_iterator(m.begin()), keys_iterator(m.end())), b(values_iterator(m.begin()), values_iterator(m.end())); SEQ_CHECK_MSG(a == k && b == v, "iterators over keys %s and values %s", Str(a).c_str(), Str(b).c_str());
	{ VI c, e; for (auto i = keys_iterator(m.end()); i != keys_iterator(m.begin()); ) c.push_back(*--i); for (auto i = values_iterator(m.end()); i != values_iterator(m.begin()); ) e.push_back(*--i); SEQ_CHECK_MSG(c == Rev(k) && e == Rev(v), "backwards: keys %s values %s", Str(c).c_str(), Str(e).c_str()); }
	Is("enumerable of keys", KeysEnumerable(d)->GetEnumerator(), k); Is("enumerable of values", ValuesEnumerable(d)->GetEnumerator(), v); Is("enumerator of keys", KeysEnumerator(d->GetEnumerator()), k); Is("enumerator of values", ValuesEnumerator(d->GetEnumerator()), v);
	for (auto i = values_iterator(m.begin()); i != values_iterator(m.end()); ++i) *i += 100; for (auto& p : m) SEQ_CHECK_MSG(p.second >= 100, "writing through a values iterator: %d", p.second);
	std::map<int, int> o; o[1] = -1; o[9] = -9; std::map<int, int> e = o; for (auto& p : m) e[p.first] = p.second; std::copy(m.begin(), m.end(), update_iterator(o)); SEQ_CHECK_MSG(o == e, "updating a map through an iterator");
}
