// C06: builders, joiners, adapters and function enumerators against plain lists.
#include "ranges.h"
#include <deque>
#include <list>
#include <set>
#include <stingraykit/algorithm.h>
#include <stingraykit/collection/flat_set.h>
#include <stingraykit/collection/CollectionBuilder.h>
#include <stingraykit/collection/CollectionOpVariant.h>
#include <stingraykit/collection/EnumerableWrapper.h>
#include <stingraykit/collection/FuncEnumerator.h>
#include <stingraykit/collection/MakeCollection.h>
#include <stingraykit/collection/StlEnumeratorAdapter.h>

namespace
{
	typedef shared_ptr<IEnumerable<int>> En; typedef shared_ptr<IEnumerator<int>> Er;
	En Of(const VI& v) { EnumerableBuilder<int> b; for (int x : v) b % x; return b; }
	void Views(const En& e, const VI& v)
	{
		Is("enumeration", e->GetEnumerator(), v); Is("second enumeration", e->GetEnumerator(), v);
		const Er a = e->GetEnumerator(); if (!v.empty()) a->Next(); Is("an enumeration within another", e->GetEnumerator(), v); if (!v.empty()) Is("the interrupted enumeration", a, VI(v.begin() + 1, v.end()));
		{ VI r; for (int x : IterableEnumerable(e)) r.push_back(x); SEQ_CHECK_MSG(r == v, "iterated: %s", Str(r).c_str()); }
		{ VI r; for (int x : IterableEnumerable(e->GetEnumerator())) r.push_back(x); SEQ_CHECK_MSG(r == v, "iterated: %s", Str(r).c_str()); }
		{ const VI r(Wrap(e), WrapEnd(e)); SEQ_CHECK_MSG(r == v, "between iterators: %s", Str(r).c_str()); }
		{ const Er q = e->GetEnumerator(); VI r; for (auto i = Wrap(q); i != WrapEnd(q); ++i) { r.push_back(*i); SEQ_CHECK_MSG(*i == q->Get(), "the iterator differs from its enumerator"); SEQ_CHECK_MSG(!(i == WrapEnd(q)), "both equal and different"); } SEQ_CHECK_MSG(r == v && !q->Valid(), "between iterators of an enumerator: %s", Str(r).c_str()); }
		SEQ_CHECK_MSG(Throws([&]{ ++WrapEnd(e); }) && Throws([&]{ *WrapEnd(e); }), "past the end");
	}
}
SEQ_SCENARIO(joiners, .Q(4).T(5).Split(4))
{
	EnumerableJoiner<int> j; EnumeratorJoiner<int> r, s; VI all; const int n = seq::Pick(depth);
	for (int i = 0; i < n; ++i) { const VI v = PickList(2, 2); SEQ_LOG("joined with %s", Str(v).c_str()); j % Of(v); r % Of(v)->GetEnumerator(); s % Of(v)->GetEnumerator(); all.insert(all.end(), v.begin(), v.end()); }
	Views(j, all); Views(j.Get(), all); Is("joined enumerators", r.Get(), all);
	{ const VI v = PickList(2, 2); const shared_ptr<IEnumerable<int>> once = Of(v); EnumerableJoiner<int> j2; j2 % once % once; VI w = v; w.insert(w.end(), v.begin(), v.end()); Views(j2.Get(), w); j2 % once; w.insert(w.end(), v.begin(), v.end()); Views(j2, w); Views(JoinEnumerables(once, once), VI(w.begin(), w.begin() + 2 * v.size())); }
	const Er e = s; for (int x : all) { SEQ_CHECK_MSG(e->Valid() && e->Get() == x && e->Get() == x, "joined enumerator"); e->Next(); }
	SEQ_CHECK_MSG(!e->Valid() && Throws([&]{ e->Get(); }) && Throws([&]{ e->Next(); }), "a joined enumerator past its end"); SEQ_CHECK(!e->Valid());
}
SEQ_SCENARIO(builders, .Q(4).T(5).Split(4))
{
	const VI v = PickList(depth); SEQ_LOG("of %s", Str(v).c_str()); const size_t n = v.size();
	{ EnumerableBuilder<int> b(v.begin(), v.end()); Views(b, v); b.Add(7); b % 8; b.Add(v.begin(), v.end()); VI w = v; w.push_back(7); w.push_back(8); w.insert(w.end(), v.begin(), v.end()); Views(b.Get(), w); }
	{ VectorBuilder<int> b; SetBuilder<int> s; MapBuilder<int, int> m; CollectionBuilder<std::multiset<int>> ms; CollectionBuilder<std::list<int>> l; std::map<int, int> em; for (size_t i = 0; i < n; ++i) { b % v[i]; s % v[i]; ms % v[i]; l % v[i]; m % std::make_pair(v[i], int(i)); em.insert(std::make_pair(v[i], int(i))); } SEQ_CHECK_MSG(b.Get() == v && s.Get() == std::set<int>(v.begin(), v.end()) && ms.Get() == std::multiset<int>(v.begin(), v.end()) && l.Get() == std::list<int>(v.begin(), v.end()) && m.Get() == em, "built collections"); const VI c = b; SEQ_CHECK(c == v); }
	if (n == 2) { const VI b = VectorBuilder<int>(v[0], v[1]); const std::set<int> s = SetBuilder<int>(v[0], v[1]); SEQ_CHECK_MSG(b == v && s == std::set<int>(v.begin(), v.end()) && make_vector(v[0], v[1]) == v, "built from arguments"); }
	if (n == 3) { const VI b = VectorBuilder<int>(v[0], v[1], v[2]); SEQ_CHECK_MSG(b == v && make_vector(v[0], v[1], v[2]) == v, "built from arguments"); }
	{ const VI none = make_vector(); SEQ_CHECK(none.empty()); }
	{ const int m = n; FuncEnumerator<int> f(vh::Fn<int (size_t)>([&](size_t i){ return v.at(i); }), vh::Fn<bool (size_t)>([m](size_t i){ return int(i) < m; })); VI r; for (; f.Valid(); f.Next()) { r.push_back(f.Get()); SEQ_CHECK(f.Get() == r.back()); } SEQ_CHECK_MSG(r == v, "from a function: %s", Str(r).c_str()); f.Next(); SEQ_CHECK(!f.Valid()); }
	{ const shared_ptr<VI> h = make_shared_ptr<VI>(v); weak_ptr<VI> w = h; Views(EnumerableFromStlContainer(*h), v); Views(EnumerableFromStlContainer(*h, h), v); Views(EnumerableFromStlIterators(h->begin(), h->end(), h), v); Views(EnumerableFromStlIterators(h->rbegin(), h->rend()), VI(v.rbegin(), v.rend())); Is("container enumerator", EnumeratorFromStlContainer(*h), v); Is("iterators enumerator", EnumeratorFromStlIterators(h->begin(), h->end(), h), v); }
	{ Er e; { const shared_ptr<VI> h = make_shared_ptr<VI>(v); e = seq::Flip() ? Er(EnumeratorFromStlContainer(*h, h)) : Er(EnumerableFromStlContainer(*h, h)->GetEnumerator()); } Is("an enumerator that keeps its container", e, v); }
}
SEQ_SCENARIO(wrapped_and_cast, .Q(4).T(5).Split(4))
{
	const VI v = PickList(depth); SEQ_LOG("of %s", Str(v).c_str()); const En e = Of(v);
	{ const shared_ptr<IEnumerable<double>> d = WrapEnumerable(e); const shared_ptr<IEnumerator<double>> q = WrapEnumerator(e->GetEnumerator()); auto i = d->GetEnumerator(); for (int x : v) { SEQ_CHECK_MSG(i->Valid() && q->Valid() && i->Get() == x && q->Get() == x, "converted elements"); i->Next(); q->Next(); } SEQ_CHECK_MSG(!i->Valid() && !q->Valid() && Throws([&]{ i->Get(); }) && Throws([&]{ q->Next(); }), "past the end"); }
	{ const En same = GetEnumerableCaster(e); SEQ_CHECK(same == e); }
	struct B { virtual ~B() { } int x; B(int i) : x(i) { } }; struct D : B { D(int i) : B(i) { } }; typedef shared_ptr<B> BP; typedef shared_ptr<D> DP;
	EnumerableBuilder<DP> b; EnumerableBuilder<BP> c; bool mixed = false; for (int x : v) { b % make_shared_ptr<D>(x); if (x == 2) { c % make_shared_ptr<B>(x); mixed = true; } else c % make_shared_ptr<D>(x); }
	const shared_ptr<IEnumerable<DP>> ds = b; const shared_ptr<IEnumerable<BP>> bs = c, up = GetEnumerableCaster(ds); const shared_ptr<IEnumerable<DP>> down = GetEnumerableCaster(bs), only = Enumerable::OfType<DP>(bs);
	{ VI r; for (auto i = up->GetEnumerator(); i->Valid(); i->Next()) r.push_back(i->Get()->x); SEQ_CHECK_MSG(r == v, "cast to the base: %s", Str(r).c_str()); }
	{ VI r, f; for (auto i = only->GetEnumerator(); i->Valid(); i->Next()) { SEQ_CHECK(i->Get().get() == i->Get().get()); r.push_back(i->Get()->x); } for (int x : v) if (x != 2) f.push_back(x); SEQ_CHECK_MSG(r == f, "of type: %s", Str(r).c_str()); }
	{ VI r; bool failed = false; try { for (auto i = down->GetEnumerator(); i->Valid(); i->Next()) { const DP p = i->Get(); SEQ_CHECK(p && p == i->Get()); r.push_back(p->x); } } catch (const std::exception&) { failed = true; } SEQ_CHECK_MSG(failed == mixed && std::equal(r.begin(), r.end(), v.begin()) && (mixed || r == v), "cast to the derived: %s", Str(r).c_str()); }
	{ int calls = 0; const auto t = Enumerable::Where(e, vh::Fn<bool (int)>([&](int x){ ++calls; return x != 1; })); const Er q = t->GetEnumerator(); VI r; for (; q->Valid(); q->Next()) { r.push_back(q->Get()); SEQ_CHECK(q->Get() == r.back()); } VI f; for (int x : v) if (x != 1) f.push_back(x); SEQ_CHECK_MSG(r == f && calls == int(v.size()), "%d calls of the predicate", calls); }
}
SEQ_SCENARIO(operations, .Q(2).T(2).Split(2))
{
	typedef CollectionOpVariant<int> V; V o[2]; int kind[2], a[2], b[2];
	for (int i = 0; i < 2; ++i) { kind[i] = seq::Pick(4); a[i] = seq::Pick(2); b[i] = seq::Pick(2); switch (kind[i]) { case 1: o[i] = V::CreateAdded(a[i]); b[i] = 0; break; case 2: o[i] = V::CreateRemoved(a[i]); b[i] = 0; break; case 3: o[i] = V::CreateModified(a[i], b[i]); break; default: a[i] = b[i] = 0; } SEQ_LOG("%d %d %d", kind[i], a[i], b[i]); }
	SEQ_CHECK_MSG((o[0] == o[1]) == (kind[0] == kind[1] && a[0] == a[1] && b[0] == b[1]) && (o[0] != o[1]) == !(o[0] == o[1]), "equality");
	const V& v = o[0];
	switch (kind[0])
	{
	case 0: SEQ_CHECK(Throws([&]{ v.GetOp(); }) && Throws([&]{ v.AsAdded(); }) && Throws([&]{ v.AsModified(); })); break;
	case 1: SEQ_CHECK(v.GetOp() == CollectionOp::Added && v.AsAdded().Value == a[0] && Throws([&]{ v.AsRemoved(); })); break;
	case 2: SEQ_CHECK(v.GetOp() == CollectionOp::Removed && v.AsRemoved().Value == a[0] && Throws([&]{ v.AsModified(); })); break;
	case 3: SEQ_CHECK(v.GetOp() == CollectionOp::Updated && v.AsModified().OldValue == a[0] && v.AsModified().NewValue == b[0] && Throws([&]{ v.AsAdded(); })); break;
	}
	const V w = v; SEQ_CHECK(w == v);
	const DiffEntry<int> d = MakeDiffEntry(CollectionOp::Added, a[0]), e = MakeDiffEntry(b[0] ? CollectionOp::Removed : CollectionOp::Added, a[1]); SEQ_CHECK((d.Compare(e) == 0) == (!b[0] && a[0] == a[1]) && (d.Compare(e) < 0) == (e.Compare(d) > 0));
}
// removing what satisfies a predicate, from every kind of container
namespace
{
	template <typename C> void EraseIf(const std::vector<int>& src)
	{
		C c(src.begin(), src.end()); std::vector<int> ref, asked, in(c.begin(), c.end()); const int m = seq::Pick(3); for (int x : in) if (x % 3 != m) ref.push_back(x);
		erase_if(c, [&] (int x) { asked.push_back(x); return x % 3 == m; }); SEQ_CHECK_MSG(std::vector<int>(c.begin(), c.end()) == ref && asked == in, "removing %d mod 3 leaves %zu of %zu elements, asked about %zu", m, c.size(), in.size(), asked.size());
	}
}
SEQ_SCENARIO(erasing, .Q(5).T(7).Split(3))
{
	std::vector<int> v; const int n = seq::Pick(depth + 1); for (int i = 0; i < n; ++i) v.push_back(seq::Pick(3) + 3 * (i % 2)); seq::Step();
	switch (seq::Pick(6)) { case 0: EraseIf<std::vector<int>>(v); break; case 1: EraseIf<std::list<int>>(v); break; case 2: EraseIf<std::deque<int>>(v); break; case 3: EraseIf<std::set<int>>(v); break; case 4: EraseIf<std::multiset<int>>(v); break; case 5: EraseIf<flat_set<int>>(v); break; }
}
