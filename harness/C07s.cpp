// C07: comparers on every pair and triple of small domains, against orders written out by hand.
#include "../seq/seq.h"
#include "common.h"
#include <stingraykit/collection/ArrayList.h>
#include <stingraykit/collection/DiffEntry.h>
#include <stingraykit/collection/KeyValuePair.h>
#include <stingraykit/collection/MapDictionary.h>
#include <stingraykit/collection/SortedSet.h>
#include <stingraykit/compare/CollectionComparer.h>
#include <stingraykit/compare/Comparable.h>
#include <stingraykit/compare/MemberListComparer.h>
#include <stingraykit/compare/MemberToValueComparer.h>
#include <stingraykit/compare/comparers.h>
#include <stingraykit/optional.h>
#include <stingraykit/self_counter.h>
#include <stingraykit/Rect.h>
#include <stingraykit/Size.h>
#include <stingraykit/time/BrokenDownTime.h>
#include <stingraykit/time/Time.h>
#include <stingraykit/Tuple.h>
#include <stingraykit/UUID.h>
#include <stingraykit/variant.h>
#include <stingraykit/Version.h>
#include "coll.h"
#include <algorithm>
#include <climits>



namespace
{
	int Sign(long long x) { return x < 0 ? -1 : x > 0 ? 1 : 0; }
	int Sgn(int a, int b) { return a < b ? -1 : a > b ? 1 : 0; }
	int Sgn(const VI& a, const VI& b) { return a < b ? -1 : b < a ? 1 : 0; }
	int Sgn(const std::string& a, const std::string& b) { return a < b ? -1 : b < a ? 1 : 0; }
	// a value and where it stands: a list of numbers, compared lexicographically
	template < typename T > struct Dom { std::vector<T> v; std::vector<VI> key; void Add(const T& t, const VI& k) { v.push_back(t); key.push_back(k); } int Ref(int i, int j) const { return Sgn(key[i], key[j]); } };

	template < typename C, typename A, typename B > void CmpIs(const char* what, const C& c, const A& a, const B& b, int ref)
	{
		const int r = Sign(c(a, b)), q = Sign(c(b, a)); SEQ_CHECK_MSG(r == ref && q == -ref, "%s compare %d and %d the other way, expected %d", what, r, q, ref);
		static_assert(comparers::IsCmpComparer<C>::Value, "a three-way comparer");
		const bool l = comparers::CmpToLess<C>(c)(a, b), g = comparers::CmpToGreater<C>(c)(a, b), e = comparers::CmpToEquals<C>(c)(a, b);
		SEQ_CHECK_MSG(l == (ref < 0) && g == (ref > 0) && e == (ref == 0), "%s: less %d greater %d equal %d, expected %d", what, l, g, e, ref);
		typedef comparers::CmpToLess<C> L; const int again = comparers::LessToCmp<L>(L(c))(a, b); const bool equal = comparers::LessToEquals<L>(L(c))(a, b);
		SEQ_CHECK_MSG(Sign(again) == ref && equal == (ref == 0), "%s through less: %d equal %d, expected %d", what, again, equal, ref);
	}
	template < typename A, typename B > void Views(const char* what, const A& a, const B& b, int ref)
	{
		CmpIs(what, comparers::Cmp(), a, b, ref);
		const bool l = comparers::Less()(a, b), g = comparers::Greater()(a, b), e = comparers::Equals()(a, b);
		SEQ_CHECK_MSG(l == (ref < 0) && g == (ref > 0) && e == (ref == 0), "%s: less %d greater %d equal %d, expected %d", what, l, g, e, ref);
		const int again = comparers::LessToCmp<comparers::Less>()(a, b), back = comparers::LessToCmp<comparers::Greater>()(a, b); const bool equal = comparers::LessToEquals<comparers::Less>()(a, b), same = comparers::LessToEquals<comparers::Greater>()(a, b);
		SEQ_CHECK_MSG(Sign(again) == ref && Sign(back) == -ref && equal == (ref == 0) && same == (ref == 0), "%s through less: %d, through greater %d, equal %d %d, expected %d", what, again, back, equal, same, ref);
	}
	template < typename A, typename B > void Ops(const char* what, const A& a, const B& b, int ref)
	{
		const bool lt = a < b, gt = a > b, le = a <= b, ge = a >= b, eq = a == b, ne = a != b;
		SEQ_CHECK_MSG(lt == (ref < 0) && gt == (ref > 0) && le == (ref <= 0) && ge == (ref >= 0) && eq == (ref == 0) && ne == (ref != 0), "%s: < %d > %d <= %d >= %d == %d != %d, expected %d", what, lt, gt, le, ge, eq, ne, ref);
	}
	// any comparer at all: the axioms, on triples
	template < typename T, typename L > void Strict(const char* what, const std::vector<T>& v, const L& less, int i, int j, int k)
	{
		SEQ_CHECK_MSG(!less(v[i], v[i]), "%s: an element before itself", what); SEQ_CHECK_MSG(!(less(v[i], v[j]) && less(v[j], v[i])), "%s: before one another", what);
		if (less(v[i], v[j]) && less(v[j], v[k])) SEQ_CHECK_MSG(less(v[i], v[k]), "%s: not transitive", what);
		auto same = [&] (int a, int b) { return !less(v[a], v[b]) && !less(v[b], v[a]); }; if (same(i, j) && same(j, k)) SEQ_CHECK_MSG(same(i, k), "%s: equivalence is not transitive", what);
	}
	#define PAIR(D) const int n_ = (int)(D).v.size(), i = seq::Pick(n_), j = seq::Pick(n_), ref = (D).Ref(i, j); const auto& a = (D).v[i]; const auto& b = (D).v[j]; SEQ_LOG("elements %d and %d", i, j); (void)ref; (void)a; (void)b
}

SEQ_SCENARIO(scalars, .Q(1).T(1))
{
	(void)depth; static const int ints[] = { INT_MIN, INT_MIN + 1, -2, -1, 0, 1, 2, INT_MAX - 1, INT_MAX };
	const int kind = seq::Pick(6); SEQ_LOG("kind %d", kind); const int x = ints[seq::Pick(9)], y = ints[seq::Pick(9)];
	if (kind == 0) { Views("integers", x, y, Sgn(x, y)); const int xs = x; Views("an integer and itself", xs, xs, 0); }
	else if (kind == 1) { const unsigned a = x, b = y; Views("unsigned integers", a, b, a < b ? -1 : a > b ? 1 : 0); const u64 c = (u64)a << 32, d = (u64)b << 32; Views("wide integers", c, d, c < d ? -1 : c > d ? 1 : 0); }
	else if (kind == 2) { const unsigned char a = x, b = y; Views("bytes", a, b, Sgn(a, b)); const signed char c = x, d = y; Views("signed bytes", c, d, Sgn(c, d)); }
	else if (kind == 3) { const double a = x / 2.0, b = y / 2.0; Views("doubles", a, b, a < b ? -1 : a > b ? 1 : 0); Views("booleans", x > 0, y > 0, Sgn(x > 0, y > 0)); }
	else if (kind == 4) { const std::string a = std::to_string(x), b = std::to_string(y); Views("strings", a, b, Sgn(a, b)); }
	else { static int z[3]; const int i = seq::Pick(3), j = seq::Pick(3); Views("plain pointers", (const int*)&z[i], (const int*)&z[j], Sgn(i, j)); }
}
SEQ_SCENARIO(shared_pointers, .Q(1).T(1))
{
	(void)depth; typedef shared_ptr<int> P; Dom<P> d; const P one = make_shared_ptr<int>(1);
	d.Add(P(), { }); d.Add(one, { 1 }); d.Add(make_shared_ptr<int>(1), { 1 }); d.Add(make_shared_ptr<int>(2), { 2 }); d.Add(make_shared_ptr<int>(-1), { -1 }); d.Add(one, { 1 }); d.Add(P(), { });
	PAIR(d); Views("shared pointers", a, b, ref);
	Ops("", 0, 0, 0); SEQ_CHECK((a == b) == (a.get() == b.get()) && (a != b) != (a == b)); SEQ_CHECK((a == null) == !a);
	const int byPointer = a.get() < b.get() ? -1 : a.get() > b.get() ? 1 : 0; CmpIs("pointers by address", PointerCmp(), a, b, byPointer); SEQ_CHECK(PointerLess()(a, b) == (byPointer < 0) && PointerGreater()(a, b) == (byPointer > 0) && PointerEquals()(a, b) == !byPointer);
	// by owner: the same for pointers that share ownership, whatever they point at; different owners are ordered
	const P* const o[] = { &d.v[0], &one, &d.v[2], &d.v[3] }; static int other; const P alias(one, &other); const weak_ptr<int> wa(a), wb(b);
	const bool shared = (a && b && a.get() == b.get()) || (!a && !b); SEQ_CHECK_MSG((OwnerCmp()(a, b) == 0) == shared, "owners compare %d", OwnerCmp()(a, b)); CmpIs("owners", OwnerCmp(), a, b, Sign(OwnerCmp()(a, b))); CmpIs("owners", OwnerCmp(), wa, b, Sign(OwnerCmp()(a, b))); CmpIs("owners", OwnerCmp(), wa, wb, Sign(OwnerCmp()(a, b)));
	SEQ_CHECK_MSG(OwnerCmp()(alias, one) == 0 && OwnerEquals()(one, alias) && !OwnerLess()(one, alias), "an alias has another owner"); CmpIs("owner of an alias", OwnerCmp(), alias, b, Sign(OwnerCmp()(one, b)));
	const int k = seq::Pick((int)d.v.size()); Strict("owners", d.v, OwnerLess(), i, j, k); Strict("pointers", d.v, PointerLess(), i, j, k); Strict("values", d.v, comparers::Less(), i, j, k); (void)o;
}
SEQ_SCENARIO(optionals, .Q(1).T(1))
{
	(void)depth; typedef optional<int> O; Dom<O> d; d.Add(null, { }); for (int x : { INT_MIN, -1, 0, 1, INT_MAX }) d.Add(x, { x });
	PAIR(d); Views("optionals", a, b, ref); Ops("optionals", a, b, ref);
	Ops("optional and null", a, null, a ? 1 : 0); Ops("null and optional", null, b, b ? -1 : 0);
	if (b) { Ops("optional and value", a, *b, ref); Ops("value and optional", *b, a, -ref); Views("optional and value", a, a, 0); SEQ_CHECK(Sign(a.Compare(*b)) == ref); }
	SEQ_CHECK(Sign(a.Compare(b)) == ref && Sign(a.Compare(null)) == (a ? 1 : 0));
	typedef optional<O> OO; Dom<OO> dd; dd.Add(null, { }); dd.Add(OO(O()), { 0 }); dd.Add(OO(O(5)), { 0, 5 }); dd.Add(OO(O(-5)), { 0, -5 });
	const int p = seq::Pick(4), q = seq::Pick(4); Views("nested optionals", dd.v[p], dd.v[q], dd.Ref(p, q));
}

namespace
{
	struct M { int x; std::string s; int Twice() const { return x * 2; } const std::string& S() const { return s; } shared_ptr<int> p; };
	struct Backw : public comparers::CmpComparerInfo { int operator () (int a, int b) const { return -Sgn(a, b); } };
	struct ByTens : public comparers::CmpComparerInfo { int operator () (int a, int b) const { return Sgn(a / 10, b / 10); } };
	M Mk(int x, const std::string& s, int p) { M m; m.x = x; m.s = s; if (p >= 0) m.p = make_shared_ptr<int>(p); return m; }
}
SEQ_SCENARIO(members, .Q(1).T(1))
{
	(void)depth; static const char* const ss[] = { "", "a", "ab", "b" };
	auto any = [] (int& s, int& p) { const int x = seq::Pick(3) - 1; s = seq::Pick(4); p = seq::Pick(2) - 1; return Mk(x, ss[s], p); };
	int sa, sb, pa, pb; const M a = any(sa, pa), b = any(sb, pb); SEQ_LOG("%d %s %d; %d %s %d", a.x, ss[sa], pa, b.x, ss[sb], pb);
	const int xs = Sgn(VI{ a.x, sa }, VI{ b.x, sb }), sx = Sgn(VI{ sa, a.x }, VI{ sb, b.x }), sp = Sgn(VI{ sa, pa }, VI{ sb, pb }), rx = Sgn(VI{ -a.x, sa, pa }, VI{ -b.x, sb, pb });
	CmpIs("one member", CompareMembersCmp(&M::x), a, b, Sgn(a.x, b.x)); CmpIs("members x, s", CompareMembersCmp(&M::x, &M::s), a, b, xs); CmpIs("members s, x", CompareMembersCmp(&M::s, &M::x), a, b, sx); CmpIs("members s, pointer", CompareMembersCmp(&M::s, &M::p), a, b, sp);
	CmpIs("methods", CompareMembersCmp(&M::Twice, &M::S), a, b, xs); CmpIs("custom members", CompareMembersCmp(CustomMemberComparer(&M::x, Backw()), &M::S, &M::p), a, b, rx);
	SEQ_CHECK(CompareMembersLess(&M::x, &M::s)(a, b) == (xs < 0) && CompareMembersGreater(&M::x, &M::s)(a, b) == (xs > 0) && CompareMembersEquals(&M::x, &M::s)(a, b) == (xs == 0));
	SEQ_CHECK(CompareMembersLess(CustomMemberComparer(&M::x, Backw()), &M::S, &M::p)(a, b) == (rx < 0) && CompareMembersEquals(CustomMemberComparer(&M::x, Backw()), &M::S, &M::p)(a, b) == (rx == 0) && CompareMembersGreater(CustomMemberComparer(&M::x, Backw()), &M::S, &M::p)(a, b) == (rx > 0));
	// a member against a value, through objects and pointers of all kinds
	const shared_ptr<M> sh = make_shared_ptr<M>(a); const unique_ptr<M> un(new M(a)); const M* const pl = &a; const int r = Sgn(a.x, b.x);
	#define ALLK(cmp_, exp_) SEQ_CHECK_MSG((cmp_)(a) == (exp_) && (cmp_)(sh) == (exp_) && (cmp_)(un) == (exp_) && (cmp_)(pl) == (exp_), "%s", #cmp_)
	ALLK(CompareMemberToValue<comparers::Less>(&M::x, b.x), (r < 0)); ALLK(CompareMemberToValue<comparers::Greater>(&M::x, b.x), (r > 0)); ALLK(CompareMemberToValue<comparers::Equals>(&M::x, b.x), (r == 0)); ALLK(CompareMemberToValue<comparers::Equals>(&M::Twice, b.x * 2), (r == 0)); ALLK(CompareMemberToValue<comparers::Less>(&M::S, b.s), (sa < sb)); ALLK(CompareMemberToValue<ByTens>(&M::x, b.x + 10), (Sgn(a.x / 10, (b.x + 10) / 10)));
	#define BOTH(cmp_, fwd_, back_) { const auto c = cmp_; SEQ_CHECK_MSG(c(a, b.x) == (fwd_) && c(sh, b.x) == (fwd_) && c(pl, b.x) == (fwd_) && c(un, b.x) == (fwd_), "%s of object and value", #cmp_); SEQ_CHECK_MSG(c(b.x, a) == (back_) && c(b.x, sh) == (back_) && c(b.x, pl) == (back_) && c(b.x, un) == (back_), "%s of value and object", #cmp_); }
	BOTH(CompareMemberLess(&M::x), r < 0, r > 0); BOTH(CompareMemberGreater(&M::x), r > 0, r < 0); BOTH(CompareMemberEquals(&M::x), r == 0, r == 0);
}
SEQ_SCENARIO(pairs_and_tuples, .Q(1).T(1))
{
	(void)depth; const int k = seq::Pick(3), v = seq::Pick(3), k2 = seq::Pick(3), v2 = seq::Pick(3), ref = Sgn(VI{ k, v }, VI{ k2, v2 }); SEQ_LOG("%d,%d and %d,%d", k, v, k2, v2);
	typedef KeyValuePair<int, int> P; const P a(k, v), b(k2, v2); Views("key-value pairs", a, b, ref); Views("nested pairs", KeyValuePair<P, int>(a, v2), KeyValuePair<P, int>(b, v2), ref);
	static const CollectionOp::Enum ops[] = { CollectionOp::Added, CollectionOp::Removed, CollectionOp::Updated }; const int o = Sgn((int)ops[k], (int)ops[k2]); Views("diff entries", DiffEntry<int>(ops[k], v), DiffEntry<int>(ops[k2], v2), o ? o : Sgn(v, v2));
	typedef Tuple<TypeList<int, std::string, int> > T; const int m = seq::Pick(2), m2 = seq::Pick(2); static const char* const s[] = { "", "a", "b" }; const T x(k, s[v], m), y(k2, s[v2], m2); const int r3 = Sgn(VI{ k, v, m }, VI{ k2, v2, m2 });
	CmpIs("tuples", TupleCmp<comparers::Cmp>(), x, y, r3); SEQ_CHECK(TupleLess<comparers::Cmp>()(x, y) == (r3 < 0) && TupleGreater<comparers::Cmp>()(x, y) == (r3 > 0) && TupleEquals()(x, y) == (r3 == 0) && TupleEquals()(y, x) == (r3 == 0));
	typedef Tuple<TypeList<int, int> > U; CmpIs("tuples by tens", TupleCmp<ByTens>(), U(k * 7, v * 7), U(k2 * 7, v2 * 7), Sgn(VI{ k * 7 / 10, v * 7 / 10 }, VI{ k2 * 7 / 10, v2 * 7 / 10 }));
	CmpIs("std pairs' members", CompareMembersCmp(&PII::second, &PII::first), PII(k, v), PII(k2, v2), Sgn(VI{ v, k }, VI{ v2, k2 }));
}
namespace
{
	VI Any(int len, int letters) { VI v; const int n = seq::Pick(len + 1); for (int i = 0; i < n; ++i) v.push_back(seq::Pick(letters) - 1); return v; }
	VI Tens(VI v) { for (auto& x : v) x /= 10; return v; }
	template < typename C > C Of(const VI& v) { C c; for (int x : v) c.Add(x); return c; }
}
SEQ_SCENARIO(sequences, .Q(4).T(6).Split(4))
{
	const VI a = Any(depth, 3), b = Any(depth, 3); const int ref = Sgn(a, b); SEQ_LOG("%s and %s", Str(a).c_str(), Str(b).c_str());
	CmpIs("vectors", CollectionCmp(), a, b, ref); SEQ_CHECK(CollectionLess()(a, b) == (ref < 0) && CollectionGreater()(a, b) == (ref > 0) && CollectionEquals()(a, b) == (ref == 0)); CmpIs("a vector and itself", CollectionCmp(), a, a, 0);
	typedef ArrayList<int> L; const auto la = make_shared_ptr<L>(Of<L>(a)), lb = make_shared_ptr<L>(Of<L>(b)); const shared_ptr<L> none;
	CmpIs("lists", CollectionCmp(), la, lb, ref); CmpIs("a list and a vector", CollectionCmp(), *la, b, ref); CmpIs("no list", CollectionCmp(), none, lb, -1); CmpIs("no lists", CollectionCmp(), none, none, 0);
	VI ta, tb; for (int x : a) ta.push_back(x * 7); for (int x : b) tb.push_back(x * 7); CmpIs("vectors by tens", CollectionComparer<ByTens>(), ta, tb, Sgn(Tens(ta), Tens(tb)));
	CmpIs("vectors in the reverse order", CollectionComparer<Backw>(), a, b, [&] { for (size_t i = 0; i < a.size() && i < b.size(); ++i) if (a[i] != b[i]) return Sgn(b[i], a[i]); return Sgn((int)a.size(), (int)b.size()); }());
	std::vector<std::string> sa, sb; for (int x : a) sa.push_back(std::string(x + 1, 'x')); for (int x : b) sb.push_back(std::string(x + 1, 'x')); CmpIs("vectors of strings", CollectionCmp(), sa, sb, ref);
	const std::set<int> ua(a.begin(), a.end()), ub(b.begin(), b.end()); CmpIs("sets", CollectionCmp(), ua, ub, Sgn(VI(ua.begin(), ua.end()), VI(ub.begin(), ub.end())));
}
SEQ_SCENARIO(nested_sequences, .Q(2).T(3).Split(4))
{
	std::vector<VI> a, b; for (auto* v : { &a, &b }) for (int n = seq::Pick(depth + 1); n > 0; --n) v->push_back(Any(2, 2)); const int ref = a < b ? -1 : b < a ? 1 : 0;
	CmpIs("vectors of vectors", CollectionComparer<CollectionCmp>(), a, b, ref);
	typedef MapDictionary<int, int> D; D x, y; std::map<int, int> mx, my; for (auto& v : a) if (v.size() == 2) { x.Set(v[0], v[1]); mx[v[0]] = v[1]; } for (auto& v : b) if (v.size() == 2) { y.Set(v[0], v[1]); my[v[0]] = v[1]; }
	CmpIs("dictionaries", CollectionCmp(), x, y, mx < my ? -1 : my < mx ? 1 : 0);
}
namespace
{
	struct Filler { virtual ~Filler() { } int f; Filler() : f(7) { } };
	struct CA : public Comparable<CA> { int v; CA(int x) : v(x) { } protected: int DoCompare(const CA& o) const override { return Sgn(v, o.v); } };
	struct CB : public Filler, public Comparable<CB> { std::string pad; int v; CB(int x) : v(x) { } protected: int DoCompare(const CB& o) const override { return -Sgn(v, o.v); } };
	struct IC : public virtual IComparable { int g; IC() : g(3) { } };
	struct CC : public Filler, public IC, public Comparable<CC> { int v; CC(int x) : v(x) { } protected: int DoCompare(const CC& o) const override { return Sgn(v, o.v); } };
	struct CI : public IndifferentlyComparable<CI> { int v; CI(int x) : v(x) { } };
}
SEQ_SCENARIO(comparables, .Q(1).T(1))
{
	(void)depth; typedef shared_ptr<IComparable> P; std::vector<P> v; std::vector<PII> key;
	for (int t = 0; t < 4; ++t) for (int x = 0; x < 3; ++x) { v.push_back(t == 0 ? P(new CA(x)) : t == 1 ? P(new CB(x)) : t == 2 ? P(new CC(x)) : P(new CI(x))); key.push_back(PII(t, t == 1 ? -x : t == 3 ? 0 : x)); }
	const int i = seq::Pick(12), j = seq::Pick(12), k = seq::Pick(12); SEQ_LOG("%d %d %d", i, j, k);
	if (key[i].first == key[j].first) Views("comparables", v[i], v[j], Sgn(key[i].second, key[j].second)); else { const int r = Sign(v[i]->Compare(*v[j])); SEQ_CHECK_MSG(r != 0, "objects of different types are equal"); Views("comparables", v[i], v[j], r); for (int x = 0; x < 3; ++x) SEQ_CHECK_MSG(Sign(v[key[i].first * 3 + x]->Compare(*v[j])) == r, "the order of types depends on the values"); }
	Strict("comparables", v, comparers::Less(), i, j, k); SEQ_CHECK(v[i]->Compare(*v[i]) == 0);
}
SEQ_SCENARIO(value_types, .Q(1).T(1).Split(1))
{
	(void)depth; auto any = [] { const int a = seq::Pick(3), b = seq::Pick(3), c = seq::Pick(3); return VI{ a, b, c }; }; const int kind = seq::Pick(9); const VI a = any(), b = any(); SEQ_LOG("kind %d: %s and %s", kind, Str(a).c_str(), Str(b).c_str());
	auto up = [] (const VI& v) { return VI{ v[0], v[1] ? 1 : 0, v[1] }; }; (void)up;
	switch (kind)
	{
	case 0: { auto mk = [] (const VI& v) { return v[2] ? Version(v[0], v[1], (unsigned)v[2] - 1) : Version(v[0], v[1]); }; Ops("versions", mk(a), mk(b), Sgn(a, b)); Views("versions", mk(a), mk(b), Sgn(a, b)); break; }
	case 1: Ops("sizes", Size(a[0], a[1]), Size(b[0], b[1]), Sgn(VI{ a[0], a[1] }, VI{ b[0], b[1] })); break;
	case 2: { typedef BasicPosition<int> P; Ops("positions", P(a[0] - 1, a[1] - 1), P(b[0] - 1, b[1] - 1), Sgn(VI{ a[0], a[1] }, VI{ b[0], b[1] })); break; }
	case 3: { typedef BasicRect<int> R; auto mk = [] (const VI& v) { return R(v[0] - 1, v[1], v[2] + 2, v[0] + 5); }; Ops("rectangles", mk(a), mk(b), Sgn(VI{ a[0], a[1], a[2] }, VI{ b[0], b[1], b[2] })); break; }
	case 4: { typedef variant<TypeList<int, std::string> > V; auto mk = [] (const VI& v) { return v[0] ? V(v[1]) : V(std::string(v[2], 'z')); }; auto key = [] (const VI& v) { return v[0] ? VI{ 0, v[1] } : VI{ 1, v[2] }; }; Ops("variants", mk(a), mk(b), Sgn(key(a), key(b))); Views("variants", mk(a), mk(b), Sgn(key(a), key(b))); break; }
	case 5: { auto mk = [] (const VI& v) { return TimeDuration::FromMilliseconds((v[0] - 1) * 100 + v[1] * 10 + v[2]); }; Ops("durations", mk(a), mk(b), Sgn(a, b)); Views("durations", mk(a), mk(b), Sgn(a, b)); break; }
	case 6: { auto mk = [] (const VI& v) { return Time((v[0] - 1) * 100000 + v[1] * 1000 + v[2]); }; Ops("times", mk(a), mk(b), Sgn(a, b)); Views("times", mk(a), mk(b), Sgn(a, b)); break; }
	case 7: { auto mk = [] (const VI& v) { std::string s = "00000000-0000-0000-0000-000000000000"; s[0] = '0' + v[0]; s[19] = "08f"[v[1]]; s[35] = '0' + v[2]; return UUID::FromString(s); }; Ops("uuids", mk(a), mk(b), Sgn(a, b)); break; }
	case 8: { auto mk = [] (const VI& v) { BrokenDownTime t; t.Year = (s16)(2000 + v[0]); t.Month = (s16)(1 + v[1]); t.Hours = (s16)v[2]; return t; }; const auto x = mk(a), y = mk(b); const int r = Sign(x.Compare(y)); Ops("broken-down times", x, y, r); SEQ_CHECK_MSG((r == 0) == (a == b) && Sign(y.Compare(x)) == -r, "broken-down times compare %d", r); break; }
	}
}
// sorted and looked up by a member
SEQ_SCENARIO(lookups, .Q(6).T(8).Split(2))
{
	const VI raw = Any(depth, 3); std::vector<M> v; for (int x : raw) v.push_back(Mk(x, "", -1)); const bool down = seq::Flip(); const int x = seq::Pick(5) - 2;
	if (down) std::sort(v.begin(), v.end(), CompareMembersGreater(&M::x)); else std::sort(v.begin(), v.end(), CompareMembersLess(&M::x));
	VI s = raw; std::sort(s.begin(), s.end()); if (down) std::reverse(s.begin(), s.end()); for (size_t i = 0; i < s.size(); ++i) SEQ_CHECK_MSG(v[i].x == s[i], "sorted by a member: %d at %zu", v[i].x, i);
	const size_t lo = down ? std::lower_bound(v.begin(), v.end(), x, CompareMemberGreater(&M::x)) - v.begin() : std::lower_bound(v.begin(), v.end(), x, CompareMemberLess(&M::x)) - v.begin(), hi = down ? std::upper_bound(v.begin(), v.end(), x, CompareMemberGreater(&M::x)) - v.begin() : std::upper_bound(v.begin(), v.end(), x, CompareMemberLess(&M::x)) - v.begin();
	size_t l = 0, h = 0; for (int y : s) { const int c = down ? Sgn(x, y) : Sgn(y, x); l += c < 0; h += c <= 0; } SEQ_CHECK_MSG(lo == l && hi == h, "bounds of %d are %zu and %zu, expected %zu and %zu", x, lo, hi, l, h);
}
