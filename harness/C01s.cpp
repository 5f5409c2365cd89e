// C01: sorted, insertion-ordered, in-place and linked containers against the standard ones.
#include "../seq/seq.h"
#include "common.h"
#include <stingraykit/collection/IntrusiveList.h>
#include <stingraykit/collection/array.h>
#include <stingraykit/collection/bimap.h>
#include <stingraykit/collection/flat_map.h>
#include <stingraykit/collection/flat_set.h>
#include <stingraykit/collection/inplace_vector.h>
#include <stingraykit/collection/ordered_map.h>
#include <stingraykit/collection/ordered_set.h>
#include <map>
#include <set>
#include <vector>
using namespace stingray;

namespace
{
	// an element that must be constructed and destroyed exactly once, and whose copy may throw
	int g_alive = 0, g_copies = 0, g_throwAt = -1;
	struct Boom { };
	struct Tr
	{
		int v; Tr* self;
		void Check() const { SEQ_CHECK_MSG(self == this, "an element that is not alive (or was moved in memory) is used"); }
		Tr(int v_ = 0) : v(v_), self(this) { ++g_alive; }
		Tr(const Tr& o) : v(o.v), self(this) { o.Check(); if (g_copies++ == g_throwAt) { self = NULL; throw Boom(); } ++g_alive; }
		Tr(Tr&& o) noexcept : v(o.v), self(this) { o.Check(); o.v = -1; ++g_alive; }
		~Tr() { Check(); self = NULL; --g_alive; }
		Tr& operator = (const Tr& o) { Check(); o.Check(); if (g_copies++ == g_throwAt) throw Boom(); v = o.v; return *this; }
		Tr& operator = (Tr&& o) noexcept { Check(); o.Check(); if (this != &o) { v = o.v; o.v = -1; } return *this; }
		bool operator == (const Tr& o) const { return v == o.v; }
		bool operator != (const Tr& o) const { return v != o.v; }
		bool operator < (const Tr& o) const { return v < o.v; }
	};
	std::string ToStr(const Tr& t) { return std::to_string(t.v); }
	std::string ToString(const Tr& t) { return std::to_string(t.v); }
	struct Cmp // an order with a state
	{
		bool rev; Cmp(bool r = false) : rev(r) { }
		bool operator () (const Tr& l, const Tr& r) const { l.Check(); r.Check(); return rev ? r.v < l.v : l.v < r.v; }
	};
	const int Keys = 4;

	// the reference: key-value pairs, either sorted by the order or in the order of insertion
	struct Model
	{
		bool ordered, rev; std::vector<std::pair<int, int>> e;
		bool Less(int a, int b) const { return rev ? b < a : a < b; }
		size_t Find(int k) const { for (size_t i = 0; i < e.size(); ++i) if (e[i].first == k) return i; return e.size(); }
		size_t Lower(int k) const { size_t i = 0; while (i < e.size() && Less(e[i].first, k)) ++i; return i; }
		size_t Upper(int k) const { size_t i = 0; while (i < e.size() && !Less(k, e[i].first)) ++i; return i; }
		size_t Insert(size_t at, int k, int v) { const size_t f = Find(k); if (f != e.size()) return f; if (!ordered) at = Lower(k); e.insert(e.begin() + at, std::make_pair(k, v)); return at; }
		void Sort() { Model m = { ordered, rev, { } }; for (auto& x : e) m.Insert(m.e.size(), x.first, x.second); e = m.e; }
	};
	std::string Str(const Model& m) { std::string s; for (auto& x : m.e) s += std::to_string(x.first) + ":" + std::to_string(x.second) + " "; return s; }

	int KeyOf(const Tr& t) { return t.v; } int ValOf(const Tr& t) { return t.v; }
	template < typename P > int KeyOf(const P& p) { return p.first.v; } template < typename P > int ValOf(const P& p) { return p.second.v; }
	template < typename C > struct IsMap { static const bool V = true; };
	template < typename K, typename C, typename A > struct IsMap<flat_set<K, C, A>> { static const bool V = false; };
	template < typename K, typename C, typename A > struct IsMap<ordered_set<K, C, A>> { static const bool V = false; };
	template < typename C > struct IsFlat { static const bool V = true; };
	template < typename K, typename C, typename A > struct IsFlat<ordered_set<K, C, A>> { static const bool V = false; };
	template < typename K, typename T, typename C, typename A > struct IsFlat<ordered_map<K, T, C, A>> { static const bool V = false; };
	template < bool B > struct Bool { };

	template < typename C > typename C::value_type Make(int k, int, Bool<false>) { return typename C::value_type(k); }
	template < typename C > typename C::value_type Make(int k, int v, Bool<true>) { return typename C::value_type(Tr(k), Tr(v)); }

	template < typename C, typename M > void CheckBounds(C& c, const M& m, Bool<true>)
	{
		const C& cc = c;
		for (int k = -1; k <= Keys; ++k)
		{
			const Tr t(k); const ptrdiff_t lo = m.Lower(k), up = m.Upper(k);
			SEQ_CHECK_MSG(c.lower_bound(t) - c.begin() == lo && cc.lower_bound(t) - cc.begin() == lo, "lower bound of %d", k); SEQ_CHECK_MSG(c.upper_bound(t) - c.begin() == up && cc.upper_bound(t) - cc.begin() == up, "upper bound of %d", k);
			SEQ_CHECK_MSG(c.equal_range(t).first - c.begin() == lo && c.equal_range(t).second - c.begin() == up && cc.equal_range(t).first - cc.begin() == lo && cc.equal_range(t).second - cc.begin() == up, "range of %d", k);
		}
	}
	template < typename C, typename M > void CheckBounds(C&, const M&, Bool<false>) { }
	template < typename C, typename M > void CheckAt(C& c, const M& m, Bool<true>)
	{
		const C& cc = c;
		for (int k = -1; k <= Keys; ++k)
		{
			const size_t f = m.Find(k); if (f != m.e.size()) { SEQ_CHECK(c.at(Tr(k)).v == m.e[f].second && cc.at(Tr(k)).v == m.e[f].second); continue; }
			if (k != Keys && k != -1) continue; // exceptions are slow, two absent keys will do
			bool threw = false; try { if (k == Keys) c.at(Tr(k)); else cc.at(Tr(k)); } catch (const std::exception&) { threw = true; } SEQ_CHECK_MSG(threw, "the value of an absent key is given");
		}
	}
	template < typename C, typename M > void CheckAt(C&, const M&, Bool<false>) { }
	template < typename C > void CheckIs(const char* what, C& c, const Model& m, bool last)
	{
		const C& cc = c; SEQ_CHECK_MSG(cc.size() == m.e.size() && cc.empty() == m.e.empty(), "%s: size %zu, expected %s", what, cc.size(), Str(m).c_str());
		size_t i = 0; for (auto it = c.begin(); it != c.end(); ++it, ++i) SEQ_CHECK_MSG(i < m.e.size() && KeyOf(*it) == m.e[i].first && ValOf(*it) == (IsMap<C>::V ? m.e[i].second : m.e[i].first), "%s: element %zu is %d:%d, expected %s", what, i, KeyOf(*it), ValOf(*it), Str(m).c_str());
		SEQ_CHECK(i == m.e.size()); for (auto it = cc.rbegin(); it != cc.rend(); ++it) { --i; SEQ_CHECK(KeyOf(*it) == m.e[i].first); } for (auto it = cc.cbegin(); it != cc.cend(); it++) ++i; SEQ_CHECK(i == m.e.size()); for (auto it = c.rbegin(); it != c.rend(); it++) { --i; SEQ_CHECK(KeyOf(*it) == m.e[i].first); }
		for (int k = -1; k <= Keys; ++k)
		{
			const size_t f = m.Find(k); const Tr t(k); SEQ_CHECK_MSG(c.count(t) == (f != m.e.size()), "%s: count of %d", what, k);
			const auto it = c.find(t); const auto cit = cc.find(t); SEQ_CHECK_MSG((it != c.end()) == (f != m.e.size()) && (cit != cc.end()) == (f != m.e.size()), "%s: %d %sfound", what, k, it == c.end() ? "not " : "");
			if (it != c.end()) SEQ_CHECK(std::distance(c.begin(), it) == (ptrdiff_t)f && std::distance(cc.begin(), cit) == (ptrdiff_t)f);
		}
		CheckBounds(c, m, Bool<IsFlat<C>::V>()); if (last) CheckAt(c, m, Bool<IsMap<C>::V>());
		SEQ_CHECK(c.key_comp().rev == m.rev); SEQ_CHECK(c.value_comp()(Make<C>(1, 0, Bool<IsMap<C>::V>()), Make<C>(2, 0, Bool<IsMap<C>::V>())) == !m.rev && c.value_comp()(Make<C>(2, 0, Bool<IsMap<C>::V>()), Make<C>(1, 0, Bool<IsMap<C>::V>())) == m.rev);
	}
	template < typename C > void OpIndex(C& c, Model& m, int k, int& v, Bool<true>)
	{
		const size_t f = m.Find(k); const int how = seq::Pick(3); Tr t(k); SEQ_LOG("[%d]%s", k, how == 2 ? " read" : " = "); Tr& r = how == 1 ? c[std::move(t)] : c[t];
		SEQ_CHECK_MSG(r.v == (f == m.e.size() ? 0 : m.e[f].second), "[%d] is %d", k, r.v);
		const size_t at = m.Insert(m.e.size(), k, 0); if (how != 2) { r = Tr(++v); m.e[at].second = v; }
	}
	template < typename C > void OpIndex(C&, Model&, int, int&, Bool<false>) { seq::Pick(1); }
	template < typename C > std::pair<typename C::iterator, bool> Emplace(C& c, int k, int v, Bool<true>) { return c.emplace(Tr(k), Tr(v)); }
	template < typename C > std::pair<typename C::iterator, bool> Emplace(C& c, int k, int, Bool<false>) { return c.emplace(k); }
	template < typename C > typename C::iterator EmplaceHint(C& c, typename C::iterator h, int k, int v, Bool<true>) { return c.emplace_hint(h, Tr(k), Tr(v)); }
	template < typename C > typename C::iterator EmplaceHint(C& c, typename C::iterator h, int k, int, Bool<false>) { return c.emplace_hint(h, k); }

	template < typename C > void Drive(int depth, bool throwing)
	{
		typedef Bool<IsMap<C>::V> Map; g_alive = 0; g_throwAt = -1; const bool rev = seq::Flip();
		{
			const Cmp cmp(rev); C c(cmp), d(Cmp(!rev)); Model m = { !IsFlat<C>::V, rev, { } }, dm = { !IsFlat<C>::V, !rev, { } }; int v = 10;
			auto nth = [&] (C& x, size_t i) { auto it = x.begin(); std::advance(it, i); return it; };
			{ const int n = seq::Pick(5); for (int i = 0; i < n; ++i) { const int k = (i * 2 + 1) % 4 ^ (i > 1); c.insert(Make<C>(k, ++v, Map())); m.Insert(m.e.size(), k, v); } SEQ_LOG("initially %s", Str(m).c_str()); }
			for (int s = 0; s < depth; ++s)
			{
				const size_t n = m.e.size(); const Model before = m; bool strong = false; g_copies = 0; g_throwAt = throwing && s == 0 ? seq::Pick(7) : -1;
				try
				{
					switch (seq::Pick(throwing ? 8 : 14))
					{
					case 0: case 1: case 2:
						{
							const int k = seq::Pick(Keys), how = seq::Pick(3); ++v; const size_t f = m.Find(k); SEQ_LOG("insert %d:%d", k, v); strong = !IsFlat<C>::V; const auto x = Make<C>(k, v, Map()); auto y = x;
							const auto r = how == 0 ? c.insert(x) : how == 1 ? c.insert(std::move(y)) : Emplace(c, k, v, Map()); const size_t at = m.Insert(n, k, v);
							SEQ_CHECK_MSG(r.second == (f == n), "inserting %d: %sreported as new", k, r.second ? "" : "not "); SEQ_CHECK(std::distance(c.begin(), r.first) == (ptrdiff_t)at); break;
						}
					case 3: case 4:
						{
							const int k = seq::Pick(Keys), how = seq::Pick(3); const size_t h = seq::Pick((int)n + 1); ++v; SEQ_LOG("insert %d:%d at %zu", k, v, h); strong = !IsFlat<C>::V; const auto x = Make<C>(k, v, Map()); auto y = x;
							const auto r = how == 0 ? c.insert(nth(c, h), x) : how == 1 ? c.insert(nth(c, h), std::move(y)) : EmplaceHint(c, nth(c, h), k, v, Map()); const size_t at = m.Insert(h, k, v);
							SEQ_CHECK_MSG(std::distance(c.begin(), r) == (ptrdiff_t)at, "inserting %d at %zu gave the wrong element", k, h); break;
						}
					case 5: OpIndex(c, m, seq::Pick(Keys), v, Map()); break;
					case 6: // from a range or list
						{
							const int a = seq::Pick(Keys), b = seq::Pick(Keys), how = seq::Pick(4); const std::vector<typename C::value_type> l{ Make<C>(a, v + 1, Map()), Make<C>(b, v + 2, Map()) }; SEQ_LOG("insert range %d %d (%d)", a, b, how);
							if (how == 0) c.insert(l.begin(), l.end()); else if (how == 1) c.insert({ l[0], l[1] }); else if (how == 2) { c = { l[0], l[1] }; m.e.clear(); } else { C t(l.begin(), l.end(), Cmp(m.rev)); c.swap(t); m.e.clear(); }
							m.Insert(m.e.size(), a, v + 1); m.Insert(m.e.size(), b, v + 2); v += 2; break;
						}
					case 7: // copies
						switch (seq::Pick(6))
						{
						case 0: { SEQ_LOG("d is a copy"); C t(c); d.swap(t); dm = m; break; }
						case 1: { SEQ_LOG("d = c"); strong = true; d = c; const bool dr = d.key_comp().rev; SEQ_CHECK(dr == m.rev); dm = m; break; }
						case 2: { SEQ_LOG("d is a copy with allocator"); C t(c, c.get_allocator()); d.swap(t); dm = m; break; }
						case 3: { SEQ_LOG("c = c"); C& self = c; c = self; break; }
						case 4: { SEQ_LOG("d swaps with c"); d.swap(c); std::swap(m, dm); SEQ_CHECK(c.key_comp().rev == m.rev); break; }
						case 5: { SEQ_LOG("d is moved from c"); C t(std::move(c)); d = std::move(t); dm = m; c = C(Cmp(m.rev)); m.e.clear(); break; }
						}
						break;
					case 8: case 9: { const int k = seq::Pick(Keys); const size_t f = m.Find(k), r = c.erase(Tr(k)); SEQ_LOG("erase %d", k); SEQ_CHECK_MSG(r == (f != n), "erasing %d reported %zu", k, r); if (f != n) m.e.erase(m.e.begin() + f); break; }
					case 10: { if (!n) return; const size_t at = seq::Pick((int)n); SEQ_LOG("erase at %zu", at); const auto r = c.erase(nth(c, at)); m.e.erase(m.e.begin() + at); SEQ_CHECK(std::distance(c.begin(), r) == (ptrdiff_t)at); break; }
					case 11: { const size_t from = seq::Pick((int)n + 1), to = from + seq::Pick((int)(n - from) + 1); SEQ_LOG("erase %zu..%zu", from, to); const auto r = c.erase(nth(c, from), nth(c, to)); m.e.erase(m.e.begin() + from, m.e.begin() + to); SEQ_CHECK(std::distance(c.begin(), r) == (ptrdiff_t)from); break; }
					case 12: SEQ_LOG("clear"); c.clear(); m.e.clear(); break;
					case 13:
						{
							SEQ_LOG("d changes"); const int k = seq::Pick(2); d.insert(Make<C>(k, ++v, Map())); dm.Insert(dm.e.size(), k, v);
							break;
						}
					}
				}
				catch (const Boom&)
				{
					g_throwAt = -1; SEQ_LOG("an element's copy threw"); if (!strong) { seq::Step(); goto done; } // the contents are unspecified for vectors, but still a container
					m = before;
				}
				g_throwAt = -1; seq::Step(); const bool last = s == depth - 1; CheckIs("the collection", c, m, last); CheckIs("its copy", d, dm, last);
				std::vector<std::pair<int, int>> me = m.e, de = dm.e; if (!IsMap<C>::V) { for (auto& x : me) x.second = 0; for (auto& x : de) x.second = 0; }
				SEQ_CHECK_MSG((c == d) == (me == de) && (c != d) == (me != de), "comparing %s with %s", Str(m).c_str(), Str(dm).c_str()); SEQ_CHECK((c < d) == (me < de) && (c > d) == (me > de) && (c <= d) == (me <= de) && (c >= d) == (me >= de));
			}
			{ seq::Hash h; for (auto& x : m.e) h.Add(x.first * 2 + rev); seq::State(h); }
		done: ;
		}
		SEQ_CHECK_MSG(g_alive == 0, "%d elements were not destroyed exactly once", g_alive);
	}
}
SEQ_SCENARIO(flat_map_ops, .Q(2).T(3).Split(4)) { Drive<flat_map<Tr, Tr, Cmp>>(depth, false); }
SEQ_SCENARIO(flat_set_ops, .Q(2).T(3).Split(4)) { Drive<flat_set<Tr, Cmp>>(depth, false); }
SEQ_SCENARIO(ordered_map_ops, .Q(2).T(3).Split(4)) { Drive<ordered_map<Tr, Tr, Cmp>>(depth, false); }
SEQ_SCENARIO(ordered_set_ops, .Q(2).T(3).Split(4)) { Drive<ordered_set<Tr, Cmp>>(depth, false); }
SEQ_SCENARIO(throwing_copies, .Q(1).T(2).Split(4)) { switch (seq::Pick(4)) { case 0: Drive<flat_map<Tr, Tr, Cmp>>(depth, true); break; case 1: Drive<flat_set<Tr, Cmp>>(depth, true); break; case 2: Drive<ordered_map<Tr, Tr, Cmp>>(depth, true); break; case 3: Drive<ordered_set<Tr, Cmp>>(depth, true); break; } }

namespace
{
	int g_compares, g_compareAt = -1;
	struct ThrowingCmp { bool operator () (const Tr& l, const Tr& r) const { if (g_compares++ == g_compareAt) throw Boom(); return l.v < r.v; } };
	template < typename C > void ThrowingOrder()
	{
		typedef Bool<IsMap<C>::V> Map; g_alive = 0; g_throwAt = -1; g_compareAt = -1;
		{
			C c; std::vector<std::pair<int, int>> m; static const int K[] = { 4, 1, 3 }; const int n = seq::Pick(4); for (int i = 0; i < n; ++i) { c.insert(Make<C>(K[i], K[i] * 10, Map())); m.push_back(std::make_pair(K[i], K[i] * 10)); }
			if (IsFlat<C>::V) std::sort(m.begin(), m.end());
			const int k = seq::Pick(6), how = seq::Pick(5); const size_t h = seq::Pick(n + 1); auto hint = c.begin(); std::advance(hint, h); const auto x = Make<C>(k, k * 10, Map()); auto y = x; bool threw = false;
			g_compares = 0; g_compareAt = seq::Pick(8); SEQ_LOG("%d in %d elements (%d), comparison %d throws", k, n, how, g_compareAt);
			try { switch (how) { case 0: c.insert(x); break; case 1: c.insert(std::move(y)); break; case 2: c.insert(hint, x); break; case 3: EmplaceHint(c, hint, k, k * 10, Map()); break; case 4: c.erase(Tr(k)); break; } }
			catch (const Boom&) { threw = true; }
			g_compareAt = -1;
			if (!threw)
			{
				size_t f = 0; while (f < m.size() && m[f].first != k) ++f;
				if (how == 4) { if (f < m.size()) m.erase(m.begin() + f); }
				else if (f == m.size()) { if (IsFlat<C>::V) { m.push_back(std::make_pair(k, k * 10)); std::sort(m.begin(), m.end()); } else m.insert(m.begin() + (how == 2 || how == 3 ? h : m.size()), std::make_pair(k, k * 10)); }
			}
			for (int again = 0; again < 2; ++again)
			{
				size_t i = 0; for (auto it = c.begin(); it != c.end(); ++it, ++i) SEQ_CHECK_MSG(i < m.size() && KeyOf(*it) == m[i].first && (!IsMap<C>::V || ValOf(*it) == m[i].second), "%s: element %zu is %d, expected %d", threw ? "after the throw" : "done", i, KeyOf(*it), i < m.size() ? m[i].first : -1);
				SEQ_CHECK_MSG(i == m.size() && c.size() == i, "%s: %zu of %zu elements", threw ? "after the throw" : "done", i, m.size()); for (int j = 0; j < 6; ++j) { size_t f = 0; while (f < m.size() && m[f].first != j) ++f; SEQ_CHECK_MSG((c.find(Tr(j)) != c.end()) == (f < m.size()), "%d is %sfound", j, f < m.size() ? "not " : ""); }
				if (!again) { c.insert(Make<C>(5, 50, Map())); size_t f = 0; while (f < m.size() && m[f].first != 5) ++f; if (f == m.size()) m.push_back(std::make_pair(5, 50)); if (IsFlat<C>::V) std::sort(m.begin(), m.end()); }
			}
		}
		SEQ_CHECK_MSG(g_alive == 0, "%d elements were not destroyed exactly once", g_alive);
	}
}
// an order that throws: nothing is changed by the operation that saw it throw
SEQ_SCENARIO(throwing_orders, .Q(0).T(0).Split(2)) { switch (seq::Pick(4)) { case 0: ThrowingOrder<flat_map<Tr, Tr, ThrowingCmp>>(); break; case 1: ThrowingOrder<flat_set<Tr, ThrowingCmp>>(); break; case 2: ThrowingOrder<ordered_map<Tr, Tr, ThrowingCmp>>(); break; case 3: ThrowingOrder<ordered_set<Tr, ThrowingCmp>>(); break; } }

// an in-place vector against a vector, below, at and above its in-place capacity
namespace
{
	typedef inplace_vector<Tr, 2> IV; typedef std::vector<int> VI;
	void CheckIs(const char* what, IV& c, const VI& m, bool last)
	{
		const IV& cc = c; SEQ_CHECK_MSG(cc.size() == m.size() && cc.empty() == m.empty(), "%s: size %zu, expected %zu", what, cc.size(), m.size()); SEQ_CHECK(cc.capacity() >= m.size());
		size_t i = 0; for (auto it = c.begin(); it != c.end(); ++it, ++i) SEQ_CHECK_MSG(i < m.size() && it->v == m[i], "%s: element %zu is %d", what, i, it->v); SEQ_CHECK(i == m.size());
		for (auto it = cc.rbegin(); it != cc.rend(); ++it) { --i; SEQ_CHECK(it->v == m[i]); } for (i = 0; i < m.size(); ++i) SEQ_CHECK(c[i].v == m[i] && cc[i].v == m[i] && c.at(i).v == m[i] && cc.at(i).v == m[i] && (c.begin() + i)->v == m[i] && cc.begin()[i].v == m[i] && (cc.cend() - (m.size() - i))->v == m[i] && &c[i] == &*(c.begin() + i));
		SEQ_CHECK((size_t)(c.end() - c.begin()) == m.size() && (size_t)(cc.end() - cc.begin()) == m.size()); if (!m.empty()) SEQ_CHECK(c.front().v == m.front() && c.back().v == m.back() && cc.front().v == m.front() && cc.back().v == m.back() && c.begin() < c.end());
		if (last) for (size_t bad : { m.size(), m.size() + 1, ~(size_t)0 }) { bool threw = false; try { cc.at(bad); } catch (const std::exception&) { threw = true; } SEQ_CHECK_MSG(threw, "element %zd of %zu is given", (ssize_t)bad, m.size()); threw = false; try { c[bad]; } catch (const std::exception&) { threw = true; } SEQ_CHECK(threw); }
	}
}
SEQ_SCENARIO(inplace, .Q(3).T(4).Split(4))
{
	g_alive = 0; g_throwAt = -1; { IV c, d; VI m, dm; int v = 0;
	const int initial = seq::Pick(4); for (int i = 0; i < initial; ++i) { c.emplace_back(++v); m.push_back(v); }
	const int throwStep = depth - 1 - seq::Pick(2), throwCopy = seq::Pick(5) - 1;
	for (int s = 0; s < depth; ++s)
	{
		g_copies = 0; const VI before = m, dbefore = dm; bool known = true; if (s == throwStep) g_throwAt = throwCopy; const Tr x(++v); int op = seq::Pick(9);
		try
		{
			switch (op)
			{
			case 0: SEQ_LOG("push"); c.push_back(x); m.push_back(v); break;
			case 1: SEQ_LOG("push moved"); c.push_back(Tr(v)); m.push_back(v); break;
			case 2: SEQ_LOG("emplace"); c.emplace_back(v); m.push_back(v); break;
			case 3: SEQ_LOG("clear"); c.clear(); m.clear(); break;
			case 4: SEQ_LOG("d = c"); known = false; d = c; dm = m; break;
			case 5: { SEQ_LOG("d is a copy"); IV t(c); d = std::move(t); dm = m; SEQ_CHECK(t.empty()); break; }
			case 6: { SEQ_LOG("c = c"); IV& self = c; if (seq::Flip()) c = self; else c = std::move(self); break; }
			case 7: { SEQ_LOG("assign"); known = false; std::vector<Tr> l; VI lm; const int n = seq::Pick(4); l.reserve(n); for (int i = 0; i < n; ++i) { l.emplace_back(100 + i); lm.push_back(100 + i); } c.assign(l.begin(), l.end()); m = lm; break; }
			case 8: if (m.empty()) { SEQ_LOG("reserve"); c.reserve(seq::Pick(2) * 5); } else { SEQ_LOG("write"); const int at = seq::Pick((int)m.size()); *(c.begin() + at) = Tr(v); m[at] = v; } break;
			}
		}
		catch (const Boom&)
		{
			SEQ_LOG("an element's copy threw"); m = before; dm = dbefore; g_throwAt = -1;
			if (!known) { if (op == 4) { d.clear(); dm.clear(); } else { c.clear(); m.clear(); } } // what assignment leaves is not claimed, only that it is a container
		}
		g_throwAt = -1; seq::Step(); CheckIs("the vector", c, m, s == depth - 1); CheckIs("its copy", d, dm, false); SEQ_CHECK_MSG(g_alive == (int)(m.size() + dm.size()) + 1, "%d elements alive, %zu in use", g_alive - 1, m.size() + dm.size());
	} }
	SEQ_CHECK(g_alive == 0);
}
SEQ_SCENARIO(bimap_ops, .Q(3).T(4).Split(4))
{
	typedef bimap<std::map<int, char>, std::map<char, int>> B; B b; std::map<int, char> l; std::map<char, int> r;
	for (int s = 0; s < depth; ++s)
	{
		const int k = seq::Pick(3); const char v = 'a' + seq::Pick(3);
		switch (seq::Pick(7))
		{
		case 0: case 1: { SEQ_LOG("insert %d %c", k, v); if (seq::Flip()) b.left_insert(k, v); else b.right_insert(v, k); if (!l.count(k) && !r.count(v)) { l[k] = v; r[v] = k; } break; }
		case 2: SEQ_LOG("erase %d", k); b.left_erase(k); if (l.count(k)) { r.erase(l[k]); l.erase(k); } break;
		case 3: SEQ_LOG("erase %c", v); b.right_erase(v); if (r.count(v)) { l.erase(r[v]); r.erase(v); } break;
		case 4: SEQ_LOG("erase found %d", k); b.left_erase(b.left_find(k)); if (l.count(k)) { r.erase(l[k]); l.erase(k); } break;
		case 5: SEQ_LOG("erase found %c", v); b.right_erase(b.right_find(v)); if (r.count(v)) { l.erase(r[v]); r.erase(v); } break;
		case 6: SEQ_LOG("clear"); b.clear(); l.clear(); r.clear(); break;
		}
		seq::Step(); const B& cb = b; SEQ_CHECK(cb.size() == l.size() && cb.empty() == l.empty());
		SEQ_CHECK_MSG((std::map<int, char>(cb.left_begin(), cb.left_end()) == l), "left side"); SEQ_CHECK_MSG((std::map<char, int>(cb.right_begin(), cb.right_end()) == r), "right side");
		for (int i = 0; i < 3; ++i) { SEQ_CHECK((cb.left_find(i) != cb.left_end()) == (l.count(i) != 0)); SEQ_CHECK((cb.right_find('a' + i) != cb.right_end()) == (r.count('a' + i) != 0)); if (l.count(i)) SEQ_CHECK(cb.left_find(i)->second == l[i] && cb.left_equal_range(i).first->second == l[i]); SEQ_CHECK(std::distance(cb.right_equal_range('a' + i).first, cb.right_equal_range('a' + i).second) == (ptrdiff_t)r.count('a' + i)); }
		size_t n = 0; for (auto it = cb.left_rbegin(); it != cb.left_rend(); ++it) ++n; for (auto it = cb.right_rbegin(); it != cb.right_rend(); ++it) ++n; SEQ_CHECK(n == 2 * l.size());
	}
}
namespace { struct Node : public IntrusiveListNode<Node> { int id; }; }
SEQ_SCENARIO(intrusive, .Q(5).T(6).Split(4))
{
	Node n[4]; IntrusiveList<Node> a, b; std::vector<int> ma, mb; struct Links { int w[4]; IntrusiveList<Node>& a; IntrusiveList<Node>& b; Node* n; ~Links() { for (int i = 0; i < 4; ++i) if (w[i]) (w[i] == 1 ? a : b).erase(n[i]); } } links = { { 0, 0, 0, 0 }, a, b, n }; int (&where)[4] = links.w; for (int i = 0; i < 4; ++i) n[i].id = i;
	for (int s = 0; s < depth; ++s)
	{
		const int i = seq::Pick(4), to = seq::Pick(3); SEQ_LOG("%s %d", to == 2 ? "erase" : to ? "push to b" : "push to a", i);
		if (to == 2) // taking out what is in no list changes nothing
		{
			IntrusiveList<Node>& l = where[i] == 2 ? b : a; std::vector<int>& m = where[i] == 2 ? mb : ma;
			l.erase(n[i]); if (where[i]) m.erase(std::find(m.begin(), m.end(), i)); where[i] = 0;
		}
		else if (where[i]) continue;
		else { (to ? b : a).push_back(n[i]); (to ? mb : ma).push_back(i); where[i] = 1 + to; }
		seq::Step();
		for (int k = 0; k < 2; ++k)
		{
			IntrusiveList<Node>& l = k ? b : a; const IntrusiveList<Node>& cl = l; const std::vector<int>& m = k ? mb : ma; std::vector<int> f, g, back; for (auto it = l.begin(); it != l.end() && f.size() < 9; ++it) f.push_back(it->id); for (auto it = cl.begin(); it != cl.end() && g.size() < 9; ++it) g.push_back((*it).id);
			for (auto it = l.end(); it != l.begin() && back.size() < 9; ) { --it; back.insert(back.begin(), it->id); } SEQ_CHECK(f == m && g == m && back == m && cl.size() == m.size() && cl.empty() == m.empty());
		}
	}
}
SEQ_SCENARIO(arrays, .Q(3).T(3).Split(3))
{
	typedef array<Tr, 3> A; g_alive = 0; g_throwAt = -1; { A a, b; int x[3], y[3]; for (int i = 0; i < 3; ++i) { SEQ_CHECK(a[i].v == 0); x[i] = seq::Pick(3); y[i] = seq::Pick(3); a[i] = Tr(x[i]); b.at(i) = Tr(y[i]); } std::vector<int> vx(x, x + 3), vy(y, y + 3);
	SEQ_CHECK((a == b) == (vx == vy) && (a != b) == (vx != vy) && (a < b) == (vx < vy) && (a > b) == (vx > vy) && (a <= b) == (vx <= vy) && (a >= b) == (vx >= vy)); seq::Step();
	A c(a); a.swap(b); const A& cb = b; int i = 0; for (const Tr& t : cb) SEQ_CHECK(t.v == vx[i++]); i = 0; for (const Tr& t : a) SEQ_CHECK(t.v == vy[i++]); SEQ_CHECK(c == b && c.front().v == vx[0] && c.back().v == vx[2] && c.data()[1].v == vx[1] && c.size() == 3 && !c.empty() && c.begin() + 3 == c.end() && cb.front().v == vx[0] && cb.back().v == vx[2]);
	a = c; SEQ_CHECK(a == b); b.fill(Tr(7)); for (const Tr& t : b) SEQ_CHECK(t.v == 7); A& self = a; a = self; SEQ_CHECK(a == c); const Tr raw[3] = { Tr(1), Tr(2), Tr(3) }; A d(raw); SEQ_CHECK(d[0].v == 1 && d[2].v == 3);
	for (size_t bad : { (size_t)3, (size_t)4, ~(size_t)0 }) { bool threw = false; try { cb.at(bad); } catch (const std::exception&) { threw = true; } SEQ_CHECK(threw); threw = false; try { b.at(bad); } catch (const std::exception&) { threw = true; } SEQ_CHECK(threw); } }
	SEQ_CHECK(g_alive == 0);
}

// keys which the order holds equivalent are one key, whatever else distinguishes them; the key inserted first stays
namespace
{
	struct Word
	{
		int v, tag; Word(int v_ = 0, int t = 0) : v(v_), tag(t) { }
		bool operator == (const Word& o) const { return v == o.v && tag == o.tag; }
		bool operator < (const Word& o) const { return v > o.v || (v == o.v && tag < o.tag); }
	};
	struct ByNumber { bool operator () (const Word& l, const Word& r) const { return l.v < r.v; } };
	const Word& WordOf(const Word& w) { return w; } template < typename P > const Word& WordOf(const P& p) { return p.first; }
	template < typename C > struct IsWordSet { static const bool V = IsSame<typename C::value_type, Word>::Value || IsSame<typename C::value_type, const Word>::Value; };
	template < typename C > typename C::value_type MakeW(const Word& w, int, Bool<true>) { return typename C::value_type(w); }
	template < typename C > typename C::value_type MakeW(const Word& w, int v, Bool<false>) { return typename C::value_type(w, v); }
	template < typename C > std::pair<typename C::iterator, bool> EmplaceW(C& c, const Word& w, int, Bool<true>) { return c.emplace(w); }
	template < typename C > std::pair<typename C::iterator, bool> EmplaceW(C& c, const Word& w, int v, Bool<false>) { return c.emplace(w, v); }
	template < typename C > void IndexW(C& c, const Word& w, Bool<false>) { c[w]; }
	template < typename C > void IndexW(C& c, const Word& w, Bool<true>) { c.insert(w); }
	template < typename C > void Words(int depth, bool ordered)
	{
		typedef Bool<IsWordSet<C>::V> Set; C c; std::vector<Word> m;
		auto at = [&](int v) { size_t i = 0; while (i < m.size() && m[i].v != v) ++i; return i; };
		for (int s = 0; s < depth; ++s)
		{
			const Word w(seq::Pick(3), seq::Pick(2)); const size_t f = at(w.v); const int op = seq::Pick(5); bool fresh = f == m.size();
			SEQ_LOG("op %d of %d.%d", op, w.v, w.tag);
			switch (op)
			{
			case 0: { const auto r = c.insert(MakeW<C>(w, 1, Set())); SEQ_CHECK_MSG(r.second == fresh && WordOf(*r.first).v == w.v, "insert"); break; }
			case 1: { const auto r = EmplaceW(c, w, 1, Set()); SEQ_CHECK_MSG(r.second == fresh && WordOf(*r.first).v == w.v, "emplace"); break; }
			case 2: { const auto it = c.insert(seq::Flip() ? c.begin() : c.end(), MakeW<C>(w, 1, Set())); SEQ_CHECK_MSG(WordOf(*it).v == w.v, "insert with a hint"); break; }
			case 3: IndexW(c, w, Set()); break;
			case 4: { const size_t n = c.erase(w); SEQ_CHECK_MSG(n == (fresh ? 0 : 1), "%zu erased", n); if (!fresh) m.erase(m.begin() + f); fresh = false; break; }
			}
			if (fresh)
			{
				if (ordered && op == 2 && c.size() == m.size() + 1 && WordOf(*c.begin()).v == w.v) m.insert(m.begin(), w);
				else if (ordered) m.push_back(w);
				else { size_t i = 0; while (i < m.size() && m[i].v < w.v) ++i; m.insert(m.begin() + i, w); }
			}
			SEQ_CHECK_MSG(c.size() == m.size(), "%zu elements instead of %zu", c.size(), m.size());
			size_t i = 0; for (auto it = c.begin(); it != c.end(); ++it, ++i) SEQ_CHECK_MSG(WordOf(*it) == m[i], "element %zu is %d.%d instead of %d.%d", i, WordOf(*it).v, WordOf(*it).tag, m[i].v, m[i].tag);
			for (int v = 0; v < 3; ++v) for (int t = 0; t < 3; ++t)
				SEQ_CHECK_MSG(c.count(Word(v, t)) == (at(v) != m.size()) && (c.find(Word(v, t)) != c.end()) == (at(v) != m.size()), "%d.%d", v, t);
		}
	}
}

SEQ_SCENARIO(equivalent_keys, .Q(3).T(4).Split(2))
{
	switch (seq::Pick(4))
	{
	case 0: return Words<flat_map<Word, int, ByNumber>>(depth, false);
	case 1: return Words<flat_set<Word, ByNumber>>(depth, false);
	case 2: return Words<ordered_map<Word, int, ByNumber>>(depth, true);
	default: return Words<ordered_set<Word, ByNumber>>(depth, true);
	}
}
