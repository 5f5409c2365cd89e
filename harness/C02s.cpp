// C02: lists, sets, dictionaries, their multi- and counted variants and casters against plain vectors.
#include "../seq/seq.h"
#include "common.h"
#include <stingraykit/collection/ArrayList.h>
#include <stingraykit/collection/DictionaryCaster.h>
#include <stingraykit/collection/DictionaryKeysSet.h>
#include <stingraykit/collection/FlatMapDictionary.h>
#include <stingraykit/collection/FlatSortedSet.h>
#include <stingraykit/collection/ListCaster.h>
#include <stingraykit/collection/MapDictionary.h>
#include <stingraykit/collection/MultiMapDictionary.h>
#include <stingraykit/collection/OrderedDictionary.h>
#include <stingraykit/collection/OrderedSet.h>
#include <stingraykit/collection/RefCounter.h>
#include <harness/iter.h>
#include <stingraykit/collection/RefCountingMap.h>
#include <stingraykit/collection/RefCountingSet.h>
#include <stingraykit/collection/RefCountingValue.h>
#include <stingraykit/collection/SetCaster.h>
#include <stingraykit/collection/SortedMultiSet.h>
#include <stingraykit/collection/SortedSet.h>
#include "coll.h"

SEQ_SCENARIO(lists, .Q(3).T(4).Split(3))
{
	typedef ArrayList<int> L; L l, other; VI m, mo; Snaps<int, VI> snaps; int next = 10;
	{ const int n = seq::Pick(4); for (int i = 0; i < n; ++i) { l.Add(i % 2); m.push_back(i % 2); } }
	for (int s = 0; s < depth; ++s)
	{
		const int n = (int)m.size();
		switch (seq::Pick(11))
		{
		case 0: SEQ_LOG("add"); l.Add(++next); m.push_back(next); break;
		case 1: { const int v = seq::Pick(2); SEQ_LOG("add %d", v); l.Add(v); m.push_back(v); break; }
		case 2: { const int i = seq::Pick(n + 2); SEQ_LOG("set %d", i); ++next; const bool t = Throws([&] { l.Set(i < n + 1 ? i : -1, next); }); SEQ_CHECK_MSG(t == (i >= n), "setting %d of %d", i, n); if (!t) m[i] = next; break; }
		case 3: { const int i = seq::Pick(n + 2); SEQ_LOG("insert at %d", i); ++next; const bool t = Throws([&] { l.Insert(i, next); }); SEQ_CHECK_MSG(t == (i > n), "inserting at %d of %d", i, n); if (!t) m.insert(m.begin() + i, next); break; }
		case 4: { const int i = seq::Pick(n + 1); SEQ_LOG("remove at %d", i); const bool t = Throws([&] { l.RemoveAt(i); }); SEQ_CHECK(t == (i >= n)); if (!t) m.erase(m.begin() + i); break; }
		case 5: { const int v = seq::Pick(2); SEQ_LOG("remove %d", v); const auto it = std::find(m.begin(), m.end(), v); const bool r = l.Remove(v); SEQ_CHECK(r == (it != m.end())); if (r) m.erase(it); break; }
		case 6: { const int v = seq::Pick(3); SEQ_LOG("remove all of kind %d", v); const auto p = [v] (const int& x) { return v == 2 ? x >= 10 : x == v; }; const size_t r = l.RemoveAll(vh::Fn<bool (const int&)>(p)); const auto it = std::remove_if(m.begin(), m.end(), p); SEQ_CHECK_MSG(r == (size_t)(m.end() - it), "removing all of kind %d reported %zu", v, r); m.erase(it, m.end()); break; }
		case 7: SEQ_LOG("clear"); l.Clear(); m.clear(); break;
		case 8: case 9: snaps.Take(l, m); break;
		case 10: switch (seq::Pick(4)) { case 0: SEQ_LOG("copy"); other = l; mo = m; break; case 1: { SEQ_LOG("l = copy of l"); L t(l); l = t; break; } case 2: { SEQ_LOG("l = l"); L& self = l; l = self; break; } case 3: { SEQ_LOG("other of enumeration"); shared_ptr<IEnumerator<int>> e = l.GetEnumerator(); L t(e); other = t; mo = m; break; } } break;
		}
		seq::Step();
		SEQ_CHECK_MSG(l.GetCount() == m.size() && l.IsEmpty() == m.empty(), "%zu elements, expected %zu", l.GetCount(), m.size()); Is("the list", l.GetEnumerator(), m); Is("the list reversed", l.Reverse()->GetEnumerator(), Rev(m)); Is("the copy", other.GetEnumerator(), mo);
		for (size_t i = 0; i < m.size(); ++i) { int v = -7; SEQ_CHECK(l.Get(i) == m[i] && l.TryGet(i, v) && v == m[i]); }
		int v = -7; SEQ_CHECK(!l.TryGet(m.size(), v) && !l.TryGet(~(size_t)0, v) && v == -7);
		for (int k : { 0, 1, 11, 99 }) { const auto it = std::find(m.begin(), m.end(), k); SEQ_CHECK(l.Contains(k) == (it != m.end())); const optional<size_t> i = l.IndexOf(k); SEQ_CHECK(i.is_initialized() == (it != m.end()) && (!i || *i == (size_t)(it - m.begin()))); }
	}
	SEQ_CHECK(Throws([&] { l.Get(m.size()); })); snaps.Check();
	{ const auto e = l.GetEnumerator(); All<VI>(e); SEQ_CHECK(Throws([&] { e->Get(); }) && Throws([&] { e->Next(); })); }
}

namespace
{
	const int Keys = 3;
	template < typename S > void Sets(int depth, bool sorted)
	{
		S l, other; VI m, mo; Snaps<int, VI> snaps; auto ins = [sorted] (VI& v, int k) { if (sorted) v.insert(std::lower_bound(v.begin(), v.end(), k), k); else v.push_back(k); };
		{ const int n = seq::Pick(3); for (int i = 0; i < n; ++i) { l.Add(2 - 2 * i); ins(m, 2 - 2 * i); } }
		for (int s = 0; s < depth; ++s)
		{
			switch (seq::Pick(8))
			{
			case 0: case 1: { const int k = seq::Pick(Keys); SEQ_LOG("add %d", k); const bool had = std::find(m.begin(), m.end(), k) != m.end(); SEQ_CHECK_MSG(l.Add(k) == !had, "adding %d", k); if (!had) ins(m, k); break; }
			case 2: { const int k = seq::Pick(Keys); SEQ_LOG("remove %d", k); const auto it = std::find(m.begin(), m.end(), k); SEQ_CHECK_MSG(l.Remove(k) == (it != m.end()), "removing %d", k); if (it != m.end()) m.erase(it); break; }
			case 3: { const int k = seq::Pick(4); SEQ_LOG("remove where %d", k); const auto p = [k] (const int& x) { return k == 3 ? x < 2 : x == k; }; const size_t r = l.RemoveWhere(vh::Fn<bool (const int&)>(p)); const auto it = std::remove_if(m.begin(), m.end(), p); SEQ_CHECK_MSG(r == (size_t)(m.end() - it), "removing where reported %zu", r); m.erase(it, m.end()); break; }
			case 4: SEQ_LOG("clear"); l.Clear(); m.clear(); break;
			case 5: case 6: snaps.Take(l, m); break;
			case 7: switch (seq::Pick(4)) { case 0: SEQ_LOG("copy"); other = l; mo = m; break; case 1: { SEQ_LOG("l = copy of l"); S t(l); l = t; break; } case 2: { SEQ_LOG("l = l"); S& self = l; l = self; break; } case 3: { SEQ_LOG("other of enumeration"); shared_ptr<IEnumerator<int>> e = l.GetEnumerator(); S t(e); other = t; mo = m; break; } } break;
			}
			seq::Step();
			SEQ_CHECK(l.GetCount() == m.size() && l.IsEmpty() == m.empty()); Is("the set", l.GetEnumerator(), m); Is("the set reversed", l.Reverse()->GetEnumerator(), Rev(m)); Is("the copy", other.GetEnumerator(), mo);
			for (int k = -1; k <= Keys; ++k)
			{
				const size_t i = std::find(m.begin(), m.end(), k) - m.begin(); SEQ_CHECK_MSG(l.Contains(k) == (i != m.size()), "contains %d", k);
				Is("found", l.Find(k), From(m, i)); Is("found from the end", l.ReverseFind(k), i == m.size() ? VI() : Rev(VI(m.begin(), m.begin() + i + 1)));
			}
		}
		snaps.Check(); const auto e = l.Find(77); SEQ_CHECK(!e->Valid() && Throws([&] { e->Get(); }));
	}
	template < typename D > void Dicts(int depth, bool sorted)
	{
		typedef typename D::PairType P; D l, other; VP m, mo; Snaps<P, VP> snaps; int next = 10;
		auto find = [] (const VP& v, int k) { size_t i = 0; while (i < v.size() && v[i].first != k) ++i; return i; }; auto ins = [sorted] (VP& v, int k, int x) { size_t i = v.size(); if (sorted) for (i = 0; i < v.size() && v[i].first < k; ) ++i; v.insert(v.begin() + i, PII(k, x)); };
		{ const int n = seq::Pick(3); for (int i = 0; i < n; ++i) { l.Add(2 - 2 * i, ++next); ins(m, 2 - 2 * i, next); } }
		for (int s = 0; s < depth; ++s)
		{
			switch (seq::Pick(8))
			{
			case 0: { const int k = seq::Pick(Keys); ++next; SEQ_LOG("add %d", k); const size_t i = find(m, k); SEQ_CHECK_MSG(l.Add(k, next) == (i == m.size()), "adding %d", k); if (i == m.size()) ins(m, k, next); break; }
			case 1: { const int k = seq::Pick(Keys); ++next; SEQ_LOG("set %d", k); const size_t i = find(m, k); l.Set(k, next); if (i == m.size()) ins(m, k, next); else m[i].second = next; break; }
			case 2: { const int k = seq::Pick(Keys); SEQ_LOG("remove %d", k); const size_t i = find(m, k); SEQ_CHECK_MSG(l.Remove(k) == (i != m.size()), "removing %d", k); if (i != m.size()) m.erase(m.begin() + i); break; }
			case 3: { const int k = seq::Pick(5); SEQ_LOG("remove where %d", k); const auto p = [k] (const int& x, const int& v) { return k == 3 ? x < 2 : k == 4 ? v % 2 == 0 : x == k; }; const size_t r = l.RemoveWhere(vh::Fn<bool (const int&, const int&)>(p)); const auto it = std::remove_if(m.begin(), m.end(), [&] (const PII& x) { return p(x.first, x.second); }); SEQ_CHECK_MSG(r == (size_t)(m.end() - it), "removing where reported %zu", r); m.erase(it, m.end()); break; }
			case 4: SEQ_LOG("clear"); l.Clear(); m.clear(); break;
			case 5: case 6: snaps.Take(l, m); break;
			case 7: switch (seq::Pick(4)) { case 0: SEQ_LOG("copy"); other = l; mo = m; break; case 1: { SEQ_LOG("l = copy of l"); D t(l); l = t; break; } case 2: { SEQ_LOG("l = l"); D& self = l; l = self; break; } case 3: { SEQ_LOG("other of enumeration"); shared_ptr<IEnumerator<P>> e = l.GetEnumerator(); D t(e); other = t; mo = m; break; } } break;
			}
			seq::Step();
			SEQ_CHECK(l.GetCount() == m.size() && l.IsEmpty() == m.empty()); Is("the dictionary", l.GetEnumerator(), m); Is("the dictionary reversed", l.Reverse()->GetEnumerator(), Rev(m)); Is("the copy", other.GetEnumerator(), mo);
			for (int k = -1; k <= Keys; ++k)
			{
				const size_t i = find(m, k); int v = -7; const bool has = i != m.size(); SEQ_CHECK_MSG(l.ContainsKey(k) == has, "contains %d", k); SEQ_CHECK(l.TryGet(k, v) == has && v == (has ? m[i].second : -7)); if (has) SEQ_CHECK(l.Get(k) == m[i].second);
				Is("found", l.Find(k), From(m, i)); Is("found from the end", l.ReverseFind(k), has ? Rev(VP(m.begin(), m.begin() + i + 1)) : VP());
			}
		}
		SEQ_CHECK(Throws([&] { l.Get(Keys); })); snaps.Check();
		{ const auto d = make_shared_ptr<D>(l); const DictionaryKeysSet<int, int> keys(d); VI mk; for (auto& x : m) mk.push_back(x.first); Is("the keys", keys.GetEnumerator(), mk); Is("the keys reversed", keys.Reverse()->GetEnumerator(), Rev(mk)); SEQ_CHECK(keys.GetCount() == mk.size() && keys.IsEmpty() == mk.empty()); for (int k = -1; k <= Keys; ++k) { const size_t i = std::find(mk.begin(), mk.end(), k) - mk.begin(); SEQ_CHECK(keys.Contains(k) == (i != mk.size())); Is("the keys from", keys.Find(k), From(mk, i)); Is("the keys back from", keys.ReverseFind(k), i == mk.size() ? VI() : Rev(VI(mk.begin(), mk.begin() + i + 1))); } }
	}
}
SEQ_SCENARIO(sorted_sets, .Q(3).T(4).Split(3)) { Sets<SortedSet<int>>(depth, true); }
SEQ_SCENARIO(flat_sets, .Q(3).T(4).Split(3)) { Sets<FlatSortedSet<int>>(depth, true); }
SEQ_SCENARIO(ordered_sets, .Q(3).T(4).Split(3)) { Sets<OrderedSet<int>>(depth, false); }
SEQ_SCENARIO(map_dicts, .Q(3).T(4).Split(3)) { Dicts<MapDictionary<int, int>>(depth, true); }
SEQ_SCENARIO(flat_dicts, .Q(3).T(4).Split(3)) { Dicts<FlatMapDictionary<int, int>>(depth, true); }
SEQ_SCENARIO(ordered_dicts, .Q(3).T(4).Split(3)) { Dicts<OrderedDictionary<int, int>>(depth, false); }

namespace
{
	// an element of which only a part is compared
	struct It { int k, tag; };
	PII Raw(const It& i) { return PII(i.k, i.tag); }
	struct ItLess : public comparers::RelationalComparerInfo { bool operator () (const It& l, const It& r) const { return l.k < r.k; } };
	// tail of a multi-collection from the first element with the key, and from the last one back
	VP FromFirst(const VP& m, int k) { size_t i = 0; while (i < m.size() && m[i].first != k) ++i; return From(m, i); }
	VP BackFromLast(const VP& m, int k) { size_t i = m.size(); while (i && m[i - 1].first != k) --i; return Rev(VP(m.begin(), m.begin() + i)); }
	void InsLast(VP& v, int k, int x) { size_t i = 0; while (i < v.size() && v[i].first <= k) ++i; v.insert(v.begin() + i, PII(k, x)); }
}
SEQ_SCENARIO(multi_sets, .Q(3).T(4).Split(3))
{
	typedef SortedMultiSet<It, ItLess> S; S l, other; VP m, mo; Snaps<It, VP> snaps; int next = 10;
	{ const int n = seq::Pick(3); for (int i = 0; i < n; ++i) { l.Add(It{ 1, ++next }); InsLast(m, 1, next); } }
	for (int s = 0; s < depth; ++s)
	{
		switch (seq::Pick(9))
		{
		case 0: case 1: { const int k = seq::Pick(Keys); SEQ_LOG("add %d", k); l.Add(It{ k, ++next }); InsLast(m, k, next); break; }
		case 2: { const int k = seq::Pick(Keys); SEQ_LOG("remove first %d", k); size_t i = 0; while (i < m.size() && m[i].first != k) ++i; SEQ_CHECK_MSG(l.RemoveFirst(It{ k, 0 }) == (i != m.size()), "removing %d", k); if (i != m.size()) m.erase(m.begin() + i); break; }
		case 3: { const int k = seq::Pick(Keys); SEQ_LOG("remove all %d", k); const auto it = std::remove_if(m.begin(), m.end(), [k] (const PII& x) { return x.first == k; }); const size_t r = l.RemoveAll(It{ k, 0 }); SEQ_CHECK_MSG(r == (size_t)(m.end() - it), "removing all reported %zu", r); m.erase(it, m.end()); break; }
		case 4: { const int k = seq::Pick(2); SEQ_LOG("remove where %d", k); const auto it = std::remove_if(m.begin(), m.end(), [k] (const PII& x) { return x.second % 2 == k; }); const size_t r = l.RemoveWhere(vh::Fn<bool (const It&)>([k] (const It& x) { return x.tag % 2 == k; })); SEQ_CHECK(r == (size_t)(m.end() - it)); m.erase(it, m.end()); break; }
		case 5: SEQ_LOG("clear"); l.Clear(); m.clear(); break;
		case 6: case 7: snaps.Take(l, m); break;
		case 8: switch (seq::Pick(4)) { case 0: SEQ_LOG("copy"); other = l; mo = m; break; case 1: { SEQ_LOG("l = copy of l"); S t(l); l = t; break; } case 2: { SEQ_LOG("l = l"); S& self = l; l = self; break; } case 3: { SEQ_LOG("other of enumeration"); shared_ptr<IEnumerator<It>> e = l.GetEnumerator(); S t(e); other = t; mo = m; break; } } break;
		}
		seq::Step(); SEQ_CHECK(l.GetCount() == m.size() && l.IsEmpty() == m.empty()); Is("the set", l.GetEnumerator(), m); Is("the set reversed", l.Reverse()->GetEnumerator(), Rev(m)); Is("the copy", other.GetEnumerator(), mo);
		for (int k = -1; k <= Keys; ++k) { const It x = { k, 0 }; const size_t n = std::count_if(m.begin(), m.end(), [k] (const PII& y) { return y.first == k; }); SEQ_CHECK_MSG(l.Contains(x) == (n != 0) && l.Count(x) == n, "count of %d is %zu, expected %zu", k, l.Count(x), n); Is("found", l.Find(x), n ? FromFirst(m, k) : VP()); Is("found from the end", l.ReverseFind(x), n ? BackFromLast(m, k) : VP()); }
	}
	snaps.Check();
}
SEQ_SCENARIO(multi_dicts, .Q(3).T(4).Split(3))
{
	typedef MultiMapDictionary<int, int> D; typedef D::PairType P; D l, other; VP m, mo; Snaps<P, VP> snaps; int next = 10;
	{ const int n = seq::Pick(3); for (int i = 0; i < n; ++i) { l.Add(1, ++next); InsLast(m, 1, next); } }
	for (int s = 0; s < depth; ++s)
	{
		switch (seq::Pick(9))
		{
		case 0: case 1: { const int k = seq::Pick(Keys); ++next; SEQ_LOG("add %d", k); l.Add(k, next); InsLast(m, k, next); break; }
		case 2:
			{
				const int k = seq::Pick(Keys), which = seq::Pick(3); VP of; for (auto& x : m) if (x.first == k) of.push_back(x); optional<int> val; if (which == 1) val = of.empty() ? 99 : of.back().second; else if (which == 2) val = 98;
				SEQ_LOG("remove first %d (%d)", k, val ? *val : -1); size_t i = 0; while (i < m.size() && !(m[i].first == k && (!val || m[i].second == *val))) ++i; SEQ_CHECK_MSG(l.RemoveFirst(k, val) == (i != m.size()), "removing %d", k); if (i != m.size()) m.erase(m.begin() + i); break;
			}
		case 3: { const int k = seq::Pick(Keys); SEQ_LOG("remove all %d", k); const auto it = std::remove_if(m.begin(), m.end(), [k] (const PII& x) { return x.first == k; }); const size_t r = l.RemoveAll(k); SEQ_CHECK_MSG(r == (size_t)(m.end() - it), "removing all reported %zu", r); m.erase(it, m.end()); break; }
		case 4: { const int k = seq::Pick(2); SEQ_LOG("remove where %d", k); const auto it = std::remove_if(m.begin(), m.end(), [k] (const PII& x) { return x.second % 2 == k && x.first < 2; }); const size_t r = l.RemoveWhere(vh::Fn<bool (const int&, const int&)>([k] (const int& x, const int& y) { return y % 2 == k && x < 2; })); SEQ_CHECK(r == (size_t)(m.end() - it)); m.erase(it, m.end()); break; }
		case 5: SEQ_LOG("clear"); l.Clear(); m.clear(); break;
		case 6: case 7: snaps.Take(l, m); break;
		case 8: switch (seq::Pick(4)) { case 0: SEQ_LOG("copy"); other = l; mo = m; break; case 1: { SEQ_LOG("l = copy of l"); D t(l); l = t; break; } case 2: { SEQ_LOG("l = l"); D& self = l; l = self; break; } case 3: { SEQ_LOG("other of enumeration"); shared_ptr<IEnumerator<P>> e = l.GetEnumerator(); D t(e); other = t; mo = m; break; } } break;
		}
		seq::Step(); SEQ_CHECK(l.GetCount() == m.size() && l.IsEmpty() == m.empty()); Is("the dictionary", l.GetEnumerator(), m); Is("the dictionary reversed", l.Reverse()->GetEnumerator(), Rev(m)); Is("the copy", other.GetEnumerator(), mo);
		for (int k = -1; k <= Keys; ++k)
		{
			VI of; for (auto& x : m) if (x.first == k) of.push_back(x.second); const size_t n = of.size(); int v = -7; SEQ_CHECK_MSG(l.ContainsKey(k) == (n != 0) && l.CountKey(k) == n, "count of %d is %zu, expected %zu", k, l.CountKey(k), n); SEQ_CHECK(l.TryGetFirst(k, v) == (n != 0) && v == (n ? of[0] : -7)); if (n) SEQ_CHECK(l.GetFirst(k) == of[0]);
			Is("all values", l.GetAll(k), of); Is("found", l.Find(k), n ? FromFirst(m, k) : VP()); Is("found from the end", l.ReverseFind(k), n ? BackFromLast(m, k) : VP());
		}
	}
	SEQ_CHECK(Throws([&] { l.GetFirst(Keys); })); snaps.Check();
}

// counted collections: the callbacks tell of the first addition and the last removal, and of nothing else
namespace { struct Boom { }; }
SEQ_SCENARIO(counted, .Q(5).T(6).Split(3))
{
	RefCountingMap<int, int> l; RefCountingSet<int> st; RefCounter rc[2]; RefCountingValue<int> rv[2]; int refs[2] = { 0, 0 }, val[2] = { 0, 0 }; int next = 10;
	for (int s = 0; s < depth; ++s)
	{
		const int op = seq::Pick(6), k = op == 5 ? 0 : seq::Pick(2); const bool boom = op < 4 && seq::Flip(); std::string log, expected; // one letter per callback: a dd, r emove
		auto doAdd = [&] (int key) { SEQ_CHECK(key == k); log += 'a'; if (boom) throw Boom(); return next + 1; }; auto doRemove = [&] (int key, int v) { SEQ_CHECK_MSG(key == k && v == val[k], "the callback is given %d:%d", key, v); log += 'r'; if (boom) throw Boom(); };
		int thrown = 0; const std::string ks = std::to_string(k);
		if (op < 2)
		{
			SEQ_LOG("add %d%s", k, boom ? ", throwing" : ""); const bool first = !refs[k]; if (first) for (int i = 0; i < 4; ++i) expected += 'a';
			try { const auto it = l.add(k, doAdd); SEQ_CHECK(it->first == k && it->second == (first ? next + 1 : val[k])); } catch (const Boom&) { ++thrown; }
			try { SEQ_CHECK(*st.add(k, doAdd) == k); } catch (const Boom&) { ++thrown; }
			try { rc[k].set([&] { doAdd(k); }); } catch (const Boom&) { ++thrown; }
			try { SEQ_CHECK(rv[k].set([&] { return doAdd(k); }) == (first ? next + 1 : val[k])); } catch (const Boom&) { ++thrown; }
			SEQ_CHECK(thrown == (boom && first ? 4 : 0)); if (!thrown) { ++refs[k]; if (first) val[k] = ++next; }
		}
		else if (op < 5)
		{
			const bool iter = op == 3, boomNow = boom; if ((iter || op == 4) && !refs[k]) return; SEQ_LOG("remove %d%s", k, boom ? ", throwing" : ""); const bool last = refs[k] == 1; if (last) for (int i = 0; i < 4; ++i) expected += 'r'; const size_t had = refs[k] ? 1 : 0;
			try { if (iter) l.erase(l.find(k), doRemove); else SEQ_CHECK(l.erase(k, doRemove) == had); } catch (const Boom&) { ++thrown; }
			try { if (iter) st.erase(st.find(k), [&] (int key) { doRemove(key, val[k]); }); else SEQ_CHECK(st.erase(k, [&] (int key) { doRemove(key, val[k]); }) == had); } catch (const Boom&) { ++thrown; }
			bool rcThrew = false; try { SEQ_CHECK(rc[k].release([&] { doRemove(k, val[k]); }) == (had != 0)); } catch (const Boom&) { ++thrown; rcThrew = true; }
			try { SEQ_CHECK(rv[k].release([&] (int v) { doRemove(k, v); }) == (had != 0)); } catch (const Boom&) { ++thrown; }
			SEQ_CHECK(thrown == (boomNow && last ? 4 : 0)); if (!thrown && had) --refs[k];
			if (rcThrew) { if (!rc[k].count()) rc[k].set([] { }); SEQ_CHECK(rc[k].count() == 1); } // a plain counter may count either way
		}
		else
		{
			SEQ_LOG("clear"); std::vector<int> seen, seen2; l.clear([&] (int key, int v) { seen.push_back(key); SEQ_CHECK(v == val[key]); }); st.clear([&] (int key) { seen2.push_back(key); }); std::vector<int> exp; for (int i = 0; i < 2; ++i) if (refs[i]) exp.push_back(i); SEQ_CHECK_MSG(seen == exp && seen2 == exp, "clearing removed %s/ %s, expected %s", Str(seen).c_str(), Str(seen2).c_str(), Str(exp).c_str());
			for (int i = 0; i < 2; ++i) { int n = 0; rc[i].reset([&] { ++n; }); rv[i].reset([&] (int v) { ++n; SEQ_CHECK(v == val[i]); }); SEQ_CHECK(n == (refs[i] ? 2 : 0)); refs[i] = 0; }
		}
		SEQ_CHECK_MSG(log == expected, "callbacks '%s', expected '%s'", log.c_str(), expected.c_str()); seq::Step();
		const RefCountingMap<int, int>& cl = l; const RefCountingSet<int>& cs = st; VP m; VI mk; for (int i = 0; i < 2; ++i) if (refs[i]) { m.push_back(PII(i, val[i])); mk.push_back(i); }
		SEQ_CHECK_MSG(cl.size() == m.size() && cl.empty() == m.empty() && cs.size() == m.size() && cs.empty() == m.empty(), "%zu and %zu elements, expected %zu", cl.size(), cs.size(), m.size());
		VP w; for (auto it = cl.begin(); it != cl.end(); ++it) w.push_back(PII(it->first, it->second)); VP w2; for (auto it = l.begin(); it != l.end(); it++) w2.push_back(PII((*it).first, (*it).second)); SEQ_CHECK_MSG(w == m && w2 == m, "%s, expected %s", Str(w).c_str(), Str(m).c_str()); SEQ_CHECK(VI(cs.begin(), cs.end()) == mk); { const auto kv = [] (const std::pair<const int&, const int&>& p) { return PII(p.first, p.second); }; vh::IterLaws(cl.begin(), cl.end(), kv, m.size(), "the map"); vh::ContainerIterLaws(st, &vh::Same<int>, m.size(), "the set"); }
		for (int i = 0; i < 2; ++i) { SEQ_CHECK_MSG((int)cl.count(i) == refs[i] && (int)cs.count(i) == refs[i] && (int)rc[i].count() == refs[i] && (int)rv[i].count() == refs[i], "counts of %d: %d %d %d %d, expected %d", i, (int)cl.count(i), (int)cs.count(i), (int)rc[i].count(), (int)rv[i].count(), refs[i]); SEQ_CHECK((cl.find(i) != cl.end()) == (refs[i] != 0) && (cs.find(i) != cs.end()) == (refs[i] != 0) && (l.find(i) != l.end()) == (refs[i] != 0)); SEQ_CHECK_MSG(rv[i].get().is_initialized() == (refs[i] != 0) && (!refs[i] || *rv[i].get() == val[i]), "the value is not there exactly while counted"); }
	}
}

// casters show the same collection through a conversion
namespace
{
	int Ten(const int& x) { return x * 10; }
	bool UnTen(const int& x, int& r) { if (x % 10) return false; r = x / 10; return true; }
	struct Base { virtual ~Base() { } }; struct Derived : public Base { int v; Derived(int x) : v(x) { } }; STINGRAYKIT_DECLARE_PTR(Base); STINGRAYKIT_DECLARE_PTR(Derived);
}
SEQ_SCENARIO(casters, .Q(4).T(5).Split(3))
{
	const auto l = make_shared_ptr<ArrayList<int>>(); const auto s = make_shared_ptr<SortedSet<int>>(); const auto d = make_shared_ptr<MapDictionary<int, int>>();
	const ListCaster<int, int> lc(l, &Ten, &UnTen); const SetCaster<int, int> sc(s, &Ten, &UnTen); const DictionaryCaster<int, int, int> dc(d, &Ten, &UnTen);
	for (int i = 0; i < depth; ++i)
	{
		const int k = seq::Pick(3); switch (seq::Pick(2)) { case 0: l->Add(k); s->Add(k); d->Set(k, k + i); break; case 1: l->Remove(k); s->Remove(k); d->Remove(k); break; } seq::Step();
		VI m = All<VI>(l->GetEnumerator()), ms = All<VI>(s->GetEnumerator()); VP md = All<VP>(d->GetEnumerator()); for (int& x : m) x *= 10; for (int& x : ms) x *= 10; for (PII& x : md) x.second *= 10;
		Is("cast list", lc.GetEnumerator(), m); Is("cast list reversed", lc.Reverse()->GetEnumerator(), Rev(m)); Is("cast set", sc.GetEnumerator(), ms); Is("cast set reversed", sc.Reverse()->GetEnumerator(), Rev(ms)); Is("cast dictionary", dc.GetEnumerator(), md); Is("cast dictionary reversed", dc.Reverse()->GetEnumerator(), Rev(md));
		SEQ_CHECK(lc.GetCount() == m.size() && lc.IsEmpty() == m.empty() && sc.GetCount() == ms.size() && sc.IsEmpty() == ms.empty() && dc.GetCount() == md.size() && dc.IsEmpty() == md.empty());
		for (size_t j = 0; j < m.size(); ++j) { int v = -7; SEQ_CHECK(lc.Get(j) == m[j] && lc.TryGet(j, v) && v == m[j]); } int v = -7; SEQ_CHECK(!lc.TryGet(m.size(), v) && v == -7);
		for (int x : { 0, 1, 10, 20, 30, 5 })
		{
			const size_t j = std::find(m.begin(), m.end(), x) - m.begin(), js = std::find(ms.begin(), ms.end(), x) - ms.begin(); SEQ_CHECK(lc.Contains(x) == (j != m.size())); const auto io = lc.IndexOf(x); SEQ_CHECK(io.is_initialized() == (j != m.size()) && (!io || *io == j));
			SEQ_CHECK(sc.Contains(x) == (js != ms.size())); Is("found", sc.Find(x), From(ms, js)); Is("found from the end", sc.ReverseFind(x), js == ms.size() ? VI() : Rev(VI(ms.begin(), ms.begin() + js + 1)));
		}
		for (int x = 0; x < 4; ++x) { size_t j = 0; while (j < md.size() && md[j].first != x) ++j; const bool has = j != md.size(); int v = -7; SEQ_CHECK(dc.ContainsKey(x) == has && dc.TryGet(x, v) == has && v == (has ? md[j].second : -7)); if (has) SEQ_CHECK(dc.Get(x) == md[j].second); Is("found", dc.Find(x), From(md, j)); Is("found from the end", dc.ReverseFind(x), has ? Rev(VP(md.begin(), md.begin() + j + 1)) : VP()); }
	}
	const auto dl = make_shared_ptr<ArrayList<DerivedPtr>>(); const DerivedPtr a = make_shared_ptr<Derived>(1), b = make_shared_ptr<Derived>(2); dl->Add(a); shared_ptr<IReadonlyList<BasePtr>> bl = GetListCaster(dl); SEQ_CHECK(bl->GetCount() == 1 && bl->Get(0) == a && bl->Contains(a) && !bl->Contains(b) && !bl->Contains(make_shared_ptr<Base>()));
}
