// C05: observable collections against the plain collections they wrap, and against copies built from their notifications.
#include "../seq/seq.h"
#include "common.h"
#include <stingraykit/collection/ArrayObservableList.h>
#include <stingraykit/collection/FlatMapObservableDictionary.h>
#include <stingraykit/collection/FlatSortedObservableSet.h>
#include <stingraykit/collection/MapObservableDictionary.h>
#include <stingraykit/collection/MultiMapObservableDictionary.h>
#include <stingraykit/collection/ObservableDictionaryKeyValue.h>
#include <stingraykit/collection/ObservableSetEntry.h>
#include <stingraykit/collection/OrderedObservableDictionary.h>
#include <stingraykit/collection/OrderedObservableSet.h>
#include <stingraykit/collection/SortedObservableMultiSet.h>
#include <stingraykit/collection/SortedObservableSet.h>
#include "coll.h"
#include <algorithm>

namespace
{
	enum Kind { UNIQUE, MULTI, LIST };
	struct ByTens : public comparers::RelationalComparerInfo { bool operator () (int a, int b) const { return a / 10 < b / 10; } };
	VP Sorted(VP v) { std::sort(v.begin(), v.end()); return v; }
	PII Item(int x) { return PII(x, 0); }
	PII Item(const KeyValuePair<int, int>& p) { return PII(p.Key, p.Value); }
	template < typename E > VP Items(const E& e, Kind k) { VP r; for (; e->Valid(); e->Next()) { PII p = Item(e->Get()); r.push_back(k == LIST ? PII(0, p.first) : p); SEQ_CHECK_MSG(r.size() < 50, "endless enumeration"); } return r; }
	const char* const Op[] = { "added", "removed", "updated" };
	const char* Name(CollectionOp op) { return op == CollectionOp::Added ? Op[0] : op == CollectionOp::Removed ? Op[1] : Op[2]; }

	// a subscriber: its own copy, built from notifications alone
	template < typename C > struct Follower
	{
		C& c; Kind kind; VP copy; int notes; bool single; Token token;
		Follower(C& c_, Kind k) : c(c_), kind(k), notes(0), single(false) { }
		void On(CollectionOp op, int k, int v)
		{
			++notes; const char* const n = Name(op);
			if (kind == LIST)
			{
				SEQ_CHECK_MSG(k >= 0 && (size_t)k < copy.size() + (op == CollectionOp::Added), "%s at %d of %zu", n, k, copy.size());
				if (op == CollectionOp::Added) copy.insert(copy.begin() + k, PII(0, v));
				else if (op == CollectionOp::Removed) { SEQ_CHECK_MSG(copy[k].second == v, "%d removed at %d, which has %d", v, k, copy[k].second); copy.erase(copy.begin() + k); }
				else copy[k].second = v;
			}
			else
			{
				auto it = kind == UNIQUE ? std::find_if(copy.begin(), copy.end(), [k] (const PII& p) { return p.first == k; }) : std::find(copy.begin(), copy.end(), PII(k, v));
				if (op == CollectionOp::Added) { SEQ_CHECK_MSG(kind == MULTI || it == copy.end(), "%d added twice", k); copy.push_back(PII(k, v)); }
				else { SEQ_CHECK_MSG(it != copy.end(), "%d:%d %s without having been there", k, v, n); if (op == CollectionOp::Removed) { SEQ_CHECK_MSG(it->second == v, "%d removed with %d, not %d", k, v, it->second); copy.erase(it); } else it->second = v; }
			}
			if (single) Check("inside the notification, the collection");
		}
		void Check(const char* what) { const VP v = Items(c.GetEnumerator(), kind); const VP a = kind == LIST ? v : Sorted(v), b = kind == LIST ? copy : Sorted(copy); SEQ_CHECK_MSG(a == b, "%s has %s, the notifications gave %s", what, Str(a).c_str(), Str(b).c_str()); }
	};
	template < typename C > void Connect(Follower<C>& f, const IReadonlyObservableDictionary<int, int>& d) { f.token = d.OnChanged().connect(vh::Fn<void (CollectionOp, int, int)>([&f] (CollectionOp op, int k, int v) { f.On(op, k, v); })); }
	template < typename C > void Connect(Follower<C>& f, const IReadonlyObservableMultiDictionary<int, int>& d) { f.token = d.OnChanged().connect(vh::Fn<void (CollectionOp, int, int)>([&f] (CollectionOp op, int k, int v) { f.On(op, k, v); })); }
	template < typename C > void Connect(Follower<C>& f, const IReadonlyObservableSet<int>& d) { f.token = d.OnChanged().connect(vh::Fn<void (CollectionOp, int)>([&f] (CollectionOp op, int k) { f.On(op, k, 0); })); }
	template < typename C > void Connect(Follower<C>& f, const IReadonlyObservableMultiSet<int>& d) { f.token = d.OnChanged().connect(vh::Fn<void (CollectionOp, int)>([&f] (CollectionOp op, int k) { f.On(op, k, 0); })); }
	template < typename C > void Connect(Follower<C>& f, const IReadonlyObservableList<int>& d) { f.token = d.OnChanged().connect(vh::Fn<void (CollectionOp, size_t, int)>([&f] (CollectionOp op, size_t i, int v) { f.On(op, (int)i, v); })); }

	// one operation, on an observable and on a plain collection alike
	struct Cmd { int op, k, v; bool single; int n; };
	typedef function<bool (const int&, const int&)> Pred2; typedef function<bool (const int&)> Pred1;
	Pred2 P2(const Cmd& c) { return vh::Fn<bool (const int&, const int&)>([c] (int k, int v) { return (c.k == 3 || k == c.k) && (c.v == 2 || v == c.v); }); }
	Pred1 P1(const Cmd& c) { return vh::Fn<bool (const int&)>([c] (int v) { return v == c.k || (c.k == 3 && v != 1); }); }
	Cmd Make(int op, bool single, int ks, int vs) { Cmd c = { op, ks ? seq::Pick(ks) : 0, vs ? seq::Pick(vs) : 0, single, 0 }; return c; }

	struct Dicts
	{
		static const Kind K = UNIQUE;
		static Cmd Any(int) { switch (seq::Pick(5)) { case 0: return Make(0, true, 3, 2); case 1: return Make(1, true, 3, 2); case 2: return Make(2, true, 3, 0); case 3: return Make(3, false, 4, 3); } return Make(4, false, 0, 0); }
		// returns a result and, in n, how many notifications are due (-1: as many as were removed)
		template < typename C > static int Run(C& c, Cmd& d) { int r = 1; switch (d.op) { case 0: r = c.Add(d.k, d.v); d.n = r; break; case 1: c.Set(d.k, d.v); d.n = 1; break; case 2: r = c.Remove(d.k); d.n = r; break; case 3: r = (int)c.RemoveWhere(P2(d)); d.n = r; break; case 4: r = (int)c.GetCount(); d.n = r; c.Clear(); break; } return r; }
		static const char* Str(int op) { static const char* s[] = { "add", "set", "remove", "remove where", "clear" }; return s[op]; }
		template < typename C > static std::string Ask(const C& c) { std::string s; for (int k = 0; k < 4; ++k) { int v = 9; s += std::to_string(c.ContainsKey(k)); if (c.TryGet(k, v)) s += "=" + std::to_string(c.Get(k)); s += std::to_string(v) + "/" + ::Str(Items(c.Find(k), K)) + "/" + ::Str(Items(c.ReverseFind(k), K)) + ";"; } return s; }
	};
	struct Sets
	{
		static const Kind K = UNIQUE;
		static Cmd Any(int) { switch (seq::Pick(4)) { case 0: return Make(0, true, 3, 0); case 1: return Make(1, true, 3, 0); case 2: return Make(2, false, 5, 0); } return Make(3, false, 0, 0); }
		template < typename C > static int Run(C& c, Cmd& d) { int r = 0; switch (d.op) { case 0: r = c.Add(d.k); break; case 1: r = c.Remove(d.k); break; case 2: r = (int)c.RemoveWhere(P1(d)); break; case 3: r = (int)c.GetCount(); c.Clear(); break; } d.n = r; return r; }
		static const char* Str(int op) { static const char* s[] = { "add", "remove", "remove where", "clear" }; return s[op]; }
		template < typename C > static std::string Ask(const C& c) { std::string s; for (int k = 0; k < 4; ++k) s += std::to_string(c.Contains(k)) + "/" + ::Str(Items(c.Find(k), K)) + "/" + ::Str(Items(c.ReverseFind(k), K)) + ";"; return s; }
	};
	struct MultiSets
	{
		static const Kind K = MULTI;
		static Cmd Any(int) { switch (seq::Pick(5)) { case 0: return Make(0, true, 3, 0); case 1: return Make(1, true, 3, 0); case 2: return Make(2, false, 3, 0); case 3: return Make(3, false, 5, 0); } return Make(4, false, 0, 0); }
		template < typename C > static int Run(C& c, Cmd& d) { int r = 1; switch (d.op) { case 0: c.Add(d.k); break; case 1: r = c.RemoveFirst(d.k); break; case 2: r = (int)c.RemoveAll(d.k); break; case 3: r = (int)c.RemoveWhere(P1(d)); break; case 4: r = (int)c.GetCount(); c.Clear(); break; } d.n = r; return r; }
		static const char* Str(int op) { static const char* s[] = { "add", "remove first", "remove all", "remove where", "clear" }; return s[op]; }
		template < typename C > static std::string Ask(const C& c) { std::string s; for (int k = 0; k < 4; ++k) s += std::to_string(c.Contains(k)) + "/" + std::to_string(c.Count(k)) + "/" + ::Str(Items(c.Find(k), K)) + "/" + ::Str(Items(c.ReverseFind(k), K)) + ";"; return s; }
	};
	struct MultiDicts
	{
		static const Kind K = MULTI;
		static Cmd Any(int) { switch (seq::Pick(6)) { case 0: return Make(0, true, 2, 2); case 1: return Make(1, true, 3, 0); case 2: return Make(2, true, 3, 2); case 3: return Make(3, false, 3, 0); case 4: return Make(4, false, 4, 3); } return Make(5, false, 0, 0); }
		template < typename C > static int Run(C& c, Cmd& d) { int r = 1; switch (d.op) { case 0: c.Add(d.k, d.v); break; case 1: r = c.RemoveFirst(d.k); break; case 2: r = c.RemoveFirst(d.k, d.v); break; case 3: r = (int)c.RemoveAll(d.k); break; case 4: r = (int)c.RemoveWhere(P2(d)); break; case 5: r = (int)c.GetCount(); c.Clear(); break; } d.n = r; return r; }
		static const char* Str(int op) { static const char* s[] = { "add", "remove first of key", "remove first", "remove all of key", "remove where", "clear" }; return s[op]; }
		template < typename C > static std::string Ask(const C& c) { std::string s; for (int k = 0; k < 3; ++k) { int v = 9; s += std::to_string(c.ContainsKey(k)) + "/" + std::to_string(c.CountKey(k)); if (c.TryGetFirst(k, v)) s += "=" + std::to_string(c.GetFirst(k)); s += std::to_string(v) + "/" + ::Str(Items(c.GetAll(k), K)) + "/" + ::Str(Items(c.Find(k), K)) + "/" + ::Str(Items(c.ReverseFind(k), K)) + ";"; } return s; }
	};
	struct Lists
	{
		static const Kind K = LIST;
		static Cmd Any(int n) { switch (seq::Pick(7)) { case 0: return Make(0, true, 0, 2); case 1: return Make(1, true, n + 2, 2); case 2: return Make(2, true, n + 2, 2); case 3: return Make(3, true, n + 1, 0); case 4: return Make(4, true, 3, 0); case 5: return Make(5, false, 4, 0); } return Make(6, false, 0, 0); }
		template < typename C > static int Run(C& c, Cmd& d)
		{
			int r = 1;
			switch (d.op)
			{
			case 0: c.Add(d.v); break;
			case 1: r = !Throws([&] { c.Set(d.k, d.v); }); break;
			case 2: r = !Throws([&] { c.Insert(d.k, d.v); }); break;
			case 3: r = !Throws([&] { c.RemoveAt(d.k); }); break;
			case 4: r = c.Remove(d.k); break;
			case 5: r = (int)c.RemoveAll(P1(d)); break;
			case 6: r = (int)c.GetCount(); c.Clear(); break;
			}
			d.n = r; return r;
		}
		static const char* Str(int op) { static const char* s[] = { "add", "set", "insert", "remove at", "remove", "remove all", "clear" }; return s[op]; }
		template < typename C > static std::string Ask(const C& c) { std::string s; for (int k = 0; k < 3; ++k) { const optional<size_t> i = c.IndexOf(k); s += std::to_string(c.Contains(k)) + "/" + std::to_string(i ? (int)*i : -1); } for (size_t i = 0; i < 5; ++i) { int v = 9; if (c.TryGet(i, v)) s += "=" + std::to_string(c.Get(i)); s += std::to_string(v); } return s; }
	};

	template < typename C, typename Plain, typename I > void Go(int depth)
	{
		C c; Plain p; Follower<C> f(c, I::K), late(c, I::K); Connect(f, c);
		for (int s = 0; s < depth; ++s)
		{
			seq::Step();
			if (!late.token && seq::Flip()) { SEQ_LOG("connect"); Connect(late, c); SEQ_CHECK_MSG((size_t)late.notes == p.GetCount(), "%d notifications on connection, of %zu items", late.notes, p.GetCount()); late.Check("on connection, the collection"); }
			Cmd d = I::Any((int)p.GetCount()); SEQ_LOG("%s %d %d", I::Str(d.op), d.k, d.v);
			Cmd e = d; const int expected = I::Run(p, e);
			f.single = late.single = d.single; const int before = f.notes, lateBefore = late.notes;
			const int got = I::Run(c, d); f.single = late.single = false;
			SEQ_CHECK_MSG(got == expected, "%s %d %d gives %d, a plain collection gives %d", I::Str(d.op), d.k, d.v, got, expected);
			SEQ_CHECK_MSG(f.notes - before == e.n, "%d notifications of %s %d %d, which changed %d items", f.notes - before, I::Str(d.op), d.k, d.v, e.n);
			if (late.token) SEQ_CHECK_MSG(late.notes - lateBefore == e.n, "%d notifications of %s to a later subscriber, %d items changed", late.notes - lateBefore, I::Str(d.op), e.n);
			const VP a = Items(c.GetEnumerator(), I::K), b = Items(p.GetEnumerator(), I::K); SEQ_CHECK_MSG(a == b, "%s %d %d: contents %s, a plain collection has %s", I::Str(d.op), d.k, d.v, Str(a).c_str(), Str(b).c_str());
			f.Check("the collection"); if (late.token) late.Check("the collection");
			if (d.op == 1 && !expected && I::K == LIST) break; // refused: nothing has changed
		}
		const VP a = Items(c.Reverse()->GetEnumerator(), I::K), b = Items(p.Reverse()->GetEnumerator(), I::K); SEQ_CHECK_MSG(a == b, "reversed: %s, expected %s", Str(a).c_str(), Str(b).c_str());
		SEQ_CHECK(c.GetCount() == p.GetCount() && c.IsEmpty() == p.IsEmpty());
		const std::string x = I::Ask(c), y = I::Ask(p); SEQ_CHECK_MSG(x == y, "answers %s, expected %s", x.c_str(), y.c_str());
		Token t = late.token; late.token.Reset(); f.token.Reset(); t.Reset(); const int n = f.notes; c.Clear(); SEQ_CHECK_MSG(f.notes == n, "a notification after disconnection");
	}
}

SEQ_SCENARIO(map_dictionary, .Q(3).T(4).Split(3)) { Go<MapObservableDictionary<int, int>, MapDictionary<int, int>, Dicts>(depth); }
SEQ_SCENARIO(flat_dictionary, .Q(3).T(4).Split(3)) { Go<FlatMapObservableDictionary<int, int>, FlatMapDictionary<int, int>, Dicts>(depth); }
SEQ_SCENARIO(ordered_dictionary, .Q(3).T(4).Split(3)) { Go<OrderedObservableDictionary<int, int>, OrderedDictionary<int, int>, Dicts>(depth); }
SEQ_SCENARIO(sorted_set, .Q(4).T(5).Split(3)) { Go<SortedObservableSet<int>, SortedSet<int>, Sets>(depth); }
SEQ_SCENARIO(flat_sorted, .Q(4).T(5).Split(3)) { Go<FlatSortedObservableSet<int>, FlatSortedSet<int>, Sets>(depth); }
SEQ_SCENARIO(set_in_order, .Q(4).T(5).Split(3)) { Go<OrderedObservableSet<int>, OrderedSet<int>, Sets>(depth); }
SEQ_SCENARIO(list, .Q(4).T(5).Split(3)) { Go<ArrayObservableList<int>, ArrayList<int>, Lists>(depth); }
SEQ_SCENARIO(multi_set, .Q(4).T(5).Split(3)) { Go<SortedObservableMultiSet<int>, SortedMultiSet<int>, MultiSets>(depth); }
SEQ_SCENARIO(multi_dictionary, .Q(3).T(4).Split(3)) { Go<MultiMapObservableDictionary<int, int>, MultiMapDictionary<int, int>, MultiDicts>(depth); }

// equivalent but distinguishable elements: what goes is what the predicate asked for
SEQ_SCENARIO(multi_set_partial_order, .Q(5).T(6).Split(3))
{
	typedef SortedObservableMultiSet<int, ByTens> C; C c; Follower<C> f(c, MULTI); Connect(f, c); std::vector<int> m; int next = 0;
	for (int s = 0; s < depth; ++s)
	{
		const int before = f.notes; int n = 0;
		switch (seq::Pick(4))
		{
		case 0: case 1: { const int k = seq::Pick(2) * 10 + next++; SEQ_LOG("add %d", k); c.Add(k); auto it = m.begin(); while (it != m.end() && *it / 10 <= k / 10) ++it; m.insert(it, k); n = 1; break; }
		case 2: { const int which = seq::Pick(3); SEQ_LOG("remove where number %% 3 == %d", which); auto p = [which] (int x) { return x % 10 % 3 == which; }; const size_t r = c.RemoveWhere(vh::Fn<bool (const int&)>(p)); n = (int)m.size(); m.erase(std::remove_if(m.begin(), m.end(), p), m.end()); n -= (int)m.size(); SEQ_CHECK((int)r == n); break; }
		case 3: { const int k = seq::Pick(2); SEQ_LOG("remove all of %d", k); auto p = [k] (int x) { return x / 10 == k; }; const size_t r = c.RemoveAll(k * 10 + 9); n = (int)m.size(); m.erase(std::remove_if(m.begin(), m.end(), p), m.end()); n -= (int)m.size(); SEQ_CHECK((int)r == n); break; }
		}
		SEQ_CHECK_MSG(f.notes - before == n, "%d notifications, %d changes", f.notes - before, n);
		VP e; for (int x : m) e.push_back(PII(x, 0)); const VP v = Items(c.GetEnumerator(), MULTI); SEQ_CHECK_MSG(v == e, "contents %s, expected %s", Str(v).c_str(), Str(e).c_str()); f.Check("the collection");
	}
}

// one key of a dictionary, or one possible element of a set, as a value of its own
SEQ_SCENARIO(key_view, .Q(4).T(5).Split(3))
{
	typedef MapObservableDictionary<int, int> C; const auto c = make_shared_ptr<C>(); std::map<int, int> m; const int key = 1;
	const auto view = GetDictionaryKeyValue(c, key); const auto other = GetDictionaryKeyValue(shared_ptr<IReadonlyObservableDictionary<int, int>>(c), 2);
	std::vector<int> seen, late, expected; size_t mark = 0; Token l;
	Token t = view->OnChanged().connect(vh::Fn<void (const optional<int>&)>([&] (const optional<int>& v) { seen.push_back(v ? *v : -1); const optional<int> g = view->Get(); SEQ_CHECK_MSG(g == v, "the view's value differs from its notification"); }));
	expected.push_back(-1);
	for (int s = 0; s < depth; ++s)
	{
		if (!l && seq::Flip()) { SEQ_LOG("connect"); l = view->OnChanged().connect(vh::Fn<void (const optional<int>&)>([&] (const optional<int>& v) { late.push_back(v ? *v : -1); })); SEQ_CHECK_MSG(late.size() == 1 && late[0] == (m.count(key) ? m[key] : -1), "a new subscriber of a key is told another value"); mark = expected.size(); }
		const int op = seq::Pick(7), k = op < 3 ? seq::Pick(2) : 0, v = op == 0 || op == 1 || op == 4 || op == 6 ? 5 + seq::Pick(2) : 0;
		switch (op)
		{
		case 0: SEQ_LOG("set %d=%d", k, v); c->Set(k, v); m[k] = v; if (k == key) expected.push_back(v); break;
		case 1: SEQ_LOG("add %d=%d", k, v); if (c->Add(k, v) && k == key) expected.push_back(v); m.insert(std::make_pair(k, v)); break;
		case 2: SEQ_LOG("remove %d", k); c->Remove(k); if (m.erase(k) && k == key) expected.push_back(-1); break;
		case 3: SEQ_LOG("clear"); c->Clear(); if (m.count(key)) expected.push_back(-1); m.clear(); break;
		case 4: SEQ_LOG("view=%d", v); view->Set(v); m[key] = v; expected.push_back(v); break;
		case 5: SEQ_LOG("view=null"); view->Set(null); if (m.erase(key)) expected.push_back(-1); break;
		case 6: { SEQ_LOG("remove where"); c->RemoveWhere(vh::Fn<bool (const int&, const int&)>([v] (int, int x) { return x == v; })); for (auto it = m.begin(); it != m.end(); ) if (it->second == v) { if (it->first == key) expected.push_back(-1); it = m.erase(it); } else ++it; break; }
		}
		const optional<int> g = view->Get(); SEQ_CHECK_MSG((g ? *g : -1) == (m.count(key) ? m[key] : -1), "the view has another value than the dictionary"); SEQ_CHECK(!other->Get());
		SEQ_CHECK_MSG(seen == expected, "the key's values were %s, notified %s", Str(expected).c_str(), Str(seen).c_str());
		if (l) SEQ_CHECK_MSG(VI(late.begin() + 1, late.end()) == From(expected, mark), "a later subscriber was notified %s", Str(late).c_str());
		SEQ_CHECK(c->GetCount() == m.size());
	}
}
SEQ_SCENARIO(entry_view, .Q(4).T(5).Split(3))
{
	typedef SortedObservableSet<int> C; const auto c = make_shared_ptr<C>(); std::set<int> m; const int key = 1;
	const auto view = GetSetEntry(shared_ptr<IObservableSet<int>>(c), key); const auto ro = GetSetEntry(shared_ptr<IReadonlyObservableSet<int>>(c), key);
	std::vector<int> seen, late, expected; size_t mark = 0; Token l;
	Token t = view->OnChanged().connect(vh::Fn<void (bool)>([&] (bool v) { seen.push_back(v); SEQ_CHECK_MSG(view->Get() == v && ro->Get() == v, "the entry's value differs from its notification"); }));
	expected.push_back(0);
	for (int s = 0; s < depth; ++s)
	{
		if (!l && seq::Flip()) { SEQ_LOG("connect"); l = ro->OnChanged().connect(vh::Fn<void (bool)>([&] (bool v) { late.push_back(v); })); SEQ_CHECK_MSG(late.size() == 1 && late[0] == (int)m.count(key), "a new subscriber of an entry is told otherwise"); mark = expected.size(); }
		const int k = seq::Pick(2);
		switch (seq::Pick(6))
		{
		case 0: SEQ_LOG("add %d", k); if (c->Add(k) && k == key) expected.push_back(1); m.insert(k); break;
		case 1: SEQ_LOG("remove %d", k); if (c->Remove(k) && k == key) expected.push_back(0); m.erase(k); break;
		case 2: SEQ_LOG("clear"); c->Clear(); if (m.count(key)) expected.push_back(0); m.clear(); break;
		case 3: case 4: SEQ_LOG("entry=%d", k); view->Set(k); if (k != (int)m.count(key)) expected.push_back(k); if (k) m.insert(key); else m.erase(key); break;
		case 5: { SEQ_LOG("remove where"); c->RemoveWhere(vh::Fn<bool (const int&)>([k] (int x) { return x == k; })); if (m.erase(k) && k == key) expected.push_back(0); break; }
		}
		SEQ_CHECK_MSG(view->Get() == (bool)m.count(key) && ro->Get() == view->Get(), "the entry differs from the set");
		SEQ_CHECK_MSG(seen == expected, "the entry was %s, notified %s", Str(expected).c_str(), Str(seen).c_str());
		if (l) SEQ_CHECK_MSG(VI(late.begin() + 1, late.end()) == From(expected, mark), "a later subscriber was notified %s", Str(late).c_str());
		SEQ_CHECK(c->GetCount() == m.size());
	}
}
