// C05: a subscription to an observable collection racing with changes, and two threads changing it at once.
#include "../mc/mc.h"
#include "common.h"
#include <stingraykit/collection/ArrayObservableList.h>
#include <stingraykit/collection/MapObservableDictionary.h>
#include <stingraykit/collection/MultiMapObservableDictionary.h>
#include <stingraykit/collection/ObservableDictionaryKeyValue.h>
#include <stingraykit/collection/ObservableSetEntry.h>
#include <stingraykit/collection/SortedObservableMultiSet.h>
#include <stingraykit/collection/SortedObservableSet.h>
#include <algorithm>
#include <map>
using namespace stingray;

namespace
{
	typedef MapObservableDictionary<int, int> Dict; typedef SortedObservableSet<int> Set; typedef ArrayObservableList<int> List;
	typedef MultiMapObservableDictionary<int, int> MultiDict; typedef SortedObservableMultiSet<int> MultiSet;
	typedef std::vector<std::pair<int, int> > VP;
	// which collections are keyed by unique keys, and how one of each is changed: an addition, another, a change and a removal, a clear
	template < typename C > struct I { static const int Kind = 1; };
	template < > struct I<Dict> { static const int Kind = 0; }; template < > struct I<Set> { static const int Kind = 0; }; template < > struct I<List> { static const int Kind = 2; };
	void Change(Dict& c, int what) { switch (what) { case 0: c.Add(1, 10); break; case 1: c.Set(2, 20); break; case 2: c.Set(1, 11); break; case 3: c.Remove(1); break; default: c.Clear(); } }
	void Change(Set& c, int what) { switch (what) { case 0: c.Add(1); break; case 1: c.Add(2); break; case 2: c.Add(1); break; case 3: c.Remove(1); break; default: c.Clear(); } }
	void Change(List& c, int what) { switch (what) { case 0: c.Add(1); break; case 1: c.Insert(0, 2); break; case 2: c.Set(0, 3); break; case 3: c.Remove(1); break; default: c.Clear(); } }
	void Change(MultiDict& c, int what) { switch (what) { case 0: c.Add(1, 10); break; case 1: c.Add(2, 20); break; case 2: c.Add(1, 11); break; case 3: c.RemoveAll(1); break; default: c.Clear(); } }
	void Change(MultiSet& c, int what) { switch (what) { case 0: c.Add(1); break; case 1: c.Add(2); break; case 2: c.Add(1); break; case 3: c.RemoveFirst(1); break; default: c.Clear(); } }
	std::pair<int, int> Item(int x) { return std::make_pair(x, 0); }
	std::pair<int, int> Item(const KeyValuePair<int, int>& p) { return std::make_pair(p.Key, p.Value); }
	template < typename C > VP Contents(const C& c) { VP r; for (auto e = c.GetEnumerator(); e->Valid(); e->Next()) { auto p = Item(e->Get()); r.push_back(I<C>::Kind == 2 ? std::make_pair(0, p.first) : p); } if (I<C>::Kind != 2) std::sort(r.begin(), r.end()); return r; }

	template < typename C > struct Follower
	{
		VP copy; mc::Cell<int> notes; Token token; const C* c;
		Follower() : c(0) { }
		void On(CollectionOp op, int k, int v)
		{
			++notes; const bool add = op == CollectionOp::Added;
			if (I<C>::Kind == 2) { MC_CHECK_MSG(k >= 0 && (size_t)k < copy.size() + add, "index %d of %zu", k, copy.size()); if (add) copy.insert(copy.begin() + k, std::make_pair(0, v)); else if (op == CollectionOp::Removed) { MC_CHECK(copy[k].second == v); copy.erase(copy.begin() + k); } else copy[k].second = v; return; }
			auto it = std::find_if(copy.begin(), copy.end(), [&] (const std::pair<int, int>& p) { return p.first == k && (I<C>::Kind == 0 || p.second == v); });
			if (add) { MC_CHECK_MSG(I<C>::Kind || it == copy.end(), "%d added twice", k); copy.push_back(std::make_pair(k, v)); }
			else { MC_CHECK_MSG(it != copy.end(), "%d changed without having been there", k); if (op == CollectionOp::Removed) { MC_CHECK(it->second == v); copy.erase(it); } else it->second = v; }
		}
		VP Copy() const { VP v = copy; if (I<C>::Kind != 2) std::sort(v.begin(), v.end()); return v; }
		void Check(const C& c) const { MC_CHECK_MSG(Copy() == Contents(c), "the notifications give %zu items, the collection has %zu, or other ones", copy.size(), Contents(c).size()); }
	};
	template < typename C > void Connect(Follower<C>& f, const IReadonlyObservableDictionary<int, int>& d) { f.token = d.OnChanged().connect(vh::Fn<void (CollectionOp, int, int)>([&f] (CollectionOp op, int k, int v) { f.On(op, k, v); })); }
	template < typename C > void Connect(Follower<C>& f, const IReadonlyObservableMultiDictionary<int, int>& d) { f.token = d.OnChanged().connect(vh::Fn<void (CollectionOp, int, int)>([&f] (CollectionOp op, int k, int v) { f.On(op, k, v); })); }
	template < typename C > void Connect(Follower<C>& f, const IReadonlyObservableSet<int>& d) { f.token = d.OnChanged().connect(vh::Fn<void (CollectionOp, int)>([&f] (CollectionOp op, int k) { f.On(op, k, 0); })); }
	template < typename C > void Connect(Follower<C>& f, const IReadonlyObservableMultiSet<int>& d) { f.token = d.OnChanged().connect(vh::Fn<void (CollectionOp, int)>([&f] (CollectionOp op, int k) { f.On(op, k, 0); })); }
	template < typename C > void Connect(Follower<C>& f, const IReadonlyObservableList<int>& d) { f.token = d.OnChanged().connect(vh::Fn<void (CollectionOp, size_t, int)>([&f] (CollectionOp op, size_t i, int v) { f.On(op, (int)i, v); })); }

	// one thread changes, another subscribes, looks, and maybe leaves
	template < typename C > void Subscribing()
	{
		C c; Follower<C> f; const int first = mc::Pick(3); Change(c, 0);
		mc::Th a([&] { for (int i = 1 + first; i < 3 + first; ++i) Change(c, i); });
		mc::Th b([&] { Connect(f, c); });
		a.Join(); b.Join(); f.Check(c);
		mc::Outcome("%d %d", first, (int)f.notes);
	}
	// two threads change, a subscriber was there before
	template < typename C > void Changing()
	{
		C c; Follower<C> f; Connect(f, c); Change(c, 0); const int x = mc::Pick(4);
		mc::Th a([&] { Change(c, 1 + x); }); mc::Th b([&] { Change(c, 1); Change(c, 3); });
		a.Join(); b.Join(); f.Check(c);
		mc::Outcome("%d", (int)f.notes);
	}
	// inside a notification, and under the collection's lock, nobody else changes it
	template < typename C > void Locked()
	{
		C c; Follower<C> f; Connect(f, c); Change(c, 0);
		mc::Th a([&] { Change(c, 1); }); mc::Th b([&] { MutexLock l(c.GetSyncRoot()); const VP v = Contents(c); MC_CHECK(v == f.Copy()); mc::Point(); MC_CHECK_MSG(v == Contents(c) && v == f.Copy(), "changed under its lock"); const auto n = (int)c.GetCount(); MC_CHECK(n == (int)v.size()); });
		a.Join(); b.Join(); f.Check(c);
	}
	// leaving: nothing comes after the token is released
	template < typename C > void Leaving()
	{
		C c; Follower<C>* f = new Follower<C>(); Connect(*f, c);
		mc::Th a([&] { Change(c, 0); Change(c, 2); }); mc::Th b([&] { f->token.Reset(); delete f; });
		a.Join(); b.Join();
	}
	// readers see contents between changes
	template < typename C > void Reading()
	{
		C c; Change(c, 0); const size_t n = c.GetCount();
		mc::Th a([&] { Change(c, 1); Change(c, 3); });
		mc::Th b([&] { const VP v = Contents(c); MC_CHECK_MSG(v.size() >= 1 && v.size() <= n + 1, "%zu items", v.size()); auto e = c.GetEnumerator(); mc::Point(); int k = 0; for (; e->Valid(); e->Next()) ++k; MC_CHECK(k >= 1 && k <= (int)n + 1); mc::Outcome("%d %d", (int)v.size(), k); });
		a.Join(); b.Join();
	}
	void KeyView()
	{
		const auto c = make_shared_ptr<Dict>(); c->Add(1, 10); mc::Cell<int> last, n;
		mc::Th a([&] { c->Set(1, 11); c->Set(2, 5); c->Remove(1); });
		Token t; mc::Th b([&] { const auto v = GetDictionaryKeyValue(c, 1); t = v->OnChanged().connect(vh::Fn<void (const optional<int>&)>([&] (const optional<int>& x) { ++n; last = x ? *x : -1; const optional<int> g = v->Get(); MC_CHECK_MSG(g == x, "a key's notification is behind its value"); })); const int l = last; MC_CHECK(l == 10 || l == 11 || l == -1); a.Join(); MC_CHECK_MSG(last == -1, "the key view ends with %d", (int)last); t.Reset(); });
		b.Join(); mc::Outcome("%d", (int)n);
	}
	void EntryView()
	{
		const auto c = make_shared_ptr<Set>(); c->Add(1); mc::Cell<int> last, n;
		mc::Th a([&] { c->Remove(1); c->Add(2); c->Add(1); });
		Token t; mc::Th b([&] { const auto v = GetSetEntry(shared_ptr<IObservableSet<int>>(c), 1); t = v->OnChanged().connect(vh::Fn<void (bool)>([&] (bool x) { ++n; last = x; MC_CHECK_MSG(v->Get() == x, "an entry's notification is behind its value"); })); a.Join(); MC_CHECK_MSG(last == 1, "the entry view ends with %d", (int)last); t.Reset(); });
		b.Join(); mc::Outcome("%d", (int)n);
	}
}
#define ALL(name_, fn_, ...) \
	MC_SCENARIO(name_##_dictionary, __VA_ARGS__) { fn_<Dict>(); } \
	MC_SCENARIO(name_##_set, __VA_ARGS__) { fn_<Set>(); } \
	MC_SCENARIO(name_##_list, __VA_ARGS__) { fn_<List>(); } \
	MC_SCENARIO(name_##_multi_dictionary, __VA_ARGS__) { fn_<MultiDict>(); } \
	MC_SCENARIO(name_##_multi_set, __VA_ARGS__) { fn_<MultiSet>(); }
ALL(subscribing, Subscribing, .Q(2).T(4))
ALL(changing, Changing, .Q(2).T(4))
ALL(locked, Locked, .Q(2).T(4))
ALL(leaving, Leaving, .Q(2).T(4))
ALL(reading, Reading, .Q(2).T(4))
MC_SCENARIO(key_view, .Q(2).T(4)) { KeyView(); }
MC_SCENARIO(entry_view, .Q(2).T(4)) { EntryView(); }
