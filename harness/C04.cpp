// C04: competing transactions, readers and observers under every interleaving.
#include "../mc/mc.h"
#include "common.h"
#include <stingraykit/collection/TransactionalDictionary.h>
#include <stingraykit/collection/TransactionalList.h>
#include <stingraykit/collection/TransactionalSet.h>
#include <stingraykit/thread/CancellationToken.h>
#include <stingraykit/thread/TimedCancellationToken.h>
#include <map>
using namespace stingray;

namespace
{
	typedef TransactionalDictionary<int, int> Dict; typedef TransactionalSet<int> Set; typedef TransactionalList<int, comparers::Equals> List;
	// the contents as a pair of numbers that transactions change together
	struct Two { int a, b; };
	Two Read(const Dict& c) { Two r = { 0, 0 }; for (auto e = c.GetEnumerator(); e->Valid(); e->Next()) (e->Get().Key ? r.b : r.a) = e->Get().Value; return r; }
	Two Read(const List& c) { Two r = { 0, 0 }; int i = 0; for (auto e = c.GetEnumerator(); e->Valid(); e->Next(), ++i) (i ? r.b : r.a) = e->Get(); return r; }
	Two Read(const Set& c) { Two r = { 0, 0 }; for (auto e = c.GetEnumerator(); e->Valid(); e->Next()) (e->Get() >= 100 ? r.b : r.a) = e->Get() % 100; return r; }
	void Write(Dict::TransactionType& t, int v) { t.Set(0, v); mc::Point(); t.Set(1, v); }
	void Write(List::TransactionType& t, int v) { t.Clear(); t.Add(v); mc::Point(); t.Add(v); }
	void Write(Set::TransactionType& t, int v) { t.Clear(); t.Add(v); mc::Point(); t.Add(v + 100); }
	int Value(Dict::TransactionType& t) { int v = 0; t.TryGet(0, v); return v; }
	int Value(List::TransactionType& t) { int v = 0; t.TryGet(0, v); return v; }
	int Value(Set::TransactionType& t) { int v = 0; for (int i = 1; i < 9; ++i) if (t.Contains(i)) v = i; return v; }

	void Apply(std::map<int, int>& m, const Dict::DiffEntryType& e) { if (e.Op == CollectionOp::Removed) { MC_CHECK(m.count(e.Item.Key) && m[e.Item.Key] == e.Item.Value); m.erase(e.Item.Key); } else { MC_CHECK_MSG(!m.count(e.Item.Key), "added twice"); m[e.Item.Key] = e.Item.Value; } }
	void Apply(std::map<int, int>& m, const Set::DiffEntryType& e) { const int k = e.Item >= 100; if (e.Op == CollectionOp::Removed) { MC_CHECK(m.count(k) && m[k] == e.Item % 100); m.erase(k); } else { MC_CHECK_MSG(!m.count(k), "added twice"); m[k] = e.Item % 100; } }
	void Apply(std::map<int, int>& m, const List::DiffEntryType& e) { const int k = (int)e.Item.Key; if (e.Op == CollectionOp::Removed) { MC_CHECK(m.count(k) && m[k] == e.Item.Value); m.erase(k); } else { MC_CHECK_MSG(!m.count(k), "added twice"); m[k] = e.Item.Value; } }
	template < typename C > struct Follower
	{
		std::map<int, int> m; mc::Cell<int> n;
		void On(const typename C::DiffTypePtr& d) { ++n; for (auto e = d->GetEnumerator(); e->Valid(); e->Next()) Apply(m, e->Get()); if (!m.empty()) MC_CHECK_MSG(m.size() == 2 && m[0] == m[1], "a notification shows half a change"); }
		Token To(C& c) { return c.OnChanged().connect(vh::Fn<typename C::OnChangedSignature>([this](const typename C::DiffTypePtr& d) { On(d); })); }
	};

	// what is made once per process, before the exploration
	template < typename C > void Prepare()
	{
		ExecutorsProfiler::Instance().GetProfiler();
		C c; Follower<C> f; Token k = f.To(c); auto t = c.StartTransaction(); Write(*t, 1); t->Commit(); Write(*t, 2); t->Commit();
	}

	template < typename C > void Exclusive()
	{
		C c; mc::Cell<int> open; Follower<C> f; Token k = f.To(c);
		auto work = [&] { auto t = c.StartTransaction(); MC_CHECK_MSG(++open == 1, "two transactions are open"); Write(*t, Value(*t) + 1); t->Commit(); --open; };
		mc::Th a(work), b(work); a.Join(); b.Join();
		const Two r = Read(c); MC_CHECK_MSG(r.a == 2 && r.b == 2, "%d and %d after two increments", r.a, r.b); MC_CHECK(f.n == 2 && f.m[0] == 2);
	}
	template < typename C > void Isolation()
	{
		C c; { auto t = c.StartTransaction(); Write(*t, 1); t->Commit(); }
		const int how = mc::Pick(3);
		mc::Th a([&] { auto t = c.StartTransaction(); Write(*t, 2); if (how == 0) t->Commit(); else if (how == 1) { t->Revert(); Write(*t, 3); t->Commit(); } });
		mc::Th b([&]
			{
				auto e = c.GetEnumerator(); const Two r = Read(c); MC_CHECK_MSG(r.a == r.b && (r.a == 1 || (r.a == 2 && how == 0) || (r.a == 3 && how == 1)), "a reader sees %d and %d", r.a, r.b);
				int n = 0; for (; e->Valid(); e->Next()) { mc::Point(); ++n; } MC_CHECK_MSG(n == 2, "an enumeration that began before has %d items", n);
				mc::Outcome("%d", r.a);
			});
		a.Join(); b.Join();
		const Two r = Read(c); MC_CHECK(r.a == r.b && r.a == (how == 0 ? 2 : how == 1 ? 3 : 1));
	}
	template < typename C > void Observer()
	{
		C c; { auto t = c.StartTransaction(); Write(*t, 1); t->Commit(); }
		Follower<C> f; Token k; const int last = 2 + mc::Pick(2);
		mc::Th a([&] { auto t = c.StartTransaction(); for (int i = 2; i <= last; ++i) { Write(*t, i); t->Commit(); } });
		mc::Th b([&] { k = f.To(c); MC_CHECK_MSG(f.n >= 1, "no contents on connection"); });
		a.Join(); b.Join();
		MC_CHECK_MSG(f.m.size() == 2 && f.m[0] == last && f.m[1] == last, "the observer ends with other contents");
		mc::Outcome("%d", (int)f.n);
	}
	template < typename C > void Cancelled()
	{
		C c; CancellationToken token; mc::Cell<int> got;
		auto t = c.StartTransaction(); Write(*t, 1);
		mc::Th a([&] { try { auto n = c.StartTransaction(token); got = 1; Write(*n, 5); } catch (const OperationCancelledException&) { got = 2; } });
		mc::Th b([&] { token.Cancel(); });
		b.Join(); if (mc::Pick(2)) a.Join();
		t->Commit(); t.reset(); a.Join();
		MC_CHECK(got != 0); const Two r = Read(c); MC_CHECK(r.a == 1 && r.b == 1);
		{ auto n = c.StartTransaction(); MC_CHECK(Value(*n) == 1); }
		mc::Outcome("%d", (int)got); token.Reset();
	}
	template < typename C > void Waiting()
	{
		C c; auto t = c.StartTransaction(); Write(*t, 1); const bool commit = mc::Pick(2);
		mc::Th a([&] { auto n = c.StartTransaction(); MC_CHECK_MSG(Value(*n) == commit, "the waiting transaction starts from other contents"); Write(*n, 7); n->Commit(); });
		if (commit) t->Commit(); t.reset();
		a.Join(); const Two r = Read(c); MC_CHECK(r.a == 7 && r.b == 7);
	}
}
#define ALL(name_, fn_, ...) \
	MC_SCENARIO(name_##_dictionary, __VA_ARGS__) { Prepare<Dict>(); fn_<Dict>(); } \
	MC_SCENARIO(name_##_set, __VA_ARGS__) { Prepare<Set>(); fn_<Set>(); } \
	MC_SCENARIO(name_##_list, __VA_ARGS__) { Prepare<List>(); fn_<List>(); }
ALL(exclusive, Exclusive, .Q(2).T(3))
ALL(isolation, Isolation, .Q(2).T(3))
ALL(observer, Observer, .Q(2).T(3))
ALL(cancelled, Cancelled, .Q(2).T(3))
ALL(waiting, Waiting, .Q(2).T(3))
