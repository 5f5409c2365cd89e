// C04: transactions. Every sequence of operations, commits, reverts and new transactions against plain vectors.
#include "common.h"
#include "coll.h"
#include <stingraykit/collection/DictionaryKeysSet.h>
#include <stingraykit/collection/TransactionalDictionary.h>
#include <stingraykit/collection/TransactionalDictionaryKeyValue.h>
#include <stingraykit/collection/TransactionalList.h>
#include <stingraykit/collection/TransactionalSet.h>
#include <stingraykit/thread/CancellationToken.h>
#include <map>
#include <memory>
#include <set>

namespace
{
	const int Keys = 3, Values = 2;
	typedef std::map<int, int> MII; typedef std::set<int> SI;
	VP Vec(const MII& m) { return VP(m.begin(), m.end()); }
	VI Vec(const SI& s) { return VI(s.begin(), s.end()); }
	VI Vec(const VI& s) { return s; }
	template < typename M > MII::const_iterator Lower(const M& m, int k) { return m.lower_bound(k); }

	// ---- how a difference is applied
	void ApplyEntry(MII& m, const DiffEntry<KeyValuePair<int, int>>& e)
	{
		if (e.Op == CollectionOp::Added) SEQ_CHECK_MSG(m.emplace(e.Item.Key, e.Item.Value).second, "the difference adds key %d, which is there", e.Item.Key);
		else if (e.Op == CollectionOp::Removed) { auto i = m.find(e.Item.Key); SEQ_CHECK_MSG(i != m.end() && i->second == e.Item.Value, "the difference removes %d:%d, which is not there", e.Item.Key, e.Item.Value); m.erase(i); }
		else { auto i = m.find(e.Item.Key); SEQ_CHECK_MSG(i != m.end(), "the difference updates key %d, which is not there", e.Item.Key); i->second = e.Item.Value; }
	}
	void ApplyEntry(SI& m, const DiffEntry<int>& e)
	{
		if (e.Op == CollectionOp::Added) SEQ_CHECK_MSG(m.insert(e.Item).second, "the difference adds %d, which is there", e.Item);
		else SEQ_CHECK_MSG(e.Op == CollectionOp::Removed && m.erase(e.Item), "the difference removes %d, which is not there", e.Item);
	}
	void ApplyEntry(VI& m, const DiffEntry<KeyValuePair<size_t, int>>& e)
	{
		const size_t i = e.Item.Key;
		if (e.Op == CollectionOp::Added) { SEQ_CHECK_MSG(i <= m.size(), "the difference adds at %zu of %zu", i, m.size()); m.insert(m.begin() + i, e.Item.Value); }
		else if (e.Op == CollectionOp::Removed) { SEQ_CHECK_MSG(i < m.size() && m[i] == e.Item.Value, "the difference removes %d at %zu, which is not there", e.Item.Value, i); m.erase(m.begin() + i); }
		else { SEQ_CHECK(i < m.size()); m[i] = e.Item.Value; }
	}
	template < typename M, typename D > M Applied(M m, const D& diff) { size_t n = 0; for (auto e = diff->GetEnumerator(); e->Valid(); e->Next()) { ApplyEntry(m, e->Get()); SEQ_CHECK(++n < 50); } return m; }

	// ---- everything that can be asked
	template < typename C > void CheckDict(const char* what, const C& c, const MII& m)
	{
		Is(what, c.GetEnumerator(), Vec(m)); Is(what, c.Reverse()->GetEnumerator(), Rev(Vec(m)));
		SEQ_CHECK_MSG(c.GetCount() == m.size() && c.IsEmpty() == m.empty(), "%s: count %zu, expected %zu", what, c.GetCount(), m.size());
		for (int k = 0; k <= Keys; ++k)
		{
			const auto i = m.find(k); const bool has = i != m.end(); int v = -7;
			SEQ_CHECK_MSG(c.ContainsKey(k) == has, "%s: key %d %s", what, k, has ? "missing" : "present");
			SEQ_CHECK(c.TryGet(k, v) == has && v == (has ? i->second : -7)); if (has) SEQ_CHECK(c.Get(k) == i->second);
			Is(what, c.Find(k), has ? VP(i, m.end()) : VP());
			Is(what, c.ReverseFind(k), has ? Rev(VP(m.begin(), std::next(i))) : VP());
		}
	}
	template < typename C > void CheckSet(const char* what, const C& c, const SI& m)
	{
		Is(what, c.GetEnumerator(), Vec(m)); Is(what, c.Reverse()->GetEnumerator(), Rev(Vec(m)));
		SEQ_CHECK_MSG(c.GetCount() == m.size() && c.IsEmpty() == m.empty(), "%s: count %zu, expected %zu", what, c.GetCount(), m.size());
		for (int k = 0; k <= Keys; ++k)
		{
			const auto i = m.find(k); const bool has = i != m.end();
			SEQ_CHECK_MSG(c.Contains(k) == has, "%s: %d %s", what, k, has ? "missing" : "present");
			Is(what, c.Find(k), has ? VI(i, m.end()) : VI());
			Is(what, c.ReverseFind(k), has ? Rev(VI(m.begin(), std::next(i))) : VI());
		}
	}
	template < typename C > void CheckList(const char* what, const C& c, const VI& m)
	{
		Is(what, c.GetEnumerator(), m); Is(what, c.Reverse()->GetEnumerator(), Rev(m));
		SEQ_CHECK_MSG(c.GetCount() == m.size() && c.IsEmpty() == m.empty(), "%s: count %zu, expected %zu", what, c.GetCount(), m.size());
		for (size_t i = 0; i <= m.size() + 1; ++i) { int v = -7; const bool in = i < m.size(); SEQ_CHECK(c.TryGet(i, v) == in && v == (in ? m[i] : -7)); if (in) SEQ_CHECK(c.Get(i) == m[i]); }
		for (int v = 0; v <= Values; ++v)
		{
			const size_t i = std::find(m.begin(), m.end(), v) - m.begin(); const optional<size_t> x = c.IndexOf(v);
			SEQ_CHECK_MSG(c.Contains(v) == (i < m.size()) && x.is_initialized() == (i < m.size()) && (!x || *x == i), "%s: place of %d", what, v);
		}
	}
	// ---- one observer
	template < typename M > struct Observer
	{
		M m; int calls; Token t; Observer() : calls(0) { }
		template < typename C, typename Sig > void Connect(C& c) { t = c.OnChanged().connect(vh::Fn<Sig>([this, &c](const typename C::DiffTypePtr& d) { ++calls; m = Applied(m, d); Is("the contents seen by an observer", c.GetEnumerator(), Vec(m)); })); }
	};

	template < typename C, typename M, typename T, typename Ops, typename Check >
	void Run(int depth, int opCount, const Ops& ops, const Check& check)
	{
		C c; M base, cur; Observer<M> obs; std::unique_ptr<Observer<M>> late; Snaps<T, decltype(Vec(M()))> snaps, outer;
		typedef typename C::DiffTypePtr DiffPtr; typedef typename C::OnChangedSignature Sig;
		obs.template Connect<C, Sig>(c);
		typename C::TransactionTypePtr t = c.StartTransaction();
		{ const int n = seq::Pick(3); for (int i = 0; i < n; ++i) ops(*t, cur, i + 100); if (n) { t->Commit(); base = cur; SEQ_CHECK(obs.calls == 1); obs.calls = 0; } }
		DiffPtr oldDiff; M oldFrom, oldTo; // a difference taken earlier
		for (int s = 0; s < depth; ++s)
		{
			const int op = seq::Pick(opCount + 8), before = obs.calls;
			int expectCalls = 0;
			if (op < opCount) ops(*t, cur, op);
			else switch (op - opCount)
			{
			case 0: SEQ_LOG("commit"); t->Commit(); expectCalls = cur != base; base = cur; SEQ_CHECK_MSG(!t->IsDirty(), "dirty after a commit"); break;
			case 1: SEQ_LOG("revert"); t->Revert(); cur = base; SEQ_CHECK_MSG(!t->IsDirty(), "dirty after a revert"); break;
			case 2: SEQ_LOG("a new transaction"); t.reset(); t = c.StartTransaction(); cur = base; break;
			case 3: if (late) return; SEQ_LOG("connect"); late.reset(new Observer<M>); late->template Connect<C, Sig>(c); SEQ_CHECK_MSG(late->calls == (base.empty() ? 0 : 1) && late->m == base, "a new observer does not see the committed contents"); break;
			case 4: if (oldDiff) return; SEQ_LOG("keep the difference"); oldDiff = t->Diff(); oldFrom = base; oldTo = cur; break;
			case 5: snaps.Take(*t, Vec(cur)); break;
			case 6: outer.Take(c, Vec(base)); break;
			case 7: // a second transaction has to wait
				{
					SEQ_LOG("competing transaction"); CancellationToken x; x.Cancel();
					bool threw = false; try { c.StartTransaction(x); } catch (const OperationCancelledException&) { threw = true; } SEQ_CHECK_MSG(threw, "a second transaction was opened"); x.Reset(); break;
				}
			}
			seq::Step();
			SEQ_CHECK_MSG(obs.calls - before == expectCalls, "%d notifications, expected %d", obs.calls - before, expectCalls);
			check("inside the transaction", *t, cur); check("outside", c, base);
			SEQ_CHECK_MSG(obs.m == base, "the observer's copy differs from the contents"); if (late) SEQ_CHECK_MSG(late->m == base, "the late observer's copy differs from the contents");
			SEQ_CHECK_MSG(Applied(base, t->Diff()) == cur, "the difference does not lead to the contents of the transaction");
			if (cur != base) SEQ_CHECK_MSG(t->IsDirty(), "changed but not dirty");
		}
		if (oldDiff) { SEQ_CHECK_MSG(Applied(oldFrom, oldDiff) == oldTo, "a difference taken earlier has changed"); }
		snaps.Check(); outer.Check();
		SEQ_LOG("abandon"); t.reset(); check("after abandoning", c, base); SEQ_CHECK(obs.m == base);
		{ typename C::TransactionTypePtr n = c.StartTransaction(); check("in a new transaction", *n, base); }
	}
	template < typename Tx > void DictOp(Tx& t, MII& m, int op)
	{
		if (op >= 100) { t.Add(op - 100, 0); m[op - 100] = 0; return; }
		if (op < 4 * Keys)
		{
			const int k = op % Keys; int v = op / Keys < 2 ? seq::Pick(Values) : 0;
			switch (op / Keys)
			{
			case 0: { SEQ_LOG("add %d:%d", k, v); const bool r = t.Add(k, v); SEQ_CHECK(r == m.emplace(k, v).second); break; }
			case 1: SEQ_LOG("set %d:%d", k, v); t.Set(k, v); m[k] = v; break;
			case 2:
				{
					const int w = seq::Pick(3); v = w == 2; SEQ_LOG("apply %d to %d:%d", w, k, v);
					t.Apply(MakeDiffEntry(w == 0 ? CollectionOp::Added : w == 1 ? CollectionOp::Removed : CollectionOp::Updated, KeyValuePair<int, int>(k, v)));
					if (w == 1) m.erase(k); else m[k] = v;
					break;
				}
			case 3: { SEQ_LOG("remove %d", k); const bool r = t.Remove(k); SEQ_CHECK(r == (m.erase(k) != 0)); break; }
			}
		}
		else if (op == 4 * Keys) { SEQ_LOG("clear"); t.Clear(); m.clear(); }
		else
		{
			const int w = seq::Pick(4); SEQ_LOG("remove where %d", w); size_t n = 0; const auto pred = [w](int k, int v) { return w == 0 || (w == 1 && k > 0) || (w == 2 && v == 1); };
			for (auto i = m.begin(); i != m.end(); ) if (pred(i->first, i->second)) { i = m.erase(i); ++n; } else ++i;
			const size_t r = t.RemoveWhere(vh::Fn<bool (const int&, const int&)>(pred)); SEQ_CHECK_MSG(r == n, "%zu removed, expected %zu", r, n);
		}
	}
	template < typename Tx > void SetOp(Tx& t, SI& m, int op)
	{
		if (op >= 100) { t.Add(op - 100); m.insert(op - 100); return; }
		if (op < 3 * Keys)
		{
			const int k = op % Keys;
			switch (op / Keys)
			{
			case 0: { SEQ_LOG("add %d", k); const bool r = t.Add(k); SEQ_CHECK(r == m.insert(k).second); break; }
			case 1: { SEQ_LOG("remove %d", k); const bool r = t.Remove(k); SEQ_CHECK(r == (m.erase(k) != 0)); break; }
			case 2: { const bool add = seq::Flip(); SEQ_LOG("apply %d to %d", add, k); t.Apply(MakeDiffEntry(add ? CollectionOp::Added : CollectionOp::Removed, k)); if (add) m.insert(k); else m.erase(k); break; }
			}
		}
		else if (op == 3 * Keys) { SEQ_LOG("clear"); t.Clear(); m.clear(); }
		else
		{
			const int w = seq::Pick(3); SEQ_LOG("remove where %d", w); size_t n = 0; const auto pred = [w](int k) { return w == 0 || (w == 1 && k > 0); };
			for (auto i = m.begin(); i != m.end(); ) if (pred(*i)) { i = m.erase(i); ++n; } else ++i;
			const size_t r = t.RemoveWhere(vh::Fn<bool (const int&)>(pred)); SEQ_CHECK_MSG(r == n, "%zu removed, expected %zu", r, n);
		}
	}
	template < typename Tx > void ListOp(Tx& t, VI& m, int op)
	{
		if (op >= 100) { t.Add(op % 2); m.push_back(op % 2); return; }
		const size_t n = m.size();
		auto at = [&] { const int w = seq::Pick(3); return w == 0 ? (size_t)0 : w == 1 ? n : n ? n - 1 : 5; };
		switch (op)
		{
		case 0: { const int v = seq::Pick(Values); SEQ_LOG("add %d", v); t.Add(v); m.push_back(v); break; }
		case 1: { const size_t i = at(); const int v = seq::Pick(Values); SEQ_LOG("set %zu to %d", i, v); const bool threw = Throws([&] { t.Set(i, v); }); SEQ_CHECK(threw == (i >= n)); if (!threw) m[i] = v; break; }
		case 2: { const size_t i = at(); const int v = seq::Pick(Values); SEQ_LOG("insert %d at %zu", v, i); const bool threw = Throws([&] { t.Insert(i, v); }); SEQ_CHECK(threw == (i > n)); if (!threw) m.insert(m.begin() + i, v); break; }
		case 3: { const size_t i = at(); SEQ_LOG("remove at %zu", i); const bool threw = Throws([&] { t.RemoveAt(i); }); SEQ_CHECK(threw == (i >= n)); if (!threw) m.erase(m.begin() + i); break; }
		case 4: { const int v = seq::Pick(Values); SEQ_LOG("remove %d", v); const auto i = std::find(m.begin(), m.end(), v); const bool r = t.Remove(v); SEQ_CHECK(r == (i != m.end())); if (r) m.erase(i); break; }
		case 5: { const int w = seq::Pick(3); SEQ_LOG("remove all %d", w); const auto pred = [w](int v) { return w == 0 || (w == 1 && v == 1); }; const auto i = std::remove_if(m.begin(), m.end(), pred); const size_t k = m.end() - i; m.erase(i, m.end()); SEQ_CHECK(t.RemoveAll(vh::Fn<bool (const int&)>(pred)) == k); break; }
		case 6: SEQ_LOG("clear"); t.Clear(); m.clear(); break;
		case 7: // what a difference says
			{
				const int w = seq::Pick(3); const size_t i = at(); const int v = seq::Pick(Values); SEQ_LOG("apply %d to %d at %zu", w, v, i);
				const bool threw = Throws([&] { t.Apply(MakeDiffEntry(w == 0 ? CollectionOp::Added : w == 1 ? CollectionOp::Removed : CollectionOp::Updated, KeyValuePair<size_t, int>(i, v))); });
				SEQ_CHECK_MSG(threw == (w == 0 ? i > n : i >= n), "applying %d at %zu of %zu %s", w, i, n, threw ? "refused" : "accepted");
				if (!threw) { if (w == 0) m.insert(m.begin() + i, v); else if (w == 1) m.erase(m.begin() + i); else m[i] = v; }
				break;
			}
		}
	}
}

SEQ_SCENARIO(dictionary, .Q(3).T(4).Split(4))
{
	typedef TransactionalDictionary<int, int> C;
	Run<C, MII, KeyValuePair<int, int>>(depth, 4 * Keys + 2, [](C::TransactionType& t, MII& m, int op) { DictOp(t, m, op); }, [](const char* w, const IReadonlyDictionary<int, int>& c, const MII& m) { CheckDict(w, c, m); });
}
SEQ_SCENARIO(set, .Q(3).T(5).Split(4))
{
	typedef TransactionalSet<int> C;
	Run<C, SI, int>(depth, 3 * Keys + 2, [](C::TransactionType& t, SI& m, int op) { SetOp(t, m, op); }, [](const char* w, const IReadonlySet<int>& c, const SI& m) { CheckSet(w, c, m); });
}
SEQ_SCENARIO(list, .Q(3).T(4).Split(4))
{
	typedef TransactionalList<int, comparers::Equals> C;
	Run<C, VI, int>(depth, 8, [](C::TransactionType& t, VI& m, int op) { ListOp(t, m, op); }, [](const char* w, const IReadonlyList<int>& c, const VI& m) { CheckList(w, c, m); });
}
// the difference of one transaction, applied in another one, gives the same contents
SEQ_SCENARIO(diff_transfer, .Q(4).T(5).Split(3))
{
	const int kind = seq::Pick(3), start = seq::Pick(3);
	auto go = [&](auto& a, auto& b, auto m, auto op, int ops)
	{
		auto ta = a.StartTransaction(); auto tb = b.StartTransaction();
		for (int i = 0; i < start; ++i) { auto copy = m; op(*ta, copy, 100 + i); op(*tb, m, 100 + i); } ta->Commit(); tb->Commit();
		for (int s = 0; s < depth; ++s) op(*ta, m, seq::Pick(ops));
		seq::Step();
		for (auto e = ta->Diff()->GetEnumerator(); e->Valid(); e->Next()) tb->Apply(e->Get());
		tb->Commit(); Is("contents after applying a difference", b.GetEnumerator(), Vec(m));
		ta->Commit(); Is("contents after the commit", a.GetEnumerator(), Vec(m));
	};
	if (kind == 0) { typedef TransactionalDictionary<int, int> C; C a, b; go(a, b, MII(), [](C::TransactionType& t, MII& m, int op) { DictOp(t, m, op < Keys ? op + Keys : op - Keys + 3 * Keys); }, 2 * Keys + 2); }
	if (kind == 1) { typedef TransactionalSet<int> C; C a, b; go(a, b, SI(), [](C::TransactionType& t, SI& m, int op) { SetOp(t, m, op); }, 2 * Keys); }
	if (kind == 2) { typedef TransactionalList<int, comparers::Equals> C; C a, b; go(a, b, VI(), [](C::TransactionType& t, VI& m, int op) { ListOp(t, m, op); }, 7); }
}
// the view of a single key
SEQ_SCENARIO(one_key, .Q(3).T(4).Split(3))
{
	typedef TransactionalDictionary<int, int> C; const auto c = make_shared_ptr<C>(); MII m, cur; C::TransactionTypePtr t = c->StartTransaction();
	const auto view = GetDictionaryKeyValue(shared_ptr<IReadonlyTransactionalDictionary<int, int>>(c), 1);
	int calls = 0; optional<int> seen(77); Token k = view->OnChanged().connect(vh::Fn<void (const optional<int>&)>([&](const optional<int>& v) { ++calls; seen = v; }));
	SEQ_CHECK(calls == 1 && !seen);
	for (int s = 0; s < depth; ++s)
	{
		const int op = seq::Pick(4 * Keys + 3); calls = 0;
		const bool commit = op == 4 * Keys + 2;
		if (commit) { SEQ_LOG("commit"); t->Commit(); } else DictOp(*t, cur, op);
		seq::Step();
		auto value = [](const MII& x) { return x.count(1) ? optional<int>(x.at(1)) : optional<int>(); };
		SEQ_CHECK_MSG(calls == (commit && value(m) != value(cur)), "%d notifications", calls);
		if (commit) m = cur;
		SEQ_CHECK(view->Get() == value(m) && seen == value(m));
	}
}
// the view of the keys as a transactional set
SEQ_SCENARIO(keys_view, .Q(3).T(4).Split(3))
{
	typedef TransactionalDictionary<int, int> C; const auto c = make_shared_ptr<C>(); MII m, cur; C::TransactionTypePtr t = c->StartTransaction();
	auto keysOf = [](const MII& x) { SI r; for (auto& e : x) r.insert(e.first); return r; };
	const int start = seq::Pick(3); for (int i = 0; i < start; ++i) DictOp(*t, cur, 100 + i);
	t->Commit(); m = cur;
	const auto view = GetDictionaryKeys(shared_ptr<IReadonlyTransactionalDictionary<int, int>>(c));
	struct { SI m; int calls = 0; Token t; } obs;
	obs.t = view->OnChanged().connect(vh::Fn<void (const shared_ptr<IEnumerable<DiffEntry<int>>>&)>([&obs](const shared_ptr<IEnumerable<DiffEntry<int>>>& d) { ++obs.calls; obs.m = Applied(obs.m, d); }));
	SEQ_CHECK_MSG(obs.m == keysOf(m) && obs.calls == (m.empty() ? 0 : 1), "a new observer of the keys got %d notifications", obs.calls);
	for (int s = 0; s < depth; ++s)
	{
		const int op = seq::Pick(4 * Keys + 3); obs.calls = 0;
		const bool commit = op == 4 * Keys + 2;
		if (commit) { SEQ_LOG("commit"); t->Commit(); } else DictOp(*t, cur, op);
		seq::Step();
		SEQ_CHECK_MSG(obs.calls == (commit && keysOf(m) != keysOf(cur)), "%d notifications about the keys", obs.calls);
		if (commit) m = cur;
		SEQ_CHECK_MSG(obs.m == keysOf(m), "the observer of the keys ended with other keys");
		CheckSet("the keys", *view, keysOf(m));
	}
}
