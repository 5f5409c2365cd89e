// T14: all operation sequences over tokens, pools, maps, holders, guards and transactions.
#include "../seq/seq.h"
#include "common.h"
#include <stingraykit/ActionTransaction.h>
#include <stingraykit/FunctionToken.h>
#include <stingraykit/Holder.h>
#include <stingraykit/MultiToken.h>
#include <stingraykit/ObjectToken.h>
#include <stingraykit/ScopeExit.h>
#include <stingraykit/Token.h>
#include <stingraykit/shared_ptr.h>
#include <stingraykit/unique_ptr.h>
#include <map>
#include <memory>
#include <vector>
using namespace stingray;

namespace
{
	std::vector<int> g_runs; // order of actions
	int Runs(int id) { int n = 0; for (int x : g_runs) n += x == id; return n; }
	struct Tracked // runs its action on destruction; for object tokens
	{
		std::shared_ptr<int> id; Tracked(int i) : id(new int(i), [](int* p) { g_runs.push_back(*p); delete p; }) { }
	};
	Token Make(int id, int kind)
	{
		switch (kind)
		{
		case 0: return MakeFunctionToken(vh::Fn<void ()>([id]{ g_runs.push_back(id); }));
		case 1: return MakeObjectToken(Tracked(id));
		case 2: return MakeFunctionToken(vh::Fn<void ()>([id]{ g_runs.push_back(id); throw std::runtime_error("action failed"); }));
		default: { ForwardMultiTokenBuilder b; return b % MakeFunctionToken(vh::Fn<void ()>([id]{ g_runs.push_back(id); })); }
		}
	}
	typedef std::multimap<int, int> Model; // place -> token id
	enum { A, B, HOLDER, POOL, TPOOL, MAP0, MAP1, TMAP0, TMAP1, OBJ };
	void Put(Model& m, int place, int id) { m.erase(place); if (id) m.insert(std::make_pair(place, id)); }
	int At(const Model& m, int place) { Model::const_iterator i = m.find(place); return i == m.end() ? 0 : i->second; }
}

SEQ_SCENARIO(tokens, .Q(4).T(5))
{
	g_runs.clear(); int next = 1; Model m; std::map<int, int> dummy;
	{
		const int kind = seq::Pick(4);
		Token t[2]; TokenHolder h; TokenPool p; ThreadlessTokenPool q; TokenMap<int> mp; ThreadlessTokenMap<int> mq; shared_ptr<int> o;
		t[0] = Make(next, kind); Put(m, A, next++);
		for (int step = 0; step < depth; ++step)
		{
			const int op = seq::Pick(24);
			SEQ_LOG("op %d", op);
			switch (op)
			{
			case 0: t[1] = Make(next, kind); Put(m, B, next++); break;
			case 1: t[0] = Make(next, kind); Put(m, A, next++); break;
			case 2: t[1] = t[0]; Put(m, B, At(m, A)); break;
			case 3: { Token& r = t[0]; t[0] = r; break; }
			case 4: t[0] = std::move(t[1]); Put(m, A, At(m, B)); m.erase(B); break;
			case 5: t[0].Reset(); m.erase(A); break;
			case 6: t[1].Set(t[0]); Put(m, B, At(m, A)); break;
			case 7: std::swap(t[0], t[1]); { const int a = At(m, A), b = At(m, B); Put(m, A, b); Put(m, B, a); } break;
			case 8: h.Set(t[0]); Put(m, HOLDER, At(m, A)); break;
			case 9: h = std::move(t[0]); Put(m, HOLDER, At(m, A)); m.erase(A); break;
			case 10: h.Reset(); m.erase(HOLDER); break;
			case 11: if (!t[0]) return; p.Add(t[0]); m.insert(std::make_pair((int)POOL, At(m, A))); break;
			case 12: if (!t[0]) return; p += std::move(t[0]); m.insert(std::make_pair((int)POOL, At(m, A))); m.erase(A); break;
			case 13: p.Release(); m.erase(POOL); break;
			case 14: if (!t[0]) return; q += t[0]; m.insert(std::make_pair((int)TPOOL, At(m, A))); break;
			case 15: q.Release(); m.erase(TPOOL); break;
			case 16: case 17: if (!t[0]) return; mp[op - 16] += t[0]; m.insert(std::make_pair(MAP0 + op - 16, At(m, A))); mq[op - 16] += t[0]; m.insert(std::make_pair(TMAP0 + op - 16, At(m, A))); break;
			case 18: mp.release(0); m.erase(MAP0); break;
			case 19: mq.release(1); m.erase(TMAP1); break;
			case 20: mp.release_all(); m.erase(MAP0); m.erase(MAP1); break;
			case 21: mq.release_all(); m.erase(TMAP0); m.erase(TMAP1); break;
			case 22: o = AttachToken(make_shared_ptr<int>(5), t[0]); Put(m, OBJ, At(m, A)); break;
			case 23: o.reset(); m.erase(OBJ); break;
			}
			seq::Step();
			for (int id = 1; id < next; ++id)
			{
				int held = 0; for (Model::const_iterator i = m.begin(); i != m.end(); ++i) held += i->second == id;
				SEQ_CHECK_MSG(Runs(id) == (held ? 0 : 1), "token %d is held in %d places and its action ran %d times", id, held, Runs(id));
			}
			SEQ_CHECK((bool)t[0] == (At(m, A) != 0) && t[1].IsInitialized() == (At(m, B) != 0));
			SEQ_CHECK_MSG(p.Empty() == !m.count(POOL) && q.Empty() == !m.count(TPOOL), "Empty()");
			for (int k = 0; k < 2; ++k) SEQ_CHECK_MSG(mp.contains(k) == (m.count(MAP0 + k) > 0) && mq.contains(k) == (m.count(TMAP0 + k) > 0), "contains(%d)", k);
		}
	}
	for (int id = 1; id < next; ++id) SEQ_CHECK_MSG(Runs(id) == 1, "in the end the action of token %d ran %d times", id, Runs(id));
}

// members of a multi token are released each once, in the promised order, and only when the last holder lets go
SEQ_SCENARIO(multi_token, .Q(4).T(6))
{
	g_runs.clear();
	const bool forward = seq::Flip(); const int n = seq::Pick(depth + 1), extra = seq::Pick(2), fail = seq::Pick(n + 1);
	Token kept = Make(1, 0);
	{
		Token t, u;
		auto build = [&](auto& b) { for (int i = 0; i < n; ++i) { if (extra && i == 0) b % kept; else b % Make(i + 1, i + 1 == fail ? 2 : 0); } t = b; };
		if (forward) { ForwardMultiTokenBuilder b; build(b); } else { ReverseMultiTokenBuilder b; build(b); }
		if (!(extra && n)) kept.Reset(), g_runs.clear();
		u = t; t.Reset(); SEQ_CHECK_MSG(g_runs.empty(), "released while held");
		u.Reset(); seq::Step();
		std::vector<int> e; for (int i = extra && n ? 1 : 0; i < n; ++i) e.push_back(i + 1);
		if (!forward) e = std::vector<int>(e.rbegin(), e.rend());
		SEQ_CHECK_MSG(g_runs == e, "released %d of %d, or in the wrong order", (int)g_runs.size(), (int)e.size());
		kept.Reset();
	}
	SEQ_CHECK((int)g_runs.size() == n);
}

// re-entrant use: an action that itself touches the container it was released from
SEQ_SCENARIO(reentrant, .Q(3).T(4))
{
	g_runs.clear();
	{
		Token t; TokenHolder h; TokenPool p; ThreadlessTokenPool q; TokenMap<int> mp; ThreadlessTokenMap<int> mq;
		const int inner = seq::Pick(4), outer = seq::Pick(8); const int count = 1 + seq::Pick(depth);
		auto action = [&, inner, outer](int id)
		{
			g_runs.push_back(id);
			if (inner == 0) return;
			Token x = inner == 1 ? Make(100 + id, 0) : Token();
			switch (outer)
			{
			case 0: if (inner == 3) t.Reset(); else t = x; break;
			case 1: if (inner == 3) h.Reset(); else h = x; break;
			case 2: if (inner == 3) p.Release(); else if (x) p += x; else (void)p.Empty(); break;
			case 3: if (inner == 3) q.Release(); else if (x) q += x; else (void)q.Empty(); break;
			case 6: case 4: if (inner == 3) mp.release(1); else if (x) mp[2] += x; else (void)mp.contains(1); break;
			case 7: case 5: if (inner == 3) mq.release(2); else if (x) mq[2] += x; else (void)mq.contains(2); break;
			}
		};
		for (int i = 1; i <= count; ++i)
		{
			Token x = MakeFunctionToken(vh::Fn<void ()>([action, i]{ action(i); }));
			switch (outer)
			{
			case 0: t = x; break;
			case 1: h = x; break;
			case 2: p += x; break;
			case 3: q += x; break;
			case 6: case 4: mp[1] += x; break;
			case 7: case 5: mq[1] += x; break;
			}
		}
		switch (outer) { case 0: t.Reset(); break; case 1: h.Reset(); break; case 2: p.Release(); break; case 3: q.Release(); break; case 4: mp.release(1); break; case 5: mq.release(1); break; case 6: mp.release_all(); break; case 7: mq.release_all(); break; }
		seq::Step();
		for (int i = 1; i <= count; ++i) SEQ_CHECK_MSG(Runs(i) == 1, "action %d ran %d times", i, Runs(i));
		// what an action put in later is released on request or at the end (an action must not be re-armed by the end)
		t.Reset(); h.Reset(); p.Release(); q.Release(); mp.release_all(); mq.release_all();
		if (inner == 1) for (int i = 1; i <= count; ++i) SEQ_CHECK_MSG(Runs(100 + i) == 1, "token added by action %d: its action ran %d times", i, Runs(100 + i));
	}
	for (size_t i = 0; i < g_runs.size(); ++i) SEQ_CHECK_MSG(Runs(g_runs[i]) == 1, "action %d ran %d times", g_runs[i], Runs(g_runs[i]));
}

// ---- holders
SEQ_SCENARIO(scoped_holder, .Q(5).T(7))
{
	std::vector<int> cleaned, expect;
	{
		const bool initial = seq::Flip(); int next = 1, v = 0;
		std::unique_ptr<ScopedHolder<int> > h;
		const function<void (int)> f = vh::Fn<void (int)>([&](int x){ cleaned.push_back(x); });
		if (initial) { h.reset(new ScopedHolder<int>(next, f)); v = next++; } else h.reset(new ScopedHolder<int>(f));
		for (int step = 0; step < depth; ++step)
		{
			switch (seq::Pick(5))
			{
			case 0: SEQ_LOG("Set"); h->Set(next); if (v) expect.push_back(v); v = next++; break;
			case 1: SEQ_LOG("Clear"); h->Clear(); if (v) expect.push_back(v); v = 0; break;
			case 2: { SEQ_LOG("Release"); int r = 0; bool thrown = false; try { r = h->Release(); } catch (const std::exception&) { thrown = true; } SEQ_CHECK(thrown == (v == 0) && r == v); v = 0; break; }
			case 3: { bool thrown = false; int r = 0; try { r = h->Get(); } catch (const std::exception&) { thrown = true; } SEQ_CHECK(thrown == (v == 0) && r == v); break; }
			case 4: SEQ_LOG("destroy"); h.reset(new ScopedHolder<int>(f)); if (v) expect.push_back(v); v = 0; break;
			}
			seq::Step();
			SEQ_CHECK(h->Valid() == (v != 0)); SEQ_CHECK_MSG(cleaned == expect, "%d clean-ups instead of %d", (int)cleaned.size(), (int)expect.size());
		}
		h.reset(); if (v) expect.push_back(v);
	}
	SEQ_CHECK_MSG(cleaned == expect, "%d clean-ups instead of %d", (int)cleaned.size(), (int)expect.size());
}
SEQ_SCENARIO(void_and_shared_holder, .Q(5).T(7))
{
	int cleaned = 0, expect = 0; std::vector<int> sc, se;
	{
		bool v = seq::Flip(); int sv[2] = { 0, 0 }, next = 1; bool same = false;
		std::unique_ptr<ScopedHolder<void> > h(new ScopedHolder<void>(vh::Fn<void ()>([&]{ ++cleaned; }), v));
		const function<void (int)> f = vh::Fn<void (int)>([&](int x){ sc.push_back(x); });
		SharedHolder<int> s[2] = { SharedHolder<int>(f), SharedHolder<int>(f) };
		for (int step = 0; step < depth; ++step)
		{
			const int op = seq::Pick(8);
			switch (op)
			{
			case 0: h->Set(); expect += v; v = true; break;
			case 1: h->Clear(); expect += v; v = false; break;
			case 2: h.reset(new ScopedHolder<void>(vh::Fn<void ()>([&]{ ++cleaned; }))); expect += v; v = false; break;
			case 3: case 4: { const int i = op - 3; s[i].Set(next); if (sv[i]) se.push_back(sv[i]); sv[i] = next++; if (same) sv[1 - i] = sv[i]; break; }
			case 5: s[0].Clear(); if (sv[0]) se.push_back(sv[0]); sv[0] = 0; if (same) sv[1] = 0; break;
			case 6: s[1] = s[0]; if (!same && sv[1]) se.push_back(sv[1]); sv[1] = sv[0]; same = true; break;
			case 7: s[1] = SharedHolder<int>(next, f); if (!same && sv[1]) se.push_back(sv[1]); sv[1] = next++; same = false; break;
			}
			seq::Step();
			SEQ_CHECK(h->Valid() == v); SEQ_CHECK_MSG(cleaned == expect, "%d clean-ups instead of %d", cleaned, expect);
			for (int i = 0; i < 2; ++i) { SEQ_CHECK(s[i].Valid() == (sv[i] != 0)); if (sv[i]) SEQ_CHECK(s[i].Get() == sv[i]); }
			SEQ_CHECK_MSG(sc == se, "shared holder: %d clean-ups instead of %d", (int)sc.size(), (int)se.size());
		}
		expect += v; if (sv[1] && !same) se.push_back(sv[1]); if (sv[0]) se.push_back(sv[0]);
	}
	SEQ_CHECK_MSG(cleaned == expect && sc == se, "at the end");
}
SEQ_SCENARIO(scope_exit, .Q(1).T(1))
{
	int n = 0; const int how = seq::Pick(4);
	try
	{
		for (int i = 0; i < 2; ++i)
		{
			STINGRAYKIT_SCOPE_EXIT(MK_PARAM(int&, n)) { ++n; } STINGRAYKIT_SCOPE_EXIT_END;
			SEQ_CHECK(n == 0);
			if (how == 0) break;
			if (how == 1) throw std::runtime_error("x");
			if (how == 2) { if (i == 0) { i = 1; continue; } }
			if (how == 3) i = 5;
		}
	}
	catch (const std::runtime_error&) { SEQ_CHECK(how == 1); }
	seq::Step();
	SEQ_CHECK_MSG(n == 1, "scope exit ran %d times", n);
}

// ---- transactions of actions: rolled back once each, in reverse, unless committed
SEQ_SCENARIO(action_transaction, .Q(4).T(6))
{
	std::vector<int> log, expect; std::vector<int> done;
	const int badAction = seq::Pick(3), badRollback = seq::Pick(3); // 0 none
	{
		std::unique_ptr<ActionTransaction> t(new ActionTransaction); bool active = true; int next = 1;
		for (int step = 0; step < depth; ++step)
		{
			const int op = seq::Pick(4); bool thrown = false;
			auto rollback = [&]
			{
				// everything done is undone once, latest first; a failing undo is reported, the rest is still undone by the destructor
				while (!done.empty()) { const int id = done.back(); done.pop_back(); expect.push_back(-id); if (id == badRollback) return false; }
				return true;
			};
			switch (op)
			{
			case 0:
			{
				const int id = next++; SEQ_LOG("Execute %d", id);
				try { t->Execute(vh::Fn<void ()>([&log, id, badAction]{ log.push_back(id); if (id == badAction) throw std::runtime_error("action"); }), vh::Fn<void ()>([&log, id, badRollback]{ log.push_back(-id); if (id == badRollback) throw std::runtime_error("rollback"); })); }
				catch (const std::exception&) { thrown = true; }
				SEQ_CHECK_MSG(thrown == (!active || id == badAction), "Execute %s", thrown ? "refused" : "accepted");
				if (active) { expect.push_back(id); if (id != badAction) done.push_back(id); }
				break;
			}
			case 1:
				SEQ_LOG("Commit");
				try { t->Commit(); } catch (const std::exception&) { thrown = true; }
				SEQ_CHECK(thrown == !active); if (active) done.clear(); active = false;
				break;
			case 2:
			{
				SEQ_LOG("Rollback");
				try { t->Rollback(); } catch (const std::exception&) { thrown = true; }
				const bool ok = active && rollback();
				SEQ_CHECK_MSG(thrown == !ok, "Rollback"); if (ok) active = false;
				break;
			}
			case 3:
				SEQ_LOG("destroy");
				t.reset(); if (active) rollback(); done.clear(); t.reset(new ActionTransaction); active = true;
				break;
			}
			seq::Step();
			SEQ_CHECK_MSG(log == expect, "%d actions and undos instead of %d", (int)log.size(), (int)expect.size());
			for (size_t i = 0; i < log.size(); ++i) if (log[i] < 0) { int n = 0; for (int x : log) n += x == log[i]; SEQ_CHECK_MSG(n == 1, "undo of %d ran %d times", -log[i], n); }
		}
	}
}
