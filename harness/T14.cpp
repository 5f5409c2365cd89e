// T14: tokens shared between threads.
#include "../mc/mc.h"
#include "common.h"
#include <stingraykit/FunctionToken.h>
#include <stingraykit/Finalizer.h>
#include <stingraykit/MultiToken.h>
#include <stingraykit/ObjectToken.h>
#include <stingraykit/Token.h>
#include <stingraykit/shared_ptr.h>
#include <stingraykit/thread/ThreadTaskExecutor.h>
using namespace stingray;

namespace
{
	struct Act
	{
		mc::Cell<int> runs, allowed;
		void Run() { MC_CHECK_MSG(allowed, "action runs while its token is still held"); MC_CHECK_MSG(++runs == 1, "action runs %d times", (int)runs); mc::Point(); }
		Token Tok() { return MakeFunctionToken(vh::Fn<void ()>([this]{ Run(); })); }
	};
}
MC_SCENARIO(two_holders, .Q(4).Leaks())
{
	Act a;
	{
		Token t = a.Tok();
		mc::Th x([&a, t]() mutable { Token u(t); t.Reset(); a.allowed = a.allowed | 1; u.Reset(); });
		a.allowed = a.allowed | 1; t = null;
		x.Join();
	}
	MC_CHECK_MSG(a.runs == 1, "ran %d times", (int)a.runs);
}
// never while the last holder still holds
MC_SCENARIO(last_holder, .Q(4).Leaks())
{
	Act a;
	{
		Token t = a.Tok();
		mc::Th x([&a, u = Token(t)]() mutable { u.Reset(); });
		mc::Point();
		MC_CHECK_MSG(a.runs == 0, "ran while held"); x.Join();
		MC_CHECK_MSG(a.runs == 0, "ran while held"); a.allowed = 1; t.Reset(); MC_CHECK(a.runs == 1);
	}
	MC_CHECK(a.runs == 1);
}
MC_SCENARIO(pool_add_vs_release, .Q(3).Leaks())
{
	Act a, b, c; a.allowed = b.allowed = c.allowed = 1; int atRelease = 0;
	{
		TokenPool p; p.Add(a.Tok());
		mc::Th x([&]{ p += b.Tok(); p += c.Tok(); });
		p.Release(); MC_CHECK_MSG(a.runs == 1, "not released"); atRelease = b.runs;
		x.Join();
		MC_CHECK(p.Empty() == (b.runs + c.runs == 2));
	}
	MC_CHECK_MSG(a.runs == 1 && b.runs == 1 && c.runs == 1, "runs %d %d %d", (int)a.runs, (int)b.runs, (int)c.runs);
	mc::Outcome("%d", atRelease);
}
MC_SCENARIO(pool_two_releasers, .Q(3).Leaks())
{
	Act a, b; a.allowed = b.allowed = 1;
	{
		TokenPool p; p.Add(a.Tok()); { const Token t = b.Tok(); p.Add(t); }
		mc::Th x([&]{ p.Release(); });
		p.Release();
		x.Join();
		MC_CHECK_MSG(a.runs == 1 && b.runs == 1, "runs %d %d", (int)a.runs, (int)b.runs); MC_CHECK(p.Empty());
	}
}
// the action of a pooled token may wait for a thread that uses the pool
MC_SCENARIO(pool_action_waits, .Q(2))
{
	TokenPool p; mc::Cell<int> done; Act b; b.allowed = 1;
	p.Add(MakeFunctionToken(vh::Fn<void ()>([&]{ mc::Th x([&]{ p.Add(b.Tok()); }); x.Join(); ++done; })));
	p.Release();
	MC_CHECK(done == 1 && !p.Empty() && b.runs == 0); p.Release(); MC_CHECK(b.runs == 1);
}
MC_SCENARIO(map_two_threads, .Q(3).Leaks())
{
	Act a, b, c; a.allowed = b.allowed = 1;
	{
		TokenMap<int> m; m[1] += a.Tok();
		mc::Th x([&]{ m[1] += b.Tok(); m[2] += c.Tok(); MC_CHECK(m.contains(2)); });
		m.release(1); MC_CHECK_MSG(a.runs == 1, "not released");
		x.Join();
		MC_CHECK(c.runs == 0); MC_CHECK(m.contains(1) == (b.runs == 0)); c.allowed = 1;
		mc::Th y([&]{ m.release_all(); });
		m.release(2);
		y.Join();
		MC_CHECK(!m.contains(1) && !m.contains(2));
	}
	MC_CHECK_MSG(a.runs == 1 && b.runs == 1 && c.runs == 1, "runs %d %d %d", (int)a.runs, (int)b.runs, (int)c.runs);
}
MC_SCENARIO(map_action_waits, .Q(2))
{
	TokenMap<int> m; mc::Cell<int> done; const int all = mc::Pick(2);
	m[1] += MakeFunctionToken(vh::Fn<void ()>([&]{ mc::Th x([&]{ MC_CHECK(!m.contains(1)); m[2] += null; }); x.Join(); ++done; }));
	if (all) m.release_all(); else m.release(1);
	MC_CHECK(done == 1 && m.contains(2));
}
MC_SCENARIO(holder_two_setters, .Q(3).Leaks())
{
	Act a, b, c; a.allowed = b.allowed = c.allowed = 1;
	{
		TokenHolder h(a.Tok());
		mc::Th x([&]{ h = b.Tok(); });
		{ const Token t = c.Tok(); h.Set(t); }
		x.Join();
		MC_CHECK_MSG(a.runs == 1 && b.runs + c.runs == 1, "runs %d %d %d", (int)a.runs, (int)b.runs, (int)c.runs);
		if (mc::Pick(2)) h.Reset();
	}
	MC_CHECK_MSG(a.runs == 1 && b.runs == 1 && c.runs == 1, "runs %d %d %d", (int)a.runs, (int)b.runs, (int)c.runs);
}
MC_SCENARIO(holder_action_waits, .Q(2))
{
	TokenHolder h; mc::Cell<int> done; Act b, c; b.allowed = c.allowed = 1; const int how = mc::Pick(5);
	h.Set(MakeFunctionToken(vh::Fn<void ()>([&]{ mc::Th x([&]{ h.Set(b.Tok()); }); x.Join(); ++done; })));
	const Token t = c.Tok();
	switch (how) { case 0: h.Reset(); break; case 1: h.Set(t); break; case 2: h.Set(Token(t)); break; case 3: h = t; break; case 4: h = null; break; }
	MC_CHECK(done == 1 && b.runs == 0 && c.runs == 0); h.Reset(); MC_CHECK(b.runs == 1);
}
// an attached token is released while its object is still there
MC_SCENARIO(attached_token_uses_object, .Q(3).Leaks())
{
	struct Obj { mc::Cell<int>* dead; ~Obj() { ++*dead; } };
	mc::Cell<int> dead, runs; const int how = mc::Pick(3);
	{
		shared_ptr<Obj> o(new Obj); o->dead = &dead;
		auto tok = [&]{ return MakeFunctionToken(vh::Fn<void ()>([&]{ MC_CHECK_MSG(dead == 0, "the object is gone before the token attached to it is released"); ++runs; })); };
		shared_ptr<Obj> p;
		if (how == 0) p = AttachToken(o, tok()); else if (how == 1) { const Token t = tok(); p = AttachToken(o, t); } else p = TokenAttacher<Obj>(o) % tok() % tok();
		o.reset();
		mc::Th x([p]() mutable { p.reset(); });
		p.reset();
		x.Join();
		MC_CHECK_MSG(runs == (how == 2 ? 2 : 1) && dead == 1, "%d actions, object destroyed %d times", (int)runs, (int)dead);
	}
}
MC_SCENARIO(attached_token, .Q(3).Leaks())
{
	struct Obj { mc::Cell<int>* dead; ~Obj() { ++*dead; } };
	Act a; mc::Cell<int> dead;
	{
		shared_ptr<Obj> o(new Obj); o->dead = &dead; shared_ptr<Obj> p = AttachToken(o, a.Tok()); o.reset();
		mc::Th x([p]() mutable { MC_CHECK(*p->dead == 0); p.reset(); });
		MC_CHECK(a.runs == 0 && dead == 0); a.allowed = 1;
		p.reset();
		x.Join();
		MC_CHECK_MSG(a.runs == 1 && dead == 1, "action %d, object destroyed %d times", (int)a.runs, (int)dead);
	}
}
// the finaliser deletes on its executor's thread, once
MC_SCENARIO(finalizer, .Q(2).Leaks())
{
	struct Obj { mc::Cell<int>* dead; int* creator; ~Obj() { MC_CHECK_MSG(mc::Self() != *creator, "deleted on the releasing thread"); ++*dead; } };
	mc::Cell<int> dead; int self = mc::Self();
	{
		ThreadTaskExecutorPtr e = make_shared_ptr<ThreadTaskExecutor>("e", null);
		Obj* raw = new Obj; raw->dead = &dead; raw->creator = &self;
		shared_ptr<Obj> p(raw, Finalizer(e)), q(p);
		p.reset(); MC_CHECK(dead == 0); q.reset();
		e.reset(); // drained
		MC_CHECK_MSG(dead == 1, "deleted %d times", (int)dead);
	}
	MC_CHECK(dead == 1);
}
