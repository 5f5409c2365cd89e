// T08: timers under every interleaving with a virtual clock.
#include "../mc/mc.h"
#include "common.h"
#include <stingraykit/function/bind.h>
#include <stingraykit/thread/DummyCancellationToken.h>
#include <stingraykit/thread/Thread.h>
#include <stingraykit/timer/Timer.h>
#include <semaphore.h>
using namespace stingray;

namespace
{
	struct Sem { sem_t s; Sem() { sem_init(&s, 0, 0); } void Post() { sem_post(&s); } void Wait() { sem_wait(&s); } };
	struct Cb
	{
		mc::Cell<int> running, runs, released, order; mc::Cell<long long> due; int payload; Sem fired; static mc::Cell<int>* seq;
		Cb() : payload(0) { }
		void Run()
		{
			MC_CHECK_MSG(!released, "callback starts after its token was released");
			MC_CHECK_MSG(mc::NowUs() >= due, "callback runs %lld us early", (long long)due - mc::NowUs());
			MC_CHECK_MSG(++running == 1, "callback runs twice at once"); ++runs; ++payload;
			mc::Point();
			--running; MC_CHECK_MSG(!released, "token was released while its callback was running");
			fired.Post();
		}
		void Due(int ms) { due = mc::NowUs() + ms * 1000LL; }
		void Released() { MC_CHECK_MSG(!running, "release returned while the callback is running"); released = 1; payload = 50; }
		function<void ()> Fn() { return Bind(&Cb::Run, this); }
	};
	TimeDuration Ms(int n) { return TimeDuration(n); }
}

// A one-shot callback runs exactly once and not early.
MC_SCENARIO(one_shot, .Q(2))
{
	Cb a;
	{
		Timer t("t", null);
		a.Due(10); Token k = t.SetTimeout(Ms(10), a.Fn());
		a.fired.Wait();
		MC_CHECK(a.runs == 1);
		DummyCancellationToken().Sleep(Ms(50));
		MC_CHECK_MSG(a.runs == 1, "one-shot ran %d times", (int)a.runs);
		k.Reset(); a.Released();
	}
}
// A nearer deadline set later is served first.
MC_SCENARIO(nearer_deadline, .Q(2))
{
	Cb a, b; mc::Cell<int> n, na, nb;
	{
		Timer t("t", null);
		a.Due(30); Token ka = t.SetTimeout(Ms(30), vh::Fn<void ()>([&]{ na = ++n; a.Run(); }));
		b.Due(10); Token kb = t.SetTimeout(Ms(10), vh::Fn<void ()>([&]{ nb = ++n; b.Run(); }));
		const long long latest = mc::NowUs() + 10000;
		b.fired.Wait(); a.fired.Wait();
		MC_CHECK_MSG(latest >= a.due || (na == 2 && nb == 1), "order of due times");
		mc::Outcome("%d", (int)na);
	}
	MC_CHECK(a.runs == 1 && b.runs == 1);
}
// The nearer deadline does not wait for the farther one.
MC_SCENARIO(promptness, .Q(2).NoTimeouts())
{
	Cb a, b;
	Timer t("t", null);
	const int far = mc::Pick(2), near = mc::Pick(4);
	a.Due(1000); Token ka = far ? t.SetTimer(Ms(1000), a.Fn()) : t.SetTimeout(Ms(1000), a.Fn()), kb;
	b.Due(near == 3 ? 0 : 10);
	switch (near) { case 0: kb = t.SetTimeout(Ms(10), b.Fn()); break; case 1: kb = t.SetTimer(Ms(10), b.Fn()); break; case 2: kb = t.SetTimer(Ms(10), Ms(50), b.Fn()); break; case 3: t.AddTask(b.Fn(), null); break; }
	const long long t0 = mc::NowUs();
	b.fired.Wait();
	MC_CHECK_MSG(mc::NowUs() - t0 < 900000, "served %lld us late", mc::NowUs() - t0 - 10000);
}
MC_SCENARIO(same_deadline_order, .Q(1))
{
	mc::Cell<int> n; Sem done;
	Timer t("t", null);
	for (int i = 0; i < 3; ++i) t.AddTask(vh::Fn<void ()>([&n, &done, i]{ MC_CHECK_MSG(n == i, "order of submission"); ++n; done.Post(); }));
	for (int i = 0; i < 3; ++i) done.Wait();
	MC_CHECK(n == 3);
}
MC_SCENARIO(cancel_vs_fire, .Q(2))
{
	Cb a;
	{
		Timer t("t", null);
		a.Due(10); Token k = t.SetTimeout(Ms(10), a.Fn());
		DummyCancellationToken().Sleep(Ms(10));
		k.Reset(); a.Released();
		DummyCancellationToken().Sleep(Ms(30));
	}
	MC_CHECK(a.runs <= 1);
	mc::Outcome("%d", (int)a.runs);
}
MC_SCENARIO(cancel_periodic, .Q(2))
{
	Cb a;
	{
		Timer t("t", null);
		a.Due(5); Token k = t.SetTimer(Ms(5), Ms(10), a.Fn());
		a.fired.Wait();
		mc::Th c([&]{ k.Reset(); a.Released(); });
		c.Join();
		DummyCancellationToken().Sleep(Ms(50));
	}
	mc::Outcome("%d", (int)a.runs);
}
// Periodic callbacks keep coming, not faster than the period.
MC_SCENARIO(periodic, .Q(2))
{
	mc::Cell<long long> last; mc::Cell<int> n; Sem fired;
	Timer t("t", null); const long long t0 = mc::NowUs(); last = t0;
	Token k = t.SetTimer(Ms(10), vh::Fn<void ()>([&]{ const long long now = mc::NowUs(); MC_CHECK_MSG(now - last >= 10000, "period of %lld us", now - last); last = now; ++n; fired.Post(); }));
	for (int i = 0; i < 3; ++i) fired.Wait();
	MC_CHECK(n >= 3);
}
// The period is kept whatever the callback itself takes, as long as it takes less.
MC_SCENARIO(keeps_pace, .Q(1).NoTimeouts())
{
	const int takes = mc::Pick(3), ms[] = { 0, 4, 9 }; mc::Cell<int> n; Sem fired; const bool delayed = mc::Pick(2);
	Timer t("t", null); const long long t0 = mc::NowUs();
	const function<void ()> f = vh::Fn<void ()>([&]{
		const long long due = (delayed ? 3000 : 10000) + n * 10000LL, at = mc::NowUs() - t0; ++n;
		MC_CHECK_MSG(at >= due, "run %d starts %lld us early", (int)n, due - at); MC_CHECK_MSG(at <= due + 3000, "run %d starts %lld us late", (int)n, at - due);
		if (ms[takes]) DummyCancellationToken().Sleep(Ms(ms[takes]));
		fired.Post();
	});
	Token k = delayed ? t.SetTimer(Ms(3), Ms(10), f) : t.SetTimer(Ms(10), f);
	for (int i = 0; i < 4; ++i) fired.Wait();
	k.Reset();
}
// A throwing callback stops neither itself (if periodic) nor the others.
MC_SCENARIO(throwing, .Q(1))
{
	mc::Cell<int> n, caught; Cb b; Sem s;
	Timer t("t", null, vh::Fn<void (const std::exception&)>([&](const std::exception&){ ++caught; }));
	Token k = t.SetTimer(Ms(10), vh::Fn<void ()>([&]{ ++n; s.Post(); STINGRAYKIT_THROW(std::runtime_error("boom")); }));
	b.Due(15); Token kb = t.SetTimeout(Ms(15), b.Fn());
	s.Wait(); b.fired.Wait(); s.Wait();
	MC_CHECK(n >= 2 && caught >= 1 && b.runs == 1);
}
// Releasing from inside the callback, which goes on using what it owns.
MC_SCENARIO(release_inside, .Q(2))
{
	mc::Cell<int> n; Sem s;
	{
		Timer t("t", null); Token k; std::string owned(30, 'x'); Sem ready;
		{
			struct F : public function_info<void ()>
			{
				Token* k; mc::Cell<int>* n; Sem* s; Sem* ready; std::string owned;
				void operator () () const { ready->Wait(); ++*n; k->Reset(); MC_CHECK(owned == std::string(30, 'x')); s->Post(); }
			} f;
			f.k = &k; f.n = &n; f.s = &s; f.ready = &ready; f.owned = owned;
			k = t.SetTimer(Ms(10), Ms(10), f); ready.Post();
		}
		s.Wait();
		DummyCancellationToken().Sleep(Ms(50));
		MC_CHECK_MSG(n == 1, "ran %d times", (int)n);
	}
}
// Setting a timer from inside a callback.
MC_SCENARIO(set_inside, .Q(1))
{
	Cb b; Token kb; Sem s;
	{
		Timer t("t", null);
		Token k = t.SetTimeout(Ms(10), vh::Fn<void ()>([&]{ b.Due(10); kb = t.SetTimeout(Ms(10), b.Fn()); s.Post(); }));
		s.Wait(); b.fired.Wait();
		MC_CHECK(b.runs == 1);
		kb.Reset(); b.Released();
	}
}
// Destruction: returns with nothing running; nothing runs afterwards; tokens may outlive the timer.
MC_SCENARIO(destroy, .Q(2))
{
	Cb a, b; Token ka, kb;
	{
		Timer t("t", null);
		a.Due(10); ka = t.SetTimeout(Ms(10), a.Fn());
		b.Due(0); kb = t.SetTimer(Ms(0), Ms(20), b.Fn());
		if (mc::Pick(2)) DummyCancellationToken().Sleep(Ms(10));
	}
	MC_CHECK_MSG(!a.running && !b.running, "timer destroyed while a callback is running");
	a.released = 1; b.released = 1;
	ka.Reset(); kb.Reset();
	mc::Outcome("%d %d", (int)a.runs, (int)b.runs);
}
// Tasks handed to the timer as an executor run once; those whose life token is released do not start.
MC_SCENARIO(as_executor, .Q(2))
{
	Cb a, b;
	{
		Timer t("t", null); TaskLifeToken life;
		t.AddTask(a.Fn(), life.GetExecutionTester());
		t.AddTask(b.Fn());
		life.Release(); a.Released();
		b.fired.Wait();
		MC_CHECK(b.runs == 1);
	}
	mc::Outcome("%d", (int)a.runs);
}
// Two threads set timers and one of them cancels.
MC_SCENARIO(two_setters, .Q(1))
{
	Cb a, b;
	{
		Timer t("t", null); Token ka, kb;
		mc::Th x([&]{ a.Due(10); ka = t.SetTimeout(Ms(10), a.Fn()); ka.Reset(); a.Released(); });
		b.Due(10); kb = t.SetTimeout(Ms(10), b.Fn());
		b.fired.Wait(); x.Join();
		MC_CHECK(b.runs == 1);
	}
}
// The callback object is given up when the timer is released or has fired (what it owns is destroyed once).
MC_SCENARIO(callback_is_dropped, .Q(1))
{
	struct Owned { mc::Cell<int>* d; ~Owned() { ++*d; } };
	mc::Cell<int> dead;
	{
		Timer t("t", null); Token k;
		{ shared_ptr<Owned> o(new Owned); o->d = &dead; k = t.SetTimeout(Ms(10), vh::Fn<void ()>([o]{ })); }
		MC_CHECK(dead == 0 || true);
		k.Reset();
		MC_CHECK_MSG(dead <= 1, "destroyed twice");
	}
	MC_CHECK_MSG(dead == 1, "callback destroyed %d times", (int)dead);
}

// ---- ExecutionDeferrer
MC_SCENARIO(defer_replaces, .Q(1))
{
	Cb a, b;
	{
		Timer t("t", null); ExecutionDeferrer d(t, Ms(10));
		d.Defer(a.Fn());
		d.Defer(b.Fn()); // replaces
		b.fired.Wait();
		MC_CHECK(b.runs == 1 && a.runs <= 1);
		d.Cancel();
	}
	MC_CHECK(b.runs == 1);
	mc::Outcome("%d", (int)a.runs);
}
MC_SCENARIO(defer_cancel, .Q(2))
{
	Cb a;
	{
		Timer t("t", null); ExecutionDeferrer d(t, Ms(10));
		a.Due(10); d.Defer(a.Fn());
		if (mc::Pick(2)) DummyCancellationToken().Sleep(Ms(10));
		d.Cancel(); a.Released();
		DummyCancellationToken().Sleep(Ms(30));
	}
	mc::Outcome("%d", (int)a.runs);
}
MC_SCENARIO(defer_two_cancellers, .Q(1))
{
	Cb a;
	{
		Timer t("t", null); ExecutionDeferrer d(t, Ms(10));
		a.Due(10); d.Defer(a.Fn());
		mc::Th c([&]{ d.Cancel(); });
		d.Cancel();
		c.Join(); a.Released();
		DummyCancellationToken().Sleep(Ms(30));
		Cb b; b.Due(10); d.Defer(b.Fn()); b.fired.Wait(); MC_CHECK(b.runs == 1); d.Cancel(); b.Released();
	}
	mc::Outcome("%d", (int)a.runs);
}
