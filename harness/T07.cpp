// T07: thread pool under every interleaving.
#include "../mc/mc.h"
#include "common.h"
#include <stingraykit/function/bind.h>
#include <stingraykit/thread/CancellationToken.h>
#include <stingraykit/thread/DummyCancellationToken.h>
#include <stingraykit/thread/ThreadPool.h>
#include <stingraykit/thread/TimedCancellationToken.h>
#include <semaphore.h>
#include <string.h>
using namespace stingray;

namespace
{
	struct Sem { sem_t s; Sem() { sem_init(&s, 0, 0); } void Post() { sem_post(&s); } void Wait() { sem_wait(&s); } };
	struct Rec
	{
		enum { N = 6 };
		mc::Cell<int> running, total, ran[N], gone, caught; int limit; Sem done; mc::Cell<int> worker[N];
		Rec(int l) : limit(l) { }
		void Run(int id)
		{
			MC_CHECK_MSG(!gone, "task %d runs after the pool was destroyed", id);
			MC_CHECK_MSG(++running <= limit, "more tasks at a time than the limit");
			MC_CHECK_MSG(++ran[id] == 1, "task %d runs twice", id);
			++total; mc::Point(); --running;
			MC_CHECK_MSG(!gone, "the pool was destroyed while a task was running");
		}
		ThreadPool::Task Task(int id, bool thr = false)
		{ return vh::Fn<void (const ICancellationToken&)>([this, id, thr](const ICancellationToken& t){ Run(id); done.Post(); if (thr) STINGRAYKIT_THROW(std::runtime_error("boom")); }); }
		void Gone() { MC_CHECK_MSG(!running, "the pool was destroyed while a task is running"); gone = 1; }
	};
	const TimeDuration Idle = TimeDuration(5);
	function<void (const std::exception&)> Handler(Rec& r) { return vh::Fn<void (const std::exception&)>([&r](const std::exception&){ ++r.caught; }); }
}

// Two tasks, two workers: both run.
MC_SCENARIO(two_tasks, .Q(2))
{
	Rec r(2);
	{
		ThreadPool p("p", 2, null, null);
		MC_CHECK(p.CanQueue());
		p.Queue(r.Task(0)); p.Queue(r.Task(1));
		r.done.Wait(); r.done.Wait();
	}
	r.Gone(); MC_CHECK(r.ran[0] == 1 && r.ran[1] == 1);
}
// Limit one: the second task is accepted only when the first is finished; a refused task never runs.
MC_SCENARIO(limit_one, .Q(3))
{
	Rec r(1); bool second;
	{
		ThreadPool p("p", 1, null, null);
		p.Queue(r.Task(0));
		const bool can = p.CanQueue();
		second = p.TryQueue(r.Task(1));
		if (can) MC_CHECK_MSG(second, "CanQueue said yes but TryQueue refused");
		if (second) MC_CHECK(r.ran[0] == 1);
		r.done.Wait(); if (second) r.done.Wait();
	}
	r.Gone(); MC_CHECK(r.ran[0] == 1 && r.ran[1] == (second ? 1 : 0));
	mc::Outcome("%d", second);
}
MC_SCENARIO(refusal_is_an_error, .Q(1))
{
	Rec r(1); Sem go;
	{
		ThreadPool p("p", 1, null, null);
		p.Queue(vh::Fn<void (const ICancellationToken&)>([&](const ICancellationToken&){ go.Wait(); r.Run(0); r.done.Post(); }));
		bool thrown = false;
		try { p.Queue(r.Task(1)); } catch (const std::exception&) { thrown = true; }
		MC_CHECK(thrown); MC_CHECK(!p.CanQueue());
		go.Post(); r.done.Wait();
	}
	r.Gone(); MC_CHECK(r.ran[0] == 1 && r.ran[1] == 0);
}
// Waiting for room: no lost wake-up.
MC_SCENARIO(wait_queue, .Q(2))
{
	Rec r(1);
	{
		ThreadPool p("p", 1, null, null);
		p.Queue(r.Task(0));
		p.WaitQueue(r.Task(1), DummyCancellationToken());
		r.done.Wait(); r.done.Wait();
	}
	r.Gone(); MC_CHECK(r.ran[0] == 1 && r.ran[1] == 1);
}
MC_SCENARIO(wait_queue_two_workers, .Q(1))
{
	Rec r(2);
	{
		ThreadPool p("p", 2, null, null);
		p.Queue(r.Task(0)); p.Queue(r.Task(1));
		p.WaitQueue(r.Task(2), DummyCancellationToken());
		for (int i = 0; i < 3; ++i) r.done.Wait();
	}
	r.Gone(); MC_CHECK(r.total == 3);
}
// One worker is occupied, the other one serves everything: each waiting submitter must notice that it became free.
MC_SCENARIO(wait_queue_reused_worker, .Q(1).T(2))
{
	Rec r(2); Sem go; const int which = mc::Pick(2);
	{
		ThreadPool p("p", 2, null, null);
		if (which) { p.Queue(r.Task(3)); r.done.Wait(); }
		p.Queue(vh::Fn<void (const ICancellationToken&)>([&](const ICancellationToken&){ go.Wait(); }));
		for (int i = 0; i < 3; ++i) p.WaitQueue(r.Task(i), DummyCancellationToken());
		for (int i = 0; i < 3; ++i) r.done.Wait();
		go.Post();
	}
	r.Gone(); MC_CHECK(r.ran[0] == 1 && r.ran[1] == 1 && r.ran[2] == 1);
}
// Cancelling the wait for room: either queued and run, or refused with the cancellation error and never run.
MC_SCENARIO(wait_queue_cancelled, .Q(2))
{
	Rec r(1); bool queued = false, cancelled = false; Sem go; CancellationToken t;
	{
		ThreadPool p("p", 1, null, null);
		p.Queue(vh::Fn<void (const ICancellationToken&)>([&](const ICancellationToken&){ go.Wait(); r.Run(0); r.done.Post(); }));
		mc::Th c([&]{ t.Cancel(); go.Post(); });
		try { p.WaitQueue(r.Task(1), t); queued = true; } catch (const OperationCancelledException&) { cancelled = true; }
		c.Join(); r.done.Wait(); if (queued) r.done.Wait();
	}
	r.Gone(); MC_CHECK(queued != cancelled); MC_CHECK(r.ran[1] == (queued ? 1 : 0));
	mc::Outcome("%d", queued);
}
MC_SCENARIO(two_submitters, .Q(1))
{
	Rec r(2); mc::Cell<int> accepted;
	{
		ThreadPool p("p", 2, null, null);
		mc::Th a([&]{ if (p.TryQueue(r.Task(0))) ++accepted; });
		mc::Th b([&]{ if (p.TryQueue(r.Task(1))) ++accepted; });
		a.Join(); b.Join();
		MC_CHECK(accepted == 2);
		r.done.Wait(); r.done.Wait();
	}
	r.Gone(); MC_CHECK(r.ran[0] == 1 && r.ran[1] == 1);
}
MC_SCENARIO(two_waiting_submitters, .Q(1))
{
	Rec r(1);
	{
		ThreadPool p("p", 1, null, null);
		mc::Th a([&]{ p.WaitQueue(r.Task(0), DummyCancellationToken()); });
		mc::Th b([&]{ p.WaitQueue(r.Task(1), DummyCancellationToken()); });
		a.Join(); b.Join();
		r.done.Wait(); r.done.Wait();
	}
	r.Gone(); MC_CHECK(r.ran[0] == 1 && r.ran[1] == 1);
}
MC_SCENARIO(throwing_task, .Q(2))
{
	Rec r(1);
	{
		ThreadPool p("p", 1, null, null, Handler(r));
		p.Queue(r.Task(0, true)); r.done.Wait();
		p.WaitQueue(r.Task(1), DummyCancellationToken()); r.done.Wait();
	}
	r.Gone(); MC_CHECK(r.ran[0] == 1 && r.ran[1] == 1 && r.caught == 1);
}
MC_SCENARIO(throwing_second_worker, .Q(1))
{
	Rec r(2); Sem go;
	{
		ThreadPool p("p", 2, null, null, Handler(r));
		p.Queue(vh::Fn<void (const ICancellationToken&)>([&](const ICancellationToken&){ go.Wait(); r.Run(0); r.done.Post(); }));
		p.Queue(r.Task(1, true)); r.done.Wait();
		p.WaitQueue(r.Task(2), DummyCancellationToken()); r.done.Wait();
		go.Post(); r.done.Wait();
	}
	r.Gone(); MC_CHECK(r.total == 3 && r.caught == 1);
}
// Idle timeouts may fire at any point: workers come and go, tasks are never lost.
MC_SCENARIO(idle_timeout, .Q(1))
{
	Rec r(2);
	{
		ThreadPool p("p", 2, null, Idle);
		p.Queue(r.Task(0)); p.Queue(r.Task(1));
		r.done.Wait(); r.done.Wait();
		p.WaitQueue(r.Task(2), DummyCancellationToken());
		p.WaitQueue(r.Task(3), DummyCancellationToken());
		r.done.Wait(); r.done.Wait();
	}
	r.Gone(); MC_CHECK(r.total == 4);
}
MC_SCENARIO(idle_gap, .Q(1))
{
	Rec r(2);
	{
		ThreadPool p("p", 2, null, Idle);
		p.Queue(r.Task(0)); p.Queue(r.Task(1));
		r.done.Wait(); r.done.Wait();
		CancellationToken().Sleep(TimeDuration(12)); // workers may all have gone idle and been removed
		p.WaitQueue(r.Task(2), DummyCancellationToken());
		p.WaitQueue(r.Task(3), DummyCancellationToken());
		r.done.Wait(); r.done.Wait();
	}
	r.Gone(); MC_CHECK(r.total == 4);
}
// Destruction cancels the running task's token and waits for it.
MC_SCENARIO(destroy_while_running, .Q(2))
{
	Rec r(2); mc::Cell<int> started;
	{
		ThreadPool p("p", 2, null, null);
		for (int i = 0; i < 2; ++i)
			p.Queue(vh::Fn<void (const ICancellationToken&)>([&r, &started, i](const ICancellationToken& t){ ++r.running; ++started; while (t) t.Sleep(TimeDuration::Hour()); --r.running; MC_CHECK(!r.gone); }));
	}
	r.Gone();
	mc::Outcome("%d", (int)started);
}
MC_SCENARIO(destroy_with_queued, .Q(2))
{
	Rec r(2);
	{
		ThreadPool p("p", 2, null, null);
		p.Queue(r.Task(0)); p.Queue(r.Task(1)); p.TryQueue(r.Task(2));
	}
	r.Gone();
	mc::Outcome("%d%d%d", (int)r.ran[0], (int)r.ran[1], (int)r.ran[2]);
}
// Waiting for room with a token limited in time: refused with the timeout error, at that time, also when it is over already.
MC_SCENARIO(wait_queue_timed, .Q(1))
{
	Rec r(1); Sem go; const int kind = mc::Pick(3); CancellationToken t; const char* got = "queued";
	{
		ThreadPool p("p", 1, null, null); const long long t0 = mc::NowUs();
		p.Queue(vh::Fn<void (const ICancellationToken&)>([&](const ICancellationToken&){ go.Wait(); }));
		const TimedCancellationToken timed(t, TimeDuration(50)); if (kind == 1) Thread::Sleep(TimeDuration(60)); if (kind == 2) t.Cancel();
		try { p.WaitQueue(r.Task(1), timed); } catch (const TimeoutException&) { got = "timeout"; } catch (const OperationCancelledException&) { got = "cancelled"; }
		const long long took = (mc::NowUs() - t0) / 1000; if (kind == 0) MC_CHECK_MSG(took >= 50 && took <= 60, "gave up after %lld ms", took);
		go.Post();
	}
	r.Gone(); MC_CHECK_MSG(!strcmp(got, kind == 2 ? "cancelled" : "timeout"), "waiting for room: %s", got); MC_CHECK(!r.ran[1]); if (kind != 2) t.Cancel();
}
// What a task owns is given up with the locks of the pool free: the owner may wait there for another thread which uses the pool.
MC_SCENARIO(dropped_while_others_queue, .Q(1))
{
	Rec r(2); Sem dying, queued, go, go2; const bool second = mc::Pick(2);
	struct Owned { Sem& d; Sem& s; Owned(Sem& d_, Sem& s_) : d(d_), s(s_) { } ~Owned() { d.Post(); s.Wait(); } };
	{
		ThreadPool p("p", 2, null, null);
		if (second) p.Queue(vh::Fn<void (const ICancellationToken&)>([&](const ICancellationToken&){ go2.Wait(); }));
		{ shared_ptr<Owned> o(new Owned(dying, queued)); p.Queue(vh::Fn<void (const ICancellationToken&)>([o, &r, &go](const ICancellationToken&){ go.Wait(); r.Run(0); })); }
		go.Post();
		{ mc::Th b([&]{ dying.Wait(); p.CanQueue(); p.TryQueue(r.Task(1)); queued.Post(); }); b.Join(); }
		go2.Post(); r.done.Wait();
	}
	r.Gone(); MC_CHECK(r.ran[0] == 1 && r.ran[1] == 1);
}
