// T06: task executors under every interleaving.
#include "../mc/mc.h"
#include "common.h"
#include <stingraykit/function/bind.h>
#include <stingraykit/thread/CancellationToken.h>
#include <stingraykit/thread/DummyCancellationToken.h>
#include <stingraykit/thread/Thread.h>
#include <stingraykit/thread/ThreadTaskExecutor.h>
#include <stingraykit/thread/ThreadlessTaskExecutor.h>
#include <semaphore.h>
using namespace stingray;

namespace
{
	struct Rec // per-execution record of what ran
	{
		enum { N = 8 };
		mc::Cell<int> running, order, ran[N], at[N], worker, gone, caught; int payload;
		Rec() : payload(0) { worker = -1; }
		void Run(int id, bool oneThread = true)
		{
			MC_CHECK_MSG(!gone, "task %d runs after the executor was destroyed", id);
			MC_CHECK_MSG(++running == 1, "two tasks at a time");
			MC_CHECK_MSG(++ran[id] == 1, "task %d runs twice", id);
			payload++; at[id] = ++order;
			if (oneThread) { if (worker < 0) worker = mc::Self(); MC_CHECK_MSG(worker == mc::Self(), "tasks run on different threads"); }
			mc::Point(); --running;
		}
	};
	struct Task : public function_info<void ()>
	{
		Rec* r; int id; bool one; bool thr;
		Task(Rec& r_, int id_, bool one_ = true, bool thr_ = false) : r(&r_), id(id_), one(one_), thr(thr_) { }
		void operator () () const { r->Run(id, one); if (thr) STINGRAYKIT_THROW(std::runtime_error("boom")); }
	};
	function<void (const std::exception&)> Handler(Rec& r) { return vh::Fn<void (const std::exception&)>([&r](const std::exception&){ ++r.caught; }); }
	struct Sem { sem_t s; Sem() { sem_init(&s, 0, 0); } void Post() { sem_post(&s); } void Wait() { sem_wait(&s); } };
}

// Everything accepted is run before destruction returns, in order, exactly once, on the executor's thread.
MC_SCENARIO(submit_and_destroy, .Q(3))
{
	Rec r;
	{
		ThreadTaskExecutor ex("x");
		ex.AddTask(Task(r, 0)); ex.AddTask(Task(r, 1));
	}
	MC_CHECK_MSG(!r.running, "executor destroyed while a task is running"); r.gone = 1;
	MC_CHECK_MSG(r.ran[0] == 1 && r.ran[1] == 1, "tasks lost: %d %d", (int)r.ran[0], (int)r.ran[1]);
	MC_CHECK_MSG(r.at[0] < r.at[1], "order"); MC_CHECK(r.worker != mc::Self()); r.payload = 9;
}
// Two submitting threads: order per submitter.
MC_SCENARIO(two_submitters, .Q(1))
{
	Rec r;
	{
		ThreadTaskExecutor ex("x");
		mc::Th a([&]{ ex.AddTask(Task(r, 0)); ex.AddTask(Task(r, 1)); });
		mc::Th b([&]{ ex.AddTask(Task(r, 2)); });
		a.Join(); b.Join();
	}
	r.gone = 1;
	for (int i = 0; i < 3; ++i) MC_CHECK_MSG(r.ran[i] == 1, "task %d lost", i);
	MC_CHECK_MSG(r.at[0] < r.at[1], "order");
	mc::Outcome("%d", (int)r.at[2]);
}
// A submitted task is run promptly (nobody else touches the executor until it has run).
MC_SCENARIO(no_lost_wakeup, .Q(3))
{
	Rec r; Sem done;
	ThreadTaskExecutor ex("x");
	for (int i = 0; i < 2; ++i)
	{
		ex.AddTask(vh::Fn<void ()>([&r, &done, i]{ r.Run(i); done.Post(); }));
		done.Wait();
	}
	MC_CHECK(r.ran[0] == 1 && r.ran[1] == 1);
}
MC_SCENARIO(throwing_task, .Q(2))
{
	Rec r;
	{
		ThreadTaskExecutor ex("x", null, Handler(r));
		ex.AddTask(Task(r, 0, true, true)); ex.AddTask(Task(r, 1)); ex.AddTask(Task(r, 2, true, true)); ex.AddTask(Task(r, 3));
	}
	r.gone = 1;
	MC_CHECK(r.ran[0] == 1 && r.ran[1] == 1 && r.ran[2] == 1 && r.ran[3] == 1);
	MC_CHECK(r.at[0] == 1 && r.at[1] == 2 && r.at[2] == 3 && r.at[3] == 4);
	MC_CHECK_MSG(r.caught == 2, "exception handler called %d times", (int)r.caught);
}
MC_SCENARIO(throwing_task_default_handler, .Q(1))
{
	Rec r;
	{ ThreadTaskExecutor ex("x"); ex.AddTask(Task(r, 0, true, true)); ex.AddTask(Task(r, 1)); }
	r.gone = 1; MC_CHECK(r.ran[0] == 1 && r.ran[1] == 1);
}
// A task whose token is released before it starts never runs, and does not hold up the others.
MC_SCENARIO(released_token, .Q(2))
{
	Rec r; mc::Cell<int> released;
	{
		ThreadTaskExecutor ex("x"); TaskLifeToken t;
		ex.AddTask(vh::Fn<void ()>([&]{ MC_CHECK_MSG(!released, "task started after its token was released"); r.Run(0); MC_CHECK(!released); }), t.GetExecutionTester());
		ex.AddTask(Task(r, 1));
		t.Release(); released = 1;
	}
	r.gone = 1;
	MC_CHECK(r.ran[1] == 1);
	mc::Outcome("%d", (int)r.ran[0]);
}
MC_SCENARIO(released_before, .Q(2))
{
	Rec r;
	{ ThreadTaskExecutor ex("x"); TaskLifeToken t; FutureExecutionTester f(t.GetExecutionTester()); t.Release(); ex.AddTask(Task(r, 0), f); ex.AddTask(Task(r, 1)); }
	MC_CHECK(r.ran[0] == 0 && r.ran[1] == 1);
}
// Tasks submitted by tasks.
MC_SCENARIO(submit_from_task, .Q(2))
{
	Rec r; Sem done;
	ThreadTaskExecutor ex("x");
	ex.AddTask(vh::Fn<void ()>([&]{ r.Run(0); ex.AddTask(vh::Fn<void ()>([&]{ r.Run(2); done.Post(); })); }));
	ex.AddTask(vh::Fn<void ()>([&]{ r.Run(1); done.Post(); }));
	done.Wait(); done.Wait();
	MC_CHECK(r.ran[0] == 1 && r.ran[1] == 1 && r.ran[2] == 1 && r.at[0] < r.at[2]);
}
// What a task owns is given up once it has run; the executor's lock is not held then.
MC_SCENARIO(task_is_dropped, .Q(2))
{
	struct Owned { ThreadTaskExecutor* ex; Sem* s; ~Owned() { ex->AddTask(vh::Fn<void ()>([]{ })); s->Post(); } };
	Sem gone;
	ThreadTaskExecutor ex("x");
	{
		shared_ptr<Owned> o(new Owned); o->ex = &ex; o->s = &gone;
		ex.AddTask(vh::Fn<void ()>([o]{ }));
	}
	gone.Wait();
}

// ---- explicit draining
MC_SCENARIO(threadless_drain, .Q(2))
{
	Rec r; ThreadlessTaskExecutor ex("x"); mc::Cell<int> added;
	mc::Th a([&]{ ex.AddTask(Task(r, 0, false)); ex.AddTask(Task(r, 1, false)); });
	mc::Th b([&]{ ex.ExecuteTasks(); });
	ex.ExecuteTasks();
	a.Join(); b.Join();
	mc::Outcome("%d", (int)r.order);
	ex.ExecuteTasks();
	MC_CHECK_MSG(r.ran[0] == 1 && r.ran[1] == 1, "tasks lost"); MC_CHECK(r.at[0] < r.at[1]);
}
MC_SCENARIO(threadless_throw, .Q(2))
{
	Rec r; ThreadlessTaskExecutor ex("x", null, Handler(r));
	ex.AddTask(Task(r, 0, false, true)); ex.AddTask(Task(r, 1, false));
	mc::Th b([&]{ ex.ExecuteTasks(); });
	b.Join(); ex.ExecuteTasks();
	MC_CHECK(r.ran[0] == 1 && r.ran[1] == 1 && r.at[0] < r.at[1] && r.caught == 1);
}
// Cancelling the token stops between tasks and leaves the rest for later.
MC_SCENARIO(threadless_cancel, .Q(2))
{
	Rec r; ThreadlessTaskExecutor ex("x"); CancellationToken t; mc::Cell<int> cancelled; mc::Cell<int> startedAfter;
	for (int i = 0; i < 3; ++i) ex.AddTask(vh::Fn<void ()>([&r, &cancelled, &startedAfter, i]{ if (cancelled) ++startedAfter; r.Run(i, false); }));
	mc::Th b([&]{ t.Cancel(); cancelled = 1; });
	ex.ExecuteTasks(t);
	b.Join();
	const int n = r.order; MC_CHECK_MSG(startedAfter <= 1, "%d tasks started after cancellation", (int)startedAfter);
	ex.ExecuteTasks();
	MC_CHECK(r.order == 3 && r.at[0] == 1 && r.at[1] == 2 && r.at[2] == 3);
	mc::Outcome("%d", n);
}
MC_SCENARIO(threadless_clear, .Q(3))
{
	Rec r; ThreadlessTaskExecutor ex("x"); mc::Cell<int> cleared;
	ex.AddTask(Task(r, 0, false)); ex.AddTask(Task(r, 1, false));
	mc::Th b([&]{ ex.ClearTasks(); cleared = 1; });
	ex.ExecuteTasks();
	b.Join(); const int n = r.order;
	ex.ExecuteTasks(); MC_CHECK_MSG(r.order == n, "a cleared task ran");
	ex.AddTask(Task(r, 2, false)); ex.ExecuteTasks(); MC_CHECK(r.ran[2] == 1);
	mc::Outcome("%d", n);
}
// Cleared tasks are destroyed without any lock of the executor: their destructors may lock what others hold while adding tasks, and may add tasks.
MC_SCENARIO(threadless_clear_destroys, .Q(3))
{
	struct Held { Rec& r; ThreadlessTaskExecutor& ex; Mutex& user; bool adds; int& gone; Held(Rec& rec, ThreadlessTaskExecutor& e, Mutex& u, bool a, int& g) : r(rec), ex(e), user(u), adds(a), gone(g) { } ~Held() { MutexLock l(user); ++gone; if (adds) ex.AddTask(Task(r, 2, false)); } };
	Rec r; Mutex user; int gone = 0; ThreadlessTaskExecutor ex("x"); const bool adds = mc::Pick(2);
	for (int i = 0; i < 2; ++i) { const auto h = make_shared_ptr<Held>(r, ex, user, adds && i, gone); ex.AddTask(vh::Fn<void ()>([h] { MC_CHECK_MSG(false, "a cleared task ran"); })); }
	mc::Th b([&] { MutexLock l(user); ex.AddTask(Task(r, 3, false)); });
	ex.ClearTasks(); b.Join();
	{ MutexLock l(user); MC_CHECK_MSG(gone == 2, "%d of 2 cleared tasks destroyed", gone); }
	ex.ExecuteTasks(); MC_CHECK(r.ran[2] == (int)adds && r.ran[3] <= 1); mc::Outcome("%d", (int)r.ran[3]);
}
MC_SCENARIO(threadless_released_token, .Q(3))
{
	Rec r; ThreadlessTaskExecutor ex("x"); TaskLifeToken t; mc::Cell<int> released;
	ex.AddTask(vh::Fn<void ()>([&]{ MC_CHECK(!released); r.Run(0, false); MC_CHECK(!released); }), t.GetExecutionTester());
	ex.AddTask(Task(r, 1, false));
	mc::Th b([&]{ t.Release(); released = 1; });
	ex.ExecuteTasks(); b.Join();
	MC_CHECK(r.ran[1] == 1);
	mc::Outcome("%d", (int)r.ran[0]);
}
// Draining from inside a task does not run anything out of turn.
MC_SCENARIO(threadless_nested, .Q(1))
{
	Rec r; ThreadlessTaskExecutor ex("x");
	ex.AddTask(vh::Fn<void ()>([&]{ ++r.running; ex.AddTask(Task(r, 1, false)); ex.ExecuteTasks(); MC_CHECK(r.ran[1] == 0); --r.running; r.ran[0] = 1; }));
	ex.ExecuteTasks();
	MC_CHECK(r.ran[0] == 1 && r.ran[1] == 1);
}
// What a task owns is given up with the executor's lock free: the owner may wait there for another thread which submits.
MC_SCENARIO(dropped_while_others_submit, .Q(2))
{
	Rec r; Sem dying, submitted, go; const bool threadless = mc::Pick(2); const bool withToken = mc::Pick(2);
	TaskLifeToken t; const FutureExecutionTester tester(withToken ? t.GetExecutionTester() : FutureExecutionTester(null));
	struct Owned { Sem& d; Sem& s; Owned(Sem& d_, Sem& s_) : d(d_), s(s_) { } ~Owned() { d.Post(); s.Wait(); } };
	optional<ThreadTaskExecutor> ex; optional<ThreadlessTaskExecutor> less; ITaskExecutor* e;
	if (threadless) { less.emplace("x"); e = &*less; } else { ex.emplace("x"); e = &*ex; }
	e->AddTask(vh::Fn<void ()>([&]{ go.Wait(); r.Run(1, false); }));
	{ shared_ptr<Owned> o(new Owned(dying, submitted)); e->AddTask(vh::Fn<void ()>([o, &r]{ r.Run(0, false); }), tester); }
	go.Post();
	{
		mc::Th b([&]{ dying.Wait(); e->AddTask(Task(r, 2, false)); submitted.Post(); });
		if (threadless) less->ExecuteTasks();
		b.Join();
	}
	if (threadless) less->ExecuteTasks();
	ex.reset();
	MC_CHECK(r.ran[0] == 1 && r.ran[1] == 1 && r.ran[2] == 1);
	t.Release();
}
// Exceptions are reported whether or not the task has a life token.
MC_SCENARIO(throwing_task_with_token, .Q(1))
{
	Rec r; TaskLifeToken t; const bool threadless = mc::Pick(2);
	if (threadless) { ThreadlessTaskExecutor ex("x", null, Handler(r)); ex.AddTask(Task(r, 0, false, true), t.GetExecutionTester()); ex.AddTask(Task(r, 1, false), t.GetExecutionTester()); ex.ExecuteTasks(); }
	else { ThreadTaskExecutor ex("x", null, Handler(r)); ex.AddTask(Task(r, 0, true, true), t.GetExecutionTester()); ex.AddTask(Task(r, 1), t.GetExecutionTester()); }
	MC_CHECK_MSG(r.caught == 1, "exception handler called %d times", (int)r.caught); MC_CHECK(r.ran[0] == 1 && r.ran[1] == 1);
	t.Release();
}
