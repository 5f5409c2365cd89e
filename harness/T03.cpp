#include "../mc/mc.h"
#include <stingraykit/thread/TaskLifeToken.h>
using namespace stingray;

namespace
{
	struct Obs { mc::Cell<int> running, released, runs; int payload; Obs() : payload(0) { } };

	template <typename Body_>
	bool Run(Obs& o, const FutureExecutionTester& tester, const Body_& body)
	{
		LocalExecutionGuard g(tester);
		if (!g) return false;
		MC_CHECK_MSG(!o.released, "a task started after its token was released");
		++o.running; ++o.runs; o.payload++; mc::Point();
		body();
		--o.running;
		return true;
	}
	struct Nothing { void operator () () const { } };
}

// After Release returned, no task runs or starts.
MC_SCENARIO(release_vs_execute, .Q(3))
{
	Obs o; TaskLifeToken token; FutureExecutionTester tester(token.GetExecutionTester());
	mc::Cell<int> started; int ok = 0;
	mc::Th a([&]{
		for (int i = 0; i < 2; ++i)
		{
			const bool before = started;
			if (Run(o, tester, Nothing())) ++ok;
			else MC_CHECK_MSG(started, "a task was refused before release");
			(void)before;
		}
	});
	mc::Th b([&]{
		started = 1; token.Release();
		MC_CHECK_MSG(!o.running, "release returned while a task is running");
		o.released = 1; o.payload = 7;
	});
	a.Join(); b.Join();
	MC_CHECK(!Run(o, tester, Nothing()));
	mc::Outcome("%d", ok);
}

// Two executors (tasks of one token exclude each other), released twice from different threads.
MC_SCENARIO(two_executors, .Q(3))
{
	Obs o; TaskLifeToken token; mc::Cell<int> ran;
	mc::Th a([&]{ FutureExecutionTester t(token.GetExecutionTester()); if (Run(o, t, Nothing())) ++ran; });
	mc::Th c([&]{ FutureExecutionTester t(token.GetExecutionTester()); if (Run(o, t, Nothing())) ++ran; });
	mc::Th b([&]{ token.Release(); MC_CHECK(!o.running); o.released = 1; o.payload = 5; });
	a.Join(); b.Join(); c.Join();
	mc::Outcome("%d", (int)ran);
}

// The task itself releases its token: no deadlock, and no later start; another executor competes.
MC_SCENARIO(release_inside_task, .Q(3))
{
	Obs o; TaskLifeToken token; FutureExecutionTester tester(token.GetExecutionTester()); mc::Cell<int> selfReleased;
	mc::Th a([&]{ Run(o, tester, [&]{ token.Release(); selfReleased = 1; }); MC_CHECK(!Run(o, tester, Nothing())); });
	mc::Th b([&]{ LocalExecutionGuard g(tester); if (g) MC_CHECK_MSG(!selfReleased, "started after the task released its own token"); });
	a.Join(); b.Join();
}

// Nested guarded execution of the same token in one thread.
MC_SCENARIO(nested, .Q(3))
{
	Obs o; TaskLifeToken token; FutureExecutionTester tester(token.GetExecutionTester());
	mc::Th a([&]{ Run(o, tester, [&]{ LocalExecutionGuard g(tester); if (g) mc::Point(); MC_CHECK(!o.released); }); });
	mc::Th b([&]{ token.Release(); MC_CHECK(!o.running); o.released = 1; o.payload = 2; });
	a.Join(); b.Join();
	MC_CHECK(!Run(o, tester, Nothing()));
}

// Reset replaces the life: old testers are dead, new ones are alive. TaskLifeHolder behaves alike and releases on destruction.
MC_SCENARIO(reset_and_holder, .Q(2))
{
	const int kind = mc::Pick(3);
	Obs o, n;
	if (kind == 0)
	{
		TaskLifeToken token; FutureExecutionTester t(token.GetExecutionTester());
		mc::Th a([&]{ Run(o, t, Nothing()); Run(o, t, Nothing()); });
		mc::Th b([&]{ token.Reset(); MC_CHECK(!o.running); o.released = 1; o.payload = 3; FutureExecutionTester t2(token.GetExecutionTester()); MC_CHECK(Run(n, t2, Nothing())); });
		a.Join(); b.Join();
		token.Release();
	}
	else if (kind == 1)
	{
		TaskLifeHolder holder; FutureExecutionTester t(holder.GetExecutionTester());
		mc::Th a([&]{ Run(o, t, Nothing()); Run(o, t, Nothing()); });
		mc::Th b([&]{ holder.Reset(); MC_CHECK(!o.running); o.released = 1; o.payload = 3; FutureExecutionTester t2(holder.GetExecutionTester()); MC_CHECK(Run(n, t2, Nothing())); });
		a.Join(); b.Join();
	}
	else
	{
		TaskLifeHolder* holder = new TaskLifeHolder; FutureExecutionTester t(holder->GetExecutionTester());
		mc::Th a([&]{ Run(o, t, Nothing()); Run(o, t, Nothing()); });
		mc::Th b([&]{ delete holder; MC_CHECK(!o.running); o.released = 1; o.payload = 3; });
		a.Join(); b.Join();
		MC_CHECK(!Run(o, t, Nothing()));
	}
}

// Dummy testers always allow, dead tokens never do; the tester may outlive the token.
MC_SCENARIO(dummy_and_dead, .Q(1))
{
	Obs o;
	FutureExecutionTester d = FutureExecutionTester(null); MC_CHECK(d.IsDummy() && Run(o, d, Nothing()));
	TaskLifeToken dt(TaskLifeToken::CreateDummyTaskToken()); FutureExecutionTester d2(dt.GetExecutionTester()); MC_CHECK(d2.IsDummy() && Run(o, d2, Nothing()));
	dt.Release(); MC_CHECK(Run(o, d2, Nothing()));
	TaskLifeToken dead(TaskLifeToken::CreateDeadTaskToken()); FutureExecutionTester d3(dead.GetExecutionTester()); MC_CHECK(!d3.IsDummy() && !Run(o, d3, Nothing()));
	FutureExecutionTester copy = FutureExecutionTester(null);
	{ TaskLifeToken t; FutureExecutionTester x(t.GetExecutionTester()); copy = x; TaskLifeToken moved(std::move(t)); MC_CHECK(Run(o, copy, Nothing())); moved.Release(); }
	MC_CHECK(!Run(o, copy, Nothing()));
}
