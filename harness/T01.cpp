#include "../mc/mc.h"
#include <stingraykit/thread/CancellationToken.h>
#include <stingraykit/thread/ConditionVariable.h>
#include <stingraykit/thread/DummyCancellationToken.h>
#include <stingraykit/thread/TimedCancellationToken.h>
#include <stingraykit/thread/Thread.h>
using namespace stingray;

namespace
{
	// the mutex is held whenever a wait returned: checked by mutual exclusion of the sections and by race detection on `data`
	struct Section
	{
		mc::Cell<int>& in;
		explicit Section(mc::Cell<int>& c) : in(c) { Enter(); }
		~Section() { Leave(); }
		void Enter() { MC_CHECK_MSG(++in == 1, "two threads inside the mutex"); }
		void Leave() { MC_CHECK_MSG(--in == 0, "two threads inside the mutex"); }
	};

	struct Shared
	{
		Mutex m; ConditionVariable cv; int data; bool flag; mc::Cell<int> in;
		Shared() : data(0), flag(false) { }
	};
}

// Every later broadcast releases every waiter: two waiters and a broadcaster, flag protected by the mutex.
MC_SCENARIO(broadcast_releases_all, .Q(3))
{
	Shared s; mc::Cell<int> woken;
	{
		auto waiter = [&]{
			MutexLock l(s.m);
			Section sec(s.in);
			while (!s.flag) { sec.Leave(); s.cv.Wait(s.m); sec.Enter(); }
			s.data++; ++woken;
		};
		mc::Th a(waiter), b(waiter);
		mc::Th c([&]{ MutexLock l(s.m); Section sec(s.in); s.flag = true; s.data++; s.cv.Broadcast(); });
	}
	MC_CHECK(woken == 2);
	MC_CHECK(s.data == 3);
}

// Hand-over in both directions: every broadcast must be seen by the side that sleeps.
MC_SCENARIO(ping_pong, .Q(2))
{
	Shared s; int turn = 0;
	{
		auto player = [&](int me) {
			for (int i = 0; i < 2; ++i)
			{
				MutexLock l(s.m);
				Section sec(s.in);
				while (turn != me) { sec.Leave(); s.cv.Wait(s.m); sec.Enter(); }
				turn = !me; s.data++; s.cv.Broadcast();
			}
		};
		mc::Th a([&]{ player(0); });
		mc::Th b([&]{ player(1); });
	}
	MC_CHECK(s.data == 4);
}

// Cancellation reaches a wait at whatever moment it strikes, and a Cancelled result is never invented.
MC_SCENARIO(cancel_ends_wait, .Q(3))
{
	Shared s; CancellationToken token; ConditionWaitResult r = ConditionWaitResult::Broadcasted; mc::Cell<int> cancelStarted;
	{
		mc::Th a([&]{
			MutexLock l(s.m);
			Section sec(s.in);
			while (token) { sec.Leave(); r = s.cv.Wait(s.m, token); sec.Enter(); if (r == ConditionWaitResult::Cancelled) MC_CHECK(cancelStarted); }
			s.data++;
		});
		mc::Th c([&]{ cancelStarted = 1; token.Cancel(); MutexLock l(s.m); Section sec(s.in); s.data++; });
	}
	MC_CHECK(s.data == 2);
	mc::Outcome("%d", (int)r.val());
}

// A token cancelled before the wait: the wait says so at once (nobody will ever broadcast).
MC_SCENARIO(wait_on_cancelled_token, .Q(2))
{
	Shared s; CancellationToken token;
	token.Cancel();
	mc::Th a([&]{
		MutexLock l(s.m);
		Section sec(s.in);
		sec.Leave(); ConditionWaitResult r = s.cv.Wait(s.m, token); sec.Enter();
		MC_CHECK(r == ConditionWaitResult::Cancelled);
		s.data++;
	});
	mc::Th b([&]{ MutexLock l(s.m); Section sec(s.in); s.data++; });
	a.Join(); b.Join();
	MC_CHECK(s.data == 2);
}

// One waiter is cancelled, another waits for the flag on the same variable: it is neither lost nor disturbed.
MC_SCENARIO(cancel_one_of_two, .Q(2))
{
	Shared s; CancellationToken token; ConditionWaitResult r = ConditionWaitResult::Broadcasted;
	{
		mc::Th a([&]{
			MutexLock l(s.m);
			Section sec(s.in);
			while (token && !s.flag) { sec.Leave(); r = s.cv.Wait(s.m, token); sec.Enter(); }
			MC_CHECK(token.IsCancelled() || s.flag);
			s.data++;
		});
		mc::Th b([&]{
			MutexLock l(s.m);
			Section sec(s.in);
			while (!s.flag) { sec.Leave(); s.cv.Wait(s.m); sec.Enter(); }
			s.data++;
		});
		mc::Th c([&]{ token.Cancel(); MutexLock l(s.m); Section sec(s.in); s.flag = true; s.cv.Broadcast(); });
	}
	MC_CHECK(s.data == 2);
	mc::Outcome("%d", (int)r.val());
}

// A broadcast and a cancellation race for one token-bound wait; whoever wins, the wait ends, and it says Cancelled only if it was.
MC_SCENARIO(cancel_vs_broadcast, .Q(3))
{
	Shared s; CancellationToken token; int waits = 0; mc::Cell<int> cancelled;
	{
		mc::Th a([&]{
			MutexLock l(s.m);
			Section sec(s.in);
			while (!s.flag && token)
			{
				sec.Leave(); const ConditionWaitResult r = s.cv.Wait(s.m, token); sec.Enter();
				++waits;
				MC_CHECK(r != ConditionWaitResult::TimedOut);
				if (r == ConditionWaitResult::Cancelled) MC_CHECK(cancelled);
				else MC_CHECK_MSG(s.flag || cancelled, "Broadcasted although nobody broadcast");
			}
		});
		mc::Th b([&]{ MutexLock l(s.m); Section sec(s.in); s.flag = true; s.cv.Broadcast(); });
		mc::Th c([&]{ cancelled = 1; token.Cancel(); });
	}
	// the token is reusable afterwards: no handler was left behind
	token.Reset();
	MC_CHECK(!token.IsCancelled());
	token.Cancel();
	mc::Outcome("%d", waits);
}

// The very same wait reports Cancelled if cancellation completed before the mutex was given back and nobody else broadcast.
MC_SCENARIO(cancelled_wait_says_so, .Q(3))
{
	Shared s; CancellationToken token;
	mc::Th a([&]{
		MutexLock l(s.m);
		const ConditionWaitResult r = s.cv.Wait(s.m, token); // nobody broadcasts, no timeout: only cancellation can end it
		MC_CHECK_MSG(r == ConditionWaitResult::Cancelled, "a wait ended by cancellation reported %d", (int)r.val());
	});
	mc::Th b([&]{ token.Cancel(); });
	a.Join(); b.Join();
}

// Timed waits: false only after the interval, true only after a broadcast, and never asleep for ever.
MC_SCENARIO(timed_wait, .Q(3))
{
	Shared s; mc::Cell<int> broadcast;
	bool res = false;
	{
		mc::Th a([&]{
			MutexLock l(s.m);
			Section sec(s.in);
			const long long t0 = mc::NowUs();
			if (!s.flag)
			{
				sec.Leave(); res = s.cv.TimedWait(s.m, TimeDuration(250)); sec.Enter();
				if (res) MC_CHECK_MSG(broadcast, "timed wait reported a broadcast that did not happen");
				else MC_CHECK_MSG(mc::NowUs() - t0 >= 250000, "timed wait expired after %lld us of 250000", mc::NowUs() - t0);
			}
			s.data++;
		});
		mc::Th b([&]{ MutexLock l(s.m); Section sec(s.in); s.flag = true; broadcast = 1; s.cv.Broadcast(); s.data++; });
	}
	MC_CHECK(s.data == 2);
	mc::Outcome("%d", res);
}

// Nobody broadcasts: the timeout alone must end the wait, in virtual time, not much later than asked.
MC_SCENARIO(timeout_alone, .Q(2))
{
	static const int Ms[] = { 0, 1, 999, 1000, 1001, 2500 };
	Shared s; const int ms = Ms[mc::Pick(6)];
	MutexLock l(s.m);
	const long long t0 = mc::NowUs();
	MC_CHECK(!s.cv.TimedWait(s.m, TimeDuration(ms)));
	const long long d = mc::NowUs() - t0;
	MC_CHECK_MSG(d >= ms * 1000ll && d <= ms * 1000ll + 10000, "asked for %d ms, waited %lld us", ms, d);
}

// A token with a timeout: TimedOut after the time, Cancelled when the parent was cancelled, Broadcasted when broadcast.
MC_SCENARIO(timed_token_wait, .Q(3))
{
	Shared s; CancellationToken token; mc::Cell<int> cancelled; int r = -1;
	{
		mc::Th a([&]{
			const long long t0 = mc::NowUs();
			TimedCancellationToken timed(token, TimeDuration(100));
			MutexLock l(s.m);
			while (!s.flag && timed)
			{
				const ConditionWaitResult res = s.cv.Wait(s.m, timed);
				r = res.val();
				if (res == ConditionWaitResult::TimedOut) MC_CHECK(mc::NowUs() - t0 >= 100000);
				if (res == ConditionWaitResult::Cancelled) MC_CHECK(cancelled || mc::NowUs() - t0 >= 100000);
				if (res == ConditionWaitResult::Broadcasted) MC_CHECK(s.flag || cancelled);
			}
			MC_CHECK(mc::NowUs() - t0 <= 120000);
		});
		mc::Th b([&]{ if (mc::Pick(2)) { cancelled = 1; token.Cancel(); } else { MutexLock l(s.m); s.flag = true; s.cv.Broadcast(); } });
	}
	if (!token.IsCancelled()) token.Cancel();
	mc::Outcome("%d", r);
}

// Two token-bound waiters with different tokens on one variable; cancelling one releases it and leaves the other waiting until its own turn.
MC_SCENARIO(two_tokens_one_variable, .Q(2))
{
	Shared s; CancellationToken t1, t2; mc::Cell<int> c1, c2;
	{
		mc::Th a([&]{ MutexLock l(s.m); while (t1) { if (s.cv.Wait(s.m, t1) == ConditionWaitResult::Cancelled) MC_CHECK(c1); } s.data++; });
		mc::Th b([&]{ MutexLock l(s.m); while (t2) { if (s.cv.Wait(s.m, t2) == ConditionWaitResult::Cancelled) MC_CHECK(c2); } s.data++; });
		mc::Th c([&]{ c1 = 1; t1.Cancel(); c2 = 1; t2.Cancel(); });
	}
	MC_CHECK(s.data == 2);
}
