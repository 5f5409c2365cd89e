#include "../mc/mc.h"
#include <stingraykit/thread/CancellationRegistrator.h>
#include <stingraykit/thread/CancellationToken.h>
#include <stingraykit/thread/ConditionVariable.h>
#include <stingraykit/thread/DummyCancellationToken.h>
#include <stingraykit/thread/JoiningCancellationToken.h>
#include <stingraykit/thread/TimedCancellationToken.h>
#include <stingraykit/thread/Thread.h>
using namespace stingray;

namespace
{
	struct Handler : public ICancellationHandler
	{
		mc::Cell<int> cancels, running, resets, unregistered;
		int payload;
		Handler() : payload(0) { }
		virtual void Cancel()
		{
			MC_CHECK_MSG(!unregistered, "handler called after it was unregistered");
			MC_CHECK_MSG(++cancels == 1, "handler called twice");
			running = 1; payload = 1; mc::Point(); running = 0;
			MC_CHECK_MSG(!unregistered, "unregistered while the handler was running");
		}
		virtual void Reset() { ++resets; }
		void Gone() { MC_CHECK_MSG(!running, "unregistration returned while the handler is running"); unregistered = 1; payload = 2; }
	};
}

// Registration, cancellation and unregistration race; also two cancellers at once.
MC_SCENARIO(register_vs_cancel, .Q(3))
{
	CancellationToken token; Handler h; mc::Cell<int> started, done; bool rejected = false;
	{
		mc::Th a([&]{
			const bool before = done;
			{
				CancellationRegistrator r(token, h);
				if (r.IsCancelled()) { rejected = true; MC_CHECK_MSG(started, "rejected but nobody cancelled"); MC_CHECK(token.IsCancelled()); }
				else MC_CHECK_MSG(!before, "registered on a cancelled token");
				mc::Point();
			}
			h.Gone();
		});
		mc::Th b([&]{ started = 1; token.Cancel(); done = 1; MC_CHECK(token.IsCancelled()); });
	}
	MC_CHECK(token.IsCancelled());
	MC_CHECK(!(rejected && h.cancels));
	mc::Outcome("%d %d", rejected, (int)h.cancels);
}

// A handler registered before cancellation starts is always run, exactly once, however many cancellers there are.
MC_SCENARIO(registered_handler_is_called, .Q(3))
{
	CancellationToken token; Handler h; mc::Cell<int> returned;
	{
		CancellationRegistrator r(token, h);
		MC_CHECK(!r.IsCancelled());
		mc::Th a([&]{ token.Cancel(); ++returned; });
		mc::Th b([&]{ token.Cancel(); ++returned; });
		a.Join(); b.Join();
		MC_CHECK_MSG(h.cancels == 1, "handler ran %d times", (int)h.cancels);
		MC_CHECK(!token && token.IsCancelled());
	}
	h.Gone();
	{
		CancellationRegistrator r2(token, h);
		MC_CHECK(r2.IsCancelled());
	}
	token.Reset();
	MC_CHECK(token && !token.IsCancelled());
	{
		Handler h2; CancellationRegistrator r3(token, h2);
		MC_CHECK(!r3.IsCancelled());
		token.Cancel();
		MC_CHECK(h2.cancels == 1);
	}
}

// Sleep ends after cancellation and says so; it never claims to have slept the full time when it has not.
MC_SCENARIO(sleep_vs_cancel, .Q(3))
{
	CancellationToken token; mc::Cell<int> started; const bool infinite = mc::Pick(2);
	bool full = false;
	{
		mc::Th a([&]{
			const long long t0 = mc::NowUs();
			full = token.Sleep(infinite ? optional<TimeDuration>() : optional<TimeDuration>(TimeDuration(50)));
			const long long d = mc::NowUs() - t0;
			if (full) MC_CHECK_MSG(!infinite && d >= 50000, "sleep of 50000 us returned true after %lld us", d);
			else MC_CHECK_MSG(started, "sleep was interrupted although nobody cancelled");
			MC_CHECK(d <= 60000);
		});
		mc::Th b([&]{ started = 1; token.Cancel(); });
	}
	MC_CHECK(!token.Sleep(TimeDuration(1000)));
	MC_CHECK(token.IsCancelled());
	mc::Outcome("%d", full);
}

MC_SCENARIO(two_sleepers, .Q(2))
{
	CancellationToken token; mc::Cell<int> started;
	mc::Th a([&]{ MC_CHECK(!token.Sleep(null)); MC_CHECK(started); });
	mc::Th c([&]{ MC_CHECK(!token.Sleep(null)); MC_CHECK(started); });
	mc::Th b([&]{ started = 1; token.Cancel(); });
}

// Sleep without cancellation lasts the requested time.
MC_SCENARIO(sleep_full_time, .Q(1))
{
	static const int Ms[] = { 0, 1, 700, 1000, 3500 };
	const int ms = Ms[mc::Pick(5)]; const int kind = mc::Pick(5);
	CancellationToken t1, t2; DummyCancellationToken dummy; JoiningCancellationToken joined(t1, t2);
	TimedCancellationToken timed(t1, TimeDuration(2000));
	const ICancellationToken* all[] = { &t1, &dummy, &joined, &timed, 0 };
	const long long t0 = mc::NowUs();
	bool full = true; long long expect = ms * 1000ll;
	if (all[kind]) full = all[kind]->Sleep(TimeDuration(ms));
	else Thread::Sleep(TimeDuration(ms));
	if (kind == 3 && ms > 2000) { MC_CHECK(!full); expect = 2000000; MC_CHECK(timed.IsTimedOut() && !timed && !timed.IsCancelled()); }
	else MC_CHECK(full);
	const long long d = mc::NowUs() - t0;
	MC_CHECK_MSG(d >= expect && d <= expect + 10000, "kind %d: asked %d ms, slept %lld us", kind, ms, d);
	t1.Cancel(); t2.Cancel();
}

// The token handed out for cancelling (GetCancellator) cancels when released.
MC_SCENARIO(cancellator, .Q(2))
{
	CancellationToken token; Handler h;
	{
		CancellationRegistrator r(token, h);
		Token c = token.GetCancellator();
		mc::Th a([&]{ c.Reset(); });
		mc::Th b([&]{ token.Sleep(null); MC_CHECK(token.IsCancelled()); });
		a.Join(); b.Join();
		MC_CHECK(h.cancels == 1);
	}
}

// A wait on a joined token ends when either parent is cancelled, at whatever moment, including before the wait began.
MC_SCENARIO(joined_wait, .Q(2))
{
	CancellationToken t1, t2; Mutex m; ConditionVariable cv; mc::Cell<int> started; const int which = mc::Pick(3);
	{
		mc::Th a([&]{
			JoiningCancellationToken joined(t1, t2);
			MutexLock l(m);
			const ConditionWaitResult r = cv.Wait(m, joined);
			MC_CHECK(started);
			MC_CHECK_MSG(r == ConditionWaitResult::Cancelled, "joined wait ended by cancellation reported %d", (int)r.val());
			MC_CHECK(joined.IsCancelled() && !joined);
		});
		mc::Th b([&]{ started = 1; if (which == 0) t1.Cancel(); else if (which == 1) t2.Cancel(); else { t1.Cancel(); t2.Cancel(); } });
	}
	// nothing stays registered on either parent
	if (which == 1) { Handler h; CancellationRegistrator r(t1, h); MC_CHECK(!r.IsCancelled()); }
	if (which == 0) { Handler h; CancellationRegistrator r(t2, h); MC_CHECK(!r.IsCancelled()); }
	t1.Cancel(); t2.Cancel();
}

MC_SCENARIO(joined_wait_two_cancellers, .Q(2))
{
	CancellationToken t1, t2; Mutex m; ConditionVariable cv;
	{
		mc::Th a([&]{ JoiningCancellationToken joined(t1, t2); MutexLock l(m); while (joined) cv.Wait(m, joined); });
		mc::Th b([&]{ t1.Cancel(); });
		mc::Th c([&]{ t2.Cancel(); });
	}
}

MC_SCENARIO(joined_sleep, .Q(2))
{
	CancellationToken t1, t2; mc::Cell<int> started; const int which = mc::Pick(2); const bool infinite = mc::Pick(2);
	{
		mc::Th a([&]{
			JoiningCancellationToken joined(t1, t2);
			const long long t0 = mc::NowUs();
			const bool full = joined.Sleep(infinite ? optional<TimeDuration>() : optional<TimeDuration>(TimeDuration(50)));
			if (full) MC_CHECK(!infinite && mc::NowUs() - t0 >= 50000);
			else MC_CHECK(started);
		});
		mc::Th b([&]{ started = 1; (which ? t1 : t2).Cancel(); });
	}
	(which ? t2 : t1).Cancel();
}

// A timed token: its sleeps and waits end by the time limit or by cancellation of the parent, whichever is first.
MC_SCENARIO(timed_sleep, .Q(2))
{
	CancellationToken t; mc::Cell<int> started; const bool infinite = mc::Pick(2); const bool longer = mc::Pick(2);
	{
		mc::Th a([&]{
			const long long t0 = mc::NowUs();
			TimedCancellationToken timed(t, TimeDuration(100));
			const int ask = longer ? 300 : 40;
			const bool full = timed.Sleep(infinite ? optional<TimeDuration>() : optional<TimeDuration>(TimeDuration(ask)));
			const long long d = mc::NowUs() - t0;
			if (full) MC_CHECK(!infinite && !longer && d >= 40000);
			else MC_CHECK_MSG(started || d >= 100000, "interrupted after %lld us without reason", d);
			MC_CHECK(d <= 110000);
			if (d >= 100000) { MC_CHECK(timed.IsTimedOut()); MC_CHECK(!timed); }
		});
		mc::Th b([&]{ started = 1; t.Cancel(); });
	}
}

// The same when nobody cancels: only the time limit ends the sleep, at the nearest of the nested limits.
MC_SCENARIO(timed_sleep_alone, .Q(1))
{
	CancellationToken t; DummyCancellationToken d; const int kind = mc::Pick(5), ask = mc::Pick(5); static const int asks[] = { -1, 0, 40, 100, 300 };
	const TimedCancellationToken outer(t, TimeDuration(kind == 2 ? 70 : 200)); const long long t0 = mc::NowUs();
	const TimedCancellationToken own(TimeDuration(100)), onToken(t, TimeDuration(100)), nested(outer, TimeDuration(100)), onDummy(d, TimeDuration(100));
	const ICancellationToken& timed = kind == 0 ? static_cast<const ICancellationToken&>(own) : kind == 1 ? onToken : kind == 2 || kind == 4 ? nested : onDummy; const int limit = kind == 2 ? 70 : 100;
	MC_CHECK(timed && timed.GetTimeout() && !timed.IsTimedOut() && !timed.IsCancelled());
	const bool full = timed.Sleep(ask == 0 ? optional<TimeDuration>() : optional<TimeDuration>(TimeDuration(asks[ask]))); const long long took = (mc::NowUs() - t0) / 1000;
	const bool within = ask != 0 && asks[ask] < limit; const int expected = within ? asks[ask] : limit;
	MC_CHECK_MSG(took >= expected && took <= expected + 10, "slept %lld ms of %d", took, expected);
	if (within || (ask && asks[ask] > limit) || ask == 0) MC_CHECK_MSG(full == within, "the sleep of %d ms within %d ms said %d", asks[ask], limit, full);
	if (!within) MC_CHECK_MSG(timed.IsTimedOut() && !timed && !timed.IsCancelled() && !t.IsCancelled(), "not reported as timed out");
	t.Cancel(); MC_CHECK(!timed.IsCancelled() || (kind == 1 || kind == 2 || kind == 4));
}

// A joined token whose parents are limited in time: waits and sleeps end at the nearer limit, whichever side it is on.
MC_SCENARIO(joined_timed, .Q(1))
{
	CancellationToken t1, t2; const int order = mc::Pick(4), how = mc::Pick(3); static const int limits[][2] = { { 50, 100 }, { 100, 50 }, { 50, 0 }, { 0, 50 } };
	const long long t0 = mc::NowUs();
	{
		const TimedCancellationToken a(t1, TimeDuration(limits[order][0] ? limits[order][0] : 1)), b(t2, TimeDuration(limits[order][1] ? limits[order][1] : 1));
		const ICancellationToken& first = limits[order][0] ? static_cast<const ICancellationToken&>(a) : t1; const ICancellationToken& second = limits[order][1] ? static_cast<const ICancellationToken&>(b) : t2;
		const JoiningCancellationToken joined(first, second);
		MC_CHECK(joined && joined.GetTimeout() && *joined.GetTimeout() <= TimeDuration(50) && *joined.GetTimeout() >= TimeDuration(40));
		if (how == 2) { Mutex m; ConditionVariable cv; MutexLock l(m); const ConditionWaitResult r = cv.Wait(m, joined); MC_CHECK_MSG(r == ConditionWaitResult::TimedOut, "the wait said %d", (int)r.val()); }
		else { const bool full = joined.Sleep(how == 0 ? optional<TimeDuration>() : optional<TimeDuration>(TimeDuration(200))); MC_CHECK_MSG(!full, "a sleep cut short by the time limit says that it lasted the whole time"); }
		const long long took = (mc::NowUs() - t0) / 1000; MC_CHECK_MSG(took >= 50 && took <= 60, "ended after %lld ms", took);
		MC_CHECK(joined.IsTimedOut() && !joined.IsCancelled() && !joined);
	}
	t1.Cancel(); t2.Cancel();
}

// Unregistering while the cancellation is in progress, with the handler itself being slow.
MC_SCENARIO(condition_wait_handler_gone, .Q(2))
{
	CancellationToken token;
	{
		mc::Th a([&]{
			Mutex m; ConditionVariable cv; // both die right after the wait: no late handler may touch them
			MutexLock l(m);
			while (token) cv.Wait(m, token);
		});
		mc::Th b([&]{ token.Cancel(); });
		mc::Th c([&]{ token.Cancel(); });
	}
}
