// T09: promises, futures and asynchronous functions under every interleaving.
#include "../mc/mc.h"
#include "common.h"
#include <stingraykit/function/AsyncFunction.h>
#include <stingraykit/function/bind.h>
#include <stingraykit/future.h>
#include <stingraykit/signal/SignalToFuture.h>
#include <stingraykit/signal/signals.h>
#include <stingraykit/thread/CancellationToken.h>
#include <stingraykit/thread/ThreadTaskExecutor.h>
#include <stingraykit/thread/ThreadlessTaskExecutor.h>
#include <stingraykit/thread/TimedCancellationToken.h>
#include <memory>
using namespace stingray;

namespace
{
	const int VALUE1 = 1, VALUE2 = 2, EX1 = 11, EX2 = 12, BROKEN = 90, OTHER = 99;
	ExceptionPtr Ex(int n) { return MakeExceptionPtr(std::runtime_error(n == 1 ? "first" : "second")); }
	template <typename F> int Read(F f)
	{
		try { return f.get(); }
		catch (const std::exception& ex)
		{
			const std::string s = ex.what();
			return s.find("first") != std::string::npos ? EX1 : s.find("second") != std::string::npos ? EX2 : s.find("Promise destroyed") != std::string::npos ? BROKEN : OTHER;
		}
	}
	// 1 accepted, 0 rejected with the documented error
	template <typename P> int Set(P& p, int v)
	{
		try { p.set_value(v); return 1; }
		catch (const PromiseAlreadySatisfied&) { return 0; }
	}
}

MC_SCENARIO(set_vs_wait, .Q(3).Spurious())
{
	promise<int> p; shared_future<int> f = p.get_future().share();
	mc::Cell<int> a, b;
	mc::Th x([&]{ shared_future<int> g(f); MC_CHECK(g.wait() == future_status::ready); MC_CHECK(g.is_ready()); a = Read(g); });
	mc::Th y([&]{ b = Read(f); });
	p.set_value(VALUE1);
	x.Join(); y.Join();
	MC_CHECK_MSG(a == VALUE1 && b == VALUE1, "waiters got %d %d", (int)a, (int)b);
}
MC_SCENARIO(exception_vs_wait, .Q(3).Spurious())
{
	promise<int> p; shared_future<int> f = p.get_future().share();
	mc::Cell<int> a, b;
	mc::Th x([&]{ MC_CHECK(f.wait() == future_status::ready); a = Read(f); });
	mc::Th y([&]{ b = Read(f); });
	p.set_exception(Ex(1));
	x.Join(); y.Join();
	MC_CHECK_MSG(a == EX1 && b == EX1, "waiters got %d %d", (int)a, (int)b);
	MC_CHECK(f.has_exception() && !f.has_value());
}
MC_SCENARIO(abandon_vs_wait, .Q(3))
{
	std::unique_ptr<promise<int> > p(new promise<int>); shared_future<int> f = p->get_future().share();
	mc::Cell<int> a;
	mc::Th x([&]{ MC_CHECK(f.wait() == future_status::ready); a = Read(f); });
	p.reset();
	x.Join();
	MC_CHECK_MSG(a == BROKEN, "waiter got %d", (int)a); MC_CHECK(Read(f) == BROKEN);
}
MC_SCENARIO(two_setters, .Q(3))
{
	promise<int> p; shared_future<int> f = p.get_future().share();
	mc::Cell<int> r1, r2, a;
	mc::Th x([&]{ r1 = Set(p, VALUE1); });
	mc::Th y([&]{ r2 = Set(p, VALUE2); });
	a = Read(f);
	x.Join(); y.Join();
	MC_CHECK_MSG(r1 + r2 == 1, "%d setters accepted", (int)r1 + r2);
	MC_CHECK_MSG(a == (r1 ? VALUE1 : VALUE2), "waiter got %d", (int)a); MC_CHECK_MSG(Read(f) == a, "outcome changed");
	mc::Outcome("%d", (int)a);
}
MC_SCENARIO(value_vs_exception, .Q(3))
{
	promise<int> p; shared_future<int> f = p.get_future().share();
	mc::Cell<int> r1, a;
	mc::Th x([&]{ r1 = Set(p, VALUE1); });
	mc::Th y([&]{ p.set_exception(Ex(1)); });
	a = Read(f);
	x.Join(); y.Join();
	MC_CHECK_MSG(a == (r1 ? VALUE1 : EX1), "value %s, waiter got %d", r1 ? "accepted" : "rejected", (int)a); MC_CHECK_MSG(Read(f) == a, "outcome changed");
	MC_CHECK(f.has_value() == (r1 == 1) && f.has_exception() == (r1 == 0));
	mc::Outcome("%d", (int)a);
}
// value while abandoning is impossible, but an abandoned promise must not replace an outcome
MC_SCENARIO(set_then_abandon, .Q(3))
{
	std::unique_ptr<promise<int> > p(new promise<int>); shared_future<int> f = p->get_future().share();
	mc::Cell<int> a;
	mc::Th x([&]{ a = Read(f); });
	p->set_value(VALUE2); p.reset();
	x.Join();
	MC_CHECK_MSG(a == VALUE2 && Read(f) == VALUE2, "waiter got %d", (int)a);
}
MC_SCENARIO(timed_wait, .Q(3).Spurious())
{
	promise<int> p; shared_future<int> f = p.get_future().share();
	mc::Cell<int> set, a;
	mc::Th x([&]{
		const long long t0 = mc::NowUs();
		const future_status s = f.wait(TimedCancellationToken(TimeDuration(10)));
		if (s == future_status::timeout) MC_CHECK_MSG(mc::NowUs() - t0 >= 10000, "timed out after %lld us", mc::NowUs() - t0);
		else { MC_CHECK_MSG(s == future_status::ready, "status %s", s.ToString().c_str()); MC_CHECK(f.is_ready()); }
		a = s == future_status::ready;
		MC_CHECK(Read(f) == VALUE1);
	});
	p.set_value(VALUE1);
	x.Join();
	MC_CHECK(f.wait(TimedCancellationToken(TimeDuration(10))) == future_status::ready);
	mc::Outcome("%d", (int)a);
}
MC_SCENARIO(cancelled_wait, .Q(3))
{
	promise<int> p; shared_future<int> f = p.get_future().share(); CancellationToken t;
	mc::Cell<int> cancelled, a, b;
	mc::Th x([&]{
		const future_status s = f.wait(t);
		MC_CHECK_MSG(s == future_status::ready ? f.is_ready() : s == future_status::cancelled && cancelled, "status %s", s.ToString().c_str());
		a = s == future_status::ready;
	});
	mc::Th y([&]{ b = Read(f); });
	cancelled = 1; t.Cancel();
	p.set_value(VALUE1);
	x.Join(); y.Join();
	MC_CHECK_MSG(b == VALUE1, "the other waiter got %d", (int)b); MC_CHECK(Read(f) == VALUE1);
	mc::Outcome("%d", (int)a);
}
MC_SCENARIO(cancelled_never_set, .Q(3))
{
	promise<int> p; future<int> f = p.get_future(); CancellationToken t;
	mc::Th x([&]{ MC_CHECK(f.wait(t) == future_status::cancelled); });
	t.Cancel();
	x.Join();
	MC_CHECK(!f.is_ready()); p.set_value(5); MC_CHECK(f.get() == 5); MC_CHECK(!f.valid());
}
MC_SCENARIO(void_promise, .Q(3).Spurious())
{
	promise<void> p; shared_future<void> f = p.get_future().share();
	mc::Cell<int> set, n;
	mc::Th x([&]{ f.get(); MC_CHECK(set); ++n; });
	mc::Th y([&]{ MC_CHECK(f.wait() == future_status::ready && set); ++n; });
	set = 1; p.set_value();
	try { p.set_value(); mc::Fail("second set_value accepted"); } catch (const PromiseAlreadySatisfied&) { }
	x.Join(); y.Join();
	MC_CHECK(n == 2);
}
// What the setter did before setting is visible to the waiter.
MC_SCENARIO(publication, .Q(3))
{
	promise<shared_ptr<std::string> > p; future<shared_ptr<std::string> > f = p.get_future(); int data = 0;
	mc::Th x([&]{ data = 42; p.set_value(make_shared_ptr<std::string>("hello")); });
	shared_ptr<std::string> s = f.get();
	MC_CHECK(*s == "hello" && data == 42);
	x.Join();
}

// ---- asynchronous functions
namespace
{
	struct Func : public function_info<int (int)>
	{
		mc::Cell<int>* runs; int mode;
		int operator () (int v) const { ++*runs; if (mode == 1) throw std::runtime_error("first"); return v + 1; }
	};
}
MC_SCENARIO(async_function, .Q(2))
{
	mc::Cell<int> runs; const int mode = mc::Pick(2); int r;
	{
		ThreadTaskExecutorPtr e = make_shared_ptr<ThreadTaskExecutor>("e", null);
		Func fn; fn.runs = &runs; fn.mode = mode;
		future<int> f = MakeAsyncFunction(e, fn)(7);
		r = Read(f);
		MC_CHECK_MSG(runs == 1, "function ran %d times", (int)runs);
	}
	MC_CHECK_MSG(r == (mode ? EX1 : 8), "got %d", r); MC_CHECK(runs == 1);
}
MC_SCENARIO(async_function_cancelled, .Q(2))
{
	mc::Cell<int> runs; int r;
	{
		ThreadTaskExecutorPtr e = make_shared_ptr<ThreadTaskExecutor>("e", null); TaskLifeToken life;
		Func fn; fn.runs = &runs; fn.mode = 0;
		future<int> f = MakeAsyncFunction(e, fn, life.GetExecutionTester())(7);
		life.Release(); const int n = runs;
		r = Read(f);
		MC_CHECK_MSG(runs == n, "started after release");
		MC_CHECK_MSG(r == (n ? 8 : BROKEN), "ran %d times, got %d", n, r);
	}
	mc::Outcome("%d", r);
}
MC_SCENARIO(async_two_calls, .Q(1))
{
	mc::Cell<int> runs;
	ThreadTaskExecutorPtr e = make_shared_ptr<ThreadTaskExecutor>("e", null);
	Func fn; fn.runs = &runs; fn.mode = 0;
	function<future<int> (int)> af = MakeAsyncFunction(e, fn);
	future<int> f = af(1), g = af(2);
	const int a = Read(f), b = Read(g);
	MC_CHECK_MSG(a == 2 && b == 3 && runs == 2, "got %d %d after %d runs", a, b, (int)runs);
}
MC_SCENARIO(async_never_executed, .Q(1))
{
	mc::Cell<int> runs; Func fn; fn.runs = &runs; fn.mode = 0;
	ThreadlessTaskExecutorPtr e = make_shared_ptr<ThreadlessTaskExecutor>("e", null);
	future<int> f = MakeAsyncFunction(e, fn)(1);
	MC_CHECK(!f.is_ready());
	if (mc::Pick(2)) { e->ClearTasks(); MC_CHECK(Read(f) == BROKEN); }
	else { e->ExecuteTasks(DummyCancellationToken()); MC_CHECK(f.is_ready() && Read(f) == 2); }
}
MC_SCENARIO(signal_to_future, .Q(3))
{
	signal<void (int)> s; SignalToFutureWrapper<int> w(s.connector()); shared_future<int> f = w.GetFuture(); mc::Cell<int> a;
	mc::Th x([&]{ a = Read(f); });
	s(3); s(4);
	x.Join();
	MC_CHECK_MSG(a == 3 && Read(f) == 3, "got %d", (int)a);
}
