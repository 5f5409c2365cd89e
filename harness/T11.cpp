#include "../mc/mc.h"
#include <stingraykit/thread/ConditionVariable.h>
#include <stingraykit/thread/Thread.h>
#include <stingraykit/thread/posix/ThreadLocal.h>
#include <stingraykit/function/bind.h>
#include <stdexcept>
using namespace stingray;

namespace
{
	struct Ctx
	{
		mc::Cell<int> runs, finished, dtorStarted; int payload; int mode; Mutex m; ConditionVariable cv;
		Ctx() : payload(0), mode(0) { }
	};

	void Body(Ctx* c, const ICancellationToken& token)
	{
		MC_CHECK_MSG(++c->runs == 1, "thread function ran twice");
		switch (c->mode)
		{
		case 0: break;
		case 1: while (token) token.Sleep(null); MC_CHECK(token.IsCancelled() && c->dtorStarted); break;
		case 2: { MutexLock l(c->m); while (token) c->cv.Wait(c->m, token); MC_CHECK(token.IsCancelled() && c->dtorStarted); } break;
		case 3: { const bool full = token.Sleep(TimeDuration(10000)); MC_CHECK(full || c->dtorStarted); } break;
		case 4: c->payload = 42; c->finished = 1; throw std::runtime_error("escaping");
		}
		mc::Point();
		c->payload = 42; c->finished = 1;
	}
}

// In every schedule: one run, destruction cancels the token, ends its waits, and returns only after the function returned.
MC_SCENARIO(start_and_destroy, .Q(2))
{
	Ctx c; c.mode = mc::Pick(5);
	{
		ThreadPtr t(make_shared_ptr<Thread>("t", Bind(&Body, &c, _1)));
		mc::Point();
		c.dtorStarted = 1;
		t.reset();
		MC_CHECK_MSG(c.finished, "thread object destroyed before its function returned");
	}
	MC_CHECK(c.runs == 1);
	MC_CHECK(c.payload == 42);
	mc::Outcome("%d", c.mode);
}

// Threads started from two threads at once keep to their own function, name and id.
namespace
{
	struct Named { mc::Cell<int> runs; mc::Cell<uintptr_t> id; };
	void NamedBody(Named* n, const std::string& name, const ICancellationToken&)
	{
		++n->runs;
		MC_CHECK_MSG(Thread::GetCurrentThreadName() == name, "thread '%s' is called '%s'", name.c_str(), Thread::GetCurrentThreadName().c_str());
		IThreadInfoPtr info = Thread::GetCurrentThreadInfo();
		MC_CHECK(info && info->GetName() == name);
		n->id = (uintptr_t)Thread::GetCurrentThreadId();
	}
	void Start(Named* n, const char* name)
	{
		Thread t(name, Bind(&NamedBody, n, std::string(name), _1));
		const uintptr_t id = (uintptr_t)t.GetId();
		while (!n->id) mc::Yield();
		MC_CHECK(id == n->id);
	}
}
MC_SCENARIO(two_starters, .Q(1))
{
	Named a, b;
	mc::Th x([&]{ Start(&a, "alpha"); }), y([&]{ Start(&b, "beta"); });
	x.Join(); y.Join();
	MC_CHECK(a.runs == 1 && b.runs == 1 && a.id != b.id);
}

// A thread with a time limit: its token reports the time-out, its waits end by then.
MC_SCENARIO(time_limit, .Q(2))
{
	mc::Cell<int> done; const int kind = mc::Pick(2);
	struct L { static void Run(mc::Cell<int>* done, int kind, const ICancellationToken& token)
	{
		const long long t0 = mc::NowUs();
		if (kind == 0) { MC_CHECK(!token.Sleep(null)); }
		else { Mutex m; ConditionVariable cv; MutexLock l(m); while (token) cv.Wait(m, token); }
		const long long d = mc::NowUs() - t0;
		MC_CHECK_MSG((token.IsTimedOut() && d >= 490000 && d <= 510000) || token.IsCancelled(), "wait bounded by 500 ms ended after %lld us", d);
		MC_CHECK(!token);
		*done = 1;
	} };
	const bool early = mc::Pick(2);
	Thread t("t", Bind(&L::Run, &done, kind, _1), TimeDuration(500));
	if (!early) while (!done) mc::Yield();
}

// A thread starts and destroys another one from inside its function.
MC_SCENARIO(nested, .Q(1))
{
	Ctx inner; inner.mode = 2;
	struct L { static void Run(Ctx* inner, const ICancellationToken&)
	{ Thread t("inner", Bind(&Body, inner, _1)); mc::Point(); inner->dtorStarted = 1; } };
	{ Thread t("outer", Bind(&L::Run, &inner, _1)); }
	MC_CHECK(inner.runs == 1 && inner.finished);
	MC_CHECK(inner.payload == 42);
}

// Thread local values: one per thread, made on first use, destroyed once at the end of its thread, with the others still usable meanwhile.
namespace
{
	struct TlvStats { mc::Cell<int> made, died; mc::Cell<int> seen[2]; };
	TlvStats* g_tlv = 0;
	struct TlvNumber { int v; TlvNumber() : v(0) { ++g_tlv->made; } ~TlvNumber() { ++g_tlv->died; } };
	STINGRAYKIT_DECLARE_THREAD_LOCAL(TlvNumber, TlvFirst); STINGRAYKIT_DEFINE_THREAD_LOCAL(TlvNumber, TlvFirst);
	// Its destructor does what a destructor may: it uses other thread local values, the thread's name among them.
	struct TlvUser
	{
		int v; TlvUser() : v(0) { ++g_tlv->made; }
		~TlvUser() { ++g_tlv->died; TlvNumber& n = TlvFirst::Get(); MC_CHECK_MSG(n.v == 0 || n.v == v, "another thread's value"); n.v = v; MC_CHECK(Thread::GetCurrentThreadName().empty() || Thread::GetCurrentThreadName() == "w"); }
	};
	STINGRAYKIT_DECLARE_THREAD_LOCAL(TlvUser, TlvSecond); STINGRAYKIT_DEFINE_THREAD_LOCAL(TlvUser, TlvSecond);
	void TlvBody(int self, int order, const ICancellationToken&)
	{
		for (int k = 0; k < 2; ++k)
			if ((k == 0) == (order == 0)) { MC_CHECK(TlvFirst::Get().v == 0); TlvFirst::Get().v = self; } else { MC_CHECK(TlvSecond::Get().v == 0); TlvSecond::Get().v = self; }
		mc::Point();
		MC_CHECK_MSG(TlvFirst::Get().v == self && TlvSecond::Get().v == self, "a thread sees another thread's value");
		MC_CHECK(&TlvFirst::Get() == &TlvFirst::Get());
	}
}
MC_SCENARIO(thread_local_values, .Q(1).T(2))
{
	TlvStats s; g_tlv = &s; const int order = mc::Pick(2);
	{
		Thread a("w", Bind(&TlvBody, 1, order, _1)); Thread b("w", Bind(&TlvBody, 2, order, _1));
	}
	MC_CHECK_MSG(s.made >= 4 && s.made == s.died, "%d thread local values made, %d destroyed", (int)s.made, (int)s.died);
	mc::Outcome("%d", (int)s.made);
}
