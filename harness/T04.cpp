// T04: signals and disconnection under every interleaving.
#include "../mc/mc.h"
#include "common.h"
#include <stingraykit/signal/signals.h>
#include <stingraykit/thread/ThreadlessTaskExecutor.h>
#include <stingraykit/thread/DummyCancellationToken.h>
#include <stingraykit/function/bind.h>
using namespace stingray;

namespace
{
	struct Slot
	{
		mc::Cell<int> running, gone, calls; int payload; mc::Cell<int> last;
		Slot() : payload(0) { }
		void Call(int v)
		{
			MC_CHECK_MSG(!gone, "handler called after its connection was released");
			++running; ++calls; payload = payload + 1; mc::Point(); last = v; --running;
			MC_CHECK_MSG(!gone, "connection was released while its handler was running");
		}
		void Released() { MC_CHECK_MSG(!running, "release returned while the handler is running"); gone = 1; payload = 100; }
	};
	typedef signal<void (int)> Sig;
	function<void (int)> To(Slot& s) { return Bind(&Slot::Call, &s, _1); }
}

MC_SCENARIO(emit_vs_disconnect, .Q(3))
{
	Slot s; Sig sig; Token c = sig.connect(To(s));
	mc::Th a([&]{ sig(1); sig(2); });
	mc::Th b([&]{ c.Reset(); s.Released(); });
	a.Join(); b.Join();
	sig(3); MC_CHECK(s.calls <= 2);
	mc::Outcome("%d", (int)s.calls);
}

MC_SCENARIO(two_emitters_vs_disconnect, .Q(2))
{
	Slot s; Sig sig; Token c = sig.connect(To(s));
	mc::Th a([&]{ sig(1); });
	mc::Th d([&]{ sig(2); });
	mc::Th b([&]{ c.Reset(); s.Released(); });
	a.Join(); b.Join(); d.Join();
	mc::Outcome("%d", (int)s.calls);
}

// A handler connected throughout is called exactly once per emission, in connection order, whatever happens to its neighbours.
MC_SCENARIO(neighbours, .Q(2))
{
	Slot s1, s2, s3, s4; Sig sig; mc::Cell<int> turn;
	Token c1 = sig.connect(vh::Fn<void (int)>([&](int v){ MC_CHECK(v == 7); MC_CHECK_MSG(turn == 0, "connection order"); turn = 1; s1.Call(v); }));
	Token c2 = sig.connect(To(s2));
	Token c3 = sig.connect(vh::Fn<void (int)>([&](int v){ MC_CHECK(v == 7); MC_CHECK_MSG(turn == 1, "connection order"); turn = 2; s3.Call(v); }));
	Token c4;
	mc::Th a([&]{ sig(7); });
	mc::Th b([&]{ c2.Reset(); s2.Released(); c4 = sig.connect(To(s4)); });
	a.Join(); b.Join();
	MC_CHECK_MSG(s1.calls == 1 && s3.calls == 1, "%d %d calls", (int)s1.calls, (int)s3.calls);
	MC_CHECK(s2.calls <= 1 && s4.calls <= 1);
	turn = 0; sig(7);
	MC_CHECK(s1.calls == 2 && s3.calls == 2 && s4.calls >= 1);
	mc::Outcome("%d %d", (int)s2.calls, (int)s4.calls);
}

// Two connections released by two threads while a third emits.
MC_SCENARIO(two_disconnectors, .Q(2))
{
	Slot s1, s2; Sig sig; Token c1 = sig.connect(To(s1)), c2 = sig.connect(To(s2));
	mc::Th a([&]{ sig(1); });
	mc::Th b([&]{ c1.Reset(); s1.Released(); });
	mc::Th d([&]{ c2.Reset(); s2.Released(); });
	a.Join(); b.Join(); d.Join();
	mc::Outcome("%d %d", (int)s1.calls, (int)s2.calls);
}

// A handler that disconnects itself and its successor, while another thread emits as well.
MC_SCENARIO(disconnect_in_handler, .Q(2))
{
	Slot s2; Sig sig; Token c1, c2; mc::Cell<int> self, selfGone;
	c1 = sig.connect(vh::Fn<void (int)>([&](int){ MC_CHECK_MSG(!selfGone, "called after it disconnected itself"); ++self; c1.Reset(); selfGone = 1; c2.Reset(); s2.gone = 1; }));
	c2 = sig.connect(To(s2));
	mc::Th a([&]{ sig(1); });
	sig(2);
	a.Join();
	MC_CHECK_MSG(self == 1, "%d", (int)self);
	mc::Outcome("%d", (int)s2.calls);
}

// Handlers connect and emit from within.
MC_SCENARIO(connect_and_emit_in_handler, .Q(2))
{
	Slot s; Sig sig; Token c2; mc::Cell<int> depth, first;
	Token c1 = sig.connect(vh::Fn<void (int)>([&](int v){ ++first; if (v == 0) { if (!c2) c2 = sig.connect(To(s)); sig(1); } }));
	Slot other; Token c3 = sig.connect(To(other));
	mc::Th b([&]{ c3.Reset(); other.Released(); });
	sig(0);
	b.Join();
	MC_CHECK(first == 2); MC_CHECK(s.calls == 1); MC_CHECK(other.calls <= 2);
	mc::Outcome("%d", (int)other.calls);
}

// The signal may be destroyed before the connection.
MC_SCENARIO(signal_dies_first, .Q(3))
{
	Slot s; Token c;
	{
		unique_ptr<Sig> sig(new Sig); c = sig->connect(To(s));
		Sig::Invoker inv = sig->invoker();
		mc::Th a([inv]{ inv(1); });
		mc::Th b([&]{ sig.reset(); });
		b.Join();
		mc::Th d([&]{ c.Reset(); s.Released(); });
		a.Join(); d.Join();
	}
	mc::Outcome("%d", (int)s.calls);
}

// Connection, emission and release through a connector; external mutex policy.
MC_SCENARIO(external_mutex, .Q(2))
{
	typedef signal<void (int), signal_policies::threading::ExternalMutexPointer> ESig;
	shared_ptr<Mutex> m = make_shared_ptr<Mutex>();
	Slot s1, s2; ESig sig((signal_policies::threading::ExternalMutexPointer(m)));
	signal_connector<void (int)> conn = sig.connector();
	Token c1 = conn.connect(To(s1));
	mc::Th a([&]{ signal_locker l(sig); sig(1); });
	mc::Th b([&]{ Token c2 = conn.connect(To(s2)); c1.Reset(); s1.Released(); c2.Reset(); s2.Released(); });
	a.Join(); b.Join();
	mc::Outcome("%d %d", (int)s1.calls, (int)s2.calls);
}

// A throwing handler does not keep the others from being called.
MC_SCENARIO(throwing_handler, .Q(2))
{
	mc::Cell<int> caught; Slot s;
	Sig sig(null, vh::Fn<void (const std::exception&)>([&](const std::exception& ex){ MC_CHECK(std::string(ex.what()).find("boom") != std::string::npos); ++caught; }));
	Token c1 = sig.connect(vh::Fn<void (int)>([](int){ STINGRAYKIT_THROW(std::runtime_error("boom")); }));
	Token c2 = sig.connect(To(s));
	mc::Th b([&]{ c1.Reset(); });
	sig(1);
	b.Join();
	MC_CHECK(s.calls == 1); MC_CHECK(caught <= 1);
	mc::Outcome("%d", (int)caught);
}

// Asynchronous connections: the handler runs on the executor, each emission once and in order; after release it neither runs nor starts.
MC_SCENARIO(async_disconnect, .Q(2))
{
	Slot s; Sig sig; ThreadlessTaskExecutorPtr ex = make_shared_ptr<ThreadlessTaskExecutor>("x");
	Token c = sig.connect(ex, To(s));
	mc::Th a([&]{ sig(1); sig(2); });
	mc::Th w([&]{ DummyCancellationToken t; for (int i = 0; i < 2; ++i) ex->ExecuteTasks(t); });
	mc::Th b([&]{ c.Reset(); s.Released(); });
	a.Join(); w.Join(); b.Join();
	DummyCancellationToken t; ex->ExecuteTasks(t);
	MC_CHECK(s.calls <= 2);
	mc::Outcome("%d", (int)s.calls);
}
// The same for a signal declared threadless, which is emitted and released by one thread.
MC_SCENARIO(async_threadless, .Q(2))
{
	Slot s; signal<void (int), signal_policies::threading::Threadless> sig; ThreadlessTaskExecutorPtr ex = make_shared_ptr<ThreadlessTaskExecutor>("x"); DummyCancellationToken warm;
	ex->AddTask(vh::Fn<void ()>([]{ })); ex->ExecuteTasks(warm); // the executors' profiler exists from here on
	Token c = sig.connect(ex, To(s)); sig(1); sig(2);
	mc::Th w([&]{ DummyCancellationToken t; for (int i = 0; i < 2; ++i) ex->ExecuteTasks(t); });
	c.Reset(); s.Released(); sig(3);
	w.Join();
	DummyCancellationToken t; ex->ExecuteTasks(t);
	MC_CHECK(s.calls <= 2);
	mc::Outcome("%d", (int)s.calls);
}
MC_SCENARIO(async_order, .Q(2))
{
	mc::Cell<int> seen, other; Sig sig; ThreadlessTaskExecutorPtr ex = make_shared_ptr<ThreadlessTaskExecutor>("x");
	Token c = sig.connect(ex, vh::Fn<void (int)>([&](int v){ MC_CHECK_MSG(v == seen + 1, "got %d after %d", v, (int)seen); seen = v; }));
	Token c2 = sig.connect(vh::Fn<void (int)>([&](int v){ ++other; }));
	mc::Th a([&]{ sig(1); sig(2); });
	mc::Th w([&]{ DummyCancellationToken t; ex->ExecuteTasks(t); });
	a.Join(); w.Join();
	DummyCancellationToken t; ex->ExecuteTasks(t);
	MC_CHECK(seen == 2 && other == 2);
}

// A signal whose state is made on first use keeps every connection made to it.
MC_SCENARIO(lazy_creation, .Q(2))
{
	typedef signal<void (int), signal_policies::threading::Multithreaded, signal_policies::exception_handling::Configurable, signal_policies::populators::Configurable, signal_policies::connection_policy_control::Checked, signal_policies::creation::Lazy> LSig;
	LSig sig; sig(0); sig.SendCurrentState(vh::Fn<void (int)>([](int){ MC_CHECK(false); }));
	mc::Cell<int> first, second, third;
	Token a, b, c;
	switch (mc::Pick(3)) { case 1: sig.connector(); break; case 2: sig.invoker()(0); break; }
	a = sig.connect(vh::Fn<void (int)>([&](int v){ first = first + v; }));
	b = sig.connector().connect(vh::Fn<void (int)>([&](int v){ second = second + v; }));
	mc::Th t([&]{ c = sig.connect(vh::Fn<void (int)>([&](int v){ third = third + v; })); });
	sig(1); b.Reset(); sig.invoker()(2);
	t.Join(); sig(4); c.Reset(); a.Reset(); sig(8);
	MC_CHECK_MSG(first == 7, "first handler got %d", (int)first);
	MC_CHECK_MSG(second == 1, "second handler got %d", (int)second);
	MC_CHECK_MSG((third & 4) && third < 8 && third != 5, "third handler got %d", (int)third);
	mc::Outcome("%d", (int)third);
}
