#include "../mc/mc.h"
#include <stingraykit/IntegerSequenceGenerator.h>
#include <stingraykit/thread/Barrier.h>
#include <stingraykit/thread/SyncValue.h>
#include <stingraykit/thread/Thread.h>
#include <stingraykit/thread/atomic.h>
#include <stingraykit/thread/atomic/Spinlock.h>
#include <stingraykit/thread/atomic/AtomicInt.h>
using namespace stingray;

// Mutual exclusion, recursion depth, temporary release.
MC_SCENARIO(mutex_exclusion, .Q(3).UnlockPoints())
{
	Mutex m; mc::Cell<int> in; int data = 0;
	auto user = [&](bool release) {
		MutexLock l(m);
		MC_CHECK_MSG(++in == 1, "two threads inside a mutex");
		{ MutexLock l2(m); data++; { MutexLock l3(m); mc::Point(); } mc::Point(); }
		mc::Point(); data++;
		--in;
		if (release) { MutexUnlock u(l); mc::Point(); }
		MC_CHECK_MSG(++in == 1, "two threads inside a mutex");
		mc::Point(); data++;
		--in;
	};
	mc::Th a([&]{ user(true); }), b([&]{ user(false); });
	a.Join(); b.Join();
	MC_CHECK(data == 6);
}

MC_SCENARIO(mutex_three, .Q(3))
{
	Mutex m; mc::Cell<int> in; int data = 0;
	auto user = [&]{ for (int i = 0; i < 2; ++i) { MutexLock l(m); MC_CHECK(++in == 1); mc::Point(); data++; --in; } };
	mc::Th a(user), b(user), c(user);
	a.Join(); b.Join(); c.Join();
	MC_CHECK(data == 6);
}

MC_SCENARIO(spinlock, .Q(3))
{
	static AtomicFlag::Type flag; flag = 0;
	mc::Cell<int> in; int data = 0;
	auto user = [&]{ for (int i = 0; i < 2; ++i) { Spinlock l(flag); MC_CHECK_MSG(++in == 1, "two threads inside a spin lock"); mc::Point(); data++; --in; } };
	mc::Th a(user), b(user);
	a.Join(); b.Join();
	MC_CHECK(data == 4);
}

MC_SCENARIO(semaphore_count, .Q(2))
{
	const int count = 1 + mc::Pick(2);
	Semaphore s(count); mc::Cell<int> in, passed;
	auto user = [&]{ SemaphoreLock l(s); MC_CHECK_MSG(++in <= count, "more than %d inside a semaphore", count); mc::Point(); --in; ++passed; };
	mc::Th a(user), b(user), c(user);
	a.Join(); b.Join(); c.Join();
	MC_CHECK(passed == 3);
}

MC_SCENARIO(semaphore_signals, .Q(3))
{
	Semaphore s; mc::Cell<int> posted, got; int data = 0;
	mc::Th a([&]{ s.Wait(); MC_CHECK(++got <= posted); });
	mc::Th b([&]{ s.Wait(); MC_CHECK(++got <= posted); });
	mc::Th c([&]{ data = 1; posted += 2; s.Signal(2); });
	a.Join(); b.Join(); c.Join();
	const long long t0 = mc::NowUs();
	MC_CHECK(!s.TimedWait(TimeDuration(30)));
	MC_CHECK(mc::NowUs() - t0 >= 30000 && mc::NowUs() - t0 <= 40000);
	s.Signal(); MC_CHECK(s.TimedWait(TimeDuration(30)));
	MC_CHECK(!s.TimedWait(TimeDuration(0)));
}

// A timed acquisition tells the truth: the number of successes never exceeds the number of signals, and none is lost.
MC_SCENARIO(semaphore_timed, .Q(3))
{
	Semaphore s; mc::Cell<int> posted, got; const long long t0 = mc::NowUs();
	auto user = [&]{
		if (s.TimedWait(TimeDuration(100))) MC_CHECK(++got <= posted);
		else MC_CHECK_MSG(mc::NowUs() - t0 >= 100000, "timed wait gave up after %lld us", mc::NowUs() - t0);
	};
	mc::Th a(user), b(user);
	mc::Th c([&]{ ++posted; s.Signal(); });
	a.Join(); b.Join(); c.Join();
	if (!got) MC_CHECK(s.TimedWait(TimeDuration(0)));
	MC_CHECK(!s.TimedWait(TimeDuration(0)));
	mc::Outcome("%d", (int)got);
}

// Nobody passes before the last one came; everybody passes; exactly one per round is told it was the last to leave; reusable.
namespace
{
	void BarrierRounds(int n, int rounds)
	{
		Barrier bar(n); mc::Cell<int> arrived[3]; mc::Cell<int> last[3];
		auto user = [&]{
			for (int r = 0; r < rounds; ++r)
			{
				++arrived[r];
				const bool l = bar.Wait();
				MC_CHECK_MSG(arrived[r] == n, "round %d: let through when %d of %d have arrived", r, (int)arrived[r], n);
				if (l) MC_CHECK_MSG(++last[r] == 1, "round %d: two threads were told they were the last", r);
			}
		};
		mc::Th t[3];
		for (int i = 0; i < n; ++i) t[i] = mc::Th(user);
		for (int i = 0; i < n; ++i) t[i].Join();
		for (int r = 0; r < rounds; ++r) MC_CHECK_MSG(last[r] == 1, "round %d: nobody was the last", r);
	}
}
MC_SCENARIO(barrier_two, .Q(3).Spurious()) { BarrierRounds(2, 2); }
MC_SCENARIO(barrier_three, .Q(2).Spurious()) { BarrierRounds(3, 2); }
MC_SCENARIO(barrier_one, .Q(1)) { BarrierRounds(1, 3); }

namespace { struct Pair { int a, b; Pair(int x = 0) : a(x), b(-x) { } bool operator == (const Pair& o) const { return a == o.a && b == o.b; } }; }

MC_SCENARIO(syncvalue_whole, .Q(3))
{
	SyncValue<Pair> v;
	auto rd = [&]{ for (int i = 0; i < 2; ++i) { const Pair p = v.Get(); MC_CHECK_MSG(p.a == -p.b, "torn value"); SyncValue<Pair>::ConstLock l(v); MC_CHECK(l->a == -l->b); } };
	mc::Th a([&]{ v = Pair(1); v->a = v->a; });
	mc::Th b([&]{ SyncValue<Pair>::Lock l(v); l->a = 5; mc::Point(); l->b = -5; });
	mc::Th c(rd);
	a.Join(); b.Join(); c.Join();
}

MC_SCENARIO(syncvalue_increment, .Q(3))
{
	SyncValue<int> v(3);
	auto inc = [&]{ for (int i = 0; i < 2; ++i) { SyncValue<int>::Lock l(v); int x = l; mc::Point(); l = x + 1; } };
	mc::Th a(inc), b(inc);
	a.Join(); b.Join();
	MC_CHECK(v.Get() == 7);
}

// Locks handed out by operators, and their copies, guard the value for as long as any of them lives.
MC_SCENARIO(syncvalue_handed_out, .Q(3))
{
	typedef SyncValue<Pair> V; V v; const V& cv = v; mc::Cell<int> in; const int how = mc::Pick(4);
	auto touch = [&](int x) { switch (how)
	{
	case 0: { V::Lock l(v); { const V::Lock k(l); } MC_CHECK(++in == 1); l->a = x; mc::Point(); l->b = -x; --in; } break;
	case 1: { V::Lock* l = new V::Lock(v); V::Lock k(*l); delete l; MC_CHECK(++in == 1); k->a = x; mc::Point(); k->b = -x; --in; } break;
	case 2: { const V::ConstLock l(cv); const V::ConstLock k(l); MC_CHECK(++in == 1); mc::Point(); MC_CHECK(l->a == -k->b); --in; } break;
	case 3: { V::ConstLock* l = new V::ConstLock(*cv); V::ConstLock k(*l); delete l; MC_CHECK(++in == 1); mc::Point(); MC_CHECK(k->a == -k->b); --in; } break;
	} };
	mc::Th a([&]{ touch(1); });
	mc::Th b([&]{ touch(2); });
	mc::Th c([&]{ V::Lock l = *v; MC_CHECK(++in == 1); l->a = 3; mc::Point(); l->b = -3; --in; });
	a.Join(); b.Join(); c.Join();
	const Pair p = v.Get(); MC_CHECK(p.a == -p.b && cv->a == p.a);
}

// Atomic read-modify-write operations lose nothing and return what they should.
MC_SCENARIO(atomic_counters, .Q(3))
{
	atomic<s32> a(10); atomic<u64> b(1); AtomicU32::Type raw = 0;
	struct U { static void Go(int k, atomic<s32>& a, atomic<u64>& b, AtomicU32::Type& raw)
	{
		if (k) { ++a; a++; --a; } else { a.fetch_add(3); a.fetch_sub(1); a--; }
		if (k) b++; else ++b;
		AtomicU32::Inc(raw); AtomicU32::Add(raw, 5); AtomicU32::Dec(raw);
	} };
	mc::Th x([&]{ U::Go(0, a, b, raw); }), y([&]{ U::Go(1, a, b, raw); });
	x.Join(); y.Join();
	MC_CHECK_MSG(a == 12, "atomic ended at %d", (int)a.load());
	MC_CHECK(b == 3u);
	MC_CHECK(AtomicU32::Load(raw) == 10);
}

MC_SCENARIO(atomic_values, .Q(3))
{
	atomic<s32> a(5);
	MC_CHECK(a.fetch_add(2) == 5); MC_CHECK(a.fetch_sub(3) == 7); MC_CHECK(a == 4);
	MC_CHECK(a++ == 4); MC_CHECK(++a == 6); MC_CHECK(a-- == 6); MC_CHECK(--a == 4);
	a.store(-1); MC_CHECK(a.load() == -1); MC_CHECK((a = 9) == 9);
	atomic<bool> f(false); MC_CHECK(!f); f = true; MC_CHECK(f); f.store(false); MC_CHECK(!f.load());
	AtomicU32::Type r = 7; MC_CHECK(AtomicU32::CompareAndExchange(r, 6, 1) == 7 && r == 7); MC_CHECK(AtomicU32::CompareAndExchange(r, 7, 1) == 7 && r == 1);
	AtomicU32::Store(r, 88); MC_CHECK(AtomicU32::Load(r) == 88); MC_CHECK(AtomicU32::Inc(r) == 89 && AtomicU32::Dec(r) == 88 && AtomicU32::Add(r, 2) == 90 && AtomicU32::Sub(r, 90) == 0);
	// publication: a flag set after the data, seen before it
	int data = 0; atomic<bool> ready(false);
	mc::Th w([&]{ data = 3; ready = true; });
	mc::Th rd([&]{ if (ready) MC_CHECK(data == 3); });
	w.Join(); rd.Join();
	// competing exchanges: exactly one winner
	AtomicU32::Type c = 0; mc::Cell<int> winners;
	auto comp = [&](u32 me) { if (AtomicU32::CompareAndExchange(c, 0, me) == 0) ++winners; };
	mc::Th p([&]{ comp(1); }), q([&]{ comp(2); });
	p.Join(); q.Join();
	MC_CHECK(winners == 1);
	// concurrent stores: one of the stored values stays
	AtomicU32::Type st = 1;
	mc::Th s1([&]{ AtomicU32::Store(st, 10); }), s2([&]{ AtomicU32::Store(st, 20); });
	s1.Join(); s2.Join();
	const u32 fin = AtomicU32::Load(st); MC_CHECK(fin == 10 || fin == 20);
}

// Values that do not fit a machine word are guarded by a lock: always whole.
namespace { struct Wide { int a, b, c, d; explicit Wide(int x = 0) : a(x), b(x), c(x), d(x) { } }; }
MC_SCENARIO(atomic_wide, .Q(3))
{
	atomic<Wide> v(Wide(0));
	mc::Th a([&]{ v.store(Wide(1)); }), b([&]{ v.store(Wide(2)); });
	mc::Th c([&]{ const Wide w = v.load(); MC_CHECK_MSG(w.a == w.b && w.b == w.c && w.c == w.d, "torn value"); });
	a.Join(); b.Join(); c.Join();
}

// Numbers drawn from a shared sequence are unique and gapless, and grow within each thread.
MC_SCENARIO(sequence_numbers, .Q(3))
{
	IntegerSequenceGenerator<u32> g(5); u32 a[2] = { 0, 0 }, b[2] = { 0, 0 }, c;
	mc::Th t([&] { for (u32& x : a) x = g.Next(); }), u([&] { for (u32& x : b) x = g.Next(); });
	c = g.Next(); t.Join(); u.Join();
	u32 seen = 0; for (u32 x : { a[0], a[1], b[0], b[1], c }) { MC_CHECK(x >= 5 && x < 10); seen |= 1u << x; }
	MC_CHECK(seen == (31u << 5) && a[0] < a[1] && b[0] < b[1] && g.Next() == 10);
}
