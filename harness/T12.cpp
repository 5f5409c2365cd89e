#include "../mc/mc.h"
#include <stingraykit/Singleton.h>
#include <stingraykit/SafeSingleton.h>
#include <stingraykit/PhoenixSingleton.h>
#include <stingraykit/thread/call_once.h>
#include <stingraykit/thread/Thread.h>
#include <stdexcept>
using namespace stingray;

namespace
{
	mc::Cell<int> g_calls, g_inside, g_done;
	int g_payload;

	STINGRAYKIT_DEFINE_ONCE_FLAG(g_flag);
	void Init()
	{
		MC_CHECK_MSG(++g_inside == 1, "initialiser runs twice at once");
		MC_CHECK_MSG(++g_calls == 1, "initialiser ran twice");
		mc::Point(); g_payload = 42; mc::Point();
		--g_inside; g_done = 1;
	}

	// what every kind of lazily created object does: count, and expose a value written last
	struct Counted
	{
		static mc::Cell<int> alive, created, destroyed, dying; static mc::Cell<int> exiting; static int failures;
		int value; int check;
		Counted() : value(0), check(0)
		{
			MC_CHECK_MSG(++alive == 1, "two instances at the same time");
			++created;
			if (failures > 0) { --failures; --alive; throw std::runtime_error("ctor"); }
			mc::Point(); value = 17; mc::Point(); check = 18;
		}
		~Counted() { dying = 1; mc::Point(); value = -1; check = -1; mc::Point(); --alive; ++destroyed; }
		void Use() const { MC_CHECK_MSG(value == 17 && check == 18, "incompletely constructed or destroyed object seen (%d, %d)", value, check); }
	};
	mc::Cell<int> Counted::alive, Counted::created, Counted::destroyed, Counted::dying, Counted::exiting; int Counted::failures = 0;

	class S1 : public Singleton<S1> { STINGRAYKIT_SINGLETON_WITH_TRIVIAL_CONSTRUCTOR(S1); public: Counted c; };
	struct S2 { Counted c; };
	class S3 : public PhoenixSingleton<S3> { STINGRAYKIT_PHOENIXSINGLETON(S3); S3() { } public: Counted c; };
}

MC_SCENARIO(call_once_race, .Q(3).ForkEach())
{
	auto user = [&]{ call_once(g_flag, &Init); MC_CHECK_MSG(g_done, "returned before the initialiser finished"); MC_CHECK(g_payload == 42); };
	mc::Th a(user), b(user), c(user);
	a.Join(); b.Join(); c.Join();
	MC_CHECK(g_calls == 1);
}

MC_SCENARIO(singleton_race, .Q(2).ForkEach())
{
	mc::Cell<uintptr_t> first;
	auto user = [&]{ S1& s = S1::Instance(); s.c.Use(); uintptr_t p = (uintptr_t)&s; if (!first) first = p; MC_CHECK(first == p); MC_CHECK(S1::IsAlive()); S1::Instance().c.Use(); };
	mc::Th a(user), b(user);
	a.Join(); b.Join();
	MC_CHECK(Counted::created == 1 && Counted::destroyed == 0);
	mc::RunAtExit();
	MC_CHECK_MSG(Counted::destroyed == 1, "destroyed %d times", (int)Counted::destroyed);
	MC_CHECK(Counted::created == 1);
}

MC_SCENARIO(singleton_failing_ctor, .Q(2).ForkEach())
{
	Counted::failures = 1;
	auto user = [&]{ bool thrown = false; try { S1::Instance(); } catch (const std::exception&) { thrown = true; } MC_CHECK_MSG(thrown, "instance handed out although construction failed"); };
	mc::Th a(user), b(user);
	a.Join(); b.Join();
	MC_CHECK_MSG(Counted::created == 1, "constructor ran %d times", (int)Counted::created);
	MC_CHECK(!S1::IsAlive());
}

MC_SCENARIO(safe_singleton_race, .Q(2).ForkEach())
{
	auto user = [&]{ shared_ptr<S2> s = SafeSingleton<S2>::Instance(); MC_CHECK(s); s->c.Use(); shared_ptr<S2> t = SafeSingleton<S2>::Instance(); MC_CHECK(s.get() == t.get()); };
	mc::Th a(user), b(user);
	a.Join(); b.Join();
	MC_CHECK(Counted::created == 1 && Counted::destroyed == 0);
}

// Program exit while users still hold or take it: destroyed once, after the last user, and never handed out again.
MC_SCENARIO(safe_singleton_exit, .Q(2).ForkEach())
{
	SafeSingleton<S2>::Instance();
	const bool hold = mc::Pick(2);
	shared_ptr<S2> held; if (hold) held = SafeSingleton<S2>::Instance();
	auto user = [&]{ shared_ptr<S2> s = SafeSingleton<S2>::Instance(); if (s) { s->c.Use(); mc::Point(); s->c.Use(); } else MC_CHECK(Counted::exiting); };
	mc::Th a(user), b(user);
	mc::Th c([&]{ Counted::exiting = 1; mc::RunAtExit(); });
	a.Join(); b.Join(); c.Join();
	if (hold) { MC_CHECK(Counted::destroyed == 0); held->c.Use(); held.reset(); }
	MC_CHECK_MSG(Counted::created == 1 && Counted::destroyed == 1, "created %d destroyed %d", (int)Counted::created, (int)Counted::destroyed);
	MC_CHECK(!SafeSingleton<S2>::Instance());
}

MC_SCENARIO(safe_singleton_failing_ctor, .Q(1).ForkEach())
{
	Counted::failures = 1;
	auto user = [&]{ MC_CHECK(!SafeSingleton<S2>::Instance() || Counted::created > 1); };
	mc::Th a(user), b(user);
	a.Join(); b.Join();
}

MC_SCENARIO(phoenix_race, .Q(2).ForkEach())
{
	mc::Cell<uintptr_t> first;
	auto user = [&]{ S3& s = S3::Instance(); s.c.Use(); uintptr_t p = (uintptr_t)&s; if (!first) first = p; MC_CHECK(first == p); S3::Instance().c.Use(); };
	mc::Th a(user), b(user);
	a.Join(); b.Join();
	MC_CHECK(Counted::created == 1 && Counted::destroyed == 0);
	mc::RunAtExit();
	MC_CHECK(Counted::destroyed == 1);
	// rises again, once, for two racing users
	mc::Th c([&]{ S3::Instance().c.Use(); }), d([&]{ S3::Instance().c.Use(); });
	c.Join(); d.Join();
	MC_CHECK(Counted::created == 2 && Counted::alive == 1);
	mc::RunAtExit();
	MC_CHECK(Counted::destroyed == 2 && Counted::alive == 0);
}

// whoever asks for it while it is being destroyed gets a new one, never the dying one
MC_SCENARIO(phoenix_exit, .Q(2).ForkEach())
{
	S3::Instance(); mc::Cell<int> asked;
	mc::Th a([&]{ mc::Point(); if (Counted::dying) { S3& s = S3::Instance(); s.c.Use(); asked = 1; } });
	mc::RunAtExit();
	a.Join();
	if (asked) S3::Instance().c.Use();
	mc::Outcome("%d %d", (int)asked, (int)Counted::created);
}

MC_SCENARIO(phoenix_failing_ctor, .Q(2).ForkEach())
{
	Counted::failures = 1;
	mc::Cell<int> thrown;
	auto user = [&]{ try { S3::Instance().c.Use(); } catch (const std::runtime_error&) { ++thrown; } };
	mc::Th a(user), b(user);
	a.Join(); b.Join();
	MC_CHECK(thrown == 1 && Counted::alive == 1);
}
