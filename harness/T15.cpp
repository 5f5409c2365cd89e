// T15: an object pool shared between threads.
#include "../mc/mc.h"
#include "common.h"
#include <stingraykit/ObjectPool.h>
#include <stingraykit/Singleton.h>
#include <stingraykit/shared_ptr.h>
#include <stingraykit/unique_ptr.h>
using namespace stingray;

namespace
{
	struct Env { mc::Cell<int> dead, allowed; };
	struct Base { virtual ~Base() { } };
	struct Obj : public virtual Base
	{
		Env& e; mc::Cell<int> val;
		Obj(Env& e_, int v, bool free) : e(e_), val(v) { if (free) e.allowed = 1; }
		~Obj() { MC_CHECK_MSG(e.allowed, "collected while in use"); MC_CHECK_MSG(++e.dead == 1, "collected %d times", (int)e.dead); mc::Point(); MC_CHECK(val == 7); val = 0; }
	};
	typedef shared_ptr<Obj> ObjPtr;
	void Use(Env& e, const ObjPtr& p, int step) { MC_CHECK_MSG(e.dead == 0 && p->val == 7, "object gone while held (%d)", step); mc::Point(); MC_CHECK_MSG(e.dead == 0 && p->val == 7, "object gone while held (%d)", step); }
	ObjPtr Make(Env& e) { return ObjPtr(new Obj(e, 7, false)); }
}
// the user drops while the other thread collects (twice)
MC_SCENARIO(drop_vs_collect, .Q(4).Leaks())
{
	Env e; int last;
	{
		unique_ptr<ObjectPool> pool(new ObjectPool); ObjPtr p = Make(e); pool->AddObject(p);
		mc::Th t([&]{ pool->CollectGarbage(); pool->CollectGarbage(); });
		Use(e, p, 1); e.allowed = 1; p.reset();
		t.Join(); last = e.dead;
		pool->CollectGarbage(); MC_CHECK_MSG(e.dead == 1, "not collected although nobody holds it");
		pool->CollectGarbage(); MC_CHECK(e.dead == 1);
	}
	MC_CHECK(e.dead == 1); mc::Outcome("%d", last);
}
// held by a user for the whole time; copies are made and dropped
MC_SCENARIO(copy_vs_collect, .Q(4).Leaks())
{
	Env e;
	{
		ObjectPool pool; ObjPtr p = Make(e); pool.AddObject(p);
		mc::Th t([&]{ pool.CollectGarbage(); pool.CollectGarbage(); });
		{ ObjPtr q(p); Use(e, q, 1); p.reset(); Use(e, q, 2); ObjPtr r(q); q.reset(); Use(e, r, 3); p = r; }
		t.Join(); Use(e, p, 4); pool.CollectGarbage(); Use(e, p, 5);
		e.allowed = 1;
		if (mc::Pick(2)) { p.reset(); MC_CHECK(e.dead == 0); pool.CollectGarbage(); MC_CHECK(e.dead == 1); }
	}
	MC_CHECK(e.dead == 1);
}
// a weak reference is promoted while the pool collects
MC_SCENARIO(promote_vs_collect, .Q(4).Leaks())
{
	Env e; int got = 0; e.allowed = 1;
	{
		ObjectPool pool; weak_ptr<Obj> w; { ObjPtr p = Make(e); w = p; pool.AddObject(p); }
		mc::Th t([&]{ pool.CollectGarbage(); });
		if (ObjPtr q = w.lock()) { got = 1; Use(e, q, 1); }
		t.Join();
		MC_CHECK_MSG(got || e.dead == 1, "nobody held it during collection but it was not collected");
		pool.CollectGarbage(); MC_CHECK(e.dead == 1 && !w.lock());
	}
	MC_CHECK(e.dead == 1); mc::Outcome("%d", got);
}
MC_SCENARIO(add_vs_collect, .Q(3).Leaks())
{
	Env a, b, c;
	{
		unique_ptr<ObjectPool> pool(new ObjectPool); ObjPtr p = Make(a); pool->AddObject(p); b.allowed = 1;
		mc::Th t([&]{
			{ ObjPtr q = Make(b); pool->AddObject(q); Use(b, q, 1); }
			ObjPtr r = Make(c); pool->AddObject(r); Use(c, r, 2); c.allowed = 1; });
		pool->CollectGarbage(); Use(a, p, 3);
		pool->CollectGarbage(); Use(a, p, 4);
		t.Join(); a.allowed = 1; p.reset();
		if (mc::Pick(2)) { pool->CollectGarbage(); MC_CHECK(a.dead == 1 && b.dead == 1 && c.dead == 1); }
	}
	MC_CHECK_MSG(a.dead == 1 && b.dead == 1 && c.dead == 1, "destroyed %d %d %d times", (int)a.dead, (int)b.dead, (int)c.dead);
}
MC_SCENARIO(two_collectors, .Q(3).Leaks())
{
	Env a, b, c; b.allowed = 1;
	{
		ObjectPool pool; ObjPtr p = Make(a); { ObjPtr q = Make(b); pool.AddObject(q); } pool.AddObject(p); ObjPtr r = Make(c); pool.AddObject(r);
		mc::Th t([&]{ pool.CollectGarbage(); MC_CHECK_MSG(b.dead == 1, "collection left an object nobody holds"); Use(c, r, 1); c.allowed = 1; r.reset(); });
		pool.CollectGarbage(); MC_CHECK_MSG(b.dead == 1, "collection left an object nobody holds"); Use(a, p, 2); a.allowed = 1; p.reset();
		t.Join(); pool.CollectGarbage();
		MC_CHECK(a.dead == 1 && b.dead == 1 && c.dead == 1);
	}
}
// two pools share an object; it survives until both let go
MC_SCENARIO(two_pools, .Q(3).Leaks())
{
	Env a; int last;
	{
		ObjectPool p1, p2; { ObjPtr p = Make(a); p1.AddObject(p); p2.AddObject(shared_ptr<Base>(p)); }
		mc::Th t([&]{ p1.CollectGarbage(); }); p2.CollectGarbage(); t.Join();
		MC_CHECK_MSG(a.dead == 0, "an object held by another pool was collected"); last = 0; a.allowed = 1;
	}
	MC_CHECK_MSG(a.dead == 1, "destroyed %d times", (int)a.dead); mc::Outcome("%d", last);
}
// the pool goes away while a user still holds the object and drops it in another thread
MC_SCENARIO(destroy_vs_drop, .Q(4).Leaks())
{
	Env e; unique_ptr<ObjectPool> pool(new ObjectPool); ObjPtr p = Make(e); pool->AddObject(p); const int late = mc::Pick(2);
	mc::Th t([&]{ pool.reset(); });
	Use(e, p, 1); if (late) { t.Join(); Use(e, p, 2); }
	e.allowed = 1; p.reset();
	t.Join(); MC_CHECK_MSG(e.dead == 1, "destroyed %d times", (int)e.dead);
}
// a destructor run by the collection uses the pool
MC_SCENARIO(destructor_uses_pool, .Q(2).Leaks())
{
	struct Re { ObjectPool& pool; Env& e; Re(ObjectPool& p, Env& e_) : pool(p), e(e_) { } ~Re() { ObjPtr q = Make(e); e.allowed = 1; pool.AddObject(q); } };
	Env e, f; ObjPtr q = Make(f); f.allowed = 0;
	{
		ObjectPool pool; pool.AddObject(make_shared_ptr<Re>(pool, e)); pool.AddObject(q);
		mc::Th t([&]{ pool.CollectGarbage(); }); Use(f, q, 1); t.Join();
		Use(f, q, 2); f.allowed = 1; q.reset();
		pool.CollectGarbage(); MC_CHECK(e.dead == 1 && f.dead == 1);
	}
	MC_CHECK(e.dead == 1 && f.dead == 1);
}
