// T10: shared, weak and self-counted pointers under every interleaving.
#include "../mc/mc.h"
#include "common.h"
#include <stingraykit/dynamic_caster.h>
#include <stingraykit/self_counter.h>
#include <stingraykit/shared_ptr.h>
#include <stingraykit/unique_ptr.h>
using namespace stingray;

namespace
{
	struct Base
	{
		mc::Cell<int>* dead; int data;
		Base(mc::Cell<int>* d) : dead(d), data(0x1234) { }
		virtual ~Base() { MC_CHECK_MSG(++*dead == 1, "destroyed twice"); MC_CHECK_MSG(data == 0x1234, "destroyed object is damaged"); data = 0; }
		void Use() { MC_CHECK_MSG(*dead == 0, "used after destruction"); MC_CHECK(data == 0x1234); mc::Point(); MC_CHECK_MSG(*dead == 0, "destroyed while in use"); }
	};
	struct Derived : public Base { int more; Derived(mc::Cell<int>* d) : Base(d), more(7) { } };
	struct Deleter { mc::Cell<int>* calls; void operator () (Base* p) const { MC_CHECK_MSG(++*calls == 1, "deleter called twice"); delete p; } };
	shared_ptr<Base> Make(mc::Cell<int>* dead, mc::Cell<int>* calls)
	{
		switch (mc::Pick(4))
		{
		case 0: return shared_ptr<Base>(new Base(dead));
		case 1: return make_shared_ptr<Derived>(dead);
		case 2: { Deleter d; d.calls = calls; return shared_ptr<Base>(new Base(dead), d); }
		default: return shared_ptr<Base>(make_unique_ptr<Derived>(dead));
		}
	}
}

MC_SCENARIO(copies_in_three_threads, .Q(3).Leaks())
{
	mc::Cell<int> dead, calls;
	{
		shared_ptr<Base> p = Make(&dead, &calls);
		mc::Th a([p]() mutable { shared_ptr<Base> q(p); p.reset(); q->Use(); q.reset(); });
		mc::Th b([p]() mutable { shared_ptr<Base> q; q = p; q->Use(); shared_ptr<Base> r(std::move(q)); r->Use(); p.reset(); r->Use(); });
		p->Use(); p.reset();
		a.Join(); b.Join();
		MC_CHECK_MSG(dead == 1, "destroyed %d times", (int)dead);
	}
	MC_CHECK(dead == 1);
}
MC_SCENARIO(promote_vs_last_drop, .Q(4).Leaks())
{
	mc::Cell<int> dead, calls, got;
	{
		shared_ptr<Base> p = Make(&dead, &calls); weak_ptr<Base> w(p);
		mc::Th a([&]{ shared_ptr<Base> q = w.lock(); if (q) { got = 1; q->Use(); q.reset(); } });
		p.reset();
		if (w.expired()) MC_CHECK_MSG(!w.lock(), "expired reference came back");
		a.Join();
		MC_CHECK_MSG(dead == 1, "destroyed %d times", (int)dead); MC_CHECK(w.expired() && !w.lock());
	}
	mc::Outcome("%d", (int)got);
}
MC_SCENARIO(two_promoters, .Q(3).Leaks())
{
	mc::Cell<int> dead, calls, n;
	{
		shared_ptr<Base> p = Make(&dead, &calls);
		{
			const weak_ptr<Base> w1(p), w2(w1);
			mc::Th a([&]{ shared_ptr<Base> q = w1.lock(); if (q) { ++n; q->Use(); } });
			mc::Th b([w2, &n]{ shared_ptr<Base> q = w2.lock(); if (q) { ++n; q->Use(); } });
			p.reset();
			a.Join(); b.Join();
			MC_CHECK(!w1.lock());
		}
		MC_CHECK_MSG(dead == 1, "destroyed %d times", (int)dead);
	}
	mc::Outcome("%d", (int)n);
}
// while a strong reference is held, promotion must succeed
MC_SCENARIO(promote_while_held, .Q(3))
{
	mc::Cell<int> dead, calls;
	shared_ptr<Base> p = Make(&dead, &calls); weak_ptr<Base> w(p);
	mc::Th a([&]{ shared_ptr<Base> q = w.lock(); MC_CHECK_MSG(q, "promotion fails while the object is owned"); q->Use(); });
	mc::Th b([&]{ weak_ptr<Base> v(w); shared_ptr<Base> q = v.lock(); MC_CHECK(q); q->Use(); });
	p->Use();
	a.Join(); b.Join();
	MC_CHECK(dead == 0 && p.unique());
}
MC_SCENARIO(weak_outlives, .Q(4).Leaks())
{
	mc::Cell<int> dead, calls;
	{
		shared_ptr<Base> p = Make(&dead, &calls);
		mc::Th a; { weak_ptr<Base> w(p); a = mc::Th([w]() mutable { weak_ptr<Base> v; v = w; w.reset(); shared_ptr<Base> q = v.lock(); if (q) q->Use(); }); }
		p.reset();
		a.Join();
	}
	MC_CHECK_MSG(dead == 1, "destroyed %d times", (int)dead);
}
MC_SCENARIO(release_if_unique_vs_promote, .Q(4).Leaks())
{
	mc::Cell<int> dead, calls, got; bool r;
	{
		shared_ptr<Base> p = Make(&dead, &calls); weak_ptr<Base> w(p);
		mc::Th a([&]{ shared_ptr<Base> q = w.lock(); if (q) { got = 1; q->Use(); } });
		r = p.release_if_unique();
		MC_CHECK(r == !p); if (p) p->Use(); else MC_CHECK(dead == 1);
		a.Join();
		if (!r) MC_CHECK_MSG(got, "refused although unique");
		p.reset();
	}
	MC_CHECK_MSG(dead == 1, "destroyed %d times", (int)dead);
	mc::Outcome("%d", r);
}
MC_SCENARIO(release_if_unique_vs_drop, .Q(4).Leaks())
{
	mc::Cell<int> dead, calls; bool r1 = false, r2 = false;
	{
		shared_ptr<Base> p = Make(&dead, &calls), q(p);
		mc::Th a([&]{ r1 = q.release_if_unique(); if (!r1) q.reset(); });
		r2 = p.release_if_unique(); if (!r2) p.reset();
		a.Join();
	}
	MC_CHECK_MSG(dead == 1, "destroyed %d times", (int)dead); MC_CHECK(!(r1 && r2));
	mc::Outcome("%d%d", r1, r2);
}
MC_SCENARIO(casts_and_aliases, .Q(3).Leaks())
{
	mc::Cell<int> dead;
	{
		shared_ptr<Base> p = make_shared_ptr<Derived>(&dead);
		mc::Th a([&dead, p]() mutable { shared_ptr<Derived> d = dynamic_caster(p); MC_CHECK(d && d->more == 7); p.reset(); d->Use(); });
		shared_ptr<int> i(p, &p->data); p.reset();
		MC_CHECK_MSG(dead == 0 && *i == 0x1234, "aliased object destroyed"); i.reset();
		a.Join();
	}
	MC_CHECK_MSG(dead == 1, "destroyed %d times", (int)dead);
}
// what an owner wrote before dropping is visible to the destroyer
MC_SCENARIO(publication, .Q(3))
{
	struct Obj { int a, b; mc::Cell<int>* ok; ~Obj() { *ok = a + b; } };
	mc::Cell<int> ok;
	{
		shared_ptr<Obj> p(new Obj); p->a = p->b = 0; p->ok = &ok;
		mc::Th a([p]() mutable { p->a = 1; p.reset(); });
		mc::Th b([p]() mutable { p->b = 2; p.reset(); });
		p.reset();
	}
	MC_CHECK_MSG(ok == 3, "destroyer saw %d", (int)ok);
}

// ---- self-counted
namespace
{
	struct Self : public self_counter<Self>
	{
		mc::Cell<int>* dead; int data;
		Self(mc::Cell<int>* d) : dead(d), data(5) { }
		~Self() { MC_CHECK_MSG(++*dead == 1, "destroyed twice"); data = 0; }
		void Use() const { MC_CHECK_MSG(*dead == 0 && data == 5, "used after destruction"); mc::Point(); MC_CHECK_MSG(*dead == 0, "destroyed while in use"); }
	};
}
MC_SCENARIO(self_counted_copies, .Q(3).Leaks())
{
	mc::Cell<int> dead;
	{
		self_count_ptr<Self> p(new Self(&dead));
		mc::Th a([p]() mutable { self_count_ptr<const Self> q(p); p.reset(); q->Use(); });
		mc::Th b([p]() mutable { self_count_ptr<Self> q; q = std::move(p); q->Use(); });
		{ self_count_ptr<Self> own = p->self_count_ptr_from_this(); p.reset(); own->Use(); }
		a.Join(); b.Join();
		MC_CHECK_MSG(dead == 1, "destroyed %d times", (int)dead);
	}
	MC_CHECK(dead == 1);
}
MC_SCENARIO(self_counted_self_handle, .Q(3).Leaks())
{
	mc::Cell<int> dead;
	{
		self_count_ptr<Self> p(new Self(&dead)); Self* raw = p.get(); (void)raw;
		mc::Th a([p]() mutable { self_count_ptr<Self> q = p->self_count_ptr_from_this(); p.reset(); q->Use(); q.reset(); });
		p->Use(); p = null;
		a.Join();
	}
	MC_CHECK_MSG(dead == 1, "destroyed %d times", (int)dead);
}
