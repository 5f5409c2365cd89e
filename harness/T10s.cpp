// T10: all operation sequences over shared, weak, unique and self-counted pointers, compared step by step with std::shared_ptr.
#include "../seq/seq.h"
#include <stingraykit/dynamic_caster.h>
#include <stingraykit/self_counter.h>
#include <stingraykit/shared_ptr.h>
#include <stingraykit/unique_ptr.h>
#include <memory>
#include <vector>

namespace
{
	typedef std::vector<int> Log;
	struct Base { int id; Log* log; unsigned magic; Base(int i, Log* l) : id(i), log(l), magic(0xfeed) { } virtual ~Base() { SEQ_CHECK_MSG(magic == 0xfeed, "destroying a dead object"); magic = 0; if (log) log->push_back(id); } };
	struct Derived : public Base { Derived(int i, Log* l) : Base(i, l) { } };
	struct Del { Log* log; void operator () (Base* p) const { if (p) { log->push_back(-p->id); delete p; } else log->push_back(-999); } };
	Base g_static(100, 0);

	struct StdP
	{
		template <typename T> using S = std::shared_ptr<T>; template <typename T> using W = std::weak_ptr<T>; template <typename T> using U = std::unique_ptr<T>;
		template <typename T> static S<T> Make(int i, Log* l) { return std::make_shared<T>(i, l); }
		static S<Derived> Cast(const S<Base>& b) { return std::dynamic_pointer_cast<Derived>(b); }
		static bool Release(S<Base>& s) { if (s.use_count() != 1) return false; s.reset(); return true; }
		static S<Base> MoveAlias(S<Base>& s) { S<Base> a(s, &g_static); s.reset(); return a; } // C++20
		static void Reset(S<Base>& s, Base* b) { if (b) s.reset(b); else s.reset(); }
	};
	struct OurP
	{
		template <typename T> using S = stingray::shared_ptr<T>; template <typename T> using W = stingray::weak_ptr<T>; template <typename T> using U = stingray::unique_ptr<T>;
		template <typename T> static S<T> Make(int i, Log* l) { return stingray::make_shared_ptr<T>(i, l); }
		static S<Derived> Cast(const S<Base>& b) { return stingray::dynamic_caster(b); }
		static bool Release(S<Base>& s) { return s.release_if_unique(); }
		static S<Base> MoveAlias(S<Base>& s) { return S<Base>(std::move(s), &g_static); }
		static void Reset(S<Base>& s, Base* b) { s.reset(b); }
	};

	struct Op { int op, i, j; };
	template <typename P> struct World
	{
		typedef typename P::template S<Base> S; typedef typename P::template S<Derived> D; typedef typename P::template W<Base> W;
		Log log; int next; int kind; S s[2]; D d; W w[2]; bool flag;
		World(int k) : next(1), kind(k), flag(false) { s[0] = New(); w[0] = s[0]; }
		S New()
		{
			const int id = next++;
			switch (kind)
			{
			case 0: return S(new Base(id, &log));
			case 1: { typename P::template S<Derived> r(new Derived(id, &log)); return S(r); }
			case 2: { Del x; x.log = &log; return S(new Derived(id, &log), x); }
			case 3: return P::template Make<Base>(id, &log);
			case 4: return S(P::template Make<Derived>(id, &log));
			default: { typename P::template U<Derived> u(new Derived(id, &log)); return S(std::move(u)); }
			}
		}
		void Do(const Op& o)
		{
			const int i = o.i, j = o.j; flag = false;
			switch (o.op)
			{
			case 0: s[i] = New(); break;
			case 1: { const S& src = s[j]; s[i] = src; break; }
			case 2: if (i != j) s[i] = std::move(s[j]); break;
			case 3: P::Reset(s[i], 0); break;
			case 4: std::swap(s[0], s[1]); break;
			case 5: w[i] = s[j]; break;
			case 6: { const W& src = w[j]; w[i] = src; break; }
			case 7: if (i != j) w[i] = std::move(w[j]); break;
			case 8: s[i] = w[j].lock(); break;
			case 9: d = P::Cast(s[i]); break;
			case 10: s[i] = d; break;
			case 11: s[i] = std::move(d); break;
			case 12: flag = P::Release(s[i]); break;
			case 13: { S a(s[i], &g_static); s[j] = a; break; }
			case 14: w[i].reset(); break;
			case 15: { S c(s[i]); S m(std::move(c)); flag = c.get() == 0; w[j] = m; s[i].swap(m); break; }
			case 16: P::Reset(s[i], new Base(next++, &log)); break;
			case 17: { W v(d); W x(v); W y(std::move(v)); w[i].swap(x); flag = y.expired(); break; }
			case 18: { S a(P::MoveAlias(s[i])); flag = s[i].get() == 0; s[j] = std::move(a); break; }
			case 19: { S n = nullS(); s[i] = n; break; }
			}
		}
		static S nullS() { return S(); }
	};
	template <typename S> int Id(const S& s) { return s.get() ? (s.get()->magic == 0xfeed ? s.get()->id : -7) : 0; }
}

SEQ_SCENARIO(against_std, .Q(3).T(4))
{
	using namespace stingray;
	static const char* names[] = { "create", "copy", "move", "reset", "swap", "weak=strong", "weak copy", "weak move", "lock", "cast", "from derived", "move from derived", "release_if_unique", "alias", "weak reset", "ctors", "reset(new)", "weak ctors", "move alias", "null" };
	static const Op ops[] = {
		{0,0,0},{0,1,0},{1,0,1},{1,1,0},{1,0,0},{2,0,1},{2,1,0},{3,0,0},{3,1,0},{4,0,0},{5,0,0},{5,0,1},{5,1,0},{5,1,1},{6,0,1},{6,1,0},{6,0,0},{7,0,1},{7,1,0},
		{8,0,0},{8,0,1},{8,1,0},{8,1,1},{9,0,0},{9,1,0},{10,0,0},{10,1,0},{11,0,0},{11,1,0},{12,0,0},{12,1,0},{13,0,1},{13,1,1},{14,0,0},{14,1,0},{15,0,1},{15,1,0},{16,0,0},{16,1,0},{17,0,0},{17,1,0},{18,0,1},{18,1,1},{18,0,0},{19,0,0} };
	Log endOurs, endStd;
	{
		const int kind = seq::Pick(6);
		World<OurP> a(kind); World<StdP> b(kind);
		for (int step = 0; step < depth; ++step)
		{
			const Op& o = ops[seq::Pick(sizeof(ops) / sizeof(*ops))];
			SEQ_LOG("%s %d %d", names[o.op], o.i, o.j);
			a.Do(o); b.Do(o); seq::Step();
			for (int i = 0; i < 2; ++i)
			{
				SEQ_CHECK_MSG(Id(a.s[i]) == Id(b.s[i]), "s%d is %d, should be %d", i, Id(a.s[i]), Id(b.s[i]));
				SEQ_CHECK_MSG((bool)a.s[i] == (bool)b.s[i] && a.s[i].is_initialized() == (bool)b.s[i], "s%d truth value", i);
				SEQ_CHECK_MSG((long)a.s[i].use_count() == b.s[i].use_count(), "s%d use count %d, should be %ld", i, (int)a.s[i].use_count(), b.s[i].use_count());
				SEQ_CHECK_MSG(a.s[i].unique() == (b.s[i].use_count() == 1), "s%d unique", i);
				SEQ_CHECK_MSG(a.w[i].expired() == b.w[i].expired() && (long)a.w[i].use_count() == b.w[i].use_count(), "w%d expired %d, use count %d, should be %d, %ld", i, a.w[i].expired(), (int)a.w[i].use_count(), b.w[i].expired(), b.w[i].use_count());
				{ shared_ptr<Base> x = a.w[i].lock(); std::shared_ptr<Base> y = b.w[i].lock(); SEQ_CHECK_MSG(Id(x) == Id(y), "promoting w%d gives %d, should be %d", i, Id(x), Id(y)); }
				if (!a.s[i]) { bool thrown = false; try { (void)a.s[i]->id; } catch (const std::exception&) { thrown = true; } SEQ_CHECK_MSG(thrown, "null dereference not reported"); }
				SEQ_CHECK_MSG((a.s[i] == null) == !b.s[i], "comparison with null");
			}
			SEQ_CHECK_MSG((a.s[0] == a.s[1]) == (b.s[0] == b.s[1]), "comparison");
			SEQ_CHECK_MSG((a.s[0].owner_before(a.s[1]) || a.s[1].owner_before(a.s[0])) == (b.s[0].owner_before(b.s[1]) || b.s[1].owner_before(b.s[0])), "owner comparison");
			SEQ_CHECK_MSG((a.s[0].owner_before(a.w[0]) || a.w[0].owner_before(a.s[0])) == (b.s[0].owner_before(b.w[0]) || b.w[0].owner_before(b.s[0])), "owner comparison with weak");
			SEQ_CHECK_MSG(Id(a.d) == Id(b.d) && (long)a.d.use_count() == b.d.use_count(), "derived pointer");
			SEQ_CHECK_MSG(a.flag == b.flag, "%s answered %d", names[o.op], a.flag);
			SEQ_CHECK_MSG(a.log == b.log, "objects destroyed: %d, should be %d (last %d, should be %d)", (int)a.log.size(), (int)b.log.size(), a.log.empty() ? 0 : a.log.back(), b.log.empty() ? 0 : b.log.back());
		}
		for (int i = 0; i < 2; ++i) { a.s[i].reset(); b.s[i].reset(); SEQ_CHECK(a.log == b.log); a.w[i].reset(); b.w[i].reset(); }
		a.d.reset(); b.d.reset(); SEQ_CHECK_MSG(a.log == b.log, "objects destroyed in the end: %d, should be %d", (int)a.log.size(), (int)b.log.size());
	}
}

namespace
{
	struct Self : public stingray::self_counter<Self>
	{
		int id; Log* log; Self(int i, Log* l) : id(i), log(l) { } virtual ~Self() { log->push_back(id); }
		static int FailAt;
	};
	struct SelfD : public Self { SelfD(int i, Log* l) : Self(i, l) { } };
}
SEQ_SCENARIO(self_counted, .Q(4).T(5))
{
	using namespace stingray;
	Log log, mlog; int next = 1; self_count_ptr<Self> p[2]; self_count_ptr<SelfD> d; std::shared_ptr<int> m[2], md;
	auto dead = [&mlog](int* q) { mlog.push_back(*q); delete q; };
	{
		for (int step = 0; step < depth; ++step)
		{
			const int op = seq::Pick(12), i = seq::Pick(2), j = 1 - i;
			SEQ_LOG("op %d on %d", op, i);
			switch (op)
			{
			case 0: p[i].reset(new Self(next, &log)); m[i] = std::shared_ptr<int>(new int(next), dead); ++next; break;
			case 1: p[i] = p[j]; m[i] = m[j]; break;
			case 2: p[i] = std::move(p[j]); m[i] = std::move(m[j]); break;
			case 3: p[i].reset(); m[i].reset(); break;
			case 4: p[i].swap(p[j]); m[i].swap(m[j]); break;
			case 5: if (p[i]) { p[j] = p[i]->self_count_ptr_from_this(); m[j] = m[i]; } break;
			case 6: p[i] = null; m[i].reset(); break;
			case 7: { const self_count_ptr<Self>& s = p[i]; p[i] = s; break; }
			case 8: d = make_self_count_ptr<SelfD>(next, &log); md = std::shared_ptr<int>(new int(next), dead); ++next; p[i] = d; m[i] = md; break;
			case 9: if (i) { p[i] = d; m[i] = md; } else { p[i] = std::move(d); m[i] = std::move(md); } break;
			case 10: d.reset(); md.reset(); if (p[i] && dynamic_cast<SelfD*>(p[i].get())) { d = self_count_ptr<SelfD>(p[i], static_cast_tag()); md = m[i]; } break;
			case 11: { self_count_ptr<Self> c(p[i]); self_count_ptr<Self> v(std::move(c)); SEQ_CHECK(!c); self_count_ptr<const Self> k(v); p[j] = v; m[j] = m[i]; SEQ_CHECK((bool)k == (bool)m[i]); break; }
			}
			seq::Step();
			for (int k = 0; k < 2; ++k)
			{
				SEQ_CHECK_MSG((bool)p[k] == (bool)m[k] && (!m[k] || p[k]->id == *m[k]), "p%d", k);
				SEQ_CHECK_MSG((long)p[k].use_count() == m[k].use_count() && p[k].unique() == (m[k].use_count() == 1), "p%d use count %d, should be %ld", k, (int)p[k].use_count(), m[k].use_count());
				if (!p[k]) { bool thrown = false; try { (void)p[k]->id; } catch (const std::exception&) { thrown = true; } SEQ_CHECK_MSG(thrown, "null dereference not reported"); }
			}
			SEQ_CHECK_MSG((bool)d == (bool)md && (!md || d->id == *md), "d");
			SEQ_CHECK_MSG(log == mlog, "%d objects destroyed, should be %d", (int)log.size(), (int)mlog.size());
		}
	}
	p[0].reset(); m[0].reset(); SEQ_CHECK(log == mlog); p[1].reset(); m[1].reset(); SEQ_CHECK(log == mlog); d.reset(); md.reset(); SEQ_CHECK_MSG(log == mlog, "%d objects destroyed, should be %d", (int)log.size(), (int)mlog.size());
}
SEQ_SCENARIO(unique, .Q(4).T(6))
{
	using namespace stingray;
	Log log, mlog; int next = 1; unique_ptr<Base> p[2]; std::unique_ptr<Base> m[2];
	for (int step = 0; step < depth; ++step)
	{
		const int op = seq::Pick(9), i = seq::Pick(2), j = 1 - i;
		SEQ_LOG("op %d on %d", op, i);
		switch (op)
		{
		case 0: p[i].reset(new Base(next, &log)); m[i].reset(new Base(next, &mlog)); ++next; break;
		case 1: p[i] = make_unique_ptr<Derived>(next, &log); m[i].reset(new Derived(next, &mlog)); ++next; break;
		case 2: p[i] = std::move(p[j]); m[i] = std::move(m[j]); break;
		case 3: p[i].reset(); m[i].reset(); break;
		case 4: p[i].swap(p[j]); m[i].swap(m[j]); break;
		case 5: { Base* x = p[i].release(); Base* y = m[i].release(); SEQ_CHECK((x != 0) == (y != 0)); delete x; delete y; break; }
		case 6: { unique_ptr<Base> t(std::move(p[i])); std::unique_ptr<Base> u(std::move(m[i])); SEQ_CHECK((bool)t == (bool)u); break; }
		case 7: { unique_ptr<Derived> t(new Derived(next, &log)); std::unique_ptr<Derived> u(new Derived(next, &mlog)); ++next; p[i] = std::move(t); m[i] = std::move(u); SEQ_CHECK(!t); break; }
		case 8: { shared_ptr<Base> t(std::move(p[i])); std::shared_ptr<Base> u(std::move(m[i])); SEQ_CHECK((bool)t == (bool)u && (int)t.use_count() == u.use_count()); break; }
		}
		seq::Step();
		for (int k = 0; k < 2; ++k) SEQ_CHECK_MSG((bool)p[k] == (bool)m[k] && (!m[k] || p[k]->id == m[k]->id), "p%d", k);
		SEQ_CHECK_MSG(log == mlog, "%d objects destroyed, should be %d", (int)log.size(), (int)mlog.size());
	}
	for (int k = 0; k < 2; ++k) { p[k].reset(); m[k].reset(); SEQ_CHECK(log == mlog); }
}
