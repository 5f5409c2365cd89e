// T09: all operation sequences over two promises and their futures, against a reference model.
#include "../seq/seq.h"
#include <stingraykit/future.h>
#include <stingraykit/thread/CancellationToken.h>
#include <stingraykit/thread/TimedCancellationToken.h>
#include <memory>
#include <vector>
using namespace stingray;

namespace
{
	struct Value { int v; static int live; Value(int v_) : v(v_) { ++live; } Value(const Value& o) : v(o.v) { ++live; } ~Value() { --live; } };
	int Value::live = 0;
	template <typename T> struct Tr;
	template <> struct Tr<int>	{ static void Set(promise<int>& p, int v) { p.set_value(v); } template <typename F> static int Get(F& f) { return f.get(); } };
	template <> struct Tr<Value>	{ static void Set(promise<Value>& p, int v) { p.set_value(Value(v)); } template <typename F> static int Get(F& f) { return f.get().v; } };
	template <> struct Tr<void>	{ static void Set(promise<void>& p, int) { p.set_value(); } template <typename F> static int Get(F& f) { f.get(); return 1; } };
	int g_cells[3] = { 0, 1, 2 };
	template <> struct Tr<int&>	{ static void Set(promise<int&>& p, int v) { p.set_value(g_cells[v]); } template <typename F> static int Get(F& f) { int& r = f.get(); SEQ_CHECK_MSG(&r == &g_cells[r], "not the referenced object"); return r; } };

	struct State { int outcome; State() : outcome(0) { } }; // 0 none, 1,2 value, 11,12 exception, 90 broken
	typedef std::shared_ptr<State> StatePtr;

	template <typename F> int Outcome(const F& get)
	{
		try { return get(); }
		catch (const std::exception& ex)
		{
			const std::string s = ex.what();
			return s.find("first") != std::string::npos ? 11 : s.find("second") != std::string::npos ? 12 : s.find("Promise destroyed") != std::string::npos ? 90 : s.find("No async result") != std::string::npos ? -1 : 99;
		}
	}

	template <typename T> struct Fut { future<T> f; StatePtr m; Fut(const future<T>& f_, const StatePtr& m_) : f(f_), m(m_) { } };
	template <typename T> struct SFut { shared_future<T> f; StatePtr m; };

	template <typename T> void Check(shared_future<T>& f, const StatePtr& m)
	{
		SEQ_CHECK_MSG(f.valid() == (bool)m, "shared_future: valid() is %d", f.valid());
		if (!m)
		{
			SEQ_CHECK_MSG(Outcome([&]{ return Tr<T>::Get(f); }) == -1, "an empty shared_future gave a result"); return;
		}
		const int o = m->outcome;
		SEQ_CHECK_MSG(f.is_ready() == (o != 0), "is_ready %d, outcome %d", f.is_ready(), o);
		SEQ_CHECK_MSG(f.has_value() == (o == 1 || o == 2), "has_value %d, outcome %d", f.has_value(), o);
		SEQ_CHECK_MSG(f.has_exception() == (o > 2), "has_exception %d, outcome %d", f.has_exception(), o);
		CancellationToken c; c.Cancel();
		SEQ_CHECK_MSG(f.wait(c) == (o ? future_status::ready : future_status::cancelled), "wait with a cancelled token, outcome %d", o);
		SEQ_CHECK_MSG(f.wait(TimedCancellationToken(TimeDuration())) == (o ? future_status::ready : future_status::timeout), "wait with no time, outcome %d", o);
		if (o) { const int g = Outcome([&]{ return Tr<T>::Get(f); }); SEQ_CHECK_MSG(g == o || (o == 2 && g == 1 && IsSame<T, void>::Value), "got %d, outcome is %d", g, o); }
	}
	template <typename T> void Check(future<T>& f, const StatePtr& m)
	{
		SEQ_CHECK_MSG(f.valid() == (bool)m, "future: valid() is %d", f.valid());
		if (!m)
		{
			bool thrown = false; try { f.wait(); } catch (const std::exception&) { thrown = true; } SEQ_CHECK_MSG(thrown, "waiting for an empty future");
			thrown = false; try { f.is_ready(); } catch (const std::exception&) { thrown = true; } SEQ_CHECK(thrown);
			return;
		}
		const int o = m->outcome;
		SEQ_CHECK_MSG(f.is_ready() == (o != 0) && f.has_value() == (o == 1 || o == 2) && f.has_exception() == (o > 2), "future state, outcome %d", o);
		CancellationToken c; c.Cancel();
		SEQ_CHECK(f.wait(c) == (o ? future_status::ready : future_status::cancelled));
	}

	template <typename T> void Run(int depth)
	{
		const int live0 = Value::live;
		{
			std::unique_ptr<promise<T> > p[2]; StatePtr m[2]; bool retrieved[2];
			for (int i = 0; i < 2; ++i) { p[i].reset(new promise<T>); m[i] = std::make_shared<State>(); retrieved[i] = false; }
			std::vector<Fut<T> > fs; std::vector<SFut<T> > ss;
			for (int step = 0; step < depth; ++step)
			{
				const int i = seq::Pick(2), op = seq::Pick(9);
				if (op != 6 && op != 7 && op != 8 && !p[i]) return;
				switch (op)
				{
				case 0: case 1:
				{
					SEQ_LOG("p%d.set_value(%d)", i, op + 1);
					bool thrown = false; try { Tr<T>::Set(*p[i], op + 1); } catch (const PromiseAlreadySatisfied&) { thrown = true; }
					SEQ_CHECK_MSG(thrown == (m[i]->outcome != 0), "set_value %s", thrown ? "rejected" : "accepted twice");
					if (!m[i]->outcome) m[i]->outcome = op + 1;
					break;
				}
				case 2:
					SEQ_LOG("p%d.set_exception", i);
					p[i]->set_exception(MakeExceptionPtr(std::runtime_error(i ? "second" : "first")));
					if (!m[i]->outcome) m[i]->outcome = 11 + i;
					break;
				case 3:
				{
					SEQ_LOG("p%d.get_future", i);
					bool thrown = false; try { fs.push_back(Fut<T>(p[i]->get_future(), m[i])); } catch (const FutureAlreadyRetrieved&) { thrown = true; }
					SEQ_CHECK_MSG(thrown == retrieved[i], "get_future %s", thrown ? "refused" : "given out twice");
					retrieved[i] = true;
					break;
				}
				case 4:
					SEQ_LOG("destroy p%d", i);
					p[i].reset(); if (!m[i]->outcome) m[i]->outcome = 90;
					break;
				case 5:
					if (i || !p[1]) return;
					SEQ_LOG("swap");
					p[0]->swap(*p[1]); std::swap(m[0], m[1]); std::swap(retrieved[0], retrieved[1]);
					break;
				case 6:
					if ((size_t)i >= fs.size()) return;
					SEQ_LOG("f%d.share", i);
					{ SFut<T> s; s.f = fs[i].f.share(); s.m = fs[i].m; fs[i].m.reset(); ss.push_back(s); }
					break;
				case 7:
					if ((size_t)i >= fs.size() || (fs[i].m && !fs[i].m->outcome)) return;
					SEQ_LOG("f%d.get", i);
					{
						const int g = Outcome([&]{ return Tr<T>::Get(fs[i].f); });
						const int e = fs[i].m ? fs[i].m->outcome : -1;
						SEQ_CHECK_MSG(g == e || (e == 2 && g == 1 && IsSame<T, void>::Value), "got %d instead of %d", g, e);
						fs[i].m.reset();
					}
					break;
				case 8:
					if (ss.size() < 2 && !(ss.size() == 1 && i)) return;
					if (i) { SEQ_LOG("copy s0"); SFut<T> s(ss[0]); ss.push_back(s); }
					else { SEQ_LOG("swap s0 s1"); ss[0].f.swap(ss[1].f); std::swap(ss[0].m, ss[1].m); }
					break;
				}
				seq::Step();
				for (size_t j = 0; j < fs.size(); ++j) Check(fs[j].f, fs[j].m);
				for (size_t j = 0; j < ss.size(); ++j) Check(ss[j].f, ss[j].m);
			}
		}
		SEQ_CHECK_MSG(Value::live == live0, "%d values leaked", Value::live - live0);
	}
}
SEQ_SCENARIO(int_promise, .Q(5).T(7)) { Run<int>(depth); }
SEQ_SCENARIO(object_promise, .Q(5).T(7)) { Run<Value>(depth); }
SEQ_SCENARIO(void_promise, .Q(5).T(7)) { Run<void>(depth); }
SEQ_SCENARIO(reference_promise, .Q(5).T(7)) { Run<int&>(depth); }
