// T05: state delivered on subscription and every later change, under every interleaving.
#include "../mc/mc.h"
#include "common.h"
#include <stingraykit/ObservableValue.h>
#include <stingraykit/signal/signals.h>
#include <stingraykit/signal/SignalToFuture.h>
#include <stingraykit/signal/ValueFromSignalObtainer.h>
#include <stingraykit/thread/ThreadlessTaskExecutor.h>
#include <stingraykit/thread/DummyCancellationToken.h>
#include <stingraykit/function/bind.h>
using namespace stingray;

namespace
{
	// receives states 0,1,2,... of a counter that only ever steps by one
	struct Follower
	{
		mc::Cell<int> value, n, gone;
		Follower() : value(-1) { }
		void On(int v)
		{
			MC_CHECK_MSG(!gone, "notified after release");
			if (n) MC_CHECK_MSG(v == value + 1, "received %d after %d", v, (int)value);
			value = v; ++n;
		}
	};
	function<void (int)> To(Follower& f) { return Bind(&Follower::On, &f, _1); }

	struct Publisher
	{
		mutable int state; signal<void (int)> onChanged;
		Publisher() : state(0), onChanged(Bind(&Publisher::Populate, this, _1)) { }
		void Populate(const function<void (int)>& slot) const { slot(state); }
		void Step() { signal_locker l(onChanged); ++state; onChanged(state); }
	};
}

MC_SCENARIO(subscribe_vs_change, .Q(3))
{
	ObservableValue<int> v(0); Follower f; Token c;
	mc::Th a([&]{ v.Set(1); v.Set(2); });
	mc::Th b([&]{ c = v.OnChanged().connect(To(f)); MC_CHECK_MSG(f.n >= 1, "no state on connection"); });
	a.Join(); b.Join();
	MC_CHECK_MSG(f.value == 2, "follower ends with %d", (int)f.value); MC_CHECK(v.Get() == 2);
	v.Set(2); MC_CHECK_MSG(f.value == 2, "notified without a change");
	v.Set(3); MC_CHECK(f.value == 3);
	mc::Outcome("%d", (int)f.n);
}

MC_SCENARIO(own_signal_subscribe_vs_change, .Q(3))
{
	Publisher p; Follower f; Token c;
	mc::Th a([&]{ p.Step(); p.Step(); });
	mc::Th b([&]{ c = p.onChanged.connect(To(f)); MC_CHECK(f.n >= 1); });
	a.Join(); b.Join();
	MC_CHECK_MSG(f.value == 2, "follower ends with %d", (int)f.value);
	mc::Outcome("%d", (int)f.n);
}

MC_SCENARIO(two_subscribers, .Q(2))
{
	Publisher p; Follower f, g; Token c, d;
	mc::Th a([&]{ p.Step(); p.Step(); });
	mc::Th b([&]{ c = p.onChanged.connect(To(f)); });
	mc::Th e([&]{ d = p.onChanged.connect(To(g)); d.Reset(); g.gone = 1; });
	a.Join(); b.Join(); e.Join();
	MC_CHECK(f.value == 2);
	mc::Outcome("%d %d", (int)f.n, (int)g.value);
}

MC_SCENARIO(two_publishers, .Q(2))
{
	Publisher p; Follower f; Token c;
	mc::Th a([&]{ p.Step(); });
	mc::Th b([&]{ p.Step(); });
	mc::Th e([&]{ c = p.onChanged.connect(To(f)); });
	a.Join(); b.Join(); e.Join();
	MC_CHECK(f.value == 2);
	mc::Outcome("%d", (int)f.n);
}

// two setters of one observable value; reader sees a value somebody set; subscriber ends equal
MC_SCENARIO(two_setters, .Q(3))
{
	ObservableValue<int> v(0); mc::Cell<int> last; last = -1; mc::Cell<int> n;
	Token c = v.OnChanged().connect(vh::Fn<void (int)>([&](int x){ MC_CHECK_MSG(x != last, "notified without a change"); last = x; ++n; }));
	MC_CHECK(last == 0 && n == 1);
	mc::Th a([&]{ v.Set(1); });
	mc::Th b([&]{ v.Set(2); });
	a.Join(); b.Join();
	MC_CHECK_MSG(last == v.Get(), "subscriber has %d, value is %d", (int)last, v.Get()); MC_CHECK(n == 3);
}
MC_SCENARIO(same_value_twice, .Q(3))
{
	ObservableValue<int> v(0); mc::Cell<int> n;
	Token c = v.OnChanged().connect(vh::Fn<void (int)>([&](int x){ MC_CHECK(x == (n ? 1 : 0)); ++n; }));
	mc::Th a([&]{ v.Set(1); });
	mc::Th b([&]{ v = 1; });
	a.Join(); b.Join();
	MC_CHECK_MSG(n == 2, "%d notifications", (int)n);
}
// A string value is always seen whole.
MC_SCENARIO(whole_value, .Q(3))
{
	ObservableValue<std::string> v(std::string(40, 'a')); mc::Cell<int> ok;
	mc::Th a([&]{ v.Set(std::string(50, 'b')); });
	mc::Th b([&]{ std::string s = v.Get(); MC_CHECK(s == std::string(40, 'a') || s == std::string(50, 'b')); ok = s.size(); });
	a.Join(); b.Join();
	mc::Outcome("%d", (int)ok);
}
// Subscribing without the current state gives changes only.
MC_SCENARIO(without_state, .Q(3))
{
	Publisher p; Follower f; Token c; mc::Cell<int> at;
	mc::Th a([&]{ p.Step(); p.Step(); });
	mc::Th b([&]{ c = p.onChanged.connect(To(f), false); });
	a.Join(); b.Join();
	if (f.n) MC_CHECK(f.value == 2 && f.n <= 2);
	mc::Outcome("%d", (int)f.n);
}
// Asynchronous subscription: the state at the moment of connection, then every change, in order.
MC_SCENARIO(async_subscriber, .Q(2))
{
	Publisher p; Follower f; Token c; ThreadlessTaskExecutorPtr ex = make_shared_ptr<ThreadlessTaskExecutor>("x");
	mc::Th a([&]{ p.Step(); p.Step(); });
	mc::Th b([&]{ c = p.onChanged.connect(ex, To(f)); DummyCancellationToken t; ex->ExecuteTasks(t); MC_CHECK(f.n >= 1); });
	a.Join(); b.Join();
	DummyCancellationToken t; ex->ExecuteTasks(t);
	MC_CHECK_MSG(f.value == 2, "follower ends with %d", (int)f.value);
	mc::Outcome("%d", (int)f.n);
}
// One-off readings of the state.
MC_SCENARIO(obtain_vs_change, .Q(3))
{
	Publisher p; mc::Cell<int> got;
	mc::Th a([&]{ p.Step(); });
	mc::Th b([&]{ optional<int> v = GetValueFromSignal(p.onChanged.connector()); MC_CHECK(v && (*v == 0 || *v == 1)); got = *v; });
	a.Join(); b.Join();
	mc::Outcome("%d", (int)got);
}
// A future made from a signal gets exactly the first value emitted after it was made.
MC_SCENARIO(signal_to_future, .Q(2))
{
	signal<void (int)> s; mc::Cell<int> started; int got = -1;
	{
		SignalToFutureWrapper<int> w(s.connector());
		mc::Th a([&]{ s(1); s(2); });
		shared_future<int> f = w.GetFuture();
		got = f.get();
		a.Join();
		MC_CHECK(got == 1); MC_CHECK(f.get() == 1); MC_CHECK(w.GetFuture().get() == 1);
	}
}
// A subscriber that throws while receiving the state gets the rest of it and stays subscribed; nobody else is affected.
MC_SCENARIO(throwing_subscriber, .Q(2))
{
	struct List
	{
		int n; mc::Cell<int> errors; signal<void (int)> s;
		List() : n(3), s(Bind(&List::Populate, this, _1), vh::Fn<void (const std::exception&)>([this](const std::exception&){ ++errors; })) { }
		void Populate(const function<void (int)>& slot) const { for (int i = 0; i < n; ++i) slot(i); }
		void Add() { signal_locker l(s); s(n++); }
	} list;
	const int bad = mc::Pick(5); mc::Cell<int> mask, omask; Token c, d;
	auto on = [bad](mc::Cell<int>& m) { return [&m, bad](int v) {
		MC_CHECK_MSG(!(m & (1 << v)), "%d received twice", v); MC_CHECK_MSG((m >> v) == 0, "%d received late", v);
		m = m | (1 << v); if (v == bad) throw std::runtime_error("slot"); }; };
	mc::Th a([&]{ list.Add(); });
	mc::Th b([&]{ c = list.s.connect(vh::Fn<void (int)>(on(mask))); d = list.s.connect(vh::Fn<void (int)>(on(omask))); });
	a.Join(); b.Join();
	list.Add();
	MC_CHECK_MSG(mask == 31 && omask == 31, "received %d %d", (int)mask, (int)omask);
	MC_CHECK_MSG(list.errors == 2, "%d errors", (int)list.errors);
}
// A populator that fails does not prevent the subscription.
MC_SCENARIO(throwing_populator, .Q(2))
{
	mc::Cell<int> errors, n; Token c;
	signal<void (int)> s(vh::Fn<void (const function<void (int)>&)>([&](const function<void (int)>& slot){ slot(0); throw std::runtime_error("state"); }), vh::Fn<void (const std::exception&)>([&](const std::exception&){ ++errors; }));
	mc::Th a([&]{ c = s.connect(vh::Fn<void (int)>([&](int v){ MC_CHECK(v == n); ++n; })); });
	mc::Th b([&]{ s.SendCurrentState(vh::Fn<void (int)>([&](int v){ MC_CHECK(v == 0); throw std::runtime_error("slot"); })); });
	a.Join(); b.Join();
	s(1);
	MC_CHECK_MSG(n == 2 && errors == 3, "%d notifications, %d errors", (int)n, (int)errors);
}
// The value is already the new one while subscribers are being told of it.
MC_SCENARIO(value_during_notification, .Q(3))
{
	ObservableValue<int> v(0); Token c; mc::Cell<int> last, other;
	c = v.OnChanged().connect(vh::Fn<void (int)>([&](int x){ MC_CHECK_MSG(v.Get() == x, "told of %d while the value is %d", x, v.Get()); last = x; }));
	mc::Th a([&]{ v.Set(1); });
	mc::Th b([&]{ other = v.Get(); MutexLock l(v.GetSyncRoot()); MC_CHECK(v.Get() == last); });
	a.Join(); b.Join();
	MC_CHECK(last == 1);
	mc::Outcome("%d", (int)other);
}
// A value observed through a mutex shared with its owner.
MC_SCENARIO(shared_mutex, .Q(2))
{
	shared_ptr<Mutex> m = make_shared_ptr<Mutex>();
	ObservableValue<int> v(m, 0), w(m, 0); Token c; mc::Cell<int> x, y;
	MC_CHECK(&v.GetSyncRoot() == m.get());
	mc::Th a([&]{ MutexLock l(*m); v.Set(1); w.Set(1); });
	mc::Th b([&]{ MutexLock l(*m); x = v.Get(); y = w.Get(); MC_CHECK_MSG(x == y, "saw %d and %d", (int)x, (int)y); });
	mc::Th d([&]{ c = v.OnChanged().connect(vh::Fn<void (int)>([&](int s){ MC_CHECK(s == v.Get()); MC_CHECK_MSG(w.Get() == 0, "told of the change after the next one"); }), false); });
	a.Join(); b.Join(); d.Join();
	mc::Outcome("%d", (int)x);
}
// Populating only when the value differs from a default one, or never.
MC_SCENARIO(population_policies, .Q(3))
{
	ObservableValue<int, comparers::Equals, ObservableValuePolicies::ConditionalPopulation> v(0, ObservableValuePolicies::PopulateIfDiffers(1));
	ObservableValue<int, comparers::Equals, ObservableValuePolicies::DisabledPopulation> w(0);
	std::vector<int> got, none; Token c, d;
	mc::Th a([&]{ v.Set(1); v.Set(2); w.Set(1); });
	mc::Th b([&]{ c = v.OnChanged().connect(vh::Fn<void (int)>([&](int x){ got.push_back(x); })); });
	mc::Th e([&]{ d = w.OnChanged().connect(vh::Fn<void (int)>([&](int x){ none.push_back(x); })); });
	a.Join(); b.Join(); e.Join();
	MC_CHECK(got == (std::vector<int>{0, 1, 2}) || got == (std::vector<int>{2}));
	MC_CHECK(none.empty() || none == std::vector<int>{1});
	mc::Outcome("%d%d", (int)got.size(), (int)none.size());
}
// Collecting the whole state at one moment.
MC_SCENARIO(collect_vs_change, .Q(3))
{
	struct List
	{
		std::vector<int> v; signal<void (int)> s;
		List() : v(2, 0), s(Bind(&List::Populate, this, _1)) { v[1] = 1; }
		void Populate(const function<void (int)>& slot) const { for (size_t i = 0; i < v.size(); ++i) slot(v[i]); }
		void Add(int n) { signal_locker l(s); for (int i = 0; i < n; ++i) { v.push_back(v.size()); s(v.back()); } }
	} list;
	mc::Cell<int> got;
	mc::Th a([&]{ list.Add(2); });
	mc::Th b([&]{ std::vector<int> r = GetValuesFromSignal<std::vector<int>>(list.s.connector()); for (size_t i = 0; i < r.size(); ++i) MC_CHECK(r[i] == (int)i); got = r.size(); MC_CHECK(got == 2 || got == 4); });
	a.Join(); b.Join();
	mc::Outcome("%d", (int)got);
}
// Reading the state once, through every kind of reader: the first value published is the value, all of them are the collection.
MC_SCENARIO(one_off_readings, .Q(0).T(0))
{
	struct Pub
	{
		int n; CollectionOp op; signal<void (int)> s; signal<void (int, std::string)> two; signal<void (CollectionOp, int)> c; signal<void ()> z; signal<void (shared_ptr<int>)> ptr;
		Pub(int n_, CollectionOp op_) : n(n_), op(op_), s(Bind(&Pub::PopS, this, _1)), two(Bind(&Pub::PopTwo, this, _1)), c(Bind(&Pub::PopC, this, _1)), z(Bind(&Pub::PopZ, this, _1)), ptr(Bind(&Pub::PopP, this, _1)) { }
		void PopS(const function<void (int)>& f) const { for (int i = 0; i < n; ++i) f(i + 5); }
		void PopTwo(const function<void (int, std::string)>& f) const { for (int i = 0; i < n; ++i) f(i + 5, i ? "y" : "x"); }
		void PopC(const function<void (CollectionOp, int)>& f) const { for (int i = 0; i < n; ++i) f(i == 1 ? op : CollectionOp(CollectionOp::Added), i + 5); }
		void PopZ(const function<void ()>& f) const { for (int i = 0; i < n; ++i) f(); }
		void PopP(const function<void (shared_ptr<int>)>& f) const { for (int i = 0; i < n; ++i) f(i ? make_shared_ptr<int>(i + 5) : shared_ptr<int>()); }
	};
	const int n = mc::Pick(4), which = mc::Pick(3); const CollectionOp op = which == 0 ? CollectionOp::Added : which == 1 ? CollectionOp::Removed : CollectionOp::Updated; Pub p(n, op);
	std::vector<int> all; for (int i = 0; i < n; ++i) all.push_back(i + 5); std::vector<int> added = all; if (n > 1 && which) added.erase(added.begin() + 1);
	const optional<int> v = GetValueFromSignal(p.s.connector()); MC_CHECK(v.is_initialized() == (n > 0) && (!v || *v == 5));
	MC_CHECK(HasValueInSignal(p.s.connector()) == (n > 0) && HasValueInSignal(p.z.connector()) == (n > 0) && HasTupleInSignal(p.two.connector()) == (n > 0));
	const auto t = GetTupleFromSignal(p.two.connector()); MC_CHECK(t.is_initialized() == (n > 0)); if (t) { MC_CHECK(t->Get<0>() == 5); MC_CHECK(t->Get<1>() == "x"); }
	MC_CHECK(!GetValueFromSignal(p.ptr.connector()) && HasValueInSignal(p.ptr.connector()) == (n > 0));
	MC_CHECK(GetVectorFromSignal(p.s.connector()) == all && GetVectorFromSignal(p.c.connector()) == added && (GetValuesFromSignal<std::set<int>>(p.c.connector()) == std::set<int>(added.begin(), added.end())));
	signal<void (int)> none; signal<void (CollectionOp, int)> nonec; MC_CHECK(!GetValueFromSignal(none.connector()) && !HasValueInSignal(none.connector()) && GetVectorFromSignal(none.connector()).empty() && GetVectorFromSignal(nonec.connector()).empty());
	// readers connected for good
	ValueFromSignalObtainer<int> o; VectorFromSignalCollector<int> col; TupleFromSignalObtainer<int, std::string> to; ValueFromSignalObtainer<void> vo;
	auto throws = [](const function<void ()>& f) { try { f(); } catch (const std::exception&) { return true; } return false; };
	MC_CHECK(!o.HasValue() && throws(vh::Fn<void ()>([&]{ o.GetValue(); })) && !to.HasValues() && throws(vh::Fn<void ()>([&]{ to.GetValues(); })) && throws(vh::Fn<void ()>([&]{ to.GetValue<1>(); })) && !vo.HasValue() && col->empty());
	{ const Token a = p.s.connect(o), b = p.s.connect(col), d = p.two.connect(to), e = p.z.connect(vo); p.s(77); p.two(77, "z"); p.z(); }
	p.s(78); p.two(78, "w"); all.push_back(77);
	MC_CHECK(o.HasValue() && o.GetValue() == all[0] && *o.operator -> () == all[0] && col.GetValues() == all && vo.HasValue() && to.HasValues() && to.GetValue<0>() == all[0] && to.GetValues().Get<1>() == (n ? "x" : "z"));
	// a second value or a change which is not an addition is refused by the reader itself
	const function<void (int)> fo(o); MC_CHECK(throws(Bind(fo, 9)) && o.GetValue() == all[0]);
	const function<void (int, std::string)> ft(to); MC_CHECK(throws(Bind(ft, 9, std::string("q"))) && to.GetValue<0>() == all[0]);
	const function<void ()> fv(vo); MC_CHECK(throws(fv));
	ValuesFromSignalCollector<std::vector<int>> cc; const function<void (CollectionOp, int)> fc(cc); MC_CHECK(throws(Bind(fc, op, 3)) == (which != 0) && cc->size() == (which == 0));
	ValueFromSignalObtainer<int> fresh; const function<void (int)> ff(fresh); ff(3); MC_CHECK(fresh.GetValue() == 3);
}
