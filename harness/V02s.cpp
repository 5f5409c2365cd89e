// V02: stored functions and adapters.
#include "V02s.h"

// ---- stored functions
namespace
{
	struct Counting : public function_info<int (int&, const Str&)>
	{
		Tr Id; mutable int Own;
		explicit Counting(int id) : Id(id), Own(0) { }
		int operator () (int& x, const Str& s) const
		{
			++g_calls;
			if (s == "throw")
				throw Boom(Id.Peek());
			x += Id.Peek();
			return Id.Peek() * 10 + int(s.size());
		}
	};
	struct Object { int V; explicit Object(int v) : V(v) { } int Method(int& x, const Str& s) { ++g_calls; if (s == "throw") throw Boom(V); x += V; return V * 10 + int(s.size()); } };
	int Plain(int& x, const Str& s) { ++g_calls; if (s == "throw") throw Boom(9); x += 9; return 90 + int(s.size()); }

	typedef function<int (int&, const Str&)> F;

	struct Slot { F Func; int Id; bool Null; size_t Group; Slot() : Func(&Plain), Id(9), Null(false), Group(0) { } };
}

SEQ_SCENARIO(stored, .Q(4).T(5).Split(2))
{
	g_live.clear();
	g_calls = 0;
	{
		Slot s[2];
		Object obj(4);
		const shared_ptr<Object> shared = make_shared_ptr<Object>(5);
		size_t groups = 0; std::set<size_t> alive;
		for (int step = 0; step < depth; ++step)
		{
			const bool second = step && seq::Flip();
			Slot& x = s[second]; Slot& y = s[!second];
			const int op = seq::Pick(12);
			SEQ_LOG("%d op %d", int(second), op);
			switch (op)
			{
			case 0: x.Func = Counting(step + 1); x.Id = step + 1; x.Null = false; x.Group = ++groups; break;
			case 1: { const Counting c(step + 1); x.Func = F(c); x.Id = step + 1; x.Null = false; x.Group = ++groups; break; }
			case 2: x.Func = &Plain; x.Id = 9; x.Null = false; x.Group = 0; break;
			case 3: x = y; break;
			case 4: if (x.Null) return; x.Func = F(x.Func); break;
			case 5: x.Func = std::move(y.Func); x.Id = y.Id; x.Null = y.Null; x.Group = y.Group; y.Null = true; y.Group = 0; break;
			case 6: std::swap(x, y); break;
			case 7: x.Func = Bind(&Object::Method, &obj, _1, _2); x.Id = 4; x.Null = false; x.Group = 0; break;
			case 8: x.Func = Bind(&Object::Method, shared, _1, _2); x.Id = 5; x.Null = false; x.Group = 0; break;
			case 9: x.Func = Bind(Counting(step + 1), _1, _2); x.Id = step + 1; x.Null = false; x.Group = ++groups; break;
			case 10: { if (y.Null) return; const function_storage st(y.Func); x.Func = st.ToFunction<int (int&, const Str&)>(); x.Id = y.Id; x.Null = false; x.Group = y.Group; break; }
			case 11: { if (x.Null) return; const F c(x.Func); int v = 0; if (c(v, "q") != x.Id * 10 + 1) seq::Fail("copy"); g_calls = 0; break; }
			}
			std::set<size_t> held;
			for (int i = 0; i < 2; ++i)
			{
				if (s[i].Group && !s[i].Null)
					held.insert(s[i].Group);
				if (s[i].Null)
					continue;
				int v = 100;
				const int r = s[i].Func(v, "abc");
				if (r != s[i].Id * 10 + 3 || v != 100 + s[i].Id || g_calls != 1)
					seq::Fail("function %d: result %d, argument %d, %d calls; target %d expected", i, r, v, g_calls, s[i].Id);
				g_calls = 0;
				int code = 0;
				try { s[i].Func(v, "throw"); } catch (const Boom& b) { code = b.Code; }
				if (code != s[i].Id || g_calls != 1)
					seq::Fail("function %d: exception %d instead of %d", i, code, s[i].Id);
				g_calls = 0;
			}
			if (g_live.size() != held.size())
				seq::Fail("%zu targets alive instead of %zu", g_live.size(), held.size());
			if (shared.use_count() != 1 + size_t((s[0].Id == 5 && !s[0].Null) || (s[1].Id == 5 && !s[1].Null)) && step < 4 && !(s[0].Id == 5 && s[1].Id == 5))
				seq::Fail("bound object counted %zu times", size_t(shared.use_count()));
		}
	}
	if (!g_live.empty())
		seq::Fail("%zu targets left", g_live.size());
}

// a stored target keeps its own state from call to call, and calling it never copies it
namespace
{
	struct Stateful : public function_info<int (int)>
	{
		mutable int Sum; Tr T; static int Copies;
		Stateful() : Sum(0), T(1) { }
		Stateful(const Stateful& o) : Sum(o.Sum), T(o.T) { ++Copies; }
		int operator () (int x) const { return Sum += x; }
	};
	int Stateful::Copies;
}

SEQ_SCENARIO(keeps_state, .Q(5).T(6))
{
	g_live.clear();
	{
		const int kind = seq::Pick(2);
		function<int (int)> f[2] = { kind ? function<int (int)>(Bind(Stateful(), _1)) : function<int (int)>(Stateful()), function<int (int)>(Stateful()) };
		int sum[2] = { 0, 0 }; bool same = false; Stateful::Copies = 0;
		for (int step = 0; step < depth; ++step)
		{
			const int op = seq::Pick(3);
			if (op == 2) { f[1] = f[0]; same = true; sum[1] = sum[0]; continue; }
			sum[op] += step + 1; if (same) sum[!op] = sum[op];
			const int got = f[op](step + 1); if (got != sum[op]) seq::Fail("step %d: function %d gives %d instead of %d", step, op, got, sum[op]);
		}
		if (Stateful::Copies) seq::Fail("the target was copied %d times", Stateful::Copies);
	}
	if (!g_live.empty()) seq::Fail("%zu targets left", g_live.size());
}

// four and five parameters of one type in every order
namespace
{
	struct Digits : public function_info<int (int, int, int, int)> { int operator () (int a, int b, int c, int d) const { ++g_calls; return a * 1000 + b * 100 + c * 10 + d; } };
	struct Digits5 : public function_info<int (int, int, int, int, int)> { int operator () (int a, int b, int c, int d, int e) const { ++g_calls; return a * 10000 + b * 1000 + c * 100 + d * 10 + e; } };
	template <int A, int B, int C, int D> void Order()
	{
		using namespace Detail; const int v[] = { 0, 6, 7, 8, 9 }; g_calls = 0; seq::Cases(1);
		const int want = v[A] * 1000 + v[B] * 100 + v[C] * 10 + v[D], got = Bind(Digits(), Placeholder<A>(), Placeholder<B>(), Placeholder<C>(), Placeholder<D>())(6, 7, 8, 9);
		if (got != want || g_calls != 1) seq::Fail("order %d%d%d%d gives %d instead of %d", A, B, C, D, got, want);
		const int five = Bind(Digits5(), Placeholder<A>(), 5, Placeholder<B>(), Placeholder<C>(), Placeholder<D>())(6, 7, 8, 9), due = v[A] * 10000 + 5000 + v[B] * 100 + v[C] * 10 + v[D];
		if (five != due) seq::Fail("order %d5%d%d%d gives %d instead of %d", A, B, C, D, five, due);
	}
	template <int A, int B, int C> void OrderEnds() { Order<A, B, C, 10 - A - B - C>(); }
	template <int A, int B> void OrderTwo() { enum { X = (A != 1 && B != 1) ? 1 : (A != 2 && B != 2) ? 2 : 3, Y = 10 - A - B - X }; OrderEnds<A, B, X>(); OrderEnds<A, B, Y>(); }
}

SEQ_SCENARIO(four_in_order, .Q(1).T(1))
{
	(void)depth;
	OrderTwo<1, 2>(); OrderTwo<1, 3>(); OrderTwo<1, 4>(); OrderTwo<2, 1>(); OrderTwo<2, 3>(); OrderTwo<2, 4>();
	OrderTwo<3, 1>(); OrderTwo<3, 2>(); OrderTwo<3, 4>(); OrderTwo<4, 1>(); OrderTwo<4, 2>(); OrderTwo<4, 3>();
	Order<1, 1, 2, 4>(); Order<4, 4, 4, 4>(); Order<4, 1, 4, 1>();
}

// ---- adapters
namespace
{
	struct Even : public function_info<bool (int)> { bool operator () (int x) const { ++g_calls; return x % 2 == 0; } };
	struct Twice : public function_info<int (int)> { int operator () (int x) const { ++g_calls; return 2 * x; } };
	struct Virtual { virtual ~Virtual() { } virtual int Get(int x) const { return x; } };
	struct Derived : public Virtual { Tr T; Derived() : T(3) { } int Get(int x) const override { return 1000 + x + T.Peek(); } };
	struct Pt { int X; Str Y; Pt(int x, const Str& y) : X(x), Y(y) { } };
	Str Join(int a, const Str& b) { ++g_calls; return std::to_string(a) + b; }
	Str& Ref(Str& s) { return s; }
	struct Packed { Str operator () (const Tuple<TypeList<int, Str, char>>& t) const { ++g_calls; return std::to_string(t.Get<0>()) + t.Get<1>() + t.Get<2>(); } };
}

SEQ_SCENARIO(adapters, .Q(1).T(1))
{
	g_live.clear();
	g_calls = 0;
	{
		const int n = seq::Pick(4) - 1;
		if (not_(Even())(n) != (n % 2 != 0) || g_calls != 1)
			seq::Fail("not_ of %d", n);
		if (not_(not_(Even()))(n) != (n % 2 == 0))
			seq::Fail("not_ twice of %d", n);
		if (stingray::negate(Twice())(n) != -2 * n)
			seq::Fail("negate of %d", n);
		NopFunctor()(1, "x", Tr(3));
		int v = 5;
		if (&make_assigner(v)(n) != &v || v != n)
			seq::Fail("assigner");
		Str text = "t";
		if (make_identity(text)(1, 2, 3) != "t" || make_identity(Str("u"))() != "u")
			seq::Fail("identity");
		const Pt pt = MakeInstance<Pt>()(n, "y");
		if (pt.X != n || pt.Y != "y")
			seq::Fail("instance");
		g_calls = 0;
		const Str joined = std::to_string(n) + "z";
		if (make_invoker(&Join)(MakeTuple(n, Str("z"))) != joined || make_invoker(&Join)(std::make_pair(n, Str("z"))) != joined || make_invoker(&Join)(KeyValuePair<int, Str>(n, "z")) != joined || g_calls != 3)
			seq::Fail("invoker");
		g_calls = 0;
		const function<Str (int, Str, char)> packed = PackArguments<Str (int, Str, char)>(vh::Fn<Str (const Tuple<TypeList<int, Str, char>>&)>([](const Tuple<TypeList<int, Str, char>>& t) { return Packed()(t); }));
		if (packed(n, "mid", 'c') != std::to_string(n) + "midc" || g_calls != 1)
			seq::Fail("packed arguments");

		Derived d;
		const Virtual& base = d;
		const shared_ptr<Virtual> sp = make_shared_ptr<Derived>();
		const int e = 1003 + n;
		if (Bind(&Virtual::Get, _1, _2)(base, n) != e || Bind(&Virtual::Get, &d, _1)(n) != e || Bind(&Virtual::Get, wrap_const_ref(base), _1)(n) != e || Bind(&Virtual::Get, sp, n)() != e || Bind(&Virtual::Get, _2, _1)(n, sp) != e)
			seq::Fail("method");
		bool refused = false;
		try { Bind(&Virtual::Get, _1, _2)(shared_ptr<Virtual>(), n); } catch (const NullPointerException&) { refused = true; }
		if (!refused)
			seq::Fail("method of a null object");
		Str target = "ref";
		if (&Bind(&Ref, _1)(target) != &target || &Bind(&Ref, wrap_ref(target))() != &target)
			seq::Fail("reference result");
		const function<Str& (Str&)> rf(&Ref);
		if (&rf(target) != &target)
			seq::Fail("reference result of function");

		// functions that are cancelled
		g_calls = 0;
		TaskLifeToken token;
		const auto c = MakeCancellableFunction(Twice(), token.GetExecutionTester());
		const function<int (int)> cf(c);
		const function<void (int)> vf(MakeCancellableFunction(function<void (int)>(Bind(Twice(), _1)), token.GetExecutionTester()));
		if (c(n) != 2 * n || cf(n) != 2 * n)
			seq::Fail("cancellable function");
		vf(n);
		if (g_calls != 3)
			seq::Fail("cancellable function called %d times", g_calls);
		token.Release();
		bool threw = false;
		try { cf(n); } catch (const std::exception&) { threw = true; }
		vf(n);
		if (!threw || g_calls != 3)
			seq::Fail("cancelled function called");
	}
	if (!g_live.empty())
		seq::Fail("%zu objects left", g_live.size());
}
