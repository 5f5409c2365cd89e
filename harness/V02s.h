// V02: calling through function, Bind and the functional adapters equals calling the target directly.
// parameters, and all sequences of copying, assigning and calling stored functions, with targets and arguments that count their lives.
#ifndef VERIF_V02S_H
#define VERIF_V02S_H
#include <seq/seq.h>
#include <harness/common.h>
#include <stingraykit/function/bind.h>
#include <stingraykit/function/function.h>
#include <stingraykit/function/functional.h>
#include <stingraykit/function/CancellableFunction.h>
#include <stingraykit/function/PackArguments.h>
#include <stingraykit/log/Logger.h>
#include <stingraykit/shared_ptr.h>
#include <set>

using namespace stingray;
typedef std::string Str;

namespace
{
	std::set<const void*> g_live;
	int g_calls;

	// an argument or a target's state: value semantics, counts lives, -1 is moved-from
	struct Tr
	{
		int V;
		Tr(int v) : V(v) { Born(); }
		Tr(const Tr& o) : V(o.Peek()) { Born(); }
		Tr(Tr&& o) : V(o.Peek()) { o.V = -1; Born(); }
		Tr& operator = (const Tr& o) { const int v = o.Peek(); Peek(); V = v; return *this; }
		Tr& operator = (Tr&& o) { const int v = o.Peek(); Peek(); o.V = -1; V = v; return *this; }
		~Tr() { if (!g_live.erase(this)) seq::Fail("destroyed something that is not alive"); V = -99; }
		void Born() { if (!g_live.insert(this).second) seq::Fail("constructed over a live object"); }
		int Peek() const { if (!g_live.count(this)) seq::Fail("used something that is not alive"); return V; }
	};

	struct Boom { int Code; explicit Boom(int c) : Code(c) { } };

	const void* g_addr[3];

	// mixes its arguments so that any exchange of them changes the result
	struct Target3 : public function_info<long (const Tr&, const Tr&, const Tr&)>
	{
		Tr State;
		explicit Target3(int s) : State(s) { }
		long operator () (const Tr& a, const Tr& b, const Tr& c) const
		{
			++g_calls;
			g_addr[0] = &a; g_addr[1] = &b; g_addr[2] = &c;
			return ((State.Peek() * 100L + a.Peek()) * 100 + b.Peek()) * 100 + c.Peek();
		}
	};

	struct TargetByValue : public function_info<long (Tr, Tr, Tr)>
	{
		Tr State;
		explicit TargetByValue(int s) : State(s) { }
		long operator () (Tr a, Tr b, Tr c) const { ++g_calls; return ((State.Peek() * 100L + a.Peek()) * 100 + b.Peek()) * 100 + c.Peek(); }
	};

	long Free3(const Tr& a, const Tr& b, const Tr& c) { ++g_calls; return ((7 * 100L + a.Peek()) * 100 + b.Peek()) * 100 + c.Peek(); }

	struct Inner : public function_info<Tr (const Tr&, const Tr&)>
	{ Tr operator () (const Tr& a, const Tr& b) const { return Tr((a.Peek() * 3 + b.Peek() * 5) % 97); } };

	// argument kinds: 0 bound value, 1..3 placeholder, 4 nested binder of the third and the first argument
	template <int K> struct Arg { static Detail::Placeholder<K> Make(int) { return Detail::Placeholder<K>(); } static int Value(int, const int* p) { return p[K - 1]; } };
	template <> struct Arg<0> { static Tr Make(int pos) { return Tr(11 + pos); } static int Value(int pos, const int*) { return 11 + pos; } };
	template <> struct Arg<4>
	{
		static auto Make(int pos) -> decltype(Bind(Inner(), Detail::Placeholder<3>(), Detail::Placeholder<1>())) { return Bind(Inner(), Detail::Placeholder<3>(), Detail::Placeholder<1>()); }
		static int Value(int, const int* p) { return (p[2] * 3 + p[0] * 5) % 97; }
	};

	void Expect(long got, long expected, const char* how, int shape)
	{
		if (got != expected)
			seq::Fail("shape %d, %s: result %ld instead of %ld", shape, how, got, expected);
		if (g_calls != 1)
			seq::Fail("shape %d, %s: called %d times", shape, how, g_calls);
		g_calls = 0;
	}

	template <typename B>
	void CallAll(const B& b, const int* p, long expected, int shape, bool repeated, const int* kinds, bool byRef)
	{
		Tr x(p[0]), y(p[1]), z(p[2]);
		Expect(b(x, y, z), expected, "lvalues", shape);
		if (byRef)
		{
			const void* const addr[] = { &x, &y, &z };
			for (int i = 0; i < 3; ++i)
				if (kinds[i] >= 1 && kinds[i] <= 3 && g_addr[i] != addr[kinds[i] - 1])
					seq::Fail("shape %d: argument %d not passed by reference", shape, i);
		}
		const Tr cx(p[0]), cy(p[1]), cz(p[2]);
		Expect(b(cx, cy, cz), expected, "constants", shape);
		if (x.V != p[0] || y.V != p[1] || z.V != p[2])
			seq::Fail("shape %d: arguments changed", shape);
		// forwarding a temporary to several parameters moves it several times
		if (!repeated || byRef)
			Expect(b(Tr(p[0]), Tr(p[1]), Tr(p[2])), expected, "temporaries", shape);
		B copy(b);
		Expect(copy(x, y, z), expected, "copy", shape);
		B moved(std::move(copy));
		Expect(moved(x, y, z), expected, "moved", shape);
		const function<long (const Tr&, const Tr&, const Tr&)> f(b);
		Expect(f(x, y, z), expected, "function", shape);
		const function<long (const Tr&, const Tr&, const Tr&)> f2(f);
		Expect(f2(x, y, z), expected, "function's copy", shape);
		if (!repeated || byRef)
		{
			const function<long (Tr, Tr, Tr)> v(b);
			Expect(v(x, y, z), expected, "function by value", shape);
			if (x.V != p[0] || y.V != p[1] || z.V != p[2])
				seq::Fail("shape %d: arguments changed through function by value", shape);
		}
		// a binder of a binder rotates the parameters
		Expect(Bind(f, _3, _1, _2)(y, z, x), expected, "binder of binder", shape);
		Expect(Bind(f, x, _1, z)(y), expected, "binder of binder with values", shape);
	}

	template <int S>
	void Shape()
	{
		const int A = S / 25, B = S / 5 % 5, C = S % 5;
		const int kinds[] = { A, B, C };
		const int p[] = { 21, 32, 43 };
		bool repeated = (A == 4) + (B == 4) + (C == 4) > 1;
		for (int k = 1; k <= 3; ++k)
			repeated = repeated || (A == k) + (B == k) + (C == k) + (k != 2 && (A == 4 || B == 4 || C == 4)) > 1;
		g_calls = 0;
		const long tail = (Arg<A>::Value(0, p) * 100L + Arg<B>::Value(1, p)) * 100 + Arg<C>::Value(2, p);
		const size_t before = g_live.size();
		CallAll(Bind(Target3(5), Arg<A>::Make(0), Arg<B>::Make(1), Arg<C>::Make(2)), p, 5000000 + tail, S, repeated, kinds, true);
		CallAll(Bind(&Free3, Arg<A>::Make(0), Arg<B>::Make(1), Arg<C>::Make(2)), p, 7000000 + tail, S, repeated, kinds, false);
		CallAll(Bind(TargetByValue(6), Arg<A>::Make(0), Arg<B>::Make(1), Arg<C>::Make(2)), p, 6000000 + tail, S, repeated, kinds, false);
		if (g_live.size() != before)
			seq::Fail("shape %d: %zu objects left", S, g_live.size());
	}

	// shapes Lo..S
	template <int S, int Lo> struct Dispatch { static void Run(int s) { if (s == S) Shape<S>(); else Dispatch<S - 1, Lo>::Run(s); } };
	template <int Lo> struct Dispatch<Lo, Lo> { static void Run(int) { Shape<Lo>(); } };
}

#endif
