// V01: optional, variant and any hold exactly the value last put into them, and every contained object is constructed and
// destroyed once; all operation sequences over two holders, with constructors that throw, against plain models.
#include <seq/seq.h>
#include <harness/common.h>
#include <stingraykit/optional.h>
#include <stingraykit/variant.h>
#include <stingraykit/VariantMultidispatch.h>
#include <stingraykit/any.h>
#include <stingraykit/Tuple.h>
#include <stingraykit/TypeErasure.h>
#include <stingraykit/lazy.h>
#include <stingraykit/factory/Factory.h>
#include <stingraykit/log/Logger.h>
#include <set>

using namespace stingray;
typedef std::string Str;

namespace stingray { void Factory::RegisterTypes(const FactoryContextPtr&) { } }

namespace
{
	struct Boom : public std::runtime_error { Boom() : std::runtime_error("boom") { } };

	struct Registry
	{
		std::set<const void*> Live; int Throw;	// 1: the next construction throws an exception, 2: something else
		static Registry& Get() { static Registry r; return r; }
		void Reset() { Live.clear(); Throw = 0; }
		void Maybe() { const int t = Throw; Throw = 0; if (t == 1) throw Boom(); if (t == 2) throw 5; }
		void Born(const void* p) { if (!Live.insert(p).second) seq::Fail("constructed over a live object"); }
		void Dead(const void* p) { if (!Live.erase(p)) seq::Fail("destroyed something that is not alive"); }
		void Use(const void* p) { if (!Live.count(p)) seq::Fail("used something that is not alive"); }
	};

	// Obj<K> counts as of type K; -1 is the moved-from value
	template <int K>
	struct Obj
	{
		int V; int Pad[K];
		Obj() : V(7) { Registry::Get().Born(this); }
		explicit Obj(int v) : V(v) { Registry::Get().Maybe(); Registry::Get().Born(this); }
		Obj(const Obj& o) : V(o.Peek()) { Registry::Get().Maybe(); Registry::Get().Born(this); }
		Obj(Obj&& o) : V(o.Peek()) { o.V = -1; Registry::Get().Born(this); }
		~Obj() { Registry::Get().Dead(this); V = -99; }
		Obj& operator = (const Obj& o) { const int v = o.Peek(); Peek(); Registry::Get().Maybe(); V = v; return *this; }
		Obj& operator = (Obj&& o) { const int v = o.Peek(); Peek(); o.V = -1; V = v; return *this; }
		int Peek() const { Registry::Get().Use(this); return V; }
		bool operator < (const Obj& o) const { return Peek() < o.Peek(); }
		bool operator == (const Obj& o) const { return Peek() == o.Peek(); }
	};
	typedef Obj<1> A;
	typedef Obj<30> B;

	// exception injection: 0 none
	template <typename F>
	int Guard(int inject, const F& f)
	{
		Registry::Get().Throw = inject;
		int r = 0;
		try { f(); }
		catch (const Boom&) { r = 1; }
		catch (int) { r = 2; }
		if (r && r != inject)
			seq::Fail("wrong exception");
		Registry::Get().Throw = 0;
		return r;
	}

	bool g_deep = true;	// also try the refused accesses (slow)

	void CheckLive(size_t expected)
	{
		if (Registry::Get().Live.size() != expected)
			seq::Fail("%zu objects alive instead of %zu", Registry::Get().Live.size(), expected);
	}


	// ---- optional
	typedef optional<A> O;
	typedef std::pair<bool, int> M;	// model: engaged, value

	int Expect(const M& l, const M& r)
	{
		if (!l.first || !r.first)
			return int(l.first) - int(r.first);
		return l.second < r.second ? -1 : l.second > r.second;
	}

	Str Show(const M& m) { return m.first ? std::to_string(m.second) : "none"; }

	void Verify(O& o, const M& m, const char* who)
	{
		const O& c = o;
		if (c.is_initialized() != m.first || bool(c) != m.first)
			seq::Fail("%s is engaged: %d, expected %s", who, int(c.is_initialized()), Show(m).c_str());
		if (m.first)
		{
			if (c.get().Peek() != m.second || (*c).Peek() != m.second || c->Peek() != m.second || o->Peek() != m.second || c.get_ptr()->Peek() != m.second)
				seq::Fail("%s holds %d instead of %d", who, c.get().Peek(), m.second);
		}
		else
		{
			bool refused = false;
			try { c.get(); } catch (const NotInitializedException&) { refused = true; }
			if (!refused)
				seq::Fail("access to empty %s not refused", who);
		}
	}

	void CompareOptionals(const O& l, const O& r, const M& ml, const M& mr)
	{
		const int e = Expect(ml, mr);
		const int c = l.Compare(r), c2 = comparers::Cmp()(l, r);
		if ((c > 0) - (c < 0) != e || (c2 > 0) - (c2 < 0) != e || (l == r) != (e == 0) || (l != r) != (e != 0) || (l < r) != (e < 0) || (l > r) != (e > 0) || (l <= r) != (e <= 0) || (l >= r) != (e >= 0))
			seq::Fail("%s and %s compare wrongly (Compare %d)", Show(ml).c_str(), Show(mr).c_str(), c);
		if ((l == null) != !ml.first || (null == l) != !ml.first || (l != null) != ml.first || (null != l) != ml.first || (null < l) != ml.first || (l > null) != ml.first || (l < null) || (l <= null) != !ml.first || !(l >= null))
			seq::Fail("%s compares wrongly to null", Show(ml).c_str());
		if (mr.first)
		{
			const A& v = *r;
			if ((l == v) != (e == 0) || (v == l) != (e == 0) || (l != v) != (e != 0) || (l < v) != (e < 0) || (l > v) != (e > 0) || (l <= v) != (e <= 0) || (l >= v) != (e >= 0) || (v < l) != (e > 0) || (v > l) != (e < 0))
				seq::Fail("%s compares wrongly to value %d", Show(ml).c_str(), mr.second);
		}
	}
}

SEQ_SCENARIO(optionals, .Q(3).T(4).Split(2))
{
	Registry::Get().Reset();
	{
		O a, b; M ma(false, 0), mb(false, 0);
		for (int step = 0; step < depth; ++step)
		{
			const bool second = step && seq::Flip();	// by symmetry
			O& x = second ? b : a; O& y = second ? a : b; M& mx = second ? mb : ma; M& my = second ? ma : mb;
			const int op = seq::Pick(21);
			const int inj = op < 6 ? seq::Pick(3) : 0;
			SEQ_LOG("%s op %d inject %d", second ? "b" : "a", op, inj);
			const M old = mx;
			int thrown = 0;
			switch (op)
			{
			case 0: { const A v = A(step + 1); thrown = Guard(inj, [&]{ x = v; }); if (!thrown) mx = M(true, step + 1); break; }
			case 1: thrown = Guard(inj, [&]{ x = y; }); if (!thrown) mx = my; break;
			case 2: thrown = Guard(inj, [&]{ x = x; }); break;
			case 3: thrown = Guard(inj, [&]{ x.emplace(step + 1); }); mx = thrown ? M(false, 0) : M(true, step + 1); break;
			case 4: thrown = Guard(inj, [&]{ O c(x); Verify(c, mx, "copy"); CheckLive(mx.first * 2 + my.first); }); break;
			case 5: if (!my.first) return; thrown = Guard(inj, [&]{ x = *y; }); if (!thrown) mx = my; break;
			case 6: x = A(step + 1); mx = M(true, step + 1); break;
			case 7: x = std::move(y); mx = my; if (my.first) my.second = -1; break;
			case 8: x = std::move(x); if (!x || x->V != -1) Verify(x, mx, "self-moved"); else mx.second = -1; break;
			case 9: x.swap(y); std::swap(mx, my); break;
			case 10: x.swap(x); break;
			case 11: x.reset(); mx = M(false, 0); break;
			case 12: x = null; mx = M(false, 0); break;
			case 13: { O c(std::move(x)); Verify(c, mx, "moved"); if (mx.first) mx.second = -1; break; }
			case 14: { const A r = x.get_value_or(A(50)); if (r.V != (mx.first ? mx.second : 50)) seq::Fail("get_value_or returned %d", r.V); break; }
			case 15:
			{
				const O& c = x; int calls = 0;
				const optional<int> r = c.transform(vh::Fn<int (const A&)>([&](const A& v) { ++calls; return v.Peek() + 100; }));
				if (calls != mx.first || r.is_initialized() != mx.first || (r && *r != mx.second + 100)) seq::Fail("transform of %s is wrong", Show(mx).c_str());
				const optional<int> s = c.and_then(vh::Fn<optional<int> (const A&)>([&](const A& v) { return v.Peek() % 2 ? optional<int>(v.Peek()) : optional<int>(); }));
				const bool odd = mx.first && mx.second % 2;
				if (s.is_initialized() != odd || (s && *s != mx.second)) seq::Fail("and_then of %s is wrong", Show(mx).c_str());
				break;
			}
			case 16: { const O& c = x; int calls = 0; O r = c.or_else(vh::Fn<O ()>([&]{ ++calls; return O(A(60)); })); if (calls == int(mx.first)) seq::Fail("or_else called %d times", calls); Verify(r, mx.first ? mx : M(true, 60), "alternative"); break; }
			case 17: { O r = std::move(x).or_else(vh::Fn<O ()>([&]{ return O(); })); Verify(r, mx, "alternative"); if (mx.first) mx.second = -1; break; }
			case 18: if (!mx.first) return; { A v(std::move(x).get()); if (v.V != mx.second) seq::Fail("moved out %d", v.V); mx.second = -1; break; }
			case 19: { O c; c = x; c.swap(y); std::swap(c, y); Verify(c, mx, "copy"); break; }
			case 20: { const optional<int> n = mx.first ? optional<int>(mx.second) : optional<int>(); const optional<long> l(n); const optional<double> d = n; optional<long> k(5); k = n;
				if (l.is_initialized() != mx.first || d.is_initialized() != mx.first || k.is_initialized() != mx.first || (l && (*l != mx.second || *d != mx.second || *k != mx.second))) seq::Fail("conversion of %s is wrong", Show(mx).c_str()); break; }
			}
			if (thrown && op != 3 && op != 4)
				mx = old;
			Verify(a, ma, "a");
			Verify(b, mb, "b");
			CheckLive(ma.first + mb.first);
			CompareOptionals(x, y, mx, my);
		}
	}
	CheckLive(0);
}

// ---- variants
namespace
{
	// model: alternative (0 empty, 1 A, 2 B, 3 string), value
	typedef variant<TypeList<EmptyType, A, B, Str>> V;
	typedef variant<TypeList<A, int, B>> N;
	typedef std::pair<int, int> K;

	Str Text(int v) { return v == -1 ? Str() : "a text too long for the short string buffer " + std::to_string(v); }
	Str Show(const K& k) { return std::to_string(k.first) + "/" + std::to_string(k.second); }

	struct Tagger : public static_visitor<K>
	{
		K operator () (const EmptyType&) const { return K(0, 0); }
		K operator () (const A& a) const { return K(1, a.Peek()); }
		K operator () (const B& b) const { return K(2, b.Peek()); }
		K operator () (const Str& s) const { return K(3, s.empty() ? -1 : atoi(s.c_str() + 44)); }
		K operator () (const int& i) const { return K(4, i); }
	};

	struct Changer : public static_visitor<>
	{
		int To;
		explicit Changer(int to) : To(to) { }
		void operator () (EmptyType&) { }
		void operator () (A& a) { a.Peek(); a.V = To; }
		void operator () (B& b) { b.Peek(); b.V = To; }
		void operator () (Str& s) { s = Text(To); }
		void operator () (int& i) { i = To; }
	};

	struct Pairer : public static_visitor<Str>
	{
		template <typename L, typename R>
		Str operator () (const L& l, const R& r) const { return Show(Tagger()(l)) + "|" + Show(Tagger()(r)); }
	};

	template <typename T, typename Var>
	void CheckAccess(Var& v, bool held, const void* expected)
	{
		const Var& c = v;
		if (c.template contains<T>() != held || (v.template get_ptr<T>() != 0) != held || (c.template get_ptr<T>() != 0) != held || (variant_get<T>(&v) != 0) != held)
			seq::Fail("access by type %s: %d expected", typeid(T).name(), int(held));
		if (held && (static_cast<const void*>(v.template get_ptr<T>()) != expected || &v.template get<T>() != v.template get_ptr<T>() || &c.template get<T>() != v.template get_ptr<T>()))
			seq::Fail("get and get_ptr disagree");
		if (!g_deep && !held)
			return;
		bool refused = false;
		try { v.template get<T>(); } catch (const bad_variant_get&) { refused = true; }
		bool refused2 = false;
		try { c.template get<T>(); } catch (const bad_variant_get&) { refused2 = true; }
		if (refused == held || refused2 == held)
			seq::Fail("access by type %s refused: %d", typeid(T).name(), int(refused));
	}

	struct Address : public static_visitor<const void*>
	{
		template <typename T>
		const void* operator () (const T& t) const { return &t; }
	};

	void Verify(V& v, const K& k, const char* who)
	{
		const V& c = v;
		if (int(c.which()) != k.first || c.empty() != (k.first == 0))
			seq::Fail("%s is alternative %zu instead of %s", who, c.which(), Show(k).c_str());
		const K got = apply_visitor(Tagger(), c);
		Tagger t;
		if (got != k || v.ApplyVisitor(t) != k)
			seq::Fail("%s is visited as %s instead of %s", who, Show(got).c_str(), Show(k).c_str());
		const std::type_info* const types[] = { &typeid(EmptyType), &typeid(A), &typeid(B), &typeid(Str) };
		if (c.type() != *types[k.first])
			seq::Fail("type of %s", who);
		const void* const p = apply_visitor(Address(), c);
		CheckAccess<EmptyType>(v, k.first == 0, p);
		CheckAccess<A>(v, k.first == 1, p);
		CheckAccess<B>(v, k.first == 2, p);
		CheckAccess<Str>(v, k.first == 3, p);
	}

	template <typename Var>
	void Compare(const Var& a, const Var& b, const K& ka, const K& kb)
	{
		// texts order as the numbers, the moved-from text is the empty one and -1 is below everything
		const int e = ka < kb ? -1 : ka > kb;
		if ((a == b) != (e == 0) || (a != b) != (e != 0) || (a < b) != (e < 0) || (a > b) != (e > 0) || (a <= b) != (e <= 0) || (a >= b) != (e >= 0))
			seq::Fail("%s and %s compare wrongly", Show(ka).c_str(), Show(kb).c_str());
		const Str m = Multidispatch(Pairer(), a, b), m2 = MakeMultidispatcher(Pairer())(b, a);
		if (m != Show(ka) + "|" + Show(kb) || m2 != Show(kb) + "|" + Show(ka))
			seq::Fail("%s and %s are dispatched as %s", Show(ka).c_str(), Show(kb).c_str(), m.c_str());
	}

	size_t Count(const K& k) { return k.first == 1 || k.first == 2; }
	K Moved(const K& k) { return k.first == 0 || k.first == 4 ? k : K(k.first, -1); }
}

SEQ_SCENARIO(variants, .Q(3).T(4).Split(2))
{
	Registry::Get().Reset();
	{
		V a, b; K ka(0, 0), kb(0, 0);
		for (int step = 0; step < depth; ++step)
		{
			const bool second = step && seq::Flip();	// by symmetry
			V& x = second ? b : a; V& y = second ? a : b; K& kx = second ? kb : ka; K& ky = second ? ka : kb;
			g_deep = step + 1 == depth;
			const int op = seq::Pick(18);
			const int inj = op < 6 ? seq::Pick(3) : 0;
			SEQ_LOG("%s op %d inject %d", second ? "b" : "a", op, inj);
			const K old = kx;
			const int n = step + 1;
			int thrown = 0;
			switch (op)
			{
			case 0: { const A v(n); thrown = Guard(inj, [&]{ x = v; }); if (!thrown) kx = K(1, n); break; }
			case 1: { const B v(n); thrown = Guard(inj, [&]{ x.assign(v); }); if (!thrown) kx = K(2, n); break; }
			case 2: thrown = Guard(inj, [&]{ x = y; }); if (!thrown) kx = ky; break;
			case 3: thrown = Guard(inj, [&]{ x = x; }); break;
			case 4: thrown = Guard(inj, [&]{ x.emplace<A>(n); }); if (!thrown) kx = K(1, n); break;
			case 5: thrown = Guard(inj, [&]{ V c(x); Verify(c, kx, "copy"); CheckLive(Count(kx) * 2 + Count(ky)); }); break;
			case 6: x = Text(n); kx = K(3, n); break;
			case 7: x = B(n); kx = K(2, n); break;
			case 8: x = std::move(y); kx = ky; ky = Moved(ky); break;
			case 9: x = EmptyType(); kx = K(0, 0); break;
			case 10: { V c(std::move(x)); Verify(c, kx, "moved"); kx = Moved(kx); break; }
			case 11: std::swap(x, y); std::swap(kx, ky); break;
			case 12: { Changer c(n); apply_visitor(c, x); if (kx.first) kx.second = n; break; }
			case 13: if (kx.first != 1) return; x = x.get<A>(); break;
			case 14: if (kx.first != 3) return; x.assign(x.get<Str>()); break;
			case 15: if (ky.first != 2) return; x = y.get<B>(); kx = ky; break;
			case 16: x.emplace<Str>(Text(n)); kx = K(3, n); break;
			case 17: { V c = V(A(n)); Verify(c, K(1, n), "constructed"); c = Text(n); Verify(c, K(3, n), "assigned"); break; }
			}
			// after a failure the holder keeps its value or becomes empty
			if (thrown && op != 5)
				kx = x.empty() ? K(0, 0) : old;
			Verify(a, ka, "a");
			Verify(b, kb, "b");
			CheckLive(Count(ka) + Count(kb));
			Compare(x, y, kx, ky);
		}
	}
	CheckLive(0);
}

SEQ_SCENARIO(neverEmpty, .Q(3).T(4).Split(2))
{
	Registry::Get().Reset();
	{
		static const int Which[] = { -1, 0, 2, -1, 1 };
		N a, b; K ka(1, 7), kb(1, 7);
		for (int step = 0; step < depth; ++step)
		{
			const bool second = step && seq::Flip();	// by symmetry
			N& x = second ? b : a; N& y = second ? a : b; K& kx = second ? kb : ka; K& ky = second ? ka : kb;
			g_deep = step + 1 == depth;
			const int op = seq::Pick(14), n = step + 1;
			SEQ_LOG("%s op %d", second ? "b" : "a", op);
			switch (op)
			{
			case 0: { const A v(n); x = v; kx = K(1, n); break; }
			case 1: { const B v(n); x.assign(v); kx = K(2, n); break; }
			case 2: x = y; kx = ky; break;
			case 3: x = x; break;
			case 4: x.emplace<B>(n); kx = K(2, n); break;
			case 5: { N c(x); CheckLive(Count(kx) * 2 + Count(ky)); break; }
			case 6: x = n; kx = K(4, n); break;
			case 7: x = std::move(y); kx = ky; ky = Moved(ky); break;
			case 8: { N c(std::move(x)); if (apply_visitor(Tagger(), c) != kx) seq::Fail("moved"); kx = Moved(kx); break; }
			case 9: std::swap(x, y); std::swap(kx, ky); break;
			case 10: { Changer c(n); x.ApplyVisitor(c); kx.second = n; break; }
			case 11: if (kx.first != 2) return; x = x.get<B>(); break;
			case 12: x.emplace<A>(n); kx = K(1, n); break;
			case 13: x = A(n); kx = K(1, n); break;
			}
			for (int i = 0; i < 2; ++i)
			{
				N& v = i ? b : a; const K& k = i ? kb : ka;
				if (int(v.which()) != Which[k.first] || v.empty() || apply_visitor(Tagger(), v) != k)
					seq::Fail("%s holds %s instead of %s", i ? "b" : "a", Show(apply_visitor(Tagger(), v)).c_str(), Show(k).c_str());
				const void* const p = apply_visitor(Address(), v);
				CheckAccess<A>(v, k.first == 1, p);
				CheckAccess<B>(v, k.first == 2, p);
				CheckAccess<int>(v, k.first == 4, p);
			}
			CheckLive(Count(ka) + Count(kb));
			const K wa(Which[kx.first], kx.second), wb(Which[ky.first], ky.second);
			const int e = wa < wb ? -1 : wa > wb;
			if ((x == y) != (e == 0) || (x != y) != (e != 0) || (x < y) != (e < 0) || (x > y) != (e > 0) || (x <= y) != (e <= 0) || (x >= y) != (e >= 0))
				seq::Fail("%s and %s compare wrongly", Show(kx).c_str(), Show(ky).c_str());
			if (Multidispatch(Pairer(), x, y) != Show(kx) + "|" + Show(ky))
				seq::Fail("dispatched wrongly");
		}
	}
	CheckLive(0);
}

// ---- any
namespace
{
	template <typename T>
	void CheckCast(any& a, bool held)
	{
		const any& c = a;
		if ((any_cast<T>(&a) != 0) != held || (any_cast<T>(&c) != 0) != held)
			seq::Fail("cast to %s: %d expected", typeid(T).name(), int(held));
		if (!g_deep && !held)
			return;
		bool refused = false, refused2 = false;
		try { if (&any_cast<T>(a) != any_cast<T>(&a)) seq::Fail("casts disagree"); } catch (const bad_any_cast&) { refused = true; }
		try { if (&any_cast<T>(c) != any_cast<T>(&c)) seq::Fail("casts disagree"); } catch (const bad_any_cast&) { refused2 = true; }
		if (refused == held || refused2 == held)
			seq::Fail("cast to %s refused: %d", typeid(T).name(), int(refused));
	}

	// alternatives: 0 empty, 1 A, 2 B, 3 string, 4 int, 5 bool, 6 u8, 7 double, 8 s64, 9 pointer
	typedef shared_ptr<int> P;

	void Verify(any& a, const K& k, const char* who)
	{
		const any& c = a;
		if (c.empty() != (k.first == 0))
			seq::Fail("%s is empty: %d instead of %s", who, int(c.empty()), Show(k).c_str());
		CheckCast<A>(a, k.first == 1);
		CheckCast<B>(a, k.first == 2);
		CheckCast<Str>(a, k.first == 3);
		CheckCast<int>(a, k.first == 4);
		CheckCast<bool>(a, k.first == 5);
		CheckCast<u8>(a, k.first == 6);
		CheckCast<double>(a, k.first == 7);
		CheckCast<long long>(a, k.first == 8);
		CheckCast<P>(a, k.first == 9);
		CheckCast<unsigned>(a, false);
		CheckCast<char>(a, false);
		int v = 0;
		switch (k.first)
		{
		case 1: v = any_cast<A>(c).Peek(); break;
		case 2: v = any_cast<B>(c).Peek(); break;
		case 3: v = any_cast<Str>(c) == Text(k.second) ? k.second : -77; break;
		case 4: v = any_cast<int>(c); break;
		case 5: v = any_cast<bool>(c) ? k.second : -77; break;
		case 6: v = any_cast<u8>(c); break;
		case 7: v = int(any_cast<double>(c) * 2); break;
		case 8: v = int(any_cast<long long>(c) >> 33); break;
		case 9: v = any_cast<P>(c) ? *any_cast<P>(c) : -1; break;
		}
		if (v != k.second)
			seq::Fail("%s holds %d instead of %s", who, v, Show(k).c_str());
		if (k.first == 4 && c.ToString() != std::to_string(k.second))
			seq::Fail("%s is printed as %s", who, c.ToString().c_str());
		if (k.first == 3 && c.ToString() != Text(k.second))
			seq::Fail("%s is printed as %s", who, c.ToString().c_str());
		if (c.IsSerializable() != (k.first != 1 && k.first != 2 && k.first != 9))
			seq::Fail("%s serializable: %d", who, int(c.IsSerializable()));
	}
}

SEQ_SCENARIO(anys, .Q(3).T(4).Split(2))
{
	Registry::Get().Reset();
	{
		any a, b; K ka(0, 0), kb(0, 0);
		for (int step = 0; step < depth; ++step)
		{
			const bool second = step && seq::Flip();	// by symmetry
			any& x = second ? b : a; any& y = second ? a : b; K& kx = second ? kb : ka; K& ky = second ? ka : kb;
			g_deep = step + 1 == depth;
			const int op = seq::Pick(24), n = step + 1;
			const int inj = op < 6 ? seq::Pick(3) : 0;
			SEQ_LOG("%s op %d inject %d", second ? "b" : "a", op, inj);
			const K old = kx;
			int thrown = 0;
			switch (op)
			{
			case 0: { const A v(n); thrown = Guard(inj, [&]{ x = v; }); if (!thrown) kx = K(1, n); break; }
			case 1: { const B v(n); thrown = Guard(inj, [&]{ x = v; }); if (!thrown) kx = K(2, n); break; }
			case 2: thrown = Guard(inj, [&]{ x = y; }); if (!thrown) kx = ky; break;
			case 3: thrown = Guard(inj, [&]{ x = x; }); break;
			case 4: { const A v(n); thrown = Guard(inj, [&]{ any c(v); K k(1, n); Verify(c, k, "constructed"); CheckLive(Count(kx) + Count(ky) + 2); }); break; }
			case 5: thrown = Guard(inj, [&]{ any c(x); Verify(c, kx, "copy"); CheckLive(Count(kx) * 2 + Count(ky)); }); break;
			case 6: x = Text(n); kx = K(3, n); break;
			case 7: x = B(n); kx = K(2, n); break;
			case 8: x = std::move(y); kx = ky; ky = K(0, 0); break;
			case 9: x = any(); kx = K(0, 0); break;
			case 10: { any c(std::move(x)); Verify(c, kx, "moved"); kx = K(0, 0); break; }
			case 11: std::swap(x, y); std::swap(kx, ky); break;
			case 12: if (kx.first != 1) return; any_cast<A>(x).V = n + 10; kx.second = n + 10; break;
			case 13: if (kx.first != 1) return; x = any_cast<A>(x); break;
			case 14: if (kx.first != 3) return; { const any& c = x; x = any_cast<Str>(c); } break;
			case 15: if (ky.first != 2) return; x = any_cast<B>(y); kx = ky; break;
			case 16: x = n; kx = K(4, n); break;
			case 17: x = true; kx = K(5, 1); break;
			case 18: x = u8(200 + n); kx = K(6, 200 + n); break;
			case 19: x = n + 0.5; kx = K(7, 2 * n + 1); break;
			case 20: x = (long long)n << 33; kx = K(8, n); break;
			case 21: x = make_shared_ptr<int>(n); kx = K(9, n); break;
			case 22: x = std::move(x); if (x.empty()) kx = K(0, 0); break;
			case 23: { const Str s = Text(n); x = s; kx = K(3, n); break; }
			}
			if (thrown && op != 4 && op != 5)
				kx = x.empty() ? K(0, 0) : old;
			Verify(a, ka, "a");
			Verify(b, kb, "b");
			CheckLive(Count(ka) + Count(kb));
		}
	}
	CheckLive(0);
}

// ---- tuples
namespace
{
	template <typename T> struct OnlyInts : integral_constant<bool, IsSame<T, int>::Value> { };

	struct ToCall : public function_info<Str (int, Str, int)>
	{
		Str operator () (int a, const Str& b, int c) const { return std::to_string(a) + b + std::to_string(c); }
	};

	struct Erased : public TypeErasureBase
	{
		A Value; explicit Erased(int v) : Value(v) { }
		int Add(int x) { Value.V += x; return Value.Peek(); }
		Str Name(const Str& p) { return p + std::to_string(Value.Peek()); }
	};
	struct Erased2 : public TypeErasureBase
	{
		B Value; explicit Erased2(int v) : Value(v) { }
		int Add(int x) { Value.V -= x; return Value.Peek(); }
		Str Name(const Str& p) { return "second" + p + std::to_string(Value.Peek()); }
	};
	struct AddConcept : public function_info<int (int)> { template <typename T> static int Apply(T& t, int x) { return t.Add(x); } };
	struct NameConcept : public function_info<Str (const Str&)> { template <typename T> static Str Apply(T& t, const Str& s) { return t.Name(s); } };
	typedef TypeErasure<TypeList<AddConcept, NameConcept>> E;
}

SEQ_SCENARIO(tuples, .Q(1).T(2))
{
	Registry::Get().Reset();
	{
		typedef Tuple<TypeList<int, A, Str>> T;
		const int i = seq::Pick(3), v = seq::Pick(3), s = seq::Pick(2);
		T t(i, A(v), s ? "text" : "");
		CheckLive(1);
		if (t.Get<0>() != i || t.Get<1>().Peek() != v || t.Get<2>() != (s ? "text" : "") || &t.Get<A>() != &t.Get<1>() || &t.GetHead() != &t.Get<0>() || &t.GetTail().GetHead() != &t.Get<1>() || t.Get<Str>() != t.Get<2>())
			seq::Fail("tuple items");
		T u(t);
		CheckLive(2);
		if (u.Get<0>() != i || u.Get<1>().Peek() != v || u.Get<2>() != t.Get<2>())
			seq::Fail("copied tuple");
		u.Get<1>().V = 40; u.Get<0>() = 41;
		if (t.Get<1>().Peek() != v || t.Get<0>() != i)
			seq::Fail("copy shares the original's items");
		t = u;
		if (t.Get<1>().Peek() != 40 || t.Get<0>() != 41 || t.Get<2>() != (s ? "text" : ""))
			seq::Fail("assigned tuple");
		T w(std::move(u));
		if (w.Get<1>().Peek() != 40 || u.Get<1>().Peek() != -1)
			seq::Fail("moved tuple");
		u = std::move(w);
		if (u.Get<1>().Peek() != 40 || w.Get<1>().Peek() != -1)
			seq::Fail("move-assigned tuple");
		CheckLive(3);

		const Tuple<TypeList<long, Str>> p(5 + i, "p");
		const auto c = ConcatTuples(t, p, MakeTuple(i, 'c'));
		if (c.Get<0>() != 41 || c.Get<1>().Peek() != 40 || c.Get<3>() != 5 + i || c.Get<4>() != "p" || c.Get<5>() != i || c.Get<6>() != 'c' || decltype(c)::Size != 7)
			seq::Fail("concatenated tuples");
		const auto r = ReverseTuple(c);
		if (r.Get<0>() != 'c' || r.Get<1>() != i || r.Get<2>() != "p" || r.Get<3>() != 5 + i || r.Get<5>().Peek() != 40 || r.Get<6>() != 41)
			seq::Fail("reversed tuple");
		const auto f = FilterTuple<OnlyInts>(c);
		if (decltype(f)::Size != 2 || f.Get<0>() != 41 || f.Get<1>() != i)
			seq::Fail("filtered tuple");
		CheckLive(5);
		const auto m = ConcatTuples(std::move(t), MakeTuple(1));
		if (m.Get<1>().Peek() != 40 || m.Get<3>() != 1 || t.Get<1>().Peek() != -1)
			seq::Fail("concatenation of a temporary");
		const auto rm = ReverseTuple(std::move(u));
		if (rm.Get<1>().Peek() != 40 || u.Get<1>().Peek() != -1)
			seq::Fail("reversed temporary");
		const Str called = FunctorInvoker::Invoke(ToCall(), MakeTuple(i, Str("-"), v));
		if (called != std::to_string(i) + "-" + std::to_string(v))
			seq::Fail("invoked with wrong arguments: %s", called.c_str());
		int x = 5; Str y = "y";
		auto fwd = ForwardAsTuple(x, y);
		fwd.Get<0>() = 6 + i; fwd.Get<1>() = "z";
		if (x != 6 + i || y != "z")
			seq::Fail("forwarded references");
		const Tuple<TypeList<long, Str>> conv(Tuple<TypeList<int, const char*>>(i, "conv"));
		if (conv.Get<0>() != i || conv.Get<1>() != "conv")
			seq::Fail("converted tuple");
		int calls = 0;
		const auto lz = lazy(vh::Fn<int ()>([&]{ return ++calls * 10 + i; }));
		if (calls || int(lz) != 10 + i || int(lz) != 20 + i || calls != 2)
			seq::Fail("lazy value");
	}
	CheckLive(0);
}

SEQ_SCENARIO(erasure, .Q(4).T(6))
{
	Registry::Get().Reset();
	{
		E a, b; int ka = 0, kb = 0, va = 0, vb = 0;	// kind, value
		for (int step = 0; step < depth; ++step)
		{
			const bool second = step && seq::Flip();	// by symmetry
			E& x = second ? b : a; int& k = second ? kb : ka; int& v = second ? vb : va;
			switch (seq::Pick(5))
			{
			case 0: if (k) return; x.Allocate<Erased>(step + 1); k = 1; v = step + 1; break;
			case 1: if (k) return; x.Allocate<Erased2>(step + 1); k = 2; v = step + 1; break;
			case 2: if (!k) return; x.Free(); k = 0; if (x.Get()) seq::Fail("not freed"); break;
			case 3: if (!k) return; v += k == 1 ? 10 : -10; if (x.Call<AddConcept>(10) != v) seq::Fail("wrong object called"); break;
			case 4: { E c(std::move(a)); if (a.Get()) seq::Fail("moved-from"); a = std::move(b); if (b.Get()) seq::Fail("moved-from"); b = std::move(c); std::swap(ka, kb); std::swap(va, vb); break; }
			}
			for (int i = 0; i < 2; ++i)
			{
				E& e = i ? b : a; const int ek = i ? kb : ka, ev = i ? vb : va;
				if ((e.Get() != 0) != (ek != 0) || (ek && e.Call<NameConcept>(Str("n")) != (ek == 1 ? "n" : "secondn") + std::to_string(ev)))
					seq::Fail("erased object %d", i);
			}
			CheckLive((ka != 0) + (kb != 0));
		}
		if (ka) a.Free();
		if (kb) b.Free();
	}
	CheckLive(0);
}
