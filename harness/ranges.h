// Range combinators over plain lists: shared by the parts of C06.
#pragma once
#include "../seq/seq.h"
#include "common.h"
#include <stingraykit/collection/ArrayList.h>
#include <stingraykit/collection/DataJoiner.h>
#include <stingraykit/collection/EnumerableBuilder.h>
#include <stingraykit/collection/EnumerableFromStlContainer.h>
#include <stingraykit/collection/EnumerableHelpers.h>
#include <stingraykit/collection/ForEach.h>
#include <stingraykit/collection/KeyValueEnumerableHelpers.h>
#include <stingraykit/collection/MapDictionary.h>
#include <stingraykit/collection/Range.h>
#include <stingraykit/collection/SortedSet.h>
#include <stingraykit/collection/iterators.h>
#include <stingraykit/optional.h>
#include "coll.h"
#include <algorithm>
#include <forward_list>
#include <list>
#include <map>
#include <set>



namespace
{
	typedef std::vector<int> VI;
	bool IsOdd(int x) { return x % 2 != 0; }
	bool IsSmall(int x) { return x < 2; }
	int Affine(int x) { return 3 * x + 1; }
	int Digits(int a, int b) { return 10 * a + b; }
	int Table[] = { 1, 2, 0 };
	typedef std::pair<const int*, const int*> Part;
	int Cut(int x) { return ((x % 3) + 3) % 3; }
	Part PartOf(int x) { const int* b = Table; return Part(b, b + Cut(x)); }
	VI PickList(int max, int letters = 3) { VI v; const int n = seq::Pick(max + 1); for (int i = 0; i < n; ++i) v.push_back(seq::Pick(letters)); return v; }

	// plain lists
	VI FilterL(const VI& v, bool (*f)(int)) { VI r; for (int x : v) if (f(x)) r.push_back(x); return r; }
	VI MapL(const VI& v, int (*f)(int)) { VI r; for (int x : v) r.push_back(f(x)); return r; }
	VI TakeL(const VI& v, size_t n) { return VI(v.begin(), v.begin() + std::min(n, v.size())); }
	VI DropL(const VI& v, size_t n) { return VI(v.begin() + std::min(n, v.size()), v.end()); }
	VI CatL(const VI& a, const VI& b) { VI r = a; r.insert(r.end(), b.begin(), b.end()); return r; }
	VI CycleL(const VI& a, size_t n) { VI r; while (r.size() < n) r.push_back(a[r.size() % a.size()]); return r; }
	VI PartsL(const VI& v) { VI r; for (int x : v) r.insert(r.end(), Table, Table + Cut(x)); return r; }
	VI PairsL(const VI& a, const VI& b) { VI r; for (size_t i = 0; i < std::min(a.size(), b.size()); ++i) r.push_back(Digits(a[i], b[i])); return r; }

	struct Fwd { }; struct Bid : Fwd { }; struct Rnd : Bid { };
	template < typename C > struct CatOf; template < > struct CatOf<std::forward_iterator_tag> { typedef Fwd T; }; template < > struct CatOf<std::bidirectional_iterator_tag> { typedef Bid T; }; template < > struct CatOf<std::random_access_iterator_tag> { typedef Rnd T; };
	template < typename R > using Cat = typename CatOf<typename R::Category>::T;

	// any range, behind one interface, so that one checker serves them all
	struct AnyRange
	{
		int cat = 0; virtual ~AnyRange() { }
		virtual AnyRange* Clone() const = 0; virtual bool Valid() const = 0; virtual bool Bool() const = 0; virtual int Get() const = 0; virtual int Star() const = 0; virtual bool Eq(const AnyRange& o) const = 0; virtual bool Ne(const AnyRange& o) const = 0;
		virtual void First() = 0; virtual void Next() = 0; virtual void PreInc() = 0; virtual AnyRange* PostInc() = 0; virtual VI Loop() const = 0; virtual AnyRange* Begin() const = 0;
		virtual void Last() = 0; virtual void Prev() = 0; virtual void PreDec() = 0; virtual AnyRange* PostDec() = 0; virtual AnyRange* End() const = 0;
		virtual size_t Pos() const = 0; virtual size_t Size() const = 0; virtual void Add(std::ptrdiff_t d) = 0; virtual void Sub(std::ptrdiff_t d) = 0; virtual AnyRange* Plus(std::ptrdiff_t d) const = 0; virtual AnyRange* Minus(std::ptrdiff_t d) const = 0; virtual std::ptrdiff_t Diff(const AnyRange& o) const = 0;
	};
	typedef std::unique_ptr<AnyRange> Ptr;
	template < typename R > struct FwdRange : AnyRange
	{
		R r; FwdRange(const R& r) : r(r) { }
		static const R& Of(const AnyRange& o) { return static_cast<const FwdRange&>(o).r; }
		bool Valid() const override { return r.Valid(); } bool Bool() const override { return static_cast<bool>(r); } int Get() const override { return r.Get(); } int Star() const override { return *r; }
		bool Eq(const AnyRange& o) const override { return r == Of(o); } bool Ne(const AnyRange& o) const override { return r != Of(o); }
		void First() override { r.First(); } void Next() override { r.Next(); } void PreInc() override { ++r; } VI Loop() const override { VI w; for (auto&& x : IterableRange(r)) { w.push_back(x); if (w.size() > 100) break; } return w; }
		void Last() override { } void Prev() override { } void PreDec() override { } AnyRange* PostDec() override { return nullptr; } AnyRange* End() const override { return nullptr; }
		size_t Pos() const override { return 0; } size_t Size() const override { return 0; } void Add(std::ptrdiff_t) override { } void Sub(std::ptrdiff_t) override { } AnyRange* Plus(std::ptrdiff_t) const override { return nullptr; } AnyRange* Minus(std::ptrdiff_t) const override { return nullptr; } std::ptrdiff_t Diff(const AnyRange&) const override { return 0; }
	};
	template < typename R > struct BidRange : FwdRange<R>
	{
		BidRange(const R& r) : FwdRange<R>(r) { } using FwdRange<R>::r;
		void Last() override { r.Last(); } void Prev() override { r.Prev(); } void PreDec() override { --r; }
	};
	template < typename R > struct RndRange : BidRange<R>
	{
		RndRange(const R& r) : BidRange<R>(r) { } using FwdRange<R>::r;
		size_t Pos() const override { return r.GetPosition(); } size_t Size() const override { return r.GetSize(); } void Add(std::ptrdiff_t d) override { r += d; } void Sub(std::ptrdiff_t d) override { r -= d; } std::ptrdiff_t Diff(const AnyRange& o) const override { return r - this->Of(o); }
	};
	template < typename R, int C > struct Wrapped;
	template < typename R > struct Wrapped<R, 0> : FwdRange<R> { Wrapped(const R& r) : FwdRange<R>(r) { this->cat = 0; } using FwdRange<R>::r;
		AnyRange* Clone() const override { return new Wrapped(r); } AnyRange* PostInc() override { return new Wrapped(r++); } AnyRange* Begin() const override { return new Wrapped(r.begin()); } };
	template < typename R > struct Wrapped<R, 1> : BidRange<R> { Wrapped(const R& r) : BidRange<R>(r) { this->cat = 1; } using FwdRange<R>::r;
		AnyRange* Clone() const override { return new Wrapped(r); } AnyRange* PostInc() override { return new Wrapped(r++); } AnyRange* Begin() const override { return new Wrapped(r.begin()); } AnyRange* PostDec() override { return new Wrapped(r--); } AnyRange* End() const override { return new Wrapped(r.end()); } };
	template < typename R > struct Wrapped<R, 2> : RndRange<R> { Wrapped(const R& r) : RndRange<R>(r) { this->cat = 2; } using FwdRange<R>::r;
		AnyRange* Clone() const override { return new Wrapped(r); } AnyRange* PostInc() override { return new Wrapped(r++); } AnyRange* Begin() const override { return new Wrapped(r.begin()); } AnyRange* PostDec() override { return new Wrapped(r--); } AnyRange* End() const override { return new Wrapped(r.end()); }
		AnyRange* Plus(std::ptrdiff_t d) const override { return new Wrapped(r + d); } AnyRange* Minus(std::ptrdiff_t d) const override { return new Wrapped(r - d); } };

	void At(const AnyRange& r, const VI& v, size_t i)
	{
		const bool a = r.Valid(), b = r.Bool(); SEQ_CHECK_MSG(a == (i < v.size()) && b == (i < v.size()), "%s at position %zu of %zu", a ? "valid" : "invalid", i, v.size());
		if (i < v.size()) { const int x = r.Get(), y = r.Star(); SEQ_CHECK_MSG(x == v[i] && y == v[i], "element %zu is %d then %d, expected %d of %s", i, x, y, v[i], Str(v).c_str()); }
		if (r.cat == 2) { const size_t p = r.Pos(), n = r.Size(); SEQ_CHECK_MSG(p == i && n == v.size(), "position %zu of %zu, expected %zu of %zu", p, n, i, v.size()); }
	}
	Ptr Nth(const AnyRange& r, size_t i) { Ptr x(r.Begin()); for (; i; --i) x->Next(); return x; }
	void Same(const AnyRange& r, const VI& v, size_t i)
	{
		At(r, v, i); Ptr x(r.Begin());
		for (size_t j = 0; j <= v.size(); ++j) { if (j) x->Next(); SEQ_CHECK_MSG(x->Eq(r) == (i == j) && x->Ne(r) == (i != j) && r.Eq(*x) == (i == j), "a range at %zu and one at %zu of %zu: equal %d", i, j, v.size(), int(x->Eq(r))); }
	}
	void Ends(const AnyRange& r, const VI& v)
	{
		SEQ_LOG("the end"); Ptr e(r.End()); Same(*e, v, v.size());
		if (!v.empty()) { SEQ_LOG("one before the end"); e->PreDec(); Same(*e, v, v.size() - 1); }
		size_t i = 0; for (Ptr x(r.Begin()); x->Ne(*Ptr(r.End())); x->PreInc(), ++i) At(*x, v, i); SEQ_CHECK_MSG(i == v.size(), "begin to end takes %zu steps of %zu", i, v.size());
		SEQ_LOG("backwards"); Ptr b(r.Clone()); b->Last(); for (size_t k = v.size(); k--; ) { Same(*b, v, k); if (k) b->Prev(); }
	}
	void Far(const AnyRange& r, const VI& v)
	{
		SEQ_LOG("all jumps");
		for (size_t i = 0; i <= v.size(); ++i) for (size_t j = 0; j <= v.size(); ++j)
		{
			const std::ptrdiff_t d = std::ptrdiff_t(j) - std::ptrdiff_t(i); const Ptr from = Nth(r, i), to = Nth(r, j); SEQ_LOG("from %zu to %zu", i, j);
			Ptr x(from->Clone()); x->Add(d); Same(*x, v, j); Ptr y(from->Clone()); y->Sub(-d); Same(*y, v, j); const Ptr z(from->Plus(d)), w(from->Minus(-d)); Same(*z, v, j); Same(*w, v, j);
			SEQ_CHECK_MSG(x->Diff(*from) == d && from->Diff(*x) == -d && to->Diff(*from) == d, "from %zu to %zu is a distance of %d", i, j, int(x->Diff(*from)));
			x->Sub(d); Same(*x, v, i);
		}
	}
	int g_moves = 3;
	void CheckAny(const AnyRange& r0, const VI& v)
	{
		SEQ_LOG("expecting %s", Str(v).c_str());
		if (seq::Flip())
		{
			{ Ptr r(r0.Clone()); size_t i = 0; for (; i < v.size(); ++i) { At(*r, v, i); if (i % 2) r->PreInc(); else { const Ptr was(r->PostInc()); At(*was, v, i); } } At(*r, v, i); r->First(); Same(*r, v, 0); }
			{ const VI w = r0.Loop(); SEQ_CHECK_MSG(w == v, "a range-based for loop gives %s", Str(w).c_str()); }
			for (size_t i = 0; i <= v.size(); ++i) Same(*Nth(r0, i), v, i);
			if (r0.cat) Ends(r0, v);
			if (r0.cat == 2) Far(r0, v);
			return;
		}
		Ptr r(r0.Clone()); size_t i = 0; const int ops = r0.cat == 2 ? 8 : r0.cat == 1 ? 7 : 3;
		for (int n = 0; n < g_moves; ++n)
		{
			switch (seq::Pick(ops))
			{
			case 0: SEQ_LOG("next"); if (i == v.size()) return; r->Next(); ++i; break;
			case 1: { SEQ_LOG("next, keeping a copy"); if (i == v.size()) return; const Ptr was(r->PostInc()); At(*was, v, i); ++i; } break;
			case 2: SEQ_LOG("first"); r->First(); i = 0; break;
			case 3: SEQ_LOG("last"); r->Last(); i = v.empty() ? 0 : v.size() - 1; break;
			case 4: SEQ_LOG("previous"); if (!i) return; r->Prev(); --i; break;
			case 5: { SEQ_LOG("previous, keeping a copy"); if (!i) return; const Ptr was(r->PostDec()); At(*was, v, i); --i; } break;
			case 6: SEQ_LOG("end"); r = Ptr(r->End()); i = v.size(); break;
			case 7: { const size_t to = seq::Pick(v.size() + 1); SEQ_LOG("jump to %zu", to); r->Add(std::ptrdiff_t(to) - std::ptrdiff_t(i)); i = to; } break;
			}
			At(*r, v, i); r = Ptr(r->Clone()); At(*r, v, i);
		}
		Same(*r, v, i);
	}
	template < typename C > struct Num { static const int V = 0; }; template < > struct Num<Bid> { static const int V = 1; }; template < > struct Num<Rnd> { static const int V = 2; };
	template < typename R > void Check(const R& r, const VI& v) { const Wrapped<R, Num<Cat<R>>::V> w(r); CheckAny(w, v); }

	template < int N > struct Int { };
	template < typename R, int N > void Compose(const R& r, const VI& v, Int<N> n);
	template < typename R, int N > void Op(const R& r, const VI& v, Int<N>, Int<0>) { bool (*f)(int) = seq::Flip() ? IsOdd : IsSmall; SEQ_LOG("filtered by %s", f == IsOdd ? "odd" : "small"); Compose(Range::Filter(r, f), FilterL(v, f), Int<N - 1>()); }
	template < typename R, int N > void Op(const R& r, const VI& v, Int<N>, Int<1>) { SEQ_LOG("transformed"); Compose(Range::Transform(r, &Affine), MapL(v, Affine), Int<N - 1>()); }
	template < typename R, int N > void Op(const R& r, const VI& v, Int<N>, Int<2>) { const size_t k = seq::Pick(4); SEQ_LOG("first %zu", k); Compose(Range::Take(r, k), TakeL(v, k), Int<N - 1>()); }
	template < typename R, int N > void Op(const R& r, const VI& v, Int<N>, Int<3>) { const size_t k = seq::Pick(4); SEQ_LOG("without first %zu", k); Compose(Range::Drop(r, k), DropL(v, k), Int<N - 1>()); }
	template < typename R, int N > void Rev(const R&, const VI&, Int<N>, Fwd) { }
	template < typename R, int N > void Rev(const R& r, const VI& v, Int<N>, Bid) { SEQ_LOG("reversed"); Compose(Range::Reverse(r), VI(v.rbegin(), v.rend()), Int<N - 1>()); }
	template < typename R, int N > void Op(const R& r, const VI& v, Int<N> n, Int<4>) { Rev(r, v, n, Cat<R>()); }
	template < typename R, int N > void Op(const R& r, const VI& v, Int<N>, Int<5>) { const size_t k = seq::Pick(3); SEQ_LOG("itself, all but %zu, itself", k); Compose(Range::Concat(r, Range::Drop(r, k), r), CatL(v, CatL(DropL(v, k), v)), Int<N - 1>()); }
	template < typename R, int N > void Op(const R& r, const VI& v, Int<N>, Int<6>) { const size_t k = seq::Pick(5); SEQ_LOG("cycled, first %zu", k); if (v.empty()) { SEQ_CHECK_MSG(Throws([&]{ Range::Cycle(r); }), "cycling an empty range"); return; } Compose(Range::Take(Range::Cycle(r), k), CycleL(v, k), Int<N - 1>()); }
	template < typename R, int N > void Op(const R& r, const VI& v, Int<N>, Int<7>) { const size_t k = seq::Pick(3); SEQ_LOG("zipped with all but %zu", k); Compose(Range::Zip(&Digits, r, Range::Drop(r, k)), PairsL(v, DropL(v, k)), Int<N - 1>()); }
	template < typename R, int N > void Op(const R& r, const VI& v, Int<N>, Int<8>) { SEQ_LOG("parts flattened"); Compose(Range::Flatten(Range::Transform(r, &PartOf)), PartsL(v), Int<N - 1>()); }
	template < int Count, int First > struct OneOf { template < typename R, int N > static void Do(int op, const R& r, const VI& v, Int<N> n) { if (op == First) Op(r, v, n, Int<First>()); else OneOf<Count - 1, First + 1>::Do(op, r, v, n); } };
	template < int First > struct OneOf<0, First> { template < typename R, int N > static void Do(int, const R& r, const VI& v, Int<N>) { Check(r, v); } };
	template < typename R, int N, int Count, int First > void Ops(const R& r, const VI& v, Int<N> n, Int<Count>, Int<First>) { OneOf<Count, First>::Do(First + seq::Pick(Count + 1), r, v, n); }
	template < typename R > void Compose(const R& r, const VI& v, Int<0>) { Check(r, v); }
	template < typename R, int N > void Compose(const R& r, const VI& v, Int<N> n) { Ops(r, v, n, Int<9>(), Int<0>()); }
}
