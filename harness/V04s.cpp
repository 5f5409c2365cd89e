// V04: dispatch by value, by tag and by dynamic type.
#include <seq/seq.h>
#include <harness/common.h>
#include <stingraykit/collection/ByteData.h>
#include <stingraykit/io/BitStream.h>
#include <stingraykit/Creators.h>
#include <stingraykit/GenericEntityFactory.h>
#include <stingraykit/IVisitor.h>
#include <stingraykit/Mapper.h>
#include <stingraykit/TypeInfo.h>
#include <stingraykit/dynamic_caster.h>
#include <stingraykit/factory/Factory.h>
#include <map>
#include <memory>

using namespace stingray;
namespace stingray { void Factory::RegisterTypes(const FactoryContextPtr&) { } }

namespace
{
	template < typename F > bool Throws(const F& f) { try { f(); return false; } catch (const std::exception&) { return true; } }

	// ---- tables of values: every table of two entries over these kinds
	template < int K > struct Kind;
	template < > struct Kind<0> { template < typename M > using T = typename M::template Value<1>; static bool Fits(int v) { return v == 1; } static int Back() { return 1; } };
	template < > struct Kind<1> { template < typename M > using T = typename M::template Range<2, 5>; static bool Fits(int v) { return v >= 2 && v < 5; } static int Back() { return 2; } };
	template < > struct Kind<2> { template < typename M > using T = typename M::template BiValue<4, 1>; static bool Fits(int v) { return v == 4 || v == 1; } static int Back() { return 4; } };
	template < > struct Kind<3> { template < typename M > using T = typename M::template MultiValue<5, typename M::template MultiValue<3, typename M::template Value<0>>>; static bool Fits(int v) { return v == 5 || v == 3 || v == 0; } static int Back() { return 5; } };
	template < > struct Kind<4> { template < typename M > using T = typename M::template TriValue<6, 3, 1>; static bool Fits(int v) { return v == 6 || v == 3 || v == 1; } static int Back() { return 6; } };
	template < > struct Kind<5> { template < typename M > using T = typename M::template QuadValue<200, 7, 8, 5>; static bool Fits(int v) { return v == 200 || v == 7 || v == 8 || v == 5; } static int Back() { return 200; } };
	template < > struct Kind<6> { template < typename M > using T = typename M::template Range<3, 6, 5>; static bool Fits(int v) { return v >= 3 && v < 6; } static int Back() { return 5; } };
	template < > struct Kind<7> { template < typename M > using T = typename M::Fail; };

	template < int S1, int D1, int S2, int D2, int DS, int DD >
	struct Map2 : public BaseValueMapper<Map2<S1, D1, S2, D2, DS, DD>, u8, s16>
	{
		typedef BaseValueMapper<Map2<S1, D1, S2, D2, DS, DD>, u8, s16> B; typedef typename B::Src Src; typedef typename B::Dst Dst;
		typedef TypeList<typename Kind<S1>::template T<Src>, typename Kind<D1>::template T<Dst>, typename Kind<S2>::template T<Src>, typename Kind<D2>::template T<Dst>> MappingsList;
		typedef TypeList<typename Kind<DS>::template T<Src>, typename Kind<DD>::template T<Dst>> DefaultMapping;
	};
	template < int K > int BackOf() { return Kind<K>::Back(); }
	template < > int BackOf<7>() { return -1000; }

	template < int S1, int D1, int S2, int D2, int DS, int DD > void CheckMap()
	{
		typedef Map2<S1, D1, S2, D2, DS, DD> M;
		for (int v = 0; v < 256; ++v)
		{
			seq::Cases(2);
			const int to = Kind<S1>::Fits(v) ? Kind<D1>::Back() : Kind<S2>::Fits(v) ? Kind<D2>::Back() : BackOf<DD>();
			const int from = Kind<D1>::Fits(v) ? Kind<S1>::Back() : Kind<D2>::Fits(v) ? Kind<S2>::Back() : BackOf<DS>();
			int got = -1000; Throws([&] { got = M::Map(v); });
			SEQ_CHECK_MSG(got == to, "table %d>%d %d>%d: %d is mapped to %d, expected %d", S1, D1, S2, D2, v, got, to);
			got = -1000; Throws([&] { got = M::Unmap(v); });
			SEQ_CHECK_MSG(got == from, "table %d>%d %d>%d: %d is mapped back to %d, expected %d", S1, D1, S2, D2, v, got, from);
			SEQ_CHECK_MSG(M::HasMapping(v) == (to != -1000) && M::HasBackMapping(v) == (from != -1000), "table %d>%d %d>%d: HasMapping of %d", S1, D1, S2, D2, v);
		}
	}
	template < int S1, int D1, int S2 > struct AllD2
	{
		template < int D2 > static void Defaults() { CheckMap<S1, D1, S2, D2, 7, 7>(); CheckMap<S1, D1, S2, D2, 0, 7>(); CheckMap<S1, D1, S2, D2, 7, 5>(); }
		static void Do() { Defaults<0>(); Defaults<2>(); Defaults<6>(); }
	};
	template < int S1, int D1 > void AllS2() { AllD2<S1, D1, 0>::Do(); AllD2<S1, D1, 1>::Do(); AllD2<S1, D1, 3>::Do(); }
	template < int S1 > void AllD1() { AllS2<S1, 1>(); AllS2<S1, 3>(); AllS2<S1, 4>(); AllS2<S1, 5>(); }
	// an entry without a counterpart, one way only
	struct OneWay : public BaseValueMapper<OneWay, u8, s16>
	{
		typedef TypeList<Src::Value<1>, Dst::Fail, Src::Range<0, 3>, Dst::Value<9>> MappingsList;
		typedef TypeList<Src::Value<1>, Dst::Value<8>> DefaultMapping;
	};

	// ---- tags
	struct Tag
	{
		STINGRAYKIT_ENUM_VALUES(A = 3, B = 100, C = 101, D = 200, E = 255);
		STINGRAYKIT_DECLARE_ENUM_CLASS(Tag);
	};
	struct Entity { int id; explicit Entity(int id) : id(id) { } virtual ~Entity() { } };
	STINGRAYKIT_DECLARE_PTR(Entity);
	struct EA : public Entity { EA() : Entity(3) { } }; struct EB : public Entity { EB() : Entity(100) { } }; struct EC : public Entity { EC() : Entity(101) { } };
	struct ED : public Entity { explicit ED(int x) : Entity(x) { } };
	struct FD { template < typename S > static shared_ptr<Entity> Create(S& s) { return make_shared_ptr<ED>(1000 + s.template Peek<8>()); } };
	struct EE : public Entity { EE() : Entity(255) { } };
	struct FA { static std::string Do(int x, std::string* r) { *r += "A"; return "A" + std::to_string(x); } }; struct FB { static std::string Do(int x, std::string* r) { *r += "B"; return "B" + std::to_string(x); } };
	struct FC { static std::string Do(int x, std::string* r) { *r += "C"; return "C" + std::to_string(x); } }; struct FDo { static std::string Do(int x, std::string* r) { *r += "D"; return "D" + std::to_string(x); } };
	struct FE { static std::string Do(int x, std::string* r) { *r += "E"; return "E" + std::to_string(x); } };

	template < int N > struct TagNo; template < > struct TagNo<0> { static const Tag::Enum V = Tag::A; typedef EA T; typedef FA F; }; template < > struct TagNo<1> { static const Tag::Enum V = Tag::B; typedef EB T; typedef FB F; };
	template < > struct TagNo<2> { static const Tag::Enum V = Tag::C; typedef EC T; typedef FC F; }; template < > struct TagNo<3> { static const Tag::Enum V = Tag::D; typedef FD T; typedef FDo F; }; template < > struct TagNo<4> { static const Tag::Enum V = Tag::E; typedef EE T; typedef FE F; };

	template < size_t Offset, size_t Length, int... Ns >
	struct Fact : public GenericEntityFactory<Fact<Offset, Length, Ns...>, Entity, Tag, GenericEntityTagReader<Tag, Offset, Length>>
	{
		typedef GenericEntityFactory<Fact<Offset, Length, Ns...>, Entity, Tag, GenericEntityTagReader<Tag, Offset, Length>> B;
		template < int N > using R = typename B::template RegistryEntry<TagNo<N>::V, typename TagNo<N>::T>;
		typedef TypeList<R<Ns>...> Registry;
	};
	template < template < typename > class Leaf, int... Ns >
	struct Inv : public GenericInvoker<Inv<Leaf, Ns...>, Tag, std::string, Leaf>
	{
		typedef GenericInvoker<Inv<Leaf, Ns...>, Tag, std::string, Leaf> B;
		template < int N > using R = typename B::template RegistryEntry<TagNo<N>::V, typename TagNo<N>::F>;
		typedef TypeList<R<Ns>...> Registry;
	};
	const int TagValues[] = { 3, 100, 101, 200, 255 };
	const char TagLetters[] = "ABCDE";

	template < size_t Offset, int... Ns > void CheckFactory()
	{
		typedef Fact<Offset, 8, Ns...> F; const int ns[] = { Ns... };
		for (int tag = 0; tag < 256; ++tag) for (int skip = 0; skip <= 8; skip += 4)
		{
			seq::Cases(1);
			u8 raw[5] = { 0x5A, 0x5A, 0x5A, 0x5A, 0x5A }; const size_t at = Offset + skip;
			for (int b = 0; b < 8; ++b) { const size_t i = at + b; raw[i / 8] = (raw[i / 8] & ~(0x80 >> i % 8)) | ((tag >> (7 - b) & 1) ? 0x80 >> i % 8 : 0); }
			int first = 0; for (int b = 0; b < 8; ++b) first = first * 2 + (raw[(skip + b) / 8] >> (7 - (skip + b) % 8) & 1);
			BitStream s(ByteData(raw, sizeof raw)); s.Skip(skip);
			int expected = -1; for (int n : ns) if (TagValues[n] == tag) expected = n == 3 ? 1000 + first : tag;
			BitStream::Watcher w(s); EntityPtr e; const bool threw = Throws([&] { e = F::Create(s); });
			SEQ_CHECK_MSG(threw == (expected < 0) && (e ? e->id : -1) == expected, "tag %d made entity %d, expected %d", tag, e ? e->id : -1, expected);
			SEQ_CHECK_MSG(w.GetOffsetDelta() == 0, "the stream was moved by %zu bits", w.GetOffsetDelta());
		}
	}
	template < int... Ns > void CheckInvoker()
	{
		const int ns[] = { Ns... };
		for (int tag = 0; tag < 256; ++tag)
		{
			seq::Cases(2);
			std::string expected, calls; for (int n : ns) if (TagValues[n] == tag) expected = std::string(1, TagLetters[n]);
			std::string got = "?"; bool unknown = false; try { got = Inv<ThrowLeafFunc, Ns...>::template Invoke<int, std::string*>(Tag::Enum(tag), 7, &calls); } catch (const UnknownEntityTagException&) { unknown = true; }
			SEQ_CHECK_MSG(unknown == expected.empty() && got == (unknown ? "?" : expected + "7") && calls == expected, "tag %d invoked '%s'", tag, calls.c_str());
			calls.clear(); got = Inv<DefaultConstructorLeafFunc, Ns...>::template Invoke<int, std::string*>(Tag::Enum(tag), 8, &calls);
			SEQ_CHECK_MSG(got == (expected.empty() ? "" : expected + "8") && calls == expected, "tag %d invoked '%s' and gave '%s'", tag, calls.c_str(), got.c_str());
		}
	}

	// ---- visiting
	struct VBase : public virtual IVisitable<VBase> { int id; explicit VBase(int id) : id(id) { } virtual ~VBase() { } };
	struct Pad { int pad; virtual ~Pad() { } Pad() : pad(5) { } };
	struct VA : public Pad, public VBase, public Visitable<VBase, VA> { VA() : VBase(1) { } };
	struct VB : public VBase, public Visitable<VBase, VB> { VB() : VBase(2) { } };
	struct VC : public VA { VC() { id = 3; } }; // visited as a VA
	struct VD : public VB, public Visitable<VBase, VD>
	{
		VD() { id = 4; }
		void Accept(const stingray::Detail::IVisitorWrapper<VBase>& v, VBase& t) override { Visitable<VBase, VD>::Accept(v, t); }
		void Accept(const stingray::Detail::IVisitorWrapper<shared_ptr<VBase>>& v, const shared_ptr<VBase>& t) override { Visitable<VBase, VD>::Accept(v, t); }
		void Accept(const stingray::Detail::IVisitorWrapper<const VBase>& v, const VBase& t) const override { Visitable<const VBase, const VD>::Accept(v, t); }
		void Accept(const stingray::Detail::IVisitorWrapper<shared_ptr<const VBase>>& v, const shared_ptr<const VBase>& t) const override { Visitable<const VBase, const VD>::Accept(v, t); }
	};

	std::string* g_log;
	template < typename T > void Note(const char* as, const T& t) { *g_log += as + std::to_string(t.id) + ";"; }
	struct V1 : public Visitor<VBase, VA> { void Visit(VA& a) const { Note("A", a); a.pad = 6; } };
	struct V1c : public Visitor<const VBase, const VA, int> { int Visit(const VA& a) const { Note("A", a); return 10 + a.id + a.pad; } };
	struct V2 : public Visitor<VBase, TypeList<VA, VB>, std::string> { std::string Visit(VA& a) const { Note("A", a); return "a"; } std::string Visit(VB& b) const { Note("B", b); return "b"; } };
	struct V3 : public Visitor<VBase, TypeList<VB, VD>, int> { int Visit(VBase& x) const { Note("?", x); return -x.id; } int Visit(VB& b) const { Note("B", b); return b.id; } int Visit(VD& d) const { Note("D", d); return 100 + d.id; } };
	struct V4 : public Visitor<shared_ptr<VBase>, shared_ptr<VA>, shared_ptr<VA>> { shared_ptr<VA> Visit(const shared_ptr<VA>& a) const { Note("A", *a); return a; } };
	struct V5 : public Visitor<shared_ptr<const VBase>, TypeList<shared_ptr<const VA>, shared_ptr<const VB>>, int> { int Visit(const shared_ptr<const VA>& a) const { Note("A", *a); return a->id + a->pad; } int Visit(const shared_ptr<const VB>& b) const { Note("B", *b); return 50 + b->id; } };

	// ---- casts
	struct Root { int n; Root() : n(1) { } virtual ~Root() { } };
	struct Left : public virtual Root { int l; Left() : l(2) { } }; struct Right : public virtual Root { int r; Right() : r(3) { } };
	struct Both : public Left, public Right { int b; Both() : b(4) { } };
	struct Other { int o; Other() : o(5) { } virtual ~Other() { } };
	struct BothOther : public Both, public Other { };

	template < typename Dst, typename Src > void CheckCast(Src& obj)
	{
		seq::Cases(5);
		Dst* const expected = dynamic_cast<Dst*>(&obj); Src* p = &obj; const Src& cobj = obj; const Src* cp = &obj;
		Dst* got = dynamic_caster(p); SEQ_CHECK(got == expected); SEQ_CHECK(DynamicCast<Dst*>(p) == expected);
		const Dst* cgot = dynamic_caster(cp); SEQ_CHECK(cgot == expected);
		Dst* byRef = 0; const bool threw = Throws([&] { Dst& r = dynamic_caster(obj); byRef = &r; }); SEQ_CHECK_MSG(byRef == expected && threw == !expected, "cast of a reference");
		const Dst* byCref = 0; const bool cthrew = Throws([&] { const Dst& r = dynamic_caster(cobj); byCref = &r; }); SEQ_CHECK_MSG(byCref == expected && cthrew == !expected, "cast of a const reference");
		try { DynamicCast<Dst&>(obj); SEQ_CHECK(expected); } catch (const InvalidCastException&) { SEQ_CHECK(!expected); }
		Dst* checked = 0; const bool chthrew = Throws([&] { checked = STINGRAYKIT_CHECKED_DYNAMIC_CASTER(p); }); SEQ_CHECK_MSG(checked == expected && chthrew == !expected, "checked cast");
		Src* null_ = 0; Dst* fromNull = dynamic_caster(null_); SEQ_CHECK(!fromNull);
		checked = expected; SEQ_CHECK(!Throws([&] { checked = STINGRAYKIT_CHECKED_DYNAMIC_CASTER(null_); }) && !checked);
	}
	template < typename Dst, typename Src > void CheckSharedCast(const shared_ptr<Src>& p)
	{
		seq::Cases(4);
		Dst* const expected = dynamic_cast<Dst*>(p.get()); const size_t count = p.use_count();
		{
			shared_ptr<Dst> got = dynamic_caster(p); SEQ_CHECK_MSG(got.get() == expected && p.use_count() == count + (expected ? 1 : 0), "cast of a shared pointer: count %zu", p.use_count());
			shared_ptr<Dst> checked; const bool threw = Throws([&] { checked = STINGRAYKIT_CHECKED_DYNAMIC_CASTER(p); }); SEQ_CHECK_MSG(checked.get() == expected && threw == !expected, "checked cast of a shared pointer");
			SEQ_CHECK_MSG(p.use_count() == count + (expected ? 2 : 0), "count %zu", p.use_count());
		}
		SEQ_CHECK(p.use_count() == count);
		const shared_ptr<Src> none; shared_ptr<Dst> fromNone = dynamic_caster(none); SEQ_CHECK(!fromNone);
		SEQ_CHECK(!Throws([&] { fromNone = STINGRAYKIT_CHECKED_DYNAMIC_CASTER(none); }) && !fromNone);
	}
	template < typename Src, typename Obj > void AllCasts(Obj& o) { Src& s = o; CheckCast<Root>(s); CheckCast<Left>(s); CheckCast<Right>(s); CheckCast<Both>(s); CheckCast<Other>(s); CheckCast<BothOther>(s); }
	template < typename Src, typename Obj > void AllSharedCasts() { const shared_ptr<Src> p = make_shared_ptr<Obj>(); CheckSharedCast<Root>(p); CheckSharedCast<Left>(p); CheckSharedCast<Right>(p); CheckSharedCast<Both>(p); CheckSharedCast<Other>(p); CheckSharedCast<BothOther>(p); }

	// ---- the factory
	int g_alive;
	struct Counted : public virtual IFactoryObject { std::string GetClassName() const override { return ""; } Counted() { ++g_alive; } ~Counted() { --g_alive; } };
	struct P0 : public Counted { }; struct P1 : public Counted { }; struct P2 : public P0 { };
}

SEQ_SCENARIO(mapping, .Q(0).T(0))
{
	switch (seq::Pick(4))
	{
	case 0: AllD1<0>(); break;
	case 1: AllD1<2>(); break;
	case 2: AllD1<4>(); break;
	case 3: AllD1<6>(); AllD1<5>(); break;
	}
	seq::Step();
	for (int v = 0; v < 256; ++v)
	{
		int got = -1000; const bool threw = Throws([&] { got = OneWay::Map(v); });
		SEQ_CHECK_MSG(threw == (v == 1) && (threw || got == (v < 3 ? 9 : 8)) && OneWay::HasMapping(v) == (v != 1), "one way: %d", v);
		SEQ_CHECK((IdentityMapper<u8, u16>::Map(v) == v) && (IdentityMapper<u16, u8>::Unmap(v) == v));
	}
}

SEQ_SCENARIO(tags, .Q(0).T(0))
{
	switch (seq::Pick(6))
	{
	case 0: CheckFactory<0, 0, 1, 2, 3, 4>(); CheckFactory<0, 4, 3, 2, 1, 0>(); CheckFactory<0, 2, 0, 4, 1, 3>(); break;
	case 1: CheckFactory<8, 1, 3, 0, 2>(); CheckFactory<4, 3, 1, 2>(); CheckFactory<16, 2, 1>(); CheckFactory<3, 3>(); CheckFactory<0, 0>(); CheckFactory<8, 4, 0>(); break;
	case 2: CheckInvoker<0>(); CheckInvoker<4>(); CheckInvoker<0, 1>(); CheckInvoker<1, 0>(); CheckInvoker<2, 1>(); CheckInvoker<3, 4>(); CheckInvoker<4, 0>(); break;
	case 3: CheckInvoker<0, 1, 2>(); CheckInvoker<0, 2, 1>(); CheckInvoker<1, 0, 2>(); CheckInvoker<1, 2, 0>(); CheckInvoker<2, 0, 1>(); CheckInvoker<2, 1, 0>(); break;
	case 4: CheckInvoker<0, 1, 2, 3>(); CheckInvoker<3, 2, 1, 0>(); CheckInvoker<1, 3, 0, 2>(); CheckInvoker<2, 0, 3, 1>(); CheckInvoker<3, 4, 1, 2>(); CheckInvoker<4, 1, 3, 2>(); break;
	case 5: CheckInvoker<0, 1, 2, 3, 4>(); CheckInvoker<4, 3, 2, 1, 0>(); CheckInvoker<2, 0, 4, 1, 3>(); CheckInvoker<1, 4, 0, 3, 2>(); break;
	}
	seq::Step();
}

SEQ_SCENARIO(visiting, .Q(2).T(3).Split(2))
{
	std::string log; g_log = &log;
	VA a; VB b; VC c; VD d; VBase* const objs[] = { &a, &b, &c, &d };
	const shared_ptr<VBase> ptrs[] = { make_shared_ptr<VA>(), make_shared_ptr<VB>(), make_shared_ptr<VC>(), make_shared_ptr<VD>() };
	for (int s = 0; s < depth; ++s)
	{
		const int v = seq::Pick(6), o = seq::Pick(4); SEQ_LOG("visitor %d visits object %d", v, o); seq::Step();
		const bool isA = o == 0 || o == 2; log.clear(); std::string expected = "!";
		const std::string id = std::to_string(o == 2 ? 3 : o == 3 ? 4 : o + 1);
		VBase& obj = *objs[o]; const int pad = o == 0 ? a.pad : c.pad;
		try
		{
			switch (v)
			{
			case 0: expected = isA ? "A" + id + ";" : "!"; ApplyVisitor(V1(), obj); SEQ_CHECK_MSG((o == 0 ? a.pad : c.pad) == 6, "another object was visited"); break;
			case 1: { expected = isA ? "A" + id + ";" : "!"; const int r = ApplyVisitor(V1c(), static_cast<const VBase&>(obj)); SEQ_CHECK_MSG(r == 10 + obj.id + pad, "visiting gave %d", r); break; }
			case 2: { expected = isA ? "A" + id + ";" : o == 1 ? "B" + id + ";" : "!"; const std::string r = ApplyVisitor(V2(), obj); SEQ_CHECK_MSG(r == (isA ? "a" : "b"), "visiting gave %s", r.c_str()); break; }
			case 3: { expected = (isA ? "?" : o == 1 ? "B" : "D") + id + ";"; const int r = MakeVisitorApplier(V3())(obj); SEQ_CHECK_MSG(r == (isA ? -obj.id : o == 1 ? obj.id : 100 + obj.id), "visiting gave %d", r); break; }
			case 4: { expected = isA ? "A" + id + ";" : "!"; const size_t n = ptrs[o].use_count(); { const shared_ptr<VA> r = ApplyVisitor(V4(), ptrs[o]); SEQ_CHECK_MSG(static_cast<VBase*>(r.get()) == ptrs[o].get() && ptrs[o].use_count() == n + 1, "the visited pointer does not share ownership"); } SEQ_CHECK(ptrs[o].use_count() == n); break; }
			case 5: { expected = isA ? "A" + id + ";" : o == 1 ? "B" + id + ";" : "!"; const shared_ptr<const VBase> p = ptrs[o]; const int r = ApplyVisitor(V5(), p); SEQ_CHECK_MSG(r == (isA ? p->id + 5 : 50 + p->id), "visiting gave %d", r); break; }
			}
		}
		catch (const VisitorException&) { log += "!"; }
		SEQ_CHECK_MSG(log == expected, "visited as %s, expected %s", log.c_str(), expected.c_str());
	}
}

SEQ_SCENARIO(casting, .Q(0).T(0))
{
	Root root; Left left; Right right; Both both; Other other; BothOther all;
	switch (seq::Pick(3))
	{
	case 0: AllCasts<Root>(root); AllCasts<Root>(left); AllCasts<Root>(right); AllCasts<Root>(both); AllCasts<Root>(all); AllCasts<Other>(other); AllCasts<Other>(all); break;
	case 1: AllCasts<Left>(left); AllCasts<Left>(both); AllCasts<Left>(all); AllCasts<Right>(right); AllCasts<Right>(both); AllCasts<Right>(all); AllCasts<Both>(both); AllCasts<Both>(all); AllCasts<BothOther>(all); break;
	case 2: AllSharedCasts<Root, Root>(); AllSharedCasts<Root, Left>(); AllSharedCasts<Root, Both>(); AllSharedCasts<Root, BothOther>(); AllSharedCasts<Left, Both>(); AllSharedCasts<Right, BothOther>(); AllSharedCasts<Other, Other>(); AllSharedCasts<Other, BothOther>(); AllSharedCasts<Both, BothOther>(); break;
	}
	seq::Step();
	const TypeInfo infos[] = { TypeInfo(static_cast<Root&>(both)), TypeInfo(typeid(Both)), TypeInfo(left), TypeInfo(typeid(Right)), TypeInfo(static_cast<Root&>(right)) };
	const int same[] = { 0, 0, 1, 2, 2 };
	for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) { SEQ_CHECK((infos[i] == infos[j]) == (same[i] == same[j])); SEQ_CHECK(!(infos[i] < infos[j] && infos[j] < infos[i]) && (infos[i] < infos[j] || infos[j] < infos[i]) == (same[i] != same[j])); }
}

SEQ_SCENARIO(factory, .Q(4).T(5).Split(3))
{
	SEQ_CHECK(g_alive == 0);
	const FactoryContextPtr base = make_shared_ptr<FactoryContext>(), derived = make_shared_ptr<FactoryContext>(base);
	FactoryContext* const ctx[] = { base.get(), derived.get() };
	std::map<std::string, int> makers[2]; std::map<int, std::string> names[2]; static const char* const texts[] = { "x", "y" };
	const std::type_info* const types[] = { &typeid(P0), &typeid(P1), &typeid(P2) };
	for (int s = 0; s < depth; ++s)
	{
		const int w = seq::Pick(2), type = seq::Pick(3), n = seq::Pick(2); SEQ_LOG("register class %d as %s in context %d", type, texts[n], w); seq::Step();
		const bool threw = Throws([&] { if (type == 0) ctx[w]->Register<P0>(texts[n]); else if (type == 1) ctx[w]->Register<P1>(texts[n]); else ctx[w]->Register<P2>(texts[n]); });
		SEQ_CHECK_MSG(threw == (makers[w].count(texts[n]) != 0), "registering twice");
		if (!threw) { makers[w][texts[n]] = type; names[w].emplace(type, texts[n]); }
		for (int q = 0; q < 2; ++q)
		{
			for (const char* t : texts)
			{
				int expected = -1; for (int z = q; z >= 0 && expected < 0; --z) if (makers[z].count(t)) expected = makers[z][t];
				int got = -1; Throws([&] { unique_ptr<Counted> p(ctx[q]->Create<Counted>(t)); SEQ_CHECK(g_alive == 1); for (int z = 0; z < 3; ++z) if (typeid(*p) == *types[z]) got = z; });
				SEQ_CHECK_MSG(got == expected && g_alive == 0, "context %d makes class %d of name %s, expected %d (%d left)", q, got, t, expected, g_alive);
				bool asP0 = false; Throws([&] { unique_ptr<P0> p(ctx[q]->Create<P0>(t)); asP0 = true; });
				SEQ_CHECK_MSG(asP0 == (expected == 0 || expected == 2) && g_alive == 0, "created as another class");
			}
			for (int type = 0; type < 3; ++type)
			{
				std::string expected = "!", got = "!"; for (int z = q; z >= 0 && expected == "!"; --z) if (names[z].count(type)) expected = names[z][type];
				Throws([&] { got = ctx[q]->GetClassName(*types[type]); });
				SEQ_CHECK_MSG(got == expected, "the name of class %d is %s, expected %s", type, got.c_str(), expected.c_str());
			}
		}
	}
}

// ---- creators: each call makes what was asked for, from the arguments given once, whatever happens to them or to what was made before
namespace
{
	struct IMade { virtual ~IMade() { } virtual int A() const = 0; virtual std::string B() const = 0; virtual void Spoil() = 0; };
	int g_made = 0;
	struct Made : public virtual IMade { int a; std::string b; Made() : a(7), b("default") { ++g_made; } Made(int a_, const std::string& b_) : a(a_), b(b_) { ++g_made; } int A() const override { return a; } std::string B() const override { return b; } void Spoil() override { a = -1; b = "spoilt"; } };
	struct MadeByRef : public virtual IMade { int a; std::string b; MadeByRef(int a_, std::string&& b_) : a(a_), b(std::move(b_)) { ++g_made; } MadeByRef(int a_, const std::string& b_) : a(a_), b(b_) { ++g_made; } int A() const override { return a; } std::string B() const override { return b; } void Spoil() override { b.clear(); } };
	struct Single : public Made { };
	struct Holder { shared_ptr<ICreator<IMade>> c; int a; std::string b; bool single; };
}
SEQ_SCENARIO(creators, .Q(4).T(5).Split(2))
{
	g_made = 0; std::vector<Holder> hs; const int k = seq::Pick(4);
	{
		int a = 3; std::string b = "a string long enough to live on the heap";
		switch (k)
		{
		case 0: hs.push_back({ MakeConstructorCreator<IMade, Made>(a, b), 3, b, false }); break;
		case 1: hs.push_back({ MakeConstructorCreator<IMade, MadeByRef>(a, std::string(b)), 3, b, false }); break;
		case 2: hs.push_back({ MakeConvertingCreator<IMade, Made>(MakeConstructorCreator<Made, Made>()), 7, "default", false }); break;
		case 3: hs.push_back({ make_shared_ptr<SingleInstanceCreator<IMade, Single>>(), 7, "default", true }); hs.push_back({ MakeConvertingCreator<IMade, Single>(make_shared_ptr<SingleInstanceCreator<Single, Single>>()), 7, "default", true }); break;
		}
		a = 9; b = "changed";
	}
	SEQ_CHECK_MSG(g_made == 0, "made before it was asked for");
	std::vector<shared_ptr<IMade>> made; const int before = g_made;
	for (int n = 0; n < depth; ++n)
	{
		const Holder& h = hs[seq::Pick(hs.size())];
		switch (seq::Pick(3))
		{
		case 0: { shared_ptr<IMade> m = h.c->Create(); SEQ_CHECK(m); if (!h.single) SEQ_CHECK_MSG(m->A() == h.a && m->B() == h.b, "made %d %s", m->A(), m->B().c_str()); for (const auto& o : made) SEQ_CHECK_MSG((o == m) == h.single, "instances %s", h.single ? "differ" : "shared"); made.push_back(m); SEQ_LOG("create"); } break;
		case 1: if (made.empty() || h.single) return; made.back()->Spoil(); SEQ_LOG("spoil"); break;
		case 2: if (made.empty() || h.single) return; made.pop_back(); SEQ_LOG("drop"); break;
		}
		if (!h.single) SEQ_CHECK(g_made - before >= (int)made.size()); else SEQ_CHECK(g_made - before <= 1);
	}
}
