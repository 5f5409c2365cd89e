// Z01, part 2: collections behind interfaces, objects behind pointers, composites, any, helpers.
#include "Z01s.h"
#include <stingraykit/collection/ArrayObservableList.h>
#include <stingraykit/collection/MapObservableDictionary.h>
#include <stingraykit/collection/MultiMapObservableDictionary.h>
#include <stingraykit/collection/SortedObservableSet.h>
#include <stingraykit/collection/TransactionalDictionary.h>
#include <stingraykit/collection/TransactionalList.h>
#include <stingraykit/log/Logger.h>

using namespace z;
typedef std::string Str;

namespace zo
{
	// ---- objects
	struct Leaf : public virtual ISerializable, public virtual IFactoryObject
	{
		s32 A; Str B;
		Leaf() : A(-1), B("unset") { }
		Leaf(s32 a, const Str& b) : A(a), B(b) { }
		void Serialize(ObjectOStream& ar) const override { ar.Serialize("a", A).Serialize("b", B); }
		void Deserialize(ObjectIStream& ar) override { ar.Deserialize("a", A).Deserialize("b", B); }
		STINGRAYKIT_REGISTER_CLASS(Leaf);
	};

	struct Branch : public virtual ISerializable, public virtual IFactoryObject
	{
		ISerializablePtr Left; std::vector<ISerializablePtr> Rest; optional<u8> Tag; s32 Old;
		Branch() : Old(3) { }
		void Serialize(ObjectOStream& ar) const override { ar.Serialize("left", Left).Serialize("rest", Rest).Serialize("tag", Tag); if (Old != 3) ar.Serialize("old", Old); }
		void Deserialize(ObjectIStream& ar) override { ar.Deserialize("left", Left).Deserialize("rest", Rest).Deserialize("tag", Tag).Deserialize("old", Old, 3); }
		STINGRAYKIT_REGISTER_CLASS(Branch);
	};

	// registered, but not an ISerializable
	struct Alien : public virtual IFactoryObject { STINGRAYKIT_REGISTER_CLASS(Alien); };

	bool Same(const ISerializablePtr& l, const ISerializablePtr& r)
	{
		if (!l || !r)
			return !l && !r;
		const Leaf* ll = dynamic_cast<const Leaf*>(l.get()); const Leaf* rl = dynamic_cast<const Leaf*>(r.get());
		if (ll || rl)
			return ll && rl && ll->A == rl->A && ll->B == rl->B;
		const Branch* lb = dynamic_cast<const Branch*>(l.get()); const Branch* rb = dynamic_cast<const Branch*>(r.get());
		if (!lb || !rb || !Same(lb->Left, rb->Left) || lb->Rest.size() != rb->Rest.size() || lb->Tag != rb->Tag || lb->Old != rb->Old)
			return false;
		for (size_t i = 0; i < lb->Rest.size(); ++i)
			if (!Same(lb->Rest[i], rb->Rest[i]))
				return false;
		return true;
	}

	struct Plain : public virtual NonPolymorphicMarker
	{
		u16 N; optional<Str> O; std::vector<u8> Bytes;
		Plain() : N(5) { }
		void Serialize(ObjectOStream& ar) const { ar.Serialize("n", N).Serialize("o", O).Serialize("bytes", Bytes); }
		void Deserialize(ObjectIStream& ar) { ar.Deserialize("n", N).Deserialize("o", O).Deserialize("bytes", Bytes); }
		bool operator == (const Plain& r) const { return N == r.N && O == r.O && Bytes == r.Bytes; }
	};
	STINGRAYKIT_DECLARE_PTR(Plain);

	struct Weird;	// a tag: numbers as hexadecimal text

	struct Holder
	{
		STINGRAYKIT_ENUM_VALUES(Red = 1, Green, Blue);
		STINGRAYKIT_DECLARE_ENUM_CLASS(Holder);
	};

	STINGRAYKIT_DECLARE_COMPOSITE(Comp,
		STINGRAYKIT_DECLARE_COMPOSITE_MEMBER(s32, Number, number),
		STINGRAYKIT_DECLARE_COMPOSITE_MEMBER(Str, Text, text),
		STINGRAYKIT_DECLARE_COMPOSITE_MEMBER(optional<s32>, Maybe, maybe),
		STINGRAYKIT_DECLARE_COMPOSITE_MEMBER(u32, Proxy, proxy, StringProxySerializationTag),
		STINGRAYKIT_DECLARE_COMPOSITE_MEMBER(optional<u8>, MaybeProxy, maybeProxy, StringProxySerializationTag));

	bool operator == (const Comp& l, const Comp& r)
	{ return l.GetNumber() == r.GetNumber() && l.GetText() == r.GetText() && l.GetMaybe() == r.GetMaybe() && l.GetProxy() == r.GetProxy() && l.GetMaybeProxy() == r.GetMaybeProxy(); }

	// ---- a value that goes through a helper with keys
	struct Keyed
	{
		s32 A; Str B; optional<bool> C;
		Keyed() : A(1), B("one") { }
		void Serialize(ObjectOStream& ar) const
		{ ar.Serialize("h", MakeSerializationHelper(std::make_pair("a", A), std::make_pair("b", B), std::make_pair("c", C))); }
		void Deserialize(ObjectIStream& ar)
		{
			SerializationHelper<s32, Str, optional<bool>> h("a", "b", "c");
			ar.Deserialize("h", *h);
			A = h.GetValue<0>(); B = h.GetValue<1>(); C = h.GetValue<2>();
		}
		bool operator == (const Keyed& r) const { return A == r.A && B == r.B && C == r.C; }
	};

	// ---- tagged members outside of a composite
	struct Tagged
	{
		s32 A; optional<u16> B; u8 C; optional<Str> D;
		Tagged() : A(0), C(0) { }
		void Serialize(ObjectOStream& ar) const
		{ ar.Serialize("a", MakeStringProxySerializer(A)).Serialize("b", MakeStringProxySerializer(B)).Serialize("c", C).Serialize("d", MakeSerializer<DefaultSerializationTag>(D)); }
		void Deserialize(ObjectIStream& ar)
		{
			ar.Deserialize("a", *MakeStringProxyDeserializer(A));
			ar.Deserialize("b", *MakeStringProxyDeserializer(B));
			ar.Deserialize("c", *MakeIntegerDeserializer(C));
			ar.Deserialize("d", *MakeDeserializer<DefaultSerializationTag>(D));
		}
		bool operator == (const Tagged& r) const { return A == r.A && B == r.B && C == r.C && D == r.D; }
	};

	// ---- collections behind interfaces
	template < typename Value_, typename Concrete_, typename Interface_ >
	struct Coll
	{
		shared_ptr<Concrete_> C;
		Coll() : C(make_shared_ptr<Concrete_>()) { }
		operator Interface_& () const { return *C; }
	};

	template < typename K, typename V > void Contents(const IReadonlyDictionary<K, V>& d, std::vector<std::pair<K, V>>& out)
	{ typedef KeyValuePair<K, V> P; FOR_EACH(P p IN d.GetEnumerator()) out.push_back(std::make_pair(p.Key, p.Value)); }
	template < typename K, typename V > void Contents(const IReadonlyMultiDictionary<K, V>& d, std::vector<std::pair<K, V>>& out)
	{ typedef KeyValuePair<K, V> P; FOR_EACH(P p IN d.GetEnumerator()) out.push_back(std::make_pair(p.Key, p.Value)); }
	template < typename T > void Contents(const IReadonlyList<T>& d, std::vector<T>& out)
	{ FOR_EACH(T v IN d.GetEnumerator()) out.push_back(v); }
	template < typename T > void Contents(const IReadonlySet<T>& d, std::vector<T>& out)
	{ FOR_EACH(T v IN d.GetEnumerator()) out.push_back(v); }

	template < typename K, typename V > void Put(IDictionary<K, V>& d, const std::pair<K, V>& v) { d.Set(v.first, v.second); }
	template < typename K, typename V > void Put(IMultiDictionary<K, V>& d, const std::pair<K, V>& v) { d.Add(v.first, v.second); }
	template < typename T > void Put(IList<T>& d, const T& v) { d.Add(v); }
	template < typename T > void Put(ISet<T>& d, const T& v) { d.Add(v); }
	template < typename K, typename V > void Put(ITransactionalDictionary<K, V>& d, const std::pair<K, V>& v) { auto t = d.StartTransaction(); t->Set(v.first, v.second); t->Commit(); }
	template < typename T > void Put(ITransactionalList<T>& d, const T& v) { auto t = d.StartTransaction(); t->Add(v); t->Commit(); }
}

namespace z
{
	template < > struct Gen<zo::Plain> { static zo::Plain Make() { SmallScope s; zo::Plain p; p.N = Gen<u16>::Make(); p.O = Gen<optional<Str>>::Make(); p.Bytes = Gen<std::vector<u8>>::Make(); return p; } };
	template < > struct Gen<zo::PlainPtr> { static zo::PlainPtr Make() { return seq::Flip() ? zo::PlainPtr() : make_shared_ptr<zo::Plain>(Gen<zo::Plain>::Make()); } };
	template < > struct Eq<zo::PlainPtr> { static bool Same(const zo::PlainPtr& l, const zo::PlainPtr& r) { return l && r ? *l == *r : !l && !r; } };
	template < > struct Eq<std::vector<zo::PlainPtr>>
	{
		static bool Same(const std::vector<zo::PlainPtr>& l, const std::vector<zo::PlainPtr>& r)
		{ if (l.size() != r.size()) return false; for (size_t i = 0; i < l.size(); ++i) if (!Eq<zo::PlainPtr>::Same(l[i], r[i])) return false; return true; }
	};
	template < > struct Gen<zo::Holder> { static zo::Holder Make() { return Of<zo::Holder>({ zo::Holder::Red, zo::Holder::Blue, zo::Holder::Green }); } };
	template < > struct Gen<zo::Comp> { static zo::Comp Make() { SmallScope s; const s32 a = Gen<s32>::Make(); const Str b = Gen<Str>::Make(); const optional<s32> c = Gen<optional<s32>>::Make(); const u32 d = Gen<u32>::Make(); const optional<u8> e = Gen<optional<u8>>::Make(); return zo::Comp(a, b, c, d, e); } };
	template < > struct Gen<zo::Keyed> { static zo::Keyed Make() { SmallScope s; zo::Keyed k; k.A = Gen<s32>::Make(); k.B = Gen<Str>::Make(); k.C = Gen<optional<bool>>::Make(); return k; } };
	template < > struct Gen<zo::Tagged> { static zo::Tagged Make() { SmallScope s; zo::Tagged k; k.A = Gen<s32>::Make(); k.B = Gen<optional<u16>>::Make(); k.C = Gen<u8>::Make(); k.D = Gen<optional<Str>>::Make(); return k; } };

	template < > struct Gen<ISerializablePtr>
	{
		static ISerializablePtr Make()
		{
			SmallScope s;
			static int nested = 0;
			switch (seq::Pick(nested ? 2 : 3))
			{
			case 0: return ISerializablePtr();
			case 1: { const s32 a = Gen<s32>::Make(); return make_shared_ptr<zo::Leaf>(a, nested ? Str("q") : Gen<Str>::Make()); }
			default:
				{
					struct Nest { Nest() { ++nested; } ~Nest() { --nested; } } n;
					SmallScope tiny(2);
					const shared_ptr<zo::Branch> b = make_shared_ptr<zo::Branch>();
					b->Left = Make();
					const size_t count = seq::Pick(3);
					for (size_t i = 0; i < count; ++i)
						b->Rest.push_back(Make());
					b->Tag = Gen<optional<u8>>::Make();
					b->Old = seq::Flip() ? 3 : 4;
					return b;
				}
			}
		}
	};
	template < > struct Eq<ISerializablePtr> { static bool Same(const ISerializablePtr& l, const ISerializablePtr& r) { return zo::Same(l, r); } };

	template < > struct Eq<std::vector<ISerializablePtr>>
	{
		static bool Same(const std::vector<ISerializablePtr>& l, const std::vector<ISerializablePtr>& r)
		{ if (l.size() != r.size()) return false; for (size_t i = 0; i < l.size(); ++i) if (!zo::Same(l[i], r[i])) return false; return true; }
	};

	template < typename V, typename C, typename I > struct Gen<zo::Coll<V, C, I>>
	{
		static zo::Coll<V, C, I> Make()
		{
			SmallScope s;
			zo::Coll<V, C, I> c;
			const size_t n = seq::Pick(Small() == 2 ? 2 : 4);
			for (size_t i = 0; i < n; ++i)
				zo::Put(implicit_cast<I&>(c), Gen<V>::Make());
			return c;
		}
	};
	template < typename V, typename C, typename I > struct Eq<zo::Coll<V, C, I>>
	{
		static bool Same(const zo::Coll<V, C, I>& l, const zo::Coll<V, C, I>& r)
		{ std::vector<V> a, b; zo::Contents(implicit_cast<I&>(l), a); zo::Contents(implicit_cast<I&>(r), b); return a == b; }
	};

	template < > struct Gen<any>
	{
		static any Make()
		{
			SmallScope s;
			switch (seq::Pick(16))
			{
			case 0: return any();
			case 1: return any(Gen<bool>::Make());
			case 2: return any(Gen<char>::Make());
			case 3: return any(Gen<unsigned char>::Make());
			case 4: return any(Gen<short>::Make());
			case 5: return any(Gen<unsigned short>::Make());
			case 6: return any(Gen<int>::Make());
			case 7: return any(Gen<unsigned>::Make());
			case 8: return any(Gen<long>::Make());
			case 9: return any(Gen<unsigned long>::Make());
			case 10: return any(Gen<long long>::Make());
			case 11: return any(Gen<unsigned long long>::Make());
			case 12: return any(Gen<float>::Make());
			case 13: return any(Gen<double>::Make());
			case 14: return any(Gen<Str>::Make());
			default: if (seq::Flip()) return any(ISerializablePtr()); else return any(ISerializablePtr(make_shared_ptr<zo::Leaf>(seq::Flip(), "any")));
			}
		}
	};
	template < > struct Eq<any>
	{
		template < typename T > static bool One(const any& l, const any& r) { const T* a = any_cast<T>(&l); const T* b = any_cast<T>(&r); return a && b ? Eq<T>::Same(*a, *b) : !a && !b; }
		static bool Same(const any& l, const any& r)
		{ return l.empty() == r.empty() && One<bool>(l, r) && One<char>(l, r) && One<unsigned char>(l, r) && One<short>(l, r) && One<unsigned short>(l, r) && One<int>(l, r) && One<unsigned>(l, r) && One<long>(l, r) && One<unsigned long>(l, r) && One<long long>(l, r) && One<unsigned long long>(l, r) && One<float>(l, r) && One<double>(l, r) && One<Str>(l, r) && One<ISerializablePtr>(l, r); }
	};
}

namespace stingray
{
	void Factory::RegisterTypes(const FactoryContextPtr& root)
	{ root->Register<Detail::any::ObjectHolder<ISerializablePtr>>(Detail::any::ObjectHolder<ISerializablePtr>().GetClassName()); }
}

namespace zo
{
	// an environment in which classes are known: some in a base context, some in a derived one
	void Environment()
	{
		static bool once = false;
		if (once)
			return;
		once = true;
		Logger::SetLogLevel(LogLevel::Silent);
		Factory::Instance();
		const FactoryContextPtr base = make_shared_ptr<FactoryContext>();
		base->Register<Leaf>("leaf");
		base->Register<Alien>("alien");
		Context() = make_shared_ptr<FactoryContext>(base);
		Context()->Register<Branch>("branch");
	}
}
using namespace zo;


namespace
{
	template < typename I, typename V, typename C > void Via() { RoundTripVia<I, Coll<V, C, I>>(); }
	void Start(int depth) { Environment(); Collection() = NULL; Deepest() = depth > 1 ? 1 : 2; }
}
typedef std::pair<s32, Str> Pair;

SEQ_SCENARIO(lists, .Q(1).T(2).Split(3))
{
	Start(depth);
	switch (seq::Pick(6))
	{
	case 0: return Via<IList<s32>, s32, ArrayList<s32>>();
	case 1: return Via<IObservableList<Str>, Str, ArrayObservableList<Str>>();
	case 2: return Via<ITransactionalList<s32>, s32, TransactionalList<s32, comparers::Equals>>();
	case 3: return Via<ISet<s32>, s32, SortedSet<s32>>();
	case 4: return Via<IObservableSet<Str>, Str, SortedObservableSet<Str>>();
	default: return Via<IList<std::vector<u8>>, std::vector<u8>, ArrayList<std::vector<u8>>>();
	}
}

SEQ_SCENARIO(dictionaries, .Q(1).T(2).Split(3))
{
	Start(depth);
	switch (seq::Pick(5))
	{
	case 0: return Via<IDictionary<s32, Str>, Pair, MapDictionary<s32, Str>>();
	case 1: return Via<IObservableDictionary<s32, Str>, Pair, MapObservableDictionary<s32, Str>>();
	case 2: return Via<ITransactionalDictionary<s32, Str>, Pair, TransactionalDictionary<s32, Str>>();
	case 3: return Via<IMultiDictionary<s32, Str>, Pair, MultiMapDictionary<s32, Str>>();
	default: return Via<IObservableMultiDictionary<s32, Str>, Pair, MultiMapObservableDictionary<s32, Str>>();
	}
}

// a dictionary may also stand inside an object, under "data"
SEQ_SCENARIO(wrapped, .Q(1).T(1))
{
	(void)depth;
	Environment();
	typedef Coll<Pair, MapDictionary<s32, Str>, IDictionary<s32, Str>> C;
	const C value = Gen<C>::Make();
	SettingsValueMap m;
	m["data"] = Save(implicit_cast<IDictionary<s32, Str>&>(value));
	C back;
	zo::Put(implicit_cast<IDictionary<s32, Str>&>(back), Pair(-5, "old"));
	Load(make_self_count_ptr<SettingsValue>(m), implicit_cast<IDictionary<s32, Str>&>(back));
	SEQ_CHECK_MSG(Eq<C>::Same(value, back), "a dictionary under 'data' was read wrong");
}

SEQ_SCENARIO(plain, .Q(1).T(2).Split(3)) { Start(depth); OneOf<Plain, PlainPtr, std::vector<PlainPtr>, Holder, std::map<Holder, s32>, optional<Holder>>(depth); }
SEQ_SCENARIO(composites, .Q(1).T(2).Split(3)) { Start(depth); OneOf<Comp, Keyed, Tagged>(depth); }
SEQ_SCENARIO(anything, .Q(1).T(2).Split(3)) { Start(depth); OneOf<any>(depth); }
SEQ_SCENARIO(pointers, .Q(1).T(2).Split(3)) { Start(depth); RoundTrip<ISerializablePtr>(); }
SEQ_SCENARIO(pointerlists, .Q(1).T(2).Split(3)) { Start(depth); const SmallScope s(2); RoundTripVia<std::vector<ISerializablePtr>, std::vector<ISerializablePtr>>(); }

// classes which are unknown, of a wrong kind or named by an alias
SEQ_SCENARIO(classes, .Q(1).T(1))
{
	(void)depth;
	Environment();
	static const char* names[] = { "leaf", "branch", "alien", "Leaf", "", "nobody" };
	const size_t k = seq::Pick(6);
	SettingsValueMap m;
	if (seq::Flip())
		m[".class"] = make_self_count_ptr<SettingsValue>(Str(names[k]));
	const bool named = !m.empty();
	m["a"] = make_self_count_ptr<SettingsValue>((s64)5);
	m["b"] = make_self_count_ptr<SettingsValue>(Str("t"));
	const Node node = make_self_count_ptr<SettingsValue>(m);
	bool refused = false;
	ISerializablePtr p = make_shared_ptr<Leaf>(1, "old");
	try { Load(node, p); }
	catch (const std::exception&) { refused = true; }
	SEQ_CHECK_MSG(refused == !(named && k == 0), "an object of class '%s' was %s", named ? names[k] : "(none)", refused ? "refused" : "accepted");
	if (!refused)
		SEQ_CHECK(zo::Same(p, make_shared_ptr<Leaf>(5, "t")));
	refused = false;
	try { Save(shared_ptr<ISerializable>(make_shared_ptr<zo::Branch>())); }
	catch (const std::exception&) { refused = true; }
	SEQ_CHECK(!refused);
	struct Unregistered : public virtual ISerializable, public virtual IFactoryObject
	{ void Serialize(ObjectOStream&) const override { } void Deserialize(ObjectIStream&) override { } Str GetClassName() const override { return "unregistered"; } };
	struct NoFactory : public virtual ISerializable { void Serialize(ObjectOStream&) const override { } void Deserialize(ObjectIStream&) override { } };
	for (const ISerializablePtr& bad : { ISerializablePtr(make_shared_ptr<Unregistered>()), ISerializablePtr(make_shared_ptr<NoFactory>()) })
	{
		refused = false;
		try { Save(bad); }
		catch (const std::exception&) { refused = true; }
		SEQ_CHECK_MSG(refused, "an object of an unknown class was serialised");
	}
}

// objects which live in a collection are referred to by their keys, except at the top level
namespace
{
	struct Store : public IObjectSerializator
	{
		std::vector<ISerializablePtr> Objects;
		PrimaryKeyType GetKey(const Str& classname, const ISerializablePtr& value) const override
		{
			SEQ_CHECK_MSG(classname == "leaf" || classname == "branch", "key asked for class '%s'", classname.c_str());
			for (size_t i = 0; i < Objects.size(); ++i)
				if (Objects[i] == value)
					return i + 100;
			STINGRAYKIT_THROW("no such object");
		}
		ISerializablePtr GetObject(const Str& classname, PrimaryKeyType key) const override
		{
			SEQ_CHECK_MSG(key >= 100 && key < 100 + (int)Objects.size(), "object %d asked for", key);
			return Objects[key - 100];
		}
		void ReleaseRef(const Str&, PrimaryKeyType) const override { }
	};
}

SEQ_SCENARIO(keys, .Q(1).T(1))
{
	(void)depth;
	Environment();
	Store store;
	const shared_ptr<Branch> top = make_shared_ptr<Branch>();
	for (int i = 0; i < 3; ++i)
		store.Objects.push_back(make_shared_ptr<Leaf>(i, "x"));
	const size_t left = seq::Pick(4);
	if (left) top->Left = store.Objects[left - 1];
	const size_t n = seq::Pick(3);
	for (size_t i = 0; i < n; ++i)
	{
		const size_t k = seq::Pick(4);
		top->Rest.push_back(k ? store.Objects[k - 1] : ISerializablePtr());
	}
	store.Objects.push_back(top);
	struct Use { Use(Store* s) { Collection() = s; } ~Use() { Collection() = NULL; } } use(&store);
	const bool whole = seq::Flip();
	const Node node = Save(ISerializablePtr(top), whole);
	ISerializablePtr p;
	Load(node, p);
	if (!whole)
	{
		SEQ_CHECK_MSG(p == top, "a reference was restored as another object");
		SEQ_CHECK(Canon(*node, true) == "{.class:s\"branch\",.pk:i103,}");
		return;
	}
	const shared_ptr<Branch> b = dynamic_caster(p);
	SEQ_CHECK_MSG(b && b != top && b->Left == top->Left && b->Rest == top->Rest, "an object with references was restored wrong: %s", Canon(*node, true).c_str());
	// a key of an object of another kind, or of none
	SettingsValueMap m;
	m[".class"] = make_self_count_ptr<SettingsValue>(Str("leaf"));
	m[".pk"] = make_self_count_ptr<SettingsValue>((s64)103);
	bool refused = false;
	shared_ptr<Leaf> wrong;
	try { Load(make_self_count_ptr<SettingsValue>(m), wrong); }
	catch (const std::exception&) { refused = true; }
	SEQ_CHECK_MSG(refused && !wrong, "an object of another kind was accepted");
}

// every object standing at the top level is stored whole, however many stood there before it
SEQ_SCENARIO(toplevel, .Q(1).T(1))
{
	(void)depth;
	Environment();
	Store store;
	for (int i = 0; i < 2; ++i)
	{
		const shared_ptr<Branch> b = make_shared_ptr<Branch>();
		if (seq::Flip()) b->Left = make_shared_ptr<Leaf>(i, "y");
		store.Objects.push_back(b);
		if (b->Left) store.Objects.push_back(b->Left);
	}
	typedef std::pair<PlainPtr, std::pair<ISerializablePtr, std::pair<PlainPtr, ISerializablePtr>>> Four;
	auto object = [&]() { const size_t k = seq::Pick(store.Objects.size() + 1); return k ? store.Objects[k - 1] : ISerializablePtr(); };
	Four f;
	if (seq::Flip()) f.first = make_shared_ptr<Plain>();
	f.second.first = object();
	if (seq::Flip()) f.second.second.first = make_shared_ptr<Plain>();
	f.second.second.second = object();
	struct Use { Use(Store* s) { Collection() = s; } ~Use() { Collection() = NULL; } } use(&store);
	const bool whole = seq::Flip();
	const Node node = Save(f, whole);
	Four back; Load(node, back);
	for (const auto& p : { std::make_pair(f.second.first, back.second.first), std::make_pair(f.second.second.second, back.second.second.second) })
	{
		if (!p.first || !whole) { SEQ_CHECK_MSG(p.second == p.first, "a reference was restored as another object"); continue; }
		SEQ_CHECK_MSG(p.second && p.second != p.first && zo::Same(p.first, p.second), "an object at the top level was not stored whole: %s", Canon(*node, true).c_str());
	}
}

// restoring over a value leaves everything that merely shared its data alone
SEQ_SCENARIO(shared_data, .Q(1).T(1))
{
	(void)depth;
	Environment();
	auto bytes = [] { std::vector<u8> v(seq::Pick(4)); for (u8& b : v) b = (u8)(seq::Flip() ? 7 : 200); return v; };
	const std::vector<u8> was = bytes(), now = bytes();
	auto is = [](const std::vector<u8>& v, const u8* b, size_t n) { return std::vector<u8>(b, b + n) == v; };
	{ ByteArray x(was), y(x); Load(Save(ByteArray(now)), x); SEQ_CHECK_MSG(is(was, y.data(), y.size()) && is(now, x.data(), x.size()), "array"); }
	{ ConstByteArray x(was), y(x); Load(Save(ByteArray(now)), x); SEQ_CHECK_MSG(is(was, y.data(), y.size()) && is(now, x.data(), x.size()), "constant array"); }
	{ BytesOwner x(BytesOwner::Create(was)), y(x); Load(Save(BytesOwner::Create(now)), x); SEQ_CHECK_MSG(is(was, y.data(), y.size()) && is(now, x.data(), x.size()), "owner"); }
	{ ConstBytesOwner x(ConstBytesOwner::Create(was)), y(x); Load(Save(BytesOwner::Create(now)), x); SEQ_CHECK_MSG(is(was, y.data(), y.size()) && is(now, x.data(), x.size()), "constant owner"); }
	{ const Node n = Save(ByteArray(now)); ByteArray x; Load(n, x); ByteArray y; Load(n, y); SEQ_CHECK_MSG(is(now, x.data(), x.size()) && is(now, y.data(), y.size()), "stored bytes"); }
	{ const shared_ptr<Leaf> l = make_shared_ptr<Leaf>(1, "was"); ISerializablePtr x(l), y(x); Load(Save(ISerializablePtr(make_shared_ptr<Leaf>(2, "now"))), x); SEQ_CHECK_MSG(zo::Same(y, make_shared_ptr<Leaf>(1, "was")) && zo::Same(x, make_shared_ptr<Leaf>(2, "now")), "object"); }
	{ any x(Str("was")), y(x); Load(Save(any(Str("now"))), x); SEQ_CHECK_MSG(any_cast<Str>(y) == "was" && any_cast<Str>(x) == "now", "any"); }
}

// a stored tree written into another stream is the same tree
SEQ_SCENARIO(injected, .Q(1).T(1).Split(3))
{
	Start(depth);
	Node node;
	switch (seq::Pick(4))
	{
	case 0: node = Save(Gen<std::map<Str, any>>::Make()); break;
	case 1: node = Save(Gen<ISerializablePtr>::Make()); break;
	case 2: node = Save(Gen<std::vector<variant<TypeList<EmptyType, double, std::vector<u8>, std::vector<bool>>>>>::Make()); break;
	default: node = Save(Gen<Comp>::Make()); break;
	}
	const Str want = Canon(*node, true);
	const bool nested = seq::Flip();
	const InjectionSerializer first(node);
	const InjectionSerializer second(make_unique_ptr<ObjectIStream>(node.get(), (IObjectSerializator*)NULL));
	for (const InjectionSerializer* i : { &first, &second })
	{
		TreeOStream s(NULL, null, false);
		if (nested)
		{
			struct W { const InjectionSerializer* I; void Serialize(ObjectOStream& ar) const { ar.Serialize("x", *I).Serialize("y", 1); } } w = { i };
			s.Serialize(w);
		}
		else
			s.Serialize(*i);
		SEQ_CHECK_MSG(s.Error().empty() && s.Complete(), "injection misused the writer: %s", s.Error().c_str());
		const Str got = Canon(*s.Root(), true);
		SEQ_CHECK_MSG(got == (nested ? "{x:" + want + ",y:i1,}" : want), "%s was injected as %s", want.c_str(), got.c_str());
	}
}

// errors say where
SEQ_SCENARIO(missing, .Q(1).T(1))
{
	(void)depth;
	Environment();
	// defaults and optionals apply only where the value is missing
	SettingsValueMap m;
	const size_t what = seq::Pick(4);
	if (what == 1) m["v"] = make_self_count_ptr<SettingsValue>((s64)12);
	if (what == 2) m["v"] = make_self_count_ptr<SettingsValue>(Str("12"));
	if (what == 3) m["v"] = make_self_count_ptr<SettingsValue>();
	const Node node = make_self_count_ptr<SettingsValue>(m);
	const size_t how = seq::Pick(6);
	s32 v = 1;
	optional<s32> o = 1;
	bool refused = false;
	try
	{
		ObjectIStream ar(node.get(), NULL);
		switch (how)
		{
		case 0: ar.Deserialize("v", v); break;
		case 1: ar.Deserialize("v", v, 7); break;
		case 2: ar.Deserialize("v", o); break;
		case 3: ar.Deserialize("v", o, 7); break;
		case 4: ar.Deserialize("v", *MakeDeserializer<DefaultSerializationTag>(o)); break;
		default: ar.Deserialize("v", *MakeDeserializer<DefaultSerializationTag>(v)); break;
		}
	}
	catch (const std::exception&) { refused = true; }
	const bool opt = how >= 2 && how <= 4, def = how == 1 || how == 3;
	const bool good = what == 1 || (what == 0 && (opt || def)) || (what == 3 && opt);
	SEQ_CHECK_MSG(refused == !good, "reading %s %s was %s", what == 0 ? "nothing" : what == 1 ? "an integer" : what == 2 ? "a text" : "null", how == 0 ? "as an integer" : how == 1 ? "as an integer with a default" : how == 2 ? "as an optional" : how == 3 ? "as an optional with a default" : how == 4 ? "as a tagged optional" : "as a tagged integer", refused ? "refused" : "accepted");
	if (!good)
		return;
	if (!opt)
		SEQ_CHECK_MSG(v == (what == 1 ? 12 : 7), "read %d", v);
	else if (what == 1)
		SEQ_CHECK_MSG(o == 12, "read %s", o ? "another value" : "nothing");
	else if (what == 0 && def)
		SEQ_CHECK_MSG(o == 7, "the default was not used");
	else
		SEQ_CHECK_MSG(!o, "nothing was read as %d", *o);
}
