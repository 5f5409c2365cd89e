// Shared by the Z01 parts: a stream that writes a tree of settings values, generators of values,
// and the round-trip / damaged-data oracle.
#pragma once
#include "../seq/seq.h"
#include "common.h"
#include <stingraykit/any.h>
#include <stingraykit/collection/ArrayList.h>
#include <stingraykit/collection/BytesOwner.h>
#include <stingraykit/collection/MapDictionary.h>
#include <stingraykit/collection/MultiMapDictionary.h>
#include <stingraykit/collection/SortedSet.h>
#include <stingraykit/factory/Factory.h>
#include <stingraykit/locale/LangCode.h>
#include <stingraykit/locale/LocaleString.h>
#include <stingraykit/serialization/Composite.h>
#include <stingraykit/serialization/InjectionSerializer.h>
#include <stingraykit/serialization/IntegerDeserializer.h>
#include <stingraykit/serialization/Serialization.h>
#include <stingraykit/serialization/SerializationHelper.h>
#include <stingraykit/serialization/Serializer.h>
#include <stingraykit/serialization/SettingsValue.h>
#include <stingraykit/serialization/StringProxySerialization.h>
#include <stingraykit/string/TranslatedString.h>
#include <stingraykit/time/Time.h>
#include <cmath>
#include <list>
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace stingray;

namespace z
{
	typedef SettingsValueSelfCountPtr Node;

	// ---- the writer: builds the tree, and refuses a badly formed sequence of calls
	class TreeOStream : public ObjectOStream
	{
		struct Level { Node Where; bool IsList; bool HasName; std::string Name; };
		std::vector<Level>	_stack;
		Node				_root;
		std::string			_error;

	public:
		TreeOStream(IObjectSerializator* collection, const FactoryContextConstPtr& context, bool top)
			: ObjectOStream(null, collection, context, top) { }

		const std::string& Error() const { return _error; }
		bool Complete() const { return _stack.empty() && _root; }
		Node Root() const { return _root; }

	protected:
		void Put(const Node& node)
		{
			if (_stack.empty())
			{
				if (_root)
					_error = "a second value was written at the top level";
				_root = node;
				return;
			}
			Level& top = _stack.back();
			if (top.IsList)
			{
				top.Where->get<SettingsValueList>().push_back(node);
				return;
			}
			if (!top.HasName)
				_error = "a value without a name was written into an object";
			SettingsValueMap& m = top.Where->get<SettingsValueMap>();
			if (!m.insert(std::make_pair(top.Name, node)).second)
				_error = "property " + top.Name + " was written twice";
			top.HasName = false;
		}
		void Begin(const Node& node, bool list)
		{
			Put(node);
			_stack.push_back(Level{ node, list, false, "" });
		}
		void End(bool list)
		{
			if (_stack.empty() || _stack.back().IsList != list || _stack.back().HasName)
			{
				_error = "unbalanced end of a list or an object";
				return;
			}
			_stack.pop_back();
		}

		void WriteNull() override						{ Put(make_self_count_ptr<SettingsValue>()); }
		void Write(bool v) override						{ Put(make_self_count_ptr<SettingsValue>(v)); }
		void Write(const FloatString& v) override		{ Put(make_self_count_ptr<SettingsValue>(v)); }
		void Write(s64 v) override						{ Put(make_self_count_ptr<SettingsValue>(v)); }
		void Write(const std::string& v) override		{ Put(make_self_count_ptr<SettingsValue>(v)); }
		void Write(ConstByteData v) override			{ Put(make_self_count_ptr<SettingsValue>(ConstByteArray(v))); }
		void WritePropertyName(const std::string& n) override
		{
			if (_stack.empty() || _stack.back().IsList || _stack.back().HasName)
			{
				_error = "property name " + n + " outside of an object";
				return;
			}
			_stack.back().HasName = true;
			_stack.back().Name = n;
		}
		void BeginList() override						{ Begin(make_self_count_ptr<SettingsValue>(SettingsValueList()), true); }
		void EndList() override							{ End(true); }
		void BeginObject() override						{ Begin(make_self_count_ptr<SettingsValue>(SettingsValueMap()), false); }
		void EndObject() override						{ End(false); }
	};

	inline FactoryContextPtr& Context() { static FactoryContextPtr c; return c; }
	inline IObjectSerializator*& Collection() { static IObjectSerializator* c = NULL; return c; }

	template < typename T >
	Node Save(const T& value, bool top = false)
	{
		TreeOStream s(Collection(), Context(), top);
		s.Serialize(value);
		SEQ_CHECK_MSG(s.Error().empty(), "writer misused: %s", s.Error().c_str());
		SEQ_CHECK_MSG(s.Complete(), "serialising did not produce one complete value");
		return s.Root();
	}

	template < typename T >
	void Load(const Node& node, T& value)
	{ ObjectIStream(node.get(), Collection(), Context()).Deserialize(value); }

	// ---- the tree
	inline Node DeepCopy(const Node& n)
	{
		if (n->contains<SettingsValueList>())
		{
			SettingsValueList r;
			for (const auto& c : n->get<SettingsValueList>())
				r.push_back(DeepCopy(c));
			return make_self_count_ptr<SettingsValue>(r);
		}
		if (n->contains<SettingsValueMap>())
		{
			SettingsValueMap r;
			for (const auto& c : n->get<SettingsValueMap>())
				r.insert(std::make_pair(c.first, DeepCopy(c.second)));
			return make_self_count_ptr<SettingsValue>(r);
		}
		return n->Clone();
	}

	inline std::string Hex(ConstByteData d)
	{
		static const char* digits = "0123456789abcdef";
		std::string r;
		for (size_t i = 0; i < d.size(); ++i)
		{
			r.push_back(digits[d[i] >> 4]);
			r.push_back(digits[d[i] & 15]);
		}
		return r;
	}

	// Exact: a faithful picture. Otherwise what may be read alike is written alike.
	inline std::string Canon(const SettingsValue& n, bool exact)
	{
		if (n.contains<EmptyType>())
			return "null";
		if (n.contains<bool>())
			return n.get<bool>() ? "true" : "false";
		if (n.contains<s64>())
			return (exact ? "i" : "n") + std::to_string(n.get<s64>());
		if (n.contains<FloatString>())
		{
			if (exact)
				return "f" + n.get<FloatString>().ToString();
			const double d = n.get<FloatString>().ToDouble();
			if (std::fabs(d) < 9e15 && d == std::floor(d))
				return "n" + std::to_string((s64)d);
			char buf[64];
			snprintf(buf, sizeof buf, "n%.17g", d);
			return buf;
		}
		if (n.contains<std::string>())
		{
			std::string t = n.get<std::string>();
			if (!exact && t.compare(0, 4, "hex=") == 0)
				for (char& c : t)
					c = tolower(c);
			return "s" + seq::Quote(t);
		}
		if (n.contains<ConstByteArray>())
		{
			const ConstByteArray a = n.get<ConstByteArray>();
			const std::string h = Hex(ConstByteData(a.data(), a.size()));
			return exact ? "b" + h : "s" + seq::Quote("hex=" + h);
		}
		std::vector<std::string> parts;
		const bool list = n.contains<SettingsValueList>();
		if (list)
		{
			for (const auto& c : n.get<SettingsValueList>())
				parts.push_back(Canon(*c, exact));
			if (!exact)
				std::sort(parts.begin(), parts.end());
		}
		else
			for (const auto& c : n.get<SettingsValueMap>())
			{
				if (!exact && c.second->contains<EmptyType>())
					continue;
				if (exact)
					parts.push_back(c.first + ":" + Canon(*c.second, exact));
				else
				{
					std::vector<std::string> kv = { "s" + seq::Quote(c.first), Canon(*c.second, exact) };
					std::sort(kv.begin(), kv.end());
					parts.push_back("[" + kv[0] + "," + kv[1] + ",]");
				}
			}
		if (!list && !exact)
			std::sort(parts.begin(), parts.end());
		std::string r = exact && !list ? "{" : "[";
		for (size_t i = 0; i < parts.size(); ++i)
			r += parts[i] + ",";
		return r + (exact && !list ? "}" : "]");
	}

	// does the data (with one place damaged) say what the accepted value says?
	inline bool Covers(const SettingsValue& data, const SettingsValue& again)
	{
		if (data.contains<SettingsValueMap>() && again.contains<SettingsValueMap>())
		{
			const SettingsValueMap& d = data.get<SettingsValueMap>();
			const SettingsValueMap& a = again.get<SettingsValueMap>();
			for (const auto& p : a)
			{
				if (p.second->contains<EmptyType>())
					continue;
				const auto i = d.find(p.first);
				if (i == d.end() || !Covers(*i->second, *p.second))
					return false;
			}
			for (const auto& p : d)
			{
				const auto i = a.find(p.first);
				if (i == a.end() && !p.second->contains<EmptyType>() && p.first != "obj" && p.first != "val")
					return false;
			}
			return true;
		}
		if (data.contains<SettingsValueList>() && again.contains<SettingsValueList>())
		{
			const SettingsValueList& d = data.get<SettingsValueList>();
			const SettingsValueList& a = again.get<SettingsValueList>();
			if (d.size() == a.size())
			{
				bool same = true;
				for (size_t i = 0; same && i < d.size(); ++i)
					same = Covers(*d[i], *a[i]);
				if (same)
					return true;
			}
		}
		return Canon(data, false) == Canon(again, false);
	}

	inline void Places(Node* n, std::vector<Node*>& out)
	{
		out.push_back(n);
		if ((*n)->contains<SettingsValueList>())
		{
			for (auto& c : (*n)->get<SettingsValueList>())
				Places(&c, out);
		}
		else if ((*n)->contains<SettingsValueMap>())
			for (auto& c : (*n)->get<SettingsValueMap>())
				Places(&c.second, out);
	}

	inline Node Replacement(size_t k)
	{
		static const u8 bytes[] = { 1 };
		SettingsValueList list;
		SettingsValueMap map;
		switch (k)
		{
		case 0: return make_self_count_ptr<SettingsValue>();
		case 1: return make_self_count_ptr<SettingsValue>(true);
		case 2: return make_self_count_ptr<SettingsValue>((s64)77);
		case 3: return make_self_count_ptr<SettingsValue>((s64)1);
		case 4: return make_self_count_ptr<SettingsValue>(FloatString(2.5));
		case 5: return make_self_count_ptr<SettingsValue>(std::string("zz zz"));
		case 6: return make_self_count_ptr<SettingsValue>(std::string("hex=0A1b"));
		case 7: return make_self_count_ptr<SettingsValue>(std::string("hex=0A1"));
		case 8: return make_self_count_ptr<SettingsValue>(ConstByteArray(bytes, 1));
		case 9: return make_self_count_ptr<SettingsValue>(list);
		case 10: list.push_back(Replacement(2)); return make_self_count_ptr<SettingsValue>(list);
		case 11: return make_self_count_ptr<SettingsValue>(map);
		default: map["a"] = Replacement(2); return make_self_count_ptr<SettingsValue>(map);
		}
	}
	static const size_t Replacements = 13;

	// ---- values
	template < typename T, typename Enabler = void >
	struct Gen;

	inline int& Small() { static int s = 0; return s; }

	// how coarse nested values get: 2 at the quick bound, 1 at the thorough one
	inline int& Deepest() { static int d = 2; return d; }

	struct SmallScope
	{
		int Old;
		explicit SmallScope(int level = 0) : Old(Small()) { Small() = std::max(level, std::min(Old + 1, std::max(Old, Deepest()))); }
		~SmallScope() { Small() = Old; }
	};

	template < typename T >
	T Of(std::initializer_list<T> values)
	{ return values.begin()[seq::Pick(std::min<size_t>(values.size(), Small() == 0 ? 100 : Small() == 1 ? 3 : 2))]; }

	template < typename T >
	struct Gen<T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type>
	{ static T Make() { return Of<T>({ (T)0, std::numeric_limits<T>::max(), std::numeric_limits<T>::min() == 0 ? (T)7 : std::numeric_limits<T>::min(), (T)9, (T)(std::numeric_limits<T>::max() / 2 + 1) }); } };

	template < > struct Gen<bool> { static bool Make() { return seq::Flip(); } };
	template < > struct Gen<double> { static double Make() { return Of<double>({ 0., 0.1, -1234567.891, 3., 1e300, -5e-300, 9007199254740993. }); } };
	template < > struct Gen<float> { static float Make() { return Of<float>({ 0.f, 0.1f, -1234.5678f, 3.f, 3.4e38f, -1e-37f }); } };
	template < > struct Gen<std::string>
	{ static std::string Make() { return Of<std::string>({ "", "hex=0b", std::string("\0\xff\"\\", 4), "b", "null", "\xd0\x9f\n\t", "12" }); } };
	template < > struct Gen<std::vector<u8>>
	{ static std::vector<u8> Make() { return Of<std::vector<u8>>({ { }, { 0, 255 }, { 0x41 }, { 1, 2, 3, 4, 5 } }); } };
	template < > struct Gen<ConstByteArray>
	{ static ConstByteArray Make() { const std::vector<u8> v = Gen<std::vector<u8>>::Make(); return ConstByteArray(v); } };
	template < > struct Gen<ByteArray>
	{ static ByteArray Make() { const std::vector<u8> v = Gen<std::vector<u8>>::Make(); return ByteArray(v); } };
	template < typename T > struct Gen<BasicBytesOwner<T>>
	{ static BasicBytesOwner<T> Make() { return BasicBytesOwner<T>::Create(Gen<std::vector<u8>>::Make()); } };

	template < > struct Gen<Time> { static Time Make() { return Of<Time>({ Time(), Time(1234567890123), Time(-1) }); } };
	template < > struct Gen<TimeDuration> { static TimeDuration Make() { return Of<TimeDuration>({ TimeDuration(), TimeDuration::FromMicroseconds(-1234567), TimeDuration::FromMicroseconds(std::numeric_limits<s64>::max()) }); } };
	template < > struct Gen<TimeZone> { static TimeZone Make() { return Of<TimeZone>({ TimeZone(), TimeZone(-12 * 60), TimeZone(330) }); } };
	template < > struct Gen<LangCode> { static LangCode Make() { return Of<LangCode>({ LangCode(), LangCode("eng"), LangCode("rus") }); } };
	template < > struct Gen<LocaleString> { static LocaleString Make() { return Of<LocaleString>({ LocaleString(), LocaleString(Encoding::CP1251, "\xcf"), LocaleString(Encoding::ISO_8859_5, "b") }); } };
	template < > struct Gen<TranslatedString>
	{
		static TranslatedString Make()
		{
			TranslatedString::Builder b;
			const size_t n = seq::Pick(4);
			if (n & 1) b.AddTranslation(LangCode("eng"), "x");
			if (n & 2) b.AddTranslation(LangCode("rus"), "\xd0\x9f");
			return b.Get();
		}
	};

	template < typename T > struct Gen<optional<T>>
	{ static optional<T> Make() { return seq::Flip() ? optional<T>() : optional<T>(Gen<T>::Make()); } };
	template < typename A, typename B > struct Gen<std::pair<A, B>>
	{ static std::pair<A, B> Make() { SmallScope s; A a = Gen<A>::Make(); B b = Gen<B>::Make(); return std::pair<A, B>(a, b); } };

	template < typename C, typename V >
	C MakeCollection()
	{
		SmallScope s;
		C c;
		const size_t n = seq::Pick(Small() == 2 ? 2 : 3);
		for (size_t i = 0; i < n; ++i)
			c.insert(c.end(), Gen<V>::Make());
		return c;
	}
	template < typename T > struct Gen<std::vector<T>> { static std::vector<T> Make() { return MakeCollection<std::vector<T>, T>(); } };
	template < typename T > struct Gen<std::list<T>> { static std::list<T> Make() { return MakeCollection<std::list<T>, T>(); } };
	template < typename T > struct Gen<std::set<T>> { static std::set<T> Make() { return MakeCollection<std::set<T>, T>(); } };
	template < typename T > struct Gen<std::multiset<T>> { static std::multiset<T> Make() { return MakeCollection<std::multiset<T>, T>(); } };
	template < typename K, typename V > struct Gen<std::map<K, V>> { static std::map<K, V> Make() { return MakeCollection<std::map<K, V>, std::pair<K, V>>(); } };
	template < typename K, typename V > struct Gen<std::multimap<K, V>> { static std::multimap<K, V> Make() { return MakeCollection<std::multimap<K, V>, std::pair<K, V>>(); } };

	template < typename TL, bool E > struct Gen<variant<TL, E>>
	{
		typedef variant<TL, E> V;
		template < typename T > static V One() { return V(Gen<T>::Make()); }
		template < size_t... I > static V Any(std::index_sequence<I...>)
		{
			typedef V (*F)();
			static const F makers[] = { &One<typename GetTypeListItem<TL, I>::ValueT>... };
			return makers[seq::Pick(sizeof...(I))]();
		}
		static V Make()
		{
			SmallScope s;
			return Any(std::make_index_sequence<GetTypeListLength<TL>::Value>());
		}
	};
	template < > struct Gen<EmptyType> { static EmptyType Make() { return EmptyType(); } };

	// ---- equality
	template < typename T >
	struct Eq { static bool Same(const T& l, const T& r) { return l == r; } };
	template < typename T >
	struct Eq<BasicBytesOwner<T>>
	{ static bool Same(const BasicBytesOwner<T>& l, const BasicBytesOwner<T>& r) { return l.size() == r.size() && std::equal(l.begin(), l.end(), r.begin()); } };

	template < typename T, typename V > void RoundTripVia()
	{
		V value = Gen<V>::Make();
		const T& source = value;
		const Node node = Save(source);
		SEQ_LOG("saved as %s", Canon(*node, true).c_str());
		const size_t mode = seq::Pick(3);
		if (mode == 0)
		{
			V back = V();
			T& target = back;
			Load(DeepCopy(node), target);
			SEQ_CHECK_MSG(Eq<V>::Same(value, back), "the restored value differs: saved %s, restored %s", Canon(*node, true).c_str(), Canon(*Save(target), true).c_str());
			SEQ_CHECK_MSG(Canon(*Save(target), true) == Canon(*node, true), "the restored value is saved differently: %s, then %s", Canon(*node, true).c_str(), Canon(*Save(target), true).c_str());
			return;
		}
		if (mode == 1)
		{
			V back = V();
			{
				SmallScope s(2);
				back = Gen<V>::Make();
			}
			T& target = back;
			SEQ_LOG("into %s", Canon(*Save(target), true).c_str());
			Load(DeepCopy(node), target);
			SEQ_CHECK_MSG(Eq<V>::Same(value, back), "restoring over another value gives something else: saved %s, restored %s", Canon(*node, true).c_str(), Canon(*Save(target), true).c_str());
			return;
		}
		Node damaged = DeepCopy(node);
		std::vector<Node*> places;
		Places(&damaged, places);
		const size_t where = seq::Pick(places.size());
		const size_t how = seq::Pick(Replacements + 1);
		if (how < Replacements)
			*places[where] = Replacement(how);
		else
		{
			// take the place away from its parent
			bool removed = false;
			for (size_t p = 0; p < where && !removed; ++p)
			{
				SettingsValue& parent = **places[p];
				if (parent.contains<SettingsValueList>())
				{
					SettingsValueList& l = parent.get<SettingsValueList>();
					for (size_t i = 0; i < l.size(); ++i)
						if (&l[i] == places[where])
						{
							l.erase(l.begin() + i);
							removed = true;
							break;
						}
				}
				else if (parent.contains<SettingsValueMap>())
				{
					SettingsValueMap& m = parent.get<SettingsValueMap>();
					for (auto i = m.begin(); i != m.end(); ++i)
						if (&i->second == places[where])
						{
							m.erase(i);
							removed = true;
							break;
						}
				}
			}
			if (!removed)
				return;
		}
		const std::string text = Canon(*damaged, true);
		SEQ_LOG("damaged to %s", text.c_str());
		V back = V();
		T& target = back;
		bool refused = false;
		try { Load(DeepCopy(damaged), target); }
		catch (const std::exception&) { refused = true; }
		if (!refused)
		{
			const Node again = Save(target);
			SEQ_CHECK_MSG(Covers(*damaged, *again), "data %s was accepted as %s without an error", text.c_str(), Canon(*again, true).c_str());
		}
		// whatever happened, the object can be restored properly afterwards
		Load(DeepCopy(node), target);
		SEQ_CHECK_MSG(Eq<V>::Same(value, back), "restoring after %s gives something else: saved %s, restored %s", refused ? "a refused attempt" : "another value", Canon(*node, true).c_str(), Canon(*Save(target), true).c_str());
	}

	template < typename T > void RoundTrip() { RoundTripVia<T, T>(); }

	template < typename... Ts >
	void OneOf(int depth)
	{
		Deepest() = depth > 1 ? 1 : 2;
		typedef void (*F)();
		static const F all[] = { &RoundTrip<Ts>... };
		all[seq::Pick(sizeof...(Ts))]();
	}
}
