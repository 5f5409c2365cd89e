// Z01, part 1: scalars, text, bytes, time, pairs, collections, maps, variants.
#include "Z01s.h"

namespace stingray { void Factory::RegisterTypes(const FactoryContextPtr&) { } }

using namespace z;

typedef std::string Str;
typedef variant<TypeList<EmptyType, bool, s32, Str, std::vector<u8>>> Var;
typedef variant<TypeList<u32, double, std::vector<Str>>> FullVar;

SEQ_SCENARIO(integers, .Q(1).T(2).Split(3)) { OneOf<s8, u8, s16, u16, s32, u32, s64, u64, char, long long, unsigned long long, bool>(depth); }
SEQ_SCENARIO(scalars, .Q(1).T(2).Split(3)) { OneOf<double, float, Str, std::vector<u8>, ByteArray, ConstByteArray, BytesOwner, ConstBytesOwner>(depth); }
SEQ_SCENARIO(objects, .Q(1).T(2).Split(3)) { OneOf<Time, TimeDuration, TimeZone, LangCode, LocaleString, TranslatedString>(depth); }
SEQ_SCENARIO(optionals, .Q(1).T(2).Split(3)) { OneOf<optional<bool>, optional<s32>, optional<Str>, optional<Time>, optional<std::vector<u8>>, optional<std::vector<s32>>, optional<std::map<Str, u8>>, optional<Var>>(depth); }
SEQ_SCENARIO(pairs, .Q(1).T(2).Split(3)) { OneOf<std::pair<s32, Str>, std::pair<Str, optional<u8>>, std::pair<std::pair<s32, bool>, Str>, std::pair<std::vector<u8>, std::vector<s32>>>(depth); }
SEQ_SCENARIO(sequences, .Q(1).T(2).Split(3)) { OneOf<std::vector<s32>, std::vector<bool>, std::list<Str>, std::vector<optional<s32>>, std::vector<std::pair<s32, Str>>, std::vector<double>, std::list<std::vector<u8>>, std::vector<std::vector<s32>>>(depth); }
SEQ_SCENARIO(sorted, .Q(1).T(2).Split(3)) { OneOf<std::set<s32>, std::set<Str>, std::multiset<s32>, std::set<std::pair<u8, Str>>, std::map<Str, s32>, std::map<s32, Str>, std::map<Str, std::vector<s32>>, std::multimap<s32, Str>, std::map<Str, optional<s32>>, std::map<LangCode, Str>, std::map<u16, std::set<u8>>>(depth); }
SEQ_SCENARIO(variants, .Q(1).T(2).Split(3)) { OneOf<Var, FullVar, std::vector<Var>, std::map<Str, FullVar>, std::pair<Var, optional<FullVar>>>(depth); }

// a map with text keys may also be written as an object
SEQ_SCENARIO(keyed, .Q(1).T(1))
{
	(void)depth;
	SettingsValueMap m;
	std::map<Str, s32> want;
	const size_t n = seq::Pick(4);
	for (size_t i = 0; i < n; ++i)
	{
		const Str k = Gen<Str>::Make();
		const s32 v = (s32)i + 1;
		m[k] = make_self_count_ptr<SettingsValue>((s64)v);
		want[k] = v;
	}
	std::map<Str, s32> got;
	got["old"] = 5;
	Load(make_self_count_ptr<SettingsValue>(m), got);
	SEQ_CHECK_MSG(got == want, "a map of %zu named values was read as a map of %zu", want.size(), got.size());
}

// a pair is two values, neither more nor less
SEQ_SCENARIO(lengths, .Q(1).T(1))
{
	(void)depth;
	SettingsValueList l;
	const size_t n = seq::Pick(5);
	for (size_t i = 0; i < n; ++i)
		l.push_back(make_self_count_ptr<SettingsValue>((s64)(i + 1)));
	const Node node = make_self_count_ptr<SettingsValue>(l);
	const bool inside = seq::Flip();
	bool refused = false;
	std::pair<s32, s32> p(9, 9);
	std::vector<std::pair<s32, s32>> v;
	try
	{
		if (inside)
		{
			SettingsValueList outer;
			outer.push_back(node);
			Load(make_self_count_ptr<SettingsValue>(outer), v);
		}
		else
			Load(node, p);
	}
	catch (const std::exception&) { refused = true; }
	SEQ_CHECK_MSG(refused == (n != 2), "%zu values were %s as a pair", n, refused ? "refused" : "accepted");
	if (!refused)
		SEQ_CHECK((inside ? v.at(0) : p) == std::make_pair(1, 2));
}

// an index of a variant names one of its types
SEQ_SCENARIO(indices, .Q(1).T(1))
{
	(void)depth;
	const s64 indices[] = { 0, 1, 2, 3, 4, 5, 77, -1, std::numeric_limits<s64>::max(), std::numeric_limits<s64>::min(), (s64)1 << 32, ((s64)1 << 32) + 2 };
	const s64 index = indices[seq::Pick(12)];
	SettingsValueMap m;
	m["index"] = make_self_count_ptr<SettingsValue>(index);
	const size_t what = seq::Pick(4);
	if (what == 1) m["obj"] = make_self_count_ptr<SettingsValue>(true);
	if (what == 2) m["obj"] = make_self_count_ptr<SettingsValue>((s64)12);
	if (what == 3) m["obj"] = make_self_count_ptr<SettingsValue>(Str("hex=0b"));
	Var v((s32)5);
	bool refused = false;
	try { Load(make_self_count_ptr<SettingsValue>(m), v); }
	catch (const std::exception&) { refused = true; }
	const bool good = index == 0 || (index == 1 && what == 1) || (index == 2 && what == 2) || ((index == 3 || index == 4) && what == 3);
	SEQ_CHECK_MSG(refused == !good, "a variant with index %lld and %s was %s", (long long)index, what == 0 ? "no value" : what == 1 ? "a bool" : what == 2 ? "an integer" : "a text", refused ? "refused" : "accepted");
	if (good)
		SEQ_CHECK_MSG(v == (index == 0 ? Var() : index == 1 ? Var(true) : index == 2 ? Var((s32)12) : index == 3 ? Var(Str("hex=0b")) : Var(std::vector<u8>(1, 0x0b))), "a variant with index %lld holds something else", (long long)index);
}

// binary data written as hexadecimal text
SEQ_SCENARIO(hexadecimal, .Q(4).T(5).Split(1))
{
	Str s;
	std::vector<u8> want;
	static const char alphabet[] = { '0', '9', 'a', 'f', 'A', 'F', 'g', 'G', '@', '`', '/', ':', ' ', '\0', '\x10' };
	int half = -1;
	bool good = true;
	for (int i = 0; i < depth; ++i)
	{
		const size_t k = seq::Pick(sizeof(alphabet) + 1);
		if (!k) break;
		const char c = alphabet[k - 1];
		s += c;
		const int digit = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
		good &= digit >= 0;
		if (half < 0) half = digit;
		else { want.push_back(half * 16 + digit); half = -1; }
	}
	good &= half < 0 && s.size() % 2 == 0;
	static const char* prefixes[] = { "hex=", "hex", "", "HEX=", "hex:" };
	const size_t p = seq::Pick(5);
	good &= p == 0;
	std::vector<u8> got(3, 7);
	bool refused = false;
	seq::Cases(1);
	try { Load(make_self_count_ptr<SettingsValue>(prefixes[p] + s), got); }
	catch (const std::exception&) { refused = true; }
	SEQ_CHECK_MSG(refused == !good, "bytes '%s%s' were %s", prefixes[p], seq::Quote(s).c_str(), refused ? "refused" : "accepted");
	if (good)
		SEQ_CHECK_MSG(got == want, "bytes '%s%s' were read wrong", prefixes[p], seq::Quote(s).c_str());
}

// checked reading of integers
namespace
{
	template < typename T >
	void InRange(s64 v)
	{
		SettingsValueMap m;
		m["v"] = make_self_count_ptr<SettingsValue>(v);
		T got = 42;
		bool refused = false;
		const Node node = make_self_count_ptr<SettingsValue>(m);
		try { ObjectIStream(node.get(), NULL).Deserialize("v", *MakeIntegerDeserializer(got)); }
		catch (const std::exception&) { refused = true; }
		bool fits;
		if (sizeof(T) == 8)
			fits = true;
		else
			fits = v >= (s64)std::numeric_limits<T>::min() && v <= (s64)std::numeric_limits<T>::max();
		seq::Cases(1);
		SEQ_CHECK_MSG(refused == !fits, "%lld was %s as an integer of %zu bytes, %s", (long long)v, refused ? "refused" : "accepted", sizeof(T), std::numeric_limits<T>::is_signed ? "signed" : "unsigned");
		SEQ_CHECK_MSG(refused ? got == 42 : got == (T)v, "%lld became %lld", (long long)v, (long long)got);
	}
}

SEQ_SCENARIO(checked, .Q(1).T(1))
{
	(void)depth;
	const int bits[] = { 0, 7, 8, 15, 16, 31, 32, 63 };
	const int b = bits[seq::Pick(8)];
	for (int d = -3; d <= 3; ++d)
		for (int sign = 0; sign < 2; ++sign)
		{
			const s64 v = (s64)((sign ? (u64)0 - ((u64)1 << b) : (u64)1 << b) + (u64)(s64)d);
			InRange<s8>(v); InRange<u8>(v); InRange<s16>(v); InRange<u16>(v); InRange<s32>(v); InRange<u32>(v); InRange<s64>(v); InRange<u64>(v); InRange<char>(v); InRange<long>(v); InRange<unsigned long>(v); InRange<long long>(v); InRange<unsigned long long>(v);
		}
}
