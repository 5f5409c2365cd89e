// S02: values to text and back.
#include "../seq/seq.h"
#include "common.h"
#include <stingraykit/EnumToString.h>
#include <stingraykit/Tuple.h>
#include <stingraykit/collection/EnumerableHelpers.h>
#include <stingraykit/collection/Range.h>
#include <stingraykit/optional.h>
#include <stingraykit/serialization/FloatString.h>
#include <stingraykit/shared_ptr.h>
#include <stingraykit/string/HumanReadableSize.h>
#include <stingraykit/string/StringReader.h>
#include <stingraykit/string/ToString.h>
#include <stingraykit/string/lexical_cast.h>
#include <stingraykit/Types.h>
#include <stingraykit/assert.h>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string.h>
#include <vector>
using namespace stingray;

namespace
{
	typedef __int128 Wide;
	template < typename F > bool Throws(const F& f) { try { f(); } catch (const std::exception&) { return true; } return false; }
	std::string Dec(Wide v) { if (v == 0) return "0"; const bool n = v < 0; unsigned __int128 u = n ? -(unsigned __int128)v : v; std::string s; while (u) { s.insert(s.begin(), '0' + (int)(u % 10)); u /= 10; } return n ? "-" + s : s; }

	template < typename T > T Parse(const std::string& s, int how) { switch (how) { case 0: return FromString<T>(s); case 1: return FromString<T>(string_view(s)); case 2: return FromString<T>(s.c_str()); case 3: return FromStringInterpreter<T>()(s); default: return lexical_cast<T>(s); } }
	template < typename T > void RoundTrip(T v)
	{
		seq::Cases(1);
		const std::string s = ToString(v), e = Dec(v);
		SEQ_CHECK_MSG(s == e, "%s of %zu bytes became '%s'", e.c_str(), sizeof(T), s.c_str());
		for (int how = 0; how < 5; ++how) SEQ_CHECK_MSG(Parse<T>(s, how) == v, "'%s' of %zu bytes parsed as %s", s.c_str(), sizeof(T), Dec(Parse<T>(s, how)).c_str());
		const optional<T> o = TryFromString<T>(s); SEQ_CHECK(o && *o == v);
		SEQ_CHECK((std::string)(StringBuilder() % "<" % v % ">") == "<" + e + ">");
		if (v >= 0) SEQ_CHECK(FromString<T>("+" + s) == v && FromString<T>("000" + s) == v); else SEQ_CHECK(FromString<T>("-00" + e.substr(1)) == v);
	}
	// values around every power of two and of ten and every rounding edge of the digit loop
	template < typename T > void Around(Wide w) { for (Wide d = -11; d <= 11; ++d) { const Wide x = w + d; if (x >= (Wide)std::numeric_limits<T>::min() && x <= (Wide)std::numeric_limits<T>::max()) RoundTrip<T>((T)x); else { const std::string s = Dec(x); bool thrown = false; try { FromString<T>(s); } catch (const std::exception&) { thrown = true; } SEQ_CHECK_MSG(thrown && !TryFromString<T>(s), "'%s' was accepted for %zu bytes", s.c_str(), sizeof(T)); seq::Cases(1); } } }
	template < typename T > void Edges(int part)
	{
		Wide p = 1;
		if (part == 0) for (int i = 0; i <= 66; ++i, p *= 2) { Around<T>(p); Around<T>(-p); }
		else if (part == 1) for (int i = 0; i <= 21; ++i, p *= 10) for (int k = 1; k < 10; k += 2) { Around<T>(p * k); Around<T>(-p * k); }
		else for (Wide w : { (Wide)std::numeric_limits<T>::max(), (Wide)std::numeric_limits<T>::min() }) for (int k = -2; k <= 20; ++k) { Around<T>(w + w / 10 * k); Around<T>(w * 10 + k); }
	}
	bool Reference(const std::string& s, bool isSigned, Wide lo, Wide hi, Wide& v)
	{
		size_t i = 0; bool n = false; if (!s.empty() && (s[0] == '-' || s[0] == '+')) { n = s[0] == '-'; i = 1; }
		if (i == s.size()) return false;
		v = 0; for (; i < s.size(); ++i) { if (s[i] < '0' || s[i] > '9') return false; v = v * 10 + (s[i] - '0'); if (v > (Wide)1 << 100) return false; }
		if (n) v = -v;
		return v >= lo && v <= hi;
	}
	template < typename T > void ParseAs(const std::string& s)
	{
		Wide v = 0; const bool ok = Reference(s, std::numeric_limits<T>::is_signed, std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), v);
		if (ok && v == 0 && s[0] == '-' && !std::numeric_limits<T>::is_signed) return; // whether "-0" is in range of an unsigned type is not specified
		const std::unique_ptr<char[]> p(new char[s.size()]); memcpy(p.get(), s.data(), s.size()); const string_view view(p.get(), s.size());
		const optional<T> a = TryFromString<T>(view), b = TryFromString<T>(s);
		SEQ_CHECK_MSG(a.is_initialized() == ok && b.is_initialized() == ok && (!ok || (*a == (T)v && *b == (T)v)), "'%s' as %zu bytes: %s", s.c_str(), sizeof(T), a ? ("value " + Dec(*a)).c_str() : "refused");
	}
}

// every value of the small types, and all edges of the large ones
SEQ_SCENARIO(integers, .Q(0).T(0).Split(1))
{
	const int k = seq::Pick(32);
	if (k == 0) for (int i = 0; i < 256; ++i) { RoundTrip<u8>(i); }
	else if (k < 9) for (int i = 0; i < 65536; ++i) { if (i % 8 == k - 1) { RoundTrip<u16>(i); RoundTrip<s16>(i); } }
	else if (k == 9) { SEQ_CHECK(ToString(true) == "true" && ToString(false) == "false" && FromString<bool>("1") && !FromString<bool>("0") && !TryFromString<bool>("2") && !TryFromString<bool>("-1") && !TryFromString<bool>("10")); SEQ_CHECK(ToString('x') == "x" && ToString("x") == "x"); }
	else if (k < 28) { const int part = (k - 10) % 3; switch ((k - 10) / 3) { case 0: Edges<s32>(part); break; case 1: Edges<u32>(part); break; case 2: Edges<s64>(part); break; case 3: Edges<u64>(part); break; case 4: Edges<s16>(part); Edges<u8>(part); break; default: Edges<u16>(part); Edges<long long>(part); Edges<unsigned long long>(part); break; } }
	else if (k == 28) for (int i = -128; i < 128; ++i) { SEQ_CHECK(FromString<s8>(Dec(i)) == i); if (i < 120) SEQ_CHECK(FromString<s8>(Dec(i)) != FromString<s8>(Dec(i + 7))); SEQ_CHECK(!TryFromString<s8>(Dec(i < 0 ? i - 128 : i + 128))); }
}

// every short text over digits, signs and their neighbours
SEQ_SCENARIO(texts, .Q(5).T(6).Split(2))
{
	static const char alphabet[] = "0123589+-/: x"; std::string s; const int n = seq::Pick(depth); for (int i = 0; i < n; ++i) s += alphabet[seq::Pick(14)];
	ParseAs<s8>(s); ParseAs<u8>(s); ParseAs<s32>(s); ParseAs<u64>(s);
	if (n && n <= 4) { ParseAs<s16>("3" + s); ParseAs<u16>("6" + s); ParseAs<s16>("-3" + s); ParseAs<s32>("214748" + s); ParseAs<s32>("-214748" + s); ParseAs<u32>("429496" + s); ParseAs<s64>("922337203685477" + s); ParseAs<s64>("-922337203685477" + s); ParseAs<u64>("1844674407370955" + s); }
}

namespace
{
	struct Colour { STINGRAYKIT_ENUM_VALUES(Red = 1, Green = 2, Blue = 4, Cyan = 6, Wide = 0x40000000); STINGRAYKIT_DECLARE_ENUM_CLASS(Colour); };
	STINGRAYKIT_DECLARE_ENUM_CLASS_BIT_OPERATORS(Colour);
	struct Level { STINGRAYKIT_ENUM_VALUES(Low = -5, Mid, High = 10, Higher, Top = 0x7fffffff); STINGRAYKIT_DECLARE_ENUM_CLASS(Level); };
	struct Flag { STINGRAYKIT_ENUM_VALUES(None, A, B, AB, C, D = 8, High = (int)0x80000000); STINGRAYKIT_DECLARE_ENUM_CLASS(Flag); };
	template < typename E > E Of(int v) { return E((typename E::Enum)v); }
	template < typename E > void EnumTrip(int v)
	{
		seq::Cases(1); const E e = Of<E>(v); const std::string s = e.ToString();
		SEQ_CHECK_MSG(!s.empty(), "%d has no text", v);
		SEQ_CHECK_MSG((int)E::FromString(s) == v && (int)FromString<E>(s) == v && (int)FromString<E>("  " + s + " ") == v, "%d became '%s' which became %d", v, s.c_str(), (int)E::FromString(s));
		SEQ_CHECK(ToString(e) == s);
	}
}
SEQ_SCENARIO(enums, .Q(0).T(0).Split(1))
{
	const int k = seq::Pick(4);
	if (k == 0) { for (int i = -70; i < 300; ++i) { EnumTrip<Colour>(i); EnumTrip<Flag>(i); EnumTrip<Level>(i); EnumTrip<Colour>(i | 0x40000000); EnumTrip<Flag>(i | 0x80000000); } for (int b = 0; b < 32; ++b) for (int d = -1; d < 2; ++d) { const int v = (int)((1u << b) + d); EnumTrip<Colour>(v); EnumTrip<Flag>(v); EnumTrip<Level>(v); } }
	else if (k == 1)
	{
		const std::pair<int, const char*> names[] = { { 1, "Red" }, { 2, "Green" }, { 4, "Blue" }, { 6, "Cyan" }, { 0x40000000, "Wide" }, { 3, "Red|Green" }, { 5, "Red|Blue" }, { 0, "0" }, { 8, "8" } };
		for (const auto& n : names) { SEQ_CHECK_MSG(Of<Colour>(n.first).ToString() == n.second, "%s became %s", n.second, Of<Colour>(n.first).ToString().c_str()); SEQ_CHECK((int)Colour::FromString(n.second) == n.first); }
		const std::pair<int, const char*> levels[] = { { -5, "Low" }, { -4, "Mid" }, { 10, "High" }, { 11, "Higher" }, { 0x7fffffff, "Top" } }; for (const auto& n : levels) SEQ_CHECK(Of<Level>(n.first).ToString() == n.second && (int)Level::FromString(n.second) == n.first);
		std::vector<int> vs; for (Detail::EnumIterator<Colour> i = Colour::begin(); i != Colour::end(); ++i) vs.push_back((int)*i); SEQ_CHECK(vs == (std::vector<int>{ 1, 2, 4, 6, 0x40000000 }));
		std::vector<int> ls; for (Detail::EnumIterator<Level> i = Level::begin(); i != Level::end(); ++i) ls.push_back((int)*i); SEQ_CHECK(ls == (std::vector<int>{ -5, -4, 10, 11, 0x7fffffff }) && Level::end() - Level::begin() == 5);
	}
	else if (k == 2)
	{
		// exactly the names, joined by bars, or a number
		static const char* parts[] = { "Red", "Green", "red", "Re", "Redd", "", "12", "12x", "Blue Red", "Red Red", "Blue\tR" }; static const int values[] = { 1, 2, -1, -1, -1, -2, -3, -1, -1, -1, -1 };
		const int a = seq::Pick(11), b = seq::Pick(11); const bool spaces = seq::Flip(); const std::string bar = spaces ? " | " : "|";
		const std::string s = std::string(parts[a]) + bar + parts[b]; int v = 0; bool ok = true; try { v = (int)Colour::FromString(s); } catch (const std::exception&) { ok = false; }
		if (values[a] > 0 && values[b] > 0) SEQ_CHECK_MSG(ok && v == (values[a] | values[b]), "'%s': %d", s.c_str(), v);
		else if (values[a] != -2 && values[b] != -2) SEQ_CHECK_MSG(!ok, "'%s' was accepted as %d", s.c_str(), v); // what empty alternatives mean is not specified
		ok = true; try { v = (int)Colour::FromString(parts[a]); } catch (const std::exception&) { ok = false; }
		SEQ_CHECK_MSG(ok == (values[a] > 0 || values[a] == -3) && (!ok || v == (values[a] > 0 ? values[a] : 12)), "'%s': %s", parts[a], ok ? "accepted" : "refused");
	}
	else { for (const char* s : { "", " ", "x", "99999999999", "4294967296", "1 2", "1|Red", "-1x", "Red|99999999999" }) SEQ_CHECK_MSG(Throws([&] { Colour::FromString(s); }), "'%s' was accepted", s); SEQ_CHECK(!TryFromString<Colour>("Rad") && TryFromString<Colour>("Red")); }
}

// floating point numbers keep their value
SEQ_SCENARIO(floats, .Q(0).T(0).Split(1))
{
	const int e = -60 + seq::Pick(121);
	for (int m = 0; m < 500; ++m) for (int sg = -1; sg <= 1; sg += 2)
	{
		seq::Cases(1); double v; if (m < 100) { v = m; for (int i = 0; i < (e < 0 ? -e : e) / 4; ++i) v = e < 0 ? v / 10 : v * 10; } else if (m < 300) { v = 1 + m * 7.0 / 3; for (int i = 0; i < (e < 0 ? -e : e); ++i) v = e < 0 ? v / 2 : v * 2; } else { v = (float)(m / 7.0); for (int i = 0; i < (e < 0 ? -e : e) / 4; ++i) v = e < 0 ? v / 16 : v * 16; }
		v *= sg; const FloatString f(v); const double r = f.ToDouble(); SEQ_CHECK_MSG(memcmp(&r, &v, sizeof(v)) == 0 || r == v, "%.17g became '%s' which is %.17g", v, f.ToString().c_str(), r);
		SEQ_CHECK(FloatString(f.ToString()).ToDouble() == v && FloatString(f.ToString()).ToString() == f.ToString());
	}
	if (e == 0)
	{
		const std::pair<double, const char*> t[] = { { 0, "0" }, { 1, "1" }, { -1, "-1" }, { 0.5, "0.5" }, { 0.1, "0.1" }, { 1e100, "1e+100" }, { 1234.5, "1234.5" }, { 1e-7, "1e-07" }, { 123456789, "123456789" } };
		for (const auto& p : t) SEQ_CHECK_MSG(FloatString(p.first).ToString() == p.second, "%s became %s", p.second, FloatString(p.first).ToString().c_str());
		SEQ_CHECK(FloatString().ToDouble() == 0); for (const char* s : { "", " ", "x", "1x", "1.5.2", "1 2", "--1", "1e+100q" }) SEQ_CHECK_MSG(Throws([&] { FloatString(std::string(s)).ToDouble(); }), "'%s' was accepted", s);
		SEQ_CHECK(ToString(0.5) == "0.5" && ToString(0.25f) == "0.25" && ToString(-1e10) == "-10000000000" && ToString(1.5L) == "1.5");
	}
}

// sizes: within the allowed error, exact if none is allowed, and parsed exactly or refused
SEQ_SCENARIO(sizes, .Q(0).T(0).Split(1))
{
	static const float factors[] = { 0.f, 0.001f, 0.01f, 0.05f, 0.19f }; const float f = factors[seq::Pick(5)]; const int bit = seq::Pick(64); static const char suffixes[] = "kMGTPE";
	static const int offs[] = { -1025, -100, -10, -2, -1, 0, 1, 2, 10, 100, 1025 };
	for (u64 base : { (u64)1 << bit, (u64)3 << bit, (u64)1000 << bit, (u64)1023 << bit, ~(u64)0 >> bit, ~(u64)0 / (bit + 1), (u64)1 << 63 | (u64)1 << bit }) for (int o : offs) for (int part = -1; part <= 1; ++part)
	{
		seq::Cases(1); const u64 v = base + o + part * (s64)(base / 97); std::string s; const bool thrown = Throws([&] { s = ToHumanReadableSize(v, f); });
		SEQ_CHECK_MSG(!thrown, "%llu (error %g) was not converted", (unsigned long long)v, f);
		size_t d = 0; Wide n = 0; while (d < s.size() && isdigit(s[d])) n = n * 10 + (s[d++] - '0');
		SEQ_CHECK_MSG(d > 0 && s.size() - d <= 1, "%llu became '%s'", (unsigned long long)v, s.c_str());
		if (d < s.size()) { const char* c = strchr(suffixes, s[d]); SEQ_CHECK(c); n <<= 10 * (c - suffixes + 1); }
		const Wide diff = n > v ? n - v : v - n; SEQ_CHECK_MSG((double)diff <= (double)v * f * 1.0001, "%llu became '%s' with error %g allowed", (unsigned long long)v, s.c_str(), f);
		if (n <= (Wide)~(u64)0) SEQ_CHECK_MSG(FromHumanReadableSize(s) == (u64)n, "'%s' parsed as %llu", s.c_str(), (unsigned long long)FromHumanReadableSize(s));
		const std::string w = ToHumanReadableSize(v, f, true); SEQ_CHECK_MSG(w == s.substr(0, d) + " " + s.substr(d), "'%s' with a space is '%s'", s.c_str(), w.c_str());
	}
}
SEQ_SCENARIO(size_texts, .Q(4).T(5).Split(2))
{
	static const char alphabet[] = "0169kMGTPEKm x+"; std::string s; const int n = seq::Pick(depth + 1); for (int i = 0; i < n; ++i) s += alphabet[seq::Pick(15)];
	for (const char* head : { "", "1801439850948198", "1759218604441" })
	{
		const std::string t = head + s; if (!t.empty() && t[0] == '+') continue; size_t d = 0; Wide v = 0; while (d < t.size() && isdigit(t[d])) v = v * 10 + (t[d++] - '0');
		bool ok = d > 0 && t.size() - d <= 1; if (ok && d < t.size()) { const char* c = strchr("kMGTPE", t[d]); if (c && v < (Wide)1 << 65) v <<= 10 * (c - "kMGTPE" + 1); else ok = false; } ok = ok && v <= (Wide)~(u64)0;
		u64 r = 0; bool got = true; try { r = FromHumanReadableSize(t); } catch (const std::exception&) { got = false; }
		SEQ_CHECK_MSG(got == ok && (!ok || r == (u64)v), "'%s': %s %llu, expected %s", t.c_str(), got ? "value" : "refused", (unsigned long long)r, ok ? Dec(v).c_str() : "refused");
	}
}

// the documented forms of collections and wrappers
SEQ_SCENARIO(collections, .Q(4).T(5).Split(2))
{
	std::vector<int> v; std::string list, map, strs; std::vector<std::string> sv; std::map<int, std::string> m; std::set<int> st; const int n = seq::Pick(depth + 1);
	for (int i = 0; i < n; ++i) { const int x = seq::Pick(3) - 1; v.push_back(x); const std::string t = x ? Dec(x) : std::string(); sv.push_back(t); list += (i ? ", " : "") + Dec(x); strs += (i ? ", " : "") + t; st.insert(x); m[x] = t; }
	std::string sets, maps; for (int x : st) { sets += (sets.empty() ? "" : ", ") + Dec(x); maps += (maps.empty() ? "" : ", ") + Dec(x) + ": " + m[x]; }
	SEQ_CHECK_MSG(ToString(v) == "[" + list + "]" && ToString(sv) == "[" + strs + "]" && ToString(std::list<int>(v.begin(), v.end())) == "[" + list + "]" && ToString(st) == "[" + sets + "]", "%s", ToString(v).c_str());
	SEQ_CHECK_MSG(ToString(m) == (m.empty() ? "{ }" : "{ " + maps + " }"), "%s", ToString(m).c_str());
	SEQ_CHECK(ToString(ToRange(v)) == "[" + list + "]" && ToString(std::vector<std::vector<int> >(2, v)) == "[[" + list + "], [" + list + "]]");
	SEQ_CHECK(ToString(std::make_pair(n, std::string("x"))) == "(" + Dec(n) + ", x)" && ToString(MakeTuple(n, std::string("b"), v)) == "(" + Dec(n) + ", b, [" + list + "])");
	SEQ_CHECK(ToString(optional<int>()) == "null" && ToString(optional<int>(n)) == Dec(n) && ToString(shared_ptr<int>()) == "null" && ToString(make_shared_ptr<int>(n)) == Dec(n) && ToString(null) == "null" && ToString(optional<std::vector<int> >(v)) == "[" + list + "]");
	SEQ_CHECK((std::string)(StringBuilder() % "a" % v % 'c' % optional<int>(3) % -7) == "a[" + list + "]c3-7");
	if (!sv.empty() && !sv[0].empty()) { StringJoiner j(", ", "<", ">"), k(";"); std::string e, f; for (size_t i = 0; i < sv.size(); ++i) { if (i % 2) { j % NoSep % v[i]; k % Sep % sv[i]; } else { j % v[i]; k % sv[i]; } e += (i && i % 2 == 0 ? ", " : "") + Dec(v[i]); f += (i ? ";" : "") + sv[i]; } SEQ_CHECK_MSG(j.ToString() == "<" + e + ">" && (std::string)k == f, "%s, expected <%s>", j.ToString().c_str(), e.c_str()); }
	SEQ_CHECK(lexical_cast<std::string>(n) == Dec(n) && lexical_cast<int>(n) == n && lexical_cast<s64>(Dec(n)) == n); { const u16 u = lexical_caster(Dec(n + 65530)); SEQ_CHECK(u == n + 65530); }
}
// long text goes through the stream unchanged, whatever the sizes of the pieces are
SEQ_SCENARIO(streams, .Q(3).T(4).Split(2))
{
	static const size_t sizes[] = { 0, 1, 7, 255, 256, 257, 1000 }; string_ostream s; std::string e; StringBuilder b;
	for (int i = 0; i < depth; ++i)
	{
		std::string t(sizes[seq::Pick(7)], 'a' + i); if (!t.empty()) t[t.size() / 2] = i == 1 ? '\0' : '#';
		switch (seq::Pick(5)) { case 0: s << t; b % t; e += t; break; case 1: s << string_view(t); b % string_view(t); e += t; break; case 2: s << t.c_str(); b % t.c_str(); e += t.c_str(); break; case 3: for (char c : t) { s.push_back(c); b % c; } e += t; break; default: s << (s64)-9223372036854775807ll - 1; b % (s64)(-9223372036854775807ll - 1); e += "-9223372036854775808"; break; }
		SEQ_CHECK_MSG(s.str() == e && s.empty() == e.empty() && b.ToString() == e && b.empty() == e.empty(), "%zu characters of %zu", s.str().size(), e.size());
	}
	s.clear(); SEQ_CHECK(s.empty() && s.str().empty()); s << "x"; SEQ_CHECK(s.str() == "x");
}

// lines and where they end
SEQ_SCENARIO(lines, .Q(6).T(8).Split(2))
{
	std::string t; const int n = seq::Pick(depth + 1); for (int i = 0; i < n; ++i) t += "a\n\rb"[seq::Pick(4)];
	std::vector<std::string> e(1); bool open = false; for (size_t i = 0; i < t.size(); ++i) { if (t[i] == '\r' && i + 1 < t.size() && t[i + 1] == '\n') continue; if (t[i] == '\n' || t[i] == '\r') { e.push_back(""); } else e.back() += t[i]; } (void)open;
	if (e.back().empty()) e.pop_back(); // nothing is left after the last end of line
	StringReader r(t); std::vector<std::string> got; while (!r.IsEndOfString()) { const char c = r.Peek(); const std::string l = r.ReadLine(); SEQ_CHECK(l.empty() ? c == '\n' || c == '\r' : l[0] == c); got.push_back(l); SEQ_CHECK_MSG(got.size() <= t.size(), "no end of lines in %s", seq::Quote(t).c_str()); }
	SEQ_CHECK_MSG(got == e, "lines of %s: %s", seq::Quote(t).c_str(), ToString(got).c_str()); SEQ_CHECK(r.ReadLine().empty() && Throws([&] { r.Peek(); }));
}
