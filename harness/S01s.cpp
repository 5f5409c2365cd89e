// S01: text encoders and decoders against plain definitions.
#include "../seq/seq.h"
#include "common.h"
#include "codepages.h"
#include <stingraykit/UUID.h>
#include <stingraykit/locale/LangCode.h>
#include <stingraykit/locale/LocaleString.h>
#include <stingraykit/locale/StringCodec.h>
#include <stingraykit/string/Hex.h>
#include <stingraykit/string/Unicode.h>
#include <stingraykit/string/Utf8StringUtils.h>
#include <stingraykit/string/ToString.h>
#include <stingraykit/assert.h>
#include <memory>
#include <string.h>
#include <vector>
using namespace stingray;

namespace
{
	typedef unsigned long long ull;
	const u32 Bad = ~(u32)0;
	std::string Show(const std::string& s) { std::string r; char t[4]; for (char c : s) { snprintf(t, 4, "%02x ", (u8)c); r += t; } return r; }
	template < typename F > bool Throws(const F& f) { try { f(); } catch (const std::exception&) { return true; } return false; }
	bool IsHex(char c) { return c && strchr("0123456789abcdefABCDEF", c); }
	u64 HexDigit(char c) { return c <= '9' ? c - '0' : (c | 0x20) - 'a' + 10; }
	// a copy of exactly these bytes on the heap, so that reading past the end is noticed
	struct Exact
	{
		std::unique_ptr<char[]> p; size_t n;
		explicit Exact(const std::string& s) : p(new char[s.size()]), n(s.size()) { memcpy(p.get(), s.data(), n); }
		string_view View() const { return string_view(p.get(), n); }
	};

	template < typename T > void HexOf(T v)
	{
		seq::Cases(1);
		for (size_t width : { (size_t)0, (size_t)1, (size_t)2, sizeof(T), sizeof(T) * 2 - 1, sizeof(T) * 2, sizeof(T) * 2 + 3 })
			for (int f = 0; f < 4; ++f)
			{
				char e[64]; snprintf(e, sizeof(e), f & 1 ? "%0*llX" : "%0*llx", (int)width, (ull)v);
				const std::string s = ToHex(v, width, f & 1, f & 2), x = std::string(f & 2 ? "0x" : "") + e;
				SEQ_CHECK_MSG(s == x, "ToHex(%llx of %zu bytes, %zu): %s, expected %s", (ull)v, sizeof(T), width, s.c_str(), x.c_str());
				if (!(f & 2)) SEQ_CHECK_MSG(FromHex<T>(s) == v && FromHex<T>(string_view(Exact(s).View())) == v && FromHex<T>(s.c_str()) == v, "FromHex(%s)", s.c_str());
			}
		char e[64]; snprintf(e, sizeof(e), "%05llx", (ull)v); SEQ_CHECK(ToString(Hex(v, 5)) == e); snprintf(e, sizeof(e), "%llx", (ull)v); SEQ_CHECK(ToString(Hex(v)) == e);
	}
	template < typename T > void HexWalk() { for (size_t i = 0; i < sizeof(T) * 8; ++i) for (int n = 0; n < 2; ++n) { const T v = n ? (T)~((T)1 << i) : (T)((T)1 << i); HexOf<T>(v); HexOf<T>((T)(v + 1)); HexOf<T>((T)(v - 1)); HexOf<T>((T)(v ^ (T)0x0123456789abcdefull)); } HexOf<T>(0); HexOf<T>((T)~(T)0); }
	template < typename T > void ParseHex(const std::string& s, const std::string& tail)
	{
		bool ok = !(s + tail).empty(), fits = true; u64 v = 0; for (char c : s + tail) { if (!IsHex(c)) ok = false; else { if (v >> (sizeof(T) * 8 - 4)) fits = false; v = v << 4 | HexDigit(c); } }
		const Exact e(s + tail); bool got = true; T x = 0; try { x = FromHex<T>(e.View()); } catch (const std::exception&) { got = false; }
		SEQ_CHECK_MSG(got == (ok && fits) && (!got || x == (T)v), "FromHex of %zu bytes '%s': %s %llx, expected %s %llx", sizeof(T), (s + tail).c_str(), got ? "value" : "error", (ull)x, ok && fits ? "value" : "error", (ull)v);
	}
}

SEQ_SCENARIO(hex_numbers, .Q(0).T(0).Split(1))
{
	switch (seq::Pick(4)) { case 0: for (int i = 0; i < 256; ++i) HexOf<u8>(i); HexWalk<u8>(); break; case 1: HexWalk<u16>(); for (unsigned i = 0; i < 65536; i += 7) HexOf<u16>(i); break; case 2: HexWalk<u32>(); break; default: HexWalk<u64>(); break; }
}

SEQ_SCENARIO(hex_parsing, .Q(5).T(6).Split(2))
{
	static const char alphabet[] = "019afFgG-x \0/:@`"; // neighbours of the digit ranges included
	std::string s; const int n = seq::Pick(depth); for (int i = 0; i < n; ++i) s += alphabet[seq::Pick(16)];
	ParseHex<u8>(s, ""); ParseHex<u16>(s, n > 1 ? "7f" : ""); ParseHex<u32>(s, n > 1 ? "0000007" : ""); ParseHex<u64>(s, n > 1 ? "fedcba98765432" : "");
	// bytes
	std::string d = s; if (d.size() >= 2 && d[0] == '0' && d[1] == 'x') d = d.substr(2);
	bool ok = true; for (char c : d) ok = ok && IsHex(c);
	const Exact e(s); bool got = true; ByteArray b; try { b = FromHex<ByteArray>(e.View()); } catch (const std::exception&) { got = false; }
	SEQ_CHECK_MSG(got == ok, "bytes of '%s': %s", s.c_str(), got ? "value" : "error");
	if (ok) { if (d.size() % 2) d = "0" + d; SEQ_CHECK(b.size() * 2 == d.size()); for (size_t i = 0; i < b.size(); ++i) SEQ_CHECK_MSG(b[i] == HexDigit(d[2 * i]) * 16 + HexDigit(d[2 * i + 1]), "bytes of '%s'", s.c_str()); for (char& c : d) c = tolower(c); SEQ_CHECK(ToHex(b) == d && ToHex(b, d.size() + 3) == "000" + d && FromHex<ByteArray>(ToHex(b, 0, true)) == b); }
}

SEQ_SCENARIO(hex_prefixed, .Q(5).T(7).Split(2))
{
	std::string d; const int n = seq::Pick(depth + 1); for (int i = 0; i < n; ++i) d += "09aF"[seq::Pick(4)];
	const Exact e("0x" + d); const ByteArray b = FromHex<ByteArray>(e.View()); if (d.size() % 2) d = "0" + d;
	SEQ_CHECK(b.size() * 2 == d.size()); for (size_t i = 0; i < b.size(); ++i) SEQ_CHECK_MSG(b[i] == HexDigit(d[2 * i]) * 16 + HexDigit(d[2 * i + 1]), "bytes of '0x%s'", d.c_str());
}
SEQ_SCENARIO(hex_bytes_and_dumps, .Q(0).T(0).Split(2))
{
	const size_t n = seq::Pick(42), width = seq::Flip() ? 16 : 8, limit = seq::Pick(2) ? 16 : 5; std::vector<u8> d; for (size_t i = 0; i < n; ++i) d.push_back(0x13 * i + 0x1d * (i / 3));
	std::string hex, dump, brief = "{ ", line; char t[32];
	for (size_t i = 0; i < n; ++i) { snprintf(t, 32, "%02x", d[i]); hex += t; if (i < limit) { brief += t; brief += " "; } }
	for (size_t o = 0; o < n; o += width)
	{
		snprintf(t, 32, "%08zx: ", o); dump += t; std::string text;
		for (size_t i = o; i < o + width; ++i) if (i < n) { snprintf(t, 32, "%02x ", d[i]); dump += t; text += d[i] >= 0x20 && d[i] < 0x7f ? (char)d[i] : '.'; } else dump += "   ";
		dump += text; if (o + width < n) dump += "\n";
	}
	const std::unique_ptr<u8[]> exact(new u8[n]); std::copy(d.begin(), d.end(), exact.get()); const ByteArray a(exact.get(), n); const ConstByteData data(exact.get(), n);
	SEQ_CHECK(ToHex(data) == hex && ToHex(a) == hex && FromHex<ByteArray>(hex) == a && FromHex<ByteArray>("0x" + hex) == a);
	SEQ_CHECK_MSG(ToString(HexDump(exact.get(), n, width)) == dump && ToString(HexDump(data, ~(size_t)0, width)) == dump && ToString(HexDump(a, n, width)) == dump && ToString(HexDump(d, ~(size_t)0, width)) == dump, "dump %s expected %s", ToString(HexDump(data, ~(size_t)0, width)).c_str(), dump.c_str());
	SEQ_CHECK_MSG(ToString(ShortHexDump(exact.get(), n, limit)) == brief + (n > limit ? "... }" : "}"), "short dump %s", ToString(ShortHexDump(exact.get(), n, limit)).c_str());
}

SEQ_SCENARIO(uuids, .Q(0).T(0).Split(1))
{
	static const char alphabet[] = "09afAFgG-x:/@` Z"; const size_t pos = seq::Pick(40); const char c = alphabet[seq::Pick(16)]; const int kind = seq::Pick(3);
	u8 bytes[16]; for (int i = 0; i < 16; ++i) bytes[i] = kind == 0 ? 0x10 * i + 15 - i : kind == 1 ? 0 : 0xff - i * 3; if (pos < 16) bytes[pos] = (u8)c;
	const UUID u(ConstByteData(bytes, 16)); std::string e; for (int i = 0; i < 16; ++i) { char t[4]; snprintf(t, 4, "%02x", bytes[i]); if (i == 4 || i == 6 || i == 8 || i == 10) e += "-"; e += t; }
	SEQ_CHECK_MSG(u.ToString() == e, "%s expected %s", u.ToString().c_str(), e.c_str());
	SEQ_CHECK(UUID::FromString(e) == u && UUID::GetRepresentation().size() == 36);
	{ u8 other[16]; memcpy(other, bytes, 16); if (pos < 16) { other[pos] ^= 0x80; const UUID o(ConstByteData(other, 16)); const int r = memcmp(bytes, other, 16); SEQ_CHECK((u < o) == (r < 0) && (o < u) == (r > 0) && u != o && (u <= o) == (r <= 0)); } }
	{ const UUID v(ConstByteData(bytes, 16), true); u8 w[16]; memcpy(w, bytes, 16); w[6] = (w[6] & 15) | 0x40; w[8] = (w[8] & 0x3f) | 0x80; SEQ_CHECK(v == UUID(ConstByteData(w, 16))); }
	std::string m = e; if (pos < 36) m[pos] = c; else if (pos == 36) m.erase(35); else if (pos == 37) m += c; else if (pos == 38) m.insert(8, 1, c); else m.clear();
	const bool dash = pos == 8 || pos == 13 || pos == 18 || pos == 23, ok = pos < 36 && (dash ? c == '-' : IsHex(c));
	const Exact x(m); bool got = true; UUID p; try { p = UUID::FromString(x.View()); } catch (const std::exception&) { got = false; }
	SEQ_CHECK_MSG(got == ok, "'%s': %s", m.c_str(), got ? "accepted" : "refused");
	if (ok) { for (char& k : m) k = tolower(k); SEQ_CHECK(p.ToString() == m); }
	if (pos < 20 && pos != 16) SEQ_CHECK(Throws([&] { UUID(ConstByteData(std::vector<u8>(pos).data(), pos)); }));
}

namespace
{
	// one code point, as the Unicode standard defines well-formed UTF-8; Bad and no progress promised if malformed
	u32 Decode(const std::string& s, size_t& i)
	{
		const u8 a = s[i]; auto at = [&](size_t k) { return k < s.size() ? (u8)s[k] : (u8)0; }; auto cont = [&](size_t k) { return k < s.size() && ((u8)s[k] & 0xc0) == 0x80; };
		if (a < 0x80) { ++i; return a; }
		u32 v; int n;
		if (a >= 0xc2 && a <= 0xdf) { n = 1; v = a & 31; } else if (a >= 0xe0 && a <= 0xef) { n = 2; v = a & 15; } else if (a >= 0xf0 && a <= 0xf4) { n = 3; v = a & 7; } else return Bad;
		for (int k = 1; k <= n; ++k) { if (!cont(i + k)) return Bad; v = v << 6 | (at(i + k) & 63); }
		if ((n == 2 && v < 0x800) || (n == 3 && v < 0x10000) || v > 0x10ffff || (v >= 0xd800 && v < 0xe000)) return Bad;
		i += n + 1; return v;
	}
	bool DecodeAll(const std::string& s, std::vector<u32>& r) { for (size_t i = 0; i < s.size(); ) { const u32 v = Decode(s, i); if (v == Bad) return false; r.push_back(v); } return true; }
	std::string Encode8(u32 v) { std::string s; if (v < 0x80) s += (char)v; else if (v < 0x800) { s += (char)(0xc0 | v >> 6); s += (char)(0x80 | (v & 63)); } else if (v < 0x10000) { s += (char)(0xe0 | v >> 12); s += (char)(0x80 | (v >> 6 & 63)); s += (char)(0x80 | (v & 63)); } else { s += (char)(0xf0 | v >> 18); s += (char)(0x80 | (v >> 12 & 63)); s += (char)(0x80 | (v >> 6 & 63)); s += (char)(0x80 | (v & 63)); } return s; }
	std::string Unit16(u32 u, bool le) { std::string s; s += (char)(le ? u : u >> 8); s += (char)(le ? u >> 8 : u); return s; }
	std::string Encode16(u32 v, bool le) { return v < 0x10000 ? Unit16(v, le) : Unit16(0xd800 + ((v - 0x10000) >> 10), le) + Unit16(0xdc00 + ((v - 0x10000) & 0x3ff), le); }
	std::string Encode32(u32 v, bool le) { std::string s; for (int i = 0; i < 4; ++i) s += (char)(v >> (le ? i : 3 - i) * 8); return s; }

	void WalkText(const std::string& s)
	{
		std::vector<u32> cp; const bool ok = DecodeAll(s, cp); const Exact e(s); typedef Utf8IteratorRange<string_view> R;
		const string_view v = e.View(); std::vector<u32> fw, bw; bool fok = true, bok = true;
		try { for (R r(v); r.Valid(); r.Next()) fw.push_back(r.Get()); } catch (const std::exception&) { fok = false; }
		SEQ_CHECK_MSG(fok == ok && (!ok || fw == cp), "forwards over %s: %s, %zu of %zu code points", Show(s).c_str(), fok ? "accepted" : "refused", fw.size(), cp.size());
		if (!ok && !fw.empty()) { std::vector<u32> prefix; DecodeAll(s, prefix); SEQ_CHECK(fw == prefix); }
		try { R r(v, v.end()); while (r.GetIterator() != v.begin()) { r.Prev(); bw.insert(bw.begin(), r.Get()); } } catch (const std::exception&) { bok = false; }
		SEQ_CHECK_MSG(bok == ok && (!ok || bw == cp), "backwards over %s: %s", Show(s).c_str(), bok ? "accepted" : "refused");
		SEQ_CHECK(Utf8Validate(v) == ok);
		if (!ok) return;
		SEQ_CHECK(Utf8Strlen(v) == cp.size());
		R l(v); l.Last(); SEQ_CHECK(l.Valid() == !cp.empty() && (cp.empty() || l.Get() == cp.back())); R f(v); f.Last(); f.First(); SEQ_CHECK(f.GetIterator() == v.begin());
	}
	void UnpackText(const std::string& s)
	{
		const Exact e(s); const string_view v = e.View(); const StringCodec::UnpackFunc unpack = StringCodec::GetUnpackFunc(Encoding(Encoding::ISO_10646_utf8));
		string_view::const_iterator it = v.begin(); size_t i = 0;
		while (it != v.end())
		{
			const string_view::const_iterator was = it; const u32 x = unpack(it, v.end()); size_t j = i; const u32 y = Decode(s, j);
			SEQ_CHECK_MSG(x == y, "unpacking %s at %zu: %x, expected %x", Show(s).c_str(), i, x, y);
			SEQ_CHECK_MSG(it > was && it <= v.end(), "unpacking %s at %zu leaves at %td", Show(s).c_str(), i, it - v.begin());
			if (y != Bad) SEQ_CHECK((size_t)(it - v.begin()) == j);
			i = it - v.begin();
		}
	}
	const u8 Edges[] = { 0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf8, 0xff };
}

// every byte sequence over the bytes where the rules change
SEQ_SCENARIO(utf8_unpacking, .Q(4).T(5).Split(2))
{
	std::string s; const int n = seq::Pick(depth + 1); for (int i = 0; i < n; ++i) s += (char)Edges[seq::Pick(26)];
	UnpackText(s);
}
SEQ_SCENARIO(utf8_walking, .Q(4).T(4).Split(2))
{
	std::string s; const int n = seq::Pick(depth + 1); for (int i = 0; i < n; ++i) s += (char)Edges[seq::Pick(26)];
	WalkText(s);
}
// whole characters and what is left of them when cut, in any order
SEQ_SCENARIO(utf8_texts, .Q(4).T(5).Split(2))
{
	static const char* parts[] = { "a", "\xc3\xa9", "\xd1\x8f", "\xe2\x82\xac", "\xef\xbf\xbf", "\xf0\x9f\x98\x80", "\xf4\x8f\xbf\xbf", "\xe2\x82", "\xf0\x9f\x98", "\xed\xa0\x80", "\xe0\x9f\xbf", "\xf0\x8f\xbf\xbf", "\xf4\x90\x80\x80" };
	std::string s; const int n = seq::Pick(depth + 1); for (int i = 0; i < n; ++i) s += parts[seq::Pick(13)];
	WalkText(s); UnpackText(s);
}
SEQ_SCENARIO(utf8_substrings, .Q(6).T(8).Split(2))
{
	static const char* parts[] = { "a", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80" };
	std::vector<std::string> cs; std::string s; const int n = seq::Pick(depth + 1); for (int i = 0; i < n; ++i) { cs.push_back(parts[seq::Pick(4)]); s += cs.back(); }
	for (size_t pos = 0; pos <= cs.size(); ++pos) for (size_t count = 0; count <= cs.size() + 2; ++count)
	{
		seq::Cases(1);
		std::string e; for (size_t i = pos; i < cs.size() && (count == cs.size() + 2 || i < pos + count); ++i) e += cs[i];
		SEQ_CHECK_MSG(Utf8Substring<true>(s, pos, count == cs.size() + 2 ? string_view::npos : count) == e, "substring of %s from %zu, %zu characters", Show(s).c_str(), pos, count);
	}
	for (size_t pos = 0; pos <= s.size(); ++pos) for (size_t count = 0; count <= s.size() + 1; ++count)
	{
		// by bytes: from the first character that starts at or after pos, as many whole characters as fit
		std::string e; size_t at = 0, i = 0; while (at < pos) at += cs[i++].size();
		for (; i < cs.size() && (count == s.size() + 1 || e.size() + cs[i].size() <= count); ++i) e += cs[i];
		SEQ_CHECK_MSG(Utf8Substring<false>(s, pos, count == s.size() + 1 ? string_view::npos : count) == e, "substring of %s from byte %zu, %zu bytes", Show(s).c_str(), pos, count);
	}
	SEQ_CHECK(Throws([&] { Utf8Substring<true>(s, cs.size() + 1); }));
}

// every code point in every Unicode encoding
SEQ_SCENARIO(code_points, .Q(0).T(0).Split(1))
{
	const u32 block = seq::Pick(0x110); const Encoding encs[] = { Encoding::ISO_10646_utf16BE, Encoding::ISO_10646_utf16LE, Encoding::ISO_10646_utf32BE, Encoding::ISO_10646_utf32LE, Encoding::ISO_10646_utf8, Encoding::ISO_10646 };
	StringCodec::UnpackFunc un[6]; for (int k = 0; k < 6; ++k) un[k] = StringCodec::GetUnpackFunc(encs[k]);
	for (u32 v = block << 12; v < (block + 1) << 12; ++v)
	{
		if (v >= 0xd800 && v < 0xe000) continue;
		seq::Cases(1); const std::string u8s = Encode8(v);
		std::string p; StringCodec::PackUtf8(p, v, '?'); SEQ_CHECK_MSG(p == u8s, "PackUtf8(%x) = %s", v, Show(p).c_str());
		const std::string t[] = { Encode16(v, false), Encode16(v, true), Encode32(v, false), Encode32(v, true), u8s, Encode16(v, false) };
		for (int k = 0; k < 6; ++k) { const string_view w(t[k]); string_view::const_iterator it = w.begin(); const u32 x = un[k](it, w.end()); SEQ_CHECK_MSG(x == v && it == w.end(), "%s of %x: %x", encs[k].GetName().c_str(), v, x); }
		if (v % 64 == 0 || (v + 1) % 0x400 == 0) { Utf8IteratorRange<std::string> r(u8s); SEQ_CHECK(r.Get() == v); r.Next(); SEQ_CHECK(!r.Valid()); r.Prev(); SEQ_CHECK(r.Valid() && r.Get() == v); for (int k = 0; k < 6; ++k) SEQ_CHECK(k == 5 ? v == 0xfeff || v == 0xfffe || LocaleString(encs[k], t[k]).ToString() == u8s : LocaleString(encs[k], t[k]).ToString() == u8s); }
	}
	{ std::string p; StringCodec::PackUtf8(p, 0x110000 + block, '#'); StringCodec::PackUtf8(p, ~block, '#'); SEQ_CHECK(p == "##"); }
}

// every sequence of 16-bit units around the surrogate ranges, whole or cut
SEQ_SCENARIO(utf16_sequences, .Q(4).T(6).Split(2))
{
	static const u32 units[] = { 0x0041, 0xd7ff, 0xd800, 0xdb01, 0xdbff, 0xdc00, 0xde02, 0xdfff, 0xe000, 0xffff, 0xfeff };
	const bool le = seq::Flip(), cut = seq::Flip(); std::vector<u32> u; const int n = seq::Pick(depth + 1); std::string s; for (int i = 0; i < n; ++i) { u.push_back(units[seq::Pick(11)]); s += Unit16(u.back(), le); }
	if (cut) { if (s.empty()) return; s.erase(s.size() - 1); u.pop_back(); }
	const Exact e(s); const string_view v = e.View(); const auto un = StringCodec::GetUnpackFunc(Encoding(le ? Encoding::ISO_10646_utf16LE : Encoding::ISO_10646_utf16BE));
	string_view::const_iterator it = v.begin();
	while (it != v.end())
	{
		const size_t at = it - v.begin(), i = at / 2; u32 x = Bad; size_t len = 0;
		if (at % 2 == 0 && i < u.size()) { if (u[i] < 0xd800 || u[i] > 0xdfff) { x = u[i]; len = 2; } else if (u[i] < 0xdc00 && i + 1 < u.size() && u[i + 1] >= 0xdc00 && u[i + 1] <= 0xdfff) { x = 0x10000 + ((u[i] - 0xd800) << 10) + (u[i + 1] - 0xdc00); len = 4; } }
		const u32 y = un(it, v.end()); SEQ_CHECK_MSG(x == y, "%s at %zu: %x, expected %x", Show(s).c_str(), at, y, x); SEQ_CHECK(it <= v.end() && (size_t)(it - v.begin()) > at && (!len || (size_t)(it - v.begin()) == at + len));
		if (x == Bad && (it - v.begin()) % 2) break;
	}
}
SEQ_SCENARIO(utf32_sequences, .Q(0).T(0).Split(1))
{
	static const u32 units[] = { 0, 0x41, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x110000, 0x00ffffff, 0x7fffffff, 0xffffffff, 0x41000000 };
	const bool le = seq::Flip(); const u32 a = units[seq::Pick(12)], b = units[seq::Pick(12)]; const size_t cut = seq::Pick(4); std::string s = Encode32(a, le) + Encode32(b, le); s.erase(8 - cut);
	const Exact e(s); const string_view v = e.View(); const auto un = StringCodec::GetUnpackFunc(Encoding(le ? Encoding::ISO_10646_utf32LE : Encoding::ISO_10646_utf32BE)); string_view::const_iterator it = v.begin();
	SEQ_CHECK(un(it, v.end()) == (a <= 0x10ffff ? a : Bad) && it - v.begin() == 4);
	const u32 y = un(it, v.end()); SEQ_CHECK_MSG(y == (!cut && b <= 0x10ffff ? b : Bad) && it == v.end(), "%s: %x", Show(s).c_str(), y);
}

namespace
{
	const Encoding::Enum PageEncodings[] = { Encoding::CP1251, Encoding::ISO_8859_1, Encoding::ISO_8859_2, Encoding::ISO_8859_3, Encoding::ISO_8859_4, Encoding::ISO_8859_5, Encoding::ISO_8859_6, Encoding::ISO_8859_7, Encoding::ISO_8859_8, Encoding::ISO_8859_9, Encoding::ISO_8859_10, Encoding::ISO_8859_11, Encoding::ISO_8859_13, Encoding::ISO_8859_14, Encoding::ISO_8859_15, Encoding::ISO_8859_16 };
	u32 PageChar(int page, int byte) { return byte < 128 ? byte : CodePages[page].high[byte - 128]; }
}
SEQ_SCENARIO(code_pages, .Q(0).T(0).Split(1))
{
	const int page = seq::Pick(17);
	for (int c = 0; c < 256; ++c)
	{
		seq::Cases(1); u32 e = PageChar(page, c); const std::string s(1, (char)c); if (page == 16 && c >= 0xb0 && c < 0xe0) e = Bad; // pseudographics are not supported
		const std::string u = e == Bad ? "?" : Encode8(e);
		if (page < 16)
		{
			const LocaleString l(PageEncodings[page], s); if (e == Bad && l.ToString() == "\xef\xbf\xbd") continue; /* the replacement character is a report, too */ SEQ_CHECK_MSG(l.ToString() == u, "%s %02x: %s, expected %s", CodePages[page].name, c, Show(l.ToString()).c_str(), Show(u).c_str());
			if (e == Bad) SEQ_CHECK(StringCodec::ToUtf8(l, 0x20ac) == "\xe2\x82\xac");
			SEQ_CHECK(LocaleString(PageEncodings[page], "a" + s + "b").ToString() == "a" + u + "b");
		}
		if (page == 0 || page == 16)
		{
			const unsigned cp = page ? 866 : 1251; const LocaleString l = StringCodec::FromCodePage(s, cp); SEQ_CHECK_MSG(l.TextEncoding == Encoding(Encoding::ISO_10646_utf8) && l.Text == u, "from %s %02x: %s, expected %s", CodePages[page].name, c, Show(l.Text).c_str(), Show(u).c_str());
			if (page == 16) { SEQ_CHECK_MSG(StringCodec::ToCodePage(l, cp) == (e == Bad ? "?" : s), "to %s %02x: %s", CodePages[page].name, c, Show(StringCodec::ToCodePage(l, cp)).c_str()); }
		}
		SEQ_CHECK(StringCodec::FromCodePage(s, 437).Text == (c < 128 ? s : "?"));
	}
	if (page == 16) for (u32 v = 1; v < 0x3000; ++v) { int byte = -1; for (int c = 0; c < 256; ++c) if (PageChar(16, c) == v && !(c >= 0xb0 && c < 0xe0)) byte = c; SEQ_CHECK_MSG(StringCodec::ToCodePage(LocaleString::FromUtf8(Encode8(v)), 866) == (byte < 0 ? std::string("?") : std::string(1, (char)byte)), "%x to CP866", v); SEQ_CHECK(StringCodec::ToCodePage(LocaleString::FromUtf8(Encode8(v)), 0) == (v < 128 ? std::string(1, (char)v) : "?")); }
	for (Encoding::Enum n : { Encoding::ISO_8859_12, Encoding::KSX1001_2004, Encoding::GB_2312_1980, Encoding::ISO_10646_big5 }) SEQ_CHECK(Throws([&] { LocaleString(n, "x").ToString(); }));
}

// byte order marks choose the encoding and are not part of the text
SEQ_SCENARIO(byte_order_marks, .Q(0).T(0).Split(1))
{
	static const u32 cps[] = { 0x41, 0xe9, 0x416, 0x20ac, 0x1f600 }; const int kind = seq::Pick(6), n = seq::Pick(3); std::string s, u; for (int i = 0; i < n; ++i) { const u32 v = cps[seq::Pick(5)]; u += Encode8(v); s += kind == 0 ? Encode8(v) : kind <= 2 ? Encode16(v, kind == 2) : kind <= 4 ? Encode32(v, kind == 4) : Encode16(v, false); }
	const std::string bom = kind == 0 ? "\xef\xbb\xbf" : kind <= 2 ? Unit16(0xfeff, kind == 2) : kind <= 4 ? Encode32(0xfeff, kind == 4) : std::string();
	const Encoding::Enum encs[] = { Encoding::ISO_10646_utf8, Encoding::ISO_10646_utf16BE, Encoding::ISO_10646_utf16LE, Encoding::ISO_10646_utf32BE, Encoding::ISO_10646_utf32LE };
	size_t size = 77; const optional<Encoding> e = StringCodec::GetEncoding(bom + s, size); SEQ_CHECK(e.is_initialized() == (kind < 5) && size == bom.size()); if (e) SEQ_CHECK(*e == Encoding(encs[kind]));
	SEQ_CHECK_MSG(LocaleString(Encoding::ISO_10646, bom + s).ToString() == u, "%s: %s, expected %s", Show(bom + s).c_str(), Show(LocaleString(Encoding::ISO_10646, bom + s).ToString()).c_str(), Show(u).c_str());
	SEQ_CHECK(LocaleString(Encoding::ISO_10646, bom + s).Compare(LocaleString::FromUtf8(u)) == 0 && LocaleString(Encoding::ISO_10646, bom + s) == LocaleString::FromUtf8(u));
}

// comparison looks at the characters, whatever the encodings are
SEQ_SCENARIO(locale_strings, .Q(3).T(3).Split(2))
{
	static const u32 cps[] = { 0x41, 0x62, 0x401, 0x416, 0x44f }; const Encoding::Enum encs[] = { Encoding::ISO_10646_utf8, Encoding::ISO_10646_utf16BE, Encoding::ISO_10646_utf32LE, Encoding::CP1251, Encoding::ISO_8859_5 };
	LocaleString l[2]; std::vector<u32> c[2];
	for (int k = 0; k < 2; ++k)
	{
		const int e = seq::Pick(5), n = seq::Pick(depth + 1); std::string s;
		for (int i = 0; i < n; ++i) { const u32 v = cps[seq::Pick(5)]; c[k].push_back(v); if (e == 0) s += Encode8(v); else if (e == 1) s += Encode16(v, false); else if (e == 2) s += Encode32(v, true); else { for (int b = 0; b < 256; ++b) if (PageChar(e == 3 ? 0 : 5, b) == v) s += (char)b; } }
		l[k] = LocaleString(encs[e], s);
	}
	const int r = l[0].Compare(l[1]); const int x = c[0] < c[1] ? -1 : c[0] > c[1] ? 1 : 0; const int sg = r < 0 ? -1 : r > 0;
	SEQ_CHECK_MSG(sg == x, "%s (%s) against %s (%s): %d", l[0].TextEncoding.GetName().c_str(), Show(l[0].Text).c_str(), l[1].TextEncoding.GetName().c_str(), Show(l[1].Text).c_str(), r);
	SEQ_CHECK_MSG((l[0] == l[1]) == (x == 0) && (l[0] != l[1]) == (x != 0) && (l[0] < l[1]) == (x < 0), "%s (%s) against %s (%s): compare %d but ==", l[0].TextEncoding.GetName().c_str(), Show(l[0].Text).c_str(), l[1].TextEncoding.GetName().c_str(), Show(l[1].Text).c_str(), r);
}

SEQ_SCENARIO(language_codes, .Q(0).T(0).Split(2))
{
	static const u8 cs[] = { 'a', 'm', 'z', 'A', 'Z', '@', '[', '`', '{', '1', 0xe9, 0xff, 0x80, 0x7f }; std::string s, t; for (int i = 0; i < 3; ++i) s += (char)cs[seq::Pick(14)]; for (char c : s) t += c >= 'a' && c <= 'z' ? (char)(c - 32) : c;
	const LangCode l(s); SEQ_CHECK_MSG(l.ToString() == t && LangCode(t) == l && LangCode::FromString(s) == l && LangCode::From3Letter(s) == l && l != LangCode(LangCode::Any), "%s: %s", Show(s).c_str(), Show(l.ToString()).c_str());
	const u32 n = (u32)(u8)s[0] << 16 | (u32)(u8)s[1] << 8 | (u8)s[2]; SEQ_CHECK_MSG(LangCode(n) == l && LangCode(n).ToString() == t, "code %x: %s", n, Show(LangCode(n).ToString()).c_str());
	const LangCode eng = LangCode::Eng(); const int r = std::basic_string<unsigned char>(t.begin(), t.end()).compare(std::basic_string<unsigned char>((const unsigned char*)"ENG")); SEQ_CHECK((l < eng) == (r < 0) && (l == eng) == (r == 0) && (l > eng) == (r > 0));
	const std::string two = s.substr(0, 2), up = t.substr(0, 2); SEQ_CHECK(LangCode::FromString(two) == (up == "RU" ? LangCode::Rus() : up == "EN" ? LangCode::Eng() : LangCode()));
	if (s[1] == s[2] && s[0] == 'a') { SEQ_CHECK(Throws([&] { LangCode(s + "x"); }) && Throws([&] { LangCode(std::string()); }) && Throws([&] { LangCode(s.substr(0, 2)); }) && Throws([&] { LangCode(n | 0x1000000); }) && LangCode().ToString().empty() && LangCode((u32)0) == LangCode(LangCode::Any)); SEQ_CHECK(LangCode("eng").To2LetterString() == "en" && LangCode::FromString("rU") == LangCode::Rus() && LangCode::FromString("En") == LangCode::Eng()); }
}

// lower case: letters of the alphabets change to their pairs, everything else stays, also in context
SEQ_SCENARIO(lower_case, .Q(0).T(0).Split(1))
{
	const u32 block = seq::Pick(0x12);
	for (u32 v = block << 6; v < (block + 1) << 6; ++v)
	{
		u32 e; if (v < 0x80) e = v >= 'A' && v <= 'Z' ? v + 32 : v; else if (v >= 0x400 && v < 0x410) e = v + 0x50; else if (v >= 0x410 && v < 0x430) e = v + 0x20; else if (v >= 0x430 && v < 0x460) e = v; else continue;
		seq::Cases(1); const std::string s = "x" + Encode8(v) + "\xd0\x96Y", r = Utf8ToLower(s); SEQ_CHECK_MSG(r == "x" + Encode8(e) + "\xd0\xb6y" && Utf8ToLower(r) == r, "lower case of %x: %s", v, Show(r).c_str());
	}
}
