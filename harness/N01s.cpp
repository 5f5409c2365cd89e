// N01: numbers, arithmetic helpers, ranges and rectangles against wide built-in arithmetic.
#include "../seq/seq.h"
#include "common.h"
#include <stingraykit/Accumulators.h>
#include <stingraykit/Average.h>
#include <stingraykit/BigNum.h>
#include <stingraykit/BitwiseOperations.h>
#include <stingraykit/Decimal.h>
#include <stingraykit/NumericRange.h>
#include <stingraykit/Rational.h>
#include <stingraykit/Rect.h>
#include <stingraykit/collection/ForEach.h>
#include <stingraykit/collection/iterators.h>
#include <stingraykit/fixed_point.h>
#include <functional>
#include <stingraykit/math.h>
#include <cmath>
#include <vector>
using namespace stingray;

namespace
{
	typedef std::string Str;
	typedef __int128 Wide;
	typedef BigUnsignedInteger Big;
	typedef std::vector<u64> Units; // least significant first, no leading zeroes
	template < typename F > bool Throws(const F& f) { try { f(); } catch (const std::exception&) { return true; } return false; }
	void Zap(Units& u) { while (!u.empty() && !u.back()) u.pop_back(); }
	Units UAdd(const Units& a, const Units& b) { Units r; unsigned __int128 c = 0; for (size_t i = 0; i < std::max(a.size(), b.size()) + 1; ++i) { c += (unsigned __int128)(i < a.size() ? a[i] : 0) + (i < b.size() ? b[i] : 0); r.push_back((u64)c); c >>= 64; } Zap(r); return r; }
	bool USub(const Units& a, const Units& b, Units& r) { r.clear(); bool borrow = false; for (size_t i = 0; i < std::max(a.size(), b.size()); ++i) { const u64 x = i < a.size() ? a[i] : 0, y = i < b.size() ? b[i] : 0; r.push_back(x - y - borrow); borrow = x < y || (x == y && borrow); } Zap(r); return !borrow; }
	Units UMul(const Units& a, const Units& b) { Units r(a.size() + b.size() + 1, 0); for (size_t i = 0; i < a.size(); ++i) { unsigned __int128 c = 0; size_t k = i; for (size_t j = 0; j < b.size(); ++j, ++k) { c += (unsigned __int128)a[i] * b[j] + r[k]; r[k] = (u64)c; c >>= 64; } for (; c; ++k) { c += r[k]; r[k] = (u64)c; c >>= 64; } } Zap(r); return r; }
	bool ULess(const Units& a, const Units& b) { if (a.size() != b.size()) return a.size() < b.size(); for (size_t i = a.size(); i--; ) if (a[i] != b[i]) return a[i] < b[i]; return false; }
	Units UShl(const Units& a, int bits) { Units r(bits / 64, 0); const int s = bits % 64; u64 c = 0; for (u64 x : a) { r.push_back((x << s) | c); c = s ? x >> (64 - s) : 0; } r.push_back(c); Zap(r); return r; }
	Units UShr(const Units& a, int bits) { Units r; const int s = bits % 64; for (size_t i = bits / 64; i < a.size(); ++i) r.push_back((a[i] >> s) | (s && i + 1 < a.size() ? a[i + 1] << (64 - s) : 0)); Zap(r); return r; }
	Units UDivSmall(const Units& a, u64 d, u64& rem) { Units q(a.size()); unsigned __int128 r = 0; for (size_t i = a.size(); i--; ) { r = (r << 64) | a[i]; q[i] = (u64)(r / d); r %= d; } rem = (u64)r; Zap(q); return q; }
	Str UText(Units a, u64 base) { Str s; while (!a.empty()) { u64 d; a = UDivSmall(a, base, d); s.insert(s.begin(), d < 10 ? '0' + d : 'A' + d - 10); } return s.empty() ? "0" : s; }

	const u64 Unit[] = { 0, 1, 2, 0xffffffffULL, 0x100000000ULL, 0x8000000000000000ULL, 0xfffffffffffffffeULL, 0xffffffffffffffffULL };
	std::vector<Units>& Values() { static std::vector<Units> v; if (v.empty()) for (u64 a : Unit) for (u64 b : Unit) for (u64 c : Unit) { Units u{ c, b, a }; Zap(u); v.push_back(u); } return v; }
	std::vector<Big>& Bigs() { static std::vector<Big> v; if (v.empty()) for (const Units& u : Values()) v.push_back(Big(UText(u, 16), 16)); return v; }
	Units Read(const Big& b) { const Big mask(0xffffffffffffffffULL), zero(0); Units r; for (Big x = b; x != zero; x = x >> 64) r.push_back((x & mask).ToPrimitive<u64>()); return r; }
	Str Hex(const Units& u) { return UText(u, 16); }
	void Expect(const Big& got, const Units& want, const Units& a, const char* op, const Units& b)
	{ seq::Cases(1); const Units g = Read(got); SEQ_CHECK_MSG(g == want, "%s %s %s is %s, not %s", Hex(a).c_str(), op, Hex(b).c_str(), Hex(g).c_str(), Hex(want).c_str()); }
}

SEQ_SCENARIO(bigtext, .Q(1).T(1).Split(1))
{
	(void)depth; const size_t i = seq::Pick(512); const Units& u = Values()[i]; const Big& b = Bigs()[i];
	for (size_t base = 2; base <= 36; base += (base == 2 || base == 8 || base == 9 || base >= 34) ? 1 : base == 10 ? 6 : base == 16 ? 18 : 6)
	{
		const Str text = UText(u, base); Str lower = text; for (char& c : lower) c = tolower(c); seq::Cases(2);
		SEQ_CHECK_MSG(b.ToString(base) == text, "%s in base %zu is '%s', not '%s'", Hex(u).c_str(), base, b.ToString(base).c_str(), text.c_str());
		SEQ_CHECK_MSG(Big(text, base) == b && Big(lower, base) == b && Big("00" + text, base) == b, "'%s' in base %zu", text.c_str(), base);
	}
	SEQ_CHECK_MSG(b.ToString() == UText(u, 16) && Big("0x" + UText(u, 16)) == b && Big("0b" + UText(u, 2)) == b && Big(UText(u, 10)) == b && Big(UText(u, 10).c_str()) == b, "prefixed text of %s", Hex(u).c_str());
	const ByteArray bytes = b.ToByteArray(); Str hex; char s[8]; for (u8 x : bytes) { snprintf(s, sizeof s, "%02X", x); hex += s; } while (hex.size() > 1 && hex[0] == '0') hex.erase(0, 1);
	SEQ_CHECK_MSG((u.empty() ? bytes.empty() : hex == Hex(u) && bytes[0] != 0) && Big(ConstByteData(bytes)) == b, "bytes of %s are %s", Hex(u).c_str(), hex.c_str());
	SEQ_CHECK_MSG(Read(b) == u, "%s read as %s", Hex(u).c_str(), Hex(Read(b)).c_str());
	if (u.size() <= 1)
	{
		const u64 v = u.empty() ? 0 : u[0]; SEQ_CHECK_MSG(Big(v) == b && b.ToPrimitive<u64>() == v, "%s as a number", Hex(u).c_str());
		SEQ_CHECK_MSG(v < 0x8000000000000000ULL ? Big((s64)v) == b && b.ToPrimitive<s64>() == (s64)v : Throws([&] { b.ToPrimitive<s64>(); }), "%s as s64", Hex(u).c_str());
		SEQ_CHECK_MSG(v <= 0xffffffffULL ? Big((u32)v) == b && b.ToPrimitive<u32>() == v : Throws([&] { b.ToPrimitive<u32>(); }), "%s as u32", Hex(u).c_str());
		SEQ_CHECK_MSG(v < 0x80000000ULL ? b.ToPrimitive<s32>() == (s32)v : Throws([&] { b.ToPrimitive<s32>(); }), "%s as s32", Hex(u).c_str());
		SEQ_CHECK_MSG(v <= 255 ? Big((u8)v) == b && b.ToPrimitive<u8>() == v : Throws([&] { b.ToPrimitive<u8>(); }), "%s as u8", Hex(u).c_str());
	}
	else SEQ_CHECK_MSG(Throws([&] { b.ToPrimitive<u64>(); }), "%s as u64", Hex(u).c_str());
	if (i) return;
	SEQ_CHECK(Throws([] { Big x(-1); }) && Throws([] { Big x(-1LL); }) && Throws([] { Big x("12a"); }) && Throws([] { Big x("0xg"); }) && Throws([] { Big x("0b2"); }) && Throws([] { Big x("-1"); }) && Throws([] { Big x(" 1"); }) && Throws([] { Big x("9", 9); }) && Throws([] { Big x("z", 35); }));
	SEQ_CHECK(Big(0) == Big() && Big(0) == Big("0") && Big(0) == Big("000", 2) && !(Big(0) < Big()) && Big().ToPrimitive<int>() == 0 && Big(0).ToString() == "0");
}

SEQ_SCENARIO(bigpairs, .Q(1).T(1).Split(1))
{
	const size_t i = seq::Pick(512); const Units& a = Values()[i]; const Big& A = Bigs()[i]; (void)depth;
	{
		Big x = A; x += x; Expect(x, UAdd(a, a), a, "+=", a); x = A; x -= x; Expect(x, Units(), a, "-=", a); x = A; x *= x; Expect(x, UMul(a, a), a, "*=", a); x = A; x &= x; Expect(x, a, a, "&=", a); x = A; x |= x; Expect(x, a, a, "|=", a); x = A; x ^= x; Expect(x, Units(), a, "^=", a);
		if (!a.empty()) { x = A; x /= x; Expect(x, Units(1, 1), a, "/=", a); x = A; x %= x; Expect(x, Units(), a, "%=", a); }
	}
	for (size_t j = 0; j < 512; ++j)
	{
		const Units& b = Values()[j]; const Big& B = Bigs()[j]; Units w;
		const bool l = ULess(a, b), g = ULess(b, a);
		SEQ_CHECK_MSG((A < B) == l && (A > B) == g && (A <= B) == !g && (A >= B) == !l && (A == B) == (!l && !g) && (A != B) == (l || g), "%s against %s", Hex(a).c_str(), Hex(b).c_str());
		if (j % 2 == i % 2) continue;
		Expect(A + B, UAdd(a, b), a, "+", b); { Big x = A; x += B; Expect(x, UAdd(a, b), a, "+=", b); }
		if (USub(a, b, w)) { Expect(A - B, w, a, "-", b); Big x = A; x -= B; Expect(x, w, a, "-=", b); }
		else { Big x = A; SEQ_CHECK_MSG(Throws([&] { A - B; }) && Throws([&] { x -= B; }) && x == A, "%s - %s", Hex(a).c_str(), Hex(b).c_str()); }
		const size_t n = std::max(a.size(), b.size()); Units band, bor, bxor; for (size_t k = 0; k < n; ++k) { const u64 x = k < a.size() ? a[k] : 0, y = k < b.size() ? b[k] : 0; band.push_back(x & y); bor.push_back(x | y); bxor.push_back(x ^ y); } Zap(band); Zap(bor); Zap(bxor);
		Expect(A & B, band, a, "&", b); Expect(A | B, bor, a, "|", b); Expect(A ^ B, bxor, a, "^", b); { Big x = A, y = A, z = A; x &= B; y |= B; z ^= B; Expect(x, band, a, "&=", b); Expect(y, bor, a, "|=", b); Expect(z, bxor, a, "^=", b); }
	}
}

SEQ_SCENARIO(bigproducts, .Q(8).T(1).Split(1))
{
	// every depth-th pair: multiplication and division cost a pass per bit
	const size_t i = seq::Pick(512); const Units& a = Values()[i]; const Big& A = Bigs()[i];
	for (size_t j = i % depth; j < 512; j += depth)
	{
		const Units& b = Values()[j]; const Big& B = Bigs()[j]; const Units p = UMul(a, b);
		Expect(A * B, p, a, "*", b); { Big x = A; x *= B; Expect(x, p, a, "*=", b); }
		if (b.empty()) { Big x = A; SEQ_CHECK_MSG(Throws([&] { A / B; }) && Throws([&] { A % B; }) && Throws([&] { x /= B; }) && Throws([&] { x %= B; }) && x == A, "%s by zero", Hex(a).c_str()); continue; }
		const Units q = Read(A / B), r = Read(A % B); SEQ_CHECK_MSG(ULess(r, b) && UAdd(UMul(q, b), r) == a, "%s by %s is %s with remainder %s", Hex(a).c_str(), Hex(b).c_str(), Hex(q).c_str(), Hex(r).c_str());
		{ Big x = A, y = A; x /= B; y %= B; Expect(x, q, a, "/=", b); Expect(y, r, a, "%=", b); }
		Expect(A * B / B, a, a, "* and / by", b);
	}
}

SEQ_SCENARIO(bigshifts, .Q(1).T(1).Split(1))
{
	const size_t i = seq::Pick(512); const Units& a = Values()[i]; const Big& A = Bigs()[i]; (void)depth;
	for (int n = 0; n <= 260; n += (n < 66 || (n > 125 && n < 130) || (n > 188 && n < 195)) ? 1 : 3)
	{
		const Units by(1, n), l = UShl(a, n), r = UShr(a, n);
		Expect(A << n, l, a, "<<", by); Expect(A >> n, r, a, ">>", by); Expect(A << -n, r, a, "<< -", by); Expect(A >> -n, l, a, ">> -", by); Big x = A, y = A; x <<= n; y >>= n; Expect(x, l, a, "<<=", by); Expect(y, r, a, ">>=", by);
	}
}

namespace
{
	const s64 Mantissas[] = { 0, 1, -1, 5, -5, 9, 10, -10, 99, 100, 12345, -12300, 9007199254740992LL, 9007199254740993LL, -9007199254740993LL, 922337203685477580LL, 922337203685477581LL, -922337203685477581LL, 9223372036854775807LL, -9223372036854775807LL };
	const u16 Exponents[] = { 0, 1, 2, 3, 9, 18, 19 };
	const Wide SMax = 9223372036854775807LL, SMin = -SMax - 1;
	Wide Pow10(int n) { Wide r = 1; while (n-- > 0) r *= 10; return r; }
	Str DecText(s64 m, unsigned e) { Str s = std::to_string(m < 0 ? -m : m); while (s.size() <= e) s.insert(s.begin(), '0'); Str f = s.substr(s.size() - e); s.erase(s.size() - e); while (!f.empty() && f.back() == '0') f.pop_back(); return (m < 0 ? "-" : "") + s + (f.empty() ? "" : "." + f); }
}

SEQ_SCENARIO(decimal, .Q(1).T(1).Split(1))
{
	(void)depth; const int n = sizeof(Mantissas) / sizeof(*Mantissas); const int pick = seq::Pick(n * 7); const s64 m = Mantissas[pick / 7]; const u16 e = Exponents[pick % 7];
	const Decimal a(m, e); const Str text = DecText(m, e); SEQ_CHECK(a.GetMantissa() == m && a.GetExponent() == e);
	SEQ_CHECK_MSG(a.ToString() == text && stingray::ToString(a) == text, "%lld / 10^%d is '%s', not '%s'", (long long)m, e, a.ToString().c_str(), text.c_str());
	SEQ_CHECK_MSG(Decimal::FromString(text) == a && Decimal(text) == a, "'%s' is %s", text.c_str(), Decimal(text).ToString().c_str());
	SEQ_CHECK_MSG(-(-a) == a && a + -a == Decimal() && (-a < a) == (m > 0), "negation of %s", text.c_str());
	for (s64 m2 : Mantissas) for (u16 e2 : Exponents)
	{
		const Decimal b(m2, e2); const u16 top = std::max(e, e2); const Wide x = (Wide)m * Pow10(top - e), y = (Wide)m2 * Pow10(top - e2); seq::Cases(1);
		SEQ_CHECK_MSG((a < b) == (x < y) && (a <= b) == (x <= y) && (a > b) == (x > y) && (a >= b) == (x >= y) && (a == b) == (x == y) && (a != b) == (x != y), "%s against %s", text.c_str(), DecText(m2, e2).c_str());
		auto fits = [](Wide v) { return v >= SMin && v <= SMax; };
		auto check = [&](const char* op, const std::function<Decimal ()>& f, Wide v, bool mustWork)
		{
			Decimal r; bool thrown = false; try { r = f(); } catch (const std::exception&) { thrown = true; }
			SEQ_CHECK_MSG(!(thrown && mustWork), "%s %s %s was refused", text.c_str(), op, DecText(m2, e2).c_str());
			if (thrown) return;
			const int re = r.GetExponent(), t = std::max<int>(re, *op == '*' ? e + e2 : top); const int base = *op == '*' ? e + e2 : top; if (t - re > 19 || t - base > 19) { SEQ_CHECK(v == 0 && r.GetMantissa() == 0); return; }
			SEQ_CHECK_MSG((Wide)r.GetMantissa() * Pow10(t - re) == v * Pow10(t - base), "%s %s %s is %s", text.c_str(), op, DecText(m2, e2).c_str(), r.ToString().c_str());
		};
		const bool both = fits(x) && fits(y);
		check("+", [&] { return a + b; }, x + y, both && fits(x + y)); check("-", [&] { return a - b; }, x - y, both && fits(x - y)); check("+=", [&] { Decimal c = a; c += b; return c; }, x + y, both && fits(x + y)); check("-=", [&] { Decimal c = a; c -= b; return c; }, x - y, both && fits(x - y));
		const Wide p = (Wide)m * m2; if (fits(p)) { check("*", [&] { return a * b; }, p, true); check("*=", [&] { Decimal c = a; c *= b; return c; }, p, true); } else SEQ_CHECK_MSG(Throws([&] { a * b; }), "%s * %s is %s", text.c_str(), DecText(m2, e2).c_str(), (a * b).ToString().c_str());
	}
}

SEQ_SCENARIO(decimaltext, .Q(6).T(7).Split(2))
{
	Str s; for (int i = 0; i < depth; ++i) { const int c = seq::Pick(6); if (!c) break; s += "-019."[c - 1]; }
	size_t i = s[0] == '-', d = 0, f = 0; Wide v = 0; for (; i < s.size() && isdigit(s[i]); ++i, ++d) v = v * 10 + s[i] - '0'; const bool point = i < s.size() && s[i] == '.'; if (point) for (++i; i < s.size() && isdigit(s[i]); ++i, ++f) v = v * 10 + s[i] - '0';
	const bool ok = i == s.size() && d + f > 0; if (ok && !d && s[0] == '-') return; if (s[0] == '-') v = -v;
	bool thrown = false; Decimal got; try { got = Decimal::FromString(s); } catch (const std::exception&) { thrown = true; } seq::Cases(1);
	SEQ_CHECK_MSG(thrown == !ok && (!ok || got == Decimal((s64)v, f)), "'%s' is %s", s.c_str(), thrown ? "refused" : got.ToString().c_str());
	if (!s.empty() && ok && depth == (int)s.size()) { const Str big = s + "99999999999999999999"; SEQ_CHECK_MSG(Throws([&] { Decimal x(big); }), "'%s' was accepted", big.c_str()); }
}

namespace
{
	template < int N > void FixedPairs()
	{
		typedef fixed_point<N> F; const int raws[] = { 0, 1, -1, 2, -3, 127, 128, -128, 255, 256, -256, 257, 1000, -1001, 32767, 32768, -32768, 65535, 65536, -65536, 65537, 99999, 1 << 20, -(1 << 20) - 7, 8388607, (1 << 24) + 1, -(1 << 28) };
		for (int a : raws)
		{
			const F A = F::FromRawValue(a); SEQ_CHECK(A.GetValue() == a && A.to_int() == (int)std::floor(std::ldexp((double)a, -N)) && (-A).GetValue() == -a);
			const Str t = A.ToString(); const s64 milli = (s64)(a < 0 ? -(s64)a : a) * 1000 >> N; char want[40]; snprintf(want, sizeof want, "%s%lld.%03lld", a < 0 && milli ? "-" : "", (long long)milli / 1000, (long long)milli % 1000);
			SEQ_CHECK_MSG(t == want, "raw %d of %d bits is '%s', not '%s'", a, N, t.c_str(), want);
			{ const s64 back = F::FromString(t).GetValue(), slack = (1 << N) / 1000 + 3; SEQ_CHECK_MSG(std::llabs(back - a) <= slack, "raw %d as '%s' came back as %lld", a, t.c_str(), (long long)back); }
			SEQ_CHECK((fixed_point<N + 3>(F::FromRawValue(a / 16)).GetValue()) == a / 16 * 8 && (fixed_point<N - 3>(A).GetValue()) == (a >> 3) && F(A).GetValue() == a); { fixed_point<N - 3> x; x = A; SEQ_CHECK(x.GetValue() == (a >> 3)); }
			for (int b : raws)
			{
				const F B = F::FromRawValue(b); s64 w; seq::Cases(1); auto fits = [](s64 v) { return v == (int)v; };
				auto eq = [&](F got, s64 want, const char* op) { SEQ_CHECK_MSG(got.GetValue() == want, "raw %d %s %d of %d bits is %d, not %lld", a, op, b, N, got.GetValue(), (long long)want); };
				if (fits(w = (s64)a + b)) { eq(A + B, w, "+"); F x = A; x += B; eq(x, w, "+="); } if (fits(w = (s64)a - b)) { eq(A - B, w, "-"); F x = A; x -= B; eq(x, w, "-="); }
				if (fits(w = (s64)a * b >> N)) { eq(A * B, w, "*"); F x = A; x *= B; eq(x, w, "*="); } if (b && fits(w = ((s64)a << N) / b)) { eq(A / B, w, "/"); F x = A; x /= B; eq(x, w, "/="); }
				if (fits(w = (s64)a * b)) { eq(A * b, w, "* int"); } if (b) eq(A / b, a / b, "/ int");
				SEQ_CHECK_MSG((A < B) == (a < b) && (A <= B) == (a <= b) && (A > B) == (a > b) && (A >= B) == (a >= b) && (A == B) == (a == b) && (A != B) == (a != b), "raw %d against %d", a, b);
			}
			for (int s = 0; s < 8; ++s) { SEQ_CHECK((A >> s).GetValue() == a >> s); if (std::abs(a) < 1 << 20) SEQ_CHECK((A << s).GetValue() == a * (1 << s)); }
		}
		for (int v = 0; v < 1 << (31 - N); v += v < 70000 ? 1 : 997)
		{
			const s64 r = F::sqrt(v).GetValue(), scaled = (s64)v << (2 * N); seq::Cases(1);
			SEQ_CHECK_MSG(r * r <= scaled && (r + 1) * (r + 1) > scaled, "square root of %d with %d bits is raw %lld", v, N, (long long)r);
		}
		for (int i : { 0, 1, 7, 123 }) for (Str f : { "0", "5", "05", "25", "999", "001", "0001", "123456", "999999", "1234567890123", "499999999999999999999" }) for (Str sign : { "", "-" })
		{
			const Str t = sign + std::to_string(i) + "." + f; const double want = std::ldexp(strtod(t.c_str(), 0), N), got = F::FromString(t).GetValue(); seq::Cases(1);
			SEQ_CHECK_MSG(std::fabs(got - want) <= 2.5, "'%s' with %d bits is raw %f where %f was due", t.c_str(), N, got, want);
		}
		for (int i : { 0, 1, -1, 100, -100 }) SEQ_CHECK(F::FromString(std::to_string(i)) == F(i) && F(i).to_int() == i);
		for (Str bad : { "", "x", "1.x", "1.-5", "1.2.3", "1.2.3.4", ".", "x.5", "1.5x", "1.+5" }) SEQ_CHECK_MSG(Throws([&] { F::FromString(bad); }), "'%s' was accepted", bad.c_str());
	}
}

// between storage types of different widths the value survives whenever it fits the destination
SEQ_SCENARIO(fixed_widths, .Q(1).T(1))
{
	(void)depth;
	for (int v = -100; v <= 100; ++v)
	{
		SEQ_CHECK_MSG((fixed_point<8, s16>(fixed_point<16, int>::FromRawValue(v * 65536 + 256 * 3)).GetValue()) == v * 256 + 3, "%d narrowed", v);
		SEQ_CHECK_MSG((fixed_point<16, int>(fixed_point<8, s16>::FromRawValue(v * 256 + 5)).GetValue()) == v * 65536 + 5 * 256, "%d widened", v);
		SEQ_CHECK_MSG((fixed_point<2, s8>(fixed_point<20, int>::FromRawValue(v / 4 * (1 << 20))).GetValue()) == v / 4 * 4 && (fixed_point<20, int>(fixed_point<2, s8>::FromRawValue(v)).GetValue()) == v * (1 << 18), "%d from and to a byte", v);
	}
}

// the product of two decimals with huge exponents is refused, never wrapped
SEQ_SCENARIO(decimal_exponents, .Q(1).T(1))
{
	(void)depth;
	for (unsigned a : { 1u, 30000u, 32767u, 32768u, 65535u }) for (unsigned b : { 0u, 1u, 30000u, 32767u, 32768u, 65535u })
	{
		const Decimal x(3, (u16)a), y(5, (u16)b); bool thrown = false; Decimal z; try { z = x; z *= y; } catch (const std::exception&) { thrown = true; }
		SEQ_CHECK_MSG(thrown ? a + b > 65535 : z.GetMantissa() == 15 && z.GetExponent() == a + b, "3e-%u * 5e-%u: %s", a, b, thrown ? "refused" : "wrong");
	}
}

SEQ_SCENARIO(fixed, .Q(1).T(1)) { (void)depth; FixedPairs<8>(); FixedPairs<12>(); FixedPairs<16>(); }

namespace
{
	template < typename T > void Aligns(u64 limit)
	{
		for (u64 v = 0; v < limit; ++v) for (u64 b = 1; b < 18; ++b)
		{ const u64 up = (v + b - 1) / b * b, down = v / b * b; seq::Cases(1); if (v + b > limit) continue; SEQ_CHECK_MSG((u64)AlignUp((T)v, (T)b) == up && (u64)AlignDown((T)v, (T)b) == down, "%llu to %llu: %llu %llu", (unsigned long long)v, (unsigned long long)b, (unsigned long long)AlignUp((T)v, (T)b), (unsigned long long)AlignDown((T)v, (T)b)); }
		SEQ_CHECK(Throws([] { AlignUp<T>(5, 0); }) && Throws([] { AlignDown<T>(5, 0); }));
	}
	template < u64 N > void Powers()
	{
		std::vector<u64> p(1, 1); while (p.back() <= 0xffffffffffffffffULL / N) p.push_back(p.back() * N);
		for (u64 x = 0; x < 3000; ++x) SEQ_CHECK_MSG(IsPowerOfNumber<N>(x) == (std::find(p.begin(), p.end(), x) != p.end()), "%llu a power of %llu", (unsigned long long)x, (unsigned long long)N);
		for (u64 q : p) for (s64 d = -2; d <= 2; ++d) { const u64 x = q + d; seq::Cases(1); SEQ_CHECK_MSG(IsPowerOfNumber<N>(x) == (std::find(p.begin(), p.end(), x) != p.end()), "%llu a power of %llu", (unsigned long long)x, (unsigned long long)N); }
	}
	template < typename T, size_t I > void Bit()
	{
		const u64 all = sizeof(T) == 8 ? ~0ULL : (1ULL << (8 * sizeof(T))) - 1, bit = 1ULL << I;
		for (u64 v : { 0ULL, 1ULL, 2ULL, 0x55ULL, 0xaaULL, 0x80ULL, 0xffULL, 0x8000ULL, 0xdeadbeefULL, 0x8000000000000000ULL, 0x123456789abcdef0ULL, ~0ULL })
		{ const T x = (T)v; const u64 w = v & all; seq::Cases(1); SEQ_CHECK_MSG(TestBit<I>(x) == !!(w & bit) && ((u64)SetBit<I>(x) & all) == (w | bit) && ((u64)ResetBit<I>(x) & all) == (w & ~bit) && ((u64)FlipBit<I>(x) & all) == (w ^ bit), "bit %zu of %llx", I, (unsigned long long)w); }
	}
	template < typename T, size_t... I > void Bits(std::integer_sequence<size_t, I...>) { const int a[] = { (Bit<T, I>(), 0)... }; (void)a; }
	u64 IPow(u64 b, unsigned n) { u64 r = 1; while (n--) r *= b; return r; }
}

SEQ_SCENARIO(helpers, .Q(1).T(1))
{
	(void)depth; Aligns<u8>(256); Aligns<u16>(2000); Aligns<int>(2000); Aligns<u64>(2000); Aligns<s64>(500);
	for (size_t a = 0; a < 300; ++a) for (size_t b = 0; b < 300; ++b)
	{ size_t g = std::max(a, b); if (a && b) for (g = std::min(a, b); a % g || b % g; --g) ; seq::Cases(1); SEQ_CHECK_MSG(Gcd(a, b) == g && (!g || Lcm(a, b) == (a && b ? a / g * b : 0)), "%zu and %zu: gcd %zu", a, b, Gcd(a, b)); }
	for (int s = 0; s < 60; ++s) for (size_t a = 1; a < 8; ++a) for (size_t b = 1; b < 8; ++b) { const size_t x = a << s, y = b << s; seq::Cases(1); if ((a * b) << s >> s == a * b) SEQ_CHECK_MSG(Gcd(x, y) == Gcd(a, b) << s && Lcm(x, y) == Lcm(a, b) << s, "%zu and %zu", x, y); }
	for (int v = -128; v < 128; ++v) { SEQ_CHECK((v == -128 || Abs((s8)v) == std::abs(v)) && Abs((s16)v) == std::abs(v) && Abs((s32)v * 1000000) == std::abs(v * 1000000) && Abs((s64)v * 1000000000000LL) == std::llabs(v * 1000000000000LL)); for (int w = -3; w < 3; ++w) SEQ_CHECK(Max(v, w) == (v > w ? v : w) && Min(v, w) == (v > w ? w : v)); }
	Powers<2>(); Powers<3>(); Powers<7>(); Powers<10>(); Powers<1000>();
	Bits<u8>(std::make_index_sequence<8>()); Bits<u16>(std::make_index_sequence<16>()); Bits<u32>(std::make_index_sequence<32>()); Bits<u64>(std::make_index_sequence<64>()); Bits<s8>(std::make_index_sequence<8>()); Bits<s64>(std::make_index_sequence<63>());
	for (int b = 0; b < 256; ++b) { int r = 0; for (int i = 0; i < 8; ++i) r |= (b >> i & 1) << (7 - i); SEQ_CHECK_MSG(ReverseBits(b) == r, "%02x reversed is %02x", b, ReverseBits(b)); }
	for (unsigned radix : { 2u, 8u, 10u, 16u }) for (u64 divisor = 1; divisor < 400; ++divisor) for (u64 dividend = 0; dividend < 2 * divisor; ++dividend) for (unsigned t = 0; t <= 4; ++t)
	{
		if (divisor > 60 && (dividend % 7 || t == 2)) continue;
		const FractionInfo f = CalculateFractionRemainder(dividend, divisor, t, radix); const u64 base = IPow(radix, t), r = dividend % divisor * base; const bool once = r % divisor * 2 >= divisor; bool digits = false; u64 tail = r % divisor;
		for (int i = 0; i < 64 && tail; ++i) { tail *= radix; const u64 d = tail / divisor; tail %= divisor; if (d >= radix / 2) digits = true; if (d != radix / 2 - 1) break; }
		u64 want = r / divisor + once; bool good = false; seq::Cases(1);
		for (const bool up : { once, digits }) { u64 w = r / divisor + up; const bool over = w == base; if (over) w = 0; good |= f.IsOverflow == over && f.Precision <= t && f.Fraction * IPow(radix, t - f.Precision) == w; }
		SEQ_CHECK_MSG(good, "%llu/%llu to %u digits of base %u is %llu to %u digits%s, not %llu", (unsigned long long)dividend, (unsigned long long)divisor, t, radix, (unsigned long long)f.Fraction, f.Precision, f.IsOverflow ? " and one" : "", (unsigned long long)want);
	}
	SEQ_CHECK(Throws([] { CalculateFractionRemainder(1, 0, 1); }) && Throws([] { CalculateFractionRemainder(1, 2, 1, 1); }));
}

SEQ_SCENARIO(fractions, .Q(7).T(9).Split(3))
{
	Str s; for (int i = 0; i < depth; ++i) { const int c = seq::Pick(5); if (!c) break; s += "0459"[c - 1]; } if (s.empty()) { SEQ_CHECK(Throws([] { ParseDecimalFraction("", 3); }) && Throws([] { ParseDecimalFraction("x", 3); })); return; }
	for (unsigned t = 0; t <= 6; t += s.size() > 5 ? 2 : 1)
	{
		const FractionInfo f = ParseDecimalFraction(s, t); u64 v = 0; for (char c : s) v = v * 10 + c - '0'; u64 want = v; seq::Cases(1);
		bool once = false, digits = false; if (s.size() > t) { const u64 d = IPow(10, s.size() - t); once = v % d * 2 >= d; want = v / d; const size_t p = s.find_first_not_of('4', t); digits = p != Str::npos && s[p] > '4'; } else want = v * IPow(10, t - s.size());
		bool good = false; for (const bool up : { once, digits }) { u64 w = want + up; const bool over = w == IPow(10, t); if (over) w = 0; good |= f.IsOverflow == over && f.Precision <= t && f.Fraction * IPow(10, t - f.Precision) == w; } want += once;
		SEQ_CHECK_MSG(good, "'.%s' to %u digits is %llu to %u digits%s, not %llu", s.c_str(), t, (unsigned long long)f.Fraction, f.Precision, f.IsOverflow ? " and one" : "", (unsigned long long)want);
	}
}

SEQ_SCENARIO(shapes, .Q(8).T(8).Split(2))
{
	(void)depth; const int x1 = seq::Pick(4) - 1, y1 = seq::Pick(4) - 1, x2 = seq::Pick(4) - 1, y2 = seq::Pick(4) - 1; const Rect r(x1, y1, x2, y2);
	SEQ_CHECK(r.Valid() == (x1 < x2 && y1 < y2) && r.GetWidth() == x2 - x1 && r.GetHeight() == y2 - y1 && r.GetSize() == Size(x2 - x1, y2 - y1) && r.GetTopLeft() == Position(x1, y1) && r.GetRightBottom() == Position(x2, y2));
	SEQ_CHECK(r.Move(2, -3) == Rect(x1 + 2, y1 - 3, x2 + 2, y2 - 3) && r.Move(Position(2, -3)) == r.Move(2, -3) && r.Move(2, -3).Move(-2, 3) == r && Rect(Size(x2, y2)) == Rect(0, 0, x2, y2) && Rect(x2, y2) == Rect(0, 0, x2, y2) && Rect() == Rect(0, 0, 0, 0) && Position() == Position(0, 0));
	char s[99]; snprintf(s, sizeof s, "[%d, %d, %d, %d]", x1, y1, x2, y2); SEQ_CHECK(r.ToString() == s); snprintf(s, sizeof s, "[%d, %d]", x1, y1); SEQ_CHECK(Position(x1, y1).ToString() == s); snprintf(s, sizeof s, "%dx%d", x1, y1); SEQ_CHECK(Size(x1, y1).ToString() == s); snprintf(s, sizeof s, "%d:%d", x1, y1); SEQ_CHECK(SizeScale(x1, y1).ToString() == s);
	const Size a(x1, y1), b(x2, y2); { Size c = a, d = a; c += b; d -= b; SEQ_CHECK(a + b == Size(x1 + x2, y1 + y2) && a - b == Size(x1 - x2, y1 - y2) && c == a + b && d == a - b && a * 3 == Size(3 * x1, 3 * y1) && a * 6 / 3 == a * 2 && a.Valid() == (x1 > 0 && y1 > 0) && SizeScale(x1, y1).Valid() == a.Valid() && (!b.Valid() || (a * 6) / b == Size(6 * x1 / x2, 6 * y1 / y2))); }
	const bool less = x1 != x2 ? x1 < x2 : y1 < y2, same = x1 == x2 && y1 == y2;
	SEQ_CHECK((a < b) == less && (a == b) == same && (Position(x1, y1) < Position(x2, y2)) == less && (Position(x1, y1) == Position(x2, y2)) == same && (SizeScale(x1, y1) < SizeScale(x2, y2)) == less && (SizeScale(x1, y1) != SizeScale(x2, y2)) == !same && (a >= b) == !less);
	for (int i = 0; i < 256; ++i)
	{
		const int u1 = i % 4 - 1, v1 = i / 4 % 4 - 1, u2 = i / 16 % 4 - 1, v2 = i / 64 - 1; const Rect q(u1, v1, u2, v2), both = r.Intersect(q); seq::Cases(1);
		const int lr[] = { x1, y1, x2, y2 }, lq[] = { u1, v1, u2, v2 }; SEQ_CHECK((r < q) == std::lexicographical_compare(lr, lr + 4, lq, lq + 4) && (r == q) == std::equal(lr, lr + 4, lq) && (r != q) == !(r == q) && both == q.Intersect(r) && r.Intersects(q) == q.Intersects(r));
		bool touch = false; for (int x = -2; x < 4; ++x) for (int y = -2; y < 4; ++y)
		{
			auto in = [&](const Rect& k) { return k.X1 <= x && x < k.X2 && k.Y1 <= y && y < k.Y2; }; SEQ_CHECK_MSG(in(both) == (in(r) && in(q)), "%s and %s at %d, %d", r.ToString().c_str(), q.ToString().c_str(), x, y);
			auto closed = [&](const Rect& k) { return k.X1 <= x && x <= k.X2 && k.Y1 <= y && y <= k.Y2; }; touch |= closed(r) && closed(q);
		}
		if (x1 <= x2 && y1 <= y2 && u1 <= u2 && v1 <= v2) SEQ_CHECK_MSG(r.Intersects(q) == touch, "%s intersects %s", r.ToString().c_str(), q.ToString().c_str());
	}
}

SEQ_SCENARIO(ranges, .Q(4).T(4).Split(1))
{
	(void)depth; typedef SimpleNumericRange<int> R; const int a = seq::Pick(5) - 1, b = seq::Pick(5) - 1; if (a > b) { SEQ_CHECK(Throws([&] { R r(a, b); })); return; }
	const R i(a, b); SEQ_CHECK(i.Distance() == b - a && i.GetStart() == a && i.GetEnd() == b && i.IsEmpty() == (a == b) && R().IsEmpty() && R::CreateEmpty().IsEmpty()); { R s(a, b); s.SetStart(-9); s.SetEnd(9); SEQ_CHECK(s.GetStart() == -9 && s.GetEnd() == 9); }
	char t[50]; snprintf(t, sizeof t, "[%d - %d]", a, b); SEQ_CHECK(i.ToString() == t);
	for (int x = -3; x < 6; ++x) { seq::Cases(1); SEQ_CHECK(i.Contains(x) == (a != b && a <= x && x <= b) && i.ContainsStrict(x) == (a < x && x < b) && i.Clamp(x) == (x < a ? a : x > b ? b : x)); }
	for (int c = -1; c < 4; ++c) for (int d = c; d < 4; ++d)
	{
		const R j(c, d); const int s = std::max(a, c), e = std::min(b, d); const bool meet = a != b && c != d && s < e; seq::Cases(1);
		SEQ_CHECK(i.IsIntersecting(j) == meet && (i == j) == (a == c && b == d) && (i != j) == !(i == j)); const R both = i.Intersect(j), any = i.Union(j);
		SEQ_CHECK(meet ? both == R(s, e) : both.IsEmpty()); SEQ_CHECK(any == (a == b ? j : c == d ? i : R(std::min(a, c), std::max(b, d))));
	}
}

SEQ_SCENARIO(averages, .Q(6).T(8).Split(2))
{
	const double vals[] = { 0, 1, -4, 1000.5 }; Average<s64> avg; Average<double> davg; Accumulators<double>::Mean mean; Accumulators<double>::Deviation dev; std::vector<double> got, fed; s64 sum = 0; auto cb = [&](double v) { got.push_back(v); };
	for (int i = 0; i < depth; ++i)
	{
		const int c = seq::Pick(6); if (!c) break; seq::Cases(1);
		if (c == 5) { mean.Reset(); dev.Reset(); avg = Average<s64>(); davg = Average<double>(); fed.clear(); got.clear(); sum = 0; }
		else { const double v = vals[c - 1]; fed.push_back(v); sum += (s64)v; avg.Accumulate((s64)v); davg.Accumulate(v); mean.Process(v, cb); dev.Process(v, [](double) { }); }
		double m = 0, d = 0; for (double v : fed) m += v; if (!fed.empty()) m /= fed.size(); for (double v : fed) d += (v - m) * (v - m); if (!fed.empty()) d /= fed.size();
		SEQ_CHECK_MSG(avg.Get() == (fed.empty() ? 0 : sum / (s64)fed.size()) && std::fabs(davg.Get() - m) < 1e-9 && got == fed, "average of %zu values", fed.size());
		SEQ_CHECK_MSG(std::fabs(mean.Get() - m) < 1e-9 && std::fabs(dev.Get() - d) < 1e-6 * (1 + d), "mean %f, not %f, deviation %f, not %f", mean.Get(), m, dev.Get(), d);
	}
}
