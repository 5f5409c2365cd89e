// S04: expressions generated for numeric ranges.
#include "../seq/seq.h"
#include "common.h"
#include <stingraykit/string/RegexUtils.h>
#include <stingraykit/Types.h>
#include <algorithm>
#include <memory>
#include <regex>
#include <string>
#include <vector>
using namespace stingray;

namespace
{
	typedef std::string Str;
	typedef unsigned __int128 Wide;
	Str Dec(Wide v) { if (!v) return "0"; Str s; while (v) { s.insert(s.begin(), '0' + (int)(v % 10)); v /= 10; } return s; }

	// A matcher for the part of the syntax such expressions need (std::regex takes milliseconds to compile the long
	// ones); anything else is left to std::regex, which also cross-checks it on the short ranges.
	struct Matcher
	{
		typedef std::vector<size_t> Ends;
		struct Unknown { };
		const Str& Re; const Str& S; size_t P; bool Skip;
		Matcher(const Str& re, const Str& s) : Re(re), S(s), P(0), Skip(false) { }
		static void Norm(Ends& e) { std::sort(e.begin(), e.end()); e.erase(std::unique(e.begin(), e.end()), e.end()); }
		Ends Alternatives(const Ends& from)
		{
			Ends all = Sequence(from);
			while (P < Re.size() && Re[P] == '|') { ++P; const Ends more = Sequence(from); all.insert(all.end(), more.begin(), more.end()); }
			Norm(all); return all;
		}
		Ends Sequence(const Ends& from) { Ends at = from; while (P < Re.size() && Re[P] != '|' && Re[P] != ')') at = Repeated(at); return at; }
		Ends Repeated(const Ends& from)
		{
			const size_t begin = P; Ends once = Atom(from); if (P >= Re.size()) return once;
			size_t lo = 1, hi = 1; const char c = Re[P];
			if (c == '?') { lo = 0; ++P; } else if (c == '*') { lo = 0; hi = 99; ++P; } else if (c == '+') { hi = 99; ++P; }
			else if (c == '{')
			{
				size_t* n = &lo; lo = hi = 0; bool digits = false, comma = false;
				for (++P; P < Re.size() && Re[P] != '}'; ++P) if (Re[P] == ',') { n = &hi; comma = true; digits = false; } else if (isdigit(Re[P])) { *n = *n * 10 + (Re[P] - '0'); digits = true; } else throw Unknown();
				if (P >= Re.size()) throw Unknown(); ++P; if (!comma) hi = lo; else if (!digits) hi = 99;
			}
			else return once;
			const size_t end = P; Ends all, at = from; if (lo == 0) all = from;
			for (size_t i = 1; i <= hi && !at.empty(); ++i) { P = begin; at = Atom(at); if (i >= lo) all.insert(all.end(), at.begin(), at.end()); if (i > S.size() + lo) break; }
			P = end; Norm(all); return all;
		}
		Ends Atom(const Ends& from)
		{
			bool set[256] = { }; const char c = Re[P++];
			if (c == '(') { if (Re.compare(P, 2, "?:") == 0) P += 2; else if (P < Re.size() && Re[P] == '?') throw Unknown(); const Ends r = Alternatives(from); if (P >= Re.size() || Re[P] != ')') throw Unknown(); ++P; return r; }
			if (c == '[')
			{
				if (Re[P] == '^') throw Unknown();
				for (; P < Re.size() && Re[P] != ']'; ) { const unsigned char a = Re[P++]; if (!isdigit(a)) throw Unknown(); unsigned char b = a; if (P + 1 < Re.size() && Re[P] == '-' && isdigit(Re[P + 1])) { b = Re[P + 1]; P += 2; } for (int x = a; x <= b; ++x) set[x] = true; }
				if (P >= Re.size()) throw Unknown(); ++P;
			}
			else if (c == '\\' && P < Re.size() && Re[P] == 'd') { ++P; for (int x = '0'; x <= '9'; ++x) set[x] = true; }
			else if (isalnum((unsigned char)c)) set[(unsigned char)c] = true;
			else throw Unknown();
			Ends r; for (size_t i : from) if (i < S.size() && set[(unsigned char)S[i]]) r.push_back(i + 1); return r;
		}
		bool Full() { const Ends e = Alternatives(Ends(1, 0)); if (P != Re.size()) throw Unknown(); return std::count(e.begin(), e.end(), S.size()) > 0; }
	};
	struct Expr { Str Text; std::unique_ptr<std::regex> Std; explicit Expr(const Str& t) : Text(t) { } const std::regex& Get() { if (!Std) Std.reset(new std::regex(Text)); return *Std; } };
	bool Match(const Str& s, Expr& e) { if (!e.Std) try { return Matcher(e.Text, s).Full(); } catch (const Matcher::Unknown&) { } return std::regex_match(s, e.Get()); }

	void CheckRange(u64 lo, u64 hi, const std::vector<u64>& probes, bool cross)
	{
		const Str plain = GenerateNumericRangeRegex(lo, hi, false), group = GenerateNumericRangeRegex(lo, hi, true);
		Expr re("x" + plain + "y"), gre(group); if (cross) { re.Get(); gre.Get(); }
		if (group.empty() || group[0] != '(' || group.compare(0, 2, "(?") == 0) seq::Fail("%s does not capture", group.c_str());
		for (u64 p : probes)
		{
			const bool in = p >= lo && p <= hi; const Str s = Dec(p); seq::Cases(1); std::smatch m;
			if (p + 1 == lo || p == lo || p == hi || p == hi + 1) SEQ_CHECK_MSG(Match("x" + s + "y", re) == in, "%s for %s..%s %s %s", plain.c_str(), Dec(lo).c_str(), Dec(hi).c_str(), in ? "refuses" : "accepts", s.c_str());
			SEQ_CHECK_MSG(Match(s, gre) == in && (!cross || (std::regex_match(s, m, gre.Get()) == in && (!in || (m.size() == 2 && m[1].str() == s)))), "%s for %s..%s %s %s", group.c_str(), Dec(lo).c_str(), Dec(hi).c_str(), in ? "does not capture" : "captures", s.c_str());
		}
		for (const char* bad : { "", "-1", "1a", " 1" }) SEQ_CHECK(!Match(bad, gre));
		for (u64 p : { lo, hi }) SEQ_CHECK_MSG(!Match("0" + Dec(p), gre) && !Match("00" + Dec(p), gre), "%s accepts a leading zero", group.c_str());
		SEQ_CHECK(!Match(Dec((Wide)hi + ((Wide)1 << 64)), gre) && !Match(Dec((Wide)lo * 10 + (Wide)hi * 1000 + 5), gre) == !((Wide)lo * 10 + (Wide)hi * 1000 + 5 <= hi && (Wide)lo * 10 + (Wide)hi * 1000 + 5 >= lo));
	}
}

SEQ_SCENARIO(ranges_small, .Q(130).T(320).Split(4)) { std::vector<u64> probes; for (int i = 0; i <= depth + 3; ++i) probes.push_back(i); for (u64 p : { 999, 1000, 1001 }) probes.push_back(p); const int lo = seq::Pick(depth + 1); for (int hi = lo; hi <= depth; ++hi) CheckRange(lo, hi, probes, true); }
SEQ_SCENARIO(ranges_three, .Q(400).T(1100).Split(8))
{
	// every range of up to three digits, probed with every number
	std::vector<u64> probes; for (int i = 0; i <= depth + 2; ++i) probes.push_back(i); const int lo = seq::Pick(depth + 1);
	for (int hi = lo; hi <= depth; hi += 1 + (hi - lo > 30 && hi % 100 > 12 && hi % 100 < 88 ? 9 : 0)) { std::vector<u64> some; for (u64 p : probes) if ((p + 13 > (u64)lo && p < (u64)lo + 13) || (p + 13 > (u64)hi && p < (u64)hi + 13) || p % 37 == (u64)(lo + hi) % 37) some.push_back(p); CheckRange(lo, hi, some, false); }
}
SEQ_SCENARIO(ranges_edges, .Q(1).T(2).Split(4))
{
	// ends around every power of ten and the largest value, probed around every end and power
	std::vector<u64> ends; Wide p = 1; for (int i = 0; i < 20; ++i, p *= 10) for (int d = -depth; d <= depth; ++d) { const Wide x = p + (Wide)(__int128)d; if ((__int128)x >= 0 && x <= ~(u64)0) ends.push_back((u64)x); }
	p = 1; for (int i = 0; i < 20; i += depth == 1 ? 3 : 1, p *= 10) for (u64 k : { 2, 5, 7 }) if (p * k <= ~(u64)0) ends.push_back((u64)(p * k));
	for (u64 x : { ~(u64)0, ~(u64)0 - 1, ~(u64)0 - 6, (u64)10000000000000000000ull, (u64)18446744073709551599ull, (u64)1 << 63, (u64)1 << 32, (u64)123456789, (u64)9876543210ull, (u64)1234567890123456789ull }) ends.push_back(x);
	std::sort(ends.begin(), ends.end()); ends.erase(std::unique(ends.begin(), ends.end()), ends.end());
	const int lo = seq::Pick((int)ends.size());
	for (size_t hi = lo; hi < ends.size(); ++hi)
	{
		std::vector<u64> probes; for (size_t i = 0; i < ends.size(); ++i) if (depth > 1 || i % 5 == (size_t)lo % 5 || (i + 4 > (size_t)lo && i < (size_t)lo + 4) || (i + 4 > hi && i < hi + 4)) probes.push_back(ends[i]); for (u64 e : { ends[lo], ends[hi] }) { probes.push_back(e - 1); probes.push_back(e + 1); probes.push_back(e / 10); probes.push_back(e / 2 + ends[lo] / 2); }
		CheckRange(ends[lo], ends[hi], probes, false);
	}
	bool thrown = false; try { GenerateNumericRangeRegex(ends[lo] + 1, ends[lo], false); } catch (const std::exception&) { thrown = true; } SEQ_CHECK(thrown || ends[lo] + 1 == 0);
}
