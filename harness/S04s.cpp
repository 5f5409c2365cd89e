// S04: templates, patterns, translated text.
#include "../seq/seq.h"
#include "common.h"
#include <stingraykit/Tuple.h>
#include <stingraykit/collection/CollectionBuilder.h>
#include <stingraykit/collection/EnumerableHelpers.h>
#include <stingraykit/collection/Range.h>
#include <stingraykit/collection/iterators.h>
#include <stingraykit/optional.h>
#include <stingraykit/collection/ForEach.h>
#include <stingraykit/log/LogLevel.h>
#include <stingraykit/string/RegexUtils.h>
#include <stingraykit/string/StringFormat.h>
#include <stingraykit/string/StringParse.h>
#include <stingraykit/string/TranslatedStringUtils.h>
#include <algorithm>
#include <map>
#include <memory>
#include <regex>
#include <vector>
using namespace stingray;

namespace
{
	typedef std::string Str;
	typedef std::vector<Str> Strs;
	typedef unsigned __int128 Wide;
	void All(Strs& out, const Str& alphabet, size_t maxLen) { out.assign(1, Str()); for (size_t b = 0; b < out.size(); ++b) if (out[b].size() < maxLen) for (char c : alphabet) out.push_back(out[b] + c); }
	bool Number(const Str& s, size_t& v) { if (s.empty()) return false; v = 0; for (char c : s) { if (c < '0' || c > '9') return false; v = v * 10 + (c - '0'); } return true; }
	Str Dec(Wide v) { if (!v) return "0"; Str s; while (v) { s.insert(s.begin(), '0' + (int)(v % 10)); v /= 10; } return s; }

	// what a template stands for, or false when it is malformed
	bool Reference(const Str& f, const Strs& args, Str& out)
	{
		out.clear();
		for (size_t i = 0; i < f.size(); )
		{
			if (f[i] != '%') { out += f[i++]; continue; }
			const size_t e = f.find('%', i + 1); if (e == Str::npos) return false;
			const Str item = f.substr(i + 1, e - i - 1); i = e + 1;
			if (item.empty()) { out += '%'; continue; }
			const size_t d = item.find('$'); size_t index, width = 0;
			if (!Number(item.substr(0, d), index) || index < 1 || (d != Str::npos && !Number(item.substr(d + 1), width)) || index > args.size()) return false;
			const Str& a = args[index - 1]; out += (a.size() < width ? Str(width - a.size(), '0') : Str()) + a;
		}
		return true;
	}
	template < typename F > void CheckFormat(const Str& f, const Strs& args, const F& format)
	{
		Str expected, got; bool thrown = false; const bool ok = Reference(f, args, expected); seq::Cases(1);
		try { got = format(f); } catch (const std::exception&) { thrown = true; }
		SEQ_CHECK_MSG(thrown == !ok && (!ok || got == expected), "'%s' with %zu arguments %s '%s' where '%s' %s", f.c_str(), args.size(), thrown ? "was refused" : "gave", got.c_str(), expected.c_str(), ok ? "was due" : "was malformed");
	}
	void FormatAll(const Str& f)
	{
		CheckFormat(f, Strs{}, [](const Str& x) { return StringFormat(x); });
		CheckFormat(f, Strs{ "%" }, [](const Str& x) { return StringFormat(x, "%"); });
		CheckFormat(f, Strs{ "ab", "-7" }, [](const Str& x) { return StringFormat(x, Str("ab"), -7); });
	}

	// pattern parsing: a marker takes the text up to the first occurrence of what follows it
	struct Piece { int Marker; Str Text; };		// Marker: -1 text, 0 skipped, n the n-th argument
	Str Pattern(const std::vector<Piece>& p) { Str r; for (const Piece& x : p) r += x.Marker < 0 ? x.Text : x.Marker ? "%" + Dec(x.Marker) + "%" : Str("%_%"); return r; }
	bool Decompose(const std::vector<Piece>& p, const Str& s, std::map<int, Str>& values)
	{
		size_t pos = 0;
		for (size_t i = 0; i < p.size(); ++i)
			if (p[i].Marker < 0) { if (s.compare(pos, p[i].Text.size(), p[i].Text) != 0) return false; pos += p[i].Text.size(); }
			else { const size_t e = i + 1 < p.size() ? s.find(p[i + 1].Text, pos) : s.size(); if (e == Str::npos || e == pos) return false; values[p[i].Marker] = s.substr(pos, e - pos); pos = e; }
		return pos == s.size();
	}
	bool Int(const Str& s, int& v) { size_t u; const bool neg = s[0] == '-'; if (!Number(neg || s[0] == '+' ? s.substr(1) : s, u)) return false; v = neg ? -(int)u : (int)u; return true; }
	void CheckParse(const std::vector<Piece>& p, const Str& s)
	{
		std::map<int, Str> v; const bool fits = Decompose(p, s, v); const Str f = Pattern(p); seq::Cases(1);
		{
			Str a = "?", b = "?"; const bool ok = StringParse(s, f, a, b);
			SEQ_CHECK_MSG(ok == fits, "'%s' by '%s' as text was %s", s.c_str(), f.c_str(), ok ? "accepted" : "refused");
			if (ok)
			{
				SEQ_CHECK_MSG(a == (v.count(1) ? v[1] : "?") && b == (v.count(2) ? v[2] : "?"), "'%s' by '%s' gave '%s' and '%s'", s.c_str(), f.c_str(), a.c_str(), b.c_str());
				if (!v.count(0)) SEQ_CHECK(StringFormat(f, a, b) == s);
			}
			optional<Str> oa, ob; SEQ_CHECK(StringParse(s, f, oa, ob) == fits && (!fits || ((bool)oa == (v.count(1) > 0) && (!oa || *oa == a) && (bool)ob == (v.count(2) > 0) && (!ob || *ob == b))));
		}
		{
			int a = -99, b = -99, ea = -99, eb = -99; const bool want = fits && (!v.count(1) || Int(v[1], ea)) && (!v.count(2) || Int(v[2], eb)), ok = StringParse(s, f, a, b);
			SEQ_CHECK_MSG(ok == want && (!ok || (a == ea && b == eb)), "'%s' by '%s' as numbers was %s (%d %d)", s.c_str(), f.c_str(), ok ? "accepted" : "refused", a, b);
			optional<int> oa, ob; SEQ_CHECK(StringParse(s, f, oa, ob) == want && (!want || ((bool)oa == (v.count(1) > 0) && (!oa || *oa == ea))));
			char c = '?'; Str t = "?"; const bool wantc = fits && (!v.count(1) || v[1].size() == 1), okc = StringParse(s, f, c, t);
			SEQ_CHECK_MSG(okc == wantc && (!okc || ((!v.count(1) || c == v[1][0]) && (!v.count(2) || t == v[2]))), "'%s' by '%s' as a character was %s", s.c_str(), f.c_str(), okc ? "accepted" : "refused");
		}
		if (v.count(2) && fits) { bool thrown = false; Str a; try { StringParse(s, f, a); } catch (const std::exception&) { thrown = true; } SEQ_CHECK(thrown); }
	}
	// decimal numbers of the usual form
	bool Real(const Str& s)
	{
		size_t i = 0, digits = 0; if (i < s.size() && (s[i] == '-' || s[i] == '+')) ++i;
		while (i < s.size() && isdigit(s[i])) ++i, ++digits; if (i < s.size() && s[i] == '.') { ++i; while (i < s.size() && isdigit(s[i])) ++i, ++digits; }
		if (!digits) return false;
		if (i < s.size() && s[i] == 'e') { ++i; if (i < s.size() && (s[i] == '-' || s[i] == '+')) ++i; size_t e = 0; while (i < s.size() && isdigit(s[i])) ++i, ++e; if (!e) return false; }
		return i == s.size();
	}
	struct Brackets { static Str Do(const Str& s) { if (s.size() < 2 || s[0] != '<') throw std::runtime_error("no"); return s.substr(1); } };

	typedef std::map<Str, Str> Model;
	LangCode Lang(int i) { return i == 0 ? LangCode::Eng() : i == 1 ? LangCode::Rus() : i == 2 ? LangCode("deu") : LangCode(LangCode::Any); }
	Str Key(int i) { return i == 0 ? "ENG" : i == 1 ? "RUS" : "DEU"; }
	Model Read(const TranslatedString& t) { Model r; FOR_EACH(const TranslatedString::Dictionary::PairType p IN t.GetTranslations()) { SEQ_CHECK(!r.count(p.Key.ToString())); r[p.Key.ToString()] = p.Value; } return r; }
	void CheckText(const TranslatedString& t, const Model& m)
	{
		SEQ_CHECK(Read(t) == m && t.IsEmpty() == m.empty()); seq::Cases(1);
		for (int i = 0; i < 4; ++i)
		{
			const bool has = i < 3 ? m.count(Key(i)) : !m.empty(); const Str e = !has ? "" : i < 3 ? m.find(Key(i))->second : m.begin()->second;
			SEQ_CHECK(t.HasTranslation(Lang(i)) == has); const optional<Str> o = t.TryGetTranslation(Lang(i)); SEQ_CHECK((bool)o == has && (!o || *o == e));
			bool thrown = false; Str g; try { g = t.GetTranslation(Lang(i)); } catch (const std::exception&) { thrown = true; } SEQ_CHECK(thrown == !has && g == e);
			const Str any = m.empty() ? "" : m.begin()->second; SEQ_CHECK(t.SelectTranslation(Lang(i)) == (has ? e : any));
			for (int j = 0; j < 3; ++j) { const Str want = has ? e : m.count(Key(j)) ? m.find(Key(j))->second : any; SEQ_CHECK(t.SelectTranslation(Lang(i), Lang(j)) == want); const std::vector<LangCode> l{ Lang(i), Lang(j) }; SEQ_CHECK(t.SelectTranslation(l) == (has ? e : m.count(Key(j)) ? m.find(Key(j))->second : Str())); }
		}
	}
}

SEQ_SCENARIO(format_markers, .Q(7).T(9).Split(8)) { const int n = seq::Pick(depth + 1); Str f; for (int i = 0; i < n; ++i) f += "%12$a0"[seq::Pick(i + 2 < n ? 4 : 6)]; FormatAll(f); }
SEQ_SCENARIO(format_tokens, .Q(4).T(5).Split(4))
{
	static const char* const tok[] = { "%1%", "%2%", "%%", "%", "a", "%1$4%", "%2$1%", "%2$5%", "%3%", "%0%", "%x%", "%1$%", "%$1%", "$", "%1$0%", "%01$03%" };
	const int n = seq::Pick(depth + 1); Str f; for (int i = 0; i < n; ++i) f += tok[seq::Pick(16)]; FormatAll(f);
	CheckFormat(f, Strs{ "", "%1%", "x" }, [](const Str& x) { return StringFormat(x, "", "%1%", 'x'); });
	const string_view cut(f.data(), n ? f.size() - 1 : 0); CheckFormat(f.substr(0, cut.size()), Strs{ "1" }, [&](const Str&) { return StringFormat(cut, 1); });
}
SEQ_SCENARIO(format_many, .Q(2).T(3).Split(4)) { Str f; for (int i = 0; i < depth; ++i) f += "<%" + Dec(seq::Pick(13)) + "%>"; CheckFormat(f, Strs{ "1", "b", "3.5", "d", "-5", "f", "7", "h", "9", "j", "11" }, [](const Str& x) { return StringFormat(x, 1, 'b', 3.5, "d", (s8)-5 + 0, Str("f"), (u64)7, string_view("h"), 9u, "j", 11); }); }

SEQ_SCENARIO(parse, .Q(4).T(6).Split(8))
{
	// every pattern of markers separated by text over short texts
	static const char* const lit[] = { "a", "ab", "-", "1" };
	static const int marks[][2] = { { 1, 2 }, { 2, 1 }, { 1, 0 }, { 0, 1 }, { 2, 0 }, { 0, 0 } };
	std::vector<Piece> p; const int shape = seq::Pick(6), count = seq::Pick(3), lead = seq::Pick(5), mid = count == 2 ? seq::Pick(4) : 0, tail = count ? seq::Pick(5) : 0;
	if (lead < 4) p.push_back(Piece{ -1, lit[lead] });
	if (count > 0) p.push_back(Piece{ marks[shape][0], "" });
	if (count > 1) { p.push_back(Piece{ -1, lit[mid] }); p.push_back(Piece{ marks[shape][1], "" }); }
	if (tail < 4 && count) p.push_back(Piece{ -1, lit[tail] });
	if (count < 2 && shape > 2) return;
	Strs texts; All(texts, "ab1-", depth); for (const Str& s : texts) CheckParse(p, s);
}
SEQ_SCENARIO(parse_real, .Q(5).T(6).Split(4))
{
	Strs texts; All(texts, "1.-e+", depth);
	for (const Str& s : texts)
	{
		double d = -9, e = -9; seq::Cases(1); const bool want = Real(s), ok = StringParse(s, "%1%", d);
		SEQ_CHECK_MSG(ok == want, "'%s' was %s as a number", s.c_str(), ok ? "accepted" : "refused");
		if (want && s.find('e') == Str::npos) SEQ_CHECK_MSG(d == atof(s.c_str()), "'%s' was read as %g", s.c_str(), d);
		SEQ_CHECK(StringParse("<" + s + ">", "<%1%>", e) == want && (!want || e == d)); optional<double> o; SEQ_CHECK(StringParse(s, "%1%", o) == want && (bool)o == want && (!want || *o == d));
	}
}
SEQ_SCENARIO(parse_other, .Q(1).T(1))
{
	Str v, w; LogLevel l; u8 b = 0;
	SEQ_CHECK(StringParse("a<x", "a%1%", *MakeParseProxy(v, &Brackets::Do)) && v == "x" && !StringParse("axx", "a%1%", *MakeParseProxy(v, &Brackets::Do)));
	for (const char* n : { "Trace", "Debug", "Info", "Warning", "Error" }) { SEQ_CHECK(StringParse(Str("[") + n + "]", "[%1%]", l) && l.ToString() == n); SEQ_CHECK(!StringParse(Str("[") + n + "x]", "[%1%]", l)); }
	for (int i = 0; i < 300; ++i) { SEQ_CHECK(StringParse(Dec(i), "%1%", b) == (i < 256) && (i > 255 || b == i)); seq::Cases(1); }
}

SEQ_SCENARIO(match_views, .Q(5).T(6).Split(4))
{
	const int n = seq::Pick(depth + 1); Str s; for (int i = 0; i < n; ++i) s += "ab"[seq::Pick(2)]; const std::unique_ptr<char[]> p(new char[n]); memcpy(p.get(), s.data(), n); const string_view v(p.get(), n);
	for (const char* re : { "(a*)(b*)", "(a)|(b)", "(a*)b(b)?(a*)", "()(a+)()" }) { svmatch m; std::smatch e; const std::regex r(re); const bool ok = std::regex_match(v.begin(), v.end(), m, r); SEQ_CHECK(ok == std::regex_match(s, e, r)); if (ok) for (size_t i = 0; i < m.size(); ++i) SEQ_CHECK(svmatch_str(m, i).copy() == e[i].str()); seq::Cases(1); }
}

SEQ_SCENARIO(translated, .Q(3).T(4).Split(6))
{
	// texts and builders: every sequence of additions, copies and builds
	TranslatedString t[2]; Model m[2]; int used = 0;
	for (int step = 0; step < depth; ++step)
	{
		const int op = seq::Pick(5), k = seq::Pick(2);
		if (op == 0) { const int i = seq::Pick(3); const Str v = seq::Flip() ? "x" : "y"; t[k] = TranslatedString(Lang(i), v); m[k].clear(); m[k][Key(i)] = v; }
		else if (op == 1) { t[k] = t[1 - k]; m[k] = m[1 - k]; }
		else if (op == 2) { TranslatedString::Builder b(t[1 - k]); Model e = m[1 - k]; const int n = seq::Pick(3); for (int j = 0; j < n; ++j) { const int i = (seq::Pick(2) + used++) % 3; const Str v = Dec(used); b.AddTranslation(Lang(i), v); e[Key(i)] = v; } t[k] = b; m[k] = e; }
		else if (op == 3) { TranslatedString::Builder b; const Str v = Dec(++used); t[k] = b.AddTranslation(Lang(1), "gone").AddTranslation(Lang(1), v).Get(); m[k].clear(); m[k]["RUS"] = v; }
		else break;
		for (int i = 0; i < 2; ++i) CheckText(t[i], m[i]);
		SEQ_CHECK((t[0] == t[1]) == (m[0] == m[1]) && (t[0] < t[1]) == (m[0] < m[1]) && (t[1] < t[0]) == (m[1] < m[0]));
	}
}
SEQ_SCENARIO(translated_format, .Q(3).T(3).Split(6))
{
	static const char* const tok[] = { "%1%", "%2%", "a", "%%" };
	TranslatedString::Builder fb, ab; Model fm, am; Strs tf;
	for (int i = 0; i < 3; ++i) { if (seq::Flip()) { const Str f = Str(tok[seq::Pick(4)]) + tok[seq::Pick(4)]; fb.AddTranslation(Lang(i), f); fm[Key(i)] = f; } if (seq::Flip()) { ab.AddTranslation(Lang(i), Key(i)); am[Key(i)] = Key(i); } }
	const TranslatedString format = fb, arg = ab; Model e;
	for (const auto& f : fm) { const Str a = am.count(f.first) ? am[f.first] : am.empty() ? Str() : am.begin()->second; Str r; SEQ_CHECK(Reference(f.second, Strs{ a, "7" }, r)); e[f.first] = r; }
	SEQ_CHECK(Read(TranslatedStringFormat(format, arg, 7)) == e); seq::Cases(1);
	for (int mask = 0; mask < 8; ++mask)
	{
		std::vector<LangCode> langs; Model be, je; for (int i = 0; i < 3; ++i) if (mask >> i & 1) { langs.push_back(Lang(i)); const Str a = am.count(Key(i)) ? am[Key(i)] : am.empty() ? Str() : am.begin()->second; be[Key(i)] = "<" + a + "7>" + a; je[Key(i)] = a + ", " + Key(0) + ", " + a; }
		SEQ_CHECK(Read((TranslatedStringBuilder(langs) % "<" % arg % 7 % '>' % arg).Get()) == be);
		SEQ_CHECK(Read(Join(langs, ", ", std::vector<TranslatedString>{ arg, TranslatedString(Lang(0), Key(0)), arg })) == je);
	}
}
