// S03: string utilities against their character-by-character definitions.
#include "../seq/seq.h"
#include "common.h"
#include <stingraykit/Tuple.h>
#include <stingraykit/collection/Range.h>
#include <stingraykit/function/bind.h>
#include <stingraykit/string/AhoCorasick.h>
#include <stingraykit/string/Comparers.h>
#include <stingraykit/string/StringUtils.h>
#include <stingraykit/string/string_view.h>
#include <algorithm>
#include <memory>
#include <set>
#include <vector>
using namespace stingray;

namespace
{
	typedef std::string Str;
	typedef std::vector<Str> Strs;
	const size_t N = Str::npos;

	template < typename F > bool Throws(const F& f) { try { f(); } catch (const std::exception&) { return true; } return false; }
	Str PickStr(const char* alphabet, int maxLen) { const int n = seq::Pick(maxLen + 1); Str s; const int k = strlen(alphabet); for (int i = 0; i < n; ++i) s += alphabet[seq::Pick(k)]; return s; }
	void All(Strs& out, const Str& alphabet, size_t maxLen) { out.assign(1, Str()); for (size_t b = 0; b < out.size(); ++b) if (out[b].size() < maxLen) for (char c : alphabet) out.push_back(out[b] + c); }
	// a view over a buffer that ends exactly where the view ends
	struct Exact { std::unique_ptr<char[]> P; size_t Size; explicit Exact(const Str& s) : P(new char[s.size()]), Size(s.size()) { memcpy(P.get(), s.data(), s.size()); } string_view V() const { return string_view(P.get(), Size); } };
	int Sign(int v) { return v < 0 ? -1 : v > 0; }
	std::string Show(const Strs& v) { Str r; for (const Str& s : v) r += seq::Quote(s) + " "; return r; }

	// naive definitions
	size_t Find(const Str& s, const Str& v, size_t pos) { if (pos > s.size()) return N; for (size_t i = pos; i + v.size() <= s.size(); ++i) { bool eq = true; for (size_t k = 0; k < v.size(); ++k) eq = eq && s[i + k] == v[k]; if (eq) return i; } return N; }
	size_t RFind(const Str& s, const Str& v, size_t pos) { size_t r = N; for (size_t i = 0; i + v.size() <= s.size() && i <= pos; ++i) if (Find(s, v, i) == i) r = i; return r; }
	bool Has(const Str& v, char c) { for (char x : v) if (x == c) return true; return false; }
	size_t FirstOf(const Str& s, const Str& v, size_t pos, bool in) { for (size_t i = pos; i < s.size(); ++i) if (Has(v, s[i]) == in) return i; return N; }
	size_t LastOf(const Str& s, const Str& v, size_t pos, bool in) { size_t r = N; for (size_t i = 0; i < s.size() && i <= pos; ++i) if (Has(v, s[i]) == in) r = i; return r; }
	int Cmp(const Str& a, const Str& b) { for (size_t i = 0; i < a.size() && i < b.size(); ++i) if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1; return a.size() < b.size() ? -1 : a.size() > b.size(); }
	Str Sub(const Str& s, size_t pos, size_t n) { Str r; for (size_t i = pos; i < s.size() && i - pos < n; ++i) r += s[i]; return r; }

#define EQ(expr, expected) do { const auto got_ = (expr); const auto exp_ = (expected); SEQ_CHECK_MSG(got_ == (decltype(got_))exp_, "%s is %zd, not %zd, on '%s' and '%s' at %zd", #expr, (ssize_t)got_, (ssize_t)exp_, seq::Quote(s).c_str(), seq::Quote(v).c_str(), (ssize_t)pos); } while (0)
	void Searches(const Str& s, const Str& v)
	{
		const Exact es(s), ev(v); const string_view a = es.V(), b = ev.V();
		Strs positions;
		for (size_t k = 0; k <= s.size() + 3; ++k)
		{
			const size_t pos = k <= s.size() + 2 ? k : N; seq::Cases(1);
			EQ(a.find(b, pos), Find(s, v, pos)); EQ(a.rfind(b, pos), RFind(s, v, pos));
			EQ(a.find_first_of(b, pos), FirstOf(s, v, pos, true)); EQ(a.find_last_of(b, pos), LastOf(s, v, pos, true));
			EQ(a.find_first_not_of(b, pos), FirstOf(s, v, pos, false)); EQ(a.find_last_not_of(b, pos), LastOf(s, v, pos, false));
			EQ(a.find(v.c_str(), pos), Find(s, v, pos)); EQ(a.rfind(v.c_str(), pos), RFind(s, v, pos));
			EQ(a.find_first_of(v.c_str(), pos), FirstOf(s, v, pos, true)); EQ(a.find_last_of(v.c_str(), pos), LastOf(s, v, pos, true));
			EQ(a.find_first_not_of(v.c_str(), pos), FirstOf(s, v, pos, false)); EQ(a.find_last_not_of(v.c_str(), pos), LastOf(s, v, pos, false));
			for (size_t n = 0; n <= v.size(); ++n)
			{
				const Str w = Sub(v, 0, n);
				EQ(a.find(ev.P.get(), pos, n), Find(s, w, pos)); EQ(a.rfind(ev.P.get(), pos, n), RFind(s, w, pos));
				EQ(a.find_first_of(ev.P.get(), pos, n), FirstOf(s, w, pos, true)); EQ(a.find_last_of(ev.P.get(), pos, n), LastOf(s, w, pos, true));
				EQ(a.find_first_not_of(ev.P.get(), pos, n), FirstOf(s, w, pos, false)); EQ(a.find_last_not_of(ev.P.get(), pos, n), LastOf(s, w, pos, false));
			}
			if (v.size() == 1)
			{
				const char c = v[0];
				EQ(a.find(c, pos), Find(s, v, pos)); EQ(a.rfind(c, pos), RFind(s, v, pos));
				EQ(a.find_first_of(c, pos), FirstOf(s, v, pos, true)); EQ(a.find_last_of(c, pos), LastOf(s, v, pos, true));
				EQ(a.find_first_not_of(c, pos), FirstOf(s, v, pos, false)); EQ(a.find_last_not_of(c, pos), LastOf(s, v, pos, false));
			}
		}
		const size_t pos = 0;
		EQ(a.find(b), Find(s, v, 0)); EQ(a.rfind(b), RFind(s, v, N)); EQ(a.find_first_of(b), FirstOf(s, v, 0, true)); EQ(a.find_last_of(b), LastOf(s, v, N, true)); EQ(a.find_first_not_of(b), FirstOf(s, v, 0, false)); EQ(a.find_last_not_of(b), LastOf(s, v, N, false));
		const int c = Cmp(s, v);
		EQ(Sign(a.compare(b)), c); EQ(Sign(a.compare(v.c_str())), c); EQ(a == b, c == 0); EQ(a != b, c != 0); EQ(a < b, c < 0); EQ(a <= b, c <= 0); EQ(a > b, c > 0); EQ(a >= b, c >= 0);
		const bool starts = Sub(s, 0, v.size()) == v, ends = s.size() >= v.size() && Sub(s, s.size() - v.size(), N) == v;
		EQ(a.starts_with(b), starts); EQ(a.ends_with(b), ends); EQ(a.starts_with(v.c_str()), starts); EQ(a.ends_with(v.c_str()), ends); EQ(StartsWith(a, b), starts); EQ(EndsWith(a, b), ends); EQ(Contains(a, b), Find(s, v, 0) != N);
		if (v.size() == 1) { EQ(a.starts_with(v[0]), starts); EQ(a.ends_with(v[0]), ends); }
	}
	void Views(const Str& s, const Str& v, size_t pos, size_t n)
	{
		const Exact es(s), ev(v); const string_view a = es.V(), b = ev.V(); seq::Cases(1);
		if (pos > s.size())
		{
			SEQ_CHECK(Throws([&] { a.substr(pos, n); })); SEQ_CHECK(Throws([&] { a.compare(pos, n, b); })); SEQ_CHECK(Throws([&] { a.at(pos); }));
			string_view r = a; SEQ_CHECK(Throws([&] { r.remove_prefix(pos); }) && Throws([&] { r.remove_suffix(pos); }) && r == a && r.data() == a.data());
			return;
		}
		const Str w = Sub(s, pos, n); const string_view r = a.substr(pos, n);
		SEQ_CHECK_MSG(r.copy() == w && r.data() == a.data() + pos && r.size() == w.size() && r.length() == w.size() && r.empty() == w.empty(), "substr of '%s' at %zu for %zu is '%s'", seq::Quote(s).c_str(), pos, n, seq::Quote(r.copy()).c_str());
		SEQ_CHECK(Str(r.begin(), r.end()) == w && Str(r.rbegin(), r.rend()) == Str(w.rbegin(), w.rend()));
		EQ(Sign(a.compare(pos, n, b)), Cmp(w, v)); EQ(Sign(a.compare(pos, n, v.c_str())), Cmp(w, v));
		for (size_t p2 = 0; p2 <= v.size(); ++p2) for (size_t n2 = 0; n2 <= v.size() - p2 + 1; ++n2) { EQ(Sign(a.compare(pos, n, b, p2, n2)), Cmp(w, Sub(v, p2, n2))); if (!p2 && n2 <= v.size()) EQ(Sign(a.compare(pos, n, ev.P.get(), n2)), Cmp(w, Sub(v, 0, n2))); }
		SEQ_CHECK(Throws([&] { a.compare(pos, n, b, v.size() + 1, 0); }));
		if (pos < s.size()) SEQ_CHECK(a.at(pos) == s[pos] && &a.at(pos) == &a[pos]); else SEQ_CHECK(Throws([&] { a.at(pos); }));
		string_view p = a, q = a; p.remove_prefix(pos); q.remove_suffix(pos); SEQ_CHECK(p.copy() == Sub(s, pos, N) && q.copy() == Sub(s, 0, s.size() - pos));
		if (!s.empty()) SEQ_CHECK(a.front() == s[0] && a.back() == s[s.size() - 1]);
		string_view x = a, y = b; swap(x, y); SEQ_CHECK(x.data() == b.data() && x.size() == b.size() && y.data() == a.data() && y.size() == a.size());
		// a slice of a string
		for (size_t e = pos; e <= s.size(); ++e)
		{
			const StringRef ref(s, pos, e); const Str slice = Sub(s, pos, e - pos);
			SEQ_CHECK(ref.str() == slice && ref.size() == slice.size() && ref.empty() == slice.empty() && ref.view().copy() == slice && (Str)ref == slice && (ref == v) == (slice == v) && (ref != v) == (slice != v));
			for (size_t i = 0; i < slice.size(); ++i) SEQ_CHECK(ref[i] == slice[i]);
			for (size_t k = 0; k <= slice.size() + 1; ++k)
			{
				SEQ_CHECK_MSG(ref.find(v, k) == Find(slice, v, k), "searching '%s' in '%s' of '%s' from %zu gives %zd", v.c_str(), slice.c_str(), s.c_str(), k, (ssize_t)ref.find(v, k));
				if (!v.empty()) SEQ_CHECK(ref.find(v[0], k) == Find(slice, Sub(v, 0, 1), k));
				const StringRef sub = ref.substr(k, n);
				SEQ_CHECK_MSG(sub.str() == Sub(slice, k, n) && sub.size() == sub.str().size() && sub.view().copy() == sub.str(), "slice %zu+%zd of '%s' is '%s' of size %zu", k, (ssize_t)n, slice.c_str(), sub.str().c_str(), sub.size());
				SEQ_CHECK(ref.substr(k).str() == Sub(slice, k, N));
			}
		}
	}

	// splitting
	Strs NaiveSplit(const Str& s, const Str& d, bool any, size_t limit)
	{
		Strs r(1);
		for (size_t i = 0; i < s.size(); )
		{
			const bool here = (limit == 0 || r.size() <= limit) && (any ? Has(d, s[i]) : Find(s, d, i) == i);
			if (here) { r.push_back(Str()); i += any ? 1 : d.size(); } else r.back() += s[i++];
		}
		return r;
	}
	template < typename R > Strs Pieces(R r) { Strs out; for (; r.Valid(); r.Next()) { SEQ_CHECK(out.size() < 100); out.push_back(r.Get().str()); } return out; }
	template < typename R > void CheckSplit(R r, const Strs& expected, const Str& s, const Str& d, size_t limit)
	{
		const Strs got = Pieces(r); seq::Cases(1);
		SEQ_CHECK_MSG(got == expected, "'%s' by '%s' limit %zu: %s not %s", seq::Quote(s).c_str(), seq::Quote(d).c_str(), limit, Show(got).c_str(), Show(expected).c_str());
		for (size_t k = 0; k <= expected.size(); ++k)
		{
			R m = r; for (size_t i = 0; i < k; ++i) m.Next();
			R copy = m; const Strs rest(expected.begin() + k, expected.end());
			SEQ_CHECK(Pieces(copy) == rest && copy.Equals(m) && m.Valid() == !rest.empty());
			if (!m.Valid()) SEQ_CHECK(Throws([&] { m.Get(); }) && Throws([&] { m.Next(); }));
			m.First(); SEQ_CHECK_MSG(Pieces(m) == expected, "'%s' by '%s' limit %zu rewound after %zu: %s", seq::Quote(s).c_str(), seq::Quote(d).c_str(), limit, k, Show(Pieces(m)).c_str());
		}
	}
	// the searched-for occurrences in every order a naive search finds them
	struct Hit { size_t Pattern, Offset; bool operator < (const Hit& o) const { return Offset != o.Offset ? Offset < o.Offset : Pattern < o.Pattern; } bool operator == (const Hit& o) const { return Offset == o.Offset && Pattern == o.Pattern; } };
	void Automaton(const Strs& patterns, const Strs& texts)
	{
		AhoCorasick ac; for (size_t i = 0; i < patterns.size(); ++i) SEQ_CHECK(ac.Add(patterns[i]) == i);
		SEQ_CHECK(Throws([&] { ac.Search(Str("a"), [](const Str&, size_t, size_t) {}); }));
		ac.Build(); SEQ_CHECK(Throws([&] { ac.Build(); }) && Throws([&] { ac.Add("zz"); }));
		for (const Str& t : texts)
		{
			std::vector<Hit> expected, got; size_t last = 0; seq::Cases(1);
			for (size_t p = 0; p < patterns.size(); ++p) for (size_t o = 0; o + patterns[p].size() <= t.size(); ++o) if (Find(t, patterns[p], o) == o) expected.push_back(Hit{ p, o });
			const auto on = [&](const Str& pattern, size_t index, size_t offset) { SEQ_CHECK(index < patterns.size() && pattern == patterns[index]); SEQ_CHECK(offset + pattern.size() >= last); last = offset + pattern.size(); got.push_back(Hit{ index, offset }); };
			ac.Search(t, on);
			std::sort(expected.begin(), expected.end()); std::sort(got.begin(), got.end());
			SEQ_CHECK_MSG(got == expected, "patterns %s in '%s': %zu hits, not %zu", Show(patterns).c_str(), t.c_str(), got.size(), expected.size());
			got.clear(); last = 0; ac.Search(t.begin(), t.end(), on); std::sort(got.begin(), got.end()); SEQ_CHECK(got == expected);
		}
	}
	char Low(char c) { return c >= 'A' && c <= 'Z' ? c - 'A' + 'a' : c; }
	char Up(char c) { return c >= 'a' && c <= 'z' ? c - 'a' + 'A' : c; }
	Str Map(Str s, char (*f)(char)) { for (char& c : s) c = f(c); return s; }
	size_t Distance(const Str& a, const Str& b) { if (a.empty()) return b.size(); if (b.empty()) return a.size(); const size_t same = Distance(a.substr(1), b.substr(1)); if (a[0] == b[0]) return same; return 1 + std::min(same, std::min(Distance(a.substr(1), b), Distance(a, b.substr(1)))); }
}

SEQ_SCENARIO(view_search, .Q(5).T(6).Split(8)) { const Str s = PickStr("ab\xe0", depth); Strs vs; All(vs, "ab\xe0", 3); for (const Str& v : vs) Searches(s, v); }
SEQ_SCENARIO(view_zero, .Q(4).T(5).Split(4))
{
	// embedded zero characters
	const int n = seq::Pick(depth + 1), m = seq::Pick(3); Str s, v; for (int i = 0; i < n; ++i) s += seq::Flip() ? 'a' : '\0'; for (int i = 0; i < m; ++i) v += seq::Flip() ? 'a' : '\0';
	const Exact es(s), ev(v); const string_view a = es.V(), b = ev.V(); const size_t pos = 0;
	EQ(a.find(b), Find(s, v, 0)); EQ(a.rfind(b), RFind(s, v, N)); EQ(Sign(a.compare(b)), Cmp(s, v)); EQ(a == b, s == v); EQ(a.find_first_of(b), FirstOf(s, v, 0, true)); EQ(a.find_last_not_of(b), LastOf(s, v, N, false));
	SEQ_CHECK(a.copy() == s && string_view(s).size() == s.size() && string_view(s.c_str()).size() == strlen(s.c_str()));
}
SEQ_SCENARIO(view_limits, .Q(1).T(1))
{
	const char c = 'a'; const size_t big = (size_t)1 << 32; const string_view e, l(&c, big), m(&c, big + 1), one(&c, 1);
	SEQ_CHECK(e.compare(l) < 0 && l.compare(e) > 0 && e.compare(m) < 0 && m.compare(e) > 0 && e != l && !(l == e) && e < l && one < m && m > one && e.compare(e) == 0 && e == string_view("") && e.copy().empty() && e.begin() == e.end());
	SEQ_CHECK(string_view(&c, (size_t)1 << 31).compare(e) > 0 && e.compare(string_view(&c, (size_t)1 << 31)) < 0 && string_view(&c, ~(size_t)0).compare(e) > 0);
	for (size_t pos : { (size_t)0, (size_t)1, N }) for (const char* p : { "", "a", "ab" }) { const Str s, v = p; EQ(e.find(p, pos), s.find(p, pos)); EQ(e.rfind(p, pos), s.rfind(p, pos)); EQ(e.find_first_of(p, pos), N); EQ(e.find_last_of(p, pos), N); EQ(e.find_first_not_of(p, pos), N); EQ(e.find_last_not_of(p, pos), N); }
}
SEQ_SCENARIO(view_slices, .Q(4).T(5).Split(6)) { const Str s = PickStr("ab", depth); Strs vs; All(vs, "ab", 2); const size_t pos = seq::Pick(depth + 2); for (const Str& v : vs) for (size_t n = 0; n <= s.size() + 1; ++n) Views(s, v, pos, n); for (const Str& v : vs) Views(s, v, pos, N); }

SEQ_SCENARIO(replace, .Q(7).T(9).Split(6))
{
	const Str s = PickStr("ab", depth); Strs froms, tos; All(froms, "ab", 3); All(tos, "abc", 2);
	for (const Str& f : froms) for (const Str& t : tos)
	{
		Str expected; for (size_t i = 0; i < s.size(); ) if (!f.empty() && Find(s, f, i) == i) { expected += t; i += f.size(); } else expected += s[i++];
		seq::Cases(1); const Str got = ReplaceAll(s, f, t);
		SEQ_CHECK_MSG(got == expected, "replacing '%s' by '%s' in '%s' gives '%s'", f.c_str(), t.c_str(), s.c_str(), got.c_str());
		if (f.size() == 1 && t.size() == 1) SEQ_CHECK(ReplaceAll(s, f[0], t[0]) == expected);
	}
	for (const Str& f : froms) { Str e; for (char c : s) if (!Has(f, c)) e += c; SEQ_CHECK(Filter(s, f) == e); if (f.size() == 1) SEQ_CHECK(Remove(s, f[0]) == e); }
	Str spaced; for (char c : s) spaced += c == 'a' ? ' ' : 'b'; SEQ_CHECK(Remove(spaced) == Remove(s, 'a'));
}
SEQ_SCENARIO(pieces, .Q(7).T(9).Split(6))
{
	const Str s = PickStr("ab", depth); Strs vs; All(vs, "ab", 4);
	for (size_t n = 0; n <= s.size() + 1; ++n) SEQ_CHECK(ExtractPrefix(s, n) == Sub(s, 0, n) && ExtractSuffix(s, n) == (n >= s.size() ? s : Sub(s, s.size() - n, n)));
	SEQ_CHECK(ExtractPrefix(s, N) == s && ExtractSuffix(s, N) == s);
	for (const Str& v : vs)
	{
		const bool starts = Sub(s, 0, v.size()) == v, ends = s.size() >= v.size() && Sub(s, s.size() - v.size(), N) == v; seq::Cases(1);
		SEQ_CHECK(RemovePrefix(s, v) == (starts ? Sub(s, v.size(), N) : s)); SEQ_CHECK(RemoveSuffix(s, v) == (ends ? Sub(s, 0, s.size() - v.size()) : s));
		const Exact es(s), ev(v); SEQ_CHECK(StartsWith(es.V(), ev.V()) == starts && EndsWith(es.V(), ev.V()) == ends && Contains(es.V(), ev.V()) == (Find(s, v, 0) != N));
	}
	for (size_t w = 0; w <= s.size() + 3; ++w)
	{
		const Str fill(w > s.size() ? w - s.size() : 0, '*');
		SEQ_CHECK((Str)LeftJustify(s, w, '*') == s + fill && (Str)RightJustify(s, w, '*') == fill + s);
		SEQ_CHECK((Str)(StringBuilder() % "<" % LeftJustify(s, w, '*') % "|" % RightJustify(s, w, '*') % ">") == "<" + s + fill + "|" + fill + s + ">");
		SEQ_CHECK((Str)LeftJustify(s, w) == s + Str(fill.size(), ' ') && (Str)RightJustify(s, w) == Str(fill.size(), ' ') + s);
	}
}
SEQ_SCENARIO(strip, .Q(6).T(7).Split(6))
{
	const Str s = PickStr("a \t", depth); Strs sets; All(sets, "a \t", 2); sets.push_back(" \t\n\r\f\v");
	for (size_t i = 0; i < sets.size(); ++i)
	{
		const Str& v = sets[i]; seq::Cases(1); size_t b = 0, e = s.size(); while (b < e && Has(v, s[b])) ++b; size_t e2 = e; while (e2 > 0 && Has(v, s[e2 - 1])) --e2;
		SEQ_CHECK_MSG(LeftStrip(s, v) == Sub(s, b, N) && RightStrip(s, v) == Sub(s, 0, e2) && Strip(s, v) == (e2 > b ? Sub(s, b, e2 - b) : Str()), "stripping '%s' off '%s': '%s' '%s' '%s'", seq::Quote(v).c_str(), seq::Quote(s).c_str(), LeftStrip(s, v).c_str(), RightStrip(s, v).c_str(), Strip(s, v).c_str());
		if (i + 1 == sets.size()) SEQ_CHECK(LeftStrip(s) == LeftStrip(s, v) && RightStrip(s) == RightStrip(s, v) && Strip(s) == Strip(s, v));
	}
	for (const char* ws : { "\n", "\r", "\f", "\v", " ", "\t" }) SEQ_CHECK(Strip(ws + s + ws) == Strip(s) && LeftStrip(ws + s) == LeftStrip(s) && RightStrip(s + ws) == RightStrip(s));
}
SEQ_SCENARIO(split, .Q(6).T(8).Split(6))
{
	const Str s = PickStr("ab,", depth); Strs ds; All(ds, "a,", 3);
	for (const Str& d : ds) for (size_t limit = 0; limit <= 4; ++limit)
	{
		const IsAnyOf anyOf(d);
		if (!d.empty()) { CheckSplit(Split(s, d, limit), NaiveSplit(s, d, false, limit), s, d, limit); if (!limit) CheckSplit(Split(s, d), NaiveSplit(s, d, false, 0), s, d, 0); SEQ_CHECK(Join(d, Split(s, d, limit)) == s); }
		if (d.size() < 3) CheckSplit(Split(s, anyOf, limit), NaiveSplit(s, d, true, limit), s, d, limit);
	}
}
SEQ_SCENARIO(join, .Q(4).T(5).Split(4))
{
	const int n = seq::Pick(depth + 1); Strs parts; for (int i = 0; i < n; ++i) parts.push_back(PickStr("a,", 2));
	for (const char* sep : { "", ",", ", " })
	{
		Str e, e2; for (size_t i = 0; i < parts.size(); ++i) { e += (i ? sep : "") + parts[i]; e2 += (i ? sep : "") + ("<" + parts[i] + ">"); }
		const auto op = [](const Str& x) { return "<" + x + ">"; }; seq::Cases(1);
		SEQ_CHECK(Join(sep, ToRange(parts)) == e && Join(sep, parts.begin(), parts.end()) == e);
		SEQ_CHECK(Join(sep, ToRange(parts), vh::Fn<Str (const Str&)>(op)) == e2 && Join(sep, parts.begin(), parts.end(), vh::Fn<Str (const Str&)>(op)) == e2);
		std::vector<int> ints(n, 7); Str ei; for (int i = 0; i < n; ++i) ei += (i ? Str(sep) : Str()) + "7"; SEQ_CHECK(Join(sep, ToRange(ints)) == ei && Join(sep, ints.begin(), ints.end()) == ei);
	}
}
SEQ_SCENARIO(tuple, .Q(7).T(8).Split(5))
{
	const Str s = PickStr("1 x", depth); const Strs parts = NaiveSplit(s, " ", false, 0); Str a = "?"; int b = -1; Str c = "?"; seq::Cases(1);
	bool ok = parts.size() == 3 && !parts[1].empty(); if (ok) for (char ch : parts[1]) ok = ok && ch == '1';
	const bool thrown = Throws([&] { TupleFromStrings(ForwardAsTuple(a, b, c), Split(s, " ")); });
	SEQ_CHECK_MSG(thrown == !ok, "'%s' %s", s.c_str(), thrown ? "refused" : "accepted");
	if (ok) SEQ_CHECK(a == parts[0] && c == parts[2] && (Str)ToString(b) == parts[1]);
}
SEQ_SCENARIO(letters, .Q(4).T(5).Split(4))
{
	const Str alphabet = Str("aZ@[`{\xe0", 7); const int n = seq::Pick(depth + 1), m = seq::Pick(n ? 3 : depth); Str s, v; for (int i = 0; i < n; ++i) s += alphabet[seq::Pick(7)]; for (int i = 0; i < m; ++i) v += alphabet[seq::Pick(7)];
	seq::Cases(1);
	SEQ_CHECK(ToLower(s) == Map(s, Low) && ToUpper(s) == Map(s, Up)); Str cap = s, uncap = s; if (n) { cap[0] = Up(s[0]); uncap[0] = Low(s[0]); } SEQ_CHECK(Capitalize(s) == cap && Uncapitalize(s) == uncap);
	for (const Str& w : { v, Map(s, Up), Map(s, Low) })
	{
		const Str a = Map(s, Low), b = Map(w, Low);
		const bool less = std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end()), greater = std::lexicographical_compare(b.begin(), b.end(), a.begin(), a.end());
		SEQ_CHECK(CaseInsensitiveEquals()(s, w) == (a == b) && CaseInsensitiveEquals()(string_view(s), string_view(w)) == (a == b));
		// the place of bytes outside ASCII is not specified, only that there is one
		if (Has(a + b, '\xe0')) { SEQ_CHECK((int)CaseInsensitiveLess()(s, w) + (int)CaseInsensitiveLess()(w, s) + (int)(a == b) == 1 && CaseInsensitiveLess()(s, w) == CaseInsensitiveLess()(string_view(a), string_view(b))); continue; }
		SEQ_CHECK(CaseInsensitiveLess()(s, w) == less && CaseInsensitiveLess()(string_view(s), string_view(w)) == less && CaseInsensitiveLess()(w, s) == greater);
	}
}
SEQ_SCENARIO(every_char, .Q(1).T(1)) { for (int c = 0; c < 256; ++c) { const Str s(1, (char)c); SEQ_CHECK(ToLower(s) == Map(s, Low) && ToUpper(s) == Map(s, Up) && Capitalize(s) == Map(s, Up) && Uncapitalize(s) == Map(s, Low)); seq::Cases(1); } }
SEQ_SCENARIO(edits, .Q(4).T(5).Split(6)) { const Str a = PickStr("abc", depth); Strs bs; All(bs, "abc", 4); for (const Str& b : bs) { seq::Cases(1); SEQ_CHECK_MSG(EditDistance(a, b) == Distance(a, b), "'%s' to '%s' takes %zu edits, not %zu", a.c_str(), b.c_str(), EditDistance(a, b), Distance(a, b)); } }

SEQ_SCENARIO(patterns, .Q(3).T(4).Split(10))
{
	// every set of up to three patterns of up to three letters, in every order of insertion
	Strs all, texts; All(all, "ab", 3); all.erase(all.begin()); All(texts, "abc", 5);
	Strs patterns; for (int i = 0; i < depth; ++i) { const int k = seq::Pick((int)all.size() + 1); if (!k) break; if (std::find(patterns.begin(), patterns.end(), all[k - 1]) != patterns.end()) return; patterns.push_back(all[k - 1]); }
	Automaton(patterns, texts);
}
SEQ_SCENARIO(long_patterns, .Q(2).T(2).Split(10)) { Strs all, texts; All(all, "ab", 4); all.erase(all.begin()); All(texts, "ab", 7); Strs patterns; const int i = seq::Pick((int)all.size()), j = seq::Pick((int)all.size()); if (i == j) return; patterns.push_back(all[i]); patterns.push_back(all[j]); Automaton(patterns, texts); }
SEQ_SCENARIO(byte_patterns, .Q(1).T(1)) { const int c = seq::Pick(256); const Str s(1, (char)c); Automaton(Strs{ s, s + s, "a" + s + "b" }, Strs{ s, s + s + s, "a" + s, "aa" + s + "b", s + "a" + s + "b" + s }.size() && c != 'a' && c != 'b' ? Strs{ s, s + s + s, "a" + s, "aa" + s + "b", s + "a" + s + "b" + s } : Strs()); }
