// S03: searching a text for a transliterated piece
#include <seq/seq.h>
#include <harness/common.h>
#include <stingraykit/locale/Translit.h>
#include <string>
using namespace stingray;
namespace
{
	struct M { const char* k; const char* v; };
	const M MAP[] = { {"zh","ж"}, {"ch","ч"}, {"sh","ш"}, {"sch","щ"}, {"yu","ю"}, {"ya","я"}, {"a","а"}, {"b","б"}, {"c","ц"}, {"d","д"}, {"e","е"}, {"e","э"}, {"f","ф"}, {"g","г"}, {"h","х"}, {"i","и"}, {"j","й"}, {"j","ж"}, {"k","ку"}, {"l","л"}, {"m","м"}, {"n","н"}, {"o","о"}, {"p","п"}, {"q","к"}, {"r","р"}, {"s","с"}, {"t","т"}, {"u","у"}, {"v","в"}, {"w","в"}, {"x","кс"}, {"y","ы"}, {"z","з"} };
	const size_t N = sizeof(MAP) / sizeof(MAP[0]);
	bool At(const std::string& t, size_t j, const std::string& s, size_t i) // does t, from j on, read as a prefix of s from i on?
	{
		if (j == t.size()) return true;
		if (i < s.size() && s[i] == t[j] && At(t, j + 1, s, i + 1)) return true;
		for (const M& m : MAP) { const std::string k(m.k), v(m.v); if (t.compare(j, k.size(), k) == 0 && s.compare(i, v.size(), v) == 0 && At(t, j + k.size(), s, i + v.size())) return true; }
		return false;
	}
	bool Ref(const std::string& t, const std::string& s) { for (size_t i = 0; i <= s.size(); ++i) if (At(t, 0, s, i)) return true; return false; }
}
// every mapping alone, with something before and after it on each side
SEQ_SCENARIO(translit_table, .Q(1).T(1))
{
	const M& m = MAP[seq::Pick(N)]; const M& o = MAP[seq::Pick(N)]; static const char* const X[] = { "", "a", "а", "1" }; const std::string pre = X[seq::Pick(4)], post = X[seq::Pick(4)], t(m.k), s = pre + o.v + post; seq::Step();
	SEQ_CHECK_MSG(TranslitMatchSubstr(t, s) == Ref(t, s), "'%s' in '%s'", t.c_str(), s.c_str()); if (&m == &o) SEQ_CHECK(TranslitMatchSubstr(t, s)); const std::string tt = t + o.k; SEQ_CHECK_MSG(TranslitMatchSubstr(tt, m.v + s) == Ref(tt, m.v + s), "'%s' in '%s'", tt.c_str(), (m.v + s).c_str());
}
SEQ_SCENARIO(translit_search, .Q(3).T(4).Split(3))
{
	static const char* const T[] = { "s", "c", "h", "sch", "k", "a", "x", "ш", "" }; static const char* const S[] = { "щ", "ш", "с", "ц", "х", "ку", "к", "а", "a", "кс", "s" }; std::string t, s;
	const int nt = seq::Pick(depth) , ns = seq::Pick(depth + 1);
	for (int i = 0; i < nt; ++i) { const int k = seq::Pick(9); if (k == 8) t += '\0'; else t += T[k]; }
	for (int i = 0; i < ns; ++i) s += S[seq::Pick(11)]; seq::Step(); if (seq::Flip()) s += '\0';
	const std::string ts(t), ss(s); SEQ_CHECK_MSG(TranslitMatchSubstr(ts, ss) == Ref(t, s), "'%s' in '%s' should%s be found", t.c_str(), s.c_str(), Ref(t, s) ? "" : " not");
}
