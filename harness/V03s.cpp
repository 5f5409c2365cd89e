// V03: command lines, progress aggregation and versions: every command of up to four tokens against a reference parser,
// every history of registering and releasing handlers, every short progress history, every short version text.
#include <seq/seq.h>
#include <harness/common.h>
#include <stingraykit/AggregateProgressReporter.h>
#include <stingraykit/CmdLine.h>
#include <stingraykit/Version.h>
#include <stingraykit/log/Logger.h>
#include <stingraykit/string/ToString.h>

using namespace stingray;
typedef std::string Str;

namespace
{
	std::vector<Str> g_log;

	template <typename T> Str P(const T& v) { return stingray::ToString(v); }
	Str P(const Str& v) { return "'" + v + "'"; }
	Str P(bool v) { return v ? "yes" : "no"; }
	template <typename T> Str P(const optional<T>& v) { return v ? "some " + P(*v) : Str("nothing"); }
	template <typename T> Str P(const std::vector<T>& v) { Str r = "{"; for (size_t i = 0; i < v.size(); ++i) r += (i ? ";" : "") + P(T(v[i])); return r + "}"; }

	// ---- reference: a command is words separated by single spaces; a backslash takes the next character literally
	struct Scan
	{
		Str S; size_t Pos;
		explicit Scan(const Str& s) : S(s), Pos(0) { }
		bool End() const { return Pos == S.size(); }
		bool Separator() { if (End()) return true; if (S[Pos] != ' ') return false; ++Pos; return true; }
		bool Word(const Str& w) { if (S.compare(Pos, w.size(), w)) return false; Pos += w.size(); return Separator(); }
		bool Raw(Str& v)
		{
			v.clear();
			const size_t from = Pos;
			while (!End() && S[Pos] != ' ' && S[Pos] != ',' && S[Pos] != ']')
			{
				if (S[Pos] == '\\')
					++Pos;
				if (!End())
					v += S[Pos++];
			}
			return Pos != from;
		}
		bool Int(int& v)
		{
			Str r;
			if (!Raw(r) || r.empty() || r.size() > 9)
				return false;
			const size_t f = r[0] == '-' || r[0] == '+';
			if (r.size() == f || r.find_first_not_of("0123456789", f) != Str::npos)
				return false;
			v = atoi(r.c_str());
			return true;
		}
		bool Bool(bool& v) { Str r; if (!Raw(r)) return false; v = r == "on" || r == "true"; return v || r == "off" || r == "false"; }
		bool Opt(optional<int>& v) { const size_t p = Pos; Str r; if (!Raw(r)) return false; if (r == "none") { v = null; return true; } Pos = p; int i; if (!Int(i)) return false; v = i; return true; }
		void Spaces() { while (!End() && S[Pos] == ' ') ++Pos; }
		template <typename T, typename F>
		bool List(std::vector<T>& v, const F& item)
		{
			v.clear();
			if (End() || S[Pos] != '[')
				return false;
			++Pos;
			while (!End() && S[Pos] != ']')
			{
				Spaces();
				T t = T();
				if (!item(*this, t))
					return false;
				v.push_back(t);
				Spaces();
				if (End())
					return false;
				if (S[Pos] == ']')
					break;
				if (S[Pos] != ',')
					return false;
				++Pos;
				Spaces();
			}
			if (End())
				return false;
			++Pos;
			return true;
		}
	};

	// what the handlers below would log, in the order of registration
	bool Reference(const Str& cmd, std::vector<Str>& log)
	{
		if (!cmd.empty() && cmd[0] == '#')
			return true;
		{ Scan s(cmd); int i; if (s.Word("set") && s.Int(i) && s.Separator() && s.End()) { log.push_back("set " + P(i)); return true; } }
		{ Scan s(cmd); bool b; if (s.Word("set") && s.Word("flag") && s.Bool(b) && s.Separator() && s.End()) { log.push_back("flag " + P(b)); return true; } }
		{ Scan s(cmd); Str n; optional<int> o; if (s.Word("name") && s.Raw(n) && s.Separator() && s.Opt(o) && s.Separator() && s.End()) { log.push_back("name " + P(n) + P(o)); return true; } }
		{ Scan s(cmd); std::vector<int> v; if (s.Word("list") && s.List(v, [](Scan& c, int& i) { return c.Int(i); }) && s.Separator() && s.End()) { log.push_back("list " + P(v)); return true; } }
		{ Scan s(cmd); std::vector<Str> v; int i; if (s.Word("list") && s.List(v, [](Scan& c, Str& i) { return c.Raw(i); }) && s.Separator() && s.Int(i) && s.Separator() && s.End()) { log.push_back("texts " + P(v) + P(i)); return true; } }
		{ Scan s(cmd); if (s.Word("go") && s.End()) { log.push_back("go"); return true; } }
		{ Scan s(cmd); if (s.Word("go") && s.Word("now") && s.End()) { log.push_back("go now"); return true; } }
		{ Scan s(cmd); Str a, b; if (s.Word("set") && s.Raw(a) && s.Separator() && s.Raw(b) && s.Separator() && s.End()) { log.push_back("pair " + P(a) + P(b)); return true; } }
		return false;
	}

	struct Handlers
	{
		CmdLine Line; TokenPool Tokens;
		Handlers()
		{
			Tokens += Line.Handler("set") = vh::Fn<void (int)>([](int i) { g_log.push_back("set " + P(i)); });
			Tokens += Line.Handler("set", "flag") = vh::Fn<void (bool)>([](bool b) { g_log.push_back("flag " + P(b)); });
			Tokens += Line.Handler("name") = vh::Fn<void (const Str&, const optional<int>&)>([](const Str& n, const optional<int>& o) { g_log.push_back("name " + P(n) + P(o)); });
			Tokens += Line.Handler("list") = vh::Fn<void (const std::vector<int>&)>([](const std::vector<int>& v) { g_log.push_back("list " + P(v)); });
			Tokens += Line.Handler("list") = vh::Fn<void (const std::vector<Str>&, int)>([](const std::vector<Str>& v, int i) { g_log.push_back("texts " + P(v) + P(i)); });
			Tokens += Line.Handler("go") = vh::Fn<void ()>([]{ g_log.push_back("go"); });
			Tokens += Line.Handler("go", "now") = vh::Fn<void ()>([]{ g_log.push_back("go now"); });
			Tokens += Line.Handler("set") = vh::Fn<void (const Str&, const Str&)>([](const Str& a, const Str& b) { g_log.push_back("pair " + P(a) + P(b)); });
		}
	};

	void Check(Handlers& h, const Str& cmd)
	{
		std::vector<Str> expected;
		const bool e = Reference(cmd, expected);
		g_log.clear();
		bool got = false;
		try { got = h.Line.Execute(cmd); }
		catch (const std::exception& ex) { seq::Fail("%s: %s", seq::Quote(cmd).c_str(), ex.what()); }
		if (got != e || g_log != expected)
			seq::Fail("%s: %s, handlers saw %s; expected %d and %s", seq::Quote(cmd).c_str(), got ? "accepted" : "refused", P(g_log).c_str(), int(e), P(expected).c_str());
	}
}

SEQ_SCENARIO(commands, .Q(4).T(5).Split(2))
{
	static const char* const Tokens[] = { "set", "flag", "name", "list", "go", "now", "5", "-3", "on", "off", "none", "x", "a\\ b", "c\\,d", "[1,2]", "[]", "[1, 2 ]", "[a,b\\]]", "[1", "7x", "", "#c", "true", "gone" };
	static Handlers h;
	Str cmd;
	const int n = seq::Pick(depth + 1);
	for (int i = 0; i < n; ++i)
		cmd += (i ? " " : "") + Str(Tokens[seq::Pick(24)]);
	Check(h, cmd);
	Check(h, cmd + " ");
}

// texts of single characters after a command's words
SEQ_SCENARIO(characters, .Q(6).T(7).Split(2))
{
	static Handlers h;
	static const char C[] = "5-,] [\\a";
	static const char* const Prefix[] = { "set ", "name ", "list ", "list [", "" };
	Str cmd = Prefix[seq::Pick(5)];
	const int n = seq::Pick(depth + 1);
	for (int i = 0; i < n; ++i)
		cmd += C[seq::Pick(8)];
	Check(h, cmd);
}

// the earliest registered handler that fits gets the command, released ones never do
SEQ_SCENARIO(registration, .Q(8).T(10).Split(2))
{
	{
		CmdLine line;
		std::vector<std::pair<int, Token>> held; std::vector<std::pair<int, weak_ptr<int>>> states;
		static int called; static bool fail;
		called = 0; fail = false;
		for (int step = 0; step < depth; ++step)
		{
			const int op = seq::Pick(3);
			if (op == 0)
			{
				const int id = step + 1;
				const shared_ptr<int> state = make_shared_ptr<int>(id); states.push_back(std::make_pair(id, state));
				held.push_back(std::make_pair(id, Token(line.Handler("cmd") = vh::Fn<void (int)>([id, state](int) { called = called * 100 + id; if (fail) throw std::runtime_error("handler"); }))));
			}
			else
			{
				if (held.empty())
					return;
				const size_t k = op == 1 ? 0 : held.size() - 1;
				held.erase(held.begin() + k);
			}
			for (const auto& st : states)
			{
				bool registered = false; for (const auto& x : held) registered = registered || x.first == st.first;
				if (st.second.expired() == registered) seq::Fail("handler %d is %s", st.first, registered ? "destroyed" : "kept after its token is gone");
			}
			for (int i = 0; i < 2; ++i)
			{
				called = 0; fail = i;
				bool threw = false, ok = false;
				try { ok = line.Execute("cmd 1"); } catch (const std::runtime_error&) { threw = true; }
				if (called != (held.empty() ? 0 : held.front().first) || threw != (fail && !held.empty()) || (!threw && ok != !held.empty()))
					seq::Fail("handler %d called instead of %d", called, held.empty() ? 0 : held.front().first);
			}
		}
	}
}

// ---- progress
SEQ_SCENARIO(progress, .Q(6).T(7).Split(2))
{
	static const int Totals[] = { 1, 3, 7, 100, 1000 };
	const int parts = 1 + seq::Pick(3);
	std::vector<ProgressValue> reported;
	const function<void (const ProgressValue&)> sink = vh::Fn<void (const ProgressValue&)>([&](const ProgressValue& p) { reported.push_back(p); });
	// actions of different sizes that together make up the whole
	std::vector<size_t> size, index; size_t count = 0;
	for (int i = 0; i < parts; ++i)
	{
		size.push_back(1 + seq::Pick(2));
		index.push_back(count);
		count += size.back();
	}
	std::vector<function<void (const ProgressValue&)>> reporter;
	for (int i = 0; i < parts; ++i)
	{
		reporter.push_back(AggregateProgressReporter(sink, index[i], size[i], count));
		if (size[i] == 1)
			reporter.back() = AggregateProgressReporter(sink, index[i], count);
	}
	const int total = Totals[seq::Pick(5)];
	int last = 0, part = 0, current = 0;
	for (int step = 0; step < depth; ++step)
	{
		const int add = seq::Pick(4);
		current = add == 3 ? total : std::min(total, current + add * total / 3);
		if (current == total && add == 0)
		{
			if (part + 1 == parts)
				return;
			++part;
			current = 0;
		}
		reported.clear();
		reporter[part](ProgressValue(current, total));
		if (reported.size() != 1)
			seq::Fail("%zu reports", reported.size());
		const int percents = reported[0].InPercents();
		const int own = 100 * current / total;
		const int expected = int((index[part] * 100 + size[part] * own) / count);
		if (percents < 0 || percents > 100 || percents < last || percents != expected || (percents == 100) != (part + 1 == parts && current == total) || reported[0].ToString() != std::to_string(percents) + "%")
			seq::Fail("part %d of %d (size %zu of %zu): %d of %d is reported as %s after %d%%, expected %d%%", part, parts, size[part], count, current, total, reported[0].ToString().c_str(), last, expected);
		last = percents;
	}
	for (size_t i = 0; i < 3; ++i)
	{
		bool refused = false;
		try { AggregateProgressReporter r(sink, count - 1 + i, 1 + (i == 2), count); (void)r; } catch (const IndexOutOfRangeException&) { refused = true; }
		if (refused != (i != 0))
			seq::Fail("action %zu of %zu refused: %d", count - 1 + i, count, int(refused));
	}
	if (ProgressValue(5, 0).InPercents() != 0 || ProgressValue(s64(3) << 50, s64(6) << 50).InPercents() != 50 || ProgressValue(1, 2) != ProgressValue(1, 2) || ProgressValue(1, 2) == ProgressValue(2, 4) || ProgressValue(1, 3) < ProgressValue(1, 4) || !(ProgressValue(1, 4) < ProgressValue(1, 3)))
		seq::Fail("progress values");
}

// ---- versions
SEQ_SCENARIO(versions, .Q(3).T(5))
{
	static const unsigned N[] = { 0, 1, 9, 10, 4294967295u };
	unsigned a[3], b[3]; bool ba = seq::Flip(), bb = seq::Flip();
	const int n = depth;
	for (int i = 0; i < 3; ++i) { a[i] = N[i == 2 && !ba ? 0 : seq::Pick(n)]; b[i] = N[i == 2 && !bb ? 0 : seq::Pick(n)]; }
	if (n < 5 && seq::Flip()) a[seq::Pick(3)] = N[4];
	const Version x(a[0], a[1], ba ? optional<unsigned>(a[2]) : optional<unsigned>()), y(b[0], b[1], bb ? optional<unsigned>(b[2]) : optional<unsigned>());
	if (!ba) a[2] = 0; if (!bb) b[2] = 0;
	const Str s = std::to_string(a[0]) + "." + std::to_string(a[1]) + (ba ? "." + std::to_string(a[2]) : Str());
	if (x.ToString() != s)
		seq::Fail("%s is printed as %s", s.c_str(), x.ToString().c_str());
	const Version z = Version::FromString(s);
	if (z != x || z.GetMajor() != a[0] || z.GetMinor() != a[1] || z.GetBuild().is_initialized() != ba || (ba && *z.GetBuild() != a[2]))
		seq::Fail("%s is parsed as %s", s.c_str(), z.ToString().c_str());
	typedef std::pair<std::pair<unsigned, unsigned>, std::pair<bool, unsigned>> K;
	const K kx(std::make_pair(a[0], a[1]), std::make_pair(ba, a[2])), ky(std::make_pair(b[0], b[1]), std::make_pair(bb, b[2]));
	const int e = kx < ky ? -1 : kx > ky;
	if ((x == y) != (e == 0) || (x != y) != (e != 0) || (x < y) != (e < 0) || (x > y) != (e > 0) || (x <= y) != (e <= 0) || (x >= y) != (e >= 0))
		seq::Fail("%s and %s compare wrongly", x.ToString().c_str(), y.ToString().c_str());
}

SEQ_SCENARIO(versionTexts, .Q(6).T(7).Split(2))
{
	static const char C[] = "1.0 -x";
	Str s;
	const int n = seq::Pick(depth + 1);
	for (int i = 0; i < n; ++i)
		s += C[seq::Pick(6)];
	// numbers separated by dots
	bool good = true; int fields = 1, digits = 0;
	for (size_t i = 0; i <= s.size() && good; ++i)
		if (i == s.size() || s[i] == '.')
		{
			good = digits > 0;
			digits = 0;
			fields += i != s.size();
		}
		else if (isdigit(s[i])) ++digits;
		else good = false;
	good = good && (fields == 2 || fields == 3);
	bool accepted = true; Str printed;
	try { printed = Version::FromString(s).ToString(); } catch (const std::exception&) { accepted = false; }
	if (accepted != good)
		seq::Fail("%s %s", seq::Quote(s).c_str(), accepted ? ("accepted as " + printed).c_str() : "refused");
}
