// T16: all sequences of level, sink and logger configuration in one thread; all record levels after each.
#include "../seq/seq.h"
#include "common.h"
#include <stingraykit/log/Logger.h>
#include <stingraykit/optional.h>
#include <stingraykit/shared_ptr.h>
#include <map>
#include <vector>
using namespace stingray;

namespace
{
	struct Rec { int sink; std::string logger, text; int level; bool highlight; };
	std::vector<Rec> g_recs;
	struct Sink : public ILoggerSink
	{
		int id; int mode; optional<function<void ()>> hook;
		Sink(int i, int m) : id(i), mode(m) { }
		virtual void Log(const LoggerMessage& m)
		{
			Rec r = { id, m.GetLoggerName() ? *m.GetLoggerName() : "-", m.GetMessage(), (int)m.GetLogLevel().val(), m.Highlight() }; g_recs.push_back(r);
			if (m.GetMessage().find("rec") == 0) SEQ_CHECK(m.GetThreadName().size() != 0 && m.ToString().find(m.GetMessage()) != std::string::npos);
			if (mode == 1) throw std::runtime_error("sink failed");
			if (hook) (*hook)();
		}
	};
	STINGRAYKIT_DECLARE_PTR(Sink);
	typedef optional<LogLevel> OptLevel;
	const int NL = 6;
	const LogLevel::Enum LEVELS[NL] = { LogLevel::Trace, LogLevel::Debug, LogLevel::Info, LogLevel::Warning, LogLevel::Error, LogLevel::Silent };
	OptLevel Opt(int i) { return i == NL ? OptLevel() : OptLevel(LogLevel(LEVELS[i])); }
	struct Base
	{
		SinkPtr s; Token t; Base() : s(new Sink(99, 0)), t(Logger::AddSink(s)) { Reset(); } ~Base() { Reset(); }
		void Reset() { Logger::SetLogLevel(LogLevel::Info); for (const char* n : { "A", "B" }) { Logger::SetLogLevel(n, null); Logger::EnableHighlight(n, false); Logger::EnableBacktrace(n, false); } }
	};
	struct Set { int level; bool hl, bt; Set() : level(NL), hl(false), bt(false) { } };
	int g_n;
	// log one record at every level through `emit` and compare with what every attached sink must have
	template <typename F> void Probe(const F& emit, const std::string& logger, int threshold, bool hl, bool bt, const std::vector<int>& sinks)
	{
		for (int l = 0; l < NL; ++l)
		{
			g_recs.clear(); const std::string text = "rec" + std::to_string(++g_n);
			emit(LogLevel(LEVELS[l]), text);
			const bool pass = l >= threshold;
			SEQ_CHECK_MSG(g_recs.size() == (pass ? sinks.size() : 0), "%zu deliveries for level %d with threshold %d and %zu sinks", g_recs.size(), l, threshold, sinks.size());
			for (int id : sinks)
			{
				int n = 0;
				for (const Rec& r : g_recs) if (r.sink == id) { ++n; SEQ_CHECK_MSG((bt ? r.text.substr(0, text.size() + 1) == text + "\n" : r.text == text) && r.level == l && r.logger == logger && r.highlight == hl, "record altered: '%s' level %d logger %s highlight %d, expected '%s' %d %s %d", r.text.c_str(), r.level, r.logger.c_str(), r.highlight, text.c_str(), l, logger.c_str(), hl); }
				SEQ_CHECK_MSG(n == pass, "sink %d got %d copies", id, n);
			}
			seq::Step();
		}
	}
}
SEQ_SCENARIO(levels, .Q(3).T(4))
{
	Base base; g_n = 0; std::vector<int> sinks(1, 99); int global = 2; Set by[2]; // by name
	struct L { std::unique_ptr<NamedLogger> l; Set s; int name; } lg[2];
	const char* names[2] = { "A", "B" };
	for (int step = 0; step < depth; ++step)
	{
		const int op = seq::Pick(7), which = op == 0 ? 0 : seq::Pick(2), i = which;
		SEQ_LOG("op %d which %d", op, which);
		switch (op)
		{
		case 0: global = seq::Pick(NL); Logger::SetLogLevel(LogLevel(LEVELS[global])); break;
		case 1: { if (lg[i].l) { lg[i].l.reset(); break; } const int v = seq::Pick(4); lg[i].name = v & 1; lg[i].s = by[v & 1]; // a level set by name beats the constructor's one, as does "no level" once anything is set by name
			const bool any = by[v & 1].level != NL || by[v & 1].hl || by[v & 1].bt; if (v & 2) { lg[i].l.reset(new NamedLogger(names[v & 1], LogLevel(LogLevel::Error))); if (!any) lg[i].s.level = 4; else if (by[v & 1].level == NL) return; } else lg[i].l.reset(new NamedLogger(names[v & 1])); break; }
		case 2: { const int v = seq::Pick(4) * 2; by[which].level = v; Logger::SetLogLevel(names[which], Opt(v)); for (L& l : lg) if (l.l && l.name == which) l.s.level = v; break; }
		case 3: { if (!lg[i].l) return; const int v = 1 + 2 * seq::Pick(3); const int k = v == 1 ? NL : v; lg[i].l->SetLogLevel(Opt(k)); lg[i].s.level = k; break; }
		case 4: { by[which].hl = seq::Flip(); Logger::EnableHighlight(names[which], by[which].hl); for (L& l : lg) if (l.l && l.name == which) l.s.hl = by[which].hl; break; }
		case 5: { if (!lg[i].l) return; lg[i].s.hl = seq::Flip(); lg[i].l->EnableHighlight(lg[i].s.hl); break; }
		case 6: { if (step + 1 < depth) return; by[which].bt = seq::Flip(); Logger::EnableBacktrace(names[which], by[which].bt); for (L& l : lg) if (l.l && l.name == which) l.s.bt = by[which].bt; break; }
		}
	}
	SEQ_CHECK(Logger::GetLogLevel() == LogLevel(LEVELS[global]));
	Probe([](LogLevel l, const std::string& t) { Logger::Stream(l) << t; }, "-", global, false, false, sinks);
	for (L& l : lg) if (l.l)
	{
		const int th = l.s.level == NL ? global : l.s.level;
		SEQ_CHECK_MSG(l.l->GetLogLevel() == LogLevel(LEVELS[th]), "logger level differs"); SEQ_CHECK(l.l->HighlightEnabled() == l.s.hl && l.l->BacktraceEnabled() == l.s.bt && l.l->GetName() == names[l.name]);
		Probe([&](LogLevel v, const std::string& t) { l.l->Stream(v) << t.substr(0, 3) << atoi(t.c_str() + 3); }, names[l.name], th, l.s.hl, l.s.bt, sinks);
		Probe([&](LogLevel v, const std::string& t) { Detail::NamedLoggerAccessor a(*l.l); switch (v.val()) { case LogLevel::Trace: a.Trace() << t; break; case LogLevel::Debug: a.Debug() << t; break; case LogLevel::Info: a.Info() << t; break; case LogLevel::Warning: a.Warning() << t; break; case LogLevel::Error: a.Error() << t; break; default: a.Stream(v) << t; } }, names[l.name], th, l.s.hl, l.s.bt, sinks);
	}
	for (int k = 0; k < 2; ++k) SEQ_CHECK(Logger::GetLogLevel(names[k]) == Opt(by[k].level));
	const std::set<std::string> ns = Logger::GetLoggerNames();
	for (int k = 0; k < 2; ++k) SEQ_CHECK(ns.count(names[k]) == ((lg[0].l && lg[0].name == k) || (lg[1].l && lg[1].name == k)));
}
SEQ_SCENARIO(sinks, .Q(7).T(10))
{
	Base base; g_n = 0; const int throwing = seq::Pick(3);
	SinkPtr s[3]; std::vector<int> att(1, 99); std::vector<std::pair<int, Token>> tokens;
	for (int i = 0; i < 3; ++i) s[i] = make_shared_ptr<Sink>(i, i < throwing ? 1 : 0);
	for (int step = 0; step < depth; ++step)
	{
		const int op = seq::Pick(6); SEQ_LOG("op %d", op);
		if (op < 3) { bool have = false; for (auto& t : tokens) have = have || t.first == op; if (have) return; tokens.emplace_back(op, Logger::AddSink(s[op])); att.push_back(op); }
		else
		{
			if ((size_t)(op - 3) >= tokens.size()) return;
			auto it = tokens.begin() + (op - 3); const int id = it->first; it->second.Reset(); tokens.erase(it);
			att.erase(std::find(att.begin(), att.end(), id));
		}
		Probe([](LogLevel l, const std::string& t) { Logger::Stream(l) << t; }, "-", 2, false, false, att);
		// delivered in order of attachment
	}
}
// many sinks: more than the implementation keeps inline
SEQ_SCENARIO(many_sinks, .Q(20).T(40))
{
	Base base; g_n = 0; const int n = seq::Pick(depth); std::vector<Token> t; std::vector<int> att(1, 99);
	for (int i = 0; i < n; ++i) { t.push_back(Logger::AddSink(make_shared_ptr<Sink>(i, i % 3 == 1))); att.push_back(i); }
	Probe([](LogLevel l, const std::string& x) { Logger::Stream(l) << x; }, "-", 2, false, false, att);
	const int k = seq::Pick(n + 1); if (k < n) { t[k].Reset(); att.erase(att.begin() + k + 1); }
	Probe([](LogLevel l, const std::string& x) { Logger::Stream(l) << x; }, "-", 2, false, false, att);
}
// sinks that attach, detach or log from inside delivery
SEQ_SCENARIO(reentrant, .Q(2).T(3))
{
	Base base; g_n = 0; SinkPtr a(new Sink(0, 0)), b(new Sink(1, 0)), c(new Sink(2, seq::Pick(2))); Token ta = Logger::AddSink(a), tb = Logger::AddSink(b), tc; int left = 1;
	const int what = seq::Pick(4);
	a->hook = vh::Fn<void ()>([&]{ if (!left--) { left = 0; return; } switch (what) { case 0: ta.Reset(); break; case 1: tb.Reset(); break; case 2: tc = Logger::AddSink(c); break; case 3: Logger::Warning() << "inner"; break; } });
	g_recs.clear(); Logger::Info() << "outer";
	int got[3][2] = { };
	for (const Rec& r : g_recs) if (r.sink < 3) { if (r.text == "outer") ++got[r.sink][0]; else { SEQ_CHECK(r.text == "inner"); ++got[r.sink][1]; } }
	SEQ_CHECK_MSG(got[0][0] == 1 && got[1][0] <= 1 && (what == 1 || got[1][0] == 1), "outer record delivered %d and %d times", got[0][0], got[1][0]);
	if (what == 3) SEQ_CHECK(got[0][1] == 1 && got[1][1] == 1);
	std::vector<int> att(1, 99); if (what != 0) att.push_back(0); if (what != 1) att.push_back(1); if (what == 2) att.push_back(2);
	Probe([](LogLevel l, const std::string& x) { Logger::Stream(l) << x; }, "-", 2, false, false, att);
}
// a stream is one record however it is composed and moved; nothing written, nothing logged
SEQ_SCENARIO(streams, .Q(4).T(5))
{
	Base base; g_recs.clear(); std::string text; bool any = false; const int level = seq::Pick(3); // Debug, Info, Warning vs threshold Info
	{
		LoggerStream s(Logger::Stream(LogLevel(LEVELS[level + 1])));
		std::unique_ptr<LoggerStream> p(new LoggerStream(std::move(s)));
		for (int i = 0; i < depth; ++i) switch (seq::Pick(6))
		{
		case 0: *p << "ab"; text += "ab"; any = true; break;
		case 1: *p << 42; text += "42"; any = true; break;
		case 2: *p << ""; any = true; break;
		case 3: *p << std::string("x y"); text += "x y"; any = true; break;
		case 4: p.reset(new LoggerStream(std::move(*std::unique_ptr<LoggerStream>(std::move(p))))); break;
		case 5: *p << 'c' << true; text += "ctrue"; any = true; break;
		}
		SEQ_CHECK_MSG(g_recs.empty(), "logged before the stream was finished");
	}
	const bool pass = any && level >= 1;
	SEQ_CHECK_MSG(g_recs.size() == (pass ? 1u : 0u), "%zu records from one stream", g_recs.size());
	if (pass) SEQ_CHECK_MSG(g_recs[0].text == text, "text '%s', expected '%s'", g_recs[0].text.c_str(), text.c_str());
}
// duplicate hiding never hides a text that differs from the previous one at the same place
SEQ_SCENARIO(hide_duplicates, .Q(9).T(12))
{
	Base base; DuplicatingLogsFilter f; g_recs.clear(); std::string prev; int shown = 0; const unsigned count = 1 + seq::Pick(3);
	for (int i = 0; i < depth; ++i)
	{
		const std::string t(1, (char)('x' + seq::Pick(2))); g_recs.clear();
		Logger::Info() << STINGRAYKIT_HIDE_DUPLICATING_LOGS(count, f) << t;
		int same = 0, summary = 0; for (const Rec& r : g_recs) if (r.text == t) ++same; else { SEQ_CHECK_MSG(r.text.find(prev + " (") == 0 && r.text.find(" times)") != std::string::npos, "unexpected record '%s'", r.text.c_str()); ++summary; }
		SEQ_CHECK_MSG(same <= 1 && summary <= 1, "duplicated");
		if (t != prev) SEQ_CHECK_MSG(same == 1, "a text not seen just before was hidden"); else SEQ_CHECK_MSG(same == 0, "a duplicate was not hidden");
		prev = t; shown += same; seq::Step();
	}
}
SEQ_SCENARIO(action_logger, .Q(1).T(1))
{
	Base base; const int lv = seq::Pick(4), named = seq::Pick(2), thr = seq::Pick(2); NamedLogger lg("A"); g_recs.clear(); const LogLevel ll(LEVELS[lv + 1]);
	try
	{
		if (named) { ActionLogger x(lg, ll, "act"); if (thr) throw std::runtime_error("x"); } else { ActionLogger x(ll, "act"); if (thr) throw std::runtime_error("x"); }
	}
	catch (const std::runtime_error&) { }
	const bool pass = lv + 1 >= 2;
	SEQ_CHECK_MSG(g_recs.size() == (pass ? 2u : 0u), "%zu records", g_recs.size());
	if (pass) { SEQ_CHECK(g_recs[0].text == "act..."); SEQ_CHECK_MSG(g_recs[1].text.find(thr ? "act completed with exception in " : "act completed in ") == 0, "'%s'", g_recs[1].text.c_str()); SEQ_CHECK(g_recs[0].level == lv + 1 && g_recs[1].level == lv + 1 && g_recs[0].logger == (named ? "A" : "-") && g_recs[1].logger == (named ? "A" : "-")); }
}
