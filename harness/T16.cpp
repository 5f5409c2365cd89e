// T16: loggers, sinks and level changes in several threads.
#include "../mc/mc.h"
#include "common.h"
#include <stingraykit/log/Logger.h>
#include <stingraykit/shared_ptr.h>
#include <stingraykit/thread/Thread.h>
#include <string.h>
using namespace stingray;

namespace
{
	struct Rec { int from, n, level; };
	// counts what it gets; records are texts "<thread>.<n>"
	struct Sink : public ILoggerSink
	{
		mc::Cell<int> last[4], count[4], other; bool throws; mc::Cell<int> detached; // 1 + the thread that detached it: its records from 5 on may not come any more
		explicit Sink(bool t = false) : throws(t) { }
		virtual void Log(const LoggerMessage& m)
		{
			const std::string s = m.GetMessage();
			if (s.size() == 3 && s[1] == '.' && s[0] >= '0' && s[0] <= '3')
			{
				const int t = s[0] - '0', n = s[2] - '0';
				MC_CHECK_MSG(n > last[t], "record %s delivered after %d.%d", s.c_str(), t, (int)last[t]);
				MC_CHECK_MSG(n < 5 || detached != t + 1, "record %s logged after the sink was detached was delivered to it", s.c_str());
				last[t] = n; ++count[t];
				if (m.GetLoggerName()) MC_CHECK(*m.GetLoggerName() == "lg");
			}
			else
			{
				MC_CHECK_MSG(s.find("Log level is") == 0 || s.find("Backtrace") == 0, "mangled record: %s", s.c_str());
				++other;
			}
			mc::Point();
			if (throws) throw std::runtime_error("sink");
		}
	};
	STINGRAYKIT_DECLARE_PTR(Sink);
	std::string Txt(int t, int n) { std::string s = "0.0"; s[0] += t; s[2] += n; return s; }
	void Put(int t, int n) { Logger::Info() << Txt(t, n); }
	struct Guard // a sink that swallows what the settings changes emit, and default settings
	{
		SinkPtr s; Token t; mc::Cell<int> dummy;
		Guard() : s(new Sink), t(Logger::AddSink(s)) { Logger::SetLogLevel(LogLevel::Info); }
		~Guard() { Logger::SetLogLevel(LogLevel::Info); }
	};
}
MC_SCENARIO(two_loggers, .Q(3))
{
	Guard g; SinkPtr a(new Sink), b(new Sink(mc::Pick(2) != 0)), c(new Sink);
	Token ta = Logger::AddSink(a), tb = Logger::AddSink(b), tc = Logger::AddSink(c);
	mc::Th t([]{ Put(1, 1); Put(1, 2); });
	Put(0, 1); Put(0, 2);
	t.Join();
	for (const SinkPtr& s : { a, b, c }) MC_CHECK_MSG(s->count[0] == 2 && s->count[1] == 2, "sink got %d and %d records", (int)s->count[0], (int)s->count[1]);
}
MC_SCENARIO(detach, .Q(4))
{
	Guard g; SinkPtr a(new Sink), b(new Sink); Token ta = Logger::AddSink(a), tb = Logger::AddSink(b);
	mc::Th t([]{ Put(1, 1); Put(1, 2); });
	ta.Reset(); a->detached = 1;
	Put(0, 5); MC_CHECK_MSG(a->count[0] == 0, "delivered after detaching"); MC_CHECK(b->count[0] == 1);
	t.Join();
	MC_CHECK_MSG(b->count[1] == 2, "the attached sink got %d of 2 records", (int)b->count[1]);
	Put(0, 6); MC_CHECK(b->count[0] == 2 && a->count[0] == 0);
	mc::Outcome("%d", (int)a->count[1]);
}
MC_SCENARIO(attach, .Q(4))
{
	Guard g; SinkPtr a(new Sink), b(new Sink); Token ta = Logger::AddSink(a), tb;
	mc::Th t([]{ Put(1, 1); Put(1, 2); });
	tb = Logger::AddSink(b); Put(0, 1); MC_CHECK_MSG(b->count[0] == 1, "an attached sink got %d of 1 records", (int)b->count[0]);
	t.Join();
	MC_CHECK(a->count[1] == 2 && a->count[0] == 1); MC_CHECK(b->count[1] <= 2 && (b->count[1] == 0 || b->last[1] == 2));
	mc::Outcome("%d", (int)b->count[1]);
}
// two threads attach and detach their own sinks
MC_SCENARIO(attach_detach, .Q(3))
{
	Guard g; SinkPtr a(new Sink), b(new Sink), c(new Sink); Token tc = Logger::AddSink(c);
	mc::Th t([b]{ Token tb = Logger::AddSink(b); Put(1, 1); MC_CHECK_MSG(b->count[1] == 1, "attached sink got %d", (int)b->count[1]); tb.Reset(); b->detached = 2; Put(1, 5); MC_CHECK(b->count[1] == 1); });
	{ Token ta = Logger::AddSink(a); Put(0, 1); MC_CHECK_MSG(a->count[0] == 1, "attached sink got %d", (int)a->count[0]); }
	a->detached = 1; Put(0, 5); MC_CHECK(a->count[0] == 1);
	t.Join();
	MC_CHECK_MSG(c->count[0] == 2 && c->count[1] == 2, "sink got %d and %d records", (int)c->count[0], (int)c->count[1]);
}
// the same sink attached twice: it gets records as long as one of the tokens lives
MC_SCENARIO(same_sink_twice, .Q(3))
{
	Guard g; SinkPtr a(new Sink); Token t1 = Logger::AddSink(a), t2 = Logger::AddSink(a);
	struct Count : public ILoggerSink { mc::Cell<int> n[3]; virtual void Log(const LoggerMessage& m) { const std::string s = m.GetMessage(); if (s.size() == 3 && s[1] == '.') ++n[s[0] - '0']; } };
	shared_ptr<Count> c(new Count); Token c1 = Logger::AddSink(c), c2 = Logger::AddSink(c);
	t2.Reset(); Put(0, 1); MC_CHECK_MSG(a->count[0] == 1, "an attached sink got %d of 1 records", (int)a->count[0]); const int b = c->n[0]; MC_CHECK(b == 1 || b == 2);
	mc::Th t([]{ Put(1, 1); });
	c1.Reset(); Put(0, 2); MC_CHECK_MSG(c->n[0] == b + 1, "a sink attached once more got %d records", (int)c->n[0]);
	t.Join(); MC_CHECK(c->n[1] == 1 || c->n[1] == 2);
	c2.Reset(); Put(0, 3); MC_CHECK(c->n[0] == b + 1); MC_CHECK(a->count[0] == 3 && a->count[1] == 1);
}
// a sink that waits for another thread, which logs, attaches and detaches meanwhile
MC_SCENARIO(sink_waits, .Q(3))
{
	struct Slow : public ILoggerSink
	{
		Semaphore* s; int from; Slow(Semaphore* s_) : s(s_), from(0) { }
		virtual void Log(const LoggerMessage& m) { if (m.GetMessage() == "0.1") s->Wait(); }
	};
	Guard g; Semaphore done; SinkPtr a(new Sink); shared_ptr<Slow> w(new Slow(&done)); Token tw = Logger::AddSink(w), ta = Logger::AddSink(a);
	mc::Th t([&]{ Put(1, 1); { SinkPtr b(new Sink); Token tb = Logger::AddSink(b); Put(1, 2); MC_CHECK(b->count[1] == 1); } done.Signal(); });
	Put(0, 1); MC_CHECK(a->count[0] == 1);
	t.Join(); MC_CHECK_MSG(a->count[1] == 2, "sink got %d of 2 records", (int)a->count[1]);
}
// level changes: by the time SetLogLevel returned they hold for everybody
MC_SCENARIO(levels, .Q(3))
{
	Guard g; SinkPtr a(new Sink); Token ta = Logger::AddSink(a); mc::Cell<int> set, began;
	mc::Th t([&]{ began = 1; Logger::SetLogLevel(LogLevel::Error); set = 1; });
	for (int i = 1; i <= 3; ++i)
	{
		const int before = set; Put(0, i); Logger::Error() << Txt(1, i); const int c = a->count[0];
		MC_CHECK_MSG(!before || a->last[0] != i, "a record below the threshold was delivered");
		MC_CHECK_MSG(began || a->last[0] == i, "a record above the threshold was not delivered (%d)", c);
		MC_CHECK_MSG(a->last[1] == i, "an error was not delivered");
	}
	t.Join(); mc::Outcome("%d", (int)a->count[0]);
}
// a setting made by name reaches a logger that is being created
MC_SCENARIO(named_create, .Q(4))
{
	Guard g; SinkPtr a(new Sink); Token ta = Logger::AddSink(a); const int byObj = mc::Pick(2);
	{
		if (byObj) { NamedLogger x("lg"); mc::Th t([&]{ NamedLogger lg("lg"); lg.Debug() << "1.1"; lg.Info() << "1.2"; }); x.SetLogLevel(LogLevel(LogLevel::Debug)); x.Debug() << "0.1"; x.Trace() << "0.2"; t.Join(); MC_CHECK_MSG(a->count[0] == 1 && a->count[1] == 1, "%d %d", (int)a->count[0], (int)a->count[1]); }
		else
		{
			mc::Th t([&]{ Logger::SetLogLevel("lg", LogLevel(LogLevel::Debug)); Logger::EnableHighlight("lg", true); });
			NamedLogger lg("lg"); lg.Trace() << "0.1"; lg.Info() << "0.2";
			t.Join(); MC_CHECK_MSG(a->count[0] == 1, "%d", (int)a->count[0]);
			lg.Debug() << "0.3"; MC_CHECK_MSG(a->last[0] == 3, "a level set by name does not apply to a logger created meanwhile");
			MC_CHECK(lg.HighlightEnabled()); MC_CHECK(Logger::GetLogLevel("lg") == LogLevel(LogLevel::Debug)); MC_CHECK(Logger::GetLoggerNames().count("lg"));
			Logger::SetLogLevel("lg", null); Logger::EnableHighlight("lg", false); lg.Debug() << "0.4"; MC_CHECK(a->last[0] == 3);
		}
	}
	MC_CHECK(!Logger::GetLoggerNames().count("lg"));
}
// a logger is destroyed while settings are changed by name
MC_SCENARIO(named_destroy, .Q(4))
{
	Guard g; SinkPtr a(new Sink); Token ta = Logger::AddSink(a);
	{
		NamedLogger other("lg");
		mc::Th t([&]{ Logger::SetLogLevel("lg", LogLevel(LogLevel::Error)); Logger::EnableHighlight("lg", true); });
		{ NamedLogger lg("lg"); lg.Error() << "0.1"; MC_CHECK(a->last[0] == 1); MC_CHECK(Logger::GetLoggerNames().size() >= 1); }
		t.Join(); other.Warning() << "0.2"; MC_CHECK_MSG(a->last[0] == 1, "level set by name was not applied"); MC_CHECK(other.HighlightEnabled());
	}
	Logger::SetLogLevel("lg", null); Logger::EnableHighlight("lg", false);
}
// records with the logger's name keep it, whole text, two named loggers in two threads
MC_SCENARIO(named_two, .Q(3))
{
	Guard g; SinkPtr a(new Sink(mc::Pick(2) != 0)), b(new Sink); Token ta = Logger::AddSink(a), tb = Logger::AddSink(b);
	NamedLogger lg("lg");
	mc::Th t([&]{ lg.Warning() << 1 << '.' << 1; lg.Info() << 1 << "." << 2; });
	lg.Error() << 0 << "." << 1; Logger::Info() << "0" << ".2";
	t.Join();
	for (const SinkPtr& s : { a, b }) MC_CHECK_MSG(s->count[0] == 2 && s->count[1] == 2, "sink got %d and %d records", (int)s->count[0], (int)s->count[1]);
}
