// T17: profilers, profile sessions and thread operation guards, in virtual time.
#include "../mc/mc.h"
#include "common.h"
#include <stingraykit/diagnostics/AsyncProfiler.h>
#include <stingraykit/diagnostics/CheckpointProfiler.h>
#include <stingraykit/diagnostics/ProfileSession.h>
#include <stingraykit/diagnostics/Profiler.h>
#include <stingraykit/diagnostics/SystemProfiler.h>
#include <stingraykit/diagnostics/ThreadTimeProfiler.h>
#include <stingraykit/thread/ThreadOperation.h>
#include <map>
#include <string>
#include <vector>
using namespace stingray;

namespace
{
	typedef long long ll;
	const ll SEC = 1000000;
	struct Rec { std::string text; int level; ll at; };
	struct Sink : public ILoggerSink
	{
		Mutex m; std::vector<Rec> recs;
		virtual void Log(const LoggerMessage& msg) { Rec r = { msg.GetMessage(), (int)msg.GetLogLevel().val(), mc::NowUs() }; MutexLock l(m); recs.push_back(r); }
		std::vector<Rec> Take() { MutexLock l(m); std::vector<Rec> r; r.swap(recs); return r; }
	};
	STINGRAYKIT_DECLARE_PTR(Sink);
	struct Base { SinkPtr s; Token t; Base() : s(make_shared_ptr<Sink>()), t(Logger::AddSink(s)) { } };
	struct Names // the name getter of a session: must not be called once the session is over
	{
		mc::Cell<int> alive, calls; Names() : alive(0), calls(0) { }
		static std::string Get(Names* n, const char* name) { MC_CHECK_MSG(n->alive, "the name of a finished activity was asked for"); ++n->calls; mc::Point(); MC_CHECK_MSG(n->alive, "an activity finished while its name was being read"); return name; }
	};
	int Reports(const std::vector<Rec>& r, const std::string& name) { int n = 0; for (const Rec& x : r) n += x.text.find("Task " + name + " in thread") == 0; return n; }
	int Took(const std::vector<Rec>& r, const std::string& name) { int n = 0; for (const Rec& x : r) n += x.text.find(name + " took ") == 0; return n; }
	void Sleep(ll us) { if (us) Thread::Sleep(TimeDuration::FromMicroseconds(us)); } // time passes only when nothing else can happen
	AsyncProfilerPtr Make() { return make_shared_ptr<AsyncProfiler>("prof"); }
}
// one activity of every length: reported every 30 seconds, and at the end if it took longer than its threshold
MC_SCENARIO(one_activity, .Q(2).NoTimeouts())
{
	Base b; AsyncProfilerPtr p(Make()); static const int LEN[] = { 0, 1, 29, 31, 59, 61, 95 }; Names n;
	const int len = LEN[mc::Pick(7)], kind = mc::Pick(3), thr = mc::Pick(2) ? 40 : 0; const ll start = mc::NowUs();
	{
		std::unique_ptr<AsyncProfiler::Session> s; const TimeDuration th = TimeDuration::FromSeconds(thr); n.alive = 1;
		if (kind == 0) s.reset(new AsyncProfiler::Session(p, "act", th)); else if (kind == 1) s.reset(new AsyncProfiler::Session(p, std::string("act"), th));
		else s.reset(new AsyncProfiler::Session(p, Bind(&Names::Get, &n, "act"), th, AsyncProfiler::NameGetterTag()));
		Sleep(len * SEC);
		s.reset(); n.alive = 0;
	}
	const ll end = mc::NowUs(); p.reset();
	MC_CHECK_MSG(mc::NowUs() == end, "releasing the profiler took %lld us", mc::NowUs() - end);
	const std::vector<Rec> r = b.s->Take();
	MC_CHECK_MSG(Reports(r, "act") == len / 30, "an activity of %d s was reported %d times", len, Reports(r, "act"));
	MC_CHECK_MSG(Took(r, "act") == (len > thr), "an activity of %d s with a threshold of %d s was noted %d times at its end", len, thr, Took(r, "act"));
	int k = 0;
	for (const Rec& x : r)
		if (x.text.find("Task ") == 0) { ++k; MC_CHECK_MSG(x.at == start + k * 30 * SEC && x.level == LogLevel(LogLevel::Error).val() && x.text.find("more than " + TimeDuration::FromSeconds(30 * k).ToString() + " ") != std::string::npos, "report %d at %lld: %s", k, x.at - start, x.text.substr(0, 100).c_str()); }
		else if (x.text.find("act took ") == 0) MC_CHECK_MSG(x.text == "act took " + TimeDuration::FromSeconds(len).ToString() && x.level == LogLevel(LogLevel::Warning).val(), "%s", x.text.c_str());
}
// overlapping activities ending in any order
MC_SCENARIO(overlapping, .Q(1).NoTimeouts())
{
	Base b; AsyncProfilerPtr p(Make()); static const char* const NM[] = { "aa", "bb", "cc" }; ll started[3]; int expect[3] = { 0, 0, 0 }; bool live[3] = { false, false, false };
	std::unique_ptr<AsyncProfiler::Session> s[3]; Names n[3];
	for (int step = 0; step < 6; ++step)
	{
		const int op = mc::Pick(4), i = op % 3; // start or end one of three; or just let time pass
		if (op < 3 && !live[i]) { n[i].alive = 1; s[i].reset(new AsyncProfiler::Session(p, Bind(&Names::Get, &n[i], NM[i]), TimeDuration::FromSeconds(1000), AsyncProfiler::NameGetterTag())); started[i] = mc::NowUs(); live[i] = true; }
		else if (op < 3) { s[i].reset(); n[i].alive = 0; live[i] = false; expect[i] += (mc::NowUs() - started[i]) / (30 * SEC); }
		Sleep(op == 3 ? 37 * SEC : 11 * SEC);
	}
	for (int i = 0; i < 3; ++i) if (live[i]) { s[i].reset(); n[i].alive = 0; expect[i] += (mc::NowUs() - started[i]) / (30 * SEC); }
	const ll end = mc::NowUs(); p.reset(); MC_CHECK_MSG(mc::NowUs() == end, "releasing the profiler took %lld us", mc::NowUs() - end);
	const std::vector<Rec> r = b.s->Take();
	for (int i = 0; i < 3; ++i) MC_CHECK_MSG(Reports(r, NM[i]) == expect[i] && n[i].calls == expect[i], "%s: %d reports (name read %d times), expected %d", NM[i], Reports(r, NM[i]), (int)n[i].calls, expect[i]);
}
// activities which end at the very moment when they are due to be reported: the report reads nothing of an activity which is over
MC_SCENARIO(ends_when_due, .Q(2).T(3).NoTimeouts())
{
	Base b; AsyncProfilerPtr p(Make()); Names n[2]; const int len = mc::Pick(2) ? 30 : 60; const bool two = mc::Pick(2);
	auto act = [&](int i) {
		n[i].alive = 1;
		{ AsyncProfiler::Session s(p, Bind(&Names::Get, &n[i], i ? "bb" : "aa"), TimeDuration::FromSeconds(100000), AsyncProfiler::NameGetterTag()); Sleep(len * SEC); }
		n[i].alive = 0;
	};
	if (two) { mc::Th t([&] { act(1); }); act(0); t.Join(); } else act(0);
	p.reset(); const std::vector<Rec> r = b.s->Take();
	for (int i = 0; i <= (int)two; ++i) MC_CHECK_MSG(Reports(r, i ? "bb" : "aa") == n[i].calls && n[i].calls <= len / 30 && n[i].calls >= len / 30 - 1, "%d reports, name read %d times", Reports(r, i ? "bb" : "aa"), (int)n[i].calls);
}
// activities in several threads, with every timing of the reports against their ends
MC_SCENARIO(threads, .Q(2))
{
	Base b; AsyncProfilerPtr p(Make()); Names na, nb; const ll start = mc::NowUs(); mc::Cell<ll> endA, endB;
	mc::Th t([&] {
		nb.alive = 1; { AsyncProfiler::Session s(p, Bind(&Names::Get, &nb, "bb"), TimeDuration::FromSeconds(100000), AsyncProfiler::NameGetterTag()); mc::Point(); }
		nb.alive = 0; endB = mc::NowUs();
	});
	na.alive = 1; { AsyncProfiler::Session s(p, Bind(&Names::Get, &na, "aa"), TimeDuration::FromSeconds(100000), AsyncProfiler::NameGetterTag()); mc::Point(); }
	na.alive = 0; endA = mc::NowUs();
	t.Join(); p.reset();
	const std::vector<Rec> r = b.s->Take();
	MC_CHECK_MSG(Reports(r, "aa") <= (endA - start) / (30 * SEC) && Reports(r, "bb") <= (endB - start) / (30 * SEC), "%d and %d reports within %lld and %lld us", Reports(r, "aa"), Reports(r, "bb"), (ll)endA - start, (ll)endB - start);
	MC_CHECK(Reports(r, "aa") == na.calls && Reports(r, "bb") == nb.calls);
}
// checkpoints: durations add up to the time between start and the last checkpoint
MC_SCENARIO(checkpoints, .Q(0).T(0).NoTimeouts())
{
	CheckpointProfiler p("pp"); bool on = false; ll base = 0, prev = 0; std::vector<std::pair<std::string, ll> > model;
	for (int step = 0; step < 5; ++step)
	{
		mc::AdvanceUs((1 + mc::Pick(2)) * 1500);
		switch (mc::Pick(4))
		{
		case 0: p.Start(); on = true; base = prev = mc::NowUs(); model.clear(); break;
		case 1: p.Checkpoint("x"); if (on) { model.emplace_back("x", mc::NowUs() - prev); prev = mc::NowUs(); } break;
		case 2: p.Checkpoint(); if (on) { model.emplace_back("#" + std::to_string(model.size()), mc::NowUs() - prev); prev = mc::NowUs(); } break;
		case 3:
			const CheckpointProfiler::Result r = p.Stop(); MC_CHECK(r.ProfilerName == "pp"); MC_CHECK_MSG(r.Checkpoints.size() == model.size(), "%zu checkpoints, expected %zu", r.Checkpoints.size(), model.size()); ll sum = 0;
			for (size_t i = 0; i < model.size(); ++i) { sum += r.Checkpoints[i].DurationBefore.GetMicroseconds(); MC_CHECK_MSG(r.Checkpoints[i].Name == model[i].first && r.Checkpoints[i].DurationBefore.GetMicroseconds() == model[i].second, "checkpoint %zu: %s", i, r.Checkpoints[i].ToString().c_str()); }
			MC_CHECK(sum == prev - base || model.empty()); on = false; model.clear(); break;
		}
	}
}
MC_SCENARIO(checkpoints_threads, .Q(3).NoTimeouts())
{
	CheckpointProfiler p; p.Start(); const ll start = mc::NowUs();
	mc::Th t([&] { mc::AdvanceUs(1000); p.Checkpoint("t1"); CheckpointTracer tr(p, "t2"); mc::AdvanceUs(1000); });
	p.Checkpoint("m1"); mc::AdvanceUs(1500); p.Checkpoint("m2");
	t.Join(); const ll end = mc::NowUs(); p.Checkpoint("end");
	const CheckpointProfiler::Result r = p.Stop(); std::map<std::string, int> seen; ll sum = 0;
	for (const CheckpointProfiler::CheckpointEntry& e : r.Checkpoints) { ++seen[e.Name]; MC_CHECK_MSG(e.DurationBefore >= TimeDuration(), "negative duration before %s", e.Name.c_str()); sum += e.DurationBefore.GetMicroseconds(); }
	MC_CHECK_MSG(r.Checkpoints.size() == 6 && seen.size() == 6 && seen.count("Entered t2") && seen.count("Left t2") && sum == end - start, "%zu checkpoints, %lld of %lld us", r.Checkpoints.size(), sum, end - start);
}
MC_SCENARIO(auto_checkpoints, .Q(0).T(0).NoTimeouts())
{
	Base b; const bool on = mc::Pick(2); const int n = mc::Pick(3); std::string e = "\n--- nm ---\n"; ll total = 0;
	{
		AutoCheckpointProfiler p("nm", on); AutoCheckpointProfiler q(p);
		for (int i = 0; i < n; ++i) { const ll d = (1 + mc::Pick(2)) * 7000; mc::AdvanceUs(d); total += d; (i ? q : p).Checkpoint(i ? "" : "first"); e += TimeDuration::FromMicroseconds(total).ToString() + " | " + TimeDuration::FromMicroseconds(d).ToString() + " | " + (i ? "#" + std::to_string(i) : "first") + "\n"; }
		mc::AdvanceUs(2000); e += TimeDuration::FromMicroseconds(total + 2000).ToString() + " | " + TimeDuration::FromMicroseconds(2000).ToString() + " | stopping the profiler\n";
	}
	const std::vector<Rec> r = b.s->Take();
	MC_CHECK(r.size() == (size_t)on); if (on) MC_CHECK_MSG(r[0].text == e, "%s\n<- logged, expected ->%s", r[0].text.c_str(), e.c_str());
}
namespace
{
	struct Node { std::string id; ll ms; std::map<std::string, Node> ch; Node() : ms(0) { } };
	void Show(const Node& n, int level, ll parent, std::string& o) { o += std::string(level, '\t') + n.id + ", " + std::to_string(n.ms) + " ms."; if (level) o += " (" + std::to_string(n.ms ? n.ms * 100 / parent : 0) + "%)"; o += '\n'; for (const auto& c : n.ch) Show(c.second, level + 1, n.ms, o); }
	void Merge(Node& to, const Node& from) { to.id = from.id; to.ms += from.ms; for (const auto& c : from.ch) Merge(to.ch[c.first], c.second); }
	int g_left;
	ll Wait() { const ll d = mc::Pick(3) * 20000; mc::AdvanceUs(d); return d / 1000; }
	Node Run(ProfileSession& s, const std::string& id, int depth) // children of a running session, then its own record
	{
		Node n; n.id = id; n.ms = Wait();
		while (g_left > 0 && depth < 2 && mc::Pick(2))
		{
			--g_left; static const char* const Ids[] = { "c", "d", "" }; const std::string cid = Ids[mc::Pick(3)]; Node c;
			{ ProfileSession child(s, cid); c = Run(child, cid, depth + 1); }
			n.ms += c.ms; Merge(n.ch[cid], c);
		}
		return n;
	}
}
// nested profile sessions: repeated ones are summed up, percentages are of the enclosing one
MC_SCENARIO(profile_sessions, .Q(0).T(0).NoTimeouts())
{
	Base b; g_left = 3; const bool on = mc::Pick(2); const ll thr = mc::Pick(2) ? 39 : 0; Node n;
	{ ProfileSession s("root", thr, on); n = Run(s, "root", 0); }
	std::string e; const std::vector<Rec> r = b.s->Take(); const bool logged = on && n.ms > thr; if (logged) Show(n, 0, 0, e);
	MC_CHECK_MSG(r.size() == (size_t)logged && (!logged || r[0].text == e), "%zu reports:\n%sexpected %d\n%s", r.size(), r.empty() ? "" : r[0].text.c_str(), logged, e.c_str());
}
MC_SCENARIO(thresholds, .Q(0).T(0).NoTimeouts())
{
	Base b; static const int V[] = { 0, 1, 50, 51 }; const int len = V[mc::Pick(4)], thr = V[mc::Pick(4)], crit = V[mc::Pick(4)], kind = mc::Pick(6), lev = LogLevel(mc::Pick(2) ? LogLevel::Warning : LogLevel::Info).val();
	const ToolkitWhere where("file.cpp", 7, "fn"); NamedLogger log("lg"); const Detail::NamedLoggerAccessor acc(log);
	{
		std::unique_ptr<Profiler> p; std::unique_ptr<SystemProfiler> s; const LogLevel l((LogLevel::Enum)lev); ThreadTimeProfiler tt;
		switch (kind)
		{
		case 0: p.reset(new Profiler("msg", thr)); break;
		case 1: p.reset(new Profiler(acc, l, "msg", thr)); break;
		case 2: p.reset(new Profiler(acc, l, std::string("msg"), where, thr)); break;
		case 3: p.reset(new Profiler(acc, std::string("msg"), thr)); break;
		case 4: p.reset(new Profiler(acc, "msg", where, thr)); break;
		case 5: s.reset(new SystemProfiler("msg", thr, crit)); break;
		}
		mc::AdvanceUs(len * 1000 + 999); MC_CHECK(tt.GetMicroseconds() >= 0);
	}
	const std::vector<Rec> r = b.s->Take(); const bool logged = kind == 5 ? len >= thr : len > thr;
	MC_CHECK_MSG(r.size() == (size_t)logged, "%d ms with a threshold of %d ms logged %zu times", len, thr, r.size()); if (!logged) return;
	const std::string w = kind == 2 || kind == 4 ? ToString(where) + ": " : "", ms = std::to_string(len), e = kind == 5 ? "msg: " + ms + " ms" : ms + " milliseconds - " + w + "msg";
	const int el = kind == 5 ? LogLevel(crit >= thr && len > crit ? LogLevel::Warning : LogLevel::Info).val() : kind == 1 || kind == 2 ? lev : LogLevel(LogLevel::Info).val();
	MC_CHECK_MSG(r[0].text == e && r[0].level == el, "logged '%s' at level %d, expected '%s' at %d", r[0].text.c_str(), r[0].level, e.c_str(), el);
}
// thread operation guards: nested, each thread its own
namespace
{
	const ThreadOperation::Enum OPS[] = { ThreadOperation::Network, ThreadOperation::IO, ThreadOperation::UI };
	bool Reported(const SinkPtr& s, ThreadOperation::Enum op) { s->Take(); { ThreadOperationReporter r((ThreadOperation(op))); } const size_t n = s->Take().size(); MC_CHECK(n <= 1); return n; }
	void Expect(const SinkPtr& s, int mask) { for (ThreadOperation::Enum op : OPS) MC_CHECK_MSG(Reported(s, op) == ((mask & op) != 0), "operation %d with constraints %d", op, mask); }
	void Nest(const SinkPtr& s, int mask, int excl, int depth)
	{
		Expect(s, mask); for (ThreadOperation::Enum op : OPS) if (excl & op) ExclusiveThreadOperationChecker c((ThreadOperation(op)));
		if (!depth) return;
		const int k = mc::Pick(8);
		if (k < 3) { ThreadOperationConstrainer c((ThreadOperation(OPS[k]))); Nest(s, mask | OPS[k], excl, depth - 1); }
		else if (k == 3) { ThreadOperationConstrainer c(ThreadOperation(ThreadOperation::IO) | ThreadOperation::UI); Nest(s, mask | 6, excl, depth - 1); }
		else if (k < 7) { ExclusiveThreadOperation c((ThreadOperation(OPS[k - 4]))); Nest(s, mask, excl | OPS[k - 4], depth - 1); }
		else { try { ThreadOperationConstrainer c((ThreadOperation(ThreadOperation::Network))); throw std::runtime_error("x"); } catch (const std::runtime_error&) { } }
		Expect(s, mask); for (ThreadOperation::Enum op : OPS) if (excl & op) ExclusiveThreadOperationChecker c((ThreadOperation(op)));
	}
}
MC_SCENARIO(operations_nested, .Q(0).T(0))
{
	Base b; Nest(b.s, 0, 0, 3); Expect(b.s, 0);
}
MC_SCENARIO(operations_threads, .Q(3))
{
	Base b; NamedLogger lg("x"); mc::Cell<int> bad;
	struct L { static int Count(const SinkPtr& s, const char* op) { int n = 0; MutexLock l(s->m); for (const Rec& r : s->recs) n += r.text.find(op) == 0; return n; } };
	mc::Th t([&] { { ThreadOperationConstrainer c((ThreadOperation(ThreadOperation::IO))); { ThreadOperationReporter r((ThreadOperation(ThreadOperation::Network))); } { ThreadOperationReporter r((ThreadOperation(ThreadOperation::IO))); } } { ThreadOperationReporter r((ThreadOperation(ThreadOperation::IO))); } });
	{ ThreadOperationConstrainer c((ThreadOperation(ThreadOperation::UI))); { ThreadOperationReporter r((ThreadOperation(ThreadOperation::IO))); } ExclusiveThreadOperation e((ThreadOperation(ThreadOperation::Network))); ExclusiveThreadOperationChecker k((ThreadOperation(ThreadOperation::Network))); }
	t.Join();
	MC_CHECK_MSG(L::Count(b.s, "IO operations") == 1 && b.s->Take().size() == 1, "constraints of one thread were applied to another");
}
