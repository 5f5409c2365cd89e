// I07: a reporting data source passes everything on while its timer reads the totals
#include "../mc/mc.h"
#include "common.h"
#include <stingraykit/log/Logger.h>
#include <stingraykit/time/ElapsedTime.h>
#include <stingraykit/BandwidthReporter.h>
#include <stingraykit/diagnostics/ExecutorsProfiler.h>
#include <string>
#include <vector>
using namespace stingray;
namespace
{
	struct Sink : public ILoggerSink { Mutex m; std::vector<std::string> recs; virtual void Log(const LoggerMessage& msg) { MutexLock l(m); if (msg.GetMessage().find("Data: ") == 0) recs.push_back(msg.GetMessage()); } };
	STINGRAYKIT_DECLARE_PTR(Sink);
	struct Src : public virtual IDataSource { u8 d[3]; size_t pos; Src() : pos(0) { d[0] = 1; d[1] = 2; d[2] = 3; } virtual void Read(IDataConsumer& c, const ICancellationToken& t) { if (pos == 3) c.EndOfData(t); else pos += c.Process(ConstByteData(d + pos, 3 - pos), t); } };
	struct Dst : public virtual IDataConsumer { std::string got; size_t take; bool eod; Dst(size_t n) : take(n), eod(false) { } virtual size_t Process(ConstByteData data, const ICancellationToken&) { const size_t n = std::min(take, data.size()); for (size_t i = 0; i < n; ++i) got += (char)('0' + data[i]); return n; } virtual void EndOfData(const ICancellationToken&) { eod = true; } };
}
MC_SCENARIO(bandwidth, .Q(1).T(2).NoTimeouts())
{
	ExecutorsProfiler::Instance(); SinkPtr sink = make_shared_ptr<Sink>(); Token st = Logger::AddSink(sink); Dst d(1 + mc::Pick(2));
	{
		BandwidthReporter r(make_shared_ptr<Src>(), "bw"); int n = 0; Thread::Sleep(TimeDuration(9999)); // the report is due while reading
		while (!d.eod) { r.Read(d, DummyCancellationToken()); MC_CHECK(++n < 5); if (n == 2) Thread::Sleep(TimeDuration(1)); }
		MC_CHECK_MSG(d.got == "123", "passed on %s", d.got.c_str()); Thread::Sleep(TimeDuration(25000));
	}
	unsigned total = 0, sum = 0; for (const std::string& s : sink->recs) { unsigned since = 0, t = 0; MC_CHECK(sscanf(s.c_str(), "Data: %u total: %u", &since, &t) == 2); sum += since; total = t; MC_CHECK_MSG(sum == t, "%u bytes reported so far, total %u", sum, t); }
	MC_CHECK_MSG(sink->recs.size() == 3 && total == 3, "%zu reports, %u bytes", sink->recs.size(), total);
}
