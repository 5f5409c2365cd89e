// I03: pipes between two or three threads.
#include "../mc/mc.h"
#include "common.h"
#include <stingraykit/io/BithreadPipe.h>
#include <stingraykit/io/BufferedPipe.h>
#include <stingraykit/io/DataBuffer.h>
#include <stingraykit/io/PipeDataSource.h>
#include <stingraykit/io/PipeReader.h>
#include <stingraykit/io/SynchronizedPipe.h>
#include <stingraykit/thread/CancellationToken.h>
#include <stingraykit/thread/DummyCancellationToken.h>
#include <stingraykit/thread/TimedCancellationToken.h>
#include <vector>
using namespace stingray;

namespace
{
	typedef std::vector<u8> Bytes;
	Bytes Seq(int from, int n) { Bytes b; for (int i = 0; i < n; ++i) b.push_back((u8)(from + i)); return b; }
	std::string Str(const Bytes& b) { std::string s; for (u8 x : b) s += std::to_string(x) + " "; return s; }
	void ReadSome(IPipe& p, Bytes& got, size_t n, const ICancellationToken& t) { Bytes b(n, 0xEE); const size_t r = p.Read(ByteData(b), t); MC_CHECK_MSG(r <= n, "read %zu of %zu", r, n); for (size_t i = r; i < n; ++i) MC_CHECK_MSG(b[i] == 0xEE, "wrote past what it reported"); got.insert(got.end(), b.begin(), b.begin() + r); }
	void WriteAllTo(IPipe& p, const Bytes& b, const ICancellationToken& t) { MC_CHECK(p.Write(ConstByteData(b), t) == b.size()); }
	// a pipe whose writing end can be closed, over any other
	struct Closable : public virtual IPipe
	{
		BithreadPipe p; CancellationToken closed;
		u64 Read(ByteData d, const ICancellationToken& t) override { if (d.empty()) return 0; try { return p.Read(d, closed); } catch (const OperationCancelledException&) { } STINGRAYKIT_THROW(PipeClosedException()); }
		u64 Write(ConstByteData d, const ICancellationToken& t) override { return p.Write(d, t); }
		bool Peek(const ICancellationToken& t) override { return p.Peek(t); }
		void Close() { closed.Cancel(); }
	};
}
MC_SCENARIO(bithread, .Q(3))
{
	BithreadPipe p; DummyCancellationToken t; Bytes got; const int r = 1 + mc::Pick(3);
	mc::Th w([&]{ WriteAllTo(p, Seq(1, 2), t); WriteAllTo(p, Seq(3, 1), t); WriteAllTo(p, Seq(4, 2), t); });
	while (got.size() < 5) ReadSome(p, got, r, t);
	w.Join(); MC_CHECK_MSG(got == Seq(1, 5), "read %s", Str(got).c_str()); MC_CHECK(!p.Peek(t));
}
MC_SCENARIO(buffered, .Q(3))
{
	IPipePtr raw = make_shared_ptr<BithreadPipe>(); DummyCancellationToken t; BufferedPipe p(raw, 2); Bytes got; const int r = 1 + mc::Pick(3);
	mc::Th w([&]{ WriteAllTo(*raw, Seq(1, 3), t); WriteAllTo(p, Seq(4, 2), t); });
	while (got.size() < 5) { ReadSome(p, got, r, t); if (got.size() == 1 && r == 1) MC_CHECK_MSG(p.Peek(t), "buffered data not visible to Peek"); }
	w.Join(); MC_CHECK_MSG(got == Seq(1, 5), "read %s", Str(got).c_str()); MC_CHECK(!p.Peek(t));
}
MC_SCENARIO(cancel_write, .Q(4))
{
	BithreadPipe p; CancellationToken t; DummyCancellationToken d; Bytes got; mc::Cell<int> done, cancelled;
	mc::Th w([&]{ try { WriteAllTo(p, Seq(1, 3), t); done = 1; } catch (const OperationCancelledException&) { cancelled = 1; } WriteAllTo(p, Seq(11, 2), d); });
	const int early = mc::Pick(2); if (early) ReadSome(p, got, 2, d); t.Cancel(); // the reader may take a part first
	while (got.empty() || got.back() != 12) ReadSome(p, got, 2, d);
	w.Join();
	Bytes head(got.begin(), got.end() - 2), tail(got.end() - 2, got.end());
	MC_CHECK_MSG(tail == Seq(11, 2) && head == Seq(1, (int)head.size()) && head.size() <= 3, "read %s", Str(got).c_str());
	MC_CHECK_MSG(done + cancelled == 1 && (!done || head.size() == 3), "write reported complete with %zu of 3 bytes read", head.size());
	mc::Outcome("%zu %d", head.size(), (int)done);
}
MC_SCENARIO(cancel_read, .Q(4))
{
	BithreadPipe p; CancellationToken t; DummyCancellationToken d; Bytes got; mc::Cell<int> cancelled;
	mc::Th w([&]{ WriteAllTo(p, Seq(1, 3), d); });
	mc::Th c([&]{ t.Cancel(); });
	while (got.size() < 3 && !cancelled) try { ReadSome(p, got, 2, t); } catch (const OperationCancelledException&) { cancelled = 1; }
	const size_t before = got.size(); while (got.size() < 3) ReadSome(p, got, 2, d);
	w.Join(); c.Join(); MC_CHECK_MSG(got == Seq(1, 3), "read %s", Str(got).c_str()); mc::Outcome("%zu", before);
}
MC_SCENARIO(timeout, .Q(3))
{
	BithreadPipe p; DummyCancellationToken d; Bytes got; int late = 0;
	mc::Th w([&]{ WriteAllTo(p, Seq(1, 2), d); });
	while (got.size() < 2 && late < 2) try { ReadSome(p, got, 1, TimedCancellationToken(d, TimeDuration(5))); } catch (const TimeoutException&) { ++late; }
	while (got.size() < 2) ReadSome(p, got, 1, d);
	w.Join(); MC_CHECK_MSG(got == Seq(1, 2), "read %s", Str(got).c_str()); mc::Outcome("%d", late);
}
MC_SCENARIO(write_timeout, .Q(4))
{
	BithreadPipe p; DummyCancellationToken d; Bytes got; mc::Cell<int> ok, late;
	mc::Th w([&]{ try { p.Write(ConstByteData(Seq(1, 2)), TimedCancellationToken(d, TimeDuration(5))); ok = 1; } catch (const TimeoutException&) { late = 1; } WriteAllTo(p, Seq(11, 1), d); });
	while (got.empty() || got.back() != 11) ReadSome(p, got, 1, d);
	w.Join(); MC_CHECK_MSG(ok + late == 1 && (!ok || got.size() == 3), "read %s", Str(got).c_str()); got.pop_back(); MC_CHECK(got == Seq(1, (int)got.size())); mc::Outcome("%zu", got.size());
}
// any number of writers through a synchronised pipe: their messages do not mix
MC_SCENARIO(synchronized_writers, .Q(2))
{
	IPipePtr raw = make_shared_ptr<BithreadPipe>(); SynchronizedPipe s(raw); DummyCancellationToken d; Bytes got;
	mc::Th w1([&]{ WriteAllTo(s, Seq(1, 2), d); }), w2([&]{ WriteAllTo(s, Seq(11, 2), d); });
	while (got.size() < 4) ReadSome(*raw, got, 1 + mc::Pick(2), d);
	w1.Join(); w2.Join(); Bytes a = Seq(1, 2), b = Seq(11, 2), ab(a), ba(b); ab.insert(ab.end(), b.begin(), b.end()); ba.insert(ba.end(), a.begin(), a.end());
	MC_CHECK_MSG(got == ab || got == ba, "read %s", Str(got).c_str()); mc::Outcome("%d", got == ab);
}
MC_SCENARIO(synchronized_cancel, .Q(3))
{
	IPipePtr raw = make_shared_ptr<BithreadPipe>(); SynchronizedPipe s(raw); CancellationToken t; DummyCancellationToken d; Bytes got; mc::Cell<int> cancelled;
	mc::Th w1([&]{ WriteAllTo(s, Seq(1, 2), d); }), w2([&]{ try { WriteAllTo(s, Seq(11, 1), t); } catch (const OperationCancelledException&) { cancelled = 1; } });
	t.Cancel();
	while (got.empty() || std::find(got.begin(), got.end(), 2) == got.end()) ReadSome(*raw, got, 2, d);
	w1.Join(); w2.Join(); Bytes x; for (u8 b : got) if (b < 10) x.push_back(b); MC_CHECK_MSG(x == Seq(1, 2) && got.size() <= 3, "read %s", Str(got).c_str());
}
MC_SCENARIO(lines, .Q(2))
{
	shared_ptr<Closable> c = make_shared_ptr<Closable>(); IPipePtr p = mc::Pick(2) ? IPipePtr(make_shared_ptr<BufferedPipe>(c, (size_t)3)) : IPipePtr(c); DummyCancellationToken d; PipeReader r(p);
	mc::Th w([&]{ const std::string s = "ab\n\r\nc"; Bytes x(s.begin(), s.begin() + 4), y(s.begin() + 4, s.end()); WriteAllTo(*c, x, d); WriteAllTo(*c, y, d); c->Close(); });
	const std::string a = r.ReadLine(d), b = r.ReadLine(d), e = r.ReadLine(d); MC_CHECK_MSG(a == "ab" && b == "" && e == "c", "lines '%s' '%s' '%s'", a.c_str(), b.c_str(), e.c_str());
	bool closed = false; try { r.ReadLine(d); } catch (const PipeClosedException&) { closed = true; } MC_CHECK_MSG(closed, "no closed-pipe error");
	w.Join();
}
MC_SCENARIO(data_source, .Q(2))
{
	shared_ptr<Closable> c = make_shared_ptr<Closable>(); DummyCancellationToken d; ReactiveDataSource src(make_shared_ptr<PipeDataSource>(c, (size_t)3)); DataBuffer b(false, 2);
	mc::Th w([&]{ WriteAllTo(*c, Seq(1, 3), d); WriteAllTo(*c, Seq(4, 1), d); c->Close(); });
	mc::Th pump([&]{ src.Read(b, d); });
	Bytes got; int eod = 0;
	while (!eod) b.ReadToFunction(vh::Fn<size_t (ConstByteData, const ICancellationToken&)>([&](ConstByteData x, const ICancellationToken&) { got.insert(got.end(), x.begin(), x.end()); return x.size(); }), vh::Fn<void (const ICancellationToken&)>([&](const ICancellationToken&) { ++eod; }), d);
	w.Join(); pump.Join(); MC_CHECK_MSG(got == Seq(1, 4), "read %s", Str(got).c_str());
}
