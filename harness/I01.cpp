// I01: a buffered data pipe between a writer and a reader thread.
#include "../mc/mc.h"
#include "common.h"
#include <stingraykit/io/BufferedDataMediator.h>
#include <stingraykit/io/DataBuffer.h>
#include <stingraykit/io/IntermediateDataBuffer.h>
#include <stingraykit/thread/CancellationToken.h>
#include <stingraykit/thread/DummyCancellationToken.h>
#include <algorithm>
#include <string.h>
using namespace stingray;

namespace
{
	typedef std::vector<u8> Bytes;
	Bytes Seq(int from, int n) { Bytes b; for (int i = 0; i < n; ++i) b.push_back((u8)(from + i)); return b; }
	std::string Str(const Bytes& b) { std::string s; for (u8 x : b) s += std::to_string(x) + " "; return s; }
	// consumer taking everything, or at most `limit` bytes per call, refusing the first `refuse` calls
	struct Cons : public virtual IDataConsumer
	{
		Bytes got; int limit, refuse; mc::Cell<int> eods, count;
		explicit Cons(int l = 0, int r = 0) : limit(l), refuse(r) { }
		size_t Process(ConstByteData data, const ICancellationToken&) override
		{
			MC_CHECK_MSG(!eods, "data after end of data"); MC_CHECK_MSG(!data.empty(), "empty chunk");
			if (refuse) { --refuse; return 0; }
			const size_t n = limit ? std::min<size_t>(limit, data.size()) : data.size();
			Bytes copy(data.data(), data.data() + n); mc::Point();
			MC_CHECK_MSG(!memcmp(data.data(), &copy[0], n), "data changed while being read");
			got.insert(got.end(), copy.begin(), copy.end()); count = (int)got.size();
			return n;
		}
		void EndOfData(const ICancellationToken&) override { MC_CHECK_MSG(++eods == 1, "end of data twice"); }
	};
	void WriteAll(IDataConsumer& b, const Bytes& data, const ICancellationToken& t) { const size_t n = ConsumeAll(b, ConstByteData(data), t); MC_CHECK_MSG(n == data.size() || !t, "wrote %zu of %zu", n, data.size()); }
	void CheckSizes(DataBuffer& b, size_t cap) { const size_t d = b.GetDataSize(); MC_CHECK_MSG(d <= cap, "size %zu of %zu", d, cap); MC_CHECK(b.GetStorageSize() == cap); }
}
// n bytes through a small buffer in various chunkings
static void Transfer(size_t cap, int n, int chunk, int limit, int refuse, DataBuffer::Parameters pars = DataBuffer::Parameters())
{
	DataBuffer b(false, cap, pars); DummyCancellationToken tok; Cons c(limit, refuse);
	mc::Th w([&]{ const Bytes all = Seq(1, n); for (int i = 0; i < n; i += chunk) WriteAll(b, Bytes(all.begin() + i, all.begin() + std::min(n, i + chunk)), tok); b.EndOfData(tok); });
	while (!c.eods) { b.Read(c, tok); CheckSizes(b, cap); }
	w.Join();
	MC_CHECK_MSG(c.got == Seq(1, n), "read %s", Str(c.got).c_str()); MC_CHECK(b.GetDataSize() == 0 && b.HasEndOfDataOrException());
}
MC_SCENARIO(transfer_cap2, .Q(3)) { Transfer(2, 4, 1 + mc::Pick(3), mc::Pick(2), 0); }
MC_SCENARIO(transfer_cap3, .Q(3)) { Transfer(3, 5, 2, mc::Pick(3), mc::Pick(2)); }
MC_SCENARIO(transfer_cap1, .Q(3)) { Transfer(1, 2, 2, 0, mc::Pick(2)); }
MC_SCENARIO(transfer_packets, .Q(3))
{
	if (mc::Pick(2)) Transfer(4, 6, 2, 0, 0, DataBuffer::Parameters().SetInputPacketSize(1).SetOutputPacketSize(2));
	else Transfer(4, 6, 4, 1, 0, DataBuffer::Parameters().SetInputPacketSize(2).SetOutputPacketSize(1));
}
MC_SCENARIO(transfer_free_space, .Q(3)) { Transfer(3, 5, 3, 0, 0, DataBuffer::Parameters().SetRequiredFreeSpace(2)); }
MC_SCENARIO(two_writers, .Q(4))
{
	DataBuffer b(false, 2); DummyCancellationToken tok; Cons c;
	mc::Th w1([&]{ WriteAll(b, Seq(1, 2), tok); }), w2([&]{ WriteAll(b, Seq(11, 2), tok); });
	while (c.got.size() < 4) b.Read(c, tok);
	w1.Join(); w2.Join(); Bytes p, q; for (u8 x : c.got) (x < 10 ? p : q).push_back(x);
	MC_CHECK_MSG(p == Seq(1, 2) && q == Seq(11, 2), "read %s", Str(c.got).c_str()); MC_CHECK(b.GetDataSize() == 0);
	mc::Outcome("%s", Str(c.got).c_str());
}
// a writer that was woken must still wait while another one is writing
MC_SCENARIO(three_writers, .Q(3))
{
	DataBuffer b(false, 3); DummyCancellationToken tok; Cons c;
	mc::Th w1([&]{ WriteAll(b, Seq(1, 1), tok); }), w2([&]{ WriteAll(b, Seq(11, 1), tok); }), w3([&]{ WriteAll(b, Seq(21, 1), tok); });
	w1.Join(); w2.Join(); w3.Join();
	MC_CHECK_MSG(b.GetDataSize() == 3, "%zu of 3 bytes", b.GetDataSize());
	while (c.got.size() < 3) b.Read(c, tok);
	Bytes s = c.got; std::sort(s.begin(), s.end()); MC_CHECK_MSG((s == Bytes{1, 11, 21}), "read %s", Str(c.got).c_str());
	mc::Outcome("%s", Str(c.got).c_str());
}
// overflow discards, and says how much
MC_SCENARIO(discard, .Q(5))
{
	DataBuffer b(true, 2); DummyCancellationToken tok; Cons c; mc::Cell<int> lost; Token t = b.OnOverflow().connect(vh::Fn<void (size_t)>([&](size_t n) { lost += (int)n; }));
	mc::Th w([&]{ WriteAll(b, Seq(1, 1), tok); WriteAll(b, Seq(2, 2), tok); WriteAll(b, Seq(4, 1), tok); b.EndOfData(tok); });
	while (!c.eods) b.Read(c, tok);
	w.Join();
	for (size_t i = 0; i < c.got.size(); ++i) MC_CHECK_MSG(c.got[i] >= 1 && c.got[i] <= 4 && (!i || c.got[i] > c.got[i - 1]), "read %s", Str(c.got).c_str());
	MC_CHECK_MSG(c.got.size() + lost == 4, "%zu bytes read, %d reported lost", c.got.size(), (int)lost);
	mc::Outcome("%s", Str(c.got).c_str());
}
// cancelling a blocked or active writer: what was accepted, and nothing else, is there
MC_SCENARIO(cancel_writer, .Q(5))
{
	DataBuffer b(false, 2); CancellationToken tok; DummyCancellationToken d; mc::Cell<int> wrote;
	mc::Th w([&]{ const Bytes x = Seq(1, 4); wrote = (int)ConsumeAll(b, ConstByteData(x), tok); });
	Cons c(1); if (mc::Pick(2)) { while (c.got.empty()) b.Read(c, d); }
	tok.Cancel(); w.Join();
	MC_CHECK_MSG((int)b.GetDataSize() + (int)c.got.size() == wrote, "%zu stored and %zu read of %d accepted", b.GetDataSize(), c.got.size(), (int)wrote);
	b.EndOfData(d); while (!c.eods) b.Read(c, d);
	MC_CHECK_MSG(c.got == Seq(1, wrote), "read %s", Str(c.got).c_str());
	mc::Outcome("%d", (int)wrote);
}
MC_SCENARIO(cancel_reader, .Q(5))
{
	DataBuffer b(false, 2); CancellationToken tok; DummyCancellationToken d; Cons c;
	mc::Th r([&]{ while (tok && !c.eods) b.Read(c, tok); });
	WriteAll(b, Seq(1, 1 + mc::Pick(2)), d); tok.Cancel(); r.Join();
	const size_t before = c.got.size(), left = b.GetDataSize(); b.EndOfData(d); while (!c.eods) b.Read(c, d);
	MC_CHECK_MSG(c.got.size() == before + left && c.got == Seq(1, (int)c.got.size()), "read %s", Str(c.got).c_str());
	mc::Outcome("%zu", before);
}
// the exception is delivered after the data, to every later read
MC_SCENARIO(exception, .Q(5))
{
	DataBuffer b(false, 3); DummyCancellationToken tok; Cons c; int thrown = 0;
	mc::Th w([&]{ WriteAll(b, Seq(1, 2), tok); b.SetException(ArgumentException("x"), tok); MC_CHECK(b.HasEndOfDataOrException()); });
	while (!thrown) try { b.Read(c, tok); } catch (const std::exception& ex) { MC_CHECK_MSG(diagnostic_information(ex).find("Invalid argument") != std::string::npos, "another exception"); ++thrown; }
	w.Join(); MC_CHECK_MSG(c.got == Seq(1, 2) && !c.eods, "exception overtook the data: read %s", Str(c.got).c_str());
	try { b.Read(c, tok); } catch (const std::exception&) { ++thrown; } MC_CHECK_MSG(thrown == 2, "exception lost");
	bool refused = false; try { Bytes x = Seq(1, 1); b.Process(x, tok); } catch (const InvalidOperationException&) { refused = true; } MC_CHECK(refused);
}
// clearing empties; it is refused, without effect, while a write is in progress
MC_SCENARIO(clear_vs_write, .Q(5))
{
	DataBuffer b(false, 2); DummyCancellationToken tok; Cons c; WriteAll(b, Seq(1, 2), tok); bool cleared = false; mc::Cell<int> done;
	mc::Th w([&]{ WriteAll(b, Seq(3, 1), tok); done = 1; b.EndOfData(tok); });
	try { b.Clear(); cleared = true; } catch (const InvalidOperationException&) { }
	if (cleared) { const size_t n = b.GetDataSize(); MC_CHECK_MSG(n <= 1, "%zu bytes after clearing", n); }
	while (!c.eods) b.Read(c, tok);
	w.Join(); MC_CHECK_MSG(c.got == (cleared ? Seq(3, 1) : Seq(1, 3)), "read %s (%d)", Str(c.got).c_str(), cleared);
	MC_CHECK(b.HasEndOfDataOrException()); b.Clear(); MC_CHECK(!b.HasEndOfDataOrException() && b.GetDataSize() == 0 && b.GetFreeSize() == 2);
	WriteAll(b, Seq(7, 2), tok); Cons e; while (e.got.size() < 2) b.Read(e, tok); MC_CHECK(e.got == Seq(7, 2));
	mc::Outcome("%d", cleared);
}
MC_SCENARIO(wait_for_data, .Q(5))
{
	DataBuffer b(false, 4); DummyCancellationToken d; CancellationToken tok; const int how = mc::Pick(4); mc::Cell<int> stage;
	mc::Th w([&]{ WriteAll(b, Seq(1, 1), d); stage = 1; switch (how) { case 0: WriteAll(b, Seq(2, 1), d); break; case 1: b.EndOfData(d); break; case 2: b.SetException(ArgumentException("x"), d); break; case 3: stage = 2; tok.Cancel(); break; } });
	b.WaitForData(2, tok);
	const size_t n = b.GetDataSize();
	MC_CHECK_MSG(n >= 2 || (how != 3 && b.HasEndOfDataOrException()) || (how == 3 && stage == 2), "woke up with %zu bytes (%d)", n, how);
	w.Join();
}
// end of data wakes a reader that found the buffer empty
MC_SCENARIO(eod_only, .Q(4)) { DataBuffer b(false, 2); DummyCancellationToken tok; Cons c; mc::Th w([&]{ b.EndOfData(tok); }); while (!c.eods) b.Read(c, tok); w.Join(); MC_CHECK(c.got.empty()); }
// a worker pumps a source into a buffer; everything arrives, then the end or the source's error; destruction ends a blocked worker
namespace
{
	struct Src : public virtual IDataSource
	{
		int pos, n, fail; Src(int n_, int f) : pos(0), n(n_), fail(f) { }
		void Read(IDataConsumer& c, const ICancellationToken& t) override
		{
			if (pos == n) { if (fail) throw ArgumentException("src"); c.EndOfData(t); return; }
			Bytes b = Seq(pos + 1, std::min(2, n - pos)); pos += (int)c.Process(b, t);
		}
	};
}
MC_SCENARIO(intermediate, .Q(2))
{
	const int fail = mc::Pick(2); DummyCancellationToken tok; Cons c; int thrown = 0;
	{
		IntermediateDataBuffer b("w", make_shared_ptr<Src>(3, fail), make_shared_ptr<DataBuffer>(false, (size_t)2));
		if (mc::Pick(2)) { b.Read(c, tok); } else while (!c.eods && !thrown) try { b.Read(c, tok); } catch (const std::exception& ex) { MC_CHECK_MSG(diagnostic_information(ex).find("Invalid argument") != std::string::npos, "another exception"); ++thrown; }
		if (c.eods || thrown) MC_CHECK_MSG(c.got == Seq(1, 3) && thrown == fail, "read %s", Str(c.got).c_str());
	}
	MC_CHECK(c.got == Seq(1, (int)c.got.size()));
}
