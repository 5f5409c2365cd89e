// I04: a paged buffer used by a pusher, a reader and a third thread that pops or seeks.
#include "../mc/mc.h"
#include "common.h"
#include <stingraykit/io/PagedBuffer.h>
#include <stingraykit/log/Logger.h>
#include <stingraykit/thread/CancellationToken.h>
#include <stingraykit/thread/DummyCancellationToken.h>
#include <vector>
using namespace stingray;

namespace
{
	typedef std::vector<u8> Bytes;
	Bytes Seq(int from, int n) { Bytes b; for (int i = 0; i < n; ++i) b.push_back((u8)(from + i)); return b; }
	std::string Str(const Bytes& b) { std::string s; for (u8 x : b) s += std::to_string(x) + " "; return s; }
	struct Buf : public PagedBuffer
	{
		struct Page : public virtual IPage
		{
			size_t chunk; Mutex m; Bytes d; explicit Page(size_t c) : chunk(c) { }
			size_t Read(u64 offset, IDataConsumer& c, const ICancellationToken& t) override
			{
				Bytes copy; { MutexLock l(m); const size_t n = offset < d.size() ? (d.size() - offset) / chunk * chunk : 0; copy.assign(d.begin() + std::min<size_t>(offset, d.size()), d.begin() + std::min<size_t>(offset, d.size()) + n); }
				return copy.empty() ? 0 : c.Process(ConstByteData(copy), t);
			}
			size_t Write(u64 offset, ConstByteData data, const ICancellationToken&) override { MutexLock l(m); d.resize(offset); d.insert(d.end(), data.begin(), data.end()); return data.size(); }
		};
		Buf(size_t p, size_t c) : PagedBuffer("paged", p, c) { Logger::SetLogLevel(LogLevel::Silent); }
		IPagePtr CreatePage(size_t chunk) override { return make_shared_ptr<Page>(chunk); }
	};
	void PushSeq(Buf& b, int from, int n, const ICancellationToken& t) { const Bytes d = Seq(from, n); b.Push(ConstByteData(d), t); }
	// reads until `n` bytes were seen
	struct Reader
	{
		Bytes got;
		void Read(Buf& b, size_t limit, const ICancellationToken& t) { b.ReadToFunction([&](ConstByteData d, const ICancellationToken&) -> size_t { const size_t n = std::min(limit, d.size()); got.insert(got.end(), d.begin(), d.begin() + n); mc::Point(); return n; }, t); }
	};
}
MC_SCENARIO(push_read, .Q(3))
{
	const int page = 2 + mc::Pick(2), n = 5; Buf b(page, 1); DummyCancellationToken t; Reader r; const int first = 1 + mc::Pick(3);
	mc::Th w([&]{ PushSeq(b, 0, first, t); PushSeq(b, first, n - first, t); });
	while ((int)r.got.size() < n) { r.Read(b, 100, t); const u64 s = b.GetStorageSize(); MC_CHECK_MSG(s <= (u64)n, "size %d", (int)s); }
	w.Join(); MC_CHECK_MSG(r.got == Seq(0, n), "read %s", Str(r.got).c_str()); MC_CHECK(b.GetStorageSize() == (u64)n);
}
MC_SCENARIO(push_read_chunks, .Q(3))
{
	Buf b(4, 2); DummyCancellationToken t; Reader r;
	mc::Th w([&]{ PushSeq(b, 0, 3, t); PushSeq(b, 3, 4, t); PushSeq(b, 7, 1, t); });
	while (r.got.size() < 8) r.Read(b, 100, t);
	w.Join(); MC_CHECK_MSG(r.got == Seq(0, 8), "read %s", Str(r.got).c_str());
}
// the third thread drops bytes: the reader sees every byte it is still entitled to, in order, never a wrong one
MC_SCENARIO(push_read_pop, .Q(3))
{
	const int pop = 1 + mc::Pick(4); Buf b(2, 1); DummyCancellationToken t; Reader r; PushSeq(b, 0, 4, t);
	mc::Th p([&]{ b.Pop(pop); }); mc::Th w([&]{ PushSeq(b, 4, 1, t); });
	while (r.got.empty() || r.got.back() != 4) r.Read(b, 1, t);
	p.Join(); w.Join();
	for (size_t i = 0; i < r.got.size(); ++i)
	{
		if (r.got[i] >= pop) MC_CHECK_MSG(i ? r.got[i] == r.got[i - 1] + 1 || (r.got[i - 1] < pop && r.got[i] == pop) : r.got[i] == pop, "read %s with %d popped", Str(r.got).c_str(), pop);
		else MC_CHECK_MSG(i ? r.got[i] == r.got[i - 1] + 1 : r.got[i] == 0, "read %s with %d popped", Str(r.got).c_str(), pop);
	}
	MC_CHECK_MSG(b.GetStorageSize() == (u64)(5 - pop), "size %d after popping %d of 5", (int)b.GetStorageSize(), pop);
	mc::Outcome("%s", Str(r.got).c_str());
}
// popping pages the reader has passed never disturbs it
MC_SCENARIO(pop_behind, .Q(4))
{
	Buf b(2, 1); DummyCancellationToken t; Reader r; PushSeq(b, 0, 5, t); r.Read(b, 2, t); MC_CHECK(r.got == Seq(0, 2));
	mc::Th p([&]{ if (mc::Pick(2)) { b.Pop(1); b.Pop(1); } else b.Pop(2); });
	while (r.got.size() < 5) r.Read(b, 1, t);
	p.Join(); MC_CHECK_MSG(r.got == Seq(0, 5), "read %s", Str(r.got).c_str()); MC_CHECK(b.GetStorageSize() == 3);
	b.Seek(0); Reader q; while (q.got.size() < 3) q.Read(b, 100, t); MC_CHECK(q.got == Seq(2, 3));
}
MC_SCENARIO(seek_during_read, .Q(4))
{
	const int to = mc::Pick(4); Buf b(2, 1); DummyCancellationToken t; Reader r; PushSeq(b, 0, 8, t); r.Read(b, 1, t);
	mc::Th p([&]{ b.Seek(to); }); r.Read(b, 1, t); r.Read(b, 1, t); p.Join(); Reader q; q.Read(b, 1, t);
	// at some point between two reads the position became `to`
	bool ok = false; Bytes all = r.got; all.insert(all.end(), q.got.begin(), q.got.end());
	for (size_t k = 1; k <= all.size() && !ok; ++k) { bool m = true; for (size_t i = 0; i < all.size(); ++i) if (all[i] != (i < k ? (int)i : to + (int)(i - k))) m = false; ok = m; }
	MC_CHECK_MSG(ok, "read %s with a seek to %d", Str(all).c_str(), to); mc::Outcome("%d: %s", to, Str(all).c_str());
}
MC_SCENARIO(two_pushers, .Q(3))
{
	Buf b(3, 1); DummyCancellationToken t; Reader r;
	mc::Th w([&]{ PushSeq(b, 0, 4, t); }), v([&]{ PushSeq(b, 10, 3, t); });
	while (r.got.size() < 7) r.Read(b, 100, t);
	w.Join(); v.Join(); const Bytes x = Seq(0, 4), y = Seq(10, 3); Bytes xy = x, yx = y; xy.insert(xy.end(), y.begin(), y.end()); yx.insert(yx.end(), x.begin(), x.end());
	MC_CHECK_MSG(r.got == xy || r.got == yx, "read %s", Str(r.got).c_str());
}
// a cancelled pusher either pushed everything or nothing
MC_SCENARIO(cancel_push, .Q(4))
{
	Buf b(2, 1); DummyCancellationToken t; CancellationToken c; mc::Cell<int> cancelled;
	mc::Th w([&]{ PushSeq(b, 0, 3, t); }); mc::Th v([&]{ try { PushSeq(b, 10, 2, c); } catch (const OperationCancelledException&) { cancelled = 1; } });
	c.Cancel(); w.Join(); v.Join(); MC_CHECK(b.GetStorageSize() == (u64)(cancelled ? 3 : 5));
	Reader r; while (r.got.size() < b.GetStorageSize()) r.Read(b, 100, t);
	const Bytes all = r.got; MC_CHECK_MSG(cancelled ? all == Seq(0, 3) : std::count_if(all.begin(), all.end(), [](u8 x) { return x >= 10; }) == 2, "read %s", Str(all).c_str());
	mc::Outcome("%d", (int)cancelled);
}
// a cancelled reader that waits for data returns; two readers at once are refused
MC_SCENARIO(cancel_read, .Q(4))
{
	Buf b(2, 2); CancellationToken c; DummyCancellationToken t; Reader r; PushSeq(b, 0, 1, t);
	mc::Th v([&]{ while (c && r.got.empty()) try { r.Read(b, 100, c); } catch (const OperationCancelledException&) { } });
	if (mc::Pick(2)) { PushSeq(b, 1, 1, t); } c.Cancel(); v.Join();
	MC_CHECK(r.got.empty() || r.got == Seq(0, 2));
}
MC_SCENARIO(two_readers, .Q(4))
{
	Buf b(2, 1); DummyCancellationToken t; PushSeq(b, 0, 4, t); Reader r, q; mc::Cell<int> refused;
	mc::Th v([&]{ for (int i = 0; i < 2; ++i) try { q.Read(b, 1, t); } catch (const InvalidOperationException&) { ++refused; } });
	int mine = 0; for (int i = 0; i < 2; ++i) try { r.Read(b, 1, t); } catch (const InvalidOperationException&) { ++mine; }
	v.Join(); Bytes all = r.got; all.insert(all.end(), q.got.begin(), q.got.end()); std::sort(all.begin(), all.end());
	MC_CHECK_MSG(all == Seq(0, 4 - refused - mine), "read %s", Str(all).c_str()); mc::Outcome("%d", refused + mine);
}
