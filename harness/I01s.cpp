// I01: all single-threaded operation sequences on the circular buffers, the buffered stream and the mediator.
#include "../seq/seq.h"
#include "common.h"
#include <stingraykit/io/BithreadCircularBuffer.h>
#include <stingraykit/io/BufferedDataMediator.h>
#include <stingraykit/io/DataBuffer.h>
#include <stingraykit/io/MemoryCircularBuffer.h>
#include <stingraykit/thread/CancellationToken.h>
#include <stingraykit/thread/DummyCancellationToken.h>
#include <deque>
#include <memory>
#include <string.h>
using namespace stingray;

namespace
{
	typedef std::vector<u8> Bytes;
	typedef std::deque<u8> Q;
	std::string Str(ConstByteData d) { std::string s; for (size_t i = 0; i < d.size(); ++i) s += std::to_string(d.data()[i]) + " "; return s; }
	struct Gen { u8 next; Gen() : next(1) { } Bytes operator() (int n) { Bytes b; for (int i = 0; i < n; ++i) b.push_back(next++); return b; } };
	bool Same(ConstByteData d, const Q& q, size_t from, size_t n) { if (d.size() != n || from + n > q.size()) return false; for (size_t i = 0; i < n; ++i) if (d.data()[i] != q[from + i]) return false; return true; }
	template <bool Discard> void Circular(int depth, size_t cap)
	{
		typedef MemoryCircularBuffer<Discard> Buf;
		Buf b(cap); Q q; Gen gen; size_t locked = 0; CircularDataReserverPtr res; Bytes snap;
		if (const int rot = seq::Pick((int)cap)) { b.Push(ConstByteData(gen(rot))); b.Pop(); SEQ_CHECK(b.GetSize() == 0); } // start anywhere in the ring
		for (int step = 0; step < depth; ++step)
		{
			const int op = seq::Pick(4);
			if (op == 0)
			{
				const int n = 1 + seq::Pick((int)cap + 1); SEQ_LOG("push %d", n); const Bytes d = gen(n);
				const bool fits = (size_t)n <= cap - q.size(); SEQ_CHECK_MSG(b.CanPush(n) == fits, "CanPush(%d) with %zu of %zu used", n, q.size(), cap);
				bool thrown = false, full = false; try { b.Push(ConstByteData(d)); } catch (const BufferIsFullException&) { thrown = full = true; } catch (const std::exception&) { thrown = true; }
				if (fits) { SEQ_CHECK_MSG(!thrown, "refused %d bytes with %zu of %zu used", n, q.size(), cap); for (u8 x : d) q.push_back(x); }
				else if (!Discard) SEQ_CHECK_MSG(full, "no overflow reported");
				else if (locked) SEQ_CHECK_MSG(thrown, "overwrote data being read");
				else { SEQ_CHECK_MSG(!thrown, "refused in discarding mode"); for (u8 x : d) q.push_back(x); while (q.size() > cap) q.pop_front(); }
			}
			else if (op == 1)
			{
				const int n = seq::Pick(4); SEQ_LOG("pop %d", n);
				bool thrown = false; CircularDataReserverPtr r; try { r = n == 3 ? b.Pop() : b.Pop(n); } catch (const std::exception&) { thrown = true; }
				if (locked) { SEQ_CHECK_MSG(thrown, "popped twice at once"); continue; }
				SEQ_CHECK_MSG(!thrown, "pop refused"); const size_t want = n == 3 ? q.size() : std::min<size_t>(n, q.size()), got = r->GetData().size();
				SEQ_CHECK_MSG(got <= want && (got || !want) && Same(r->GetData(), q, 0, got), "popped '%s'", Str(r->GetData()).c_str());
				if (!got) { r.reset(); continue; }
				locked = got; res = r; snap.assign(r->GetData().begin(), r->GetData().end());
			}
			else if (op == 2) { if (!res) return; SEQ_LOG("release"); res.reset(); q.erase(q.begin(), q.begin() + locked); locked = 0; }
			else { SEQ_LOG("clear"); b.Clear(); q.erase(q.begin() + locked, q.end()); }
			if (res) SEQ_CHECK_MSG(std::equal(snap.begin(), snap.end(), res->GetData().begin()), "data being read was changed");
			SEQ_CHECK_MSG(b.GetSize() == q.size() && b.GetFreeSize() == cap - q.size() && b.GetStorageSize() == cap, "sizes %zu/%zu, expected %zu/%zu", b.GetSize(), b.GetFreeSize(), q.size(), cap - q.size());
			{ const auto all = b.GetAllData(); SEQ_CHECK_MSG(Same(ConstByteData(*all), q, 0, q.size()), "content '%s'", Str(ConstByteData(*all)).c_str()); }
			seq::Step();
		}
		res.reset(); q.erase(q.begin(), q.begin() + locked);
		while (!q.empty()) { CircularDataReserverPtr r = b.Pop(); const size_t n = r->GetData().size(); SEQ_CHECK(n && Same(r->GetData(), q, 0, n)); r.reset(); q.erase(q.begin(), q.begin() + n); SEQ_CHECK(b.GetSize() == q.size()); }
	}
}
SEQ_SCENARIO(circular1, .Q(6).T(8)) { Circular<false>(depth, 1); }
SEQ_SCENARIO(circular2, .Q(6).T(8)) { Circular<false>(depth, 2); }
SEQ_SCENARIO(circular3, .Q(5).T(7)) { Circular<false>(depth, 3); }
SEQ_SCENARIO(circular4, .Q(5).T(6)) { Circular<false>(depth, 4); }
SEQ_SCENARIO(discarding1, .Q(6).T(8)) { Circular<true>(depth, 1); }
SEQ_SCENARIO(discarding2, .Q(6).T(8)) { Circular<true>(depth, 2); }
SEQ_SCENARIO(discarding3, .Q(5).T(7)) { Circular<true>(depth, 3); }
SEQ_SCENARIO(discarding4, .Q(5).T(6)) { Circular<true>(depth, 4); }

SEQ_SCENARIO(bithread, .Q(7).T(9))
{
	const size_t cap = 1 + seq::Pick(4); const int own = seq::Pick(2); Gen gen; Q q; size_t rpos = 0, wpos = 0;
	Bytes storage(cap); std::unique_ptr<BithreadCircularBuffer> bp(own ? new BithreadCircularBuffer(BytesOwner(ByteData(storage), Token())) : new BithreadCircularBuffer(cap)); BithreadCircularBuffer& b = *bp;
	for (int step = 0; step < depth; ++step)
	{
		const int op = seq::Pick(3);
		if (op == 0)
		{
			BithreadCircularBuffer::Writer w0 = b.Write(), w(w0); const size_t n = w.size(), free = cap - q.size();
			SEQ_CHECK_MSG(n == std::min(free, cap - wpos), "offers %zu of %zu free at %zu", n, free, wpos); SEQ_CHECK(w.IsBufferEnd() == (wpos + n == cap)); SEQ_CHECK(w.GetData().size() == n && w.GetData().data() == w.data() && size_t(w.end() - w.begin()) == n);
			if (own && n) SEQ_CHECK(w.data() == &storage[wpos]);
			const int k = seq::Pick((int)n + 1); SEQ_LOG("write %d of %zu", k, n); const Bytes d = gen(k); if (k) memcpy(w.data(), &d[0], k); w.Push(k); SEQ_CHECK(w.size() == 0);
			for (u8 x : d) q.push_back(x); wpos = (wpos + k) % cap;
		}
		else if (op == 1)
		{
			BithreadCircularBuffer::Reader r(b.Read()); BithreadCircularBuffer::Reader r2(b.Read()); r2 = r; const size_t n = r2.size();
			SEQ_CHECK_MSG(n == std::min(q.size(), cap - rpos) && Same(r2.GetData(), q, 0, n), "offers '%s'", Str(r2.GetData()).c_str()); SEQ_CHECK(r.IsBufferEnd() == (rpos + n == cap)); SEQ_CHECK(size_t(r.end() - r.begin()) == n && r.data() == r2.data());
			const int k = seq::Pick((int)n + 1); SEQ_LOG("pop %d of %zu", k, n); r2.Pop(k); q.erase(q.begin(), q.begin() + k); rpos = (rpos + k) % cap;
		}
		else { SEQ_LOG("clear"); b.Clear(); q.clear(); rpos = wpos = 0; }
		SEQ_CHECK_MSG(b.GetDataSize() == q.size() && b.GetFreeSize() == cap - q.size() && b.GetTotalSize() == cap, "sizes %zu/%zu, expected %zu", b.GetDataSize(), b.GetFreeSize(), q.size());
		seq::Step();
	}
}

namespace
{
	struct Cons : public virtual IDataConsumer
	{
		Bytes got; int take, eods, calls; size_t chunk; Cons(int t) : take(t), eods(0), calls(0), chunk(0) { }
		size_t Process(ConstByteData d, const ICancellationToken&) override { ++calls; chunk = d.size(); const size_t n = take < 0 ? d.size() : std::min<size_t>(take, d.size()); got.assign(d.data(), d.data() + n); return n; }
		void EndOfData(const ICancellationToken&) override { ++eods; }
	};
	void Buffer(int depth, bool discard, size_t cap, size_t in, size_t out, size_t need)
	{
		DataBuffer b(discard, cap, DataBuffer::Parameters().SetInputPacketSize(in).SetOutputPacketSize(out).SetRequiredFreeSpace(need));
		CancellationToken dead; dead.Cancel(); DummyCancellationToken live; Gen gen; Q q; bool eod = false, exc = false; size_t lost = 0, lostModel = 0;
		Token t = b.OnOverflow().connect(vh::Fn<void (size_t)>([&](size_t n) { lost += n; }));
		if (const int rot = seq::Pick((int)(cap / std::max(in, out)))) { const Bytes d = gen(rot * (int)std::max(in, out) / (int)in * (int)in); b.Process(ConstByteData(d), dead); Cons c(-1); b.Read(c, dead); if (b.GetDataSize()) { Cons e(-1); b.Read(e, dead); } if (b.GetDataSize()) return; }
		for (int step = 0; step < depth; ++step)
		{
			const int op = seq::Pick(5);
			if (op == 0)
			{
				const int n = (int)in * (1 + seq::Pick((int)(cap / in) + 1)); SEQ_LOG("process %d", n); const Bytes d = gen(n); size_t got = 0; bool thrown = false;
				const size_t free = cap - q.size();
				try { got = b.Process(ConstByteData(d), dead); } catch (const std::exception&) { thrown = true; }
				if (eod || exc) { SEQ_CHECK_MSG(thrown, "accepted data after the end"); continue; }
				SEQ_CHECK(!thrown);
				const size_t stored = b.GetDataSize() - q.size();
				if (discard && stored == 0) { SEQ_CHECK_MSG(got == d.size(), "did not discard"); lostModel += got; SEQ_CHECK_MSG(free < in || free < need || b.GetFreeSize() < in + (cap % in), "discarded although there was room"); gen.next -= 0; }
				else { SEQ_CHECK_MSG(got == stored && got <= d.size() && got % in == 0, "took %zu, stored %zu of %zu", got, stored, d.size()); SEQ_CHECK_MSG(got || free < in || free < need, "refused with %zu free", free); SEQ_CHECK_MSG(!got || free >= need, "accepted below the required free space"); for (size_t i = 0; i < got; ++i) q.push_back(d[i]); gen.next = (u8)(gen.next - (d.size() - got)); }
			}
			else if (op == 1)
			{
				const int k = seq::Pick(3); Cons c(k == 2 ? -1 : (int)out * k); SEQ_LOG("read taking %d", c.take); bool thrown = false;
				try { b.Read(c, dead); } catch (const std::exception&) { thrown = true; }
				if (q.size() >= out) { SEQ_CHECK_MSG(!thrown && c.calls == 1 && !c.eods && c.chunk >= out && c.chunk % out == 0 && c.chunk <= q.size(), "chunk of %zu with %zu stored", c.chunk, q.size()); SEQ_CHECK_MSG(Same(ConstByteData(c.got), q, 0, c.got.size()), "read '%s'", Str(ConstByteData(c.got)).c_str()); q.erase(q.begin(), q.begin() + c.got.size()); }
				else { SEQ_CHECK_MSG(c.calls == 0 && thrown == exc && c.eods == (eod && !exc), "calls %d thrown %d end %d", c.calls, thrown, c.eods); }
			}
			else if (op == 2) { SEQ_LOG("end"); bool thrown = false; try { b.EndOfData(live); } catch (const std::exception&) { thrown = true; } SEQ_CHECK(thrown == exc); if (!thrown) eod = true; }
			else if (op == 3) { SEQ_LOG("exception"); bool thrown = false; try { b.SetException(ArgumentException("x"), live); } catch (const std::exception&) { thrown = true; } SEQ_CHECK(thrown == eod); if (!thrown) exc = true; }
			else { SEQ_LOG("clear"); b.Clear(); q.clear(); eod = exc = false; }
			SEQ_CHECK_MSG(b.GetDataSize() == q.size() && b.GetFreeSize() == cap - q.size() && b.GetStorageSize() == cap && b.HasEndOfDataOrException() == (eod || exc), "sizes %zu/%zu, expected %zu", b.GetDataSize(), b.GetFreeSize(), q.size());
			SEQ_CHECK_MSG(lost == lostModel, "%zu bytes reported lost, %zu were", lost, lostModel);
			seq::Step();
		}
	}
}
SEQ_SCENARIO(data_buffer, .Q(5).T(7)) { const int d = seq::Pick(2); Buffer(depth, d, 3, 1, 1, 0); }
SEQ_SCENARIO(data_buffer_packets, .Q(5).T(7)) { switch (seq::Pick(6)) { case 0: Buffer(depth, 0, 4, 2, 1, 0); break; case 1: Buffer(depth, 0, 4, 1, 2, 0); break; case 2: Buffer(depth, 1, 4, 2, 2, 0); break; case 3: Buffer(depth, 0, 3, 1, 1, 2); break; case 4: Buffer(depth, 1, 4, 1, 1, 3); break; case 5: Buffer(depth, 0, 6, 3, 2, 0); break; } }
SEQ_SCENARIO(data_buffer_bad, .Q(1).T(1))
{
	const int what = seq::Pick(5); bool thrown = false;
	try { DataBuffer b(false, 4, what == 0 ? DataBuffer::Parameters().SetInputPacketSize(3) : what == 1 ? DataBuffer::Parameters().SetOutputPacketSize(3) : what == 2 ? DataBuffer::Parameters().SetInputPacketSize(0) : what == 3 ? DataBuffer::Parameters().SetOutputPacketSize(0) : DataBuffer::Parameters().SetRequiredFreeSpace(5)); } catch (const std::exception&) { thrown = true; }
	SEQ_CHECK(thrown);
}
SEQ_SCENARIO(mediator, .Q(6).T(8))
{
	BufferedDataMediator m; DummyCancellationToken t; Gen gen; Q q; bool eod = false;
	struct C : public virtual IDataConsumer { Bytes got; int part, eods; C(int p) : part(p), eods(0) { } size_t Process(ConstByteData d, const ICancellationToken&) override { SEQ_CHECK(!eods); const size_t n = part ? std::min<size_t>(part, d.size()) : d.size(); got.insert(got.end(), d.begin(), d.begin() + n); return n; } void EndOfData(const ICancellationToken&) override { ++eods; } };
	for (int step = 0; step < depth; ++step)
	{
		const int op = seq::Pick(6);
		if (op < 3) { const Bytes d = gen(op); SEQ_CHECK(m.Process(ConstByteData(d), t) == d.size()); for (u8 x : d) q.push_back(x); }
		else if (op == 3) { m.EndOfData(t); eod = true; }
		else { C c(op - 4); m.Read(c, t); SEQ_CHECK_MSG(Same(ConstByteData(c.got), q, 0, q.size()) && c.eods == eod, "read '%s'", Str(ConstByteData(c.got)).c_str()); q.clear(); eod = false; }
		seq::Step();
	}
}
