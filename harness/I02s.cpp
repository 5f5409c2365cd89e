// I02: all sequences of packet sizes, reads and refusals over small capacities.
#include "../seq/seq.h"
#include "common.h"
#include <stingraykit/io/PacketBuffer.h>
#include <stingraykit/log/Logger.h>
#include <stingraykit/thread/CancellationToken.h>
#include <stingraykit/thread/DummyCancellationToken.h>
#include <deque>
#include <vector>
using namespace stingray;

namespace
{
	typedef std::vector<u8> Bytes; typedef Packet<int> Pkt;
	struct P { Bytes data; int meta; };
	struct Cons : public virtual IPacketConsumer<int>
	{
		int mode; std::vector<P> got; int eods; const u8* where; Cons(int m) : mode(m), eods(0), where(0) { }
		bool Process(const Pkt& p, const ICancellationToken&) override
		{
			P x = { Bytes(p.GetData().data(), p.GetData().data() + p.GetSize()), p.GetMetadata() }; got.push_back(x);
			if (mode == 2) throw std::runtime_error("consumer failed");
			return mode == 0;
		}
		void EndOfData() override { ++eods; }
	};
	// layout of the ring: free run at the write position, padding at the end of storage
	struct Ring
	{
		size_t cap, r, w; bool contig; size_t pad; std::deque<P> q;
		Ring(size_t c) : cap(c), r(0), w(0), contig(true), pad(0) { }
		size_t Used() const { return contig ? w - r : cap - r + w; }
		void Push(size_t n) { w += n; if (w == cap) { w = 0; contig = !contig; } }
		void Pop(size_t n) { r += n; if (r == cap) { r = 0; contig = !contig; } }
		bool Put(const P& p)
		{
			if (q.empty()) { r = w = 0; contig = true; pad = 0; } // nothing is stored: everything is free
			const size_t run = contig ? cap - w : r - w, n = p.data.size(), padding = run < n && w + run == cap ? run : 0;
			if (cap - Used() < padding + n) return false;
			if (padding) { pad = padding; Push(padding); }
			Push(n); q.push_back(p); return true;
		}
		void SkipPad() { if (pad && r + pad == cap) { Pop(pad); pad = 0; } }
		void Take() { Pop(q.front().data.size()); q.pop_front(); }
	};
	void Run(int depth, bool discard, size_t cap)
	{
		Logger::SetLogLevel(LogLevel::Silent);
		PacketBuffer<int> b(discard, cap); Ring m(cap); bool eod = false; CancellationToken dead; dead.Cancel(); DummyCancellationToken live; int next = 1;
		for (int step = 0; step < depth; ++step)
		{
			const int op = seq::Pick(5);
			if (op == 0)
			{
				const int n = 1 + seq::Pick((int)cap + 1); SEQ_LOG("process %d", n); P p; p.meta = next; for (int i = 0; i < n; ++i) p.data.push_back((u8)(next * 10 + i)); ++next;
				bool thrown = false, ok = false; try { ok = b.Process(Pkt(ConstByteData(p.data), p.meta), dead); } catch (const std::exception&) { thrown = true; }
				SEQ_CHECK_MSG(thrown == (n > (int)cap), "a packet of %d bytes for %zu: thrown %d", n, cap, thrown); if (thrown) continue;
				const bool acc = m.Put(p);
				SEQ_CHECK_MSG(ok == (acc || discard), "a packet of %d bytes that %s was %s (%zu of %zu used)", n, acc ? "fits" : "does not fit", ok ? "accepted" : "refused", b.GetDataSize(), cap);
			}
			else if (op <= 3)
			{
				Cons c(op - 1); SEQ_LOG("read mode %d", op - 1); bool thrown = false; try { b.Read(c, dead); } catch (const std::exception&) { thrown = true; }
				if (m.q.empty()) { SEQ_CHECK_MSG(c.got.empty() && c.eods == eod && !thrown, "%zu packets from an empty buffer, end %d, thrown %d", c.got.size(), c.eods, thrown); if (op > 1) return; }
				else
				{
					m.SkipPad(); SEQ_CHECK_MSG(c.got.size() == 1 && !c.eods && thrown == (op == 3), "%zu packets, thrown %d", c.got.size(), thrown);
					SEQ_CHECK_MSG(c.got[0].data == m.q.front().data && c.got[0].meta == m.q.front().meta, "packet %d (%zu bytes) came out as packet %d with %zu bytes", m.q.front().meta, m.q.front().data.size(), c.got[0].meta, c.got[0].data.size());
					if (op == 1) m.Take();
				}
			}
			else if (seq::Flip()) { SEQ_LOG("end"); b.EndOfData(); eod = true; }
			else { SEQ_LOG("clear"); b.Clear(); m.q.clear(); eod = false; SEQ_CHECK(b.GetDataSize() == 0 && b.GetFreeSize() == cap); }
			SEQ_CHECK(b.GetStorageSize() == cap && b.GetDataSize() + b.GetFreeSize() == cap); size_t sum = 0; for (const P& p : m.q) sum += p.data.size(); SEQ_CHECK_MSG(b.GetDataSize() >= sum, "%zu bytes stored, %zu reported", sum, b.GetDataSize());
			seq::Step();
		}
		while (!m.q.empty()) { Cons c(0); b.Read(c, live); SEQ_CHECK_MSG(c.got.size() == 1 && c.got[0].data == m.q.front().data && c.got[0].meta == m.q.front().meta, "packet %d lost or altered", m.q.front().meta); m.q.pop_front(); }
		Cons c(0); b.EndOfData(); b.Read(c, live); SEQ_CHECK_MSG(c.got.empty() && c.eods == 1, "extra packet");
	}
}
SEQ_SCENARIO(cap2, .Q(6).T(8)) { Run(depth, seq::Flip(), 2); }
SEQ_SCENARIO(cap3, .Q(6).T(8)) { Run(depth, seq::Flip(), 3); }
SEQ_SCENARIO(cap4, .Q(6).T(8)) { Run(depth, seq::Flip(), 4); }
SEQ_SCENARIO(cap5, .Q(5).T(7)) { Run(depth, seq::Flip(), 5); }
