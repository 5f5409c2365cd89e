// I04: all push/read/pop/seek sequences over tiny pages, also from inside a running read.
#include "../seq/seq.h"
#include "common.h"
#include <stingraykit/io/PagedBuffer.h>
#include <stingraykit/log/Logger.h>
#include <stingraykit/thread/CancellationToken.h>
#include <stingraykit/thread/DummyCancellationToken.h>
#include <set>
#include <vector>
using namespace stingray;

namespace
{
	typedef std::vector<u8> Bytes;
	u8 Val(u64 i) { return (u8)(i * 37 + 11); }
	struct Buf : public PagedBuffer
	{
		struct Page : public virtual IPage
		{
			Buf& owner; size_t chunk; bool whole; Bytes d; Page(Buf& o, size_t c, bool w) : owner(o), chunk(c), whole(w) { }
			size_t Read(u64 offset, IDataConsumer& c, const ICancellationToken& t) override
			{
				size_t done = 0;
				for (;;)
				{
					SEQ_CHECK_MSG(offset + done <= d.size(), "page read at %d of %zu bytes", (int)offset, d.size());
					size_t n = (d.size() - offset - done) / chunk * chunk; if (!n) return done; if (!whole) n = chunk;
					const Bytes copy(d.begin() + offset + done, d.begin() + offset + done + n); const size_t took = c.Process(ConstByteData(copy), t); done += took; if (took < n || whole) return done;
				}
			}
			size_t Write(u64 offset, ConstByteData data, const ICancellationToken&) override
			{
				SEQ_CHECK_MSG(offset <= d.size(), "page write of %zu at %d of %zu bytes", data.size(), (int)offset, d.size());
				SEQ_CHECK_MSG(offset + data.size() <= owner.pageSize, "page overflow");
				const size_t n = data.size(); if (owner.failWrite > 0 && !--owner.failWrite) { if (owner.whole) return 0; STINGRAYKIT_THROW(InputOutputException("scripted")); }
				d.resize(offset); d.insert(d.end(), data.begin(), data.begin() + n); return n;
			}
		};
		size_t pageSize; bool whole; int failWrite; int created;
		Buf(size_t p, size_t c, bool w) : PagedBuffer("paged", p, c), pageSize(p), whole(w), failWrite(0), created(0) { }
		IPagePtr CreatePage(size_t chunk) override { ++created; return make_shared_ptr<Page>(*this, chunk, whole); }
	};
	struct Model
	{
		size_t page, chunk; Buf b; u64 S, E; std::set<u64> P; DummyCancellationToken live; CancellationToken dead;
		Model(size_t p, size_t c, bool w) : page(p), chunk(c), b(p, c, w), S(0), E(0) { Logger::SetLogLevel(LogLevel::Silent); P.insert(0); dead.Cancel(); }
		void CheckSize() { SEQ_CHECK_MSG(b.GetStorageSize() == E - S, "reported size %d, %d bytes are in the window", (int)b.GetStorageSize(), (int)(E - S)); }
		void Push(size_t n, int fault = 0)
		{
			Bytes d; for (size_t i = 0; i < n; ++i) d.push_back(Val(E + i)); bool failed = false;
			b.failWrite = fault;
			try { b.Push(ConstByteData(d), live); } catch (const InputOutputException&) { failed = true; }
			SEQ_LOG("push %zu%s", n, failed ? " failed" : "");
			SEQ_CHECK_MSG(!failed || fault, "push of %zu bytes failed", n); b.failWrite = 0;
			if (failed) { const u64 e = S + b.GetStorageSize(); SEQ_CHECK_MSG(e >= E && e <= E + n, "after a failed push the window grew by %d", (int)(e - E)); E = e; } else E += n;
			CheckSize();
		}
		void Pop(size_t n)
		{
			SEQ_LOG("pop %zu", n); bool refused = false; try { b.Pop(n); } catch (const std::exception&) { refused = true; }
			SEQ_CHECK_MSG(refused == (n > E - S || n % chunk), "pop of %zu of %d bytes was %s", n, (int)(E - S), refused ? "refused" : "accepted");
			if (!refused) { S += n; std::set<u64> q; for (u64 p : P) q.insert(std::max(p, S)); P = q; }
			CheckSize();
		}
		void Seek(size_t o)
		{
			SEQ_LOG("seek %zu", o); bool refused = false; try { b.Seek(o); } catch (const std::exception&) { refused = true; }
			SEQ_CHECK_MSG(refused == (o > E - S || o % chunk), "seek to %zu of %d bytes was %s", o, (int)(E - S), refused ? "refused" : "accepted");
			if (!refused) { P.clear(); P.insert(S + o); }
			CheckSize();
		}
		// one read; the consumer takes up to `take` bytes of the first block offered (everything of the others until then), after running `inside`
		template <typename F> void Read(size_t take, bool cancel, const F& inside)
		{
			bool can = false, must = true; for (u64 p : P) if (E - p >= chunk) can = true; else must = false;
			if (P.size() > 1 && can && !must) { u64 p = *P.begin(); Seek((size_t)(p - S)); can = must = E - p >= chunk; } // undetermined position: settle it
			CancellationToken tok; const ICancellationToken& t = can ? (const ICancellationToken&)tok : dead; size_t got = 0; int calls = 0; u64 at = 0; std::set<u64> before = P; bool touched = false, stopped = false; bool cancelled = false;
			try
			{
				b.ReadToFunction([&](ConstByteData d, const ICancellationToken&) -> size_t
				{
					SEQ_CHECK_MSG(!stopped, "offered more although the consumer took less"); SEQ_CHECK_MSG(!d.empty() && d.size() % chunk == 0, "offered %zu bytes", d.size());
					if (!calls++) { bool found = false; for (u64 p : before) if (Val(p) == d[0]) { at = p; found = true; } SEQ_CHECK_MSG(found, "read of a byte that is not at the current position"); P.clear(); P.insert(at); }
					SEQ_CHECK_MSG(at + got + d.size() <= E, "read past the data pushed");
					for (size_t i = 0; i < d.size(); ++i) SEQ_CHECK_MSG(d[i] == Val(at + got + i), "byte %d of the window is wrong", (int)(at + got + i));
					SEQ_LOG("read %zu at %d", d.size(), (int)at);
					if (calls == 1) touched = inside();
					const size_t n = std::min(take - got, d.size()); got += n; stopped = n < d.size(); if (cancel) tok.Cancel(); return n;
				}, t);
			}
			catch (const OperationCancelledException&) { cancelled = true; SEQ_CHECK(cancel); }
			SEQ_CHECK_MSG((calls > 0) == can, "read %s with data %savailable", calls ? "delivered" : "returned nothing", can ? "" : "not ");
			if (!calls) return;
			const u64 adv = at + got / chunk * chunk;
			if (!touched) { if (cancelled) P.insert(std::max(S, adv)); else { P.clear(); P.insert(std::max(S, adv)); } }
			else { std::set<u64> q = P; if (q.count(at) || q.count(S)) q.insert(std::max(S, adv)); P = q; }
			CheckSize();
		}
		void Drain()
		{
			if (P.size() == 1) for (u64 p = *P.begin(); E - p >= chunk; p = *P.begin()) { Read(1000, false, []{ return false; }); SEQ_CHECK_MSG(*P.begin() > p, "read does not advance"); }
			Seek(0); for (u64 p = *P.begin(); E - p >= chunk; p = *P.begin()) { Read(1000, false, []{ return false; }); SEQ_CHECK_MSG(*P.begin() > p, "read does not advance"); }
			Read(1000, false, []{ return false; });
		}
	};
	struct Cfg { size_t page, chunk; }; const Cfg cfgs[] = { { 2, 1 }, { 3, 1 }, { 4, 2 }, { 1, 1 }, { 2, 2 } };
	size_t PickUpTo(u64 n, size_t chunk) { return chunk * seq::Pick((int)(n / chunk) + 1); }
}
SEQ_SCENARIO(sequences, .Q(4).T(5).Split(5))
{
	const Cfg& c = cfgs[seq::Pick(5)]; Model m(c.page, c.chunk, seq::Flip());
	for (int i = 0; i < depth; ++i)
	{
		switch (seq::Pick(i ? 4 : 1))
		{
		case 0: m.Push(seq::Pick((int)(2 * c.page + (i ? 2 : 6)))); break;
		case 1: m.Read(seq::Flip() ? 1000 : seq::Pick(2) * c.chunk + 1, false, []{ return false; }); break;
		case 2: m.Pop(PickUpTo(m.E - m.S, c.chunk)); break;
		case 3: m.Seek(PickUpTo(m.E - m.S, c.chunk)); break;
		}
		seq::Step(); seq::State(seq::Hash().Add(c.page * 8 + c.chunk).Add(m.S % c.page).Add(m.E - m.S).Add(*m.P.begin() - m.S));
	}
	m.Drain();
}
// arguments out of the window or not whole chunks are refused and change nothing
SEQ_SCENARIO(refusals, .Q(2).T(3))
{
	const Cfg& c = cfgs[seq::Pick(5)]; Model m(c.page, c.chunk, true); m.Push(seq::Pick(9)); m.Pop(PickUpTo(m.E - m.S, c.chunk)); m.Seek(PickUpTo(m.E - m.S, c.chunk));
	for (int i = 0; i < depth; ++i)
		switch (seq::Pick(3)) { case 0: m.Pop(seq::Pick(12)); break; case 1: m.Seek(seq::Pick(12)); break; case 2: m.Push(seq::Pick(4)); break; }
	m.Drain();
}
// push, pop or seek while a consumer is being fed
SEQ_SCENARIO(during_read, .Q(1).T(2).Split(6))
{
	const Cfg& c = cfgs[seq::Pick(3)]; Model m(c.page, c.chunk, seq::Flip()); m.Push(c.page + seq::Pick((int)c.page * 2)); m.Pop(PickUpTo(std::min<u64>(m.E - m.S, c.page), c.chunk)); m.Seek(PickUpTo(m.E - m.S, c.chunk));
	for (int i = 0; i < depth; ++i)
	{
		const int what = seq::Pick(5); const bool twice = seq::Flip();
		m.Read(seq::Flip() ? 1000 : c.chunk, what == 4, [&]
		{
			bool touched = false;
			for (int k = 0; k < 1 + twice; ++k) switch (k ? seq::Pick(3) : what)
			{
			case 0: m.Push(1 + seq::Pick((int)c.page + 1)); break;
			case 1: { const u64 before = *m.P.begin(); m.Pop(PickUpTo(m.E - m.S, c.chunk)); if (before < m.S) touched = true; } break;
			case 2: m.Seek(PickUpTo(m.E - m.S, c.chunk)); touched = true; break;
			}
			return touched;
		});
		seq::Step();
	}
	m.Drain();
}
// a page that fails to store everything: the push fails, what is in the window stays right
SEQ_SCENARIO(write_faults, .Q(2).T(3))
{
	const Cfg& c = cfgs[seq::Pick(5)]; Model m(c.page, c.chunk, seq::Flip()); m.Push(seq::Pick((int)c.page * 2));
	for (int i = 0; i < depth; ++i)
		switch (seq::Pick(3)) { case 0: m.Push(1 + seq::Pick((int)c.page * 2 + 1), seq::Pick(4)); break; case 1: m.Read(1000, false, []{ return false; }); break; case 2: m.Pop(PickUpTo(m.E - m.S, c.chunk)); break; }
	m.Push(3); m.Drain();
}
