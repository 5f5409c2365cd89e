// I07: data adapters under every chunking and every consumer behaviour.
#include "../seq/seq.h"
#include "common.h"
#include <stingraykit/io/BufferedDataMediator.h>
#include <stingraykit/io/ByteArrayDataSource.h>
#include <stingraykit/io/ByteDataConsumer.h>
#include <stingraykit/io/ByteStreamDataSource.h>
#include <stingraykit/io/DataAligner.h>
#include <stingraykit/io/DataPacketer.h>
#include <stingraykit/io/DataSourceReader.h>
#include <stingraykit/io/DataUtils.h>
#include <stingraykit/io/MemoryByteStream.h>
#include <stingraykit/thread/CancellationToken.h>
#include <stingraykit/thread/DummyCancellationToken.h>
#include <vector>
using namespace stingray;

namespace
{
	typedef std::vector<u8> Bytes;
	Bytes Init(int n) { Bytes b; for (int i = 0; i < n; ++i) b.push_back((u8)(i + 1)); return b; }
	std::string Str(const Bytes& b) { std::string s; for (u8 x : b) s += std::to_string(x) + " "; return s; }
	struct Budget { int left; explicit Budget(int n) : left(n) { } int Pick(int n) { if (left <= 0) return 0; const int r = seq::Pick(n); if (r) --left; return r; } };
	// takes everything, or - a limited number of times - nothing, one byte, all but one; may cancel the token it is called with
	struct Cons : public virtual IDataConsumer
	{
		Bytes got; Budget& b; bool cancels; CancellationToken* tok; int eods, align; explicit Cons(Budget& b_, bool c = true) : b(b_), cancels(c), tok(0), eods(0), align(0) { }
		size_t Process(ConstByteData d, const ICancellationToken&) override
		{
			SEQ_CHECK_MSG(!eods, "data after the end of data"); SEQ_CHECK_MSG(!d.empty(), "empty chunk");
			if (align) SEQ_CHECK_MSG((got.size() + d.size()) % align == 0, "offered %zu bytes after %zu with alignment %d", d.size(), got.size(), align);
			const int how = b.Pick(cancels && tok ? 7 : 4), k = how % 4 == 3 && how > 3 ? 2 : how; size_t n = d.size(); bool cancel = how >= 4;
			switch (k) { case 1: case 4: n = 0; break; case 2: case 5: n = std::min<size_t>(1, n); break; case 3: n -= n > 1; break; }
			SEQ_LOG("offered %zu took %zu%s", d.size(), n, cancel ? " cancel" : "");
			got.insert(got.end(), d.begin(), d.begin() + n); if (cancel) tok->Cancel(); return n;
		}
		void EndOfData(const ICancellationToken&) override { SEQ_LOG("end"); SEQ_CHECK_MSG(++eods == 1, "end of data twice"); }
	};
	// offers its bytes in chunks of 1..3 bytes (or everything left), forgets only what was taken, then reports the end every time
	struct Src : public virtual IDataSource
	{
		Bytes d; size_t pos, min; bool chop; size_t sinceOffer; Src(const Bytes& b, bool c = true, size_t m = 1) : d(b), pos(0), min(m), chop(c), sinceOffer(0) { }
		void Read(IDataConsumer& c, const ICancellationToken& t) override
		{
			if (pos == d.size()) { c.EndOfData(t); return; }
			size_t n = d.size() - pos; if (chop && n > min) { const int k = seq::Pick(3); if (k) n = std::min(n, min * (size_t)k); }
			const Bytes copy(d.begin() + pos, d.begin() + pos + n); const size_t took = c.Process(ConstByteData(copy), t); SEQ_CHECK_MSG(took <= n, "took %zu of %zu", took, n); pos += took;
		}
	};
	STINGRAYKIT_DECLARE_PTR(Src);
	void Pump(IDataSource& s, Cons& c, int guard = 60) { while (!c.eods) { SEQ_CHECK_MSG(guard--, "no progress"); CancellationToken t; c.tok = &t; s.Read(c, t); c.tok = 0; seq::Step(); } }
	void Is(const Bytes& got, const Bytes& want) { SEQ_CHECK_MSG(got == want, "consumer got %s, expected %s", Str(got).c_str(), Str(want).c_str()); }
}
SEQ_SCENARIO(aligner, .Q(2).T(3).Split(5))
{
	const int a = 1 + seq::Pick(3), n = 1 + seq::Pick(6); Budget b(depth); Cons c(b); SrcPtr s = make_shared_ptr<Src>(Init(n)); DataAligner al(s, a); Cons* pc = &c; pc->align = a; Pump(al, c); Is(c.got, Init(n / a * a));
}
SEQ_SCENARIO(aligner_unbuffered, .Q(3).T(4))
{
	const int a = 1 + seq::Pick(3), n = a * (1 + seq::Pick(3)); Budget b(depth); Cons c(b); SrcPtr s = make_shared_ptr<Src>(Init(n), true, a); DataAligner al(s, a, false);
	for (int guard = 60; !c.eods && guard; --guard) { CancellationToken t; c.tok = &t; al.Read(c, t); c.tok = 0; if (s->d.size() - s->pos < (size_t)a && c.got.size() % a) s->min = 1; SEQ_CHECK(s->pos == c.got.size()); if (s->pos % a) return; }
	Is(c.got, Init(n));
}
SEQ_SCENARIO(packeter, .Q(3).T(4))
{
	const int k = seq::Pick(4), n = 6; Budget b(depth); SrcPtr s = make_shared_ptr<Src>(Init(n), true, std::max(k, 1)); DataPacketer p(s, k ? optional<size_t>(k) : null); Bytes got; int eods = 0; DummyCancellationToken t;
	for (int guard = 60; !eods; --guard)
	{
		SEQ_CHECK(guard); if (n - (int)s->pos < k && s->pos < (size_t)n) return;
		p.ReadToFunction([&](const Packet<EmptyType>& x, const ICancellationToken&) { SEQ_CHECK_MSG(!k || (int)x.GetSize() == k, "packet of %zu bytes", x.GetSize()); SEQ_CHECK(!eods); if (b.Pick(2)) return false; got.insert(got.end(), x.GetData().begin(), x.GetData().end()); return true; }, [&] { ++eods; }, t); seq::Step();
	}
	Is(got, Init(n)); SEQ_CHECK(eods == 1);
}
SEQ_SCENARIO(depacketer, .Q(4).T(5))
{
	const int k = 1 + seq::Pick(3), n = 6 / k * k; Budget b(depth); Cons c(b); SrcPtr s = make_shared_ptr<Src>(Init(n), false, k);
	if (seq::Flip()) { DataPacketer p(s, (size_t)k); DataDepacketer d(p); Pump(d, c); } else { DataDepacketer d(make_shared_ptr<DataPacketer>(s, (size_t)k)); Pump(d, c); }
	Is(c.got, Init(n));
}
SEQ_SCENARIO(consumer_packeters, .Q(4).T(5))
{
	const int k = 1 + seq::Pick(3); Budget b(depth); Cons c(b); ConsumerDepacketer dep(c); ConsumerPacketer pack(dep, (size_t)k); const Bytes all = Init(2 * k); size_t pos = 0;
	for (int guard = 60; pos < all.size(); --guard) { SEQ_CHECK(guard); CancellationToken t; c.tok = &t; const Bytes rest(all.begin() + pos, all.end()); const size_t took = pack.Process(ConstByteData(rest), t); SEQ_CHECK_MSG(took == 0 || took == (size_t)k, "took %zu with packets of %d", took, k); pos += took; c.tok = 0; SEQ_CHECK(c.got.size() >= pos); seq::Step(); }
	pack.EndOfData(DummyCancellationToken()); SEQ_CHECK(c.eods == 1); Is(c.got, all);
}
SEQ_SCENARIO(intercepting, .Q(3).T(4))
{
	Budget b(depth); Cons c(b); SrcPtr s = make_shared_ptr<Src>(Init(4)); Bytes seen; int ends = 0;
	const auto see = vh::Fn<void (ConstByteData, const ICancellationToken&)>([&](ConstByteData d, const ICancellationToken&) { seen.insert(seen.end(), d.begin(), d.end()); SEQ_CHECK(seen == c.got); }); const auto end = vh::Fn<void (const ICancellationToken&)>([&](const ICancellationToken&) { ++ends; SEQ_CHECK(c.eods == 1); });
	if (seq::Flip()) { InterceptingDataSource i(s, see, end); Pump(i, c); }
	else { InterceptingDataConsumer i(c, see, end); for (int guard = 60; !c.eods; --guard) { SEQ_CHECK(guard); CancellationToken t; c.tok = &t; s->Read(i, t); c.tok = 0; } }
	Is(c.got, Init(4)); Is(seen, c.got); SEQ_CHECK(ends == 1);
}
SEQ_SCENARIO(sources, .Q(3).T(4))
{
	Budget b(depth); Cons c(b); const Bytes all = Init(seq::Pick(5)); shared_ptr<IDataSource> s;
	switch (seq::Pick(3)) { case 0: s = make_shared_ptr<ByteArrayDataSource>(ConstByteArray(ConstByteData(all))); break; case 1: s = make_shared_ptr<ByteStreamDataSource>(CreateMemoryByteStream(ConstByteArray(ConstByteData(all))), (size_t)(1 + seq::Pick(3))); break; case 2: s = make_shared_ptr<ReactiveDataSource>(make_shared_ptr<Src>(all)); break; }
	Pump(*s, c); Is(c.got, all);
}
SEQ_SCENARIO(stream_source_seek, .Q(3).T(4)) { const Bytes all = Init(4); ByteStreamDataSource s(CreateMemoryByteStream(ConstByteArray(ConstByteData(all))), 2); Budget b(depth); for (int i = 0; i < depth; ++i) { const int to = seq::Pick(5); s.Seek(to); SEQ_CHECK((int)s.Tell() == to); Budget none(0); Cons c(none); DummyCancellationToken t; s.Read(c, t); const int n = std::min(2, 4 - to); Is(c.got, Bytes(all.begin() + to, all.begin() + to + n)); SEQ_CHECK(c.eods == (n == 0) && (int)s.Tell() == to + n); } }
SEQ_SCENARIO(reader, .Q(6).T(8)) { const Bytes all = Init(seq::Pick(depth)); DataSourceReader r(make_shared_ptr<Src>(all)); const ByteArray got = r.ReadToEnd(DummyCancellationToken()); Is(Bytes(got.begin(), got.end()), all); }
SEQ_SCENARIO(mediator, .Q(2).T(3))
{
	BufferedDataMediator m; Budget b(depth); Cons c(b); Bytes all; DummyCancellationToken t; int sent = 0;
	for (int i = 0; i < 6 && sent < 6; ++i) { if (seq::Flip()) { Bytes x; for (int n = 1 + seq::Pick(2); n--; ) x.push_back((u8)++sent); SEQ_CHECK(m.Process(ConstByteData(x), t) == x.size()); all.insert(all.end(), x.begin(), x.end()); } else { CancellationToken k; c.tok = &k; m.Read(c, k); c.tok = 0; SEQ_CHECK(!c.eods); } seq::Step(); }
	m.EndOfData(t); Pump(m, c); Is(c.got, all);
}
SEQ_SCENARIO(taker, .Q(3).T(4))
{
	const int n = 5; const size_t count = seq::Pick(7); Budget b(depth); Cons c(b); SrcPtr s = make_shared_ptr<Src>(Init(n)); DataTaker k(s, count); const size_t want = std::min<size_t>(count, n);
	for (int guard = 60; c.got.size() < want; --guard) { SEQ_CHECK(guard); CancellationToken t; c.tok = &t; k.Read(c, t); c.tok = 0; seq::Step(); }
	Is(c.got, Init((int)want)); SEQ_CHECK_MSG(s->pos == want, "took %zu bytes of the source for %zu", s->pos, want); DummyCancellationToken t; k.Read(c, t); Is(c.got, Init((int)want)); SEQ_CHECK(c.eods == (count > (size_t)n));
}
SEQ_SCENARIO(skipper, .Q(3).T(4))
{
	const int n = 5; const size_t count = seq::Pick(7); Budget b(depth); Cons c(b); SrcPtr s = make_shared_ptr<Src>(Init(n)); DataSkipper k(s, count, true); Pump(k, c);
	const Bytes all = Init(n); Is(c.got, Bytes(all.begin() + std::min<size_t>(count, n), all.end()));
}
SEQ_SCENARIO(skip_then_read, .Q(3).T(4))
{
	const size_t count = seq::Pick(4); Budget none(0); Cons c(none); SrcPtr s = make_shared_ptr<Src>(Init(4)); SkippingConsumer k(c, count); DummyCancellationToken t; for (int guard = 20; k.GetLeftToSkip(); --guard) { SEQ_CHECK(guard); s->Read(k, t); } SEQ_CHECK(s->pos == count && c.got.empty()); Pump(*s, c); const Bytes all = Init(4); Is(c.got, Bytes(all.begin() + count, all.end()));
}
SEQ_SCENARIO(destination, .Q(3).T(4))
{
	const int n = seq::Pick(5); Bytes dst(n + 2, 0xEE); ByteDataConsumer c(ByteData(ByteData(dst), 1, n)); int total = 0; DummyCancellationToken t;
	for (int i = 0; i < depth; ++i) { Bytes x; for (int k = seq::Pick(4); k--; ) x.push_back((u8)++total); SEQ_CHECK(c.Process(ConstByteData(x), t) == x.size()); SEQ_CHECK(dst[0] == 0xEE && dst[n + 1] == 0xEE); for (int j = 0; j < n; ++j) SEQ_CHECK(dst[1 + j] == (j < total ? j + 1 : 0xEE)); }
}
// adapters stacked on adapters
SEQ_SCENARIO(stacked, .Q(2).T(3))
{
	Budget b(depth); Cons c(b); SrcPtr s = make_shared_ptr<Src>(Init(6)); const int k = seq::Pick(3); const auto see = vh::Fn<void (ConstByteData, const ICancellationToken&)>([](ConstByteData, const ICancellationToken&) { }); const auto end = vh::Fn<void (const ICancellationToken&)>([](const ICancellationToken&) { });
	shared_ptr<IDataSource> al = make_shared_ptr<DataAligner>(k ? shared_ptr<IDataSource>(make_shared_ptr<InterceptingDataSource>(s, see, end)) : shared_ptr<IDataSource>(s), (size_t)2);
	if (k == 2) { const shared_ptr<DataPacketer> p = make_shared_ptr<DataPacketer>(al, (size_t)2); DataDepacketer d(p); Pump(d, c); } else { ReactiveDataSource r(al); Pump(r, c); }
	Is(c.got, Init(6));
}
