// I06: byte streams against an ordinary file.
#include "../seq/seq.h"
#include "common.h"
#include <stingraykit/io/BufferedStream.h>
#include <stingraykit/io/ByteStreamWithOffset.h>
#include <stingraykit/io/ByteStreamWithOffsetAndSize.h>
#include <stingraykit/io/ChunkedMemoryByteStream.h>
#include <stingraykit/io/MemoryByteStream.h>
#include <stingraykit/thread/DummyCancellationToken.h>
#include <list>
#include <vector>
using namespace stingray;

namespace
{
	typedef std::vector<u8> Bytes;
	std::string Str(const Bytes& b) { std::string s; for (u8 x : b) s += std::to_string(x) + " "; return s; }
	// the reference: a file of limited or unlimited size; `touched` remembers what was accessed
	struct File : public virtual IByteStream
	{
		Bytes d; u64 pos; bool past, failNextWrite; size_t shortBy; size_t lo, hi; u64 maxSize; // lo..hi: the only bytes that may be accessed
		File(const Bytes& b, bool p = false) : d(b), pos(0), past(p), failNextWrite(false), shortBy(0), lo(0), hi(1000), maxSize(1000) { }
		u64 Read(ByteData data, const ICancellationToken&) override
		{
			size_t n = pos >= d.size() ? 0 : std::min<size_t>(data.size(), d.size() - pos); if (shortBy && n > shortBy) n = shortBy;
			SEQ_CHECK_MSG(!n || (pos >= lo && pos + n <= hi), "read outside of the window: %d..%d", (int)pos, (int)(pos + n));
			std::copy(d.begin() + pos, d.begin() + pos + n, data.data()); pos += n; return n;
		}
		u64 Write(ConstByteData data, const ICancellationToken&) override
		{
			if (failNextWrite) { failNextWrite = false; STINGRAYKIT_THROW(InputOutputException("scripted")); }
			size_t n = std::min<size_t>(data.size(), maxSize - std::min(maxSize, pos)); if (shortBy && n > shortBy) n = shortBy;
			SEQ_CHECK_MSG(!n || (pos >= lo && pos + n <= hi), "write outside of the window: %d..%d", (int)pos, (int)(pos + n));
			if (n && d.size() < pos + n) d.resize(pos + n); std::copy(data.begin(), data.begin() + n, d.begin() + pos); pos += n; return n;
		}
		void Seek(s64 offset, SeekMode mode) override
		{
			const s64 p = mode == SeekMode::Begin ? offset : mode == SeekMode::Current ? (s64)pos + offset : (s64)d.size() + offset;
			if (p < 0 || (!past && p > (s64)d.size())) STINGRAYKIT_THROW(IndexOutOfRangeException()); pos = (u64)p;
		}
		u64 Tell() const override { return pos; }
	};
	STINGRAYKIT_DECLARE_PTR(File);
	struct Traits
	{
		bool readonly, extends, endThrows, emptyWriteThrows, partial, fullThrows, past, emptySeekThrows, lazySeek; s64 end; // end: where SeekMode::End starts, -1: the size
		Traits() : readonly(false), extends(true), endThrows(false), emptyWriteThrows(false), partial(false), fullThrows(false), past(false), emptySeekThrows(false), lazySeek(false), end(-1) { }
	};
	struct Driver
	{
		IByteStream& s; Bytes d; s64 pos; Traits t; int next; DummyCancellationToken tok;
		Driver(IByteStream& s_, const Bytes& d_, const Traits& t_) : s(s_), d(d_), pos(0), t(t_), next(100) { }
		void CheckPos(const char* op) { SEQ_CHECK_MSG((s64)s.Tell() == pos, "after %s: position %d, expected %d", op, (int)s.Tell(), (int)pos); }
		size_t Read(size_t n)
		{
			Bytes b(n, 0xEE); size_t got = 0; bool thrown = false; try { got = (size_t)s.Read(ByteData(b), tok); } catch (const std::exception&) { thrown = true; }
			const size_t avail = pos >= (s64)d.size() ? 0 : std::min<size_t>(n, d.size() - (size_t)pos); SEQ_LOG("read %zu", n);
			if (t.endThrows && pos == (s64)d.size()) { SEQ_CHECK(thrown || got == 0); return 0; }
			SEQ_CHECK_MSG(!thrown, "reading %zu at %d of %zu failed", n, (int)pos, d.size());
			SEQ_CHECK_MSG(t.partial ? got <= avail && (got > 0) == (avail > 0) : got == avail, "read %zu of %zu bytes at %d of %zu", got, n, (int)pos, d.size());
			for (size_t i = 0; i < got; ++i) SEQ_CHECK_MSG(b[i] == d[(size_t)pos + i], "byte %d is %d, expected %d", (int)pos + (int)i, b[i], d[(size_t)pos + i]);
			for (size_t i = got; i < n; ++i) SEQ_CHECK_MSG(b[i] == 0xEE, "more bytes were stored than reported");
			pos += (s64)got; CheckPos("read"); return got;
		}
		void Write(size_t n, bool mayFail = false)
		{
			Bytes b; for (size_t i = 0; i < n; ++i) b.push_back((u8)next++);
			size_t put = 0; bool thrown = false; try { put = (size_t)s.Write(ConstByteData(b), tok); } catch (const std::exception&) { thrown = true; } SEQ_LOG("write %zu%s", n, thrown ? " failed" : "");
			const size_t room = t.extends ? n : std::min<size_t>(n, (size_t)std::max<s64>((t.end >= 0 ? t.end : (s64)d.size()) - pos, 0));
			const bool must = t.readonly || (t.emptyWriteThrows && !n) || (t.fullThrows && !(t.end - pos));
			if (must || (thrown && mayFail) || (thrown && t.lazySeek && pos > (s64)d.size())) { SEQ_CHECK_MSG(thrown || !put, "a write that has no place was accepted"); CheckPos("a failed write"); return; }
			SEQ_CHECK_MSG(!thrown, "writing %zu at %d of %zu failed", n, (int)pos, d.size());
			SEQ_CHECK_MSG(t.partial ? put <= room && (put > 0) == (room > 0) : put == room, "wrote %zu of %zu bytes at %d of %zu", put, n, (int)pos, d.size());
			if (put && d.size() < (size_t)pos + put) d.resize((size_t)pos + put); std::copy(b.begin(), b.begin() + put, d.begin() + pos); pos += (s64)put; CheckPos("write");
		}
		void Seek(s64 to, int mode)
		{
			const s64 end = t.end >= 0 ? t.end : (s64)d.size(); bool thrown = false; SEQ_LOG("seek %d mode %d", (int)to, mode);
			try { if (mode == 0) s.Seek(to); else if (mode == 1) s.Seek(to - pos, SeekMode::Current); else s.Seek(to - end, SeekMode::End); } catch (const std::exception&) { thrown = true; }
			const bool bad = to < 0 || (!t.past && to > (s64)d.size()) || (t.end >= 0 && to > t.end);
			if (t.emptySeekThrows && d.empty()) { SEQ_CHECK(thrown); CheckPos("refused seek"); return; }
			if (bad && t.lazySeek && to > 0 && !thrown) { pos = to; CheckPos("seek"); return; }
			SEQ_CHECK_MSG(thrown == bad, "seek to %d of %zu (mode %d) was %s", (int)to, d.size(), mode, thrown ? "refused" : "accepted");
			if (!thrown) pos = to; CheckPos(thrown ? "refused seek" : "seek");
		}
		void Op()
		{
			const int k = seq::Pick(3);
			if (k == 0) Read(seq::Pick(4)); else if (k == 1) Write(seq::Pick(4));
			else { const s64 end = t.end >= 0 ? t.end : (s64)d.size(); const s64 at[] = { 0, pos + 1, (s64)d.size(), end + 1, -1, pos - 1, 1 }; const int w = seq::Pick(7); Seek(at[w], seq::Pick(3)); }
			seq::Step(); seq::State(seq::Hash().Add(pos).Add(d.size()).Add(d.data(), d.size()));
		}
		void Slim() { const int k = seq::Pick(7); if (k < 2) Read(1 + 2 * k); else if (k < 4) Write(1 + 2 * (k - 2)); else Seek(k == 4 ? 0 : k == 5 ? pos + 1 : (s64)d.size(), k - 4); seq::Step(); seq::State(seq::Hash().Add(pos).Add(d.size()).Add(d.data(), d.size())); }
		void Run(int depth) { CheckPos("construction"); if (depth < 0) for (int i = 0; i < -depth; ++i) Slim(); else for (int i = 0; i < depth; ++i) Op(); }
		void Drain() { if (!(t.emptySeekThrows && d.empty())) Seek(0, 0); for (int i = 0; i < 200 && pos < (s64)d.size(); ++i) Read(3); SEQ_CHECK(pos == (s64)d.size()); Read(2); }
	};
	Bytes Init(int n) { Bytes b; for (int i = 0; i < n; ++i) b.push_back((u8)(i + 1)); return b; }
}
SEQ_SCENARIO(memory_bytearray, .Q(3).T(4)) { const Bytes b = Init(2 * seq::Pick(2)); MemoryByteStream<ByteArray> s((ByteArray(ConstByteData(b)))); Driver d(s, b, Traits()); d.Run(depth); const ByteArray r = s.GetData(); SEQ_CHECK(Bytes(r.begin(), r.end()) == d.d); d.Drain(); }
SEQ_SCENARIO(memory_fixed, .Q(4).T(5))
{
	const Bytes b = Init(3); Bytes store = b; store.push_back(77); store.insert(store.begin(), 66); Traits t; t.extends = false; MemoryByteStream<ByteData> s(ByteData(ByteData(store), 1, 3)); Driver d(s, b, t); d.Run(depth);
	SEQ_CHECK(store.front() == 66 && store.back() == 77 && std::equal(d.d.begin(), d.d.end(), store.begin() + 1)); d.Drain();
}
SEQ_SCENARIO(memory_const, .Q(3).T(4)) { const Bytes b = Init(3); Traits t; t.readonly = true; const IByteStreamPtr s = seq::Flip() ? CreateMemoryByteStream(ConstByteData(b)) : CreateMemoryByteStream(ConstByteArray(ConstByteData(b))); Driver d(*s, b, t); d.Run(depth); d.Drain(); }
static void Chunked(int depth)
{
	typedef ChunkedMemoryByteStream<ByteArray> S; const shared_ptr<std::vector<ByteArray> > c = make_shared_ptr<std::vector<ByteArray> >(); Bytes all; const int shapes[][3] = { { 0, 0, 0 }, { 1, 0, 0 }, { 2, 1, 0 }, { 1, 1, 2 }, { 2, -1, 2 }, { -1, 2, -1 } };
	for (int n : shapes[seq::Pick(6)]) if (n) { ByteArray x(std::max(n, 0)); for (int i = 0; i < n; ++i) { x[i] = (u8)(all.size() + 1); all.push_back((u8)(all.size() + 1)); } c->push_back(x); }
	Traits t; t.endThrows = t.emptyWriteThrows = t.emptySeekThrows = true; S s(c); Driver d(s, all, t); if (c->empty()) d.Write(1 + seq::Pick(3)); d.Run(depth);
	Bytes now; for (const ByteArray& x : *c) now.insert(now.end(), x.begin(), x.end()); SEQ_CHECK_MSG(now == d.d, "chunks hold %s, expected %s", Str(now).c_str(), Str(d.d).c_str()); d.Drain();
}
SEQ_SCENARIO(chunked, .Q(3).T(4)) { Chunked(depth); }
SEQ_SCENARIO(chunked_longer, .Q(5).T(6)) { Chunked(-depth); }
static void Buffered(int depth, bool shorts)
{
	static const int cfg[][2] = { { 1, 1 }, { 2, 1 }, { 3, 1 }, { 2, 2 }, { 4, 2 }, { 4, 4 } }; const int c = seq::Pick(shorts ? 3 : 6); const Bytes b = Init(5); FilePtr f = make_shared_ptr<File>(b, !shorts && seq::Flip()); if (shorts) f->shortBy = 1;
	BufferedStream s(f, cfg[c][0], cfg[c][1]); Traits t; t.past = f->past; t.lazySeek = cfg[c][1] > 1 && !f->past; Driver d(s, b, t); if (shorts) d.t.partial = true; d.Run(depth);
	SEQ_CHECK_MSG(f->d == d.d, "the stream below has %s, expected %s", Str(f->d).c_str(), Str(d.d).c_str()); d.Drain();
}
SEQ_SCENARIO(buffered, .Q(3).T(4)) { Buffered(depth, false); }
SEQ_SCENARIO(buffered_longer, .Q(5).T(6)) { Buffered(-depth, false); }
SEQ_SCENARIO(buffered_short, .Q(3).T(4)) { Buffered(depth, true); }
SEQ_SCENARIO(buffered_errors, .Q(2).T(3))
{
	static const int cfg[][2] = { { 2, 1 }, { 2, 2 }, { 4, 2 }, { 4, 4 } }; const int c = seq::Pick(4); const Bytes b = Init(6); FilePtr f = make_shared_ptr<File>(b); BufferedStream s(f, cfg[c][0], cfg[c][1]); Traits t; t.lazySeek = cfg[c][1] > 1; Driver d(s, b, t);
	d.Op(); f->failNextWrite = true; d.Write(1 + seq::Pick(2), true); f->failNextWrite = false; d.Run(depth); SEQ_CHECK(f->d == d.d); d.Drain();
}
SEQ_SCENARIO(with_offset, .Q(3).T(4))
{
	const Bytes b = Init(5); FilePtr f = make_shared_ptr<File>(b, seq::Flip()); const int off = 2 * seq::Pick(2); f->lo = off; ByteStreamWithOffset s(f, off); Traits t; t.past = f->past; Driver d(s, Bytes(b.begin() + off, b.end()), t); d.Run(depth);
	SEQ_CHECK(std::equal(b.begin(), b.begin() + off, f->d.begin()) && Bytes(f->d.begin() + off, f->d.end()) == d.d); d.Drain();
}
SEQ_SCENARIO(with_offset_and_size, .Q(3).T(4))
{
	const Bytes b = Init(6); FilePtr f = make_shared_ptr<File>(b); const int off = seq::Pick(2) * 2, size = 1 + seq::Pick(3); f->lo = off; f->hi = off + size; ByteStreamWithOffsetAndSize s(f, off, size); Traits t; t.extends = false; t.fullThrows = true; t.end = size; Driver d(s, Bytes(b.begin() + off, b.begin() + off + size), t); d.Run(depth);
	SEQ_CHECK(f->d.size() == b.size() && std::equal(b.begin(), b.begin() + off, f->d.begin()) && std::equal(b.begin() + off + size, b.end(), f->d.begin() + off + size) && std::equal(d.d.begin(), d.d.end(), f->d.begin() + off)); d.Drain();
}
// two windows over one file, used in turns: each keeps its own position
SEQ_SCENARIO(windows_over_one_file, .Q(3).T(5).Split(3))
{
	const Bytes b = Init(6); FilePtr f = make_shared_ptr<File>(b); Traits t; t.extends = false; t.fullThrows = true; t.end = 3; ByteStreamWithOffsetAndSize x(f, 0, 3), y(f, 3, 3);
	Driver dx(x, Bytes(b.begin(), b.begin() + 3), t), dy(y, Bytes(b.begin() + 3, b.end()), t); dy.next = 200;
	for (int i = 0; i < depth; ++i) { const int k = seq::Pick(3); SEQ_LOG("stream %d", k); if (k == 2) { f->pos = seq::Pick(2) * 5; continue; } (k ? dy : dx).Slim(); }
	SEQ_CHECK(f->d.size() == 6 && std::equal(dx.d.begin(), dx.d.end(), f->d.begin()) && std::equal(dy.d.begin(), dy.d.end(), f->d.begin() + 3)); dx.Drain(); dy.Drain();
}
// a window larger than what is below it, and windows over windows and buffers
SEQ_SCENARIO(window_over_shorter, .Q(4).T(5)) { const Bytes b = Init(3); FilePtr f = make_shared_ptr<File>(b, true); f->lo = 1; f->hi = 5; ByteStreamWithOffsetAndSize s(f, 1, 4); Traits t; t.extends = false; t.fullThrows = t.past = true; t.end = 4; Driver d(s, Bytes(b.begin() + 1, b.end()), t); d.Run(depth); SEQ_CHECK(f->d[0] == 1 && Bytes(f->d.begin() + 1, f->d.end()) == d.d); d.Drain(); }
SEQ_SCENARIO(composed, .Q(3).T(4))
{
	const Bytes b = Init(7); FilePtr f = make_shared_ptr<File>(b); f->lo = 2; f->hi = 6; Traits t; t.extends = false; t.fullThrows = true; t.end = 4; IByteStreamPtr w; const int k = seq::Pick(3);
	if (k == 0) { w = make_shared_ptr<BufferedStream>(make_shared_ptr<ByteStreamWithOffsetAndSize>(f, 2, 4), 2); }
	else if (k == 1) { f->lo = 0; f->hi = 1000; w = make_shared_ptr<ByteStreamWithOffsetAndSize>(make_shared_ptr<BufferedStream>(f, 2), 2, 4); }
	else w = make_shared_ptr<ByteStreamWithOffsetAndSize>(make_shared_ptr<ByteStreamWithOffset>(f, 1), 1, 4);
	Driver d(*w, Bytes(b.begin() + 2, b.begin() + 6), t); d.Run(depth); SEQ_CHECK(f->d.size() == 7 && f->d[0] == 1 && f->d[1] == 2 && f->d[6] == 7 && std::equal(d.d.begin(), d.d.end(), f->d.begin() + 2)); d.Drain();
}
SEQ_SCENARIO(constructors, .Q(0))
{
	FilePtr f = make_shared_ptr<File>(Init(4)); const s64 o = seq::Pick(7) - 1, n = seq::Pick(4) - 1; bool refused = false; SEQ_LOG("offset %d size %d", (int)o, (int)n);
	try { ByteStreamWithOffsetAndSize s(f, o, n); SEQ_CHECK(s.Tell() == 0 && (s64)f->pos == o); } catch (const std::exception&) { refused = true; } SEQ_CHECK(refused == (o < 0 || n <= 0 || o > 4));
	refused = false; try { ByteStreamWithOffset s(f, o); SEQ_CHECK(s.Tell() == 0 && (s64)f->pos == o); } catch (const std::exception&) { refused = true; } SEQ_CHECK(refused == (o < 0 || o > 4));
}
// lines of every short text
SEQ_SCENARIO(lines, .Q(6).T(8))
{
	Bytes all; const int n = seq::Pick(depth + 1); for (int i = 0; i < n; ++i) all.push_back("a\n\r"[seq::Pick(3)]); const IByteStreamPtr s = CreateMemoryByteStream(ConstByteData(all)); size_t i = 0;
	for (;;)
	{
		const bool end = i == all.size(); std::string want; while (i < all.size() && all[i] != '\n' && all[i] != '\r') want += (char)all[i++]; if (i < all.size()) i += all[i] == '\r' && i + 1 < all.size() && all[i + 1] == '\n' ? 2 : 1;
		const optional<std::string> got = ReadLine(*s, DummyCancellationToken()); SEQ_CHECK_MSG(got.is_initialized() == !end && (end || *got == want), "line '%s', expected '%s'", got ? got->c_str() : "(none)", end ? "(none)" : want.c_str()); SEQ_CHECK(s->Tell() == i); seq::Step(); if (end) break;
	}
}
