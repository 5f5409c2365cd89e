// I03: pipe adaptors over every chunking of a scripted pipe.
#include "../seq/seq.h"
#include "common.h"
#include <stingraykit/io/BufferedPipe.h>
#include <stingraykit/io/PipeDataSource.h>
#include <stingraykit/io/PipeReader.h>
#include <stingraykit/thread/CancellationToken.h>
#include <stingraykit/thread/DummyCancellationToken.h>
#include <vector>
using namespace stingray;

namespace
{
	typedef std::vector<u8> Bytes;
	// hands out `data` in pieces chosen at every read, closes at the end; some reads fail once before they deliver
	struct Script : public virtual IPipe
	{
		Bytes data, written; size_t pos; bool cancels; Script(const Bytes& d, bool c) : data(d), pos(0), cancels(c) { }
		u64 Read(ByteData d, const ICancellationToken&) override
		{
			const int maxN = (int)std::min(d.size(), data.size() - pos);
			if (pos == data.size()) STINGRAYKIT_THROW(PipeClosedException());
			const int n = seq::Pick(maxN + (cancels ? 1 : 0)) + 1; if (n > maxN) { cancels = false; STINGRAYKIT_THROW(OperationCancelledException()); }
			std::copy(data.begin() + pos, data.begin() + pos + n, d.data()); pos += n; return n;
		}
		u64 Write(ConstByteData d, const ICancellationToken&) override { written.insert(written.end(), d.begin(), d.end()); return d.size(); }
		bool Peek(const ICancellationToken&) override { return pos < data.size(); }
	};
}
SEQ_SCENARIO(buffered, .Q(5).T(7))
{
	Bytes all; for (int i = 0; i < depth; ++i) all.push_back((u8)(i + 1)); DummyCancellationToken t; shared_ptr<Script> s = make_shared_ptr<Script>(all, seq::Flip()); BufferedPipe p(s, 1 + seq::Pick(4)); Bytes got;
	for (int guard = 0; guard < 50; ++guard)
	{
		Bytes b(1 + seq::Pick(3), 0xEE); size_t n; SEQ_CHECK_MSG(p.Peek(t) == (got.size() < all.size()), "Peek is wrong after %zu bytes", got.size());
		try { n = p.Read(ByteData(b), t); } catch (const PipeClosedException&) { SEQ_CHECK_MSG(got == all, "closed after %zu of %zu bytes", got.size(), all.size()); return; } catch (const OperationCancelledException&) { continue; }
		SEQ_CHECK(n > 0 && n <= b.size()); for (size_t i = n; i < b.size(); ++i) SEQ_CHECK(b[i] == 0xEE);
		got.insert(got.end(), b.begin(), b.begin() + n); SEQ_CHECK_MSG(got.size() <= all.size() && std::equal(got.begin(), got.end(), all.begin()), "bytes lost, repeated or altered"); seq::Step();
	}
	seq::Fail("never closed");
}
SEQ_SCENARIO(buffered_write, .Q(3).T(4)) { DummyCancellationToken t; shared_ptr<Script> s = make_shared_ptr<Script>(Bytes(), false); BufferedPipe p(s, 2); Bytes all; for (int i = 0; i < depth; ++i) { Bytes b(seq::Pick(4), (u8)i); SEQ_CHECK(p.Write(ConstByteData(b), t) == b.size()); all.insert(all.end(), b.begin(), b.end()); } SEQ_CHECK(s->written == all); }
// every text over a, \n, \r: lines and the final error
SEQ_SCENARIO(lines, .Q(6).T(8))
{
	Bytes all; const int n = seq::Pick(depth + 1); for (int i = 0; i < n; ++i) all.push_back("a\n\rb"[seq::Pick(i % 2 ? 3 : 4)]);
	DummyCancellationToken t; PipeReader r(seq::Flip() ? IPipePtr(make_shared_ptr<BufferedPipe>(make_shared_ptr<Script>(all, false), (size_t)2)) : IPipePtr(make_shared_ptr<Script>(all, false)));
	size_t i = 0;
	for (;;)
	{
		std::string want; int ends = 0; // 1: line, 2: closed before anything, 3: bare \r
		while (!ends) { if (i == all.size()) ends = want.empty() ? 2 : 1; else if (all[i] == '\n') { ++i; ends = 1; } else if (all[i] == '\r') { if (i + 1 == all.size()) { i += 1; ends = want.empty() ? 2 : 1; } else if (all[i + 1] == '\n') { i += 2; ends = 1; } else { i += 2; ends = 3; } } else want += (char)all[i++]; }
		std::string got; int how = 1; try { got = r.ReadLine(t); } catch (const PipeClosedException&) { how = 2; } catch (const NotSupportedException&) { how = 3; }
		SEQ_CHECK_MSG(how == ends && (how != 1 || got == want), "line '%s' (%d), expected '%s' (%d)", got.c_str(), how, want.c_str(), ends);
		seq::Step(); if (how == 2) break;
	}
}
SEQ_SCENARIO(bytes, .Q(5).T(6))
{
	Bytes all; for (int i = 0; i < depth; ++i) all.push_back((u8)(250 + i)); DummyCancellationToken t; PipeReader r(make_shared_ptr<Script>(all, false)); size_t pos = 0;
	while (pos < all.size()) { if (seq::Flip()) { SEQ_CHECK(r.ReadByte(t) == all[pos]); ++pos; } else { Bytes b(2); const size_t n = r.Read(ByteData(b), t); SEQ_CHECK(n >= 1 && n <= 2 && std::equal(b.begin(), b.begin() + n, all.begin() + pos)); pos += n; } }
	bool closed = false; try { r.ReadByte(t); } catch (const PipeClosedException&) { closed = true; } SEQ_CHECK(closed);
}
// a pipe as a data source: consumers that take nothing or a part see the rest again
SEQ_SCENARIO(data_source, .Q(4).T(5))
{
	Bytes all; for (int i = 0; i < depth; ++i) all.push_back((u8)(i + 1)); DummyCancellationToken t; PipeDataSource src(make_shared_ptr<Script>(all, seq::Flip()), 1 + seq::Pick(3)); Bytes got; int eod = 0, refusals = 2;
	for (int guard = 0; guard < 60 && !eod; ++guard)
		try
		{
			src.ReadToFunction(vh::Fn<size_t (ConstByteData, const ICancellationToken&)>([&](ConstByteData d, const ICancellationToken&) -> size_t {
				SEQ_CHECK(!d.empty()); const size_t n = refusals ? seq::Pick((int)d.size() + 1) : d.size(); if (n < d.size()) --refusals; got.insert(got.end(), d.begin(), d.begin() + n); SEQ_CHECK_MSG(got.size() <= all.size() && std::equal(got.begin(), got.end(), all.begin()), "bytes lost, repeated or altered after %zu", got.size() - n); return n; }),
				vh::Fn<void (const ICancellationToken&)>([&](const ICancellationToken&) { ++eod; }), t);
		}
		catch (const OperationCancelledException&) { }
	SEQ_CHECK_MSG(eod == 1 && got == all, "end of data after %zu of %zu bytes", got.size(), all.size());
}
