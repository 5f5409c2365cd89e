// I05: an asynchronous byte stream over a recording stream.
#include "../mc/mc.h"
#include "common.h"
#include <stingraykit/diagnostics/AsyncProfiler.h>
// the stream's profiler only watches for slow calls with a thread of its own: replaced by nothing
namespace stingray { struct NoProfiler { struct Session { template <typename... Ts> Session(const Ts&...) { } ~Session() { } }; template <typename T> explicit NoProfiler(const T&) { } }; STINGRAYKIT_DECLARE_PTR(NoProfiler); }
#define AsyncProfiler NoProfiler
#define AsyncProfilerPtr NoProfilerPtr
#include <stingraykit/io/AsyncByteStream.cpp>
#undef AsyncProfiler
#undef AsyncProfilerPtr
#include <stingraykit/log/Logger.h>
#include <stingraykit/thread/DummyCancellationToken.h>
#include <vector>
using namespace stingray;

namespace
{
	typedef std::vector<u8> Bytes;
	std::string Str(const Bytes& b) { std::string s; for (u8 x : b) s += std::to_string(x) + " "; return s; }
	void PutAt(Bytes& d, size_t pos, const u8* p, size_t n) { if (d.size() < pos + n) d.resize(pos + n); std::copy(p, p + n, d.begin() + pos); }
	// the underlying stream: content, how often it was synced, optionally taking only part of a write or failing
	struct File : public virtual ISyncableByteStream
	{
		Bytes d; size_t pos, limit; int failAfter; mc::Cell<int> ops, syncs; Bytes atSync; bool failSync;
		File() : pos(0), limit(0), failAfter(-1), failSync(false) { }
		u64 Read(ByteData, const ICancellationToken&) override { MC_CHECK(false); return 0; }
		u64 Write(ConstByteData data, const ICancellationToken&) override
		{
			MC_CHECK_MSG(!data.empty(), "empty write"); if (ops == failAfter) STINGRAYKIT_THROW(InputOutputException("scripted")); ++ops; mc::Point();
			const size_t n = limit ? std::min(limit, data.size()) : data.size(); PutAt(d, pos, data.data(), n); pos += n; return n;
		}
		void Seek(s64 offset, SeekMode mode) override { pos = (size_t)(mode == SeekMode::Begin ? offset : mode == SeekMode::End ? (s64)d.size() + offset : (s64)pos + offset); }
		u64 Tell() const override { return pos; }
		void Sync() override { if (failSync) STINGRAYKIT_THROW(InputOutputException("scripted")); ++syncs; atSync = d; }
	};
	STINGRAYKIT_DECLARE_PTR(File);
	AsyncByteStream::Config Cfg(size_t page, size_t pages, size_t buffer) { return AsyncByteStream::Config().PageSize(page).MergeablePagesHint(1).SubStreamsHint(1).BufferSize(std::max(buffer, page * pages * 2)).MergeablePagesHint(pages); }
	// the same operations applied at once
	struct Model
	{
		Bytes d; size_t pos; int next; DummyCancellationToken tok; FilePtr f; unique_ptr<AsyncByteStream> s;
		Model(const AsyncByteStream::Config& c, const Bytes& init = Bytes(), size_t at = 0) : d(init), pos(at), next(1), f(make_shared_ptr<File>()) { Logger::SetLogLevel(LogLevel::Silent); f->d = init; f->pos = at; s.reset(new AsyncByteStream("a", f, c)); }
		void CheckPos() { MC_CHECK_MSG(s->Tell() == pos, "position %d, expected %zu", (int)s->Tell(), pos); }
		void L(const char* w, size_t n) { mc::Event("%s %zu", w, n); }
		size_t Write(size_t n)
		{
			Bytes x; for (size_t i = 0; i < n; ++i) x.push_back((u8)next++);
			const u64 w = s->Write(ConstByteData(x), tok); L("write", (size_t)w); MC_CHECK_MSG(w <= n, "wrote %d of %zu", (int)w, n);
			if (w) PutAt(d, pos, &x[0], (size_t)w); pos += (size_t)w; CheckPos(); return (size_t)w;
		}
		void WriteAll(size_t n) { while (n) { const size_t w = Write(n); if (!w) mc::Yield(); n -= w; } }
		void SeekTo(size_t p, int how = 0)
		{
			L("seek", p); if (how == 0) s->Seek((s64)p); else if (how == 1) s->Seek((s64)p - (s64)pos, SeekMode::Current); else s->Seek((s64)p - (s64)d.size(), SeekMode::End);
			pos = p; CheckPos();
		}
		void Sync() { L("sync", 0); s->Sync(); MC_CHECK_MSG(f->syncs > 0 && f->atSync == d, "after sync the stream had %s, expected %s", Str(f->atSync).c_str(), Str(d).c_str()); }
		void Finish() { L("finish", 0); s.reset(); MC_CHECK_MSG(f->d == d, "stream has %s, expected %s", Str(f->d).c_str(), Str(d).c_str()); }
	};
	void Program(Model& m, int len, bool sync, size_t span)
	{
		for (int i = 0; i < len; ++i)
			switch (mc::Pick(i ? 3 + sync : 2))
			{
			case 0: m.Write(1); break;
			case 1: m.Write(3); break;
			case 2: m.SeekTo(mc::Pick((int)span), 0); if (i + 1 < len) m.Write(2); break;
			case 3: m.Sync(); break;
			}
		m.Finish();
	}
}
// every short program; the worker runs whenever it wants
MC_SCENARIO(programs, .Q(1).T(2)) { const int c = mc::Pick(2); Model m(c ? Cfg(1, 2, 6) : Cfg(1, 1, 4)); Program(m, mc::Pick(2) ? 3 : 4, true, 3); }
MC_SCENARIO(programs_deep, .Q(0).T(1)) { Model m(Cfg(2, 2, 16)); Program(m, 5, false, 4); }
MC_SCENARIO(merge, .Q(3))
{
	Model m(Cfg(2, 2, 16)); m.Write(1); m.SeekTo(mc::Pick(2) ? 2 : 6); m.Write(2); m.SeekTo(1); m.Write(1); m.Write(1); m.Finish();
}
MC_SCENARIO(overwrite, .Q(3)) { Model m(Cfg(2, 1, 8)); m.Write(2); m.SeekTo(mc::Pick(2)); m.Write(1); m.SeekTo(0, mc::Pick(3)); m.Write(1); m.Finish(); }
MC_SCENARIO(wrap_and_full, .Q(3)) { Model m(Cfg(1, 1, 3)); m.Write(2); m.Write(2); m.Write(2); m.Write(3); m.Finish(); mc::Outcome("%zu", m.d.size()); }
MC_SCENARIO(write_all, .Q(2)) { Model m(Cfg(1, 1, 2)); m.WriteAll(5); m.Finish(); MC_CHECK(m.d.size() == 5); }
MC_SCENARIO(partial_writes, .Q(3)) { Model m(Cfg(2, 1, 8)); m.f->limit = 1; m.Write(2); m.Write(2); m.SeekTo(1); m.Write(2); m.SeekTo(3); m.Write(1); m.Finish(); }
MC_SCENARIO(existing_content, .Q(3)) { Bytes x(4, 100); Model m(Cfg(1, 1, 4), x, 2); m.Write(1); m.SeekTo(m.d.size(), 2); m.Write(1); m.SeekTo(1, 1); m.Write(1); m.Finish(); }
MC_SCENARIO(syncs, .Q(3)) { Model m(Cfg(1, 1, 4)); m.Write(2); m.Sync(); m.SeekTo(0); m.Write(1); m.Sync(); m.Write(1); m.Finish(); MC_CHECK(m.f->syncs == 2); }
MC_SCENARIO(reconfigure, .Q(2))
{
	Model m(Cfg(1, 1, 2)); m.Write(2); m.s->Reconfigure(Cfg(2, 1, 4)); m.Write(2); m.SeekTo(mc::Pick(4)); m.Write(1); if (mc::Pick(2)) m.s->Reconfigure(Cfg(1, 1, 2)); m.Write(2); m.Finish();
}
MC_SCENARIO(nonblocking_sync, .Q(3)) { Model m(Cfg(1, 1, 4).EnableNonBlockingSync()); m.Write(1); m.s->Sync(); m.Write(1); m.Finish(); MC_CHECK(m.f->syncs == 1 && m.f->atSync.size() >= 1); }
// a failure of the stream surfaces in a waiting or later operation; what reached the stream is what was issued before
MC_SCENARIO(errors, .Q(2))
{
	Model m(Cfg(1, 1, 4)); m.f->failAfter = mc::Pick(2); if (mc::Pick(2)) m.f->failSync = true; bool failed = false; const bool sync = mc::Pick(2);
	try { m.Write(1); m.SeekTo(3); m.Write(1); if (sync) { m.Sync(); } } catch (const std::exception&) { failed = true; }
	MC_CHECK_MSG(!sync || failed, "a sync succeeded although an earlier write failed");
	if (failed) { for (int i = 0; i < 4; ++i) { bool again = false; try { if (i == 0) m.s->Tell(); else if (i == 1) m.s->Seek(0); else if (i == 2) m.s->Sync(); else m.Write(1); } catch (const std::exception&) { again = true; } MC_CHECK_MSG(again, "the error did not last"); } }
	m.s.reset(); MC_CHECK(m.f->d.size() <= 4 && (m.f->d.empty() || m.f->d[0] == 1)); mc::Outcome("%d", failed);
}
MC_SCENARIO(refusals, .Q(2))
{
	Model m(Cfg(1, 1, 4)); m.Write(2); for (int i = 0; i < 3; ++i) { bool refused = false; try { m.s->Seek(i == 1 ? -3 : i == 2 ? -4 : -1, i == 0 ? SeekMode::Begin : i == 1 ? SeekMode::Current : SeekMode::End); } catch (const std::exception&) { refused = true; } MC_CHECK(refused); m.CheckPos(); }
	MC_CHECK(m.s->Write(ConstByteData(), m.tok) == 0); m.Finish();
}
