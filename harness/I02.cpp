// I02: a packet buffer between writer and reader threads.
#include "../mc/mc.h"
#include "common.h"
#include <stingraykit/io/PacketBuffer.h>
#include <stingraykit/log/Logger.h>
#include <stingraykit/thread/CancellationToken.h>
#include <stingraykit/thread/DummyCancellationToken.h>
#include <string.h>
#include <vector>
using namespace stingray;

namespace
{
	typedef std::vector<u8> Bytes; typedef PacketBuffer<int> Buf; typedef Packet<int> Pkt;
	// packet number n: size sz, every byte = n, metadata 100 + n
	struct Maker { Bytes b; Pkt p; Maker(int n, int sz) : b(sz, (u8)n), p(ConstByteData(b), 100 + n) { } };
	struct Cons : public virtual IPacketConsumer<int>
	{
		std::vector<int> got, sizes; int refuse; mc::Cell<int> eods;
		explicit Cons(int r = 0) : refuse(r) { }
		bool Process(const Pkt& p, const ICancellationToken&) override
		{
			MC_CHECK_MSG(!eods, "packet after end of data"); const int n = p.GetMetadata() - 100; const ConstByteData d = p.GetData();
			for (int k = 0; k < 2; ++k) { for (size_t i = 0; i < d.size(); ++i) MC_CHECK_MSG(d.data()[i] == n, "packet %d contains bytes of packet %d", n, d.data()[i]); mc::Point(); }
			if (refuse) { --refuse; return false; }
			got.push_back(n); sizes.push_back((int)d.size()); return true;
		}
		void EndOfData() override { MC_CHECK_MSG(++eods == 1, "end of data twice"); }
	};
	void Put(Buf& b, int n, int sz, const ICancellationToken& t) { Maker m(n, sz); ConsumeAll(b, m.p, t); }
	void Expect(const Cons& c, const std::vector<int>& sizes) { MC_CHECK_MSG(c.got.size() == sizes.size(), "%zu of %zu packets", c.got.size(), sizes.size()); for (size_t i = 0; i < sizes.size(); ++i) MC_CHECK_MSG(c.got[i] == (int)i + 1 && c.sizes[i] == sizes[i], "packet %zu came out as %d with %d bytes", i + 1, c.got[i], c.sizes[i]); }
	void Transfer(size_t cap, const std::vector<int>& sizes, int refuse)
	{
		Buf b(false, cap); DummyCancellationToken tok; Cons c(refuse);
		mc::Th w([&]{ for (size_t i = 0; i < sizes.size(); ++i) Put(b, (int)i + 1, sizes[i], tok); b.EndOfData(); });
		while (!c.eods) { b.Read(c, tok); MC_CHECK(b.GetDataSize() + b.GetFreeSize() >= 0 && b.GetStorageSize() == cap); }
		w.Join(); Expect(c, sizes);
	}
}
MC_SCENARIO(transfer_pad, .Q(3)) { Transfer(4, mc::Pick(2) ? std::vector<int>{3, 2, 3} : std::vector<int>{2, 1, 3}, mc::Pick(2)); }
MC_SCENARIO(transfer_full, .Q(3)) { Transfer(3, mc::Pick(2) ? std::vector<int>{3, 3} : std::vector<int>{1, 3, 2}, 0); }
MC_SCENARIO(transfer_many, .Q(2)) { Transfer(5, mc::Pick(2) ? std::vector<int>{2, 2, 2, 2} : std::vector<int>{3, 1, 2, 4}, mc::Pick(2)); }
MC_SCENARIO(two_writers, .Q(3))
{
	Buf b(false, 3); DummyCancellationToken tok; Cons c;
	mc::Th w1([&]{ Put(b, 1, 2, tok); }), w2([&]{ Put(b, 2, 2, tok); });
	while (c.got.size() < 2) b.Read(c, tok);
	w1.Join(); w2.Join(); MC_CHECK(c.got[0] + c.got[1] == 3 && c.sizes[0] == 2 && c.sizes[1] == 2); MC_CHECK(b.GetDataSize() == 0);
	mc::Outcome("%d%d", c.got[0], c.got[1]);
}
// the room that one read makes is enough for a waiting writer, though other packets stay
MC_SCENARIO(one_read_is_enough, .Q(4))
{
	Buf b(false, 4); DummyCancellationToken tok; Cons c; Put(b, 1, 2, tok); Put(b, 2, 2, tok);
	mc::Th w([&]{ Put(b, 3, 2, tok); });
	b.Read(c, tok); w.Join();
	MC_CHECK(b.GetDataSize() == 4);
	while (c.got.size() < 3) b.Read(c, tok);
	Expect(c, {2, 2, 2});
}
MC_SCENARIO(discard, .Q(3))
{
	Logger::SetLogLevel(LogLevel::Silent);
	Buf b(true, 4); DummyCancellationToken tok; Cons c; const int sizes[4] = { 2, 2, 3, 1 };
	mc::Th w([&]{ for (int i = 0; i < 4; ++i) { Maker m(i + 1, sizes[i]); MC_CHECK_MSG(b.Process(m.p, tok), "blocked in discarding mode"); } b.EndOfData(); });
	while (!c.eods) b.Read(c, tok);
	w.Join(); std::string o;
	for (size_t i = 0; i < c.got.size(); ++i) { MC_CHECK_MSG(c.got[i] >= 1 && c.got[i] <= 4 && (!i || c.got[i] > c.got[i - 1]) && c.sizes[i] == sizes[c.got[i] - 1], "packets altered or out of order"); o += std::to_string(c.got[i]); }
	MC_CHECK_MSG(o.substr(0, 2) == "12", "a packet that fits was discarded: %s", o.c_str());
	mc::Outcome("%s", o.c_str());
}
MC_SCENARIO(cancel_writer, .Q(4))
{
	Buf b(false, 2); CancellationToken tok; DummyCancellationToken d; mc::Cell<int> accepted; Cons c;
	mc::Th w([&]{ Maker m1(1, 2), m2(2, 1); accepted = ConsumeAll(b, m1.p, tok); accepted = accepted + ConsumeAll(b, m2.p, tok); });
	if (mc::Pick(2)) b.Read(c, d);
	tok.Cancel(); w.Join(); b.EndOfData(); while (!c.eods) b.Read(c, d);
	// the first packet may have been cancelled and the second accepted
	MC_CHECK_MSG((int)c.got.size() == accepted, "%zu of %d accepted packets", c.got.size(), (int)accepted);
	mc::Outcome("%d", (int)accepted);
}
MC_SCENARIO(cancel_reader, .Q(4))
{
	Buf b(false, 4); CancellationToken tok; DummyCancellationToken d; Cons c;
	mc::Th r([&]{ while (tok && !c.eods) b.Read(c, tok); });
	Put(b, 1, 2, d); Put(b, 2, 2, d); tok.Cancel(); r.Join();
	const size_t before = c.got.size(); b.EndOfData(); while (!c.eods) b.Read(c, d);
	Expect(c, {2, 2}); mc::Outcome("%zu", before);
}
MC_SCENARIO(clear_resumes, .Q(4))
{
	Buf b(false, 2); DummyCancellationToken tok; Cons c; Put(b, 1, 2, tok);
	mc::Th w([&]{ Put(b, 2, 1, tok); });
	b.Clear(); w.Join(); b.Read(c, tok);
	MC_CHECK_MSG(c.got.size() == 1 && c.got[0] == 2 && c.sizes[0] == 1, "wrong packet after clearing"); MC_CHECK(b.GetDataSize() == 0 && b.GetFreeSize() == 2);
}
