// N02: writing bit fields at every offset and width changes exactly those bits.
#include "bits.h"

// writing one field: exactly those bits change
SEQ_SCENARIO(writing, .Q(0).T(1).Split(2))
{
	const bool le = seq::Flip(); const unsigned w = le ? (1 + seq::Pick(8)) * 8 : 1 + seq::Pick(64); const size_t off = seq::Pick(depth ? 24 : 16); const int type = seq::Pick(4);
	const size_t size = (off + w + 7) / 8 + (off & 1);
	const Bytes starts[] = { Bytes(size), Bytes(size, 0xff), Bytes(size, 0x9a) };
	for (const Bytes& start : starts) for (u64 v : Values(w))
	{
		seq::Cases(1);
		Bytes p = start; Bits e = ToBits(start); Put(e, off, w, le, SeenAs(v, w, type));
		size_t pos;
		if (le) { LittleEndianBitStream s(ByteData(p.data(), p.size())); s.Seek(off); MakeWriteBytes<LittleEndianBitStream>(std::make_index_sequence<8>())[w / 8 - 1].write(s, v, type); pos = s.GetBitPosition(); }
		else { BitStream s(ByteData(p.data(), p.size())); s.Skip(off); MakeWrite<BitStream>(std::make_index_sequence<64>())[w - 1].write(s, v, type); pos = s.GetBitPosition(); }
		SEQ_CHECK_MSG(p == ToBytes(e) && pos == off + w, "%s %u bits at %zu, value %llx as type %d over %s: %s, expected %s", le ? "little-endian" : "big-endian", w, off, (unsigned long long)v, type, Str(start).c_str(), Str(p).c_str(), Str(ToBytes(e)).c_str());
	}
	Bytes p((off + w + 7) / 8 - 1, 0x5c); const Bytes before = p;
	if (le) { LittleEndianBitStream s(ByteData(p.data(), p.size())); s.Seek(off); SEQ_CHECK(Throws([&] { MakeWriteBytes<LittleEndianBitStream>(std::make_index_sequence<8>())[w / 8 - 1].write(s, ~(u64)0, type); })); }
	else { BitStream s(ByteData(p.data(), p.size())); s.Seek(off); SEQ_CHECK(Throws([&] { MakeWrite<BitStream>(std::make_index_sequence<64>())[w - 1].write(s, ~(u64)0, type); })); }
	SEQ_CHECK_MSG(p == before, "a refused write of %u bits at %zu left %s", w, off, Str(p).c_str());
}

