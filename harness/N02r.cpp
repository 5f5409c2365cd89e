// N02: reading bit fields at every offset and width against plain lists of bits.
#include "bits.h"

// reading one field
SEQ_SCENARIO(reading, .Q(0).T(1).Split(2))
{
	const bool le = seq::Flip(); const unsigned w = le ? (1 + seq::Pick(8)) * 8 : 1 + seq::Pick(64); const size_t off = seq::Pick(depth ? 24 : 16);
	const size_t size = (off + w + 7) / 8 + seq::Flip();
	for (const Bytes& p : Patterns(size))
	{
		seq::Cases(1);
		const u64 e = Value(ToBits(p), off, w, le);
		for (int type = 0; type < 4; ++type)
		{
			if (type == 3 && w != 1) continue;
			u64 v; size_t pos; u64 pk;
			if (le) { const auto* t = MakeReadBytes<ConstLittleEndianBitStream>(std::make_index_sequence<8>()); ConstLittleEndianBitStream s(ConstByteData(p.data(), p.size())); s.Seek(off); pk = t[w / 8 - 1].peek(s); v = t[w / 8 - 1].read(s, type); pos = s.GetBitPosition(); }
			else { const auto* t = MakeRead<ConstBitStream>(std::make_index_sequence<64>()); ConstBitStream s(ConstByteData(p.data(), p.size())); s.Skip(off); pk = t[w - 1].peek(s); v = t[w - 1].read(s, type); pos = s.GetBitPosition(); }
			SEQ_CHECK_MSG(v == e && pk == e && pos == off + w, "%s %u bits at %zu of %s as type %d: %llx, peek %llx, expected %llx, position %zu", le ? "little-endian" : "big-endian", w, off, Str(p).c_str(), type, (unsigned long long)v, (unsigned long long)pk, (unsigned long long)e, pos);
		}
	}
	// one byte short is refused
	const Bytes p((off + w + 7) / 8 - 1, 0xff);
	if (le) { const auto* t = MakeReadBytes<ConstLittleEndianBitStream>(std::make_index_sequence<8>()); ConstLittleEndianBitStream s(ConstByteData(p.data(), p.size())); s.Seek(off); SEQ_CHECK(Throws([&] { t[w / 8 - 1].read(s, 0); })); }
	else { const auto* t = MakeRead<ConstBitStream>(std::make_index_sequence<64>()); ConstBitStream s(ConstByteData(p.data(), p.size())); s.Seek(off); SEQ_CHECK(Throws([&] { t[w - 1].read(s, 0); })); SEQ_CHECK(Throws([&] { t[w - 1].peek(s); })); }
}

