// N02: streams of fields, fixed fields, growth, strings in streams, single bits.
#include "bits.h"

namespace
{
	enum class PlainEnum : u8 { A = 1, B = 2, C = 5 };
	// fields at fixed places through the getter and setter themselves
	template < size_t Off, size_t W >
	void Fixed(const Bytes& p, size_t skip)
	{
		const Bits bits = ToBits(p); const u64 e = Value(bits, skip * 8 + Off, W, false);
		typedef typename Detail::MinimalTypeSelector<W>::ValueT Min;
		{ const u64 v = BitsGetter(ConstByteData(p.data(), p.size()), skip).Get<Off, W>(); const Min m = UnsafeBitsGetter(p.data(), skip).Get<Off, W>(); SEQ_CHECK_MSG(v == e && m == e, "Get<%zu, %zu>: %llx, expected %llx", Off, W, (unsigned long long)v, (unsigned long long)e); }
		{ const u64 v = BitsGetter(ConstByteData(p.data(), p.size()), skip, (Off + W + 7) / 8).Get<Off, W>(); SEQ_CHECK(v == e); }
		const auto f = BitsGetter(ConstByteData(p.data(), p.size()), skip).Get<Off, W>(); const Min k = 3;
		SEQ_CHECK((f == (Min)e) && !(f != (Min)e) && ((Min)e == f) && !(f == (Min)(e ^ 1)) && (f != (Min)(e ^ 1)));
		SEQ_CHECK((u64)(Min)(f + k) == (u64)(Min)(e + 3) && (u64)(Min)(f - k) == (u64)(Min)(e - 3) && (u64)(Min)(k - f) == (u64)(Min)(3 - e) && (u64)(Min)(f * k) == (u64)(Min)(e * 3) && (u64)(f / k) == e / 3 && (u64)(f & k) == (e & 3) && (u64)(f | k) == (e | 3) && (u64)(k | f) == (e | 3));
		for (u64 v : { (u64)0, Low(W), (u64)0x9d2f3c5b718e6a4dull & Low(W) })
		{
			Bits x = bits; Put(x, skip * 8 + Off, W, false, v); const Bytes ex = ToBytes(x);
			{ Bytes q = p; BitsSetter(ByteData(q.data(), q.size()), skip).Set<Off, W>(v); SEQ_CHECK_MSG(q == ex, "Set<%zu, %zu>(%llx): %s expected %s", Off, W, (unsigned long long)v, Str(q).c_str(), Str(ex).c_str()); }
			{ Bytes q = p; UnsafeBitsSetter(q.data(), skip).Set<Off, W>((Min)v); SEQ_CHECK(q == ex); }
		}
		if (W % 8 == 0)
		{
			const u64 l = LittleEndianBitsGetter(ConstByteData(p.data(), p.size()), skip).Get<Off, W>(), u = UnsafeLittleEndianBitsGetter(p.data(), skip).Get<Off, W>(); SEQ_CHECK_MSG(l == Value(bits, skip * 8 + Off, W, true) && l == u, "little-endian Get<%zu, %zu>", Off, W);
			Bytes q = p; LittleEndianBitsSetter(ByteData(q.data(), q.size()), skip).Set<Off, W>(l); SEQ_CHECK_MSG(q == p, "little-endian Set<%zu, %zu>", Off, W);
			Bytes z(p.size()); UnsafeLittleEndianBitsSetter(z.data(), skip).Set<Off, W>(l); Bits x(p.size() * 8); Put(x, skip * 8 + Off, W, true, l); SEQ_CHECK(z == ToBytes(x));
		}
	}
	template < size_t W > void FixedOffs(const Bytes& p) { Fixed<0, W>(p, 0); Fixed<0, W>(p, 1); Fixed<1, W>(p, 1); Fixed<5, W>(p, 0); Fixed<7, W>(p, 2); Fixed<8, W>(p, 0); Fixed<12, W>(p, 1); Fixed<19, W>(p, 0); Fixed<24, W>(p, 0); }
}

SEQ_SCENARIO(fixed_places, .Q(0).T(0).Split(2))
{
	const auto ps = Patterns(13); const Bytes p = ps[seq::Pick(ps.size())];
	switch (seq::Pick(19))
	{
	case 0: FixedOffs<1>(p); break; case 1: FixedOffs<2>(p); break; case 2: FixedOffs<3>(p); break; case 3: FixedOffs<5>(p); break; case 4: FixedOffs<7>(p); break; case 5: FixedOffs<8>(p); break; case 6: FixedOffs<9>(p); break; case 7: FixedOffs<12>(p); break; case 8: FixedOffs<13>(p); break; case 9: FixedOffs<16>(p); break;
	case 10: FixedOffs<17>(p); break; case 11: FixedOffs<24>(p); break; case 12: FixedOffs<31>(p); break; case 13: FixedOffs<32>(p); break; case 14: FixedOffs<33>(p); break; case 15: FixedOffs<40>(p); break; case 16: FixedOffs<48>(p); break; case 17: FixedOffs<56>(p); break; default: FixedOffs<64>(p); break;
	}
	const BitsGetter g(ConstByteData(p.data(), p.size())); const Bits b = ToBits(p);
	SEQ_CHECK(g.Get<u8>() == Value(b, 0, 8, false) && g.Get<u16>() == Value(b, 0, 16, false) && g.Get<u32>() == Value(b, 0, 32, false) && g.Get<u64>() == Value(b, 0, 64, false) && g.Get<s32>() == (s32)Value(b, 0, 32, false) && g.Get<s8>() == (s8)Value(b, 0, 8, false));
	SEQ_CHECK((g.Get<3, u8>()) == Value(b, 3, 8, false) && (g.Get<13, u16>()) == Value(b, 13, 16, false) && (g.Get<9, s64>()) == (s64)Value(b, 9, 64, false));
	{ Bytes q(13, 0x3c); Bits x = ToBits(q); BitsSetter s(ByteData(q.data(), q.size())); s.Set<u32>(0xdeadbeef); s.Set<37, u16>(0x8001); s.Set<u8>(0x42, Dummy()); Put(x, 0, 32, false, 0xdeadbeef); Put(x, 37, 16, false, 0x8001); Put(x, 0, 8, false, 0x42); SEQ_CHECK(q == ToBytes(x)); }
	{ const LittleEndianBitsGetter l(ConstByteData(p.data(), p.size())); SEQ_CHECK(l.Get<u16>() == Value(b, 0, 16, true) && l.Get<u32>() == Value(b, 0, 32, true) && l.Get<u64>() == Value(b, 0, 64, true) && (l.Get<5, u32>()) == Value(b, 5, 32, true)); }
	{ const PlainEnum v = g.Get<4, 3>(); SEQ_CHECK((u64)v == Value(b, 4, 3, false)); Bytes q = p; BitsSetter(ByteData(q.data(), q.size())).Set<11, 6>(PlainEnum::C); Bits x = b; Put(x, 11, 6, false, 5); SEQ_CHECK(q == ToBytes(x)); }
}

namespace
{
	const int Widths[] = { 1, 3, 7, 8, 9, 13, 16, 24, 31, 33, 64 }; const int NW = 11;
	template < typename S > u64 ReadW(S& s, int w) { switch (w) { case 1: { u64 v = s.template Read<1>(); return v; } case 3: { u64 v = s.template Read<3>(); return v; } case 7: { u64 v = s.template Read<7>(); return v; } case 8: { u64 v = s.template Read<8>(); return v; } case 9: { u64 v = s.template Read<9>(); return v; }
		case 13: { u64 v = s.template Read<13>(); return v; } case 16: { u64 v = s.template Read<16>(); return v; } case 24: { u64 v = s.template Read<24>(); return v; } case 31: { u64 v = s.template Read<31>(); return v; } case 33: { u64 v = s.template Read<33>(); return v; } default: { u64 v = s.template Read<64>(); return v; } } }
	template < typename S > void WriteW(S& s, int w, u64 x) { switch (w) { case 1: s.template Write<1>((bool)(x & 1)); break; case 3: s.template Write<3>((u8)x); break; case 7: s.template Write<7>((u8)x); break; case 8: s.template Write<8>((char)x); break; case 9: s.template Write<9>((u16)x); break;
		case 13: s.template Write<13>((int)x); break; case 16: s.template Write<16>((u16)x); break; case 24: s.template Write<24>((u32)x); break; case 31: s.template Write<31>((u32)x); break; case 33: s.template Write<33>(x); break; default: s.template Write<64>(x); break; } }
}

// a stream of fields written one by one and read one by one
SEQ_SCENARIO(programs, .Q(4).T(4).Split(2))
{
	Bytes raw(15, 0xa6); Bits bits = ToBits(raw); size_t pos = 0; u64 next = 0xc3a5f00f9177e24bull;
	const size_t total = bits.size();
	BitStream s(ByteData(raw.data(), raw.size()));
	for (int i = 0; i < depth; ++i)
	{
		const int op = seq::Pick(7);
		next = next * 6364136223846793005ull + 1442695040888963407ull;
		if (op <= 1)
		{
			const int w = Widths[seq::Pick(NW)]; const bool fits = (pos + w + 7) / 8 <= raw.size();
			if (op == 0) { const bool ok = !Throws([&] { WriteW(s, w, next); }); SEQ_CHECK_MSG(ok == fits, "write of %d at %zu of %zu", w, pos, total); if (!ok) break; Put(bits, pos, w, false, next); pos += w; }
			else { u64 v = 0; const bool ok = !Throws([&] { v = ReadW(s, w); }); SEQ_CHECK_MSG(ok == fits, "read of %d at %zu of %zu", w, pos, total); if (!ok) break; SEQ_CHECK_MSG(v == Value(bits, pos, w, false), "read of %d at %zu: %llx", w, pos, (unsigned long long)v); pos += w; }
		}
		else if (op == 2) { static const size_t n[] = { 0, 1, 5, 8, 30 }; const size_t k = n[seq::Pick(5)]; s.Skip(k); pos += k; }
		else if (op == 3) { static const size_t n[] = { 0, 3, 16, 61, 113, 120 }; const size_t k = n[seq::Pick(6)]; s.Seek(k); pos = k; }
		else if (op == 4) // a deferred field is filled in after what follows it
		{
			if (pos + 13 + 9 > total) break;
			BitStream::DeferredWriter<13> d(s); SEQ_CHECK(s.GetBitPosition() == pos + 13); s.Write<9>(next); d.Write(next >> 20); Put(bits, pos, 13, false, next >> 20); Put(bits, pos + 13, 9, false, next); pos += 22;
		}
		else if (op == 5)
		{
			{ BitStream::Rollback r(s); BitStream::Watcher w(s); s.Skip(7); if (pos + 7 + 16 <= total) { s.Write<16>((u16)next); Put(bits, pos + 7, 16, false, next & 0xffff); } SEQ_CHECK(w.GetOffsetDelta() == (size_t)(pos + 7 + 16 <= total ? 23 : 7)); }
			SEQ_CHECK_MSG(s.GetBitPosition() == pos, "rolled back to %zu instead of %zu", s.GetBitPosition(), pos);
		}
		else
		{
			if (pos % 8) { SEQ_CHECK(Throws([&] { s.GetAvailableByteData(); })); if (i + 1 < depth) continue; break; }
			if (pos > total) break;
			const ByteData d = s.GetAvailableByteData(); SEQ_CHECK(d.size() == (total - pos) / 8 && (d.empty() || d.data() == raw.data() + pos / 8));
			BitStream::Watcher w(s); s.Skip(16); if (pos + 16 <= total) { const ByteData x = w.GetDataDelta(); SEQ_CHECK(x.size() == 2 && x.data() == raw.data() + pos / 8); } s.Seek(pos);
		}
		SEQ_CHECK(s.GetBitPosition() == pos && s.AtEnd() == (pos >= total));
		for (size_t n : { (size_t)0, (size_t)1, (size_t)8, (size_t)64, total, ~(size_t)0 }) SEQ_CHECK_MSG(s.CanRead(n) == (pos <= total && n <= total - pos), "CanRead(%zu) at %zu of %zu", n, pos, total);
		if (pos <= total) SEQ_CHECK(s.GetRemainingBitsCount() == total - pos);
		SEQ_CHECK_MSG(raw == ToBytes(bits), "bytes %s, expected %s", Str(raw).c_str(), Str(ToBytes(bits)).c_str());
		seq::State(seq::Hash().Add(pos).Add(std::string(raw.begin(), raw.end())));
	}
	// the whole is the concatenation of its fields, however it is cut
	ConstBitStream c(ConstByteData(raw.data(), raw.size())); size_t p = 0;
	for (int k = 0; p < total; ++k) { const int w = Widths[k % 9]; if (p + w > total) { SEQ_CHECK((u64)ReadW(c, 1) == Value(bits, p, 1, false)); ++p; } else { SEQ_CHECK(ReadW(c, w) == Value(bits, p, w, false)); p += w; } }
	SEQ_CHECK(c.AtEnd() && !c.CanRead(1));
}

// an owning stream grows to hold what is written and no further
SEQ_SCENARIO(growing, .Q(4).T(4).Split(2))
{
	ByteArray a(seq::Pick(3)); for (size_t i = 0; i < a.size(); ++i) a[i] = 0x77; Bits bits = ToBits(Bytes(a.begin(), a.end())); size_t pos = 0; u64 next = 0x8f1bbcdc5a827999ull;
	SeisedBitStream s(a);
	for (int i = 0; i < depth; ++i)
	{
		next = next * 6364136223846793005ull + 1442695040888963407ull;
		const int op = seq::Pick(NW + 2);
		if (op == NW) { s.Skip(11); pos += 11; if (i + 1 == depth) return; continue; }
		if (op == NW + 1) { pos /= 2; s.Seek(pos); if (i + 1 == depth) return; continue; }
		const int w = Widths[op]; WriteW(s, w, next);
		const size_t need = (pos + w + 7) / 8 * 8; const size_t old = bits.size();
		const Bytes got(s.GetData().begin(), s.GetData().end());
		SEQ_CHECK_MSG(got.size() * 8 == std::max(need, old), "%zu bytes after writing %d at %zu of %zu bits", got.size(), w, pos, old);
		if (need > old) { const Bits g = ToBits(got); bits.resize(need); for (size_t k = old; k < need; ++k) bits[k] = g[k]; } // what growth fills with is not specified
		Put(bits, pos, w, false, next); pos += w;
		SEQ_CHECK_MSG(got == ToBytes(bits), "after writing %d: %s, expected %s", w, Str(got).c_str(), Str(ToBytes(bits)).c_str());
		SEQ_CHECK(s.GetBitPosition() == pos);
	}
	SEQ_CHECK(Throws([&] { s.Seek(bits.size()); ReadW(s, 1); }));
	SEQ_CHECK(s.GetData().size() * 8 == bits.size());
}

// strings and arrays within streams, at any bit position
SEQ_SCENARIO(packed, .Q(0).T(0).Split(2))
{
	const size_t skip = seq::Pick(8); const int len = seq::Pick(5); std::string t; for (int i = 0; i < len; ++i) t += seq::Flip() ? (char)0xc7 : (char)('a' + i);
	Bytes raw(20, 0x5a); BitStream s(ByteData(raw.data(), raw.size())); s.Skip(skip);
	Bits e = ToBits(raw); auto put = [&](size_t at) { for (size_t i = 0; i < t.size(); ++i) Put(e, at + i * 8, 8, false, (u8)t[i]); };
	std::vector<u16> wide; for (int i = 0; i < len; ++i) wide.push_back(0x7ff ^ (i * 0x123));
	switch (seq::Pick(7))
	{
	case 0: s.WriteLengthPrefixedString<8>(t); Put(e, skip, 8, false, len); put(skip + 8); SEQ_CHECK(s.GetBitPosition() == skip + 8 + len * 8); s.Seek(skip); SEQ_CHECK(s.ReadLengthPrefixedString<8>() == t && s.GetBitPosition() == skip + 8 + len * 8); break;
	case 1: s.WriteLengthPrefixedString<13>(t); Put(e, skip, 13, false, len); put(skip + 13); s.Seek(skip); SEQ_CHECK(s.ReadLengthPrefixedString<13>() == t && s.GetBitPosition() == skip + 13 + len * 8); break;
	case 2: s.WriteNullTerminatedString(t); put(skip); Put(e, skip + len * 8, 8, false, 0); SEQ_CHECK(s.GetBitPosition() == skip + 8 + len * 8); s.Seek(skip); SEQ_CHECK(s.ReadNullTerminatedString() == t && s.GetBitPosition() == skip + 8 + len * 8); break;
	case 3: { const Bytes d(t.begin(), t.end()); s.WriteLengthPrefixedArray<16>(ConstByteData(d.data(), d.size())); Put(e, skip, 16, false, len); put(skip + 16); s.Seek(skip); const ByteArray r = s.ReadLengthPrefixedArray<16>(); SEQ_CHECK(Bytes(r.begin(), r.end()) == d && s.GetBitPosition() == skip + 16 + len * 8); break; }
	case 4: { s.WriteArray<11>(wide.begin(), wide.end()); for (int i = 0; i < len; ++i) Put(e, skip + i * 11, 11, false, wide[i]); s.Seek(skip); std::vector<u16> r; s.ReadArray<11>(std::back_inserter(r), len); SEQ_CHECK(r == wide && s.GetBitPosition() == skip + len * 11); break; }
	case 5: { s.WriteArray<11>(wide.begin(), (size_t)len); for (int i = 0; i < len; ++i) Put(e, skip + i * 11, 11, false, wide[i]); s.Seek(skip); std::vector<u16> r(len); s.ReadArray<11>(r.begin(), r.end()); SEQ_CHECK(r == wide); break; }
	default: { s.WriteArray<11>(wide); for (int i = 0; i < len; ++i) Put(e, skip + i * 11, 11, false, wide[i]); SEQ_CHECK(s.GetBitPosition() == skip + len * 11); s.Seek(skip); s.Write<8>('x'); Put(e, skip, 8, false, 'x'); s.Seek(skip + 3); s.WriteArray<8>(t.begin(), t.end()); s.Write<8>(';'); put(skip + 3); Put(e, skip + 3 + len * 8, 8, false, ';'); s.Seek(skip + 3); SEQ_CHECK(s.ReadStringTerminatedBy(';') == t); break; }
	}
	SEQ_CHECK_MSG(raw == ToBytes(e), "bytes %s, expected %s", Str(raw).c_str(), Str(ToBytes(e)).c_str());
	// truncated input is refused
	if (len) { Bytes cut(len, (u8)(len)); ConstBitStream c(ConstByteData(cut.data(), cut.size())); SEQ_CHECK(Throws([&] { c.ReadLengthPrefixedString<8>(); })); ConstBitStream d(ConstByteData(cut.data(), cut.size())); SEQ_CHECK(Throws([&] { d.ReadNullTerminatedString(); })); ConstBitStream f(ConstByteData(cut.data(), cut.size())); SEQ_CHECK(Throws([&] { f.ReadLengthPrefixedArray<8>(); })); }
}

// sub-streams start where they are told to and end where they are told to
SEQ_SCENARIO(substreams, .Q(0).T(0).Split(2))
{
	Bytes raw; for (int i = 0; i < 6; ++i) raw.push_back(0x91 + i * 0x17); const Bits b = ToBits(raw);
	const size_t off = seq::Pick(7), size = seq::Pick(7 - off);
	ConstBitStream whole(ConstByteData(raw.data(), raw.size())); whole.Skip(5);
	const int kind = seq::Pick(4); const size_t n = kind & 1 ? size : 6 - off;
	ConstBitStream s = kind == 0 ? ConstBitStream(whole, off) : kind == 1 ? ConstBitStream(whole, off, size) : kind == 2 ? ConstBitStream(ConstByteData(raw.data(), raw.size()), off) : ConstBitStream(ConstByteData(raw.data(), raw.size()), off, size);
	SEQ_CHECK(s.GetBitPosition() == 0 && s.GetRemainingBitsCount() == n * 8 && s.AtEnd() == (n == 0));
	for (size_t i = 0; i + 3 <= n * 8; i += 3) { const u64 v = s.Read<3>(); SEQ_CHECK(v == Value(b, off * 8 + i, 3, false)); }
	s.Seek(n * 8); SEQ_CHECK(s.AtEnd() && Throws([&] { const u8 v = s.Read<1>(); (void)v; }));
	SEQ_CHECK(whole.GetBitPosition() == 5);
	if (n >= 2) { s.Seek(0); SEQ_CHECK((s.Read<7>() + (u32)1) == Value(b, off * 8, 7, false) + 1 && (s.Read<3>() * (u32)3) == Value(b, off * 8 + 7, 3, false) * 3 && ((u32)2 << s.Read<1>()) == (u32)2 << Value(b, off * 8 + 10, 1, false) && (s.Read<5>() - (s32)7) == (s32)Value(b, off * 8 + 11, 5, false) - 7); s.Seek(3); SEQ_CHECK((s.Read<6>() / (u32)3) == Value(b, off * 8 + 3, 6, false) / 3); s.Seek(1); SEQ_CHECK((s.Read<9>() >> (u32)2) == Value(b, off * 8 + 1, 9, false) >> 2); }
}

namespace
{
	template < typename T, size_t I > struct BitOps
	{
		static void Run(T v)
		{
			const T m = (T)((T)1 << I);
			SEQ_CHECK_MSG(TestBit<I>(v) == ((v & m) != 0) && SetBit<I>(v) == (T)(v | m) && ResetBit<I>(v) == (T)(v & ~m) && FlipBit<I>(v) == (T)(v ^ m), "bit %zu of %llx (%zu bytes)", I, (unsigned long long)v, sizeof(T));
		}
	};
	template < typename T, size_t... I > void AllBits(T v, std::index_sequence<I...>) { const int x[] = { (BitOps<T, I>::Run(v), 0)... }; (void)x; }
	template < typename T > void EachBit() { for (int i = -1; i < (int)sizeof(T) * 8; ++i) for (int n = 0; n < 2; ++n) { seq::Cases(1); T v = i < 0 ? (T)0 : (T)((T)1 << i); if (n) v = ~v; AllBits<T>(v, std::make_index_sequence<sizeof(T) * 8>()); AllBits<T>((T)(v ^ (T)0x3c96a5f00f5a69c3ull), std::make_index_sequence<sizeof(T) * 8>()); } }
}
SEQ_SCENARIO(single_bits, .Q(0).T(0).Split(1))
{
	switch (seq::Pick(8)) { case 0: EachBit<u8>(); break; case 1: EachBit<u16>(); break; case 2: EachBit<u32>(); break; case 3: EachBit<u64>(); break; case 4: EachBit<s16>(); break; case 5: EachBit<s32>(); break; case 6: EachBit<s64>(); break;
	default: for (int i = 0; i < 256; ++i) { u8 r = 0; for (int k = 0; k < 8; ++k) if (i >> k & 1) r |= 0x80 >> k; SEQ_CHECK_MSG(ReverseBits((u8)i) == r, "ReverseBits(%02x) = %02x", i, ReverseBits((u8)i)); } }
}
