#pragma once
// Shared by the N02 harnesses: bit fields as plain lists of bits.
#include "../seq/seq.h"
#include "common.h"
#include <stingraykit/BitsGetter.h>
#include <stingraykit/BitwiseOperations.h>
#include <stingraykit/io/BitStream.h>
#include <stingraykit/assert.h>
#include <memory>
#include <utility>
#include <vector>
using namespace stingray;

namespace
{
	typedef std::vector<u8> Bytes;
	typedef std::vector<bool> Bits;
	Bits ToBits(const Bytes& b) { Bits r; for (u8 x : b) for (int i = 7; i >= 0; --i) r.push_back(x >> i & 1); return r; }
	Bytes ToBytes(const Bits& b) { Bytes r((b.size() + 7) / 8); for (size_t i = 0; i < b.size(); ++i) if (b[i]) r[i / 8] |= 0x80 >> i % 8; return r; }
	// the value of a field: most significant bit first, or least significant byte first for fields of whole bytes
	u64 Value(const Bits& b, size_t off, unsigned w, bool le)
	{
		u64 r = 0;
		if (!le) { for (unsigned i = 0; i < w; ++i) r = r << 1 | (b.at(off + i) ? 1 : 0); return r; }
		for (unsigned i = 0; i < w; ++i) if (b.at(off + i)) r |= (u64)1 << (i / 8 * 8 + 7 - i % 8);
		return r;
	}
	void Put(Bits& b, size_t off, unsigned w, bool le, u64 v)
	{
		for (unsigned i = 0; i < w; ++i) b.at(off + i) = le ? v >> (i / 8 * 8 + 7 - i % 8) & 1 : v >> (w - 1 - i) & 1;
	}
	u64 Low(unsigned w) { return w == 64 ? ~(u64)0 : ((u64)1 << w) - 1; }
	std::string Str(const Bytes& b) { std::string s; char t[4]; for (u8 x : b) { snprintf(t, 4, "%02x ", x); s += t; } return s; }
	template < typename F > bool Throws(const F& f) { try { f(); } catch (const std::exception&) { return true; } return false; }

	std::vector<Bytes> Patterns(size_t size)
	{
		std::vector<Bytes> r;
		for (size_t i = 0; i < size * 8; ++i) { Bytes b(size); b[i / 8] = 0x80 >> i % 8; r.push_back(b); for (u8& x : b) x = ~x; r.push_back(b); }
		r.push_back(Bytes(size)); r.push_back(Bytes(size, 0xff)); r.push_back(Bytes(size, 0xaa)); r.push_back(Bytes(size, 0x35));
		Bytes m; for (size_t i = 0; i < size; ++i) m.push_back(0x13 + i * 0x2d); r.push_back(m);
		return r;
	}
	std::vector<u64> Values(unsigned w)
	{
		std::vector<u64> r;
		for (unsigned i = 0; i < w; ++i) { r.push_back((u64)1 << i); r.push_back(Low(w) & ~((u64)1 << i)); }
		r.push_back(0); r.push_back(Low(w)); r.push_back(0x123456789abcdef1ull & Low(w)); r.push_back(0xfedcba9876543210ull & Low(w)); r.push_back(~(u64)0); // the last has more bits than the field
		return r;
	}

	template < typename Stream_ >
	struct Ops { u64 (*read)(Stream_&, int type); void (*write)(Stream_&, u64, int type); u64 (*peek)(Stream_&); };
	// types by number: 0 u64, 1 the narrowest that fits, 2 the narrowest signed, 3 bool
	template < typename Stream_, int W >
	struct OneWidth
	{
		typedef typename Detail::MinimalTypeSelector<W>::ValueT Min; typedef typename Detail::MinimalTypeSelector<W, true>::ValueT SMin;
		typedef typename If<(W <= 32), u32, u64>::ValueT Mid; typedef typename If<W == 1, bool, u64>::ValueT Bool;
		static u64 Read(Stream_& s, int type)
		{
			switch (type)
			{
			case 0: { u64 v = s.template Read<W>(); return v; }
			case 1: { Min v = s.template Read<W>(); return v; }
			case 2: { SMin v = s.template Read<W>(); return (u64)v & Low(sizeof(v) * 8); }
			default: { Bool v = s.template Read<W>(); return v; }
			}
		}
		static u64 Peek(Stream_& s) { u64 v = s.template Peek<W>(); return v; }
	};
	template < typename Stream_, int W >
	struct OneWrite
	{
		static void Write(Stream_& s, u64 v, int type)
		{
			switch (type)
			{
			case 0: s.template Write<W>(v); break;
			case 1: s.template Write<W>((typename OneWidth<Stream_, W>::Min)v); break;
			case 2: s.template Write<W>((s32)v); break; // may be narrower than the field
			default: s.template Write<W>((u8)v); break;
			}
		}
	};
	template < typename Stream_, size_t... I > const Ops<Stream_>* MakeRead(std::index_sequence<I...>) { static const Ops<Stream_> t[] = { { &OneWidth<Stream_, (int)I + 1>::Read, nullptr, &OneWidth<Stream_, (int)I + 1>::Peek }... }; return t; }
	template < typename Stream_, size_t... I > const Ops<Stream_>* MakeWrite(std::index_sequence<I...>) { static const Ops<Stream_> t[] = { { nullptr, &OneWrite<Stream_, (int)I + 1>::Write, nullptr }... }; return t; }
	template < typename Stream_, size_t... I > const Ops<Stream_>* MakeReadBytes(std::index_sequence<I...>) { static const Ops<Stream_> t[] = { { &OneWidth<Stream_, (int)(I + 1) * 8>::Read, nullptr, &OneWidth<Stream_, (int)(I + 1) * 8>::Peek }... }; return t; }
	template < typename Stream_, size_t... I > const Ops<Stream_>* MakeWriteBytes(std::index_sequence<I...>) { static const Ops<Stream_> t[] = { { nullptr, &OneWrite<Stream_, (int)(I + 1) * 8>::Write, nullptr }... }; return t; }
	u64 SeenAs(u64 v, unsigned w, int type) { switch (type) { case 2: v = (u32)v; break; case 3: v = (u8)v; break; } return v & Low(w); }
}
