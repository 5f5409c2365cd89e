// N02: integers put together field by field.
#include <seq/seq.h>
#include <harness/common.h>
#include <stingraykit/Types.h>
#include <stingraykit/IntegerBuilder.h>

using namespace stingray;

namespace
{
	template < typename R, typename U > void Put(IntegerBuilder<R>& b, u64& model, u64 pattern, size_t width)
	{
		const U field = (U)pattern; const u64 mask = ~0ull >> (64 - width);
		model = (width == 64 ? 0 : model << width) | ((u64)field & mask);
		IntegerBuilder<R>& same = b.Append(field, width); SEQ_CHECK(&same == &b);
		SEQ_LOG("append %zu bits of %llx (%zu bytes, %ssigned)", width, (unsigned long long)((u64)field & mask), sizeof(U), std::is_signed<U>::value ? "" : "un");
	}
	template < typename R > void Build(int depth)
	{
		const size_t total = sizeof(R) * 8; static const u64 patterns[] = { ~0ull, 0xA5C35A3C96F00F69ull, 1, 0 };
		IntegerBuilder<R> b; u64 model = 0; size_t used = 0;
		for (int i = 0; i < depth && used < total; ++i)
		{
			const int type = seq::Pick(9); seq::Step();
			if (type == 8) { const bool bit = seq::Flip(); b.Append(bit); model = model << 1 | bit; ++used; SEQ_LOG("append bit %d", bit); }
			else
			{
				const size_t size = 8u << type % 4; static const size_t widths[] = { 1, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64 };
				size_t n = 0; while (n < 14 && widths[n] <= std::min(size, total - used)) ++n;
				size_t w = widths[seq::Pick(n)]; if (w == total && used == 0 && total >= 32) w = total - 1; // the whole width at once is no field
				const u64 p = patterns[seq::Pick(4)]; used += w;
				switch (type) { case 0: Put<R, u8>(b, model, p, w); break; case 1: Put<R, u16>(b, model, p, w); break; case 2: Put<R, u32>(b, model, p, w); break; case 3: Put<R, u64>(b, model, p, w); break; case 4: Put<R, s8>(b, model, p, w); break; case 5: Put<R, s16>(b, model, p, w); break; case 6: Put<R, s32>(b, model, p, w); break; case 7: Put<R, s64>(b, model, p, w); break; }
			}
			const R got = b.GetResult(); SEQ_CHECK_MSG(got == (R)model, "the result is %llx, expected %llx", (unsigned long long)got, (unsigned long long)(R)model);
		}
	}
}

SEQ_SCENARIO(builder, .Q(3).T(4).Split(2)) { if (seq::Flip()) Build<u32>(depth); else Build<u64>(depth); }
SEQ_SCENARIO(builder_small, .Q(3).T(4).Split(2)) { if (seq::Flip()) Build<u8>(depth); else Build<u16>(depth); }
