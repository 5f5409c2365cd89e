#ifndef VERIF_HARNESS_ITER_H
#define VERIF_HARNESS_ITER_H
#include <seq/seq.h>
#include <vector>
namespace vh
{
	// the laws of every forward iterator: copies and assigned iterators are positions of their own, and stay what they are
	template <typename It_, typename Val_>
	void IterLaws(const It_ b, const It_ e, const Val_& val, size_t size, const char* what)
	{
		typedef decltype(val(*b)) V;
		std::vector<It_> pos; std::vector<V> vals;
		for (It_ it(b); it != e && pos.size() <= size; ++it) { pos.push_back(it); vals.push_back(val(*it)); }
		SEQ_CHECK_MSG(pos.size() == size, "%s: %zu positions, expected %zu", what, pos.size(), size); pos.push_back(e);
		for (size_t i = 0; i <= size; ++i)
			for (size_t j = 0; j <= size; ++j)
			{
				It_ x(pos[i]); if (i < size) SEQ_CHECK_MSG(val(*x) == vals[i], "%s: a copy at %zu shows another element", what, i);
				x = pos[j]; SEQ_CHECK_MSG(x == pos[j] && !(x != pos[j]) && (x == pos[i]) == (i == j), "%s: %zu assigned from %zu compares wrongly", what, i, j);
				if (j < size) SEQ_CHECK_MSG(val(*x) == vals[j], "%s: %zu assigned from %zu shows another element", what, i, j);
				if (j >= size) continue;
				It_ y(x); It_& r = ++y; SEQ_CHECK_MSG(&r == &y && y == pos[j + 1] && x == pos[j] && val(*x) == vals[j], "%s: advancing a copy", what); if (j + 1 < size) SEQ_CHECK_MSG(val(*y) == vals[j + 1], "%s: an advanced copy shows another element", what);
				It_ z(x); It_ old(z++); SEQ_CHECK_MSG(old == pos[j] && z == pos[j + 1] && val(*old) == vals[j], "%s: post-increment", what);
			}
	}
	// and of the bidirectional ones
	template <typename It_, typename Val_>
	void IterLawsBack(const It_ b, const It_ e, const Val_& val, size_t size, const char* what)
	{
		IterLaws(b, e, val, size, what); std::vector<It_> pos; for (It_ it(b); it != e; ++it) pos.push_back(it); pos.push_back(e);
		for (size_t i = size; i > 0; --i) { It_ x(pos[i]); if (i < size) val(*x); It_& r = --x; SEQ_CHECK_MSG(&r == &x && x == pos[i - 1] && val(*x) == val(*pos[i - 1]), "%s: stepping back from %zu", what, i); It_ y(pos[i]); It_ old(y--); SEQ_CHECK_MSG(old == pos[i] && y == pos[i - 1], "%s: post-decrement at %zu", what, i); }
	}
	// and of those with random access
	template <typename It_, typename Val_>
	void IterLawsRandom(const It_ b, const It_ e, const Val_& val, size_t size, const char* what)
	{
		IterLawsBack(b, e, val, size, what); std::vector<It_> pos; for (It_ it(b); it != e; ++it) pos.push_back(it); pos.push_back(e);
		for (size_t i = 0; i <= size; ++i)
			for (size_t j = 0; j <= size; ++j)
			{
				const It_ x(pos[i]), y(pos[j]); const std::ptrdiff_t d = (std::ptrdiff_t)j - (std::ptrdiff_t)i;
				SEQ_CHECK_MSG(y - x == d && x + d == y && y - d == x, "%s: distance from %zu to %zu", what, i, j);
				SEQ_CHECK_MSG((x < y) == (d > 0) && (x > y) == (d < 0) && (x <= y) == (d >= 0) && (x >= y) == (d <= 0), "%s: order of %zu and %zu", what, i, j);
				It_ z(x); It_& r = (z += d); SEQ_CHECK_MSG(&r == &z && z == y, "%s: += from %zu to %zu", what, i, j); It_& q = (z -= d); SEQ_CHECK_MSG(&q == &z && z == x, "%s: -= from %zu to %zu", what, j, i);
				if (j < size) { SEQ_CHECK_MSG(val(x[d]) == val(*y), "%s: [%td] at %zu", what, d, i); }
			}
	}
	template <typename C_, typename Val_> void ContainerIterLaws(C_& c, const Val_& val, size_t size, const char* what) { IterLawsBack(c.begin(), c.end(), val, size, what); const C_& cc = c; IterLawsBack(cc.begin(), cc.end(), val, size, what); }
	template <typename T_> T_ Same(const T_& x) { return x; }
}
#endif
