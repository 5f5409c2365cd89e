// T15: all sequences of pool operations in one thread.
#include "../seq/seq.h"
#include "common.h"
#include <stingraykit/ObjectPool.h>
#include <stingraykit/self_counter.h>
#include <stingraykit/shared_ptr.h>
#include <stingraykit/unique_ptr.h>
#include <vector>
using namespace stingray;

namespace
{
	std::vector<int> g_dead; bool g_collecting;
	struct Base { int id; Base(int i) : id(i) { } virtual ~Base() { } };
	struct Side { int pad; Side() : pad(1) { } virtual ~Side() { } };
	struct Obj : public Side, public Base { Obj(int i) : Base(i) { } ~Obj() { g_dead.push_back(id); } };
	int Dead(int id) { int n = 0; for (int x : g_dead) n += x == id; return n; }
	const int N = 3;
	struct M { int ext, pools[2]; bool dead; M() : ext(0), pools(), dead(false) { } int Total() const { return ext + pools[0] + pools[1]; } };
}
SEQ_SCENARIO(pool, .Q(6).T(8))
{
	g_dead.clear(); M m[N];
	shared_ptr<Obj> a[N]; shared_ptr<Base> b[N]; weak_ptr<Obj> w[N];
	unique_ptr<ObjectPool> pool[2]; pool[0].reset(new ObjectPool); pool[1].reset(new ObjectPool);
	for (int i = 0; i < N; ++i) { a[i] = shared_ptr<Obj>(new Obj(i)); w[i] = a[i]; m[i].ext = 1; }
	for (int step = 0; step < depth; ++step)
	{
		const int op = seq::Pick(8);
		if (op <= 4)
		{
			const int i = seq::Pick(step ? N : 1); SEQ_LOG("op %d obj %d", op, i);
			switch (op)
			{
			case 0: if (!a[i] || !pool[0]) return; pool[0]->AddObject(a[i]); ++m[i].pools[0]; break;
			case 1: if (!b[i] || !pool[1]) { if (!a[i] || !pool[1]) return; pool[1]->AddObject(a[i]); } else pool[1]->AddObject(b[i]); ++m[i].pools[1]; break;
			case 2: if (!a[i]) return; a[i].reset(); --m[i].ext; break;
			case 3: if (b[i]) { b[i].reset(); --m[i].ext; } else { if (!a[i]) return; b[i] = a[i]; ++m[i].ext; } break;
			case 4: { if (a[i]) return; a[i] = w[i].lock(); SEQ_CHECK_MSG(!!a[i] == !m[i].dead, "weak reference promoted wrongly"); if (a[i]) ++m[i].ext; break; }
			}
		}
		else if (op <= 6) { const int k = op - 5; SEQ_LOG("collect %d", k); if (!pool[k]) return; pool[k]->CollectGarbage(); for (int i = 0; i < N; ++i) if (m[i].Total() == 1 && m[i].pools[k] == 1) m[i].pools[k] = 0; }
		else { const int k = seq::Pick(2); SEQ_LOG("destroy %d", k); if (!pool[k]) return; pool[k].reset(); for (int i = 0; i < N; ++i) m[i].pools[k] = 0; }
		for (int i = 0; i < N; ++i)
		{
			// an object added twice to one pool is held by the pool itself: whether the last two entries are collected is not promised
			if (!m[i].Total()) m[i].dead = true;
			SEQ_CHECK_MSG(Dead(i) == (m[i].dead ? 1 : 0), "object %d destroyed %d times, %d holders", i, Dead(i), m[i].Total());
			SEQ_CHECK(w[i].expired() == m[i].dead);
			if (a[i]) SEQ_CHECK(a[i]->id == i && a[i]->pad == 1);
			if (b[i]) SEQ_CHECK(b[i]->id == i);
		}
		seq::Step();
	}
	for (int i = 0; i < N; ++i) { a[i].reset(); b[i].reset(); }
	for (int k = 0; k < 2; ++k) pool[k].reset();
	for (int i = 0; i < N; ++i) SEQ_CHECK_MSG(Dead(i) == 1, "object %d destroyed %d times", i, Dead(i));
}
