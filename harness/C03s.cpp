// C03: caches. Every history of set/get/remove/clear against a list-based model of the policy.
#include "../seq/seq.h"
#include "common.h"
#include <stingraykit/collection/QueueCache.h>
#include <stingraykit/collection/TwoQueueCache.h>
#include <list>
#include <vector>
using namespace stingray;

namespace
{
	struct Val { int id; size_t size; Val(int i = -1, size_t s = 1) : id(i), size(s) { } bool operator == (const Val& o) const { return id == o.id && size == o.size; } };
	struct BySize { size_t operator () (const Val& v) const { return v.size; } };
	struct Entry { int key; Val val; bool operator == (const Entry& e) const { return key == e.key && val == e.val; } };
	typedef std::vector<Entry> Log;

	// the oldest entry first
	struct Model
	{
		std::list<Entry> items; size_t cap; bool lru, sized;
		Model(size_t c, bool l, bool s) : cap(c), lru(l), sized(s) { }
		size_t SizeOf(const Val& v) const { return sized ? v.size : 1; }
		size_t Size() const { size_t r = 0; for (auto& e : items) r += SizeOf(e.val); return r; }
		std::list<Entry>::iterator Find(int k) { auto i = items.begin(); while (i != items.end() && i->key != k) ++i; return i; }
		bool Get(int k, Val& v) { auto i = Find(k); if (i == items.end()) return false; v = i->val; if (lru) items.splice(items.end(), items, i); return true; }
		bool Remove(int k) { auto i = Find(k); if (i == items.end()) return false; items.erase(i); return true; }
		Log Set(int k, const Val& v) { Remove(k); items.push_back(Entry{ k, v }); Log out; while (Size() > cap) { out.push_back(items.front()); items.pop_front(); } return out; }
	};
	struct TwoQueueModel
	{
		Model in, out, hot;
		TwoQueueModel(size_t i, size_t o, size_t h, bool s) : in(i, false, s), out(o, false, s), hot(h, true, s) { }
		size_t Size() const { return in.Size() + out.Size() + hot.Size(); }
		bool Get(int k, Val& v, Log& ev) { if (hot.Get(k, v) || in.Get(k, v)) return true; if (!out.Get(k, v)) return false; out.Remove(k); ev = hot.Set(k, v); return true; }
		bool Remove(int k) { return hot.Remove(k) || out.Remove(k) || in.Remove(k); }
		Log Set(int k, const Val& v) { hot.Remove(k); out.Remove(k); Log ev; for (auto& e : in.Set(k, v)) for (auto& f : out.Set(e.key, e.val)) ev.push_back(f); return ev; }
		void Clear() { in.items.clear(); out.items.clear(); hot.items.clear(); }
	};
	struct OneModel
	{
		Model m;
		OneModel(size_t c, bool l, bool s) : m(c, l, s) { }
		size_t Size() const { return m.Size(); }
		bool Get(int k, Val& v, Log&) { return m.Get(k, v); }
		bool Remove(int k) { return m.Remove(k); }
		Log Set(int k, const Val& v) { return m.Set(k, v); }
		void Clear() { m.items.clear(); }
	};
	const int Keys = 3;

	template < typename C, typename M >
	void Run(int depth, C& c, M& m, size_t limit, bool sized)
	{
		Log evicted; int next = 0;
		Token conn = c.OnEvicted().connect(vh::Fn<void (int, const Val&)>([&](int k, const Val& v) { evicted.push_back(Entry{ k, v }); }));
		std::vector<Val> last(Keys); // the value last stored, whatever happened to it since
		for (int s = 0; s < depth; ++s)
		{
			Log expected; evicted.clear();
			const int op = seq::Pick(3 * Keys + 1), k = op % Keys;
			switch (op / Keys)
			{
			case 0: { const size_t size = sized ? seq::Pick(4) : 1; const Val v(++next, size); SEQ_LOG("set %d: value %d of size %zu", k, v.id, size); last[k] = v; c.Set(k, v); expected = m.Set(k, v); break; }
			case 1:
				{
					SEQ_LOG("get %d", k); Val out(-5, 77), e(-5, 77); const bool f = c.TryGet(k, out), ef = m.Get(k, e, expected);
					SEQ_CHECK_MSG(f == ef && out == e, "get %d: %s value %d, expected %s value %d", k, f ? "found" : "not found", out.id, ef ? "found" : "not found", e.id);
					SEQ_CHECK(!f || out == last[k]);
					break;
				}
			case 2: { SEQ_LOG("remove %d", k); const bool r = c.Remove(k), er = m.Remove(k); SEQ_CHECK_MSG(r == er, "remove %d says %d", k, r); break; }
			case 3: SEQ_LOG("clear"); c.Clear(); m.Clear(); break;
			}
			seq::Step();
			SEQ_CHECK_MSG(c.GetSize() == m.Size(), "size %zu, expected %zu", c.GetSize(), m.Size());
			SEQ_CHECK_MSG(c.GetSize() <= limit, "size %zu, capacity %zu", c.GetSize(), limit);
			SEQ_CHECK_MSG(evicted == expected, "%zu entries evicted, expected %zu%s", evicted.size(), expected.size(), evicted.size() == expected.size() ? ", others" : "");
		}
		// what is left, in a fixed order: getting refreshes or moves entries, in the model as well
		for (int k = 0; k < Keys; ++k)
		{
			Val out(-5, 77), e(-5, 77); Log x; const bool f = c.TryGet(k, out), ef = m.Get(k, e, x);
			SEQ_CHECK_MSG(f == ef && out == e, "at the end %d: %s value %d, expected %s value %d", k, f ? "found" : "not found", out.id, ef ? "found" : "not found", e.id);
		}
		// and the order in which it goes: push everything out
		evicted.clear(); Log expected;
		for (int i = 0; i < 2 * (int)limit + 1; ++i) { const Val v(1000 + i, 1); c.Set(10 + i, v); for (auto& x : m.Set(10 + i, v)) expected.push_back(x); }
		SEQ_CHECK_MSG(evicted == expected, "evicted at the end in another order");
	}
	seq::Hash H(const Model& m) { seq::Hash h; for (auto& e : m.items) h.Add(e.key).Add(e.val.size); return h; }
}

SEQ_SCENARIO(fifo, .Q(5).T(7).Split(4))
{ const size_t cap = seq::Pick(4); SEQ_LOG("capacity %zu", cap); FifoCache<int, Val> c(cap); OneModel m(cap, false, false); Run(depth, c, m, cap, false); seq::State(H(m.m)); }
SEQ_SCENARIO(lru, .Q(5).T(7).Split(4))
{ const size_t cap = seq::Pick(4); SEQ_LOG("capacity %zu", cap); LruCache<int, Val> c(cap); OneModel m(cap, true, false); Run(depth, c, m, cap, false); seq::State(H(m.m)); }
SEQ_SCENARIO(fifo_sized, .Q(4).T(6).Split(4))
{ const size_t cap = 1 + seq::Pick(5); SEQ_LOG("capacity %zu", cap); FifoCache<int, Val, BySize> c(cap); OneModel m(cap, false, true); Run(depth, c, m, cap, true); seq::State(H(m.m)); }
SEQ_SCENARIO(lru_sized, .Q(4).T(6).Split(4))
{ const size_t cap = 1 + seq::Pick(5); SEQ_LOG("capacity %zu", cap); LruCache<int, Val, BySize, comparers::Greater> c(cap); OneModel m(cap, true, true); Run(depth, c, m, cap, true); seq::State(H(m.m)); }
SEQ_SCENARIO(two_queues, .Q(5).T(7).Split(4))
{
	static const size_t caps[][3] = { { 1, 1, 1 }, { 1, 2, 1 }, { 2, 1, 1 }, { 1, 1, 2 }, { 0, 1, 1 }, { 1, 0, 1 }, { 1, 1, 0 } };
	const size_t* p = caps[seq::Pick(7)]; SEQ_LOG("capacities %zu %zu %zu", p[0], p[1], p[2]);
	TwoQueueCache<int, Val> c(p[0], p[1], p[2]); TwoQueueModel m(p[0], p[1], p[2], false); Run(depth, c, m, p[0] + p[1] + p[2], false);
	seq::State(H(m.in).Add(77).Add(H(m.out)).Add(H(m.hot)));
}
SEQ_SCENARIO(two_queues_sized, .Q(4).T(6).Split(4))
{
	static const size_t caps[][3] = { { 2, 2, 2 }, { 3, 2, 1 }, { 2, 1, 2 } };
	const size_t* p = caps[seq::Pick(3)]; SEQ_LOG("capacities %zu %zu %zu", p[0], p[1], p[2]);
	TwoQueueCache<int, Val, BySize> c(p[0], p[1], p[2]); TwoQueueModel m(p[0], p[1], p[2], true); Run(depth, c, m, p[0] + p[1] + p[2], true);
}
// a handler may use the cache
SEQ_SCENARIO(handler_uses_cache, .Q(4).T(6).Split(3))
{
	LruCache<int, Val> c(2); int busy = 0, total = 0; const int what = seq::Pick(4);
	Token conn = c.OnEvicted().connect(vh::Fn<void (int, const Val&)>([&](int k, const Val&)
		{
			Val v; SEQ_CHECK_MSG(!c.TryGet(k, v), "an evicted entry is still there"); ++total;
			if (busy++ == 0) switch (what) { case 0: c.Clear(); break; case 1: c.Set(k, Val(50, 1)); break; case 2: c.Remove((k + 1) % Keys); break; case 3: c.Set(7, Val(51, 1)); c.Set(8, Val(52, 1)); break; }
			--busy;
		}));
	int next = 0;
	for (int s = 0; s < depth; ++s)
	{
		const int k = seq::Pick(4); SEQ_LOG("set %d", k); c.Set(k, Val(++next, 1)); seq::Step();
		Val v; int found = 0; for (int i = 0; i < 10; ++i) if (c.TryGet(i, v)) ++found;
		SEQ_CHECK_MSG((int)c.GetSize() == found && found <= 2, "size %zu, entries %d", c.GetSize(), found);
	}
}
