// C08: byte arrays, views and owners against plain byte vectors.
#include "../seq/seq.h"
#include "common.h"
#include <stingraykit/collection/ByteData.h>
#include <stingraykit/collection/BytesOwner.h>
#include <memory>
#include <vector>
using namespace stingray;

namespace
{
	typedef std::vector<u8> Bytes;
	const size_t No = ~(size_t)0;
	std::string Str(const Bytes& b) { std::string s; for (u8 x : b) s += std::to_string(x) + " "; return s; }
	struct Ref // a view of a shared vector
	{
		std::shared_ptr<Bytes> d; size_t off, lim;
		size_t Size() const { return d->size() < off ? 0 : std::min(d->size() - off, lim); }
		Bytes Get() const { const size_t n = Size(); return n ? Bytes(d->begin() + off, d->begin() + off + n) : Bytes(); }
	};
	template < typename V >
	Bytes Walk(const V& v) { Bytes r; for (auto it = v.begin(); it != v.end(); ++it) r.push_back(*it); return r; }
	template < typename V >
	Bytes WalkBack(const V& v) { Bytes r; for (auto it = v.rbegin(); it != v.rend(); ++it) r.insert(r.begin(), *it); return r; }
	template < typename F >
	bool Throws(const F& f) { try { f(); } catch (const std::exception&) { return true; } return false; }

	bool g_bounds = true; // whether out-of-range accesses are tried as well
	template < typename V >
	void CheckView(const char* what, const V& v, const Bytes& e)
	{
		SEQ_CHECK_MSG(v.size() == e.size() && v.empty() == e.empty(), "%s: size %zu, expected %zu", what, v.size(), e.size());
		SEQ_CHECK_MSG(Walk(v) == e && WalkBack(v) == e, "%s: content %s, backwards %s, expected %s", what, Str(Walk(v)).c_str(), Str(WalkBack(v)).c_str(), Str(e).c_str());
		for (size_t i = 0; i < e.size(); ++i) SEQ_CHECK_MSG(v[i] == e[i] && v.data()[i] == e[i] && &v[i] == v.data() + i, "%s: element %zu", what, i);
		if (g_bounds) {
		const size_t bad[] = { e.size(), e.size() + 1, e.size() + 7, No, No - 1, No / 2 + 1 };
		for (size_t b : bad) { volatile u8 x = 0; SEQ_CHECK_MSG(Throws([&] { x = v[b]; }), "%s of %zu: element %zd given", what, e.size(), (ssize_t)b); } }
		SEQ_CHECK((ssize_t)(v.end() - v.begin()) == (ssize_t)e.size());
	}
	void CheckArray(const char* what, const ByteArray& a, const Ref& r)
	{
		const Bytes e = r.Get();
		CheckView(what, a, e); CheckView(what, ConstByteArray(a), e); CheckView(what, ByteData(a), e); CheckView(what, ConstByteData(a), e); CheckView(what, ConstByteData(ConstByteArray(a)), e);
		if (!e.empty()) SEQ_CHECK(ConstByteArray(a).data() == a.data() && ByteData(a).data() == a.data());
		for (size_t o : { (size_t)0, e.size() / 2, e.size() }) { CheckView("data at offset", ByteData(a, o), Bytes(e.begin() + o, e.end())); CheckView("data of range", ConstByteData(a, o / 2, e.size() - o), Bytes(e.begin() + o / 2, e.begin() + o / 2 + (e.size() - o))); }
	}
	size_t PickBound(size_t size, int n = 7) { switch (seq::Pick(n)) { default: return 0; case 1: return 1; case 2: return 2; case 3: return size; case 4: return size + 1; case 5: return No; case 6: return No - 1; } }
}

// any sequence of operations on handles that share memory
SEQ_SCENARIO(sharing, .Q(3).T(4).Split(3))
{
	ByteArray a[3]; Ref r[3]; u8 next = 1;
	for (int i = 0; i < 3; ++i) { r[i].d = std::make_shared<Bytes>(); r[i].off = 0; r[i].lim = No; }
	{ const u8 init[] = { 201, 202, 203, 204, 205 }; a[0] = ByteArray(init, 5); *r[0].d = Bytes(init, init + 5); }
	bool last = false; // a refused operation changes nothing: no need to go on after it
	for (int s = 0; s < depth && !last; ++s)
	{
		static const int ops[] = { 0, 1, 2, 4, 6, 7, 8, 9, 10, 11 };
		const int i = s ? seq::Pick(3) : 0, first = ops[seq::Pick(10)], op = first == 2 || first == 4 ? first + (s + i) % 2 : first; /* 3 and 5: the same with a moved source */ const int j = (i + 1) % 3;
		const size_t size = r[i].Size();
		switch (op)
		{
		case 0: SEQ_LOG("%d = copy of %d", j, i); a[j] = a[i]; r[j] = r[i]; break;
		case 1: SEQ_LOG("%d = moved from %d", j, i); { ByteArray t(std::move(a[i])); a[j] = std::move(t); } r[j] = r[i]; a[i] = ByteArray(); r[i].d = std::make_shared<Bytes>(); r[i].off = 0; r[i].lim = No; break;
		case 2: case 3:
			{
				const size_t o = PickBound(size, s ? 5 : 7); SEQ_LOG("%d = %s%d from %zd", j, op == 3 ? "moved " : "", i, (ssize_t)o);
				ByteArray src(a[i]); bool threw = false;
				try { ByteArray t = op == 2 ? ByteArray(src, o) : ByteArray(std::move(src), o); a[j] = t; } catch (const std::exception&) { threw = true; }
				SEQ_CHECK_MSG(threw == (o > size), "offset %zd of %zu bytes %s", (ssize_t)o, size, threw ? "refused" : "accepted");
				if (threw) last = true; if (!threw) { r[j] = r[i]; r[j].off += o; if (r[i].lim != No) r[j].lim -= o; }
				break;
			}
		case 4: case 5:
			{
				const size_t o = PickBound(size, s ? 5 : 7), l = PickBound(o <= size ? size - o : 0, s ? 5 : 7); SEQ_LOG("%d = %s%d from %zd, %zd bytes", j, op == 5 ? "moved " : "", i, (ssize_t)o, (ssize_t)l);
				if (l == No && r[i].lim == No && o <= size) return; // that is "no limit", not a size
				ByteArray src(a[i]); bool threw = false;
				try { ByteArray t = op == 4 ? ByteArray(src, o, l) : ByteArray(std::move(src), o, l); a[j] = t; } catch (const std::exception&) { threw = true; }
				SEQ_CHECK_MSG(threw == (o > size || l > size - o), "range %zd, %zd of %zu bytes %s", (ssize_t)o, (ssize_t)l, size, threw ? "refused" : "accepted");
				if (threw) last = true; if (!threw) { r[j] = r[i]; r[j].off += o; r[j].lim = l; }
				break;
			}
		case 6: if (!size) return; { const size_t x = seq::Flip() ? size - 1 : 0; SEQ_LOG("%d[%zu] = %d", i, x, next); a[i][x] = next; (*r[i].d)[r[i].off + x] = next++; } break;
		case 7:
			{
				if (r[i].d->size() < r[i].off) return; // appending behind a vanished beginning is not claimed
				const u8 add[] = { next, (u8)(next + 1) }; next += 2; SEQ_LOG("append to %d", i); const int how = seq::Pick(3);
				const bool threw = Throws([&] { if (how == 0) a[i].append(add, add + 2); else if (how == 1) a[i].append(Bytes(add, add + 2)); else a[i].append(ConstByteArray(add, 2)); });
				SEQ_CHECK_MSG(threw == (r[i].lim != No), "append %s", threw ? "refused" : "accepted");
				if (!threw) r[i].d->insert(r[i].d->end(), add, add + 2);
				break;
			}
		case 8: case 9:
			{
				const size_t n = op == 8 ? size + 2 : seq::Pick(3); SEQ_LOG("%d requires %zu", i, n); const bool threw = Throws([&] { a[i].RequireSize(n); });
				SEQ_CHECK(threw == (r[i].lim != No)); if (!threw && r[i].d->size() < r[i].off + n) r[i].d->resize(r[i].off + n);
				break;
			}
		case 10: { SEQ_LOG("reserve %d", i); const bool threw = Throws([&] { a[i].reserve(20); }); SEQ_CHECK(threw == (r[i].lim != No)); break; }
		case 11:
			switch (seq::Pick(3))
			{
			case 0: SEQ_LOG("%d cleared", i); if (r[i].lim != No) { const bool threw = Throws([&] { a[i].clear(); }); SEQ_CHECK_MSG(threw, "part of an array was cleared"); } else { a[i].clear(); if (r[i].d->size() > r[i].off) r[i].d->resize(r[i].off); } break;
			case 1: SEQ_LOG("swap %d %d", i, j); a[i].swap(a[j]); std::swap(r[i], r[j]); break;
			case 2: // an explicit copy
				{
					const Bytes e = r[i].Get(); SEQ_LOG("%d = deep copy of %d", j, i);
					switch (seq::Pick(3)) { case 0: a[j] = ByteArray(a[i].begin(), a[i].end()); break; case 1: a[j] = ByteArray(e); break; case 2: a[j] = ByteArray(a[i].data(), a[i].size()); break; }
					r[j].d = std::make_shared<Bytes>(e); r[j].off = 0; r[j].lim = No; break;
				}
			}
			break;
		}
		seq::Step();
		g_bounds = false; // no operation depends on having been observed, so the last one is enough
		for (int k = 0; k < 3; ++k) CheckArray(k == i ? "the array used" : k == j ? "the array made" : "another array", a[k], r[k]);
		for (int k = 0; k < 3; ++k) for (int m = 0; m < 3; ++m) if (r[k].Size() && r[m].Size())
			if (r[k].d == r[m].d) SEQ_CHECK_MSG(a[k].data() - r[k].off == a[m].data() - r[m].off, "arrays do not share");
	}
	g_bounds = true; for (int k = 0; k < 3; ++k) CheckView("an array", a[k], r[k].Get());
	seq::Hash h; for (int k = 0; k < 3; ++k) { h.Add(r[k].off).Add(r[k].lim).Add(r[k].d->size()); } seq::State(h);
}

// sub-ranges of sub-ranges, in all kinds of views
namespace
{
	struct Window { bool ok; size_t off, size; };
	Window Sub(Window w, size_t o) { if (!w.ok || o > w.size) return Window{ false, 0, 0 }; return Window{ true, w.off + o, w.size - o }; }
	Window Sub(Window w, size_t o, size_t l) { if (!w.ok || o > w.size || l > w.size - o) return Window{ false, 0, 0 }; return Window{ true, w.off + o, l }; }
	template < typename V >
	void Nest(const char* what, V v, u8* base, Window w, int levels)
	{
		if (!levels) return;
		const bool limited = seq::Flip(); const size_t o = PickBound(w.size), l = limited ? PickBound(o <= w.size ? w.size - o : 0) : 0;
		const Window n = limited ? Sub(w, o, l) : Sub(w, o);
		SEQ_LOG("%s: from %zd, %zd bytes", what, (ssize_t)o, limited ? (ssize_t)l : -9);
		V keep(v); seq::Step();
		for (int moved = 0; moved < 2; ++moved)
		{
			bool threw = false; V src(keep);
			try
			{
				V s = limited ? (moved ? V(std::move(src), o, l) : V(src, o, l)) : (moved ? V(std::move(src), o) : V(src, o));
				SEQ_CHECK_MSG(n.ok, "%s of %zu bytes: from %zd, %zd bytes accepted, giving %zu", what, w.size, (ssize_t)o, limited ? (ssize_t)l : -9, s.size());
				CheckView(what, s, Bytes(base + n.off, base + n.off + n.size));
				if (n.size) SEQ_CHECK_MSG(s.data() == base + n.off, "%s: does not alias the same memory", what);
				v = s;
			}
			catch (const std::exception&) { threw = true; }
			SEQ_CHECK_MSG(threw == !n.ok, "%s of %zu bytes: from %zd, %zd bytes refused", what, w.size, (ssize_t)o, limited ? (ssize_t)l : -9);
		}
		CheckView(what, keep, Bytes(base + w.off, base + w.off + w.size)); // a refused or accepted request leaves its source alone
		if (n.ok) Nest(what, v, base, n, levels - 1);
	}
	u8 g_mem[16];
}
SEQ_SCENARIO(subranges, .Q(2).T(3).Split(4))
{
	const size_t size = 1 + seq::Pick(5); for (int i = 0; i < 16; ++i) g_mem[i] = 10 + i;
	std::unique_ptr<u8[]> mem(new u8[size]); std::copy(g_mem, g_mem + size, mem.get());
	const Window w = { true, 0, size };
	switch (seq::Pick(8))
	{
	case 0: Nest("view", ByteData(mem.get(), size), mem.get(), w, depth); break;
	case 1: Nest("const view", ConstByteData(mem.get(), size), mem.get(), w, depth); break;
	case 2: { BytesOwner o = BytesOwner::Create(ConstByteData(mem.get(), size)); u8* p = o.data(); Nest("owner", std::move(o), p, w, depth); break; }
	case 3: { BytesOwner o = BytesOwner::Create(ConstByteData(mem.get(), size)); u8* p = o.data(); Nest("const owner", ConstBytesOwner(std::move(o)), p, w, depth); break; }
	case 4: { ConstBytesOwner o = ConstBytesOwner::Create(ConstByteData(mem.get(), size)); SEQ_CHECK(o.data() != mem.get()); CheckView("const copy", o, Bytes(mem.get(), mem.get() + size)); break; }
	case 5:
		{
			ByteArray a(mem.get(), size); const size_t o = PickBound(size), l = PickBound(o <= size ? size - o : 0); const Window n = Sub(w, o, l), n1 = Sub(w, o); bool t1 = false, t2 = false;
			try { ByteData d(a, o, l); CheckView("view of array", d, n.ok ? Bytes(mem.get() + n.off, mem.get() + n.off + n.size) : Bytes(99)); } catch (const std::exception&) { t1 = true; }
			try { ConstByteData d(a, o); CheckView("view of array", d, n1.ok ? Bytes(mem.get() + n1.off, mem.get() + n1.off + n1.size) : Bytes(99)); } catch (const std::exception&) { t2 = true; }
			SEQ_CHECK(t1 == !n.ok && t2 == !n1.ok); break;
		}
	case 6: // a limited array
		{
			const u8 big[] = { 1, 2, 10, 11, 12, 13, 14, 3, 4 }; ByteArray all(big, 9); ByteArray a(all, 2, size); u8* p = &all[2];
			Nest("limited array", a, p, w, depth); break;
		}
	case 7: // an unlimited one at an offset; a limit of No means none
		{
			const u8 big[] = { 1, 2, 10, 11, 12, 13, 14 }; ByteArray all(big, 2 + size); ByteArray a(all, 2, No); CheckView("no limit", a, Bytes(big + 2, big + 2 + size)); ByteArray lim(all, 2, size);
			SEQ_CHECK(Throws([&] { ByteArray(lim, 0, No); }) && Throws([&] { ByteArray(lim, 1, No); })); a.RequireSize(size + 1); SEQ_CHECK(a.size() == size + 1 && all.size() == size + 3 && lim.size() == size); break;
		}
	}
}

// storage lives while an owner, or anything that shares it, does
namespace { struct Life : public virtual IToken { int* n; Life(int* p) : n(p) { ++*n; } ~Life() override { --*n; } }; }
SEQ_SCENARIO(owners, .Q(4).T(5).Split(3))
{
	g_bounds = false;
	int alive = 0; struct R { std::shared_ptr<int> life; u8* p; Bytes* mem; size_t off, size; }; std::vector<std::unique_ptr<Bytes>> mems;
	BytesOwner o[3]; R r[3] = { };
	u8 next = 1;
	for (int s = 0; s < depth; ++s)
	{
		const int i = s ? seq::Pick(3) : 0, j = (i + 1) % 3;
		switch (seq::Pick(7))
		{
		case 0: // memory of somebody else, released by a token
			{
				mems.push_back(std::unique_ptr<Bytes>(new Bytes{ next, (u8)(next + 1), (u8)(next + 2) })); next += 3; Bytes* m = mems.back().get(); SEQ_LOG("%d: adopted", i);
				if (seq::Flip()) { const Token t = MakeToken<Life>(&alive); o[i] = BytesOwner(ByteData(*m), t); } else o[i] = BytesOwner(ByteData(*m), MakeToken<Life>(&alive));
				r[i] = R{ std::make_shared<int>(1), m->data(), m, 0, 3 }; break;
			}
		case 1:
			{
				SEQ_LOG("%d: created", i); const u8 b[] = { next, (u8)(next + 1) }; next += 2; o[i] = BytesOwner::Create(ConstByteData(b, 2)); mems.push_back(std::unique_ptr<Bytes>(new Bytes(b, b + 2)));
				r[i] = R{ nullptr, nullptr, mems.back().get(), 0, 2 }; break;
			}
		case 2: SEQ_LOG("%d copied to %d", i, j); o[j] = o[i]; r[j] = r[i]; break;
		case 3: SEQ_LOG("%d moved to %d", i, j); o[j] = std::move(o[i]); r[j] = r[i]; o[i] = BytesOwner(); r[i] = R(); break;
		case 4: if (!r[i].size) return; SEQ_LOG("%d: tail of %d", j, i); if (seq::Flip()) o[j] = BytesOwner(o[i], 1); else { BytesOwner t(o[i]); o[j] = BytesOwner(std::move(t), 1, o[i].size() - 1); } r[j] = r[i]; ++r[j].off; --r[j].size; break;
		case 5: SEQ_LOG("%d dropped", i); o[i] = BytesOwner(); r[i] = R(); break;
		case 6: if (!r[i].size) return; SEQ_LOG("write %d", i); if (seq::Flip()) o[i][0] = next; else { const ByteData dv(o[i]); dv[0] = next; } (*r[i].mem)[r[i].off] = next; ++next; break;
		}
		seq::Step();
		std::vector<int*> lives; for (int k = 0; k < 3; ++k) if (r[k].life && std::find(lives.begin(), lives.end(), r[k].life.get()) == lives.end()) lives.push_back(r[k].life.get());
		SEQ_CHECK_MSG(alive == (int)lives.size(), "%d storages alive, %zu used", alive, lives.size());
		for (int k = 0; k < 3; ++k) { const Bytes e = r[k].size ? Bytes(r[k].mem->begin() + r[k].off, r[k].mem->begin() + r[k].off + r[k].size) : Bytes(); CheckView("owner", o[k], e); CheckView("view of owner", ConstByteData(o[k]), e); }
		for (int k = 0; k < 3; ++k) for (int m = 0; m < 3; ++m) SEQ_CHECK((o[k] == o[m]) == (Walk(o[k]) == Walk(o[m])) && (o[k] < o[m]) == (Walk(o[k]) < Walk(o[m])) && (o[k] != o[m]) == (Walk(o[k]) != Walk(o[m])));
	}
	g_bounds = true; CheckView("an owner", o[0], Walk(o[0])); g_bounds = false;
	for (int k = 0; k < 3; ++k) o[k] = BytesOwner();
	SEQ_CHECK(alive == 0);
	g_bounds = true;
	{ BytesOwner z = BytesOwner::Create(size_t(3)); SEQ_CHECK(z.size() == 3); for (u8& x : z) x = 1; CheckView("fresh", z, Bytes(3, 1)); BytesOwner y = BytesOwner::Create(size_t(0)); SEQ_CHECK(y.empty()); }
}

// an array's memory lives as long as any array using it; comparison is that of the contents; other sources
SEQ_SCENARIO(contents, .Q(3).T(4).Split(3))
{
	Bytes x, y; const int n = seq::Pick(depth + 1), m = seq::Pick(depth + 1); for (int i = 0; i < n; ++i) x.push_back("\x00\x01\xff"[seq::Pick(3)]); for (int i = 0; i < m; ++i) y.push_back("\x00\x01\xff"[seq::Pick(3)]);
	ByteArray a(x); ConstByteArray b(y); ConstByteArray ca(a); ByteData da(x); ConstByteData db(y), cda(x); seq::Step();
	SEQ_CHECK((a == b) == (x == y)); SEQ_CHECK((ca != b) == (x != y)); SEQ_CHECK((ca < b) == (x < y)); SEQ_CHECK((ca > b) == (x > y)); SEQ_CHECK((ca <= b) == (x <= y)); SEQ_CHECK((ca >= b) == (x >= y));
	SEQ_CHECK((cda == db) == (x == y) && (cda != db) == (x != y) && (cda < db) == (x < y) && (cda > db) == (x > y) && (cda <= db) == (x <= y) && (cda >= db) == (x >= y));
	CheckView("view of vector", da, x); SEQ_CHECK(x.empty() || da.data() == x.data());
	const auto va = make_shared_ptr<Bytes>(x); { ByteArray s(va); CheckView("array of vector", s, x); s.RequireSize(x.size() + 1); SEQ_CHECK(va->size() == x.size() + 1 && (*va)[x.size()] == 0); va->resize(x.size()); CheckView("shrunk", s, x); }
	CheckView("sized", ByteArray(size_t(n)), Bytes(n)); CheckView("of iterators", ByteArray(y.begin(), y.end()), y);
	ByteArray part; { ByteArray t(x); part = ByteArray(t, x.size() / 2); } CheckView("outlives its array", part, Bytes(x.begin() + x.size() / 2, x.end()));
	ConstByteArray cpart; { ByteArray t(y); cpart = ConstByteArray(t, y.size() / 2, y.size() - y.size() / 2); } CheckView("outlives its array", cpart, Bytes(y.begin() + y.size() / 2, y.end()));
	array<u8, 3> arr = {{ 1, 2, 3 }}; CheckView("of array", ByteData(arr), Bytes{ 1, 2, 3 }); u8 raw[2] = { 7, 8 }; CheckView("of plain array", ConstByteData(raw), Bytes{ 7, 8 }); SEQ_CHECK(ByteData(raw).data() == raw && ByteData(arr).data() == arr.data());
	// iterators: within the range they work like pointers, outside they give nothing
	const auto it = da.begin(); for (size_t i = 0; i < x.size(); ++i) { SEQ_CHECK(*(it + i) == x[i] && it[i] == x[i] && &*(it + i) == da.data() + i); auto k = da.end(); k -= x.size() - i; SEQ_CHECK(k == it + i && k - it == (ptrdiff_t)i && !(k < it)); }
	SEQ_CHECK(Throws([&] { volatile u8 v = *da.end(); (void)v; })); SEQ_CHECK(Throws([&] { volatile u8 v = *a.end(); (void)v; }));
	if (!x.empty()) SEQ_CHECK(Throws([&] { auto k = da.begin(); --k; volatile u8 v = *k; (void)v; }));
	std::vector<u8> out(ca.begin(), ca.end()); SEQ_CHECK(out == x);
}
