// Controlled-scheduler model checker: runtime (engine E1).
// Replaces libtsan's runtime and interposes on pthread/semaphore/clock/allocator entry points, so that every
// scheduling decision of instrumented code is taken here. This file is compiled without instrumentation.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "mc.h"
#include <atomic>
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <exception>
#include <link.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>
#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <vector>

typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8; typedef int64_t i64;
typedef uintptr_t uptr;

extern "C" void* __libc_malloc(size_t); extern "C" void __libc_free(void*); extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t); extern "C" void* __libc_memalign(size_t, size_t);

namespace {

enum { MAXT = 14, MAXDEC = 60000, MAXOPT = 24 };
enum Op { OP_NONE, OP_START, OP_LOCK, OP_TRYLOCK, OP_UNLOCK, OP_CWAIT, OP_CWAITING, OP_CRELOCK, OP_SIGNAL, OP_BCAST,
	OP_SEMWAIT, OP_SEMTRY, OP_SEMPOST, OP_JOIN, OP_JOINALL, OP_ONCE, OP_SLEEP, OP_YIELD, OP_ALOAD, OP_ASTORE, OP_RMW,
	OP_POINT, OP_GUARD, OP_EVENT, OP_CELLR, OP_CELLW, OP_CLOCK, OP_TIMEOUT, OP_SPURIOUS, OP_CREATE, OP_EXIT, OP_PICK, OP_ONCEDONE, OP_TIMEDLOCK };
const char* OpName[] = { "none", "start", "lock", "trylock", "unlock", "cond-wait", "cond-waiting", "cond-relock", "signal", "broadcast",
	"sem-wait", "sem-try", "sem-post", "join", "join-all", "once", "sleep", "yield", "atomic-load", "atomic-store", "atomic-rmw",
	"point", "static-guard", "event", "cell-read", "cell-write", "clock", "timeout", "spurious-wakeup", "create", "exit", "pick", "once-done", "timed-lock" };

struct VC { u32 c[MAXT]; };

struct Obj { uptr addr; u32 exec; u8 kind; bool destroyed; bool inprog; int owner; int rec; int sem; u64 oh; VC vc; };

struct Thr
{
	bool used, done, joined, detached, yielded, exiting;
	int pend; uptr pobj; bool timed; i64 deadline; bool timedout, spur; uptr cmutex; u64 cseq; int crec;
	u64 h; VC vc;
	void* (*fn)(void*); void* arg; void* ret;
	// pool part (survives executions)
	bool real; pthread_t pt; std::atomic<int> turn;
	uptr* stk; int sp;
	void* keys[128];
};

struct Dec { u64 key; u8 n, chosen; u8 cost[MAXOPT]; };
enum { ST_RUN = 0, ST_OK = 1, ST_VIOL = 3, ST_ERR = 4 };
struct Shm // one per worker, shared with the master
{
	int status; char msg[16384]; char log[8192]; char outcome[1024]; u64 outcomeHash;
	int ndec; u64 steps; int bound; int scenario;
	u64 execs, totSteps, totDec, expanded, pruned, capped, restarts, leakedExecs, cut; u64 maxDec, maxThreads;
	u64 outs[4096]; u64 nouts; char sample[512];
	Dec dec[MAXDEC];
	int diverged, nprev; u8 prev[MAXDEC]; // choices of the execution before this one
};
std::vector<std::vector<u8> > g_warmPaths; bool g_clamp = false, g_isolate = false;

struct Scen { const char* name; void (*body)(); mc::Opts o; };
struct ScenTab { Scen* p; Scen& operator [] (int i) const { return p[i]; } };
ScenTab g_scen; int g_nscen; // zero-initialised: registration runs during static initialisation

bool g_active = false;   // an execution is in progress
bool g_inrt = false;     // inside this runtime (or controller code)
bool g_arenaOn = false;
bool g_replay = false; FILE* g_trace = 0;
mc::Opts g_cur;
struct { void (*f)(void*); void* a; } g_exits[256]; int g_nexit = 0; // ForkEach scenarios: what was registered for program exit
Thr T[MAXT]; int nthr = 0; int cur = 0;
u32 g_exec = 0;
u64 S = 0; i64 g_clock = 0; u64 g_clockH = 0, g_logH = 0; u64 g_cseq = 0; int g_eventN = 0;
std::atomic<int> g_ctl;
Shm* W = 0;              // this worker's shared block
const u8* g_prefix = 0; int g_plen = 0; const u64* g_pkeys = 0;
u64 g_steps = 0;
bool g_forkChild = false;
bool g_guardInit = false; // some one-time static initialisation ran in this execution

inline u64 mix(u64 x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33; return x; }
inline u64 H(u64 a, u64 b) { return mix(a * 0x9e3779b97f4a7c15ULL + mix(b + 0x7f4a7c15ULL)); }
inline u64 H(u64 a, u64 b, u64 c) { return H(H(a, b), c); }

void fwait(std::atomic<int>& f) { while (!f.load()) syscall(SYS_futex, (int*)&f, FUTEX_WAIT, 0, 0, 0, 0); f.store(0); }
void fpost(std::atomic<int>& f) { f.store(1); syscall(SYS_futex, (int*)&f, FUTEX_WAKE, 1, 0, 0, 0); }

// ------------------------------------------------------------------ arena
const uptr ARENA = 0x100000000000ULL; const u64 ASZ = 64ull << 20; // per thread
u64 a_off[MAXT], a_base[MAXT]; i64 a_live = 0;
inline bool inArena(uptr p) { return p >= ARENA && p < ARENA + ASZ * MAXT; }
inline uptr norm(uptr p) { if (!inArena(p)) return p; u64 i = (p - ARENA) / ASZ; return ARENA + i * ASZ + ((p - ARENA) % ASZ - a_base[i]); }

// ------------------------------------------------------------------ objects
enum { OCAP = 1 << 14 };
Obj g_obj[OCAP]; u32 g_nobj = 0;
void Violate(const char* fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
void HardError(const char* fmt, ...) __attribute__((format(printf, 1, 2), noreturn));

Obj& obj(const volatile void* a)
{
	uptr p = (uptr)a; u32 i = (u32)mix(p) & (OCAP - 1);
	for (;; i = (i + 1) & (OCAP - 1))
	{
		Obj& o = g_obj[i];
		if (o.exec != g_exec)
		{
			if (++g_nobj > OCAP / 2) HardError("too many synchronisation objects");
			memset(&o, 0, sizeof o); o.addr = p; o.exec = g_exec; o.owner = -1; o.oh = H(0x0b, norm(p));
			return o;
		}
		if (o.addr == p) return o;
	}
}

// ------------------------------------------------------------------ hashing / HB
inline void vjoin(VC& a, const VC& b) { for (int i = 0; i < nthr; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
inline void acquire(Obj& o) { vjoin(T[cur].vc, o.vc); }
inline void release(Obj& o) { vjoin(o.vc, T[cur].vc); T[cur].vc.c[cur]++; }
inline void releaseStore(Obj& o) { o.vc = T[cur].vc; T[cur].vc.c[cur]++; }
inline void evLocal(int t, u64 v) { u64 e = H(T[t].h, v); T[t].h = e; S += mix(e); }
inline void evRead(Obj& o, u64 op) { u64 e = H(T[cur].h, o.oh, op); T[cur].h = e; S += mix(e); }
inline void evWrite(Obj& o, u64 op) { u64 e = H(T[cur].h, o.oh, op); T[cur].h = e; o.oh = e; S += mix(e); }
void progress() { for (int i = 0; i < nthr; ++i) if (i != cur) T[i].yielded = false; }

void trace(const char* fmt, ...)
{
	if (!g_trace) return;
	va_list ap; va_start(ap, fmt); fprintf(g_trace, "[%llu] T%d ", (unsigned long long)g_steps, cur); vfprintf(g_trace, fmt, ap);
	Thr& t = T[cur];
	fprintf(g_trace, "  @"); for (int i = t.sp - 1, k = 0; i >= 0 && k < 5; --i, ++k) fprintf(g_trace, " pc:%lx", (long)t.stk[i]);
	fprintf(g_trace, "\n"); va_end(ap);
}

// ------------------------------------------------------------------ reporting
void dumpThreads(char* b, size_t n)
{
	size_t p = strlen(b);
	for (int i = 0; i < nthr && p + 400 < n; ++i)
	{
		Thr& t = T[i];
		p += snprintf(b + p, n - p, "\n    T%d%s %s obj=%lx%s @", i, i == cur ? "*" : "", t.done ? "done" : OpName[t.pend], (long)norm(t.pobj), t.timed ? " (timed)" : "");
		for (int k = t.sp - 1, c = 0; k >= 0 && c < 16 && p + 32 < n; --k, ++c) p += snprintf(b + p, n - p, " pc:%lx", (long)t.stk[k]);
	}
}
void finishAbnormal(int status)
{
	W->status = status; W->steps = g_steps;
	if (g_trace) { fprintf(g_trace, "END %s\n", W->msg); fflush(g_trace); }
	_exit(status);
}
void Violate(const char* fmt, ...)
{
	g_inrt = true; g_arenaOn = false;
	va_list ap; va_start(ap, fmt); vsnprintf(W->msg, sizeof W->msg / 2, fmt, ap); va_end(ap);
	dumpThreads(W->msg, sizeof W->msg);
	finishAbnormal(ST_VIOL);
	abort();
}
void HardError(const char* fmt, ...)
{
	g_inrt = true; g_arenaOn = false;
	va_list ap; va_start(ap, fmt); vsnprintf(W->msg, sizeof W->msg, fmt, ap); va_end(ap);
	if (g_active) dumpThreads(W->msg, sizeof W->msg);
	finishAbnormal(ST_ERR);
	abort();
}

// ------------------------------------------------------------------ shadow memory
enum { F_W = 1, F_AT = 2 };
struct Ent { u32 clk; u8 mask, tid, fl, valid; };
struct ShCell { u32 exec; u8 bad; u8 ign; u8 rot; u8 pad; Ent e[5]; u32 pc[5]; };
struct ShPage { ShCell c[512]; };
enum { PCAP = 1 << 16, CCAP = 4096 };
uptr g_pk[PCAP]; ShPage* g_pv[PCAP]; u32 g_np = 0;
uptr g_ck[CCAP]; ShPage* g_cv[CCAP];

ShPage* shpage(uptr pg)
{
	u32 ci = (u32)(pg ^ (pg >> 14)) & (CCAP - 1);
	if (g_ck[ci] == pg && g_cv[ci]) return g_cv[ci];
	u32 i = (u32)mix(pg) & (PCAP - 1);
	for (;; i = (i + 1) & (PCAP - 1))
	{
		if (!g_pv[i])
		{
			if (++g_np > PCAP * 3 / 4) HardError("shadow memory exhausted");
			void* m = mmap(0, sizeof(ShPage), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
			if (m == MAP_FAILED) HardError("mmap");
			g_pk[i] = pg; g_pv[i] = (ShPage*)m; break;
		}
		if (g_pk[i] == pg) break;
	}
	g_ck[ci] = pg; g_cv[ci] = g_pv[i];
	return g_pv[i];
}
inline ShCell& shcell(uptr a) { return shpage(a >> 12)->c[(a >> 3) & 511]; }

void raceReport(const ShCell& c, int k, uptr a, int fl, uptr pc)
{
	Violate("data race: T%d %s%s at pc:%lx conflicts with T%d %s%s at pc:%x, address %lx", cur, fl & F_AT ? "atomic " : "", fl & F_W ? "write" : "read", (long)pc,
		c.e[k].tid, c.e[k].fl & F_AT ? "atomic " : "", c.e[k].fl & F_W ? "write" : "read", c.pc[k], (long)norm(a));
}

inline void access1(uptr g, u8 mask, int fl, uptr pc)
{
	ShCell& c = shcell(g);
	if (c.exec != g_exec) { memset(&c, 0, sizeof c); c.exec = g_exec; }
	if (c.bad & mask) Violate("invalid memory access (freed or out of bounds heap memory): T%d %s at pc:%lx, address %lx", cur, fl & F_W ? "write" : "read", (long)pc, (long)norm(g));
	if (c.ign & mask) return;
	u32 myclk = T[cur].vc.c[cur];
	int slot = -1, empty = -1; bool dup = false;
	for (int i = 0; i < 5; ++i)
	{
		Ent& e = c.e[i];
		if (!e.valid) { if (empty < 0) empty = i; continue; }
		if (e.tid == cur)
		{
			if (e.fl == fl && e.clk == myclk) { if ((e.mask & mask) == mask) dup = true; else slot = i; }
			else if (slot < 0 && e.fl == fl && (e.mask & ~mask) == 0) slot = i;
			else if (slot < 0 && (fl & F_W) && !(e.fl & F_W) && !(fl & F_AT) && (e.mask & ~mask) == 0) slot = i;
			continue;
		}
		if (!(e.mask & mask)) continue;
		if (!((e.fl | fl) & F_W)) continue;
		if ((e.fl & fl) & F_AT) continue;
		if (e.clk > T[cur].vc.c[e.tid] && g_cur.races) raceReport(c, i, g, fl, pc);
	}
	if (dup) return;
	if (slot < 0) slot = empty;
	if (slot < 0) { slot = c.rot++ % 5; }
	Ent& e = c.e[slot];
	if (e.valid && e.tid == cur && e.fl == fl && e.clk == myclk) e.mask |= mask;
	else { e.clk = myclk; e.mask = mask; e.tid = (u8)cur; e.fl = (u8)fl; e.valid = 1; }
	c.pc[slot] = (u32)pc;
}
inline void access(uptr a, size_t n, int fl, uptr pc)
{
	while (n)
	{
		uptr g = a & ~(uptr)7; unsigned off = a & 7; unsigned k = 8 - off; if (k > n) k = (unsigned)n;
		access1(g, (u8)(((1u << k) - 1) << off), fl, pc);
		a += k; n -= k;
	}
}
void shClear(uptr a, size_t n) // fresh memory
{
	for (uptr g = a & ~(uptr)7; g < a + n; g += 8) { ShCell& c = shcell(g); if (c.exec == g_exec) c.exec = 0; }
}
void shBad(uptr a, size_t n)
{
	while (n)
	{
		uptr g = a & ~(uptr)7; unsigned off = a & 7; unsigned k = 8 - off; if (k > n) k = (unsigned)n;
		ShCell& c = shcell(g);
		if (c.exec != g_exec) { memset(&c, 0, sizeof c); c.exec = g_exec; }
		c.bad |= (u8)(((1u << k) - 1) << off);
		a += k; n -= k;
	}
}

struct InRt { bool prev; InRt() : prev(g_inrt) { g_inrt = true; } ~InRt() { g_inrt = prev; } };
inline bool on() { return g_active && !g_inrt; }

struct Hdr { u64 size; u64 magic; };
const u64 MAGIC = 0x5717697a11cULL, FREED = 0xdeadf7eedULL;

void* arenaAlloc(size_t n, size_t al)
{
	InRt r;
	u64 off = a_off[cur];
	uptr base = ARENA + (u64)cur * ASZ;
	uptr p = (base + off + sizeof(Hdr) + al - 1) & ~(uptr)(al - 1);
	if (p + n + 64 > base + ASZ) HardError("arena of T%d exhausted", cur);
	Hdr* h = (Hdr*)(p - sizeof(Hdr)); h->size = n; h->magic = MAGIC;
	a_off[cur] = ((p + n + 15) & ~(uptr)15) - base;
	shClear(p, n);
	shBad(p - sizeof(Hdr), sizeof(Hdr));
	shBad(p + n, ((p + n + 15) & ~(uptr)15) - (p + n) + sizeof(Hdr)); // tail padding and next header
	memset((void*)p, 0xcb, n);
	++a_live;
	return (void*)p;
}
void arenaFree(void* q)
{
	InRt r;
	Hdr* h = (Hdr*)((uptr)q - sizeof(Hdr));
	if (h->magic == FREED) { if (g_active) Violate("double free"); return; }
	if (h->magic != MAGIC) { if (g_active) Violate("free of a wild pointer"); return; }
	if (g_active)
	{
		if (h->size <= (1 << 16)) access((uptr)q, h->size, F_W, (uptr)__builtin_return_address(0));
		shBad((uptr)q, h->size);
	}
	memset(q, 0xdd, h->size < 4096 ? h->size : 4096);
	h->magic = FREED; --a_live;
}

// ------------------------------------------------------------------ scheduler
bool mutexFree(uptr m, int t) { Obj& o = obj((void*)m); return o.owner < 0 || (o.owner == t && o.kind == 1); }
bool enabled(int t)
{
	Thr& x = T[t];
	if (!x.used || x.done) return false;
	switch (x.pend)
	{
	case OP_LOCK: case OP_TIMEDLOCK: case OP_CRELOCK: return mutexFree(x.pobj, t);
	case OP_CWAITING: return x.timed && x.deadline <= g_clock;
	case OP_SEMWAIT: return obj((void*)x.pobj).sem > 0 || x.timedout || (x.timed && x.deadline <= g_clock);
	case OP_SLEEP: return x.timedout || x.deadline <= g_clock;
	case OP_JOIN: return T[x.pobj].done;
	case OP_JOINALL: for (int i = 1; i < nthr; ++i) if (!T[i].done) return false; return true;
	case OP_ONCE: case OP_GUARD: return !obj((void*)x.pobj).inprog;
	default: return true;
	}
}
bool timedWaiting(int t) { Thr& x = T[t]; return x.used && !x.done && x.timed && !x.timedout && (x.pend == OP_CWAITING || x.pend == OP_SEMWAIT || x.pend == OP_SLEEP) && x.deadline > g_clock; }

void fire(int t)
{
	Thr& x = T[t];
	if (x.deadline > g_clock) { g_clock = x.deadline; g_clockH = H(g_clockH, g_clock); }
	x.timedout = true;
	evLocal(t, H(OP_TIMEOUT, g_clockH));
	if (x.pend == OP_CWAITING) { x.pend = OP_CRELOCK; x.pobj = x.cmutex; }
	if (g_trace) fprintf(g_trace, "[%llu] -- timeout of T%d fires (clock %lld us)\n", (unsigned long long)g_steps, t, (long long)g_clock);
}

int choose(int n, const u8* cost, u64 key)
{
	if (n == 1) return 0;
	if (W->ndec >= MAXDEC) HardError("too many decisions in one execution");
	int i = W->ndec++;
	Dec& d = W->dec[i];
	d.key = key; d.n = (u8)n; memcpy(d.cost, cost, n);
	int c = 0;
	if (i < g_plen)
	{
		c = g_prefix[i];
		if (g_clamp && c >= n) c = n - 1;
		if (c >= n || (g_pkeys && g_pkeys[i] != key))
		{
			W->status = ST_ERR; W->diverged = 1; HardError("divergence while replaying decision %d of %d (choice %d of %d)", i, g_plen, c, n);
		}
	}
	d.chosen = (u8)c;
	return c;
}

bool g_warm = false; enum { MAXW = 64 }; int g_wval[MAXW], g_wn[MAXW], g_wpos = 0, g_wlen = 0;
void endExecution() { g_inrt = true; fpost(g_ctl); }

void schedule() // T[cur].pend is set; returns when this thread may perform it
{
	int me = cur;
	for (;;)
	{
		if (++g_steps > (u64)g_cur.maxSteps) Violate("horizon: no termination within %d scheduling steps (livelock)", g_cur.maxSteps);
		struct { u8 kind, tid; } opt[MAXOPT]; u8 cost[MAXOPT]; int n = 0;
		bool meEn = enabled(cur), meY = T[cur].yielded;
		int nEn = 0, nPlain = 0;
		for (int k = 0; k < nthr; ++k) if (enabled(k)) { ++nEn; if (!T[k].yielded) ++nPlain; }
		if (nEn && !nPlain) { /* everybody enabled has yielded */ }
		bool curPlain = meEn && !meY;
		if (curPlain) { opt[n].kind = 0; opt[n].tid = (u8)cur; cost[n++] = 0; }
		bool first = true;
		for (int k = 1; k < nthr && n < MAXOPT - 2; ++k)
		{
			int t = (cur + k) % nthr;
			if (!enabled(t) || T[t].yielded) continue;
			opt[n].kind = 0; opt[n].tid = (u8)t;
			cost[n++] = curPlain ? 1 : (meEn ? (first ? 0 : 1) : 0); // at a yield only the next thread in turn is free
			first = false;
		}
		// expiring timed waits: earliest deadline only
		i64 dl = INT64_MAX;
		for (int t = 0; t < nthr; ++t) if (timedWaiting(t)) dl = std::min(dl, T[t].deadline);
		if (dl != INT64_MAX && (g_cur.timeouts || !nPlain))
			for (int t = 0; t < nthr && n < MAXOPT - 2; ++t)
				if (timedWaiting(t) && T[t].deadline == dl) { opt[n].kind = 1; opt[n].tid = (u8)t; cost[n++] = nPlain ? 1 : 0; }
		// threads that stepped back
		for (int k = 0; k < nthr && n < MAXOPT - 2; ++k)
		{
			int t = (cur + k + 1) % nthr; // current thread last
			if (!enabled(t) || !T[t].yielded) continue;
			opt[n].kind = 0; opt[n].tid = (u8)t; cost[n] = n == 0 ? 0 : 1; ++n;
		}
		if (n == 0)
		{
			bool all = true; for (int t = 0; t < nthr; ++t) if (!T[t].done) all = false;
			if (all) { endExecution(); return; }
			Violate("deadlock: no thread can run");
		}
		if (g_cur.spurious)
			for (int t = 0; t < nthr && n < MAXOPT; ++t)
				if (T[t].used && !T[t].done && T[t].pend == OP_CWAITING) { opt[n].kind = 2; opt[n].tid = (u8)t; cost[n++] = 1; }
		if (g_cur.freeSwitchCosts) for (int i = 1; i < n; ++i) cost[i] = 1;
		u64 ymask = 0; for (int t = 0; t < nthr; ++t) if (T[t].yielded) ymask |= 1ull << t;
		int c = choose(n, cost, H(H(S, cur * 2 + meEn, ymask), 0x5c4ed, g_clockH));
		int t = opt[c].tid;
		if (opt[c].kind == 1) { fire(t); continue; }
		if (opt[c].kind == 2)
		{
			T[t].spur = true; evLocal(t, OP_SPURIOUS); T[t].pend = OP_CRELOCK; T[t].pobj = T[t].cmutex;
			if (g_trace) fprintf(g_trace, "[%llu] -- spurious wake-up of T%d\n", (unsigned long long)g_steps, t);
			continue;
		}
		if (!T[t].timedout && T[t].timed && T[t].deadline <= g_clock && (T[t].pend == OP_CWAITING || (T[t].pend == OP_SEMWAIT && obj((void*)T[t].pobj).sem <= 0) || T[t].pend == OP_SLEEP))
		{ fire(t); if (!enabled(t)) continue; }
		if (t != cur)
		{
			bool exiting = T[me].exiting;
			cur = t; fpost(T[t].turn);
			if (exiting) return;
			fwait(T[me].turn);
		}
		return;
	}
}

struct Guarded { bool keep; Guarded() : keep(false) { g_inrt = true; } ~Guarded() { if (!keep) g_inrt = false; } };
int g_initDepth = 0; // nesting of function-local static initialisations that run outside the explored state

void point(int op, const volatile void* o)
{
	Thr& t = T[cur]; t.pend = op; t.pobj = (uptr)o;
	schedule();
	if (g_trace) trace("%s %lx", OpName[op], (long)norm((uptr)o));
	if (op != OP_YIELD) progress();
}

// ------------------------------------------------------------------ TLS of the main executable
char* g_tlsImg = 0; size_t g_tlsFile = 0, g_tlsMem = 0, g_tlsAlign = 1;
int phdrCb(struct dl_phdr_info* i, size_t, void*)
{
	for (int k = 0; k < i->dlpi_phnum; ++k)
		if (i->dlpi_phdr[k].p_type == PT_TLS)
		{ g_tlsImg = (char*)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr); g_tlsFile = i->dlpi_phdr[k].p_filesz; g_tlsMem = i->dlpi_phdr[k].p_memsz; g_tlsAlign = i->dlpi_phdr[k].p_align; }
	return 1; // the first object is the executable
}
void resetTls()
{
	if (!g_tlsMem) return;
	size_t al = g_tlsAlign ? g_tlsAlign : 1;
	char* b = (char*)__builtin_thread_pointer() - ((g_tlsMem + al - 1) / al * al);
	memcpy(b, g_tlsImg, g_tlsFile); memset(b + g_tlsFile, 0, g_tlsMem - g_tlsFile);
}

// ------------------------------------------------------------------ thread-specific keys
enum { MAXKEYS = 128 };
bool g_keyUsed[MAXKEYS]; void (*g_keyDtor[MAXKEYS])(void*); void* g_ctlKeys[MAXKEYS];

// ------------------------------------------------------------------ pool
typedef int (*pcreate_t)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
const uptr STK = 0x200000000000ULL; const size_t STKSZ = 1 << 20;

void runKeyDtors(Thr& t)
{
	for (int round = 0; round < 4; ++round)
	{
		bool any = false;
		for (int k = 0; k < MAXKEYS; ++k)
		{
			void* v = t.keys[k]; void (*d)(void*) = g_keyUsed[k] ? g_keyDtor[k] : 0;
			if (v && d) { t.keys[k] = 0; any = true; g_inrt = false; d(v); g_inrt = true; }
		}
		if (!any) break;
	}
}

void* poolMain(void* p)
{
	int id = (int)(intptr_t)p; Thr& t = T[id];
	for (;;)
	{
		fwait(t.turn);
		resetTls();
		t.sp = 0;
		if (g_trace) trace("start");
		g_inrt = false;
		t.ret = t.fn(t.arg);
		g_inrt = true;
		runKeyDtors(t);
		if (id == 0)
		{
			t.pend = OP_JOINALL; t.pobj = 0;
			schedule();
		}
		// exit
		{
			evLocal(id, OP_EXIT);
			t.done = true; t.exiting = true; progress();
			if (g_trace) trace("exit");
			schedule();
		}
	}
	return 0;
}
void ensureReal(int id)
{
	Thr& t = T[id];
	if (t.real) return;
	static pcreate_t real = (pcreate_t)dlsym(RTLD_NEXT, "pthread_create");
	bool a = g_active; g_active = false;
	void* st = mmap((void*)(STK + id * STKSZ), STKSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
	if (st == MAP_FAILED) HardError("stack mmap");
	pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, st, STKSZ);
	t.turn.store(0);
	if (!t.stk) t.stk = (uptr*)__libc_malloc(sizeof(uptr) * 4096);
	t.sp = 0;
	int e = real(&t.pt, &at, &poolMain, (void*)(intptr_t)id);
	if (e) HardError("real pthread_create: %d", e);
	t.real = true;
	pthread_attr_destroy(&at);
	g_active = a;
}

int newThread(void* (*fn)(void*), void* arg)
{
	if (nthr >= MAXT) HardError("too many threads in one execution");
	int id = nthr;
	ensureReal(id);
	Thr& t = T[id];
	t.used = true; t.done = t.joined = t.detached = t.yielded = t.exiting = false;
	t.pend = OP_START; t.pobj = 0; t.timed = t.timedout = t.spur = false; t.deadline = 0;
	t.fn = fn; t.arg = arg; t.ret = 0; t.sp = 0;
	memset(t.keys, 0, sizeof t.keys); memset(&t.vc, 0, sizeof t.vc);
	for (int i = 0; i < nthr; ++i) T[i].vc.c[id] = 0;
	++nthr;
	if (id) { vjoin(t.vc, T[cur].vc); t.vc.c[id] = 1; T[cur].vc.c[cur]++; t.h = H(T[cur].h, 0xc1d, id); evLocal(cur, H(OP_CREATE, id)); }
	else { t.vc.c[0] = 1; t.h = H(0x7, 0); }
	// the child's stack is fresh memory
	return id;
}

void* bodyMain(void* p) { ((void (*)())p)(); return 0; }

// ------------------------------------------------------------------ one execution
const i64 CLOCK0 = 1000000000000LL; // microseconds
struct ExecStats { bool leaked; };

void startExec(int scen)
{
	++g_exec; if (g_exec == 0) g_exec = 1;
	g_nobj = 0; nthr = 0; cur = 0; S = 0x1234; g_clock = CLOCK0; g_clockH = 0; g_logH = 0; g_cseq = 0; g_steps = 0; g_eventN = 0;
	W->ndec = 0; W->status = ST_RUN; W->msg[0] = 0; W->log[0] = 0; W->outcome[0] = 0; W->outcomeHash = 0; g_guardInit = false;
	g_cur = g_scen[scen].o;
	for (int i = 0; i < MAXT; ++i) { T[i].used = false; T[i].done = true; }
	for (int i = 0; i < MAXT; ++i) a_off[i] = a_base[i];
}
i64 g_liveBefore = 0;
void runExec(int scen, bool arena)
{
	g_inrt = true;
	startExec(scen);
	g_liveBefore = a_live;
	newThread(&bodyMain, (void*)g_scen[scen].body);
	g_ctl.store(0);
	g_arenaOn = arena; g_active = true;
	cur = 0;
	fpost(T[0].turn);
	fwait(g_ctl);
	g_active = false; g_arenaOn = false;
	g_inrt = false;
	if (arena && a_live != g_liveBefore)
	{
		W->leakedExecs++;
		if (g_guardInit) // one-time static data was allocated: keep it
		{ for (int i = 0; i < MAXT; ++i) a_base[i] = (a_off[i] + 4095) & ~4095ull; W->restarts++; }
		else if (g_cur.leaks) { g_inrt = true; Violate("leak: %lld block(s) allocated in this execution are still allocated at its end", (long long)(a_live - g_liveBefore)); }
	}
	W->status = ST_OK; W->steps = g_steps;
}

} // namespace

// ================================================================== harness API
namespace mc
{
	void RunAtExit() { while (g_nexit > 0) { --g_nexit; g_exits[g_nexit].f(g_exits[g_nexit].a); } }
	void Register(const char* name, void (*body)(), const Opts& o) { if (!g_scen.p) g_scen.p = (Scen*)__libc_calloc(128, sizeof(Scen)); if (g_nscen < 128) { g_scen[g_nscen].name = name; g_scen[g_nscen].body = body; g_scen[g_nscen].o = o; ++g_nscen; } }
	void Fail(const char* fmt, ...)
	{
		g_inrt = true;
		char b[4096]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
		Violate("%s", b);
	}
	void Outcome(const char* fmt, ...)
	{
		InRt r; size_t l = strlen(W->outcome);
		va_list ap; va_start(ap, fmt); vsnprintf(W->outcome + l, sizeof W->outcome - l, fmt, ap); va_end(ap);
		u64 h = 0xabc; for (const char* p = W->outcome; *p; ++p) h = H(h, (u8)*p); W->outcomeHash = h;
	}
	void Point() { if (!on()) return; Guarded g; point(OP_POINT, 0); evLocal(cur, OP_POINT); }
	void Yield() { if (!on()) return; Guarded g; T[cur].yielded = true; point(OP_YIELD, 0); evLocal(cur, OP_YIELD); }
	int Pick(int n, int cost)
	{
		if (!on()) return 0;
		Guarded g; u8 c[MAXOPT]; c[0] = 0; for (int i = 1; i < n; ++i) c[i] = (u8)cost;
		int v = choose(n, c, H(H(S, cur), 0x91cc, T[cur].h));
		if (g_warm && n > 1 && g_wpos < MAXW)
		{
			if (g_wpos >= g_wlen) g_wval[g_wpos] = 0;
			if (g_wval[g_wpos] >= n) g_wval[g_wpos] = n - 1;
			g_wn[g_wpos] = n; v = g_wval[g_wpos++];
			W->dec[W->ndec - 1].chosen = (u8)v;
		}
		if (g_trace) trace("pick %d of %d", v, n);
		evLocal(cur, H(OP_PICK, v));
		return v;
	}
	int Event(const char* fmt, ...)
	{
		InRt r; char b[512]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
		if (g_active)
		{
			u64 h = 0; for (const char* p = b; *p; ++p) h = H(h, (u8)*p);
			u64 e = H(T[cur].h, g_logH, h); T[cur].h = e; g_logH = e; S += mix(e);
			if (g_trace) trace("EVENT %s", b);
		}
		size_t l = strlen(W->log); snprintf(W->log + l, sizeof W->log - l, "%s|", b);
		return g_eventN++;
	}
	std::string Log() { return W->log; }
	int Self() { return cur; }
	long long NowUs() { if (on()) { Guarded g; evLocal(cur, H(OP_CLOCK, g_clockH)); } return g_clock - CLOCK0; }
	void AdvanceUs(long long us) { InRt r; g_clock += us; g_clockH = H(g_clockH, g_clock); evLocal(cur, H(OP_CLOCK, g_clockH)); }
	bool Replaying() { return g_replay; }
	void Ignore(void* p, size_t n)
	{
		InRt r;
		for (uptr a = (uptr)p; a < (uptr)p + n; ++a) { ShCell& c = shcell(a); if (c.exec != g_exec) { memset(&c, 0, sizeof c); c.exec = g_exec; } c.ign |= (u8)(1 << (a & 7)); }
	}
	void CellTouch(const void* p, uint64_t v, bool write)
	{
		if (!on()) return;
		Guarded g; Obj& o = obj(p);
		if (write) evWrite(o, H(OP_CELLW, v)); else evRead(o, H(OP_CELLR, v));
	}
}

// ================================================================== instrumentation entry points
#define PC ((uptr)__builtin_return_address(0))
extern "C"
{
	void __tsan_init() { }
	void __tsan_func_entry(void* pc) { if (g_active) { Thr& t = T[cur]; if (t.sp < 4096 && t.stk) t.stk[t.sp] = PC; t.sp++; } (void)pc; }
	void __tsan_func_exit() { if (g_active) { Thr& t = T[cur]; if (t.sp > 0) t.sp--; } }
#define RW(N) \
	void __tsan_read##N(void* a) { if (on()) { g_inrt = true; access((uptr)a, N, 0, PC); g_inrt = false; } } \
	void __tsan_write##N(void* a) { if (on()) { g_inrt = true; access((uptr)a, N, F_W, PC); g_inrt = false; } } \
	void __tsan_unaligned_read##N(void* a) { if (on()) { g_inrt = true; access((uptr)a, N, 0, PC); g_inrt = false; } } \
	void __tsan_unaligned_write##N(void* a) { if (on()) { g_inrt = true; access((uptr)a, N, F_W, PC); g_inrt = false; } } \
	void __tsan_volatile_read##N(void* a) { if (on()) { g_inrt = true; access((uptr)a, N, 0, PC); g_inrt = false; } } \
	void __tsan_volatile_write##N(void* a) { if (on()) { g_inrt = true; access((uptr)a, N, F_W, PC); g_inrt = false; } }
	RW(1) RW(2) RW(4) RW(8) RW(16)
	void __tsan_read_range(void* a, size_t n) { if (on()) { g_inrt = true; access((uptr)a, n, 0, PC); g_inrt = false; } }
	void __tsan_write_range(void* a, size_t n) { if (on()) { g_inrt = true; access((uptr)a, n, F_W, PC); g_inrt = false; } }
	void __tsan_vptr_update(void** p, void* v) { if (on()) { g_inrt = true; access((uptr)p, 8, *p == v ? 0 : F_W, PC); g_inrt = false; } }
	void __tsan_vptr_read(void** p) { if (on()) { g_inrt = true; access((uptr)p, 8, 0, PC); g_inrt = false; } }
	void __tsan_atomic_thread_fence(int) { }
	void __tsan_atomic_signal_fence(int) { }
}

namespace {
inline bool isAcq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
inline bool isRel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
template <typename Ty> Ty aLoad(const volatile Ty* a, int mo, uptr pc)
{
	if (!on()) return *a;
	Guarded g;
	if (!(sizeof(Ty) == 1 && *a != 0)) point(OP_ALOAD, a); // a set one-byte flag is a finished static guard: monotonic
	access((uptr)a, sizeof(Ty), F_AT, pc);
	Ty v = *a; Obj& o = obj(a); evRead(o, OP_ALOAD);
	if (isAcq(mo)) acquire(o);
	return v;
}
template <typename Ty> void aStore(volatile Ty* a, Ty v, int mo, uptr pc)
{
	if (!on()) { *a = v; return; }
	Guarded g; point(OP_ASTORE, a); access((uptr)a, sizeof(Ty), F_W | F_AT, pc);
	*a = v; Obj& o = obj(a); evWrite(o, H(OP_ASTORE, (u64)v));
	if (isRel(mo)) releaseStore(o); else memset(&o.vc, 0, sizeof o.vc);
}
template <typename Ty, typename F> Ty aRmw(volatile Ty* a, int mo, uptr pc, F f, bool xchg)
{
	if (!on()) { Ty old = *a; *a = f(old); return old; }
	Guarded g; point(OP_RMW, a); access((uptr)a, sizeof(Ty), F_W | F_AT, pc);
	Ty old = *a, nw = f(old); *a = nw; Obj& o = obj(a);
	if (old == nw) { evRead(o, H(OP_RMW, (u64)nw)); if (xchg) T[cur].yielded = true; } else evWrite(o, H(OP_RMW, (u64)nw));
	if (isAcq(mo)) acquire(o);
	if (isRel(mo)) release(o);
	return old;
}
template <typename Ty> bool aCas(volatile Ty* a, Ty* exp, Ty v, int mo, int fmo, uptr pc)
{
	if (!on()) { if (*a == *exp) { *a = v; return true; } *exp = *a; return false; }
	Guarded g; point(OP_RMW, a);
	Obj& o = obj(a);
	if (*a == *exp)
	{
		access((uptr)a, sizeof(Ty), F_W | F_AT, pc);
		*a = v; evWrite(o, H(OP_RMW, (u64)v, 1)); if (isAcq(mo)) acquire(o); if (isRel(mo)) release(o); return true;
	}
	access((uptr)a, sizeof(Ty), F_AT, pc);
	*exp = *a; evRead(o, H(OP_RMW, 2)); if (isAcq(fmo)) acquire(o);
	return false;
}
}
extern "C"
{
#define ATOM(N, Ty) \
	Ty __tsan_atomic##N##_load(const volatile Ty* a, int mo) { return aLoad<Ty>(a, mo, PC); } \
	void __tsan_atomic##N##_store(volatile Ty* a, Ty v, int mo) { aStore<Ty>(a, v, mo, PC); } \
	Ty __tsan_atomic##N##_exchange(volatile Ty* a, Ty v, int mo) { return aRmw<Ty>(a, mo, PC, [v](Ty) { return v; }, true); } \
	Ty __tsan_atomic##N##_fetch_add(volatile Ty* a, Ty v, int mo) { return aRmw<Ty>(a, mo, PC, [v](Ty o) { return (Ty)(o + v); }, false); } \
	Ty __tsan_atomic##N##_fetch_sub(volatile Ty* a, Ty v, int mo) { return aRmw<Ty>(a, mo, PC, [v](Ty o) { return (Ty)(o - v); }, false); } \
	Ty __tsan_atomic##N##_fetch_and(volatile Ty* a, Ty v, int mo) { return aRmw<Ty>(a, mo, PC, [v](Ty o) { return (Ty)(o & v); }, false); } \
	Ty __tsan_atomic##N##_fetch_or(volatile Ty* a, Ty v, int mo) { return aRmw<Ty>(a, mo, PC, [v](Ty o) { return (Ty)(o | v); }, false); } \
	Ty __tsan_atomic##N##_fetch_xor(volatile Ty* a, Ty v, int mo) { return aRmw<Ty>(a, mo, PC, [v](Ty o) { return (Ty)(o ^ v); }, false); } \
	Ty __tsan_atomic##N##_fetch_nand(volatile Ty* a, Ty v, int mo) { return aRmw<Ty>(a, mo, PC, [v](Ty o) { return (Ty)~(o & v); }, false); } \
	int __tsan_atomic##N##_compare_exchange_strong(volatile Ty* a, Ty* c, Ty v, int mo, int f) { return aCas<Ty>(a, c, v, mo, f, PC); } \
	int __tsan_atomic##N##_compare_exchange_weak(volatile Ty* a, Ty* c, Ty v, int mo, int f) { return aCas<Ty>(a, c, v, mo, f, PC); } \
	Ty __tsan_atomic##N##_compare_exchange_val(volatile Ty* a, Ty c, Ty v, int mo, int f) { aCas<Ty>(a, &c, v, mo, f, PC); return c; }
	ATOM(8, u8) ATOM(16, u16) ATOM(32, u32) ATOM(64, u64)

	void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
	void* __wrap_memcpy(void* d, const void* s, size_t n)
	{ if (on() && n) { g_inrt = true; access((uptr)s, n, 0, PC); access((uptr)d, n, F_W, PC); g_inrt = false; } return __real_memcpy(d, s, n); }
	void* __wrap_memmove(void* d, const void* s, size_t n)
	{ if (on() && n) { g_inrt = true; access((uptr)s, n, 0, PC); access((uptr)d, n, F_W, PC); g_inrt = false; } return __real_memmove(d, s, n); }
	void* __wrap_memset(void* d, int c, size_t n)
	{ if (on() && n) { g_inrt = true; access((uptr)d, n, F_W, PC); g_inrt = false; } return __real_memset(d, c, n); }

	// the call-duration profiler (diagnostics, one eternal background thread) is replaced by nothing: see DESIGN.md
	void __wrap__ZN8stingray13AsyncProfiler7SessionC1ERKNS_10shared_ptrIS0_EEPKcNS_12TimeDurationE() { }
	void __wrap__ZN8stingray13AsyncProfiler7SessionC1ERKNS_10shared_ptrIS0_EERKNS_8functionIFNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEvEEENS_12TimeDurationERKNS0_13NameGetterTagE() { }
	void __wrap__ZN8stingray13AsyncProfiler7SessionC1ERKNS_10shared_ptrIS0_EERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEENS_12TimeDurationE() { }
	void __wrap__ZN8stingray13AsyncProfiler7SessionD1Ev() { }
	void __wrap__ZN8stingray13AsyncProfilerC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE() { }

	// ---------------------------------------------------------------- allocator
	void* malloc(size_t n) { if (g_arenaOn && !g_inrt) return arenaAlloc(n, 16); return __libc_malloc(n); }
	void free(void* p) { if (!p) return; if (inArena((uptr)p)) { arenaFree(p); return; } __libc_free(p); }
	void* calloc(size_t a, size_t b) { if (g_arenaOn && !g_inrt) { void* p = arenaAlloc(a * b, 16); memset(p, 0, a * b); return p; } return __libc_calloc(a, b); }
	void* realloc(void* p, size_t n)
	{
		if (p && inArena((uptr)p))
		{
			void* q = malloc(n); size_t o = ((Hdr*)((uptr)p - sizeof(Hdr)))->size; bool r = g_inrt; g_inrt = true; memcpy(q, p, o < n ? o : n); g_inrt = r; arenaFree(p); return q;
		}
		if (!p) return malloc(n);
		return __libc_realloc(p, n);
	}
	void* memalign(size_t al, size_t n) { if (g_arenaOn && !g_inrt) return arenaAlloc(n, al < 16 ? 16 : al); return __libc_memalign(al, n); }
	void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
	int posix_memalign(void** p, size_t al, size_t n) { *p = memalign(al, n); return *p ? 0 : ENOMEM; }

	// ---------------------------------------------------------------- mutex
	int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
	{
		static int (*real)(pthread_mutex_t*, const pthread_mutexattr_t*) = (int (*)(pthread_mutex_t*, const pthread_mutexattr_t*))dlsym(RTLD_NEXT, "pthread_mutex_init");
		int r = real(m, a);
		if (on()) { Guarded g; access((uptr)m, 8, F_W, PC); Obj& o = obj(m); o.owner = -1; o.rec = 0; o.destroyed = false; evWrite(o, 0x1417); }
		return r;
	}
	int pthread_mutex_destroy(pthread_mutex_t* m)
	{
		if (on())
		{
			Guarded g; access((uptr)m, 8, F_W, PC); Obj& o = obj(m);
			if (o.owner >= 0) Violate("a mutex is destroyed while locked by T%d", o.owner);
			for (int i = 0; i < nthr; ++i) if (i != cur && !T[i].done && (T[i].pend == OP_LOCK || T[i].pend == OP_CRELOCK || T[i].pend == OP_TIMEDLOCK) && T[i].pobj == (uptr)m) Violate("a mutex is destroyed while T%d waits for it", i);
			o.destroyed = true; evWrite(o, 0xde57);
		}
		return 0;
	}
}
namespace {
int mkind(pthread_mutex_t* m) { return m->__data.__kind & 3; }
void mtouch(void* m, uptr pc) { access((uptr)m + 24, 1, F_AT, pc); } // use-after-free check, vs. init/destroy
void locked(Obj& o, u64 op) { if (o.owner == cur) o.rec++; else { o.owner = cur; o.rec = 1; } acquire(o); evWrite(o, op); }
}
extern "C"
{
	int pthread_mutex_lock(pthread_mutex_t* m)
	{
		if (!on()) return 0;
		Guarded g; obj(m).kind = (u8)mkind(m); point(OP_LOCK, m); mtouch(m, PC);
		if (obj(m).destroyed) Violate("lock of a destroyed mutex");
		locked(obj(m), OP_LOCK); return 0;
	}
	int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*)
	{
		if (!on()) return 0;
		Guarded g; obj(m).kind = (u8)mkind(m); point(OP_TIMEDLOCK, m); mtouch(m, PC);
		if (obj(m).destroyed) Violate("lock of a destroyed mutex");
		locked(obj(m), OP_LOCK); return 0;
	}
	int pthread_mutex_trylock(pthread_mutex_t* m)
	{
		if (!on()) return 0;
		Guarded g; obj(m).kind = (u8)mkind(m); point(OP_TRYLOCK, m); mtouch(m, PC); Obj& o = obj(m);
		if (o.destroyed) Violate("lock of a destroyed mutex");
		if (mutexFree((uptr)m, cur)) { locked(o, OP_LOCK); return 0; }
		evRead(o, OP_TRYLOCK); return EBUSY;
	}
	int pthread_mutex_unlock(pthread_mutex_t* m)
	{
		if (!on()) return 0;
		Guarded g;
		if (g_cur.unlockPoints) point(OP_UNLOCK, m);
		mtouch(m, PC); Obj& o = obj(m);
		if (o.owner != cur) Violate("T%d unlocks a mutex it does not own (owner %d)", cur, o.owner);
		if (--o.rec == 0) { o.owner = -1; progress(); }
		release(o); evWrite(o, OP_UNLOCK);
		if (g_trace) trace("unlock %lx", (long)norm((uptr)m));
		return 0;
	}

	// ---------------------------------------------------------------- condition variables
	int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); if (on()) { Guarded g; access((uptr)c, 8, F_W, PC); Obj& o = obj(c); o.destroyed = false; evWrite(o, 0x1417); } return 0; }
	int pthread_cond_destroy(pthread_cond_t* c)
	{
		if (on())
		{
			Guarded g; access((uptr)c, 8, F_W, PC);
			for (int i = 0; i < nthr; ++i) if (i != cur && !T[i].done && T[i].pend == OP_CWAITING && T[i].pobj == (uptr)c) Violate("a condition variable is destroyed while T%d waits on it", i);
			Obj& o = obj(c); o.destroyed = true; evWrite(o, 0xde57);
		}
		return 0;
	}
}
namespace {
int condWait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, i64 deadline, uptr pc)
{
	Guarded g;
	point(OP_CWAIT, c); access((uptr)c, 1, F_AT, pc); mtouch(m, pc);
	Obj& mo = obj(m); Obj& co = obj(c);
	if (co.destroyed) Violate("wait on a destroyed condition variable");
	if (mo.owner != cur) Violate("condition wait without holding the mutex");
	int me = cur; Thr& t = T[me];
	int rec = mo.rec;
	mo.rec = 0; mo.owner = -1; release(mo); evWrite(mo, OP_UNLOCK); evWrite(co, OP_CWAIT); progress();
	t.timed = timed; t.deadline = deadline; t.timedout = false; t.spur = false; t.cmutex = (uptr)m; t.cseq = ++g_cseq; t.crec = rec;
	t.pend = OP_CWAITING; t.pobj = (uptr)c;
	schedule();
	// now pend is OP_CRELOCK and the mutex is free
	if (g_trace) trace("woken (%s), relock %lx", t.timedout ? "timeout" : t.spur ? "spurious" : "signal", (long)norm((uptr)m));
	t.timed = false;
	mtouch(m, pc);
	Obj& m2 = obj(m); m2.owner = cur; m2.rec = rec; acquire(m2); evWrite(m2, OP_LOCK);
	progress();
	bool to = t.timedout; t.timedout = false; t.spur = false;
	return to ? ETIMEDOUT : 0;
}
i64 tsUs(const struct timespec* ts, i64 base) { return (i64)ts->tv_sec * 1000000 + (ts->tv_nsec + 999) / 1000 - base; }
const i64 RT_BASE = 600000000LL * 1000000; // realtime clock = monotonic + this
void wake(int t, Obj& co) { evLocal(t, H(co.oh, 0x3a)); T[t].pend = OP_CRELOCK; T[t].pobj = T[t].cmutex; }
i64 condDeadline(pthread_cond_t* c, const struct timespec* ts)
{
	// stingraykit waits on either clock; realtime stamps are recognised by their magnitude
	i64 us = tsUs(ts, 0);
	(void)c;
	return us > CLOCK0 + RT_BASE / 2 ? us - RT_BASE : us;
}
}
extern "C"
{
	int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!on()) return 0; return condWait(c, m, false, 0, PC); }
	int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { if (!on()) return ETIMEDOUT; return condWait(c, m, true, condDeadline(c, ts), PC); }
	int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* ts) { if (!on()) return ETIMEDOUT; return condWait(c, m, true, condDeadline(c, ts), PC); }
	int pthread_cond_broadcast(pthread_cond_t* c)
	{
		if (!on()) return 0;
		Guarded g; point(OP_BCAST, c); access((uptr)c, 1, F_AT, PC); Obj& o = obj(c);
		if (o.destroyed) Violate("broadcast on a destroyed condition variable");
		evWrite(o, OP_BCAST);
		for (int i = 0; i < nthr; ++i) if (!T[i].done && T[i].pend == OP_CWAITING && T[i].pobj == (uptr)c) wake(i, o);
		return 0;
	}
	int pthread_cond_signal(pthread_cond_t* c)
	{
		if (!on()) return 0;
		Guarded g; point(OP_SIGNAL, c); access((uptr)c, 1, F_AT, PC); Obj& o = obj(c);
		if (o.destroyed) Violate("signal on a destroyed condition variable");
		evWrite(o, OP_SIGNAL);
		int w[MAXT], n = 0;
		for (int i = 0; i < nthr; ++i) if (!T[i].done && T[i].pend == OP_CWAITING && T[i].pobj == (uptr)c) w[n++] = i;
		if (!n) return 0;
		for (int i = 1; i < n; ++i) for (int j = i; j > 0 && T[w[j]].cseq < T[w[j - 1]].cseq; --j) std::swap(w[j], w[j - 1]);
		u8 cost[MAXOPT]; memset(cost, 0, sizeof cost);
		int k = choose(n, cost, H(H(S, cur), 0x5161, T[cur].h));
		wake(w[k], o);
		return 0;
	}

	// ---------------------------------------------------------------- semaphores
	int sem_init(sem_t* s, int, unsigned v) { memset(s, 0, sizeof *s); *(int*)s = (int)v; if (on()) { Guarded g; access((uptr)s, 8, F_W, PC); Obj& o = obj(s); o.sem = (int)v; o.kind = 9; o.destroyed = false; evWrite(o, H(0x1417, v)); } return 0; }
	int sem_destroy(sem_t* s) { if (on()) { Guarded g; access((uptr)s, 8, F_W, PC); for (int i = 0; i < nthr; ++i) if (i != cur && !T[i].done && T[i].pend == OP_SEMWAIT && T[i].pobj == (uptr)s) Violate("a semaphore is destroyed while T%d waits on it", i); Obj& o = obj(s); o.destroyed = true; evWrite(o, 0xde57); } return 0; }
}
namespace {
Obj& semObj(sem_t* s) { Obj& o = obj(s); if (o.kind != 9) { o.kind = 9; o.sem = *(int*)s; } return o; }
int semWait(sem_t* s, bool timed, i64 dl, uptr pc)
{
	Guarded g; semObj(s); Thr& t = T[cur]; t.timed = timed; t.deadline = dl; t.timedout = false;
	point(OP_SEMWAIT, s); access((uptr)s, 1, F_AT, pc); Obj& o = semObj(s);
	if (o.destroyed) Violate("wait on a destroyed semaphore");
	t.timed = false;
	if (o.sem <= 0) { t.timedout = false; evRead(o, OP_TIMEOUT); errno = ETIMEDOUT; return -1; }
	t.timedout = false; --o.sem; acquire(o); evWrite(o, OP_SEMWAIT); return 0;
}
}
extern "C"
{
	int sem_wait(sem_t* s) { if (!on()) return 0; return semWait(s, false, 0, PC); }
	int sem_timedwait(sem_t* s, const struct timespec* ts) { if (!on()) return 0; return semWait(s, true, condDeadline(0, ts), PC); }
	int sem_clockwait(sem_t* s, clockid_t, const struct timespec* ts) { if (!on()) return 0; return semWait(s, true, condDeadline(0, ts), PC); }
	int sem_trywait(sem_t* s)
	{
		if (!on()) return 0;
		Guarded g; semObj(s); point(OP_SEMTRY, s); access((uptr)s, 1, F_AT, PC); Obj& o = semObj(s);
		if (o.sem <= 0) { evRead(o, OP_SEMTRY); errno = EAGAIN; return -1; }
		--o.sem; acquire(o); evWrite(o, OP_SEMTRY); return 0;
	}
	int sem_post(sem_t* s)
	{
		if (!on()) return 0;
		Guarded g; semObj(s); point(OP_SEMPOST, s); access((uptr)s, 1, F_AT, PC); Obj& o = semObj(s);
		if (o.destroyed) Violate("post to a destroyed semaphore");
		++o.sem; release(o); evWrite(o, OP_SEMPOST); return 0;
	}
	int sem_getvalue(sem_t* s, int* v) { Guarded g; *v = semObj(s).sem; if (g_active) evRead(semObj(s), OP_SEMTRY); return 0; }

	// ---------------------------------------------------------------- threads
	int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg)
	{
		if (!on())
		{
			static pcreate_t real = (pcreate_t)dlsym(RTLD_NEXT, "pthread_create");
			return real(t, a, fn, arg);
		}
		Guarded g; int id = newThread(fn, arg);
		*t = T[id].pt;
		if (g_trace) trace("create T%d", id);
		return 0;
	}
	int pthread_join(pthread_t t, void** ret)
	{
		if (!on()) { static int (*real)(pthread_t, void**) = (int (*)(pthread_t, void**))dlsym(RTLD_NEXT, "pthread_join"); return real(t, ret); }
		Guarded g;
		int id = -1; for (int i = 0; i < nthr; ++i) if (T[i].pt == t) id = i;
		if (id < 0 || T[id].joined || T[id].detached) return ESRCH;
		if (id == cur) return EDEADLK;
		T[cur].pend = OP_JOIN; T[cur].pobj = id; schedule();
		if (g_trace) trace("joined T%d", id);
		T[id].joined = true; vjoin(T[cur].vc, T[id].vc); evLocal(cur, H(OP_JOIN, T[id].h)); progress();
		if (ret) *ret = T[id].ret;
		return 0;
	}
	int pthread_detach(pthread_t t) { for (int i = 0; i < nthr; ++i) if (T[i].pt == t) T[i].detached = true; return 0; }
	int pthread_setname_np(pthread_t, const char*) { return 0; }
	int prctl(int, ...) { return 0; }
	int pthread_kill(pthread_t, int) { return 0; }
	int pthread_setcancelstate(int, int* o) { if (o) *o = 0; return 0; }
	int pthread_setcanceltype(int, int* o) { if (o) *o = 0; return 0; }
	void pthread_testcancel(void) { }

	int pthread_once(pthread_once_t* o, void (*f)(void))
	{
		if (!on()) { if (*o == 2) return 0; if (*o == 1) return 0; *o = 1; try { f(); } catch (...) { *o = 0; throw; } *o = 2; return 0; }
		{
			Guarded g;
			point(OP_ONCE, o);
			Obj& x = obj(o);
			if (*o == 2) { acquire(x); evRead(x, OP_ONCE); return 0; }
			if (!g_cur.forkEach) { *o = 2; g_inrt = true; try { f(); } catch (...) { *o = 0; g_inrt = false; throw; } return 0; } // one-time data outside the explored state; ~Guarded re-enables
			x.inprog = true; evWrite(x, OP_ONCE); g_guardInit = true;
		}
		try { f(); }
		catch (...) { Guarded g; Obj& x = obj(o); x.inprog = false; evWrite(x, 0xbad); progress(); throw; }
		Guarded g; Obj& x = obj(o); x.inprog = false; *o = 2; release(x); evWrite(x, OP_ONCEDONE); progress();
		return 0;
	}
	int __cxa_guard_acquire(long long* gd)
	{
		u8* b = (u8*)gd;
		if (!on()) { if (b[0]) return 0; b[1] = 1; if (g_initDepth) ++g_initDepth; return 1; }
		Guarded g;
		if (b[0]) return 0;
		if (!g_cur.forkEach) { b[1] = 1; ++g_initDepth; g.keep = true; return 1; } // one-time data is created outside the explored state
		point(OP_GUARD, gd);
		Obj& x = obj(gd);
		if (b[0]) { acquire(x); evRead(x, OP_GUARD); return 0; }
		x.inprog = true; x.owner = cur; evWrite(x, OP_GUARD); g_guardInit = true;
		return 1;
	}
	void __cxa_guard_release(long long* gd)
	{
		u8* b = (u8*)gd; b[1] = 0; b[0] = 1;
		if (g_initDepth) { if (!--g_initDepth) g_inrt = false; return; }
		if (!on()) return;
		Guarded g; Obj& x = obj(gd); x.inprog = false; x.owner = -1; release(x); evWrite(x, OP_ONCEDONE); progress();
	}
	void __cxa_guard_abort(long long* gd)
	{
		u8* b = (u8*)gd; b[1] = 0;
		if (g_initDepth) { if (!--g_initDepth) g_inrt = false; return; }
		if (!on()) return;
		Guarded g; Obj& x = obj(gd); x.inprog = false; x.owner = -1; evWrite(x, 0xbad); progress();
	}

	int __cxa_atexit(void (*f)(void*), void* a, void* d)
	{
		typedef int (*fn_t)(void (*)(void*), void*, void*);
		static fn_t real = (fn_t)dlsym(RTLD_NEXT, "__cxa_atexit");
		if (g_active && g_cur.forkEach) { if (g_nexit < 256) { g_exits[g_nexit].f = f; g_exits[g_nexit].a = a; ++g_nexit; } return 0; }
		return real ? real(f, a, d) : 0;
	}
	int pthread_key_create(pthread_key_t* k, void (*d)(void*)) { for (int i = 0; i < MAXKEYS; ++i) if (!g_keyUsed[i]) { g_keyUsed[i] = true; g_keyDtor[i] = d; *k = i; return 0; } return EAGAIN; }
	int pthread_key_delete(pthread_key_t k) { if (k >= MAXKEYS) return EINVAL; g_keyUsed[k] = false; return 0; }
	int pthread_setspecific(pthread_key_t k, const void* v) { if (k >= MAXKEYS) return EINVAL; (g_active ? T[cur].keys : g_ctlKeys)[k] = (void*)v; return 0; }
	void* pthread_getspecific(pthread_key_t k) { if (k >= MAXKEYS) return 0; return (g_active ? T[cur].keys : g_ctlKeys)[k]; }

	// ---------------------------------------------------------------- time
	int sched_yield(void) { if (!on()) return 0; Guarded g; T[cur].yielded = true; point(OP_YIELD, 0); evLocal(cur, OP_YIELD); return 0; }
	int clock_gettime(clockid_t c, struct timespec* ts)
	{
		if (!g_active) return (int)syscall(SYS_clock_gettime, c, ts);
		i64 us = g_clock; if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) us += RT_BASE;
		ts->tv_sec = us / 1000000; ts->tv_nsec = (us % 1000000) * 1000;
		if (!g_inrt) { Guarded g; evLocal(cur, H(OP_CLOCK, g_clockH)); }
		return 0;
	}
	int gettimeofday(struct timeval* tv, void*) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
	time_t time(time_t* p) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (p) *p = ts.tv_sec; return ts.tv_sec; }
	static int doSleep(i64 deadline)
	{
		Guarded g; Thr& t = T[cur]; t.timed = true; t.deadline = deadline; t.timedout = false;
		point(OP_SLEEP, 0); t.timed = false; t.timedout = false; evLocal(cur, H(OP_SLEEP, g_clockH)); return 0;
	}
	int nanosleep(const struct timespec* ts, struct timespec* rem) { if (!on()) return 0; if (rem) rem->tv_sec = rem->tv_nsec = 0; return doSleep(g_clock + std::max<i64>(1, tsUs(ts, 0))); }
	int clock_nanosleep(clockid_t, int fl, const struct timespec* ts, struct timespec* rem)
	{ if (!on()) return 0; if (rem) rem->tv_sec = rem->tv_nsec = 0; i64 d = (fl & TIMER_ABSTIME) ? condDeadline(0, ts) : g_clock + tsUs(ts, 0); return doSleep(d); }
	int usleep(useconds_t us) { if (!on()) return 0; return doSleep(g_clock + std::max<i64>(1, us)); }
	unsigned sleep(unsigned s) { if (!on()) return 0; doSleep(g_clock + (i64)s * 1000000); return 0; }

	long syscall(long n, ...)
	{
		va_list ap; va_start(ap, n); long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long); va_end(ap);
		if (n == SYS_gettid && g_active && !g_inrt) return 1000 + cur;
		long ret;
		register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
		__asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
		if (ret < 0 && ret > -4096) { errno = (int)-ret; return -1; }
		return ret;
	}
}

// ================================================================== explorer
namespace {
struct Tab { u64 cap; std::atomic<u64>* v; }; // key (56 bits) | cost (8 bits)
Tab g_tab;
std::atomic<u64>* g_distinct = 0; std::atomic<u64>* g_next = 0; std::atomic<u64>* g_stop = 0;

// returns true if (key) was already visited with at most this cost; otherwise records it
bool visited(u64 key, int cost)
{
	u64 k = (key & ~0xffull) | 0; if (!(k >> 8)) k = 0x100;
	u64 i = mix(key) & (g_tab.cap - 1);
	for (u64 n = 0; n < 4096; ++n, i = (i + 1) & (g_tab.cap - 1))
	{
		u64 x = g_tab.v[i].load(std::memory_order_relaxed);
		if (!x)
		{
			if (g_distinct->load(std::memory_order_relaxed) > g_tab.cap * 9 / 10) return false;
			if (g_tab.v[i].compare_exchange_strong(x, k | (u64)(cost + 1))) { g_distinct->fetch_add(1, std::memory_order_relaxed); return false; }
		}
		while ((x & ~0xffull) == k)
		{
			if ((int)(x & 0xff) - 1 <= cost) return true;
			if (g_tab.v[i].compare_exchange_strong(x, k | (u64)(cost + 1))) return false;
		}
	}
	return false;
}

double now() { struct timespec ts; ::syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
double g_deadline = 0;
int g_si = 0;

void account()
{
	W->execs++; W->totSteps += g_forkChild ? 0 : W->steps; if (g_forkChild) W->totSteps += W->steps;
	W->totDec += W->ndec; if ((u64)W->ndec > W->maxDec) W->maxDec = W->ndec;
	u64 h = W->outcomeHash; bool f = false;
	for (u64 i = 0; i < W->nouts; ++i) if (W->outs[i] == h) f = true;
	if (!f && W->nouts < 4096) W->outs[W->nouts++] = h;
	if (!W->sample[0] || W->execs == 7) snprintf(W->sample, sizeof W->sample, "%d decisions, %llu steps, outcome: %.200s", W->ndec, (unsigned long long)W->steps, W->outcome[0] ? W->outcome : W->log);
}

// runs one execution with the given prefix; decisions end up in W->dec
void warmUp() // default schedules of every combination of environment choices, so that one-time initialisation is over
{
	runExec(g_si, false);
	g_warm = true; g_wlen = 0;
	for (int k = 0; k < 256; ++k)
	{
		g_wpos = 0; runExec(g_si, false); g_wlen = g_wpos;
		int i = g_wlen - 1; while (i >= 0 && g_wval[i] + 1 >= g_wn[i]) --i;
		if (i < 0) break;
		++g_wval[i]; g_wlen = i + 1;
	}
	g_warm = false;
	// executions that were found to initialise something for the rest of the process
	g_clamp = true; g_pkeys = 0;
	for (size_t k = 0; k < g_warmPaths.size(); ++k) { g_prefix = g_warmPaths[k].data(); g_plen = (int)g_warmPaths[k].size(); runExec(g_si, false); }
	g_clamp = false; g_prefix = 0; g_plen = 0;
}
void startTimers();
void execOnce(const u8* prefix, int plen, const u64* keys)
{
	W->nprev = W->ndec; for (int i = 0; i < W->ndec; ++i) W->prev[i] = W->dec[i].chosen;
	g_prefix = prefix; g_plen = plen; g_pkeys = keys;
	if (!g_scen[g_si].o.forkEach && !g_isolate) { runExec(g_si, true); account(); return; }
	fflush(stdout);
	pid_t p = fork();
	if (!p) { g_forkChild = true; startTimers(); for (int i = 0; i < MAXT; ++i) T[i].real = false; runExec(g_si, true); _exit(ST_OK); } // threads do not survive a fork
	int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) { }
	if (WIFEXITED(st) && WEXITSTATUS(st) == ST_OK) { account(); return; }
	if (WIFEXITED(st)) _exit(WEXITSTATUS(st));
	W->status = ST_VIOL; snprintf(W->msg, sizeof W->msg, "execution process died with signal %d", WTERMSIG(st)); _exit(ST_VIOL);
}

// depth-first search below a fixed prefix of length base; the current execution's decisions are in W->dec
struct Frame { u8 chosen, n, expand; u16 cost; u64 key; u8 c[MAXOPT]; };
void fillFrames(std::vector<Frame>& f, size_t from, int bound, bool root)
{
	f.resize(W->ndec);
	bool open = true; int cost = 0;
	for (size_t i = 0; i < f.size(); ++i)
	{
		Dec& d = W->dec[i];
		if (i >= from)
		{
			f[i].key = d.key; f[i].n = d.n; f[i].chosen = d.chosen; memcpy(f[i].c, d.cost, MAXOPT); f[i].cost = (u16)cost;
			if (open)
			{
				bool v = visited(d.key, cost);
				if (v && !root) { open = false; W->pruned++; } else W->expanded++;
			}
			f[i].expand = open;
		}
		cost += d.cost[d.chosen];
	}
	(void)bound;
}
void dfs(std::vector<u8> prefix, std::vector<u64> keys, int bound)
{
	size_t base = prefix.size();
	std::vector<Frame> f;
	execOnce(prefix.data(), (int)prefix.size(), keys.data());
	f.clear(); fillFrames(f, base, bound, false);
	// frames below base are not touched; give them inert content
	for (size_t i = 0; i < base && i < f.size(); ++i) { f[i].expand = 0; f[i].chosen = prefix[i]; f[i].key = W->dec[i].key; f[i].n = W->dec[i].n; memcpy(f[i].c, W->dec[i].cost, MAXOPT); }
	for (;;)
	{
		// deepest open alternative
		int i = (int)f.size() - 1;
		for (; i >= (int)base; --i)
		{
			if (!f[i].expand) continue;
			int a = f[i].chosen + 1;
			while (a < f[i].n && f[i].cost + f[i].c[a] > bound) { ++a; W->cut++; }
			if (a < f[i].n) { f[i].chosen = (u8)a; break; }
		}
		if (i < (int)base) return;
		if (g_stop->load(std::memory_order_relaxed) || (g_deadline && now() > g_deadline)) { W->capped++; g_stop->store(1); return; }
		f.resize(i + 1);
		std::vector<u8> p(i + 1); std::vector<u64> k(i + 1);
		for (int j = 0; j <= i; ++j) { p[j] = f[j].chosen; k[j] = f[j].key; }
		execOnce(p.data(), i + 1, k.data());
		fillFrames(f, i + 1, bound, false);
	}
}

u64 g_lastProg = ~0ull;
void onProf(int)
{
	u64 p = g_exec * 1000003ull + g_steps;
	if (g_active && p == g_lastProg && !g_inrt) Violate("hang: a thread runs without reaching a scheduling point");
	if (g_active && p == g_lastProg) Violate("hang inside the runtime");
	g_lastProg = p;
}
void onAlarm(int)
{
	static u64 last = ~0ull; u64 p = g_exec * 1000003ull + g_steps;
	if (g_active && p == last) Violate("hang: no progress for 60 s");
	last = p;
}
void startTimers() // 20 s of processor time or 60 s of waiting within one step is a hang; timers do not survive a fork either
{
	struct itimerval tv = { { 20, 0 }, { 20, 0 } }; setitimer(ITIMER_PROF, &tv, 0);
	struct itimerval ta = { { 60, 0 }, { 60, 0 } }; setitimer(ITIMER_REAL, &ta, 0);
}
void onCrash(int s, siginfo_t* si, void* uc)
{
	uptr pc = (uptr)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
	signal(s, SIG_DFL);
	if (!g_active) { W->status = ST_ERR; snprintf(W->msg, sizeof W->msg, "crash (signal %d) outside an execution, pc:%lx", s, (long)pc); _exit(ST_ERR); }
	Violate("crash: signal %d, address %lx, pc:%lx", s, (long)si->si_addr, (long)pc);
}
void onTerminate()
{
	g_inrt = true;
	const char* w = "(no exception)"; const std::type_info* ti = abi::__cxa_current_exception_type();
	if (ti)
	{
		int st; char* n = abi::__cxa_demangle(ti->name(), 0, 0, &st);
		static char b[2000];
		try { throw; } catch (const std::exception& e) { snprintf(b, sizeof b, "%s: %.1500s", n, e.what()); w = b; } catch (...) { w = n; }
	}
	Violate("std::terminate called: %s", w);
}
void setupSignals()
{
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = &onCrash; sa.sa_flags = SA_SIGINFO;
	sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGFPE, &sa, 0); sigaction(SIGILL, &sa, 0); sigaction(SIGABRT, &sa, 0);
	struct sigaction sp; memset(&sp, 0, sizeof sp); sp.sa_handler = &onProf; sp.sa_flags = SA_RESTART; sigaction(SIGPROF, &sp, 0);
	struct sigaction sl; memset(&sl, 0, sizeof sl); sl.sa_handler = &onAlarm; sl.sa_flags = SA_RESTART; sigaction(SIGALRM, &sl, 0);
	startTimers();
	std::set_terminate(&onTerminate);
}

void workerMain(int w, int nw, int bound, int ncpu)
{
	cpu_set_t cs; CPU_ZERO(&cs);
	cpu_set_t av; sched_getaffinity(0, sizeof av, &av); int k = w % ncpu;
	for (int i = 0; i < CPU_SETSIZE; ++i) if (CPU_ISSET(i, &av) && k-- == 0) { CPU_SET(i, &cs); sched_setaffinity(0, sizeof cs, &cs); break; }
	setupSignals();
	if (!getenv("MC_STDERR")) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); close(n); }
	g_prefix = 0; g_plen = 0; g_pkeys = 0;
	bool fe = g_scen[g_si].o.forkEach;
	if (!fe) warmUp();
	// root execution
	execOnce(0, 0, 0);
	if (w) { W->execs--; }
	std::vector<Frame> root; u64 ex = W->expanded; fillFrames(root, 0, bound, true); if (w) W->expanded = ex;
	std::vector<std::pair<int, int> > kids;
	for (int i = 0; i < (int)root.size(); ++i) for (int a = 1; a < root[i].n; ++a) { if (root[i].cost + root[i].c[a] <= bound) kids.push_back(std::make_pair(i, a)); else W->cut++; }
	for (;;)
	{
		u64 x = g_next->fetch_add(1);
		if (x >= kids.size()) break;
		if (g_stop->load() || (g_deadline && now() > g_deadline)) { W->capped++; g_stop->store(1); break; }
		int i = kids[x].first;
		std::vector<u8> p(i + 1); std::vector<u64> key(i + 1);
		for (int j = 0; j <= i; ++j) { p[j] = root[j].chosen; key[j] = root[j].key; }
		p[i] = (u8)kids[x].second;
		dfs(p, key, bound);
	}
	(void)nw;
	_exit(ST_OK);
}

template <typename Ty> Ty* shared(size_t n)
{
	void* p = mmap(0, n * sizeof(Ty), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); exit(2); }
	return (Ty*)p;
}

std::string jesc(const char* s)
{
	std::string o; for (; *s; ++s) { unsigned char c = *s; if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) o += '?'; else o += c; }
	return o;
}

bool confirmed(Shm* x) // does the execution that was reported fail in a fresh process as well?
{
	Shm* save = W; Shm* mine = shared<Shm>(1); W = mine;
	pid_t pid = fork();
	if (!pid)
	{
		std::vector<u8> p; for (int i = 0; i < x->ndec; ++i) p.push_back(x->dec[i].chosen);
		setupSignals();
		if (!getenv("MC_STDERR")) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); close(n); }
		warmUp();
		g_prefix = p.data(); g_plen = (int)p.size(); g_pkeys = 0; g_replay = true;
		runExec(g_si, true);
		_exit(ST_OK);
	}
	int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) { }
	bool r = !WIFEXITED(st) || WEXITSTATUS(st) == ST_VIOL;
	munmap(mine, sizeof(Shm)); W = save;
	return r;
}
int replayFile(const char* file)
{
	FILE* f = fopen(file, "r"); if (!f) { perror(file); return 2; }
	char name[256]; int bound; std::vector<u8> p; int v;
	if (fscanf(f, "scenario %255s bound %d choices", name, &bound) != 2) { fprintf(stderr, "bad replay file\n"); return 2; }
	while (fscanf(f, "%d", &v) == 1) p.push_back((u8)v);
	char word[16];
	while (fscanf(f, " %15s", word) == 1 && !strcmp(word, "warm")) { g_warmPaths.push_back(std::vector<u8>()); while (fscanf(f, "%d", &v) == 1) g_warmPaths.back().push_back((u8)v); }
	fclose(f);
	for (g_si = 0; g_si < g_nscen; ++g_si) if (!strcmp(g_scen[g_si].name, name)) break;
	if (g_si == g_nscen) { fprintf(stderr, "no scenario %s\n", name); return 2; }
	W = shared<Shm>(1);
	pid_t pid = fork();
	if (!pid)
	{
		setupSignals();
		if (!g_scen[g_si].o.forkEach) warmUp();
		g_prefix = p.data(); g_plen = (int)p.size(); g_pkeys = 0;
		g_replay = true; if (getenv("MC_TRACE")) g_trace = stdout;
		runExec(g_si, true);
		_exit(ST_OK);
	}
	int st; waitpid(pid, &st, 0);
	int code = WIFEXITED(st) ? WEXITSTATUS(st) : ST_ERR;
	printf("REPLAY {\"status\":%d,\"message\":\"%s\",\"log\":\"%s\"}\n", code, jesc(W->msg).c_str(), jesc(W->log).c_str());
	return code == ST_OK ? 0 : code == ST_VIOL ? 1 : 2;
}
}

int main(int argc, char** argv)
{
	int nw = 8; bool thorough = false; double timeCap = 0; const char* only = 0; std::string skip; const char* rep = 0; const char* out = "/tmp/mc_replay.txt"; int forceBound = -1; int tabBits = 22; double bonus = 0;
	for (int i = 1; i < argc; ++i)
	{
		std::string a = argv[i];
		if (a == "--thorough") thorough = true;
		else if (a == "--workers") nw = atoi(argv[++i]);
		else if (a == "--time") timeCap = atof(argv[++i]);
		else if (a == "--bonus") bonus = atof(argv[++i]);
		else if (a == "--only") only = argv[++i];
		else if (a == "--skip") skip = std::string(",") + argv[++i] + ",";
		else if (a == "--replay") rep = argv[++i];
		else if (a == "--out") out = argv[++i];
		else if (a == "--bound") forceBound = atoi(argv[++i]);
		else if (a == "--list") { for (int k = 0; k < g_nscen; ++k) printf("%s q%d t%d\n", g_scen[k].name, g_scen[k].o.quick, g_scen[k].o.thorough); return 0; }
	}
	if (thorough) tabBits = 26;
	dl_iterate_phdr(&phdrCb, 0);
	void* ar = mmap((void*)ARENA, ASZ * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
	if (ar == MAP_FAILED) { perror("arena"); return 2; }
	if (rep) return replayFile(rep);

	cpu_set_t av; sched_getaffinity(0, sizeof av, &av); int ncpu = CPU_COUNT(&av);
	g_distinct = shared<std::atomic<u64> >(1); g_next = shared<std::atomic<u64> >(1); g_stop = shared<std::atomic<u64> >(1);
	double t0 = now(); int nsel = 0; for (int i = 0; i < g_nscen; ++i) if (!only || strstr(g_scen[i].name, only)) ++nsel;
	int done = 0;
	for (g_si = 0; g_si < g_nscen; ++g_si)
	{
		Scen& sc = g_scen[g_si];
		if (only && !strstr(sc.name, only)) continue;
		if (skip.find(std::string(",") + sc.name + ",") != std::string::npos) continue;
		int B = forceBound >= 0 ? forceBound : thorough ? sc.o.thorough : sc.o.quick;
		u64 execs = 0, steps = 0, states = 0, lastStates = 0, capped = 0, maxDec = 0, restarts = 0, leaked = 0, exp = 0, pru = 0; std::set<u64> outs; int completed = -1; bool exhaustive = false, tableFull = false; char sample[512] = "";
		double st = now(); g_warmPaths.clear(); g_isolate = false;
		// remaining budget is shared fairly by the remaining scenarios
		g_deadline = timeCap ? now() + (timeCap - (now() - t0)) / (nsel - done) : 0;
		++done;
		// quick tier: the requested bound is always completed; deeper bounds follow while the extra time lasts
		int maxB = B; double bonusEnd = st + bonus / nsel;
		if (bonus > 0 && forceBound < 0 && sc.o.thorough > B) maxB = sc.o.thorough;
		for (int b = 0; b <= maxB; ++b)
		{
			if (b > B) { if (now() >= bonusEnd) break; if (!g_deadline || g_deadline > bonusEnd) g_deadline = bonusEnd; }
			g_tab.cap = 1ull << tabBits; g_tab.v = shared<std::atomic<u64> >(g_tab.cap);
			g_distinct->store(0); g_next->store(0); g_stop->store(0);
			std::vector<Shm*> shm; std::vector<pid_t> pids;
			int n = b == 0 ? 1 : nw;
			fflush(stdout);
			for (int w = 0; w < n; ++w)
			{
				shm.push_back(shared<Shm>(1)); shm[w]->bound = b;
				pid_t p = fork();
				if (!p) { W = shm[w]; workerMain(w, n, b, ncpu); _exit(0); }
				pids.push_back(p);
			}
			int bad = -1, badw = -1; int left = n;
			while (left)
			{
				int s; pid_t p = wait(&s); if (p < 0) { if (errno == EINTR) continue; break; }
				int w = -1; for (int i = 0; i < n; ++i) if (pids[i] == p) w = i;
				if (w < 0) continue;
				--left; pids[w] = -1;
				int code = WIFEXITED(s) ? WEXITSTATUS(s) : ST_ERR;
				if (!WIFEXITED(s)) snprintf(shm[w]->msg, sizeof shm[w]->msg, "worker killed by signal %d", WTERMSIG(s));
				if (code != ST_OK && bad < 0) { bad = code; badw = w; g_stop->store(1); for (int i = 0; i < n; ++i) if (pids[i] > 0) kill(pids[i], SIGKILL); }
			}
			u64 e = 0, cut = 0;
			for (int w = 0; w < n; ++w)
			{
				Shm* x = shm[w]; e += x->execs; cut += x->cut; execs += x->execs; steps += x->totSteps; capped += x->capped; maxDec = std::max(maxDec, x->maxDec); leaked += x->leakedExecs; exp += x->expanded; pru += x->pruned;
				for (u64 i = 0; i < x->nouts; ++i) outs.insert(x->outs[i]);
				if (x->sample[0] && !sample[0]) strcpy(sample, x->sample);
			}
			lastStates = g_distinct->load(); states = lastStates;
			if (bad == ST_ERR && shm[badw]->diverged && !sc.o.forkEach && !g_isolate)
			{
				// the execution before the diverging one left process-wide state behind (lazily created data):
				// make it part of the warm-up and explore this bound again; if that does not settle, isolate every execution
				Shm* x = shm[badw]; ++restarts; capped = 0;
				if (g_warmPaths.size() < 10) g_warmPaths.push_back(std::vector<u8>(x->prev, x->prev + x->nprev)); else g_isolate = true;
				for (int w = 0; w < n; ++w) munmap(shm[w], sizeof(Shm));
				munmap(g_tab.v, g_tab.cap * 8);
				--b; continue;
			}
			if (bad == ST_VIOL && !sc.o.forkEach && !g_isolate && !confirmed(shm[badw]))
			{
				// the violation does not happen in a fresh process: an earlier execution left dangling process-wide data behind
				// (a singleton created lazily); explore this bound again with every execution in a process of its own
				++restarts; capped = 0; g_isolate = true;
				for (int w = 0; w < n; ++w) munmap(shm[w], sizeof(Shm));
				munmap(g_tab.v, g_tab.cap * 8);
				--b; continue;
			}
			if (bad >= 0)
			{
				Shm* x = shm[badw];
				FILE* f = fopen(out, "w");
				if (f)
				{
					fprintf(f, "scenario %s bound %d choices", sc.name, b);
					for (int i = 0; i < x->ndec; ++i) fprintf(f, " %d", x->dec[i].chosen);
					for (size_t k = 0; k < g_warmPaths.size(); ++k) { fprintf(f, "\nwarm"); for (size_t i = 0; i < g_warmPaths[k].size(); ++i) fprintf(f, " %d", g_warmPaths[k][i]); }
					fprintf(f, "\n# %s\n# log: %s\n", jesc(x->msg).c_str(), jesc(x->log).c_str()); fclose(f);
				}
				printf("%s {\"scenario\":\"%s\",\"bound\":%d,\"message\":\"%s\",\"log\":\"%s\",\"replay\":\"%s\",\"executions\":%llu}\n", bad == ST_VIOL ? "VIOL" : "ERROR", sc.name, b, jesc(x->msg).c_str(), jesc(x->log).c_str(), out, (unsigned long long)execs);
				return bad == ST_VIOL ? 1 : 2;
			}
			for (int w = 0; w < n; ++w) munmap(shm[w], sizeof(Shm));
			bool full = g_distinct->load() > g_tab.cap * 9 / 10;
			munmap(g_tab.v, g_tab.cap * 8);
			if (capped) break;
			completed = b; (void)e;
			if (full) tableFull = true;
			if (!cut) { exhaustive = true; break; } // no alternative was left out: every interleaving is covered
		}
		printf("SCEN {\"scenario\":\"%s\",\"bound_requested\":%d,\"bound_completed\":%d,\"all_interleavings\":%s,\"table_full\":%s,\"executions\":%llu,\"steps\":%llu,\"states\":%llu,\"expanded\":%llu,\"pruned\":%llu,\"max_decisions\":%llu,\"outcomes\":%zu,\"leaked\":%llu,\"restarts\":%llu,\"wall\":%.2f,\"sample\":\"%s\"}\n",
			sc.name, B, completed, exhaustive ? "true" : "false", tableFull ? "true" : "false", (unsigned long long)execs, (unsigned long long)steps, (unsigned long long)states, (unsigned long long)exp, (unsigned long long)pru, (unsigned long long)maxDec, outs.size(), (unsigned long long)leaked, (unsigned long long)restarts, now() - st, jesc(sample).c_str());
		fflush(stdout);
	}
	return 0;
}
