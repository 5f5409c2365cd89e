// Harness API of the controlled-scheduler model checker (engine E1). See /verif/DESIGN.md.
#pragma once
#include <pthread.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string>
#include <new>
#include <utility>

namespace mc
{
	// ---- scenario registration
	struct Opts
	{
		int  quick = 2;            // deviation (preemption) bound of the quick tier
		int  thorough = 10;        // and of the thorough tier
		bool spurious = false;     // condition waits may wake up spuriously (one deviation each)
		bool unlockPoints = false; // scheduling point before every mutex unlock (needed when try-locks are observed)
		bool forkEach = false;     // every execution in a fresh forked process (fresh statics)
		bool races = true;         // happens-before data races are violations
		bool freeSwitchCosts = false; // delay bounding: every non-default choice costs one deviation
		int  maxSteps = 20000;     // horizon: more scheduling steps than this in one execution is a livelock
		bool leaks = false;        // memory allocated in an execution must be freed by its end
		bool timeouts = true;      // a timed wait may expire while other threads are still runnable (one deviation)
		Opts& Q(int v) { quick = v; return *this; }
		Opts& T(int v) { thorough = v; return *this; }
		Opts& Spurious() { spurious = true; return *this; }
		Opts& UnlockPoints() { unlockPoints = true; return *this; }
		Opts& ForkEach() { forkEach = true; return *this; }
		Opts& NoRaces() { races = false; return *this; }
		Opts& Delay() { freeSwitchCosts = true; return *this; }
		Opts& Horizon(int v) { maxSteps = v; return *this; }
		Opts& Leaks() { leaks = true; return *this; }
		Opts& NoTimeouts() { timeouts = false; return *this; }
	};
	void Register(const char* name, void (*body)(), const Opts& opts);
	struct Registrator { Registrator(const char* n, void (*b)(), const Opts& o) { Register(n, b, o); } };
#define MC_SCENARIO(Name_, ...) \
	static void Name_(); \
	static ::mc::Registrator s_reg_##Name_(#Name_, &Name_, ::mc::Opts() __VA_ARGS__); \
	static void Name_()

	// ---- oracle
	void Fail(const char* fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
	void Outcome(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // final observation of this execution
#define MC_CHECK(Cond_) do { if (!(Cond_)) ::mc::Fail("check failed: %s (%s:%d)", #Cond_, __FILE__ , __LINE__); } while (0)
#define MC_CHECK_MSG(Cond_, ...) do { if (!(Cond_)) ::mc::Fail(__VA_ARGS__); } while (0)

	// ---- environment
	void Point();                 // an explicit scheduling point
	void Yield();                 // scheduling point at which this thread steps back
	int  Pick(int n, int cost = 0); // nondeterministic environment choice 0..n-1 (enumerated)
	int  Event(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // totally ordered observation; returns its index
	std::string Log();            // all events so far, '|' separated
	int  Self();                  // logical thread index
	long long NowUs();            // virtual monotonic clock, microseconds
	void AdvanceUs(long long us); // let virtual time pass
	void Ignore(void* p, size_t n); // no race checks for this memory (harness-owned observation cells)
	bool Replaying();
	void RunAtExit();             // run what this execution registered for program exit (ForkEach scenarios only)

	// ---- observation cells: race-unchecked, totally ordered, part of the state hash
	uint64_t CellGet(const void* p);
	void CellTouch(const void* p, uint64_t v, bool write);
	template <typename T> class Cell
	{
		T v;
		__attribute__((no_sanitize("thread"))) T get() const { return v; }
		__attribute__((no_sanitize("thread"))) void set(T x) { v = x; }
	public:
		__attribute__((no_sanitize("thread"))) Cell(T x = T()) : v(x) { }
		operator T() const { T x = get(); CellTouch(this, (uint64_t)x, false); return x; }
		T operator = (T x) { set(x); CellTouch(this, (uint64_t)x, true); return x; }
		T operator ++ () { T x = get() + 1; set(x); CellTouch(this, (uint64_t)x, true); return x; }
		T operator -- () { T x = get() - 1; set(x); CellTouch(this, (uint64_t)x, true); return x; }
		T operator ++ (int) { return ++*this - 1; }
		T operator += (T d) { T x = get() + d; set(x); CellTouch(this, (uint64_t)x, true); return x; }
	};

	// ---- raw threads for drivers (the code under test uses its own)
	class Th
	{
		pthread_t t; bool joinable;
		template <typename F> static void* Run(void* p) { F* f = static_cast<F*>(p); (*f)(); delete f; return 0; }
	public:
		Th() : t(), joinable(false) { }
		template <typename F> explicit Th(F f) : t(), joinable(true) { pthread_create(&t, 0, &Run<F>, new F(std::move(f))); }
		Th(Th&& o) : t(o.t), joinable(o.joinable) { o.joinable = false; }
		Th& operator = (Th&& o) { Join(); t = o.t; joinable = o.joinable; o.joinable = false; return *this; }
		~Th() { Join(); }
		void Join() { if (joinable) { joinable = false; pthread_join(t, 0); } }
	};
}
