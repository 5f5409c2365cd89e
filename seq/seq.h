// Harness API of the exhaustive sequence/input explorer (engine E2). See /verif/DESIGN.md.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <string>

namespace seq
{
	struct Opts
	{
		int quick = 4, thorough = 6;   // depth handed to the body by tier
		int split = 3;                 // number of leading picks over which work is divided
		Opts& Q(int v) { quick = v; return *this; }
		Opts& T(int v) { thorough = v; return *this; }
		Opts& Split(int v) { split = v; return *this; }
	};
	void Register(const char* name, void (*body)(int), const Opts& opts);
	struct Registrator { Registrator(const char* n, void (*b)(int), const Opts& o) { Register(n, b, o); } };
// body receives `depth`
#define SEQ_SCENARIO(Name_, ...) \
	static void Name_(int depth); \
	static ::seq::Registrator s_reg_##Name_(#Name_, &Name_, ::seq::Opts() __VA_ARGS__); \
	static void Name_(int depth)

	int Pick(int n);                        // one enumerated choice 0..n-1
	inline bool Flip() { return Pick(2) != 0; }
	bool Thorough();
	void Step(uint64_t n = 1);              // n operations were applied and checked
	void Cases(uint64_t n);                 // n complete inputs were checked inside this execution
	bool State(uint64_t h);                 // record a state; true if it was new to the whole exploration
	bool Prune(uint64_t h);                 // true: an equal state is explored elsewhere, the body must return
	void Fail(const char* fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
	void LogV(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
	extern bool g_log;
#define SEQ_LOG(...) do { if (::seq::g_log) ::seq::LogV(__VA_ARGS__); } while (0)
#define SEQ_CHECK(Cond_) do { if (!(Cond_)) ::seq::Fail("check failed: %s (%s:%d)", #Cond_, __FILE__ , __LINE__); } while (0)
#define SEQ_CHECK_MSG(Cond_, ...) do { if (!(Cond_)) ::seq::Fail(__VA_ARGS__); } while (0)

	struct Hash // FNV-style accumulation
	{
		uint64_t h = 1469598103934665603ull;
		Hash& Add(uint64_t v) { h ^= v; h *= 1099511628211ull; h ^= h >> 29; return *this; }
		Hash& Add(const void* p, size_t n) { const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; ++i) Add(c[i]); return *this; }
		Hash& Add(const std::string& s) { Add(s.size()); return Add(s.data(), s.size()); }
		operator uint64_t () const { return h; }
	};
	std::string Quote(const std::string& s);
}
