// Exhaustive sequence/input explorer: runtime (engine E2). Every execution is determined by its sequence of picks;
// all of them are enumerated depth first, split over worker processes, each execution running the real code.
#include "seq.h"
#include <errno.h>
#include <exception>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <fstream>
#include <sstream>
#include <vector>

typedef uint64_t u64;
extern "C" void __asan_set_error_report_callback(void (*)(const char*)) __attribute__((weak));
extern "C" __attribute__((visibility("default"))) const char* __asan_default_options() { return "detect_leaks=0:new_delete_type_mismatch=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:symbolize=0:detect_stack_use_after_return=0:quarantine_size_mb=16:malloc_context_size=3:max_allocation_size_mb=2048"; }

namespace seq
{
	bool g_log = false;
	struct Violation { };
	struct Abort { };
	namespace {
		enum { MAXP = 4096 };
		struct Scen { const char* name; void (*body)(int); Opts o; };
		std::vector<Scen>& Tab() { static std::vector<Scen> t; return t; }
		struct Shm
		{
			volatile int status; // 0 running, 1 finished, 3 violation, 4 error
			volatile u64 beat;
			char msg[8192]; char log[32768]; int loglen; char asan[4096];
			int npath; int path[MAXP];
			u64 execs, cases, steps, maxpicks, pruned; int timeup;
			char sample[512];
		};
		struct Glob { volatile u64 next; volatile int stop; volatile u64 states; volatile u64 full; };
		Glob* g; Shm* S; u64* table; const u64 TSIZE = 1ull << 24;
		int g_choice[MAXP], g_n[MAXP]; int g_pos, g_len, g_forced; // current path; g_forced: picks replayed from the previous execution
		bool g_aborted, g_violated, g_replay, g_thorough; int g_split; u64 g_prefix, g_ticket; bool g_counted; int g_worker; pid_t g_pid;
		u64 g_tick;

		void AsanCb(const char* m) { if (S) { strncpy(S->asan, m, sizeof(S->asan) - 1); } }
		double Now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
		bool Insert(u64 h)
		{
			if (!h) h = 1;
			for (u64 i = h & (TSIZE - 1), k = 0; k < 4096; i = (i + 1) & (TSIZE - 1), ++k)
			{
				u64 c = __atomic_load_n(&table[i], __ATOMIC_RELAXED);
				if (c == h) return false;
				if (!c) { u64 e = 0; if (__atomic_compare_exchange_n(&table[i], &e, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) { __atomic_fetch_add(&g->states, 1, __ATOMIC_RELAXED); return true; } if (e == h) return false; }
			}
			g->full = 1;
			return true;
		}
	}
	void Register(const char* name, void (*body)(int), const Opts& o) { Tab().push_back(Scen{name, body, o}); }
	bool Thorough() { return g_thorough; }
	int Pick(int n)
	{
		if (n <= 1 || g_aborted || g_violated) return 0;
		if (g_pos == MAXP) Fail("more than %d picks in one execution", (int)MAXP);
		if (g_replay) { if (g_pos >= g_len) { g_aborted = true; throw Abort(); } return g_choice[g_pos++]; }
		if (g_pos >= g_len) { g_choice[g_pos] = 0; g_n[g_pos] = n; g_len = g_pos + 1; }
		else if (g_n[g_pos] != n) { S->status = 4; snprintf(S->msg, sizeof S->msg, "nondeterministic body: pick %d had %d options, now %d", g_pos, g_n[g_pos], n); _exit(4); }
		int c = g_choice[g_pos];
		S->path[g_pos] = c; ++g_pos; S->npath = g_pos;
		if (g_pos == g_split && g_forced < g_split) // a new prefix: ours or somebody else's
		{
			u64 id = g_prefix++;
			if (id != g_ticket) { g_aborted = true; throw Abort(); }
			g_ticket = __atomic_fetch_add(&g->next, 1, __ATOMIC_RELAXED);
		}
		return c;
	}
	void Step(uint64_t n) { S->steps += n; }
	void Cases(uint64_t n) { S->cases += n; S->beat++; }
	bool State(uint64_t h) { if (g_replay) return true; return Insert(h); }
	bool Prune(uint64_t h)
	{
		if (g_replay || g_aborted) return false;
		if (g_pos <= g_split || g_pos <= g_forced) { return false; }
		if (Insert(h)) return false;
		S->pruned++;
		return true;
	}
	void LogV(const char* fmt, ...)
	{
		int room = (int)sizeof(S->log) - S->loglen - 2; if (room < 10) return;
		va_list a; va_start(a, fmt); int n = vsnprintf(S->log + S->loglen, room, fmt, a); va_end(a);
		S->loglen += n < room ? n : room - 1; S->log[S->loglen++] = '\n'; S->log[S->loglen] = 0;
	}
	void Fail(const char* fmt, ...)
	{
		if (g_aborted) throw Abort();
		if (!g_violated)
		{
			va_list a; va_start(a, fmt); vsnprintf(S->msg, sizeof S->msg, fmt, a); va_end(a);
			S->status = 3; g_violated = true;
		}
		_exit(3);
	}
	std::string Quote(const std::string& s)
	{
		std::string r = "\""; char b[8];
		for (unsigned char c : s) if (c >= 32 && c < 127 && c != '"' && c != '\\') r += (char)c; else { snprintf(b, 8, "\\x%02x", c); r += b; }
		return r + "\"";
	}
	namespace {
		std::string Json(const std::string& s)
		{
			std::string r; char b[8];
			for (unsigned char c : s) if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); r += b; } else r += c;
			return r;
		}
		void RunBody(const Scen& s, int depth)
		{
			try { s.body(depth); }
			catch (const Abort&) { g_aborted = true; }
			catch (const std::exception& e) { if (!g_aborted) Fail("unexpected exception: %s", e.what()); }
			catch (...) { if (!g_aborted) Fail("unexpected exception of unknown type"); }
		}
		void Quiet() { if (__asan_set_error_report_callback) __asan_set_error_report_callback(&AsanCb); if (!getenv("SEQ_STDERR")) { if (!freopen("/dev/null", "w", stderr)) { } } if (!freopen("/dev/null", "w", stdout)) { } }
		void Worker(const Scen& s, int depth, double deadline)
		{
			Quiet();
			g_split = s.o.split; g_len = 0; g_forced = 0; g_prefix = 0; g_ticket = __atomic_fetch_add(&g->next, 1, __ATOMIC_RELAXED);
			bool first = true;
			for (;;)
			{
				g_pos = 0; g_aborted = false; S->npath = 0; S->steps += 0;
				u64 steps0 = S->steps, cases0 = S->cases;
				RunBody(s, depth);
				S->beat++;
				bool mine = !g_aborted && (g_pos >= g_split || g_worker == 0);
				if (g_aborted || !mine) { S->steps = steps0; S->cases = cases0; }
				if (mine)
				{
					S->execs++;
					if ((u64)g_pos > S->maxpicks) { S->maxpicks = g_pos; std::ostringstream o; o << "picks"; for (int i = 0; i < g_pos && i < 60; ++i) o << ' ' << g_choice[i]; strncpy(S->sample, o.str().c_str(), sizeof(S->sample) - 1); }
				}
				g_len = g_pos;
				int i = g_len - 1;
				while (i >= 0 && g_choice[i] + 1 >= g_n[i]) --i;
				if (i < 0) break;
				g_choice[i]++; g_len = i + 1; g_forced = i;
				if (g->stop) break;
				if ((++g_tick & 15) == 0 && Now() > deadline) { S->timeup = 1; g->stop = 1; break; }
				(void)first;
			}
			S->status = 1;
			_exit(0);
		}
		struct Res { bool viol = false, err = false; std::string msg, log; std::vector<int> path; };
		std::string Death(int st, Shm* sh)
		{
			char b[512];
			if (sh->status == 3) return sh->msg;
			if (sh->asan[0])
			{
				// keep only the stable headline (addresses differ from run to run)
				std::string a = sh->asan, k = "memory error";
				size_t p = a.find("ERROR: AddressSanitizer: ");
				if (p != std::string::npos) { p += 25; size_t e = a.find_first_of(" \n", p); k = a.substr(p, e - p); }
				return "AddressSanitizer: " + k;
			}
			if (WIFSIGNALED(st)) { snprintf(b, sizeof b, "the code under test died with signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))); return b; }
			snprintf(b, sizeof b, "the code under test ended the process with code %d", WEXITSTATUS(st)); return b;
		}
		const double HANG = 20;
		// run one path in a child, with logging
		Res ReplayPath(const Scen& s, int depth, const std::vector<int>& path)
		{
			Res r; memset(S, 0, sizeof *S);
			pid_t p = fork();
			if (!p)
			{
				Quiet(); g_replay = true; g_log = true; g_len = (int)path.size(); for (int i = 0; i < g_len; ++i) g_choice[i] = path[i]; g_pos = 0;
				RunBody(s, depth); S->status = 1; _exit(0);
			}
			double t0 = Now(); int st = 0; bool hang = false; u64 beat = 0;
			while (waitpid(p, &st, WNOHANG) == 0)
			{
				if (S->beat != beat) { beat = S->beat; t0 = Now(); }
				if (Now() - t0 > HANG) { kill(p, SIGKILL); waitpid(p, &st, 0); hang = true; break; }
				usleep(2000);
			}
			r.log = S->log;
			if (hang) { r.viol = true; r.msg = "the code under test does not return (no progress for 20 s)"; }
			else if (S->status == 4) { r.err = true; r.msg = S->msg; }
			else if (S->status != 1) { r.viol = true; r.msg = Death(st, S); }
			r.path = path;
			return r;
		}
		bool In(const char* list, const char* name)
		{ if (!list) return false; std::stringstream ss(list); std::string x; while (std::getline(ss, x, ',')) if (x == name) return true; return false; }
	}
}
using namespace seq;

int main(int argc, char** argv)
{
	const char *only = 0, *skip = 0, *out = "replay.txt", *replay = 0; int workers = 8, bound = 0; double cap = 300;
	for (int i = 1; i < argc; ++i)
	{
		std::string a = argv[i]; auto nx = [&]{ return ++i < argc ? argv[i] : (char*)""; };
		if (a == "--only") only = nx(); else if (a == "--skip") skip = nx(); else if (a == "--out") out = nx(); else if (a == "--replay") replay = nx();
		else if (a == "--workers") workers = atoi(nx()); else if (a == "--time") cap = atof(nx()); else if (a == "--bound") bound = atoi(nx());
		else if (a == "--thorough") g_thorough = true; else if (a == "--list") { for (auto& s : Tab()) printf("%s\n", s.name); return 0; }
	}
	g_pid = getpid();
	auto map = [](size_t n) { void* p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { printf("ERROR {\"message\":\"mmap\"}\n"); exit(2); } return p; };
	g = (Glob*)map(sizeof(Glob)); table = (u64*)map(TSIZE * 8);
	Shm* all = (Shm*)map(sizeof(Shm) * (workers + 1)); S = &all[workers];
	if (replay)
	{
		std::ifstream f(replay); std::string name; int depth, thor; f >> name >> depth >> thor; g_thorough = thor; std::vector<int> path; int c; while (f >> c) path.push_back(c);
		for (auto& s : Tab()) if (name == s.name)
		{
			Res r = ReplayPath(s, depth, path);
			printf("%s\nREPLAY {\"scenario\":\"%s\",\"message\":\"%s\"}\n", r.log.c_str(), s.name, Json(r.msg).c_str());
			return r.viol ? 1 : r.err ? 2 : 0;
		}
		printf("no such scenario\n"); return 2;
	}
	int rc = 0; double tend = Now() + cap; int left = 0;
	for (auto& s : Tab()) if (!(only && !In(only, s.name)) && !In(skip, s.name)) ++left;
	for (auto& s : Tab())
	{
		if ((only && !In(only, s.name)) || In(skip, s.name)) continue;
		int depth = bound ? bound : g_thorough ? s.o.thorough : s.o.quick;
		memset(g, 0, sizeof *g); madvise(table, TSIZE * 8, MADV_REMOVE); memset(all, 0, sizeof(Shm) * workers);
		double t0 = Now(), share = (tend - t0) / left; if (share < 5) share = 5; --left;
		fflush(stdout);
		std::vector<pid_t> pids(workers); std::vector<double> lastT(workers, t0); std::vector<u64> lastB(workers, 0); std::vector<int> st(workers, 0); std::vector<bool> done(workers, false), hung(workers, false);
		for (int w = 0; w < workers; ++w) { pids[w] = fork(); if (!pids[w]) { S = &all[w]; g_worker = w; Worker(s, depth, t0 + share); } }
		int alive = workers, bad = -1;
		while (alive)
		{
			bool any = false;
			for (int w = 0; w < workers; ++w) if (!done[w])
			{
				if (waitpid(pids[w], &st[w], WNOHANG) == pids[w]) { done[w] = true; --alive; any = true; if (all[w].status != 1 && bad < 0) { bad = w; g->stop = 1; for (int v = 0; v < workers; ++v) if (!done[v]) kill(pids[v], SIGKILL); } }
				else
				{
					if (all[w].beat != lastB[w]) { lastB[w] = all[w].beat; lastT[w] = Now(); }
					else if (Now() - lastT[w] > HANG + 10) { hung[w] = true; kill(pids[w], SIGKILL); }
				}
			}
			if (!any) usleep(1000);
		}
		if (bad >= 0)
		{
			Shm* b = &all[bad]; S = &all[workers];
			if (b->status == 4) { printf("ERROR {\"scenario\":\"%s\",\"message\":\"%s\"}\n", s.name, Json(b->msg).c_str()); rc = 2; continue; }
			std::vector<int> path(b->path, b->path + b->npath);
			std::string m1 = hung[bad] ? "the code under test does not return (no progress for 20 s)" : Death(st[bad], b);
			{ std::ofstream f(out); f << s.name << ' ' << depth << ' ' << (int)g_thorough; for (int c : path) f << ' ' << c; f << '\n'; }
			Res r = ReplayPath(s, depth, path);
			std::ofstream(std::string(out) + ".txt") << "scenario " << s.name << "\n" << r.log << (r.msg.empty() ? m1 : r.msg) << "\n";
			std::string lg = r.log.size() > 3000 ? r.log.substr(r.log.size() - 3000) : r.log; for (auto& c : lg) if (c == '\n') c = ';';
			printf("VIOL {\"scenario\":\"%s\",\"bound\":%d,\"message\":\"%s\",\"log\":\"%s\"}\n", s.name, depth, Json(m1).c_str(), Json(lg).c_str());
			rc = 1; break;
		}
		u64 ex = 0, ca = 0, stp = 0, mp = 0, pr = 0; int tu = 0; const char* sample = "";
		for (int w = 0; w < workers; ++w) { ex += all[w].execs; ca += all[w].cases; stp += all[w].steps; pr += all[w].pruned; tu |= all[w].timeup; if (all[w].maxpicks >= mp) { mp = all[w].maxpicks; sample = all[w].sample; } }
		printf("SCEN {\"scenario\":\"%s\",\"bound_requested\":%d,\"bound_completed\":%d,\"all_interleavings\":false,\"table_full\":%s,\"executions\":%llu,\"cases\":%llu,\"steps\":%llu,\"states\":%llu,\"pruned\":%llu,\"max_decisions\":%llu,\"outcomes\":0,\"wall\":%.2f,\"sample\":\"%s\"}\n",
			s.name, depth, tu ? -1 : depth, g->full ? "true" : "false", (unsigned long long)ex, (unsigned long long)ca, (unsigned long long)stp, (unsigned long long)g->states, (unsigned long long)pr, (unsigned long long)mp, Now() - t0, Json(sample).c_str());
		fflush(stdout);
	}
	return rc;
}
