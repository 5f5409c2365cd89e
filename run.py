#!/usr/bin/env python3
"""Entry point of every check:  run.py <property id> [--tier quick|thorough] [--only scenario] [--keep]

Builds what the check needs from /repo's working tree, explores, replays any violation before reporting it, and
writes evidence/<id>.json. Exit 0: held. Exit 1: VIOLATION line printed. Exit 2: error of the check itself."""
import argparse, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
DEFS = ["-DDEBUG", "-DHAVE_ABI_FORCE_UNWIND=1", "-DHAVE_ATOMIC_BUILTINS=1", "-DHAVE_ICU_I18N=1", "-DHAVE_POSIX_SPAWN=1",
        "-DHAVE_POSIX_THREADS=1", "-DHAVE_PTHREAD_SETNAME", "-DHAVE_SYNC_AAF=1", "-DHAVE_SYNC_EAA_EXT=1", "-DPLATFORM_POSIX=1",
        "-DPOSIX_HAVE_MONOTONIC_TIMER=1", "-DSTINGRAYKIT_HAS_THREAD_KEYWORD=1", "-DSTINGRAYKIT_USES_GCC_VISIBILITY=1",
        "-DSTINGRAY_DEFAULT_LOGLEVEL=Info", "-DU_STATIC_IMPLEMENTATION=1", "-D_REENTRANT=1", "-DSTINGRAY_LIB_SOURCE"]
BASE = ["-w", "-ffast-math", "-pthread", "-fno-strict-aliasing", "-fno-expensive-optimizations", "-fvisibility=hidden",
        "-fvisibility-inlines-hidden", "-fno-pie"]
NOTBUILT = {"diagnostics/LibunwindBacktrace.cpp", "diagnostics/gcc/Backtrace.cpp", "thread/posix/Backtrace.cpp", "diagnostics/AbortWrap.cpp"}
PROFILER = ["_ZN8stingray13AsyncProfiler7SessionC1ERKNS_10shared_ptrIS0_EEPKcNS_12TimeDurationE",
            "_ZN8stingray13AsyncProfiler7SessionC1ERKNS_10shared_ptrIS0_EERKNS_8functionIFNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEvEEENS_12TimeDurationERKNS0_13NameGetterTagE",
            "_ZN8stingray13AsyncProfiler7SessionC1ERKNS_10shared_ptrIS0_EERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEENS_12TimeDurationE",
            "_ZN8stingray13AsyncProfiler7SessionD1Ev",
            "_ZN8stingray13AsyncProfilerC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"]
ICU = ["-licui18n", "-licuuc", "-licudata"]

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)

def die(msg):
    print("ERROR " + msg); sys.stdout.flush(); sys.exit(2)

def part_name(part): return os.path.basename(part["src"])[:-4] + "-" + part["mode"]

class Build:
    MODES = {
        "mc":  dict(std="-std=gnu++14", flags=["-O1", "-fsanitize=thread"], link=["-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset"] + ["-Wl,--wrap=" + s for s in PROFILER]),
        "mcp": dict(std="-std=gnu++14", flags=["-O1", "-fsanitize=thread"], link=["-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset"]), # with the real AsyncProfiler
        "seq": dict(std="-std=gnu++14", flags=["-O1", "-fsanitize=address"], link=["-fsanitize=address"]),
        "seqfast": dict(std="-std=gnu++14", flags=["-O1"], link=[]),
    }
    def __init__(self, pid):
        self.pid = pid
        self.dir = os.path.join(ROOT, "build", pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.env = dict(os.environ, CCACHE_DIR=os.path.join(ROOT, "build", "ccache"), LANG="C.UTF-8", TZ="UTC")
        self.cc = ["ccache", "g++"] if shutil.which("ccache") else ["g++"]
        self.srcs = []
        base = os.path.join(REPO, "stingraykit")
        for d, _, fs in os.walk(base):
            for f in fs:
                p = os.path.relpath(os.path.join(d, f), base)
                if p.endswith(".cpp") and p not in NOTBUILT and not re.search(r"/(win|android|darwin|psp|bada)/", "/" + p):
                    self.srcs.append(p)
        self.srcs.sort()
        try: self.deps = json.load(open(os.path.join(ROOT, "tools", "deps.json")))
        except Exception: self.deps = {}
    def compile(self, jobs):
        """jobs: list of (source, object, std, flags)"""
        def one(j):
            src, obj, std, flags = j
            r = sh(self.cc + [std] + BASE + flags + ["-c", src, "-o", obj], env=self.env)
            return (src, r.returncode, r.stdout)
        bad = []
        with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
            for src, rc, out in ex.map(one, jobs):
                if rc: bad.append((src, out))
        return bad
    def jobs(self, name, mode, harness, want=None):
        """everything one program needs: (its harness object, the runtime object, the library's sources, compile jobs)"""
        m = self.MODES[mode]
        lib = os.path.join(self.dir, "lib-" + mode); os.makedirs(lib, exist_ok=True)
        inc = DEFS + ["-I" + REPO, "-I" + ROOT]
        def libjobs(names): return [(os.path.join(REPO, "stingraykit", s), os.path.join(lib, s.replace("/", "_") + ".o"), m["std"], m["flags"] + inc) for s in names]
        hobj = os.path.join(self.dir, name + ".o")
        jobs = [(os.path.join(ROOT, harness), hobj, m["std"], m["flags"] + inc)]
        if mode.startswith("mc"):
            rt = os.path.join(self.dir, "rt.o"); jobs.append((os.path.join(ROOT, "mc", "rt.cpp"), rt, "-std=gnu++17", ["-O2", "-fvisibility=default"]))
        else:
            rt = os.path.join(self.dir, "seqrt-" + mode + ".o"); jobs.append((os.path.join(ROOT, "seq", "seqrt.cpp"), rt, "-std=gnu++17", ["-O2"] + (["-fsanitize=address"] if mode == "seq" else [])))
        key = mode + ":" + harness
        names = [s for s in self.deps.get(key, self.srcs) if s in self.srcs] if want is None else want
        return hobj, rt, names, jobs + libjobs(names), libjobs
    def prepare(self, parts, want=None):
        """compile for all the parts of a check at once, longest jobs (the harnesses) first"""
        todo = {}
        for part in parts:
            js = self.jobs(part_name(part), part["mode"], part["src"], want)[3]
            for n, j in enumerate(js): todo.setdefault(j[1], (n > 0, len(todo), j))
        bad = self.compile([j for _, _, j in sorted(todo.values(), key=lambda t: t[:2]) if not os.path.exists(j[1])])
        if bad:
            for s, o in bad: print("compile failed: %s\n%s" % (s, o[-6000:]))
            die("the check does not build against the current tree")
    def program(self, name, mode, harness, want=None):
        m = self.MODES[mode]
        lib = os.path.join(self.dir, "lib-" + mode)
        hobj, rt, names, _, libjobs = self.jobs(name, mode, harness, want)
        exe = os.path.join(self.dir, name)
        def link():
            objs = [os.path.join(lib, f) for f in sorted(os.listdir(lib)) if f.endswith(".o")]
            ar = os.path.join(self.dir, name + ".a")
            if os.path.exists(ar): os.remove(ar)
            sh(["ar", "rcs", ar] + objs)
            return sh(["g++", "-no-pie", "-pthread", "-rdynamic"] + m["link"] + ["-o", exe, hobj, rt, ar, "-ldl", "-lrt"] + ICU + ["-Wl,-Map=" + exe + ".map"])
        r = link()
        if r.returncode and set(names) != set(self.srcs):
            rest = [s for s in self.srcs if s not in names]
            bad = self.compile(libjobs(rest))
            r = link()
        if r.returncode:
            print(r.stdout[-6000:]); die("the check does not link against the current tree")
        return exe

class Sym:
    def __init__(self, exe):
        self.t = []
        for l in sh(["nm", "-n", "-C", exe]).stdout.splitlines():
            p = l.split(" ", 2)
            if len(p) == 3 and p[0] and p[1] in ("t", "T", "w", "W", "u", "V", "v"): self.t.append((int(p[0], 16), p[2]))
        self.k = [a for a, _ in self.t]
    def name(self, pc):
        import bisect
        i = bisect.bisect_right(self.k, pc) - 1
        return self.t[i][1] if i >= 0 else hex(pc)
    def text(self, s):
        return re.sub(r"pc:([0-9a-f]+)", lambda m: "\n        " + self.name(int(m.group(1), 16))[:150], s)

def known(pid):
    """known-findings.txt: 'finding: property=<id> scenario=<name> match=<regex> :: <what fails>' (fixed: lines suppress nothing)"""
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) scenario=(\S+) match=(.*?) :: (.*)$", l.strip())
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3), m.group(4)))
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only"); ap.add_argument("--time", type=float); ap.add_argument("--build-only", action="store_true"); ap.add_argument("--all-sources", action="store_true")
    ap.add_argument("--workers", type=int, default=8)
    a = ap.parse_args()
    t0 = time.time()
    spec = json.load(open(os.path.join(ROOT, "checks.json")))[a.pid]
    b = Build(a.pid)
    thorough = a.tier == "thorough"
    cap = a.time or (7200 if thorough else 300)
    outdir = os.path.join(ROOT, "out"); os.makedirs(outdir, exist_ok=True)
    scen, violations, findings, errors = [], [], [], []
    b.prepare(spec["parts"], want=b.srcs if a.all_sources else None)
    for part in spec["parts"]:
        name = part_name(part)
        env = dict(b.env, **part.get("env", {}))
        exe = b.program(name, part["mode"], part["src"], want=b.srcs if a.all_sources else None)
        if a.build_only: continue
        replay = os.path.join(outdir, "%s-%s.replay" % (a.pid, name))
        cmd = [exe, "--workers", str(a.workers), "--time", str(cap), "--out", replay] + (["--thorough"] if thorough else []) + (["--bonus", "6"] if part["mode"].startswith("mc") and not thorough else [])
        kn = known(a.pid)
        skip = []
        while True:
            r = subprocess.run(cmd + (["--only", a.only] if a.only else []) + (["--skip", ",".join(skip)] if skip else []),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=cap + 300)
            text = r.stdout.decode("utf-8", "replace")
            again = False
            for l in text.splitlines():
                m = re.match(r"(SCEN|VIOL|ERROR) (\{.*\})$", l)
                if not m: continue
                try: d = json.loads(m.group(2))
                except Exception as e: die("unreadable report line: %s" % l[:500])
                d["part"] = name
                if m.group(1) == "SCEN": scen.append(d)
                elif m.group(1) == "ERROR": errors.append(d)
                else:
                    # replay before report: the same violation, twice, in fresh processes
                    msgs = []
                    for _ in range(2):
                        q = sh([exe, "--replay", replay], env=env)
                        mm = re.search(r"REPLAY (\{.*\})", q.stdout)
                        msgs.append((q.returncode, json.loads(mm.group(1))["message"] if mm else q.stdout[-500:]))
                    if any(rc != 1 for rc, ms in msgs):
                        errors.append(dict(d, message="violation did not replay: %s / %s" % (d["message"], msgs)))
                        continue
                    text1 = Sym(exe).text(d["message"]) if part["mode"].startswith("mc") else d["message"]
                    hit = [k for k in kn if k[0] == d["scenario"] and re.search(k[1], d["message"])]
                    if hit:
                        findings.append((d["scenario"], hit[0][2])); skip.append(d["scenario"]); again = True
                    else:
                        violations.append((d, text1, replay))
            if not again: break
        if r.returncode not in (0, 1) and not errors:
            errors.append({"message": "checker ended with %s: %s" % (r.returncode, text[-2000:])})
        if violations or errors: break
    if a.build_only: return 0
    level = spec.get("level", "model_checking")
    cov = {
        "states": sum(d.get("states", 0) for d in scen),
        "transitions": sum(d.get("steps", 0) for d in scen),
        "traces_validated_against_impl": sum(d.get("executions", 0) + d.get("cases", 0) for d in scen),
        "exhaustive": bool(scen) and all(d.get("bound_completed", -1) >= d.get("bound_requested", 0) or d.get("all_interleavings") for d in scen),
        "scenarios": [{k: v for k, v in d.items() if k not in ("sample",)} for d in scen],
        "samples": ["%s: %s" % (d["scenario"], d.get("sample", "")) for d in scen][:12] or ["none"],
    }
    if not scen and violations: cov["samples"] = [violations[0][0]["message"][:400]]
    ev = {"property": a.pid, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
          "coverage": cov, "wall_s": round(time.time() - t0, 2), "violations": len(violations),
          "assumptions": spec.get("assumptions", []) + ["every explored execution ran the real code of /repo; bounds per scenario are in coverage.scenarios"]}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", a.pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for d in scen:
        print("  %-34s bound %s/%s%s executions %d states %d steps %d outcomes %s  %.1fs" % (d["scenario"], d.get("bound_completed"), d.get("bound_requested"),
              " (all)" if d.get("all_interleavings") else "", d.get("executions", 0), d.get("states", 0), d.get("steps", 0), d.get("outcomes"), d.get("wall", 0)))
    for s, w in findings: print("KNOWN-FINDING: property=%s scenario=%s %s" % (a.pid, s, w))
    shutil.rmtree(b.dir, ignore_errors=True) if not os.environ.get("VERIF_KEEP") else None
    if violations:
        for d, text1, replay in violations:
            print("--- scenario %s, bound %s\n%s\n    log: %s" % (d["scenario"], d.get("bound"), text1, d.get("log", "")))
            print("VIOLATION property=%s replay=%s" % (a.pid, replay))
        return 1
    if errors:
        for e in errors: print("ERROR %s: %s" % (e.get("scenario", ""), e.get("message", "")))
        return 2
    print("OK property=%s tier=%s executions=%d states=%d wall=%.1fs" % (a.pid, a.tier, cov["traces_validated_against_impl"], cov["states"], time.time() - t0))
    return 0

sys.exit(main())
