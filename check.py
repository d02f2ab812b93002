#!/usr/bin/env python3
"""Decides one property by running the monitored workloads against /repo's tree.

    check.py C01                 the tier in VERIF_TIER (default quick)
    check.py C01 --tier thorough
    check.py --replay FILE       runs the case of a violation again

Exit 0: held on everything observed; 1: violated (a VIOLATION line names the
replay file); 2: the check could not decide (its own error).
"""
import json, os, re, signal, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
TARGET = "x86_64-unknown-linux-gnu"
CRASH = {signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP, signal.SIGSYS}
START = time.time()

# how much of the native workload the quick tier runs, by property
SCALE = {
    "C01": 40, "C02": 36, "C03": 48, "C04": 32, "C05": 32, "C06": 40, "C07": 60, "C08": 36, "C09": 50, "C10": 30,
    "C11": 8, "C12": 4, "C13": 30, "C14": 10, "C15": 15, "C16": 30, "C17": 30, "C18": 3, "C19": 36, "C20": 8,
    "C21": 8, "C22": 20, "C23": 100, "C24": 12, "C25": 1.5, "C26": 4, "C27": 48, "C28": 30, "C29": 5, "C30": 18, "C31": 4, "C32": 30, "C33": 3, "C34": 1, "C35": 6, "C36": 20,
}

BUILDS = {
    # the library with overflow checks and debug assertions, monitors and hooks
    "native": dict(dir="target", flags="--cfg vp_hooks", args=[]),
    # the library as users get it
    "release": dict(dir="target", flags="--cfg vp_hooks", args=["--release"]),
    "asan": dict(dir="target-asan", nightly=True, flags="--cfg vp_hooks --cfg vp_san -Zsanitizer=address",
                 args=["--target", TARGET],
                 env={"CC": "clang", "CFLAGS": "-fsanitize=address -fno-omit-frame-pointer"}),
    "tsan": dict(dir="target-tsan", nightly=True, flags="--cfg vp_hooks --cfg vp_tsan --cfg vp_noclock -Zsanitizer=thread",
                 args=["-Zbuild-std", "--target", TARGET], env={"CC": "clang", "CFLAGS": "-fsanitize=thread"}),
    "msan": dict(dir="target-msan", nightly=True,
                 flags="--cfg vp_hooks --cfg vp_san --cfg vp_noclock -Zsanitizer=memory -Zsanitizer-memory-track-origins",
                 args=["-Zbuild-std", "--target", TARGET],
                 env={"CC": "clang", "CFLAGS": "-fsanitize=memory -fsanitize-memory-track-origins -fno-omit-frame-pointer"}),
    "miri": dict(dir="target-miri", nightly=True, miri=True, flags="--cfg vp_hooks --cfg vp_noclock", args=[]),
}


def log(*a):
    print("[%6.1f]" % (time.time() - START), *a, flush=True)


def env_for(kind, hooks=True):
    b = BUILDS[kind]
    e = {k: v for k, v in os.environ.items()
         if not k.startswith(("CARGO_", "RUST", "MIRI", "ASAN", "TSAN", "MSAN")) or k in ("CARGO_HOME", "RUSTUP_HOME")}
    flags = b["flags"] if hooks else b["flags"].replace("--cfg vp_hooks", "").strip()
    e["RUSTFLAGS"] = flags
    e["CARGO_NET_OFFLINE"] = "true"
    e.update(b.get("env", {}))
    if b.get("miri"):
        e["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-tree-borrows"
    return e


def run(cmd, env, timeout, cwd=HARNESS):
    """Runs a command in a process group of its own; (exit code or None on timeout, stdout, stderr)."""
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        rc = None
    return rc, out.decode("utf-8", "replace"), err.decode("utf-8", "replace")


class Build:
    def __init__(self, kind):
        self.kind, self.ok, self.hooks, self.log, self.s = kind, False, True, "", 0.0
        self.t = threading.Thread(target=self.go)
        self.t.start()

    def cmd(self):
        b = BUILDS[self.kind]
        c = ["cargo"] + (["+nightly"] if b.get("nightly") else [])
        if b.get("miri"):
            # builds, and runs the monitor on an unknown property (exit 3)
            return c + ["miri", "run", "--offline", "--target-dir", b["dir"], "--", "none"]
        return c + ["build", "--offline", "--target-dir", b["dir"]] + b["args"]

    def go(self):
        t0 = time.time()
        for hooks in (True, False):
            rc, out, err = run(self.cmd(), env_for(self.kind, hooks), 700)
            self.hooks = hooks
            self.log = out[-3000:] + err[-6000:]
            if rc == (3 if BUILDS[self.kind].get("miri") else 0):
                self.ok = True
                break
        self.s = time.time() - t0

    def wait(self):
        self.t.join()
        return self.ok

    def runner(self):
        b = BUILDS[self.kind]
        if b.get("miri"):
            return ["cargo", "+nightly", "miri", "run", "--offline", "--target-dir", b["dir"], "--"]
        d = os.path.join(HARNESS, b["dir"])
        if TARGET in b["args"]:
            d = os.path.join(d, TARGET)
        return [os.path.join(d, "release" if "--release" in b["args"] else "debug", "monitor")]


def result_of(out):
    for l in reversed(out.splitlines()):
        if l.startswith("RESULT "):
            try:
                return json.loads(l[7:])
            except ValueError:
                return None
    return None


def sanitizer_report(kind, out, err):
    """The first report of the sanitizer, or None."""
    t = err + out
    if kind == "asan":
        m = re.search(r"==\d+==\s*ERROR: AddressSanitizer: (?!out of memory|requested allocation size|failed to allocate|allocator is)[^\n]*", t)
    elif kind == "msan":
        m = re.search(r"==\d+==\s*WARNING: MemorySanitizer: [^\n]*", t)
    elif kind == "tsan":
        m = re.search(r"WARNING: ThreadSanitizer: (?:data race|race on|heap-use-after-free|use-after-free|lock-order-inversion|double lock|unlock of|destroy of)[^\n]*", t)
    elif kind == "miri":
        m = re.search(r"error: (?:Undefined Behavior|memory leaked|deadlock|the program aborted)[^\n]*|error: [^\n]*Data race[^\n]*", t)
        if m and re.match(r"error: (memory leaked)", m.group(0)):
            m = None
    else:
        m = None
    return t[m.start():m.start() + 6000] if m else None


class Stage:
    """One run of the monitor in one build."""

    def __init__(self, build, prop, tier, seed, scale, threads, deadline, env=None, only=None):
        self.build, self.prop, self.tier, self.seed = build, prop, tier, seed
        self.args = [prop, "--tier", tier, "--seed", str(seed), "--scale", str(scale), "--threads", str(threads),
                     "--deadline", str(int(deadline))] + (["--only", only] if only else [])
        self.deadline, self.extra = deadline, env or {}
        self.res = self.rc = None
        self.violations, self.error, self.note = [], None, None

    def go(self):
        t0 = time.time()
        kind = self.build.kind
        e = env_for(kind, self.build.hooks)
        e.update({"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1",
                  "TSAN_OPTIONS": "exitcode=66:halt_on_error=0:report_thread_leaks=0:history_size=4",
                  "MSAN_OPTIONS": "exitcode=78"})
        for k, v in self.extra.items():
            e[k] = (e.get(k, "") + " " + v).strip()
        cmd = self.build.runner() + self.args
        self.cmd = cmd
        slack = {"native": 120, "release": 120}.get(kind, 60)
        self.rc, out, err = run(cmd, e, self.deadline + slack)
        self.s = time.time() - t0
        self.out_tail, self.err_tail = out[-2000:], err[-6000:]
        self.res = result_of(out)
        rep = sanitizer_report(kind, out, err)
        if rep:
            self.violations.append(dict(section="sanitizer", case=None, monitor=kind, what=rep.splitlines()[0], report=rep))
        if self.res:
            for v in self.res["violations"]:
                self.violations.append(dict(v))
        if self.violations:
            return self
        if self.rc is None:
            self.error = "%s run did not finish in %d s" % (kind, self.deadline + slack)
        elif self.rc < 0 and -self.rc in CRASH:
            m = re.search(r"CRASH signal=(\d+)(?: section=(\S+) case=(\d+))?", err)
            over = "has overflowed its stack" in err
            self.violations.append(dict(section=(m and m.group(2)) or "unknown", case=int(m.group(3)) if m and m.group(3) else None,
                                        monitor="crash", what="the process was killed by signal %d%s%s" % (
                                            -self.rc, " (stack overflow)" if over else "", (": " + err.strip().splitlines()[-1]) if err.strip() else "")))
        elif self.rc == 0 and self.res and not self.res["errors"]:
            pass
        elif self.res and self.res["errors"]:
            self.error = "; ".join(self.res["errors"][:3])
        else:
            self.error = "%s run ended with %s: %s" % (kind, self.rc, err[-800:])
        return self


def plan(prop, tier, seed):
    """The builds and runs of a check. The first run decides alone if the others cannot."""
    q = tier == "quick"
    thorough_s = float(os.environ.get("VP_THOROUGH_S", "300"))
    runs = []  # (build kind, tier, seed, scale, threads, deadline, env)
    if q:
        runs.append(("native", "quick", seed, SCALE[prop], 8, 220, None))
    else:
        runs.append(("native", "thorough", seed, 1, 8, thorough_s, None))
        runs.append(("release", "thorough", seed + 1000003, 1, 8, thorough_s / 2, None))
    miri = lambda n, scale, deadline: [("miri", "tiny", seed * 100 + k, scale, 1, deadline, {"MIRIFLAGS": "-Zmiri-seed=%d" % (seed * 100 + k)}) for k in range(n)]
    if prop == "C24":
        runs.append(("tsan", "quick" if q else "thorough", seed, 0.6 if q else 1, 4, 100 if q else 200, None))
        runs += miri(4 if q else 24, 3 if q else 8, 200 if q else 300)
    if prop == "C25":
        runs.append(("tsan", "quick", seed, 0.35 if q else 4, 8, 160 if q else 400, None))
        runs += miri(0 if q else 8, 1, 400)
    if prop == "C26":
        runs.append(("asan", "quick" if q else "thorough", seed, 1, 8, 160 if q else 300, None))
        runs += miri(6 if q else 24, 1 if q else 3, 200 if q else 400)
    return runs


def findings():
    """(property, monitor regex, text regex, description) of the recorded findings."""
    out = []
    try:
        for l in open(os.path.join(HERE, "known_findings.txt")):
            m = re.match(r"finding: property=(\S+) monitor=/(.*?)/ what=/(.*?)/ (.*)", l.strip())
            if m:
                out.append((m.group(1), re.compile(m.group(2)), re.compile(m.group(3)), m.group(4)))
    except FileNotFoundError:
        pass
    return out


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        return replay(a[1])
    if a and a[0] == "--build":
        bs = [Build(k) for k in a[1:]]
        for b in bs:
            log(b.kind, "built" if b.wait() else "failed: " + b.log[-2000:], "in %.0f s" % b.s)
        return 0 if bs[0].ok else 2
    prop = a[0]
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1")) % (1 << 31)
    except ValueError:
        seed = 1
    runs = plan(prop, tier, seed)
    only = os.environ.get("VP_STAGES")
    if only:
        runs = [r for r in runs if r[0] in only.split(",")]
    kinds = []
    for r in runs:
        if r[0] not in kinds:
            kinds.append(r[0])
    builds, done, notes = {}, [], []
    for k in kinds:
        if k == "release" and "native" in builds:
            builds["native"].wait()  # they share a target directory
        builds[k] = Build(k)
        if k == "native" and len(kinds) == 1:
            builds[k].wait()
    primary = runs[0][0]
    if not builds[primary].wait():
        for b in builds.values():
            b.wait()
        print(builds[primary].log[-4000:])
        print("ERROR: the monitors do not build against /repo")
        return 2
    violated = None
    for k in kinds:
        b = builds[k]
        if not b.wait():
            notes.append("the %s build failed, its runs were left out: %s" % (k, b.log[-500:]))
            log(notes[-1])
            continue
        log("built", k, "in %.0f s%s" % (b.s, "" if b.hooks else " without hooks"))
        if not b.hooks:
            notes.append("the %s build had to be made without the hooks" % k)
        stages = [Stage(b, prop, t, s, sc, th, dl, env) for (kk, t, s, sc, th, dl, env) in runs if kk == k]
        par = 8 if k == "miri" else 1
        for i in range(0, len(stages), par):
            if k != primary and time.time() - START > (650 if tier == "quick" else 3000):
                notes.append("%d %s runs were left out for time" % (len(stages) - i, k))
                break
            ts = [threading.Thread(target=s.go) for s in stages[i:i + par]]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            for s in stages[i:i + par]:
                done.append(s)
                r = s.res or {}
                log(k, "seed", s.seed, "exit", s.rc, "in %.1f s:" % s.s, r.get("evaluations"), "evaluations,", len(s.violations), "violations", s.error or "")
                if s.violations and not violated:
                    violated = s
            if violated:
                break
        if violated:
            break
    for b in builds.values():
        b.wait()
    known = [f for f in findings() if f[0] == prop]
    alarms, suppressed = [], set()
    for s in done:
        for v in s.violations:
            hit = [f for f in known if f[1].search(v["monitor"]) and f[2].search(v["what"])]
            if hit:
                suppressed.add(hit[0][3])
            else:
                alarms.append((s, v))
    evidence(prop, tier, seed, done, builds, notes, alarms)
    for f in sorted(suppressed):
        print("KNOWN-FINDING: property=%s %s" % (prop, f))
    if alarms:
        for n, (s, v) in enumerate(alarms[:5]):
            path = write_replay(prop, seed, n, s, v)
            log("violated:", v["monitor"], "-", v["what"][:1000], "[section %s case %s]" % (v["section"], v["case"]))
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    bad = [s for s in done if s.error]
    if not done or (bad and bad[0] is done[0]):
        print("ERROR: " + (bad[0].error if bad else "nothing ran"))
        return 2
    for s in bad:
        print("NOTE: left out: " + s.error[:600])
    log("held on everything observed")
    return 0


def evidence(prop, tier, seed, done, builds, notes, alarms):
    ok = [s for s in done if s.res]
    ev = sum(s.res["evaluations"] for s in ok)
    # inputs repeat neither inside a run nor, having other seeds, across runs; sanitizer
    # builds run the inputs of the native one again, so they are not counted as new
    dn = sum(s.res["distinct_nontrivial"] for s in ok if s.build.kind in ("native", "release"))
    events = {}
    for s in ok:
        for k, n in s.res["monitor_events"].items():
            events[k] = events.get(k, 0) + n
    cov = {
        "evaluations": ev,
        "distinct_nontrivial": dn,
        "rule": ok[0].res["rule"] if ok else "nothing ran",
        "samples": (ok[0].res["samples"] if ok else [])[:12],
        "monitor_events": events,
        "runs": [{
            "build": s.build.kind, "hooks": s.build.hooks, "build_s": round(s.build.s, 1), "seed": s.seed, "exit": s.rc,
            "wall_s": round(s.s, 2),
            "evaluations": s.res["evaluations"] if s.res else None,
            "distinct_nontrivial": s.res["distinct_nontrivial"] if s.res else None,
            "cut_by_deadline": s.res["cut_by_deadline"] if s.res else None,
            "sections": s.res["sections"] if s.res else None,
            "reports": [v["what"][:500] for v in s.violations],
            "error": s.error,
        } for s in done],
        "notes": notes,
    }
    if ok and ok[0].res.get("exhaustive"):
        cov["exhaustive"] = True
    d = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
         "assumptions": sorted({a for s in ok for a in s.res["assumptions"]}),
         "wall_s": round(time.time() - START, 2), "violations": len(alarms)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    p = os.path.join(HERE, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(d, f, indent=1)
    os.replace(p + ".tmp", p)


def write_replay(prop, seed, n, s, v):
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    p = os.path.join(HERE, "replays", "%s-%d-%d.json" % (prop, seed, n))
    with open(p, "w") as f:
        json.dump({"property": prop, "build": s.build.kind, "tier": s.tier, "args": s.args, "env": s.extra,
                   "section": v["section"], "case": v["case"], "monitor": v["monitor"], "what": v["what"],
                   "report": v.get("report"), "stderr": s.err_tail,
                   "how": "python3 check.py --replay <this file> builds /repo's tree and runs the case again"}, f, indent=1)
    return p


def replay(path):
    d = json.load(open(path))
    b = Build(d["build"])
    if not b.wait():
        print(b.log)
        return 2
    args = list(d["args"])
    if d["case"] is not None and d["section"] not in ("sanitizer", "unknown", "watchdog") and d["case"] < (1 << 63):
        args += ["--only", "%s:%d" % (d["section"], d["case"])]
    s = Stage(b, d["property"], d["tier"], 0, 1, 1, 300, d["env"])
    s.args = args
    s.go()
    print(s.out_tail)
    print(s.err_tail[-3000:])
    for v in s.violations:
        print("reproduced:", v["monitor"], "-", v["what"][:1000])
    return 1 if s.violations else 0


if __name__ == "__main__":
    sys.exit(main())
