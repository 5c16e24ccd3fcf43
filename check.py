#!/usr/bin/env python3
"""Runs the check of one property (see DESIGN.md).

usage: check.py Pnn            decide property Pnn (VERIF_SEED, VERIF_TIER from the environment)
       check.py build          build every engine (setup)
       check.py replay FILE    run a recorded violation again

exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check could not decide.
"""
import json, os, re, shlex, shutil, signal, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
from plans import PLANS, BUILDS  # noqa: E402

T0 = time.time()
BUILD = os.path.join(HERE, "build")
HARNESS = os.path.join(HERE, "harness")
STABLE = "1.92.0"
CAP = {"quick": 780, "thorough": 3000}


def log(*a):
    print(f"[{time.time() - T0:6.1f}s]", *a, flush=True)


def toolchain(name):
    """The first installed toolchain whose name starts with `name`."""
    out = subprocess.run(["rustup", "toolchain", "list"], capture_output=True, text=True).stdout
    for line in out.split("\n"):
        t = line.split(" ")[0]
        if t == name or t.startswith(name + "-x86"):
            return t
    return name


class Undecided(Exception):
    pass


def base_env():
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN", "CARGO_BUILD_TARGET",
              "MASSTREE_LOG_DIR", "RUST_LOG", "MIRIFLAGS"):
        env.pop(k, None)
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    env.setdefault("HOME", "/root")
    return env


def cargo(args, env, timeout, cwd=HARNESS):
    p = subprocess.run(args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout, errors="replace")
    return p.returncode, p.stdout


_built = {}


def build(name, binary):
    """Build one engine in one configuration; returns the command prefix that runs it."""
    key = (name, binary)
    if key in _built:
        return _built[key]
    b = BUILDS[name]
    cwd = os.path.join(HERE, b.get("dir", "harness"))
    if b.get("script"):
        # builds what it runs by itself
        env = base_env()
        env["RUSTUP_TOOLCHAIN"] = toolchain(b["toolchain"])
        env["CLIENTS_TARGET"] = os.path.join(BUILD, name)
        _built[key] = ([sys.executable, os.path.join(HERE, b["script"])], env, False)
        return _built[key]
    t0 = time.time()
    last = ""
    for hooked in ([True, False] if b.get("hooks") else [False]):
        env = base_env()
        flags = list(b.get("rustflags", []))
        if hooked:
            flags += ["--cfg", "masstree_verif"]
        if b.get("rustflags") is not None or hooked:
            env["RUSTFLAGS"] = " ".join(flags)
        env["CARGO_TARGET_DIR"] = os.path.join(BUILD, name if hooked or not b.get("hooks") else name + "-plain")
        env.update(b.get("env", {}))
        tc = toolchain(b.get("toolchain", STABLE))
        env["RUSTUP_TOOLCHAIN"] = tc
        if b.get("miri"):
            cmd = ["cargo", "miri", "run", "--offline", "--bin", binary] + b.get("args", [])
            # interpreting nothing: `run` with the engine "none" only builds
            env["MIRIFLAGS"] = " ".join(b["miriflags"])
            _built[key] = (cmd, env, hooked)
            rc, out = cargo(cmd + ["--", "none"], env, 600, cwd)
            if "unknown engine" in out or rc == 0:
                log(f"built {binary} [{name}{'' if hooked or not b.get('hooks') else ', without hooks'}] in {time.time() - t0:.1f}s")
                return _built[key]
            del _built[key]
        else:
            cmd = ["cargo", "build", "--offline", "--bin", binary] + b.get("args", [])
            rc, out = cargo(cmd, env, 600, cwd)
            if rc == 0:
                d = env["CARGO_TARGET_DIR"]
                if b.get("target"):
                    d = os.path.join(d, b["target"])
                a = b.get("args", [])
                profile = a[a.index("--profile") + 1] if "--profile" in a else "release" if "--release" in a else "debug"
                path = os.path.join(d, profile, binary)
                log(f"built {binary} [{name}{'' if hooked or not b.get('hooks') else ', without hooks'}] in {time.time() - t0:.1f}s")
                renv = base_env()
                renv.update(b.get("run_env", {}))
                _built[key] = ([path], renv, hooked)
                return _built[key]
        last = out
    raise Undecided(f"building {binary} [{name}] failed:\n{last[-3000:]}")


class Pool:
    """Runs the jobs of a plan, one per processor, until a violation is found."""

    def __init__(self, prop, plan, seed, tier, scratch):
        self.prop, self.plan, self.seed, self.tier, self.scratch = prop, plan, seed, tier, scratch
        self.lock = threading.Lock()
        self.procs = {}
        self.stop = False
        self.violation = None
        self.reports = []
        self.skipped = []
        self.errors = []

    def kill_all(self):
        for p in list(self.procs.values()):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass

    def job(self, slot, cpu, tasks):
        for t in tasks:
            if self.stop:
                return
            try:
                self.task(slot, cpu, t)
            except Exception as e:  # noqa: BLE001
                with self.lock:
                    self.errors.append(f"{t}: {type(e).__name__}: {e}")

    def task(self, slot, cpu, t):
        cmd, env, hooked = build(t["build"], t["bin"])
        seed = self.seed * 1000 + slot * 40 + t.get("n", 0)
        end = time.time() + t["ms"] / 1000
        start = 0
        tries = 0
        while not self.stop:
            left = int((end - time.time()) * 1000)
            if tries and left < 500:
                return
            if tries > 40:
                self.note_error(t, "too many restarts")
                return
            tries += 1
            stem = os.path.join(self.scratch, f"{t['bin']}-{slot}-{t.get('n', 0)}-{tries}")
            out, prog, err = stem + ".json", stem + ".progress", stem + ".log"
            opts = ["--ms", str(max(left, 300)), "--seed", str(seed), "--out", out, "--progress", prog,
                    "--hang", str(t.get("hang", 40))]
            if start:
                opts += ["--from", str(start)]
            args = [t["engine"]] + [str(a) for a in t.get("opts", [])] + opts
            full = cmd + (["--"] if "miri" in cmd else []) + args
            if cpu is not None and t.get("pin", True):
                full = ["taskset", "-c", str(cpu)] + full
            wd = os.path.join(self.scratch, f"cwd-{slot}")
            os.makedirs(wd, exist_ok=True)
            # the diagnostics build formats its log and writes it here
            sink = os.path.join(wd, "masstree.jsonl")
            if not os.path.lexists(sink):
                os.symlink("/dev/null", sink)
            env = dict(env)
            env["MASSTREE_LOG_DIR"] = wd
            if "miri" in cmd:
                env["MIRIFLAGS"] += f" -Zmiri-seed={seed + tries} " + t.get("miriflags", "")
            with open(err, "w") as f:
                p = subprocess.Popen(full, cwd=HARNESS if "miri" in cmd else wd, env=env, stdout=f, stderr=f,
                                     start_new_session=True)
                with self.lock:
                    self.procs[id(p)] = p
                limit = max(left, 300) / 1000 + t.get("grace", 150)
                timed_out = False
                try:
                    rc = p.wait(timeout=limit)
                except subprocess.TimeoutExpired:
                    timed_out = True
                    os.killpg(p.pid, signal.SIGKILL)
                    rc = p.wait()
                with self.lock:
                    self.procs.pop(id(p), None)
            if self.stop:
                return
            rep = None
            if os.path.exists(out):
                rep = json.load(open(out))
                rep["slot"], rep["task"] = slot, {k: t[k] for k in ("build", "bin", "engine")}
                rep["hooks"] = hooked
                with self.lock:
                    self.reports.append(rep)
            text = tail(err)
            if timed_out:
                self.note_error(t, f"no answer within {limit:.0f} s (seed {seed})")
                return
            if rc == 0:
                if rep is None:
                    self.note_error(t, "no report written")
                return
            it = None
            if rc == 3 and rep and "violation" in rep:
                v = rep["violation"]
                kind, msg, it = v["kind"], v["message"], v["iter"]
                scen = v.get("scenario", "")
            else:
                kind, msg = classify(rc, text, t)
                scen = ""
                try:
                    it = int(open(prog).read().strip())
                except (OSError, ValueError):
                    pass
                if kind is None:
                    self.note_error(t, f"exit {rc}: {msg}")
                    return
            if accepted(self.plan, kind):
                with self.lock:
                    if self.violation is None:
                        self.violation = {
                            "property": self.prop, "kind": kind, "message": msg, "iteration": it, "scenario": scen,
                            "build": t["build"], "bin": t["bin"], "engine": t["engine"],
                            "args": args, "seed": seed, "output": text[-6000:], "miriflags": env.get("MIRIFLAGS", ""),
                        }
                        self.stop = True
                self.kill_all()
                return
            # something went wrong, but nothing that refutes this property: go on after it
            with self.lock:
                self.skipped.append({"kind": kind, "message": msg[:300], "iteration": it})
            if it is None:
                return
            start = it + 1

    def note_error(self, t, msg):
        with self.lock:
            self.errors.append(f"{t['bin']} {t['engine']} [{t['build']}]: {msg}")

    def run(self):
        cpus = sorted(os.sched_getaffinity(0))
        th = []
        for slot, tasks in enumerate(self.plan["slots"]):
            x = threading.Thread(target=self.job, args=(slot, cpus[slot % len(cpus)], tasks))
            x.start()
            th.append(x)
        limit = CAP[self.tier]
        for x in th:
            x.join(max(1, limit - (time.time() - T0)))
        if any(x.is_alive() for x in th):
            self.errors.append("out of time")
            self.stop = True
            self.kill_all()
            for x in th:
                x.join(20)


def tail(path, n=12000):
    """The end of an engine's output, after the start of the first sanitizer report in it."""
    try:
        with open(path, errors="replace") as f:
            text = f.read(40_000_000)
    except OSError:
        return ""
    m = REPORT.search(text)
    if m:
        # symbol names make these lines thousands of characters long
        head = "\n".join(x[:220] for x in text[m.start():m.start() + 400_000].split("\n")[:120])
        return head + "\n...\n" + text[-2000:]
    return text[-n:]


REPORT = re.compile(
    r"(?P<race>WARNING: ThreadSanitizer: data race|Undefined Behavior: Data race detected)"
    r"|(?P<tsan>WARNING: ThreadSanitizer: (heap-use-after-free|use of an invalid vptr|signal-unsafe call))"
    r"|(?P<asan>ERROR: AddressSanitizer: (?!CHECK|out-of-memory|allocator is out|requested allocation|failed)|ERROR: AddressSanitizer:DEADLYSIGNAL)"
    r"|(?P<ub>Undefined Behavior: )|(?P<leak>memory leaked: |ERROR: LeakSanitizer: detected memory leaks)")
KIND = {"race": "data-race", "tsan": "tsan", "asan": "asan", "ub": "undefined-behaviour", "leak": "leak-report"}


def classify(rc, text, t):
    """What an abnormal end of an engine means: (kind, message)."""
    m = REPORT.search(text)
    if m:
        return KIND[m.lastgroup], text[m.start():m.start() + 1500]
    if "unsupported operation" in text or "Sanitizer: CHECK" in text or "FATAL: ThreadSanitizer" in text:
        return None, "the instrumentation gave up: " + text[-400:]
    if "fatal error" in text or "out of memory" in text or "memory allocation of" in text and "failed" in text:
        return ("memory-exhausted", text[-500:]) if t.get("oom") else (None, text[-500:])
    if rc == -signal.SIGKILL:
        return None, "killed from outside"
    if rc < 0:
        s = -rc
        name = signal.Signals(s).name if s in [x.value for x in signal.Signals] else str(s)
        return "crash", f"the process died of {name}: {text[-800:]}"
    if rc == 101 or "panicked at" in text:
        i = text.find("panicked at")
        return "crash", "the process panicked: " + text[i:i + 600]
    if rc == 134 or rc == 139:
        return "crash", f"exit {rc}: {text[-800:]}"
    return None, text[-400:]


def shorten(x):
    return {k: (v[:1200] if isinstance(v, str) else v) for k, v in x.items()} if isinstance(x, dict) else x


def accepted(plan, kind):
    return kind in plan["kinds"]


def add(into, d):
    for k, v in d.items():
        into[k] = into.get(k, 0) + v


def known():
    """Findings that are recorded and not repaired: property -> list of (text, regex)."""
    import re
    res = {}
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"KNOWN: property=(P\d+) kind=(\S+) match=/(.*)/ (.*)$", line.strip())
            if m:
                res.setdefault(m.group(1), []).append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return res


def check(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in CAP else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    plan = PLANS[prop](tier)
    scratch = os.path.join(BUILD, f"run-{prop}-{os.getpid()}")
    os.makedirs(scratch, exist_ok=True)
    errors = []
    dead = set()
    wanted = {}
    for s in plan["slots"]:
        for t in s:
            wanted.setdefault(t["build"], {})[t["bin"]] = 1

    def make(name):
        for binary in wanted[name]:
            try:
                build(name, binary)
            except (Undecided, subprocess.TimeoutExpired) as e:
                dead.add((name, binary))
                errors.append(str(e))
                log(str(e)[-2500:])

    th = [threading.Thread(target=make, args=(name,)) for name in wanted]
    for x in th:
        x.start()
    for x in th:
        x.join()
    plan["slots"] = [[t for t in s if (t["build"], t["bin"]) not in dead] for s in plan["slots"]]
    pool = Pool(prop, plan, seed, tier, scratch)
    pool.errors = errors
    log(f"{prop} [{tier}] seed {seed}: {sum(len(s) for s in plan['slots'])} jobs")
    try:
        pool.run()
        return verdict(prop, tier, seed, plan, pool)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def verdict(prop, tier, seed, plan, pool):
    counters, distinct, maxima, samples = {}, {}, {}, []
    per_engine = {}
    for r in pool.reports:
        add(counters, r.get("counters", {}))
        for k, v in r.get("distinct", {}).items():
            distinct[k] = distinct.get(k, 0) + v
        for k, v in r.get("maxima", {}).items():
            maxima[k] = max(maxima.get(k, 0), v)
        samples += [shorten(x) for x in r.get("samples", [])[:2]]
        e = f"{r['task']['bin']}/{r['task']['engine']} [{r['task']['build']}]"
        add(per_engine.setdefault(e, {}), {"runs": r.get("counters", {}).get("runs", 0), "wall_ms": r.get("wall_ms", 0)})
    evaluations = counters.get("runs", 0)
    nontrivial = sum(distinct.get(k, 0) for k in plan["distinct"])
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": nontrivial,
            "rule": plan["rule"],
            "samples": samples[:6] or [{"note": "no sample was reached in this run"}],
            "observed": counters, "distinct": distinct, "maxima": maxima, "engines": per_engine,
            "hooks_active": bool(pool.reports) and all(r.get("hooks") or not BUILDS[r["task"]["build"]].get("hooks") for r in pool.reports),
            "skipped_events_of_other_properties": pool.skipped[:20],
            "engine_errors": [e[-600:] for e in pool.errors],
        },
        "assumptions": plan.get("assumptions", []),
        "wall_s": round(time.time() - T0, 1),
        "violations": 1 if pool.violation else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    log(f"{prop}: {evaluations} executions, {nontrivial} distinct; "
        + ", ".join(f"{k} {v}" for k, v in sorted(counters.items())[:14]))
    for s in pool.skipped[:5]:
        log("not decided by this property:", s["kind"], s["message"][:200])
    for e in pool.errors:
        log("ENGINE ERROR:", e[-600:])
    v = pool.violation
    if v:
        for kind, rx, text in known().get(prop, []):
            if kind == v["kind"] and rx.search(v["message"]):
                print(f"KNOWN-FINDING: property={prop} {text}")
                return 0
        path = os.path.join(HERE, "evidence", f"{prop}.violation.json")
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
        log(f"[{v['kind']}] {v['message'][:1500]}")
        log(f"iteration {v['iteration']} seed {v['seed']}: {v['scenario'][:1500]}")
        print(f"VIOLATION property={prop} replay={path}", flush=True)
        return 1
    if pool.errors:
        # some engine gave no answer: decided only if the plan's minimum was reached anyway
        log("some engines gave no answer")
    need = plan.get("minimum", 1)
    if evaluations < need:
        log(f"only {evaluations} executions observed; at least {need} are needed for an answer")
        return 2
    missing = [e for e in plan.get("required", []) if not any(r["task"]["bin"] == e for r in pool.reports)]
    if missing:
        log("no report from", missing)
        return 2
    return 0


def replay(path):
    v = json.load(open(path))
    cmd, env, _ = build(v["build"], v["bin"])
    env = dict(env)
    if v.get("miriflags"):
        env["MIRIFLAGS"] = v["miriflags"]
    args = list(v["args"])
    for o in ("--out", "--progress", "--from"):
        if o in args:
            i = args.index(o)
            del args[i:i + 2]
    args += ["--only", str(v["iteration"])]
    full = cmd + (["--"] if "miri" in cmd else []) + args
    print(" ".join(shlex.quote(a) for a in full), flush=True)
    return subprocess.run(full, env=env, cwd=HARNESS).returncode


def main():
    a = sys.argv[1:]
    if a and a[0] == "build":
        ok = 0
        for name, b in BUILDS.items():
            for binary in b["bins"]:
                try:
                    build(name, binary)
                except (Undecided, subprocess.TimeoutExpired) as e:
                    log(str(e)[-3000:])
                    ok = 1
        return ok
    if len(a) == 2 and a[0] == "replay":
        return replay(a[1])
    if len(a) == 1 and a[0] in PLANS:
        return check(a[0])
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
