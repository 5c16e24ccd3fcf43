"""Hostile clients: safe programs that would break the library's promises, if the
compiler let them. Each one that is accepted is run under the address sanitizer;
a fault it then shows is a violation. (Being accepted is none by itself.)

usage: run.py clients --ms N --seed N --out FILE ... (from check.py)
"""
import glob, json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
T0 = time.time()


def arg(name, default=None):
    return sys.argv[sys.argv.index(name) + 1] if name in sys.argv else default


def main():
    if len(sys.argv) < 2 or sys.argv[1] != "clients":
        print("unknown engine")
        return 2
    target = os.environ["CLIENTS_TARGET"]
    triple = "x86_64-unknown-linux-gnu"
    progs = sorted(os.path.basename(p)[:-3] for p in glob.glob(os.path.join(HERE, "src/bin/*.rs")))
    # the control client and those whose names start like this
    start = arg("--prefix", "")
    progs = [p for p in progs if p == "control" or p.startswith(start)]
    rel = os.path.join(target, triple, "release")
    for p in progs:
        for f in (os.path.join(rel, p), os.path.join(rel, p + ".d")):
            if os.path.exists(f):
                os.remove(f)
    env = dict(os.environ, CARGO_TARGET_DIR=target, RUSTFLAGS="-Zsanitizer=address", CARGO_TERM_COLOR="never")
    b = subprocess.run(["cargo", "build", "--offline", "--release", "--target", triple, "--keep-going"] + [x for p in progs for x in ("--bin", p)],
                       cwd=HERE, env=env, capture_output=True, text=True, errors="replace")
    took = [p for p in progs if os.path.exists(os.path.join(rel, p))]
    if "control" not in took:
        print("a correct client does not build:\n" + b.stderr[-3000:])
        return 2
    renv = dict(os.environ, ASAN_OPTIONS="detect_leaks=0 exitcode=66")
    violation = None
    ran = 0
    outcomes = {}
    for p in took:
        for _ in range(3):
            try:
                r = subprocess.run([os.path.join(rel, p)], env=renv, capture_output=True, text=True, errors="replace", timeout=100)
                text, rc = r.stdout + r.stderr, r.returncode
            except subprocess.TimeoutExpired:
                text, rc = "", None
            ran += 1
            if rc == 0 or rc is None:
                outcomes[p] = "ran without a fault"
                continue
            outcomes[p] = f"exit {rc}"
            m = re.search(r"FAULT: .*|ERROR: AddressSanitizer: .*|panicked at .*", text)
            about = open(os.path.join(HERE, "src/bin", p + ".rs")).readline().strip("/! \n")
            # a client whose own assertion fails was no fault of memory
            kind = "hostile-client" if "AddressSanitizer" in text or "FAULT" in text or rc < 0 else "client-panic"
            if kind == "hostile-client" and p == "control":
                kind = "asan"
            violation = violation or {
                "kind": kind, "iter": 0, "scenario": open(os.path.join(HERE, "src/bin", p + ".rs")).read(),
                "message": f"{'a correct client' if p == 'control' else 'the compiler accepts a client without unsafe code, and it'} "
                           f"({p}: {about}) fails: {m.group(0)[:300] if m else f'exit {rc}'}\n{text[-2500:]}"}
            break
        else:
            continue
        break
    for p in progs:
        outcomes.setdefault(p, "rejected by the compiler")
    rep = {"engine": "clients", "args": sys.argv[1:], "hooked": False,
           "counters": {"hostile_clients": len(progs) - 1, "clients_rejected": len(progs) - len(took), "client_runs": ran, "runs": len(progs)},
           "distinct": {"clients": len(progs)}, "maxima": {}, "samples": [{"clients": outcomes}],
           "wall_ms": round((time.time() - T0) * 1000)}
    if violation and violation["kind"] != "client-panic":
        rep["violation"] = violation
    with open(arg("--out"), "w") as f:
        json.dump(rep, f)
    if "violation" in rep:
        print(violation["message"])
        return 3
    return 0


sys.exit(main())
