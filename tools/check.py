#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only ENTRY,...] [--keep]

Builds the interpreter, the LLVM IR of /repo together with the property's
harness, and the native runner; explores the harness symbolically; replays
every path on the natively compiled code; writes evidence/<id>.json.

Exit 0: the property held on everything explored.  Exit 1: VIOLATION line.
Exit 2: the check itself did not work.
"""
import collections, glob, json, os, re, shutil, subprocess, sys, threading, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import props

REPO = "/repo"
Z3 = ["/usr/lib/x86_64-linux-gnu/libz3.so", "/usr/lib/x86_64-linux-gnu/libz3.so.4"]
NEWZ3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so"
T0 = time.time()


def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def run(cmd, cwd, log, env=None, timeout=800):
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e.update(env or {})
    with open(log, "wb") as f:
        try:
            return subprocess.run(cmd, cwd=cwd, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            return -1


def tail(path, n=15):
    with open(path, errors="replace") as f:
        lines = f.read().splitlines()
    errs = [l for l in lines if l.startswith("error")]
    return "\n".join(errs[:5] + lines[-n:])


def build(pid, work):
    """Engine, IR and runner, side by side."""
    feat = pid.lower()
    bdir = os.path.join(ROOT, ".build")
    os.makedirs(bdir, exist_ok=True)
    res = {}

    def job(name, cmd, cwd, env):
        log = os.path.join(work, "build-%s.log" % name)
        res[name] = (run(cmd, cwd, log, env), log)

    # a fresh IR file every time
    for f in glob.glob(os.path.join(bdir, "ir", "release", "deps", "harness*.ll")):
        os.remove(f)
    for f in glob.glob(os.path.join(bdir, "ir", "release", ".fingerprint", "harness-*")):
        shutil.rmtree(f, ignore_errors=True)
    jobs = [
        ("engine", ["cargo", "build", "--offline", "--release", "-q"], os.path.join(ROOT, "engine"),
         {"CARGO_TARGET_DIR": os.path.join(bdir, "engine")}),
        ("ir", ["cargo", "rustc", "--offline", "--release", "-q", "--features", feat, "--", "--emit=llvm-ir"],
         os.path.join(ROOT, "harness"), {"CARGO_TARGET_DIR": os.path.join(bdir, "ir")}),
        ("runner", ["cargo", "build", "--offline", "--release", "-q", "--features", feat],
         os.path.join(ROOT, "harness", "native"), {"CARGO_TARGET_DIR": os.path.join(bdir, "native")}),
    ]
    ts = [threading.Thread(target=job, args=j) for j in jobs]
    [t.start() for t in ts]
    [t.join() for t in ts]
    for n, (rc, log) in res.items():
        if rc != 0:
            die("building the %s failed\n%s" % (n, tail(log)))
    lls = glob.glob(os.path.join(bdir, "ir", "release", "deps", "harness*.ll"))
    if len(lls) != 1:
        die("no LLVM IR was produced")
    ll = os.path.join(work, "harness.ll")
    shutil.copy(lls[0], ll)
    runner = os.path.join(work, "runner")
    shutil.copy(os.path.join(bdir, "native", "release", "runner"), runner)
    return os.path.join(bdir, "engine", "release", "symex"), ll, runner


def entries_of(pid):
    with open(os.path.join(ROOT, "harness", "src", pid.lower() + ".rs")) as f:
        src = f.read()
    m = re.search(r"entries!\s*\{([^}]*)\}", src)
    return [x.strip() for x in m.group(1).split(",") if x.strip()]


def native(runner, tier, items, timeout, batch=True):
    """Runs (entry, hex) pairs; a list of (status, loghash, reach, info).
    The list is short if the process died or did not finish."""
    env = dict(os.environ, SYM_TIER=str(tier))
    inp = "".join("%s\t%s\n" % i for i in items)
    cmd = [runner] + (["--batch"] if batch else [])
    try:
        p = subprocess.run(cmd, input=inp.encode(), env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout)
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = e.stdout or b"", "timeout"
    res = [l.split("\t") for l in out.decode(errors="replace").splitlines()]
    return [r for r in res if len(r) == 4], rc


def native_one(runner, tier, item, timeout=20):
    res, rc = native(runner, tier, [item], timeout, batch=False)
    if res:
        return res[0]
    what = "does not finish" if rc == "timeout" else "process died with status %s" % rc
    return ["X", "", "0", what]


def native_many(runner, tier, items, jobs=8):
    """Runs all pairs natively in parallel; falls back to one by one where a
    batch breaks off."""
    out = [None] * len(items)
    step = max(1, (len(items) + jobs * 4 - 1) // (jobs * 4))
    chunks = [(i, items[i:i + step]) for i in range(0, len(items), step)]
    lock = threading.Lock()

    def work():
        while True:
            with lock:
                if not chunks:
                    return
                base, part = chunks.pop()
            pos = 0
            while pos < len(part):
                # unbuffered, so that a death tells which item was the cause
                res, rc = native(runner, tier, part[pos:], 60 + len(part) * 0.02, batch=False)
                for k, r in enumerate(res):
                    out[base + pos + k] = r
                pos += len(res)
                if pos < len(part):
                    out[base + pos] = native_one(runner, tier, part[pos])
                    pos += 1

    ts = [threading.Thread(target=work) for _ in range(jobs)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return out


def verbose(runner, tier, item):
    env = dict(os.environ, SYM_TIER=str(tier), SYM_VERBOSE="1")
    try:
        p = subprocess.run([runner], input=("%s\t%s\n" % item).encode(), env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=20)
        return (p.stderr + p.stdout).decode(errors="replace")[:4000]
    except subprocess.TimeoutExpired as e:
        return ((e.stderr or b"") + (e.stdout or b"")).decode(errors="replace")[:4000] + "\n(does not finish)"


def known_findings(pid):
    """Lines `known: property=P entry=E input=HEX what...`."""
    out = {}
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"known: property=(\S+) entry=(\S+) input=(\S*) (.*)", l.strip())
            if m and m.group(1) == pid:
                out[(m.group(2), m.group(3))] = m.group(4)
    return out


def demangle(names):
    p = subprocess.run(["c++filt"], input="\n".join(names).encode(), stdout=subprocess.PIPE)
    return p.stdout.decode(errors="replace").splitlines() if p.returncode == 0 else names


def main():
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    keep = False
    for a in args[1:]:
        if a.startswith("--tier="):
            tier = a[7:]
        elif a.startswith("--only="):
            only = a[7:].split(",")
        elif a == "--keep":
            keep = True
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tn = 1 if tier == "thorough" else 0
    P = props.PROPS[pid]
    work = os.path.join(ROOT, ".build", "run-" + pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    evdir = os.path.join(ROOT, "evidence")
    os.makedirs(evdir, exist_ok=True)
    engine, ll, runner = build(pid, work)
    t_build = time.time() - T0
    entries = entries_of(pid)
    if only:
        entries = [e for e in entries if e in only]
    budget = P.get("budget", {}).get(tier, 400 if tn == 0 else 3000)
    if tn == 0:
        budget = min(budget, 620 - t_build)
    out = os.path.join(work, "out")
    cmd = [engine, "--ir", ll, "--out", out, "--jobs", str(os.cpu_count() or 8), "--budget", "%.0f" % budget, "--tier", str(tn)]
    for e in entries:
        cmd += ["--entry", e]
    for z in Z3:
        cmd += ["--z3", z]
    if tn == 1 and os.path.exists(NEWZ3):
        cmd += ["--z3b", NEWZ3]
    cmd += P.get("args", [])
    log = os.path.join(work, "symex.log")
    rc = run(cmd, work, log, timeout=budget + 200)
    txt = open(log, errors="replace").read()
    info = dict(re.findall(r"^(\w+) (\S+)$", txt, re.M))
    if rc != 0 or "wall" not in info:
        die("the symbolic executor failed (status %s)\n%s" % (rc, txt[-2000:]))

    # results
    rows = []
    for f in glob.glob(os.path.join(out, "res.*.txt")):
        for l in open(f, errors="replace"):
            c = l.rstrip("\n").split("\t")
            if len(c) == 8:
                rows.append(c)
    rows.sort(key=lambda c: (int(c[1]), len(c[6]), c[6]))
    stats = collections.Counter()
    fns = set()
    unexplored = collections.Counter()
    for f in glob.glob(os.path.join(out, "stat.*.txt")):
        for l in open(f):
            w = l.split()
            if w[0] == "fn":
                fns.add(w[1])
            elif w[0] == "unexplored":
                unexplored[entries[int(w[1])]] += int(w[2])
            else:
                stats[w[0]] += float(w[1])
    crashed = int(info.get("crashed", "0"))
    if int(info["spawned"]) != int(info["finished"]) + crashed:
        crashed = max(crashed, 1)
    if stats["cert_fail"] > 0:
        die("a solver certificate was refuted: the interpreter's reasoning is wrong")

    # replay everything on the native code
    items = [(entries[int(r[1])], r[6]) for r in rows]
    nat = native_many(runner, tn, items)
    code = collections.Counter()
    per_entry = collections.Counter()
    reach = 0
    undecided, violations, mismatch = [], [], []
    validated = 0
    for r, it, n in zip(rows, items, nat):
        c = r[0][0]
        code[c] += 1
        st = n[0][0]
        if n[0].endswith("!") and st in "DA" and c in "DA":
            mismatch.append((it, r, n))
            continue
        if st in "FPX":
            # fails on the real code
            violations.append((it, r, n))
            continue
        if c in "DA":
            if st == c and int(n[1], 16) == int(r[4], 16) and int(n[2], 16) == int(r[5], 16):
                validated += 1
                if c == "D":
                    per_entry[it[0]] += 1
                    reach |= int(r[5], 16)
                if r[0].endswith("U"):
                    undecided.append((it, r, "solver gave no answer on this path"))
            else:
                mismatch.append((it, r, n))
        else:
            undecided.append((it, r, {"F": "failure", "P": "panic", "L": "limit", "E": "interpreter error"}.get(c, c) + ": " + r[7]))

    known = known_findings(pid)
    new = []
    seen_known = set()
    for v in violations:
        k = (v[0][0], v[0][1])
        if k in known:
            seen_known.add(k)
        else:
            new.append(v)
    for k in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s (entry %s input %s)" % (pid, known[k], k[0], k[1]))

    # mismatches: the native code may itself not be repeatable
    real_mismatch = []
    for it, r, n in mismatch[:50]:
        again = [native_one(runner, tn, it) for _ in range(3)]
        if all(a[:2] == n[:2] for a in again):
            real_mismatch.append((it, r, n))

    complete = not unexplored and not undecided and crashed == 0
    names = demangle(sorted(fns))
    repo_fns = sorted({re.sub(r"::<.*$", "", n) if False else n for n in names if "firrtl_ast" in n})
    samples = []
    dones = [(it, r) for it, r in zip(items, rows) if r[0] == "D"]
    for e in entries:
        mine = [d for d in dones if d[0][0] == e]
        if mine:
            it, r = mine[(len(mine) * 2) // 3]
            samples.append({"entry": e, "input": it[1][:400], "interpreted_instructions": int(r[2]),
                            "log": verbose(runner, tn, it)[:600].splitlines()})
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": len(rows),
            "transitions": int(stats["forks"]),
            "traces_validated_against_impl": validated,
            "exhaustive": bool(complete),
            "samples": samples[:8],
            "explanation": "states: symbolic path classes decided to the end; transitions: symbolic branches where both sides "
            "were feasible; every path's representative was re-run on the natively compiled code and its status and log compared",
            "bounds": P["bounds"],
            "entries": {e: per_entry[e] for e in entries},
            "functions_encoded": repo_fns,
            "functions_encoded_total": len(names),
            "ir_functions_available": int(info.get("ir_functions", 0)),
            "instructions_interpreted": int(stats["insts"]),
            "branch_decisions": int(stats["decisions"]),
            "decided_by_single_variable_domain": int(stats["by_domain"]),
            "decided_by_witness": int(stats["by_candidate"]),
            "decided_by_path_condition": int(stats["by_known"]),
            "solver": "z3 " + info.get("z3", "?"),
            "solver_queries": int(stats["z3_queries"] + stats["certs"]),
            "solver_branch_queries": int(stats["z3_queries"]),
            "solver_sat": int(stats["z3_sat"]),
            "solver_unsat": int(stats["z3_unsat"]),
            "solver_unknown": int(stats["z3_unknown"]),
            "solver_answers_reused": int(stats["z3_cached"] + stats["cert_cached"]),
            "solver_certificates": int(stats["certs"]),
            "solver_certificates_unknown": int(stats["cert_unknown"]),
            "solver_time_s": round(stats["z3_time"], 2),
            "path_status": dict(code),
            "unexplored_states": dict(unexplored),
            "undecided": ["%s %s: %s" % (u[0][0], u[0][1][:120], u[2][:200]) for u in undecided[:10]],
            "undecided_total": len(undecided),
            "workers_crashed": crashed,
            "reach": "%x" % reach,
            "build_s": round(t_build, 1),
        },
        "assumptions": props.ASSUMPTIONS + P.get("assumptions", []),
        "violations": len(new),
        "wall_s": 0,
    }

    def finish(rc):
        ev["wall_s"] = round(time.time() - T0, 2)
        with open(os.path.join(evdir, pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if not keep:
            shutil.rmtree(out, ignore_errors=True)
            os.remove(ll)
        print("%s %s: %d paths (%s), %d validated natively, %d solver queries (%.1f s), %s, %.1f s" % (
            pid, tier, len(rows), " ".join("%s=%d" % x for x in sorted(code.items())), validated,
            ev["coverage"]["solver_queries"], stats["z3_time"],
            "complete within the bounds" if complete else "NOT complete: %d unexplored, %d undecided" % (sum(unexplored.values()), len(undecided)),
            ev["wall_s"]))
        sys.exit(rc)

    if new:
        it, r, n = new[0]
        path = os.path.join(evdir, pid + ".replay.txt")
        with open(path, "w") as f:
            f.write("property %s\nentry %s\ninput %s\nsymbolic verdict: %s %s\nnative verdict: %s %s\n\n" % (
                pid, it[0], it[1], r[0], r[7], n[0], n[3]))
            f.write("replay: printf '%s\\t%s\\n' | SYM_VERBOSE=1 SYM_TIER=%d %s\n\n" % (it[0], it[1], tn, runner))
            f.write(verbose(runner, tn, it))
            f.write("\n\nall failing inputs:\n")
            for it, r, n in new[:100]:
                f.write("%s %s %s %s\n" % (it[0], it[1], n[0], n[3]))
        kinds = collections.Counter((v[0][0], v[2][0], v[2][3][:160]) for v in new)
        for (e, s, i), k in kinds.most_common(10):
            print("  %s: %s %s (%d inputs)" % (e, {"F": "wrong result:", "P": "panic:", "X": "crash:"}.get(s[0], s), i, k))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        finish(1)
    if real_mismatch:
        it, r, n = real_mismatch[0]
        print("ERROR: interpreter and native code disagree on %s %s: %s / %s" % (it[0], it[1], r, n))
        finish(2)
    want = P.get("reach", 0)
    if not only and complete and reach & want != want:
        print("ERROR: vacuous: reached %x, expected %x" % (reach, want))
        finish(2)
    if not dones:
        print("ERROR: no path was decided: %s" % [u[2][:200] for u in undecided[:3]])
        finish(2)
    finish(0)


main()
