#!/usr/bin/env python3
"""Decide one property: check.py PROPERTY quick|thorough

Rebuilds the harness against /repo's working tree to LLVM IR, executes the
property's harness entries symbolically with rsx (Z3 decides), replays
sampled paths and every counterexample against natively compiled code, and
writes evidence/<id>.json.  See DESIGN.md."""
import concurrent.futures as cf
import fcntl, glob, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import spec

BUILD = os.path.join(V, "build")
KNOWN = os.path.join(V, "KNOWN_FINDINGS.txt")
T0 = time.time()
LIMIT = {"quick": 780, "thorough": 5400}


class CheckError(Exception):
    pass


def say(*a):
    print(*a, flush=True)


def env(target):
    e = dict(os.environ)
    e.update(CARGO_TARGET_DIR=os.path.join(BUILD, target), RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
        e.pop(k, None)
    return e


def cargo(cwd, target, args, what):
    r = subprocess.run(["cargo"] + args, cwd=cwd, env=env(target), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise CheckError("building %s failed:\n%s" % (what, r.stdout[-6000:]))
    return r.stdout


def build_engine():
    cargo(os.path.join(V, "engine"), "engine", ["build", "--release", "--offline", "-q"], "the engine")
    return os.path.join(BUILD, "engine", "release", "rsx")


OWN = ["-p", "bsp-server", "-p", "bsp-types", "-p", "harness"]


def stale(target):
    """Never trust timestamps for the code under test: forget its artefacts."""
    d = os.path.join(BUILD, target)
    for prof in ("release", "debug"):
        for sub in (".fingerprint", "deps", "incremental"):
            for p in glob.glob(os.path.join(d, prof, sub, "*")):
                b = os.path.basename(p)
                if re.match(r"(lib)?(bsp[-_](server|types)|harness)-", b):
                    shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.remove(p)


def build_ir():
    stale("ir")
    cargo(
        os.path.join(V, "harness"),
        "ir",
        ["rustc", "--offline", "--release", "-q", "--", "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp", "-C", "relocation-model=static", "-C", "linker=/bin/true", "-C", "linker-flavor=gcc"],
        "the harness IR",
    )
    ll = glob.glob(os.path.join(BUILD, "ir", "release", "deps", "harness-*.ll"))
    if len(ll) != 1:
        raise CheckError("expected one IR file, found %s" % ll)
    return ll[0]


def build_native():
    stale("native")
    cargo(os.path.join(V, "harness"), "native", ["build", "--offline", "-q", "--features", "native"], "the native replay")
    return os.path.join(BUILD, "native", "debug", "harness")


def build_all(scratch=None):
    """Build everything; with `scratch`, private copies there, so that a
    concurrent check cannot swap them under us."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        with cf.ThreadPoolExecutor(3) as ex:
            f = [ex.submit(build_engine), ex.submit(build_ir), ex.submit(build_native)]
            out = [x.result() for x in f]
        if scratch:
            for i, src in enumerate(out):
                out[i] = os.path.join(scratch, ["rsx", "h.ll", "native"][i])
                shutil.copy2(src, out[i])
        return out


def run_entry(rsx, ll, ent, out, jobs, samples, seed):
    cmd = [rsx, "--ll", ll, "--entry", ent["entry"], "--out", out, "--jobs", str(jobs), "--samples", str(samples), "--seed", str(seed)]
    left = max(20, LIMIT[TIER] - (time.time() - T0) - 40)
    cmd += ["--time", str(int(left)), "--query-ms", str(ent.get("query_ms", 60000))]
    cmd += ["--cross", str(ent.get("cross", 1))]
    if "max_steps" in ent:
        cmd += ["--max-steps", str(ent["max_steps"])]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=left + 90)
    except subprocess.TimeoutExpired:
        raise CheckError("engine overran its time on %s" % ent["entry"])
    if r.returncode != 0:
        raise CheckError("engine failed on %s (rc %d): %s" % (ent["entry"], r.returncode, r.stdout[-3000:]))
    res = {"entry": ent["entry"], "viols": [], "samples": [], "asserts": {}, "reach": {}, "incomplete": {}, "nviol": {}, "funcs": {}, "solver": {}, "done": 0, "pruned": 0, "steps": 0, "forks": 0, "max_depth": 0, "wall": 0}
    for f in sorted(glob.glob(out + ".*.json")):
        d = json.load(open(f))
        for k in ("done", "pruned", "steps", "forks"):
            res[k] += d[k]
        for k in ("max_depth", "wall"):
            res[k] = max(res[k], d[k])
        for k in ("viols", "samples"):
            res[k] += d[k]
        for k in ("reach", "incomplete", "nviol", "funcs"):
            for a, b in d[k].items():
                res[k][a] = res[k].get(a, 0) + b
        for a, b in d["asserts"].items():
            o = res["asserts"].get(a, [0, 0])
            res["asserts"][a] = [o[0] + b[0], o[1] + b[1]]
        for a, b in d["solver"].items():
            res["solver"][a] = max(res["solver"].get(a, 0), b) if a.startswith("max") else res["solver"].get(a, 0) + b
    return res


def replay_text(entry, inputs, note=()):
    l = ["# " + x for x in note]
    l.append("entry " + entry)
    for n, h in inputs:
        l.append("in %s %s" % (n, h))
    return "\n".join(l) + "\n"


def native_run(exe, path, scratch, tag, timeout=20):
    """-> (status, asserts failed, logs, reach)"""
    entry = [l.split()[1] for l in open(path) if l.startswith("entry ")][0]
    rep = os.path.join(scratch, "rep-" + tag)
    if os.path.exists(rep):
        os.remove(rep)
    try:
        r = subprocess.run([exe, entry, path, rep], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=timeout, cwd=scratch)
        rc = r.returncode
    except subprocess.TimeoutExpired:
        rc = "hang"
    failed, logs, reach, done = [], [], [], False
    if os.path.exists(rep):
        for l in open(rep, errors="replace").read().split("\n"):
            if l.startswith("ASSERT-FAILED "):
                failed.append(l[14:])
            elif l.startswith("LOG "):
                p = l[4:].split(" ")
                logs.append([" ".join(p[:-1]), p[-1]])
            elif l.startswith("REACH "):
                reach.append(l[6:])
            elif l == "DONE":
                done = True
            elif l == "PANIC":
                rc = "panic"
            elif l == "ASSUME-FALSE":
                rc = "assume"
    if rc == 101:
        rc = "panic"
    elif isinstance(rc, int) and rc < 0:
        rc = "signal %d" % -rc
    elif done:
        rc = "done"
    return rc, failed, logs, reach


def reproduces(v, got):
    rc, failed = got[0], got[1]
    if v["kind"] == "assert":
        return v["msg"] in failed
    if v["kind"] == "panic":
        return rc == "panic"
    if v["kind"] in ("abort", "trap", "memory", "unreachable", "stack"):
        return str(rc).startswith("signal") or rc == "panic"
    if v["kind"] == "exit":
        return isinstance(rc, int)
    if v["kind"] == "deadlock":
        return rc == "hang"
    return False


def known():
    """[(property, message, case, what)] of open findings"""
    o = []
    for l in open(KNOWN) if os.path.exists(KNOWN) else []:
        m = re.match(r'known: property=(\S+) message="([^"]*)" case="([^"]*)" -- (.*)', l.strip())
        if m:
            o.append(m.groups())
    return o


def case_of(v):
    c = [bytes.fromhex(h).decode("latin1") for t, h in v["log"] if t == "case"]
    return c[-1] if c else ""


def show(inputs):
    return {n: bytes.fromhex(h).decode("latin1") for n, h in inputs}


def main(prop, tier):
    global TIER
    TIER = tier
    P = spec.PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ents = P["quick"] if tier == "quick" else P["quick"] + P.get("thorough", [])
    ents = [dict(entry=e) if isinstance(e, str) else dict(e) for e in ents]
    scratch = tempfile.mkdtemp(prefix="rsxchk-")
    try:
        return work(prop, tier, P, seed, ents, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def work(prop, tier, P, seed, ents, scratch):
    rsx, ll, exe = build_all(scratch)
    irsum = hashlib.sha256(open(ll, "rb").read()).hexdigest()
    say("%s %s: built in %.0f s, %d entries" % (prop, tier, time.time() - T0, len(ents)))
    samples = 8 if tier == "quick" else 30
    results = []
    ncpu = os.cpu_count() or 4
    with cf.ThreadPoolExecutor(3) as ex:
        fs = [ex.submit(run_entry, rsx, ll, e, os.path.join(scratch, "o-%d" % i), max(2, ncpu // 2), e.get("samples", samples), seed) for i, e in enumerate(ents)]
        results = [x.result() for x in fs]
    for e, r in zip(ents, results):
        say("  %-28s %7d paths %10d instr %6d queries %5d+%d assertions %s%6.1f s" % (r["entry"], r["done"], r["steps"], r["solver"]["queries"], r["solver"]["asserts_z3"], r["solver"]["asserts_const"], ("VIOL %s " % r["nviol"]) if r["nviol"] else "", r["wall"]))
        for k, n in r["incomplete"].items():
            say("    undecided: %s (%d)" % (k, n))

    # counterexamples
    kn = known()
    rdir = os.path.join(V, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, prop + "-*")):
        os.remove(f)
    confirmed, unconfirmed, hit, nrep = [], [], {}, 0
    for r in results:
        groups = {}
        for v in r["viols"]:
            groups.setdefault((v["kind"], v["msg"], case_of(v)), []).append(v)
        for (kind, msg, case), vs in groups.items():
            ok = None
            for v in vs[:3]:
                name = "%s-%s-%d.txt" % (prop, r["entry"], nrep)
                nrep += 1
                path = os.path.join(rdir, name)
                note = ["property %s, %s: %s%s" % (prop, kind, msg, (" [case %s]" % case) if case else ""), "replay: build/native/debug/harness %s %s /dev/stdout" % (r["entry"], path)]
                open(path, "w").write(replay_text(r["entry"], v["inputs"], note))
                for attempt in range(4 if kind == "deadlock" else 3):
                    got = native_run(exe, path, scratch, "v", timeout=10 if kind == "deadlock" else 60)
                    if reproduces(v, got):
                        ok = (path, v, got)
                        break
                if ok:
                    break
            if not ok:
                unconfirmed.append((r["entry"], kind, msg, case, vs[0], path, got))
                continue
            k = [x for x in kn if x[0] == prop and x[1] == msg and x[2] == case]
            if k:
                hit[k[0]] = ok[0]
            else:
                confirmed.append((r["entry"], kind, msg, case, ok))

    # sampled paths against native code
    validated, mismatch, shown = 0, [], []
    jobs = []
    for r in results:
        cap, have = 12 if tier == "quick" else 60, r["samples"]
        rng = random.Random(seed)
        for i, s in enumerate(rng.sample(have, cap) if len(have) > cap else have):
            path = os.path.join(scratch, "s-%s-%d.txt" % (r["entry"], i))
            open(path, "w").write(replay_text(r["entry"], s["inputs"]))
            jobs.append((r["entry"], s, path))
    with cf.ThreadPoolExecutor(max(2, ncpu - 1)) as ex:
        outs = list(ex.map(lambda j: native_run(exe, j[2], scratch, os.path.basename(j[2]), timeout=90), jobs))
    for (entry, s, path), got in zip(jobs, outs):
        want = [[t, h] for t, h in s["log"]]
        if got[0] == "done" and not got[1] and got[2] == want:
            validated += 1
            if len(shown) < 6:
                shown.append({"entry": entry, "inputs": show(s["inputs"]), "observed": [[t, bytes.fromhex(h).decode("latin1")[:400]] for t, h in want][:6]})
        else:
            # a second look: native threads are really concurrent
            for attempt in range(4):
                time.sleep(attempt)
                got = native_run(exe, path, scratch, "again", timeout=90)
                if got[0] == "done" and not got[1] and got[2] == want:
                    validated += 1
                    break
            else:
                mismatch.append((entry, show(s["inputs"]), want, got))

    # vacuity
    vac = []
    for e, r in zip(ents, results):
        if r["incomplete"]:
            # not vacuous but (partly) undecided: reported as such
            continue
        if r["done"] == 0:
            vac.append("%s: no path completed" % r["entry"])
        for tag in e.get("reach", [r["entry"][2:]]):
            if r["reach"].get(tag, 0) == 0:
                vac.append("%s: witness %s not reached" % (r["entry"], tag))
        if not r["asserts"]:
            vac.append("%s: no assertion evaluated" % r["entry"])

    if not any(r["done"] for r in results):
        vac.append("no path of any entry completed")
    tot = lambda k: sum(r[k] for r in results)
    sv = lambda k: sum(r["solver"].get(k, 0) for r in results)
    inc = {}
    for r in results:
        for k, n in r["incomplete"].items():
            inc[r["entry"] + ": " + k] = n
    for u in unconfirmed:
        inc["%s: counterexample that native code does not reproduce: %s %s" % (u[0], u[1], u[2])] = 1
    funcs = {}
    for r in results:
        for k, n in r["funcs"].items():
            funcs[k] = funcs.get(k, 0) + n
    dem = sorted({demangle(k) for k in funcs})
    own = [f for f in dem if "bsp_server" in f or "bsp_types" in f]
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": tot("done"),
            "transitions": tot("steps"),
            "traces_validated_against_impl": validated,
            "samples": shown,
            "exhaustive": not inc,
            "state_meaning": "completed symbolic paths (each stands for every input satisfying its path condition)",
            "transition_meaning": "LLVM instructions executed symbolically",
            "infeasible_paths": tot("pruned"),
            "forks": tot("forks"),
            "bounds": P["bounds"],
            "outside_bounds": P["outside"],
            "assertion_instances": {"decided_by_z3": sv("asserts_z3"), "folded_by_the_simplifier": sv("asserts_const")},
            "assertions": {m: sum(r["asserts"].get(m, [0, 0])[0] + r["asserts"].get(m, [0, 0])[1] for r in results) for m in sorted({m for r in results for m in r["asserts"]})},
            "solver": {"z3_queries": sv("queries"), "sat": sv("sat"), "unsat": sv("unsat"), "unknown": sv("unknown"), "answered_from_cache": sv("cache_hits"), "branches_decided_by_exact_byte_domains": sv("byte_domain"), "of_those_put_to_z3_which_agreed": sv("confirmed"), "z3_seconds": round(sv("seconds"), 3), "slowest_query_ms": max([r["solver"].get("max_query_ms", 0) for r in results] or [0])},
            "undecided_paths": inc,
            "functions_encoded": len(funcs),
            "functions_encoded_from_repo": own,
            "ir_sha256": irsum,
            "entries": [{"entry": r["entry"], "paths": r["done"], "instructions": r["steps"], "queries": r["solver"]["queries"], "wall_s": round(r["wall"], 2), "witnesses": r["reach"]} for r in results],
            "known_findings_seen": ["%s [%s]" % (k[1], k[2]) for k in hit],
        },
        "assumptions": spec.ASSUMPTIONS + P.get("assumptions", []),
        "wall_s": round(time.time() - T0, 1),
        "violations": len(confirmed),
    }
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)

    for k, path in hit.items():
        say("KNOWN-FINDING: property=%s %s [%s]" % (prop, k[3], k[2]))
    for entry, kind, msg, case, (path, v, got) in confirmed:
        say("%s %s: %s%s" % (entry, kind, msg, (" [case %s]" % case) if case else ""))
        say("  inputs %s" % json.dumps(show(v["inputs"]))[:1500])
        say("  in %s" % " < ".join(demangle(x) for x in v["stack"][:6]))
        say("VIOLATION property=%s replay=%s" % (prop, path))
    for u in unconfirmed:
        say("UNCONFIRMED %s %s: %s [%s] native: %s inputs %s" % (u[0], u[1], u[2], u[3], u[6][:2], json.dumps(show(u[4]["inputs"]))[:800]))
    for m in mismatch[:5]:
        say("MISMATCH %s inputs %s\n   symbolic log %s\n   native %s" % (m[0], json.dumps(m[1])[:600], str(m[2])[:800], str(m[3])[:800]))
    for x in vac:
        say("VACUOUS " + x)
    if confirmed:
        return 1
    if mismatch or vac:
        return 2
    say("%s holds on everything explored: %d paths, %d instructions, %d Z3 queries, %d native replays agree, %.0f s" % (prop, tot("done"), tot("steps"), sv("queries"), validated, time.time() - T0))
    return 0


def demangle(n):
    n = n.split(".llvm.")[0]
    if n.startswith("_ZN"):
        o, i = [], 3
        while i < len(n) and n[i].isdigit():
            m = re.match(r"\d+", n[i:]).group(0)
            i += len(m)
            o.append(n[i : i + int(m)])
            i += int(m)
        if o and re.match(r"h[0-9a-f]{16}$", o[-1]):
            o.pop()
        s = "::".join(o)
        for a, b in (("$LT$", "<"), ("$GT$", ">"), ("$RF$", "&"), ("$u20$", " "), ("$C$", ","), ("$u7b$", "{"), ("$u7d$", "}"), ("$LP$", "("), ("$RP$", ")"), ("$BP$", "*"), ("..", "::")):
            s = s.replace(a, b)
        return s
    if n.startswith("_R"):
        return "::".join(w for w in re.findall(r"(?<=\d)[A-Za-z_][A-Za-z_0-9]*", n)[:8]) or n
    return n


if __name__ == "__main__":
    if len(sys.argv) == 2 and sys.argv[1] == "--setup":
        build_all()
        say("built")
        sys.exit(0)
    try:
        rc = main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    except CheckError as e:
        say("CHECK-ERROR", e)
        rc = 3
    sys.exit(rc)
