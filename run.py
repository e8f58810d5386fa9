#!/usr/bin/env python3
"""Driver of the runtime monitors: run.py <PROPERTY> [--tier quick|thorough]
Builds the property's harnesses from /repo's current tree, runs their cases in
child processes, and turns what the oracles and sanitizers saw into a verdict.
exit 0 held on everything explored; 1 violated; 2 build error; 3 nothing/too
little observed; 4 inconclusive (a case could not be decided)."""
import argparse, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.join(REPO, "ndt_gslam")
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

CXX = "g++-11"
BASE = ["-std=c++17", "-mfpmath=sse", "-msse3", "-fPIC", "-fopenmp", "-w",
        "-I" + os.path.join(HERE, "harness"), "-I" + os.path.join(PKG, "include"),
        "-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/suitesparse"]
VARIANTS = {
    # one sanitizer family per build; every report is fatal
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
             "-fsanitize=float-cast-overflow", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
    # the flags the project itself is built with
    "rel": ["-O3", "-g1"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread", "-D_GLIBCXX_ASSERTIONS"],
}
ENV = dict(os.environ)
ENV.update({
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=0:max_allocation_size_mb=3000:"
                    "hard_rss_limit_mb=6000:detect_stack_use_after_return=1:"
                    "allocator_may_return_null=0:handle_abort=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=77:second_deadlock_stack=1",
    "LSAN_OPTIONS": "exitcode=77",
    "OMP_WAIT_POLICY": "passive",
    "OMP_NUM_THREADS": os.environ.get("VERIF_OMP", "4"),
    "LC_ALL": "C",
})


def log(*a):
    print(*a, flush=True)


class BuildError(Exception):
    pass


def compile_one(src, flags, cache):
    pre = subprocess.run([CXX, "-E", *flags, src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if pre.returncode:
        raise BuildError(f"preprocess {src}:\n" + pre.stderr.decode()[-3000:])
    h = hashlib.sha256((" ".join(flags)).encode() + b"\0" + pre.stdout).hexdigest()[:32]
    obj = os.path.join(cache, h + ".o")
    if not os.path.exists(obj):
        tmp = obj + f".{os.getpid()}.{time.monotonic_ns()}.o"
        r = subprocess.run([CXX, "-c", *flags, src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildError(f"compile {src}:\n" + r.stdout.decode()[-6000:])
        os.replace(tmp, obj)
    os.utime(obj)
    return obj


def build_bin(spec, variant, cache):
    flags = [*BASE, *[f.replace("@PKG@", PKG).replace("@HERE@", HERE) for f in spec.get("flags", [])],
             *VARIANTS[variant]]
    srcs = [os.path.join(HERE, "harness", spec["src"])]
    srcs += [os.path.join(PKG, s) for s in spec.get("repo_srcs", [])]
    with cf.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda s: compile_one(s, flags, cache), srcs))
    h = hashlib.sha256(" ".join(objs + flags + spec.get("libs", [])).encode()).hexdigest()[:24]
    exe = os.path.join(cache, f"{os.path.basename(spec['src'])[:-4]}-{variant}-{h}")
    if not os.path.exists(exe):
        tmp = exe + f".{os.getpid()}.{time.monotonic_ns()}"
        r = subprocess.run([CXX, *flags, *objs, "-o", tmp, *spec.get("libs", [])],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildError("link:\n" + r.stdout.decode()[-6000:])
        os.replace(tmp, exe)
    return exe


def prune(cache, keep=400):
    try:
        fs = [os.path.join(cache, f) for f in os.listdir(cache)]
        fs.sort(key=lambda f: os.path.getmtime(f))
        for f in fs[:-keep]:
            os.unlink(f)
    except OSError:
        pass


def crash_key(rc, err, family):
    """A stable name for what a sanitizer, an assertion or a signal reported."""
    if rc == 97:
        return "hang:" + family, "no progress within the CPU budget"
    m = re.search(r"SUMMARY: (\w+): ([\w-]+)(?: (\S+))?(?: in (.*))?", err)
    ub = re.search(r"runtime error: (.*)", err)
    if ub:
        kind = re.sub(r"[0-9.e+-]+", "N", ub.group(1))[:60]
        return f"undefined-behaviour:{family}:{kind}", ub.group(0)[:400]
    if m:
        where = (m.group(4) or "").strip()
        return f"sanitizer:{family}:{m.group(2)}", (m.group(0) + " " + where)[:400]
    a = re.search(r"Assertion .*", err)
    if a:
        return f"assertion:{family}", a.group(0)[:400]
    t = re.search(r"terminate called.*\n?.*what\(\).*", err)
    if t:
        return f"terminate:{family}", t.group(0)[:400]
    return f"crash:{family}:exit{rc}", (err.strip().splitlines() or [""])[-1][:400]


CONFIRMED_HANGS = set()


def run_range(exe, seed, lo, n, thorough, cpu, work, tag):
    """-> (records, viols, crashes, undecided)"""
    recs, viols, undecided = [], [], []
    crashes = 0
    cur, end = lo, lo + n
    part = 0
    while cur < end:
        out = os.path.join(work, f"{tag}.{part}.out")
        prog = os.path.join(work, f"{tag}.{part}.prog")
        errp = os.path.join(work, f"{tag}.{part}.err")
        part += 1

        def go(a, k, budget):
            cmd = [exe, "--seed", str(seed), "--from", str(a), "--count", str(k), "--out", out,
                   "--progress", prog, "--cpu", str(budget)]
            if thorough:
                cmd.append("--thorough")
            with open(errp, "wb") as ef:
                try:
                    p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=ef, cwd=work, env=ENV,
                                       timeout=max(240, 8 * budget) if k == 1 else 3600 * 3)
                    rc = p.returncode
                except subprocess.TimeoutExpired:
                    rc = 98
            with open(errp, "rb") as ef:
                data = ef.read()
            err = (data[:200000] + data[-200000:]).decode("utf8", "replace")
            fam, at = "", a
            try:
                b = open(prog, "rb").read()
                at = int.from_bytes(b[0:8], "little")
                incase = int.from_bytes(b[8:16], "little")
                fam = b[16:].split(b"\0")[0].decode("ascii", "replace")
                if not incase:
                    fam = "at-exit"
            except OSError:
                pass
            rs = []
            try:
                for line in open(out):
                    try:
                        rs.append(json.loads(line))
                    except ValueError:
                        pass
            except OSError:
                pass
            return rc, err, fam, at, rs

        rc, err, fam, at, rs = go(cur, end - cur, cpu)
        recs += [r for r in rs if r["t"] != "viol"]
        viols += [(r["key"], r["msg"], r["case"], r["trace"]) for r in rs if r["t"] == "viol"]
        done = any(r["t"] == "done" for r in rs)
        if rc == 0 and done:
            break
        if rc in (90, 91, 92) or at < cur or at >= end:
            raise RuntimeError(f"harness failure rc={rc}: {err[-500:]}")
        if rc in (97, 98) and CONFIRMED_HANGS:
            break  # one hang is confirmed already: no need to spend the budget on more
        if rc in (97, 98):
            # a timeout is inconclusive: decide it by one run alone with a larger budget
            rc2, err2, fam2, at2, rs2 = go(at, 1, cpu * 2)
            viols += [(r["key"], r["msg"], r["case"], r["trace"]) for r in rs2 if r["t"] == "viol"]
            if rc2 == 97:
                CONFIRMED_HANGS.add(fam2)
                viols.append(("hang:" + fam2, f"case did not finish in {cpu}s and then {cpu*2}s of CPU time", at, ""))
            elif rc2 == 98:
                undecided.append((at, "wall-clock watchdog fired"))
            elif rc2 != 0:
                k, m = crash_key(rc2, err2, fam2)
                viols.append((k, m, at, err2[-3000:]))
        elif rc == -9:
            undecided.append((at, "killed (memory?)"))
        elif done and rc == 77 and "LeakSanitizer" in err:
            m = re.search(r"SUMMARY: .*", err)
            viols.append(("leak", m.group(0) if m else "leak", cur, err[:3000]))
            break
        else:
            k, m = crash_key(rc, err, fam)
            viols.append((k, m, at, err[:3000]))
        recs.append({"t": "partial", "cases": at - cur + 1})
        crashes += 1
        if crashes >= 4:
            break
        cur = at + 1
    return recs, viols, undecided


def load_known(prop):
    known = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                known.append((m.group(2), m.group(3)))
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--only", default="")
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop
    spec = CHECKS[prop]
    tier = "thorough" if a.tier == "thorough" else "quick"
    cache = os.environ.get("VERIF_CACHE", os.path.join(HERE, ".build"))
    os.makedirs(cache, exist_ok=True)
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    evfile = os.path.join(evdir, prop + ".json")

    jobs = []
    for b in spec["bins"]:
        if a.only and a.only not in b["src"]:
            continue
        for v, cases in b["variants"].items():
            jobs.append((b, v, max(1, int(cases[0 if tier == "quick" else 1] * a.scale))))
    built = []
    try:
        def job(j):
            b, v, n = j
            try:
                return build_bin(b, v, cache), None
            except BuildError as e:
                # part of the public API which a user's code can no longer build against: the same
                # harness builds once the calls guarded by the probe are left out
                if not b.get("probe"):
                    raise
                b2 = dict(b, flags=[f for f in b.get("flags", []) if f != "-D" + b["probe"]])
                return build_bin(b2, v, cache), ("not-instantiable:" + b["probe"], str(e)[:800], 0, str(e), b, v, 0)
        with cf.ThreadPoolExecutor(8) as ex:
            built = list(ex.map(job, jobs))
    except BuildError as e:
        log("BUILD-ERROR", e)
        sys.exit(2)
    exes = [e for e, _ in built]
    t_build = time.time() - t0

    work = tempfile.mkdtemp(prefix="verif_")
    tasks = []
    for (b, v, n), exe in zip(jobs, exes):
        k = min(n, 16)
        bounds = [n * i // k for i in range(k + 1)]
        for i in range(k):
            if bounds[i + 1] > bounds[i]:
                tasks.append((b, v, exe, bounds[i], bounds[i + 1] - bounds[i]))
    events, sigs, samples, viols, undecided, cases = {}, set(), [], [], [], 0
    per_bin = {}
    try:
        with cf.ThreadPoolExecutor(8) as ex:
            futs = {}
            for i, (b, v, exe, lo, n) in enumerate(tasks):
                # separate seeds per variant so that the two builds see different inputs
                sd = a.seed * 1000003 + (0 if v == "asan" else 7919 if v == "rel" else 104729)
                f = ex.submit(run_range, exe, sd, lo, n, tier == "thorough", b.get("cpu", 15), work, f"t{i}")
                futs[f] = (b, v, exe, sd)
            for f in cf.as_completed(futs):
                b, v, exe, sd = futs[f]
                recs, vs, und = f.result()
                name = b["src"][:-4] + "/" + v
                for r in recs:
                    if r["t"] == "ev":
                        events[r["name"]] = events.get(r["name"], 0) + r["n"]
                    elif r["t"] == "sample" and len(samples) < 6:
                        samples.append(name + ": " + r["s"])
                    elif r["t"] == "sigs":
                        sigs.update(r["v"])
                    elif r["t"] in ("done", "partial"):
                        cases += r["cases"]
                        per_bin[name] = per_bin.get(name, 0) + r["cases"]
                viols += [(k, m, c, t, b, v, sd) for (k, m, c, t) in vs]
                undecided += und
    except Exception as e:  # harness failure: no verdict
        log("HARNESS-ERROR", e)
        shutil.rmtree(work, ignore_errors=True)
        sys.exit(3)
    shutil.rmtree(work, ignore_errors=True)

    viols += [p for _, p in built if p]
    known = load_known(prop)
    groups = {}
    for vv in viols:
        groups.setdefault(vv[0], []).append(vv)
    new = 0
    for i, (key, vs) in enumerate(sorted(groups.items())):
        vs.sort(key=lambda x: x[2])
        k, m, c, t, b, v, sd = vs[0]
        hit = [d for kk, d in known if kk == key]
        if hit:
            continue
        new += 1
        rp = os.path.join(evdir, "replay", f"{prop}-{i}.json")
        with open(rp, "w") as f:
            json.dump({"property": prop, "key": key, "message": m, "harness": b["src"], "variant": v,
                       "seed": sd, "case": c, "times_seen": len(vs), "trace": t,
                       "replay": f"python3 {HERE}/replay.py {rp}"}, f, indent=1)
        log(f"  [{key}] {b['src']}/{v} seed={sd} case={c} (x{len(vs)}): {m[:300]}")
        log(f"VIOLATION property={prop} replay={rp}")
    for kk, d in known:
        log(f"KNOWN-FINDING: property={prop} {d}")

    missing = [e for e in spec.get("must_see", []) if not events.get(e)] if not a.only else []
    cov = {"evaluations": cases, "distinct_nontrivial": len(sigs), "rule": spec["rule"],
           "samples": samples[:4] or ["none"], "observed_events": events, "cases_per_build": per_bin,
           "build_s": round(t_build, 1)}
    with open(evfile, "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": a.seed, "level": "exploration", "coverage": cov,
                   "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
                   "violations": new}, f, indent=1)
    prune(cache)
    log(f"{prop} {tier}: cases={cases} distinct_nontrivial={len(sigs)} oracle_checks={events.get('oracle_checks', 0)} "
        f"build={t_build:.1f}s wall={time.time()-t0:.1f}s violations={new}")
    if new:
        sys.exit(1)
    if undecided:
        log("INCONCLUSIVE", undecided[:5])
        sys.exit(4)
    if missing or not sigs:
        log("NOTHING-OBSERVED: these events never happened:", missing)
        sys.exit(3)
    sys.exit(0)


if __name__ == "__main__":
    main()
