#!/usr/bin/env python3
"""Driver of the monitors in /verif/harness.

  check.py PROP [--tier quick|thorough]     decide one property on /repo's working tree
  check.py --replay FILE                    run the case a violation was reported for again
  check.py --setup                          build everything once, to fill the build cache

Exit 0: held on everything explored. Exit 1: VIOLATION line. Exit 2: no answer (the reason is on stderr).
"""
import argparse, collections, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
WORK = os.path.join(VERIF, ".work")
GO = "/opt/veriftools/go1.25.14/bin/go"
FINDINGS = os.path.join(VERIF, "known-findings.txt")

# (GOMAXPROCS, noise level) per worker
VARIETY = [(4, 2), (1, 1), (8, 2), (2, 0), (4, 1), (2, 2), (8, 0), (3, 1)]


def env():
    e = dict(os.environ)
    for k in ("GOROOT", "GOFLAGS", "GOENV", "GO111MODULE", "GOTOOLDIR"):
        e.pop(k, None)
    e.update(PATH="/opt/veriftools/go1.25.14/bin:/usr/local/bin:/usr/bin:/bin", GOTOOLCHAIN="local", GOFLAGS="-mod=mod",
             GOPROXY="off", GOSUMDB="off", CGO_ENABLED="1", GOWORK="off", GOCACHE=os.path.join(WORK, "gocache"))
    if os.path.isdir("/root/go/pkg/mod") and "GOMODCACHE" not in e:
        pass
    e.setdefault("HOME", "/root")
    return e


class NoAnswer(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, env=env(), capture_output=True, text=True, **kw)


def build(dst):
    """Builds the worker from /repo's working tree into dst."""
    os.makedirs(dst, exist_ok=True)
    instr = os.path.join(dst, "instr")
    r = run([GO, "build", "-o", instr, "./instr"], cwd=HARNESS)
    if r.returncode:
        raise NoAnswer("building the instrumenter failed:\n" + r.stdout + r.stderr)
    ov = os.path.join(WORK, "overlay" if REPO == "/repo" else "overlay-" + hashlib.sha1(REPO.encode()).hexdigest()[:8])
    os.makedirs(WORK, exist_ok=True)
    # the overlay's files have stable names, so that unchanged packages come out of the build cache
    mod = ["-modfile=" + gomod(dst)]
    binary = os.path.join(dst, "mon.test")
    for extra in ([], ["-noexpr"]):  # a condition of a named boolean type takes no preemption point
        r = run([instr, "-repo", REPO, "-out", ov, "-vsched", os.path.join(HARNESS, "vsched/vsched.go"), *extra], cwd=HARNESS)
        if r.returncode:
            raise NoAnswer("instrumenting failed:\n" + r.stdout + r.stderr)
        r = run([GO, "test", *mod, "-vet=off", "-c", "-race", "-overlay", os.path.join(ov, "overlay.json"), "-o", binary, "./mon"], cwd=HARNESS)
        if r.returncode == 0:
            break
    if r.returncode:
        raise NoAnswer("building the worker failed:\n" + r.stdout + r.stderr)
    return binary


def gomod(dst):
    """A copy of the harness' go.mod, so that nothing go does to it touches the committed one."""
    p = os.path.join(dst, "go.mod")
    src = open(os.path.join(HARNESS, "go.mod")).read().replace("=> /repo", "=> " + REPO)
    open(p, "w").write(src)
    shutil.copy(os.path.join(HARNESS, "go.sum"), os.path.join(dst, "go.sum"))
    return p


def scenarios(binary):
    r = subprocess.run([binary, "-test.run", "^TestWorker$"], env=dict(env(), MON_JOB=json.dumps({"Mode": "list"})),
                       capture_output=True, text=True, timeout=120)
    out = [json.loads(l[4:]) for l in r.stdout.splitlines() if l.startswith("SCN ")]
    if not out:
        raise NoAnswer("the worker lists no scenarios:\n" + r.stdout + r.stderr)
    return out


def known(prop):
    """key -> description of the findings that are listed and not fixed"""
    out = {}
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m[1] == prop:
                out[m[2]] = m[3]
    return out


BRAID = "github.com/pojol/braid/"


def frames(stack):
    """the function names of a stack, innermost first"""
    out = []
    for l in stack.splitlines():
        m = re.match(r"\s*((?:[\w.\-]+/)*[\w\-]+\.\S*?)\([^()]*\)\s*$", l)
        if m and not l.strip().startswith("/"):
            out.append(m[1])
    return out


def ours(f):
    return f.startswith(BRAID) or f.startswith("verif/harness/mon.")


def parse_races(text, plain):
    """The race reports that involve braid, or the state that the monitors deliberately share without locks."""
    out = {}
    for block in text.split("=================="):
        if "WARNING: DATA RACE" not in block:
            continue
        acc = re.split(r"\n\s*(?=(?:Previous )?(?:[Rr]ead|[Ww]rite|atomic|Atomic|Previous)[^\n]* by )", block)
        tops, bad = [], False
        for a in acc[1:]:
            a = re.split(r"\n\s*Goroutine ", a)[0]
            fs = [f for f in frames("\n".join(a.splitlines()[1:]))]
            first = next((f for f in fs if ours(f)), fs[0] if fs else "?")
            tops.append(re.sub(r"\.func\d+.*", ".func", first))
            if first.startswith(BRAID) and "/vsched" not in first:
                bad = True
            if plain and ".plain" in first:
                bad = True
        if bad:
            key = "race:" + "|".join(sorted(set(tops[:2])))
            out.setdefault(key, block.strip()[:6000])
    return out


def crash(stderr):
    """Whether the crash of a worker belongs to braid: (key, text) or None."""
    m = re.search(r"^(panic: |fatal error: |SIGSEGV|unexpected fault)", stderr, re.M)
    if not m:
        return None
    body = stderr[m.start():]
    groups = body.split("\n\n")
    text = body[:8000]
    head = body.splitlines()[0][:200]
    if head.startswith("panic: deadlock:") or "test timed out" in head:
        return None
    # the goroutine that crashed comes first
    for g in groups:
        if g.startswith("goroutine ") or "\ngoroutine " in g:
            fs = [f for f in frames(g) if ours(f)]
            if fs and fs[0].startswith(BRAID):
                return "crash:" + fs[0], text
            if "fatal error: " in head and any(f.startswith(BRAID) for f in fs):
                return "crash:" + next(f for f in fs if f.startswith(BRAID)), text
            if any(f.startswith(BRAID) for f in frames(g)) and not fs[0].startswith("verif/"):
                return "crash:" + head, text
            if fs and fs[0].startswith("verif/"):
                # braid has to recover what a handler, a timer callback or a task panics with
                for f in fs:
                    if any(x in f for x in ("core/actor.(*Runtime).update", "lib/timer.startTickTask")):
                        return "crash:" + f + ":callback", text
                return None
            break
    if "fatal error: concurrent map" in head or "unlock of unlocked" in head or "stack overflow" in body[:300] or "all goroutines are asleep" in head:
        if BRAID in body:
            return "crash:" + head, text
    if "out of memory" in head or "cannot allocate" in head:
        return None
    return None


def run_workers(binary, prop, jobs, out, cap):
    """Runs the jobs, all at once. Returns their records, race logs and errors."""
    procs = []
    for i, j in enumerate(jobs):
        j = dict(j, Out=os.path.join(out, "w%d.jsonl" % i))
        e = dict(env(), MON_JOB=json.dumps(j), GOTRACEBACK="all",
                 GORACE="log_path=%s halt_on_error=0 exitcode=0 atexit_sleep_ms=0" % os.path.join(out, "race%d" % i))
        e.pop("GOFLAGS")
        wd = os.path.join(out, "cwd%d" % i)
        os.makedirs(wd, exist_ok=True)
        so, se = open(os.path.join(out, "o%d" % i), "w"), open(os.path.join(out, "e%d" % i), "w")
        p = subprocess.Popen([binary, "-test.run", "^TestWorker$", "-test.timeout", "0"], env=e, cwd=wd, stdout=so, stderr=se, start_new_session=True)
        procs.append((i, j, p))
    end = time.time() + cap
    res = []
    for i, j, p in procs:
        try:
            p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            res.append((i, j, "cap"))
            continue
        res.append((i, j, p.returncode))
    recs = []
    for i, j, rc in res:
        own = []
        if os.path.exists(j["Out"]):
            for l in open(j["Out"]):
                try:
                    own.append(json.loads(l))
                except ValueError:
                    pass
        races = "".join(open(f, errors="replace").read() for f in glob.glob(os.path.join(out, "race%d.*" % i)))
        err = open(os.path.join(out, "e%d" % i), errors="replace").read() + "\n" + open(os.path.join(out, "o%d" % i), errors="replace").read()
        recs.append((j, rc, own, races, err))
    return recs


def unexplained(rec):
    j, rc, own, races, err = rec
    if any(r.get("t") == "viol" for r in own):
        return False
    if any(r.get("t") == "error" for r in own):
        return True
    return not any(r.get("t") in ("done", "stuck", "frozen") for r in own) and rc != "cap" and crash(err) is None


def digest(prop, recs, scn):
    """Turns worker records into (violations, errors, coverage)."""
    viols, errors = collections.OrderedDict(), []
    cov = dict(cases=0, evals=0, sigs=set(), counts=collections.Counter(), samples=[], notes=collections.Counter(), ms=0, per=collections.Counter())
    racy = any(s["races"] for s in scn)
    for j, rc, own, races, err in recs:
        last = None
        done = False
        for r in own:
            t = r.get("t")
            if t == "begin":
                last = r
            elif t == "end":
                cov["cases"] += 1
                cov["evals"] += r["evals"]
                cov["sigs"].update(r["sigs"])
                cov["counts"].update(r["counts"])
                cov["ms"] += r["ms"]
                cov["per"][r["scn"]] += 1
                if r["samples"]:
                    cov["samples"].append({"scenario": r["scn"], "seed": r["seed"], "saw": r["samples"]})
            elif t == "viol":
                viols.setdefault(r["key"], dict(r, job=j))
            elif t == "error":
                errors.append(r["msg"])
            elif t == "frozen":
                if r.get("braid"):
                    viols.setdefault("frozen", {"scn": last["scn"], "seed": last["seed"], "msg": "nothing moves any more, goroutines inside braid are blocked or spinning\n" + r["dump"], "job": j})
                else:
                    errors.append("worker frozen in %s\n%s" % (last, r["dump"][:6000]))
                done = True
            elif t == "note":
                cov["notes"][r["msg"][:80]] += 1
            elif t in ("done", "stuck"):
                done = True
        if not done:
            c = crash(err)
            if c and last:
                viols.setdefault(c[0], {"scn": last["scn"], "seed": last["seed"], "msg": c[1], "job": j})
            else:
                at = re.search(r"^(panic: |fatal error: |SIGSEGV|unexpected fault)", err, re.M)
                errors.append("worker ended with %s in %s\n%s" % (rc, last, err[at.start():][:4000] if at else err[-4000:]))
        if racy and races:
            for k, b in parse_races(races, True).items():
                viols.setdefault(k, {"scn": (last or {}).get("scn", ""), "seed": (last or {}).get("seed", 0), "msg": b, "job": j})
        if races:
            cov["counts"]["race_reports"] += races.count("WARNING: DATA RACE")
            if os.environ.get("VERIF_DEBUG"):
                for k, b in parse_races(races.replace("github.com/pojol", "x").replace("verif/harness/mon.", BRAID), False).items():
                    print("RACE in the harness:", k, b[:3000])
    return viols, errors, cov


def report(prop, viols, out_dir):
    """Prints violations and findings, returns the number of violations."""
    listed = known(prop)
    for k, d in listed.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, d))
    n = 0
    for k, v in viols.items():
        if k in listed:
            continue
        n += 1
        d = os.path.join(VERIF, ".work", "replay")
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, "%s-%s.json" % (prop, hashlib.sha1(k.encode()).hexdigest()[:10]))
        job = {x: v["job"].get(x) for x in ("Mode", "Level", "Procs")}
        json.dump({"prop": prop, "key": k, "scn": v["scn"], "seed": v["seed"], "job": job, "msg": v["msg"]}, open(f, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, f))
        print("  scenario %s seed %s key %s" % (v["scn"], v["seed"], k))
        print("  " + v["msg"][:3000].replace("\n", "\n  "))
    sys.stdout.flush()
    return n


def check(prop, tier, seed):
    start = time.time()
    thorough = tier == "thorough"
    tmp = os.path.join(WORK, "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(tmp)
    try:
        binary = build(tmp)
        built = time.time() - start
        scn = [s for s in scenarios(binary) if s["prop"] == prop]
        if not scn:
            raise NoAnswer("no scenario for " + prop)
        virt, real = any(not s["real"] for s in scn), any(s["real"] for s in scn)
        budget = 780 - built if thorough else 240
        if virt and real:
            budget /= 2
        if os.environ.get("VERIF_BUDGET"):
            budget = float(os.environ["VERIF_BUDGET"])
        recs = []
        for mode in (["virtual"] if virt else []) + (["real"] if real else []):
            n = 8 if mode == "virtual" else 4
            out = os.path.join(tmp, mode)
            os.makedirs(out)
            jobs = [{"Prop": prop, "Mode": mode, "Seed": seed, "Worker": i, "Workers": n, "Thorough": thorough, "BudgetMS": int(budget * 1000),
                     "Procs": VARIETY[i][0], "Level": VARIETY[i][1]} for i in range(n)]
            got = run_workers(binary, prop, jobs, out, budget + 120)
            # a worker that the Go runtime or the harness ended, which says nothing about braid, gets a second chance
            again = [i for i, r in enumerate(got) if unexplained(r)]
            if again:
                for i in again:
                    print("worker %d ended with %s and is run again" % (i, got[i][1]), got[i][4][-1500:], file=sys.stderr)
                out2 = os.path.join(tmp, mode + "2")
                os.makedirs(out2)
                for i, r in zip(again, run_workers(binary, prop, [jobs[i] for i in again], out2, budget + 120)):
                    got[i] = r
            recs += got
        viols, errors, cov = digest(prop, recs, scn)
        n = report(prop, viols, tmp)
        rules = ["%s: %s" % (s["name"], s["rule"]) for s in scn]
        samples = []
        seen = set()
        for s in cov["samples"]:
            if s["scenario"] not in seen or len(samples) < 3:
                seen.add(s["scenario"])
                samples.append(s)
            if len(samples) >= 12:
                break
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
              "coverage": {"evaluations": cov["cases"], "distinct_nontrivial": len(cov["sigs"]),
                           "rule": "evaluations = executions of a scenario, one seed each, with the monitors attached; distinct_nontrivial = distinct outcomes (orders, states, results) that the oracle recorded. " + " || ".join(rules),
                           "samples": samples, "executions_per_scenario": dict(cov["per"]), "oracle_evaluations": cov["evals"],
                           "observed": dict(cov["counts"]), "notes": dict(cov["notes"])},
              "assumptions": ["the executions explored are those the seeded workloads produce", "miniredis and in-memory connections stand in for redis"],
              "wall_s": round(time.time() - start, 1), "violations": n}
        edir = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
        os.makedirs(edir, exist_ok=True)
        with open(os.path.join(edir, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if n:
            return 1
        if errors:
            raise NoAnswer("\n".join(errors[:3])[:12000])
        empty = [s["name"] for s in scn if not cov["per"][s["name"]]]
        if empty or not cov["sigs"]:
            raise NoAnswer("observed nothing in " + ", ".join(empty or ["any scenario"]))
        print("%s held on %d executions (%d oracle evaluations, %d distinct outcomes) in %.1f s, %.1f s of them building" %
              (prop, cov["cases"], cov["evals"], len(cov["sigs"]), time.time() - start, built))
        return 0
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(tmp, ignore_errors=True)


def replay(path):
    v = json.load(open(path))
    tmp = os.path.join(WORK, "replay-%d" % os.getpid())
    os.makedirs(tmp)
    try:
        binary = build(tmp)
        scn = [s for s in scenarios(binary) if s["prop"] == v["prop"]]
        job = dict(v["job"], Prop=v["prop"], Scenario=v["scn"], Seed=v["seed"], Replay=True, Repeat=200, BudgetMS=300000, Worker=0, Workers=1)
        jobs = [dict(job, Procs=p, Level=l) for p, l in [(job["Procs"], job["Level"])] + VARIETY[:7]]
        viols, errors, cov = digest(v["prop"], run_workers(binary, v["prop"], jobs, tmp, 400), scn)
        for k, x in viols.items():
            print("VIOLATION property=%s replay=%s" % (v["prop"], path))
            print("  key %s\n  %s" % (k, x["msg"][:4000].replace("\n", "\n  ")))
        if viols:
            return 1
        if errors:
            raise NoAnswer(errors[0])
        print("not reproduced in %d executions" % cov["cases"])
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    try:
        if a.setup:
            tmp = os.path.join(WORK, "setup-%d" % os.getpid())
            try:
                print(len(scenarios(build(tmp))), "scenarios built")
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
            return 0
        if a.replay:
            return replay(a.replay)
        return check(a.prop, a.tier, a.seed)
    except NoAnswer as e:
        print("NO ANSWER: %s" % e, file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
