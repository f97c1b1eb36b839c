#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough]: decides one property against /repo's working tree.

Builds the harness packages named in checks.json, runs them in parallel shards,
merges what they covered into evidence/<id>.json and ends with exit 0, or with
exit 1 and a line "VIOLATION property=<id> replay=<file>".
run.py --replay FILE re-runs a replay file.
"""
import json, os, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
TABLE = json.load(open(os.path.join(HERE, "checks.json")))
OKAY, FAIL = 0, 1


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def build(pkg, race, work, mode=""):
    """mode: "" for the plain tree, "os" with the file calls hooked, "sched" with the schedule explored, too."""
    out = os.path.join(work, pkg + ("-race" if race else "") + ("-" + mode if mode else "") + ".test")
    if os.path.exists(out):
        return out
    cmd = ["bash", os.path.join(HERE, "harness", "build.sh"), pkg, out] + (["-" + mode] if mode else []) + (["-race"] if race else [])
    for attempt in range(2):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            return out
    log(p.stdout[-4000:])
    log("build of", pkg, "failed")
    cleanup(work)
    sys.exit(2)


def cleanup(work):
    shutil.rmtree(work, ignore_errors=True)


def env_for(prop, tier, seed, work, extra):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("VERIF_"):
            del e[k]
    e.update({"GODEBUG": "asynctimerchan=0", "GOMAXPROCS": "2", "GOGC": "400", "GORACE": "halt_on_error=1", "HOME": "/root", "VERIF_PROP": prop, "VERIF_TIER": tier,
              "VERIF_SEED": str(seed), "VERIF_SCRATCH": scratch_base(work), "VERIF_HANG_S": "75"})
    e.update({k: str(v) for k, v in extra.items()})
    return e


def scratch_base(work):
    return work


def run_worker(binary, env, cwd, logf, limit):
    with open(logf, "wb") as f:
        p = subprocess.Popen([binary, "-test.timeout=0"], env=env, cwd=cwd, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
    return p, time.time() + limit


def wait(p, deadline):
    while p.poll() is None:
        if time.time() > deadline:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
            return -1000
        time.sleep(0.05)
    return p.returncode


def tail(path, n=2500):
    try:
        with open(path, "rb") as f:
            d = f.read()
        return d[-n:].decode("utf-8", "replace")
    except OSError:
        return ""


def replay_once(binary, prop, tier, seed, work, file, repeat, maxprocs=2, limit=200):
    d = tempfile.mkdtemp(dir=work)
    env = env_for(prop, tier, seed, d, {"VERIF_REPLAY": file, "VERIF_REPEAT": repeat, "GOMAXPROCS": maxprocs})
    lf = os.path.join(d, "log")
    p, dl = run_worker(binary, env, d, lf, limit)
    rc = wait(p, dl)
    t = tail(lf)
    shutil.rmtree(d, ignore_errors=True)
    return rc, t


def confirm(binary, prop, tier, seed, work, file, repeat, nondet=False, maxprocs=2, tries=3):
    """A failure counts if it shows again in a fresh process."""
    if nondet:
        # the schedule matters: run the case again and again in several processes at once.
        runs = []
        for i in range(8):
            d = tempfile.mkdtemp(dir=work)
            env = env_for(prop, tier, seed, d, {"VERIF_REPLAY": file, "VERIF_REPEAT": 100000, "VERIF_REPEAT_S": 12,
                                                "GOMAXPROCS": (2, 4, 8, 1)[i % 4]})
            runs.append((d,) + run_worker(binary, env, d, os.path.join(d, "log"), 120))
        rcs = []
        for d, p, dl in runs:
            rcs.append(wait(p, dl))
            t = tail(os.path.join(d, "log"))
            shutil.rmtree(d, ignore_errors=True)
        return any(rc not in (0, 5) for rc in rcs), t
    for i in range(tries):
        rc, t = replay_once(binary, prop, tier, seed, work, file, repeat, maxprocs)
        if rc not in (0, 5):
            return True, t
    return False, t


def save_replay(prop, pkg, race, v, mode=""):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s-%s.json" % (prop, v["suite"], v["seed"]))
    v = dict(v)
    v["package"] = pkg
    v["race"] = race
    if mode:
        v["mode"] = mode
    json.dump(v, open(p, "w"))
    return p


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                f = dict(x.split("=", 1) for x in line.split() if "=" in x and x.split("=")[0] in ("replay",))
                what = line.split(" what=", 1)[1] if " what=" in line else line
                out.append((os.path.join(HERE, f["replay"]), what))
    return out


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        v = json.load(open(sys.argv[2]))
        work = tempfile.mkdtemp(prefix="verif-", dir=tmp_base())
        try:
            mode = v.get("mode", "")
            b = build(v["package"], v.get("race", False), work, mode)
            rc, t = replay_once(b, v["property"], "quick", 1, work, os.path.abspath(sys.argv[2]), 5, 1 if mode == "sched" else 2)
        finally:
            cleanup(work)
        print(t)
        sys.exit(1 if rc else 0)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-", dir=tmp_base())
    rc = 2
    try:
        rc = check(prop, tier, seed, work, t0)
    finally:
        cleanup(work)
    sys.exit(rc)


def tmp_base():
    for d in ("/dev/shm", "/tmp"):
        try:
            st = os.statvfs(d)
            if os.access(d, os.W_OK) and st.f_bavail * st.f_frsize > (3 << 30):
                return d
        except OSError:
            pass
    return "/tmp"


def check(prop, tier, seed, work, t0):
    entry = TABLE[prop]
    merged = {"evaluations": 0, "nontriv": 0, "hashes": set(), "rules": [], "samples": [], "suites": {}}
    violation = None
    unrepro = 0
    seen = []  # failures of schedule-dependent cases that did not show again
    for part in entry["parts"]:
        pkg, race = part["pkg"], part.get("race", False)
        mode = part.get("mode", "")
        binary = build(pkg, race, work, mode)
        maxprocs = part.get("maxprocs", 1 if mode == "sched" else 2)
        budget = part.get(tier, 20 if tier == "quick" else 240)
        shards = part.get("shards", 8)
        repeat = part.get("repeat", 3)
        nondet = part.get("nondet", False)
        # known findings of this property that live in this package
        for f, what in known_findings(prop):
            v = json.load(open(f))
            if v.get("package", pkg) != pkg or v.get("mode", "") != mode or v.get("race", False) != race:
                continue
            krc, _ = replay_once(binary, prop, tier, seed, work, f, repeat, maxprocs)
            if krc not in (0, 5):
                print("KNOWN-FINDING: property=%s %s" % (prop, what), flush=True)
        outs = os.path.join(work, "out-" + os.path.basename(binary) + part.get("suite", ""))
        os.makedirs(outs, exist_ok=True)
        procs = []
        for s in range(shards):
            d = os.path.join(outs, "w%d" % s)
            os.makedirs(d)
            ex = {"VERIF_SHARD": s, "VERIF_BUDGET_S": budget, "VERIF_OUT": outs}
            if part.get("suite"):
                ex["VERIF_SUITE"] = part["suite"]
            ex["GOMAXPROCS"] = maxprocs
            env = env_for(prop, tier, seed, d, ex)
            procs.append((s, d) + run_worker(binary, env, d, os.path.join(outs, "log-%d" % s), budget + 180))
        done = 0
        for s, d, p, dl in procs:
            rc = wait(p, dl)
            of = os.path.join(outs, "out-%d.json" % s)
            cur = os.path.join(outs, "cur-%d.json" % s)
            o = None
            if os.path.exists(of):
                o = json.load(open(of))
                merge(merged, o)
            shutil.rmtree(d, ignore_errors=True)
            if violation or len(seen) >= 2:
                continue
            if rc == OKAY:
                done += 1
                continue
            if rc == FAIL and o and o.get("violation"):
                v = o["violation"]
                path = save_replay(prop, pkg, race, v, mode)
                ok, t = confirm(binary, prop, tier, seed, work, path, repeat, nondet, maxprocs)
                if ok:
                    violation = (path, v["error"])
                else:
                    unrepro += 1
                    if nondet:
                        seen.append((path, v["error"]))
                    log("not reproduced:", v["error"], path)
                continue
            if rc == 5:
                log(tail(os.path.join(outs, "log-%d" % s)))
                return 2
            # the worker died or hung: run the case it was on again
            lg = quiet(tail(os.path.join(outs, "log-%d" % s), 1 << 20))[-12000:]
            if os.path.exists(cur):
                v = json.load(open(cur))
                v["error"] = "the process died or hung on this case: " + death(lg)
                path = save_replay(prop, pkg, race, v, mode)
                ok, t = confirm(binary, prop, tier, seed, work, path, repeat, nondet, maxprocs)
                if ok:
                    violation = (path, v["error"])
                    continue
                if nondet and death(lg) != "unknown":
                    seen.append((path, v["error"]))
            unrepro += 1
            log("worker %d of %s ended with %s, not reproduced\n%s" % (s, pkg, rc, lg[-1500:]))
        if not violation and len(seen) >= 2:
            # two workers failed on their own: the schedule is rare, the failure is not in doubt.
            violation = seen[0]
        if violation:
            break
        if unrepro >= 2 and done == 0:
            log("no worker finished")
            return 2
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": merged["evaluations"],
            "distinct_nontrivial": len(merged["hashes"]),
            "rule": " | ".join(merged["rules"]),
            "samples": merged["samples"][:8],
            "suites": merged["suites"],
            "unreproduced_worker_failures": unrepro,
        },
        "assumptions": entry.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", prop + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))
    if violation:
        print("failing: " + violation[1])
        print("VIOLATION property=%s replay=%s" % (prop, violation[0]), flush=True)
        return 1
    print("%s: %d cases, %d distinct non-trivial, %.0f s" % (prop, merged["evaluations"], len(merged["hashes"]), time.time() - t0))
    return 0


def quiet(lg):
    return "\n".join(l for l in lg.splitlines() if not l.startswith("db.recoverLog:"))


def death(lg):
    i = lg.find("WARNING: DATA RACE")
    if i >= 0:
        where = [l.strip() for l in lg[i:].splitlines() if l.startswith("  github.com/unit-io") or l.startswith("      /repo")]
        return "DATA RACE " + " ".join(where[:8])
    for l in lg.splitlines():
        for k in ("panic:", "fatal error:", "VERIF-HANG", "DATA RACE", "deadlock"):
            if k in l:
                return l.strip()[:300]
    return "unknown"


def merge(m, o):
    for name, s in o["suites"].items():
        m["evaluations"] += s["cases"]
        m["nontriv"] += s["nontrivial"]
        m["hashes"].update(name + h for h in s["hashes"] or [])
        if s.get("rule") and name + ": " + s["rule"] not in m["rules"]:
            m["rules"].append(name + ": " + s["rule"])
        t = m["suites"].setdefault(name, {"cases": 0, "nontrivial": 0, "classes": {}})
        if t["cases"] == 0 or len([x for x in m["samples"] if x["suite"] == name]) < 2:
            for x in (s["samples"] or [])[:1]:
                try:
                    c = json.loads(x)
                except ValueError:
                    c = x
                m["samples"].append({"suite": name, "case": c})
        t["cases"] += s["cases"]
        t["nontrivial"] += s["nontrivial"]
        for k, n in (s["classes"] or {}).items():
            t["classes"][k] = t["classes"].get(k, 0) + n


main()
