#!/usr/bin/env python3
"""run.py OUT.jsonl N SEED GROUP...: runs the checks on N random small changes of the files of each group.

Development tool: a change that builds, passes the stable tests and is not noticed by any check is listed
for reading as a survivor. Mutated code runs as an unprivileged user in scratch directories.
"""
import json, os, random, shutil, subprocess, sys, tempfile, threading, glob, time

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
BASE = os.environ.get("MUT_BASE") or tempfile.mkdtemp(prefix="mut-", dir="/tmp")
REPO = BASE + "/repo"
ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off",
           GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")
P = ["P%02d" % i for i in range(1, 18)]
CORE = [("core", p, "") for p in P] + [("coreos", "P03", "crashpoints"), ("coreos", "P12", "reusecrash"), ("coreos", "P04", "delcrash"), ("coreos", "P10", "batchcrash")]
MEM = [("mem", p, "") for p in ("M01", "M02", "M03", "M04", "W01", "W02")]
LIB = [("lib", p, "") for p in ("L01", "L02", "L03", "L04")]
E2E = [("srv", p, "") for p in ("S11", "S15", "S16", "S17", "S18", "S19", "S14", "S13")]
SRV = [("srv", p, "") for p in ("S01", "S02", "S03", "S04", "S05", "S06", "S07", "S08", "S09", "S10", "S12")]
GROUPS = {
    "core": (["."], CORE), "mem": (["memdb"], MEM + CORE[:17]), "wal": (["wal"], [("mem", "W01", ""), ("mem", "W02", "")] + CORE),
    "lib": (["hash", "filter", "crypto", "encoding"], LIB + CORE[:17]), "msg": (["message", "uid"], CORE[:17]),
    "e2e": (["server/internal", "server/internal/store", "server/internal/db/unitdb", "server/internal/message"], E2E + SRV),
    "srv": (["server/internal/message/security", "server/internal/net", "server/internal/net/listener", "server/internal/pkg/uid", "server/internal/pkg/crypto", "server/utp", "server/internal/pkg/hash"], SRV + E2E),
}
SKIP = ("_test.go", "_windows.go", "logger.go", ".pb.go", "cluster.go", "cluster_leader.go", "_grpc.go", "_grpc_web.go", "_gen.go")
SECS = float(os.environ.get("MUT_SECS", "4"))


def call(cmd, cwd, env=None, timeout=200):
    e = dict(ENV)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode(errors="replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.communicate()
        return 124, "timeout"


NOBODY = ["prlimit", "--as=20000000000", "setpriv", "--reuid=65534", "--regid=65534", "--clear-groups"]


def overlay(suite, mut, d):
    here = os.path.join(BASE, "harness")
    rep = {}
    if suite == "coreos":
        rep.update(OSREP)
    for x in os.listdir(here):
        for f in glob.glob(os.path.join(here, x, "*.go")):
            rep[REPO + "/server/zzverif/%s/%s" % (x, os.path.basename(f))] = f
    rep.update(mut)
    if suite == "srv":
        import re
        src = REPO + "/server/internal"
        for f in os.listdir(src):
            if not f.endswith(".go") or f.endswith("_test.go"):
                continue
            k = os.path.join(src, f)
            t = open(mut.get(k, k)).read()
            n = re.sub(r'(?m)^(import\s+|\t)(?:sync\s+)?"sync"\s*$', r'\1sync "github.com/unit-io/unitdb/server/zzverif/vsync"', t)
            if n != t:
                q = os.path.join(d, "vs_" + f)
                open(q, "w").write(n)
                rep[k] = q
    o = os.path.join(d, "ov-%s.json" % suite)
    json.dump({"Replace": rep}, open(o, "w"))
    return o


def one(m, checks, slot):
    d = tempfile.mkdtemp(prefix="m", dir=BASE)
    os.chmod(d, 0o755)
    try:
        src = open(os.path.join(REPO, m["file"]), "rb").read()
        new = src[:m["from"]] + m["new"].encode() + src[m["to"]:]
        mf = os.path.join(d, "mutant.go")
        open(mf, "wb").write(new)
        mut = {os.path.join(REPO, m["file"]): mf}
        plain = os.path.join(d, "plain.json")
        json.dump({"Replace": mut}, open(plain, "w"))
        rc, out = call(["go", "build", "-overlay", plain, "./" + os.path.dirname(m["file"])], REPO)
        if rc:
            return "nobuild", ""
        if not m["file"].startswith("server/"):
            for pkg in (".", "./hash", "./memdb", "./wal"):
                b = os.path.join(d, "st.test")
                rc, out = call(["go", "test", "-vet=off", "-c", "-overlay", plain, "-o", b, pkg], REPO)
                if rc:
                    return "nobuild", ""
                w = os.path.join(d, "w")
                shutil.rmtree(w, ignore_errors=True)
                os.mkdir(w)
                os.chmod(w, 0o777)
                rc, out = call(NOBODY + [b, "-test.timeout=60s", "-test.v"], w, timeout=90)
                name = "github.com/unit-io/unitdb" + pkg[1:]
                for t in STABLE:
                    if t.rsplit("/", 1)[0] == name and "--- PASS: " + t.rsplit("/", 1)[1] + " " not in out:
                        return "tests", t
        built = {}
        for suite, prop, sub in checks:
            if suite not in built:
                b = os.path.join(d, suite + ".test")
                a = ["go", "test", "-vet=off", "-c", "-overlay", overlay(suite, mut, d), "-o", b]
                if suite == "coreos":
                    a.insert(3, "-tags=oshook")
                rc, out = call(a + ["./server/zzverif/" + suite.replace("coreos", "core")], REPO)
                if rc:
                    return "harnessbuild", out[-300:]
                built[suite] = b
            w = tempfile.mkdtemp(prefix="run", dir="/dev/shm")
            os.chmod(w, 0o777)
            env = {"VERIF_OUT": w, "VERIF_SCRATCH": w, "VERIF_PROP": prop, "VERIF_SUITE": sub, "VERIF_BUDGET_S": str(int(SECS)), "VERIF_SHRINK_S": "1", "VERIF_HANG_S": "25",
                   "VERIF_SEED": str(random.randrange(1, 1000)), "GOMAXPROCS": "1", "GODEBUG": "asynctimerchan=0", "GOGC": "400", "VERIF_SHARD": str(slot), "GOMEMLIMIT": "3GiB", "HOME": w}
            rc, out = call(NOBODY + [built[suite], "-test.timeout=300s"], w, env, timeout=60)
            shutil.rmtree(w, ignore_errors=True)
            bad = rc != 0 or "VERIF-FAIL" in out
            if bad:
                line = [l for l in out.splitlines() if "VERIF-FAIL" in l or "panic" in l or "HANG" in l]
                return "caught", "%s %s rc=%d %s" % (prop, sub, rc, (line or [out[-100:]])[0][:160])
        return "SURVIVED", ""
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    global OSREP, STABLE
    out, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    os.chmod(BASE, 0o755)
    shutil.copytree(os.path.join(VERIF, "harness"), os.path.join(BASE, "harness"), ignore=shutil.ignore_patterns("*.test"))
    subprocess.run(["cp", "-a", "/repo", REPO], check=True)
    subprocess.run("sed -i -E 's/^(\\s*(nBlocks|nLocks)\\s*=\\s*)100000/\\14001/' *.go memdb/*.go", shell=True, cwd=REPO, check=True)
    os.mkdir(BASE + "/os")
    r = subprocess.run("python3 %s/harness/osoverlay.py %s/os" % (VERIF, BASE), shell=True, stdout=subprocess.PIPE, env=ENV)
    OSREP = json.loads(r.stdout)
    OSREP = OSREP.get("Replace", OSREP)
    STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    subprocess.run(["go", "build", "-o", BASE + "/mutate", VERIF + "/tools/mutate/mutate.go"], env=ENV, check=True)
    done = set()
    if os.path.exists(out):
        for l in open(out):
            j = json.loads(l)
            done.add((j["file"], j["from"], j["new"], j["desc"]))
    todo = []
    for g in sys.argv[4:]:
        only = None
        if ":" in g:
            g, only = g.split(":")
        dirs, checks = GROUPS[g]
        files = []
        for d in dirs:
            files += [os.path.normpath(os.path.join(d, os.path.basename(f))) for f in sorted(glob.glob("%s/%s/*.go" % (REPO, d)))
                      if not f.endswith(SKIP) and (not only or os.path.basename(f) in only.split(","))]
        r = subprocess.run([BASE + "/mutate"] + files, cwd=REPO, stdout=subprocess.PIPE, check=True)
        ms = [json.loads(l) for l in r.stdout.splitlines()]
        ms = [m for m in ms if (m["file"], m["from"], m["new"], m["desc"]) not in done]
        random.Random(seed).shuffle(ms)
        todo += [(m, checks) for m in ms[:n]]
    random.Random(seed).shuffle(todo)
    lock = threading.Lock()
    f = open(out, "a")
    it = iter(todo)
    count = {}

    def work(slot):
        while True:
            with lock:
                t = next(it, None)
            if t is None:
                return
            t0 = time.time()
            res, why = one(t[0], t[1], slot)
            with lock:
                count[res] = count.get(res, 0) + 1
                f.write(json.dumps(dict(t[0], result=res, why=why, secs=round(time.time() - t0))) + "\n")
                f.flush()
                if res in ("SURVIVED", "harnessbuild"):
                    print(res, "%s:%d %s %s" % (t[0]["file"], t[0]["line"], t[0]["desc"], why), flush=True)

    ts = [threading.Thread(target=work, args=(i,)) for i in range(int(os.environ.get("MUT_PAR", "8")))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    print(count, flush=True)
    shutil.rmtree(BASE, ignore_errors=True)


main()
