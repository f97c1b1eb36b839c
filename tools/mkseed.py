#!/usr/bin/env python3
"""mkseed.py FILE.py...: makes seeded/<id>/ from descriptions of planted bugs and confirms them in a scratch copy.

Each FILE.py defines SEEDS = [dict(id, property, edits=[(file, old, new)], demo=<go test source>, needs, breaks, race=False)].
"""
import json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the behaviour is as it should be; run with cwd /repo
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
. /opt/vp/env.sh
export GODEBUG=asynctimerchan=0
tmp=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%%s/%(pkg)s/zzdemo_test.go":"%%s/demo_test.go.txt"}}' "$repo" "$here" > "$tmp/overlay.json"
cd "$repo" || exit 2
go test -c -vet=off %(race)s-overlay "$tmp/overlay.json" -o "$tmp/demo.test" ./%(pkg)s || exit 3
cd "$tmp" && DEMO_DIR="$tmp" ./demo.test -test.timeout=120s
'''


def sh(cmd, cwd=None, env=None):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e)


def main():
    only = [a for a in sys.argv[1:] if not a.endswith(".py")]
    for f in [a for a in sys.argv[1:] if a.endswith(".py")]:
        ns = {}
        exec(open(f).read(), ns)
        for s in ns["SEEDS"]:
            if only and s["id"] not in only:
                continue
            make(s)


def make(s):
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        sh("git -C /repo worktree prune; cp -a /repo %s/repo" % d)
        wt = d + "/repo"
        out = os.path.join(HERE, "seeded", s["id"])
        for file, old, new in s["edits"]:
            p = os.path.join(wt, file)
            t = open(p).read()
            if t.count(old) != 1:
                print(s["id"], "EDIT", file, "matches", t.count(old)); return
            open(p, "w").write(t.replace(old, new))
        patch = sh("git -C %s diff" % wt).stdout
        # changed lines must be lines of the base commit
        base = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.strip()
        orig = 0
        for file in {e[0] for e in s["edits"]}:
            bl = sh("git -C /repo blame -s --abbrev=39 %s" % file).stdout.splitlines()
            import re
            cur = None
            for l in sh("git -C %s diff -U0 %s" % (wt, file)).stdout.splitlines():
                m = re.match(r"@@ -(\d+)(?:,(\d+))?", l)
                if m:
                    a, n = int(m.group(1)), int(m.group(2) or 1)
                    for i in range(a, a + n):
                        if bl[i - 1].startswith("^"):
                            orig += 1
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(patch)
        pkg = s.get("pkg", "server/zzdemo")
        open(out + "/demo.sh", "w").write(DEMO % {"pkg": pkg, "race": "-race " if s.get("race") else ""})
        os.chmod(out + "/demo.sh", 0o755)
        open(out + "/demo_test.go.txt", "w").write(s["demo"].lstrip())
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        b = sh(". /opt/vp/env.sh; go build ./...", cwd=wt)
        t = sh(". /opt/vp/env.sh; go test -json -vet=off -count=1 -timeout 3m ./... > ../t.json; rm -rf test memdb/test wal/test", cwd=wt)
        passed = set()
        for l in open(d + "/t.json"):
            try:
                j = json.loads(l)
            except ValueError:
                continue
            if j.get("Action") == "pass" and j.get("Test"):
                passed.add(j["Package"] + "/" + j["Test"])
        miss = [x for x in json.load(open("/opt/vp/BASELINE.json"))["stable"] if x not in passed]
        bad = sh("bash %s/demo.sh" % out, cwd=wt)
        sh("git checkout -q -- .", cwd=wt)
        good = sh("bash %s/demo.sh" % out, cwd=wt)
        ok = b.returncode == 0 and not miss and bad.returncode not in (0, 3) and good.returncode == 0 and orig > 0
        print("%-6s %s build=%d missing=%s demo clean=%d patched=%d original_lines=%d" % (s["id"], "OK" if ok else "BAD", b.returncode, miss, good.returncode, bad.returncode, orig), flush=True)
        if good.returncode:
            print(good.stdout[-1500:])
        if bad.returncode == 0 or bad.returncode == 3:
            print(bad.stdout[-800:])
        if b.returncode:
            print(b.stdout[-800:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


main()
