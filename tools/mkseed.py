#!/usr/bin/env python3
"""mkseed.py DIR [id...]: turn each DIR/<id>.py description into seeded/<id>/ after
confirming it in a scratch copy (builds, stable tests pass, demo 0 -> nonzero)."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0 when the behaviour is right, non-zero when it is broken
D=$(mktemp -d) || exit 3
trap 'rm -rf "$D"' EXIT
H=$(cd "$(dirname "$0")" && pwd)
gcc -O1 -w -DPARALLEL -DPARALLEL_MATCH -DPARALLEL_PRED -DPARALLEL_UPDATE -fopenmp -I/opt/vp/cmake/include -I/repo/xcsf "$H/demo.c" $(ls /repo/xcsf/*.c | grep -v '/main.c$') \\
    -ldSFMT-19937 -lcjson -lm -o "$D/demo" || exit 4
cd "$D" && OMP_NUM_THREADS=1 timeout 120 ./demo
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def main():
    d = sys.argv[1]
    ids = sys.argv[2:] or sorted(f[:-3] for f in os.listdir(d) if f.endswith(".py"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = base.get("stable") or base.get("passed") or base
    for i in ids:
        ns = {}
        exec(open(os.path.join(d, i + ".py")).read(), ns)
        out = os.path.join(V, "seeded", i)
        tmp = tempfile.mkdtemp(prefix="seed")
        demo = DEMO if "demo" in ns else ns["demo_sh"]
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(os.path.join(out, "demo.sh"), "w").write(demo)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        if "demo" in ns:
            open(os.path.join(out, "demo.c"), "w").write(ns["demo"])
        json.dump({"property": ns["property"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        st = sh("git -C /repo status --porcelain").stdout.strip()
        assert not st, "repo dirty: " + st
        r0 = sh("bash %s/demo.sh" % out, cwd="/repo")
        try:
            for f, old, new in ns["edits"]:
                p = os.path.join("/repo", f)
                t = open(p).read()
                assert t.count(old) == 1, (i, f, "matches", t.count(old))
                open(p, "w").write(t.replace(old, new))
            diff = sh("git -C /repo diff").stdout
            open(os.path.join(out, "patch.diff"), "w").write(diff)
            t = sh("bash /opt/vp/test.sh %s/o.json" % tmp)
            res = json.load(open(tmp + "/o.json"))
            bad = set(res["failed"]) & set(stable) if isinstance(stable, list) else set(res["failed"])
            gone = set(stable) - set(res["passed"]) if isinstance(stable, list) else set()
            r1 = sh("bash %s/demo.sh" % out, cwd="/repo")
        finally:
            sh("git -C /repo checkout -- .")
            shutil.rmtree(tmp, ignore_errors=True)
        ok = r0.returncode == 0 and r1.returncode != 0 and not bad and not gone
        print(i, "OK" if ok else "BAD", "demo", r0.returncode, r1.returncode, "tests", sorted(bad | gone)[:5], (r0.stdout + r0.stderr)[-300:] if r0.returncode else "", r1.stdout[-200:].strip())
        if not ok:
            shutil.rmtree(out)
    sh("bash /opt/vp/build.sh")


main()
