#!/usr/bin/env python3
"""mutate.py OUT.jsonl N [pids...]: up to N random mutants per function under contract;
each is run through check.py restricted to that function (DV_ONLY)."""
import json, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import props
OPS = [(r" < ", [" <= "]), (r" <= ", [" < "]), (r" > ", [" >= "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]),
       (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" / ", [" * "]),
       (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r" \+= ", [" -= ", " = "]), (r" -= ", [" += "]), (r" \*= ", [" = "]),
       (r"\b0\b", ["1"]), (r"\b1\b", ["0", "2"]), (r"\+\+", ["--"]), (r"\bif \((.*)\) \{", [r"if (!(\1)) {"]), (r"^(\s+)((?!return|const|double|int|bool|struct|char|break|goto)[a-zA-Z*(][^;{}]*;)$", [r"\1;"]),
       (r"\bbreak;", [";"]), (r"\bi\b", ["j"]), (r"\bj\b", ["i"]), (r"->next\b", ["->next->next"])]


def body(src, fn):
    m = re.search(r"^%s\([^;{]*\)\s*\{" % fn, src, re.M)
    if not m:
        return None
    a = src.index("{", m.start())
    e = src.index("\n}", a)
    return a, e


def mutants(src, fn):
    r = body(src, fn)
    if not r:
        return []
    a, e = r
    out = []
    pos = a
    for line in src[a:e].split("\n"):
        code = line.split("//")[0]
        if not code.strip().startswith(("#", "*", "/*")):
            for pat, reps in OPS:
                for m in re.finditer(pat, code):
                    for rp in reps:
                        new = code[:m.start()] + m.expand(rp) + code[m.end():]
                        if new != code:
                            out.append((line.strip(), new.strip(), src[:pos] + new + src[pos + len(code):]))
        pos += len(line) + 1
    return out


def main():
    outf, N = sys.argv[1], int(sys.argv[2])
    pids = sys.argv[3:] or list(props.PROPS)
    rnd = random.Random(int(os.environ.get("MSEED", "5")))
    jobs, seen = [], set()
    for pid in pids:
        P = props.PROPS[pid]
        for fn in P["funcs"] + P.get("standin", []):
            if fn in seen:
                continue
            seen.add(fn)
            for f in P["files"] + [x[:-2] + ".h" for x in P["files"]] + ["xcsf.h"]:
                p = "/repo/xcsf/" + f
                if os.path.exists(p):
                    src = open(p).read()
                    ms = mutants(src, fn)
                    if ms:
                        rnd.shuffle(ms)
                        jobs += [(pid, fn, f, m) for m in ms[:N]]
                        break
    rnd.shuffle(jobs)
    print(len(jobs), "mutants")

    def run(j):
        pid, fn, f, (old, new, text) = j
        w = tempfile.mkdtemp(prefix="mut", dir="/tmp")
        try:
            shutil.copytree("/repo/xcsf", w + "/xcsf")
            open(w + "/xcsf/" + f, "w").write(text)
            c = subprocess.run(["gcc", "-w", "-fsyntax-only", "-DPARALLEL", "-I/opt/vp/cmake/include", w + "/xcsf/" + (f if f.endswith(".c") else "clset.c")], capture_output=True)
            if c.returncode:
                return
            env = dict(os.environ, DV_REPO=w, DV_ONLY=fn, DV_JOBS="2", VERIF_EVID=w)
            try:
                r = subprocess.run(["python3-vt", V + "/check.py", pid], env=env, capture_output=True, text=True, timeout=900)
                rc, o = r.returncode, r.stdout
            except subprocess.TimeoutExpired:
                rc, o = 124, ""
            v = "caught" if rc == 1 and "no-failing" not in o else "caught-nofail" if rc == 1 else "proved" if " proved" in o.split("\n")[-2 if o.endswith("\n") else -1] else "undecided"
            m = re.search(r"^%s (\w+)" % pid, o, re.M)
            if rc == 0 and m:
                v = m.group(1)
            with open(outf, "a") as fo:
                fo.write(json.dumps(dict(pid=pid, fn=fn, old=old, new=new, v=v, rc=rc, tail=o[-500:] if v not in ("caught", "proved") else "")) + "\n")
        finally:
            shutil.rmtree(w, ignore_errors=True)
    with ThreadPoolExecutor(int(os.environ.get("MJ", "3"))) as ex:
        list(ex.map(run, jobs))


main()
