"""Compile the tree under check plus one replay driver in a scratch directory."""
import glob, os, subprocess, sys, concurrent.futures as cf
REPO = os.environ.get("DV_REPO", "/repo")
FL = ["-O1", "-g", "-w", "-fopenmp", "-DPARALLEL", "-DPARALLEL_MATCH", "-DPARALLEL_PRED", "-DPARALLEL_UPDATE",
      "-fsanitize=address", "-fno-omit-frame-pointer", "-I/opt/vp/cmake/include", "-I" + os.path.join(REPO, "xcsf")]


def cc(job):
    r = subprocess.run(job, capture_output=True, text=True)
    return r.returncode, r.stderr


def library(d):
    jobs, objs = [], []
    for f in sorted(glob.glob(os.path.join(REPO, "xcsf", "*.c"))):
        if os.path.basename(f) == "main.c":
            continue
        o = os.path.join(d, os.path.basename(f)[:-2] + ".o")
        objs.append(o)
        jobs.append(["gcc"] + FL + ["-c", f, "-o", o])
    with cf.ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(cc, jobs))
    bad = [r[1] for r in rs if r[0]]
    return objs, bad


def driver(d, objs, src, out):
    here = os.path.dirname(os.path.abspath(__file__))
    first = open(src).readline()
    wrap = ["-Wl,--wrap=" + w for w in first.split("WRAP:")[1].replace("*/", "").split()] if "WRAP:" in first else []
    rc, err = cc(["gcc"] + FL + ["-I" + here, src] + objs + wrap + ["-ldSFMT-19937", "-lcjson", "-lm", "-o", out])
    return rc == 0, err


if __name__ == "__main__":
    import tempfile, shutil, time
    d = tempfile.mkdtemp(prefix="dvn")
    t = time.time()
    objs, bad = library(d)
    print("lib", time.time() - t, bad[:1])
    here = os.path.dirname(os.path.abspath(__file__))
    secs = "3"
    for a in sys.argv[1:]:
        ok, err = driver(d, objs, os.path.join(here, a + ".c"), os.path.join(d, a))
        if not ok:
            print(err[:3000]); continue
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0", OMP_NUM_THREADS="1")
        r = subprocess.run([os.path.join(d, a), os.environ.get("SEED", "1"), secs], capture_output=True, text=True, env=env, cwd=d)
        print(a, r.returncode, r.stdout[-600:], r.stderr[-1500:])
    shutil.rmtree(d)
