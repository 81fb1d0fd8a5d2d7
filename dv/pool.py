"""Fork one process per task; survive crashes, time-outs and memory limits."""
import os
import pickle
import resource
import select
import signal
import time


def run(tasks, fn, workers=8, cap=120.0, deadline=None, mem_gb=3.5, on_done=None):
    """tasks: list of keys; fn(key) -> picklable. -> {key: ('ok',res)|('timeout',None)|('crash',msg)}"""
    pending = list(tasks)
    live = {}
    out = {}
    while pending or live:
        now = time.time()
        while pending and len(live) < workers:
            if deadline is not None and now > deadline:
                for k in pending:
                    out[k] = ("timeout", None)
                pending = []
                break
            k = pending.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    os.setpgid(0, 0)
                    lim = int(mem_gb * (1 << 30))
                    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
                    dn = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(dn, 2)
                    data = pickle.dumps(fn(k))
                    with os.fdopen(w, "wb") as f:
                        f.write(data)
                    os._exit(0)
                except BaseException as e:
                    try:
                        os.write(w, pickle.dumps(("__exc__", "%s: %s" % (type(e).__name__, e))))
                    except Exception:
                        pass
                    os._exit(1)
            os.close(w)
            live[r] = (k, pid, time.time(), [])
        if not live:
            continue
        rs, _, _ = select.select(list(live), [], [], 0.2)
        for r in rs:
            d = os.read(r, 1 << 16)
            if d:
                live[r][3].append(d)
                continue
            k, pid, t0, buf = live.pop(r)
            os.close(r)
            os.waitpid(pid, 0)
            try:
                res = pickle.loads(b"".join(buf))
                if isinstance(res, tuple) and len(res) == 2 and res[0] == "__exc__":
                    out[k] = ("crash", res[1])
                else:
                    out[k] = ("ok", res)
            except Exception as e:
                out[k] = ("crash", "solver process ended without an answer")
            if on_done:
                on_done(k, out[k])
        now = time.time()
        for r in list(live):
            k, pid, t0, buf = live[r]
            if now - t0 > cap or (deadline is not None and now > deadline):
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
                os.waitpid(pid, 0)
                os.close(r)
                live.pop(r)
                out[k] = ("timeout", None)
                if on_done:
                    on_done(k, out[k])
    return out


def pmap(fn, items, workers=8):
    """fn(item) -> picklable, over forked helpers of the current process; a helper that dies yields None"""
    items = list(items)
    n = min(workers, len(items))
    if n <= 1:
        return [fn(x) for x in items]
    out = [None] * len(items)
    kids = []
    for w in range(n):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                res = [(i, fn(items[i])) for i in range(w, len(items), n)]
                with os.fdopen(wr, "wb") as f:
                    f.write(pickle.dumps(res))
            finally:
                os._exit(0)
        os.close(wr)
        kids.append((pid, r))
    for pid, r in kids:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        try:
            for i, v in pickle.loads(data):
                out[i] = v
        except Exception:
            pass
    return out
