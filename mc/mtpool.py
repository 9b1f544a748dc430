"""The buffer pool under every interleaving of its synchronisation operations (rust/mt, shuttle's exhaustive scheduler)."""
import os
import subprocess
import sys

# one word per thread; s/S: build a request (pausing), t: without a pause, r/R: receive, n: receive while building
QUICK = ["s s", "S s", "s r", "r r", "R s", "t tt", "st r", "rs s", "n t", "n s", "tt tt", "tr t", "ts st", "t t t"]
FULL = QUICK + ["r t t", "s t t", "n r", "n n", "nt t", "ss rr", "sr rs", "ttt tt", "ttt ttt", "rS Rs"]
CODE = """
import ctypes, sys, threading
l = ctypes.CDLL(sys.argv[1]); l.mt_run.restype = ctypes.c_void_p; l.mt_run.argtypes = [ctypes.c_char_p, ctypes.c_size_t]
r = []
t = threading.Thread(target=lambda: r.append(l.mt_run(sys.argv[2].encode(), int(sys.argv[3]))), daemon=True)
t.start()
while t.is_alive():
    print("running", flush=True)
    t.join(1)
print("RESULT", ctypes.string_at(r[0]).decode(errors="replace"), flush=True)
"""


def tasks(info, full):
    return [dict(k="threads", prog=p, full=full) for p in (FULL if full else QUICK)] if info.get("mt_ok") else []


def run(ctx, task):
    prog = task["prog"]
    ctx.case(f"pool threads {prog}")
    e = dict(os.environ)
    e.pop("LD_PRELOAD", None)
    # (the worker's clock is virtual: the time limit is kept by timeout(1))
    p = subprocess.Popen(["timeout", "-k", "5", "1200" if task["full"] else "100", sys.executable, "-c", CODE,
                          os.environ["MC_MT"], prog, "20000000"], env=e, stdout=subprocess.PIPE,
                         stderr=subprocess.DEVNULL, text=True)
    out = []
    for x in p.stdout:
        ctx.case(f"pool threads {prog}")
        if x.startswith("RESULT "):
            out.append(x.strip())
    p.wait()
    if not out:
        ctx.note("pool threads: not decided")
        ctx.sample(f"pool threads {prog}: not decided ({p.returncode})")
        return
    _, verdict, n, rest = out[0].split(" ", 3)
    n = int(n)
    ctx.evals += n
    ctx.traces += n
    ctx.nontrivial += n
    ctx.state(("pool", prog))
    if verdict == "ok":
        ctx.sample(f"pool threads {prog}: {n} interleavings, {'all' if rest == '1' else 'not all'} of them")
        return
    if "MC:" in rest or "deadlock" in rest or "mtshim/src" in rest or "/src/buf/" in rest:
        ctx.violation(f"buffer pool with several threads: {rest[:150]}", f"threads {prog}, interleaving {n}: {rest}",
                      key=f"pool {prog}")
    else:
        ctx.note("pool threads: not decided")
