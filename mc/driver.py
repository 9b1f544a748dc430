"""Runs one property check: build, distribute tasks to workers, watch them, write evidence."""
import argparse
import importlib
import json
import mmap
import os
import re
import signal
import subprocess
import sys
import tempfile
import time
from multiprocessing.connection import Connection, wait
import socket

from . import build

HANG_S = 90
LONG_S = 420  # with a violation at hand, a run does not go on longer than this
FAIL_FAST = bool(os.environ.get("MC_FAIL_FAST"))
OUT = os.environ.get("MC_OUT", build.VERIF)


class Worker:
    def __init__(self, prop, tier, seed, info):
        self.file = tempfile.TemporaryFile()
        self.file.truncate(65536)
        self.mm = mmap.mmap(self.file.fileno(), 65536)
        a, b = socket.socketpair()
        env = build.env()
        env.update(LD_PRELOAD=os.path.join(build.BUILD, "vnet.so"),
                   PYTHONPATH=":".join([build.BUILD, os.path.join(build.BUILD, "py"), build.VERIF]),
                   PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MC_RMC=info.get("rmc_path", ""), MC_MT=info.get("mt_path", ""),
                   RUST_BACKTRACE="0")
        self.errlog = tempfile.TemporaryFile()
        self.p = subprocess.Popen(
            [build.PY, "-m", "mc.worker", str(b.fileno()), str(self.file.fileno()), prop, tier, str(seed)],
            env=env, pass_fds=(b.fileno(), self.file.fileno()), cwd=build.VERIF, stdin=subprocess.DEVNULL,
            stdout=self.errlog, stderr=self.errlog)
        b.close()
        self.conn = Connection(a.detach())
        self.task = None
        self.ready = False
        self.last = (0, time.monotonic())

    def beat(self):
        return int.from_bytes(self.mm[0:8], "little")

    def case(self):
        n = int.from_bytes(self.mm[8:12], "little")
        return bytes(self.mm[16:16 + n])

    def log_tail(self):
        try:
            self.errlog.seek(0, 2)
            n = self.errlog.tell()
            self.errlog.seek(max(0, n - 3000))
            return self.errlog.read().decode("utf-8", "replace")
        except OSError:
            return ""

    def kill(self):
        try:
            self.p.kill()
        except OSError:
            pass
        self.p.wait()
        self.conn.close()


def show_case(b):
    try:
        s = b.decode("utf-8")
        if s.isprintable():
            return s
    except UnicodeDecodeError:
        pass
    return "hex:" + b.hex()


def printable(t):
    return "".join(c if c.isprintable() else f"\\x{ord(c):02x}" for c in t)


def known_findings():
    p = os.path.join(build.VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("--task", help="only tasks whose JSON contains this text")
    ap.add_argument("--replay", help="re-run the task recorded in a replay file")
    ap.add_argument("--all-violations", action="store_true")
    args = ap.parse_args(argv)
    prop = args.prop.upper()
    t0 = time.monotonic()
    info = build.ensure()
    info["rmc_ok"] = info["rmc"]
    info["rmc_path"] = os.path.join(build.BUILD, "librmc.so") if info["rmc"] else ""
    info["mt_path"] = build.ensure_mt() if prop in ("C03", "C17") else ""
    info["mt_ok"] = bool(info["mt_path"])
    sys.path.insert(0, build.BUILD)
    meta, tasks = load_tasks(prop, args.tier, info)
    if args.replay:
        want = json.load(open(args.replay))["task"]
        tasks = [want]
    if args.task:
        tasks = [t for t in tasks if args.task in json.dumps(t)]
    n = args.jobs or min(os.cpu_count() or 1, max(1, len(tasks)))
    agg = {"evals": 0, "nontrivial": 0, "trans": 0, "traces": 0, "notes": {}, "samples": []}
    states = set()
    viols, errors = [], []
    queue = list(tasks)
    queue.reverse()
    workers = [Worker(prop, args.tier, args.seed, info) for _ in range(n)]
    known_keys = {k["key"] for k in known_findings() if k.get("property") == prop and k.get("status") == "known"}
    done = 0
    retried = {}
    stop = False
    while True:
        live = [w for w in workers if w is not None]
        if not live:
            break
        rl = wait([w.conn for w in live], timeout=1.0)
        now = time.monotonic()
        for i, w in enumerate(workers):
            if w is None:
                continue
            dead = None
            if w.conn in rl:
                try:
                    kind, r = w.conn.recv()
                    if kind == "viol":
                        r["task"] = w.task
                        viols.append(r)
                        continue
                    if kind == "done":
                        done += 1
                        for k in ("evals", "nontrivial", "trans", "traces"):
                            agg[k] += r[k]
                        for k, v in r["notes"].items():
                            agg["notes"][k] = agg["notes"].get(k, 0) + v
                        states |= r["states"]
                        if len(agg["samples"]) < 40:
                            agg["samples"] += r["samples"][:1] if agg["samples"] else r["samples"]
                        for v in r["viol"]:
                            v["task"] = w.task
                            viols.append(v)
                        if r["err"]:
                            errors.append((w.task, r["err"] + "\n--- worker log: " + w.log_tail()[-400:]))
                        w.task = None
                    w.ready = True
                    if queue and not stop:
                        w.task = queue.pop()
                        w.last = (w.beat(), now)
                        w.conn.send(w.task)
                    else:
                        try:
                            w.conn.send(None)
                        except OSError:
                            pass
                        w.p.wait()
                        workers[i] = None
                        continue
                except (EOFError, ConnectionError, OSError):
                    dead = "died"
            if dead is None and w.p.poll() is not None and w.conn not in rl:
                dead = "died"
            if dead is None and w.task is not None:
                b = w.beat()
                if b != w.last[0]:
                    w.last = (b, now)
                elif now - w.last[1] > getattr(meta, "HANG_S", HANG_S):
                    dead = "hang"
            if dead:
                w.p.poll() if dead == "hang" else w.p.wait()
                rc = w.p.returncode
                case, task = w.case(), w.task
                tail = w.log_tail()
                w.kill()
                workers[i] = None
                if dead == "hang":
                    viols.append({"what": "the call never returned (no progress for %d s)" % HANG_S,
                                  "case": show_case(case), "key": "hang", "task": task})
                elif rc is not None and rc < 0 and -rc not in (signal.SIGKILL, signal.SIGTERM, signal.SIGINT):
                    viols.append({"what": f"process died with signal {-rc} ({signal.Signals(-rc).name})",
                                  "case": show_case(case), "key": "abort", "task": task})
                else:
                    k = json.dumps(task)
                    retried[k] = retried.get(k, 0) + 1
                    if retried[k] > 2 or task is None:
                        errors.append((task, f"worker ended unexpectedly (rc={rc})\n{tail}"))
                    else:
                        queue.append(task)
                if queue and not stop:
                    workers[i] = Worker(prop, args.tier, args.seed, info)
        if len(viols) >= 60 and not args.all_violations:
            stop = True
        if (viols and not args.all_violations and (FAIL_FAST or now - t0 > LONG_S)
                and any(v["key"] not in known_keys for v in viols)):
            # there is an answer: do not let slow executions of a broken client delay it
            stop = True
            for i, w in enumerate(workers):
                if w is not None:
                    w.kill()
                    workers[i] = None
    wall = time.monotonic() - t0
    # ---- known findings -----------------------------------------------------
    known = [k for k in known_findings() if k.get("property") == prop and k.get("status") == "known"]
    fresh, hit = [], {}
    for v in viols:
        m = next((k for k in known if k["key"] == v["key"]), None)
        if m:
            hit.setdefault(m["key"], m)
        else:
            fresh.append(v)
    for m in hit.values():
        print(f"KNOWN-FINDING: property={prop} {m['what']}")
    rdir = os.path.join(OUT, "replays")
    seen = set()
    shown = 0
    for v in fresh:
        k = re.sub(r"[0-9]+|0x[0-9a-f]+", "#", v["what"])[:70]
        if k in seen and not args.all_violations:
            continue
        seen.add(k)
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{prop}-{shown:03d}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, **v}, f, indent=1, default=repr)
        print(f"VIOLATION property={prop} replay={path}")
        print("   ", printable(v["what"]), "| case:", printable(str(v["case"])[:400]))
        shown += 1
        if shown >= 30:
            break
    for t, e in errors[:5]:
        print("CHECK-ERROR", json.dumps(t)[:300], "\n", e[:2500], file=sys.stderr)
    # ---- evidence -----------------------------------------------------------
    level = meta.LEVEL
    samples = agg["samples"]
    if len(samples) > 8:
        step = len(samples) / 8
        samples = [samples[int(i * step)] for i in range(8)]
    cov = {"evaluations": agg["evals"], "distinct_nontrivial": agg["nontrivial"], "rule": meta.RULE,
           "samples": samples}
    # counts this run did not measure are left out rather than repeated under another name
    if states:
        cov["states"] = len(states)
    if agg["trans"]:
        cov["transitions"] = agg["trans"]
    if agg["traces"]:
        cov["traces_validated_against_impl"] = agg["traces"]
    if level == "model_checking":
        for k in ("states", "transitions", "traces_validated_against_impl"):
            cov.setdefault(k, 0)
    cov.update({
        "exhaustive": not (stop or errors or args.task or args.replay), "tasks": done,
        "bounds": meta.BOUNDS[args.tier] if isinstance(meta.BOUNDS, dict) else meta.BOUNDS,
        "binding": "every explored execution ran the compiled extension built from /repo's working tree; "
                   "model predictions were compared with the implementation on each of them",
        "counters": agg["notes"], "rmc_harness": info["rmc"], "source_sha256": info["source_sha256"]})
    ev = {"property": prop, "tier": args.tier, "seed": args.seed, "level": level, "coverage": cov,
          "assumptions": meta.ASSUMPTIONS, "wall_s": round(wall, 2), "violations": len(fresh)}
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    print(f"{prop} {args.tier}: {agg['evals']} executions, {len(states)} states, {agg['trans']} transitions, "
          f"{done}/{len(tasks)} tasks, {len(fresh)} violations, {len(errors)} errors, {wall:.1f}s "
          f"{json.dumps(agg['notes'])[:600]}")
    if fresh:
        return 1
    if errors:
        return 2
    return 0


def load_tasks(prop, tier, info):
    """tasks are produced by the property module, which must be importable without vnet"""
    m = importlib.import_module(f"mc.props.{prop.lower()}")
    return m, m.tasks(tier, info)


if __name__ == "__main__":
    sys.exit(main())
