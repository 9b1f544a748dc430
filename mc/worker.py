"""Worker process: executes exploration tasks inside the virtual world."""
import hashlib
import importlib
import json
import mmap
import os
import re
import sys
import traceback
from multiprocessing.connection import Connection

os.environ.pop("LD_PRELOAD", None)


class Stop(Exception):
    """enough violations in this task"""


class Ctx:
    def __init__(self, mm, tier, seed):
        self.mm = mm
        self.beatn = 0
        self.tier, self.seed = tier, seed
        self.full = tier == "thorough"
        self.early = None
        self.reset()

    def reset(self):
        self.evals = 0
        self.nontrivial = 0
        self.trans = 0
        self.states = set()
        self.viol = []
        self.samples = []
        self.notes = {}
        self.max_viol = 200
        self._seen = {}
        self.traces = 0

    # journal -----------------------------------------------------------------
    def case(self, s):
        """journal the case about to be executed (str or bytes)"""
        b = s.encode("utf-8", "replace") if isinstance(s, str) else s
        n = len(b)
        if n > 32000:
            b = b[:32000]
            n = 32000
        self.beatn += 1
        mm = self.mm
        mm[16:16 + n] = b
        mm[0:12] = self.beatn.to_bytes(8, "little") + n.to_bytes(4, "little")

    def beat(self):
        self.beatn += 1
        self.mm[0:8] = self.beatn.to_bytes(8, "little")

    # counting ----------------------------------------------------------------
    def state(self, x):
        h = hash(x) if isinstance(x, (int, bytes)) else int.from_bytes(
            hashlib.blake2b(repr(x).encode(), digest_size=8).digest(), "big")
        if len(self.states) < 2_000_000:
            self.states.add(h)
        return h

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)

    def note(self, k, n=1):
        self.notes[k] = self.notes.get(k, 0) + n

    def violation(self, what, case=None, key=None):
        """what: human readable; key: stable identification of the failing input (known findings)"""
        self._seen["n"] = self._seen.get("n", 0) + 1
        k = key or re.sub(r"[0-9]+", "#", what)[:70]
        self._seen[k] = self._seen.get(k, 0) + 1
        if self._seen[k] <= 2:
            v = {"what": what, "case": case, "key": key or what}
            if self.early is not None and self._seen["n"] <= 3:
                self.early(v)
            else:
                self.viol.append(v)
        if self._seen["n"] >= self.max_viol * 50:
            raise Stop


def main():
    fd, mmfd, prop, tier, seed = (int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], sys.argv[4], int(sys.argv[5]))
    conn = Connection(fd)
    mm = mmap.mmap(mmfd, 65536)
    import vnet
    from . import usm
    usm.self_test()
    vnet.enable(1)
    vnet.seed(seed)
    from . import world
    world.mods()
    mod = importlib.import_module(f"mc.props.{prop.lower()}")
    ctx = Ctx(mm, tier, seed)
    # the first violations are reported at once: the driver may have to stop before the task ends
    ctx.early = lambda v: conn.send(("viol", v))
    conn.send(("ready", None))
    while True:
        msg = conn.recv()
        if msg is None:
            break
        ctx.reset()
        vnet.set_time(1000 * world.NS)
        vnet.poison(-1)
        vnet.on_recv(None)
        vnet.writable(1)
        vnet.seed(seed)
        w = world.wire()
        w.clear()
        w.responder = None
        err = None
        try:
            mod.run(ctx, msg)
        except Stop:
            pass
        except BaseException:
            err = traceback.format_exc()
        if vnet.cb_error():
            err = (err or "") + "\nexception inside a vnet callback (see worker log)"
        conn.send(("done", {"evals": ctx.evals, "nontrivial": ctx.nontrivial, "trans": ctx.trans,
                            "states": ctx.states, "viol": ctx.viol, "samples": ctx.samples, "notes": ctx.notes,
                            "traces": ctx.traces, "err": err}))
    os._exit(0)


if __name__ == "__main__":
    main()
