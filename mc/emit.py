"""Explorations of everything a session can emit, shared by the properties about outgoing messages (C09, C11, C14).

`check(rec, q, st)` judges one strictly parsed datagram; st is a per-session dictionary."""
import itertools

from .props.c03 import One, get_cfg as _get_cfg

BOUNDARY = [0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 8388607, 8388608, 16777215, 16777216, 2147483646, 2147483647]


def get_cfg(name):
    """name | disc:auth:priv | kt:auth:priv:authkeytype:privkeytype:given"""
    if name.startswith("kt:"):
        from .world import v3
        _, a, p, ak, pk, g = name.split(":")
        return v3(a or None, p or None, akt=ak, pkt=pk, given=g == "1")
    return _get_cfg(name)


def tasks(tier, levels, hist_depth=2, deep=(), contents=False):
    """levels: [(auth, priv)]"""
    full = tier == "thorough"
    t = []
    for a, p in levels:
        a, p = a or "", p or ""
        for g in ("1", "0"):
            for kind in ("sync", "async"):
                c = f"kt:{a}:{p}:localized:localized:{g}"
                d = hist_depth
                if full or ((a, p) in deep and kind == "sync" and g == "1"):
                    d += 1
                parts = 12 if d == 3 else 1
                for i in range(parts):
                    t.append(dict(k="hist", cfg=c, kind=kind, depth=d, part=i, parts=parts))
                t.append(dict(k="boots", cfg=c, kind=kind))
        for ak in ("password", "master", "localized"):
            for pk in ("password", "master", "localized") if p else ("localized",):
                for g in ("1", "0"):
                    if (ak, pk) != ("localized", "localized"):
                        t.append(dict(k="keys", cfg=f"kt:{a}:{p}:{ak}:{pk}:{g}"))
        c = f"kt:{a}:{p}:localized:localized:1"
        for kind in ("sync", "async"):
            t.append(dict(k="sizes", cfg=c, kind=kind, full=full))
        for i in range(2):
            t.append(dict(k="layout", auth=a, priv=p, full=full, part=i, parts=2))
        if contents:
            for kind in ("sync", "async"):
                t.append(dict(k="contents", auth=a, priv=p, kind=kind))
        if p:
            t.append(dict(k="rng", cfg=c))
            t.append(dict(k="long", cfg=c, n=20000 if full else 2500))
        if (a, p) in deep or not p:
            t.append(dict(k="long", cfg=c, n=67000, kinds=["sync"]))
    return t


def run(ctx, task, check):
    globals()["run_" + task["k"]](ctx, task, check)


def run_hist(ctx, task, check):
    from . import hist
    cfg = get_cfg(task["cfg"])
    hist.explore(ctx, cfg, task["kind"], task["depth"], check, task["part"], task["parts"])
    ctx.sample(f"{task['cfg']} {task['kind']}: all histories of length {task['depth']} over {len(hist.actions(cfg))} actions")


def run_keys(ctx, task, check):
    """key types: short histories from every starting action"""
    from . import hist
    cfg = get_cfg(task["cfg"])
    acts = hist.actions(cfg)
    hs = [(a,) for a in acts] + [(a, "get") for a in acts] + [("tick", a, "get") for a in acts]
    for kind in ("sync", "async"):
        hist.explore(ctx, cfg, kind, 1, check, hs=hs)
    ctx.sample(f"{task['cfg']}: {len(hs)} histories, sync and async")


def run_sizes(ctx, task, check):
    """every request size up to and beyond the buffer"""
    from . import ber
    cfg = get_cfg(task["cfg"])
    o1 = One(ctx, cfg, task["kind"], check=check)
    T = ber.oid_text
    base = (1, 3, 6, 1, 4, 1)
    for n in range(0, 4110):
        o = base + (7,) * n
        o1.call(f"len {n}", "get", ber.GET, [o], oid=T(o), must=n < 3700)
        if n < 420 or task["full"]:
            o1.call(f"len {n} next", "getnext", ber.GETNEXT, [o], base=T(o), must=n < 3700)
            o1.call(f"len {n} bulk", "getbulk", ber.GETBULK, [o], 0, 20, base=T(o), must=n < 3700)
    for k in range(0, 400, 1 if task["full"] else 3):
        l = [base + (128 + i,) for i in range(k)]
        o1.call(f"{k} oids", "get_many", ber.GET, l, oids=[T(x) for x in l], must=k < 180)
    ctx.sample(f"{task['cfg']} {task['kind']}: every request size up to 4100 octets of OID")


def run_layout(ctx, task, check):
    """engine id x user name x request size: every length form at every nesting level"""
    from .world import v3
    from . import ber
    T = ber.oid_text
    n = 0
    users = list(range(1, 140 if task["full"] else 60)) + [90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 120, 127, 128, 129, 200, 255, 256]
    for eng in list(range(1, 33)) + [40, 64]:
        for u in users:
            n += 1
            if n % task["parts"] != task["part"]:
                continue
            if eng not in (1, 5, 9, 17, 32) and u % 5:
                continue
            cfg = v3(task["auth"] or None, task["priv"] or None, user="u" * u, engine=bytes((0x80 + i * 7) & 0xFF for i in range(eng)))
            o1 = One(ctx, cfg, check=check)
            for k in (0, 3, 40, 60, 100, 150):
                o = (1, 3, 6, 1, 4, 1) + (9,) * (k + (u + eng) % 16)
                o1.call(f"engine {eng} user {u} len {len(o)}", "get", ber.GET, [o], oid=T(o))
    ctx.sample(f"{task['auth']}/{task['priv']}: engine id 1..64 octets x user 1..256 octets x sizes")


def run_boots(ctx, task, check):
    """requests carry and use whatever boots/time the agent last sent"""
    from . import hist, world
    cfg = get_cfg(task["cfg"])
    kind = task["kind"]
    for b, t in itertools.product(BOUNDARY, repeat=2):
        ctx.case(f"{task['cfg']} {kind} boots={b} time={t}")
        env = hist.Env(cfg, kind)
        env.agent.boots, env.agent.time = b, t
        hist.run_history(ctx, env, ("get", "many", "next"), check)
        ctx.evals += 1
        ctx.traces += 1
        ctx.state((task["cfg"], kind, b, t))
    ctx.sample(f"{task['cfg']} {kind}: {len(BOUNDARY)}^2 boots/time values")


def run_rng(ctx, task, check):
    """initial salts, including the ones next to wrap-around"""
    from . import ber
    import vnet
    cfg = get_cfg(task["cfg"])
    seeds = set()
    for k in range(0, 64):
        for d in range(-3, 2):
            seeds.add(((1 << k) + d) & ((1 << 64) - 1))
    seeds |= {(1 << 64) - i for i in range(1, 5)} | {(x << 32) | 0xFFFFFFFE for x in (0, 1, 0xFFFFFFFF, 0x7FFFFFFF)}
    for s in sorted(seeds):
        vnet.script_random(s.to_bytes(8, "little"))
        o1 = One(ctx, cfg, check=check)
        o1.st["seed"] = s
        vnet.script_random(b"")
        for i in range(5):
            o1.call(f"seed {s:#x} #{i}", "get", ber.GET, [(1, 3, 6, 1, 4, 1, i)], oid=f"1.3.6.1.4.1.{i}")
        ctx.note("wraps", o1.st.get("wraps", 0))
    ctx.sample(f"{task['cfg']}: {len(seeds)} scripted initial salts x 5 messages")


def run_long(ctx, task, check):
    from . import ber
    cfg = get_cfg(task["cfg"])
    for kind in task.get("kinds", ("sync", "async")):
        o1 = One(ctx, cfg, kind, check=check)
        for i in range(task["n"]):
            op = ("get", "getnext", "getbulk", "get_many")[i % 4]
            o = (1, 3, 6, 1, 4, 1, i)
            tag, f2, kw = {"get": (ber.GET, 0, dict(oid=ber.oid_text(o))), "getnext": (ber.GETNEXT, 0, dict(base=ber.oid_text(o))),
                           "getbulk": (ber.GETBULK, 20, dict(base=ber.oid_text(o))),
                           "get_many": (ber.GET, 0, dict(oids=[ber.oid_text(o)]))}[op]
            o1.call(f"message {i}", op, tag, [o], 0, f2, **kw)
    ctx.sample(f"{task['cfg']}: {task['n']} consecutive messages of one session")


PH = b"\x04\x0c" + bytes(12)
PATTERNS = [b"u", bytes(12), bytes(13), bytes(25), PH, b"\x04\x0c" + bytes(11), PH + b"\x04\x08", PH[:-1] + b"\x01" + PH, b"\x30\x0e" + PH,
            b"\x04\x00", b"\x04\x00\x04\x00", b"\x04\x08" + bytes(8), b"\x30\x00" * 6, b"\x01" * 12]


def run_contents(ctx, task, check):
    """names, engine ids and OIDs which look like other parts of a message"""
    from .world import v3
    from . import ber
    n = 0
    for u in PATTERNS:
        for e in PATTERNS:
            cfg = v3(task["auth"] or None, task["priv"] or None, user=u.decode(), engine=e)
            o1 = One(ctx, cfg, task["kind"], check=check)
            for x in PATTERNS:
                o = (1, 3, 6, 1, 4, 1) + tuple(x)
                o1.call(f"user {u.hex()} engine {e.hex()} arcs {x.hex()}", "get", ber.GET, [o], oid=ber.oid_text(o))
                n += 1
            o = (1, 3) + tuple(PATTERNS[4])
            o1.call(f"user {u.hex()} engine {e.hex()} several", "get_many", ber.GET, [o, o, o], oids=[ber.oid_text(o)] * 3)
    ctx.sample(f"{task['auth']}/{task['priv']} {task['kind']}: {n} combinations of contents which resemble placeholders and headers")
