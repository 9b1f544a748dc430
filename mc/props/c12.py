"""C12 - USM keys are derived exactly as RFC 3414 A.2 prescribes."""
LEVEL = "exploration"
RULE = ("one execution = one derivation, one session emitting a message under derived keys, or one refused key; nontrivial = "
        "derivations compared with hashlib and keys verified through the MAC / ciphertext of an emitted message")
BOUNDS = {
    "quick": "passwords: every length 1..1100, around every power of two up to 2^21, every single octet, all strings of 2-3 "
             "octets over 6 symbols; engine ids of 0..70 octets; algorithm codes 0..255 x key sizes 0..64; "
             "every octet at either end of a password, master key and localized key; 9 key type pairs x digest x cipher x constructor / set_keys / sync / async session x engine id size",
    "thorough": "passwords of every length 1..8300, all 2-octet passwords, engine ids 0..300, key sizes 0..300",
}
ASSUMPTIONS = [
    "hashlib of the Python runtime is correct (self-tested against RFC 3414 A.3)",
    "an algorithm code is a known one when its low 6 bits are (the upper 2 bits are the key type): codes with key type bits "
    "given to the derivation functions, and code 0 (no authentication), may be refused or ignored",
    "master / localized keys of the Python key classes are padded or truncated as documented before they reach the library",
    "a localized privacy key which is longer than the cipher needs is cut (RFC 3414 8.1.1.1, RFC 3826 1.2.1)",
]
KS = {1: 16, 2: 20}
NAME = {1: "md5", 2: "sha"}
PNAME = {0: None, 1: "des", 2: "aes"}


def tasks(tier, info):
    full = tier == "thorough"
    t = []
    top = 8300 if full else 1100
    n = 32 if full else 8
    for i in range(n):
        t.append(dict(k="pwlen", part=i, parts=n, top=top))
    t.append(dict(k="pwedge", full=full))
    for i in range(256 if full else 8):
        t.append(dict(k="pwchars", part=i, parts=256 if full else 8, full=full))
    t.append(dict(k="engines", top=300 if full else 70))
    for i in range(4):
        t.append(dict(k="codes", part=i, parts=4, top=300 if full else 64))
    for a in (1, 2):
        for p in (0, 1, 2):
            for how in ("new", "set", "adopt"):
                t.append(dict(k="socket", auth=a, priv=p, how=how, top=300 if full else 70))
            t.append(dict(k="wrong", auth=a, priv=p, top=300 if full else 64))
            for kind in ("sync", "async"):
                t.append(dict(k="session", auth=a, priv=p, kind=kind, full=full))
    t.append(dict(k="sessref"))
    for i in range(8):
        t.append(dict(k="edges", part=i, parts=8, full=full))
    return t


def run(ctx, task):
    globals()["run_" + task["k"]](ctx, task)


def derive(ctx, fn, alg, pw, label):
    from .. import usm, world
    ctx.case(label)
    ctx.evals += 1
    r = world.outcome(fn, pw)
    if r != ("ok", usm.master_key.__wrapped__(NAME[alg], pw)):
        ctx.violation(f"password to key ({NAME[alg]}, {len(pw)} octets): {world.show(r)[:120]}", label)
    ctx.nontrivial += 1


def fns():
    from .. import world
    m = world.mods()
    return [(1, m.user.Md5Key.get_master_key), (2, m.user.Sha1Key.get_master_key)]


def pattern(n, seed=0):
    return bytes((i * 7 + (i >> 8) * 13 + seed) & 0xFF for i in range(n))


def run_pwlen(ctx, task):
    for n in range(1 + task["part"], task["top"] + 1, task["parts"]):
        for alg, fn in fns():
            derive(ctx, fn, alg, pattern(n, n), f"password of {n} octets")
        ctx.state(("pwlen", n))
    ctx.sample(f"every password length 1..{task['top']} (part {task['part']})")


def run_pwedge(ctx, task):
    ns = set()
    for k in range(3, 22):
        for d in range(-2, 3):
            ns.add((1 << k) + d)
    for d in (3, 5, 6, 7, 9, 10, 11, 12, 13, 15, 17):
        ns |= {(1 << 20) // d + x for x in (-1, 0, 1)}
    ns |= {(1 << 20) * 2 + x for x in (-1, 0, 1)} | {3000000}
    for n in sorted(x for x in ns if x > 0):
        for alg, fn in fns():
            derive(ctx, fn, alg, pattern(n, 3), f"password of {n} octets")
            if task["full"]:
                derive(ctx, fn, alg, bytes(n), f"password of {n} zero octets")
        ctx.state(("edge", n))
    ctx.sample("password lengths around powers of two and divisors of 2^20")


def run_pwchars(ctx, task):
    import itertools
    part, parts = task["part"], task["parts"]
    l = [bytes((i,)) for i in range(256)]
    if task["full"]:
        l += [bytes(x) for x in itertools.product(range(256), repeat=2)]
    else:
        sym = (0, 1, 0x41, 0x7F, 0x80, 0xFF)
        l += [bytes(x) for k in (2, 3) for x in itertools.product(sym, repeat=k)]
    for pw in l[part::parts]:
        for alg, fn in fns():
            derive(ctx, fn, alg, pw, f"password {pw.hex()}")
        ctx.state(pw)
    ctx.sample(f"{len(l[part::parts])} short passwords")


def engines(top):
    for n in range(0, top + 1):
        yield pattern(n, n)
        yield bytes(n)
        yield b"\xff" * n
        for i in range(min(n, 16)):
            yield bytes(1 if j == i else 0 for j in range(n))


def run_engines(ctx, task):
    from .. import usm, world
    m = world.mods()
    for alg, cls in ((1, m.user.Md5Key), (2, m.user.Sha1Key)):
        keys = [pattern(KS[alg]), bytes(KS[alg]), b"\xff" * KS[alg], usm.master_key(NAME[alg], b"maplesyrup")]
        for key in keys:
            for e in engines(task["top"]):
                ctx.case(f"localize {NAME[alg]} {key.hex()} engine {e.hex()}")
                ctx.evals += 1
                r = world.outcome(cls.get_localized_key, key, e)
                if r != ("ok", usm.localize.__wrapped__(NAME[alg], key, e)):
                    ctx.violation(f"key localization ({NAME[alg]}, engine id of {len(e)} octets): {world.show(r)[:120]}", e.hex())
                ctx.nontrivial += 1
                ctx.state(("loc", alg, key, e))
    ctx.sample(f"engine ids of 0..{task['top']} octets x 4 keys x 2 digests")


def refused(ctx, r, what, case, key=None):
    """the outcome must be an ordinary exception"""
    from .. import world
    ctx.evals += 1
    if r[0] == "ok":
        ctx.violation(f"{what} is accepted", case, key)
    elif world.is_panic(r[1]):
        ctx.violation(f"{what} crashes: {world.show(r)[:120]}", case, key)
    else:
        ctx.nontrivial += 1


def no_crash(ctx, r, what, case):
    from .. import world
    ctx.evals += 1
    if r[0] == "exc" and world.is_panic(r[1]):
        ctx.violation(f"{what} crashes: {world.show(r)[:120]}", case)


def run_codes(ctx, task):
    """every algorithm code x every key size, through the derivation functions, the constructor and set_keys"""
    from .. import usm, world
    m = world.mods()
    f = m.fast
    sizes = list(range(0, task["top"] + 1)) + [1000]
    ok = f.SnmpV3ClientSocket("127.0.0.1:161", b"engine", "u", 0, b"", 0, b"", 0, 0, 0, 0)
    for code in range(task["part"], 256, task["parts"]):
        low = code & 0x3F
        ctx.beat()
        for n in (0, 1, 8, 16, 20, 64):
            c = f"get_master_key({code}, {n} octets)"
            ctx.case(c)
            r = world.outcome(f.get_master_key, code, pattern(n))
            if low not in (0, 1, 2):
                refused(ctx, r, f"unknown algorithm code {code}", c)
            elif low and n == 0:
                refused(ctx, r, "an empty password", c)
            elif code in KS:
                if r != ("ok", usm.master_key(NAME[code], pattern(n))):
                    ctx.violation(f"password to key ({NAME[code]}): {world.show(r)[:120]}", c)
                ctx.evals += 1
            else:
                no_crash(ctx, r, f"algorithm code {code}", c)
                if r[0] == "ok" and low and r[1] != usm.master_key(NAME[low], pattern(n)):
                    ctx.violation(f"password to key (code {code}): {world.show(r)[:120]}", c)
        for n in sizes:
            c = f"get_localized_key({code}, {n} octets)"
            ctx.case(c)
            key = pattern(n)
            r = world.outcome(f.get_localized_key, code, key, b"engine")
            if low not in (0, 1, 2):
                refused(ctx, r, f"unknown algorithm code {code}", c)
            elif low and n != KS[low]:
                refused(ctx, r, f"a master key of {n} octets ({NAME[low]})", c)
            elif code in KS:
                if r != ("ok", usm.localize(NAME[code], key, b"engine")):
                    ctx.violation(f"key localization ({NAME[code]}): {world.show(r)[:120]}", c)
                ctx.evals += 1
            else:
                no_crash(ctx, r, f"algorithm code {code}", c)
                if r[0] == "ok" and low and r[1] != usm.localize(NAME[low], key, b"engine"):
                    ctx.violation(f"key localization (code {code}): {world.show(r)[:120]}", c)
        # authentication code of a socket
        for n in (0, 1, 8, 16, 20, 64):
            for via in ("new", "set"):
                for as_priv in (False, True):
                    for a in (1, 2) if as_priv else (0,):
                        if as_priv:
                            args = ("u", 0x80 | a, pattern(KS[a]), code, pattern(n))
                            bad = low not in (0, 1, 2)
                            kt, ks, use = code >> 6, KS[a], low != 0
                        else:
                            args = ("u", code, pattern(n), 0, b"")
                            bad = low not in (0, 1, 2)
                            kt, ks, use = code >> 6, KS.get(low, 0), low != 0
                        c = f"{via} {args!r}"
                        ctx.case(c)
                        if via == "new":
                            r = world.outcome(f.SnmpV3ClientSocket, "127.0.0.1:161", b"engine", *args, 0, 0, 0, 0)
                        else:
                            r = world.outcome(ok.set_keys, *args)
                        what = "privacy" if as_priv else "authentication"
                        if bad:
                            refused(ctx, r, f"unknown {what} algorithm code {code}", c)
                        elif use and kt == 3:
                            refused(ctx, r, f"unknown key type in {what} code {code}", c)
                        elif use and kt == 0 and n == 0:
                            refused(ctx, r, f"an empty {what} password", c)
                        elif use and kt and n != ks and not (as_priv and kt == 2 and n >= 16):
                            refused(ctx, r, f"a wrong size {what} key ({n} octets for {NAME[args[1] & 3]})", c)
                        elif not use:
                            no_crash(ctx, r, f"{what} code {code}", c)
                        else:
                            ctx.evals += 1
                            if r[0] != "ok" and not (as_priv and n != ks and kt == 2):
                                ctx.violation(f"valid {what} key refused: {world.show(r)[:120]}", c)
        ctx.state(("code", code))
    ctx.sample(f"algorithm codes {task['part']}, +{task['parts']}.. x key sizes 0..{task['top']}")


def material(alg, kt, pw, engine):
    from .. import usm
    if kt == 0:
        return pw
    m = usm.master_key(NAME[alg], pw)
    return m if kt == 1 else usm.localize(NAME[alg], m, engine)


def localized(alg, pw, engine):
    from .. import usm
    return usm.localize(NAME[alg], usm.master_key(NAME[alg], pw), engine)


def verify(ctx, alg, priv, akey, pkey, engine, raw, user, c):
    """the emitted message is signed and encrypted under exactly these keys"""
    from .. import world, ber
    cfg = world.v3(NAME[alg], PNAME[priv])
    try:
        q = world.parse_request(raw, cfg, pkey)
    except ber.BerError as e:
        ctx.violation(f"the message is not encrypted under the derived privacy key: {e}", c)
        return
    ctx.nontrivial += 1
    if q.engine != engine or q.user != user.encode():
        ctx.violation(f"engine id or user name of the message: {q.engine.hex()} {q.user!r}", c)
    elif not world.mac_ok(q, NAME[alg], akey):
        ctx.violation("the message is not signed under the derived key", c)
    elif bool(priv) != q.encrypted or (priv and q.oids != [(1, 3, 6, 1, 4, 1, 5)]):
        ctx.violation("the message does not decrypt to the request under the derived privacy key", c)


def run_socket(ctx, task):
    """keys as used by a socket: constructor, set_keys, set_keys after the engine id was learned"""
    from .. import world, usm
    import vnet
    f = world.mods().fast
    alg, priv, how = task["auth"], task["priv"], task["how"]
    w = world.wire()
    empty = world.v3(given=False)
    for n in range(1 if how == "adopt" else 0, task["top"] + 1):
        engine = pattern(n, 0x80)
        for akt in (0, 1, 2):
            for pkt in (0, 1, 2) if priv else (0,):
                apw, ppw = pattern(8 + (n + akt) % 5, 33), pattern(9 + (n + pkt) % 7, 65)
                keys = (alg | akt << 6, material(alg, akt, apw, engine), priv | pkt << 6 if priv else 0,
                        material(alg, pkt, ppw, engine) if priv else b"")
                c = f"{how} {NAME[alg]} {PNAME[priv]} key types {akt}/{pkt} engine id {engine.hex()}"
                ctx.case(c)
                ctx.evals += 1
                w.clear()
                if how == "new":
                    r = world.outcome(f.SnmpV3ClientSocket, "127.0.0.1:161", engine, "user", *keys, 0, 0, 0, 0)
                    s = r[1]
                else:
                    s = f.SnmpV3ClientSocket("127.0.0.1:161", engine if how == "set" else b"", "", 0, b"", 0, b"", 0, 0, 0, 0)
                    if how == "adopt":
                        s.send_refresh()
                        q = world.parse_request(w.sent[-1])
                        vnet.inject(s.get_fd(), world.report(empty, q, engine=engine, req_id=q.req_id))
                        s.recv_refresh()
                        if s.get_engine_id() != engine:
                            ctx.violation(f"engine id of {n} octets not learned", c)
                            continue
                    else:
                        # keys are replaced, not mixed
                        s.set_keys("other", 0x80 | 3 - alg, pattern(KS[3 - alg], 9), 0x80 | 2, pattern(KS[3 - alg], 11))
                    r = world.outcome(s.set_keys, "user", *keys)
                if r[0] != "ok":
                    ctx.violation(f"valid keys are refused: {world.show(r)[:120]}", c)
                    continue
                w.clear()
                s.send_get("1.3.6.1.4.1.5")
                verify(ctx, alg, priv, localized(alg, apw, engine), localized(alg, ppw, engine) if priv else None, engine,
                       w.sent[-1], "user", c)
                ctx.state((alg, priv, how, n, akt, pkt))
                del s
    ctx.sample(f"{NAME[alg]}/{PNAME[priv]} {how}: engine ids up to {task['top']} octets x key types")


def run_wrong(ctx, task):
    """wrong size key material in every place: refused, and whatever stays in use is a previous key"""
    from .. import world, usm
    f = world.mods().fast
    alg, priv = task["auth"], task["priv"]
    engine = b"\x80\x00\x01engine"
    w = world.wire()
    good = (0x80 | alg, pattern(KS[alg], 1), (0x80 | priv) if priv else 0, pattern(KS[alg], 2) if priv else b"")
    for n in list(range(0, task["top"] + 1)) + [255, 256, 1000, 65536]:
        for kt in (0, 1, 2):
            for slot in ("auth", "priv") if priv else ("auth",):
                if kt == 0 and n or n == KS[alg] or (slot == "priv" and kt == 2 and n >= 16):
                    continue
                if slot == "auth":
                    keys = (alg | kt << 6, pattern(n), good[2], good[3])
                else:
                    keys = (good[0], good[1], priv | kt << 6, pattern(n))
                what = "an empty password" if kt == 0 else f"a {('', 'master', 'localized')[kt]} key of wrong size"
                for via in ("new", "set"):
                    c = f"{via} {NAME[alg]} {PNAME[priv]} {slot} key type {kt}, {n} octets"
                    ctx.case(c)
                    if via == "new":
                        r = world.outcome(f.SnmpV3ClientSocket, "127.0.0.1:161", engine, "user", *keys, 0, 0, 0, 0)
                    else:
                        s = f.SnmpV3ClientSocket("127.0.0.1:161", engine, "user", *good, 0, 0, 0, 0)
                        r = world.outcome(s.set_keys, "user", *keys)
                    refused(ctx, r, f"{what} ({slot}, {NAME[alg]})", c)
                    if via == "set" and r[0] != "ok" and not world.is_panic(r[1]):
                        # the previous keys stay in use
                        w.clear()
                        s.send_get("1.3.6.1.4.1.5")
                        verify(ctx, alg, priv, good[1], good[3] if priv else None, engine, w.sent[-1], "user", c + ", then get")
                ctx.state((alg, priv, n, kt, slot))
    ctx.sample(f"{NAME[alg]}/{PNAME[priv]}: key sizes 0..{task['top']} x key types x slots")


def run_session(ctx, task):
    """keys as used by a SnmpSession configured through User"""
    from .. import world, agent, ber
    alg, priv, kind = task["auth"], task["priv"], task["kind"]
    w = world.wire()
    pws = [b"a", b"12345678", b"maplesyrup", pattern(64), pattern(100, 200), b"\x00", b"pass\x00word", "пароль".encode()]
    engs = [pattern(n, 0x80) for n in ((1, 5, 12, 17, 32, 64) if not task["full"] else range(1, 70))]
    for akt in ("password", "master", "localized"):
        for pkt in ("password", "master", "localized") if priv else ("password",):
            for engine in engs:
                for given in (True, False):
                    for i, apw in enumerate(pws):
                        ppw = pws[(i + 3) % len(pws)]
                        cfg = world.v3(NAME[alg], PNAME[priv], akt=akt, pkt=pkt, apw=apw, ppw=ppw, engine=engine, given=given)
                        c = f"{cfg.name} {kind} engine {engine.hex()} passwords {apw!r:.20} {ppw!r:.20}"
                        ctx.case(c)
                        ctx.evals += 1
                        a = agent.Agent(cfg, {(1, 3, 6, 1, 4, 1, 5): ber.tlv(2, b"\x2a")})
                        w.clear()
                        w.responder = a
                        s = cfg.session(kind)
                        r = world.call(s, kind, "refresh")
                        n = len(w.sent)
                        r = world.call(s, kind, "get", oid="1.3.6.1.4.1.5") if r[0] == "ok" else r
                        w.responder = None
                        if r != ("ok", 42):
                            ctx.violation(f"the agent does not accept the session's keys: {world.show(r)[:120]} ({a.bad})", c)
                            continue
                        verify(ctx, alg, priv, cfg.akey(), cfg.pkey() if priv else None, engine, w.sent[n], cfg.user, c)
                        ctx.state((alg, priv, kind, akt, pkt, engine, given, i))
    ctx.sample(f"{NAME[alg]}/{PNAME[priv]} {kind}: key types x engine ids x given/discovered x {len(pws)} passwords")


def run_edges(ctx, task):
    """every octet at either end of a password / master key / localized key configured through User"""
    from .. import world, usm
    m = world.mods()
    u = m.user
    w = world.wire()
    engine = b"\x80\x00\x01edges"
    kts = (u.KeyType.Password, u.KeyType.Master, u.KeyType.Localized)
    n = 0
    for b in range(task["part"], 256, task["parts"]):
        x = bytes((b,))
        for alg, kt, end in [(a, k, e) for a in (1, 2) for k in (0, 1, 2) for e in ("first", "last", "both", "middle")]:
            size = 9 + b % 4 if kt == 0 else KS[alg]
            for slot in ("auth", "priv"):
                n += 1
                if kt == 0 and not task["full"] and (slot == "priv") != (alg == 1):
                    continue
                priv = 1 + n % 2 if slot == "priv" else n % 3
                kind = ("sync", "async")[n % 2]
                body = pattern(size - 2, 0x61) if kt else b"secretword12"[:size - 2]
                key = {"first": x + body + b"Q", "last": b"Q" + body + x, "both": x + body + x,
                       "middle": b"Q" + body[:3] + x + body[3:] + (b"" if kt else b"R")}[end]
                other = pattern(KS[alg], 0x91)
                mat = {"auth": other, "priv": other, slot: key}
                types = {"auth": 2, "priv": 2, slot: kt}
                use = {}
                for sl in ("auth", "priv"):
                    k = mat[sl]
                    if types[sl] == 0:
                        k = usm.master_key.__wrapped__(NAME[alg], k)
                    if types[sl] < 2:
                        k = usm.localize.__wrapped__(NAME[alg], k, engine)
                    use[sl] = k
                c = f"{kind} {NAME[alg]} {PNAME[priv]} {slot} {kts[kt].name} {key.hex()}"
                ctx.case(c)
                ctx.evals += 1
                acls = {1: u.Md5Key, 2: u.Sha1Key}[alg]
                pcls = {0: None, 1: u.DesKey, 2: u.Aes128Key}[priv]

                def make():
                    user = u.User("edge", auth_key=acls(mat["auth"], key_type=kts[types["auth"]]),
                                  priv_key=pcls(mat["priv"], key_type=kts[types["priv"]]) if pcls else None)
                    return (m.S if kind == "sync" else m.A)(addr="127.0.0.1", engine_id=engine, user=user, timeout=0.01)
                r = world.outcome(make)
                if r[0] != "ok":
                    ctx.violation(f"a valid key is refused: {world.show(r)[:120]}", c)
                    continue
                w.clear()
                w.responder = None
                world.call(r[1], kind, "get", oid="1.3.6.1.4.1.5")
                if not w.sent:
                    ctx.violation("no request is sent", c)
                    continue
                verify(ctx, alg, priv, use["auth"], use["priv"] if priv else None, engine, w.sent[-1], "edge", c)
                ctx.state(("edge", b, alg, kt, end, slot))
    ctx.sample(f"octets {task['part']}, +{task['parts']}.. at the ends of passwords and keys")


def run_sessref(ctx, task):
    """sessions with an empty password are refused (at construction or at discovery)"""
    from .. import world, agent
    m = world.mods()
    u = m.user
    w = world.wire()
    for acls in (u.Md5Key, u.Sha1Key):
        for pcls in (None, u.DesKey, u.Aes128Key):
            for bad in ("auth", "priv") if pcls else ("auth",):
                for given in (True, False):
                    for kind in ("sync", "async"):
                        user = u.User("u", auth_key=acls(b"" if bad == "auth" else b"secret12"),
                                      priv_key=pcls(b"" if bad == "priv" else b"secret34") if pcls else None)
                        c = f"{acls.__name__} {pcls} empty {bad} password given={given} {kind}"
                        ctx.case(c)
                        cfg = world.v3(given=given, user="u")
                        a = agent.Agent(cfg)
                        w.clear()
                        w.responder = a
                        args = dict(addr="127.0.0.1", user=user, timeout=0.5)
                        if given:
                            args["engine_id"] = cfg.engine

                        def make():
                            s = (m.S if kind == "sync" else m.A)(**args)
                            r = world.call(s, kind, "refresh")
                            if r[0] == "exc":
                                raise r[1]
                            return s
                        r = world.outcome(make)
                        w.responder = None
                        if r[0] == "exc" and isinstance(r[1], TimeoutError):
                            ctx.violation("an empty password is used instead of being refused", c)
                        refused(ctx, r, f"an empty {bad} password", c)
                        ctx.state(c)
    for cls, code in ((u.Md5Key, 1), (u.Sha1Key, 2)):
        ctx.case(f"{cls.__name__}.get_master_key(b'')")
        refused(ctx, world.outcome(cls.get_master_key, b""), "an empty password", cls.__name__)
        for n in range(0, 70):
            if n == KS[code]:
                continue
            ctx.case(f"{cls.__name__}.get_localized_key({n} octets)")
            refused(ctx, world.outcome(cls.get_localized_key, bytes(n), b"engine"), f"a master key of {n} octets", cls.__name__)
    r = world.outcome(lambda: u.User("u", priv_key=u.DesKey(b"x")))
    refused(ctx, r, "a privacy key without an authentication key", "User")
    ctx.sample("sessions with empty passwords: sync/async, given/discovered")
