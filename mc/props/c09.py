"""C09 - every outgoing authenticated message carries a correct HMAC-96."""
LEVEL = "model_checking"
RULE = ("one execution = one history of calls or one parameter combination on a session; nontrivial = emitted datagrams whose "
        "MAC (or the absence of one) was verified independently")
BOUNDS = {
    "quick": "all histories of 2 calls (3 for sha/aes) over 22 actions x digest x cipher x given/discovered engine x sync/async; "
             "all 9 key type pairs; every request size 0..4100; engine id 1..64 x user 1..256; 16x16 boots/time",
    "thorough": "histories of 3 calls everywhere (4 for sha/aes); denser size and layout sweeps",
}
ASSUMPTIONS = ["hashlib/hmac of the Python runtime are correct (self-tested against RFC 2202 / 3414 vectors at build time)",
               "the engine discovery probe is sent before the session holds a key and must then be unauthenticated"]
LEVELS = [("md5", None), ("sha", None), ("md5", "des"), ("sha", "des"), ("md5", "aes"), ("sha", "aes"), (None, None)]


def tasks(tier, info):
    from .. import emit
    return emit.tasks(tier, LEVELS, deep=[("sha", "aes")], contents=True)


def check(x, q, st=None):
    from .. import world
    cfg = x.cfg
    if cfg.ver != "v3":
        return None
    if x.disc or not cfg.auth:
        if q.flags & 1:
            return "the auth flag is set although there is no key"
        if q.auth_params:
            return "authentication parameters without a key"
        return None
    if not q.flags & 1:
        return "the auth flag is clear although the session holds a key"
    if len(q.auth_params) != 12:
        return f"{len(q.auth_params)} octets of authentication parameters"
    if not world.mac_ok(q, cfg.auth, cfg.akey(q.engine)):
        return "wrong HMAC-96"
    return None


def run(ctx, task):
    from .. import emit
    emit.run(ctx, task, check)
