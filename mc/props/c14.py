"""C14 - privacy salts never repeat and nothing confidential goes in clear."""
LEVEL = "model_checking"
RULE = ("one execution = one history of calls or one parameter combination; nontrivial = emitted encrypted datagrams whose salt "
        "was compared with the previous one and whose clear octets were searched")
BOUNDS = {
    "quick": "all histories of 2 calls (3 for sha/aes and md5/des) over 22 actions (failed sends, encodings, neighbours, boots "
             "changes) x digest x cipher x given/discovered x sync/async; every request size; 330 initial salts incl. all "
             "wrap-arounds; 2500 (67000) consecutive messages",
    "thorough": "histories of 3 calls everywhere, 20000 consecutive messages",
}
ASSUMPTIONS = ["a request whose encoding or sending failed may consume one salt (nothing was emitted with it)",
               "the engine id necessarily appears once in clear as msgAuthoritativeEngineID",
               "re-seeding by an explicit low-level set_keys() call is outside the property"]
LEVELS = [("md5", "des"), ("sha", "des"), ("md5", "aes"), ("sha", "aes")]


def tasks(tier, info):
    from .. import emit
    return emit.tasks(tier, LEVELS, deep=[("sha", "aes"), ("md5", "des")])


def check(x, q, st):
    from .. import ber
    cfg = x.cfg
    if cfg.ver != "v3" or not cfg.priv or x.disc:
        return None
    if not q.flags & 2:
        return "the priv flag is clear"
    if not q.encrypted:
        return "the scoped PDU is not encrypted"
    s = q.priv_params
    if len(s) != 8:
        return f"{len(s)} octets of privacy parameters"
    # per session: every message advances the counter by one
    sess = id(x.sess) if x.sess is not None else 0
    w = 32 if cfg.priv == "des" else 64
    n = int.from_bytes(s[4:] if cfg.priv == "des" else s, "big")
    if cfg.priv == "des" and s[:4] != (q.boots & 0xFFFFFFFF).to_bytes(4, "big"):
        return f"DES salt {s.hex()} does not start with the engine boots {q.boots}"
    seen = st.setdefault(("seen", sess), {})
    if s in seen:
        return f"salt {s.hex()} repeats"
    seen[s] = 1
    prev = st.get(("prev", sess))
    if prev is not None and n < prev:
        st["wraps"] = st.get("wraps", 0) + 1
    st[("prev", sess)] = n
    if x.env is not None:
        last, st[("call", sess)] = st.get(("call", sess), x.callno), x.callno
        st[("lastcall", sess)] = last
    if prev is not None:
        gap = (n - prev) % (1 << w)
        lost = st.get("lost", 0)
        if x.env is not None and x.sess is x.env.sess:
            # calls in between which emitted nothing
            lost = max(0, x.callno - st[("lastcall", sess)] - 1)
        if not 1 <= gap <= 1 + lost:
            return f"salt counter advanced by {gap} (at most {lost} messages failed in between)"
    # nothing of the scoped PDU in clear
    a, b = q.enc_range
    clear = q.raw[:a] + b"|" + q.raw[b:]
    for o in x.oids:
        c = ber.oid_content(o)
        if len(c) > 80:
            c = c[:40] + c[-40:]
        if len(c) >= 5:
            for i in range(0, len(c) - 4):
                if c[i:i + 5] in clear and c[i:i + 5] not in cfg.engine + b"|" + cfg.user.encode():
                    return f"octets of an OID appear in clear: {c[i:i + 5].hex()}"
        if len(c) > 60:
            break
    if len(cfg.engine) >= 4 and clear.count(cfg.engine) > 1:
        return "the engine id appears more than once in clear"
    # the ciphertext itself must not be the plaintext
    if q.plain in q.raw or q.scoped in q.raw:
        return "the scoped PDU appears in clear"
    return None


def run(ctx, task):
    from .. import emit
    emit.run(ctx, task, check)
