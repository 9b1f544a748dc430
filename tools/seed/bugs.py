"""Definitions of the planted bugs: edits (file, old, new) against /repo's HEAD and a demonstration."""
BUGS = {}


def bug(id_, property_, edits, needs, what, demo):
    BUGS[id_] = dict(property=property_, edits=edits, needs=needs, what=what, demo=demo)


SYNC = """
from gufo.snmp.sync_client import SnmpSession
from gufo.snmp import SnmpVersion
"""

# --- C01 ---------------------------------------------------------------------------------------
bug("C01-empty-bool", "C01",
    [("src/ber/bool.rs", "if h.length != 1 {", "if h.length > 1 {")],
    "A BOOLEAN without contents octets as the very last element of the datagram.",
    "SnmpBool::decode indexes i[0] of an empty rest: the call surfaces a Rust panic instead of SnmpDecodeError.",
    SYNC + """
a = Agent(lambda d: Msg(d).reply([("1.3.6.1.2.1.1.1.0", tlv(1))]))
s = SnmpSession("127.0.0.1", port=a.port, timeout=2.0)
expect("empty BOOLEAN", outcome(s.get, "1.3.6.1.2.1.1.1.0"), "SnmpDecodeError")
""")

bug("C01-empty-flags", "C01",
    [("src/snmp/msg/v3/msg.rs", "if flags_data.0.len() != 1 {", "if flags_data.0.len() > 1 {")],
    "A v3 datagram whose msgFlags is an OCTET STRING of zero length.",
    "SnmpV3Message::try_from indexes the first octet of empty msgFlags and panics.",
    SYNC + """
from gufo.snmp.user import User
k = Keys()
def handler(d):
    m = Msg(d, k)
    r = m.reply([("1.3.6.1.2.1.1.1.0", integer(5))])
    # Take the flags octet out and shorten the enclosing lengths
    i = r.index(b"\\x04\\x01\\x00\\x02\\x01\\x03")
    r = bytearray(r)
    r[i + 1] = 0
    del r[i + 2]
    r[1] -= 1
    r[6] -= 1
    return bytes(r)
a = Agent(handler)
s = SnmpSession("127.0.0.1", port=a.port, timeout=1.0, engine_id=k.engine, user=User("user"))
expect("empty msgFlags", outcome(s.get, "1.3.6.1.2.1.1.1.0"), "SnmpDecodeError")
expect("agent", a.error, None)
""")

# --- C02 ---------------------------------------------------------------------------------------
bug("C02-gauge-width", "C02",
    [("src/ber/gauge32.rs", ".take(h.length)", ".take(h.length.min(4))"),
     ("src/ber/timeticks.rs", ".take(h.length)", ".take(h.length.min(4))")],
    "Gauge32 or TimeTicks above 2^31-1, encoded in five octets with the leading zero.",
    "Only the first four of the five contents octets are read: 0xFFFFFFF0 is returned as 0x00FFFFFF.",
    SYNC + """
for tag in (0x42, 0x43):
    for v in (0, 127, 128, 0x7FFFFFFF, 0x80000000, 0xFFFFFFF0):
        a = Agent(lambda d: Msg(d).reply([("1.3.6.1.2.1.1.1.0", integer(v, tag))]))
        s = SnmpSession("127.0.0.1", port=a.port, timeout=2.0)
        expect(f"{tag:x} {v:x}", outcome(s.get, "1.3.6.1.2.1.1.1.0"), v)
""")

# --- C03 ---------------------------------------------------------------------------------------
bug("C03-dirty-buffer", "C03",
    [("src/buf/pool.rs", """        if let Some(mut buf) = self.buf.take() {
            buf.reset();
""", """        if let Some(buf) = self.buf.take() {
"""),
     ("src/socket/snmpsocket.rs", """            .send(buf.data())
            .map_err(|e| SnmpError::SocketError(e.to_string()))?;
""", """            .send(buf.data())
            .map_err(|e| SnmpError::SocketError(e.to_string()))?;
        // Leave the buffer clean for the next user
        buf.reset();
""")],
    "A request which does not fit the message buffer, then any other request.",
    "The pooled buffer keeps what was serialised before the failure, which is then sent at the end of the next message.",
    SYNC + """
a = Agent(lambda d: Msg(d).reply([("1.3.6.1.2.1.1.1.0", integer(7))]))
s = SnmpSession("127.0.0.1", port=a.port, timeout=1.0)
expect("before", outcome(s.get, "1.3.6.1.2.1.1.1.0"), 7)
expect("too big", outcome(s.get_many, ["1.3.6.1.2.1.1.1.0"] * 400), "SnmpEncodeError")
expect("after", outcome(s.get, "1.3.6.1.2.1.1.1.0"), 7)
expect("agent", a.error, None)
""")

bug("C03-dedup", "C03",
    [("src/gufo/snmp/async_client/client.py", "self._sock.send_get_many(list(oids))",
      "self._sock.send_get_many(list(dict.fromkeys(oids)))")],
    "get_many() of the async client with an OID listed twice.",
    "Repeated OIDs are requested only once.",
    """
import asyncio
from gufo.snmp.async_client import SnmpSession
a = Agent(lambda d: Msg(d).reply([(o, integer(7)) for o in Msg(d).oids]))
oids = ["1.3.6.1.2.1.1.2.0", "1.3.6.1.2.1.1.1.0", "1.3.6.1.2.1.1.2.0"]
async def go():
    s = SnmpSession("127.0.0.1", port=a.port, timeout=2.0)
    await s.get_many(oids)
asyncio.run(go())
expect("requested", Msg(a.log[0]).oids, oids)
""")

# --- C04 ---------------------------------------------------------------------------------------
bug("C04-masked-id", "C04",
    [("src/reqid.rs", "        self.0 == v", "        (self.0 ^ v) & MAX_REQUEST_ID == 0")],
    "A response whose request-id differs from the outstanding one only above bit 30.",
    "The ids are compared modulo 2^31, so a reply to another request is delivered.",
    SYNC + """
def handler(d):
    m = Msg(d)
    oid = m.oids[0]
    return [m.reply([(oid, integer(1))], request_id=m.request_id - 2**31),
            m.reply([(oid, integer(2))], request_id=m.request_id + 2**31),
            m.reply([(oid, integer(3))])]
a = Agent(handler)
for v in (SnmpVersion.v1, SnmpVersion.v2c):
    s = SnmpSession("127.0.0.1", port=a.port, timeout=2.0, version=v)
    expect(f"{v}", outcome(s.get, "1.3.6.1.2.1.1.1.0"), 3)
""")

bug("C04-community-case", "C04",
    [("src/socket/v1.rs", "if msg.community != self.community.as_bytes() {",
      "if !msg.community.eq_ignore_ascii_case(self.community.as_bytes()) {")],
    "A v1 response with the outstanding request-id whose community differs from the session's in letter case only.",
    "The community check of the v1 socket is case-insensitive.",
    SYNC + """
def handler(d):
    m = Msg(d)
    return [m.reply([(m.oids[0], integer(1))], community="Public"), m.reply([(m.oids[0], integer(3))])]
a = Agent(handler)
for v in (SnmpVersion.v1, SnmpVersion.v2c):
    s = SnmpSession("127.0.0.1", port=a.port, timeout=2.0, version=v)
    expect(f"{v}", outcome(s.get, "1.3.6.1.2.1.1.1.0"), 3)
""")

bug("C04-msg-id", "C04",
    [("src/socket/v3.rs", "            && self.msg_id.check(msg.msg_id)\n            && data.pdu.check(&self.request_id))",
      "            && (self.msg_id.check(msg.msg_id) || !matches!(data.pdu, SnmpPdu::Report(_)))\n"
      "            && data.pdu.check(&self.request_id))")],
    "A v3 response with the right request-id and a foreign message id.",
    "The message id is checked for Reports only.",
    SYNC + """
from gufo.snmp.user import User
k = Keys()
def handler(d):
    m = Msg(d, k)
    o = m.oids[0]
    return [m.reply([(o, integer(1))], msg_id=m.msg_id ^ 1), m.reply([(o, integer(3))])]
a = Agent(handler)
s = SnmpSession("127.0.0.1", port=a.port, timeout=2.0, engine_id=k.engine, user=User("user"))
expect("v3", outcome(s.get, "1.3.6.1.2.1.1.1.0"), 3)
""")

# --- C05 ---------------------------------------------------------------------------------------
bug("C05-short-bulk", "C05",
    [("src/gufo/snmp/sync_client/getbulk.py", """        # End
        if not self._buffer:
            raise StopIteration  # End of view
""", """        # End
        if not self._buffer:
            raise StopIteration  # End of view
        if len(self._buffer) < self._max_repetitions:
            # Agent has nothing more to return, spare the last request
            self._buffer.append(None)
""")],
    "An agent which returns fewer repetitions than requested because of its own cap.",
    "A reply shorter than max-repetitions is taken as the end of the walk, so the rest of the subtree is lost.",
    SYNC + """
mib = {f"1.3.6.1.2.1.2.2.1.{c}.{i}": integer(c * 100 + i) for c in range(1, 4) for i in range(1, 8)}
h = responder(mib)
for cap in (3, 100):
    a = Agent(lambda d: h(d, cap=cap))
    s = SnmpSession("127.0.0.1", port=a.port, timeout=2.0)
    expect(f"cap {cap}", outcome(lambda: len(list(s.getbulk("1.3.6.1.2.1.2.2.1", max_repetitions=10)))), 21)
""")

# --- C06 ---------------------------------------------------------------------------------------
bug("C06-bulk-end", "C06",
    [("src/snmp/op/getbulk.rs", """                                let _ = list.append(py.None());
                                break;""", """                                if list.is_empty() {
                                    let _ = list.append(py.None());
                                }
                                break;""")],
    "A bulk reply holding in-subtree items followed by an out-of-subtree one, from an agent which later answers "
    "with further in-subtree items.",
    "The end marker is lost when the reply has other items, so the walk goes on after the first out-of-subtree OID.",
    SYNC + """
n = 0
def handler(d):
    global n
    m = Msg(d)
    n += 1
    b = "1.3.6.1.2.1.2."
    return m.reply([(b + f"{n}.1", integer(n)), ("1.3.6.1.2.1.3.1", integer(0))] if n < 4 else
                   [("1.3.6.1.2.1.3.1", integer(0))])
a = Agent(handler)
s = SnmpSession("127.0.0.1", port=a.port, timeout=2.0)
expect("items", outcome(lambda: list(s.getbulk("1.3.6.1.2.1.2"))), [("1.3.6.1.2.1.2.1.1", 1)])
expect("requests", len(a.log), 1)
""")

# --- C07 ---------------------------------------------------------------------------------------
bug("C07-drop-empty", "C07",
    [("src/snmp/op/getmany.rs", """                for var in resp.vars.iter() {
""", """                for var in resp.vars.iter() {
                    // Nothing to return
                    if matches!(&var.value, SnmpValue::OctetString(x) if x.0.is_empty()) {
                        continue;
                    }
""")],
    "get_many() and a returned OCTET STRING of zero length.",
    "Varbinds with empty strings are left out of the dict.",
    SYNC + """
a = Agent(lambda d: Msg(d).reply([("1.3.6.1.2.1.1.1.0", octets("")), ("1.3.6.1.2.1.1.2.0", integer(0)),
                                  ("1.3.6.1.2.1.1.3.0", NULL)]))
s = SnmpSession("127.0.0.1", port=a.port, timeout=2.0)
expect("dict", outcome(s.get_many, ["1.3.6.1.2.1.1.1.0", "1.3.6.1.2.1.1.2.0", "1.3.6.1.2.1.1.3.0"]),
       {"1.3.6.1.2.1.1.1.0": b"", "1.3.6.1.2.1.1.2.0": 0})
""")

bug("C07-report", "C07",
    [("src/snmp/op/getmany.rs", "            SnmpPdu::Report(_) => Err(SnmpError::AuthenticationFailed.into()),\n"
      "            _ => Err(SnmpError::InvalidPdu.into()),", "            _ => Err(SnmpError::InvalidPdu.into()),")],
    "get_many() answered with a v3 Report.",
    "get_many() raises SnmpDecodeError instead of SnmpAuthError.",
    SYNC + """
from gufo.snmp.user import User
k = Keys()
a = Agent(lambda d: Msg(d, k).report(k))
s = SnmpSession("127.0.0.1", port=a.port, timeout=2.0, engine_id=k.engine, user=User("user"))
expect("get", outcome(s.get, "1.3.6.1.2.1.1.1.0"), "SnmpAuthError")
expect("get_many", outcome(s.get_many, ["1.3.6.1.2.1.1.1.0"]), "SnmpAuthError")
""")

# --- C08 ---------------------------------------------------------------------------------------
bug("C08-arc-16383", "C08",
    [("src/ber/objectid.rs", "} else if sub_id <= 0x3FFF {", "} else if sub_id < 0x3FFF {")],
    "An OID with the arc 16383.",
    "16383 takes three octets, the first one is a forbidden leading 0x80.",
    SYNC + """
a = Agent(lambda d: Msg(d).reply([("1.3.6.1.2.1.1.1.0", integer(7))]))
s = SnmpSession("127.0.0.1", port=a.port, timeout=2.0)
for v in (127, 128, 16382, 16383, 16384, 2097151, 2097152, 268435455, 268435456, 4294967295):
    o = f"1.3.6.1.4.1.{v}.1"
    s.get(o)
    expect(f"arc {v}", oid(o) in a.log[-1], True)
""")

# --- C09 ---------------------------------------------------------------------------------------
bug("C09-long-message", "C09",
    [("src/auth/digest.rs", "        ctx1.update(&data);", "        // MAX_MESSAGE_SIZE at most\n        ctx1.update(&data[..data.len().min(2048)]);")],
    "An authenticated request longer than 2048 octets.",
    "The MAC covers only the first 2048 octets of the message.",
    SYNC + """
from gufo.snmp.user import User, Sha1Key
k = Keys(auth="sha1", akey=master("sha1", b"authpass1"))
def handler(d):
    m = Msg(d, k)
    return m.reply([(o, integer(7)) for o in m.oids[:1]])
a = Agent(handler)
for n in (1, 50, 100, 130, 200):
    s = SnmpSession("127.0.0.1", port=a.port, timeout=2.0, engine_id=k.engine, user=User("user", auth_key=Sha1Key(b"authpass1")))
    outcome(s.get_many, [f"1.3.6.1.2.1.1.{i}.0" for i in range(n)])
    expect(f"{n} oids, mac", Msg(a.log[-1], k).mac_ok(), True)
""")

# --- C10 ---------------------------------------------------------------------------------------
bug("C10-clear-in-octets", "C10",
    [("src/privacy/aes128.rs", """        // Decode
        let scoped_pdu = ScopedPdu::try_from(self.buf.data())?;
        Ok(scoped_pdu)""", """        // Some agents wrap the scoped PDU without encrypting it
        if ScopedPdu::try_from(self.buf.data()).is_err() {
            self.buf.data_mut().copy_from_slice(data);
        }
        // Decode
        let scoped_pdu = ScopedPdu::try_from(self.buf.data())?;
        Ok(scoped_pdu)""")],
    "An authentic reply to an AES session whose msgData is an OCTET STRING holding the scoped PDU in clear.",
    "A response which was sent in clear is accepted by a session with privacy.",
    SYNC + """
from gufo.snmp.user import User, Sha1Key, Aes128Key
k = Keys(auth="sha1", akey=master("sha1", b"authpass1"), priv="aes", pkey=master("sha1", b"privpass1"))
class Clear(Keys):
    def crypt(self, data, boots, tm, salt, decrypt):
        return data if not decrypt else super().crypt(data, boots, tm, salt, True)
kc = Clear(auth="sha1", akey=master("sha1", b"authpass1"), priv="aes", pkey=master("sha1", b"privpass1"))
def handler(d):
    m = Msg(d, k)
    o = m.oids[0]
    return [m.reply([(o, integer(1))], keys=kc), m.reply([(o, integer(3))])]
a = Agent(handler)
s = SnmpSession("127.0.0.1", port=a.port, timeout=2.0, engine_id=k.engine,
                user=User("user", auth_key=Sha1Key(b"authpass1"), priv_key=Aes128Key(b"privpass1")))
expect("get", outcome(s.get, "1.3.6.1.2.1.1.1.0"), 3)
expect("agent", a.error, None)
""")

bug("C10-flag-mask", "C10",
    [("src/snmp/msg/v3/msg.rs", "flag_auth: (flags & FLAG_AUTH) != 0,", "flag_auth: (flags & (FLAG_AUTH | FLAG_PRIV)) != 0,")],
    "A reply with a valid MAC and the priv flag set, but the auth flag cleared.",
    "The auth flag is taken as set when only the priv flag is.",
    SYNC + """
from gufo.snmp.user import User, Sha1Key
k = Keys(auth="sha1", akey=master("sha1", b"authpass1"))
def handler(d):
    m = Msg(d, k)
    o = m.oids[0]
    def fl(r, f):
        i = r.index(b"\\x04\\x01\\x01\\x02\\x01\\x03") + 2
        j = r.index(b"\\x04\\x0c") + 2
        r = r[:i] + bytes([f]) + r[i + 1:j] + bytes(12) + r[j + 12:]
        return r[:j] + mac("sha1", k.akey, r) + r[j + 12:]
    return [fl(m.reply([(o, integer(1))]), f) for f in (0, 2, 4, 6)] + [m.reply([(o, integer(3))])]
a = Agent(handler)
s = SnmpSession("127.0.0.1", port=a.port, timeout=2.0, engine_id=k.engine, user=User("user", auth_key=Sha1Key(b"authpass1")))
expect("get", outcome(s.get, "1.3.6.1.2.1.1.1.0"), 3)
expect("agent", a.error, None)
""")

# --- C11 ---------------------------------------------------------------------------------------
bug("C11-full-pad", "C11",
    [("src/privacy/des.rs", """        let padded_len = if rem > 0 {
            scoped_pdu_len + BLOCK_SIZE - rem
        } else {
            scoped_pdu_len
        };""", """        let padded_len = scoped_pdu_len + BLOCK_SIZE - rem;""")],
    "DES and a scoped PDU whose length is a multiple of eight octets.",
    "A whole block of padding follows the scoped PDU.",
    SYNC + """
from gufo.snmp.user import User, Md5Key, DesKey
k = Keys(auth="md5", akey=master("md5", b"authpass1"), priv="des", pkey=master("md5", b"privpass1"))
pads = []
def handler(d):
    m = Msg(d, k)
    sc = items(rd(d)[1])[3][1]
    x = k.crypt(sc, m.boots, m.time, m.salt, True)
    pads.append(len(x) - rd(x)[2])
    return m.reply([(m.oids[0], integer(3))])
a = Agent(handler)
s = SnmpSession("127.0.0.1", port=a.port, timeout=2.0, engine_id=k.engine,
                user=User("user", auth_key=Md5Key(b"authpass1"), priv_key=DesKey(b"privpass1")))
for n in range(1, 12):
    expect(f"get {n}", outcome(s.get, "1.3.6.1" + ".1" * n), 3)
expect("padding", [p for p in pads if p >= 8], [])
expect("agent", a.error, None)
""")

# --- C12 ---------------------------------------------------------------------------------------
bug("C12-long-password", "C12",
    [("src/auth/digest.rs", """        let pass_len = password.len();
""", """        // Only the first block matters
        let password = &password[..password.len().min(PADDED_LENGTH)];
        let pass_len = password.len();
""")],
    "A password of more than 64 octets.",
    "The password is cut to 64 octets before it is expanded.",
    """
from gufo.snmp.user import Md5Key, Sha1Key
for n in (1, 8, 63, 64, 65, 100, 1000):
    p = bytes((i * 7 + 1) & 0xFF for i in range(n))
    expect(f"md5 {n}", Md5Key.get_master_key(p), master("md5", p))
    expect(f"sha1 {n}", Sha1Key.get_master_key(p), master("sha1", p))
""")

bug("C12-mixed-key-types", "C12",
    [("src/socket/v3.rs", """        let mut auth = AuthKey::new(auth_alg)?;
        auth.as_key_type(auth_alg, auth_key, &self.engine_id)?;
        // Priv key
        let mut pk = PrivKey::new(priv_alg)?;
        if pk.has_priv() {
            // Localize key
            let mut pk_auth = AuthKey::new(auth_alg)?;
            pk_auth.as_key_type(priv_alg, priv_key, &self.engine_id)?;""",
      """        let mut auth = AuthKey::new(auth_alg)?;
        auth.as_key_type(auth_alg, auth_key, &self.engine_id)?;
        // Priv key
        let mut pk = PrivKey::new(priv_alg)?;
        if pk.has_priv() {
            // Localize key
            let mut pk_auth = AuthKey::new(auth_alg)?;
            pk_auth.as_key_type(auth_alg, priv_key, &self.engine_id)?;""")],
    "A session which discovers the engine id, with authentication and privacy keys of different types.",
    "After the discovery the privacy key is derived as if it had the type of the authentication key.",
    SYNC + """
from gufo.snmp.user import User, Sha1Key, Aes128Key, KeyType
am, pm = master("sha1", b"authpass1"), master("sha1", b"privpass1")
k = Keys(auth="sha1", akey=am, priv="aes", pkey=pm)
def handler(d):
    m = Msg(d, k)
    if not m.engine or not m.oids:
        return m.report(k)
    return m.reply([(m.oids[0], integer(3))])
a = Agent(handler)
for u in (User("user", auth_key=Sha1Key(am, key_type=KeyType.Master), priv_key=Aes128Key(pm, key_type=KeyType.Master)),
          User("user", auth_key=Sha1Key(am, key_type=KeyType.Master), priv_key=Aes128Key(b"privpass1")),
          User("user", auth_key=Sha1Key(b"authpass1"), priv_key=Aes128Key(pm, key_type=KeyType.Master))):
    s = SnmpSession("127.0.0.1", port=a.port, timeout=2.0, user=u)
    s.refresh()
    expect("get", outcome(s.get, "1.3.6.1.2.1.1.1.0"), 3)
""")

# --- C13 ---------------------------------------------------------------------------------------
bug("C13-time-forward", "C13",
    [("src/socket/v3.rs", "        self.engine_time = msg.usm.engine_time;",
      "        self.engine_time = self.engine_time.max(msg.usm.engine_time);")],
    "An agent whose engine time goes back, as it does on a reboot.",
    "The session keeps the larger engine time next to the new boots.",
    SYNC + """
from gufo.snmp.user import User, Sha1Key
k = Keys(auth="sha1", akey=master("sha1", b"authpass1"))
clock = [(3, 5000), (4, 10), (4, 20)]
seen = []
def handler(d):
    m = Msg(d, k)
    seen.append((m.boots, m.time))
    b, t = clock[min(len(seen), 3) - 1]
    return m.reply([(m.oids[0], integer(3))], boots=b, tm=t)
a = Agent(handler)
s = SnmpSession("127.0.0.1", port=a.port, timeout=2.0, engine_id=k.engine, user=User("user", auth_key=Sha1Key(b"authpass1")))
for _ in range(4):
    expect("get", outcome(s.get, "1.3.6.1.2.1.1.1.0"), 3)
expect("stamps", seen, [(0, 0), (3, 5000), (4, 10), (4, 20)])
""")

# --- C14 ---------------------------------------------------------------------------------------
bug("C14-salt-restart", "C14",
    [("src/privacy/des.rs", """        // Calculate salt
        self.priv_params[..4]""", """        // Calculate salt, counter starts anew with each boot
        if self.priv_params[..4] != boots.to_be_bytes() {
            self.salt_value = 0;
        }
        self.priv_params[..4]""")],
    "A DES session whose agent's boots counter comes back to a former value.",
    "The counter restarts whenever the boots change, so boots 1, 2, 1 repeat the salts.",
    SYNC + """
from gufo.snmp.user import User, Md5Key, DesKey
k = Keys(auth="md5", akey=master("md5", b"authpass1"), priv="des", pkey=master("md5", b"privpass1"))
salts = []
def handler(d):
    m = Msg(d, k)
    salts.append(m.salt)
    return m.reply([(m.oids[0], integer(3))], boots=1 + len(salts) % 2)
a = Agent(handler)
s = SnmpSession("127.0.0.1", port=a.port, timeout=2.0, engine_id=k.engine,
                user=User("user", auth_key=Md5Key(b"authpass1"), priv_key=DesKey(b"privpass1")))
for n in range(8):
    expect(f"get {n}", outcome(s.get, "1.3.6.1.2.1.1.1.0"), 3)
expect("distinct salts", len(set(salts)), len(salts))
""")

bug("C14-clear-probe", "C14",
    [("src/socket/v3.rs", """        let flag_priv = self.priv_key.has_priv();
        let flag_report = match pdu {
            SnmpPdu::GetRequest(ref x) => x.vars.is_empty(),
            _ => false,
        };
""", """        let flag_report = match pdu {
            SnmpPdu::GetRequest(ref x) => x.vars.is_empty(),
            _ => false,
        };
        // RFC-3414, pp 4: time synchronization is authenticated, but not encrypted
        let flag_priv = self.priv_key.has_priv() && !(flag_report && self.engine_boots == 0);
""")],
    "refresh() of a session with privacy while the engine boots are not known.",
    "The probe goes without the priv flag, its scoped PDU with the context engine id in clear.",
    SYNC + """
from gufo.snmp.user import User, Sha1Key, Aes128Key
k = Keys(auth="sha1", akey=master("sha1", b"authpass1"), priv="aes", pkey=master("sha1", b"privpass1"))
def handler(d):
    m = Msg(d, k)
    return m.reply([(m.oids[0], integer(7))]) if m.oids else m.report(k)
a = Agent(handler)
s = SnmpSession("127.0.0.1", port=a.port, timeout=2.0, engine_id=k.engine,
                user=User("user", auth_key=Sha1Key(b"authpass1"), priv_key=Aes128Key(b"privpass1")))
s.refresh()
s.get("1.3.6.1.2.1.1.1.0")
for i, d in enumerate(a.log):
    m = Msg(d, k)
    expect(f"message {i}", (m.flags & 3, m.encrypted, len(m.salt)), (3, True, 8))
""")

# --- C15 ---------------------------------------------------------------------------------------
bug("C15-sign-octet", "C15",
    [("src/ber/int.rs", "if left & 0x80 == 0x80 {", "if left & 0x80 == 0x80 && (left < 0xc0 || buf.len() - start < 4) {")],
    "A positive INTEGER of four octets or more whose most significant octet is 0xC0..0xFE.",
    "The leading zero is left out, so e.g. 0xC0000000 is encoded as a negative number.",
    SYNC + """
a = Agent(lambda d: Msg(d).reply([]))
s = SnmpSession("127.0.0.1", port=a.port, timeout=2.0)
for v in [1, 127, 128, 0x7FFFFFFF, 0xBFFFFFFF, 0xC0000000, 0xD1234567, 0xFFFFFFFF, 0x100000000, 2**62]:
    list(s.getbulk("1.3.6", max_repetitions=v))
    expect(f"max-repetitions {v}", Msg(a.log[-1]).n2, v)
""")

# --- C16 ---------------------------------------------------------------------------------------
bug("C16-counter64-extent", "C16",
    [("src/ber/counter64.rs", ".take(h.length)", ".take(size_of::<u64>())")],
    "A Counter64 of fewer than eight octets followed by another element in the same varbind.",
    "The decoder always takes eight octets, reading into the next varbind.",
    SYNC + """
a = Agent(lambda d: Msg(d).reply([seq(oid("1.3.6.1.2.1.1.1.0"), integer(5, 0x46), octets("note")),
                                  ("1.3.6.1.2.1.1.2.0", integer(6))]))
s = SnmpSession("127.0.0.1", port=a.port, timeout=2.0)
expect("dict", outcome(s.get_many, ["1.3.6.1.2.1.1.1.0", "1.3.6.1.2.1.1.2.0"]),
       {"1.3.6.1.2.1.1.1.0": 5, "1.3.6.1.2.1.1.2.0": 6})
""")

bug("C16-trailing-v1", "C16",
    [("src/snmp/msg/v1.rs", "        if !tail.is_empty() {", "        if tail.iter().any(|c| *c != 0) {")],
    "Zero octets after a v1 message.",
    "Octets after the top-level message are ignored when they are zero.",
    SYNC + """
a = Agent(lambda d: Msg(d).reply([(Msg(d).oids[0], integer(5))], tail=b"\\0\\0"))
for v in (SnmpVersion.v1, SnmpVersion.v2c):
    s = SnmpSession("127.0.0.1", port=a.port, timeout=1.0, version=v)
    expect(f"{v}", outcome(s.get, "1.3.6.1.2.1.1.1.0"), "SnmpDecodeError")
""")

# --- C17 ---------------------------------------------------------------------------------------
bug("C17-ensure-3", "C17",
    [("src/buf/buffer.rs", "            self.ensure_size(4)?;", "            self.ensure_size(3)?;")],
    "A request which leaves exactly three octets for a four-octet header.",
    "The write position wraps: the call panics instead of raising SnmpEncodeError.",
    SYNC + """
a = Agent(lambda d: Msg(d).reply([("1.3.6.1.2.1.1.1.0", integer(7))]))
# Request-ids of four octets but for 1 in 256: repeat each size
for n in range(4020, 4060):
    s = SnmpSession("127.0.0.1", port=a.port, timeout=1.0, community="c" * n)
    for _ in range(3):
        n0 = len(a.log)
        r = outcome(s.get, "1.3.6.1.2.1.1.1.0")
        # The reply may be too long to be received
        expect(f"community of {n}: {r}", r in (7, "SnmpEncodeError", "SnmpDecodeError"), True)
expect("agent", a.error, None)
""")

bug("C17-last-octet", "C17",
    [("src/buf/buffer.rs", "        if self.pos < v {", "        if self.pos <= v {")],
    "A request which fills the message buffer to the last octet.",
    "The request which fits exactly is refused.",
    SYNC + """
a = Agent(lambda d: Msg(d).reply([("1.3.6.1.2.1.1.1.0", integer(7))], community="c"))
sent = set()
for n in range(4028, 4046):
    s = SnmpSession("127.0.0.1", port=a.port, timeout=0.1, community="c" * n)
    for _ in range(4):
        if outcome(s.get, "1.3.6.1.2.1.1.1.0") != "SnmpEncodeError":
            sent.add(len(a.log[-1]))
expect("largest request", max(sent), 4080)
""")

# --- C18 ---------------------------------------------------------------------------------------
bug("C18-async-rearm", "C18",
    [("src/gufo/snmp/async_client/client.py", """                try:
                    await fut
""", """                try:
                    await wait_for(fut, self._timeout)
"""),
     ("src/gufo/snmp/async_client/client.py", "            return await wait_for(get_response(), self._timeout)",
      "            return await get_response()")],
    "Non-matching datagrams which keep arriving before the timeout of an async session expires.",
    "Each datagram rearms the timeout, so the call lasts as long as they keep coming.",
    """
import asyncio
from gufo.snmp.async_client import SnmpSession
def handler(d):
    m = Msg(d)
    for _ in range(12):
        yield 0.25
        yield m.reply([], request_id=m.request_id ^ 1)
a = Agent(handler)
async def go():
    s = SnmpSession("127.0.0.1", port=a.port, timeout=0.6)
    t = time.perf_counter()
    try:
        await s.get("1.3.6.1.2.1.1.1.0")
    except TimeoutError:
        pass
    return time.perf_counter() - t
dt = asyncio.run(go())
expect(f"lasted {dt:.2f}", dt < 1.8, True)
""")

bug("C18-ms", "C18",
    [("src/gufo/snmp/sync_client/client.py", "        timeout_ns = int(timeout * NS)",
      "        timeout_ms = int(timeout * 1000.0)\n        timeout_ns = timeout_ms * 1_000_000"),],
    "A sync session with a timeout below one millisecond.",
    "The timeout is rounded down to zero, so the call does not wait for the reply at all.",
    """
# The timeout is set on the socket, the reply must not be there yet
from gufo.snmp.sync_client import SnmpSession
import socket as sk
def handler(d):
    yield 5.0
a = Agent(handler)
best = 0.0
s = SnmpSession("127.0.0.1", port=a.port, timeout=0.0009)
for _ in range(5):
    t = time.perf_counter()
    expect("get", outcome(s.get, "1.3.6.1.2.1.1.1.0"), "TimeoutError")
    best = max(best, time.perf_counter() - t)
expect(f"waited {best * 1e6:.0f}us", best >= 0.0008, True)
""")

# --- C19 ---------------------------------------------------------------------------------------
bug("C19-catch-up", "C19",
    [("src/gufo/snmp/policer.py", "        self._prev += self._delta * (elapsed // self._delta)",
      "        self._prev += self._delta * min(elapsed // self._delta, 1000)")],
    "A pause of more than 1000 intervals between two requests.",
    "The slots missed beyond 1000 intervals are kept: after the pause a burst of requests passes unpoliced.",
    """
from gufo.snmp.policer import RPSPolicer
p = RPSPolicer(10.0)
t, rel = 10**9, []
for gap in [0, 3 * 10**11] + [0] * 30:
    t += gap
    t += p.get_timeout(t) or 0
    rel.append(t)
D = 10**8
worst = min(rel[i + 5] - rel[i] for i in range(len(rel) - 5))
expect(f"span of six releases {worst}", worst > 4 * D, True)
""")

bug("C19-walk-once", "C19",
    [("src/gufo/snmp/sync_client/getnext.py", """        if self._policer:
            self._policer.wait_sync()
        try:
            return self._sock.get_next(self._ctx)""", """        if self._policer:
            self._policer.wait_sync()
            # Agent itself paces the rest of the walk
            self._policer = None
        try:
            return self._sock.get_next(self._ctx)""")],
    "A GetNext walk of more than one request through a rate-limited sync session.",
    "Only the first request of the walk is policed.",
    SYNC + """
mib = {f"1.3.6.1.2.1.2.2.1.1.{i}": integer(i) for i in range(1, 8)}
h = responder(mib)
a = Agent(h)
s = SnmpSession("127.0.0.1", port=a.port, timeout=2.0, limit_rps=20)
expect("walk", outcome(lambda: len(list(s.getnext("1.3.6.1.2.1.2.2.1")))), 7)
span = a.times[-1] - a.times[0]
expect(f"span of {len(a.times)} requests {span:.3f}", span > (len(a.times) - 2) / 20 - 0.02, True)
""")

# ===== second batch ============================================================================
V3 = SYNC + """
from gufo.snmp.user import User, Md5Key, Sha1Key, DesKey, Aes128Key, KeyType
AM, PM = master("sha1", b"authpass1"), master("sha1", b"privpass1")
"""
ASYNC = """
import asyncio
from gufo.snmp.async_client import SnmpSession
from gufo.snmp import SnmpVersion
"""

bug("C02-counter64-signed", "C02",
    [("src/ber/counter64.rs", "Ok(self.0.into_pyobject(py)?.into_any())", "Ok((self.0 as i64).into_pyobject(py)?.into_any())")],
    "A Counter64 of 2^63 or more.",
    "The counter is returned as a negative number.",
    SYNC + """
for v in (0, 2**31, 2**63 - 1, 2**63, 2**64 - 1):
    a = Agent(lambda d: Msg(d).reply([("1.3.6.1.2.1.1.1.0", integer(v, 0x46))]))
    s = SnmpSession("127.0.0.1", port=a.port, timeout=2.0)
    expect(f"{v}", outcome(s.get, "1.3.6.1.2.1.1.1.0"), v)
""")

bug("C03-async-reps", "C03",
    [("src/gufo/snmp/async_client/client.py", """            oid,
            max_repetitions or self._max_repetitions,
        )""", """            oid,
            min(max_repetitions or self._max_repetitions, 255),
        )""")],
    "getbulk() of the async client with max_repetitions above 255.",
    "The async client asks for 255 repetitions at most.",
    ASYNC + """
a = Agent(lambda d: Msg(d).reply([]))
async def go():
    s = SnmpSession("127.0.0.1", port=a.port, timeout=2.0)
    for n in (1, 20, 255, 256, 1000):
        async for _ in s.getbulk("1.3.6", max_repetitions=n):
            pass
        expect(f"{n}", Msg(a.log[-1]).n2, n)
asyncio.run(go())
""")

bug("C04-engine-prefix", "C04",
    [("src/socket/v3.rs", "(self.engine_id.is_empty() || msg.usm.engine_id == self.engine_id)", "msg.usm.engine_id.starts_with(&self.engine_id)")],
    "A v3 response with the right user and ids, whose engine id only begins with the session's one.",
    "The response of another engine is delivered.",
    V3 + """
k = Keys()
def handler(d):
    m = Msg(d, k)
    o = m.oids[0]
    return [m.reply([(o, integer(1))], engine=k.engine + b"x"), m.reply([(o, integer(3))])]
a = Agent(handler)
s = SnmpSession("127.0.0.1", port=a.port, timeout=2.0, engine_id=k.engine, user=User("user"))
expect("v3", outcome(s.get, "1.3.6.1.2.1.1.1.0"), 3)
""")

bug("C05-skip-empty", "C05",
    [("src/snmp/op/getbulk.rs", """                        | SnmpValue::EndOfMibView => continue,
""", """                        | SnmpValue::EndOfMibView => continue,
                        // Nothing to return
                        SnmpValue::OctetString(x) if x.0.is_empty() => continue,
""")],
    "A GetBulk walk over a MIB with empty strings.",
    "Entries holding an empty OCTET STRING are left out.",
    SYNC + """
mib = {f"1.3.6.1.2.1.31.1.1.1.18.{i}": octets("" if i in (2, 5) else f"if{i}") for i in range(1, 7)}
h = responder(mib)
a = Agent(h)
s = SnmpSession("127.0.0.1", port=a.port, timeout=2.0)
expect("getnext", outcome(lambda: len(list(s.getnext("1.3.6.1.2.1.31")))), 6)
expect("getbulk", outcome(lambda: len(list(s.getbulk("1.3.6.1.2.1.31")))), 6)
""")

bug("C06-bulk-skip", "C06",
    [("src/snmp/op/getbulk.rs", """                                let _ = list.append(py.None());
                                break;""", """                                continue;""")],
    "A bulk reply in which an in-subtree varbind follows one out of the subtree.",
    "Varbinds out of the subtree are skipped instead of ending the walk, so the later ones are yielded.",
    SYNC + """
b = "1.3.6.1.2.1.2."
def handler(d):
    m = Msg(d)
    return m.reply([(b + "1", integer(1)), ("1.3.6.1.2.1.3.1", integer(0)), (b + "2", integer(2))] if len(a.log) < 2 else
                   [("1.3.6.1.2.1.3.1", integer(0))])
a = Agent(handler)
s = SnmpSession("127.0.0.1", port=a.port, timeout=2.0)
expect("items", outcome(lambda: list(s.getbulk("1.3.6.1.2.1.2"))), [(b + "1", 1)])
""")

bug("C06-next-on-null", "C06",
    [("src/snmp/op/getnext.rs", """                        // v1 may return Null at end of mib
""", """                        if matches!(var.value, SnmpValue::Null) {
                            return Ok(PyTuple::new(
                                py,
                                vec![var.oid.into_pyobject(py)?, py.None().into_bound(py)],
                            )?
                            .as_any()
                            .to_owned());
                        }
                        // v1 may return Null at end of mib
""")],
    "A GetNext reply with an in-subtree OID bound to NULL.",
    "The walk yields the NULL entry and goes on, instead of ending.",
    SYNC + """
b = "1.3.6.1.2.1.2."
a = Agent(lambda d: Msg(d).reply([(b + f"{len(a.log)}", NULL if len(a.log) == 2 else integer(len(a.log)))] if len(a.log) < 5 else []))
for v in (SnmpVersion.v1, SnmpVersion.v2c):
    a.log.clear()
    s = SnmpSession("127.0.0.1", port=a.port, timeout=2.0, version=v)
    expect("items", outcome(lambda: list(s.getnext("1.3.6.1.2.1.2"))), [(b + "1", 1)])
""")

bug("C07-async-empty", "C07",
    [("src/gufo/snmp/async_client/client.py", """        await self._send(sender)
        return await self._recv(self._sock.recv_get)
""", """        await self._send(sender)
        r = await self._recv(self._sock.recv_get_many)
        # Having requested a single item
        if not r:
            raise NoSuchInstance
        return next(iter(r.values()))
"""),
     ("src/gufo/snmp/async_client/client.py", """    SnmpV1ClientSocket,
""", """    NoSuchInstance,
    SnmpV1ClientSocket,
""")],
    "get() of the async client, answered with NULL, with no varbinds or with several ones.",
    "NULL and an empty reply raise NoSuchInstance, several varbinds are not rejected.",
    ASYNC + """
O = "1.3.6.1.2.1.1.1.0"
async def go():
    for vbs, want in (([(O, integer(5))], 5), ([(O, NULL)], None), ([], None), ([(O, NO_SUCH_OBJECT)], "NoSuchInstance"),
                      ([(O, integer(5)), ("1.3.6.1.2.1.1.2.0", integer(6))], "SnmpDecodeError")):
        a = Agent(lambda d: Msg(d).reply(vbs))
        s = SnmpSession("127.0.0.1", port=a.port, timeout=2.0)
        try:
            r = await s.get(O)
        except Exception as e:
            r = type(e).__name__.removeprefix("Py")
        expect(f"{vbs}", r, want)
asyncio.run(go())
""")

bug("C08-five-octets", "C08",
    [("src/ber/objectid.rs", "} else if sub_id <= 0x0FFF_FFFF {", "} else if sub_id <= 0x7FFF_FFFF {")],
    "An OID with an arc of 2^28..2^31-1.",
    "The top bits of the arc are lost, so the request is for a different OID.",
    SYNC + """
a = Agent(lambda d: Msg(d).reply([("1.3.6.1.2.1.1.1.0", integer(7))]))
s = SnmpSession("127.0.0.1", port=a.port, timeout=2.0)
for v in (2**28 - 1, 2**28, 2**28 + 5, 2**29 + 1, 2**30 + 77, 2**31 - 1, 2**31, 2**32 - 1):
    s.get(f"1.3.6.1.4.1.{v}.1")
    expect(f"arc {v}", Msg(a.log[-1]).oids, [f"1.3.6.1.4.1.{v}.1"])
""")

bug("C08-empty-arc", "C08",
    [("src/ber/objectid.rs", "        Self(oid.split(\".\"))", "        // Accept surrounding dots\n        Self(oid.trim_matches('.').split(\".\"))")],
    "OID text with a leading or trailing dot.",
    "Malformed OID text such as '1.3.6.' is sent instead of being refused.",
    SYNC + """
a = Agent(lambda d: Msg(d).reply([("1.3.6.1.2.1.1.1.0", integer(7))]))
s = SnmpSession("127.0.0.1", port=a.port, timeout=2.0)
for t in ("1.3.6.1.", ".1.3.6.1", "..1.3.6", "1.3.6..1", "1.3.6..", "."):
    r = outcome(s.get, t)
    expect(f"{t}: {r}", r != 7 and not a.log, True)
""")

bug("C09-sha-wide-key", "C09",
    [("src/auth/digest.rs", "        self.key.clone_from_slice(key);\n    }\n    fn as_master",
      "        self.key.clone_from_slice(key);\n        // Printable keys are given as text\n        if self.key.last() == Some(&b' ') {\n"
      "            self.key[KS - 1] = 0;\n        }\n    }\n    fn as_master")],
    "A localized authentication key whose last octet is a space.",
    "The key is altered, so the MAC of outgoing messages is wrong.",
    V3 + """
for last in (0, 0x20, 0x41):
    key = bytes(range(1, 20)) + bytes([last])
    k = Keys(auth="sha1", akey=AM)
    k.akey = key
    a = Agent(lambda d: Msg(d, k).reply([(Msg(d, k).oids[0], integer(7))]))
    s = SnmpSession("127.0.0.1", port=a.port, timeout=1.0, engine_id=k.engine,
                    user=User("user", auth_key=Sha1Key(key, key_type=KeyType.Localized)))
    outcome(s.get, "1.3.6.1.2.1.1.1.0")
    expect(f"{last}", Msg(a.log[-1], k).mac_ok(), True)
""")

bug("C11-time-24", "C11",
    [("src/socket/v3.rs", "                self.engine_time as u32,", "                self.engine_time as u32 & 0x00ff_ffff,")],
    "AES and an engine time of 2^24 seconds (194 days) or more.",
    "The IV is built from the low 24 bits of the transmitted engine time, so requests cannot be decrypted.",
    V3 + """
k = Keys(auth="sha1", akey=AM, priv="aes", pkey=PM)
for t in (5, 2**24 - 1, 2**24, 2**31 - 1):
    def handler(d):
        m = Msg(d, k)
        return m.reply([(m.oids[0], integer(3))], tm=t)
    a = Agent(handler)
    s = SnmpSession("127.0.0.1", port=a.port, timeout=1.0, engine_id=k.engine,
                    user=User("user", auth_key=Sha1Key(b"authpass1"), priv_key=Aes128Key(b"privpass1")))
    expect(f"first {t}", outcome(s.get, "1.3.6.1.2.1.1.1.0"), 3)
    expect(f"second {t}", outcome(s.get, "1.3.6.1.2.1.1.1.0"), 3)
    expect(f"agent {t}", a.error, None)
""")

bug("C13-boots-back", "C13",
    [("src/socket/v3.rs", """        self.engine_boots = msg.usm.engine_boots;
        self.engine_time = msg.usm.engine_time;
""", """        // Replay protection: do not follow the outdated parameters
        if msg.usm.engine_boots >= self.engine_boots {
            self.engine_boots = msg.usm.engine_boots;
            self.engine_time = msg.usm.engine_time;
        }
""")],
    "An agent whose boots counter was reset (reinstalled with the same engine id).",
    "The session sticks to the larger boots although it delivers the agent's replies.",
    V3 + """
k = Keys(auth="sha1", akey=AM)
clock = [(3, 5000), (4, 0), (1, 7), (1, 9)]
seen = []
def handler(d):
    m = Msg(d, k)
    seen.append((m.boots, m.time))
    b, t = clock[min(len(seen), len(clock)) - 1]
    return m.reply([(m.oids[0], integer(3))], boots=b, tm=t)
a = Agent(handler)
s = SnmpSession("127.0.0.1", port=a.port, timeout=2.0, engine_id=k.engine, user=User("user", auth_key=Sha1Key(b"authpass1")))
for _ in range(5):
    expect("get", outcome(s.get, "1.3.6.1.2.1.1.1.0"), 3)
expect("stamps", seen, [(0, 0)] + clock)
""")

bug("C16-v3-trailing", "C16",
    [("src/snmp/msg/v3/msg.rs", """        if !tail.is_empty() {
            return Err(SnmpError::TrailingData);
        }
        // Version""", """        // Allow for the padding
        if tail.len() > 7 {
            return Err(SnmpError::TrailingData);
        }
        // Version""")],
    "Up to seven octets after a v3 message.",
    "Octets after the top-level message are ignored.",
    V3 + """
k = Keys()
for n in (0, 1, 7, 8):
    a = Agent(lambda d: Msg(d, k).reply([(Msg(d, k).oids[0], integer(5))], tail=bytes(range(1, 1 + n))))
    s = SnmpSession("127.0.0.1", port=a.port, timeout=1.0, engine_id=k.engine, user=User("user"))
    expect(f"{n}", outcome(s.get, "1.3.6.1.2.1.1.1.0"), "SnmpDecodeError" if n else 5)
""")

bug("C16-size-slack", "C16",
    [("src/ber/header.rs", "        if i[current..].len() < length {", "        let length = length & 0xffff;\n        if i[current..].len() < length {")],
    "An element whose long-form length exceeds 65535.",
    "Only the low 16 bits of the declared length count: an element which runs past its enclosing one is accepted.",
    SYNC + """
a = Agent(lambda d: Msg(d).reply([("1.3.6.1.2.1.1.1.0", b"\\x04\\x83\\x01\\x00\\x02ab")]))
s = SnmpSession("127.0.0.1", port=a.port, timeout=1.0)
expect("length", outcome(s.get, "1.3.6.1.2.1.1.1.0"), "SnmpDecodeError")
""")

bug("C17-truncate", "C17",
    [("src/snmp/get.rs", """            // Trailing null
            null.push_ber(buf)?;
            // OID
            oid.push_ber(buf)?;
""", """            // Response has to fit as well
            if start - rest > 3800 {
                break;
            }
            // Trailing null
            null.push_ber(buf)?;
            // OID
            oid.push_ber(buf)?;
""")],
    "get_many() with more OIDs than fit the message buffer.",
    "The request is silently cut to a part of the OIDs and sent.",
    SYNC + """
a = Agent(lambda d: Msg(d).reply([("1.3.6.1.2.1.1.1.0", integer(7))]))
s = SnmpSession("127.0.0.1", port=a.port, timeout=1.0)
for n in (1, 100, 200, 250, 260, 300, 500):
    oids = [f"1.3.6.1.2.1.1.{i % 100}.0" for i in range(n)]
    r = outcome(s.get_many, oids)
    expect(f"{n}: {str(r)[:30]}", r == "SnmpEncodeError" or Msg(a.log[-1]).oids == oids, True)
""")

bug("C18-async-pause", "C18",
    [("src/gufo/snmp/async_client/client.py", """                except BlockingIOError:
                    continue
""", """                except BlockingIOError:
                    # Let the other tasks run
                    await sleep(self._timeout / 4)
                    continue
"""), ("src/gufo/snmp/async_client/client.py", "Future, get_running_loop, wait_for", "Future, get_running_loop, sleep, wait_for")],
    "A non-matching datagram ahead of the reply, while the reply arrives within the last quarter of the timeout.",
    "The async client pauses after each non-matching datagram, so a reply which arrives in time is missed.",
    ASYNC + """
def handler(d):
    m = Msg(d)
    for _ in range(4):
        yield 0.05
        yield m.reply([], request_id=m.request_id ^ 1)
    yield 0.7
    yield m.reply([(m.oids[0], integer(3))])
a = Agent(handler)
async def go():
    s = SnmpSession("127.0.0.1", port=a.port, timeout=2.0)
    t = time.perf_counter()
    try:
        r = await s.get("1.3.6.1.2.1.1.1.0")
    except TimeoutError:
        r = None
    return r, time.perf_counter() - t
r, t = asyncio.run(go())
expect("value", r, 3)
expect(f"at {t:.2f}", t < 1.3, True)
""")

bug("C19-refresh", "C19",
    [("src/gufo/snmp/async_client/client.py", """        # Refresh engine boots and time
        await self._send(self._sock.send_refresh)
""", """        # Refresh engine boots and time
        self._sock.send_refresh()
""")],
    "refresh() of a rate-limited async v3 session.",
    "The probe bypasses the limiter.",
    ASYNC + V3.split("\n", 3)[3] + """
k = Keys(auth="sha1", akey=AM)
def handler(d):
    m = Msg(d, k)
    return m.reply([(m.oids[0], integer(7))]) if m.oids else m.report(k)
a = Agent(handler)
async def go():
    s = SnmpSession("127.0.0.1", port=a.port, timeout=2.0, engine_id=k.engine, user=User("user", auth_key=Sha1Key(b"authpass1")), limit_rps=10)
    for _ in range(5):
        await s.refresh()
asyncio.run(go())
span = a.times[-1] - a.times[0]
expect(f"{len(a.times)} requests in {span:.3f}", span > 0.28, True)
""")

bug("C19-short-sleep", "C19",
    [("src/gufo/snmp/policer.py", """        if delta and delta > 0:
            sleep(float(delta) / NS)""", """        # Too short to sleep
        if delta and delta >= 1_000_000:
            sleep(float(delta) / NS)""")],
    "A sync session limited to more than 1000 requests per second.",
    "Delays below one millisecond are skipped, so such sessions are not limited at all.",
    SYNC + """
a = Agent(lambda d: Msg(d).reply([("1.3.6.1.2.1.1.1.0", integer(7))]))
for rps in (100, 1500):
    s = SnmpSession("127.0.0.1", port=a.port, timeout=2.0, limit_rps=rps)
    n = 60
    t = time.perf_counter()
    for _ in range(n):
        # Sending paces the session even if the reply is late
        s._policer.wait_sync()
    dt = time.perf_counter() - t
    expect(f"{n} requests at {rps} take {dt:.4f}", dt > (n - 2) / rps, True)
""")

# --- third round -----------------------------------------------------------------------------------
V3D = ASYNC + V3.split("\n", 3)[3]

bug("C12-long-engine", "C12",
    [("src/auth/digest.rs", """        hasher.update(key);
        hasher.update(locality);
        hasher.update(key);
        let digest = hasher.finalize();
        out""", """        let locality = &locality[..locality.len().min(32)];
        hasher.update(key);
        hasher.update(locality);
        hasher.update(key);
        let digest = hasher.finalize();
        out""")],
    "An engine id of more than 32 octets.",
    "The engine id is cut to 32 octets when the key is localized.",
    """
from gufo.snmp.user import Md5Key, Sha1Key
m = bytes(range(20))
for n in (0, 5, 12, 31, 32, 33, 64, 100):
    e = bytes((i * 5 + 128) & 0xFF for i in range(n))
    expect(f"md5 {n}", Md5Key.get_localized_key(m[:16], e), localize("md5", m[:16], e))
    expect(f"sha1 {n}", Sha1Key.get_localized_key(m, e), localize("sha1", m, e))
""")

bug("C14-adopt-salt", "C14",
    [("src/privacy/aes128.rs", """        // Decrypt
        let decryptor = Aes128CfbDecrypror::new_from_slices(&self.key, &iv)
""", """        // Both sides may share the key, do not collide with the agent's salts
        let mut salt = [0u8; SALT_SIZE];
        salt.copy_from_slice(usm.privacy_params);
        let salt = u64::from_be_bytes(salt);
        if salt >= self.salt_value {
            self.salt_value = salt.wrapping_add(1);
        }
        // Decrypt
        let decryptor = Aes128CfbDecrypror::new_from_slices(&self.key, &iv)
""")],
    "An AES session whose agent uses a salt above the session's own one.",
    "The session's counter jumps to the agent's salt, so that it does not advance by one (and may come back to former values).",
    V3 + """
k = Keys(auth="sha1", akey=AM, priv="aes", pkey=PM)
salts = []
def handler(d):
    m = Msg(d, k)
    salts.append(int.from_bytes(m.salt, "big"))
    return m.reply([(m.oids[0], integer(3))], salt=b"\\xff" * 6 + bytes([len(salts), 0]))
a = Agent(handler)
s = SnmpSession("127.0.0.1", port=a.port, timeout=2.0, engine_id=k.engine,
                user=User("user", auth_key=Sha1Key(b"authpass1"), priv_key=Aes128Key(b"privpass1")))
for n in range(6):
    expect(f"get {n}", outcome(s.get, "1.3.6.1.2.1.1.1.0"), 3)
expect("steps", {(y - x) % 2**64 for x, y in zip(salts, salts[1:])}, {1})
""")

bug("C11-large", "C11",
    [("src/privacy/aes128.rs", """        // Encrypt
        let encryptor""", """        // The payload is limited by the maximal message size
        let padded_len = padded_len.min(2048);
        // Encrypt
        let encryptor""")],
    "An AES request with a scoped PDU of more than 2048 octets.",
    "The payload is cut to 2048 octets.",
    V3 + """
k = Keys(auth="sha1", akey=AM, priv="aes", pkey=PM)
a = Agent(lambda d: Msg(d, k).reply([("1.3.6.1.2.1.1.1.0", integer(3))]))
s = SnmpSession("127.0.0.1", port=a.port, timeout=0.7, engine_id=k.engine,
                user=User("user", auth_key=Sha1Key(b"authpass1"), priv_key=Aes128Key(b"privpass1")))
for n in (1, 50, 100, 110, 120, 130, 150, 200):
    oids = [f"1.3.6.1.2.1.2.2.1.{i % 100}.{i}" for i in range(n)]
    expect(f"{n} oids", outcome(s.get_many, oids), {"1.3.6.1.2.1.1.1.0": 3})
    expect(f"{n} sent", Msg(a.log[-1], k).oids, oids)
""")

bug("C15-user-32", "C15",
    [("src/snmp/msg/v3/usm.rs", """        // Auth parameters
        let (tail, auth_parameters)""", """        // RFC-3414, pp. 2.4: SnmpAdminString (SIZE(0..32))
        if user_name.0.len() > 32 {
            return Err(SnmpError::InvalidData);
        }
        // Auth parameters
        let (tail, auth_parameters)"""),
     ("src/snmp/msg/v3/usm.rs", "use crate::error::{SnmpError, SnmpResult};", "use crate::error::{SnmpError, SnmpResult};")],
    "A user name of more than 32 octets.",
    "The library encodes messages for such a user but does not decode them.",
    V3 + """
for n in (4, 31, 32, 33, 60, 130):
    name = "u" * n
    k = Keys(user=name)
    a = Agent(lambda d: Msg(d, k).reply([("1.3.6.1.2.1.1.1.0", integer(3))]))
    s = SnmpSession("127.0.0.1", port=a.port, timeout=0.7, engine_id=k.engine, user=User(name))
    expect(f"user of {n}", outcome(s.get, "1.3.6.1.2.1.1.1.0"), 3)
""")

bug("C07-many-break", "C07",
    [("src/snmp/op/getmany.rs", """                        SnmpValue::Null
                        | SnmpValue::NoSuchObject
                        | SnmpValue::NoSuchInstance
                        | SnmpValue::EndOfMibView => continue,
""", """                        SnmpValue::Null
                        | SnmpValue::NoSuchObject
                        | SnmpValue::NoSuchInstance => continue,
                        // Nothing behind the end of view
                        SnmpValue::EndOfMibView => break,
""")],
    "A get_many() reply with endOfMibView ahead of real values.",
    "All varbinds behind an endOfMibView are lost.",
    SYNC + """
o = [f"1.3.6.1.2.1.1.{i}.0" for i in range(1, 5)]
for e in (NULL, NO_SUCH_OBJECT, NO_SUCH_INSTANCE, END_OF_MIB):
    for at in range(4):
        a = Agent(lambda d: Msg(d).reply([(x, e if i == at else integer(i)) for i, x in enumerate(o)]))
        s = SnmpSession("127.0.0.1", port=a.port, timeout=1.0)
        expect(f"{e.hex()} at {at}", outcome(s.get_many, o), {x: i for i, x in enumerate(o) if i != at})
""")

bug("C04-any-version", "C04",
    [("src/snmp/msg/v2c.rs", """        if vc != SNMP_V2C {""", """        if vc > SNMP_V2C {""")],
    "A v1 reply to a v2c request, matching in everything but the version.",
    "A v2c session accepts v1 messages.",
    SYNC + """
def handler(d):
    m = Msg(d)
    m.version = v
    return m.reply([(m.oids[0], integer(3))])
a = Agent(handler)
s = SnmpSession("127.0.0.1", port=a.port, timeout=0.7)
for v, want in ((1, 3), (0, "SnmpDecodeError"), (2, "SnmpDecodeError")):
    expect(f"version {v}", outcome(s.get, "1.3.6.1.2.1.1.1.0"), want)
""")

bug("C03-long-community", "C03",
    [("src/snmp/msg/v2c.rs", """        buf.push_tagged(TAG_OCTET_STRING, self.community)?;""", """        let community = &self.community[..self.community.len().min(255)];
        buf.push_tagged(TAG_OCTET_STRING, community)?;""")],
    "A v2c community of more than 255 octets.",
    "The community is cut to 255 octets.",
    SYNC + """
for n in (1, 127, 128, 255, 256, 1000):
    c = "".join(chr(97 + i % 26) for i in range(n))
    a = Agent(lambda d: Msg(d).reply([("1.3.6.1.2.1.1.1.0", integer(3))], community=c))
    s = SnmpSession("127.0.0.1", port=a.port, timeout=0.7, community=c)
    expect(f"community of {n}", (outcome(s.get, "1.3.6.1.2.1.1.1.0"), Msg(a.log[0]).community), (3, c.encode()))
""")


bug("C13-stale-after-wrap", "C13",
    [("src/socket/v3.rs", """        // Update engine parameters
        self.engine_boots = msg.usm.engine_boots;
        self.engine_time = msg.usm.engine_time;
""", """        // Update engine parameters, RFC-3414, pp. 3.2.7: not for the latched boots
        if msg.usm.engine_boots < i32::MAX as i64 {
            self.engine_boots = msg.usm.engine_boots;
            self.engine_time = msg.usm.engine_time;
        }
""")],
    "An agent whose engine boots are latched at 2^31-1.",
    "The session keeps the former boots and time instead of those of the last accepted message.",
    V3 + """
k = Keys()
seen = []
B = [5, 2**31 - 2, 2**31 - 1, 2**31 - 1, 6, 7]
def handler(d):
    m = Msg(d, k)
    seen.append((m.boots, m.time))
    return m.reply([(m.oids[0], integer(3))], boots=B[len(seen) - 1], tm=100 + len(seen))
a = Agent(handler)
s = SnmpSession("127.0.0.1", port=a.port, timeout=0.7, engine_id=k.engine, user=User("user"))
for _ in B:
    outcome(s.get, "1.3.6.1.2.1.1.1.0")
expect("stamps", seen[1:], [(b, 101 + i) for i, b in enumerate(B)][:-1])
""")



bug("C03-pool-reset", "C03",
    [("src/buf/pool.rs", """        if let Some(mut buf) = self.buf.take() {
            buf.reset();
            let mut pool = self.pool.lock().unwrap();
            pool.push(buf);
""", """        if let Some(buf) = self.buf.take() {
            let mut pool = self.pool.lock().unwrap();
            pool.push(buf);
            if let Some(buf) = pool.first_mut() {
                buf.reset();
            }
""")],
    "Two buffers in the pool, which takes two sessions in different threads, one of them waiting for its reply.",
    "A buffer that comes back to a pool which is not empty keeps its contents: the next message built in it is followed by the old one.",
    SYNC + """
import threading
k = []
def handler(d):
    m = Msg(d)
    if m.oids[0].endswith("9.0"):
        time.sleep(0.5)
    return m.reply([(m.oids[0], integer(3))])
a, b = Agent(handler), Agent(handler)
s = SnmpSession("127.0.0.1", port=a.port, timeout=2.0)
t = SnmpSession("127.0.0.1", port=b.port, timeout=2.0)
th = threading.Thread(target=lambda: k.append(outcome(s.get, "1.3.6.1.2.1.1.9.0")))
th.start()
time.sleep(0.1)
expect("while the other thread waits", outcome(t.get, "1.3.6.1.2.1.1.1.0"), 3)
th.join()
expect("the other thread", k, [3])
for i in range(4):
    expect(f"afterwards {i}", outcome(t.get, "1.3.6.1.2.1.1.2.0"), 3)
expect("agents", (a.error, b.error), (None, None))
expect("the request", [Msg(x).oids for x in b.log[1:]], [["1.3.6.1.2.1.1.2.0"]] * 4)
expect("octets behind the request", [len(x) - 2 - x[1] for x in b.log], [0] * 5)
""")

# --- second series ------------------------------------------------------------------------------
bug("C11-request-time", "C11",
    [("src/privacy/aes128.rs", """        iv[..4].clone_from_slice(&(usm.engine_boots as u32).to_be_bytes());
        iv[4..8].clone_from_slice(&(usm.engine_time as u32).to_be_bytes());
        iv[8..].clone_from_slice(usm.privacy_params);
""", """        iv[8..].clone_from_slice(usm.privacy_params);
        // Boots and time are the ones of the request while the agent's clock has not moved
        let asked = i64::from(u32::from_be_bytes(
            self.priv_params[4..8].try_into().unwrap_or_default(),
        ));
        if self.priv_params[..4] == (usm.engine_boots as u32).to_be_bytes()
            && (asked + 4..asked + 16).contains(&usm.engine_time)
        {
            iv[..8].clone_from_slice(&self.priv_params[..8]);
        } else {
            iv[..4].clone_from_slice(&(usm.engine_boots as u32).to_be_bytes());
            iv[4..8].clone_from_slice(&(usm.engine_time as u32).to_be_bytes());
        }
""")],
    "AES and an agent whose clock went on by a few seconds since the time stamped on the request.",
    "Such replies are decrypted with the request's engine time instead of the reply's one, so they are lost.",
    V3 + """
k = Keys(auth="sha1", akey=AM, priv="aes", pkey=PM)
T = [1000, 1000, 1001, 1007, 1020, 1036]
n = [0]
def handler(d):
    m = Msg(d, k)
    t = T[n[0]]
    n[0] += 1
    return m.reply([(m.oids[0], integer(3))], tm=t)
a = Agent(handler)
s = SnmpSession("127.0.0.1", port=a.port, timeout=1.0, engine_id=k.engine,
                user=User("user", auth_key=Sha1Key(b"authpass1"), priv_key=Aes128Key(b"privpass1")))
for t in T:
    expect(f"get {t}", outcome(s.get, "1.3.6.1.2.1.1.1.0"), 3)
expect("agent", a.error, None)
""")

bug("C02-four-octet-length", "C02",
    [("src/ber/header.rs", "for _ in 0..n & 0x7f {", "for _ in 0..n & 0x03 {")],
    "A length in the long form with four octets (0x84), as several agents send it.",
    "The length octets are not read, so the element seems to be empty.",
    SYNC + """
def wide(n):
    def tl(tag, body):
        return bytes([tag, 0x80 + n]) + len(body).to_bytes(n, "big") + body
    return tl
for n in (1, 2, 3, 4, 5):
    tl = wide(n)
    a = Agent(lambda d: Msg(d).reply([tl(0x30, oid("1.3.6.1.2.1.1.1.0") + tl(4, b"abc"))]))
    s = SnmpSession("127.0.0.1", port=a.port, timeout=2.0)
    expect(f"{n} length octets", outcome(s.get, "1.3.6.1.2.1.1.1.0"), b"abc")
""")

bug("C11-long-reply", "C11",
    [("src/privacy/des.rs", """        self.buf.skip(data.len());
        let b = self.buf.data_mut();
        decryptor""", """        // Requests and replies are much smaller than the buffer
        let data = &data[..data.len().min(2048)];
        self.buf.skip(data.len());
        let b = self.buf.data_mut();
        decryptor""")],
    "A DES-encrypted response of more than 2048 octets.",
    "Only the first 2048 octets are decrypted, the response is dropped.",
    V3 + """
k = Keys(auth="sha1", akey=AM, priv="des", pkey=PM)
for n in (1, 300, 1900, 2100, 3500):
    a = Agent(lambda d: Msg(d, k).reply([("1.3.6.1.2.1.1.1.0", octets(b"x" * n))]))
    s = SnmpSession("127.0.0.1", port=a.port, timeout=1.0, engine_id=k.engine,
                    user=User("user", auth_key=Sha1Key(b"authpass1"), priv_key=DesKey(b"privpass1")))
    expect(f"{n} octets", outcome(s.get, "1.3.6.1.2.1.1.1.0"), b"x" * n)
    expect(f"agent {n}", a.error, None)
""")

bug("C05-shared-buffer", "C05",
    [("src/gufo/snmp/sync_client/getbulk.py", """        self._buffer: List[Union[Tuple[str, ValueType], None]] = []
        self._policer = policer
""", """        self._policer = policer
"""), ("src/gufo/snmp/sync_client/getbulk.py", """    def __init__(
        self: "GetBulkIter",
        sock""", """    _buffer: List[Union[Tuple[str, ValueType], None]] = []

    def __init__(
        self: "GetBulkIter",
        sock"""),
     ("src/gufo/snmp/sync_client/getbulk.py", "self._buffer = self._sock.get_bulk(self._ctx)", "self._buffer.extend(self._sock.get_bulk(self._ctx))")],
    "A GetBulk walk which starts before another one is read to its end.",
    "The buffer of received items is shared by all walks of the process.",
    SYNC + """
mib = {f"1.3.6.1.{b}.{i}": integer(100 * b + i) for b in (2, 3) for i in range(1, 8)}
a = Agent(responder(mib))
s = SnmpSession("127.0.0.1", port=a.port, timeout=1.0)
want = {b: [(f"1.3.6.1.{b}.{i}", 100 * b + i) for i in range(1, 8)] for b in (2, 3)}
expect("walk", outcome(lambda: list(s.getbulk("1.3.6.1.2", 3))), want[2])
expect("walk", outcome(lambda: list(s.getbulk("1.3.6.1.3", 3))), want[3])
x = s.getbulk("1.3.6.1.2", 3)
expect("first", outcome(next, x), want[2][0])
expect("other", outcome(lambda: list(s.getbulk("1.3.6.1.3", 3))), want[3])
expect("rest", outcome(lambda: list(x)), want[2][1:])
expect("agent", a.error, None)
""")

bug("C07-many-filter", "C07",
    [("src/gufo/snmp/async_client/client.py", "        return await self._recv(self._sock.recv_get_many)", """        asked = list(oids)
        result = await self._recv(self._sock.recv_get_many)
        # The agent must not add anything
        return {k: v for k, v in result.items() if k in asked}"""),
     ("src/gufo/snmp/async_client/client.py", "            self._sock.send_get_many(list(oids))", "            self._sock.send_get_many(list(oids))  # consumes iterators")],
    "get_many() of the async client with OIDs given by a generator, or an agent which returns other OIDs.",
    "Returned varbinds which are not among the OIDs as they are spelled by the caller are lost.",
    ASYNC + """
O = ["1.3.6.1.2.1.1.1.0", "1.3.6.1.2.1.1.2.0"]
def handler(d):
    return Msg(d).reply([(O[0], integer(5)), ("1.3.6.1.2.1.1.3.0", integer(6)), (O[1], integer(7))])
a = Agent(handler)
async def go(oids):
    s = SnmpSession("127.0.0.1", port=a.port, timeout=1.0)
    return await s.get_many(oids)
want = {O[0]: 5, "1.3.6.1.2.1.1.3.0": 6, O[1]: 7}
expect("list", outcome(lambda: asyncio.run(go(O))), want)
expect("generator", outcome(lambda: asyncio.run(go(x for x in O))), want)
""")

bug("C19-slow-rate", "C19",
    [("src/gufo/snmp/policer.py", "            await asyncio.sleep(float(delta) / NS)", """            # Never stall a caller
            await asyncio.sleep(min(float(delta) / NS, 1.0))""")],
    "An async session limited to less than one request per second.",
    "The delay is cut to one second, so the rate exceeds rps.",
    ASYNC + """
a = Agent(lambda d: Msg(d).reply([("1.3.6.1.2.1.1.1.0", integer(7))]))
async def go(rps, n):
    s = SnmpSession("127.0.0.1", port=a.port, timeout=2.0, limit_rps=rps)
    t = time.perf_counter()
    for _ in range(n):
        await s.get("1.3.6.1.2.1.1.1.0")
    return time.perf_counter() - t
for rps, n in ((5.0, 5), (0.5, 4)):
    dt = asyncio.run(go(rps, n))
    expect(f"{n} requests at {rps} take {dt:.3f}", dt > (n - 2) / rps, True)
""")

bug("C01-negative-boots", "C01",
    [("src/privacy/aes128.rs", "        iv[..4].clone_from_slice(&(usm.engine_boots as u32).to_be_bytes());",
      "        iv[..4].clone_from_slice(&u32::try_from(usm.engine_boots).unwrap().to_be_bytes());")],
    "An encrypted datagram for an AES session with a negative msgAuthoritativeEngineBoots.",
    "The conversion panics.",
    V3 + """
k = Keys(auth="sha1", akey=AM, priv="aes", pkey=PM)
B = [7, -1, 8]
n = [0]
def handler(d):
    m = Msg(d, k)
    n[0] += 1
    return [m.reply([(m.oids[0], integer(1))], boots=B[n[0] - 1], sign=False), m.reply([(m.oids[0], integer(3))])]
a = Agent(handler)
s = SnmpSession("127.0.0.1", port=a.port, timeout=1.0, engine_id=k.engine,
                user=User("user", auth_key=Sha1Key(b"authpass1"), priv_key=Aes128Key(b"privpass1")))
for b in B:
    expect(f"get {b}", outcome(s.get, "1.3.6.1.2.1.1.1.0"), 3)
expect("agent", a.error, None)
""")

bug("C18-next-retry", "C18",
    [("src/gufo/snmp/sync_client/getnext.py", """        except BlockingIOError as e:
            raise TimeoutError from e""", """        except BlockingIOError:
            # Lost datagram, try once more
            pass
        try:
            return self._sock.get_next(self._ctx)
        except StopAsyncIteration as e:
            raise StopIteration from e
        except BlockingIOError as e:
            raise TimeoutError from e""")],
    "A GetNext walk of the sync client and an agent which keeps silent.",
    "The request is repeated, the call takes two timeouts.",
    SYNC + """
def handler(d):
    return None
a = Agent(handler)
s = SnmpSession("127.0.0.1", port=a.port, timeout=0.5)
for f in (lambda: s.get("1.3.6"), lambda: next(s.getnext("1.3.6")), lambda: next(s.getbulk("1.3.6"))):
    t = time.perf_counter()
    expect("call", outcome(f), "TimeoutError")
    dt = time.perf_counter() - t
    expect(f"took {dt:.3f}", dt < 0.8, True)
""")

# --- third series: files no other planted bug touches ---------------------------------------------
bug("C01-tag-dump", "C01",
    [("src/snmp/value.rs", """                            "Context primitive tag {}: {:X?}",
                            hdr.tag, i
""", """                            "Context primitive tag {}: {:X?}",
                            hdr.tag,
                            &i[..4]
""")],
    "An unknown context-specific tag whose value, as the last of the datagram, is shorter than two octets.",
    "The text of the error shows the first four octets of the value, which are not always there: a panic.",
    SYNC + """
for body in (b"abc", b"ab", b"a", b""):
    a = Agent(lambda d: Msg(d).reply([("1.3.6.1.2.1.1.1.0", tlv(0x85, body))]))
    s = SnmpSession("127.0.0.1", port=a.port, timeout=2.0)
    expect(f"{len(body)} octets", outcome(s.get, "1.3.6.1.2.1.1.1.0"), "SnmpDecodeError")
""")

bug("C02-relative-long", "C02",
    [("src/ber/relative_oid.rs", "let rel_si = SnmpRelativeOid::subelements(self.0);", "let rel_si = self.0.len();")],
    "A name sent as RELATIVE-OID with an arc of 128 or more.",
    "Octets are taken for arcs: too many arcs of the previous name are replaced.",
    SYNC + """
def rel(*arcs):
    return tlv(13, b"".join(b128(x) for x in arcs))
B = "1.3.6.1.2.1.2.2.1.10.11"
for arcs in ((12,), (127,), (128,), (11, 3), (10, 16384)):
    a = Agent(lambda d: Msg(d).reply([(B, integer(1)), seq(rel(*arcs), integer(2))]))
    s = SnmpSession("127.0.0.1", port=a.port, timeout=2.0)
    n = B.split(".")[:-len(arcs)] + [str(x) for x in arcs]
    expect(f"{arcs}", outcome(s.get_many, [B]), {B: 1, ".".join(n): 2})
""")

bug("C02-descriptor-nul", "C02",
    [("src/ber/objectdescriptor.rs", "Ok(SnmpObjectDescriptor(&i[..h.length]))", """// Some agents send a C string
        let v = &i[..h.length];
        Ok(SnmpObjectDescriptor(v.strip_suffix(&[0]).unwrap_or(v)))""")],
    "An ObjectDescriptor value whose last octet is zero.",
    "The trailing zero octet is dropped.",
    SYNC + """
for v in (b"", b"abc", b"a\\x00c", b"abc\\x00", b"\\x00"):
    a = Agent(lambda d: Msg(d).reply([("1.3.6.1.2.1.1.1.0", tlv(7, v))]))
    s = SnmpSession("127.0.0.1", port=a.port, timeout=2.0)
    expect(f"{v}", outcome(s.get, "1.3.6.1.2.1.1.1.0"), v)
""")

bug("C03-wide-reps", "C03",
    [("src/snmp/getbulk.rs", "let max_repetitions: SnmpInt = self.max_repetitions.into();",
      "let max_repetitions: SnmpInt = self.max_repetitions.min(0x7fff).into();")],
    "getbulk() with max_repetitions above 32767.",
    "The request asks for 32767 repetitions whatever the caller wants.",
    SYNC + """
for n in (1, 127, 128, 255, 32767, 32768, 65535, 2**31 - 1):
    got = []
    def handler(d):
        m = Msg(d)
        got.append(m.n2)
        return m.reply([])
    a = Agent(handler)
    s = SnmpSession("127.0.0.1", port=a.port, timeout=2.0)
    list(s.getbulk("1.3.6.1.2.1", max_repetitions=n))
    expect(f"max-repetitions {n}", got, [n])
""")

bug("C07-empty-string", "C07",
    [("src/snmp/op/get.rs", "SnmpValue::Null => Ok(PyNone::get(py).as_any().to_owned()),",
      """SnmpValue::Null => Ok(PyNone::get(py).as_any().to_owned()),
                            SnmpValue::OctetString(x) if x.0.is_empty() => {
                                Ok(PyNone::get(py).as_any().to_owned())
                            }""")],
    "get() of an object whose value is the empty OCTET STRING.",
    "None is returned as if the value was NULL.",
    SYNC + """
for v, want in ((octets(b"a"), b"a"), (octets(b""), b""), (integer(0), 0), (NULL, None)):
    a = Agent(lambda d: Msg(d).reply([("1.3.6.1.2.1.1.1.0", v)]))
    s = SnmpSession("127.0.0.1", port=a.port, timeout=2.0)
    expect(f"{v}", outcome(s.get, "1.3.6.1.2.1.1.1.0"), want)
""")

bug("C11-context-name", "C11",
    [("src/snmp/msg/v3/scoped.rs", """        let (tail, _ctx_engine_name) = SnmpOctetString::from_ber(tail)?;
""", """        // The default context is requested, so the reply is for the default context, too
        let (_ctx_engine_name, tail) = tail
            .split_at_checked(EMPTY_BER.len())
            .ok_or(SnmpError::Incomplete)?;
""")],
    "A reply with a context name.",
    "The content of the context name is taken for the PDU, so the reply fails to decode.",
    V3 + """
import minisnmp
k = Keys(auth="sha1", akey=AM, priv="aes", pkey=PM)
for name in (b"", b"ctx"):
    def handler(d):
        o = minisnmp.octets
        n = [0]
        def octets_(b):
            if not b and not n[0]:
                n[0] = 1
                return o(name)
            return o(b)
        m = Msg(d, k)
        minisnmp.octets = octets_
        try:
            return m.reply([(m.oids[0], integer(3))])
        finally:
            minisnmp.octets = o
    a = Agent(handler)
    s = SnmpSession("127.0.0.1", port=a.port, timeout=1.0, engine_id=k.engine,
                    user=User("user", auth_key=Sha1Key(b"authpass1"), priv_key=Aes128Key(b"privpass1")))
    expect(f"get {name}", outcome(s.get, "1.3.6.1.2.1.1.1.0"), 3)
    expect("agent", a.error, None)
""")

bug("C12-strip-password", "C12",
    [("src/gufo/snmp/user.py", """        self.key = key
        self.key_type = key_type
""", """        # Passwords are often read from the files, drop trailing newline
        self.key = key.rstrip() if key_type.is_password else key
        self.key_type = key_type
""")],
    "A password which ends with a white space octet.",
    "Keys are derived from the password without its trailing white space.",
    V3 + """
for pw in (b"authpass1", b"auth pass", b"authpass1 ", b"authpass\\n"):
    k = Keys(auth="sha1", akey=master("sha1", pw))
    def handler(d):
        m = Msg(d, k)
        return m.reply([(m.oids[0], integer(3))]) if m.mac_ok() else None
    a = Agent(handler)
    s = SnmpSession("127.0.0.1", port=a.port, timeout=0.3, engine_id=k.engine, user=User("user", auth_key=Sha1Key(pw)))
    expect(f"get {pw}", outcome(s.get, "1.3.6.1.2.1.1.1.0"), 3)
    expect("agent", a.error, None)
""")

# --- fourth series -----------------------------------------------------------------------------
bug("C13-adopt-first", "C13",
    [("src/socket/v3.rs", """        // Global header check
        if !(self""", """        // Update engine parameters
        if msg.usm.engine_id == self.engine_id {
            self.engine_boots = msg.usm.engine_boots;
            self.engine_time = msg.usm.engine_time;
        }
        // Global header check
        if !(self""")],
    "A datagram of the right engine which is not accepted, and no accepted one before the next request.",
    "The next request is stamped with the boots and time of a message which was not accepted.",
    V3 + """
k = Keys(auth="sha1", akey=AM)
n = [0]
def handler(d):
    m = Msg(d, k)
    n[0] += 1
    vb = [(o, integer(n[0])) for o in m.oids]
    if n[0] == 2:
        return m.reply(vb, boots=99, tm=123456, request_id=m.request_id ^ 1)
    return m.reply(vb)
a = Agent(handler)
s = SnmpSession("127.0.0.1", port=a.port, timeout=0.3, engine_id=k.engine, user=User("user", auth_key=Sha1Key(b"authpass1")))
expect("first", outcome(s.get, "1.3.6.1.2.1.1.1.0"), 1)
expect("second", outcome(s.get, "1.3.6.1.2.1.1.1.0"), "TimeoutError")
expect("third", outcome(s.get, "1.3.6.1.2.1.1.1.0"), 3)
m = Msg(a.log[-1], k)
expect("stamp", (m.boots, m.time), (7, 1000))
""")

bug("C04-empty-engine", "C04",
    [("src/socket/v3.rs", "(self.engine_id.is_empty() || msg.usm.engine_id == self.engine_id)",
      "(self.engine_id.is_empty() || msg.usm.engine_id.is_empty() || msg.usm.engine_id == self.engine_id)")],
    "A v3 response with the right user and ids and an empty engine id.",
    "The response is delivered though its engine id is not the session's one.",
    V3 + """
k = Keys()
def handler(d):
    m = Msg(d, k)
    o = m.oids[0]
    return [m.reply([(o, integer(1))], engine=b""), m.reply([(o, integer(3))])]
a = Agent(handler)
s = SnmpSession("127.0.0.1", port=a.port, timeout=2.0, engine_id=k.engine, user=User("user"))
expect("v3", outcome(s.get, "1.3.6.1.2.1.1.1.0"), 3)
""")

bug("C04-user-nul", "C04",
    [("src/socket/v3.rs", "if !(self.user_name.as_bytes() == msg.usm.user_name",
      "if !(self.user_name.as_bytes().trim_ascii_end() == msg.usm.user_name.trim_ascii_end()")],
    "A v3 response whose user name differs from the session's in trailing white space only.",
    "The response of another user is delivered.",
    V3 + """
k = Keys()
def handler(d):
    m = Msg(d, k)
    o = m.oids[0]
    return [m.reply([(o, integer(1))], user="user "), m.reply([(o, integer(3))])]
a = Agent(handler)
s = SnmpSession("127.0.0.1", port=a.port, timeout=2.0, engine_id=k.engine, user=User("user"))
expect("v3", outcome(s.get, "1.3.6.1.2.1.1.1.0"), 3)
""")

bug("C06-null-advance", "C06",
    [("src/snmp/op/getbulk.rs", """                        | SnmpValue::EndOfMibView => continue,
""", """                        | SnmpValue::EndOfMibView => {
                            // Step over, not to get it again
                            b_iter.set_next_oid(&var.oid);
                            continue;
                        }
""")],
    "A bulk reply with a NULL or noSuch value behind a real one.",
    "The follow-up request starts at an OID which was not accepted, so entries may be skipped.",
    SYNC + """
B = "1.3.6.1.2.1.2"
def handler(d):
    m = Msg(d)
    if m.oids[0] == B:
        return m.reply([(B + ".1", integer(1)), (B + ".5", NO_SUCH_INSTANCE)])
    if m.oids[0] == B + ".1":
        return m.reply([(B + ".3", integer(3)), ("1.3.6.1.2.1.3.0", integer(0))])
    return m.reply([("1.3.6.1.2.1.3.0", integer(0))])
a = Agent(handler)
s = SnmpSession("127.0.0.1", port=a.port, timeout=2.0)
expect("walk", outcome(lambda: list(s.getbulk(B))), [(B + ".1", 1), (B + ".3", 3)])
expect("follow-up", [Msg(d).oids[0] for d in a.log], [B, B + ".1"])
""")

bug("C01-user-utf8", "C01",
    [("src/socket/v3.rs", """        if !(self.user_name.as_bytes() == msg.usm.user_name
""", """        let user_name = std::str::from_utf8(msg.usm.user_name).expect("user name");
        if !(self.user_name == user_name
""")],
    "A v3 datagram whose user name is not UTF-8.",
    "The conversion panics.",
    V3 + """
k = Keys()
def handler(d):
    m = Msg(d, k)
    o = m.oids[0]
    return [m.reply([(o, integer(1))], user=b"us\\xe9r"), m.reply([(o, integer(3))])]
a = Agent(handler)
s = SnmpSession("127.0.0.1", port=a.port, timeout=2.0, engine_id=k.engine, user=User("user"))
expect("v3", outcome(s.get, "1.3.6.1.2.1.1.1.0"), 3)
""")

bug("C07-get-dup", "C07",
    [("src/snmp/op/get.rs", """                    // Return value
                    1 => {
""", """                    // Return value, some agents repeat it
                    n if n == 1 || resp.vars.iter().all(|v| v.oid == resp.vars[0].oid) => {
""")],
    "A reply to get() with several varbinds of the same OID.",
    "The first value is returned instead of SnmpError.",
    SYNC + """
def handler(d):
    m = Msg(d)
    return m.reply([(m.oids[0], integer(i)) for i in (1, 2)])
a = Agent(handler)
s = SnmpSession("127.0.0.1", port=a.port, timeout=1.0)
from gufo.snmp import SnmpError
try:
    r = s.get("1.3.6.1.2.1.1.1.0")
except SnmpError:
    r = "SnmpError"
expect("get", r, "SnmpError")
""")

bug("C15-many-vars", "C15",
    [("src/snmp/get.rs", """            vars.push(oid);
            v_tail = rest;
""", """            vars.push(oid);
            v_tail = if vars.len() < 128 { rest } else { &[] };
""")],
    "A Get request of more than 128 OIDs.",
    "The library's decoder returns the first 128 of them.",
    SYNC + """
# The request goes back to the session with another id, malformed behind its 150th OID: it is refused only when all of it is read
def handler(d):
    m = Msg(d)
    i = d.index(b"\\x06", len(d) - 12)
    d = d[:i] + b"\\x07" + d[i + 1:]
    r = integer(m.request_id)
    return d.replace(r, r[:-1] + bytes([r[-1] ^ 1]), 1)
a = Agent(handler)
s = SnmpSession("127.0.0.1", port=a.port, timeout=0.3)
for n in (2, 100, 150):
    l = [f"1.3.6.1.2.1.1.{i}" for i in range(n)]
    expect(f"{n} OIDs", outcome(s.get_many, l), "SnmpDecodeError")
expect("agent", a.error, None)
""")

bug("C18-hour", "C18",
    [("src/gufo/snmp/sync_client/client.py", "timeout_ns = int(timeout * NS)", "timeout_ns = int(timeout * NS) & 0xFFFFFFFFFF")],
    "A sync session with a timeout of more than 1099 seconds.",
    "The timeout is taken modulo 2^40 ns: the call ends too early.",
    SYNC + """
import threading
def handler(d):
    m = Msg(d)
    return [0.5, m.reply([(m.oids[0], integer(7))])]
a = Agent(handler)
s = SnmpSession("127.0.0.1", port=a.port, timeout=1099.6)
expect("get", outcome(s.get, "1.3.6.1.2.1.1.1.0"), 7)
""")
