"""writes MANIFEST.json from the property modules (run in /verif)"""
import importlib, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
TECH = {
    "C01": "bounded-exhaustive execution of the real receive path over malformed datagrams in a virtual network",
    "C02": "bounded-exhaustive enumeration of replies against an independent BER denotation, on the real client",
    "C03": "explicit-state exploration of all call histories of the real client, every datagram compared with an independent encoder",
    "C04": "explicit-state exploration of all reply schedules against an executable receive predicate, on the real client",
    "C05": "exhaustive exploration of all small MIBs with an RFC 3416 agent model driving the real client",
    "C06": "depth-first exploration of all agent strategies (reply choice per request) against a walk automaton, on the real client",
    "C07": "bounded-exhaustive enumeration of replies against the result-mapping specification, on the real client",
    "C08": "bounded-exhaustive enumeration of OID strings against grammar + canonical encoder, on the real client",
    "C09": "explicit-state exploration of all call histories of the real client, every MAC recomputed independently",
    "C10": "bounded-exhaustive enumeration of forgeries (all bit flips, MACs, flags, keys; pairs) against the accept predicate",
    "C11": "explicit-state exploration of all call/reply histories, every datagram decrypted by an independent DES/AES",
    "C12": "bounded-exhaustive enumeration of passwords, engine ids, codes and access paths against hashlib",
    "C13": "explicit-state exploration of all agent histories (discovery, boots/time, reports, loss) against a USM client model",
    "C14": "explicit-state exploration of all call histories with a scripted entropy source; salt and clear-text monitors",
    "C15": "bounded-exhaustive round trips through the real codec, compared with the unique minimal encoding",
    "C16": "bounded-exhaustive enumeration of elements x following octets and of wrong lengths at every node",
    "C17": "explicit-state exploration of all buffer-operation sequences (shadow-vector model) + octet-by-octet size sweeps of real requests",
    "C18": "exploration of all arrival schedules in virtual time, on the real sync and async client",
    "C19": "explicit-state exploration with the real policer as transition function (complete graph per interval, shortest-path windows) + virtual-time sessions",
}
checks = []
for i in range(1, 20):
    p = f"C{i:02d}"
    m = importlib.import_module(f"mc.props.c{i:02d}")
    checks.append({
        "property": p, "quick_cmd": f"./check {p}", "thorough_cmd": f"./check {p} --tier thorough",
        "evidence_file": f"evidence/{p}.json", "technique": "model checking: " + TECH[p], "level": m.LEVEL,
        "level_note": "Every behaviour inside the stated bounds is executed on the real client built from /repo's working tree and "
                      "compared with an independent executable specification. Bounds (quick): " + m.BOUNDS["quick"] +
                      ". Assumes: " + "; ".join(m.ASSUMPTIONS) + ". Trusts: the virtual network/clock/entropy layer (mc/vnet), the oracles "
                      "(mc/ber.py, mc/usm.py, mc/vnet/oracle.c; self-tested against published vectors)."})
json.dump({"version": 1, "setup_cmd": "python3 -m mc.build", "checks": checks, "not_applicable": [],
           "notes": "No hooks in /repo: the extension is built unmodified from the working tree; network, clock, sleeping and entropy "
                    "are interposed from outside (LD_PRELOAD + a cargo [patch] of the rand crate in the scratch build workspace)."},
          open("MANIFEST.json", "w"), indent=1)
