//! Exploration of the crate's own decoders, encoders and buffer, without the wire in between.
//! Everything is judged against independent re-implementations kept in this file.
use gufo_snmp::ber::*;
use gufo_snmp::buf::Buffer;
use gufo_snmp::error::SnmpError;
use gufo_snmp::snmp::msg::v3::{MsgData, ScopedPdu, UsmParameters};
use gufo_snmp::snmp::msg::{SnmpPdu, SnmpV1Message, SnmpV2cMessage, SnmpV3Message};
use gufo_snmp::snmp::value::SnmpValue;
use pyo3::IntoPyObject;
use pyo3::exceptions::PyValueError;
use pyo3::prelude::*;
use pyo3::types::PyBytes;
use std::mem::MaybeUninit;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::OnceLock;
use std::sync::atomic::{AtomicUsize, Ordering};

// ---- guarded memory -------------------------------------------------------------------
unsafe extern "C" {
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, p: i32) -> i32;
}
const ROOM: usize = 1 << 17;

struct Guard(usize);

/// memory whose end abuts an inaccessible page
fn guard() -> usize {
    static G: OnceLock<Guard> = OnceLock::new();
    G.get_or_init(|| unsafe {
        let p = mmap(std::ptr::null_mut(), ROOM + 8192, 3, 0x22, -1, 0);
        assert!(p as isize > 0);
        assert_eq!(mprotect(p, 4096, 0), 0);
        assert_eq!(mprotect(p.add(4096 + ROOM), 4096, 0), 0);
        Guard(p as usize + 4096)
    })
    .0
}

/// the bytes, placed right before the inaccessible page
fn place(parts: &[&[u8]]) -> &'static [u8] {
    let n: usize = parts.iter().map(|x| x.len()).sum();
    assert!(n <= ROOM);
    unsafe {
        let start = (guard() + ROOM - n) as *mut u8;
        let mut p = start;
        for x in parts {
            std::ptr::copy_nonoverlapping(x.as_ptr(), p, x.len());
            p = p.add(x.len());
        }
        std::slice::from_raw_parts(start, n)
    }
}

// ---- journal ----------------------------------------------------------------------------
static JOURNAL: AtomicUsize = AtomicUsize::new(0);

#[pyfunction]
fn set_journal(addr: usize) {
    JOURNAL.store(addr, Ordering::SeqCst);
    std::panic::set_hook(Box::new(|_| {}));
}

fn journal(case: &[u8]) {
    let a = JOURNAL.load(Ordering::Relaxed);
    if a == 0 {
        return;
    }
    let n = case.len().min(30000);
    unsafe {
        let p = a as *mut u8;
        std::ptr::copy_nonoverlapping(case.as_ptr(), p.add(16), n);
        (p.add(8) as *mut u32).write_volatile(n as u32);
        let c = (p as *mut u64).read_volatile();
        (p as *mut u64).write_volatile(c.wrapping_add(1));
    }
}

// ---- decoding -----------------------------------------------------------------------------
fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

/// outcome of decoding: (what is left, canonical text of the value)
type Dec = Result<(usize, String), String>;

fn err(e: nom::Err<SnmpError>) -> String {
    match e {
        nom::Err::Incomplete(_) => "Incomplete".into(),
        nom::Err::Error(e) | nom::Err::Failure(e) => format!("{e:?}"),
    }
}

macro_rules! py_text {
    ($v:expr) => {
        Python::with_gil(|py| match $v.into_pyobject(py) {
            Ok(x) => x.into_any().repr().map(|x| x.to_string()).unwrap_or("?".into()),
            Err(_) => "conversion error".to_string(),
        })
    };
}

macro_rules! via {
    ($t:ty, $i:expr) => {
        <$t>::from_ber($i).map(|(t, v)| (t.len(), py_text!(&v))).map_err(err)
    };
}

fn value_text(v: &SnmpValue) -> String {
    match v {
        SnmpValue::Null => "Null".into(),
        SnmpValue::NoSuchObject => "NoSuchObject".into(),
        SnmpValue::NoSuchInstance => "NoSuchInstance".into(),
        SnmpValue::EndOfMibView => "EndOfMibView".into(),
        SnmpValue::Bool(x) => py_text!(x),
        SnmpValue::Int(x) => py_text!(x),
        SnmpValue::OctetString(x) => py_text!(x),
        SnmpValue::Oid(x) => py_text!(x),
        SnmpValue::ObjectDescriptor(x) => py_text!(x),
        SnmpValue::Real(x) => py_text!(x),
        SnmpValue::IpAddress(x) => py_text!(x),
        SnmpValue::Counter32(x) => py_text!(x),
        SnmpValue::Gauge32(x) => py_text!(x),
        SnmpValue::TimeTicks(x) => py_text!(x),
        SnmpValue::Opaque(x) => py_text!(x),
        SnmpValue::Counter64(x) => py_text!(x),
        SnmpValue::UInteger32(x) => py_text!(x),
    }
}

fn pdu_text(p: &SnmpPdu) -> String {
    match p {
        SnmpPdu::GetRequest(x) => format!("Get {} {:?}", x.request_id, x.vars),
        SnmpPdu::GetNextRequest(x) => format!("GetNext {} {:?}", x.request_id, x.vars),
        SnmpPdu::GetBulkRequest(_) => "GetBulk".into(),
        SnmpPdu::GetResponse(_) => "Response".into(),
        SnmpPdu::Report(x) => format!("Report {:?}", x.0),
    }
}

fn scoped_text(s: &ScopedPdu) -> String {
    format!("{:?} {}", s.engine_id, pdu_text(&s.pdu))
}

fn usm_text(u: &UsmParameters) -> String {
    format!(
        "{:?} {} {} {:?} {:?} {:?}",
        u.engine_id, u.engine_boots, u.engine_time, u.user_name, u.auth_params, u.privacy_params
    )
}

fn decode(kind: &str, i: &[u8]) -> Dec {
    match kind {
        "bool" => via!(SnmpBool, i),
        "int" => SnmpInt::from_ber(i)
            .map(|(t, v)| (t.len(), i64::from(v).to_string()))
            .map_err(err),
        "null" => SnmpNull::from_ber(i).map(|(t, _)| (t.len(), String::new())).map_err(err),
        "octets" => via!(SnmpOctetString, i),
        "oid" => via!(SnmpOid, i),
        "odesc" => via!(SnmpObjectDescriptor, i),
        "real" => via!(SnmpReal, i),
        "reloid" => SnmpRelativeOid::from_ber(i)
            .map(|(t, v)| (t.len(), format!("{v:?}")))
            .map_err(err),
        "seq" => SnmpSequence::from_ber(i).map(|(t, _)| (t.len(), String::new())).map_err(err),
        "option" => SnmpOption::from_ber(i)
            .map(|(t, v)| (t.len(), format!("{} {:?}", v.tag, v.value)))
            .map_err(err),
        "ip" => via!(SnmpIpAddress, i),
        "c32" => via!(SnmpCounter32, i),
        "g32" => via!(SnmpGauge32, i),
        "tt" => via!(SnmpTimeTicks, i),
        "opaque" => via!(SnmpOpaque, i),
        "c64" => via!(SnmpCounter64, i),
        "u32" => via!(SnmpUInteger32, i),
        "header" => BerHeader::from_ber(i)
            .map(|(t, v)| (t.len(), format!("{:?} {} {} {}", v.class, v.constructed, v.tag, v.length)))
            .map_err(err),
        "value" => SnmpValue::from_ber(i)
            .map(|(t, v)| (t.len(), value_text(&v)))
            .map_err(err),
        "pdu" => SnmpPdu::try_from(i)
            .map(|v| (0, pdu_text(&v)))
            .map_err(|e| format!("{e:?}")),
        "scoped" => ScopedPdu::try_from(i)
            .map(|v| (0, scoped_text(&v)))
            .map_err(|e| format!("{e:?}")),
        "usm" => UsmParameters::try_from(i)
            .map(|v| (0, usm_text(&v)))
            .map_err(|e| format!("{e:?}")),
        "v1" => SnmpV1Message::try_from(i)
            .map(|v| (0, format!("{:?} {}", v.community, pdu_text(&v.pdu))))
            .map_err(|e| format!("{e:?}")),
        "v2c" => SnmpV2cMessage::try_from(i)
            .map(|v| (0, format!("{:?} {}", v.community, pdu_text(&v.pdu))))
            .map_err(|e| format!("{e:?}")),
        "v3" => SnmpV3Message::try_from(i)
            .map(|v| {
                let d = match &v.data {
                    MsgData::Plaintext(s) => scoped_text(s),
                    MsgData::Encrypted(x) => format!("encrypted {x:?}"),
                };
                let f = (v.flag_auth, v.flag_priv, v.flag_report);
                (0, format!("{} {:?} {} {}", v.msg_id, f, usm_text(&v.usm), d))
            })
            .map_err(|e| format!("{e:?}")),
        _ => Err("no such kind".into()),
    }
}

/// decode without rendering, for mass runs
fn decode_fast(kind: &str, i: &[u8]) -> bool {
    match kind {
        "v1" => SnmpV1Message::try_from(i).is_ok(),
        "v2c" => SnmpV2cMessage::try_from(i).is_ok(),
        "v3" => SnmpV3Message::try_from(i).is_ok(),
        "scoped" => ScopedPdu::try_from(i).is_ok(),
        "pdu" => SnmpPdu::try_from(i).is_ok(),
        "usm" => UsmParameters::try_from(i).is_ok(),
        "header" => BerHeader::from_ber(i).is_ok(),
        "value" => SnmpValue::from_ber(i).is_ok(),
        _ => decode(kind, i).is_ok(),
    }
}

/// ("ok", rest, text) | ("err", 0, text) | ("panic", 0, text)
#[pyfunction]
fn dec(kind: &str, data: &[u8], tail: &[u8]) -> (&'static str, usize, String) {
    journal(data);
    let i = place(&[data, tail]);
    match catch_unwind(AssertUnwindSafe(|| decode(kind, i))) {
        Ok(Ok((n, t))) => ("ok", n, t),
        Ok(Err(t)) => ("err", 0, t),
        Err(e) => ("panic", 0, panic_text(e)),
    }
}

/// element x alone versus followed by every one of the tails:
/// (number of comparisons, first difference)
#[pyfunction]
fn suffixes(kind: &str, x: &[u8], tails: Vec<Vec<u8>>) -> (usize, Option<(Vec<u8>, String)>) {
    let one = |t: &[u8]| -> Result<Dec, String> {
        let i = place(&[x, t]);
        catch_unwind(AssertUnwindSafe(|| decode(kind, i))).map_err(panic_text)
    };
    journal(x);
    let base = match one(&[]) {
        Ok(Ok((n, t))) => (n, t),
        Ok(Err(_)) => return (0, None), // does not decode alone
        Err(e) => return (1, Some((vec![], format!("panic: {e}")))),
    };
    if base.0 != 0 {
        return (1, Some((vec![], format!("{} octets left of a single element", base.0))));
    }
    let mut n = 0;
    for t in &tails {
        n += 1;
        match one(t) {
            Ok(Ok((rest, text))) if rest == t.len() && text == base.1 => {}
            Ok(r) => {
                return (n, Some((t.clone(), format!("alone: {:?}, with {} octets behind: {:?}", base, t.len(), r))));
            }
            Err(e) => return (n, Some((t.clone(), format!("panic: {e}")))),
        }
    }
    (n, None)
}

/// every element (prefix ‖ w), |w| = n over the alphabet, alone versus followed by the tails; the prefix holds tag and length.
/// (elements, elements which decode, comparisons, first difference)
#[pyfunction]
#[pyo3(signature = (kind, prefix, alphabet, n, tails, part, parts))]
#[allow(clippy::too_many_arguments)]
fn suffix_contents(
    kind: &str,
    prefix: &[u8],
    alphabet: &[u8],
    n: usize,
    tails: Vec<Vec<u8>>,
    part: usize,
    parts: usize,
) -> (u64, u64, u64, Option<(Vec<u8>, Vec<u8>, String)>) {
    let (mut els, mut oks, mut cmps) = (0, 0, 0);
    let mut d = prefix.to_vec();
    d.resize(prefix.len() + n, 0);
    let mut k = part;
    while k < alphabet.len().pow(n as u32) {
        let mut x = k;
        for p in 0..n {
            d[prefix.len() + p] = alphabet[x % alphabet.len()];
            x /= alphabet.len();
        }
        k += parts;
        els += 1;
        let (c, bad) = suffixes(kind, &d, tails.clone());
        oks += (c > 0) as u64;
        cmps += c as u64;
        if let Some((t, e)) = bad {
            return (els, oks, cmps, Some((d, t, e)));
        }
    }
    (els, oks, cmps, None)
}

/// totality of a decoder over systematic mutations of a seed;
/// (executions, accepted, first panicking input and its message)
#[pyfunction]
#[pyo3(signature = (kind, seed, menu, part, parts, pairs))]
fn mutations(
    py: Python,
    kind: &str,
    seed: &[u8],
    menu: &[u8],
    part: usize,
    parts: usize,
    pairs: bool,
) -> (usize, usize, Option<(Vec<u8>, String)>) {
    let kind = kind.to_string();
    let seed = seed.to_vec();
    let menu = menu.to_vec();
    py.allow_threads(move || {
        let (mut n, mut ok, mut k) = (0usize, 0usize, 0usize);
        let mut bad = None;
        let mut run = |d: &[u8]| -> bool {
            k += 1;
            if k % parts != part {
                return true;
            }
            journal(d);
            n += 1;
            let i = place(&[d]);
            match catch_unwind(AssertUnwindSafe(|| decode_fast(&kind, i))) {
                Ok(r) => {
                    ok += r as usize;
                    true
                }
                Err(e) => {
                    bad = Some((d.to_vec(), panic_text(e)));
                    false
                }
            }
        };
        let mut m = seed.clone();
        'all: {
            // truncations and single octet substitutions
            for i in 0..=seed.len() {
                if !run(&seed[..i]) {
                    break 'all;
                }
            }
            for i in 0..seed.len() {
                for b in 0..=255u8 {
                    m[i] = b;
                    if !run(&m) {
                        break 'all;
                    }
                }
                m[i] = seed[i];
            }
            // insertions and deletions
            for i in 0..=seed.len() {
                for &b in &menu {
                    let mut v = seed[..i].to_vec();
                    v.push(b);
                    v.extend_from_slice(&seed[i..]);
                    if !run(&v) {
                        break 'all;
                    }
                }
            }
            for i in 0..seed.len() {
                for j in i + 1..=seed.len() {
                    let mut v = seed[..i].to_vec();
                    v.extend_from_slice(&seed[j..]);
                    if !run(&v) {
                        break 'all;
                    }
                }
            }
            // pairs of octets, over the menu
            if pairs {
                for i in 0..seed.len() {
                    for j in i + 1..seed.len() {
                        for &a in &menu {
                            m[i] = a;
                            for &b in &menu {
                                m[j] = b;
                                if !run(&m) {
                                    break 'all;
                                }
                            }
                            m[j] = seed[j];
                        }
                        m[i] = seed[i];
                    }
                }
            }
        }
        (n, ok, bad)
    })
}

/// every octet string prefix ‖ w with |w| = len, w over the alphabet
#[pyfunction]
fn strings(
    py: Python,
    kind: &str,
    prefix: &[u8],
    alphabet: &[u8],
    len: usize,
    part: usize,
    parts: usize,
) -> (usize, usize, Option<(Vec<u8>, String)>) {
    let (kind, prefix, al) = (kind.to_string(), prefix.to_vec(), alphabet.to_vec());
    py.allow_threads(move || {
        let total = al.len().pow(len as u32);
        let (mut n, mut ok) = (0, 0);
        let mut d = prefix.clone();
        d.resize(prefix.len() + len, 0);
        let mut k = part;
        while k < total {
            let mut x = k;
            for p in 0..len {
                d[prefix.len() + p] = al[x % al.len()];
                x /= al.len();
            }
            journal(&d);
            n += 1;
            let i = place(&[&d]);
            match catch_unwind(AssertUnwindSafe(|| decode_fast(&kind, i))) {
                Ok(r) => ok += r as usize,
                Err(e) => return (n, ok, Some((d, panic_text(e)))),
            }
            k += parts;
        }
        (n, ok, None)
    })
}

// ---- encoding -------------------------------------------------------------------------------
/// minimal two's complement INTEGER, X.690 8.3
fn int_ref(v: i64, out: &mut [u8; 10]) -> usize {
    let b = v.to_be_bytes();
    let mut i = 0;
    while i < 7 && ((b[i] == 0 && b[i + 1] < 0x80) || (b[i] == 0xff && b[i + 1] >= 0x80)) {
        i += 1;
    }
    let n = 8 - i;
    out[0] = 2;
    out[1] = n as u8;
    out[2..2 + n].copy_from_slice(&b[i..]);
    n + 2
}

fn int_check(v: i64, buf: &mut Buffer) -> Result<(), String> {
    let mut r = [0u8; 10];
    let n = int_ref(v, &mut r);
    buf.reset();
    SnmpInt::from(v).push_ber(buf).map_err(|e| format!("encode: {e:?}"))?;
    if buf.data() != &r[..n] {
        return Err(format!("{v} is encoded as {:02x?} instead of {:02x?}", buf.data(), &r[..n]));
    }
    let (t, x) = SnmpInt::from_ber(buf.data()).map_err(|e| format!("{v} decode: {}", err(e)))?;
    let x = i64::from(x);
    if x != v || !t.is_empty() {
        return Err(format!("{v} is decoded back as {x} with {} octets left", t.len()));
    }
    Ok(())
}

/// every INTEGER lo..=hi: minimal encoding and round trip
#[pyfunction]
fn int_sweep(py: Python, lo: i64, hi: i64) -> (u64, Option<String>) {
    py.allow_threads(move || {
        let mut buf = Buffer::default();
        let mut n = 0u64;
        let mut v = lo;
        loop {
            if n & 0xffff == 0 {
                journal(format!("INTEGER {v}").as_bytes());
            }
            n += 1;
            match catch_unwind(AssertUnwindSafe(|| int_check(v, &mut buf))) {
                Ok(Ok(())) => {}
                Ok(Err(e)) => return (n, Some(e)),
                Err(e) => return (n, Some(format!("{v}: panic: {}", panic_text(e)))),
            }
            if v == hi {
                return (n, None);
            }
            v += 1;
        }
    })
}

/// round trip of every INTEGER whose 8 octets (sign extended from n octets) are over the menu, and of every
/// n octet INTEGER with arbitrary two leading octets and uniform others
#[pyfunction]
fn int_patterns(py: Python, menu: &[u8], fills: &[u8], n: usize) -> (u64, Option<String>) {
    let (menu, fills) = (menu.to_vec(), fills.to_vec());
    py.allow_threads(move || {
        let mut buf = Buffer::default();
        let mut done = 0u64;
        let mut one = |v: i64| -> Option<String> {
            if done & 0xffff == 0 {
                journal(format!("INTEGER {v}").as_bytes());
            }
            done += 1;
            match catch_unwind(AssertUnwindSafe(|| int_check(v, &mut buf))) {
                Ok(Ok(())) => None,
                Ok(Err(e)) => Some(e),
                Err(e) => Some(format!("{v}: panic: {}", panic_text(e))),
            }
        };
        let sign = |x: u64| ((x << (64 - 8 * n)) as i64) >> (64 - 8 * n);
        for mut k in 0..menu.len().pow(n as u32) {
            let mut x = 0u64;
            for _ in 0..n {
                x = (x << 8) | menu[k % menu.len()] as u64;
                k /= menu.len();
            }
            if let Some(e) = one(sign(x)) {
                return (done, Some(e));
            }
        }
        if n >= 2 {
            for hi in 0..65536u64 {
                for f in &fills {
                    let mut x = hi;
                    for _ in 2..n {
                        x = (x << 8) | *f as u64;
                    }
                    if let Some(e) = one(sign(x)) {
                        return (done, Some(e));
                    }
                }
            }
        }
        (done, None)
    })
}

/// INTEGER contents prefix ‖ w for all w of n octets, against two's complement arithmetic
#[pyfunction]
fn int_contents(py: Python, prefix: &[u8], n: usize, part: u64, parts: u64) -> (u64, Option<String>) {
    let prefix = prefix.to_vec();
    py.allow_threads(move || {
        let p = prefix.len();
        let ln = p + n;
        let total = 1u64 << (8 * n);
        let mut d = vec![2u8, ln as u8];
        d.extend_from_slice(&prefix);
        d.resize(2 + ln, 0);
        let at = unsafe { std::slice::from_raw_parts_mut((guard() + ROOM - d.len()) as *mut u8, d.len()) };
        let (mut k, mut done) = (part, 0u64);
        while k < total {
            d[2 + p..].copy_from_slice(&k.to_be_bytes()[8 - n..]);
            at.copy_from_slice(&d);
            if done & 0xffff == 0 {
                journal(&d);
            }
            done += 1;
            let mut want: i64 = if d[2] & 0x80 != 0 { -1 } else { 0 };
            for x in &d[2..] {
                want = (want << 8) | *x as i64;
            }
            let r = catch_unwind(AssertUnwindSafe(|| match SnmpInt::from_ber(at) {
                Ok((t, v)) if t.is_empty() => Ok(i64::from(v)),
                Ok((t, _)) => Err(format!("{} octets left", t.len())),
                Err(e) => Err(err(e)),
            }));
            match r {
                Ok(Ok(v)) if v == want => {}
                Ok(Ok(v)) => return (done, Some(format!("{d:02x?} is decoded as {v} instead of {want}"))),
                Ok(Err(e)) => return (done, Some(format!("{d:02x?} is refused: {e}"))),
                Err(e) => return (done, Some(format!("{d:02x?}: panic: {}", panic_text(e)))),
            }
            k += parts;
        }
        (done, None)
    })
}

/// decodes the message and encodes it again: ("ok", bytes) | ("err", text) | ("panic", text)
#[pyfunction]
fn reenc<'py>(py: Python<'py>, kind: &str, data: &[u8]) -> (&'static str, Bound<'py, PyBytes>) {
    journal(data);
    let i = place(&[data]);
    let r = catch_unwind(AssertUnwindSafe(|| -> Result<Vec<u8>, String> {
        let mut b = Buffer::default();
        let e = |e: SnmpError| format!("decode: {e:?}");
        let r = match kind {
            "v1" => SnmpV1Message::try_from(i).map_err(e)?.push_ber(&mut b),
            "v2c" => SnmpV2cMessage::try_from(i).map_err(e)?.push_ber(&mut b),
            "v3" => SnmpV3Message::try_from(i).map_err(e)?.push_ber(&mut b),
            "pdu" => SnmpPdu::try_from(i).map_err(e)?.push_ber(&mut b),
            "scoped" => ScopedPdu::try_from(i).map_err(e)?.push_ber(&mut b),
            "usm" => UsmParameters::try_from(i).map_err(e)?.push_ber(&mut b),
            "oid" => SnmpOid::from_ber(i).map_err(err)?.1.push_ber(&mut b),
            "null" => SnmpNull::from_ber(i).map_err(err)?.1.push_ber(&mut b),
            "int" => SnmpInt::from_ber(i).map_err(err)?.1.push_ber(&mut b),
            _ => return Err("no such kind".into()),
        };
        r.map_err(|e| format!("encode: {e:?}"))?;
        Ok(b.data().to_vec())
    }));
    match r {
        Ok(Ok(v)) => ("ok", PyBytes::new(py, &v)),
        Ok(Err(t)) => ("err", PyBytes::new(py, t.as_bytes())),
        Err(t) => ("panic", PyBytes::new(py, panic_text(t).as_bytes())),
    }
}

/// dotted text -> (encoding, text rendered back from the decoded encoding)
#[pyfunction]
fn oid_trip<'py>(py: Python<'py>, text: &str) -> PyResult<(Bound<'py, PyBytes>, String, usize)> {
    journal(text.as_bytes());
    let r = catch_unwind(AssertUnwindSafe(|| -> Result<_, String> {
        let mut b = Buffer::default();
        let o = SnmpOid::try_from(text).map_err(|e| format!("{e:?}"))?;
        o.push_ber(&mut b).map_err(|e| format!("encode: {e:?}"))?;
        let d = place(&[b.data()]);
        let (t, o) = SnmpOid::from_ber(d).map_err(err)?;
        let s = String::try_from(&o).map_err(|e| format!("render: {e:?}"))?;
        Ok((d.to_vec(), s, t.len()))
    }));
    match r {
        Ok(Ok((v, s, n))) => Ok((PyBytes::new(py, &v), s, n)),
        Ok(Err(t)) => Err(PyValueError::new_err(t)),
        Err(t) => Err(PyValueError::new_err(format!("panic: {}", panic_text(t)))),
    }
}

// ---- exhaustive sweeps of values ----------------------------------------------------------------
fn b128_ref(mut v: u64, out: &mut Vec<u8>) {
    let mut t = [0u8; 10];
    let mut n = 0;
    loop {
        t[n] = (v & 0x7f) as u8 | if n == 0 { 0 } else { 0x80 };
        n += 1;
        v >>= 7;
        if v == 0 {
            break;
        }
    }
    out.extend(t[..n].iter().rev());
}

/// arcs lo, lo+step, .. < hi between a fixed head and tail: dotted text -> encoding -> decoded -> dotted text
#[pyfunction]
fn oid_sweep(py: Python, head: &str, head_ber: &[u8], tail: &str, tail_ber: &[u8], lo: u64, hi: u64, step: u64) -> (u64, Option<String>) {
    let (head, head_ber, tail, tail_ber) = (head.to_string(), head_ber.to_vec(), tail.to_string(), tail_ber.to_vec());
    py.allow_threads(move || {
        let mut buf = Buffer::default();
        let (mut n, mut v) = (0u64, lo);
        let mut text = String::new();
        let mut want: Vec<u8> = Vec::new();
        while v < hi {
            use std::fmt::Write;
            text.clear();
            let _ = write!(text, "{head}{v}{tail}");
            if n & 0xffff == 0 {
                journal(text.as_bytes());
            }
            n += 1;
            want.clear();
            want.extend_from_slice(&head_ber);
            b128_ref(v, &mut want);
            want.extend_from_slice(&tail_ber);
            let r = catch_unwind(AssertUnwindSafe(|| -> Result<(), String> {
                buf.reset();
                let o = SnmpOid::try_from(text.as_str()).map_err(|e| format!("refused: {e:?}"))?;
                o.push_ber(&mut buf).map_err(|e| format!("encode: {e:?}"))?;
                let d = buf.data();
                if d.len() != want.len() + 2 || d[0] != 6 || d[1] as usize != want.len() || d[2..] != want[..] {
                    return Err(format!("encoded as {d:02x?} instead of {want:02x?}"));
                }
                let (t, o) = SnmpOid::from_ber(d).map_err(err)?;
                let s = String::try_from(&o).map_err(|e| format!("render: {e:?}"))?;
                if !t.is_empty() || s != text {
                    return Err(format!("comes back as {s}"));
                }
                Ok(())
            }));
            match r {
                Ok(Ok(())) => {}
                Ok(Err(e)) => return (n, Some(format!("{text}: {e}"))),
                Err(e) => return (n, Some(format!("{text}: panic: {}", panic_text(e)))),
            }
            v += step;
        }
        (n, None)
    })
}

fn value_any<'py>(py: Python<'py>, v: &SnmpValue) -> Option<Bound<'py, PyAny>> {
    match v {
        SnmpValue::Int(x) => x.into_pyobject(py).ok().map(|x| x.into_any()),
        SnmpValue::Counter32(x) => x.into_pyobject(py).ok().map(|x| x.into_any()),
        SnmpValue::Gauge32(x) => x.into_pyobject(py).ok().map(|x| x.into_any()),
        SnmpValue::TimeTicks(x) => x.into_pyobject(py).ok().map(|x| x.into_any()),
        SnmpValue::Counter64(x) => x.into_pyobject(py).ok().map(|x| x.into_any()),
        SnmpValue::UInteger32(x) => x.into_pyobject(py).ok().map(|x| x.into_any()),
        SnmpValue::Real(x) => x.into_pyobject(py).ok().map(|x| x.into_any()),
        SnmpValue::IpAddress(x) => x.into_pyobject(py).ok().map(|x| x.into_any()),
        _ => None,
    }
}

/// decodes one value which ends where readable memory ends, and hands the Python object to `f`
fn judged<F: Fn(&Bound<'_, PyAny>) -> Result<(), String>>(py: Python, d: &[u8], f: F) -> Result<(), String> {
    let i = place(&[d]);
    match catch_unwind(AssertUnwindSafe(|| match SnmpValue::from_ber(i) {
        Ok((t, v)) if t.is_empty() => match value_any(py, &v) {
            Some(x) => f(&x),
            None => Err("is decoded as another type".into()),
        },
        Ok((t, _)) => Err(format!("{} octets left", t.len())),
        Err(e) => Err(format!("refused: {}", err(e))),
    })) {
        Ok(r) => r.map_err(|e| format!("{d:02x?}: {e}")),
        Err(e) => Err(format!("{d:02x?}: panic: {}", panic_text(e))),
    }
}

/// unsigned values lo, lo+step, .. < hi in minimal form under an application tag; as Python integers
#[pyfunction]
fn uint_sweep(py: Python, tag: u8, lo: u64, hi: u64, step: u64, shift: u32, fill: u64) -> (u64, Option<String>) {
    let (mut n, mut k) = (0u64, lo);
    while k < hi {
        let v = (k << shift) | fill;
        let b = v.to_be_bytes();
        let mut d = [0u8; 11];
        let mut i = 0;
        while i < 7 && b[i] == 0 && b[i + 1] < 0x80 {
            i += 1;
        }
        d[0] = tag;
        let ln = if b[i] >= 0x80 {
            d[3..11 - i].copy_from_slice(&b[i..]);
            9 - i
        } else {
            d[2..10 - i].copy_from_slice(&b[i..]);
            8 - i
        };
        d[1] = ln as u8;
        if n & 0xffff == 0 {
            journal(&d[..ln + 2]);
        }
        n += 1;
        if let Err(e) = judged(py, &d[..ln + 2], |x| match x.extract::<u64>() {
            Ok(g) if g == v => Ok(()),
            _ => Err(format!("{x} instead of {v}")),
        }) {
            return (n, Some(e));
        }
        k += step;
    }
    (n, None)
}

/// IpAddress values lo, lo+step, .. < hi as dotted text
#[pyfunction]
fn ip_sweep(py: Python, lo: u64, hi: u64, step: u64, mul: u32) -> (u64, Option<String>) {
    let (mut n, mut k) = (0u64, lo);
    let mut want = String::new();
    while k < hi {
        use std::fmt::Write;
        let v = (k as u32).wrapping_mul(mul).to_be_bytes();
        let d = [0x40, 4, v[0], v[1], v[2], v[3]];
        if n & 0xffff == 0 {
            journal(&d);
        }
        n += 1;
        want.clear();
        let _ = write!(want, "{}.{}.{}.{}", v[0], v[1], v[2], v[3]);
        if let Err(e) = judged(py, &d, |x| match x.extract::<&str>() {
            Ok(g) if g == want => Ok(()),
            _ => Err(format!("{x} instead of {want}")),
        }) {
            return (n, Some(e));
        }
        k += step;
    }
    (n, None)
}

/// m * 2^k where this is a binary64 number, built from its bits
fn real_ref(neg: bool, m: u64, k: i64) -> Option<f64> {
    if m == 0 {
        return None;
    }
    let z = m.trailing_zeros();
    let (m, k) = (m >> z, k + z as i64);
    let bits = 64 - m.leading_zeros() as i64;
    if bits > 53 || k < -1074 || k + bits - 1 > 1023 {
        return None;
    }
    let top = k + bits - 1;
    let raw = if top >= -1022 {
        let frac = (m << (53 - bits)) & ((1 << 52) - 1);
        (((top + 1023) as u64) << 52) | frac
    } else {
        m << (k + 1074)
    };
    Some(f64::from_bits(raw | (neg as u64) << 63))
}

/// binary REALs: one information octet, exponents e0..e1 in the form it asks for, mantissas m0..m1 (step ms) in
/// `mlen` octets (0: minimal)
#[pyfunction]
#[allow(clippy::too_many_arguments)]
fn real_sweep(py: Python, info: u8, e0: i64, e1: i64, m0: u64, m1: u64, ms: u64, mlen: usize) -> (u64, u64, Option<String>) {
    let (mut n, mut exact) = (0u64, 0u64);
    let shift = match (info >> 4) & 3 {
        0 => 1,
        1 => 3,
        2 => 4,
        _ => return (0, 0, None),
    };
    let scale = ((info >> 2) & 3) as i64;
    let mut d: Vec<u8> = Vec::with_capacity(40);
    for e in e0..e1 {
        let eb = e.to_be_bytes();
        let fit = |k: usize| e == (e << (64 - 8 * k)) >> (64 - 8 * k);
        let (pre, el) = match info & 3 {
            3 => match (1..=8).find(|k| fit(*k)) {
                Some(k) => (true, k),
                None => continue,
            },
            k => (false, k as usize + 1),
        };
        if !fit(el) {
            continue;
        }
        let mut m = m0;
        while m < m1 {
            let mb = m.to_be_bytes();
            let ml = if mlen > 0 { mlen } else { (8 - m.leading_zeros() as usize / 8).max(1) };
            d.clear();
            d.extend_from_slice(&[9, 0, info]);
            if pre {
                d.push(el as u8);
            }
            d.extend_from_slice(&eb[8 - el..]);
            d.extend_from_slice(&mb[8 - ml..]);
            d[1] = (d.len() - 2) as u8;
            if n & 0xfff == 0 {
                journal(&d);
            }
            n += 1;
            if let Some(want) = real_ref(info & 0x40 != 0, m, shift * e + scale) {
                exact += 1;
                if let Err(x) = judged(py, &d, |x| match x.extract::<f64>() {
                    Ok(g) if g.to_bits() == want.to_bits() => Ok(()),
                    _ => Err(format!("{x} instead of {want:e}")),
                }) {
                    return (n, exact, Some(x));
                }
            }
            m += ms;
        }
    }
    (n, exact, None)
}

// ---- buffer -----------------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Push(usize),
    PushU8,
    TagLen(usize),
    Tagged(usize),
    Skip(usize),
    Reset,
    Bookmark(usize),
    GetBookmark,
    EnsureSize(usize),
    WriteData,
    AsSlice(usize),
}

struct Shadow {
    cap: usize,
    data: Vec<u8>, // what data() has to return; None-like positions are tracked in `known`
    known: Vec<bool>,
    bookmark: Option<usize>, // absolute position
}

fn pattern(n: usize, salt: usize) -> Vec<u8> {
    (0..n).map(|i| (i * 31 + salt * 7 + 1) as u8).collect()
}

fn tag_len(tag: u8, v: usize) -> Vec<u8> {
    if v < 128 {
        vec![tag, v as u8]
    } else if v < 256 {
        vec![tag, 0x81, v as u8]
    } else {
        vec![tag, 0x82, (v >> 8) as u8, v as u8]
    }
}

struct Subject {
    mem: Vec<u8>,
    off: usize,
}

impl Subject {
    fn new(fill: u8) -> Self {
        // the buffer object lives between canaries, over memory with known contents
        let size = std::mem::size_of::<Buffer>();
        let align = std::mem::align_of::<Buffer>();
        let mut mem = vec![fill; size + align + 512];
        let a = mem.as_ptr() as usize + 256;
        let off = (a + align - 1) / align * align - mem.as_ptr() as usize;
        unsafe { (mem.as_mut_ptr().add(off) as *mut Buffer).write(Buffer::default()) };
        Subject { mem, off }
    }
    fn buf(&mut self) -> &mut Buffer {
        unsafe { &mut *(self.mem.as_mut_ptr().add(self.off) as *mut Buffer) }
    }
    fn canaries(&self, fill: u8) -> bool {
        let size = std::mem::size_of::<Buffer>();
        self.mem[..self.off].iter().all(|x| *x == fill) && self.mem[self.off + size..].iter().all(|x| *x == fill)
    }
}

impl Shadow {
    fn room(&self) -> usize {
        self.cap - self.data.len()
    }
    fn front(&mut self, d: &[u8]) {
        self.data.splice(0..0, d.iter().copied());
        self.known.splice(0..0, d.iter().map(|_| true));
    }
    /// applies op to both; description of the first disagreement
    fn step(&mut self, b: &mut Buffer, op: Op, salt: usize) -> Result<(), String> {
        let room = self.room();
        let expect = |r: Result<(), SnmpError>, fits: bool, what: &str| -> Result<(), String> {
            match (r, fits) {
                (Ok(()), true) | (Err(SnmpError::OutOfBuffer), false) => Ok(()),
                (r, f) => Err(format!("{what} returned {r:?}, fits: {f}")),
            }
        };
        match op {
            Op::Push(n) => {
                let d = pattern(n, salt);
                expect(b.push(&d), n <= room, "push")?;
                if n <= room {
                    self.front(&d);
                }
            }
            Op::PushU8 => {
                expect(b.push_u8(0x5a), room >= 1, "push_u8")?;
                if room >= 1 {
                    self.front(&[0x5a]);
                }
            }
            Op::TagLen(v) => {
                let d = tag_len(0x30, v);
                expect(b.push_tag_len(0x30, v), d.len() <= room, "push_tag_len")?;
                if d.len() <= room {
                    self.front(&d);
                }
            }
            Op::Tagged(n) => {
                let d = pattern(n, salt);
                let h = tag_len(4, n);
                let r = b.push_tagged(4, &d);
                expect(r, n + h.len() <= room, "push_tagged")?;
                if n + h.len() <= room {
                    self.front(&d);
                    self.front(&h);
                } else if n <= room && b.len() == self.data.len() + n {
                    // the contents may have been written before the header failed
                    self.front(&d);
                }
            }
            Op::Skip(n) => {
                b.skip(n);
                let n = n.min(room);
                self.data.splice(0..0, vec![0; n]);
                self.known.splice(0..0, vec![false; n]);
            }
            Op::Reset => {
                b.reset();
                self.data.clear();
                self.known.clear();
            }
            Op::Bookmark(d) => {
                b.set_bookmark(d);
                self.bookmark = Some(self.room() + d);
            }
            Op::GetBookmark => {
                // only meaningful while the marked position is part of the data
                if let Some(m) = self.bookmark.filter(|m| *m >= self.room()) {
                    let g = b.get_bookmark();
                    if g != m - self.room() {
                        return Err(format!("get_bookmark() is {g} instead of {}", m - self.room()));
                    }
                }
            }
            Op::EnsureSize(n) => expect(b.ensure_size(n), n <= room, "ensure_size")?,
            Op::WriteData => {
                let n = self.data.len().min(16);
                let d = pattern(n, salt);
                if b.data_mut().len() != self.data.len() {
                    return Err(format!("data_mut() has {} octets instead of {}", b.data_mut().len(), self.data.len()));
                }
                b.data_mut()[..n].copy_from_slice(&d);
                self.data[..n].copy_from_slice(&d);
                self.known[..n].iter_mut().for_each(|x| *x = true);
            }
            Op::AsSlice(n) => {
                let whole: &mut [MaybeUninit<u8>] = b.as_mut();
                let (lo, cap) = (whole.as_ptr() as usize, whole.len());
                match catch_unwind(AssertUnwindSafe(|| {
                    let s = b.as_slice(n);
                    (s.as_ptr() as usize, s.len())
                })) {
                    Ok((p, l)) => {
                        if p < lo || p + l > lo + cap {
                            return Err(format!("as_slice({n}) reaches outside the buffer"));
                        }
                    }
                    Err(_) if n > cap => {}
                    Err(e) => return Err(format!("as_slice({n}): panic: {}", panic_text(e))),
                }
            }
        }
        Ok(())
    }
    fn compare(&self, b: &mut Buffer) -> Result<(), String> {
        let (n, cap) = (self.data.len(), self.cap);
        if b.len() != n || b.free() != cap - n || b.is_empty() != (n == 0) || b.is_full() != (n == cap) {
            return Err(format!("len {} free {} empty {} full {} with {n} octets stored", b.len(), b.free(), b.is_empty(), b.is_full()));
        }
        let base = {
            let whole: &mut [MaybeUninit<u8>] = b.as_mut();
            if whole.len() != cap {
                return Err(format!("the writable area has {} octets", whole.len()));
            }
            whole.as_ptr() as usize
        };
        let d = b.data();
        if d.len() != n || d.as_ptr() as usize != base + cap - n {
            return Err("data() is not the used part of the buffer".into());
        }
        let m: &[u8] = b.data_mut();
        if m.len() != n || m.as_ptr() as usize != base + cap - n {
            return Err("data_mut() is not the used part of the buffer".into());
        }
        let d = b.data();
        for i in 0..n {
            if self.known[i] && d[i] != self.data[i] {
                return Err(format!("octet {i} of {n} is {:#x} instead of {:#x}", d[i], self.data[i]));
            }
        }
        Ok(())
    }
}

fn op_menu() -> Vec<Op> {
    let mut v = vec![Op::PushU8, Op::Reset, Op::GetBookmark, Op::WriteData];
    for n in [0, 1, 2, 3, 127, 128, 255, 256, 2040, 4070, 4075, 4076, 4077, 4078, 4079, 4080, 4081, 5000] {
        v.push(Op::Push(n));
    }
    for n in [0, 1, 127, 128, 255, 256, 4080] {
        v.push(Op::TagLen(n));
    }
    for n in [0, 1, 126, 127, 128, 255, 256, 4076, 4077, 4078, 4079, 4080] {
        v.push(Op::Tagged(n));
    }
    for n in [0, 1, 8, 2040, 4072, 4080, 4081, 100000] {
        v.push(Op::Skip(n));
    }
    for n in [0, 2] {
        v.push(Op::Bookmark(n));
    }
    for n in [0, 1, 4, 4079, 4080, 4081, usize::MAX] {
        v.push(Op::EnsureSize(n));
    }
    for n in [0, 1, 4079, 4080, 4081, 8192] {
        v.push(Op::AsSlice(n));
    }
    v
}

fn small_menu() -> Vec<Op> {
    vec![
        Op::PushU8,
        Op::Reset,
        Op::GetBookmark,
        Op::Bookmark(2),
        Op::WriteData,
        Op::Push(1),
        Op::Push(200),
        Op::Push(4076),
        Op::TagLen(300),
        Op::Tagged(0),
        Op::Tagged(4074),
        Op::Skip(8),
        Op::Skip(4077),
        Op::EnsureSize(2),
    ]
}

#[pyfunction]
fn buffer_menu(small: bool) -> usize {
    if small { small_menu().len() } else { op_menu().len() }
}

/// all sequences of pool operations over three handles: a fresh handle is always empty and exclusively owned
#[pyfunction]
fn pool_ops(py: Python, depth: usize, part: usize, parts: usize) -> (u64, Option<(String, String)>) {
    py.allow_threads(move || {
        // acquire / fill a little / fill up / fail a push / skip / release, for each of three handles
        let k = 18u64;
        let total = k.pow(depth as u32);
        let mut n = 0;
        let mut j = part as u64;
        while j < total {
            let mut ops = vec![];
            let mut x = j;
            for _ in 0..depth {
                ops.push((x % k) as usize);
                x /= k;
            }
            ops.reverse();
            n += 1;
            if n % 256 == 1 {
                journal(format!("pool {ops:?}").as_bytes());
            }
            let r = catch_unwind(AssertUnwindSafe(|| -> Result<(), String> {
                let mut h: Vec<Option<gufo_snmp::buf::pool::BufferHandle>> = vec![None, None, None];
                let mut want: Vec<Vec<u8>> = vec![vec![]; 3];
                for (step, op) in ops.iter().enumerate() {
                    let (i, a) = (op % 3, op / 3);
                    let d = pattern(40 + i, step);
                    match (a, h[i].as_mut()) {
                        (0, None) => {
                            let mut x = gufo_snmp::buf::get_buffer_pool().acquire();
                            if !x.as_mut().is_empty() || x.as_mut().free() != 4080 || !x.as_mut().data().is_empty() {
                                return Err(format!("step {step}: an acquired buffer holds {} octets", x.as_mut().len()));
                            }
                            h[i] = Some(x);
                            want[i].clear();
                        }
                        (1, Some(x)) => {
                            if x.as_mut().push(&d).is_ok() {
                                want[i].splice(0..0, d);
                            }
                        }
                        (2, Some(x)) => {
                            let d = pattern(x.as_mut().free(), step);
                            if x.as_mut().push(&d).is_ok() {
                                want[i].splice(0..0, d);
                            }
                        }
                        (3, Some(x)) => {
                            if x.as_mut().push(&[1; 4081]).is_ok() {
                                return Err(format!("step {step}: 4081 octets fit"));
                            }
                        }
                        (4, Some(x)) => {
                            x.as_mut().reset();
                            want[i].clear();
                        }
                        (5, Some(_)) => {
                            h[i] = None;
                            want[i].clear();
                        }
                        _ => {}
                    }
                    for q in 0..3 {
                        if let Some(x) = h[q].as_mut() {
                            if x.as_mut().data() != &want[q][..] {
                                return Err(format!("step {step}: buffer {q} does not hold what was written"));
                            }
                        }
                    }
                }
                Ok(())
            }));
            let bad = match r {
                Ok(Ok(())) => None,
                Ok(Err(e)) => Some(e),
                Err(e) => Some(format!("panic: {}", panic_text(e))),
            };
            if let Some(e) = bad {
                return (n, Some((format!("{ops:?}"), e)));
            }
            j += parts as u64;
        }
        (n, None)
    })
}

/// all operation sequences of exactly `depth`; (sequences, distinct fill states, first violation)
#[pyfunction]
fn buffer_ops(
    py: Python,
    depth: usize,
    part: usize,
    parts: usize,
    small: bool,
) -> (u64, Vec<(usize, isize)>, Option<(String, String)>) {
    py.allow_threads(move || {
        let menu = if small { small_menu() } else { op_menu() };
        let k = menu.len();
        let total = (k as u64).pow(depth as u32);
        let mut states = std::collections::HashSet::new();
        let mut n = 0;
        let (fa, fb) = (0xA5u8, 0x3Cu8);
        let mut sa = Subject::new(fa);
        let mut sb = Subject::new(fb);
        let cap = sa.buf().free();
        let fresh_empty = sa.buf().is_empty() && cap == 4080;
        let _ = fresh_empty;
        let mut j = part as u64;
        while j < total {
            // first operation varies slowest
            let mut ops = Vec::with_capacity(depth);
            let mut x = j;
            for _ in 0..depth {
                ops.push(menu[(x % k as u64) as usize]);
                x /= k as u64;
            }
            ops.reverse();
            if n % 256 == 0 {
                journal(format!("buffer {ops:?}").as_bytes());
            }
            n += 1;
            let r = catch_unwind(AssertUnwindSafe(|| -> Result<(), String> {
                // fresh contents: nothing written by earlier sequences
                for (s, f) in [(&mut sa, fa), (&mut sb, fb)] {
                    s.mem[..].fill(f);
                    let off = s.off;
                    unsafe { (s.mem.as_mut_ptr().add(off) as *mut Buffer).write(Buffer::default()) };
                    // whatever default() left in place, the two buffers hold different unwritten octets
                    let raw: &mut [MaybeUninit<u8>] = s.buf().as_mut();
                    for o in raw.iter_mut() {
                        o.write(f);
                    }
                    let mut sh = Shadow { cap, data: vec![], known: vec![], bookmark: None };
                    for (i, op) in ops.iter().enumerate() {
                        sh.step(s.buf(), *op, i).map_err(|e| format!("step {i}: {e}"))?;
                        sh.compare(s.buf()).map_err(|e| format!("after step {i}: {e}"))?;
                    }
                    if !s.canaries(f) {
                        return Err("memory outside the buffer was written".into());
                    }
                    states.insert((sh.data.len(), sh.bookmark.map_or(-1, |x| x as isize)));
                }
                if sa.buf().data() != sb.buf().data() {
                    return Err("octets which were never written are exposed".into());
                }
                Ok(())
            }));
            let bad = match r {
                Ok(Ok(())) => None,
                Ok(Err(e)) => Some(e),
                Err(e) => Some(format!("panic: {}", panic_text(e))),
            };
            if let Some(e) = bad {
                return (n, states.into_iter().collect(), Some((format!("{ops:?}"), e)));
            }
            j += parts as u64;
        }
        (n, states.into_iter().collect(), None)
    })
}

#[pymodule]
fn rmc(m: &Bound<'_, PyModule>) -> PyResult<()> {
    m.add_function(wrap_pyfunction!(set_journal, m)?)?;
    m.add_function(wrap_pyfunction!(dec, m)?)?;
    m.add_function(wrap_pyfunction!(suffixes, m)?)?;
    m.add_function(wrap_pyfunction!(suffix_contents, m)?)?;
    m.add_function(wrap_pyfunction!(mutations, m)?)?;
    m.add_function(wrap_pyfunction!(strings, m)?)?;
    m.add_function(wrap_pyfunction!(int_sweep, m)?)?;
    m.add_function(wrap_pyfunction!(int_contents, m)?)?;
    m.add_function(wrap_pyfunction!(int_patterns, m)?)?;
    m.add_function(wrap_pyfunction!(reenc, m)?)?;
    m.add_function(wrap_pyfunction!(oid_trip, m)?)?;
    m.add_function(wrap_pyfunction!(oid_sweep, m)?)?;
    m.add_function(wrap_pyfunction!(uint_sweep, m)?)?;
    m.add_function(wrap_pyfunction!(ip_sweep, m)?)?;
    m.add_function(wrap_pyfunction!(real_sweep, m)?)?;
    m.add_function(wrap_pyfunction!(buffer_menu, m)?)?;
    m.add_function(wrap_pyfunction!(pool_ops, m)?)?;
    m.add_function(wrap_pyfunction!(buffer_ops, m)?)?;
    Ok(())
}
