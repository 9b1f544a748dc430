//! The crate's buffer pool under every interleaving of its synchronisation operations.
//!
//! Every thread takes a buffer, fills it with its own octets, lets the others run, and must still find its own octets.
use gufo_snmp::buf::get_buffer_pool;
use shuttle::scheduler::DfsScheduler;
use shuttle::{Config, MaxSteps, Runner};
use std::ffi::{c_char, CStr, CString};
use std::mem::MaybeUninit;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

static RUNS: AtomicUsize = AtomicUsize::new(0);
static LAST: Mutex<String> = Mutex::new(String::new());

fn fill(me: usize, round: usize, n: usize) -> Vec<u8> {
    (0..n).map(|i| (me * 101 + round * 31 + i * 7 + i / 251) as u8).collect()
}

/// a request: built from the end of the buffer
fn send(me: usize, round: usize, n: usize, pause: bool) {
    let mut h = get_buffer_pool().acquire();
    let buf = h.as_mut();
    assert!(buf.is_empty() && buf.len() == 0 && buf.data().is_empty(), "MC: the buffer handed out is not empty");
    let want = fill(me, round, n);
    buf.push(&want[n / 2..]).expect("MC: no room in a fresh buffer");
    buf.push(&want[..n / 2]).expect("MC: no room in a fresh buffer");
    if pause {
        shuttle::thread::yield_now();
    }
    assert!(buf.data() == &want[..], "MC: the octets in the buffer changed while it was held");
}

/// a reply: written into the whole buffer
fn recv(me: usize, round: usize, n: usize) {
    let mut h = get_buffer_pool().acquire();
    let buf = h.as_mut();
    let want = fill(me, round, n);
    {
        let m: &mut [MaybeUninit<u8>] = buf.as_mut();
        assert!(m.len() >= n, "MC: the receive buffer is too small");
        for (i, x) in want.iter().enumerate() {
            m[i] = MaybeUninit::new(*x);
        }
    }
    shuttle::thread::yield_now();
    assert!(buf.as_slice(n) == &want[..], "MC: the datagram in the buffer changed while it was held");
}

fn program(me: usize, p: &str) {
    for (round, c) in p.chars().enumerate() {
        match c {
            's' => send(me, round, 60, true),
            'S' => send(me, round, 3000, true),
            't' => send(me, round, 300, false),
            'r' => recv(me, round, 60),
            'R' => recv(me, round, 3000),
            // both at once
            'n' => {
                let mut h = get_buffer_pool().acquire();
                let buf = h.as_mut();
                let want = fill(me, round, 100);
                buf.push(&want).expect("MC: no room in a fresh buffer");
                recv(me, round + 1, 200);
                assert!(buf.data() == &want[..], "MC: the octets in the buffer changed while it was held");
            }
            _ => unreachable!(),
        }
    }
}

/// programs: one word per thread. -> "ok <executions> <complete>" or "bad <executions> <message>"
#[no_mangle]
pub unsafe extern "C" fn mt_run(programs: *const c_char, limit: usize) -> *mut c_char {
    let progs: Vec<String> =
        unsafe { CStr::from_ptr(programs) }.to_str().unwrap().split_whitespace().map(String::from).collect();
    RUNS.store(0, SeqCst);
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|x| x.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let mut l = LAST.lock().unwrap();
        if l.is_empty() {
            *l = format!("{} @ {}", m, i.location().map(|x| x.file()).unwrap_or(""));
        }
    }));
    LAST.lock().unwrap().clear();
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut cfg = Config::new();
        cfg.max_steps = MaxSteps::ContinueAfter(20_000);
        cfg.stack_size = 1 << 18;
        cfg.max_time = Some(std::time::Duration::from_secs(120));
        cfg.silence_warnings = true;
        cfg.failure_persistence = shuttle::FailurePersistence::None;
        let ps = progs.clone();
        Runner::new(DfsScheduler::new(Some(limit), true), cfg).run(move || {
            RUNS.fetch_add(1, SeqCst);
            vstd::EXECUTION.fetch_add(1, SeqCst);
            let hs: Vec<_> = ps
                .iter()
                .enumerate()
                .skip(1)
                .map(|(i, p)| {
                    let p = p.clone();
                    shuttle::thread::spawn(move || program(i, &p))
                })
                .collect();
            program(0, &ps[0]);
            for h in hs {
                h.join().unwrap();
            }
        })
    }));
    std::panic::set_hook(old);
    let n = RUNS.load(SeqCst);
    let s = match r {
        Ok(_) => format!("ok {} {}", n, (n < limit) as u8),
        Err(_) => format!("bad {} {}", n, LAST.lock().unwrap().replace('\n', " ")),
    };
    CString::new(s).unwrap().into_raw()
}
