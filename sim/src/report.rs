//! How a run reports its outcome: JSON into a shared buffer, then _exit.
use crate::choice::*;
use crate::rt::*;
use serde_json::{json, Value};

pub struct Shared {
    pub base: *mut u8,
    pub cap: usize,
}
static mut SHARED: Shared = Shared { base: std::ptr::null_mut(), cap: 0 };
pub static mut SAMPLE: Vec<String> = Vec::new();
pub static mut STATES: Vec<u64> = Vec::new();
pub static mut NONTRIVIAL: bool = false;
pub static mut PROBES: Vec<(String, u64)> = Vec::new();

static mut KEPT: Option<[Stream; 4]> = None;
/// The choices to report are these, not those of the simulator.
#[allow(static_mut_refs)]
pub fn keep_streams(s: [Stream; 4]) {
    unsafe { KEPT = Some(s) }
}

pub const CAP: usize = 64 << 20;

#[allow(static_mut_refs)]
pub fn shared_init() {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            CAP,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        SHARED = Shared { base: p as *mut u8, cap: CAP };
    }
}
#[allow(static_mut_refs)]
pub fn shared_clear() {
    unsafe {
        std::ptr::write(SHARED.base as *mut u64, 0);
    }
}
#[allow(static_mut_refs)]
pub fn shared_take() -> Option<Value> {
    unsafe {
        let n = std::ptr::read(SHARED.base as *const u64) as usize;
        if n == 0 {
            return None;
        }
        let sl = std::slice::from_raw_parts(SHARED.base.add(8), n);
        serde_json::from_slice(sl).ok()
    }
}

fn stream_json(st: &Stream) -> Value {
    json!(st.taken.iter().map(|(i, v)| json!([i, v])).collect::<Vec<_>>())
}

#[allow(static_mut_refs)]
pub fn finish(status: &str, class: &str, msg: &str) -> ! {
    std::mem::forget(InGuard::new());
    let s = sim();
    fnv(&mut s.hash, class.as_bytes());
    let v = unsafe {
        let streams = KEPT.as_ref().unwrap_or(&s.streams);
        json!({
            "status": status,
            "class": class,
            "msg": msg,
            "streams": streams.iter().map(stream_json).collect::<Vec<_>>(),
            "lens": streams.iter().map(|x| x.idx).collect::<Vec<_>>(),
            "counters": s.counters.iter().map(|(k, v)| (k.to_string(), json!(v))).collect::<serde_json::Map<_, _>>(),
            "hash": s.hash,
            "sched": s.sched_hash,
            "sim_ns": s.now - 1_000_000_000,
            "steps": s.steps,
            "switches": s.switches,
            "threads": s.threads.len(),
            "fired": s.faults.fired,
            "sample": SAMPLE,
            "states": STATES,
            "nontrivial": NONTRIVIAL,
            "probes": PROBES,
            "trace": s.trace,
            "peak": crate::shim::PEAK.load(std::sync::atomic::Ordering::Relaxed),
            "stdout": if s.trace_on { String::from_utf8_lossy(&s.stdout).to_string() } else { String::new() },
        })
    };
    let mut b = serde_json::to_vec(&v).unwrap();
    if b.len() > CAP - 8 {
        let mut v2 = v;
        v2["trace"] = json!([]);
        v2["streams"] = json!([[], [], [], []]);
        b = serde_json::to_vec(&v2).unwrap();
    }
    unsafe {
        std::ptr::copy_nonoverlapping(b.as_ptr(), SHARED.base.add(8), b.len());
        std::ptr::write_volatile(SHARED.base as *mut u64, b.len() as u64);
        libc::_exit(0);
    }
}
pub fn finish_hang(msg: &str) -> ! {
    let s = sim();
    let mut m = msg.to_string();
    for (i, t) in s.threads.iter().enumerate() {
        m.push_str(&format!("; t{}={:?}", i, t.state).chars().take(160).collect::<String>());
    }
    finish("violation", "hang", &m)
}
pub fn finish_memory(n: usize) -> ! {
    finish("violation", "memory", &format!("live memory exceeded the bound: {} bytes", n))
}
