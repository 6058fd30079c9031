//! What property scenarios use.
use crate::choice::*;
use crate::report;
use crate::rt::*;
use crate::simfs::*;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn god<R>(f: impl FnOnce() -> R) -> R {
    let _g = InGuard::new();
    f()
}
pub fn violate(class: &str, msg: &str) -> ! {
    report::finish("violation", class, msg)
}
#[macro_export]
macro_rules! viol {
    ($class:expr, $($arg:tt)*) => { $crate::ctx::violate($class, &$crate::ctx::god(|| format!($($arg)*))) };
}
pub fn harness_error(msg: &str) -> ! {
    report::finish("error", "harness", msg)
}
pub fn w(n: u64) -> u64 {
    draw(S::W, n)
}
pub fn wc(a: u64, b: u64) -> bool {
    chance(S::W, a, b)
}
pub fn fdraw(n: u64) -> u64 {
    draw(S::F, n)
}
pub fn pick<'a, T>(v: &'a [T]) -> &'a T {
    &v[w(v.len() as u64) as usize]
}
pub fn wweighted(v: &[u64]) -> usize {
    god(|| sim().streams[0].weighted(v))
}

/// Run a library call, turning a panic into Err(message).
pub fn call<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => god(|| Err(sim().panic_msg.take().unwrap_or_else(|| "panic".into()))),
    }
}
/// Run a library call; a panic is a violation.
pub fn no_panic<R>(what: &str, f: impl FnOnce() -> R) -> R {
    match call(f) {
        Ok(r) => r,
        Err(m) => viol!("panic", "{} panicked: {}", what, m),
    }
}

#[allow(static_mut_refs)]
pub fn sample(s: String) {
    god(|| unsafe { report::SAMPLE.push(s.chars().take(300).collect()) });
}
#[allow(static_mut_refs)]
pub fn state(key: &str) {
    god(|| {
        let mut h = 0xcbf29ce484222325u64;
        fnv(&mut h, key.as_bytes());
        unsafe { report::STATES.push(h) }
    });
}
#[allow(static_mut_refs)]
pub fn probe(key: &str) {
    god(|| unsafe {
        match report::PROBES.iter_mut().find(|p| p.0 == key) {
            Some(p) => p.1 += 1,
            None => report::PROBES.push((key.to_string(), 1)),
        }
    });
}
pub fn nontrivial() {
    unsafe { report::NONTRIVIAL = true }
}

pub fn put(path: &str, data: &[u8]) {
    god(|| {
        sim().fs.put(path, data);
    });
}
pub fn get(path: &str) -> Option<Vec<u8>> {
    god(|| sim().fs.get(path).map(|d| d.to_vec()))
}
pub fn exists(path: &str) -> bool {
    god(|| sim().fs.exists(path))
}
pub fn tree() -> BTreeMap<String, Option<Vec<u8>>> {
    god(|| sim().fs.tree())
}
pub fn audit_clear() {
    god(|| sim().fs.audit.clear());
}
pub fn audit() -> Vec<Audit> {
    god(|| sim().fs.audit.clone())
}

// ------------------------------------------------------------ fault control
pub fn arm() {
    god(|| sim().faults.armed = true);
}
pub fn disarm() {
    god(|| sim().faults.armed = false);
}
pub fn faults() -> &'static mut Faults {
    &mut sim().faults
}
pub fn reset_faults() {
    god(|| sim().faults = Faults::new());
}
pub fn fired() -> Vec<String> {
    god(|| sim().faults.fired.clone())
}
pub fn fired_any() -> bool {
    god(|| !sim().faults.fired.is_empty())
}

/// Benign faults: short and interrupted calls, at rates chosen per run.
pub fn benign_rates() -> (u64, u64) {
    let a = [0, 8, 64, 160][fdraw(4) as usize];
    let b = [0, 4, 32, 90][fdraw(4) as usize];
    (a, b)
}
pub fn set_benign(r: (u64, u64)) {
    god(|| {
        let f = &mut sim().faults;
        f.short_rate = r.0;
        f.eintr_rate = r.1;
    });
}

/// Count the fallible calls of `f` in the mask, with nothing injected.
pub fn measure<R>(mask: u32, filter: Option<Box<dyn Fn(Call, &str) -> bool>>, f: impl FnOnce() -> R) -> (R, u64) {
    god(|| {
        let mut fa = Faults::new();
        fa.hard_calls = mask;
        fa.filter = filter;
        fa.armed = true;
        sim().faults = fa;
    });
    let r = f();
    let n = god(|| {
        let n = sim().faults.ops;
        sim().faults = Faults::new();
        n
    });
    (r, n)
}

/// Place one hard fault (sometimes two) at a chosen position among `n`.
/// Choice 0 means no fault at all.
pub fn plan_snipe(mask: u32, n: u64, sticky: bool) -> bool {
    if n == 0 {
        return false;
    }
    let p = fdraw(n + 1);
    if p == 0 {
        return false;
    }
    let sel = fdraw(6);
    let mut v = vec![(p - 1, sel)];
    if fdraw(6) == 1 {
        let q = fdraw(n + 1);
        if q > 0 {
            v.push((q - 1, fdraw(6)));
        }
    }
    god(|| {
        let f = &mut sim().faults;
        f.hard_calls = mask;
        f.snipe = v;
        f.sticky = sticky;
    });
    true
}

/// Run `f` in a simulated thread that dies at the planned crash point.
/// Returns None if it died.
pub fn crashable<R: Send + 'static>(f: impl FnOnce() -> R + Send + 'static) -> Option<R> {
    let (tx, rx) = god(std::sync::mpsc::channel);
    let id = god(|| {
        sim().crashed = false;
        sim().threads.len()
    });
    let j = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let r = f();
            god(|| {
                let _ = tx.send(r);
            });
        })
        .unwrap();
    // join through the simulator; a dead thread also ends the wait
    let dead = god(|| {
        block(Wait::Join(id), None);
        matches!(sim().threads[id].state, TState::Blocked(Wait::Dead, _))
    });
    if dead {
        std::mem::forget(j);
        return god(|| rx.try_recv().ok());
    }
    let _ = j.join();
    god(|| rx.try_recv().ok())
}

pub fn short(b: &[u8]) -> String {
    god(|| String::from_utf8_lossy(&b[..b.len().min(60)]).to_string())
}
pub fn is_dir(path: &str) -> bool {
    god(|| sim().fs.tree().get(path).map_or(false, |v| v.is_none()))
}

static mut TWIN: *mut u8 = std::ptr::null_mut();
const TWIN_CAP: usize = 64 << 20;
extern "C" fn on_twin_sig(sig: i32) {
    unsafe {
        std::ptr::write_volatile(TWIN as *mut u64, (1 << 40) | sig as u64);
        raw6(libc::SYS_exit_group, 0, 0, 0, 0, 0, 0);
    }
}
fn twin_bytes(f: impl FnOnce() -> Vec<u8>) -> Vec<u8> {
    std::mem::forget(InGuard::new());
    let alive = sim().threads.iter().filter(|t| !matches!(t.state, TState::Done | TState::Blocked(Wait::Dead, _))).count();
    if alive != 1 {
        harness_error("a twin process needs a single thread");
    }
    unsafe {
        if TWIN.is_null() {
            let a = raw6(libc::SYS_mmap, 0, TWIN_CAP as i64, (libc::PROT_READ | libc::PROT_WRITE) as i64, (libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE) as i64, -1, 0);
            if a < 0 {
                harness_error("no memory for a twin process");
            }
            TWIN = a as *mut u8;
        }
        std::ptr::write_volatile(TWIN as *mut u64, 0);
        let pid = libc::fork();
        if pid == 0 {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_twin_sig as *const () as usize;
            sa.sa_flags = libc::SA_ONSTACK | libc::SA_NODEFER;
            for s in [libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGXCPU, libc::SIGALRM] {
                libc::sigaction(s, &sa, std::ptr::null_mut());
            }
            libc::alarm(200);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            // its choices are its own, and not part of the recorded ones
            let seed = sim().hash;
            let mine = [0u64, 1, 2, 3].map(|k| Stream::random(mix(seed, 900 + k)));
            report::keep_streams(std::mem::replace(&mut sim().streams, mine));
            let out = {
                IN.with(|i| i.set(i.get() - 1));
                let r = catch_unwind(AssertUnwindSafe(f));
                std::mem::forget(InGuard::new());
                match r {
                    Ok(v) => v,
                    Err(_) => {
                        let m = sim().panic_msg.take().unwrap_or_default();
                        if m.starts_with("src/") {
                            report::finish("error", "harness", &m)
                        }
                        report::finish("violation", "panic", &format!("uncaught panic: {}", m))
                    }
                }
            };
            if out.len() + 8 > TWIN_CAP {
                report::finish("error", "harness", "a twin process returned too much");
            }
            std::ptr::copy_nonoverlapping(out.as_ptr(), TWIN.add(8), out.len());
            std::ptr::write_volatile(TWIN as *mut u64, (2 << 40) | out.len() as u64);
            libc::_exit(0);
        }
        if pid < 0 {
            harness_error("no twin process");
        }
        let mut st = 0i32;
        loop {
            let r = raw6(libc::SYS_wait4, pid as i64, &mut st as *mut i32 as i64, 0, 0, 0, 0);
            if r == pid as i64 || (r < 0 && r != -(libc::EINTR as i64)) {
                break;
            }
        }
        if report::shared_take().is_some() {
            // the twin has reported the end of this run
            libc::_exit(0);
        }
        count("twin_process");
        let h = std::ptr::read_volatile(TWIN as *const u64);
        let (kind, n) = (h >> 40, (h & ((1 << 40) - 1)) as usize);
        let r = match kind {
            2 => std::slice::from_raw_parts(TWIN.add(8), n).to_vec(),
            1 if n as i32 == libc::SIGXCPU => report::finish("violation", "hang", "used 40 s of CPU in one simulated process without finishing"),
            1 if n as i32 != libc::SIGALRM => report::finish("violation", "abort", &format!("a process died with signal {}", n)),
            _ => report::finish("error", "harness", &format!("twin process ended with wait status {:#x}", st)),
        };
        fnv(&mut sim().hash, &r);
        IN.with(|i| i.set(i.get() - 1));
        r
    }
}
/// Run `f` in another process that is in the same state as this one and has
/// seen the same past; nothing it does is visible here but its result.
pub fn twin<T: serde::Serialize + serde::de::DeserializeOwned>(f: impl FnOnce() -> T) -> T {
    let b = twin_bytes(|| {
        let r = f();
        god(|| serde_json::to_vec(&r).unwrap())
    });
    god(|| serde_json::from_slice(&b).unwrap())
}
