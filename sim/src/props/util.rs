//! Shared pieces of the scenarios.
use crate::ctx::*;
use crate::choice::S;
use crate::zipr::Parts;
use std::cell::RefCell;
use std::io::{self, ErrorKind, Read, Seek, SeekFrom, Write};
use std::rc::Rc;

/// Plan and log of the faults of one in-memory stream.
#[derive(Default, Clone)]
pub struct IoPlan {
    pub ops: u64,
    /// position of the hard fault among all calls (write, flush, seek / read, seek)
    pub hard_at: Vec<(u64, u64)>,
    pub sticky: bool,
    pub stuck: bool,
    pub short_rate: u64,
    pub intr_rate: u64,
    pub fired: Vec<String>,
    pub benign: u64,
    pub last_intr: bool,
}
pub type PlanRef = Rc<RefCell<IoPlan>>;
pub fn io_plan() -> PlanRef {
    god(|| Rc::new(RefCell::new(IoPlan::default())))
}
const KINDS: [ErrorKind; 6] = [
    ErrorKind::StorageFull,
    ErrorKind::Other,
    ErrorKind::BrokenPipe,
    ErrorKind::PermissionDenied,
    ErrorKind::TimedOut,
    ErrorKind::UnexpectedEof,
];
enum Fate {
    Go,
    Short,
    Zero,
    Err(io::Error),
}
fn fate(p: &PlanRef, what: &str, data_call: bool) -> Fate {
    god(|| {
        let mut p = p.borrow_mut();
        let k = p.ops;
        p.ops += 1;
        let hard = if p.stuck { Some(1) } else { p.hard_at.iter().find(|h| h.0 == k).map(|h| h.1) };
        if let Some(sel) = hard {
            if p.sticky {
                p.stuck = true;
            }
            let zero = sel == 6 && (what == "write" || what == "read");
            if p.fired.len() < 8 {
                p.fired.push(format!("{} call {} {}", what, k, if zero { if what == "write" { "accepts 0 bytes".into() } else { "early end".to_string() } } else { format!("{:?}", KINDS[sel as usize % 6]) }));
            }
            if crate::rt::sim().faults.fired.len() < 64 {
                crate::rt::sim().faults.fired.push(p.fired.last().cloned().unwrap_or_default());
            }
            crate::rt::note(&format!("inject stream {} at call {} sel {}", what, k, sel));
            crate::rt::count(match what {
                "write" => "stream_write_error",
                "read" => "stream_read_error",
                "flush" => "stream_flush_error",
                _ => "stream_seek_error",
            });
            if zero {
                return Fate::Zero;
            }
            return Fate::Err(io::Error::new(KINDS[sel as usize % 6], "injected"));
        }
        if data_call {
            if p.intr_rate > 0 && !p.last_intr && crate::rt::chance(S::F, p.intr_rate, 256) {
                p.benign += 1;
                p.last_intr = true;
                crate::rt::count("stream_interrupted");
                return Fate::Err(io::Error::from(ErrorKind::Interrupted));
            }
            p.last_intr = false;
            if p.short_rate > 0 && crate::rt::chance(S::F, p.short_rate, 256) {
                p.benign += 1;
                crate::rt::count("stream_short");
                return Fate::Short;
            }
        }
        Fate::Go
    })
}
fn cut(n: usize) -> usize {
    if n <= 1 {
        return n;
    }
    match fdraw(3) {
        0 => n - 1,
        1 => 1,
        _ => 1 + fdraw(n as u64 - 1) as usize,
    }
}

/// In-memory writer under a plan.  `buffered`: bytes reach `data` on flush
/// only (or, with errors ignored, on drop), like std's BufWriter.
pub struct FaultyWriter {
    pub data: Rc<RefCell<Vec<u8>>>,
    pub pos: u64,
    pub plan: PlanRef,
}
impl FaultyWriter {
    pub fn new(plan: &PlanRef) -> FaultyWriter {
        god(|| FaultyWriter { data: Rc::new(RefCell::new(Vec::new())), pos: 0, plan: plan.clone() })
    }
}
impl Write for FaultyWriter {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = match fate(&self.plan, "write", true) {
            Fate::Go => b.len(),
            Fate::Short => cut(b.len()),
            Fate::Zero => return Ok(0),
            Fate::Err(e) => return Err(e),
        };
        god(|| {
            let mut d = self.data.borrow_mut();
            let end = self.pos as usize + n;
            if d.len() < end {
                d.resize(end, 0);
            }
            d[self.pos as usize..end].copy_from_slice(&b[..n]);
            self.pos = end as u64;
        });
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        match fate(&self.plan, "flush", false) {
            Fate::Err(e) => Err(e),
            _ => Ok(()),
        }
    }
}
impl Seek for FaultyWriter {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        if let Fate::Err(e) = fate(&self.plan, "seek", false) {
            return Err(e);
        }
        let len = self.data.borrow().len() as i64;
        let p = match s {
            SeekFrom::Start(x) => x as i64,
            SeekFrom::Current(x) => self.pos as i64 + x,
            SeekFrom::End(x) => len + x,
        };
        if p < 0 {
            return Err(io::Error::from(ErrorKind::InvalidInput));
        }
        self.pos = p as u64;
        Ok(self.pos)
    }
}

/// In-memory reader under a plan.
pub struct FaultyReader {
    pub data: Rc<Vec<u8>>,
    pub pos: u64,
    pub plan: PlanRef,
}
impl FaultyReader {
    pub fn new(data: &[u8], plan: &PlanRef) -> FaultyReader {
        god(|| FaultyReader { data: Rc::new(data.to_vec()), pos: 0, plan: plan.clone() })
    }
}
impl Read for FaultyReader {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let avail = self.data.len().saturating_sub(self.pos as usize);
        let mut n = avail.min(b.len());
        match fate(&self.plan, "read", true) {
            Fate::Go => {}
            Fate::Short => n = cut(n),
            Fate::Zero => return Ok(0),
            Fate::Err(e) => return Err(e),
        }
        if n == 0 {
            return Ok(0);
        }
        b[..n].copy_from_slice(&self.data[self.pos as usize..self.pos as usize + n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for FaultyReader {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        if let Fate::Err(e) = fate(&self.plan, "seek", false) {
            return Err(e);
        }
        let p = match s {
            SeekFrom::Start(x) => x as i64,
            SeekFrom::Current(x) => self.pos as i64 + x,
            SeekFrom::End(x) => self.data.len() as i64 + x,
        };
        if p < 0 {
            return Err(io::Error::from(ErrorKind::InvalidInput));
        }
        self.pos = p as u64;
        Ok(self.pos)
    }
}

/// Plan benign faults on a stream.
pub fn plan_benign(p: &PlanRef) {
    let a = [0, 20, 90, 200][fdraw(4) as usize];
    let b = [0, 10, 40, 100][fdraw(4) as usize];
    god(|| {
        let mut p = p.borrow_mut();
        p.short_rate = a;
        p.intr_rate = b;
    })
}
/// Plan one hard fault among `n` calls; choice 0 = none.
pub fn plan_hard(p: &PlanRef, n: u64) -> bool {
    if n == 0 {
        return false;
    }
    let k = fdraw(n + 1);
    if k == 0 {
        return false;
    }
    let sel = fdraw(7);
    let st = fdraw(2) == 1;
    god(|| {
        let mut p = p.borrow_mut();
        p.hard_at.push((k - 1, sel));
        p.sticky = st;
    });
    true
}

pub fn freeze_clock() {
    god(|| crate::rt::sim().wall_frozen = Some(crate::rt::wall_ns()));
}
pub fn thaw_clock() {
    god(|| crate::rt::sim().wall_frozen = None);
}

pub fn read_parts(class: &str, what: &str, b: &[u8]) -> Parts {
    match god(|| crate::zipr::read(b)) {
        Ok(p) => p,
        Err(e) => viol!(class, "{}: not a complete package: {}", what, e),
    }
}
/// First difference between two part sets.
pub fn diff_parts(a: &Parts, b: &Parts) -> Option<String> {
    god(|| {
        for (k, v) in a {
            match b.get(k) {
                None => return Some(format!("part {} is missing", k)),
                Some(x) if x != v => return Some(format!("part {} differs: {}", k, diff_bytes(v, x))),
                _ => {}
            }
        }
        for k in b.keys() {
            if !a.contains_key(k) {
                return Some(format!("part {} appeared", k));
            }
        }
        None
    })
}
pub fn diff_bytes(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b.iter()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let s = |v: &[u8]| String::from_utf8_lossy(&v[i.saturating_sub(20).min(v.len())..(i + 40).min(v.len())]).to_string();
    format!("{} and {} bytes, first difference at {}: {:?} / {:?}", a.len(), b.len(), i, s(a), s(b))
}
pub fn e2s<T, E: std::fmt::Display>(r: Result<T, E>) -> Result<T, String> {
    match r {
        Ok(x) => Ok(x),
        Err(e) => {
            let m = e.to_string();
            drop(e);
            Err(god(|| m.as_str().chars().take(200).collect()))
        }
    }
}
/// Files and directories under a prefix.
pub fn listing(prefix: &str) -> Vec<String> {
    god(|| crate::rt::sim().fs.tree().into_iter().map(|x| x.0).filter(|p| p.starts_with(prefix)).collect())
}

/// The result of an operation that has no reason to fail.
pub fn must<T, E: std::fmt::Display>(what: &str, r: Result<T, E>) -> T {
    match e2s(r) {
        Ok(x) => x,
        Err(e) => viol!("unexpected-error", "{} failed without any fault: {}", what, e),
    }
}
