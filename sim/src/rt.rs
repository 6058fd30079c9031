//! The simulator core: threads, clock, events, faults.
use crate::choice::*;
use crate::simfs::*;
use crate::simnet::Net;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, Ordering};

thread_local! {
    pub static TID: Cell<i32> = const { Cell::new(-1) };
    pub static IN: Cell<u32> = const { Cell::new(0) };
}

/// True on a simulated thread outside the simulator's own code.
#[inline]
pub fn active() -> bool {
    TID.with(|t| t.get()) >= 0 && IN.with(|i| i.get()) == 0
}
#[inline]
pub fn on_sim_thread() -> bool {
    TID.with(|t| t.get()) >= 0
}

pub struct InGuard;
impl InGuard {
    pub fn new() -> InGuard {
        IN.with(|i| i.set(i.get() + 1));
        InGuard
    }
}
impl Drop for InGuard {
    fn drop(&mut self) {
        IN.with(|i| i.set(i.get() - 1));
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
#[repr(u32)]
pub enum Call {
    Open = 0,
    Creat,
    Read,
    Write,
    Stat,
    Fsync,
    Rename,
    Unlink,
    Mkdir,
    Rmdir,
    OpenDir,
    ReadDir,
    Realpath,
    Trunc,
    Chmod,
    Spawn,
    Pipe,
    Seek,
    Socket,
    Link,
}
pub const fn bit(c: Call) -> u32 {
    1 << (c as u32)
}
pub const READS: u32 = bit(Call::Open) | bit(Call::Read) | bit(Call::Stat) | bit(Call::OpenDir) | bit(Call::ReadDir) | bit(Call::Realpath) | bit(Call::Seek);
pub const WRITES: u32 = bit(Call::Creat)
    | bit(Call::Write)
    | bit(Call::Fsync)
    | bit(Call::Rename)
    | bit(Call::Mkdir)
    | bit(Call::Trunc)
    | bit(Call::Link);
pub const ALL: u32 = !0;

fn errnos(c: Call) -> &'static [i32] {
    use libc::*;
    match c {
        Call::Open => &[EIO, EACCES, EMFILE, ENOENT],
        Call::Creat => &[ENOSPC, EACCES, EROFS, EMFILE, EIO, EDQUOT],
        Call::Read => &[EIO, ESTALE],
        Call::Write => &[ENOSPC, EIO, EDQUOT, EFBIG],
        Call::Stat => &[EIO, EACCES],
        Call::Fsync => &[EIO, ENOSPC],
        Call::Rename => &[EIO, ENOSPC, EACCES, EXDEV],
        Call::Unlink => &[EIO, EACCES],
        Call::Mkdir => &[ENOSPC, EACCES, EROFS],
        Call::Rmdir => &[EACCES, EIO],
        Call::OpenDir => &[EACCES, EMFILE],
        Call::ReadDir => &[EIO],
        Call::Realpath => &[EACCES, EIO],
        Call::Trunc => &[EIO, ENOSPC],
        Call::Chmod => &[EPERM],
        Call::Spawn => &[ENOENT, EACCES, EAGAIN, ENOMEM],
        Call::Pipe => &[EMFILE],
        Call::Seek => &[EIO],
        Call::Socket => &[EMFILE],
        Call::Link => &[EIO],
    }
}
pub fn call_name(c: Call) -> &'static str {
    match c {
        Call::Open => "open_error",
        Call::Creat => "create_error",
        Call::Read => "read_error",
        Call::Write => "write_error",
        Call::Stat => "stat_error",
        Call::Fsync => "fsync_error",
        Call::Rename => "rename_error",
        Call::Unlink => "unlink_error",
        Call::Mkdir => "mkdir_error",
        Call::Rmdir => "rmdir_error",
        Call::OpenDir => "opendir_error",
        Call::ReadDir => "readdir_error",
        Call::Realpath => "realpath_error",
        Call::Trunc => "truncate_error",
        Call::Chmod => "chmod_error",
        Call::Spawn => "spawn_error",
        Call::Pipe => "pipe_error",
        Call::Seek => "seek_error",
        Call::Socket => "socket_error",
        Call::Link => "link_error",
    }
}

pub enum Fx {
    None,
    Err(i32),
    Short,
    Eintr,
    Eof,
    /// act, then the process dies (write calls may be torn)
    Crash,
}

pub struct Faults {
    pub armed: bool,
    pub filter: Option<Box<dyn Fn(Call, &str) -> bool>>,
    pub hard_calls: u32,
    pub ops: u64,
    pub snipe: Vec<(u64, u64)>,
    pub sticky: bool,
    pub stuck: Option<i32>,
    pub hard_rate: u64, // per 65536
    pub hard_budget: u32,
    pub short_rate: u64, // per 256
    pub eintr_rate: u64, // per 256
    pub crash_at: Option<u64>,
    /// reads from this call on find the end of the file
    pub eof_at: Option<u64>,
    pub fired: Vec<String>,
    pub fired_calls: u32,
    pub jump_rate: u64, // per 256, on wall-clock reads
    pub spurious_rate: u64,
}
impl Faults {
    pub fn new() -> Faults {
        Faults {
            armed: false,
            filter: None,
            hard_calls: 0,
            ops: 0,
            snipe: vec![],
            sticky: false,
            stuck: None,
            hard_rate: 0,
            hard_budget: 0,
            short_rate: 0,
            eintr_rate: 0,
            crash_at: None,
            eof_at: None,
            fired: vec![],
            fired_calls: 0,
            jump_rate: 0,
            spurious_rate: 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Wait {
    Futex { addr: usize, bits: u32 },
    Join(usize),
    FdRead(usize),
    Epoll(usize),
    Poll(Vec<(i32, i16)>),
    Sleep,
    Pid(i32),
    Dead,
}
#[derive(Clone, Debug)]
pub enum TState {
    Run,
    Blocked(Wait, Option<u64>),
    Done,
}
pub struct Thr {
    pub state: TState,
    pub sem: &'static AtomicU32,
    pub timed_out: bool,
    pub woken: bool,
    pub pthread: u64,
    pub name: String,
}

pub enum Ev {
    Call(Box<dyn FnOnce()>),
}

pub struct Proc {
    pub exited: bool,
    pub status: i32,
    pub reaped: bool,
}

pub type ProgFn = Box<dyn FnMut(ProgCall) -> ProgResult>;
pub struct ProgCall {
    pub argv: Vec<String>,
    pub cwd: String,
}
pub struct ProgResult {
    pub status: i32, // wait status
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
}

pub struct Sim {
    pub streams: [Stream; 4],
    pub entropy: Rng,
    pub threads: Vec<Thr>,
    pub now: u64,
    pub wall_base: i128,
    pub wall_frozen: Option<i128>,
    pub events: BTreeMap<(u64, u64), Ev>,
    pub seq: u64,
    pub fs: Fs,
    pub ofs: Vec<OpenFile>,
    pub fds: BTreeMap<i32, usize>,
    pub faults: Faults,
    pub net: Net,
    pub progs: BTreeMap<String, ProgFn>,
    pub prog_delay: Option<Box<dyn FnMut(&str) -> u64>>,
    pub procs: BTreeMap<i32, Proc>,
    pub next_pid: i32,
    pub pipes: Vec<PipeBuf>,
    pub counters: BTreeMap<&'static str, u64>,
    pub hash: u64,
    pub sched_hash: u64,
    pub trace_on: bool,
    pub trace: Vec<String>,
    pub steps: u64,
    pub step_cap: u64,
    pub switches: u64,
    pub preempt: u64, // per 256
    pub alloc_yield: u32,
    /// Time slices between edges of the library's code: 1 to 2^edge_bits of them; 0: no such preemption.
    pub edge_bits: u32,
    pub slices: u64,
    pub alloc_ctr: u32,
    pub readdir_shuffle: bool,
    pub crashed: bool,
    pub exit_code: Option<i32>,
    pub crash_tid: i32,
    pub stdout: Vec<u8>,
    pub wall_reads: u64,
    /// what the wall clock showed at each reading
    pub wall_log: Vec<i128>,
    pub panic_msg: Option<String>,
    pub first_panic: Option<String>,
    pub live: usize,
}

pub struct PipeBuf {
    pub data: std::collections::VecDeque<u8>,
    pub writers: u32,
}

#[derive(Clone, Debug)]
pub enum Of {
    File { ino: Ino, rd: bool, wr: bool, append: bool },
    Dir { ino: Ino },
    PipeR(usize),
    PipeW(usize),
    Sock(usize),
    Epoll(usize),
    Event(usize),
    Null,
}
#[derive(Clone, Debug)]
pub struct OpenFile {
    pub of: Of,
    pub pos: u64,
    pub refs: u32,
    pub nonblock: bool,
}

static mut SIM: *mut Sim = std::ptr::null_mut();

#[allow(static_mut_refs)]
#[inline]
pub fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM }
}
pub fn sim_exists() -> bool {
    unsafe { !SIM.is_null() }
}

pub fn install(seed: u64, streams: [Stream; 4], entropy: u64) {
    let s = Sim {
        streams,
        entropy: Rng::new(entropy),
        threads: Vec::new(),
        now: 1_000_000_000,
        wall_base: 1_750_000_000 * 1_000_000_000i128,
        wall_frozen: None,
        events: BTreeMap::new(),
        seq: 0,
        fs: Fs::new(),
        ofs: Vec::new(),
        fds: BTreeMap::new(),
        faults: Faults::new(),
        net: Net::new(),
        progs: BTreeMap::new(),
        prog_delay: None,
        procs: BTreeMap::new(),
        next_pid: 5000,
        pipes: Vec::new(),
        counters: BTreeMap::new(),
        hash: 0xcbf29ce484222325 ^ (seed & 0),
        sched_hash: 0xcbf29ce484222325,
        trace_on: false,
        trace: Vec::new(),
        steps: 0,
        step_cap: 4_000_000,
        switches: 0,
        preempt: 0,
        alloc_yield: 0,
        edge_bits: 0,
        slices: 0,
        alloc_ctr: 0,
        readdir_shuffle: true,
        crashed: false,
        exit_code: None,
        crash_tid: -1,
        stdout: Vec::new(),
        wall_reads: 0,
        wall_log: Vec::new(),
        panic_msg: None,
        first_panic: None,
        live: 0,
    };
    unsafe { SIM = Box::into_raw(Box::new(s)) };
    let s = sim();
    for d in ["/work", "/tmp", "/root", "/home"] {
        s.fs.mkdir_p(d);
    }
    s.fs.sync_all();
    s.fs.audit.clear();
}

pub fn fnv(h: &mut u64, b: &[u8]) {
    for x in b {
        *h ^= *x as u64;
        *h = h.wrapping_mul(0x100000001b3);
    }
}

pub fn count(k: &'static str) {
    *sim().counters.entry(k).or_insert(0) += 1;
}
pub fn count_n(k: &'static str, n: u64) {
    *sim().counters.entry(k).or_insert(0) += n;
}

/// Record an event in the run's event log (hashed always, kept when tracing).
pub fn log(what: &str, a: u64, b: u64) {
    let s = sim();
    let t = TID.with(|t| t.get());
    fnv(&mut s.hash, &(t as u32).to_le_bytes());
    fnv(&mut s.hash, what.as_bytes());
    fnv(&mut s.hash, &a.to_le_bytes());
    fnv(&mut s.hash, &b.to_le_bytes());
    fnv(&mut s.sched_hash, &[t as u8]);
    fnv(&mut s.sched_hash, what.as_bytes());
    if s.trace_on && s.trace.len() < 200_000 {
        let l = format!("{:>10} t{} {} {} {}", s.now / 1000, t, what, a as i64, b as i64);
        s.trace.push(l);
    }
}
pub fn note(msg: &str) {
    let s = sim();
    fnv(&mut s.hash, msg.as_bytes());
    if s.trace_on && s.trace.len() < 200_000 {
        s.trace.push(format!("{:>10}    -- {}", s.now / 1000, msg));
    }
}

// ---------------------------------------------------------------- raw syscalls
#[inline]
pub unsafe fn raw6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    r
}
pub unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}

fn sem_wait(w: &AtomicU32) {
    loop {
        if w.compare_exchange(1, 0, Ordering::Acquire, Ordering::Relaxed).is_ok() {
            return;
        }
        unsafe {
            raw6(libc::SYS_futex, w as *const _ as i64, 128, 0, 0, 0, 0);
        }
    }
}
fn sem_post(w: &AtomicU32) {
    w.store(1, Ordering::Release);
    unsafe {
        raw6(libc::SYS_futex, w as *const _ as i64, 129, 1, 0, 0, 0);
    }
}

// ---------------------------------------------------------------- scheduler
pub fn me() -> usize {
    TID.with(|t| t.get()) as usize
}

fn ready(s: &Sim, w: &Wait) -> bool {
    match w {
        Wait::Futex { .. } | Wait::Sleep | Wait::Dead => false,
        Wait::Join(t) => matches!(s.threads[*t].state, TState::Done | TState::Blocked(Wait::Dead, _)),
        Wait::FdRead(of) => crate::sys::readable(s, *of),
        Wait::Epoll(e) => s.net.epoll_has_pending(*e),
        Wait::Poll(v) => v.iter().any(|(fd, ev)| crate::sys::poll_bits(s, *fd, *ev) != 0),
        Wait::Pid(p) => s.procs.get(p).map_or(true, |p| p.exited),
    }
}

pub fn at(delay_ns: u64, f: Box<dyn FnOnce()>) {
    let s = sim();
    s.seq += 1;
    let k = (s.now + delay_ns, s.seq);
    s.events.insert(k, Ev::Call(f));
}

fn fire_due() {
    loop {
        let s = sim();
        let k = match s.events.keys().next() {
            Some(k) if k.0 <= s.now => *k,
            _ => return,
        };
        let ev = s.events.remove(&k).unwrap();
        match ev {
            Ev::Call(f) => f(),
        }
    }
}

fn update_blocked() {
    let s = sim();
    for i in 0..s.threads.len() {
        let (rdy, to) = match &s.threads[i].state {
            TState::Blocked(w, d) => (ready(s, w), d.map_or(false, |d| d <= s.now)),
            _ => continue,
        };
        if rdy || to {
            let t = &mut s.threads[i];
            t.timed_out = to && !rdy;
            t.state = TState::Run;
        }
    }
}

/// Pick who runs next and hand the baton over.  `can_stay`: the current thread
/// is itself runnable.  `force`: prefer somebody else (sched_yield).
fn dispatch(can_stay: bool, force: bool, exiting: bool) {
    let m = me();
    loop {
        fire_due();
        update_blocked();
        let s = sim();
        let n = s.threads.len();
        let mut cand: Vec<usize> = Vec::new();
        for k in 0..n {
            let i = (m + k) % n;
            if k == 0 && !can_stay && !matches!(s.threads[i].state, TState::Run) {
                continue;
            }
            if matches!(s.threads[i].state, TState::Run) && !(exiting && i == m) {
                cand.push(i);
            }
        }
        if cand.is_empty() {
            // advance the clock
            let mut next: Option<u64> = s.events.keys().next().map(|k| k.0);
            for t in &s.threads {
                if let TState::Blocked(_, Some(d)) = &t.state {
                    next = Some(next.map_or(*d, |x| x.min(*d)));
                }
            }
            match next {
                Some(t) => {
                    if t > s.now {
                        s.now = t;
                    }
                    continue;
                }
                None => {
                    crate::report::finish_hang("deadlock: every thread is blocked and no event is pending");
                }
            }
        }
        let idx = if cand.len() == 1 {
            0
        } else if force && cand[0] == m {
            // round robin unless the schedule says otherwise
            1 + s.streams[S::S as usize].draw(cand.len() as u64 - 1) as usize
        } else {
            s.streams[S::S as usize].draw(cand.len() as u64) as usize
        };
        let next = cand[idx];
        if next == m {
            return;
        }
        s.switches += 1;
        fnv(&mut s.sched_hash, &[0xff, next as u8]);
        fnv(&mut s.hash, &[0xff, next as u8]);
        let (a, b) = (s.threads[next].sem, s.threads[m].sem);
        sem_post(a);
        if !exiting {
            sem_wait(b);
        }
        return;
    }
}

fn tick() {
    let s = sim();
    s.steps += 1;
    s.now += 1_000;
    if s.steps > s.step_cap {
        crate::report::finish_hang("step limit reached (livelock)");
    }
}

/// A scheduling point: the scheduler may preempt the current thread here.
pub fn yield_point() {
    tick();
    let s = sim();
    if s.live <= 1 && s.events.is_empty() {
        return;
    }
    fire_due();
    let s = sim();
    if s.live <= 1 {
        return;
    }
    if s.preempt > 0 && s.streams[S::S as usize].chance(s.preempt, 256) {
        dispatch(true, true, false);
    }
}

/// Edges the running slice has left; u32::MAX: unlimited.
pub static EDGES: AtomicU32 = AtomicU32::new(u32::MAX);

/// A drawn number of edges, all magnitudes equally likely.
fn slice() -> u32 {
    let s = sim();
    if s.edge_bits == 0 {
        return u32::MAX;
    }
    let st = &mut s.streams[S::S as usize];
    let bits = s.edge_bits - st.draw(s.edge_bits as u64) as u32;
    (1 << bits) - st.draw(1 << bits) as u32
}
/// Switch threads at edges of the library's code, in a drawn part of the run.
pub fn edges(bits: u32) {
    let s = sim();
    s.slices = 0;
    s.edge_bits = if bits > 0 { 22 } else { 0 };
    let first = slice();
    sim().edge_bits = bits;
    EDGES.store(first, Ordering::Relaxed);
}
/// The running slice is used up.
#[cold]
pub fn edge_point() {
    if !active() {
        EDGES.store(1, Ordering::Relaxed);
        return;
    }
    let _g = InGuard::new();
    let s = sim();
    if s.live <= 1 {
        EDGES.store(256, Ordering::Relaxed);
        return;
    }
    s.slices += 1;
    s.now += 1_000;
    if s.slices > 4_000 {
        s.edge_bits = 0;
    }
    EDGES.store(slice(), Ordering::Relaxed);
    fire_due();
    dispatch(true, true, false);
}

pub fn sched_yield_now() {
    tick();
    if sim().live > 1 {
        dispatch(true, true, false);
    } else {
        // single thread spinning on an event: let time pass
        fire_due();
        let s = sim();
        if let Some(k) = s.events.keys().next() {
            s.now = s.now.max(k.0);
            fire_due();
        }
    }
}

/// Block the current thread; returns true if it timed out.
pub fn block(w: Wait, deadline: Option<u64>) -> bool {
    tick();
    let m = me();
    {
        let s = sim();
        s.threads[m].timed_out = false;
        s.threads[m].woken = false;
        s.threads[m].state = TState::Blocked(w, deadline);
    }
    dispatch(false, false, false);
    let s = sim();
    s.threads[m].timed_out
}

pub fn futex_wake(addr: usize, n: u32, bits: u32) -> i64 {
    let mut woke = 0;
    while woke < n {
        let s = sim();
        let c: Vec<usize> = (0..s.threads.len())
            .filter(|&i| matches!(&s.threads[i].state, TState::Blocked(Wait::Futex{addr: a, bits: b}, _) if *a==addr && (*b & bits)!=0))
            .collect();
        if c.is_empty() {
            break;
        }
        let k = if c.len() == 1 || n >= c.len() as u32 { 0 } else { s.streams[S::S as usize].draw(c.len() as u64) as usize };
        let t = &mut s.threads[c[k]];
        t.state = TState::Run;
        t.woken = true;
        t.timed_out = false;
        woke += 1;
    }
    woke as i64
}

// ---------------------------------------------------------------- threads
pub fn new_thread() -> usize {
    let s = sim();
    let id = s.threads.len();
    s.threads.push(Thr {
        state: TState::Run,
        sem: Box::leak(Box::new(AtomicU32::new(0))),
        timed_out: false,
        woken: false,
        pthread: 0,
        name: String::new(),
    });
    s.live += 1;
    id
}
/// Hand the baton to thread 0 (from outside the simulation).
pub fn start_root() {
    sem_post(sim().threads[0].sem);
}
/// First thing a new simulated thread does: wait for the baton.
pub fn thread_begin(id: usize) {
    TID.with(|t| t.set(id as i32));
    let _g = InGuard::new();
    let sem = sim().threads[id].sem;
    sem_wait(sem);
}
pub fn thread_end() {
    let _g = InGuard::new();
    let m = me();
    {
        let s = sim();
        s.threads[m].state = TState::Done;
        s.live -= 1;
    }
    log("thread_end", m as u64, 0);
    dispatch(false, false, true);
    // From here on this thread is no longer simulated.
    TID.with(|t| t.set(-1));
}

// ---------------------------------------------------------------- faults
pub fn wall_ns() -> i128 {
    let s = sim();
    if let Some(t) = s.wall_frozen {
        return t;
    }
    s.wall_base + s.now as i128
}

/// Decide the fate of one fallible call.
pub fn fault(call: Call, path: &dyn Fn() -> String) -> Fx {
    let s = sim();
    if !s.faults.armed {
        return Fx::None;
    }
    if s.faults.filter.is_some() {
        let p = path();
        let s = sim();
        if !(s.faults.filter.as_ref().unwrap())(call, &p) {
            return Fx::None;
        }
    }
    let s = sim();
    let f = &mut s.faults;
    let mut hard = None;
    if f.hard_calls & bit(call) != 0 {
        let pos = f.ops;
        f.ops += 1;
        if f.crash_at == Some(pos) {
            note(&format!("crash at op {} ({:?} {})", pos, call, path()));
            count("crash");
            return Fx::Crash;
        }
        if call == Call::Read && f.eof_at.map_or(false, |p| pos >= p) {
            let d = format!("read=EOF on {}", path());
            let f = &mut sim().faults;
            if f.fired.len() < 64 {
                f.fired.push(d);
            }
            note(&format!("early end of {}", path()));
            count("early_eof_error");
            return Fx::Eof;
        }
        if let Some(e) = f.stuck {
            if bit(call) & WRITES != 0 {
                hard = Some(e);
            }
        }
        if hard.is_none() {
            if let Some((_, sel)) = f.snipe.iter().find(|(p, _)| *p == pos) {
                let es = errnos(call);
                hard = Some(es[*sel as usize % es.len()]);
            } else if f.hard_rate > 0 && f.hard_budget > 0 {
                if s.streams[S::F as usize].chance(f.hard_rate, 65536) {
                    f.hard_budget -= 1;
                    let es = errnos(call);
                    hard = Some(es[s.streams[S::F as usize].draw(es.len() as u64) as usize]);
                }
            }
        }
    }
    if let Some(e) = hard {
        let f = &mut sim().faults;
        if f.sticky && f.stuck.is_none() && bit(call) & WRITES != 0 {
            f.stuck = Some(e);
        }
        f.fired_calls |= bit(call);
        let d = format!("{}={} on {}", call_name(call), errname(e), path());
        note(&format!("inject {}", d));
        if f.fired.len() < 64 {
            f.fired.push(d);
        }
        count(call_name(call));
        return Fx::Err(e);
    }
    let s = sim();
    let f = &mut s.faults;
    if f.eintr_rate > 0 && matches!(call, Call::Read | Call::Write | Call::Open | Call::Creat) {
        if s.streams[S::F as usize].chance(f.eintr_rate, 256) {
            count("eintr");
            return Fx::Eintr;
        }
    }
    if f.short_rate > 0 && matches!(call, Call::Read | Call::Write) {
        if s.streams[S::F as usize].chance(f.short_rate, 256) {
            count(if call == Call::Read { "short_read" } else { "short_write" });
            return Fx::Short;
        }
    }
    Fx::None
}

pub fn errname(e: i32) -> &'static str {
    match e {
        libc::EIO => "EIO",
        libc::EACCES => "EACCES",
        libc::EMFILE => "EMFILE",
        libc::ENOENT => "ENOENT",
        libc::ENOSPC => "ENOSPC",
        libc::EROFS => "EROFS",
        libc::EDQUOT => "EDQUOT",
        libc::ESTALE => "ESTALE",
        libc::EFBIG => "EFBIG",
        libc::EXDEV => "EXDEV",
        libc::EPERM => "EPERM",
        libc::EAGAIN => "EAGAIN",
        libc::ENOMEM => "ENOMEM",
        _ => "E?",
    }
}

/// The process under test dies here: the current thread never runs again.
pub fn crash_here() -> ! {
    let m = me();
    {
        let s = sim();
        s.crashed = true;
        s.threads[m].state = TState::Blocked(Wait::Dead, None);
        s.live -= 1;
    }
    dispatch(false, false, true);
    // dispatch with exiting=true returned without waiting: stop this thread for good
    loop {
        unsafe {
            raw6(libc::SYS_pause, 0, 0, 0, 0, 0, 0);
        }
    }
}

pub fn draw(st: S, n: u64) -> u64 {
    let _g = InGuard::new();
    sim().streams[st as usize].draw(n)
}
pub fn chance(st: S, a: u64, b: u64) -> bool {
    let _g = InGuard::new();
    sim().streams[st as usize].chance(a, b)
}
