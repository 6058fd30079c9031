//! Implementation of the simulated system calls.  Every function returns
//! a kernel-style result (negative errno on failure).
use crate::choice::S;
use crate::rt::*;
use crate::simfs::*;
use crate::simnet::*;
use libc::*;

pub const FD_BASE: i32 = 1000;

pub fn is_sim_fd(fd: i32) -> bool {
    fd >= FD_BASE
}

fn new_fd(of: Of, pos: u64) -> i32 {
    let s = sim();
    s.ofs.push(OpenFile { of, pos, refs: 1, nonblock: false });
    let i = s.ofs.len() - 1;
    let mut fd = FD_BASE;
    while s.fds.contains_key(&fd) {
        fd += 1;
    }
    s.fds.insert(fd, i);
    fd
}
pub fn of_idx(fd: i32) -> Option<usize> {
    sim().fds.get(&fd).copied()
}
fn file_of(fd: i32) -> Result<(usize, Ino), i32> {
    let s = sim();
    let i = of_idx(fd).ok_or(EBADF)?;
    match s.ofs[i].of {
        Of::File { ino, .. } | Of::Dir { ino } => Ok((i, ino)),
        _ => Err(EINVAL),
    }
}
fn path_fd(fd: i32) -> String {
    let s = sim();
    match file_of(fd) {
        Ok((_, ino)) => s.fs.path_of(ino),
        _ => format!("fd{}", fd),
    }
}

macro_rules! hard {
    ($call:expr, $path:expr) => {
        match fault($call, &|| $path.to_string()) {
            Fx::Err(e) => return -(e as i64),
            Fx::Eintr => return -(EINTR as i64),
            Fx::Crash => crash_here(),
            _ => {}
        }
    };
}

pub fn open_at(dirfd: i32, path: &str, flags: i32, mode: u32) -> i64 {
    yield_point();
    let s = sim();
    let p = if path.starts_with('/') || dirfd == AT_FDCWD {
        s.fs.abs(path)
    } else {
        match file_of(dirfd) {
            Ok((_, ino)) => {
                let b = s.fs.path_of(ino);
                format!("{}/{}", b, path)
            }
            Err(e) => return -(e as i64),
        }
    };
    if p == "/dev/null" {
        let fd = new_fd(Of::Null, 0);
        log("open_null", fd as u64, 0);
        return fd as i64;
    }
    let acc = flags & O_ACCMODE;
    let wr = acc == O_WRONLY || acc == O_RDWR;
    let rd = acc == O_RDONLY || acc == O_RDWR;
    let call = if wr || flags & O_CREAT != 0 { Call::Creat } else { Call::Open };
    hard!(call, p);
    let follow = flags & O_NOFOLLOW == 0;
    let s = sim();
    let now = wall_ns();
    let r = s.fs.lookup(&p, follow);
    let (d, name, ino) = match r {
        Ok(x) => x,
        Err(e) => {
            log("open_err", e as u64, 0);
            return -(e as i64);
        }
    };
    let ino = match ino {
        Some(i) => {
            if flags & O_CREAT != 0 && flags & O_EXCL != 0 {
                log("open_err", EEXIST as u64, 0);
                return -(EEXIST as i64);
            }
            match s.fs.inodes[i].kind {
                Kind::Dir => {
                    if wr || flags & O_CREAT != 0 {
                        return -(EISDIR as i64);
                    }
                    let fd = new_fd(Of::Dir { ino: i }, 0);
                    log("open_dir", fd as u64, i as u64);
                    return fd as i64;
                }
                Kind::Symlink(_) => return -(ELOOP as i64),
                Kind::File => {}
            }
            let m = s.fs.inodes[i].mode;
            if (wr && m & 0o200 == 0) || (rd && m & 0o400 == 0) {
                count("permission_denied");
                return -(EACCES as i64);
            }
            if flags & O_DIRECTORY != 0 {
                return -(ENOTDIR as i64);
            }
            if flags & O_TRUNC != 0 && wr {
                let p2 = s.fs.path_of(i);
                if s.fs.inodes[i].data.is_empty() {
                    s.fs.audit.push(Audit::Trunc(p2));
                } else {
                    s.fs.truncate(i, 0, now);
                }
            }
            i
        }
        None => {
            if flags & O_CREAT == 0 {
                log("open_err", ENOENT as u64, 0);
                return -(ENOENT as i64);
            }
            if name.is_empty() {
                return -(EISDIR as i64);
            }
            if s.fs.inodes[d].mode & 0o200 == 0 {
                count("permission_denied");
                return -(EACCES as i64);
            }
            s.fs.create(d, &name, mode & 0o777 & !0o022, now)
        }
    };
    let fd = new_fd(Of::File { ino, rd, wr, append: flags & O_APPEND != 0 }, 0);
    log("open", fd as u64, ino as u64);
    note(&format!("open {} flags={:o}", p, flags));
    fd as i64
}

pub fn close(fd: i32) -> i64 {
    let s = sim();
    let i = match s.fds.remove(&fd) {
        Some(i) => i,
        None => return -(EBADF as i64),
    };
    log("close", fd as u64, 0);
    for ep in &mut s.net.epolls {
        ep.items.remove(&fd);
    }
    s.ofs[i].refs -= 1;
    if s.ofs[i].refs == 0 {
        match s.ofs[i].of.clone() {
            Of::PipeW(p) => s.pipes[p].writers -= 1,
            Of::Sock(k) => s.net.socks[k].closed = true,
            _ => {}
        }
    }
    yield_point();
    0
}

pub fn dup(fd: i32) -> i64 {
    let s = sim();
    let i = match of_idx(fd) {
        Some(i) => i,
        None => return -(EBADF as i64),
    };
    s.ofs[i].refs += 1;
    let mut n = FD_BASE;
    while s.fds.contains_key(&n) {
        n += 1;
    }
    s.fds.insert(n, i);
    n as i64
}

pub fn readable(s: &Sim, of: usize) -> bool {
    match &s.ofs[of].of {
        Of::PipeR(p) => !s.pipes[*p].data.is_empty() || s.pipes[*p].writers == 0,
        Of::Sock(k) => {
            let k = &s.net.socks[*k];
            !k.rx.is_empty() || k.rx_eof || k.rx_reset || k.state == CState::Failed
        }
        Of::Event(e) => s.net.events[*e] > 0,
        _ => true,
    }
}
pub fn poll_bits(s: &Sim, fd: i32, ev: i16) -> i16 {
    let of = match s.fds.get(&fd) {
        Some(o) => *o,
        None => return POLLNVAL,
    };
    let mut b = 0i16;
    if readable(s, of) {
        b |= POLLIN & ev;
    }
    match &s.ofs[of].of {
        Of::PipeR(p) => {
            if s.pipes[*p].writers == 0 {
                b |= POLLHUP;
            }
        }
        Of::Sock(k) => {
            let w = sock_bits(&s.net.socks[*k]) as i32;
            if w & EPOLLOUT != 0 {
                b |= POLLOUT & ev;
            }
            if w & EPOLLERR != 0 {
                b |= POLLERR;
            }
        }
        _ => b |= POLLOUT & ev,
    }
    b
}

fn short_len(n: usize) -> usize {
    // how much of a short transfer happens: 1 .. n-1
    if n <= 1 {
        return n;
    }
    let s = sim();
    let k = s.streams[S::F as usize].draw(4);
    match k {
        0 => n - 1,
        1 => 1,
        2 => n / 2,
        _ => 1 + s.streams[S::F as usize].draw(n as u64 - 1) as usize,
    }
}

pub fn pread_common(fd: i32, buf: &mut [u8], at: Option<u64>) -> i64 {
    yield_point();
    let s = sim();
    let i = match of_idx(fd) {
        Some(i) => i,
        None => return -(EBADF as i64),
    };
    match s.ofs[i].of.clone() {
        Of::Null => 0,
        Of::Dir { .. } => -(EISDIR as i64),
        Of::File { ino, rd, .. } => {
            if !rd {
                return -(EBADF as i64);
            }
            if s.fs.endless.contains(&ino) {
                if s.fs.endless_read > 32 << 20 {
                    return -(EIO as i64);
                }
                s.fs.endless_read += buf.len() as u64;
                buf.fill(0);
                return buf.len() as i64;
            }
            let pos = at.unwrap_or(s.ofs[i].pos);
            let avail = (s.fs.inodes[ino].data.len() as u64).saturating_sub(pos) as usize;
            let mut n = avail.min(buf.len());
            match fault(Call::Read, &|| path_fd(fd)) {
                Fx::Err(e) => return -(e as i64),
                Fx::Eintr => return -(EINTR as i64),
                Fx::Crash => crash_here(),
                Fx::Short => n = if n > 0 { short_len(n).min(n) } else { 0 },
                Fx::Eof => n = 0,
                Fx::None => {}
            }
            let s = sim();
            let avail = (s.fs.inodes[ino].data.len() as u64).saturating_sub(pos) as usize;
            n = n.min(avail);
            if n > 0 {
                buf[..n].copy_from_slice(&s.fs.inodes[ino].data[pos as usize..pos as usize + n]);
            }
            if at.is_none() {
                s.ofs[i].pos = pos + n as u64;
            }
            log("read", fd as u64, n as u64);
            n as i64
        }
        Of::PipeR(p) => {
            loop {
                let s = sim();
                if !s.pipes[p].data.is_empty() {
                    break;
                }
                if s.pipes[p].writers == 0 {
                    return 0;
                }
                if s.ofs[i].nonblock {
                    return -(EAGAIN as i64);
                }
                block(Wait::FdRead(i), None);
            }
            let s = sim();
            let mut n = s.pipes[p].data.len().min(buf.len());
            if s.faults.short_rate > 0 && n > 1 && s.streams[S::F as usize].chance(s.faults.short_rate, 256) {
                n = short_len(n);
            }
            for b in buf[..n].iter_mut() {
                *b = s.pipes[p].data.pop_front().unwrap();
            }
            log("pipe_read", fd as u64, n as u64);
            n as i64
        }
        Of::Sock(k) => sock_recv(i, k, buf),
        Of::Event(e) => {
            if buf.len() < 8 {
                return -(EINVAL as i64);
            }
            if s.net.events[e] == 0 {
                if s.ofs[i].nonblock {
                    return -(EAGAIN as i64);
                }
                block(Wait::FdRead(i), None);
            }
            let s = sim();
            buf[..8].copy_from_slice(&s.net.events[e].to_ne_bytes());
            s.net.events[e] = 0;
            8
        }
        _ => -(EBADF as i64),
    }
}

fn sock_recv(i: usize, k: usize, buf: &mut [u8]) -> i64 {
    loop {
        let s = sim();
        let nb = s.ofs[i].nonblock;
        let sk = &mut s.net.socks[k];
        if sk.rx_reset {
            log("recv_reset", k as u64, 0);
            return -(ECONNRESET as i64);
        }
        if !sk.rx.is_empty() {
            let mut n = sk.rx.len().min(buf.len());
            if s.net.short_recv > 0 && n > 1 && s.streams[S::F as usize].chance(s.net.short_recv, 256) {
                count("short_recv");
                n = short_len(n);
            }
            let s = sim();
            let sk = &mut s.net.socks[k];
            for b in buf[..n].iter_mut() {
                *b = sk.rx.pop_front().unwrap();
            }
            // as if the rest had arrived just after this call
            if !sk.rx.is_empty() {
                crate::simnet::edge(sk.of);
            }
            log("recv", k as u64, n as u64);
            return n as i64;
        }
        if sk.rx_eof {
            return 0;
        }
        if sk.state == CState::Failed {
            return -(if sk.err != 0 { sk.err } else { ENOTCONN } as i64);
        }
        if sk.state == CState::Idle {
            return -(ENOTCONN as i64);
        }
        if nb {
            return -(EAGAIN as i64);
        }
        block(Wait::FdRead(i), None);
    }
}

pub fn sock_send(k: usize, b: &[u8]) -> i64 {
    let s = sim();
    let sk = &mut s.net.socks[k];
    if sk.rx_reset {
        return -(ECONNRESET as i64);
    }
    if sk.state == CState::Failed {
        return -(EPIPE as i64);
    }
    if sk.state != CState::Connected {
        return -(if sk.state == CState::Connecting { EAGAIN } else { ENOTCONN } as i64);
    }
    sk.tx.extend_from_slice(b);
    log("send", k as u64, b.len() as u64);
    server_input(k);
    b.len() as i64
}

pub fn pwrite_common(fd: i32, b: &[u8], at: Option<u64>) -> i64 {
    yield_point();
    let s = sim();
    let i = match of_idx(fd) {
        Some(i) => i,
        None => return -(EBADF as i64),
    };
    match s.ofs[i].of.clone() {
        Of::Null => b.len() as i64,
        Of::File { ino, wr, append, .. } => {
            if !wr {
                return -(EBADF as i64);
            }
            let mut n = b.len();
            let mut crash = false;
            match fault(Call::Write, &|| path_fd(fd)) {
                Fx::Err(e) => {
                    // a failing write may leave a part behind
                    return -(e as i64);
                }
                Fx::Eintr => return -(EINTR as i64),
                Fx::Crash => {
                    n = sim().streams[S::F as usize].draw(n as u64 + 1) as usize;
                    crash = true;
                }
                Fx::Short => n = if n > 0 { short_len(n) } else { 0 },
                Fx::None | Fx::Eof => {}
            }
            let s = sim();
            let now = wall_ns();
            let pos = if append { s.fs.inodes[ino].data.len() as u64 } else { at.unwrap_or(s.ofs[i].pos) };
            let r = s.fs.write(ino, pos, &b[..n], now);
            if crash {
                crash_here();
            }
            match r {
                Ok(n) => {
                    if at.is_none() {
                        s.ofs[i].pos = pos + n as u64;
                    }
                    log("write", fd as u64, n as u64);
                    n as i64
                }
                Err(e) => {
                    count("disk_full");
                    s.faults.fired_calls |= bit(Call::Write);
                    if s.faults.fired.len() < 64 {
                        s.faults.fired.push("disk_full".into());
                    }
                    log("write_err", fd as u64, e as u64);
                    -(e as i64)
                }
            }
        }
        Of::PipeW(p) => {
            s.pipes[p].data.extend(b.iter());
            b.len() as i64
        }
        Of::Sock(k) => sock_send(k, b),
        Of::Event(e) => {
            let mut v = [0u8; 8];
            v.copy_from_slice(&b[..8]);
            s.net.events[e] += u64::from_ne_bytes(v);
            edge(i);
            8
        }
        _ => -(EBADF as i64),
    }
}

pub fn lseek(fd: i32, off: i64, whence: i32) -> i64 {
    let s = sim();
    let (i, ino) = match file_of(fd) {
        Ok(x) => x,
        Err(EBADF) => return -(EBADF as i64),
        Err(_) => return -(ESPIPE as i64),
    };
    let len = s.fs.inodes[ino].data.len() as i64;
    let base = match whence {
        SEEK_SET => 0,
        SEEK_CUR => s.ofs[i].pos as i64,
        SEEK_END => len,
        _ => return -(EINVAL as i64),
    };
    let n = base.saturating_add(off);
    if n < 0 {
        return -(EINVAL as i64);
    }
    sim().ofs[i].pos = n as u64;
    log("seek", fd as u64, n as u64);
    n
}

pub struct StatOut {
    pub mode: u32,
    pub size: u64,
    pub ino: u64,
    pub mtime: i128,
    pub nlink: u32,
}
fn stat_ino(ino: Ino) -> StatOut {
    let n = &sim().fs.inodes[ino];
    let (t, sz) = match &n.kind {
        Kind::File if sim().fs.endless.contains(&ino) => (S_IFCHR, 0),
        Kind::File => (S_IFREG, n.data.len() as u64),
        Kind::Dir => (S_IFDIR, 4096),
        Kind::Symlink(t) => (S_IFLNK, t.len() as u64),
    };
    StatOut { mode: t | n.mode, size: sz, ino: ino as u64 + 1, mtime: n.mtime, nlink: n.nlink }
}
pub fn stat(dirfd: i32, path: &str, follow: bool, fd_only: bool) -> Result<StatOut, i32> {
    yield_point();
    let s = sim();
    if fd_only {
        let i = of_idx(dirfd).ok_or(EBADF)?;
        return match s.ofs[i].of {
            Of::File { ino, .. } | Of::Dir { ino } => {
                if let Fx::Err(e) = fault(Call::Stat, &|| path_fd(dirfd)) {
                    return Err(e);
                }
                Ok(stat_ino(ino))
            }
            Of::Sock(_) => Ok(StatOut { mode: S_IFSOCK | 0o777, size: 0, ino: 0, mtime: 0, nlink: 1 }),
            Of::Null => Ok(StatOut { mode: S_IFCHR | 0o666, size: 0, ino: 0, mtime: 0, nlink: 1 }),
            _ => Ok(StatOut { mode: S_IFIFO | 0o600, size: 0, ino: 0, mtime: 0, nlink: 1 }),
        };
    }
    let p = if path.starts_with('/') || dirfd == AT_FDCWD {
        s.fs.abs(path)
    } else {
        format!("{}/{}", path_fd(dirfd), path)
    };
    if p == "/dev/null" {
        return Ok(StatOut { mode: S_IFCHR | 0o666, size: 0, ino: 0, mtime: 0, nlink: 1 });
    }
    match fault(Call::Stat, &|| p.clone()) {
        Fx::Err(e) => return Err(e),
        Fx::Crash => crash_here(),
        _ => {}
    }
    let s = sim();
    let r = match s.fs.lookup(&p, follow) {
        Ok((_, _, Some(i))) => Ok(stat_ino(i)),
        Ok(_) => Err(ENOENT),
        Err(e) => Err(e),
    };
    log("stat", r.as_ref().map_or(0, |x| x.ino), r.as_ref().err().copied().unwrap_or(0) as u64);
    r
}

pub fn ftruncate(fd: i32, len: i64) -> i64 {
    yield_point();
    let (_, ino) = match file_of(fd) {
        Ok(x) => x,
        Err(e) => return -(e as i64),
    };
    hard!(Call::Trunc, path_fd(fd));
    let now = wall_ns();
    sim().fs.truncate(ino, len as u64, now);
    log("ftruncate", fd as u64, len as u64);
    0
}
pub fn fsync(fd: i32) -> i64 {
    yield_point();
    let (_, ino) = match file_of(fd) {
        Ok(x) => x,
        Err(e) => return -(e as i64),
    };
    hard!(Call::Fsync, path_fd(fd));
    sim().fs.fsync(ino);
    log("fsync", fd as u64, 0);
    count("op_fsync");
    0
}
fn at_path(dirfd: i32, path: &str) -> String {
    if path.starts_with('/') || dirfd == AT_FDCWD {
        sim().fs.abs(path)
    } else {
        format!("{}/{}", path_fd(dirfd), path)
    }
}
pub fn unlink(dirfd: i32, path: &str, flags: i32) -> i64 {
    yield_point();
    let p = at_path(dirfd, path);
    let dir = flags & AT_REMOVEDIR != 0;
    hard!(if dir { Call::Rmdir } else { Call::Unlink }, p);
    let s = sim();
    match s.fs.lookup(&p, false) {
        Ok((d, n, Some(i))) => {
            let isdir = s.fs.inodes[i].kind == Kind::Dir;
            if s.fs.inodes[d].mode & 0o200 == 0 {
                return -(EACCES as i64);
            }
            if dir && !isdir {
                return -(ENOTDIR as i64);
            }
            if !dir && isdir {
                return -(EISDIR as i64);
            }
            if dir && !s.fs.inodes[i].entries.is_empty() {
                return -(ENOTEMPTY as i64);
            }
            s.fs.unlink_at(d, &n, dir);
            log("unlink", i as u64, 0);
            note(&format!("unlink {}", p));
            0
        }
        Ok(_) => -(ENOENT as i64),
        Err(e) => -(e as i64),
    }
}
pub fn rename(od: i32, a: &str, nd: i32, b: &str) -> i64 {
    yield_point();
    let a = at_path(od, a);
    let b = at_path(nd, b);
    hard!(Call::Rename, b);
    let s = sim();
    let (sd, sn, si) = match s.fs.lookup(&a, false) {
        Ok((d, n, Some(i))) => (d, n, i),
        Ok(_) => return -(ENOENT as i64),
        Err(e) => return -(e as i64),
    };
    let (dd, dn, di) = match s.fs.lookup(&b, false) {
        Ok(x) => x,
        Err(e) => return -(e as i64),
    };
    if s.fs.inodes[sd].mode & 0o200 == 0 || s.fs.inodes[dd].mode & 0o200 == 0 {
        return -(EACCES as i64);
    }
    if let Some(di) = di {
        if di == si {
            return 0;
        }
        let sdir = s.fs.inodes[si].kind == Kind::Dir;
        let ddir = s.fs.inodes[di].kind == Kind::Dir;
        if ddir && !sdir {
            return -(EISDIR as i64);
        }
        if sdir && !ddir {
            return -(ENOTDIR as i64);
        }
        if ddir && !s.fs.inodes[di].entries.is_empty() {
            return -(ENOTEMPTY as i64);
        }
    }
    s.fs.rename_ino(sd, &sn, dd, &dn, si);
    log("rename", si as u64, 0);
    note(&format!("rename {} -> {}", a, b));
    0
}
pub fn link(od: i32, a: &str, nd: i32, b: &str) -> i64 {
    yield_point();
    let a = at_path(od, a);
    let b = at_path(nd, b);
    hard!(Call::Link, b);
    let s = sim();
    let si = match s.fs.lookup(&a, false) {
        Ok((_, _, Some(i))) => i,
        Ok(_) => return -(ENOENT as i64),
        Err(e) => return -(e as i64),
    };
    let (dd, dn, di) = match s.fs.lookup(&b, false) {
        Ok(x) => x,
        Err(e) => return -(e as i64),
    };
    if di.is_some() {
        return -(EEXIST as i64);
    }
    s.fs.inodes[si].nlink += 1;
    s.fs.inodes[dd].entries.insert(dn.clone(), si);
    s.fs.meta.push(vec![(dd, dn, Some(si))]);
    s.fs.audit.push(Audit::Link(b));
    0
}
pub fn mkdir(dirfd: i32, path: &str, mode: u32) -> i64 {
    yield_point();
    let p = at_path(dirfd, path);
    hard!(Call::Mkdir, p);
    let s = sim();
    match s.fs.lookup(&p, true) {
        Ok((_, _, Some(_))) => -(EEXIST as i64),
        Ok((d, n, None)) => {
            let now = wall_ns();
            if s.fs.inodes[d].mode & 0o200 == 0 {
                return -(EACCES as i64);
            }
            s.fs.mkdir(d, &n, mode & 0o777, now);
            log("mkdir", 0, 0);
            0
        }
        Err(e) => -(e as i64),
    }
}
pub fn chmod(path: &str, mode: u32) -> i64 {
    hard!(Call::Chmod, path);
    let s = sim();
    match s.fs.lookup(path, true) {
        Ok((_, _, Some(i))) => {
            s.fs.inodes[i].mode = mode & 0o7777;
            let p = s.fs.path_of(i);
            s.fs.audit.push(Audit::Chmod(p));
            0
        }
        Ok(_) => -(ENOENT as i64),
        Err(e) => -(e as i64),
    }
}
pub fn fchmod(fd: i32, mode: u32) -> i64 {
    let (_, ino) = match file_of(fd) {
        Ok(x) => x,
        Err(e) => return -(e as i64),
    };
    hard!(Call::Chmod, path_fd(fd));
    sim().fs.inodes[ino].mode = mode & 0o7777;
    0
}
pub fn realpath(path: &str) -> Result<String, i32> {
    yield_point();
    if let Fx::Err(e) = fault(Call::Realpath, &|| path.to_string()) {
        return Err(e);
    }
    let s = sim();
    match s.fs.lookup(path, true) {
        Ok((_, _, Some(i))) => Ok(s.fs.path_of(i)),
        Ok(_) => Err(ENOENT),
        Err(e) => Err(e),
    }
}
pub fn readlink(path: &str) -> Result<String, i32> {
    let s = sim();
    match s.fs.lookup(path, false) {
        Ok((_, _, Some(i))) => match &s.fs.inodes[i].kind {
            Kind::Symlink(t) => Ok(t.clone()),
            _ => Err(EINVAL),
        },
        Ok(_) => Err(ENOENT),
        Err(e) => Err(e),
    }
}

// ------------------------------------------------------------ directories
pub struct SimDir {
    pub magic: u64,
    pub fd: i32,
    pub list: Vec<(String, u64, u8)>,
    pub pos: usize,
    pub ent: dirent64,
}
pub const DIR_MAGIC: u64 = 0x51D1_2025_0611_AAAA;

pub fn opendir_fd(fd: i32) -> Result<Box<SimDir>, i32> {
    let s = sim();
    let (_, ino) = file_of(fd)?;
    if s.fs.inodes[ino].kind != Kind::Dir {
        return Err(ENOTDIR);
    }
    let mut list: Vec<(String, u64, u8)> = vec![(".".into(), ino as u64 + 1, DT_DIR), ("..".into(), 1, DT_DIR)];
    for (n, &i) in &s.fs.inodes[ino].entries {
        let t = match s.fs.inodes[i].kind {
            Kind::Dir => DT_DIR,
            Kind::File => DT_REG,
            _ => DT_LNK,
        };
        list.push((n.clone(), i as u64 + 1, t));
    }
    // directory order is arbitrary: permute
    if s.readdir_shuffle {
        let n = list.len();
        for i in 2..n {
            let j = i + sim().streams[S::S as usize].draw((n - i) as u64) as usize;
            list.swap(i, j);
        }
        if n > 3 {
            count("readdir_shuffled");
        }
    }
    Ok(Box::new(SimDir { magic: DIR_MAGIC, fd, list, pos: 0, ent: unsafe { std::mem::zeroed() } }))
}
pub fn opendir(path: &str) -> Result<Box<SimDir>, i32> {
    yield_point();
    match fault(Call::OpenDir, &|| path.to_string()) {
        Fx::Err(e) => return Err(e),
        Fx::Crash => crash_here(),
        _ => {}
    }
    let s = sim();
    match s.fs.lookup(path, true) {
        Ok((_, _, Some(i))) => {
            if s.fs.inodes[i].kind != Kind::Dir {
                return Err(ENOTDIR);
            }
            let fd = new_fd(Of::Dir { ino: i }, 0);
            log("opendir", fd as u64, 0);
            opendir_fd(fd)
        }
        Ok(_) => Err(ENOENT),
        Err(e) => Err(e),
    }
}
pub fn readdir(d: &mut SimDir) -> Result<*mut dirent64, i32> {
    yield_point();
    let fd = d.fd;
    if let Fx::Err(e) = fault(Call::ReadDir, &|| path_fd(fd)) {
        return Err(e);
    }
    if d.pos >= d.list.len() {
        return Ok(std::ptr::null_mut());
    }
    let (n, ino, t) = &d.list[d.pos];
    d.pos += 1;
    d.ent.d_ino = *ino;
    d.ent.d_off = d.pos as i64;
    d.ent.d_type = *t;
    d.ent.d_reclen = std::mem::size_of::<dirent64>() as u16;
    for (i, b) in n.bytes().enumerate() {
        d.ent.d_name[i] = b as i8;
    }
    d.ent.d_name[n.len()] = 0;
    log("readdir", d.pos as u64, 0);
    Ok(&mut d.ent as *mut _)
}

// ------------------------------------------------------------ misc fds
pub fn pipe2(flags: i32) -> Result<(i32, i32), i32> {
    yield_point();
    if let Fx::Err(e) = fault(Call::Pipe, &|| "pipe".into()) {
        return Err(e);
    }
    let s = sim();
    s.pipes.push(PipeBuf { data: Default::default(), writers: 1 });
    let p = s.pipes.len() - 1;
    let r = new_fd(Of::PipeR(p), 0);
    let w = new_fd(Of::PipeW(p), 0);
    if flags & O_NONBLOCK != 0 {
        for f in [r, w] {
            let i = of_idx(f).unwrap();
            sim().ofs[i].nonblock = true;
        }
    }
    log("pipe2", r as u64, w as u64);
    Ok((r, w))
}
pub fn set_nonblock(fd: i32, on: bool) -> i64 {
    match of_idx(fd) {
        Some(i) => {
            sim().ofs[i].nonblock = on;
            0
        }
        None => -(EBADF as i64),
    }
}
pub fn fcntl(fd: i32, cmd: i32, arg: i64) -> i64 {
    let i = match of_idx(fd) {
        Some(i) => i,
        None => return -(EBADF as i64),
    };
    match cmd {
        F_GETFD => FD_CLOEXEC as i64,
        F_SETFD => 0,
        F_GETFL => (O_RDWR | if sim().ofs[i].nonblock { O_NONBLOCK } else { 0 }) as i64,
        F_SETFL => set_nonblock(fd, arg as i32 & O_NONBLOCK != 0),
        F_DUPFD | F_DUPFD_CLOEXEC => dup(fd),
        _ => 0,
    }
}
pub fn eventfd(init: u32, flags: i32) -> i64 {
    let s = sim();
    s.net.events.push(init as u64);
    let e = s.net.events.len() - 1;
    let fd = new_fd(Of::Event(e), 0);
    let i = of_idx(fd).unwrap();
    sim().ofs[i].nonblock = flags & EFD_NONBLOCK != 0;
    fd as i64
}
pub fn epoll_create() -> i64 {
    let s = sim();
    s.net.epolls.push(Epoll { items: Default::default() });
    let e = s.net.epolls.len() - 1;
    new_fd(Of::Epoll(e), 0) as i64
}
fn epoll_of(fd: i32) -> Option<usize> {
    let s = sim();
    match s.ofs[of_idx(fd)?].of {
        Of::Epoll(e) => Some(e),
        _ => None,
    }
}
pub fn epoll_ctl(ep: i32, op: i32, fd: i32, ev: *mut epoll_event) -> i64 {
    let e = match epoll_of(ep) {
        Some(e) => e,
        None => return -(EBADF as i64),
    };
    let of = match of_idx(fd) {
        Some(o) => o,
        None => return -(EBADF as i64),
    };
    match op {
        EPOLL_CTL_DEL => {
            sim().net.epolls[e].items.remove(&fd);
        }
        _ => {
            let (events, data) = unsafe { ((*ev).events, (*ev).u64) };
            let b = bits_of(of) & (events | (EPOLLERR | EPOLLHUP) as u32);
            sim().net.epolls[e].items.insert(fd, EpItem { events, data, pending: b, of });
        }
    }
    log("epoll_ctl", op as u64, fd as u64);
    0
}
pub fn epoll_wait(ep: i32, out: *mut epoll_event, max: i32, timeout_ms: i32) -> i64 {
    yield_point();
    let e = match epoll_of(ep) {
        Some(e) => e,
        None => return -(EBADF as i64),
    };
    if !sim().net.epoll_has_pending(e) && timeout_ms != 0 {
        let s = sim();
        let dl = if timeout_ms < 0 { None } else { Some(s.now + timeout_ms as u64 * 1_000_000) };
        block(Wait::Epoll(e), dl);
    }
    let v = epoll_collect(e, max as usize);
    for (i, (b, d)) in v.iter().enumerate() {
        unsafe {
            *out.add(i) = epoll_event { events: *b, u64: *d };
        }
    }
    log("epoll_wait", v.len() as u64, 0);
    v.len() as i64
}
pub fn poll(fds: &mut [pollfd], timeout_ms: i32) -> i64 {
    yield_point();
    let list: Vec<(i32, i16)> = fds.iter().map(|p| (p.fd, p.events)).collect();
    let any = {
        let s = sim();
        list.iter().any(|(f, e)| poll_bits(s, *f, *e) != 0)
    };
    if !any && timeout_ms != 0 {
        let dl = if timeout_ms < 0 { None } else { Some(sim().now + timeout_ms as u64 * 1_000_000) };
        block(Wait::Poll(list), dl);
    }
    let s = sim();
    let mut n = 0;
    for p in fds.iter_mut() {
        p.revents = poll_bits(s, p.fd, p.events);
        if p.revents != 0 {
            n += 1;
        }
    }
    log("poll", n as u64, 0);
    n
}
pub fn socket(domain: i32, ty: i32) -> i64 {
    yield_point();
    if let Fx::Err(e) = fault(Call::Socket, &|| "socket".into()) {
        return -(e as i64);
    }
    let s = sim();
    let k = s.net.socks.len();
    s.net.socks.push(Sock {
        of: 0,
        state: CState::Idle,
        err: 0,
        rx: Default::default(),
        rx_eof: false,
        rx_reset: false,
        tx: vec![],
        tx_parsed: 0,
        peer: (0, 0),
        closed: false,
        wr_shut: false,
        v6: domain == AF_INET6,
    });
    let fd = new_fd(Of::Sock(k), 0);
    let i = of_idx(fd).unwrap();
    let s = sim();
    s.net.socks[k].of = i;
    s.ofs[i].nonblock = ty & SOCK_NONBLOCK != 0;
    log("socket", k as u64, 0);
    fd as i64
}
pub fn sock_of(fd: i32) -> Option<usize> {
    let s = sim();
    match s.ofs[of_idx(fd)?].of {
        Of::Sock(k) => Some(k),
        _ => None,
    }
}

// ------------------------------------------------------------ processes
pub fn spawn(argv: Vec<String>, out_fd: Option<i32>, err_fd: Option<i32>) -> Result<i32, i32> {
    yield_point();
    let name = argv.first().cloned().unwrap_or_default();
    let base = name.rsplit('/').next().unwrap_or("").to_string();
    match fault(Call::Spawn, &|| base.clone()) {
        Fx::Err(e) => return Err(e),
        Fx::Crash => crash_here(),
        _ => {}
    }
    let s = sim();
    if !s.progs.contains_key(&base) {
        note(&format!("spawn {}: not installed", base));
        count("program_missing");
        return Err(ENOENT);
    }
    let pid = s.next_pid;
    s.next_pid += 1;
    s.procs.insert(pid, Proc { exited: false, status: 0, reaped: false });
    let hold = |fd: Option<i32>| -> Option<usize> {
        let i = of_idx(fd?)?;
        let s = sim();
        match s.ofs[i].of {
            Of::PipeW(p) => {
                s.pipes[p].writers += 1;
                Some(p)
            }
            _ => None,
        }
    };
    let po = hold(out_fd);
    let pe = hold(err_fd);
    note(&format!("spawn {:?} pid {}", argv, pid));
    count("program_spawned");
    let mut df = sim().prog_delay.take();
    let delay = match &mut df {
        Some(f) => f(&base),
        None => 1_000_000,
    };
    sim().prog_delay = df;
    let cwd = sim().fs.cwd.clone();
    at(
        delay,
        Box::new(move || {
            let mut f = match sim().progs.remove(&base) {
                Some(f) => f,
                None => return,
            };
            let r = f(ProgCall { argv, cwd });
            sim().progs.insert(base.clone(), f);
            let s = sim();
            if let Some(p) = po {
                s.pipes[p].data.extend(r.stdout.iter());
                s.pipes[p].writers -= 1;
            }
            if let Some(p) = pe {
                s.pipes[p].data.extend(r.stderr.iter());
                s.pipes[p].writers -= 1;
            }
            let pr = s.procs.get_mut(&pid).unwrap();
            pr.exited = true;
            pr.status = r.status;
            log("proc_exit", pid as u64, r.status as u64);
        }),
    );
    Ok(pid)
}
pub fn waitpid(pid: i32, nohang: bool) -> Result<(i32, i32), i32> {
    yield_point();
    let s = sim();
    match s.procs.get(&pid) {
        None => return Err(ECHILD),
        Some(p) if p.reaped => return Err(ECHILD),
        Some(p) if p.exited => {}
        Some(_) => {
            if nohang {
                return Ok((0, 0));
            }
            block(Wait::Pid(pid), None);
        }
    }
    let p = sim().procs.get_mut(&pid).unwrap();
    p.reaped = true;
    log("waitpid", pid as u64, p.status as u64);
    Ok((pid, p.status))
}
