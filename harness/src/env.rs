//! The environment model: file descriptors 0/1 and sockets are scripted by
//! the harness; everything else goes to the kernel (native replay only).
use crate::rt::*;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;

pub struct Env {
    /// bytes the peer sends
    pub input: Vec<u8>,
    pub ipos: usize,
    /// how far the peer has sent so far (reads beyond block)
    pub avail: usize,
    /// peer closed its side once `ipos` reaches `avail`
    pub eof: bool,
    pub rchunk: Chunk,
    /// fail these reads (by number) with these errnos
    pub rfail: Vec<(usize, i32)>,
    pub nread: usize,
    pub output: Vec<u8>,
    pub wchunk: Chunk,
    pub wfail: Vec<(usize, i32)>,
    /// every write from this one on fails with this errno
    pub wdead: Option<(usize, i32)>,
    pub nwrite: usize,
    /// open sockets
    pub open: usize,
    pub cfail: i32,
    pub afail: i32,
    /// how many of the first reads / writes let other threads go first
    pub rjit: usize,
    pub wjit: usize,
    /// ports connected to / bound
    pub peer: Vec<u16>,
    /// the addresses that go with them
    pub addrs: Vec<Vec<u8>>,
    /// errnos of the next connects and binds (0: works)
    pub refuse: Vec<i32>,
    /// how many more bytes the peer takes off the connection (then writes block)
    pub wroom: Option<usize>,
    /// SO_RCVTIMEO and SO_SNDTIMEO in ns (0: none), O_NONBLOCK
    pub rto: u64,
    pub wto: u64,
    pub nonblock: bool,
    /// the connection under test is stdin/stdout
    pub stdio: bool,
    /// a direction shut down by the library
    pub rshut: bool,
    pub wshut: bool,
    /// fail this one of the calls that need a descriptor, and all later ones, with this errno
    pub scarce: Option<(usize, i32)>,
}
#[derive(Clone, PartialEq)]
pub enum Chunk {
    All,
    /// the first call transfers a (single) chosen number of bytes, then All
    First(usize),
    /// fixed maximum
    Fixed(usize),
    /// list of maxima, then All
    List(Vec<usize>),
}

const FRESH: Env = Env {
    input: Vec::new(),
    ipos: 0,
    avail: 0,
    eof: true,
    rchunk: Chunk::All,
    rfail: Vec::new(),
    nread: 0,
    output: Vec::new(),
    wchunk: Chunk::All,
    wfail: Vec::new(),
    wdead: None,
    nwrite: 0,
    open: 0,
    cfail: 0,
    afail: 0,
    rjit: 0,
    wjit: 0,
    peer: Vec::new(),
    addrs: Vec::new(),
    refuse: Vec::new(),
    wroom: None,
    rto: 0,
    wto: 0,
    nonblock: false,
    stdio: true,
    rshut: false,
    wshut: false,
    scarce: None,
};
/// Whether a call that needs a descriptor (or the kernel's memory) gets it.
fn granted(e: &mut Env) -> i32 {
    match &mut e.scarce {
        Some((0, e)) => *e,
        Some((n, _)) => {
            *n -= 1;
            0
        }
        None => 0,
    }
}
/// One environment per connection that exists at the same time.
pub static ENVS: Mutex<[Env; 3]> = Mutex::new([FRESH; 3]);
/// The one the harness means, and new sockets belong to.
static CUR: AtomicUsize = AtomicUsize::new(0);
static FDS: Mutex<Vec<usize>> = Mutex::new(Vec::new());
pub static ACTIVE: AtomicBool = AtomicBool::new(false);
pub const SOCK: i32 = 1000;

extern "C" {
    fn __errno_location() -> *mut i32;
}

fn nth<T>(i: usize, f: impl FnOnce(&mut Env) -> T) -> T {
    let mut g = match ENVS.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    };
    f(&mut g[i])
}
pub fn env<T>(f: impl FnOnce(&mut Env) -> T) -> T {
    nth(CUR.load(Ordering::SeqCst), f)
}
/// From here on the harness means this connection.
pub fn select(i: usize) {
    CUR.store(i, Ordering::SeqCst);
}
/// The environment a descriptor belongs to; the standard streams have 0.
fn at<T>(fd: i32, f: impl FnOnce(&mut Env) -> T) -> T {
    let i = if fd < SOCK {
        0
    } else {
        FDS.lock().unwrap_or_else(|p| p.into_inner()).get((fd - SOCK) as usize).copied().unwrap_or(0)
    };
    nth(i, f)
}
/// A new descriptor of environment `i`.
fn newfd(i: usize) -> i32 {
    let mut g = FDS.lock().unwrap_or_else(|p| p.into_inner());
    g.push(i);
    SOCK + g.len() as i32 - 1
}
fn session(fd: i32) -> usize {
    FDS.lock().unwrap_or_else(|p| p.into_inner()).get((fd - SOCK) as usize).copied().unwrap_or(0)
}
fn lim(c: &mut Chunk, n: usize) -> usize {
    match c {
        Chunk::All => n,
        Chunk::First(k) => {
            let r = n.min(*k);
            *c = Chunk::All;
            r
        }
        Chunk::Fixed(k) => n.min(*k),
        Chunk::List(v) => {
            if v.is_empty() {
                n
            } else {
                n.min(v.remove(0))
            }
        }
    }
}
fn fail(e: i32) -> isize {
    unsafe { *__errno_location() = e };
    -1
}
/// More bytes from the peer.
pub fn more(b: &[u8]) {
    env(|e| {
        e.input.extend_from_slice(b);
        e.avail = e.input.len();
    });
    wake();
}
/// The peer closes its side.
pub fn close_in() {
    env(|e| e.eof = true);
    wake();
}
/// The peer takes `n` more bytes.
pub fn room(n: usize) {
    env(|e| e.wroom = e.wroom.map(|r| r + n));
    wake();
}
/// The peer takes everything from now on.
pub fn unblock() {
    env(|e| e.wroom = None);
    wake();
}
/// Wait for a change, at most until `until`; true if that has passed.
fn stall(until: Option<u64>) -> bool {
    match until {
        None => {
            block();
            false
        }
        Some(u) => {
            if now() >= u {
                return true;
            }
            block_until(u);
            false
        }
    }
}
fn until(sock: bool, to: u64, nonblock: bool) -> Option<u64> {
    if !sock {
        None
    } else if nonblock {
        // let others run, and time pass
        block_until(now() + 20_000);
        Some(0)
    } else if to > 0 {
        Some(now() + to)
    } else {
        None
    }
}
unsafe fn do_read(fd: i32, p: *mut u8, n: usize, peek: bool) -> isize {
    if n == 0 {
        return 0;
    }
    let mut lim_at: Option<Option<u64>> = None;
    if at(fd, |e| {
        let j = e.rjit > 0;
        e.rjit -= j as usize;
        j
    }) && pick(2, "rj") == 1
    {
        settle();
    }
    loop {
        let r = at(fd, |e| {
            let k = e.nread;
            e.nread += 1;
            for (at, er) in &e.rfail {
                if *at == k {
                    return Some(-(*er as isize));
                }
            }
            let left = e.avail - e.ipos;
            if e.rshut {
                return Some(0);
            }
            if left == 0 {
                if e.eof {
                    return Some(0);
                }
                e.nread = k;
                return None;
            }
            let m = lim(&mut e.rchunk, left.min(n)).max(1).min(n);
            std::ptr::copy_nonoverlapping(e.input.as_ptr().add(e.ipos), p, m);
            if !peek {
                e.ipos += m;
            }
            Some(m as isize)
        });
        match r {
            Some(v) if v < 0 => return fail(-v as i32),
            Some(v) => return v,
            None => {
                if lim_at.is_none() {
                    let (to, nb) = at(fd, |e| (e.rto, e.nonblock));
                    lim_at = Some(until(fd >= SOCK, to, nb));
                }
                if stall(lim_at.unwrap()) {
                    return fail(11);
                }
            }
        }
    }
}
unsafe fn do_write(fd: i32, p: *const u8, n: usize) -> isize {
    if n == 0 {
        return 0;
    }
    if at(fd, |e| {
        let j = e.wjit > 0;
        e.wjit -= j as usize;
        j
    }) && pick(2, "wj") == 1
    {
        settle();
    }
    if fd == 1 && !at(fd, |e| e.stdio) {
        // the process's own standard output, not the connection
        return n as isize;
    }
    let mut lim_at: Option<Option<u64>> = None;
    loop {
        let r = at(fd, |e| {
            if e.wshut {
                return Some(-32);
            }
            let k = e.nwrite;
            e.nwrite += 1;
            for (at, er) in &e.wfail {
                if *at == k {
                    return Some(-(*er as isize));
                }
            }
            if let Some((at, er)) = e.wdead {
                if at <= k {
                    return Some(-(er as isize));
                }
            }
            let mut m = lim(&mut e.wchunk, n).max(1).min(n);
            if let Some(r) = e.wroom {
                if r == 0 {
                    e.nwrite = k;
                    return None;
                }
                m = m.min(r);
                e.wroom = Some(r - m);
            }
            e.output.extend_from_slice(std::slice::from_raw_parts(p, m));
            Some(m as isize)
        });
        match r {
            Some(v) if v < 0 => return fail(-v as i32),
            Some(v) => return v,
            None => {
                if lim_at.is_none() {
                    let (to, nb) = at(fd, |e| (e.wto, e.nonblock));
                    lim_at = Some(until(fd >= SOCK, to, nb));
                }
                if stall(lim_at.unwrap()) {
                    return fail(11);
                }
            }
        }
    }
}
fn fake_in(fd: i32) -> bool {
    (fd == 0 || fd >= SOCK) && ACTIVE.load(Ordering::SeqCst)
}
fn fake_out(fd: i32) -> bool {
    (fd == 1 || fd >= SOCK) && ACTIVE.load(Ordering::SeqCst)
}

#[cfg(feature = "native")]
unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64) -> i64 {
    raw6(n, a, b, c, d, e, 0)
}
#[cfg(feature = "native")]
unsafe fn raw6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    if r < 0 {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}
#[cfg(not(feature = "native"))]
unsafe fn raw(n: i64, a: i64, b: i64, c: i64, _: i64, _: i64) -> i64 {
    // standard error swallows everything
    if (n == 1 || n == 44) && a == 2 {
        return c;
    }
    if n == 20 && a == 2 {
        let mut t = 0;
        for i in 0..c as usize {
            t += (*(b as *const IoVec).add(i)).n;
        }
        return t as i64;
    }
    // nothing but the modelled descriptors exists
    check(false, "environment: unmodelled descriptor used");
    -1
}

#[repr(C)]
pub struct IoVec {
    p: *mut u8,
    n: usize,
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, p: *mut u8, n: usize) -> isize {
    if fake_in(fd) {
        return do_read(fd, p, n, false);
    }
    raw(0, fd as i64, p as i64, n as i64, 0, 0) as isize
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, p: *const u8, n: usize) -> isize {
    if fake_out(fd) {
        return do_write(fd, p, n);
    }
    raw(1, fd as i64, p as i64, n as i64, 0, 0) as isize
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: i32, v: *const IoVec, n: i32) -> isize {
    if fake_in(fd) {
        for i in 0..n as usize {
            let x = &*v.add(i);
            if x.n > 0 {
                return do_read(fd, x.p, x.n, false);
            }
        }
        return 0;
    }
    raw(19, fd as i64, v as i64, n as i64, 0, 0) as isize
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, v: *const IoVec, n: i32) -> isize {
    if fake_out(fd) {
        for i in 0..n as usize {
            let x = &*v.add(i);
            if x.n > 0 {
                return do_write(fd, x.p, x.n);
            }
        }
        return 0;
    }
    raw(20, fd as i64, v as i64, n as i64, 0, 0) as isize
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: i32, p: *mut u8, n: usize, flags: i32) -> isize {
    if fake_in(fd) {
        return do_read(fd, p, n, flags & 2 != 0);
    }
    raw(45, fd as i64, p as i64, n as i64, 0, 0) as isize
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: i32, p: *const u8, n: usize, flags: i32) -> isize {
    if fake_out(fd) {
        return do_write(fd, p, n);
    }
    raw(44, fd as i64, p as i64, n as i64, flags as i64, 0) as isize
}
#[no_mangle]
pub unsafe extern "C" fn socket(_d: i32, _t: i32, _p: i32) -> i32 {
    match env(granted) {
        0 => {}
        e => return fail(e) as i32,
    }
    env(|e| {
        e.open += 1;
        fresh(e);
    });
    newfd(CUR.load(Ordering::SeqCst))
}
/// What this socket is to be tied to, and whether that works.
unsafe fn tie(fd: i32, a: *const u8) -> i32 {
    let port = u16::from_be_bytes([*a.add(2), *a.add(3)]);
    let v6 = *a == 10;
    let ip = std::slice::from_raw_parts(a.add(if v6 { 8 } else { 4 }), if v6 { 16 } else { 4 }).to_vec();
    at(fd, |e| {
        e.peer.push(port);
        e.addrs.push(ip);
        if e.refuse.is_empty() {
            0
        } else {
            e.refuse.remove(0)
        }
    })
}
#[no_mangle]
pub unsafe extern "C" fn connect(fd: i32, a: *const u8, _n: u32) -> i32 {
    let r = tie(fd, a);
    match at(fd, |e| if r != 0 { r } else { e.cfail }) {
        0 => 0,
        e => fail(e) as i32,
    }
}
#[no_mangle]
pub unsafe extern "C" fn bind(fd: i32, a: *const u8, _n: u32) -> i32 {
    match tie(fd, a) {
        0 => 0,
        e => fail(e) as i32,
    }
}
#[no_mangle]
pub unsafe extern "C" fn listen(fd: i32, _n: i32) -> i32 {
    match at(fd, granted) {
        0 => 0,
        e => fail(e) as i32,
    }
}
fn fresh(e: &mut Env) {
    e.rto = 0;
    e.wto = 0;
    e.nonblock = false;
    e.rshut = false;
    e.wshut = false;
}
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: i32, level: i32, opt: i32, p: *const u8, n: u32) -> i32 {
    if fd >= SOCK && level == 1 && (opt == 20 || opt == 21) && n >= 16 {
        let v = *(p as *const i64) as u64 * 1_000_000_000 + *(p as *const i64).add(1) as u64 * 1000;
        at(fd, |e| if opt == 20 { e.rto = v } else { e.wto = v });
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: i32, level: i32, opt: i32, p: *mut u8, n: *mut u32) -> i32 {
    let mut v = [0u8; 16];
    if fd >= SOCK && level == 1 && (opt == 20 || opt == 21) {
        let t = at(fd, |e| if opt == 20 { e.rto } else { e.wto });
        v[..8].copy_from_slice(&(t / 1_000_000_000).to_le_bytes());
        v[8..].copy_from_slice(&(t % 1_000_000_000 / 1000).to_le_bytes());
    }
    let k = (*n as usize).min(16);
    std::ptr::copy_nonoverlapping(v.as_ptr(), p, k);
    0
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: i32, cmd: u64, arg: *mut i32) -> i32 {
    if fd >= SOCK {
        if cmd == 0x5421 {
            let v = *arg != 0;
            at(fd, |e| e.nonblock = v);
        }
        if cmd == 0x541b {
            *arg = at(fd, |e| (e.avail - e.ipos) as i32);
        }
        return 0;
    }
    raw(16, fd as i64, cmd as i64, arg as i64, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: i32, how: i32) -> i32 {
    if fd >= SOCK {
        at(fd, |e| {
            e.rshut |= how != 1;
            e.wshut |= how != 0;
        });
        wake();
        return 0;
    }
    raw(48, fd as i64, how as i64, 0, 0, 0) as i32
}
unsafe fn name(a: *mut u8, n: *mut u32, port: u16) -> i32 {
    let b = port.to_be_bytes();
    let s = [2u8, 0, b[0], b[1], 127, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0];
    std::ptr::copy_nonoverlapping(s.as_ptr(), a, 16.min(*n as usize));
    *n = 16;
    0
}
#[no_mangle]
pub unsafe extern "C" fn getpeername(_fd: i32, a: *mut u8, n: *mut u32) -> i32 {
    name(a, n, 9)
}
#[no_mangle]
pub unsafe extern "C" fn getsockname(_fd: i32, a: *mut u8, n: *mut u32) -> i32 {
    name(a, n, 10)
}
#[repr(C)]
pub struct PollFd {
    fd: i32,
    events: i16,
    revents: i16,
}
#[no_mangle]
pub unsafe extern "C" fn poll(p: *mut PollFd, n: u64, ms: i32) -> i32 {
    let mut model = false;
    for i in 0..n as usize {
        let f = &*p.add(i);
        model |= fake_in(f.fd) || fake_out(f.fd);
    }
    if !model {
        return std_poll(p, n, ms);
    }
    let end = if ms < 0 { None } else { Some(now() + ms as u64 * 1_000_000) };
    loop {
        let mut k = 0;
        for i in 0..n as usize {
            let f = &mut *p.add(i);
            f.revents = at(f.fd, |e| {
                let mut r = 0;
                if fake_in(f.fd) && (e.avail > e.ipos || e.eof || e.rshut) {
                    r |= 1;
                }
                if fake_out(f.fd) && e.wroom != Some(0) {
                    r |= 4;
                }
                r
            }) & f.events;
            k += (f.revents != 0) as i32;
        }
        if k > 0 || stall(end) {
            return k;
        }
    }
}
#[cfg(feature = "native")]
unsafe fn std_poll(p: *mut PollFd, n: u64, ms: i32) -> i32 {
    raw(7, p as i64, n as i64, ms as i64, 0, 0) as i32
}
#[cfg(not(feature = "native"))]
unsafe fn std_poll(p: *mut PollFd, n: u64, _ms: i32) -> i32 {
    // the standard streams exist
    for i in 0..n as usize {
        (*p.add(i)).revents = 0;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn accept4(fd: i32, a: *mut u8, n: *mut u32, _f: i32) -> i32 {
    match at(fd, |e| if e.afail != 0 { e.afail } else { granted(e) }) {
        0 => {}
        e => return fail(e) as i32,
    }
    // 127.0.0.1:9
    let s = [2u8, 0, 0, 9, 127, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0];
    std::ptr::copy_nonoverlapping(s.as_ptr(), a, 16);
    *n = 16;
    at(fd, |e| {
        e.open += 1;
        fresh(e);
    });
    newfd(session(fd))
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: i32, cmd: i32, arg: i64) -> i32 {
    if fd >= SOCK {
        if cmd == 1030 || cmd == 0 {
            match at(fd, granted) {
                0 => {}
                e => return fail(e) as i32,
            }
            at(fd, |e| e.open += 1);
            return newfd(session(fd));
        }
        if cmd == 3 {
            return 2 | at(fd, |e| if e.nonblock { 2048 } else { 0 });
        }
        if cmd == 4 {
            at(fd, |e| e.nonblock = arg & 2048 != 0);
        }
        return 0;
    }
    raw(72, fd as i64, cmd as i64, arg, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if fd >= SOCK {
        at(fd, |e| e.open -= 1);
        return 0;
    }
    raw(3, fd as i64, 0, 0, 0, 0) as i32
}

// Natively, time can be made to pass faster than it does.
#[cfg(feature = "native")]
mod clock {
    use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
    #[repr(C)]
    pub struct Ts {
        s: i64,
        n: i64,
    }
    impl Ts {
        fn ns(&self) -> i64 {
            self.s.saturating_mul(1_000_000_000).saturating_add(self.n)
        }
        fn of(v: i64) -> Ts {
            Ts { s: v / 1_000_000_000, n: v % 1_000_000_000 }
        }
    }
    static RATE: AtomicI64 = AtomicI64::new(1);
    static REAL: AtomicI64 = AtomicI64::new(0);
    static SHOWN: AtomicI64 = AtomicI64::new(0);
    unsafe fn real() -> i64 {
        let mut t = Ts { s: 0, n: 0 };
        super::raw(228, 1, &mut t as *mut Ts as i64, 0, 0, 0);
        t.ns()
    }
    unsafe fn shown() -> i64 {
        SHOWN.load(SeqCst) + (real() - REAL.load(SeqCst)) * RATE.load(SeqCst)
    }
    pub fn set(r: i64) {
        unsafe {
            let s = shown();
            let t = real();
            SHOWN.store(s, SeqCst);
            REAL.store(t, SeqCst);
            RATE.store(r, SeqCst);
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn clock_gettime(id: i32, t: *mut Ts) -> i32 {
        if id == 1 {
            *t = Ts::of(shown());
            return 0;
        }
        super::raw(228, id as i64, t as i64, 0, 0, 0) as i32
    }
    unsafe fn pause(v: i64) {
        let t = Ts::of((v / RATE.load(SeqCst)).max(0));
        super::raw(230, 1, 0, &t as *const Ts as i64, 0, 0);
    }
    #[no_mangle]
    pub unsafe extern "C" fn clock_nanosleep(_id: i32, flags: i32, t: *const Ts, _rem: *mut Ts) -> i32 {
        pause(if flags & 1 != 0 { (*t).ns() - shown() } else { (*t).ns() });
        0
    }
    #[no_mangle]
    pub unsafe extern "C" fn nanosleep(t: *const Ts, _rem: *mut Ts) -> i32 {
        pause((*t).ns());
        0
    }
    #[no_mangle]
    pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
        // a wait on a futex until an absolute time
        if n == 202 && b & 127 == 9 && b & 256 == 0 && d != 0 {
            let at = (*(d as *const Ts)).ns();
            let left = at.saturating_sub(shown()).max(0) / RATE.load(SeqCst);
            let t = Ts::of(real().saturating_add(left));
            return super::raw6(n, a, b, c, &t as *const Ts as i64, e, f);
        }
        super::raw6(n, a, b, c, d, e, f)
    }
}
/// The seeds of hash maps: the same in every run.
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut u8, n: usize, _flags: u32) -> isize {
    for i in 0..n {
        *b.add(i) = (i * 37 + 11) as u8;
    }
    n as isize
}
/// Let time pass this much faster in the native build.
#[cfg(feature = "native")]
pub fn speed(n: i64) {
    clock::set(n)
}
#[cfg(not(feature = "native"))]
pub fn speed(_: i64) {}
