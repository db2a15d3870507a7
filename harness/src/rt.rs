//! Interface between the harness entries and the symbolic executor.  In the
//! IR build these are undefined externals interpreted by rsx; in the native
//! build (feature "native") they read a replay file and check concretely.
#![allow(dead_code)]

#[cfg(not(feature = "native"))]
extern "C" {
    fn rsx_make(p: *mut u8, n: usize, name: *const u8, nl: usize);
    fn rsx_choice(n: u32, name: *const u8, nl: usize) -> u32;
    fn rsx_assume(c: bool);
    fn rsx_assert(c: bool, msg: *const u8, ml: usize);
    fn rsx_reach(msg: *const u8, ml: usize);
    fn rsx_log(tag: *const u8, tl: usize, d: *const u8, n: usize);
    fn rsx_conc(v: u64) -> u64;
    fn rsx_native() -> u32;
    fn rsx_yield();
    fn rsx_block();
    fn rsx_wake();
    fn rsx_now() -> u64;
    fn rsx_block_until(t: u64);
}

#[cfg(feature = "native")]
mod native {
    use std::collections::HashMap;
    use std::sync::Mutex;
    pub struct N {
        pub inputs: HashMap<String, Vec<u8>>,
        pub count: HashMap<String, u32>,
        pub failed: Vec<String>,
    }
    pub static STATE: Mutex<Option<N>> = Mutex::new(None);
    /// where the outcome is reported (stdout belongs to the code under test)
    pub static REPORT: Mutex<Option<std::fs::File>> = Mutex::new(None);
    pub fn say(l: String) {
        use std::io::Write;
        let mut g = match REPORT.lock() {
            Ok(g) => g,
            Err(p) => p.into_inner(),
        };
        if let Some(f) = g.as_mut() {
            let _ = f.write_all(format!("{}\n", l).as_bytes());
        }
    }
    pub fn load(path: &str, report: &str) {
        *REPORT.lock().unwrap() = Some(std::fs::File::create(report).expect("report file"));
        let t = std::fs::read_to_string(path).expect("replay file");
        let mut inputs = HashMap::new();
        for l in t.lines() {
            let mut p = l.split(' ');
            if p.next() != Some("in") {
                continue;
            }
            let name = p.next().unwrap().to_string();
            let h = p.next().unwrap_or("");
            let b = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
            inputs.insert(name, b);
        }
        *STATE.lock().unwrap() = Some(N { inputs, count: HashMap::new(), failed: vec![] });
    }
    unsafe fn s(p: *const u8, n: usize) -> String {
        String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned()
    }
    fn next(name: String) -> Vec<u8> {
        let mut g = STATE.lock().unwrap();
        let st = g.as_mut().unwrap();
        let c = st.count.entry(name.clone()).or_insert(0);
        let k = format!("{}#{}", name, *c);
        *c += 1;
        st.inputs.get(&k).cloned().unwrap_or_default()
    }
    pub unsafe fn rsx_make(p: *mut u8, n: usize, name: *const u8, nl: usize) {
        let v = next(s(name, nl));
        for i in 0..n {
            *p.add(i) = *v.get(i).unwrap_or(&0);
        }
    }
    pub unsafe fn rsx_choice(_n: u32, name: *const u8, nl: usize) -> u32 {
        *next(s(name, nl)).first().unwrap_or(&0) as u32
    }
    pub unsafe fn rsx_assume(c: bool) {
        if !c {
            say("ASSUME-FALSE".into());
            std::process::exit(5);
        }
    }
    pub unsafe fn rsx_assert(c: bool, msg: *const u8, ml: usize) {
        if !c {
            let m = s(msg, ml);
            say(format!("ASSERT-FAILED {}", m));
            STATE.lock().unwrap().as_mut().unwrap().failed.push(m);
        }
    }
    pub unsafe fn rsx_reach(msg: *const u8, ml: usize) {
        say(format!("REACH {}", s(msg, ml)));
    }
    pub unsafe fn rsx_log(tag: *const u8, tl: usize, d: *const u8, n: usize) {
        let h: String = std::slice::from_raw_parts(d, n).iter().map(|b| format!("{:02x}", b)).collect();
        say(format!("LOG {} {}", s(tag, tl), h));
    }
    pub unsafe fn rsx_conc(v: u64) -> u64 {
        v
    }
    pub unsafe fn rsx_native() -> u32 {
        1
    }
    pub unsafe fn rsx_block() {
        std::thread::sleep(std::time::Duration::from_millis(1));
    }
    pub unsafe fn rsx_wake() {}
    static START: std::sync::OnceLock<std::time::Instant> = std::sync::OnceLock::new();
    pub unsafe fn rsx_now() -> u64 {
        START.get_or_init(std::time::Instant::now).elapsed().as_nanos() as u64
    }
    pub unsafe fn rsx_block_until(t: u64) {
        let n = rsx_now();
        if t > n {
            std::thread::sleep(std::time::Duration::from_nanos((t - n).min(1_000_000)));
        }
    }
    pub unsafe fn rsx_yield() {
        std::thread::sleep(std::time::Duration::from_millis(3));
    }
}
#[cfg(feature = "native")]
use native::{rsx_assert, rsx_assume, rsx_block, rsx_block_until, rsx_now, rsx_choice, rsx_conc, rsx_log, rsx_make, rsx_native, rsx_reach, rsx_wake, rsx_yield};
#[cfg(feature = "native")]
pub use native::{load, say, STATE};

pub fn make(buf: &mut [u8], name: &str) {
    unsafe { rsx_make(buf.as_mut_ptr(), buf.len(), name.as_ptr(), name.len()) }
}
pub fn bytes(n: usize, name: &str) -> Vec<u8> {
    let mut v = vec![0u8; n];
    make(&mut v, name);
    v
}
/// A value in 0..n, left symbolic.
pub fn choice(n: u32, name: &str) -> u32 {
    unsafe { rsx_choice(n, name.as_ptr(), name.len()) }
}
/// A value in 0..n; every value becomes its own path.
pub fn pick(n: u32, name: &str) -> u32 {
    let c = choice(n, name);
    unsafe { rsx_conc(c as u64) as u32 }
}
pub fn conc(v: u64) -> u64 {
    unsafe { rsx_conc(v) }
}
pub fn assume(c: bool) {
    unsafe { rsx_assume(c) }
}
pub fn check(c: bool, msg: &str) {
    unsafe { rsx_assert(c, msg.as_ptr(), msg.len()) }
}
pub fn reach(msg: &str) {
    unsafe { rsx_reach(msg.as_ptr(), msg.len()) }
}
pub fn log(tag: &str, d: &[u8]) {
    unsafe { rsx_log(tag.as_ptr(), tag.len(), d.as_ptr(), d.len()) }
}
pub fn native() -> bool {
    unsafe { rsx_native() == 1 }
}
/// Let the other threads run until they block.
pub fn settle() {
    unsafe { rsx_yield() }
}
/// Wait until the environment changes.
pub fn block() {
    unsafe { rsx_block() }
}
/// The clock, in ns.
pub fn now() -> u64 {
    unsafe { rsx_now() }
}
/// Wait until the environment changes, or this time.
pub fn block_until(t: u64) {
    unsafe { rsx_block_until(t) }
}
pub fn wake() {
    unsafe { rsx_wake() }
}
pub fn u16s(name: &str) -> u16 {
    let mut b = [0u8; 2];
    make(&mut b, name);
    u16::from_le_bytes(b)
}
pub fn u32s(name: &str) -> u32 {
    let mut b = [0u8; 4];
    make(&mut b, name);
    u32::from_le_bytes(b)
}
pub fn u64s(name: &str) -> u64 {
    let mut b = [0u8; 8];
    make(&mut b, name);
    u64::from_le_bytes(b)
}

/// Printable ASCII that JSON strings carry without escapes.
pub fn plain(b: u8) -> bool {
    (b >= 0x20) & (b < 0x7f) & (b != b'"') & (b != b'\\')
}
/// n plain characters
pub fn text(n: usize, name: &str) -> Vec<u8> {
    let v = bytes(n, name);
    for b in &v {
        assume(plain(*b));
    }
    v
}
pub fn string(n: usize, name: &str) -> String {
    // plain bytes are ASCII
    unsafe { String::from_utf8_unchecked(text(n, name)) }
}
/// bytewise equality without branching per byte
pub fn same(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && a == b
}
