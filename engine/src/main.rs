//! rsx: a symbolic executor for whole-program LLVM IR produced by rustc.
mod exec;
mod expr;
mod ir;
mod known;
mod mem;
mod parse;
mod solver;

use exec::Eng;
use std::fmt::Write as _;
use std::io::Write as _;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn read(fd: i32, p: *mut u8, n: usize) -> isize;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn _exit(c: i32) -> !;
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn kv(v: &[(String, Vec<u8>)]) -> String {
    let p: Vec<String> = v.iter().map(|(n, b)| format!("[{},\"{}\"]", esc(n), hex(b))).collect();
    format!("[{}]", p.join(","))
}

fn report(e: &Eng, out: &str, wall: f64) {
    let r = &e.rep;
    let mut s = String::new();
    let _ = write!(
        s,
        "{{\"done\":{},\"pruned\":{},\"steps\":{},\"forks\":{},\"max_depth\":{},\"wall\":{:.3},",
        r.done, r.pruned, r.steps, r.forks, r.max_depth, wall
    );
    let st = &e.so.st;
    let _ = write!(
        s,
        "\"solver\":{{\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"byte_domain\":{},\"confirmed\":{},\"seconds\":{:.3},\"max_query_ms\":{:.1},\"asserts_z3\":{},\"asserts_const\":{}}},",
        st.queries, st.sat, st.unsat, st.unknown, st.hits, st.dom, st.confirmed, st.us as f64 / 1e6, st.max_us as f64 / 1e3, st.asserts_z3, st.asserts_const
    );
    let inc: Vec<String> = r.incomplete.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    let _ = write!(s, "\"incomplete\":{{{}}},", inc.join(","));
    let rc: Vec<String> = r.reach.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    let _ = write!(s, "\"reach\":{{{}}},", rc.join(","));
    let ac: Vec<String> = r.asserts.iter().map(|(k, v)| format!("{}:[{},{}]", esc(k), v.0, v.1)).collect();
    let _ = write!(s, "\"asserts\":{{{}}},", ac.join(","));
    let nv: Vec<String> = r.nviol.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    let _ = write!(s, "\"nviol\":{{{}}},", nv.join(","));
    let fs: Vec<String> = r.funcs.iter().map(|(k, v)| format!("{}:{}", esc(&e.m.funcs[*k as usize].name), v)).collect();
    let _ = write!(s, "\"funcs\":{{{}}},", fs.join(","));
    let sm: Vec<String> = r.samples.iter().map(|(i, l)| format!("{{\"inputs\":{},\"log\":{}}}", kv(i), kv(l))).collect();
    let _ = write!(s, "\"samples\":[{}],", sm.join(","));
    let vs: Vec<String> = r
        .viols
        .iter()
        .map(|v| {
            let st: Vec<String> = v.stack.iter().map(|x| esc(x)).collect();
            format!(
                "{{\"kind\":{},\"msg\":{},\"inputs\":{},\"log\":{},\"stack\":[{}]}}",
                esc(&v.kind),
                esc(&v.msg),
                kv(&v.inputs),
                kv(&v.log),
                st.join(",")
            )
        })
        .collect();
    let _ = write!(s, "\"viols\":[{}]}}", vs.join(","));
    std::fs::File::create(out).unwrap().write_all(s.as_bytes()).unwrap();
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str| a.iter().position(|x| x == n).map(|i| a[i + 1].clone());
    let ll = opt("--ll").expect("--ll");
    let entry = opt("--entry").expect("--entry");
    let out = opt("--out").expect("--out");
    let jobs: usize = opt("--jobs").map(|s| s.parse().unwrap()).unwrap_or(1);
    let time: u64 = opt("--time").map(|s| s.parse().unwrap()).unwrap_or(600);
    let qt: u32 = opt("--query-ms").map(|s| s.parse().unwrap()).unwrap_or(60000);
    let t0 = Instant::now();
    let m: &'static ir::Module = Box::leak(Box::new(parse::load_module(std::fs::read(&ll).unwrap())));
    let mut e = Eng::new(m, qt);
    e.nsamples = opt("--samples").map(|s| s.parse().unwrap()).unwrap_or(0);
    if let Some(s) = opt("--seed") {
        e.rng = (e.rng ^ s.parse::<u64>().unwrap().wrapping_mul(0xbf58_476d_1ce4_e5b9)) | 1;
    }
    e.so.cross = opt("--cross").map(|s| s.parse().unwrap()).unwrap_or(0);
    e.trace = a.iter().any(|x| x == "--trace");
    if let Some(s) = opt("--max-steps") {
        e.max_steps = s.parse().unwrap();
    }
    let profile = a.iter().any(|x| x == "--profile");
    let limit = Duration::from_secs(time);
    let s0 = e.start(&entry);
    e.work.push(s0);
    let loaded = t0.elapsed().as_secs();
    let go = |e: &mut Eng, seed_target: usize| -> bool {
        // seed_target > 0: stop once that many states are pending (breadth first)
        loop {
            // enough to share out; fewer will do if getting there takes long
            let slow = t0.elapsed().as_secs() >= 5 + loaded;
            if seed_target > 0 && (e.work.len() >= seed_target || slow && e.work.len() >= seed_target / 6) {
                return true;
            }
            let s = if seed_target > 0 {
                if e.work.is_empty() {
                    return false;
                }
                e.work.remove(0)
            } else {
                match e.work.pop() {
                    Some(s) => s,
                    None => return false,
                }
            };
            if t0.elapsed() > limit {
                let n = e.work.len() as u64 + 1;
                *e.rep.incomplete.entry("time limit: states left".into()).or_insert(0) += n;
                e.work.clear();
                return false;
            }
            e.run_state(s);
        }
    };
    if jobs <= 1 {
        go(&mut e, 0);
        report(&e, &format!("{}.0.json", out), t0.elapsed().as_secs_f64());
    } else {
        let more = go(&mut e, 48 * jobs);
        let pend = std::mem::take(&mut e.work);
        report(&e, &format!("{}.p.json", out), t0.elapsed().as_secs_f64());
        if more {
            unsafe {
                let mut fds = [0i32; 2];
                pipe(fds.as_mut_ptr());
                let mut pids = vec![];
                for j in 0..jobs {
                    let p = fork();
                    if p == 0 {
                        close(fds[1]);
                        e.rep = exec::Report::default();
                        e.so.st = solver::Stats::default();
                        loop {
                            let mut b = [0u8; 4];
                            if read(fds[0], b.as_mut_ptr(), 4) != 4 {
                                break;
                            }
                            let i = u32::from_le_bytes(b) as usize;
                            e.work.push(pend[i].clone());
                            go(&mut e, 0);
                        }
                        report(&e, &format!("{}.{}.json", out, j), t0.elapsed().as_secs_f64());
                        if profile {
                            prof(&e);
                        }
                        _exit(0);
                    }
                    pids.push(p);
                }
                close(fds[0]);
                for i in 0..pend.len() as u32 {
                    write(fds[1], i.to_le_bytes().as_ptr(), 4);
                }
                close(fds[1]);
                let mut okall = true;
                for p in pids {
                    let mut s = 0;
                    waitpid(p, &mut s, 0);
                    okall &= s == 0;
                }
                if !okall {
                    eprintln!("worker failed");
                    std::process::exit(3);
                }
            }
        }
    }
    if profile {
        prof(&e);
    }
}

fn prof(e: &Eng) {
    let mut v: Vec<_> = e.sites.iter().collect();
    v.sort_by_key(|x| std::cmp::Reverse(*x.1));
    for (s, n) in v.iter().take(25) {
        eprintln!("{:8} {}", n, s);
    }
}
