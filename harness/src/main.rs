//! Property harnesses.  Every `h_*` entry is executed symbolically by rsx on
//! the LLVM IR of this crate linked with /repo's crates; with the feature
//! `native` the same entries replay concrete inputs.
macro_rules! entries {
    ($($n:ident)*) => { pub const ENTRIES: &[crate::Entry] = &[$((stringify!($n), $n)),*]; };
}

mod alloc;
mod c_api;
mod c_class;
mod c_frame;
mod c_payload;
mod c_proto;
mod c_stream;
mod drv;
mod env;
mod json;
mod pay;
mod refr;
mod rt;
#[cfg(feature = "selftest")]
mod selftest;

pub type Entry = (&'static str, extern "C" fn());
fn entries() -> Vec<Entry> {
    let mut v: Vec<Entry> = vec![];
    v.extend_from_slice(c_frame::ENTRIES);
    v.extend_from_slice(c_payload::ENTRIES);
    v.extend_from_slice(c_stream::ENTRIES);
    v.extend_from_slice(c_class::ENTRIES);
    v.extend_from_slice(c_proto::ENTRIES);
    v.extend_from_slice(c_api::ENTRIES);
    #[cfg(feature = "selftest")]
    v.extend_from_slice(selftest::ENTRIES);
    v
}

#[cfg(not(feature = "native"))]
fn main() {
    for (_, f) in entries() {
        f();
    }
}

#[cfg(feature = "native")]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 4 {
        for (n, _) in entries() {
            println!("{}", n);
        }
        return;
    }
    rt::load(&a[2], &a[3]);
    let f = entries().into_iter().find(|(n, _)| *n == a[1]).expect("unknown entry").1;
    let r = std::panic::catch_unwind(|| run(f));
    if r.is_err() {
        rt::say("PANIC".into());
        std::process::exit(3);
    }
    rt::say("DONE".into());
    let bad = !rt::STATE.lock().unwrap().as_ref().unwrap().failed.is_empty();
    std::process::exit(if bad { 2 } else { 0 });
}
#[cfg(feature = "native")]
fn run(f: extern "C" fn()) {
    f()
}
