//! Z3 back end (C API of the pre-installed libz3) with independence slicing,
//! a query cache, and an exact single-byte domain procedure for branch
//! feasibility.  Assertion queries are always handed to Z3.
use crate::expr::{Ctx, N};
use crate::ir::{Ex, B};
use std::collections::HashMap;
use std::ffi::c_void;
use std::os::raw::{c_char, c_int, c_uint};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, f: Option<extern "C" fn(P, c_uint)>);
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
}

extern "C" fn on_err(_: P, e: c_uint) {
    eprintln!("z3 error {}", e);
    std::process::exit(3);
}

pub enum Res {
    Sat(Rc<Vec<(u32, u8)>>),
    Unsat,
    Unknown,
}

pub type Dom = [u64; 4];

#[derive(Default)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub hits: u64,
    pub dom: u64,
    pub confirmed: u64,
    pub us: u64,
    pub asserts_z3: u64,
    pub asserts_const: u64,
    pub max_us: u64,
}

pub struct Solver {
    c: P,
    s: P,
    /// for confirmations, with a short time limit
    short: P,
    spent: u64,
    asked: u64,
    bvm: HashMap<Ex, P>,
    bom: HashMap<Ex, P>,
    cache: HashMap<Vec<Ex>, Option<Rc<Vec<(u32, u8)>>>>,
    domc: HashMap<Ex, Rc<Dom>>,
    pub st: Stats,
    nq: u32,
    /// every how many byte-domain decisions Z3 is asked too (0: never)
    pub cross: u64,
}

/// time for confirmations in one process
const CONFIRM_US: u64 = 15_000_000;

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let solver = |ms| {
                let s = Z3_mk_solver(c);
                Z3_solver_inc_ref(c, s);
                let p = Z3_mk_params(c);
                Z3_params_inc_ref(c, p);
                Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, b"timeout\0".as_ptr() as *const c_char), ms);
                Z3_solver_set_params(c, s, p);
                s
            };
            let (s, short) = (solver(timeout_ms), solver(300));
            Solver { c, s, short, spent: 0, asked: 0, bvm: HashMap::new(), bom: HashMap::new(), cache: HashMap::new(), domc: HashMap::new(), st: Stats::default(), nq: 0, cross: 0 }
        }
    }
    fn num(&self, v: u128, w: u32) -> P {
        unsafe {
            let t = Z3_mk_bv_sort(self.c, w);
            if v <= u64::MAX as u128 {
                Z3_mk_unsigned_int64(self.c, v as u64, t)
            } else {
                let s = format!("{}\0", v);
                Z3_mk_numeral(self.c, s.as_ptr() as *const c_char, t)
            }
        }
    }
    fn bo(&mut self, x: &Ctx, e: Ex) -> P {
        if let Some(p) = self.bom.get(&e) {
            return *p;
        }
        let c = self.c;
        let r = unsafe {
            match x.n[e as usize] {
                N::K(_, v) => {
                    if v == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                N::Eq(a, b) => {
                    if x.width(a) == 1 {
                        let (p, q) = (self.bo(x, a), self.bo(x, b));
                        Z3_mk_eq(c, p, q)
                    } else {
                        let (p, q) = (self.bv(x, a), self.bv(x, b));
                        Z3_mk_eq(c, p, q)
                    }
                }
                N::Ult(a, b) => {
                    let (p, q) = (self.bv(x, a), self.bv(x, b));
                    Z3_mk_bvult(c, p, q)
                }
                N::Ule(a, b) => {
                    let (p, q) = (self.bv(x, a), self.bv(x, b));
                    Z3_mk_bvule(c, p, q)
                }
                N::Slt(a, b) => {
                    let (p, q) = (self.bv(x, a), self.bv(x, b));
                    Z3_mk_bvslt(c, p, q)
                }
                N::Sle(a, b) => {
                    let (p, q) = (self.bv(x, a), self.bv(x, b));
                    Z3_mk_bvsle(c, p, q)
                }
                N::Bin(B::And, a, b) => {
                    let v = [self.bo(x, a), self.bo(x, b)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                N::Bin(B::Or, a, b) => {
                    let v = [self.bo(x, a), self.bo(x, b)];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                N::Bin(B::Xor, a, b) => {
                    if x.is1(b) {
                        let p = self.bo(x, a);
                        Z3_mk_not(c, p)
                    } else {
                        let (p, q) = (self.bo(x, a), self.bo(x, b));
                        Z3_mk_xor(c, p, q)
                    }
                }
                N::Ite(a, b, d) => {
                    let (p, q, r) = (self.bo(x, a), self.bo(x, b), self.bo(x, d));
                    Z3_mk_ite(c, p, q, r)
                }
                _ => {
                    let p = self.bv_raw(x, e);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, p, one)
                }
            }
        };
        self.bom.insert(e, r);
        r
    }
    fn bv(&mut self, x: &Ctx, e: Ex) -> P {
        if let Some(p) = self.bvm.get(&e) {
            return *p;
        }
        let r = if x.width(e) == 1 {
            match x.n[e as usize] {
                N::Eq(..) | N::Ult(..) | N::Ule(..) | N::Slt(..) | N::Sle(..) => {
                    let b = self.bo(x, e);
                    let (one, z) = (self.num(1, 1), self.num(0, 1));
                    unsafe { Z3_mk_ite(self.c, b, one, z) }
                }
                _ => self.bv_raw(x, e),
            }
        } else {
            self.bv_raw(x, e)
        };
        self.bvm.insert(e, r);
        r
    }
    fn bv_raw(&mut self, x: &Ctx, e: Ex) -> P {
        let c = self.c;
        let w = x.width(e);
        unsafe {
            match x.n[e as usize] {
                N::K(_, v) => self.num(v, w),
                N::Var(i) => {
                    let t = Z3_mk_bv_sort(c, 8);
                    Z3_mk_const(c, Z3_mk_int_symbol(c, i as c_int), t)
                }
                N::Bin(op, a, b) => {
                    let (p, q) = (self.bv(x, a), self.bv(x, b));
                    match op {
                        B::Add => Z3_mk_bvadd(c, p, q),
                        B::Sub => Z3_mk_bvsub(c, p, q),
                        B::Mul => Z3_mk_bvmul(c, p, q),
                        B::UDiv => Z3_mk_bvudiv(c, p, q),
                        B::SDiv => Z3_mk_bvsdiv(c, p, q),
                        B::URem => Z3_mk_bvurem(c, p, q),
                        B::SRem => Z3_mk_bvsrem(c, p, q),
                        B::And => Z3_mk_bvand(c, p, q),
                        B::Or => Z3_mk_bvor(c, p, q),
                        B::Xor => Z3_mk_bvxor(c, p, q),
                        B::Shl => Z3_mk_bvshl(c, p, q),
                        B::LShr => Z3_mk_bvlshr(c, p, q),
                        B::AShr => Z3_mk_bvashr(c, p, q),
                        _ => panic!("symbolic float op"),
                    }
                }
                N::Ite(a, b, d) => {
                    let (p, q, r) = (self.bo(x, a), self.bv(x, b), self.bv(x, d));
                    Z3_mk_ite(c, p, q, r)
                }
                N::Ext(a, hi, lo) => {
                    let p = self.bv(x, a);
                    Z3_mk_extract(c, hi, lo, p)
                }
                N::ZExt(a, _) => {
                    let p = self.bv(x, a);
                    Z3_mk_zero_ext(c, w - x.width(a), p)
                }
                N::SExt(a, _) => {
                    let p = self.bv(x, a);
                    Z3_mk_sign_ext(c, w - x.width(a), p)
                }
                N::Cat(a, b) => {
                    let (p, q) = (self.bv(x, a), self.bv(x, b));
                    Z3_mk_concat(c, p, q)
                }
                N::Tab(t, i) => {
                    let iv = self.bv(x, i);
                    let iw = x.width(i);
                    let tb = x.tabs[t as usize].clone();
                    // only the low bits that can address the table
                    let mut bits = 0;
                    while (1usize << bits) < tb.v.len() {
                        bits += 1;
                    }
                    let bits = bits.min(iw as usize);
                    let mut layer: Vec<(u128, Option<P>)> =
                        (0..1usize << bits).map(|k| (tb.v.get(k).cloned().unwrap_or(0), None)).collect();
                    for b in 0..bits {
                        let bit = Z3_mk_extract(c, b as c_uint, b as c_uint, iv);
                        let one = self.num(1, 1);
                        let cond = Z3_mk_eq(c, bit, one);
                        let mut nl = Vec::with_capacity(layer.len() / 2);
                        for p in layer.chunks(2) {
                            if p[0].1.is_none() && p[1].1.is_none() && p[0].0 == p[1].0 {
                                nl.push((p[0].0, None));
                            } else {
                                let l = p[0].1.unwrap_or_else(|| self.num(p[0].0, w));
                                let h = p[1].1.unwrap_or_else(|| self.num(p[1].0, w));
                                nl.push((0, Some(Z3_mk_ite(c, cond, h, l))));
                            }
                        }
                        layer = nl;
                    }
                    layer[0].1.unwrap_or_else(|| self.num(layer[0].0, w))
                }
                N::Eq(..) | N::Ult(..) | N::Ule(..) | N::Slt(..) | N::Sle(..) => unreachable!(),
            }
        }
    }

    /// Truth set of a condition over a single variable.
    pub fn dom(&mut self, x: &mut Ctx, e: Ex, v: u32) -> Rc<Dom> {
        if let Some(d) = self.domc.get(&e) {
            return d.clone();
        }
        let mut d: Dom = [0; 4];
        let mut m = HashMap::new();
        for k in 0..256usize {
            m.insert(v, k as u8);
            if x.eval(e, &m) == 1 {
                d[k / 64] |= 1 << (k % 64);
            }
        }
        let d = Rc::new(d);
        self.domc.insert(e, d.clone());
        d
    }

    /// A decision over `v`'s domain alone, put to Z3 every so often.
    pub fn confirm(&mut self, x: &mut Ctx, pc: &[Ex], c: Ex, v: u32, sat: bool) {
        if self.cross == 0 {
            return;
        }
        let mut q = vec![c];
        q.extend(pc.iter().cloned().filter(|p| x.support(*p)[..] == [v]));
        self.ask(x, &q, &[v], sat);
    }
    fn ask(&mut self, x: &mut Ctx, q: &[Ex], vs: &[u32], sat: bool) {
        if self.cross == 0 {
            return;
        }
        // all of them until the time for it is used up, then samples
        self.asked += 1;
        let every = if self.spent < CONFIRM_US { self.cross } else { 50 * self.cross };
        if self.asked % every != 0 {
            return;
        }
        let t = Instant::now();
        let r = self.z3(x, q, vs, self.short);
        self.spent += t.elapsed().as_micros() as u64;
        match r {
            Res::Unknown => {}
            r if matches!(r, Res::Sat(_)) == sat => self.st.confirmed += 1,
            _ => {
                eprintln!("engine/solver disagreement on a branch");
                std::process::exit(3);
            }
        }
    }

    /// Exact decision over the product of the variables' byte domains, when
    /// that product is small.  None when it is not.
    fn product(&mut self, x: &mut Ctx, q: &[Ex], vars: &[u32]) -> Option<Res> {
        const LIMIT: usize = 6_000_000;
        let mut doms: HashMap<u32, Dom> = vars.iter().map(|v| (*v, [u64::MAX; 4])).collect();
        let mut multi = vec![];
        for e in q {
            let s = x.support(*e);
            match s.len() {
                0 => {
                    if x.cv(*e) == Some(0) {
                        return Some(Res::Unsat);
                    }
                    if x.cv(*e).is_none() {
                        return None;
                    }
                }
                1 => {
                    let d = self.dom(x, *e, s[0]);
                    let m = doms.get_mut(&s[0])?;
                    for i in 0..4 {
                        m[i] &= d[i];
                    }
                }
                _ => multi.push(*e),
            }
        }
        let vals: Vec<Vec<u8>> = vars
            .iter()
            .map(|v| (0..256usize).filter(|k| doms[v][k / 64] >> (k % 64) & 1 == 1).map(|k| k as u8).collect())
            .collect();
        if vals.iter().any(|v| v.is_empty()) {
            return Some(Res::Unsat);
        }
        let mut size = 1usize;
        for v in &vals {
            size = size.saturating_mul(v.len());
        }
        if multi.is_empty() {
            return Some(Res::Sat(Rc::new(vars.iter().zip(&vals).map(|(v, l)| (*v, l[0])).collect())));
        }
        let tape = x.tape(&multi, LIMIT / size.min(LIMIT).max(1))?;
        let mut idx = vec![0usize; vars.len()];
        let mut mem = tape.init(x);
        loop {
            for (k, v) in vars.iter().enumerate() {
                tape.set(&mut mem, *v, vals[k][idx[k]]);
            }
            if tape.run(x, &mut mem) {
                return Some(Res::Sat(Rc::new(vars.iter().enumerate().map(|(k, v)| (*v, vals[k][idx[k]])).collect())));
            }
            let mut k = 0;
            loop {
                if k == vars.len() {
                    return Some(Res::Unsat);
                }
                idx[k] += 1;
                if idx[k] < vals[k].len() {
                    break;
                }
                idx[k] = 0;
                k += 1;
            }
        }
    }

    /// Satisfiability of `pc /\ c`; the returned model covers the slice only.
    /// `quick` allows the finite-domain procedure (branch decisions only).
    pub fn check(&mut self, x: &mut Ctx, pc: &[Ex], c: Ex, quick: bool) -> Res {
        if let Some(v) = x.cv(c) {
            if v == 0 {
                return Res::Unsat;
            }
            return Res::Sat(Rc::new(vec![]));
        }
        // slice
        let mut inset: HashMap<u32, ()> = HashMap::new();
        for v in x.support(c).iter() {
            inset.insert(*v, ());
        }
        let mut used = vec![false; pc.len()];
        let mut q: Vec<Ex> = vec![c];
        loop {
            let mut ch = false;
            for (i, p) in pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let s = x.support(*p);
                if s.iter().any(|v| inset.contains_key(v)) {
                    used[i] = true;
                    ch = true;
                    q.push(*p);
                    for v in s.iter() {
                        inset.insert(*v, ());
                    }
                }
            }
            if !ch {
                break;
            }
        }
        q.sort();
        q.dedup();
        if let Some(r) = self.cache.get(&q) {
            self.st.hits += 1;
            return match r {
                Some(m) => Res::Sat(m.clone()),
                None => Res::Unsat,
            };
        }
        if quick {
            let mut vs: Vec<u32> = inset.keys().cloned().collect();
            vs.sort();
            if let Some(r) = self.product(x, &q, &vs) {
                self.st.dom += 1;
                self.ask(x, &q, &vs, matches!(r, Res::Sat(_)));
                match &r {
                    Res::Sat(m) => self.cache.insert(q, Some(m.clone())),
                    _ => self.cache.insert(q, None),
                };
                return r;
            }
        }
        let mut vs: Vec<u32> = inset.keys().cloned().collect();
        vs.sort();
        let r = self.z3(x, &q, &vs, self.s);
        match &r {
            Res::Sat(m) => {
                self.cache.insert(q, Some(m.clone()));
            }
            Res::Unsat => {
                self.cache.insert(q, None);
            }
            Res::Unknown => {}
        }
        r
    }

    fn z3(&mut self, x: &mut Ctx, q: &[Ex], vs: &[u32], s: P) -> Res {
        let t0 = Instant::now();
        self.nq += 1;
        let r = unsafe {
            Z3_solver_push(self.c, s);
            for e in q {
                let a = self.bo(x, *e);
                Z3_solver_assert(self.c, s, a);
            }
            let r = Z3_solver_check(self.c, s);
            let out = if r == 1 {
                let m = Z3_solver_get_model(self.c, s);
                Z3_model_inc_ref(self.c, m);
                let mut mv = vec![];
                for v in vs.iter().cloned() {
                    let t = Z3_mk_bv_sort(self.c, 8);
                    let a = Z3_mk_const(self.c, Z3_mk_int_symbol(self.c, v as c_int), t);
                    let mut o: P = std::ptr::null_mut();
                    Z3_model_eval(self.c, m, a, true, &mut o);
                    let mut u = 0u64;
                    Z3_get_numeral_uint64(self.c, o, &mut u);
                    mv.push((v, u as u8));
                }
                Z3_model_dec_ref(self.c, m);
                Res::Sat(Rc::new(mv))
            } else if r == -1 {
                Res::Unsat
            } else {
                Res::Unknown
            };
            Z3_solver_pop(self.c, s, 1);
            out
        };
        let us = t0.elapsed().as_micros() as u64;
        self.st.us += us;
        self.st.max_us = self.st.max_us.max(us);
        self.st.queries += 1;
        match &r {
            Res::Sat(m) => {
                self.st.sat += 1;
                // never trust a model that does not evaluate
                let hm: HashMap<u32, u8> = m.iter().cloned().collect();
                for e in q {
                    if x.eval(*e, &hm) != 1 {
                        eprintln!("engine/solver disagreement on expression {}", e);
                        std::process::exit(3);
                    }
                }
            }
            Res::Unsat => self.st.unsat += 1,
            Res::Unknown if s == self.short => {}
            Res::Unknown => self.st.unknown += 1,
        }
        r
    }
}
