//! Hash-consed bit-vector expressions with simplification.
use crate::ir::{Ex, Pred, B};
use crate::parse::{mask, sext};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum N {
    K(u32, u128),
    Var(u32), // 8-bit symbolic byte
    Bin(B, Ex, Ex),
    Eq(Ex, Ex),
    Ult(Ex, Ex),
    Ule(Ex, Ex),
    Slt(Ex, Ex),
    Sle(Ex, Ex),
    Ite(Ex, Ex, Ex),
    Ext(Ex, u32, u32), // hi, lo
    ZExt(Ex, u32),
    SExt(Ex, u32),
    Cat(Ex, Ex), // hi, lo
    Tab(u32, Ex), // constant table lookup
}

pub struct Table {
    pub w: u32,
    pub v: Vec<u128>,
}

pub struct Ctx {
    pub n: Vec<N>,
    pub w: Vec<u32>,
    map: HashMap<N, Ex>,
    pub vars: Vec<String>,
    vmap: HashMap<String, u32>,
    pub tabs: Vec<Rc<Table>>,
    tmap: HashMap<(u32, Vec<u128>), u32>,
    sup: Vec<Option<Rc<Vec<u32>>>>,
    memo: Vec<u128>,
    stamp: Vec<u32>,
    cur: u32,
    empty: Rc<Vec<u32>>,
}

impl Ctx {
    pub fn new() -> Self {
        Ctx {
            n: vec![],
            w: vec![],
            map: HashMap::new(),
            vars: vec![],
            vmap: HashMap::new(),
            tabs: vec![],
            tmap: HashMap::new(),
            sup: vec![],
            memo: vec![],
            stamp: vec![],
            cur: 0,
            empty: Rc::new(vec![]),
        }
    }
    fn mk(&mut self, n: N, w: u32) -> Ex {
        if let Some(e) = self.map.get(&n) {
            return *e;
        }
        let k = self.n.len() as Ex;
        self.n.push(n);
        self.w.push(w);
        self.sup.push(None);
        self.memo.push(0);
        self.stamp.push(0);
        self.map.insert(n, k);
        k
    }
    pub fn k(&mut self, v: u128, w: u32) -> Ex {
        self.mk(N::K(w, mask(v, w)), w)
    }
    pub fn var(&mut self, name: &str) -> Ex {
        let id = match self.vmap.get(name) {
            Some(i) => *i,
            None => {
                let i = self.vars.len() as u32;
                self.vars.push(name.to_string());
                self.vmap.insert(name.to_string(), i);
                i
            }
        };
        self.mk(N::Var(id), 8)
    }
    pub fn cv(&self, e: Ex) -> Option<u128> {
        if let N::K(_, v) = self.n[e as usize] {
            Some(v)
        } else {
            None
        }
    }
    pub fn is1(&self, e: Ex) -> bool {
        self.cv(e) == Some(1)
    }
    pub fn width(&self, e: Ex) -> u32 {
        self.w[e as usize]
    }
    fn nd(&self, e: Ex) -> N {
        self.n[e as usize]
    }
    pub fn table(&mut self, w: u32, v: Vec<u128>, idx: Ex) -> Ex {
        if let Some(k) = self.cv(idx) {
            return self.k(v[k as usize], w);
        }
        if v.iter().all(|x| *x == v[0]) {
            return self.k(v[0], w);
        }
        let key = (w, v);
        let id = match self.tmap.get(&key) {
            Some(i) => *i,
            None => {
                let i = self.tabs.len() as u32;
                self.tabs.push(Rc::new(Table { w, v: key.1.clone() }));
                self.tmap.insert(key, i);
                i
            }
        };
        self.mk(N::Tab(id, idx), w)
    }
    /// for debugging
    pub fn show(&self, e: Ex) -> String {
        let w = self.w[e as usize];
        match self.nd(e) {
            N::Var(v) => self.vars[v as usize].clone(),
            N::Ext(a, h, l) => format!("{}[{}:{}]", self.show(a), h, l),
            N::ZExt(a, _) => format!("z{}({})", w, self.show(a)),
            N::SExt(a, _) => format!("s{}({})", w, self.show(a)),
            n => {
                let (k, c) = self.kids(e);
                if c == 0 {
                    return match self.cv(e) {
                        Some(v) => format!("{:#x}", v),
                        None => format!("{:?}", n),
                    };
                }
                let op = format!("{:?}", n);
                let op = if let N::Bin(b, ..) = n { format!("{:?}", b) } else { op.split('(').next().unwrap().to_string() };
                format!("({}{} {})", op, w, k[..c].iter().map(|x| self.show(*x)).collect::<Vec<_>>().join(" "))
            }
        }
    }
    pub fn not(&mut self, a: Ex) -> Ex {
        match self.nd(a) {
            N::K(_, v) => self.k(v ^ 1, 1),
            N::Bin(B::Xor, x, y) if self.is1(y) => x,
            N::Ult(x, y) => self.mk(N::Ule(y, x), 1),
            N::Ule(x, y) => self.mk(N::Ult(y, x), 1),
            N::Slt(x, y) => self.mk(N::Sle(y, x), 1),
            N::Sle(x, y) => self.mk(N::Slt(y, x), 1),
            _ => {
                let one = self.k(1, 1);
                self.mk(N::Bin(B::Xor, a, one), 1)
            }
        }
    }
    pub fn and1(&mut self, a: Ex, b: Ex) -> Ex {
        self.bin(B::And, a, b)
    }
    pub fn zext(&mut self, a: Ex, w: u32) -> Ex {
        let aw = self.width(a);
        if aw == w {
            return a;
        }
        assert!(w > aw);
        match self.nd(a) {
            N::K(_, v) => self.k(v, w),
            N::ZExt(x, _) => self.mk(N::ZExt(x, w), w),
            _ => self.mk(N::ZExt(a, w), w),
        }
    }
    pub fn sext(&mut self, a: Ex, w: u32) -> Ex {
        let aw = self.width(a);
        if aw == w {
            return a;
        }
        match self.nd(a) {
            N::K(_, v) => self.k(sext(v, aw) as u128, w),
            N::SExt(x, _) => self.mk(N::SExt(x, w), w),
            N::ZExt(x, _) => self.mk(N::ZExt(x, w), w),
            _ => self.mk(N::SExt(a, w), w),
        }
    }
    pub fn cat(&mut self, hi: Ex, lo: Ex) -> Ex {
        let (hw, lw) = (self.width(hi), self.width(lo));
        let w = hw + lw;
        match (self.nd(hi), self.nd(lo)) {
            (N::K(_, a), N::K(_, b)) => return self.k((a << lw) | b, w),
            (N::K(_, 0), _) => return self.zext(lo, w),
            // the low piece of arithmetic is narrowed on its own
            (N::Ext(x, h1, l1), N::Bin(..)) if l1 >= lw && self.ext(x, l1 - 1, l1 - lw) == lo => return self.ext(x, h1, l1 - lw),
            (N::Ext(x, h1, l1), N::Ext(y, h2, l2)) if x == y && l1 == h2 + 1 => return self.ext(x, h1, l2),
            (N::Ext(x, h1, l1), N::Cat(m, r)) => {
                if let N::Ext(y, h2, l2) = self.nd(m) {
                    if x == y && l1 == h2 + 1 {
                        let e = self.ext(x, h1, l2);
                        return self.cat(e, r);
                    }
                }
            }
            (N::ZExt(x, _), _) => {
                let c = self.cat(x, lo);
                return self.zext(c, w);
            }
            (N::Ite(c1, a1, b1), N::Ite(c2, a2, b2)) if c1 == c2 => {
                // pieces of a value split into bytes: only when constant arms
                if self.cv(a1).is_some() && self.cv(b1).is_some() && self.cv(a2).is_some() && self.cv(b2).is_some() {
                    let t = self.cat(a1, a2);
                    let f = self.cat(b1, b2);
                    return self.ite(c1, t, f);
                }
            }
            (N::Cat(x, y), _) => {
                // right-assoc
                let r = self.cat(y, lo);
                return self.cat(x, r);
            }
            _ => {}
        }
        self.mk(N::Cat(hi, lo), w)
    }
    pub fn ext(&mut self, a: Ex, hi: u32, lo: u32) -> Ex {
        let aw = self.width(a);
        let w = hi - lo + 1;
        if lo == 0 && w == aw {
            return a;
        }
        assert!(hi < aw);
        match self.nd(a) {
            N::K(_, v) => self.k(v >> lo, w),
            N::Ext(x, _, l2) => self.ext(x, hi + l2, lo + l2),
            N::ZExt(x, _) => {
                let xw = self.width(x);
                if lo >= xw {
                    self.k(0, w)
                } else if hi < xw {
                    self.ext(x, hi, lo)
                } else {
                    let e = self.ext(x, xw - 1, lo);
                    self.zext(e, w)
                }
            }
            N::SExt(x, _) => {
                let xw = self.width(x);
                if hi < xw {
                    self.ext(x, hi, lo)
                } else if lo == 0 {
                    self.sext(x, w)
                } else if lo < xw {
                    let e = self.ext(x, xw - 1, lo);
                    self.sext(e, w)
                } else {
                    let e = self.ext(x, xw - 1, xw - 1);
                    self.sext(e, w)
                }
            }
            N::Cat(h, l) => {
                let lw = self.width(l);
                if lo >= lw {
                    self.ext(h, hi - lw, lo - lw)
                } else if hi < lw {
                    self.ext(l, hi, lo)
                } else {
                    let a1 = self.ext(h, hi - lw, 0);
                    let b1 = self.ext(l, lw - 1, lo);
                    self.cat(a1, b1)
                }
            }
            N::Bin(op @ (B::And | B::Or | B::Xor), x, y) => {
                let p = self.ext(x, hi, lo);
                let q = self.ext(y, hi, lo);
                self.bin(op, p, q)
            }
            N::Bin(op @ (B::Add | B::Sub | B::Mul), x, y) if lo == 0 => {
                let p = self.ext(x, hi, 0);
                let q = self.ext(y, hi, 0);
                self.bin(op, p, q)
            }
            N::Ite(c, x, y) => {
                let p = self.ext(x, hi, lo);
                let q = self.ext(y, hi, lo);
                self.ite(c, p, q)
            }
            N::Tab(t, i) if w <= 64 => {
                let tb = self.tabs[t as usize].clone();
                let v = tb.v.iter().map(|x| mask(*x >> lo, w)).collect();
                self.table(w, v, i)
            }
            _ => self.mk(N::Ext(a, hi, lo), w),
        }
    }
    pub fn ite(&mut self, c: Ex, a: Ex, b: Ex) -> Ex {
        if let Some(k) = self.cv(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.width(a);
        if let N::Bin(B::Xor, x, y) = self.nd(c) {
            if self.is1(y) {
                return self.ite(x, b, a);
            }
        }
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(B::Or, c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(B::And, n, b);
                }
                (None, Some(0)) => return self.bin(B::And, c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(B::Or, n, a);
                }
                _ => {}
            }
        }
        if let N::Ite(c2, x, _) = self.nd(a) {
            if c2 == c {
                return self.ite(c, x, b);
            }
        }
        if let N::Ite(c2, _, y) = self.nd(b) {
            if c2 == c {
                return self.ite(c, a, y);
            }
        }
        self.mk(N::Ite(c, a, b), w)
    }
    /// Upper bound of the unsigned value (cheap).
    pub fn umax(&self, e: Ex) -> u128 {
        let w = self.width(e);
        match self.nd(e) {
            N::K(_, v) => v,
            N::ZExt(x, _) => self.umax(x),
            N::Bin(B::And, x, y) => self.umax(x).min(self.umax(y)),
            N::Bin(B::Add, x, y) => {
                let (a, b) = (self.umax(x), self.umax(y));
                match a.checked_add(b) {
                    Some(s) if s <= mask(u128::MAX, w) => s,
                    _ => mask(u128::MAX, w),
                }
            }
            N::Bin(B::Mul, x, y) => {
                let (a, b) = (self.umax(x), self.umax(y));
                match a.checked_mul(b) {
                    Some(s) if s <= mask(u128::MAX, w) => s,
                    _ => mask(u128::MAX, w),
                }
            }
            N::Bin(B::UDiv, x, y) => match self.cv(y) {
                Some(k) if k > 0 => self.umax(x) / k,
                _ => mask(u128::MAX, w),
            },
            N::Bin(B::URem, x, y) => match self.cv(y) {
                Some(k) if k > 0 => (k - 1).min(self.umax(x)),
                _ => mask(u128::MAX, w),
            },
            N::Ite(_, a, b) => self.umax(a).max(self.umax(b)),
            _ => mask(u128::MAX, w),
        }
    }
    pub fn bin(&mut self, op: B, mut a: Ex, mut b: Ex) -> Ex {
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b));
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            let r = fold(op, x, y, w);
            return self.k(r, w);
        }
        let comm = matches!(op, B::Add | B::Mul | B::And | B::Or | B::Xor);
        if comm && self.cv(a).is_some() {
            std::mem::swap(&mut a, &mut b);
        }
        let kb = self.cv(b);
        let ones = mask(u128::MAX, w);
        match (op, kb) {
            (B::Add | B::Sub | B::Or | B::Xor | B::Shl | B::LShr | B::AShr, Some(0)) => return a,
            (B::Mul | B::And, Some(0)) => return b,
            (B::Mul | B::UDiv | B::SDiv, Some(1)) => return a,
            (B::And, Some(k)) if k == ones => return a,
            (B::Or, Some(k)) if k == ones => return b,
            (B::Sub, Some(k)) => {
                let n = self.k(k.wrapping_neg(), w);
                return self.bin(B::Add, a, n);
            }
            (B::URem, Some(k)) if k.is_power_of_two() => {
                let m = self.k(k - 1, w);
                return self.bin(B::And, a, m);
            }
            (B::UDiv, Some(k)) if k.is_power_of_two() => {
                let m = self.k(k.trailing_zeros() as u128, w);
                return self.bin(B::LShr, a, m);
            }
            (B::Mul, Some(k)) if k.is_power_of_two() => {
                let m = self.k(k.trailing_zeros() as u128, w);
                return self.bin(B::Shl, a, m);
            }
            (B::UDiv, Some(k)) if k > 0 && self.umax(a) < k => return self.k(0, w),
            (B::URem, Some(k)) if k > 0 && self.umax(a) < k => return a,
            (B::Shl, Some(k)) => {
                if k >= w as u128 {
                    return self.k(0, w);
                }
                let k = k as u32;
                let e = self.ext(a, w - 1 - k, 0);
                let z = self.k(0, k);
                return self.cat(e, z);
            }
            (B::LShr, Some(k)) => {
                if k >= w as u128 {
                    return self.k(0, w);
                }
                let e = self.ext(a, w - 1, k as u32);
                return self.zext(e, w);
            }
            (B::AShr, Some(k)) => {
                let k = (k.min(w as u128 - 1)) as u32;
                let e = self.ext(a, w - 1, k);
                return self.sext(e, w);
            }
            (B::And, Some(k)) => {
                let lo = k.trailing_zeros();
                let m = k >> lo;
                if (m & (m + 1)) == 0 {
                    let len = 128 - m.leading_zeros();
                    let e = self.ext(a, lo + len - 1, lo);
                    let e = if lo > 0 {
                        let z = self.k(0, lo);
                        self.cat(e, z)
                    } else {
                        e
                    };
                    return self.zext(e, w);
                }
            }
            (B::Add, Some(k)) => {
                if let N::Bin(B::Add, x, y) = self.nd(a) {
                    if let Some(k2) = self.cv(y) {
                        let s = self.k(k.wrapping_add(k2), w);
                        return self.bin(B::Add, x, s);
                    }
                }
                if let N::Ite(c, x, y) = self.nd(a) {
                    if self.cv(x).is_some() && self.cv(y).is_some() {
                        let p = self.bin(op, x, b);
                        let q = self.bin(op, y, b);
                        return self.ite(c, p, q);
                    }
                }
            }
            (B::Xor, Some(k)) => {
                if w == 1 && k == 1 {
                    return self.not(a);
                }
                if let N::Bin(B::Xor, x, y) = self.nd(a) {
                    if let Some(k2) = self.cv(y) {
                        let s = self.k(k ^ k2, w);
                        return self.bin(B::Xor, x, s);
                    }
                }
            }
            _ => {}
        }
        if a == b {
            match op {
                B::And | B::Or => return a,
                B::Xor | B::Sub => return self.k(0, w),
                _ => {}
            }
        }
        if op == B::Sub {
            // (x + k) - x ; (x+k1)-(x+k2)
            let (ax, ak) = self.addk(a);
            let (bx, bk) = self.addk(b);
            if ax == bx {
                return self.k(ak.wrapping_sub(bk), w);
            }
        }
        if matches!(op, B::Or | B::Add | B::Xor) {
            if let Some(e) = self.merge_disjoint(a, b) {
                return e;
            }
        }
        if w == 1 && op == B::And {
            let na = self.not(a);
            if na == b {
                return self.k(0, 1);
            }
        }
        if w == 1 && op == B::Or {
            let na = self.not(a);
            if na == b {
                return self.k(1, 1);
            }
        }
        if matches!(op, B::And | B::Or | B::Xor) {
            // zext-zext of the same width: operate narrow
            if let (N::ZExt(x, _), N::ZExt(y, _)) = (self.nd(a), self.nd(b)) {
                if self.width(x) == self.width(y) {
                    let e = self.bin(op, x, y);
                    return self.zext(e, w);
                }
            }
            if let (N::ZExt(x, _), Some(k)) = (self.nd(a), kb) {
                let xw = self.width(x);
                if op == B::And || k >> xw == 0 {
                    let kk = self.k(k, xw);
                    let e = self.bin(op, x, kk);
                    return self.zext(e, w);
                }
            }
        }
        if comm && self.cv(b).is_none() && a > b {
            std::mem::swap(&mut a, &mut b);
        }
        self.mk(N::Bin(op, a, b), w)
    }
    fn addk(&self, a: Ex) -> (Ex, u128) {
        if let N::Bin(B::Add, x, y) = self.nd(a) {
            if let Some(k) = self.cv(y) {
                return (x, k);
            }
        }
        (a, 0)
    }
    fn segs(&mut self, e: Ex, lo: u32, out: &mut Vec<(u32, u32, Ex)>) {
        // low to high
        match self.nd(e) {
            N::Cat(h, l) => {
                let lw = self.width(l);
                self.segs(l, lo, out);
                self.segs(h, lo + lw, out);
            }
            N::ZExt(x, w) => {
                let xw = self.width(x);
                self.segs(x, lo, out);
                let z = self.k(0, w - xw);
                out.push((lo + xw, w - xw, z));
            }
            _ => out.push((lo, self.width(e), e)),
        }
    }
    fn merge_disjoint(&mut self, a: Ex, b: Ex) -> Option<Ex> {
        if !matches!(self.nd(a), N::Cat(..) | N::ZExt(..)) || !matches!(self.nd(b), N::Cat(..) | N::ZExt(..) | N::K(..)) {
            return None;
        }
        let (mut sa, mut sb) = (vec![], vec![]);
        self.segs(a, 0, &mut sa);
        self.segs(b, 0, &mut sb);
        let mut cuts: Vec<u32> = sa.iter().chain(sb.iter()).map(|s| s.0).collect();
        cuts.sort();
        cuts.dedup();
        let w = self.width(a);
        cuts.push(w);
        let mut pieces = vec![];
        for c in cuts.windows(2) {
            let (lo, hi) = (c[0], c[1] - 1);
            let pick = |s: &Vec<(u32, u32, Ex)>| *s.iter().find(|x| x.0 <= lo && hi < x.0 + x.1).unwrap();
            let (pa, pb) = (pick(&sa), pick(&sb));
            let ea = self.ext(pa.2, hi - pa.0, lo - pa.0);
            let eb = self.ext(pb.2, hi - pb.0, lo - pb.0);
            if self.cv(eb) == Some(0) {
                pieces.push(ea);
            } else if self.cv(ea) == Some(0) {
                pieces.push(eb);
            } else {
                return None;
            }
        }
        let mut r = pieces[0];
        for p in &pieces[1..] {
            r = self.cat(*p, r);
        }
        Some(r)
    }
    pub fn eq(&mut self, mut a: Ex, mut b: Ex) -> Ex {
        if a == b {
            return self.k(1, 1);
        }
        if self.cv(a).is_some() {
            std::mem::swap(&mut a, &mut b);
        }
        let w = self.width(a);
        if let Some(k) = self.cv(b) {
            match self.nd(a) {
                N::K(_, v) => return self.k((v == k) as u128, 1),
                _ if w == 1 => return if k == 1 { a } else { self.not(a) },
                N::ZExt(x, _) => {
                    let xw = self.width(x);
                    if k >> xw != 0 {
                        return self.k(0, 1);
                    }
                    let kk = self.k(k, xw);
                    return self.eq(x, kk);
                }
                N::SExt(x, _) => {
                    let xw = self.width(x);
                    if mask(sext(k, xw) as u128, w) != k {
                        return self.k(0, 1);
                    }
                    let kk = self.k(k, xw);
                    return self.eq(x, kk);
                }
                N::Cat(h, l) => {
                    let lw = self.width(l);
                    let hk = self.k(k >> lw, w - lw);
                    let lk = self.k(k, lw);
                    let e1 = self.eq(l, lk);
                    if self.cv(e1) == Some(0) {
                        return e1;
                    }
                    let e2 = self.eq(h, hk);
                    return self.bin(B::And, e1, e2);
                }
                N::Bin(B::Add, x, y) => {
                    if let Some(k2) = self.cv(y) {
                        let kk = self.k(k.wrapping_sub(k2), w);
                        return self.eq(x, kk);
                    }
                }
                N::Bin(B::Xor, x, y) => {
                    if let Some(k2) = self.cv(y) {
                        let kk = self.k(k ^ k2, w);
                        return self.eq(x, kk);
                    }
                    if k == 0 {
                        return self.eq(x, y);
                    }
                }
                N::Bin(B::Or, x, y) if k == 0 => {
                    let p = self.eq(x, b);
                    let q = self.eq(y, b);
                    return self.bin(B::And, p, q);
                }
                N::Bin(B::Sub, x, y) if k == 0 => return self.eq(x, y),
                N::Ite(c, x, y) => {
                    let (cx, cy) = (self.cv(x), self.cv(y));
                    if cx.is_some() || cy.is_some() {
                        let p = self.eq(x, b);
                        let q = self.eq(y, b);
                        return self.ite(c, p, q);
                    }
                }
                N::Tab(t, i) => {
                    let tb = self.tabs[t as usize].clone();
                    let v: Vec<u128> = tb.v.iter().map(|x| (*x == k) as u128).collect();
                    return self.table(1, v, i);
                }
                _ => {
                    if self.umax(a) < k {
                        return self.k(0, 1);
                    }
                }
            }
        } else {
            match (self.nd(a), self.nd(b)) {
                (N::ZExt(x, _), N::ZExt(y, _)) => {
                    let (xw, yw) = (self.width(x), self.width(y));
                    if xw == yw {
                        return self.eq(x, y);
                    }
                    let m = xw.max(yw);
                    let x2 = self.zext(x, m);
                    let y2 = self.zext(y, m);
                    if m < w {
                        return self.eq(x2, y2);
                    }
                }
                (N::SExt(x, _), N::SExt(y, _)) if self.width(x) == self.width(y) => return self.eq(x, y),
                (N::Cat(h1, l1), N::Cat(h2, l2)) if self.width(l1) == self.width(l2) => {
                    let p = self.eq(l1, l2);
                    let q = self.eq(h1, h2);
                    return self.bin(B::And, p, q);
                }
                (N::Bin(B::Add, x, y), N::Bin(B::Add, x2, y2)) if y == y2 => return self.eq(x, x2),
                _ => {}
            }
            if w == 1 {
                let x = self.bin(B::Xor, a, b);
                return self.not(x);
            }
            if a > b {
                std::mem::swap(&mut a, &mut b);
            }
        }
        self.mk(N::Eq(a, b), 1)
    }
    pub fn ult(&mut self, a: Ex, b: Ex) -> Ex {
        if a == b {
            return self.k(0, 1);
        }
        let w = self.width(a);
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.k((x < y) as u128, 1),
            (_, Some(0)) => return self.k(0, 1),
            (_, Some(1)) => {
                let z = self.k(0, w);
                return self.eq(a, z);
            }
            (Some(0), _) => {
                let z = self.k(0, w);
                let e = self.eq(b, z);
                return self.not(e);
            }
            (_, Some(k)) if self.umax(a) < k => return self.k(1, 1),
            (Some(k), _) if self.umax(b) <= k => return self.k(0, 1),
            _ => {}
        }
        match (self.nd(a), self.nd(b)) {
            (N::ZExt(x, _), N::ZExt(y, _)) if self.width(x) == self.width(y) => return self.ult(x, y),
            (N::ZExt(x, _), N::K(_, k)) => {
                let xw = self.width(x);
                if k >> xw == 0 {
                    let kk = self.k(k, xw);
                    return self.ult(x, kk);
                }
                return self.k(1, 1);
            }
            (N::K(_, k), N::ZExt(x, _)) => {
                let xw = self.width(x);
                if k >> xw == 0 {
                    let kk = self.k(k, xw);
                    return self.ult(kk, x);
                }
                return self.k(0, 1);
            }
            (N::Ite(c, x, y), N::K(..)) if self.cv(x).is_some() || self.cv(y).is_some() => {
                let p = self.ult(x, b);
                let q = self.ult(y, b);
                return self.ite(c, p, q);
            }
            (N::K(..), N::Ite(c, x, y)) if self.cv(x).is_some() || self.cv(y).is_some() => {
                let p = self.ult(a, x);
                let q = self.ult(a, y);
                return self.ite(c, p, q);
            }
            _ => {}
        }
        self.mk(N::Ult(a, b), 1)
    }
    pub fn ule(&mut self, a: Ex, b: Ex) -> Ex {
        let e = self.ult(b, a);
        self.not(e)
    }
    pub fn slt(&mut self, a: Ex, b: Ex) -> Ex {
        if a == b {
            return self.k(0, 1);
        }
        let w = self.width(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.k((sext(x, w) < sext(y, w)) as u128, 1);
        }
        let half = 1u128 << (w - 1);
        // both known non-negative: unsigned compare
        if self.umax(a) < half && self.umax(b) < half {
            return self.ult(a, b);
        }
        if self.cv(b) == Some(0) {
            // sign bit
            return self.ext(a, w - 1, w - 1);
        }
        if let Some(k) = self.cv(a) {
            if k == mask(u128::MAX, w) {
                let s = self.ext(b, w - 1, w - 1);
                return self.not(s);
            }
        }
        if let (N::SExt(x, _), N::SExt(y, _)) = (self.nd(a), self.nd(b)) {
            if self.width(x) == self.width(y) {
                return self.slt(x, y);
            }
        }
        if let (N::SExt(x, _), Some(k)) = (self.nd(a), self.cv(b)) {
            let xw = self.width(x);
            if mask(sext(k, xw) as u128, w) == k {
                let kk = self.k(k, xw);
                return self.slt(x, kk);
            }
        }
        if let (Some(k), N::SExt(y, _)) = (self.cv(a), self.nd(b)) {
            let yw = self.width(y);
            if mask(sext(k, yw) as u128, w) == k {
                let kk = self.k(k, yw);
                return self.slt(kk, y);
            }
        }
        self.mk(N::Slt(a, b), 1)
    }
    pub fn sle(&mut self, a: Ex, b: Ex) -> Ex {
        let e = self.slt(b, a);
        self.not(e)
    }
    pub fn cmp(&mut self, p: Pred, a: Ex, b: Ex) -> Ex {
        match p {
            Pred::Eq => self.eq(a, b),
            Pred::Ne => {
                let e = self.eq(a, b);
                self.not(e)
            }
            Pred::Ult => self.ult(a, b),
            Pred::Ule => self.ule(a, b),
            Pred::Ugt => self.ult(b, a),
            Pred::Uge => self.ule(b, a),
            Pred::Slt => self.slt(a, b),
            Pred::Sle => self.sle(a, b),
            Pred::Sgt => self.slt(b, a),
            Pred::Sge => self.sle(b, a),
        }
    }
    pub fn kids(&self, e: Ex) -> ([Ex; 3], usize) {
        match self.nd(e) {
            N::K(..) | N::Var(_) => ([0; 3], 0),
            N::Bin(_, a, b) | N::Eq(a, b) | N::Ult(a, b) | N::Ule(a, b) | N::Slt(a, b) | N::Sle(a, b) | N::Cat(a, b) => {
                ([a, b, 0], 2)
            }
            N::Ite(a, b, c) => ([a, b, c], 3),
            N::Ext(a, _, _) | N::ZExt(a, _) | N::SExt(a, _) | N::Tab(_, a) => ([a, 0, 0], 1),
        }
    }
    /// Sorted list of the variables in `e`.
    pub fn support(&mut self, e: Ex) -> Rc<Vec<u32>> {
        if let Some(s) = &self.sup[e as usize] {
            return s.clone();
        }
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if self.sup[x as usize].is_some() {
                stack.pop();
                continue;
            }
            let (k, n) = self.kids(x);
            let mut ready = true;
            for i in 0..n {
                if self.sup[k[i] as usize].is_none() {
                    stack.push(k[i]);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let r = match self.nd(x) {
                N::Var(v) => Rc::new(vec![v]),
                _ if n == 0 => self.empty.clone(),
                _ if n == 1 => self.sup[k[0] as usize].clone().unwrap(),
                _ => {
                    let first = self.sup[k[0] as usize].clone().unwrap();
                    if (1..n).all(|i| {
                        let s = self.sup[k[i] as usize].as_ref().unwrap();
                        s.is_empty() || Rc::ptr_eq(s, &first)
                    }) {
                        first
                    } else {
                        let mut v: Vec<u32> = vec![];
                        for i in 0..n {
                            v.extend(self.sup[k[i] as usize].as_ref().unwrap().iter());
                        }
                        v.sort();
                        v.dedup();
                        Rc::new(v)
                    }
                }
            };
            self.sup[x as usize] = Some(r);
            stack.pop();
        }
        self.sup[e as usize].clone().unwrap()
    }
    /// A straight-line program evaluating the conditions in order; None when
    /// it would be longer than `max`.
    pub fn tape(&mut self, cs: &[Ex], max: usize) -> Option<Tape> {
        self.cur += 1;
        let cur = self.cur;
        let mut t = Tape { ops: vec![], ends: vec![], vars: vec![] };
        let mut slot: HashMap<Ex, u32> = HashMap::new();
        for c in cs {
            let mut stack = vec![*c];
            while let Some(&x) = stack.last() {
                let xi = x as usize;
                if self.stamp[xi] == cur {
                    stack.pop();
                    continue;
                }
                let (k, n) = self.kids(x);
                let mut ready = true;
                for i in 0..n {
                    if self.stamp[k[i] as usize] != cur {
                        stack.push(k[i]);
                        ready = false;
                    }
                }
                if !ready {
                    continue;
                }
                if t.ops.len() >= max {
                    return None;
                }
                let mut a = [0u32; 3];
                for i in 0..n {
                    a[i] = slot[&k[i]];
                }
                if let N::Var(v) = self.n[xi] {
                    t.vars.push((v, t.ops.len() as u32));
                }
                slot.insert(x, t.ops.len() as u32);
                t.ops.push((x, a));
                self.stamp[xi] = cur;
                stack.pop();
            }
            t.ends.push((t.ops.len(), slot[c]));
        }
        Some(t)
    }
    /// Evaluate under an assignment of bytes to variables (missing: 0).
    pub fn eval(&mut self, e: Ex, m: &HashMap<u32, u8>) -> u128 {
        self.cur += 1;
        let cur = self.cur;
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            let xi = x as usize;
            if self.stamp[xi] == cur {
                stack.pop();
                continue;
            }
            let (k, n) = self.kids(x);
            let mut ready = true;
            for i in 0..n {
                if self.stamp[k[i] as usize] != cur {
                    stack.push(k[i]);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let w = self.w[xi];
            let g = |s: &Self, e: Ex| s.memo[e as usize];
            let sx = |s: &Self, e: Ex| sext(s.memo[e as usize], s.w[e as usize]);
            let r = match self.n[xi] {
                N::K(_, v) => v,
                N::Var(v) => *m.get(&v).unwrap_or(&0) as u128,
                N::Bin(op, a, b) => fold(op, g(self, a), g(self, b), w),
                N::Eq(a, b) => (g(self, a) == g(self, b)) as u128,
                N::Ult(a, b) => (g(self, a) < g(self, b)) as u128,
                N::Ule(a, b) => (g(self, a) <= g(self, b)) as u128,
                N::Slt(a, b) => (sx(self, a) < sx(self, b)) as u128,
                N::Sle(a, b) => (sx(self, a) <= sx(self, b)) as u128,
                N::Ite(c, a, b) => {
                    if g(self, c) == 1 {
                        g(self, a)
                    } else {
                        g(self, b)
                    }
                }
                N::Ext(a, _, lo) => mask(g(self, a) >> lo, w),
                N::ZExt(a, _) => g(self, a),
                N::SExt(a, _) => mask(sx(self, a) as u128, w),
                N::Cat(a, b) => (g(self, a) << self.w[b as usize]) | g(self, b),
                N::Tab(t, i) => {
                    let tb = &self.tabs[t as usize];
                    *tb.v.get(g(self, i) as usize).unwrap_or(&0)
                }
            };
            self.memo[xi] = r;
            self.stamp[xi] = cur;
            stack.pop();
        }
        self.memo[e as usize]
    }
}

pub struct Tape {
    ops: Vec<(Ex, [u32; 3])>,
    /// (operations needed, slot of the condition)
    ends: Vec<(usize, u32)>,
    vars: Vec<(u32, u32)>,
}
impl Tape {
    pub fn init(&self, x: &Ctx) -> Vec<u128> {
        self.ops
            .iter()
            .map(|(e, _)| match x.n[*e as usize] {
                N::K(_, v) => v,
                _ => 0,
            })
            .collect()
    }
    pub fn set(&self, m: &mut [u128], v: u32, b: u8) {
        for (w, s) in &self.vars {
            if *w == v {
                m[*s as usize] = b as u128;
            }
        }
    }
    pub fn run(&self, x: &Ctx, m: &mut [u128]) -> bool {
        let mut i = 0;
        for (end, slot) in &self.ends {
            while i < *end {
                let (e, a) = self.ops[i];
                let w = x.w[e as usize];
                let g = |k: usize| m[a[k] as usize];
                let r = match x.n[e as usize] {
                    N::K(..) | N::Var(_) => m[i],
                    N::Bin(op, ..) => fold(op, g(0), g(1), w),
                    N::Eq(..) => (g(0) == g(1)) as u128,
                    N::Ult(..) => (g(0) < g(1)) as u128,
                    N::Ule(..) => (g(0) <= g(1)) as u128,
                    N::Slt(p, q) => (sext(g(0), x.w[p as usize]) < sext(g(1), x.w[q as usize])) as u128,
                    N::Sle(p, q) => (sext(g(0), x.w[p as usize]) <= sext(g(1), x.w[q as usize])) as u128,
                    N::Ite(..) => {
                        if g(0) == 1 {
                            g(1)
                        } else {
                            g(2)
                        }
                    }
                    N::Ext(_, _, lo) => mask(g(0) >> lo, w),
                    N::ZExt(..) => g(0),
                    N::SExt(p, _) => mask(sext(g(0), x.w[p as usize]) as u128, w),
                    N::Cat(_, q) => (g(0) << x.w[q as usize]) | g(1),
                    N::Tab(t, _) => *x.tabs[t as usize].v.get(g(0) as usize).unwrap_or(&0),
                };
                m[i] = r;
                i += 1;
            }
            if m[*slot as usize] != 1 {
                return false;
            }
        }
        true
    }
}

pub fn fold(op: B, a: u128, b: u128, w: u32) -> u128 {
    let r = match op {
        B::Add => a.wrapping_add(b),
        B::Sub => a.wrapping_sub(b),
        B::Mul => a.wrapping_mul(b),
        B::UDiv => {
            if b == 0 {
                u128::MAX
            } else {
                a / b
            }
        }
        B::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        B::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                u128::MAX
            } else {
                x.wrapping_div(y) as u128
            }
        }
        B::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        B::And => a & b,
        B::Or => a | b,
        B::Xor => a ^ b,
        B::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        B::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        B::AShr => (sext(a, w) >> b.min(w as u128 - 1).min(127)) as u128,
        _ => panic!("float fold"),
    };
    mask(r, w)
}
