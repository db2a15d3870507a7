//! Known bits of an expression on one path.
//!
//! An abstraction only used to replace an expression by a constant when every
//! assignment within the path's byte domains gives it that value.
use crate::expr::{Ctx, N};
use crate::ir::{Ex, B};
use crate::parse::mask;
use crate::solver::Dom;
use std::collections::HashMap;

/// (bits known to be zero, bits known to be one)
pub type Kb = (u128, u128);

#[derive(Default)]
pub struct Known {
    memo: HashMap<Ex, (u64, Kb)>,
    pub folded: u64,
}

impl Known {
    pub fn bits(&mut self, x: &Ctx, dom: &HashMap<u32, (Dom, bool)>, ver: u64, e: Ex) -> Kb {
        if let Some((v, k)) = self.memo.get(&e) {
            if *v == ver {
                return *k;
            }
        }
        let w = x.width(e);
        let m = mask(u128::MAX, w);
        let r = match x.n[e as usize] {
            N::K(_, v) => (!v & m, v & m),
            N::Var(i) => match dom.get(&i) {
                Some((d, _)) => {
                    let (mut z, mut o) = (0xffu128, 0xffu128);
                    for k in 0..256usize {
                        if d[k / 64] >> (k % 64) & 1 == 1 {
                            z &= !(k as u128);
                            o &= k as u128;
                        }
                    }
                    (z & 0xff, o & 0xff)
                }
                None => (0, 0),
            },
            N::Bin(op, a, b) => {
                let (za, oa) = self.bits(x, dom, ver, a);
                let (zb, ob) = self.bits(x, dom, ver, b);
                let kb = if zb | ob == m { Some(ob) } else { None };
                match op {
                    B::And => (za | zb, oa & ob),
                    B::Or => (za & zb, oa | ob),
                    B::Xor => ((za & zb) | (oa & ob), (za & ob) | (oa & zb)),
                    B::Add => add(za, oa, zb, ob, 0, w),
                    B::Sub => add(za, oa, ob, zb, 1, w),
                    B::Shl => match kb {
                        Some(k) if k < w as u128 => (((za << k) | mask(u128::MAX, k as u32)) & m, (oa << k) & m),
                        _ => (0, 0),
                    },
                    B::LShr => match kb {
                        Some(k) if k < w as u128 => (((za >> k) | (m & !(m >> k))) & m, oa >> k),
                        _ => (0, 0),
                    },
                    B::AShr => match kb {
                        Some(k) if k < w as u128 => {
                            let top = m & !(m >> k);
                            let s = 1u128 << (w - 1);
                            (
                                (za >> k) & !top | if za & s != 0 { top } else { 0 },
                                (oa >> k) & !top | if oa & s != 0 { top } else { 0 },
                            )
                        }
                        _ => (0, 0),
                    },
                    B::Mul => {
                        if za | oa == m && zb | ob == m {
                            let v = oa.wrapping_mul(ob) & m;
                            (!v & m, v)
                        } else {
                            // trailing zeros add up
                            let t = ((!za & m).trailing_zeros().min(w) + (!zb & m).trailing_zeros().min(w)).min(w);
                            (mask(u128::MAX, t.max(0)) & m, 0)
                        }
                    }
                    _ => (0, 0),
                }
            }
            N::Eq(a, b) => {
                let (za, oa) = self.bits(x, dom, ver, a);
                let (zb, ob) = self.bits(x, dom, ver, b);
                let m = mask(u128::MAX, x.width(a));
                if (za & ob) | (oa & zb) != 0 {
                    (1, 0)
                } else if za | oa == m && zb | ob == m {
                    (0, 1)
                } else {
                    (0, 0)
                }
            }
            N::Ult(a, b) => self.less(x, dom, ver, a, b, false),
            N::Ule(a, b) => self.less(x, dom, ver, a, b, true),
            N::Slt(..) | N::Sle(..) => (0, 0),
            N::Ite(c, a, b) => {
                let (zc, oc) = self.bits(x, dom, ver, c);
                if oc == 1 {
                    self.bits(x, dom, ver, a)
                } else if zc == 1 {
                    self.bits(x, dom, ver, b)
                } else {
                    let (za, oa) = self.bits(x, dom, ver, a);
                    let (zb, ob) = self.bits(x, dom, ver, b);
                    (za & zb, oa & ob)
                }
            }
            N::Ext(a, _, lo) => {
                let (za, oa) = self.bits(x, dom, ver, a);
                ((za >> lo) & m, (oa >> lo) & m)
            }
            N::ZExt(a, _) => {
                let (za, oa) = self.bits(x, dom, ver, a);
                (za | (m & !mask(u128::MAX, x.width(a))), oa)
            }
            N::SExt(a, _) => {
                let (za, oa) = self.bits(x, dom, ver, a);
                let wa = x.width(a);
                let top = m & !mask(u128::MAX, wa);
                let s = 1u128 << (wa - 1);
                (za | if za & s != 0 { top } else { 0 }, oa | if oa & s != 0 { top } else { 0 })
            }
            N::Cat(a, b) => {
                let (za, oa) = self.bits(x, dom, ver, a);
                let (zb, ob) = self.bits(x, dom, ver, b);
                let wb = x.width(b);
                ((za << wb) | zb, (oa << wb) | ob)
            }
            N::Tab(..) => (0, 0),
        };
        self.memo.insert(e, (ver, r));
        r
    }
    fn less(&mut self, x: &Ctx, dom: &HashMap<u32, (Dom, bool)>, ver: u64, a: Ex, b: Ex, eq: bool) -> Kb {
        let (za, oa) = self.bits(x, dom, ver, a);
        let (zb, ob) = self.bits(x, dom, ver, b);
        let m = mask(u128::MAX, x.width(a));
        let (la, ha, lb, hb) = (oa, !za & m, ob, !zb & m);
        if ha < lb || eq && ha <= lb {
            (0, 1)
        } else if la > hb || !eq && la >= hb {
            (1, 0)
        } else {
            (0, 0)
        }
    }
    /// The value of `e` if all its bits are known.
    pub fn value(&mut self, x: &Ctx, dom: &HashMap<u32, (Dom, bool)>, ver: u64, e: Ex) -> Option<u128> {
        let (z, o) = self.bits(x, dom, ver, e);
        if z | o == mask(u128::MAX, x.width(e)) {
            self.folded += 1;
            Some(o)
        } else {
            None
        }
    }
}

fn add(za: u128, oa: u128, zb: u128, ob: u128, carry: u128, w: u32) -> Kb {
    let m = mask(u128::MAX, w);
    // the extreme sums agree with every sum where operand and carry bits are known
    let hi = (!za & m).wrapping_add(!zb & m).wrapping_add(carry);
    let lo = oa.wrapping_add(ob).wrapping_add(carry);
    let cz = !(hi ^ za ^ zb) & m; // carry known to be zero
    let co = (lo ^ oa ^ ob) & m; // carry known to be one
    let known = (za | oa) & (zb | ob) & (cz | co) & m;
    (!lo & known, lo & known)
}
