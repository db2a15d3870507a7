//! Object memory: every allocation is one object; an address is
//! (object id << 32) + offset.  Bytes are concrete or symbolic expressions.
use crate::expr::Ctx;
use crate::ir::*;
use crate::parse::mask;
use std::rc::Rc;

pub const NOSYM: Ex = u32::MAX;
const CH: usize = 64;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Const,
    Global,
    Heap,
    Stack,
    Tls,
}

#[derive(Clone)]
pub struct Obj {
    pub kind: Kind,
    pub d: Vec<u8>,
    pub s: Vec<Ex>, // empty when fully concrete
}

#[derive(Clone)]
pub struct Mem {
    ch: Vec<Rc<Vec<Option<Rc<Obj>>>>>,
    pub next: u32,
    pub live_heap: u64,
}

pub type R<T> = Result<T, String>;

impl Mem {
    pub fn new() -> Self {
        Mem { ch: vec![], next: 1, live_heap: 0 }
    }
    pub fn add(&mut self, kind: Kind, d: Vec<u8>) -> u64 {
        let id = self.next;
        self.next += 1;
        if kind == Kind::Heap {
            self.live_heap += d.len() as u64;
        }
        let o = Rc::new(Obj { kind, d, s: vec![] });
        let (c, i) = (id as usize / CH, id as usize % CH);
        while self.ch.len() <= c {
            self.ch.push(Rc::new(vec![None; CH]));
        }
        Rc::make_mut(&mut self.ch[c])[i] = Some(o);
        (id as u64) << 32
    }
    pub fn free(&mut self, addr: u64) {
        let id = (addr >> 32) as usize;
        let (c, i) = (id / CH, id % CH);
        if let Some(o) = &Rc::make_mut(&mut self.ch[c])[i] {
            if o.kind == Kind::Heap {
                self.live_heap -= o.d.len() as u64;
            }
        }
        Rc::make_mut(&mut self.ch[c])[i] = None;
    }
    pub fn get(&self, id: u64) -> Option<&Obj> {
        let (c, i) = (id as usize / CH, id as usize % CH);
        if c >= self.ch.len() {
            return None;
        }
        self.ch[c][i].as_deref()
    }
    pub fn size(&self, id: u64) -> Option<u64> {
        self.get(id).map(|o| o.d.len() as u64)
    }
    #[inline]
    pub fn chk(&self, a: u64, n: u64, what: &str) -> R<(&Obj, usize)> {
        let id = a >> 32;
        let off = a & 0xffff_ffff;
        match self.get(id) {
            Some(o) if off + n <= o.d.len() as u64 => Ok((o, off as usize)),
            Some(o) => Err(format!("out-of-bounds {} of {} bytes at offset {} of {}-byte {:?} object", what, n, off, o.d.len(), o.kind)),
            None => Err(format!("{} through dangling or null pointer {:#x}", what, a)),
        }
    }
    #[inline]
    fn chk_mut(&mut self, a: u64, n: u64) -> R<(&mut Obj, usize)> {
        let id = (a >> 32) as usize;
        let off = a & 0xffff_ffff;
        {
            let (o, _) = self.chk(a, n, "write")?;
            if o.kind == Kind::Const && n > 0 {
                return Err("write to constant".into());
            }
        }
        let (c, i) = (id / CH, id % CH);
        let o = Rc::make_mut(Rc::make_mut(&mut self.ch[c])[i].as_mut().unwrap());
        Ok((o, off as usize))
    }
    pub fn rd_bytes(&self, a: u64, n: u64) -> R<(Vec<u8>, Option<Vec<Ex>>)> {
        if n == 0 {
            return Ok((vec![], None));
        }
        let (o, f) = self.chk(a, n, "read")?;
        let n = n as usize;
        let s = if o.s.is_empty() || o.s[f..f + n].iter().all(|e| *e == NOSYM) { None } else { Some(o.s[f..f + n].to_vec()) };
        Ok((o.d[f..f + n].to_vec(), s))
    }
    pub fn wr_bytes(&mut self, a: u64, d: &[u8], s: Option<&[Ex]>) -> R<()> {
        if d.is_empty() {
            return Ok(());
        }
        let (o, f) = self.chk_mut(a, d.len() as u64)?;
        o.d[f..f + d.len()].copy_from_slice(d);
        match s {
            Some(s) => {
                if o.s.is_empty() {
                    o.s = vec![NOSYM; o.d.len()];
                }
                o.s[f..f + d.len()].copy_from_slice(s);
            }
            None => {
                if !o.s.is_empty() {
                    for e in &mut o.s[f..f + d.len()] {
                        *e = NOSYM;
                    }
                }
            }
        }
        Ok(())
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (d, s) = self.rd_bytes(src, n)?;
        self.wr_bytes(dst, &d, s.as_deref())
    }
    pub fn rd_u(&self, a: u64, n: u64) -> R<u64> {
        let (o, f) = self.chk(a, n, "read")?;
        if !o.s.is_empty() && o.s[f..f + n as usize].iter().any(|e| *e != NOSYM) {
            return Err("internal: concrete read of symbolic memory".into());
        }
        let mut b = [0u8; 8];
        b[..n as usize].copy_from_slice(&o.d[f..f + n as usize]);
        Ok(u64::from_le_bytes(b))
    }
    pub fn wr_u(&mut self, a: u64, v: u64, n: u64) -> R<()> {
        self.wr_bytes(a, &v.to_le_bytes()[..n as usize], None)
    }
    pub fn load(&self, x: &mut Ctx, a: u64, ty: &Ty) -> R<Val> {
        if ty.is_scalar() {
            let bits = ty.bits();
            let n = (bits as u64 + 7) / 8;
            let (o, f) = self.chk(a, n, "read")?;
            let n = n as usize;
            if o.s.is_empty() || o.s[f..f + n].iter().all(|e| *e == NOSYM) {
                let mut b = [0u8; 16];
                b[..n].copy_from_slice(&o.d[f..f + n]);
                return Ok(Val::C(mask(u128::from_le_bytes(b), bits)));
            }
            let mut e = NOSYM;
            for i in 0..n {
                let be = if o.s[f + i] == NOSYM { x.k(o.d[f + i] as u128, 8) } else { o.s[f + i] };
                e = if i == 0 { be } else { x.cat(be, e) };
            }
            if bits as usize != n * 8 {
                e = x.ext(e, bits - 1, 0);
            }
            return Ok(match x.cv(e) {
                Some(v) => Val::C(v),
                None => Val::S(e),
            });
        }
        let mut v = Vec::with_capacity(ty.nelems());
        for i in 0..ty.nelems() {
            let et = ty.elem(i);
            v.push(self.load(x, a + ty.field_off(i), &et)?);
        }
        Ok(Val::A(Rc::new(v)))
    }
    pub fn store(&mut self, x: &mut Ctx, a: u64, ty: &Ty, v: &Val) -> R<()> {
        if ty.is_scalar() {
            let bits = ty.bits();
            let n = ((bits as u64 + 7) / 8) as usize;
            match v {
                Val::C(c) => {
                    let (o, f) = self.chk_mut(a, n as u64)?;
                    o.d[f..f + n].copy_from_slice(&c.to_le_bytes()[..n]);
                    if !o.s.is_empty() {
                        for e in &mut o.s[f..f + n] {
                            *e = NOSYM;
                        }
                    }
                }
                Val::S(e) => {
                    let e = x.zext(*e, n as u32 * 8);
                    let mut es = [NOSYM; 16];
                    let mut ds = [0u8; 16];
                    for i in 0..n {
                        let b = x.ext(e, i as u32 * 8 + 7, i as u32 * 8);
                        match x.cv(b) {
                            Some(v) => ds[i] = v as u8,
                            None => es[i] = b,
                        }
                    }
                    self.wr_bytes(a, &ds[..n], Some(&es[..n]))?;
                }
                Val::A(_) => return Err("internal: aggregate stored as scalar".into()),
            }
            return Ok(());
        }
        match v {
            Val::A(vs) => {
                for i in 0..ty.nelems() {
                    let et = ty.elem(i);
                    self.store(x, a + ty.field_off(i), &et, &vs[i])?;
                }
                Ok(())
            }
            _ => Err("internal: scalar stored as aggregate".into()),
        }
    }
}
