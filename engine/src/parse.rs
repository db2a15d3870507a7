//! Parser for textual LLVM IR (the subset rustc emits).
use crate::ir::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Loc(String),
    Glo(String),
    Word(String),
    Int(String),
    Flt(String),
    CStr(Vec<u8>),
    Str(String),
    P(u8),
    Label(String),
    Attr,
    Meta,
    Dots,
    Eof,
}

pub struct Lex<'a> {
    s: &'a [u8],
    p: usize,
}

fn idc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lex<'a> {
    fn quoted(&mut self) -> Vec<u8> {
        // at opening quote
        self.p += 1;
        let mut v = vec![];
        while self.s[self.p] != b'"' {
            if self.s[self.p] == b'\\' {
                if self.s[self.p + 1] == b'\\' {
                    v.push(b'\\');
                    self.p += 2;
                } else {
                    let h = std::str::from_utf8(&self.s[self.p + 1..self.p + 3]).unwrap();
                    v.push(u8::from_str_radix(h, 16).unwrap());
                    self.p += 3;
                }
            } else {
                v.push(self.s[self.p]);
                self.p += 1;
            }
        }
        self.p += 1;
        v
    }
    fn name(&mut self) -> String {
        if self.s[self.p] == b'"' {
            String::from_utf8_lossy(&self.quoted()).into_owned()
        } else {
            let b = self.p;
            while self.p < self.s.len() && idc(self.s[self.p]) {
                self.p += 1;
            }
            std::str::from_utf8(&self.s[b..self.p]).unwrap().to_string()
        }
    }
    pub fn next(&mut self) -> T {
        loop {
            if self.p >= self.s.len() {
                return T::Eof;
            }
            let c = self.s[self.p];
            match c {
                b' ' | b'\t' | b'\n' | b'\r' => self.p += 1,
                b';' => {
                    while self.p < self.s.len() && self.s[self.p] != b'\n' {
                        self.p += 1
                    }
                }
                b'/' if self.s[self.p..].starts_with(b"/*") => {
                    while self.p < self.s.len() && !self.s[self.p..].starts_with(b"*/") {
                        self.p += 1
                    }
                    self.p += 2;
                }
                b'%' => {
                    self.p += 1;
                    return T::Loc(self.name());
                }
                b'@' => {
                    self.p += 1;
                    return T::Glo(self.name());
                }
                b'#' => {
                    self.p += 1;
                    let _ = self.name();
                    return T::Attr;
                }
                b'!' => {
                    self.p += 1;
                    if self.p < self.s.len() && (idc(self.s[self.p])) {
                        let _ = self.name();
                    } else if self.p < self.s.len() && self.s[self.p] == b'"' {
                        self.quoted();
                    } else if self.s[self.p] == b'{' {
                        // inline metadata node: skip balanced
                        let mut d = 0;
                        loop {
                            match self.s[self.p] {
                                b'{' => d += 1,
                                b'}' => d -= 1,
                                b'"' => {
                                    self.quoted();
                                    self.p -= 1;
                                }
                                _ => {}
                            }
                            self.p += 1;
                            if d == 0 {
                                break;
                            }
                        }
                    }
                    return T::Meta;
                }
                b'"' => {
                    let q = self.quoted();
                    if self.p < self.s.len() && self.s[self.p] == b':' {
                        self.p += 1;
                        return T::Label(String::from_utf8_lossy(&q).into_owned());
                    }
                    return T::Str(String::from_utf8_lossy(&q).into_owned());
                }
                b'.' if self.s[self.p..].starts_with(b"...") => {
                    self.p += 3;
                    return T::Dots;
                }
                b'(' | b')' | b'[' | b']' | b'{' | b'}' | b'<' | b'>' | b',' | b'=' | b'*'
                | b':' | b'|' => {
                    self.p += 1;
                    return T::P(c);
                }
                _ => {
                    if c == b'c' && self.s.get(self.p + 1) == Some(&b'"') {
                        self.p += 1;
                        return T::CStr(self.quoted());
                    }
                    let b = self.p;
                    if c == b'+' {
                        self.p += 1;
                    }
                    while self.p < self.s.len() && (idc(self.s[self.p]) || self.s[self.p] == b'+') {
                        self.p += 1;
                    }
                    if b == self.p {
                        panic!(
                            "lex: {:?}",
                            String::from_utf8_lossy(&self.s[b..(b + 60).min(self.s.len())])
                        );
                    }
                    let w = std::str::from_utf8(&self.s[b..self.p]).unwrap();
                    if self.p < self.s.len() && self.s[self.p] == b':' {
                        self.p += 1;
                        return T::Label(w.to_string());
                    }
                    if w.starts_with("f0x") {
                        return T::Flt(w.to_string());
                    }
                    let f = w.as_bytes()[0];
                    let isnum = f.is_ascii_digit()
                        || ((f == b'-' || f == b'+') && w.len() > 1 && w.as_bytes()[1].is_ascii_digit());
                    if isnum {
                        if w.contains('.') || w.starts_with("0x") {
                            return T::Flt(w.to_string());
                        }
                        return T::Int(w.to_string());
                    }
                    return T::Word(w.to_string());
                }
            }
        }
    }
}

pub fn toks(s: &[u8]) -> Vec<T> {
    let mut l = Lex { s, p: 0 };
    let mut v = vec![];
    loop {
        let t = l.next();
        if t == T::Eof {
            v.push(T::Eof);
            return v;
        }
        v.push(t);
    }
}

pub struct P<'m> {
    pub t: Vec<T>,
    pub i: usize,
    pub named: &'m HashMap<String, Ty>,
    pub m: Option<&'m Module>,
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
}

pub fn parse_int(s: &str) -> u128 {
    if let Some(r) = s.strip_prefix('-') {
        (r.parse::<u128>().unwrap()).wrapping_neg()
    } else {
        s.parse::<u128>().unwrap()
    }
}

pub fn mask(v: u128, w: u32) -> u128 {
    if w >= 128 {
        v
    } else {
        v & ((1u128 << w) - 1)
    }
}

const CONST_WORDS: &[&str] = &[
    "null", "true", "false", "undef", "poison", "zeroinitializer", "none", "getelementptr",
    "inttoptr", "ptrtoint", "ptrtoaddr", "trunc", "sub", "add", "bitcast", "splat", "blockaddress",
    "+inf", "-inf", "+qnan", "-qnan", "inf", "nan", "qnan", "dso_local_equivalent", "no_cfi", "xor", "mul", "shl", "asm",
];

impl<'m> P<'m> {
    pub fn new(t: Vec<T>, named: &'m HashMap<String, Ty>, m: Option<&'m Module>) -> Self {
        P { t, i: 0, named, m, regs: HashMap::new(), labels: HashMap::new() }
    }
    fn pk(&self) -> &T {
        &self.t[self.i]
    }
    fn nx(&mut self) -> T {
        let t = self.t[self.i].clone();
        self.i += 1;
        t
    }
    fn is(&self, c: u8) -> bool {
        self.t[self.i] == T::P(c)
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.is(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn ex(&mut self, c: u8) {
        if !self.eat(c) {
            panic!("expected {:?} at {:?}", c as char, &self.t[self.i.saturating_sub(12)..(self.i + 6).min(self.t.len())]);
        }
    }
    fn eatw(&mut self, w: &str) -> bool {
        if let T::Word(x) = self.pk() {
            if x == w {
                self.i += 1;
                return true;
            }
        }
        false
    }
    fn bal(&mut self) {
        // at an opening bracket: skip balanced
        let mut d = 0;
        loop {
            match self.nx() {
                T::P(b'(') | T::P(b'[') | T::P(b'{') => d += 1,
                T::P(b')') | T::P(b']') | T::P(b'}') => d -= 1,
                T::Eof => panic!("bal"),
                _ => {}
            }
            if d == 0 {
                return;
            }
        }
    }
    fn is_ty(&self) -> bool {
        match self.pk() {
            T::Word(w) => {
                matches!(w.as_str(), "ptr" | "void" | "float" | "double" | "half" | "x86_fp80" | "label" | "metadata" | "token" | "fp128")
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            T::P(b'{') | T::P(b'[') | T::P(b'<') => true,
            T::Loc(n) => self.named.contains_key(n),
            _ => false,
        }
    }
    pub fn ty(&mut self) -> Ty {
        match self.nx() {
            T::Word(w) => match w.as_str() {
                "ptr" => {
                    if self.eatw("addrspace") {
                        self.bal();
                    }
                    Ty::Ptr
                }
                "void" => Ty::Void,
                "float" => Ty::F32,
                "double" => Ty::F64,
                "label" | "metadata" | "token" | "half" | "x86_fp80" | "fp128" => Ty::Other,
                _ => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {}", w))),
            },
            T::P(b'{') => {
                let mut v = vec![];
                if !self.eat(b'}') {
                    loop {
                        v.push(self.ty());
                        if !self.eat(b',') {
                            break;
                        }
                    }
                    self.ex(b'}');
                }
                Ty::Struct(Rc::new(v), false)
            }
            T::P(b'[') => {
                let n = self.int() as u64;
                assert!(self.eatw("x"));
                let t = self.ty();
                self.ex(b']');
                Ty::Arr(n, Rc::new(t))
            }
            T::P(b'<') => {
                if self.is(b'{') {
                    let t = self.ty();
                    self.ex(b'>');
                    if let Ty::Struct(f, _) = t {
                        Ty::Struct(f, true)
                    } else {
                        unreachable!()
                    }
                } else {
                    let n = self.int() as u32;
                    assert!(self.eatw("x"));
                    let t = self.ty();
                    self.ex(b'>');
                    Ty::Vec(n, Rc::new(t))
                }
            }
            T::Loc(n) => self.named.get(&n).cloned().unwrap_or_else(|| panic!("named type {}", n)),
            t => panic!("type: {:?} near {:?}", t, &self.t[self.i.saturating_sub(10)..(self.i + 6).min(self.t.len())]),
        }
    }
    fn int(&mut self) -> u128 {
        match self.nx() {
            T::Int(s) => parse_int(&s),
            t => panic!("int: {:?}", t),
        }
    }
    fn skip_attrs(&mut self) {
        loop {
            match self.pk().clone() {
                T::Word(w) => {
                    if self.is_ty() || CONST_WORDS.contains(&w.as_str()) {
                        return;
                    }
                    self.i += 1;
                    if w == "align" {
                        if let T::Int(_) = self.pk() {
                            self.i += 1;
                            continue;
                        }
                    }
                    if self.is(b'(') {
                        self.bal();
                    }
                }
                T::Str(_) => {
                    self.i += 1;
                    if self.eat(b'=') {
                        self.i += 1;
                    }
                }
                T::Attr => self.i += 1,
                _ => return,
            }
        }
    }
    pub fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let k = self.regs.len() as u32;
        self.regs.insert(n.to_string(), k);
        k
    }
    fn gsym(&self, n: &str) -> u64 {
        let m = self.m.expect("module");
        let mut n = n;
        if let Some(a) = m.aliases.get(n) {
            n = a;
        }
        if let Some(g) = m.gnames.get(n) {
            m.gaddr(*g)
        } else if let Some(f) = m.fnames.get(n) {
            m.faddr(*f)
        } else {
            panic!("unknown global {}", n)
        }
    }
    /// constant of type `ty`
    pub fn cval(&mut self, ty: &Ty) -> Val {
        match self.nx() {
            T::Int(s) => Val::C(mask(parse_int(&s), ty.bits())),
            // the bits of a float
            T::Flt(s) if s.starts_with("f0x") => {
                let v = u64::from_str_radix(&s[3..], 16).unwrap_or_else(|_| panic!("float {}", s));
                match ty {
                    Ty::F32 if s.len() > 11 => Val::C((f64::from_bits(v) as f32).to_bits() as u128),
                    _ => Val::C(v as u128),
                }
            }
            T::Flt(s) => {
                let d: f64 = if let Some(h) = s.strip_prefix("0x") {
                    f64::from_bits(u64::from_str_radix(h, 16).unwrap_or_else(|_| panic!("float {}", s)))
                } else {
                    s.parse().unwrap()
                };
                match ty {
                    Ty::F32 => Val::C((d as f32).to_bits() as u128),
                    _ => Val::C(d.to_bits() as u128),
                }
            }
            T::Glo(n) => Val::C(self.gsym(&n) as u128),
            T::CStr(b) => Val::A(Rc::new(b.into_iter().map(|x| Val::C(x as u128)).collect())),
            T::P(b'[') => {
                let mut v = vec![];
                if !self.eat(b']') {
                    loop {
                        let t = self.ty();
                        v.push(self.cval(&t));
                        if !self.eat(b',') {
                            break;
                        }
                    }
                    self.ex(b']');
                }
                Val::A(Rc::new(v))
            }
            T::P(b'{') => {
                let mut v = vec![];
                if !self.eat(b'}') {
                    loop {
                        let t = self.ty();
                        v.push(self.cval(&t));
                        if !self.eat(b',') {
                            break;
                        }
                    }
                    self.ex(b'}');
                }
                Val::A(Rc::new(v))
            }
            T::P(b'<') => {
                // vector or packed struct
                if self.is(b'{') {
                    let v = self.cval(ty);
                    self.ex(b'>');
                    return v;
                }
                let mut v = vec![];
                loop {
                    let t = self.ty();
                    v.push(self.cval(&t));
                    if !self.eat(b',') {
                        break;
                    }
                }
                self.ex(b'>');
                Val::A(Rc::new(v))
            }
            T::Word(w) => match w.as_str() {
                "null" | "none" | "false" => Val::C(0),
                "true" => Val::C(1),
                "undef" | "poison" | "zeroinitializer" => zero(ty),
                "splat" => {
                    self.ex(b'(');
                    let t = self.ty();
                    let v = self.cval(&t);
                    self.ex(b')');
                    Val::A(Rc::new(vec![v; ty.nelems()]))
                }
                "getelementptr" => {
                    self.flags();
                    self.ex(b'(');
                    let src = self.ty();
                    self.ex(b',');
                    let bt = self.ty();
                    let base = self.cval(&bt).c().unwrap();
                    let mut addr = base as u64;
                    let mut cur: Option<Ty> = None;
                    while self.eat(b',') {
                        self.skip_attrs();
                        let it = self.ty();
                        let k = self.cval(&it).c().unwrap();
                        let k = sext(k, it.bits()) as i64;
                        match cur.take() {
                            None => {
                                addr = addr.wrapping_add((k.wrapping_mul(src.size() as i64)) as u64);
                                cur = Some(src.clone());
                            }
                            Some(t) => {
                                addr = match &t {
                                    Ty::Struct(..) => addr.wrapping_add(t.field_off(k as usize)),
                                    _ => addr.wrapping_add((k.wrapping_mul(t.elem(0).size() as i64)) as u64),
                                };
                                cur = Some(t.elem(if let Ty::Struct(..) = t { k as usize } else { 0 }));
                            }
                        }
                    }
                    self.ex(b')');
                    Val::C(addr as u128)
                }
                "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "trunc" => {
                    self.ex(b'(');
                    let t = self.ty();
                    let v = self.cval(&t);
                    assert!(self.eatw("to"));
                    let t2 = self.ty();
                    self.ex(b')');
                    match v {
                        Val::C(c) => Val::C(mask(c, t2.bits())),
                        v => v,
                    }
                }
                "add" | "sub" | "xor" | "mul" => {
                    while !self.is(b'(') {
                        self.i += 1;
                    }
                    self.ex(b'(');
                    let t = self.ty();
                    let a = self.cval(&t).c().unwrap();
                    self.ex(b',');
                    let t2 = self.ty();
                    let b = self.cval(&t2).c().unwrap();
                    self.ex(b')');
                    let r = match w.as_str() {
                        "add" => a.wrapping_add(b),
                        "sub" => a.wrapping_sub(b),
                        "mul" => a.wrapping_mul(b),
                        _ => a ^ b,
                    };
                    Val::C(mask(r, t.bits()))
                }
                "+inf" | "-inf" | "+qnan" | "-qnan" | "inf" | "nan" | "qnan" => {
                    if self.is(b'(') {
                        self.bal();
                    }
                    let d = match w.as_str() {
                        "+inf" | "inf" => f64::INFINITY,
                        "-inf" => f64::NEG_INFINITY,
                        "-qnan" => -f64::NAN,
                        _ => f64::NAN,
                    };
                    match ty {
                        Ty::F32 => Val::C((d as f32).to_bits() as u128),
                        _ => Val::C(d.to_bits() as u128),
                    }
                }
                _ => panic!("const word {} near {:?}", w, &self.t[self.i.saturating_sub(10)..(self.i + 6).min(self.t.len())]),
            },
            t => panic!("const: {:?} near {:?}", t, &self.t[self.i.saturating_sub(10)..(self.i + 6).min(self.t.len())]),
        }
    }
    fn op(&mut self, ty: &Ty) -> Op {
        if let T::Loc(n) = self.pk().clone() {
            self.i += 1;
            return Op::R(self.reg(&n));
        }
        if *ty == Ty::Other {
            // metadata argument etc.
            match self.nx() {
                T::Meta => {
                    if self.is(b'(') {
                        self.bal();
                    }
                }
                T::Word(_) => {
                    if self.is(b'(') {
                        self.bal();
                    }
                }
                _ => {}
            }
            return Op::K(Val::C(0));
        }
        Op::K(self.cval(ty))
    }
    fn tyop(&mut self) -> (Ty, Op) {
        let t = self.ty();
        self.skip_attrs();
        let o = self.op(&t);
        (t, o)
    }
    fn skip_md(&mut self) {
        // , !name !N   /  , align N  already handled by callers for load/store
        while self.is(b',') && self.t[self.i + 1] == T::Meta {
            self.i += 2;
            if let T::Meta = self.pk() {
                self.i += 1;
            }
        }
    }
    fn lab(&mut self) -> u32 {
        // "label %x"
        assert!(self.eatw("label"), "label at {:?}", &self.t[self.i.saturating_sub(10)..(self.i + 6).min(self.t.len())]);
        if let T::Loc(n) = self.nx() {
            *self.labels.get(&n).unwrap_or_else(|| panic!("label {}", n))
        } else {
            panic!("label")
        }
    }
    fn edge(&mut self) -> Edge {
        Edge { to: self.lab(), moves: vec![] }
    }
    fn flags(&mut self) {
        while let T::Word(w) = self.pk() {
            match w.as_str() {
                "nuw" | "nsw" | "exact" | "inbounds" | "nneg" | "samesign" | "disjoint" | "nnan" | "ninf" | "nsz"
                | "arcp" | "contract" | "afn" | "reassoc" | "fast" | "volatile" | "nusw" | "weak" => self.i += 1,
                "inrange" => {
                    self.i += 1;
                    self.bal();
                }
                _ => return,
            }
        }
    }

    pub fn func(&mut self, id: u32, name: &str) -> Func {
        // tokens start right after "define"
        self.skip_attrs_define();
        let _ret = self.ty();
        match self.nx() {
            T::Glo(_) => {}
            t => panic!("func name {:?}", t),
        }
        self.ex(b'(');
        let mut params = vec![];
        let mut anon = 0;
        if !self.eat(b')') {
            loop {
                if let T::Dots = self.pk() {
                    self.i += 1;
                } else {
                    let _t = self.ty();
                    self.skip_attrs();
                    if let T::Loc(n) = self.pk().clone() {
                        self.i += 1;
                        let r = self.reg(&n);
                        params.push(r);
                        if n.parse::<u32>().is_ok() {
                            anon += 1;
                        }
                    } else {
                        let r = self.reg(&format!("{}", anon));
                        params.push(r);
                        anon += 1;
                    }
                }
                if !self.eat(b',') {
                    break;
                }
            }
            self.ex(b')');
        }
        while !self.is(b'{') {
            // attributes / personality; personality has "ptr @x"
            self.i += 1;
        }
        self.ex(b'{');
        // collect labels
        let start = self.i;
        let mut nlab = 0;
        let mut first_label = None;
        if let T::Label(l) = self.pk() {
            first_label = Some(l.clone());
        }
        if first_label.is_none() {
            // unnamed entry block: number = anon
            self.labels.insert(format!("{}", anon), 0);
            nlab = 1;
        }
        for k in start..self.t.len() {
            if let T::Label(l) = &self.t[k] {
                self.labels.insert(l.clone(), nlab);
                nlab += 1;
            }
        }
        let mut blocks: Vec<Block> = vec![];
        let mut phis: Vec<Vec<(u32, Vec<(Op, u32)>)>> = vec![];
        if first_label.is_none() {
            blocks.push(Block { ins: vec![] });
            phis.push(vec![]);
        }
        loop {
            if self.eat(b'}') {
                break;
            }
            if let T::Label(_) = self.pk() {
                self.i += 1;
                blocks.push(Block { ins: vec![] });
                phis.push(vec![]);
                continue;
            }
            let before = self.i;
            let cur = blocks.len() - 1;
            match self.instr() {
                Ok(Some(ins)) => blocks[cur].ins.push(ins),
                Ok(None) => {}
                Err((d, inc)) => phis[cur].push((d, inc)),
            }
            assert!(self.i > before);
        }
        // phi moves onto edges
        for b in 0..blocks.len() {
            let fix = |e: &mut Edge| {
                for (d, inc) in &phis[e.to as usize] {
                    let (o, _) = inc.iter().find(|(_, p)| *p == b as u32).expect("phi incoming");
                    e.moves.push((*d, o.clone()));
                }
            };
            if let Some(l) = blocks[b].ins.last_mut() {
                match l {
                    I::Br(e) => fix(e),
                    I::CondBr { t, f, .. } => {
                        fix(t);
                        fix(f)
                    }
                    I::Switch { cases, def, .. } => {
                        for (_, e) in cases.iter_mut() {
                            fix(e)
                        }
                        fix(def)
                    }
                    I::Call(c) => {
                        if let Some((a, u)) = &mut c.inv {
                            fix(a);
                            fix(u);
                        }
                    }
                    _ => {}
                }
            }
        }
        Func { id, name: name.to_string(), nregs: self.regs.len() as u32, params, blocks }
    }
    fn skip_attrs_define(&mut self) {
        loop {
            if self.is_ty() {
                return;
            }
            match self.nx() {
                T::Word(w) => {
                    if w == "align" {
                        if let T::Int(_) = self.pk() {
                            self.i += 1;
                        }
                    } else if self.is(b'(') {
                        self.bal();
                    }
                }
                T::Str(_) | T::Attr => {}
                t => panic!("define attr {:?}", t),
            }
        }
    }

    /// Ok(Some) instruction, Ok(None) nothing, Err phi
    fn instr(&mut self) -> Result<Option<I>, (u32, Vec<(Op, u32)>)> {
        let mut dst: Option<u32> = None;
        if let T::Loc(n) = self.pk().clone() {
            self.i += 1;
            self.ex(b'=');
            dst = Some(self.reg(&n));
        }
        let w = match self.nx() {
            T::Word(w) => w,
            T::Attr => {
                // debug record "#dbg_value(...)"
                if self.is(b'(') {
                    self.bal();
                }
                return Ok(None);
            }
            t => panic!("instr {:?} near {:?}", t, &self.t[self.i.saturating_sub(20)..(self.i + 6).min(self.t.len())]),
        };
        let d = || dst.expect("dst");
        let r = match w.as_str() {
            "alloca" => {
                let ty = self.ty();
                let mut n = None;
                while self.is(b',') && self.t[self.i + 1] != T::Meta {
                    self.i += 1;
                    if self.eatw("align") {
                        self.int();
                    } else if self.eatw("addrspace") {
                        self.bal();
                    } else {
                        n = Some(self.tyop().1);
                    }
                }
                I::Alloca { dst: d(), size: ty.size(), n }
            }
            "load" => {
                self.eatw("atomic");
                self.flags();
                let ty = self.ty();
                self.ex(b',');
                let (_, p) = self.tyop();
                self.mem_tail();
                I::Load { dst: d(), ty, p }
            }
            "store" => {
                self.eatw("atomic");
                self.flags();
                let (ty, v) = self.tyop();
                self.ex(b',');
                let (_, p) = self.tyop();
                self.mem_tail();
                I::Store { ty, v, p }
            }
            "getelementptr" => {
                self.flags();
                let src = self.ty();
                self.ex(b',');
                let (_, base) = self.tyop();
                let mut off: i64 = 0;
                let mut idx = vec![];
                let mut cur: Option<Ty> = None;
                while self.is(b',') && self.t[self.i + 1] != T::Meta {
                    self.i += 1;
                    let (it, o) = self.tyop();
                    let scale;
                    match cur.take() {
                        None => {
                            scale = src.size() as i64;
                            cur = Some(src.clone());
                        }
                        Some(t) => {
                            if let Ty::Struct(..) = t {
                                let k = match &o {
                                    Op::K(Val::C(c)) => *c as usize,
                                    _ => panic!("gep struct"),
                                };
                                off += t.field_off(k) as i64;
                                cur = Some(t.elem(k));
                                continue;
                            }
                            scale = t.elem(0).size() as i64;
                            cur = Some(t.elem(0));
                        }
                    }
                    match o {
                        Op::K(Val::C(c)) => off = off.wrapping_add((sext(c, it.bits()) as i64).wrapping_mul(scale)),
                        o => idx.push((o, it.bits(), scale)),
                    }
                }
                I::Gep { dst: d(), base, off, idx }
            }
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr"
            | "ashr" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.flags();
                let (ty, a) = self.tyop();
                self.ex(b',');
                let b = self.op(&ty);
                let op = match w.as_str() {
                    "add" => B::Add,
                    "sub" => B::Sub,
                    "mul" => B::Mul,
                    "udiv" => B::UDiv,
                    "sdiv" => B::SDiv,
                    "urem" => B::URem,
                    "srem" => B::SRem,
                    "and" => B::And,
                    "or" => B::Or,
                    "xor" => B::Xor,
                    "shl" => B::Shl,
                    "lshr" => B::LShr,
                    "ashr" => B::AShr,
                    "fadd" => B::FAdd,
                    "fsub" => B::FSub,
                    "fmul" => B::FMul,
                    "fdiv" => B::FDiv,
                    _ => B::FRem,
                };
                I::Bin { dst: d(), op, ty, a, b }
            }
            "fneg" => {
                self.flags();
                let (ty, a) = self.tyop();
                I::FNeg { dst: d(), ty, a }
            }
            "icmp" => {
                self.flags();
                let p = match self.nx() {
                    T::Word(w) => match w.as_str() {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        _ => panic!("pred {}", w),
                    },
                    t => panic!("pred {:?}", t),
                };
                let (ty, a) = self.tyop();
                self.ex(b',');
                let b = self.op(&ty);
                I::Icmp { dst: d(), p, ty, a, b }
            }
            "fcmp" => {
                self.flags();
                let p = match self.nx() {
                    T::Word(w) => w,
                    t => panic!("pred {:?}", t),
                };
                let (ty, a) = self.tyop();
                self.ex(b',');
                let b = self.op(&ty);
                I::Fcmp { dst: d(), p, ty, a, b }
            }
            "select" => {
                self.flags();
                let (cty, c) = self.tyop();
                self.ex(b',');
                let (ty, a) = self.tyop();
                self.ex(b',');
                let (_, b) = self.tyop();
                I::Select { dst: d(), cty, ty, c, a, b }
            }
            "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "fptoui" | "fptosi" | "uitofp"
            | "sitofp" | "fpext" | "fptrunc" => {
                self.flags();
                let (from, a) = self.tyop();
                assert!(self.eatw("to"));
                let to = self.ty();
                let k = match w.as_str() {
                    "zext" => CastK::ZExt,
                    "sext" => CastK::SExt,
                    "trunc" => CastK::Trunc,
                    "bitcast" => CastK::BitCast,
                    "ptrtoint" | "ptrtoaddr" | "inttoptr" => {
                        let (f, t) = (from.bits(), to.bits());
                        if t < f {
                            CastK::Trunc
                        } else if t > f {
                            CastK::ZExt
                        } else {
                            CastK::BitCast
                        }
                    }
                    "fptoui" => CastK::FpToUi,
                    "fptosi" => CastK::FpToSi,
                    "uitofp" => CastK::UiToFp,
                    "sitofp" => CastK::SiToFp,
                    "fpext" => CastK::FpExt,
                    _ => CastK::FpTrunc,
                };
                I::Cast { dst: d(), k, from, to, a }
            }
            "phi" => {
                self.flags();
                let ty = self.ty();
                let mut v = vec![];
                loop {
                    self.ex(b'[');
                    let o = self.op(&ty);
                    self.ex(b',');
                    let l = match self.nx() {
                        T::Loc(n) => *self.labels.get(&n).unwrap_or_else(|| panic!("label {}", n)),
                        _ => panic!(),
                    };
                    self.ex(b']');
                    v.push((o, l));
                    if self.is(b',') && self.t[self.i + 1] == T::P(b'[') {
                        self.i += 1;
                        continue;
                    }
                    break;
                }
                self.skip_md();
                return Err((d(), v));
            }
            "br" => {
                if let T::Word(w) = self.pk() {
                    if w == "label" {
                        let e = self.edge();
                        self.skip_md();
                        return Ok(Some(I::Br(e)));
                    }
                }
                let (_, c) = self.tyop();
                self.ex(b',');
                let t = self.edge();
                self.ex(b',');
                let f = self.edge();
                I::CondBr { c, t, f }
            }
            "switch" => {
                let (ty, v) = self.tyop();
                self.ex(b',');
                let def = self.edge();
                self.ex(b'[');
                let mut cases = vec![];
                while !self.eat(b']') {
                    let t = self.ty();
                    let c = self.cval(&t).c().unwrap();
                    self.ex(b',');
                    let e = self.edge();
                    cases.push((c, e));
                }
                I::Switch { w: ty.bits(), v, cases, def }
            }
            "ret" => {
                let t = self.ty();
                if t == Ty::Void {
                    I::Ret(None)
                } else {
                    let o = self.op(&t);
                    I::Ret(Some((t, o)))
                }
            }
            "tail" | "musttail" | "notail" => {
                self.i += 0;
                match self.nx() {
                    T::Word(w) if w == "call" => {}
                    t => panic!("tail {:?}", t),
                }
                self.call(dst, false)
            }
            "call" => self.call(dst, false),
            "invoke" => self.call(dst, true),
            "landingpad" => {
                let _t = self.ty();
                let mut catch = false;
                loop {
                    if self.eatw("cleanup") {
                        continue;
                    }
                    if self.eatw("catch") {
                        catch = true;
                        self.tyop();
                        continue;
                    }
                    if self.eatw("filter") {
                        self.tyop();
                        continue;
                    }
                    break;
                }
                I::LandingPad { dst: d(), catch }
            }
            "resume" => {
                let (_, v) = self.tyop();
                I::Resume { v }
            }
            "unreachable" => I::Unreachable,
            "extractvalue" => {
                let (_, a) = self.tyop();
                let mut idx = vec![];
                while self.is(b',') && self.t[self.i + 1] != T::Meta {
                    self.i += 1;
                    idx.push(self.int() as u32);
                }
                I::ExtractValue { dst: d(), a, idx }
            }
            "insertvalue" => {
                let (ty, a) = self.tyop();
                self.ex(b',');
                let (_, v) = self.tyop();
                let mut idx = vec![];
                while self.is(b',') && self.t[self.i + 1] != T::Meta {
                    self.i += 1;
                    idx.push(self.int() as u32);
                }
                I::InsertValue { dst: d(), ty, a, v, idx }
            }
            "cmpxchg" => {
                self.flags();
                let (_, p) = self.tyop();
                self.ex(b',');
                let (ty, cmp) = self.tyop();
                self.ex(b',');
                let (_, new) = self.tyop();
                self.mem_tail();
                I::CmpXchg { dst: d(), ty, p, cmp, new }
            }
            "atomicrmw" => {
                self.flags();
                let op = match self.nx() {
                    T::Word(w) => match w.as_str() {
                        "xchg" => Rmw::Xchg,
                        "add" => Rmw::Add,
                        "sub" => Rmw::Sub,
                        "and" => Rmw::And,
                        "nand" => Rmw::Nand,
                        "or" => Rmw::Or,
                        "xor" => Rmw::Xor,
                        "max" => Rmw::Max,
                        "min" => Rmw::Min,
                        "umax" => Rmw::UMax,
                        "umin" => Rmw::UMin,
                        _ => panic!("rmw {}", w),
                    },
                    _ => panic!(),
                };
                let (_, p) = self.tyop();
                self.ex(b',');
                let (ty, v) = self.tyop();
                self.mem_tail();
                I::AtomicRmw { dst: d(), op, ty, p, v }
            }
            "fence" => {
                self.mem_tail();
                I::Fence
            }
            "freeze" => {
                let (_, a) = self.tyop();
                I::Mov { dst: d(), a }
            }
            "extractelement" => {
                let (_, a) = self.tyop();
                self.ex(b',');
                let (_, i) = self.tyop();
                I::ExtractElement { dst: d(), a, i }
            }
            "insertelement" => {
                let (ty, a) = self.tyop();
                self.ex(b',');
                let (_, v) = self.tyop();
                self.ex(b',');
                let (_, i) = self.tyop();
                I::InsertElement { dst: d(), n: ty.nelems() as u32, a, v, i }
            }
            "shufflevector" => {
                let (ty, a) = self.tyop();
                self.ex(b',');
                let (_, b) = self.tyop();
                self.ex(b',');
                let (mt, mo) = self.tyop();
                let mask = match mo {
                    Op::K(Val::A(v)) => v.iter().map(|x| x.c().unwrap() as u32 as i32 as i64).collect(),
                    _ => vec![0; mt.nelems()],
                };
                I::Shuffle { dst: d(), a, b, n: ty.nelems() as u32, mask }
            }
            _ => panic!("instruction {} near {:?}", w, &self.t[self.i.saturating_sub(10)..(self.i + 10).min(self.t.len())]),
        };
        self.skip_md();
        Ok(Some(r))
    }
    fn mem_tail(&mut self) {
        // [syncscope("..")] [ordering [ordering]] [, align N] [, !md]
        loop {
            match self.pk().clone() {
                T::Word(w) if matches!(w.as_str(), "monotonic" | "acquire" | "release" | "acq_rel" | "seq_cst" | "unordered") => {
                    self.i += 1
                }
                T::Word(w) if w == "syncscope" => {
                    self.i += 1;
                    self.bal();
                }
                T::P(b',') => {
                    if let T::Word(w) = &self.t[self.i + 1] {
                        if w == "align" {
                            self.i += 3;
                            continue;
                        }
                    }
                    break;
                }
                _ => break,
            }
        }
    }
    fn call(&mut self, dst: Option<u32>, inv: bool) -> I {
        self.flags();
        // cconv, ret attrs
        loop {
            if self.is_ty() {
                break;
            }
            match self.nx() {
                T::Word(w) => {
                    if w == "align" {
                        if let T::Int(_) = self.pk() {
                            self.i += 1;
                        }
                    } else if self.is(b'(') {
                        self.bal();
                    }
                }
                T::Attr | T::Str(_) => {}
                t => panic!("call attr {:?}", t),
            }
        }
        let ret = self.ty();
        if self.is(b'(') {
            // function type
            self.bal();
        }
        let callee = match self.pk().clone() {
            T::Glo(n) => {
                self.i += 1;
                let m = self.m.unwrap();
                let n2 = m.aliases.get(&n).cloned().unwrap_or(n);
                Callee::Func(*m.fnames.get(&n2).unwrap_or_else(|| panic!("callee {}", n2)))
            }
            T::Loc(n) => {
                self.i += 1;
                Callee::Ptr(Op::R(self.reg(&n)))
            }
            T::Word(w) if w == "asm" => {
                self.i += 1;
                let mut s = String::new();
                loop {
                    match self.pk().clone() {
                        T::Str(x) => {
                            s = x;
                            self.i += 1;
                            break;
                        }
                        _ => self.i += 1,
                    }
                }
                self.ex(b',');
                self.i += 1;
                Callee::Asm(s)
            }
            _ => {
                let o = self.op(&Ty::Ptr);
                Callee::Ptr(o)
            }
        };
        self.ex(b'(');
        let mut args = vec![];
        if !self.eat(b')') {
            loop {
                let t = self.ty();
                self.skip_attrs();
                let o = self.op(&t);
                args.push((t, o));
                if !self.eat(b',') {
                    break;
                }
            }
            self.ex(b')');
        }
        loop {
            match self.pk() {
                T::Attr => {
                    // could be a following debug record: "#dbg_..(" — those are followed by '('
                    if self.t[self.i + 1] == T::P(b'(') {
                        break;
                    }
                    self.i += 1
                }
                T::P(b'[') => self.bal(),
                _ => break,
            }
        }
        let inv = if inv {
            assert!(self.eatw("to"));
            let a = self.edge();
            assert!(self.eatw("unwind"));
            let b = self.edge();
            Some((a, b))
        } else {
            None
        };
        I::Call(Box::new(CallI { dst, ret, callee, args, inv }))
    }
}

pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let s = 128 - w;
    ((v << s) as i128) >> s
}

pub fn zero(ty: &Ty) -> Val {
    match ty {
        Ty::Struct(fs, _) => Val::A(Rc::new(fs.iter().map(zero).collect())),
        Ty::Arr(n, t) => Val::A(Rc::new(vec![zero(t); *n as usize])),
        Ty::Vec(n, t) => Val::A(Rc::new(vec![zero(t); *n as usize])),
        _ => Val::C(0),
    }
}

pub fn flatten(ty: &Ty, v: &Val, out: &mut [u8]) {
    match (ty, v) {
        (Ty::Struct(..), Val::A(a)) | (Ty::Arr(..), Val::A(a)) | (Ty::Vec(..), Val::A(a)) => {
            for (i, x) in a.iter().enumerate() {
                let o = ty.field_off(i) as usize;
                let e = ty.elem(i);
                let n = e.size() as usize;
                flatten(&e, x, &mut out[o..o + n]);
            }
        }
        (_, Val::C(c)) => {
            let n = ty.size() as usize;
            out[..n].copy_from_slice(&c.to_le_bytes()[..n]);
        }
        _ => panic!("flatten {:?}", ty),
    }
}

pub fn load_module(text: Vec<u8>) -> Module {
    let mut m = Module {
        text: vec![],
        named: HashMap::new(),
        globals: vec![],
        gnames: HashMap::new(),
        funcs: vec![],
        fnames: HashMap::new(),
        aliases: HashMap::new(),
    };
    // pass 1: names
    let mut gl: Vec<(usize, usize)> = vec![];
    let mut tylines = vec![];
    let mut declrets: Vec<(u32, usize, usize)> = vec![];
    let mut p = 0;
    let n = text.len();
    while p < n {
        let e = text[p..].iter().position(|c| *c == b'\n').map(|k| p + k).unwrap_or(n);
        let line = &text[p..e];
        if line.starts_with(b"@") {
            let mut l = Lex { s: line, p: 1 };
            let name = l.name();
            // alias?
            let rest = String::from_utf8_lossy(&line[l.p..(l.p + 120).min(line.len())]).into_owned();
            let words: Vec<&str> = rest.split_whitespace().collect();
            let is_alias = words.iter().take(6).any(|w| *w == "alias");
            if is_alias {
                let t = toks(line);
                let mut tgt = None;
                for x in t.iter().skip(1) {
                    if let T::Glo(g) = x {
                        tgt = Some(g.clone());
                    }
                }
                m.aliases.insert(name, tgt.unwrap());
            } else {
                let k = m.globals.len() as u32;
                m.gnames.insert(name.clone(), k);
                m.globals.push(GlobalVar { name, ty: Ty::Void, tls: false, constant: false, init: None });
                gl.push((p + l.p, e));
            }
        } else if line.starts_with(b"define ") || line.starts_with(b"declare ") {
            let at = line.iter().position(|c| *c == b'@').unwrap();
            let mut l = Lex { s: line, p: at + 1 };
            let name = l.name();
            let k = m.funcs.len() as u32;
            m.fnames.insert(name.clone(), k);
            let mut body = None;
            let mut end = e;
            if line.starts_with(b"define ") {
                let mut q = e + 1;
                loop {
                    let e2 = text[q..].iter().position(|c| *c == b'\n').map(|k| q + k).unwrap_or(n);
                    if &text[q..e2] == b"}" {
                        end = e2;
                        break;
                    }
                    q = e2 + 1;
                }
                body = Some((p + 7, end));
            } else {
                declrets.push((k, p + 8, e));
            }
            m.funcs.push(FuncDecl { name, body, ret: Ty::Void });
            p = end + 1;
            continue;
        } else if line.starts_with(b"%") {
            tylines.push((p, e));
        }
        p = e + 1;
    }
    for (a, b) in tylines {
        let t = toks(&text[a..b]);
        if let T::Loc(nm) = t[0].clone() {
            let mut named = std::mem::take(&mut m.named);
            {
                let ty = {
                    let mut ps = P::new(t, &named, None);
                    ps.i = 3; // %x = type
                    if let T::Word(w) = ps.pk() {
                        if w == "opaque" {
                            Ty::Struct(Rc::new(vec![]), false)
                        } else {
                            ps.ty()
                        }
                    } else {
                        ps.ty()
                    }
                };
                named.insert(nm, ty);
            }
            m.named = named;
        }
    }
    // globals
    let mut vals = vec![];
    for (i, (a, b)) in gl.iter().enumerate() {
        let t = toks(&text[*a..*b]);
        let mut ps = P::new(t, &m.named, Some(&m));
        ps.ex(b'=');
        let mut tls = false;
        let mut ext = false;
        let constant;
        loop {
            match ps.nx() {
                T::Word(w) => match w.as_str() {
                    "thread_local" => {
                        tls = true;
                        if ps.is(b'(') {
                            ps.bal();
                        }
                    }
                    "external" | "extern_weak" => ext = true,
                    "addrspace" => ps.bal(),
                    "global" => {
                        constant = false;
                        break;
                    }
                    "constant" => {
                        constant = true;
                        break;
                    }
                    _ => {}
                },
                t => panic!("global {} {:?}", m.globals[i].name, t),
            }
        }
        let ty = ps.ty();
        let init = if ext {
            None
        } else {
            let v = ps.cval(&ty);
            let mut out = vec![0u8; ty.size() as usize];
            flatten(&ty, &v, &mut out);
            Some(out)
        };
        vals.push((ty, tls, constant, init));
    }
    for (i, (ty, tls, constant, init)) in vals.into_iter().enumerate() {
        let g = &mut m.globals[i];
        g.ty = ty;
        g.tls = tls;
        g.constant = constant;
        g.init = init;
    }
    m.text = text;
    m
}

pub fn parse_func(m: &Module, id: u32) -> Func {
    let (a, b) = m.funcs[id as usize].body.unwrap();
    let t = toks(&m.text[a..b + 1]);
    let mut p = P::new(t, &m.named, Some(m));
    p.func(id, &m.funcs[id as usize].name)
}
