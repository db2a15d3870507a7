//! The symbolic interpreter: states, forking, threads, unwinding.
use crate::expr::{fold, Ctx, N};
use crate::known::Known;
use crate::ir::*;
use crate::mem::*;
use crate::parse::{mask, parse_func, sext, zero};
use crate::solver::{Dom, Res, Solver};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub bb: u32,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub allocas: Vec<u64>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Status {
    Run,
    Futex { addr: u64, deadline: Option<u64>, dst: Option<u32> },
    Sleep { deadline: u64 },
    Join { tid: u64 },
    Done,
}

#[derive(Clone)]
pub struct Thread {
    pub frames: Vec<Rc<Frame>>,
    pub st: Status,
    pub tls: Rc<HashMap<u32, u64>>,
    pub exc: u64,
    pub dtors: Vec<(u64, u64)>,
    pub keys: BTreeMap<u64, u64>,
    pub errno: u64,
    pub detached: bool,
}

#[derive(Clone)]
pub struct Made {
    pub name: String,
    pub vars: Vec<u32>,
}

#[derive(Clone)]
pub struct State {
    pub th: Vec<Thread>,
    pub cur: usize,
    pub mem: Mem,
    pub pc: Rc<Vec<Ex>>,
    pub model: Rc<HashMap<u32, u8>>,
    pub dom: Rc<HashMap<u32, (Dom, bool)>>,
    pub known: Option<(Ex, bool)>,
    pub clock: u64,
    pub steps: u64,
    pub names: Rc<HashMap<String, u32>>,
    pub made: Rc<Vec<Made>>,
    pub log: Rc<Vec<(String, Vec<Ex>)>>,
    pub nkeys: u64,
    pub keyd: Rc<BTreeMap<u64, u64>>,
    pub domv: u64,
    pub depth: u32,
    pub site: String,
}

pub enum Stop {
    Done,
    Pruned,
    Viol(String, String),
    Inc(String),
}

pub type X<T> = Result<T, Stop>;

fn bad<T>(r: R<T>) -> X<T> {
    r.map_err(|e| if e.starts_with("internal:") { Stop::Inc(e) } else { Stop::Viol("memory".into(), e) })
}

pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub inputs: Vec<(String, Vec<u8>)>,
    pub log: Vec<(String, Vec<u8>)>,
    pub stack: Vec<String>,
}

#[derive(Default)]
pub struct Report {
    pub done: u64,
    pub pruned: u64,
    pub incomplete: HashMap<String, u64>,
    pub viols: Vec<Violation>,
    pub nviol: HashMap<String, u64>,
    pub reach: BTreeMap<String, u64>,
    pub asserts: BTreeMap<String, (u64, u64)>, // msg -> (z3, const)
    pub samples: Vec<(Vec<(String, Vec<u8>)>, Vec<(String, Vec<u8>)>)>,
    pub funcs: HashMap<u32, u64>,
    pub steps: u64,
    pub forks: u64,
    pub max_depth: u32,
}

#[derive(Clone, Copy, PartialEq)]
enum Bk {
    Body,
    /// Unicode table predicate: arbitrary on symbolic characters (an
    /// over-approximation; it only decides how discarded text is escaped)
    Oracle,
    Nop,
    Memcpy,
    Memset,
    Named,
}

pub struct Eng {
    pub m: &'static Module,
    pub x: Ctx,
    pub so: Solver,
    funcs: Vec<Option<&'static Func>>,
    bk: Vec<Bk>,
    pub work: Vec<State>,
    pub rep: Report,
    pub sites: HashMap<String, u64>,
    pub max_steps: u64,
    pub trace: bool,
    pub nsamples: usize,
    pub weak: HashSet<String>,
    pub rng: u64,
    kn: Known,
    vers: u64,
}

enum Flow {
    Next,
    Stay,
}

impl Eng {
    pub fn new(m: &'static Module, timeout_ms: u32) -> Self {
        let bk = m
            .funcs
            .iter()
            .map(|f| {
                if f.body.is_some() {
                    if f.name.contains("core7unicode12unicode_data") && f.name.ends_with("lookup_slow") {
                        return Bk::Oracle;
                    }
                    return Bk::Body;
                }
                let n = f.name.as_str();
                if n.starts_with("llvm.lifetime") || n.starts_with("llvm.assume") || n.contains("noalias.scope") || n.starts_with("llvm.x86.sse2.pause") || n.starts_with("llvm.prefetch") || n.starts_with("llvm.invariant") {
                    Bk::Nop
                } else if n.starts_with("llvm.memcpy") || n.starts_with("llvm.memmove") || n == "memcpy" || n == "memmove" {
                    Bk::Memcpy
                } else if n.starts_with("llvm.memset") || n == "memset" {
                    Bk::Memset
                } else {
                    Bk::Named
                }
            })
            .collect();
        Eng {
            m,
            x: Ctx::new(),
            so: Solver::new(timeout_ms),
            funcs: vec![None; m.funcs.len()],
            bk,
            work: vec![],
            rep: Report::default(),
            sites: HashMap::new(),
            kn: Known::default(),
            vers: 0,
            max_steps: 50_000_000,
            trace: false,
            nsamples: 0,
            weak: HashSet::new(),
            rng: 0x9e3779b97f4a7c15,
        }
    }
    fn func(&mut self, id: u32) -> &'static Func {
        if let Some(f) = self.funcs[id as usize] {
            return f;
        }
        let f: &'static Func = Box::leak(Box::new(parse_func(self.m, id)));
        self.funcs[id as usize] = Some(f);
        f
    }
    pub fn start(&mut self, entry: &str) -> State {
        let mut mem = Mem::new();
        for g in &self.m.globals {
            let k = if g.constant { Kind::Const } else { Kind::Global };
            let d = g.init.clone().unwrap_or_else(|| vec![0u8; (g.ty.size() as usize).max(64)]);
            mem.add(if g.init.is_none() { Kind::Global } else { k }, d);
        }
        let fid = *self.m.fnames.get(entry).unwrap_or_else(|| {
            eprintln!("no entry {}", entry);
            std::process::exit(3)
        });
        let f = self.func(fid);
        let mut st = State {
            th: vec![],
            cur: 0,
            mem,
            pc: Rc::new(vec![]),
            model: Rc::new(HashMap::new()),
            dom: Rc::new(HashMap::new()),
            known: None,
            clock: 1_000_000_000,
            steps: 0,
            names: Rc::new(HashMap::new()),
            made: Rc::new(vec![]),
            log: Rc::new(vec![]),
            nkeys: 1,
            keyd: Rc::new(BTreeMap::new()),
            domv: 0,
            depth: 0,
            site: String::new(),
        };
        st.th.push(Thread {
            frames: vec![],
            st: Status::Run,
            tls: Rc::new(HashMap::new()),
            exc: 0,
            dtors: vec![],
            keys: BTreeMap::new(),
            errno: 0,
            detached: false,
        });
        self.push_frame(&mut st, 0, f, vec![]);
        st
    }
    fn push_frame(&mut self, st: &mut State, t: usize, f: &'static Func, args: Vec<Val>) {
        let mut regs = vec![Val::C(0); f.nregs as usize];
        for (i, p) in f.params.iter().enumerate() {
            if i < args.len() {
                regs[*p as usize] = args[i].clone();
            }
        }
        *self.rep.funcs.entry(f.id).or_insert(0) += 1;
        if self.trace {
            eprintln!("{}[{}] > {}", " ".repeat(st.th[t].frames.len()), t, f.name);
        }
        st.th[t].frames.push(Rc::new(Frame { f, bb: 0, ip: 0, regs, allocas: vec![] }));
    }
    fn here(&self, st: &State) -> String {
        match st.th[st.cur].frames.last() {
            Some(f) => format!("{}:{}:{}", f.f.name, f.bb, f.ip),
            None => "?".into(),
        }
    }

    // ---------------------------------------------------------------- solver glue
    fn pc_add(&mut self, st: &mut State, c: Ex) {
        if self.x.cv(c).is_some() {
            return;
        }
        // split conjunctions
        if let N::Bin(B::And, a, b) = self.x.n[c as usize] {
            self.pc_add(st, a);
            self.pc_add(st, b);
            return;
        }
        if st.pc.contains(&c) {
            return;
        }
        Rc::make_mut(&mut st.pc).push(c);
        self.vers += 1;
        st.domv = self.vers;
        let s = self.x.support(c);
        if s.len() == 1 {
            let v = s[0];
            let d = self.so.dom(&mut self.x, c, v);
            let m = Rc::make_mut(&mut st.dom);
            let e = m.entry(v).or_insert(([u64::MAX; 4], false));
            for i in 0..4 {
                e.0[i] &= d[i];
            }
        } else {
            let m = Rc::make_mut(&mut st.dom);
            for v in s.iter() {
                m.entry(*v).or_insert(([u64::MAX; 4], false)).1 = true;
            }
        }
    }
    fn with_model(&self, st: &mut State, m: &[(u32, u8)]) {
        let h = Rc::make_mut(&mut st.model);
        for (v, b) in m {
            h.insert(*v, *b);
        }
    }
    /// Feasibility of `pc /\ c` for branch decisions.
    fn feas(&mut self, st: &State, c: Ex) -> X<Option<Rc<Vec<(u32, u8)>>>> {
        let s = self.x.support(c);
        if s.len() == 1 {
            let v = s[0];
            let d = self.so.dom(&mut self.x, c, v);
            let (a, multi) = st.dom.get(&v).cloned().unwrap_or(([u64::MAX; 4], false));
            let i = [a[0] & d[0], a[1] & d[1], a[2] & d[2], a[3] & d[3]];
            if i == [0; 4] {
                self.so.st.dom += 1;
                self.so.confirm(&mut self.x, &st.pc, c, v, false);
                return Ok(None);
            }
            if !multi {
                self.so.st.dom += 1;
                self.so.confirm(&mut self.x, &st.pc, c, v, true);
                for k in 0..256 {
                    if i[k / 64] >> (k % 64) & 1 == 1 {
                        return Ok(Some(Rc::new(vec![(v, k as u8)])));
                    }
                }
            }
        }
        match self.so.check(&mut self.x, &st.pc, c, true) {
            Res::Sat(m) => Ok(Some(m)),
            Res::Unsat => Ok(None),
            Res::Unknown => Err(Stop::Inc("solver gave up on a branch query".into())),
        }
    }
    /// Decide a branch; forks when both sides are feasible.
    fn branch(&mut self, st: &mut State, c: Ex) -> X<bool> {
        if let Some(v) = self.x.cv(c) {
            return Ok(v == 1);
        }
        if let Some((e, b)) = st.known.take() {
            if e == c {
                return Ok(b);
            }
        }
        if let Some(v) = self.kn.value(&self.x, &st.dom, st.domv, c) {
            if self.x.eval(c, &st.model) != v {
                return Err(Stop::Inc("internal: known bits".into()));
            }
            return Ok(v == 1);
        }
        let nc = self.x.not(c);
        if st.pc.contains(&c) {
            return Ok(true);
        }
        if st.pc.contains(&nc) {
            return Ok(false);
        }
        let side = self.x.eval(c, &st.model) == 1;
        let (mine, other) = if side { (c, nc) } else { (nc, c) };
        if let Some(m) = self.feas(st, other)? {
            let mut o = st.clone();
            self.with_model(&mut o, &m);
            self.pc_add(&mut o, other);
            o.known = Some((c, !side));
            o.depth += 1;
            let here = self.here(st);
            if self.trace {
                eprintln!("FORK at {}", here);
            }
            *self.sites.entry(here).or_insert(0) += 1;
            self.rep.forks += 1;
            self.work.push(o);
            st.depth += 1;
            self.rep.max_depth = self.rep.max_depth.max(st.depth);
            self.pc_add(st, mine);
        }
        Ok(side)
    }
    fn ex(&mut self, v: &Val, w: u32) -> Ex {
        match v {
            Val::C(c) => self.x.k(*c, w),
            Val::S(e) => *e,
            Val::A(_) => panic!("aggregate where scalar expected"),
        }
    }
    fn val(&self, e: Ex) -> Val {
        match self.x.cv(e) {
            Some(v) => Val::C(v),
            None => Val::S(e),
        }
    }
    /// Fix the value of `v`, forking over every feasible alternative.
    fn conc(&mut self, st: &mut State, v: &Val) -> X<u128> {
        match v {
            Val::C(c) => Ok(*c),
            Val::S(e) => {
                let k = self.x.eval(*e, &st.model);
                let w = self.x.width(*e);
                let ke = self.x.k(k, w);
                let c = self.x.eq(*e, ke);
                if !self.branch(st, c)? {
                    return Err(Stop::Inc("internal: concretisation".into()));
                }
                Ok(k)
            }
            Val::A(_) => Err(Stop::Inc("internal: concretising aggregate".into())),
        }
    }
    fn cond(&mut self, st: &mut State, v: &Val) -> X<bool> {
        match v {
            Val::C(c) => Ok(*c & 1 == 1),
            Val::S(e) => self.branch(st, *e),
            _ => Err(Stop::Inc("internal: aggregate condition".into())),
        }
    }

    // ---------------------------------------------------------------- main loop
    pub fn run_state(&mut self, mut st: State) {
        let before = st.steps;
        // what the engine cannot handle leaves the path undecided
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.drive(&mut st))).unwrap_or_else(|e| {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Err(Stop::Inc(format!("engine: {}", m.chars().take(100).collect::<String>())))
        });
        self.rep.steps += st.steps - before;
        let e = match r {
            Err(e) => e,
            Ok(()) => Stop::Done,
        };
        match e {
            Stop::Done => {
                self.rep.done += 1;
                self.sample(&mut st);
            }
            Stop::Pruned => self.rep.pruned += 1,
            Stop::Viol(k, m) => {
                self.violation(&mut st, k, m, None);
            }
            Stop::Inc(m) => {
                let key = format!("{} @ {}", m, self.here(&st));
                *self.rep.incomplete.entry(key).or_insert(0) += 1;
            }
        }
    }
    fn inputs(&self, st: &State, model: &HashMap<u32, u8>) -> Vec<(String, Vec<u8>)> {
        st.made
            .iter()
            .map(|m| (m.name.clone(), m.vars.iter().map(|v| *model.get(v).unwrap_or(&0)).collect()))
            .collect()
    }
    fn logs(&mut self, st: &State, model: &HashMap<u32, u8>) -> Vec<(String, Vec<u8>)> {
        st.log
            .iter()
            .map(|(t, d)| (t.clone(), d.iter().map(|e| self.x.eval(*e, model) as u8).collect()))
            .collect()
    }
    fn sample(&mut self, st: &mut State) {
        if self.nsamples == 0 {
            return;
        }
        // reservoir
        let n = self.rep.done as usize;
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        let slot = if self.rep.samples.len() < self.nsamples {
            self.rep.samples.push((vec![], vec![]));
            self.rep.samples.len() - 1
        } else {
            let k = (self.rng % n as u64) as usize;
            if k >= self.nsamples {
                return;
            }
            k
        };
        let model = st.model.clone();
        let s = (self.inputs(st, &model), self.logs(st, &model));
        self.rep.samples[slot] = s;
    }
    fn violation(&mut self, st: &mut State, kind: String, msg: String, model: Option<&HashMap<u32, u8>>) {
        let model = match model {
            Some(m) => m.clone(),
            None => (*st.model).clone(),
        };
        // violations are told apart by message and by the case the harness logged
        let case = match st.log.iter().rev().find(|(t, _)| t == "case") {
            Some((_, d)) => d.iter().map(|e| self.x.eval(*e, &model) as u8 as char).collect(),
            None => String::new(),
        };
        let key = format!("{}: {} [{}]", kind, msg, case);
        let n = self.rep.nviol.entry(key).or_insert(0);
        *n += 1;
        if *n > 3 {
            return;
        }
        let stack = st.th[st.cur].frames.iter().rev().take(25).map(|f| f.f.name.clone()).collect();
        let inputs = self.inputs(st, &model);
        let log = self.logs(st, &model);
        self.rep.viols.push(Violation { kind, msg, inputs, log, stack });
    }
    fn drive(&mut self, st: &mut State) -> X<()> {
        loop {
            if st.th[st.cur].st != Status::Run {
                self.sched(st)?;
            }
            // inner loop on one thread
            st.steps += 1;
            if st.steps > self.max_steps {
                return Err(Stop::Inc("step limit".into()));
            }
            let t = st.cur;
            let (f, bb, ip) = match st.th[t].frames.last() {
                Some(fr) => (fr.f, fr.bb, fr.ip),
                None => {
                    self.thread_exit(st)?;
                    continue;
                }
            };
            let ins = &f.blocks[bb as usize].ins[ip as usize];
            match self.step(st, ins)? {
                Flow::Next => {
                    let fr = Rc::make_mut(st.th[t].frames.last_mut().unwrap());
                    fr.ip += 1;
                }
                Flow::Stay => {}
            }
        }
    }
    fn thread_exit(&mut self, st: &mut State) -> X<()> {
        let t = st.cur;
        if t == 0 {
            return Err(Stop::Done);
        }
        if let Some((f, a)) = st.th[t].dtors.pop() {
            let fid = ((f >> 32) - FUNC_BASE) as u32;
            let f = self.func(fid);
            self.push_frame(st, t, f, vec![Val::C(a as u128)]);
            return Ok(());
        }
        let keys: Vec<(u64, u64)> = st.th[t].keys.iter().map(|(a, b)| (*a, *b)).collect();
        for (k, v) in keys {
            st.th[t].keys.remove(&k);
            if v != 0 {
                if let Some(d) = st.keyd.get(&k).cloned() {
                    if d != 0 {
                        let fid = ((d >> 32) - FUNC_BASE) as u32;
                        let f = self.func(fid);
                        self.push_frame(st, t, f, vec![Val::C(v as u128)]);
                        return Ok(());
                    }
                }
            }
        }
        st.th[t].st = Status::Done;
        for o in 0..st.th.len() {
            if st.th[o].st == (Status::Join { tid: t as u64 }) {
                st.th[o].st = Status::Run;
            }
        }
        Ok(())
    }
    fn sched(&mut self, st: &mut State) -> X<()> {
        let n = st.th.len();
        for i in 0..n {
            let d = match st.th[i].st {
                Status::Futex { deadline: Some(d), .. } => d,
                Status::Sleep { deadline } => deadline,
                _ => continue,
            };
            if d <= st.clock {
                self.expire(st, i)?;
            }
        }
        for k in 1..=n {
            let c = (st.cur + k) % n;
            if st.th[c].st == Status::Run {
                st.cur = c;
                return Ok(());
            }
        }
        // advance the clock to the earliest deadline
        let mut best: Option<(u64, usize)> = None;
        for (i, t) in st.th.iter().enumerate() {
            let d = match t.st {
                Status::Futex { deadline: Some(d), .. } => d,
                Status::Sleep { deadline } => deadline,
                _ => continue,
            };
            if best.map_or(true, |b| d < b.0) {
                best = Some((d, i));
            }
        }
        if let Some((d, i)) = best {
            st.clock = st.clock.max(d);
            self.expire(st, i)?;
            st.cur = i;
            return Ok(());
        }
        st.cur = 0;
        Err(Stop::Viol("deadlock".into(), "every thread is blocked for ever".into()))
    }
    fn expire(&mut self, st: &mut State, i: usize) -> X<()> {
        if let Status::Futex { dst, .. } = st.th[i].st.clone() {
            self.set_errno(st, i, 110)?;
            if let Some(r) = dst {
                let fr = Rc::make_mut(st.th[i].frames.last_mut().unwrap());
                fr.regs[r as usize] = Val::C(mask(u128::MAX, 64));
            }
        }
        st.th[i].st = Status::Run;
        Ok(())
    }
    fn errno_addr(&mut self, st: &mut State, t: usize) -> u64 {
        if st.th[t].errno == 0 {
            st.th[t].errno = st.mem.add(Kind::Tls, vec![0; 4]);
        }
        st.th[t].errno
    }
    fn set_errno(&mut self, st: &mut State, t: usize, v: u64) -> X<()> {
        let a = self.errno_addr(st, t);
        bad(st.mem.wr_u(a, v, 4))
    }

    #[inline]
    fn op(&self, st: &State, o: &Op) -> Val {
        match o {
            Op::K(v) => v.clone(),
            Op::R(r) => st.th[st.cur].frames.last().unwrap().regs[*r as usize].clone(),
        }
    }
    #[inline]
    fn set(&self, st: &mut State, r: u32, v: Val) {
        let c = st.cur;
        let fr = Rc::make_mut(st.th[c].frames.last_mut().unwrap());
        fr.regs[r as usize] = v;
    }
    fn jump(&self, st: &mut State, e: &Edge) {
        let c = st.cur;
        let fr = Rc::make_mut(st.th[c].frames.last_mut().unwrap());
        match e.moves.len() {
            0 => {}
            1 => {
                let v = match &e.moves[0].1 {
                    Op::K(v) => v.clone(),
                    Op::R(r) => fr.regs[*r as usize].clone(),
                };
                fr.regs[e.moves[0].0 as usize] = v;
            }
            _ => {
                let vs: Vec<Val> = e
                    .moves
                    .iter()
                    .map(|(_, o)| match o {
                        Op::K(v) => v.clone(),
                        Op::R(r) => fr.regs[*r as usize].clone(),
                    })
                    .collect();
                for ((d, _), v) in e.moves.iter().zip(vs) {
                    fr.regs[*d as usize] = v;
                }
            }
        }
        fr.bb = e.to;
        fr.ip = 0;
    }
    fn bin1(&mut self, st: &mut State, op: B, w: u32, f: bool, a: &Val, b: &Val) -> X<Val> {
        if w > 128 {
            return Err(Stop::Inc(format!("arithmetic on {} bits", w)));
        }
        if f {
            let (p, q) = (self.conc(st, a)?, self.conc(st, b)?);
            return Ok(Val::C(fbin(op, w, p, q)));
        }
        if let (Val::C(p), Val::C(q)) = (a, b) {
            if matches!(op, B::UDiv | B::SDiv | B::URem | B::SRem) && *q == 0 {
                return Err(Stop::Viol("trap".into(), "division by zero".into()));
            }
            return Ok(Val::C(fold(op, *p, *q, w)));
        }
        let (p, q) = (self.ex(a, w), self.ex(b, w));
        if matches!(op, B::UDiv | B::SDiv | B::URem | B::SRem) && self.x.cv(q).is_none() {
            let z = self.x.k(0, w);
            let c = self.x.eq(q, z);
            if self.branch(st, c)? {
                return Err(Stop::Viol("trap".into(), "division by zero".into()));
            }
        }
        let e = self.x.bin(op, p, q);
        if self.x.cv(e).is_none() {
            if let Some(v) = self.kn.value(&self.x, &st.dom, st.domv, e) {
                return Ok(Val::C(v));
            }
        }
        Ok(self.val(e))
    }
    fn cmp1(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sx, sy) = (sext(x, w), sext(y, w));
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sx > sy,
                Pred::Sge => sx >= sy,
                Pred::Slt => sx < sy,
                Pred::Sle => sx <= sy,
            };
            return Val::C(r as u128);
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let e = self.x.cmp(p, x, y);
        self.val(e)
    }
    fn sel1(&mut self, st: &mut State, c: &Val, ty: &Ty, a: Val, b: Val) -> X<Val> {
        match c {
            Val::C(k) => Ok(if *k & 1 == 1 { a } else { b }),
            Val::S(e) => {
                if let Ty::Int(w) = ty {
                    let (p, q) = (self.ex(&a, *w), self.ex(&b, *w));
                    let r = self.x.ite(*e, p, q);
                    return Ok(self.val(r));
                }
                if let (Val::C(x), Val::C(y)) = (&a, &b) {
                    if x == y {
                        return Ok(a);
                    }
                }
                Ok(if self.branch(st, *e)? { a } else { b })
            }
            _ => Err(Stop::Inc("internal: select".into())),
        }
    }
    fn cast1(&mut self, st: &mut State, k: CastK, fw: u32, tw: u32, a: &Val) -> X<Val> {
        if fw.max(tw) > 128 {
            return Err(Stop::Inc(format!("a cast between {} and {} bits", fw, tw)));
        }
        Ok(match k {
            CastK::Trunc => match a {
                Val::C(c) => Val::C(mask(*c, tw)),
                Val::S(e) => {
                    let r = self.x.ext(*e, tw - 1, 0);
                    self.val(r)
                }
                _ => return Err(Stop::Inc("internal: cast".into())),
            },
            CastK::ZExt => match a {
                Val::C(c) => Val::C(*c),
                Val::S(e) => {
                    let r = self.x.zext(*e, tw);
                    self.val(r)
                }
                _ => return Err(Stop::Inc("internal: cast".into())),
            },
            CastK::SExt => match a {
                Val::C(c) => Val::C(mask(sext(*c, fw) as u128, tw)),
                Val::S(e) => {
                    let r = self.x.sext(*e, tw);
                    self.val(r)
                }
                _ => return Err(Stop::Inc("internal: cast".into())),
            },
            CastK::BitCast => a.clone(),
            _ => {
                let v = self.conc(st, a)?;
                let f = |v: u128, w: u32| if w == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v as u64) };
                let un = |d: f64, w: u32| if w == 32 { (d as f32).to_bits() as u128 } else { d.to_bits() as u128 };
                Val::C(match k {
                    CastK::FpToUi => mask(f(v, fw) as u128, tw),
                    CastK::FpToSi => mask(f(v, fw) as i128 as u128, tw),
                    CastK::UiToFp => {
                        if tw == 32 {
                            (v as f32).to_bits() as u128
                        } else {
                            (v as f64).to_bits() as u128
                        }
                    }
                    CastK::SiToFp => {
                        if tw == 32 {
                            (sext(v, fw) as f32).to_bits() as u128
                        } else {
                            (sext(v, fw) as f64).to_bits() as u128
                        }
                    }
                    _ => un(f(v, fw), tw),
                })
            }
        })
    }
    fn bits_of_vec(&mut self, v: &Val, ew: u32) -> Ex {
        match v {
            Val::A(a) => {
                let mut e: Option<Ex> = None;
                for x in a.iter() {
                    let xe = self.ex(x, ew);
                    e = Some(match e {
                        None => xe,
                        Some(lo) => self.x.cat(xe, lo),
                    });
                }
                e.unwrap()
            }
            _ => panic!("bits_of_vec"),
        }
    }
    fn addr_add(&mut self, a: &Val, k: i64) -> Val {
        match a {
            Val::C(c) => Val::C((*c as u64).wrapping_add(k as u64) as u128),
            Val::S(e) => {
                let kk = self.x.k(k as u64 as u128, 64);
                let r = self.x.bin(B::Add, *e, kk);
                self.val(r)
            }
            _ => panic!("addr_add"),
        }
    }
    /// e = k + index * stride
    fn linear(&self, e: Ex) -> (Ex, u64, u64) {
        let mut e = e;
        let (mut stride, mut k) = (1u64, 0u64);
        loop {
            let w = self.x.width(e);
            match self.x.n[e as usize] {
                N::ZExt(x, _) => e = x,
                N::Cat(h, l) => {
                    let lw = self.x.width(l);
                    if let Some(c) = self.x.cv(h) {
                        k = k.wrapping_add(((c << lw) as u64).wrapping_mul(stride));
                        e = l;
                    } else if let Some(c) = self.x.cv(l) {
                        k = k.wrapping_add((c as u64).wrapping_mul(stride));
                        stride <<= lw;
                        e = h;
                    } else {
                        break;
                    }
                }
                N::Bin(B::Add, a, b) if self.x.cv(b).is_some() => {
                    let c = self.x.cv(b).unwrap();
                    if w == 64 || self.x.umax(a).checked_add(c).map_or(false, |s| s <= mask(u128::MAX, w)) {
                        k = k.wrapping_add((c as u64).wrapping_mul(stride));
                        e = a;
                    } else {
                        break;
                    }
                }
                N::Bin(B::Mul, a, b) if self.x.cv(b).is_some() => {
                    let c = self.x.cv(b).unwrap();
                    if c < 1 << 32 && self.x.umax(a).checked_mul(c).map_or(false, |s| s <= mask(u128::MAX, w)) {
                        stride = stride.wrapping_mul(c as u64);
                        e = a;
                    } else {
                        break;
                    }
                }
                _ => break,
            }
            if stride >= 1 << 32 {
                break;
            }
        }
        (e, stride, k)
    }
    fn sym_load(&mut self, st: &mut State, e: Ex, ty: &Ty) -> X<Val> {
        let n = ty.size();
        if !ty.is_scalar() || *ty == Ty::Ptr || n == 0 {
            let a = self.conc(st, &Val::S(e))? as u64;
            return bad(st.mem.load(&mut self.x, a, ty));
        }
        let cur = self.x.eval(e, &st.model) as u64;
        let id = cur >> 32;
        let size = match st.mem.size(id) {
            Some(s) => s,
            None => {
                let a = self.conc(st, &Val::S(e))? as u64;
                return bad(st.mem.load(&mut self.x, a, ty));
            }
        };
        let base = id << 32;
        if size < n {
            let a = self.conc(st, &Val::S(e))? as u64;
            return bad(st.mem.load(&mut self.x, a, ty));
        }
        let (ie, stride, k) = self.linear(e);
        let stride = stride as i64;
        let off0 = k.wrapping_sub(base) as i64;
        // bounds
        let um = self.x.umax(ie).saturating_mul(stride as u128);
        let inb = off0 >= 0 && um <= u32::MAX as u128 && off0 as u64 + um as u64 + n <= size;
        if !inb {
            let be = self.x.k(base as u128, 64);
            let d = self.x.bin(B::Sub, e, be);
            let lim = self.x.k((size - n + 1) as u128, 64);
            let c = self.x.ult(d, lim);
            if !self.branch(st, c)? {
                let a = self.conc(st, &Val::S(e))? as u64;
                return bad(st.mem.load(&mut self.x, a, ty));
            }
        }
        // highest index that stays in the object
        let imax = ((size as i64 - n as i64 - off0) / stride.max(1)).max(0) as u128;
        let cnt = imax.min(self.x.umax(ie)) + 1;
        let o = st.mem.get(id).unwrap();
        if stride > 0 && cnt <= 4096 && o.s.is_empty() {
            let mut tab = Vec::with_capacity(cnt as usize);
            for i in 0..cnt as i64 {
                let off = off0 + i * stride;
                if off < 0 || off + n as i64 > size as i64 {
                    tab.push(0);
                } else {
                    let mut b = [0u8; 16];
                    b[..n as usize].copy_from_slice(&o.d[off as usize..off as usize + n as usize]);
                    tab.push(mask(u128::from_le_bytes(b), ty.bits()));
                }
            }
            // narrow index so the table index is as small as possible
            let r = self.x.table(ty.bits(), tab, ie);
            return Ok(self.val(r));
        }
        if stride > 0 && cnt <= 32 {
            let w = self.x.width(ie);
            let mut r: Option<Ex> = None;
            for i in 0..cnt as i64 {
                let off = off0 + i * stride;
                if off < 0 || off + n as i64 > size as i64 {
                    continue;
                }
                let v = bad(st.mem.load(&mut self.x, base + off as u64, ty))?;
                let ve = self.ex(&v, ty.bits());
                r = Some(match r {
                    None => ve,
                    Some(p) => {
                        let ke = self.x.k(i as u128, w);
                        let c = self.x.eq(ie, ke);
                        self.x.ite(c, ve, p)
                    }
                });
            }
            if let Some(r) = r {
                return Ok(self.val(r));
            }
        }
        let a = self.conc(st, &Val::S(e))? as u64;
        bad(st.mem.load(&mut self.x, a, ty))
    }

    fn step(&mut self, st: &mut State, ins: &'static I) -> X<Flow> {
        match ins {
            I::Alloca { dst, size, n } => {
                let k = match n {
                    Some(o) => {
                        let v = self.op(st, o);
                        self.conc(st, &v)? as u64
                    }
                    None => 1,
                };
                let a = st.mem.add(Kind::Stack, vec![0; (size * k) as usize]);
                let c = st.cur;
                let fr = Rc::make_mut(st.th[c].frames.last_mut().unwrap());
                fr.allocas.push(a);
                fr.regs[*dst as usize] = Val::C(a as u128);
            }
            I::Load { dst, ty, p } => {
                let a = self.op(st, p);
                let v = match a {
                    Val::C(c) => bad(st.mem.load(&mut self.x, c as u64, ty))?,
                    Val::S(e) => self.sym_load(st, e, ty)?,
                    _ => return Err(Stop::Inc("internal: load".into())),
                };
                self.set(st, *dst, v);
            }
            I::Store { ty, v, p } => {
                let a = self.op(st, p);
                let v = self.op(st, v);
                let a = self.conc(st, &a)? as u64;
                bad(st.mem.store(&mut self.x, a, ty, &v))?;
            }
            I::Gep { dst, base, off, idx } => {
                let mut a = self.op(st, base);
                a = self.addr_add(&a, *off);
                for (o, w, s) in idx {
                    let v = self.op(st, o);
                    match v {
                        Val::C(c) => a = self.addr_add(&a, (sext(c, *w) as i64).wrapping_mul(*s)),
                        Val::S(e) => {
                            let e64 = if *w < 64 { self.x.sext(e, 64) } else { e };
                            let se = self.x.k(*s as u64 as u128, 64);
                            let m = self.x.bin(B::Mul, e64, se);
                            let ae = self.ex(&a, 64);
                            let r = self.x.bin(B::Add, m, ae);
                            a = self.val(r);
                        }
                        _ => return Err(Stop::Inc("internal: gep".into())),
                    }
                }
                self.set(st, *dst, a);
            }
            I::Bin { dst, op, ty, a, b } => {
                let (p, q) = (self.op(st, a), self.op(st, b));
                let r = match ty {
                    Ty::Vec(n, et) => {
                        let fl = !matches!(**et, Ty::Int(_) | Ty::Ptr);
                        let w = et.bits();
                        let mut v = vec![];
                        if let (Val::A(p), Val::A(q)) = (&p, &q) {
                            for i in 0..*n as usize {
                                v.push(self.bin1(st, *op, w, fl, &p[i], &q[i])?);
                            }
                        }
                        Val::A(Rc::new(v))
                    }
                    _ => self.bin1(st, *op, ty.bits(), matches!(ty, Ty::F32 | Ty::F64), &p, &q)?,
                };
                self.set(st, *dst, r);
            }
            I::Icmp { dst, p, ty, a, b } => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                let r = match ty {
                    Ty::Vec(n, et) => {
                        let w = et.bits();
                        let mut v = vec![];
                        if let (Val::A(x), Val::A(y)) = (&x, &y) {
                            for i in 0..*n as usize {
                                v.push(self.cmp1(*p, w, &x[i], &y[i]));
                            }
                        }
                        Val::A(Rc::new(v))
                    }
                    _ => self.cmp1(*p, ty.bits(), &x, &y),
                };
                self.set(st, *dst, r);
            }
            I::Fcmp { dst, p, ty, a, b } => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                let (x, y) = (self.conc(st, &x)?, self.conc(st, &y)?);
                let f = |v: u128| if ty.bits() == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v as u64) };
                let (x, y) = (f(x), f(y));
                let un = x.is_nan() || y.is_nan();
                let r = match p.as_str() {
                    "oeq" => !un && x == y,
                    "ogt" => !un && x > y,
                    "oge" => !un && x >= y,
                    "olt" => !un && x < y,
                    "ole" => !un && x <= y,
                    "one" => !un && x != y,
                    "ord" => !un,
                    "uno" => un,
                    "ueq" => un || x == y,
                    "ugt" => un || x > y,
                    "uge" => un || x >= y,
                    "ult" => un || x < y,
                    "ule" => un || x <= y,
                    "une" => un || x != y,
                    "true" => true,
                    _ => false,
                };
                self.set(st, *dst, Val::C(r as u128));
            }
            I::FNeg { dst, ty, a } => {
                let x = self.op(st, a);
                let v = self.conc(st, &x)?;
                self.set(st, *dst, Val::C(v ^ (1u128 << (ty.bits() - 1))));
            }
            I::Select { dst, cty, ty, c, a, b } => {
                let cv = self.op(st, c);
                let (x, y) = (self.op(st, a), self.op(st, b));
                let r = match (cty, ty) {
                    (Ty::Vec(n, _), Ty::Vec(_, et)) => {
                        let mut v = vec![];
                        if let (Val::A(cs), Val::A(x), Val::A(y)) = (&cv, &x, &y) {
                            for i in 0..*n as usize {
                                v.push(self.sel1(st, &cs[i], et, x[i].clone(), y[i].clone())?);
                            }
                        }
                        Val::A(Rc::new(v))
                    }
                    _ => self.sel1(st, &cv, ty, x, y)?,
                };
                self.set(st, *dst, r);
            }
            I::Cast { dst, k, from, to, a } => {
                let v = self.op(st, a);
                let r = match (from, to) {
                    (Ty::Vec(n, fe), Ty::Vec(m, te)) if *k != CastK::BitCast => {
                        let _ = m;
                        let mut o = vec![];
                        if let Val::A(x) = &v {
                            for i in 0..*n as usize {
                                o.push(self.cast1(st, *k, fe.bits(), te.bits(), &x[i])?);
                            }
                        }
                        Val::A(Rc::new(o))
                    }
                    (Ty::Vec(_, fe), t) if *k == CastK::BitCast => {
                        let e = self.bits_of_vec(&v, fe.bits());
                        match t {
                            Ty::Vec(m, te) => {
                                let w = te.bits();
                                let mut o = vec![];
                                for i in 0..*m {
                                    let p = self.x.ext(e, i * w + w - 1, i * w);
                                    o.push(self.val(p));
                                }
                                Val::A(Rc::new(o))
                            }
                            _ => self.val(e),
                        }
                    }
                    (f, Ty::Vec(m, te)) if *k == CastK::BitCast => {
                        let e = self.ex(&v, f.bits());
                        let w = te.bits();
                        let mut o = vec![];
                        for i in 0..*m {
                            let p = self.x.ext(e, i * w + w - 1, i * w);
                            o.push(self.val(p));
                        }
                        Val::A(Rc::new(o))
                    }
                    _ => self.cast1(st, *k, from.bits(), to.bits(), &v)?,
                };
                self.set(st, *dst, r);
            }
            I::Br(e) => {
                self.jump(st, e);
                return Ok(Flow::Stay);
            }
            I::CondBr { c, t, f } => {
                let v = self.op(st, c);
                let b = self.cond(st, &v)?;
                self.jump(st, if b { t } else { f });
                return Ok(Flow::Stay);
            }
            I::Switch { w, v, cases, def } => {
                let x = self.op(st, v);
                match x {
                    Val::C(c) => {
                        let e = cases.iter().find(|(k, _)| *k == c).map(|(_, e)| e).unwrap_or(def);
                        self.jump(st, e);
                    }
                    Val::S(e) => {
                        // group cases with the same target and the same moves
                        let mut groups: Vec<(&Edge, Vec<u128>)> = vec![];
                        for (k, ed) in cases {
                            if same_edge(ed, def) {
                                continue;
                            }
                            match groups.iter_mut().find(|(g, _)| same_edge(g, ed)) {
                                Some((_, v)) => v.push(*k),
                                None => groups.push((ed, vec![*k])),
                            }
                        }
                        // the group of the current model first, then the rest
                        let cur = self.x.eval(e, &st.model);
                        let gi = groups.iter().position(|(_, v)| v.contains(&cur));
                        let grp = match gi {
                            Some(i) => groups[i].clone(),
                            None => (def, vec![]),
                        };
                        let mk = |s: &mut Self, ks: &[u128]| {
                            let mut c = s.x.k(0, 1);
                            for k in ks {
                                let ke = s.x.k(*k, *w);
                                let q = s.x.eq(e, ke);
                                c = s.x.bin(B::Or, c, q);
                            }
                            c
                        };
                        let c = if gi.is_some() {
                            mk(self, &grp.1)
                        } else {
                            let all: Vec<u128> = groups.iter().flat_map(|(_, v)| v.iter().cloned()).collect();
                            let c = mk(self, &all);
                            self.x.not(c)
                        };
                        st.known = None;
                        if !self.branch(st, c)? {
                            return Err(Stop::Inc("internal: switch".into()));
                        }
                        self.jump(st, grp.0);
                    }
                    _ => return Err(Stop::Inc("internal: switch".into())),
                }
                return Ok(Flow::Stay);
            }
            I::Ret(v) => {
                let r = v.as_ref().map(|(_, o)| self.op(st, o));
                let c = st.cur;
                let fr = st.th[c].frames.pop().unwrap();
                for a in &fr.allocas {
                    st.mem.free(*a);
                }
                self.ret_to(st, r);
                return Ok(Flow::Stay);
            }
            I::Call(ci) => return self.call(st, ci),
            I::LandingPad { dst, .. } => {
                let e = st.th[st.cur].exc;
                self.set(st, *dst, Val::A(Rc::new(vec![Val::C(e as u128), Val::C(1)])));
            }
            I::Resume { v } => {
                let x = self.op(st, v);
                let p = match &x {
                    Val::A(a) => a[0].clone(),
                    _ => return Err(Stop::Inc("internal: resume".into())),
                };
                let p = self.conc(st, &p)? as u64;
                self.pop_frame(st);
                self.unwind(st, p)?;
                return Ok(Flow::Stay);
            }
            I::Unreachable => return Err(Stop::Viol("unreachable".into(), "unreachable executed".into())),
            I::ExtractValue { dst, a, idx } => {
                let mut v = self.op(st, a);
                for i in idx {
                    v = match &v {
                        Val::A(x) => x[*i as usize].clone(),
                        _ => return Err(Stop::Inc("internal: extractvalue".into())),
                    };
                }
                self.set(st, *dst, v);
            }
            I::InsertValue { dst, ty, a, v, idx } => {
                let mut agg = self.op(st, a);
                if let Val::C(_) = agg {
                    agg = zero(ty);
                }
                let x = self.op(st, v);
                fn ins(a: &mut Val, x: Val, idx: &[u32]) {
                    if idx.is_empty() {
                        *a = x;
                        return;
                    }
                    if let Val::A(v) = a {
                        ins(&mut Rc::make_mut(v)[idx[0] as usize], x, &idx[1..]);
                    }
                }
                ins(&mut agg, x, idx);
                self.set(st, *dst, agg);
            }
            I::CmpXchg { dst, ty, p, cmp, new } => {
                let a = self.op(st, p);
                let a = self.conc(st, &a)? as u64;
                let old = bad(st.mem.load(&mut self.x, a, ty))?;
                let c = self.op(st, cmp);
                let e = self.cmp1(Pred::Eq, ty.bits(), &old, &c);
                let b = self.cond(st, &e)?;
                if b {
                    let n = self.op(st, new);
                    bad(st.mem.store(&mut self.x, a, ty, &n))?;
                }
                self.set(st, *dst, Val::A(Rc::new(vec![old, Val::C(b as u128)])));
            }
            I::AtomicRmw { dst, op, ty, p, v } => {
                let a = self.op(st, p);
                let a = self.conc(st, &a)? as u64;
                let old = bad(st.mem.load(&mut self.x, a, ty))?;
                let v = self.op(st, v);
                let w = ty.bits();
                let bop = |s: &mut Self, st: &mut State, b: B, p: &Val, q: &Val| s.bin1(st, b, w, false, p, q);
                let n = match op {
                    Rmw::Xchg => v,
                    Rmw::Add => bop(self, st, B::Add, &old, &v)?,
                    Rmw::Sub => bop(self, st, B::Sub, &old, &v)?,
                    Rmw::And => bop(self, st, B::And, &old, &v)?,
                    Rmw::Or => bop(self, st, B::Or, &old, &v)?,
                    Rmw::Xor => bop(self, st, B::Xor, &old, &v)?,
                    Rmw::Nand => {
                        let t = bop(self, st, B::And, &old, &v)?;
                        bop(self, st, B::Xor, &t, &Val::C(mask(u128::MAX, w)))?
                    }
                    _ => {
                        let pr = match op {
                            Rmw::Max => Pred::Sgt,
                            Rmw::Min => Pred::Slt,
                            Rmw::UMax => Pred::Ugt,
                            _ => Pred::Ult,
                        };
                        let c = self.cmp1(pr, w, &old, &v);
                        self.sel1(st, &c, ty, old.clone(), v)?
                    }
                };
                bad(st.mem.store(&mut self.x, a, ty, &n))?;
                self.set(st, *dst, old);
            }
            I::Fence => {}
            I::Mov { dst, a } => {
                let v = self.op(st, a);
                self.set(st, *dst, v);
            }
            I::ExtractElement { dst, a, i } => {
                let v = self.op(st, a);
                let i = self.op(st, i);
                let i = self.conc(st, &i)? as usize;
                let r = match &v {
                    Val::A(x) => x[i].clone(),
                    c => c.clone(),
                };
                self.set(st, *dst, r);
            }
            I::InsertElement { dst, n, a, v, i } => {
                let mut agg = self.op(st, a);
                if let Val::C(_) = agg {
                    agg = Val::A(Rc::new(vec![Val::C(0); *n as usize]));
                }
                let x = self.op(st, v);
                let i = self.op(st, i);
                let i = self.conc(st, &i)? as usize;
                if let Val::A(q) = &mut agg {
                    Rc::make_mut(q)[i] = x;
                }
                self.set(st, *dst, agg);
            }
            I::Shuffle { dst, a, b, n, mask: mk } => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                let g = |v: &Val, i: usize| match v {
                    Val::A(q) => q[i].clone(),
                    c => c.clone(),
                };
                let n = *n as usize;
                let mut o = vec![];
                for k in mk {
                    o.push(if *k < 0 {
                        Val::C(0)
                    } else if (*k as usize) < n {
                        g(&x, *k as usize)
                    } else {
                        g(&y, *k as usize - n)
                    });
                }
                self.set(st, *dst, Val::A(Rc::new(o)));
            }
            I::Unsupported(s) => return Err(Stop::Inc(format!("unsupported instruction {}", s))),
        }
        Ok(Flow::Next)
    }
    fn pop_frame(&mut self, st: &mut State) {
        let c = st.cur;
        let fr = st.th[c].frames.pop().unwrap();
        for a in &fr.allocas {
            st.mem.free(*a);
        }
    }
    fn ret_to(&mut self, st: &mut State, r: Option<Val>) {
        let c = st.cur;
        if let Some(top) = st.th[c].frames.last_mut() {
            let f = top.f;
            let fr = Rc::make_mut(top);
            if let I::Call(ci) = &f.blocks[fr.bb as usize].ins[fr.ip as usize] {
                if let (Some(d), Some(v)) = (ci.dst, r) {
                    fr.regs[d as usize] = v;
                }
                if let Some((n, _)) = &ci.inv {
                    self.jump(st, n);
                } else {
                    fr.ip += 1;
                }
            }
        }
    }
    fn unwind(&mut self, st: &mut State, exc: u64) -> X<()> {
        let c = st.cur;
        st.th[c].exc = exc;
        loop {
            let (f, bb, ip) = match st.th[c].frames.last() {
                Some(fr) => (fr.f, fr.bb, fr.ip),
                None => return Err(Stop::Viol("panic".into(), "panic left the outermost frame".into())),
            };
            if let I::Call(ci) = &f.blocks[bb as usize].ins[ip as usize] {
                if let Some((_, u)) = &ci.inv {
                    self.jump(st, u);
                    return Ok(());
                }
            }
            self.pop_frame(st);
        }
    }
    fn call(&mut self, st: &mut State, ci: &'static CallI) -> X<Flow> {
        let fid = match &ci.callee {
            Callee::Func(f) => *f,
            Callee::Ptr(o) => {
                let v = self.op(st, o);
                let a = self.conc(st, &v)? as u64;
                if a >> 32 < FUNC_BASE || a & 0xffff_ffff != 0 || (a >> 32) - FUNC_BASE >= self.m.funcs.len() as u64 {
                    return Err(Stop::Viol("memory".into(), format!("call through bad function pointer {:#x}", a)));
                }
                ((a >> 32) - FUNC_BASE) as u32
            }
            Callee::Asm(s) => {
                if s.is_empty() {
                    // black_box-style barrier: result is the operand, memory is untouched
                    return self.fin(st, ci, ci.args.first().map(|(_, o)| self.op(st, o)));
                }
                return Err(Stop::Inc(format!("inline asm {}", s)));
            }
        };
        let mut bk = self.bk[fid as usize];
        if bk == Bk::Oracle {
            let v = self.op(st, &ci.args[0].1);
            match v {
                Val::S(_) => {
                    let es = self.fresh(st, "unicode-table", 1);
                    let k = self.x.k(2, 8);
                    let c = self.x.ult(es[0], k);
                    self.pc_add(st, c);
                    let z = self.x.ext(es[0], 0, 0);
                    let z = self.val(z);
                    return self.fin(st, ci, Some(z));
                }
                _ => bk = Bk::Body,
            }
        }
        match bk {
            Bk::Oracle => unreachable!(),
            Bk::Body => {
                let f = self.func(fid);
                if f.name.starts_with("rsx_") {
                    // intrinsics have bodies only in native builds
                }
                let args: Vec<Val> = ci.args.iter().map(|(_, o)| self.op(st, o)).collect();
                let t = st.cur;
                if st.th[t].frames.len() > 4000 {
                    return Err(Stop::Viol("stack".into(), "stack overflow (4000 frames)".into()));
                }
                self.push_frame(st, t, f, args);
                Ok(Flow::Stay)
            }
            Bk::Nop => self.fin(st, ci, None),
            Bk::Memcpy => {
                let d = self.op(st, &ci.args[0].1);
                let s = self.op(st, &ci.args[1].1);
                let n = self.op(st, &ci.args[2].1);
                let n = self.conc(st, &n)? as u64;
                if n > 0 {
                    let d = self.conc(st, &d)? as u64;
                    let s = self.conc(st, &s)? as u64;
                    bad(st.mem.copy(d, s, n))?;
                }
                let d = self.op(st, &ci.args[0].1);
                self.fin(st, ci, Some(d))
            }
            Bk::Memset => {
                let d = self.op(st, &ci.args[0].1);
                let v = self.op(st, &ci.args[1].1);
                let n = self.op(st, &ci.args[2].1);
                let n = self.conc(st, &n)? as u64;
                if n > 0 {
                    let d = self.conc(st, &d)? as u64;
                    match v {
                        Val::C(c) => bad(st.mem.wr_bytes(d, &vec![c as u8; n as usize], None))?,
                        Val::S(e) => {
                            let e = if self.x.width(e) > 8 { self.x.ext(e, 7, 0) } else { e };
                            bad(st.mem.wr_bytes(d, &vec![0; n as usize], Some(&vec![e; n as usize])))?
                        }
                        _ => return Err(Stop::Inc("internal: memset".into())),
                    }
                }
                let d = self.op(st, &ci.args[0].1);
                self.fin(st, ci, Some(d))
            }
            Bk::Named => {
                let name: &'static str = self.m.funcs[fid as usize].name.as_str();
                let args: Vec<Val> = ci.args.iter().map(|(_, o)| self.op(st, o)).collect();
                self.builtin(st, ci, name, &args)
            }
        }
    }
    /// Complete a builtin call with a result.
    fn fin(&mut self, st: &mut State, ci: &'static CallI, r: Option<Val>) -> X<Flow> {
        if let Some(d) = ci.dst {
            self.set(st, d, r.unwrap_or(Val::C(0)));
        }
        if let Some((n, _)) = &ci.inv {
            self.jump(st, n);
            return Ok(Flow::Stay);
        }
        Ok(Flow::Next)
    }
    fn cargs(&mut self, st: &mut State, a: &[Val]) -> X<Vec<u64>> {
        let mut v = vec![];
        for x in a {
            v.push(self.conc(st, x)? as u64);
        }
        Ok(v)
    }
    fn rstr(&mut self, st: &State, p: u64, n: u64) -> X<String> {
        let (d, _) = bad(st.mem.rd_bytes(p, n))?;
        Ok(String::from_utf8_lossy(&d).into_owned())
    }
    fn byte_ex(&mut self, d: &[u8], s: &Option<Vec<Ex>>, i: usize) -> Ex {
        match s {
            Some(s) if s[i] != NOSYM => s[i],
            _ => self.x.k(d[i] as u128, 8),
        }
    }
    fn alloc(&mut self, st: &mut State, n: u64, zero_: bool) -> u64 {
        let _ = zero_;
        if n > 1 << 28 {
            return 0;
        }
        st.mem.add(Kind::Heap, vec![0; n as usize])
    }
    fn fresh(&mut self, st: &mut State, name: &str, n: u64) -> Vec<Ex> {
        let k = {
            let m = Rc::make_mut(&mut st.names);
            let c = m.entry(name.to_string()).or_insert(0);
            *c += 1;
            *c - 1
        };
        let full = format!("{}#{}", name, k);
        let es: Vec<Ex> = (0..n).map(|i| self.x.var(&format!("{}[{}]", full, i))).collect();
        let vars = es
            .iter()
            .map(|e| match self.x.n[*e as usize] {
                N::Var(v) => v,
                _ => unreachable!(),
            })
            .collect();
        Rc::make_mut(&mut st.made).push(Made { name: full, vars });
        es
    }
    fn builtin(&mut self, st: &mut State, ci: &'static CallI, name: &'static str, a: &[Val]) -> X<Flow> {
        let t = st.cur;
        if let Some(rest) = name.strip_prefix("llvm.") {
            return self.intrinsic(st, ci, rest, a);
        }
        match name {
            // ------------------------------------------------ harness interface
            "rsx_make" => {
                let v = self.cargs(st, a)?;
                let nm = self.rstr(st, v[2], v[3])?;
                let es = self.fresh(st, &nm, v[1]);
                if v[1] > 0 {
                    bad(st.mem.wr_bytes(v[0], &vec![0; v[1] as usize], Some(&es)))?;
                }
                self.fin(st, ci, None)
            }
            "rsx_choice" => {
                let v = self.cargs(st, a)?;
                let nm = self.rstr(st, v[1], v[2])?;
                let es = self.fresh(st, &nm, 1);
                if v[0] < 256 {
                    let k = self.x.k(v[0] as u128, 8);
                    let c = self.x.ult(es[0], k);
                    self.pc_add(st, c);
                }
                let z = self.x.zext(es[0], 32);
                let z = self.val(z);
                self.fin(st, ci, Some(z))
            }
            "rsx_assume" => {
                let c = match &a[0] {
                    Val::C(v) => {
                        if *v & 1 == 0 {
                            return Err(Stop::Pruned);
                        }
                        return self.fin(st, ci, None);
                    }
                    Val::S(e) => *e,
                    _ => return Err(Stop::Inc("internal: assume".into())),
                };
                let c = if self.x.width(c) > 1 { self.x.ext(c, 0, 0) } else { c };
                if self.x.eval(c, &st.model) != 1 {
                    match self.feas(st, c)? {
                        Some(m) => self.with_model(st, &m),
                        None => return Err(Stop::Pruned),
                    }
                }
                self.pc_add(st, c);
                self.fin(st, ci, None)
            }
            "rsx_assert" => {
                let (p, n) = (self.conc(st, &a[1])? as u64, self.conc(st, &a[2])? as u64);
                let msg = self.rstr(st, p, n)?;
                match &a[0] {
                    Val::C(v) => {
                        self.so.st.asserts_const += 1;
                        self.rep.asserts.entry(msg.clone()).or_insert((0, 0)).1 += 1;
                        if *v & 1 == 0 {
                            return Err(Stop::Viol("assert".into(), msg));
                        }
                    }
                    Val::S(e) => {
                        let c = if self.x.width(*e) > 1 { self.x.ext(*e, 0, 0) } else { *e };
                        let nc = self.x.not(c);
                        self.so.st.asserts_z3 += 1;
                        self.rep.asserts.entry(msg.clone()).or_insert((0, 0)).0 += 1;
                        let pc = st.pc.clone();
                        match self.so.check(&mut self.x, &pc, nc, false) {
                            Res::Unsat => {}
                            Res::Unknown => {
                                if std::env::var("RSX_SHOW").is_ok() {
                                    eprintln!("undecided {}: {}", msg, self.x.show(c));
                                }
                                return Err(Stop::Inc(format!("solver gave up on assertion {}", msg)));
                            }
                            Res::Sat(m) => {
                                let mut o = st.clone();
                                self.with_model(&mut o, &m);
                                self.pc_add(&mut o, nc);
                                self.violation(&mut o, "assert".into(), msg, None);
                                if self.x.eval(c, &st.model) != 1 {
                                    match self.feas(st, c)? {
                                        Some(m) => self.with_model(st, &m),
                                        None => return Err(Stop::Pruned),
                                    }
                                }
                                self.pc_add(st, c);
                            }
                        }
                    }
                    _ => return Err(Stop::Inc("internal: assert".into())),
                }
                self.fin(st, ci, None)
            }
            "rsx_reach" => {
                let v = self.cargs(st, a)?;
                let s = self.rstr(st, v[0], v[1])?;
                *self.rep.reach.entry(s).or_insert(0) += 1;
                self.fin(st, ci, None)
            }
            "rsx_log" => {
                let v = self.cargs(st, a)?;
                let s = self.rstr(st, v[0], v[1])?;
                let (d, sy) = bad(st.mem.rd_bytes(v[2], v[3]))?;
                let es = (0..d.len()).map(|i| self.byte_ex(&d, &sy, i)).collect();
                Rc::make_mut(&mut st.log).push((s, es));
                self.fin(st, ci, None)
            }
            "rsx_conc" => {
                let v = self.conc(st, &a[0])?;
                self.fin(st, ci, Some(Val::C(v)))
            }
            "rsx_native" => self.fin(st, ci, Some(Val::C(0))),
            "rsx_yield" => {
                // let every other runnable thread run until it blocks
                let r = self.fin(st, ci, None)?;
                if let Flow::Next = r {
                    let fr = Rc::make_mut(st.th[t].frames.last_mut().unwrap());
                    fr.ip += 1;
                }
                self.sched(st)?;
                Ok(Flow::Stay)
            }
            "rsx_block" => {
                let r = self.fin(st, ci, None)?;
                if let Flow::Next = r {
                    let fr = Rc::make_mut(st.th[t].frames.last_mut().unwrap());
                    fr.ip += 1;
                }
                st.th[t].st = Status::Futex { addr: 1, deadline: None, dst: None };
                Ok(Flow::Stay)
            }
            "rsx_now" => {
                let c = st.clock;
                self.fin(st, ci, Some(Val::C(c as u128)))
            }
            "rsx_block_until" => {
                let d = self.conc(st, &a[0])? as u64;
                let r = self.fin(st, ci, None)?;
                if let Flow::Next = r {
                    let fr = Rc::make_mut(st.th[t].frames.last_mut().unwrap());
                    fr.ip += 1;
                }
                st.th[t].st = Status::Futex { addr: 1, deadline: Some(d), dst: None };
                Ok(Flow::Stay)
            }
            "rsx_wake" => {
                for o in 0..st.th.len() {
                    if let Status::Futex { addr: 1, .. } = st.th[o].st {
                        st.th[o].st = Status::Run;
                    }
                }
                self.fin(st, ci, None)
            }
            // ------------------------------------------------ memory
            "malloc" => {
                let n = self.conc(st, &a[0])? as u64;
                let p = self.alloc(st, n, false);
                self.fin(st, ci, Some(Val::C(p as u128)))
            }
            "calloc" => {
                let v = self.cargs(st, a)?;
                let n = v[0].checked_mul(v[1]).unwrap_or(u64::MAX);
                let p = self.alloc(st, n, true);
                self.fin(st, ci, Some(Val::C(p as u128)))
            }
            "posix_memalign" => {
                let v = self.cargs(st, a)?;
                let p = self.alloc(st, v[2], false);
                if p == 0 {
                    return self.fin(st, ci, Some(Val::C(12)));
                }
                bad(st.mem.wr_u(v[0], p, 8))?;
                self.fin(st, ci, Some(Val::C(0)))
            }
            "aligned_alloc" => {
                let v = self.cargs(st, a)?;
                let p = self.alloc(st, v[1], false);
                self.fin(st, ci, Some(Val::C(p as u128)))
            }
            "realloc" => {
                let v = self.cargs(st, a)?;
                let p = self.alloc(st, v[1], false);
                if p != 0 && v[0] != 0 {
                    let old = match st.mem.get(v[0] >> 32) {
                        Some(o) if o.kind == Kind::Heap && v[0] & 0xffff_ffff == 0 => o.d.len() as u64,
                        _ => return Err(Stop::Viol("memory".into(), "realloc of a bad pointer".into())),
                    };
                    bad(st.mem.copy(p, v[0], old.min(v[1])))?;
                    st.mem.free(v[0]);
                }
                self.fin(st, ci, Some(Val::C(p as u128)))
            }
            "free" => {
                let p = self.conc(st, &a[0])? as u64;
                if p != 0 {
                    match st.mem.get(p >> 32) {
                        Some(o) if o.kind == Kind::Heap && p & 0xffff_ffff == 0 => {}
                        _ => return Err(Stop::Viol("memory".into(), "free of a bad pointer".into())),
                    }
                    st.mem.free(p);
                }
                self.fin(st, ci, None)
            }
            "memcmp" | "bcmp" => {
                let n = self.conc(st, &a[2])? as u64;
                if n == 0 {
                    return self.fin(st, ci, Some(Val::C(0)));
                }
                let (p, q) = (self.conc(st, &a[0])? as u64, self.conc(st, &a[1])? as u64);
                let (d1, s1) = bad(st.mem.rd_bytes(p, n))?;
                let (d2, s2) = bad(st.mem.rd_bytes(q, n))?;
                if s1.is_none() && s2.is_none() {
                    let r = match d1.cmp(&d2) {
                        std::cmp::Ordering::Less => mask(u128::MAX, 32),
                        std::cmp::Ordering::Equal => 0,
                        _ => 1,
                    };
                    return self.fin(st, ci, Some(Val::C(r)));
                }
                let e = if name == "bcmp" {
                    let mut c = self.x.k(1, 1);
                    for i in 0..n as usize {
                        let (u, v) = (self.byte_ex(&d1, &s1, i), self.byte_ex(&d2, &s2, i));
                        let q = self.x.eq(u, v);
                        c = self.x.and1(c, q);
                    }
                    let nc = self.x.not(c);
                    self.x.zext(nc, 32)
                } else {
                    let mut r = self.x.k(0, 32);
                    for i in (0..n as usize).rev() {
                        let (u, v) = (self.byte_ex(&d1, &s1, i), self.byte_ex(&d2, &s2, i));
                        let q = self.x.eq(u, v);
                        let lt = self.x.ult(u, v);
                        let (m1, p1) = (self.x.k(u32::MAX as u128, 32), self.x.k(1, 32));
                        let o = self.x.ite(lt, m1, p1);
                        r = self.x.ite(q, r, o);
                    }
                    r
                };
                let v = self.val(e);
                self.fin(st, ci, Some(v))
            }
            "strlen" => {
                let p = self.conc(st, &a[0])? as u64;
                let mut n = 0;
                loop {
                    let v = bad(st.mem.load(&mut self.x, p + n, &Ty::Int(8)))?;
                    let e = self.cmp1(Pred::Eq, 8, &v, &Val::C(0));
                    if self.cond(st, &e)? {
                        break;
                    }
                    n += 1;
                }
                self.fin(st, ci, Some(Val::C(n as u128)))
            }
            // ------------------------------------------------ unwinding
            "_Unwind_RaiseException" => {
                let p = self.conc(st, &a[0])? as u64;
                self.unwind(st, p)?;
                Ok(Flow::Stay)
            }
            "_Unwind_DeleteException" => self.fin(st, ci, None),
            "_Unwind_Backtrace" => self.fin(st, ci, Some(Val::C(5))),
            "exit" | "_exit" | "quick_exit" => Err(Stop::Viol("exit".into(), "the library ended the process".into())),
            "prctl" | "usleep" => self.fin(st, ci, Some(Val::C(0))),
            "sched_getaffinity" => self.fin(st, ci, Some(Val::C(mask(u128::MAX, 32)))),
            "abort" => Err(Stop::Viol("abort".into(), "process abort".into())),
            "__cxa_thread_atexit_impl" => {
                let v = self.cargs(st, a)?;
                st.th[t].dtors.push((v[0], v[1]));
                self.fin(st, ci, Some(Val::C(0)))
            }
            // ------------------------------------------------ threads
            "pthread_key_create" => {
                let v = self.cargs(st, a)?;
                let k = st.nkeys;
                st.nkeys += 1;
                bad(st.mem.wr_u(v[0], k, 4))?;
                Rc::make_mut(&mut st.keyd).insert(k, v[1]);
                self.fin(st, ci, Some(Val::C(0)))
            }
            "pthread_key_delete" => self.fin(st, ci, Some(Val::C(0))),
            "pthread_setspecific" => {
                let v = self.cargs(st, a)?;
                st.th[t].keys.insert(v[0], v[1]);
                self.fin(st, ci, Some(Val::C(0)))
            }
            "pthread_getspecific" => {
                let v = self.cargs(st, a)?;
                let r = st.th[t].keys.get(&v[0]).cloned().unwrap_or(0);
                self.fin(st, ci, Some(Val::C(r as u128)))
            }
            "pthread_create" => {
                let v = self.cargs(st, a)?;
                let n = st.th.len();
                st.th.push(Thread {
                    frames: vec![],
                    st: Status::Run,
                    tls: Rc::new(HashMap::new()),
                    exc: 0,
                    dtors: vec![],
                    keys: BTreeMap::new(),
                    errno: 0,
                    detached: false,
                });
                let f = self.func(((v[2] >> 32) - FUNC_BASE) as u32);
                self.push_frame(st, n, f, vec![Val::C(v[3] as u128)]);
                bad(st.mem.wr_u(v[0], n as u64, 8))?;
                self.fin(st, ci, Some(Val::C(0)))
            }
            "pthread_join" => {
                let v = self.cargs(st, a)?;
                if st.th[v[0] as usize].st != Status::Done {
                    // run again once the thread has ended
                    st.th[t].st = Status::Join { tid: v[0] };
                    return Ok(Flow::Stay);
                }
                self.fin(st, ci, Some(Val::C(0)))
            }
            "pthread_detach" => {
                let v = self.cargs(st, a)?;
                st.th[v[0] as usize].detached = true;
                self.fin(st, ci, Some(Val::C(0)))
            }
            "pthread_self" => self.fin(st, ci, Some(Val::C(t as u128))),
            "gettid" => self.fin(st, ci, Some(Val::C(1000 + t as u128))),
            "getpid" => self.fin(st, ci, Some(Val::C(1000))),
            "pthread_attr_init" | "pthread_attr_setstacksize" | "pthread_attr_destroy" | "pthread_setname_np" | "sigaltstack" | "mprotect"
            | "munmap" | "signal" | "sigaction" => self.fin(st, ci, Some(Val::C(0))),
            "sched_yield" => {
                let r = self.fin(st, ci, Some(Val::C(0)))?;
                if let Flow::Next = r {
                    let fr = Rc::make_mut(st.th[t].frames.last_mut().unwrap());
                    fr.ip += 1;
                }
                st.clock += 1000;
                self.sched(st)?;
                Ok(Flow::Stay)
            }
            "syscall" => {
                let v = self.cargs(st, a)?;
                match v[0] {
                    202 => {
                        let op = v[2] & 0x7f;
                        if op == 0 || op == 9 {
                            let cur = bad(st.mem.rd_u(v[1], 4))?;
                            if cur != v[3] & 0xffff_ffff {
                                self.set_errno(st, t, 11)?;
                                return self.fin(st, ci, Some(Val::C(mask(u128::MAX, 64))));
                            }
                            let deadline = if v[4] != 0 {
                                let s = bad(st.mem.rd_u(v[4], 8))?;
                                let n = bad(st.mem.rd_u(v[4] + 8, 8))?;
                                let d = s.saturating_mul(1_000_000_000).saturating_add(n);
                                Some(if op == 9 { d } else { st.clock + d })
                            } else {
                                None
                            };
                            let r = self.fin(st, ci, Some(Val::C(0)))?;
                            if let Flow::Next = r {
                                let fr = Rc::make_mut(st.th[t].frames.last_mut().unwrap());
                                fr.ip += 1;
                            }
                            st.th[t].st = Status::Futex { addr: v[1], deadline, dst: ci.dst };
                            Ok(Flow::Stay)
                        } else if op == 1 || op == 10 {
                            let mut k = 0;
                            for o in 0..st.th.len() {
                                if k >= v[3] {
                                    break;
                                }
                                if let Status::Futex { addr, .. } = st.th[o].st {
                                    if addr == v[1] {
                                        st.th[o].st = Status::Run;
                                        k += 1;
                                    }
                                }
                            }
                            self.fin(st, ci, Some(Val::C(k as u128)))
                        } else {
                            Err(Stop::Inc(format!("futex op {}", op)))
                        }
                    }
                    318 => {
                        // getrandom: fixed bytes
                        let d: Vec<u8> = (0..v[2]).map(|i| (i * 37 + 11) as u8).collect();
                        bad(st.mem.wr_bytes(v[1], &d, None))?;
                        self.fin(st, ci, Some(Val::C(v[2] as u128)))
                    }
                    186 => self.fin(st, ci, Some(Val::C(1000 + t as u128))),
                    n => Err(Stop::Inc(format!("syscall {}", n))),
                }
            }
            // ------------------------------------------------ libc misc
            "__errno_location" => {
                let p = self.errno_addr(st, t);
                self.fin(st, ci, Some(Val::C(p as u128)))
            }
            // no files, no terminals
            "open64" | "openat64" | "opendir" | "stat64" | "lstat64" | "fstat64" | "statx" | "readlink" | "realpath" | "getcwd" => {
                self.set_errno(st, t, 2)?;
                self.fin(st, ci, Some(Val::C(if matches!(name, "opendir" | "realpath" | "getcwd") { 0 } else { mask(u128::MAX, ci.ret.bits()) })))
            }
            "isatty" => {
                self.set_errno(st, t, 25)?;
                self.fin(st, ci, Some(Val::C(0)))
            }
            "getppid" | "getuid" => self.fin(st, ci, Some(Val::C(1))),
            "strnlen" => {
                let (p, m) = (self.conc(st, &a[0])? as u64, self.conc(st, &a[1])? as u64);
                let mut n = 0;
                while n < m {
                    let v = bad(st.mem.load(&mut self.x, p + n, &Ty::Int(8)))?;
                    let e = self.cmp1(Pred::Eq, 8, &v, &Val::C(0));
                    if self.cond(st, &e)? {
                        break;
                    }
                    n += 1;
                }
                self.fin(st, ci, Some(Val::C(n as u128)))
            }
            "fmod" | "pow" | "exp" | "log" | "log10" | "log2" | "cbrt" | "hypot" => {
                let x = f64::from_bits(self.conc(st, &a[0])? as u64);
                let y = if a.len() > 1 { f64::from_bits(self.conc(st, &a[1])? as u64) } else { 0.0 };
                let r = match name {
                    "fmod" => x % y,
                    "pow" => x.powf(y),
                    "exp" => x.exp(),
                    "log" => x.ln(),
                    "log10" => x.log10(),
                    "log2" => x.log2(),
                    "cbrt" => x.cbrt(),
                    _ => x.hypot(y),
                };
                self.fin(st, ci, Some(Val::C(r.to_bits() as u128)))
            }
            "getenv" => self.fin(st, ci, Some(Val::C(0))),
            "dlsym" => self.fin(st, ci, Some(Val::C(0))),
            "getauxval" => self.fin(st, ci, Some(Val::C(0))),
            "sysconf" => {
                let n = self.conc(st, &a[0])? as u64;
                self.fin(st, ci, Some(Val::C(if n == 83 || n == 84 { 8 } else { 4096 })))
            }
            "__xpg_strerror_r" => {
                let v = self.cargs(st, a)?;
                let s = format!("errno {}\0", v[0] as u32);
                let n = (s.len() as u64).min(v[2]);
                bad(st.mem.wr_bytes(v[1], &s.as_bytes()[..n as usize], None))?;
                self.fin(st, ci, Some(Val::C(0)))
            }
            "clock_gettime" => {
                let v = self.cargs(st, a)?;
                st.clock += 1000;
                let c = st.clock;
                bad(st.mem.wr_u(v[1], c / 1_000_000_000, 8))?;
                bad(st.mem.wr_u(v[1] + 8, c % 1_000_000_000, 8))?;
                self.fin(st, ci, Some(Val::C(0)))
            }
            "clock_nanosleep" | "nanosleep" => {
                let v = self.cargs(st, a)?;
                let p = if name == "nanosleep" { v[0] } else { v[2] };
                let s = bad(st.mem.rd_u(p, 8))?;
                let n = bad(st.mem.rd_u(p + 8, 8))?;
                let d = s.saturating_mul(1_000_000_000).saturating_add(n);
                let abs = name == "clock_nanosleep" && v[1] & 1 == 1;
                let deadline = if abs { d } else { st.clock + d };
                let r = self.fin(st, ci, Some(Val::C(0)))?;
                if let Flow::Next = r {
                    let fr = Rc::make_mut(st.th[t].frames.last_mut().unwrap());
                    fr.ip += 1;
                }
                st.th[t].st = Status::Sleep { deadline };
                Ok(Flow::Stay)
            }
            _ => Err(Stop::Inc(format!("external function {}", name))),
        }
    }
    fn intrinsic(&mut self, st: &mut State, ci: &'static CallI, name: &'static str, a: &[Val]) -> X<Flow> {
        let base = name.split(".i").next().unwrap_or(name);
        let t = st.cur;
        if let Ty::Vec(n, et) = &ci.ret {
            // element-wise for the min/max/abs style intrinsics
            let mut o = vec![];
            for i in 0..*n as usize {
                let args: Vec<Val> = a
                    .iter()
                    .map(|v| match v {
                        Val::A(x) => x[i].clone(),
                        c => c.clone(),
                    })
                    .collect();
                let b = name.split(".v").next().unwrap();
                match self.scalar_intr(st, b, et.bits(), et.bits(), &args)? {
                    Some(v) => o.push(v),
                    None => return Err(Stop::Inc(format!("intrinsic {}", name))),
                }
            }
            return self.fin(st, ci, Some(Val::A(Rc::new(o))));
        }
        if let Some(v) = self.float_intr(st, name, ci, a)? {
            return self.fin(st, ci, Some(v));
        }
        match base {
            "threadlocal.address.p0" => {
                let g = self.conc(st, &a[0])? as u64;
                let gi = ((g >> 32) - GLOB_BASE) as u32;
                let addr = match st.th[t].tls.get(&gi) {
                    Some(x) => *x,
                    None => {
                        let g = &self.m.globals[gi as usize];
                        let d = g.init.clone().unwrap_or_else(|| vec![0; g.ty.size() as usize]);
                        let p = st.mem.add(Kind::Tls, d);
                        Rc::make_mut(&mut st.th[t].tls).insert(gi, p);
                        p
                    }
                };
                return self.fin(st, ci, Some(Val::C(addr as u128)));
            }
            "trap" => return Err(Stop::Viol("trap".into(), "llvm.trap".into())),
            "is.constant" => return self.fin(st, ci, Some(Val::C(0))),
            "expect" | "ssa.copy" => return self.fin(st, ci, Some(a[0].clone())),
            "load.relative" => {
                let p = self.conc(st, &a[0])? as u64;
                let o = self.conc(st, &a[1])? as u64;
                let v = bad(st.mem.rd_u(p.wrapping_add(o), 4))?;
                return self.fin(st, ci, Some(Val::C(p.wrapping_add(v as i32 as i64 as u64) as u128)));
            }
            _ => {}
        }
        let aw = match &ci.args[0].0 {
            t => t.bits(),
        };
        let rw = match &ci.ret {
            Ty::Struct(..) => aw,
            t => t.bits(),
        };
        match self.scalar_intr(st, base, aw, rw, a)? {
            Some(v) => self.fin(st, ci, Some(v)),
            None => Err(Stop::Inc(format!("intrinsic {}", name))),
        }
    }
    /// Floating point is evaluated on concrete values.
    fn float_intr(&mut self, st: &mut State, name: &str, ci: &'static CallI, a: &[Val]) -> X<Option<Val>> {
        let mut p = name.split('.').collect::<Vec<_>>();
        let n = match p.iter().position(|s| *s == "f64" || *s == "f32") {
            Some(i) if i > 0 => i,
            _ => return Ok(None),
        };
        let single = p[n] == "f32";
        let base = if p[0] == "experimental" { return Ok(None) } else { p.drain(..n).filter(|s| !s.strip_prefix('i').map_or(false, |d| d.parse::<u32>().is_ok())).collect::<Vec<_>>().join(".") };
        let mut bits = vec![];
        for v in a {
            bits.push(self.conc(st, v)?);
        }
        let f = |i: usize| if single { f32::from_bits(bits[i] as u32) as f64 } else { f64::from_bits(bits[i] as u64) };
        let x = f(0);
        if base.ends_with("sat") {
            let w = ci.ret.bits();
            let r = if base.starts_with("fptoui") {
                let m = mask(u128::MAX, w);
                (x as u128).min(m)
            } else {
                let hi = (mask(u128::MAX, w) >> 1) as i128;
                mask((x as i128).clamp(-hi - 1, hi) as u128, w)
            };
            return Ok(Some(Val::C(r)));
        }
        if base == "is.fpclass" {
            let k = bits[1] as u32;
            let neg = x.is_sign_negative();
            let bit = if x.is_nan() {
                3
            } else if x.is_infinite() {
                if neg { 4 } else { 0x200 }
            } else if x == 0.0 {
                if neg { 0x20 } else { 0x40 }
            } else if if single { (x as f32).is_subnormal() } else { x.is_subnormal() } {
                if neg { 0x10 } else { 0x80 }
            } else if neg {
                8
            } else {
                0x100
            };
            return Ok(Some(Val::C((k & bit != 0) as u128)));
        }
        let r = match base.as_str() {
            "fabs" => x.abs(),
            "floor" => x.floor(),
            "ceil" => x.ceil(),
            "trunc" => x.trunc(),
            "round" => x.round(),
            "roundeven" | "rint" | "nearbyint" => x.round_ties_even(),
            "sqrt" => x.sqrt(),
            "minnum" | "minimumnum" => x.min(f(1)),
            "maxnum" | "maximumnum" => x.max(f(1)),
            "copysign" => x.copysign(f(1)),
            "fma" | "fmuladd" if !single => x.mul_add(f(1), f(2)),
            "pow" if !single => x.powf(f(1)),
            "exp" if !single => x.exp(),
            "log" if !single => x.ln(),
            _ => return Ok(None),
        };
        Ok(Some(Val::C(if single { (r as f32).to_bits() as u128 } else { r.to_bits() as u128 })))
    }
    fn scalar_intr(&mut self, st: &mut State, base: &str, w: u32, rw: u32, a: &[Val]) -> X<Option<Val>> {
        let mx = mask(u128::MAX, w);
        let (smax, smin) = (mx >> 1, (mx >> 1) + 1);
        let ity = Ty::Int(w);
        Ok(Some(match base {
            "umin" | "umax" | "smin" | "smax" => {
                let p = match base {
                    "umin" => Pred::Ult,
                    "umax" => Pred::Ugt,
                    "smin" => Pred::Slt,
                    _ => Pred::Sgt,
                };
                let c = self.cmp1(p, w, &a[0], &a[1]);
                self.sel1(st, &c, &ity, a[0].clone(), a[1].clone())?
            }
            "abs" => {
                let c = self.cmp1(Pred::Slt, w, &a[0], &Val::C(0));
                let n = self.bin1(st, B::Sub, w, false, &Val::C(0), &a[0])?;
                self.sel1(st, &c, &ity, n, a[0].clone())?
            }
            "ucmp" | "scmp" => {
                let (lt, gt) = if base == "ucmp" { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let l = self.cmp1(lt, w, &a[0], &a[1]);
                let g = self.cmp1(gt, w, &a[0], &a[1]);
                let rt = Ty::Int(rw);
                let x = self.sel1(st, &g, &rt, Val::C(1), Val::C(0))?;
                self.sel1(st, &l, &rt, Val::C(mask(u128::MAX, rw)), x)?
            }
            "usub.sat" => {
                let c = self.cmp1(Pred::Ult, w, &a[0], &a[1]);
                let d = self.bin1(st, B::Sub, w, false, &a[0], &a[1])?;
                self.sel1(st, &c, &ity, Val::C(0), d)?
            }
            "uadd.sat" => {
                let d = self.bin1(st, B::Add, w, false, &a[0], &a[1])?;
                let c = self.cmp1(Pred::Ult, w, &d, &a[0]);
                self.sel1(st, &c, &ity, Val::C(mx), d)?
            }
            "uadd.with.overflow" | "usub.with.overflow" | "umul.with.overflow" | "sadd.with.overflow" | "ssub.with.overflow"
            | "smul.with.overflow" | "sadd.sat" | "ssub.sat" => {
                let op = match &base[1..4] {
                    "add" => B::Add,
                    "sub" => B::Sub,
                    _ => B::Mul,
                };
                let signed = base.starts_with('s');
                let r = self.bin1(st, op, w, false, &a[0], &a[1])?;
                let ov = if op == B::Add && !signed {
                    self.cmp1(Pred::Ult, w, &r, &a[0])
                } else if op == B::Sub && !signed {
                    self.cmp1(Pred::Ult, w, &a[0], &a[1])
                } else {
                    // widen; twice the width always suffices
                    if w > 64 {
                        let (p, q) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?);
                        let o = match (signed, op) {
                            (false, _) => p.checked_mul(q).is_none(),
                            (true, B::Add) => (p as i128).checked_add(q as i128).is_none(),
                            (true, B::Sub) => (p as i128).checked_sub(q as i128).is_none(),
                            (true, _) => (p as i128).checked_mul(q as i128).is_none(),
                        };
                        Val::C(o as u128)
                    } else {
                        let w2 = if op == B::Mul { w * 2 } else { w + 1 };
                        let k = if signed { CastK::SExt } else { CastK::ZExt };
                        let p = self.cast1(st, k, w, w2, &a[0])?;
                        let q = self.cast1(st, k, w, w2, &a[1])?;
                        let full = self.bin1(st, op, w2, false, &p, &q)?;
                        let back = self.cast1(st, k, w, w2, &r)?;
                        self.cmp1(Pred::Ne, w2, &full, &back)
                    }
                };
                if base.ends_with(".sat") {
                    let neg = self.cmp1(Pred::Slt, w, &a[0], &Val::C(0));
                    let lim = self.sel1(st, &neg, &ity, Val::C(smin), Val::C(smax))?;
                    self.sel1(st, &ov, &ity, lim, r)?
                } else {
                    Val::A(Rc::new(vec![r, ov]))
                }
            }
            "ctpop" => match &a[0] {
                Val::C(c) => Val::C(c.count_ones() as u128),
                v => {
                    let e = self.ex(v, w);
                    let mut s = self.x.k(0, w);
                    for i in 0..w {
                        let b = self.x.ext(e, i, i);
                        let z = if w > 1 { self.x.zext(b, w) } else { b };
                        s = self.x.bin(B::Add, s, z);
                    }
                    self.val(s)
                }
            },
            "cttz" => match &a[0] {
                Val::C(c) => Val::C(if *c == 0 { w as u128 } else { c.trailing_zeros() as u128 }),
                v => {
                    let e = self.ex(v, w);
                    let mut r = self.x.k(w as u128, w);
                    for i in (0..w).rev() {
                        let b = self.x.ext(e, i, i);
                        let k = self.x.k(i as u128, w);
                        r = self.x.ite(b, k, r);
                    }
                    self.val(r)
                }
            },
            "ctlz" => match &a[0] {
                Val::C(c) => Val::C((c.leading_zeros() - (128 - w)) as u128),
                v => {
                    let e = self.ex(v, w);
                    let mut r = self.x.k(w as u128, w);
                    for i in 0..w {
                        let b = self.x.ext(e, i, i);
                        let k = self.x.k((w - 1 - i) as u128, w);
                        r = self.x.ite(b, k, r);
                    }
                    self.val(r)
                }
            },
            "bswap" => {
                let e = self.ex(&a[0], w);
                let mut r: Option<Ex> = None;
                for i in 0..w / 8 {
                    let b = self.x.ext(e, i * 8 + 7, i * 8);
                    r = Some(match r {
                        None => b,
                        Some(h) => self.x.cat(h, b),
                    });
                }
                self.val(r.unwrap())
            }
            "bitreverse" => {
                let e = self.ex(&a[0], w);
                let mut r: Option<Ex> = None;
                for i in 0..w {
                    let b = self.x.ext(e, i, i);
                    r = Some(match r {
                        None => b,
                        Some(h) => self.x.cat(h, b),
                    });
                }
                self.val(r.unwrap())
            }
            "fshl" | "fshr" => {
                let s = self.conc(st, &a[2])? as u32 % w;
                let (h, l) = (self.ex(&a[0], w), self.ex(&a[1], w));
                let s = if base == "fshl" { s } else { (w - s) % w };
                if s == 0 {
                    let r = if base == "fshl" { h } else { l };
                    self.val(r)
                } else {
                    let p = self.x.ext(h, w - s - 1, 0);
                    let q = self.x.ext(l, w - 1, w - s);
                    let r = self.x.cat(p, q);
                    self.val(r)
                }
            }
            _ => return Ok(None),
        }))
    }
}

fn same_edge(a: &Edge, b: &Edge) -> bool {
    a.to == b.to
        && a.moves.len() == b.moves.len()
        && a.moves.iter().zip(b.moves.iter()).all(|((d1, o1), (d2, o2))| {
            d1 == d2
                && match (o1, o2) {
                    (Op::R(x), Op::R(y)) => x == y,
                    (Op::K(Val::C(x)), Op::K(Val::C(y))) => x == y,
                    _ => false,
                }
        })
}

fn fbin(op: B, w: u32, a: u128, b: u128) -> u128 {
    if w == 32 {
        let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
        let r = match op {
            B::FAdd => x + y,
            B::FSub => x - y,
            B::FMul => x * y,
            B::FDiv => x / y,
            _ => x % y,
        };
        r.to_bits() as u128
    } else {
        let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
        let r = match op {
            B::FAdd => x + y,
            B::FSub => x - y,
            B::FMul => x * y,
            B::FDiv => x / y,
            _ => x % y,
        };
        r.to_bits() as u128
    }
}
