//! The protocol's payloads as data: which members each carries, what is
//! optional and what an omitted member means.  Written from the protocol and
//! the crate's documented types, not from its serde attributes.
#![allow(dead_code)]
use crate::json::*;
use crate::rt::*;

pub enum F {
    Str,
    Uri,
    /// any JSON value
    Val,
    Bool,
    /// one of these numbers
    Num(&'static [&'static str]),
    Tag,
    DataKind,
    O(&'static [M]),
    A(&'static F),
}
/// How an absent member is treated.
#[derive(Clone, Copy, PartialEq)]
pub enum P {
    Req,
    /// absent and null mean "none"; not written then
    Opt,
    /// absent and null mean "none"; written as null
    OptNull,
    /// absent means empty; empty is not written
    Skip,
    /// absent means empty; written anyway
    Fill,
}
pub struct M(pub &'static str, pub F, pub P);
use F::*;
use P::*;

pub const TID: &[M] = &[M("uri", Uri, Req)];
pub const TARGETS: &[M] = &[M("targets", A(&O(TID)), Req)];
pub const DOC: &[M] = &[M("textDocument", O(TID), Req)];
pub const LANGS: &[M] = &[M("languageIds", A(&Str), Req)];
pub const STATUS: F = Num(&["0", "1", "137", "4294967295"]);
pub const TIME: F = Num(&["0", "4294967295", "4294967296", "1650000000123", "9007199254740991"]);
pub const COUNT: F = Num(&["0", "7", "4294967295"]);

pub const INIT: &[M] = &[
    M("displayName", Str, Req),
    M("version", Str, Skip),
    M("bspVersion", Str, Skip),
    M("rootUri", Uri, Req),
    M("capabilities", O(LANGS), Fill),
    M("data", Val, Opt),
];
pub const DEBUG: &[M] = &[M("targets", A(&O(TID)), Fill), M("dataKind", Str, Fill), M("data", Val, Opt)];
pub const RUN: &[M] = &[
    M("target", O(TID), Req),
    M("originId", Str, Opt),
    M("arguments", Str, Opt),
    M("dataKind", Str, Opt),
    M("data", Val, Opt),
];
pub const COMPILE: &[M] = &[M("target", O(TID), Req), M("originId", Str, Opt), M("arguments", Str, Opt)];

pub const REQS: &[(&str, &[M])] = &[
    ("build/initialize", INIT),
    ("buildTarget/dependencyModules", TARGETS),
    ("debugSession/start", DEBUG),
    ("buildTarget/sources", TARGETS),
    ("textDocument/inverseSources", DOC),
    ("buildTarget/dependencySources", DOC),
    ("buildTarget/resources", TARGETS),
    ("buildTarget/run", RUN),
    ("buildTarget/compile", COMPILE),
    ("buildTarget/test", RUN),
    ("buildTarget/cleanCache", TARGETS),
];
pub const BARE: &[&str] = &["build/shutdown", "workspace/buildTargets", "workspace/reload"];

pub const TASKID: &[M] = &[M("id", Str, Fill), M("parents", A(&Str), Skip)];
pub const SHOW: &[M] = &[
    M("type", Num(&["1", "2", "3", "4"]), Req),
    M("message", Str, Req),
    M("task", O(TASKID), Opt),
    M("originId", Str, Opt),
];
pub const POS: &[M] = &[M("line", COUNT, Req), M("character", COUNT, Req)];
pub const RANGE: &[M] = &[M("start", O(POS), Req), M("end", O(POS), Req)];
pub const DIAG: &[M] = &[
    M("range", O(RANGE), Req),
    M("severity", Num(&["1", "4"]), Opt),
    M("code", Str, Opt),
    M("source", Str, Opt),
    M("message", Str, Req),
];
pub const PUBLISH: &[M] = &[
    M("textDocument", O(TID), Req),
    M("buildTarget", O(TID), Req),
    M("originId", Str, OptNull),
    M("diagnostics", A(&O(DIAG)), Req),
    M("reset", Bool, Req),
];
pub const START: &[M] = &[
    M("taskId", O(TASKID), Req),
    M("eventTime", TIME, Opt),
    M("message", Str, Skip),
    M("dataKind", DataKind, Opt),
    M("data", Val, Opt),
];
pub const FINISH: &[M] = &[
    M("taskId", O(TASKID), Req),
    M("eventTime", TIME, Opt),
    M("message", Str, Skip),
    M("status", Num(&["1", "2", "3"]), Req),
    M("dataKind", DataKind, Opt),
    M("data", Val, Opt),
];
pub const PROGRESS: &[M] = &[
    M("taskId", O(TASKID), Req),
    M("eventTime", TIME, Opt),
    M("message", Str, Skip),
    M("total", COUNT, OptNull),
    M("progress", COUNT, OptNull),
    M("unit", Str, Skip),
    M("dataKind", DataKind, Opt),
    M("data", Val, Opt),
];
pub const EVENT: &[M] = &[M("target", O(TID), Req), M("kind", Num(&["1", "2", "3"]), Opt), M("data", Val, Opt)];
pub const CHANGE: &[M] = &[M("changes", A(&O(EVENT)), Req)];

pub const NOTIFS: &[(&str, &[M])] = &[
    ("build/showMessage", SHOW),
    ("build/logMessage", SHOW),
    ("build/publishDiagnostics", PUBLISH),
    ("build/taskStart", START),
    ("build/taskFinish", FINISH),
    ("build/taskProgressing", PROGRESS),
    ("buildTarget/didChange", CHANGE),
];

pub const CAPS: &[M] = &[
    M("compileProvider", O(LANGS), Opt),
    M("testProvider", O(LANGS), Opt),
    M("runProvider", O(LANGS), Opt),
    M("debugProvider", O(LANGS), Opt),
    M("inverseSourcesProvider", Bool, Opt),
    M("dependencySourcesProvider", Bool, Opt),
    M("dependencyModulesProvider", Bool, Opt),
    M("resourcesProvider", Bool, Opt),
    M("canReload", Bool, Opt),
    M("buildTargetChangedProvider", Bool, Opt),
];
pub const INITRES: &[M] = &[
    M("displayName", Str, Req),
    M("version", Str, Req),
    M("bspVersion", Str, Req),
    M("capabilities", O(CAPS), Req),
    M("data", Val, Opt),
];
pub const BTCAPS: &[M] = &[M("canCompile", Bool, Req), M("canTest", Bool, Req), M("canRun", Bool, Req), M("canDebug", Bool, Req)];
pub const TARGET: &[M] = &[
    M("id", O(TID), Req),
    M("displayName", Str, Opt),
    M("baseDirectory", Str, Opt),
    M("tags", A(&Tag), Req),
    M("capabilities", O(BTCAPS), Req),
    M("languageIds", A(&Str), Req),
    M("dependencies", A(&O(TID)), Req),
];
pub const WSRES: &[M] = &[M("targets", A(&O(TARGET)), Req)];
pub const MODULE: &[M] = &[M("name", Str, Req), M("version", Str, Req), M("dataKind", Str, OptNull), M("data", Val, OptNull)];
pub const MODITEM: &[M] = &[M("target", O(TID), Req), M("modules", A(&O(MODULE)), Req)];
pub const MODRES: &[M] = &[M("items", A(&O(MODITEM)), Req)];
pub const SOURCE: &[M] = &[M("uri", Uri, Req), M("kind", Num(&["1", "2"]), Req), M("generated", Bool, Req)];
pub const SRCITEM: &[M] = &[M("target", O(TID), Req), M("sources", A(&O(SOURCE)), Req)];
pub const SRCRES: &[M] = &[M("items", A(&O(SRCITEM)), Req)];
pub const DEPITEM: &[M] = &[M("target", O(TID), Req), M("sources", A(&Str), Req)];
pub const DEPRES: &[M] = &[M("items", A(&O(DEPITEM)), Req)];
pub const RESITEM: &[M] = &[M("target", O(TID), Req), M("resources", A(&Str), Req)];
pub const RESRES: &[M] = &[M("items", A(&O(RESITEM)), Req)];
pub const RUNRES: &[M] = &[M("originId", Str, Opt), M("statusCode", STATUS, Req)];
pub const COMPRES: &[M] = &[M("originId", Str, Opt), M("statusCode", STATUS, Req), M("dataKind", Str, Opt), M("data", Val, Opt)];
pub const CLEANRES: &[M] = &[M("message", Str, Opt), M("cleaned", Bool, Req)];

/// What of a payload is present and how big its parts are.
pub struct Gen {
    /// one entry per optional member met: present?
    pub mode: u32,
    pub opts: u32,
    /// absent optional members are written as null
    pub nulls: bool,
    pub shape: u32,
    pub alen: usize,
    pub slen: usize,
    pub nums: u32,
    /// flags, tags and task data kinds take one value each
    pub plain: bool,
    /// nested lists keep one element
    pub flat: bool,
    pub uri: u32,
    count: u32,
    depth: u32,
}
pub fn optional(ms: &[M]) -> u32 {
    ms.iter().map(|m| (if m.2 == Req { 0 } else { 1 }) + sub(&m.1)).sum()
}
fn sub(f: &F) -> u32 {
    match f {
        O(ms) => optional(ms),
        A(f) => sub(f),
        _ => 0,
    }
}
pub const SHAPES: u32 = 15;
pub const SUBSETS: u32 = 100_000;
pub const URIS: [&str; 19] = [
    "file:///", "file:///w/a.b/c-d_~e", "file:///w/a%20b%C3%A9", "file://host/share/x", "https://user@host:8080/p?q=1&r=%2F#f", "build:main", "bsp://t/?id=x", "jar:file:///x.jar!/a/B.scala",
    "mailto:a@b.c", "urn:x:y?q#z", "file:///w/", "file:///w/a/b/", "file:///w//b", "file:///w/a;b=c/@x:1,(2)", "https://h/", "file:///w/?", "file:///w/#", "file:///C:/x/Y.TXT", "unknown+x-1.0:/a/B",
];
impl Gen {
    /// Every optional member present, all absent, each one alone, all but one.
    pub fn pick(ms: &[M]) -> Gen {
        let m = optional(ms);
        let mode = if m == 0 { 0 } else { pick(2 + if m > 1 { 2 * m } else { 0 }, "optional") };
        Gen { mode, opts: 0, nulls: false, shape: 0, alen: 1, slen: 2, nums: 0, plain: false, flat: false, uri: 0, count: 0, depth: 0 }
    }
    pub fn fixed(mode: u32) -> Gen {
        Gen { mode, opts: 0, nulls: false, shape: 0, alen: 1, slen: 2, nums: 0, plain: false, flat: false, uri: 0, count: 0, depth: 0 }
    }
    fn present(&mut self) -> bool {
        let k = self.opts;
        self.opts += 1;
        match self.mode {
            0 => true,
            1 => false,
            // every subset (elements of lists one by one)
            SUBSETS => {
                let nm = self.name("o");
                pick(2, &nm) == 1
            }
            m => {
                let (i, only) = ((m - 2) / 2, (m - 2) % 2 == 0);
                (k == i) == only
            }
        }
    }
    fn name(&mut self, p: &str) -> String {
        self.count += 1;
        let mut s = String::from(p);
        s.push((b'a' + (self.count / 26) as u8) as char);
        s.push((b'a' + (self.count % 26) as u8) as char);
        s
    }
    pub fn string(&mut self) -> Vec<u8> {
        let nm = self.name("s");
        text(self.slen, &nm)
    }
    /// (as sent, as written back)
    pub fn value(&mut self, f: &F) -> (J, J) {
        let j = match f {
            Str => J::Str(self.string()),
            Uri if self.uri > 0 => s(URIS[self.uri as usize - 1]),
            Uri => {
                let nm = self.name("u");
                let mut t = b"file:///w/".to_vec();
                let l = bytes(2, &nm);
                for b in &l {
                    assume((*b >= b'a') & (*b <= b'z'));
                }
                t.extend_from_slice(&l);
                J::Str(t)
            }
            Val => self.any(),
            Bool => {
                let nm = self.name("b");
                J::Bool(if self.plain { self.count & 1 == 1 } else { pick(2, &nm) == 1 })
            }
            Num(l) => n(l[self.nums as usize % l.len()]),
            Tag => {
                if self.plain {
                    let t = s(["library", "application", "mine"][self.count as usize % 3]);
                    self.count += 1;
                    return (t.clone(), t);
                }
                let nm = self.name("tag");
                let l = ["library", "application", "test", "integration-test", "benchmark", "no-ide", "manual"];
                match pick(l.len() as u32 + 1, &nm) {
                    7 => J::Str(self.string()),
                    k => s(l[k as usize]),
                }
            }
            DataKind => {
                if self.plain {
                    let t = s(["compile-task", "mine", "test-report"][self.count as usize % 3]);
                    return (t.clone(), t);
                }
                let nm = self.name("kind");
                let l = ["compile-task", "compile-report", "test-task", "test-report", "test-start", "test-finish"];
                match pick(l.len() as u32 + 1, &nm) {
                    6 => J::Str(self.string()),
                    k => s(l[k as usize]),
                }
            }
            O(ms) => return self.object(ms),
            A(f) => {
                self.depth += 1;
                let o = self.opts;
                let mut v = (vec![], vec![]);
                for _ in 0..if self.flat && self.depth > 1 { 1 } else { self.alen } {
                    self.opts = o;
                    let (a, b) = self.value(f);
                    v.0.push(a);
                    v.1.push(b);
                }
                self.opts = o + sub(f);
                self.depth -= 1;
                return (J::Arr(v.0), J::Arr(v.1));
            }
        };
        (j.clone(), j)
    }
    fn any(&mut self) -> J {
        match self.shape {
            0 => J::Str(self.string()),
            1 => obj(vec![("k", J::Str(self.string())), ("n", n("-12")), ("o", obj(vec![("z", J::Null), ("a", J::Bool(true))]))]),
            2 => J::Arr(vec![n("1"), J::Null, J::Str(self.string()), J::Arr(vec![])]),
            3 => n("18446744073709551615"),
            4 => n("-9223372036854775808"),
            5 => J::Bool(false),
            6 => n("2.5"),
            7 => obj(vec![]),
            8 => J::Arr(vec![]),
            9 => s(""),
            10 => n("0"),
            11 => J::Bool(true),
            12 => n("-1"),
            13 => J::Arr(vec![J::Null]),
            _ => obj(vec![("", J::Null), ("dataKind", s("x")), ("data", obj(vec![("data", J::Arr(vec![obj(vec![])]))]))]),
        }
    }
    pub fn object(&mut self, ms: &[M]) -> (J, J) {
        let (mut a, mut b) = (vec![], vec![]);
        for M(name, f, p) in ms {
            let k = name.as_bytes().to_vec();
            let here = *p == Req || self.present();
            if here {
                // (an untagged text is formatted into a discarded complaint, character by character)
                let (x, y) = if *name == "code" && self.slen > 5 { (s("E0308"), s("E0308")) } else { self.value(f) };
                let empty = match &y {
                    J::Str(t) => t.is_empty(),
                    J::Arr(v) => v.is_empty(),
                    _ => false,
                };
                if !(*p == Skip && empty) {
                    b.push((k.clone(), y));
                }
                a.push((k, x));
                continue;
            }
            self.opts += sub(f);
            match p {
                Opt | OptNull => {
                    if self.nulls {
                        a.push((k.clone(), J::Null));
                    }
                    if *p == OptNull {
                        b.push((k, J::Null));
                    }
                }
                Fill => b.push((k, empty(f))),
                _ => {}
            }
        }
        (J::Obj(a), J::Obj(b))
    }
}
fn empty(f: &F) -> J {
    match f {
        Str => s(""),
        A(_) => J::Arr(vec![]),
        O(ms) => J::Obj(ms.iter().map(|M(k, f, _)| (k.as_bytes().to_vec(), empty(f))).collect()),
        _ => J::Null,
    }
}
