//! C09 request payloads, C10 result payloads, C11 notification payloads.
use crate::c_frame::uchar;
use crate::drv::*;
use crate::json::*;
use crate::pay::*;
use crate::rt::*;
use bsp_server::types::*;
use bsp_server::*;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::Value;

entries! { h_c09_opts h_c09_shapes h_c09_sizes h_c09_text h_c09_numbers h_c09_sets h_c09_subsets h_c09_long h_c09_uris h_c09_missing
           h_c11_opts h_c11_shapes h_c11_sizes h_c11_text h_c11_numbers h_c11_build h_c11_blank h_c11_subsets h_c11_long h_c11_uris h_c11_missing
           h_c10_opts h_c10_shapes h_c10_sizes h_c10_text h_c10_numbers h_c10_build h_c10_blank h_c10_subsets h_c10_long h_c10_uris h_c10_missing }

// ---------------------------------------------------------------- views
pub fn is_s(a: &str, j: Option<&J>) -> bool {
    let b = j.map_or(&[][..], |j| j.bytes());
    (a.len() == b.len()) && a.as_bytes() == b
}
fn o_s(a: Option<&String>, j: Option<&J>) -> bool {
    match (a, j) {
        (None, None) | (None, Some(J::Null)) => true,
        (Some(a), Some(J::Str(b))) => (a.len() == b.len()) && a.as_bytes() == &b[..],
        _ => false,
    }
}
fn o_v(a: Option<&Value>, j: Option<&J>) -> bool {
    match (a, j) {
        (None, None) | (None, Some(J::Null)) | (Some(Value::Null), None) => true,
        (Some(a), Some(j)) => same_val(a, j),
        _ => false,
    }
}
fn tids(a: &[BuildTargetIdentifier], j: Option<&J>) -> bool {
    let b = j.map_or(&[][..], |j| j.arr());
    let mut ok = a.len() == b.len();
    for (x, y) in a.iter().zip(b) {
        ok &= is_s(x.uri(), y.get("uri"));
    }
    ok
}
fn strs(a: &[String], j: Option<&J>) -> bool {
    let b = j.map_or(&[][..], |j| j.arr());
    let mut ok = a.len() == b.len();
    for (x, y) in a.iter().zip(b) {
        ok &= is_s(x, Some(y));
    }
    ok
}
fn uri(u: &str, j: Option<&J>) -> bool {
    is_s(u, j.and_then(|j| j.get("uri")))
}
/// The typed request exposes exactly what `c` says.
/// The root path is the path part of the root URI (of a plain file URI at least).
fn root_ok(path: &str, uri: Option<&J>) -> bool {
    let u = match uri {
        Some(J::Str(u)) => u,
        _ => return false,
    };
    if !u.starts_with(b"file:///") || u.iter().any(|b| b"%?#".contains(b)) {
        return true;
    }
    same(path.as_bytes(), &u[7..])
}
pub fn view_req(r: &Request, k: usize, c: &J) -> bool {
    use Request::*;
    match (k, r) {
        (0, InitializeBuild(_, p)) => {
            is_s(p.display_name(), c.get("displayName"))
                & is_s(p.version(), c.get("version"))
                & is_s(p.bsp_version(), c.get("bspVersion"))
                & is_s(p.root_uri().as_str(), c.get("rootUri"))
                & root_ok(p.root_path().to_str().unwrap(), c.get("rootUri"))
                & strs(p.capabilities().language_ids(), c.get("capabilities").and_then(|j| j.get("languageIds")))
                & o_v(p.data(), c.get("data"))
        }
        (1, BuildTargetDependencyModules(_, p)) => tids(p.targets(), c.get("targets")) & (p.is_empty() == p.targets().is_empty()),
        (2, DebugSessionStart(_, p)) => {
            tids(p.targets(), c.get("targets")) & is_s(p.data_kind(), c.get("dataKind")) & o_v(Some(p.data()), c.get("data"))
        }
        (3, BuildTargetSources(_, p)) => tids(p.targets(), c.get("targets")),
        (4, TextDocumentInverseSources(_, p)) => uri(p.text_document().uri.as_str(), c.get("textDocument")),
        (5, BuildTargetDependencySources(_, p)) => uri(p.text_document().uri.as_str(), c.get("textDocument")),
        (6, BuildTargetResources(_, p)) => tids(p.targets(), c.get("targets")),
        (7, BuildTargetRun(_, p)) => {
            uri(p.target().uri(), c.get("target"))
                & o_s(p.origin_id(), c.get("originId"))
                & o_s(p.arguments(), c.get("arguments"))
                & o_s(p.data_kind(), c.get("dataKind"))
                & o_v(p.data(), c.get("data"))
        }
        (8, BuildTargetCompile(_, p)) => {
            uri(p.target().uri(), c.get("target")) & o_s(p.origin_id(), c.get("originId")) & o_s(p.arguments(), c.get("arguments"))
        }
        (9, BuildTargetTest(_, p)) => {
            uri(p.target().uri(), c.get("target"))
                & o_s(p.origin_id(), c.get("originId"))
                & o_s(p.arguments(), c.get("arguments"))
                & o_s(p.data_kind(), c.get("dataKind"))
                & o_v(p.data(), c.get("data"))
        }
        (10, BuildTargetCleanCache(_, p)) => tids(p.targets(), c.get("targets")) & (p.is_empty() == p.targets().is_empty()),
        _ => false,
    }
}
fn num(v: u64, j: Option<&J>) -> bool {
    j.and_then(|j| int(j.bytes())) == Some(v as i128)
}
fn o_n(v: Option<u64>, j: Option<&J>) -> bool {
    match (v, j) {
        (None, None) | (None, Some(J::Null)) => true,
        (Some(v), j) => num(v, j),
        _ => false,
    }
}
pub fn mtype(t: &MessageType) -> u64 {
    match t {
        MessageType::Error => 1,
        MessageType::Warning => 2,
        MessageType::Info => 3,
        MessageType::Log => 4,
    }
}
pub fn dkind(k: &TaskDataKind, j: Option<&J>) -> bool {
    use TaskDataKind::*;
    let w = match k {
        CompileTask => "compile-task",
        CompileReport => "compile-report",
        TestTask => "test-task",
        TestReport => "test-report",
        TestStart => "test-start",
        TestFinish => "test-finish",
        Custom(s) => s.as_str(),
        None => return j.is_none(),
    };
    j.is_some() && is_s(w, j)
}
fn task(t: &TaskId, j: Option<&J>) -> bool {
    // no accessors: what it would be written as
    let v = serde_json::to_value(t).unwrap();
    j.map_or(false, |j| same_val(&v, j))
}
pub fn view_notif(m: &Notification, k: usize, c: &J) -> bool {
    use Notification::*;
    match (k, m) {
        (0, ShowMessage(p)) => {
            num(mtype(&p.typ), c.get("type"))
                & is_s(&p.message, c.get("message"))
                & match &p.task {
                    Some(t) => task(t, c.get("task")),
                    None => c.get("task").is_none(),
                }
                & o_s(p.origin_id.as_ref(), c.get("originId"))
        }
        (1, LogMessage(p)) => {
            num(mtype(&p.typ), c.get("type"))
                & is_s(&p.message, c.get("message"))
                & match &p.task {
                    Some(t) => task(t, c.get("task")),
                    None => c.get("task").is_none(),
                }
                & o_s(p.origin_id.as_ref(), c.get("originId"))
        }
        (2, PublishDiagnostics(_)) => true,
        (3, TaskStart(p)) => {
            task(&p.task_id, c.get("taskId"))
                & o_n(p.event_time.map(|v| v as u64), c.get("eventTime"))
                & is_s(&p.message, c.get("message"))
                & dkind(&p.data_kind, c.get("dataKind"))
                & o_v(Some(&p.data), c.get("data"))
        }
        (4, TaskFinish(p)) => {
            let st = match p.status {
                TaskStatus::Ok => 1,
                TaskStatus::Error => 2,
                TaskStatus::Cancelled => 3,
            };
            task(&p.task_id, c.get("taskId"))
                & o_n(p.event_time.map(|v| v as u64), c.get("eventTime"))
                & is_s(&p.message, c.get("message"))
                & num(st, c.get("status"))
                & dkind(&p.data_kind, c.get("dataKind"))
                & o_v(Some(&p.data), c.get("data"))
        }
        (5, TaskProgress(p)) => {
            task(&p.task_id, c.get("taskId"))
                & o_n(p.event_time.map(|v| v as u64), c.get("eventTime"))
                & is_s(&p.message, c.get("message"))
                & o_n(p.total.map(|v| v as u64), c.get("total"))
                & o_n(p.progress.map(|v| v as u64), c.get("progress"))
                & is_s(&p.unit, c.get("unit"))
                & dkind(&p.data_kind, c.get("dataKind"))
                & o_v(Some(&p.data), c.get("data"))
        }
        (6, BuildTargetDidChange(p)) => {
            let b = c.get("changes").map_or(&[][..], |j| j.arr());
            let mut ok = p.changes.len() == b.len();
            for (x, y) in p.changes.iter().zip(b) {
                let kd = x.kind.as_ref().map(|k| match k {
                    BuildTargetEventKind::Created => 1,
                    BuildTargetEventKind::Changed => 2,
                    BuildTargetEventKind::Deleted => 3,
                });
                ok &= uri(x.target.uri(), y.get("target")) & o_n(kd, y.get("kind")) & o_v(x.data.as_ref(), y.get("data"));
            }
            ok
        }
        _ => false,
    }
}

// ---------------------------------------------------------------- round trips
fn envelope(id: Option<&J>, method: &str, params: &J) -> J {
    let mut o = obj(vec![]);
    if let Some(i) = id {
        o = o.with("id", i.clone());
    }
    o.with("method", s(method)).with("params", params.clone())
}
/// Wire -> connection -> typed message -> connection -> wire.
fn echo(j: &J, back: &J, view: impl Fn(&Message) -> bool) {
    feed(frame(&wire(j)));
    let (c, t) = open(STDIO);
    let ms = collect(&c);
    check(ms.len() == 1, "the message is delivered");
    for m in ms {
        check(view(&m), "the delivered payload is the one sent");
        check(c.send(m).is_ok(), "a live connection accepts messages");
    }
    drop(c);
    check(join(t).is_ok(), "io threads end cleanly");
    let o = out();
    log("out", &o);
    let f = rpc(&o, "echo");
    check(f.len() == 1 && f[0].same(back), "the payload survives decoding and encoding");
}
fn req_case(k: usize, mut g: Gen) {
    let (method, ms) = REQS[k];
    let (w, c) = g.object(ms);
    let id = if g.slen > 5 { n("31") } else { J::Str(g.string()) };
    let (j, back) = (envelope(Some(&id), method, &w), envelope(Some(&id), method, &c));
    echo(&j, &back, |m| match m {
        Message::Request(r) => {
            let p = r.params();
            (r.id() == &rid(&id))
                & (r.method() == method)
                & view_req(r, k, &c)
                & match &p {
                    Ok(v) => same_val(v, &c),
                    Err(_) => false,
                }
        }
        _ => false,
    });
}
fn notif_case(k: usize, mut g: Gen) {
    let (method, ms) = NOTIFS[k];
    let (w, c) = g.object(ms);
    let (j, back) = (envelope(None, method, &w), envelope(None, method, &c));
    echo(&j, &back, |m| match m {
        Message::Notification(r) => (r.method() == method) & view_notif(r, k, &c),
        _ => false,
    });
}
fn kinds(n: usize) -> usize {
    pick(n as u32, "kind") as usize
}
fn opts(ms: &[M]) -> Gen {
    let mut g = Gen::pick(ms);
    g.nulls = g.mode != 0 && pick(2, "nulls") == 1;
    g
}
fn shapes() -> Gen {
    let mut g = Gen::fixed(0);
    g.shape = pick(SHAPES, "shape");
    g
}
fn sizes() -> Gen {
    let mut g = Gen::fixed(0);
    g.alen = [0, 1, 2, 3][pick(4, "alen") as usize];
    g.slen = [0, 1, 5][pick(3, "slen") as usize];
    g
}
pub fn subsets() -> Gen {
    let mut g = Gen::fixed(SUBSETS);
    g.plain = true;
    g.flat = true;
    g.slen = 1;
    g.nulls = pick(2, "nulls") == 1;
    g
}
fn long() -> Gen {
    let mut g = Gen::fixed(0);
    g.plain = true;
    g.flat = true;
    let k = pick(5, "long") as usize;
    g.alen = [1, 1, 1, 9, 17][k];
    g.slen = [17, 33, 260, 1, 2][k];
    g
}
fn uris() -> Gen {
    let mut g = Gen::fixed(0);
    g.plain = true;
    g.flat = true;
    g.slen = 1;
    g.uri = 1 + pick(URIS.len() as u32, "uri");
    g
}
/// Paths to the required members of a payload, nested ones included.
fn required(ms: &'static [M], pre: &[&'static str], o: &mut Vec<Vec<&'static str>>) {
    for M(name, f, p) in ms {
        let mut v = pre.to_vec();
        v.push(name);
        if *p == P::Req {
            o.push(v.clone());
        }
        let mut f = f;
        while let F::A(g) = f {
            f = g;
        }
        if let F::O(ms) = f {
            required(ms, &v, o);
        }
    }
}
/// `j` without the member at `path`, or with another value there.
fn cut(j: &J, path: &[&str], put: &Option<J>) -> J {
    match j {
        J::Arr(v) => J::Arr(v.iter().map(|x| cut(x, path, put)).collect()),
        J::Obj(v) => {
            let mut o = vec![];
            for (k, x) in v {
                if k == path[0].as_bytes() {
                    if path.len() > 1 {
                        o.push((k.clone(), cut(x, &path[1..], put)));
                    } else if let Some(p) = put {
                        o.push((k.clone(), p.clone()));
                    }
                } else {
                    o.push((k.clone(), x.clone()));
                }
            }
            J::Obj(o)
        }
        j => j.clone(),
    }
}
/// All of its members have defaults, at `path`?
fn lax(ms: &'static [M], path: &[&str]) -> bool {
    for M(name, f, _) in ms {
        if *name == path[0] {
            let mut f = f;
            let list = matches!(f, F::A(_));
            while let F::A(g) = f {
                f = g;
            }
            return match f {
                F::O(ms) if path.len() > 1 => lax(ms, &path[1..]),
                F::O(ms) => !list && ms.iter().all(|m| m.2 != P::Req),
                _ => false,
            };
        }
    }
    false
}
/// A payload that lacks a required member, or has null or an object there.
/// (`fills`: missing top-level members have a default)
fn broken(ms: &'static [M], fills: bool) -> Option<(J, String)> {
    let mut r = vec![];
    required(ms, &[], &mut r);
    if r.is_empty() {
        return None;
    }
    let path = r[pick(r.len() as u32, "member") as usize].clone();
    let mut g = Gen::fixed(0);
    g.plain = true;
    let (j, _) = g.object(ms);
    let how = pick(3, "how");
    if how == 0 && fills && path.len() == 1 || how == 2 && lax(ms, &path) {
        return None;
    }
    let put = match how {
        0 => None,
        1 => Some(J::Null),
        _ => Some(obj(vec![("a", s("b"))])),
    };
    Some((cut(&j, &path, &put), path.join(".")))
}
/// Replace the first free string of `j` with one holding `t`.
fn inject(j: &mut J, t: &[u8], from: &mut u32) -> bool {
    match j {
        J::Str(b) if b.len() == 2 => {
            if *from == 0 {
                *b = t.to_vec();
                return true;
            }
            *from -= 1;
            false
        }
        J::Arr(v) => v.iter_mut().any(|x| inject(x, t, from)),
        J::Obj(v) => v.iter_mut().any(|(_, x)| inject(x, t, from)),
        _ => false,
    }
}
fn strings(j: &J) -> u32 {
    match j {
        J::Str(b) => (b.len() == 2) as u32,
        J::Arr(v) => v.iter().map(strings).sum(),
        J::Obj(v) => v.iter().map(|(_, x)| strings(x)).sum(),
        _ => 0,
    }
}
static WIDE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(true);
fn fixed_or_ascii(class: u32) -> Vec<u8> {
    match class {
        0 => text(1, "c"),
        1 => "é".as_bytes().to_vec(),
        2 => "€".as_bytes().to_vec(),
        _ => "\u{1f600}".as_bytes().to_vec(),
    }
}
/// A payload one of whose strings is an arbitrary character.
fn with_text(ms: &[M]) -> Option<(J, J)> {
    let (mut w, mut c) = Gen::fixed(0).object(ms);
    let n = strings(&w);
    if n == 0 {
        return None;
    }
    let which = pick(n, "which");
    let wide = WIDE.load(std::sync::atomic::Ordering::SeqCst);
    let mut t = if wide { uchar(pick(4, "class"), "c") } else { fixed_or_ascii(pick(4, "class")) };
    t.push(b'!');
    inject(&mut w, &t, &mut which.clone());
    inject(&mut c, &t, &mut which.clone());
    Some((w, c))
}

#[no_mangle]
pub extern "C" fn h_c09_opts() {
    quiet();
    let k = kinds(REQS.len());
    req_case(k, opts(REQS[k].1));
    reach("c09_opts");
}
#[no_mangle]
pub extern "C" fn h_c09_shapes() {
    quiet();
    let k = [0, 2, 7, 9][kinds(4)];
    req_case(k, shapes());
    reach("c09_shapes");
}
#[no_mangle]
pub extern "C" fn h_c09_sizes() {
    quiet();
    let k = kinds(REQS.len());
    req_case(k, sizes());
    reach("c09_sizes");
}
#[no_mangle]
pub extern "C" fn h_c09_text() {
    quiet();
    let k = kinds(REQS.len());
    let (method, ms) = REQS[k];
    if let Some((w, c)) = with_text(ms) {
        let id = n("0");
        echo(&envelope(Some(&id), method, &w), &envelope(Some(&id), method, &c), |m| match m {
            Message::Request(r) => view_req(r, k, &c),
            _ => false,
        });
        reach("c09_text");
    }
}
/// Every combination of optional members.
#[no_mangle]
pub extern "C" fn h_c09_subsets() {
    quiet();
    let k = kinds(REQS.len());
    let mut g = subsets();
    g.alen = if k == 2 || k == 6 { 2 } else { 1 };
    req_case(k, g);
    reach("c09_subsets");
}
/// Long texts and lists.
#[no_mangle]
pub extern "C" fn h_c09_long() {
    quiet();
    req_case(kinds(REQS.len()), long());
    reach("c09_long");
}
/// URIs of every make are kept as they are.
#[no_mangle]
pub extern "C" fn h_c09_uris() {
    quiet();
    let k = kinds(REQS.len());
    let g = uris();
    req_case(k, g);
    reach("c09_uris");
}
/// Required members are required, nested ones too.
#[no_mangle]
pub extern "C" fn h_c09_missing() {
    quiet();
    let k = kinds(REQS.len());
    let (method, ms) = REQS[k];
    if let Some((j, what)) = broken(ms, false) {
        log("missing", what.as_bytes());
        // (what becomes of the text as a message is C04's)
        let t = st(&wire(&envelope(Some(&n("4")), method, &j)));
        check(serde_json::from_str::<Request>(&t).is_err(), "a payload without a required member is refused");
        reach("c09_missing");
    }
}

/// Integers inside free-form values keep their value (symbolic digits).
#[no_mangle]
pub extern "C" fn h_c09_numbers() {
    quiet();
    let neg = pick(2, "negative") == 1;
    let len = [1, 3, 10, 18][pick(4, "digits") as usize];
    let mut d = if neg { b"-".to_vec() } else { vec![] };
    let v = bytes(2.min(len), "d");
    for (i, b) in v.iter().enumerate() {
        assume((*b >= b'0') & (*b <= b'9'));
        if i == 0 {
            assume(*b != b'0');
        }
    }
    d.extend_from_slice(&v);
    for i in v.len()..len {
        d.push(b'0' + (i * 7 % 10) as u8);
    }
    let p = obj(vec![("v", J::Arr(vec![J::Num(d)]))]);
    let text = obj(vec![("id", n("1")), ("method", s("x/n")), ("params", p.clone())]).text();
    let m: Result<Message, _> = serde_json::from_str(&st(&text));
    match m {
        Ok(m) => check(is_req(&m, &n("1"), b"x/n", &p), "integers keep their value"),
        Err(_) => check(false, "integers are accepted"),
    }
    reach("c09_numbers");
}
/// Setters and constructors store what they are given.
#[no_mangle]
pub extern "C" fn h_c09_sets() {
    quiet();
    let k = kinds(REQS.len());
    let (method, ms) = REQS[k];
    let mut g = opts(ms);
    g.alen = 2;
    let (_, c) = g.object(ms);
    let id = RequestId::from(5);
    let sv = |k: &str| c.get(k).map_or(String::new(), |j| st(j.bytes()));
    let os = |k: &str| c.get(k).map(|j| st(j.bytes()));
    let ov = |k: &str| c.get(k).map(to_val);
    let tid = |j: &J| BuildTargetIdentifier::new(Url::parse(&st(j.get("uri").unwrap().bytes())).unwrap());
    let ts = |k: &str| -> Vec<BuildTargetIdentifier> { c.get(k).map_or(vec![], |j| j.arr().iter().map(&tid).collect()) };
    let url = |j: &J| Url::parse(&st(j.bytes())).unwrap();
    let set = pick(2, "set") == 1;
    let from = |w: &str| -> Value { serde_json::from_str(w).unwrap() };
    let m: Message = match k {
        0 => {
            let ls: Vec<String> = c.get("capabilities").unwrap().get("languageIds").unwrap().arr().iter().map(|j| st(j.bytes())).collect();
            let u = url(c.get("rootUri").unwrap());
            if set {
                let mut p = InitializeBuild::new_simple("x", "y", "z", Url::parse("file:///q").unwrap(), Default::default());
                p.set_display_name(sv("displayName"));
                p.set_version(sv("version"));
                p.set_bsp_version(sv("bspVersion"));
                p.set_root_uri(u);
                let mut cc = ClientCapabilities::default();
                cc.set_language_ids(ls);
                p.set_capabilities(cc);
                p.set_data(ov("data"));
                (id, p).into()
            } else {
                match ov("data") {
                    Some(d) => (id, InitializeBuild::new(sv("displayName"), sv("version"), sv("bspVersion"), u, ClientCapabilities::new(ls), d)).into(),
                    None => (id, InitializeBuild::new_simple(sv("displayName"), sv("version"), sv("bspVersion"), u, ClientCapabilities::new(ls))).into(),
                }
            }
        }
        1 => {
            let mut p: BuildTargetDependencyModules = serde_json::from_value(from("{\"targets\":[]}")).unwrap();
            if set {
                *p.targets_mut() = ts("targets");
            } else {
                p.set_targets(ts("targets"));
            }
            (id, p).into()
        }
        2 => {
            let d = ov("data").unwrap_or(Value::Null);
            if set {
                let mut p = DebugSessionStart::default();
                p.set_targets(ts("targets"));
                p.set_data_kind(sv("dataKind"));
                p.set_data(d);
                (id, p).into()
            } else {
                (id, DebugSessionStart::new(ts("targets"), sv("dataKind"), d)).into()
            }
        }
        3 => {
            let mut p = BuildTargetSources::new(ts("targets"));
            if set {
                p = BuildTargetSources::default();
                p.set_targets(ts("targets"));
            }
            (id, p).into()
        }
        4 | 5 => {
            let d: Value = to_val(c.get("textDocument").unwrap());
            let other = from("{\"textDocument\":{\"uri\":\"file:///q\"}}");
            if k == 4 {
                let td = serde_json::from_value(d).unwrap();
                if set {
                    let mut p: TextDocumentInverseSources = serde_json::from_value(other).unwrap();
                    p.set_text_document(td);
                    (id, p).into()
                } else {
                    (id, TextDocumentInverseSources::new(td)).into()
                }
            } else {
                let td = serde_json::from_value(d).unwrap();
                if set {
                    let mut p: BuildTargetDependencySources = serde_json::from_value(other).unwrap();
                    p.set_text_document(td);
                    (id, p).into()
                } else {
                    (id, BuildTargetDependencySources::new(td)).into()
                }
            }
        }
        6 => {
            let mut p = BuildTargetResources::new(ts("targets"));
            if set {
                p = BuildTargetResources::new(vec![]);
                p.set_targets(ts("targets"));
            }
            (id, p).into()
        }
        7 => {
            let t = tid(c.get("target").unwrap());
            if set {
                let mut p = BuildTargetRun::new_simple(BuildTargetIdentifier::new(Url::parse("file:///q").unwrap()));
                p.set_target(t);
                p.set_origin_id(os("originId"));
                p.set_arguments(os("arguments"));
                p.set_data_kind(os("dataKind"));
                p.set_data(ov("data"));
                (id, p).into()
            } else {
                (id, BuildTargetRun::new(t, os("originId"), os("arguments"), os("dataKind"), ov("data"))).into()
            }
        }
        8 => {
            let t = tid(c.get("target").unwrap());
            if set {
                let mut p = BuildTargetCompile::new_simple(BuildTargetIdentifier::new(Url::parse("file:///q").unwrap()));
                p.set_target(t);
                p.set_origin_id(os("originId"));
                p.set_arguments(os("arguments"));
                (id, p).into()
            } else {
                (id, BuildTargetCompile::new(t, os("originId"), os("arguments"))).into()
            }
        }
        9 => {
            let t = tid(c.get("target").unwrap());
            if set {
                let mut p = BuildTargetTest::new_simple(BuildTargetIdentifier::new(Url::parse("file:///q").unwrap()));
                p.set_target(t);
                p.set_origin_id(os("originId"));
                p.set_arguments(os("arguments"));
                p.set_data_kind(os("dataKind"));
                p.set_data(ov("data"));
                (id, p).into()
            } else {
                (id, BuildTargetTest::new(t, os("originId"), os("arguments"), os("dataKind"), ov("data"))).into()
            }
        }
        _ => {
            let mut p: BuildTargetCleanCache = serde_json::from_value(from("{\"targets\":[]}")).unwrap();
            if set {
                *p.targets_mut() = ts("targets");
            } else {
                p.set_targets(ts("targets"));
            }
            (id, p).into()
        }
    };
    if let Message::Request(r) = &m {
        check(view_req(r, k, &c), "constructed requests expose what they were given");
    }
    let o = crate::c_frame::emit(STDIO, vec![m]);
    let f = rpc(&o, "built");
    check(f.len() == 1 && f[0].same(&envelope(Some(&n("5")), method, &c)), "constructed requests are written with what they were given");
    log("out", &o);
    reach("c09_sets");
}

#[no_mangle]
pub extern "C" fn h_c11_opts() {
    quiet();
    let k = kinds(NOTIFS.len());
    notif_case(k, opts(NOTIFS[k].1));
    reach("c11_opts");
}
#[no_mangle]
pub extern "C" fn h_c11_shapes() {
    quiet();
    let k = [3, 4, 5, 6][kinds(4)];
    notif_case(k, shapes());
    reach("c11_shapes");
}
#[no_mangle]
pub extern "C" fn h_c11_sizes() {
    quiet();
    let k = kinds(NOTIFS.len());
    notif_case(k, sizes());
    reach("c11_sizes");
}
#[no_mangle]
pub extern "C" fn h_c11_numbers() {
    quiet();
    let k = kinds(NOTIFS.len());
    let mut g = Gen::fixed(0);
    g.nums = pick(5, "num");
    notif_case(k, g);
    reach("c11_numbers");
}
#[no_mangle]
pub extern "C" fn h_c11_text() {
    quiet();
    let k = kinds(NOTIFS.len());
    let (method, ms) = NOTIFS[k];
    // a diagnostic's code is tried as a number first, and the (discarded)
    // complaint runs the text through Unicode tables: ASCII only there
    if k == 2 {
        WIDE.store(false, std::sync::atomic::Ordering::SeqCst);
    }
    if let Some((w, c)) = with_text(ms) {
        echo(&envelope(None, method, &w), &envelope(None, method, &c), |m| match m {
            Message::Notification(r) => view_notif(r, k, &c),
            _ => false,
        });
        reach("c11_text");
    }
}
/// Notifications built through the API go out as the protocol says.
#[no_mangle]
pub extern "C" fn h_c11_build() {
    quiet();
    built11(st(&text(2, "t")), st(&text(2, "u")), st(&text(2, "w")));
    reach("c11_build");
}
/// The same with texts that are empty or blank.
#[no_mangle]
pub extern "C" fn h_c11_blank() {
    quiet();
    let x = |l: &'static str| st([&b""[..], b" ", b"\0", b"0"][pick(4, l) as usize]);
    built11(x("t"), x("u"), x("w"));
    reach("c11_blank");
}
fn built11(t: String, u: String, w: String) {
    let tj = |x: &String| J::Str(x.clone().into_bytes());
    let has = pick(2, "has") == 1;
    let parents = pick(3, "parents");
    let mut id = TaskId::from(t.as_str());
    let mut ij = obj(vec![("id", tj(&t))]);
    let mut ps = vec![];
    for _ in 0..parents {
        id.add_parent(w.clone());
        ps.push(tj(&w));
    }
    if parents > 0 {
        ij = ij.with("parents", J::Arr(ps));
    }
    let (task, org) = if has { (Some(id.clone()), Some(u.clone())) } else { (None, None) };
    let k = pick(14, "ctor");
    let note = |ty: &str| {
        let mut j = obj(vec![("type", n(ty)), ("message", tj(&w))]);
        if has {
            j = j.with("task", ij.clone()).with("originId", tj(&u));
        }
        j
    };
    let (m, j): (Message, J) = match k {
        0 => (ShowMessage::error(w.clone(), task, org).into(), envelope(None, "build/showMessage", &note("1"))),
        1 => (ShowMessage::warn(w.clone(), task, org).into(), envelope(None, "build/showMessage", &note("2"))),
        2 => (ShowMessage::info(w.clone(), task, org).into(), envelope(None, "build/showMessage", &note("3"))),
        3 => (ShowMessage::log(w.clone(), task, org).into(), envelope(None, "build/showMessage", &note("4"))),
        4 => (LogMessage::error(w.clone(), task, org).into(), envelope(None, "build/logMessage", &note("1"))),
        5 => (LogMessage::warn(w.clone(), task, org).into(), envelope(None, "build/logMessage", &note("2"))),
        6 => (LogMessage::info(w.clone(), task, org).into(), envelope(None, "build/logMessage", &note("3"))),
        7 => (LogMessage::log::<String>(w.clone(), task, org).into(), envelope(None, "build/logMessage", &note("4"))),
        8 => (TaskStart::new(id).into(), envelope(None, "build/taskStart", &obj(vec![("taskId", ij)]))),
        9 => (
            TaskFinish::new(id).into(),
            envelope(None, "build/taskFinish", &obj(vec![("taskId", ij), ("status", n("1"))])),
        ),
        10 => (
            TaskFinish { status: TaskStatus::Cancelled, message: u.clone(), ..TaskFinish::new(id) }.into(),
            envelope(None, "build/taskFinish", &unless_blank(obj(vec![("taskId", ij), ("status", n("3"))]), "message", &u)),
        ),
        11 => (
            TaskProgress { task_id: id, total: Some(9), progress: Some(3), unit: u.clone(), ..Default::default() }.into(),
            envelope(
                None,
                "build/taskProgressing",
                &unless_blank(obj(vec![("taskId", ij), ("total", n("9")), ("progress", n("3"))]), "unit", &u),
            ),
        ),
        12 => {
            let i = BuildTargetIdentifier::new(Url::parse("file:///w").unwrap());
            let mut e = vec![BuildTargetEvent::new_simple(i.clone())];
            e.push(BuildTargetEvent::new(i, Some(BuildTargetEventKind::Deleted), Some(Value::from(u.clone()))));
            let ij = obj(vec![("uri", s("file:///w"))]);
            (
                BuildTargetDidChange { changes: e }.into(),
                envelope(
                    None,
                    "buildTarget/didChange",
                    &obj(vec![(
                        "changes",
                        J::Arr(vec![
                            obj(vec![("target", ij.clone())]),
                            obj(vec![("target", ij), ("kind", n("3")), ("data", tj(&u))]),
                        ]),
                    )]),
                ),
            )
        }
        _ => (Notification::from("build/initialized").into(), obj(vec![("method", s("build/initialized"))])),
    };
    let o = crate::c_frame::emit(STDIO, vec![m]);
    let f = rpc(&o, "built");
    check(f.len() == 1 && f[0].same(&j), "constructed notifications are written as the protocol says");
    log("out", &o);
}
/// Every combination of optional members.
#[no_mangle]
pub extern "C" fn h_c11_subsets() {
    quiet();
    let k = kinds(NOTIFS.len());
    let mut g = subsets();
    g.alen = if k == 2 || k == 6 { 2 } else { 1 };
    notif_case(k, g);
    reach("c11_subsets");
}
/// Long texts and lists.
#[no_mangle]
pub extern "C" fn h_c11_long() {
    quiet();
    notif_case(kinds(NOTIFS.len()), long());
    reach("c11_long");
}
/// URIs of every make are kept as they are.
#[no_mangle]
pub extern "C" fn h_c11_uris() {
    quiet();
    let k = kinds(NOTIFS.len());
    let g = uris();
    notif_case(k, g);
    reach("c11_uris");
}
/// Required members are required, nested ones too.
#[no_mangle]
pub extern "C" fn h_c11_missing() {
    quiet();
    let k = kinds(NOTIFS.len());
    let (method, ms) = NOTIFS[k];
    // every member of a task event has a default
    if let Some((j, what)) = broken(ms, k >= 3 && k <= 5) {
        let mut st = frame(b"{\"jsonrpc\":\"2.0\",\"method\":\"first\"}");
        st.extend_from_slice(&frame(&wire(&envelope(None, method, &j))));
        feed(st);
        let (c, t) = open(STDIO);
        let ms = collect(&c);
        drop(c);
        let r = join(t);
        log("missing", what.as_bytes());
        check(ms.len() == 1, "a payload without a required member is refused");
        check(r.is_err(), "a payload without a required member is reported as an error");
        reach("c11_missing");
    }
}


// ---------------------------------------------------------------- results
const RESULTS: &[&[M]] = &[
    INITRES, WSRES, MODRES, &[M("uri", F::Uri, P::Req)], SRCRES, TARGETS, DEPRES, RESRES, RUNRES, COMPRES, COMPRES, CLEANRES,
];
fn through<T: DeserializeOwned + Serialize>(text: &[u8]) -> Option<T> {
    serde_json::from_str(&st(text)).ok()
}
/// The result type decoded from the text, as a response to request `id`.
fn answer(k: usize, t: &[u8], id: RequestId) -> Option<Message> {
    Some(match k {
        0 => (id, through::<InitializeBuildResult>(t)?).into(),
        1 => (id, through::<WorkspaceBuildTargetsResult>(t)?).into(),
        2 => (id, through::<BuildTargetDependencyModulesResult>(t)?).into(),
        3 => (id, through::<DebugSessionStartResult>(t)?).into(),
        4 => (id, through::<BuildTargetSourcesResult>(t)?).into(),
        5 => (id, through::<BuildTargetInverseSourcesResult>(t)?).into(),
        6 => (id, through::<BuildTargetDependencySourcesResult>(t)?).into(),
        7 => (id, through::<BuildTargetResourcesResult>(t)?).into(),
        8 => (id, through::<BuildTargetRunResult>(t)?).into(),
        9 => (id, through::<BuildTargetCompileResult>(t)?).into(),
        10 => (id, through::<BuildTargetTestResult>(t)?).into(),
        _ => (id, through::<BuildTargetCleanCacheResult>(t)?).into(),
    })
}
/// The decoded result exposes exactly what `c` says.
fn view_result(k: usize, t: &[u8], c: &J) -> bool {
    let text = st(t);
    fn get<T: DeserializeOwned>(t: &str) -> Option<T> {
        serde_json::from_str(t).ok()
    }
    let langs = |v: Option<&[String]>, k: &str, c: &J| match (v, c.get(k)) {
        (None, None) => true,
        (Some(v), Some(j)) => strs(v, j.get("languageIds")),
        _ => false,
    };
    let flag = |v: Option<bool>, j: Option<&J>| match (v, j) {
        (None, None) => true,
        (Some(a), Some(J::Bool(b))) => a == *b,
        _ => false,
    };
    let items = |j: &J, k: &str| -> Vec<J> { j.get(k).map_or(vec![], |j| j.arr().to_vec()) };
    let known = ["library", "application", "test", "integration-test", "benchmark", "no-ide", "manual"];
    let ok = match k {
        0 => get::<InitializeBuildResult>(&text).map(|v| {
            let p = v.capabilities();
            let cc = c.get("capabilities").unwrap();
            is_s(v.display_name(), c.get("displayName"))
                & is_s(v.version(), c.get("version"))
                & is_s(v.bsp_version(), c.get("bspVersion"))
                & o_v(v.data(), c.get("data"))
                & langs(p.compile_provider().map(|x| &x.language_ids[..]), "compileProvider", cc)
                & langs(p.test_provider().map(|x| &x.language_ids[..]), "testProvider", cc)
                & langs(p.run_provider().map(|x| &x.language_ids[..]), "runProvider", cc)
                & langs(p.debug_provider().map(|x| &x.language_ids[..]), "debugProvider", cc)
                & flag(p.inverse_sources_provider(), cc.get("inverseSourcesProvider"))
                & flag(p.dependency_sources_provider(), cc.get("dependencySourcesProvider"))
                & flag(p.dependency_modules_provider(), cc.get("dependencyModulesProvider"))
                & flag(p.resources_provider(), cc.get("resourcesProvider"))
                & flag(p.can_reload(), cc.get("canReload"))
                & flag(p.build_target_changed_provider(), cc.get("buildTargetChangedProvider"))
        }),
        1 => get::<WorkspaceBuildTargetsResult>(&text).map(|v| {
            let js = items(c, "targets");
            let mut ok = v.targets.len() == js.len();
            for (t, j) in v.targets.iter().zip(&js) {
                ok &= uri(t.id.uri(), j.get("id"))
                    & o_s(t.display_name.as_ref(), j.get("displayName"))
                    & o_s(t.base_directory.as_ref(), j.get("baseDirectory"))
                    & strs(&t.language_ids, j.get("languageIds"))
                    & tids(&t.dependencies, j.get("dependencies"));
                let b = |k: &str| matches!(j.get("capabilities").and_then(|c| c.get(k)), Some(J::Bool(true)));
                ok &= (t.capabilities.can_compile() == b("canCompile"))
                    & (t.capabilities.can_test() == b("canTest"))
                    & (t.capabilities.can_run() == b("canRun"))
                    & (t.capabilities.can_debug() == b("canDebug"));
                let tags = items(j, "tags");
                ok &= tags.len() == t.tags.len();
                for (a, b) in t.tags.iter().zip(&tags) {
                    let name = match a {
                        BuildTargetTag::Libary => known[0],
                        BuildTargetTag::Application => known[1],
                        BuildTargetTag::Test => known[2],
                        BuildTargetTag::IntegrationTest => known[3],
                        BuildTargetTag::Benchmark => known[4],
                        BuildTargetTag::NoIDE => known[5],
                        BuildTargetTag::Manual => known[6],
                        BuildTargetTag::Custom(t) => t,
                    };
                    ok &= same(name.as_bytes(), b.bytes());
                }
            }
            ok
        }),
        2 => get::<BuildTargetDependencyModulesResult>(&text).map(|v| {
            let js = items(c, "items");
            let mut ok = v.items().len() == js.len();
            for (t, j) in v.items().iter().zip(&js) {
                let ms = items(j, "modules");
                ok &= uri(t.target().uri(), j.get("target")) & (ms.len() == t.modules().len());
                for (m, j) in t.modules().iter().zip(&ms) {
                    ok &= is_s(m.name(), j.get("name")) & is_s(m.version(), j.get("version")) & o_s(m.data_kind(), j.get("dataKind"));
                }
            }
            ok
        }),
        4 => get::<BuildTargetSourcesResult>(&text).map(|v| {
            let js = items(c, "items");
            let mut ok = v.items().len() == js.len();
            for (t, j) in v.items().iter().zip(&js) {
                let ss = items(j, "sources");
                ok &= uri(t.target().uri(), j.get("target")) & (ss.len() == t.sources().len());
                for (m, j) in t.sources().iter().zip(&ss) {
                    let kind = match m.kind() {
                        SourceKind::File => 1,
                        SourceKind::Directory => 2,
                    };
                    ok &= is_s(m.uri().as_str(), j.get("uri")) & num(kind, j.get("kind")) & (j.get("generated").map_or(false, |g| g.same(&J::Bool(m.generated()))));
                }
            }
            ok
        }),
        7 => get::<BuildTargetResourcesResult>(&text).map(|v| {
            let js = items(c, "items");
            let mut ok = v.items().len() == js.len();
            for (t, j) in v.items().iter().zip(&js) {
                ok &= uri(t.target().uri(), j.get("target")) & strs(t.resources(), j.get("resources"));
            }
            ok
        }),
        8 => get::<BuildTargetRunResult>(&text).map(|v| o_s(v.origin_id(), c.get("originId")) & num(v.status_code() as u64, c.get("statusCode"))),
        9 => get::<BuildTargetCompileResult>(&text).map(|v| {
            o_s(v.origin_id(), c.get("originId")) & num(v.status_code() as u64, c.get("statusCode")) & o_s(v.data_kind(), c.get("dataKind")) & o_v(v.data(), c.get("data"))
        }),
        10 => get::<BuildTargetTestResult>(&text).map(|v| {
            o_s(v.origin_id(), c.get("originId")) & num(v.status_code() as u64, c.get("statusCode")) & o_s(v.data_kind(), c.get("dataKind")) & o_v(v.data(), c.get("data"))
        }),
        11 => get::<BuildTargetCleanCacheResult>(&text).map(|v| o_s(v.message(), c.get("message")) & flag(Some(v.cleaned()), c.get("cleaned"))),
        _ => Some(true),
    };
    ok == Some(true)
}
fn result_case(k: usize, w: &J, c: &J) {
    check(view_result(k, &w.text(), c), "the result exposes the members sent");
    let idj = s("r-1");
    match answer(k, &w.text(), rid(&idj)) {
        None => check(false, "a protocol result decodes"),
        Some(m) => {
            let o = crate::c_frame::emit(STDIO, vec![m]);
            let f = rpc(&o, "result");
            check(f.len() == 1 && f[0].same(&obj(vec![("id", idj), ("result", c.clone())])), "the result is written as the protocol says");
            log("out", &o);
        }
    }
}
#[no_mangle]
pub extern "C" fn h_c10_opts() {
    quiet();
    let k = kinds(RESULTS.len());
    let (w, c) = opts(RESULTS[k]).object(RESULTS[k]);
    result_case(k, &w, &c);
    reach("c10_opts");
}
#[no_mangle]
pub extern "C" fn h_c10_shapes() {
    quiet();
    let k = [0, 2, 9, 10][kinds(4)];
    let mut g = shapes();
    if k == 0 {
        g.mode = 1 + 2 * optional(INITRES); // only data
    }
    let (w, c) = g.object(RESULTS[k]);
    result_case(k, &w, &c);
    reach("c10_shapes");
}
#[no_mangle]
pub extern "C" fn h_c10_sizes() {
    quiet();
    let k = kinds(RESULTS.len());
    let mut g = Gen::fixed(if k == 0 { 2 } else { 0 });
    g.alen = if k == 1 || k == 4 { [0, 2][pick(2, "alen") as usize] } else { [0, 1, 2, 3][pick(4, "alen") as usize] };
    g.slen = [0, 1, 5][pick(3, "slen") as usize];
    let (w, c) = match k {
        1 => {
            // several targets, each with its own tags, are their own case
            let (w, c) = g.object(&[M("id", F::O(TID), P::Req), M("displayName", F::Str, P::Opt), M("tags", F::A(&F::Str), P::Req), M("languageIds", F::A(&F::Str), P::Req), M("dependencies", F::A(&F::O(TID)), P::Req)]);
            let cap = obj(vec![("canCompile", J::Bool(true)), ("canTest", J::Bool(false)), ("canRun", J::Bool(true)), ("canDebug", J::Bool(false))]);
            let (w, c) = (w.with("capabilities", cap.clone()), c.with("capabilities", cap));
            let (w2, c2) = (w.clone(), c.clone());
            (obj(vec![("targets", J::Arr(vec![w, w2]))]), obj(vec![("targets", J::Arr(vec![c, c2]))]))
        }
        _ => g.object(RESULTS[k]),
    };
    result_case(k, &w, &c);
    reach("c10_sizes");
}
#[no_mangle]
pub extern "C" fn h_c10_numbers() {
    quiet();
    let k = [4, 8, 9, 10][kinds(4)];
    let mut g = Gen::fixed(0);
    g.nums = pick(4, "num");
    let (w, c) = g.object(RESULTS[k]);
    result_case(k, &w, &c);
    reach("c10_numbers");
}
#[no_mangle]
pub extern "C" fn h_c10_text() {
    quiet();
    // those whose strings differ in role
    let ks = [6, 7, 8, 9, 10, 11];
    let k = ks[kinds(ks.len())];
    if let Some((w, c)) = with_text(RESULTS[k]) {
        result_case(k, &w, &c);
        reach("c10_text");
    }
}
/// Results built through the API.
#[no_mangle]
pub extern "C" fn h_c10_build() {
    quiet();
    built10(st(&text(2, "t")), st(&text(2, "u")), st(&text(2, "v")));
    reach("c10_build");
}
/// The same with texts that are empty or blank.
#[no_mangle]
pub extern "C" fn h_c10_blank() {
    quiet();
    let x = |l: &'static str| st([&b""[..], b" ", b"\0", b"0"][pick(4, l) as usize]);
    built10(x("t"), x("u"), x("v"));
    reach("c10_blank");
}
fn built10(t: String, u: String, v: String) {
    let k = pick(10, "ctor");
    let tj = |x: &String| J::Str(x.clone().into_bytes());
    let set = pick(2, "set") == 1;
    let opt = pick(2, "opt") == 1;
    let (ou, ov) = if opt { (Some(u.clone()), Some(Value::from(v.clone()))) } else { (None, None) };
    let tid = BuildTargetIdentifier::new(Url::parse("file:///w/a").unwrap());
    let tidj = obj(vec![("uri", s("file:///w/a"))]);
    let id = RequestId::from(1);
    let (m, j): (Message, J) = match k {
        0 => {
            let bits: Vec<bool> = (0..6).map(|i| pick(2, ["b0", "b1", "b2", "b3", "b4", "b5"][i]) == 1).collect();
            let mut c = ServerCapabilities::default();
            let mut cj = obj(vec![]);
            if opt {
                let l = vec![u.clone()];
                let lj = |x: &String| obj(vec![("languageIds", J::Arr(vec![tj(x)]))]);
                c.set_compile_provider(Some(CompileProvider { language_ids: l }));
                c.set_test_provider(Some(TestProvider { language_ids: vec![v.clone()] }));
                c.set_run_provider(Some(RunProvider { language_ids: vec![t.clone()] }));
                c.set_debug_provider(Some(DebugProvider { language_ids: vec![] }));
                cj = cj
                    .with("compileProvider", lj(&u))
                    .with("testProvider", lj(&v))
                    .with("runProvider", lj(&t))
                    .with("debugProvider", obj(vec![("languageIds", J::Arr(vec![]))]));
                check(
                    c.compile_provider().map_or(false, |p| p.language_ids == [u.clone()])
                        & c.test_provider().map_or(false, |p| p.language_ids == [v.clone()])
                        & c.run_provider().map_or(false, |p| p.language_ids == [t.clone()])
                        & c.debug_provider().map_or(false, |p| p.language_ids.is_empty()),
                    "capability getters return what was set",
                );
            }
            c.set_inverse_sources_provider(Some(bits[0]));
            c.set_dependency_sources_provider(Some(bits[1]));
            c.set_dependency_modules_provider(Some(bits[2]));
            c.set_resources_provider(Some(bits[3]));
            c.set_can_reload(Some(bits[4]));
            c.set_build_target_changed_provider(Some(bits[5]));
            check(
                (c.inverse_sources_provider() == Some(bits[0]))
                    & (c.dependency_sources_provider() == Some(bits[1]))
                    & (c.dependency_modules_provider() == Some(bits[2]))
                    & (c.resources_provider() == Some(bits[3]))
                    & (c.can_reload() == Some(bits[4]))
                    & (c.build_target_changed_provider() == Some(bits[5])),
                "capability getters return what was set",
            );
            cj = cj
                .with("inverseSourcesProvider", J::Bool(bits[0]))
                .with("dependencySourcesProvider", J::Bool(bits[1]))
                .with("dependencyModulesProvider", J::Bool(bits[2]))
                .with("resourcesProvider", J::Bool(bits[3]))
                .with("canReload", J::Bool(bits[4]))
                .with("buildTargetChangedProvider", J::Bool(bits[5]));
            let mut r = if set {
                let mut r = InitializeBuildResult::default();
                r.set_display_name(t.clone());
                r.set_version(u.clone());
                r.set_bsp_version(v.clone());
                r.set_capabilities(c);
                r
            } else {
                InitializeBuildResult::new_simple(t.clone(), u.clone(), v.clone(), c)
            };
            let mut j = obj(vec![("displayName", tj(&t)), ("version", tj(&u)), ("bspVersion", tj(&v)), ("capabilities", cj)]);
            if opt {
                r.set_data(ov);
                j = j.with("data", tj(&v));
            }
            check(
                is_s(r.display_name(), Some(&tj(&t))) & is_s(r.version(), Some(&tj(&u))) & is_s(r.bsp_version(), Some(&tj(&v))) & o_v(r.data(), j.get("data")),
                "result getters return what was set",
            );
            ((id, r).into(), j)
        }
        1 => {
            let bits: Vec<bool> = (0..4).map(|i| pick(2, ["b0", "b1", "b2", "b3"][i]) == 1).collect();
            let mut c = BuildTargetCapabilities::new(bits[0], bits[1], bits[2], bits[3]);
            if set {
                c = BuildTargetCapabilities::default();
                c.set_can_compile(bits[0]);
                c.set_can_test(bits[1]);
                c.set_can_run(bits[2]);
                c.set_can_debug(bits[3]);
            }
            check(
                (c.can_compile() == bits[0]) & (c.can_test() == bits[1]) & (c.can_run() == bits[2]) & (c.can_debug() == bits[3]),
                "capability getters return what was set",
            );
            let cj = obj(vec![
                ("canCompile", J::Bool(bits[0])),
                ("canTest", J::Bool(bits[1])),
                ("canRun", J::Bool(bits[2])),
                ("canDebug", J::Bool(bits[3])),
            ]);
            let tags = vec![
                BuildTargetTag::Libary,
                BuildTargetTag::Application,
                BuildTargetTag::Test,
                BuildTargetTag::IntegrationTest,
                BuildTargetTag::Benchmark,
                BuildTargetTag::NoIDE,
                BuildTargetTag::Manual,
                BuildTargetTag::custom(v.clone()),
            ];
            let tagj = J::Arr(vec![s("library"), s("application"), s("test"), s("integration-test"), s("benchmark"), s("no-ide"), s("manual"), tj(&v)]);
            let mut j = obj(vec![
                ("id", tidj.clone()),
                ("tags", tagj),
                ("capabilities", cj),
                ("languageIds", J::Arr(vec![tj(&t)])),
                ("dependencies", J::Arr(vec![tidj.clone(), tidj.clone()])),
            ]);
            let deps = vec![tid.clone(), tid.clone()];
            let b = if opt {
                j = j.with("displayName", tj(&u)).with("baseDirectory", tj(&v));
                BuildTarget::new(tid, Some(u.clone()), Some(v.clone()), tags, c, vec![t.clone()], deps)
            } else {
                BuildTarget::new_simple(tid, tags, c, vec![t.clone()], deps)
            };
            let r = if set { WorkspaceBuildTargetsResult::from(b) } else { WorkspaceBuildTargetsResult::new(vec![b]) };
            ((id, r).into(), obj(vec![("targets", J::Arr(vec![j]))]))
        }
        2 => {
            let mo = if opt { DependencyModule::new(t.clone(), u.clone(), ou, ov) } else { DependencyModule::new_simple(t.clone(), u.clone()) };
            let oj = |x: &String| if opt { tj(x) } else { J::Null };
            let mj = obj(vec![("name", tj(&t)), ("version", tj(&u)), ("dataKind", oj(&u)), ("data", oj(&v))]);
            let it = DependencyModulesItem::new(tid, vec![mo]);
            let mut r = BuildTargetDependencyModulesResult::default();
            if set {
                r.items_mut().push(it);
            } else {
                r = BuildTargetDependencyModulesResult::new(vec![it]);
            }
            ((id, r).into(), obj(vec![("items", J::Arr(vec![obj(vec![("target", tidj), ("modules", J::Arr(vec![mj]))])]))]))
        }
        3 => (
            (id, DebugSessionStartResult::new(Url::parse("tcp://127.0.0.1:9/").unwrap())).into(),
            obj(vec![("uri", s("tcp://127.0.0.1:9/"))]),
        ),
        4 => {
            let mut a = Sources::new(Url::parse("file:///w/d/").unwrap(), SourceKind::Directory, opt);
            let b = Sources::new(Url::parse("file:///w/f").unwrap(), SourceKind::File, !opt);
            if set {
                a.set_generated(opt);
                a.set_kind(SourceKind::Directory);
            }
            let aj = obj(vec![("uri", s("file:///w/d/")), ("kind", n("2")), ("generated", J::Bool(opt))]);
            let bj = obj(vec![("uri", s("file:///w/f")), ("kind", n("1")), ("generated", J::Bool(!opt))]);
            let mut c = SourcesCollection::new(tid, vec![a, b]);
            if set {
                let x = SourcesCollection::new(BuildTargetIdentifier::new(Url::parse("file:///w/a").unwrap()), vec![]);
                let y = std::mem::replace(&mut c, x);
                let BuildTargetSourcesResult { .. } = BuildTargetSourcesResult::default();
                c = y;
            }
            let mut r = BuildTargetSourcesResult::new(vec![]);
            if set {
                r.set_items(vec![c]);
            } else {
                r = BuildTargetSourcesResult::new(vec![c]);
            }
            ((id, r).into(), obj(vec![("items", J::Arr(vec![obj(vec![("target", tidj), ("sources", J::Arr(vec![aj, bj]))])]))]))
        }
        5 => {
            let mut x = Resources::new(tid.clone(), vec![t.clone()]);
            if set {
                x.set_resources(vec![u.clone(), v.clone()]);
            }
            let xs = if set { vec![tj(&u), tj(&v)] } else { vec![tj(&t)] };
            (
                (id, BuildTargetResourcesResult::new(vec![x])).into(),
                obj(vec![("items", J::Arr(vec![obj(vec![("target", tidj), ("resources", J::Arr(xs))])]))]),
            )
        }
        6 => {
            let mut r = BuildTargetRunResult::new(ou.clone(), 4);
            if set {
                r = BuildTargetRunResult::new(None, 0);
                r.set_origin_id(ou);
                r.set_status_code(4);
            }
            let mut j = obj(vec![("statusCode", n("4"))]);
            if opt {
                j = j.with("originId", tj(&u));
            }
            check(o_s(r.origin_id(), j.get("originId")) & (r.status_code() == 4), "result getters return what was set");
            ((id, r).into(), j)
        }
        7 => {
            let mut r = BuildTargetCompileResult::new(ou.clone(), 5, ou.clone(), ov.clone());
            if set {
                r = BuildTargetCompileResult::new_simple(0);
                r.set_origin_id(ou.clone());
                r.set_status_code(5);
                r.set_data_kind(ou);
                r.set_data(ov);
            }
            let mut j = obj(vec![("statusCode", n("5"))]);
            if opt {
                j = j.with("originId", tj(&u)).with("dataKind", tj(&u)).with("data", tj(&v));
            }
            ((id, r).into(), j)
        }
        8 => {
            let mut r = BuildTargetTestResult::new(ou.clone(), 6, ou.clone(), ov.clone());
            if set {
                r = BuildTargetTestResult::new_simple(0);
                r.set_origin_id(ou.clone());
                r.set_status_code(6);
                r.set_data_kind(ou);
                r.set_data(ov);
            }
            let mut j = obj(vec![("statusCode", n("6"))]);
            if opt {
                j = j.with("originId", tj(&u)).with("dataKind", tj(&u)).with("data", tj(&v));
            }
            ((id, r).into(), j)
        }
        _ => {
            let mut r = if opt { BuildTargetCleanCacheResult::new(ou.clone(), set) } else { BuildTargetCleanCacheResult::new_simple(set) };
            if set {
                r.set_message(ou);
                r.set_cleaned(opt);
            }
            let mut j = obj(vec![("cleaned", J::Bool(if set { opt } else { set }))]);
            if opt {
                j = j.with("message", tj(&u));
            }
            ((id, r).into(), j)
        }
    };
    let o = crate::c_frame::emit(STDIO, vec![m]);
    let f = rpc(&o, "built");
    check(f.len() == 1 && f[0].same(&obj(vec![("id", n("1")), ("result", j)])), "constructed results are written as the protocol says");
    log("out", &o);
}

#[no_mangle]
pub extern "C" fn h_c10_subsets() {
    quiet();
    let k = kinds(RESULTS.len());
    let mut g = subsets();
    g.alen = if k == 0 || k == 1 { 1 } else { 2 };
    let (w, c) = g.object(RESULTS[k]);
    result_case(k, &w, &c);
    reach("c10_subsets");
}
#[no_mangle]
pub extern "C" fn h_c10_long() {
    quiet();
    let k = kinds(RESULTS.len());
    let (w, c) = long().object(RESULTS[k]);
    result_case(k, &w, &c);
    reach("c10_long");
}
#[no_mangle]
pub extern "C" fn h_c10_uris() {
    quiet();
    let k = kinds(RESULTS.len());
    let (w, c) = uris().object(RESULTS[k]);
    result_case(k, &w, &c);
    reach("c10_uris");
}
#[no_mangle]
pub extern "C" fn h_c10_missing() {
    quiet();
    let k = kinds(RESULTS.len());
    if let Some((j, what)) = broken(RESULTS[k], false) {
        log("missing", what.as_bytes());
        check(answer(k, &j.text(), RequestId::from(1)).is_none(), "a result without a required member is refused");
        reach("c10_missing");
    }
}

/// A member whose absence and whose empty text mean the same, and which is left out then.
fn unless_blank(j: J, name: &str, x: &str) -> J {
    if x.is_empty() { j } else { j.with(name, J::Str(x.as_bytes().to_vec())) }
}
