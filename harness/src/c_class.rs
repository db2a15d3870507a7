//! C04 classification, C05/C06 dispatch, C07 responses, C08 ids, C16 enums.
use crate::c_payload::{view_notif, view_req};
use crate::c_frame::uchar;
use crate::drv::*;
use crate::json::*;
use crate::pay::*;
use crate::refr::*;
use crate::rt::*;
use bsp_server::types::*;
use bsp_server::*;
use serde_json::Value;
use std::hash::{Hash, Hasher};

entries! { h_c04_members h_c04_order h_c04_extra h_c04_repeat h_c04_array h_c04_params h_c04_body h_c04_proto h_c04_anyname h_c04_errname h_c04_nested
           h_c05_typed h_c05_near h_c05_custom h_c05_bare h_c05_case h_c05_anymethod h_c05_pair h_c05_fold h_c05_long h_c05_many h_c05_alike h_c05_names
           h_c06_typed h_c06_near h_c06_custom h_c06_bare h_c06_params h_c06_anymethod h_c06_pair h_c06_names
           h_c07_ok h_c07_err h_c07_code h_c07_helpers h_c07_refuse h_c07_values h_c07_any h_c07_pair h_c07_echo h_c07_long
           h_c08_ints h_c08_text h_c08_longtext h_c08_like h_c08_bound h_c08_laws h_c08_strlaws h_c08_emit h_c08_from h_c08_stream h_c08_free h_c08_digits h_c08_long h_c08_longlaws
           h_c16_decode h_c16_encode h_c16_wrap }

fn obj_of(v: Vec<(&str, J)>) -> Vec<u8> {
    obj(v).text()
}
/// One body in a stream that has one message before it and one after it.
pub fn single(tr: u32, body: &[u8]) -> End {
    let mut st = frame(b"{\"jsonrpc\":\"2.0\",\"method\":\"first\"}");
    st.extend_from_slice(&frame(body));
    st.extend_from_slice(&frame(b"{\"jsonrpc\":\"2.0\",\"method\":\"last\"}"));
    judge(tr, &st)
}
// ------------------------------------------------------------------ C04
/// Every combination of the members that tell the kinds apart.
#[no_mangle]
pub extern "C" fn h_c04_members() {
    quiet();
    let mut v = vec![("jsonrpc", s("2.0"))];
    match pick(10, "id") {
        0 => {}
        1 => v.push(("id", n("5"))),
        2 => v.push(("id", J::Str(text(1, "i")))),
        3 => v.push(("id", J::Null)),
        4 => v.push(("id", n("1.5"))),
        5 => v.push(("id", J::Bool(true))),
        6 => v.push(("id", n("2147483648"))),
        7 => v.push(("id", J::Arr(vec![n("1")]))),
        8 => v.push(("id", n("-2147483649"))),
        _ => v.push(("id", s(""))),
    }
    match pick(5, "method") {
        0 => {}
        1 => {
            let mut m = b"m/".to_vec();
            m.extend_from_slice(&text(1, "m"));
            v.push(("method", J::Str(m)));
        }
        2 => v.push(("method", n("3"))),
        3 => v.push(("method", J::Null)),
        _ => v.push(("method", s("build/shutdown"))),
    }
    match pick(4, "params") {
        0 => {}
        1 => v.push(("params", J::Null)),
        2 => v.push(("params", obj(vec![("k", n("1"))]))),
        _ => v.push(("params", J::Arr(vec![]))),
    }
    match pick(3, "result") {
        0 => {}
        1 => v.push(("result", J::Null)),
        _ => v.push(("result", obj(vec![("r", s("x"))]))),
    }
    match pick(5, "error") {
        0 => {}
        1 => v.push(("error", obj(vec![("code", n("-32601")), ("message", s("no"))]))),
        2 => v.push(("error", J::Null)),
        3 => v.push(("error", obj(vec![("code", s("x")), ("message", s("no"))]))),
        _ => v.push(("error", obj(vec![("message", s("no")), ("data", n("1")), ("code", n("7"))]))),
    }
    if pick(2, "reverse") == 1 {
        v.reverse();
    }
    single(STDIO, &obj_of(v));
    reach("c04_members");
}
fn permute(v: &mut Vec<(&str, J)>) {
    let mut o: Vec<(&str, J)> = vec![];
    while !v.is_empty() {
        let k = if v.len() > 1 { pick(v.len() as u32, "order") as usize } else { 0 };
        o.push(v.remove(k));
    }
    *v = o;
}
/// Member order never matters.
#[no_mangle]
pub extern "C" fn h_c04_order() {
    quiet();
    let t = J::Str(text(1, "t"));
    let mut v = match pick(6, "kind") {
        0 => vec![("id", n("1")), ("method", s("m")), ("params", t)],
        1 => vec![("id", t.clone()), ("result", t)],
        2 => vec![("id", n("0")), ("error", obj(vec![("code", n("1")), ("message", t)]))],
        3 => vec![("method", s("m")), ("params", t)],
        4 => vec![("id", t), ("method", s("workspace/buildTargets")), ("params", obj(vec![]))],
        _ => vec![("method", s("build/initialized")), ("params", obj(vec![("a", t)]))],
    };
    v.push(("jsonrpc", s("2.0")));
    permute(&mut v);
    let e = single(STDIO, &obj_of(v));
    check(e == End::Clean, "harness: well-formed");
    reach("c04_order");
}
/// Members the protocol does not know are skipped whatever they hold.
#[no_mangle]
pub extern "C" fn h_c04_extra() {
    quiet();
    let t = text(2, "t");
    assume(!((t[0] == b'i') & (t[1] == b'd')));
    let mut v = match pick(5, "kind") {
        0 => vec![("jsonrpc", s("2.0")), ("id", n("1")), ("method", s("m")), ("params", n("1"))],
        1 => vec![("jsonrpc", s("2.0")), ("id", s("i")), ("result", n("1"))],
        2 => vec![("jsonrpc", s("2.0")), ("id", n("0")), ("error", obj(vec![("code", n("1")), ("message", s("e")), ("more", s("e"))]))],
        3 => vec![("jsonrpc", s("2.0")), ("method", s("m")), ("params", n("1"))],
        _ => vec![("jsonrpc", s("2.0")), ("id", n("4")), ("method", s("build/shutdown"))],
    };
    let x = match pick(9, "value") {
        0 => J::Null,
        1 => J::Bool(true),
        2 => n("1"),
        3 => n("-7"),
        4 => n("0.5"),
        5 => J::Str(t.clone()),
        6 => J::Arr(vec![J::Null, J::Arr(vec![n("1")]), J::Str(t.clone())]),
        7 => obj(vec![("id", n("9")), ("method", s("other")), ("o", obj(vec![("result", J::Null)]))]),
        _ => J::Arr(vec![]),
    };
    let at = pick(v.len() as u32 + 1, "at") as usize;
    let key = match pick(6, "key") {
        0 => leak(&t),
        1 => "Id",
        2 => "param",
        3 => "",
        4 => "methods",
        _ => "meta",
    };
    v.insert(at.min(v.len()), (key, x));
    let odd_number = v.iter().any(|(_, j)| matches!(j, J::Num(t) if t.len() == 3));
    let body = obj_of(v.clone());
    if odd_number {
        // the reference leaves fractions open; in a skipped member they are not
        v.remove(at);
        let j = obj(v);
        let c = classify(&j);
        feed(frame(&body));
        let (cn, th) = open(STDIO);
        let ms = collect(&cn);
        drop(cn);
        let r = join(th);
        verdict(&ms, &r, &[(j, c)], End::Clean);
    } else {
        let e = single(STDIO, &body);
        check(e == End::Clean, "harness: well-formed");
    }
    reach("c04_extra");
}
/// A repeated member is malformed.
#[no_mangle]
pub extern "C" fn h_c04_repeat() {
    quiet();
    let base = pick(4, "kind");
    let mut v = match base {
        0 => vec![("id", n("1")), ("method", s("m")), ("params", n("1"))],
        1 => vec![("id", s("i")), ("result", n("1"))],
        2 => vec![("id", n("0")), ("error", obj(vec![("code", n("1")), ("message", s("e"))]))],
        _ => vec![("method", s("m")), ("params", n("1"))],
    };
    let k = pick(v.len() as u32, "which") as usize;
    let (key, val) = v[k].clone();
    let other = match (&val, pick(2, "other")) {
        (_, 0) => val,
        (J::Num(_), _) => n("2"),
        (J::Str(_), _) => s("z"),
        (v, _) => v.clone(),
    };
    let at = pick(v.len() as u32 + 1, "at") as usize;
    v.insert(at, (key, other));
    v.insert(0, ("jsonrpc", s("2.0")));
    judge_case(&obj_of(v), &format!("{} of a {} repeated", key, ["request", "response", "error response", "notification"][base as usize]));
    reach("c04_repeat");
}
/// `single`, with the case named by the caller.
fn judge_case(body: &[u8], what: &str) {
    let mut st = frame(b"{\"jsonrpc\":\"2.0\",\"method\":\"first\"}");
    st.extend_from_slice(&frame(body));
    let (want, end) = reference(&st);
    judge_as(&st, &want, end, what);
}
fn judge_as(st: &[u8], want: &[(J, Class)], end: End, what: &str) {
    feed(st.to_vec());
    let (c, th) = open(STDIO);
    let ms = collect(&c);
    drop(c);
    let r = join(th);
    let mut w = what.as_bytes().to_vec();
    if let Some(m) = ms.get(want.len()) {
        w.extend_from_slice(b" -> ");
        w.extend_from_slice(match m {
            Message::Response(r) if r.result.is_none() && r.error.is_none() => b"empty response",
            _ => kind(m).as_bytes(),
        });
    }
    log("case", &w);
    verdict(&ms, &r, want, end);
}
/// Only objects are messages.
#[no_mangle]
pub extern "C" fn h_c04_array() {
    quiet();
    let id = [n("7"), s("x"), J::Null][pick(3, "id") as usize].clone();
    let els = vec![id, s("m"), J::Null, n("1")];
    let e2 = vec![els[0].clone(), J::Null, J::Null];
    let e3 = vec![els[0].clone(), n("1"), J::Null];
    let e4 = vec![els[0].clone(), J::Null, obj(vec![("code", n("1")), ("message", s("e"))])];
    let k = pick(9, "shape");
    let j = match k {
        0 => J::Arr(vec![]),
        1 => J::Arr(els[..1].to_vec()),
        2 => J::Arr(els[..2].to_vec()),
        3 => J::Arr(els),
        4 => J::Arr(e2),
        5 => J::Arr(e3),
        6 => J::Arr(e4),
        7 => J::Arr(vec![obj(vec![("jsonrpc", s("2.0")), ("method", s("m"))])]),
        _ => J::Arr(vec![s("m"), n("1")]),
    };
    let w = if matches!(j.arr().first(), Some(J::Num(_)) | Some(J::Str(_))) && j.len() == 3 { "array of id, result and error" } else { "array" };
    judge_case(&j.text(), w);
    reach("c04_array");
}
/// A request whose params the method cannot take is refused, not turned into
/// something else; likewise notifications.
#[no_mangle]
pub extern "C" fn h_c04_params() {
    quiet();
    let is_req = pick(2, "req") == 1;
    let (method, ms, k) = if is_req {
        let k = pick(REQS.len() as u32, "kind") as usize;
        (REQS[k].0, REQS[k].1, k)
    } else {
        let k = pick(NOTIFS.len() as u32, "kind") as usize;
        (NOTIFS[k].0, NOTIFS[k].1, k)
    };
    let _ = k;
    let (good, _) = Gen::fixed(0).object(ms);
    let how = pick(5, "how");
    let reqd: Vec<&M> = ms.iter().filter(|m| m.2 == P::Req).collect();
    // every member of a task event has a default
    if method.starts_with("build/task") && how == 3 {
        return;
    }
    let (bad, what) = match how {
        0 => (None, "missing"),
        1 => (Some(J::Null), "null"),
        2 => (Some(n("3")), "of the wrong type"),
        3 => {
            if reqd.is_empty() {
                return;
            }
            let m = reqd[pick(reqd.len() as u32, "member") as usize];
            (Some(good.without(m.0)), "incomplete")
        }
        _ => {
            if reqd.is_empty() {
                return;
            }
            let m = reqd[pick(reqd.len() as u32, "member") as usize];
            let x = match m.1 {
                F::Bool => n("1"),
                F::Num(_) => s("1"),
                F::O(_) => J::Bool(false),
                _ => J::Bool(true),
            };
            (Some(good.without(m.0).with(m.0, x)), "with a member of the wrong type")
        }
    };
    let mut v = vec![("jsonrpc", s("2.0"))];
    if is_req {
        v.push(("id", n("8")));
    }
    v.push(("method", s(method)));
    if let Some(b) = bad {
        v.push(("params", b));
    }
    let mut st = frame(b"{\"jsonrpc\":\"2.0\",\"method\":\"first\"}");
    st.extend_from_slice(&frame(&obj_of(v)));
    let (mut want, _) = reference(&st);
    want.truncate(1);
    judge_as(&st, &want, End::Fail("params"), &format!("{} with params {}", if is_req { "request" } else { "notification" }, what));
    reach("c04_params");
}
/// Bodies that are JSON but no message.
#[no_mangle]
pub extern "C" fn h_c04_body() {
    quiet();
    let j = match pick(8, "body") {
        0 => J::Null,
        1 => J::Bool(true),
        2 => n("12"),
        3 => J::Str(text(2, "t")),
        4 => obj(vec![]),
        5 => obj(vec![("jsonrpc", s("2.0"))]),
        6 => obj(vec![("jsonrpc", s("2.0")), ("params", n("1")), ("result", n("1"))]),
        _ => obj(vec![("jsonrpc", s("2.0")), ("result", n("1"))]),
    };
    let mut st = frame(b"{\"jsonrpc\":\"2.0\",\"method\":\"first\"}");
    st.extend_from_slice(&frame(&j.text()));
    let (mut want, _) = reference(&st);
    want.truncate(1);
    judge_as(&st, &want, End::Fail("no message"), "body that is no message");
    reach("c04_body");
}
/// The version member is taken wherever it stands and, being harmless, in any
/// spelling JSON allows.
#[no_mangle]
pub extern "C" fn h_c04_proto() {
    quiet();
    let t = text(1, "t");
    let mut b = b"{".to_vec();
    let key: &[u8] = [&b"\"jsonrpc\""[..], b"\"json\\u0072pc\"", b"\"\\u006asonrpc\""][pick(3, "key") as usize];
    let id: &[u8] = [&b"\"id\""[..], b"\"\\u0069d\"", b"\"i\\u0064\""][pick(3, "id") as usize];
    let me: &[u8] = [&b"\"method\""[..], b"\"met\\u0068od\"", b"\"\\u006dethod\""][pick(3, "method") as usize];
    b.extend_from_slice(key);
    b.extend_from_slice(b":\"2.0\",");
    b.extend_from_slice(id);
    b.extend_from_slice(b":\"");
    b.extend_from_slice(&t);
    b.extend_from_slice(b"\",");
    b.extend_from_slice(me);
    b.extend_from_slice(b":\"a\\/b\"}");
    let e = single(STDIO, &b);
    check(e == End::Clean, "harness: well-formed");
    reach("c04_proto");
}

/// Members of any other name (up to 12 free characters) are skipped.
#[no_mangle]
pub extern "C" fn h_c04_anyname() {
    quiet();
    let l = 1 + pick(12, "len") as usize;
    let t = text(l, "t");
    for k in ["id", "method", "params", "result", "error", "jsonrpc"] {
        if k.len() == l {
            assume(t != k.as_bytes());
        }
    }
    let mut v = match pick(4, "kind") {
        0 => vec![("jsonrpc", s("2.0")), ("id", n("1")), ("method", s("m")), ("params", n("1"))],
        1 => vec![("jsonrpc", s("2.0")), ("id", s("i")), ("result", n("1"))],
        2 => vec![("jsonrpc", s("2.0")), ("id", n("0")), ("error", obj(vec![("code", n("1")), ("message", s("e"))]))],
        _ => vec![("jsonrpc", s("2.0")), ("method", s("m"))],
    };
    let at = if pick(2, "at") == 0 { 0 } else { v.len() };
    let x = match pick(4, "value") {
        0 => J::Null,
        1 => n("12"),
        2 => s("2.0"),
        _ => obj(vec![("id", n("2")), ("code", n("1")), ("message", s("x"))]),
    };
    v.insert(at, (leak(&t), x));
    let e = single(STDIO, &obj_of(v));
    check(e == End::Clean, "harness: well-formed");
    reach("c04_anyname");
}
/// Likewise inside an error object.
#[no_mangle]
pub extern "C" fn h_c04_errname() {
    quiet();
    let l = 1 + pick(9, "len") as usize;
    let t = text(l, "t");
    for k in ["code", "message", "data"] {
        if k.len() == l {
            assume(t != k.as_bytes());
        }
    }
    let mut v = vec![("code", n("-3")), ("message", s("e"))];
    if pick(2, "data") == 1 {
        v.push(("data", J::Bool(false)));
    }
    let at = pick(v.len() as u32 + 1, "at") as usize;
    let x = match pick(4, "value") {
        0 => J::Null,
        1 => n("12"),
        2 => s("x"),
        _ => obj(vec![("code", n("2"))]),
    };
    v.insert(at, (leak(&t), x));
    let e = single(STDIO, &obj_of(vec![("jsonrpc", s("2.0")), ("id", n("0")), ("error", obj(v))]));
    check(e == End::Clean, "harness: well-formed");
    reach("c04_errname");
}
/// What a message carries never decides its kind: params, results and error
/// data that look like messages, and members named like those of messages.
#[no_mangle]
pub extern "C" fn h_c04_nested() {
    quiet();
    let key = leak([&b"id"[..], b"method", b"params", b"result", b"error", b"jsonrpc", b"code", b"message", b"data"][pick(9, "key") as usize]);
    let val = shape(pick(SHAPES, "value"));
    let x = match pick(4, "wrap") {
        0 => obj(vec![(key, val)]),
        1 => obj(vec![("jsonrpc", s("2.0")), ("id", n("9")), (key, val)]),
        2 => J::Arr(vec![obj(vec![(key, val)])]),
        _ => obj(vec![("in", obj(vec![(key, val)]))]),
    };
    if let J::Obj(v) = &x {
        if v.len() == 3 && (key == "id" || key == "jsonrpc") {
            return;
        }
    }
    let v = match pick(4, "kind") {
        0 => vec![("jsonrpc", s("2.0")), ("id", n("1")), ("method", s("m")), ("params", x)],
        1 => vec![("jsonrpc", s("2.0")), ("method", s("m")), ("params", x)],
        2 => vec![("jsonrpc", s("2.0")), ("id", n("1")), ("result", x)],
        _ => vec![("jsonrpc", s("2.0")), ("id", n("1")), ("error", obj(vec![("code", n("1")), ("message", s("e")), ("data", x)]))],
    };
    let e = single(STDIO, &obj_of(v));
    check(e == End::Clean, "harness: well-formed");
    reach("c04_nested");
}

// ------------------------------------------------------------------ C05
#[no_mangle]
pub extern "C" fn h_c05_typed() {
    quiet();
    let k = pick(REQS.len() as u32, "kind") as usize;
    let tr = pick(2, "transport");
    let (method, ms) = REQS[k];
    let mut g = Gen::fixed(pick(2, "mode"));
    let (w, c) = g.object(ms);
    let id = if pick(2, "id") == 0 { n("-5") } else { J::Str(text(1, "i")) };
    let mut v = vec![("jsonrpc", s("2.0")), ("id", id.clone()), ("method", s(method)), ("params", w)];
    if pick(2, "reverse") == 1 {
        v.reverse();
    }
    feed(frame(&obj_of(v)));
    let (cn, th) = open(tr);
    let m = collect(&cn);
    drop(cn);
    check(join(th).is_ok(), "a clean stream ends without an error");
    check(m.len() == 1, "a typed request is delivered");
    for m in m {
        match m {
            Message::Request(r) => {
                check(view_req(&r, k, &c), "a known method is delivered as its own variant with its params");
                check(r.method() == method, "the variant names its method");
                check(*r.id() == rid(&id), "the request keeps its id");
            }
            _ => check(false, "a typed request is delivered as a request"),
        }
    }
    reach("c05_typed");
}
fn all_req_methods() -> Vec<&'static str> {
    let mut v: Vec<&str> = REQS.iter().map(|r| r.0).collect();
    v.extend_from_slice(BARE);
    v
}
fn near(base: &str) -> Vec<u8> {
    let mut m = base.as_bytes().to_vec();
    let at = pick(m.len() as u32 + 3, "at") as usize;
    if at < m.len() {
        let b = text(1, "b")[0];
        assume(b != m[at]);
        m[at] = b;
    } else if at == m.len() {
        m.push(text(1, "b")[0]);
    } else if at == m.len() + 1 {
        m.remove(0);
    } else {
        m.pop();
    }
    m
}
/// A method that differs from a known one in a single character is custom.
#[no_mangle]
pub extern "C" fn h_c05_near() {
    quiet();
    let all = all_req_methods();
    let m = near(all[pick(all.len() as u32, "kind") as usize]);
    let p = [J::Null, obj(vec![("a", n("1"))])][pick(2, "params") as usize].clone();
    single(STDIO, &obj_of(vec![("jsonrpc", s("2.0")), ("id", n("2")), ("method", J::Str(m)), ("params", p)]));
    reach("c05_near");
}
/// JSON values of every kind
const SHAPES: u32 = 15;
fn shape(k: u32) -> J {
    match k {
        0 => J::Null,
        1 => J::Bool(true),
        2 => n("-17"),
        3 => J::Str(text(2, "p")),
        4 => J::Arr(vec![J::Null, n("1"), J::Str(text(1, "p"))]),
        5 => obj(vec![("b", n("1")), ("a", J::Str(text(1, "p"))), ("", J::Arr(vec![]))]),
        6 => J::Arr(vec![]),
        7 => obj(vec![("z", obj(vec![("y", J::Arr(vec![obj(vec![("x", J::Null)])]))]))]),
        8 => obj(vec![]),
        9 => s(""),
        10 => J::Bool(false),
        11 => n("0"),
        12 => n("4294967296"),
        13 => J::Arr(vec![J::Null]),
        _ => obj(vec![("n", J::Null), ("f", J::Bool(false)), ("s", s("")), ("o", obj(vec![])), ("l", J::Arr(vec![J::Arr(vec![])]))]),
    }
}
/// `shape`, and numbers the classification leaves open
const VALUES: u32 = SHAPES + 6;
fn value(k: u32) -> J {
    match k.wrapping_sub(SHAPES) {
        0 => n("1.5"),
        1 => n("18446744073709551615"),
        2 => n("-9223372036854775808"),
        3 => n("-0.25"),
        4 => obj(vec![("a", n("9007199254740993")), ("b", n("2.5"))]),
        5 => J::Arr(vec![n("0.5"), n("9223372036854775808")]),
        _ => shape(k),
    }
}
/// Unknown methods keep method, id and params, in and out.
#[no_mangle]
pub extern "C" fn h_c05_custom() {
    quiet();
    let len = pick(4, "len") as usize;
    let me = J::Str(text(len, "m"));
    let p = pick(VALUES + 1, "params");
    let id = if pick(2, "id") == 0 { n("2147483647") } else { J::Str(text(1, "i")) };
    let mut v = vec![("jsonrpc", s("2.0")), ("id", id.clone()), ("method", me.clone())];
    let pj = if p < VALUES { value(p) } else { J::Null };
    if p < VALUES {
        v.push(("params", pj.clone()));
    }
    feed(frame(&obj_of(v)));
    let (c, th) = open(STDIO);
    let ms = collect(&c);
    check(ms.len() == 1, "a custom request is delivered");
    for m in ms {
        check(is_req(&m, &id, me.bytes(), &pj), "a custom request keeps id, method and params");
        if let Message::Request(r) = &m {
            check(same(r.method().as_bytes(), me.bytes()), "the request names its method");
            check(r.params().map_or(false, |v| same_val(&v, &pj)), "the request exposes its params");
        }
        check(c.send(m).is_ok(), "a live connection accepts messages");
    }
    drop(c);
    check(join(th).is_ok(), "a clean stream ends without an error");
    let f = rpc(&out(), "custom");
    let mut w = obj(vec![("id", id), ("method", me)]);
    let with_null = w.clone().with("params", J::Null);
    if !matches!(pj, J::Null) {
        w = w.with("params", pj.clone());
    }
    check(
        f.len() == 1 && (f[0].same(&w) || matches!(pj, J::Null) && f[0].same(&with_null)),
        "a custom request is written with the id, method and params it holds",
    );
    reach("c05_custom");
}
/// Methods without params take whatever params come along.
#[no_mangle]
pub extern "C" fn h_c05_bare() {
    quiet();
    let m = BARE[pick(BARE.len() as u32, "kind") as usize];
    let p = pick(SHAPES + 1, "params");
    let id = if pick(2, "id") == 0 { n("0") } else { J::Str(text(1, "i")) };
    let mut v = vec![("jsonrpc", s("2.0")), ("id", id.clone()), ("method", s(m))];
    if p < SHAPES {
        v.insert(1, ("params", shape(p)));
    }
    let e = single(STDIO, &obj_of(v));
    check(e == End::Clean, "harness: well-formed");
    // and out again
    reach("c05_bare");
}
/// Method names are compared exactly: case, spaces and prefixes count.
#[no_mangle]
pub extern "C" fn h_c05_case() {
    quiet();
    let all = all_req_methods();
    let m = all[pick(all.len() as u32, "kind") as usize];
    let v: Vec<u8> = match pick(8, "how") {
        0 => m.to_ascii_uppercase().into_bytes(),
        1 => m.to_ascii_lowercase().into_bytes(),
        2 => format!("{} ", m).into_bytes(),
        3 => format!("/{}", m).into_bytes(),
        4 => format!("$/{}", m).into_bytes(),
        5 => m.split('/').next().unwrap().as_bytes().to_vec(),
        6 => m.split('/').nth(1).unwrap().as_bytes().to_vec(),
        _ => m.replace('/', ".").into_bytes(),
    };
    if same(&v, m.as_bytes()) {
        return;
    }
    let req = pick(2, "req") == 1;
    let mut o = vec![("jsonrpc", s("2.0"))];
    if req {
        o.push(("id", n("1")));
    }
    o.push(("method", J::Str(v)));
    let e = single(STDIO, &obj_of(o));
    check(e == End::Clean || e == End::Any, "harness: well-formed");
    reach("c05_case");
}

/// Methods of every length up to 40, every character free.
#[no_mangle]
pub extern "C" fn h_c05_anymethod() {
    quiet();
    let m = text(pick(41, "len") as usize, "m");
    let mut v = vec![("jsonrpc", s("2.0")), ("id", n("2")), ("method", J::Str(m))];
    if pick(2, "params") == 1 {
        v.insert(1, ("params", obj(vec![("a", n("1"))])));
    }
    single(STDIO, &obj_of(v));
    reach("c05_anymethod");
}
/// Several custom messages in one stream keep apart, whatever their names.
#[no_mangle]
pub extern "C" fn h_c05_pair() {
    quiet();
    let a = J::Str(text(1 + pick(3, "la") as usize, "a"));
    let b = J::Str(text(1 + pick(3, "lb") as usize, "b"));
    let p = |k: u32| shape([0, 3, 5, 8][k as usize]);
    let mut st = vec![];
    let (pa, pb) = (p(pick(4, "pa")), p(pick(4, "pb")));
    let req = |i: &str, m: &J, p: &J| obj_of(vec![("jsonrpc", s("2.0")), ("id", n(i)), ("method", m.clone()), ("params", p.clone())]);
    st.extend_from_slice(&frame(&req("1", &a, &pa)));
    st.extend_from_slice(&frame(&req("2", &b, &pb)));
    st.extend_from_slice(&frame(&obj_of(vec![("jsonrpc", s("2.0")), ("method", b.clone()), ("params", pa.clone())])));
    st.extend_from_slice(&frame(&req("2", &a, &J::Null)));
    let e = judge(STDIO, &st);
    check(e == End::Clean, "harness: well-formed");
    reach("c05_pair");
}
/// Long names are custom whatever they hold.
#[no_mangle]
pub extern "C" fn h_c05_long() {
    quiet();
    const LEN: [usize; 12] = [17, 33, 48, 63, 64, 65, 100, 128, 255, 256, 1000, 5000];
    let l = LEN[pick(12, "len") as usize];
    let mut m: Vec<u8> = match pick(4, "what") {
        0 => b"x".repeat(l),
        1 => b"build/shutdown".iter().cycle().take(l).copied().collect(),
        2 => b"build/exit/".iter().cycle().take(l).copied().collect(),
        _ => wide(l),
    };
    m.extend_from_slice(&text(1, "t"));
    let mut v = vec![("jsonrpc", s("2.0")), ("method", J::Str(m))];
    if pick(2, "id") == 1 {
        v.insert(1, ("id", n("2")));
    }
    if pick(2, "params") == 1 {
        v.insert(1, ("params", obj(vec![("a", n("1"))])));
    }
    single(STDIO, &obj_of(v));
    reach("c05_long");
}
/// Many different names on one connection, of one form, one of them again.
#[no_mangle]
pub extern "C" fn h_c05_many() {
    quiet();
    let n0 = [5, 40, 300][pick(3, "len") as usize];
    let form = pick(4, "form");
    let name = |i: usize| -> J {
        let mut v = match form {
            0 => vec![],
            1 => b"workspace/custom".to_vec(),
            2 => b"x/".to_vec(),
            _ => dec(i),
        };
        if form < 3 {
            v.extend_from_slice(&dec(1000 + i));
        } else {
            v.extend_from_slice(b"/a/rather/long/name/that/ends/alike");
        }
        J::Str(v)
    };
    let again = pick(3, "again") as usize * (n0 / 3);
    let mut st = vec![];
    for i in 0..n0 + 2 {
        let i = if i < n0 { i } else { again };
        let mut v = vec![("jsonrpc", s("2.0")), ("method", name(i)), ("params", J::Arr(vec![J::Num(dec(i))]))];
        if (i + again) % 2 == 1 {
            v.insert(1, ("id", J::Num(dec(i))));
        }
        st.extend_from_slice(&frame(&obj_of(v)));
    }
    let e = judge(STDIO, &st);
    check(e == End::Clean, "harness: well-formed");
    reach("c05_many");
}
/// Two names of the same length on one connection, anything but equal.
#[no_mangle]
pub extern "C" fn h_c05_alike() {
    quiet();
    let l = [4, 9, 17, 33][pick(4, "len") as usize];
    let a = text(l, "a");
    let b = text(l, "b");
    assume(a[0] != b[0]);
    let req = |i: &str, m: &[u8]| obj_of(vec![("jsonrpc", s("2.0")), ("id", n(i)), ("method", J::Str(m.to_vec()))]);
    let note = |m: &[u8]| obj_of(vec![("jsonrpc", s("2.0")), ("method", J::Str(m.to_vec())), ("params", n("1"))]);
    let mut st = vec![];
    match pick(3, "kinds") {
        0 => {
            st.extend_from_slice(&frame(&req("1", &a)));
            st.extend_from_slice(&frame(&req("2", &b)));
        }
        1 => {
            st.extend_from_slice(&frame(&note(&a)));
            st.extend_from_slice(&frame(&note(&b)));
        }
        _ => {
            st.extend_from_slice(&frame(&req("1", &a)));
            st.extend_from_slice(&frame(&note(&b)));
        }
    }
    judge(STDIO, &st);
    reach("c05_alike");
}
/// Names that differ from a known one in two places, or end early, or go on.
#[no_mangle]
pub extern "C" fn h_c05_fold() {
    quiet();
    let (all, req) = if pick(2, "req") == 1 { (all_req_methods(), true) } else { (all_notif_methods(), false) };
    let m = all[pick(all.len() as u32, "kind") as usize].as_bytes();
    let v: Vec<u8> = match pick(6, "how") {
        0 => {
            // cut anywhere, two free characters behind
            let at = pick(m.len() as u32, "at") as usize;
            let mut v = m[..at].to_vec();
            v.extend_from_slice(&text(2, "t"));
            v
        }
        1 => {
            let at = pick(m.len() as u32, "at") as usize;
            let mut v = m[at..].to_vec();
            v.insert(0, text(1, "t")[0]);
            v
        }
        2 => {
            let mut v = m.to_vec();
            v.extend_from_slice(&text(3, "t"));
            v
        }
        3 => {
            let mut v = text(2, "t");
            v.extend_from_slice(m);
            v
        }
        4 => {
            // one more character somewhere inside
            let at = pick(m.len() as u32, "at") as usize;
            let mut v = m.to_vec();
            v.insert(at, text(1, "t")[0]);
            v
        }
        _ => {
            // one character missing, or doubled neighbours swapped
            let at = 1 + pick(m.len() as u32 - 1, "at") as usize;
            let mut v = m.to_vec();
            if pick(2, "swap") == 1 {
                v.swap(at - 1, at);
            } else {
                v.remove(at);
            }
            v
        }
    };
    let mut o = vec![("jsonrpc", s("2.0"))];
    if req {
        o.push(("id", n("1")));
    }
    o.push(("method", J::Str(v)));
    single(STDIO, &obj_of(o));
    reach("c05_fold");
}

// ------------------------------------------------------------------ C06
#[no_mangle]
pub extern "C" fn h_c06_typed() {
    quiet();
    let k = pick(NOTIFS.len() as u32, "kind") as usize;
    let tr = pick(2, "transport");
    let (method, ms) = NOTIFS[k];
    let mut g = Gen::fixed(pick(2, "mode"));
    let (w, c) = g.object(ms);
    let mut v = vec![("jsonrpc", s("2.0")), ("method", s(method)), ("params", w)];
    if pick(2, "reverse") == 1 {
        v.reverse();
    }
    feed(frame(&obj_of(v)));
    let (cn, th) = open(tr);
    let m = collect(&cn);
    drop(cn);
    check(join(th).is_ok(), "a clean stream ends without an error");
    check(m.len() == 1, "a typed notification is delivered");
    for m in m {
        match m {
            Message::Notification(r) => {
                check(view_notif(&r, k, &c), "a known method is delivered as its own variant with its params");
                check(r.method() == method, "the variant names its method");
            }
            _ => check(false, "a typed notification is delivered as a notification"),
        }
    }
    reach("c06_typed");
}
fn all_notif_methods() -> Vec<&'static str> {
    let mut v: Vec<&str> = NOTIFS.iter().map(|r| r.0).collect();
    v.extend_from_slice(&BARE_NOTIF);
    v
}
#[no_mangle]
pub extern "C" fn h_c06_near() {
    quiet();
    let all = all_notif_methods();
    let m = near(all[pick(all.len() as u32, "kind") as usize]);
    let p = [J::Null, obj(vec![("a", n("1"))])][pick(2, "params") as usize].clone();
    single(STDIO, &obj_of(vec![("jsonrpc", s("2.0")), ("method", J::Str(m)), ("params", p)]));
    reach("c06_near");
}
#[no_mangle]
pub extern "C" fn h_c06_custom() {
    quiet();
    let len = pick(4, "len") as usize;
    let me = J::Str(text(len, "m"));
    let p = pick(VALUES + 1, "params");
    let mut v = vec![("jsonrpc", s("2.0")), ("method", me.clone())];
    let pj = if p < VALUES { value(p) } else { J::Null };
    if p < VALUES {
        v.push(("params", pj.clone()));
    }
    feed(frame(&obj_of(v)));
    let (c, th) = open(STDIO);
    let ms = collect(&c);
    check(ms.len() == 1, "a custom notification is delivered");
    for m in ms {
        check(is_notif(&m, me.bytes(), &pj), "a custom notification keeps method and params");
        if let Message::Notification(r) = &m {
            check(same(r.method().as_bytes(), me.bytes()), "the notification names its method");
        }
        check(c.send(m).is_ok(), "a live connection accepts messages");
    }
    drop(c);
    check(join(th).is_ok(), "a clean stream ends without an error");
    let f = rpc(&out(), "custom");
    let w = obj(vec![("method", me)]);
    let x = w.clone().with("params", pj.clone());
    check(
        f.len() == 1 && (f[0].same(&x) || matches!(pj, J::Null) && f[0].same(&w)),
        "a custom notification is written with the method and params it holds",
    );
    reach("c06_custom");
}
/// Exit and initialized take whatever params come along.
#[no_mangle]
pub extern "C" fn h_c06_bare() {
    quiet();
    let m = BARE_NOTIF[pick(2, "kind") as usize];
    let p = pick(SHAPES + 1, "params");
    let mut v = vec![("jsonrpc", s("2.0")), ("method", s(m))];
    if p < SHAPES {
        v.insert(1, ("params", shape(p)));
    }
    let e = single(STDIO, &obj_of(v));
    check(e == End::Clean, "harness: well-formed");
    reach("c06_bare");
}
/// A method only notifications know is a custom request when it has an id,
/// and the other way round.
#[no_mangle]
pub extern "C" fn h_c06_params() {
    quiet();
    let as_req = pick(2, "as_req") == 1;
    let all = if as_req { all_notif_methods() } else { all_req_methods() };
    let m = all[pick(all.len() as u32, "kind") as usize];
    let p = shape(pick(SHAPES, "params"));
    let mut v = vec![("jsonrpc", s("2.0")), ("method", s(m)), ("params", p)];
    if as_req {
        v.push(("id", J::Str(text(1, "i"))));
    }
    let e = single(STDIO, &obj_of(v));
    check(e == End::Clean, "harness: well-formed");
    reach("c06_params");
}

#[no_mangle]
pub extern "C" fn h_c06_anymethod() {
    quiet();
    let m = text(pick(41, "len") as usize, "m");
    let mut v = vec![("jsonrpc", s("2.0")), ("method", J::Str(m))];
    if pick(2, "params") == 1 {
        v.insert(1, ("params", obj(vec![("a", n("1"))])));
    }
    single(STDIO, &obj_of(v));
    reach("c06_anymethod");
}
#[no_mangle]
pub extern "C" fn h_c06_pair() {
    quiet();
    let a = J::Str(text(1 + pick(3, "la") as usize, "a"));
    let b = J::Str(text(1 + pick(3, "lb") as usize, "b"));
    let p = |k: u32| shape([0, 3, 5, 8][k as usize]);
    let (pa, pb) = (p(pick(4, "pa")), p(pick(4, "pb")));
    let mut st = vec![];
    for (m, p) in [(&a, &pa), (&b, &pb), (&a, &pb), (&a, &pb), (&b, &pa)] {
        st.extend_from_slice(&frame(&obj_of(vec![("jsonrpc", s("2.0")), ("method", m.clone()), ("params", p.clone())])));
    }
    let e = judge(STDIO, &st);
    check(e == End::Clean, "harness: well-formed");
    reach("c06_pair");
}

// ------------------------------------------------------------------ C07
/// A response goes in and out unchanged.
fn resp_echo(j: &J) {
    feed(frame(&wire(j)));
    let (c, th) = open(STDIO);
    let ms = collect(&c);
    check(ms.len() == 1, "the response is delivered");
    for m in ms {
        let jj = j.clone().with("jsonrpc", s("2.0"));
        check(fits(&m, &jj, Class::Resp), "the response carries id and outcome");
        check(c.send(m).is_ok(), "a live connection accepts messages");
    }
    drop(c);
    check(join(th).is_ok(), "a clean stream ends without an error");
    let f = rpc(&out(), "response");
    check(f.len() == 1 && f[0].same(j), "a response survives decoding and encoding");
}
#[no_mangle]
pub extern "C" fn h_c07_ok() {
    quiet();
    let id = if pick(2, "id") == 0 { n("1") } else { J::Str(text(1, "i")) };
    let r = value(1 + pick(VALUES - 1, "result"));
    let mut v = vec![("id", id), ("result", r)];
    if pick(2, "reverse") == 1 {
        v.reverse();
    }
    resp_echo(&obj(v));
    reach("c07_ok");
}
#[no_mangle]
pub extern "C" fn h_c07_err() {
    quiet();
    let id = if pick(2, "id") == 0 { n("1") } else { J::Str(text(1, "i")) };
    let code = ["0", "1", "-1", "-32700", "-32603", "-32000", "2147483647", "-2147483648"][pick(8, "code") as usize];
    let mut m = uchar(pick(4, "class"), "c");
    m.push(b'.');
    let mut e = vec![("code", n(code)), ("message", J::Str(m))];
    let d = pick(VALUES, "data");
    if d > 0 {
        e.push(("data", value(d)));
    }
    if pick(2, "reverse") == 1 {
        e.reverse();
    }
    resp_echo(&obj(vec![("id", id), ("error", obj(e))]));
    reach("c07_err");
}
/// Error codes of any value in range (free digits).
#[no_mangle]
pub extern "C" fn h_c07_code() {
    quiet();
    let neg = pick(2, "negative") == 1;
    let l = 1 + pick(5, "digits") as usize;
    let d = bytes(l, "d");
    for (i, b) in d.iter().enumerate() {
        assume((*b >= b'0') & (*b <= b'9'));
        if i == 0 {
            assume(*b != b'0');
        }
    }
    let mut t = if neg { b"-".to_vec() } else { vec![] };
    t.extend_from_slice(&d);
    let mut b = b"{\"jsonrpc\":\"2.0\",\"id\":3,\"error\":{\"code\":".to_vec();
    b.extend_from_slice(&t);
    b.extend_from_slice(b",\"message\":\"m\"}}");
    let m: Result<Message, _> = serde_json::from_str(&st(&b));
    let mut v = d[0].wrapping_sub(b'0') as u64;
    for b in &d[1..] {
        v = v * 10 + b.wrapping_sub(b'0') as u64;
    }
    let v = if neg { (v as i64).wrapping_neg() as i32 } else { v as i32 };
    match m {
        Ok(Message::Response(r)) => {
            check(r.error.map_or(false, |e| e.code == v), "an error keeps its code");
        }
        _ => check(false, "an error response is accepted"),
    }
    reach("c07_code");
}
const HELPERS: [(&str, i32); 11] = [
    ("parse_error", -32700),
    ("server_not_initialized", -32002),
    ("invalid_request", -32600),
    ("method_not_found", -32601),
    ("invalid_params", -32602),
    ("internal_error", -32603),
    ("server_error_start", -32099),
    ("server_error_end", -32000),
    ("request_canceled", -32800),
    ("content_modified", -32801),
    ("server_canceled", -32802),
];
/// The named constructors carry the codes the protocol assigns.
#[no_mangle]
pub extern "C" fn h_c07_helpers() {
    quiet();
    let k = pick(12, "which") as usize;
    let t = text(2, "t");
    let (id, idj) = if pick(2, "id") == 0 { (RequestId::from(9), n("9")) } else { (RequestId::from(st(&t)), J::Str(t.clone())) };
    let m = st(&t);
    let r = match k {
        0 => Response::parse_error(id, m),
        1 => Response::server_not_initialized(id, m),
        2 => Response::invalid_request(id, m),
        3 => Response::method_not_found(id, m),
        4 => Response::invalid_params(id, m),
        5 => Response::internal_error(id, m),
        6 => Response::server_error_start(id, m),
        7 => Response::server_error_end(id, m),
        8 => Response::request_canceled(id, m),
        9 => Response::content_modified(id, m),
        10 => Response::server_canceled(id, m),
        _ => Response::err(id, 17, m),
    };
    let code = if k < 11 { HELPERS[k].1 } else { 17 };
    let e = [
        ErrorCode::ParseError as i32,
        ErrorCode::ServerNotInitialized as i32,
        ErrorCode::InvalidRequest as i32,
        ErrorCode::MethodNotFound as i32,
        ErrorCode::InvalidParams as i32,
        ErrorCode::InternalError as i32,
        ErrorCode::ServerErrorStart as i32,
        ErrorCode::ServerErrorEnd as i32,
        ErrorCode::RequestCanceled as i32,
        ErrorCode::ContentModified as i32,
        ErrorCode::ServerCancelled as i32,
    ];
    if k < 11 {
        check(e[k] == code, "error codes have the protocol's values");
    }
    let o = crate::c_frame::emit(STDIO, vec![r.into()]);
    let f = rpc(&o, "helper");
    let w = obj(vec![("id", idj), ("error", obj(vec![("code", J::Num(code.to_string().into_bytes())), ("message", J::Str(t))]))]);
    check(f.len() == 1 && f[0].same(&w), "an error response is written with its id, code and message and no result");
    reach("c07_helpers");
}
/// Error objects that are not ones.
#[no_mangle]
pub extern "C" fn h_c07_refuse() {
    quiet();
    let e = match pick(9, "error") {
        0 => obj(vec![("message", s("m"))]),
        1 => obj(vec![("code", n("1"))]),
        2 => obj(vec![("code", n("2147483648")), ("message", s("m"))]),
        3 => obj(vec![("code", n("-2147483649")), ("message", s("m"))]),
        4 => obj(vec![("code", n("1")), ("message", n("1"))]),
        5 => obj(vec![("code", J::Null), ("message", s("m"))]),
        6 => J::Str(text(1, "t")),
        7 => n("5"),
        _ => obj(vec![("code", n("4294967295")), ("message", s("m"))]),
    };
    let e = single(STDIO, &obj_of(vec![("jsonrpc", s("2.0")), ("id", n("1")), ("error", e)]));
    check(matches!(e, End::Fail(_)), "harness: malformed");
    reach("c07_refuse");
}
/// Results built from any value, null included, are written as that value.
#[no_mangle]
pub extern "C" fn h_c07_values() {
    quiet();
    let k = pick(VALUES + 2, "value");
    let id = RequestId::from(2);
    let (m, w): (Message, J) = match k {
        VALUES => (Response::ok(id, ()).into(), J::Null),
        k if k == VALUES + 1 => {
            let t = text(2, "t");
            ((id, st(&t)).into(), J::Str(t))
        }
        k => {
            let j = value(k);
            ((id, to_val(&j)).into(), j)
        }
    };
    if let Message::Response(r) = &m {
        check(r.error.is_none(), "a success response has no error");
        check(r.result.as_ref().map_or(false, |v| same_val(v, &w)), "a success response holds its result");
    }
    let o = crate::c_frame::emit(STDIO, vec![m]);
    let f = rpc(&o, "value");
    check(f.len() == 1 && f[0].same(&obj(vec![("id", n("2")), ("result", w)])), "a success response is written with its id and result, null included");
    reach("c07_values");
}

/// `Response::ok`, `Response::err` and the tuple conversions with free texts,
/// ids and codes of every sign.
#[no_mangle]
pub extern "C" fn h_c07_any() {
    quiet();
    let t = text(pick(4, "len") as usize, "t");
    let code = ["0", "1", "-1", "-32700", "-32603", "-32002", "-32800", "404", "2147483647", "-2147483648"][pick(10, "code") as usize];
    let c = int(code.as_bytes()).unwrap() as i32;
    let (id, idj) = match pick(3, "id") {
        0 => (RequestId::from(0), n("0")),
        1 => (RequestId::from(-1), n("-1")),
        _ => {
            let i = text(2, "i");
            (RequestId::from(st(&i)), J::Str(i))
        }
    };
    let r = Response::err(id, c, st(&t));
    if let Some(e) = &r.error {
        check(e.code == c && same(e.message.as_bytes(), &t) && e.data.is_none(), "an error response holds its code and message");
    } else {
        check(false, "an error response has an error");
    }
    check(r.result.is_none(), "an error response has no result");
    let o = crate::c_frame::emit(STDIO, vec![r.into()]);
    let f = rpc(&o, "any");
    let w = obj(vec![("id", idj), ("error", obj(vec![("code", n(code)), ("message", J::Str(t))]))]);
    check(f.len() == 1 && f[0].same(&w), "an error response is written with its id, code and message and no result");
    reach("c07_any");
}
/// Responses in a row keep apart.
#[no_mangle]
pub extern "C" fn h_c07_pair() {
    quiet();
    let mk = |k: u32, nm: &str| {
        let id = if k & 1 == 0 { n("1") } else { J::Str(text(1, nm)) };
        match k >> 1 {
            0 => obj(vec![("jsonrpc", s("2.0")), ("id", id), ("result", J::Str(text(1, nm)))]),
            1 => obj(vec![("jsonrpc", s("2.0")), ("id", id), ("error", obj(vec![("code", n("-7")), ("message", J::Str(text(1, nm)))]))]),
            2 => obj(vec![("jsonrpc", s("2.0")), ("id", id), ("error", obj(vec![("code", n("8")), ("message", s("m")), ("data", obj(vec![("d", J::Str(text(1, nm)))]))]))]),
            _ => obj(vec![("jsonrpc", s("2.0")), ("id", id), ("result", obj(vec![]))]),
        }
    };
    let mut st = vec![];
    let a = mk(pick(8, "a"), "ta");
    let b = mk(pick(8, "b"), "tb");
    for j in [&a, &b, &a] {
        st.extend_from_slice(&frame(&j.text()));
    }
    let e = judge(STDIO, &st);
    check(e == End::Clean, "harness: well-formed");
    reach("c07_pair");
}
/// Decoded responses written back, whatever the members and their order.
#[no_mangle]
pub extern "C" fn h_c07_echo() {
    quiet();
    let id = match pick(3, "id") {
        0 => n("-9"),
        1 => J::Str(text(2, "i")),
        _ => s(""),
    };
    let t = text(3, "t");
    let mut v = match pick(4, "kind") {
        0 => vec![("id", id), ("result", J::Str(t))],
        1 => vec![("id", id), ("error", obj(vec![("message", J::Str(t)), ("code", n("3"))]))],
        2 => vec![("id", id), ("error", obj(vec![("data", J::Str(t)), ("code", n("3")), ("message", s(""))]))],
        _ => vec![("id", id), ("result", obj(vec![("code", n("1")), ("message", J::Str(t))]))],
    };
    if pick(2, "reverse") == 1 {
        v.reverse();
    }
    resp_echo(&obj(v));
    reach("c07_echo");
}

/// Long error messages, data and results, whatever they end in.
#[no_mangle]
pub extern "C" fn h_c07_long() {
    quiet();
    let mut v = b"aBc 0.\"\\The quick brown fox jumps over the lazy dog\n".repeat([1, 18][pick(2, "reps") as usize]);
    v.extend_from_slice(&uchar(pick(2, "class"), "c"));
    v.extend_from_slice(&text(1, "t"));
    let t = J::Str(v);
    let m = match pick(4, "kind") {
        0 => vec![("id", n("1")), ("result", t)],
        1 => vec![("id", n("-9")), ("error", obj(vec![("code", n("1")), ("message", t)]))],
        2 => vec![("id", n("7")), ("error", obj(vec![("code", n("-32001")), ("message", s("m")), ("data", t)]))],
        _ => vec![("id", t.clone()), ("error", obj(vec![("code", n("0")), ("message", s("")), ("data", J::Arr(vec![t]))]))],
    };
    resp_echo(&obj(m));
    reach("c07_long");
}

// ------------------------------------------------------------------ C08
/// A message with this text as its id, through both directions.
fn id_kept(k: u32, t: &[u8]) {
    let idj = J::Str(t.to_vec());
    let m: Result<Message, _> = serde_json::from_str(&st(&id_body(k, &idj.text())));
    let want = RequestId::from(st(t));
    let id = match &m {
        Ok(Message::Request(r)) => r.id(),
        Ok(Message::Response(r)) => &r.id,
        _ => {
            check(false, "string ids are accepted");
            return;
        }
    };
    check(*id == want, "a string id is kept");
    let o = serde_json::to_vec(m.as_ref().unwrap()).unwrap();
    check(parse(&o).and_then(|j| j.get("id").map(|i| i.same(&idj))) == Some(true), "a string id is written back");
    let d = serde_json::to_vec(&want).unwrap();
    check(parse(&d).map_or(false, |j| j.same(&idj)), "a string id is written as a string");
}
/// Longer texts that look like numbers, dates, or keys of some sort.
#[no_mangle]
pub extern "C" fn h_c08_digits() {
    quiet();
    const HEAD: [&str; 16] = [
        "12345", "123456", "1234567", "12345678", "214748364", "-21474836", "-214748364", "+1", "00000000", "-0000", "42949672", "922337203685477",
        "1844674407370955161", "1e", "0x0000", "1.0",
    ];
    let mut t = HEAD[pick(16, "head") as usize].as_bytes().to_vec();
    t.extend_from_slice(&text(pick(4, "free") as usize, "t"));
    id_kept(pick(4, "kind"), &t);
    reach("c08_digits");
}
/// Texts of any length.
#[no_mangle]
pub extern "C" fn h_c08_long() {
    quiet();
    const LEN: [usize; 20] = [7, 8, 12, 15, 16, 20, 22, 23, 24, 31, 32, 36, 63, 64, 100, 127, 255, 256, 1000, 5000];
    let mut t = match pick(3, "what") {
        0 => b"9".repeat(LEN[pick(20, "len") as usize]),
        1 => b"6ba7b810-9dad-11d1-80b4-00c04fd430c8".iter().cycle().take(LEN[pick(20, "len") as usize]).copied().collect(),
        _ => {
            let mut w = wide(LEN[pick(20, "len") as usize]);
            w.insert(0, b'x');
            w
        }
    };
    let f = text(1, "t");
    if pick(2, "front") == 1 {
        t.insert(0, f[0]);
    } else {
        t.push(f[0]);
    }
    id_kept(pick(4, "kind"), &t);
    reach("c08_long");
}
fn id_body(kind: u32, id: &[u8]) -> Vec<u8> {
    let mut b = b"{\"jsonrpc\":\"2.0\",\"id\":".to_vec();
    b.extend_from_slice(id);
    b.extend_from_slice(match kind {
        0 => &b",\"method\":\"m\"}"[..],
        1 => b",\"result\":1}",
        2 => b",\"error\":{\"code\":1,\"message\":\"e\"}}",
        _ => b",\"method\":\"build/shutdown\",\"params\":null}",
    });
    b
}
/// Integer ids of every size (free digits) denote themselves.
#[no_mangle]
pub extern "C" fn h_c08_ints() {
    quiet();
    let neg = pick(2, "negative") == 1;
    let l = 1 + pick(6, "digits") as usize;
    let d = bytes(l, "d");
    let mut v = 0u64;
    for (i, b) in d.iter().enumerate() {
        assume((*b >= b'0') & (*b <= b'9'));
        if i == 0 && (l > 1 || neg) {
            assume(*b != b'0');
        }
        let x = b.wrapping_sub(b'0') as u64;
        v = if i == 0 { x } else { v * 10 + x };
    }
    let mut t = if neg { b"-".to_vec() } else { vec![] };
    t.extend_from_slice(&d);
    let m: Result<Message, _> = serde_json::from_str(&st(&id_body(pick(4, "kind"), &t)));
    let want = RequestId::from(if neg { (v as i64).wrapping_neg() as i32 } else { v as i32 });
    match m {
        Ok(Message::Request(r)) => check(*r.id() == want, "an integer id is kept"),
        Ok(Message::Response(r)) => check(r.id == want, "an integer id is kept"),
        _ => check(false, "integer ids are accepted"),
    }
    reach("c08_ints");
}
/// String ids of any text are kept and written back.
#[no_mangle]
pub extern "C" fn h_c08_text() {
    id_text(2);
}
#[no_mangle]
pub extern "C" fn h_c08_longtext() {
    id_text(4);
}
fn id_text(max: u32) {
    quiet();
    let k = pick(4, "kind");
    let len = pick(max, "len");
    let cl = pick(4, "class");
    let mut t = text(len as usize, "t");
    t.extend_from_slice(&uchar(cl, "c"));
    let idj = J::Str(t.clone());
    let b = id_body(k, &idj.text());
    feed(frame(&b));
    let (c, th) = open(STDIO);
    let ms = collect(&c);
    check(ms.len() == 1, "string ids are accepted");
    for m in ms {
        let want = RequestId::from(st(&t));
        match &m {
            Message::Request(r) => check(*r.id() == want, "a string id is kept"),
            Message::Response(r) => check(r.id == want, "a string id is kept"),
            _ => check(false, "a message with an id is no notification"),
        }
        check(c.send(m).is_ok(), "a live connection accepts messages");
    }
    drop(c);
    check(join(th).is_ok(), "a clean stream ends without an error");
    let f = rpc(&out(), "id");
    check(f.len() == 1 && f[0].get("id").map_or(false, |i| i.same(&idj)), "a string id is written back");
    reach("c08_text");
}
/// Texts that look like numbers stay texts.
#[no_mangle]
pub extern "C" fn h_c08_like() {
    quiet();
    let l = 1 + pick(3, "digits") as usize;
    let d = bytes(l, "d");
    for b in &d {
        assume((*b >= b'0') & (*b <= b'9') | (*b == b'-') | (*b == b'.') | (*b == b' '));
    }
    let k = pick(4, "kind");
    let idj = J::Str(d.clone());
    let m: Result<Message, _> = serde_json::from_str(&st(&id_body(k, &idj.text())));
    let id = match &m {
        Ok(Message::Request(r)) => r.id(),
        Ok(Message::Response(r)) => &r.id,
        _ => {
            check(false, "string ids are accepted");
            return;
        }
    };
    check(*id == RequestId::from(st(&d)), "a string id is kept");
    check(*id != RequestId::from(7) && *id != RequestId::from(0), "a string id never equals an integer one");
    let o = serde_json::to_vec(id).unwrap();
    check(parse(&o).map_or(false, |j| j.same(&idj)), "a string id is written as a string");
    reach("c08_like");
}
/// Around the ends of the 32-bit range.
#[no_mangle]
pub extern "C" fn h_c08_bound() {
    quiet();
    const B: [&str; 14] = [
        "2147483647", "2147483646", "-2147483648", "-2147483647", "2147483648", "-2147483649", "4294967295", "4294967296", "4294967297",
        "-4294967295", "9223372036854775807", "9223372036854775808", "18446744073709551615", "-9223372036854775808",
    ];
    let i = pick(14, "value") as usize;
    let k = pick(4, "kind");
    let mut t = B[i].as_bytes().to_vec();
    // a free last digit
    let b = bytes(1, "last");
    assume((b[0] >= b'0') & (b[0] <= b'9'));
    if pick(2, "free") == 1 {
        let e = t.len() - 1;
        t[e] = b[0];
    }
    let body = id_body(k, &t);
    let fs = frame(b"{\"jsonrpc\":\"2.0\",\"method\":\"first\"}");
    let mut st = fs.clone();
    st.extend_from_slice(&frame(&body));
    let (want, end) = reference(&st);
    judge_as(&st, &want, end, if end == End::Clean { "id in range" } else { "id exceeds 32 bits" });
    reach("c08_bound");
}
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        self.0.len() as u64
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
}
fn hashed(i: &RequestId) -> Vec<u8> {
    let mut r = Rec(vec![]);
    i.hash(&mut r);
    r.0
}
fn laws(a: &RequestId, b: &RequestId, c: &RequestId, same_ab: bool) {
    use std::cmp::Ordering::*;
    check((a == b) == same_ab, "ids are equal exactly when they denote the same value");
    check((a == b) == (b == a), "equality is symmetric");
    check(*a == a.clone(), "a clone equals its original");
    check((a.cmp(b) == Equal) == same_ab, "the order is consistent with equality");
    check(a.cmp(b) == b.cmp(a).reverse(), "the order is antisymmetric");
    check(a.partial_cmp(b) == Some(a.cmp(b)), "the partial order is the order");
    if a.cmp(b) == Less && b.cmp(c) == Less {
        check(a.cmp(c) == Less, "the order is transitive");
    }
    if same_ab {
        check(same(&hashed(a), &hashed(b)), "equal ids hash alike");
    }
    check(same(&hashed(a), &hashed(&a.clone())), "a clone hashes like its original");
}
/// Equality, order and hash of integer ids, and across the two kinds.
#[no_mangle]
pub extern "C" fn h_c08_laws() {
    quiet();
    let (x, y, z) = (u32s("x") as i32, u32s("y") as i32, u32s("z") as i32);
    let ids = [RequestId::from(x), RequestId::from(y), RequestId::from(z)];
    match pick(3, "mix") {
        0 => laws(&ids[0], &ids[1], &ids[2], x == y),
        1 => {
            let t = RequestId::from(st(&text(2, "t")));
            laws(&ids[0], &t, &ids[1], false);
            laws(&t, &ids[0], &ids[1], false);
        }
        _ => {
            let u = x.to_string_short();
            laws(&ids[0], &RequestId::from(u), &ids[1], false);
        }
    }
    reach("c08_laws");
}
trait Short {
    fn to_string_short(&self) -> String;
}
impl Short for i32 {
    /// the decimal text of some small values
    fn to_string_short(&self) -> String {
        let v = conc((*self & 3) as u64);
        assume(*self == v as i32);
        st(&dec(v as usize))
    }
}
/// Equality, order and hash of three short texts.
#[no_mangle]
pub extern "C" fn h_c08_strlaws() {
    quiet();
    let a = text(pick(3, "la") as usize, "a");
    let b = text(pick(3, "lb") as usize, "b");
    let c = text(pick(3, "lc") as usize, "c");
    let eq = a.len() == b.len() && a == b;
    laws(&RequestId::from(st(&a)), &RequestId::from(st(&b)), &RequestId::from(st(&c)), eq);
    reach("c08_strlaws");
}
/// Integer ids are written as the number they are.
#[no_mangle]
pub extern "C" fn h_c08_emit() {
    quiet();
    const BASE: [i32; 10] = [0, 90, 990, 9990, 99_990, 65_530, 2_147_483_632, -2_147_483_648, -110, -8];
    let b = BASE[pick(10, "base") as usize];
    let lo = choice(16, "low") as i32;
    let v = b.wrapping_add(lo);
    let o = serde_json::to_vec(&Message::from(Request::Shutdown(RequestId::from(v)))).unwrap();
    let j = parse(&o);
    let ok = match j.as_ref().and_then(|j| j.get("id")) {
        Some(J::Num(t)) => int(t) == Some(v as i128),
        _ => false,
    };
    check(ok, "an integer id is written as that number");
    let d = format!("{}", RequestId::from(v));
    check(int(d.as_bytes()) == Some(v as i128), "an integer id is displayed as that number");
    reach("c08_emit");
}

/// Ids built from any text up to 6 free characters, taken as they are.
#[no_mangle]
pub extern "C" fn h_c08_from() {
    quiet();
    let l = pick(7, "len") as usize;
    let t = text(l, "t");
    let id = RequestId::from(st(&t));
    let idj = J::Str(t.clone());
    let o = serde_json::to_vec(&id).unwrap();
    check(parse(&o).map_or(false, |j| j.same(&idj)), "a string id is written as a string");
    let back: Result<RequestId, _> = serde_json::from_slice(&o);
    check(back.map_or(false, |b| b == id), "a string id is kept");
    let m = match pick(2, "kind") {
        0 => Message::from(Request::Shutdown(id.clone())),
        _ => Message::from(Response::ok(id.clone(), 1)),
    };
    let o = serde_json::to_vec(&m).unwrap();
    check(parse(&o).and_then(|j| j.get("id").map(|i| i.same(&idj))) == Some(true), "a string id is written back");
    check(id != RequestId::from(0), "a string id never equals an integer one");
    reach("c08_from");
}
/// Ids of free texts up to 5 characters on the wire.
#[no_mangle]
pub extern "C" fn h_c08_free() {
    quiet();
    let t = text(pick(6, "len") as usize, "t");
    let idj = J::Str(t.clone());
    let m: Result<Message, _> = serde_json::from_str(&st(&id_body(pick(4, "kind"), &idj.text())));
    let want = RequestId::from(st(&t));
    let id = match &m {
        Ok(Message::Request(r)) => r.id(),
        Ok(Message::Response(r)) => &r.id,
        _ => {
            check(false, "string ids are accepted");
            return;
        }
    };
    check(*id == want, "a string id is kept");
    let o = serde_json::to_vec(m.as_ref().unwrap()).unwrap();
    check(parse(&o).and_then(|j| j.get("id").map(|i| i.same(&idj))) == Some(true), "a string id is written back");
    reach("c08_free");
}
/// Ids of several messages on one connection keep apart.
#[no_mangle]
pub extern "C" fn h_c08_stream() {
    quiet();
    let id = |k: u32, nm: &str| match k {
        0 => n("7"),
        1 => s("7"),
        2 => n("-7"),
        _ => J::Str(text(1 + k as usize - 3, nm)),
    };
    let a = id(pick(5, "a"), "ta");
    let b = id(pick(5, "b"), "tb");
    let mut st = vec![];
    st.extend_from_slice(&frame(&id_body(0, &a.text())));
    st.extend_from_slice(&frame(&id_body(pick(4, "kind"), &b.text())));
    st.extend_from_slice(&frame(&id_body(1, &a.text())));
    st.extend_from_slice(&frame(&id_body(0, &b.text())));
    let e = judge(STDIO, &st);
    check(e == End::Clean, "harness: well-formed");
    reach("c08_stream");
}

// ------------------------------------------------------------------ C16
/// (how many members, how to decode one from its text)
const ENUMS: u32 = 6;
fn enum_max(k: u32) -> u32 {
    [4, 4, 3, 3, 2, 4][k as usize]
}
fn enum_de(k: u32, t: &str) -> Option<u64> {
    let js = |a: &str, b: &str| -> String { [a, t, b].concat() };
    match k {
        0 | 1 => {
            let m: Result<Notification, _> = serde_json::from_str(&js(
                if k == 0 { "{\"method\":\"build/showMessage\",\"params\":{\"message\":\"m\",\"type\":" } else { "{\"method\":\"build/logMessage\",\"params\":{\"message\":\"m\",\"type\":" },
                "}}",
            ));
            match m {
                Ok(Notification::ShowMessage(p)) => Some(crate::c_payload::mtype(&p.typ)),
                Ok(Notification::LogMessage(p)) => Some(crate::c_payload::mtype(&p.typ)),
                _ => None,
            }
        }
        2 => match serde_json::from_str(&js("{\"method\":\"build/taskFinish\",\"params\":{\"taskId\":{\"id\":\"1\"},\"status\":", "}}")) {
            Ok(Notification::TaskFinish(p)) => {
                let v = match p.status {
                    TaskStatus::Ok => 1,
                    TaskStatus::Error => 2,
                    TaskStatus::Cancelled => 3,
                };
                check(p.status.is_ok() == (v == 1), "the status predicates agree with the status");
                check(p.status.is_error() == (v == 2), "the status predicates agree with the status");
                check(p.status.is_cancelled() == (v == 3), "the status predicates agree with the status");
                Some(v)
            }
            _ => None,
        },
        3 => match serde_json::from_str(&js("{\"method\":\"buildTarget/didChange\",\"params\":{\"changes\":[{\"target\":{\"uri\":\"a:b\"},\"kind\":", "}]}}")) {
            Ok(Notification::BuildTargetDidChange(p)) => p.changes[0].kind.as_ref().map(|k| match k {
                BuildTargetEventKind::Created => 1,
                BuildTargetEventKind::Changed => 2,
                BuildTargetEventKind::Deleted => 3,
            }),
            _ => None,
        },
        4 => match serde_json::from_str::<BuildTargetSourcesResult>(&js("{\"items\":[{\"target\":{\"uri\":\"a:b\"},\"sources\":[{\"uri\":\"a:b\",\"generated\":true,\"kind\":", "}]}]}")) {
            Ok(r) => Some(match r.items()[0].sources()[0].kind() {
                SourceKind::File => 1,
                SourceKind::Directory => 2,
            }),
            _ => None,
        },
        _ => match serde_json::from_str::<Notification>(&js(
            "{\"method\":\"build/publishDiagnostics\",\"params\":{\"textDocument\":{\"uri\":\"a:b\"},\"buildTarget\":{\"uri\":\"a:b\"},\"originId\":null,\"reset\":true,\"diagnostics\":[{\"range\":{\"start\":{\"line\":0,\"character\":0},\"end\":{\"line\":0,\"character\":1}},\"message\":\"m\",\"severity\":",
            "}]}}",
        )) {
            Ok(n) => {
                let v = serde_json::to_value(&n).unwrap();
                v["params"]["diagnostics"][0]["severity"].as_u64()
            }
            _ => None,
        },
    }
}
/// Exactly the assigned numbers are accepted, each as its own member.
#[no_mangle]
pub extern "C" fn h_c16_decode() {
    quiet();
    let k = pick(ENUMS, "enum");
    let l = 1 + pick(6, "digits") as usize;
    let neg = pick(2, "negative") == 1;
    let d = bytes(l, "d");
    let mut v = 0u64;
    for (i, b) in d.iter().enumerate() {
        assume((*b >= b'0') & (*b <= b'9'));
        if i == 0 && (l > 1 || neg) {
            assume(*b != b'0');
        }
        // more than one digit is more than any assigned number
        v = if l == 1 { b.wrapping_sub(b'0') as u64 } else { 99 };
    }
    let mut t = if neg { b"-".to_vec() } else { vec![] };
    t.extend_from_slice(&d);
    let got = enum_de(k, &st(&t));
    // severities are lsp-types' own and open-ended
    let open = k == 5;
    if !neg && (v >= 1) & (v <= enum_max(k) as u64) {
        check(got == Some(v), "every assigned number is accepted as its member");
    } else if !open {
        check(got.is_none(), "unassigned numbers are refused");
    }
    reach("c16_decode");
}
/// Numbers that would be assigned if they were cut to 8, 16 or 32 bits, and
/// other types.
#[no_mangle]
pub extern "C" fn h_c16_wrap() {
    quiet();
    let k = pick(ENUMS - 1, "enum");
    let low = 1 + pick(4, "low") as u64;
    let t = match pick(14, "how") {
        10 => format!("{}.0", low),
        11 => format!("{}e0", low),
        12 => format!("{{\"{}\":{}}}", low, low),
        13 => (18446744073709551616u128 - 256 + low as u128).to_string(),
        0 => (256 + low).to_string(),
        1 => (65536 + low).to_string(),
        2 => (4294967296 + low).to_string(),
        3 => format!("-{}", 256 - low),
        4 => format!("-{}", 65536 - low),
        5 => format!("\"{}\"", low),
        6 => format!("{}.5", low),
        7 => "null".to_string(),
        8 => "true".to_string(),
        _ => format!("[{}]", low),
    };
    let got = enum_de(k, &t);
    check(got.is_none(), "values that are no assigned number are refused");
    reach("c16_wrap");
}
/// Every member is written as its number.
#[no_mangle]
pub extern "C" fn h_c16_encode() {
    quiet();
    let k = pick(7, "enum");
    let i = pick(4, "member") as usize;
    let v = |x: Value| x.as_u64();
    let (got, want) = match k {
        0 => (
            v(serde_json::to_value([MessageType::Error, MessageType::Warning, MessageType::Info, MessageType::Log][i].clone()).unwrap()),
            i + 1,
        ),
        1 if i < 3 => (v(serde_json::to_value([TaskStatus::Ok, TaskStatus::Error, TaskStatus::Cancelled][i].clone()).unwrap()), i + 1),
        2 if i < 3 => (
            v(serde_json::to_value([BuildTargetEventKind::Created, BuildTargetEventKind::Changed, BuildTargetEventKind::Deleted][i].clone()).unwrap()),
            i + 1,
        ),
        3 if i < 2 => (v(serde_json::to_value(if i == 0 { SourceKind::File } else { SourceKind::Directory }).unwrap()), i + 1),
        4 => (v(serde_json::to_value(MessageType::default()).unwrap()), 4),
        5 => (v(serde_json::to_value(TaskStatus::default()).unwrap()), 1),
        6 => {
            check(v(serde_json::to_value(BuildTargetEventKind::default()).unwrap()) == Some(1), "defaults are the documented members");
            (v(serde_json::to_value(SourceKind::default()).unwrap()), 1)
        }
        _ => return,
    };
    check(got == Some(want as u64), "every member is written as its number");
    reach("c16_encode");
}
/// Texts that agree for a while.
#[no_mangle]
pub extern "C" fn h_c08_longlaws() {
    quiet();
    let p = b"req-0001".iter().cycle().take([3, 7, 8, 15, 16, 31, 32, 64, 255][pick(9, "prefix") as usize]).copied().collect::<Vec<u8>>();
    let front = pick(2, "front") == 1;
    let f = text(3, "f");
    let more = pick(3, "more") as usize;
    let mk = |i: usize, n: usize| {
        let mut v = p.clone();
        if front {
            v.insert(0, f[i]);
        } else {
            v.push(f[i]);
        }
        v.extend_from_slice(&b"-x"[..n]);
        v
    };
    let (a, b, c) = (mk(0, more), mk(1, 1), mk(2, 1));
    let eq = (more == 1) & (f[0] == f[1]);
    let eq = conc(eq as u64) == 1;
    laws(&RequestId::from(st(&a)), &RequestId::from(st(&b)), &RequestId::from(st(&c)), eq);
    reach("c08_longlaws");
}

/// Names a method might also go by elsewhere; here each is a method of its own.
fn names(m: &str) -> Vec<u8> {
    let (a, b) = m.split_at(m.find('/').unwrap() + 1);
    let v = match pick(10, "name") {
        0 => ["", "/", "$/", "buildServer/", "client/", "server/", "window/", "textDocument/", "build/", "buildTarget/", "workspace/"]
            [pick(11, "ns") as usize]
            .to_string()
            + b,
        1 => m.trim_end_matches("ing").trim_end_matches('s').trim_end_matches("ed").to_string(),
        2 => m.to_string() + ["s", "ed", "ing", "/", " ", "\0", "2", "Request", "\n", "/start"][pick(10, "end") as usize],
        3 => m.to_ascii_lowercase(),
        4 => m.to_ascii_uppercase(),
        5 => a.to_string() + &b[..1].to_uppercase() + &b[1..],
        6 => a[..1].to_uppercase() + &m[1..],
        7 => m.replace('/', ["\\", ".", "", "//", ":", "_", "\u{2215}"][pick(7, "sep") as usize]),
        8 => b.to_string() + "/" + &a[..a.len() - 1],
        _ => {
            let mut o = String::new();
            for c in m.chars() {
                if c.is_uppercase() {
                    o.push(['_', '-'][pick(2, "snake") as usize]);
                }
                o.extend(c.to_lowercase());
            }
            o
        }
    };
    v.into_bytes()
}
#[no_mangle]
pub extern "C" fn h_c05_names() {
    quiet();
    let k = pick((REQS.len() + BARE.len()) as u32, "kind") as usize;
    let mut v = vec![("jsonrpc", s("2.0")), ("id", n("2"))];
    if k < REQS.len() {
        v.push(("method", J::Str(names(REQS[k].0))));
        v.push(("params", Gen::fixed(pick(2, "mode")).object(REQS[k].1).0));
    } else {
        v.push(("method", J::Str(names(BARE[k - REQS.len()]))));
    }
    single(STDIO, &obj_of(v));
    reach("c05_names");
}
#[no_mangle]
pub extern "C" fn h_c06_names() {
    quiet();
    let k = pick((NOTIFS.len() + BARE_NOTIF.len()) as u32, "kind") as usize;
    let mut v = vec![("jsonrpc", s("2.0"))];
    if k < NOTIFS.len() {
        v.push(("method", J::Str(names(NOTIFS[k].0))));
        v.push(("params", Gen::fixed(pick(2, "mode")).object(NOTIFS[k].1).0));
    } else {
        v.push(("method", J::Str(names(BARE_NOTIF[k - NOTIFS.len()]))));
    }
    single(STDIO, &obj_of(v));
    reach("c06_names");
}
