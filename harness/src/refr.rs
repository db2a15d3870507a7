//! Reference semantics of the incoming stream: what has to be delivered, what
//! has to be refused, and where the protocol leaves a choice.
#![allow(dead_code)]
use crate::drv::*;
use crate::json::*;
use crate::rt::*;
use bsp_server::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum End {
    Clean,
    /// the reader has to stop with an error (why)
    Fail(&'static str),
    /// nothing is required from here on but staying alive
    Any,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Class {
    Req,
    Notif,
    Resp,
    Bad(&'static str),
    Any,
}
fn dup(v: &[(Vec<u8>, J)]) -> bool {
    for i in 0..v.len() {
        for j in 0..i {
            if v[i].0 == v[j].0 {
                return true;
            }
        }
    }
    false
}
/// Values for which implementations may differ without being wrong.
pub fn odd(j: &J) -> bool {
    match j {
        J::Num(t) => match int(t) {
            Some(i) => t.len() > 18 || (i == 0 && t[0] == b'-'),
            None => true,
        },
        J::Arr(v) => v.iter().any(odd),
        J::Obj(v) => dup(v) || v.iter().any(|(_, j)| odd(j)),
        _ => false,
    }
}
pub fn id_ok(j: &J) -> Option<bool> {
    match j {
        J::Str(_) => Some(true),
        J::Num(t) => match int(t) {
            Some(i) if i == 0 && t[0] == b'-' => None,
            Some(i) => Some(i >= i32::MIN as i128 && i <= i32::MAX as i128),
            None => Some(false),
        },
        _ => Some(false),
    }
}
pub const BARE_NOTIF: [&str; 2] = ["build/exit", "build/initialized"];
pub fn is_bare(m: &[u8]) -> bool {
    crate::pay::BARE.iter().any(|b| b.as_bytes() == m)
}
pub fn is_bare_notif(m: &[u8]) -> bool {
    BARE_NOTIF.iter().any(|b| b.as_bytes() == m)
}
pub fn typed_req(m: &[u8]) -> bool {
    crate::pay::REQS.iter().any(|(b, _)| b.as_bytes() == m)
}
pub fn typed_notif(m: &[u8]) -> bool {
    crate::pay::NOTIFS.iter().any(|(b, _)| b.as_bytes() == m)
}
/// What kind of message a JSON text is.  Payloads of typed methods are judged
/// elsewhere (`Any` here).
pub fn classify(j: &J) -> Class {
    let v = match j {
        J::Obj(v) => v,
        _ => return Class::Bad("not an object"),
    };
    let keys = ["id", "method", "params", "result", "error"];
    for k in keys {
        if v.iter().filter(|(n, _)| n == k.as_bytes()).count() > 1 {
            return Class::Bad("repeated member");
        }
    }
    if odd(&j.clone().without("id")) {
        return Class::Any;
    }
    match j.get("jsonrpc") {
        Some(J::Str(t)) if t == b"2.0" => {}
        _ => return Class::Any,
    }
    let id = match j.get("id") {
        None => None,
        Some(i) => match id_ok(i) {
            None => return Class::Any,
            Some(ok) => Some(ok),
        },
    };
    let why = match j.get("id") {
        Some(J::Null) => "id is null",
        Some(J::Bool(_)) => "id is a boolean",
        Some(J::Arr(_)) | Some(J::Obj(_)) => "id is a composite",
        Some(J::Num(t)) if int(t).is_some() => "id exceeds 32 bits",
        _ => "id is a fraction",
    };
    match j.get("method") {
        Some(J::Str(m)) => match id {
            Some(false) => Class::Bad(why),
            Some(true) => {
                if typed_req(m) {
                    Class::Any
                } else {
                    Class::Req
                }
            }
            None => {
                if typed_notif(m) {
                    Class::Any
                } else {
                    Class::Notif
                }
            }
        },
        // (with a result or an error it might still pass for a response)
        Some(_) if j.get("result").is_some() || j.get("error").is_some() => Class::Any,
        Some(_) => Class::Bad("method is no string"),
        None => match id {
            None => Class::Bad("neither id nor method"),
            Some(false) => Class::Bad("response without a usable id"),
            Some(true) => match (j.get("result"), j.get("error")) {
                (Some(_), None) => Class::Resp,
                (None, Some(e)) => match e {
                    J::Obj(_) => {
                        let code = match e.get("code") {
                            Some(J::Num(t)) => match int(t) {
                                Some(i) => i >= i32::MIN as i128 && i <= i32::MAX as i128,
                                None => false,
                            },
                            _ => false,
                        };
                        let msg = matches!(e.get("message"), Some(J::Str(_)));
                        if code && msg {
                            Class::Resp
                        } else {
                            Class::Bad("malformed error object")
                        }
                    }
                    J::Null | J::Arr(_) => Class::Any,
                    _ => Class::Bad("malformed error object"),
                },
                _ => Class::Any,
            },
        },
    }
}
/// The message carries what the (classified) text says.
pub fn fits(m: &Message, j: &J, c: Class) -> bool {
    let p = j.get("params").cloned().unwrap_or(J::Null);
    match (c, m) {
        (Class::Req, Message::Request(r)) => {
            let (id, me) = (j.get("id").unwrap(), j.get("method").unwrap().bytes());
            if is_bare(me) {
                bare_req(r, me) && *r.id() == rid(id)
            } else {
                is_req(m, id, me, &p)
            }
        }
        (Class::Notif, Message::Notification(r)) => {
            let me = j.get("method").unwrap().bytes();
            if is_bare_notif(me) {
                bare_notif(r, me)
            } else {
                is_notif(m, me, &p)
            }
        }
        (Class::Resp, Message::Response(_)) => {
            let id = j.get("id").unwrap();
            match (j.get("result"), j.get("error")) {
                (Some(r), _) => is_ok(m, id, r),
                (_, Some(e)) => {
                    let code = int(e.get("code").unwrap().bytes()).unwrap() as i32;
                    is_err(m, id, code, e.get("message").unwrap().bytes(), e.get("data"))
                }
                _ => false,
            }
        }
        _ => false,
    }
}
pub fn bare_req(r: &Request, me: &[u8]) -> bool {
    match r {
        Request::Shutdown(_) => me == b"build/shutdown",
        Request::WorkspaceBuildTargets(_) => me == b"workspace/buildTargets",
        Request::WorkspaceReload(_) => me == b"workspace/reload",
        _ => false,
    }
}
pub fn bare_notif(r: &Notification, me: &[u8]) -> bool {
    match r {
        Notification::Exit => me == b"build/exit",
        Notification::Initialized => me == b"build/initialized",
        _ => false,
    }
}
/// Is the text UTF-8?  (RFC 3629)
pub fn is_utf8(t: &[u8]) -> bool {
    let mut i = 0;
    let cont = |k: usize, lo: u8, hi: u8| -> bool {
        match t.get(k) {
            Some(b) => (*b >= lo) & (*b <= hi),
            None => false,
        }
    };
    while i < t.len() {
        let b = t[i];
        if b < 0x80 {
            i += 1;
        } else if b < 0xc2 {
            return false;
        } else if b < 0xe0 {
            if !cont(i + 1, 0x80, 0xbf) {
                return false;
            }
            i += 2;
        } else if b < 0xf0 {
            let lo = if b == 0xe0 { 0xa0 } else { 0x80 };
            let hi = if b == 0xed { 0x9f } else { 0xbf };
            if !cont(i + 1, lo, hi) || !cont(i + 2, 0x80, 0xbf) {
                return false;
            }
            i += 3;
        } else if b < 0xf5 {
            let lo = if b == 0xf0 { 0x90 } else { 0x80 };
            let hi = if b == 0xf4 { 0x8f } else { 0xbf };
            if !cont(i + 1, lo, hi) || !cont(i + 2, 0x80, 0xbf) || !cont(i + 3, 0x80, 0xbf) {
                return false;
            }
            i += 4;
        } else {
            return false;
        }
    }
    true
}
enum Hd {
    Size(u128),
    Skip,
    Bad(&'static str),
    Any,
}
fn header(l: &[u8]) -> Hd {
    for b in l {
        if *b >= 0x7f || *b < 0x20 {
            return Hd::Any;
        }
    }
    let c = match l.iter().position(|b| *b == b':') {
        Some(c) => c,
        None => return Hd::Bad("header line without a colon"),
    };
    if l.get(c + 1) != Some(&b' ') {
        return Hd::Any;
    }
    let (name, val) = (&l[..c], &l[c + 2..]);
    if name.is_empty() || name.iter().any(|b| *b == b' ') {
        return Hd::Any;
    }
    if name.len() != 14 {
        return Hd::Skip;
    }
    if name != b"Content-Length" {
        return if name.eq_ignore_ascii_case(b"Content-Length") { Hd::Any } else { Hd::Skip };
    }
    let mut v: u128 = 0;
    let mut short: u64 = 0;
    let mut digits = !val.is_empty();
    for b in val {
        let d = b.wrapping_sub(b'0');
        if d > 9 {
            digits = false;
            break;
        }
        if val.len() < 16 {
            short = short * 10 + d as u64;
        } else if v < 1 << 100 {
            v = v * 10 + d as u128;
        }
    }
    if digits {
        if val[0] == b'0' && val.len() > 1 {
            return Hd::Any;
        }
        return Hd::Size(if val.len() < 16 { short as u128 } else { v });
    }
    match val.first() {
        Some(b'+') | Some(b' ') => Hd::Any,
        _ => match val.last() {
            Some(b' ') => Hd::Any,
            _ => Hd::Bad("length is no number"),
        },
    }
}
/// One frame's text, or how the stream ends here.
fn frame_ref(t: &[u8]) -> Result<(&[u8], &[u8]), End> {
    let mut i = 0;
    let mut size: Option<u128> = None;
    loop {
        if i == t.len() {
            return Err(if i == 0 { End::Clean } else { End::Fail("stream ends inside a header") });
        }
        let st = i;
        let nl = match t[st..].iter().position(|b| *b == b'\n') {
            Some(p) => st + p,
            None => return Err(End::Fail("stream ends inside a header line")),
        };
        i = nl + 1;
        if nl == st || t[nl - 1] != b'\r' {
            // (a lone LF ends a line the protocol does not allow)
            for b in &t[st..nl] {
                if *b >= 0x80 {
                    return Err(End::Any);
                }
            }
            return Err(End::Fail("header line does not end in CRLF"));
        }
        let l = &t[st..nl - 1];
        if l.is_empty() {
            break;
        }
        match header(l) {
            Hd::Size(v) => {
                if size.is_some() {
                    return Err(End::Any);
                }
                size = Some(v);
            }
            Hd::Skip => {}
            Hd::Bad(w) => return Err(End::Fail(w)),
            Hd::Any => return Err(End::Any),
        }
    }
    let n = match size {
        None => return Err(End::Fail("no Content-Length")),
        Some(n) => n,
    };
    if n > (t.len() - i) as u128 {
        return Err(End::Fail("body shorter than announced"));
    }
    let n = conc(n as u64) as usize;
    Ok((&t[i..i + n], &t[i + n..]))
}
pub fn reference(mut t: &[u8]) -> (Vec<(J, Class)>, End) {
    let mut v = vec![];
    loop {
        let (b, r) = match frame_ref(t) {
            Ok(x) => x,
            Err(e) => return (v, e),
        };
        t = r;
        if !is_utf8(b) {
            return (v, End::Fail("body is not UTF-8"));
        }
        let j = match parse(b) {
            Some(j) => j,
            None => return (v, End::Fail("body is not JSON")),
        };
        match classify(&j) {
            Class::Bad(w) => return (v, End::Fail(w)),
            Class::Any => return (v, End::Any),
            c => {
                let exit = c == Class::Notif && j.get("method").unwrap().bytes() == b"build/exit";
                v.push((j, c));
                if exit {
                    return (v, End::Clean);
                }
            }
        }
    }
}
/// Run a connection over the stream and hold it against the reference.
pub fn judge(tr: u32, stream: &[u8]) -> End {
    let (want, end) = reference(stream);
    feed(stream.to_vec());
    let (c, th) = open(tr);
    let ms = collect(&c);
    drop(c);
    let r = join(th);
    note_case(&ms, want.len(), end);
    verdict(&ms, &r, &want, end);
    end
}
/// How the stream ends and what was made of the first thing past it.
pub fn note_case(ms: &[Message], want: usize, end: End) {
    let mut c = match end {
        End::Clean => "end",
        End::Fail(w) => w,
        End::Any => "unspecified",
    }
    .as_bytes()
    .to_vec();
    if end != End::Any {
        if let Some(m) = ms.get(want) {
            c.extend_from_slice(b" -> ");
            c.extend_from_slice(match m {
                Message::Response(r) if r.result.is_none() && r.error.is_none() => b"empty response",
                _ => kind(m).as_bytes(),
            });
        }
    }
    log("case", &c);
}
pub fn verdict(ms: &[Message], r: &std::io::Result<()>, want: &[(J, Class)], end: End) {
    check(ms.len() >= want.len(), "every well-formed message before the fault is delivered");
    let mut ok = true;
    for (m, (j, c)) in ms.iter().zip(want) {
        ok &= fits(m, j, *c);
    }
    check(ok, "messages are delivered in order and unaltered");
    match end {
        End::Clean => {
            check(ms.len() <= want.len(), "nothing is delivered that was not sent");
            check(r.is_ok(), "a clean stream ends without an error");
        }
        End::Fail(_) => {
            check(ms.len() <= want.len(), "malformed input is not delivered");
            check(r.is_err(), "malformed input is reported as an error");
        }
        End::Any => {}
    }
    log("delivered", &dec(ms.len()));
    log("result", if r.is_ok() { b"ok" } else { b"err" });
}
