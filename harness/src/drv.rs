//! Driving connections over the modelled transports, and the reference view
//! of frames and messages.
#![allow(dead_code)]
use crate::env::*;
use crate::json::*;
use crate::rt::*;
use bsp_server::*;
use serde_json::Value;
use std::net::SocketAddr;
use std::sync::atomic::Ordering;

pub fn quiet() {
    std::panic::set_hook(Box::new(|_| {}));
}
pub const STDIO: u32 = 0;
pub const CONNECT: u32 = 1;
pub const LISTEN: u32 = 2;
pub fn open(t: u32) -> (Connection, IoThreads) {
    ACTIVE.store(true, Ordering::SeqCst);
    env(|e| e.stdio = t == STDIO);
    let a = SocketAddr::from(([127, 0, 0, 1], 9));
    match t {
        STDIO => Connection::stdio(),
        CONNECT => Connection::connect(a).unwrap(),
        _ => Connection::listen(a).unwrap(),
    }
}
pub fn feed(b: Vec<u8>) {
    env(|e| {
        e.avail = b.len();
        e.input = b;
        e.eof = true;
    })
}
pub fn out() -> Vec<u8> {
    env(|e| e.output.clone())
}
pub fn collect(c: &Connection) -> Vec<Message> {
    c.receiver.iter().collect()
}
/// Join the io threads; a panic in either is a failure of its own.
pub fn join(t: IoThreads) -> std::io::Result<()> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.join()));
    match r {
        Ok(r) => r,
        Err(_) => {
            check(false, "an io thread panicked");
            Ok(())
        }
    }
}
pub fn dec(mut n: usize) -> Vec<u8> {
    let mut v = vec![];
    loop {
        v.push(b'0' + (n % 10) as u8);
        n /= 10;
        if n == 0 {
            break;
        }
    }
    v.reverse();
    v
}
pub fn frame(body: &[u8]) -> Vec<u8> {
    let mut f = b"Content-Length: ".to_vec();
    f.extend_from_slice(&dec(body.len()));
    f.extend_from_slice(b"\r\n\r\n");
    f.extend_from_slice(body);
    f
}
/// One frame off the front of what the implementation wrote: (body, rest).
pub fn unframe(o: &[u8]) -> Option<(&[u8], &[u8])> {
    let mut i = 0;
    let mut size: Option<usize> = None;
    loop {
        let st = i;
        while !o[i..].starts_with(b"\r\n") {
            i += 1;
            if i + 2 > o.len() {
                return None;
            }
        }
        let line = &o[st..i];
        i += 2;
        if line.is_empty() {
            break;
        }
        let p = b"Content-Length: ";
        if line.starts_with(p) {
            if size.is_some() {
                return None;
            }
            let d = &line[p.len()..];
            if d.is_empty() || (d.len() > 1 && d[0] == b'0') {
                return None;
            }
            let mut v = 0usize;
            for b in d {
                if b.wrapping_sub(b'0') > 9 {
                    return None;
                }
                v = v * 10 + (b - b'0') as usize;
            }
            size = Some(v);
        } else if !line.starts_with(b"Content-Type: ") {
            return None;
        }
    }
    let n = size?;
    if o.len() - i < n {
        return None;
    }
    Some((&o[i..i + n], &o[i + n..]))
}
/// The whole output as frames holding JSON objects; None if it is anything else.
pub fn frames(mut o: &[u8]) -> Option<Vec<J>> {
    let mut v = vec![];
    while !o.is_empty() {
        let (b, r) = unframe(o)?;
        if std::str::from_utf8(b).is_err() {
            return None;
        }
        v.push(parse(b)?);
        o = r;
    }
    Some(v)
}
/// Frames that all carry jsonrpc 2.0, with that member taken off.
pub fn rpc(o: &[u8], what: &str) -> Vec<J> {
    let f = match frames(o) {
        Some(f) => f,
        None => {
            check(false, "output is a sequence of well-formed frames");
            log("bad-output", o);
            log("what", what.as_bytes());
            return vec![];
        }
    };
    f.into_iter()
        .map(|j| {
            let k = match &j {
                J::Obj(v) => v.iter().filter(|(k, _)| k == b"jsonrpc").count(),
                _ => 0,
            };
            check(k == 1, "every frame has jsonrpc exactly once");
            check(j.get("jsonrpc").map_or(false, |v| v.same(&s("2.0"))), "jsonrpc is 2.0");
            j.without("jsonrpc")
        })
        .collect()
}
pub fn int(t: &[u8]) -> Option<i128> {
    let (neg, d) = if t.first() == Some(&b'-') { (true, &t[1..]) } else { (false, t) };
    if d.is_empty() || d.len() > 30 {
        return None;
    }
    let mut v = 0i128;
    for b in d {
        if b.wrapping_sub(b'0') > 9 {
            return None;
        }
        v = v * 10 + (b - b'0') as i128;
    }
    Some(if neg { -v } else { v })
}
/// sign and magnitude of an integer of at most 18 digits other than -0
fn small(t: &[u8]) -> Option<(bool, u64)> {
    let (neg, d) = if t.first() == Some(&b'-') { (true, &t[1..]) } else { (false, t) };
    if d.is_empty() || d.len() > 18 {
        return None;
    }
    let mut v = 0u64;
    for b in d {
        if b.wrapping_sub(b'0') > 9 {
            return None;
        }
        v = v * 10 + (b - b'0') as u64;
    }
    if neg && v == 0 {
        return None;
    }
    Some((neg, v))
}
pub fn same_val(v: &Value, j: &J) -> bool {
    match (v, j) {
        (Value::Null, J::Null) => true,
        (Value::Bool(a), J::Bool(b)) => a == b,
        (Value::Number(a), J::Num(t)) if t.len() <= 19 && small(t).is_some() => {
            let (neg, v) = small(t).unwrap();
            if neg {
                (a.as_i64() == Some((v as i64).wrapping_neg())) & !a.is_f64()
            } else {
                a.as_u64() == Some(v)
            }
        }
        (Value::Number(a), J::Num(t)) => match int(t) {
            Some(i) if !(i == 0 && t[0] == b'-') && i <= u64::MAX as i128 && i >= i64::MIN as i128 => {
                if i >= 0 {
                    a.as_u64() == Some(i as u64)
                } else {
                    a.as_i64() == Some(i as i64)
                }
            }
            _ => a.as_f64() == std::str::from_utf8(t).unwrap().parse::<f64>().ok(),
        },
        (Value::String(a), J::Str(b)) => a.len() == b.len() && a.as_bytes() == &b[..],
        (Value::Array(a), J::Arr(b)) => {
            let mut ok = a.len() == b.len();
            for (x, y) in a.iter().zip(b) {
                ok &= same_val(x, y);
            }
            ok
        }
        (Value::Object(a), J::Obj(b)) => {
            let mut ok = a.len() == b.len();
            for (k, j) in b {
                match a.get(&st(k)) {
                    Some(v) => ok &= same_val(v, j),
                    None => ok = false,
                }
            }
            ok
        }
        _ => false,
    }
}
pub fn to_val(j: &J) -> Value {
    match j {
        J::Null => Value::Null,
        J::Bool(b) => Value::Bool(*b),
        J::Num(t) => match int(t) {
            Some(i) if i >= 0 => Value::from(i as u64),
            Some(i) => Value::from(i as i64),
            None => Value::from(std::str::from_utf8(t).unwrap().parse::<f64>().unwrap()),
        },
        J::Str(t) => Value::String(st(t)),
        J::Arr(v) => Value::Array(v.iter().map(to_val).collect()),
        J::Obj(v) => Value::Object(v.iter().map(|(k, j)| (st(k), to_val(j))).collect()),
    }
}
/// symbolic bytes known to be UTF-8
pub fn st(b: &[u8]) -> String {
    unsafe { String::from_utf8_unchecked(b.to_vec()) }
}
pub fn leak(b: &[u8]) -> &'static str {
    Box::leak(st(b).into_boxed_str())
}
/// the id the wire value denotes
pub fn rid(j: &J) -> RequestId {
    match j {
        J::Num(t) => RequestId::from(int(t).unwrap() as i32),
        J::Str(t) => RequestId::from(st(t)),
        _ => panic!("not an id"),
    }
}
pub fn is_req(m: &Message, id: &J, method: &[u8], params: &J) -> bool {
    match m {
        Message::Request(Request::Custom(i, me, p)) => *i == rid(id) && same(me.as_bytes(), method) && same_val(p, params),
        _ => false,
    }
}
pub fn is_notif(m: &Message, method: &[u8], params: &J) -> bool {
    match m {
        Message::Notification(Notification::Custom(me, p)) => same(me.as_bytes(), method) && same_val(p, params),
        _ => false,
    }
}
pub fn is_ok(m: &Message, id: &J, result: &J) -> bool {
    match m {
        Message::Response(r) => {
            r.id == rid(id)
                && r.error.is_none()
                && match (&r.result, result) {
                    // null and absent are one on decoding
                    (None, J::Null) => true,
                    (Some(v), j) => same_val(v, j),
                    _ => false,
                }
        }
        _ => false,
    }
}
pub fn is_err(m: &Message, id: &J, code: i32, msg: &[u8], data: Option<&J>) -> bool {
    match m {
        Message::Response(r) => {
            r.id == rid(id)
                && r.result.is_none()
                && match &r.error {
                    Some(e) => {
                        e.code == code
                            && same(e.message.as_bytes(), msg)
                            && match (&e.data, data) {
                                (None, None) | (None, Some(J::Null)) => true,
                                (Some(v), Some(j)) => same_val(v, j),
                                _ => false,
                            }
                    }
                    None => false,
                }
        }
        _ => false,
    }
}
pub fn kind(m: &Message) -> &'static str {
    match m {
        Message::Request(_) => "request",
        Message::Response(_) => "response",
        Message::Notification(_) => "notification",
    }
}

/// The text of `j` with the protocol version in front.
pub fn wire(j: &J) -> Vec<u8> {
    let mut v = obj(vec![("jsonrpc", s("2.0"))]);
    if let (J::Obj(a), J::Obj(b)) = (&mut v, j) {
        a.extend(b.iter().cloned());
    }
    v.text()
}
/// Let this time pass.
pub fn wait(secs: u64) {
    speed(if secs > 500 { 1000 } else { 100 });
    std::thread::sleep(std::time::Duration::from_secs(secs));
    settle();
    speed(1);
}
/// At least `n` bytes made of characters of four bytes, none of them aligned: whatever
/// is cut off at a fixed place near or before `n` is cut inside a character for some shift.
pub fn wide(n: usize) -> Vec<u8> {
    let mut v = vec![b'x'; pick(4, "shift") as usize];
    while v.len() < n {
        v.extend_from_slice("\u{1F980}".as_bytes());
    }
    v
}
