//! C01: what is written for every message; C02: reassembly of the stream.
use crate::drv::*;
use crate::json::*;
use crate::rt::*;
use bsp_server::types::*;
use bsp_server::*;

entries! { h_c01_text h_c01_pad h_c01_seq h_c01_huge h_c01_keys h_c01_values h_c01_wide }

/// One symbolic character of the given UTF-8 length class.
pub fn uchar(class: u32, name: &str) -> Vec<u8> {
    let b = bytes(class as usize + 1, name);
    let cont = |x: u8| x & 0xc0 == 0x80;
    match class {
        0 => assume(b[0] < 0x80),
        1 => assume((b[0] >= 0xc2) & (b[0] <= 0xdf) & cont(b[1])),
        2 => assume(
            (b[0] & 0xf0 == 0xe0)
                & cont(b[1])
                & cont(b[2])
                & ((b[0] != 0xe0) | (b[1] >= 0xa0))
                & ((b[0] != 0xed) | (b[1] < 0xa0)),
        ),
        _ => assume(
            (b[0] >= 0xf0)
                & (b[0] <= 0xf4)
                & cont(b[1])
                & cont(b[2])
                & cont(b[3])
                & ((b[0] != 0xf0) | (b[1] >= 0x90))
                & ((b[0] != 0xf4) | (b[1] < 0x90)),
        ),
    }
    b
}

/// A message of kind `k` around the text `t`, and the JSON object that has to
/// appear on the wire (without jsonrpc).
pub fn sample(k: u32, t: &[u8]) -> (Message, J) {
    let js = J::Str(t.to_vec());
    match k {
        0 => (
            (RequestId::from(7), leak(t), to_val(&obj(vec![("a", js.clone())]))).into(),
            obj(vec![("id", n("7")), ("method", js.clone()), ("params", obj(vec![("a", js)]))]),
        ),
        1 => (
            Response::ok(RequestId::from(st(t)), to_val(&J::Arr(vec![js.clone(), n("-1")]))).into(),
            obj(vec![("id", js.clone()), ("result", J::Arr(vec![js, n("-1")]))]),
        ),
        2 => (
            Response::err(RequestId::from(-3), -32603, st(t)).into(),
            obj(vec![("id", n("-3")), ("error", obj(vec![("code", n("-32603")), ("message", js)]))]),
        ),
        3 => (
            ("x/y", to_val(&js)).into(),
            obj(vec![("method", s("x/y")), ("params", js)]),
        ),
        4 => (
            ShowMessage::new(MessageType::Warning, st(t), None, Some(st(t))).into(),
            obj(vec![
                ("method", s("build/showMessage")),
                ("params", obj(vec![("type", n("2")), ("message", js.clone()), ("originId", js)])),
            ]),
        ),
        5 => (
            TaskStart::new(TaskId::new(st(t), vec![st(t)])).into(),
            obj(vec![
                ("method", s("build/taskStart")),
                ("params", obj(vec![("taskId", obj(vec![("id", js.clone()), ("parents", J::Arr(vec![js]))]))])),
            ]),
        ),
        6 => (Request::Shutdown(RequestId::from(st(t))).into(), obj(vec![("id", js), ("method", s("build/shutdown"))])),
        _ => (Notification::Exit.into(), obj(vec![("method", s("build/exit"))])),
    }
}
/// Send the messages, let the threads finish, and return what was written.
pub fn emit(t: u32, ms: Vec<Message>) -> Vec<u8> {
    let (c, th) = open(t);
    for m in ms {
        check(c.send(m).is_ok(), "a live connection accepts messages");
    }
    drop(c);
    check(join(th).is_ok(), "io threads end cleanly");
    out()
}
fn expect(o: &[u8], want: &[J]) {
    let got = rpc(o, "emission");
    check(got.len() == want.len(), "one frame per message");
    for (g, w) in got.iter().zip(want) {
        check(g.same(w), "the frame carries the message");
    }
    log("out", o);
}

#[no_mangle]
pub extern "C" fn h_c01_text() {
    quiet();
    let k = pick(8, "kind");
    let cl = pick(4, "class");
    let mut t = uchar(cl, "c");
    t.extend_from_slice(&uchar(0, "d"));
    let (m, w) = sample(k, &t);
    let (m2, w2) = sample(3, b"tail");
    expect(&emit(STDIO, vec![m, m2]), &[w, w2]);
    reach("c01_text");
}
#[no_mangle]
pub extern "C" fn h_c01_pad() {
    quiet();
    const L: [usize; 22] = [
        80, 98, 99, 100, 101, 127, 128, 255, 256, 998, 999, 1000, 1001, 1023, 1024, 1025, 4096, 8191, 8192, 8193, 10000, 65536,
    ];
    let want = L[pick(L.len() as u32, "length") as usize];
    let wide = pick(2, "wide") == 1;
    let tr = pick(2, "transport");
    // {"jsonrpc":"2.0","method":"x/y","params":""}
    let fixed = 44;
    let mut t = text(2, "c");
    if wide {
        while t.len() + 2 <= want - fixed {
            t.extend_from_slice("é".as_bytes());
        }
    }
    while t.len() < want - fixed {
        t.push(b'a');
    }
    let (m, w) = sample(3, &t);
    let (m2, w2) = sample(0, b"tail");
    let o = emit(tr, vec![m, m2]);
    if let Some((b, _)) = unframe(&o) {
        check(b.len() == want, "frame of the intended length");
    }
    expect(&o, &[w, w2]);
    reach("c01_pad");
}
#[no_mangle]
pub extern "C" fn h_c01_seq() {
    quiet();
    let mut ms = vec![];
    let mut ws = vec![];
    for i in 0..3 {
        let k = pick(8, "kind");
        let (m, w) = sample(k, &text(1 + i, "t"));
        ms.push(m);
        ws.push(w);
    }
    let tr = pick(3, "transport");
    expect(&emit(tr, ms), &ws);
    reach("c01_seq");
}
/// Messages of megabytes.
#[no_mangle]
pub extern "C" fn h_c01_huge() {
    quiet();
    const L: [usize; 4] = [150_000, 1_048_577, 2_100_000, 5_000_000];
    let l = L[pick(4, "length") as usize];
    let tr = pick(2, "transport");
    let mut t = vec![b'h'; l];
    t[..2].copy_from_slice(&text(2, "t"));
    let (m, w) = sample(3, &t);
    let (m2, w2) = sample(1, b"tail");
    expect(&emit(tr, vec![m, m2]), &[w, w2]);
    reach("c01_huge");
}
/// Names with a meaning of their own further out are kept where they are.
#[no_mangle]
pub extern "C" fn h_c01_keys() {
    quiet();
    const K: [&str; 12] = ["jsonrpc", "id", "method", "params", "result", "error", "code", "message", "data", "Content-Length", "", "$"];
    let k = pick(K.len() as u32 + 1, "key") as usize;
    let free = text(3, "k");
    let key = if k < K.len() { leak(K[k].as_bytes()) } else { leak(&free) };
    let v = match pick(4, "value") {
        0 => s("2.0"),
        1 => n("7"),
        2 => J::Null,
        _ => obj(vec![(key, J::Bool(true)), ("zz", J::Arr(vec![]))]),
    };
    let x = match pick(3, "wrap") {
        0 => obj(vec![(key, v)]),
        1 => J::Arr(vec![obj(vec![(key, v.clone())]), v]),
        _ => obj(vec![("zz", obj(vec![(key, v)]))]),
    };
    let (m, w): (Message, J) = match pick(4, "kind") {
        0 => ((RequestId::from(7), "x/q", to_val(&x)).into(), obj(vec![("id", n("7")), ("method", s("x/q")), ("params", x)])),
        1 => (Response::ok(RequestId::from(7), to_val(&x)).into(), obj(vec![("id", n("7")), ("result", x)])),
        2 => (
            Response { id: RequestId::from(7), result: None, error: Some(ResponseError { code: 5, message: "m".into(), data: Some(to_val(&x)) }) }.into(),
            obj(vec![("id", n("7")), ("error", obj(vec![("code", n("5")), ("message", s("m")), ("data", x)]))]),
        ),
        _ => (("x/n", to_val(&x)).into(), obj(vec![("method", s("x/n")), ("params", x)])),
    };
    expect(&emit(pick(3, "transport"), vec![m]), &[w]);
    reach("c01_keys");
}
/// Values of every sort inside messages.
#[no_mangle]
pub extern "C" fn h_c01_values() {
    quiet();
    let d = bytes(1, "d")[0];
    let k = pick(22, "value");
    let neg = pick(2, "sign") == 1;
    // the last digit is free
    let num = |head: &str, max: u8| {
        assume((d >= b'0') & (d <= max));
        let mut v = if neg { b"-".to_vec() } else { vec![] };
        v.extend_from_slice(head.as_bytes());
        v.push(d);
        J::Num(v)
    };
    if k > 9 {
        assume(!neg & (d == 0));
    }
    let v = match k {
        0 => num("1", b'9'),
        1 => num("3276", b'9'),
        2 => num("214748364", b'9'),
        3 => num("429496729", b'9'),
        4 => num("900719925474099", b'9'),
        5 => num("922337203685477580", if neg { b'8' } else { b'9' }),
        6 => {
            assume(!neg);
            num("1844674407370955161", b'5')
        }
        7 => num("1000000000000000", b'9'),
        8 => num("99999999999999999", b'9'),
        9 => {
            assume(d != b'0');
            num("2.5", b'9')
        }
        10 => n("0"),
        11 => n("1e300"),
        12 => n("1.5e-7"),
        13 => n("-0.0"),
        14 => J::Bool(true),
        15 => J::Bool(false),
        16 => s(""),
        17 => J::Arr(vec![]),
        18 => obj(vec![]),
        19 => J::Arr(vec![J::Null, J::Null]),
        20 => J::Arr(vec![J::Arr(vec![J::Arr(vec![]), obj(vec![])]), J::Null]),
        _ => obj(vec![("", J::Null), ("a", obj(vec![("a", obj(vec![("a", J::Bool(false))]))]))]),
    };
    let v = match pick(3, "wrap") {
        0 => v,
        1 => J::Arr(vec![v.clone(), v]),
        _ => obj(vec![("k", v)]),
    };
    let (m, w): (Message, J) = match pick(4, "kind") {
        0 => ((RequestId::from(7), "x/q", to_val(&v)).into(), obj(vec![("id", n("7")), ("method", s("x/q")), ("params", v)])),
        1 => (Response::ok(RequestId::from(7), to_val(&v)).into(), obj(vec![("id", n("7")), ("result", v)])),
        2 => (
            Response { id: RequestId::from(7), result: None, error: Some(ResponseError { code: 5, message: "m".into(), data: Some(to_val(&v)) }) }.into(),
            obj(vec![("id", n("7")), ("error", obj(vec![("code", n("5")), ("message", s("m")), ("data", v)]))]),
        ),
        _ => (("x/n", to_val(&v)).into(), obj(vec![("method", s("x/n")), ("params", v)])),
    };
    expect(&emit(STDIO, vec![m]), &[w]);
    reach("c01_values");
}
/// Long texts of wide characters, and many members and elements.
#[no_mangle]
pub extern "C" fn h_c01_wide() {
    quiet();
    let tr = pick(3, "transport");
    let (m, w) = match pick(3, "what") {
        0 => sample(pick(8, "kind"), &wide([90, 1100, 9000][pick(3, "size") as usize])),
        x => {
            let l = [17, 300, 2000][pick(3, "size") as usize].min(if x == 1 { 2000 } else { 600 });
            let t = text(1, "t");
            let v = if x == 1 {
                J::Arr((0..l).map(|i| if i == l / 2 { J::Str(t.clone()) } else { J::Num(dec(i)) }).collect())
            } else {
                J::Obj((0..l).map(|i| (dec(1_000_000 + i), J::Str(t.clone()))).collect())
            };
            (("x/n", to_val(&v)).into(), obj(vec![("method", s("x/n")), ("params", v)]))
        }
    };
    let (m2, w2) = sample(0, b"tail");
    expect(&emit(tr, vec![m, m2]), &[w, w2]);
    reach("c01_wide");
}
