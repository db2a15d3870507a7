//! C12 initialize, C13 shutdown, C15 writer, C17 sockets.
use crate::c_payload::view_req;
use crate::drv::*;
use crate::env::*;
use crate::json::*;
use crate::pay::*;
use crate::rt::*;
use bsp_server::types::*;
use bsp_server::*;
use std::time::{Duration, Instant};

entries! { h_c12_memory h_c12_deep h_c12_refuse h_c12_finish h_c12_lost h_c12_params h_c12_result h_c12_wire h_c12_order h_c12_ids h_c12_long h_c12_idle h_c12_wide h_c12_any h_c12_twice h_c12_overlap
           h_c13_other h_c13_near h_c13_shutdown h_c13_lost h_c13_order h_c13_time h_c13_wire h_c13_long h_c13_wide h_c13_any h_c13_busy h_c13_twice h_c13_overlap
           h_c15_split h_c15_split2 h_c15_chunks h_c15_eintr h_c15_error h_c15_once h_c15_flush h_c15_drain h_c15_two h_c15_large h_c15_after h_c15_many h_c15_stall h_c15_idle h_c15_crowd h_c15_kinds
           h_c17_ports h_c17_fail h_c17_scarce h_c17_close h_c17_duplex h_c17_same h_c17_many h_c17_idle h_c17_stall h_c17_both h_c17_addrs }

fn msg(j: &J) -> Message {
    serde_json::from_str(&st(&wire(j))).unwrap()
}
/// Messages a server meets; the first `REQK` are requests.
const REQK: u32 = 5;
const KINDS: u32 = 11;
fn traffic(k: u32, t: &[u8]) -> J {
    let js = J::Str(t.to_vec());
    match k {
        0 => obj(vec![("id", n("7")), ("method", s("x/y")), ("params", js)]),
        1 => obj(vec![("id", js), ("method", s("workspace/buildTargets"))]),
        2 => obj(vec![("id", js), ("method", s("build/shutdown"))]),
        3 => obj(vec![("id", n("-1")), ("method", s("buildTarget/sources")), ("params", obj(vec![("targets", J::Arr(vec![]))]))]),
        4 => obj(vec![("id", n("0")), ("method", s("workspace/reload")), ("params", js)]),
        5 => obj(vec![("method", s("x/z")), ("params", js)]),
        6 => obj(vec![("method", s("build/initialized"))]),
        7 => obj(vec![("method", s("build/logMessage")), ("params", obj(vec![("type", n("4")), ("message", js)]))]),
        8 => obj(vec![("id", js.clone()), ("result", js)]),
        9 => obj(vec![("id", n("3")), ("error", obj(vec![("code", n("-32603")), ("message", js)]))]),
        _ => obj(vec![("method", s("build/exit"))]),
    }
}
fn init_params(t: &[u8]) -> J {
    obj(vec![
        ("displayName", J::Str(t.to_vec())),
        ("version", s("1.0")),
        ("bspVersion", s("2.0.0")),
        ("rootUri", s("file:///w/r")),
        ("capabilities", obj(vec![("languageIds", J::Arr(vec![J::Str(t.to_vec())]))])),
        ("data", J::Arr(vec![n("1")])),
    ])
}
fn init_req(id: &J, t: &[u8]) -> J {
    obj(vec![("id", id.clone()), ("method", s("build/initialize")), ("params", init_params(t))])
}
fn params_ok(p: &InitializeBuild, c: &J) -> bool {
    view_req(&Request::InitializeBuild(RequestId::from(0), p.clone_params()), 0, c)
}
trait CloneParams {
    fn clone_params(&self) -> InitializeBuild;
}
impl CloneParams for InitializeBuild {
    fn clone_params(&self) -> InitializeBuild {
        serde_json::from_value(serde_json::to_value(self).unwrap()).unwrap()
    }
}
/// Every -32002 answer and the initialize result, in that order.
fn answers(got: &[Message], refused: &[J], done: Option<(&J, &J)>) {
    check(got.len() == refused.len() + done.is_some() as usize, "each request before initialize gets one answer, notifications none");
    for (m, j) in got.iter().zip(refused) {
        let ok = match m {
            Message::Response(r) => {
                r.id == rid(j.get("id").unwrap()) && r.result.is_none() && r.error.as_ref().map_or(false, |e| e.code == -32002)
            }
            _ => false,
        };
        check(ok, "a request before initialize is refused with -32002 under its own id, in order");
    }
    if let (Some((id, v)), Some(m)) = (done, got.get(refused.len())) {
        check(is_ok(m, id, v), "the initialize request is answered with the result of process");
        check(matches!(m, Message::Response(r) if r.result.is_some()), "the initialize answer carries a result");
    }
}
fn drain(c: &Connection) -> Vec<Message> {
    c.receiver.try_iter().collect()
}
fn memory(max: u32) {
    quiet();
    let t = text(1, "t");
    let (srv, cli) = Connection::memory();
    let mut refused = vec![];
    let len = pick(max, "prefix");
    for _ in 0..len {
        let k = pick(8, "kind");
        let j = traffic(k, &t);
        check(cli.send(msg(&j)).is_ok(), "harness: send");
        if k < REQK {
            refused.push(j);
        }
    }
    let id = if pick(2, "id") == 0 { n("42") } else { J::Str(t.clone()) };
    let later = pick(3, "later");
    let extra = traffic([0, 5, 10][later as usize], b"later");
    cli.send(msg(&init_req(&id, &t))).unwrap();
    cli.send(Notification::Initialized).unwrap();
    cli.send(msg(&extra)).unwrap();
    let mut calls = 0;
    let res = J::Arr(vec![J::Str(t.clone()), J::Null]);
    let r = srv.initialize(|p| {
        calls += 1;
        check(params_ok(p, &init_params(&t)), "process sees the params of the initialize request");
        to_val(&res)
    });
    check(calls == 1, "process runs exactly once");
    check(r.map_or(false, |p| params_ok(&p, &init_params(&t))), "initialize returns the params of the initialize request");
    answers(&drain(&cli), &refused, Some((&id, &res)));
    let left = drain(&srv);
    check(left.len() == 1 && crate::refr::fits(&left[0], &extra, crate::refr::classify(&extra.clone().with("jsonrpc", s("2.0")))), "messages after the handshake are left for the server");
}
/// The handshake after any short history.
#[no_mangle]
pub extern "C" fn h_c12_memory() {
    memory(3);
    reach("c12_memory");
}
#[no_mangle]
pub extern "C" fn h_c12_deep() {
    memory(5);
    reach("c12_deep");
}
/// Exit, a response, or the peer going away instead of initialize.
#[no_mangle]
pub extern "C" fn h_c12_refuse() {
    quiet();
    let t = text(1, "t");
    let (srv, cli) = Connection::memory();
    let mut refused = vec![];
    for _ in 0..pick(3, "prefix") {
        let k = pick(8, "kind");
        let j = traffic(k, &t);
        cli.send(msg(&j)).unwrap();
        if k < REQK {
            refused.push(j);
        }
    }
    let how = pick(4, "how");
    if how < 3 {
        cli.send(msg(&traffic(8 + how, &t))).unwrap();
        // what would complete the handshake comes too late
        cli.send(msg(&init_req(&n("1"), &t))).unwrap();
        cli.send(Notification::Initialized).unwrap();
    }
    let Connection { sender, receiver } = cli;
    if how == 3 {
        drop(sender);
    }
    let mut calls = 0;
    let r = srv.initialize(|_| {
        calls += 1;
        1
    });
    check(r.is_err(), "initialize fails unless an initialize request arrives");
    check(calls == 0, "process does not run without an initialize request");
    let got: Vec<Message> = receiver.try_iter().collect();
    answers(&got, &refused, None);
    if how < 3 {
        check(drain(&srv).len() == 2, "messages behind the one that failed initialize are left");
    }
    reach("c12_refuse");
}
/// What may follow the initialize request.
#[no_mangle]
pub extern "C" fn h_c12_finish() {
    quiet();
    let t = text(1, "t");
    let (srv, cli) = Connection::memory();
    let id = J::Str(t.clone());
    cli.send(msg(&init_req(&id, &t))).unwrap();
    let k = pick(KINDS + 2, "next");
    let before = pick(2, "twice") == 1;
    let j = match k {
        11 => init_req(&n("9"), &t),
        k => traffic(k, &t),
    };
    let Connection { sender, receiver } = cli;
    if k < 12 {
        sender.send(msg(&j)).unwrap();
        if before {
            sender.send(Notification::Initialized.into()).unwrap();
        }
    } else {
        drop(sender);
    }
    let mut calls = 0;
    let r = srv.initialize(|_| {
        calls += 1;
        st(&t)
    });
    check(r.is_ok() == (k == 6), "initialize succeeds exactly when initialized is the next message");
    check(calls == 1, "process runs exactly once");
    let got: Vec<Message> = receiver.try_iter().collect();
    answers(&got, &[], Some((&id, &J::Str(t.clone()))));
    if k < 12 {
        check(drain(&srv).len() == before as usize, "nothing behind the reply to initialize is consumed");
    }
    reach("c12_finish");
}
/// The peer stops listening at any stage: an error or success, never a panic.
#[no_mangle]
pub extern "C" fn h_c12_lost() {
    quiet();
    let t = text(1, "t");
    let (srv, cli) = Connection::memory();
    let k = pick(8, "kind");
    let Connection { sender, receiver } = cli;
    let mut req = 0;
    if pick(2, "prefix") == 1 {
        sender.send(msg(&traffic(k, &t))).unwrap();
        req += (k < REQK) as u32;
    }
    let init = pick(2, "init") == 1;
    if init {
        sender.send(msg(&init_req(&n("1"), &t))).unwrap();
        sender.send(Notification::Initialized.into()).unwrap();
    }
    drop(receiver);
    if pick(2, "gone") == 1 || (req == 0 && !init) {
        drop(sender);
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| srv.initialize(|_| 1)));
    match r {
        Err(_) => check(false, "a lost peer never panics initialize"),
        Ok(r) => check(r.is_err(), "initialize fails when its answers cannot be sent"),
    }
    reach("c12_lost");
}
/// All members of the params reach process and the caller.
#[no_mangle]
pub extern "C" fn h_c12_params() {
    quiet();
    let (w, c) = Gen::fixed(pick(2 + 2 * optional(REQS[0].1), "mode")).object(REQS[0].1);
    let (srv, cli) = Connection::memory();
    cli.send(msg(&obj(vec![("id", n("1")), ("method", s("build/initialize")), ("params", w)]))).unwrap();
    cli.send(Notification::Initialized).unwrap();
    let mut seen = false;
    let r = srv.initialize(|p| seen = params_ok(p, &c));
    check(seen, "process sees the params of the initialize request");
    check(r.map_or(false, |p| params_ok(&p, &c)), "initialize returns the params of the initialize request");
    reach("c12_params");
}
/// Whatever process returns becomes the result.
#[no_mangle]
pub extern "C" fn h_c12_result() {
    quiet();
    let t = text(2, "t");
    let (srv, cli) = Connection::memory();
    let id = n("5");
    cli.send(msg(&init_req(&id, b"n"))).unwrap();
    cli.send(Notification::Initialized).unwrap();
    let (r, want) = match pick(6, "value") {
        0 => (srv.initialize(|_| ()), J::Null),
        1 => (srv.initialize(|_| true), J::Bool(true)),
        2 => (srv.initialize(|_| st(&t)), J::Str(t)),
        3 => (srv.initialize(|_| u64::MAX), n("18446744073709551615")),
        4 => (srv.initialize(|p| p.display_name().to_string()), s("n")),
        _ => {
            let mut c = ServerCapabilities::default();
            c.set_can_reload(Some(true));
            (
                srv.initialize(|_| InitializeBuildResult::new_simple(st(&t), "1".into(), "2.0".into(), c)),
                obj(vec![
                    ("displayName", J::Str(t)),
                    ("version", s("1")),
                    ("bspVersion", s("2.0")),
                    ("capabilities", obj(vec![("canReload", J::Bool(true))])),
                ]),
            )
        }
    };
    check(r.is_ok(), "the handshake succeeds");
    answers(&drain(&cli), &[], Some((&id, &want)));
    reach("c12_result");
}
/// Request ids of any kind come back unchanged.
#[no_mangle]
pub extern "C" fn h_c12_ids() {
    quiet();
    let a = u32s("a") as i32;
    let t = text(pick(3, "len") as usize, "t");
    let (srv, cli) = Connection::memory();
    let (i, j) = (RequestId::from(a), RequestId::from(st(&t)));
    let (x, y) = if pick(2, "swap") == 1 { (j, i) } else { (i, j) };
    cli.send(Request::WorkspaceBuildTargets(x.clone())).unwrap();
    let p: InitializeBuild = serde_json::from_str(&st(&init_params(b"n").text())).unwrap();
    cli.send(Request::InitializeBuild(y.clone(), p)).unwrap();
    cli.send(Notification::Initialized).unwrap();
    check(srv.initialize(|_| 0).is_ok(), "the handshake succeeds");
    let got = drain(&cli);
    check(got.len() == 2, "each request is answered once");
    let id = |m: Option<&Message>| match m {
        Some(Message::Response(r)) => Some(r.id.clone()),
        _ => None,
    };
    check(id(got.get(0)).map_or(false, |v| v == x), "a refused request is answered under its id");
    check(id(got.get(1)).map_or(false, |v| v == y), "initialize is answered under its id");
    reach("c12_ids");
}
/// The handshake on the wire, on every transport.
#[no_mangle]
pub extern "C" fn h_c12_wire() {
    quiet();
    let tr = pick(3, "transport");
    let t = text(1, "t");
    let k = pick(8, "kind");
    let j = traffic(k, &t);
    let mut f = frame(&wire(&j));
    f.extend_from_slice(&frame(&wire(&init_req(&n("1"), &t))));
    f.extend_from_slice(&frame(&wire(&traffic(6, b""))));
    f.extend_from_slice(&frame(&wire(&traffic(5, b"more"))));
    feed(f);
    env(|e| {
        e.rjit = 1;
        e.wjit = 2;
    });
    let (c, th) = open(tr);
    check(c.initialize(|p| p.version().to_string()).is_ok(), "the handshake succeeds");
    let m = collect(&c);
    check(m.len() == 1 && is_notif(&m[0], b"x/z", &s("more")), "messages after the handshake are left for the server");
    drop(c);
    check(join(th).is_ok(), "the end of input ends the io threads cleanly");
    let o = rpc(&out(), "initialize");
    let nreq = (k < REQK) as usize;
    check(o.len() == nreq + 1, "each request before initialize gets one answer, notifications none");
    if nreq == 1 && o.len() == 2 {
        let e = o[0].get("error");
        check(
            o[0].get("id").map_or(false, |i| i.same(j.get("id").unwrap()))
                && o[0].get("result").is_none()
                && e.and_then(|e| e.get("code")).map_or(false, |c| c.same(&n("-32002")))
                && matches!(e.and_then(|e| e.get("message")), Some(J::Str(_))),
            "a request before initialize is refused with -32002 under its own id, in order",
        );
    }
    if let Some(l) = o.last() {
        check(l.same(&obj(vec![("id", n("1")), ("result", s("1.0"))])), "the initialize request is answered with the result of process");
    }
    reach("c12_wire");
}
/// The answers do not wait for what the peer only sends once it has them.
#[no_mangle]
pub extern "C" fn h_c12_order() {
    quiet();
    let tr = pick(3, "transport");
    env(|e| e.eof = false);
    let (c, th) = open(tr);
    let h = std::thread::spawn(move || {
        let r = c.initialize(|_| 7).is_ok();
        (r, c)
    });
    let n0 = pick(2, "early") as usize;
    if n0 == 1 {
        more(&frame(&wire(&traffic(0, b"q"))));
        wait_out(1, "a request before initialize is refused at once");
    }
    more(&frame(&wire(&init_req(&n("1"), b"n"))));
    wait_out(n0 + 1, "initialize is answered before initialized arrives");
    more(&frame(&wire(&traffic(6, b""))));
    let (ok, c) = h.join().unwrap();
    check(ok, "the handshake succeeds");
    close_in();
    drop(c);
    check(join(th).is_ok(), "the end of input ends the io threads cleanly");
    reach("c12_order");
}
/// Seconds, minutes and an hour.
fn gap() -> u64 {
    [2, 11, 31, 61, 301, 3700][pick(6, "gap") as usize]
}
/// Histories far longer than any buffer.
#[no_mangle]
pub extern "C" fn h_c12_long() {
    quiet();
    let t = text(1, "t");
    let (srv, cli) = Connection::memory();
    let len = [17, 66, 260, 1100][pick(4, "len") as usize];
    let mut kind = pick(9, "kind");
    let step = (kind == 8) as u32;
    let mut refused = vec![];
    for i in 0..len {
        kind = (kind + step) % 8;
        let mut j = traffic(kind, &t);
        if kind < REQK {
            j = j.without("id").with("id", if i % 2 == 0 { J::Num(dec(i)) } else { J::Str(dec(i)) });
            refused.push(j.clone());
        }
        cli.send(msg(&j)).unwrap();
    }
    let id = J::Str(t.clone());
    cli.send(msg(&init_req(&id, &t))).unwrap();
    cli.send(Notification::Initialized).unwrap();
    for _ in 0..3 {
        cli.send(msg(&traffic(5, b"more"))).unwrap();
    }
    let mut calls = 0;
    let r = srv.initialize(|p| {
        calls += 1;
        check(params_ok(p, &init_params(&t)), "process sees the params of the initialize request");
        7
    });
    check(calls == 1, "process runs exactly once");
    check(r.map_or(false, |p| params_ok(&p, &init_params(&t))), "initialize returns the params of the initialize request");
    answers(&drain(&cli), &refused, Some((&id, &n("7"))));
    check(drain(&srv).len() == 3, "messages after the handshake are left for the server");
    reach("c12_long");
}
/// The handshake takes as long as the peer and the server take.
#[no_mangle]
pub extern "C" fn h_c12_idle() {
    quiet();
    let secs = gap();
    let at = pick(4, "where");
    let (srv, cli) = Connection::memory();
    let h = std::thread::spawn(move || {
        let mut calls = 0;
        let r = srv.initialize(|_| {
            calls += 1;
            if at == 3 {
                wait(secs);
            }
            5
        });
        (r.is_ok(), calls, srv)
    });
    if at == 0 {
        wait(secs);
    }
    cli.send(msg(&traffic(0, b"q"))).unwrap();
    cli.send(msg(&traffic(5, b"q"))).unwrap();
    if at == 1 {
        wait(secs);
    }
    cli.send(msg(&init_req(&n("1"), b"n"))).unwrap();
    let limit = Duration::from_secs(20 + if at == 3 { secs } else { 0 });
    let mut got = vec![];
    while got.len() < 2 {
        match cli.receiver.recv_timeout(limit) {
            Ok(m) => got.push(m),
            Err(_) => {
                check(false, "the initialize request is answered however late it comes");
                break;
            }
        }
    }
    if at == 2 {
        wait(secs);
    }
    let _ = cli.send(Notification::Initialized);
    let (ok, calls, srv) = h.join().unwrap();
    check(ok, "the handshake succeeds however long it takes");
    check(calls == 1, "process runs exactly once");
    got.extend(drain(&cli));
    answers(&got, &[traffic(0, b"q")], Some((&n("1"), &n("5"))));
    check(drain(&srv).is_empty(), "the handshake takes its own messages");
    reach("c12_idle");
}
/// Long texts of wide characters anywhere in the handshake.
#[no_mangle]
pub extern "C" fn h_c12_wide() {
    quiet();
    let t = wide([90, 1100, 5000][pick(3, "size") as usize]);
    let at = pick(8, "where");
    let (srv, cli) = Connection::memory();
    let js = J::Str(t.clone());
    let early = match at {
        0 => Some(obj(vec![("id", n("1")), ("method", s("x/y")), ("params", js.clone())])),
        1 => Some(obj(vec![("id", js.clone()), ("method", s("workspace/reload"))])),
        2 => Some(obj(vec![("id", n("1")), ("method", js.clone())])),
        3 => Some(obj(vec![("method", js.clone()), ("params", js.clone())])),
        _ => None,
    };
    let mut refused = vec![];
    if let Some(j) = early {
        cli.send(msg(&j)).unwrap();
        if at < 3 {
            refused.push(j);
        }
    }
    if at == 4 {
        cli.send(msg(&traffic(9, &t))).unwrap();
    }
    let id = if at == 5 { js.clone() } else { n("2") };
    cli.send(msg(&init_req(&id, &t))).unwrap();
    if at == 6 {
        cli.send(msg(&traffic(0, &t))).unwrap();
    }
    cli.send(Notification::Initialized).unwrap();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| srv.initialize(|_| st(if at == 7 { &t } else { b"r" }))));
    let res = if at == 7 { js } else { s("r") };
    match r {
        Err(_) => check(false, "no text of the peer panics initialize"),
        Ok(r) => check(r.is_ok() == (at != 4 && at != 6), "initialize succeeds exactly when initialized is the next message"),
    }
    answers(&drain(&cli), &refused, if at == 4 { None } else { Some((&id, &res)) });
    reach("c12_wide");
}
/// Messages of any name before initialize and in place of initialized.
#[no_mangle]
pub extern "C" fn h_c12_any() {
    quiet();
    let me = text(1 + pick(4, "len") as usize, "m");
    let at = pick(4, "where");
    let v = || [serde_json::Value::Null, serde_json::Value::from("p")][(at % 2) as usize].clone();
    let (srv, cli) = Connection::memory();
    let note = || Message::from((leak(&me), v()));
    let req = |i: i32| Message::from((RequestId::from(i), leak(&me), v()));
    let init = || {
        let p: InitializeBuild = serde_json::from_str(&st(&init_params(b"n").text())).unwrap();
        cli.send(Request::InitializeBuild(2.into(), p)).unwrap();
    };
    let mut refused = vec![];
    match at {
        0 => {
            cli.send(note()).unwrap();
            cli.send(req(1)).unwrap();
            refused.push(obj(vec![("id", n("1"))]));
            cli.send(note()).unwrap();
            init();
        }
        1 => {
            cli.send(req(1)).unwrap();
            refused.push(obj(vec![("id", n("1"))]));
            init();
        }
        2 => {
            init();
            cli.send(note()).unwrap();
        }
        _ => {
            init();
            cli.send(req(1)).unwrap();
        }
    }
    cli.send(Notification::Initialized).unwrap();
    let mut calls = 0;
    let r = srv.initialize(|_| {
        calls += 1;
        1
    });
    check(calls == 1, "process runs exactly once");
    check(r.is_ok() == (at < 2), "initialize succeeds exactly when initialized is the next message");
    answers(&drain(&cli), &refused, Some((&n("2"), &n("1"))));
    check(drain(&srv).len() == (at >= 2) as usize, "nothing behind the reply to initialize is consumed");
    reach("c12_any");
}
/// The peer has got this many frames (or never will).
fn wait_out(k: usize, what: &str) {
    for _ in 0..if native() { 200 } else { 4 } {
        if frames(&out()).map_or(false, |f| f.len() >= k) {
            break;
        }
        settle();
    }
    check(frames(&out()).map_or(false, |f| f.len() == k), what);
}

// ------------------------------------------------------------------ C13
/// Any request but shutdown is left alone.
#[no_mangle]
pub extern "C" fn h_c13_other() {
    quiet();
    let all = REQS.len() as u32;
    let k = pick(all + 3, "kind");
    let id = J::Str(text(1, "i"));
    let j = if k < all {
        let (m, ms) = REQS[k as usize];
        obj(vec![("id", id), ("method", s(m)), ("params", Gen::fixed(0).object(ms).0)])
    } else {
        obj(vec![("id", id), ("method", s(["workspace/buildTargets", "workspace/reload", "x/shutdown"][(k - all) as usize]))])
    };
    other(&j);
    reach("c13_other");
}
fn other(j: &J) {
    let (srv, cli) = Connection::memory();
    cli.send(Notification::Exit).unwrap();
    let m = msg(j);
    let t0 = Instant::now();
    if let Message::Request(r) = &m {
        check(matches!(srv.handle_shutdown(r), Ok(false)), "handle_shutdown declines every request but shutdown");
    } else {
        check(false, "harness: request");
    }
    check(t0.elapsed() < Duration::from_secs(5), "a declined request does not wait");
    check(drain(&cli).is_empty(), "a declined request is not answered");
    check(drain(&srv).len() == 1, "a declined request consumes nothing");
}
#[no_mangle]
pub extern "C" fn h_c13_near() {
    quiet();
    let mut m = b"build/shutdown".to_vec();
    let at = pick(m.len() as u32, "at") as usize;
    let b = text(1, "b")[0];
    assume(b != m[at]);
    m[at] = b;
    other(&obj(vec![("id", n("1")), ("method", J::Str(m))]));
    reach("c13_near");
}
/// What may follow shutdown.
#[no_mangle]
pub extern "C" fn h_c13_shutdown() {
    quiet();
    let t = text(1, "t");
    let (srv, cli) = Connection::memory();
    let k = pick(KINDS, "next");
    let id = if pick(2, "id") == 0 { RequestId::from(u32s("i") as i32) } else { RequestId::from(st(&t)) };
    cli.send(msg(&traffic(k, &t))).unwrap();
    let behind = pick(3, "behind");
    for i in 0..behind {
        cli.send(msg(&traffic(if i == 0 { 10 } else { 5 }, b"b"))).unwrap();
    }
    let r = srv.handle_shutdown(&Request::Shutdown(id.clone()));
    match r {
        Ok(v) => check(v && k == 10, "shutdown succeeds only when exit is the next message"),
        Err(_) => check(k != 10, "shutdown succeeds when exit is the next message"),
    }
    let got = drain(&cli);
    check(got.len() == 1, "shutdown is answered exactly once");
    for m in got {
        match m {
            Message::Response(r) => check(
                r.id == id && r.error.is_none() && matches!(r.result, Some(serde_json::Value::Null)),
                "shutdown is answered with a null result under its id",
            ),
            _ => check(false, "shutdown is answered with a response"),
        }
    }
    check(drain(&srv).len() == behind as usize, "shutdown consumes only the message that ends it");
    reach("c13_shutdown");
}
#[no_mangle]
pub extern "C" fn h_c13_lost() {
    quiet();
    let (srv, cli) = Connection::memory();
    let Connection { sender, receiver } = cli;
    let how = pick(4, "how");
    match how {
        0 => {
            drop(sender);
        }
        1 => {
            drop(sender);
            drop(receiver);
        }
        2 => {
            sender.send(msg(&traffic(5, b"t"))).unwrap();
            drop(receiver);
        }
        _ => {
            sender.send(msg(&traffic(0, b"t"))).unwrap();
            drop(sender);
        }
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| srv.handle_shutdown(&Request::Shutdown(RequestId::from(1)))));
    match r {
        Err(_) => check(false, "a lost peer never panics shutdown"),
        Ok(r) => check(r.is_err(), "shutdown fails when exit never arrives"),
    }
    reach("c13_lost");
}
/// The answer does not wait for exit.
#[no_mangle]
pub extern "C" fn h_c13_order() {
    quiet();
    let tr = pick(3, "transport");
    let last = pick(2, "last");
    env(|e| e.eof = false);
    let (c, th) = open(tr);
    let id = J::Str(text(1, "i"));
    more(&frame(&wire(&obj(vec![("id", id.clone()), ("method", s("build/shutdown"))]))));
    let h = std::thread::spawn(move || {
        let m = c.receiver.recv().unwrap();
        let r = match &m {
            Message::Request(r) => c.handle_shutdown(r).ok(),
            _ => None,
        };
        (r, c)
    });
    wait_out(1, "shutdown is answered before exit arrives");
    let o = rpc(&out(), "shutdown");
    check(o.len() == 1 && o[0].same(&obj(vec![("id", id), ("result", J::Null)])), "shutdown is answered with a null result under its id");
    if last == 0 {
        more(&frame(&wire(&traffic(10, b""))));
    } else {
        close_in();
    }
    let (r, c) = h.join().unwrap();
    check(r == if last == 0 { Some(true) } else { None }, "shutdown succeeds exactly when exit arrives");
    drop(c);
    check(join(th).is_ok(), "exit ends the io threads cleanly");
    check(rpc(&out(), "shutdown").len() == 1, "shutdown is answered exactly once");
    reach("c13_order");
}
/// Exit is waited for, but not for ever.
#[no_mangle]
pub extern "C" fn h_c13_time() {
    quiet();
    let (srv, cli) = Connection::memory();
    let after = [0, 1, 5, 10, 15, 20, 25, 28, 29, 32, 45][pick(11, "after") as usize];
    speed(3);
    let t0 = Instant::now();
    let slack = Duration::from_millis(if native() { 2500 } else { 900 });
    let h = std::thread::spawn(move || {
        let r = srv.handle_shutdown(&Request::Shutdown(RequestId::from(1)));
        (r, t0.elapsed(), srv)
    });
    std::thread::sleep(Duration::from_secs(after));
    let _ = cli.send(Notification::Exit);
    let (r, took, srv) = h.join().unwrap();
    if after <= 29 {
        check(matches!(r, Ok(true)), "shutdown waits up to 30 seconds for exit");
        check(took >= Duration::from_secs(after) && took < Duration::from_secs(after) + slack, "shutdown returns as soon as exit arrives");
    } else {
        check(r.is_err(), "shutdown gives up after 30 seconds");
        check(took >= Duration::from_secs(30) && took < Duration::from_secs(30) + slack + slack, "shutdown gives up after 30 seconds");
        check(drain(&srv).len() == 1, "an exit that comes too late is left for the server");
    }
    reach("c13_time");
}
/// A whole session on the wire.
#[no_mangle]
pub extern "C" fn h_c13_wire() {
    quiet();
    let tr = pick(3, "transport");
    let t = text(1, "t");
    let mut f = vec![];
    for j in [
        init_req(&n("0"), &t),
        traffic(6, b""),
        obj(vec![("id", J::Str(t.clone())), ("method", s("a/b")), ("params", J::Str(t.clone()))]),
        traffic(5, &t),
        obj(vec![("id", n("2")), ("method", s("build/shutdown")), ("params", J::Null)]),
        traffic(10, b""),
        traffic(0, b"never"),
    ] {
        f.extend_from_slice(&frame(&wire(&j)));
    }
    feed(f);
    env(|e| {
        e.eof = pick(2, "eof") == 1;
        e.rjit = 1;
        e.wjit = 3;
    });
    let (c, th) = open(tr);
    check(c.initialize(|_| ()).is_ok(), "the handshake succeeds");
    let mut done = false;
    for m in &c.receiver {
        match m {
            Message::Request(r) => match c.handle_shutdown(&r) {
                Ok(true) => done = true,
                Ok(false) => check(c.send((r.id().clone(), r.params().unwrap())).is_ok(), "a live connection accepts messages"),
                Err(_) => check(false, "shutdown succeeds when exit is the next message"),
            },
            _ => check(c.send(Notification::from(("n", serde_json::Value::Null))).is_ok(), "a live connection accepts messages"),
        }
    }
    check(done, "shutdown succeeds when exit is the next message");
    drop(c);
    check(join(th).is_ok(), "exit ends the io threads cleanly");
    let o = rpc(&out(), "session");
    let want = [
        obj(vec![("id", n("0")), ("result", J::Null)]),
        obj(vec![("id", J::Str(t.clone())), ("result", J::Str(t))]),
        obj(vec![("method", s("n")), ("params", J::Null)]),
        obj(vec![("id", n("2")), ("result", J::Null)]),
    ];
    check(o.len() == 4, "everything sent in a session is written once");
    for (a, b) in o.iter().zip(&want) {
        check(a.same(b), "everything sent in a session is written in order");
    }
    reach("c13_wire");
}

/// Shutdown at the end of a long session.
#[no_mangle]
pub extern "C" fn h_c13_long() {
    quiet();
    let (srv, cli) = Connection::memory();
    let len = [3, 40, 300, 1200][pick(4, "len") as usize];
    let pause = pick(2, "pause") == 1;
    for i in 0..len {
        let j = traffic([0, 1, 3, 4][i % 4], b"t");
        if let Message::Request(r) = msg(&j) {
            check(matches!(srv.handle_shutdown(&r), Ok(false)), "handle_shutdown declines every request but shutdown");
        }
        cli.send(msg(&traffic(5, b"n"))).unwrap();
    }
    check(drain(&srv).len() == len, "a declined request consumes nothing");
    check(drain(&cli).is_empty(), "a declined request is not answered");
    if pause {
        wait(gap());
    }
    cli.send(Notification::Exit).unwrap();
    let id = RequestId::from(len as i32);
    check(matches!(srv.handle_shutdown(&Request::Shutdown(id.clone())), Ok(true)), "shutdown succeeds when exit is the next message");
    let got = drain(&cli);
    check(
        got.len() == 1 && matches!(&got[0], Message::Response(r) if r.id == id && r.error.is_none() && matches!(r.result, Some(serde_json::Value::Null))),
        "shutdown is answered with a null result under its id",
    );
    reach("c13_long");
}

/// Long texts of wide characters in what is no exit.
#[no_mangle]
pub extern "C" fn h_c13_wide() {
    quiet();
    let t = wide([90, 1100, 5000][pick(3, "size") as usize]);
    let k = [0, 1, 5, 7, 8, 9][pick(6, "next") as usize];
    let (srv, cli) = Connection::memory();
    cli.send(msg(&traffic(k, &t))).unwrap();
    cli.send(Notification::Exit).unwrap();
    let id = RequestId::from(st(&t));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| srv.handle_shutdown(&Request::Shutdown(id.clone()))));
    match r {
        Err(_) => check(false, "no text of the peer panics shutdown"),
        Ok(r) => check(r.is_err(), "shutdown succeeds only when exit is the next message"),
    }
    let got = drain(&cli);
    check(got.len() == 1 && matches!(&got[0], Message::Response(r) if r.id == id && r.error.is_none()), "shutdown is answered exactly once");
    check(drain(&srv).len() == 1, "shutdown consumes only the message that ends it");
    reach("c13_wide");
}
/// A message of any name is no exit.
#[no_mangle]
pub extern "C" fn h_c13_any() {
    quiet();
    let me = text(1 + pick(4, "len") as usize, "m");
    let how = pick(4, "how");
    let v = if how % 2 == 0 { serde_json::Value::Null } else { serde_json::Value::from(1) };
    let (srv, cli) = Connection::memory();
    let m = if how < 2 { Message::from((leak(&me), v)) } else { Message::from((RequestId::from(st(&me)), leak(&me), v)) };
    if let Message::Request(r) = &m {
        check(matches!(srv.handle_shutdown(r), Ok(false)), "handle_shutdown declines every request but shutdown");
    }
    cli.send(m).unwrap();
    cli.send(Notification::Exit).unwrap();
    check(srv.handle_shutdown(&Request::Shutdown(1.into())).is_err(), "shutdown succeeds only when exit is the next message");
    check(drain(&cli).len() == 1, "shutdown is answered exactly once");
    check(drain(&srv).len() == 1, "shutdown consumes only the message that ends it");
    reach("c13_any");
}
/// Shutdown arrives while answers are still being written.
#[no_mangle]
pub extern "C" fn h_c13_busy() {
    quiet();
    let tr = pick(3, "transport");
    let before = pick(3, "before") as i32;
    let part = [0, 1, 30, 60][pick(4, "room") as usize];
    env(|e| {
        e.eof = false;
        e.wroom = Some(part);
    });
    let (c, th) = open(tr);
    let h = std::thread::spawn(move || {
        for i in 0..before {
            check(c.send((RequestId::from(i), serde_json::Value::from("early"))).is_ok(), "a live connection accepts messages");
        }
        let r = c.handle_shutdown(&Request::Shutdown(9.into()));
        (matches!(r, Ok(true)), c)
    });
    for _ in 0..3 {
        settle();
    }
    let late = [0, 12, 45][pick(3, "late") as usize];
    // (with an earlier answer on its hands the writer cannot have taken the one to shutdown)
    assume(late < 30 || before > 0);
    if late > 0 {
        wait(late);
    }
    unblock();
    wait_out(before as usize + 1, "shutdown is answered before exit arrives");
    // (the peer takes a moment to answer)
    wait(5);
    more(&frame(&wire(&traffic(10, b""))));
    let (ok, c) = h.join().unwrap();
    check(ok, "shutdown succeeds when exit is the next message");
    drop(c);
    check(join(th).is_ok(), "exit ends the io threads cleanly");
    let o = rpc(&out(), "shutdown");
    check(o.len() == before as usize + 1, "shutdown is answered exactly once");
    if let Some(l) = o.last() {
        check(l.same(&obj(vec![("id", n("9")), ("result", J::Null)])), "shutdown is answered with a null result under its id");
    }
    reach("c13_busy");
}

// ------------------------------------------------------------------ C15
/// (what to send, the object that has to appear)
fn outgoing(k: u32, t: &[u8]) -> (Message, J) {
    crate::c_frame::sample(k, t)
}
/// The messages are on the wire, whole, once, in order.
fn written(want: &[J], what: &str) {
    let o = rpc(&out(), what);
    check(o.len() == want.len(), "every accepted message is written once");
    for (a, b) in o.iter().zip(want) {
        check(a.same(b), "messages are written whole and in the order they were accepted");
    }
}
fn send_all(tr: u32, l: Vec<(Message, J)>) {
    let want: Vec<J> = l.iter().map(|x| x.1.clone()).collect();
    let (c, th) = open(tr);
    for (m, _) in l {
        check(c.send(m).is_ok(), "a live connection accepts messages");
    }
    drop(c);
    check(join(th).is_ok(), "the io threads end cleanly once the connection is dropped");
    written(&want, "send");
}
fn pair() -> Vec<(Message, J)> {
    vec![outgoing(0, "aé".as_bytes()), outgoing(3, b"b")]
}
/// The first write takes any number of bytes.
#[no_mangle]
pub extern "C" fn h_c15_split() {
    quiet();
    let tr = pick(3, "transport");
    let a = 1 + pick(160, "first") as usize;
    env(|e| e.wchunk = Chunk::First(a));
    send_all(tr, pair());
    reach("c15_split");
}
#[no_mangle]
pub extern "C" fn h_c15_split2() {
    quiet();
    let tr = pick(2, "transport");
    let a = 1 + pick(60, "first") as usize;
    let b = 1 + pick(60, "second") as usize;
    env(|e| e.wchunk = Chunk::List(vec![a, b]));
    send_all(tr, pair());
    reach("c15_split2");
}
#[no_mangle]
pub extern "C" fn h_c15_chunks() {
    quiet();
    let tr = pick(3, "transport");
    let a = 1 + pick(40, "size") as usize;
    env(|e| e.wchunk = Chunk::Fixed(a));
    let t = text(2, "t");
    send_all(tr, vec![outgoing(pick(4, "kind"), &t), outgoing(1, b"x")]);
    reach("c15_chunks");
}
/// Interrupted writes are tried again.
#[no_mangle]
pub extern "C" fn h_c15_eintr() {
    quiet();
    let tr = pick(3, "transport");
    let at = pick(8, "at") as usize;
    let small = [1000, 30][pick(2, "size") as usize];
    let times = 1 + pick(2, "times") as usize;
    env(|e| {
        e.wfail = (0..times).map(|i| (at + i, 4)).collect();
        e.wchunk = Chunk::Fixed(small);
        e.wjit = 1;
    });
    send_all(tr, pair());
    reach("c15_eintr");
}
const ERRNOS: [i32; 5] = [32, 104, 28, 5, 11];
fn prefix_ok(o: &[u8], l: &[Vec<u8>]) -> usize {
    // the output is a prefix of the frames in order (member order is free, so
    // lengths and the parsed objects decide)
    let mut k = 0;
    let mut r = o;
    while !r.is_empty() {
        match unframe(r) {
            Some((b, rest)) => {
                let same = parse(b).map_or(false, |j| l.get(k).and_then(|w| parse(w)).map_or(false, |w| j.same(&w)));
                check(same, "what was written before a failure is a prefix of what was accepted");
                k += 1;
                r = rest;
            }
            None => break,
        }
    }
    k
}
fn failing(tr: u32, sticky: bool) {
    let at = pick(5, "at") as usize;
    let er = ERRNOS[choice_errno()];
    let part = [1000, 10][pick(2, "size") as usize];
    env(|e| {
        if sticky {
            e.wdead = Some((at, er));
        } else {
            e.wfail = vec![(at, er)];
        }
        e.wchunk = Chunk::Fixed(part);
        e.wjit = 1;
    });
    let (c, th) = open(tr);
    let mut acc = vec![];
    let mut failed = false;
    for i in 0..8u32 {
        let (m, j) = outgoing(3, &dec(i as usize));
        let ok = c.send(m).is_ok();
        if ok {
            check(!failed, "a connection whose writer failed stays closed");
            acc.push(wire(&j));
        }
        failed |= !ok;
        settle();
    }
    check(failed, "sending fails once the writer has failed");
    drop(c);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| th.join()));
    match r {
        Err(_) => check(false, "an io thread panicked"),
        Ok(r) => check(r.map_err(|e| e.raw_os_error()) == Err(Some(er)), "join returns the writer's error"),
    }
    let k = prefix_ok(&out(), &acc);
    check(k + 1 == acc.len(), "only the message being written is lost");
}
fn choice_errno() -> usize {
    pick(ERRNOS.len() as u32, "errno") as usize
}
/// Every write fails from some point on.
#[no_mangle]
pub extern "C" fn h_c15_error() {
    quiet();
    failing(pick(3, "transport"), true);
    reach("c15_error");
}
/// A single write fails: nothing may follow the broken frame.
#[no_mangle]
pub extern "C" fn h_c15_once() {
    quiet();
    failing(pick(3, "transport"), false);
    reach("c15_once");
}
/// A message is on its way as soon as it is accepted, the connection idle.
#[no_mangle]
pub extern "C" fn h_c15_flush() {
    quiet();
    let tr = pick(3, "transport");
    env(|e| e.eof = false);
    let (c, th) = open(tr);
    let t = text(1, "t");
    let mut want = vec![];
    for i in 0..3 {
        let (m, j) = outgoing(pick(4, "kind"), if i == 0 { &t } else { b"x" });
        check(c.send(m).is_ok(), "a live connection accepts messages");
        want.push(j);
        wait_out(i + 1, "a message is written without waiting for another");
        written(&want, "flush");
    }
    close_in();
    drop(c);
    check(join(th).is_ok(), "the io threads end cleanly once the connection is dropped");
    written(&want, "flush");
    reach("c15_flush");
}
/// Everything accepted before the drop is written before join returns.
#[no_mangle]
pub extern "C" fn h_c15_drain() {
    quiet();
    let tr = pick(3, "transport");
    let t = text(1, "t");
    env(|e| {
        e.wjit = 3;
        e.rjit = 1;
        e.wchunk = Chunk::Fixed(50);
    });
    if pick(2, "input") == 1 {
        feed(frame(&wire(&traffic(10, b""))));
        env(|e| e.eof = false);
    }
    let k = pick(4, "count");
    let (c, th) = open(tr);
    let mut want = vec![];
    for i in 0..k {
        let (m, j) = outgoing(i, &t);
        check(c.send(m).is_ok(), "a live connection accepts messages");
        want.push(j);
    }
    drop(c);
    check(join(th).is_ok(), "the io threads end cleanly once the connection is dropped");
    written(&want, "drain");
    reach("c15_drain");
}
/// Two threads send at once.
#[no_mangle]
pub extern "C" fn h_c15_two() {
    quiet();
    let tr = pick(3, "transport");
    let small = [1000, 25][pick(2, "size") as usize];
    env(|e| {
        e.wjit = 3;
        e.wchunk = Chunk::Fixed(small);
    });
    let (c, th) = open(tr);
    let tx = c.sender.clone();
    let gap = pick(3, "gap");
    let h = std::thread::spawn(move || {
        let mut ok = true;
        for i in 0..2 {
            if gap == 1 {
                settle();
            }
            ok &= tx.send(outgoing(3, &[b'a', b'0' + i]).0).is_ok();
        }
        ok
    });
    for i in 0..3u8 {
        if gap == 2 {
            settle();
        }
        check(c.send(outgoing(3, &[b'b', b'0' + i]).0).is_ok(), "a live connection accepts messages");
    }
    drop(c);
    check(h.join().unwrap(), "a live connection accepts messages");
    check(join(th).is_ok(), "the io threads end cleanly once the connection is dropped");
    let o = rpc(&out(), "two");
    check(o.len() == 5, "every accepted message is written once");
    for w in [b'a', b'b'] {
        let own: Vec<J> = o.iter().filter(|j| matches!(j.get("method"), Some(J::Str(t)) if t[0] == w) || tagged(j, w)).cloned().collect();
        check(own.len() == if w == b'a' { 2 } else { 3 }, "every accepted message is written once");
        for (i, j) in own.iter().enumerate() {
            check(j.same(&outgoing(3, &[w, b'0' + i as u8]).1), "messages of one sender keep their order");
        }
    }
    reach("c15_two");
}
/// Several threads send at once, each in one of four ways.
#[no_mangle]
pub extern "C" fn h_c15_crowd() {
    quiet();
    let tr = pick(3, "transport");
    let senders = 2 + pick(3, "senders") as u8;
    let each = 1 + pick(4, "each") as u8;
    let how = pick(4, "how");
    env(|e| {
        e.wjit = [0, 2, 5][pick(3, "delay") as usize];
        e.wchunk = Chunk::Fixed([1000, 31][pick(2, "size") as usize]);
    });
    let (c, th) = open(tr);
    let mut hs = vec![];
    for w in 0..senders {
        let c = Connection { sender: c.sender.clone(), receiver: c.receiver.clone() };
        hs.push(std::thread::spawn(move || {
            let mut n = vec![];
            for i in 0..each {
                let m = outgoing(3, &[b'a' + w, b'0' + i]).0;
                let ok = match (how + w as u32) % 4 {
                    0 => c.send(m).is_ok(),
                    1 => c.try_send(m).is_ok(),
                    2 => c.send_timeout(m, std::time::Duration::from_millis(700)).is_ok(),
                    _ => c.send_deadline(m, std::time::Instant::now() + std::time::Duration::from_millis(30)).is_ok(),
                };
                if ok {
                    n.push(i);
                }
            }
            n
        }));
    }
    drop(c);
    let took: Vec<Vec<u8>> = hs.into_iter().map(|h| h.join().unwrap()).collect();
    check(join(th).is_ok(), "the io threads end cleanly once the connection is dropped");
    let o = rpc(&out(), "crowd");
    check(o.len() == took.iter().map(|t| t.len()).sum::<usize>(), "every accepted message is written once");
    for (w, t) in took.iter().enumerate() {
        let w = b'a' + w as u8;
        if (how + (w - b'a') as u32) % 4 == 0 {
            check(t.len() == each as usize, "a live connection accepts messages");
        }
        let own: Vec<J> = o.iter().filter(|j| tagged(j, w)).cloned().collect();
        check(own.len() == t.len(), "every accepted message is written once");
        for (i, j) in t.iter().zip(&own) {
            check(j.same(&outgoing(3, &[w, b'0' + i]).1), "messages of one sender keep their order");
        }
    }
    reach("c15_crowd");
}
fn tagged(j: &J, w: u8) -> bool {
    match j.get("params") {
        Some(J::Str(t)) => t.first() == Some(&w),
        Some(J::Arr(v)) => matches!(v.first(), Some(J::Str(t)) if t.first() == Some(&w)),
        Some(o) => matches!(o.get("a").or(o.get("k")), Some(J::Str(t)) if t.first() == Some(&w)),
        None => false,
    }
}
/// Messages bigger than any buffer on the way.
#[no_mangle]
pub extern "C" fn h_c15_large() {
    quiet();
    let tr = pick(3, "transport");
    let len = [1000, 1024, 4096, 8192, 20000, 70_000, 300_000][pick(7, "len") as usize] + pick(3, "plus") as usize;
    let lim = [100_000, 4096, 1023][pick(3, "chunk") as usize];
    let t = text(1, "t");
    let mut v = vec![b'x'; len];
    v[0] = t[0];
    v[len / 2] = b'\n';
    v[len - 1] = t[0];
    env(|e| e.wchunk = Chunk::Fixed(lim));
    let j = J::Str(v.clone());
    send_all(tr, vec![((RequestId::from(1), to_val(&j)).into(), obj(vec![("id", n("1")), ("result", j)])), outgoing(3, b"end")]);
    reach("c15_large");
}
/// The writer works on whatever became of the reader.
#[no_mangle]
pub extern "C" fn h_c15_after() {
    quiet();
    let tr = pick(3, "transport");
    let how = pick(4, "how");
    match how {
        0 => feed(vec![]),
        1 => feed(frame(&wire(&traffic(10, b"")))),
        2 => feed(b"rubbish\r\n".to_vec()),
        _ => {
            feed(vec![]);
            env(|e| e.rfail = vec![(0, 104)]);
        }
    }
    let (c, th) = open(tr);
    let ms = collect(&c);
    check(ms.len() == (how == 1) as usize, "harness: input");
    settle();
    let mut want = vec![];
    for i in 0..2 {
        let (m, j) = outgoing(i, b"late");
        check(c.send(m).is_ok(), "the connection still sends after the reader ended");
        want.push(j);
        wait_out(i as usize + 1, "what is sent after the reader ended is written");
    }
    drop(c);
    check(join(th).is_ok() == (how < 2), "join reports how the reader ended");
    written(&want, "after");
    reach("c15_after");
}

/// Far more messages than fit anywhere.
#[no_mangle]
pub extern "C" fn h_c15_many() {
    quiet();
    let tr = pick(3, "transport");
    let len = [12, 70, 300, 1100][pick(4, "len") as usize];
    let lim = [100_000, 64][pick(2, "chunk") as usize];
    env(|e| {
        e.wchunk = Chunk::Fixed(lim);
        e.wjit = 2;
    });
    let l = (0..len).map(|i| outgoing(i as u32 % 6, &dec(i))).collect();
    send_all(tr, l);
    reach("c15_many");
}
/// A peer that stops reading for a while.
#[no_mangle]
pub extern "C" fn h_c15_stall() {
    quiet();
    let tr = pick(3, "transport");
    let room0 = [0, 1, 40, 130, 700][pick(5, "room") as usize];
    let secs = [1, 31, 301][pick(3, "secs") as usize];
    let steps = pick(2, "steps");
    env(|e| {
        e.wroom = Some(room0);
        e.eof = pick(2, "eof") == 1;
    });
    let (c, th) = open(tr);
    let mut want = vec![];
    let mut l = vec![];
    for i in 0..8 {
        let (m, j) = outgoing(i % 6, b"stall");
        want.push(j);
        l.push(m);
    }
    let h = std::thread::spawn(move || {
        for m in l {
            check(c.send(m).is_ok(), "a live connection accepts messages");
        }
        c
    });
    wait(secs);
    if steps == 1 {
        room(70);
        wait(secs);
        check(out().len() >= (room0 + 70).min(400), "what the peer takes is written at once");
    }
    unblock();
    let c = h.join().unwrap();
    // the peer ends as well, or the reader would wait for it
    close_in();
    drop(c);
    check(join(th).is_ok(), "a slow peer is no error");
    written(&want, "stall");
    reach("c15_stall");
}
/// Messages with long silences between them.
#[no_mangle]
pub extern "C" fn h_c15_idle() {
    quiet();
    let tr = pick(3, "transport");
    let secs = gap();
    env(|e| e.eof = pick(2, "eof") == 1);
    let (c, th) = open(tr);
    let mut want = vec![];
    for i in 0..3 {
        let (m, j) = outgoing(i, b"idle");
        wait(secs);
        check(c.send(m).is_ok(), "a live connection accepts messages");
        want.push(j);
        wait_out(i as usize + 1, "a message is written without waiting for another");
    }
    close_in();
    drop(c);
    check(join(th).is_ok(), "the io threads end cleanly once the connection is dropped");
    written(&want, "idle");
    reach("c15_idle");
}

// ------------------------------------------------------------------ C17
use std::net::SocketAddr;
use std::sync::atomic::Ordering;
fn try_open(listen: bool, port: u16) -> std::io::Result<(Connection, IoThreads)> {
    ACTIVE.store(true, Ordering::SeqCst);
    env(|e| e.stdio = false);
    let a = SocketAddr::from(([127, 0, 0, 1], port));
    if listen {
        Connection::listen(a)
    } else {
        Connection::connect(a)
    }
}
/// The address asked for is the one used.
#[no_mangle]
pub extern "C" fn h_c17_ports() {
    quiet();
    let p = u16s("port");
    let l = pick(2, "listen") == 1;
    let (c, th) = try_open(l, p).unwrap();
    drop(c);
    check(join(th).is_ok(), "the end of input ends the io threads cleanly");
    check(env(|e| e.peer == vec![p]), "the socket uses the port asked for");
    check(env(|e| e.open) == 0, "every socket is closed in the end");
    reach("c17_ports");
}
/// Failures to connect are reported and leave nothing behind.
#[no_mangle]
pub extern "C" fn h_c17_fail() {
    quiet();
    let e = [111, 110, 113, 99, 24][pick(5, "errno") as usize];
    let l = pick(2, "listen") == 1;
    env(|v| {
        v.cfail = e;
        v.afail = e;
    });
    let r = std::panic::catch_unwind(|| try_open(l, 9).map(|_| ()));
    match r {
        Err(_) => check(false, "failing to connect never panics"),
        Ok(r) => check(r.map_err(|x| x.raw_os_error()) == Err(Some(e)), "failing to connect is reported as the error it is"),
    }
    check(env(|v| v.open) == 0, "every socket is closed in the end");
    reach("c17_fail");
}
/// Descriptors run out at any step of the way.
#[no_mangle]
pub extern "C" fn h_c17_scarce() {
    quiet();
    let e = [24, 23, 12, 105][pick(4, "errno") as usize];
    let after = pick(5, "after") as usize;
    let l = pick(2, "listen") == 1;
    let t = text(1, "t");
    let again = pick(2, "again") == 1;
    feed(frame(&wire(&traffic(0, &t))));
    env(|v| v.scarce = Some((after, e)));
    match std::panic::catch_unwind(|| try_open(l, 9)) {
        Err(_) => check(false, "failing to connect never panics"),
        Ok(Err(x)) => check(x.raw_os_error() == Some(e), "failing to connect is reported as the error it is"),
        Ok(Ok((c, th))) => {
            env(|v| v.scarce = None);
            check(collect(&c).len() == 1, "a connection that was made works");
            check(c.send(msg(&traffic(5, &t))).is_ok(), "a live connection accepts messages");
            drop(c);
            check(join(th).is_ok(), "the end of input ends the io threads cleanly");
            check(rpc(&out(), "made").len() == 1, "a connection that was made works");
        }
    }
    settle();
    check(env(|v| v.open) == 0, "every socket is closed in the end");
    if again {
        env(|v| {
            v.scarce = None;
            v.ipos = 0;
        });
        feed(frame(&wire(&traffic(0, &t))));
        let (c, th) = try_open(!l, 9).unwrap();
        check(collect(&c).len() == 1, "a further connection can be made");
        drop(c);
        check(join(th).is_ok(), "the end of input ends the io threads cleanly");
        check(env(|v| v.open) == 0, "every socket is closed in the end");
    }
    reach("c17_scarce");
}
/// However the connection ends, its sockets are closed.
#[no_mangle]
pub extern "C" fn h_c17_close() {
    quiet();
    let l = pick(2, "listen") == 1;
    let how = pick(5, "how");
    match how {
        0 => feed(vec![]),
        1 => feed(frame(&wire(&traffic(10, b"")))),
        2 => feed(b"rubbish\r\n".to_vec()),
        3 => {
            feed(vec![]);
            env(|e| e.wdead = Some((0, 32)));
        }
        _ => {
            feed(vec![]);
            env(|e| e.rfail = vec![(0, 104)]);
        }
    }
    let (c, th) = try_open(l, 9).unwrap();
    check(env(|e| e.open) >= 1, "a connection holds a socket");
    let _ = collect(&c);
    let _ = c.send(Notification::Initialized);
    drop(c);
    check(join(th).is_ok() == (how < 2), "join reports how the connection ended");
    settle();
    if how < 2 || how == 3 {
        check(env(|e| e.open) == 0, "every socket is closed in the end");
    } else {
        for _ in 0..if native() { 100 } else { 3 } {
            if env(|e| e.open) > 0 {
                settle();
            }
        }
        check(env(|e| e.open) == 0, "every socket is closed in the end");
    }
    reach("c17_close");
}
/// Neither direction waits for the other.
#[no_mangle]
pub extern "C" fn h_c17_duplex() {
    quiet();
    let tr = pick(3, "transport");
    env(|e| e.eof = false);
    let (c, th) = open(tr);
    let t = text(1, "t");
    let first = pick(2, "first");
    for round in 0..3usize {
        if (round as u32 + first) % 2 == 0 {
            more(&frame(&wire(&traffic(5, &t))));
            match c.receiver.recv_timeout(Duration::from_secs(20)) {
                Ok(m) => check(is_notif(&m, b"x/z", &J::Str(t.clone())), "messages are delivered unaltered"),
                Err(_) => check(false, "input is delivered without any output"),
            }
        } else {
            let have = frames(&out()).map_or(0, |f| f.len());
            check(c.send(outgoing(0, &t).0).is_ok(), "a live connection accepts messages");
            wait_out(have + 1, "output is written without any input");
        }
    }
    close_in();
    drop(c);
    check(join(th).is_ok(), "the end of input ends the io threads cleanly");
    reach("c17_duplex");
}
/// A socket carries what stdio carries, byte for byte.
#[no_mangle]
pub extern "C" fn h_c17_same() {
    quiet();
    let tr = pick(3, "transport");
    let t = text(1, "t");
    let k = pick(KINDS, "kind");
    let j = traffic(k, &t);
    feed(frame(&wire(&j)));
    env(|e| {
        e.rjit = 1;
        e.wjit = 1;
        e.rchunk = Chunk::Fixed(20);
        e.wchunk = Chunk::Fixed(20);
    });
    let (c, th) = open(tr);
    let ms = collect(&c);
    check(ms.len() == 1, "the message is delivered");
    for m in ms {
        let typed = match &m {
            Message::Request(Request::BuildTargetSources(i, p)) => Some(k == 3 && *i == RequestId::from(-1) && p.targets().is_empty()),
            Message::Notification(Notification::LogMessage(p)) => Some(k == 7 && same(p.message.as_bytes(), &t)),
            _ => None,
        };
        let ok = typed.unwrap_or_else(|| crate::refr::fits(&m, &j, crate::refr::classify(&j.clone().with("jsonrpc", s("2.0")))));
        check(ok, "messages are delivered unaltered");
        check(c.send(m).is_ok(), "a live connection accepts messages");
    }
    drop(c);
    check(join(th).is_ok(), "the end of input ends the io threads cleanly");
    let o = rpc(&out(), "same");
    check(o.len() == 1, "the message is written");
    // re-encoding may spell out an omitted params member; reload has none
    let full = |j: &J| {
        let no = k == 4 || matches!(j.get("params"), Some(J::Null));
        if no { j.clone().without("params") } else { j.clone() }
    };
    check(o.len() == 1 && full(&o[0]).same(&full(&j)), "a delivered message is written back unaltered");
    reach("c17_same");
}
/// Connections do not share anything.
#[no_mangle]
pub extern "C" fn h_c17_many() {
    quiet();
    let l = pick(2, "listen") == 1;
    feed(frame(&wire(&traffic(5, b"one"))));
    let (c, th) = try_open(l, 9).unwrap();
    let ms = collect(&c);
    check(ms.len() == 1 && is_notif(&ms[0], b"x/z", &s("one")), "messages are delivered unaltered");
    drop(c);
    check(join(th).is_ok(), "the end of input ends the io threads cleanly");
    env(|e| {
        e.input = frame(&wire(&traffic(5, b"two")));
        e.ipos = 0;
        e.avail = e.input.len();
    });
    let (c, th) = try_open(!l, 9).unwrap();
    let ms = collect(&c);
    check(ms.len() == 1 && is_notif(&ms[0], b"x/z", &s("two")), "a second connection works like the first");
    drop(c);
    check(join(th).is_ok(), "the end of input ends the io threads cleanly");
    check(env(|e| e.open) == 0, "every socket is closed in the end");
    reach("c17_many");
}

/// A silent connection stays a connection.
#[no_mangle]
pub extern "C" fn h_c17_idle() {
    quiet();
    let tr = pick(3, "transport");
    let secs = gap();
    let out_first = pick(2, "first") == 1;
    env(|e| e.eof = false);
    let (c, th) = open(tr);
    for i in 0..4usize {
        wait(secs);
        if (i % 2 == 1) == out_first {
            more(&frame(&wire(&traffic(5, &dec(i)))));
            match c.receiver.recv_timeout(Duration::from_secs(20)) {
                Ok(m) => check(is_notif(&m, b"x/z", &J::Str(dec(i))), "messages are delivered unaltered"),
                Err(_) => check(false, "input is delivered however long the connection was silent"),
            }
        } else {
            check(c.send(outgoing(0, &dec(i)).0).is_ok(), "a live connection accepts messages");
            wait_out(i / 2 + 1, "output is written however long the connection was silent");
        }
    }
    wait(secs);
    close_in();
    drop(c);
    check(join(th).is_ok(), "the end of input ends the io threads cleanly");
    check(env(|e| e.open) == 0, "every socket is closed in the end");
    reach("c17_idle");
}
/// Input arrives while the peer takes no output.
#[no_mangle]
pub extern "C" fn h_c17_stall() {
    quiet();
    let tr = pick(3, "transport");
    let secs = [1, 31, 301][pick(3, "secs") as usize];
    let exit = pick(2, "exit") == 1;
    env(|e| {
        e.eof = false;
        e.wroom = Some(10);
    });
    let (c, th) = open(tr);
    let (m, want) = outgoing(0, b"out");
    check(c.send(m).is_ok(), "a live connection accepts messages");
    for i in 0..4 {
        more(&frame(&wire(&traffic(5, &dec(i)))));
        match c.receiver.recv_timeout(Duration::from_secs(20)) {
            Ok(m) => check(is_notif(&m, b"x/z", &J::Str(dec(i))), "messages are delivered unaltered"),
            Err(_) => check(false, "input is delivered while output is held up"),
        }
        if i == 1 {
            wait(secs);
        }
    }
    if exit {
        more(&frame(&wire(&traffic(10, b""))));
        check(matches!(c.receiver.recv_timeout(Duration::from_secs(20)), Ok(Message::Notification(Notification::Exit))), "exit is delivered");
    } else {
        close_in();
    }
    check(matches!(c.receiver.recv_timeout(Duration::from_secs(20)), Err(crossbeam_channel::RecvTimeoutError::Disconnected)), "the end of input ends delivery");
    wait(secs);
    unblock();
    drop(c);
    check(join(th).is_ok(), "the end of input ends the io threads cleanly");
    written(&[want], "stall");
    check(env(|e| e.open) == 0, "every socket is closed in the end");
    reach("c17_stall");
}
/// Two connections at once have nothing to do with each other.
#[no_mangle]
pub extern "C" fn h_c17_both() {
    quiet();
    let ta = pick(3, "a");
    let tb = CONNECT + pick(2, "b");
    let t = text(1, "t");
    let end = pick(5, "end");
    let held = pick(2, "held") == 1;
    let part = pick(2, "part") == 1;
    env(|e| {
        e.eof = false;
        if held {
            e.wroom = Some(10);
        }
    });
    let (a, tha) = open(ta);
    select(1);
    env(|e| e.eof = false);
    let (b, thb) = open(tb);
    // a is in the middle of a message
    let fa = frame(&wire(&traffic(5, &t)));
    select(0);
    more(&fa[..if part { 30 } else { 0 }]);
    let (ma, ja) = outgoing(0, &t);
    check(a.send(ma).is_ok(), "a live connection accepts messages");
    select(1);
    for i in 0..2usize {
        more(&frame(&wire(&traffic(0, &dec(i)))));
        match b.receiver.recv_timeout(Duration::from_secs(20)) {
            Ok(m) => check(is_req(&m, &n("7"), b"x/y", &J::Str(dec(i))), "messages are delivered unaltered"),
            Err(_) => check(false, "connections do not wait for each other"),
        }
        check(b.send(outgoing(1, &dec(i)).0).is_ok(), "a live connection accepts messages");
        wait_out(i + 1, "connections do not wait for each other");
    }
    check(a.receiver.try_recv().is_err(), "nothing is delivered that was not sent");
    // b ends
    let dead = match end {
        0 => {
            close_in();
            false
        }
        1 => {
            more(&frame(&wire(&traffic(10, &t))));
            false
        }
        2 => {
            more(b"rubbish\r\n");
            true
        }
        3 => {
            env(|e| {
                let k = e.nread;
                e.rfail = (0..4).map(|i| (k + i, 104)).collect();
            });
            more(b"x");
            true
        }
        _ => {
            env(|e| e.wdead = Some((0, 32)));
            let _ = b.send(outgoing(0, b"lost").0);
            close_in();
            true
        }
    };
    let got = b.receiver.recv_timeout(Duration::from_secs(20));
    check(if end == 1 { matches!(got, Ok(Message::Notification(Notification::Exit))) } else { got.is_err() }, "the end of a connection ends its delivery");
    drop(b);
    check(join(thb).is_ok() != dead, "join reports how the connection ended");
    for _ in 0..if native() { 100 } else { 3 } {
        if env(|e| e.open) > 0 {
            settle();
        }
    }
    check(env(|e| e.open) == 0, "every socket is closed in the end");
    if end < 4 {
        let o = rpc(&out(), "b");
        check(o.len() == 2 && o[0].same(&outgoing(1, b"0").1) && o[1].same(&outgoing(1, b"1").1), "a connection carries its own messages only");
    }
    // a is still what it was
    select(0);
    if held {
        unblock();
    }
    more(&fa[if part { 30 } else { 0 }..]);
    match a.receiver.recv_timeout(Duration::from_secs(20)) {
        Ok(m) => check(is_notif(&m, b"x/z", &J::Str(t.clone())), "messages are delivered unaltered"),
        Err(_) => check(false, "the end of one connection does not end another"),
    }
    let (mb, jb) = outgoing(3, &t);
    check(a.send(mb).is_ok(), "the end of one connection does not end another");
    wait_out(2, "the end of one connection does not end another");
    close_in();
    drop(a);
    check(join(tha).is_ok(), "the end of input ends the io threads cleanly");
    written(&[ja, jb], "a");
    check(env(|e| e.open) == 0, "every socket is closed in the end");
    reach("c17_both");
}
/// Several addresses to choose from, each of either family.
#[no_mangle]
pub extern "C" fn h_c17_addrs() {
    quiet();
    let l = pick(2, "listen") == 1;
    let k = 1 + pick(3, "count") as usize;
    let bad = pick(k as u32 + 1, "refused") as usize;
    let e = [111, 113, 98, 13, 110][pick(5, "errno") as usize];
    let v6 = pick(2, "v6") == 1;
    let b = bytes(if v6 { 16 } else { 4 }, "ip");
    let p = u16s("port");
    let mut list = vec![];
    let mut ips = vec![];
    for i in 0..k {
        let mut ip = b.clone();
        ip[3] = ip[3].wrapping_add(i as u8);
        list.push(if v6 {
            let mut x = [0u8; 16];
            x.copy_from_slice(&ip);
            SocketAddr::from((x, p))
        } else {
            SocketAddr::from(([ip[0], ip[1], ip[2], ip[3]], p))
        });
        ips.push(ip);
    }
    let mut refuse = vec![e; bad];
    if bad > 1 {
        refuse[0] = 101;
    }
    env(|v| {
        v.refuse = refuse;
        v.stdio = false;
    });
    feed(frame(&wire(&traffic(5, b"hi"))));
    ACTIVE.store(true, std::sync::atomic::Ordering::SeqCst);
    let r = std::panic::catch_unwind(|| if l { Connection::listen(&list[..]) } else { Connection::connect(&list[..]) });
    let r = match r {
        Err(_) => return check(false, "failing to connect never panics"),
        Ok(r) => r,
    };
    let tried = env(|v| v.addrs.clone());
    let want = (bad + 1).min(k);
    check(tried.len() == want, "the addresses asked for are tried in turn until one works");
    for (x, y) in tried.iter().zip(&ips) {
        check(same(x, y), "the socket uses the address asked for");
    }
    check(env(|v| v.peer == vec![p; want]), "the socket uses the port asked for");
    match r {
        Ok((c, th)) => {
            check(bad < k, "failing to connect is reported as the error it is");
            let ms = collect(&c);
            check(ms.len() == 1 && is_notif(&ms[0], b"x/z", &s("hi")), "messages are delivered unaltered");
            drop(c);
            check(join(th).is_ok(), "the end of input ends the io threads cleanly");
        }
        Err(x) => {
            check(bad == k, "a connection is made when one of the addresses works");
            check(x.raw_os_error() == Some(e) || (bad > 1 && x.raw_os_error() == Some(101)), "failing to connect is reported as the error it is");
        }
    }
    check(env(|v| v.open) == 0, "every socket is closed in the end");
    reach("c17_addrs");
}
/// Handshakes one after the other, on one connection or on several.
#[no_mangle]
pub extern "C" fn h_c12_twice() {
    quiet();
    let t = text(1, "t");
    let fresh = pick(2, "fresh") == 1;
    let rounds = 2 + pick(2, "rounds");
    let same_id = pick(2, "same") == 1;
    let (mut srv, mut cli) = Connection::memory();
    let mut keep = vec![];
    for i in 0..rounds {
        if i > 0 && fresh {
            let (s, c) = Connection::memory();
            keep.push((std::mem::replace(&mut srv, s), std::mem::replace(&mut cli, c)));
        }
        let early = pick(3, "early");
        let mut refused = vec![];
        for _ in 0..early {
            let j = traffic(0, &t);
            cli.send(msg(&j)).unwrap();
            refused.push(j);
        }
        let id = n(if same_id || i == 0 { "7" } else { "-8" });
        // the last handshake succeeds, those before it in any way
        let end = if i + 1 == rounds { 0 } else { pick(4, "end") };
        let mine = [t[0], b'0' + i as u8];
        if end < 3 {
            cli.send(msg(&init_req(&id, &mine))).unwrap();
        }
        cli.send(msg(&traffic([6, 0, 8, 10][end as usize], &t))).unwrap();
        let mut calls = 0;
        let r = srv.initialize(|p| {
            calls += 1;
            check(params_ok(p, &init_params(&mine)), "process sees the params of the initialize request");
            i
        });
        check(calls == (end < 3) as u32, "process runs exactly once");
        check(r.is_ok() == (end == 0), "the handshake succeeds exactly when initialized is the next message");
        let v = J::Num(dec(i as usize));
        answers(&drain(&cli), &refused, if end < 3 { Some((&id, &v)) } else { None });
        check(drain(&srv).is_empty(), "harness: nothing is left");
    }
    reach("c12_twice");
}
/// Shutdown requests one after the other, on one connection or on several.
#[no_mangle]
pub extern "C" fn h_c13_twice() {
    quiet();
    let t = text(1, "t");
    let fresh = pick(2, "fresh") == 1;
    let same_id = pick(2, "same") == 1;
    let rounds = 2 + pick(2, "rounds");
    let (mut srv, mut cli) = Connection::memory();
    let mut keep = vec![];
    for i in 0..rounds {
        if i > 0 && fresh {
            let (s, c) = Connection::memory();
            keep.push((std::mem::replace(&mut srv, s), std::mem::replace(&mut cli, c)));
        }
        if pick(2, "between") == 1 {
            let r = srv.handle_shutdown(&Request::WorkspaceReload(RequestId::from(7)));
            check(matches!(r, Ok(false)) && drain(&cli).is_empty(), "other requests are left alone");
        }
        let k = [10, 0, 5, 6][pick(4, "next") as usize];
        cli.send(msg(&traffic(k, &t))).unwrap();
        let id = RequestId::from(if same_id { 7 } else { 7 + i as i32 });
        let r = srv.handle_shutdown(&Request::Shutdown(id.clone()));
        check(matches!(r, Ok(true)) == (k == 10) && r.is_err() == (k != 10), "shutdown succeeds exactly when exit is the next message");
        let got = drain(&cli);
        check(
            got.len() == 1 && matches!(&got[0], Message::Response(r) if r.id == id && r.error.is_none() && matches!(r.result, Some(serde_json::Value::Null))),
            "each shutdown is answered once, with a null result under its id",
        );
        check(drain(&srv).is_empty(), "harness: nothing is left");
    }
    reach("c13_twice");
}
/// Whatever was sent before, the connection goes on sending.
#[no_mangle]
pub extern "C" fn h_c15_kinds() {
    quiet();
    let tr = pick(3, "transport");
    let t = text(1, "t");
    let (a, b) = (pick(KINDS, "first"), pick(KINDS, "second"));
    let slow = pick(2, "slow") == 1;
    env(|e| e.wjit = if slow { 2 } else { 0 });
    let (c, th) = open(tr);
    let mut want = vec![];
    for k in [a, b, 0] {
        let j = traffic(k, &t);
        check(c.send(msg(&j)).is_ok(), "a live connection accepts messages");
        want.push(j);
        if !slow {
            wait_out(want.len(), "what is sent is written without another message");
        }
    }
    drop(c);
    check(join(th).is_ok(), "the io threads end cleanly once the connection is dropped");
    let o = rpc(&out(), "kinds");
    check(o.len() == want.len(), "every accepted message is written once");
    for (a, b) in o.iter().zip(&want) {
        // (messages without params may be written with null)
        let strip = |j: &J| if j.get("params").map_or(false, |p| p.same(&J::Null)) { j.clone().without("params") } else { j.clone() };
        let named = matches!(b.get("method"), Some(J::Str(m)) if m.starts_with(b"workspace/") || m.starts_with(b"build/shutdown"));
        check(
            strip(a).same(&if named { b.clone().without("params") } else { strip(b) }) || a.same(b),
            "messages are written whole and in the order they were accepted",
        );
    }
    reach("c15_kinds");
}

/// Handshakes on two connections that overlap: neither sees the other.
#[no_mangle]
pub extern "C" fn h_c12_overlap() {
    quiet();
    let t = text(1, "t");
    let same_id = pick(2, "same") == 1;
    let how = pick(4, "how");
    let (ea, eb) = (pick(2, "early_a") == 1, pick(2, "early_b") == 1);
    let (sa, ca) = Connection::memory();
    let (sb, cb) = Connection::memory();
    let (ia, ib) = (n("7"), n(if same_id { "7" } else { "8" }));
    let early = traffic(0, &t);
    let (pa, pb) = ([t[0], b'a'], [t[0], b'b']);
    for (c, i, p, e) in [(&ca, &ia, &pa, ea), (&cb, &ib, &pb, eb)] {
        if e {
            c.send(msg(&early)).unwrap();
        }
        c.send(msg(&init_req(i, p))).unwrap();
    }
    let go = |c: &Connection| c.send(msg(&traffic(6, b""))).unwrap();
    let mut calls = (0, 0);
    let (ra, rb);
    match how {
        0 | 1 => {
            // the second handshake runs inside the first one's process
            go(&ca);
            if how == 0 {
                go(&cb);
            } else {
                cb.send(msg(&early)).unwrap();
            }
            let mut inner = None;
            ra = sa.initialize(|p| {
                calls.0 += 1;
                check(params_ok(p, &init_params(&pa)), "process sees the params of the initialize request");
                inner = Some(sb.initialize(|p| {
                    calls.1 += 1;
                    check(params_ok(p, &init_params(&pb)), "process sees the params of the initialize request");
                    2
                }));
                1
            });
            match inner {
                Some(r) => rb = r,
                None => return check(false, "process runs exactly once"),
            }
        }
        _ => {
            // the second one while the first waits for initialized
            let h = std::thread::spawn(move || {
                let mut k = 0;
                let r = sa.initialize(|p| {
                    k += 1;
                    check(params_ok(p, &init_params(&pa)), "process sees the params of the initialize request");
                    1
                });
                (r, k, sa)
            });
            settle();
            if how == 3 {
                wait(40);
            }
            go(&cb);
            rb = sb.initialize(|p| {
                calls.1 += 1;
                check(params_ok(p, &init_params(&pb)), "process sees the params of the initialize request");
                2
            });
            settle();
            go(&ca);
            let (r, k, _sa) = h.join().unwrap();
            ra = r;
            calls.0 = k;
        }
    }
    check(calls == (1, 1), "process runs exactly once");
    check(ra.is_ok(), "a handshake succeeds whatever other connections do");
    check(rb.is_ok() == (how != 1), "a handshake succeeds whatever other connections do");
    let refused = |e: bool| if e { vec![early.clone()] } else { vec![] };
    answers(&drain(&ca), &refused(ea), Some((&ia, &n("1"))));
    answers(&drain(&cb), &refused(eb), Some((&ib, &n("2"))));
    reach("c12_overlap");
}
/// Shutdowns on two connections that overlap.
#[no_mangle]
pub extern "C" fn h_c13_overlap() {
    quiet();
    let t = text(1, "t");
    let same_id = pick(2, "same") == 1;
    let gap = [0, 5, 29][pick(3, "gap") as usize];
    let (sa, ca) = Connection::memory();
    let (sb, cb) = Connection::memory();
    let (ka, kb) = (pick(2, "end_a"), pick(3, "end_b"));
    let (ia, ib) = (RequestId::from(1), RequestId::from(if same_id { 1 } else { 2 }));
    let jd = ia.clone();
    let h = std::thread::spawn(move || {
        let r = sa.handle_shutdown(&Request::Shutdown(jd));
        (matches!(r, Ok(true)), r.is_err(), sa)
    });
    settle();
    if gap > 0 {
        wait(gap);
    }
    match kb {
        0 => cb.send(msg(&traffic(10, b""))).unwrap(),
        1 => cb.send(msg(&traffic(5, &t))).unwrap(),
        _ => {
            let r = sb.handle_shutdown(&Request::WorkspaceReload(RequestId::from(7)));
            check(matches!(r, Ok(false)) && drain(&cb).is_empty(), "other requests are left alone");
            cb.send(msg(&traffic(10, b""))).unwrap();
        }
    }
    let r = sb.handle_shutdown(&Request::Shutdown(ib.clone()));
    check(matches!(r, Ok(true)) == (kb != 1) && r.is_err() == (kb == 1), "shutdown succeeds exactly when exit is the next message");
    ca.send(msg(&traffic([10, 0][ka as usize], &t))).unwrap();
    let (ok, err, _sa) = h.join().unwrap();
    check(ok == (ka == 0) && err == (ka == 1), "shutdown succeeds exactly when exit is the next message");
    for (c, id) in [(&ca, &ia), (&cb, &ib)] {
        let got = drain(c);
        check(
            got.len() == 1 && matches!(&got[0], Message::Response(r) if r.id == *id && r.error.is_none() && matches!(r.result, Some(serde_json::Value::Null))),
            "each shutdown is answered once, with a null result under its id",
        );
    }
    reach("c13_overlap");
}
