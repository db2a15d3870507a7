//! C18 conversions, channel delegates, accessors of messages; C19 payload
//! constructors, setters and getters.
use crate::c_payload::{is_s, subsets, view_notif, view_req};
use crate::drv::*;
use crate::env::speed;
use crate::json::*;
use crate::pay::*;
use crate::rt::*;
use bsp_server::types::*;
use bsp_server::*;
use lsp_types::TextDocumentIdentifier;
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::Value;
use std::time::{Duration, Instant};
use url::Url;

entries! { h_c18_request h_c18_notif h_c18_custom h_c18_memory h_c18_closed h_c18_full h_c18_timeout h_c18_errors h_c18_debug h_c18_server h_c18_clone h_c18_subsets h_c18_nsubsets h_c18_names h_c18_many h_c18_pingpong h_c18_wide h_c18_patience h_c18_edge
           h_c19_request h_c19_setters h_c19_twice h_c19_values h_c19_results h_c19_rtwice h_c19_rvalues h_c19_tags h_c19_words h_c19_parents }

fn to_j<T: Serialize>(v: &T) -> J {
    parse(serde_json::to_string(v).unwrap().as_bytes()).unwrap()
}
fn from_j<T: DeserializeOwned>(j: &J) -> T {
    serde_json::from_str(&st(&j.text())).unwrap()
}
/// `(id, params)` of every typed request becomes that request.
fn typed(k: usize, id: RequestId, w: &J) -> (Request, Message) {
    macro_rules! both {
        ($t:ty) => {
            (Request::from((id.clone(), from_j::<$t>(w))), Message::from((id, from_j::<$t>(w))))
        };
    }
    match k {
        0 => both!(InitializeBuild),
        1 => both!(BuildTargetDependencyModules),
        2 => both!(DebugSessionStart),
        3 => both!(BuildTargetSources),
        4 => both!(TextDocumentInverseSources),
        5 => both!(BuildTargetDependencySources),
        6 => both!(BuildTargetResources),
        7 => both!(BuildTargetRun),
        8 => both!(BuildTargetCompile),
        9 => both!(BuildTargetTest),
        _ => both!(BuildTargetCleanCache),
    }
}
#[no_mangle]
pub extern "C" fn h_c18_request() {
    quiet();
    let k = pick(REQS.len() as u32 + 3, "kind") as usize;
    let id = if pick(2, "id") == 0 { RequestId::from(u32s("i") as i32) } else { RequestId::from(st(&text(1, "i"))) };
    if k < REQS.len() {
        let (w, c) = Gen::fixed(pick(2, "mode")).object(REQS[k].1);
        let (r, m) = typed(k, id.clone(), &w);
        check(view_req(&r, k, &c), "a typed pair becomes its own request");
        check(r.method() == REQS[k].0, "the request names its method");
        check(*r.id() == id, "the request keeps its id");
        check(r.params().map_or(false, |v| same_val(&v, &c)), "params() is what goes on the wire");
        match &m {
            Message::Request(x) => check(view_req(x, k, &c) && *x.id() == id, "a typed pair becomes its own message"),
            _ => check(false, "a typed pair becomes a request message"),
        }
        match Message::from(r) {
            Message::Request(x) => check(view_req(&x, k, &c) && *x.id() == id, "a request becomes the message holding it"),
            _ => check(false, "a request becomes a request message"),
        }
    } else {
        let (r, me) = match k - REQS.len() {
            0 => (Request::Shutdown(id.clone()), "build/shutdown"),
            1 => (Request::WorkspaceBuildTargets(id.clone()), "workspace/buildTargets"),
            _ => (Request::WorkspaceReload(id.clone()), "workspace/reload"),
        };
        check(r.method() == me, "the request names its method");
        check(*r.id() == id, "the request keeps its id");
        check(matches!(r.params(), Ok(Value::Null)), "requests without params have null params");
        match Message::from(r) {
            Message::Request(x) => check(x.method() == me && *x.id() == id, "a request becomes the message holding it"),
            _ => check(false, "a request becomes a request message"),
        }
    }
    reach("c18_request");
}
#[no_mangle]
pub extern "C" fn h_c18_notif() {
    quiet();
    let k = pick(NOTIFS.len() as u32 + 2, "kind") as usize;
    if k < NOTIFS.len() {
        let (w, c) = Gen::fixed(pick(2, "mode")).object(NOTIFS[k].1);
        macro_rules! both {
            ($t:ty) => {
                (Notification::from(from_j::<$t>(&w)), Message::from(from_j::<$t>(&w)))
            };
        }
        let (r, m) = match k {
            0 => both!(ShowMessage),
            1 => both!(LogMessage),
            2 => both!(PublishDiagnostics),
            3 => both!(TaskStart),
            4 => both!(TaskFinish),
            5 => both!(TaskProgress),
            _ => both!(BuildTargetDidChange),
        };
        check(view_notif(&r, k, &c), "typed params become their own notification");
        check(r.method() == NOTIFS[k].0, "the notification names its method");
        for m in [m, r.into()] {
            match m {
                Message::Notification(x) => check(view_notif(&x, k, &c), "typed params become their own message"),
                _ => check(false, "typed params become a notification message"),
            }
        }
    } else {
        let e = k == NOTIFS.len();
        let me = if e { "build/exit" } else { "build/initialized" };
        let r = Notification::from(me);
        check(if e { matches!(r, Notification::Exit) } else { matches!(r, Notification::Initialized) }, "exit and initialized are made from their names");
        check(r.method() == me, "the notification names its method");
        match Message::from(r) {
            Message::Notification(x) => check(x.method() == me, "a notification becomes the message holding it"),
            _ => check(false, "a notification becomes a notification message"),
        }
    }
    reach("c18_notif");
}
/// Custom messages keep whatever method and params they are given.
#[no_mangle]
pub extern "C" fn h_c18_custom() {
    quiet();
    let me = leak(&text(pick(4, "len") as usize, "m"));
    let p = match pick(4, "params") {
        0 => J::Null,
        1 => J::Str(text(1, "p")),
        2 => obj(vec![("a", J::Arr(vec![n("1")]))]),
        _ => J::Bool(false),
    };
    let id = RequestId::from(3);
    let v = || to_val(&p);
    let r = Request::from((id.clone(), me, v()));
    check(matches!(&r, Request::Custom(i, m, x) if *i == id && *m == me && same_val(x, &p)), "a triple becomes a custom request");
    check(r.method() == me && *r.id() == id, "the request names its method");
    check(r.params().map_or(false, |x| same_val(&x, &p)), "params() is what goes on the wire");
    check(is_req(&Message::from((id, me, v())), &n("3"), me.as_bytes(), &p), "a triple becomes a custom request message");
    let r = Notification::from((me, v()));
    check(r.method() == me, "the notification names its method");
    check(matches!(&r, Notification::Custom(m, x) if *m == me && same_val(x, &p)), "a pair becomes a custom notification");
    check(is_notif(&Message::from((me, v())), me.as_bytes(), &p), "a pair becomes a custom notification message");
    reach("c18_custom");
}
fn note(i: u8, t: &[u8]) -> Message {
    let mut v = vec![i];
    v.extend_from_slice(t);
    Message::from(("x", Value::from(st(&v))))
}
fn is_note(m: &Message, i: u8, t: &[u8]) -> bool {
    let mut v = vec![i];
    v.extend_from_slice(t);
    is_notif(m, b"x", &J::Str(v))
}
fn send_by(c: &Connection, how: u32, m: Message) -> bool {
    match how {
        0 => c.send(m).is_ok(),
        1 => c.try_send(m).is_ok(),
        2 => c.send_timeout(m, Duration::from_secs(3)).is_ok(),
        _ => c.send_deadline(m, Instant::now() + Duration::from_secs(3)).is_ok(),
    }
}
/// The in-memory pair: what goes in at one end comes out at the other, in
/// order, whichever way it is sent.
#[no_mangle]
pub extern "C" fn h_c18_memory() {
    quiet();
    let t = text(1, "t");
    let (a, b) = Connection::memory();
    let (mut na, mut nb) = (0u8, 0u8);
    for _ in 0..3 {
        let how = pick(4, "how");
        if pick(2, "side") == 0 {
            check(send_by(&a, how, note(b'a' + na, &t)), "a live connection accepts messages");
            na += 1;
        } else {
            check(send_by(&b, how, note(b'm' + nb, &t)), "a live connection accepts messages");
            nb += 1;
        }
    }
    let xs: Vec<Message> = b.receiver.try_iter().collect();
    let ys: Vec<Message> = a.receiver.try_iter().collect();
    check(xs.len() == na as usize && ys.len() == nb as usize, "each message arrives once, at the other end");
    for (i, m) in xs.iter().enumerate() {
        check(is_note(m, b'a' + i as u8, &t), "messages arrive in the order they were sent");
    }
    for (i, m) in ys.iter().enumerate() {
        check(is_note(m, b'm' + i as u8, &t), "messages arrive in the order they were sent");
    }
    drop(a);
    check(b.receiver.recv().is_err(), "a dropped end ends delivery");
    check(b.send(note(0x7a, &t)).is_err(), "a dropped end refuses messages");
    reach("c18_memory");
}
/// A refused message is handed back.
#[no_mangle]
pub extern "C" fn h_c18_closed() {
    quiet();
    let t = text(1, "t");
    let (a, b) = Connection::memory();
    let kept = pick(2, "queued") == 1;
    if kept {
        check(b.send(note(b'q', &t)).is_ok(), "a live connection accepts messages");
    }
    drop(b);
    let t0 = Instant::now();
    let m = match pick(4, "how") {
        0 => a.send(note(b'k', &t)).err().map(|e| e.0),
        1 => match a.try_send(note(b'k', &t)) {
            Err(e) => {
                check(e.is_disconnected(), "a closed connection is told apart from a busy one");
                Some(e.into_inner())
            }
            Ok(()) => None,
        },
        2 => match a.send_timeout(note(b'k', &t), Duration::from_secs(9)) {
            Err(e) => {
                check(e.is_disconnected(), "a closed connection is told apart from a busy one");
                Some(e.into_inner())
            }
            Ok(()) => None,
        },
        _ => match a.send_deadline(note(b'k', &t), Instant::now() + Duration::from_secs(9)) {
            Err(e) => {
                check(e.is_disconnected(), "a closed connection is told apart from a busy one");
                Some(e.into_inner())
            }
            Ok(()) => None,
        },
    };
    check(t0.elapsed() < Duration::from_secs(5), "a closed connection refuses at once");
    check(m.map_or(false, |m| is_note(&m, b'k', &t)), "a closed connection refuses messages and hands them back");
    if kept {
        check(a.receiver.recv().map_or(false, |m| is_note(&m, b'q', &t)), "what was sent before the end was dropped still arrives");
    }
    check(a.receiver.recv().is_err(), "a dropped end ends delivery");
    reach("c18_closed");
}
/// A connection whose peer end is full: bounded channels of the transports.
fn bounded(cap: usize) -> (Connection, crossbeam_channel::Receiver<Message>) {
    let (s, r) = crossbeam_channel::bounded(cap);
    let (_keep, r2) = crossbeam_channel::bounded(0);
    std::mem::forget(_keep);
    (Connection { sender: s, receiver: r2 }, r)
}
#[no_mangle]
pub extern "C" fn h_c18_full() {
    quiet();
    let t = text(1, "t");
    let cap = pick(3, "cap") as usize;
    let (c, r) = bounded(cap);
    for i in 0..cap {
        check(c.try_send(note(b'a' + i as u8, &t)).is_ok(), "try_send succeeds while there is room");
    }
    let t0 = Instant::now();
    match c.try_send(note(b'k', &t)) {
        Ok(()) => check(false, "try_send refuses when there is no room"),
        Err(e) => {
            check(e.is_full(), "a busy connection is told apart from a closed one");
            check(is_note(&e.into_inner(), b'k', &t), "a busy connection hands the message back");
        }
    }
    check(t0.elapsed() < Duration::from_secs(1), "try_send never waits");
    let got: Vec<Message> = r.try_iter().collect();
    check(got.len() == cap, "each message arrives once, at the other end");
    for (i, m) in got.iter().enumerate() {
        check(is_note(m, b'a' + i as u8, &t), "messages arrive in the order they were sent");
    }
    reach("c18_full");
}
/// Timeouts and deadlines are kept, and a receiver that comes in time is met.
#[no_mangle]
pub extern "C" fn h_c18_timeout() {
    quiet();
    let t = text(1, "t");
    let dl = pick(2, "deadline") == 1;
    let cap = pick(2, "cap") as usize;
    let met = pick(2, "met") == 1;
    let (c, r) = bounded(cap);
    for _ in 0..cap {
        check(c.try_send(note(b'a', &t)).is_ok(), "try_send succeeds while there is room");
    }
    let h = std::thread::spawn(move || {
        std::thread::sleep(Duration::from_millis(if met { 200 } else { 2500 }));
        let mut v = vec![];
        if met {
            for _ in 0..cap + 1 {
                v.push(r.recv_timeout(Duration::from_secs(5)).ok());
            }
        } else {
            for m in r.try_iter() {
                v.push(Some(m));
            }
        }
        v
    });
    let t0 = Instant::now();
    let d = Duration::from_secs(1);
    let e = if dl { c.send_deadline(note(b'k', &t), t0 + d).err() } else { c.send_timeout(note(b'k', &t), d).err() };
    let took = t0.elapsed();
    if met {
        check(e.is_none(), "a message is accepted when there is room in time");
        check(took < d, "sending returns as soon as there is room");
    } else {
        check(took >= d && took < d + Duration::from_millis(800), "sending waits exactly until its deadline");
        match e {
            None => check(false, "sending gives up at its deadline"),
            Some(e) => {
                check(e.is_timeout(), "a busy connection is told apart from a closed one");
                check(is_note(&e.into_inner(), b'k', &t), "a busy connection hands the message back");
            }
        }
    }
    let v = h.join().unwrap();
    check(v.len() == cap + met as usize, "each message arrives once, at the other end");
    if met {
        check(v.last().unwrap().as_ref().map_or(false, |m| is_note(m, b'k', &t)), "messages arrive in the order they were sent");
    }
    reach("c18_timeout");
}
/// The same however long sending may take.
#[no_mangle]
pub extern "C" fn h_c18_patience() {
    quiet();
    let t = text(1, "t");
    let dl = pick(2, "deadline") == 1;
    let cap = pick(3, "cap") as usize;
    let limit = [20u64, 90, 4000][pick(3, "limit") as usize];
    let after = limit * [1, 3, 7, 20][pick(4, "after") as usize] / 10;
    let met = after < limit;
    let (c, r) = bounded(cap);
    for _ in 0..cap {
        check(c.try_send(note(b'a', &t)).is_ok(), "try_send succeeds while there is room");
    }
    speed(if limit == 20 { 10 } else if limit == 90 { 50 } else { 1000 });
    let h = std::thread::spawn(move || {
        std::thread::sleep(Duration::from_secs(after));
        let mut v = vec![];
        for _ in 0..cap + met as usize {
            v.push(r.recv_timeout(Duration::from_secs(limit)).ok());
        }
        v
    });
    let t0 = Instant::now();
    let d = Duration::from_secs(limit);
    let e = if dl { c.send_deadline(note(b'k', &t), t0 + d).err() } else { c.send_timeout(note(b'k', &t), d).err() };
    let took = t0.elapsed();
    let v = h.join().unwrap();
    speed(1);
    check(v.iter().flatten().count() == cap + met as usize, "each message arrives once, at the other end");
    if met {
        check(e.is_none(), "a message is accepted when there is room in time");
        check(v.last().and_then(|m| m.as_ref()).map_or(false, |m| is_note(m, b'k', &t)), "messages arrive in the order they were sent");
    } else {
        check(took >= d, "sending waits exactly until its deadline");
        check(e.map_or(false, |e| e.is_timeout() && is_note(&e.into_inner(), b'k', &t)), "a busy connection hands the message back");
    }
    reach("c18_patience");
}
fn holds(hay: &str, what: &[u8]) -> bool {
    hay.as_bytes().windows(what.len()).any(|w| w == what)
}
/// Errors say what they are about.
#[no_mangle]
pub extern "C" fn h_c18_errors() {
    quiet();
    let mut m = b"mm/".to_vec();
    m.extend_from_slice(&text(1, "m"));
    let je = || serde_json::from_str::<u8>("x").unwrap_err();
    let d = match pick(5, "error") {
        0 => format!("{}", ExtractError::MethodMismatch(Request::Custom(RequestId::from(1), leak(&m), Value::Null))),
        1 => format!("{}", ExtractError::MethodMismatch(Notification::Custom(leak(&m), Value::Null))),
        2 => format!("{}", ExtractError::<Request>::JsonError { method: st(&m), error: je() }),
        3 => format!("{}", ExtractError::<Notification>::JsonError { method: st(&m), error: je() }),
        _ => format!("{}", ProtocolError::from(anyhow::Error::msg(st(&m)))),
    };
    check(holds(&d, &m), "errors name the method they are about");
    reach("c18_errors");
}
/// Debug output of any message, which the library itself logs, never fails.
#[no_mangle]
pub extern "C" fn h_c18_debug() {
    quiet();
    let k = pick(REQS.len() as u32 + NOTIFS.len() as u32 + 4, "kind") as usize;
    let id = RequestId::from("dbg".to_string());
    let r = REQS.len();
    let m: Message = if k < r {
        typed(k, id, &Gen::fixed(0).object(REQS[k].1).0).1
    } else if k < r + NOTIFS.len() {
        let (me, ms) = NOTIFS[k - r];
        from_j(&obj(vec![("method", s(me)), ("params", Gen::fixed(0).object(ms).0)]))
    } else {
        match k - r - NOTIFS.len() {
            0 => Request::Shutdown(id).into(),
            1 => (id, "dbg", Value::Null).into(),
            2 => Response::ok(id, "dbg").into(),
            _ => ("dbg", Value::Null).into(),
        }
    };
    let d = format!("{:?}", m);
    check(!d.is_empty(), "every message has a debug form");
    if let Message::Request(_) = m {
        check(holds(&d, b"dbg"), "the debug form of a request names its id");
    }
    reach("c18_debug");
}
/// Debug output and error texts of long wide texts.
#[no_mangle]
pub extern "C" fn h_c18_wide() {
    quiet();
    let t = wide([90, 1100, 5000][pick(3, "size") as usize]);
    let js = J::Str(t.clone());
    let pretty = pick(2, "pretty") == 1;
    let dbg = |m: &Message| if pretty { format!("{:#?}", m) } else { format!("{:?}", m) };
    let d = match pick(10, "kind") {
        0 => dbg(&(RequestId::from(1), "x", Value::from(st(&t))).into()),
        1 => dbg(&(RequestId::from(1), leak(&t), Value::Null).into()),
        2 => dbg(&(RequestId::from(st(&t)), "x", Value::Null).into()),
        3 => dbg(&("x", Value::from(st(&t))).into()),
        4 => dbg(&Response::ok(1.into(), st(&t)).into()),
        5 => dbg(&Response::err(1.into(), 1, st(&t)).into()),
        6 => dbg(&LogMessage::new(MessageType::Log, st(&t), None, None).into()),
        7 => format!("{}", RequestId::from(st(&t))),
        8 => format!("{}", ExtractError::MethodMismatch(Request::Custom(RequestId::from(1), leak(&t), Value::Null))),
        _ => dbg(&from_j(&obj(vec![("id", js.clone()), ("method", s("buildTarget/run")), ("params", obj(vec![("target", obj(vec![("uri", s("a:b"))])), ("arguments", js)]))]))),
    };
    check(holds(&d, &t[..60]), "the debug form of a message shows its texts");
    reach("c18_wide");
}
struct Plain;
impl BuildServer for Plain {
    fn initialize(&self, p: InitializeBuild) -> anyhow::Result<InitializeBuildResult> {
        Ok(InitializeBuildResult::new_simple(p.display_name(), "1", "2", ServerCapabilities::default()))
    }
}
/// The defaults of the server trait: empty results.
#[no_mangle]
pub extern "C" fn h_c18_server() {
    quiet();
    let p = Plain;
    let tid: BuildTargetIdentifier = from_j(&obj(vec![("uri", s("file:///w"))]));
    let doc = TextDocumentIdentifier { uri: Url::parse("file:///w").unwrap() };
    let items = obj(vec![("items", J::Arr(vec![]))]);
    let targets = obj(vec![("targets", J::Arr(vec![]))]);
    let (got, want) = match pick(8, "method") {
        0 => (to_j(&p.build_shutdown().unwrap()), J::Null),
        1 => (to_j(&p.workspace_bts().unwrap()), targets),
        2 => (to_j(&p.workspace_reload().unwrap()), J::Null),
        3 => (to_j(&p.bt_sources(BuildTargetSources::new(vec![tid])).unwrap()), items),
        4 => (to_j(&p.bt_inverse_sources(TextDocumentInverseSources::new(doc)).unwrap()), targets),
        5 => (to_j(&p.bt_dependency_sources(BuildTargetDependencySources::new(doc)).unwrap()), items),
        6 => (to_j(&p.bt_resources(BuildTargetResources::new(vec![tid])).unwrap()), items),
        _ => {
            p.on_initializtion();
            p.on_build_exit();
            let i = p.initialize(from_j(&Gen::fixed(0).object(REQS[0].1).0)).unwrap();
            check(i.version() == "1", "the server's own methods are used");
            (J::Null, J::Null)
        }
    };
    check(got.same(&want), "default server methods answer with empty results");
    reach("c18_server");
}
/// A clone is the same message.
#[no_mangle]
pub extern "C" fn h_c18_clone() {
    quiet();
    let t = text(1, "t");
    let j = match pick(5, "kind") {
        0 => obj(vec![("id", n("1")), ("method", J::Str(t.clone())), ("params", J::Str(t))]),
        1 => obj(vec![("method", J::Str(t.clone())), ("params", J::Str(t))]),
        2 => obj(vec![("id", J::Str(t.clone())), ("result", J::Arr(vec![J::Str(t)]))]),
        3 => obj(vec![("id", n("1")), ("error", obj(vec![("code", n("5")), ("message", J::Str(t)), ("data", J::Bool(true))]))]),
        _ => obj(vec![("method", s("build/showMessage")), ("params", obj(vec![("type", n("2")), ("message", J::Str(t))]))]),
    };
    let m: Message = from_j(&j);
    let c = m.clone();
    check(to_j(&m).same(&to_j(&c)), "a clone is the same message");
    check(to_j(&c).same(&j), "a clone is the same message");
    reach("c18_clone");
}
/// Requests with any of their members left out.
#[no_mangle]
pub extern "C" fn h_c18_subsets() {
    quiet();
    let k = pick(REQS.len() as u32, "kind") as usize;
    let (w, c) = subsets().object(REQS[k].1);
    let id = RequestId::from(st(&text(1, "i")));
    let (r, m) = typed(k, id.clone(), &w);
    check(view_req(&r, k, &c), "a typed pair becomes its own request");
    check(r.params().map_or(false, |v| same_val(&v, &c)), "params() is what goes on the wire");
    let r2 = r.clone();
    check(view_req(&r2, k, &c) && *r2.id() == id && r2.method() == REQS[k].0, "a clone is the same message");
    let want = obj(vec![("id", to_j(&id)), ("method", s(REQS[k].0)), ("params", c)]);
    for m in [m.clone(), m, Message::from(r2), Message::from(r)] {
        check(matches!(&m, Message::Request(_)), "a typed pair becomes a request message");
        check(to_j(&m).same(&want), "a message is written as what it was made from");
    }
    reach("c18_subsets");
}
/// Notifications with any of their members left out.
#[no_mangle]
pub extern "C" fn h_c18_nsubsets() {
    quiet();
    let k = pick(NOTIFS.len() as u32, "kind") as usize;
    let (w, c) = subsets().object(NOTIFS[k].1);
    let m: Message = from_j(&obj(vec![("method", s(NOTIFS[k].0)), ("params", w)]));
    let want = obj(vec![("method", s(NOTIFS[k].0)), ("params", c.clone())]);
    let m2 = m.clone();
    for m in [m, m2] {
        check(to_j(&m).same(&want), "a clone is the same message");
        match m {
            Message::Notification(x) => {
                let y = x.clone();
                check(x.method() == NOTIFS[k].0 && y.method() == NOTIFS[k].0, "the notification names its method");
                check(view_notif(&x, k, &c) && view_notif(&y, k, &c), "a clone is the same message");
                check(to_j(&Message::from(y)).same(&want), "a notification becomes the message holding it");
            }
            _ => check(false, "typed params become a notification message"),
        }
    }
    reach("c18_nsubsets");
}
/// Names that mean something elsewhere are only names here.
#[no_mangle]
pub extern "C" fn h_c18_names() {
    quiet();
    const MORE: [&str; 8] = ["build/shutdown", "workspace/buildTargets", "workspace/reload", "build/exit", "build/initialized", "$/cancelRequest", "window/\u{e9}", ""];
    let k = pick((REQS.len() + NOTIFS.len() + MORE.len()) as u32, "name") as usize;
    let me = if k < REQS.len() {
        REQS[k].0
    } else if k < REQS.len() + NOTIFS.len() {
        NOTIFS[k - REQS.len()].0
    } else {
        MORE[k - REQS.len() - NOTIFS.len()]
    };
    let t = text(1, "t");
    let p = if pick(2, "p") == 0 { J::Null } else { obj(vec![("targets", J::Arr(vec![J::Str(t.clone())]))]) };
    let id = RequestId::from(st(&t));
    let v = || to_val(&p);
    let r = Request::from((id.clone(), me, v()));
    check(matches!(&r, Request::Custom(i, m, x) if *i == id && *m == me && same_val(x, &p)), "a triple becomes a custom request");
    check(r.method() == me && *r.id() == id, "the request names its method");
    check(r.params().map_or(false, |x| same_val(&x, &p)), "params() is what goes on the wire");
    let mut want = obj(vec![("id", J::Str(t)), ("method", s(me))]);
    if !matches!(p, J::Null) {
        want = want.with("params", p.clone());
    }
    // null params may be left out
    let clean = |j: J| if matches!(j.get("params"), Some(J::Null)) { j.without("params") } else { j };
    check(clean(to_j(&Message::from(r.clone()))).same(&want) && clean(to_j(&Message::from((id, me, v())))).same(&want), "a message is written as what it was made from");
    let x = Notification::from((me, v()));
    check(matches!(&x, Notification::Custom(m, x) if *m == me && same_val(x, &p)), "a pair becomes a custom notification");
    check(x.method() == me, "the notification names its method");
    check(clean(to_j(&Message::from((me, v())))).same(&want.without("id")), "a message is written as what it was made from");
    reach("c18_names");
}
/// Far more messages than anything holds elsewhere.
#[no_mangle]
pub extern "C" fn h_c18_many() {
    quiet();
    let t = text(1, "t");
    let len = [33, 130, 1100][pick(3, "len") as usize];
    let how = pick(5, "how");
    let back = pick(2, "back") == 1;
    let (a, b) = Connection::memory();
    let (a, b) = if back { (b, a) } else { (a, b) };
    for i in 0..len as u32 {
        let m = (RequestId::from(i as i32), "x", Value::from(st(&t))).into();
        check(send_by(&a, if how == 4 { i % 4 } else { how }, m), "a live connection accepts messages");
    }
    let ms: Vec<Message> = b.receiver.try_iter().collect();
    check(ms.len() == len, "each message arrives once, at the other end");
    let mut ok = true;
    for (i, m) in ms.iter().enumerate() {
        ok &= is_req(m, &J::Num(dec(i)), b"x", &J::Str(t.clone()));
    }
    check(ok, "messages arrive in the order they were sent");
    check(a.receiver.try_recv().is_err(), "each message arrives once, at the other end");
    reach("c18_many");
}
/// Question and answer, over and over.
#[no_mangle]
pub extern "C" fn h_c18_pingpong() {
    quiet();
    let len = [30, 300][pick(2, "len") as usize];
    let how = pick(4, "how");
    let threads = pick(2, "threads") == 1;
    let (a, b) = Connection::memory();
    let echo = move |b: &Connection, n: usize| {
        for _ in 0..n {
            match b.receiver.recv() {
                Ok(Message::Request(r)) => check(b.send(Response::ok(r.id().clone(), r.params().unwrap())).is_ok(), "a live connection accepts messages"),
                _ => check(false, "messages arrive in the order they were sent"),
            }
        }
    };
    let mut b = Some(b);
    let h = if threads {
        let b = b.take().unwrap();
        Some(std::thread::spawn(move || echo(&b, len)))
    } else {
        None
    };
    for i in 0..len {
        let m = (RequestId::from(i as i32), "x", Value::from(i as u64)).into();
        check(send_by(&a, how, m), "a live connection accepts messages");
        if let Some(b) = &b {
            echo(b, 1);
        }
        match a.receiver.recv_timeout(Duration::from_secs(20)) {
            Ok(m) => check(is_ok(&m, &J::Num(dec(i)), &J::Num(dec(i))), "messages arrive in the order they were sent"),
            Err(_) => check(false, "each message arrives once, at the other end"),
        }
    }
    if let Some(h) = h {
        check(h.join().is_ok(), "harness: echo");
    }
    check(a.receiver.try_recv().is_err(), "each message arrives once, at the other end");
    reach("c18_pingpong");
}

// ------------------------------------------------------------------ C19
fn url(c: u8) -> Url {
    Url::parse(&st(&[b"file:///w/", &[c][..]].concat())).unwrap()
}
fn tid(c: u8) -> BuildTargetIdentifier {
    BuildTargetIdentifier::new(url(c))
}
fn uj(c: u8) -> J {
    J::Str([b"file:///w/", &[c][..]].concat())
}
fn tj(c: u8) -> J {
    obj(vec![("uri", uj(c))])
}
fn doc(c: u8) -> TextDocumentIdentifier {
    TextDocumentIdentifier { uri: url(c) }
}
/// Every argument of a constructor lands in its own member.
#[no_mangle]
pub extern "C" fn h_c19_request() {
    quiet();
    let t = text(2, "t");
    let u = text(2, "u");
    let v = text(2, "v");
    let w = text(2, "w");
    let (ts, us, vs, ws) = (st(&t), st(&u), st(&v), st(&w));
    let (tt, uu, vv, ww) = (J::Str(t), J::Str(u), J::Str(v), J::Str(w));
    let arr = |l: &[u8]| J::Arr(l.iter().map(|c| tj(*c)).collect());
    let (got, want) = match pick(17, "ctor") {
        0 => (
            to_j(&InitializeBuild::new(ts, us, vs, url(b'a'), ClientCapabilities::new(vec![ws]), Value::Bool(true))),
            obj(vec![
                ("displayName", tt),
                ("version", uu),
                ("bspVersion", vv),
                ("rootUri", uj(b'a')),
                ("capabilities", obj(vec![("languageIds", J::Arr(vec![ww]))])),
                ("data", J::Bool(true)),
            ]),
        ),
        1 => (
            to_j(&InitializeBuild::new_simple(ts, us, vs, url(b'a'), ClientCapabilities::new(vec![]))),
            obj(vec![
                ("displayName", tt),
                ("version", uu),
                ("bspVersion", vv),
                ("rootUri", uj(b'a')),
                ("capabilities", obj(vec![("languageIds", J::Arr(vec![]))])),
            ]),
        ),
        2 => (to_j(&BuildTargetCompile::new_simple(tid(b'a'))), obj(vec![("target", tj(b'a'))])),
        3 => (
            to_j(&BuildTargetCompile::new(tid(b'a'), Some(ts), Some(us))),
            obj(vec![("target", tj(b'a')), ("originId", tt), ("arguments", uu)]),
        ),
        4 => (to_j(&BuildTargetRun::new_simple(tid(b'a'))), obj(vec![("target", tj(b'a'))])),
        5 => (
            to_j(&BuildTargetRun::new(tid(b'a'), Some(ts), Some(us), Some(vs), Some(Value::from(ws)))),
            obj(vec![("target", tj(b'a')), ("originId", tt), ("arguments", uu), ("dataKind", vv), ("data", ww)]),
        ),
        6 => (to_j(&BuildTargetTest::new_simple(tid(b'a'))), obj(vec![("target", tj(b'a'))])),
        7 => (
            to_j(&BuildTargetTest::new(tid(b'a'), Some(ts), Some(us), Some(vs), Some(Value::from(ws)))),
            obj(vec![("target", tj(b'a')), ("originId", tt), ("arguments", uu), ("dataKind", vv), ("data", ww)]),
        ),
        8 => (to_j(&BuildTargetDependencySources::new(doc(b'a'))), obj(vec![("textDocument", tj(b'a'))])),
        9 => (to_j(&TextDocumentInverseSources::new(doc(b'a'))), obj(vec![("textDocument", tj(b'a'))])),
        10 => (to_j(&BuildTargetResources::new(vec![tid(b'a'), tid(b'b')])), obj(vec![("targets", arr(b"ab"))])),
        11 => (to_j(&BuildTargetSources::new(vec![tid(b'b'), tid(b'a')])), obj(vec![("targets", arr(b"ba"))])),
        12 => (
            to_j(&DebugSessionStart::new(vec![tid(b'a')], ts, Value::from(us))),
            obj(vec![("targets", arr(b"a")), ("dataKind", tt), ("data", uu)]),
        ),
        13 => (
            to_j(&InitializeBuildResult::new(ts, us, vs, ServerCapabilities::default(), Value::from(ws))),
            obj(vec![("displayName", tt), ("version", uu), ("bspVersion", vv), ("capabilities", obj(vec![])), ("data", ww)]),
        ),
        14 => (to_j(&TaskId::new(ts, vec![us, vs])), obj(vec![("id", tt), ("parents", J::Arr(vec![uu, vv]))])),
        15 => (
            to_j(&ShowMessage::new(MessageType::Warning, vs, Some(TaskId::from(ts)), Some(us))),
            obj(vec![("type", n("2")), ("task", obj(vec![("id", tt)])), ("originId", uu), ("message", vv)]),
        ),
        _ => (
            to_j(&LogMessage::new(MessageType::Info, vs, Some(TaskId::from(ts)), Some(us))),
            obj(vec![("type", n("3")), ("task", obj(vec![("id", tt)])), ("originId", uu), ("message", vv)]),
        ),
    };
    check(got.same(&want), "every constructor argument lands in its own member");
    reach("c19_request");
}
/// A setter changes its own member and nothing else, and the getter shows it.
macro_rules! sets {
    ($b:expr, $i:expr; $( $name:literal, $val:expr, |$x:ident| $set:expr, $get:expr );* $(;)?) => {{
        let mut v = $b;
        let mut want = to_j(&v);
        for at in $i.iter().copied() {
            let mut k = 0u32;
            $(
                if at == k {
                    { let $x = &mut v; $set; }
                    want = want.without($name).with($name, $val);
                    check(full_j(to_j(&v)).same(&full_j(want.clone())), "a setter changes its own member and no other");
                    { let $x = &mut v; check($get, "a getter shows what was set"); }
                }
                k += 1;
            )*
            assume(at < k);
        }
        let _ = (&mut v, &mut want);
    }};
}
/// An absent member may be spelt out as null; versions that are empty are left out.
fn full_j(j: J) -> J {
    let gone = |k: &[u8], x: &J| match x {
        J::Null => true,
        J::Str(t) => t.is_empty() && (k == b"version" || k == b"bspVersion"),
        _ => false,
    };
    match j {
        J::Obj(v) => J::Obj(v.into_iter().filter(|(k, x)| !gone(k, x)).collect()),
        j => j,
    }
}
/// What setters are applied to, how often and with which values.
struct How {
    t: Vec<u8>,
    base: Gen,
    at: Vec<u32>,
    none: bool,
    list: Vec<u8>,
}
impl How {
    fn one() -> How {
        How { t: text(2, "t"), base: Gen::fixed(0), at: vec![pick(10, "member")], none: false, list: b"xy".to_vec() }
    }
    fn two(sub: bool) -> How {
        let at = vec![pick(10, "member"), pick(10, "then")];
        let mut base = if sub { subsets() } else { Gen::fixed(pick(2, "mode")) };
        base.plain = true;
        base.flat = true;
        How { t: text(1, "t"), base, at, none: false, list: b"x".to_vec() }
    }
    fn values() -> How {
        let at = vec![pick(10, "member")];
        let mut base = Gen::fixed(pick(2, "mode"));
        base.plain = true;
        base.flat = true;
        let (n, none, list) = match pick(8, "values") {
            0 => (0, false, &b"x"[..]),
            1 => (40, false, &b""[..]),
            2 => (3, false, &b"xx"[..]),
            3 => (1, false, &b"yx"[..]),
            4 => (300, false, &b"zyxabc"[..]),
            5 => (7, false, &b"abababababababababab"[..]),
            6 => (1, true, &b"x"[..]),
            _ => (17, false, &b"qwertzuiopasdfghj"[..]),
        };
        How { t: text(n, "t"), base, at, none, list: list.to_vec() }
    }
}
fn setters(how: How) {
    let How { t, mut base, at, none, list: l } = how;
    let ts = st(&t);
    let tt = J::Str(t);
    let val = Value::from(ts.clone());
    let some = if none { None } else { Some(ts.clone()) };
    let sj = if none { J::Null } else { tt.clone() };
    let sv = if none { None } else { Some(val.clone()) };
    let ty = pick(11, "type");
    let i = &at;
    let arr = || J::Arr(l.iter().map(|c| tj(*c)).collect());
    let ids = || l.iter().map(|c| tid(*c)).collect::<Vec<_>>();
    let is_ids = |v: &[BuildTargetIdentifier]| v.len() == l.len() && v.iter().zip(&l).all(|(a, c)| is_s(a.uri(), Some(&uj(*c))));
    let mut full = |k: usize| base.object(REQS[k].1).0;
    match ty {
        0 => sets! { from_j::<InitializeBuild>(&full(0)), i;
            "displayName", tt.clone(), |v| v.set_display_name(ts.clone()), v.display_name() == ts;
            "version", tt.clone(), |v| v.set_version(ts.clone()), v.version() == ts;
            "bspVersion", tt.clone(), |v| v.set_bsp_version(ts.clone()), v.bsp_version() == ts;
            "rootUri", uj(b'x'), |v| v.set_root_uri(url(b'x')), v.root_uri().as_str() == "file:///w/x" && v.root_path().to_str() == Some("/w/x");
            "capabilities", obj(vec![("languageIds", J::Arr(vec![tt.clone()]))]), |v| v.set_capabilities(ClientCapabilities::new(vec![ts.clone()])), v.capabilities().language_ids() == [ts.clone()];
            "data", sj.clone(), |v| v.set_data(sv.clone()), v.data() == sv.as_ref();
        },
        1 => sets! { from_j::<BuildTargetDependencyModules>(&full(1)), i;
            "targets", arr(), |v| v.set_targets(ids()), is_ids(v.targets());
            "targets", arr(), |v| *v.targets_mut() = ids(), is_ids(v.targets()) && v.is_empty() == l.is_empty();
            "targets", J::Arr(vec![]), |v| v.set_targets(vec![]), v.is_empty();
        },
        2 => sets! { from_j::<DebugSessionStart>(&full(2)), i;
            "targets", arr(), |v| v.set_targets(ids()), is_ids(v.targets());
            "dataKind", tt.clone(), |v| v.set_data_kind(ts.clone()), v.data_kind() == ts;
            "data", tt.clone(), |v| v.set_data(val.clone()), *v.data() == val;
        },
        3 => sets! { from_j::<BuildTargetSources>(&full(3)), i;
            "targets", arr(), |v| v.set_targets(ids()), is_ids(v.targets());
        },
        4 => sets! { from_j::<TextDocumentInverseSources>(&full(4)), i;
            "textDocument", tj(b'x'), |v| v.set_text_document(doc(b'x')), *v.text_document() == doc(b'x');
        },
        5 => sets! { from_j::<BuildTargetDependencySources>(&full(5)), i;
            "textDocument", tj(b'x'), |v| v.set_text_document(doc(b'x')), *v.text_document() == doc(b'x');
        },
        6 => sets! { from_j::<BuildTargetResources>(&full(6)), i;
            "targets", arr(), |v| v.set_targets(ids()), is_ids(v.targets());
            "targets", arr(), |v| *v.targets_mut() = ids(), is_ids(v.targets());
        },
        7 => sets! { from_j::<BuildTargetRun>(&full(7)), i;
            "target", tj(b'x'), |v| v.set_target(tid(b'x')), v.target().uri() == "file:///w/x";
            "originId", sj.clone(), |v| v.set_origin_id(some.clone()), v.origin_id() == some.as_ref();
            "arguments", sj.clone(), |v| v.set_arguments(some.clone()), v.arguments() == some.as_ref();
            "dataKind", sj.clone(), |v| v.set_data_kind(some.clone()), v.data_kind() == some.as_ref();
            "data", sj.clone(), |v| v.set_data(sv.clone()), v.data() == sv.as_ref();
        },
        8 => sets! { from_j::<BuildTargetCompile>(&full(8)), i;
            "target", tj(b'x'), |v| v.set_target(tid(b'x')), v.target().uri() == "file:///w/x";
            "originId", sj.clone(), |v| v.set_origin_id(some.clone()), v.origin_id() == some.as_ref();
            "arguments", sj.clone(), |v| v.set_arguments(some.clone()), v.arguments() == some.as_ref();
        },
        9 => sets! { from_j::<BuildTargetTest>(&full(9)), i;
            "target", tj(b'x'), |v| v.set_target(tid(b'x')), v.target().uri() == "file:///w/x";
            "originId", sj.clone(), |v| v.set_origin_id(some.clone()), v.origin_id() == some.as_ref();
            "arguments", sj.clone(), |v| v.set_arguments(some.clone()), v.arguments() == some.as_ref();
            "dataKind", sj.clone(), |v| v.set_data_kind(some.clone()), v.data_kind() == some.as_ref();
            "data", sj.clone(), |v| v.set_data(sv.clone()), v.data() == sv.as_ref();
        },
        _ => sets! { from_j::<BuildTargetCleanCache>(&full(10)), i;
            "targets", arr(), |v| v.set_targets(ids()), is_ids(v.targets());
            "targets", arr(), |v| *v.targets_mut() = ids(), is_ids(v.targets()) && v.is_empty() == l.is_empty();
            "targets", J::Arr(vec![]), |v| v.set_targets(vec![]), v.is_empty();
        },
    }
}
#[no_mangle]
pub extern "C" fn h_c19_setters() {
    quiet();
    setters(How::one());
    reach("c19_setters");
}
#[no_mangle]
pub extern "C" fn h_c19_twice() {
    quiet();
    setters(How::two(true));
    reach("c19_twice");
}
#[no_mangle]
pub extern "C" fn h_c19_values() {
    quiet();
    setters(How::values());
    reach("c19_values");
}
fn results(how: How) {
    let How { t, mut base, at, none, list: l } = how;
    let ts = st(&t);
    let tt = J::Str(t);
    let val = Value::from(ts.clone());
    let some = if none { None } else { Some(ts.clone()) };
    let sj = if none { J::Null } else { tt.clone() };
    let sv = if none { None } else { Some(val.clone()) };
    let ty = pick(14, "type");
    let i = &at;
    let mut full = |ms: &[M]| base.object(ms).0;
    let strs = J::Arr(std::iter::once(tt.clone()).chain(l.iter().map(|c| J::Str(vec![*c]))).collect());
    let list: Vec<String> = std::iter::once(ts.clone()).chain(l.iter().map(|c| st(&[*c]))).collect();
    match ty {
        0 => sets! { from_j::<InitializeBuildResult>(&full(INITRES)), i;
            "displayName", tt.clone(), |v| v.set_display_name(ts.clone()), v.display_name() == ts;
            "version", tt.clone(), |v| v.set_version(ts.clone()), v.version() == ts;
            "bspVersion", tt.clone(), |v| v.set_bsp_version(ts.clone()), v.bsp_version() == ts;
            "capabilities", obj(vec![]), |v| v.set_capabilities(ServerCapabilities::default()), v.capabilities().can_reload().is_none();
            "data", sj.clone(), |v| v.set_data(sv.clone()), v.data() == sv.as_ref();
            "data", sj.clone(), |v| *v.data_mut() = sv.clone(), v.data() == sv.as_ref();
        },
        1 => sets! { from_j::<ServerCapabilities>(&full(CAPS)), i;
            "compileProvider", obj(vec![("languageIds", strs.clone())]), |v| v.set_compile_provider(Some(CompileProvider { language_ids: list.clone() })), v.compile_provider().map_or(false, |p| p.language_ids == list);
            "testProvider", obj(vec![("languageIds", strs.clone())]), |v| v.set_test_provider(Some(TestProvider { language_ids: list.clone() })), v.test_provider().map_or(false, |p| p.language_ids == list);
            "runProvider", obj(vec![("languageIds", strs.clone())]), |v| v.set_run_provider(Some(RunProvider { language_ids: list.clone() })), v.run_provider().map_or(false, |p| p.language_ids == list);
            "debugProvider", obj(vec![("languageIds", strs.clone())]), |v| v.set_debug_provider(Some(DebugProvider { language_ids: list.clone() })), v.debug_provider().map_or(false, |p| p.language_ids == list);
            "inverseSourcesProvider", J::Bool(true), |v| v.set_inverse_sources_provider(Some(true)), v.inverse_sources_provider() == Some(true);
            "dependencySourcesProvider", J::Bool(true), |v| v.set_dependency_sources_provider(Some(true)), v.dependency_sources_provider() == Some(true);
            "dependencyModulesProvider", J::Bool(true), |v| v.set_dependency_modules_provider(Some(true)), v.dependency_modules_provider() == Some(true);
            "resourcesProvider", J::Bool(true), |v| v.set_resources_provider(Some(true)), v.resources_provider() == Some(true);
            "canReload", J::Bool(true), |v| v.set_can_reload(Some(true)), v.can_reload() == Some(true);
            "buildTargetChangedProvider", J::Bool(true), |v| v.set_build_target_changed_provider(Some(true)), v.build_target_changed_provider() == Some(true);
        },
        2 => sets! { BuildTargetCapabilities::default(), i;
            "canCompile", J::Bool(true), |v| v.set_can_compile(true), v.can_compile();
            "canTest", J::Bool(true), |v| v.set_can_test(true), v.can_test();
            "canRun", J::Bool(true), |v| v.set_can_run(true), v.can_run();
            "canDebug", J::Bool(true), |v| v.set_can_debug(true), v.can_debug();
        },
        3 => sets! { from_j::<BuildTargetCleanCacheResult>(&full(CLEANRES)), i;
            "message", sj.clone(), |v| v.set_message(some.clone()), v.message() == some.as_ref();
            "cleaned", J::Bool(true), |v| v.set_cleaned(true), v.cleaned();
            "cleaned", J::Bool(false), |v| v.set_cleaned(false), !v.cleaned();
        },
        4 => sets! { from_j::<BuildTargetCompileResult>(&full(COMPRES)), i;
            "originId", sj.clone(), |v| v.set_origin_id(some.clone()), v.origin_id() == some.as_ref();
            "statusCode", n("77"), |v| v.set_status_code(77), v.status_code() == 77;
            "dataKind", sj.clone(), |v| v.set_data_kind(some.clone()), v.data_kind() == some.as_ref();
            "data", sj.clone(), |v| v.set_data(sv.clone()), v.data() == sv.as_ref();
        },
        5 => sets! { from_j::<BuildTargetTestResult>(&full(COMPRES)), i;
            "originId", sj.clone(), |v| v.set_origin_id(some.clone()), v.origin_id() == some.as_ref();
            "statusCode", n("77"), |v| v.set_status_code(77), v.status_code() == 77;
            "dataKind", sj.clone(), |v| v.set_data_kind(some.clone()), v.data_kind() == some.as_ref();
            "data", sj.clone(), |v| v.set_data(sv.clone()), v.data() == sv.as_ref();
        },
        6 => sets! { from_j::<BuildTargetRunResult>(&full(RUNRES)), i;
            "originId", sj.clone(), |v| v.set_origin_id(some.clone()), v.origin_id() == some.as_ref();
            "statusCode", n("77"), |v| v.set_status_code(77), v.status_code() == 77;
        },
        7 => sets! { from_j::<DependencyModule>(&full(MODULE)), i;
            "name", tt.clone(), |v| v.set_name(ts.clone()), v.name() == ts;
            "version", tt.clone(), |v| v.set_version(ts.clone()), v.version() == ts;
            "dataKind", sj.clone(), |v| v.set_data_kind(some.clone()), v.data_kind() == some.as_ref();
        },
        8 => sets! { from_j::<DependencyModulesItem>(&full(MODITEM)), i;
            "modules", J::Arr(vec![]), |v| v.set_modules(vec![]), v.modules().is_empty() && v.target().uri().len() == 12;
        },
        9 => sets! { from_j::<DependencySourcesItem>(&full(DEPITEM)), i;
            "target", tj(b'x'), |v| v.set_target(tid(b'x')), v.target().uri() == "file:///w/x";
            "sources", strs.clone(), |v| v.set_sources(list.clone()), v.sources() == &list[..];
        },
        10 => sets! { from_j::<Resources>(&full(RESITEM)), i;
            "target", tj(b'x'), |v| v.set_target(tid(b'x')), v.target().uri() == "file:///w/x";
            "resources", strs.clone(), |v| v.set_resources(list.clone()), v.resources() == &list[..];
        },
        11 => sets! { from_j::<SourcesCollection>(&full(SRCITEM)), i;
            "target", tj(b'x'), |v| v.set_target(tid(b'x')), v.target().uri() == "file:///w/x";
            "sources", J::Arr(vec![]), |v| v.set_sources(vec![]), v.sources().is_empty();
        },
        12 => sets! { Sources::new(url(b'a'), SourceKind::File, false), i;
            "uri", uj(b'x'), |v| v.set_uri(url(b'x')), v.uri().as_str() == "file:///w/x";
            "kind", n("2"), |v| v.set_kind(SourceKind::Directory), matches!(v.kind(), SourceKind::Directory);
            "generated", J::Bool(true), |v| v.set_generated(true), v.generated();
        },
        _ => sets! { tid(b'a'), i;
            "uri", uj(b'x'), |v| v.set_uri(url(b'x')), v.uri() == "file:///w/x";
        },
    }
}
#[no_mangle]
pub extern "C" fn h_c19_results() {
    quiet();
    results(How::one());
    reach("c19_results");
}
#[no_mangle]
pub extern "C" fn h_c19_rtwice() {
    quiet();
    results(How::two(false));
    reach("c19_rtwice");
}
#[no_mangle]
pub extern "C" fn h_c19_rvalues() {
    quiet();
    results(How::values());
    reach("c19_rvalues");
}
/// Words made of known ones are not known ones.
#[no_mangle]
pub extern "C" fn h_c19_words() {
    quiet();
    let known = ["library", "application", "test", "integration-test", "benchmark", "no-ide", "manual"];
    let kinds = ["compile-task", "compile-report", "test-task", "test-report", "test-start", "test-finish"];
    let more = ["suite", "task", "report", "start", "finish", "ide", "no", "compile", "integration", "run", "debug", "s"];
    let tags = pick(2, "what") == 0;
    let list: &[&str] = if tags { &known } else { &kinds };
    let w = list[pick(list.len() as u32, "word") as usize];
    let x = || {
        let k = pick((list.len() + more.len()) as u32, "other") as usize;
        if k < list.len() { list[k] } else { more[k - list.len()] }
    };
    let c = |k: u32| ["-", "_", " ", "", "/", ":"][k as usize];
    let t = match pick(8, "how") {
        0 => format!("{}{}{}", w, c(pick(6, "sep")), x()),
        1 => format!("{}{}{}", x(), c(pick(6, "sep")), w),
        2 => format!("{}{}", w, [" ", "\n", "\t", "\0", "s", "-", "-test-suite", "\u{a0}"][pick(8, "end") as usize]),
        3 => format!("{}{}", [" ", "\n", "\t", "\0", "-", "x-", "\u{feff}", "\u{a0}"][pick(8, "end") as usize], w),
        4 => w.to_uppercase(),
        5 => w.replace('-', ["_", " ", "", "--"][pick(4, "dash") as usize]),
        6 => w.rsplit('-').collect::<Vec<_>>().join("-"),
        _ => format!("{}{}", w[..1].to_uppercase(), &w[1..]),
    };
    tag_or_kind(tags, list, t.into_bytes());
    reach("c19_words");
}
fn tag_or_kind(tags: bool, list: &[&str], t: Vec<u8>) {
    let j = J::Str(t.clone());
    if tags {
        let v: BuildTargetTag = from_j(&j);
        let w = list.iter().position(|x| same(x.as_bytes(), &t));
        let ok = match (&v, w) {
            (BuildTargetTag::Libary, Some(0)) => true,
            (BuildTargetTag::Application, Some(1)) => true,
            (BuildTargetTag::Test, Some(2)) => true,
            (BuildTargetTag::IntegrationTest, Some(3)) => true,
            (BuildTargetTag::Benchmark, Some(4)) => true,
            (BuildTargetTag::NoIDE, Some(5)) => true,
            (BuildTargetTag::Manual, Some(6)) => true,
            (BuildTargetTag::Custom(x), None) => same(x.as_bytes(), &t),
            _ => false,
        };
        check(ok, "known tags are recognised and others kept");
        check(to_j(&v).same(&j), "a tag is written as it was read");
    } else {
        let v: TaskDataKind = from_j(&j);
        let w = list.iter().position(|x| same(x.as_bytes(), &t));
        let ok = match (&v, w) {
            (TaskDataKind::CompileTask, Some(0)) => true,
            (TaskDataKind::CompileReport, Some(1)) => true,
            (TaskDataKind::TestTask, Some(2)) => true,
            (TaskDataKind::TestReport, Some(3)) => true,
            (TaskDataKind::TestStart, Some(4)) => true,
            (TaskDataKind::TestFinish, Some(5)) => true,
            (TaskDataKind::Custom(x), None) => same(x.as_bytes(), &t),
            _ => false,
        };
        check(ok, "known kinds are recognised and others kept");
        check(!v.is_none(), "a kind that is there is not none");
        check(to_j(&v).same(&j), "a kind is written as it was read");
        check(TaskDataKind::default().is_none(), "the default kind is none");
    }
}
/// Tags and task data kinds: each known one under its own name, any other
/// text kept.
#[no_mangle]
pub extern "C" fn h_c19_tags() {
    quiet();
    let known = ["library", "application", "test", "integration-test", "benchmark", "no-ide", "manual"];
    let kinds = ["compile-task", "compile-report", "test-task", "test-report", "test-start", "test-finish"];
    let tags = pick(2, "what") == 0;
    let list: &[&str] = if tags { &known } else { &kinds };
    let mut t = list[pick(list.len() as u32, "near") as usize].as_bytes().to_vec();
    // one free character anywhere, or cut short
    let at = pick(t.len() as u32 + 1, "at") as usize;
    if at < t.len() {
        t[at] = text(1, "c")[0];
    } else {
        t.pop();
    }
    tag_or_kind(tags, list, t);
    reach("c19_tags");
}
/// Every parent of a task is kept, in order, also the same one again.
#[no_mangle]
pub extern "C" fn h_c19_parents() {
    quiet();
    let t = text(1, "t");
    let first = pick(3, "first") as usize;
    let more = pick(4, "more") as usize;
    let ps: Vec<Vec<u8>> = (0..first + more).map(|_| text(pick(3, "len") as usize, "p")).collect();
    let texts = |v: &[Vec<u8>]| v.iter().map(|p| st(p)).collect::<Vec<String>>();
    let mut id = match pick(3, "ctor") {
        0 => TaskId::new(st(&t), texts(&ps[..first])),
        k => {
            assume(first == 0);
            if k == 1 { TaskId::from(st(&t)) } else { TaskId::from(leak(&t)) }
        }
    };
    for p in &ps[first..] {
        id.add_parent(st(p));
    }
    let mut want = obj(vec![("id", J::Str(t))]);
    if !ps.is_empty() {
        want = want.with("parents", J::Arr(ps.iter().map(|p| J::Str(p.clone())).collect()));
    }
    check(to_j(&id.clone()).same(&want), "every parent is kept in order");
    check(to_j(&id).same(&want), "every parent is kept in order");
    reach("c19_parents");
}
/// The shortest and the longest patience there are.
#[no_mangle]
pub extern "C" fn h_c18_edge() {
    quiet();
    let t = text(1, "t");
    let dl = pick(2, "deadline") == 1;
    let cap = pick(2, "cap") as usize;
    let long = pick(3, "long");
    // 0: room, 1: full, 2: closed, 3: a receiver that is there, 4: one that comes much later
    let state = pick(5, "state");
    let (c, r) = bounded(cap);
    let full = state != 0 && state != 2;
    if full {
        for _ in 0..cap {
            check(c.try_send(note(b'a', &t)).is_ok(), "try_send succeeds while there is room");
        }
    }
    assume(cap == 1 || state != 0);
    // endless patience ends with a receiver only
    assume(long != 2 || state != 1);
    assume(!(dl && long == 2));
    let mut h = None;
    let mut keep = None;
    match state {
        2 => drop(r),
        3 | 4 => {
            if state == 4 {
                assume(long == 2);
                speed(1000);
            }
            h = Some(std::thread::spawn(move || {
                if state == 4 {
                    std::thread::sleep(Duration::from_secs(4000));
                }
                let mut n = vec![];
                // gives up when the sender has, and hung up
                while let Ok(m) = r.recv() {
                    n.push(m);
                }
                n
            }));
            if state == 3 {
                // the receiver waits (or took what was there)
                settle();
                settle();
            }
        }
        _ => keep = Some(r),
    }
    let t0 = Instant::now();
    let m = note(b'k', &t);
    let e = match (dl, long) {
        (true, 0) => c.send_deadline(m, t0).err(),
        (true, _) => c.send_deadline(m, t0.checked_sub(Duration::from_nanos(1)).unwrap_or(t0)).err(),
        (_, 0) => c.send_timeout(m, Duration::ZERO).err(),
        (_, 1) => c.send_timeout(m, Duration::from_nanos(1)).err(),
        _ => c.send_timeout(m, Duration::MAX).err(),
    };
    speed(1);
    drop(c);
    let got: Vec<Message> = match (h, keep) {
        (Some(h), _) => h.join().unwrap(),
        (_, Some(r)) => r.try_iter().collect(),
        _ => vec![],
    };
    match e {
        None => {
            check(state != 1 && state != 2, "a message is handed back when the end is full or closed");
            check(got.last().map_or(false, |m| is_note(m, b'k', &t)), "each message arrives once, at the other end");
            check(got.len() == if full { cap + 1 } else { 1 }, "each message arrives once, at the other end");
        }
        Some(e) => {
            check(state != 0, "a message is accepted when there is room");
            check(long != 2 || state == 2, "endless patience ends with a receiver");
            check(e.is_timeout() == (state != 2), "a busy connection is told apart from a closed one");
            check(is_note(&e.into_inner(), b'k', &t), "a busy connection hands the message back");
            check(got.len() == if full { cap } else { 0 }, "a message handed back does not arrive");
        }
    }
    reach("c18_edge");
}
