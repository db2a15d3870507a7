//! C02 reassembly, C03 malformed input, C14 reader lifecycle.
use crate::alloc::biggest;
use crate::c_frame::uchar;
use crate::drv::*;
use crate::env::*;
use crate::json::*;
use crate::refr::*;
use crate::rt::*;
use bsp_server::*;
use std::time::Duration;

entries! { h_c02_split h_c02_split2 h_c02_chunks h_c02_eintr h_c02_headers h_c02_boundary h_c02_large h_c02_text
           h_c02_escape h_c02_order h_c02_space h_c02_many h_c02_huge h_c02_names h_c02_fields h_c02_alike h_c02_charset
           h_c03_mutate h_c03_mutate2 h_c03_insert h_c03_delete h_c03_truncate h_c03_length h_c03_huge h_c03_raw h_c03_body h_c03_utf8 h_c03_io
           h_c03_deep h_c03_body3 h_c03_blank h_c03_wide h_c03_between
           h_c14_exit h_c14_live h_c14_pause h_c14_drop h_c14_eof h_c14_late h_c14_many h_c14_idle h_c14_near }

pub const ITEMS: u32 = 8;
pub fn item(k: u32, t: &[u8]) -> J {
    let js = J::Str(t.to_vec());
    match k {
        0 => {
            let mut m = b"x/".to_vec();
            m.extend_from_slice(t);
            obj(vec![("id", n("7")), ("method", J::Str(m)), ("params", obj(vec![("a", js)]))])
        }
        1 => obj(vec![("id", js.clone()), ("result", J::Arr(vec![js, n("-1")]))]),
        2 => obj(vec![("id", n("-3")), ("error", obj(vec![("code", n("-32603")), ("message", js)]))]),
        3 => obj(vec![("method", s("x/y")), ("params", js)]),
        4 => obj(vec![("id", js), ("method", s("build/shutdown"))]),
        5 => obj(vec![("method", s("build/initialized"))]),
        6 => obj(vec![("id", n("1")), ("method", s("workspace/reload")), ("params", J::Null)]),
        _ => obj(vec![("method", s("n")), ("params", J::Arr(vec![n("1"), obj(vec![("k", js)])]))]),
    }
}
pub fn items(ks: &[(u32, &[u8])]) -> Vec<u8> {
    let mut o = vec![];
    for (k, t) in ks {
        o.extend_from_slice(&frame(&wire(&item(*k, t))));
    }
    o
}
fn must(tr: u32, st: &[u8], want: usize) {
    let (w, e) = reference(st);
    check(w.len() == want && e == End::Clean, "harness: the stream is well-formed");
    judge(tr, st);
}
fn small_stream(t: &[u8]) -> Vec<u8> {
    let mut u = "ä€".as_bytes().to_vec();
    u.extend_from_slice(t);
    items(&[(0, t), (1, &u), (5, b""), (3, &u)])
}

// ------------------------------------------------------------------ C02
#[no_mangle]
pub extern "C" fn h_c02_split() {
    quiet();
    let tr = pick(3, "transport");
    let st = small_stream(&text(1, "t"));
    let at = pick(st.len() as u32, "at") as usize;
    env(|e| e.rchunk = Chunk::First(at + 1));
    must(tr, &st, 4);
    reach("c02_split");
}
#[no_mangle]
pub extern "C" fn h_c02_split2() {
    quiet();
    let tr = pick(2, "transport");
    let st = items(&[(3, "é".as_bytes()), (1, b"k")]);
    let a = pick(st.len() as u32, "a") as usize;
    let b = pick(st.len() as u32, "b") as usize;
    assume(a < b);
    env(|e| e.rchunk = Chunk::List(vec![a + 1, b - a]));
    must(tr, &st, 2);
    reach("c02_split2");
}
#[no_mangle]
pub extern "C" fn h_c02_chunks() {
    quiet();
    let tr = pick(3, "transport");
    let st = small_stream(&text(2, "t"));
    let sz = 1 + pick(40, "size") as usize;
    env(|e| e.rchunk = Chunk::Fixed(sz));
    must(tr, &st, 4);
    reach("c02_chunks");
}
/// Interrupted reads are retried wherever they fall.
#[no_mangle]
pub extern "C" fn h_c02_eintr() {
    quiet();
    let tr = pick(3, "transport");
    let st = small_stream(&text(1, "t"));
    let sz = [7, 16, 64, 1000][pick(4, "size") as usize];
    let calls = (st.len() + sz - 1) / sz + 1;
    let at = pick(calls as u32, "at") as usize;
    let again = pick(2, "again") as usize;
    env(|e| {
        e.rchunk = Chunk::Fixed(sz);
        e.rfail = vec![(at, 4)];
        if again == 1 {
            e.rfail.push((at + 1, 4));
        }
    });
    must(tr, &st, 4);
    reach("c02_eintr");
}
/// Other header fields, before and after, are skipped.
#[no_mangle]
pub extern "C" fn h_c02_headers() {
    quiet();
    let tr = pick(2, "transport");
    let which = pick(5, "which");
    let nl = [1, 2, 12, 14, 15][pick(5, "namelen") as usize];
    let vl = [0, 1, 4][pick(3, "vallen") as usize];
    let nm = bytes(nl, "name");
    for (i, b) in nm.iter().enumerate() {
        // a free character at either end
        if i == 0 || i + 1 == nl {
            assume(((*b | 32) >= b'a') & ((*b | 32) <= b'z') | (*b == b'-') | (*b >= b'0') & (*b <= b'9'));
        } else {
            assume(*b == b"Content-LengthX"[i]);
        }
    }
    if nl == 14 {
        assume((nm[0] | 32 != b'c') | (nm[13] | 32 != b'h'));
    }
    let val = bytes(vl, "value");
    for b in &val {
        assume((*b >= 0x20) & (*b < 0x7f));
    }
    let mut x = nm.clone();
    x.extend_from_slice(b": ");
    x.extend_from_slice(&val);
    x.extend_from_slice(b"\r\n");
    let body = wire(&item(3, b"hi"));
    let mut cl = b"Content-Length: ".to_vec();
    cl.extend_from_slice(&dec(body.len()));
    cl.extend_from_slice(b"\r\n");
    let ct = b"Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n";
    let mut st = vec![];
    let parts: Vec<&[u8]> = match which {
        0 => vec![&x, &cl],
        1 => vec![&cl, &x],
        2 => vec![&x, &cl, ct],
        3 => vec![ct, &cl, &x],
        _ => vec![&x, ct, &x, &cl, &x],
    };
    for _ in 0..2 {
        for p in &parts {
            st.extend_from_slice(p);
        }
        st.extend_from_slice(b"\r\n");
        st.extend_from_slice(&body);
    }
    must(tr, &st, 2);
    reach("c02_headers");
}
fn padded(len: usize, wide: bool, t: &[u8]) -> Vec<u8> {
    // {"jsonrpc":"2.0","method":"x/y","params":""}
    let mut t = t.to_vec();
    if wide {
        while t.len() + 2 <= len - 44 {
            t.extend_from_slice("é".as_bytes());
        }
    }
    while t.len() < len - 44 {
        t.push(b'p');
    }
    wire(&item(3, &t))
}
/// The second frame starts everywhere around the reader's buffer boundary.
#[no_mangle]
pub extern "C" fn h_c02_boundary() {
    quiet();
    let tr = pick(2, "transport");
    let off = pick(90, "offset") as usize;
    // the first frame ends at 8192 - 60 + off
    let first = 8192 - 60 + off - 24;
    let mut st = frame(&padded(first, off & 1 == 1, b"q"));
    st.extend_from_slice(&small_stream(b"z"));
    must(tr, &st, 5);
    reach("c02_boundary");
}
/// Header fields whose name is nearly Content-Length are other fields.
#[no_mangle]
pub extern "C" fn h_c02_names() {
    quiet();
    const CL: &[u8] = b"Content-Length";
    let free = |nm: &str, l: usize| {
        let b = bytes(l, nm);
        for b in &b {
            assume(((*b | 32) >= b'a') & ((*b | 32) <= b'z') | (*b == b'-') | (*b >= b'0') & (*b <= b'9'));
        }
        b
    };
    let nm = match pick(5, "how") {
        0 => [&free("f", 1 + pick(3, "l") as usize)[..], CL].concat(),
        1 => [CL, &free("f", 1 + pick(3, "l") as usize)[..]].concat(),
        2 => {
            let mut v = CL.to_vec();
            let at = pick(14, "at") as usize;
            v[at] = free("f", 1)[0];
            // case is not taken for a difference here
            assume(v[at] | 32 != CL[at] | 32);
            v
        }
        3 => {
            let mut v = CL.to_vec();
            v.remove(pick(14, "at") as usize);
            v
        }
        _ => [&b"Content-"[..], b"Length", b"Content-Length2"][pick(3, "part") as usize].to_vec(),
    };
    let val: &[u8] = [&b"2"[..], b"0", b"999", b"x"][pick(4, "value") as usize];
    let x = [&nm[..], b": ", val, b"\r\n"].concat();
    let body = wire(&item(3, b"hi"));
    let cl = [b"Content-Length: ", &dec(body.len())[..], b"\r\n"].concat();
    let behind = pick(2, "behind") == 1;
    let mut st = vec![];
    for _ in 0..2 {
        if behind {
            st.extend_from_slice(&cl);
        }
        st.extend_from_slice(&x);
        if !behind {
            st.extend_from_slice(&cl);
        }
        st.extend_from_slice(b"\r\n");
        st.extend_from_slice(&body);
    }
    must(pick(2, "transport"), &st, 2);
    reach("c02_names");
}
/// Many header fields, and long ones.
#[no_mangle]
pub extern "C" fn h_c02_fields() {
    quiet();
    let tr = pick(3, "transport");
    let c = text(1, "c");
    assume(c[0] >= 0x20);
    let (many, name, long) = match pick(3, "how") {
        0 => ([3, 17, 40, 300][pick(4, "n") as usize], 6, 4),
        1 => (1, 6, [100, 1030, 4100, 8200, 20_000][pick(5, "n") as usize]),
        _ => (2, [70, 300, 9000][pick(3, "n") as usize], 10),
    };
    let mut x = vec![];
    for i in 0..many {
        let mut l = b"X-".to_vec();
        l.extend_from_slice(&dec(i));
        while l.len() < name {
            l.push(b'n');
        }
        l.extend_from_slice(b": ");
        l.extend_from_slice(&c);
        while l.len() < name + 2 + long {
            l.push(b'v');
        }
        l.extend_from_slice(b"\r\n");
        x.push(l);
    }
    let body = wire(&item(3, b"hi"));
    let cl = [b"Content-Length: ", &dec(body.len())[..], b"\r\n"].concat();
    let at = [0, many / 2, many][pick(3, "place") as usize];
    x.insert(at, cl);
    let mut f = x.concat();
    f.extend_from_slice(b"\r\n");
    f.extend_from_slice(&body);
    if pick(2, "chunk") == 1 {
        env(|e| e.rchunk = Chunk::Fixed(1500));
    }
    let f = [&f[..], &f, &items(&[(0, b"z")])].concat();
    must(tr, &f, 3);
    reach("c02_fields");
}
/// Texts that look like the protocol are texts.
#[no_mangle]
pub extern "C" fn h_c02_alike() {
    quiet();
    const T: [&str; 14] = [
        "Content-Length: 2\r\n\r\n{}", "\r\n\r\n", "Content-Length", "\n", "{\"jsonrpc\":\"2.0\",\"method\":\"build/exit\"}", "build/exit", "build/shutdown",
        "null", "\"", "\\\"}", "\0", "\u{2028}", "\u{feff}", "\u{ffff}",
    ];
    let t = T[pick(14, "text") as usize].as_bytes();
    let k = pick(ITEMS, "kind");
    let tr = pick(3, "transport");
    env(|e| e.rchunk = [Chunk::All, Chunk::Fixed(5), Chunk::First(70)][pick(3, "chunk") as usize].clone());
    must(tr, &items(&[(k, t), (3, t), (0, b"z")]), 3);
    reach("c02_alike");
}
#[no_mangle]
pub extern "C" fn h_c02_large() {
    quiet();
    const L: [usize; 16] = [99, 100, 999, 1000, 4096, 8150, 8170, 8191, 8192, 8193, 9999, 10000, 16384, 32768, 65536, 100000];
    let tr = pick(3, "transport");
    let l = L[pick(L.len() as u32, "length") as usize];
    let wide = pick(2, "wide") == 1;
    let ck = pick(3, "chunk");
    env(|e| e.rchunk = [Chunk::All, Chunk::Fixed(1500), Chunk::First(8193)][ck as usize].clone());
    let mut st = frame(&padded(l, wide, &text(1, "t")));
    st.extend_from_slice(&small_stream(b"z"));
    must(tr, &st, 5);
    reach("c02_large");
}
/// Bodies of megabytes.
#[no_mangle]
pub extern "C" fn h_c02_huge() {
    quiet();
    const L: [usize; 4] = [262_144, 1_048_577, 2_100_000, 5_000_000];
    let l = L[pick(4, "length") as usize];
    let tr = pick(2, "transport");
    env(|e| e.rchunk = if tr == 0 { Chunk::All } else { Chunk::Fixed(30_000) });
    let mut st = frame(&padded(l, tr == 1, &text(1, "t")));
    st.extend_from_slice(&small_stream(b"z"));
    must(tr, &st, 5);
    reach("c02_huge");
}
/// Raw characters of every UTF-8 length arrive as sent.
#[no_mangle]
pub extern "C" fn h_c02_text() {
    quiet();
    let k = [0, 1, 2, 3, 4, 7][pick(6, "kind") as usize];
    let cl = pick(4, "class");
    let mut t = b"a".to_vec();
    let c = uchar(cl, "c");
    if cl == 0 {
        assume(plain(c[0]) | (c[0] == 0x7f));
    }
    t.extend_from_slice(&c);
    t.extend_from_slice(&text(1, "d"));
    must(STDIO, &items(&[(k, &t), (3, b"tail")]), 2);
    reach("c02_text");
}
/// Escaped characters arrive as the character they denote.
#[no_mangle]
pub extern "C" fn h_c02_escape() {
    quiet();
    let form = pick(3, "form");
    let hex = |h: &[u8]| {
        let mut ok = true;
        for b in h {
            ok &= (*b >= b'0') & (*b <= b'9') | (*b >= b'a') & (*b <= b'f') | (*b >= b'A') & (*b <= b'F');
        }
        assume(ok);
    };
    let mut e = vec![];
    match form {
        0 => {
            let c = bytes(1, "c");
            assume((c[0] == b'"') | (c[0] == b'\\') | (c[0] == b'/') | (c[0] == b'b') | (c[0] == b'f') | (c[0] == b'n') | (c[0] == b'r') | (c[0] == b't'));
            e.push(b'\\');
            e.push(c[0]);
        }
        1 => {
            // no surrogate on its own
            // (two digits free, the others from both ends of the range)
            let mut h = bytes(4, "h");
            let fix = pick(6, "fixed");
            let at = [(0, 1), (0, 1), (2, 3), (2, 3), (0, 3), (1, 2)][fix as usize];
            let with = [(b'0', b'0'), (b'2', b'0'), (b'0', b'A'), (b'e', b'9'), (b'0', b'f'), (b'0', b'8')][fix as usize];
            h[at.0] = with.0;
            h[at.1] = with.1;
            hex(&h);
            assume((h[0] | 32 != b'd') | (h[1] <= b'7'));
            e.extend_from_slice(b"\\u");
            e.extend_from_slice(&h);
        }
        _ => {
            let h = bytes(4, "h");
            hex(&h);
            assume((h[1] == b'9') & (h[0] & 15 <= 9));
            let a = [b'8', b'9', b'a', b'B'][pick(4, "hi") as usize];
            let d = [b'c', b'D', b'e', b'F'][pick(4, "lo") as usize];
            e.extend_from_slice(b"\\ud");
            e.push(a);
            e.extend_from_slice(&h[..2]);
            e.extend_from_slice(b"\\uD");
            e.push(d);
            e.extend_from_slice(&h[2..]);
        }
    }
    let place = pick(3, "place");
    let mut b: Vec<u8> = vec![];
    b.extend_from_slice(match place {
        0 => b"{\"jsonrpc\":\"2.0\",\"method\":\"m\",\"params\":{\"k\":\"x",
        1 => b"{\"jsonrpc\":\"2.0\",\"result\":null,\"id\":\"x",
        _ => b"{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"x",
    });
    b.extend_from_slice(&e);
    b.extend_from_slice(match place {
        0 => &b"y\"}}"[..],
        _ => b"y\"}",
    });
    must(STDIO, &frame(&b), 1);
    reach("c02_escape");
}
#[no_mangle]
pub extern "C" fn h_c02_order() {
    quiet();
    let tr = pick(3, "transport");
    let a = pick(ITEMS, "a");
    let b = pick(ITEMS, "b");
    let c = pick(ITEMS, "c");
    let t = text(1, "t");
    let st = items(&[(a, &t), (b, b"second"), (c, &t), (3, b"last")]);
    must(tr, &st, 4);
    reach("c02_order");
}
/// Insignificant whitespace in and around the body is allowed.
#[no_mangle]
pub extern "C" fn h_c02_space() {
    quiet();
    let k = pick(ITEMS, "kind");
    let w = bytes(3, "w");
    for b in &w {
        assume((*b == b' ') | (*b == b'\n') | (*b == b'\r') | (*b == b'\t'));
    }
    let mut j = item(k, b"sp");
    if let J::Obj(v) = &mut j {
        v.insert(1, (b"jsonrpc".to_vec(), s("2.0")));
    }
    let mut b = vec![w[0]];
    b.extend_from_slice(&j.airy());
    b.extend_from_slice(&w[1..]);
    let mut st = frame(&b);
    st.extend_from_slice(&items(&[(3, b"last")]));
    must(STDIO, &st, 2);
    reach("c02_space");
}

/// A long stream, and short and long reads.
#[no_mangle]
pub extern "C" fn h_c02_many() {
    quiet();
    let tr = pick(3, "transport");
    let len = [20, 100, 400, 1100][pick(4, "len") as usize];
    let chunk = [1_000_000, 7, 61][pick(3, "chunk") as usize];
    if chunk == 7 {
        assume(len == 20);
    }
    let mut st = vec![];
    for i in 0..len {
        st.extend_from_slice(&frame(&wire(&item(i as u32 % ITEMS, &dec(i)))));
    }
    env(|e| e.rchunk = Chunk::Fixed(chunk));
    must(tr, &st, len);
    reach("c02_many");
}

/// Header fields other protocols know, with the values they know.
#[no_mangle]
pub extern "C" fn h_c02_charset() {
    quiet();
    let tr = pick(3, "transport");
    const NAME: [&str; 12] = [
        "Content-Type", "content-type", "Content-Encoding", "Content-Language", "Transfer-Encoding", "Connection", "Host", "Expect", "Accept", "Content-MD5",
        "X-Content-Length", "Content-Length-Hint",
    ];
    const VALUE: [&str; 14] = [
        "application/vscode-jsonrpc; charset=utf-8", "application/vscode-jsonrpc; charset=utf8", "application/vscode-jsonrpc;charset=utf-16", "application/json",
        "text/plain; charset=us-ascii", "chunked", "gzip", "close", "0", "99999999999999999999", "-1", "Content-Length: 3", "en, de;q=0.5", "100-continue",
    ];
    let mut x = NAME[pick(12, "name") as usize].as_bytes().to_vec();
    x.extend_from_slice(b": ");
    x.extend_from_slice(VALUE[pick(14, "value") as usize].as_bytes());
    x.extend_from_slice(&text(pick(3, "free") as usize, "f"));
    x.extend_from_slice(b"\r\n");
    let body = wire(&item(3, "h\u{e9}".as_bytes()));
    let cl = [b"Content-Length: ", &dec(body.len())[..], b"\r\n"].concat();
    let mut f = if pick(2, "before") == 1 { [&x[..], &cl].concat() } else { [&cl[..], &x].concat() };
    f.extend_from_slice(b"\r\n");
    f.extend_from_slice(&body);
    let f = [&f[..], &f, &items(&[(0, b"z")])].concat();
    must(tr, &f, 3);
    reach("c02_charset");
}

// ------------------------------------------------------------------ C03
fn bases(k: u32) -> Vec<u8> {
    match k {
        0 => items(&[(3, b"ab"), (5, b"")]),
        1 => items(&[(0, b"a"), (3, b"z")]),
        2 => items(&[(2, b"a"), (5, b"")]),
        _ => items(&[(1, "é".as_bytes()), (4, b"i")]),
    }
}
/// Any one byte replaced by any other.
#[no_mangle]
pub extern "C" fn h_c03_mutate() {
    quiet();
    let k = pick(4, "base");
    let mut st = bases(k);
    let at = pick(st.len() as u32, "at") as usize;
    st[at] = bytes(1, "b")[0];
    judge(STDIO, &st);
    reach("c03_mutate");
}
/// The same over a socket, and with two neighbouring bytes replaced.
#[no_mangle]
pub extern "C" fn h_c03_mutate2() {
    quiet();
    let mut st = items(&[(3, b"a")]);
    let at = pick(st.len() as u32 - 1, "at") as usize;
    let b = bytes(2, "b");
    st[at] = b[0];
    st[at + 1] = b[1];
    judge(CONNECT, &st);
    reach("c03_mutate2");
}
#[no_mangle]
pub extern "C" fn h_c03_insert() {
    quiet();
    let k = pick(2, "base");
    let mut st = bases(k * 3);
    let at = pick(st.len() as u32 + 1, "at") as usize;
    let b = bytes(1, "b")[0];
    st.insert(at, b);
    judge(STDIO, &st);
    reach("c03_insert");
}
#[no_mangle]
pub extern "C" fn h_c03_delete() {
    quiet();
    let k = pick(4, "base");
    let tr = pick(2, "transport");
    let mut st = bases(k);
    let at = pick(st.len() as u32, "at") as usize;
    let n = 1 + pick(2, "n") as usize;
    for _ in 0..n {
        if at < st.len() {
            st.remove(at);
        }
    }
    judge(tr, &st);
    reach("c03_delete");
}
#[no_mangle]
pub extern "C" fn h_c03_truncate() {
    quiet();
    let tr = pick(3, "transport");
    let t = text(1, "t");
    let mut st = small_stream(&t);
    let at = pick(st.len() as u32, "at") as usize;
    st.truncate(at);
    judge(tr, &st);
    reach("c03_truncate");
}
/// Arbitrary text as the announced length.
#[no_mangle]
pub extern "C" fn h_c03_length() {
    quiet();
    let tr = pick(2, "transport");
    let n = 1 + pick(3, "digits") as usize;
    let l = bytes(n, "length");
    let mut body = wire(&item(3, b"ab"));
    while body.len() < 60 {
        body.push(b' ');
    }
    let mut st = b"Content-Length: ".to_vec();
    st.extend_from_slice(&l);
    st.extend_from_slice(b"\r\n\r\n");
    st.extend_from_slice(&body);
    judge(tr, &st);
    reach("c03_length");
}
/// Announcing a huge body neither kills the process nor reserves memory for it.
#[no_mangle]
pub extern "C" fn h_c03_huge() {
    quiet();
    let tr = pick(3, "transport");
    const L: [&str; 12] = [
        "1000000", "67108864", "268435456", "2147483647", "2147483648", "4294967296", "1099511627776", "9223372036854775807",
        "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999999999",
    ];
    let l = L[pick(L.len() as u32, "length") as usize];
    let have = [0, 1, 100, 10000][pick(4, "have") as usize];
    let mut st = items(&[(3, b"ok")]);
    let mut d = l.as_bytes().to_vec();
    let b = bytes(1, "last");
    assume((b[0] >= b'0') & (b[0] <= b'9'));
    if have < 10000 {
        let e = d.len() - 1;
        d[e] = b[0];
    }
    st.extend_from_slice(b"Content-Length: ");
    st.extend_from_slice(&d);
    st.extend_from_slice(b"\r\n\r\n");
    for _ in 0..have {
        st.push(b'{');
    }
    judge(tr, &st);
    check(biggest() <= (1 << 20) + 8 * st.len(), "memory stays proportional to what arrived");
    reach("c03_huge");
}
/// A whole stream of arbitrary bytes.
#[no_mangle]
pub extern "C" fn h_c03_raw() {
    quiet();
    let n = pick(5, "n") as usize;
    let tail = pick(2, "tail") == 1;
    let mut st = bytes(n, "b");
    if tail {
        st.extend_from_slice(&items(&[(5, b"")]));
    }
    judge(STDIO, &st);
    reach("c03_raw");
}
/// A body of arbitrary bytes.
fn body(n: usize, tail: bool) {
    let form = pick(4, "form");
    let mut b = vec![];
    let v = bytes(n, "b");
    match form {
        0 => b.extend_from_slice(&v),
        1 => {
            b.extend_from_slice(b"{\"jsonrpc\":\"2.0\",\"method\":\"m\",\"params\":");
            b.extend_from_slice(&v);
            b.push(b'}');
        }
        2 => {
            b.extend_from_slice(b"{\"jsonrpc\":\"2.0\",\"id\":");
            b.extend_from_slice(&v);
            b.extend_from_slice(b",\"result\":0}");
        }
        _ => {
            b.extend_from_slice(b"{\"jsonrpc\":\"2.0\",\"method\":\"m\"");
            b.extend_from_slice(&v);
            b.push(b'}');
        }
    }
    let mut st = items(&[(5, b"")]);
    st.extend_from_slice(&frame(&b));
    if tail {
        st.extend_from_slice(&items(&[(3, b"t")]));
    }
    judge(STDIO, &st);
}
#[no_mangle]
pub extern "C" fn h_c03_body() {
    quiet();
    body(4, pick(2, "tail") == 1);
    reach("c03_body");
}
#[no_mangle]
pub extern "C" fn h_c03_body3() {
    quiet();
    body(pick(4, "n") as usize, true);
    reach("c03_body3");
}
/// Bodies of nothing but blanks, or with blanks in front or behind.
#[no_mangle]
pub extern "C" fn h_c03_blank() {
    quiet();
    let tr = pick(3, "transport");
    let n = [0, 1, 2, 3, 4, 17, 300][pick(7, "n") as usize];
    let c = [b' ', b'\t', b'\r', b'\n', 0, 0x0b][pick(6, "c") as usize];
    let two = pick(2, "two") == 1;
    let first = pick(2, "first") == 1;
    let blank = |n: usize| frame(&vec![c; n]);
    let mut st = vec![];
    if first {
        st.extend_from_slice(&items(&[(5, b"")]));
    }
    st.extend_from_slice(&blank(n));
    if two {
        st.extend_from_slice(&blank(n));
    }
    st.extend_from_slice(&items(&[(3, b"t"), (0, b"u")]));
    judge(tr, &st);
    reach("c03_blank");
}
/// Bytes that need not be UTF-8, in every place a string can be.
#[no_mangle]
pub extern "C" fn h_c03_utf8() {
    quiet();
    let n = 1 + pick(4, "n") as usize;
    let v = bytes(n, "b");
    for b in &v {
        assume(*b >= 0x80);
    }
    let k = [3, 0, 1, 2][pick(4, "kind") as usize];
    let mut t = b"a".to_vec();
    t.extend_from_slice(&v);
    judge(STDIO, &items(&[(k, &t), (5, b"")]));
    reach("c03_utf8");
}
/// A read error surfaces as the reader's result, after what came before it.
#[no_mangle]
pub extern "C" fn h_c03_io() {
    quiet();
    let tr = pick(3, "transport");
    let er = [5, 104, 113, 12, 32][pick(5, "errno") as usize];
    let st = items(&[(3, b"ab"), (5, b""), (0, b"q")]);
    let sz = 16;
    let at = pick((st.len() / sz + 2) as u32, "at") as usize;
    env(|e| {
        e.rchunk = Chunk::Fixed(sz);
        e.rfail = vec![(at, er)];
    });
    // whole frames read before the failing call
    let got = (at * sz).min(st.len());
    let (want, _) = reference(&st[..got]);
    feed(st);
    let (c, th) = open(tr);
    let ms = collect(&c);
    drop(c);
    let r = join(th);
    verdict(&ms, &r, &want, End::Fail("read error"));
    match r {
        Err(e) => check(e.raw_os_error() == Some(er), "the error is the one the transport reported"),
        Ok(()) => {}
    }
    reach("c03_io");
}
/// Long texts of wide characters in whatever is refused.
#[no_mangle]
pub extern "C" fn h_c03_wide() {
    quiet();
    let tr = pick(3, "transport");
    let t = wide([90, 1100, 5000][pick(3, "size") as usize]);
    let js = J::Str(t.clone());
    let mut f = items(&[(5, b"")]);
    match pick(9, "form") {
        // a header line without a colon, a bad length, one that never ends
        0 => {
            f.extend_from_slice(&t);
            f.extend_from_slice(b"\r\n");
        }
        1 => {
            f.extend_from_slice(b"Content-Length: ");
            f.extend_from_slice(&t);
            f.extend_from_slice(b"\r\n\r\n");
        }
        2 => f.extend_from_slice(&t),
        3 => {
            f.extend_from_slice(&t);
            f.extend_from_slice(b"\n");
        }
        // only other fields
        4 => {
            f.extend_from_slice(b"X: ");
            f.extend_from_slice(&t);
            f.extend_from_slice(b"\r\n\r\n");
        }
        // no JSON, no message, a body too short
        5 => f.extend_from_slice(&frame(&t)),
        6 => f.extend_from_slice(&frame(&js.text())),
        7 => f.extend_from_slice(&frame(&obj(vec![("jsonrpc", s("2.0")), ("what", js)]).text())),
        _ => {
            let g = frame(&wire(&item(3, &t)));
            f.extend_from_slice(&g[..g.len() - 20]);
        }
    }
    check(judge(tr, &f) != End::Clean, "harness: malformed");
    reach("c03_wide");
}
/// Deep nesting is refused or accepted, but survives.
#[no_mangle]
pub extern "C" fn h_c03_deep() {
    quiet();
    let d = [1, 50, 100, 126, 127, 128, 129, 1000, 20000][pick(9, "depth") as usize];
    let form = pick(3, "form");
    let mut b = b"{\"jsonrpc\":\"2.0\",\"method\":\"m\",\"params\":".to_vec();
    let (o, c) = match form {
        0 => (&b"["[..], &b"]"[..]),
        1 => (&b"{\"a\":"[..], &b"}"[..]),
        _ => (&b"["[..], &b""[..]),
    };
    for _ in 0..d {
        b.extend_from_slice(o);
    }
    if form == 1 {
        b.push(b'1');
    }
    for _ in 0..d {
        b.extend_from_slice(c);
    }
    b.push(b'}');
    let mut st = items(&[(5, b"")]);
    st.extend_from_slice(&frame(&b));
    let (want, end) = if d > 120 && form != 2 { (vec![], End::Any) } else { reference(&st) };
    feed(st);
    let (c, th) = open(STDIO);
    let ms = collect(&c);
    drop(c);
    let r = join(th);
    if d <= 100 && form != 2 {
        check(end == End::Clean, "harness: accepted depth");
    }
    verdict(&ms, &r, &want, end);
    check(ms.len() >= 1, "every well-formed message before the fault is delivered");
    reach("c03_deep");
}

// ------------------------------------------------------------------ C14
fn rest(i: u32) -> Vec<u8> {
    match i {
        0 => vec![],
        1 => items(&[(3, b"late")]),
        2 => b"Content-Length: nonsense\r\n\r\n".to_vec(),
        3 => b"Content-Le".to_vec(),
        _ => items(&[(0, b"a"), (4, b"s"), (3, b"late")]),
    }
}
/// Exit is the last message delivered and ends the reader, whatever follows
/// and whether or not the peer closes its side.
#[no_mangle]
pub extern "C" fn h_c14_exit() {
    quiet();
    let tr = pick(3, "transport");
    let before = pick(3, "before");
    let what = pick(5, "after");
    let closed = pick(2, "closed") == 1;
    let params = pick(4, "params");
    let mut want = vec![];
    let mut st = vec![];
    for i in 0..before {
        let j = item(i * 4 + 3, b"ab");
        st.extend_from_slice(&frame(&wire(&j)));
        want.push(j);
    }
    let mut x = obj(vec![("method", s("build/exit"))]);
    match params {
        1 => x = x.with("params", J::Null),
        2 => x = obj(vec![("params", obj(vec![])), ("method", s("build/exit"))]),
        3 => x = x.with("extra", J::Arr(vec![n("1")])),
        _ => {}
    }
    st.extend_from_slice(&frame(&wire(&x)));
    st.extend_from_slice(&rest(what));
    feed(st);
    env(|e| {
        e.eof = closed;
        e.rjit = 1;
    });
    let (c, th) = open(tr);
    let ms = collect(&c);
    check(ms.len() == before as usize + 1, "exit is delivered and is the last message");
    let mut ok = true;
    for (m, j) in ms.iter().zip(&want) {
        ok &= fits(m, j, classify(&j.clone().with("jsonrpc", s("2.0"))));
    }
    check(ok, "messages before exit are delivered in order");
    check(
        matches!(ms.last(), Some(Message::Notification(Notification::Exit))),
        "exit itself is delivered",
    );
    drop(c);
    check(join(th).is_ok(), "exit ends the io threads cleanly");
    reach("c14_exit");
}
fn expect(c: &Connection, j: &J) {
    // long enough never to matter natively, instant in virtual time
    match c.receiver.recv_timeout(Duration::from_secs(2)) {
        Ok(m) => check(fits(&m, j, classify(&j.clone().with("jsonrpc", s("2.0")))), "the message is delivered unaltered"),
        Err(_) => check(false, "a complete message is delivered without waiting for more input"),
    }
}
/// Each message is delivered as soon as its bytes are there.
#[no_mangle]
pub extern "C" fn h_c14_live() {
    quiet();
    let tr = pick(3, "transport");
    let a = pick(ITEMS, "a");
    let b = pick(ITEMS, "b");
    // how much of the next frame is already there
    let over = [0, 1, 15, 30][pick(4, "over") as usize];
    let (ja, jb, jc) = (item(a, b"one"), item(b, b"two"), item(3, b"three"));
    let (fa, fb, fc) = (frame(&wire(&ja)), frame(&wire(&jb)), frame(&wire(&jc)));
    env(|e| e.eof = false);
    let (c, th) = open(tr);
    more(&fa);
    more(&fb[..over]);
    expect(&c, &ja);
    more(&fb[over..]);
    more(&fc[..over]);
    expect(&c, &jb);
    more(&fc[over..]);
    expect(&c, &jc);
    check(c.receiver.try_recv().is_err(), "nothing is delivered that was not sent");
    close_in();
    check(c.receiver.recv().is_err(), "the end of input ends delivery");
    drop(c);
    check(join(th).is_ok(), "the end of input ends the io threads cleanly");
    reach("c14_live");
}
/// The peer pauses anywhere: nothing is lost, nothing is made up.
#[no_mangle]
pub extern "C" fn h_c14_pause() {
    quiet();
    let tr = pick(3, "transport");
    let (ja, jb) = (item(3, "aé".as_bytes()), item(1, b"r"));
    let mut st = frame(&wire(&ja));
    let la = st.len();
    st.extend_from_slice(&frame(&wire(&jb)));
    let at = pick(st.len() as u32 + 1, "at") as usize;
    env(|e| e.eof = false);
    let (c, th) = open(tr);
    more(&st[..at]);
    settle();
    if at >= la {
        expect(&c, &ja);
    } else {
        check(c.receiver.try_recv().is_err(), "nothing is delivered before it is complete");
    }
    settle();
    if at >= st.len() {
        expect(&c, &jb);
    } else {
        check(c.receiver.try_recv().is_err(), "nothing is delivered before it is complete");
    }
    more(&st[at..]);
    close_in();
    if at < la {
        expect(&c, &ja);
    }
    if at < st.len() {
        expect(&c, &jb);
    }
    check(c.receiver.recv().is_err(), "the end of input ends delivery");
    drop(c);
    check(join(th).is_ok(), "the end of input ends the io threads cleanly");
    reach("c14_pause");
}
/// The connection is dropped while messages are still arriving.
#[no_mangle]
pub extern "C" fn h_c14_drop() {
    quiet();
    let tr = pick(3, "transport");
    let take = pick(3, "take");
    let early = pick(2, "early") == 1;
    let bad = pick(2, "bad") == 1;
    let mut st = items(&[(3, b"1"), (0, b"2"), (1, b"3"), (3, b"4")]);
    if bad {
        st.extend_from_slice(b"rubbish\r\n");
    }
    if early {
        feed(st.clone());
    }
    env(|e| {
        e.eof = early;
        e.rjit = 2;
    });
    let (c, th) = open(tr);
    if early {
        for _ in 0..take {
            check(c.receiver.recv().is_ok(), "every well-formed message before the fault is delivered");
        }
    }
    if pick(2, "settle") == 1 {
        settle();
    }
    drop(c);
    if !early {
        if pick(2, "settle") == 1 {
            settle();
        }
        more(&st);
    }
    check(join(th).is_ok(), "dropping the connection ends the io threads cleanly");
    reach("c14_drop");
}
/// End of input between messages is a clean end, and the writer outlives it.
#[no_mangle]
pub extern "C" fn h_c14_eof() {
    quiet();
    let tr = pick(3, "transport");
    let k = pick(3, "messages");
    let j = item(3, b"m");
    let mut st = vec![];
    for _ in 0..k {
        st.extend_from_slice(&frame(&wire(&j)));
    }
    feed(st);
    env(|e| e.rjit = 2);
    let (c, th) = open(tr);
    let ms = collect(&c);
    check(ms.len() == k as usize, "every message before the end is delivered");
    check(c.receiver.try_recv().is_err(), "nothing is delivered after the end");
    check(c.send(Notification::Initialized).is_ok(), "the connection still sends after the end of input");
    settle();
    drop(c);
    check(join(th).is_ok(), "the end of input ends the io threads cleanly");
    let f = rpc(&out(), "eof");
    check(f.len() == 1 && f[0].same(&obj(vec![("method", s("build/initialized"))])), "what was sent after the end of input is written");
    reach("c14_eof");
}
/// Messages wait for a slow receiver and come out in order.
#[no_mangle]
pub extern "C" fn h_c14_late() {
    quiet();
    let tr = pick(3, "transport");
    let mut st = vec![];
    let mut want = vec![];
    for i in 0..5u32 {
        let j = item((i * 3) % ITEMS, &dec(i as usize));
        st.extend_from_slice(&frame(&wire(&j)));
        want.push(j);
    }
    feed(st);
    env(|e| e.rjit = 2);
    let (c, th) = open(tr);
    for j in &want {
        if pick(2, "settle") == 1 {
            settle();
        }
        expect(&c, j);
    }
    check(c.receiver.recv().is_err(), "the end of input ends delivery");
    drop(c);
    check(join(th).is_ok(), "the end of input ends the io threads cleanly");
    reach("c14_late");
}

/// Hundreds of messages wait for a receiver that only comes later.
#[no_mangle]
pub extern "C" fn h_c14_many() {
    quiet();
    let tr = pick(3, "transport");
    let len = [10, 80, 300, 1100][pick(4, "len") as usize];
    let exit = pick(2, "exit") == 1;
    let mut st = vec![];
    let mut want = vec![];
    for i in 0..len {
        let j = item(i as u32 % ITEMS, &dec(i));
        st.extend_from_slice(&frame(&wire(&j)));
        want.push(j);
    }
    if exit {
        st.extend_from_slice(&frame(&wire(&obj(vec![("method", s("build/exit"))]))));
    }
    feed(st);
    env(|e| {
        e.eof = !exit;
        e.rjit = 1;
    });
    let (c, th) = open(tr);
    let late = pick(3, "late");
    assume(len < 1000 || late == 1);
    wait([0, 45, 400][late as usize]);
    let ms = collect(&c);
    check(ms.len() == len + exit as usize, "every message waits for its receiver");
    let mut ok = true;
    for (m, j) in ms.iter().zip(&want) {
        ok &= fits(m, j, classify(&j.clone().with("jsonrpc", s("2.0"))));
    }
    check(ok, "waiting messages are delivered unaltered and in order");
    drop(c);
    check(join(th).is_ok(), "the end of input ends the io threads cleanly");
    reach("c14_many");
}
/// Long silences in front of, inside and between messages.
#[no_mangle]
pub extern "C" fn h_c14_idle() {
    quiet();
    let tr = pick(3, "transport");
    let secs = [2, 11, 31, 61, 301, 3700][pick(6, "gap") as usize];
    let (ja, jb) = (item(3, b"a"), item(1, b"r"));
    let (fa, fb) = (frame(&wire(&ja)), frame(&wire(&jb)));
    // in front, inside the name, the number, the line end, the empty line, the body
    let at = [0, 5, 17, 19, 20, 21, 22, 40][pick(8, "at") as usize];
    let second = pick(2, "second") == 1;
    env(|e| e.eof = false);
    let (c, th) = open(tr);
    if second {
        more(&fa);
        expect(&c, &ja);
    }
    let f = if second { &fb } else { &fa };
    if at > 0 {
        more(&f[..at]);
    }
    wait(secs);
    check(c.receiver.try_recv().is_err(), "nothing is delivered before it is complete");
    more(&f[at..]);
    expect(&c, if second { &jb } else { &ja });
    close_in();
    check(c.receiver.recv().is_err(), "the end of input ends delivery");
    drop(c);
    check(join(th).is_ok(), "silence is no error");
    reach("c14_idle");
}
/// What merely resembles exit does not end the reader.
#[no_mangle]
pub extern "C" fn h_c14_near() {
    quiet();
    let tr = pick(3, "transport");
    let x = b"build/exit";
    let t = text(1, "t");
    let j = match pick(9, "how") {
        0 => {
            let at = pick(10, "at") as usize;
            let mut m = x.to_vec();
            assume(t[0] != m[at]);
            m[at] = t[0];
            obj(vec![("method", J::Str(m))])
        }
        1 => obj(vec![("method", J::Str([x, &t[..]].concat()))]),
        2 => obj(vec![("method", J::Str([&t[..], x].concat()))]),
        3 => obj(vec![("method", J::Str(x[..9].to_vec()))]),
        4 => obj(vec![("id", J::Str(t)), ("method", s("build/exit"))]),
        5 => obj(vec![("id", n("1")), ("method", s("build/exit")), ("params", J::Null)]),
        6 => obj(vec![("method", s([&"exit"[..], "$/exit", "build/shutdown", "build/initialized", "Build/Exit"][pick(5, "other") as usize]))]),
        7 => obj(vec![("id", s("build/exit")), ("result", obj(vec![("method", s("build/exit"))]))]),
        _ => obj(vec![("method", s("x/y")), ("params", obj(vec![("method", s("build/exit"))]))]),
    };
    let next = item(pick(ITEMS, "next"), b"n");
    let mut f = frame(&wire(&j));
    f.extend_from_slice(&frame(&wire(&next)));
    f.extend_from_slice(&frame(b"{\"jsonrpc\":\"2.0\",\"method\":\"build/exit\"}"));
    f.extend_from_slice(&items(&[(3, b"late")]));
    feed(f);
    env(|e| e.eof = false);
    let (c, th) = open(tr);
    let ms = collect(&c);
    check(ms.len() == 3, "only exit is the last message");
    let mut ok = true;
    for (m, j) in ms.iter().zip(&[j, next]) {
        ok &= fits(m, j, classify(&j.clone().with("jsonrpc", s("2.0"))));
    }
    check(ok, "messages before exit are delivered in order");
    check(matches!(ms.last(), Some(Message::Notification(Notification::Exit))), "exit itself is delivered");
    drop(c);
    check(join(th).is_ok(), "exit ends the io threads cleanly");
    reach("c14_near");
}
/// A few free bytes between two good frames.
#[no_mangle]
pub extern "C" fn h_c03_between() {
    quiet();
    let tr = pick(3, "transport");
    let n = 1 + pick(3, "n") as usize;
    let mut st = items(&[(5, b"")]);
    st.extend_from_slice(&bytes(n, "b"));
    st.extend_from_slice(&items(&[(3, b"t")]));
    judge(tr, &st);
    reach("c03_between");
}
