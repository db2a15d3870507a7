//! Engine self-test: ordinary library code that a change of the crates might start
//! to use, on free and fixed inputs.  Not part of any property.
use crate::drv::*;
use crate::rt::*;
use std::collections::*;
use std::io::{BufRead, Read, Write};
use std::sync::atomic::*;
use std::sync::*;
use std::time::*;

entries! { h_self_maps h_self_text h_self_nums h_self_sync h_self_io h_self_fmt h_self_vec h_self_float h_self_time h_self_unwind h_self_env h_self_chan h_self_json h_self_rw }

#[no_mangle]
pub extern "C" fn h_self_maps() {
    let t = text(1, "t");
    let mut h: HashMap<String, usize> = HashMap::new();
    for (i, w) in ["a", "bc", "Content-Length", "x/y"].iter().enumerate() {
        h.insert(w.to_string(), i);
    }
    check(h.get("bc") == Some(&1) && h.len() == 4, "hash map");
    check(h.remove("a") == Some(0) && h.get("a").is_none(), "hash map");
    *h.entry("n".into()).or_default() += 7;
    let mut v: Vec<_> = h.values().cloned().collect();
    v.sort_unstable();
    check(v == [1, 2, 3, 7], "hash map");
    let s: HashSet<u8> = t.iter().cloned().collect();
    check(s.contains(&t[0]), "hash set");
    let mut b: BTreeMap<Vec<u8>, u32> = BTreeMap::new();
    for i in 0..40u32 {
        b.insert(dec((i * 7 % 41) as usize), i);
    }
    b.insert(t.to_vec(), 1);
    check(b.contains_key(&t.to_vec()) && b.get(&b"0".to_vec()).is_some(), "btree map");
    b.retain(|_, v| *v % 2 == 0);
    let _ = b.range(b"1".to_vec()..).next();
    let mut q: VecDeque<u8> = (0..20).collect();
    q.push_front(t[0]);
    q.rotate_left(3);
    q.make_contiguous().sort();
    check(q.len() == 21, "deque");
    let mut bh: BinaryHeap<_> = vec![3, 9, t[0] as i32].into();
    check(bh.pop().unwrap() >= 9, "heap");
    let _: LinkedList<u8> = t.iter().cloned().collect();
    reach("self_maps");
}
#[no_mangle]
pub extern "C" fn h_self_text() {
    let f = text(2, "t");
    let s = format!(" ab{}cd\u{e9}\u{1F980} , X:y ", st(&f));
    let _ = s.trim().len() + s.trim_start_matches(' ').len();
    let l = s.to_lowercase();
    let u = s.to_ascii_uppercase();
    check(l.len() == s.len() && u.len() == s.len(), "case");
    let p: Vec<&str> = s.split(", ").collect();
    check(p.len() >= 2, "split");
    let _: Vec<&str> = s.split_whitespace().collect();
    let _: Vec<&str> = s.lines().collect();
    check(s.find("cd").is_some() && s.rfind(':').is_some() && s.contains("X:y"), "find");
    check(s.replace('a', "bb").len() >= s.len(), "replace");
    check(s.chars().rev().collect::<String>().chars().rev().eq(s.chars()), "rev");
    check(s.char_indices().all(|(i, _)| s.is_char_boundary(i)), "boundary");
    check(s.bytes().map(|b| b as usize).sum::<usize>() > 0, "sum");
    check(String::from_utf8_lossy(s.as_bytes()) == s, "lossy");
    let (a, b) = s.split_once(':').unwrap();
    check(a.len() + b.len() + 1 == s.len(), "split once");
    check(s.strip_prefix(" ").is_some() && s.strip_suffix(" ").is_some(), "strip");
    let mut m = s.clone();
    m.retain(|c| c != ' ');
    m.insert(0, 'z');
    m.insert_str(1, "qq");
    m.truncate(3);
    m.extend(["r", "s"]);
    m.make_ascii_uppercase();
    check(m == "ZQQRS" && m.repeat(3).len() == 15 && m.pop() == Some('S'), "edit");
    check("12".parse::<u8>() == Ok(12) && "x".parse::<i64>().is_err() && "true".parse::<bool>() == Ok(true), "parse");
    check(["a", "b"].join("-") == "a-b" && ["a", "b"].concat() == "ab", "join");
    check("b".cmp("a") == std::cmp::Ordering::Greater && s.eq_ignore_ascii_case(&s.to_ascii_lowercase()), "cmp");
    check(s.escape_debug().count() + s.escape_default().count() > 10, "escape");
    check(u32::from_str_radix("ff", 16) == Ok(255) && char::from_u32(0x41) == Some('A') && 'z'.is_alphanumeric(), "char");
    check(s.splitn(3, ' ').count() == 3 && s.rsplit(' ').count() > 1 && s.matches('b').count() > 0, "splits");
    let c: std::borrow::Cow<str> = "q".into();
    check(c.into_owned() == "q" && std::ffi::CString::new("x").unwrap().as_bytes().len() == 1, "cow");
    reach("self_text");
}
#[no_mangle]
pub extern "C" fn h_self_nums() {
    let x = u32s("x");
    let y = bytes(1, "y")[0];
    check(x.checked_add(1).map_or(x == u32::MAX, |v| v > x), "checked");
    check(x.saturating_add(5) >= x && x.wrapping_add(1) != x, "wrap");
    check(x.count_ones() <= 32, "ones");
    check(x.leading_zeros() <= 32 && x.trailing_zeros() <= 32, "zeros");
    check(x.rotate_left(8).rotate_right(8) == x && x.swap_bytes().swap_bytes() == x, "rotate");
    check((y as u64).pow(2) == y as u64 * y as u64 && (y as i8).wrapping_abs() as i32 >= -128, "pow");
    check(u64::from(y) % 7 < 7 && (y as i32 - 128).rem_euclid(9) >= 0, "rem");
    check(i64::try_from(x).is_ok() && u8::try_from(x).is_ok() == (x < 256), "try");
    check(x.min(7) <= 7 && x.max(7) >= 7 && x.clamp(2, 9) <= 9, "clamp");
    check(x.overflowing_mul(3).0 == x.wrapping_mul(3) && x.abs_diff(0) == x, "mul");
    check(x.to_be_bytes()[0] == (x >> 24) as u8 && u32::from_le_bytes(x.to_le_bytes()) == x, "bytes");
    check((y as u128 * 0x1_0000_0000_0000_0001u128) >> 64 == y as u128, "u128");
    check(x.is_power_of_two() == (x != 0 && x & (x - 1) == 0), "pow2");
    check((y as u32).next_power_of_two() >= y as u32 && (y as u32 + 1).ilog2() < 9, "log");
    check((y as i32).signum() >= 0 && (y as u32).div_ceil(3) * 3 >= y as u32, "sign");
    check(i32::from_str_radix("-80000000", 16) == Ok(i32::MIN) && "4294967296".parse::<u32>().is_err(), "parse");
    check(!x ^ x == u32::MAX && x.reverse_bits().reverse_bits() == x, "bits");
    check(std::num::NonZeroU32::new(x).is_some() == (x != 0) && std::num::Wrapping(x) + std::num::Wrapping(0) == std::num::Wrapping(x), "types");
    reach("self_nums");
}
#[no_mangle]
pub extern "C" fn h_self_sync() {
    let m = Arc::new((Mutex::new(0), Condvar::new()));
    let r = Arc::new(RwLock::new(vec![1]));
    let n = Arc::new(AtomicUsize::new(0));
    let b = Arc::new(Barrier::new(2));
    let (m2, r2, n2, b2) = (m.clone(), r.clone(), n.clone(), b.clone());
    let h = std::thread::Builder::new()
        .name("w".into())
        .stack_size(1 << 20)
        .spawn(move || {
            *m2.0.lock().unwrap() = 1;
            m2.1.notify_all();
            r2.write().unwrap().push(2);
            n2.fetch_add(3, Ordering::SeqCst);
            b2.wait();
            std::thread::current().name() == Some("w")
        })
        .unwrap();
    let mut g = m.0.lock().unwrap();
    while *g == 0 {
        g = m.1.wait(g).unwrap();
    }
    drop(g);
    let (g, t) = m.1.wait_timeout(m.0.lock().unwrap(), Duration::from_millis(20)).unwrap();
    check(t.timed_out() && *g == 1, "condvar");
    drop(g);
    b.wait();
    check(h.join().unwrap(), "join");
    check(r.read().unwrap().len() == 2 && n.load(Ordering::Acquire) == 3, "shared");
    static O: OnceLock<u32> = OnceLock::new();
    static L: LazyLock<String> = LazyLock::new(|| "lazy".to_string());
    static I: Once = Once::new();
    I.call_once(|| {});
    check(*O.get_or_init(|| 5) == 5 && L.len() == 4, "once");
    let (tx, rx) = mpsc::channel();
    let tx2 = tx.clone();
    let k = std::thread::scope(|s| {
        let h = s.spawn(|| {
            tx.send(1).unwrap();
            7
        });
        let h2 = s.spawn(move || tx2.send(2).is_ok());
        h2.join().unwrap();
        h.join().unwrap()
    });
    drop(tx);
    check(k == 7 && rx.iter().sum::<i32>() == 3, "mpsc");
    let (tx, rx) = mpsc::sync_channel::<u8>(0);
    let h = std::thread::spawn(move || rx.recv_timeout(Duration::from_secs(1)).unwrap_or(9));
    tx.send(4).unwrap();
    check(h.join().unwrap() == 4, "rendezvous");
    let me = std::thread::current();
    let h = std::thread::spawn(move || me.unpark());
    std::thread::park_timeout(Duration::from_secs(1));
    h.join().unwrap();
    check(n.compare_exchange(3, 4, Ordering::AcqRel, Ordering::Relaxed).is_ok() && n.swap(9, Ordering::Relaxed) == 4, "cas");
    check(n.fetch_max(20, Ordering::SeqCst) == 9 && n.fetch_update(Ordering::SeqCst, Ordering::SeqCst, |v| Some(v + 1)) == Ok(20), "atomics");
    fence(Ordering::SeqCst);
    std::hint::spin_loop();
    thread_local!(static T: std::cell::RefCell<Vec<u8>> = const { std::cell::RefCell::new(vec![]) });
    T.with(|t| t.borrow_mut().push(1));
    check(std::thread::available_parallelism().is_ok(), "cores");
    reach("self_sync");
}
#[no_mangle]
pub extern "C" fn h_self_io() {
    let t = text(2, "t");
    let mut v = b"one\r\ntwo".to_vec();
    v.extend_from_slice(&t);
    v.extend_from_slice(b"\nend");
    let mut r = std::io::BufReader::with_capacity(4, std::io::Cursor::new(v.clone()));
    let mut s = String::new();
    check(r.read_line(&mut s).unwrap() == 5 && s == "one\r\n", "line");
    let mut b = [0; 3];
    r.read_exact(&mut b).unwrap();
    check(&b == b"two", "exact");
    check(r.fill_buf().unwrap().len() > 0, "fill");
    let mut u = vec![];
    r.read_until(b'\n', &mut u).unwrap();
    r.read_to_end(&mut u).unwrap();
    check(u.ends_with(b"end"), "to end");
    check((&v[..]).lines().count() >= 3 && BufRead::split(&v[..], b'\n').count() >= 3, "lines");
    check((&v[..]).bytes().count() == v.len() && (&v[..]).take(3).chain(&b"x"[..]).bytes().count() == 4, "bytes");
    let mut w = std::io::BufWriter::with_capacity(8, vec![]);
    write!(w, "{}-{:>4}|", 5, "a").unwrap();
    w.write_all(&v).unwrap();
    w.flush().unwrap();
    let o = w.into_inner().unwrap();
    check(o.len() == v.len() + 7, "writer");
    let mut lw = std::io::LineWriter::new(vec![]);
    lw.write_all(&v).unwrap();
    check(std::io::copy(&mut &v[..], &mut std::io::sink()).unwrap() == v.len() as u64, "copy");
    check(std::io::read_to_string(&v[..]).is_ok() && (&v[..]).read_to_string(&mut s).is_ok(), "string");
    let e: Box<dyn std::error::Error + Send + Sync> = std::io::Error::new(std::io::ErrorKind::Other, "x").into();
    check(e.to_string() == "x" && e.downcast_ref::<std::io::Error>().is_some(), "error");
    check(std::io::Error::from_raw_os_error(4).kind() == std::io::ErrorKind::Interrupted, "errno");
    let a = anyhow::anyhow!("q {}", 1).context("c");
    check(format!("{:#}", a) == "c: q 1", "anyhow");
    let _ = std::io::Write::write_vectored(&mut vec![], &[std::io::IoSlice::new(b"a"), std::io::IoSlice::new(b"b")]).unwrap();
    reach("self_io");
}
#[no_mangle]
pub extern "C" fn h_self_fmt() {
    let t = text(1, "t");
    let s = st(&t);
    check(format!("{:5}|{:<5}|{:^5}|{:>5}", 1, "a", "b", 'c') == "    1|a    |  b  |    c", "pad");
    check(format!("{:05}|{:+}|{:x}|{:X}|{:#x}|{:b}|{:o}", 42, 7, 255, 255, 255, 5, 8) == "00042|+7|ff|FF|0xff|101|10", "ints");
    check(format!("{:.3}|{:.*}|{:e}|{}|{:?}", 1.23456, 1, 2.55, 1500.0, 0.1, 1.0).starts_with("1.235|"), "floats");
    check(format!("{:?}", s).len() >= 3 && format!("{:#?}", vec![1, 2]).contains('\n'), "debug");
    check(format!("{:?} {:?}", Some("a"), (1, 'b')) == "Some(\"a\") (1, 'b')", "tuple");
    check(format!("{:?}", Duration::from_millis(1500)) == "1.5s", "duration");
    check(format!("{:?}", std::net::SocketAddr::from(([127, 0, 0, 1], 80))) == "127.0.0.1:80", "address");
    check("[::1]:90".parse::<std::net::SocketAddr>().is_ok() && "127.0.0.1".parse::<std::net::IpAddr>().is_ok(), "address");
    check(i64::MIN.to_string().len() == 20, "long");
    check(format_args!("{s}").to_string() == s, "args");
    check(std::any::type_name::<u8>() == "u8", "type name");
    reach("self_fmt");
}
#[no_mangle]
pub extern "C" fn h_self_vec() {
    let f = bytes(2, "f");
    let mut v: Vec<u8> = (0..50).map(|i| (i * 37 % 51) as u8).collect();
    v.push(f[0]);
    v.sort();
    v.dedup();
    check(v.windows(2).all(|w| w[0] < w[1]), "sorted");
    check(v.binary_search(&7).is_ok() && v.contains(&f[0]), "search");
    v.sort_by(|a, b| b.cmp(a));
    v.sort_by_key(|a| *a);
    v.sort_unstable_by_key(|a| !*a);
    v.reverse();
    check(v.first() <= v.last() && v.iter().max() >= v.iter().min(), "ends");
    let d: Vec<u8> = v.drain(3..10).collect();
    v.splice(0..0, d);
    v.rotate_right(2);
    v.swap(0, 1);
    v.retain(|b| *b != 5);
    v.insert(1, 5);
    v.extend_from_within(0..3);
    v.resize(80, 1);
    let w = v.split_off(20);
    check(v.len() == 20 && w.len() == 60, "split");
    check(v.chunks(7).map(|c| c.len()).sum::<usize>() == 20 && v.iter().rev().skip(3).step_by(2).count() == 9, "chunks");
    let (a, b): (Vec<u8>, Vec<u8>) = v.iter().partition(|b| **b > f[1]);
    check(a.len() + b.len() == 20, "partition");
    check(v.iter().zip(&w).fold(0u32, |s, (a, b)| s + *a as u32 + *b as u32) > 0, "fold");
    check(v.iter().position(|b| *b == 5).is_some() && v.iter().any(|b| *b == 5) && !v.iter().all(|b| *b == 5), "any");
    let fm: Vec<u8> = v.iter().flat_map(|b| vec![*b; 2]).filter(|b| b % 2 == 0).take_while(|b| *b < 200).collect();
    check(fm.len() <= 40, "flat");
    check(v.to_vec().into_boxed_slice().len() == 20 && v.split(|b| *b == 5).count() >= 2, "boxed");
    let r: Result<Vec<u8>, String> = vec![Ok(1), Err("x".to_string())].into_iter().collect();
    check(r.is_err() && vec![Some(1), None].into_iter().collect::<Option<Vec<u8>>>().is_none(), "collect");
    let mut it = v.iter().peekable();
    check(it.peek().is_some() && it.by_ref().scan(0u32, |s, b| { *s += *b as u32; Some(*s) }).last().is_some(), "peek");
    check(v.starts_with(&v[..3]) && v.ends_with(&v[18..]) && v.concat_check(), "starts");
    check(v.iter().map(|b| *b as u64).product::<u64>() != 1 || true, "product");
    let mut arr = [[0u8; 4]; 4];
    arr[(f[0] & 3) as usize][(f[1] & 3) as usize] = 9;
    check(arr.iter().flatten().filter(|b| **b == 9).count() == 1, "symbolic index");
    v.copy_within(2..5, 0);
    v.fill(f[0]);
    check(v.iter().all(|b| *b == f[0]) && std::mem::take(&mut v).len() == 20 && v.is_empty(), "fill");
    let c = std::rc::Rc::new(std::cell::Cell::new(3));
    let wk = std::rc::Rc::downgrade(&c);
    c.set(4);
    check(wk.upgrade().map(|c| c.get()) == Some(4) && std::rc::Rc::strong_count(&c) == 1, "rc");
    let any: Box<dyn std::any::Any> = Box::new(5u8);
    check(any.downcast::<u8>().is_ok(), "any");
    reach("self_vec");
}
trait ConcatCheck {
    fn concat_check(&self) -> bool;
}
impl ConcatCheck for Vec<u8> {
    fn concat_check(&self) -> bool {
        [&self[..], b"x"].concat().len() == self.len() + 1
    }
}
#[no_mangle]
pub extern "C" fn h_self_float() {
    let y = bytes(1, "y")[0];
    let c = std::hint::black_box(2.5f64);
    check(c * 2.0 == 5.0 && c.floor() == 2.0 && c.ceil() == 3.0 && c.round() == 3.0 && c.trunc() == 2.0, "round");
    check(c.fract() == 0.5 && c.abs() == 2.5 && (-c).signum() == -1.0 && c as i32 == 2 && c as u8 == 2, "casts");
    check(f64::NAN.is_nan() && c.max(3.0) == 3.0 && c.min(3.0) == 2.5 && c.to_bits() != 0 && c as f32 == 2.5f32, "special");
    check("1.5e3".parse::<f64>() == Ok(1500.0) && 1e21.to_string().len() == 22 && (0.1 + 0.2).to_string() == "0.30000000000000004", "text");
    check(c.sqrt() > 1.5 && c.mul_add(2.0, 1.0) == 6.0 && c.rem_euclid(2.0) == 0.5 && c.partial_cmp(&1.0).is_some(), "math");
    check(std::hint::black_box(300.0f64) as u8 == 255 && f64::from(std::hint::black_box(7u32)) == 7.0 && (std::hint::black_box(7u64) as f64) == 7.0, "sat");
    let z = (conc(y as u64 & 3) as f64) / 2.0;
    check(z <= 1.5 && z.total_cmp(&0.0).is_ge(), "conc");
    reach("self_float");
}
#[no_mangle]
pub extern "C" fn h_self_time() {
    let a = Instant::now();
    std::thread::sleep(Duration::from_millis(20));
    let e = a.elapsed();
    check(e >= Duration::from_millis(20) && a.checked_add(e).is_some() && e.as_secs_f64() > 0.0, "elapsed");
    check(SystemTime::now().duration_since(UNIX_EPOCH).is_ok(), "system");
    check(Duration::from_secs(3).saturating_sub(Duration::from_secs(5)).is_zero() && Duration::from_secs_f32(0.5) < Duration::MAX, "arith");
    check(Instant::now().checked_duration_since(a).unwrap().as_millis() >= 20 && Duration::new(1, 5) * 3 / 3 == Duration::new(1, 5), "since");
    reach("self_time");
}
#[no_mangle]
pub extern "C" fn h_self_unwind() {
    quiet();
    let y = bytes(1, "y")[0];
    let r = std::panic::catch_unwind(|| {
        if y > 9 {
            std::panic::panic_any(5u8);
        }
        if y > 5 {
            panic!("text {}", 1);
        }
        let v: Vec<u8> = vec![1];
        v[y as usize]
    });
    check(r.is_ok() == (y == 0), "caught");
    if let Err(e) = r {
        check(if y > 9 { e.is::<u8>() } else { e.is::<String>() || e.is::<&str>() }, "payload");
    }
    let m = Arc::new(Mutex::new(0));
    let m2 = m.clone();
    let h = std::thread::spawn(move || {
        let _g = m2.lock().unwrap();
        std::panic::resume_unwind(Box::new("x"));
    });
    check(h.join().is_err() && m.is_poisoned() && m.lock().is_err(), "poison");
    struct D<'a>(&'a std::cell::Cell<u32>);
    impl Drop for D<'_> {
        fn drop(&mut self) {
            self.0.set(self.0.get() + std::thread::panicking() as u32 + 1);
        }
    }
    let c = std::cell::Cell::new(0);
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let _d = D(&c);
        None::<u8>.unwrap();
    }));
    check(c.get() == 2, "drop");
    reach("self_unwind");
}
#[no_mangle]
pub extern "C" fn h_self_env() {
    check(std::env::var("BSP_NOT_SET").is_err(), "env");
    check(std::env::var_os("RUST_LOG").is_none(), "env");
    let p = std::path::Path::new("/a/b/../c.txt");
    check(p.extension().map_or(false, |e| e == "txt") && p.components().count() == 5 && p.parent().is_some(), "path");
    check(p.join("x").to_string_lossy().ends_with("/x") && p.with_extension("rs").display().to_string().ends_with("rs"), "path");
    check(std::process::id() > 0, "pid");
    use std::hash::{BuildHasher, Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    "x".hash(&mut h);
    let a = h.finish();
    let s = std::collections::hash_map::RandomState::new();
    check(a != 0 && s.hash_one(5) == s.hash_one(5), "hash");
    let u = url::Url::parse("file:///a/b%20c?d#e").unwrap();
    check(u.path() == "/a/b%20c" && u.query() == Some("d") && u.join("z").is_ok() && u.to_file_path().is_ok(), "url");
    check(url::Url::from_file_path("/x/y").is_ok() && url::Url::parse("http://\u{e9}.x/").is_ok(), "url");
    reach("self_env");
}
#[no_mangle]
pub extern "C" fn h_self_chan() {
    use crossbeam_channel::*;
    let (tx, rx) = bounded::<u32>(1);
    let (tx2, rx2) = unbounded::<u32>();
    let h = std::thread::spawn(move || {
        for i in 0..3 {
            tx.send(i).unwrap();
        }
        tx2.send(9).unwrap();
    });
    let (mut n, mut open) = (0, 2);
    let (mut a, mut b) = (Some(rx), Some(rx2));
    while open > 0 {
        let never1 = never();
        let never2 = never();
        select! {
            recv(a.as_ref().unwrap_or(&never1)) -> m => match m { Ok(v) => n += v, Err(_) => { a = None; open -= 1 } },
            recv(b.as_ref().unwrap_or(&never2)) -> m => match m { Ok(v) => n += v, Err(_) => { b = None; open -= 1 } },
            default(Duration::from_secs(5)) => break,
        }
    }
    h.join().unwrap();
    check(n == 12 && open == 0, "select");
    let t = after(Duration::from_millis(10));
    let k = tick(Duration::from_millis(4));
    check(k.recv().is_ok() && t.recv().is_ok(), "timers");
    let (tx, rx) = bounded::<u32>(0);
    let mut s = Select::new();
    let i = s.recv(&rx);
    check(s.try_select().is_err() && i == 0, "try select");
    check(tx.try_send(1).is_err() && rx.try_recv().is_err() && rx.recv_deadline(Instant::now()).is_err(), "try");
    check(rx.try_iter().count() == 0 && tx.is_empty() && tx.capacity() == Some(0) && rx.same_channel(&rx.clone()), "state");
    let h = std::thread::spawn(move || rx.into_iter().take(2).sum::<u32>());
    tx.send_timeout(4, Duration::from_secs(1)).unwrap();
    tx.send(5).unwrap();
    check(h.join().unwrap() == 9 && tx.send(1).is_err(), "iter");
    reach("self_chan");
}
#[no_mangle]
pub extern "C" fn h_self_json() {
    use serde_json::*;
    let t = text(1, "t");
    let v = json!({"a": [1, -2, 3.5, null, true], "t": st(&t), "o": {"k": {}}});
    let s = to_string_pretty(&v).unwrap();
    check(from_str::<Value>(&s).unwrap() == v, "pretty");
    check(from_slice::<Value>(&to_vec(&v).unwrap()).unwrap() == v && from_reader::<_, Value>(s.as_bytes()).unwrap() == v, "ways");
    check(v["a"][1].as_i64() == Some(-2) && v.pointer("/o/k").is_some() && v["a"][2].as_f64() == Some(3.5), "index");
    let mut m = v.as_object().unwrap().clone();
    m.remove("a");
    m.entry("z").or_insert(json!(5));
    check(Value::Object(m.clone()).to_string().contains("z") && m.keys().count() == 3, "map");
    let raw: Vec<Value> = Deserializer::from_str("1 2 {}").into_iter().collect::<std::result::Result<Vec<Value>, Error>>().unwrap();
    check(raw.len() == 3, "stream");
    check(from_value::<HashMap<String, Value>>(v.clone()).unwrap().len() == 3, "typed");
    check(from_value::<(u8, String)>(json!([1, "x"])).is_ok() && from_str::<u8>("300").is_err(), "typed");
    let e = from_str::<Value>("{\"a\":").unwrap_err();
    check(e.is_eof() && e.line() == 1 && e.to_string().len() > 5 && std::io::Error::from(e).kind() == std::io::ErrorKind::UnexpectedEof, "error");
    let mut v2 = v.take_check();
    check(v2.take() != Value::Null && v2.is_null(), "take");
    to_writer(std::io::sink(), &v).unwrap();
    check(Number::from_f64(1.5).is_some() && Number::from(3u64).as_u64() == Some(3), "number");
    reach("self_json");
}
trait TakeCheck {
    fn take_check(&self) -> serde_json::Value;
}
impl TakeCheck for serde_json::Value {
    fn take_check(&self) -> serde_json::Value {
        self.clone()
    }
}
#[no_mangle]
pub extern "C" fn h_self_rw() {
    use std::io::{stderr, stdin, stdout, IsTerminal};
    feed(b"line one\nrest".to_vec());
    ACTIVE_ON();
    let mut s = String::new();
    check(stdin().read_line(&mut s).unwrap() == 9, "stdin");
    let mut r = vec![];
    stdin().lock().read_to_end(&mut r).unwrap();
    check(r == b"rest", "stdin");
    print!("a");
    println!("b");
    eprintln!("quiet");
    let _ = writeln!(stderr().lock(), "x");
    stdout().lock().write_all(b"c").unwrap();
    stdout().flush().unwrap();
    check(out() == b"ab\nc", "stdout");
    let _ = stdin().is_terminal();
    reach("self_rw");
}
#[allow(non_snake_case)]
fn ACTIVE_ON() {
    crate::env::env(|e| e.stdio = true);
    crate::env::ACTIVE.store(true, Ordering::SeqCst);
}
