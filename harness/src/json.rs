//! Reference JSON (RFC 8259), written independently of serde: the oracle the
//! properties are stated against.  Works on symbolic bytes.
#![allow(dead_code)]

#[derive(Clone, Debug)]
pub enum J {
    Null,
    Bool(bool),
    /// the number's text
    Num(Vec<u8>),
    Str(Vec<u8>),
    Arr(Vec<J>),
    Obj(Vec<(Vec<u8>, J)>),
}

pub fn s(t: &str) -> J {
    J::Str(t.as_bytes().to_vec())
}
pub fn n(t: &str) -> J {
    J::Num(t.as_bytes().to_vec())
}
pub fn obj(v: Vec<(&str, J)>) -> J {
    J::Obj(v.into_iter().map(|(k, j)| (k.as_bytes().to_vec(), j)).collect())
}

impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|(n, _)| n == k.as_bytes()).map(|(_, j)| j),
            _ => None,
        }
    }
    pub fn len(&self) -> usize {
        match self {
            J::Obj(v) => v.len(),
            J::Arr(v) => v.len(),
            _ => 0,
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => &[],
        }
    }
    pub fn bytes(&self) -> &[u8] {
        match self {
            J::Str(v) | J::Num(v) => v,
            _ => &[],
        }
    }
    pub fn with(mut self, k: &str, j: J) -> J {
        if let J::Obj(v) = &mut self {
            v.push((k.as_bytes().to_vec(), j));
        }
        self
    }
    pub fn without(mut self, k: &str) -> J {
        if let J::Obj(v) = &mut self {
            v.retain(|(n, _)| n != k.as_bytes());
        }
        self
    }
    /// Equality of JSON values: objects are unordered and never equal when a
    /// member is repeated.
    pub fn same(&self, o: &J) -> bool {
        match (self, o) {
            (J::Null, J::Null) => true,
            (J::Bool(a), J::Bool(b)) => a == b,
            (J::Num(a), J::Num(b)) => a == b,
            (J::Str(a), J::Str(b)) => (a.len() == b.len()) && a == b,
            (J::Arr(a), J::Arr(b)) => {
                if a.len() != b.len() {
                    return false;
                }
                let mut ok = true;
                for (x, y) in a.iter().zip(b) {
                    ok &= x.same(y);
                }
                ok
            }
            (J::Obj(a), J::Obj(b)) => {
                if a.len() != b.len() {
                    return false;
                }
                let mut ok = true;
                for (k, v) in a {
                    let mut hits = 0;
                    for (l, w) in b {
                        if k == l {
                            hits += 1;
                            ok &= v.same(w);
                        }
                    }
                    if hits != 1 {
                        return false;
                    }
                }
                ok
            }
            _ => false,
        }
    }
    pub fn text(&self) -> Vec<u8> {
        let mut o = vec![];
        self.put(&mut o, false);
        o
    }
    /// the same value with insignificant whitespace everywhere
    pub fn airy(&self) -> Vec<u8> {
        let mut o = vec![];
        self.put(&mut o, true);
        o
    }
    fn put(&self, o: &mut Vec<u8>, air: bool) {
        match self {
            J::Null => o.extend_from_slice(b"null"),
            J::Bool(true) => o.extend_from_slice(b"true"),
            J::Bool(false) => o.extend_from_slice(b"false"),
            J::Num(t) => o.extend_from_slice(t),
            J::Str(t) => put_str(t, o),
            J::Arr(v) => {
                o.push(b'[');
                for (i, j) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(b',');
                    }
                    if air {
                        o.extend_from_slice(b"\n\t");
                    }
                    j.put(o, air);
                }
                if air {
                    o.extend_from_slice(b" ");
                }
                o.push(b']');
            }
            J::Obj(v) => {
                o.push(b'{');
                for (i, (k, j)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(b',');
                    }
                    if air {
                        o.extend_from_slice(b"\r\n ");
                    }
                    put_str(k, o);
                    if air {
                        o.push(b' ');
                    }
                    o.push(b':');
                    if air {
                        o.push(b'\t');
                    }
                    j.put(o, air);
                }
                if air {
                    o.extend_from_slice(b" ");
                }
                o.push(b'}');
            }
        }
    }
}
const HEX: &[u8; 16] = b"0123456789abcdef";
fn put_str(t: &[u8], o: &mut Vec<u8>) {
    o.push(b'"');
    for &b in t {
        if b == b'"' || b == b'\\' {
            o.push(b'\\');
            o.push(b);
        } else if b < 0x20 {
            o.extend_from_slice(b"\\u00");
            o.push(HEX[(b >> 4) as usize]);
            o.push(HEX[(b & 15) as usize]);
        } else {
            o.push(b);
        }
    }
    o.push(b'"');
}

struct P<'a> {
    t: &'a [u8],
    i: usize,
    depth: usize,
}
/// Strict parse of a whole text (surrounding whitespace allowed).  None if it
/// is not JSON.
pub fn parse(t: &[u8]) -> Option<J> {
    let mut p = P { t, i: 0, depth: 0 };
    p.ws();
    let j = p.value()?;
    p.ws();
    if p.i == t.len() {
        Some(j)
    } else {
        None
    }
}
/// Deepest nesting the implementation is required to accept (serde_json's limit).
pub const DEPTH: usize = 127;

impl<'a> P<'a> {
    fn peek(&self) -> Option<u8> {
        self.t.get(self.i).copied()
    }
    fn ws(&mut self) {
        while let Some(b) = self.peek() {
            if b == b' ' || b == b'\n' || b == b'\r' || b == b'\t' {
                self.i += 1;
            } else {
                break;
            }
        }
    }
    fn lit(&mut self, l: &[u8], j: J) -> Option<J> {
        if self.t.len() - self.i < l.len() {
            return None;
        }
        for (k, b) in l.iter().enumerate() {
            if self.t[self.i + k] != *b {
                return None;
            }
        }
        self.i += l.len();
        Some(j)
    }
    fn value(&mut self) -> Option<J> {
        match self.peek()? {
            b'n' => self.lit(b"null", J::Null),
            b't' => self.lit(b"true", J::Bool(true)),
            b'f' => self.lit(b"false", J::Bool(false)),
            b'"' => self.string().map(J::Str),
            b'[' => {
                self.i += 1;
                self.depth += 1;
                if self.depth > DEPTH {
                    return None;
                }
                let mut v = vec![];
                self.ws();
                if self.peek()? == b']' {
                    self.i += 1;
                    self.depth -= 1;
                    return Some(J::Arr(v));
                }
                loop {
                    self.ws();
                    v.push(self.value()?);
                    self.ws();
                    let b = self.peek()?;
                    self.i += 1;
                    if b == b']' {
                        self.depth -= 1;
                        return Some(J::Arr(v));
                    }
                    if b != b',' {
                        return None;
                    }
                }
            }
            b'{' => {
                self.i += 1;
                self.depth += 1;
                if self.depth > DEPTH {
                    return None;
                }
                let mut v = vec![];
                self.ws();
                if self.peek()? == b'}' {
                    self.i += 1;
                    self.depth -= 1;
                    return Some(J::Obj(v));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws();
                    if self.peek()? != b':' {
                        return None;
                    }
                    self.i += 1;
                    self.ws();
                    let j = self.value()?;
                    v.push((k, j));
                    self.ws();
                    let b = self.peek()?;
                    self.i += 1;
                    if b == b'}' {
                        self.depth -= 1;
                        return Some(J::Obj(v));
                    }
                    if b != b',' {
                        return None;
                    }
                }
            }
            _ => self.number(),
        }
    }
    fn digits(&mut self) -> bool {
        let st = self.i;
        while let Some(b) = self.peek() {
            if b.wrapping_sub(b'0') < 10 {
                self.i += 1;
            } else {
                break;
            }
        }
        self.i > st
    }
    fn number(&mut self) -> Option<J> {
        let st = self.i;
        if self.peek()? == b'-' {
            self.i += 1;
        }
        if self.peek()? == b'0' {
            self.i += 1;
        } else if !self.digits() {
            return None;
        }
        if self.peek() == Some(b'.') {
            self.i += 1;
            if !self.digits() {
                return None;
            }
        }
        if let Some(b) = self.peek() {
            if b == b'e' || b == b'E' {
                self.i += 1;
                if let Some(c) = self.peek() {
                    if c == b'+' || c == b'-' {
                        self.i += 1;
                    }
                }
                if !self.digits() {
                    return None;
                }
            }
        }
        Some(J::Num(self.t[st..self.i].to_vec()))
    }
    fn hex4(&mut self) -> Option<u32> {
        let mut v = 0;
        for _ in 0..4 {
            let b = self.peek()?;
            let d = if b.wrapping_sub(b'0') < 10 {
                b - b'0'
            } else if (b | 32).wrapping_sub(b'a') < 6 {
                (b | 32) - b'a' + 10
            } else {
                return None;
            };
            v = v * 16 + d as u32;
            self.i += 1;
        }
        Some(v)
    }
    fn string(&mut self) -> Option<Vec<u8>> {
        if self.peek()? != b'"' {
            return None;
        }
        self.i += 1;
        let mut o = vec![];
        loop {
            let b = self.peek()?;
            self.i += 1;
            if b == b'"' {
                return Some(o);
            }
            if b < 0x20 {
                return None;
            }
            if b != b'\\' {
                o.push(b);
                continue;
            }
            let e = self.peek()?;
            self.i += 1;
            match e {
                b'"' | b'\\' | b'/' => o.push(e),
                b'b' => o.push(8),
                b'f' => o.push(12),
                b'n' => o.push(10),
                b'r' => o.push(13),
                b't' => o.push(9),
                b'u' => {
                    let mut c = self.hex4()?;
                    if c & 0xfc00 == 0xdc00 {
                        return None;
                    }
                    if c & 0xfc00 == 0xd800 {
                        if self.peek()? != b'\\' {
                            return None;
                        }
                        self.i += 1;
                        if self.peek()? != b'u' {
                            return None;
                        }
                        self.i += 1;
                        let d = self.hex4()?;
                        if d & 0xfc00 != 0xdc00 {
                            return None;
                        }
                        c = 0x10000 + ((c & 0x3ff) << 10) + (d & 0x3ff);
                    }
                    utf8(c, &mut o);
                }
                _ => return None,
            }
        }
    }
}
pub fn utf8(c: u32, o: &mut Vec<u8>) {
    if c < 0x80 {
        o.push(c as u8);
    } else if c < 0x800 {
        o.push(0xc0 | (c >> 6) as u8);
        o.push(0x80 | (c & 63) as u8);
    } else if c < 0x10000 {
        o.push(0xe0 | (c >> 12) as u8);
        o.push(0x80 | ((c >> 6) & 63) as u8);
        o.push(0x80 | (c & 63) as u8);
    } else {
        o.push(0xf0 | (c >> 18) as u8);
        o.push(0x80 | ((c >> 12) & 63) as u8);
        o.push(0x80 | ((c >> 6) & 63) as u8);
        o.push(0x80 | (c & 63) as u8);
    }
}
