//! Minimal JSON.
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i64),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}
use J::*;
impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            Obj(v) => v.iter().find(|(n, _)| n == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn i64(&self) -> Option<i64> {
        match self {
            Int(i) => Some(*i),
            Num(f) if f.fract() == 0.0 => Some(*f as i64),
            _ => None,
        }
    }
    pub fn u(&self, k: &str, d: u64) -> u64 {
        self.get(k).and_then(|v| v.i64()).map(|v| v as u64).unwrap_or(d)
    }
    pub fn f64(&self) -> Option<f64> {
        match self {
            Int(i) => Some(*i as f64),
            Num(f) => Some(*f),
            _ => None,
        }
    }
    pub fn str(&self) -> Option<&str> {
        match self {
            Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn s(&self, k: &str) -> String {
        self.get(k).and_then(|v| v.str()).unwrap_or("").to_string()
    }
    pub fn b(&self, k: &str) -> bool {
        matches!(self.get(k), Some(Bool(true)))
    }
    pub fn arr(&self) -> Option<&Vec<J>> {
        match self {
            Arr(a) => Some(a),
            _ => None,
        }
    }
    pub fn dump(&self) -> String {
        let mut s = String::new();
        self.w(&mut s);
        s
    }
    fn w(&self, o: &mut String) {
        match self {
            Null => o.push_str("null"),
            Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            Int(i) => o.push_str(&i.to_string()),
            Num(f) => o.push_str(&format!("{:?}", f)),
            Str(s) => quote(s, o),
            Arr(a) => {
                o.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            Obj(a) => {
                o.push('{');
                for (i, (k, x)) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    quote(k, o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
    pub fn parse(b: &[u8]) -> Option<J> {
        let mut p = P { b, i: 0 };
        let v = p.value(0)?;
        p.ws();
        if p.i == b.len() {
            Some(v)
        } else {
            None
        }
    }
}
pub fn quote(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
}
struct P<'a> {
    b: &'a [u8],
    i: usize,
}
impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\t' | b'\n' | b'\r') {
            self.i += 1;
        }
    }
    fn lit(&mut self, s: &[u8], v: J) -> Option<J> {
        if self.b[self.i..].starts_with(s) {
            self.i += s.len();
            Some(v)
        } else {
            None
        }
    }
    fn value(&mut self, d: usize) -> Option<J> {
        if d > 60 {
            return None;
        }
        self.ws();
        match *self.b.get(self.i)? {
            b'n' => self.lit(b"null", Null),
            b't' => self.lit(b"true", Bool(true)),
            b'f' => self.lit(b"false", Bool(false)),
            b'"' => self.string().map(Str),
            b'[' => {
                self.i += 1;
                let mut a = Vec::new();
                self.ws();
                if *self.b.get(self.i)? == b']' {
                    self.i += 1;
                    return Some(Arr(a));
                }
                loop {
                    a.push(self.value(d + 1)?);
                    self.ws();
                    match *self.b.get(self.i)? {
                        b',' => self.i += 1,
                        b']' => {
                            self.i += 1;
                            return Some(Arr(a));
                        }
                        _ => return None,
                    }
                }
            }
            b'{' => {
                self.i += 1;
                let mut a = Vec::new();
                self.ws();
                if *self.b.get(self.i)? == b'}' {
                    self.i += 1;
                    return Some(Obj(a));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws();
                    if *self.b.get(self.i)? != b':' {
                        return None;
                    }
                    self.i += 1;
                    a.push((k, self.value(d + 1)?));
                    self.ws();
                    match *self.b.get(self.i)? {
                        b',' => self.i += 1,
                        b'}' => {
                            self.i += 1;
                            return Some(Obj(a));
                        }
                        _ => return None,
                    }
                }
            }
            b'-' | b'0'..=b'9' => {
                let st = self.i;
                while self.i < self.b.len() && matches!(self.b[self.i], b'-' | b'+' | b'.' | b'e' | b'E' | b'0'..=b'9') {
                    self.i += 1;
                }
                let s = std::str::from_utf8(&self.b[st..self.i]).ok()?;
                if let Ok(i) = s.parse::<i64>() {
                    Some(Int(i))
                } else {
                    s.parse::<f64>().ok().map(Num)
                }
            }
            _ => None,
        }
    }
    fn string(&mut self) -> Option<String> {
        if *self.b.get(self.i)? != b'"' {
            return None;
        }
        self.i += 1;
        let mut o: Vec<u8> = Vec::new();
        loop {
            let c = *self.b.get(self.i)?;
            self.i += 1;
            match c {
                b'"' => return String::from_utf8(o).ok(),
                b'\\' => {
                    let e = *self.b.get(self.i)?;
                    self.i += 1;
                    match e {
                        b'n' => o.push(b'\n'),
                        b't' => o.push(b'\t'),
                        b'r' => o.push(b'\r'),
                        b'b' => o.push(8),
                        b'f' => o.push(12),
                        b'u' => {
                            let h = std::str::from_utf8(self.b.get(self.i..self.i + 4)?).ok()?;
                            let v = u32::from_str_radix(h, 16).ok()?;
                            self.i += 4;
                            let ch = char::from_u32(v).unwrap_or('\u{fffd}');
                            let mut t = [0u8; 4];
                            o.extend_from_slice(ch.encode_utf8(&mut t).as_bytes());
                        }
                        x => o.push(x),
                    }
                }
                c => o.push(c),
            }
        }
    }
}
#[macro_export]
macro_rules! obj {
    ($($k:expr => $v:expr),* $(,)?) => { $crate::json::J::Obj(vec![$(($k.to_string(), $v)),*]) };
}
pub fn n(v: u64) -> J {
    Int(v as i64)
}
pub fn st(v: impl Into<String>) -> J {
    Str(v.into())
}
