//! Minimal JSON value, parser and printer (no external crates needed).
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn get(&self, k: &str) -> &J {
        static NULL: J = J::Null;
        match self {
            J::Obj(m) => m.iter().find(|(n, _)| n == k).map(|(_, v)| v).unwrap_or(&NULL),
            _ => &NULL,
        }
    }
    pub fn arr(&self) -> &Vec<J> {
        match self { J::Arr(v) => v, _ => bad("array expected") }
    }
    pub fn str(&self) -> &str {
        match self { J::Str(s) => s, _ => bad("string expected") }
    }
    pub fn num(&self) -> i64 {
        match self { J::Num(n) => *n, J::Str(s) => s.parse().unwrap_or_else(|_| bad("number")), _ => bad("number expected") }
    }
    pub fn is_null(&self) -> bool { matches!(self, J::Null) }
}

/// A malformed request is a bug of the harness, never an observation.
pub fn bad<T>(msg: &str) -> T {
    eprintln!("HARNESS ERROR: {}", msg);
    std::process::exit(97);
}

pub fn s<T: ToString>(x: T) -> J { J::Str(x.to_string()) }
pub fn n<T: TryInto<i64>>(x: T) -> J { match x.try_into() { Ok(v) => J::Num(v), Err(_) => bad("num out of range") } }
pub fn obj(kv: Vec<(&str, J)>) -> J {
    J::Obj(kv.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

impl fmt::Display for J {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            // an option is printed as a sequence of length 0 or 1
            J::Null => write!(f, "[]"),
            J::Bool(b) => write!(f, "{}", b),
            J::Num(x) => write!(f, "{}", x),
            J::Str(t) => {
                write!(f, "\"")?;
                for c in t.chars() {
                    match c {
                        '"' => write!(f, "\\\"")?,
                        '\\' => write!(f, "\\\\")?,
                        c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                            let mut buf = [0u16; 2];
                            for u in c.encode_utf16(&mut buf) { write!(f, "\\u{:04x}", u)?; }
                        }
                        c => write!(f, "{}", c)?,
                    }
                }
                write!(f, "\"")
            }
            J::Arr(v) => {
                write!(f, "[")?;
                for (i, x) in v.iter().enumerate() {
                    if i > 0 { write!(f, ",")?; }
                    write!(f, "{}", x)?;
                }
                write!(f, "]")
            }
            J::Obj(m) => {
                write!(f, "{{")?;
                for (i, (k, x)) in m.iter().enumerate() {
                    if i > 0 { write!(f, ",")?; }
                    write!(f, "{}:{}", J::Str(k.clone()), x)?;
                }
                write!(f, "}}")
            }
        }
    }
}

pub fn parse(text: &str) -> J {
    let b: Vec<char> = text.chars().collect();
    let mut p = P { b, i: 0 };
    let v = p.value();
    p.ws();
    if p.i != p.b.len() { bad::<()>("trailing json"); }
    v
}

struct P { b: Vec<char>, i: usize }

impl P {
    fn ws(&mut self) { while self.i < self.b.len() && self.b[self.i].is_whitespace() { self.i += 1; } }
    fn peek(&self) -> char { if self.i < self.b.len() { self.b[self.i] } else { '\0' } }
    fn expect(&mut self, c: char) { if self.peek() != c { bad::<()>("json syntax"); } self.i += 1; }
    fn word(&mut self, w: &str, v: J) -> J { for c in w.chars() { self.expect(c); } v }
    fn value(&mut self) -> J {
        self.ws();
        match self.peek() {
            'n' => self.word("null", J::Null),
            't' => self.word("true", J::Bool(true)),
            'f' => self.word("false", J::Bool(false)),
            '"' => J::Str(self.string()),
            '[' => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.peek() == ']' { self.i += 1; return J::Arr(v); }
                loop {
                    v.push(self.value());
                    self.ws();
                    if self.peek() == ',' { self.i += 1; } else { self.expect(']'); return J::Arr(v); }
                }
            }
            '{' => {
                self.i += 1;
                let mut m = vec![];
                self.ws();
                if self.peek() == '}' { self.i += 1; return J::Obj(m); }
                loop {
                    self.ws();
                    let k = self.string();
                    self.ws();
                    self.expect(':');
                    m.push((k, self.value()));
                    self.ws();
                    if self.peek() == ',' { self.i += 1; } else { self.expect('}'); return J::Obj(m); }
                }
            }
            _ => {
                let st = self.i;
                if self.peek() == '-' { self.i += 1; }
                while self.peek().is_ascii_digit() { self.i += 1; }
                let t: String = self.b[st..self.i].iter().collect();
                J::Num(t.parse().unwrap_or_else(|_| bad("json number")))
            }
        }
    }
    fn hex4(&mut self) -> u16 {
        let t: String = self.b[self.i..self.i + 4].iter().collect();
        self.i += 4;
        u16::from_str_radix(&t, 16).unwrap_or_else(|_| bad("hex"))
    }
    fn string(&mut self) -> String {
        self.expect('"');
        let mut u: Vec<u16> = vec![];
        loop {
            let c = self.peek();
            if self.i >= self.b.len() { bad::<()>("unterminated string"); }
            self.i += 1;
            match c {
                '"' => return String::from_utf16(&u).unwrap_or_else(|_| bad("utf16")),
                '\\' => {
                    let e = self.peek();
                    self.i += 1;
                    match e {
                        'n' => u.push(10), 't' => u.push(9), 'r' => u.push(13),
                        'b' => u.push(8), 'f' => u.push(12),
                        'u' => { let h = self.hex4(); u.push(h); }
                        c => u.push(c as u16),
                    }
                }
                c => { let mut buf = [0u16; 2]; for x in c.encode_utf16(&mut buf) { u.push(*x); } }
            }
        }
    }
}
