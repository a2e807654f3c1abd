//! Minimal JSON: integers, booleans, strings, arrays and objects.
use std::fmt;

#[derive(Clone, PartialEq, Debug)]
pub enum J {
    N,
    B(bool),
    I(i64),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}

pub fn s(x: &str) -> J {
    J::S(x.to_string())
}
pub fn i(x: usize) -> J {
    if x >= 1 << 31 {
        // not understood by TLC, and never correct
        return J::I(-2147483647);
    }
    J::I(x as i64)
}
pub fn bytes(x: &[u8]) -> J {
    J::A(x.iter().map(|b| J::I(*b as i64)).collect())
}
pub fn ints(x: &[i64]) -> J {
    J::A(x.iter().map(|b| J::I(*b)).collect())
}
pub fn obj(x: Vec<(&str, J)>) -> J {
    J::O(x.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}
pub fn kind(k: &str) -> J {
    obj(vec![("k", s(k))])
}

impl J {
    pub fn get(&self, k: &str) -> &J {
        self.opt(k).unwrap_or_else(|| tool_error(&format!("missing key {} in {}", k, self)))
    }
    pub fn opt(&self, k: &str) -> Option<&J> {
        match self {
            J::O(v) => v.iter().find(|(n, _)| n == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn has(&self, k: &str) -> bool {
        self.opt(k).is_some()
    }
    pub fn int(&self, k: &str) -> i64 {
        match self.get(k) {
            J::I(x) => *x,
            x => tool_error(&format!("{} is not an int: {}", k, x)),
        }
    }
    pub fn us(&self, k: &str) -> usize {
        self.int(k) as usize
    }
    pub fn st(&self, k: &str) -> &str {
        match self.get(k) {
            J::S(x) => x,
            x => tool_error(&format!("{} is not a string: {}", k, x)),
        }
    }
    pub fn bool(&self, k: &str) -> bool {
        match self.get(k) {
            J::B(x) => *x,
            x => tool_error(&format!("{} is not a bool: {}", k, x)),
        }
    }
    pub fn arr(&self, k: &str) -> &[J] {
        match self.get(k) {
            J::A(x) => x,
            x => tool_error(&format!("{} is not an array: {}", k, x)),
        }
    }
    pub fn as_int(&self) -> i64 {
        match self {
            J::I(x) => *x,
            x => tool_error(&format!("not an int: {}", x)),
        }
    }
    pub fn as_str(&self) -> &str {
        match self {
            J::S(x) => x,
            x => tool_error(&format!("not a string: {}", x)),
        }
    }
    pub fn as_arr(&self) -> &[J] {
        match self {
            J::A(x) => x,
            x => tool_error(&format!("not an array: {}", x)),
        }
    }
    pub fn by(&self, k: &str) -> Vec<u8> {
        self.arr(k).iter().map(|b| b.as_int() as u8).collect()
    }
    pub fn ints(&self, k: &str) -> Vec<i64> {
        self.arr(k).iter().map(|b| b.as_int()).collect()
    }
}

/// Errors of the harness itself, in contrast to panics of the code under test.
pub fn tool_error(msg: &str) -> ! {
    eprintln!("TOOL-ERROR {}", msg);
    std::process::exit(3)
}

impl fmt::Display for J {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            J::N => write!(f, "null"),
            J::B(b) => write!(f, "{}", b),
            J::I(x) => write!(f, "{}", x),
            J::S(x) => {
                write!(f, "\"")?;
                for c in x.chars() {
                    match c {
                        '"' => write!(f, "\\\"")?,
                        '\\' => write!(f, "\\\\")?,
                        '\n' => write!(f, "\\n")?,
                        c if (c as u32) < 32 => write!(f, "\\u{:04x}", c as u32)?,
                        c => write!(f, "{}", c)?,
                    }
                }
                write!(f, "\"")
            }
            J::A(v) => {
                write!(f, "[")?;
                for (n, x) in v.iter().enumerate() {
                    if n > 0 {
                        write!(f, ",")?;
                    }
                    write!(f, "{}", x)?;
                }
                write!(f, "]")
            }
            J::O(v) => {
                write!(f, "{{")?;
                for (n, (k, x)) in v.iter().enumerate() {
                    if n > 0 {
                        write!(f, ",")?;
                    }
                    write!(f, "\"{}\":{}", k, x)?;
                }
                write!(f, "}}")
            }
        }
    }
}

struct P<'a> {
    b: &'a [u8],
    p: usize,
}

pub fn parse(text: &str) -> J {
    let mut p = P { b: text.as_bytes(), p: 0 };
    let v = p.value();
    p.ws();
    if p.p != p.b.len() {
        tool_error(&format!("trailing JSON in {}", text));
    }
    v
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.p < self.b.len() && (self.b[self.p] as char).is_ascii_whitespace() {
            self.p += 1;
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        self.ws();
        if self.p < self.b.len() && self.b[self.p] == c {
            self.p += 1;
            true
        } else {
            false
        }
    }
    fn fail(&self) -> ! {
        tool_error(&format!("bad JSON at {}: {}", self.p, String::from_utf8_lossy(self.b)))
    }
    fn value(&mut self) -> J {
        self.ws();
        if self.p >= self.b.len() {
            self.fail()
        }
        match self.b[self.p] {
            b'{' => {
                self.p += 1;
                let mut v = vec![];
                if self.eat(b'}') {
                    return J::O(v);
                }
                loop {
                    self.ws();
                    let k = self.string();
                    if !self.eat(b':') {
                        self.fail()
                    }
                    let x = self.value();
                    v.push((k, x));
                    if self.eat(b'}') {
                        return J::O(v);
                    }
                    if !self.eat(b',') {
                        self.fail()
                    }
                }
            }
            b'[' => {
                self.p += 1;
                let mut v = vec![];
                if self.eat(b']') {
                    return J::A(v);
                }
                loop {
                    v.push(self.value());
                    if self.eat(b']') {
                        return J::A(v);
                    }
                    if !self.eat(b',') {
                        self.fail()
                    }
                }
            }
            b'"' => J::S(self.string()),
            b't' => {
                self.p += 4;
                J::B(true)
            }
            b'f' => {
                self.p += 5;
                J::B(false)
            }
            b'n' => {
                self.p += 4;
                J::N
            }
            _ => {
                let st = self.p;
                while self.p < self.b.len()
                    && (self.b[self.p] == b'-' || (self.b[self.p] as char).is_ascii_digit())
                {
                    self.p += 1;
                }
                match std::str::from_utf8(&self.b[st..self.p]).unwrap().parse() {
                    Ok(x) => J::I(x),
                    Err(_) => self.fail(),
                }
            }
        }
    }
    fn string(&mut self) -> String {
        if !self.eat(b'"') {
            self.fail()
        }
        let mut out: Vec<u8> = vec![];
        loop {
            if self.p >= self.b.len() {
                self.fail()
            }
            let c = self.b[self.p];
            self.p += 1;
            match c {
                b'"' => return String::from_utf8(out).unwrap(),
                b'\\' => {
                    let e = self.b[self.p];
                    self.p += 1;
                    match e {
                        b'n' => out.push(b'\n'),
                        b't' => out.push(b'\t'),
                        b'r' => out.push(b'\r'),
                        b'b' => out.push(8),
                        b'f' => out.push(12),
                        b'u' => {
                            let h = std::str::from_utf8(&self.b[self.p..self.p + 4]).unwrap();
                            self.p += 4;
                            let c = std::char::from_u32(u32::from_str_radix(h, 16).unwrap())
                                .unwrap_or('?');
                            let mut b = [0; 4];
                            out.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
                        }
                        e => out.push(e),
                    }
                }
                c => out.push(c),
            }
        }
    }
}

/// Debug output; plain and pretty output have to say the same, however they are laid out.
pub fn shown<T: std::fmt::Debug + ?Sized>(x: &T) -> String {
    let plain = format!("{:?}", x);
    let pretty = format!("{:#?}", x);
    let packed = |t: &str| {
        let mut t: String = t.chars().filter(|c| !c.is_whitespace()).collect();
        for c in &["}", "]", ")"] {
            t = t.replace(&format!(",{}", c), c);
        }
        t
    };
    if packed(&plain) == packed(&pretty) {
        plain
    } else {
        format!("{} but pretty: {}", plain, pretty)
    }
}
