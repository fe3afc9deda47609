//! JSON with ordered objects, raw number text, and duplicate-key detection.
use std::fmt;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

pub fn s(x: impl Into<String>) -> J {
    J::Str(x.into())
}
pub fn n(x: impl ToString) -> J {
    J::Num(x.to_string())
}
pub fn obj(v: Vec<(&str, J)>) -> J {
    J::Obj(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

impl J {
    pub fn parse(t: &str) -> Result<J, String> {
        let mut p = P { b: t.as_bytes(), t, i: 0, depth: 0 };
        p.ws();
        let v = p.val()?;
        p.ws();
        if p.i != p.b.len() {
            return Err(format!("trailing data at {}", p.i));
        }
        Ok(v)
    }
    pub fn get(&self, k: &str) -> &J {
        static NULL: J = J::Null;
        match self {
            J::Obj(v) => v.iter().find(|(a, _)| a == k).map(|(_, b)| b).unwrap_or(&NULL),
            _ => &NULL,
        }
    }
    pub fn has(&self, k: &str) -> bool {
        matches!(self, J::Obj(v) if v.iter().any(|(a, _)| a == k))
    }
    pub fn get_mut(&mut self, k: &str) -> Option<&mut J> {
        match self {
            J::Obj(v) => v.iter_mut().find(|(a, _)| a == k).map(|(_, b)| b),
            _ => None,
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => &[],
        }
    }
    pub fn str(&self) -> Option<&str> {
        match self {
            J::Str(x) => Some(x),
            _ => None,
        }
    }
    pub fn int(&self) -> Option<i64> {
        match self {
            J::Num(x) => x.parse().ok(),
            _ => None,
        }
    }
    pub fn is_null(&self) -> bool {
        *self == J::Null
    }
    /// sort object keys everywhere, and the members of those arrays which stand for sets
    pub fn canon(&self) -> J {
        self.canon_in("")
    }
    fn canon_in(&self, key: &str) -> J {
        match self {
            J::Obj(v) => {
                let mut w: Vec<_> = v.iter().map(|(k, x)| (k.clone(), x.canon_in(k))).collect();
                w.sort();
                J::Obj(w)
            }
            J::Arr(v) => {
                let mut w: Vec<_> = v.iter().map(|x| x.canon_in("")).collect();
                if matches!(key, "tags" | "links" | "currencies" | "operating-currency" | "documents") {
                    w.sort();
                }
                J::Arr(w)
            }
            x => x.clone(),
        }
    }
}

impl fmt::Display for J {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            J::Null => f.write_str("null"),
            J::Bool(b) => write!(f, "{b}"),
            J::Num(x) => f.write_str(x),
            J::Str(x) => quote(x, f),
            J::Arr(v) => {
                f.write_str("[")?;
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        f.write_str(",")?;
                    }
                    write!(f, "{x}")?;
                }
                f.write_str("]")
            }
            J::Obj(v) => {
                f.write_str("{")?;
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        f.write_str(",")?;
                    }
                    quote(k, f)?;
                    f.write_str(":")?;
                    write!(f, "{x}")?;
                }
                f.write_str("}")
            }
        }
    }
}

fn quote(x: &str, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    use fmt::Write;
    f.write_char('"')?;
    for c in x.chars() {
        match c {
            '"' => f.write_str("\\\"")?,
            '\\' => f.write_str("\\\\")?,
            '\n' => f.write_str("\\n")?,
            '\r' => f.write_str("\\r")?,
            '\t' => f.write_str("\\t")?,
            c if (c as u32) < 0x20 => write!(f, "\\u{:04x}", c as u32)?,
            c => f.write_char(c)?,
        }
    }
    f.write_char('"')
}

struct P<'a> {
    b: &'a [u8],
    t: &'a str,
    i: usize,
    depth: usize,
}

impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\t' | b'\n' | b'\r') {
            self.i += 1;
        }
    }
    fn peek(&self) -> u8 {
        *self.b.get(self.i).unwrap_or(&0)
    }
    fn err<T>(&self, m: &str) -> Result<T, String> {
        Err(format!("{m} at {}", self.i))
    }
    fn lit(&mut self, w: &str, v: J) -> Result<J, String> {
        if self.t[self.i..].starts_with(w) {
            self.i += w.len();
            Ok(v)
        } else {
            self.err("bad literal")
        }
    }
    fn val(&mut self) -> Result<J, String> {
        self.depth += 1;
        if self.depth > 300 {
            return Err("nested too deeply".into());
        }
        let v = self.val_in();
        self.depth -= 1;
        v
    }
    fn val_in(&mut self) -> Result<J, String> {
        match self.peek() {
            b'n' => self.lit("null", J::Null),
            b't' => self.lit("true", J::Bool(true)),
            b'f' => self.lit("false", J::Bool(false)),
            b'"' => Ok(J::Str(self.string()?)),
            b'[' => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.peek() == b']' {
                    self.i += 1;
                    return Ok(J::Arr(v));
                }
                loop {
                    self.ws();
                    v.push(self.val()?);
                    self.ws();
                    match self.peek() {
                        b',' => self.i += 1,
                        b']' => {
                            self.i += 1;
                            return Ok(J::Arr(v));
                        }
                        _ => return self.err("expected , or ]"),
                    }
                }
            }
            b'{' => {
                self.i += 1;
                let mut v: Vec<(String, J)> = vec![];
                self.ws();
                if self.peek() == b'}' {
                    self.i += 1;
                    return Ok(J::Obj(v));
                }
                loop {
                    self.ws();
                    if self.peek() != b'"' {
                        return self.err("expected key");
                    }
                    let k = self.string()?;
                    if v.iter().any(|(a, _)| *a == k) {
                        return self.err("duplicate key");
                    }
                    self.ws();
                    if self.peek() != b':' {
                        return self.err("expected :");
                    }
                    self.i += 1;
                    self.ws();
                    let x = self.val()?;
                    v.push((k, x));
                    self.ws();
                    match self.peek() {
                        b',' => self.i += 1,
                        b'}' => {
                            self.i += 1;
                            return Ok(J::Obj(v));
                        }
                        _ => return self.err("expected , or }"),
                    }
                }
            }
            b'-' | b'0'..=b'9' => self.num(),
            _ => self.err("unexpected character"),
        }
    }
    fn num(&mut self) -> Result<J, String> {
        let a = self.i;
        if self.peek() == b'-' {
            self.i += 1;
        }
        if self.peek() == b'0' {
            self.i += 1;
        } else if self.peek().is_ascii_digit() {
            while self.peek().is_ascii_digit() {
                self.i += 1;
            }
        } else {
            return self.err("bad number");
        }
        if self.peek() == b'.' {
            self.i += 1;
            if !self.peek().is_ascii_digit() {
                return self.err("bad fraction");
            }
            while self.peek().is_ascii_digit() {
                self.i += 1;
            }
        }
        if matches!(self.peek(), b'e' | b'E') {
            self.i += 1;
            if matches!(self.peek(), b'+' | b'-') {
                self.i += 1;
            }
            if !self.peek().is_ascii_digit() {
                return self.err("bad exponent");
            }
            while self.peek().is_ascii_digit() {
                self.i += 1;
            }
        }
        Ok(J::Num(self.t[a..self.i].to_string()))
    }
    fn hex4(&mut self) -> Result<u32, String> {
        let h = self.t.get(self.i..self.i + 4).ok_or("short escape")?;
        let v = u32::from_str_radix(h, 16).map_err(|_| "bad escape".to_string())?;
        self.i += 4;
        Ok(v)
    }
    fn string(&mut self) -> Result<String, String> {
        self.i += 1;
        let mut o = String::new();
        loop {
            let a = self.i;
            while self.i < self.b.len() && !matches!(self.b[self.i], b'"' | b'\\' | 0..=0x1f) {
                self.i += 1;
            }
            o.push_str(&self.t[a..self.i]);
            if self.i >= self.b.len() {
                return self.err("unterminated string");
            }
            match self.b[self.i] {
                b'"' => {
                    self.i += 1;
                    return Ok(o);
                }
                b'\\' => {
                    self.i += 1;
                    let c = self.peek();
                    self.i += 1;
                    o.push(match c {
                        b'"' => '"',
                        b'\\' => '\\',
                        b'/' => '/',
                        b'b' => '\u{8}',
                        b'f' => '\u{c}',
                        b'n' => '\n',
                        b'r' => '\r',
                        b't' => '\t',
                        b'u' => {
                            let mut u = self.hex4()?;
                            if (0xd800..0xdc00).contains(&u) {
                                if !self.t[self.i..].starts_with("\\u") {
                                    return self.err("lone surrogate");
                                }
                                self.i += 2;
                                let l = self.hex4()?;
                                if !(0xdc00..0xe000).contains(&l) {
                                    return self.err("lone surrogate");
                                }
                                u = 0x10000 + ((u - 0xd800) << 10) + (l - 0xdc00);
                            }
                            char::from_u32(u).ok_or("bad escape")?
                        }
                        _ => return self.err("bad escape"),
                    });
                }
                _ => return self.err("control character in string"),
            }
        }
    }
}
