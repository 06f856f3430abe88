//! A small JSON reader, sufficient for what TLC's ToJson writes.
#[derive(Debug, Clone, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

pub struct P<'a> {
    s: &'a [u8],
    i: usize,
}

pub fn parse(s: &str) -> Result<J, String> {
    let mut p = P { s: s.as_bytes(), i: 0 };
    let v = p.val()?;
    p.ws();
    if p.i != p.s.len() {
        return Err(format!("trailing data at {}", p.i));
    }
    Ok(v)
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && self.s[self.i] <= b' ' {
            self.i += 1;
        }
    }
    fn lit(&mut self, w: &str, v: J) -> Result<J, String> {
        if self.s[self.i..].starts_with(w.as_bytes()) {
            self.i += w.len();
            Ok(v)
        } else {
            Err(format!("bad literal at {}", self.i))
        }
    }
    fn str(&mut self) -> Result<String, String> {
        self.i += 1;
        let beg = self.i;
        while self.i < self.s.len() && self.s[self.i] != b'"' {
            if self.s[self.i] == b'\\' {
                return Err("escape in string".into());
            }
            self.i += 1;
        }
        let r = std::str::from_utf8(&self.s[beg..self.i]).map_err(|e| e.to_string())?;
        self.i += 1;
        Ok(r.to_string())
    }
    fn val(&mut self) -> Result<J, String> {
        self.ws();
        let Some(&c) = self.s.get(self.i) else {
            return Err("unexpected end".into());
        };
        match c {
            b'n' => self.lit("null", J::Null),
            b't' => self.lit("true", J::Bool(true)),
            b'f' => self.lit("false", J::Bool(false)),
            b'"' => Ok(J::Str(self.str()?)),
            b'[' => {
                self.i += 1;
                let mut v = vec![];
                loop {
                    self.ws();
                    match self.s.get(self.i) {
                        Some(b']') => {
                            self.i += 1;
                            return Ok(J::Arr(v));
                        }
                        Some(b',') => self.i += 1,
                        None => return Err("unexpected end".into()),
                        _ => v.push(self.val()?),
                    }
                }
            }
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                loop {
                    self.ws();
                    match self.s.get(self.i) {
                        Some(b'}') => {
                            self.i += 1;
                            return Ok(J::Obj(v));
                        }
                        Some(b',') => self.i += 1,
                        Some(b'"') => {
                            let k = self.str()?;
                            self.ws();
                            self.i += 1; // ':'
                            v.push((k, self.val()?));
                        }
                        _ => return Err(format!("bad object at {}", self.i)),
                    }
                }
            }
            _ => {
                let beg = self.i;
                if c == b'-' {
                    self.i += 1;
                }
                while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
                    self.i += 1;
                }
                std::str::from_utf8(&self.s[beg..self.i])
                    .unwrap()
                    .parse()
                    .map(J::Int)
                    .map_err(|_| format!("bad token at {beg}"))
            }
        }
    }
}

impl J {
    pub fn has(&self, k: &str) -> bool {
        matches!(self, J::Obj(v) if v.iter().any(|(n, _)| n == k))
    }
    pub fn get(&self, k: &str) -> &J {
        match self {
            J::Obj(v) => v.iter().find(|x| x.0 == k).map(|x| &x.1).unwrap_or(&J::Null),
            _ => &J::Null,
        }
    }
    pub fn at(&self, i: usize) -> &J {
        match self {
            J::Arr(v) => v.get(i).unwrap_or(&J::Null),
            _ => &J::Null,
        }
    }
    pub fn s(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => panic!("not a string: {self:?}"),
        }
    }
    pub fn i(&self) -> i64 {
        match self {
            J::Int(i) => *i,
            _ => panic!("not a number: {self:?}"),
        }
    }
    pub fn u(&self) -> usize {
        iu(self.i())
    }
    pub fn b(&self) -> bool {
        match self {
            J::Bool(b) => *b,
            _ => panic!("not a bool: {self:?}"),
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => panic!("not an array: {self:?}"),
        }
    }
    pub fn ints(&self) -> Vec<i64> {
        self.arr().iter().map(|x| x.i()).collect()
    }
    pub fn show(&self) -> String {
        let mut o = String::new();
        self.w(&mut o);
        o
    }
    fn w(&self, o: &mut String) {
        use std::fmt::Write;
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => write!(o, "{b}").unwrap(),
            J::Int(i) => write!(o, "{i}").unwrap(),
            J::Str(s) => write!(o, "\"{s}\"").unwrap(),
            J::Arr(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::Obj(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    write!(o, "\"{k}\":").unwrap();
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

/// The models' integers are 32 bits wide: this one stands for `usize::MAX`.
pub const HUGE: i64 = 2_000_000_000;

pub fn iu(n: i64) -> usize {
    if n == HUGE { usize::MAX } else { n as usize }
}

pub fn ji(n: usize) -> i64 {
    if n == usize::MAX { HUGE } else { n as i64 }
}
