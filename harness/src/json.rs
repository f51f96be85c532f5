//! Minimal JSON (integers, strings, booleans, arrays, objects).
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    B(bool),
    I(i64),
    S(String),
    A(Vec<Val>),
    O(Vec<(String, Val)>),
}

impl Val {
    pub fn get(&self, k: &str) -> Option<&Val> {
        match self {
            Val::O(f) => f.iter().find(|(n, _)| n == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn at(&self, k: &str) -> &Val {
        self.get(k).unwrap_or_else(|| bad(&format!("missing field {k} in {}", self.dump())))
    }
    pub fn has(&self, k: &str) -> bool {
        self.get(k).is_some()
    }
    pub fn set(&mut self, k: &str, v: Val) {
        if let Val::O(f) = self {
            if let Some(e) = f.iter_mut().find(|(n, _)| n == k) {
                e.1 = v;
            } else {
                f.push((k.to_string(), v));
            }
        }
    }
    pub fn int(&self) -> i64 {
        match self {
            Val::I(i) => *i,
            _ => bad(&format!("not an int: {}", self.dump())),
        }
    }
    pub fn us(&self) -> usize {
        self.int() as usize
    }
    pub fn str(&self) -> &str {
        match self {
            Val::S(s) => s,
            _ => bad(&format!("not a string: {}", self.dump())),
        }
    }
    pub fn bool(&self) -> bool {
        match self {
            Val::B(b) => *b,
            _ => bad("not a bool"),
        }
    }
    pub fn arr(&self) -> &[Val] {
        match self {
            Val::A(a) => a,
            _ => bad(&format!("not an array: {}", self.dump())),
        }
    }
    pub fn ints(&self) -> Vec<i64> {
        self.arr().iter().map(|v| v.int()).collect()
    }
    pub fn uss(&self) -> Vec<usize> {
        self.arr().iter().map(|v| v.us()).collect()
    }
    pub fn dump(&self) -> String {
        let mut s = String::new();
        self.w(&mut s);
        s
    }
    fn w(&self, o: &mut String) {
        match self {
            Val::B(b) => o.push_str(if *b { "true" } else { "false" }),
            Val::I(i) => write!(o, "{i}").unwrap(),
            Val::S(s) => {
                o.push('"');
                for ch in s.chars() {
                    match ch {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 32 => o.push(' '),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            Val::A(a) => {
                o.push('[');
                for (i, v) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    v.w(o);
                }
                o.push(']');
            }
            Val::O(f) => {
                o.push('{');
                for (i, (k, v)) in f.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    write!(o, "\"{k}\":").unwrap();
                    v.w(o);
                }
                o.push('}');
            }
        }
    }
}

/// Error of the harness itself (malformed case), never of the code under test.
pub fn bad(msg: &str) -> ! {
    eprintln!("HARNESS-ERROR: {msg}");
    std::process::exit(4)
}

pub fn obj(f: Vec<(&str, Val)>) -> Val {
    Val::O(f.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}
pub fn ints<T: Copy + TryInto<i64>>(v: &[T]) -> Val {
    Val::A(v.iter().map(|x| Val::I((*x).try_into().ok().unwrap_or(-999))).collect())
}
impl From<i64> for Val {
    fn from(x: i64) -> Val {
        Val::I(x)
    }
}
impl From<usize> for Val {
    fn from(x: usize) -> Val {
        Val::I(x as i64)
    }
}
impl From<bool> for Val {
    fn from(x: bool) -> Val {
        Val::B(x)
    }
}
impl From<&str> for Val {
    fn from(x: &str) -> Val {
        Val::S(x.to_string())
    }
}
impl<T: Into<Val>> From<Vec<T>> for Val {
    fn from(x: Vec<T>) -> Val {
        Val::A(x.into_iter().map(Into::into).collect())
    }
}

pub fn parse(s: &str) -> Val {
    let b = s.as_bytes();
    let mut i = 0;
    let v = val(b, &mut i);
    ws(b, &mut i);
    if i != b.len() {
        bad("trailing JSON")
    }
    v
}
fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && b[*i].is_ascii_whitespace() {
        *i += 1;
    }
}
fn val(b: &[u8], i: &mut usize) -> Val {
    ws(b, i);
    match b.get(*i) {
        Some(b'{') => {
            *i += 1;
            let mut f = vec![];
            loop {
                ws(b, i);
                if b[*i] == b'}' {
                    *i += 1;
                    break;
                }
                if b[*i] == b',' {
                    *i += 1;
                    continue;
                }
                let Val::S(k) = val(b, i) else { bad("key") };
                ws(b, i);
                if b[*i] != b':' {
                    bad("colon")
                }
                *i += 1;
                f.push((k, val(b, i)));
            }
            Val::O(f)
        }
        Some(b'[') => {
            *i += 1;
            let mut a = vec![];
            loop {
                ws(b, i);
                if b[*i] == b']' {
                    *i += 1;
                    break;
                }
                if b[*i] == b',' {
                    *i += 1;
                    continue;
                }
                a.push(val(b, i));
            }
            Val::A(a)
        }
        Some(b'"') => {
            *i += 1;
            let mut s = vec![];
            while b[*i] != b'"' {
                if b[*i] == b'\\' {
                    *i += 1;
                    s.push(if b[*i] == b'n' { b'\n' } else { b[*i] });
                } else {
                    s.push(b[*i]);
                }
                *i += 1;
            }
            *i += 1;
            Val::S(String::from_utf8(s).unwrap())
        }
        Some(b't') => {
            *i += 4;
            Val::B(true)
        }
        Some(b'f') => {
            *i += 5;
            Val::B(false)
        }
        Some(_) => {
            let st = *i;
            if b[*i] == b'-' {
                *i += 1;
            }
            while *i < b.len() && b[*i].is_ascii_digit() {
                *i += 1;
            }
            Val::I(std::str::from_utf8(&b[st..*i]).unwrap().parse().unwrap_or_else(|_| bad("number")))
        }
        None => bad("eof"),
    }
}
