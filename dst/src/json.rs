//! A small JSON value: replay files, evidence, worlds.
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i64),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(BTreeMap<String, J>),
}

impl J {
    pub fn obj() -> J {
        J::Obj(BTreeMap::new())
    }
    pub fn s<T: AsRef<str>>(v: T) -> J {
        J::Str(v.as_ref().to_string())
    }
    pub fn set<T: Into<J>>(mut self, k: &str, v: T) -> J {
        if let J::Obj(ref mut m) = self {
            m.insert(k.to_string(), v.into());
        }
        self
    }
    pub fn put<T: Into<J>>(&mut self, k: &str, v: T) {
        if let J::Obj(ref mut m) = self {
            m.insert(k.to_string(), v.into());
        }
    }
    pub fn get(&self, k: &str) -> &J {
        match self {
            J::Obj(m) => m.get(k).unwrap_or(&J::Null),
            _ => &J::Null,
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => "",
        }
    }
    pub fn int(&self) -> i64 {
        match self {
            J::Int(i) => *i,
            J::Num(f) => *f as i64,
            _ => 0,
        }
    }
    pub fn u64(&self) -> u64 {
        match self {
            J::Str(s) => s.parse().unwrap_or(0),
            _ => self.int() as u64,
        }
    }
    pub fn bool(&self) -> bool {
        matches!(self, J::Bool(true))
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => &[],
        }
    }
    pub fn is_null(&self) -> bool {
        matches!(self, J::Null)
    }
    /// bytes: {"t": text} or {"x": hex}
    pub fn bytes(b: &[u8]) -> J {
        match std::str::from_utf8(b) {
            Ok(s) => J::obj().set("t", s),
            Err(_) => {
                let mut h = String::new();
                for c in b {
                    let _ = write!(h, "{:02x}", c);
                }
                J::obj().set("x", h.as_str())
            }
        }
    }
    pub fn to_bytes(&self) -> Vec<u8> {
        match self.get("x") {
            J::Str(h) => (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap_or(0)).collect(),
            _ => self.get("t").str().as_bytes().to_vec(),
        }
    }
    pub fn dump(&self) -> String {
        let mut s = String::new();
        self.w(&mut s, None, 0);
        s
    }
    pub fn pretty(&self) -> String {
        let mut s = String::new();
        self.w(&mut s, Some(1), 0);
        s.push('\n');
        s
    }
    fn w(&self, o: &mut String, ind: Option<usize>, lvl: usize) {
        let nl = |o: &mut String, l: usize| {
            if let Some(k) = ind {
                o.push('\n');
                for _ in 0..l * k {
                    o.push(' ');
                }
            }
        };
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Int(i) => {
                let _ = write!(o, "{}", i);
            }
            J::Num(f) => {
                let _ = write!(o, "{:.3}", f);
            }
            J::Str(s) => esc(o, s),
            J::Arr(v) => {
                o.push('[');
                let flat = v.iter().all(|x| !matches!(x, J::Arr(_) | J::Obj(_)));
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                        if flat && ind.is_some() {
                            o.push(' ');
                        }
                    }
                    if !flat {
                        nl(o, lvl + 1);
                    }
                    x.w(o, ind, lvl + 1);
                }
                if !v.is_empty() && !flat {
                    nl(o, lvl);
                }
                o.push(']');
            }
            J::Obj(m) => {
                o.push('{');
                for (i, (k, x)) in m.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    nl(o, lvl + 1);
                    esc(o, k);
                    o.push(':');
                    if ind.is_some() {
                        o.push(' ');
                    }
                    x.w(o, ind, lvl + 1);
                }
                if !m.is_empty() {
                    nl(o, lvl);
                }
                o.push('}');
            }
        }
    }
    pub fn parse(s: &str) -> Result<J, String> {
        let b = s.as_bytes();
        let mut p = 0;
        let v = pv(b, &mut p)?;
        ws(b, &mut p);
        if p != b.len() {
            return Err(format!("trailing text at {}", p));
        }
        Ok(v)
    }
}

fn esc(o: &mut String, s: &str) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}

fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && matches!(b[*p], b' ' | b'\n' | b'\t' | b'\r') {
        *p += 1;
    }
}

fn pv(b: &[u8], p: &mut usize) -> Result<J, String> {
    ws(b, p);
    if *p >= b.len() {
        return Err("unexpected end".into());
    }
    match b[*p] {
        b'{' => {
            *p += 1;
            let mut m = BTreeMap::new();
            loop {
                ws(b, p);
                if *p < b.len() && b[*p] == b'}' {
                    *p += 1;
                    break;
                }
                let k = match pv(b, p)? {
                    J::Str(s) => s,
                    _ => return Err("key".into()),
                };
                ws(b, p);
                if *p >= b.len() || b[*p] != b':' {
                    return Err(format!("colon at {}", p));
                }
                *p += 1;
                let v = pv(b, p)?;
                m.insert(k, v);
                ws(b, p);
                if *p < b.len() && b[*p] == b',' {
                    *p += 1;
                }
            }
            Ok(J::Obj(m))
        }
        b'[' => {
            *p += 1;
            let mut v = Vec::new();
            loop {
                ws(b, p);
                if *p < b.len() && b[*p] == b']' {
                    *p += 1;
                    break;
                }
                v.push(pv(b, p)?);
                ws(b, p);
                if *p < b.len() && b[*p] == b',' {
                    *p += 1;
                }
            }
            Ok(J::Arr(v))
        }
        b'"' => {
            *p += 1;
            let mut out: Vec<u8> = Vec::new();
            while *p < b.len() && b[*p] != b'"' {
                if b[*p] == b'\\' {
                    *p += 1;
                    match b.get(*p) {
                        Some(b'n') => out.push(b'\n'),
                        Some(b't') => out.push(b'\t'),
                        Some(b'r') => out.push(b'\r'),
                        Some(b'b') => out.push(8),
                        Some(b'f') => out.push(12),
                        Some(b'u') => {
                            let h = |q: usize| -> Result<u32, String> {
                                let t = b.get(q..q + 4).ok_or("short escape")?;
                                u32::from_str_radix(std::str::from_utf8(t).map_err(|e| e.to_string())?, 16)
                                    .map_err(|e| e.to_string())
                            };
                            let mut c = h(*p + 1)?;
                            *p += 4;
                            if (0xd800..0xdc00).contains(&c) && b.get(*p + 1) == Some(&b'\\') {
                                let d = h(*p + 3)?;
                                *p += 6;
                                c = 0x10000 + ((c - 0xd800) << 10) + (d.wrapping_sub(0xdc00) & 0x3ff);
                            }
                            let mut t = [0u8; 4];
                            let ch = char::from_u32(c).unwrap_or('\u{fffd}');
                            out.extend_from_slice(ch.encode_utf8(&mut t).as_bytes());
                        }
                        Some(&c) => out.push(c),
                        None => return Err("escape".into()),
                    }
                    *p += 1;
                } else {
                    out.push(b[*p]);
                    *p += 1;
                }
            }
            *p += 1;
            String::from_utf8(out).map(J::Str).map_err(|e| e.to_string())
        }
        b't' if b[*p..].starts_with(b"true") => {
            *p += 4;
            Ok(J::Bool(true))
        }
        b'f' if b[*p..].starts_with(b"false") => {
            *p += 5;
            Ok(J::Bool(false))
        }
        b'n' if b[*p..].starts_with(b"null") => {
            *p += 4;
            Ok(J::Null)
        }
        _ => {
            let s = *p;
            while *p < b.len() && matches!(b[*p], b'-' | b'+' | b'.' | b'e' | b'E' | b'0'..=b'9') {
                *p += 1;
            }
            let t = std::str::from_utf8(&b[s..*p]).map_err(|e| e.to_string())?;
            if let Ok(i) = t.parse::<i64>() {
                return Ok(J::Int(i));
            }
            t.parse::<f64>().map(J::Num).map_err(|_| format!("bad token at {}", s))
        }
    }
}

impl From<&str> for J {
    fn from(v: &str) -> J {
        J::Str(v.to_string())
    }
}
impl From<String> for J {
    fn from(v: String) -> J {
        J::Str(v)
    }
}
impl From<&String> for J {
    fn from(v: &String) -> J {
        J::Str(v.clone())
    }
}
impl From<i64> for J {
    fn from(v: i64) -> J {
        J::Int(v)
    }
}
impl From<i32> for J {
    fn from(v: i32) -> J {
        J::Int(v as i64)
    }
}
impl From<u32> for J {
    fn from(v: u32) -> J {
        J::Int(v as i64)
    }
}
impl From<usize> for J {
    fn from(v: usize) -> J {
        J::Int(v as i64)
    }
}
impl From<u64> for J {
    // 64-bit values travel as strings: exact in every reader
    fn from(v: u64) -> J {
        if v < (1 << 53) {
            J::Int(v as i64)
        } else {
            J::Str(v.to_string())
        }
    }
}
impl From<f64> for J {
    fn from(v: f64) -> J {
        J::Num(v)
    }
}
impl From<bool> for J {
    fn from(v: bool) -> J {
        J::Bool(v)
    }
}
impl From<Vec<J>> for J {
    fn from(v: Vec<J>) -> J {
        J::Arr(v)
    }
}
impl From<Vec<String>> for J {
    fn from(v: Vec<String>) -> J {
        J::Arr(v.into_iter().map(J::Str).collect())
    }
}
