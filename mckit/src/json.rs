//! Just enough JSON for reports, so that no check depends on anything but the code under test.
use std::collections::BTreeMap;
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    B(bool),
    N(f64),
    S(String),
    A(Vec<J>),
    O(BTreeMap<String, J>),
}

impl J {
    pub fn get(&self, k: &str) -> J {
        match self {
            J::O(m) => m.get(k).cloned().unwrap_or(J::Null),
            _ => J::Null,
        }
    }
    pub fn arr(&self) -> Vec<J> {
        match self {
            J::A(a) => a.clone(),
            _ => vec![],
        }
    }
    pub fn num(&self) -> f64 {
        match self {
            J::N(n) => *n,
            _ => 0.0,
        }
    }
    pub fn str(&self) -> String {
        match self {
            J::S(s) => s.clone(),
            _ => String::new(),
        }
    }
}

fn esc(s: &str, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    f.write_str("\"")?;
    for c in s.chars() {
        match c {
            '"' => f.write_str("\\\"")?,
            '\\' => f.write_str("\\\\")?,
            '\n' => f.write_str("\\n")?,
            c if (c as u32) < 0x20 => write!(f, "\\u{:04x}", c as u32)?,
            c => write!(f, "{c}")?,
        }
    }
    f.write_str("\"")
}

impl fmt::Display for J {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            J::Null => f.write_str("null"),
            J::B(b) => write!(f, "{b}"),
            J::N(n) if n.is_finite() => write!(f, "{n}"),
            J::N(_) => f.write_str("null"),
            J::S(s) => esc(s, f),
            J::A(a) => {
                f.write_str("[")?;
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        f.write_str(",")?;
                    }
                    write!(f, "{x}")?;
                }
                f.write_str("]")
            }
            J::O(m) => {
                f.write_str("{")?;
                for (i, (k, v)) in m.iter().enumerate() {
                    if i > 0 {
                        f.write_str(",")?;
                    }
                    esc(k, f)?;
                    write!(f, ":{v}")?;
                }
                f.write_str("}")
            }
        }
    }
}

pub fn parse(s: &str) -> Result<J, String> {
    let b = s.as_bytes();
    let mut i = 0;
    let v = val(b, &mut i)?;
    ws(b, &mut i);
    if i != b.len() {
        return Err(format!("trailing data at {i}"));
    }
    Ok(v)
}

fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && b[*i].is_ascii_whitespace() {
        *i += 1;
    }
}

fn val(b: &[u8], i: &mut usize) -> Result<J, String> {
    ws(b, i);
    match b.get(*i) {
        None => Err("unexpected end".into()),
        Some(b'{') => {
            *i += 1;
            let mut m = BTreeMap::new();
            loop {
                ws(b, i);
                if b.get(*i) == Some(&b'}') {
                    *i += 1;
                    return Ok(J::O(m));
                }
                let k = string(b, i)?;
                ws(b, i);
                if b.get(*i) != Some(&b':') {
                    return Err("expected :".into());
                }
                *i += 1;
                m.insert(k, val(b, i)?);
                ws(b, i);
                if b.get(*i) == Some(&b',') {
                    *i += 1;
                }
            }
        }
        Some(b'[') => {
            *i += 1;
            let mut a = vec![];
            loop {
                ws(b, i);
                if b.get(*i) == Some(&b']') {
                    *i += 1;
                    return Ok(J::A(a));
                }
                a.push(val(b, i)?);
                ws(b, i);
                if b.get(*i) == Some(&b',') {
                    *i += 1;
                }
            }
        }
        Some(b'"') => Ok(J::S(string(b, i)?)),
        Some(b't') => {
            *i += 4;
            Ok(J::B(true))
        }
        Some(b'f') => {
            *i += 5;
            Ok(J::B(false))
        }
        Some(b'n') => {
            *i += 4;
            Ok(J::Null)
        }
        _ => {
            let st = *i;
            while *i < b.len() && matches!(b[*i], b'0'..=b'9' | b'-' | b'+' | b'.' | b'e' | b'E') {
                *i += 1;
            }
            std::str::from_utf8(&b[st..*i]).unwrap_or("").parse().map(J::N).map_err(|e| format!("number at {st}: {e}"))
        }
    }
}

fn string(b: &[u8], i: &mut usize) -> Result<String, String> {
    ws(b, i);
    if b.get(*i) != Some(&b'"') {
        return Err(format!("expected string at {i}"));
    }
    *i += 1;
    let mut out = vec![];
    while let Some(&c) = b.get(*i) {
        *i += 1;
        match c {
            b'"' => return String::from_utf8(out).map_err(|e| e.to_string()),
            b'\\' => {
                let e = *b.get(*i).ok_or("bad escape")?;
                *i += 1;
                match e {
                    b'n' => out.push(b'\n'),
                    b't' => out.push(b'\t'),
                    b'u' => {
                        let h = std::str::from_utf8(b.get(*i..*i + 4).ok_or("bad escape")?).map_err(|e| e.to_string())?;
                        let c = char::from_u32(u32::from_str_radix(h, 16).map_err(|e| e.to_string())?).unwrap_or('?');
                        *i += 4;
                        let mut t = [0; 4];
                        out.extend_from_slice(c.encode_utf8(&mut t).as_bytes());
                    }
                    e => out.push(e),
                }
            }
            c => out.push(c),
        }
    }
    Err("unterminated string".into())
}
