//! Minimal JSON value, writer and reader (no dependencies).
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i64),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(BTreeMap<String, J>),
}
impl J {
    pub fn s(x: impl Into<String>) -> J {
        J::Str(x.into())
    }
    pub fn obj<const N: usize>(kv: [(&str, J); N]) -> J {
        J::Obj(kv.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(m) => m.get(k),
            _ => None,
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => "",
        }
    }
    pub fn int(&self) -> i64 {
        match self {
            J::Int(i) => *i,
            J::Num(f) => *f as i64,
            _ => 0,
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(a) => a,
            _ => &[],
        }
    }
    pub fn render(&self) -> String {
        let mut o = String::new();
        self.w(&mut o);
        o
    }
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => {
                let _ = write!(o, "{b}");
            }
            J::Int(i) => {
                let _ = write!(o, "{i}");
            }
            J::Num(i) => {
                let _ = write!(o, "{i}");
            }
            J::Str(s) => ws(s, o),
            J::Arr(a) => {
                o.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::Obj(m) => {
                o.push('{');
                for (i, (k, v)) in m.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    ws(k, o);
                    o.push(':');
                    v.w(o);
                }
                o.push('}');
            }
        }
    }
    pub fn parse(s: &str) -> Option<J> {
        let c: Vec<char> = s.chars().collect();
        let mut i = 0;
        let v = pv(&c, &mut i)?;
        Some(v)
    }
}
fn ws(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
fn sk(c: &[char], i: &mut usize) {
    while *i < c.len() && c[*i].is_whitespace() {
        *i += 1;
    }
}
fn pv(c: &[char], i: &mut usize) -> Option<J> {
    sk(c, i);
    match c.get(*i)? {
        '{' => {
            *i += 1;
            let mut m = BTreeMap::new();
            sk(c, i);
            if c.get(*i)? == &'}' {
                *i += 1;
                return Some(J::Obj(m));
            }
            loop {
                sk(c, i);
                let k = match pv(c, i)? {
                    J::Str(s) => s,
                    _ => return None,
                };
                sk(c, i);
                if c.get(*i)? != &':' {
                    return None;
                }
                *i += 1;
                let v = pv(c, i)?;
                m.insert(k, v);
                sk(c, i);
                match c.get(*i)? {
                    ',' => *i += 1,
                    '}' => {
                        *i += 1;
                        return Some(J::Obj(m));
                    }
                    _ => return None,
                }
            }
        }
        '[' => {
            *i += 1;
            let mut a = vec![];
            sk(c, i);
            if c.get(*i)? == &']' {
                *i += 1;
                return Some(J::Arr(a));
            }
            loop {
                a.push(pv(c, i)?);
                sk(c, i);
                match c.get(*i)? {
                    ',' => *i += 1,
                    ']' => {
                        *i += 1;
                        return Some(J::Arr(a));
                    }
                    _ => return None,
                }
            }
        }
        '"' => {
            *i += 1;
            let mut s = String::new();
            loop {
                match c.get(*i)? {
                    '"' => {
                        *i += 1;
                        return Some(J::Str(s));
                    }
                    '\\' => {
                        *i += 1;
                        match c.get(*i)? {
                            'n' => s.push('\n'),
                            'r' => s.push('\r'),
                            't' => s.push('\t'),
                            'b' => s.push('\u{8}'),
                            'f' => s.push('\u{c}'),
                            'u' => {
                                let h: String = c.get(*i + 1..*i + 5)?.iter().collect();
                                let mut v = u32::from_str_radix(&h, 16).ok()?;
                                *i += 4;
                                if (0xd800..0xdc00).contains(&v)
                                    && c.get(*i + 1) == Some(&'\\')
                                    && c.get(*i + 2) == Some(&'u')
                                {
                                    let h: String = c.get(*i + 3..*i + 7)?.iter().collect();
                                    let lo = u32::from_str_radix(&h, 16).ok()?;
                                    v = 0x10000 + ((v - 0xd800) << 10) + (lo - 0xdc00);
                                    *i += 6;
                                }
                                s.push(char::from_u32(v)?);
                            }
                            x => s.push(*x),
                        }
                        *i += 1;
                    }
                    x => {
                        s.push(*x);
                        *i += 1;
                    }
                }
            }
        }
        't' => {
            *i += 4;
            Some(J::Bool(true))
        }
        'f' => {
            *i += 5;
            Some(J::Bool(false))
        }
        'n' => {
            *i += 4;
            Some(J::Null)
        }
        _ => {
            let st = *i;
            while *i < c.len() && matches!(c[*i], '0'..='9' | '-' | '+' | '.' | 'e' | 'E') {
                *i += 1;
            }
            let t: String = c[st..*i].iter().collect();
            if let Ok(x) = t.parse::<i64>() {
                Some(J::Int(x))
            } else {
                t.parse::<f64>().ok().map(J::Num)
            }
        }
    }
}
