//! Minimal JSON reader and string writer.
use std::collections::BTreeMap;

#[derive(Debug, Clone, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(BTreeMap<String, J>),
}

impl J {
    pub fn get(&self, k: &str) -> &J {
        match self {
            J::Obj(m) => m.get(k).unwrap_or(&J::Null),
            _ => &J::Null,
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => "",
        }
    }
    pub fn num(&self) -> i64 {
        match self {
            J::Num(n) => *n as i64,
            _ => 0,
        }
    }
    pub fn bool(&self) -> bool {
        matches!(self, J::Bool(true))
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => &[],
        }
    }
}

pub fn parse(s: &str) -> Option<J> {
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    let v = val(&b, &mut i)?;
    Some(v)
}
fn ws(b: &[char], i: &mut usize) {
    while *i < b.len() && b[*i].is_whitespace() {
        *i += 1;
    }
}
fn val(b: &[char], i: &mut usize) -> Option<J> {
    ws(b, i);
    match *b.get(*i)? {
        '{' => {
            *i += 1;
            let mut m = BTreeMap::new();
            loop {
                ws(b, i);
                if *b.get(*i)? == '}' {
                    *i += 1;
                    return Some(J::Obj(m));
                }
                if *b.get(*i)? == ',' {
                    *i += 1;
                    continue;
                }
                let k = match val(b, i)? {
                    J::Str(s) => s,
                    _ => return None,
                };
                ws(b, i);
                if *b.get(*i)? != ':' {
                    return None;
                }
                *i += 1;
                m.insert(k, val(b, i)?);
            }
        }
        '[' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                match *b.get(*i)? {
                    ']' => {
                        *i += 1;
                        return Some(J::Arr(v));
                    }
                    ',' => *i += 1,
                    _ => v.push(val(b, i)?),
                }
            }
        }
        '"' => {
            *i += 1;
            let mut s = String::new();
            loop {
                match *b.get(*i)? {
                    '"' => {
                        *i += 1;
                        return Some(J::Str(s));
                    }
                    '\\' => {
                        *i += 1;
                        match *b.get(*i)? {
                            'n' => s.push('\n'),
                            't' => s.push('\t'),
                            'r' => s.push('\r'),
                            'b' => s.push('\u{8}'),
                            'f' => s.push('\u{c}'),
                            'u' => {
                                let h: String = b.get(*i + 1..*i + 5)?.iter().collect();
                                let mut c = u32::from_str_radix(&h, 16).ok()?;
                                *i += 4;
                                if (0xD800..0xDC00).contains(&c) {
                                    let h: String = b.get(*i + 3..*i + 7)?.iter().collect();
                                    let d = u32::from_str_radix(&h, 16).ok()?;
                                    c = 0x10000 + ((c - 0xD800) << 10) + (d - 0xDC00);
                                    *i += 6;
                                }
                                s.push(char::from_u32(c)?);
                            }
                            c => s.push(c),
                        }
                        *i += 1;
                    }
                    c => {
                        s.push(c);
                        *i += 1;
                    }
                }
            }
        }
        't' => {
            *i += 4;
            Some(J::Bool(true))
        }
        'f' => {
            *i += 5;
            Some(J::Bool(false))
        }
        'n' => {
            *i += 4;
            Some(J::Null)
        }
        _ => {
            let st = *i;
            while *i < b.len() && "+-0123456789.eE".contains(b[*i]) {
                *i += 1;
            }
            let s: String = b[st..*i].iter().collect();
            s.parse().ok().map(J::Num)
        }
    }
}

pub fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
