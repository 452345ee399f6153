//! Just enough JSON.
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(BTreeMap<String, J>),
}

impl J {
    pub fn get(&self, k: &str) -> &J {
        match self {
            J::Obj(m) => m.get(k).unwrap_or(&J::Null),
            _ => &J::Null,
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => "",
        }
    }
    pub fn num(&self) -> u64 {
        match self {
            J::Num(n) => *n as u64,
            _ => 0,
        }
    }
    pub fn truth(&self) -> bool {
        *self == J::Bool(true)
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(a) => a,
            _ => &[],
        }
    }
    pub fn has(&self, k: &str) -> bool {
        !matches!(self.get(k), J::Null)
    }

    pub fn parse(s: &str) -> Option<J> {
        let b: Vec<char> = s.chars().collect();
        let mut i = 0;
        let v = val(&b, &mut i)?;
        ws(&b, &mut i);
        (i == b.len()).then_some(v)
    }
}

fn ws(b: &[char], i: &mut usize) {
    while *i < b.len() && b[*i].is_whitespace() {
        *i += 1;
    }
}

fn val(b: &[char], i: &mut usize) -> Option<J> {
    ws(b, i);
    match *b.get(*i)? {
        '{' => {
            *i += 1;
            let mut m = BTreeMap::new();
            ws(b, i);
            if b.get(*i) == Some(&'}') {
                *i += 1;
                return Some(J::Obj(m));
            }
            loop {
                ws(b, i);
                let J::Str(k) = val(b, i)? else { return None };
                ws(b, i);
                if b.get(*i)? != &':' {
                    return None;
                }
                *i += 1;
                m.insert(k, val(b, i)?);
                ws(b, i);
                match b.get(*i)? {
                    ',' => *i += 1,
                    '}' => {
                        *i += 1;
                        return Some(J::Obj(m));
                    }
                    _ => return None,
                }
            }
        }
        '[' => {
            *i += 1;
            let mut v = vec![];
            ws(b, i);
            if b.get(*i) == Some(&']') {
                *i += 1;
                return Some(J::Arr(v));
            }
            loop {
                v.push(val(b, i)?);
                ws(b, i);
                match b.get(*i)? {
                    ',' => *i += 1,
                    ']' => {
                        *i += 1;
                        return Some(J::Arr(v));
                    }
                    _ => return None,
                }
            }
        }
        '"' => {
            *i += 1;
            let mut s = String::new();
            loop {
                let c = *b.get(*i)?;
                *i += 1;
                match c {
                    '"' => return Some(J::Str(s)),
                    '\\' => {
                        let e = *b.get(*i)?;
                        *i += 1;
                        match e {
                            'n' => s.push('\n'),
                            't' => s.push('\t'),
                            'r' => s.push('\r'),
                            'b' => s.push('\u{8}'),
                            'f' => s.push('\u{c}'),
                            'u' => {
                                let h: String = b.get(*i..*i + 4)?.iter().collect();
                                *i += 4;
                                s.push(
                                    char::from_u32(u32::from_str_radix(&h, 16).ok()?).unwrap_or('?'),
                                );
                            }
                            c => s.push(c),
                        }
                    }
                    c => s.push(c),
                }
            }
        }
        't' => lit(b, i, "true", J::Bool(true)),
        'f' => lit(b, i, "false", J::Bool(false)),
        'n' => lit(b, i, "null", J::Null),
        _ => {
            let st = *i;
            while *i < b.len() && "+-0123456789.eE".contains(b[*i]) {
                *i += 1;
            }
            b[st..*i].iter().collect::<String>().parse().ok().map(J::Num)
        }
    }
}

fn lit(b: &[char], i: &mut usize, s: &str, v: J) -> Option<J> {
    let n = s.len();
    if b.get(*i..*i + n)?.iter().collect::<String>() == s {
        *i += n;
        Some(v)
    } else {
        None
    }
}

pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl std::fmt::Display for J {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            J::Null => write!(f, "null"),
            J::Bool(b) => write!(f, "{b}"),
            J::Num(n) => write!(f, "{n}"),
            J::Str(s) => write!(f, "{}", quote(s)),
            J::Arr(a) => {
                write!(f, "[")?;
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        write!(f, ", ")?;
                    }
                    write!(f, "{x}")?;
                }
                write!(f, "]")
            }
            J::Obj(m) => {
                write!(f, "{{")?;
                for (i, (k, x)) in m.iter().enumerate() {
                    if i > 0 {
                        write!(f, ", ")?;
                    }
                    write!(f, "{}: {x}", quote(k))?;
                }
                write!(f, "}}")
            }
        }
    }
}
