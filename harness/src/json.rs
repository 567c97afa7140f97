//! Minimal JSON, enough for the case and record files (no external crates).
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn s(x: &str) -> J {
        J::Str(x.to_string())
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|(n, _)| n == k).map(|(_, j)| j),
            _ => None,
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => &[],
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => panic!("harness: string expected, got {:?}", self),
        }
    }
    pub fn int(&self) -> i64 {
        match self {
            J::Int(i) => *i,
            _ => panic!("harness: integer expected, got {:?}", self),
        }
    }
    pub fn bool(&self) -> bool {
        matches!(self, J::Bool(true))
    }
    pub fn get_str(&self, k: &str, d: &str) -> String {
        self.get(k).map(|j| j.str().to_string()).unwrap_or(d.to_string())
    }
    pub fn get_int(&self, k: &str, d: i64) -> i64 {
        self.get(k).map(|j| j.int()).unwrap_or(d)
    }
    pub fn get_arr(&self, k: &str) -> &[J] {
        self.get(k).map(|j| j.arr()).unwrap_or(&[])
    }
    pub fn write(&self, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            J::Int(i) => out.push_str(&i.to_string()),
            J::Str(s) => {
                out.push('"');
                for c in s.chars() {
                    match c {
                        '"' => out.push_str("\\\""),
                        '\\' => out.push_str("\\\\"),
                        '\n' => out.push_str("\\n"),
                        c if (c as u32) < 32 => out.push_str(&format!("\\u{:04x}", c as u32)),
                        c => out.push(c),
                    }
                }
                out.push('"');
            }
            J::Arr(v) => {
                out.push('[');
                for (i, j) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    j.write(out);
                }
                out.push(']');
            }
            J::Obj(v) => {
                out.push('{');
                for (i, (k, j)) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    J::s(k).write(out);
                    out.push(':');
                    j.write(out);
                }
                out.push('}');
            }
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
}

#[macro_export]
macro_rules! obj {
    ($($k:expr => $v:expr),* $(,)?) => { $crate::json::J::Obj(vec![$(($k.to_string(), $v)),*]) };
}

pub fn parse(text: &str) -> J {
    let b = text.as_bytes();
    let mut p = 0usize;
    let j = value(b, &mut p);
    ws(b, &mut p);
    if p != b.len() {
        panic!("harness: trailing characters in JSON");
    }
    j
}

fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && (b[*p] as char).is_ascii_whitespace() {
        *p += 1;
    }
}

fn value(b: &[u8], p: &mut usize) -> J {
    ws(b, p);
    match b[*p] {
        b'n' => {
            *p += 4;
            J::Null
        }
        b't' => {
            *p += 4;
            J::Bool(true)
        }
        b'f' => {
            *p += 5;
            J::Bool(false)
        }
        b'"' => J::Str(string(b, p)),
        b'[' => {
            *p += 1;
            let mut v = vec![];
            ws(b, p);
            if b[*p] == b']' {
                *p += 1;
                return J::Arr(v);
            }
            loop {
                v.push(value(b, p));
                ws(b, p);
                match b[*p] {
                    b',' => *p += 1,
                    b']' => {
                        *p += 1;
                        return J::Arr(v);
                    }
                    _ => panic!("harness: bad JSON array"),
                }
            }
        }
        b'{' => {
            *p += 1;
            let mut v = vec![];
            ws(b, p);
            if b[*p] == b'}' {
                *p += 1;
                return J::Obj(v);
            }
            loop {
                ws(b, p);
                let k = string(b, p);
                ws(b, p);
                if b[*p] != b':' {
                    panic!("harness: bad JSON object");
                }
                *p += 1;
                v.push((k, value(b, p)));
                ws(b, p);
                match b[*p] {
                    b',' => *p += 1,
                    b'}' => {
                        *p += 1;
                        return J::Obj(v);
                    }
                    _ => panic!("harness: bad JSON object"),
                }
            }
        }
        _ => {
            let s = *p;
            if b[*p] == b'-' {
                *p += 1;
            }
            while *p < b.len() && b[*p].is_ascii_digit() {
                *p += 1;
            }
            J::Int(std::str::from_utf8(&b[s..*p]).unwrap().parse().expect("harness: bad JSON number"))
        }
    }
}

fn string(b: &[u8], p: &mut usize) -> String {
    *p += 1;
    let mut v: Vec<u8> = vec![];
    loop {
        match b[*p] {
            b'"' => {
                *p += 1;
                return String::from_utf8(v).unwrap();
            }
            b'\\' => {
                *p += 1;
                match b[*p] {
                    b'n' => v.push(b'\n'),
                    b't' => v.push(b'\t'),
                    b'u' => {
                        let h = std::str::from_utf8(&b[*p + 1..*p + 5]).unwrap();
                        let c = char::from_u32(u32::from_str_radix(h, 16).unwrap()).unwrap();
                        let mut buf = [0; 4];
                        v.extend_from_slice(c.encode_utf8(&mut buf).as_bytes());
                        *p += 4;
                    }
                    c => v.push(c),
                }
                *p += 1;
            }
            c => {
                v.push(c);
                *p += 1;
            }
        }
    }
}
