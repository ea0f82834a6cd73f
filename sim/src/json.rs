//! A minimal JSON reader/writer (no serde offline is needed for this little).

#[derive(Clone, Debug)]
pub enum J { Null, Bool(bool), Num(f64), Str(String), Arr(Vec<J>), Obj(Vec<(String, J)>) }

pub fn s(v: impl Into<String>) -> J { J::Str(v.into()) }
pub fn n(v: u64) -> J { J::Num(v as f64) }
pub fn obj(v: Vec<(&str, J)>) -> J { J::Obj(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect()) }

impl J {
    pub fn get(&self, k: &str) -> Option<&J> { match self { J::Obj(o) => o.iter().find(|x| x.0 == k).map(|x| &x.1), _ => None } }
    pub fn str(&self) -> &str { match self { J::Str(s) => s, _ => "" } }
    pub fn u64(&self) -> u64 { match self { J::Num(f) => *f as u64, J::Str(s) => s.parse().unwrap_or(0), _ => 0 } }
    pub fn u32s(&self) -> Vec<u32> { match self { J::Arr(a) => a.iter().map(|x| x.u64() as u32).collect(), _ => vec![] } }

    pub fn write(&self, o: &mut String, ind: usize) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Num(f) => if f.fract() == 0.0 && f.abs() < 9e15 { o.push_str(&format!("{}", *f as i64)) } else { o.push_str(&format!("{f}")) },
            J::Str(t) => {
                o.push('"');
                for c in t.chars() {
                    match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), '\r' => o.push_str("\\r"),
                              c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
                }
                o.push('"');
            }
            J::Arr(a) => {
                let flat = a.iter().all(|x| matches!(x, J::Num(_)));
                o.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    if !flat { o.push('\n'); o.push_str(&" ".repeat(ind + 1)); }
                    x.write(o, ind + 1);
                }
                if !flat && !a.is_empty() { o.push('\n'); o.push_str(&" ".repeat(ind)); }
                o.push(']');
            }
            J::Obj(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    o.push('\n'); o.push_str(&" ".repeat(ind + 1));
                    s(k.clone()).write(o, 0);
                    o.push_str(": ");
                    x.write(o, ind + 1);
                }
                o.push('\n'); o.push_str(&" ".repeat(ind)); o.push('}');
            }
        }
    }
    pub fn text(&self) -> String { let mut o = String::new(); self.write(&mut o, 0); o.push('\n'); o }

    pub fn parse(t: &str) -> Option<J> { let b = t.as_bytes(); let mut p = 0; val(b, &mut p) }
}

fn ws(b: &[u8], p: &mut usize) { while *p < b.len() && b[*p].is_ascii_whitespace() { *p += 1; } }
fn val(b: &[u8], p: &mut usize) -> Option<J> {
    ws(b, p);
    match *b.get(*p)? {
        b'{' => {
            *p += 1; let mut o = vec![];
            loop {
                ws(b, p);
                if *b.get(*p)? == b'}' { *p += 1; return Some(J::Obj(o)); }
                if *b.get(*p)? == b',' { *p += 1; continue; }
                let k = val(b, p)?; ws(b, p);
                if *b.get(*p)? != b':' { return None; }
                *p += 1;
                let v = val(b, p)?;
                o.push((k.str().to_string(), v));
            }
        }
        b'[' => {
            *p += 1; let mut a = vec![];
            loop {
                ws(b, p);
                if *b.get(*p)? == b']' { *p += 1; return Some(J::Arr(a)); }
                if *b.get(*p)? == b',' { *p += 1; continue; }
                a.push(val(b, p)?);
            }
        }
        b'"' => {
            *p += 1; let mut t = vec![];
            loop {
                let c = *b.get(*p)?; *p += 1;
                match c {
                    b'"' => return Some(J::Str(String::from_utf8_lossy(&t).into_owned())),
                    b'\\' => {
                        let e = *b.get(*p)?; *p += 1;
                        match e {
                            b'n' => t.push(b'\n'), b't' => t.push(b'\t'), b'r' => t.push(b'\r'),
                            b'u' => { let h = std::str::from_utf8(b.get(*p..*p + 4)?).ok()?; *p += 4;
                                      let c = char::from_u32(u32::from_str_radix(h, 16).ok()?)?; let mut q = [0; 4]; t.extend_from_slice(c.encode_utf8(&mut q).as_bytes()); }
                            e => t.push(e),
                        }
                    }
                    c => t.push(c),
                }
            }
        }
        b't' => { *p += 4; Some(J::Bool(true)) }
        b'f' => { *p += 5; Some(J::Bool(false)) }
        b'n' => { *p += 4; Some(J::Null) }
        _ => {
            let st = *p;
            while *p < b.len() && matches!(b[*p], b'0'..=b'9' | b'-' | b'+' | b'.' | b'e' | b'E') { *p += 1; }
            std::str::from_utf8(&b[st..*p]).ok()?.parse().ok().map(J::Num)
        }
    }
}
