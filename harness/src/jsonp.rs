//! An independent JSON parser (exact numbers, keeps key order and duplicate
//! keys) and printers with free formatting.
use crate::engine::Tape;
use crate::util::V;
use toon::StringOrNumberOrBoolOrNull as P;

pub fn parse(s: &str) -> Result<V, String> {
    let mut p = J { b: s.as_bytes(), s, i: 0 };
    p.ws();
    let v = p.value(0)?;
    p.ws();
    if p.i != p.b.len() {
        return Err(format!("trailing text at byte {}", p.i));
    }
    Ok(v)
}

struct J<'a> {
    b: &'a [u8],
    s: &'a str,
    i: usize,
}
impl J<'_> {
    fn ws(&mut self) {
        while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\n' | b'\r' | b'\t') {
            self.i += 1;
        }
    }
    fn err<T>(&self, m: &str) -> Result<T, String> {
        Err(format!("{m} at byte {}", self.i))
    }
    fn lit(&mut self, w: &str, v: V) -> Result<V, String> {
        if self.s[self.i..].starts_with(w) {
            self.i += w.len();
            Ok(v)
        } else {
            self.err("bad literal")
        }
    }
    fn value(&mut self, d: usize) -> Result<V, String> {
        if d > 5000 {
            return self.err("too deep");
        }
        match self.b.get(self.i) {
            None => self.err("end of text"),
            Some(b'n') => self.lit("null", V::Primitive(P::Null)),
            Some(b't') => self.lit("true", V::Primitive(P::Bool(true))),
            Some(b'f') => self.lit("false", V::Primitive(P::Bool(false))),
            Some(b'"') => Ok(V::Primitive(P::String(self.string()?))),
            Some(b'[') => {
                self.i += 1;
                let mut a = vec![];
                self.ws();
                if self.b.get(self.i) == Some(&b']') {
                    self.i += 1;
                    return Ok(V::Array(a));
                }
                loop {
                    self.ws();
                    a.push(self.value(d + 1)?);
                    self.ws();
                    match self.b.get(self.i) {
                        Some(b',') => self.i += 1,
                        Some(b']') => {
                            self.i += 1;
                            return Ok(V::Array(a));
                        }
                        _ => return self.err("expected , or ]"),
                    }
                }
            }
            Some(b'{') => {
                self.i += 1;
                let mut o = vec![];
                self.ws();
                if self.b.get(self.i) == Some(&b'}') {
                    self.i += 1;
                    return Ok(V::Object(o));
                }
                loop {
                    self.ws();
                    if self.b.get(self.i) != Some(&b'"') {
                        return self.err("expected key");
                    }
                    let k = self.string()?;
                    self.ws();
                    if self.b.get(self.i) != Some(&b':') {
                        return self.err("expected :");
                    }
                    self.i += 1;
                    self.ws();
                    let v = self.value(d + 1)?;
                    o.push((k, v));
                    self.ws();
                    match self.b.get(self.i) {
                        Some(b',') => self.i += 1,
                        Some(b'}') => {
                            self.i += 1;
                            return Ok(V::Object(o));
                        }
                        _ => return self.err("expected , or }"),
                    }
                }
            }
            Some(_) => self.number(),
        }
    }
    fn number(&mut self) -> Result<V, String> {
        let st = self.i;
        if self.b.get(self.i) == Some(&b'-') {
            self.i += 1;
        }
        let d0 = self.i;
        while self.b.get(self.i).is_some_and(u8::is_ascii_digit) {
            self.i += 1;
        }
        if self.i == d0 || (self.b[d0] == b'0' && self.i - d0 > 1) {
            return self.err("bad number");
        }
        if self.b.get(self.i) == Some(&b'.') {
            self.i += 1;
            let f = self.i;
            while self.b.get(self.i).is_some_and(u8::is_ascii_digit) {
                self.i += 1;
            }
            if f == self.i {
                return self.err("bad fraction");
            }
        }
        if matches!(self.b.get(self.i), Some(b'e' | b'E')) {
            self.i += 1;
            if matches!(self.b.get(self.i), Some(b'+' | b'-')) {
                self.i += 1;
            }
            let f = self.i;
            while self.b.get(self.i).is_some_and(u8::is_ascii_digit) {
                self.i += 1;
            }
            if f == self.i {
                return self.err("bad exponent");
            }
        }
        let x: f64 = self.s[st..self.i].parse().map_err(|_| "bad float".to_string())?;
        Ok(V::Primitive(P::Number(x)))
    }
    fn hex4(&mut self) -> Result<u32, String> {
        let h = self.s.get(self.i..self.i + 4).ok_or("short \\u")?;
        let v = u32::from_str_radix(h, 16).map_err(|_| "bad \\u".to_string())?;
        self.i += 4;
        Ok(v)
    }
    fn string(&mut self) -> Result<String, String> {
        self.i += 1;
        let mut o = String::new();
        loop {
            let Some(c) = self.s[self.i..].chars().next() else { return self.err("unterminated string") };
            self.i += c.len_utf8();
            match c {
                '"' => return Ok(o),
                '\\' => {
                    let e = *self.b.get(self.i).ok_or("end in escape")?;
                    self.i += 1;
                    match e {
                        b'"' => o.push('"'),
                        b'\\' => o.push('\\'),
                        b'/' => o.push('/'),
                        b'b' => o.push('\u{8}'),
                        b'f' => o.push('\u{c}'),
                        b'n' => o.push('\n'),
                        b'r' => o.push('\r'),
                        b't' => o.push('\t'),
                        b'u' => {
                            let a = self.hex4()?;
                            if (0xd800..0xdc00).contains(&a) {
                                if self.s.get(self.i..self.i + 2) != Some("\\u") {
                                    return self.err("lone surrogate");
                                }
                                self.i += 2;
                                let b = self.hex4()?;
                                if !(0xdc00..0xe000).contains(&b) {
                                    return self.err("bad surrogate");
                                }
                                o.push(char::from_u32(0x10000 + ((a - 0xd800) << 10) + (b - 0xdc00)).unwrap());
                            } else {
                                o.push(char::from_u32(a).ok_or("bad code point")?);
                            }
                        }
                        _ => return self.err("bad escape"),
                    }
                }
                c if (c as u32) < 0x20 => return self.err("raw control character"),
                c => o.push(c),
            }
        }
    }
}

fn str_lit(s: &str, t: &mut Option<&mut Tape>, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04X}", c as u32)),
            c => {
                if let Some(t) = t
                    && t.chance(1, 24)
                {
                    let mut b = [0u16; 2];
                    for u in c.encode_utf16(&mut b) {
                        o.push_str(&format!("\\u{u:04x}"));
                    }
                } else {
                    o.push(c);
                }
            }
        }
    }
    o.push('"');
}

pub fn number_text(x: f64) -> String {
    if x == x.trunc() && x.abs() < 1e15 { format!("{}", x as i64) } else { format!("{x:?}") }
}

fn ws(t: &mut Option<&mut Tape>, o: &mut String) {
    if let Some(t) = t {
        match t.weighted(&[5, 1, 1]) {
            0 => {}
            1 => o.push(' '),
            _ => o.push_str(t.pick(&["\n", "\t", "\r\n", "  ", "\n    "])),
        }
    }
}

fn print_to(v: &V, t: &mut Option<&mut Tape>, o: &mut String) {
    match v {
        V::Primitive(P::Null) => o.push_str("null"),
        V::Primitive(P::Bool(b)) => o.push_str(if *b { "true" } else { "false" }),
        V::Primitive(P::Number(x)) => o.push_str(&number_text(*x)),
        V::Primitive(P::String(s)) => str_lit(s, t, o),
        V::Array(a) => {
            o.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                ws(t, o);
                print_to(x, t, o);
                ws(t, o);
            }
            o.push(']');
        }
        V::Object(f) => {
            o.push('{');
            for (i, (k, x)) in f.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                ws(t, o);
                str_lit(k, t, o);
                ws(t, o);
                o.push(':');
                ws(t, o);
                print_to(x, t, o);
                ws(t, o);
            }
            o.push('}');
        }
    }
}

pub fn compact(v: &V) -> String {
    let mut o = String::new();
    print_to(v, &mut None, &mut o);
    o
}

/// JSON text of a value, whitespace and escapes chosen by the tape.
pub fn free(v: &V, t: &mut Tape) -> String {
    let mut o = String::new();
    print_to(v, &mut Some(t), &mut o);
    o
}
