//! Reference encoder: value -> document shape (choosing table, inline or list
//! form and folding keys) -> lines. Written from the format description; used
//! as the oracle for canonical output.
use crate::gens::Eo;
use crate::util::{V, is_identifier};
use std::collections::HashSet;
use toon::StringOrNumberOrBoolOrNull as P;

/// Strings whose quoting is left open: a multi-digit number-like prefix with
/// leading zero followed by something that makes the whole not a number.
pub fn quoting_open(s: &str) -> bool {
    let t = s.trim();
    let b = t.strip_prefix('-').unwrap_or(t).as_bytes();
    let digits = b.iter().take_while(|c| c.is_ascii_digit()).count();
    digits > 1 && b[0] == b'0' && !numeric_shape(t)
}

/// `-? digits ( . digits )? ( [eE] [+-]? digits )?`
pub fn numeric_shape(s: &str) -> bool {
    let mut it = s.chars().peekable();
    if it.peek() == Some(&'-') {
        it.next();
    }
    let digits = |it: &mut std::iter::Peekable<std::str::Chars>| {
        let mut n = 0;
        while it.peek().is_some_and(char::is_ascii_digit) {
            it.next();
            n += 1;
        }
        n > 0
    };
    if !digits(&mut it) {
        return false;
    }
    if it.peek() == Some(&'.') {
        it.next();
        if !digits(&mut it) {
            return false;
        }
    }
    if matches!(it.peek(), Some('e' | 'E')) {
        it.next();
        if matches!(it.peek(), Some('+' | '-')) {
            it.next();
        }
        if !digits(&mut it) {
            return false;
        }
    }
    it.next().is_none()
}

pub fn must_quote(s: &str, delim: char) -> bool {
    s.is_empty()
        || s.trim() != s
        || s == "true"
        || s == "false"
        || s == "null"
        || numeric_shape(s)
        || s.starts_with('-')
        || s.chars().any(|c| c == delim || ":\"\\[]{}\n\r\t".contains(c))
}

pub fn quoted(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\r' => o += "\\r",
            '\t' => o += "\\t",
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn bare_key(k: &str) -> bool {
    let mut it = k.bytes();
    it.next().is_some_and(|c| c.is_ascii_alphabetic() || c == b'_')
        && it.all(|c| c.is_ascii_alphanumeric() || c == b'_' || c == b'.')
}

pub fn key_text(k: &str) -> String {
    if bare_key(k) { k.to_string() } else { quoted(k) }
}

pub fn prim_text(p: &P, delim: char) -> String {
    match p {
        P::Null => "null".into(),
        P::Bool(true) => "true".into(),
        P::Bool(false) => "false".into(),
        P::Number(n) => format!("{n}"),
        P::String(s) => {
            if must_quote(s, delim) {
                quoted(s)
            } else {
                s.clone()
            }
        }
    }
}

enum Shape {
    Prim(P),
    Object(Vec<(String, Shape)>),
    Inline(Vec<P>),
    Table(Vec<String>, Vec<Vec<P>>),
    List(Vec<Shape>),
}

struct FoldCtx<'a> {
    root_dotted: Option<&'a HashSet<String>>,
    prefix: Option<String>,
    left: usize,
}

struct Shaper {
    on: bool,
    flatten: usize,
}

impl Shaper {
    fn item(&self, v: &V) -> Shape {
        match v {
            V::Object(o) => {
                let c = FoldCtx { root_dotted: None, prefix: None, left: self.flatten };
                Shape::Object(self.fields(o, &c, true))
            }
            V::Array(a) => self.array(a, false),
            V::Primitive(p) => Shape::Prim(p.clone()),
        }
    }

    fn array(&self, a: &[V], may_table: bool) -> Shape {
        let prims: Option<Vec<P>> =
            a.iter().map(|x| if let V::Primitive(p) = x { Some(p.clone()) } else { None }).collect();
        if let Some(p) = prims {
            return Shape::Inline(p);
        }
        if may_table && crate::util::is_table(a) {
            let V::Object(first) = &a[0] else { unreachable!() };
            let cols: Vec<String> = first.iter().map(|(k, _)| k.clone()).collect();
            let rows = a
                .iter()
                .map(|r| {
                    let V::Object(o) = r else { unreachable!() };
                    cols.iter()
                        .map(|c| match &o.iter().find(|(k, _)| k == c).unwrap().1 {
                            V::Primitive(p) => p.clone(),
                            _ => unreachable!(),
                        })
                        .collect()
                })
                .collect();
            return Shape::Table(cols, rows);
        }
        Shape::List(a.iter().map(|x| self.item(x)).collect())
    }

    fn fields(&self, o: &[(String, V)], c: &FoldCtx, list_item: bool) -> Vec<(String, Shape)> {
        let path = |k: &str| c.prefix.as_ref().map_or_else(|| k.to_string(), |p| format!("{p}.{k}"));
        let mut out = vec![];
        for (i, (k, v)) in o.iter().enumerate() {
            let V::Object(inner) = v else {
                let s = match v {
                    V::Array(a) => self.array(a, true),
                    V::Primitive(p) => Shape::Prim(p.clone()),
                    V::Object(_) => unreachable!(),
                };
                out.push((k.clone(), s));
                continue;
            };
            if list_item && i == 0 {
                // the field on the marker line is never folded
                let fresh = FoldCtx { root_dotted: None, prefix: None, left: self.flatten };
                out.push((k.clone(), Shape::Object(self.fields(inner, &fresh, false))));
                continue;
            }
            if self.on && c.left >= 2 {
                let mut segs = vec![k.as_str()];
                let mut cur = v;
                while segs.len() < c.left {
                    match cur {
                        V::Object(x) if x.len() == 1 => {
                            segs.push(&x[0].0);
                            cur = &x[0].1;
                        }
                        _ => break,
                    }
                }
                let joined = segs.join(".");
                if segs.len() >= 2
                    && segs.iter().all(|s| is_identifier(s))
                    && !o.iter().any(|(s, _)| *s == joined)
                    && !c.root_dotted.is_some_and(|r| r.contains(&path(&joined)))
                {
                    let s = match cur {
                        V::Primitive(p) => Shape::Prim(p.clone()),
                        V::Array(a) => self.array(a, true),
                        V::Object(x) => {
                            let sub = FoldCtx {
                                root_dotted: c.root_dotted,
                                prefix: Some(path(&joined)),
                                left: c.left - segs.len(),
                            };
                            Shape::Object(self.fields(x, &sub, false))
                        }
                    };
                    out.push((joined, s));
                    continue;
                }
            }
            let sub = FoldCtx { root_dotted: c.root_dotted, prefix: Some(path(k)), left: c.left };
            out.push((k.clone(), Shape::Object(self.fields(inner, &sub, false))));
        }
        out
    }
}

struct Writer {
    indent: usize,
    delim: char,
}

type Line = (usize, String);

impl Writer {
    fn header(&self, n: usize, cols: Option<&[String]>) -> String {
        let d = if self.delim == ',' { String::new() } else { self.delim.to_string() };
        let cols = cols.map_or(String::new(), |c| {
            let k: Vec<String> = c.iter().map(|k| key_text(k)).collect();
            format!("{{{}}}", k.join(&self.delim.to_string()))
        });
        format!("[{n}{d}]{cols}:")
    }
    fn cells(&self, p: &[P]) -> String {
        let v: Vec<String> = p.iter().map(|x| prim_text(x, self.delim)).collect();
        v.join(&self.delim.to_string())
    }
    fn array(&self, key: &str, s: &Shape, d: usize) -> Vec<Line> {
        match s {
            Shape::Inline(p) if p.is_empty() => vec![(d, format!("{key}{}", self.header(0, None)))],
            Shape::Inline(p) => vec![(d, format!("{key}{} {}", self.header(p.len(), None), self.cells(p)))],
            Shape::Table(cols, rows) => {
                let mut l = vec![(d, format!("{key}{}", self.header(rows.len(), Some(cols))))];
                l.extend(rows.iter().map(|r| (d + 1, self.cells(r))));
                l
            }
            Shape::List(items) => {
                let mut l = vec![(d, format!("{key}{}", self.header(items.len(), None)))];
                for x in items {
                    l.extend(self.item(x, d + 1));
                }
                l
            }
            _ => unreachable!(),
        }
    }
    fn item(&self, s: &Shape, d: usize) -> Vec<Line> {
        match s {
            Shape::Prim(p) => vec![(d, format!("- {}", prim_text(p, self.delim)))],
            Shape::Object(f) if f.is_empty() => vec![(d, "-".into())],
            Shape::Object(f) => {
                // as at one level deeper, the first line moved onto the marker
                let mut l = self.object(f, d + 1);
                l[0] = (d, format!("- {}", l[0].1));
                l
            }
            arr => {
                let mut l = self.array("", arr, d);
                l[0].1.insert_str(0, "- ");
                l
            }
        }
    }
    fn object(&self, f: &[(String, Shape)], d: usize) -> Vec<Line> {
        let mut l = vec![];
        for (k, s) in f {
            let k = key_text(k);
            match s {
                Shape::Prim(p) => l.push((d, format!("{k}: {}", prim_text(p, self.delim)))),
                Shape::Object(inner) => {
                    l.push((d, format!("{k}:")));
                    l.extend(self.object(inner, d + 1));
                }
                arr => l.extend(self.array(&k, arr, d)),
            }
        }
        l
    }
}

pub fn encode(v: &V, o: &Eo) -> Vec<String> {
    let sh = Shaper { on: o.fold, flatten: o.flatten.unwrap_or(usize::MAX) };
    let w = Writer { indent: o.indent, delim: o.delim };
    let lines = match v {
        V::Primitive(p) => vec![(0, prim_text(p, o.delim))],
        V::Array(a) => w.array("", &sh.array(a, true), 0),
        V::Object(f) => {
            let dotted: HashSet<String> = f.iter().map(|(k, _)| k.clone()).filter(|k| k.contains('.')).collect();
            let c = FoldCtx { root_dotted: Some(&dotted), prefix: None, left: sh.flatten };
            w.object(&sh.fields(f, &c, false), 0)
        }
    };
    lines.into_iter().map(|(d, t)| format!("{}{t}", " ".repeat(d * w.indent))).collect()
}
