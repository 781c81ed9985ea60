//! Reference decoder: text -> tree (with declared lengths and quoted keys),
//! tree -> events, tree -> value, and path expansion on the tree. Slow and
//! direct; used as the oracle for decoding.
use crate::util::{V, is_expandable};
use toon::{JsonStreamEvent as Ev, StringOrNumberOrBoolOrNull as P};

#[derive(Clone, Debug)]
pub enum T {
    Prim(P),
    Arr(usize, Vec<T>),
    Obj(Vec<(String, bool, T)>),
}

#[derive(Debug)]
pub struct Bad(pub String);
type R<X> = Result<X, Bad>;
fn bad<X>(s: impl Into<String>) -> R<X> {
    Err(Bad(s.into()))
}

struct Ln {
    depth: usize,
    text: String,
    no: usize,
}

struct D {
    lines: Vec<Ln>,
    at: usize,
    blanks: Vec<usize>,
    strict: bool,
}

const MAX_LEN: usize = 100_000_000;

/// Index of the quote closing the one at byte `i`.
fn close_quote(s: &str, i: usize) -> Option<usize> {
    let mut esc = false;
    for (j, c) in s.char_indices() {
        if j <= i {
            continue;
        }
        if esc {
            esc = false;
        } else if c == '\\' {
            if j + 1 < s.len() {
                esc = true;
            }
        } else if c == '"' {
            return Some(j);
        }
    }
    None
}

/// First `target` outside quotes at or after `from`.
fn outside(s: &str, target: char, from: usize) -> Option<usize> {
    let mut inq = false;
    let mut esc = false;
    for (j, c) in s.char_indices() {
        if j < from {
            continue;
        }
        if esc {
            esc = false;
            continue;
        }
        if inq && c == '\\' {
            esc = true;
        } else if c == '"' {
            inq = !inq;
        } else if c == target && !inq {
            return Some(j);
        }
    }
    None
}

fn unescape(s: &str) -> R<String> {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        o.push(match it.next() {
            Some('n') => '\n',
            Some('r') => '\r',
            Some('t') => '\t',
            Some('\\') => '\\',
            Some('"') => '"',
            _ => return bad("escape"),
        });
    }
    Ok(o)
}

fn string_token(s: &str) -> R<String> {
    let s = s.trim();
    if !s.starts_with('"') {
        return Ok(s.to_string());
    }
    match close_quote(s, 0) {
        None => bad("unterminated"),
        Some(e) if e + 1 != s.len() => bad("text after closing quote"),
        Some(e) => unescape(&s[1..e]),
    }
}

pub fn is_number_token(s: &str) -> bool {
    if !crate::model_enc::numeric_shape(s) {
        return false;
    }
    let b = s.strip_prefix('-').unwrap_or(s).as_bytes();
    if b[0] == b'0' && b.len() > 1 && b[1].is_ascii_digit() {
        return false;
    }
    s.parse::<f64>().is_ok_and(f64::is_finite)
}

pub fn token(s: &str) -> R<P> {
    let s = s.trim();
    if s.is_empty() {
        return Ok(P::String(String::new()));
    }
    if s.starts_with('"') {
        return Ok(P::String(string_token(s)?));
    }
    Ok(match s {
        "true" => P::Bool(true),
        "false" => P::Bool(false),
        "null" => P::Null,
        _ if is_number_token(s) => {
            let x: f64 = s.parse().unwrap();
            P::Number(if x == 0.0 { 0.0 } else { x })
        }
        _ => P::String(s.to_string()),
    })
}

/// Cells of a row: split at delimiters outside quotes, trimmed.
fn split(s: &str, d: char) -> Vec<String> {
    let mut v = vec![];
    let mut from = 0;
    while let Some(i) = outside(&s[from..], d, 0) {
        v.push(s[from..from + i].trim().to_string());
        from += i + 1;
    }
    if from < s.len() || !v.is_empty() {
        v.push(s[from..].trim().to_string());
    }
    v
}

struct Hd {
    key: Option<(String, bool)>,
    n: usize,
    delim: char,
    fields: Option<Vec<(String, bool)>>,
    inline: String,
}

fn header(s: &str) -> R<Option<Hd>> {
    let t = s.trim_start();
    let lead = s.len() - t.len();
    let open = if t.starts_with('"') {
        let Some(e) = close_quote(t, 0) else { return bad("unterminated") };
        if !t[e + 1..].starts_with('[') {
            return Ok(None);
        }
        lead + e + 1
    } else {
        let Some(i) = s.find('[') else { return Ok(None) };
        if s[..i].contains(':') {
            return Ok(None);
        }
        i
    };
    let Some(close) = s[open..].find(']').map(|i| i + open) else { return Ok(None) };
    let tail = &s[close + 1..];
    let mut colon_from = close + 1;
    let mut fields_at = None;
    if let (Some(b), Some(c)) = (tail.find('{'), tail.find(':'))
        && b < c
    {
        let b = b + close + 1;
        let e = outside(s, '}', b).or_else(|| s[b..].find('}').map(|i| i + b));
        if let Some(e) = e {
            colon_from = e + 1;
            fields_at = Some((b, e));
        }
    }
    let Some(colon) = s[colon_from..].find(':').map(|i| i + colon_from) else { return Ok(None) };
    let key = match s[..open].trim() {
        "" => None,
        k if k.starts_with('"') => Some((string_token(k)?, true)),
        k => Some((k.to_string(), false)),
    };
    let (digits, delim) = match &s[open + 1..close] {
        x if x.ends_with('\t') => (&x[..x.len() - 1], '\t'),
        x if x.ends_with('|') => (&x[..x.len() - 1], '|'),
        x => (x, ','),
    };
    let n = match digits.parse::<usize>() {
        Ok(n) => n,
        Err(_) if !digits.is_empty() && digits.bytes().all(|b| b.is_ascii_digit()) => usize::MAX,
        Err(_) => return Ok(None),
    };
    if n > MAX_LEN {
        return bad("declared length");
    }
    let fields = match fields_at {
        Some((b, e)) => {
            let mut f = vec![];
            for c in split(&s[b + 1..e], delim) {
                f.push((string_token(&c)?, c.starts_with('"')));
            }
            Some(f)
        }
        None => None,
    };
    Ok(Some(Hd { key, n, delim, fields, inline: s[colon + 1..].trim().to_string() }))
}

fn is_root_header(s: &str) -> bool {
    s.trim_start().starts_with('[') && outside(s, ':', 0).is_some()
}

impl D {
    fn peek(&self) -> Option<&Ln> {
        self.lines.get(self.at)
    }
    fn next(&mut self) -> Ln {
        let l = &self.lines[self.at];
        self.at += 1;
        Ln { depth: l.depth, text: l.text.clone(), no: l.no }
    }
    fn count(&self, got: usize, want: usize) -> R<()> {
        if self.strict && got != want { bad(format!("count {got} for {want}")) } else { Ok(()) }
    }
    fn no_blank(&self, from: usize, to: usize) -> R<()> {
        if self.strict && self.blanks.iter().any(|&b| b > from && b < to) { bad("blank line") } else { Ok(()) }
    }

    fn array(&mut self, h: Hd, base: usize) -> R<T> {
        if !h.inline.is_empty() {
            let cells = split(&h.inline, h.delim);
            let mut v = vec![];
            for c in &cells {
                v.push(T::Prim(token(c)?));
            }
            self.count(v.len(), h.n)?;
            return Ok(T::Arr(h.n, v));
        }
        if let Some(f) = &h.fields
            && !f.is_empty()
        {
            let mut rows = vec![];
            let (mut first, mut last) = (0, 0);
            while rows.len() < h.n && self.peek().is_some_and(|l| l.depth == base + 1) {
                let l = self.next();
                if rows.is_empty() {
                    first = l.no;
                }
                last = l.no;
                let cells = split(&l.text, h.delim);
                self.count(cells.len(), f.len())?;
                let mut vals = vec![];
                for c in &cells {
                    vals.push(token(c)?);
                }
                let mut row = vec![];
                for (i, (k, q)) in f.iter().enumerate() {
                    row.push((k.clone(), *q, T::Prim(vals.get(i).cloned().unwrap_or(P::Null))));
                }
                rows.push(T::Obj(row));
            }
            self.count(rows.len(), h.n)?;
            self.no_blank(first, last)?;
            if self.strict
                && let Some(l) = self.peek()
                && l.depth == base + 1
                && !l.text.starts_with("- ")
            {
                let row = match (outside(&l.text, ':', 0), outside(&l.text, h.delim, 0)) {
                    (None, _) => true,
                    (Some(c), Some(d)) => d < c,
                    (Some(_), None) => false,
                };
                if row {
                    return bad("more rows");
                }
            }
            return Ok(T::Arr(h.n, rows));
        }
        let mut items = vec![];
        let mut first = 0;
        let is_item = |l: &Ln| l.depth == base + 1 && (l.text == "-" || l.text.starts_with("- "));
        while items.len() < h.n && self.peek().is_some_and(is_item) {
            if items.is_empty() {
                first = self.peek().unwrap().no;
            }
            let x = self.item(base + 1)?;
            items.push(x);
        }
        self.count(items.len(), h.n)?;
        if !items.is_empty() {
            let last = self.lines[self.at - 1].no;
            self.no_blank(first, last)?;
        }
        if self.strict && self.peek().is_some_and(is_item) {
            return bad("more items");
        }
        Ok(T::Arr(h.n, items))
    }

    fn item(&mut self, depth: usize) -> R<T> {
        let l = self.next();
        let body = if l.text == "-" { "" } else { &l.text[2..] };
        if body.trim().is_empty() {
            return Ok(T::Obj(vec![]));
        }
        if is_root_header(body)
            && let Some(h) = header(body)?
        {
            return self.array(h, depth);
        }
        let keyed = header(body)?.is_some_and(|h| h.key.is_some() && h.fields.is_some());
        if keyed || outside(body, ':', 0).is_some() {
            let mut o = vec![];
            self.field(body, depth + 1, &mut o)?;
            while self.peek().is_some_and(|l| l.depth == depth + 1 && !l.text.starts_with("- ")) {
                let l = self.next();
                self.field(&l.text, depth + 1, &mut o)?;
            }
            return Ok(T::Obj(o));
        }
        Ok(T::Prim(token(body)?))
    }

    fn field(&mut self, s: &str, depth: usize, o: &mut Vec<(String, bool, T)>) -> R<()> {
        if let Some(mut h) = header(s)?
            && let Some((k, q)) = h.key.take()
        {
            let a = self.array(h, depth)?;
            o.push((k, q, a));
            return Ok(());
        }
        let (k, q, rest) = if s.starts_with('"') {
            let Some(e) = close_quote(s, 0) else { return bad("unterminated key") };
            let k = unescape(&s[1..e])?;
            let Some(r) = s[e + 1..].strip_prefix(':') else { return bad("no colon") };
            (k, true, r)
        } else {
            let Some((k, r)) = s.split_once(':') else { return bad("no colon") };
            (k.trim().to_string(), false, r)
        };
        let rest = rest.trim();
        if !rest.is_empty() {
            o.push((k, q, T::Prim(token(rest)?)));
            return Ok(());
        }
        let mut inner = vec![];
        if let Some(d) = self.peek().map(|l| l.depth)
            && d > depth
        {
            while self.peek().is_some_and(|l| l.depth == d) {
                let l = self.next();
                self.field(&l.text, d, &mut inner)?;
            }
        }
        o.push((k, q, T::Obj(inner)));
        Ok(())
    }
}

fn scan<S: AsRef<str>>(lines: &[S], indent: usize, strict: bool) -> R<D> {
    let mut d = D { lines: vec![], at: 0, blanks: vec![], strict };
    for (i, raw) in lines.iter().enumerate() {
        let raw = raw.as_ref();
        if raw.trim().is_empty() {
            d.blanks.push(i + 1);
            continue;
        }
        let body = raw.trim_start_matches(' ');
        let spaces = raw.len() - body.len();
        if strict {
            if body.starts_with('\t') {
                return bad(format!("line {}: tab", i + 1));
            }
            if (indent == 0 && spaces > 0) || (indent > 0 && !spaces.is_multiple_of(indent)) {
                return bad(format!("line {}: indent", i + 1));
            }
        }
        d.lines.push(Ln { depth: spaces.checked_div(indent).unwrap_or(0), text: body.to_string(), no: i + 1 });
    }
    Ok(d)
}

pub fn decode_lines<S: AsRef<str>>(lines: &[S], indent: usize, strict: bool) -> R<T> {
    let mut d = scan(lines, indent, strict)?;
    let Some(first) = d.peek() else { return Ok(T::Obj(vec![])) };
    let text = first.text.clone();
    if is_root_header(&text)
        && let Some(h) = header(&text)?
    {
        d.at = 1;
        return d.array(h, 0);
    }
    if d.lines.len() == 1 {
        let kv = if text.starts_with('"') {
            close_quote(&text, 0).is_some_and(|e| text[e + 1..].contains(':'))
        } else {
            text.contains(':')
        };
        if !kv {
            return Ok(T::Prim(token(&text)?));
        }
    }
    let mut o = vec![];
    d.at = 1;
    d.field(&text, 0, &mut o)?;
    while d.peek().is_some_and(|l| l.depth == 0) {
        let l = d.next();
        d.field(&l.text, 0, &mut o)?;
    }
    Ok(T::Obj(o))
}

pub fn decode(text: &str, indent: usize, strict: bool) -> R<T> {
    let lines: Vec<&str> = text.split('\n').collect();
    decode_lines(&lines, indent, strict)
}

pub fn to_value(t: &T) -> V {
    match t {
        T::Prim(p) => V::Primitive(p.clone()),
        T::Arr(_, a) => V::Array(a.iter().map(to_value).collect()),
        T::Obj(o) => V::Object(o.iter().map(|(k, _, x)| (k.clone(), to_value(x))).collect()),
    }
}

pub fn to_events(t: &T, out: &mut Vec<Ev>) {
    match t {
        T::Prim(p) => out.push(Ev::Primitive { value: p.clone() }),
        T::Arr(n, a) => {
            out.push(Ev::StartArray { length: *n });
            for x in a {
                to_events(x, out);
            }
            out.push(Ev::EndArray);
        }
        T::Obj(o) => {
            out.push(Ev::StartObject);
            for (k, q, x) in o {
                out.push(Ev::Key { key: k.clone(), was_quoted: *q });
                to_events(x, out);
            }
            out.push(Ev::EndObject);
        }
    }
}

pub fn has_duplicate_keys(t: &T) -> bool {
    match t {
        T::Prim(_) => false,
        T::Arr(_, a) => a.iter().any(has_duplicate_keys),
        T::Obj(o) => {
            (1..o.len()).any(|i| o[..i].iter().any(|(k, _, _)| *k == o[i].0)) || o.iter().any(|(_, _, x)| has_duplicate_keys(x))
        }
    }
}

/// Path expansion, as a fold of assignments into a tree.
///
/// Every field is an assignment of its (expanded) value to a path; unquoted
/// dotted keys of identifiers are paths of several segments, all others of
/// one. Objects merge; any other collision is an error in strict mode and is
/// won by the later assignment otherwise.
pub fn expand(t: &T, strict: bool) -> R<V> {
    match t {
        T::Prim(p) => Ok(V::Primitive(p.clone())),
        T::Arr(_, a) => Ok(V::Array(a.iter().map(|x| expand(x, strict)).collect::<R<_>>()?)),
        T::Obj(o) => {
            let mut out: Vec<(String, V)> = vec![];
            for (k, q, x) in o {
                let v = expand(x, strict)?;
                // a key counts as quoted when any sibling of that name is
                let quoted = *q || o.iter().any(|(l, r, _)| l == k && *r);
                if !quoted && is_expandable(k) {
                    let mut nested = v;
                    let segs: Vec<&str> = k.split('.').collect();
                    for s in segs[1..].iter().rev() {
                        nested = V::Object(vec![((*s).to_string(), nested)]);
                    }
                    assign(&mut out, segs[0], nested, strict)?;
                } else {
                    assign(&mut out, k, v, strict)?;
                }
            }
            Ok(V::Object(out))
        }
    }
}

fn assign(o: &mut Vec<(String, V)>, k: &str, v: V, strict: bool) -> R<()> {
    let Some(slot) = o.iter_mut().find(|(l, _)| l == k) else {
        o.push((k.to_string(), v));
        return Ok(());
    };
    match (&mut slot.1, v) {
        (V::Object(dst), V::Object(src)) => {
            for (l, x) in src {
                assign(dst, &l, x, strict)?;
            }
            Ok(())
        }
        _ if strict => bad(format!("conflict at {k}")),
        (dst, v) => {
            *dst = v;
            Ok(())
        }
    }
}
