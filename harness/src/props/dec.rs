//! C05-C09, C21: the decoder.
use crate::docgen::{self, DLine, Doc, Kind};
use crate::engine::{CheckResult, Ctx, Prop, Tape, no_enum, no_enum_count};
use crate::gens::{self, Keys, Vg};
use crate::model_dec::{self as md, T};
use crate::util::*;
use toon::options::DecodeStreamOptions;
use toon::{JsonStreamEvent as Ev, StringOrNumberOrBoolOrNull as P, try_decode, try_decode_from_lines, try_decode_stream_sync};

pub fn stream(text: &str, indent: usize, strict: bool) -> Result<Vec<Ev>, String> {
    try_decode_stream_sync(text.split('\n').map(str::to_string), Some(DecodeStreamOptions { indent: Some(indent), strict: Some(strict) }))
        .map_err(|e| e.to_string())
}
fn dec(text: &str, indent: usize, strict: bool) -> Result<V, String> {
    try_decode(text, Some(gens::dec(indent, strict, false))).map_err(|e| e.to_string())
}

// ---------------------------------------------------------------- C05

fn compare_value(got: &V, want: &V, how: &str, text: &str) -> CheckResult {
    if same(got, want) {
        Ok(())
    } else {
        Err(format!("{how}: decodes as\n{}\nexpected\n{}\ntext:\n{text}", clip(&show(got), 3000), clip(&show(want), 3000)))
    }
}

fn against_model(text: &str, indent: usize, c: &mut Ctx) -> CheckResult {
    for strict in [true, false] {
        let m = md::decode(text, indent, strict);
        let d = dec(text, indent, strict);
        let how = format!("strict={strict} indent={indent}");
        match (&d, &m) {
            (Err(_), Err(_)) => c.label("both reject"),
            (Ok(v), Err(b)) => return Err(format!("{how}: accepted as {} but the grammar rejects it ({})\ntext:\n{text}", clip(&show(v), 2000), b.0)),
            (Err(e), Ok(t)) => return Err(format!("{how}: rejected ({e}) but the grammar gives {}\ntext:\n{text}", clip(&show(&md::to_value(t)), 2000))),
            (Ok(v), Ok(t)) => {
                c.label("both accept");
                if md::has_duplicate_keys(t) {
                    c.label("duplicate keys");
                    continue;
                }
                compare_value(v, &md::to_value(t), &how, text)?;
            }
        }
        let ev = stream(text, indent, strict);
        match (&ev, &m) {
            (Err(_), Err(_)) => {}
            (Ok(e), Ok(t)) => {
                let mut want = vec![];
                md::to_events(t, &mut want);
                if !same_events(e, &want) {
                    return Err(format!("{how}: events {e:?}\nexpected {want:?}\ntext:\n{text}"));
                }
            }
            (a, b) => return Err(format!("{how}: event decoding {a:?}, grammar {b:?}\ntext:\n{text}")),
        }
    }
    Ok(())
}

fn c05(t: &mut Tape, c: &mut Ctx) -> CheckResult {
    let indent = gens::indent(t);
    if t.coin() {
        let d = docgen::document(t, indent);
        c.label("document known by construction");
        c.cond("with tables", d.arrs.iter().any(|a| a.kind == Kind::Table));
        c.cond("with lists", d.arrs.iter().any(|a| a.kind == Kind::List && a.n > 0));
        c.cond("with blank lines", d.lines.iter().any(|l| l.blank.is_some()));
        if d.lines.len() > 1 || !d.arrs.is_empty() {
            c.nontrivial(&(&d.text, indent));
        }
        c.describe(|| format!("indent={indent}\n{}\nmeans {}", d.text, show(&d.value())));
        let want = d.value();
        let mut want_ev = vec![];
        md::to_events(&d.tree, &mut want_ev);
        for strict in [true, false] {
            let how = format!("strict={strict} indent={indent}");
            match dec(&d.text, indent, strict) {
                Ok(v) => compare_value(&v, &want, &how, &d.text)?,
                Err(e) => return Err(format!("{how}: rejected: {e}\nexpected {}\ntext:\n{}", clip(&show(&want), 3000), d.text)),
            }
            match stream(&d.text, indent, strict) {
                Ok(e) if same_events(&e, &want_ev) => {}
                Ok(e) => return Err(format!("{how}: events {e:?}\nexpected {want_ev:?}\ntext:\n{}", d.text)),
                Err(e) => return Err(format!("{how}: event decoding rejects: {e}\ntext:\n{}", d.text)),
            }
            match try_decode_from_lines(d.text.split('\n').map(str::to_string), Some(gens::dec(indent, strict, false))) {
                Ok(v) => compare_value(&v, &want, &how, &d.text)?,
                Err(e) => return Err(format!("{how}: decoding the lines rejects: {e}\ntext:\n{}", d.text)),
            }
        }
        Ok(())
    } else {
        let indent = if t.chance(1, 16) { 0 } else { indent };
        let text = docgen::wild(t, indent);
        c.label("wild text");
        c.cond("indent of zero", indent == 0);
        c.nontrivial(&(&text, indent));
        c.describe(|| format!("indent={indent}\n{text}"));
        against_model(&text, indent, c)
    }
}

/// Short texts over an alphabet of structural pieces.
const PIECES: [&str; 16] = ["a", ":", " ", "\n", "- ", "[1]", "[2]", "[0]", "{a}", "\"", "1", "\\", "\n  ", ",", "\"b\"", "[1]:"];
fn c05_count(thorough: bool) -> u64 {
    let n = PIECES.len() as u64;
    if thorough { n.pow(5) + n.pow(4) } else { n.pow(4) }
}
fn c05_enum(i: u64, c: &mut Ctx) -> CheckResult {
    let n = PIECES.len() as u64;
    let (mut j, k) = if i < n.pow(4) { (i, 4) } else { (i - n.pow(4), 5) };
    let mut s = String::new();
    for _ in 0..k {
        s += PIECES[(j % n) as usize];
        j /= n;
    }
    c.label("enumerated text");
    c.nontrivial(&s);
    c.describe(|| s.clone());
    against_model(&s, 2, c)
}

// ---------------------------------------------------------------- C06

pub struct Damage {
    pub what: String,
    pub text: String,
    /// A malformed token: to be rejected in lenient mode too.
    pub token: bool,
    /// Lines (1-based) a diagnostic may name, when it must name one.
    pub line: Option<usize>,
    /// Declared and actual count.
    pub counts: Option<(usize, usize)>,
    /// Declared count, where there are more.
    pub declared: Option<usize>,
    /// What lenient decoding gives, when that is documented.
    pub lenient: Option<V>,
}

fn set_len(l: &mut DLine, n: u128) {
    let (a, b, id) = l.digits.unwrap();
    let s = n.to_string();
    l.pre.replace_range(a..b, &s);
    l.digits = Some((a, a + s.len(), id));
}

fn rendered(lines: &[DLine], d: &Doc) -> String {
    let mut x = d.clone();
    x.lines = lines.to_vec();
    x.render()
}

/// Replace array number `id` (in order of headers) of the tree.
fn edit_array(tree: &T, id: usize, f: &dyn Fn(&mut usize, &mut Vec<T>)) -> T {
    fn go(t: &T, next: &mut usize, id: usize, f: &dyn Fn(&mut usize, &mut Vec<T>)) -> T {
        match t {
            T::Prim(_) => t.clone(),
            T::Obj(o) => T::Obj(o.iter().map(|(k, q, x)| (k.clone(), *q, go(x, next, id, f))).collect()),
            T::Arr(n, a) => {
                let me = *next;
                *next += 1;
                let mut items: Vec<T> = a.iter().map(|x| go(x, next, id, f)).collect();
                let mut n = *n;
                if me == id {
                    f(&mut n, &mut items);
                }
                T::Arr(n, items)
            }
        }
    }
    let mut next = 0;
    go(tree, &mut next, id, f)
}

/// Damage a correct document in one known way, if that way applies.
pub fn damage(t: &mut Tape, d: &Doc, kind: usize) -> Option<Damage> {
    let mut lines = d.lines.clone();
    let content: Vec<usize> = (0..lines.len()).filter(|&i| lines[i].blank.is_none()).collect();
    if content.is_empty() {
        return None;
    }
    let base = |what: String, text: String| Damage { what, text, token: false, line: None, counts: None, declared: None, lenient: None };
    let pick_arr = |t: &mut Tape, f: &dyn Fn(&docgen::Arr) -> bool| -> Option<usize> {
        let v: Vec<usize> = (0..d.arrs.len()).filter(|&i| f(&d.arrs[i])).collect();
        if v.is_empty() { None } else { Some(*t.pick(&v)) }
    };
    match kind {
        // another declared count
        0 => {
            let id = pick_arr(t, &|_| true)?;
            let a = &d.arrs[id];
            let opts = [
                a.n + 1, a.n.saturating_sub(1), a.n + 2, 0, 1, a.n * 10, a.n + 1000, 99_999_999, a.n / 2, a.n + 256, a.n + 65_536,
                a.n + (1 << 24), a.n + (1 << 32),
            ];
            let n = *t.pick(&opts);
            if n == a.n {
                return None;
            }
            // lengths that do not fit an integer, too
            let declared = if n > a.n && t.chance(1, 12) { a.n as u128 + *t.pick(&[1 << 64, 1 << 63, 1 << 100, 1 << 65]) } else { n as u128 };
            set_len(&mut lines[a.header], declared);
            let mut x = base(format!("declared length {} changed to {declared}", a.n), rendered(&lines, d));
            if declared > 100_000_000 {
                return Some(x);
            }
            if n > a.n {
                x.counts = Some((n, a.n));
            } else if a.kind == Kind::Inline {
                x.counts = Some((n, a.n));
            } else if n > 0 {
                x.declared = Some(n);
            }
            if n > a.n || a.kind == Kind::Inline {
                x.lenient = Some(d.value());
            }
            Some(x)
        }
        // a row or item removed or doubled
        1 | 2 => {
            let id = pick_arr(t, &|a| !a.parts.is_empty())?;
            let a = &d.arrs[id];
            let k = t.below(a.parts.len());
            let (lo, hi) = a.parts[k];
            if kind == 1 {
                // sometimes more than one, but not all
                let more = if a.parts.len() > k + 2 && t.chance(1, 3) { t.range(1, (a.parts.len() - k - 2).min(20)) } else { 0 };
                let hi = if more > 0 { a.parts[k + more].1 } else { hi };
                lines.drain(lo..hi);
                let mut x = base(format!("row or item {k} and {more} more removed"), rendered(&lines, d));
                x.counts = Some((a.n, a.n - 1 - more));
                x.lenient = Some(md::to_value(&edit_array(&d.tree, id, &|_, v| {
                    v.drain(k..=k + more);
                })));
                Some(x)
            } else {
                let part = lines[lo..hi].to_vec();
                let to = a.parts[t.below(a.parts.len())].1;
                lines.splice(to..to, part);
                let mut x = base(format!("row or item {k} doubled"), rendered(&lines, d));
                x.declared = Some(a.n);
                Some(x)
            }
        }
        // a bare item appended
        3 => {
            let id = pick_arr(t, &|a| a.kind == Kind::List && !a.parts.is_empty())?;
            let a = &d.arrs[id];
            let (lo, _) = a.parts[0];
            let hi = a.parts.last()?.1;
            let depth = lines[lo].depth;
            let body = *t.pick(&["-", "- 1", "- a: 1", "- [1]: x", "- \"q\"", "- "]);
            lines.insert(hi, DLine { depth, pre: body.into(), ..DLine::default() });
            let mut x = base(format!("an item {body:?} appended"), rendered(&lines, d));
            x.declared = Some(a.n);
            Some(x)
        }
        // a cell removed or added
        4 | 5 => {
            let v: Vec<usize> = content.iter().copied().filter(|&i| lines[i].cells.is_some()).collect();
            if v.is_empty() {
                return None;
            }
            let i = *t.pick(&v);
            let inline = lines[i].digits.map(|x| x.2);
            let (cells, _) = lines[i].cells.as_mut()?;
            let n = cells.len();
            if kind == 4 {
                if n < 2 {
                    return None;
                }
                let k = if t.coin() { n - 1 } else { t.below(n) };
                cells.remove(k);
                // padding must not become indentation or hide a cell
                let m = cells.len();
                cells[0] = cells[0].trim_start().to_string();
                cells[m - 1] = cells[m - 1].trim_end().to_string();
                if cells[0].is_empty() || cells[m - 1].is_empty() {
                    return None;
                }
                let mut x = base(format!("cell {k} of line {} removed", i + 1), rendered(&lines, d));
                x.counts = Some((n, n - 1));
                if inline.is_none() && k == n - 1 {
                    x.lenient = lenient_row(d, i, &|o| {
                        let j = o.len() - 1;
                        o[j].2 = T::Prim(toon::StringOrNumberOrBoolOrNull::Null);
                    });
                }
                Some(x)
            } else {
                let extra = (*t.pick(&["1", "x", "\"a b\"", "null", "true"])).to_string();
                let end = t.coin();
                let mut more = 0;
                if end {
                    if t.chance(1, 3) {
                        more = t.range(1, 12);
                    }
                    for _ in 0..=more {
                        cells.push(extra.clone());
                    }
                } else {
                    let k = t.below(n + 1);
                    cells.insert(k, extra);
                    if k == 0 {
                        cells[1] = cells[1].trim_start().to_string();
                    }
                    if cells.last()?.is_empty() {
                        return None;
                    }
                }
                if cells[n].is_empty() || cells[n - 1].is_empty() {
                    return None;
                }
                let mut x = base(format!("a cell added to line {}", i + 1), rendered(&lines, d));
                x.counts = Some((n, n + 1 + more));
                if inline.is_none() && end {
                    x.lenient = Some(d.value());
                }
                Some(x)
            }
        }
        // a blank line inside an array
        6 => {
            let v: Vec<usize> = (0..lines.len()).filter(|&i| d.inside_array(i)).collect();
            if v.is_empty() {
                return None;
            }
            let i = *t.pick(&v);
            let n = if t.chance(1, 4) { t.range(2, 4) } else { 1 };
            for _ in 0..n {
                let b = (*t.pick(&["", " ", "    ", "\t", "  \t "])).to_string();
                lines.insert(i, DLine { blank: Some(b), ..DLine::default() });
            }
            let more = if n > 1 { format!(" and {} more", n - 1) } else { String::new() };
            let mut x = base(format!("a blank line inserted as line {}{more}", i + 1), rendered(&lines, d));
            x.line = Some(i + 1);
            x.lenient = Some(d.value());
            Some(x)
        }
        // a tab in the indentation
        7 => {
            let i = *t.pick(&content);
            let mut text: Vec<String> = lines.iter().map(|l| docgen::render_line(l, d.indent)).collect();
            let sp = lines[i].depth * d.indent;
            let at = t.below(sp + 1);
            if at < sp && t.coin() {
                text[i].replace_range(at..=at, "\t");
            } else {
                text[i].insert(at, '\t');
            }
            if t.chance(1, 4) {
                // the first of two is named
                let j = *t.pick(&content);
                if j > i {
                    text[j].insert(0, '\t');
                }
            }
            let mut x = base(format!("a tab in the indentation of line {}", i + 1), text.join("\n"));
            x.line = Some(i + 1);
            Some(x)
        }
        // indentation off by less than a level
        8 => {
            if d.indent < 2 {
                return None;
            }
            let i = *t.pick(&content);
            let mut text: Vec<String> = lines.iter().map(|l| docgen::render_line(l, d.indent)).collect();
            let k = t.range(1, d.indent - 1);
            let more = lines[i].depth == 0 || t.coin();
            if more {
                text[i].insert_str(0, &" ".repeat(k));
            } else {
                text[i] = text[i][k..].to_string();
            }
            let mut x = base(format!("line {} indented by {k} {}", i + 1, if more { "more" } else { "less" }), text.join("\n"));
            x.line = Some(i + 1);
            if more {
                x.lenient = Some(d.value());
            }
            Some(x)
        }
        // a row or item at another level
        9 => {
            let id = pick_arr(t, &|a| !a.parts.is_empty())?;
            let a = &d.arrs[id];
            let k = t.below(a.parts.len());
            let (lo, hi) = a.parts[k];
            let deeper = t.coin();
            for l in &mut lines[lo..hi] {
                if deeper {
                    l.depth += 1;
                } else {
                    l.depth -= 1;
                }
            }
            Some(base(format!("row or item {k} moved a level {}", if deeper { "in" } else { "out" }), rendered(&lines, d)))
        }
        // tokens
        10 => {
            const BAD: [(&str, &str); 9] = [
                ("unterminated string", "\"abc"),
                ("unterminated string", "\""),
                ("unterminated string", "\"ab\\\""),
                ("invalid escape", "\"a\\xb\""),
                ("invalid escape", "\"\\u0041\""),
                ("invalid escape", "\"a\\'\""),
                ("text after the closing quote", "\"a\"b"),
                ("text after the closing quote", "\"a\" b"),
                ("text after the closing quote", "\"a\"\"b\""),
            ];
            let (what, bad) = *t.pick(&BAD);
            let v: Vec<usize> = content.iter().copied().filter(|&i| lines[i].tok.is_some() || lines[i].cells.is_some()).collect();
            if v.is_empty() {
                return None;
            }
            let i = *t.pick(&v);
            if let Some(at) = lines[i].tok {
                lines[i].pre.truncate(at);
                lines[i].pre.push_str(bad);
            } else {
                let (cells, _) = lines[i].cells.as_mut()?;
                let k = t.below(cells.len());
                if what == "unterminated string" && cells[k + 1..].iter().any(|x| x.contains('"')) {
                    return None;
                }
                cells[k] = bad.into();
            }
            let mut x = base(format!("{what} {bad:?} on line {}", i + 1), rendered(&lines, d));
            x.token = true;
            Some(x)
        }
        11 => {
            let v: Vec<usize> = content.iter().copied().filter(|&i| lines[i].key.is_some()).collect();
            if v.is_empty() {
                return None;
            }
            let i = *t.pick(&v);
            let field = lines[i].digits.is_none();
            let (a, b) = lines[i].key?;
            let kinds: &[(&str, &str)] = if field {
                &[("unterminated key", "\"kk"), ("invalid escape in a key", "\"k\\q\""), ("text after a quoted key", "\"k\"x"), ("text after a quoted key", "\"k\" ")]
            } else {
                &[("invalid escape in a key", "\"k\\q\"")]
            };
            let (what, bad) = *t.pick(kinds);
            lines[i].pre.replace_range(a..b, bad);
            if what == "unterminated key" && lines[i].pre[a + bad.len()..].contains('"') {
                return None;
            }
            let mut x = base(format!("{what} on line {}", i + 1), rendered(&lines, d));
            x.token = true;
            Some(x)
        }
        // a whole row added, a cell of which holds a colon
        13 => {
            let id = pick_arr(t, &|a| a.kind == Kind::Table && !a.parts.is_empty())?;
            let a = &d.arrs[id];
            let to = a.parts[t.below(a.parts.len())].1;
            let (lo, _) = a.parts[0];
            let delim = lines[lo].cells.as_ref()?.1;
            let colon = *t.pick(&["b:c", "\"b:c\"", ":", "12:30:00", "http://x", "k: v"]);
            let at = t.below(a.width);
            if at == 0 && !colon.starts_with('"') {
                // that line is a field
                return None;
            }
            let cells: Vec<String> = (0..a.width).map(|i| if i == at { colon.to_string() } else { (*t.pick(&["1", "x", "null", "\"y\""])).to_string() }).collect();
            let depth = lines[lo].depth;
            lines.insert(to, DLine { depth, cells: Some((cells, delim)), ..DLine::default() });
            Some(base("a row with a colon added".into(), rendered(&lines, d)))
        }
        // several cells of a row removed
        14 => {
            let v: Vec<usize> = content.iter().copied().filter(|&i| lines[i].digits.is_none() && lines[i].cells.as_ref().is_some_and(|x| x.0.len() > 2)).collect();
            if v.is_empty() {
                return None;
            }
            let i = *t.pick(&v);
            let (cells, _) = lines[i].cells.as_mut()?;
            let n = cells.len();
            let keep = t.range(1, n - 2);
            cells.truncate(keep);
            cells[keep - 1] = cells[keep - 1].trim_end().to_string();
            if cells[keep - 1].is_empty() || cells[0].trim_start().is_empty() {
                return None;
            }
            let mut x = base(format!("all but {keep} cells of line {} removed", i + 1), rendered(&lines, d));
            x.counts = Some((n, keep));
            x.lenient = lenient_row(d, i, &|o| {
                for f in &mut o[keep..] {
                    f.2 = T::Prim(toon::StringOrNumberOrBoolOrNull::Null);
                }
            });
            Some(x)
        }
        // no colon
        _ => {
            let v: Vec<usize> = content
                .iter()
                .copied()
                .filter(|&i| lines[i].key.is_some() && lines[i].digits.is_none() && !lines[i].pre.starts_with("- "))
                .collect();
            if v.is_empty() || content.len() < 2 {
                return None;
            }
            let i = *t.pick(&v);
            let (a, _) = lines[i].key?;
            if i + 1 < lines.len() && lines[i].tok.is_none() {
                // an object's own line: its fields would be left over-indented
                return None;
            }
            lines[i].pre.truncate(a);
            lines[i].pre.push_str(*t.pick(&["word", "two words", "\"quoted\"", "1", "a-b", "x{y}"]));
            let mut x = base(format!("no colon on line {}", i + 1), rendered(&lines, d));
            x.token = true;
            Some(x)
        }
    }
}

fn lenient_row(d: &Doc, line: usize, f: &dyn Fn(&mut Vec<(String, bool, T)>)) -> Option<V> {
    let id = d.arrs.iter().position(|a| a.kind == Kind::Table && a.parts.iter().any(|p| p.0 == line))?;
    let k = d.arrs[id].parts.iter().position(|p| p.0 == line)?;
    Some(md::to_value(&edit_array(&d.tree, id, &|_, v| {
        if let T::Obj(o) = &mut v[k] {
            f(o);
        }
    })))
}

pub const KINDS: [&str; 15] = [
    "count changed", "row or item removed", "row or item doubled", "item appended", "cell removed", "cell added",
    "blank line inside", "tab in indentation", "indentation off", "wrong level", "malformed value", "malformed key", "no colon",
    "row with a colon added", "cells removed",
];

fn good_doc(t: &mut Tape, c: &mut Ctx) -> Option<Doc> {
    let indent = gens::indent(t);
    let d = if t.chance(1, 3) {
        // an array at the centre
        let mut g = Vg::new(Keys::Any, 4);
        let mut v = g.root(t);
        if !any(&v, &|x| matches!(x, V::Array(a) if a.len() > 1)) {
            v = V::Array(vec![v.clone(), v]);
        }
        let free = *t.pick(&[0, 3]);
        docgen::from_value(t, indent, free, &v, true)
    } else {
        docgen::document(t, indent)
    };
    match dec(&d.text, indent, true) {
        Ok(v) if same(&v, &d.value()) => Some(d),
        _ => {
            // not this property's business
            c.discarded = true;
            c.label("base document not read as meant");
            None
        }
    }
}

/// A text with several faults: a damaged document, or a wild text, edited.
fn faulty(t: &mut Tape, c: &mut Ctx) -> (String, usize) {
    if t.chance(1, 3) {
        let indent = gens::indent_or_none(t);
        return (docgen::wild(t, indent), indent);
    }
    let kind = t.below(KINDS.len());
    let Some(d) = good_doc(t, c) else { return (String::new(), 2) };
    let Some(x) = damage(t, &d, kind) else { return (String::new(), 2) };
    let n = t.below(3);
    (docgen::mutate(t, &x.text, d.indent, n), d.indent)
}

/// Any text that the format rules reject must be rejected, in every way of decoding.
fn c06_rejects(t: &mut Tape, c: &mut Ctx) -> CheckResult {
    let (text, indent) = faulty(t, c);
    c.describe(|| format!("indent={indent}\n{text}"));
    for strict in [true, false] {
        let Err(b) = md::decode(&text, indent, strict) else { continue };
        c.label(if strict { "strict grammar rejects" } else { "lenient grammar rejects" });
        c.nontrivial(&(&text, indent));
        for expand in [false, true] {
            if let Ok(v) = try_decode(&text, Some(gens::dec(indent, strict, expand))) {
                return Err(format!("strict={strict} expand={expand}: accepted as {} in spite of: {}\ntext:\n{text}", clip(&show(&v), 2000), b.0));
            }
            if let Ok(v) = try_decode_from_lines(text.split('\n').map(str::to_string), Some(gens::dec(indent, strict, expand))) {
                return Err(format!("strict={strict} expand={expand}: lines accepted as {} in spite of: {}\ntext:\n{text}", clip(&show(&v), 2000), b.0));
            }
        }
        if let Ok(e) = stream(&text, indent, strict) {
            return Err(format!("strict={strict}: accepted as events {} in spite of: {}\ntext:\n{text}", clip(&format!("{e:?}"), 2000), b.0));
        }
    }
    Ok(())
}

fn c06(t: &mut Tape, c: &mut Ctx) -> CheckResult {
    if t.chance(2, 5) {
        return c06_rejects(t, c);
    }
    let kind = t.below(KINDS.len());
    let Some(d) = good_doc(t, c) else { return Ok(()) };
    let Some(x) = damage(t, &d, kind) else {
        c.discarded = true;
        c.label("does not apply");
        return Ok(());
    };
    c.label(KINDS[kind]);
    c.nontrivial(&(&x.text, d.indent));
    c.describe(|| format!("indent={} {}\n{}", d.indent, x.what, x.text));
    if let Ok(v) = dec(&x.text, d.indent, true) {
        return Err(format!("strict decoding accepts {}: {}\ntext:\n{}", x.what, clip(&show(&v), 2000), x.text));
    }
    if stream(&x.text, d.indent, true).is_ok() {
        return Err(format!("strict event decoding accepts {}\ntext:\n{}", x.what, x.text));
    }
    if let Ok(v) = try_decode_from_lines(x.text.split('\n').map(str::to_string), Some(gens::dec(d.indent, true, true))) {
        return Err(format!("strict decoding with expansion accepts {}: {}\ntext:\n{}", x.what, clip(&show(&v), 2000), x.text));
    }
    if d.indent == 2 && try_decode(&x.text, None).is_ok() {
        return Err(format!("decoding with default options accepts {}\ntext:\n{}", x.what, x.text));
    }
    if x.token {
        if let Ok(v) = dec(&x.text, d.indent, false) {
            return Err(format!("lenient decoding accepts {}: {}\ntext:\n{}", x.what, clip(&show(&v), 2000), x.text));
        }
        if stream(&x.text, d.indent, false).is_ok() {
            return Err(format!("lenient event decoding accepts {}\ntext:\n{}", x.what, x.text));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C07

/// Documents with several faults, against the reference decoder.
fn c07_reads(t: &mut Tape, c: &mut Ctx) -> CheckResult {
    let (text, indent) = faulty(t, c);
    c.describe(|| format!("indent={indent}\n{text}"));
    let Ok(tree) = md::decode(&text, indent, false) else {
        c.label("lenient grammar rejects");
        return Ok(());
    };
    c.label("lenient grammar reads");
    c.nontrivial(&(&text, indent));
    let want = md::to_value(&tree);
    match dec(&text, indent, false) {
        Ok(v) if !md::has_duplicate_keys(&tree) => compare_value(&v, &want, "lenient", &text)?,
        Ok(_) => {}
        Err(e) => return Err(format!("lenient decoding rejects ({e}), expected {}\ntext:\n{text}", clip(&show(&want), 2000))),
    }
    let mut ev = vec![];
    md::to_events(&tree, &mut ev);
    match stream(&text, indent, false) {
        Ok(e) if same_events(&e, &ev) => Ok(()),
        r => Err(format!("lenient event decoding gives {}\nexpected {ev:?}\ntext:\n{text}", clip(&format!("{r:?}"), 3000))),
    }
}

fn c07(t: &mut Tape, c: &mut Ctx) -> CheckResult {
    match t.below(5) {
        0 | 1 => {}
        2 | 3 => return c07_reads(t, c),
        _ => return c07_extends(t, c),
    }
    {
        let kind = *t.pick(&[0, 1, 4, 5, 6, 8, 14]);
        let Some(d) = good_doc(t, c) else { return Ok(()) };
        let Some(x) = damage(t, &d, kind) else {
            c.discarded = true;
            c.label("does not apply");
            return Ok(());
        };
        let Some(want) = x.lenient else {
            c.discarded = true;
            c.label("recovery not documented");
            return Ok(());
        };
        c.label("documented recovery");
        c.label(KINDS[kind]);
        c.nontrivial(&(&x.text, d.indent));
        c.describe(|| format!("indent={} {}\n{}\nmeans {}", d.indent, x.what, x.text, show(&want)));
        match dec(&x.text, d.indent, false) {
            Ok(v) => compare_value(&v, &want, &format!("lenient, {}", x.what), &x.text),
            Err(e) => Err(format!("lenient decoding rejects {}: {e}\ntext:\n{}", x.what, x.text)),
        }
    }
}

fn c07_extends(t: &mut Tape, c: &mut Ctx) -> CheckResult {
    let indent = gens::indent_or_none(t);
    let text = if t.chance(2, 3) { docgen::wild(t, indent) } else { docgen::document(t, indent).text };
    c.describe(|| format!("indent={indent}\n{text}"));
    for expand in [false, true] {
        let s = try_decode(&text, Some(gens::dec(indent, true, expand)));
        let Ok(v) = s else {
            c.label("strict rejects");
            continue;
        };
        c.label("strict accepts");
        c.nontrivial(&(&text, indent));
        match try_decode(&text, Some(gens::dec(indent, false, expand))) {
            Ok(w) if same(&v, &w) => {}
            Ok(w) => return Err(format!("strict gives {}\nlenient gives {}\nexpand={expand} text:\n{text}", clip(&show(&v), 2000), clip(&show(&w), 2000))),
            Err(e) => return Err(format!("strict gives {}\nlenient rejects: {e}\nexpand={expand} text:\n{text}", clip(&show(&v), 2000))),
        }
    }
    if let Ok(e) = stream(&text, indent, true) {
        match stream(&text, indent, false) {
            Ok(f) if same_events(&e, &f) => {}
            f => return Err(format!("strict events {e:?}\nlenient {f:?}\ntext:\n{text}")),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C08

fn nested_text(t: &mut Tape) -> (String, usize) {
    let n = *t.pick(&[10, 50, 120, 200, 255, 256, 257, 300, 500, 700, 1000]);
    let kind = t.below(6);
    let mut s = String::new();
    for i in 0..n {
        match kind {
            0 => s += &format!("{}a:\n", " ".repeat(i)),
            1 => s += &format!("{}{}[1]:\n", " ".repeat(i), if i == 0 { "" } else { "- " }),
            2 if i == 0 => s += "a[1]:\n",
            2 => s += &format!("{}- a[1]:\n", " ".repeat(2 * i - 1)),
            3 => s += "a.",
            4 => s += "[",
            _ => s += "- ",
        }
    }
    match kind {
        3 => s += "a: 1",
        4 => s += &"]".repeat(n),
        _ => {}
    }
    (s, 1)
}

/// Deep objects with the same names, several times over, so that expansion merges them.
fn merged_text(t: &mut Tape) -> String {
    let n = *t.pick(&[5, 20, 30, 40, 60, 75, 90, 120]);
    let names = *t.pick(&[&["a"][..], &["a", "b"], &["k1", "_x", "longer"]]);
    let dotted = t.below(4);
    let mut s = String::new();
    for copy in 0..t.range(2, 4) {
        s += *t.pick(&["r.s:\n", "r.s:\n", "r:\n  s:\n"]);
        let mut depth = if s.ends_with("  s:\n") { 2 } else { 1 };
        let mut d = 0;
        while d < n {
            let many = if dotted > 0 && t.chance(1, 1 << dotted) { t.range(2, 9).min(n - d) } else { 1 };
            let key: Vec<&str> = (d..d + many).map(|i| names[i % names.len()]).collect();
            s += &format!("{}{}:\n", "  ".repeat(depth), key.join("."));
            d += many;
            depth += 1;
        }
        s += &format!("{}{}: {copy}\n", "  ".repeat(depth), if t.chance(1, 4) { "x".to_string() } else { format!("x{copy}") });
    }
    s
}

fn big_count(t: &mut Tape) -> String {
    let n = match t.below(7) {
        0 => 100_000_000,
        1 => 100_000_001,
        2 => 99_999_999,
        3 => u64::MAX,
        4 => 4_294_967_296,
        5 => 10u64.pow(t.range(3, 19) as u32),
        _ => t.bits() >> t.below(64),
    };
    let n = if t.chance(1, 10) { format!("{n}0") } else { n.to_string() };
    let d = *t.pick(&["", "|", "\t"]);
    let body = *t.pick(&["", " 1,2", "\n  - 1", "\n  - a: 1\n  - b", "\n  1", "\n  - [3]: 1"]);
    let f = *t.pick(&["", "{a}", "{a,b}", "{}", "{\"x\"}"]);
    let k = *t.pick(&["", "k", "\"q\""]);
    let mut s = format!("{k}[{n}{d}]{f}:{body}");
    if t.chance(1, 4) {
        s = format!("[1]:\n  - {}", s.replace('\n', "\n  "));
    }
    s
}

/// One short piece repeated very often, whole or inside quotes, brackets,
/// braces or lines.
fn repeated(t: &mut Tape) -> String {
    const BITS: &[&str] = &[
        "\\", "\\n", "\\\"", "\"", "a", "1", "é", "𝄞", " ", "\t", "\n", "\r", "- ", "-", "\n- ", "\n  ", ":", ": ", ":\n", ".", "a.", ",", "|", "a,", "\"a\",",
        "\",\"", "[", "]", "[0]", "[1]:", "[1]: ", "{", "}", "{a}", "a: 1\n", "- 1\n", "- a: 1\n", "  1,2\n", "0", "9", "e1", "\u{feff}", "\u{0}", "\u{301}", "a b",
        "\n\n", "- - ", "- [1]: 1\n", "\\t\"", "true,", "null", "null,", "\"\"", "\"\",", "-0", "0.", "+",
    ];
    let mut piece = String::new();
    for _ in 0..t.range(1, 2) {
        piece += t.pick(BITS);
    }
    let n = match t.below(6) {
        0 => t.below(200),
        1 | 2 => t.below(3000),
        3 | 4 => t.below(20_000),
        _ => t.below(120_000),
    };
    let (a, z) = *t.pick(&[
        ("", ""),
        ("\"", "\""),
        ("a: ", ""),
        ("a: \"", "\""),
        ("\"", "\": 1"),
        ("[2]: ", ""),
        ("[3]: a,\"", "\",b"),
        ("[", "]: 1"),
        ("a[1]{", "}:\n  1"),
        ("a[2]{x,y}:\n  1,", "\n  3,4"),
        ("a[2]{x,y}:\n", ""),
        ("- ", ""),
        ("a:\n  ", ""),
        ("[1]:\n  - ", ""),
        ("[5]:\n", ""),
        ("", "a: 1"),
        ("", ": 1"),
    ]);
    format!("{a}{}{z}", piece.repeat(n))
}

/// Processor time that this thread has used.
fn cpu() -> f64 {
    #[repr(C)]
    struct Timespec {
        s: i64,
        ns: i64,
    }
    unsafe extern "C" {
        fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
    }
    let mut at = Timespec { s: 0, ns: 0 };
    // CLOCK_THREAD_CPUTIME_ID
    if unsafe { clock_gettime(3, &raw mut at) } == 0 { at.s as f64 + at.ns as f64 * 1e-9 } else { 0.0 }
}

/// Seconds of processor time that one call may take; the slowest of the
/// generated cases takes a hundredth of it.
const CPU: f64 = 15.0;

/// One call: no panic, no more memory than `bound` of the result, no hang.
fn bounded<T>(what: &str, size: usize, bound: impl FnOnce(&T) -> usize, f: impl FnOnce() -> T) -> Result<T, String> {
    let t0 = cpu();
    let (r, peak) = crate::alloc::measure(1 << 30, || crate::engine::catch(f));
    let secs = cpu() - t0;
    let r = r.map_err(|m| format!("{what} panics: {m}"))?;
    let bound = bound(&r);
    #[cfg(debug_assertions)]
    if std::env::var_os("TVH_RATIO").is_some() {
        eprintln!("RATIO {:.4} {peak} {bound} {secs:.3} {what}", peak as f64 / bound as f64);
    }
    if peak > bound {
        return Err(format!("{what} ({size} bytes) takes {peak} bytes of memory, over the bound of {bound}"));
    }
    if secs > CPU {
        return Err(format!("{what} ({size} bytes) takes {secs:.1} s of processor time"));
    }
    Ok(r)
}

fn c08(t: &mut Tape, c: &mut Ctx) -> CheckResult {
    let kind = t.weighted(&[40, 20, 3, 6, 2, 12, 2]);
    if kind == 5 {
        return c08_value(t, c);
    }
    let (text, indent) = match kind {
        0 => {
            let i = gens::indent(t);
            (docgen::wild(t, i), i)
        }
        1 => {
            let i = t.below(4);
            let n = t.count(60, 300);
            ((0..n).map(|_| gens::any_char(t)).collect(), i)
        }
        2 => nested_text(t),
        3 => (big_count(t), 2),
        6 => (merged_text(t), 2),
        _ => (repeated(t), 2),
    };
    let strict = t.coin();
    let expand = t.coin();
    let indent = if t.chance(1, 10) { *t.pick(&[0, 1, 2, 3, 16, 1000, usize::MAX, usize::MAX / 2]) } else { indent };
    c.label(["wild text", "random characters", "deep nesting", "large declared length", "a piece repeated", "", "merged by expansion"][kind]);
    c.nontrivial(&(&text, indent, strict, expand));
    c.describe(|| format!("indent={indent} strict={strict} expand={expand}\n{text}"));
    let info = |m: String| format!("{m}\nindent={indent} strict={strict} expand={expand} text:\n{}", clip(&text, 3000));
    let bound = text_bound(&text);
    let r = bounded("decoding", text.len(), |_| bound, || try_decode(&text, Some(gens::dec(indent, strict, expand))).map_err(|e| e.to_string())).map_err(info)?;
    c.cond("accepted", r.is_ok());
    c.cond("rejected", r.is_err());
    if let Err(e) = &r
        && e.is_empty()
    {
        return Err(info("an error without a message".into()));
    }
    bounded("event decoding", text.len(), |_| bound, || stream(&text, indent, strict).map(|e| e.len())).map_err(info)?.ok();
    // the encoder and the converters, on the same text
    crate::engine::catch(|| {
        let _ = toon::json_to_toon(&text);
        let _ = toon::toon_to_json(&text);
    })
    .map_err(|m| info(format!("conversion panics: {m}")))?;
    if let Ok(v) = r {
        let eo = gens::Eo { indent: 2, delim: ',', fold: expand, flatten: None };
        encode_bounded(&v, &eo).map_err(info)?;
    }
    Ok(())
}

/// Memory that decoding a text may take. One line of `-` holds an object and
/// one comma in a row two values; a declared length counts for nothing.
/// Expansion turns each dot into an object.
fn text_bound(text: &str) -> usize {
    let tokens = text.bytes().filter(|b| matches!(b, b'\n' | b',' | b'|' | b'\t' | b':' | b'-' | b'{' | b'[' | b'.')).count() + 1;
    // the rows of a table each hold the names of its fields
    let names = text.split('\n').filter(|l| l.contains('{')).map(str::len).max().unwrap_or(0);
    (64 << 10) + 100 * text.len() + 2000 * tokens + 8 * names * (text.matches('\n').count() + 1)
}

/// Memory that encoding a value may take: linear in the nodes and strings, and
/// the copies that folding makes of what is below.
fn value_bound(v: &V, depth: usize) -> usize {
    match v {
        V::Primitive(P::String(s)) => 200 + 20 * s.len() * (depth.min(2) + 1),
        V::Primitive(_) => 200,
        V::Array(a) => 200 + a.iter().map(|x| value_bound(x, depth + 1)).sum::<usize>(),
        V::Object(o) => 200 + 40 * depth + o.iter().map(|(k, x)| 200 + 20 * k.len() + value_bound(x, depth + 1)).sum::<usize>(),
    }
}

fn encode_bounded(v: &V, eo: &gens::Eo) -> CheckResult {
    let size = value_bound(v, 0) / 200;
    // folded chains and list items are copied with all that is below them
    let copies = 1 + depth(v) / 2;
    let bound = (64 << 10) + 400 * copies * size;
    let text = bounded("encoding", size, |s: &String| bound + 12 * s.len(), || toon::encode(v.clone(), Some(eo.to())))?;
    let lines = bounded("encoding to lines", size, |s: &Vec<String>| bound + 12 * text.len() + 200 * s.len(), || toon::encode_lines(v.clone(), Some(eo.to())))?;
    let keep: toon::options::EncodeReplacer = std::sync::Arc::new(|_: &str, v: &V, _: &[toon::options::PathSegment]| Some(v.clone()));
    let with = toon::options::EncodeOptions { replacer: Some(keep), ..eo.to() };
    bounded("encoding with a replacer", size, |_| 2 * bound * (1 + depth(v)) + 12 * text.len(), || toon::encode(v.clone(), Some(with)))?;
    let events = bounded("encoding to events", size, |_| 3 * bound, || toon::encode_stream_events(v.clone(), Some(eo.to())))?;
    bounded("building from events", size, |_| 4 * bound, || toon::decode::event_builder::build_node_from_events(events).map(|_| ()).map_err(|e| e.to_string()))??;
    drop(lines);
    let limit = text_bound(&text);
    for expand in [false, true] {
        let r = bounded("decoding what was encoded", text.len(), |_| limit, || try_decode(&text, Some(gens::dec(eo.indent, true, expand))).map(|_| ()));
        r?.ok();
    }
    bounded("making JSON", size, |_| 4 * bound + 12 * text.len(), || serde_json::Value::from(v.clone()))?;
    Ok(())
}

/// Deep values of many forms, wide ones, and the generated ones.
fn tall_value(t: &mut Tape) -> V {
    let n = *t.pick(&[5, 12, 25, 40, 100, 255, 256, 257, 500, 1000]);
    let forms: Vec<usize> = (0..t.range(1, 3)).map(|_| t.below(10)).collect();
    let from_end = t.below(4);
    let mut v = match t.below(4) {
        0 => V::Object(vec![]),
        1 => V::Array(vec![]),
        2 => V::Object(vec![("a".into(), num(1.0)), ("b".into(), st("x"))]),
        _ => num(1.0),
    };
    for i in 0..n {
        // a form of its own near the bottom: what makes a chain end
        let f = if i < from_end { forms[0] } else { forms[i % forms.len()] };
        let key = |k: &str, v: V| V::Object(vec![(k.to_string(), v)]);
        v = match f {
            0 | 1 => key("a", v),
            2 => key("a b", v),
            3 => key("", v),
            4 => V::Array(vec![v]),
            5 => V::Object(vec![("a".into(), v), ("z".into(), num(2.0))]),
            6 => V::Object(vec![("z".into(), num(2.0)), ("a".into(), v)]),
            7 => V::Array(vec![v, num(1.0)]),
            8 => V::Object(vec![("a".into(), v), ("a.a".into(), num(2.0))]),
            _ => key("a.b", v),
        };
    }
    v
}

fn wide_value(t: &mut Tape) -> V {
    let n = *t.pick(&[10, 100, 300, 1000]);
    // now and then one of them is long
    let long = if t.coin() { t.below(n) } else { n };
    let len = *t.pick(&[1000, 10_000, 40_000]);
    let big = |i: usize| if i == long { "long ".repeat(len / 5) } else { String::new() };
    let key = |i: usize| format!("k{i}{}", big(i));
    let item = |i: usize| if i == long { st(&big(i)) } else { num(i as f64) };
    match t.below(9) {
        6 => V::Array((0..n).map(item).collect()),
        7 => V::Array((0..n).map(|i| V::Object(vec![("a".into(), item(i)), ("b".into(), num(1.0))])).collect()),
        8 => V::Array((0..n).map(|i| V::Array(vec![item(i), V::Object(vec![("a".into(), item(i))])])).collect()),
        0 => V::Object((0..n).map(|i| (key(i), num(i as f64))).collect()),
        1 => V::Object((0..n).map(|i| (key(i), V::Object(vec![(key(i), num(1.0))]))).collect()),
        2 => V::Array((0..n).map(|_| V::Object((0..3).map(|i| (key(i), num(1.0))).collect())).collect()),
        3 => V::Array((0..n).map(|i| V::Object(vec![(key(i), num(1.0))])).collect()),
        4 => V::Array((0..n).map(|i| V::Array(vec![num(i as f64)])).collect()),
        _ => V::Array((0..3).map(|_| V::Object((0..n).map(|i| (key(i), num(1.0))).collect())).collect()),
    }
}

fn c08_value(t: &mut Tape, c: &mut Ctx) -> CheckResult {
    let kind = t.weighted(&[12, 4, 1]);
    let v = match kind {
        0 => {
            let keys = if t.coin() { Keys::Any } else { Keys::Paths };
            Vg::new(keys, 6).root(t)
        }
        1 => tall_value(t),
        _ => wide_value(t),
    };
    let fold = t.coin();
    let eo = gens::enc_opts(t, fold);
    c.label(["a value to encode", "a deep value to encode", "a wide value to encode"][kind]);
    c.nontrivial(&(show(&v), eo.indent, eo.delim, eo.fold, eo.flatten));
    c.describe(|| format!("indent={} folding={} flatten={:?}\n{}", eo.indent, eo.fold, eo.flatten, clip(&show(&v), 3000)));
    encode_bounded(&v, &eo).map_err(|m| format!("{m}\nindent={} folding={} flatten={:?}\n{}", eo.indent, eo.fold, eo.flatten, clip(&show(&v), 3000)))
}

// ---------------------------------------------------------------- C09

/// A document with dotted keys: a tree, some unquoted dotted keys, few names.
fn path_doc(t: &mut Tape, indent: usize) -> String {
    match t.weighted(&[5, 3, 2]) {
        0 => {
            let v = Vg::new(Keys::Paths, 4).root(t);
            let free = *t.pick(&[0, 3, 6]);
            docgen::from_value(t, indent, free, &v, false).text
        }
        1 => {
            // lines of fields, with repeated names too
            let n = t.range(1, 7);
            let mut s = vec![];
            let mut depth = 0usize;
            for _ in 0..n {
                let mut k = gens::key(t, Keys::Paths);
                let bare = crate::model_enc::bare_key(&k);
                if !bare || t.chance(1, 6) {
                    k = crate::model_enc::quoted(&k);
                }
                let sp = " ".repeat(depth * indent);
                match t.below(5) {
                    0 => {
                        s.push(format!("{sp}{k}:"));
                        if depth < 3 {
                            depth += 1;
                        }
                    }
                    1 => s.push(format!("{sp}{k}[2]: 1,2")),
                    2 => s.push(format!("{sp}{k}[1]{{a.b,c}}:\n{sp}{}3,4", " ".repeat(indent))),
                    _ => s.push(format!("{sp}{k}: {}", t.below(10))),
                }
                if depth > 0 && t.coin() {
                    depth -= 1;
                }
            }
            s.join("\n")
        }
        _ => {
            let v = Vg::new(Keys::Paths, 4).root(t);
            let eo = gens::Eo { indent, delim: ',', fold: true, flatten: None };
            toon::encode(v, Some(eo.to()))
        }
    }
}

fn c09(t: &mut Tape, c: &mut Ctx) -> CheckResult {
    let indent = gens::indent(t);
    let text = path_doc(t, indent);
    let strict = t.coin();
    c.describe(|| format!("indent={indent} strict={strict}\n{text}"));
    let Ok(tree) = md::decode(&text, indent, strict) else {
        c.discarded = true;
        c.label("does not decode");
        return Ok(());
    };
    check_expansion(&text, indent, strict, &tree, c)
}

fn check_expansion(text: &str, indent: usize, strict: bool, tree: &T, c: &mut Ctx) -> CheckResult {
    let plain = md::to_value(tree);
    let want = md::expand(tree, strict);
    let touched = match &want {
        Ok(v) => !same(v, &plain),
        Err(_) => true,
    };
    if touched {
        c.nontrivial(&(text, indent, strict));
    }
    c.cond("expansion changes the value", touched && want.is_ok());
    c.cond("conflict", want.is_err());
    let got = try_decode(text, Some(gens::dec(indent, strict, true)));
    match (&got, &want) {
        (Ok(v), Ok(w)) if same(v, w) => {}
        (Ok(v), Ok(w)) => return Err(format!("strict={strict}: expands to {}\nexpected {}\ntext:\n{text}", clip(&show(v), 2000), clip(&show(w), 2000))),
        (Err(e), Err(b)) => {
            let key = b.0.strip_prefix("conflict at ").unwrap_or_default();
            if !e.to_string().contains(key) {
                return Err(format!("strict={strict}: the message does not name the key {key:?} of the conflict: {e}\ntext:\n{text}"));
            }
        }
        (Ok(v), Err(b)) => return Err(format!("strict={strict}: expands to {} in spite of a {}\ntext:\n{text}", clip(&show(v), 2000), b.0)),
        (Err(e), Ok(w)) => return Err(format!("strict={strict}: rejected ({e}), expected {}\ntext:\n{text}", clip(&show(w), 2000))),
    }
    if !md::has_duplicate_keys(tree) {
        match try_decode(text, Some(gens::dec(indent, strict, false))) {
            Ok(v) if same(&v, &plain) => {}
            r => return Err(format!("strict={strict} without expansion: {r:?}\nexpected {}\ntext:\n{text}", clip(&show(&plain), 2000))),
        }
    }
    Ok(())
}

/// All short lists of assignments over a few paths.
const ASSIGN: [&str; 12] = ["a: 1", "a.b: 2", "a.b.c: 3", "\"a.b\": 4", "a:\n  b: 5", "a:", "a.b:\n  c: 6\n  d: 7", "b: 8", "a[1]: 9", "a.b[1]{a.b}:\n  10", "a.c: 11", "a:\n  b.c: 12"];
fn c09_count(thorough: bool) -> u64 {
    let n = ASSIGN.len() as u64;
    2 * if thorough { n.pow(4) } else { n.pow(3) + n.pow(2) }
}
fn c09_enum(i: u64, c: &mut Ctx) -> CheckResult {
    let n = ASSIGN.len() as u64;
    let strict = i % 2 == 0;
    let mut j = i / 2;
    let k = if j < n.pow(2) { 2 } else if j < n.pow(2) + n.pow(3) { 3 } else { 4 };
    if k == 3 {
        j -= n.pow(2);
    }
    let mut v = vec![];
    for _ in 0..k {
        v.push(ASSIGN[(j % n) as usize]);
        j /= n;
    }
    let text = v.join("\n");
    c.label("enumerated assignments");
    c.describe(|| text.clone());
    let tree = md::decode(&text, 2, strict).map_err(|e| format!("the reference decoder rejects {text}: {}", e.0))?;
    check_expansion(&text, 2, strict, &tree, c)
}

// ---------------------------------------------------------------- C21

fn named_line(m: &str) -> Option<usize> {
    let l = m.to_ascii_lowercase();
    let i = l.find("line ")?;
    let d: String = l[i + 5..].chars().take_while(char::is_ascii_digit).collect();
    d.parse().ok()
}

fn has_number(m: &str, n: usize) -> bool {
    m.split(|c: char| !c.is_ascii_digit()).any(|x| x == n.to_string())
}

fn c21(t: &mut Tape, c: &mut Ctx) -> CheckResult {
    let kind = *t.pick(&[6, 7, 8, 6, 7, 8, 0, 0, 1, 2, 3, 4, 5, 14]);
    let Some(d) = good_doc(t, c) else { return Ok(()) };
    let Some(mut x) = damage(t, &d, kind) else {
        c.discarded = true;
        c.label("does not apply");
        return Ok(());
    };
    if let Some(l) = x.line
        && t.chance(1, 2000)
    {
        // very many lines before it
        let n = *t.pick(&[255, 256, 4096, 32_768, 65_535, 65_536, 70_000]);
        x.text.insert_str(0, &"\n".repeat(n));
        x.line = Some(l + n);
        x.what = format!("{}, after {n} blank lines", x.what);
        c.label("after thousands of lines");
    }
    if x.line.is_none() && x.counts.is_none() && x.declared.is_none() {
        c.discarded = true;
        c.label("nothing to name");
        return Ok(());
    }
    c.label(KINDS[kind]);
    c.nontrivial(&(&x.text, d.indent));
    c.describe(|| format!("indent={} {}\n{}", d.indent, x.what, x.text));
    let a = dec(&x.text, d.indent, true);
    let b = stream(&x.text, d.indent, true).map(|_| null());
    for (r, how) in [(a, "decoding"), (b, "event decoding")] {
        let Err(m) = r else {
            // C06 decides this
            c.label("accepted");
            return Ok(());
        };
        if let Some(l) = x.line
            && named_line(&m) != Some(l)
        {
            return Err(format!("{how}: {}, but the error says: {m}\ntext:\n{}", x.what, x.text));
        }
        if let Some(n) = x.declared
            && !has_number(&m, n)
        {
            return Err(format!("{how}: {} (declared {n}), but the error says: {m}\ntext:\n{}", x.what, x.text));
        }
        if let Some((want, got)) = x.counts
            && !(has_number(&m, want) && has_number(&m, got))
        {
            return Err(format!("{how}: {} (declared {want}, actual {got}), but the error says: {m}\ntext:\n{}", x.what, x.text));
        }
        // which is which, as far as the words say so
        let (declared, actual) = match (x.counts, x.declared) {
            (Some((d, a)), _) => (Some(d), Some(a)),
            (None, d) => (d, None),
        };
        let after = |w: &str| {
            let i = m.to_ascii_lowercase().find(w)? + w.len();
            m[i..].chars().take_while(char::is_ascii_digit).collect::<String>().parse::<usize>().ok()
        };
        for (words, n) in [("expected ", declared), ("declared ", declared), ("got ", actual), ("found ", actual)] {
            if let (Some(said), Some(n)) = (after(words), n)
                && said != n
            {
                return Err(format!("{how}: {} (declared {declared:?}, actual {actual:?}), but the error says: {m}\ntext:\n{}", x.what, x.text));
            }
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C05",
            rule: "a document of more than one line or with an array, or any wild text; counted once per text",
            assumptions: &["indent at least 1", "values of documents with duplicate keys are not compared"],
            quick: 630_000, thorough: 10_000_000, shrink: 4000, threads: 8,
            run: c05, enum_count: c05_count, run_enum: c05_enum,
        },
        Prop {
            id: "C06",
            rule: "a correct document was damaged in one known way; counted once per damaged text",
            assumptions: &["damages of the listed kinds, one at a time"],
            quick: 700_000, thorough: 12_000_000, shrink: 4000, threads: 8,
            run: c06, enum_count: no_enum_count, run_enum: no_enum,
        },
        Prop {
            id: "C07",
            rule: "strict decoding accepts the text, or the text has a damage that lenient decoding recovers in a documented way; counted once per text",
            assumptions: &["recoveries: counts larger than declared rows, inline counts, short and long rows, blank lines inside arrays, indentation rounded down"],
            quick: 700_000, thorough: 10_000_000, shrink: 4000, threads: 8,
            run: c07, enum_count: no_enum_count, run_enum: no_enum,
        },
        Prop {
            id: "C08",
            rule: "every text counts, once per text and options",
            assumptions: &["nesting up to 1000 on a stack of 8 MiB; memory and processor time of one call bounded by a linear function of the text or value and of what is made from it"],
            quick: 300_000, thorough: 10_000_000, shrink: 2000, threads: 8,
            run: c08, enum_count: no_enum_count, run_enum: no_enum,
        },
        Prop {
            id: "C09",
            rule: "expansion changes the value or meets a conflict; counted once per text",
            assumptions: &["nesting well below the expansion depth cap"],
            quick: 1_050_000, thorough: 10_000_000, shrink: 4000, threads: 8,
            run: c09, enum_count: c09_count, run_enum: c09_enum,
        },
        Prop {
            id: "C21",
            rule: "a correct document was damaged in one known way; counted once per damaged text",
            assumptions: &["one fault per document"],
            quick: 840_000, thorough: 8_000_000, shrink: 4000, threads: 8,
            run: c21, enum_count: no_enum_count, run_enum: no_enum,
        },
    ]
}
