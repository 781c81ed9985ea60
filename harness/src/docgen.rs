//! Generated documents: texts known by construction (with the freedom of form
//! a hand-written document has, and with what is needed to damage them in a
//! known way), and wild texts.
use crate::engine::Tape;
use crate::gens::{self, DELIMS, Keys, Vg};
use crate::model_dec::{self, T};
use crate::model_enc as me;
use crate::util::*;
use toon::StringOrNumberOrBoolOrNull as P;

#[derive(Clone, Debug, Default)]
pub struct DLine {
    pub depth: usize,
    /// Text before the cells (all of it when there are none).
    pub pre: String,
    pub cells: Option<(Vec<String>, char)>,
    /// Byte range in `pre` of the declared length, and the array it is of.
    pub digits: Option<(usize, usize, usize)>,
    /// Start in `pre` of the primitive the line ends with.
    pub tok: Option<usize>,
    /// Byte range in `pre` of the key.
    pub key: Option<(usize, usize)>,
    pub blank: Option<String>,
}

impl DLine {
    pub fn body(&self) -> String {
        match &self.cells {
            None => self.pre.clone(),
            Some((c, d)) => format!("{}{}", self.pre, c.join(&d.to_string())),
        }
    }
    fn prefix(&mut self, p: &str) {
        self.pre.insert_str(0, p);
        let n = p.len();
        if let Some(d) = &mut self.digits {
            d.0 += n;
            d.1 += n;
        }
        if let Some(t) = &mut self.tok {
            *t += n;
        }
        if let Some(k) = &mut self.key {
            k.0 += n;
            k.1 += n;
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Inline,
    Table,
    List,
}

#[derive(Clone, Debug)]
pub struct Arr {
    pub kind: Kind,
    pub n: usize,
    pub width: usize,
    pub header: usize,
    /// Line range (start, end) of each row or item; empty for inline arrays.
    pub parts: Vec<(usize, usize)>,
}

#[derive(Clone, Debug)]
pub struct Doc {
    pub lines: Vec<DLine>,
    pub arrs: Vec<Arr>,
    pub tree: T,
    pub indent: usize,
    pub text: String,
    tail: String,
}

impl Doc {
    pub fn value(&self) -> V {
        model_dec::to_value(&self.tree)
    }
    pub fn render(&self) -> String {
        let v: Vec<String> = self.lines.iter().map(|l| render_line(l, self.indent)).collect();
        v.join("\n") + &self.tail
    }
    /// Is line `i` strictly between the first row or item line and the last
    /// line of some array?
    pub fn inside_array(&self, i: usize) -> bool {
        self.arrs.iter().any(|a| a.parts.first().is_some_and(|p| p.0 < i) && a.parts.last().is_some_and(|p| i < p.1))
    }
}

pub fn render_line(l: &DLine, indent: usize) -> String {
    if let Some(b) = &l.blank {
        return b.clone();
    }
    format!("{}{}", " ".repeat(l.depth * indent), l.body())
}

struct Rd<'a> {
    t: &'a mut Tape,
    lines: Vec<DLine>,
    arrs: Vec<Arr>,
    /// How often to leave the canonical form, out of 12.
    free: usize,
}

#[derive(Clone, Copy)]
enum At {
    Field,
    Item,
    Root,
    Cell(char),
    Row(char),
}

fn may_be_bare(s: &str, at: At) -> bool {
    let base = !s.is_empty()
        && s.trim() == s
        && !matches!(s, "true" | "false" | "null")
        && !model_dec::is_number_token(s)
        && !s.starts_with('"')
        && !s.contains(['\n', '\r']);
    base && match at {
        At::Field => true,
        At::Item => !s.contains(':') && s != "-" && !s.starts_with("- "),
        At::Root => !s.contains(':'),
        At::Cell(d) => !s.contains([d, '"']),
        At::Row(d) => !s.contains([d, '"', ':']) && !s.starts_with('-'),
    }
}

/// In quotes, with carriage returns and tabs as they are: a line ends at a
/// line feed only.
fn loosely_quoted(s: &str) -> String {
    let mut out = String::from("\"");
    for c in s.chars() {
        match c {
            '\n' => out.push_str("\\n"),
            '"' | '\\' => {
                out.push('\\');
                out.push(c);
            }
            _ => out.push(c),
        }
    }
    out + "\""
}

impl Rd<'_> {
    fn odd(&mut self) -> bool {
        self.free > 0 && self.t.chance(self.free, 12)
    }

    fn spaces(&mut self, dflt: usize) -> String {
        if self.free > 0 && self.t.chance(1, 6) { " ".repeat(self.t.below(4)) } else { " ".repeat(dflt) }
    }

    fn prim(&mut self, p: &P, at: At) -> String {
        match p {
            P::Null => "null".into(),
            P::Bool(b) => b.to_string(),
            P::Number(x) => self.number(*x),
            P::String(s) => {
                let d = match at {
                    At::Cell(d) | At::Row(d) => d,
                    _ => ',',
                };
                let must = me::must_quote(s, d) || me::quoting_open(s);
                if !must && self.odd() && self.t.coin() {
                    return me::quoted(s);
                }
                if s.contains(['\r', '\t']) && self.odd() && self.t.coin() {
                    return loosely_quoted(s);
                }
                if must && may_be_bare(s, at) && self.odd() {
                    return s.clone();
                }
                if must { me::quoted(s) } else { s.clone() }
            }
        }
    }

    fn number(&mut self, x: f64) -> String {
        let plain = format!("{x}");
        if !self.odd() {
            return plain;
        }
        let alt = match self.t.below(9) {
            // all the digits of the binary value
            6 => {
                let n = if self.t.chance(1, 4) { self.t.below(1080) } else { self.t.below(60) };
                format!("{x:.n$}")
            }
            // another place for the decimal point
            7 => {
                let k = if self.t.chance(1, 4) { self.t.range(1, 400) } else { self.t.range(1, 20) };
                shifted(&plain, k, self.t.coin())
            }
            8 => {
                let n = if self.t.chance(1, 4) { self.t.below(700) } else { self.t.below(40) };
                format!("{plain}{}{}", if plain.contains('.') { "" } else { "." }, "0".repeat(n))
            }
            0 => format!("{x:e}"),
            1 => format!("{x:E}"),
            2 => format!("{x:e}").replace('e', "e+"),
            3 if plain.contains('.') => format!("{plain}00"),
            3 => format!("{plain}.0"),
            4 => format!("{plain}e0"),
            _ if x == 0.0 => "-0".into(),
            _ => format!("{x:e}").replace('e', "E+0"),
        };
        if model_dec::is_number_token(&alt) && alt.parse::<f64>().is_ok_and(|y| y == x) { alt } else { plain }
    }

    fn key(&mut self, k: &str) -> (String, bool) {
        let bare = me::bare_key(k);
        if bare {
            return if self.odd() && self.t.coin() { (me::quoted(k), true) } else { (k.to_string(), false) };
        }
        let loose = !k.is_empty()
            && k.trim() == k
            && !k.starts_with('-')
            && !k.contains([':', '"', '[', ']', '{', '}', '\n', '\r', ',', '|', '\t', '\\']);
        if loose && self.odd() && self.t.coin() {
            return (k.to_string(), false);
        }
        if k.contains(['\r', '\t']) && self.odd() && self.t.coin() {
            return (loosely_quoted(k), true);
        }
        (me::quoted(k), true)
    }

    fn put(&mut self, depth: usize, pre: String) -> usize {
        self.lines.push(DLine { depth, pre, ..DLine::default() });
        self.lines.len() - 1
    }

    /// Header, from `pre` (key already written). Returns the line.
    fn header(&mut self, depth: usize, key: &str, n: usize, delim: char, kind: Kind, cols: Option<&str>) -> (usize, usize) {
        let mut pre = format!("{key}[");
        let a = pre.len();
        pre += &n.to_string();
        let b = pre.len();
        if delim != ',' {
            pre.push(delim);
        }
        pre.push(']');
        if let Some(c) = cols {
            pre += c;
        }
        pre.push(':');
        let line = self.put(depth, pre);
        let id = self.arrs.len();
        self.arrs.push(Arr { kind, n, width: 0, header: line, parts: vec![] });
        self.lines[line].digits = Some((a, b, id));
        if !key.is_empty() {
            self.lines[line].key = Some((0, key.len()));
        }
        (line, id)
    }

    fn delim(&mut self) -> char {
        if self.free == 0 { ',' } else { DELIMS[self.t.weighted(&[4, 2, 2])] }
    }

    fn cells(&mut self, p: &[P], d: char, row: bool) -> Vec<String> {
        let n = p.len();
        let mut v = vec![];
        for (i, x) in p.iter().enumerate() {
            let mut s = self.prim(x, if row { At::Row(d) } else { At::Cell(d) });
            if matches!(x, P::String(z) if z.is_empty()) && n > 1 && d != '\t' && self.odd() {
                s = String::new();
            }
            if self.odd() && self.t.chance(1, 3) {
                // any white space pads, save the delimiter
                let mut pad = *self.t.pick(&[" ", " ", " ", " ", "\t", "\t", "\u{a0}", "\u{3000}"]);
                if d == '\t' && pad == "\t" {
                    pad = " ";
                }
                if i > 0 {
                    s.insert_str(0, &pad.repeat(self.t.below(3)));
                }
                if i + 1 < n && !(row && i == 0 && s.is_empty()) {
                    s += &pad.repeat(self.t.below(3));
                }
            }
            v.push(s);
        }
        v
    }

    fn array(&mut self, depth: usize, key: &str, a: &[V]) -> T {
        let prims: Option<Vec<P>> = a.iter().map(|x| if let V::Primitive(p) = x { Some(p.clone()) } else { None }).collect();
        if let Some(p) = prims {
            if p.is_empty() {
                let d = self_delim(self.free, self.t);
                self.header(depth, key, 0, d, Kind::List, None);
                return T::Arr(0, vec![]);
            }
            if !(self.odd() && p.len() < 20) {
                let d = self.delim();
                let (l, _) = self.header(depth, key, p.len(), d, Kind::Inline, None);
                let sp = self.spaces(1);
                self.lines[l].pre += &sp;
                let c = self.cells(&p, d, false);
                self.lines[l].cells = Some((c, d));
                return T::Arr(p.len(), p.into_iter().map(T::Prim).collect());
            }
        } else if is_table(a) && !self.odd() {
            let d = self.delim();
            let V::Object(first) = &a[0] else { unreachable!() };
            let mut names = vec![];
            let mut cols = String::from("{");
            for (i, (k, _)) in first.iter().enumerate() {
                if i > 0 {
                    cols.push(d);
                    if self.odd() && self.t.coin() {
                        cols.push(' ');
                    }
                }
                let (mut s, mut q) = self.key(k);
                if !q && !me::bare_key(k) {
                    s = me::quoted(k);
                    q = true;
                }
                cols += &s;
                names.push((k.clone(), q));
            }
            cols.push('}');
            let (_, id) = self.header(depth, key, a.len(), d, Kind::Table, Some(&cols));
            self.arrs[id].width = names.len();
            let mut rows = vec![];
            for r in a {
                let V::Object(o) = r else { unreachable!() };
                let p: Vec<P> = names
                    .iter()
                    .map(|(k, _)| match &o.iter().find(|(l, _)| l == k).unwrap().1 {
                        V::Primitive(p) => p.clone(),
                        _ => unreachable!(),
                    })
                    .collect();
                let l = self.put(depth + 1, String::new());
                let c = self.cells(&p, d, true);
                self.lines[l].cells = Some((c, d));
                self.arrs[id].parts.push((l, l + 1));
                rows.push(T::Obj(names.iter().zip(p).map(|((k, q), p)| (k.clone(), *q, T::Prim(p))).collect()));
            }
            return T::Arr(a.len(), rows);
        }
        let d = self_delim(self.free, self.t);
        let (_, id) = self.header(depth, key, a.len(), d, Kind::List, None);
        let mut items = vec![];
        for x in a {
            let from = self.lines.len();
            items.push(self.item(depth + 1, x));
            self.arrs[id].parts.push((from, self.lines.len()));
        }
        T::Arr(a.len(), items)
    }

    fn item(&mut self, depth: usize, v: &V) -> T {
        let from = self.lines.len();
        match v {
            V::Primitive(p) => {
                let s = self.prim(p, At::Item);
                let l = self.put(depth, format!("- {s}"));
                self.lines[l].tok = Some(2);
                T::Prim(p.clone())
            }
            V::Array(a) => {
                let t = self.array(depth, "", a);
                self.lines[from].prefix("- ");
                t
            }
            V::Object(o) if o.is_empty() => {
                self.put(depth, "-".into());
                T::Obj(vec![])
            }
            V::Object(o) => {
                let t = self.object(depth + 1, o);
                self.lines[from].depth = depth;
                self.lines[from].prefix("- ");
                t
            }
        }
    }

    fn object(&mut self, depth: usize, o: &[(String, V)]) -> T {
        let mut out = vec![];
        for (k, v) in o {
            let (ks, q) = self.key(k);
            let t = match v {
                V::Primitive(p) => {
                    let s = self.prim(p, At::Field);
                    let sp = self.spaces(1);
                    let pre = format!("{ks}:{sp}");
                    let at = pre.len();
                    let l = self.put(depth, pre + &s);
                    self.lines[l].tok = Some(at);
                    self.lines[l].key = Some((0, ks.len()));
                    T::Prim(p.clone())
                }
                V::Array(a) => self.array(depth, &ks, a),
                V::Object(inner) => {
                    let l = self.put(depth, format!("{ks}:"));
                    self.lines[l].key = Some((0, ks.len()));
                    self.object(depth + 1, inner)
                }
            };
            out.push((k.clone(), q, t));
        }
        T::Obj(out)
    }
}

/// A plain decimal with its point moved `k` places and the exponent that makes up for it.
fn shifted(plain: &str, k: usize, left: bool) -> String {
    let (sign, body) = plain.strip_prefix('-').map_or(("", plain), |b| ("-", b));
    let (int, frac) = body.split_once('.').unwrap_or((body, ""));
    if left {
        let all = format!("{}{int}", "0".repeat((k + 1).saturating_sub(int.len())));
        let (a, b) = all.split_at(all.len() - k);
        format!("{sign}{a}.{b}{frac}e{k}")
    } else {
        let all = format!("{frac}{}", "0".repeat(k.saturating_sub(frac.len())));
        let (a, b) = all.split_at(k);
        let whole = format!("{int}{a}");
        let whole = whole.trim_start_matches('0');
        format!("{sign}{}{}{b}E-{k}", if whole.is_empty() { "0" } else { whole }, if b.is_empty() { "" } else { "." })
    }
}

fn self_delim(free: usize, t: &mut Tape) -> char {
    if free == 0 { ',' } else { DELIMS[t.weighted(&[4, 1, 1])] }
}

/// A correct document. `indent` must be at least 1.
pub fn document(t: &mut Tape, indent: usize) -> Doc {
    let free = *t.pick(&[0, 2, 4, 7]);
    let v = Vg::new(Keys::Any, 5).root(t);
    from_value(t, indent, free, &v, true)
}

pub fn from_value(t: &mut Tape, indent: usize, free: usize, v: &V, blanks: bool) -> Doc {
    let mut r = Rd { t, lines: vec![], arrs: vec![], free };
    let tree = match v {
        V::Primitive(p) => {
            let s = r.prim(p, At::Root);
            let l = r.put(0, s);
            r.lines[l].tok = Some(0);
            T::Prim(p.clone())
        }
        V::Array(a) => r.array(0, "", a),
        V::Object(o) => r.object(0, o),
    };
    let Rd { t, lines, arrs, .. } = r;
    let mut d = Doc { lines, arrs, tree, indent, text: String::new(), tail: String::new() };
    if blanks && free > 0 {
        let n = t.below(3);
        for _ in 0..n {
            let i = t.below(d.lines.len() + 1);
            if !d.inside_array(i) {
                let b = (*t.pick(&["", "", " ", "   ", "\t"])).to_string();
                insert_line(&mut d, i, DLine { blank: Some(b), ..DLine::default() });
            }
        }
        if t.chance(1, 150) {
            let i = t.below(d.lines.len() + 1);
            if !d.inside_array(i) {
                for _ in 0..t.range(1, 1300) {
                    insert_line(&mut d, i, DLine { blank: Some(String::new()), ..DLine::default() });
                }
            }
        }
        d.tail = (*t.pick(&["", "", "\n", "\n\n", "\n  \n"])).to_string();
    }
    d.text = d.render();
    d
}

/// Insert a line, keeping the line numbers of arrays right.
pub fn insert_line(d: &mut Doc, i: usize, l: DLine) {
    for a in &mut d.arrs {
        if a.header >= i {
            a.header += 1;
        }
        for p in &mut a.parts {
            if p.0 >= i {
                p.0 += 1;
                p.1 += 1;
            } else if p.1 > i {
                p.1 += 1;
            }
        }
    }
    d.lines.insert(i, l);
}

// ------------------------------------------------------------- wild texts

const FRAG: &[&str] = &[
    "- ", "-", "a", "b:", "key: ", "[1]", "[2]:", "[0]:", "a[2]: ", "x[1]{a}:", "x[2|]{a|b}:", "[2\t]: ", "k[1]:",
    "{a,b}", "{", "}", "[", "]", ":", ",", "|", "\t", " ", "  ", "\"", "\"a\"", "\"a b\"", "\\\"", "\\", "\\n", "\\x",
    "1", "-1", "0", "01", "1e5", "true", "null", "false", "a.b", "a.b: 1", "- a: 1", "- [1]: x", "- - a", "- \"k\": v",
    "\"k\"[1]: v", "\"k\"[2]{\"a\",b}:", "é", "\u{a0}", "\u{85}", "[3]", "[-1]:", "[+1]: a", "[1,]: a", "[99999999999]: a",
    "[100000001]:", "[18446744073709551616]:", "a:b", "[1] :", "#",
];

fn fragment_line(t: &mut Tape) -> String {
    let n = t.range(1, 6);
    let mut s = String::new();
    for _ in 0..n {
        match t.weighted(&[8, 1, 1]) {
            0 => s.push_str(t.pick(FRAG)),
            1 => s.push_str(&gens::string(t).replace('\n', " ")),
            _ => s.push(gens::any_char(t)),
        }
    }
    s
}

pub fn wild(t: &mut Tape, indent: usize) -> String {
    // without an indentation step: with and without indented lines
    let s = if indent == 0 && t.coin() { wild_body(t, 2) } else { wild_body(t, indent) };
    if t.chance(1, 12) { line_ends(t, &s) } else { s }
}

/// The same text with other line ends: carriage returns, separators that are
/// no line ends here, a byte order mark, an ending newline.
pub fn line_ends(t: &mut Tape, text: &str) -> String {
    const SEP: [char; 8] = ['\r', '\r', '\u{b}', '\u{c}', '\u{85}', '\u{2028}', '\u{2029}', '\u{1c}'];
    match t.below(6) {
        0 => text.replace('\n', "\r\n") + if t.coin() { "\r\n" } else { "" },
        1 => format!("{text}{}", t.pick(&["\n", "\r", "\r\n", "\n\r", "\r\n\r\n", "\n\n"])),
        2 => format!("\u{feff}{text}"),
        3 => {
            // some line ends, replaced
            let c = *t.pick(&SEP);
            let mut out = String::new();
            for x in text.chars() {
                if x == '\n' && t.chance(1, 3) {
                    out.push(c);
                } else {
                    out.push(x);
                }
            }
            out
        }
        _ => {
            // some line ends, preceded by another
            let c = *t.pick(&SEP);
            let mut out = String::new();
            for x in text.chars() {
                if x == '\n' && t.coin() {
                    out.push(c);
                }
                out.push(x);
            }
            if t.coin() {
                out.push(c);
            }
            out
        }
    }
}

fn wild_body(t: &mut Tape, indent: usize) -> String {
    match t.weighted(&[8, 4, 1]) {
        0 => {
            let d = document(t, indent);
            let n = t.range(1, 4);
            mutate(t, &d.text, indent, n)
        }
        1 => {
            let n = t.range(1, 8);
            let mut depth = 0usize;
            let mut v = vec![];
            for _ in 0..n {
                let body = if t.chance(1, 20) { String::new() } else { fragment_line(t) };
                v.push(format!("{}{}", " ".repeat(depth * indent), body));
                depth = match t.weighted(&[5, 4, 2, 1]) {
                    0 => depth,
                    1 => depth + 1,
                    2 => depth.saturating_sub(1),
                    _ => t.below(4),
                };
            }
            v.join("\n")
        }
        _ => {
            let n = t.below(40);
            (0..n).map(|_| if t.chance(1, 6) { '\n' } else { gens::any_char(t) }).collect()
        }
    }
}

/// Edits on lines and characters.
pub fn mutate(t: &mut Tape, text: &str, indent: usize, edits: usize) -> String {
    let mut lines: Vec<String> = text.split('\n').map(str::to_string).collect();
    for _ in 0..edits {
        let n = lines.len();
        let i = t.below(n);
        match t.below(16) {
            0 => {
                if n > 1 {
                    lines.remove(i);
                }
            }
            1 => {
                let l = lines[i].clone();
                lines.insert(i, l);
            }
            2 => {
                let j = t.below(n);
                lines.swap(i, j);
            }
            3 => lines[i].insert_str(0, &" ".repeat(indent)),
            4 => lines[i].insert(0, *t.pick(&[' ', '\t'])),
            5 => {
                let k = t.range(1, indent.max(1));
                let l = &lines[i];
                let sp = l.len() - l.trim_start_matches(' ').len();
                lines[i] = l[k.min(sp)..].to_string();
            }
            6 => lines.insert(i, (*t.pick(&["", " ", "\t", "  \t"])).to_string()),
            7 => {
                let f = (*t.pick(FRAG)).to_string();
                let at = char_at(t, &lines[i]);
                lines[i].insert_str(at, &f);
            }
            8 => {
                let at = char_at(t, &lines[i]);
                if at < lines[i].len() {
                    lines[i].remove(at);
                }
            }
            9 => {
                let at = char_at(t, &lines[i]);
                let c = *t.pick(&['"', '\\', ':', ',', '|', '\t', '[', ']', '{', '}', '-', ' ', '0', '1', '.', 'e']);
                lines[i].insert(at, c);
            }
            10 => {
                // another declared length
                if let Some(o) = lines[i].find('[') {
                    let e = o + 1 + lines[i][o + 1..].bytes().take_while(u8::is_ascii_digit).count();
                    let r = (*t.pick(&["0", "1", "2", "3", "4", "9", "", "01", "+1", "1,", "2|", "3\t", "1000"])).to_string();
                    lines[i].replace_range(o + 1..e, &r);
                }
            }
            11 => {
                let at = char_at(t, &lines[i]);
                lines[i].truncate(at);
            }
            12 => {
                let f = fragment_line(t);
                let sp = lines[i].len() - lines[i].trim_start_matches(' ').len();
                lines.insert(i, format!("{}{f}", " ".repeat(sp)));
            }
            13 => {
                let at = char_at(t, &lines[i]);
                let rest = lines[i].split_off(at);
                lines.insert(i + 1, rest);
            }
            14 => {
                if i + 1 < n {
                    let l = lines.remove(i + 1);
                    lines[i].push_str(&l);
                }
            }
            _ => {
                let at = char_at(t, &lines[i]);
                let c = gens::any_char(t);
                lines[i].insert(at, c);
            }
        }
    }
    lines.join("\n")
}

fn char_at(t: &mut Tape, s: &str) -> usize {
    let mut i = t.below(s.len() + 1);
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}
