//! Generators. Every random choice goes through the tape.
use crate::engine::Tape;
use crate::util::{V, num};
use toon::StringOrNumberOrBoolOrNull as P;
use toon::options::{DecodeOptions, EncodeOptions, ExpandPathsMode, KeyFoldingMode};

pub const DELIMS: [char; 3] = [',', '|', '\t'];

const WORDS: &[&str] = &[
    "a", "b", "c", "x", "id", "name", "value", "hello", "Alice", "data", "meta", "user", "items", "tags", "k1", "_z",
    "nodes", "Path", "total", "created_at", "Z9", "yes", "on", "é",
];

const SPECIALS: &[&str] = &[
    "", " ", "  ", "true", "false", "null", "True", "NULL", "nil", "~", "-", "--", "- ", "- a", "-a", "- a: 1", "-1",
    "-0", "0", "00", "01", "-01", "007", "1.", ".5", "+1", "1e5", "1E+5", "1e", "1e+", "0x10", "1_000", "1,000",
    "1 2", "0.0", "-0.0", "1.50", "1e400", "-1e400", "1e-400", "NaN", "Infinity", "-Infinity", "inf", "9007199254740993",
    "1:2", "12:30", ":", "::", "a:", ":a", "a: b", "a:b", "a : b", "[", "]", "[]", "[1]", "[1]:", "[2]: x",
    "[2]: hello", "x[1]: a", "x[1]:", "x[2]{a,b}:", "[1]{a}:", "[0]:", "{", "}", "{}", "{a}", "a{b}", "a]b", "a[b",
    "\"", "\"\"", "\"a\"", "a\"b", "\"a", "a\"", "'", "'a'", "\\", "\\\\", "\\n", "a\\", "\\\"", "\n", "a\nb", "\r",
    "\r\n", "a\rb", "\t", "a\tb", "\ta", "a\t", " a", "a ", " a ", "a b", "a  b", ",", "a,b", ",a", "a,", "|", "a|b",
    "|a", "a|", "#", "# c", "//", "/* */", "a.b", ".", "a.", ".a", "a..b", "a.b.c", "@", "$x", "&a", "*a", "!t", "%",
    "`", "\u{0}", "\u{1}", "\u{7}", "\u{8}", "\u{b}", "\u{c}", "\u{1b}", "\u{1f}", "\u{7f}", "\u{80}", "\u{85}",
    "\u{85}a", "a\u{a0}", "\u{a0}", "\u{2028}", "a\u{2029}b", "\u{3000}x", "\u{feff}", "\u{feff}a", "\u{200b}",
    "é", "日本語", "🎉", "e\u{301}", "\u{10ffff}", "ÿ", "ﬀ", "\u{1680}-", "- \u{2003}", "\u{2003}",
];

/// Texts that mean something elsewhere.
const REAL: &[&str] = &[
    "undefined", "None", "__proto__", "constructor", "prototype", "toString", "length", "this", "default", "y", "n", "no",
    "off", "TRUE", "Null", "NULL", "nan", "NAN", "INF", "infinity", ".inf", "-.inf", ".nan", "-inf", "-NaN", "1st", "2024-01-01",
    "2024-01-01T00:00:00Z", "1.2.3", "v1.0", "192.168.0.1", "::1", "<a>", "https://x.y/z?a=b&c#d", "C:\\x", "/etc/x", "=1+1",
    "50%", "$5", "(a)", "a/b", "a;b", "a=b", "<<", "!!str x", "? a", "> a", "...", "---", "--- a", "1/2", "0b1", "0o7", "0xff",
    "1n", "1f", "1L", "1d", "5px", "1,5", "１２", "٣", "½", "²", "−1", "–", "—", "‐ a", "“a”", "a…", "＂", "：", "，", "ｔｒｕｅ",
    "ſ", "İ", "ß", "a\u{ad}b", "\u{200e}a", "\u{202e}a", "\u{fffd}", "\u{fffe}", "\u{e000}", "null\u{0}", "true ", " false",
    "truefalse", "nullx", "xnull", "_true", "true_", "true.false", "null.a", "item", "key", "value", "@type", "$ref", "#text", "_id",
    "a-b", "a_b", "aB", "A", "Ab", "AB",
];

const ALPHA: &[char] = &[
    'a', 'b', 'c', '0', '1', '9', '-', '.', ':', ',', '|', '\t', ' ', '"', '\\', '[', ']', '{', '}', '\n', '\r', '_',
    'e', 'E', '+', '#', '/', 'n', 't', 'r', 'u', 'é', '\u{85}', '\u{a0}', '\u{3000}', '🎉', '\u{0}', '\u{7f}',
    '\u{2028}', '\'',
];

pub fn any_char(t: &mut Tape) -> char {
    match t.weighted(&[4, 4, 2, 2, 1, 1]) {
        0 => (b'a' + t.below(26) as u8) as char,
        1 => *t.pick(ALPHA),
        2 => char::from_u32(t.range(0x20, 0x7e) as u32).unwrap(),
        3 => char::from_u32(t.below(0x100) as u32).unwrap(),
        4 => char::from_u32(t.below(0xd800) as u32).unwrap(),
        _ => char::from_u32(t.range(0xe000, 0x10ffff) as u32).unwrap(),
    }
}

pub fn numeric_like(t: &mut Tape) -> String {
    let mut s = String::new();
    if t.chance(1, 3) {
        s.push(*t.pick(&['-', '-', '+', ' ']));
    }
    let n = t.below(5);
    for _ in 0..n {
        s.push((b'0' + t.below(10) as u8) as char);
    }
    if t.coin() {
        s.push('.');
        let n = t.below(4);
        for _ in 0..n {
            s.push((b'0' + t.below(10) as u8) as char);
        }
    }
    if t.coin() {
        s.push(if t.coin() { 'E' } else { 'e' });
        if t.coin() {
            s.push(*t.pick(&['+', '-']));
        }
        let n = t.below(4);
        for _ in 0..n {
            s.push((b'0' + t.below(10) as u8) as char);
        }
    }
    if t.chance(1, 8) {
        s.push(*t.pick(&[' ', 'x', '.', '_', ':', '\u{85}']));
    }
    s
}

pub fn long_len(t: &mut Tape) -> usize {
    const L: [usize; 19] = [
        64, 63, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 8191, 8193,
    ];
    const XL: [usize; 6] = [16_384, 20_000, 32_768, 65_535, 65_536, 70_000];
    const XXL: [usize; 3] = [131_073, 262_144, 1_048_577];
    if t.chance(1, 60) {
        if t.chance(1, 40) { *t.pick(&XXL) } else { *t.pick(&XL) }
    } else {
        *t.pick(&L)
    }
}

pub fn string(t: &mut Tape) -> String {
    match t.weighted(&[10, 10, 6, 5, 3, 3, 1, 2, 2]) {
        8 => (*t.pick(REAL)).to_string(),
        0 => (*t.pick(WORDS)).to_string(),
        1 => (*t.pick(SPECIALS)).to_string(),
        2 => {
            let n = t.below(9);
            (0..n).map(|_| *t.pick(ALPHA)).collect()
        }
        3 => {
            // word, special, word
            let a = *t.pick(WORDS);
            let b = *t.pick(SPECIALS);
            let c = *t.pick(WORDS);
            match t.below(3) {
                0 => format!("{a}{b}"),
                1 => format!("{b}{c}"),
                _ => format!("{a}{b}{c}"),
            }
        }
        4 => {
            let n = t.below(12);
            (0..n).map(|_| any_char(t)).collect()
        }
        5 => numeric_like(t),
        6 => {
            let n = long_len(t);
            let n = n + t.below(3);
            let a = any_char(t);
            let mut s: String = if t.chance(1, 4) {
                // a repeated mixture rather than one repeated character
                let part: Vec<char> = (0..t.range(2, 9)).map(|_| if t.coin() { *t.pick(ALPHA) } else { any_char(t) }).collect();
                part.into_iter().cycle().take(n).collect()
            } else {
                std::iter::repeat_n(a, n.saturating_sub(1)).collect()
            };
            s.push(any_char(t));
            match t.below(4) {
                0 | 1 => {}
                2 => {
                    let b = any_char(t);
                    s.insert(0, b);
                }
                _ => {
                    // something special far in
                    let mut at = t.below(s.len() + 1);
                    while !s.is_char_boundary(at) {
                        at -= 1;
                    }
                    let b = *t.pick(SPECIALS);
                    s.insert_str(at, b);
                }
            }
            s
        }
        _ => {
            let n = t.range(1, 6);
            let mut s = String::new();
            for i in 0..n {
                if i > 0 {
                    s.push(' ');
                }
                s.push_str(t.pick(WORDS));
            }
            s
        }
    }
}

pub fn identifier(t: &mut Tape) -> String {
    match t.weighted(&[8, 3, 2, 1]) {
        0 => (*t.pick(&["a", "b", "c", "d", "e", "x", "id", "name", "k", "data", "meta", "_p", "A", "u1"])).to_string(),
        1 => {
            let mut s = String::new();
            s.push(*t.pick(&['a', 'z', 'A', 'Z', '_', 'm']));
            let n = t.below(6);
            for _ in 0..n {
                s.push(*t.pick(&['a', 'z', 'A', 'Z', '_', '0', '9', 'q']));
            }
            s
        }
        2 => (*t.pick(&["true", "false", "null", "_", "__", "_1", "a1", "e5", "NaN", "Infinity", "inf", "__proto__", "constructor", "undefined", "length", "None", "TRUE", "Null", "aB"])).to_string(),
        _ => {
            let n = long_len(t);
            "k".repeat(n)
        }
    }
}

pub fn dotted(t: &mut Tape) -> String {
    let n = t.range(2, 4);
    let mut v = vec![];
    for _ in 0..n {
        v.push(if t.chance(1, 30) { identifier(t) } else { (*t.pick(&["a", "b", "c", "d", "x", "id"])).to_string() });
    }
    v.join(".")
}

/// Dotted, with one segment somewhere that is no identifier.
pub fn nearly_dotted(t: &mut Tape) -> String {
    let n = t.range(2, 5);
    let at = t.below(n);
    let odd = *t.pick(&["1", "2b", "", "0", "10", "é", "a-b", "b c", "9_", "-", "$", "[0]"]);
    let v: Vec<&str> = (0..n).map(|i| if i == at { odd } else { *t.pick(&["a", "b", "c", "_", "x1"]) }).collect();
    v.join(".")
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Keys {
    /// Anything.
    Any,
    /// Anything but keys that path expansion would split.
    NotExpandable,
    /// Mostly identifiers and dotted paths over a small alphabet.
    Paths,
}

pub fn key(t: &mut Tape, k: Keys) -> String {
    match k {
        Keys::Any => match t.weighted(&[12, 5, 2, 1]) {
            0 => identifier(t),
            1 => string(t),
            2 if t.chance(1, 4) => nearly_dotted(t),
            2 => dotted(t),
            _ => numeric_like(t),
        },
        Keys::NotExpandable => {
            let s = match t.weighted(&[14, 4, 1, 1]) {
                0 => identifier(t),
                1 => string(t),
                2 if t.coin() => nearly_dotted(t),
                2 => (*t.pick(&["a.", ".a", "a..b", "1.a", "a.1", "a-b", "a.b-c", "a.é", "..", "."])).to_string(),
                _ => numeric_like(t),
            };
            if crate::util::is_expandable(&s) { s.replace('.', "-") } else { s }
        }
        Keys::Paths => match t.weighted(&[6, 6, 2, 1]) {
            0 => (*t.pick(&["a", "b", "c", "d", "x"])).to_string(),
            1 => {
                let n = t.range(2, 4);
                let v: Vec<String> =
                    (0..n).map(|_| if t.chance(1, 40) { identifier(t) } else { (*t.pick(&["a", "b", "c", "d"])).to_string() }).collect();
                v.join(".")
            }
            2 if t.coin() => nearly_dotted(t),
            2 => (*t.pick(&["a.", ".a", "a..b", "1.a", "a.1", "a-b", "a.b-c", "a.é", "a b.c", "a.b c", "_", "_.a", "A.b"]))
                .to_string(),
            _ => string(t),
        },
    }
}

pub fn number(t: &mut Tape) -> f64 {
    let x = match t.weighted(&[8, 6, 4, 5, 3, 3, 2]) {
        0 => t.below(10) as f64,
        1 => t.below(100_000) as f64,
        2 => t.below(1_000_000) as f64 / *t.pick(&[10.0, 100.0, 1000.0, 8.0, 3.0]),
        3 => *t.pick(&[
            0.0, 0.5, 0.1, 0.2, 0.3, 1e-7, 1e-6, 1e-5, 1e20, 1e21, 1e22, 1e15, 1e16, 1e17, 123_456_789_012_345_680.0,
            9_007_199_254_740_991.0, 9_007_199_254_740_992.0, 9_007_199_254_740_994.0, 9_223_372_036_854_775_807.0,
            18_446_744_073_709_551_615.0, 4_294_967_296.0, 2_147_483_648.0, 1e100, 1e300, f64::MAX,
            f64::MIN_POSITIVE, 5e-324, 1e-300, 2.225e-308, 1.797e308, f64::EPSILON, 1.0 + f64::EPSILON,
            1.5e-9, 123.456, 0.000_001_234, 99.99, 3.141_592_653_589_793,
        ]),
        4 => {
            let x = f64::from_bits(t.bits());
            if x.is_finite() { x } else { 1.25 }
        }
        5 => t.bits() as i64 as f64,
        _ => {
            if t.coin() {
                let m = t.below(1000) as f64;
                let e = t.below(600) as i32 - 300;
                format!("{m}e{e}").parse().unwrap()
            } else {
                // as many digits as come, with the point moved a little
                let d = t.range(1, 17);
                let m = t.bits() % 10u64.pow(d as u32);
                let e = t.range(0, 40) as i32 - 30;
                format!("{m}e{e}").parse().unwrap()
            }
        }
    };
    if t.chance(1, 4) && x != 0.0 { -x } else if x == 0.0 { 0.0 } else { x }
}

pub fn prim(t: &mut Tape) -> P {
    match t.weighted(&[8, 6, 2, 2]) {
        0 => P::String(string(t)),
        1 => P::Number(number(t)),
        2 => P::Bool(t.coin()),
        _ => P::Null,
    }
}

fn prim_v(t: &mut Tape) -> V {
    V::Primitive(prim(t))
}

pub struct Vg {
    pub keys: Keys,
    pub max_depth: usize,
    /// levels of the rare deep values
    deepest: usize,
    /// Non-finite numbers and negative zero too.
    pub raw_numbers: bool,
    budget: isize,
}

impl Vg {
    pub fn new(keys: Keys, max_depth: usize) -> Self {
        // (path expansion stops at 256 steps, two for an object; JSON text at 128 levels)
        let deepest = if max_depth < 6 { 110 } else { 120 };
        Vg { keys, max_depth, deepest, raw_numbers: false, budget: 0 }
    }

    fn p(&mut self, t: &mut Tape) -> V {
        self.budget -= 1;
        if self.raw_numbers && t.chance(1, 4) {
            return V::Primitive(P::Number(*t.pick(&[-0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0])));
        }
        prim_v(t)
    }

    fn uniq_key(&mut self, t: &mut Tape, seen: &[(String, V)]) -> String {
        let mut k = key(t, self.keys);
        let mut n = 0;
        while seen.iter().any(|(l, _)| *l == k) {
            n += 1;
            k = format!("{}{}", k.trim_end_matches(|c: char| c.is_ascii_digit()), n);
            if self.keys == Keys::NotExpandable && crate::util::is_expandable(&k) {
                k = k.replace('.', "-");
            }
            if n > 400 {
                k = format!("u{}", seen.len());
                if seen.iter().any(|(l, _)| *l == k) {
                    k = format!("\u{1}{}", seen.len());
                }
                break;
            }
        }
        k
    }

    fn field_keys(&mut self, t: &mut Tape, n: usize) -> Vec<String> {
        let mut o: Vec<(String, V)> = vec![];
        for _ in 0..n {
            let k = self.uniq_key(t, &o);
            o.push((k, crate::util::null()));
        }
        o.into_iter().map(|(k, _)| k).collect()
    }

    pub fn object(&mut self, t: &mut Tape, d: usize) -> V {
        let n = if t.chance(1, 60) { t.count(4, 129) } else { t.below(5) };
        let mut o = vec![];
        for _ in 0..n {
            if self.budget <= 0 {
                break;
            }
            let k = self.uniq_key(t, &o);
            let v = self.value(t, d);
            o.push((k, v));
        }
        V::Object(o)
    }

    /// Rows that are a table, or just miss being one.
    pub fn rows(&mut self, t: &mut Tape, d: usize) -> V {
        let w = if t.chance(1, 40) { t.count(4, 65).max(1) } else { t.range(1, 4) };
        let keys = self.field_keys(t, w);
        // each row holds the keys
        let bytes = keys.iter().map(String::len).sum::<usize>() + 1;
        let cap = (2000 / w.max(1)).min(1_000_000 / bytes).max(2);
        let n = t.count(5, cap).max(1);
        let permute = t.chance(1, 4);
        let mut rows = vec![];
        for _ in 0..n {
            let mut row: Vec<(String, V)> = vec![];
            for k in &keys {
                let v = self.p(t);
                row.push((k.clone(), v));
            }
            if permute && w > 1 {
                match t.below(4) {
                    0 => {}
                    1 => {
                        let i = t.below(w);
                        row.rotate_left(i);
                        if t.coin() {
                            row.swap(0, w - 1);
                        }
                    }
                    2 => {
                        let i = t.below(w);
                        let j = t.below(w);
                        row.swap(i, j);
                    }
                    _ => {
                        for i in (1..w).rev() {
                            let j = t.below(i + 1);
                            row.swap(i, j);
                        }
                    }
                }
            }
            rows.push(row);
        }
        // break one row
        if t.chance(1, 3) {
            let i = t.below(n);
            let j = t.below(w);
            match t.below(6) {
                0 => {
                    rows[i].remove(j);
                }
                1 => {
                    let k = self.uniq_key(t, &rows[i].clone());
                    let v = self.p(t);
                    rows[i].push((k, v));
                }
                2 => rows[i][j].1 = V::Array(vec![]),
                3 => rows[i][j].1 = V::Object(vec![]),
                4 => {
                    let k = self.uniq_key(t, &rows[i].clone());
                    rows[i][j].0 = k;
                }
                _ => {
                    let v = self.value(t, d.saturating_sub(1));
                    rows[i][j].1 = v;
                }
            }
        }
        let mut out: Vec<V> = rows.into_iter().map(V::Object).collect();
        if t.chance(1, 12) {
            let i = t.below(out.len() + 1);
            let v = self.value(t, 0);
            out.insert(i, v);
        }
        V::Array(out)
    }

    fn prim_array(&mut self, t: &mut Tape) -> V {
        let n = t.count(5, 1100);
        V::Array((0..n).map(|_| self.p(t)).collect())
    }

    pub fn array(&mut self, t: &mut Tape, d: usize) -> V {
        match t.weighted(&[6, 6, 3, 4, 1]) {
            0 => self.prim_array(t),
            1 => self.rows(t, d),
            2 => {
                let n = t.count(4, 40);
                V::Array((0..n).map(|_| self.prim_array_small(t)).collect())
            }
            3 => {
                let n = t.count(4, 40);
                let mut v = vec![];
                for _ in 0..n {
                    if self.budget <= 0 {
                        break;
                    }
                    let x = self.value(t, d);
                    v.push(x);
                }
                V::Array(v)
            }
            _ => {
                let n = t.below(4);
                V::Array((0..n).map(|_| V::Object(vec![])).collect())
            }
        }
    }

    fn prim_array_small(&mut self, t: &mut Tape) -> V {
        let n = t.below(4);
        V::Array((0..n).map(|_| self.p(t)).collect())
    }

    /// A chain of single-key objects, as key folding looks for.
    pub fn chain(&mut self, t: &mut Tape, d: usize) -> V {
        let n = t.range(1, 6);
        let mut v = match t.weighted(&[3, 2, 1]) {
            0 => self.p(t),
            1 => self.value(t, d.saturating_sub(1)),
            _ => V::Object(vec![]),
        };
        for _ in 0..n {
            let k = if t.chance(1, 8) { key(t, self.keys) } else { identifier(t) };
            v = V::Object(vec![(k, v)]);
        }
        v
    }

    pub fn value(&mut self, t: &mut Tape, d: usize) -> V {
        if d == 0 || self.budget <= 0 {
            return self.p(t);
        }
        self.budget -= 1;
        let chains = if self.keys == Keys::Paths { 4 } else { 1 };
        match t.weighted(&[6, 5, 5, chains]) {
            0 => self.p(t),
            1 => self.object(t, d - 1),
            2 => self.array(t, d - 1),
            _ => self.chain(t, d - 1),
        }
    }

    /// A whole value; the root is usually a container.
    pub fn root(&mut self, t: &mut Tape) -> V {
        let mut v = self.any_root(t);
        if self.keys == Keys::Paths && t.chance(1, 3) {
            for _ in 0..t.range(1, 2) {
                self.plant(t, &mut v);
            }
        }
        v
    }

    /// A literal dotted key next to the objects on its path: `a.b` beside `a`.
    fn plant(&mut self, t: &mut Tape, v: &mut V) {
        // down to the object that gets the key, then along the path
        let mut at = v;
        if t.chance(1, 3) {
            for _ in 0..t.below(3) {
                let inside = match at {
                    V::Object(o) => o.iter().position(|(_, x)| matches!(x, V::Object(o) if !o.is_empty())),
                    V::Array(a) => a.iter().position(|x| matches!(x, V::Object(o) if !o.is_empty())),
                    V::Primitive(_) => None,
                };
                let Some(i) = inside else { break };
                at = match at {
                    V::Object(o) => &mut o[i].1,
                    V::Array(a) => &mut a[i],
                    V::Primitive(_) => unreachable!(),
                };
            }
        }
        let V::Object(top) = at else { return };
        let n = t.range(2, 8);
        let mut segs: Vec<String> = vec![];
        let mut cur: &[(String, V)] = top;
        while segs.len() < n {
            // objects first: paths are to be long
            let objects: Vec<usize> =
                (0..cur.len()).filter(|&i| matches!(&cur[i].1, V::Object(o) if !o.is_empty())).collect();
            if cur.is_empty() {
                break;
            }
            let i = if objects.is_empty() { t.below(cur.len()) } else { *t.pick(&objects) };
            segs.push(cur[i].0.clone());
            match &cur[i].1 {
                V::Object(o) => cur = o,
                _ => break,
            }
        }
        if segs.len() > 2 && t.chance(1, 5) {
            // the path as seen from further down
            segs.drain(..t.range(1, segs.len() - 2));
        }
        let key = segs.join(".");
        if segs.len() < 2 || top.iter().any(|(k, _)| *k == key) {
            return;
        }
        let x = match t.weighted(&[4, 1, 1, 1]) {
            0 => self.p(t),
            1 => V::Object(vec![]),
            2 => V::Object(vec![(identifier_short(t), self.p(t))]),
            _ => V::Array(vec![self.p(t)]),
        };
        let i = t.below(top.len() + 1);
        top.insert(i, (key, x));
    }

    /// Chains that end in objects in which further chains start.
    fn fold_tree(&mut self, t: &mut Tape, d: usize) -> V {
        const K: [&str; 6] = ["a", "b", "c", "d", "x", "_"];
        let n = t.range(1, 3);
        let at = t.below(n);
        let first = t.below(K.len());
        let mut o = vec![];
        for i in 0..n {
            let mut v = if i == at && d > 0 { self.fold_tree(t, d - 1) } else if t.chance(1, 6) { V::Object(vec![]) } else { self.p(t) };
            if i == at || t.chance(1, 4) {
                for _ in 0..t.below(3) {
                    v = V::Object(vec![((*t.pick(&K)).to_string(), v)]);
                }
            }
            o.push((K[(first + i) % K.len()].to_string(), v));
        }
        V::Object(o)
    }

    fn any_root(&mut self, t: &mut Tape) -> V {
        self.budget = if t.chance(1, 12) { 300 } else { 40 };
        let d = t.range(1, self.max_depth);
        if self.keys == Keys::Paths && t.chance(1, 12) {
            let d = t.range(1, 4);
            let mut v = self.fold_tree(t, d);
            for _ in 0..t.range(0, 2) {
                self.plant(t, &mut v);
            }
            return if t.chance(1, 6) { V::Array(vec![v]) } else { v };
        }
        if t.chance(1, 60) {
            return self.deep(t);
        }
        if t.chance(1, 500) {
            return self.large(t);
        }
        match t.weighted(&[8, 5, 1, 2]) {
            0 => self.object(t, d),
            1 => self.array(t, d),
            2 => self.p(t),
            _ => {
                // an object of a single interesting field, to keep shapes clean
                let k = key(t, self.keys);
                let v = match t.below(4) {
                    0 => self.rows(t, d),
                    1 => self.chain(t, d),
                    2 => self.array(t, d),
                    _ => {
                        let inner = self.object(t, d);
                        V::Array(vec![inner])
                    }
                };
                V::Object(vec![(k, v)])
            }
        }
    }

    /// More members, items, rows or columns than any small case has.
    fn large(&mut self, t: &mut Tape) -> V {
        const N: [usize; 12] = [300, 500, 512, 513, 999, 1000, 1001, 1024, 1025, 2048, 3000, 4100];
        self.budget = 1 << 20;
        if t.chance(1, 24) {
            return self.huge(t);
        }
        let n = *t.pick(&N);
        let pool: Vec<V> = (0..t.range(1, 6))
            .map(|_| match self.p(t) {
                // thousands of copies of it are to fit in memory
                V::Primitive(P::String(s)) if s.len() > 300 => V::Primitive(P::String(s.chars().take(75).collect())),
                v => v,
            })
            .collect();
        // one odd item somewhere, often near the end
        let at = if t.coin() { n - 1 - t.below(3) } else { t.below(n) };
        let odd = match t.below(4) {
            0 => V::Array(vec![]),
            1 => V::Object(vec![]),
            2 => self.p(t),
            _ => pool[0].clone(),
        };
        let item = |t: &mut Tape, i: usize| if i == at { odd.clone() } else { t.pick(&pool).clone() };
        let big = match t.below(5) {
            0 | 1 => V::Array((0..n).map(|i| item(t, i)).collect()),
            2 => {
                let w = t.range(1, 3);
                let n = n.min(2100);
                let at = at.min(n - 1);
                let mut rows: Vec<V> =
                    (0..n).map(|i| V::Object((0..w).map(|j| (format!("c{j}"), if j == w - 1 { item(t, i) } else { t.pick(&pool).clone() })).collect())).collect();
                if let V::Object(row) = &mut rows[at] {
                    match t.below(5) {
                        0 => row[w - 1].0 = "d".into(),
                        1 => row.push(("d".into(), pool[0].clone())),
                        2 => {
                            row.pop();
                        }
                        3 => row.reverse(),
                        _ => {}
                    }
                }
                V::Array(rows)
            }
            3 => {
                let n = n.min(1100);
                let mut o: Vec<(String, V)> = (0..n).map(|i| (format!("k{i}"), item(t, i))).collect();
                if self.keys == Keys::Paths {
                    // chains to fold among them, and a key that meets one
                    for _ in 0..t.range(1, 4) {
                        let i = t.below(o.len());
                        o[i].1 = self.chain(t, 2);
                    }
                    let mut v = V::Object(o);
                    for _ in 0..t.below(4) {
                        self.plant(t, &mut v);
                    }
                    v
                } else {
                    V::Object(o)
                }
            }
            _ => {
                // a wide table
                let n = n.min(1100);
                let rows = t.range(1, 2);
                V::Array((0..rows).map(|_| V::Object((0..n).map(|i| (format!("k{i}"), t.pick(&pool).clone())).collect())).collect())
            }
        };
        match t.below(3) {
            0 => big,
            1 => V::Object(vec![("a".into(), big), ("b".into(), pool[0].clone())]),
            _ => V::Array(vec![pool[0].clone(), V::Object(vec![("a".into(), big)])]),
        }
    }

    /// More items or rows than 16 bits can count.
    fn huge(&mut self, t: &mut Tape) -> V {
        let n = *t.pick(&[65_535, 65_536, 65_537, 66_000, 70_001]);
        let pool: Vec<V> = (0..t.range(1, 4)).map(|i| num(i as f64)).collect();
        let item = |i: usize| pool[i % pool.len()].clone();
        let big = match t.below(3) {
            0 => V::Array((0..n).map(item).collect()),
            1 => V::Array((0..n).map(|i| V::Object(vec![("c".into(), item(i))])).collect()),
            _ => {
                let mut a: Vec<V> = (0..n).map(item).collect();
                a.push(V::Array(vec![]));
                V::Array(a)
            }
        };
        if t.coin() { big } else { V::Object(vec![("a".into(), big), ("b".into(), pool[0].clone())]) }
    }

    /// Deep nesting, mixing objects and arrays.
    fn deep(&mut self, t: &mut Tape) -> V {
        let n = t.range(4, self.deepest);
        let mut v = match t.below(4) {
            0 => V::Array(vec![]),
            1 => V::Object(vec![]),
            _ => self.p(t),
        };
        let style = t.below(4);
        // a long path of identifiers, with few members beside it
        let plain = t.coin();
        let (beside, before) = if plain { (40, 60) } else { (6, 8) };
        for i in 0..n {
            let obj = match style {
                0 => true,
                1 => false,
                2 => i % 2 == 0,
                _ => t.coin(),
            };
            v = if obj {
                let k = if plain { (*t.pick(&["a", "b", "k", "_"])).to_string() } else { identifier_short(t) };
                let mut o = vec![(k, v)];
                if t.chance(1, beside) {
                    o.push(("zz".into(), self.p(t)));
                }
                if t.chance(1, before) {
                    o.insert(0, ("aa".into(), self.p(t)));
                }
                V::Object(o)
            } else {
                let mut a = vec![v];
                if t.chance(1, 6) {
                    a.push(self.p(t));
                }
                if t.chance(1, 8) {
                    a.insert(0, V::Object(vec![]));
                }
                V::Array(a)
            };
        }
        v
    }
}

fn identifier_short(t: &mut Tape) -> String {
    (*t.pick(&["a", "b", "c", "x y", "k", "z-1"])).to_string()
}

pub fn value(t: &mut Tape) -> V {
    Vg::new(Keys::Any, 6).root(t)
}

#[derive(Clone, Copy, Debug)]
pub struct Eo {
    pub indent: usize,
    pub delim: char,
    pub fold: bool,
    pub flatten: Option<usize>,
}

impl Eo {
    pub fn to(self) -> EncodeOptions {
        EncodeOptions {
            indent: Some(self.indent),
            delimiter: Some(self.delim),
            key_folding: Some(if self.fold { KeyFoldingMode::Safe } else { KeyFoldingMode::Off }),
            flatten_depth: self.flatten,
            replacer: None,
        }
    }
}

pub fn indent(t: &mut Tape) -> usize {
    match t.weighted(&[6, 2, 2, 2, 1]) {
        0 => 2,
        1 => 1,
        2 => 4,
        3 => 3,
        _ => t.range(5, 16),
    }
}

/// Zero too: decoding without levels.
pub fn indent_or_none(t: &mut Tape) -> usize {
    if t.chance(1, 16) { 0 } else { indent(t) }
}

pub fn delim(t: &mut Tape) -> char {
    DELIMS[t.weighted(&[4, 2, 2])]
}

pub fn enc_opts(t: &mut Tape, fold: bool) -> Eo {
    let flatten = if fold {
        match t.weighted(&[3, 4, 1]) {
            0 => None,
            1 => Some(t.below(7)),
            _ => Some(*t.pick(&[usize::MAX, 1000, 16, 17])),
        }
    } else {
        None
    };
    Eo { indent: indent(t), delim: delim(t), fold, flatten }
}

pub fn dec(indent: usize, strict: bool, expand: bool) -> DecodeOptions {
    DecodeOptions {
        indent: Some(indent),
        strict: Some(strict),
        expand_paths: Some(if expand { ExpandPathsMode::Safe } else { ExpandPathsMode::Off }),
    }
}
