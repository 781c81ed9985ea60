//! C01-C04, C13, C17-C20: the encoder, alone and with the decoder.
use crate::engine::{CheckResult, Ctx, Prop, Tape, no_enum, no_enum_count};
use crate::gens::{self, DELIMS, Eo, Keys, Vg};
use crate::model_enc as me;
use crate::util::*;
use std::sync::{Arc, Mutex};
use toon::StringOrNumberOrBoolOrNull as P;
use toon::options::{EncodeOptions, PathSegment};
use toon::{encode, encode_lines, encode_stream_events, try_decode};

pub fn opts_text(o: &Eo) -> String {
    format!(
        "indent={} delimiter={:?} folding={}{}",
        o.indent,
        o.delim,
        o.fold,
        o.flatten.map_or(String::new(), |n| format!(" flatten_depth={n}"))
    )
}

pub fn interesting(v: &V) -> bool {
    nodes(v) > 2
        || any_string(v, &|s| me::must_quote(s, ',') || !s.is_ascii())
        || any_key(v, &|k| !is_identifier(k))
}

fn shape_labels(v: &V, c: &mut Ctx) {
    c.cond("has table", any(v, &|x| matches!(x, V::Array(a) if is_table(a))));
    c.cond(
        "has mixed or nested array",
        any(v, &|x| matches!(x, V::Array(a) if !is_table(a) && a.iter().any(|y| !matches!(y, V::Primitive(_))))),
    );
    c.cond("has inline array", any(v, &|x| matches!(x, V::Array(a) if !a.is_empty() && a.iter().all(|y| matches!(y, V::Primitive(_))))));
    c.cond("has empty container", any(v, &|x| matches!(x, V::Array(a) if a.is_empty()) || matches!(x, V::Object(o) if o.is_empty())));
    c.cond("has string that needs quotes", any_string(v, &|s| me::must_quote(s, ',')));
    c.cond("has non-identifier key", any_key(v, &|k| !is_identifier(k)));
    c.cond("nesting over 8", depth(v) > 8);
}

// ---------------------------------------------------------------- C01

fn trip(v: &V, eo: &Eo, expand: bool) -> CheckResult {
    let text = encode(v.clone(), Some(eo.to()));
    let want = round_trip_image(v);
    for strict in [true, false] {
        match try_decode(&text, Some(gens::dec(eo.indent, strict, expand))) {
            Err(e) => {
                return Err(format!("the encoder's output does not decode (strict={strict}): {e}\nvalue: {}\noptions: {}\ntext:\n{text}", clip(&show(v), 3000), opts_text(eo)));
            }
            Ok(got) if !same(&got, &want) => {
                return Err(format!(
                    "round trip changes the value (strict={strict})\nvalue:  {}\nresult: {}\noptions: {}\ntext:\n{text}",
                    clip(&show(&want), 3000),
                    clip(&show(&got), 3000),
                    opts_text(eo)
                ));
            }
            Ok(_) => {}
        }
    }
    Ok(())
}

fn c01(t: &mut Tape, c: &mut Ctx) -> CheckResult {
    let eo = gens::enc_opts(t, false);
    let v = gens::value(t);
    if interesting(&v) {
        c.nontrivial(&(show(&v), eo.indent, eo.delim));
    }
    shape_labels(&v, c);
    c.describe(|| format!("{}\n{}", opts_text(&eo), show(&v)));
    trip(&v, &eo, false)
}

const ENUM_ALPHA: [char; 36] = [
    'a', '0', '1', '-', '.', ':', ',', '|', '\t', ' ', '"', '\\', '[', ']', '{', '}', '\n', '\r', '_', 'e', 'E', '+',
    '#', 'n', 't', 'é', '\u{85}', '\u{a0}', '\u{3000}', '🎉', '\u{0}', '\u{7f}', '\u{2028}', '\'', '/', '9',
];

fn n_short(len: u32) -> u64 {
    (0..=len).map(|k| (ENUM_ALPHA.len() as u64).pow(k)).sum()
}
fn short(mut i: u64) -> String {
    let n = ENUM_ALPHA.len() as u64;
    let mut len = 0;
    while i >= n.pow(len) {
        i -= n.pow(len);
        len += 1;
    }
    let mut s = String::new();
    for _ in 0..len {
        s.push(ENUM_ALPHA[(i % n) as usize]);
        i /= n;
    }
    s
}
fn short_count(thorough: bool) -> u64 {
    n_short(if thorough { 3 } else { 2 }) * 3
}

/// A string in each of its positions.
fn positions(s: &str, as_key: bool) -> Vec<V> {
    let x = || st(s);
    let o = |k: &str, v: V| V::Object(vec![(k.to_string(), v)]);
    let mut v = vec![
        x(),
        o("k", x()),
        o("k", V::Array(vec![x()])),
        o("k", V::Array(vec![x(), x(), num(1.0)])),
        V::Array(vec![x()]),
        V::Array(vec![num(1.0), x()]),
        V::Array(vec![x(), V::Array(vec![]), x()]),
        V::Array(vec![V::Array(vec![x()]), V::Array(vec![x(), x()])]),
        V::Array(vec![o("k", x()), o("k", num(2.0))]),
        V::Array(vec![
            V::Object(vec![("k".into(), x()), ("l".into(), x())]),
            V::Object(vec![("k".into(), num(1.0)), ("l".into(), null())]),
        ]),
        V::Array(vec![V::Object(vec![("k".into(), x()), ("l".into(), V::Array(vec![]))])]),
        V::Array(vec![V::Object(vec![("k".into(), V::Array(vec![x()])), ("l".into(), x())])]),
        V::Array(vec![o("k", V::Array(vec![o("m", x())])), x()]),
    ];
    if as_key {
        v.extend([
            o(s, num(1.0)),
            o(s, x()),
            o(s, V::Object(vec![])),
            o(s, o(s, x())),
            o(s, V::Array(vec![])),
            o(s, V::Array(vec![x()])),
            o(s, V::Array(vec![x(), V::Array(vec![x()])])),
            o(s, V::Array(vec![o(s, x()), o(s, num(1.0))])),
            V::Array(vec![o(s, x())]),
            V::Array(vec![o(s, V::Array(vec![x()]))]),
            V::Array(vec![o(s, V::Array(vec![o(s, x())])), null()]),
            V::Array(vec![o(s, V::Array(vec![V::Array(vec![])])), null()]),
            V::Array(vec![o(s, V::Object(vec![])), x()]),
            V::Array(vec![o(s, o(s, V::Array(vec![x()]))), x()]),
            V::Array(vec![V::Object(vec![("k".into(), x()), (format!("{s}x"), x()), (format!("x{s}"), x())])]),
        ]);
    }
    v
}

fn c01_enum(i: u64, c: &mut Ctx) -> CheckResult {
    let s = short(i / 3);
    let delim = DELIMS[(i % 3) as usize];
    c.label("enumerated short string");
    c.nontrivial(&(&s, delim));
    c.describe(|| format!("string {s:?} with delimiter {delim:?} in every position"));
    for v in positions(&s, true) {
        trip(&v, &Eo { indent: 2, delim, fold: false, flatten: None }, false)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C02

fn c02(t: &mut Tape, c: &mut Ctx) -> CheckResult {
    let eo = gens::enc_opts(t, true);
    let v = Vg::new(Keys::NotExpandable, 5).root(t);
    let folded = any_key_folded(&v, &eo);
    if folded {
        c.nontrivial(&(show(&v), eo.indent, eo.delim, eo.flatten));
    }
    c.cond("a key was folded", folded);
    shape_labels(&v, c);
    c.describe(|| format!("{}\n{}", opts_text(&eo), show(&v)));
    trip(&v, &eo, true)
}

fn any_key_folded(v: &V, eo: &Eo) -> bool {
    me::encode(v, eo) != me::encode(v, &Eo { fold: false, ..*eo })
}

/// Objects and arrays over a small set of shapes, enumerated.
fn small_value(i: &mut u64, d: usize) -> V {
    let kinds = if d == 0 { 2 } else { 7 };
    let k = *i % kinds;
    *i /= kinds;
    let sub = |i: &mut u64| small_value(i, d - 1);
    match k {
        0 => num(1.0),
        1 => V::Object(vec![]),
        2 => V::Object(vec![("a".into(), sub(i))]),
        3 => V::Object(vec![("a".into(), sub(i)), ("b".into(), sub(i))]),
        4 => V::Array(vec![sub(i)]),
        5 => V::Array(vec![sub(i), sub(i)]),
        _ => V::Object(vec![("b".into(), sub(i)), ("c-d".into(), num(2.0))]),
    }
}
const FLATTEN: [Option<usize>; 4] = [None, Some(2), Some(3), Some(1)];
fn c02_count(thorough: bool) -> u64 {
    4 * if thorough { 200_000 } else { 12_000 }
}
fn c02_enum(i: u64, c: &mut Ctx) -> CheckResult {
    let flatten = FLATTEN[(i % 4) as usize];
    let mut j = i / 4;
    // spread over the space of trees of depth 4
    j = j.wrapping_mul(2_654_435_761).wrapping_add(j >> 3);
    let v = small_value(&mut j, 5);
    let eo = Eo { indent: 2, delim: ',', fold: true, flatten };
    c.label("small tree");
    if any_key_folded(&v, &eo) {
        c.nontrivial(&(show(&v), flatten));
    }
    c.describe(|| format!("{}\n{}", opts_text(&eo), show(&v)));
    trip(&v, &eo, true)
}

// ---------------------------------------------------------------- C03

fn settle(v: V) -> V {
    // strings whose quoting is left open are out of scope here
    map_strings(v, &|s| if me::quoting_open(&s) { format!("z{s}") } else { s })
}

fn compare_lines(v: &V, eo: &Eo) -> CheckResult {
    let want = me::encode(v, eo);
    let got = encode_lines(v.clone(), Some(eo.to()));
    if got != want {
        return Err(format!(
            "not the canonical text: {}\nvalue: {}\noptions: {}\nencoder:\n{}\nreference:\n{}",
            first_diff(&got.join("\n"), &want.join("\n")),
            clip(&show(v), 3000),
            opts_text(eo),
            clip(&got.join("\n"), 3000),
            clip(&want.join("\n"), 3000)
        ));
    }
    let text = encode(v.clone(), Some(eo.to()));
    if text != want.join("\n") {
        return Err(format!("encode differs from the joined lines of encode_lines\nvalue: {}\noptions: {}\n{text}", clip(&show(v), 3000), opts_text(eo)));
    }
    Ok(())
}

fn c03(t: &mut Tape, c: &mut Ctx) -> CheckResult {
    let fold = t.coin();
    let mut eo = gens::enc_opts(t, fold);
    if t.chance(1, 40) {
        eo.indent = 0;
    }
    let keys = if fold && t.chance(2, 3) { Keys::Paths } else { Keys::Any };
    let v = settle(Vg::new(keys, 6).root(t));
    if interesting(&v) {
        c.nontrivial(&(show(&v), eo.indent, eo.delim, eo.fold, eo.flatten));
    }
    shape_labels(&v, c);
    c.cond("a key was folded", fold && any_key_folded(&v, &eo));
    c.cond("folding on and a dotted key present", fold && any_key(&v, &|k| k.contains('.')));
    c.describe(|| format!("{}\n{}\n{}", opts_text(&eo), show(&v), me::encode(&v, &eo).join("\n")));
    compare_lines(&v, &eo)
}

fn fold_value(i: &mut u64, d: usize) -> V {
    const SETS: [&[&str]; 8] =
        [&["a"], &["b"], &["a", "a.b"], &["a.b", "a"], &["a", "a.b.c"], &["a-b"], &["a.b.c", "a", "x"], &["x", "a"]];
    let kinds = if d == 0 { 3 } else { 12 };
    let k = *i % kinds;
    *i /= kinds;
    match k {
        0 => num(1.0),
        1 => V::Object(vec![]),
        2 => V::Array(vec![num(1.0), num(2.0)]),
        11 => V::Array(vec![fold_value(i, d - 1)]),
        k => V::Object(SETS[(k - 3) as usize].iter().map(|s| ((*s).to_string(), fold_value(i, d - 1))).collect()),
    }
}
fn c03_count(thorough: bool) -> u64 {
    4 * if thorough { 600_000 } else { 30_000 }
}
fn c03_enum(i: u64, c: &mut Ctx) -> CheckResult {
    let flatten = FLATTEN[(i % 4) as usize];
    let mut j = (i / 4).wrapping_mul(2_654_435_761).wrapping_add(i >> 5);
    let v = fold_value(&mut j, 4);
    let eo = Eo { indent: 2, delim: ',', fold: true, flatten };
    c.label("small folding tree");
    if any_key_folded(&v, &eo) {
        c.nontrivial(&(show(&v), flatten));
    }
    c.describe(|| format!("{}\n{}", opts_text(&eo), show(&v)));
    compare_lines(&v, &eo)
}

// ---------------------------------------------------------------- C04

fn line_of(v: V, delim: char) -> Vec<String> {
    encode_lines(v, Some(Eo { indent: 2, delim, fold: false, flatten: None }.to()))
}
fn back(lines: &[String]) -> Result<V, String> {
    try_decode(&lines.join("\n"), None).map_err(|e| format!("the text {lines:?} does not decode: {e}"))
}

fn string_quoting(s: &str, delim: char) -> CheckResult {
    let o = |k: &str, v: V| V::Object(vec![(k.to_string(), v)]);
    // the token of the string in each position, cut out of the text
    let places: [(&str, V, usize, &str, &str); 6] = [
        ("a field", o("k", st(s)), 0, "k: ", ""),
        ("a list item", V::Array(vec![st(s), V::Array(vec![])]), 1, "  - ", ""),
        ("the root", st(s), 0, "", ""),
        ("an inline array", o("k", V::Array(vec![num(1.0), st(s), null()])), 0, "k[3D]: 1D", "Dnull"),
        ("a table row", V::Array(vec![V::Object(vec![("a".into(), st(s)), ("b".into(), num(7.0))])]), 1, "  ", "D7"),
        ("a field on a list item line", V::Array(vec![V::Object(vec![("a".into(), st(s)), ("b".into(), V::Array(vec![]))])]), 1, "  - a: ", ""),
    ];
    for (place, v, line, pre, post) in places {
        let fix = |p: &str| -> String {
            let p = if delim == ',' { p.replace("3D", "3") } else { p.replace("3D", &format!("3{delim}")) };
            p.replace('D', &delim.to_string())
        };
        let (pre, post) = (fix(pre), fix(post));
        let lines = line_of(v.clone(), delim);
        let Some(tok) = lines.get(line).and_then(|l| l.strip_prefix(&pre)).and_then(|l| l.strip_suffix(&post)) else {
            return Err(format!("string {s:?} with delimiter {delim:?} in {place}: unexpected lines {lines:?}"));
        };
        let want = if me::must_quote(s, delim) { me::quoted(s) } else { s.to_string() };
        if tok != want && !(me::quoting_open(s) && (tok == s || tok == me::quoted(s))) {
            return Err(format!("string {s:?} with delimiter {delim:?} in {place} is written {tok:?}, expected {want:?}"));
        }
        let got = back(&lines)?;
        if !same(&got, &v) {
            return Err(format!("string {s:?} in {place} with delimiter {delim:?} is read back as {} from {lines:?}", show(&got)));
        }
    }
    Ok(())
}

fn key_quoting(k: &str, delim: char) -> CheckResult {
    let want = me::key_text(k);
    let d = if delim == ',' { String::new() } else { delim.to_string() };
    let o = |v: V| V::Object(vec![(k.to_string(), v)]);
    let places = [
        ("a field name", o(num(1.0)), 0, format!("{want}: 1")),
        ("an object name", o(V::Object(vec![])), 0, format!("{want}:")),
        ("an array name", o(V::Array(vec![num(1.0)])), 0, format!("{want}[1{d}]: 1")),
        ("a column name", V::Array(vec![V::Object(vec![(k.to_string(), num(1.0)), (format!("{k}_"), num(2.0))])]), 0, format!("[1{d}]{{{want}{delim}{}}}:", me::key_text(&format!("{k}_")))),
        ("a list item's first name", V::Array(vec![o(V::Array(vec![V::Array(vec![])]))]), 1, format!("  - {want}[1{d}]:")),
        ("a list item's table name", V::Array(vec![o(V::Array(vec![V::Object(vec![("q".into(), num(1.0))])]))]), 1, format!("  - {want}[1{d}]{{q}}:")),
    ];
    for (place, v, line, text) in places {
        let lines = line_of(v.clone(), delim);
        if lines.get(line) != Some(&text) {
            return Err(format!("key {k:?} as {place} with delimiter {delim:?}: lines {lines:?}, expected {text:?}"));
        }
        let got = back(&lines)?;
        if !same(&got, &v) {
            return Err(format!("key {k:?} as {place} with delimiter {delim:?} is read back as {} from {lines:?}", show(&got)));
        }
    }
    Ok(())
}

fn number_writing(x: f64) -> CheckResult {
    let lines = line_of(num(x), ',');
    let tok = &lines[0];
    let b = tok.strip_prefix('-').unwrap_or(tok);
    let (int, frac) = b.split_once('.').map_or((b, None), |(a, f)| (a, Some(f)));
    let digits = |s: &str| !s.is_empty() && s.bytes().all(|c| c.is_ascii_digit());
    let canonical = lines.len() == 1
        && digits(int)
        && (int == "0" || !int.starts_with('0'))
        && frac.is_none_or(|f| digits(f) && !f.ends_with('0'));
    if !canonical {
        return Err(format!("number {x:?} is written {tok:?}, not a canonical decimal"));
    }
    match tok.parse::<f64>() {
        Ok(y) if y.to_bits() == x.to_bits() => {}
        y => return Err(format!("number {x:?} is written {tok:?}, which is {y:?}")),
    }
    // as few significant digits as tell the number apart
    let sig = |s: &str| s.trim_start_matches('-').replace('.', "").trim_start_matches('0').trim_end_matches('0').len();
    let sci = format!("{x:e}");
    let shortest = sig(sci.split('e').next().unwrap());
    if sig(tok) != shortest {
        return Err(format!("number {x:?} is written {tok:?} with {} significant digits, {shortest} suffice", sig(tok)));
    }
    for (v, want) in [
        (V::Object(vec![("k".into(), num(x))]), format!("k: {tok}")),
        (V::Array(vec![num(x), num(x)]), format!("[2]: {tok},{tok}")),
    ] {
        let l = line_of(v.clone(), ',');
        if l != [want.clone()] {
            return Err(format!("number {x:?}: lines {l:?}, expected {want:?}"));
        }
        let got = back(&l)?;
        if !same(&got, &v) {
            return Err(format!("number {x:?} is read back as {}", show(&got)));
        }
    }
    Ok(())
}

fn c04(t: &mut Tape, c: &mut Ctx) -> CheckResult {
    let delim = gens::delim(t);
    match t.weighted(&[5, 3, 3]) {
        0 => {
            let s = gens::string(t);
            c.nontrivial(&("s", &s, delim));
            c.cond("string is quoted", me::must_quote(&s, delim));
            c.cond("string is bare", !me::must_quote(&s, delim));
            c.describe(|| format!("string {s:?} delimiter {delim:?}"));
            string_quoting(&s, delim)
        }
        1 => {
            let k = gens::key(t, Keys::Any);
            c.nontrivial(&("k", &k, delim));
            c.cond("key is quoted", !me::bare_key(&k));
            c.cond("key is bare", me::bare_key(&k));
            c.describe(|| format!("key {k:?} delimiter {delim:?}"));
            key_quoting(&k, delim)
        }
        _ => {
            let x = gens::number(t);
            c.label("number");
            c.nontrivial(&("n", x.to_bits()));
            c.describe(|| format!("number {x:?}"));
            number_writing(x)
        }
    }
}

const BLOCK: u64 = 64;
fn c04_chars(thorough: bool) -> u64 {
    if thorough { 0x11_0000 / BLOCK } else { 0x3100 / BLOCK }
}
fn c04_count(thorough: bool) -> u64 {
    short_count(thorough) + c04_chars(thorough)
}
fn c04_enum(i: u64, c: &mut Ctx) -> CheckResult {
    let n = c04_chars(false);
    let m = short_count(false);
    // quick indices first, so that the quick cases are a prefix of the thorough ones
    let (kind, j) = if i < n {
        (0, i)
    } else if i < n + m {
        (1, i - n)
    } else {
        let r = i - n - m;
        let extra = c04_chars(true) - n;
        if r < extra { (0, n + r) } else { (1, m + r - extra) }
    };
    if kind == 0 {
        c.label("block of 64 characters");
        c.nontrivial(&("block", j));
        c.describe(|| format!("characters U+{:04X}.. alone, leading, trailing and inner", j * BLOCK));
        for u in j * BLOCK..(j + 1) * BLOCK {
            let Some(ch) = char::from_u32(u as u32) else { continue };
            for s in [format!("{ch}"), format!("{ch}b"), format!("a{ch}"), format!("a{ch}b")] {
                string_quoting(&s, DELIMS[(u % 3) as usize])?;
                key_quoting(&s, DELIMS[(u % 3) as usize])?;
            }
        }
        Ok(())
    } else {
        let s = short(j / 3);
        let delim = DELIMS[(j % 3) as usize];
        c.label("enumerated short string");
        c.nontrivial(&(&s, delim));
        c.describe(|| format!("string and key {s:?} delimiter {delim:?}"));
        string_quoting(&s, delim)?;
        key_quoting(&s, delim)
    }
}

// ---------------------------------------------------------------- C13

/// A replacer: what to do at a visited node depends on (key, value, path)
/// through a hash, so that the model and the real run take the same decisions.
#[derive(Clone, Debug)]
struct Plan {
    salt: u64,
    /// weights of: keep, drop, substitute, structural change, same value again
    w: [u32; 5],
    root: usize,
}

type Call = (String, String, Vec<String>);

fn seg(p: &PathSegment) -> String {
    match p {
        PathSegment::Key(k) => format!("k{k}"),
        PathSegment::Index(i) => format!("i{i}"),
    }
}

fn hollow(v: &V) -> V {
    match v {
        V::Object(_) => V::Object(vec![]),
        V::Array(_) => V::Array(vec![]),
        V::Primitive(P::String(_)) => st(""),
        V::Primitive(_) => null(),
    }
}

fn decide(plan: &Plan, key: &str, v: &V, path: &[String], level: usize) -> Option<V> {
    let h = crate::engine::hash_str(&format!("{}|{key}|{}|{}", plan.salt, show(v), path.join("/")));
    let mut t = Tape::fresh(h);
    let kind = if path.is_empty() { plan.root } else { t.weighted(&plan.w) };
    match kind {
        0 => Some(v.clone()),
        1 => None,
        2 => Some(match t.below(8) {
            0 => null(),
            1 => num(f64::NAN),
            2 => num(-0.0),
            3 => st(key),
            4 => V::Array(vec![]),
            5 => V::Object(vec![]),
            6 => V::Primitive(P::Number(f64::NEG_INFINITY)),
            _ => V::Primitive(P::Bool(true)),
        }),
        3 if level < 12 => Some(match (t.below(6), v) {
            (0, V::Object(o)) if !o.is_empty() => V::Object(o[1..].to_vec()),
            (1, V::Object(o)) => {
                let mut o = o.clone();
                if o.len() < 12 && !o.iter().any(|(k, _)| k == "new") {
                    o.push(("new".into(), num(f64::INFINITY)));
                }
                V::Object(o)
            }
            (0, V::Array(a)) if !a.is_empty() => V::Array(a[1..].to_vec()),
            (1, V::Array(a)) => {
                let mut a = a.clone();
                a.reverse();
                V::Array(a)
            }
            (2, x) if level < 6 => V::Array(vec![x.clone(), num(-0.0)]),
            (3, x) if level < 6 => V::Object(vec![("w".into(), x.clone()), ("".into(), num(f64::NAN))]),
            // the same members, with nothing in them, or in another order
            (4, V::Object(o)) => V::Object(o.iter().map(|(k, x)| (k.clone(), hollow(x))).collect()),
            (4, V::Array(a)) => V::Array(a.iter().map(hollow).collect()),
            (5, V::Object(o)) => V::Object(o.iter().rev().cloned().collect()),
            (5, V::Array(a)) if a.len() < 12 && level < 3 && nodes(v) < 100 => V::Array(a.iter().chain(a.last()).cloned().collect()),
            (_, x) => x.clone(),
        }),
        _ => Some(v.clone()),
    }
}

fn model_replace(plan: &Plan, v: &V, calls: &mut Vec<Call>) -> V {
    fn children(plan: &Plan, v: V, path: &[String], calls: &mut Vec<Call>) -> V {
        match v {
            V::Primitive(p) => V::Primitive(p),
            V::Object(o) => {
                let mut out = vec![];
                for (k, x) in o {
                    let mut p = path.to_vec();
                    p.push(format!("k{k}"));
                    calls.push((k.clone(), show(&x), p.clone()));
                    if let Some(y) = decide(plan, &k, &x, &p, p.len()) {
                        out.push((k, children(plan, normal(&y), &p, calls)));
                    }
                }
                V::Object(out)
            }
            V::Array(a) => {
                let mut out = vec![];
                for (i, x) in a.into_iter().enumerate() {
                    let mut p = path.to_vec();
                    p.push(format!("i{i}"));
                    calls.push((i.to_string(), show(&x), p.clone()));
                    if let Some(y) = decide(plan, &i.to_string(), &x, &p, p.len()) {
                        out.push(children(plan, normal(&y), &p, calls));
                    }
                }
                V::Array(out)
            }
        }
    }
    let v = normal(v);
    calls.push((String::new(), show(&v), vec![]));
    let root = decide(plan, "", &v, &[], 0).map_or(v, |y| normal(&y));
    children(plan, root, &[], calls)
}

/// Give a member of some object the key of another one.
fn repeat_key(t: &mut Tape, v: &mut V) -> bool {
    match v {
        V::Primitive(_) => false,
        V::Array(a) => {
            if a.is_empty() {
                return false;
            }
            let i = t.below(a.len());
            repeat_key(t, &mut a[i])
        }
        V::Object(o) => {
            if o.len() < 2 || t.chance(1, 3) {
                if o.is_empty() {
                    return false;
                }
                let i = t.below(o.len());
                if repeat_key(t, &mut o[i].1) {
                    return true;
                }
            }
            if o.len() < 2 {
                return false;
            }
            let i = t.below(o.len() - 1);
            let j = t.range(i + 1, o.len() - 1);
            o[j].0 = o[i].0.clone();
            if t.chance(1, 3) {
                o[j].1 = o[i].1.clone();
            }
            true
        }
    }
}

fn c13(t: &mut Tape, c: &mut Ctx) -> CheckResult {
    let fold = t.chance(1, 4);
    let eo = gens::enc_opts(t, fold);
    let plan = Plan {
        salt: t.bits(),
        w: [6, 1 + t.below(3) as u32, 1 + t.below(3) as u32, t.below(4) as u32, 1],
        root: t.weighted(&[5, 1, 1, 2]),
    };
    let mut g = Vg::new(if fold { Keys::Paths } else { Keys::Any }, 4);
    g.raw_numbers = t.chance(1, 3);
    let mut v = g.root(t);
    if t.chance(1, 12) && repeat_key(t, &mut v) {
        c.label("a key occurs twice");
    }
    let mut want_calls = vec![];
    let want = model_replace(&plan, &v, &mut want_calls);
    let changed = !same(&want, &normal(&v));
    if changed && want_calls.len() > 2 {
        c.nontrivial(&(show(&v), plan.salt));
    }
    c.cond("replacement changes the value", changed);
    c.cond("root: None", plan.root == 1);
    c.cond("root: replaced", plan.root > 1);
    c.add("replacer calls", want_calls.len() as u64);
    c.describe(|| format!("{}\nvalue {}\nresult {}\n{} calls", opts_text(&eo), show(&v), show(&want), want_calls.len()));

    let calls: Arc<Mutex<Vec<Call>>> = Arc::default();
    let opts = || {
        let (calls, plan) = (calls.clone(), plan.clone());
        let mut o: EncodeOptions = eo.to();
        o.replacer = Some(Arc::new(move |k: &str, x: &V, p: &[PathSegment]| {
            let path: Vec<String> = p.iter().map(seg).collect();
            calls.lock().unwrap().push((k.to_string(), show(x), path.clone()));
            decide(&plan, k, x, &path, path.len())
        }));
        o
    };
    let got = encode(v.clone(), Some(opts()));
    let got_calls = std::mem::take(&mut *calls.lock().unwrap());
    if got_calls != want_calls {
        let i = (0..got_calls.len().max(want_calls.len())).find(|&i| got_calls.get(i) != want_calls.get(i)).unwrap();
        return Err(format!(
            "the replacer is not called as documented: call {i} is {:?}, expected {:?}\nvalue {}",
            got_calls.get(i), want_calls.get(i), clip(&show(&v), 2000)
        ));
    }
    let plain = encode(want.clone(), Some(eo.to()));
    if got != plain {
        return Err(format!(
            "encoding with the replacer differs from encoding the replaced value: {}\nvalue {}\nreplaced {}\ngot:\n{got}\nexpected:\n{plain}",
            first_diff(&got, &plain), clip(&show(&v), 2000), clip(&show(&want), 2000)
        ));
    }
    let ev = encode_stream_events(v.clone(), Some(opts()));
    let want_ev = encode_stream_events(want.clone(), Some(eo.to()));
    if !same_events(&ev, &want_ev) {
        return Err(format!("event encoding with the replacer differs\nvalue {}\nreplaced {}", clip(&show(&v), 2000), clip(&show(&want), 2000)));
    }
    // a replacer that always returns its value changes nothing
    let mut o = eo.to();
    o.replacer = Some(Arc::new(|_, x, _| Some(x.clone())));
    if encode(v.clone(), Some(o)) != encode(v.clone(), Some(eo.to())) {
        return Err(format!("the identity replacer changes the text\nvalue {}", clip(&show(&v), 2000)));
    }
    Ok(())
}

// ---------------------------------------------------------------- C17

/// Value, text, options, strict, expand, what the replacer does.
type Job = (V, String, Eo, bool, bool, Rep);

#[derive(Clone, Debug)]
enum Rep {
    No,
    /// replaces as C13 has it
    Plan(Plan),
    /// encodes and decodes in turn while encoding
    Nested(Plan),
    /// panics at that call
    Panics(usize),
}

/// Starts a result that is wrong by itself.
const WRONG: &str = "\u{1}WRONG ";

fn c17_replaced(j: &Job, mark: &str) -> String {
    let (plan, at) = match &j.5 {
        Rep::No => return String::new(),
        Rep::Plan(p) | Rep::Nested(p) => (p.clone(), usize::MAX),
        Rep::Panics(n) => (Plan { salt: 0, w: [1, 0, 0, 0, 0], root: 0 }, *n),
    };
    let calls = std::sync::atomic::AtomicUsize::new(0);
    // the calls within have options of their own, and some a replacer of their own
    let mut inner = Eo {
        indent: j.2.indent % 3 + 1,
        delim: match j.2.delim {
            ',' => '|',
            '|' => '\t',
            _ => ',',
        },
        fold: !j.2.fold,
        flatten: None,
    }
    .to();
    if plan.salt % 2 == 0 {
        inner.replacer = Some(Arc::new(|k: &str, x: &V, p: &[PathSegment]| {
            if p.len() > 1 && k.len() % 5 == 4 {
                return None;
            }
            Some(if let V::Primitive(P::Bool(b)) = x { V::Primitive(P::Bool(!b)) } else { x.clone() })
        }));
    }
    let (m, nested, text) = (mark.to_string(), matches!(j.5, Rep::Nested(_)), j.1.replace(MARK, mark));
    let (indent, strict, expand) = (j.2.indent, j.3, j.4);
    let log: Arc<Mutex<Vec<(V, String, String)>>> = Arc::default();
    let (inner2, text2, log2, whole) = (inner.clone(), text.clone(), log.clone(), plan.clone());
    let f = move |k: &str, x: &V, p: &[PathSegment]| {
        let n = calls.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        assert!(n != at, "the replacer gives up");
        let path: Vec<String> = p.iter().map(|s| seg(s).replace(&m, MARK)).collect();
        let x = renamed(x, &m, MARK);
        if nested && n < 20 && n % 3 == 1 {
            let y = renamed(&x, MARK, &m);
            let a = encode(y.clone(), Some(inner2.clone()));
            let b = try_decode(&text, Some(gens::dec(indent % 3 + 1, !strict, !expand))).map_or_else(|e| e.to_string().len().to_string(), |v| show(&v));
            log2.lock().unwrap().push((y, a, b));
        }
        decide(&plan, &k.replace(&m, MARK), &x, &path, path.len()).map(|y| renamed(&y, MARK, &m))
    };
    let f: toon::options::EncodeReplacer = Arc::new(f);
    let opts = || {
        let mut o: EncodeOptions = j.2.to();
        o.replacer = Some(f.clone());
        o
    };
    let run = || {
        let a = encode(renamed(&j.0, MARK, mark), Some(opts()));
        let b = encode_stream_events(renamed(&j.0, MARK, mark), Some(opts()));
        (a, b)
    };
    let (a, b) = match crate::engine::catch(run) {
        Ok(r) => r,
        Err(_) if matches!(j.5, Rep::Panics(_)) => return "panic".into(),
        Err(m) => return format!("{WRONG}with the replacer {:?} a panic: {m}", j.5),
    };
    // what the calls give must not depend on being nested
    let replaced = model_replace(&whole, &j.0, &mut vec![]);
    let plain = renamed(&replaced, MARK, mark);
    let (pa, pb) = (encode(plain.clone(), Some(j.2.to())), encode_stream_events(plain, Some(j.2.to())));
    if a != pa || !same_events(&b, &pb) {
        return format!("{WRONG}with the replacer {:?}:\n{a}\n{b:?}\nwithout it, on the replaced value:\n{pa}\n{pb:?}", j.5);
    }
    for (y, a, b) in log.lock().unwrap().iter() {
        let (c, d) = (
            encode(y.clone(), Some(inner.clone())),
            try_decode(&text2, Some(gens::dec(indent % 3 + 1, !strict, !expand))).map_or_else(|e| e.to_string().len().to_string(), |v| show(&v)),
        );
        if *a != c || *b != d {
            return format!("{WRONG}called from the replacer {:?}:\n{a}\n{b}\ncalled from outside:\n{c}\n{d}", j.5);
        }
    }
    format!("{a}\n{b:?}")
}

fn c17_work(j: &Job, mark: &str) -> [String; 4] {
    let back = |s: String| s.replace(mark, MARK);
    let r = c17_replaced(j, mark);
    let err = |e: toon::error::ToonError| {
        let e = e.to_string();
        // a message may quote its source in part
        if e.contains("...") || e.contains('\u{2026}') { "error".to_string() } else { format!("error {e}") }
    };
    let a = encode(renamed(&j.0, MARK, mark), Some(j.2.to()));
    let text = j.1.replace(MARK, mark);
    let b = match try_decode(&text, Some(gens::dec(j.2.indent, j.3, j.4))) {
        Ok(v) => show(&v),
        Err(e) => err(e),
    };
    let d = match toon::try_decode_stream_sync(
        text.split('\n').enumerate().map(|(i, l)| {
            // a source of lines that encodes and decodes as it is read
            if i % 4 == 1 && matches!(j.5, Rep::Nested(_)) {
                let _ = encode(V::Object(vec![(l.into(), st(l))]), None);
                let _ = try_decode(l, Some(gens::dec(j.2.indent % 3 + 1, !j.3, !j.4)));
            }
            l.to_string()
        }),
        Some(toon::options::DecodeStreamOptions { indent: Some(j.2.indent), strict: Some(j.3) }),
    ) {
        Ok(v) => format!("{v:?}"),
        Err(e) => err(e),
    };
    [back(a), back(b), back(d), back(r)]
}

/// A word that stands for a fresh one in every run of a job, so that nothing
/// remembered from one run meets the same text again in another.
const MARK: &str = "Zqqqqqqx";

fn fresh_mark() -> String {
    static N: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
    let mut n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let mut s = String::from("Z");
    for _ in 0..6 {
        s.push((b'a' + (n % 16) as u8) as char);
        n /= 16;
    }
    s.push('x');
    s
}

fn renamed(v: &V, from: &str, to: &str) -> V {
    match v {
        V::Primitive(P::String(s)) => V::Primitive(P::String(s.replace(from, to))),
        V::Primitive(_) => v.clone(),
        V::Array(a) => V::Array(a.iter().map(|x| renamed(x, from, to)).collect()),
        V::Object(o) => V::Object(o.iter().map(|(k, x)| (k.replace(from, to), renamed(x, from, to))).collect()),
    }
}

/// Put the mark into some of the strings and keys.
fn marked(t: &mut Tape, v: &V) -> V {
    fn put(t: &mut Tape, s: &str) -> String {
        match t.below(5) {
            0 | 1 => s.to_string(),
            2 => format!("{MARK}{s}"),
            3 => format!("{s}{MARK}"),
            _ => format!("{MARK}{s}{}", t.pick(&["|x", ",y", "\tz", ".w", " v", ":"])),
        }
    }
    match v {
        V::Primitive(P::String(s)) => V::Primitive(P::String(put(t, s))),
        V::Primitive(_) => v.clone(),
        V::Array(a) => V::Array(a.iter().map(|x| marked(t, x)).collect()),
        V::Object(o) => {
            let mut out: Vec<(String, V)> = vec![];
            for (k, x) in o {
                let mut n = put(t, k);
                if out.iter().any(|(q, _)| *q == n) || o.iter().any(|(q, _)| *q == n) {
                    n.clone_from(k);
                }
                let y = marked(t, x);
                out.push((n, y));
            }
            V::Object(out)
        }
    }
}

/// Documents with a fault deep inside; # is a number.
const FAULTY: &[&str] = &[
    "[1]:\n  - \"a#",
    "a#[1]:\n  - b: 1\n    c: \"x",
    "[2]:\n  - - #",
    "[1]:\n  - [1]:\n    - [2]: #",
    "x:\n  y:\n    z: \"\\q#\"",
    "t[2]{a,b}:\n  1,#\n  2",
    "[1]:\n  - t[2]{a,b}:\n      1,#",
    "l[2]:\n  - a#\n\n  - b",
    "a.b: #\na: 1",
    "a:\n  b.c#: 1\n  b: 2\n  b.c#.d: 3",
    "[3]: 1,2\n",
    "a[1]:\n  - k:\n      m[1]:\n        - \"#\" x",
    "\"k#",
    "[1]:\n  - k#:\n      - 1",
];

/// What a call gives that was made with many others at the same time, deep values among them.
fn c17_crowd(i: u64, c: &mut Ctx) -> CheckResult {
    let (threads, rounds, levels) = if i == 0 { (8, 12, 1000) } else { (48, 3, 150) };
    c.label("many threads at once");
    c.describe(|| format!("{threads} threads, {levels} levels"));
    c.nontrivial(&("crowd", i));
    let nest = |n: usize, object: bool| (0..n).fold(num(1.0), |v, d| if object { V::Object(vec![(if d % 3 == 0 { "a" } else { "b" }.into(), v)]) } else { V::Array(vec![v, num(d as f64)]) });
    let texts: Vec<String> = vec![
        (0..levels).map(|d| format!("{}a:\n", "  ".repeat(d))).collect(),
        (0..levels).map(|d| format!("{}{}[1]:\n", "  ".repeat(d), if d == 0 { "" } else { "- " })).collect::<String>() + &"  ".repeat(levels) + "- x",
        (0..levels).map(|d| if d == 0 { "a[1]:\n".into() } else { format!("{}- a[1]:\n", "  ".repeat(2 * d - 1)) }).collect::<String>() + &"  ".repeat(2 * levels - 1) + "- x",
        (0..levels).map(|d| format!("{}a:\n", "  ".repeat(d))).collect::<String>() + &"  ".repeat(levels) + "\"x",
    ];
    let values = [nest(levels / 2, true), nest(levels / 2, false)];
    let small = encode(nest(60, true), Some(Eo { indent: 2, delim: ',', fold: true, flatten: Some(7) }.to()));
    let work = |k: usize| -> Vec<String> {
        let mut out = vec![];
        for j in 0..texts.len() {
            let x = &texts[(j + k) % texts.len()];
            let r = try_decode(x, Some(gens::dec(2, (k + j) % 2 == 0, false)));
            out.push(match &r { Ok(v) => show(v), Err(e) => e.to_string() });
        }
        for (j, v) in values.iter().enumerate() {
            let mut o = Eo { indent: 1, delim: '|', fold: (k + j) % 2 == 0, flatten: None }.to();
            out.push(encode(v.clone(), Some(o.clone())));
            out.push(format!("{:?}", encode_stream_events(v.clone(), Some(o.clone())).len()));
            if levels < 300 || k % 4 == 0 {
                o.replacer = Some(Arc::new(|_, v, _| Some(v.clone())));
                out.push(encode(v.clone(), Some(o)));
            }
        }
        out.push(try_decode(&small, Some(gens::dec(2, true, true))).map_or_else(|e| e.to_string(), |v| show(&v)));
        out
    };
    let (work, start) = (&work, &std::sync::Barrier::new(threads));
    std::thread::scope(|s| {
        let spawn = |f: Box<dyn FnOnce() -> CheckResult + Send>| std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, f);
        let alone: Arc<Mutex<Vec<Vec<String>>>> = Arc::default();
        let to = alone.clone();
        let e = |_| Err("a panic in a thread".into());
        spawn(Box::new(move || {
            *to.lock().unwrap() = (0..4).map(work).collect();
            Ok(())
        }))
        .map_err(|e| e.to_string())?
        .join()
        .unwrap_or_else(e)?;
        let alone = Arc::new(alone.lock().unwrap().clone());
        let mut hs = vec![];
        for k in 0..threads {
            let alone = alone.clone();
            hs.push(
                spawn(Box::new(move || {
                    start.wait();
                    for r in 0..rounds {
                        let got = match crate::engine::catch(|| work((k + r) % 4)) {
                            Ok(got) => got,
                            Err(m) => return Err(format!("a panic in thread {k}, round {r}: {m}")),
                        };
                        for (j, (g, w)) in got.iter().zip(&alone[(k + r) % 4]).enumerate() {
                            if g != w {
                                return Err(format!("thread {k}, round {r}: call {j} gives {}\nalone {}", clip(g, 1000), clip(w, 1000)));
                            }
                        }
                    }
                    Ok(())
                }))
                .map_err(|e| e.to_string())?,
            );
        }
        hs.into_iter().map(|h| h.join().unwrap_or_else(e)).collect()
    })
}

/// A history of very many calls, each on something new, whose results are known.
fn c17_long(i: u64, c: &mut Ctx) -> CheckResult {
    if i >= 4 {
        return c17_crowd(i - 4, c);
    }
    const N: u64 = 70_000;
    c.label("a long history");
    c.describe(|| format!("{N} calls on new inputs, family {i}"));
    c.nontrivial(&i);
    let one = |k: u64| -> CheckResult {
        // the value, its text, and the options
        let p = |s: String| V::Primitive(P::String(s));
        let (v, text, eo) = match i {
            0 => (V::Object(vec![(format!("k{k}"), num(k as f64))]), format!("k{k}: {k}"), None),
            1 => (V::Array(vec![p(format!("a,{k}")), p(format!("b{k}"))]), format!("[2]: \"a,{k}\",b{k}"), None),
            2 => (
                V::Array(vec![V::Object(vec![(format!("f{k}"), num(k as f64 + 0.5)), (format!("g {k}"), p(k.to_string()))])]),
                format!("[1|]{{f{k}|\"g {k}\"}}:\n  {k}.5|\"{k}\""),
                Some('|'),
            ),
            _ => {
                let n = (k % 7) as usize;
                let items: Vec<String> = (0..n).map(|j| format!("x{k}_{j}")).collect();
                (
                    V::Object(vec![(format!("o{k}"), V::Object(vec![(format!("a{k}"), V::Array(items.iter().cloned().map(p).collect()))]))]),
                    if n == 0 { format!("o{k}:\n  a{k}[0]:") } else { format!("o{k}:\n  a{k}[{n}]: {}", items.join(",")) },
                    None,
                )
            }
        };
        let o = || eo.map(|d| Eo { indent: 2, delim: d, fold: false, flatten: None }.to());
        let got = encode(v.clone(), o());
        if got != text {
            return Err(format!("call {k} of family {i} gives\n{got}\nexpected\n{text}"));
        }
        match try_decode(&text, None) {
            Ok(x) if same(&x, &v) => {}
            x => return Err(format!("call {k} of family {i}: decoding\n{text}\ngives {x:?}")),
        }
        // what fails, in many places, leaves nothing behind either
        let bad = FAULTY[(k % FAULTY.len() as u64) as usize].replace('#', &k.to_string());
        if let Ok(x) = try_decode(&bad, Some(gens::dec(2, true, true))) {
            return Err(format!("call {k} of family {i}: decoding\n{bad}\ngives {x:?}"));
        }
        if k % 16 == 0 {
            let bad = format!("a: 1\n\t{text}");
            match try_decode(&bad, None) {
                Err(e) if e.to_string().contains("ine 2") => {}
                x => return Err(format!("call {k} of family {i}: decoding\n{bad}\ngives {x:?}")),
            }
        }
        Ok(())
    };
    for k in 0..N {
        one(k)?;
    }
    // and the earlier ones again
    for k in (0..N).step_by(97) {
        one(k)?;
    }
    Ok(())
}

fn c17(t: &mut Tape, c: &mut Ctx) -> CheckResult {
    let n = t.range(1, 4);
    let mut jobs: Vec<Job> = vec![];
    for _ in 0..n {
        let old = if jobs.is_empty() || t.chance(1, 3) { None } else { Some(jobs[t.below(jobs.len())].clone()) };
        let fold = t.coin();
        let eo = gens::enc_opts(t, fold);
        let expand = t.coin();
        let strict = t.coin();
        let v = match &old {
            // the value of another job, or parts of it, under other options
            Some(j) => match t.below(3) {
                0 => j.0.clone(),
                1 => V::Array(vec![j.0.clone(), num(1.0)]),
                _ => match &j.0 {
                    V::Array(a) if !a.is_empty() => a[t.below(a.len())].clone(),
                    V::Object(o) if !o.is_empty() => o[t.below(o.len())].1.clone(),
                    x => x.clone(),
                },
            },
            None => {
                let v = Vg::new(if fold || expand { Keys::Paths } else { Keys::Any }, 4).root(t);
                marked(t, &v)
            }
        };
        let text = match (&old, t.below(4)) {
            (Some(j), 0 | 1) => j.1.clone(),
            (Some(j), 2) => crate::docgen::mutate(t, &j.1, eo.indent, 1),
            (_, 3) => {
                let d = crate::docgen::wild(t, eo.indent);
                if expand && t.coin() { format!("{d}\na.b: 1\na:\n{}b: 2\na.c: 3", " ".repeat(eo.indent)) } else { d }
            }
            _ => encode(v.clone(), Some(eo.to())),
        };
        let plan = Plan { salt: t.bits(), w: [6, 1, 1, 1, 1], root: t.weighted(&[6, 1, 1, 1]) };
        let rep = match t.weighted(&[10, 2, 1, 2]) {
            0 => Rep::No,
            1 => Rep::Plan(plan),
            2 => Rep::Nested(plan),
            _ => Rep::Panics(t.below(12)),
        };
        jobs.push((v, text, eo, strict, expand, rep));
    }
    if jobs.iter().any(|j| interesting(&j.0)) {
        let h: Vec<String> = jobs.iter().map(|j| format!("{}{}{:?}", show(&j.0), j.1, j.2)).collect();
        c.nontrivial(&h.join(""));
    }
    c.cond("with a replacer", jobs.iter().any(|j| !matches!(j.5, Rep::No)));
    c.cond("a replacer that panics", jobs.iter().any(|j| matches!(j.5, Rep::Panics(_))));
    c.cond("calls within a replacer", jobs.iter().any(|j| matches!(j.5, Rep::Nested(_))));
    c.cond("jobs share inputs", jobs.iter().enumerate().any(|(i, j)| jobs[..i].iter().any(|k| k.0 == j.0 || k.1 == j.1)));
    c.describe(|| jobs.iter().map(|j| format!("{} strict={} expand={} {:?}\n{}\n{}\n", opts_text(&j.2), j.3, j.4, j.5, show(&j.0), j.1)).collect());
    let differ = |what: &str, i: usize, got: &[String; 4], want: &[String; 4]| -> CheckResult {
        for (g, w) in got.iter().zip(want) {
            if g != w {
                return Err(format!("{what} gives another result for job {i}: {}\nvs, called first in a thread of its own,\n{}", clip(g, 2000), clip(w, 2000)));
            }
        }
        Ok(())
    };
    // each job alone: the first call of a thread, on words never seen before
    let alone: Vec<[String; 4]> = if t.chance(1, 4) || t.data.is_empty() {
        c.label("in threads of their own");
        std::thread::scope(|s| jobs.iter().map(|j| s.spawn(|| c17_work(j, &fresh_mark())).join().unwrap_or_else(|_| ["panicked".into(), String::new(), String::new(), String::new()])).collect())
    } else {
        jobs.iter().map(|j| c17_work(j, &fresh_mark())).collect()
    };
    if let Some(w) = alone.iter().find_map(|r| r[3].strip_prefix(WRONG)) {
        return Err(format!("a call of the replacer changes the result: {}", clip(w, 4000)));
    }
    // in order and in reverse, on the same words; each call twice
    let orders: [Vec<usize>; 2] = [(0..jobs.len()).collect(), (0..jobs.len()).rev().collect()];
    for o in &orders {
        let mark = fresh_mark();
        for &i in o {
            differ("a call after others", i, &c17_work(&jobs[i], &mark), &alone[i])?;
        }
        let again = *o.last().unwrap();
        differ("a repeated call", again, &c17_work(&jobs[again], &mark), &alone[again])?;
        differ("a repeated call", o[0], &c17_work(&jobs[o[0]], &mark), &alone[o[0]])?;
    }
    if t.chance(1, 6) {
        c.label("concurrent");
        let mark = fresh_mark();
        let bad = std::thread::scope(|s| {
            let hs: Vec<_> = (0..4)
                .map(|k| {
                    let (jobs, alone, mark) = (&jobs, &alone, &mark);
                    s.spawn(move || {
                        for r in 0..3 {
                            for i in 0..jobs.len() {
                                let i = (i + k + r) % jobs.len();
                                let again = c17_work(&jobs[i], mark);
                                if again != alone[i] {
                                    return Some((i, again));
                                }
                            }
                        }
                        None
                    })
                })
                .collect();
            hs.into_iter().find_map(|h| h.join().unwrap_or(Some((0, ["panicked".into(), String::new(), String::new(), String::new()]))))
        });
        if let Some((i, again)) = bad {
            differ("a concurrent call", i, &again, &alone[i])?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C18

/// The position of `c` outside quotes.
fn outside(s: &str, c: char) -> Option<usize> {
    let (mut quoted, mut esc) = (false, false);
    for (i, x) in s.char_indices() {
        match x {
            _ if esc => esc = false,
            '\\' if quoted => esc = true,
            '"' => quoted = !quoted,
            _ if x == c && !quoted => return Some(i),
            _ => {}
        }
    }
    None
}

fn pieces(s: &str, delim: char) -> usize {
    let (mut n, mut s) = (1, s);
    while let Some(i) = outside(s, delim) {
        n += 1;
        s = &s[i + delim.len_utf8()..];
    }
    n
}

/// Every header announces the rows, items or cells that follow it.
fn counts(lines: &[String], eo: &Eo) -> CheckResult {
    let level = |l: &str| (l.len() - l.trim_start_matches(' ').len()) / eo.indent;
    for (i, l) in lines.iter().enumerate() {
        let (dash, body) = match l.trim_start_matches(' ').strip_prefix("- ") {
            Some(b) => (true, b),
            None => (false, l.trim_start_matches(' ')),
        };
        let Some(at) = outside(body, '[') else { continue };
        let no = i + 1;
        let bad = |m: &str| Err(format!("line {no}: {m}: {l:?}"));
        let rest = &body[at + 1..];
        let digits = rest.bytes().take_while(u8::is_ascii_digit).count();
        let Ok(n) = rest[..digits].parse::<usize>() else { return bad("a bracket without a length") };
        let rest = &rest[digits..];
        let rest = if eo.delim == ',' { Some(rest) } else { rest.strip_prefix(eo.delim) };
        let Some(rest) = rest.and_then(|r| r.strip_prefix(']')) else { return bad("the delimiter is not announced") };
        let (fields, rest) = match rest.strip_prefix('{') {
            None => (None, rest),
            Some(r) => {
                let Some(e) = outside(r, '}') else { return bad("the field list does not end") };
                (Some(pieces(&r[..e], eo.delim)), &r[e + 1..])
            }
        };
        let Some(rest) = rest.strip_prefix(':') else { return bad("no colon after the header") };
        let own = level(l) + usize::from(dash && at > 0);
        let block: Vec<&String> = lines[i + 1..].iter().take_while(|x| level(x) > own).collect();
        if !rest.is_empty() {
            let Some(cells) = rest.strip_prefix(' ') else { return bad("no space after the colon") };
            let m = pieces(cells, eo.delim);
            if m != n || !block.is_empty() || fields.is_some() {
                return bad(&format!("{m} cells follow on the line, {} lines below", block.len()));
            }
            continue;
        }
        if let Some(w) = fields {
            if block.len() != n || n == 0 {
                return bad(&format!("{} rows follow", block.len()));
            }
            for r in block {
                let m = pieces(r.trim_start_matches(' '), eo.delim);
                if level(r) != own + 1 || m != w {
                    return bad(&format!("a row of {m} cells at level {}: {r:?}", level(r)));
                }
            }
            continue;
        }
        let mut m = 0;
        for r in &block {
            let b = r.trim_start_matches(' ');
            if level(r) == own + 1 {
                if b != "-" && !b.starts_with("- ") {
                    return bad(&format!("an item without a hyphen: {r:?}"));
                }
                m += 1;
            }
        }
        if m != n || block.first().is_some_and(|r| level(r) != own + 1) {
            return bad(&format!("{m} items follow"));
        }
    }
    Ok(())
}

fn c18(t: &mut Tape, c: &mut Ctx) -> CheckResult {
    let fold = t.chance(1, 3);
    let eo = gens::enc_opts(t, fold);
    let mut g = Vg::new(if fold && t.coin() { Keys::Paths } else { Keys::Any }, 6);
    g.raw_numbers = t.chance(1, 6);
    let v = g.root(t);
    if interesting(&v) {
        c.nontrivial(&(show(&v), eo.indent, eo.delim, eo.fold, eo.flatten));
    }
    shape_labels(&v, c);
    c.describe(|| format!("{}\n{}", opts_text(&eo), show(&v)));
    let lines = encode_lines(v.clone(), Some(eo.to()));
    let text = encode(v.clone(), Some(eo.to()));
    let fail = |m: String| Err(format!("{m}\nvalue: {}\noptions: {}\ntext:\n{text}", clip(&show(&v), 3000), opts_text(&eo)));
    if text != lines.join("\n") {
        return fail("the text is not the lines joined by newlines".into());
    }
    if text.ends_with('\n') || text.starts_with(char::is_whitespace) {
        return fail("the text starts with white space or ends with a newline".into());
    }
    let empty_root = matches!(&v, V::Object(o) if o.is_empty());
    if empty_root != lines.is_empty() {
        return fail(format!("{} lines", lines.len()));
    }
    let mut prev = 0usize;
    for (i, l) in lines.iter().enumerate() {
        if l.contains(['\n', '\r']) {
            return fail(format!("line {} holds a line break: {l:?}", i + 1));
        }
        if l.trim().is_empty() {
            return fail(format!("line {} is blank", i + 1));
        }
        if l.ends_with(char::is_whitespace) {
            return fail(format!("line {} has trailing white space: {l:?}", i + 1));
        }
        let body = l.trim_start_matches(' ');
        let n = l.len() - body.len();
        if body.starts_with(char::is_whitespace) {
            return fail(format!("line {} is indented with something other than spaces: {l:?}", i + 1));
        }
        if n % eo.indent != 0 {
            return fail(format!("line {} is indented by {n}", i + 1));
        }
        let d = n / eo.indent;
        // one level deeper at most, two under a field on a list item's line
        let max = if i == 0 { 0 } else { prev + 1 + usize::from(lines[i - 1].trim_start_matches(' ').starts_with("- ")) };
        if d > max {
            return fail(format!("line {} jumps from level {prev} to {d}", i + 1));
        }
        prev = d;
        if eo.delim != '\t' && body.contains('\t') {
            return fail(format!("line {} holds a raw tab: {l:?}", i + 1));
        }
    }
    if let Err(m) = counts(&lines, &eo) {
        return fail(m);
    }
    Ok(())
}

// ---------------------------------------------------------------- C19

fn c19(t: &mut Tape, c: &mut Ctx) -> CheckResult {
    let eo = gens::enc_opts(t, false);
    let from_text = t.coin();
    let v = if from_text {
        let indent = gens::indent(t);
        let (text, strict) = if t.coin() {
            (crate::docgen::wild(t, indent), t.coin())
        } else {
            (crate::docgen::document(t, indent).text, true)
        };
        let Ok(v) = try_decode(&text, Some(gens::dec(indent, strict, false))) else {
            c.discarded = true;
            c.label("text does not decode");
            return Ok(());
        };
        if duplicate_keys(&v) {
            c.discarded = true;
            c.label("duplicate keys");
            return Ok(());
        }
        c.label("value from a text");
        v
    } else {
        gens::value(t)
    };
    if interesting(&v) {
        c.nontrivial(&(show(&v), eo.indent, eo.delim));
    }
    c.describe(|| format!("{}\n{}", opts_text(&eo), show(&v)));
    let t1 = encode(v.clone(), Some(eo.to()));
    let d = |s: &str| try_decode(s, Some(gens::dec(eo.indent, true, false))).map_err(|e| format!("the encoder's output does not decode: {e}\n{s}"));
    let v1 = d(&t1)?;
    let t2 = encode(v1.clone(), Some(eo.to()));
    if t2 != t1 {
        return Err(format!("encoding the decoded text changes it: {}\nfirst:\n{t1}\nsecond:\n{t2}", first_diff(&t1, &t2)));
    }
    if !same(&v1, &round_trip_image(&v)) {
        return Err(format!("the value changes: {} to {}\ntext:\n{t1}", clip(&show(&v), 2000), clip(&show(&v1), 2000)));
    }
    let v2 = d(&t2)?;
    if !same(&v1, &v2) {
        return Err(format!("a second decode differs: {} vs {}", clip(&show(&v1), 2000), clip(&show(&v2), 2000)));
    }
    // through other options and back
    let other = gens::enc_opts(t, false);
    let t3 = encode(v1.clone(), Some(other.to()));
    let v3 = try_decode(&t3, Some(gens::dec(other.indent, true, false))).map_err(|e| format!("the encoder's output does not decode: {e}\n{t3}"))?;
    if encode(v3, Some(eo.to())) != t1 {
        return Err(format!("going through {} changes the text\nfirst:\n{t1}\nthrough:\n{t3}", opts_text(&other)));
    }
    Ok(())
}

pub fn duplicate_keys(v: &V) -> bool {
    any(v, &|x| matches!(x, V::Object(o) if (1..o.len()).any(|i| o[..i].iter().any(|(k, _)| *k == o[i].0))))
}

// ---------------------------------------------------------------- C20

fn to_serde(v: &V) -> serde_json::Value {
    use serde_json::Value as S;
    match v {
        V::Primitive(P::Null) => S::Null,
        V::Primitive(P::Bool(b)) => S::Bool(*b),
        V::Primitive(P::String(s)) => S::String(s.clone()),
        V::Primitive(P::Number(x)) => serde_json::Number::from_f64(*x).map_or(S::Null, S::Number),
        V::Array(a) => S::Array(a.iter().map(to_serde).collect()),
        V::Object(o) => S::Object(o.iter().map(|(k, x)| (k.clone(), to_serde(x))).collect()),
    }
}
fn from_serde(s: &serde_json::Value) -> V {
    use serde_json::Value as S;
    match s {
        S::Null => null(),
        S::Bool(b) => V::Primitive(P::Bool(*b)),
        S::String(x) => st(x),
        S::Number(n) => num(n.as_f64().unwrap()),
        S::Array(a) => V::Array(a.iter().map(from_serde).collect()),
        S::Object(o) => V::Object(o.iter().map(|(k, x)| (k.clone(), from_serde(x))).collect()),
    }
}

fn c20(t: &mut Tape, c: &mut Ctx) -> CheckResult {
    let fold = t.chance(1, 4);
    let eo = gens::enc_opts(t, fold);
    let mut g = Vg::new(Keys::Any, 4);
    g.raw_numbers = true;
    let v = g.root(t);
    let n = normal(&v);
    let special = !same(&v, &n) || any(&v, &|x| matches!(x, V::Primitive(P::Number(y)) if !y.is_finite()));
    if special {
        c.nontrivial(&(show(&v), eo.indent, eo.delim));
    }
    c.cond("non-finite or negative zero", special);
    c.describe(|| format!("{}\n{}", opts_text(&eo), show(&v)));
    let a = encode(v.clone(), Some(eo.to()));
    let b = encode(n.clone(), Some(eo.to()));
    if a != b {
        return Err(format!("encoding differs from that of the normalised value: {}\nvalue {}\n{a}\nvs\n{b}", first_diff(&a, &b), clip(&show(&v), 2000)));
    }
    if !same_events(&encode_stream_events(v.clone(), Some(eo.to())), &encode_stream_events(n.clone(), Some(eo.to()))) {
        return Err(format!("events differ from those of the normalised value {}", clip(&show(&v), 2000)));
    }
    if !fold {
        let got = try_decode(&a, Some(gens::dec(eo.indent, true, false))).map_err(|e| format!("does not decode: {e}\n{a}"))?;
        if !same(&got, &round_trip_image(&n)) {
            return Err(format!("decodes as {} for {}", clip(&show(&got), 2000), clip(&show(&v), 2000)));
        }
    }
    // as the result of a replacer
    let mut o = eo.to();
    let (whole, part) = (v.clone(), v.clone());
    let at_root = t.coin();
    let in_array = t.coin();
    o.replacer = Some(Arc::new(move |_, x, p| {
        Some(if at_root && p.is_empty() {
            whole.clone()
        } else if !at_root && p.len() == 1 {
            part.clone()
        } else {
            x.clone()
        })
    }));
    let around = |x: V| if at_root { x } else if in_array { V::Array(vec![null(), x]) } else { V::Object(vec![("q".into(), x)]) };
    let start = around(null());
    let want = if in_array && !at_root { V::Array(vec![n.clone(), n.clone()]) } else { around(n.clone()) };
    if !same_events(&encode_stream_events(start.clone(), Some(o.clone())), &encode_stream_events(want.clone(), Some(eo.to()))) {
        return Err(format!("events of a replacer result are not normalised, for {}", clip(&show(&v), 2000)));
    }
    let (x, y) = (encode(start, Some(o)), encode(want, Some(eo.to())));
    if x != y {
        return Err(format!("a replacer result is not normalised: {}\n{x}\nvs\n{y}", first_diff(&x, &y)));
    }
    // a replacer that leaves the root, and everything else, as it was
    let keep: toon::options::EncodeReplacer = Arc::new(|_, x, p| if p.is_empty() { None } else { Some(x.clone()) });
    let kept = || {
        let mut o = eo.to();
        o.replacer = Some(keep.clone());
        Some(o)
    };
    if encode(v.clone(), kept()) != b {
        return Err(format!("not normalised when a replacer omits the root: {}", clip(&show(&v), 2000)));
    }
    let e = encode_stream_events(v.clone(), kept());
    if !same_events(&e, &encode_stream_events(n.clone(), Some(eo.to()))) {
        return Err(format!("events not normalised when a replacer omits the root: {}
of {}", clip(&format!("{e:?}"), 2000), clip(&show(&v), 2000)));
    }
    // conversions to and from serde_json
    let s = to_serde(&n);
    let back = toon::JsonValue::from(s.clone());
    if !same(&back, &n) {
        return Err(format!("JsonValue::from(serde_json::Value) gives {} for {}", clip(&show(&back), 2000), clip(&show(&n), 2000)));
    }
    if encode(s.clone(), Some(eo.to())) != b {
        return Err(format!("encoding a serde_json::Value differs for {}", clip(&show(&n), 2000)));
    }
    let out = serde_json::Value::from(v.clone());
    // (a zero may keep its sign here: only JsonValue normalises it)
    if !same(&normal(&from_serde(&out)), &n) {
        return Err(format!("serde_json::Value::from(JsonValue) gives {out} for {}", clip(&show(&v), 2000)));
    }
    // scalar conversions
    let f = f64::from_bits(t.bits());
    for x in [f, -0.0, f64::NAN, f64::INFINITY] {
        if !same(&V::from(x), &normal(&num(x))) {
            return Err(format!("JsonValue::from({x:?}) is {}", show(&V::from(x))));
        }
    }
    Ok(())
}

fn c20_ints(i: u64, c: &mut Ctx) -> CheckResult {
    // integers near the edges, as serde_json gives them
    let base: i128 = match i / 41 {
        0 => 0,
        1 => 1 << 53,
        2 => -(1 << 53),
        3 => i128::from(i64::MAX),
        4 => i128::from(i64::MIN),
        5 => i128::from(u64::MAX),
        6 => 1 << 32,
        7 => 10_000_000_000_000_000,
        _ => 1_000_000,
    };
    let x = base + i128::from(i % 41) - 20;
    c.label("integer near an edge");
    c.nontrivial(&x);
    c.describe(|| format!("integer {x}"));
    let Ok(s) = serde_json::from_str::<serde_json::Value>(&x.to_string()) else { return Ok(()) };
    let want = x as f64;
    let v = toon::JsonValue::from(s.clone());
    if !same(&v, &num(want)) {
        return Err(format!("{x} becomes {}", show(&v)));
    }
    if let Ok(i) = i64::try_from(x)
        && !same(&V::from(i), &num(want))
    {
        return Err(format!("JsonValue::from({i}) is {}", show(&V::from(i))));
    }
    let t = encode(s, None);
    if t != format!("{want}") {
        return Err(format!("{x} is written {t}"));
    }
    let r = try_decode(&t, None).map_err(|e| e.to_string())?;
    if !same(&r, &num(want)) {
        return Err(format!("{x} is read back as {}", show(&r)));
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    const RULE_V: &str = "the value has more than two nodes, or a string or key that needs quoting; counted once per value and options";
    vec![
        Prop {
            id: "C01",
            rule: RULE_V,
            assumptions: &["values have unique keys per object and finite numbers without negative zero; nesting up to 120; indent 1 to 16", "rows of a table come back in the key order of the first row"],
            quick: 840_000, thorough: 8_000_000, shrink: 4000, threads: 8,
            run: c01, enum_count: short_count, run_enum: c01_enum,
        },
        Prop {
            id: "C02",
            rule: "folding changes the text of the value; counted once per value and options",
            assumptions: &["no key that path expansion itself would split; nesting up to 110 (path expansion is limited to 256 steps)"],
            quick: 630_000, thorough: 8_000_000, shrink: 4000, threads: 8,
            run: c02, enum_count: c02_count, run_enum: c02_enum,
        },
        Prop {
            id: "C03",
            rule: RULE_V,
            assumptions: &["strings that begin with a zero-padded number and are not numbers may be quoted or not; they are left out"],
            quick: 630_000, thorough: 8_000_000, shrink: 4000, threads: 8,
            run: c03, enum_count: c03_count, run_enum: c03_enum,
        },
        Prop {
            id: "C04",
            rule: "every case: a distinct string, key or number with its delimiter, or a block of 64 characters",
            assumptions: &["strings that begin with a zero-padded number and are not numbers may be quoted or not"],
            quick: 1_050_000, thorough: 8_000_000, shrink: 3000, threads: 8,
            run: c04, enum_count: c04_count, run_enum: c04_enum,
        },
        Prop {
            id: "C13",
            rule: "the replacer changes the value and is called more than twice; counted once per value and plan",
            assumptions: &["the replacer is a pure function of key, value and path; the root value it is given is the normalised one"],
            quick: 300_000, thorough: 4_000_000, shrink: 3000, threads: 8,
            run: c13, enum_count: no_enum_count, run_enum: no_enum,
        },
        Prop {
            id: "C17",
            rule: "some value of the case has more than two nodes or a string or key that needs quoting; counted once per set of jobs",
            assumptions: &["results are compared within one process; hash seeds differ from call to call"],
            quick: 60_000, thorough: 1_500_000, shrink: 1500, threads: 4,
            run: c17, enum_count: |_| 6, run_enum: c17_long,
        },
        Prop {
            id: "C18",
            rule: RULE_V,
            assumptions: &["indent 1 to 16, the three delimiters"],
            quick: 840_000, thorough: 8_000_000, shrink: 4000, threads: 8,
            run: c18, enum_count: no_enum_count, run_enum: no_enum,
        },
        Prop {
            id: "C19",
            rule: RULE_V,
            assumptions: &["values without duplicate keys"],
            quick: 350_000, thorough: 6_000_000, shrink: 3000, threads: 8,
            run: c19, enum_count: no_enum_count, run_enum: no_enum,
        },
        Prop {
            id: "C20",
            rule: "the value holds a non-finite number or a negative zero; counted once per value and options",
            assumptions: &[],
            quick: 560_000, thorough: 4_000_000, shrink: 3000, threads: 8,
            run: c20, enum_count: |_| 41 * 9, run_enum: c20_ints,
        },
    ]
}
