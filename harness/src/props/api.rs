//! C10, C11, C14: front ends, event streams, JSON printers.
use super::dec::stream;
use super::enc::{duplicate_keys, interesting, opts_text};
use crate::docgen;
use crate::engine::{CheckResult, Ctx, Prop, Tape, catch, no_enum, no_enum_count};
use crate::gens::{self, Keys, Vg};
use crate::util::*;
use std::task::{Context, Poll, Waker};
use toon::StringOrNumberOrBoolOrNull as P;
use toon::cli::conversion::{decode_to_json_chunks, encode_to_toon_lines};
use toon::cli::json_stream::json_stream_from_events;
use toon::cli::json_stringify::json_stringify_lines;
use toon::decode::event_builder::{build_node_from_events, node_to_json};
use toon::decode::expand::expand_paths_safe;
use toon::options::{DecodeOptions, DecodeStreamOptions, EncodeOptions, ExpandPathsMode, KeyFoldingMode};
use toon::{JsonStreamEvent as Ev, encode, encode_lines, encode_stream_events, try_decode};

#[allow(dead_code)]
/// Poll a future that has nothing to wait for.
pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    let mut cx = Context::from_waker(Waker::noop());
    for _ in 0..100_000_000u64 {
        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return r;
        }
    }
    panic!("the future does not complete");
}

// ---------------------------------------------------------------- C10

fn owned(text: &str) -> Vec<String> {
    text.split('\n').map(str::to_string).collect()
}

fn agree(what: &str, got: &Result<V, String>, want: &Result<V, String>, text: &str) -> CheckResult {
    match (got, want) {
        (Ok(a), Ok(b)) if same(a, b) => Ok(()),
        (Err(a), Err(b)) if a == b => Ok(()),
        _ => {
            let s = |r: &Result<V, String>| match r {
                Ok(v) => clip(&show(v), 2000),
                Err(e) => format!("error: {e}"),
            };
            Err(format!("{what} gives\n{}\nbut try_decode gives\n{}\ntext:\n{text}", s(got), s(want)))
        }
    }
}

fn decode_fronts(text: &str, indent: usize, strict: bool, expand: bool, c: &mut Ctx) -> CheckResult {
    let e = |e: toon::error::ToonError| e.to_string();
    let opts = || Some(gens::dec(indent, strict, expand));
    let sopts = || Some(DecodeStreamOptions { indent: Some(indent), strict: Some(strict) });
    let want = try_decode(text, opts()).map_err(e);
    c.cond("accepted", want.is_ok());
    c.cond("rejected", want.is_err());
    agree("try_decode_from_lines", &toon::try_decode_from_lines(owned(text), opts()).map_err(e), &want, text)?;
    let build = |ev: Vec<Ev>| -> Result<V, String> {
        let mut n = build_node_from_events(ev).map_err(e)?;
        if expand {
            n = expand_paths_safe(n, strict).map_err(e)?;
        }
        Ok(node_to_json(n))
    };
    let events = stream(text, indent, strict);
    agree("building from the events", &events.clone().and_then(build), &want, text)?;
    for (how, p, q) in [
        ("decode", catch(|| toon::decode(text, opts())), &want),
        ("decode_from_lines", catch(|| toon::decode_from_lines(owned(text), opts())), &want),
    ] {
        // the infallible variants panic with the error's message
        let p = p.map_err(|m| m.split_once(": ").map_or(String::new(), |x| x.1.to_string()));
        agree(how, &p, q, text)?;
    }
    let ev_same = |how: &str, got: Result<Vec<Ev>, String>| -> CheckResult {
        match (&got, &events) {
            (Ok(a), Ok(b)) if same_events(a, b) => Ok(()),
            (Err(a), Err(b)) if a == b => Ok(()),
            _ => Err(format!("{how} gives {got:?}\nbut try_decode_stream_sync gives {events:?}\ntext:\n{text}")),
        }
    };
    ev_same("decode_stream_sync", catch(|| toon::decode_stream_sync(owned(text), sopts())).map_err(|m| m.split_once(": ").map_or(String::new(), |x| x.1.to_string())))?;
    ev_same(
        "decode_stream",
        catch(|| block_on(toon::decode_stream(owned(text), sopts()))).map_err(|m| m.split_once(": ").map_or(String::new(), |x| x.1.to_string())),
    )?;
    ev_same("try_decode_stream", block_on(toon::try_decode_stream(owned(text), sopts())).map_err(e))?;
    // the CLI's converter
    let json = decode_to_json_chunks(text, opts()).map(|x| x.concat()).map_err(e);
    match (&json, &want) {
        (Ok(j), Ok(v)) => match crate::jsonp::parse(j) {
            Ok(w) if same(&w, v) || duplicate_keys(v) => {}
            r => return Err(format!("the JSON of decode_to_json_chunks\n{j}\nis {r:?}\nbut the value is {}\ntext:\n{text}", clip(&show(v), 2000))),
        },
        (Err(a), Err(b)) if a == b => {}
        _ => return Err(format!("decode_to_json_chunks gives {json:?}\nbut try_decode gives {want:?}\ntext:\n{text}")),
    }
    Ok(())
}

/// An option that is left out has its default whatever the others are.
fn partial_decode(text: &str, indent: usize, strict: bool, expand: bool, t: &mut Tape) -> CheckResult {
    let e = |e: toon::error::ToonError| e.to_string();
    let full = gens::dec(indent, strict, expand);
    let o = DecodeOptions {
        indent: if t.coin() { None } else { full.indent },
        strict: if t.coin() { None } else { full.strict },
        expand_paths: if t.coin() { None } else { full.expand_paths },
    };
    let whole = DecodeOptions {
        indent: o.indent.or(Some(2)),
        strict: o.strict.or(Some(true)),
        expand_paths: o.expand_paths.or(Some(ExpandPathsMode::Off)),
    };
    let label = format!("try_decode with {o:?}");
    let stream = |o: &DecodeOptions| toon::try_decode_stream_sync(owned(text), Some(DecodeStreamOptions { indent: o.indent, strict: o.strict })).map_err(e);
    let (a, b) = (stream(&o), stream(&whole));
    match (&a, &b) {
        (Ok(a), Ok(b)) if same_events(a, b) => {}
        (Err(a), Err(b)) if a == b => {}
        _ => return Err(format!("try_decode_stream_sync with {o:?} gives {a:?}, with explicit defaults {b:?}\ntext:\n{text}")),
    }
    let want = try_decode(text, Some(whole)).map_err(e);
    agree(&label, &try_decode(text, Some(o)).map_err(e), &want, text)
}

fn default_decode_fronts(text: &str, t: &mut Tape) -> CheckResult {
    let e = |e: toon::error::ToonError| e.to_string();
    let want = try_decode(text, Some(gens::dec(2, true, false))).map_err(e);
    agree("try_decode with no options", &try_decode(text, None).map_err(e), &want, text)?;
    let some = |t: &mut Tape| DecodeOptions {
        indent: if t.coin() { None } else { Some(2) },
        strict: if t.coin() { None } else { Some(true) },
        expand_paths: if t.coin() { None } else { Some(ExpandPathsMode::Off) },
    };
    let o = some(t);
    let label = format!("try_decode with {o:?}");
    agree(&label, &try_decode(text, Some(o)).map_err(e), &want, text)?;
    let ev = stream(text, 2, true);
    for o in [None, Some(DecodeStreamOptions { indent: None, strict: None }), Some(DecodeStreamOptions { indent: Some(2), strict: None })] {
        let what = format!("{o:?}");
        let got = toon::try_decode_stream_sync(owned(text), o).map_err(e);
        match (&got, &ev) {
            (Ok(a), Ok(b)) if same_events(a, b) => {}
            (Err(a), Err(b)) if a == b => {}
            _ => return Err(format!("try_decode_stream_sync with {what} gives {got:?}, with explicit defaults {ev:?}\ntext:\n{text}")),
        }
    }
    // text to JSON text
    let j = toon::toon_to_json(text).map_err(e);
    let parse = |j: &str| crate::jsonp::parse(j);
    match (&j, &want) {
        (Ok(_), Ok(v)) if duplicate_keys(v) => {}
        (Ok(j), Ok(v)) => {
            for (how, s) in [("toon_to_json", Ok(j.clone())), ("wasm decode", wasm_decode(text, false)), ("wasm decode_pretty", wasm_decode(text, true))] {
                match s.as_ref().map(|s| parse(s)) {
                    Ok(Ok(w)) if same(&w, v) => {}
                    r => return Err(format!("{how} gives {s:?}, which is {r:?}, for {}\ntext:\n{text}", clip(&show(v), 2000))),
                }
            }
            let compact = serde_json::to_string(&serde_json::Value::from(v.clone())).unwrap();
            if *j != compact || wasm_decode(text, false).as_ref() != Ok(&compact) {
                return Err(format!("toon_to_json or wasm decode is not the compact JSON {compact}: {j}\ntext:\n{text}"));
            }
        }
        (Err(a), Err(b)) if a == b => {}
        _ => return Err(format!("toon_to_json gives {j:?}, try_decode {want:?}\ntext:\n{text}")),
    }
    Ok(())
}

#[cfg(feature = "wasm")]
fn wasm_decode(text: &str, pretty: bool) -> Result<String, ()> {
    if pretty { toon::wasm::decode_pretty(text).map_err(|_| ()) } else { toon::wasm::decode(text).map_err(|_| ()) }
}
#[cfg(not(feature = "wasm"))]
fn wasm_decode(text: &str, _: bool) -> Result<String, ()> {
    toon::toon_to_json(text).map_err(|_| ())
}

/// A serde_json value and what became of it (numbers: the nearest double).
fn converted(s: &serde_json::Value, w: &V) -> CheckResult {
    fn same_as(s: &serde_json::Value, w: &V) -> bool {
        use serde_json::Value as S;
        match (s, w) {
            (S::Null, V::Primitive(P::Null)) => true,
            (S::Bool(a), V::Primitive(P::Bool(b))) => a == b,
            (S::String(a), V::Primitive(P::String(b))) => a == b,
            (S::Number(a), V::Primitive(P::Number(b))) => {
                let a = a.as_u64().map(|x| x as f64).or(a.as_i64().map(|x| x as f64)).or(a.as_f64()).unwrap();
                a == *b
            }
            (S::Array(a), V::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_as(x, y)),
            (S::Object(a), V::Object(b)) => a.len() == b.len() && a.iter().zip(b).all(|((k, x), (l, y))| k == l && same_as(x, y)),
            _ => false,
        }
    }
    if same_as(s, w) { Ok(()) } else { Err(format!("the JSON value {s} is converted to {}", clip(&show(w), 2000))) }
}

/// A number as JSON may write it.
fn number_text(t: &mut Tape) -> String {
    let digits = |t: &mut Tape, n: usize| -> String { (0..n).map(|_| (b'0' + t.below(10) as u8) as char).collect() };
    let sign = if t.chance(1, 3) { "-" } else { "" };
    match t.weighted(&[4, 3, 3, 2]) {
        0 => {
            // an integer of any size
            let n = t.range(1, 21);
            let s = digits(t, n);
            let s = s.trim_start_matches('0');
            format!("{sign}{}", if s.is_empty() { "0" } else { s })
        }
        1 => {
            // next to a power of two, or to the middle of two doubles
            let b = t.range(50, 64) as u32;
            let m = (t.bits() >> (64 - b)) | 1u64 << (b - 1);
            let low = b.saturating_sub(53);
            let m = if low > 0 && t.coin() { (m >> low << low) | 1u64 << (low - 1) } else { m };
            let m = m.wrapping_add(*t.pick(&[0, 1, u64::MAX]));
            format!("{sign}{m}")
        }
        2 => {
            let (a, b) = (t.range(1, 9), t.range(1, 7));
            let i = digits(t, a);
            let i = i.trim_start_matches('0');
            let e = match t.below(4) {
                0 => format!("e{}", t.below(12)),
                1 => format!("E-{}", t.below(12)),
                2 => format!("e+{}", t.below(12)),
                _ => String::new(),
            };
            format!("{sign}{}.{}{e}", if i.is_empty() { "0" } else { i }, digits(t, b))
        }
        _ => format!("{sign}{}e{}{}", t.range(1, 999), t.pick(&["", "+", "-"]), t.below(300)),
    }
}

/// Number texts in JSON: read as the nearest double (where serde_json does).
fn number_fronts(t: &mut Tape, c: &mut Ctx) -> CheckResult {
    let n = t.range(1, 4);
    let texts: Vec<String> = (0..n).map(|_| number_text(t)).collect();
    let json = match t.below(4) {
        0 => format!("[{}]", texts.join(",")),
        1 => format!("{{\"a\": {}}}", texts[0]),
        2 => format!("[{{\"a\":{}}},{{\"a\":true}}]", texts.join("},{\"a\":")),
        _ => texts[0].clone(),
    };
    c.label("number texts");
    c.nontrivial(&json);
    c.describe(|| json.clone());
    let s: serde_json::Value = serde_json::from_str(&json).map_err(|e| format!("serde_json rejects {json}: {e}"))?;
    let exact = crate::jsonp::parse(&json).map_err(|e| format!("harness JSON parser: {e}"))?;
    let w = toon::JsonValue::from(s.clone());
    converted(&s, &w)?;
    let integers = texts.iter().all(|x| x.parse::<u64>().is_ok() || x.parse::<i64>().is_ok() && x != "-0");
    c.cond("all within 64 bits", integers);
    if integers && !same(&w, &exact) {
        return Err(format!("{json} is read as {}", show(&w)));
    }
    let want = encode(normal(&w), None);
    for (how, got) in [
        ("json_to_toon", toon::json_to_toon(&json).map_err(|e| e.to_string())),
        ("encode of the serde_json value", Ok(encode(s, None))),
        ("encode_to_toon_lines", encode_to_toon_lines(&json, None).map(|l| l.join("\n")).map_err(|e| e.to_string())),
        #[cfg(feature = "wasm")]
        ("wasm encode", toon::wasm::encode(&json).map_err(|_| String::new())),
    ] {
        if got.as_ref() != Ok(&want) {
            return Err(format!("{how} of {json} gives {got:?}, expected {want}"));
        }
    }
    let back = try_decode(&want, None).map_err(|e| format!("{want} does not decode: {e}"))?;
    if !same(&back, &normal(&w)) {
        return Err(format!("{json} comes back as {}", show(&back)));
    }
    Ok(())
}

fn encode_fronts(t: &mut Tape, c: &mut Ctx) -> CheckResult {
    let fold = t.coin();
    let eo = gens::enc_opts(t, fold);
    let v = Vg::new(if fold { Keys::Paths } else { Keys::Any }, 5).root(t);
    let json = crate::jsonp::free(&v, t);
    if interesting(&v) {
        c.nontrivial(&(&json, eo.indent, eo.delim, eo.fold, eo.flatten));
    }
    c.label("encoding");
    c.describe(|| format!("{}\n{json}", opts_text(&eo)));
    let lines = encode_lines(v.clone(), Some(eo.to()));
    let text = encode(v.clone(), Some(eo.to()));
    if lines.join("\n") != text {
        return Err(format!("encode differs from encode_lines: {lines:?}\n{text}"));
    }
    // by way of JSON text (numbers as serde_json reads them)
    let s: serde_json::Value = serde_json::from_str(&json).map_err(|e| format!("serde_json rejects {json}: {e}"))?;
    let w = toon::JsonValue::from(s.clone());
    converted(&s, &w)?;
    if encode(s, Some(eo.to())) != encode(w.clone(), Some(eo.to())) {
        return Err(format!("encoding a serde_json::Value differs for {json}"));
    }
    let cli = encode_to_toon_lines(&json, Some(eo.to())).map_err(|e| format!("encode_to_toon_lines rejects {json}: {e}"))?;
    if cli != encode_lines(w.clone(), Some(eo.to())) {
        return Err(format!("encode_to_toon_lines gives {cli:?} for {json}"));
    }
    let exact = crate::jsonp::parse(&json).map_err(|e| format!("harness JSON parser: {e}"))?;
    if same(&exact, &w) {
        c.label("numbers exact");
        if cli != encode_lines(v.clone(), Some(eo.to())) {
            return Err(format!("encode_to_toon_lines gives {cli:?}, encode_lines of the value {lines:?}, for {json}"));
        }
    }
    // defaults
    let dflt = encode(w.clone(), None);
    let j2t = toon::json_to_toon(&json).map_err(|e| format!("json_to_toon rejects {json}: {e}"))?;
    if j2t != dflt {
        return Err(format!("json_to_toon gives\n{j2t}\nencode with no options\n{dflt}"));
    }
    #[cfg(feature = "wasm")]
    if toon::wasm::encode(&json).map_err(|_| format!("wasm encode rejects {json}"))? != dflt {
        return Err(format!("wasm encode differs from encode with no options for {json}"));
    }
    let o = EncodeOptions {
        indent: if t.coin() { None } else { Some(2) },
        delimiter: if t.coin() { None } else { Some(',') },
        key_folding: if t.coin() { None } else { Some(KeyFoldingMode::Off) },
        flatten_depth: if t.coin() { None } else { Some(t.below(5)) },
        replacer: None,
    };
    let what = format!("indent {:?} delimiter {:?} folding {:?} flatten_depth {:?}", o.indent, o.delimiter, o.key_folding, o.flatten_depth);
    if encode(w.clone(), Some(o)) != dflt {
        return Err(format!("encode with {what} differs from encode with no options for {json}"));
    }
    // an option that is left out has its default whatever the others are
    let mut part = eo.to();
    if t.coin() {
        part.indent = None;
    }
    if t.coin() {
        part.delimiter = None;
    }
    if t.coin() {
        part.key_folding = None;
    }
    if t.coin() {
        part.flatten_depth = None;
    }
    let what = format!("indent {:?} delimiter {:?} folding {:?} flatten_depth {:?}", part.indent, part.delimiter, part.key_folding, part.flatten_depth);
    let whole = EncodeOptions {
        indent: part.indent.or(Some(2)),
        delimiter: part.delimiter.or(Some(',')),
        key_folding: part.key_folding.or(Some(KeyFoldingMode::Off)),
        flatten_depth: part.flatten_depth.or(Some(usize::MAX)),
        replacer: None,
    };
    let (got, want) = (encode(v.clone(), Some(part)), encode(v.clone(), Some(whole)));
    if got != want {
        return Err(format!("encode with {what} differs from the same with explicit defaults for {json}\ngot:\n{got}\nexpected:\n{want}"));
    }
    // no flatten depth is no limit
    if fold && eo.flatten.is_none() {
        let mut o = eo.to();
        o.flatten_depth = Some(usize::MAX);
        if encode(v.clone(), Some(o)) != text {
            return Err(format!("an unlimited flatten depth differs from none for {json}"));
        }
    }
    Ok(())
}

fn c10(t: &mut Tape, c: &mut Ctx) -> CheckResult {
    match t.weighted(&[5, 6, 6, 1]) {
        3 => number_fronts(t, c),
        0 => encode_fronts(t, c),
        1 => {
            let indent = if t.coin() { 2 } else { gens::indent_or_none(t) };
            let text = if t.coin() { docgen::wild(t, indent) } else { docgen::document(t, indent).text };
            let text = if t.chance(1, 6) { docgen::line_ends(t, &text) } else { text };
            let (strict, expand) = (t.coin(), t.coin());
            c.nontrivial(&(&text, indent, strict, expand));
            c.describe(|| format!("indent={indent} strict={strict} expand={expand}\n{text}"));
            c.label("decoding");
            c.cond("with carriage returns", text.contains('\r'));
            decode_fronts(&text, indent, strict, expand, c)?;
            partial_decode(&text, indent, strict, expand, t)
        }
        _ => {
            let text = match t.below(3) {
                0 => docgen::wild(t, 2),
                1 => docgen::document(t, 2).text,
                _ => encode(gens::value(t), None),
            };
            let text = if t.chance(1, 6) { docgen::line_ends(t, &text) } else { text };
            c.nontrivial(&text);
            c.describe(|| text.clone());
            c.label("decoding with defaults");
            default_decode_fronts(&text, t)
        }
    }
}

/// JSON number texts whose conversion must be exact.
const NUMBERS: [&str; 24] = [
    "0", "-0", "1", "-1", "0.1", "0.2", "0.3", "1e21", "1E5", "1e-7", "123456789.125", "9007199254740991",
    "9007199254740993", "18446744073709551615", "-9223372036854775808", "1.7976931348623157e308", "5e-324",
    "2.2250738585072014e-308", "0.30000000000000004", "123.456e2", "100000000000000000000", "1.0", "12.50",
    // read one unit in the last place off, see known-findings.txt
    "1.2345678901234567e-300",
];
fn c10_enum(i: u64, c: &mut Ctx) -> CheckResult {
    let n = NUMBERS[i as usize];
    c.label("number text");
    c.nontrivial(n);
    c.describe(|| n.to_string());
    let want: f64 = n.parse().unwrap();
    let t = toon::json_to_toon(n).map_err(|e| format!("json_to_toon rejects {n}: {e}"))?;
    let got = try_decode(&t, None).map_err(|e| format!("{t} does not decode: {e}"))?;
    if same(&got, &normal(&num(want))) {
        return Ok(());
    }
    let what = format!("json_to_toon reads the JSON number {n} as {}", show(&got));
    if crate::known::listed("C10", &what) {
        c.known.push(what);
        return Ok(());
    }
    Err(what)
}

// ---------------------------------------------------------------- C11

/// One value, keys alternating with values inside objects, ends that match.
pub fn well_formed(ev: &[Ev], lengths: bool) -> Result<(), String> {
    enum F {
        Obj { keyed: bool },
        Arr { n: usize, want: usize },
    }
    let mut st: Vec<F> = vec![];
    let mut roots = 0;
    for (i, e) in ev.iter().enumerate() {
        let value = |st: &mut Vec<F>, roots: &mut usize| -> Result<(), String> {
            match st.last_mut() {
                None => *roots += 1,
                Some(F::Obj { keyed }) => {
                    if !*keyed {
                        return Err(format!("event {i} is a value without a key"));
                    }
                    *keyed = false;
                }
                Some(F::Arr { n, .. }) => *n += 1,
            }
            Ok(())
        };
        match e {
            Ev::Primitive { .. } => value(&mut st, &mut roots)?,
            Ev::StartObject => {
                value(&mut st, &mut roots)?;
                st.push(F::Obj { keyed: false });
            }
            Ev::StartArray { length } => {
                value(&mut st, &mut roots)?;
                st.push(F::Arr { n: 0, want: *length });
            }
            Ev::Key { .. } => match st.last_mut() {
                Some(F::Obj { keyed }) if !*keyed => *keyed = true,
                _ => return Err(format!("event {i} is a key out of place")),
            },
            Ev::EndObject => match st.pop() {
                Some(F::Obj { keyed: false }) => {}
                _ => return Err(format!("event {i} ends an object out of place")),
            },
            Ev::EndArray => match st.pop() {
                Some(F::Arr { n, want }) => {
                    if lengths && n != want {
                        return Err(format!("event {i} ends an array of {n} announced as {want}"));
                    }
                }
                _ => return Err(format!("event {i} ends an array out of place")),
            },
        }
    }
    if !st.is_empty() || roots != 1 {
        return Err(format!("{} open containers and {roots} values at the end", st.len()));
    }
    Ok(())
}

fn emit(v: &V, out: &mut Vec<Ev>, f: &mut dyn FnMut(&str) -> bool, len: &mut dyn FnMut(usize) -> usize) {
    match v {
        V::Primitive(p) => out.push(Ev::Primitive { value: p.clone() }),
        V::Array(a) => {
            out.push(Ev::StartArray { length: len(a.len()) });
            for x in a {
                emit(x, out, f, len);
            }
            out.push(Ev::EndArray);
        }
        V::Object(o) => {
            out.push(Ev::StartObject);
            for (k, x) in o {
                out.push(Ev::Key { key: k.clone(), was_quoted: f(k) });
                emit(x, out, f, len);
            }
            out.push(Ev::EndObject);
        }
    }
}

/// Some keys of some objects occur again, beside the first or further on.
fn with_repeated_keys(t: &mut Tape, v: &V) -> (V, bool) {
    match v {
        V::Primitive(_) => (v.clone(), false),
        V::Array(a) => {
            let a: Vec<(V, bool)> = a.iter().map(|x| with_repeated_keys(t, x)).collect();
            let twice = a.iter().any(|x| x.1);
            (V::Array(a.into_iter().map(|x| x.0).collect()), twice)
        }
        V::Object(o) => {
            let mut twice = false;
            let mut out = vec![];
            for (k, x) in o {
                let (x, w) = with_repeated_keys(t, x);
                twice |= w;
                out.push((k.clone(), x));
            }
            if !out.is_empty() && !twice && t.coin() {
                let i = t.below(out.len());
                let j = if t.coin() { i + 1 } else { t.below(out.len() + 1) };
                out.insert(j, out[i].clone());
                twice = true;
            }
            (V::Object(out), twice)
        }
    }
}

fn c11(t: &mut Tape, c: &mut Ctx) -> CheckResult {
    if t.coin() {
        let eo = gens::enc_opts(t, false);
        let v = gens::value(t);
        let (v, twice) = if t.chance(1, 12) { with_repeated_keys(t, &v) } else { (v, false) };
        c.cond("repeated keys", twice);
        if interesting(&v) {
            c.nontrivial(&(show(&v), eo.indent, eo.delim));
        }
        c.label("events of a value");
        c.describe(|| format!("{}\n{}", opts_text(&eo), show(&v)));
        let fail = |m: String| Err(format!("{m}\nvalue {}\noptions {}", clip(&show(&v), 3000), opts_text(&eo)));
        let ev = encode_stream_events(v.clone(), Some(eo.to()));
        let mut want = vec![];
        emit(&v, &mut want, &mut |k| !crate::model_enc::bare_key(k), &mut |n| n);
        if !same_events(&ev, &want) {
            return fail(format!("encode_stream_events gives {ev:?}"));
        }
        if twice {
            return Ok(());
        }
        match build_node_from_events(ev.clone()).map(node_to_json) {
            Ok(w) if same(&w, &v) => {}
            r => return fail(format!("the events build {r:?}")),
        }
        let img = round_trip_image(&v);
        let want = encode_stream_events(img, Some(eo.to()));
        let text = encode(v.clone(), Some(eo.to()));
        for strict in [true, false] {
            match stream(&text, eo.indent, strict) {
                Ok(got) if same_events(&got, &want) => {}
                Ok(got) => return fail(format!("decoding the text gives other events (strict={strict}):\n{got:?}\nthan encoding the value:\n{want:?}\ntext:\n{text}")),
                Err(e) => return fail(format!("the text does not decode: {e}\ntext:\n{text}")),
            }
        }
        // options that shape text do not shape events
        let other = gens::enc_opts(t, true);
        if !same_events(&encode_stream_events(v.clone(), Some(other.to())), &ev) {
            return fail(format!("the events change with the options {}", opts_text(&other)));
        }
        return Ok(());
    }
    let indent = gens::indent_or_none(t);
    let text = if t.chance(2, 3) { docgen::wild(t, indent) } else { docgen::document(t, indent).text };
    c.describe(|| format!("indent={indent}\n{text}"));
    for strict in [true, false] {
        let Ok(ev) = stream(&text, indent, strict) else {
            c.label("rejected");
            continue;
        };
        c.label("events of a text");
        c.nontrivial(&(&text, indent));
        if let Err(m) = well_formed(&ev, strict) {
            return Err(format!("events of a text (strict={strict}): {m}\n{ev:?}\ntext:\n{text}"));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C14

fn to_serde(v: &V) -> serde_json::Value {
    use serde_json::Value as S;
    match v {
        V::Primitive(P::Null) => S::Null,
        V::Primitive(P::Bool(b)) => S::Bool(*b),
        V::Primitive(P::String(s)) => S::String(s.clone()),
        V::Primitive(P::Number(x)) => serde_json::Number::from_f64(*x).map_or(S::Null, S::Number),
        V::Array(a) => S::Array(a.iter().map(to_serde).collect()),
        V::Object(o) => S::Object(o.iter().map(|(k, x)| (k.clone(), to_serde(x))).collect()),
    }
}

pub fn serde_text(v: &V, indent: usize) -> String {
    let s = to_serde(v);
    if indent == 0 {
        return serde_json::to_string(&s).unwrap();
    }
    let pad = " ".repeat(indent);
    let mut out = vec![];
    let f = serde_json::ser::PrettyFormatter::with_indent(pad.as_bytes());
    serde::Serialize::serialize(&s, &mut serde_json::Serializer::with_formatter(&mut out, f)).unwrap();
    String::from_utf8(out).unwrap()
}

fn printers(v: &V, indent: usize, t: &mut Tape) -> CheckResult {
    let n = finite(v);
    let want = serde_text(&n, indent);
    let fail = |m: String| Err(format!("indent={indent} {m}\nvalue {}\nexpected:\n{want}", clip(&show(v), 3000)));
    let mut ev = vec![];
    let salt = t.below(3);
    emit(v, &mut ev, &mut |_| salt == 1, &mut |k| if salt == 2 { k + 7 } else { k });
    match json_stream_from_events(ev, indent) {
        Ok(x) if x.concat() == want => {}
        Ok(x) => return fail(format!("the event printer writes ({}):\n{}", first_diff(&x.concat(), &want), x.concat())),
        Err(e) => return fail(format!("the event printer fails: {e}")),
    }
    let plain = !any_string(v, &|s| s.chars().any(char::is_control)) && !any_key(v, &|s| s.chars().any(char::is_control));
    let lines = json_stringify_lines(v, indent);
    let text = lines.concat();
    match crate::jsonp::parse(&text) {
        Ok(w) if same(&w, &n) => {}
        r => return fail(format!("the value printer writes\n{text}\nwhich is {r:?}")),
    }
    if plain && text != want {
        return fail(format!("the value printer writes ({}):\n{text}", first_diff(&text, &want)));
    }
    if !plain && text.split('\n').count() != want.split('\n').count() {
        return fail(format!("the value printer writes another number of lines:\n{text}"));
    }
    match crate::jsonp::parse(&want) {
        Ok(w) if same(&w, &n) => Ok(()),
        r => fail(format!("harness JSON parser: {r:?}")),
    }
}

/// Damage a well-formed event sequence so that it must be rejected.
fn damage_events(t: &mut Tape, ev: &mut Vec<Ev>) -> Option<&'static str> {
    let open = |e: &Ev| matches!(e, Ev::StartObject | Ev::StartArray { .. });
    let close = |e: &Ev| matches!(e, Ev::EndObject | Ev::EndArray);
    let ev_open = |e: Option<&Ev>| e.is_some_and(open);
    let find = |t: &mut Tape, ev: &[Ev], f: &dyn Fn(usize, &Ev) -> bool| -> Option<usize> {
        let v: Vec<usize> = (0..ev.len()).filter(|&i| f(i, &ev[i])).collect();
        if v.is_empty() { None } else { Some(*t.pick(&v)) }
    };
    match t.below(14) {
        12 => {
            let i = find(t, ev, &|_, e| close(e))?;
            ev.remove(i);
            Some("an end removed")
        }
        13 => {
            // a few events left out, repeated or exchanged
            for _ in 0..t.range(1, 3) {
                if ev.is_empty() {
                    return None;
                }
                let (i, j) = (t.below(ev.len()), t.below(ev.len()));
                match t.below(4) {
                    0 => drop(ev.remove(i)),
                    1 => {
                        let e = ev[i].clone();
                        ev.insert(j, e);
                    }
                    2 => ev.swap(i, j),
                    _ => {
                        let next = (i + 1).min(ev.len() - 1);
                        ev.swap(i, next);
                    }
                }
            }
            if well_formed(ev, false).is_ok() {
                return None;
            }
            Some("events out of order")
        }
        7 => {
            // a container inside an object, its key gone
            let i = find(t, ev, &|i, e| matches!(e, Ev::Key { .. }) && ev_open(ev.get(i + 1)))?;
            ev.remove(i);
            Some("a container without a key")
        }
        8 => {
            let i = find(t, ev, &|i, e| matches!(e, Ev::Primitive { .. }) && i > 0 && matches!(ev[i - 1], Ev::Key { .. }))?;
            ev.remove(i);
            Some("a key without a value")
        }
        9 => {
            let i = find(t, ev, &|_, e| matches!(e, Ev::Key { .. } | Ev::EndObject))?;
            ev.insert(i, Ev::Key { key: "k".into(), was_quoted: t.coin() });
            Some("a key without a value")
        }
        10 => {
            if t.coin() {
                let copy = ev.clone();
                ev.extend(copy);
            } else if t.coin() {
                ev.insert(0, Ev::Primitive { value: P::Null });
            } else {
                ev.push(Ev::Primitive { value: gens::prim(t) });
            }
            Some("two values")
        }
        11 => {
            ev.clear();
            Some("no events")
        }
        0 => {
            let i = find(t, ev, &|_, e| close(e))?;
            ev[i] = if matches!(ev[i], Ev::EndObject) { Ev::EndArray } else { Ev::EndObject };
            Some("an end of the other kind")
        }
        1 => {
            let i = find(t, ev, &|_, e| close(e))?;
            ev.truncate(i);
            Some("cut off before an end")
        }
        2 => {
            ev.push(if t.coin() { Ev::EndArray } else { Ev::EndObject });
            Some("an end too many")
        }
        3 => {
            // a primitive inside an object, its key gone
            let i = find(t, ev, &|i, e| matches!(e, Ev::Key { .. }) && matches!(ev.get(i + 1), Some(Ev::Primitive { .. })))?;
            ev.remove(i);
            Some("a primitive without a key")
        }
        4 => {
            // a key directly inside an array
            let i = find(t, ev, &|_, e| matches!(e, Ev::StartArray { .. }))?;
            ev.insert(i + 1, Ev::Key { key: "k".into(), was_quoted: t.coin() });
            Some("a key inside an array")
        }
        5 => {
            ev.insert(0, Ev::Key { key: "k".into(), was_quoted: false });
            Some("a key at the root")
        }
        _ => {
            let i = find(t, ev, &|_, e| open(e))?;
            ev.remove(i);
            Some("a start removed")
        }
    }
}

fn c14(t: &mut Tape, c: &mut Ctx) -> CheckResult {
    let indent = match t.weighted(&[3, 3, 1, 1]) {
        0 => 0,
        1 => 2,
        2 => 4,
        _ => t.range(1, 16),
    };
    let mut g = Vg::new(Keys::Any, 6);
    g.raw_numbers = t.chance(1, 8);
    let v = g.root(t);
    match t.weighted(&[5, 3, 1]) {
        0 => {
            if interesting(&v) {
                c.nontrivial(&(show(&v), indent));
            }
            c.label("printed");
            c.describe(|| format!("indent={indent}\n{}", show(&v)));
            printers(&v, indent, t)
        }
        1 => {
            let mut ev = vec![];
            emit(&v, &mut ev, &mut |_| false, &mut |n| n);
            let Some(what) = damage_events(t, &mut ev) else {
                c.discarded = true;
                c.label("does not apply");
                return Ok(());
            };
            c.label(what);
            c.nontrivial(&format!("{ev:?}{indent}"));
            c.describe(|| format!("{what}\n{ev:?}"));
            if let Ok(n) = build_node_from_events(ev.clone()) {
                return Err(format!("the builder accepts {what}: {}\n{ev:?}", clip(&show(&node_to_json(n)), 2000)));
            }
            if let Ok(x) = json_stream_from_events(ev.clone(), indent) {
                return Err(format!("the event printer accepts {what}: {}\n{ev:?}", clip(&x.concat(), 2000)));
            }
            Ok(())
        }
        _ => {
            // any events at all
            let n = t.below(12);
            let ev: Vec<Ev> = (0..n)
                .map(|_| match t.below(6) {
                    0 => Ev::Primitive { value: gens::prim(t) },
                    1 => Ev::StartObject,
                    2 => Ev::EndObject,
                    3 => Ev::StartArray { length: t.below(3) },
                    4 => Ev::EndArray,
                    _ => Ev::Key { key: gens::key(t, Keys::Any), was_quoted: t.coin() },
                })
                .collect();
            c.label("random events");
            c.nontrivial(&format!("{ev:?}{indent}"));
            c.describe(|| format!("{ev:?}"));
            let wf = well_formed(&ev, false).is_ok();
            let b = build_node_from_events(ev.clone());
            let p = json_stream_from_events(ev.clone(), indent);
            if wf {
                let Ok(n) = b else { return Err(format!("the builder rejects well-formed events {ev:?}")) };
                let v = node_to_json(n);
                let Ok(x) = p else { return Err(format!("the event printer rejects well-formed events {ev:?}")) };
                if duplicate_keys(&v) {
                    return Ok(());
                }
                if x.concat() != serde_text(&v, indent) {
                    return Err(format!("the event printer writes {} for {ev:?}", x.concat()));
                }
            } else if let Ok(n) = b {
                return Err(format!("the builder accepts {}\n{ev:?}", clip(&show(&node_to_json(n)), 2000)));
            } else if let Ok(x) = p {
                return Err(format!("the event printer accepts {}\n{ev:?}", clip(&x.concat(), 2000)));
            }
            Ok(())
        }
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C10",
            rule: "a value of more than two nodes or with quoting, or any text; counted once per input and options",
            assumptions: &["numbers in JSON text are read by serde_json; where it is inexact the comparison uses what it read"],
            quick: 350_000, thorough: 6_000_000, shrink: 3000, threads: 8,
            run: c10, enum_count: |_| NUMBERS.len() as u64, run_enum: c10_enum,
        },
        Prop {
            id: "C11",
            rule: "a value of more than two nodes or with quoting, or a text that decodes; counted once per input and options",
            assumptions: &["announced lengths are compared with actual ones in strict mode"],
            quick: 979_000, thorough: 10_000_000, shrink: 3000, threads: 8,
            run: c11, enum_count: no_enum_count, run_enum: no_enum,
        },
        Prop {
            id: "C14",
            rule: "a value of more than two nodes or with quoting, or any event sequence; counted once per input",
            assumptions: &["texts of strings with control characters are compared after parsing"],
            quick: 1_050_000, thorough: 10_000_000, shrink: 3000, threads: 8,
            run: c14, enum_count: no_enum_count, run_enum: no_enum,
        },
    ]
}
