//! C12: the asynchronous API against the synchronous one.
use super::api::{block_on, well_formed};
use super::dec::stream;
use super::enc::{interesting, opts_text};
use crate::docgen;
use crate::engine::{CheckResult, Ctx, Prop, Tape, catch, no_enum, no_enum_count};
use crate::gens::{self, Keys, Vg};
use crate::util::*;
use asupersync::stream::{Stream, StreamExt};
use std::cell::Cell;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use toon::decode::{AsyncDecodeStream, decode_stream_async, try_decode_async, try_decode_stream_async};
use toon::encode::async_encode as ae;
use toon::options::DecodeStreamOptions;
use toon::{JsonStreamEvent as Ev, encode, encode_lines, encode_stream_events, try_decode};

struct Count(AtomicUsize);
impl Wake for Count {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::Relaxed);
    }
}

/// Poll a stream once; pending is fine only when the task was woken.
fn next<S: Stream + Unpin>(s: &mut S) -> Result<Option<S::Item>, String> {
    let w = Arc::new(Count(AtomicUsize::new(0)));
    let waker = Waker::from(w.clone());
    let mut cx = Context::from_waker(&waker);
    for i in 0..1_000_000usize {
        match Pin::new(&mut *s).poll_next(&mut cx) {
            Poll::Ready(r) => return Ok(r),
            Poll::Pending if w.0.load(Ordering::Relaxed) > 0 => {
                w.0.store(0, Ordering::Relaxed);
            }
            Poll::Pending => return Err(format!("the stream is pending and nobody wakes the task (poll {i})")),
        }
    }
    Err("the stream stays pending".into())
}

/// Collect a stream; `limit` items at most.
fn collect<S: Stream + Unpin>(s: &mut S, limit: usize) -> Result<Vec<S::Item>, String> {
    let mut v = vec![];
    while let Some(x) = next(s)? {
        v.push(x);
        if v.len() > limit {
            return Err(format!("the stream does not end after {limit} items"));
        }
    }
    for _ in 0..3 {
        if next(s)?.is_some() {
            return Err("the stream yields an item after its end".into());
        }
    }
    Ok(v)
}

/// Lines that count how many of them were taken.
struct Lines {
    v: std::vec::IntoIter<String>,
    taken: Rc<Cell<usize>>,
}
impl Iterator for Lines {
    type Item = String;
    fn next(&mut self) -> Option<String> {
        let x = self.v.next();
        if x.is_some() {
            self.taken.set(self.taken.get() + 1);
        }
        x
    }
}

fn owned(text: &str) -> Vec<String> {
    text.split('\n').map(str::to_string).collect()
}

/// Is the line a field of a root object with a primitive value on it?
/// With whether the key is quoted.
fn simple_field(l: &str) -> Option<bool> {
    let (value, quoted) = match l.strip_prefix('"') {
        Some(r) => {
            let (a, b) = r.split_once('"')?;
            if a.contains('\\') {
                return None;
            }
            (b.strip_prefix(": ")?, true)
        }
        None => {
            let (a, b) = l.split_once(": ")?;
            if a.is_empty() || a.starts_with([' ', '-']) || a.contains(['[', ']', '{', '}', '"', '\\', '\t', ':']) {
                return None;
            }
            (b, false)
        }
    };
    (!value.trim().is_empty()).then_some(quoted)
}

fn text(t: &mut Tape, indent: usize, c: &mut Ctx) -> String {
    match t.below(4) {
        0 => docgen::wild(t, indent),
        1 => docgen::document(t, indent).text,
        k => {
            // an object that starts with simple fields
            let mut g = Vg::new(Keys::Any, 4);
            let n = t.count(6, 150);
            let mut o: Vec<(String, V)> = vec![];
            for _ in 0..n {
                let key = gens::key(t, Keys::Any);
                if o.iter().all(|(q, _)| *q != key) {
                    let p = V::Primitive(gens::prim(t));
                    o.push((key, normal(&p)));
                }
            }
            let m = t.below(4);
            for _ in 0..m {
                let key = gens::key(t, Keys::Any);
                if o.iter().all(|(q, _)| *q != key) {
                    let x = g.root(t);
                    o.push((key, x));
                }
            }
            let free = *t.pick(&[0, 3, 6]);
            let blanks = t.coin();
            let d = docgen::from_value(t, indent, free, &V::Object(o), blanks);
            c.label("leading fields");
            if k == 2 {
                return d.text;
            }
            let n = t.range(1, 3);
            docgen::mutate(t, &d.text, indent, n)
        }
    }
}

fn decoding(t: &mut Tape, c: &mut Ctx) -> CheckResult {
    let indent = gens::indent_or_none(t);
    let text = text(t, indent, c);
    let strict = t.coin();
    let o = || Some(DecodeStreamOptions { indent: Some(indent), strict: Some(strict) });
    c.describe(|| format!("indent={indent} strict={strict}\n{text}"));
    c.nontrivial(&(&text, indent, strict));
    let want = stream(&text, indent, strict);
    c.cond("accepted", want.is_ok());
    c.cond("rejected", want.is_err());
    let fail = |m: String| -> CheckResult { Err(format!("indent={indent} strict={strict}: {m}\nsynchronous: {want:?}\ntext:\n{text}")) };
    let same_result = |how: &str, got: Result<Vec<Ev>, String>| -> CheckResult {
        match (&got, &want) {
            (Ok(a), Ok(b)) if same_events(a, b) => Ok(()),
            (Err(a), Err(b)) if a == b => Ok(()),
            _ => fail(format!("{how} gives {got:?}")),
        }
    };
    let e = |e: toon::error::ToonError| e.to_string();
    same_result("try_decode_stream_async", block_on(try_decode_stream_async(owned(&text), o())).map_err(e))?;
    same_result("try_decode_stream", block_on(toon::try_decode_stream(owned(&text), o())).map_err(e))?;
    if want.is_ok() || t.chance(1, 8) {
        let m = |m: String| m.split_once(": ").map_or(String::new(), |x| x.1.to_string());
        same_result("decode_stream_async", catch(|| block_on(decode_stream_async(owned(&text), o()))).map_err(m))?;
    }
    // the stream
    let taken = Rc::new(Cell::new(0));
    let lines = owned(&text);
    let mut s = AsyncDecodeStream::new(Lines { v: lines.clone().into_iter(), taken: taken.clone() }, o());
    let limit = 20 * text.len() + 50;
    let mut got: Vec<Ev> = vec![];
    let mut at: Vec<usize> = vec![];
    let mut err = None;
    loop {
        match next(&mut s) {
            Err(m) => return fail(m),
            Ok(None) => break,
            Ok(Some(_)) if err.is_some() => return fail(format!("the stream yields another item after the error {err:?}")),
            Ok(Some(Ok(x))) => {
                got.push(x);
                at.push(taken.get());
            }
            Ok(Some(Err(x))) => err = Some(x.to_string()),
        }
        if got.len() > limit {
            return fail(format!("the stream does not end after {limit} events"));
        }
    }
    for _ in 0..3 {
        match next(&mut s) {
            Ok(None) => {}
            _ => return fail("the stream yields an item after its end".into()),
        }
    }
    match (&want, &err) {
        (Ok(b), None) if same_events(&got, b) => {}
        (Err(_), Some(_)) => {}
        _ => return fail(format!("the stream gives {got:?} and the error {err:?}")),
    }
    // Leading simple fields arrive with their lines: whatever a prefix of
    // lines made of nothing else decodes to is yielded before a later line
    // (other than the next) is read.
    if want.is_ok() && matches!(got.first(), Some(Ev::StartObject)) {
        let mut fields = 0;
        for (i, l) in lines.iter().enumerate() {
            if l.is_empty() {
                continue;
            }
            match simple_field(l) {
                None => break,
                Some(q) => c.cond("a leading quoted key", q),
            }
            let last = 2 + 2 * fields; // Start, then key and primitive of each field
            fields += 1;
            if at.get(last).is_none_or(|&n| n > i + 2) {
                return fail(format!("the field of line {} is yielded after reading {:?} lines", i + 1, at.get(last)));
            }
        }
        c.cond("leading fields yielded with their lines", fields > 0);
    }
    // They also arrive when a later line is at fault.
    if err.is_some() {
        let mut k = lines.iter().take_while(|l| l.is_empty() || simple_field(l).is_some()).count();
        for _ in 0..8 {
            if k == 0 {
                break;
            }
            if let Ok(mut p) = stream(&lines[..k].join("\n"), indent, strict) {
                p.pop();
                if p.len() > 1 && !(got.len() >= p.len() && same_events(&got[..p.len()], &p)) {
                    return fail(format!("before its error the stream gives {got:?}, the first {k} lines {p:?}"));
                }
                c.cond("leading fields yielded before an error", p.len() > 1);
                break;
            }
            k -= 1;
        }
    }
    // Two streams read in turns, with other calls in between, do not meet.
    if t.chance(1, 5) {
        c.label("two streams in turns");
        let other = if t.coin() { docgen::mutate(t, &text, indent, 1) } else { self::text(t, indent, c) };
        let (i2, s2) = if t.coin() { (indent, strict) } else { (gens::indent_or_none(t), t.coin()) };
        let o2 = Some(DecodeStreamOptions { indent: Some(i2), strict: Some(s2) });
        let mut a = AsyncDecodeStream::new(owned(&text).into_iter(), o());
        let mut b = AsyncDecodeStream::new(owned(&other).into_iter(), o2);
        let (mut ga, mut gb): (Vec<Ev>, Vec<Ev>) = (vec![], vec![]);
        let (mut ea, mut eb) = (None, None);
        let (mut da, mut db) = (false, false);
        // the second one is sometimes given up half-way
        let give_up = if t.coin() { t.below(40) } else { usize::MAX };
        let order = t.bits();
        let most = limit + 20 * other.len() + 50;
        for k in 0..2 * most {
            if da && db {
                break;
            }
            let first = db || (!da && (order >> (k % 61)) & 1 == 0);
            let (s, g, e, d) = if first { (&mut a, &mut ga, &mut ea, &mut da) } else { (&mut b, &mut gb, &mut eb, &mut db) };
            match next(s) {
                Err(m) => return fail(m),
                Ok(None) => *d = true,
                Ok(Some(Ok(x))) => g.push(x),
                Ok(Some(Err(x))) => *e = Some(x.to_string()),
            }
            if !first && gb.len() >= give_up {
                db = true;
                eb = Some("given up".into());
                b = AsyncDecodeStream::new(Vec::new().into_iter(), None);
            }
            if k % 17 == 5 && k < 400 {
                let _ = try_decode(&other, Some(gens::dec(i2, s2, false)));
            }
        }
        if !same_events(&ga, &got) || ea != err {
            return fail(format!("read in turns with another stream it gives {ga:?} and the error {ea:?}, alone {got:?} and {err:?}\nthe other text (indent {i2}, strict {s2}):\n{other}"));
        }
        match (stream(&other, i2, s2), &eb) {
            (Ok(w), None) if same_events(&w, &gb) => {}
            (Ok(w), Some(m)) if m == "given up" && gb.len() <= w.len() && same_events(&gb, &w[..gb.len()]) => {}
            (Err(_), Some(_)) => {}
            (w, _) => return fail(format!("the other stream gives {gb:?} and the error {eb:?}, expected {w:?}\nthe other text (indent {i2}, strict {s2}):\n{other}")),
        }
    }
    // Lines that a caller made, with a line end inside or at their end.
    if t.chance(1, 12) {
        c.label("line ends in lines");
        let mut ls: Vec<String> = vec![];
        for l in owned(&text) {
            match (t.below(6), ls.last_mut()) {
                (0, Some(p)) => {
                    p.push('\n');
                    p.push_str(&l);
                }
                (1, _) => ls.push(format!("{l}\r")),
                (2, _) => ls.push(format!("{l}\n")),
                _ => ls.push(l),
            }
        }
        let w = toon::try_decode_stream_sync(ls.clone(), o());
        let mut s = AsyncDecodeStream::new(ls.clone().into_iter(), o());
        let v = match collect(&mut s, limit + 4 * ls.len()) {
            Ok(v) => v,
            Err(m) => return fail(format!("on the lines {ls:?}: {m}")),
        };
        let r: Result<Vec<Ev>, String> = v.into_iter().map(|x| x.map_err(e)).collect();
        match (&r, &w) {
            (Ok(a), Ok(b)) if same_events(a, b) => {}
            (Err(_), Err(_)) => {}
            _ => return fail(format!("on the lines {ls:?} the stream gives {r:?}, the synchronous decoder {w:?}")),
        }
    }
    // values
    let expand = t.chance(1, 3);
    let d = || Some(gens::dec(indent, strict, expand));
    let (a, b) = (block_on(try_decode_async(&text, d())).map_err(e), try_decode(&text, d()).map_err(e));
    match (&a, &b) {
        (Ok(x), Ok(y)) if same(x, y) => {}
        (Err(x), Err(y)) if x == y => {}
        _ => return fail(format!("try_decode_async gives {a:?}, try_decode {b:?} (expand {expand})")),
    }
    // defaults
    if indent == 2 && strict {
        c.label("defaults");
        let mut s = AsyncDecodeStream::new(owned(&text).into_iter(), None);
        let v = match collect(&mut s, limit) {
            Ok(v) => v,
            Err(m) => return fail(format!("with no options: {m}")),
        };
        let r: Result<Vec<Ev>, ()> = v.into_iter().map(|x| x.map_err(|_| ())).collect();
        match (&r, &want) {
            (Ok(a), Ok(b)) if same_events(a, b) => {}
            (Err(()), Err(_)) => {}
            _ => return fail(format!("the stream with no options gives {r:?}")),
        }
        same_result("try_decode_stream_async with no options", block_on(try_decode_stream_async(owned(&text), None)).map_err(e))?;
    }
    Ok(())
}

fn encoding(t: &mut Tape, c: &mut Ctx) -> CheckResult {
    let fold = t.coin();
    let eo = gens::enc_opts(t, fold);
    let mut g = Vg::new(if fold { Keys::Paths } else { Keys::Any }, 5);
    g.raw_numbers = t.chance(1, 6);
    let v = g.root(t);
    if interesting(&v) {
        c.nontrivial(&(show(&v), eo.indent, eo.delim, eo.fold, eo.flatten));
    }
    c.label("encoding");
    c.describe(|| format!("{}\n{}", opts_text(&eo), show(&v)));
    let with_replacer = t.chance(1, 4);
    let mk = || {
        let mut o = eo.to();
        if with_replacer {
            o.replacer = Some(Arc::new(|k: &str, x: &V, p: &[toon::options::PathSegment]| match x {
                V::Primitive(toon::StringOrNumberOrBoolOrNull::Null) if !p.is_empty() => None,
                V::Primitive(toon::StringOrNumberOrBoolOrNull::Bool(_)) => Some(st(k)),
                // not the same when done twice
                V::Primitive(toon::StringOrNumberOrBoolOrNull::Number(n)) if n.abs() < 1e9 => Some(V::from(n + 1.0)),
                V::Primitive(toon::StringOrNumberOrBoolOrNull::String(s)) if s.len() < 9 => Some(st(&format!("{s}{k}"))),
                V::Object(m) if !m.is_empty() && p.is_empty() => {
                    Some(V::Object(m.iter().cloned().chain([(format!("more {}", m.len()), V::from(0i64))]).collect()))
                }
                _ => Some(x.clone()),
            }));
        }
        Some(o)
    };
    let fail = |m: String| -> CheckResult { Err(format!("{} replacer={with_replacer}: {m}\nvalue {}", opts_text(&eo), clip(&show(&v), 3000))) };
    let lines = encode_lines(v.clone(), mk());
    let events = encode_stream_events(v.clone(), mk());
    let e = |e: toon::error::ToonError| e.to_string();
    for (how, got) in [
        ("encode_lines_async", Ok(block_on(ae::encode_lines_async(v.clone(), mk())))),
        ("try_encode_lines_async", block_on(ae::try_encode_lines_async(v.clone(), mk())).map_err(e)),
        ("AsyncEncodeStream::new", {
            let mut s = ae::AsyncEncodeStream::new(v.clone(), mk());
            if s.len() != lines.len() || s.is_empty() != lines.is_empty() {
                return fail(format!("AsyncEncodeStream has len {} for {} lines", s.len(), lines.len()));
            }
            let got = collect(&mut s, lines.len() + 5);
            if s.len() != lines.len() || s.is_empty() != lines.is_empty() {
                return fail(format!("AsyncEncodeStream has len {} for {} lines when they are taken", s.len(), lines.len()));
            }
            got
        }),
        ("AsyncEncodeStream::try_new", ae::AsyncEncodeStream::try_new(v.clone(), mk()).map_err(e).and_then(|mut s| collect(&mut s, lines.len() + 5))),
        ("AsyncEncodeStream by combinators", Ok(block_on(ae::AsyncEncodeStream::new(v.clone(), mk()).collect::<Vec<String>>()))),
    ] {
        if got.as_ref() != Ok(&lines) {
            return fail(format!("{how} gives {got:?}, encode_lines {lines:?}"));
        }
    }
    for (how, got) in [
        ("encode_async", Ok(block_on(ae::encode_async(v.clone(), mk())))),
        ("try_encode_async", block_on(ae::try_encode_async(v.clone(), mk())).map_err(e)),
    ] {
        if got.as_ref() != Ok(&encode(v.clone(), mk())) {
            return fail(format!("{how} gives {got:?}, encode {:?}", encode(v.clone(), mk())));
        }
    }
    for (how, got) in [
        ("encode_events_async", Ok(block_on(ae::encode_events_async(v.clone(), mk())))),
        ("try_encode_events_async", block_on(ae::try_encode_events_async(v.clone(), mk())).map_err(e)),
        ("AsyncEncodeEventStream::new", collect(&mut ae::AsyncEncodeEventStream::new(v.clone(), mk()), events.len() + 5)),
        (
            "AsyncEncodeEventStream::try_new",
            ae::AsyncEncodeEventStream::try_new(v.clone(), mk()).map_err(e).and_then(|mut s| collect(&mut s, events.len() + 5)),
        ),
    ] {
        match &got {
            Ok(x) if same_events(x, &events) => {}
            _ => return fail(format!("{how} gives {got:?}, encode_stream_events {events:?}")),
        }
    }
    if well_formed(&events, true).is_err() {
        return fail("the events are not well formed".into());
    }
    if t.chance(1, 4) {
        c.label("encoding streams in turns");
        let w = gens::Vg::new(Keys::Any, 5).root(t);
        let mut a = ae::AsyncEncodeEventStream::new(v.clone(), mk());
        let mut b = ae::AsyncEncodeEventStream::new(w.clone(), mk());
        let mut x = ae::AsyncEncodeStream::new(v.clone(), mk());
        let mut y = ae::AsyncEncodeStream::new(w.clone(), mk());
        let (we, wl) = (encode_stream_events(w.clone(), mk()), encode_lines(w.clone(), mk()));
        let (mut ga, mut gb, mut gx, mut gy) = (vec![], vec![], vec![], vec![]);
        let order = t.bits();
        let most = events.len() + we.len() + 4;
        for k in 0..2 * most {
            let r = if (order >> (k % 61)) & 1 == 0 || gb.len() > we.len() {
                if let Some(l) = next(&mut x)? {
                    gx.push(l);
                }
                next(&mut a).map(|i| ga.extend(i))
            } else {
                if let Some(l) = next(&mut y)? {
                    gy.push(l);
                }
                next(&mut b).map(|i| gb.extend(i))
            };
            if let Err(m) = r {
                return fail(m);
            }
            if ga.len() > events.len() || gb.len() > we.len() {
                break;
            }
        }
        for (s, g) in [(&mut a, &mut ga), (&mut b, &mut gb)] {
            g.extend(collect(s, most)?);
        }
        gx.extend(collect(&mut x, most + lines.len())?);
        gy.extend(collect(&mut y, most + wl.len())?);
        if !same_events(&ga, &events) || gx != lines {
            return fail(format!("read in turns with other streams the events are {ga:?} and the lines {gx:?}\nthe other value {}", clip(&show(&w), 3000)));
        }
        if !same_events(&gb, &we) || gy != wl {
            return fail(format!("the other streams give {gb:?} and {gy:?}, expected {we:?} and {wl:?}\nthe other value {}", clip(&show(&w), 3000)));
        }
    }
    Ok(())
}

fn c12(t: &mut Tape, c: &mut Ctx) -> CheckResult {
    if t.chance(1, 3) { encoding(t, c) } else { decoding(t, c) }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C12",
        rule: "two cases in three decode a text (a document with leading simple fields, any document, a damaged or wild text) with every asynchronous entry point, the others encode a value; a text always counts, a value when it has more than two nodes or needs quoting; counted once per input and options",
        assumptions: &["streams are polled by a single task whose waker counts", "where an input is rejected the stream may report another of its errors than the synchronous decoder"],
        quick: 350_000, thorough: 8_000_000, shrink: 3000, threads: 8,
        run: c12, enum_count: no_enum_count, run_enum: no_enum,
    }]
}
