use toon::{JsonStreamEvent, JsonValue, StringOrNumberOrBoolOrNull as P};
pub type V = JsonValue;

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}… ({} bytes)", &s[..e], s.len())
}

pub fn null() -> V {
    V::Primitive(P::Null)
}
pub fn num(x: f64) -> V {
    V::Primitive(P::Number(x))
}
pub fn st(s: &str) -> V {
    V::Primitive(P::String(s.to_string()))
}

pub fn same_prim(a: &P, b: &P) -> bool {
    match (a, b) {
        (P::Number(x), P::Number(y)) => x.to_bits() == y.to_bits(),
        (P::Number(_), _) | (_, P::Number(_)) => false,
        _ => a == b,
    }
}

/// Structural equality; numbers bit by bit, object entries in order.
pub fn same(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Primitive(x), V::Primitive(y)) => same_prim(x, y),
        (V::Array(x), V::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q)),
        (V::Object(x), V::Object(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|((k, p), (l, q))| k == l && same(p, q))
        }
        _ => false,
    }
}

/// Equality ignoring the order of object entries (keys are unique).
pub fn same_unordered(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Primitive(x), V::Primitive(y)) => same_prim(x, y),
        (V::Array(x), V::Array(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same_unordered(p, q))
        }
        (V::Object(x), V::Object(y)) => {
            x.len() == y.len()
                && x.iter().all(|(k, p)| {
                    y.iter().find(|(l, _)| l == k).is_some_and(|(_, q)| same_unordered(p, q))
                })
        }
        _ => false,
    }
}

pub fn same_event(a: &JsonStreamEvent, b: &JsonStreamEvent) -> bool {
    match (a, b) {
        (JsonStreamEvent::Primitive { value: x }, JsonStreamEvent::Primitive { value: y }) => same_prim(x, y),
        _ => a == b,
    }
}
pub fn same_events(a: &[JsonStreamEvent], b: &[JsonStreamEvent]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_event(x, y))
}

pub fn qs(s: &str) -> String {
    format!("{s:?}")
}

fn show_to(v: &V, out: &mut String) {
    match v {
        V::Primitive(P::Null) => out.push_str("null"),
        V::Primitive(P::Bool(b)) => out.push_str(if *b { "true" } else { "false" }),
        V::Primitive(P::Number(n)) => out.push_str(&format!("{n:?}")),
        V::Primitive(P::String(s)) => out.push_str(&qs(s)),
        V::Array(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                show_to(x, out);
            }
            out.push(']');
        }
        V::Object(o) => {
            out.push('{');
            for (i, (k, x)) in o.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                out.push_str(&qs(k));
                out.push(':');
                show_to(x, out);
            }
            out.push('}');
        }
    }
}
/// A readable rendering: JSON-like, Rust string escapes.
pub fn show(v: &V) -> String {
    let mut s = String::new();
    show_to(v, &mut s);
    s
}

pub fn depth(v: &V) -> usize {
    match v {
        V::Primitive(_) => 0,
        V::Array(a) => 1 + a.iter().map(depth).max().unwrap_or(0),
        V::Object(o) => 1 + o.iter().map(|(_, x)| depth(x)).max().unwrap_or(0),
    }
}
pub fn nodes(v: &V) -> usize {
    match v {
        V::Primitive(_) => 1,
        V::Array(a) => 1 + a.iter().map(nodes).sum::<usize>(),
        V::Object(o) => 1 + o.iter().map(|(_, x)| nodes(x)).sum::<usize>(),
    }
}
pub fn any(v: &V, f: &dyn Fn(&V) -> bool) -> bool {
    f(v) || match v {
        V::Primitive(_) => false,
        V::Array(a) => a.iter().any(|x| any(x, f)),
        V::Object(o) => o.iter().any(|(_, x)| any(x, f)),
    }
}
pub fn any_key(v: &V, f: &dyn Fn(&str) -> bool) -> bool {
    match v {
        V::Primitive(_) => false,
        V::Array(a) => a.iter().any(|x| any_key(x, f)),
        V::Object(o) => o.iter().any(|(k, x)| f(k) || any_key(x, f)),
    }
}
pub fn any_string(v: &V, f: &dyn Fn(&str) -> bool) -> bool {
    any(v, &|x| matches!(x, V::Primitive(P::String(s)) if f(s)))
}
pub fn map_strings(v: V, f: &dyn Fn(String) -> String) -> V {
    match v {
        V::Primitive(P::String(s)) => V::Primitive(P::String(f(s))),
        V::Primitive(p) => V::Primitive(p),
        V::Array(a) => V::Array(a.into_iter().map(|x| map_strings(x, f)).collect()),
        V::Object(o) => V::Object(o.into_iter().map(|(k, x)| (k, map_strings(x, f))).collect()),
    }
}

/// The rows of an array that the encoder writes as a table: non-empty objects
/// with one set of keys and only primitive values.
pub fn is_table(a: &[V]) -> bool {
    let Some(V::Object(first)) = a.first() else { return false };
    if first.is_empty() {
        return false;
    }
    a.iter().all(|r| match r {
        V::Object(o) => {
            o.len() == first.len()
                && o.iter().all(|(_, x)| matches!(x, V::Primitive(_)))
                && first.iter().all(|(k, _)| o.iter().any(|(l, _)| l == k))
        }
        _ => false,
    })
}

/// What a lossless round trip yields: the value itself, except that the rows
/// of a table take the key order of its first row. Arrays directly inside
/// arrays are never written as tables.
pub fn round_trip_image(v: &V) -> V {
    fn go(v: &V, may_table: bool) -> V {
        match v {
            V::Primitive(_) => v.clone(),
            V::Object(o) => V::Object(o.iter().map(|(k, x)| (k.clone(), go(x, true))).collect()),
            V::Array(a) => {
                if may_table && is_table(a) {
                    let V::Object(first) = &a[0] else { unreachable!() };
                    let rows = a.iter().map(|r| {
                        let V::Object(o) = r else { unreachable!() };
                        V::Object(
                            first
                                .iter()
                                .map(|(k, _)| o.iter().find(|(l, _)| l == k).cloned().unwrap())
                                .collect(),
                        )
                    });
                    return V::Array(rows.collect());
                }
                V::Array(a.iter().map(|x| go(x, false)).collect())
            }
        }
    }
    go(v, true)
}

/// The documented normalisation of numbers.
/// What JSON can express: null for a number that is not finite.
pub fn finite(v: &V) -> V {
    match v {
        V::Primitive(P::Number(n)) if !n.is_finite() => null(),
        V::Primitive(_) => v.clone(),
        V::Array(a) => V::Array(a.iter().map(finite).collect()),
        V::Object(o) => V::Object(o.iter().map(|(k, x)| (k.clone(), finite(x))).collect()),
    }
}

pub fn normal(v: &V) -> V {
    match v {
        V::Primitive(P::Number(n)) => {
            if !n.is_finite() {
                null()
            } else if *n == 0.0 {
                num(0.0)
            } else {
                num(*n)
            }
        }
        V::Primitive(_) => v.clone(),
        V::Array(a) => V::Array(a.iter().map(normal).collect()),
        V::Object(o) => V::Object(o.iter().map(|(k, x)| (k.clone(), normal(x))).collect()),
    }
}

pub fn first_diff(a: &str, b: &str) -> String {
    let (x, y): (Vec<&str>, Vec<&str>) = (a.split('\n').collect(), b.split('\n').collect());
    for i in 0..x.len().max(y.len()) {
        if x.get(i) != y.get(i) {
            return format!("line {}: {:?} vs {:?}", i + 1, x.get(i), y.get(i));
        }
    }
    "equal".into()
}

pub fn is_identifier(s: &str) -> bool {
    let b = s.as_bytes();
    !b.is_empty()
        && (b[0].is_ascii_alphabetic() || b[0] == b'_')
        && b.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_')
}
/// A key that path expansion would split (when it is not quoted in the text).
pub fn is_expandable(s: &str) -> bool {
    s.contains('.') && s.split('.').all(is_identifier)
}
