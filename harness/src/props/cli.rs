//! C15, C16, C22: the command-line program, run as a process.
use super::api::serde_text;
use super::dec::{self, KINDS};
use super::enc::{duplicate_keys, interesting};
use crate::docgen;
use crate::engine::{CheckResult, Ctx, Prop, Tape, no_enum, no_enum_count};
use crate::gens::{self, Keys, Vg};
use crate::util::*;
use std::cell::RefCell;
use std::ffi::OsString;
use std::fs;
use std::io::Write;
use std::os::unix::ffi::OsStringExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::OnceLock;
use std::sync::atomic::{AtomicU64, Ordering};
use toon::options::{DecodeOptions, EncodeOptions, ExpandPathsMode, KeyFoldingMode};
use toon::{encode, try_decode};

pub static SCRATCH: OnceLock<PathBuf> = OnceLock::new();

fn toon_bin() -> PathBuf {
    std::env::var_os("TVH_TOON_BIN").map_or_else(|| PathBuf::from("/verif/harness/target/toon/debug/toon"), PathBuf::from)
}

/// An empty directory of this thread's own.
fn scratch() -> PathBuf {
    static NEXT: AtomicU64 = AtomicU64::new(0);
    thread_local! {
        static DIR: RefCell<Option<PathBuf>> = const { RefCell::new(None) };
    }
    DIR.with(|d| {
        let mut d = d.borrow_mut();
        let p = d.get_or_insert_with(|| {
            let base = SCRATCH.get_or_init(|| std::env::temp_dir().join(format!("tvh-scratch-{}", std::process::id())));
            base.join(NEXT.fetch_add(1, Ordering::Relaxed).to_string())
        });
        if p.exists() {
            for e in fs::read_dir(&*p).unwrap() {
                let q = e.unwrap().path();
                if q.is_dir() { fs::remove_dir_all(q).unwrap() } else { fs::remove_file(q).unwrap() }
            }
        } else {
            fs::create_dir_all(&*p).unwrap();
        }
        p.clone()
    })
}

/// A name or argument as the system has it: the character U+F8FF stands for a
/// byte that is not UTF-8.
fn os(s: &str) -> OsString {
    let mut v = vec![];
    for (i, part) in s.split('\u{f8ff}').enumerate() {
        if i > 0 {
            v.push(0xff);
        }
        v.extend_from_slice(part.as_bytes());
    }
    OsString::from_vec(v)
}

/// The part of a name that a message surely repeats.
fn shown(s: &str) -> &str {
    s.split('\u{f8ff}').next().unwrap_or("")
}

struct Out {
    code: Option<i32>,
    status: String,
    stdout: Vec<u8>,
    stderr: String,
}

/// Where the messages of the program go.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Messages {
    Read,
    Full,
    Unread,
}

impl Messages {
    fn pick(t: &mut Tape, c: &mut Ctx) -> Messages {
        let m = match t.weighted(&[12, 1, 1]) {
            0 => return Messages::Read,
            1 => Messages::Full,
            _ => Messages::Unread,
        };
        c.label("standard error cannot be written");
        m
    }
}

fn run(dir: &Path, args: &[String], stdin: Option<&[u8]>, stdout: Stdio) -> Out {
    run_with(dir, args, stdin, With { stdout: Some(stdout), ..With::default() })
}

/// The surroundings of a run; `limit` is the size in KiB its files may grow to.
struct With {
    stdout: Option<Stdio>,
    stdin_file: Option<fs::File>,
    limit: Option<u32>,
    messages: Messages,
}

impl Default for With {
    fn default() -> With {
        With { stdout: None, stdin_file: None, limit: None, messages: Messages::Read }
    }
}

fn dev_full() -> Stdio {
    Stdio::from(fs::OpenOptions::new().write(true).open("/dev/full").unwrap())
}

/// A pipe that nobody reads. It is made before any thread starts a program, so
/// that no program can be holding its other end.
fn unread_pipe() -> &'static std::io::PipeWriter {
    static PIPE: OnceLock<std::io::PipeWriter> = OnceLock::new();
    PIPE.get_or_init(|| std::io::pipe().expect("harness: pipe").1)
}

fn run_with(dir: &Path, args: &[String], stdin: Option<&[u8]>, with: With) -> Out {
    let stdin = if with.stdin_file.is_some() { None } else { stdin };
    let mut cmd = match with.limit {
        None => Command::new(toon_bin()),
        Some(n) => {
            // with SIGXFSZ ignored a write over the limit fails
            let mut c = Command::new("/bin/bash");
            c.args(["-c", "trap '' XFSZ; ulimit -f $0; exec \"$@\"", &n.to_string()]).arg(toon_bin());
            c
        }
    };
    let mut c = cmd
        .args(args.iter().map(|a| os(a)))
        .current_dir(dir)
        .env_clear()
        .stdin(match with.stdin_file {
            Some(f) => Stdio::from(f),
            None if stdin.is_some() => Stdio::piped(),
            None => Stdio::null(),
        })
        .stdout(with.stdout.unwrap_or_else(Stdio::piped))
        .stderr(match with.messages {
            Messages::Read => Stdio::piped(),
            Messages::Full => dev_full(),
            Messages::Unread => Stdio::from(unread_pipe().try_clone().unwrap()),
        })
        .spawn()
        .expect("harness: cannot start the toon program");
    let o = std::thread::scope(|scope| {
        if let Some(s) = stdin {
            let mut w = c.stdin.take().unwrap();
            if s.len() > 16_384 {
                // the program may write before it has read everything
                scope.spawn(move || {
                    let _ = w.write_all(s);
                });
            } else {
                let _ = w.write_all(s);
            }
        }
        c.wait_with_output().expect("harness: wait")
    });
    Out {
        code: o.status.code(),
        status: o.status.to_string(),
        stdout: o.stdout,
        stderr: String::from_utf8_lossy(&o.stderr).into_owned(),
    }
}

#[derive(Clone, Debug)]
struct Opts {
    indent: usize,
    delim: char,
    fold: bool,
    flatten: Option<usize>,
    strict: bool,
    expand: bool,
}

impl Opts {
    fn enc(&self) -> EncodeOptions {
        EncodeOptions {
            indent: Some(self.indent),
            delimiter: Some(self.delim),
            key_folding: Some(if self.fold { KeyFoldingMode::Safe } else { KeyFoldingMode::Off }),
            flatten_depth: self.flatten,
            replacer: None,
        }
    }
    fn dec(&self) -> DecodeOptions {
        DecodeOptions {
            indent: Some(self.indent),
            strict: Some(self.strict),
            expand_paths: Some(if self.expand { ExpandPathsMode::Safe } else { ExpandPathsMode::Off }),
        }
    }
}

fn opts(t: &mut Tape) -> Opts {
    Opts {
        indent: match t.weighted(&[5, 3, 1]) {
            0 => 2,
            1 => t.range(1, 8),
            _ => t.range(1, 16),
        },
        delim: gens::delim(t),
        fold: t.chance(1, 3),
        flatten: if t.chance(1, 3) { Some(t.below(6)) } else { None },
        strict: !t.chance(1, 3),
        expand: t.chance(1, 4),
    }
}

/// One option in one of its spellings; left out sometimes when it is the default.
fn arg(t: &mut Tape, out: &mut Vec<Vec<String>>, dflt: bool, names: &[&str], value: Option<String>) {
    if dflt && t.chance(2, 3) {
        return;
    }
    let n = *t.pick(names);
    match value {
        None => out.push(vec![n.to_string()]),
        Some(v) if n.starts_with("--") && t.coin() => out.push(vec![format!("{n}={v}")]),
        Some(v) if !n.starts_with("--") && t.chance(1, 3) => out.push(vec![format!("{n}{v}")]),
        Some(v) => out.push(vec![n.to_string(), v]),
    }
}

fn opt_args(t: &mut Tape, o: &Opts) -> Vec<Vec<String>> {
    let mut a = vec![];
    arg(t, &mut a, o.indent == 2, &["--indent"], Some(o.indent.to_string()));
    let d = match o.delim {
        ',' => *t.pick(&[",", "comma"]),
        '|' => *t.pick(&["|", "pipe"]),
        _ => *t.pick(&["\\t", "tab", "\t"]),
    };
    arg(t, &mut a, o.delim == ',', &["--delimiter"], Some(d.into()));
    arg(t, &mut a, !o.fold, &["--key-folding"], Some(if o.fold { "safe" } else { "off" }.into()));
    if let Some(n) = o.flatten {
        arg(t, &mut a, false, &["--flatten-depth"], Some(n.to_string()));
    }
    if !o.strict {
        a.push(vec!["--no-strict".into()]);
    }
    arg(t, &mut a, !o.expand, &["--expand-paths"], Some(if o.expand { "safe" } else { "off" }.into()));
    a
}

fn shuffle(t: &mut Tape, mut a: Vec<Vec<String>>) -> Vec<String> {
    let mut out = vec![];
    while !a.is_empty() {
        let i = t.below(a.len());
        out.extend(a.remove(i));
    }
    out
}

/// A call of the program on an input.
struct Call {
    args: Vec<String>,
    stdin: Option<Vec<u8>>,
    encode: bool,
    input: Option<String>,
    output: Option<String>,
    old_output: Option<Vec<u8>>,
    /// the output file is a symbolic link
    link: bool,
    /// standard output is named as the output file, so there are messages
    spoken: bool,
}

impl Call {
    fn text(&self, input: &[u8]) -> String {
        let f = match (&self.input, &self.stdin) {
            (Some(f), None) => format!("the file {f}"),
            _ => "standard input".into(),
        };
        format!("toon {:?}\nin {}:\n{}", self.args, f, String::from_utf8_lossy(input))
    }
}

/// Choose how the program is called for an input in the given direction, and
/// lay out its files.
fn call(t: &mut Tape, dir: &Path, encode: bool, input: &[u8], mut args: Vec<Vec<String>>, write_input: bool) -> Call {
    // the way the direction is found
    const NONE: [&str; 14] = [
        "data", "data.txt", "json", "x.json.bak", "toon", "a b.csv", "x.toon.bak", ".toon", "d.toon/data", "x.toon~", "a.toonx", "mytoon", "x\u{f8ff}", "x.toon\u{f8ff}",
    ];
    const JSON: [&str; 9] = ["in.json", "a.b.json", "IN.JSON", "x.Json", "in put.json", "a.toon.json", "d.toon/in.json", "./-in.json", "x\u{f8ff}.json"];
    const TOON: [&str; 9] = ["in.toon", "a.json.toon", "IN.TOON", "x.Toon", "ü.toon", "d.json/in.toon", "..toon", "./-d.toon", "x\u{f8ff}.tOOn"];
    let from_stdin = t.chance(1, 3);
    let mut flag = t.chance(1, 3);
    let mut file = None;
    if from_stdin {
        flag |= !encode;
        if t.coin() {
            args.push(vec!["-".into()]);
        }
        if t.chance(1, 4) {
            // a minus sign is not the name of a file
            fs::write(dir.join("-"), t.pick(&["[9]", "decoy: 9", "{\"decoy\": true}", "\"\u{fffd}"])).unwrap();
        }
    } else {
        let name = match (flag, encode) {
            (true, _) => {
                let l = *t.pick(&[&NONE[..], &JSON[..], &TOON[..]]);
                *t.pick(l)
            },
            (false, true) => {
                let l = *t.pick(&[&JSON[..], &NONE[..]]);
                *t.pick(l)
            }
            (false, false) => *t.pick(&TOON[..]),
        };
        file = Some(name.to_string());
        let p = if t.chance(1, 6) { format!("{}/{name}", dir.display()) } else { name.to_string() };
        args.push(vec![p]);
        if write_input {
            fs::create_dir_all(dir.join(os(name)).parent().unwrap()).unwrap();
            fs::write(dir.join(os(name)), input).unwrap();
        }
    }
    if flag {
        args.push(vec![(*t.pick(if encode { &["-e", "--encode"] } else { &["-d", "--decode"] })).to_string()]);
    }
    let mut output = None;
    let mut old_output = None;
    if t.chance(1, 3) {
        let name = match t.below(4) {
            0 if write_input && file.is_some() => file.clone().unwrap(),
            1 => "out.json".into(),
            2 => "out.toon".into(),
            _ => (*t.pick(&["result", "result", "re sult", "r\u{f8ff}", "./-r"])).to_string(),
        };
        if Some(&name) == file.as_ref() {
            old_output = Some(input.to_vec());
        } else if t.coin() {
            let old = "old content\n".repeat(1 + t.below(3) * 400).into_bytes();
            fs::write(dir.join(os(&name)), &old).unwrap();
            old_output = Some(old);
        }
        arg(t, &mut args, false, &["-o", "--output"], Some(name.clone()));
        output = Some(name);
    }
    Call {
        args: shuffle(t, args),
        stdin: if from_stdin { Some(input.to_vec()) } else { None },
        encode,
        input: file,
        output,
        old_output,
        link: false,
        spoken: false,
    }
}

fn json_input(t: &mut Tape, keys: Keys) -> (V, String) {
    let v = Vg::new(keys, 5).root(t);
    let json = crate::jsonp::free(&v, t);
    (v, json)
}

// ---------------------------------------------------------------- C15

/// What the program writes (standard output or the output file).
fn product(dir: &Path, k: &Call, o: &Out, messages: Messages) -> Result<Vec<u8>, String> {
    match &k.output {
        None => Ok(o.stdout.clone()),
        Some(f) => {
            if !o.stdout.is_empty() {
                return Err(format!("standard output is not empty: {:?}", String::from_utf8_lossy(&o.stdout)));
            }
            if messages == Messages::Read && !o.stderr.contains(shown(f)) {
                return Err(format!("the message does not name the output file: {:?}", o.stderr));
            }
            fs::read(dir.join(os(f))).map_err(|e| format!("the output file cannot be read: {e}"))
        }
    }
}

fn c15(t: &mut Tape, c: &mut Ctx) -> CheckResult {
    let dir = scratch();
    let op = opts(t);
    if t.chance(1, 3) {
        return cli_round_trip(t, c, &dir, &op);
    }
    let mut op = op;
    if t.chance(1, 16) {
        op.indent = 0;
        c.label("indent of zero");
    }
    let enc = t.coin();
    let (input, want, value) = if enc {
        let (_, mut json) = json_input(t, if op.fold { Keys::Paths } else { Keys::Any });
        if t.chance(1, 1500) {
            // more than fits into a pipe or a buffer
            let n = *t.pick(&[5_000, 20_000, 100_000]);
            json = format!("[{json}{}]", ",{\"a\":\"x y\",\"b\":1}".repeat(n));
            c.label("megabytes");
        }
        // white space around the value, carriage returns between its parts
        let json = match t.below(8) {
            0 => format!("{json}{}", t.pick(&["\n", "\r\n", " \n\n", "\t"])),
            1 => format!("{}{json}", t.pick(&["\n", "\r\n", "  ", "\t"])),
            2 if !json.contains('\r') => json.replace('\n', "\r\n"),
            _ => json,
        };
        let v: serde_json::Value = serde_json::from_str(&json).map_err(|e| format!("harness: {json}: {e}"))?;
        let w = Ok(encode(v, Some(op.enc())) + "\n");
        (json, w, None)
    } else {
        let text = if t.chance(1, 3) { docgen::wild(t, op.indent) } else { docgen::document(t, op.indent.max(1)).text };
        let mut text = if t.chance(1, 6) { docgen::line_ends(t, &text) } else { text };
        if t.chance(1, 1500) {
            let n = *t.pick(&[5_000, 20_000, 100_000]);
            text = format!("[{n}]:\n{}", format!("{}- a: x y\n", " ".repeat(op.indent)).repeat(n).trim_end());
            c.label("megabytes");
        }
        let r = try_decode(&text, Some(op.dec())).map_err(|e| e.to_string());
        let w = r.as_ref().map(|v| serde_text(v, op.indent) + "\n").map_err(Clone::clone);
        (text, w, r.ok())
    };
    let mut args = opt_args(t, &op);
    let idle_stats = !enc && t.chance(1, 8);
    if idle_stats {
        // for encoding only
        args.push(vec!["--stats".into()]);
    }
    let mut k = call(t, &dir, enc, input.as_bytes(), args, true);
    if t.chance(1, 8) {
        channels(t, c, &dir, &mut k);
    }
    c.describe(|| k.text(input.as_bytes()));
    c.nontrivial(&(&k.args, &input));
    c.label(if k.encode { "encode" } else { "decode" });
    c.label(if k.stdin.is_some() { "from standard input" } else { "from a file" });
    c.cond("to a file", k.output.is_some());
    c.cond("over an existing file", k.old_output.is_some());
    c.cond("in place", k.output.is_some() && k.output == k.input);
    let messages = Messages::pick(t, c);
    let mut stdin_file = None;
    if k.stdin.is_some() && t.chance(1, 8) {
        c.label("standard input is a file");
        fs::write(dir.join("the standard input"), &input).unwrap();
        stdin_file = Some(fs::File::open(dir.join("the standard input")).unwrap());
    }
    let o = run_with(&dir, &k.args, k.stdin.as_deref(), With { stdin_file, messages, ..With::default() });
    let fail = |m: String| -> CheckResult { Err(format!("{m}\nexit {}, stderr {:?} ({messages:?})\n{}", o.status, clip(&o.stderr, 1000), k.text(input.as_bytes()))) };
    match want {
        Err(e) => {
            c.label("rejected");
            if o.code == Some(0) {
                return fail(format!("the program succeeds where the library reports: {e}"));
            }
            Ok(())
        }
        Ok(w) => {
            c.label("accepted");
            if o.code != Some(0) {
                return fail("the program fails where the library succeeds".into());
            }
            let got = match product(&dir, &k, &o, messages) {
                Ok(g) => String::from_utf8(g).map_err(|_| "the output is not UTF-8".to_string())?,
                Err(m) => return fail(m),
            };
            if k.output.is_none() && !idle_stats && !k.spoken && !o.stderr.is_empty() {
                return fail("the program writes to standard error".into());
            }
            if k.link && fs::read(dir.join("target of the link")).ok().as_deref() != Some(got.as_bytes()) {
                return fail("the output file was a link, and the file it points to does not hold the output".into());
            }
            if got == w {
                if let Some(f) = &k.output
                    && k.output != k.input
                    && t.chance(1, 4)
                {
                    // again, over a file of the same length
                    c.label("over a file of the same length");
                    fs::write(dir.join(os(f)), "#".repeat(w.len())).unwrap();
                    let o = run(&dir, &k.args, k.stdin.as_deref(), Stdio::piped());
                    let again = fs::read(dir.join(os(f))).map_err(|e| format!("the output file cannot be read: {e}"))?;
                    if o.code != Some(0) || again != w.as_bytes() {
                        return fail(format!("run again over a file of the same length the program writes\n{}\nexpected:\n{}", clip(&String::from_utf8_lossy(&again), 3000), clip(&w, 3000)));
                    }
                }
                return Ok(());
            }
            // JSON text may escape more than it must
            if let Some(v) = value
                && (any_string(&v, &|s| s.chars().any(char::is_control)) || any_key(&v, &|s| s.chars().any(char::is_control)) || duplicate_keys(&v))
                && got.split('\n').count() == w.split('\n').count()
                && (duplicate_keys(&v) || crate::jsonp::parse(got.trim_end_matches('\n')).is_ok_and(|g| same(&g, &v)))
            {
                return Ok(());
            }
            if duplicate_keys_text(&got) {
                return Ok(());
            }
            fail(format!("the program writes ({}):\n{}\nexpected:\n{}", first_diff(&got, &w), clip(&got, 3000), clip(&w, 3000)))
        }
    }
}

/// Less common channels: names for the standard streams, links.
fn channels(t: &mut Tape, c: &mut Ctx, dir: &Path, k: &mut Call) {
    let replace = |args: &mut Vec<String>, from: &str, to: &str| {
        let mut n = 0;
        for a in args.iter_mut() {
            for pre in ["", "-o", "--output="] {
                if *a == format!("{pre}{from}") {
                    *a = format!("{pre}{to}");
                    n += 1;
                    break;
                }
            }
        }
        n
    };
    let flagged = k.args.iter().any(|a| ["-e", "--encode", "-d", "--decode"].contains(&a.as_str()));
    match t.below(4) {
        // standard input by its file name
        0 if k.stdin.is_some() => {
            if let Some(i) = k.args.iter().position(|a| a == "-") {
                if i > 0 && ["--delimiter", "-o", "--output", "--indent"].contains(&k.args[i - 1].as_str()) {
                    return;
                }
                k.args[i] = "/dev/stdin".into();
                c.label("/dev/stdin");
            } else if flagged || k.encode {
                k.args.insert(0, "/dev/stdin".into());
                c.label("/dev/stdin");
            }
        }
        // the output file is a link
        1 => {
            if let Some(f) = k.output.clone()
                && k.input.as_ref() != Some(&f)
            {
                let p = dir.join(os(&f));
                if let Some(old) = &k.old_output {
                    fs::write(dir.join("target of the link"), old).unwrap();
                    fs::remove_file(&p).unwrap();
                }
                std::os::unix::fs::symlink("target of the link", &p).unwrap();
                k.link = true;
                c.label("the output file is a link");
            }
        }
        // the input file is a link to a file with another name
        2 => {
            if let Some(f) = k.input.clone() {
                let p = dir.join(os(&f));
                let to = dir.join(if k.encode { "elsewhere.toon" } else { "elsewhere.json" });
                fs::rename(&p, &to).unwrap();
                std::os::unix::fs::symlink(&to, &p).unwrap();
                c.label("the input file is a link");
            }
        }
        // standard output by its file name
        _ => {
            if let Some(f) = k.output.clone()
                && k.input.as_ref() != Some(&f)
                && replace(&mut k.args, &f, "/dev/stdout") == 1
            {
                if k.old_output.take().is_some() {
                    fs::remove_file(dir.join(os(&f))).unwrap();
                }
                k.output = None;
                k.spoken = true;
                c.label("/dev/stdout");
            }
        }
    }
}

fn duplicate_keys_text(json: &str) -> bool {
    crate::jsonp::parse(json.trim_end_matches('\n')).is_ok_and(|v| duplicate_keys(&v))
}

/// JSON through the program to TOON and back.
fn cli_round_trip(t: &mut Tape, c: &mut Ctx, dir: &Path, op: &Opts) -> CheckResult {
    let mut op = op.clone();
    op.fold = false;
    op.expand = false;
    let (_, json) = json_input(t, Keys::Any);
    let v: serde_json::Value = serde_json::from_str(&json).map_err(|e| format!("harness: {json}: {e}"))?;
    let v = toon::JsonValue::from(v);
    if interesting(&v) {
        c.nontrivial(&(&json, op.indent, op.delim, op.strict));
    }
    c.label("round trip");
    let ind = op.indent.to_string();
    let d = match op.delim {
        ',' => "comma",
        '|' => "pipe",
        _ => "tab",
    };
    let a: Vec<String> = ["-e", "--indent", &ind, "--delimiter", d].iter().map(ToString::to_string).collect();
    let mut b: Vec<String> = ["-d", "--indent", &ind].iter().map(ToString::to_string).collect();
    if !op.strict {
        b.push("--no-strict".into());
    }
    c.describe(|| format!("toon {a:?} | toon {b:?}\n{json}"));
    let x = run(dir, &a, Some(json.as_bytes()), Stdio::piped());
    let y = run(dir, &b, Some(&x.stdout), Stdio::piped());
    let fail = |m: String| -> CheckResult {
        Err(format!("{m}\ntoon {a:?}: {} {:?}\n{}\ntoon {b:?}: {} {:?}\n{}\ninput:\n{json}", x.status, x.stderr, String::from_utf8_lossy(&x.stdout), y.status, y.stderr, String::from_utf8_lossy(&y.stdout)))
    };
    if x.code != Some(0) || y.code != Some(0) {
        return fail("a conversion fails".into());
    }
    match crate::jsonp::parse(&String::from_utf8_lossy(&y.stdout)) {
        Ok(w) if same(&w, &round_trip_image(&v)) => Ok(()),
        r => fail(format!("JSON to TOON to JSON gives {r:?}")),
    }
}

// ---------------------------------------------------------------- C16

/// Damage a JSON text so that it is none any more.
fn bad_json(t: &mut Tape, json: &str) -> Option<String> {
    let s = match t.below(9) {
        0 => {
            let mut i = t.below(json.len().max(1));
            while !json.is_char_boundary(i) {
                i -= 1;
            }
            json[..i].to_string()
        }
        1 => format!("{json} {}", t.pick(&["x", "1", "}", "]", ",", "{}", "null"])),
        2 => json.replacen('"', "'", 1),
        3 => json.replacen(':', " ", 1),
        4 => json.replacen('}', ",}", 1),
        5 => json.replacen(']', ",]", 1),
        6 | 7 => {
            // what is no white space of JSON, and what some readers let pass, before or after it
            const PAD: [&str; 17] = [
                "\0", "\u{b}", "\u{c}", "\u{85}", "\u{a0}", "\u{2028}", "\u{3000}", "\u{1a}", "\u{4}", ";", "\\", "// x\n", "# x\n", "/* x */", "\u{1e}", "\u{feff}", "\u{200b}",
            ];
            let pad = t.pick(&PAD).repeat(if t.chance(1, 3) { t.range(2, 8) } else { 1 });
            let nl = *t.pick(&["", "", "\n"]);
            if t.coin() { format!("{json}{nl}{pad}{nl}") } else { format!("{pad}{nl}{json}") }
        }
        _ => String::new(),
    };
    if crate::jsonp::parse(&s).is_err() && serde_json::from_str::<serde_json::Value>(&s).is_err() { Some(s) } else { None }
}

/// An option with a value that is nearly one of those it takes.
fn bad_value(t: &mut Tape) -> Vec<String> {
    const DELIMITERS: [&str; 7] = [",", "comma", "|", "pipe", "\\t", "\t", "tab"];
    const MODES: [&str; 2] = ["off", "safe"];
    loop {
        let (name, v) = match t.below(5) {
            0 | 1 => ("--delimiter", (*t.pick(&DELIMITERS)).to_string()),
            2 => ("--key-folding", (*t.pick(&MODES)).to_string()),
            3 => ("--expand-paths", (*t.pick(&MODES)).to_string()),
            _ => (*t.pick(&["--indent", "--flatten-depth"]), t.pick(&["0", "2", "4", "16"]).to_string()),
        };
        let pad = *t.pick(&[" ", "\t", "\n", "\u{a0}", "'", "\"", "s", ",", "0x", ".0", "_", "\u{feff}"]);
        let v = match t.below(7) {
            0 => format!("{pad}{v}"),
            1 => format!("{v}{pad}"),
            2 => format!("{pad}{v}{pad}"),
            3 => v.to_uppercase(),
            4 => v[..1].to_uppercase() + &v[1..],
            5 => v.chars().take(v.chars().count() - 1).collect(),
            _ => (*t.pick(&["space", "semicolon", ";", ":", "none", "true", "1e1", "NaN", "ONE", "-", "--", "auto", "\u{ff0c}", "99999999999999999999999"])).to_string(),
        };
        let good = match name {
            "--delimiter" => DELIMITERS.contains(&v.as_str()),
            "--indent" => v.parse::<u8>().is_ok_and(|n| n <= 16),
            "--flatten-depth" => v.parse::<usize>().is_ok(),
            _ => MODES.contains(&v.as_str()),
        };
        if !good {
            return if t.coin() { vec![format!("{name}={v}")] } else { vec![name.into(), v] };
        }
    }
}

fn c16(t: &mut Tape, c: &mut Ctx) -> CheckResult {
    let dir = scratch();
    let op = opts(t);
    let enc = t.coin();
    let mut args = opt_args(t, &op);
    let kind = t.weighted(&[6, 2, 1, 1, 3, 2, 2, 2]);
    let good = |t: &mut Tape| -> Vec<u8> {
        if enc { json_input(t, Keys::Any).1.into_bytes() } else { encode(gens::value(t), Some(Opts { fold: false, ..op.clone() }.enc())).into_bytes() }
    };
    let mut input_missing = false;
    let mut input_is_dir = false;
    let mut stdout_full = false;
    let mut stdout_closed = false;
    let mut limit = None;
    let mut out_arg: Option<String> = None;
    let (what, input): (String, Vec<u8>) = match kind {
        // an input that is not valid
        0 | 1 if enc => {
            let (_, json) = json_input(t, Keys::Any);
            let Some(bad) = bad_json(t, &json) else {
                c.label("does not apply");
                return Ok(());
            };
            ("not JSON".into(), bad.into_bytes())
        }
        0 => {
            let d = docgen::document(t, op.indent);
            let k = t.below(KINDS.len());
            let Some(x) = dec::damage(t, &d, k) else {
                c.label("does not apply");
                return Ok(());
            };
            if try_decode(&x.text, Some(op.dec())).is_ok() {
                c.label("does not apply");
                return Ok(());
            }
            ("not valid TOON".into(), x.text.into_bytes())
        }
        1 => {
            let text = docgen::wild(t, op.indent);
            if try_decode(&text, Some(op.dec())).is_ok() {
                c.label("does not apply");
                return Ok(());
            }
            ("not valid TOON".into(), text.into_bytes())
        }
        2 => {
            let mut g = good(t);
            let i = t.below(g.len() + 1);
            g.splice(i..i, t.pick(&[&[0xff_u8][..], &[0xc3], &[0xed, 0xa0, 0x80], &[0x80]]).iter().copied());
            if std::str::from_utf8(&g).is_ok() {
                c.label("does not apply");
                return Ok(());
            }
            ("not UTF-8".into(), g)
        }
        3 => {
            input_missing = true;
            input_is_dir = t.chance(1, 3);
            (if input_is_dir { "the input is a directory" } else { "no such file" }.into(), vec![])
        }
        // arguments
        4 => {
            const BAD: [&[&str]; 16] = [
                &["--indent", "17"], &["--indent", "-1"], &["--indent", "x"], &["--indent", "256"], &["--indent="], &["--delimiter", ";"],
                &["--delimiter", ""], &["--delimiter", ",,"], &["--key-folding", "on"], &["--expand-paths", "deep"],
                &["--flatten-depth", "-1"], &["--flatten-depth", "many"], &["--encode", "--decode"], &["-e", "-d"], &["--no-such-option"], &["a.json", "b.json"],
            ];
            let b: Vec<String> =
                if t.coin() { t.pick(&BAD).iter().map(ToString::to_string).collect() } else { bad_value(t) };
            args.clear();
            args.push(b.clone());
            (format!("bad arguments {b:?}"), good(t))
        }
        // outputs
        5 => {
            out_arg = Some("no/such/dir/out".into());
            ("output in a missing directory".into(), good(t))
        }
        6 => {
            if t.chance(1, 4) {
                out_arg = Some(".".into());
                ("output to a directory".into(), good(t))
            } else {
                // a file that may not grow (enough)
                out_arg = Some("full".into());
                let mut g = good(t);
                limit = Some(0);
                if t.chance(1, 3) {
                    // more than fits, some of it in buffers
                    let n = t.range(1, 30);
                    let row = "\"abcdefghij klmnopqrst\",".repeat(n * 50);
                    g = if enc { format!("[{}]", row.trim_end_matches(',')).into_bytes() } else { format!("[{}]: {}", n * 50, row.trim_end_matches(',')).into_bytes() };
                    limit = Some(1);
                }
                ("no space for the output file".into(), g)
            }
        }
        _ => {
            stdout_full = true;
            stdout_closed = t.chance(1, 3);
            (if stdout_closed { "nobody reads standard output" } else { "standard output is full" }.into(), good(t))
        }
    };
    if enc && t.chance(1, 3) {
        args.push(vec!["--stats".into()]);
    }
    let mut k = call(t, &dir, enc, &input, args, true);
    let stdin_is_dir = input_missing && k.input.is_none();
    if stdin_is_dir {
        c.label("standard input is a directory");
    } else if input_missing {
        let f = k.input.as_ref().unwrap();
        fs::remove_file(dir.join(os(f))).unwrap();
        if input_is_dir {
            fs::create_dir(dir.join(os(f))).unwrap();
        }
        if k.output.as_ref() == Some(f) {
            k.old_output = None;
        }
    }
    let out_fails = out_arg.is_some() || stdout_full;
    if out_fails {
        // the call's own output option gives way
        if let Some(o) = k.output.take() {
            if let Some(i) = k.args.iter().position(|a| *a == "-o" || *a == "--output") {
                k.args.drain(i..i + 2);
            } else {
                k.args.retain(|a| *a != format!("--output={o}") && *a != format!("-o{o}"));
            }
            k.old_output = None;
        }
        if let Some(o) = &out_arg {
            k.args.extend(["-o".to_string(), o.clone()]);
        }
    }
    c.label(match kind {
        0 | 1 => "invalid input",
        2 => "not UTF-8",
        3 => "no such file",
        4 => "bad arguments",
        5 | 6 => "output file fails",
        _ => "standard output fails",
    });
    c.cond("with an existing output file", k.old_output.is_some());
    c.nontrivial(&(&k.args, &input, kind));
    c.describe(|| format!("{what}\n{}", k.text(&input)));
    let stdout = if stdout_closed {
        Stdio::from(unread_pipe().try_clone().unwrap())
    } else if stdout_full { dev_full() } else { Stdio::piped() };
    let messages = Messages::pick(t, c);
    let stdin_file = if stdin_is_dir { Some(fs::File::open(&dir).unwrap()) } else { None };
    let o = run_with(&dir, &k.args, k.stdin.as_deref(), With { stdout: Some(stdout), stdin_file, limit, messages });
    let fail = |m: String| -> CheckResult { Err(format!("{what}: {m}\nexit {}, stderr {:?}\n{}", o.status, clip(&o.stderr, 1000), k.text(&input))) };
    match o.code {
        Some(0) => return fail("the program reports success".into()),
        None | Some(101) => return fail("the program dies".into()),
        _ => {}
    }
    if messages == Messages::Read && o.stderr.trim().is_empty() {
        return fail("nothing on standard error".into());
    }
    // it says why
    let why = match kind {
        0 | 1 | 5 | 6 => {
            let s = String::from_utf8_lossy(&input);
            let e = if k.encode { toon::json_to_toon(&s).err() } else { try_decode(&s, Some(op.dec())).err() };
            e.map(|e| e.to_string()).or_else(|| out_arg.clone())
        }
        2 if k.stdin.is_none() => k.input.clone(),
        3 => k.input.clone(),
        _ => None,
    };
    if let Some(w) = why
        && messages == Messages::Read
        && !o.stderr.contains(shown(&w))
    {
        return fail(format!("the message does not say {w:?}"));
    }
    if !o.stdout.is_empty() {
        return fail(format!("something on standard output: {:?}", clip(&String::from_utf8_lossy(&o.stdout), 1000)));
    }
    if let Some(f) = &k.output {
        let now = fs::read(dir.join(os(f))).ok();
        if now != k.old_output {
            return fail(format!(
                "the output file was {} and is now {}",
                k.old_output.as_ref().map_or("absent".into(), |x| format!("{} bytes", x.len())),
                now.map_or("absent".into(), |x| format!("{} bytes: {:?}", x.len(), clip(&String::from_utf8_lossy(&x), 300)))
            ));
        }
    }
    if let Some(f) = &k.input
        && !input_missing && k.output.as_ref() != Some(f) && fs::read(dir.join(os(f))).ok().as_deref() != Some(&input[..]) {
            return fail("the input file is changed".into());
        }
    Ok(())
}

// ---------------------------------------------------------------- C22

fn tokens(s: &str) -> usize {
    let (mut words, mut chars, mut inside) = (0, 0, false);
    for ch in s.chars() {
        if ch.is_whitespace() {
            inside = false;
        } else {
            chars += 1;
            if !inside {
                words += 1;
            }
            inside = true;
        }
    }
    (chars / 4).max(words).max(1)
}

/// The numbers after each `~`, and those before a `%`.
fn numbers(s: &str) -> (Vec<usize>, Vec<String>) {
    let (mut a, mut b) = (vec![], vec![]);
    let ch: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < ch.len() {
        if ch[i] == '~' {
            let n: String = ch[i + 1..].iter().take_while(|x| x.is_ascii_digit()).collect();
            if let Ok(n) = n.parse() {
                a.push(n);
            }
        }
        if ch[i] == '%' {
            let mut n: Vec<char> = ch[..i].iter().rev().take_while(|x| x.is_ascii_digit() || **x == '.').copied().collect();
            n.reverse();
            b.push(n.into_iter().collect());
        }
        i += 1;
    }
    (a, b)
}

fn c22(t: &mut Tape, c: &mut Ctx) -> CheckResult {
    let dir = scratch();
    let op = opts(t);
    let (_, mut json) = json_input(t, if op.fold { Keys::Paths } else { Keys::Any });
    match t.weighted(&[3, 1, 1]) {
        0 => {}
        1 => json = format!("{}{json}{}", " ".repeat(t.below(20)), "\n".repeat(t.below(5))),
        _ => {
            let v: serde_json::Value = serde_json::from_str(&json).map_err(|e| format!("harness: {json}: {e}"))?;
            json = serde_json::to_string_pretty(&v).unwrap();
        }
    }
    let v: serde_json::Value = serde_json::from_str(&json).map_err(|e| format!("harness: {json}: {e}"))?;
    let toon = encode(v, Some(op.enc()));
    let mut args = opt_args(t, &op);
    args.push(vec!["--stats".into()]);
    let mut k = call(t, &dir, true, json.as_bytes(), args, true);
    // names with a tilde or a percent sign would be read as numbers
    k.old_output = None;
    c.describe(|| k.text(json.as_bytes()));
    c.nontrivial(&(&json, &k.args));
    let messages = Messages::pick(t, c);
    let o = run_with(&dir, &k.args, k.stdin.as_deref(), With { messages, ..With::default() });
    let fail = |m: String| -> CheckResult { Err(format!("{m}\nexit {}, stderr {:?} ({messages:?})\n{}", o.status, clip(&o.stderr, 1000), k.text(json.as_bytes()))) };
    if o.code != Some(0) {
        return fail("the program fails".into());
    }
    let got = match product(&dir, &k, &o, messages) {
        Ok(g) => String::from_utf8_lossy(&g).into_owned(),
        Err(m) => return fail(m),
    };
    if got != format!("{toon}\n") {
        return fail(format!("with --stats the program writes ({}):\n{got}", first_diff(&got, &format!("{toon}\n"))));
    }
    if messages != Messages::Read {
        return Ok(());
    }
    let (j, w) = (tokens(&json), tokens(&toon));
    // the message about the output file may repeat any name
    let report: Vec<&str> = o.stderr.lines().filter(|l| l.contains('~')).collect();
    let (a, b) = numbers(&report.join("\n"));
    let saved = j.saturating_sub(w);
    let mut want = vec![j, w];
    let mut pct = vec![];
    if saved > 0 {
        want.push(saved);
        #[allow(clippy::cast_precision_loss)]
        pct.push(format!("{:.1}", 100.0 * saved as f64 / j as f64));
        c.label("saving");
    } else {
        c.label("no saving");
    }
    c.cond("equal", j == w);
    if a != want {
        return fail(format!("the report gives the numbers {a:?}, expected {want:?}"));
    }
    // one unit in the last place of the percentage is left to rounding
    let close = |x: &str, y: &str| x.parse::<f64>().ok().zip(y.parse::<f64>().ok()).is_some_and(|(x, y)| (x - y).abs() < 0.11);
    if b.len() != pct.len() || !b.iter().zip(&pct).all(|(x, y)| close(x, y)) {
        return fail(format!("the report gives the percentages {b:?}, expected {pct:?}"));
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    unread_pipe();
    const A: &[&str] = &["the program under test is built from /repo by the check and run in a scratch directory"];
    vec![
        Prop {
            id: "C15",
            rule: "a call of the program: direction, how the direction is found, options in their spellings and in any order, input by file or standard input, output by file or standard output; counted once per arguments and input",
            assumptions: A,
            quick: 30_000, thorough: 600_000, shrink: 600, threads: 8,
            run: c15, enum_count: no_enum_count, run_enum: no_enum,
        },
        Prop {
            id: "C16",
            rule: "a call that must fail (invalid, missing or non-UTF-8 input, bad arguments, an output that cannot be created or is full); counted once per arguments and input",
            assumptions: A,
            quick: 30_000, thorough: 600_000, shrink: 600, threads: 8,
            run: c16, enum_count: no_enum_count, run_enum: no_enum,
        },
        Prop {
            id: "C22",
            rule: "an encoding call with the statistics asked for; counted once per arguments and input",
            assumptions: A,
            quick: 45_000, thorough: 600_000, shrink: 600, threads: 8,
            run: c22, enum_count: no_enum_count, run_enum: no_enum,
        },
    ]
}
