//! C15 the `par-*` combinators are their sequential forms, however and wherever they run.

use crate::engine::{fail, Ctx, Facet, Prop, Res, Src};
use crate::gen;
use crate::props::c02::{scratch, Ran};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

// ---------------------------------------------------------------- running

/// How a program is run: the number of workers and the least count to fork for.
#[derive(Clone, Debug)]
struct Cfg {
    workers: Option<usize>,
    threshold: Option<usize>,
    strict: bool,
}

fn cfg(s: &mut Src) -> Cfg {
    Cfg {
        workers: *s.pick(&[None, Some(2), Some(3), Some(4), Some(7), Some(16), Some(2), Some(3), Some(1), Some(0), Some(100000)]),
        threshold: *s.pick(&[None, None, None, None, Some(2), Some(0), Some(5), Some(1000000)]),
        strict: s.bool(),
    }
}

impl Cfg {
    fn splits(&self, n: usize) -> bool {
        n >= 2 && n >= self.threshold.unwrap_or(2) && self.workers.unwrap_or(2) >= 2
    }
}

fn command(dir: &Path, c: &Cfg, args: &[String]) -> Command {
    let mut p = Command::new("timeout");
    p.arg("25").arg(std::env::var("EU_BIN").expect("EU_BIN"));
    p.args(args).current_dir(dir).env("HOME", dir).env("EU_PP_TRACE", "1").stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    for k in ["EU_PP_WORKERS", "EU_PP_THRESHOLD", "EU_PP_STRICT"] {
        p.env_remove(k);
    }
    if let Some(w) = c.workers {
        p.env("EU_PP_WORKERS", w.to_string());
    }
    if let Some(t) = c.threshold {
        p.env("EU_PP_THRESHOLD", t.to_string());
    }
    if c.strict {
        p.env("EU_PP_STRICT", "1");
    }
    p
}

fn run(dir: &Path, c: &Cfg, args: &[String]) -> Ran {
    let o = command(dir, c, args).output().expect("eu");
    Ran { code: o.status.code(), out: String::from_utf8_lossy(&o.stdout).into_owned(), err: String::from_utf8_lossy(&o.stderr).into_owned() }
}

/// The lines in which the tool says which way each call went.
fn traces(err: &str) -> Vec<&str> {
    err.lines().filter(|l| l.starts_with("par-") && l.contains(" elements — ")).collect()
}

/// What is complained about: the message, without its place.
fn complaint(r: &Ran) -> String {
    let mut plain = String::new();
    let mut it = r.err.chars();
    while let Some(c) = it.next() {
        if c == '\u{1b}' {
            for d in it.by_ref() {
                if d == 'm' {
                    break;
                }
            }
        } else {
            plain.push(c);
        }
    }
    plain.lines().find(|l| l.starts_with("error")).unwrap_or("").to_string()
}

// --------------------------------------------------------------- programs

/// A program text with the parallel combinators written `@map`, `@sum` ...
#[derive(Clone, Debug)]
struct P {
    decls: Vec<String>,
    /// counts of elements of the calls that are made
    calls: Vec<usize>,
    /// calls within calls, or results too big for the workers: not every call forks
    loose: bool,
}

fn parallel(t: &str) -> String {
    t.replace('@', "par-")
}

/// The sequential form: by the definition the documentation gives.
fn sequential(t: &str) -> String {
    let mut t = t.to_string();
    for r in ["sum", "max", "min", "concat"] {
        t = t.replace(&format!("@{r}("), &format!("seq-{r}("));
    }
    t = t.replace("@map", "map");
    format!("{}{t}", SEQ)
}

const SEQ: &str = "seq-sum(f, xs): xs map(f) sum\nseq-max(f, xs): xs map(f) max-of\nseq-min(f, xs): xs map(f) min-of\nseq-concat(f, xs): xs map(f) concat\n";

/// Functions of any value at all.
const ANY: &[&str] = &[
    "identity",
    "nil-of",
    "pairs",
    "keyed",
    "hidden",
    "noted",
    "noted-block",
    "made",
    "merged",
    "mapped",
    "wrapped",
    "worked",
    "named",
    "again",
    "spelled",
    "deep",
    "nested-notes",
    "typed",
    "capture(cap)",
    "cons(0) ∘ list-of",
    "(keyed ; lookup(:k))",
    "when-null",
    "sets",
    "timed",
    "reversed",
    "hush",
    "twice",
    "noting",
];

/// Functions from numbers to numbers.
const NUM: &[&str] = &["(+ 1)", "(* 2)", "sub2(3)", "((+ 1) ; (* 3))", "heavy", "half", "negate", "inner-sum", "branch", "looked", "mod5"];

fn library(s: &mut Src) -> String {
    let cap = gen::lit(&gen::value(s, 2));
    format!(
        "cap: {cap}
nil-of(x): []
list-of(x): [x]
pairs(x): [x, [x, cap]]
keyed(x): {{ k: x l: {{ m: x }} }}
hidden(x): {{ a: x ` :suppress b: x c: 2 }}
noted(x): [x // {{ note: [x, 1] }}]
noted-block(x): {{ a: x }} // {{ note: \"n\" deep: {{ of: :sym }} }}
made(x): block([[:q, x], [:r, 1]])
merged(x): {{ a: x b: 1 }} {{ b: 2 c: [x] }}
mapped(x): {{ a: x b: x }} map-values(list-of)
wrapped(x): keyed(made(merged(x)))
worked(x): [range(0, 400) map(+ 3) filter(_ > 5) count, x]
named(x): [\"dyn-{{cap-name}}\" sym, x, block([[(\"key\" ++ cap-name) sym, x]])]
cap-name: \"w\"
a ++ b: [a, b] str.join-on(\"\")
again(x): [x, x] @map(keyed)
spelled(x): [[x] count str.of, \"é𝄞\\n\", \"\"]
deep(x): deeper(x, 40)
deeper(x, n): if(n = 0, x, [deeper(x, n - 1)])
nested-notes(x): {{ a: ([x] // {{ n: 1 }}) ` {{ doc: \"d\" }} b: 2 }}
typed(x): {{ t: null v: x }}
capture(c, x): [c, x]
when-null(x): [null, true, false, x]
sets(x): [[3, 1, 3] set.from-list set.to-list, x]
timed(x): [cal.epoch lookup(:y), {{ y: 12000 m: 2 d: 3 }} cal.datetime, {{ y: 2020 M: 5 }} cal.datetime, x]
reversed(x): [x, 1, 2] reverse
hush(x): {{ a: x ` :suppress b: [1, 3] @map(+ 1) ` {{ doc: \"d\" }} c: [\"3\", \"1\"] set.from-list set.to-list ` :suppress d: noted(x) }}
twice(x): noted(x) // {{ other: [x] }}
noting(x): [twice(x), (x // {{ n: 1 }}) // {{ m: noted(x) }}]
sub2(a, x): a - x
heavy(x): range(0, 500) map(+ x) sum
half(x): x / 2.0
negate(x): 0 - x
inner-sum(x): [x, x + 1, x + 2] @sum(* 2)
branch(x): if(x > 10, x - 10, x + 0.5)
looked(x): {{ a: x b: x + 1 }} lookup(:b)
mod5(x): {{ r: x % 5 v: r * 2 }}.v
"
    )
}

fn small(s: &mut Src) -> String {
    gen::small_int(s).to_string()
}

fn number(s: &mut Src) -> String {
    gen::lit(&gen::any_num(s))
}

/// A list and the number of its elements.
fn list(s: &mut Src, numbers: bool, max: usize) -> (String, usize) {
    let n = *s.pick(&[0, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 13, 17, 20]);
    let n = n.min(max);
    match s.n(if numbers { 5 } else { 3 }) {
        0 | 1 => {
            let l: Vec<String> = (0..n).map(|_| if numbers { small(s) } else { gen::lit(&gen::value(s, 2)) }).collect();
            (format!("[{}]", l.join(", ")), n)
        }
        2 if !numbers => {
            let l: Vec<String> = (0..n).map(|_| number(s)).collect();
            (format!("[{}]", l.join(", ")), n)
        }
        2 => (format!("range(0, {n})"), n),
        3 => {
            let a: Vec<String> = (0..n).map(|_| small(s)).collect();
            (format!("([{}] map(+ 1) filter(< 1000))", a.join(", ")), n)
        }
        _ => {
            let k = 1 + s.n(60);
            (format!("(iterate(+ 1, {}) take({k}))", small(s)), k)
        }
    }
}

/// What is done with a list of results.
fn consumer(s: &mut Src, r: &str) -> String {
    match s.n(9) {
        0 | 1 | 2 => r.to_string(),
        3 => format!("({r} count)"),
        4 => format!("({r} reverse)"),
        5 => format!("({r} map(meta))"),
        6 => format!("[{r}, {r} map(list-of)]"),
        7 => format!("({r} map(inspect))"),
        _ => format!("({r} zip-with(cap2, range(0, 5)))"),
    }
}

fn program(s: &mut Src) -> P {
    let mut decls = vec![library(s)];
    decls.push("cap2(a, b): [b, a]\ninspect(x): [x block?, x list?, x symbol?, x string?, x number?, x null?, x = x, [x] = [x], if(x block?, [x elements, x keys, x values, x { z: 1 }, (x { z: 1 } z: 2)], []), if(x list?, x count, 0)]\n".replace("(x { z: 1 } z: 2)", "x lookup-or(:a, 9)"));
    let mut calls = vec![];
    let mut loose = false;
    for i in 0..1 + s.n(4) {
        let t = match s.n(8) {
            0 => {
                let (l, n) = list(s, true, 20);
                calls.push(n);
                let f = *s.pick(NUM);
                loose |= f == "inner-sum";
                format!("{l} @sum({f})")
            }
            1 => {
                let (l, n) = loop {
                    let x = list(s, true, 20);
                    if x.1 > 0 {
                        break x;
                    }
                };
                calls.push(n);
                let f = *s.pick(NUM);
                loose |= f == "inner-sum";
                format!("{l} @{}({f})", s.pick(&["max", "min"]))
            }
            2 => {
                let (l, n) = list(s, false, 20);
                calls.push(n);
                format!("{l} @concat({})", s.pick(&["pairs", "list-of", "nil-of", "reversed", "when-null"]))
            }
            3 => {
                // more than a worker's share of room
                let k = *s.pick(&[10, 300, 500, 2000]);
                loose = true;
                let (l, n) = list(s, true, 9);
                calls.push(n);
                format!("{l} @concat(expand{i})\nexpand{i}(x): range(0, {k}) map(+ x)")
            }
            4 => {
                let (l, n) = list(s, true, 20);
                calls.push(n);
                let f = *s.pick(NUM);
                loose |= f == "inner-sum";
                format!("@map({f}, {l})")
            }
            _ => {
                let (l, n) = list(s, false, 20);
                calls.push(n);
                let f = *s.pick(ANY);
                loose |= f == "again" || f == "hush";
                let r = format!("({l} @map({f}))");
                let named = s.bool();
                if named {
                    let c = consumer(s, &format!("rs{i}"));
                    format!("{c}\nrs{i}: {r}")
                } else {
                    if s.pct(15) {
                        calls.push(n);
                        loose = true;
                    }
                    consumer(s, &r)
                }
            }
        };
        decls.push(format!("t{i}: {t}\n"));
    }
    P { decls, calls, loose }
}

fn same(s: &mut Src, ctx: &mut Ctx) -> Res {
    let p = program(s);
    let mut c = cfg(s);
    let format = *s.pick(&["json", "eu", "eu", "edn"]);
    let text = p.decls.concat();
    if p.loose {
        c.strict = false;
    }
    ctx.case(format!("{c:?} {format}\n{}", parallel(&text)));
    let dir = Scratch(scratch());
    std::fs::write(dir.0.join("p.eu"), parallel(&text)).unwrap();
    std::fs::write(dir.0.join("s.eu"), sequential(&text)).unwrap();
    let n = p.decls.len() - 2;
    let e = format!("[{}]", (0..n).map(|i| format!("t{i}")).collect::<Vec<_>>().join(", "));
    let args = |f: &str| -> Vec<String> { vec!["-x".into(), format.into(), f.into(), "-e".into(), e.clone()] };
    let b = run(&dir.0, &Cfg { workers: None, threshold: None, strict: false }, &args("s.eu"));
    let a = run(&dir.0, &c, &args("p.eu"));
    let forked = traces(&a.err).iter().filter(|t| t.contains("forked")).count();
    if forked > 0 {
        ctx.nt();
    }
    ctx.label(match (b.code, forked) {
        (Some(0), 0) => "values, without workers",
        (Some(0), _) => "values, from workers",
        _ => "refused",
    });
    if a.code != b.code || a.out != b.out || b.code != Some(0) && complaint(&a) != complaint(&b) {
        return fail("differs", format!("{c:?}\n{}\nparallel: {:?} {}{}\nsequential: {:?} {}{}", parallel(&text), a.code, a.out, a.err, b.code, b.out, b.err));
    }
    // it forks exactly when it says it will
    if b.code == Some(0) && !p.loose {
        let want = p.calls.iter().any(|n| c.splits(*n));
        let all = p.calls.iter().all(|n| c.splits(*n));
        let ts = traces(&a.err);
        if forked > 0 && !want || forked < ts.len() && all {
            return fail("path", format!("{c:?} with counts {:?}: {ts:?}\n{}", p.calls, parallel(&text)));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- refusals

/// A value that cannot cross, with the word for it.
const OPAQUE: &[(&str, &str)] = &[
    ("sub2", "function"),
    ("sub2(1)", "function"),
    ("io.return(1)", "function"),
    ("set.from-list([1, 2])", "opaque value"),
    ("vec.of([1, 2])", "opaque value"),
];

fn refusals(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = 1 + s.n(9);
    let mut bad: Vec<usize> = (0..n).filter(|_| s.pct(30)).collect();
    if bad.is_empty() {
        bad.push(s.n(n));
    }
    let comb = *s.pick(&["par-map", "par-map", "par-map", "par-concat", "par-sum", "par-max", "par-min"]);
    let wrap = match comb {
        "par-map" => *s.pick(&["V", "[V]", "{ a: 1 b: V }", "[1, { q: [V, 2] }]", "(1 // { note: V })", "block([[:q, V]])", "{ a: 1 } { b: V }"]),
        "par-concat" => *s.pick(&["[V]", "[1, V]"]),
        _ => "V",
    };
    let kind = s.n(3);
    let (opaque, word) = *s.pick(OPAQUE);
    let mut at = |i: usize| match kind {
        0 => wrap.replace('V', &format!("panic(\"boom-{i}\")")),
        1 => wrap.replace('V', opaque),
        // the element itself fails or not, whatever is made of it
        _ => wrap.replace('V', "x"),
    };
    let bads: Vec<String> = bad.iter().map(|i| i.to_string()).collect();
    let good = if comb == "par-concat" { "[x]" } else { "x" };
    let body = at(0).replace("boom-0", "boom-{x}");
    let head = s.pct(30);
    let elems: Vec<String> = (0..n).map(|i| if kind == 2 && bad.contains(&i) { format!("fails({i})") } else { i.to_string() }).collect();
    let mut ops = format!("xs: [{}]\nfails(x): panic(\"boom-{{x}}\")\nbads: [{}]\nsub2(a, b): a - b\n", elems.join(", "), bads.join(", "));
    if kind == 2 {
        ops.push_str(&format!("f(x): {body}\n"));
    } else {
        ops.push_str(&format!("f(x): if(bads any(= x), {body}, {good})\n"));
    }
    let tail = if head && comb == "par-map" { " head" } else { "" };
    // the result is taken apart, not rendered, so that nothing else complains
    let use_ = if comb == "par-map" && tail.is_empty() { " count" } else { tail };
    ops.push_str(&format!("r: xs {comb}(f){use_}\n"));
    let c = Cfg { strict: false, ..cfg(s) };
    ctx.case(format!("{c:?}\n{ops}"));
    let dir = Scratch(scratch());
    std::fs::write(dir.0.join("p.eu"), &ops).unwrap();
    let a = run(&dir.0, &c, &["-x".into(), "json".into(), "p.eu".into(), "-e".into(), "r".into()]);
    if c.splits(n) {
        ctx.nt();
    }
    let says = complaint(&a);
    let first = bad[0];
    let ok = match kind {
        1 => says.contains(&format!("{comb}: cannot serialise a")) && says.contains(&format!("{word} across the parallel boundary")),
        _ => says.ends_with(&format!("boom-{first}")),
    };
    ctx.label(["panics", "what cannot cross", "elements fail"][kind]);
    if a.code != Some(1) || !a.out.is_empty() || !ok {
        return fail("refusal", format!("element {first} is the first that {}, but the run says {:?} {}{}\n{c:?}\n{ops}", if kind == 1 { format!("is {word}") } else { "fails".into() }, a.code, a.out, a.err));
    }
    Ok(())
}

// ------------------------------------------------------------------ faults

fn children(pid: u32) -> Vec<u32> {
    let mut v = vec![];
    for t in std::fs::read_dir(format!("/proc/{pid}/task")).into_iter().flatten().flatten() {
        let l = std::fs::read_to_string(t.path().join("children")).unwrap_or_default();
        v.extend(l.split_whitespace().filter_map(|x| x.parse::<u32>().ok()));
    }
    v
}

/// Workers that die part-way: the result is what it would have been.
fn faults(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = 2 + s.n(10);
    let c = Cfg { workers: Some(2 + s.n(5)), threshold: None, strict: s.pct(25) };
    let work = 2000 + s.n(8000);
    let victims: Vec<(u64, usize)> = (0..1 + s.n(3)).map(|_| (s.below(60), s.n(6))).collect();
    let comb = *s.pick(&["par-map", "par-sum", "par-concat"]);
    let f = if comb == "par-concat" { "[x, w]" } else { "x + w" };
    let text = format!("f(x): {{ w: range(0, {work}) map(+ x) sum r: {f} }}.r\nr: range(0, {n}) {comb}(f)\n");
    ctx.case(format!("{c:?} kill {victims:?}\n{text}"));
    let dir = Scratch(scratch());
    std::fs::write(dir.0.join("p.eu"), &text).unwrap();
    let w = |x: usize| -> u64 { (0..work as u64).map(|i| i + x as u64).sum() };
    let want = match comb {
        "par-map" => format!("[{}]", (0..n).map(|x| (x as u64 + w(x)).to_string()).collect::<Vec<_>>().join(",")),
        "par-sum" => (0..n).map(|x| x as u64 + w(x)).sum::<u64>().to_string(),
        _ => format!("[{}]", (0..n).map(|x| format!("{x},{}", w(x))).collect::<Vec<_>>().join(",")),
    };
    // without `timeout` in between, so that the workers are its children
    let mut p = Command::new(std::env::var("EU_BIN").expect("EU_BIN"));
    let q = command(&dir.0, &c, &[]);
    p.args(["-x", "json", "p.eu", "-e", "r"]).current_dir(&dir.0).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    for (k, v) in q.get_envs() {
        match v {
            Some(v) => p.env(k, v),
            None => p.env_remove(k),
        };
    }
    let mut child = p.spawn().expect("eu");
    let pid = child.id();
    let mut seen: std::collections::BTreeSet<u32> = Default::default();
    let mut killed = 0;
    let start = std::time::Instant::now();
    let mut forked_at = None;
    let mut todo = victims.clone();
    loop {
        let cs = children(pid);
        if !cs.is_empty() && forked_at.is_none() {
            forked_at = Some(std::time::Instant::now());
        }
        seen.extend(&cs);
        if let Some(t) = forked_at {
            todo.retain(|(ms, i)| {
                if t.elapsed().as_millis() < u128::from(*ms) {
                    return true;
                }
                if let Some(v) = cs.get(*i % cs.len().max(1)) {
                    // a worker which this run of the tool started; it is not
                    // reaped before it is gone from its parent's children
                    if Command::new("kill").args(["-9", &v.to_string()]).stderr(Stdio::null()).status().map(|x| x.success()).unwrap_or(false) {
                        killed += 1;
                    }
                }
                false
            });
        }
        match child.try_wait() {
            Ok(None) => {}
            _ => break,
        }
        if start.elapsed().as_secs() > 25 {
            let _ = child.kill();
            let _ = child.wait();
            return fail("hangs", format!("{c:?} {victims:?}\n{text}"));
        }
        std::thread::sleep(std::time::Duration::from_millis(1));
    }
    let o = child.wait_with_output().expect("eu");
    let r = Ran { code: o.status.code(), out: String::from_utf8_lossy(&o.stdout).into_owned(), err: String::from_utf8_lossy(&o.stderr).into_owned() };
    let fell = r.err.contains("fork path declined");
    let forked = traces(&r.err).iter().any(|t| t.contains("forked"));
    if killed > 0 {
        ctx.nt();
    }
    ctx.label(match (killed > 0, forked) {
        (true, true) => "killed too late to matter",
        (true, false) => "killed in time",
        _ => "not killed",
    });
    let got: String = r.out.chars().filter(|c| !c.is_whitespace()).collect();
    let said = complaint(&r);
    let fine = r.code == Some(0) && got == want && (!said.contains("error"));
    let strictly = c.strict && killed > 0 && r.code == Some(1) && r.out.is_empty() && said.contains("forbids the sequential fallback");
    if !fine && !strictly {
        return fail("fault", format!("after {killed} workers were killed: {:?} {}{}\n  but the value is {want}\n{c:?} {victims:?}\n{text}", r.code, r.out, r.err));
    }
    if r.err.contains("panicked") || fine && !forked && !fell {
        return fail("noise", format!("{:?}\n{text}", r.err));
    }
    if killed == 0 && c.strict && !fine {
        return fail("fault", format!("no worker was killed: {:?}", r.err));
    }
    // none is left behind
    let left: Vec<&u32> = seen.iter().filter(|p| std::fs::read_to_string(format!("/proc/{p}/cmdline")).map(|c| c.contains("p.eu")).unwrap_or(false)).collect();
    if !left.is_empty() {
        return fail("left", format!("workers {left:?} outlive the run\n{c:?} {victims:?}\n{text}"));
    }
    Ok(())
}

// ----------------------------------------------------------------- streams

/// Streams read before, beneath or within a call are read once.
fn streams(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = 1 + s.n(12);
    let lines: Vec<String> = (0..n).map(|i| format!("w{i}{}", *s.pick(&["", "é", " x", "\"q\""]))).collect();
    let c = Cfg { strict: false, ..cfg(s) };
    let uses: Vec<&str> = (0..1 + s.n(3))
        .map(|_| {
            *s.pick(&[
                "l @map(list-of)",
                "l",
                "l count",
                "[1, 2, 3] @map(peek)",
                "l take(3) @map(list-of)",
                "l @concat(list-of)",
                "[0, 1] @map(nth-of)",
                "l map(list-of) @map(count)",
                "l head",
            ])
        })
        .collect();
    let text = format!("list-of(x): [x]\npeek(x): [x, l head]\nnth-of(i): l drop(i) count\n{}", uses.iter().enumerate().map(|(i, u)| format!("t{i}: {u}\n")).collect::<String>());
    ctx.case(format!("{c:?} {lines:?}\n{text}"));
    let dir = Scratch(scratch());
    std::fs::write(dir.0.join("d.txt"), lines.iter().map(|l| format!("{l}\n")).collect::<String>()).unwrap();
    std::fs::write(dir.0.join("p.eu"), format!("{{ import: \"l=text-stream@d.txt\" }}\n{}", parallel(&text))).unwrap();
    std::fs::write(dir.0.join("s.eu"), format!("{{ import: \"l=text-stream@d.txt\" }}\n{}", sequential(&text))).unwrap();
    let e = format!("[{}]", (0..uses.len()).map(|i| format!("t{i}")).collect::<Vec<_>>().join(", "));
    let args = |f: &str| -> Vec<String> { vec!["-x".into(), "json".into(), f.into(), "-e".into(), e.clone()] };
    let a = run(&dir.0, &c, &args("p.eu"));
    let b = run(&dir.0, &c, &args("s.eu"));
    if uses.iter().any(|u| u.contains('@')) {
        ctx.nt();
    }
    if b.code != Some(0) {
        return fail("program", format!("{}\n{text}", b.err));
    }
    if a.code != b.code || a.out != b.out {
        return fail("stream", format!("{c:?}\n{text}\nparallel: {:?} {}{}\nsequential: {:?} {}", a.code, a.out, a.err, b.code, b.out));
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C15",
        facets: vec![
            Facet { name: "same", rule: "some call is carried out by workers", quick: 240, thorough: 12000, run: same },
            Facet { name: "refusals", rule: "there is more than one worker", quick: 150, thorough: 6000, run: refusals },
            Facet { name: "faults", rule: "a worker is killed", quick: 50, thorough: 2500, run: faults },
            Facet { name: "streams", rule: "a stream is read by or around a call", quick: 60, thorough: 2500, run: streams },
        ],
        known: vec![],
        assumptions: vec![],
    }
}
