//! C19 the type checker only advises: it is total, deterministic, the same
//! on every path, and changes nothing about what a program means.

use crate::engine::{fail, Ctx, Facet, Prop, Res, Src};
use crate::ev;
use crate::progs;
use crate::props::c01::{corpus, mutate};
use crate::props::c02::{eu, scratch};
use crate::props::c18::{self, Scratch};
use eucalypt::core::expr::RcExpr;
use eucalypt::driver::check::{annotation_syntax_errors, run_type_checker, run_type_checker_from_blob_core, PipelineCheckResult};
use std::cell::RefCell;

type Warn = (String, Option<String>, Option<String>, Vec<String>, Option<(usize, usize)>);

thread_local! {
    static UNITS: RefCell<Option<std::rc::Rc<Vec<(String, RcExpr)>>>> = const { RefCell::new(None) };
}

fn units() -> std::rc::Rc<Vec<(String, RcExpr)>> {
    UNITS.with(|u| u.borrow_mut().get_or_insert_with(|| std::rc::Rc::new(ev::blob().and_then(|b| b.decode_desugared_unit_cores()).expect("blob with cores"))).clone())
}

/// What the checker says about a program: each warning with its place in the
/// program's own text, as `eu` finds it (from the compiled prelude) or as
/// `eu check` does (from the prelude's source).
pub fn findings(src: &str, source_prelude: bool) -> Result<(Vec<Warn>, usize), String> {
    let opt = ev::options(&ev::Opts::default(), vec![ev::unit_input(src)]);
    let r: PipelineCheckResult = if source_prelude {
        run_type_checker(&opt).map_err(|e| e.to_string())?
    } else {
        let b = ev::blob().expect("blob");
        run_type_checker_from_blob_core(&opt, &units(), &b.monad_specs, &b.monad_type_hints, &b.deprecations).map_err(|e| e.to_string())?
    };
    let ws = r
        .warnings
        .iter()
        .map(|w| {
            let d = w.to_diagnostic(&r.source_map);
            let at = d.labels.iter().find(|l| r.files.get(l.file_id).is_ok_and(|f| f.source() == src)).map(|l| (l.range.start, l.range.end));
            (w.message.clone(), w.expected.clone(), w.found.clone(), w.notes.clone(), at)
        })
        .collect();
    Ok((ws, r.core_errors.len()))
}

const BAD: &[&str] = &["", "number →", "[number", "(", "->", "number)", "[number, string]", "a | | b", "Lens(number)", "number$"];

/// The text of an annotation: a type, malformed or not even a string.
fn annotation(s: &mut Src, bad: bool) -> (String, bool) {
    match s.below(if bad { 12 } else { 10 }) {
        0..=6 => {
            let d = s.n(4);
            let cfg = c18::Cfg { strings: false, poly: s.bool(), odd: false, never: s.pct(10) };
            let t = c18::ty(s, d, &cfg);
            let mut o = String::new();
            c18::spell(s, &t, 0, &mut o);
            let o = o.replace('\n', " ");
            if s.pct(25) {
                let bang = if s.bool() { "!" } else { "" };
                (format!("\"{bang}{}\"", o.replace('{', "{{").replace('}', "}}")), false)
            } else {
                (format!("s\"{o}\""), false)
            }
        }
        7 => (format!("s\"{}\"", s.pick(&["Cy", "[Cy]", "Cz → Cz", "Missing", "Rec", "Dict(Rec)", "Wide(number)", "Self"])), false),
        8 => {
            let n = *s.pick(&[3, 30, 120]);
            (format!("s\"{}number{}\"", "[".repeat(n), "]".repeat(n)), false)
        }
        9 => ((*s.pick(&["3", "[1, 2]", ":number", "{ a: 1 }", "null", "true", "[]"])).to_string(), false),
        _ => (format!("\"{}\"", s.pick(BAD).replace('{', "{{").replace('}', "}}")), true),
    }
}

const ALIASES: &str = "{ types: { Cy: \"Cz\" Cz: \"Cy\" Self: \"Self\" Rec: s\"null | [Rec] | {v: Rec}\" Wide: s\"[Nope]\" } }\n";

/// A program with annotations thrown upon it, the program without them, and
/// whether an annotation is malformed.
pub fn annotated(s: &mut Src, bad: bool) -> (String, String, bool) {
    let mut p = progs::Program { decls: vec![], main: false };
    for _ in 0..4 {
        let size = *s.pick(&[8, 15, 30, 60]);
        let q = progs::program(s, size);
        // what the documentation leaves open may as well run for ever
        if !matches!(q.reference(), Err(progs::RErr::Open(_))) {
            p = q;
            break;
        }
    }
    let aliases = s.pct(40);
    let mut with = if aliases { ALIASES.to_string() } else { String::new() };
    let mut without = if aliases { "{ note: 1 }\n".to_string() } else { String::new() };
    let mut malformed = false;
    for d in &p.decls {
        let mut plain = d.clone();
        plain.meta = 0;
        let target = if p.main && d.name == "zz-main" { "target: :main " } else { "" };
        if s.pct(60) {
            let (a, b) = annotation(s, bad);
            malformed |= b;
            with.push_str(&format!("` {{ {target}type: {a} }}\n"));
        } else if !target.is_empty() {
            with.push_str(&format!("` {{ {target}}}\n"));
        }
        if !target.is_empty() {
            without.push_str(&format!("` {{ {target}}}\n"));
        }
        progs::show_decl(&plain, &mut with);
        progs::show_decl(&plain, &mut without);
    }
    (with, without, malformed)
}

fn paths(s: &mut Src, ctx: &mut Ctx) -> Res {
    let src = match s.below(10) {
        0..=5 => annotated(s, true).0,
        6 => {
            let t = annotated(s, true).0;
            mutate(s, t)
        }
        7 => s.pick(corpus()).clone(),
        _ => {
            let t = s.pick(corpus()).clone();
            mutate(s, t)
        }
    };
    ctx.case(src.clone());
    let a = findings(&src, false);
    let b = findings(&src, true);
    if a.as_ref().is_ok_and(|a| !a.0.is_empty()) {
        ctx.nt();
    }
    ctx.label(match &a {
        Err(_) => "refused",
        Ok((w, _)) if w.is_empty() => "nothing to warn about",
        _ => "warnings",
    });
    if a != b {
        return fail("paths", format!("compiled prelude: {a:?}\n   source prelude: {b:?}\n{src}"));
    }
    let c = findings(&src, false);
    if a != c {
        return fail("repeat", format!("once: {a:?}\nagain: {c:?}\n{src}"));
    }
    for (off, ..) in annotation_syntax_errors(&src) {
        if off > src.len() {
            return fail("offset", format!("annotation error at {off} in {} bytes\n{src}", src.len()));
        }
    }
    Ok(())
}

fn args(xs: &[&str]) -> Vec<String> {
    xs.iter().map(|x| x.to_string()).collect()
}

fn uncoloured(t: &str) -> String {
    let mut o = String::new();
    let mut it = t.chars();
    while let Some(c) = it.next() {
        if c == '\x1b' {
            for c in it.by_ref() {
                if c == 'm' {
                    break;
                }
            }
        } else {
            o.push(c);
        }
    }
    o
}

fn advisory(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (with, without, malformed) = { let bad = s.bool(); annotated(s, bad) };
    ctx.case(with.clone());
    let d = Scratch(scratch());
    std::fs::write(d.0.join("t.eu"), &with).unwrap();
    std::fs::write(d.0.join("u.eu"), &without).unwrap();
    let run = eu(&d.0, &args(&["t.eu", "-x", "json"]), None);
    let hushed = eu(&d.0, &args(&["run", "t.eu", "-x", "json", "--suppress-type-warnings"]), None);
    let bare = eu(&d.0, &args(&["run", "u.eu", "-x", "json", "--suppress-type-warnings"]), None);
    let strict = eu(&d.0, &args(&["run", "t.eu", "-x", "json", "--strict"]), None);
    let check = eu(&d.0, &args(&["check", "t.eu"]), None);
    let checked = eu(&d.0, &args(&["check", "--strict", "t.eu"]), None);
    let warns = uncoloured(&strict.err).lines().any(|l| l.starts_with("warning"));
    if warns {
        ctx.nt();
    }
    let show = |w: &str, r: &crate::props::c02::Ran| format!("{w}: exit {:?}\n{}\n{}", r.code, r.out, uncoloured(&r.err));
    if (run.code, &run.out) != (bare.code, &bare.out) {
        return fail("meaning", format!("{}\n{}\n{with}", show("annotated", &run), show("not annotated", &bare)));
    }
    if (run.code, &run.out) != (hushed.code, &hushed.out) {
        return fail("suppress", format!("{}\n{}\n{with}", show("plain", &run), show("suppressed", &hushed)));
    }
    let stopped = (Some(1), String::new());
    if (strict.code, strict.out.clone()) != if warns { stopped } else { (run.code, run.out.clone()) } {
        return fail("strict", format!("{}\n{}\n{with}", show("plain", &run), show("strict", &strict)));
    }
    if warns != uncoloured(&run.err).lines().any(|l| l.starts_with("warning")) || uncoloured(&hushed.err).lines().any(|l| l.starts_with("warning")) {
        return fail("warnings", format!("{}\n{}\n{}\n{with}", show("plain", &run), show("strict", &strict), show("suppressed", &hushed)));
    }
    // a malformed annotation is an error to `eu check`, a warning is one when strict
    let want = (i32::from(malformed), i32::from(malformed || warns));
    if (check.code, checked.code) != (Some(want.0), Some(want.1)) {
        return fail("check", format!("{}\n{}\n{}\n{with}", show("run", &run), show("check", &check), show("check --strict", &checked)));
    }
    let told = |t: &str| uncoloured(t).lines().filter(|l| !l.contains("invalid type annotation on")).collect::<Vec<_>>().join("\n");
    if warns && (told(&check.err) != told(&strict.err) || told(&checked.err) != told(&strict.err)) {
        return fail("report", format!("{}\n{}\n{}\n{with}", show("run --strict", &strict), show("check", &check), show("check --strict", &checked)));
    }
    Ok(())
}

/// The types of the annotated programs whose warnings are known.
#[derive(Clone, Debug, PartialEq)]
enum G {
    Num,
    Str,
    Sym,
    Bool,
    Null,
    List(Box<G>),
    Rec(Vec<(&'static str, G)>),
}
use G::*;

fn ground(s: &mut Src, d: usize) -> G {
    match s.below(if d > 0 { 8 } else { 5 }) {
        0 => Num,
        1 => Str,
        2 => Sym,
        3 => Bool,
        4 => Null,
        5 | 6 => List(Box::new(ground(s, d - 1))),
        _ => Rec(["a", "b", "c"][..1 + s.n(3)].iter().map(|k| (*k, ground(s, d - 1))).collect()),
    }
}

fn named(t: &G) -> String {
    match t {
        Num => "number".into(),
        Str => "string".into(),
        Sym => "symbol".into(),
        Bool => "bool".into(),
        Null => "null".into(),
        List(t) => format!("[{}]", named(t)),
        Rec(fs) => format!("{{{}}}", fs.iter().map(|(k, t)| format!("{k}: {}", named(t))).collect::<Vec<_>>().join(", ")),
    }
}

/// A function: its parameters and result; `None` stands for `any`.
type Sig = (Vec<Option<G>>, Option<G>);

struct Flow {
    consts: Vec<(String, Option<G>)>,
    fns: Vec<(String, Sig)>,
    /// how many mistakes are still to be made, and are made
    mistakes: usize,
    made: usize,
}

impl Flow {
    fn literal(&self, s: &mut Src, t: &G) -> String {
        match t {
            Num => (*s.pick(&["1", "2.5", "0", "-7"])).to_string(),
            Str => (*s.pick(&["\"\"", "\"x y\"", "\"number\""])).to_string(),
            Sym => (*s.pick(&[":a", ":k-1"])).to_string(),
            Bool => (*s.pick(&["true", "false"])).to_string(),
            Null => "null".to_string(),
            List(t) => format!("[{}]", (0..1 + s.n(3)).map(|_| self.literal(s, t)).collect::<Vec<_>>().join(", ")),
            Rec(fs) => format!("{{ {} }}", fs.iter().map(|(k, t)| format!("{k}: {}", self.literal(s, t))).collect::<Vec<_>>().join(" ")),
        }
    }
    /// Something of a type that is certainly not `t`.
    fn other(&self, s: &mut Src, t: &G) -> G {
        let scalars = [Num, Str, Sym, Bool];
        match t {
            List(e) if s.bool() => List(Box::new(self.other(s, e))),
            Rec(fs) if s.bool() => {
                let i = s.n(fs.len());
                let mut fs = fs.clone();
                fs[i].1 = self.other(s, &fs[i].1);
                Rec(fs)
            }
            _ => loop {
                let g = s.pick(&scalars).clone();
                if g != *t {
                    return g;
                }
                if matches!(t, Num) {
                    return Str;
                }
            },
        }
    }
    /// An argument for a parameter; perhaps a mistaken one.
    fn arg(&mut self, s: &mut Src, t: &Option<G>, d: usize) -> String {
        match t {
            None => {
                let t = ground(s, 1);
                self.expr(s, &t, d, false)
            }
            // what a literal list or block is said to have depends on more
            // than the type: mistakes are made with scalars and constants
            Some(t) => {
                if self.mistakes > 0 && s.pct(40) {
                    self.mistakes -= 1;
                    self.made += 1;
                    let o = self.other(s, t);
                    let cs: Vec<&String> = self.consts.iter().filter(|(_, u)| u.as_ref() == Some(&o)).map(|c| &c.0).collect();
                    return match o {
                        List(_) | Rec(_) => match cs.first() {
                            Some(c) => (*c).clone(),
                            None => self.literal(s, if matches!(t, Num) { &Str } else { &Num }),
                        },
                        o => self.expr(s, &o, d, true),
                    };
                }
                self.expr(s, t, d, false)
            }
        }
    }
    fn expr(&mut self, s: &mut Src, t: &G, d: usize, sure: bool) -> String {
        if d > 0 {
            for _ in 0..3 {
                match s.below(5) {
                    0..=2 => {
                        let fs: Vec<(String, Sig)> = self.fns.iter().filter(|(_, (_, r))| (r.is_none() && !sure) || r.as_ref() == Some(t)).cloned().collect();
                        if fs.is_empty() {
                            continue;
                        }
                        let (f, (ps, _)) = s.pick(&fs).clone();
                        let mut xs: Vec<String> = ps.iter().map(|p| self.arg(s, p, d - 1)).collect();
                        return match s.below(3) {
                            0 => {
                                let last = xs.pop().unwrap();
                                if xs.is_empty() {
                                    format!("({last} {f})")
                                } else {
                                    format!("({last} {f}({}))", xs.join(", "))
                                }
                            }
                            1 => format!("{f}({})", xs.join(", ")),
                            _ => {
                                let last = xs.pop().unwrap();
                                if xs.is_empty() {
                                    format!("{f}({last})")
                                } else {
                                    format!("{f}({})({last})", xs.join(", "))
                                }
                            }
                        };
                    }
                    3 if *t == Bool => {
                        let a = self.arg(s, &Some(Bool), d - 1);
                        return format!("not({a})");
                    }
                    3 if *t == Num => {
                        let a = self.arg(s, &Some(Num), d - 1);
                        return format!("({a} inc)");
                    }
                    4 => {
                        let ks: Vec<String> = self
                            .consts
                            .iter()
                            .filter_map(|(c, u)| match u {
                                Some(Rec(fs)) => Some(fs.iter().filter(|(_, u)| u == t).map(|(k, _)| format!("{c}.{k}")).collect::<Vec<_>>()),
                                _ => None,
                            })
                            .flatten()
                            .collect();
                        if !ks.is_empty() {
                            return s.pick(&ks).clone();
                        }
                    }
                    _ => {}
                }
            }
        }
        let cs: Vec<&String> = self.consts.iter().filter(|(_, u)| (u.is_none() && !sure) || u.as_ref() == Some(t)).map(|c| &c.0).collect();
        if !cs.is_empty() && s.bool() {
            return (*s.pick(&cs)).clone();
        }
        self.literal(s, t)
    }
}

/// Programs whose declarations say their types: a warning stands on the line
/// of each mistaken use and nowhere else.
fn flow(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut w = Flow { consts: vec![], fns: vec![], mistakes: 0, made: 0 };
    let mut lines: Vec<String> = vec![];
    let say = |t: &Option<G>| t.as_ref().map(named).unwrap_or("any".into());
    for i in 0..3 + s.n(5) {
        let t = ground(s, 2);
        let any = s.pct(12);
        let body = w.literal(s, &t);
        let t = if any { None } else { Some(t) };
        let q = if matches!(t, Some(_)) && s.pct(30) { ("c\"", "\"") } else { ("s\"", "\"") };
        let ann = if q.0 == "s\"" { say(&t) } else { say(&t).replace('{', "\\{").replace('}', "\\}") };
        lines.push(format!("` {{ type: {}{ann}{} }} c{i}: {body}", q.0, q.1));
        w.consts.push((format!("c{i}"), t));
    }
    let mut wrong = vec![];
    for i in 0..3 + s.n(5) {
        let mut side = |s: &mut Src| if s.pct(12) { None } else { Some(ground(s, 1)) };
        let ps: Vec<Option<G>> = (0..1 + s.n(3)).map(|_| side(s)).collect();
        let r = side(s);
        // what it gives is a literal of its type, or a mistake
        let bad = s.pct(10);
        let body = match &r {
            None => "1".to_string(),
            Some(t) if bad => match w.other(s, t) {
                List(_) | Rec(_) if *t == Num => w.literal(s, &Str),
                List(_) | Rec(_) => w.literal(s, &Num),
                o => w.literal(s, &o),
            },
            Some(t) => w.literal(s, t),
        };
        if bad && r.is_some() {
            wrong.push(lines.len());
        }
        let names: Vec<String> = (0..ps.len()).map(|k| format!("p{k}")).collect();
        let arrow = *s.pick(&[" → ", " -> ", "→"]);
        let ty = ps.iter().chain([&r]).map(say).collect::<Vec<_>>().join(arrow);
        lines.push(format!("` {{ type: s\"{ty}\" }} f{i}({}): {body}", names.join(", ")));
        w.fns.push((format!("f{i}"), (ps, r)));
    }
    for i in 0..6 {
        w.mistakes = usize::from(s.pct(35));
        w.made = 0;
        let t = ground(s, 1);
        let e = w.expr(s, &t, 4, false);
        if w.made > 0 {
            wrong.push(lines.len());
        }
        lines.push(match s.below(3) {
            0 => format!("x{i}: {e}"),
            1 => format!("x{i}: {{ deep: [{e}] }}"),
            _ => format!("x{i}: {{ k: {e} }}.k"),
        });
    }
    let src = lines.join("\n");
    ctx.case(src.clone());
    if !wrong.is_empty() {
        ctx.nt();
    }
    let ws = match findings(&src, false) {
        Ok((ws, 0)) => ws,
        e => return fail("refused", format!("{e:?}\n{src}")),
    };
    let mut got = std::collections::BTreeMap::<usize, Vec<String>>::new();
    for (m, e, f, _, at) in ws {
        let Some((a, _)) = at else {
            return fail("unplaced", format!("{m} (expected {e:?}, found {f:?})\n{src}"));
        };
        got.entry(src[..a].matches('\n').count()).or_default().push(format!("{m} (expected {e:?}, found {f:?})"));
    }
    for (i, l) in lines.iter().enumerate() {
        ctx.label(if wrong.contains(&i) { "mistake" } else { "right" });
        match (wrong.contains(&i), got.get(&i)) {
            (true, None) => return fail("unwarned", format!("{l}\n is mistaken, and the checker says nothing\n{src}")),
            (false, Some(m)) => return fail("false-warning", format!("{l}\n is right, but: {m:?}\n{src}")),
            _ => {}
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C19",
        facets: vec![
            Facet { name: "paths", rule: "annotated programs and program texts, whole or damaged; non-trivial: there is something to warn about", quick: 400, thorough: 12000, run: paths },
            Facet { name: "flow", rule: "annotated constants and functions, and expressions which use them rightly or mistakenly; non-trivial: there is a mistake", quick: 1000, thorough: 40000, run: flow },
            Facet { name: "advisory", rule: "annotated programs run and checked with the tool in every mode, and without their annotations; non-trivial: there is something to warn about", quick: 100, thorough: 2500, run: advisory },
        ],
        known: vec![],
        assumptions: vec!["an operator with overloads (`-`, `*`) makes no demand on its operands", "an annotation whose text has braces is validated as a warning only"],
    }
}
