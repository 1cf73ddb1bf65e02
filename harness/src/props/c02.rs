//! C02: formatting never changes what a file says.

use crate::engine::{fail, Ctx, Facet, Prop, Res, Src};
use crate::ev::{self, Opts};
use crate::props::c01::{corpus, mutate};
use crate::synt::{self, Style};
use crate::mix;
use eucalypt::syntax::export::format::{format_source, needs_formatting, Formatter, FormatterConfig};
use eucalypt::syntax::rowan::ast::HasSoup;
use eucalypt::syntax::rowan::kind::{SyntaxKind, SyntaxNode};
use eucalypt::syntax::rowan::parse_unit;
use rowan::ast::AstNode;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

fn config(s: &mut Src) -> FormatterConfig {
    let w = match s.n(6) {
        0 => 80,
        1 => s.n(14),
        2 => 12 + s.n(30),
        3 => 120,
        4 => 2000,
        _ => 20 + s.n(80),
    };
    FormatterConfig::new(w, *s.pick(&[2, 2, 4, 1, 8, 0, 3]), s.pct(65))
}

fn style(s: &mut Src) -> Style {
    Style { odd: *s.pick(&[0, 0, 15, 60]), comments: *s.pick(&[0, 0, 8, 40]) }
}

fn show(c: &FormatterConfig, src: &str, out: &str) -> String {
    format!("{c:?}\n---- source {src:?}\n{src}\n---- formatted {out:?}\n{out}\n----")
}

/// Every token that carries meaning or says something, in order.
fn words(n: &SyntaxNode) -> Vec<(SyntaxKind, String)> {
    n.descendants_with_tokens()
        .filter_map(|e| e.into_token())
        .filter(|t| !matches!(t.kind(), SyntaxKind::WHITESPACE | SyntaxKind::COMMA | SyntaxKind::COMMENT))
        .map(|t| (t.kind(), t.text().to_string()))
        .collect()
}

fn stray(n: &SyntaxNode) -> Option<String> {
    n.descendants_with_tokens().filter_map(|e| e.into_token()).find_map(|t| {
        (t.kind() == SyntaxKind::WHITESPACE && !t.parent_ancestors().any(|n| n.kind() == SyntaxKind::STRING_INTERPOLATION) && t.text().contains(['\t', '\r']) || t.kind() == SyntaxKind::COMMENT && t.text().contains('\r') && !t.text().trim_end().contains('\r'))
            .then(|| t.text().to_string())
    })
}

/// A block-leading tick apart, formatting keeps the very same tokens. The
/// structure, the comments and the anchors follow.
fn same(c: &FormatterConfig, src: &str, out: &str) -> Res {
    let (a, b) = (parse_unit(src), parse_unit(out));
    if !b.errors().is_empty() {
        return fail("broken", format!("formatted source does not parse: {:?}\n{}", b.errors(), show(c, src, out)));
    }
    let (sa, sb) = (synt::tree_shape(&a.tree()), synt::tree_shape(&b.tree()));
    if sa != sb {
        return fail("structure", format!("formatting changes the structure\n{}\n  was {sa}\n  is  {sb}", show(c, src, out)));
    }
    let (wa, wb) = (words(&a.syntax_node()), words(&b.syntax_node()));
    if wa != wb {
        return fail("tokens", format!("formatting changes a token\n{}\n  was {wa:?}\n  is  {wb:?}", show(c, src, out)));
    }
    let (ca, cb) = (synt::comments(&a.syntax_node()), synt::comments(&b.syntax_node()));
    if ca != cb {
        let only: Vec<_> = ca.iter().map(|x| &x.0).collect();
        let kind = if only == cb.iter().map(|x| &x.0).collect::<Vec<_>>() { "comment-moved" } else { "comment-lost" };
        return fail(kind, format!("formatting loses, changes or moves a comment\n{}\n  was {ca:?}\n  is  {cb:?}", show(c, src, out)));
    }
    if let Some(t) = stray(&b.syntax_node()) {
        return fail("whitespace", format!("a tab or carriage return is left in the layout: {t:?}\n{}", show(c, src, out)));
    }
    Ok(())
}

/// All that holds of formatting one valid text.
fn laws(c: &FormatterConfig, src: &str) -> Result<String, crate::engine::Fail> {
    let out = match format_source(src, c) {
        Ok(o) => o,
        Err(e) => return fail("refused", format!("a valid unit is not formatted: {e}\n{}", show(c, src, ""))),
    };
    same(c, src, &out)?;
    if !out.is_empty() && !out.ends_with('\n') {
        return fail("newline", format!("no newline at the end\n{}", show(c, src, &out)));
    }
    match format_source(&out, c) {
        Ok(o) if o == out => {}
        again => return fail("unstable", format!("formatting again changes it\n{}\n---- again\n{}", show(c, src, &out), again.unwrap_or_else(|e| e))),
    }
    for (t, want) in [(src, src != out), (out.as_str(), false)] {
        if needs_formatting(t, c) != Ok(want) {
            return fail("check", format!("needs_formatting is {:?}, the text {} by formatting\n{}", needs_formatting(t, c), if want { "is changed" } else { "is not changed" }, show(c, t, &out)));
        }
    }
    if !c.reformat {
        // only tabs, carriage returns and the newline at the end may differ
        let squash = |t: &str| t.replace(['\t', '\r', '\n', ' '], "");
        if squash(src) != squash(&out) {
            return fail("layout", format!("conservative formatting changes the layout\n{}", show(c, src, &out)));
        }
        if !src.contains(['\t', '\r']) && src.trim_end_matches('\n') != out.trim_end_matches('\n') {
            return fail("layout", format!("conservative formatting changes a text with nothing to fix\n{}", show(c, src, &out)));
        }
    }
    Ok(out)
}

fn units(s: &mut Src, ctx: &mut Ctx) -> Res {
    let st = style(s);
    let u = synt::unit(s);
    let text = synt::render(s, &synt::tokens(&u), st);
    let c = config(s);
    ctx.case(format!("{c:?}\n{text}"));
    if !parse_unit(&text).errors().is_empty() {
        return Ok(());
    }
    ctx.label(if c.reformat { "reformat" } else { "conservative" });
    let out = laws(&c, &text)?;
    if out != text {
        ctx.nt();
    }
    // a second style of the same unit: canonical layout depends on the
    // structure alone where nothing is kept as written
    if c.reformat && st.comments == 0 && s.pct(30) {
        let plain = synt::render(s, &synt::tokens(&u), Style { odd: 0, comments: 0 });
        if parse_unit(&plain).errors().is_empty() {
            laws(&c, &plain)?;
        }
    }
    Ok(())
}

fn declarations(s: &mut Src, ctx: &mut Ctx) -> Res {
    let st = style(s);
    let u = synt::unit(s);
    let text = synt::render(s, &synt::tokens(&u), st);
    let c = config(s);
    ctx.case(format!("{c:?}\n{text}"));
    let p = parse_unit(&text);
    if !p.errors().is_empty() {
        return Ok(());
    }
    for d in p.tree().declarations() {
        let out = match Formatter::new(c.clone()).format_declaration(&d) {
            Ok(o) => o,
            Err(e) => return fail("refused", format!("a declaration is not formatted: {e}\n{}", show(&c, &text, ""))),
        };
        let q = parse_unit(&out);
        let mut want = String::new();
        synt::t_decl(&d, &mut want);
        let ds: Vec<_> = q.tree().declarations().collect();
        let mut got = String::new();
        if let [e] = &ds[..] {
            synt::t_decl(e, &mut got);
        }
        if !q.errors().is_empty() || got != want || q.tree().meta().is_some() || words(d.syntax()) != words(&q.syntax_node()) {
            return fail("declaration", format!("one formatted declaration differs\n{}\n  was {want}\n  is  {got}", show(&c, &d.syntax().text().to_string(), &out)));
        }
        let (a, b) = (synt::comments(d.syntax()), synt::comments(&q.syntax_node()));
        if a != b {
            return fail("declaration-comment", format!("formatting a declaration loses or moves a comment\n{}\n  was {a:?}\n  is  {b:?}", show(&c, &d.syntax().text().to_string(), &out)));
        }
        if d.syntax().text().len() > rowan::TextSize::from(20) {
            ctx.nt();
        }
    }
    Ok(())
}

fn files(s: &mut Src, ctx: &mut Ctx) -> Res {
    let fs = corpus();
    let f = s.pick(fs).clone();
    let c = config(s);
    ctx.case(format!("{c:?}\n{f}"));
    if !parse_unit(&f).errors().is_empty() {
        return invalid_text(&f, &c);
    }
    ctx.nt();
    laws(&c, &f).map(|_| ())
}

fn invalid_text(text: &str, c: &FormatterConfig) -> Res {
    let bad = !parse_unit(text).errors().is_empty();
    let r = format_source(text, c);
    if bad && r.is_ok() {
        return fail("accepted", format!("an invalid unit is formatted\n{}", show(c, text, &r.unwrap())));
    }
    if bad && needs_formatting(text, c).is_ok() {
        return fail("accepted", format!("an invalid unit passes the formatting check\n{}", show(c, text, "")));
    }
    if !bad {
        laws(c, text)?;
    }
    Ok(())
}

fn mutants(s: &mut Src, ctx: &mut Ctx) -> Res {
    let st = style(s);
    let u = synt::unit(s);
    let mut text = synt::render(s, &synt::tokens(&u), st);
    for _ in 0..1 + s.n(3) {
        text = mutate(s, text);
    }
    let c = config(s);
    ctx.case(format!("{c:?}\n{text}"));
    ctx.nt();
    ctx.label(if parse_unit(&text).errors().is_empty() { "valid" } else { "invalid" });
    invalid_text(&text, &c)
}

/// A formatted program computes what it did.
fn meaning(s: &mut Src, ctx: &mut Ctx) -> Res {
    let u = mix::unit(s);
    let src = match u.exprs.len() {
        0 => u.prefix.clone(),
        n => format!("{}\nzz: {}\n", u.prefix, u.exprs[s.n(n)]),
    };
    let c = config(s);
    ctx.case(format!("{c:?}\n{src}"));
    let out = laws(&c, &src)?;
    if out == src {
        return Ok(());
    }
    let o = Opts { limit: Some(200_000), ..Opts::default() };
    let (a, b) = (ev::eval_unit(&src, &o), ev::eval_unit(&out, &o));
    if a.timed_out() || b.timed_out() {
        ctx.label("long");
        return Ok(());
    }
    if a.ok().is_some() {
        ctx.nt();
    }
    if !a.agrees(&b) {
        return fail("meaning", format!("the formatted program does something else\n{}\n  was {}\n  is  {}", show(&c, &src, &out), a.show(), b.show()));
    }
    Ok(())
}

// ------------------------------------------------------------ command line

pub fn scratch() -> PathBuf {
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let base = std::env::var("VERIF_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
    let d = base.join(format!("c-{}-{}", std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
    std::fs::create_dir_all(&d).unwrap();
    d
}

pub struct Ran {
    pub code: Option<i32>,
    pub out: String,
    pub err: String,
}
pub fn eu(dir: &Path, args: &[String], stdin: Option<&str>) -> Ran {
    use std::io::Write;
    let bin = std::env::var("EU_BIN").expect("EU_BIN");
    let mut c = Command::new("timeout");
    c.arg("60").arg(bin).args(args).current_dir(dir).env("HOME", dir).stdout(Stdio::piped()).stderr(Stdio::piped());
    c.stdin(if stdin.is_some() { Stdio::piped() } else { Stdio::null() });
    let mut p = c.spawn().expect("eu");
    let w = stdin.map(|t| {
        let mut i = p.stdin.take().unwrap();
        let t = t.to_string();
        std::thread::spawn(move || {
            let _ = i.write_all(t.as_bytes());
        })
    });
    let o = p.wait_with_output().expect("eu output");
    if let Some(w) = w {
        let _ = w.join();
    }
    Ran { code: o.status.code(), out: String::from_utf8_lossy(&o.stdout).into_owned(), err: String::from_utf8_lossy(&o.stderr).into_owned() }
}

fn cli(s: &mut Src, ctx: &mut Ctx) -> Res {
    let c = loop {
        let c = config(s);
        if c.line_width > 0 {
            break c;
        }
    };
    let n = 1 + s.n(3);
    let mut texts = vec![];
    for _ in 0..n {
        let st = style(s);
        let u = synt::unit(s);
        let mut t = synt::render(s, &synt::tokens(&u), st);
        if s.pct(25) {
            t = mutate(s, t);
        }
        if s.pct(20) {
            if let Ok(f) = format_source(&t, &c) {
                t = f;
            }
        }
        texts.push(t);
    }
    let mode = *s.pick(&["--write", "--check", "stdout", "stdin", "--write", "--check", "stdin --check"]);
    let missing = n > 1 && s.pct(15);
    let mut args: Vec<String> = vec!["fmt".into(), "--width".into(), c.line_width.to_string(), "--indent".into(), c.indent_size.to_string()];
    if c.reformat {
        args.push("--reformat".into());
    }
    if let Some(m) = mode.split(' ').find(|m| m.starts_with("--")) {
        args.push(m.into());
    }
    let stdin = mode.starts_with("stdin");
    if stdin {
        texts.truncate(1);
    } else {
        for i in 0..texts.len() {
            args.push(format!("f{i}.eu"));
        }
        if missing {
            args.insert(args.len() - s.n(texts.len()), "absent.eu".into());
        }
    }
    ctx.case(format!("{args:?}\n{}", texts.join("\n----\n")));
    ctx.label(mode);
    let d = scratch();
    for (i, t) in texts.iter().enumerate() {
        std::fs::write(d.join(format!("f{i}.eu")), t).unwrap();
    }
    let r = eu(&d, &args, if stdin { Some(&texts[0]) } else { None });
    let after: Vec<String> = (0..texts.len()).map(|i| std::fs::read_to_string(d.join(format!("f{i}.eu"))).unwrap_or_default()).collect();
    let left = std::fs::read_dir(&d).unwrap().count();
    let _ = std::fs::remove_dir_all(&d);
    let say = |m: &str| format!("{m}\n  eu {}\n  exit {:?}\n  out {:?}\n  err {:?}\n{}", args.join(" "), r.code, r.out, r.err, texts.iter().map(|t| format!("{t:?}")).collect::<Vec<_>>().join("\n"));
    let fmt: Vec<Option<String>> = texts.iter().map(|t| format_source(t, &c).ok()).collect();
    let bad = fmt.iter().any(|f| f.is_none()) || (missing && !stdin);
    let changed = fmt.iter().zip(&texts).any(|(f, t)| f.as_ref().is_some_and(|f| f != t));
    let want_code = (bad || mode.contains("--check") && changed) as i32;
    // text that does not parse on standard input: any failure status
    if r.code != Some(want_code) && !(stdin && bad && r.code.is_some_and(|c| c > 0 && c < 100)) {
        return fail("exit", say(&format!("exit status {:?}, expected {want_code}", r.code)));
    }
    for (i, t) in texts.iter().enumerate() {
        let want = match (&fmt[i], mode) {
            (Some(f), "--write") => f,
            _ => t,
        };
        if &after[i] != want {
            return fail("file", say(&format!("file {i} is {:?} afterwards, expected {want:?}", after[i])));
        }
    }
    if left != texts.len() {
        return fail("litter", say("other files appeared"));
    }
    let want_out: String = if mode == "stdout" || mode == "stdin" { fmt.iter().flatten().cloned().collect() } else { String::new() };
    if r.out != want_out {
        return fail("output", say(&format!("standard output should be {want_out:?}")));
    }
    if mode == "--check" && !stdin {
        for (i, t) in texts.iter().enumerate() {
            if fmt[i].as_ref() != Some(t) && !r.err.contains(&format!("f{i}.eu")) {
                return fail("unnamed", say(&format!("file {i} is not named")));
            }
        }
    }
    if changed {
        ctx.nt();
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        facets: vec![
            Facet { name: "units", rule: "units generated from a model of the syntax with arbitrary layout and comments, formatted in both modes at any width and indent; non-trivial: formatting changes the text", quick: 25_000, thorough: 1_000_000, run: units },
            Facet { name: "declarations", rule: "each declaration of a generated unit formatted by itself; non-trivial: over 20 characters", quick: 6_000, thorough: 300_000, run: declarations },
            Facet { name: "files", rule: "eucalypt files of the repository (library, examples, tests); all non-trivial if valid", quick: 600, thorough: 6_000, run: files },
            Facet { name: "mutants", rule: "generated units with characters removed, added and moved; all non-trivial", quick: 12_000, thorough: 500_000, run: mutants },
            Facet { name: "meaning", rule: "generated programs evaluated before and after; non-trivial: formatting changes the text and the program has a value", quick: 1_500, thorough: 30_000, run: meaning },
            Facet { name: "cli", rule: "eu fmt over one to three files or standard input, to standard output, written or checked; non-trivial: formatting changes a file", quick: 300, thorough: 6_000, run: cli },
        ],
        known: vec![],
        assumptions: vec![],
    }
}
