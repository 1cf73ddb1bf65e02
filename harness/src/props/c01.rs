//! C01: parsing is lossless, total, and finds exactly the structure written.

use crate::engine::{fail, Ctx, Facet, Prop, Res, Src};
use crate::ev::{self, Opts};
use crate::synt::{self, Style};
use eucalypt::syntax::rowan::kind::{SyntaxKind, SyntaxNode};
use eucalypt::syntax::rowan::{parse_expr, parse_unit, ParseError};
use rowan::ast::AstNode;
use rowan::TextRange;
use std::sync::OnceLock;

fn show(t: &str) -> String {
    format!("{t}\n  = {t:?}")
}

/// Where an error says the problem is.
/// The place an error is reported at.
pub fn primary(e: &ParseError) -> TextRange {
    match e {
        ParseError::MismatchedBrackets { open_range, .. } => *open_range,
        _ => *ranges(e).last().unwrap(),
    }
}

fn ranges(e: &ParseError) -> Vec<TextRange> {
    use ParseError::*;
    match e {
        UnexpectedToken { range, .. }
        | UnclosedSingleQuote { range }
        | UnclosedDoubleQuote { range }
        | EmptyDeclarationBody { range }
        | MalformedDeclarationHead { range }
        | SurplusContent { range }
        | ReservedCharacter { range }
        | EmptyExpression { range }
        | UnclosedStringInterpolation { range }
        | InvalidZdtLiteral { range, .. }
        | InvalidDoubleColon { range }
        | UnclosedBracketExpr { range }
        | UnknownBracketPair { range, .. } => vec![*range],
        InvalidParenExpr { open_paren_range, range } => open_paren_range.iter().copied().chain([*range]).collect(),
        UnterminatedBlock { open_brace_range, range } => open_brace_range.iter().copied().chain([*range]).collect(),
        MissingDeclarationColon { head_range } => vec![*head_range],
        InvalidFormalParameter { head_range, range }
        | InvalidOperatorName { head_range, range }
        | InvalidPropertyName { head_range, range } => vec![*head_range, *range],
        MismatchedBrackets { open_range, close_range, .. } => vec![*open_range, *close_range],
    }
}

fn error_node(n: &SyntaxNode) -> bool {
    n.descendants_with_tokens().any(|e| {
        matches!(
            e.kind(),
            SyntaxKind::ERROR
                | SyntaxKind::ERROR_STOWAWAYS
                | SyntaxKind::ERROR_RESERVED_CHAR
                | SyntaxKind::RESERVED_OPEN
                | SyntaxKind::RESERVED_CLOSE
        )
    })
}

/// What holds of any parse of any text.
fn general(text: &str, root: &SyntaxNode, errors: &[ParseError]) -> Res {
    if root.text() != text {
        return fail("lossy", format!("the tree's text is not the source\n  {}\n  tree {:?}", show(text), root.text().to_string()));
    }
    for e in errors {
        for r in ranges(e) {
            let (a, b) = (usize::from(r.start()), usize::from(r.end()));
            if b > text.len() || !text.is_char_boundary(a) || !text.is_char_boundary(b) {
                return fail("range", format!("{e:?} lies outside the text or splits a character (length {})\n  {}", text.len(), show(text)));
            }
        }
    }
    if errors.is_empty() && error_node(root) {
        return fail("silent", format!("the tree contains an error node but no error is reported\n  {}\n{:?}", show(text), root.descendants_with_tokens().filter(|e| format!("{:?}", e.kind()).contains("ERR")).map(|e| format!("{e:?}")).collect::<Vec<_>>()));
    }
    Ok(())
}

fn check_unit(text: &str) -> Result<bool, crate::engine::Fail> {
    let p = parse_unit(text);
    general(text, &p.syntax_node(), p.errors())?;
    if p.errors() != parse_unit(text).errors() || p != parse_unit(text) {
        return fail("unstable", format!("two parses differ\n  {}", show(text)));
    }
    let clean = p.errors().is_empty();
    if clean {
        let sh = synt::tree_shape(&p.tree());
        if ["malformed", "nohead", " nocolon ", "<none>"].iter().any(|k| sh.contains(k)) && !text.contains("malformed") && !text.contains("nohead") && !text.contains("none") {
            return fail("accepted", format!("an ill-formed declaration is accepted without an error\n  {}\n  {sh}", show(text)));
        }
    }
    Ok(clean)
}

fn check_expr(text: &str) -> Result<bool, crate::engine::Fail> {
    let p = parse_expr(text);
    general(text, &p.syntax_node(), p.errors())?;
    Ok(p.errors().is_empty())
}

fn style(s: &mut Src) -> Style {
    Style { odd: *s.pick(&[0, 0, 15, 60]), comments: *s.pick(&[0, 0, 8, 40]) }
}

// ------------------------------------------------------------- structure

fn structure(s: &mut Src, ctx: &mut Ctx) -> Res {
    let st = style(s);
    if s.pct(25) {
        let e = synt::soup(s, 3);
        let text = synt::render(s, &synt::soup_tokens(&e), st);
        ctx.case(&text);
        let p = parse_expr(&text);
        if !p.errors().is_empty() {
            return fail("rejected", format!("a valid expression is rejected: {:?}\n  {}", p.errors(), show(&text)));
        }
        general(&text, &p.syntax_node(), p.errors())?;
        let (got, want) = (synt::soup_shape(&p.tree()), synt::model_soup_shape(&e));
        if got != want {
            return fail("structure", format!("{}\n  expected {want}\n  found    {got}", show(&text)));
        }
        if e.len() > 2 {
            ctx.nt();
        }
        return Ok(());
    }
    let u = synt::unit(s);
    let text = synt::render(s, &synt::tokens(&u), st);
    ctx.case(&text);
    let p = parse_unit(&text);
    if !p.errors().is_empty() {
        return fail("rejected", format!("a valid unit is rejected: {:?}\n  {}", p.errors(), show(&text)));
    }
    general(&text, &p.syntax_node(), p.errors())?;
    let (got, want) = (synt::tree_shape(&p.tree()), synt::shape(&u));
    if got != want {
        return fail("structure", format!("{}\n  expected {want}\n  found    {got}", show(&text)));
    }
    if want.len() > 60 {
        ctx.nt();
    }
    Ok(())
}

// ------------------------------------------------------------ arbitrary text

const BITS: &[&str] = &[
    "x", "f", "foo", "'q r'", "'", "1", "-1", "2.5", "3.", "\"a\"", "\"{x}\"", "\"{x", "\"", "c\"", "r\"", "t\"", "s\"", "c\"\\\"", "c\"a\\n\"", "t\"2024-01-01\"", "t\"bad\"", "s\"number\"", ":k", ":'k'",
    ":'", ":", "::", ":::", "+", "-", ".", "*", "!", "∧", "(", ")", "[", "]", "{", "}", "⟦", "⟧", "«", "»", "⌉", "⌈", "`", ",", " ", " ", " ", "\n", "\t", "#c\n", "#", "\r\n", "\\", "𝄞", "é", "\u{0}", "\u{feff}", "\u{301}",
    "‘", "’", "“", "”", "„", "x: 1", "f(x): x", "(a + b): a", "{ a: 1 }", "` :m", "_", "_0", "•", "\"{{\"", "\"}}\"", "\"{}\"", "\"{x:%d}\"", "\"{x.y}\"", "\"{ x . y }\"", "\"{.}\"", "\"{x y}\"", "c\"{x}\\{\"", "r\"{ }\"", "\"{x:a:b}\"", "\"{:}\"", "\"{x.1.z:%s}\"",
];

pub fn corpus() -> &'static Vec<String> {
    static C: OnceLock<Vec<String>> = OnceLock::new();
    C.get_or_init(|| {
        let mut v = vec![];
        for d in ["/repo/tests/harness", "/repo/tests/harness/errors", "/repo/examples", "/repo/lib"] {
            let Ok(es) = std::fs::read_dir(d) else { continue };
            let mut ps: Vec<_> = es.flatten().map(|e| e.path()).filter(|p| p.extension().is_some_and(|x| x == "eu")).collect();
            ps.sort();
            for p in ps {
                if let Ok(t) = std::fs::read_to_string(p) {
                    v.push(t);
                }
            }
        }
        v
    })
}

fn random_char(s: &mut Src) -> char {
    match s.n(4) {
        0 | 1 => (b' ' + s.n(95) as u8) as char,
        2 => char::from_u32(s.below(0x3100) as u32).unwrap_or('x'),
        _ => char::from_u32(s.below(0x11_0000) as u32).unwrap_or('\n'),
    }
}

fn cut(s: &mut Src, t: &str) -> usize {
    let mut i = s.n(t.len() + 1);
    while !t.is_char_boundary(i) {
        i -= 1;
    }
    i
}

pub fn mutate(s: &mut Src, mut t: String) -> String {
    for _ in 0..1 + s.n(4) {
        let i = cut(s, &t);
        match s.n(6) {
            0 => t.insert_str(i, *s.pick(BITS)),
            1 => {
                if let Some(c) = t[i..].chars().next() {
                    t.replace_range(i..i + c.len_utf8(), "");
                }
            }
            2 => {
                let k = s.pick(BITS).to_string();
                if let Some(c) = t[i..].chars().next() {
                    t.replace_range(i..i + c.len_utf8(), &k);
                }
            }
            3 => {
                let mut j = (i + s.n(30)).min(t.len());
                while !t.is_char_boundary(j) {
                    j -= 1;
                }
                let piece = t[i.min(j)..j.max(i)].to_string();
                if s.bool() {
                    t.replace_range(i.min(j)..j.max(i), "");
                } else {
                    let k = cut(s, &t);
                    t.insert_str(k, &piece);
                }
            }
            4 => {
                let c = random_char(s);
                t.insert(i, c);
            }
            _ => t.truncate(i),
        }
    }
    t
}

pub fn any_text(s: &mut Src) -> String {
    match s.n(8) {
        0..=2 => {
            let n = 1 + s.n(14);
            (0..n).map(|_| *s.pick(BITS)).collect()
        }
        3 | 4 => {
            let u = synt::unit(s);
            let st = style(s);
            let t = synt::render(s, &synt::tokens(&u), st);
            mutate(s, t)
        }
        5 | 6 => {
            let c = corpus();
            if c.is_empty() {
                return String::new();
            }
            let t = s.pick(c);
            // a window of it, so that shrinking has little to do
            let i = cut(s, t);
            let mut j = (i + 20 + s.n(400)).min(t.len());
            while !t.is_char_boundary(j) {
                j -= 1;
            }
            let w = t[i..j.max(i)].to_string();
            mutate(s, w)
        }
        _ => {
            let n = s.n(40);
            (0..n).map(|_| random_char(s)).collect()
        }
    }
}

fn text(s: &mut Src, ctx: &mut Ctx) -> Res {
    let t = any_text(s);
    ctx.case(&t);
    let clean = check_unit(&t)?;
    let e = check_expr(&t)?;
    ctx.label(if clean || e { "accepted" } else { "rejected" });
    if t.len() > 8 {
        ctx.nt();
    }
    Ok(())
}

fn whole_files(s: &mut Src, ctx: &mut Ctx) -> Res {
    let c = corpus();
    if c.is_empty() {
        return Ok(());
    }
    let t = s.pick(c).clone();
    let t = if s.pct(80) { mutate(s, t) } else { t };
    ctx.case(format!("{} characters, hash {:x}", t.len(), crate::engine::hash(&t)));
    if t.len() > 60_000 {
        return Ok(());
    }
    check_unit(&t)?;
    ctx.nt();
    Ok(())
}

// ---------------------------------------------------------------- brackets

const OPEN: &[SyntaxKind] = &[
    SyntaxKind::OPEN_BRACE,
    SyntaxKind::OPEN_BRACE_APPLY,
    SyntaxKind::OPEN_PAREN,
    SyntaxKind::OPEN_PAREN_APPLY,
    SyntaxKind::OPEN_SQUARE,
    SyntaxKind::OPEN_SQUARE_APPLY,
    SyntaxKind::BRACKET_OPEN,
];
const CLOSE: &[SyntaxKind] = &[SyntaxKind::CLOSE_BRACE, SyntaxKind::CLOSE_PAREN, SyntaxKind::CLOSE_SQUARE, SyntaxKind::BRACKET_CLOSE];

fn unbalanced(s: &mut Src, ctx: &mut Ctx) -> Res {
    let u = synt::unit(s);
    let st = style(s);
    let text = synt::render(s, &synt::tokens(&u), st);
    let p = parse_unit(&text);
    if !p.errors().is_empty() {
        return Ok(()); // the structure facet reports this
    }
    let toks: Vec<_> = p.syntax_node().descendants_with_tokens().filter_map(|e| e.into_token()).collect();
    let br: Vec<_> = toks
        .iter()
        .filter(|t| (OPEN.contains(&t.kind()) || CLOSE.contains(&t.kind())) && t.parent().is_none_or(|n| n.kind() != SyntaxKind::STRING_INTERPOLATION))
        .collect();
    let mut t = text.clone();
    let what;
    match s.n(4) {
        0 | 1 if !br.is_empty() => {
            let b = br[s.n(br.len())];
            let r = b.text_range();
            t.replace_range(usize::from(r.start())..usize::from(r.end()), " ");
            what = format!("blanked out the {} at {:?}", b.text(), r);
        }
        2 if !br.is_empty() => {
            // another kind of bracket in its place
            let b = br[s.n(br.len())];
            let open = OPEN.contains(&b.kind());
            let alts: &[&str] = if open { &["(", "[", "{", "⟦", "«"] } else { &[")", "]", "}", "⟧", "»"] };
            let alts: Vec<_> = alts.iter().filter(|a| **a != b.text()).collect();
            let a = **s.pick(&alts);
            let r = b.text_range();
            t.replace_range(usize::from(r.start())..usize::from(r.end()), a);
            what = format!("replaced the {} at {:?} by {a}", b.text(), r);
        }
        _ => {
            // a stray bracket between two tokens
            let gaps: Vec<_> = toks.iter().filter(|t| t.kind() == SyntaxKind::WHITESPACE).collect();
            let at = if gaps.is_empty() { text.len() } else { usize::from(gaps[s.n(gaps.len())].text_range().end()) };
            let a = *s.pick(&["(", "[", "{", ")", "]", "}", "⟧", "⟦"]);
            // not inside or before a comment's line
            if toks.iter().any(|t| t.kind() == SyntaxKind::COMMENT && usize::from(t.text_range().end()) == at) {
                return Ok(());
            }
            t.insert_str(at, a);
            what = format!("put a {a} at {at}");
        }
    }
    ctx.case(&t);
    ctx.nt();
    let q = parse_unit(&t);
    general(&t, &q.syntax_node(), q.errors())?;
    if q.errors().is_empty() {
        return fail("unbalanced", format!("{what}, and no error is reported\n  {}\n{}", show(&t), synt::tree_shape(&q.tree())));
    }
    Ok(())
}

/// A quote taken away, or a character no token starts with put in.
fn unclosed(s: &mut Src, ctx: &mut Ctx) -> Res {
    let u = synt::unit(s);
    let body = synt::render(s, &synt::tokens(&u), Style { odd: 10, comments: 0 });
    let (bad, ok) = *s.pick(&[
        ("\"", "\"\""),
        ("\"abc", "\"abc\""),
        ("c\"abc", "c\"abc\""),
        ("c\"abc\\\"", "c\"abc\\\"\""),
        ("r\"abc", "r\"abc\""),
        ("c\"", "c\"\""),
        ("r\"", "r\"\""),
        ("s\"", "s\"\""),
        ("s\"number", "s\"number\""),
        ("t\"2024-01-01", "t\"2024-01-01\""),
        ("'", "''"),
        ("'abc", "'abc'"),
        (":'abc", ":'abc'"),
        (":'", ":'a'"),
        ("\"{x\"", "\"{x}\""),
        ("\"a {x b\"", "\"a {x}b\""),
        ("c\"{x\"", "c\"{x}\""),
        ("t\"2024-02-30\"", "t\"2024-02-28\""),
        ("t\"\"", "t\"2024-02-28\""),
        ("t\"10:00\"", "t\"2024-02-28T10:00:00Z\""),
        ("\u{1}", "1"),
        ("x }", "x"),
        ("x )", "x"),
        ("f(x:)", "f(x)"),
        ("{ x: }", "{ x: 1 }"),
        ("{ x: 1 `  }", "{ x: 1 }"),
        ("{ x: 1, 2 }", "{ x: 1 }"),
        ("{ (x + + y): 1 }", "{ (x + y): 1 }"),
        ("{ 1: 2 }", "{ a: 2 }"),
        ("{ +: 2 }", "{ (+): 2 }"),
        ("{ f(1): 2 }", "{ f(a): 2 }"),
        ("{ x :: 2 }", "{ x: 2 }"),
        ("()", "(x)"),
        ("⟦⟧", "⟦x⟧"),
        ("{ a: () }", "{ a: f() }"),
        ("{ [a]: 2 }", "{ a: 2 }"),
        ("{ a b(1 2): 2 }", "{ a b(c): 2 }"),
    ]);
    let name = *s.pick(&["zz", "a", "k-k"]);
    let mk = |e: &str| if e == "'" || e.starts_with('\'') || e.starts_with(":'") || e.starts_with('"') || e.contains('"') { format!("{body}\n{name}: {e}") } else { format!("{name}: {e}\n{body}") };
    let (tb, to) = (mk(bad), mk(ok));
    ctx.case(&tb);
    ctx.label(bad);
    ctx.nt();
    let p = parse_unit(&to);
    // (a unit with metadata cannot be preceded by declarations)
    if !p.errors().is_empty() && u.meta.is_none() {
        return fail("rejected", format!("a valid unit is rejected: {:?}\n  {}", p.errors(), show(&to)));
    }
    let p = parse_unit(&tb);
    general(&tb, &p.syntax_node(), p.errors())?;
    if p.errors().is_empty() {
        return fail(format!("unreported {bad}"), format!("{bad:?} is accepted without an error\n  {}", show(&tb)));
    }
    Ok(())
}

/// A broken declaration leaves the others what they were.
fn recovery(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut u = synt::unit(s);
    u.meta = None;
    let k = s.n(u.decls.len() + 1);
    let st = Style { odd: 5, comments: 0 };
    let mut parts = vec![];
    let mut want = vec![];
    let broken = *s.pick(&["zz: (1 ", "zz: [1 2 : ", "1: 3", "zz: f(2 :)", "zz: {a: 1 ) }", "zz:: 3", "(x + + y): 2", "+: 2", "f(1): 2", "zz: )"]);
    let _ = broken;
    for (i, d) in u.decls.iter().enumerate() {
        if i == k {
            parts.push(broken.to_string());
        }
        let b = synt::Blk { meta: None, decls: vec![d.clone()] };
        let t = synt::render(s, &synt::tokens(&b), st);
        parts.push(t.trim_end().trim_end_matches(',').to_string());
        let mut o = String::new();
        synt::sh_decl(d, &mut o);
        want.push(o);
    }
    if k == u.decls.len() {
        parts.push(broken.to_string());
    }
    let text = parts.join("\n");
    ctx.case(&text);
    ctx.nt();
    let p = parse_unit(&text);
    general(&text, &p.syntax_node(), p.errors())?;
    if p.errors().is_empty() {
        return fail(format!("unreported {broken}"), format!("{broken:?} is accepted without an error\n  {}", show(&text)));
    }
    // what stands before the broken declaration is untouched
    let got: Vec<String> = p
        .tree()
        .declarations()
        .map(|d| {
            let mut o = String::new();
            synt::t_decl(&d, &mut o);
            o
        })
        .collect();
    for (i, w) in want.iter().enumerate().take(k.saturating_sub(1)) {
        if got.get(i) != Some(w) {
            return fail("recovery", format!("declaration {i}, well before the error, is not what was written\n  {}\n  expected {w}\n  found    {:?}", show(&text), got.get(i)));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- pipeline

fn pipeline(s: &mut Src, ctx: &mut Ctx) -> Res {
    let t = match s.n(4) {
        0 | 1 => {
            let u = synt::unit(s);
            let st = style(s);
            synt::render(s, &synt::tokens(&u), st)
        }
        2 => any_text(s),
        _ => {
            let p = crate::progs::program(s, 30);
            mutate(s, p.source())
        }
    };
    ctx.case(&t);
    if std::env::var("VERIF_INDEX").is_ok() {
        eprintln!("{t}");
    }
    let clean = parse_unit(&t).errors().is_empty();
    let mut o = if s.pct(30) { Opts::default() } else { Opts::no_prelude() };
    // mutated programs may well run for ever
    o.limit = Some(300_000);
    o.heap_mib = Some(256);
    let out = ev::eval_unit(&t, &o);
    ctx.label(if clean { "parses" } else { "syntax error" });
    ctx.nt();
    if !clean && out.value.is_ok() {
        return fail("ran", format!("text with syntax errors was run: {}\n  {}", out.show(), show(&t)));
    }
    if let Err(e) = &out.value {
        ctx.label(format!("error {}", e.kind));
    }
    Ok(())
}

fn depth(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = 1 + s.n(400);
    let (a, b, m) = *s.pick(&[("(", ")", "x"), ("[", "]", "x"), ("{ a: ", " }", "x"), ("f(", ")", "x"), ("f[", "]", "x"), ("f{ a: ", " }", "x"), ("⟦ ", " ⟧", "x"), ("x + (", ")", "x"), ("[[{a: (", ")}]]", "1")]);
    let text = format!("v: {}{m}{}\n", a.repeat(n), b.repeat(n));
    ctx.case(format!("{a} nested {n} deep"));
    if n > 20 {
        ctx.nt();
    }
    let p = parse_unit(&text);
    if !p.errors().is_empty() {
        return fail("rejected", format!("nesting {n} deep of {a} is rejected: {:?}", p.errors()));
    }
    general(&text, &p.syntax_node(), p.errors())?;
    let got = p.syntax_node().descendants().filter(|d| d.kind() == SyntaxKind::SOUP).count();
    if got < n {
        return fail("structure", format!("nesting {n} deep of {a} has only {got} soups"));
    }
    // one closing bracket fewer
    let short = text.trim_end().strip_suffix(b.trim_end()).unwrap_or(&text).to_string();
    let q = parse_unit(&short);
    general(&short, &q.syntax_node(), q.errors())?;
    if q.errors().is_empty() {
        return fail("unbalanced", format!("nesting {n} deep of {a} with one closing bracket missing is accepted"));
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        facets: vec![
            Facet { name: "structure", rule: "a unit or expression built from a model of the grammar, written with generated whitespace, commas and comments; non-trivial: several elements", quick: 40_000, thorough: 2_000_000, run: structure },
            Facet { name: "text", rule: "arbitrary text: token soup, mutated generated source, mutated windows of the repository's own files, random characters; non-trivial: over 8 bytes", quick: 80_000, thorough: 5_000_000, run: text },
            Facet { name: "files", rule: "a whole source file of the repository, as it is or mutated", quick: 400, thorough: 20_000, run: whole_files },
            Facet { name: "unbalanced", rule: "a valid unit with one bracket deleted, replaced or added; all non-trivial", quick: 30_000, thorough: 1_000_000, run: unbalanced },
            Facet { name: "unclosed", rule: "a valid unit with one ill-formed construct put in; all non-trivial", quick: 8_000, thorough: 300_000, run: unclosed },
            Facet { name: "recovery", rule: "a valid unit with a broken declaration among the others; all non-trivial", quick: 10_000, thorough: 300_000, run: recovery },
            Facet { name: "depth", rule: "one construct nested up to 400 deep; non-trivial: over 20", quick: 400, thorough: 5_000, run: depth },
            Facet { name: "pipeline", rule: "valid units with arbitrary content, arbitrary text, and mutated programs, taken through the whole pipeline; all non-trivial", quick: 6_000, thorough: 300_000, run: pipeline },
        ],
        known: vec![],
        assumptions: vec![],
    }
}
