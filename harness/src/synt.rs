//! Source text from a model of the syntax: generates units together with the
//! structure the parser must find in them, and reads that structure back from
//! a parsed tree through the public AST interface.

use crate::engine::Src;
use eucalypt::syntax::rowan::ast as r;
use eucalypt::syntax::rowan::ast::{AstToken, HasSoup};
use eucalypt::syntax::rowan::kind::{SyntaxKind, SyntaxNode};
use rowan::ast::AstNode;

#[derive(Clone, Debug)]
pub enum El {
    Lit(String),
    Name(String),
    Op(String),
    Pat(String),
    Block(Blk),
    List(Vec<Soup>, Option<Soup>),
    Paren(Soup),
    Call(Vec<Soup>),
    CallBlock(Blk),
    CallList(Vec<Soup>),
    Bracket(char, char, Soup),
    BracketBlock(char, char, Blk),
}
pub type Soup = Vec<El>;
#[derive(Clone, Debug, Default)]
pub struct Blk {
    pub meta: Option<Soup>,
    pub decls: Vec<Decl>,
}
#[derive(Clone, Debug)]
pub struct Decl {
    pub meta: Option<Soup>,
    pub head: Head,
    pub body: Soup,
}
#[derive(Clone, Debug)]
pub enum Head {
    Prop(String),
    Fun(String, El),
    Null(String),
    Pre(String, String),
    Post(String, String),
    Bin(String, String, String),
    Pair(bool, char, char, El),
    PairBlock(bool, char, char),
}

// ---------------------------------------------------------------- shapes

fn sh_soup(s: &Soup, o: &mut String) {
    o.push('<');
    for e in s {
        sh_el(e, o);
        o.push(' ');
    }
    o.push('>');
}
fn sh_el(e: &El, o: &mut String) {
    match e {
        El::Lit(t) => o.push_str(&format!("L:{t}")),
        El::Name(t) => o.push_str(&format!("N:{t}")),
        El::Op(t) => o.push_str(&format!("O:{t}")),
        El::Pat(t) => o.push_str(&format!("P:{t}")),
        El::Block(b) => {
            o.push('{');
            sh_blk(b, o);
            o.push('}');
        }
        El::List(xs, t) => sh_list(xs, t, o),
        El::Paren(s) => {
            o.push('(');
            sh_soup(s, o);
            o.push(')');
        }
        El::Call(xs) => {
            o.push_str("A(");
            for x in xs {
                sh_soup(x, o);
            }
            o.push(')');
        }
        El::CallBlock(b) => {
            o.push_str("A{<{");
            sh_blk(b, o);
            o.push_str("} >}");
        }
        El::CallList(xs) => {
            o.push_str("A[<");
            sh_list(xs, &None, o);
            o.push_str(" >]");
        }
        El::Bracket(a, b, s) => {
            o.push_str(&format!("B{a}"));
            sh_soup(s, o);
            o.push(*b);
        }
        El::BracketBlock(a, b, k) => {
            o.push_str(&format!("K{a}"));
            sh_blk(k, o);
            o.push(*b);
        }
    }
}
fn sh_list(xs: &[Soup], t: &Option<Soup>, o: &mut String) {
    o.push('[');
    for x in xs {
        sh_soup(x, o);
    }
    if let Some(t) = t {
        sh_soup(t, o);
        o.push(':');
    }
    o.push(']');
}
pub fn sh_blk(b: &Blk, o: &mut String) {
    if let Some(m) = &b.meta {
        o.push('^');
        sh_soup(m, o);
    }
    for d in &b.decls {
        sh_decl(d, o);
    }
}
pub fn sh_decl(d: &Decl, o: &mut String) {
    o.push_str("\n(");
    if let Some(m) = &d.meta {
        o.push('`');
        sh_soup(m, o);
    }
    match &d.head {
        Head::Prop(n) => o.push_str(&format!("prop {n}")),
        Head::Fun(n, a) => {
            o.push_str(&format!("fun {n} "));
            sh_el(a, o);
        }
        Head::Null(p) => o.push_str(&format!("null {p}")),
        Head::Pre(p, a) => o.push_str(&format!("pre {p} {a}")),
        Head::Post(a, p) => o.push_str(&format!("post {a} {p}")),
        Head::Bin(a, p, b) => o.push_str(&format!("bin {a} {p} {b}")),
        Head::Pair(p, a, b, e) => {
            o.push_str(&format!("pair {p} {a}<"));
            sh_el(e, o);
            o.push_str(&format!(" >{b}"));
        }
        Head::PairBlock(p, a, b) => o.push_str(&format!("pairblock {p} {a}{b}")),
    }
    o.push_str(" = ");
    sh_soup(&d.body, o);
    o.push(')');
}
pub fn shape(b: &Blk) -> String {
    let mut o = String::new();
    sh_blk(b, &mut o);
    o
}

// ------------------------------------------------------- shapes of trees

fn t_soup(s: &r::Soup, o: &mut String) {
    o.push('<');
    for e in s.elements() {
        t_el(&e, o);
        o.push(' ');
    }
    o.push('>');
}
fn bare(n: &SyntaxNode) -> String {
    // the node's own tokens, without whitespace or comments around it
    n.text().to_string()
}
fn t_el(e: &r::Element, o: &mut String) {
    match e {
        r::Element::Lit(l) => o.push_str(&format!("L:{}", bare(l.syntax()))),
        r::Element::Name(n) => match n.identifier() {
            Some(r::Identifier::OperatorIdentifier(_)) => o.push_str(&format!("O:{}", bare(n.syntax()))),
            _ => o.push_str(&format!("N:{}", bare(n.syntax()))),
        },
        r::Element::StringPattern(p) => o.push_str(&format!("P:{}", bare(p.syntax()))),
        r::Element::CStringPattern(p) => o.push_str(&format!("P:{}", bare(p.syntax()))),
        r::Element::RawStringPattern(p) => o.push_str(&format!("P:{}", bare(p.syntax()))),
        r::Element::Block(b) => {
            o.push('{');
            t_blk(b.meta(), b.declarations(), o);
            o.push('}');
        }
        r::Element::List(l) => t_list(l, o),
        r::Element::ParenExpr(p) => {
            o.push('(');
            match p.soup() {
                Some(s) => t_soup(&s, o),
                None => o.push_str("<none>"),
            }
            o.push(')');
        }
        r::Element::ApplyTuple(t) => t_tuple(t, o),
        r::Element::BracketExpr(b) => {
            o.push_str(&format!("B{}", b.open_char().unwrap_or('?')));
            if let Some(s) = b.soup() {
                t_soup(&s, o);
            }
            o.push(b.close_char().unwrap_or('?'));
        }
        r::Element::BracketBlock(b) => {
            o.push_str(&format!("K{}", b.open_char().unwrap_or('?')));
            t_blk(b.meta(), b.declarations(), o);
            o.push(b.close_char().unwrap_or('?'));
        }
    }
}
fn t_tuple(t: &r::ApplyTuple, o: &mut String) {
    let (a, b) = if t.is_block_apply() {
        ('{', '}')
    } else if t.is_list_apply() {
        ('[', ']')
    } else {
        ('(', ')')
    };
    o.push('A');
    o.push(a);
    for s in t.items() {
        t_soup(&s, o);
    }
    o.push(b);
}
fn t_list(l: &r::List, o: &mut String) {
    o.push('[');
    for s in l.items() {
        t_soup(&s, o);
    }
    if l.has_colon() {
        o.push(':');
    }
    o.push(']');
}
fn t_blk(meta: Option<r::BlockMetadata>, ds: r::AstChildren<r::Declaration>, o: &mut String) {
    if let Some(s) = meta.and_then(|m| m.soup()) {
        o.push('^');
        t_soup(&s, o);
    }
    for d in ds {
        t_decl(&d, o);
    }
}
pub fn t_decl(d: &r::Declaration, o: &mut String) {
    o.push_str("\n(");
    if let Some(m) = d.meta() {
        o.push('`');
        match m.soup() {
            Some(s) => t_soup(&s, o),
            None => o.push_str("<none>"),
        }
    }
    match d.head().map(|h| h.classify_declaration()) {
        None => o.push_str("nohead"),
        Some(k) => match k {
            r::DeclarationKind::Property(n) => o.push_str(&format!("prop {}", n.syntax().text())),
            r::DeclarationKind::Function(n, t) => {
                o.push_str(&format!("fun {} ", n.syntax().text()));
                t_tuple(&t, o);
            }
            r::DeclarationKind::Nullary(_, p) => o.push_str(&format!("null {}", p.syntax().text())),
            r::DeclarationKind::Prefix(_, p, a) => o.push_str(&format!("pre {} {}", p.syntax().text(), a.syntax().text())),
            r::DeclarationKind::Postfix(_, a, p) => o.push_str(&format!("post {} {}", a.syntax().text(), p.syntax().text())),
            r::DeclarationKind::Binary(_, a, p, b) => {
                o.push_str(&format!("bin {} {} {}", a.syntax().text(), p.syntax().text(), b.syntax().text()))
            }
            r::DeclarationKind::BracketPair(p, b, s) => {
                o.push_str(&format!("pair {} {}", p.is_some(), b.open_char().unwrap_or('?')));
                t_soup(&s, o);
                o.push(b.close_char().unwrap_or('?'));
            }
            r::DeclarationKind::BracketBlockDef(p, b) => o.push_str(&format!(
                "pairblock {} {}{}",
                p.is_some(),
                b.open_char().unwrap_or('?'),
                b.close_char().unwrap_or('?')
            )),
            r::DeclarationKind::MalformedHead(_) => o.push_str("malformed"),
        },
    }
    o.push_str(if d.colon().is_some() { " = " } else { " nocolon " });
    match d.body().and_then(|b| b.soup()) {
        Some(s) => t_soup(&s, o),
        None => o.push_str("<none>"),
    }
    o.push(')');
}
pub fn tree_shape(u: &r::Unit) -> String {
    let mut o = String::new();
    t_blk(u.meta(), u.declarations(), &mut o);
    o
}
pub fn soup_shape(s: &r::Soup) -> String {
    let mut o = String::new();
    t_soup(s, &mut o);
    o
}
pub fn model_soup_shape(s: &Soup) -> String {
    let mut o = String::new();
    sh_soup(s, &mut o);
    o
}

/// Every comment, with the text of the tokens that come before and after it
/// (the commas that only separate declarations left out).
pub fn comments(n: &SyntaxNode) -> Vec<(String, usize)> {
    let mut out = vec![];
    let mut k = 0;
    for t in n.descendants_with_tokens().filter_map(|e| e.into_token()) {
        match t.kind() {
            SyntaxKind::WHITESPACE | SyntaxKind::COMMA => {}
            SyntaxKind::COMMENT => out.push((t.text().trim_end().to_string(), k)),
            _ => k += 1,
        }
    }
    out
}

// ------------------------------------------------------------- printing

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Gap {
    Never,
    Free,
    Must,
}
#[derive(Clone, Debug)]
pub struct Tok {
    pub gap: Gap,
    pub text: String,
}

#[derive(Default)]
pub struct Printer {
    pub toks: Vec<Tok>,
}

impl Printer {
    fn p(&mut self, gap: Gap, t: impl Into<String>) {
        self.toks.push(Tok { gap, text: t.into() });
    }
    /// `first` is the gap before the first token
    fn soup(&mut self, s: &Soup, first: Gap) {
        for (i, e) in s.iter().enumerate() {
            let g = if i == 0 {
                first
            } else {
                match (&s[i - 1], e) {
                    (_, El::Call(_) | El::CallBlock(_) | El::CallList(_)) => Gap::Never,
                    (El::Op(_), El::Paren(_) | El::List(..) | El::Block(_)) => Gap::Free,
                    (El::Name(a), El::Op(b)) if b == "." && plain(a) => Gap::Free,
                    (El::Call(_) | El::Paren(_), El::Op(b)) if b == "." => Gap::Free,
                    (El::Op(a), El::Name(b)) if a == "." && b.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') => Gap::Free,
                    _ => Gap::Must,
                }
            };
            self.el(e, g);
        }
    }
    fn el(&mut self, e: &El, g: Gap) {
        match e {
            El::Lit(t) | El::Name(t) | El::Op(t) | El::Pat(t) => self.p(g, t.clone()),
            El::Block(b) => {
                self.p(g, "{");
                self.blk(b, Gap::Free);
                self.p(Gap::Free, "}");
            }
            El::CallBlock(b) => {
                self.p(Gap::Never, "{");
                self.blk(b, Gap::Free);
                self.p(Gap::Free, "}");
            }
            El::List(xs, t) => {
                self.p(g, "[");
                self.items(xs);
                if let Some(t) = t {
                    // an operator before would take the colon's place in no case
                    self.p(Gap::Free, ":");
                    self.soup(t, Gap::Must);
                }
                self.p(Gap::Free, "]");
            }
            El::CallList(xs) => {
                self.p(Gap::Never, "[");
                self.items(xs);
                self.p(Gap::Free, "]");
            }
            El::Paren(s) => {
                self.p(g, "(");
                self.soup(s, Gap::Free);
                self.p(Gap::Free, ")");
            }
            El::Call(xs) => {
                self.p(Gap::Never, "(");
                self.items(xs);
                self.p(Gap::Free, ")");
            }
            El::Bracket(a, b, s) => {
                self.p(g, a.to_string());
                self.soup(s, Gap::Free);
                self.p(Gap::Free, b.to_string());
            }
            El::BracketBlock(a, b, k) => {
                self.p(g, a.to_string());
                self.blk(k, Gap::Free);
                self.p(Gap::Free, b.to_string());
            }
        }
    }
    fn items(&mut self, xs: &[Soup]) {
        for (i, x) in xs.iter().enumerate() {
            if i > 0 {
                self.p(Gap::Free, ",");
            }
            self.soup(x, Gap::Free);
        }
    }
    /// Declarations of a block or unit; separators are marked by an empty
    /// token that the renderer may turn into a comma.
    fn blk(&mut self, b: &Blk, first: Gap) {
        let mut g = first;
        if let Some(m) = &b.meta {
            self.soup(m, g);
            g = Gap::Must;
        }
        for (i, d) in b.decls.iter().enumerate() {
            if i > 0 {
                self.p(Gap::Free, "\u{0}sep");
                g = Gap::Must;
            }
            self.decl(d, g);
        }
        if !b.decls.is_empty() {
            self.p(Gap::Free, "\u{0}end");
        }
    }
    fn decl(&mut self, d: &Decl, mut g: Gap) {
        if let Some(m) = &d.meta {
            self.p(g, "`");
            self.soup(m, Gap::Free);
            g = Gap::Must;
        }
        match &d.head {
            Head::Prop(n) => self.p(g, n.clone()),
            Head::Fun(n, a) => {
                self.p(g, n.clone());
                self.el(a, Gap::Never);
            }
            Head::Null(o) => {
                self.p(g, "(");
                self.p(Gap::Free, o.clone());
                self.p(Gap::Free, ")");
            }
            Head::Pre(o, a) => {
                self.p(g, "(");
                self.p(Gap::Free, o.clone());
                self.p(Gap::Must, a.clone());
                self.p(Gap::Free, ")");
            }
            Head::Post(a, o) => {
                self.p(g, "(");
                self.p(Gap::Free, a.clone());
                self.p(Gap::Must, o.clone());
                self.p(Gap::Free, ")");
            }
            Head::Bin(a, o, b) => {
                self.p(g, "(");
                self.p(Gap::Free, a.clone());
                self.p(Gap::Must, o.clone());
                self.p(Gap::Must, b.clone());
                self.p(Gap::Free, ")");
            }
            Head::Pair(paren, a, b, e) => {
                let mut g = g;
                if *paren {
                    self.p(g, "(");
                    g = Gap::Free;
                }
                self.p(g, a.to_string());
                self.el(e, Gap::Free);
                self.p(Gap::Free, b.to_string());
                if *paren {
                    self.p(Gap::Free, ")");
                }
            }
            Head::PairBlock(paren, a, b) => {
                let mut g = g;
                if *paren {
                    self.p(g, "(");
                    g = Gap::Free;
                }
                self.p(g, a.to_string());
                self.p(Gap::Free, "{");
                self.p(Gap::Free, "}");
                self.p(Gap::Free, b.to_string());
                if *paren {
                    self.p(Gap::Free, ")");
                }
            }
        }
        self.p(Gap::Free, ":");
        self.soup(&d.body, Gap::Must);
    }
}

fn plain(n: &str) -> bool {
    !n.starts_with('\'')
}

pub fn tokens(b: &Blk) -> Vec<Tok> {
    let mut p = Printer::default();
    p.blk(b, Gap::Free);
    p.toks
}
pub fn soup_tokens(s: &Soup) -> Vec<Tok> {
    let mut p = Printer::default();
    p.soup(s, Gap::Free);
    p.toks
}

#[derive(Clone, Copy)]
pub struct Style {
    /// percentage of gaps with unusual whitespace
    pub odd: u64,
    /// percentage of gaps with comments
    pub comments: u64,
}

fn comment(s: &mut Src) -> String {
    let t = *s.pick(&["", " c", " x: {", " (", " \"", "!é⟦", "# ``", " a, b ]  ", "\t:"]);
    format!("#{t}\n")
}

fn ws(s: &mut Src, st: Style, o: &mut String, must: bool) {
    if s.pct(st.comments) {
        o.push_str(*s.pick(&[" ", "\n", "  ", "\n\n", "\t"]));
        for _ in 0..1 + s.n(2) {
            o.push_str(&comment(s));
            o.push_str(*s.pick(&["", " ", "\n", "    "]));
        }
    } else if s.pct(st.odd) {
        o.push_str(*s.pick(&["\n", "\t", "  ", "\n\n\n", "\r\n", " \n  ", "\u{a0}", "\u{2003}\n", "      "]));
    } else if must || s.pct(20) {
        o.push(' ');
    }
}

/// Render tokens with generated gaps; commas between declarations are chosen.
pub fn render(s: &mut Src, toks: &[Tok], st: Style) -> String {
    let mut o = String::new();
    if s.pct(st.comments) {
        o.push_str(*s.pick(&["#!/usr/bin/env eu\n", "# top\n\n", "\n# top\n", "# a\n# b\n"]));
    }
    let mut comma = false;
    for t in toks {
        if t.text == "\u{0}sep" {
            comma = s.pct(50);
            if comma {
                ws(s, st, &mut o, false);
                o.push(',');
            } else {
                o.push('\n');
            }
            continue;
        }
        if t.text == "\u{0}end" {
            if s.pct(10) {
                ws(s, st, &mut o, false);
                o.push(',');
            }
            continue;
        }
        match t.gap {
            Gap::Never => {}
            Gap::Free => ws(s, st, &mut o, false),
            Gap::Must => {
                let c = std::mem::replace(&mut comma, false);
                ws(s, st, &mut o, !c)
            }
        }
        o.push_str(&t.text);
    }
    match s.n(6) {
        0 => {}
        1 if st.comments > 0 => o.push_str("\n# end"),
        2 if st.comments > 0 => o.push_str(" # end\n\n"),
        3 if st.odd > 0 => o.push_str("  \n\n"),
        _ => o.push('\n'),
    }
    o
}

// ------------------------------------------------------------ generation

pub const BRACKETS: &[(char, char)] = &[('⟦', '⟧'), ('⌈', '⌉'), ('«', '»'), ('【', '】'), ('⟨', '⟩'), ('⦃', '⦄')];

pub fn name(s: &mut Src) -> String {
    let xs = [
        "x", "y", "f", "xs", "foo", "a-b", "nil?", "_x", "é", "λx", "set!", "•", "_", "_0", "c", "r", "t", "s", "a*b", "$p", "ключ", "x1", "foo-", "•3", "?x", "名前", "'a b'", "'x: {'",
        "''", "'é\"'",
    ];
    let n = if s.pct(60) { 5 } else { xs.len() };
    xs[s.n(n)].to_string()
}
pub fn op(s: &mut Src) -> String {
    let xs = ["+", "*", "-", "/", ".", "&&", "|>", "∘", "!", "=", "<=>", "≠", "%", "~", ";", "+-+", "×", "^", "--", "@", "..", "¬", "∧", "//", "→", "|", "-$", "+#", "€"];
    let n = if s.pct(60) { 4 } else { xs.len() };
    xs[s.n(n)].to_string()
}
pub fn literal(s: &mut Src) -> String {
    let xs = [
        "1", "0", "\"a\"", ":k", "-1", "12345678901234567890", "1.5", "-0.25", "007", "\"\"", "\"a # b\"", "\"é 日本\"", "\":x, [ (\"", "\"line\nline\"", ":'a b'", ":a-b?", "c\"a\\n\\\"b\"",
        "c\"\\{x\\}\"", "r\"a\\b\"", "t\"2023-01-15T10:30:00Z\"", "t\"2024-02-29\"", "s\"number -> string\"", "s\"{a: [x]}\"", ":_", "1.", "\"\\\"", "c\"\\\\\"", ":''", "18446744073709551615",
    ];
    let n = if s.pct(50) { 4 } else { xs.len() };
    xs[s.n(n)].to_string()
}
fn pattern(s: &mut Src) -> String {
    s.pick(&[
        "\"{x}\"", "\"a {x} b\"", "\"{x.y.z}\"", "\"{x:%03d}\"", "\"{{x}}\"", "\"{}\"", "\"{0}{1}\"", "\"{x}{{y}} # {z}\"", "c\"{x}\\n\\\"{y}\"", "r\"{x}\\n\"", "\"é{x}日\"", "\"}}{{\"", "\"{a-b}\n{c}\"",
    ])
    .to_string()
}

fn callable(e: &El) -> bool {
    match e {
        El::Name(n) => plain(n),
        El::Paren(_) | El::Call(_) | El::Block(_) | El::List(..) | El::CallBlock(_) | El::CallList(_) | El::Bracket(..) | El::BracketBlock(..) | El::Pat(_) => true,
        _ => false,
    }
}

pub fn soup(s: &mut Src, d: usize) -> Soup {
    let n = 1 + if d == 0 { s.n(3) } else { s.n(5) };
    let mut v: Soup = vec![];
    for _ in 0..n {
        if v.last().is_some_and(callable) && s.pct(25) {
            v.push(call(s, d));
            continue;
        }
        v.push(element(s, d));
    }
    v
}

fn call(s: &mut Src, d: usize) -> El {
    match s.n(5) {
        0 if d > 0 => El::CallBlock(blk(s, d - 1)),
        1 if d > 0 => El::CallList(s.vec(3, |s| soup(s, d - 1))),
        2 => El::Call(vec![]),
        _ => El::Call(s.vec_between(1, 3, |s| if d > 0 { soup(s, d - 1) } else { vec![atom(s)] })),
    }
}
fn atom(s: &mut Src) -> El {
    match s.n(9) {
        0..=3 => El::Name(name(s)),
        4..=5 => El::Lit(literal(s)),
        6..=7 => El::Op(op(s)),
        _ => El::Pat(pattern(s)),
    }
}
pub fn element(s: &mut Src, d: usize) -> El {
    if d == 0 || s.pct(65) {
        return atom(s);
    }
    match s.n(8) {
        0 | 1 => El::Block(blk(s, d - 1)),
        2 | 3 => list(s, d - 1, true),
        4 | 5 => El::Paren(soup(s, d - 1)),
        6 => {
            let (a, b) = *s.pick(BRACKETS);
            El::Bracket(a, b, soup(s, d - 1))
        }
        _ => {
            let (a, b) = *s.pick(BRACKETS);
            let mut k = blk(s, d - 1);
            if k.decls.is_empty() {
                k.decls.push(decl(s, d - 1));
            }
            El::BracketBlock(a, b, k)
        }
    }
}
fn list(s: &mut Src, d: usize, tail: bool) -> El {
    let xs = s.vec(4, |s| if d > 0 { soup(s, d - 1) } else { vec![atom(s)] });
    if tail && !xs.is_empty() && s.pct(20) {
        let t = vec![atom(s)];
        return El::List(xs, Some(t));
    }
    El::List(xs, None)
}
/// Metadata in front of a declaration or of a block's declarations.
fn meta(s: &mut Src, d: usize) -> Soup {
    match s.n(5) {
        0 => vec![El::Lit("\"doc\"".into())],
        1 => vec![El::Lit(":suppress".into())],
        2 if d > 0 => vec![El::Block(blk(s, d - 1))],
        3 => vec![El::Name(name(s))],
        _ => soup(s, d.min(1)),
    }
}
pub fn blk(s: &mut Src, d: usize) -> Blk {
    let decls = s.vec(4, |s| decl(s, d));
    let m = if s.pct(if decls.is_empty() { 40 } else { 15 }) { Some(meta(s, d)) } else { None };
    Blk { meta: m, decls }
}
fn opname(s: &mut Src) -> String {
    op(s)
}
fn param(s: &mut Src, d: usize) -> El {
    match s.n(5) {
        0 if d > 0 => El::List((0..1 + s.n(3)).map(|_| vec![param(s, d - 1)]).collect(), None),
        1 if d > 0 => El::List((0..1 + s.n(2)).map(|_| vec![param(s, d - 1)]).collect(), Some(vec![El::Name(name(s))])),
        2 if d > 0 => El::Block(Blk { meta: Some((0..1 + s.n(3)).map(|_| El::Name(name(s))).collect()), decls: vec![] }),
        _ => El::Name(name(s)),
    }
}
fn head(s: &mut Src, d: usize) -> Head {
    match s.n(14) {
        0..=6 => Head::Prop(name(s)),
        7 | 8 => {
            let n = loop_plain(s);
            let a = match s.n(6) {
                0 => El::CallBlock(Blk { meta: Some((0..1 + s.n(3)).map(|_| El::Name(name(s))).collect()), decls: vec![] }),
                1 => El::CallList((0..1 + s.n(3)).map(|_| vec![El::Name(name(s))]).collect()),
                _ => El::Call(s.vec_between(1, 3, |s| vec![param(s, d)])),
            };
            Head::Fun(n, a)
        }
        9 => Head::Bin(name(s), opname(s), name(s)),
        10 => Head::Pre(opname(s), name(s)),
        11 => Head::Post(name(s), opname(s)),
        12 => Head::Null(opname(s)),
        _ => {
            let (a, b) = *s.pick(BRACKETS);
            let paren = s.bool();
            if s.bool() {
                Head::Pair(paren, a, b, El::Name(name(s)))
            } else {
                Head::PairBlock(paren, a, b)
            }
        }
    }
}
fn loop_plain(s: &mut Src) -> String {
    let n = name(s);
    if plain(&n) {
        n
    } else {
        "f".into()
    }
}
pub fn decl(s: &mut Src, d: usize) -> Decl {
    let m = if s.pct(18) { Some(meta(s, d)) } else { None };
    let h = head(s, d);
    Decl { meta: m, head: h, body: soup(s, d) }
}
pub fn unit(s: &mut Src) -> Blk {
    let d = 1 + s.n(3);
    let mut b = blk(s, d);
    if b.decls.is_empty() && s.pct(90) {
        b.decls.push(decl(s, d));
    }
    b
}
