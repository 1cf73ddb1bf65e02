//! C03: operator expressions group by precedence, associativity and fixity.

use crate::engine::{fail, Ctx, Facet, Prop, Res, Src};
use crate::ev::{self, Opts};
use crate::gen::*;
use crate::ev::V;
use std::rc::Rc;

const CAT: i32 = 20;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fix {
    Bin { right: bool },
    Pre,
    Post,
    Nul,
}

#[derive(Clone, Debug)]
struct Op {
    sym: String,
    fix: Fix,
    prec: i32,
    tag: String,
    /// parameters are written in the other order in the result
    swap: bool,
    decl: String,
}

impl Op {
    fn bin(&self, a: &str, b: &str) -> String {
        let (a, b) = if self.swap { (b, a) } else { (a, b) };
        format!("({a}{}{b})", self.tag)
    }
    fn un(&self, a: &str) -> String {
        match self.fix {
            Fix::Pre => format!("({}{a})", self.tag),
            _ => format!("({a}{})", self.tag),
        }
    }
}

const LEVELS: &[(&str, i32)] = &[
    ("lookup", 90),
    ("call", 90),
    ("bool-unary", 88),
    ("exp", 85),
    ("prod", 80),
    ("sum", 75),
    ("shift", 60),
    ("bitwise", 55),
    ("cmp", 50),
    ("append", 45),
    ("map", 42),
    ("eq", 40),
    ("bool-prod", 35),
    ("bool-sum", 30),
    ("cat", 20),
    ("apply", 10),
    ("meta", 5),
];

const SYMS: &[&str] = &[
    "+++", "***", "~~~", "<+>", "⊕⊕", "⊗", "|>", "%%", "^^", "→", "⇒⇒", "∪", "≈", "-+-|", "⊚", "!!!", "√", "@@", "+", "*", "&&", "¬",
    "<=>", "★", "∅∅", "§", ">>=", "!", "-", "‖‖", ";;", "£", "//",
];

/// The level an operator gets: its number and how the declaration says so.
fn level(s: &mut Src) -> (i32, Option<String>) {
    match s.below(8) {
        0 => (50, None),
        1..=4 => {
            let (n, p) = s.pick(LEVELS);
            (*p, Some(format!(":{n}")))
        }
        5 if s.pct(30) => {
            let p = *s.pick(&[95, 99, 120]);
            (p, Some(p.to_string()))
        }
        _ => {
            let p = s.range(1, 89) as i32;
            (p, Some(p.to_string()))
        }
    }
}

fn new_op(s: &mut Src, have: &[Op], sym: &str, tag: usize) -> Op {
    let kind = s.weighted(&[6, 3, 2, 1]);
    for _ in 0..20 {
        let (prec, says) = level(s);
        let mut fix = match kind {
            0 => Fix::Bin { right: s.pct(35) },
            1 => Fix::Pre,
            2 => Fix::Post,
            _ => Fix::Nul,
        };
        // equal levels must agree on associativity, and unary levels are their own
        let rivals: Vec<&Op> = have.iter().filter(|o| o.prec == prec && o.sym != sym && o.fix != Fix::Nul).collect();
        match fix {
            Fix::Bin { .. } => {
                if let Some(r) = rivals.first() {
                    if !matches!(r.fix, Fix::Bin { .. }) {
                        continue;
                    }
                    fix = r.fix;
                }
                if prec == CAT || prec >= 90 {
                    fix = Fix::Bin { right: false };
                }
            }
            Fix::Pre | Fix::Post => {
                if !rivals.is_empty() || prec == CAT {
                    continue;
                }
            }
            Fix::Nul => {}
        }
        let t = format!("{}{tag}", ["p", "q", "r", "t"][s.n(4)]);
        let swap = s.pct(20);
        let mut meta: Vec<String> = vec![];
        if fix != Fix::Nul {
            if let Some(p) = says {
                meta.push(format!("precedence: {p}"));
            }
        }
        match fix {
            Fix::Bin { right: true } => meta.push("associates: :right".into()),
            Fix::Bin { right: false } if s.bool() => meta.push("associates: :left".into()),
            _ => {}
        }
        if s.bool() {
            meta.reverse();
        }
        if s.pct(15) {
            meta.push("doc: \"an operator\"".into());
        }
        let m = if meta.is_empty() { String::new() } else { format!("` {{ {} }}\n", meta.join(if s.bool() { " " } else { ", " })) };
        let (l, r) = *s.pick(&[("x", "y"), ("l", "r"), ("a-b", "c?")]);
        let mut op = Op { sym: sym.into(), fix, prec, tag: t, swap, decl: String::new() };
        let hole = |n: &str| format!("{{{n}}}");
        let d = match fix {
            Fix::Bin { .. } => format!("({l} {sym} {r}): \"{}\"", op.bin(&hole(l), &hole(r))),
            Fix::Pre => format!("({sym} {l}): \"{}\"", op.un(&hole(l))),
            Fix::Post => format!("({l} {sym}): \"{}\"", op.un(&hole(l))),
            Fix::Nul => format!("({sym}): \"({})\"", op.tag),
        };
        op.decl = format!("{m}{d}\n");
        return op;
    }
    Op { sym: sym.into(), fix: Fix::Nul, prec: 100, tag: format!("n{tag}"), swap: false, decl: format!("({sym}): \"(n{tag})\"\n") }
}

type Fun = Rc<dyn Fn(&str) -> String>;

#[derive(Clone)]
enum Tok {
    Atom(String),
    Op(Op),
    Cat(Fun),
    /// the n-th gap
    Gap(usize),
}

/// What the tokens denote, with `holes` for the gaps.
struct Pratt<'a> {
    toks: &'a [Tok],
    pos: usize,
    holes: &'a [String],
}
impl Pratt<'_> {
    fn expr(&mut self, min: i32) -> String {
        let t = self.toks[self.pos].clone();
        self.pos += 1;
        let mut lhs = match t {
            Tok::Atom(v) => v,
            Tok::Gap(i) => self.holes[i].clone(),
            Tok::Op(o) if o.fix == Fix::Pre => {
                let x = self.expr(2 * o.prec);
                o.un(&x)
            }
            _ => unreachable!("token stream"),
        };
        while let Some(t) = self.toks.get(self.pos).cloned() {
            match t {
                Tok::Op(o) => match o.fix {
                    Fix::Post if 2 * o.prec > min => {
                        self.pos += 1;
                        lhs = o.un(&lhs);
                    }
                    Fix::Bin { right } if 2 * o.prec > min => {
                        self.pos += 1;
                        let rhs = self.expr(if right { 2 * o.prec - 1 } else { 2 * o.prec });
                        lhs = o.bin(&lhs, &rhs);
                    }
                    _ => break,
                },
                Tok::Cat(f) if 2 * CAT > min => {
                    self.pos += 1;
                    lhs = f(&lhs);
                }
                _ => break,
            }
        }
        lhs
    }
}

fn value(toks: &[Tok], holes: &[String]) -> String {
    let mut p = Pratt { toks, pos: 0, holes };
    let v = p.expr(-1);
    assert_eq!(p.pos, toks.len());
    v
}

struct Soup {
    src: String,
    toks: Vec<Tok>,
    holes: usize,
}

struct G<'a> {
    s: &'a mut Src,
    tag: usize,
    /// more than one grouping was possible
    nt: bool,
    feats: Vec<&'static str>,
}

impl G<'_> {
    fn feat(&mut self, f: &'static str) {
        if !self.feats.contains(&f) {
            self.feats.push(f)
        }
    }

    /// An operand: source and value.
    fn atom(&mut self, ops: &[Op], depth: usize, sections: bool) -> (String, String) {
        let k = if depth == 0 { self.s.n(4) } else { self.s.n(13) };
        // operators as tight as calls and lookups only get closed operands
        if ops.iter().any(|o| o.fix != Fix::Nul && o.prec >= 90) && (3..10).contains(&k) {
            let (a, v) = self.atom(&[], 0, false);
            return (format!("({a})"), v);
        }
        match k {
            0..=2 => {
                let w = *self.s.pick(&["a", "b", "c", "d"]);
                (format!("\"{w}\""), w.into())
            }
            3 => (*self.s.pick(&[("va", "A"), ("v-b", "B"), ("bk.k", "K"), ("bk.in.j", "J"), ("{ k: \"L\" }.k", "L")])).to_tuple(),
            4 => {
                let (a, v) = self.sub(ops, depth - 1);
                (format!("f1({a})"), format!("<{v}>"))
            }
            5 => {
                let (a, v) = self.sub(ops, depth - 1);
                let (b, w) = self.sub(ops, depth - 1);
                (format!("f2({a}, {b})"), format!("<{v},{w}>"))
            }
            6 => {
                self.feat("scope");
                self.scope(ops, depth - 1)
            }
            7 if sections => {
                // a section applied by a call
                let x = self.soup(ops, depth - 1, Some(true));
                if x.holes == 0 || x.toks.len() < 2 + x.holes {
                    let v = value(&x.toks, &vec!["h".to_string(); x.holes]);
                    if x.holes == 0 {
                        return (format!("({})", x.src), v);
                    }
                    return ("\"e\"".into(), "e".into());
                }
                self.feat("section-called");
                let args: Vec<(String, String)> = (0..x.holes).map(|_| self.sub(ops, 0)).collect();
                let v = value(&x.toks, &args.iter().map(|a| a.1.clone()).collect::<Vec<_>>());
                let srcs: Vec<String> = args.into_iter().map(|a| a.0).collect();
                // through a name, or called where it stands
                if self.s.bool() {
                    (format!("({})({})", x.src, srcs.join(", ")), v)
                } else {
                    (format!("{{ zs: {} zr: zs({}) }}.zr", x.src, srcs.join(", ")), v)
                }
            }
            8 if sections => {
                let bins: Vec<Op> = ops.iter().filter(|o| matches!(o.fix, Fix::Bin { .. })).cloned().collect();
                if bins.is_empty() {
                    return ("\"e\"".into(), "e".into());
                }
                let o = self.s.pick(&bins).clone();
                let (a, v) = self.sub(ops, 0);
                let (b, w) = self.sub(ops, 0);
                self.feat("operator-as-argument");
                match self.s.below(3) {
                    0 => (format!("foldl({}, {a}, [{b}])", o.sym), o.bin(&v, &w)),
                    1 => (format!("flip(({}), {a}, {b})", o.sym), o.bin(&w, &v)),
                    _ => (format!("{{ zo: ({}) }}.zo({a}, {b})", o.sym), o.bin(&v, &w)),
                }
            }
            9 => {
                let (a, v) = self.sub(ops, depth - 1);
                (format!("[{a}, \"z\"] head"), v).paren()
            }
            _ => {
                let (a, v) = self.sub(ops, depth - 1);
                (format!("({a})"), v)
            }
        }
    }

    fn sub(&mut self, ops: &[Op], depth: usize) -> (String, String) {
        let x = self.soup(ops, depth, None);
        let v = value(&x.toks, &[]);
        (x.src, v)
    }

    /// A block with operators of its own.
    fn scope(&mut self, ops: &[Op], depth: usize) -> (String, String) {
        let mut inner: Vec<Op> = ops.to_vec();
        let mut decls = String::new();
        for _ in 0..self.s.range(1, 2) {
            self.tag += 1;
            let redefine = !inner.is_empty() && self.s.pct(60);
            let sym = if redefine { inner[self.s.n(inner.len())].sym.clone() } else { (*self.s.pick(SYMS)).to_string() };
            if decls.contains(&format!(" {sym} ")) || decls.contains(&format!("({sym} ")) || decls.contains(&format!(" {sym})")) || decls.contains(&format!("({sym})")) {
                continue;
            }
            let others: Vec<Op> = inner.iter().filter(|o| o.sym != sym).cloned().collect();
            let op = new_op(self.s, &others, &sym, self.tag);
            decls.push_str(&op.decl);
            inner = others;
            inner.push(op);
        }
        let (a, v) = self.sub(&inner, depth);
        let after = self.s.bool();
        let body = if after { format!("zb: {a}\n{decls}") } else { format!("{decls}zb: {a}\n") };
        // a dotted body is read within the block
        if self.s.bool() {
            (format!("{{\n{body}}}.zb"), v)
        } else {
            (format!("{{\n{decls}}}.({a})"), v).paren()
        }
    }

    /// A flat run of operators and operands. `gaps`: Some(_) lets operands
    /// be left out.
    fn soup(&mut self, ops: &[Op], depth: usize, gaps: Option<bool>) -> Soup {
        let bins: Vec<&Op> = ops.iter().filter(|o| matches!(o.fix, Fix::Bin { .. })).collect();
        let pres: Vec<&Op> = ops.iter().filter(|o| o.fix == Fix::Pre).collect();
        let posts: Vec<&Op> = ops.iter().filter(|o| o.fix == Fix::Post).collect();
        let nuls: Vec<&Op> = ops.iter().filter(|o| o.fix == Fix::Nul).collect();
        let gappy = gaps.is_some();
        let mut src: Vec<String> = vec![];
        let mut toks: Vec<Tok> = vec![];
        let mut holes = 0;
        let n = if depth == 0 { self.s.range(1, 3) } else { self.s.range(1, 6) };
        let mut left_out_at: Vec<usize> = vec![];
        for i in 0..n {
            // prefixes
            while !pres.is_empty() && self.s.pct(22) {
                let o = (*self.s.pick(&pres)).clone();
                src.push(o.sym.clone());
                toks.push(Tok::Op(o));
            }
            // the operand, or nothing
            let gap = gappy && holes < 4 && self.s.pct(30);
            if gap {
                toks.push(Tok::Gap(holes));
                holes += 1;
                left_out_at.push(toks.len());
            } else if !nuls.is_empty() && self.s.pct(12) {
                let o = (*self.s.pick(&nuls)).clone();
                src.push(o.sym.clone());
                toks.push(Tok::Atom(format!("({})", o.tag)));
                self.feat("nullary");
            } else {
                let (a, v) = self.atom(ops, depth, !gappy);
                src.push(a);
                toks.push(Tok::Atom(v));
            }
            while !posts.is_empty() && self.s.pct(18) {
                let o = (*self.s.pick(&posts)).clone();
                src.push(o.sym.clone());
                toks.push(Tok::Op(o));
            }
            // catenation
            let last_is_gap = matches!(toks.last(), Some(Tok::Gap(_)));
            let mut catted = false;
            if !last_is_gap {
                while self.s.pct(14) {
                    let (f, t) = self.cat_fun();
                    src.push(f);
                    toks.push(Tok::Cat(t));
                    catted = true;
                    self.feat("catenation");
                }
            }
            if i + 1 < n {
                let ok: Vec<&&Op> = bins.iter().filter(|o| !catted || o.prec <= CAT).collect();
                if ok.is_empty() {
                    break;
                }
                let o = (**self.s.pick(&ok)).clone();
                src.push(o.sym.clone());
                toks.push(Tok::Op(o));
            }
        }
        // a lone gap, or one with nothing around it, is no section
        let nops = toks.iter().filter(|t| matches!(t, Tok::Op(_))).count();
        if holes > 0 && (nops == 0 || src.len() < 2) {
            toks = vec![Tok::Atom("a".into())];
            src = vec!["\"a\"".into()];
            holes = 0;
        }
        if nops >= 2 {
            self.nt = true;
        }
        if toks.windows(2).any(|w| matches!((&w[0], &w[1]), (Tok::Op(a), Tok::Op(b)) if b.fix == Fix::Pre && a.prec > b.prec)) {
            self.feat("loose-prefix");
        }
        // write it down
        let mut out = String::new();
        for (i, t) in src.iter().enumerate() {
            if i > 0 {
                let tight = |x: &str| x.starts_with('"') || x.ends_with('"');
                let op_sym = |x: &str| ops.iter().any(|o| o.sym == x);
                let (p, q) = (&src[i - 1], t);
                let may = (op_sym(p) && q.starts_with('"')) || (p.ends_with('"') && op_sym(q));
                let _ = tight;
                if may && self.s.pct(25) {
                } else if self.s.pct(5) {
                    out.push('\n');
                } else {
                    out.push(' ');
                }
            }
            out.push_str(t);
        }
        Soup { src: out, toks, holes }
    }

    fn cat_fun(&mut self) -> (String, Fun) {
        match self.s.below(4) {
            0 => ("f1".into(), Rc::new(|x: &str| format!("<{x}>"))),
            1 => ("f2(\"u\")".into(), Rc::new(|x: &str| format!("<u,{x}>"))),
            2 => ("bk.f".into(), Rc::new(|x: &str| format!("[{x}]"))),
            _ => ("(f2(\"w\"))".into(), Rc::new(|x: &str| format!("<w,{x}>"))),
        }
    }
}

trait Tup {
    fn to_tuple(&self) -> (String, String);
}
impl Tup for (&str, &str) {
    fn to_tuple(&self) -> (String, String) {
        (self.0.into(), self.1.into())
    }
}
trait Paren {
    fn paren(self) -> Self;
}
impl Paren for (String, String) {
    fn paren(self) -> Self {
        (format!("({})", self.0), self.1)
    }
}

const PREFIX: &str = "\
f1(x): \"<{x}>\"
f2(x, y): \"<{x},{y}>\"
va: \"A\"
v-b: \"B\"
bk: { k: \"K\" in: { j: \"J\" } f(x): \"[{x}]\" }
";

fn custom(s: &mut Src, ctx: &mut Ctx) -> Res {
    let nops = s.range(2, 7) as usize;
    let mut syms: Vec<&str> = SYMS.to_vec();
    s.shuffle(&mut syms);
    let mut ops: Vec<Op> = vec![];
    for (i, sym) in syms.iter().take(nops).enumerate() {
        let op = new_op(s, &ops, sym, i);
        ops.push(op);
    }
    let mut prefix = String::from(PREFIX);
    for o in &ops {
        prefix.push_str(&o.decl);
    }
    // the assertion operators' prelude is not affected by a local `//`
    let mut list = vec![];
    for k in 0..6 {
        let keep = s.below(1_000_000) != 0;
        let mut g = G { s, tag: 20 + k * 20, nt: false, feats: vec![] };
        let (src, val) = g.sub(&ops, 2);
        let (nt, feats) = (g.nt, g.feats.clone());
        if keep {
            for f in feats {
                ctx.label(f);
            }
            list.push(it("custom", src, Exp::Val(V::Str(val)), nt));
        }
    }
    run_items(ctx, &prefix, &list, &Opts::default())
}

// ---- the operators of the prelude --------------------------------------

#[derive(Clone, Copy, PartialEq, Debug)]
enum T {
    Num,
    Bool,
    List,
    Blk,
    Fun,
}

enum E {
    Leaf(String),
    Bin(&'static str, i32, bool, Box<E>, Box<E>),
    Pre(&'static str, i32, Box<E>),
    Post(&'static str, i32, Box<E>),
    /// operand, function
    Cat(Box<E>, String),
}

use E::{Bin, Cat, Leaf, Post, Pre};

fn b(op: &'static str, p: i32, right: bool, l: E, r: E) -> E {
    Bin(op, p, right, Box::new(l), Box::new(r))
}

fn tree(s: &mut Src, t: T, d: usize) -> E {
    if d == 0 {
        return Leaf(match t {
            T::Num => match s.below(5) {
                0 => "n2".into(),
                1 => "bb.k".into(),
                2 => "inc(4)".into(),
                _ => s.range(0, 9).to_string(),
            },
            T::Bool => (*s.pick(&["true", "false", "bt"])).into(),
            T::List => (*s.pick(&["[1, 2, 3]", "[4]", "xs", "[7, 5]"])).into(),
            T::Blk => (*s.pick(&["{ k: 1 }", "bb", "{ k: 3 m: { z: 1 } }"])).into(),
            T::Fun => (*s.pick(&["inc", "(* 2)", "(10 -)", "n-fn"])).into(),
        });
    }
    let d = d - 1;
    let num = |s: &mut Src| tree(s, T::Num, d);
    match t {
        T::Num => match s.below(17) {
            0..=5 => {
                let (o, p) = *s.pick(&[("+", 75), ("-", 75), ("*", 80), ("/", 80), ("%", 80), ("-", 75), ("÷", 80)]);
                let l = num(s);
                let r = num(s);
                b(o, p, false, l, r)
            }
            6 => b("^", 85, true, Leaf(s.range(1, 3).to_string()), Leaf(s.range(0, 3).to_string())),
            7 => {
                let r = b("^", 85, true, Leaf(s.range(1, 3).to_string()), Leaf(s.range(0, 2).to_string()));
                b("^", 85, true, Leaf(s.range(1, 3).to_string()), r)
            }
            8 | 9 => Pre("∸", 50, Box::new(num(s))),
            10 => {
                let (o, p) = *s.pick(&[("&", 55), ("|", 55), ("⊕", 55)]);
                let l = num(s);
                let r = num(s);
                b(o, p, false, l, r)
            }
            11 => {
                let (o, p) = *s.pick(&[("≪", 60), ("≫", 60)]);
                let l = num(s);
                b(o, p, false, l, Leaf(s.range(0, 3).to_string()))
            }
            12 => {
                let l = tree(s, T::List, d);
                b("!!", 85, false, l, Leaf(s.range(0, 1).to_string()))
            }
            13 => Cat(Box::new(num(s)), (*s.pick(&["inc", "n-fn", "max(3)", "(- 2)"])).into()),
            14 => Pre("↑", 95, Box::new(tree(s, T::List, d))),
            15 => {
                let f = tree(s, T::Fun, d);
                let x = num(s);
                b("@", 10, false, f, x)
            }
            _ => {
                let l = tree(s, T::Blk, d);
                b("~", 90, false, l, Leaf(":k".into()))
            }
        },
        T::Bool => match s.below(9) {
            0 | 1 => {
                let (o, p) = *s.pick(&[("<", 50), (">", 50), ("<=", 50), (">=", 50), ("≤", 50), ("≥", 50)]);
                let l = num(s);
                let r = num(s);
                b(o, p, false, l, r)
            }
            2 | 3 => {
                let (o, p) = *s.pick(&[("=", 40), ("!=", 40)]);
                let t = *s.pick(&[T::Num, T::Bool, T::List]);
                let l = tree(s, t, d);
                let r = tree(s, t, d);
                b(o, p, false, l, r)
            }
            4 | 5 => {
                let (o, p) = *s.pick(&[("&&", 35), ("||", 30), ("∧", 35), ("∨", 30)]);
                let l = tree(s, T::Bool, d);
                let r = tree(s, T::Bool, d);
                b(o, p, false, l, r)
            }
            6 | 7 => Pre(*s.pick(&["!", "¬"]), 88, Box::new(tree(s, T::Bool, d))),
            _ => {
                let t = *s.pick(&[T::Num, T::Bool, T::List]);
                Post("✓", 88, Box::new(tree(s, t, d)))
            }
        },
        T::List => match s.below(7) {
            0 | 1 => {
                let l = num(s);
                let r = tree(s, T::List, d);
                b("‖", 55, true, l, r)
            }
            2 | 3 => {
                let l = tree(s, T::List, d);
                let r = tree(s, T::List, d);
                b("++", 45, false, l, r)
            }
            4 => {
                let f = tree(s, T::Fun, d);
                let r = tree(s, T::List, d);
                b("<$>", 42, false, f, r)
            }
            5 => Cat(Box::new(tree(s, T::List, d)), (*s.pick(&["map(inc)", "take(2)", "reverse", "tail", "filter(> 2)"])).into()),
            _ => {
                let f = tree(s, T::Fun, d);
                let x = tree(s, T::List, d);
                b("@", 10, false, b("@", 10, false, Leaf("map".into()), f), x)
            }
        },
        T::Blk => {
            let l = tree(s, T::Blk, d);
            let r = tree(s, T::Blk, d);
            match s.below(3) {
                0 | 1 => b("<<", 45, false, l, r),
                _ => b("//", 5, false, l, r),
            }
        }
        T::Fun => {
            // `∘` and `;` share a level but not an associativity, so not both
            let l = tree(s, T::Fun, d);
            let r = tree(s, T::Fun, d);
            let right = s.bool();
            let fit = |e: E| match e {
                Bin(_, 88, rt, _, _) if rt != right => Leaf("inc".into()),
                e => e,
            };
            b(if right { "∘" } else { ";" }, 88, right, fit(l), fit(r))
        }
    }
}

fn full(e: &E) -> String {
    match e {
        Leaf(l) => l.clone(),
        Bin(o, _, _, l, r) => format!("({} {o} {})", full(l), full(r)),
        Pre(o, _, x) => format!("({o} {})", full(x)),
        Post(o, _, x) => format!("({} {o})", full(x)),
        Cat(x, f) => format!("({} {f})", full(x)),
    }
}

/// With the fewest parentheses. `left`: the tightest operator that could
/// take the left edge away (with its level doubled, odd when ties go left);
/// `right`: the same for the right edge.
fn terse(e: &E, left: i32, right: i32, saved: &mut usize) -> String {
    // whether an operator at p between neighbours keeps both operands
    let (p, lo, ro) = match e {
        Leaf(l) => return l.clone(),
        Bin(_, p, _, _, _) => (*p, *p > left, *p > right),
        // nothing to the left can be taken from a prefix operator
        Pre(_, p, _) => (*p, true, *p > right + 1),
        Post(_, p, _) => (*p, *p > left, true),
        Cat(_, _) => (CAT, CAT > left, CAT > right),
    };
    let (ok, l0, r0) = if lo && ro { (true, left, right) } else { (false, -1, -1) };
    if ok {
        *saved += 1;
    }
    let out = match e {
        Leaf(_) => unreachable!(),
        Bin(o, _, rt, l, r) => {
            let (lc, rc) = if *rt { (p, p - 1) } else { (p - 1, p) };
            format!("{} {o} {}", terse(l, l0, lc, saved), terse(r, rc, r0, saved))
        }
        Pre(o, _, x) => format!("{o} {}", terse(x, p, r0, saved)),
        Post(o, _, x) => format!("{} {o}", terse(x, l0, p, saved)),
        Cat(x, f) => format!("{} {f}", terse(x, l0, p - 1, saved)),
    };
    if ok {
        out
    } else {
        format!("({out})")
    }
}

const STD_PREFIX: &str = "n2: 2\nbb: { k: 5 m: { y: 2 } }\nbt: true\nxs: [3, 1]\nn-fn(x): x * 3 - 1\n";

fn standard(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut pairs = vec![];
    for _ in 0..8 {
        let keep = s.below(1_000_000) != 0;
        let t = *s.pick(&[T::Num, T::Bool, T::List, T::Blk, T::Num]);
        let d = s.range(1, 4) as usize;
        let e = tree(s, t, d);
        let mut saved = 0;
        let a = terse(&e, -1, -1, &mut saved);
        if keep {
            pairs.push((a, full(&e), saved));
        }
    }
    ctx.case(format!("{STD_PREFIX}{pairs:?}"));
    let xs: Vec<String> = pairs.iter().flat_map(|p| [p.0.clone(), p.1.clone()]).collect();
    let outs = ev::eval_batch(STD_PREFIX, &xs, &Opts::default());
    for (i, p) in pairs.iter().enumerate() {
        let (x, y) = (&outs[2 * i], &outs[2 * i + 1]);
        if x.timed_out() || y.timed_out() {
            ctx.inconclusive = true;
            continue;
        }
        ctx.sub(&p.0, p.2 >= 2);
        ctx.label(if y.ok().is_some() { "value" } else { "error" });
        let same = match (&x.value, &y.value) {
            (Ok(a), Ok(b)) => a.same(b),
            (Err(a), Err(b)) => a.kind == b.kind,
            _ => false,
        };
        if !same {
            return fail(
                "standard",
                format!("written tersely  {}\n  gives {}\nfully bracketed  {}\n  gives {}", p.0, x.show(), p.1, y.show()),
            );
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        facets: vec![
            Facet { name: "custom", rule: "runs of user-declared infix, prefix, postfix and nullary operators, calls, catenation, sections and nested redeclarations against a precedence-climbing reference; non-trivial: two or more operators in one run", quick: 700, thorough: 60_000, run: custom },
            Facet { name: "standard", rule: "expression trees over the prelude's operators written with as few parentheses as the documented table allows and with all of them; non-trivial: two or more applications written without parentheses", quick: 500, thorough: 40_000, run: standard },
        ],
        known: vec![],
        assumptions: vec!["unary operators are given levels of their own: how a prefix operator and a postfix or infix operator of the same level share an operand is not documented"],
    }
}
