//! C04: shorthand means what its documented long form means.

use crate::engine::{Ctx, Facet, Prop, Res, Src};
use crate::ev::{Opts, V};
use crate::gen::*;

/// What a name in scope stands for.
#[derive(Clone, Debug)]
enum B {
    S(String),
    L(Vec<String>),
}
type Scope = Vec<(String, B)>;

const PREFIX: &str = "\
f1(x): \"<{x}>\"
f2(x, y): \"<{x},{y}>\"
f3(x, y, z): \"<{x},{y},{z}>\"
jn(l): l str.join-on(\"/\")
(x +++ y): \"({x}+{y})\"
va: \"A\"
v-b: \"B\"
";

fn outer() -> Scope {
    vec![("va".into(), B::S("A".into())), ("v-b".into(), B::S("B".into()))]
}

fn find<'a>(sc: &'a Scope, n: &str) -> &'a B {
    &sc.iter().rev().find(|(k, _)| k == n).unwrap().1
}

/// A string-valued expression over the scope.
fn ex(s: &mut Src, sc: &Scope, d: usize) -> (String, String) {
    let k = if d == 0 { s.n(4) } else { s.n(9) };
    match k {
        0 => {
            let w = *s.pick(&["a", "b", "c"]);
            (format!("\"{w}\""), w.into())
        }
        1..=3 => {
            // prefer the innermost names
            let i = if s.pct(60) && sc.len() > 2 { 2 + s.n(sc.len() - 2) } else { s.n(sc.len()) };
            let n = sc[i].0.clone();
            match find(sc, &n).clone() {
                B::S(v) => (n, v),
                B::L(v) => (format!("jn({n})"), v.join("/")),
            }
        }
        4 => {
            let (a, v) = ex(s, sc, d - 1);
            (format!("f1({a})"), format!("<{v}>"))
        }
        5 => {
            let (a, v) = ex(s, sc, d - 1);
            let (b, w) = ex(s, sc, d - 1);
            (format!("f2({a}, {b})"), format!("<{v},{w}>"))
        }
        6 => {
            let (a, v) = ex(s, sc, d - 1);
            let (b, w) = ex(s, sc, d - 1);
            (format!("({a} +++ {b})"), format!("({v}+{w})"))
        }
        7 => {
            let ns: Vec<(String, String)> = sc
                .iter()
                .filter_map(|(n, _)| match find(sc, n) {
                    B::S(v) => Some((n.clone(), v.clone())),
                    _ => None,
                })
                .collect();
            let (n, v) = s.pick(&ns).clone();
            let (m, w) = s.pick(&ns).clone();
            (format!("\"{{{n}}}-{{{m}}}\""), format!("{v}-{w}"))
        }
        _ => {
            let (a, v) = ex(s, sc, d - 1);
            (format!("({a} f1)"), format!("<{v}>"))
        }
    }
}

fn arg(s: &mut Src, sc: &Scope) -> (String, String) {
    ex(s, sc, 1)
}

/// Ways of applying the function `f` to `args`.
fn apply(s: &mut Src, f: &str, args: &[(String, String)], paren: bool) -> String {
    let srcs: Vec<String> = args.iter().map(|a| a.0.clone()).collect();
    let pf = if paren { format!("({f})") } else { f.to_string() };
    match s.below(7) {
        0 => format!("{pf}({})", srcs.join(", ")),
        1 => format!("{{ zs: {f}\n zr: zs({}) }}.zr", srcs.join(", ")),
        2 => format!("{{ zs: {f}\n}}.(zs({}))", srcs.join(", ")),
        3 if args.len() == 1 => format!("({} {pf})", srcs[0]),
        4 if args.len() == 1 => format!("([{}] map({f}) head)", srcs[0]),
        4 if args.len() == 2 => format!("(zip-with({f}, [{}], [{}]) head)", srcs[0], srcs[1]),
        5 if args.len() == 2 => format!("foldl({f}, {}, [{}])", srcs[0], srcs[1]),
        5 if args.len() == 2 => format!("flip({f}, {}, {})", srcs[1], srcs[0]),
        6 if args.len() >= 2 => {
            // a stage at a time
            let k = 1 + s.n(args.len() - 1);
            format!("{pf}({})({})", srcs[..k].join(", "), srcs[k..].join(", "))
        }
        _ => format!("{{ zg(g): g({}) }}.zg({f})", srcs.join(", ")),
    }
}

// ---- anaphora ----------------------------------------------------------

/// A use of parameters in textual order: each as source text; `val` refers
/// to arguments by index.
struct Holes {
    numbered: bool,
    next: usize,
    max: usize,
    used: Vec<bool>,
}
impl Holes {
    fn hole(&mut self, s: &mut Src, mark: &str) -> (String, usize) {
        if self.numbered {
            let i = s.n(self.max);
            self.used[i] = true;
            (format!("{mark}{i}"), i)
        } else {
            self.next += 1;
            (mark.into(), self.next - 1)
        }
    }
    fn arity(&self) -> usize {
        if self.numbered {
            self.used.iter().rposition(|u| *u).map_or(0, |i| i + 1)
        } else {
            self.next
        }
    }
}

/// A template: text, and the value as pieces where `Err(i)` is argument i.
type Pieces = Vec<Result<String, usize>>;

fn fill(p: &Pieces, args: &[(String, String)]) -> String {
    p.iter()
        .map(|x| match x {
            Ok(s) => s.clone(),
            Err(i) => args[*i].1.clone(),
        })
        .collect()
}

fn cat(a: Pieces, sep: &str, b: Pieces, l: &str, r: &str) -> Pieces {
    let mut v: Pieces = vec![Ok(l.into())];
    v.extend(a);
    v.push(Ok(sep.into()));
    v.extend(b);
    v.push(Ok(r.into()));
    v
}

/// One operand of an anaphoric expression. `deep` operands put their holes
/// inside call arguments or parentheses, which only join an expression that
/// is anaphoric already.
fn operand(s: &mut Src, h: &mut Holes, mark: &str, sc: &Scope, deep: bool) -> (String, Pieces) {
    match s.below(if deep { 6 } else { 3 }) {
        0 | 1 if h.numbered || h.next < h.max => {
            let (t, i) = h.hole(s, mark);
            (t, vec![Err(i)])
        }
        3 if h.numbered => {
            let (t, p) = operand(s, h, mark, sc, false);
            (format!("f1({t})"), cat(p, "", vec![], "<", ">"))
        }
        4 if h.numbered => {
            let (t, p) = operand(s, h, mark, sc, false);
            let (u, q) = operand(s, h, mark, sc, false);
            (format!("f2({t}, {u})"), cat(p, ",", q, "<", ">"))
        }
        5 if h.numbered => {
            let (t, p) = operand(s, h, mark, sc, false);
            let (u, q) = operand(s, h, mark, sc, false);
            (format!("({t} +++ {u})"), cat(p, "+", q, "(", ")"))
        }
        _ => {
            let (t, v) = ex(s, sc, 1);
            (t, vec![Ok(v)])
        }
    }
}

fn anaphora(s: &mut Src) -> Item {
    let sc = outer();
    let numbered = s.bool();
    let max = s.range(1, 4) as usize;
    let mut h = Holes { numbered, next: 0, max, used: vec![false; max] };
    // the first operand is a hole in the expression itself
    let n = s.range(2, 5);
    let mut txt = String::new();
    let mut val: Pieces = vec![];
    let direct = s.n(n as usize);
    for i in 0..n as usize {
        let (t, p) = if i == direct {
            let (t, i) = h.hole(s, "_");
            (t, vec![Err(i)])
        } else {
            operand(s, &mut h, "_", &sc, true)
        };
        if i == 0 {
            txt = t;
            val = p;
        } else {
            txt = format!("{txt} +++ {t}");
            val = cat(val, "+", p, "(", ")");
        }
    }
    let ar = h.arity();
    let args: Vec<(String, String)> = (0..ar).map(|_| arg(s, &sc)).collect();
    let want = fill(&val, &args);
    let src = apply(s, &txt, &args, true);
    it("anaphora", src, Exp::Val(V::Str(want)), ar >= 2 || n > 2)
}

fn block_anaphora(s: &mut Src) -> Item {
    let sc = outer();
    let numbered = s.bool();
    let max = s.range(1, 4) as usize;
    let mut h = Holes { numbered, next: 0, max, used: vec![false; max] };
    let n = s.range(1, 4) as usize;
    let direct = s.n(n);
    let mut decls: Vec<String> = vec![];
    let mut kvs: Vec<(String, Pieces)> = vec![];
    for i in 0..n {
        let k = format!("k{i}");
        let (t, p) = match s.below(4) {
            _ if i == direct => {
                let (t, j) = h.hole(s, "•");
                (t, vec![Err(j)])
            }
            0 | 1 => {
                let (t, p) = operand(s, &mut h, "•", &sc, true);
                let (u, q) = operand(s, &mut h, "•", &sc, true);
                (format!("{t} +++ {u}"), cat(p, "+", q, "(", ")"))
            }
            2 if i > 0 => {
                // an earlier key of the block
                let j = s.n(i);
                (format!("f1(k{j})"), cat(kvs[j].1.clone(), "", vec![], "<", ">"))
            }
            _ => {
                let (t, p) = operand(s, &mut h, "•", &sc, true);
                (t, p)
            }
        };
        decls.push(format!("{k}: {t}"));
        kvs.push((k, p));
    }
    let ar = h.arity();
    let args: Vec<(String, String)> = (0..ar).map(|_| arg(s, &sc)).collect();
    let blk = format!("{{ {} }}", decls.join(if s.bool() { " " } else { ", " }));
    let vals: Vec<String> = kvs.iter().map(|(_, p)| fill(p, &args)).collect();
    if s.bool() {
        let src = apply(s, &blk, &args, true);
        let want = V::Block(kvs.iter().zip(vals).map(|((k, _), v)| (V::Sym(k.clone()), V::Str(v))).collect());
        it("block-anaphora", src, Exp::Val(want), ar >= 2)
    } else {
        // a lambda by lookup into the block
        let mut sc2 = sc.clone();
        for ((k, _), v) in kvs.iter().zip(vals) {
            sc2.push((k.clone(), B::S(v)));
        }
        let (body, want) = ex(s, &sc2, 2);
        let src = apply(s, &format!("{blk}.({body})"), &args, true);
        it("pseudo-lambda", src, Exp::Val(V::Str(want)), ar >= 2)
    }
}

fn string_anaphora(s: &mut Src) -> Item {
    let sc = outer();
    let numbered = s.bool();
    let max = s.range(1, 4) as usize;
    let n = s.range(1, 5);
    let mut used = vec![false; max];
    let mut next = 0;
    let mut txt = String::new();
    let mut val: Pieces = vec![];
    for i in 0..n {
        let lit = *s.pick(&["", "x", " - ", "#", "{{", "}}"]);
        txt.push_str(lit);
        val.push(Ok(lit.replace("{{", "{").replace("}}", "}")));
        if i > 0 && s.pct(25) {
            txt.push_str("{va}");
            val.push(Ok("A".into()));
        } else if numbered {
            let i = s.n(max);
            used[i] = true;
            txt.push_str(&format!("{{{i}}}"));
            val.push(Err(i));
        } else if next < 5 {
            txt.push_str("{}");
            val.push(Err(next));
            next += 1;
        }
    }
    let ar = if numbered { used.iter().rposition(|u| *u).map_or(0, |i| i + 1) } else { next };
    let args: Vec<(String, String)> = (0..ar).map(|_| arg(s, &sc)).collect();
    let want = fill(&val, &args);
    let src = apply(s, &format!("\"{txt}\""), &args, true);
    it("string-anaphora", src, Exp::Val(V::Str(want)), ar >= 2)
}

fn f_anaphora(s: &mut Src, ctx: &mut Ctx) -> Res {
    let list = items(s, 10, 0, |s| match s.below(3) {
        0 => anaphora(s),
        1 => block_anaphora(s),
        _ => string_anaphora(s),
    });
    run_items(ctx, PREFIX, &list, &Opts::default())
}

// ---- patterns and calls ------------------------------------------------

enum Pat {
    Var(String),
    List(Vec<Pat>),
    Cons(Vec<Pat>, String),
    /// shorthand names first
    Block(Vec<(String, Option<Pat>)>),
}

struct Pg {
    n: usize,
}

impl Pg {
    fn name(&mut self, s: &mut Src) -> String {
        self.n += 1;
        format!("{}{}", s.pick(&["p", "q-", "rr", "v?"]), self.n)
    }
    fn pat(&mut self, s: &mut Src, d: usize) -> Pat {
        match if d == 0 { 0 } else { s.below(4) } {
            0 => Pat::Var(self.name(s)),
            1 => {
                let n = s.range(1, 3);
                Pat::List((0..n).map(|_| self.pat(s, d - 1)).collect())
            }
            2 => {
                let n = s.range(1, 2);
                let hs = (0..n).map(|_| self.pat(s, d - 1)).collect();
                Pat::Cons(hs, self.name(s))
            }
            _ => {
                let n = s.range(1, 3);
                let short = s.range(0, n);
                Pat::Block(
                    (0..n)
                        .map(|i| {
                            if i < short {
                                (self.name(s), None)
                            } else {
                                self.n += 1;
                                (format!("k{}", self.n), Some(self.pat(s, d - 1)))
                            }
                        })
                        .collect(),
                )
            }
        }
    }
}

fn show_pat(p: &Pat, sep: &str) -> String {
    match p {
        Pat::Var(n) => n.clone(),
        Pat::List(ps) => format!("[{}]", ps.iter().map(|p| show_pat(p, sep)).collect::<Vec<_>>().join(", ")),
        Pat::Cons(hs, t) => format!("[{} : {t}]", hs.iter().map(|p| show_pat(p, sep)).collect::<Vec<_>>().join(", ")),
        Pat::Block(fs) => {
            let xs: Vec<String> = fs
                .iter()
                .map(|(k, p)| match p {
                    None => k.clone(),
                    Some(p) => format!("{k}: {}", show_pat(p, sep)),
                })
                .collect();
            format!("{{{}}}", xs.join(sep))
        }
    }
}

/// An argument that fits the pattern; binds its names.
fn feed(s: &mut Src, p: &Pat, out: &mut Scope) -> String {
    let sc = outer();
    match p {
        Pat::Var(n) => {
            let (t, v) = arg(s, &sc);
            out.push((n.clone(), B::S(v)));
            t
        }
        Pat::List(ps) => {
            let xs: Vec<String> = ps.iter().map(|p| feed(s, p, out)).collect();
            list_src(s, xs)
        }
        Pat::Cons(hs, t) => {
            let mut xs: Vec<String> = hs.iter().map(|p| feed(s, p, out)).collect();
            let mut vs = vec![];
            for _ in 0..s.range(0, 3) {
                let (t, v) = arg(s, &sc);
                xs.push(t);
                vs.push(v);
            }
            out.push((t.clone(), B::L(vs)));
            list_src(s, xs)
        }
        Pat::Block(fs) => {
            let mut xs: Vec<String> = vec![];
            for (k, p) in fs {
                let t = match p {
                    None => {
                        let (t, v) = arg(s, &sc);
                        out.push((k.clone(), B::S(v)));
                        t
                    }
                    Some(p) => feed(s, p, out),
                };
                xs.push(format!("{k}: {t}"));
            }
            // more keys than the pattern asks for, in any order
            if s.pct(40) {
                xs.push("zk: \"z\"".into());
            }
            s.shuffle(&mut xs);
            format!("{{{}}}", xs.join(" "))
        }
    }
}

fn list_src(s: &mut Src, xs: Vec<String>) -> String {
    match s.below(4) {
        1 if !xs.is_empty() => format!("([{}] ++ [{}])", xs[..1].join(", "), xs[1..].join(", ")),
        2 => format!("({} ‖ [])", xs.join(" ‖ ")).replace("( ‖ [])", "[]"),
        _ => format!("[{}]", xs.join(", ")),
    }
}

fn patterns(s: &mut Src) -> Item {
    let mut g = Pg { n: 0 };
    let n = s.range(1, 3) as usize;
    let sep = if s.bool() { "  " } else { ", " };
    let mut pats: Vec<Pat> = (0..n).map(|_| g.pat(s, 2)).collect();
    if pats.iter().all(|p| matches!(p, Pat::Var(_))) {
        pats[0] = Pat::List(vec![g.pat(s, 0), g.pat(s, 1)]);
    }
    let mut sc = outer();
    let args: Vec<String> = pats.iter().map(|p| feed(s, p, &mut sc)).collect();
    let (mut body, mut want) = ex(s, &sc, 3);
    // mention everything that was bound
    if s.bool() {
        for (n, b) in sc.iter().skip(2) {
            match b {
                B::S(v) => {
                    body = format!("{body} +++ {n}");
                    want = format!("({want}+{v})");
                }
                B::L(v) => {
                    body = format!("{body} +++ jn({n})");
                    want = format!("({want}+{})", v.join("/"));
                }
            }
        }
    }
    let shown: Vec<String> = pats.iter().map(|p| show_pat(p, sep)).collect();
    let jux_ok = n == 1 && !matches!(pats[0], Pat::Var(_));
    let decl = if jux_ok && s.bool() { format!("zf{}: {body}", shown[0]) } else { format!("zf({}): {body}", shown.join(", ")) };
    let lit = args[0].starts_with('[') || args[0].starts_with('{');
    let call = match s.below(4) {
        0 | 1 if n == 1 && lit => format!("zf{}", args[0]),
        2 if n == 1 => format!("({} zf)", args[0]),
        2 => format!("({} zf({}))", args[n - 1], args[..n - 1].join(", ")),
        _ => format!("zf({})", args.join(", ")),
    };
    let src = match s.below(3) {
        0 => format!("{{ {decl}\n zr: {call} }}.zr"),
        _ => format!("{{ {decl}\n}}.({call})"),
    };
    it("patterns", src, Exp::Val(V::Str(want)), sc.len() > 4)
}

fn calls(s: &mut Src) -> Item {
    let sc = outer();
    let a: Vec<(String, String)> = (0..3).map(|_| arg(s, &sc)).collect();
    let t = |i: usize| a[i].0.clone();
    let v = |i: usize| a[i].1.clone();
    match s.below(10) {
        0 => it("curry", format!("f3({})({}, {})", t(0), t(1), t(2)), Exp::Val(V::Str(format!("<{},{},{}>", v(0), v(1), v(2)))), true),
        1 => it("curry", format!("f3({}, {})({})", t(0), t(1), t(2)), Exp::Val(V::Str(format!("<{},{},{}>", v(0), v(1), v(2)))), true),
        2 => it("pipeline", format!("{} f3({}, {}) f1", t(2), t(0), t(1)), Exp::Val(V::Str(format!("<<{},{},{}>>", v(0), v(1), v(2)))), true),
        3 => it("pipeline", format!("{} f3({})({}) f2({})", t(2), t(0), t(1), t(0)), Exp::Val(V::Str(format!("<{},<{},{},{}>>", v(0), v(0), v(1), v(2)))), true),
        4 => it("juxtaposed", format!("jn[{}, {}]", t(0), t(1)), Exp::Val(V::Str(format!("{}/{}", v(0), v(1)))), true),
        5 => it("juxtaposed", format!("{{ g(b): b.k +++ b.j }}.(g{{k: {} j: {}}})", t(0), t(1)), Exp::Val(V::Str(format!("({}+{})", v(0), v(1)))), true),
        6 => it("juxtaposed", format!("{{ g(x, l): x +++ jn(l) }}.(g({})[{}, {}])", t(0), t(1), t(2)), Exp::Val(V::Str(format!("({}+{}/{})", v(0), v(1), v(2)))), true),
        7 => it("juxtaposed", format!("{{ g(l, m): jn(l) +++ jn(m) }}.(g[{}][{}, {}])", t(0), t(1), t(2)), Exp::Val(V::Str(format!("({}+{}/{})", v(0), v(1), v(2)))), true),
        8 => it("catenated-literal", format!("[{}, {}] jn f1", t(0), t(1)), Exp::Val(V::Str(format!("<{}/{}>", v(0), v(1)))), true),
        _ => {
            // lookup in a scope, names of the block first
            let mut sc2 = sc.clone();
            let names = ["va", "w", "u"];
            let mut decls = vec![];
            for i in 0..s.range(1, 3) as usize {
                decls.push(format!("{}: {}", names[i], if i == 0 { format!("\"{}\"", ["a", "n"][s.n(2)]) } else { t(i).replace("va", "v-b") }));
                // the block's own `va` may not be what an argument meant
                let val = if i == 0 { decls[0][5..6].to_string() } else { v(i).replace('A', "B") };
                sc2.push((names[i].into(), B::S(val)));
            }
            let blk = format!("{{ {} }}", decls.join(" "));
            let (e1, w1) = ex(s, &sc2, 2);
            let (e2, w2) = ex(s, &sc2, 1);
            match s.below(4) {
                0 => it("generalised-lookup", format!("{blk}.({e1})"), Exp::Val(V::Str(w1)), true),
                1 => it("generalised-lookup", format!("{blk}.[{e1}, {e2}]"), Exp::Val(V::list([V::Str(w1), V::Str(w2)])), true),
                2 => it(
                    "generalised-lookup",
                    format!("{blk}.{{ zx: {e1} zy: {e2} }}"),
                    Exp::Val(V::Block(vec![(V::Sym("zx".into()), V::Str(w1)), (V::Sym("zy".into()), V::Str(w2))])),
                    true,
                ),
                _ => it("generalised-lookup", format!("{blk}.\"{{va}}:{{v-b}}\""), {
                    let B::S(x) = find(&sc2, "va").clone() else { unreachable!() };
                    Exp::Val(V::Str(format!("{x}:B")))
                }, true),
            }
        }
    }
}

const PAIRS: &[(&str, &str)] = &[
    ("⟦", "⟧"), ("⟨", "⟩"), ("⟪", "⟫"), ("⌈", "⌉"), ("⌊", "⌋"), ("⦃", "⦄"), ("⦇", "⦈"), ("⦉", "⦊"), ("«", "»"), ("【", "】"), ("〔", "〕"), ("〖", "〗"), ("〘", "〙"), ("〚", "〛"),
];

fn brackets(s: &mut Src) -> Item {
    let sc = outer();
    let (o, c) = *s.pick(PAIRS);
    let n = s.range(1, 4) as usize;
    let mut xs: Vec<(String, String)> = vec![];
    for _ in 0..n {
        let (t, v) = arg(s, &sc);
        // items are written side by side, so each is one element
        let one = !t.contains(' ') || t.starts_with('(') || (t.starts_with('"') && t.matches('"').count() == 2);
        xs.push((if one && !t.starts_with("f") { t } else { format!("({t})") }, v));
    }
    let inner = xs.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(" ");
    let pad = if s.bool() || n == 0 { " " } else { "" };
    let use_ = format!("{o}{pad}{inner}{pad}{c}");
    let vals: Vec<String> = xs.iter().map(|x| x.1.clone()).collect();
    let joined = vals.join("/");
    match s.below(5) {
        0 if n >= 1 => it(
            "brackets-pattern",
            format!("{{ {o} [h : t] {c}: f2(h, jn(t))\n zr: {use_} }}.zr"),
            Exp::Val(V::Str(format!("<{},{}>", vals[0], vals[1..].join("/")))),
            n >= 2,
        ),
        1 if n == 2 => it("brackets-pattern", format!("{{ {o} [x, y] {c}: y +++ x\n}}.({use_})"), Exp::Val(V::Str(format!("({}+{})", vals[1], vals[0]))), true),
        2 => {
            let (t, v) = arg(s, &sc);
            it(
                "brackets-called",
                format!("{{ {o} xs {c}: f2(jn(xs)) ∘ jn\n zr: {use_}[{t}, \"e\"] }}.zr"),
                Exp::Val(V::Str(format!("<{joined},{v}/e>"))),
                true,
            )
        }
        3 => {
            // nested, and in a pipeline
            let (o2, c2) = *s.pick(PAIRS);
            if o2 == o {
                return it("brackets", format!("{{ {o} xs {c}: jn(xs)\n zr: {o} {use_} {use_} {c} }}.zr"), Exp::Val(V::Str(format!("{joined}/{joined}"))), true);
            }
            it(
                "brackets",
                format!("{{ {o} xs {c}: jn(xs)\n {o2} xs {c2}: \"[{{xs str.join-on(\"\")}}]\"\n}}.({use_})").replace("\"[{xs str.join-on(\"\")}]\"", "f1(jn(xs))"),
                Exp::Val(V::Str(joined)),
                n >= 2,
            )
        }
        _ => it("brackets", format!("{{ {o} xs {c}: jn(xs)\n zr: {use_} f1 }}.zr"), Exp::Val(V::Str(format!("<{joined}>"))), n >= 2),
    }
}

fn f_calls(s: &mut Src, ctx: &mut Ctx) -> Res {
    let list = items(s, 10, 0, |s| match s.below(4) {
        0 | 1 => patterns(s),
        2 => calls(s),
        _ => brackets(s),
    });
    run_items(ctx, PREFIX, &list, &Opts::default())
}

// ---- monadic blocks ----------------------------------------------------

#[derive(Clone, Copy, PartialEq, Debug)]
enum M {
    Id,
    Maybe,
    List,
    Log,
}

const MONADS: &str = "\
id-bind(m, f): f(m)
id-return(x): x
mb-bind(m, f): if(m = [], [], f(m head))
mb-return(x): [x]
li-bind(m, f): m map(f) concat
li-return(x): [x]
";

const LOG: &str = "\
lg-join(l, r): [[l, r head] str.join-on(\"\"), r second]
lg-bind(m, f): lg-join(m head, f(m second))
lg-return(x): [\"\", x]
";

fn monads() -> String {
    let mut out = format!("{MONADS}{LOG}");
    for (n, p) in [("id", "id"), ("mb", "mb"), ("li", "li"), ("lg", "lg")] {
        out.push_str(&format!("m-{n}: {{ bind: {p}-bind return: {p}-return }}\n"));
        out.push_str(&format!("` {{ monad: true }}\nn-{n}: {{ bind(m, f): {p}-bind(m, f) return(x): {p}-return(x) }}\n"));
    }
    out
}

fn mname(m: M) -> &'static str {
    match m {
        M::Id => "id",
        M::Maybe => "mb",
        M::List => "li",
        M::Log => "lg",
    }
}

fn ret(m: M, v: V) -> V {
    match m {
        M::Id => v,
        M::Maybe | M::List => V::List(vec![v]),
        M::Log => V::List(vec![V::s(""), v]),
    }
}

/// How an action is made of string expressions: its kind and the texts.
#[derive(Clone)]
struct Act {
    m: M,
    parts: Vec<Ex>,
}

/// A string expression kept symbolic, so that it can be evaluated again
/// under other bindings.
#[derive(Clone)]
enum Ex {
    Lit(String),
    Name(String),
    F1(Box<Ex>),
    Op(Box<Ex>, Box<Ex>),
    Interp(String, String),
}
fn gex(s: &mut Src, names: &[String], d: usize) -> Ex {
    match if d == 0 { s.below(4) } else { s.below(7) } {
        0 => Ex::Lit((*s.pick(&["a", "b", "c"])).into()),
        1..=3 => {
            let i = if s.pct(50) { names.len() - 1 } else { s.n(names.len()) };
            Ex::Name(names[i].clone())
        }
        4 => Ex::F1(Box::new(gex(s, names, d - 1))),
        5 => Ex::Op(Box::new(gex(s, names, d - 1)), Box::new(gex(s, names, d - 1))),
        _ => Ex::Interp(s.pick(names).clone(), s.pick(names).clone()),
    }
}
fn src(e: &Ex) -> String {
    match e {
        Ex::Lit(w) => format!("\"{w}\""),
        Ex::Name(n) => n.clone(),
        Ex::F1(x) => format!("f1({})", src(x)),
        Ex::Op(x, y) => format!("({} +++ {})", src(x), src(y)),
        Ex::Interp(a, b) => format!("\"{{{a}}}.{{{b}}}\""),
    }
}
fn val(e: &Ex, env: &[(String, String)]) -> String {
    let get = |n: &String| env.iter().rev().find(|(k, _)| k == n).unwrap().1.clone();
    match e {
        Ex::Lit(w) => w.clone(),
        Ex::Name(n) => get(n),
        Ex::F1(x) => format!("<{}>", val(x, env)),
        Ex::Op(x, y) => format!("({}+{})", val(x, env), val(y, env)),
        Ex::Interp(a, b) => format!("{}.{}", get(a), get(b)),
    }
}

fn act(s: &mut Src, m: M, names: &[String]) -> Act {
    let n = match m {
        M::Id => 1,
        M::Maybe => (s.below(7) != 6) as i64,
        M::List if s.below(10) == 9 => 0,
        M::List => s.range(1, 3),
        M::Log => 2,
    } as usize;
    let mut parts: Vec<Ex> = (0..n).map(|_| gex(s, names, 1)).collect();
    if m == M::Log {
        parts[0] = Ex::Lit((*s.pick(&["p", "q", "r"])).into());
    }
    Act { m, parts }
}
fn act_src(a: &Act) -> String {
    let xs: Vec<String> = a.parts.iter().map(src).collect();
    if a.m == M::Id {
        xs[0].clone()
    } else {
        format!("[{}]", xs.join(", "))
    }
}

enum Ret {
    E(Ex),
    List(Ex, Ex),
    Block(Ex, Ex),
    Implicit,
}

type Steps = Vec<(String, Act)>;

fn chain(m: M, steps: &[(String, Act)], env: &mut Vec<(String, String)>, r: &Ret, all: &Steps) -> V {
    match steps.split_first() {
        None => {
            let v = match r {
                Ret::E(e) => V::Str(val(e, env)),
                Ret::List(a, b) => V::list([V::Str(val(a, env)), V::Str(val(b, env))]),
                Ret::Block(a, b) => V::Block(vec![(V::Sym("rx".into()), V::Str(val(a, env))), (V::Sym("ry".into()), V::Str(val(b, env)))]),
                Ret::Implicit => V::Block(
                    all.iter()
                        .filter(|(n, _)| !n.starts_with('_'))
                        .map(|(n, _)| (V::Sym(n.clone()), V::Str(val(&Ex::Name(n.clone()), env))))
                        .collect(),
                ),
            };
            ret(m, v)
        }
        Some(((n, a), rest)) => {
            let xs: Vec<String> = a.parts.iter().map(|p| val(p, env)).collect();
            let mut with = |x: &String| {
                env.push((n.clone(), x.clone()));
                let v = chain(m, rest, env, r, all);
                env.pop();
                v
            };
            match m {
                M::Id => with(&xs[0]),
                M::Maybe => match xs.first() {
                    None => V::List(vec![]),
                    Some(x) => with(x),
                },
                M::List => V::List(
                    xs.iter()
                        .flat_map(|x| match with(x) {
                            V::List(ys) => ys,
                            _ => unreachable!(),
                        })
                        .collect(),
                ),
                M::Log => {
                    let V::List(ys) = with(&xs[1]) else { unreachable!() };
                    let V::Str(l) = &ys[0] else { unreachable!() };
                    V::List(vec![V::Str(format!("{}{l}", xs[0])), ys[1].clone()])
                }
            }
        }
    }
}

fn monadic(s: &mut Src) -> Item {
    let m = *s.pick(&[M::Id, M::Maybe, M::List, M::Log]);
    let mn = mname(m);
    let n = s.range(1, 5) as usize;
    let mut names: Vec<String> = vec!["va".into(), "v-b".into()];
    let mut steps: Steps = vec![];
    let implicit = s.pct(40);
    for i in 0..n {
        let a = act(s, m, &names);
        let name = match s.below(6) {
            // bind a name again
            0 if !implicit && i > 0 => steps[s.n(i)].0.clone(),
            1 if i > 0 => format!("_h{i}"),
            2 if !implicit || !steps.iter().any(|x| x.0 == "va") => "va".to_string(),
            _ => format!("{}{i}", ["x", "y-", "w?"][s.n(3)]),
        };
        names.push(name.clone());
        steps.push((name, a));
    }
    let r = if implicit {
        Ret::Implicit
    } else {
        match s.below(5) {
            0 => Ret::List(gex(s, &names, 1), gex(s, &names, 1)),
            1 => Ret::Block(gex(s, &names, 1), gex(s, &names, 1)),
            _ => Ret::E(gex(s, &names, 2)),
        }
    };
    let mut env = vec![("va".to_string(), "A".to_string()), ("v-b".to_string(), "B".to_string())];
    let want = chain(m, &steps, &mut env, &r, &steps);
    let sep = *s.pick(&["  ", "\n", ", "]);
    let decls = steps.iter().map(|(n, a)| format!("{n}: {}", act_src(a))).collect::<Vec<_>>().join(sep);
    let after = match &r {
        Ret::Implicit => String::new(),
        Ret::E(Ex::Name(n)) if s.bool() => format!(".{n}"),
        Ret::E(Ex::Interp(a, b)) if s.bool() => format!(".\"{{{a}}}.{{{b}}}\""),
        Ret::E(e) => format!(".({})", src(e)),
        Ret::List(a, b) => format!(".[{}, {}]", src(a), src(b)),
        Ret::Block(a, b) => format!(".{{ rx: {} ry: {} }}", src(a), src(b)),
    };
    let (o, c) = *s.pick(PAIRS);
    let (label, text) = match s.below(7) {
        0 => ("bracket-functions", format!("{{ {o}{{}}{c}: {{ :monad bind: {mn}-bind return: {mn}-return }}\n zr: {o} {decls} {c}{after} }}.zr")),
        1 => ("bracket-namespace", format!("{{ {o}{{}}{c}: {{ :monad namespace: m-{mn} }}\n zr: {o} {decls} {c}{after} }}.zr")),
        2 => ("tag", format!("{{ :n-{mn} {decls} }}{after}")),
        3 if !implicit => ("monad-key", format!("{{ {{ monad: m-{mn} }} {decls} }}{after}")),
        4 if !implicit => ("namespace-key", format!("{{ {{ :monad namespace: m-{mn} }} {decls} }}{after}")),
        5 if !implicit => ("functions-key", format!("{{ {{ :monad bind: {mn}-bind return: {mn}-return }} {decls} }}{after}")),
        6 if !implicit => ("tag", format!("{{ :m-{mn} {decls} }}{after}")),
        _ if m == M::Id => ("let", format!("{{ :let {decls} }}{after}")),
        _ => ("tag", format!("{{ :n-{mn} {decls} }}{after}")),
    };
    it(label, text, Exp::Val(want), n >= 2)
}

fn f_monads(s: &mut Src, ctx: &mut Ctx) -> Res {
    let prefix = format!("{PREFIX}{}", monads());
    let list = items(s, 8, 0, monadic);
    run_items(ctx, &prefix, &list, &Opts::default())
}

pub fn prop() -> Prop {
    Prop {
        id: "C04",
        facets: vec![
            Facet { name: "anaphora", rule: "expression, block and string placeholders, numbered and not, applied in several ways, against direct substitution; non-trivial: two or more parameters or operators", quick: 500, thorough: 40_000, run: f_anaphora },
            Facet { name: "calls", rule: "destructuring parameters (nested), juxtaposed calls and declarations, currying, pipelines, generalised lookup and idiot brackets against direct substitution; non-trivial: more than two names bound, or a composite form", quick: 500, thorough: 40_000, run: f_calls },
            Facet { name: "monads", rule: "monadic blocks in every documented form over identity, maybe, list and log monads, with shadowing and explicit or implicit return, against a model of the bind chain; non-trivial: two or more steps", quick: 500, thorough: 40_000, run: f_monads },
        ],
        known: vec![],
        assumptions: vec![],
    }
}
