//! C18: what a type means, written, reflected, enforced and checked.

use crate::engine::{fail, Ctx, Facet, Prop, Res, Src};
use crate::ev::{self, Opts, V};
use crate::gen::{lit_key, lit_str};
use crate::props::c02::scratch;
use codespan_reporting::files::Files;
use std::collections::BTreeMap;
use std::path::PathBuf;

pub struct Scratch(pub PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Prim(&'static str),
    List(Box<Ty>),
    NonEmpty(Box<Ty>),
    Dict(Box<Ty>),
    Io(Box<Ty>),
    Optic(&'static str, Box<Ty>, Box<Ty>),
    /// a variable applied to arguments
    App(String, Vec<Ty>),
    Tuple(Vec<Ty>),
    Prefix(Vec<Ty>, Box<Ty>),
    Record(BTreeMap<String, (bool, Ty)>, bool, Vec<String>),
    Fn(Box<Ty>, Box<Ty>),
    Union(Vec<Ty>),
    Partial(Box<Ty>),
    Sym(String),
    Str(String),
    Var(String),
    Forall(Vec<String>, Box<Ty>),
}
use Ty::*;

pub const PRIMS: &[&str] = &["number", "string", "symbol", "bool", "null", "datetime"];
pub const OTHER: &[&str] = &["any", "top", "never", "set", "vec", "array"];
const KEYS: &[&str] = &["a", "b", "c", "name", "tags", "x-y", "k_1", "Zed"];
const ODD: &[&str] = &["my key", "1x", "a.b", "q!", "w?", "s*", "é"];
const SYMS: &[&str] = &["a", "ok", "x-y", "number", "set", "prod"];
const STRS: &[&str] = &["", "a", "ok", "x y", "a\"b", "a\\b", "a\\\"", "{x}", "prod", "a => b", "[("];

pub struct Cfg {
    /// literal strings, which the s-string notation has no way to write
    pub strings: bool,
    /// type variables, application, quantifiers, IO and optics
    pub poly: bool,
    /// record keys outside the notation
    pub odd: bool,
    pub never: bool,
}

pub fn ty(s: &mut Src, d: usize, c: &Cfg) -> Ty {
    let leaf = |s: &mut Src| loop {
        return match s.below(10) {
            0..=5 => Prim(s.pick(PRIMS)),
            6 => {
                let p = *s.pick(OTHER);
                if p == "never" && !c.never {
                    continue;
                }
                Prim(p)
            }
            7 => Sym((*s.pick(SYMS)).into()),
            8 if c.strings => Str((*s.pick(STRS)).into()),
            8 => Prim("number"),
            _ if c.poly => Var((*s.pick(&["a", "b", "c", "Alias"])).into()),
            _ => Prim("string"),
        };
    };
    if d == 0 {
        return leaf(s);
    }
    match s.below(if c.poly { 16 } else { 11 }) {
        0 => leaf(s),
        1 | 2 => List(Box::new(ty(s, d - 1, c))),
        3 => Tuple(s.vec_between(1, 3, |s| ty(s, d - 1, c))),
        4 => Prefix(s.vec_between(1, 2, |s| ty(s, d - 1, c)), Box::new(ty(s, d - 1, c))),
        5 | 6 => {
            let n = s.below(4);
            let mut m = BTreeMap::new();
            for _ in 0..n {
                let k = if c.odd && s.pct(15) { *s.pick(ODD) } else { *s.pick(KEYS) };
                let o = s.pct(30);
                m.insert(k.to_string(), (o, ty(s, d - 1, c)));
            }
            let open = s.pct(40);
            let rows = if c.poly && s.pct(25) { vec!["r".to_string()] } else { vec![] };
            Record(m, open, rows)
        }
        7 => Union(s.vec_between(2, 3, |s| ty(s, d - 1, c))),
        8 => Partial(Box::new(ty(s, d - 1, c))),
        9 => Fn(Box::new(ty(s, d - 1, c)), Box::new(ty(s, d - 1, c))),
        10 => match s.below(2) {
            0 => Dict(Box::new(ty(s, d - 1, c))),
            _ => NonEmpty(Box::new(ty(s, d - 1, c))),
        },
        11 => Io(Box::new(ty(s, d - 1, c))),
        12 => Optic(s.pick(&["Lens", "Traversal"]), Box::new(ty(s, d - 1, c)), Box::new(ty(s, d - 1, c))),
        13 | 14 => App((*s.pick(&["m", "f"])).into(), s.vec_between(1, 2, |s| ty(s, d - 1, c))),
        _ => Forall(s.vec_between(1, 2, |s| (*s.pick(&["a", "b", "c", "m"])).to_string()), Box::new(ty(s, d - 1, c))),
    }
}

/// How tightly a form binds: 0 quantifier, 1 union, 2 arrow, 3 application, 4 closed.
fn level(t: &Ty) -> usize {
    match t {
        Forall(..) => 0,
        Union(..) => 1,
        Fn(..) => 2,
        App(..) | Partial(..) => 3,
        _ => 4,
    }
}

/// Write a type with random spacing, redundant parentheses and spellings.
pub fn spell(s: &mut Src, t: &Ty, min: usize, o: &mut String) {
    fn gap(s: &mut Src, o: &mut String) {
        match s.below(12) {
            0 => o.push_str("  "),
            1 => o.push('\n'),
            2 | 3 => o.push(' '),
            _ => {}
        }
    }
    fn word_gap(s: &mut Src, o: &mut String) {
        o.push(' ');
        gap(s, o)
    }
    fn inside(s: &mut Src, t: &Ty, o: &mut String) {
        gap(s, o);
        spell(s, t, 0, o);
        gap(s, o)
    }
    if level(t) < min || s.pct(6) {
        o.push('(');
        inside(s, t, o);
        o.push(')');
        return;
    }
    match t {
        Prim(p) => o.push_str(p),
        Var(v) => o.push_str(v),
        Sym(n) => {
            o.push(':');
            o.push_str(n)
        }
        Str(x) => {
            o.push('"');
            o.push_str(&x.replace('\\', "\\\\").replace('"', "\\\""));
            o.push('"')
        }
        List(x) => {
            o.push('[');
            inside(s, x, o);
            // `[T…]` is the same list
            if s.pct(10) {
                o.push_str(if s.bool() { "…" } else { "..." });
            }
            o.push(']')
        }
        NonEmpty(x) => {
            o.push_str("NonEmpty(");
            gap(s, o);
            o.push('[');
            inside(s, x, o);
            o.push_str("])")
        }
        Dict(x) | Io(x) => {
            o.push_str(if matches!(t, Dict(_)) { "Dict" } else { "IO" });
            gap(s, o);
            o.push('(');
            inside(s, x, o);
            o.push(')')
        }
        Optic(n, a, b) => {
            o.push_str(n);
            o.push('(');
            inside(s, a, o);
            o.push(',');
            inside(s, b, o);
            o.push(')')
        }
        App(h, args) => {
            o.push_str(h);
            for a in args {
                word_gap(s, o);
                spell(s, a, 4, o);
            }
        }
        Tuple(ts) => {
            o.push('(');
            for (i, x) in ts.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                inside(s, x, o);
            }
            if ts.len() == 1 || s.pct(20) {
                o.push(',');
            }
            o.push(')')
        }
        Prefix(ps, tail) => {
            o.push('[');
            for p in ps {
                inside(s, p, o);
                o.push(',');
            }
            inside(s, tail, o);
            o.push_str(if s.bool() { "…" } else { "..." });
            o.push(']')
        }
        Record(fs, open, rows) => {
            if fs.is_empty() && *open && rows.is_empty() && s.bool() {
                o.push_str("block");
                return;
            }
            o.push('{');
            let mut keys: Vec<&String> = fs.keys().collect();
            s.shuffle(&mut keys);
            let mut first = true;
            for k in keys {
                if !first {
                    o.push(',');
                }
                first = false;
                gap(s, o);
                o.push_str(k);
                gap(s, o);
                if fs[k].0 {
                    o.push('?');
                    gap(s, o);
                }
                o.push(':');
                if s.bool() || matches!(fs[k].1, Sym(_)) || level(&fs[k].1) < 4 {
                    o.push(' ');
                }
                inside(s, &fs[k].1, o);
            }
            for r in rows {
                if !first {
                    o.push(',');
                }
                first = false;
                gap(s, o);
                o.push_str("..");
                o.push_str(r);
            }
            if *open {
                if !first {
                    o.push(',');
                }
                gap(s, o);
                o.push_str("..");
            } else if !first && rows.is_empty() && s.pct(15) {
                o.push(',');
            }
            gap(s, o);
            o.push('}')
        }
        Fn(a, b) => {
            spell(s, a, 3, o);
            word_gap(s, o);
            o.push_str(if s.bool() { "→" } else { "->" });
            gap(s, o);
            spell(s, b, 2, o);
        }
        Union(ts) => {
            for (i, x) in ts.iter().enumerate() {
                if i > 0 {
                    word_gap(s, o);
                    o.push('|');
                    gap(s, o);
                }
                spell(s, x, 2, o);
            }
        }
        Partial(x) => {
            if s.pct(15) && min <= 1 {
                // written out in full
                if s.bool() {
                    spell(s, x, 2, o);
                    o.push_str(" | ExecutionError");
                } else {
                    o.push_str("ExecutionError | ");
                    spell(s, x, 2, o);
                }
                return;
            }
            spell(s, x, 3, o);
            gap(s, o);
            o.push('?')
        }
        Forall(vs, b) => {
            o.push_str("forall ");
            o.push_str(&vs.join(" "));
            gap(s, o);
            o.push('.');
            gap(s, o);
            spell(s, b, 0, o);
        }
    }
}

/// A union directly inside a union is part of it.
pub fn norm(t: &Ty) -> Ty {
    let b = |x: &Ty| Box::new(norm(x));
    match t {
        List(x) => List(b(x)),
        NonEmpty(x) => NonEmpty(b(x)),
        Dict(x) => Dict(b(x)),
        Io(x) => Io(b(x)),
        Optic(n, x, y) => Optic(n, b(x), b(y)),
        App(h, xs) => App(h.clone(), xs.iter().map(norm).collect()),
        Tuple(xs) => Tuple(xs.iter().map(norm).collect()),
        Prefix(xs, t) => Prefix(xs.iter().map(norm).collect(), b(t)),
        Record(fs, o, r) => Record(fs.iter().map(|(k, (p, t))| (k.clone(), (*p, norm(t)))).collect(), *o, r.clone()),
        Fn(x, y) => Fn(b(x), b(y)),
        Union(xs) => Union(
            xs.iter()
                .map(norm)
                .flat_map(|x| match x {
                    Union(ys) => ys,
                    x => vec![x],
                })
                .collect(),
        ),
        Partial(x) => Partial(b(x)),
        Forall(vs, x) => Forall(vs.clone(), b(x)),
        t => t.clone(),
    }
}

fn sym(x: &str) -> V {
    V::Sym(x.into())
}

/// The documented tagged list of a type.
pub fn data(t: &Ty) -> V {
    let l = |tag: &str, xs: Vec<V>| V::List(std::iter::once(sym(tag)).chain(xs).collect());
    let con = |n: &str| l("t-con", vec![sym(n)]);
    match t {
        Prim(p) => l("t-prim", vec![sym(p)]),
        List(x) => l("t-list", vec![data(x)]),
        NonEmpty(x) => l("t-app", vec![con("NonEmpty"), data(x)]),
        Dict(x) => l("t-app", vec![con("Dict"), data(x)]),
        Io(x) => l("t-app", vec![con("IO"), data(x)]),
        Optic(n, a, b) => l("t-app", vec![l("t-app", vec![con(n), data(a)]), data(b)]),
        App(h, xs) => xs.iter().fold(l("t-var", vec![sym(h)]), |f, x| l("t-app", vec![f, data(x)])),
        Tuple(xs) => l("t-tuple", xs.iter().map(data).collect()),
        Prefix(xs, t) => l("t-prefix-list", vec![V::List(xs.iter().map(data).collect()), data(t)]),
        Record(fs, open, rows) => l(
            "t-record",
            vec![
                V::Block(fs.iter().map(|(k, (o, t))| (sym(k), l("t-field", vec![sym(if *o { "optional" } else { "required" }), data(t)]))).collect()),
                V::Bool(*open || !rows.is_empty()),
            ],
        ),
        Fn(a, b) => l("t-fn", vec![data(a), data(b)]),
        Union(xs) => l("t-union", xs.iter().map(data).collect()),
        Partial(x) => l("t-partial", vec![data(x)]),
        Sym(n) => l("t-lit-sym", vec![sym(n)]),
        Str(x) => l("t-lit-str", vec![V::s(x.clone())]),
        Var(v) => l("t-var", vec![sym(v)]),
        Forall(vs, b) if vs.len() == 1 => l("t-forall", vec![sym(&vs[0]), data(b)]),
        Forall(vs, b) => l("t-forall", vec![V::List(vs.iter().map(|v| sym(v)).collect()), data(b)]),
    }
}

/// The type as reports name it.
pub fn shown(t: &Ty) -> String {
    let paren = |t: &Ty, yes: bool| if yes { format!("({})", shown(t)) } else { shown(t) };
    let loose = |t: &Ty| matches!(t, Fn(..) | Union(..) | Forall(..));
    let side = |t: &Ty| loose(t) || matches!(t, Partial(_));
    let join = |xs: &[Ty]| xs.iter().map(shown).collect::<Vec<_>>().join(", ");
    match t {
        Prim(p) => p.to_string(),
        List(x) => format!("[{}]", shown(x)),
        NonEmpty(x) => format!("NonEmpty([{}])", shown(x)),
        Dict(x) => format!("Dict({})", shown(x)),
        Io(x) => format!("IO({})", shown(x)),
        Optic(n, a, b) => format!("{n}({}, {})", shown(a), shown(b)),
        App(h, xs) => xs.iter().fold(h.clone(), |f, x| format!("{f} {}", paren(x, side(x) || matches!(x, App(..))))),
        Tuple(xs) if xs.len() == 1 => format!("({},)", shown(&xs[0])),
        Tuple(xs) => format!("({})", join(xs)),
        Prefix(xs, t) => format!("[{}, {}…]", join(xs), shown(t)),
        Record(fs, open, rows) => {
            let mut parts: Vec<String> = fs.iter().map(|(k, (o, t))| format!("{k}{}: {}", if *o { "?" } else { "" }, shown(t))).collect();
            if *open || !rows.is_empty() {
                parts.push("..".into());
            }
            format!("{{{}}}", parts.join(", "))
        }
        Fn(a, b) => format!("{} → {}", paren(a, side(a)), paren(b, side(b))),
        Union(xs) => xs.iter().map(|x| paren(x, matches!(x, Forall(..)))).collect::<Vec<_>>().join(" | "),
        Partial(x) => format!("{}?", paren(x, loose(x))),
        Sym(n) => format!(":{n}"),
        Str(x) => format!("\"{}\"", x.replace('\\', "\\\\").replace('"', "\\\"")),
        Var(v) => v.clone(),
        Forall(vs, b) => format!("forall {}. {}", vs.join(" "), shown(b)),
    }
}

/// Eucalypt source of a tagged list.
pub fn data_src(v: &V) -> String {
    match v {
        V::List(xs) => format!("[{}]", xs.iter().map(data_src).collect::<Vec<_>>().join(", ")),
        V::Block(kvs) => format!("{{{}}}", kvs.iter().map(|(k, v)| format!("{}: {}", lit_key(k.key().unwrap()), data_src(v))).collect::<Vec<_>>().join(", ")),
        V::Sym(x) => format!(":{}", lit_key(x)),
        V::Str(x) => lit_str(x),
        V::Bool(b) => b.to_string(),
        _ => unreachable!(),
    }
}

pub fn any(t: &Ty, f: &dyn std::ops::Fn(&Ty) -> bool) -> bool {
    f(t) || match t {
        List(x) | NonEmpty(x) | Dict(x) | Io(x) | Partial(x) | Forall(_, x) => any(x, f),
        Optic(_, a, b) | Fn(a, b) => any(a, f) || any(b, f),
        App(_, xs) | Tuple(xs) | Union(xs) => xs.iter().any(|x| any(x, f)),
        Prefix(xs, x) => xs.iter().any(|x| any(x, f)) || any(x, f),
        Record(fs, ..) => fs.values().any(|(_, x)| any(x, f)),
        _ => false,
    }
}

fn written(t: &Ty) -> bool {
    !any(t, &|t| matches!(t, Str(_)) || matches!(t, Record(fs, ..) if fs.keys().any(|k| !KEYS.contains(&k.as_str()))))
}

pub const LIB: &str = "{ import: [\"reflect.eu\", \"contract.eu\"] }\n";

/// A value as it stands in data.
#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Num(i64),
    Flo,
    Str(String),
    Sym(String),
    Bool(bool),
    Null,
    Time,
    List(Vec<Val>),
    Block(Vec<(String, Val)>),
    Fun,
    Ty,
    /// never to be looked at
    Poison,
}

pub fn val_src(v: &Val) -> String {
    match v {
        Val::Num(n) => n.to_string(),
        Val::Flo => "1.5".into(),
        Val::Str(x) => lit_str(x),
        Val::Sym(x) => format!(":{}", lit_key(x)),
        Val::Bool(b) => b.to_string(),
        Val::Null => "null".into(),
        Val::Time => "t\"2024-01-02\"".into(),
        Val::List(xs) => format!("[{}]", xs.iter().map(val_src).collect::<Vec<_>>().join(", ")),
        Val::Block(kvs) => format!("{{{}}}", kvs.iter().map(|(k, v)| format!("{}: {}", lit_key(k), val_src(v))).collect::<Vec<_>>().join(", ")),
        Val::Fun => "inc".into(),
        Val::Ty => "s\"number\"".into(),
        Val::Poison => "panic(\"looked\")".into(),
    }
}

pub fn val_any(v: &Val, f: &dyn std::ops::Fn(&Val) -> bool) -> bool {
    f(v) || match v {
        Val::List(xs) => xs.iter().any(|x| val_any(x, f)),
        Val::Block(kvs) => kvs.iter().any(|(_, x)| val_any(x, f)),
        _ => false,
    }
}

pub fn random_val(s: &mut Src, d: usize) -> Val {
    match s.below(if d == 0 { 10 } else { 13 }) {
        0 | 1 => Val::Num(s.range(-3, 9)),
        2 => Val::Flo,
        3 => Val::Str((*s.pick(STRS)).into()),
        4 => Val::Sym((*s.pick(SYMS)).into()),
        5 => Val::Bool(s.bool()),
        6 => Val::Null,
        7 => Val::Time,
        8 => Val::Fun,
        9 => Val::Ty,
        10 | 11 => Val::List(s.vec(3, |s| random_val(s, d - 1))),
        _ => Val::Block(block_of(s, d - 1)),
    }
}

fn block_of(s: &mut Src, d: usize) -> Vec<(String, Val)> {
    let mut seen = std::collections::BTreeSet::new();
    let mut out = vec![];
    for _ in 0..s.below(3) {
        let k = s.pick(KEYS).to_string();
        if seen.insert(k.clone()) {
            out.push((k, random_val(s, d)));
        }
    }
    out
}

pub struct Noise {
    pub pct: u64,
    pub poison: bool,
}

/// A value that inhabits the type but for some noise.
pub fn val(s: &mut Src, t: &Ty, d: usize, n: &Noise) -> Val {
    if s.pct(n.pct) {
        return random_val(s, d.min(2));
    }
    let d = d.saturating_sub(1);
    match t {
        Prim("number") => if s.bool() { Val::Num(s.range(-5, 50)) } else { Val::Flo },
        Prim("string") => Val::Str((*s.pick(STRS)).into()),
        Prim("symbol") => Val::Sym((*s.pick(SYMS)).into()),
        Prim("bool") => Val::Bool(s.bool()),
        Prim("null") => Val::Null,
        Prim("datetime") => Val::Time,
        Sym(x) => Val::Sym(x.clone()),
        Str(x) => Val::Str(x.clone()),
        List(x) => Val::List(s.vec(3, |s| val(s, x, d, n))),
        Tuple(xs) => {
            let mut out: Vec<Val> = xs.iter().map(|x| val(s, x, d, n)).collect();
            resize(s, &mut out, d, n);
            Val::List(out)
        }
        Prefix(xs, t) => {
            let mut out: Vec<Val> = xs.iter().map(|x| val(s, x, d, n)).collect();
            out.extend(s.vec(2, |s| val(s, t, d, n)));
            resize(s, &mut out, d, n);
            Val::List(out)
        }
        Record(fs, open, rows) => {
            let mut out = vec![];
            for (k, (opt, t)) in fs {
                if (*opt && s.bool()) || s.pct(n.pct) {
                    continue;
                }
                out.push((k.clone(), val(s, t, d, n)));
            }
            if *open || !rows.is_empty() || s.pct(n.pct) {
                for _ in 0..s.below(3) {
                    let k = if s.pct(20) { *s.pick(ODD) } else { *s.pick(KEYS) };
                    if !fs.contains_key(k) && !out.iter().any(|(q, _)| q == k) {
                        let v = if n.poison && s.bool() { Val::Poison } else { random_val(s, d.min(1)) };
                        out.push((k.into(), v));
                    }
                }
            }
            s.shuffle(&mut out);
            Val::Block(out)
        }
        Union(ts) => {
            let t = s.pick(ts).clone();
            val(s, &t, d, n)
        }
        Partial(x) => if s.pct(30) { Val::Null } else { val(s, x, d, n) },
        Fn(..) => Val::Fun,
        Forall(_, x) => val(s, x, d, n),
        _ if n.poison && s.bool() => Val::Poison,
        _ => random_val(s, d.min(2)),
    }
}

fn resize(s: &mut Src, out: &mut Vec<Val>, d: usize, n: &Noise) {
    if s.pct(n.pct) {
        if s.bool() && !out.is_empty() {
            out.pop();
        } else {
            out.push(random_val(s, d.min(1)));
        }
    }
}

pub fn type_name(v: &Val) -> &'static str {
    match v {
        Val::Num(_) | Val::Flo => "number",
        Val::Str(_) => "string",
        Val::Sym(_) => "symbol",
        Val::Bool(_) => "bool",
        Val::Null => "null",
        Val::Time => "datetime",
        Val::List(_) => "list",
        Val::Block(_) => "block",
        Val::Fun => "function",
        Val::Ty => "type-data",
        Val::Poison => "poison",
    }
}

fn bare(k: &str) -> bool {
    let mut cs = k.chars();
    matches!(cs.next(), Some(c) if c.is_ascii_alphabetic()) && cs.all(|c| c.is_ascii_alphanumeric() || "_*!?-".contains(c))
}

/// A violation: path, kind, expected, found.
type Viol = (String, &'static str, V, V);

/// The documented violations of `v` against `t`.
pub fn check(t: &Ty, p: &str, v: &Val, out: &mut Vec<Viol>) {
    let bad = |out: &mut Vec<Viol>| out.push((p.to_string(), "type-mismatch", V::s(shown(t)), V::s(type_name(v))));
    let step = |k: &str| {
        let k = if bare(k) { k.to_string() } else { format!("'{k}'") };
        if p.is_empty() { k } else { format!("{p}.{k}") }
    };
    let at = |i: usize| format!("{p}[{i}]");
    match t {
        Prim(n) => {
            if *n == "never" || (PRIMS.contains(n) && type_name(v) != *n) {
                bad(out)
            }
        }
        Sym(x) => if !matches!(v, Val::Sym(y) if x == y) { bad(out) },
        Str(x) => if !matches!(v, Val::Str(y) if x == y) { bad(out) },
        List(x) => match v {
            Val::List(vs) => vs.iter().enumerate().for_each(|(i, v)| check(x, &at(i), v, out)),
            _ => bad(out),
        },
        Tuple(xs) => match v {
            Val::List(vs) if vs.len() == xs.len() => xs.iter().zip(vs).enumerate().for_each(|(i, (x, v))| check(x, &at(i), v, out)),
            Val::List(vs) => out.push((p.into(), "length", V::i(xs.len() as i64), V::i(vs.len() as i64))),
            _ => bad(out),
        },
        Prefix(xs, t) => match v {
            Val::List(vs) if vs.len() >= xs.len() => vs.iter().enumerate().for_each(|(i, v)| check(xs.get(i).unwrap_or(t), &at(i), v, out)),
            Val::List(vs) => out.push((p.into(), "length", V::i(xs.len() as i64), V::i(vs.len() as i64))),
            _ => bad(out),
        },
        Record(fs, open, rows) => match v {
            Val::Block(kvs) => {
                for (k, (opt, x)) in fs {
                    match kvs.iter().find(|(q, _)| q == k) {
                        Some((_, v)) => check(x, &step(k), v, out),
                        None if *opt => {}
                        None => out.push((p.into(), "missing", V::s(k.clone()), sym("absent"))),
                    }
                }
                let extra: Vec<V> = kvs.iter().filter(|(k, _)| !fs.contains_key(k)).map(|(k, _)| sym(k)).collect();
                if !(*open || !rows.is_empty()) && !extra.is_empty() {
                    out.push((p.into(), "unexpected", sym("closed"), V::List(extra)));
                }
            }
            _ => bad(out),
        },
        Union(ts) => {
            if !ts.iter().any(|t| conforms(t, v)) {
                bad(out)
            }
        }
        Partial(x) => if *v != Val::Null { check(x, p, v, out) },
        Fn(..) => if *v != Val::Fun { bad(out) },
        Forall(_, x) => check(x, p, v, out),
        _ => {}
    }
}

pub fn conforms(t: &Ty, v: &Val) -> bool {
    let mut o = vec![];
    check(t, "", v, &mut o);
    o.is_empty()
}

/// Whether the spec names a position whose value must not be looked at.
fn touches(t: &Ty, v: &Val) -> bool {
    match (t, v) {
        (Prim(n), v) => *v == Val::Poison && (*n == "never" || PRIMS.contains(n)),
        (App(..) | Var(_) | Dict(_) | NonEmpty(_) | Io(_) | Optic(..), _) => false,
        (Union(ts), v) => ts.iter().any(|t| touches(t, v)),
        (Partial(x) | Forall(_, x), v) => touches(x, v) || (matches!(t, Partial(_)) && *v == Val::Poison),
        (_, Val::Poison) => true,
        (List(x), Val::List(vs)) => vs.iter().any(|v| touches(x, v)),
        (Tuple(xs), Val::List(vs)) => xs.iter().zip(vs).any(|(x, v)| touches(x, v)),
        (Prefix(xs, t), Val::List(vs)) => vs.iter().enumerate().any(|(i, v)| touches(xs.get(i).unwrap_or(t), v)),
        (Record(fs, ..), Val::Block(kvs)) => kvs.iter().any(|(k, v)| fs.get(k).map(|(_, t)| touches(t, v)).unwrap_or(false)),
        _ => false,
    }
}

fn unpoisoned(v: Val) -> Val {
    match v {
        Val::Poison => Val::Num(0),
        Val::List(xs) => Val::List(xs.into_iter().map(unpoisoned).collect()),
        Val::Block(kvs) => Val::Block(kvs.into_iter().map(|(k, v)| (k, unpoisoned(v))).collect()),
        v => v,
    }
}

/// Records open throughout, as `match?` takes them.
fn opened(t: &Ty) -> Ty {
    let b = |x: &Ty| Box::new(opened(x));
    match t {
        List(x) => List(b(x)),
        Tuple(xs) => Tuple(xs.iter().map(opened).collect()),
        Prefix(xs, t) => Prefix(xs.iter().map(opened).collect(), b(t)),
        Record(fs, _, r) => Record(fs.iter().map(|(k, (p, t))| (k.clone(), (*p, opened(t)))).collect(), true, r.clone()),
        Union(xs) => Union(xs.iter().map(opened).collect()),
        Partial(x) => Partial(b(x)),
        Forall(vs, x) => Forall(vs.clone(), b(x)),
        t => t.clone(),
    }
}

fn spelled(s: &mut Src, t: &Ty) -> String {
    let mut o = String::new();
    spell(s, t, 0, &mut o);
    o
}

fn spec_src(s: &mut Src, t: &Ty) -> String {
    if written(t) && s.pct(70) {
        format!("s\"{}\"", spelled(s, t))
    } else {
        data_src(&data(&norm(t)))
    }
}

fn same_set(a: &[V], b: &[V]) -> bool {
    let k = |v: &V| format!("{v:?}");
    let mut x: Vec<String> = a.iter().map(k).collect();
    let mut y: Vec<String> = b.iter().map(k).collect();
    x.sort();
    y.sort();
    x == y
}

/// Writing a type and reading it back.
fn notation(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = 4;
    let cfg = Cfg { strings: true, poly: true, odd: false, never: true };
    let depth = s.n(4);
    let ts: Vec<Ty> = (0..n).map(|_| ty(s, depth, &cfg)).collect();
    let mut exprs = vec![];
    let mut text = vec![];
    for t in &ts {
        let d = data(&norm(t));
        let src = if written(t) { format!("s\"{}\"", spelled(s, t)) } else { format!("({} from-data)", data_src(&d)) };
        exprs.push(format!("[{src}, {src} to-data, {src} to-data type-str, {src} to-data from-data to-data]"));
        text.push(src);
    }
    for (t, x) in ts.iter().zip(&text) {
        ctx.sub(x, level(t) < 4 || depth > 1);
    }
    ctx.case(text.join(" ; "));
    let outs = ev::eval_batch(LIB, &exprs, &Opts::default());
    let mut again = vec![];
    for ((t, src), out) in ts.iter().zip(&text).zip(&outs) {
        let want = data(&norm(t));
        let Ok(V::List(xs)) = &out.value else {
            return fail("spec-error", format!("{src}: {}", out.show()));
        };
        let [V::Str(canon), got, V::Str(shown_as), round] = &xs[..] else {
            return fail("spec-form", format!("{src} gives {xs:?}"));
        };
        if *got != want {
            return fail("to-data", format!("{src} to-data gives {got:?}, not {want:?}"));
        }
        if *round != want {
            return fail("round-trip", format!("{src} to-data from-data to-data gives {round:?}, not {want:?}"));
        }
        if written(t) {
            again.push((src, canon.clone(), want.clone(), true));
            again.push((src, shown_as.clone(), want, false));
        }
    }
    let exprs: Vec<String> = again.iter().map(|(_, c, ..)| format!("{{ c: s\"{c}\" d: s\"{c}\" to-data }}")).collect();
    for ((src, c, want, canon), out) in again.iter().zip(ev::eval_batch(LIB, &exprs, &Opts::default())) {
        let what = if *canon { "rendered" } else { "named by type-str" };
        let v = match out.value {
            Ok(v) => v,
            Err(_) => return fail("rendering", format!("{src} is {what} as {c:?}, which reads back as {}", out.show())),
        };
        if v.get("d") != Some(want) || (*canon && v.get("c") != Some(&V::s(c.clone()))) {
            return fail("rendering", format!("{src} is {what} as {c:?}, which reads back as {v:?}"));
        }
    }
    Ok(())
}

/// Contracts and `match?` against the model of conformance.
fn contract(s: &mut Src, ctx: &mut Ctx) -> Res {
    let cfg = Cfg { strings: true, poly: s.bool(), odd: s.bool(), never: s.pct(30) };
    let mut exprs = vec![];
    let mut meta = vec![];
    for _ in 0..3 {
        let d = 1 + s.n(3);
        let t = ty(s, d, &cfg);
        let noise = Noise { pct: *s.pick(&[0, 4, 10, 25]), poison: s.pct(40) };
        let v = val(s, &t, 4, &noise);
        let t = norm(&t);
        let v = if touches(&t, &v) { unpoisoned(v) } else { v };
        let (sp, vs) = (spec_src(s, &t), val_src(&v));
        let e = match s.below(3) {
            0 => format!("{vs} validate({sp})"),
            1 => format!("validate({sp}, {vs})"),
            _ => format!("{{ sp: {sp} d: {vs} }}.(d validate(sp))"),
        };
        ctx.sub(&e, d > 1);
        exprs.push(e);
        meta.push((t, v, sp, vs));
    }
    ctx.case(exprs.join(" ; "));
    let outs = ev::eval_batch(LIB, &exprs, &Opts::default());
    let mut more = vec![];
    let mut want_more: Vec<(&str, Result<V, String>)> = vec![];
    for ((t, v, sp, vs), (out, e)) in meta.iter().zip(outs.iter().zip(&exprs)) {
        let mut want = vec![];
        check(t, "", v, &mut want);
        ctx.label(if want.is_empty() { "conforms" } else { "violates" });
        let mk = |(p, k, e, f): &Viol| {
            V::Block(vec![(sym("path"), V::s(p.clone())), (sym("kind"), sym(k)), (sym("expected"), e.clone()), (sym("found"), f.clone())])
        };
        let want_v: Vec<V> = want.iter().map(mk).collect();
        match &out.value {
            Ok(V::List(got)) if same_set(got, &want_v) => {}
            _ => return fail("validate", format!("{e}\n gives {}\n not {want_v:?}", out.show())),
        }
        let plain = !val_any(v, &|v| matches!(v, Val::Fun | Val::Ty | Val::Poison));
        if want.is_empty() && plain {
            more.push(format!("({vs} ensure({sp})) = ({vs})"));
            want_more.push(("ensure", Ok(V::Bool(true))));
            more.push(format!("{vs} ensure({sp})"));
            want_more.push(("ensure", Ok(value(v))));
        } else if !want.is_empty() {
            more.push(format!("{vs} ensure({sp})"));
            let n = want.len();
            want_more.push(("ensure", Err(format!("{n} violation{} against {}", if n == 1 { "" } else { "s" }, shown(t)))));
        }
        // `match?` leaves literals, `never` and applied constructors alone
        if !any(t, &|t| matches!(t, Sym(_) | Str(_) | Prim("never"))) {
            more.push(format!("{vs} match?({sp} as-spec)"));
            want_more.push(("match", Ok(V::Bool(conforms(&opened(t), v)))));
        }
    }
    for ((what, want), (out, e)) in want_more.iter().zip(ev::eval_batch(LIB, &more, &Opts::default()).iter().zip(&more)) {
        let ok = match (&out.value, want) {
            (Ok(a), Ok(b)) => a.same(b),
            (Err(e), Err(m)) => e.kind.contains("Contract") && e.msg.contains(m.as_str()),
            _ => false,
        };
        if !ok {
            return fail(*what, format!("{e}\n gives {}\n not {want:?}", out.show()));
        }
    }
    Ok(())
}

fn value(v: &Val) -> V {
    match v {
        Val::Num(n) => V::i(*n),
        Val::Flo => V::Float(1.5),
        Val::Str(x) => V::s(x.clone()),
        Val::Sym(x) => sym(x),
        Val::Bool(b) => V::Bool(*b),
        Val::Null => V::Null,
        Val::Time => V::Time("2024-01-02T00:00:00+00:00".into()),
        Val::List(xs) => V::List(xs.iter().map(value).collect()),
        Val::Block(kvs) => V::Block(kvs.iter().map(|(k, v)| (sym(k), value(v))).collect()),
        _ => V::Null,
    }
}

/// The lines of `src` that the type checker warns about.
pub fn warned(src: &str) -> Result<BTreeMap<usize, Vec<String>>, String> {
    let d = Scratch(scratch());
    let p = d.0.join("t.eu");
    std::fs::write(&p, src).unwrap();
    let r = eucalypt::driver::check::type_check_path_full(&p);
    let starts: Vec<usize> = std::iter::once(0).chain(src.match_indices('\n').map(|(i, _)| i + 1)).collect();
    let mut out: BTreeMap<usize, Vec<String>> = BTreeMap::new();
    for w in &r.warnings {
        let diag = w.to_diagnostic(&r.source_map);
        let Some(l) = diag.labels.first() else {
            return Err(format!("warning without a place: {}", w.message));
        };
        let line = starts.partition_point(|s| *s <= l.range.start) - 1;
        out.entry(line).or_default().push(format!("{} (expected {:?}, found {:?})", w.message, w.expected, w.found));
    }
    Ok(out)
}

/// Whether the checker should accept a literal, knowing what it documents
/// it knows: blocks may have or lack fields, `[]` fits every list type, dates
/// have no static type, and `T?` means `T` or an error. `None` if that
/// depends on more than the literal.
pub fn accepts(t: &Ty, v: &Val) -> Option<bool> {
    fn all(xs: impl Iterator<Item = Option<bool>>) -> Option<bool> {
        xs.fold(Some(true), |a, b| match (a, b) {
            (Some(false), _) | (_, Some(false)) => Some(false),
            (None, _) | (_, None) => None,
            _ => Some(true),
        })
    }
    if matches!(t, Prim("any" | "top")) {
        return Some(true);
    }
    match (t, v) {
        (_, Val::Time) => Some(true),
        (Partial(x), v) => accepts(x, v),
        (Union(ts), v) => {
            let rs: Vec<_> = ts.iter().map(|t| accepts(t, v)).collect();
            if rs.contains(&Some(true)) {
                Some(true)
            } else if rs.contains(&None) {
                None
            } else {
                Some(false)
            }
        }
        (_, Val::Ty) => None,
        (Fn(..), Val::Fun) => None,
        (Prim(n), v) => Some(type_name(v) == *n),
        (Sym(x), v) => Some(matches!(v, Val::Sym(y) if x == y)),
        // braces make a string an interpolation or an anaphor
        (Str(_), Val::Str(y)) if y.contains(['{', '}']) => None,
        (Str(x), v) => Some(matches!(v, Val::Str(y) if x == y)),
        (List(_) | NonEmpty(_) | Prefix(..), Val::List(vs)) if vs.is_empty() => Some(true),
        (List(x) | NonEmpty(x), Val::List(vs)) => all(vs.iter().map(|v| accepts(x, v))),
        (Dict(x), Val::Block(kvs)) => all(kvs.iter().map(|(_, v)| accepts(x, v))),
        (Tuple(xs), Val::List(vs)) => Some(xs.len() == vs.len()).and_then(|b| if b { all(xs.iter().zip(vs).map(|(x, v)| accepts(x, v))) } else { Some(false) }),
        (Prefix(xs, t), Val::List(vs)) => {
            if vs.len() < xs.len() {
                return Some(false);
            }
            all(vs.iter().enumerate().map(|(i, v)| accepts(xs.get(i).unwrap_or(t), v)))
        }
        (Record(fs, ..), Val::Block(kvs)) => all(kvs.iter().filter_map(|(k, v)| fs.get(k).map(|(_, t)| accepts(t, v)))),
        _ => Some(false),
    }
}

/// Whether an argument meets a parameter's type: arguments are unified, so
/// only where that is no different from meeting an annotation.
fn meets(t: &Ty, v: &Val) -> Option<bool> {
    let plain = !any(t, &|t| matches!(t, Record(..) | Dict(_) | NonEmpty(_) | Prefix(..) | Partial(_) | Fn(..)));
    let simple = !val_any(v, &|v| matches!(v, Val::Block(_) | Val::Time | Val::Fun) || matches!(v, Val::List(vs) if vs.is_empty()));
    if plain && simple {
        accepts(t, v)
    } else {
        None
    }
}

/// A recursive alias, its text, and values of it but for some noise.
fn alias(s: &mut Src) -> (&'static str, fn(&Val) -> Option<bool>) {
    fn all<'a>(mut xs: impl Iterator<Item = &'a Val>, f: fn(&Val) -> Option<bool>) -> Option<bool> {
        xs.try_fold(true, |a, x| f(x).map(|b| a && b))
    }
    fn json(v: &Val) -> Option<bool> {
        match v {
            Val::List(xs) => all(xs.iter(), json),
            Val::Block(kvs) => all(kvs.iter().map(|(_, v)| v), json),
            Val::Num(_) | Val::Flo | Val::Time => Some(true),
            Val::Ty => None,
            _ => Some(false),
        }
    }
    fn tree(v: &Val) -> Option<bool> {
        match v {
            Val::Block(kvs) => all(kvs.iter().filter(|(k, _)| k == "a" || k == "b").map(|(_, v)| v), tree),
            Val::Sym(_) | Val::Time => Some(true),
            Val::Ty => None,
            _ => Some(false),
        }
    }
    fn nest(v: &Val) -> Option<bool> {
        match v {
            Val::List(xs) => all(xs.iter(), nest),
            Val::Str(_) | Val::Null | Val::Time => Some(true),
            Val::Ty => None,
            _ => Some(false),
        }
    }
    *s.pick(&[("number | [Al] | Dict(Al)", json as fn(&Val) -> Option<bool>), ("{a: Al, b?: Al} | symbol", tree), ("null | [Al] | string", nest)])
}

fn alias_val(s: &mut Src, d: usize) -> Val {
    if d > 0 && s.pct(65) {
        if s.bool() {
            return Val::List(s.vec(3, |s| alias_val(s, d - 1)));
        }
        let mut m = BTreeMap::new();
        for _ in 0..1 + s.below(3) {
            m.insert((*s.pick(&["a", "b", "c"])).to_string(), alias_val(s, d - 1));
        }
        return Val::Block(m.into_iter().collect());
    }
    match s.below(6) {
        0 => Val::Sym("x".into()),
        1 => Val::Str("x".into()),
        2 => Val::Null,
        3 => Val::Bool(true),
        _ => Val::Num(1),
    }
}

/// The checker on literals.
fn literals(s: &mut Src, ctx: &mut Ctx) -> Res {
    let cfg = Cfg { strings: true, poly: false, odd: false, never: false };
    let mut decls: Vec<String> = vec![];
    let mut exp = vec![];
    let mut al: Vec<String> = vec![];
    for i in 0..12 {
        let d = s.n(4);
        let t = norm(&ty(s, d, &cfg));
        let noise = Noise { pct: *s.pick(&[0, 5, 15, 30]), poison: false };
        let v = val(s, &t, 3, &noise);
        let tx = spelled(s, &t).replace('\n', " ");
        let lit = |tx: &str| match any(&t, &|t| matches!(t, Str(_))) {
            false => format!("s\"{tx}\""),
            true => format!("c\"{}\"", tx.replace('\\', "\\\\").replace('"', "\\\"").replace('{', "\\{").replace('}', "\\}")),
        };
        let vs = val_src(&v);
        // the annotation that is checked, and how the literal meets it
        let (form, text, want) = match s.below(9) {
            0..=2 => ("declared", format!("` {{ type: {} }} x{i}: {vs}", lit(&tx)), accepts(&t, &v)),
            3 => ("argument", format!("` {{ type: {} }} f{i}(p): 1\nx{i}: f{i}({vs})", lit(&format!("({tx}) → number"))), meets(&t, &v)),
            4 => ("pipeline", format!("` {{ type: {} }} f{i}(p, q): 1\nx{i}: {vs} f{i}(:k)", lit(&format!("symbol → ({tx}) → number"))), meets(&t, &v)),
            5 => ("result", format!("` {{ type: {} }} f{i}(p): {vs}", lit(&format!("any → ({tx})"))), accepts(&t, &v)),
            6 => {
                al.push(format!("Al{i}: {}", lit(&tx)));
                ("alias", format!("` {{ type: s\"[{{k: Al{i}}}]\" }} x{i}: [{{k: {vs}}}]"), accepts(&t, &v))
            }
            7 => ("field", format!("x{i}: {{ m: {{ ` {{ type: {} }} y: {vs} }} }}", lit(&tx)), accepts(&t, &v)),
            _ => {
                let (body, ok) = alias(s);
                let v = alias_val(s, 3);
                al.push(format!("Al{i}: s\"{}\"", body.replace("Al", &format!("Al{i}"))));
                ("recursive", format!("` {{ type: s\"Al{i}\" }} x{i}: {}", val_src(&v)), ok(&v))
            }
        };
        decls.push(text);
        exp.push((form, want));
    }
    let mut src = if al.is_empty() { String::new() } else { format!("{{ types: {{ {} }} }}\n", al.join(" ")) };
    let mut lines = vec![];
    let mut at = src.matches('\n').count();
    for d in &decls {
        let n = d.matches('\n').count() + 1;
        lines.push(at..at + n);
        at += n;
        src.push_str(d);
        src.push('\n');
    }
    ctx.case(src.clone());
    let w = match warned(&src) {
        Ok(w) => w,
        Err(e) => return fail("unplaced", format!("{e}\n{src}")),
    };
    for ((d, (form, want)), ls) in decls.iter().zip(&exp).zip(lines) {
        let got: Vec<&String> = ls.clone().filter_map(|l| w.get(&l)).flatten().collect();
        ctx.sub(d, want.is_some());
        if let Some(want) = want {
            ctx.label(format!("{form} {}", if *want { "fits" } else { "does not fit" }));
            if *want && !got.is_empty() {
                return fail(format!("false-warning-{form}"), format!("{d}\n the literal has the type, but: {got:?}\n{src}"));
            }
            if !*want && got.is_empty() {
                return fail(format!("unwarned-{form}"), format!("{d}\n the literal does not have the type, and the checker says nothing\n{src}"));
            }
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C18",
        facets: vec![
            Facet { name: "notation", rule: "types generated to depth 4, spelled with random spacing, parentheses and ASCII or Unicode forms; non-trivial: the type is compound", quick: 600, thorough: 8000, run: notation },
            Facet { name: "contract", rule: "specs to depth 4 and data that fits them but for some noise, validated, ensured and matched; non-trivial: the spec is compound", quick: 450, thorough: 6000, run: contract },
            Facet { name: "literals", rule: "annotated declarations, arguments, pipelines, results, fields and (recursive) aliases with literals that fit or not; non-trivial: the model says which", quick: 2500, thorough: 40000, run: literals },
        ],
        known: vec![],
        assumptions: vec!["blocks in source are open to the checker, dates and reflected types are not given a static type, and `T?` is statically T or an error but null or T to a contract"],
    }
}
