//! Typed random programs and a reference call-by-need interpreter for them.

use crate::engine::Src;
use crate::ev::V;
use crate::gen::{lit_str, lit_sym};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

// ---------------------------------------------------------------- syntax

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Int,
    Bool,
    Str,
    Sym,
    List(Box<Ty>),
    Rec(Vec<(String, Ty)>),
    Fun(Vec<Ty>, Box<Ty>),
}

#[derive(Clone, Debug)]
pub enum Pat {
    Var(String),
    List(Vec<String>),
    /// (field, bound name)
    Rec(Vec<(String, String)>),
    Cons(Vec<String>, String),
}

#[derive(Clone, Debug)]
pub struct Decl {
    pub name: String,
    pub meta: u8,
    pub params: Vec<Pat>,
    pub body: E,
}

#[derive(Clone, Debug)]
pub enum E {
    Int(i64),
    Bool(bool),
    Str(String),
    Sym(String),
    Var(String),
    Interp(Vec<(String, Option<String>)>),
    List(Vec<E>),
    Block(Vec<Decl>),
    Get(Box<E>, String),
    Gen(Box<E>, Box<E>),
    App(Box<E>, Vec<E>),
    /// `x f`
    Cat(Box<E>, Box<E>),
    Op(&'static str, Box<E>, Box<E>),
    /// `(op e)` sections
    Sec(&'static str, Box<E>),
    /// an operator as a function
    OpF(&'static str),
    Meta(Box<E>),
    /// `{ :let a: e b: f }.(body)`
    Let(Vec<(String, E)>, Box<E>),
    Fail,
}

fn tuple(es: &[E]) -> String {
    es.iter().map(show).collect::<Vec<_>>().join(", ")
}

fn show_pat(p: &Pat) -> String {
    match p {
        Pat::Var(v) => v.clone(),
        Pat::List(vs) => format!("[{}]", vs.join(", ")),
        Pat::Rec(fs) => {
            // the shorthand names come first, as in the documentation's mixed form
            let short = fs.iter().filter(|(f, v)| f == v).map(|(f, _)| f.clone());
            let long = fs.iter().filter(|(f, v)| f != v).map(|(f, v)| format!("{f}: {v}"));
            format!("{{{}}}", short.chain(long).collect::<Vec<_>>().join(" "))
        }
        Pat::Cons(hs, t) => format!("[{} : {t}]", hs.join(", ")),
    }
}

pub fn show_decl(d: &Decl, out: &mut String) {
    match d.meta {
        1 => out.push_str("` \"doc\"\n"),
        2 => out.push_str("` { doc: \"d\" note: 3 }\n"),
        _ => {}
    }
    out.push_str(&d.name);
    if !d.params.is_empty() {
        if d.params.len() == 1 && matches!(d.params[0], Pat::List(_) | Pat::Rec(_) | Pat::Cons(..)) && d.name.len() % 2 == 0 {
            out.push_str(&show_pat(&d.params[0]));
        } else {
            out.push('(');
            out.push_str(&d.params.iter().map(show_pat).collect::<Vec<_>>().join(", "));
            out.push(')');
        }
    }
    out.push_str(": ");
    out.push_str(&show(&d.body));
    out.push('\n');
}

/// An expression that can stand as an operand as it is.
fn atomic(e: &E) -> bool {
    matches!(
        e,
        E::Bool(_) | E::Str(_) | E::Sym(_) | E::Var(_) | E::Interp(_) | E::List(_) | E::Block(_) | E::Sec(..)
    ) || matches!(e, E::Int(n) if *n >= 0)
}

fn sub(e: &E) -> String {
    if let E::OpF(o) = e {
        // a bare operator stands only where a whole expression can
        format!("({{ zf: ({o}) }}.zf)")
    } else if atomic(e) {
        show(e)
    } else {
        format!("({})", show(e))
    }
}

pub fn show(e: &E) -> String {
    match e {
        E::Int(n) => n.to_string(),
        E::Bool(b) => b.to_string(),
        E::Str(s) => lit_str(s),
        E::Sym(s) => lit_sym(s),
        E::Var(v) => v.clone(),
        E::Interp(ps) => {
            let mut o = String::from("\"");
            for (l, v) in ps {
                o.push_str(l);
                if let Some(v) = v {
                    o.push_str(&format!("{{{v}}}"));
                }
            }
            o.push('"');
            o
        }
        E::List(es) => format!("[{}]", tuple(es)),
        E::Block(ds) => {
            let mut o = String::from("{\n");
            for d in ds {
                show_decl(d, &mut o);
            }
            o.push('}');
            o
        }
        E::Get(b, k) => format!("{}.{k}", sub(b)),
        E::Gen(b, x) => format!("{}.({})", sub(b), show(x)),
        E::App(f, es) => match &**f {
            E::Var(v) => format!("{v}({})", tuple(es)),
            // a section is not called directly where it is written
            E::Sec(..) | E::OpF(_) => format!("({{ zf: {} }}.zf)({})", show(f), tuple(es)),
            f => format!("({})({})", show(f), tuple(es)),
        },
        E::Cat(x, f) => match &**f {
            E::App(g, es) if matches!(**g, E::Var(_)) => format!("{} {}({})", sub(x), sub(g), tuple(es)),
            f => format!("{} {}", sub(x), sub(f)),
        },
        E::Op(o, a, b) => format!("{} {o} {}", sub(a), sub(b)),
        E::Sec(o, a) => format!("({o} {})", sub(a)),
        E::OpF(o) => format!("({o})"),
        E::Meta(x) => format!("{} // {{ note: 1 }}", sub(x)),
        E::Let(bs, x) => {
            let mut o = String::from("{ :let");
            for (n, b) in bs {
                o.push_str(&format!(" {n}: {}", show(b)));
            }
            o.push_str(&format!(" }}.({})", show(x)));
            o
        }
        E::Fail => "panic(\"zz\")".into(),
    }
}

// ---------------------------------------------------------------- reference interpreter

#[derive(Clone, Debug, PartialEq)]
pub enum RErr {
    /// the program fails
    Fail,
    /// the documentation leaves the result open, or the reference gave up
    Open(&'static str),
}
type R<T> = Result<T, RErr>;

pub type Th = Rc<Thunk>;
pub enum St {
    Delay(Env, Rc<E>),
    Call(Val, Vec<Th>),
    Busy,
    Done(Val),
    Bad(RErr),
}
pub struct Thunk(RefCell<St>);

pub struct Frame {
    names: RefCell<Vec<(String, Th)>>,
    up: Option<Env>,
}
pub type Env = Rc<Frame>;

#[derive(Clone)]
pub enum Val {
    Int(i64),
    Bool(bool),
    Str(String),
    Sym(String),
    Nil,
    Cons(Th, Th),
    Block(Rc<Vec<(String, Th)>>),
    Clo(Rc<Clo>, Rc<Vec<Th>>),
    Prim(&'static str, usize, Rc<Vec<Th>>),
}
pub struct Clo {
    env: Env,
    params: Vec<Pat>,
    body: Rc<E>,
}

thread_local! {
    static FUEL: Cell<u64> = const { Cell::new(0) };
    static DEPTH: Cell<u32> = const { Cell::new(0) };
}

fn th(v: Val) -> Th {
    Rc::new(Thunk(RefCell::new(St::Done(v))))
}
fn delay(env: &Env, e: &E) -> Th {
    Rc::new(Thunk(RefCell::new(St::Delay(env.clone(), Rc::new(e.clone())))))
}
fn call_later(f: Val, args: Vec<Th>) -> Th {
    Rc::new(Thunk(RefCell::new(St::Call(f, args))))
}

pub fn force(t: &Th) -> R<Val> {
    let st = std::mem::replace(&mut *t.0.borrow_mut(), St::Busy);
    let r = match st {
        St::Done(v) => Ok(v),
        St::Bad(e) => Err(e),
        St::Busy => Err(RErr::Open("loop")),
        St::Delay(env, e) => eval(&env, &e),
        St::Call(f, args) => apply(f, args),
    };
    *t.0.borrow_mut() = match &r {
        Ok(v) => St::Done(v.clone()),
        Err(e) => St::Bad(e.clone()),
    };
    r
}

fn lookup(env: &Env, n: &str) -> Option<Th> {
    let mut cur = Some(env.clone());
    while let Some(f) = cur {
        if let Some((_, t)) = f.names.borrow().iter().rev().find(|(k, _)| k == n) {
            return Some(t.clone());
        }
        cur = f.up.clone();
    }
    None
}

fn push(env: &Env, names: Vec<(String, Th)>) -> Env {
    Rc::new(Frame { names: RefCell::new(names), up: Some(env.clone()) })
}

pub const PRIMS: &[(&str, usize)] = &[
    ("cons", 2), ("head", 1), ("tail", 1), ("nil?", 1), ("count", 1), ("map", 2), ("filter", 2), ("foldl", 3), ("foldr", 3), ("take", 2),
    ("drop", 2), ("append", 2), ("reverse", 1), ("first", 1), ("second", 1), ("const", 2), ("identity", 1), ("compose", 3), ("flip", 3),
    ("if", 3), ("then", 3), ("and", 2), ("or", 2), ("not", 1), ("lookup", 2), ("lookup-or", 3), ("merge", 2), ("values", 1), ("all-true?", 1),
    ("any-true?", 1), ("zip-with", 3), ("range", 2), ("inc", 1), ("dec", 1), ("concat", 1), ("mapcat", 2), ("all", 2), ("any", 2), ("nth", 2),
    ("elements", 1), ("has", 2), ("take-while", 2), ("zero?", 1), ("pos?", 1), ("str.of", 1), ("sym", 1), ("max", 2), ("min", 2), ("negate", 1), ("last", 1),
];

fn prim_arity(n: &str) -> Option<(&'static str, usize)> {
    PRIMS.iter().find(|(k, _)| *k == n).map(|(k, a)| (*k, *a))
}

pub fn eval(env: &Env, e: &E) -> R<Val> {
    let d = DEPTH.with(|d| {
        d.set(d.get() + 1);
        d.get()
    });
    let left = FUEL.with(|f| {
        let v = f.get();
        f.set(v.saturating_sub(1));
        v
    });
    let r = if left == 0 || d > 1500 { Err(RErr::Open("fuel")) } else { eval_(env, e) };
    DEPTH.with(|d| d.set(d.get() - 1));
    r
}

fn block_env(env: &Env, ds: &[Decl]) -> (Env, Vec<(String, Th)>) {
    let fr = push(env, vec![]);
    let mut kv: Vec<(String, Th)> = vec![];
    for d in ds {
        let t = if d.params.is_empty() {
            delay(&fr, &d.body)
        } else {
            th(Val::Clo(Rc::new(Clo { env: fr.clone(), params: d.params.clone(), body: Rc::new(d.body.clone()) }), Rc::new(vec![])))
        };
        kv.push((d.name.clone(), t));
    }
    *fr.names.borrow_mut() = kv.clone();
    (fr, kv)
}

fn eval_(env: &Env, e: &E) -> R<Val> {
    Ok(match e {
        E::Int(n) => Val::Int(*n),
        E::Bool(b) => Val::Bool(*b),
        E::Str(s) => Val::Str(s.clone()),
        E::Sym(s) => Val::Sym(s.clone()),
        E::Fail => return Err(RErr::Fail),
        E::Var(v) => {
            if let Some(t) = lookup(env, v) {
                return force(&t);
            }
            match prim_arity(v) {
                Some((n, a)) => Val::Prim(n, a, Rc::new(vec![])),
                None => return Err(RErr::Open("unbound")),
            }
        }
        E::Interp(ps) => {
            let mut o = String::new();
            for (l, v) in ps {
                o.push_str(l);
                if let Some(v) = v {
                    o.push_str(&text(&eval(env, &E::Var(v.clone()))?)?);
                }
            }
            Val::Str(o)
        }
        E::List(es) => {
            let mut l = Val::Nil;
            for x in es.iter().rev() {
                l = Val::Cons(delay(env, x), th(l));
            }
            l
        }
        E::Block(ds) => Val::Block(Rc::new(block_env(env, ds).1)),
        E::Get(b, k) => {
            let Val::Block(kv) = eval(env, b)? else { return Err(RErr::Open("get")) };
            match kv.iter().find(|(n, _)| n == k) {
                Some((_, t)) => return force(t),
                None => return Err(RErr::Fail),
            }
        }
        E::Gen(b, x) => {
            if let E::Block(ds) = &**b {
                let (fr, _) = block_env(env, ds);
                return eval(&fr, x);
            }
            let Val::Block(kv) = eval(env, b)? else { return Err(RErr::Open("gen")) };
            let fr = push(env, kv.to_vec());
            return eval(&fr, x);
        }
        E::App(f, es) => {
            let fv = eval(env, f)?;
            return apply(fv, es.iter().map(|x| delay(env, x)).collect());
        }
        E::Cat(x, f) => {
            let fv = eval(env, f)?;
            return apply(fv, vec![delay(env, x)]);
        }
        E::Op(o, a, b) => return op(o, &delay(env, a), &delay(env, b)),
        E::Sec(o, a) => {
            // (o a): a function of the missing left operand
            return Ok(Val::Clo(
                Rc::new(Clo {
                    env: push(env, vec![("zz-r".into(), delay(env, a))]),
                    params: vec![Pat::Var("zz-l".into())],
                    body: Rc::new(E::Op(o, Box::new(E::Var("zz-l".into())), Box::new(E::Var("zz-r".into())))),
                }),
                Rc::new(vec![]),
            ));
        }
        E::OpF(o) => {
            return Ok(Val::Clo(
                Rc::new(Clo {
                    env: env.clone(),
                    params: vec![Pat::Var("zz-l".into()), Pat::Var("zz-r".into())],
                    body: Rc::new(E::Op(o, Box::new(E::Var("zz-l".into())), Box::new(E::Var("zz-r".into())))),
                }),
                Rc::new(vec![]),
            ))
        }
        E::Meta(x) => return eval(env, x),
        E::Let(bs, x) => {
            let mut cur = env.clone();
            for (n, b) in bs {
                cur = push(&cur, vec![(n.clone(), delay(&cur, b))]);
            }
            return eval(&cur, x);
        }
    })
}

fn text(v: &Val) -> R<String> {
    Ok(match v {
        Val::Int(n) => n.to_string(),
        Val::Str(s) => s.clone(),
        Val::Sym(s) => s.clone(),
        Val::Bool(b) => b.to_string(),
        _ => return Err(RErr::Open("text")),
    })
}

pub fn apply(f: Val, args: Vec<Th>) -> R<Val> {
    match f {
        Val::Clo(c, prev) => {
            let mut all: Vec<Th> = prev.to_vec();
            all.extend(args);
            let n = c.params.len();
            if all.len() < n {
                return Ok(Val::Clo(c, Rc::new(all)));
            }
            let rest = all.split_off(n);
            let mut names = vec![];
            for (p, a) in c.params.iter().zip(&all) {
                bind(p, a, &mut names)?;
            }
            let v = eval(&push(&c.env, names), &c.body)?;
            if rest.is_empty() {
                Ok(v)
            } else {
                apply(v, rest)
            }
        }
        Val::Prim(n, ar, prev) => {
            let mut all: Vec<Th> = prev.to_vec();
            all.extend(args);
            if all.len() < ar {
                return Ok(Val::Prim(n, ar, Rc::new(all)));
            }
            let rest = all.split_off(ar);
            let v = prim(n, &all)?;
            if rest.is_empty() {
                Ok(v)
            } else {
                apply(v, rest)
            }
        }
        _ => Err(RErr::Open("apply")),
    }
}

/// How eagerly a pattern looks at its argument is left open, so the argument
/// has to be of the right shape.
fn bind(p: &Pat, a: &Th, out: &mut Vec<(String, Th)>) -> R<()> {
    let shape = |r: R<Val>| r.map_err(|_| RErr::Open("pattern"));
    match p {
        Pat::Var(v) => out.push((v.clone(), a.clone())),
        Pat::List(vs) => {
            let xs = items(a).map_err(|_| RErr::Open("pattern"))?;
            if xs.len() != vs.len() {
                return Err(RErr::Open("pattern"));
            }
            out.extend(vs.iter().cloned().zip(xs));
        }
        Pat::Rec(fs) => {
            let Val::Block(kv) = shape(force(a))? else { return Err(RErr::Open("pattern")) };
            for (f, v) in fs {
                match kv.iter().find(|(n, _)| n == f) {
                    Some((_, t)) => out.push((v.clone(), t.clone())),
                    None => return Err(RErr::Open("pattern")),
                }
            }
        }
        Pat::Cons(hs, t) => {
            let mut cur = a.clone();
            for h in hs {
                match shape(force(&cur))? {
                    Val::Cons(x, r) => {
                        out.push((h.clone(), x));
                        cur = r;
                    }
                    _ => return Err(RErr::Open("pattern")),
                }
            }
            shape(force(&cur))?;
            out.push((t.clone(), cur));
        }
    }
    Ok(())
}

fn items(l: &Th) -> R<Vec<Th>> {
    let mut out = vec![];
    let mut cur = l.clone();
    loop {
        match force(&cur)? {
            Val::Nil => return Ok(out),
            Val::Cons(h, t) => {
                out.push(h);
                cur = t;
            }
            _ => return Err(RErr::Open("list")),
        }
        if out.len() > 3000 {
            return Err(RErr::Open("long"));
        }
    }
}

fn int(t: &Th) -> R<i64> {
    match force(t)? {
        Val::Int(n) => Ok(n),
        _ => Err(RErr::Open("int")),
    }
}
fn boolean(t: &Th) -> R<bool> {
    match force(t)? {
        Val::Bool(b) => Ok(b),
        _ => Err(RErr::Open("bool")),
    }
}
fn list(ts: Vec<Th>) -> Val {
    let mut l = Val::Nil;
    for t in ts.into_iter().rev() {
        l = Val::Cons(t, th(l));
    }
    l
}

/// Structural equality forces both sides; when that meets a failure the
/// result is left open.
fn same(a: &Val, b: &Val) -> R<bool> {
    Ok(match (a, b) {
        (Val::Int(x), Val::Int(y)) => x == y,
        (Val::Bool(x), Val::Bool(y)) => x == y,
        (Val::Str(x), Val::Str(y)) => x == y,
        (Val::Sym(x), Val::Sym(y)) => x == y,
        (Val::Nil, Val::Nil) => true,
        (Val::Nil, Val::Cons(..)) | (Val::Cons(..), Val::Nil) => false,
        (Val::Cons(h, t), Val::Cons(h2, t2)) => {
            let e = same(&force(h)?, &force(h2)?)?;
            let f = same(&force(t)?, &force(t2)?)?;
            e && f
        }
        _ => return Err(RErr::Open("eq")),
    })
}

fn op(o: &str, a: &Th, b: &Th) -> R<Val> {
    let chk = |x: Option<i64>| x.filter(|n| n.abs() < 1 << 60).map(Val::Int).ok_or(RErr::Open("big"));
    Ok(match o {
        "+" => chk(int(a)?.checked_add(int(b)?))?,
        "-" => chk(int(a)?.checked_sub(int(b)?))?,
        "*" => chk(int(a)?.checked_mul(int(b)?))?,
        "<" => Val::Bool(int(a)? < int(b)?),
        ">" => Val::Bool(int(a)? > int(b)?),
        "<=" => Val::Bool(int(a)? <= int(b)?),
        ">=" => Val::Bool(int(a)? >= int(b)?),
        "=" | "!=" => {
            let (x, y) = match (force(a), force(b)) {
                (Ok(x), Ok(y)) => (x, y),
                (Err(RErr::Open(w)), _) | (_, Err(RErr::Open(w))) => return Err(RErr::Open(w)),
                _ => return Err(RErr::Fail),
            };
            let e = same(&x, &y).map_err(|_| RErr::Open("eq"))?;
            Val::Bool(e == (o == "="))
        }
        "∧" | "&&" => {
            if boolean(a)? {
                Val::Bool(boolean(b)?)
            } else {
                Val::Bool(false)
            }
        }
        "∨" | "||" => {
            if boolean(a)? {
                Val::Bool(true)
            } else {
                Val::Bool(boolean(b)?)
            }
        }
        "++" => return prim("append", &[a.clone(), b.clone()]),
        "∘" => {
            // (f ∘ g)(x) = f(g(x))
            Val::Prim("compose", 3, Rc::new(vec![a.clone(), b.clone()]))
        }
        ";" => Val::Prim("compose", 3, Rc::new(vec![b.clone(), a.clone()])),
        _ => return Err(RErr::Open("op")),
    })
}

fn fv(f: &Th) -> R<Val> {
    force(f)
}

fn prim(n: &'static str, a: &[Th]) -> R<Val> {
    let left = FUEL.with(|f| {
        let v = f.get();
        f.set(v.saturating_sub(1));
        v
    });
    let d = DEPTH.with(|d| {
        d.set(d.get() + 1);
        d.get()
    });
    let r = if left == 0 || d > 1500 { Err(RErr::Open("fuel")) } else { prim_(n, a) };
    DEPTH.with(|d| d.set(d.get() - 1));
    r
}

fn later(n: &'static str, args: Vec<Th>) -> Th {
    call_later(Val::Prim(n, args.len(), Rc::new(vec![])), args)
}

fn prim_(n: &'static str, a: &[Th]) -> R<Val> {
    Ok(match n {
        "cons" => Val::Cons(a[0].clone(), a[1].clone()),
        "head" | "first" => match force(&a[0])? {
            Val::Cons(h, _) => return force(&h),
            Val::Nil => return Err(RErr::Fail),
            _ => return Err(RErr::Open("head")),
        },
        "tail" => match force(&a[0])? {
            Val::Cons(_, t) => return force(&t),
            Val::Nil => return Err(RErr::Fail),
            _ => return Err(RErr::Open("tail")),
        },
        "second" => match force(&a[0])? {
            Val::Cons(_, t) => match force(&t)? {
                Val::Cons(h, _) => return force(&h),
                _ => return Err(RErr::Fail),
            },
            _ => return Err(RErr::Fail),
        },
        "last" => {
            let xs = items(&a[0])?;
            match xs.last() {
                Some(x) => return force(x),
                None => return Err(RErr::Fail),
            }
        }
        "nil?" => Val::Bool(matches!(force(&a[0])?, Val::Nil)),
        "count" => Val::Int(items(&a[0])?.len() as i64),
        "map" => match force(&a[1])? {
            Val::Nil => Val::Nil,
            Val::Cons(h, t) => Val::Cons(
                {
                    let f = a[0].clone();
                    call_later(Val::Prim("zz-call", 2, Rc::new(vec![])), vec![f, h])
                },
                later("map", vec![a[0].clone(), t]),
            ),
            _ => return Err(RErr::Open("map")),
        },
        "zz-call" => {
            let f = fv(&a[0])?;
            return apply(f, a[1..].to_vec());
        }
        "zz-call3" => {
            let f = fv(&a[0])?;
            return apply(f, a[1..].to_vec());
        }
        "filter" => {
            let mut cur = a[1].clone();
            loop {
                match force(&cur)? {
                    Val::Nil => return Ok(Val::Nil),
                    Val::Cons(h, t) => {
                        let keep = match apply(fv(&a[0])?, vec![h.clone()])? {
                            Val::Bool(b) => b,
                            _ => return Err(RErr::Open("filter")),
                        };
                        if keep {
                            return Ok(Val::Cons(h, later("filter", vec![a[0].clone(), t])));
                        }
                        cur = t;
                    }
                    _ => return Err(RErr::Open("filter")),
                }
            }
        }
        "take-while" => match force(&a[1])? {
            Val::Nil => Val::Nil,
            Val::Cons(h, t) => match apply(fv(&a[0])?, vec![h.clone()])? {
                Val::Bool(true) => Val::Cons(h, later("take-while", vec![a[0].clone(), t])),
                Val::Bool(false) => Val::Nil,
                _ => return Err(RErr::Open("take-while")),
            },
            _ => return Err(RErr::Open("take-while")),
        },
        "foldl" => {
            // whether the accumulator is evaluated on the way is left open
            let mut acc = a[1].clone();
            force(&acc).map_err(|_| RErr::Open("foldl"))?;
            for x in items(&a[2])? {
                acc = call_later(fv(&a[0])?, vec![acc, x]);
                force(&acc).map_err(|e| if e == RErr::Fail { RErr::Open("foldl") } else { e })?;
            }
            return force(&acc);
        }
        "foldr" => {
            // f(x, foldr(f, z, rest))
            match force(&a[2])? {
                Val::Nil => return force(&a[1]),
                Val::Cons(h, t) => return apply(fv(&a[0])?, vec![h, later("foldr", vec![a[0].clone(), a[1].clone(), t])]),
                _ => return Err(RErr::Open("foldr")),
            }
        }
        "take" => {
            let k = int(&a[0])?;
            if k < 0 {
                return Err(RErr::Open("take"));
            }
            if k == 0 {
                return Ok(Val::Nil);
            }
            match force(&a[1])? {
                Val::Nil => Val::Nil,
                Val::Cons(h, t) => Val::Cons(h, later("take", vec![th(Val::Int(k - 1)), t])),
                _ => return Err(RErr::Open("take")),
            }
        }
        "drop" => {
            let mut k = int(&a[0])?;
            if k < 0 {
                return Err(RErr::Open("drop"));
            }
            let mut cur = a[1].clone();
            while k > 0 {
                match force(&cur)? {
                    Val::Cons(_, t) => cur = t,
                    _ => return Err(RErr::Open("drop")),
                }
                k -= 1;
            }
            return force(&cur);
        }
        "append" => match force(&a[0])? {
            Val::Nil => return force(&a[1]),
            Val::Cons(h, t) => Val::Cons(h, later("append", vec![t, a[1].clone()])),
            _ => return Err(RErr::Open("append")),
        },
        "concat" => {
            let ls = items(&a[0])?;
            let mut acc = th(Val::Nil);
            for l in ls.into_iter().rev() {
                acc = later("append", vec![l, acc]);
            }
            return force(&acc);
        }
        "mapcat" => return prim("concat", &[later("map", vec![a[0].clone(), a[1].clone()])]),
        "reverse" => {
            let mut xs = items(&a[0])?;
            xs.reverse();
            list(xs)
        }
        "const" => return force(&a[0]),
        "identity" => return force(&a[0]),
        "compose" => {
            // compose(f, g, x) = f(g(x))
            let f = fv(&a[0])?;
            return apply(f, vec![call_later(Val::Prim("zz-call", 2, Rc::new(vec![])), vec![a[1].clone(), a[2].clone()])]);
        }
        "flip" => return apply(fv(&a[0])?, vec![a[2].clone(), a[1].clone()]),
        "if" => return if boolean(&a[0])? { force(&a[1]) } else { force(&a[2]) },
        "then" => return if boolean(&a[2])? { force(&a[0]) } else { force(&a[1]) },
        "and" => return op("∧", &a[0], &a[1]),
        "or" => return op("∨", &a[0], &a[1]),
        "not" => Val::Bool(!boolean(&a[0])?),
        "lookup" => {
            let Val::Sym(k) = force(&a[0])? else { return Err(RErr::Open("lookup")) };
            let Val::Block(kv) = force(&a[1])? else { return Err(RErr::Open("lookup")) };
            match kv.iter().find(|(n, _)| *n == k) {
                Some((_, t)) => return force(t),
                None => return Err(RErr::Fail),
            }
        }
        "lookup-or" => {
            let Val::Sym(k) = force(&a[0])? else { return Err(RErr::Open("lookup")) };
            let Val::Block(kv) = force(&a[2])? else { return Err(RErr::Open("lookup")) };
            match kv.iter().find(|(n, _)| *n == k) {
                Some((_, t)) => return force(t),
                None => return force(&a[1]),
            }
        }
        "has" => {
            let Val::Sym(k) = force(&a[0])? else { return Err(RErr::Open("has")) };
            let Val::Block(kv) = force(&a[1])? else { return Err(RErr::Open("has")) };
            Val::Bool(kv.iter().any(|(n, _)| *n == k))
        }
        "merge" => {
            let Val::Block(l) = force(&a[0])? else { return Err(RErr::Open("merge")) };
            let Val::Block(r) = force(&a[1])? else { return Err(RErr::Open("merge")) };
            let mut out = l.to_vec();
            for (k, t) in r.iter() {
                match out.iter_mut().find(|(n, _)| n == k) {
                    Some((_, s)) => *s = t.clone(),
                    None => out.push((k.clone(), t.clone())),
                }
            }
            Val::Block(Rc::new(out))
        }
        "values" => {
            let Val::Block(b) = force(&a[0])? else { return Err(RErr::Open("values")) };
            list(b.iter().map(|(_, t)| t.clone()).collect())
        }
        "elements" => {
            let Val::Block(b) = force(&a[0])? else { return Err(RErr::Open("elements")) };
            list(b.iter().map(|(k, t)| th(list(vec![th(Val::Sym(k.clone())), t.clone()]))).collect())
        }
        "all-true?" => {
            let mut r = true;
            for x in items(&a[0])? {
                // where the test stops is left open
                r &= boolean(&x).map_err(|_| RErr::Open("all"))?;
            }
            Val::Bool(r)
        }
        "any-true?" => {
            let mut r = false;
            for x in items(&a[0])? {
                r |= boolean(&x).map_err(|_| RErr::Open("any"))?;
            }
            Val::Bool(r)
        }
        "all" => return prim("all-true?", &[later("map", vec![a[0].clone(), a[1].clone()])]),
        "any" => return prim("any-true?", &[later("map", vec![a[0].clone(), a[1].clone()])]),
        "zip-with" => match (force(&a[1])?, force(&a[2]).map_err(|e| if e == RErr::Fail { RErr::Open("zip") } else { e })?) {
            (Val::Cons(h, t), Val::Cons(h2, t2)) => Val::Cons(
                call_later(Val::Prim("zz-call3", 3, Rc::new(vec![])), vec![a[0].clone(), h, h2]),
                later("zip-with", vec![a[0].clone(), t, t2]),
            ),
            (Val::Nil, _) | (_, Val::Nil) => Val::Nil,
            _ => return Err(RErr::Open("zip")),
        },
        "range" => {
            let (lo, hi) = (int(&a[0])?, int(&a[1])?);
            if hi - lo > 400 || hi < lo {
                return Err(RErr::Open("range"));
            }
            list((lo..hi.max(lo)).map(|n| th(Val::Int(n))).collect())
        }
        "inc" => return op("+", &a[0], &th(Val::Int(1))),
        "dec" => return op("-", &a[0], &th(Val::Int(1))),
        "negate" => return op("-", &th(Val::Int(0)), &a[0]),
        "zero?" => Val::Bool(int(&a[0])? == 0),
        "pos?" => Val::Bool(int(&a[0])? > 0),
        "max" => {
            let (x, y) = (int(&a[0])?, int(&a[1])?);
            Val::Int(x.max(y))
        }
        "min" => {
            let (x, y) = (int(&a[0])?, int(&a[1])?);
            Val::Int(x.min(y))
        }
        "nth" => {
            let k = int(&a[0])?;
            if k < 0 {
                return Err(RErr::Open("nth"));
            }
            let mut cur = a[1].clone();
            for _ in 0..k {
                match force(&cur)? {
                    Val::Cons(_, t) => cur = t,
                    _ => return Err(RErr::Fail),
                }
            }
            match force(&cur)? {
                Val::Cons(h, _) => return force(&h),
                _ => return Err(RErr::Fail),
            }
        }
        "str.of" => Val::Str(text(&force(&a[0])?)?),
        "sym" => match force(&a[0])? {
            Val::Str(s) => Val::Sym(s),
            _ => return Err(RErr::Open("sym")),
        },
        _ => return Err(RErr::Open("prim")),
    })
}

/// Force a value for output. None for functions, which are not rendered.
fn deep(v: &Val) -> R<Option<V>> {
    Ok(Some(match v {
        Val::Int(n) => V::i(*n),
        Val::Bool(b) => V::Bool(*b),
        Val::Str(s) => V::s(s.clone()),
        Val::Sym(s) => V::Sym(s.clone()),
        Val::Nil => V::List(vec![]),
        Val::Cons(..) => {
            let mut out = vec![];
            for t in items(&th(v.clone()))? {
                match deep(&force(&t)?)? {
                    Some(x) => out.push(x),
                    None => return Err(RErr::Open("function in list")),
                }
            }
            V::List(out)
        }
        Val::Block(kv) => {
            let mut out = vec![];
            for (k, t) in kv.iter() {
                if let Some(x) = deep(&force(t)?)? {
                    out.push((V::s(k.clone()), x));
                }
            }
            V::Block(out)
        }
        Val::Clo(..) | Val::Prim(..) => return Ok(None),
    }))
}

/// What a program (a list of top-level declarations) renders as. With
/// `main` only that declaration is rendered.
pub fn reference(ds: &[Decl], main: Option<&str>) -> R<V> {
    FUEL.with(|f| f.set(60_000));
    DEPTH.with(|d| d.set(0));
    let root: Env = Rc::new(Frame { names: RefCell::new(vec![]), up: None });
    let (fr, kv) = block_env(&root, ds);
    let v = match main {
        Some(m) => eval(&fr, &E::Var(m.into()))?,
        None => Val::Block(Rc::new(kv)),
    };
    let r = deep(&v)?.ok_or(RErr::Open("function"));
    r
}

// ---------------------------------------------------------------- generation

#[derive(Clone)]
struct Bound {
    name: String,
    ty: Option<Ty>,
}

pub struct G<'a> {
    pub s: &'a mut Src,
    scope: Vec<Bound>,
    /// remaining expression nodes
    size: i64,
    /// how often a failing expression is put where it may not be needed
    pub fail_pct: u64,
    pub names: &'static [&'static str],
    dead: u32,
    /// inside the operand of a section, where another section would share its hole
    in_sec: u32,
}

const NAMES: &[&str] = &["a", "b", "c", "d", "e", "f", "g", "h", "p", "q", "x", "y", "z", "aa", "bb", "k-1", "go", "acc"];
const FIELDS: &[&str] = &["a", "b", "c", "x", "y", "z", "k", "v", "name", "val"];
const TEXTS: &[&str] = &["", "a", "b", "foo", "bar baz", "é", "1", "{q}"];

impl<'a> G<'a> {
    pub fn new(s: &'a mut Src, size: i64, fail_pct: u64) -> Self {
        G { s, scope: vec![], size, fail_pct, names: NAMES, dead: 0, in_sec: 0 }
    }

    fn ty(&mut self, depth: u32) -> Ty {
        let w: &[u32] = if depth == 0 { &[6, 3, 2, 1] } else { &[6, 3, 2, 1, 4, 3, 2] };
        match self.s.weighted(w) {
            0 => Ty::Int,
            1 => Ty::Bool,
            2 => Ty::Str,
            3 => Ty::Sym,
            4 => Ty::List(Box::new(self.ty(depth - 1))),
            5 => {
                let mut ks: Vec<String> = vec![];
                for _ in 0..1 + self.s.n(3) {
                    let k = self.s.pick(FIELDS).to_string();
                    if !ks.contains(&k) {
                        ks.push(k);
                    }
                }
                Ty::Rec(ks.into_iter().map(|k| (k, self.ty(depth - 1))).collect())
            }
            _ => {
                let n = 1 + self.s.n(3);
                Ty::Fun((0..n).map(|_| self.ty(depth - 1)).collect(), Box::new(self.ty(depth - 1)))
            }
        }
    }

    /// Types of values that have a rendering.
    fn data_ty(&mut self, depth: u32) -> Ty {
        loop {
            let t = self.ty(depth);
            if renderable(&t) {
                return t;
            }
        }
    }

    fn visible(&self) -> Vec<(String, Ty)> {
        let mut seen: Vec<&str> = vec![];
        let mut out = vec![];
        for b in self.scope.iter().rev() {
            if seen.contains(&b.name.as_str()) {
                continue;
            }
            seen.push(&b.name);
            if let Some(t) = &b.ty {
                out.push((b.name.clone(), t.clone()));
            }
        }
        out
    }

    fn shadowed(&self, n: &str) -> bool {
        self.scope.iter().any(|b| b.name == n)
    }

    /// The name of a prelude function, unless it is hidden by a local.
    fn p(&self, n: &str) -> E {
        E::Var(n.into())
    }

    fn fresh(&mut self, taken: &[String]) -> String {
        for _ in 0..20 {
            let n = self.s.pick(self.names).to_string();
            if !taken.contains(&n) {
                return n;
            }
        }
        let mut i = 0;
        loop {
            let n = format!("v{i}");
            if !taken.contains(&n) {
                return n;
            }
            i += 1;
        }
    }

    /// An expression that may not be needed.
    fn spare(&mut self, t: &Ty) -> E {
        if self.s.pct(self.fail_pct) {
            self.dead += 1;
            return E::Fail;
        }
        self.expr(t)
    }

    fn leaf(&mut self, t: &Ty) -> E {
        match t {
            Ty::Int => E::Int(self.s.range(-3, 12)),
            Ty::Bool => E::Bool(self.s.bool()),
            Ty::Str => E::Str(self.s.pick(TEXTS).to_string()),
            Ty::Sym => E::Sym(self.s.pick(FIELDS).to_string()),
            Ty::List(e) => {
                let n = self.s.n(3);
                E::List((0..n).map(|_| self.leaf(e)).collect())
            }
            Ty::Rec(fs) => E::Block(
                fs.iter()
                    .map(|(k, t)| match t {
                        Ty::Fun(ps, r) => Decl {
                            name: k.clone(),
                            meta: 0,
                            params: (0..ps.len()).map(|i| Pat::Var(format!("w{i}"))).collect(),
                            body: self.leaf(r),
                        },
                        t => Decl { name: k.clone(), meta: 0, params: vec![], body: self.leaf(t) },
                    })
                    .collect(),
            ),
            Ty::Fun(ps, r) => {
                // a literal function by way of a block
                let d = Decl {
                    name: "w".into(),
                    meta: 0,
                    params: (0..ps.len()).map(|i| Pat::Var(format!("w{i}"))).collect(),
                    body: self.leaf(r),
                };
                E::Get(Box::new(E::Block(vec![d])), "w".into())
            }
        }
    }

    /// Paths from something in scope to a value of the type.
    fn from_scope(&mut self, t: &Ty) -> Option<E> {
        let vis = self.visible();
        let mut c: Vec<E> = vec![];
        for (n, vt) in &vis {
            let v = E::Var(n.clone());
            if vt == t {
                c.push(v.clone());
                c.push(v.clone());
            }
            if let Ty::Rec(fs) = vt {
                for (k, ft) in fs {
                    if ft == t {
                        c.push(E::Get(Box::new(v.clone()), k.clone()));
                    }
                }
            }
        }
        if c.is_empty() {
            None
        } else {
            Some(self.s.pick(&c).clone())
        }
    }

    /// Call something in scope that gives the type, in full or in part.
    fn call_scope(&mut self, t: &Ty) -> Option<E> {
        let vis = self.visible();
        let mut c: Vec<(E, Vec<Ty>)> = vec![];
        for (n, vt) in &vis {
            let v = E::Var(n.clone());
            collect_calls(&v, vt, t, &mut c);
            if let Ty::Rec(fs) = vt {
                for (k, ft) in fs {
                    collect_calls(&E::Get(Box::new(v.clone()), k.clone()), ft, t, &mut c);
                }
            }
        }
        if c.is_empty() {
            return None;
        }
        let (f, ps) = self.s.pick(&c).clone();
        let args: Vec<E> = ps.iter().map(|p| self.arg(p)).collect();
        Some(self.apply(f, args))
    }

    fn arg(&mut self, t: &Ty) -> E {
        if self.s.pct(self.fail_pct / 3) {
            return self.spare(t);
        }
        self.expr(t)
    }

    /// Spell an application.
    fn apply(&mut self, f: E, mut args: Vec<E>) -> E {
        let n = args.len();
        match self.s.below(8) {
            0 | 1 => {
                let last = args.pop().unwrap();
                if args.is_empty() {
                    E::Cat(Box::new(last), Box::new(f))
                } else {
                    E::Cat(Box::new(last), Box::new(E::App(Box::new(f), args)))
                }
            }
            2 if n >= 2 => {
                let k = 1 + self.s.n(n - 1);
                let rest = args.split_off(k);
                E::App(Box::new(E::App(Box::new(f), args)), rest)
            }
            3 if n >= 2 => {
                // the partial application is given a name
                let k = 1 + self.s.n(n - 1);
                let rest = args.split_off(k);
                let nm = "zp".to_string();
                E::Gen(
                    Box::new(E::Block(vec![Decl { name: nm.clone(), meta: 0, params: vec![], body: E::App(Box::new(f), args) }])),
                    Box::new(E::App(Box::new(E::Var(nm)), rest)),
                )
            }
            _ => E::App(Box::new(f), args),
        }
    }

    fn prim1(&mut self, n: &str, args: Vec<E>) -> E {
        let f = self.p(n);
        self.apply(f, args)
    }

    pub fn expr(&mut self, t: &Ty) -> E {
        self.size -= 1;
        if self.size <= 0 {
            if self.s.bool() {
                if let Some(e) = self.from_scope(t) {
                    return e;
                }
            }
            return self.leaf(t);
        }
        match self.s.weighted(&[3, 5, 4, 3, 2, 2, 9, 1, 1]) {
            0 => self.leaf(t),
            1 => match self.from_scope(t) {
                Some(e) => e,
                None => self.build(t),
            },
            2 => match self.call_scope(t) {
                Some(e) => e,
                None => self.build(t),
            },
            3 => self.branch(t),
            4 => self.local(t),
            5 => self.through_list(t),
            6 => self.build(t),
            7 => E::Meta(Box::new(self.expr(t))),
            _ => self.wrap(t),
        }
    }

    fn branch(&mut self, t: &Ty) -> E {
        let c = self.expr(&Ty::Bool);
        let (a, b) = if self.s.bool() { (self.expr(t), self.spare(t)) } else { (self.spare(t), self.expr(t)) };
        match self.s.below(4) {
            0 => E::Cat(Box::new(c), Box::new(E::App(Box::new(self.p("then")), vec![a, b]))),
            1 => self.apply(E::Var("if".into()), vec![c, a, b]),
            _ => E::App(Box::new(self.p("if")), vec![c, a, b]),
        }
    }

    /// `{ … }.name`, `{ … }.( … )` or a `:let` block.
    fn local(&mut self, t: &Ty) -> E {
        if self.s.pct(15) {
            let k = 1 + self.s.n(3);
            let mark = self.scope.len();
            let mut bs: Vec<(String, E)> = vec![];
            for _ in 0..k {
                let taken: Vec<String> = bs.iter().map(|b| b.0.clone()).collect();
                let n = self.fresh(&taken);
                let bt = self.ty(1);
                let e = self.spare(&bt);
                self.scope.push(Bound { name: n.clone(), ty: Some(bt) });
                bs.push((n, e));
            }
            let body = self.expr(t);
            self.scope.truncate(mark);
            return E::Let(bs, Box::new(body));
        }
        let mark = self.scope.len();
        let (ds, types) = self.decls(None);
        if self.s.bool() {
            let own: Vec<&(String, Ty)> = types.iter().filter(|(_, dt)| dt == t).collect();
            if !own.is_empty() {
                let (n, _) = (*self.s.pick(&own)).clone();
                self.scope.truncate(mark);
                return E::Get(Box::new(E::Block(ds)), n);
            }
        }
        for (n, dt) in types {
            self.scope.push(Bound { name: n, ty: Some(dt) });
        }
        let body = self.expr(t);
        self.scope.truncate(mark);
        E::Gen(Box::new(E::Block(ds)), Box::new(body))
    }

    /// A value put in a list or a block and taken out again.
    fn through_list(&mut self, t: &Ty) -> E {
        match self.s.below(7) {
            0 => {
                let n = 1 + self.s.n(4);
                let i = self.s.n(n);
                let es: Vec<E> = (0..n).map(|k| if k == i { self.expr(t) } else { self.spare(t) }).collect();
                self.prim1("nth", vec![E::Int(i as i64), E::List(es)])
            }
            1 => {
                let h = self.expr(t);
                let r = self.spare(&Ty::List(Box::new(t.clone())));
                let c = self.prim1("cons", vec![h, r]);
                self.prim1("head", vec![c])
            }
            2 => {
                let (k, l) = (self.s.pick(FIELDS).to_string(), self.s.pick(FIELDS).to_string());
                let mark = self.scope.len();
                self.scope.push(Bound { name: k.clone(), ty: None });
                self.scope.push(Bound { name: l.clone(), ty: None });
                let v = self.expr(t);
                let mut ds = vec![Decl { name: k.clone(), meta: 0, params: vec![], body: v }];
                if l != k {
                    let body = self.spare(t);
                    ds.insert(self.s.n(2), Decl { name: l, meta: 0, params: vec![], body });
                }
                self.scope.truncate(mark);
                self.prim1("lookup", vec![E::Sym(k), E::Block(ds)])
            }
            3 => {
                let x = self.expr(t);
                let u = self.ty(1);
                let y = self.spare(&u);
                self.prim1("const", vec![x, y])
            }
            4 => {
                let x = self.expr(t);
                let l = E::List(vec![self.spare(t), x]);
                self.prim1("second", vec![l])
            }
            5 => {
                let d = self.expr(t);
                let bt = Ty::Rec(vec![(self.s.pick(FIELDS).to_string(), t.clone())]);
                let b = self.expr(&bt);
                let k = self.s.pick(FIELDS).to_string();
                // extra fields of another type may hide in the block
                if let E::Block(ds) = &b {
                    if ds.iter().any(|d| d.name == k && !matches!(&bt, Ty::Rec(fs) if fs[0].0 == k)) {
                        return d;
                    }
                } else if !matches!(&bt, Ty::Rec(fs) if fs[0].0 == k) {
                    return d;
                }
                self.prim1("lookup-or", vec![E::Sym(k), d, b])
            }
            _ => {
                let x = self.expr(t);
                self.prim1("identity", vec![x])
            }
        }
    }

    fn wrap(&mut self, t: &Ty) -> E {
        // call an immediately declared function
        let n = 1 + self.s.n(2);
        let ps: Vec<Ty> = (0..n).map(|_| self.ty(1)).collect();
        let ft = Ty::Fun(ps.clone(), Box::new(t.clone()));
        let f = self.expr(&ft);
        let args: Vec<E> = ps.iter().map(|p| self.arg(p)).collect();
        self.apply(f, args)
    }

    fn build(&mut self, t: &Ty) -> E {
        match t {
            Ty::Int => self.int(),
            Ty::Bool => self.boolean(),
            Ty::Str => self.string(),
            Ty::Sym => {
                let x = self.string_lit();
                self.prim1("sym", vec![x])
            }
            Ty::List(e) => self.list(e),
            Ty::Rec(fs) => {
                let fs = fs.clone();
                if self.s.pct(12) {
                    // merge two partial records
                    let all = Ty::Rec(fs.clone());
                    let a = self.expr(&all);
                    let sub: Vec<(String, Ty)> = fs.iter().filter(|_| self.s.bool()).cloned().collect();
                    let b = self.record(&sub);
                    return self.prim1("merge", vec![a, b]);
                }
                self.record(&fs)
            }
            Ty::Fun(ps, r) => self.function(&ps.clone(), &r.clone()),
        }
    }

    fn record(&mut self, fs: &[(String, Ty)]) -> E {
        let mark = self.scope.len();
        let (ds, _) = self.decls(Some(fs));
        self.scope.truncate(mark);
        E::Block(ds)
    }

    /// Declarations, mutually visible in an acyclic order. The caller takes
    /// the scope back.
    fn decls(&mut self, want: Option<&[(String, Ty)]>) -> (Vec<Decl>, Vec<(String, Ty)>) {
        let mark = self.scope.len();
        let mut slots: Vec<(String, Ty)> = want.map(|w| w.to_vec()).unwrap_or_default();
        let extra = match want {
            None => 1 + self.s.n(3),
            Some(_) => usize::from(self.s.pct(25)),
        };
        for _ in 0..extra {
            let taken: Vec<String> = slots.iter().map(|x| x.0.clone()).collect();
            let n = self.fresh(&taken);
            let mut t = if self.s.pct(35) {
                let k = 1 + self.s.n(3);
                Ty::Fun((0..k).map(|_| self.ty(1)).collect(), Box::new(self.ty(1)))
            } else {
                self.ty(2)
            };
            if want.is_some() {
                // a record may only gain members that are not rendered
                t = match t {
                    Ty::Fun(..) => t,
                    r => Ty::Fun(vec![Ty::Int], Box::new(r)),
                };
            }
            slots.push((n, t));
        }
        // every name of the block hides the outer ones
        for (n, _) in &slots {
            self.scope.push(Bound { name: n.clone(), ty: None });
        }
        let base = self.scope.len();
        let mut order: Vec<usize> = (0..slots.len()).collect();
        self.s.shuffle(&mut order);
        let mut bodies: Vec<Option<Decl>> = vec![None; slots.len()];
        for i in order {
            let (n, t) = slots[i].clone();
            let d = self.decl(&n, &t, want.is_none());
            bodies[i] = Some(d);
            self.scope.push(Bound { name: n, ty: Some(t) });
        }
        let _ = base;
        self.scope.truncate(mark);
        (bodies.into_iter().map(|d| d.unwrap()).collect(), slots)
    }

    fn decl(&mut self, n: &str, t: &Ty, may_fail: bool) -> Decl {
        let meta = if self.s.pct(8) { 1 + self.s.below(2) as u8 } else { 0 };
        match t {
            Ty::Fun(ps, r) if self.s.pct(85) => {
                let (params, body) = self.fun(n, ps, r);
                Decl { name: n.into(), meta, params, body }
            }
            t => {
                let body = if may_fail { self.spare(t) } else { self.expr(t) };
                Decl { name: n.into(), meta, params: vec![], body }
            }
        }
    }

    /// Parameters and body of a function, perhaps recursive on a counter.
    fn fun(&mut self, name: &str, ps: &[Ty], r: &Ty) -> (Vec<Pat>, E) {
        let mark = self.scope.len();
        let mut taken: Vec<String> = vec![name.to_string()];
        let mut pats = vec![];
        let recurse = matches!(ps.first(), Some(Ty::Int)) && self.s.pct(35);
        let walk = !recurse && matches!(ps.first(), Some(Ty::List(_))) && self.s.pct(40);
        for (i, p) in ps.iter().enumerate() {
            match p {
                Ty::Rec(fs) if self.s.pct(50) => {
                    let mut out = vec![];
                    for (k, ft) in fs {
                        let v = if !taken.contains(k) && self.s.bool() { k.clone() } else { self.fresh(&taken) };
                        taken.push(v.clone());
                        self.scope.push(Bound { name: v.clone(), ty: Some(ft.clone()) });
                        out.push((k.clone(), v));
                    }
                    pats.push(Pat::Rec(out));
                }
                _ => {
                    let v = self.fresh(&taken);
                    taken.push(v.clone());
                    let vis = if recurse && i == 0 { Some(Ty::Int) } else { Some(p.clone()) };
                    self.scope.push(Bound { name: v.clone(), ty: vis });
                    pats.push(Pat::Var(v));
                }
            }
        }
        let body = if recurse {
            let Pat::Var(n) = &pats[0] else { unreachable!() };
            let n = n.clone();
            let base = self.expr(r);
            // the recursive call, its result named
            let rest: Vec<E> = ps[1..].iter().map(|p| self.expr(p)).collect();
            let mut args = vec![E::Op("-", Box::new(E::Var(n.clone())), Box::new(E::Int(1)))];
            args.extend(rest);
            let again = E::App(Box::new(E::Var(name.into())), args);
            let step = if self.s.bool() {
                again
            } else {
                let v = self.fresh(&taken);
                self.scope.push(Bound { name: v.clone(), ty: Some(r.clone()) });
                let e = self.expr(r);
                E::Gen(Box::new(E::Block(vec![Decl { name: v, meta: 0, params: vec![], body: again }])), Box::new(e))
            };
            let c = E::Op("<", Box::new(E::Var(n)), Box::new(E::Int(1)));
            E::App(Box::new(self.p("if")), vec![c, base, step])
        } else if walk {
            let Pat::Var(l) = &pats[0] else { unreachable!() };
            let l = l.clone();
            let base = self.expr(r);
            let rest: Vec<E> = ps[1..].iter().map(|p| self.expr(p)).collect();
            let mut args = vec![E::App(Box::new(self.p("tail")), vec![E::Var(l.clone())])];
            args.extend(rest);
            let again = E::App(Box::new(E::Var(name.into())), args);
            let v = self.fresh(&taken);
            self.scope.push(Bound { name: v.clone(), ty: Some(r.clone()) });
            let e = self.expr(r);
            let step = E::Gen(Box::new(E::Block(vec![Decl { name: v, meta: 0, params: vec![], body: again }])), Box::new(e));
            E::App(Box::new(self.p("if")), vec![E::App(Box::new(self.p("nil?")), vec![E::Var(l)]), base, step])
        } else {
            self.expr(r)
        };
        self.scope.truncate(mark);
        (pats, body)
    }

    fn function(&mut self, ps: &[Ty], r: &Ty) -> E {
        let int2 = ps == [Ty::Int, Ty::Int] && *r == Ty::Int;
        if int2 && self.in_sec == 0 && self.s.pct(40) {
            return E::OpF(*self.s.pick(&["+", "-", "*"]));
        }
        if ps == [Ty::Int] && *r == Ty::Int && self.s.pct(50) {
            return match self.s.below(4) {
                0 if self.in_sec == 0 => {
                    self.in_sec += 1;
                    let e = self.expr(&Ty::Int);
                    self.in_sec -= 1;
                    E::Sec(*self.s.pick(&["+", "*"]), Box::new(e))
                }
                1 => self.p("inc"),
                2 => {
                    let t = Ty::Fun(vec![Ty::Int], Box::new(Ty::Int));
                    let (f, g) = (self.expr(&t), self.expr(&t));
                    E::Op(*self.s.pick(&["∘", ";"]), Box::new(f), Box::new(g))
                }
                _ => self.p("negate"),
            };
        }
        if ps == [Ty::Int] && *r == Ty::Bool && self.in_sec == 0 && self.s.pct(50) {
            self.in_sec += 1;
            let e = self.expr(&Ty::Int);
            self.in_sec -= 1;
            return E::Sec(*self.s.pick(&["<", ">", "=", "<=", ">="]), Box::new(e));
        }
        if ps.len() == 1 && self.s.pct(30) {
            // partial application of a longer function
            let extra = self.ty(1);
            let ft = Ty::Fun(vec![extra.clone(), ps[0].clone()], Box::new(r.clone()));
            let f = self.expr(&ft);
            let a = self.arg(&extra);
            return E::App(Box::new(f), vec![a]);
        }
        if ps.len() == 1 && self.s.pct(15) {
            let mid = self.ty(1);
            let f = self.expr(&Ty::Fun(vec![mid.clone()], Box::new(r.clone())));
            let g = self.expr(&Ty::Fun(vec![ps[0].clone()], Box::new(mid)));
            return E::Op("∘", Box::new(f), Box::new(g));
        }
        let n = self.fresh(&[]);
        let mark = self.scope.len();
        self.scope.push(Bound { name: n.clone(), ty: None });
        let (params, body) = self.fun(&n, ps, r);
        self.scope.truncate(mark);
        E::Get(Box::new(E::Block(vec![Decl { name: n.clone(), meta: 0, params, body }])), n)
    }

    fn int(&mut self) -> E {
        match self.s.below(12) {
            0..=3 => {
                let o = *self.s.pick(&["+", "-", "*"]);
                let (a, b) = (self.expr(&Ty::Int), self.expr(&Ty::Int));
                E::Op(o, Box::new(a), Box::new(b))
            }
            4 => {
                let t = self.ty(1);
                let l = if self.s.bool() {
                    let n = self.s.n(4);
                    E::List((0..n).map(|_| self.spare(&t)).collect())
                } else {
                    self.expr(&Ty::List(Box::new(t)))
                };
                self.prim1("count", vec![l])
            }
            5 | 6 => {
                let (et, at) = (self.ty(1), Ty::Int);
                let left = self.s.bool();
                let ps = if left { vec![at.clone(), et.clone()] } else { vec![et.clone(), at.clone()] };
                let f = self.expr(&Ty::Fun(ps, Box::new(at)));
                let z = self.expr(&Ty::Int);
                let l = self.expr(&Ty::List(Box::new(et)));
                self.prim1(if left { "foldl" } else { "foldr" }, vec![f, z, l])
            }
            7 => {
                let a = self.expr(&Ty::Int);
                let n = *self.s.pick(&["inc", "dec", "negate"]);
                self.prim1(n, vec![a])
            }
            8 => {
                let (a, b) = (self.expr(&Ty::Int), self.expr(&Ty::Int));
                let n = *self.s.pick(&["max", "min"]);
                self.prim1(n, vec![a, b])
            }
            9 => {
                let l = self.expr(&Ty::List(Box::new(Ty::Int)));
                let d = self.expr(&Ty::Int);
                // head with a guard
                E::Gen(
                    Box::new(E::Block(vec![Decl { name: "zl".into(), meta: 0, params: vec![], body: l }])),
                    Box::new(E::App(
                        Box::new(self.p("if")),
                        vec![
                            E::App(Box::new(self.p("nil?")), vec![E::Var("zl".into())]),
                            d,
                            E::App(Box::new(self.p("head")), vec![E::Var("zl".into())]),
                        ],
                    )),
                )
            }
            _ => self.through_list(&Ty::Int),
        }
    }

    fn boolean(&mut self) -> E {
        match self.s.below(9) {
            0 | 1 => {
                let o = *self.s.pick(&["<", ">", "<=", ">=", "=", "!="]);
                let (a, b) = (self.expr(&Ty::Int), self.expr(&Ty::Int));
                E::Op(o, Box::new(a), Box::new(b))
            }
            2 | 3 => {
                let o = *self.s.pick(&["∧", "∨", "&&", "||"]);
                let a = self.expr(&Ty::Bool);
                let b = self.spare(&Ty::Bool);
                E::Op(o, Box::new(a), Box::new(b))
            }
            4 => {
                let a = self.expr(&Ty::Bool);
                self.prim1("not", vec![a])
            }
            5 => {
                let t = self.ty(0);
                let l = self.expr(&Ty::List(Box::new(t)));
                self.prim1("nil?", vec![l])
            }
            6 => {
                let t = match self.s.below(3) {
                    0 => Ty::Str,
                    1 => Ty::Sym,
                    _ => Ty::List(Box::new(Ty::Int)),
                };
                let (a, b) = (self.expr(&t), self.expr(&t));
                E::Op("=", Box::new(a), Box::new(b))
            }
            7 => {
                let t = self.ty(1);
                let f = self.expr(&Ty::Fun(vec![t.clone()], Box::new(Ty::Bool)));
                let l = self.expr(&Ty::List(Box::new(t)));
                let n = *self.s.pick(&["all", "any"]);
                self.prim1(n, vec![f, l])
            }
            _ => {
                let (a, b) = (self.expr(&Ty::Bool), self.spare(&Ty::Bool));
                let n = *self.s.pick(&["and", "or"]);
                self.prim1(n, vec![a, b])
            }
        }
    }

    fn string_lit(&mut self) -> E {
        E::Str(self.s.pick(&["a", "b", "foo", "x", "name"]).to_string())
    }

    fn string(&mut self) -> E {
        match self.s.below(3) {
            0 => {
                let a = self.expr(&Ty::Int);
                self.prim1("str.of", vec![a])
            }
            _ => {
                let vis: Vec<(String, Ty)> =
                    self.visible().into_iter().filter(|(_, t)| matches!(t, Ty::Int | Ty::Str | Ty::Sym | Ty::Bool)).collect();
                if vis.is_empty() {
                    return self.leaf(&Ty::Str);
                }
                let n = 1 + self.s.n(3);
                let mut ps: Vec<(String, Option<String>)> =
                    (0..n).map(|_| (self.s.pick(&["", "-", "x ", "<"]).to_string(), Some(self.s.pick(&vis).0.clone()))).collect();
                ps.push((self.s.pick(&["", ">"]).to_string(), None));
                E::Interp(ps)
            }
        }
    }

    fn list(&mut self, e: &Ty) -> E {
        let lt = Ty::List(Box::new(e.clone()));
        match self.s.below(13) {
            0 | 1 => {
                let n = if self.s.pct(3) { 10 + self.s.n(40) } else { self.s.n(5) };
                E::List((0..n).map(|_| self.expr(e)).collect())
            }
            2 | 3 => {
                let t = self.ty(1);
                let f = self.expr(&Ty::Fun(vec![t.clone()], Box::new(e.clone())));
                let l = self.expr(&Ty::List(Box::new(t)));
                self.prim1("map", vec![f, l])
            }
            4 => {
                let f = self.expr(&Ty::Fun(vec![e.clone()], Box::new(Ty::Bool)));
                let l = self.expr(&lt);
                let n = *self.s.pick(&["filter", "filter", "take-while"]);
                self.prim1(n, vec![f, l])
            }
            5 => {
                let n = E::Int(self.s.range(0, 4));
                let l = self.expr(&lt);
                self.prim1("take", vec![n, l])
            }
            6 => {
                let (a, b) = (self.expr(&lt), self.expr(&lt));
                E::Op("++", Box::new(a), Box::new(b))
            }
            7 => {
                let (h, l) = (self.expr(e), self.expr(&lt));
                self.prim1("cons", vec![h, l])
            }
            8 => {
                let (t, u) = (self.ty(0), self.ty(0));
                let f = self.expr(&Ty::Fun(vec![t.clone(), u.clone()], Box::new(e.clone())));
                let (a, b) = (self.expr(&Ty::List(Box::new(t))), self.expr(&Ty::List(Box::new(u))));
                self.prim1("zip-with", vec![f, a, b])
            }
            9 if *e == Ty::Int => {
                let (a, b) = (E::Int(self.s.range(-2, 3)), E::Int(self.s.range(0, 8)));
                self.prim1("range", vec![a, b])
            }
            10 => {
                let l = self.expr(&lt);
                self.prim1("reverse", vec![l])
            }
            11 => {
                let t = self.ty(1);
                let f = self.expr(&Ty::Fun(vec![t.clone()], Box::new(lt)));
                let l = self.expr(&Ty::List(Box::new(t)));
                self.prim1("mapcat", vec![f, l])
            }
            _ => {
                let h = self.expr(e);
                let c = self.prim1("cons", vec![self.s_dead(e), E::List(vec![h])]);
                self.prim1("tail", vec![c])
            }
        }
    }

    fn s_dead(&self, _t: &Ty) -> E {
        E::Fail
    }
}

pub fn renderable(t: &Ty) -> bool {
    match t {
        Ty::Fun(..) => false,
        Ty::List(e) => renderable(e),
        Ty::Rec(fs) => fs.iter().all(|(_, t)| !matches!(t, Ty::List(e) if !renderable(e)) && (matches!(t, Ty::Fun(..)) || renderable(t))),
        _ => true,
    }
}

fn collect_calls(v: &E, vt: &Ty, t: &Ty, c: &mut Vec<(E, Vec<Ty>)>) {
    if let Ty::Fun(ps, r) = vt {
        if **r == *t {
            c.push((v.clone(), ps.clone()));
        }
        // over-application
        if let Ty::Fun(ps2, r2) = &**r {
            if **r2 == *t {
                let mut all = ps.clone();
                all.extend(ps2.iter().cloned());
                c.push((v.clone(), all));
            }
        }
        // partial application
        if let Ty::Fun(want, wr) = t {
            if ps.len() > want.len() && ps[ps.len() - want.len()..] == want[..] && wr == r {
                c.push((v.clone(), ps[..ps.len() - want.len()].to_vec()));
            }
        }
    }
}

pub struct Program {
    pub decls: Vec<Decl>,
    pub main: bool,
}

impl Program {
    pub fn source(&self) -> String {
        let mut o = String::new();
        for d in &self.decls {
            if self.main && d.name == "zz-main" {
                o.push_str("` { target: :main }\n");
            }
            show_decl(d, &mut o);
        }
        o
    }
    pub fn reference(&self) -> Result<V, RErr> {
        reference(&self.decls, if self.main { Some("zz-main") } else { None })
    }
}

/// A whole program.
pub fn program(s: &mut Src, size: i64) -> Program {
    let fail_pct = *s.pick(&[0, 30, 60]);
    let main = s.pct(70);
    let mut g = G::new(s, size, fail_pct);
    let t = g.data_ty(2);
    let mut slots: Vec<(String, Ty)> = vec![];
    let n = g.s.n(5);
    for _ in 0..n {
        let taken: Vec<String> = slots.iter().map(|x| x.0.clone()).collect();
        let name = g.fresh(&taken);
        let st = if g.s.bool() {
            let k = 1 + g.s.n(4);
            Ty::Fun((0..k).map(|_| g.ty(1)).collect(), Box::new(g.ty(2)))
        } else if main {
            g.ty(2)
        } else {
            g.data_ty(2)
        };
        slots.push((name, st));
    }
    slots.push(("zz-main".into(), t));
    for (n, _) in &slots {
        g.scope.push(Bound { name: n.clone(), ty: None });
    }
    let mut order: Vec<usize> = (0..slots.len() - 1).collect();
    g.s.shuffle(&mut order);
    order.push(slots.len() - 1);
    let mut ds: Vec<Option<Decl>> = vec![None; slots.len()];
    for i in order {
        let (n, t) = slots[i].clone();
        let share = (size / slots.len() as i64).max(6);
        g.size = share;
        let d = g.decl(&n, &t, main && n != "zz-main");
        ds[i] = Some(d);
        g.scope.push(Bound { name: n, ty: Some(t) });
    }
    let mut decls: Vec<Decl> = ds.into_iter().map(|d| d.unwrap()).collect();
    if main {
        let k = g.s.n(decls.len());
        let d = decls.pop().unwrap();
        decls.insert(k, d);
        if let Some(d) = decls.iter_mut().find(|d| d.name == "zz-main") {
            d.meta = 0;
        }
    }
    Program { decls, main }
}
