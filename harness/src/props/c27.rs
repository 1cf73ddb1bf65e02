//! C27: lenses and traversals, and the monads and their derived combinators.

use crate::engine::{Ctx, Facet, Prop, Res, Src};
use crate::ev::{Opts, V};
use crate::gen::*;

const PREFIX: &str = "\
{ import: [\"resource:lens\", \"resource:state\"] }
box(x): [x]
add2(a, b): a + b
start: { a: 3 b: 10 c: { d: 5 e: [1, 2, 3] } l: [7, 8] }
bump(s): s update-value(:a, + 1)
sum-ab(s): s.a + s.b
tick-state(x): { :state n: state.query(_.a) _: state.modify(:a, + x) }.(n + x)
keep-state(x): { :state _: state.modify(:b, + 1) n: state.query(_.b) }.(n > x + 8)
tick-for(x): [x, x * 10]
keep-for(x): [true, x > 2]
wr-ret(v): { value: v log: [] }
wr-bind(m, f): { r: f(m.value) }.{ value: r.value log: m.log ++ r.log }
` { monad: true }
wr: monad{ bind: wr-bind return: wr-ret } { tell(x): { value: null log: [x] } step(x): { value: x + 1 log: [x, x] } }
tick-wr(x): { value: x + 1 log: [x] }
keep-wr(x): { value: x > 2 log: [[x]] }
opt-ret(x): { ok: true v: x }
opt-bind(m, f): if(m.ok, f(m.v), m)
` { monad: true }
opt: monad{ bind: opt-bind return: opt-ret } { some(x): { ok: true v: x } none: { ok: false } small(x): if(x < 6, { ok: true v: x }, { ok: false }) }
tick-opt(x): if(x = 5, opt.none, opt.return(x + 1))
keep-opt(x): if(x = 4, opt.none, opt.return(x > 2))
tick-let(x): x + 1
keep-let(x): x > 2
";

fn int(s: &mut Src) -> i64 {
    s.range(-9, 20)
}

// ---- optics ----------------------------------------------------------------

#[derive(Clone, Debug)]
enum Shape {
    Leaf,
    Block(Vec<(String, Shape)>),
    List(Box<Shape>),
}

fn shape(s: &mut Src, depth: usize) -> Shape {
    match s.below(if depth == 0 { 1 } else { 5 }) {
        0 => Shape::Leaf,
        1 | 2 => {
            let mut ks: Vec<String> = ["a", "b", "c", "id", "long-key", "x?", "ünï"].iter().map(|k| k.to_string()).collect();
            s.shuffle(&mut ks);
            ks.truncate(s.range(1, 5) as usize);
            let flat = s.pct(40);
            Shape::Block(ks.into_iter().map(|k| (k, if flat { Shape::Leaf } else { shape(s, depth - 1) })).collect())
        }
        _ => Shape::List(Box::new(shape(s, depth - 1))),
    }
}

fn data(s: &mut Src, sh: &Shape) -> V {
    match sh {
        Shape::Leaf => V::i(int(s)),
        Shape::Block(fs) => V::Block(fs.iter().map(|(k, sh)| (V::Sym(k.clone()), data(s, sh))).collect()),
        Shape::List(sh) => V::List(s.vec(5, |s| data(s, sh))),
    }
}

#[derive(Clone, Debug)]
enum P {
    Gt(i64),
    Even,
    Is(i64),
    /// of a leaf member of a block
    Member(String, i64),
}
impl P {
    fn src(&self) -> String {
        match self {
            P::Gt(n) => format!("(> {n})"),
            P::Even => "(_ % 2 = 0)".into(),
            P::Is(n) => format!("(_ = {n})"),
            P::Member(k, n) => format!("(_.{} > {n})", lit_key(k)),
        }
    }
    fn holds(&self, v: &V) -> bool {
        let n = |v: &V| if let V::Int(n) = v { *n as i64 } else { 0 };
        match self {
            P::Gt(k) => n(v) > *k,
            P::Even => n(v) % 2 == 0,
            P::Is(k) => n(v) == *k,
            P::Member(f, k) => n(v.get(f).unwrap()) > *k,
        }
    }
}

/// Which entries of a block of leaves.
#[derive(Clone, Debug)]
enum KP {
    Key(String),
    Val(P),
}
impl KP {
    fn src(&self) -> String {
        match self {
            KP::Key(k) => format!("by-key(_ = {})", lit_sym(k)),
            KP::Val(p) => format!("by-value{}", if let P::Gt(n) = p { format!("(> {n})") } else { p.src() }),
        }
    }
    fn holds(&self, k: &V, v: &V) -> bool {
        match self {
            KP::Key(q) => k.key() == Some(q),
            KP::Val(p) => p.holds(v),
        }
    }
}

#[derive(Clone, Debug)]
enum O {
    At(String),
    Ix(usize),
    Item(P),
    Element(KP),
    Each,
    Filtered(P),
    EachElement,
    FilteredElements(KP),
    Parts(Vec<O>),
}
impl O {
    fn many(&self) -> bool {
        matches!(self, O::Each | O::Filtered(_) | O::EachElement | O::FilteredElements(_))
    }
}

fn pred(s: &mut Src, sh: &Shape) -> Option<P> {
    match sh {
        Shape::Leaf => Some(match s.below(3) {
            0 => P::Gt(int(s)),
            1 => P::Even,
            _ => P::Is(int(s)),
        }),
        Shape::Block(fs) => {
            let ks: Vec<&String> = fs.iter().filter(|f| matches!(f.1, Shape::Leaf)).map(|f| &f.0).collect();
            if ks.is_empty() {
                None
            } else {
                Some(P::Member(s.pick(&ks).to_string(), int(s)))
            }
        }
        Shape::List(_) => None,
    }
}

fn optic(s: &mut Src, sh: &Shape, many: bool) -> (Vec<O>, Shape) {
    let mut path = vec![];
    let mut at = sh.clone();
    loop {
        if !path.is_empty() && s.pct(15) {
            break;
        }
        let next = match &at {
            Shape::Leaf => break,
            Shape::Block(fs) => {
                let flat = fs.iter().all(|f| matches!(f.1, Shape::Leaf));
                let kp = |s: &mut Src| {
                    if s.bool() {
                        KP::Key(s.pick(fs).0.clone())
                    } else {
                        KP::Val(match s.below(3) {
                            0 => P::Gt(int(s)),
                            1 => P::Even,
                            _ => P::Is(int(s)),
                        })
                    }
                };
                match s.below(8) {
                    0 | 1 if flat && many => (if s.bool() { O::EachElement } else { O::FilteredElements(kp(s)) }, Shape::Leaf),
                    2 | 3 if flat => (O::Element(kp(s)), Shape::Leaf),
                    _ => {
                        let (k, sh) = s.pick(fs).clone();
                        (O::At(k), sh)
                    }
                }
            }
            Shape::List(inner) => {
                let inner = (**inner).clone();
                let p = pred(s, &inner);
                match (s.below(8), p) {
                    (0..=2, _) if many => (O::Each, inner),
                    (3 | 4, Some(p)) if many => (O::Filtered(p), inner),
                    (5, Some(p)) => (O::Item(p), inner),
                    _ => (O::Ix(s.n(4)), inner),
                }
            }
        };
        path.push(next.0);
        at = next.1;
    }
    (path, at)
}

/// What an optic focuses on, or nothing if a place is missing.
fn foci(path: &[O], v: &V) -> Option<Vec<V>> {
    let Some((o, rest)) = path.split_first() else { return Some(vec![v.clone()]) };
    let all = |xs: Vec<&V>| xs.into_iter().map(|x| foci(rest, x)).collect::<Option<Vec<_>>>().map(|v| v.concat());
    match (o, v) {
        (O::At(k), v) => foci(rest, v.get(k)?),
        (O::Ix(n), V::List(xs)) => foci(rest, xs.get(*n)?),
        (O::Item(p), V::List(xs)) => foci(rest, xs.iter().find(|x| p.holds(x))?),
        (O::Element(p), V::Block(kvs)) => foci(rest, &kvs.iter().find(|(k, v)| p.holds(k, v))?.1),
        (O::Each, V::List(xs)) => all(xs.iter().collect()),
        (O::Filtered(p), V::List(xs)) => all(xs.iter().filter(|x| p.holds(x)).collect()),
        (O::EachElement, V::Block(kvs)) => all(kvs.iter().map(|kv| &kv.1).collect()),
        (O::FilteredElements(p), V::Block(kvs)) => all(kvs.iter().filter(|(k, v)| p.holds(k, v)).map(|kv| &kv.1).collect()),
        (O::Parts(inner), v) => foci(rest, &V::List(foci(inner, v)?)),
        _ => None,
    }
}

fn over(path: &[O], v: &V, f: &mut dyn FnMut(&V) -> V) -> Option<V> {
    let Some((o, rest)) = path.split_first() else { return Some(f(v)) };
    let list = |xs: &[V], f: &mut dyn FnMut(&V) -> V, on: &mut dyn FnMut(&V) -> bool| {
        xs.iter().map(|x| if on(x) { over(rest, x, f) } else { Some(x.clone()) }).collect::<Option<Vec<_>>>().map(V::List)
    };
    let block = |kvs: &[(V, V)], f: &mut dyn FnMut(&V) -> V, on: &mut dyn FnMut(&V, &V) -> bool| {
        let go = |(k, x): &(V, V)| Some((k.clone(), if on(k, x) { over(rest, x, f)? } else { x.clone() }));
        kvs.iter().map(go).collect::<Option<Vec<_>>>().map(V::Block)
    };
    let mut first = true;
    match (o, v) {
        (O::At(k), V::Block(kvs)) => {
            v.get(k)?;
            block(kvs, f, &mut |q, _| q.key() == Some(k))
        }
        (O::Ix(n), V::List(xs)) => {
            let mut ys = xs.clone();
            *ys.get_mut(*n)? = over(rest, xs.get(*n)?, f)?;
            Some(V::List(ys))
        }
        (O::Item(p), V::List(xs)) => {
            xs.iter().find(|x| p.holds(x))?;
            list(xs, f, &mut |x| p.holds(x) && std::mem::take(&mut first))
        }
        (O::Element(p), V::Block(kvs)) => {
            kvs.iter().find(|(k, v)| p.holds(k, v))?;
            block(kvs, f, &mut |k, x| p.holds(k, x) && std::mem::take(&mut first))
        }
        (O::Each, V::List(xs)) => list(xs, f, &mut |_| true),
        (O::Filtered(p), V::List(xs)) => list(xs, f, &mut |x| p.holds(x)),
        (O::EachElement, V::Block(kvs)) => block(kvs, f, &mut |_, _| true),
        (O::FilteredElements(p), V::Block(kvs)) => block(kvs, f, &mut |k, x| p.holds(k, x)),
        (O::Parts(inner), v) => {
            let V::List(new) = over(rest, &V::List(foci(inner, v)?), f)? else { return None };
            let n = foci(inner, v)?.len();
            if new.len() < n {
                return None;
            }
            let mut it = new.into_iter();
            over(inner, v, &mut |_| it.next().unwrap())
        }
        _ => None,
    }
}

fn one(s: &mut Src, o: &O, in_path: bool) -> Vec<String> {
    match o {
        O::At(k) if in_path => vec![lit_sym(k)],
        O::At(k) => vec![format!("at({})", lit_sym(k))],
        O::Ix(n) if in_path => vec![n.to_string()],
        O::Ix(n) => vec![format!("ix({n})")],
        O::Item(p) => vec![format!("item{}", p.src())],
        O::Element(p) => vec![format!("element({})", p.src()), "_value".into()],
        O::Each => vec!["each".into()],
        O::Filtered(p) => vec![format!("filtered{}", p.src())],
        O::EachElement => vec!["each-element".into(), "_value".into()],
        O::FilteredElements(p) => vec![format!("filtered-elements({})", p.src()), "_value".into()],
        O::Parts(inner) => vec![format!("parts-of({})", spell(s, inner))],
    }
}

fn spell(s: &mut Src, path: &[O]) -> String {
    if path.is_empty() {
        return "identity".into();
    }
    if path.len() > 1 && s.bool() {
        // in two parts, grouped either way
        let k = 1 + s.n(path.len() - 1);
        let (a, b) = (spell(s, &path[..k]), spell(s, &path[k..]));
        return match s.below(3) {
            0 => format!("({a} ∘ {b})"),
            1 => format!("({a}) ∘ ({b})"),
            _ => format!("{a} ∘ {b}"),
        };
    }
    let in_path = s.bool();
    let parts: Vec<String> = path.iter().flat_map(|o| one(s, o, in_path)).collect();
    if in_path {
        format!("‹{}›", parts.join(" "))
    } else {
        parts.join(" ∘ ")
    }
}

fn lenses(s: &mut Src, ctx: &mut Ctx) -> Res {
    let xs = items(s, 12, 3, |s| {
        let sh = shape(s, 3);
        let v = data(s, &sh);
        let many = s.pct(60);
        let (mut path, mut end) = optic(s, &sh, many);
        let has_many = path.iter().any(|o| o.many());
        let mut is_list = matches!(end, Shape::List(_));
        let mut parts = false;
        if has_many && s.pct(35) {
            path = vec![O::Parts(path)];
            end = Shape::List(Box::new(end));
            is_list = true;
            parts = true;
            if s.pct(30) {
                path.push(O::Ix(s.n(3)));
                let Shape::List(inner) = end else { unreachable!() };
                is_list = matches!(*inner, Shape::List(_));
                end = *inner;
                parts = false;
            }
        }
        let single = !has_many || matches!(path.first(), Some(O::Parts(_)));
        let lens = spell(s, &path);
        let found = foci(&path, &v);
        if found.is_none() && matches!(path.first(), Some(O::Parts(_))) {
            // parts are listed lazily
            return it("lazy", "1".into(), Exp::Val(V::i(1)), false);
        }
        let nt = !path.is_empty();
        let d = lit(&v);
        let fs = found.clone();
        let exp = |w: Option<V>| w.map(Exp::Val).unwrap_or(Exp::Err(&[]));
        match s.below(5) {
            0 | 1 if single => it("view", call(s, "view", &[lens, d]), exp(fs.map(|x| x[0].clone())), nt),
            0 => {
                // a traversal may not be viewed
                let e = call(s, "view", &[lens, d]);
                it("view-many", e, Exp::Err(&[]), nt)
            }
            2 => it("to-list-of", call(s, "to-list-of", &[lens, d]), exp(fs.map(V::List)), nt),
            _ => {
                let leaf = matches!(end, Shape::Leaf);
                let n = int(s);
                let (f, mut g): (String, Box<dyn FnMut(&V) -> V>) = match s.below(5) {
                    0 if leaf => (format!("(+ {n})"), Box::new(move |v: &V| if let V::Int(k) = v { V::Int(*k + n as i128) } else { v.clone() })),
                    1 if leaf => (format!("(* {n})"), Box::new(move |v: &V| if let V::Int(k) = v { V::Int(*k * n as i128) } else { v.clone() })),
                    2 if leaf => (format!("add2({n})"), Box::new(move |v: &V| if let V::Int(k) = v { V::Int(*k + n as i128) } else { v.clone() })),
                    0 | 1 if is_list => ("reverse".into(), Box::new(|v: &V| if let V::List(x) = v { V::List(x.iter().rev().cloned().collect()) } else { v.clone() })),
                    2 if is_list => ("map(box)".into(), Box::new(|v: &V| if let V::List(x) = v { V::list(x.iter().map(|x| V::list([x.clone()]))) } else { v.clone() })),
                    3 if parts => ("-> range(0, 200)".into(), Box::new(|_: &V| V::list((0..200).map(V::i)))),
                    _ if parts => ("identity".into(), Box::new(|v: &V| v.clone())),
                    3 => (format!("-> {n}"), Box::new(move |_: &V| V::i(n))),
                    _ => ("box".into(), Box::new(|v: &V| V::list([v.clone()]))),
                };
                // whether changing what is missing is refused is not held to anything
                match over(&path, &v, &mut *g) {
                    Some(w) => it("over", call(s, "over", &[lens, f, d]), Exp::Val(w), nt),
                    None => it("view-missing", format!("to-list-of({lens}, {d})"), exp(fs.map(V::List)), false),
                }
            }
        }
    });
    run_items(ctx, PREFIX, &xs, &Opts::default())
}

// ---- monads ----------------------------------------------------------------

#[derive(Clone, Copy, PartialEq)]
enum M {
    State,
    For,
    Wr,
    Opt,
    Let,
}
impl M {
    fn name(self) -> &'static str {
        ["state", "for", "wr", "opt", "let"][self as usize]
    }
}

#[derive(Clone)]
enum E {
    Lit(i64),
    Name(String),
    Add(Box<E>, i64),
    Mul(Box<E>, String),
}
impl E {
    fn src(&self) -> String {
        match self {
            E::Lit(n) => lit_int(*n as i128),
            E::Name(n) => n.clone(),
            E::Add(e, n) => format!("({} + {n})", e.src()),
            E::Mul(e, n) => format!("({} * {n})", e.src()),
        }
    }
    fn eval(&self, env: &Env) -> i64 {
        match self {
            E::Lit(n) => *n,
            E::Name(n) => match env.iter().rev().find(|(k, _)| k == n).map(|(_, v)| v) {
                Some(V::Int(x)) => *x as i64,
                _ => 0,
            },
            E::Add(e, n) => e.eval(env) + n,
            E::Mul(e, n) => e.eval(env).wrapping_mul(E::Name(n.clone()).eval(env)) ,
        }
    }
}
type Env = Vec<(String, V)>;

fn exp(s: &mut Src, names: &[String]) -> E {
    match s.below(5) {
        0 | 1 if !names.is_empty() => E::Name(s.pick(names).clone()),
        2 if !names.is_empty() => E::Add(Box::new(E::Name(s.pick(names).clone())), s.range(0, 5)),
        3 if !names.is_empty() => E::Mul(Box::new(E::Name(s.pick(names).clone())), s.pick(names).clone()),
        _ => E::Lit(s.range(0, 9)),
    }
}

enum A {
    /// source text of a primitive, and what it does
    Prim(String, Box<dyn Fn(&Env, &St) -> Vec<(V, St)>>),
    Ret(E),
    Block(Vec<(String, A)>, Option<E>, bool),
    Map(i64, Box<A>),
    Then(Box<A>, Box<A>, bool),
    /// bind to a function of a name
    Bind(Box<A>, String, Box<A>, bool),
    Join(Box<A>),
    Seq(Vec<A>),
    MapM(Vec<E>),
    FilterM(Vec<E>),
}

#[derive(Clone)]
struct St {
    state: V,
    log: Vec<V>,
}
impl St {
    fn get(&self, k: &str) -> i64 {
        if let Some(V::Int(n)) = self.state.get(k) {
            *n as i64
        } else {
            0
        }
    }
    fn set(&self, path: &[O], f: &mut dyn FnMut(&V) -> V) -> St {
        St { state: over(path, &self.state, f).unwrap(), log: self.log.clone() }
    }
    fn put(&self, k: &str, v: V) -> St {
        let mut st = self.clone();
        let V::Block(kvs) = &mut st.state else { unreachable!() };
        match kvs.iter_mut().find(|(q, _)| q.key() == Some(k)) {
            Some(kv) => kv.1 = v,
            None => kvs.push((V::Sym(k.into()), v)),
        }
        st
    }
    fn logged(&self, x: V) -> St {
        let mut st = self.clone();
        st.log.push(x);
        st
    }
}

fn plus(n: i64) -> impl FnMut(&V) -> V {
    move |v: &V| if let V::Int(k) = v { V::Int(*k + n as i128) } else { v.clone() }
}

/// A primitive action and whether its value is an integer.
fn prim(s: &mut Src, m: M, names: &[String]) -> (A, bool) {
    let e = exp(s, names);
    let src = e.src();
    match m {
        M::State => {
            let k = s.pick(&["a", "b"]).to_string();
            let n = s.range(1, 6);
            let path = s
                .pick(&[
                    vec![O::At("a".into())],
                    vec![O::At("c".into()), O::At("d".into())],
                    vec![O::At("c".into()), O::At("e".into()), O::Ix(1)],
                    vec![O::At("l".into()), O::Ix(0)],
                    vec![O::At("l".into()), O::Each],
                ])
                .clone();
            match s.below(9) {
                0 => (A::Prim("state.get".into(), Box::new(|_, st| vec![(st.state.clone(), st.clone())])), false),
                1 => {
                    let k = if s.pct(30) { "fresh".to_string() } else { k };
                    (A::Prim(format!("state.put(:{k}, {src})"), Box::new(move |env, st| vec![(V::Null, st.put(&k, V::i(e.eval(env))))])), false)
                }
                2 | 3 => (A::Prim(format!("state.query(_.{k})"), Box::new(move |_, st| vec![(V::i(st.get(&k)), st.clone())])), true),
                4 => (A::Prim("state.query(sum-ab)".into(), Box::new(|_, st| vec![(V::i(st.get("a") + st.get("b")), st.clone())])), true),
                5 => (A::Prim("state.lift(bump)".into(), Box::new(|_, st| vec![(V::Null, st.put("a", V::i(st.get("a") + 1)))])), false),
                6 => (
                    A::Prim(format!("state.modify(:{k}, + {src})"), Box::new(move |env, st| vec![(V::Null, st.put(&k, V::i(st.get(&k) + e.eval(env))))])),
                    false,
                ),
                7 => {
                    let l = if path.len() == 1 && s.bool() { ":a".to_string() } else { format!("({})", spell(s, &path)) };
                    (A::Prim(format!("({l} =! {src})"), Box::new(move |env, st| {
                        let n = e.eval(env);
                        vec![(V::Null, st.set(&path, &mut |_| V::i(n)))]
                    })), false)
                }
                _ => {
                    let l = if path.len() == 1 && s.bool() { ":a".to_string() } else { format!("({})", spell(s, &path)) };
                    (A::Prim(format!("({l} %! (+ {n}))"), Box::new(move |_, st| vec![(V::Null, st.set(&path, &mut plus(n)))])), false)
                }
            }
        }
        M::For => match s.below(4) {
            0 => (A::Prim("[]".into(), Box::new(|_, _| vec![])), true),
            1 => (
                A::Prim(format!("([{src}] filter(> 3))"), Box::new(move |env, st| {
                    let n = e.eval(env);
                    if n > 3 { vec![(V::i(n), st.clone())] } else { vec![] }
                })),
                true,
            ),
            _ => {
                let es: Vec<E> = (0..s.range(1, 3)).map(|_| exp(s, names)).collect();
                let src = es.iter().map(|e| e.src()).collect::<Vec<_>>().join(", ");
                (A::Prim(format!("[{src}]"), Box::new(move |env, st| es.iter().map(|e| (V::i(e.eval(env)), st.clone())).collect())), true)
            }
        },
        M::Wr => {
            if s.bool() {
                (A::Prim(format!("wr.tell({src})"), Box::new(move |env, st| vec![(V::Null, st.logged(V::i(e.eval(env))))])), false)
            } else {
                (
                    A::Prim(format!("wr.step({src})"), Box::new(move |env, st| {
                        let n = e.eval(env);
                        vec![(V::i(n + 1), st.logged(V::i(n)).logged(V::i(n)))]
                    })),
                    true,
                )
            }
        }
        M::Opt => match s.below(5) {
            0 => (A::Prim("opt.none".into(), Box::new(|_, _| vec![])), true),
            1 => (
                A::Prim(format!("opt.small({src})"), Box::new(move |env, st| {
                    let n = e.eval(env);
                    if n < 6 { vec![(V::i(n), st.clone())] } else { vec![] }
                })),
                true,
            ),
            _ => (A::Prim(format!("opt.some({src})"), Box::new(move |env, st| vec![(V::i(e.eval(env)), st.clone())])), true),
        },
        M::Let => (A::Prim(src, Box::new(move |env, st| vec![(V::i(e.eval(env)), st.clone())])), true),
    }
}

fn tick(m: M, x: i64, st: &St) -> Vec<(V, St)> {
    let v = |n: i64| V::i(n);
    match m {
        M::State => vec![(v(st.get("a") + x), st.put("a", v(st.get("a") + x)))],
        M::For => vec![(v(x), st.clone()), (v(x * 10), st.clone())],
        M::Wr => vec![(v(x + 1), st.logged(v(x)))],
        M::Opt if x == 5 => vec![],
        _ => vec![(v(x + 1), st.clone())],
    }
}
fn keep(m: M, x: i64, st: &St) -> Vec<(bool, St)> {
    match m {
        M::State => {
            let st = st.put("b", V::i(st.get("b") + 1));
            vec![(st.get("b") > x + 8, st)]
        }
        M::For => vec![(true, st.clone()), (x > 2, st.clone())],
        M::Wr => vec![(x > 2, st.logged(V::list([V::i(x)])))],
        M::Opt if x == 4 => vec![],
        _ => vec![(x > 2, st.clone())],
    }
}

impl A {
    fn src(&self, m: M, s: &mut Src) -> String {
        let n = m.name();
        let join = |es: &[E]| es.iter().map(|e| e.src()).collect::<Vec<_>>().join(", ");
        match self {
            A::Prim(t, _) => t.clone(),
            A::Ret(e) => format!("{n}.return({})", e.src()),
            A::Block(steps, ret, named) => {
                let head = if *named { format!("{{ monad: {n} }}") } else { format!(":{n}") };
                let body: Vec<String> = steps.iter().map(|(k, a)| format!("{k}: {}", a.src(m, s))).collect();
                let sep = if s.bool() { ", " } else { " " };
                let ret = ret.as_ref().map(|e| format!(".({})", e.src())).unwrap_or_default();
                format!("({{ {head} {} }}{ret})", body.join(sep))
            }
            A::Map(k, a) => {
                let a = a.src(m, s);
                call(s, &format!("{n}.map"), &[format!("(+ {k})"), a])
            }
            A::Then(a, b, piped) => {
                let (a, b) = (a.src(m, s), b.src(m, s));
                if *piped {
                    format!("(({a}) {n}.then({b}))")
                } else {
                    format!("{n}.then({b}, {a})")
                }
            }
            A::Bind(a, x, b, piped) => {
                let (a, b) = (a.src(m, s), b.src(m, s));
                let app = if *piped { format!("(({a}) {n}.and-then(zk))") } else { format!("{n}.bind({a}, zk)") };
                format!("{{ zk({x}): {b} }}.{app}").replace(&format!("}}.{n}"), &format!("}}.({n}")) + if *piped { "" } else { ")" }
            }
            A::Join(a) => format!("{n}.join({n}.return({}))", a.src(m, s)),
            A::Seq(xs) => {
                let xs: Vec<String> = xs.iter().map(|a| a.src(m, s)).collect();
                call(s, &format!("{n}.sequence"), &[format!("[{}]", xs.join(", "))])
            }
            A::MapM(es) => call(s, &format!("{n}.map-m"), &[format!("tick-{n}"), format!("[{}]", join(es))]),
            A::FilterM(es) => call(s, &format!("{n}.filter-m"), &[format!("keep-{n}"), format!("[{}]", join(es))]),
        }
    }
    /// All outcomes, in order.
    fn run(&self, m: M, env: &Env, st: &St) -> Vec<(V, St)> {
        match self {
            A::Prim(_, f) => f(env, st),
            A::Ret(e) => vec![(V::i(e.eval(env)), st.clone())],
            A::Block(steps, ret, _) => {
                let mut outs = vec![(env.clone(), st.clone())];
                for (k, a) in steps {
                    outs = outs
                        .into_iter()
                        .flat_map(|(env, st)| {
                            a.run(m, &env, &st).into_iter().map(move |(v, st)| {
                                let mut env = env.clone();
                                env.push((k.clone(), v));
                                (env, st)
                            })
                        })
                        .collect();
                }
                let fin = |env: Env| match ret {
                    Some(e) => V::i(e.eval(&env)),
                    None => V::Block(
                        env[env.len() - steps.len()..].iter().filter(|(k, _)| !k.starts_with('_')).map(|(k, v)| (V::Sym(k.clone()), v.clone())).collect(),
                    ),
                };
                outs.into_iter().map(|(env, st)| (fin(env), st)).collect()
            }
            A::Map(k, a) => a.run(m, env, st).into_iter().map(|(v, st)| (plus(*k)(&v), st)).collect(),
            A::Then(a, b, _) => a.run(m, env, st).into_iter().flat_map(|(_, st)| b.run(m, env, &st)).collect(),
            A::Bind(a, x, b, _) => a
                .run(m, env, st)
                .into_iter()
                .flat_map(|(v, st)| {
                    let mut env = env.clone();
                    env.push((x.clone(), v));
                    b.run(m, &env, &st)
                })
                .collect(),
            A::Join(a) => a.run(m, env, st),
            A::Seq(xs) => {
                let mut outs = vec![(vec![], st.clone())];
                for a in xs {
                    outs = outs
                        .into_iter()
                        .flat_map(|(vs, st)| {
                            a.run(m, env, &st).into_iter().map(move |(v, st)| {
                                let mut vs: Vec<V> = vs.clone();
                                vs.push(v);
                                (vs, st)
                            })
                        })
                        .collect();
                }
                outs.into_iter().map(|(vs, st)| (V::List(vs), st)).collect()
            }
            A::MapM(es) => {
                let mut outs = vec![(vec![], st.clone())];
                for e in es {
                    outs = outs
                        .into_iter()
                        .flat_map(|(vs, st)| {
                            tick(m, e.eval(env), &st).into_iter().map(move |(v, st)| {
                                let mut vs: Vec<V> = vs.clone();
                                vs.push(v);
                                (vs, st)
                            })
                        })
                        .collect();
                }
                outs.into_iter().map(|(vs, st)| (V::List(vs), st)).collect()
            }
            A::FilterM(es) => {
                let mut outs = vec![(vec![], st.clone())];
                for e in es {
                    let x = e.eval(env);
                    outs = outs
                        .into_iter()
                        .flat_map(|(vs, st)| {
                            keep(m, x, &st).into_iter().map(move |(k, st)| {
                                let mut vs: Vec<V> = vs.clone();
                                if k {
                                    vs.push(V::i(x));
                                }
                                (vs, st)
                            })
                        })
                        .collect();
                }
                outs.into_iter().map(|(vs, st)| (V::List(vs), st)).collect()
            }
        }
    }
}

/// An action, and whether its value is an integer.
fn action(s: &mut Src, m: M, names: &[String], depth: usize) -> (A, bool) {
    if depth == 0 {
        return if s.pct(20) { (A::Ret(exp(s, names)), true) } else { prim(s, m, names) };
    }
    match s.below(13) {
        0 => prim(s, m, names),
        1..=4 => {
            let mut inner = names.to_vec();
            let mut steps = vec![];
            for i in 0..s.range(1, 4) {
                let (a, is_int) = action(s, m, &inner, depth - 1);
                let k = if s.pct(20) { format!("_z{depth}{i}") } else { format!("v{depth}{i}") };
                if is_int && !k.starts_with('_') {
                    inner.push(k.clone());
                }
                steps.push((k, a));
            }
            let ret = if s.pct(60) { Some(exp(s, &inner)) } else { None };
            let is_int = ret.is_some();
            (A::Block(steps, ret, s.pct(20)), is_int)
        }
        5 => {
            let (a, is_int) = action(s, m, names, depth - 1);
            if is_int {
                (A::Map(s.range(0, 5), Box::new(a)), true)
            } else {
                (a, false)
            }
        }
        6 => {
            let (a, _) = action(s, m, names, depth - 1);
            let (b, is_int) = action(s, m, names, depth - 1);
            (A::Then(Box::new(a), Box::new(b), s.bool()), is_int)
        }
        7 | 8 => {
            let (a, ai) = action(s, m, names, depth - 1);
            let x = format!("x{depth}");
            let mut inner = names.to_vec();
            if ai {
                inner.push(x.clone());
            }
            let (b, is_int) = action(s, m, &inner, depth - 1);
            (A::Bind(Box::new(a), x, Box::new(b), s.bool()), is_int)
        }
        9 => {
            let (a, is_int) = action(s, m, names, depth - 1);
            (A::Join(Box::new(a)), is_int)
        }
        10 => (A::Seq((0..s.range(0, 3)).map(|_| action(s, m, names, depth - 1).0).collect()), false),
        11 => (A::MapM((0..s.range(0, 3)).map(|_| exp(s, names)).collect()), false),
        _ => (A::FilterM((0..s.range(0, 3)).map(|_| exp(s, names)).collect()), false),
    }
}

fn monads(s: &mut Src, ctx: &mut Ctx) -> Res {
    let xs = items(s, 8, 0, |s| {
        let m = *s.pick(&[M::State, M::State, M::State, M::For, M::Wr, M::Opt, M::Let]);
        let depth = s.range(0, 3) as usize;
        let (a, _) = action(s, m, &[], depth);
        let src = a.src(m, s);
        let start = V::Block(vec![
            (V::Sym("a".into()), V::i(3)),
            (V::Sym("b".into()), V::i(10)),
            (
                V::Sym("c".into()),
                V::Block(vec![(V::Sym("d".into()), V::i(5)), (V::Sym("e".into()), V::list([V::i(1), V::i(2), V::i(3)]))]),
            ),
            (V::Sym("l".into()), V::list([V::i(7), V::i(8)])),
        ]);
        let mut outs = a.run(m, &vec![], &St { state: start, log: vec![] });
        if outs.len() > 400 {
            return it("large", "1".into(), Exp::Val(V::i(1)), false);
        }
        let sym = |k: &str| V::Sym(k.to_string());
        let nt = depth > 0;
        match m {
            M::For => it("for", src, Exp::Val(V::list(outs.into_iter().map(|o| o.0))), nt),
            M::Let => it("let", src, Exp::Val(outs.remove(0).0), nt),
            M::Opt => {
                let w = match outs.pop() {
                    Some((v, _)) => V::Block(vec![(sym("ok"), V::Bool(true)), (sym("v"), v)]),
                    None => V::Block(vec![(sym("ok"), V::Bool(false))]),
                };
                it("opt", src, Exp::Val(w), nt)
            }
            M::Wr => {
                let (v, st) = outs.remove(0);
                it("wr", src, Exp::Val(V::Block(vec![(sym("value"), v), (sym("log"), V::List(st.log))])), nt)
            }
            M::State => {
                let (v, st) = outs.remove(0);
                match s.below(4) {
                    0 => it("state", format!("state.eval({src}, start)"), Exp::Val(v), nt),
                    1 => it("state", format!("{{ zr: start state.run({src}) }}.[zr.state, zr.value]"), Exp::Val(V::list([st.state, v])), nt),
                    2 => it("state", format!("{{ zf: {src} }}.[zf(start).value, zf(start).state]"), Exp::Val(V::list([v, st.state])), nt),
                    _ => it("state", format!("{{ zr: state.run({src}, start) }}.[zr.value, zr.state]"), Exp::Val(V::list([v, st.state])), nt),
                }
            }
        }
    });
    run_items(ctx, PREFIX, &xs, &Opts::default())
}

pub fn prop() -> Prop {
    Prop {
        id: "C27",
        facets: vec![
            Facet { name: "lenses", rule: "lenses and traversals composed over generated data, viewed, listed, changed and taken as parts, against a model of foci; non-trivial: an optic of one step or more", quick: 280, thorough: 15000, run: lenses },
            Facet { name: "monads", rule: "actions of the state, list, identity and two user-made monads in blocks and combinators, against an interpreter of state, log and choice; non-trivial: a composed action", quick: 380, thorough: 15000, run: monads },
        ],
        known: vec![],
        assumptions: vec!["foci are numbers, lists and blocks; changes of missing places are not claimed"],
    }
}
