//! C13: sets, vecs, n-dimensional arrays and graph functions.

use crate::engine::{fail, Ctx, Facet, Prop, Res, Src};
use crate::ev::{self, Opts, V};
use crate::gen::*;
use std::collections::BTreeSet;

pub const PREFIX: &str = "\
wrap(x): [x] head
plus1(x): x + 1
addc(c, v): v + (c foldl(+, 0))
f2(a, b): a * 2 - b
mk(xs): set.from-list(xs)
";

/// A primitive in the order sets list them: numbers, strings, symbols.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Pm {
    /// in eighths
    Num(i128),
    Str(String),
    Sym(String),
}
impl Pm {
    /// An integer that a float need not hold.
    fn large(n: i128) -> bool {
        n.abs() > 1 << 56
    }
    fn v(&self) -> V {
        match self {
            Pm::Num(n) if Self::large(*n) && (n / 8) as f64 as i128 != n / 8 => V::Int(n / 8),
            Pm::Num(n) => V::Float(*n as f64 / 8.0),
            Pm::Str(s) => V::Str(s.clone()),
            Pm::Sym(s) => V::Sym(s.clone()),
        }
    }
    /// Source text, sometimes of a computed value.
    fn src(&self, s: &mut Src) -> String {
        match self {
            Pm::Num(n) => {
                let l = if Self::large(*n) || n % 8 == 0 && s.below(3) != 2 { lit_int(n / 8) } else { lit_f64(*n as f64 / 8.0) };
                match s.below(6) {
                    3 => format!("({l} + 0)"),
                    4 => format!("wrap({l})"),
                    5 => format!("num(\"{l}\")"),
                    _ => l,
                }
            }
            Pm::Str(t) => {
                let l = lit_str(t);
                match s.below(5) {
                    3 => format!("str.join-on(\"\", [{l}])"),
                    4 => format!("wrap({l})"),
                    _ => l,
                }
            }
            Pm::Sym(t) => {
                if s.below(4) == 3 {
                    format!("sym({})", lit_str(t))
                } else {
                    lit_sym(t)
                }
            }
        }
    }
}

fn prim(s: &mut Src) -> Pm {
    match s.below(6) {
        0..=2 => Pm::Num(s.range(-4, 8) as i128 * 8),
        3 => Pm::Num(match s.below(5) {
            0 | 1 => s.range(-20, 20) as i128,
            2 | 3 => s.range(-1_000_000, 1_000_000) as i128 * 8,
            _ => {
                let base = *s.pick(&[1i128 << 53, -(1 << 53), i64::MAX as i128, i64::MIN as i128 + 9, u64::MAX as i128 - 9]);
                (base + s.range(-4, 4) as i128).clamp(i64::MIN as i128, u64::MAX as i128) * 8
            }
        }),
        4 => Pm::Str((*s.pick(&["a", "b", "ab", "", "1", "é", "Z", "zz"])).to_string()),
        _ => Pm::Sym((*s.pick(&["a", "b", "ab", "zz", "m", "k9", "foo"])).to_string()),
    }
}

fn prims(s: &mut Src, max: usize) -> Vec<Pm> {
    s.vec(max, prim)
}

fn list_of(s: &mut Src, ps: &[Pm]) -> String {
    let xs: Vec<String> = ps.iter().map(|p| p.src(s)).collect();
    format!("[{}]", xs.join(", "))
}

fn to_list(ps: &BTreeSet<Pm>) -> V {
    V::List(ps.iter().map(Pm::v).collect())
}
fn seq(ps: &[Pm]) -> V {
    V::List(ps.iter().map(Pm::v).collect())
}

/// A set expression, built in one of several ways, and its elements.
fn a_set(s: &mut Src, depth: usize) -> (String, BTreeSet<Pm>) {
    if depth == 0 || s.below(3) == 0 {
        let ps = prims(s, 8);
        let b: BTreeSet<Pm> = ps.iter().cloned().collect();
        return match s.below(4) {
            0 | 1 => {
                let l = list_of(s, &ps);
                (call(s, "set.from-list", &[l]), b)
            }
            2 => {
                let mut e = "∅".to_string();
                for p in &ps {
                    e = format!("set.add({}, {e})", p.src(s));
                }
                (e, b)
            }
            _ => {
                let mut e = "(∅".to_string();
                for p in &ps {
                    e.push_str(&format!(" set.add({})", p.src(s)));
                }
                e.push(')');
                (e, b)
            }
        };
    }
    let (x, bx) = a_set(s, depth - 1);
    match s.below(5) {
        0 => {
            let (y, by) = a_set(s, depth - 1);
            (call(s, "set.union", &[x, y]), bx.union(&by).cloned().collect())
        }
        1 => {
            let (y, by) = a_set(s, depth - 1);
            (call(s, "set.intersect", &[x, y]), bx.intersection(&by).cloned().collect())
        }
        2 => {
            let (y, by) = a_set(s, depth - 1);
            // `a set.diff(b)` takes b from a
            (call(s, "set.diff", &[y, x]), bx.difference(&by).cloned().collect())
        }
        3 => {
            let p = member(s, &bx);
            let mut b = bx.clone();
            b.insert(p.clone());
            let l = p.src(s);
            (call(s, "set.add", &[l, x]), b)
        }
        _ => {
            let p = member(s, &bx);
            let mut b = bx.clone();
            b.remove(&p);
            let l = p.src(s);
            (call(s, "set.remove", &[l, x]), b)
        }
    }
}

/// A primitive, often an element.
fn member(s: &mut Src, b: &BTreeSet<Pm>) -> Pm {
    if !b.is_empty() && s.bool() {
        let i = s.n(b.len());
        b.iter().nth(i).unwrap().clone()
    } else {
        prim(s)
    }
}

fn set_item(s: &mut Src) -> Item {
    let (e, b) = a_set(s, 2);
    let nt = b.len() > 1;
    match s.below(9) {
        0..=2 => it("to-list", call(s, "set.to-list", &[e]), Exp::Val(to_list(&b)), nt),
        3 => it("render", e, Exp::Val(to_list(&b)), nt),
        4 => it("size", call(s, "set.size", &[e]), Exp::Val(V::Int(b.len() as i128)), nt),
        5 => it("empty?", call(s, "set.empty?", &[e]), Exp::Val(V::Bool(b.is_empty())), nt),
        6 => {
            let p = member(s, &b);
            let l = p.src(s);
            it("contains?", call(s, "set.contains?", &[l, e]), Exp::Val(V::Bool(b.contains(&p))), nt)
        }
        7 => {
            let p = member(s, &b);
            let yes = s.bool();
            let l = p.src(s);
            it("member-op", binop(s, if yes { "∈" } else { "∉" }, &l, &e), Exp::Val(V::Bool(b.contains(&p) == yes)), nt)
        }
        _ => match s.below(3) {
            0 => it("not-a-set", call(s, "set.size", &["3".into()]), Exp::Err(&[]), true),
            1 => it("not-primitive", call(s, "set.add", &["[1]".into(), e]), Exp::Err(&[]), true),
            _ => it("not-primitive-list", call(s, "set.from-list", &["[1, {a: 1}]".into()]), Exp::Err(&[]), true),
        },
    }
}

fn sets(s: &mut Src, c: &mut Ctx) -> Res {
    let v = items(s, 18, 1, set_item);
    run_items(c, PREFIX, &v, &Opts::default())
}

fn vec_item(s: &mut Src) -> Item {
    let ps = prims(s, 10);
    let l = list_of(s, &ps);
    let n = ps.len() as i64;
    let v = call(s, "vec.of", &[l]);
    let nt = n > 1;
    match s.below(8) {
        0 => it("vec-to-list", call(s, "vec.to-list", &[v]), Exp::Val(seq(&ps)), nt),
        1 => it("vec-render", v, Exp::Val(seq(&ps)), nt),
        2 => it("vec-len", call(s, "vec.len", &[v]), Exp::Val(V::Int(n as i128)), nt),
        3 | 4 => {
            let i = s.range(-2, n + 2);
            let idx = Pm::Num(i as i128 * 8).src(s);
            let e = call(s, "vec.nth", &[idx, v]);
            if (0..n).contains(&i) {
                it("vec-nth", e, Exp::Val(ps[i as usize].v()), nt)
            } else {
                it("vec-nth-out", e, Exp::Err(&[]), true)
            }
        }
        5 | 6 => {
            let (a, b) = (s.range(0, n + 2), s.range(0, n + 2));
            let lo = a.min(n) as usize;
            let hi = (b.min(n) as usize).max(lo);
            let want = if a >= b { vec![] } else { ps[lo..hi].to_vec() };
            let args = [Pm::Num(a as i128 * 8).src(s), Pm::Num(b as i128 * 8).src(s), v];
            let e = call(s, "vec.slice", &args);
            if s.bool() {
                it("vec-slice", format!("({e} vec.to-list)"), Exp::Val(seq(&want)), nt)
            } else {
                it("vec-slice-len", format!("({e} vec.len)"), Exp::Val(V::Int(want.len() as i128)), nt)
            }
        }
        _ => match s.below(2) {
            0 => it("vec-bad", call(s, "vec.of", &["[1, [2]]".into()]), Exp::Err(&[]), true),
            _ => it("not-a-vec", call(s, "vec.len", &["3".into()]), Exp::Err(&[]), true),
        },
    }
}

fn vecs(s: &mut Src, c: &mut Ctx) -> Res {
    let v = items(s, 18, 1, vec_item);
    run_items(c, PREFIX, &v, &Opts::default())
}

/// An n-dimensional array in row-major order; quarters are exact.
#[derive(Clone, Debug)]
struct Arr {
    shape: Vec<usize>,
    data: Vec<f64>,
}

impl Arr {
    fn index(&self, c: &[i64]) -> Option<usize> {
        if c.len() != self.shape.len() {
            return None;
        }
        let mut k = 0;
        for (i, d) in c.iter().zip(&self.shape) {
            if *i < 0 || *i >= *d as i64 {
                return None;
            }
            k = k * d + *i as usize;
        }
        Some(k)
    }
    fn coords(&self) -> Vec<Vec<i64>> {
        let mut out = vec![vec![]];
        for d in &self.shape {
            out = out
                .into_iter()
                .flat_map(|c: Vec<i64>| {
                    (0..*d as i64).map(move |i| {
                        let mut c = c.clone();
                        c.push(i);
                        c
                    })
                })
                .collect();
        }
        out
    }
    fn transpose(&self) -> Arr {
        let shape: Vec<usize> = self.shape.iter().rev().copied().collect();
        let mut t = Arr { shape, data: vec![0.0; self.data.len()] };
        for c in self.coords() {
            let r: Vec<i64> = c.iter().rev().copied().collect();
            let k = t.index(&r).unwrap();
            t.data[k] = self.data[self.index(&c).unwrap()];
        }
        t
    }
    fn slice(&self, axis: usize, idx: usize) -> Option<Arr> {
        if axis >= self.shape.len() || idx >= self.shape[axis] {
            return None;
        }
        let mut shape = self.shape.clone();
        shape.remove(axis);
        let mut data = vec![];
        for c in self.coords() {
            if c[axis] == idx as i64 {
                data.push(self.data[self.index(&c).unwrap()]);
            }
        }
        Some(Arr { shape, data })
    }
    fn flat(&self) -> V {
        V::List(self.data.iter().map(|x| V::Float(*x)).collect())
    }
    fn nested(&self) -> V {
        fn go(shape: &[usize], data: &[f64]) -> V {
            match shape.split_first() {
                None => V::Float(data[0]),
                Some((d, rest)) => {
                    let w: usize = rest.iter().product();
                    V::List((0..*d).map(|i| go(rest, &data[i * w..(i + 1) * w])).collect())
                }
            }
        }
        go(&self.shape, &self.data)
    }
}

fn ints_v(xs: impl IntoIterator<Item = i64>) -> V {
    V::List(xs.into_iter().map(|x| V::Float(x as f64)).collect())
}
fn nums_src(s: &mut Src, xs: &[f64]) -> String {
    let v: Vec<String> = xs.iter().map(|x| Pm::Num((*x * 8.0) as i128).src(s)).collect();
    format!("[{}]", v.join(", "))
}
fn ints_src(s: &mut Src, xs: &[i64]) -> String {
    let v: Vec<f64> = xs.iter().map(|x| *x as f64).collect();
    nums_src(s, &v)
}

fn shape(s: &mut Src) -> Vec<usize> {
    let r = s.weighted(&[1, 5, 6, 3]);
    (0..r).map(|_| s.weighted(&[1, 3, 6, 5, 2]) ).collect()
}

/// An array expression and its contents.
fn an_array(s: &mut Src, depth: usize) -> (String, Arr) {
    if depth == 0 || s.below(3) == 0 {
        let sh = shape(s);
        return of_shape(s, sh);
    }
    let (x, a) = an_array(s, depth - 1);
    match s.below(6) {
        0 => (call(s, "arr.transpose", &[x]), a.transpose()),
        1 => {
            let n = a.data.len();
            let mut sh: Vec<usize> = match s.below(3) {
                0 => vec![n],
                1 => a.shape.iter().rev().copied().collect(),
                _ => vec![1, n],
            };
            if sh.is_empty() {
                sh = vec![1];
            }
            let l = ints_src(s, &sh.iter().map(|x| *x as i64).collect::<Vec<_>>());
            (call(s, "arr.reshape", &[l, x]), Arr { shape: sh, data: a.data })
        }
        2 if !a.data.is_empty() => {
            let cs = a.coords();
            let c = s.pick(&cs).clone();
            let v = s.range(-40, 40) as f64 / 4.0;
            let mut b = a.clone();
            let k = b.index(&c).unwrap();
            b.data[k] = v;
            let args = [ints_src(s, &c), Pm::Num((v * 8.0) as i128).src(s), x];
            (call(s, "arr.set", &args), b)
        }
        3 => {
            let c = s.range(-8, 8) as f64;
            let (op, sym, f): (&str, &str, fn(f64, f64) -> f64) = match s.below(3) {
                0 => ("arr.add", "+", |a, b| a + b),
                1 => ("arr.sub", "-", |a, b| a - b),
                _ => ("arr.mul", "*", |a, b| a * b),
            };
            let l = Pm::Num((c * 8.0) as i128).src(s);
            let left = s.bool();
            let data: Vec<f64> = a.data.iter().map(|x| if left { f(c, *x) } else { f(*x, c) }).collect();
            let (p, q) = if left { (l, x) } else { (x, l) };
            let e = if s.bool() { call(s, op, &[p, q]) } else { format!("({p} {sym} {q})") };
            (e, Arr { shape: a.shape, data })
        }
        4 => {
            let (y, b) = of_shape(s, a.shape.clone());
            let k = s.below(3);
            let (op, sym, f): (&str, &str, fn(f64, f64) -> f64) = match k {
                0 => ("arr.add", "+", |a, b| a + b),
                1 => ("arr.sub", "-", |a, b| a - b),
                _ => ("arr.mul", "*", |a, b| a * b),
            };
            let data: Vec<f64> = a.data.iter().zip(&b.data).map(|(x, y)| f(*x, *y)).collect();
            let e = if s.bool() { call(s, op, &[x, y]) } else { format!("({x} {sym} {y})") };
            (e, Arr { shape: a.shape, data })
        }
        _ => (call(s, "arr.map", &["plus1".into(), x]), Arr { shape: a.shape, data: a.data.iter().map(|x| x + 1.0).collect() }),
    }
}

fn of_shape(s: &mut Src, sh: Vec<usize>) -> (String, Arr) {
    let n: usize = sh.iter().product();
    let l = ints_src(s, &sh.iter().map(|x| *x as i64).collect::<Vec<_>>());
    match s.below(6) {
        0 => (call(s, "arr.zeros", &[l]), Arr { shape: sh, data: vec![0.0; n] }),
        1 => {
            let v = s.range(-40, 40) as f64 / 4.0;
            let args = [l, Pm::Num((v * 8.0) as i128).src(s)];
            (call(s, "arr.fill", &args), Arr { shape: sh, data: vec![v; n] })
        }
        _ => {
            let data: Vec<f64> = (0..n).map(|_| s.range(-40, 40) as f64 / 4.0).collect();
            let d = nums_src(s, &data);
            (call(s, "arr.from-flat", &[l, d]), Arr { shape: sh, data })
        }
    }
}

fn coord(s: &mut Src, a: &Arr) -> Vec<i64> {
    let mut c: Vec<i64> = a.shape.iter().map(|d| s.range(0, *d as i64)).collect();
    // mostly in range
    if s.below(4) != 3 {
        for (i, d) in c.iter_mut().zip(&a.shape) {
            if *i >= *d as i64 {
                *i = *d as i64 - 1;
            }
        }
    }
    if s.below(20) == 19 {
        c.push(0);
    }
    c
}

fn array_item(s: &mut Src) -> Item {
    let (e, a) = an_array(s, 2);
    let n = a.data.len();
    let nt = n > 1;
    match s.below(16) {
        0 | 1 => it("arr-to-list", call(s, "arr.to-list", &[e]), Exp::Val(a.flat()), nt),
        2 => it("arr-render", e, Exp::Val(a.nested()), nt),
        3 => it("arr-shape", call(s, "arr.shape", &[e]), Exp::Val(ints_v(a.shape.iter().map(|x| *x as i64))), nt),
        4 => {
            let (f, k): (&'static str, usize) = if s.bool() { ("arr.rank", a.shape.len()) } else { ("arr.length", n) };
            it(f, call(s, f, &[e]), Exp::Val(V::Int(k as i128)), nt)
        }
        5 | 6 => {
            let c = coord(s, &a);
            let l = ints_src(s, &c);
            let x = call(s, "arr.get", &[l, e]);
            match a.index(&c) {
                Some(k) => it("arr-get", x, Exp::Val(V::Float(a.data[k])), nt),
                None => it("arr-get-out", x, Exp::Err(&[]), true),
            }
        }
        7 => {
            let c = coord(s, &a);
            let args = [ints_src(s, &c), "(5 + 2)".to_string(), e];
            let x = call(s, "arr.set", &args);
            match a.index(&c) {
                Some(k) => {
                    let mut b = a.clone();
                    b.data[k] = 7.0;
                    it("arr-set", x, Exp::Val(b.nested()), nt)
                }
                None => it("arr-set-out", x, Exp::Err(&[]), true),
            }
        }
        8 | 9 => {
            let axis = s.range(0, a.shape.len() as i64);
            let d = a.shape.get(axis as usize).copied().unwrap_or(1) as i64;
            let idx = s.range(0, d);
            let args = [Pm::Num(axis as i128 * 8).src(s), Pm::Num(idx as i128 * 8).src(s), e];
            let x = call(s, "arr.slice", &args);
            match a.slice(axis as usize, idx as usize) {
                Some(b) => it("arr-slice", x, Exp::Val(b.nested()), nt),
                None => it("arr-slice-out", x, Exp::Err(&[]), true),
            }
        }
        10 => it(
            "arr-indices",
            call(s, "arr.indices", &[e]),
            Exp::Val(V::List(a.coords().into_iter().map(ints_v).collect())),
            nt,
        ),
        11 => {
            let want: Vec<f64> = a.coords().iter().zip(&a.data).map(|(c, v)| v + c.iter().sum::<i64>() as f64).collect();
            it("arr-map-indexed", call(s, "arr.map-indexed", &["addc".into(), e]), Exp::Val(Arr { shape: a.shape, data: want }.nested()), nt)
        }
        12 => {
            let want = a.data.iter().fold(1.0, |x, y| x * 2.0 - y);
            let v = if n == 0 { V::Int(1) } else { V::Float(want) };
            // integers stay integers only where nothing was folded
            it("arr-fold", call(s, "arr.fold", &["f2".into(), "1".into(), e]), Exp::Val(v), nt)
        }
        13 => {
            let c: Vec<i64> = a.shape.iter().map(|d| s.range(0, (*d as i64 - 1).max(0))).collect();
            let offs: Vec<Vec<i64>> = (0..s.len(5)).map(|_| a.shape.iter().map(|_| s.range(-2, 2)).collect()).collect();
            if a.shape.is_empty() {
                return it("arr-render", e, Exp::Val(a.nested()), nt);
            }
            let want: Vec<V> = offs
                .iter()
                .filter_map(|o| {
                    let p: Vec<i64> = c.iter().zip(o).map(|(x, y)| x + y).collect();
                    a.index(&p).map(|k| V::Float(a.data[k]))
                })
                .collect();
            let ol: Vec<String> = offs.iter().map(|o| ints_src(s, o)).collect();
            let args = [ints_src(s, &c), format!("[{}]", ol.join(", ")), e];
            it("arr-neighbours", call(s, "arr.neighbours", &args), Exp::Val(V::List(want)), nt)
        }
        14 => match s.below(4) {
            0 => {
                let args = [format!("[{}]", n + 1), e];
                it("arr-bad-reshape", call(s, "arr.reshape", &args), Exp::Err(&["ArrayShapeMismatch"]), true)
            }
            1 => {
                let mut sh: Vec<i64> = a.shape.iter().map(|x| *x as i64).collect();
                sh.push(2);
                let (l, op) = (ints_src(s, &sh), *s.pick(&["arr.add", "arr.sub", "arr.mul", "arr.div"]));
                it("arr-bad-shapes", call(s, op, &[e, format!("arr.zeros({l})")]), Exp::Err(&["ArrayShapeMismatch"]), true)
            }
            2 => it("arr-negative", call(s, "arr.zeros", &["[2, -1]".into()]), Exp::Err(&["ArrayNegativeIndex"]), true),
            _ => it("arr-bad-flat", call(s, "arr.from-flat", &["[2, 2]".into(), "[1, 2, 3]".into()]), Exp::Err(&["ArrayShapeMismatch"]), true),
        },
        _ => {
            let k = *s.pick(&[2.0, 4.0, -8.0]);
            let e = call(s, "arr.div", &[e, lit_int(k as i128)]);
            it("arr-div", e, Exp::Val(Arr { shape: a.shape, data: a.data.iter().map(|x| x / k).collect() }.nested()), nt)
        }
    }
}

fn arrays(s: &mut Src, c: &mut Ctx) -> Res {
    let v = items(s, 18, 2, array_item);
    run_items(c, PREFIX, &v, &Opts::default())
}

/// A chain of bindings, each made from an earlier one; every version must
/// still hold what it held when it was made.
fn history(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut decls = vec![];
    let mut want = vec![];
    let kind = s.below(2);
    let mut setv: Vec<BTreeSet<Pm>> = vec![BTreeSet::new()];
    let mut arrv: Vec<Arr> = vec![];
    if kind == 0 {
        decls.push("v0: ∅".to_string());
    } else {
        let sh: Vec<usize> = (0..1 + s.n(2)).map(|_| 1 + s.n(4)).collect();
        let (e, a) = of_shape(s, sh);
        decls.push(format!("v0: {e}"));
        arrv.push(a);
    }
    let steps = 3 + s.len(25);
    for i in 1..steps {
        if kind == 0 {
            let j = if s.bool() { i - 1 } else { s.n(i) };
            let b = setv[j].clone();
            let (e, r) = match s.below(6) {
                0..=2 => {
                    let p = prim(s);
                    let mut r = b.clone();
                    r.insert(p.clone());
                    (format!("v{j} set.add({})", p.src(s)), r)
                }
                3 => {
                    let p = member(s, &b);
                    let mut r = b.clone();
                    r.remove(&p);
                    (format!("set.remove({}, v{j})", p.src(s)), r)
                }
                4 => {
                    let k = s.n(i);
                    (format!("set.union(v{j}, v{k})"), b.union(&setv[k]).cloned().collect())
                }
                _ => {
                    let k = s.n(i);
                    if s.bool() {
                        (format!("(v{j} set.diff(v{k}))"), b.difference(&setv[k]).cloned().collect())
                    } else {
                        (format!("set.intersect(v{j}, v{k})"), b.intersection(&setv[k]).cloned().collect())
                    }
                }
            };
            decls.push(format!("v{i}: {e}"));
            setv.push(r);
        } else {
            let j = if s.bool() { i - 1 } else { s.n(i) };
            let a = arrv[j].clone();
            let (e, r) = match s.below(4) {
                0 | 1 => {
                    let cs = a.coords();
                    let c = s.pick(&cs).clone();
                    let v = s.range(-9, 9);
                    let mut r = a.clone();
                    let k = r.index(&c).unwrap();
                    r.data[k] = v as f64;
                    (format!("v{j} arr.set({}, {})", ints_src(s, &c), lit_int(v as i128)), r)
                }
                2 => (format!("arr.transpose(v{j})"), a.transpose()),
                _ => {
                    let v = s.range(-3, 3);
                    (format!("arr.add(v{j}, {v})"), Arr { shape: a.shape.clone(), data: a.data.iter().map(|x| x + v as f64).collect() })
                }
            };
            decls.push(format!("v{i}: {e}"));
            arrv.push(r);
        }
    }
    // in random order, so that later versions may be forced first
    let mut order: Vec<usize> = (0..steps).collect();
    s.shuffle(&mut order);
    let mut outs = vec![];
    for k in order {
        if kind == 0 {
            outs.push(format!("set.to-list(v{k})"));
            want.push(to_list(&setv[k]));
        } else {
            outs.push(format!("v{k}"));
            want.push(arrv[k].nested());
        }
    }
    let e = format!("{{ {} }}.[{}]", decls.join(" "), outs.join(", "));
    let nt = steps > 5;
    run_items(ctx, PREFIX, &[it("history", e, Exp::Val(V::List(want)), nt)], &Opts::default())
}

fn graphs(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut cases = vec![];
    for _ in 0..10 {
        let mut edges: Vec<(usize, usize)> = vec![];
        let n;
        if s.pct(50) {
            n = s.n(9);
            for _ in 0..s.len(14) {
                if n > 0 {
                    edges.push((s.n(n), s.n(n)));
                }
            }
        } else {
            // groups of similar size merged by any of their members, then checked by further edges
            n = s.range(6, 24) as usize;
            let mut groups: Vec<Vec<usize>> = (0..n).map(|i| vec![i]).collect();
            s.shuffle(&mut groups);
            while groups.len() > 1 && s.pct(96) {
                let mut a = s.n(groups.len());
                if s.pct(70) {
                    // a small group
                    a = (0..groups.len()).min_by_key(|i| (groups[*i].len(), (*i + a) % groups.len())).unwrap();
                }
                let x = groups.remove(a);
                let b = s.n(groups.len());
                let (p, q) = (*s.pick(&x), *s.pick(&groups[b]));
                edges.push(if s.bool() { (p, q) } else { (q, p) });
                groups[b].extend(x);
                while s.pct(40) {
                    edges.push((s.n(n), s.n(n)));
                }
            }
        }
        let which = s.below(3);
        let el: Vec<String> = edges.iter().map(|(a, b)| format!("[{}, {}]", Pm::Num(*a as i128 * 8).src(s), Pm::Num(*b as i128 * 8).src(s))).collect();
        let f = ["graph.union-find", "graph.topo-sort", "graph.kruskal-edges"][which as usize];
        let args = [n.to_string(), format!("[{}]", el.join(", "))];
        cases.push((which, n, edges, call(s, f, &args)));
    }
    let exprs: Vec<String> = cases.iter().map(|c| c.3.clone()).collect();
    ctx.case(exprs.join("\n"));
    let outs = ev::eval_batch(PREFIX, &exprs, &Opts::default());
    for ((which, n, edges, e), o) in cases.iter().zip(&outs) {
        ctx.sub(e, edges.len() > 1);
        let bad = |why: &str| fail(format!("graph:{which}"), format!("{e}\n  {why}\n  got {}", o.show()));
        let Ok(V::List(xs)) = &o.value else {
            return bad("expected a list");
        };
        let mut nums = vec![];
        for x in xs {
            match x {
                V::Float(f) if f.fract() == 0.0 && *f >= 0.0 => nums.push(*f as usize),
                V::Int(i) if *i >= 0 => nums.push(*i as usize),
                _ => return bad("expected whole numbers"),
            }
        }
        // components by repeated relabelling
        let comps = |edges: &[(usize, usize)]| {
            let mut c: Vec<usize> = (0..*n).collect();
            for (a, b) in edges {
                let (x, y) = (c[*a], c[*b]);
                for z in c.iter_mut() {
                    if *z == x {
                        *z = y;
                    }
                }
            }
            c
        };
        match which {
            0 => {
                let c = comps(edges);
                if nums.len() != *n {
                    return bad("one label per node expected");
                }
                for i in 0..*n {
                    for j in 0..*n {
                        if (c[i] == c[j]) != (nums[i] == nums[j]) {
                            return bad(&format!("nodes {i} and {j}: connected {} but labels {} {}", c[i] == c[j], nums[i], nums[j]));
                        }
                    }
                }
            }
            1 => {
                // nodes reachable from a cycle never come out
                let mut blocked: Vec<bool> = (0..*n).map(|i| {
                    let mut seen = vec![false; *n];
                    let mut st = vec![i];
                    while let Some(x) = st.pop() {
                        for (a, b) in edges {
                            if *a == x && !seen[*b] {
                                seen[*b] = true;
                                st.push(*b);
                            }
                        }
                    }
                    seen[i]
                }).collect();
                loop {
                    let before = blocked.clone();
                    for (a, b) in edges {
                        if blocked[*a] {
                            blocked[*b] = true;
                        }
                    }
                    if before == blocked {
                        break;
                    }
                }
                let want: BTreeSet<usize> = (0..*n).filter(|i| !blocked[*i]).collect();
                let got: BTreeSet<usize> = nums.iter().copied().collect();
                if got != want || nums.len() != want.len() {
                    return bad(&format!("expected exactly the nodes {want:?}"));
                }
                for (a, b) in edges {
                    if let (Some(i), Some(j)) = (nums.iter().position(|x| x == a), nums.iter().position(|x| x == b)) {
                        if i >= j {
                            return bad(&format!("edge {a} -> {b} out of order"));
                        }
                    }
                }
            }
            _ => {
                let mut want = vec![];
                for k in 0..edges.len() {
                    let before = comps(&edges[..k]);
                    if before[edges[k].0] != before[edges[k].1] {
                        let after: BTreeSet<usize> = comps(&edges[..=k]).into_iter().collect();
                        want.push(k);
                        want.push(after.len());
                    }
                }
                if nums != want {
                    return bad(&format!("expected {want:?}"));
                }
            }
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        facets: vec![
            Facet { name: "sets", rule: "set expressions built from lists, additions, removals and algebra over numbers, strings and symbols, against an ordered set; non-trivial: two or more elements", quick: 700, thorough: 20000, run: sets },
            Facet { name: "vecs", rule: "vec construction, indexing and slicing against a sequence; non-trivial: two or more elements", quick: 500, thorough: 15000, run: vecs },
            Facet { name: "arrays", rule: "n-dimensional array expressions (rank 0 to 3, empty axes included) against a row-major model; non-trivial: two or more elements", quick: 900, thorough: 25000, run: arrays },
            Facet { name: "history", rule: "chains of up to 28 versions of a set or array, all read back at the end in random order; non-trivial: more than five versions", quick: 700, thorough: 20000, run: history },
            Facet { name: "graphs", rule: "components, topological order and merge history of random graphs; non-trivial: two or more edges", quick: 500, thorough: 15000, run: graphs },
        ],
        known: vec![],
        assumptions: vec!["set elements and array elements are numbers held as floats, strings and symbols"],
    }
}
