//! C12: lists.

use crate::engine::{Ctx, Facet, Prop, Res, Src};
use crate::ev::{Opts, V};
use crate::gen::*;

/// Named helpers the generated expressions use as functional arguments.
pub const PREFIX: &str = "\
even?(x): x % 2 = 0
big?(x): x > 3
f2(a, b): a * 2 - b
sq(x): x * x
m3(x): x % 3
rep(x): [x, x]
up(x): iota(x) take(2)
tag(a, b): [a, b]
kf(x): [\"k\", str.of(m3(x))] str.join-on(\"\") sym
ltm(a, b): m3(a) < m3(b)
boom: panic(\"forced\")
";

fn i(v: &V) -> i128 {
    match v {
        V::Int(n) => *n,
        _ => 0,
    }
}

pub struct P {
    pub src: &'static str,
    pub f: fn(&V) -> bool,
}
pub const PREDS: &[P] = &[
    P { src: "even?", f: |v| i(v) % 2 == 0 },
    P { src: "big?", f: |v| i(v) > 3 },
    P { src: "pos?", f: |v| i(v) > 0 },
    P { src: "(> 2)", f: |v| i(v) > 2 },
    P { src: "(_ = 3)", f: |v| i(v) == 3 },
    P { src: "const(true)", f: |_| true },
    P { src: "const(false)", f: |_| false },
];
pub struct F {
    pub src: &'static str,
    pub f: fn(&V) -> V,
}
pub const FNS: &[F] = &[
    F { src: "inc", f: |v| V::Int(i(v) + 1) },
    F { src: "(* 2)", f: |v| V::Int(i(v) * 2) },
    F { src: "sq", f: |v| V::Int(i(v) * i(v)) },
    F { src: "negate", f: |v| V::Int(-i(v)) },
    F { src: "(10 - _)", f: |v| V::Int(10 - i(v)) },
    F { src: "identity", f: |v| v.clone() },
    F { src: "m3", f: |v| V::Int(i(v).rem_euclid(3)) },
    F { src: "rep", f: |v| V::List(vec![v.clone(), v.clone()]) },
];
/// only number-to-number
const NFNS: usize = 7;
pub struct G {
    pub src: &'static str,
    pub f: fn(&V, &V) -> V,
}
pub const OPS: &[G] = &[
    G { src: "(+)", f: |a, b| V::Int(i(a) + i(b)) },
    G { src: "(-)", f: |a, b| V::Int(i(a) - i(b)) },
    G { src: "f2", f: |a, b| V::Int(i(a) * 2 - i(b)) },
    G { src: "max", f: |a, b| if i(a) > i(b) { a.clone() } else { b.clone() } },
    G { src: "(_1 - _0)", f: |a, b| V::Int(i(b) - i(a)) },
];

pub fn ints(s: &mut Src, max: usize) -> Vec<V> {
    s.vec(max, |s| V::Int(s.range(-3, 9) as i128))
}

fn words(s: &mut Src, max: usize) -> Vec<V> {
    s.vec(max, |s| V::Str((*s.pick(&["a", "b", "aa", "ab", "B", "", "z", "é", "10", "9", "日"])).to_string()))
}

fn anys(s: &mut Src, max: usize) -> Vec<V> {
    s.vec(max, |s| value(s, 1))
}

/// A list written in one of several ways, with the same elements.
pub fn list_src(s: &mut Src, xs: &[V]) -> String {
    let l = lit(&V::List(xs.to_vec()));
    let n = xs.len();
    match s.below(8) {
        3 if n > 0 => format!("cons({}, {})", lit(&xs[0]), lit(&V::List(xs[1..].to_vec()))),
        4 if n > 1 => {
            let k = n / 2;
            format!("({} ++ {})", lit(&V::List(xs[..k].to_vec())), lit(&V::List(xs[k..].to_vec())))
        }
        5 => format!("({l} map(identity))"),
        6 => format!("({l} ++ [])"),
        7 => format!("{{ l: {l} }}.l"),
        _ => l,
    }
}

fn p2(a: Vec<V>, b: Vec<V>) -> V {
    V::List(vec![V::List(a), V::List(b)])
}

fn qsort_model(xs: &[V], lt: &dyn Fn(&V, &V) -> bool) -> Vec<V> {
    let mut out: Vec<V> = vec![];
    for x in xs {
        // stable insertion: after everything not greater
        let mut k = out.len();
        while k > 0 && lt(x, &out[k - 1]) {
            k -= 1;
        }
        out.insert(k, x.clone());
    }
    out
}

fn windows(n: usize, step: usize, xs: &[V]) -> Vec<V> {
    let mut out = vec![];
    let mut k = 0;
    while k + n <= xs.len() {
        out.push(V::List(xs[k..k + n].to_vec()));
        k += step;
    }
    out
}

fn windows_all(n: usize, step: usize, xs: &[V]) -> Vec<V> {
    let mut out = vec![];
    let mut k = 0;
    while k < xs.len() {
        out.push(V::List(xs[k..(k + n).min(xs.len())].to_vec()));
        k += step;
    }
    out
}

const ANY: &[&str] = &[];

fn val(v: V) -> Exp {
    Exp::Val(v)
}
fn lst(v: Vec<V>) -> Exp {
    Exp::Val(V::List(v))
}

fn item(s: &mut Src) -> Item {
    let xs = if s.below(4) == 3 { anys(s, 8) } else { ints(s, 10) };
    let l = list_src(s, &xs);
    let ln = xs.len();
    let nt = ln > 1;
    let k = s.n(12);
    let ks = k.to_string();
    macro_rules! c {
        ($name:expr, [$($a:expr),*], $e:expr) => {{ let a: Vec<String> = vec![$($a.to_string()),*]; it($name, call(s, $name, &a), $e, nt) }};
    }
    match s.below(34) {
        0 => c!("head", [l], xs.first().cloned().map(val).unwrap_or(Exp::Err(ANY))),
        1 => c!("tail", [l], if ln > 0 { lst(xs[1..].to_vec()) } else { Exp::Err(ANY) }),
        2 => c!("head-or", ["99", l], val(xs.first().cloned().unwrap_or(V::Int(99)))),
        3 => c!("tail-or", ["[7]", l], lst(if ln > 0 { xs[1..].to_vec() } else { vec![V::Int(7)] })),
        4 => c!("nil?", [l], val(V::Bool(ln == 0))),
        5 => c!("non-nil?", [l], val(V::Bool(ln != 0))),
        6 => c!("second", [l], if ln > 1 { val(xs[1].clone()) } else { Exp::Err(ANY) }),
        7 => c!("second-or", ["99", l], if ln != 1 || true { val(xs.get(1).cloned().unwrap_or(V::Int(99))) } else { Exp::Err(ANY) }),
        8 => c!("count", [l], val(V::Int(ln as i128))),
        9 => c!("last", [l], xs.last().cloned().map(val).unwrap_or(Exp::Err(ANY))),
        10 => c!("butlast", [l], if ln > 0 { lst(xs[..ln - 1].to_vec()) } else { Exp::Err(ANY) }),
        11 => c!("reverse", [l], lst(xs.iter().rev().cloned().collect())),
        12 => c!("take", [ks, l], lst(xs[..k.min(ln)].to_vec())),
        13 => c!("drop", [ks, l], if k <= ln { lst(xs[k..].to_vec()) } else { Exp::Err(ANY) }),
        14 => c!("split-at", [ks, l], val(p2(xs[..k.min(ln)].to_vec(), xs[k.min(ln)..].to_vec()))),
        15 => {
            if s.bool() {
                it("!!", binop(s, "!!", &l, &ks), xs.get(k).cloned().map(val).unwrap_or(Exp::Err(ANY)), nt)
            } else {
                c!("nth", [ks, l], xs.get(k).cloned().map(val).unwrap_or(Exp::Err(ANY)))
            }
        }
        16 => {
            let mut v = xs.clone();
            if k <= ln {
                v.rotate_left(k);
            }
            c!("rotate", [ks, l], lst(v))
        }
        17 => {
            let v = value(s, 1);
            let mut o = xs.clone();
            o.push(v.clone());
            c!("snoc", [lit(&v), l], lst(o))
        }
        18 => {
            let v = value(s, 1);
            let mut o = vec![v.clone()];
            o.extend(xs.clone());
            if s.bool() {
                it("‖", format!("({} ‖ {l})", lit(&v)), lst(o), nt)
            } else {
                c!("cons", [lit(&v), l], lst(o))
            }
        }
        19 => {
            let ys = anys(s, 6);
            let l2 = list_src(s, &ys);
            let mut o = xs.clone();
            o.extend(ys.clone());
            let mut r = ys.clone();
            r.extend(xs.clone());
            match s.below(3) {
                0 => it("++", binop(s, "++", &l, &l2), lst(o), nt),
                1 => c!("append", [l, l2], lst(o)),
                _ => c!("prepend", [l, l2], lst(r)),
            }
        }
        20 => {
            let ls: Vec<Vec<V>> = s.vec(5, |s| anys(s, 4));
            let src = format!("[{}]", ls.iter().map(|x| list_src(s, x)).collect::<Vec<_>>().join(", "));
            it("concat", call(s, "concat", &[src]), lst(ls.concat()), ls.len() > 1)
        }
        21 => {
            let ys = anys(s, 8);
            let l2 = list_src(s, &ys);
            let z: Vec<V> = xs.iter().zip(&ys).map(|(a, b)| V::List(vec![a.clone(), b.clone()])).collect();
            match s.below(3) {
                0 => c!("zip", [l, l2], lst(z)),
                1 => c!("zip-with", ["tag", l, l2], lst(z)),
                _ => c!("map2", ["tag", l, l2], lst(z)),
            }
        }
        22 => {
            let ps: Vec<(V, V)> = s.vec(5, |s| (value(s, 1), value(s, 1)));
            let src = lit(&V::List(ps.iter().map(|(a, b)| V::List(vec![a.clone(), b.clone()])).collect()));
            it("unzip", call(s, "unzip", &[src]), val(p2(ps.iter().map(|p| p.0.clone()).collect(), ps.iter().map(|p| p.1.clone()).collect())), ps.len() > 1)
        }
        23 => {
            let ys = anys(s, 6);
            let l2 = list_src(s, &ys);
            let mut o = vec![];
            let (mut a, mut b) = (xs.as_slice(), ys.as_slice());
            while let Some((h, t)) = a.split_first() {
                o.push(h.clone());
                let nb = t;
                a = b;
                b = nb;
            }
            o.extend(b.iter().cloned());
            c!("interleave", [l, l2], lst(o))
        }
        24 => {
            let ys = anys(s, 4);
            let l2 = list_src(s, &ys);
            let mut o = vec![];
            for a in &xs {
                for b in &ys {
                    o.push(V::List(vec![a.clone(), b.clone()]));
                }
            }
            c!("cross", ["tag", l, l2], lst(o))
        }
        25 => {
            let (n, st) = (1 + s.n(4), 1 + s.n(4));
            // a full step is needed after each whole chunk
            let w = windows(n, st, &xs);
            let over = {
                let mut k = 0;
                let mut bad = false;
                while k + n <= ln {
                    if k + st > ln {
                        bad = true;
                    }
                    k += st;
                }
                bad
            };
            c!("window", [n, st, l], if over { Exp::Err(ANY) } else { lst(w) })
        }
        26 => {
            let n = 1 + s.n(4);
            c!("partition", [n, l], lst(windows(n, n, &xs)))
        }
        27 => {
            let (n, st) = (1 + s.n(4), 1 + s.n(4));
            if s.bool() {
                c!("window-all", [n, st, l], lst(windows_all(n, st, &xs)))
            } else {
                c!("partition-all", [n, l], lst(windows_all(n, n, &xs)))
            }
        }
        28 => {
            let rows = s.n(4) + 1;
            let cols = s.n(4);
            let m: Vec<Vec<V>> = (0..rows).map(|_| (0..cols).map(|_| value(s, 0)).collect()).collect();
            let src = lit(&V::List(m.iter().map(|r| V::List(r.clone())).collect()));
            let t: Vec<V> = (0..cols).map(|c| V::List(m.iter().map(|r| r[c].clone()).collect())).collect();
            it("transpose", call(s, "transpose", &[src]), lst(t), cols > 1)
        }
        29 => {
            let t: Vec<V> = (0..ln).map(|k| V::List(xs[k..].to_vec())).collect();
            c!("tails", [l], lst(t))
        }
        30 => {
            let (b, e) = (s.range(-5, 12), s.range(-5, 12));
            let e = e.max(b);
            c!("range", [b, e], lst((b..e).map(|n| V::Int(n as i128)).collect()))
        }
        31 => {
            let mut o: Vec<V> = vec![];
            for x in &xs {
                if o.last() != Some(x) {
                    o.push(x.clone());
                }
            }
            c!("uniq", [l], lst(o))
        }
        32 => {
            let mut g: Vec<Vec<V>> = vec![];
            for x in &xs {
                match g.last_mut() {
                    Some(q) if q[0] == *x => q.push(x.clone()),
                    _ => g.push(vec![x.clone()]),
                }
            }
            c!("group-consecutive", [l], lst(g.into_iter().map(V::List).collect()))
        }
        _ => {
            let ys: Vec<V> = s.vec(6, |s| if s.bool() { V::Null } else { scalar(s) });
            let src = list_src(s, &ys);
            let e = ys.iter().find(|v| **v != V::Null).cloned().unwrap_or(V::Null);
            it("coalesce", call(s, "coalesce", &[src]), val(e), ys.len() > 1)
        }
    }
}

fn plain(s: &mut Src, c: &mut Ctx) -> Res {
    let v = items(s, 20, 2, item);
    run_items(c, PREFIX, &v, &Opts::default())
}

fn hof_item(s: &mut Src) -> Item {
    let xs = ints(s, 9);
    let l = list_src(s, &xs);
    let nt = xs.len() > 1;
    let p = s.pick(PREDS);
    let f = s.pick(FNS);
    let nf = s.pick(&FNS[..NFNS]);
    let g = s.pick(OPS);
    let z = V::Int(s.range(-3, 5) as i128);
    let zl = lit(&z);
    macro_rules! c {
        ($name:expr, [$($a:expr),*], $e:expr) => {{ let a: Vec<String> = vec![$($a.to_string()),*]; it($name, call(s, $name, &a), $e, nt) }};
    }
    let split = xs.iter().position(|x| !(p.f)(x)).unwrap_or(xs.len());
    let splitn = xs.iter().position(|x| (p.f)(x)).unwrap_or(xs.len());
    let yes: Vec<V> = xs.iter().filter(|x| (p.f)(x)).cloned().collect();
    let no: Vec<V> = xs.iter().filter(|x| !(p.f)(x)).cloned().collect();
    match s.below(31) {
        0 => c!("map", [f.src, l], lst(xs.iter().map(f.f).collect())),
        1 => it("<$>", format!("({} <$> {l})", f.src), lst(xs.iter().map(f.f).collect()), nt),
        2 => c!("filter", [p.src, l], lst(yes)),
        3 => c!("remove", [p.src, l], lst(no)),
        4 => c!("foldl", [g.src, zl, l], val(xs.iter().fold(z, |a, b| (g.f)(&a, b)))),
        5 => c!("foldr", [g.src, zl, l], val(xs.iter().rev().fold(z, |a, b| (g.f)(b, &a)))),
        6 => {
            let mut o = vec![z.clone()];
            for x in &xs {
                o.push((g.f)(o.last().unwrap(), x));
            }
            c!("scanl", [g.src, zl, l], lst(o))
        }
        7 => {
            let mut o = vec![z.clone()];
            for x in xs.iter().rev() {
                o.push((g.f)(x, o.last().unwrap()));
            }
            o.reverse();
            c!("scanr", [g.src, zl, l], lst(o))
        }
        8 => c!("reduce", [g.src, l], if xs.is_empty() { Exp::Err(ANY) } else { val(xs[1..].iter().fold(xs[0].clone(), |a, b| (g.f)(&a, b))) }),
        9 => c!("take-while", [p.src, l], lst(xs[..split].to_vec())),
        10 => c!("take-until", [p.src, l], lst(xs[..splitn].to_vec())),
        11 => c!("drop-while", [p.src, l], lst(xs[split..].to_vec())),
        12 => c!("drop-until", [p.src, l], lst(xs[splitn..].to_vec())),
        13 => c!("split-after", [p.src, l], val(p2(xs[..split].to_vec(), xs[split..].to_vec()))),
        14 => c!("split-when", [p.src, l], val(p2(xs[..splitn].to_vec(), xs[splitn..].to_vec()))),
        15 => c!("discriminate", [p.src, l], val(p2(yes, no))),
        16 => c!("all", [p.src, l], val(V::Bool(xs.iter().all(p.f)))),
        17 => c!("any", [p.src, l], val(V::Bool(xs.iter().any(p.f)))),
        18 => {
            let k = s.n(5);
            let mut o = vec![];
            let mut v = z.clone();
            for _ in 0..k {
                o.push(v.clone());
                v = (nf.f)(&v);
            }
            let e = call(s, "iterate", &[nf.src.to_string(), zl.clone()]);
            it("iterate", format!("take({k}, {e})"), lst(o), k > 1)
        }
        19 => c!("mapcat", ["up", l], lst(xs.iter().flat_map(|x| vec![V::Int(i(x)), V::Int(i(x) + 1)]).collect())),
        20 => c!("over-sliding-pairs", [g.src, l], lst(xs.windows(2).map(|w| (g.f)(&w[0], &w[1])).collect())),
        21 => {
            let mut ks: Vec<V> = vec![];
            let mut gs: Vec<Vec<V>> = vec![];
            for x in &xs {
                let k = V::s(format!("k{}", i(x).rem_euclid(3)));
                match ks.iter().position(|q| *q == k) {
                    Some(p) => gs[p].push(x.clone()),
                    None => {
                        ks.push(k);
                        gs.push(vec![x.clone()]);
                    }
                }
            }
            let b = V::Block(ks.into_iter().zip(gs.into_iter().map(V::List)).map(|(k, v)| (V::Sym(k.key().unwrap().into()), v)).collect());
            c!("group-by", ["kf", l], val(b))
        }
        22 => {
            let mut g: Vec<Vec<V>> = vec![];
            for x in &xs {
                match g.last_mut() {
                    Some(q) if (nf.f)(&q[0]) == (nf.f)(x) => q.push(x.clone()),
                    _ => g.push(vec![x.clone()]),
                }
            }
            c!("group-consecutive-by", [nf.src, l], lst(g.into_iter().map(V::List).collect()))
        }
        23 => {
            let mut seen = vec![];
            let mut o = vec![];
            for x in &xs {
                let k = (nf.f)(x);
                if !seen.contains(&k) {
                    seen.push(k);
                    o.push(x.clone());
                }
            }
            c!("nub-by", [nf.src, l], lst(o))
        }
        24 => {
            let mut o: Vec<Vec<V>> = vec![vec![]];
            for x in &xs {
                if (p.f)(x) {
                    o.push(vec![]);
                } else {
                    o.last_mut().unwrap().push(x.clone());
                }
            }
            c!("split-on", [p.src, l], lst(o.into_iter().map(V::List).collect()))
        }
        25 => {
            let k = s.n(10);
            let mut o = xs.clone();
            let e = if k < xs.len() {
                o[k] = (nf.f)(&o[k]);
                lst(o)
            } else {
                Exp::Err(ANY)
            };
            c!("update-nth", [k, nf.src, l], e)
        }
        26 => {
            let mut o = xs.clone();
            if let Some(k) = xs.iter().position(|x| (p.f)(x)) {
                o[k] = (nf.f)(&o[k]);
            }
            c!("update-first", [p.src, nf.src, l], lst(o))
        }
        27 | 28 => {
            let want = |gt: bool| -> Exp {
                let mut it = xs.iter();
                let Some(first) = it.next() else { return Exp::Err(ANY) };
                let mut b = first;
                for x in it {
                    let (v, w) = (i(&(nf.f)(x)), i(&(nf.f)(b)));
                    if if gt { v > w } else { v < w } {
                        b = x;
                    }
                }
                val(b.clone())
            };
            match s.below(4) {
                0 => c!("max-of-by", [nf.src, l], want(true)),
                1 => c!("min-of-by", [nf.src, l], want(false)),
                2 => c!("max-map", [nf.src, l], xs.iter().map(|x| i(&(nf.f)(x))).max().map(|n| val(V::Int(n))).unwrap_or(Exp::Err(ANY))),
                _ => c!("min-map", [nf.src, l], xs.iter().map(|x| i(&(nf.f)(x))).min().map(|n| val(V::Int(n))).unwrap_or(Exp::Err(ANY))),
            }
        }
        29 => {
            let ps: Vec<(V, V)> = s.vec(5, |s| (V::Int(s.range(-3, 9) as i128), value(s, 1)));
            let src = lit(&V::List(ps.iter().map(|(a, b)| V::List(vec![a.clone(), b.clone()])).collect()));
            let o = ps.iter().map(|(a, b)| V::List(vec![(nf.f)(a), b.clone()])).collect();
            it("map-first", call(s, "map-first", &[nf.src.into(), src]), lst(o), ps.len() > 1)
        }
        _ => {
            let fs: Vec<&F> = s.vec(6, |s| s.pick(FNS));
            let src = format!("[{}]", fs.iter().map(|f| f.src).collect::<Vec<_>>().join(", "));
            c!("zip-apply", [src, l], lst(fs.iter().zip(&xs).map(|(f, x)| (f.f)(x)).collect()))
        }
    }
}

fn hof(s: &mut Src, c: &mut Ctx) -> Res {
    let v = items(s, 18, 2, hof_item);
    run_items(c, PREFIX, &v, &Opts::default())
}

fn sort_item(s: &mut Src) -> Item {
    let max = if s.below(8) == 7 { 60 } else { 14 };
    match s.below(8) {
        0 => {
            let xs: Vec<V> = s.vec(max, |s| if s.below(3) == 0 { any_num(s) } else { V::Int(small_int(s) as i128) });
            let mut o = xs.clone();
            let key = |v: &V| match v {
                V::Int(n) => (*n as f64, *n),
                V::Float(x) => (*x, *x as i128),
                _ => (0.0, 0),
            };
            o.sort_by(|a, b| key(a).partial_cmp(&key(b)).unwrap());
            let l = list_src(s, &xs);
            it("sort-nums", call(s, "sort-nums", &[l]), lst(o), xs.len() > 2)
        }
        1 => {
            let xs = words(s, max);
            let mut o = xs.clone();
            o.sort_by(|a, b| a.key().cmp(&b.key()));
            let l = list_src(s, &xs);
            it("sort-strs", call(s, "sort-strs", &[l]), lst(o), xs.len() > 2)
        }
        2 => {
            let xs: Vec<V> = s.vec(max, |s| V::Sym(key(s)));
            let mut o = xs.clone();
            o.sort_by(|a, b| a.key().cmp(&b.key()));
            let l = list_src(s, &xs);
            it("sort-strs-sym", call(s, "sort-strs", &[l]), lst(o), xs.len() > 2)
        }
        3 => {
            let xs = ints(s, max);
            let l = list_src(s, &xs);
            let (name, lt): (&str, fn(&V, &V) -> bool) = *s.pick(&[
                ("(<)", (|a, b| i(a) < i(b)) as fn(&V, &V) -> bool),
                ("(>)", |a, b| i(a) > i(b)),
                ("ltm", |a, b| i(a).rem_euclid(3) < i(b).rem_euclid(3)),
            ]);
            it("qsort", call(s, "qsort", &[name.into(), l]), lst(qsort_model(&xs, &lt)), xs.len() > 2)
        }
        4 | 5 => {
            // stability: sort tagged pairs by a key with many ties
            let ps: Vec<V> = s
                .vec(max, |s| s.range(0, 4))
                .into_iter()
                .enumerate()
                .map(|(k, n)| V::List(vec![V::Int(n as i128), V::s(format!("t{k}"))]))
                .collect();
            let fst = |v: &V| match v {
                V::List(p) => i(&p[0]),
                _ => 0,
            };
            let o = qsort_model(&ps, &|a, b| fst(a) < fst(b));
            let src = list_src(s, &ps);
            let n = ps.len() > 2;
            match s.below(3) {
                0 => it("sort-by", call(s, "sort-by", &["first".into(), "(<)".into(), src]), lst(o), n),
                1 => {
                    let o = qsort_model(&ps, &|a, b| fst(a) > fst(b));
                    it("sort-by", call(s, "sort-by", &["first".into(), "(>)".into(), src]), lst(o), n)
                }
                _ => it("sort-by-num", call(s, "sort-by-num", &["first".into(), src]), lst(o), n),
            }
        }
        6 => {
            let ps: Vec<V> = words(s, max).into_iter().enumerate().map(|(k, w)| V::List(vec![w, V::Int(k as i128)])).collect();
            let fst = |v: &V| match v {
                V::List(p) => p[0].key().unwrap().to_string(),
                _ => String::new(),
            };
            let o = qsort_model(&ps, &|a, b| fst(a) < fst(b));
            let src = list_src(s, &ps);
            it("sort-by-str", call(s, "sort-by-str", &["first".into(), src]), lst(o), ps.len() > 2)
        }
        _ => {
            let xs: Vec<V> = s.vec(max, |s| any_num(s));
            let l = list_src(s, &xs);
            let as_f = |v: &V| match v {
                V::Int(n) => *n as f64,
                V::Float(x) => *x,
                _ => 0.0,
            };
            let gt = s.bool();
            let mut o: Vec<V> = vec![];
            let key = |v: &V| match v {
                V::Int(n) => (*n as f64, *n),
                V::Float(x) => (*x, *x as i128),
                _ => (0.0, 0),
            };
            let _ = as_f;
            for x in &xs {
                let n = match o.last() {
                    Some(a) if (gt && key(x) > key(a)) || (!gt && key(x) < key(a)) => x.clone(),
                    Some(a) => a.clone(),
                    None => x.clone(),
                };
                o.push(n);
            }
            let name = if gt { "running-max" } else { "running-min" };
            it(name, call(s, name, &[l]), lst(o), xs.len() > 2)
        }
    }
}

fn sorting(s: &mut Src, c: &mut Ctx) -> Res {
    let v = items(s, 12, 0, sort_item);
    run_items(c, PREFIX, &v, &Opts::default())
}

/// Only what is demanded is computed: infinite lists, and elements whose
/// evaluation would fail but are not needed.
fn lazy_item(s: &mut Src) -> Item {
    let k = s.n(8);
    let n = s.range(-3, 9) as i128;
    let seq = |a: i128, k: usize| -> Vec<V> { (0..k).map(|j| V::Int(a + j as i128)).collect() };
    let xs = {
        let mut v = ints(s, 6);
        v.push(V::Int(1));
        v
    };
    let l = lit(&V::List(xs.clone()));
    let variant = s.below(3);
    let bombed = {
        // the elements, then an element that fails, then a failing tail
        let e: Vec<String> = xs.iter().map(lit).collect();
        match variant {
            0 => format!("[{}, boom]", e.join(", ")),
            1 => format!("({l} ++ [boom])"),
            _ => format!("({l} ++ boom)"),
        }
    };
    // whether the spine is looked at one past what is taken is left open
    let m = s.n(xs.len() + usize::from(variant != 2));
    match s.below(14) {
        0 => it("lazy-iota", format!("({n} iota take({k}))"), lst(seq(n, k)), k > 0),
        1 => it("lazy-repeat", format!("take({k}, repeat({n}))"), lst(vec![V::Int(n); k]), k > 0),
        2 => it("lazy-cycle", format!("({l} cycle take({}))", k * 2), lst(xs.iter().cycle().take(k * 2).cloned().collect()), k > 0),
        3 => it("lazy-ints", format!("(ints-from({n}) drop({k}) head)"), val(V::Int(n + k as i128)), true),
        4 => it("lazy-map", format!("({n} iota map(sq) take({k}))"), lst(seq(n, k).iter().map(|v| V::Int(i(v) * i(v))).collect()), k > 0),
        5 => it("lazy-filter", format!("({n} iota filter(even?) take({k}))"), lst(seq(n, 2 * k + 2).into_iter().filter(|v| i(v) % 2 == 0).take(k).collect()), k > 0),
        6 => it("lazy-bomb-take", format!("({bombed} take({m}))"), lst(xs[..m].to_vec()), true),
        7 => it("lazy-bomb-head", format!("({bombed} head)"), val(xs[0].clone()), true),
        8 => it("lazy-bomb-map", format!("({bombed} map(inc) take({m}))"), lst(xs[..m].iter().map(|v| V::Int(i(v) + 1)).collect()), true),
        9 => it("lazy-bomb-zip", format!("(zip({}, {bombed}) map(second))", lit(&V::List(xs[..m].to_vec()))), lst(xs[..m].to_vec()), true),
        10 => it("lazy-bomb-nth", format!("({bombed} nth({}))", m.min(xs.len() - 1)), val(xs[m.min(xs.len() - 1)].clone()), true),
        11 => it("lazy-count", format!("([{}] count)", vec!["boom"; k].join(", ")), val(V::Int(k as i128)), k > 0),
        12 => it("lazy-naturals", format!("(ℕ take({k}))"), lst(seq(0, k)), k > 0),
        _ => it("lazy-bomb-forced", format!("(({l} ++ [boom]) map(inc) last)"), Exp::Err(&["UserPanic"]), true),
    }
}

fn lazy(s: &mut Src, c: &mut Ctx) -> Res {
    let v = items(s, 16, 1, lazy_item);
    run_items(c, PREFIX, &v, &Opts::default())
}

/// Larger lists, where a wrong step in a loop or a collection shows.
fn large(s: &mut Src, c: &mut Ctx) -> Res {
    let n = 100 + s.n(1500);
    let a = s.range(1, 97) as i128;
    let b = s.range(0, 50) as i128;
    let m = s.range(2, 400) as i128;
    let xs: Vec<i128> = (0..n as i128).map(|k| (k * a + b) % m).collect();
    let l = format!("(range(0, {n}) map({{ k: • }}.((k * {a} + {b}) % {m})))");
    let v = |it: Vec<i128>| lst(it.into_iter().map(V::Int).collect());
    let mut sorted = xs.clone();
    sorted.sort();
    let k = s.n(n);
    let its = vec![
        it("large-sort", format!("({l} sort-nums)"), v(sorted.clone()), true),
        it("large-qsort", format!("({l} take(300) qsort(<))"), v({
            let mut q: Vec<i128> = xs.iter().take(300).cloned().collect();
            q.sort();
            q
        }), true),
        it("large-rev", format!("({l} reverse)"), v(xs.iter().rev().cloned().collect()), true),
        it("large-filter", format!("({l} filter(even?))"), v(xs.iter().filter(|x| *x % 2 == 0).cloned().collect()), true),
        it("large-sum", format!("({l} sum)"), val(V::Int(xs.iter().sum())), true),
        it("large-drop", format!("({l} drop({k}))"), v(xs[k..].to_vec()), true),
        it("large-take", format!("({l} take({k}))"), v(xs[..k].to_vec()), true),
        it("large-nth", format!("({l} nth({k}))"), val(V::Int(xs[k])), true),
        it("large-count", format!("({l} count)"), val(V::Int(n as i128)), true),
    ];
    let pick: Vec<Item> = its.into_iter().filter(|_| s.below(3) == 2).collect();
    run_items(c, PREFIX, &pick, &Opts::default())
}

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        facets: vec![
            Facet { name: "plain", rule: "first-order list functions on generated lists in varied spellings, against a list model; non-trivial: two or more elements", quick: 1100, thorough: 24000, run: plain },
            Facet { name: "hof", rule: "map, filter, folds, scans, grouping and splitting with generated functions; non-trivial: two or more elements", quick: 1100, thorough: 24000, run: hof },
            Facet { name: "sorting", rule: "sorts of numbers, strings, symbols and tagged pairs, including stability; non-trivial: three or more elements", quick: 600, thorough: 12000, run: sorting },
            Facet { name: "lazy", rule: "infinite lists and lists with failing parts that are not demanded; non-trivial by item", quick: 500, thorough: 10000, run: lazy },
            Facet { name: "large", rule: "lists of 100 to 1600 elements; every item non-trivial", quick: 120, thorough: 2500, run: large },
        ],
        known: vec![],
        assumptions: vec![],
    }
}
