//! C09: numbers.

use crate::engine::{Ctx, Facet, Prop, Res, Src};
use crate::ev::{Opts, V};
use crate::gen::*;

const RANGE: &[&str] = &["NumericRangeError"];
const DOMAIN: &[&str] = &["NumericDomainError", "NumericRangeError"];
const DIVZ: &[&str] = &["DivisionByZero"];
const BITS: &[&str] = &["BitwiseIntegerRequired"];
const SHIFT: &[&str] = &["BitshiftRangeError"];

fn f(v: &V) -> f64 {
    match v {
        V::Int(n) => *n as f64,
        V::Float(x) => *x,
        _ => f64::NAN,
    }
}

fn i64s(a: &V, b: &V) -> Option<(i128, i128)> {
    match (a, b) {
        (V::Int(x), V::Int(y)) if i64::try_from(*x).is_ok() && i64::try_from(*y).is_ok() => Some((*x, *y)),
        _ => None,
    }
}

fn u64s(a: &V, b: &V) -> Option<(i128, i128)> {
    match (a, b) {
        (V::Int(x), V::Int(y)) if *x >= 0 && *y >= 0 => Some((*x, *y)),
        _ => None,
    }
}

fn fl(x: f64) -> Exp {
    if x.is_finite() {
        Exp::Val(V::Float(x))
    } else {
        Exp::Err(DOMAIN)
    }
}

fn floored(x: f64) -> Exp {
    if x.is_finite() && (i64::MIN as f64..=i64::MAX as f64).contains(&x) && (x as i64) as f64 == x {
        Exp::Val(V::Int(x as i64 as i128))
    } else {
        fl(x)
    }
}

fn exact(a: &V, b: &V, op: fn(i128, i128) -> Option<i128>, fop: fn(f64, f64) -> Exp) -> Exp {
    if let Some((x, y)) = i64s(a, b) {
        match op(x, y).and_then(|r| i64::try_from(r).ok()) {
            Some(r) => Exp::Val(V::Int(r as i128)),
            None => Exp::Err(RANGE),
        }
    } else if let Some((x, y)) = u64s(a, b) {
        match op(x, y).and_then(|r| u64::try_from(r).ok()) {
            Some(r) => Exp::Val(V::Int(r as i128)),
            None => Exp::Err(RANGE),
        }
    } else {
        fop(f(a), f(b))
    }
}

fn is_zero(v: &V) -> bool {
    f(v) == 0.0
}

fn floor_div(a: i128, b: i128) -> i128 {
    let q = a / b;
    if a % b != 0 && ((a < 0) != (b < 0)) {
        q - 1
    } else {
        q
    }
}

pub fn model(op: &str, a: &V, b: &V) -> Exp {
    if matches!(op, "/" | "%" | "÷" | "quot" | "rem") && is_zero(b) {
        return Exp::Err(DIVZ);
    }
    match op {
        "+" => exact(a, b, |x, y| x.checked_add(y), |x, y| fl(x + y)),
        "-" => exact(a, b, |x, y| x.checked_sub(y), |x, y| fl(x - y)),
        "*" => exact(a, b, |x, y| x.checked_mul(y), |x, y| fl(x * y)),
        "/" => exact(a, b, |x, y| Some(floor_div(x, y)), |x, y| floored((x / y).floor())),
        "quot" => exact(a, b, |x, y| Some(x / y), |x, y| floored((x / y).trunc())),
        // the i64 hardware operation has no result for MIN % -1
        "%" => exact(
            a,
            b,
            |x, y| if x == i64::MIN as i128 && y == -1 { None } else { Some(x - y * floor_div(x, y)) },
            |x, y| fl(x - y * (x / y).floor()),
        ),
        "rem" => exact(a, b, |x, y| if x == i64::MIN as i128 && y == -1 { None } else { Some(x % y) }, |x, y| fl(x % y)),
        "÷" => fl(f(a) / f(b)),
        "^" => pow(a, b),
        _ => unreachable!(),
    }
}

fn pow(a: &V, b: &V) -> Exp {
    if let (V::Int(x), V::Int(e)) = (a, b) {
        if *e >= 0 {
            let lim = |r: i128| if *x > i64::MAX as i128 { u64::try_from(r).is_ok() } else { i64::try_from(r).is_ok() };
            let mut acc: Option<i128> = Some(1);
            if x.abs() <= 1 {
                acc = Some(if *e == 0 || *x == 1 {
                    1
                } else if *x == 0 {
                    0
                } else if e % 2 == 0 {
                    1
                } else {
                    -1
                });
                if *e > u32::MAX as i128 {
                    acc = None; // outside the exact range: floating point
                }
            } else {
                for _ in 0..(*e).min(70) {
                    acc = acc.and_then(|r| r.checked_mul(*x)).filter(|r| lim(*r));
                }
                if *e > 70 {
                    acc = None;
                }
            }
            if let Some(r) = acc {
                return Exp::Val(V::Int(r));
            }
        }
    }
    let (x, e) = (f(a), f(b));
    let r = x.powf(e);
    if r.is_finite() {
        Exp::Val(V::Float(r))
    } else {
        Exp::Err(&["NumericDomainError", "ComplexResult"])
    }
}

/// An operand: a literal, or an expression that computes the same number.
fn operand(s: &mut Src, v: &V) -> String {
    let l = lit(v);
    match s.below(5) {
        3 => format!("([{l}] head)"),
        4 => format!("{{ v: {l} }}.v"),
        _ => l,
    }
}

fn nums(s: &mut Src) -> (V, V) {
    let a = any_num(s);
    let b = match s.below(4) {
        // related operands: equal, neighbours, opposite
        3 => match (&a, s.below(4)) {
            (V::Int(n), 0) => V::Int(*n),
            (V::Int(n), 1) => V::Int((n + 1).min(u64::MAX as i128)),
            (V::Int(n), 2) => V::Int((-n).max(i64::MIN as i128)),
            (V::Int(n), _) => V::Float(*n as f64),
            (V::Float(x), 0) => V::Float(*x),
            (V::Float(x), 1) => V::Float(-x),
            (_, _) => V::Int(s.range(-3, 3) as i128),
        },
        _ => any_num(s),
    };
    (a, b)
}

const OPS: &[&str] = &["+", "-", "*", "/", "%", "÷", "^", "quot", "rem"];

fn arith_item(s: &mut Src) -> Item {
    let op = *s.pick(OPS);
    let (a, mut b) = nums(s);
    if op == "^" && s.pct(80) {
        b = V::Int(s.range(-3, 66) as i128);
    }
    let exp = model(op, &a, &b);
    let (x, y) = (operand(s, &a), operand(s, &b));
    let expr = match op {
        "quot" | "rem" => call(s, op, &[x, y]),
        "/" if s.below(4) == 3 => call(s, "div", &[x, y]),
        "%" if s.below(4) == 3 => call(s, "mod", &[x, y]),
        "^" if s.below(4) == 3 => call(s, "pow", &[x, y]),
        _ => binop(s, op, &x, &y),
    };
    let nt = !is_zero(&a) && !is_zero(&b);
    it(op, expr, exp, nt)
}

fn arith(s: &mut Src, c: &mut Ctx) -> Res {
    let v = items(s, 24, 3, arith_item);
    run_items(c, "", &v, &Opts::default())
}

fn cmp(a: &V, b: &V) -> Option<std::cmp::Ordering> {
    if let Some((x, y)) = i64s(a, b).or(u64s(a, b)) {
        Some(x.cmp(&y))
    } else {
        f(a).partial_cmp(&f(b))
    }
}

fn cmp_item(s: &mut Src) -> Item {
    let (a, b) = nums(s);
    let o = cmp(&a, &b).unwrap();
    let (x, y) = (operand(s, &a), operand(s, &b));
    let (name, val): (&'static str, V) = match s.below(10) {
        0 => ("<", V::Bool(o.is_lt())),
        1 => (">", V::Bool(o.is_gt())),
        2 => ("<=", V::Bool(o.is_le())),
        3 => (">=", V::Bool(o.is_ge())),
        4 => ("≤", V::Bool(o.is_le())),
        5 => ("≥", V::Bool(o.is_ge())),
        6 => ("=", V::Bool(o.is_eq())),
        7 => ("!=", V::Bool(!o.is_eq())),
        8 => {
            let v = if o.is_gt() { a.clone() } else { b.clone() };
            return it("max", call(s, "max", &[x, y]), Exp::Val(v), true);
        }
        _ => {
            let v = if o.is_lt() { a.clone() } else { b.clone() };
            return it("min", call(s, "min", &[x, y]), Exp::Val(v), true);
        }
    };
    it(name, binop(s, name, &x, &y), Exp::Val(val), true)
}

fn unary_item(s: &mut Src) -> Item {
    let a = any_num(s);
    let x = operand(s, &a);
    let one = V::Int(1);
    let zero = V::Int(0);
    let (name, exp): (&'static str, Exp) = match s.below(10) {
        0 => ("inc", model("+", &a, &one)),
        1 => ("dec", model("-", &a, &one)),
        2 => ("negate", model("-", &zero, &a)),
        3 => ("abs", if f(&a) < 0.0 { model("-", &zero, &a) } else { Exp::Val(a.clone()) }),
        4 => ("zero?", Exp::Val(V::Bool(f(&a) == 0.0))),
        5 => ("pos?", Exp::Val(V::Bool(f(&a) > 0.0))),
        6 => ("neg?", Exp::Val(V::Bool(f(&a) < 0.0))),
        7 => ("floor", Exp::Val(if let V::Float(x) = a { V::Float(x.floor()) } else { a.clone() })),
        8 => ("ceiling", Exp::Val(if let V::Float(x) = a { V::Float(x.ceil()) } else { a.clone() })),
        _ => ("∸", model("-", &zero, &a)),
    };
    let expr = match name {
        "∸" => format!("(∸ {x})"),
        "floor" if s.bool() => format!("⌊{x}⌋"),
        "ceiling" if s.bool() => format!("⌈{x}⌉"),
        _ => call(s, name, &[x]),
    };
    it(name, expr, exp, !is_zero(&a))
}

fn compare(s: &mut Src, c: &mut Ctx) -> Res {
    let v = items(s, 24, 2, |s| if s.below(3) == 2 { unary_item(s) } else { cmp_item(s) });
    run_items(c, "", &v, &Opts::default())
}

fn as_bits(v: &V) -> Option<i64> {
    match v {
        V::Int(n) => i64::try_from(*n).ok(),
        V::Float(x) if x.fract() == 0.0 && *x >= i64::MIN as f64 && *x <= i64::MAX as f64 => Some(*x as i64),
        _ => None,
    }
}

fn bit_item(s: &mut Src) -> Item {
    let a = if s.below(8) == 7 { V::Float(any_float(s)) } else { V::Int(any_int(s)) };
    let k = s.below(9);
    let b = if k == 3 || k == 4 {
        V::Int(if s.below(8) == 7 { s.range(-3, 70) } else { s.range(0, 63) } as i128)
    } else {
        V::Int(any_int(s))
    };
    let (x, y) = (operand(s, &a), operand(s, &b));
    let bin = |op: fn(i64, i64) -> i64| match (as_bits(&a), as_bits(&b)) {
        (Some(p), Some(q)) => Exp::Val(V::Int(op(p, q) as i128)),
        _ => Exp::Err(BITS),
    };
    let un = |op: fn(i64) -> i64| match as_bits(&a) {
        Some(p) => Exp::Val(V::Int(op(p) as i128)),
        _ => Exp::Err(BITS),
    };
    let shift = |op: fn(i64, i64) -> i64| match (as_bits(&a), as_bits(&b)) {
        (Some(p), Some(q)) if (0..64).contains(&q) => Exp::Val(V::Int(op(p, q) as i128)),
        (Some(_), Some(_)) => Exp::Err(SHIFT),
        _ => Exp::Err(BITS),
    };
    let (name, sym, expd, unary): (&'static str, &'static str, Exp, bool) = match k {
        0 => ("bit.and", "&", bin(|p, q| p & q), false),
        1 => ("bit.or", "|", bin(|p, q| p | q), false),
        2 => ("bit.xor", "⊕", bin(|p, q| p ^ q), false),
        3 => ("bit.shl", "≪", shift(|p, q| ((p as u64) << q) as i64), false),
        4 => ("bit.shr", "≫", shift(|p, q| p >> q), false),
        5 => ("bit.not", "⊝", un(|p| !p), true),
        6 => ("bit.popcount", "", un(|p| p.count_ones() as i64), true),
        7 => ("bit.ctz", "", un(|p| p.trailing_zeros() as i64), true),
        _ => ("bit.clz", "", un(|p| p.leading_zeros() as i64), true),
    };
    let expr = if unary {
        if !sym.is_empty() && s.bool() {
            format!("({sym} {x})")
        } else {
            call(s, name, &[x])
        }
    } else if s.bool() {
        binop(s, sym, &x, &y)
    } else {
        call(s, name, &[x, y])
    };
    it(name, expr, expd, !is_zero(&a))
}

fn bits(s: &mut Src, c: &mut Ctx) -> Res {
    let v = items(s, 24, 3, bit_item);
    run_items(c, "", &v, &Opts::default())
}

/// Folds over number lists, with a step-by-step model.
fn agg_item(s: &mut Src) -> Item {
    let small = s.below(4) != 3;
    let xs: Vec<V> = s.vec(9, |s| if small { V::Int(small_int(s) as i128) } else { any_num(s) });
    let l = lit(&V::List(xs.clone()));
    let fold = |op: &str, init: V| -> Exp {
        let mut acc = Exp::Val(init);
        for x in &xs {
            acc = match acc {
                Exp::Val(v) => model(op, &v, x),
                e => e,
            };
        }
        acc
    };
    let best = |gt: bool| -> Option<V> {
        let mut it = xs.iter();
        let mut m = it.next()?.clone();
        for x in it {
            // max(l, r) keeps l only when l > r
            let o = cmp(&m, x)?;
            if !(if gt { o.is_gt() } else { o.is_lt() }) {
                m = x.clone();
            }
        }
        Some(m)
    };
    let nt = xs.len() > 1;
    match s.below(8) {
        0 | 1 => it("sum", call(s, "sum", &[l]), fold("+", V::Int(0)), nt),
        2 => it("product", call(s, "product", &[l]), fold("*", V::Int(1)), nt),
        3 => it("max-of", call(s, "max-of", &[l]), best(true).map(Exp::Val).unwrap_or(Exp::Err(&[])), nt),
        4 => it("min-of", call(s, "min-of", &[l]), best(false).map(Exp::Val).unwrap_or(Exp::Err(&[])), nt),
        5 => it("max-of-or", call(s, "max-of-or", &["7".into(), l]), Exp::Val(best(true).unwrap_or(V::Int(7))), nt),
        6 => it("min-of-or", call(s, "min-of-or", &["7".into(), l]), Exp::Val(best(false).unwrap_or(V::Int(7))), nt),
        _ => {
            let mut out = vec![];
            for w in xs.windows(2) {
                match model("-", &w[1], &w[0]) {
                    Exp::Val(v) => out.push(v),
                    e => return it("differences", call(s, "differences", &[l]), e, nt),
                }
            }
            it("differences", call(s, "differences", &[l]), Exp::Val(V::List(out)), nt)
        }
    }
}

fn aggregates(s: &mut Src, c: &mut Ctx) -> Res {
    let v = items(s, 16, 2, agg_item);
    run_items(c, "", &v, &Opts::default())
}

/// Number text: literals, `num` and `str.of` agree with each other.
fn text_item(s: &mut Src) -> Item {
    let a = any_num(s);
    let l = lit(&a);
    match s.below(4) {
        0 => it("literal", l, Exp::Val(a.clone()), true),
        1 => it("num", call(s, "num", &[lit_str(&l)]), Exp::Val(a.clone()), true),
        2 => it("num-of-str", format!("({l} str.of num)"), Exp::Val(a.clone()), true),
        _ => {
            let bad = *s.pick(&["", "abc", "1x", "--1", "1.2.3", " 1", "0x10", "1_000", "+", "one", "1,5"]);
            it("bad-num", call(s, "num", &[lit_str(bad)]), Exp::Err(&["BadNumberFormat"]), true)
        }
    }
}

fn text(s: &mut Src, c: &mut Ctx) -> Res {
    let v = items(s, 20, 2, text_item);
    run_items(c, "", &v, &Opts::default())
}

/// Nested arithmetic expressions over exact integers and floats.
fn tree(s: &mut Src, depth: usize) -> (String, Exp) {
    if depth == 0 || s.below(4) == 0 {
        let v = if s.below(5) == 4 { any_num(s) } else { V::Int(small_int(s) as i128) };
        return (lit(&v), Exp::Val(v));
    }
    let op = *s.pick(&["+", "-", "*", "/", "%"]);
    let (x, vx) = tree(s, depth - 1);
    let (y, vy) = tree(s, depth - 1);
    let e = match (vx, vy) {
        (Exp::Val(a), Exp::Val(b)) => model(op, &a, &b),
        _ => Exp::Err(&[]),
    };
    // sections do not nest, so only the plain spellings here
    (if s.bool() { format!("({x} {op} {y})") } else { format!("{{ zqa: {x} zqb: {y} }}.(zqa {op} zqb)") }, e)
}

fn nested(s: &mut Src, c: &mut Ctx) -> Res {
    let v = items(s, 10, 1, |s| {
        let (e, x) = tree(s, 4);
        let nt = e.len() > 20;
        it("nested", e, x, nt)
    });
    run_items(c, "", &v, &Opts::default())
}

pub fn prop() -> Prop {
    Prop {
        id: "C09",
        facets: vec![
            Facet { name: "arith", rule: "batches of + - * / % ÷ ^ quot rem calls on boundary-weighted integers and floats in varied spellings, against an exact-integer model; non-trivial: both operands non-zero", quick: 1600, thorough: 40000, run: arith },
            Facet { name: "compare", rule: "comparisons, min/max and unary functions on the same numbers; non-trivial: every comparison, non-zero unary operands", quick: 1000, thorough: 20000, run: compare },
            Facet { name: "bits", rule: "bitwise operators and bit.* functions; non-trivial: non-zero first operand", quick: 800, thorough: 20000, run: bits },
            Facet { name: "aggregates", rule: "sum, product, extrema and differences of number lists; non-trivial: two or more elements", quick: 600, thorough: 12000, run: aggregates },
            Facet { name: "text", rule: "literals, num and str.of; every case non-trivial", quick: 500, thorough: 12000, run: text },
            Facet { name: "nested", rule: "nested arithmetic trees; non-trivial: more than 20 characters", quick: 600, thorough: 12000, run: nested },
        ],
        known: vec![],
        assumptions: vec!["f64 powf of the host libm is the reference for inexact powers"],
    }
}
