//! C11: blocks.

use crate::engine::{Ctx, Facet, Prop, Res, Src};
use crate::ev::{Opts, V};
use crate::gen::*;

const PREFIX: &str = "\
even?(x): x % 2 = 0
big?(x): x > 3
sq(x): x * x
up-key(k): [k str.of, \"z\"] str.join-on(\"\") sym
txt(k, v): \"{k}={v}\"
swap-el(e): [e first up-key, second(e) + 1]
rule(v): if(v number?, v * 10, if(v string?, \"s\", null))
boom: panic(\"forced\")
";

type B = Vec<(String, V)>;

fn blk(b: &B) -> V {
    V::Block(b.iter().map(|(k, v)| (V::Sym(k.clone()), v.clone())).collect())
}
fn unblk(v: &V) -> B {
    match v {
        V::Block(kvs) => kvs.iter().map(|(k, v)| (k.key().unwrap_or("?").to_string(), v.clone())).collect(),
        _ => vec![],
    }
}
fn is_blk(v: &V) -> bool {
    matches!(v, V::Block(_))
}
fn get<'a>(b: &'a B, k: &str) -> Option<&'a V> {
    b.iter().find(|(q, _)| q == k).map(|(_, v)| v)
}
fn merge(a: &B, b: &B) -> B {
    let mut o = a.clone();
    for (k, v) in b {
        match o.iter_mut().find(|(q, _)| q == k) {
            Some(e) => e.1 = v.clone(),
            None => o.push((k.clone(), v.clone())),
        }
    }
    o
}
fn deep(a: &V, b: &V) -> V {
    if !is_blk(a) || !is_blk(b) {
        return b.clone();
    }
    let mut o = unblk(a);
    for (k, v) in unblk(b) {
        match o.iter_mut().find(|(q, _)| *q == k) {
            Some(e) => e.1 = deep(&e.1, &v),
            None => o.push((k, v)),
        }
    }
    blk(&o)
}
fn i(v: &V) -> i128 {
    match v {
        V::Int(n) => *n,
        _ => 0,
    }
}
fn el(k: &str, v: &V) -> V {
    V::List(vec![V::Sym(k.into()), v.clone()])
}
fn sym(k: &str) -> V {
    V::Sym(k.into())
}
fn syms(ks: &[String]) -> V {
    V::List(ks.iter().map(|k| sym(k)).collect())
}

/// A block written in one of several ways, with the same entries.
pub fn block_src(s: &mut Src, b: &B) -> String {
    let l = lit(&blk(b));
    let n = b.len();
    match s.below(13) {
        1 if n > 1 => {
            let k = 1 + s.n(n - 1);
            let (a, c) = (b[..k].to_vec(), b[k..].to_vec());
            match s.below(4) {
                0 => format!("({} {})", lit(&blk(&a)), lit(&blk(&c))),
                1 => format!("merge({}, {})", lit(&blk(&a)), lit(&blk(&c))),
                2 => format!("({} << {})", lit(&blk(&a)), lit(&blk(&c))),
                _ => format!("merge-all([{}, {{}}, {}])", lit(&blk(&a)), lit(&blk(&c))),
            }
        }
        2 => format!("block([{}])", b.iter().map(|(k, v)| format!("[{}, {}]", lit_sym(k), lit(v))).collect::<Vec<_>>().join(", ")),
        3 => format!("{{ zb: {l} }}.zb"),
        4 => format!("zip-kv([{}], [{}])", b.iter().map(|(k, _)| lit_sym(k)).collect::<Vec<_>>().join(", "), b.iter().map(|(_, v)| lit(v)).collect::<Vec<_>>().join(", ")),
        5 => format!("({l} elements block)"),
        // overridden entries keep their place
        6 if n > 0 => {
            let k = s.n(n);
            let mut c = b.clone();
            c[k].1 = V::Int(77);
            format!("merge({}, {{{}: {}}})", lit(&blk(&c)), lit_key(&b[k].0), lit(&b[k].1))
        }
        7 => format!("(l: {l}) (l map-values(identity))").replace("(l: ", "{ l: ").replace(") (l map", " }.(l map"),
        // computed keys
        8 => format!("block([{}])", b.iter().map(|(k, v)| format!("[{} sym, {}]", lit_str(k), lit(v))).collect::<Vec<_>>().join(", ")),
        // a key generated by a function
        9 if n > 0 => format!("(cons([{}, {}], {} elements) block)", lit_sym(&b[0].0), lit(&b[0].1), lit(&blk(&b[1..].to_vec()))),
        10 => format!("({l} // {{ note: 1 }})"),
        11 => format!("\n{{\n{}\n}}\n", b.iter().map(|(k, v)| format!("  ` \"doc\"\n  {}: {}", lit_key(k), lit(v))).collect::<Vec<_>>().join("\n")),
        _ => l,
    }
}

fn gblock(s: &mut Src, depth: usize) -> B {
    keys(s, 7).into_iter().map(|k| (k, value(s, depth))).collect()
}
fn iblock(s: &mut Src) -> B {
    keys(s, 7).into_iter().map(|k| (k, V::Int(s.range(-3, 9) as i128))).collect()
}
/// a key, usually present
fn a_key(s: &mut Src, b: &B) -> String {
    if !b.is_empty() && s.below(4) != 3 {
        b[s.n(b.len())].0.clone()
    } else {
        key(s)
    }
}

const ANY: &[&str] = &[];
fn val(v: V) -> Exp {
    Exp::Val(v)
}
fn lst(v: Vec<V>) -> Exp {
    Exp::Val(V::List(v))
}

fn item(s: &mut Src) -> Item {
    let b = gblock(s, 1);
    let bs = block_src(s, &b);
    let k = a_key(s, &b);
    let ks = lit_sym(&k);
    let nt = b.len() > 1;
    macro_rules! c {
        ($name:expr, [$($a:expr),*], $e:expr) => {{ let a: Vec<String> = vec![$($a.to_string()),*]; it($name, call(s, $name, &a), $e, nt) }};
    }
    match s.below(25) {
        0 | 1 => {
            let c = gblock(s, 1);
            let cs = block_src(s, &c);
            let e = val(blk(&merge(&b, &c)));
            match s.below(3) {
                0 => c!("merge", [bs, cs], e),
                1 => it("catenate", format!("({bs} {cs})"), e, nt),
                _ => {
                    let d = gblock(s, 1);
                    let ds = block_src(s, &d);
                    it("merge-all", format!("merge-all([{bs}, {cs}, {ds}])"), val(blk(&merge(&merge(&b, &c), &d))), nt)
                }
            }
        }
        2 | 3 => {
            let (x, y) = (gblock(s, 3), gblock(s, 3));
            let e = val(deep(&blk(&x), &blk(&y)));
            let (xs, ys) = (block_src(s, &x), block_src(s, &y));
            if s.bool() {
                it("<<", binop(s, "<<", &xs, &ys), e, x.len() > 1)
            } else {
                c!("deep-merge", [xs, ys], e)
            }
        }
        4 => {
            let e = get(&b, &k).cloned().map(val).unwrap_or(Exp::Err(ANY));
            match s.below(5) {
                0 => c!("lookup", [ks, bs], e),
                1 => c!("lookup-in", [bs, ks], e),
                2 => it("dot", format!("{{ zb: {bs} }}.zb.{}", lit_key(&k)), e, nt),
                3 => it("dot-paren", format!("({bs}).{}", lit_key(&k)), e, nt),
                _ => it("lookup-path", format!("lookup-path([{ks}], {bs})"), e, nt),
            }
        }
        5 => {
            let e = val(get(&b, &k).cloned().unwrap_or(V::Int(99)));
            match s.below(3) {
                0 => c!("lookup-or", [ks, "99", bs], e),
                1 => c!("lookup-or-in", [bs, ks, "99"], e),
                _ => c!("lookup-alts", [format!("[{ks}]"), "99", bs], e),
            }
        }
        6 => it("~", format!("({bs} ~ {ks})"), val(get(&b, &k).cloned().unwrap_or(V::Null)), nt),
        7 => {
            let c = gblock(s, 0);
            let cs = block_src(s, &c);
            let e = get(&b, &k).or_else(|| get(&c, &k)).cloned().unwrap_or(V::Int(99));
            it("lookup-across", format!("lookup-across({ks}, 99, [{bs}, {cs}])"), val(e), nt)
        }
        8 => {
            let k2 = a_key(s, &b);
            let e = get(&b, &k).or_else(|| get(&b, &k2)).cloned().unwrap_or(V::Int(99));
            it("lookup-alts", format!("lookup-alts([{ks}, {}], 99, {bs})", lit_sym(&k2)), val(e), nt)
        }
        9 => c!("has", [ks, bs], val(V::Bool(get(&b, &k).is_some()))),
        10 => c!("elements", [bs], lst(b.iter().map(|(k, v)| el(k, v)).collect())),
        11 => c!("keys", [bs], lst(b.iter().map(|(k, _)| sym(k)).collect())),
        12 => c!("values", [bs], lst(b.iter().map(|(_, v)| v.clone()).collect())),
        13 => {
            let mut o = b.clone();
            o.sort_by(|x, y| x.0.cmp(&y.0));
            c!("sort-keys", [bs], val(blk(&o)))
        }
        14 => {
            let sel = keys(s, 4);
            let l = lit(&syms(&sel));
            if s.bool() {
                c!("select", [l, bs], val(blk(&b.iter().filter(|e| sel.contains(&e.0)).cloned().collect())))
            } else {
                c!("dissoc", [l, bs], val(blk(&b.iter().filter(|e| !sel.contains(&e.0)).cloned().collect())))
            }
        }
        15 => {
            let v = value(s, 1);
            let mut o = b.clone();
            if let Some(e) = o.iter_mut().find(|e| e.0 == k) {
                e.1 = v.clone();
            }
            c!("alter-value", [ks, lit(&v), bs], val(blk(&o)))
        }
        16 => {
            let v = value(s, 1);
            c!("set-value", [ks, lit(&v), bs], val(blk(&merge(&b, &vec![(k, v)]))))
        }
        17 => {
            let path = keys(s, 4);
            let v = value(s, 1);
            let mut o = v.clone();
            for q in path.iter().rev() {
                o = blk(&vec![(q.clone(), o)]);
            }
            c!("tongue", [lit(&syms(&path)), lit(&v)], val(o))
        }
        18 | 19 => {
            // deep paths on blocks of blocks
            let x = nested(s, 3);
            let path = some_path(s, &x);
            let v = gblock(s, 1);
            let pl = lit(&syms(&path));
            let xs = block_src(s, &unblk(&x));
            let vs = lit(&blk(&v));
            match s.below(4) {
                0 => {
                    let e = merge_at(&x, &path, &v, &|a, b| is_blk(a).then(|| blk(&merge(&unblk(a), b))));
                    match e {
                        Some(e) => c!("merge-at", [pl, vs, xs], val(e)),
                        None => c!("merge-at", [pl, vs, xs], Exp::Err(ANY)),
                    }
                }
                1 => match merge_at(&x, &path, &v, &|a, b| Some(deep(a, &blk(b)))) {
                    Some(e) => c!("deep-merge-at", [pl, vs, xs], val(e)),
                    None => c!("deep-merge-at", [pl, vs, xs], Exp::Err(ANY)),
                },
                2 => {
                    let e = at(&x, &path).map(val).unwrap_or(Exp::Err(ANY));
                    if s.bool() || path.is_empty() {
                        c!("lookup-path", [pl, xs], e)
                    } else {
                        it("dots", format!("{{ zb: {xs} }}.zb.{}", path.iter().map(|k| lit_key(k)).collect::<Vec<_>>().join(".")), e, true)
                    }
                }
                _ => match update_at(&x, &path, &|_| V::Str("new".into())) {
                    Some(e) => c!("alter", [pl, "\"new\"", xs], val(e)),
                    None => c!("alter", [pl, "\"new\"", xs], Exp::Err(ANY)),
                },
            }
        }
        20 => {
            // equality of blocks looks at every entry
            let mut c = b.clone();
            let eq = match s.below(3) {
                0 => true,
                1 if !c.is_empty() => {
                    let k = s.n(c.len());
                    c[k].1 = V::Str("different".into());
                    c == b
                }
                _ => {
                    c.pop();
                    c == b
                }
            };
            let cs = block_src(s, &c);
            it("=", binop(s, "=", &bs, &cs), val(V::Bool(eq)), nt)
        }
        21 => it("block?", format!("[block?({bs}), block?([]), block?({ks}), block?(3)]"), lst(vec![V::Bool(true), V::Bool(false), V::Bool(false), V::Bool(false)]), nt),
        22 => {
            // merging does not reach into values already bound
            let n = s.range(0, 9) as i128;
            let m = s.range(10, 19) as i128;
            let (q, r) = ("pa", "pb");
            it(
                "no-late-binding",
                format!("({{ {q}: {n} {r}: {q} + 1 }} {{ {q}: {m} }})"),
                val(blk(&vec![(q.into(), V::Int(m)), (r.into(), V::Int(n + 1))])),
                true,
            )
        }
        23 => {
            // a block's members as a scope
            let x = iblock(s);
            let xs = lit(&blk(&x));
            let sum: i128 = x.iter().map(|e| i(&e.1)).sum();
            let body = x.iter().map(|e| lit_key(&e.0)).chain(["0".to_string()]).collect::<Vec<_>>().join(" + ");
            it("scope", format!("{xs}.({body})"), val(V::Int(sum)), x.len() > 1)
        }
        _ => {
            let ks = keys(s, 6);
            let vs: Vec<V> = s.vec(6, |s| value(s, 1));
            let e = blk(&ks.iter().cloned().zip(vs.iter().cloned()).collect());
            let n = *s.pick(&["zip-kv", "with-keys"]);
            it(n, call(s, n, &[lit(&syms(&ks)), lit(&V::List(vs))]), val(e), ks.len() > 1)
        }
    }
}

/// A block whose values are mostly blocks.
fn nested(s: &mut Src, depth: usize) -> V {
    if depth == 0 {
        return scalar(s);
    }
    let ks = keys(s, 4);
    blk(&ks
        .into_iter()
        .map(|k| {
            let v = if s.below(5) == 4 { value(s, 1) } else { nested(s, depth - 1) };
            (k, v)
        })
        .collect())
}

fn some_path(s: &mut Src, x: &V) -> Vec<String> {
    let mut p = vec![];
    let mut c = x.clone();
    for _ in 0..s.n(4) {
        let b = unblk(&c);
        let k = a_key(s, &b);
        let n = get(&b, &k).cloned();
        p.push(k);
        match n {
            Some(v) => c = v,
            None => {
                if s.bool() {
                    p.push(key(s));
                }
                break;
            }
        }
    }
    p
}

fn at(x: &V, p: &[String]) -> Option<V> {
    let mut c = x.clone();
    for k in p {
        if !is_blk(&c) {
            return None;
        }
        c = get(&unblk(&c), k)?.clone();
    }
    Some(c)
}

fn update_at(x: &V, p: &[String], f: &dyn Fn(&V) -> V) -> Option<V> {
    let Some((k, rest)) = p.split_first() else { return Some(f(x)) };
    if !is_blk(x) {
        return None;
    }
    let mut b = unblk(x);
    for e in b.iter_mut() {
        if e.0 == *k {
            e.1 = update_at(&e.1, rest, f)?;
        }
    }
    Some(blk(&b))
}

fn merge_at(x: &V, p: &[String], v: &B, f: &dyn Fn(&V, &B) -> Option<V>) -> Option<V> {
    let Some((k, rest)) = p.split_first() else {
        return f(x, v);
    };
    if !is_blk(x) {
        return None;
    }
    let mut b = unblk(x);
    match b.iter_mut().find(|e| e.0 == *k) {
        Some(e) => e.1 = merge_at(&e.1, rest, v, f)?,
        None => {
            let mut t = blk(v);
            for q in rest.iter().rev() {
                t = blk(&vec![(q.clone(), t)]);
            }
            b.push((k.clone(), t));
        }
    }
    Some(blk(&b))
}

fn plain(s: &mut Src, c: &mut Ctx) -> Res {
    let v = items(s, 18, 2, item);
    run_items(c, PREFIX, &v, &Opts::default())
}

fn hof_item(s: &mut Src) -> Item {
    let b = iblock(s);
    let bs = block_src(s, &b);
    let nt = b.len() > 1;
    let k = a_key(s, &b);
    let ks = lit_sym(&k);
    macro_rules! c {
        ($name:expr, [$($a:expr),*], $e:expr) => {{ let a: Vec<String> = vec![$($a.to_string()),*]; it($name, call(s, $name, &a), $e, nt) }};
    }
    let (fs, f): (&str, fn(i128) -> i128) = *s.pick(&[
        ("inc", (|n| n + 1) as fn(i128) -> i128),
        ("(* 2)", |n| n * 2),
        ("sq", |n| n * n),
        ("negate", |n| -n),
        ("(7 - _)", |n| 7 - n),
    ]);
    let (ps, p): (&str, fn(i128) -> bool) = *s.pick(&[
        ("even?", (|n| n % 2 == 0) as fn(i128) -> bool),
        ("big?", |n| n > 3),
        ("(< 2)", |n| n < 2),
        ("const(true)", |_| true),
    ]);
    let mapv = |f: &dyn Fn(i128) -> i128| -> V { blk(&b.iter().map(|(k, v)| (k.clone(), V::Int(f(i(v))))).collect()) };
    match s.below(17) {
        0 => c!("map-values", [fs, bs], val(mapv(&f))),
        1 => c!("map-keys", ["up-key", bs], val(blk(&b.iter().map(|(k, v)| (format!("{k}z"), v.clone())).collect()))),
        2 => c!("map-kv", ["txt", bs], lst(b.iter().map(|(k, v)| V::s(format!("{k}={}", i(v)))).collect())),
        3 => c!("map-elements", ["swap-el", bs], val(blk(&b.iter().map(|(k, v)| (format!("{k}z"), V::Int(i(v) + 1))).collect()))),
        4 => {
            let ks = keys(s, 5);
            it("map-as-block", call(s, "map-as-block", &["str.of".into(), lit(&syms(&ks))]), val(blk(&ks.iter().map(|k| (k.clone(), V::Str(k.clone()))).collect())), ks.len() > 1)
        }
        5 => c!("filter-values", [ps, bs], lst(b.iter().map(|e| e.1.clone()).filter(|v| p(i(v))).collect())),
        6 => it("by-value", format!("({bs} filter-items(by-value({ps})) block)"), val(blk(&b.iter().filter(|e| p(i(&e.1))).cloned().collect())), nt),
        7 => it("by-key", format!("({bs} filter-items(by-key(= {ks})) block)"), val(blk(&b.iter().filter(|e| e.0 == k).cloned().collect())), nt),
        8 => it("by-key-name", format!("({bs} filter-items(by-key-name(= {})) block)", lit_str(&k)), val(blk(&b.iter().filter(|e| e.0 == k).cloned().collect())), nt),
        9 => it("match-filter-values", format!("({bs} match-filter-values(\"^[a-c]$\"))"), lst(b.iter().filter(|e| ["a", "b", "c"].contains(&e.0.as_str())).map(|e| e.1.clone()).collect()), nt),
        10 => {
            let e = blk(&b.iter().map(|(q, v)| (q.clone(), if *q == k { V::Int(f(i(v))) } else { v.clone() })).collect());
            c!("update-value", [ks, fs, bs], val(e))
        }
        11 => {
            let mut o = b.clone();
            match o.iter_mut().find(|e| e.0 == k) {
                Some(e) => e.1 = V::Int(f(i(&e.1))),
                None => o.push((k.clone(), V::Int(42))),
            }
            c!("update-value-or", [ks, fs, "42", bs], val(blk(&o)))
        }
        12 => {
            let path = keys(s, 3);
            if path.is_empty() {
                return it("kv-block", call(s, "kv-block", &[ks, "5".into()]), val(blk(&vec![(k, V::Int(5))])), true);
            }
            // a nested block holding the integer at the path
            let n = s.range(-3, 9) as i128;
            let mut x = V::Int(n);
            for q in path.iter().rev() {
                x = blk(&merge(&vec![("n0".into(), V::Int(1))], &vec![(q.clone(), x)]));
            }
            let e = update_at(&x, &path, &|v| V::Int(f(i(v)))).unwrap();
            c!("update", [lit(&syms(&path)), fs, lit(&x)], val(e))
        }
        13 => {
            let x = nested(s, 3);
            fn rule(v: &V) -> V {
                match v {
                    V::Int(n) => V::Int(n * 10),
                    V::Str(_) => V::Str("s".into()),
                    V::List(xs) => V::List(xs.iter().map(rule).collect()),
                    V::Block(_) => blk(&unblk(v).iter().map(|(k, v)| (k.clone(), rule(v))).collect()),
                    V::Float(x) => V::Float(x * 10.0),
                    v => v.clone(),
                }
            }
            fn ok(v: &V) -> bool {
                match v {
                    V::Int(n) => n.abs() < 1 << 40,
                    V::Float(_) => false,
                    V::List(xs) => xs.iter().all(ok),
                    V::Block(b) => b.iter().all(|e| ok(&e.1)),
                    _ => true,
                }
            }
            if !ok(&x) {
                return it("true", "true".into(), val(V::Bool(true)), false);
            }
            c!("deep-transform", ["rule", lit(&x)], val(rule(&x)))
        }
        14 => it("fold", format!("({bs} values foldl((+), 0))"), val(V::Int(b.iter().map(|e| i(&e.1)).sum())), nt),
        15 => it("els-fold", format!("({bs} elements map(second) reverse)"), lst(b.iter().rev().map(|e| e.1.clone()).collect()), nt),
        _ => it("kv-roundtrip", format!("({bs} elements unzip uncurry(zip-kv))"), val(blk(&b)), nt),
    }
}

fn hof(s: &mut Src, c: &mut Ctx) -> Res {
    let v = items(s, 16, 1, hof_item);
    run_items(c, PREFIX, &v, &Opts::default())
}

// ---- deep searching ----

fn find_deep(k: &str, v: &V, path: &mut Vec<String>, out: &mut Vec<(Vec<String>, V)>) {
    match v {
        V::Block(_) => {
            let b = unblk(v);
            if let Some(x) = get(&b, k) {
                let mut p = path.clone();
                p.push(k.to_string());
                out.push((p, x.clone()));
            }
            for (q, x) in &b {
                path.push(q.clone());
                find_deep(k, x, path, out);
                path.pop();
            }
        }
        V::List(xs) => {
            for x in xs {
                find_deep(k, x, path, out);
            }
        }
        _ => {}
    }
}

type PV = (Vec<String>, V);
fn descend(pv: &PV, out: &mut Vec<PV>) {
    if !is_blk(&pv.1) {
        return;
    }
    out.push(pv.clone());
    for (k, v) in unblk(&pv.1) {
        let mut p = pv.0.clone();
        p.push(k);
        descend(&(p, v), out);
    }
}
fn query(segs: &[&str], x: &V) -> Vec<PV> {
    let mut segs = segs.to_vec();
    if segs[0] != "**" {
        segs.insert(0, "**");
    }
    let mut cur: Vec<PV> = vec![(vec![], x.clone())];
    for sg in segs {
        let mut nx = vec![];
        for pv in &cur {
            match sg {
                "**" => descend(pv, &mut nx),
                "*" => {
                    for (k, v) in unblk(&pv.1) {
                        let mut p = pv.0.clone();
                        p.push(k);
                        nx.push((p, v));
                    }
                }
                k => {
                    if let Some(v) = get(&unblk(&pv.1), k) {
                        let mut p = pv.0.clone();
                        p.push(k.to_string());
                        nx.push((p, v.clone()));
                    }
                }
            }
        }
        cur = nx;
    }
    cur
}

fn matches(p: &V, t: &V) -> bool {
    match (p, t) {
        (V::Block(ps), V::Block(_)) => {
            let tb = unblk(t);
            ps.iter().all(|(k, p)| get(&tb, k.key().unwrap()).is_some_and(|v| matches(p, v)))
        }
        (V::Block(_), _) => false,
        (V::List(ps), V::List(ts)) => ps.len() == ts.len() && ps.iter().zip(ts).all(|(p, t)| matches(p, t)),
        (V::List(_), _) => false,
        (p, t) => p == t,
    }
}

fn small(s: &mut Src) -> V {
    match s.below(4) {
        0 => V::Str((*s.pick(&["a", "b"])).into()),
        1 => V::Sym((*s.pick(&["a", "b"])).into()),
        _ => V::Int(s.range(0, 3) as i128),
    }
}
fn small_tree(s: &mut Src, d: usize) -> V {
    if d == 0 {
        return small(s);
    }
    match s.below(4) {
        0 => small(s),
        1 => {
            let n = s.len(3);
            V::List((0..n).map(|_| small_tree(s, d - 1)).collect())
        }
        _ => {
            let ks = keys(s, 4);
            blk(&ks.into_iter().map(|k| (k, small_tree(s, d - 1))).collect())
        }
    }
}

fn deep_item(s: &mut Src) -> Item {
    let mut x = small_tree(s, 4);
    if !is_blk(&x) {
        x = blk(&vec![("a".into(), x)]);
    }
    let xs = lit(&x);
    let k = (*s.pick(&["a", "b", "c", "x"])).to_string();
    let ks = lit_sym(&k);
    let paths = |v: &[PV]| V::List(v.iter().map(|p| syms(&p.0)).collect());
    let vals = |v: &[PV]| V::List(v.iter().map(|p| p.1.clone()).collect());
    match s.below(7) {
        0 | 1 => {
            let mut out = vec![];
            find_deep(&k, &x, &mut vec![], &mut out);
            let nt = out.len() > 1;
            match s.below(3) {
                0 => it("deep-find", call(s, "deep-find", &[ks, xs]), val(vals(&out)), nt),
                1 => it("deep-find-paths", call(s, "deep-find-paths", &[ks, xs]), val(paths(&out)), nt),
                _ => it("deep-find-first", call(s, "deep-find-first", &[ks, "99".into(), xs]), val(out.first().map(|p| p.1.clone()).unwrap_or(V::Int(99))), nt),
            }
        }
        2..=4 => {
            let segs: Vec<&str> = s.vec_between(1, 3, |s| *s.pick(&["a", "b", "c", "x", "*", "**"]));
            let out = query(&segs, &x);
            if out.len() > 60 {
                return it("true", "true".into(), val(V::Bool(true)), false);
            }
            let pat = format!("\"{}\"", segs.join("."));
            let nt = out.len() > 1;
            match s.below(3) {
                0 => it("deep-query", call(s, "deep-query", &[pat, xs]), val(vals(&out)), nt),
                1 => it("deep-query-paths", call(s, "deep-query-paths", &[pat, xs]), val(paths(&out)), nt),
                _ => it("deep-query-first", call(s, "deep-query-first", &[pat, "99".into(), xs]), val(out.first().map(|p| p.1.clone()).unwrap_or(V::Int(99))), nt),
            }
        }
        _ => {
            // a pattern derived from the target, so that some match
            let p = prune(s, &x);
            let want = matches(&p, &x);
            it("match?", call(s, "match?", &[lit(&p), xs]), val(V::Bool(want)), true)
        }
    }
}

fn prune(s: &mut Src, x: &V) -> V {
    if s.below(12) == 11 {
        return small(s);
    }
    match x {
        V::Block(_) => {
            let b = unblk(x);
            let mut o: B = vec![];
            for (k, v) in &b {
                if s.below(3) != 2 {
                    o.push((k.clone(), prune(s, v)));
                }
            }
            blk(&o)
        }
        V::List(xs) => V::List(xs.iter().map(|v| prune(s, v)).collect()),
        v => v.clone(),
    }
}

fn deepf(s: &mut Src, c: &mut Ctx) -> Res {
    let v = items(s, 12, 0, deep_item);
    run_items(c, PREFIX, &v, &Opts::default())
}

/// Values that fail are not looked at unless they are asked for.
fn lazy_item(s: &mut Src) -> Item {
    let b = iblock(s);
    let n = b.len();
    let bad = key(s);
    let at = s.n(n + 1);
    let mut parts: Vec<String> = vec![];
    let mut all: Vec<(String, Option<V>)> = vec![];
    for (j, (k, v)) in b.iter().enumerate() {
        if j == at {
            parts.push("zbad: boom".into());
            all.push(("zbad".into(), None));
        }
        parts.push(format!("{}: {}", lit_key(k), lit(v)));
        all.push((k.clone(), Some(v.clone())));
    }
    if at >= n {
        parts.push("zbad: boom".into());
        all.push(("zbad".into(), None));
    }
    let _ = bad;
    let src = format!("{{ {} }}", parts.join(" "));
    match s.below(8) {
        0 => it("lazy-keys", format!("({src} keys)"), lst(all.iter().map(|e| sym(&e.0)).collect()), true),
        1 => it("lazy-has", format!("({src} has(:zbad))"), val(V::Bool(true)), true),
        2 if n > 0 => {
            let k = s.n(n);
            it("lazy-lookup", format!("({src}).{}", lit_key(&b[k].0)), val(b[k].1.clone()), true)
        }
        3 => it("lazy-dissoc", format!("({src} dissoc([:zbad]))"), val(blk(&b)), true),
        4 => it("lazy-override", format!("({src} {{ zbad: 5 }})"), val(blk(&all.iter().map(|e| (e.0.clone(), e.1.clone().unwrap_or(V::Int(5)))).collect())), true),
        5 => it("lazy-set", format!("({src} set-value(:zbad, 5) map-values(inc))"), val(blk(&all.iter().map(|e| (e.0.clone(), V::Int(e.1.as_ref().map(i).unwrap_or(5) + 1))).collect())), true),
        6 => it("lazy-count", format!("({src} elements count)"), val(V::Int(n as i128 + 1)), true),
        _ => it("forced", format!("({src} values map(inc) sum)"), Exp::Err(&["UserPanic"]), true),
    }
}
fn lazy(s: &mut Src, c: &mut Ctx) -> Res {
    let v = items(s, 14, 1, lazy_item);
    run_items(c, PREFIX, &v, &Opts::default())
}

/// Histories of operations on one block, against an ordered map.
fn history(s: &mut Src, c: &mut Ctx) -> Res {
    let big = s.below(6) == 5;
    let pool: Vec<String> = if big { (0..120).map(|k| format!("k{k}")).collect() } else { KEYS.iter().map(|k| k.to_string()).collect() };
    let mut m: B = if big { (0..60).map(|k| (format!("k{}", (k * 7) % 120), V::Int(k))).collect() } else { iblock(s) };
    let mut e = lit(&blk(&m));
    let n = 1 + s.len(9);
    for _ in 0..n {
        let k = s.pick(&pool).clone();
        let kl = lit_sym(&k);
        let v = V::Int(s.range(-9, 9) as i128);
        match s.below(11) {
            0 => {
                e = format!("({e} set-value({kl}, {}))", lit(&v));
                m = merge(&m, &vec![(k, v)]);
            }
            1 => {
                e = format!("({e} dissoc([{kl}]))");
                m.retain(|q| q.0 != k);
            }
            2 => {
                e = format!("({e} {{ {}: {} }})", lit_key(&k), lit(&v));
                m = merge(&m, &vec![(k, v)]);
            }
            3 => {
                e = format!("({{ {}: {} }} {e})", lit_key(&k), lit(&v));
                m = merge(&vec![(k, v)], &m);
            }
            4 => {
                e = format!("({e} update-value({kl}, inc))");
                for q in m.iter_mut().filter(|q| q.0 == k) {
                    q.1 = V::Int(i(&q.1) + 1);
                }
            }
            5 => {
                e = format!("({e} update-value-or({kl}, inc, 0))");
                match m.iter_mut().find(|q| q.0 == k) {
                    Some(q) => q.1 = V::Int(i(&q.1) + 1),
                    None => m.push((k, V::Int(0))),
                }
            }
            6 => {
                e = format!("({e} map-values(* 2))");
                m.iter_mut().for_each(|q| q.1 = V::Int(i(&q.1) * 2));
            }
            7 => {
                e = format!("({e} sort-keys)");
                m.sort_by(|a, b| a.0.cmp(&b.0));
            }
            8 => {
                e = format!("({e} filter-items(by-value(even?)) block)");
                m.retain(|q| i(&q.1) % 2 == 0);
            }
            9 => {
                e = format!("({e} elements reverse block)");
                m.reverse();
            }
            _ => {
                e = format!("({e} << {{ {}: {} }})", lit_key(&k), lit(&v));
                m = merge(&m, &vec![(k, v)]);
            }
        }
    }
    let k = s.pick(&pool).clone();
    let its = vec![
        it("history", e.clone(), val(blk(&m)), n > 2),
        it("history-has", format!("({e} has({}))", lit_sym(&k)), val(V::Bool(get(&m, &k).is_some())), n > 2),
        it("history-get", format!("({e} lookup-or({}, :none))", lit_sym(&k)), val(get(&m, &k).cloned().unwrap_or(sym("none"))), n > 2),
    ];
    run_items(c, PREFIX, &its, &Opts::default())
}

pub fn prop() -> Prop {
    Prop {
        id: "C11",
        facets: vec![
            Facet { name: "plain", rule: "merging, deep merging, lookup and editing of generated blocks in varied spellings, against an ordered-map model; non-trivial: two or more entries", quick: 900, thorough: 20000, run: plain },
            Facet { name: "hof", rule: "mapping, filtering and updating with generated functions; non-trivial: two or more entries", quick: 600, thorough: 14000, run: hof },
            Facet { name: "deep", rule: "searching, querying and matching nested structures; non-trivial: two or more results, or a derived pattern", quick: 450, thorough: 9000, run: deepf },
            Facet { name: "lazy", rule: "blocks with a failing value that is not demanded; every item non-trivial", quick: 300, thorough: 6000, run: lazy },
            Facet { name: "history", rule: "sequences of edits to one block, small and of over a hundred keys; non-trivial: three or more edits", quick: 500, thorough: 10000, run: history },
        ],
        known: vec![],
        assumptions: vec![],
    }
}
