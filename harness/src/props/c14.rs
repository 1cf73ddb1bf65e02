//! C14: random streams and actions.

use crate::engine::{fail, Ctx, Facet, Prop, Res, Src};
use crate::ev::{self, Opts, V};
use crate::gen::*;
use std::collections::BTreeMap;

pub const PREFIX: &str = "\
even?(x): x % 2 = 0
wrap(x): [x] head
coin(x): random.int(2) random.map((= 1))
again(x): random.int(x + 1)
pairup(x): random.map({ f(b): [x, b] }.f, random.int(10))
keep(x): random.return(x % 2 = 0)
";

/// The reference generator.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Rng(u64);
impl Rng {
    fn step(self) -> (u64, Rng) {
        let st = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = st;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        (z ^ (z >> 31), Rng(st))
    }
    fn float(self) -> (f64, Rng) {
        let (z, r) = self.step();
        ((z >> 11) as f64 / (1u64 << 53) as f64, r)
    }
    fn int(self, n: u64) -> (u64, Rng) {
        let (z, r) = self.step();
        (z % n, r)
    }
}

/// An action: how to write it, what it gives from a stream, and the stream
/// it leaves.
struct Act {
    src: String,
    run: Box<dyn Fn(Rng) -> (V, Rng)>,
}

fn int(n: u64) -> V {
    V::Int(n as i128)
}

fn bound(s: &mut Src) -> u64 {
    match s.below(6) {
        0..=2 => 1 + s.below(10),
        3 => 1 + s.below(1000),
        4 => 1u64 << s.n(63),
        _ => *s.pick(&[1, 2, u64::MAX, i64::MAX as u64, (i64::MAX as u64) + 1, 1 << 32]),
    }
}

fn small_list(s: &mut Src) -> Vec<V> {
    (0..1 + s.len(6)).map(|i| if s.bool() { V::Int(i as i128) } else { V::Sym((*s.pick(&["a", "b", "c"])).into()) }).collect()
}

fn shuffled(xs: &[V], mut r: Rng) -> (Vec<V>, Rng) {
    let mut rem = xs.to_vec();
    let mut out = vec![];
    while !rem.is_empty() {
        let (k, r2) = r.int(rem.len() as u64);
        r = r2;
        out.push(rem.remove(k as usize));
    }
    out.reverse();
    (out, r)
}

fn action(s: &mut Src, depth: usize) -> Act {
    let k = if depth == 0 { s.below(5) } else { s.below(15) };
    match k {
        0 => Act { src: "random.float".into(), run: Box::new(|r| { let (f, r) = r.float(); (V::Float(f), r) }) },
        1 | 2 => {
            let n = bound(s);
            let l = match s.below(5) {
                3 if n < 1 << 50 => format!("{n}.0"),
                4 => format!("wrap({n})"),
                _ => n.to_string(),
            };
            Act { src: format!("random.int({l})"), run: Box::new(move |r| { let (k, r) = r.int(n); (int(k), r) }) }
        }
        3 => {
            let xs = small_list(s);
            let l = lit(&V::List(xs.clone()));
            Act { src: format!("random.choice({l})"), run: Box::new(move |r| { let (k, r) = r.int(xs.len() as u64); (xs[k as usize].clone(), r) }) }
        }
        4 => {
            let v = scalar(s);
            Act { src: format!("random.return({})", lit(&v)), run: Box::new(move |r| (v.clone(), r)) }
        }
        5 => {
            let xs = if s.below(8) == 7 { vec![] } else { small_list(s) };
            let l = lit(&V::List(xs.clone()));
            Act { src: format!("random.shuffle({l})"), run: Box::new(move |r| { let (v, r) = shuffled(&xs, r); (V::List(v), r) }) }
        }
        6 => {
            let xs = small_list(s);
            let n = s.n(xs.len() + 2);
            let l = lit(&V::List(xs.clone()));
            Act {
                src: format!("random.sample({n}, {l})"),
                run: Box::new(move |r| {
                    let (mut v, r) = shuffled(&xs, r);
                    v.truncate(n);
                    (V::List(v), r)
                }),
            }
        }
        7 => {
            let n = 1 + s.below(9);
            let src = if s.bool() { format!("random.map(inc, random.int({n}))") } else { format!("(random.int({n}) random.map(inc))") };
            Act { src, run: Box::new(move |r| { let (k, r) = r.int(n); (int(k + 1), r) }) }
        }
        8 => {
            let (a, b) = (action(s, depth - 1), action(s, depth - 1));
            let src = if s.bool() { format!("({} random.then({}))", a.src, b.src) } else { format!("random.then({}, {})", b.src, a.src) };
            Act { src, run: Box::new(move |r| { let (_, r) = (a.run)(r); (b.run)(r) }) }
        }
        9 => {
            let n = 1 + s.below(9);
            let src = match s.below(3) {
                0 => format!("(random.int({n}) random.and-then(again))"),
                1 => format!("random.bind(random.int({n}), again)"),
                _ => format!("random.join(random.map(again, random.int({n})))"),
            };
            Act { src, run: Box::new(move |r| { let (k, r) = r.int(n); let (k, r) = r.int(k + 1); (int(k), r) }) }
        }
        10 => {
            let acts: Vec<Act> = (0..s.len(4)).map(|_| action(s, depth - 1)).collect();
            let src = format!("random.sequence([{}])", acts.iter().map(|a| a.src.clone()).collect::<Vec<_>>().join(", "));
            Act {
                src,
                run: Box::new(move |mut r| {
                    let mut out = vec![];
                    for a in &acts {
                        let (v, r2) = (a.run)(r);
                        out.push(v);
                        r = r2;
                    }
                    (V::List(out), r)
                }),
            }
        }
        11 => {
            let ns: Vec<u64> = (0..s.len(5)).map(|_| 1 + s.below(9)).collect();
            let l = format!("[{}]", ns.iter().map(|n| n.to_string()).collect::<Vec<_>>().join(", "));
            let pairs = s.bool();
            Act {
                src: format!("random.map-m({}, {l})", if pairs { "pairup" } else { "random.int" }),
                run: Box::new(move |mut r| {
                    let mut out = vec![];
                    for n in &ns {
                        let (k, r2) = r.int(if pairs { 10 } else { *n });
                        r = r2;
                        out.push(if pairs { V::List(vec![int(*n), int(k)]) } else { int(k) });
                    }
                    (V::List(out), r)
                }),
            }
        }
        12 => {
            let ns: Vec<u64> = (0..s.len(5)).map(|_| s.below(9)).collect();
            let l = format!("[{}]", ns.iter().map(|n| n.to_string()).collect::<Vec<_>>().join(", "));
            let coin = s.bool();
            Act {
                src: format!("random.filter-m({}, {l})", if coin { "coin" } else { "keep" }),
                run: Box::new(move |mut r| {
                    let mut out = vec![];
                    for n in &ns {
                        let yes = if coin {
                            let (k, r2) = r.int(2);
                            r = r2;
                            k == 1
                        } else {
                            n % 2 == 0
                        };
                        if yes {
                            out.push(int(*n));
                        }
                    }
                    (V::List(out), r)
                }),
            }
        }
        _ => {
            // a monadic block
            let acts: Vec<Act> = (0..1 + s.len(3)).map(|_| action(s, depth - 1)).collect();
            let decls: Vec<String> = acts.iter().enumerate().map(|(i, a)| format!("m{depth}x{i}: {}", a.src)).collect();
            let names: Vec<String> = (0..acts.len()).map(|i| format!("m{depth}x{i}")).collect();
            let rev = s.bool();
            let mut order = names.clone();
            if rev {
                order.reverse();
            }
            let src = format!("{{ :random {} }}.[{}]", decls.join(" "), order.join(", "));
            Act {
                src,
                run: Box::new(move |mut r| {
                    let mut out = vec![];
                    for a in &acts {
                        let (v, r2) = (a.run)(r);
                        out.push(v);
                        r = r2;
                    }
                    if rev {
                        out.reverse();
                    }
                    (V::List(out), r)
                }),
            }
        }
    }
}

fn seed(s: &mut Src) -> (String, Rng) {
    match s.below(4) {
        0 | 1 => {
            let n = s.range(0, 1000);
            (n.to_string(), Rng(n as u64))
        }
        2 => {
            let n = any_int(s);
            let n = n.clamp(i64::MIN as i128, u64::MAX as i128);
            (lit_int(n), Rng(n as u64))
        }
        _ => {
            let n = s.raw();
            (n.to_string(), Rng(n))
        }
    }
}

fn stream_src(s: &mut Src, l: &str, r: Rng) -> (String, Rng) {
    match s.below(8) {
        5 => {
            let n = s.n(6);
            let mut q = r;
            for _ in 0..n {
                q = q.step().1;
            }
            (format!("stream-advance({n}, random.stream({l}))"), q)
        }
        6 => (format!("random.split(random.stream({l})).value"), r.step().1),
        7 => (format!("random.split(random.stream({l})).rest"), Rng(r.step().0)),
        _ => (format!("random.stream({l})"), r),
    }
}

fn action_item(s: &mut Src) -> Item {
    let (l, r) = seed(s);
    let (st, r) = stream_src(s, &l, r);
    let a = action(s, 2);
    let (v, rest) = (a.run)(r);
    let nt = rest != r;
    match s.below(6) {
        0 | 1 => it("value", format!("{{ za: {} zs: {st} }}.(za(zs).value)", a.src), Exp::Val(v), nt),
        2 => it("run", format!("random.run({}, {st}).value", a.src), Exp::Val(v), nt),
        3 => it("eval", format!("random.eval({}, {st})", a.src), Exp::Val(v), nt),
        4 => {
            // the stream left over, seen through its next draw
            let f = rest.float().0;
            it("rest", format!("{{ zr: random.run({}, {st}) }}.[zr.value, random.float(zr.rest).value]", a.src), Exp::Val(V::List(vec![v, V::Float(f)])), nt)
        }
        _ => {
            // the rest alone, and the same stream used twice
            let f = rest.float().0;
            it(
                "reuse",
                format!("{{ zs: {st} za: {} zr: za(zs) zq: za(zs) }}.[random.float(zq.rest).value, zr.value, zq.value]", a.src),
                Exp::Val(V::List(vec![V::Float(f), v.clone(), v])),
                nt,
            )
        }
    }
}

fn actions(s: &mut Src, c: &mut Ctx) -> Res {
    let v = items(s, 14, 0, action_item);
    run_items(c, PREFIX, &v, &Opts::default())
}

fn stream_item(s: &mut Src) -> Item {
    let (l, r) = seed(s);
    let (st, r) = stream_src(s, &l, r);
    let n = s.len(20);
    let mut q = r;
    let mut fs = vec![];
    for _ in 0..n {
        let (f, q2) = q.float();
        fs.push(V::Float(f));
        q = q2;
    }
    let e = match s.below(3) {
        0 => format!("({st} random.as-list take({n}))"),
        1 if !st.contains("advance") && !st.contains("split") => format!("(random-stream({l}) take({n}))"),
        _ => format!("{{ zs: {st} }}.(random.as-list(zs) take({n}))"),
    };
    it("as-list", e, Exp::Val(V::List(fs)), n > 1)
}

/// Seeded input: `io.random` follows --seed.
fn streams(s: &mut Src, c: &mut Ctx) -> Res {
    let v = items(s, 14, 0, stream_item);
    run_items(c, PREFIX, &v, &Opts::default())
}

/// Sampling and shuffling of vecs and sets: permutations and subsets, which
/// depend on the stream alone.
fn containers(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut cases = vec![];
    for _ in 0..8 {
        let (l, r) = seed(s);
        let distinct = s.bool();
        let n = s.len(9);
        let xs: Vec<i64> = (0..n).map(|i| if distinct { i as i64 * 3 - 5 } else { s.range(0, 4) }).collect();
        let k = s.n(n + 3);
        let list = format!("[{}]", xs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", "));
        let st = format!("random.stream({l})");
        let which = s.below(3);
        let (e, draws) = match which {
            0 => (format!("vec.shuffle(vec.of({list}), {st})"), n.saturating_sub(1)),
            1 => (format!("vec.sample({k}, vec.of({list}), {st})"), k),
            _ => (format!("set.sample({k}, set.from-list({list}), {st})"), k),
        };
        let mut q = r;
        for _ in 0..draws {
            q = q.step().1;
        }
        let e = format!("{{ zr: {e} zq: {e} }}.[zr.value, random.float(zr.rest).value, zq.value]");
        cases.push((which, xs, k, q, e));
    }
    let exprs: Vec<String> = cases.iter().map(|c| c.4.clone()).collect();
    ctx.case(exprs.join("\n"));
    let outs = ev::eval_batch(PREFIX, &exprs, &Opts::default());
    for ((which, xs, k, q, e), o) in cases.iter().zip(&outs) {
        ctx.sub(e, xs.len() > 1);
        let bad = |why: String| fail(format!("container:{which}"), format!("{e}\n  {why}\n  got {}", o.show()));
        let Ok(V::List(parts)) = &o.value else {
            return bad("expected a list".into());
        };
        let [V::List(vals), next, V::List(again)] = &parts[..] else {
            return bad("expected three parts".into());
        };
        if !next.same(&V::Float(q.float().0)) {
            return bad(format!("the stream left over should next give {}", q.float().0));
        }
        if format!("{vals:?}") != format!("{again:?}") {
            return bad("the same stream gave two results".into());
        }
        let mut left: BTreeMap<i64, usize> = BTreeMap::new();
        for x in xs {
            *left.entry(*x).or_default() += 1;
        }
        if *which == 2 {
            left.values_mut().for_each(|c| *c = 1);
        }
        let total: usize = left.values().sum();
        let want = if *which == 0 { total } else { total.min(*k) };
        if vals.len() != want {
            return bad(format!("expected {want} elements"));
        }
        for v in vals {
            let V::Float(f) = v else {
                return bad("expected numbers".into());
            };
            match left.get_mut(&(*f as i64)) {
                Some(c) if *c > 0 => *c -= 1,
                _ => return bad(format!("{f} is not among the elements, or too often")),
            }
        }
    }
    Ok(())
}

/// Over many seeds every outcome turns up about equally often.
fn spread(s: &mut Src, ctx: &mut Ctx) -> Res {
    let base = s.below(1_000_000_000);
    let which = s.below(5);
    let m = 900;
    let (name, f, cells): (&str, &str, usize) = match which {
        0 => ("vec.shuffle", "vec.shuffle(vec.of([0, 1, 2]), random.stream(S)).value vec.to-list foldl(f3, 0)", 6),
        1 => ("vec.sample", "vec.sample(2, vec.of([0, 1, 2]), random.stream(S)).value vec.to-list foldl(f3, 0)", 6),
        2 => ("set.sample", "set.sample(2, set.from-list([0, 1, 2]), random.stream(S)).value set.to-list foldl(f3, 0)", 3),
        3 => ("random.shuffle", "random.shuffle([0, 1, 2], random.stream(S)).value foldl(f3, 0)", 6),
        _ => ("random.float", "floor(random.float(random.stream(S)).value * 8)", 8),
    };
    let src = format!("range({base}, {}) map(draw)", base + m);
    let prefix = format!("f3(a, b): a * 3 + b\ndraw(sd): {}\n", f.replace("(S)", "(sd)"));
    ctx.case(format!("{name} {base}"));
    ctx.sub(&format!("{name} {base}"), true);
    let outs = ev::eval_batch(&prefix, &[src], &Opts::default());
    let Ok(V::List(xs)) = &outs[0].value else {
        return fail("spread", format!("{name}: {}", outs[0].show()));
    };
    let mut counts: BTreeMap<i64, f64> = BTreeMap::new();
    for x in xs {
        let k = match x {
            V::Int(i) => *i as i64,
            V::Float(f) => *f as i64,
            _ => -1,
        };
        *counts.entry(k).or_default() += 1.0;
    }
    let want = m as f64 / cells as f64;
    // more than seven standard deviations out is no chance event
    let dev = 7.0 * want.sqrt();
    if counts.len() != cells || counts.values().any(|c| (c - want).abs() > dev) {
        return fail("spread", format!("{name} from seeds {base}..: {cells} outcomes should each come about {want} times, got {counts:?}"));
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C14",
        facets: vec![
            Facet { name: "actions", rule: "random actions (draws, choice, shuffle, sample, bind, map, then, join, sequence, map-m, filter-m, monadic blocks) nested to depth 2 against a reference generator, value and remaining stream; non-trivial: the action draws", quick: 2500, thorough: 25000, run: actions },
            Facet { name: "streams", rule: "streams read as lists, advanced and split; non-trivial: two or more numbers", quick: 1000, thorough: 12000, run: streams },
            Facet { name: "containers", rule: "vec and set shuffling and sampling are permutations and subsets, leave the documented stream, and repeat; non-trivial: two or more elements", quick: 1000, thorough: 12000, run: containers },
            Facet { name: "spread", rule: "outcome frequencies over 900 seeds within seven standard deviations; every case non-trivial", quick: 40, thorough: 200, run: spread },
        ],
        known: vec![],
        assumptions: vec!["the generator is SplitMix64, whose sequence for a seed is fixed"],
    }
}
