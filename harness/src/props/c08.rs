//! C08: collections never change a result.

use crate::engine::{fail, Ctx, Facet, Prop, Res, Src};
use crate::ev::{Opts, V};
use crate::mix::{self, Unit};
use eucalypt::eval::bytecode::check_hooks;

const LIMIT: usize = 4_000_000;

fn stressed<T>(stress: bool, every: Option<u32>, budget: u64, f: impl FnOnce() -> T) -> T {
    if stress {
        std::env::set_var("EU_GC_STRESS", "1");
    }
    check_hooks::force_gc(every, budget);
    let r = f();
    check_hooks::force_gc(None, 0);
    std::env::remove_var("EU_GC_STRESS");
    r
}

fn compare(s: &mut Src, ctx: &mut Ctx, u: Unit, o: Opts) -> Res {
    ctx.case(u.text());
    ctx.label(u.kind);
    let base = u.eval(&o);
    for k in 0..2 {
        // moving everything each time, and the ordinary choice of what to move
        let stress = k == 0;
        let every = *s.pick(&[1u32, 2, 3, 7, 17, 50, 150]);
        let budget = if every < 10 { 40 } else { 60 };
        let natural = k == 1 && s.pct(30);
        let (o, every, budget) = if natural {
            // the collector's own policy with the smallest heap
            (Opts { heap_mib: Some(1), ..o.clone() }, None, 0)
        } else {
            (o.clone(), Some(every), budget)
        };
        let outs = stressed(stress, every, budget, || u.eval(&o));
        for (i, out) in outs.iter().enumerate() {
            ctx.sub(&format!("{every:?}{stress}{}{}", u.prefix, u.exprs.get(i).map(|s| s.as_str()).unwrap_or("")), out.gcs >= 3);
        }
        if let Some(d) = mix::diff(ctx, &u, ("no collection", &format!("a collection every {every:?} steps (moving all: {stress})")), &base, &outs) {
            return fail("result", d);
        }
        for (x, y) in base.iter().zip(&outs) {
            if let (Err(a), Err(b)) = (&x.value, &y.value) {
                if a.kind != b.kind && !x.timed_out() && !y.timed_out() {
                    return fail("error", format!("{}\n  no collection: {}\n  collecting:    {}", u.text(), x.show(), y.show()));
                }
            }
        }
    }
    Ok(())
}

fn programs(s: &mut Src, ctx: &mut Ctx) -> Res {
    let u = mix::program(s);
    compare(s, ctx, u, Opts { limit: Some(LIMIT), ..Opts::default() })
}

fn library(s: &mut Src, ctx: &mut Ctx) -> Res {
    let u = mix::library(s);
    compare(s, ctx, u, Opts { limit: Some(LIMIT), ..Opts::default() })
}

/// Data big enough to fill many heap blocks, with results known in advance.
fn large(s: &mut Src, ctx: &mut Ctx) -> Res {
    let natural = s.pct(40);
    let n = *s.pick(if natural { &[50i64, 100, 300, 500] } else { &[300i64, 1000, 1023, 2500, 4097, 9000] });
    let m = s.range(2, 9) as i64;
    let decls = format!(
        "n: {n}\nxs: range(0, n)\nodd(x): x % {m} = 0\nwalk(l, t): if(l nil?, t, walk(l tail, t + (l head)))\ndeep(k): if(k = 0, 0, 1 + deep(k - 1))\n\
         tree(d): if(d = 0, {{leaf: d}}, {{left: tree(d - 1) right: tree(d - 1)}})\nleaves(t): if(t has(:leaf), 1, leaves(t.left) + leaves(t.right))\n\
         grow(k, b): if(k = 0, b, grow(k - 1, b merge({{}} set-value(\"k{{k}}\" sym, k))))\nkeep: xs map(_ * 3)\n"
    );
    let sum = n * (n - 1) / 2;
    let mult = (n + m - 1) / m;
    let dd = s.range(1, 9) as u32;
    let small = n.min(40);
    let mut all: Vec<(String, i128)> = vec![
        ("walk(xs, 0)".into(), sum as i128),
        ("xs foldl((+), 0)".into(), sum as i128),
        ("xs filter(odd) count".into(), mult as i128),
        (format!("deep({})", n.min(2500)), n.min(2500) as i128),
        (format!("leaves(tree({dd}))"), 1i128 << dd),
        ("arr.zeros([n]) arr.length".into(), n as i128),
        ("(vec.of(xs) vec.slice(1, n) vec.len)".into(), n as i128 - 1),
        ("((set.from-list(xs) set.add(-1)) set.size)".into(), n as i128 + 1),
        ("(xs map(str.of) str.join-on(\"-\") str.split-on(\"-\") count)".into(), n as i128),
        ("(xs reverse sort-nums head) + (xs reverse head)".into(), n as i128 - 1),
        (format!("(grow({small}, {{}}) elements count)"), small as i128),
        (format!("(grow({small}, {{}}).k1)"), 1),
        ("(xs map(str.of) map(sym) last str.of str.letters count)".into(), (n - 1).to_string().len() as i128),
        ("(zip(xs, xs reverse) map(first) foldl((+), 0))".into(), sum as i128),
        ("(keep foldl((+), 0))".into(), 3 * sum as i128),
        (format!("(range(0, {small}) map({{ f(x): {{v: x}} }}.f) map(lookup(:v)) foldl((+), 0))"), (small * (small - 1) / 2) as i128),
    ];
    s.shuffle(&mut all);
    all.truncate(s.range(1, 4) as usize);
    let exprs: Vec<String> = all.iter().map(|a| a.0.clone()).collect();
    let stress = s.bool();
    let every = *s.pick(&[20u32, 100, 500, 2000]);
    ctx.case(format!("{decls}{}\nnatural {natural} every {every} moving all {stress}", exprs.join("\n")));
    let o = Opts { heap_mib: Some(if natural { s.range(1, 3) as usize } else { 1024 }), limit: Some(2_000_000), ..Opts::default() };
    if std::env::var("VERIF_TIME").is_ok() {
        for e in &exprs {
            let t = std::time::Instant::now();
            let outs = stressed(stress, (!natural).then_some(every), 60, || crate::ev::eval_batch(&decls, &[e.clone()], &o));
            eprintln!("TIME {:?} n {n} natural {natural} every {every} ticks {} gcs {} {} {e}", t.elapsed(), outs[0].ticks, outs[0].gcs, outs[0].show());
        }
    }
    let outs = stressed(stress, (!natural).then_some(every), 60, || crate::ev::eval_batch(&decls, &exprs, &o));
    ctx.label(if natural { "own policy" } else { "forced" });
    for ((e, want), out) in all.iter().zip(&outs) {
        ctx.sub(&format!("{n}{m}{every}{natural}{stress}{e}"), out.gcs >= 3);
        if out.timed_out() {
            ctx.inconclusive = true;
            continue;
        }
        let ok = match &out.value {
            Ok(V::Int(i)) => i == want,
            Ok(V::Float(f)) => *f == *want as f64,
            _ => false,
        };
        if !ok {
            return fail("value", format!("{decls}{e}\n  collecting ({natural} {every} {stress}), {} collections\n  expected {want}\n  got {}", out.gcs, out.show()));
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C08",
        facets: vec![
            Facet { name: "programs", rule: "generated programs with forced collections against none; non-trivial: three or more collections", quick: 1500, thorough: 40000, run: programs },
            Facet { name: "library", rule: "library batches with forced collections against none; non-trivial: three or more collections", quick: 60, thorough: 8000, run: library },
            Facet { name: "large", rule: "computations over hundreds to thousands of items, held across collections, against known results; non-trivial: three or more collections", quick: 250, thorough: 6000, run: large },
        ],
        known: vec![],
        assumptions: vec![],
    }
}
