//! C06: no optimisation changes what a program means.

use crate::engine::{fail, Ctx, Facet, Prop, Res, Src};
use crate::ev::{Opts, Prelude, SKIP_ELIM, SKIP_FUSE, SKIP_HOIST, SKIP_INLINE, SKIP_SPLIT};
use crate::mix::{self, Unit};

const LIMIT: usize = 4_000_000;

/// Everything optional left out.
fn plain(prelude: Prelude) -> Opts {
    Opts {
        prelude,
        suppress_optimiser: true,
        suppress_inlining: true,
        suppress_demand: true,
        no_annot: true,
        no_dce: true,
        skip: SKIP_SPLIT | SKIP_HOIST | SKIP_INLINE | SKIP_FUSE | SKIP_ELIM,
        reflatten: false,
        limit: Some(LIMIT),
        ..Opts::default()
    }
}

fn variant(s: &mut Src, prelude: Prelude) -> (String, Opts) {
    if s.pct(25) {
        return ("the default passes".into(), Opts { prelude, limit: Some(LIMIT), ..Opts::default() });
    }
    let mut names = vec![];
    let mut on = |s: &mut Src, n: &str| {
        let b = s.pct(70);
        if b {
            names.push(n.to_string());
        }
        b
    };
    let mut skip = 0;
    for (bit, n) in [
        (SKIP_SPLIT, "scope splitting"),
        (SKIP_HOIST, "hoisting"),
        (SKIP_INLINE, "inlining"),
        (SKIP_FUSE, "fusion"),
        (SKIP_ELIM, "dead code elimination"),
    ] {
        if !on(s, n) {
            skip |= bit;
        }
    }
    let o = Opts {
        prelude,
        suppress_optimiser: !on(s, "code optimiser"),
        suppress_inlining: !on(s, "code inlining"),
        suppress_demand: !on(s, "demand analysis"),
        no_annot: !on(s, "annotations"),
        no_dce: skip & SKIP_ELIM != 0,
        reflatten: on(s, "reflattening"),
        skip,
        limit: Some(LIMIT),
        ..Opts::default()
    };
    (names.join(", "), o)
}

fn compare(s: &mut Src, ctx: &mut Ctx, u: Unit, prelude: Prelude, n: usize) -> Res {
    ctx.case(u.text());
    ctx.label(u.kind);
    if std::env::var("VERIF_INDEX").is_ok() {
        std::fs::write("/tmp/case.eu", &u.prefix).unwrap();
    }
    let base = u.eval(&plain(prelude));
    let mut vs = vec![("the default passes".to_string(), Opts { prelude, limit: Some(LIMIT), ..Opts::default() })];
    for _ in 1..n {
        vs.push(variant(s, prelude));
    }
    for (name, o) in vs {
        let outs = u.eval(&o);
        for (i, out) in outs.iter().enumerate() {
            ctx.sub(&format!("{name}{}{}", u.prefix, u.exprs.get(i).map(|s| s.as_str()).unwrap_or("")), out.ticks > 30);
        }
        if let Some(d) = mix::diff(ctx, &u, ("without passes", &format!("with {name}")), &base, &outs) {
            return fail("result", d);
        }
    }
    Ok(())
}

fn programs(s: &mut Src, ctx: &mut Ctx) -> Res {
    let u = mix::program(s);
    compare(s, ctx, u, Prelude::Blob, 3)
}

fn library(s: &mut Src, ctx: &mut Ctx) -> Res {
    let u = mix::library(s);
    compare(s, ctx, u, Prelude::Blob, 2)
}

/// With the standard prelude in the same program, so that its functions go
/// through every pass together with their callers.
fn whole(s: &mut Src, ctx: &mut Ctx) -> Res {
    let u = mix::unit(s);
    compare(s, ctx, u, Prelude::Source, 2)
}

pub fn prop() -> Prop {
    Prop {
        id: "C06",
        facets: vec![
            Facet {
                name: "programs",
                rule: "generated typed programs under the default and random combinations of passes, against no passes; non-trivial: more than 30 machine steps",
                quick: 2000,
                thorough: 60000,
                run: programs,
            },
            Facet {
                name: "library",
                rule: "batches of library expressions under the default and random combinations of passes, against no passes; non-trivial: more than 30 machine steps",
                quick: 350,
                thorough: 15000,
                run: library,
            },
            Facet {
                name: "whole",
                rule: "programs and batches compiled together with the whole prelude source, default and random combinations of passes against no passes; non-trivial: more than 30 machine steps",
                quick: 100,
                thorough: 4000,
                run: whole,
            },
        ],
        known: vec![],
        assumptions: vec!["two failing runs agree whichever of several failures each reports"],
    }
}
