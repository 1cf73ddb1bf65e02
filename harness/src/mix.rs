//! A mix of generated evaluations for differential checks: typed programs and
//! the expression batches the library checks generate.

use crate::engine::{Ctx, Src};
use crate::ev::{self, Opts, Out};
use crate::{progs, props};

pub struct Unit {
    pub kind: &'static str,
    /// declarations, then expressions to evaluate beside them; no expressions
    /// means the declarations are the whole program
    pub prefix: String,
    pub exprs: Vec<String>,
}

impl Unit {
    pub fn text(&self) -> String {
        format!("{}\n{}", self.prefix, self.exprs.join("\n"))
    }
    pub fn eval(&self, o: &Opts) -> Vec<Out> {
        if self.exprs.is_empty() {
            vec![ev::eval_unit(&self.prefix, o)]
        } else {
            ev::eval_batch(&self.prefix, &self.exprs, o)
        }
    }
}

pub fn program(s: &mut Src) -> Unit {
    let n = *s.pick(&[15, 30, 60, 100, 180]);
    for _ in 0..4 {
        let p = progs::program(s, n);
        // what the documentation leaves open may as well run for ever
        if !matches!(p.reference(), Err(progs::RErr::Open(_))) {
            return Unit { kind: "program", prefix: p.source(), exprs: vec![] };
        }
    }
    Unit { kind: "program", prefix: "zz-main: [1, 2] map(inc)\n".into(), exprs: vec![] }
}

/// A batch of library expressions.
pub fn library(s: &mut Src) -> Unit {
    let all = [
        props::c09::prop(),
        props::c10::prop(),
        props::c11::prop(),
        props::c12::prop(),
        props::c13::prop(),
        props::c14::prop(),
    ];
    let facets: Vec<(&str, &crate::engine::Facet)> =
        all.iter().flat_map(|p| p.facets.iter().map(move |f| (p.id, f))).filter(|(_, f)| f.name != "bias").collect();
    let (id, f) = *s.pick(&facets);
    let kind = match id {
        "C09" => "arithmetic",
        "C10" => "text",
        "C11" => "blocks",
        "C12" => "lists",
        "C13" => "containers",
        _ => "random",
    };
    let mut got = vec![];
    let batches = ev::tap(|| {
        let _ = (f.run)(s, &mut Ctx::default());
    });
    let mut prefix = String::new();
    for (p, es) in batches {
        if got.is_empty() || p == prefix {
            prefix = p;
            got.extend(es);
        }
    }
    if got.is_empty() {
        got.push("[1, 2] map(inc)".into());
    }
    Unit { kind, prefix, exprs: got }
}

pub fn unit(s: &mut Src) -> Unit {
    if s.pct(60) {
        program(s)
    } else {
        library(s)
    }
}

/// Compare two evaluations item by item; the description of the first
/// difference, if any. Items that ran out of steps are set aside.
pub fn diff(ctx: &mut Ctx, u: &Unit, what: (&str, &str), a: &[Out], b: &[Out]) -> Option<String> {
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if x.timed_out() || y.timed_out() {
            ctx.inconclusive = true;
            continue;
        }
        if !x.agrees(y) {
            let e = u.exprs.get(i).map(|e| format!("with\n{}\n{e}", u.prefix)).unwrap_or_else(|| u.prefix.clone());
            return Some(format!("{e}\n  {}: {}\n  {}: {}", what.0, x.show(), what.1, y.show()));
        }
    }
    None
}
