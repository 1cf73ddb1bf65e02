//! C07: the prelude image, the source prelude and both instruction dispatchers
//! give the same results.

use crate::engine::{fail, Ctx, Facet, Prop, Res, Src};
use crate::ev::{self, Opts};
use crate::mix::{self, Unit};
use eucalypt::eval::stg::blob::PreludeBlob;

const LIMIT: usize = 4_000_000;

fn source(s: &mut Src, ctx: &mut Ctx) -> Res {
    if ev::blob().is_none() {
        return fail("image", "the prelude image could not be built or read back");
    }
    let u = mix::unit(s);
    ctx.case(u.text());
    ctx.label(u.kind);
    let (a, b) = (u.eval(&Opts { limit: Some(LIMIT), ..Opts::default() }), u.eval(&Opts { limit: Some(LIMIT), ..Opts::source() }));
    note(ctx, &u, &a);
    match mix::diff(ctx, &u, ("prelude image", "prelude source"), &a, &b) {
        Some(d) => fail("result", d),
        None => Ok(()),
    }
}

fn note(ctx: &mut Ctx, u: &Unit, outs: &[ev::Out]) {
    for (i, out) in outs.iter().enumerate() {
        ctx.sub(&format!("{}{}", u.prefix, u.exprs.get(i).map(|s| s.as_str()).unwrap_or("")), out.ticks > 30);
    }
}

fn dispatch(s: &mut Src, ctx: &mut Ctx) -> Res {
    let u = mix::unit(s);
    ctx.case(u.text());
    ctx.label(u.kind);
    let a = u.eval(&Opts { limit: Some(LIMIT), ..Opts::default() });
    note(ctx, &u, &a);
    std::env::set_var("EU_PREDECODE", "0");
    let b = u.eval(&Opts { limit: Some(LIMIT), ..Opts::default() });
    std::env::remove_var("EU_PREDECODE");
    match mix::diff(ctx, &u, ("pre-decoded", "byte by byte"), &a, &b) {
        Some(d) => fail("result", d),
        None => Ok(()),
    }
}

/// The image written out and read back is the same image; a damaged one is
/// rejected or read, never a crash.
fn image(s: &mut Src, ctx: &mut Ctx) -> Res {
    let Some(b) = ev::blob() else {
        return fail("image", "the prelude image could not be built or read back");
    };
    let bytes = b.to_bytes().map_err(|e| e.to_string());
    let Ok(bytes) = bytes else {
        return fail("image", format!("cannot write the image: {bytes:?}"));
    };
    let again = PreludeBlob::from_bytes(&bytes).ok().and_then(|c| c.to_bytes().ok());
    if again.is_none() {
        return fail("image", "cannot read back the image just written");
    }
    // unordered tables may come out in another order, but nothing is lost
    if again.unwrap().len() != bytes.len() {
        return fail("image", "the image changes size when read and written again");
    }
    let mut cut = bytes.clone();
    let n = s.n(cut.len());
    if s.bool() {
        cut.truncate(n);
        ctx.case(format!("cut at {n}"));
        if PreludeBlob::from_bytes(&cut).is_ok() {
            return fail("cut", format!("an image cut at byte {n} of {} was accepted", bytes.len()));
        }
    } else {
        let x = 1u8 << s.below(8);
        cut[n] ^= x;
        ctx.case(format!("byte {n} changed by {x}"));
        let _ = PreludeBlob::from_bytes(&cut);
    }
    ctx.nt();
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C07",
        facets: vec![
            Facet { name: "source", rule: "generated programs and library batches with the prelude image against the prelude source; non-trivial: more than 30 machine steps", quick: 250, thorough: 12000, run: source },
            Facet { name: "dispatch", rule: "generated programs and library batches under both dispatchers; non-trivial: more than 30 machine steps", quick: 1500, thorough: 60000, run: dispatch },
            Facet { name: "image", rule: "the image written, read back, cut short or with one bit changed; each is non-trivial", quick: 60, thorough: 1500, run: image },
        ],
        known: vec![],
        assumptions: vec![],
    }
}
