//! C05: programs mean what call-by-need and lexical scope say.

use crate::engine::{fail, Ctx, Facet, Prop, Res, Src};
use crate::ev::{self, Opts};
use crate::progs::{self, Program, RErr, E};

fn size(s: &mut Src) -> i64 {
    *s.pick(&[10, 25, 25, 50, 50, 90, 160])
}

fn features(src: &str, ctx: &mut Ctx) {
    for (k, l) in [
        ("panic(", "fail"), ("}.(", "local scope"), (":let", "let"), ("map(", "map"), ("//", "meta"), (" : ", "cons pattern"),
        ("tail(", "walk"), ("- 1", "recursion"), ("fold", "fold"), ("zp:", "partial"), ("∘", "compose"),
    ] {
        if src.contains(k) {
            ctx.label(l);
        }
    }
}

pub fn check(ctx: &mut Ctx, p: &Program, o: &Opts) -> Res {
    let src = p.source();
    ctx.case(src.clone());
    let want = p.reference();
    if let Err(RErr::Open(w)) = want {
        ctx.label(format!("open: {w}"));
        ctx.sub(&src, false);
        return Ok(());
    }
    features(&src, ctx);
    ctx.sub(&src, src.len() > 80);
    let out = ev::eval_unit(&src, o);
    if out.timed_out() {
        ctx.inconclusive = true;
        return Ok(());
    }
    match (&want, &out.value) {
        (Ok(w), Ok(g)) if g.same(w) => Ok(()),
        (Err(RErr::Fail), Err(e)) if e.stage == "run" => {
            ctx.label("fails as it should");
            Ok(())
        }
        (w, _) => fail("result", format!("{src}\n  expected {w:?}\n  got      {}", out.show())),
    }
}

fn programs(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = size(s);
    let p = progs::program(s, n);
    check(ctx, &p, &Opts::default())
}

// ---------------------------------------------------------------- sharing

/// A place which holds something costly, and the ways to get at it.
fn holder(s: &mut Src, i: usize, v: i64) -> (String, Vec<String>) {
    let w = format!("wk({v})");
    let plain = |name: String, body: String, uses: &[&str]| (format!("{name}: {body}\n"), uses.iter().map(|u| format!("({})", u.replace('@', &name))).collect::<Vec<_>>());
    match s.n(23) {
        0 => plain(format!("zh{i}"), w, &["@ + 0", "[@, @] head", "@"]),
        1 => plain(format!("zh{i}"), format!("{{ a: {w} b: 1 }}"), &["@.a", "@ lookup(:a)", "@ values head", "@.(a)", "@ map-values(identity) lookup(:a)", "(@ { b: 2 }).a", "(@ elements head) second"]),
        2 => plain(format!("zh{i}"), format!("{{ b: 1 a: {w} }}"), &["@.a", "@ lookup(:a)", "@ values second", "@.(a + 0)", "@ values reverse head"]),
        3 => plain(format!("zh{i}"), format!("[{w}]"), &["@ head", "@ nth(0)", "@ reverse head", "@ map(identity) head", "(@ ++ @) second", "@ sum", "@ cons(1) second"]),
        4 => plain(format!("zh{i}"), format!("[1, {w}, 2]"), &["@ second", "@ nth(1)", "@ reverse second", "@ map(identity) second", "@ drop(1) head", "zip(@, @) second head"]),
        5 => plain(format!("zh{i}"), format!("{{ a: [{{ b: {w} }}] }}"), &["(@.a head).b", "@.a head lookup(:b)"]),
        6 => plain(format!("zh{i}"), format!("{{ x: {w} }}.(_ + x)"), &["@(0)", "0 @", "[0] map(@) head"]),
        7 => plain(format!("zadd{i}(x, y): x + y\nzh{i}"), format!("zadd{i}({w})"), &["zh#(0)", "0 zh#", "[0] map(zh#) head"]).at(i),
        8 => plain(format!("zh{i}"), format!("(1 // {{ a: {w} }})"), &["meta(@).a", "(@ meta) lookup(:a)"]),
        9 => plain(format!("zh{i}"), format!("{{ b: 1 }} {{ a: {w} }}"), &["@.a", "@ values second"]),
        10 => plain(format!("zh{i}"), format!("block([[:a, {w}]])"), &["@.a", "@ lookup(:a)"]),
        11 => plain(format!("zh{i}"), format!("{{ x: {w} y: [x, x] z: [y, x] }}"), &["@.x", "@.y head", "@.y second", "@.z second", "@.z head head"]),
        12 => plain(format!("zdes{i}([a, b]): {{ p: a q: [a, b] }}\nzh{i}"), format!("zdes{i}([{w}, 1])"), &["zh#.p", "zh#.q head"]).at(i),
        13 => plain(format!("zrec{i}({{x y}}): [x, y, x]\nzh{i}"), format!("zrec{i}({{ x: {w} y: 1 }})"), &["zh# head", "zh# nth(2)"]).at(i),
        14 => plain(format!("zhd{i}([a : b]): {{ p: a q: b }}\nzh{i}"), format!("zhd{i}([1, {w}])"), &["zh#.q head", "zh#.q reverse head"]).at(i),
        15 => plain(format!("zh{i}"), format!("[1, 2] map(+ 0) cons({w})"), &["@ head", "@ reverse nth(2)"]),
        16 => plain(format!("zl{i}(x): [x, x + 0, [x]]\nzh{i}"), format!("zl{i}({w})"), &["zh# head", "zh# second", "zh# nth(2) head"]).at(i),
        17 => plain(format!("zl{i}(x): {{ a: x b: a + 0 * x r: [a, b, x] }}.r\nzh{i}"), format!("zl{i}({w})"), &["zh# head", "zh# second", "zh# nth(2)"]).at(i),
        18 => plain(format!("zr{i}(n, x): if(n = 0, x, zr{i}(n - 1, x) + 0 * x)\nzh{i}"), format!("zr{i}(3, {w})"), &["zh# + 0", "zh#"]).at(i),
        19 => plain(format!("zq{i}(k): {{ x: {w} y: [x, x] r: (y map(_ + k)) ++ y }}.r\nzh{i}"), format!("zq{i}(0)"), &["zh# head", "zh# second", "zh# nth(2)"]).at(i),
        20 => plain(format!("zs{i}(x, y, z): x + y * z\nzh{i}"), format!("zs{i}({w}, 0)"), &["zh#(1)", "[1, 2] map(zh#) head", "2 zh#"]).at(i),
        21 => plain(format!("zk{i}(x, k): if(k > 0, {{ :let u: x + 0 }}.([u, u, x]), [x, x, x])\nzh{i}"), format!("{{ :let p: {w} }}.(zk{i}(p, 1) ++ zk{i}(p, 0))"), &["zh# head", "zh# nth(2)", "zh# nth(4)"]).at(i),
        _ => plain(format!("zh{i}"), format!("if([1] nil?, {{ a: 1 }}, {{ a: {w} }})"), &["@.a", "@ lookup(:a)"]),
    }
}

trait Fix {
    fn at(self, i: usize) -> Self;
}
impl Fix for (String, Vec<String>) {
    fn at(self, i: usize) -> Self {
        (self.0, self.1.into_iter().map(|u| u.replace('#', &i.to_string())).collect())
    }
}

/// Replace some of the integers written by uses of what holds them.
fn plant(e: &mut E, s: &mut Src, hs: &mut Vec<(String, Vec<String>)>, n: &mut usize) {
    match e {
        E::Int(v) => {
            if s.pct(60) && *n < 12 {
                let v = *v;
                // an earlier one with that value, or a new one
                let k = match hs.iter().position(|h| h.0.contains(&format!("wk({v})"))) {
                    Some(k) if s.pct(80) => k,
                    _ if hs.len() < 5 => {
                        let h = holder(s, hs.len(), v);
                        hs.push(h);
                        hs.len() - 1
                    }
                    Some(k) => k,
                    None => return,
                };
                *n += 1;
                let u = s.pick(&hs[k].1).clone();
                *e = E::Var(u);
            }
        }
        E::List(xs) => xs.iter_mut().for_each(|x| plant(x, s, hs, n)),
        E::Block(ds) => ds.iter_mut().for_each(|d| plant(&mut d.body, s, hs, n)),
        E::Get(a, _) | E::Sec(_, a) | E::Meta(a) => plant(a, s, hs, n),
        E::Gen(a, b) | E::Cat(a, b) | E::Op(_, a, b) => {
            plant(a, s, hs, n);
            plant(b, s, hs, n)
        }
        E::App(f, xs) => {
            plant(f, s, hs, n);
            xs.iter_mut().for_each(|x| plant(x, s, hs, n))
        }
        E::Let(bs, b) => {
            bs.iter_mut().for_each(|x| plant(&mut x.1, s, hs, n));
            plant(b, s, hs, n)
        }
        _ => {}
    }
}

fn work(cost: usize) -> String {
    format!("zloop(i, acc): if(i = 0, acc, zloop(i - 1, acc))\nwk(v): zloop({cost}, v)\n")
}

const COST: usize = 1500;

/// What one evaluation costs.
fn unit(o: &Opts) -> u64 {
    let run = |c: usize| ev::eval_unit(&format!("{}zz: wk(3)\n", work(c)), o).ticks;
    run(COST) - run(1)
}

/// What is bound, held in a structure or captured is evaluated at most once:
/// making it costly costs that much and no more.
fn shared(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = *s.pick(&[10, 25, 25, 50]);
    let mut p = progs::program(s, n);
    let want = p.reference();
    let (mut hs, mut uses) = (vec![], 0);
    for d in &mut p.decls {
        plant(&mut d.body, s, &mut hs, &mut uses);
    }
    let Ok(want) = want else { return Ok(()) };
    let held: String = hs.iter().map(|h| h.0.as_str()).collect();
    // otherwise the whole unit is shown, and these with it
    if !p.main {
        return Ok(());
    }
    let src = |c: usize| format!("{}{held}{}", work(c), p.source());
    ctx.case(src(COST));
    let o = Opts::default();
    let cheap = ev::eval_unit(&src(1), &o);
    if cheap.timed_out() {
        ctx.inconclusive = true;
        return Ok(());
    }
    let dear = ev::eval_unit(&src(COST), &o);
    if uses > hs.len() {
        ctx.nt();
    }
    for out in [&cheap, &dear] {
        if !matches!(&out.value, Ok(v) if v.same(&want)) {
            return fail("result", format!("{}\n  expected {want:?}\n  got      {}", src(COST), out.show()));
        }
    }
    static UNIT: std::sync::OnceLock<u64> = std::sync::OnceLock::new();
    let u = *UNIT.get_or_init(|| unit(&o));
    let more = dear.ticks.saturating_sub(cheap.ticks);
    ctx.label(format!("{} evaluated", (more + u / 2) / u));
    if more > hs.len() as u64 * u + u / 2 {
        return fail("again", format!("{} costly things were evaluated about {:.1} times\n{}", hs.len(), more as f64 / u as f64, src(COST)));
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C05",
        facets: vec![Facet {
            name: "programs",
            rule: "typed programs against a reference call-by-need interpreter; non-trivial: the reference gives a value or a definite failure and the program is longer than 80 characters",
            quick: 6000,
            thorough: 120000,
            run: programs,
        }, Facet {
            name: "shared",
            rule: "typed programs in which costly values are held in several ways; non-trivial: one of them is used more than once",
            quick: 1500,
            thorough: 40000,
            run: shared,
        }],
        known: vec![],
        assumptions: vec!["programs whose result turns on an order of evaluation the documentation leaves open are set aside"],
    }
}
