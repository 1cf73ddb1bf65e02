//! Value generators, eucalypt literals and the table-driven checker.

use crate::engine::{fail, Ctx, Res, Src};
use crate::ev::{self, Opts, V};

pub const KEYS: &[&str] = &["a", "b", "c", "d", "e", "k1", "x", "y", "name", "value"];
pub const WORDS: &[&str] = &[
    "", "a", "b", "ab", "abc", "foo", "bar", "foo bar", "hello, world", "x1", "A", "Zed", "naïve", "λx", "日本", "😀!", "a.b", "1", "42", "-7", "1.5",
    "true", "null", "{x}", "}{", "a\"q\"b", "back\\slash", "tab\there", "line\nbreak", "  pad  ", "$1", "[z]", "e\u{301}", "#c", "`", "'s", "100%", ":s", "~",
];

pub fn lit_int(n: i128) -> String {
    n.to_string()
}

pub fn lit_f64(x: f64) -> String {
    let s = format!("{x}");
    if s.contains('.') {
        s
    } else {
        format!("{s}.0")
    }
}

/// A string literal: a plain one where possible, otherwise a c-string.
pub fn lit_str(s: &str) -> String {
    if !s.contains('"') {
        let mut o = String::from("\"");
        for c in s.chars() {
            match c {
                '{' => o.push_str("{{"),
                '}' => o.push_str("}}"),
                c => o.push(c),
            }
        }
        o.push('"');
        o
    } else {
        let mut o = String::from("c\"");
        for c in s.chars() {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                '{' => o.push_str("\\{"),
                '}' => o.push_str("\\}"),
                '\n' => o.push_str("\\n"),
                '\t' => o.push_str("\\t"),
                '\r' => o.push_str("\\r"),
                c => o.push(c),
            }
        }
        o.push('"');
        o
    }
}

pub fn simple_name(s: &str) -> bool {
    let mut cs = s.chars();
    matches!(cs.next(), Some(c) if c.is_ascii_lowercase())
        && cs.all(|c| c.is_ascii_alphanumeric() || c == '-')
}

pub fn lit_key(s: &str) -> String {
    if simple_name(s) {
        s.to_string()
    } else {
        format!("'{s}'")
    }
}

pub fn lit_sym(s: &str) -> String {
    format!(":{}", lit_key(s))
}

/// Eucalypt source for a value.
pub fn lit(v: &V) -> String {
    match v {
        V::Null => "null".into(),
        V::Bool(b) => b.to_string(),
        V::Int(n) => lit_int(*n),
        V::Float(x) => lit_f64(*x),
        V::Str(s) => lit_str(s),
        V::Sym(s) => lit_sym(s),
        V::Time(s) => format!("t\"{s}\""),
        V::List(xs) => format!("[{}]", xs.iter().map(lit).collect::<Vec<_>>().join(", ")),
        V::Block(kvs) => format!(
            "{{{}}}",
            kvs.iter().map(|(k, v)| format!("{}: {}", lit_key(k.key().unwrap_or("?")), lit(v))).collect::<Vec<_>>().join(", ")
        ),
    }
}

pub fn small_int(s: &mut Src) -> i64 {
    let n = s.range(0, 40) - 0;
    if s.bool() {
        -(n as i64)
    } else {
        n as i64
    }
}

/// Integers with boundary emphasis, over the i64 and u64 ranges.
pub fn any_int(s: &mut Src) -> i128 {
    match s.weighted(&[8, 4, 4, 3, 2]) {
        0 => small_int(s) as i128,
        1 => s.range(-100_000, 100_000) as i128,
        2 => {
            let k = s.n(63) as u32;
            let base = 1i128 << k;
            let d = s.range(-2, 2) as i128;
            let v = base + d;
            let v = if s.bool() { -v } else { v };
            v.clamp(i64::MIN as i128, i64::MAX as i128)
        }
        3 => {
            let v = s.raw() as i64;
            (v >> s.n(64)) as i128
        }
        _ => *s.pick(&[
            i64::MAX as i128,
            i64::MIN as i128,
            i64::MAX as i128 - 1,
            i64::MIN as i128 + 1,
            i64::MAX as i128 + 1,
            u64::MAX as i128,
            u64::MAX as i128 - 1,
            9007199254740993,
            -9007199254740993,
            4294967296,
            4294967295,
            -4294967296,
            3037000500,
            -3037000500,
        ]),
    }
}

pub fn any_float(s: &mut Src) -> f64 {
    match s.weighted(&[6, 4, 3, 2]) {
        0 => s.range(-200, 200) as f64 / *s.pick(&[2.0, 4.0, 8.0, 10.0, 3.0]),
        1 => s.range(-50, 50) as f64,
        2 => {
            let m = s.range(-1_000_000, 1_000_000) as f64;
            m * *s.pick(&[1e-9, 1e-3, 0.125, 1e6, 1e15, 1e120, 1e-120])
        }
        _ => *s.pick(&[
            0.0, 0.5, -0.5, 1.5, 2.5, -2.5, 0.1, 1e18, 9.3e18, -9.3e18, 9007199254740993.0, 1e300, -1e300, 1e-300, 1.7e308, -0.0,
        ]),
    }
}

pub fn any_num(s: &mut Src) -> V {
    if s.below(3) == 2 {
        V::Float(any_float(s))
    } else {
        V::Int(any_int(s))
    }
}

pub fn word(s: &mut Src) -> String {
    if s.below(3) == 2 {
        let alphabet: Vec<char> = "abcxyzABC019 .-_/{}\"'\\$%é日😀\n\t#:,".chars().collect();
        let n = s.len(12);
        (0..n).map(|_| *s.pick(&alphabet)).collect()
    } else {
        s.pick(WORDS).to_string()
    }
}

pub fn key(s: &mut Src) -> String {
    s.pick(KEYS).to_string()
}

pub fn scalar(s: &mut Src) -> V {
    match s.weighted(&[6, 4, 3, 2, 1, 1]) {
        0 => V::Int(small_int(s) as i128),
        1 => V::Str(word(s)),
        2 => V::Sym(key(s)),
        3 => V::Bool(s.bool()),
        4 => V::Null,
        _ => any_num(s),
    }
}

/// Distinct keys in random order.
pub fn keys(s: &mut Src, max: usize) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    for _ in 0..s.len(max) {
        let k = key(s);
        if !out.contains(&k) {
            out.push(k);
        }
    }
    out
}

pub fn value(s: &mut Src, depth: usize) -> V {
    if depth == 0 {
        return scalar(s);
    }
    match s.weighted(&[5, 2, 3]) {
        0 => scalar(s),
        1 => {
            let n = s.len(5);
            V::List((0..n).map(|_| value(s, depth - 1)).collect())
        }
        _ => block(s, depth),
    }
}

pub fn block(s: &mut Src, depth: usize) -> V {
    let ks = keys(s, 6);
    V::Block(ks.into_iter().map(|k| (V::Sym(k), value(s, depth.saturating_sub(1)))).collect())
}

/// What an expression should produce.
#[derive(Clone, Debug)]
pub enum Exp {
    Val(V),
    /// an execution error whose variant name is one of these (empty: any)
    Err(&'static [&'static str]),
}

#[derive(Clone, Debug)]
pub struct Item {
    pub name: &'static str,
    pub expr: String,
    pub exp: Exp,
    pub nt: bool,
}

/// Write a call of `f` on `args` in one of several equivalent spellings.
pub fn call(s: &mut Src, f: &str, args: &[String]) -> String {
    let n = args.len();
    match s.below(6) {
        0 | 1 => format!("{f}({})", args.join(", ")),
        2 if n >= 1 => {
            let last = format!("({})", args[n - 1]);
            if n == 1 {
                format!("({last} {f})")
            } else {
                format!("({last} {f}({}))", args[..n - 1].join(", "))
            }
        }
        3 if n >= 1 => {
            let decls: Vec<String> = args.iter().enumerate().map(|(i, a)| format!("zq{i}: {a}")).collect();
            let names: Vec<String> = (0..n).map(|i| format!("zq{i}")).collect();
            format!("{{ {} }}.({f}({}))", decls.join(" "), names.join(", "))
        }
        4 if n >= 2 => {
            // curried
            format!("{{ zqf: {f}({}) }}.(zqf({}))", args[0], args[1..].join(", "))
        }
        5 if n >= 1 => {
            let names: Vec<String> = (0..n).map(|i| format!("zp{i}")).collect();
            format!("{{ zqf({}): {f}({}) }}.(zqf({}))", names.join(", "), names.join(", "), args.join(", "))
        }
        _ => format!("{f}({})", args.join(", ")),
    }
}

/// Write a binary operation in one of several equivalent spellings.
pub fn binop(s: &mut Src, op: &str, a: &str, b: &str) -> String {
    match s.below(6) {
        0 | 1 => format!("({a} {op} {b})"),
        2 => format!("({a} ({op} {b}))"),
        3 => format!("flip(({op}), {b}, {a})"),
        4 => format!("{{ zqa: {a} zqb: {b} }}.(zqa {op} zqb)"),
        _ => format!("{{ zqf(x, y): x {op} y }}.(zqf({a}, {b}))"),
    }
}

/// Evaluate the items and compare each with what it should produce.
pub fn run_items(ctx: &mut Ctx, prefix: &str, items: &[Item], o: &Opts) -> Res {
    let mut d = String::from(prefix);
    for it in items {
        d.push_str(&format!("{} -> {:?}\n", it.expr, it.exp));
    }
    ctx.case(d);
    let oks: Vec<&Item> = items.iter().filter(|i| matches!(i.exp, Exp::Val(_))).collect();
    let errs: Vec<&Item> = items.iter().filter(|i| matches!(i.exp, Exp::Err(_))).collect();
    if !oks.is_empty() {
        let exprs: Vec<String> = oks.iter().map(|i| i.expr.clone()).collect();
        let outs = ev::eval_batch(prefix, &exprs, o);
        for (it, out) in oks.iter().zip(&outs) {
            ctx.sub(&it.expr, it.nt);
            ctx.label(it.name);
            let Exp::Val(want) = &it.exp else { unreachable!() };
            match &out.value {
                Ok(got) if got.same(want) => {}
                Err(e) if e.kind == "DidntTerminate" => ctx.inconclusive = true,
                _ => {
                    return fail(
                        format!("value:{}", it.name),
                        format!("{}: {}\n  expected {:?}\n  got      {}", it.name, it.expr, want, out.show()),
                    )
                }
            }
        }
    }
    for it in errs {
        ctx.sub(&it.expr, it.nt);
        ctx.label(it.name);
        let Exp::Err(kinds) = &it.exp else { unreachable!() };
        let outs = ev::eval_batch(prefix, &[it.expr.clone()], o);
        match &outs[0].value {
            Err(e) if e.kind == "DidntTerminate" => ctx.inconclusive = true,
            Err(e) if kinds.is_empty() || kinds.contains(&e.kind.as_str()) => {}
            _ => {
                return fail(
                    format!("error:{}", it.name),
                    format!("{}: {}\n  expected error {:?}\n  got      {}", it.name, it.expr, kinds, outs[0].show()),
                )
            }
        }
    }
    Ok(())
}

pub fn it(name: &'static str, expr: String, exp: Exp, nt: bool) -> Item {
    Item { name, expr, exp, nt }
}

/// Generate `n` items, at most `max_err` of which expect an error.
pub fn items(s: &mut Src, n: usize, max_err: usize, mut g: impl FnMut(&mut Src) -> Item) -> Vec<Item> {
    let mut out = vec![];
    let mut errs = 0;
    for _ in 0..n {
        // shrinking to 0 leaves the item out but keeps its choices aligned
        let keep = s.below(1_000_000) != 0;
        let i = g(s);
        if !keep {
            continue;
        }
        if matches!(i.exp, Exp::Err(_)) {
            if errs >= max_err {
                continue;
            }
            errs += 1;
        }
        out.push(i);
    }
    out
}
