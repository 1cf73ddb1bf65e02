//! C10: strings, regular expressions, formats and encodings.

use crate::engine::{Ctx, Facet, Prop, Res, Src};
use crate::ev::{Opts, V};
use crate::gen::*;
use regex::Regex;
use sha2::Digest;

fn st(s: &str) -> V {
    V::Str(s.to_string())
}
fn strs<'a>(xs: impl IntoIterator<Item = &'a str>) -> V {
    V::List(xs.into_iter().map(st).collect())
}

/// Text made of the characters the patterns are made of.
fn re_text(s: &mut Src) -> String {
    let alphabet: Vec<char> = "aaabbc12 .-_/é日😀\n\tAB$^x".chars().collect();
    let n = s.len(18);
    (0..n).map(|_| *s.pick(&alphabet)).collect()
}

fn re_atom(s: &mut Src, depth: usize) -> String {
    match s.below(14) {
        0..=4 => (*s.pick(&["a", "b", "c", "1", "-", "é", "日", "x", " ", "A"])).to_string(),
        5 => (*s.pick(&["\\.", "\\d", "\\w", "\\s", ".", "\\D", "\\W", "\\b", "\\$"])).to_string(),
        6 | 7 => (*s.pick(&["[ab]", "[^a]", "[a-c]", "[0-9]", "[.]", "[[:alpha:]]", "[-_/]"])).to_string(),
        8 | 9 if depth > 0 => format!("({})", re_alt(s, depth - 1)),
        10 if depth > 0 => format!("(?:{})", re_alt(s, depth - 1)),
        11 if depth > 0 => format!("(?P<n>{})", re_alt(s, 0)),
        12 => (*s.pick(&["^", "$", "(?i)", "(?m)", "(?s)"])).to_string(),
        _ => (*s.pick(&["a", "b", "ab", "1"])).to_string(),
    }
}
fn re_seq(s: &mut Src, depth: usize) -> String {
    let mut o = String::new();
    for _ in 0..(1 + s.len(3)) {
        let a = re_atom(s, depth);
        let q = *s.pick(&["", "", "", "", "*", "+", "?", "*?", "+?", "{2}", "{1,2}"]);
        let q = if a.starts_with("(?i") || a.starts_with("(?m") || a.starts_with("(?s") || a == "^" || a == "$" || a == "\\b" { "" } else { q };
        o.push_str(&a);
        o.push_str(q);
    }
    o
}
fn re_alt(s: &mut Src, depth: usize) -> String {
    let mut o = re_seq(s, depth);
    if s.below(5) == 4 {
        o.push('|');
        o.push_str(&re_seq(s, depth));
    }
    o
}

const REG: &[&str] = &["BadRegex"];

/// A pattern, compiled by the oracle. Empty patterns are left out.
fn pattern(s: &mut Src) -> (String, Option<Regex>) {
    if s.below(25) == 24 {
        let p = *s.pick(&["(", "[a-", "*", "a{2,1}", "(?P<n>a)(?P<n>b)", "\\", "(?z)", "a)"]);
        return (p.to_string(), Regex::new(p).ok());
    }
    let mut p = if s.below(5) == 4 { regex::escape(&re_text(s)) } else { re_alt(s, 2) };
    if p.is_empty() {
        p = "a".into();
    }
    let r = Regex::new(&p).ok();
    (p, r)
}

fn regex_item(s: &mut Src) -> Item {
    let t = re_text(s);
    let (p, r) = pattern(s);
    let (lt, lp) = (lit_str(&t), lit_str(&p));
    let f = s.below(11);
    let rep = {
        let parts: Vec<&str> = (0..s.len(3)).map(|_| *s.pick(&["X", "", "$0", "${1}", "$$", "${n}", "-", "é", "\\"])).collect();
        parts.concat()
    };
    let names: [&'static str; 11] =
        ["split", "split-on", "match", "match-with", "matches", "matches-of", "matches?", "replace", "contains?", "starts-with?", "ends-with?"];
    let name = names[f as usize];
    let args: Vec<String> = match f {
        0 | 2 | 4 => vec![lt.clone(), lp.clone()],
        7 => vec![lp.clone(), lit_str(&rep), lt.clone()],
        _ => vec![lp.clone(), lt.clone()],
    };
    let expr = call(s, &format!("str.{name}"), &args);
    let compile = |p: &str| Regex::new(p).ok();
    let caps = |r: &Regex| -> Vec<String> {
        r.captures(&t)
            .map(|c| c.iter().map(|g| g.map(|m| m.as_str()).unwrap_or("").to_string()).collect())
            .unwrap_or_default()
    };
    let exp = match (f, &r) {
        (9, _) => compile(&format!("^{p}")).map(|r| V::Bool(r.is_match(&t))),
        (10, _) => compile(&format!("{p}$")).map(|r| V::Bool(r.is_match(&t))),
        (_, None) => None,
        (0 | 1, Some(r)) => Some(strs(r.split(&t))),
        (2 | 3, Some(r)) => Some(V::List(caps(r).into_iter().map(V::Str).collect())),
        (4 | 5, Some(r)) => Some(strs(r.find_iter(&t).map(|m| m.as_str()))),
        (6, Some(r)) => Some(V::Bool(r.is_match(&t))),
        (7, Some(r)) => Some(st(&r.replace_all(&t, rep.as_str()))),
        (_, Some(r)) => Some(V::Bool(r.is_match(&t))),
    };
    let nt = r.as_ref().map(|r| r.is_match(&t)).unwrap_or(true);
    it(name, expr, exp.map(Exp::Val).unwrap_or(Exp::Err(REG)), nt)
}

/// Where the pattern is plain text, the functions have meanings that need no
/// regular expressions.
fn plain_item(s: &mut Src) -> Item {
    let t = re_text(s);
    let mut w: String = if t.is_empty() || s.below(4) == 3 {
        (*s.pick(&["a", "ab", "1", "é", "zz"])).to_string()
    } else {
        let cs: Vec<char> = t.chars().collect();
        let i = s.n(cs.len());
        let n = 1 + s.n(3).min(cs.len() - i - 1);
        cs[i..i + n].iter().collect()
    };
    if w.contains('\n') {
        w = "a".into();
    }
    let p = lit_str(&regex::escape(&w));
    let lt = lit_str(&t);
    let nt = t.contains(&w);
    match s.below(7) {
        0 => it("split-plain", call(s, "str.split-on", &[p, lt]), Exp::Val(strs(t.split(w.as_str()))), nt),
        1 => it("replace-plain", call(s, "str.replace", &[p, lit_str("<>"), lt]), Exp::Val(st(&t.replace(&w, "<>"))), nt),
        2 => it("contains-plain", call(s, "str.contains?", &[p, lt]), Exp::Val(V::Bool(t.contains(&w))), nt),
        3 => it("starts-plain", call(s, "str.starts-with?", &[p, lt]), Exp::Val(V::Bool(t.starts_with(&w))), nt),
        4 => it("ends-plain", call(s, "str.ends-with?", &[p, lt]), Exp::Val(V::Bool(t.ends_with(&w))), nt),
        5 => it("split-join", format!("({lt} str.split-on({p}) str.join-on({}))", lit_str(&w)), Exp::Val(st(&t)), nt),
        _ => it("match-count", format!("({lt} str.matches-of({p}) count)"), Exp::Val(V::Int(t.matches(w.as_str()).count() as i128)), nt),
    }
}

fn extract_item(s: &mut Src) -> Item {
    let t = re_text(s);
    let p = format!("{}({}){}", re_seq(s, 0), re_seq(s, 0), re_seq(s, 0));
    let Ok(r) = Regex::new(&p) else {
        return it("extract", "1".into(), Exp::Val(V::Int(1)), false);
    };
    let got = r.captures(&t).map(|c| c.get(1).map(|m| m.as_str()).unwrap_or("").to_string());
    let nt = got.is_some();
    let (lp, lt) = (lit_str(&p), lit_str(&t));
    if s.bool() {
        let exp = got.map(|g| Exp::Val(V::Str(g))).unwrap_or(Exp::Err(&[]));
        it("extract", call(s, "str.extract", &[lp, lt]), exp, nt)
    } else {
        let e = call(s, "str.extract-or", &[lp, lit_str("dflt"), lt]);
        it("extract-or", e, Exp::Val(V::Str(got.unwrap_or("dflt".into()))), nt)
    }
}

fn regexes(s: &mut Src, c: &mut Ctx) -> Res {
    let v = items(s, 24, 2, |s| match s.below(5) {
        0 => plain_item(s),
        1 => extract_item(s),
        _ => regex_item(s),
    });
    run_items(c, "", &v, &Opts::default())
}

fn text_item(s: &mut Src) -> Item {
    let (a, b) = (word(s), word(s));
    let (la, lb) = (lit_str(&a), lit_str(&b));
    let nt = !a.is_empty();
    let v = |x: String| Exp::Val(V::Str(x));
    match s.below(24) {
        0 => it("letters", call(s, "str.letters", &[la]), Exp::Val(V::List(a.chars().map(|c| V::Str(c.to_string())).collect())), nt),
        1 => it("len", call(s, "str.len", &[la]), Exp::Val(V::Int(a.chars().count() as i128)), nt),
        2 => it("to-upper", call(s, "str.to-upper", &[la]), v(a.to_uppercase()), nt),
        3 => it("to-lower", call(s, "str.to-lower", &[la]), v(a.to_lowercase()), nt),
        4 => it("trim", call(s, "str.trim", &[la]), v(a.trim().to_string()), nt),
        5 => it("prefix", call(s, "str.prefix", &[lb, la]), v(format!("{b}{a}")), nt),
        6 => it("suffix", call(s, "str.suffix", &[lb, la]), v(format!("{a}{b}")), nt),
        7 => {
            let ws: Vec<String> = s.vec(5, word);
            let l = lit(&V::List(ws.iter().cloned().map(V::Str).collect()));
            let e = if s.bool() { call(s, "str.join", &[l, la]) } else { call(s, "str.join-on", &[la, l]) };
            it("join", e, v(ws.join(&a)), ws.len() > 1)
        }
        8 | 9 => {
            // cheap related strings, so that prefixes and equality occur
            let b2 = if s.bool() { format!("{a}{}", s.pick(&["", "a", "Z", "é"])) } else { b.clone() };
            let lb2 = lit_str(&b2);
            let (op, r): (&'static str, bool) = match s.below(6) {
                0 => ("<", a < b2),
                1 => (">", a > b2),
                2 => ("<=", a <= b2),
                3 => (">=", a >= b2),
                4 => ("=", a == b2),
                _ => ("!=", a != b2),
            };
            it("compare", binop(s, op, &la, &lb2), Exp::Val(V::Bool(r)), nt)
        }
        10 => {
            let (f, r): (&'static str, bool) = match s.below(4) {
                0 => ("str.lt", a < b),
                1 => ("str.gt", a > b),
                2 => ("str.lte", a <= b),
                _ => ("str.gte", a >= b),
            };
            it("str.compare", call(s, f, &[la, lb]), Exp::Val(V::Bool(r)), nt)
        }
        11 => it("shell-escape", call(s, "str.shell-escape", &[la]), v(format!("'{}'", a.replace('\'', "'\\''"))), nt),
        12 => {
            let want: String = a
                .chars()
                .map(|c| if matches!(c, '\\' | '$' | '`' | '"') { format!("\\{c}") } else { c.to_string() })
                .collect();
            it("dq-escape", call(s, "str.dq-escape", &[la]), v(want), a.contains(['\\', '$', '`', '"']))
        }
        13 => {
            let x = match s.below(6) {
                0 => (V::Null, "null".to_string()),
                1 => {
                    let b = s.bool();
                    (V::Bool(b), b.to_string())
                }
                2 => {
                    let k = key(s);
                    (V::Sym(k.clone()), k)
                }
                3 => (V::Str(a.clone()), a.clone()),
                _ => {
                    let n = any_int(s);
                    (V::Int(n), n.to_string())
                }
            };
            it("of", call(s, "str.of", &[lit(&x.0)]), v(x.1), true)
        }
        14 => it("sym", format!("({la} sym str.of)"), v(a.clone()), nt),
        15 => it("sym-eq", format!("(sym({la}) = sym({lb}))"), Exp::Val(V::Bool(a == b)), nt),
        16 => it("reverse-letters", format!("({la} str.letters reverse str.join-on(\"\"))"), v(a.chars().rev().collect()), nt),
        17 => it("letters-join", format!("({la} str.letters str.join-on(\"\"))"), v(a.clone()), nt),
        18 => it("wrong-type", { let f = *s.pick(&["str.to-upper", "str.letters", "str.trim", "str.len", "str.sha256", "str.base64-encode"]); call(s, f, &["7".into()]) }, Exp::Err(&[]), true),
        19 => it("join-wrong", call(s, "str.join-on", &[la, "[\"a\", 1]".into()]), Exp::Err(&[]), true),
        20 => {
            // string sort order is by code point
            let mut ws: Vec<String> = s.vec(6, word);
            let l = lit(&V::List(ws.iter().cloned().map(V::Str).collect()));
            let e = format!("({l} sort-strs)");
            let n = ws.len();
            ws.sort();
            it("sort-strs", e, Exp::Val(V::List(ws.into_iter().map(V::Str).collect())), n > 1)
        }
        21 => {
            let i = s.n(3);
            let (f, c) = [("ch.n", "\n"), ("ch.t", "\t"), ("ch.dq", "\"")][i];
            it("ch", format!("str.prefix({f}, {la})"), v(format!("{c}{a}")), true)
        }
        22 => it("base64", call(s, "str.base64-encode", &[la]), v(b64(a.as_bytes())), nt),
        _ => {
            let h = sha2::Sha256::digest(a.as_bytes());
            it("sha256", call(s, "str.sha256", &[la]), v(h.iter().map(|b| format!("{b:02x}")).collect()), nt)
        }
    }
}

/// Standard base64 with padding, by hand.
fn b64(bs: &[u8]) -> String {
    const T: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = String::new();
    for c in bs.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                o.push(T[(n >> (18 - 6 * i)) as usize & 63] as char);
            } else {
                o.push('=');
            }
        }
    }
    o
}

fn long_text(s: &mut Src) -> String {
    let n = s.len(70);
    let alphabet: Vec<char> = "abcXYZ019+/= \n\té日😀ÿ\u{0}~".chars().collect();
    (0..n).map(|_| *s.pick(&alphabet)).collect()
}

fn lit_any(s: &str) -> String {
    // NUL needs an escape
    if s.contains('\0') {
        let mut o = String::from("c\"");
        for c in s.chars() {
            match c {
                '\0' => o.push_str("\\0"),
                '"' | '\\' | '{' | '}' => {
                    o.push('\\');
                    o.push(c);
                }
                c => o.push(c),
            }
        }
        o.push('"');
        o
    } else {
        lit_str(s)
    }
}

fn encoding_item(s: &mut Src) -> Item {
    let t = long_text(s);
    let l = lit_any(&t);
    let nt = !t.is_empty();
    match s.below(6) {
        0 => it("b64-enc", call(s, "str.base64-encode", &[l]), Exp::Val(V::Str(b64(t.as_bytes()))), nt),
        1 => it("b64-dec", call(s, "str.base64-decode", &[lit_str(&b64(t.as_bytes()))]), Exp::Val(V::Str(t.clone())), nt),
        2 => it("b64-rt", format!("({l} str.base64-encode str.base64-decode)"), Exp::Val(V::Str(t.clone())), nt),
        3 => {
            // arbitrary bytes: valid UTF-8 decodes, anything else is an error
            let bs: Vec<u8> = (0..s.len(9)).map(|_| *s.pick(&[0x41u8, 0x7f, 0x80, 0xc3, 0xa9, 0xe6, 0x97, 0xa5, 0xff, 0x00])).collect();
            let exp = match String::from_utf8(bs.clone()) {
                Ok(x) => Exp::Val(V::Str(x)),
                Err(_) => Exp::Err(&["InvalidBase64Utf8"]),
            };
            it("b64-bytes", call(s, "str.base64-decode", &[lit_str(&b64(&bs))]), exp, true)
        }
        4 => {
            let mut e: Vec<char> = b64(t.as_bytes()).chars().filter(|c| *c != '=').collect();
            let bad = *s.pick(&['!', ' ', '-', '_', '.', 'é']);
            let k = s.n(e.len().max(1));
            e.insert(k.min(e.len()), bad);
            let e: String = e.into_iter().collect();
            it("b64-bad", call(s, "str.base64-decode", &[lit_str(&e)]), Exp::Err(&["InvalidBase64"]), true)
        }
        _ => {
            let h = sha2::Sha256::digest(t.as_bytes());
            it("sha256", call(s, "str.sha256", &[l]), Exp::Val(V::Str(h.iter().map(|b| format!("{b:02x}")).collect())), nt)
        }
    }
}

fn texts(s: &mut Src, c: &mut Ctx) -> Res {
    let v = items(s, 26, 2, |s| if s.below(4) == 3 { encoding_item(s) } else { text_item(s) });
    run_items(c, "", &v, &Opts::default())
}

/// The C library's printf, as the reference for formats.
fn c_int(spec: &str, n: i64) -> Option<String> {
    let f = std::ffi::CString::new(spec).ok()?;
    let mut buf = vec![0u8; 512];
    let k = unsafe { libc::snprintf(buf.as_mut_ptr() as *mut libc::c_char, buf.len(), f.as_ptr(), n) };
    String::from_utf8(buf[..k as usize].to_vec()).ok()
}
fn c_f64(spec: &str, n: f64) -> Option<String> {
    let f = std::ffi::CString::new(spec).ok()?;
    let mut buf = vec![0u8; 1024];
    let k = unsafe { libc::snprintf(buf.as_mut_ptr() as *mut libc::c_char, buf.len(), f.as_ptr(), n) };
    String::from_utf8(buf[..k as usize].to_vec()).ok()
}

fn width(s: &mut Src) -> String {
    match s.below(4) {
        0 | 1 => String::new(),
        2 => s.range(1, 14).to_string(),
        _ => s.range(1, 60).to_string(),
    }
}

/// A formatted value: (literal, format, text).
fn formatted(s: &mut Src) -> (String, String, Exp) {
    let flags = *s.pick(&["", "", "", "-", "0", "+", "+0", "-+", "0+"]);
    let w = width(s);
    match s.below(9) {
        0..=2 => {
            let n = any_int(s).clamp(i64::MIN as i128, i64::MAX as i128) as i64;
            let len = *s.pick(&["", "", "l", "ll", "z"]);
            let spec = format!("%{flags}{w}{len}{}", s.pick(&["d", "d", "i"]));
            let cspec = spec.replace(['l', 'z'], "").replace('d', "ld").replace('i', "li");
            (lit_int(n as i128), spec, Exp::Val(V::Str(c_int(&cspec, n).unwrap())))
        }
        3 => {
            // unsigned conversions of non-negative integers
            let n = any_int(s).clamp(0, i64::MAX as i128) as i64;
            let c = *s.pick(&["x", "X", "o", "u"]);
            let fl = flags.replace('+', "");
            let spec = format!("%{fl}{w}{c}");
            let cspec = spec.replace(c, &format!("l{c}"));
            (lit_int(n as i128), spec, Exp::Val(V::Str(c_int(&cspec, n).unwrap())))
        }
        4 | 5 => {
            let p = s.range(0, 9);
            let (l, x) = match s.below(3) {
                0 => {
                    let n = small_int(s);
                    (lit_int(n as i128), n as f64)
                }
                1 => {
                    let x = s.range(-4000, 4000) as f64 / 8.0;
                    (lit_f64(x), x)
                }
                _ => {
                    let x = any_float(s);
                    (lit_f64(x), x)
                }
            };
            let spec = format!("%{flags}{w}.{p}f");
            let want = c_f64(&spec, x).unwrap();
            (l, spec, Exp::Val(V::Str(want)))
        }
        6 | 7 => {
            let t = word(s);
            let left = flags.contains('-');
            let p = if s.bool() { Some(s.range(0, 8) as usize) } else { None };
            let spec = format!("%{}{w}{}s", if left { "-" } else { "" }, p.map(|p| format!(".{p}")).unwrap_or_default());
            let cut: String = t.chars().take(p.unwrap_or(usize::MAX)).collect();
            let pad = w.parse::<usize>().unwrap_or(0).saturating_sub(cut.chars().count());
            let want = if left { format!("{cut}{}", " ".repeat(pad)) } else { format!("{}{cut}", " ".repeat(pad)) };
            if s.bool() {
                (lit_str(&t), spec, Exp::Val(V::Str(want)))
            } else {
                (format!("sym({})", lit_str(&t)), spec, Exp::Val(V::Str(want)))
            }
        }
        _ => match s.below(4) {
            0 => (lit_int(7), (*s.pick(&["", "d", "5d", "abc"])).to_string(), Exp::Err(&["BadFormatString"])),
            1 => (lit_int(7), (*s.pick(&["%", "%z", "%5", "%k", "%-", "%.2"])).to_string(), Exp::Err(&["BadFormatString"])),
            2 => ("1.5".into(), (*s.pick(&["%x", "%o", "%X"])).to_string(), Exp::Err(&["BadNumericTypeForFormat"])),
            _ => (lit_int(7), (*s.pick(&["%70000d", "%99999999999999999999d", "%.80000f"])).to_string(), Exp::Err(&["BadFormatString"])),
        },
    }
}

fn format_item(s: &mut Src) -> Item {
    let (l, spec, exp) = formatted(s);
    let nt = spec.len() > 2;
    let simple = spec.chars().all(|c| c.is_ascii_alphanumeric() || "%-+.".contains(c)) && matches!(exp, Exp::Val(_));
    if simple && s.below(3) == 0 {
        let e = format!("{{ zq: {l} }}.(\"{{zq:{spec}}}\")");
        it("interpolated-format", e, exp, nt)
    } else {
        it("fmt", call(s, "str.fmt", &[l, lit_str(&spec)]), exp, nt)
    }
}

fn formats(s: &mut Src, c: &mut Ctx) -> Res {
    let v = items(s, 24, 2, format_item);
    run_items(c, "", &v, &Opts::default())
}

/// One character of a c-string, written in one of its ways.
fn c_char(s: &mut Src, c: char) -> String {
    let named = match c {
        '\n' => Some("\\n"),
        '\r' => Some("\\r"),
        '\t' => Some("\\t"),
        '\\' => Some("\\\\"),
        '"' => Some("\\\""),
        '\0' => Some("\\0"),
        '{' => Some("\\{"),
        '}' => Some("\\}"),
        _ => None,
    };
    let n = c as u32;
    let mut ways = vec![];
    match named {
        Some(x) => ways.push(x.to_string()),
        None => {
            ways.push(c.to_string());
            ways.push(c.to_string());
        }
    }
    if n < 0x80 && !"{}".contains(c) {
        ways.push(format!("\\x{n:02x}"));
        ways.push(format!("\\x{n:02X}"));
    }
    if n < 0x10000 && !"{}".contains(c) {
        ways.push(format!("\\u{n:04x}"));
    }
    if !"{}".contains(c) {
        ways.push(format!("\\U{n:08X}"));
    }
    s.pick(&ways).clone()
}

/// A string literal with interpolated parts.
fn literal_item(s: &mut Src) -> Item {
    let cstr = s.bool();
    let raw = !cstr && s.bool();
    let mut body = String::new();
    let mut want = String::new();
    let mut decls: Vec<String> = vec![];
    let mut anon: Vec<String> = vec![];
    let mut err = false;
    let numbered = s.bool();
    let mut parts = 0;
    let allow_holes = s.below(3) == 2;
    for _ in 0..s.len(6) {
        match s.below(6) {
            0..=2 => {
                let t = word(s);
                for c in t.chars() {
                    if cstr {
                        body.push_str(&c_char(s, c));
                        want.push(c);
                    } else if c == '"' {
                    } else {
                        match c {
                            '{' => body.push_str("{{"),
                            '}' => body.push_str("}}"),
                            c => body.push(c),
                        }
                        want.push(c);
                    }
                }
            }
            3 | 4 => {
                let i = decls.len();
                let v = match s.below(5) {
                    0 => V::Null,
                    1 => V::Bool(s.bool()),
                    2 => V::Sym(key(s)),
                    3 => V::Str(word(s)),
                    _ => V::Int(any_int(s)),
                };
                let text = match &v {
                    V::Null => "null".to_string(),
                    V::Bool(b) => b.to_string(),
                    V::Sym(t) | V::Str(t) => t.clone(),
                    V::Int(n) => n.to_string(),
                    _ => String::new(),
                };
                parts += 1;
                if s.below(3) == 2 {
                    decls.push(format!("zv{i}: {{ a: 1 b: {{ c: {} }} }}", lit(&v)));
                    body.push_str(&format!("{{zv{i}.b.c}}"));
                    want.push_str(&text);
                } else if s.below(3) == 2 {
                    let (l, spec, exp) = formatted(s);
                    let ok = spec.chars().all(|c| c.is_ascii_alphanumeric() || "%-+.".contains(c));
                    if let (true, Exp::Val(V::Str(t))) = (ok, &exp) {
                        decls.push(format!("zv{i}: {l}"));
                        body.push_str(&format!("{{zv{i}:{spec}}}"));
                        want.push_str(t);
                    }
                } else {
                    decls.push(format!("zv{i}: {}", lit(&v)));
                    body.push_str(&format!("{{zv{i}}}"));
                    want.push_str(&text);
                }
            }
            _ if allow_holes && anon.len() < 4 => {
                let t = word(s);
                if numbered {
                    body.push_str(&format!("{{{}}}", anon.len()));
                } else {
                    body.push_str("{}");
                }
                want.push_str(&t);
                anon.push(lit_str(&t));
                parts += 1;
                err |= false;
            }
            _ => {}
        }
    }
    let l = format!("{}\"{body}\"", if cstr { "c" } else if raw { "r" } else { "" });
    let e = if anon.is_empty() {
        format!("{{ {} }}.({l})", decls.join(" "))
    } else if anon.len() == 1 && s.bool() {
        // a function made of a string can be mapped
        format!("{{ {} }}.([{}] map({l}) head)", decls.join(" "), anon[0])
    } else {
        format!("{{ {} zf: {l} }}.(zf({}))", decls.join(" "), anon.join(", "))
    };
    it(if cstr { "c-literal" } else { "literal" }, e, Exp::Val(V::Str(want)), parts > 0 || cstr)
}

fn literals(s: &mut Src, c: &mut Ctx) -> Res {
    let v = items(s, 18, 0, literal_item);
    run_items(c, "", &v, &Opts::default())
}

pub fn prop() -> Prop {
    Prop {
        id: "C10",
        facets: vec![
            Facet { name: "regex", rule: "split, match, extract, replace and test functions on generated patterns and texts, in varied spellings, against the regex engine and plain substring meanings; non-trivial: the pattern matches", quick: 900, thorough: 30000, run: regexes },
            Facet { name: "text", rule: "joins, case, trimming, comparison, escaping, conversion, base64 and sha256 of generated text; non-trivial: non-empty text", quick: 900, thorough: 30000, run: texts },
            Facet { name: "format", rule: "printf formats through str.fmt and interpolation against the C library; non-trivial: the format has a flag, width or precision", quick: 700, thorough: 20000, run: formats },
            Facet { name: "literals", rule: "string literals with escapes, interpolated names and paths, formats and anaphora; non-trivial: an interpolated part or an escape-capable literal", quick: 700, thorough: 20000, run: literals },
        ],
        known: vec![],
        assumptions: vec!["the regex crate and the C library's printf are the reference"],
    }
}
