//! C16: imported data means what its format says.

use crate::engine::{fail, Ctx, Facet, Known, Prop, Res, Src};
use crate::ev::{self, Opts, Out, V};
use crate::gen;
use crate::props::c02::scratch;
use crate::props::c17::{edn_plain, instant, spell_str, text};
use eucalypt::syntax::input::{Input, Locator};
use std::path::PathBuf;

/// What a document says.
#[derive(Clone, Debug)]
enum W {
    Null,
    Bool(bool),
    Int(i128),
    Float(f64),
    Str(String),
    Sym(String),
    /// an instant
    Time(String),
    List(Vec<W>),
    /// a list in no particular order
    Set(Vec<W>),
    /// keys in order, or not
    Block(bool, Vec<(String, W)>),
}

#[derive(Clone, Copy)]
struct How {
    /// times are left as text
    inert: bool,
    /// floats may be off by one place (known finding)
    loose: bool,
}

fn same(w: &W, v: &V, h: How) -> bool {
    match (w, v) {
        (W::Null, V::Null) => true,
        (W::Bool(a), V::Bool(b)) => a == b,
        (W::Int(a), V::Int(b)) => a == b,
        (W::Float(a), V::Float(b)) => a == b || h.loose && (a.to_bits() as i64 - b.to_bits() as i64).abs() <= 1,
        (W::Str(a), V::Str(b)) | (W::Sym(a), V::Sym(b)) => a == b,
        (W::Time(a), V::Time(b)) if !h.inert => instant(a).is_some() && instant(a) == instant(b),
        (W::Time(a), V::Str(b)) if h.inert => {
            let local = |b: &str| instant(&format!("{b}Z")).or_else(|| instant(&format!("{b}T00:00:00Z")));
            instant(a).is_some() && instant(a) == instant(b).or_else(|| local(b))
        }
        (W::List(a), V::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b, h)),
        (W::Set(a), V::List(b)) => {
            let mut left: Vec<&V> = b.iter().collect();
            a.len() == b.len()
                && a.iter().all(|a| match left.iter().position(|b| same(a, b, h)) {
                    Some(i) => {
                        left.remove(i);
                        true
                    }
                    None => false,
                })
        }
        (W::Block(order, a), V::Block(b)) => {
            a.len() == b.len()
                && if *order {
                    a.iter().zip(b).all(|((k, a), (l, b))| l.key() == Some(k) && same(a, b, h))
                } else {
                    a.iter().all(|(k, a)| b.iter().any(|(l, b)| l.key() == Some(k) && same(a, b, h)))
                }
        }
        _ => false,
    }
}

// ---------------------------------------------------------------- ways in

struct Doc {
    format: &'static str,
    ext: &'static str,
    text: String,
    want: Option<W>,
}

const OPTS: fn() -> Opts = || Opts { limit: Some(5_000_000), ..Opts::default() };

fn tidy<T>(dir: &PathBuf, t: T) -> T {
    let _ = std::fs::remove_dir_all(dir);
    t
}

fn by_way(way: &str, d: &Doc) -> Out {
    let dir = scratch();
    let put = |n: &str| {
        let p = dir.join(n);
        std::fs::write(&p, &d.text).unwrap();
        p
    };
    let o = OPTS();
    let main = "` {target: :main}\nmain: d\n";
    let r = match way {
        "import" => {
            let p = put("data");
            ev::eval_unit(&format!("{{ import: \"d={}@{}\" }}\n\n{main}", d.format, p.display()), &o)
        }
        "import by extension" => {
            let p = put(&format!("data.{}", d.ext));
            ev::eval_unit(&format!("{{ import: [\"d={}\"] }}\n\n{main}", p.display()), &o)
        }
        "import on a declaration" => {
            let p = put("data");
            ev::eval_unit(&format!("` {{ import: \"d={}@{}\" target: :main}}\nmain: d\n", d.format, p.display()), &o)
        }
        "input" => {
            let p = put("data");
            ev::eval_inputs(vec![Input::new(Locator::Fs(p), Some("d".into()), d.format), ev::unit_input(main)], &o)
        }
        "stream" => {
            let p = put("data");
            ev::eval_unit(&format!("{{ import: \"d={}-stream@{}\" }}\n\n{main}", d.format, p.display()), &o)
        }
        "parse-as" => ev::eval_unit(&format!("` {{target: :main}}\nmain: parse-as(:{}, {})\n", d.format, spell_str(&d.text)), &o),
        _ => panic!("{way}"),
    };
    tidy(&dir, r)
}

fn ways(format: &str) -> &'static [&'static str] {
    match format {
        "csv" | "text" => &["import", "import by extension", "import on a declaration", "input", "parse-as", "stream", "stream"],
        "xml" => &["import", "import by extension", "import on a declaration", "input", "parse-as"],
        "jsonl" => &["stream"],
        _ => &["import", "import by extension", "import on a declaration", "input", "parse-as"],
    }
}

fn check(s: &mut Src, ctx: &mut Ctx, d: Doc) -> Res {
    let all = ways(d.format);
    let a = *s.pick(all);
    let b = *s.pick(all);
    let ws: Vec<&str> = if a == b { vec![a] } else { vec![a, b] };
    ctx.case(format!("{} by {}:\n{}", d.format, ws.join(" and "), d.text));
    for way in ws {
        ctx.label(way);
        let out = by_way(way, &d);
        let say = |m: &str| format!("{m}\n  {} by {way}\n  got {}\n  want {:?}\n{:?}", d.format, out.show(), d.want, d.text);
        if out.timed_out() {
            ctx.inconclusive = true;
            continue;
        }
        match (&d.want, &out.value) {
            (Some(w), Ok(v)) => {
                if !same(w, v, How { inert: way == "parse-as", loose: d.format == "jsonl" }) {
                    return fail(format!("{}-value", d.format), say("the imported value is not what the document says"));
                }
            }
            (Some(_), Err(_)) => return fail(format!("{}-refused", d.format), say("a document of this format is refused")),
            (None, Ok(_)) => return fail(format!("{}-accepted", d.format), say("text that is not of this format is accepted")),
            (None, Err(e)) => {
                ctx.label("malformed");
                if e.msg.is_empty() {
                    return fail(format!("{}-silent", d.format), say("no message"));
                }
            }
        }
    }
    Ok(())
}

/// A document with an item missing or doubled: only needs some answer.
fn garble(s: &mut Src, t: &str) -> String {
    let mut cs: Vec<char> = t.chars().collect();
    for _ in 0..1 + s.n(3) {
        if cs.is_empty() {
            break;
        }
        let i = s.n(cs.len());
        match s.n(4) {
            0 => {
                cs.truncate(i);
            }
            1 => {
                cs.remove(i);
            }
            2 => {
                let c = *s.pick(&['"', '\'', '[', ']', '{', '}', '<', '>', '&', '=', ',', '#', '\\', '\n', '\r', '\u{0}', 'é', '\u{feff}', '-', ';', ':', '/', '!', '.']);
                cs.insert(i, c);
            }
            _ => {
                let j = (i + 1 + s.n(8)).min(cs.len());
                let part: Vec<char> = cs[i..j].to_vec();
                cs.splice(i..i, part);
            }
        }
    }
    cs.into_iter().collect()
}

// ---------------------------------------------------------------- CSV

fn csv_doc(s: &mut Src) -> (Doc, bool) {
    let cols = 1 + s.n(4);
    let mut heads: Vec<String> = vec![];
    while heads.len() < cols {
        let mut h = if s.pct(50) { gen::word(s) } else { text(s) };
        if h.starts_with('\u{feff}') || heads.contains(&h) {
            h = format!("h{}", heads.len());
        }
        heads.push(h);
    }
    let rows = s.len(6);
    let mut data: Vec<Vec<String>> = (0..rows).map(|_| (0..cols).map(|_| if s.pct(60) { gen::word(s) } else { text(s) }).collect()).collect();
    let ragged = s.pct(8) && rows > 0;
    if ragged {
        let i = s.n(rows);
        if cols > 1 && s.bool() {
            data[i].pop();
        } else {
            data[i].push(gen::word(s));
        }
    }
    let eol = *s.pick(&["\n", "\r\n"]);
    let mut t = String::new();
    let all: Vec<Vec<String>> = std::iter::once(heads.clone()).chain(data.iter().cloned()).collect();
    for (i, row) in all.iter().enumerate() {
        let cells: Vec<String> = row
            .iter()
            .map(|c| {
                if c.contains(['"', ',', '\n', '\r']) || (row.len() == 1 && c.is_empty()) || s.pct(20) {
                    format!("\"{}\"", c.replace('"', "\"\""))
                } else {
                    c.clone()
                }
            })
            .collect();
        t.push_str(&cells.join(","));
        if i + 1 < all.len() || s.pct(80) {
            t.push_str(eol);
        }
        if s.pct(5) && i + 1 < all.len() {
            t.push_str(eol);
        }
    }
    let want = (!ragged).then(|| W::List(data.iter().map(|r| W::Block(true, heads.iter().cloned().zip(r.iter().map(|c| W::Str(c.clone()))).collect())).collect()));
    let nt = rows > 1 && cols > 1 && data.iter().flatten().any(|c| c.contains(['"', ',', '\n', '\r']));
    (Doc { format: "csv", ext: "csv", text: t, want }, nt)
}

fn csv(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (d, nt) = csv_doc(s);
    if nt {
        ctx.nt();
    }
    check(s, ctx, d)
}

// ---------------------------------------------------------------- text

fn lines(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = s.len(8);
    let mut t = String::new();
    let mut want = vec![];
    let mut odd = false;
    for i in 0..n {
        let l: String = if s.pct(50) { gen::word(s) } else { text(s) }.chars().filter(|c| *c != '\n').collect();
        let l = if s.pct(10) { l + "\r" } else { l };
        let last = i + 1 == n && s.bool();
        odd |= l.contains('\r') || l.is_empty() || l.starts_with(' ') || l.ends_with(' ');
        if last {
            if l.is_empty() {
                break;
            }
            t.push_str(&l);
        } else {
            t.push_str(&l);
            t.push_str(if l.ends_with('\r') || s.pct(30) { "\r\n" } else { "\n" });
        }
        want.push(W::Str(l));
    }
    if odd && n > 1 {
        ctx.nt();
    }
    check(s, ctx, Doc { format: "text", ext: "txt", text: t, want: Some(W::List(want)) })
}

// ---------------------------------------------------------------- TOML

fn moment(s: &mut Src) -> (String, W) {
    let date = format!("{:04}-{:02}-{:02}", s.range(1900, 2100), s.range(1, 12), s.range(1, 28));
    let time = format!("{:02}:{:02}:{:02}{}", s.range(0, 23), s.range(0, 59), s.range(0, 59), s.pick(&["", "", ".5", ".123", ".000001", ".123456789"]));
    match s.n(4) {
        0 => {
            let off = *s.pick(&["Z", "+00:00", "+05:30", "-08:00", "+14:00", "-09:30"]);
            let sep = *s.pick(&["T", " "]);
            (format!("{date}{sep}{time}{off}"), W::Time(format!("{date}T{time}{}", if off == "Z" { "+00:00" } else { off })))
        }
        1 => (format!("{date}{}{time}", s.pick(&["T", " "])), W::Time(format!("{date}T{time}+00:00"))),
        2 => (date.clone(), W::Time(format!("{date}T00:00:00+00:00"))),
        _ => (time.clone(), W::Str(time)),
    }
}

fn toml_escape(s: &mut Src, t: &str, multi: bool) -> String {
    let mut o = String::new();
    for c in t.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' if multi && s.bool() => o.push('\n'),
            '\n' => o.push_str("\\n"),
            '\t' if s.bool() => o.push_str("\\t"),
            '\t' => o.push('\t'),
            '\r' => o.push_str("\\r"),
            c if c.is_control() => o.push_str(&format!("\\u{:04X}", c as u32)),
            c if !c.is_ascii() && s.pct(30) => o.push_str(&if (c as u32) < 0x10000 { format!("\\u{:04x}", c as u32) } else { format!("\\U{:08x}", c as u32) }),
            c => o.push(c),
        }
        if multi && s.pct(5) {
            o.push_str("\\\n   ");
            // the backslash eats white space that follows
            if t.chars().any(char::is_whitespace) {
                o.truncate(o.len() - 5);
            }
        }
    }
    o
}

fn toml_str(s: &mut Src, t: &str) -> String {
    let literal = !t.chars().any(|c| c.is_control() && c != '\t');
    let literal_multi = !t.contains("'''") && !t.ends_with('\'') && !t.chars().any(|c| c.is_control() && c != '\t' && c != '\n');
    match s.n(5) {
        0 if literal && !t.contains('\'') => format!("'{t}'"),
        1 if literal_multi => format!("'''\n{t}'''"),
        2 => format!("\"\"\"\n{}\"\"\"", toml_escape(s, t, true)),
        _ => format!("\"{}\"", toml_escape(s, t, false)),
    }
}

fn toml_key(s: &mut Src, k: &str) -> String {
    if !k.is_empty() && k.chars().all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '_') && s.pct(80) {
        k.to_string()
    } else if !k.contains('\'') && !k.chars().any(char::is_control) && s.bool() {
        format!("'{k}'")
    } else {
        format!("\"{}\"", toml_escape(s, k, false))
    }
}

fn grouped(s: &mut Src, digits: &str) -> String {
    let mut o = String::new();
    for (i, c) in digits.chars().enumerate() {
        if i > 0 && s.pct(8) && digits.as_bytes()[i - 1].is_ascii_alphanumeric() && c.is_ascii_hexdigit() {
            o.push('_');
        }
        o.push(c);
    }
    o
}

fn float_text(s: &mut Src, x: f64) -> String {
    match s.n(3) {
        0 if x.abs() < 1e15 => gen::lit_f64(x),
        1 if x.abs() < 1e15 && (x.abs() > 1e-5 || x == 0.0) => gen::lit_f64(x),
        _ => format!("{x:e}"),
    }
}

fn toml_scalar(s: &mut Src) -> (String, W) {
    match s.weighted(&[5, 6, 4, 2, 3]) {
        0 => {
            let n = gen::any_int(s).min(i64::MAX as i128);
            let t = match s.n(6) {
                0 if n >= 0 => format!("0x{:x}", n),
                1 if n >= 0 => format!("0o{:o}", n),
                2 if n >= 0 => format!("0b{:b}", n),
                3 if n > 0 => format!("+{n}"),
                4 if n > 9 => grouped(s, &n.to_string()),
                _ => n.to_string(),
            };
            (t, W::Int(n))
        }
        1 => {
            let t = text(s);
            (toml_str(s, &t), W::Str(t))
        }
        2 => {
            let x = gen::any_float(s);
            (float_text(s, x), W::Float(x))
        }
        3 => {
            let b = s.bool();
            (b.to_string(), W::Bool(b))
        }
        _ => moment(s),
    }
}

fn toml_value(s: &mut Src, depth: usize) -> (String, W) {
    match if depth == 0 { 0 } else { s.weighted(&[5, 2, 2]) } {
        0 => toml_scalar(s),
        1 => {
            let n = s.len(4);
            let xs: Vec<(String, W)> = (0..n).map(|_| toml_value(s, depth - 1)).collect();
            let sep = *s.pick(&[", ", ",", ",\n  ", " , # c\n"]);
            let mut t = format!("[{}", xs.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(sep));
            if n > 0 && s.pct(20) {
                t.push(',');
            }
            (t + "]", W::List(xs.into_iter().map(|x| x.1).collect()))
        }
        _ => {
            let ks = toml_keys(s, 3);
            let mut ts = vec![];
            let mut kvs = vec![];
            for k in ks {
                let (t, w) = toml_value(s, depth - 1);
                ts.push(format!("{} = {t}", toml_key(s, &k)));
                kvs.push((k, w));
            }
            (format!("{{{}}}", ts.join(", ")), W::Block(true, kvs))
        }
    }
}

fn toml_keys(s: &mut Src, max: usize) -> Vec<String> {
    let n = s.len(max);
    let mut ks: Vec<String> = vec![];
    for _ in 0..n {
        let k = crate::props::c17::name(s, 25);
        if !ks.contains(&k) {
            ks.push(k);
        }
    }
    ks
}

/// The lines of a table: plain entries first, then sub-tables.
fn toml_table(s: &mut Src, path: &[String], depth: usize, out: &mut String) -> W {
    let ks = toml_keys(s, 4);
    let mut kvs = vec![];
    let subs: Vec<bool> = ks.iter().map(|_| depth > 0 && s.pct(40)).collect();
    for (k, _) in ks.iter().zip(&subs).filter(|x| !x.1) {
        if s.pct(10) {
            out.push_str("# comment = 1\n");
        }
        if s.pct(15) {
            // dotted keys make a sub-table
            let mut inner = vec![];
            for j in toml_keys(s, 3) {
                let (t, w) = toml_value(s, 1);
                out.push_str(&format!("{}.{} = {t}\n", toml_key(s, k), toml_key(s, &j)));
                inner.push((j, w));
            }
            if !inner.is_empty() {
                kvs.push((k.clone(), W::Block(true, inner)));
            }
        } else {
            let (t, w) = toml_value(s, 2);
            out.push_str(&format!("{}{}={}{t}{}\n", s.pick(&["", "  "]), toml_key(s, k), s.pick(&[" ", ""]), s.pick(&["", " # x"])));
            kvs.push((k.clone(), w));
        }
    }
    for (k, _) in ks.iter().zip(&subs).filter(|x| *x.1) {
        let mut p = path.to_vec();
        let key = toml_key(s, k);
        p.push(key);
        if s.pct(30) {
            let n = 1 + s.n(3);
            let mut items = vec![];
            for _ in 0..n {
                out.push_str(&format!("[[{}]]\n", p.join(".")));
                items.push(toml_table(s, &p, depth - 1, out));
            }
            kvs.push((k.clone(), W::List(items)));
        } else {
            out.push_str(&format!("\n[{}]\n", p.join(".")));
            kvs.push((k.clone(), toml_table(s, &p, depth - 1, out)));
        }
    }
    W::Block(true, kvs)
}

fn deep(w: &W) -> usize {
    match w {
        W::List(xs) | W::Set(xs) => 1 + xs.iter().map(deep).max().unwrap_or(0),
        W::Block(_, kvs) => 1 + kvs.iter().map(|x| deep(&x.1)).max().unwrap_or(0),
        _ => 0,
    }
}

fn toml_doc(s: &mut Src) -> Doc {
    let mut t = String::new();
    let w = toml_table(s, &[], 2, &mut t);
    let t = if s.pct(15) { t.replace('\n', "\r\n") } else { t };
    // a carriage return inside a multi-line string belongs to the string
    let t = if t.contains("\r\n") && (t.contains("\"\"\"") || t.contains("'''")) { t.replace("\r\n", "\n") } else { t };
    Doc { format: "toml", ext: "toml", text: t, want: Some(w) }
}

fn toml(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut d = toml_doc(s);
    if deep(d.want.as_ref().unwrap()) > 2 {
        ctx.nt();
    }
    if s.pct(12) {
        d.text.push_str(s.pick(&["zz = \n", "zz\n", "zz = \"abc\n", "[zz\n", "zz = [1, 2\n", "zz = 1 2\n", "zz = {a = 1\n", "zz = 1\nzz = 2\n", "zz = 2020-13-45x\n", "zz = nan\n", "zz = -inf\n", "zz = 9223372036854775808\n", "zz = 'a\n", "= 1\n", "zz = \"\\q\"\n"]));
        d.want = None;
    }
    check(s, ctx, d)
}

// ---------------------------------------------------------------- EDN

fn edn_str(s: &mut Src, t: &str) -> String {
    let mut o = String::from("\"");
    for c in t.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' if s.bool() => o.push_str("\\n"),
            '\t' if s.bool() => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c => o.push(c),
        }
    }
    o + "\""
}

fn edn_name(s: &mut Src) -> String {
    let n = crate::props::c17::name(s, 10);
    if edn_plain(&n) && !["true", "false", "nil"].contains(&n.as_str()) {
        n
    } else {
        "sym".into()
    }
}

fn edn_value(s: &mut Src, depth: usize) -> (String, W) {
    if s.pct(8) {
        let (t, w) = edn_value(s, depth);
        let junk = *s.pick(&["#_ skip ", "; note\n", ", ", "#_[1 {:a 2}] ", "\n\t"]);
        return (format!("{junk}{t}"), w);
    }
    match if depth == 0 { 0 } else { s.weighted(&[4, 2, 2, 3, 1, 1]) } {
        0 => match s.weighted(&[1, 2, 5, 4, 5, 3, 3, 2, 2, 2]) {
            0 => ("nil".into(), W::Null),
            1 => {
                let b = s.bool();
                (b.to_string(), W::Bool(b))
            }
            2 => {
                let n = gen::any_int(s).min(i64::MAX as i128);
                (if n > 0 && s.pct(10) { format!("+{n}") } else { n.to_string() }, W::Int(n))
            }
            3 => {
                let x = gen::any_float(s);
                let t = float_text(s, x);
                let t = if t.contains('.') { t } else { t.replace('e', ".0e") };
                (t, W::Float(x))
            }
            4 => {
                let t = text(s);
                (edn_str(s, &t), W::Str(t))
            }
            5 => {
                let n = edn_name(s);
                (format!(":{n}"), W::Sym(n))
            }
            6 => {
                let n = edn_name(s);
                (n.clone(), W::Sym(n))
            }
            7 => {
                let (a, b) = *s.pick(&[("\\a", "a"), ("\\newline", "\n"), ("\\space", " "), ("\\tab", "\t"), ("\\return", "\r"), ("\\é", "é"), ("\\7", "7"), ("\\(", "(")]);
                (a.into(), W::Str(b.into()))
            }
            8 => {
                let V::Time(t) = crate::props::c17::time(s) else { unreachable!() };
                (format!("#inst \"{}\"", t), W::Time(t))
            }
            _ => {
                let u = format!("{:08x}-{:04x}-4{:03x}-a{:03x}-{:012x}", s.below(1 << 32), s.below(1 << 16), s.below(1 << 12), s.below(1 << 12), s.below(1 << 48));
                (format!("#uuid \"{u}\""), W::Str(u))
            }
        },
        1 | 2 => {
            let n = s.len(4);
            let xs: Vec<(String, W)> = (0..n).map(|_| edn_value(s, depth - 1)).collect();
            let sep = *s.pick(&[" ", ", ", "\n", " ,, "]);
            let t = xs.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(sep);
            let t = if s.bool() { format!("[{t}]") } else { format!("({t})") };
            (t, W::List(xs.into_iter().map(|x| x.1).collect()))
        }
        3 => {
            let n = s.len(4);
            let mut ks: Vec<String> = vec![];
            let mut ts = vec![];
            let mut kvs = vec![];
            for _ in 0..n {
                let (kt, k) = match s.n(4) {
                    0 => {
                        let t = text(s);
                        (edn_str(s, &t), t)
                    }
                    1 => {
                        let n = edn_name(s);
                        (n.clone(), n)
                    }
                    _ => {
                        let n = edn_name(s);
                        (format!(":{n}"), n)
                    }
                };
                if ks.contains(&k) {
                    continue;
                }
                ks.push(k.clone());
                let (t, w) = edn_value(s, depth - 1);
                ts.push(format!("{kt} {t}"));
                kvs.push((k, w));
            }
            (format!("{{{}}}", ts.join(*s.pick(&[" ", ", ", "\n"]))), W::Block(false, kvs))
        }
        4 => {
            let n = s.len(4);
            let mut ns: Vec<i64> = (0..n).map(|_| gen::small_int(s)).collect();
            ns.sort();
            ns.dedup();
            s.shuffle(&mut ns);
            (format!("#{{{}}}", ns.iter().map(|n| n.to_string()).collect::<Vec<_>>().join(" ")), W::Set(ns.into_iter().map(|n| W::Int(n as i128)).collect()))
        }
        _ => {
            let (t, w) = edn_value(s, depth - 1);
            (format!("#my/tag {t}"), w)
        }
    }
}

fn edn(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (mut t, w) = edn_value(s, 3);
    if deep(&w) > 1 {
        ctx.nt();
    }
    let mut want = Some(w);
    if s.pct(12) {
        t = match s.n(6) {
            0 => format!("[{t}"),
            1 => format!("{{:a {t} :b}}"),
            2 => format!("[{t} \"abc"),
            3 => format!("({t}]"),
            4 => format!("{{[1] {t}}}"),
            _ => format!("[{t} 123456789012345678901234567890N]"),
        };
        want = None;
    }
    check(s, ctx, Doc { format: "edn", ext: "edn", text: t, want })
}

// ---------------------------------------------------------------- XML

fn xml_escape(s: &mut Src, c: char, attr: bool) -> String {
    match c {
        '<' => s.pick(&["&lt;", "&#60;", "&#x3c;"]).to_string(),
        '&' => s.pick(&["&amp;", "&#38;"]).to_string(),
        '"' if attr => s.pick(&["&quot;", "&#34;"]).to_string(),
        '"' | '\'' if !attr && s.bool() => c.to_string(),
        '\'' => "&apos;".into(),
        '>' => s.pick(&[">", "&gt;"]).to_string().replace('>', if attr { "&gt;" } else { ">" }),
        '\n' | '\t' if attr => format!("&#{};", c as u32),
        c if s.pct(6) => format!("&#x{:X};", c as u32),
        c => c.to_string(),
    }
}

fn xml_chars(s: &mut Src) -> String {
    text(s).chars().filter(|c| (*c >= ' ' || *c == '\n' || *c == '\t') && !c.is_control() | (*c == '\n') | (*c == '\t')).collect()
}

fn xml_junk(s: &mut Src) -> &'static str {
    s.pick(&["", "", "", "", "<!-- a <b> & -->", "<?pi x?>", "<!---->"])
}

fn xml_element(s: &mut Src, depth: usize) -> (String, W) {
    let name = *s.pick(&["a", "b", "div", "long-name", "x1", "_u", "É", "a.b"]);
    let mut attrs = vec![];
    let mut t = format!("<{name}");
    for k in ["id", "class", "data-x", "y"] {
        if s.pct(30) {
            let v = xml_chars(s);
            let q = *s.pick(&['"', '\'']);
            let sp: String = v.chars().map(|c| xml_escape(s, c, true)).collect();
            t.push_str(&format!("{}{k}{}{q}{sp}{q}", s.pick(&[" ", "\n ", "  "]), s.pick(&["=", " = "])));
            attrs.push((k.to_string(), W::Str(v)));
        }
    }
    let mut items = vec![W::Sym(name.into()), W::Block(true, attrs)];
    let n = if depth == 0 { s.n(2) } else { s.len(4) };
    if n == 0 && s.bool() {
        return (t + s.pick(&["/>", " />"]), W::List(items));
    }
    t.push('>');
    let mut after_text = false;
    for _ in 0..n {
        if depth > 0 && (after_text || s.bool()) {
            let (e, w) = xml_element(s, depth - 1);
            t.push_str(s.pick(&["", "\n  ", " "]));
            t.push_str(xml_junk(s));
            t.push_str(&e);
            items.push(w);
            after_text = false;
        } else if !after_text {
            let x = xml_chars(s);
            let x = x.trim();
            if x.is_empty() {
                continue;
            }
            t.push_str(s.pick(&["", " ", "\n"]));
            let mut rest = x;
            while !rest.is_empty() {
                let at = rest.char_indices().nth(1 + s.n(6)).map_or(rest.len(), |p| p.0);
                let (a, b) = rest.split_at(at);
                if s.pct(20) && !a.contains("]]>") {
                    t.push_str(&format!("<![CDATA[{a}]]>"));
                } else {
                    // `]]>` may not stand in text
                    let e: String = a.chars().map(|c| if c == '>' { "&gt;".into() } else { xml_escape(s, c, false) }).collect();
                    t.push_str(&e);
                }
                t.push_str(xml_junk(s));
                rest = b;
            }
            t.push_str(s.pick(&["", " ", "\n"]));
            items.push(W::Str(x.to_string()));
            after_text = true;
        }
    }
    t.push_str(xml_junk(s));
    (t + &format!("</{name}{}>", s.pick(&["", " "])), W::List(items))
}

fn xml(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (e, w) = xml_element(s, 3);
    let head = *s.pick(&["", "<?xml version=\"1.0\"?>", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", "<!DOCTYPE a>\n", "\n  "]);
    let mut t = format!("{head}{}{e}{}", xml_junk(s), s.pick(&["", "\n", "<!-- end -->\n"]));
    let mut want = Some(w.clone());
    if deep(&w) > 2 {
        ctx.nt();
    }
    if s.pct(15) {
        t = match s.n(8) {
            0 => "  \n".into(),
            1 => format!("{head}<!-- only -->"),
            2 => format!("<root>{e}"),
            3 => format!("<root>{e}</toor>"),
            4 => format!("<root>{e} &nosuch;</root>"),
            5 => format!("<root a=\"1\" a=\"2\">{e}</root>"),
            6 => format!("<root a=1>{e}</root>"),
            _ => {
                let t = format!("<root>{e}</root>");
                let n = t.chars().count();
                let k = s.n(n - 1);
                t.chars().take(k).collect()
            }
        };
        want = None;
    }
    check(s, ctx, Doc { format: "xml", ext: "xml", text: t, want })
}

// ---------------------------------------------------------------- JSON lines

fn json_str(s: &mut Src, t: &str) -> String {
    let mut o = String::from("\"");
    for c in t.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '/' if s.bool() => o.push_str("\\/"),
            c if (c as u32) < 0x20 || s.pct(8) => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{u:04x}"));
                }
            }
            c => o.push(c),
        }
    }
    o + "\""
}

fn json_value(s: &mut Src, depth: usize) -> (String, W) {
    match if depth == 0 { 0 } else { s.weighted(&[3, 2, 4]) } {
        0 => match s.weighted(&[1, 2, 5, 4, 5]) {
            0 => ("null".into(), W::Null),
            1 => {
                let b = s.bool();
                (b.to_string(), W::Bool(b))
            }
            2 => {
                let n = gen::any_int(s);
                (n.to_string(), W::Int(n))
            }
            3 => {
                let x = gen::any_float(s);
                (float_text(s, x), W::Float(x))
            }
            _ => {
                let t = text(s);
                (json_str(s, &t), W::Str(t))
            }
        },
        1 => {
            let n = s.len(4);
            let xs: Vec<(String, W)> = (0..n).map(|_| json_value(s, depth - 1)).collect();
            (format!("[{}]", xs.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(*s.pick(&[",", ", "]))), W::List(xs.into_iter().map(|x| x.1).collect()))
        }
        _ => {
            let mut ts = vec![];
            let mut kvs = vec![];
            for k in toml_keys(s, 4) {
                let (t, w) = json_value(s, depth - 1);
                ts.push(format!("{}{}{t}", json_str(s, &k), s.pick(&[":", ": ", " : "])));
                kvs.push((k, w));
            }
            (format!("{{{}}}", ts.join(", ")), W::Block(true, kvs))
        }
    }
}

fn json_lines(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = s.len(5);
    let mut t = String::new();
    let mut ws = vec![];
    for i in 0..n {
        let (l, w) = json_value(s, 3);
        t.push_str(s.pick(&["", "", " "]));
        t.push_str(&l);
        if i + 1 < n || s.bool() {
            t.push_str(s.pick(&["\n", "\n", "\r\n", "\n\n", "\n  \n"]));
        }
        ws.push(w);
    }
    if n > 1 && ws.iter().any(|w| deep(w) > 1) {
        ctx.nt();
    }
    let mut want = Some(W::List(ws));
    if s.pct(10) {
        t.push_str(s.pick(&["\n{\"a\": 1", "\n[1,", "\n{a: 1}", "\n1 2", "\n\"abc", "\nnul", "\n'a'"]));
        want = None;
    }
    check(s, ctx, Doc { format: "jsonl", ext: "jsonl", text: t, want })
}

// ---------------------------------------------------------------- any text

fn garbled(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (format, ext, t) = match s.n(5) {
        0 => ("csv", "csv", csv_doc(s).0.text),
        1 => ("toml", "toml", toml_doc(s).text),
        2 => ("edn", "edn", edn_value(s, 3).0),
        3 => ("xml", "xml", xml_element(s, 3).0),
        _ => ("jsonl", "jsonl", {
            let n = 1 + s.n(3);
            (0..n).map(|_| json_value(s, 2).0 + "\n").collect()
        }),
    };
    let t = garble(s, &t);
    let d = Doc { format, ext, text: t.clone(), want: None };
    let all: Vec<&str> = ways(format).to_vec();
    let (a, b) = (*s.pick(&all), *s.pick(&all));
    ctx.case(format!("{format} by {a} and {b}:\n{t}"));
    ctx.nt();
    let (x, y) = (by_way(a, &d), by_way(b, &d));
    if x.timed_out() || y.timed_out() {
        ctx.inconclusive = true;
        return Ok(());
    }
    ctx.label(if x.value.is_ok() { "accepted" } else { "refused" });
    // whichever way it comes in, the answer is the same
    if x.value.is_ok() != y.value.is_ok() {
        return fail("ways", format!("{format} text is taken one way and refused another\n  by {a}: {}\n  by {b}: {}\n{t:?}", x.show(), y.show()));
    }
    if let (Ok(v), Ok(w)) = (&x.value, &y.value) {
        if (a == "parse-as") == (b == "parse-as") && !v.same(w) {
            return fail("ways-value", format!("{format} text means different things\n  by {a}: {}\n  by {b}: {}\n{t:?}", x.show(), y.show()));
        }
    }
    Ok(())
}

/// Bytes that are not text are refused, whatever the format.
fn not_text(s: &mut Src, ctx: &mut Ctx) -> Res {
    let format = *s.pick(&["csv", "text", "toml", "edn", "xml", "csv-stream", "text-stream", "jsonl-stream"]);
    let word = *s.pick(&["abc", "x y", "naïve"]);
    let mut b: Vec<u8> = match format {
        "csv" | "csv-stream" => format!("h\nok\n{word}\nok\n"),
        "toml" => format!("a = \"{word}\"\n"),
        "edn" => format!("[\"{word}\"]"),
        "xml" => format!("<a>{word}</a>"),
        "jsonl-stream" => format!("1\n\"{word}\"\n"),
        _ => format!("ok\n{word}\n"),
    }
    .into_bytes();
    let at = String::from_utf8_lossy(&b).find(word).unwrap() + s.n(2);
    let bad: &[u8] = *s.pick(&[&[0xff][..], &[0xc3], &[0xed, 0xa0, 0x80], &[0x80], &[0xf0, 0x9f]]);
    b.splice(at..at, bad.iter().copied());
    let dir = scratch();
    let p = dir.join("data");
    std::fs::write(&p, &b).unwrap();
    ctx.case(format!("{format} {b:?}"));
    ctx.nt();
    let o = ev::eval_unit(&format!("{{ import: \"d={format}@{}\" }}\n\n` {{target: :main}}\nmain: d\n", p.display()), &OPTS());
    let _ = std::fs::remove_dir_all(&dir);
    if o.value.is_ok() {
        return fail("not-text", format!("{format} of bytes that are not UTF-8 text gives {}\n{b:?}", o.show()));
    }
    Ok(())
}

// ---------------------------------------------------------------- names

/// The names at the top of an unnamed document are in scope from then on.
fn names(s: &mut Src, ctx: &mut Ctx) -> Res {
    let keys: Vec<String> = ["alpha", "beta", "g-1", "delta", "zz"].iter().filter(|_| s.pct(70)).map(|k| k.to_string()).collect();
    let vals: Vec<i64> = keys.iter().map(|_| gen::small_int(s)).collect();
    let nested: Vec<bool> = keys.iter().map(|_| s.pct(40)).collect();
    let toml = s.bool();
    let mut t = String::new();
    for (k, (v, n)) in keys.iter().zip(vals.iter().zip(&nested)) {
        t.push_str(&match (toml, n) {
            (true, false) => format!("{k} = {v}\n"),
            (true, true) => format!("{k}.sub.x = {v}\n"),
            (false, false) => format!("{}{k} {v}\n", s.pick(&[":", ""])),
            (false, true) => format!(":{k} {{:sub {{:x {v}}}}}\n"),
        });
    }
    let (format, t) = if toml { ("toml", t) } else { ("edn", format!("{{{t}}}")) };
    let mut exprs = vec![];
    let mut want = vec![];
    for (k, (v, n)) in keys.iter().zip(vals.iter().zip(&nested)) {
        let at = if *n { format!("{k}.sub.x") } else { k.clone() };
        match s.n(3) {
            0 => {
                exprs.push(at);
                want.push(V::Int(*v as i128));
            }
            1 => {
                exprs.push(format!("({at} + 1)"));
                want.push(V::Int(*v as i128 + 1));
            }
            _ if *n => {
                exprs.push(format!("{k}.sub.(x * 2)"));
                want.push(V::Int(*v as i128 * 2));
            }
            _ => {
                exprs.push(format!("{{p: {at}}}.p"));
                want.push(V::Int(*v as i128));
            }
        }
    }
    let main = format!("` {{target: :main}}\nmain: [{}]\n", exprs.join(", "));
    let dir = scratch();
    let p = dir.join(format!("data.{format}"));
    std::fs::write(&p, &t).unwrap();
    let o = OPTS();
    let way = *s.pick(&["input", "import", "import on a declaration"]);
    ctx.case(format!("{way} {t}\n{main}"));
    ctx.label(way);
    let r = match way {
        "input" => ev::eval_inputs(vec![Input::new(Locator::Fs(p.clone()), None, format), ev::unit_input(&main)], &o),
        "import" => ev::eval_unit(&format!("{{ import: \"{}\" }}\n\n{main}", p.display()), &o),
        _ => ev::eval_unit(&main.replace("{target: :main}", &format!("{{target: :main import: \"{}\"}}", p.display())), &o),
    };
    let _ = std::fs::remove_dir_all(&dir);
    if keys.len() > 1 {
        ctx.nt();
    }
    match &r.value {
        Ok(v) if v.same(&V::list(want.clone())) => Ok(()),
        _ => fail("names", format!("names of an unnamed {format} document by {way}\n  got {}\n  want {want:?}\n{t}\n{main}", r.show())),
    }
}

fn float_probe() -> Option<String> {
    let d = Doc { format: "jsonl", ext: "jsonl", text: "-999.9970000000001\n".into(), want: None };
    match by_way("stream", &d).value {
        Ok(V::List(xs)) if xs.len() == 1 && !xs[0].same(&V::Float(-999.9970000000001)) => Some(format!("jsonl-stream reads -999.9970000000001 as {:?}: its JSON library is built without exact float reading", xs[0])),
        _ => None,
    }
}

fn offset_probe() -> Option<String> {
    let d = Doc { format: "toml", ext: "toml", text: "t = 2020-01-01T00:00:00-00:30\n".into(), want: None };
    let want = W::Block(true, vec![("t".into(), W::Time("2020-01-01T00:00:00-00:30".into()))]);
    match by_way("input", &d).value {
        Ok(v) if !same(&want, &v, How { inert: false, loose: false }) => Some("TOML import reads the offset -00:30 as +00:30: its TOML library drops the sign of an offset under an hour".into()),
        _ => None,
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "C16",
        facets: vec![
            Facet { name: "csv", rule: "generated tables in every quoting and line-ending style, some ragged; non-trivial: several rows and columns and a cell that must be quoted", quick: 700, thorough: 40_000, run: csv },
            Facet { name: "text", rule: "lines with either terminator and stray carriage returns; non-trivial: two or more lines, one empty, padded or holding a carriage return", quick: 400, thorough: 20_000, run: lines },
            Facet { name: "toml", rule: "generated documents in every spelling of keys, strings, numbers, times, inline and headed tables, some malformed; non-trivial: nested twice", quick: 700, thorough: 40_000, run: toml },
            Facet { name: "edn", rule: "generated documents of every kind of element with discards and comments, some malformed; non-trivial: nested", quick: 700, thorough: 40_000, run: edn },
            Facet { name: "xml", rule: "generated element trees with references, CDATA, comments and instructions, some malformed; non-trivial: nested elements", quick: 700, thorough: 40_000, run: xml },
            Facet { name: "jsonl-stream", rule: "lines of generated JSON, some malformed; non-trivial: several lines, one nested", quick: 500, thorough: 30_000, run: json_lines },
            Facet { name: "garbled", rule: "damaged documents of every format by two ways in; non-trivial: always", quick: 700, thorough: 60_000, run: garbled },
            Facet { name: "not-text", rule: "documents with bytes that are not UTF-8; non-trivial: always", quick: 120, thorough: 3_000, run: not_text },
            Facet { name: "names", rule: "unnamed TOML and EDN documents and uses of their names; non-trivial: two names or more", quick: 250, thorough: 10_000, run: names },
        ],
        known: vec![Known { id: "jsonl-stream-float", probe: float_probe }, Known { id: "toml-small-negative-offset", probe: offset_probe }],
        assumptions: vec![],
    }
}
