//! C17: output is faithful.

use crate::engine::{fail, Ctx, Facet, Prop, Res, Src};
use crate::ev::{self, Err, Opts, V};
use crate::gen;
use crate::props::c02::{eu, scratch};
use eucalypt::driver::prepare;
use eucalypt::driver::statistics::Timings;
use eucalypt::eval::emit::{Emitter, Event, Rejection};
use eucalypt::eval::primitive::Primitive;
use eucalypt::export::create_emitter;
use eucalypt::export::error::RenderError;
use std::cell::RefCell;
use std::io::{self, ErrorKind, Write};
use std::rc::Rc;

// ---------------------------------------------------------------- running

/// A sink that fails after so many bytes.
struct Sink {
    buf: Rc<RefCell<Vec<u8>>>,
    limit: Option<(usize, ErrorKind)>,
}

impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut v = self.buf.borrow_mut();
        let n = match self.limit {
            Some((l, kind)) => {
                let room = l.saturating_sub(v.len());
                if room == 0 && !b.is_empty() {
                    return Err(io::Error::new(kind, "injected"));
                }
                room.min(b.len())
            }
            None => b.len(),
        };
        v.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

type Shared = Rc<RefCell<Box<dyn Emitter>>>;

/// Passes everything on, noting the events.
struct Tee {
    to: Shared,
    ev: Rc<RefCell<Vec<Event>>>,
}

impl Emitter for Tee {
    fn emit(&mut self, e: Event) -> Result<(), RenderError> {
        self.to.borrow_mut().emit(e.clone())?;
        self.ev.borrow_mut().push(e);
        Ok(())
    }
    fn format_name(&self) -> &'static str {
        self.to.borrow().format_name()
    }
    fn unrepresentable(&self, p: &Primitive) -> Option<Rejection> {
        self.to.borrow().unrepresentable(p)
    }
    fn unacceptable(&self, e: &Event) -> Option<Rejection> {
        self.to.borrow().unacceptable(e)
    }
}

struct Ran {
    res: Result<(), Err>,
    text: Vec<u8>,
}

/// What the driver does for `-x format`, into a sink.
fn export(src: &str, format: &str, limit: Option<(usize, ErrorKind)>) -> Ran {
    let o = Opts { limit: Some(5_000_000), ..Opts::default() };
    let opt = ev::options(&o, vec![ev::unit_input(src)]);
    let mut loader = ev::loader(&o);
    if let Err(e) = prepare::prepare(&opt, &mut loader, &mut Timings::default()) {
        return Ran { res: Err(Err { stage: "prepare", kind: String::new(), msg: e.to_string() }), text: vec![] };
    }
    let buf = Rc::new(RefCell::new(vec![]));
    let sink: &'static mut Sink = Box::leak(Box::new(Sink { buf: buf.clone(), limit }));
    let em: Shared = Rc::new(RefCell::new(create_emitter(format, sink).expect("format")));
    let sink_err = |e: RenderError| Err {
        stage: "stream",
        kind: if e.is_broken_pipe() { "OutputStreamClosed" } else { "OutputWriteFailed" }.into(),
        msg: e.to_string(),
    };
    if let Err(e) = em.borrow_mut().stream_start() {
        return Ran { res: Err(sink_err(e)), text: buf.borrow().clone() };
    }
    let out = ev::run_loaded(loader, &o, |ev| Box::new(Tee { to: em.clone(), ev }));
    let mut res = out.value.map(|_| ());
    if let Err(e) = &res {
        if e.stage == "events" {
            res = Ok(());
        }
    }
    if res.is_ok() {
        if let Err(e) = em.borrow_mut().stream_end() {
            res = Err(sink_err(e));
        }
    }
    let text = buf.borrow().clone();
    Ran { res, text }
}

// ---------------------------------------------------------------- values

pub fn text(s: &mut Src) -> String {
    match s.weighted(&[5, 4, 2]) {
        0 => gen::word(s),
        1 => {
            let a: Vec<char> = "ab1 '\"\\/{}[]()<>&#=:;,.-_!?%$@~|^+*`\t\r\n\u{0}\u{1}\u{7f}\u{a0}é\u{301}λ日😀\u{2028}\u{feff}•".chars().collect();
            let n = s.len(10);
            (0..n).map(|_| *s.pick(&a)).collect()
        }
        _ => s.pick(&["null", "true", "false", "1", "1.0", "-5", "1e5", "nil", "0x10", "2020-01-01", "_", "_0", "•", "a.b", "a-b?", "x!", "''", "'", "a'b", "\\n", "{{", "}}", "{a}", "\"\"", ":a", "#x", "a: b", "a/b", "/", "+", "-", "1a", "", " ", "\n", "[a]", "&amp;", "</p>", "key with space", "résumé", "é"]).to_string(),
    }
}

pub fn name(s: &mut Src, odd: u64) -> String {
    if s.pct(odd) {
        text(s)
    } else {
        s.pick(&["a", "b", "c", "d", "name", "x-y", "k1", "long-name", "ok?", "snake_case", "camelCase", "value", "z9"]).to_string()
    }
}

pub fn time(s: &mut Src) -> V {
    let (y, mo, d) = (s.range(1900, 2100), s.range(1, 12), s.range(1, 28));
    let (h, mi, se) = (s.range(0, 23), s.range(0, 59), s.range(0, 59));
    let frac = *s.pick(&["", "", ".5", ".123", ".000001", ".123456789"]);
    let off = *s.pick(&["+00:00", "+00:00", "+05:30", "-08:00", "+14:00", "-00:30"]);
    V::Time(format!("{y:04}-{mo:02}-{d:02}T{h:02}:{mi:02}:{se:02}{frac}{off}"))
}

#[derive(Clone, Copy)]
struct Mix {
    odd: u64,
    nontext: bool,
    null: bool,
    big: bool,
}

fn scalar(s: &mut Src, m: Mix) -> V {
    match s.weighted(&[5, 5, 3, 3, 2, 2, 2]) {
        0 => V::Int(gen::small_int(s) as i128),
        1 => V::Str(text(s)),
        2 => V::Sym(name(s, m.odd)),
        3 => V::Float(gen::any_float(s)),
        4 => {
            let n = gen::any_int(s);
            V::Int(if m.big { n } else { n.min(i64::MAX as i128) })
        }
        5 if m.null => V::Null,
        5 => V::Bool(s.bool()),
        _ if s.bool() => V::Bool(s.bool()),
        _ => time(s),
    }
}

fn value(s: &mut Src, m: Mix, depth: usize) -> V {
    match if depth == 0 { 0 } else { s.weighted(&[3, 3, 4]) } {
        0 => scalar(s, m),
        1 => {
            let n = s.len(4);
            V::List((0..n).map(|_| value(s, m, depth - 1)).collect())
        }
        _ => block(s, m, depth),
    }
}

fn block(s: &mut Src, m: Mix, depth: usize) -> V {
    let n = s.len(5);
    let mut kvs: Vec<(V, V)> = vec![];
    for _ in 0..n {
        let k = if m.nontext && s.pct(12) {
            match s.n(5) {
                0 => V::Int(gen::small_int(s) as i128),
                1 => V::Bool(s.bool()),
                2 => V::List(vec![V::i(1), V::i(2)]),
                3 => time(s),
                _ => V::Null,
            }
        } else {
            let t = name(s, m.odd);
            if s.pct(6) {
                V::Str(t)
            } else {
                V::Sym(t)
            }
        };
        let t = |k: &V| k.key().map(|t| t.to_string()).unwrap_or(format!("#{k:?}"));
        if kvs.iter().any(|(q, _)| t(q) == t(&k)) {
            continue;
        }
        kvs.push((k, value(s, m, depth.saturating_sub(1))));
    }
    V::Block(kvs)
}

pub fn spell_sym(t: &str) -> String {
    if gen::simple_name(t) {
        format!(":{t}")
    } else if !t.is_empty() && !t.contains(['\'', '\n', '\r', '\0']) {
        format!(":'{t}'")
    } else {
        format!("sym({})", spell_str(t))
    }
}

pub fn spell_str(t: &str) -> String {
    if t.chars().any(|c| c == '"' || c.is_control()) {
        let mut o = String::from("c\"");
        for c in t.chars() {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                '{' => o.push_str("\\{"),
                '}' => o.push_str("\\}"),
                c if c.is_control() => o.push_str(&format!("\\u{:04x}", c as u32)),
                c => o.push(c),
            }
        }
        o + "\""
    } else {
        gen::lit_str(t)
    }
}

pub fn spell(v: &V) -> String {
    match v {
        V::Str(t) => spell_str(t),
        V::Sym(t) => spell_sym(t),
        V::List(xs) => format!("[{}]", xs.iter().map(spell).collect::<Vec<_>>().join(", ")),
        V::Block(kvs) => {
            let plain = kvs.iter().all(|(k, _)| matches!(k, V::Sym(t) if gen::simple_name(t) && !["true", "false", "null", "sym", "block"].contains(&t.as_str())));
            if plain {
                format!("{{{}}}", kvs.iter().map(|(k, v)| format!("{}: {}", k.key().unwrap(), spell(v))).collect::<Vec<_>>().join(", "))
            } else {
                format!("block([{}])", kvs.iter().map(|(k, v)| format!("[{}, {}]", spell(k), spell(v))).collect::<Vec<_>>().join(", "))
            }
        }
        v => gen::lit(v),
    }
}

fn any(v: &V, f: &mut dyn FnMut(&V, bool) -> bool) -> bool {
    fn go(v: &V, key: bool, f: &mut dyn FnMut(&V, bool) -> bool) -> bool {
        f(v, key)
            || match v {
                V::List(xs) => xs.iter().any(|x| go(x, false, f)),
                V::Block(kvs) => kvs.iter().any(|(k, x)| go(k, true, f) || go(x, false, f)),
                _ => false,
            }
    }
    go(v, false, f)
}

/// Symbols any EDN reader takes.
pub fn edn_plain(t: &str) -> bool {
    let mut cs = t.chars();
    matches!(cs.next(), Some(c) if c.is_ascii_alphabetic()) && cs.all(|c| c.is_ascii_alphanumeric() || "-_?!*".contains(c))
}

/// Whether the format has no way to say this (None: cannot tell).
fn refused(format: &str, v: &V) -> Option<bool> {
    let nontext = |v: &V, key: bool| key && v.key().is_none();
    match format {
        "json" => Some(any(v, &mut |v, k| nontext(v, k))),
        "toml" => Some(any(v, &mut |v, k| nontext(v, k) || *v == V::Null || matches!(v, V::Int(n) if *n > i64::MAX as i128))),
        "eu" => Some(any(v, &mut |v, k| nontext(v, k) || (k || matches!(v, V::Sym(_))) && v.key().unwrap().contains('\''))),
        "edn" => {
            if any(v, &mut |v, _| matches!(v, V::Sym(t) if t.is_empty() || t.contains(['\n', ' ', '"', '[', '{', '(', ',', '\'', '@', '`']))) {
                Some(true)
            } else if any(v, &mut |v, _| matches!(v, V::Sym(t) if !edn_plain(t))) {
                None
            } else {
                Some(false)
            }
        }
        _ => Some(false),
    }
}

// ---------------------------------------------------------------- readers

struct Json<'a> {
    s: &'a [u8],
    i: usize,
}

impl Json<'_> {
    fn ws(&mut self) {
        while self.i < self.s.len() && b" \t\r\n".contains(&self.s[self.i]) {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: u8) -> Result<(), String> {
        self.ws();
        if self.s.get(self.i) == Some(&c) {
            self.i += 1;
            Ok(())
        } else {
            Err(format!("expected {:?} at {}", c as char, self.i))
        }
    }
    fn at(&mut self, c: u8) -> bool {
        self.ws();
        self.s.get(self.i) == Some(&c)
    }
    fn value(&mut self) -> Result<V, String> {
        self.ws();
        match self.s.get(self.i) {
            Some(b'{') => {
                self.i += 1;
                let mut kvs = vec![];
                while !self.at(b'}') {
                    if !kvs.is_empty() {
                        self.eat(b',')?;
                    }
                    self.ws();
                    let k = self.string()?;
                    self.eat(b':')?;
                    kvs.push((V::Str(k), self.value()?));
                }
                self.i += 1;
                Ok(V::Block(kvs))
            }
            Some(b'[') => {
                self.i += 1;
                let mut xs = vec![];
                while !self.at(b']') {
                    if !xs.is_empty() {
                        self.eat(b',')?;
                    }
                    xs.push(self.value()?);
                }
                self.i += 1;
                Ok(V::List(xs))
            }
            Some(b'"') => Ok(V::Str(self.string()?)),
            Some(_) => {
                let st = self.i;
                while self.i < self.s.len() && !b" \t\r\n,]}".contains(&self.s[self.i]) {
                    self.i += 1;
                }
                let w = std::str::from_utf8(&self.s[st..self.i]).map_err(|e| e.to_string())?;
                match w {
                    "null" => Ok(V::Null),
                    "true" => Ok(V::Bool(true)),
                    "false" => Ok(V::Bool(false)),
                    w => number(w),
                }
            }
            None => Err("end of text".into()),
        }
    }
    fn string(&mut self) -> Result<String, String> {
        self.eat(b'"')?;
        let mut out: Vec<u8> = vec![];
        loop {
            let c = *self.s.get(self.i).ok_or("unterminated")?;
            self.i += 1;
            match c {
                b'"' => break,
                0..=31 => return Err("raw control character".into()),
                b'\\' => {
                    let e = *self.s.get(self.i).ok_or("unterminated")?;
                    self.i += 1;
                    let ch = match e {
                        b'n' => '\n',
                        b't' => '\t',
                        b'r' => '\r',
                        b'b' => '\u{8}',
                        b'f' => '\u{c}',
                        b'"' | b'\\' | b'/' => e as char,
                        b'u' => {
                            let mut unit = || -> Result<u32, String> {
                                let h = self.s.get(self.i..self.i + 4).ok_or("short escape")?;
                                self.i += 4;
                                u32::from_str_radix(std::str::from_utf8(h).map_err(|e| e.to_string())?, 16).map_err(|e| e.to_string())
                            };
                            let a = unit()?;
                            if (0xd800..0xdc00).contains(&a) {
                                self.i += 2;
                                let b = u32::from_str_radix(std::str::from_utf8(&self.s[self.i..self.i + 4]).unwrap(), 16).map_err(|e| e.to_string())?;
                                self.i += 4;
                                char::from_u32(0x10000 + ((a - 0xd800) << 10) + (b.wrapping_sub(0xdc00))).ok_or("surrogate")?
                            } else {
                                char::from_u32(a).ok_or("surrogate")?
                            }
                        }
                        _ => return Err("bad escape".into()),
                    };
                    out.extend(ch.to_string().bytes());
                }
                c => out.push(c),
            }
        }
        String::from_utf8(out).map_err(|e| e.to_string())
    }
}

fn number(w: &str) -> Result<V, String> {
    let digits = w.strip_prefix('-').unwrap_or(w);
    if !digits.starts_with(|c: char| c.is_ascii_digit()) || digits.len() > 1 && digits.starts_with('0') && !digits[1..].starts_with(['.', 'e', 'E']) {
        return Err(format!("not a number: {w:?}"));
    }
    if digits.bytes().all(|b| b.is_ascii_digit()) {
        return w.parse().map(V::Int).map_err(|e| e.to_string());
    }
    w.parse().map(V::Float).map_err(|_| format!("not a number: {w:?}"))
}

pub fn read_json(t: &str) -> Result<V, String> {
    let mut j = Json { s: t.as_bytes(), i: 0 };
    let v = j.value()?;
    j.ws();
    if j.i != t.len() {
        return Err(format!("text after the value at {}", j.i));
    }
    Ok(v)
}

fn read_toml(t: &str) -> Result<V, String> {
    fn conv(v: toml::Value) -> V {
        match v {
            toml::Value::String(s) => V::Str(s),
            toml::Value::Integer(i) => V::Int(i as i128),
            toml::Value::Float(f) => V::Float(f),
            toml::Value::Boolean(b) => V::Bool(b),
            toml::Value::Datetime(d) => V::Time(d.to_string()),
            toml::Value::Array(xs) => V::List(xs.into_iter().map(conv).collect()),
            toml::Value::Table(t) => V::Block(t.into_iter().map(|(k, v)| (V::Str(k), conv(v))).collect()),
        }
    }
    t.parse::<toml::Value>().map(conv).map_err(|e| e.to_string())
}

fn read_edn(t: &str) -> Result<V, String> {
    use edn_format::Value as E;
    fn conv(v: E) -> Result<V, String> {
        Ok(match v {
            E::Nil => V::Null,
            E::Boolean(b) => V::Bool(b),
            E::String(s) => V::Str(s),
            E::Keyword(k) => V::Sym(k.to_string()[1..].to_string()),
            E::Integer(i) => V::Int(i as i128),
            E::BigInt(b) => V::Int(b.to_string().parse().map_err(|e| format!("{e}"))?),
            E::Float(f) => V::Float(f.into_inner()),
            E::Vector(xs) => V::List(xs.into_iter().map(conv).collect::<Result<_, _>>()?),
            E::Map(m) => V::Block(m.into_iter().map(|(k, v)| Ok::<_, String>((conv(k)?, conv(v)?))).collect::<Result<_, _>>()?),
            E::Inst(d) => V::Time(d.to_rfc3339()),
            o => return Err(format!("unexpected {o:?}")),
        })
    }
    let mut all: Vec<_> = edn_format::Parser::from_str(t, edn_format::ParserOptions::default()).collect();
    match (all.len(), all.pop()) {
        (1, Some(Ok(v))) => conv(v),
        (_, Some(Err(e))) => Err(format!("{e:?}")),
        (n, _) => Err(format!("{n} forms")),
    }
}

fn read_eu(t: &str) -> Result<V, String> {
    let o = ev::eval_unit(&format!("zz-value: ({t})\n"), &Opts { limit: Some(5_000_000), ..Opts::default() });
    match o.value {
        Ok(V::Block(mut kvs)) if kvs.len() == 1 => Ok(kvs.pop().unwrap().1),
        Ok(v) => Err(format!("{v:?}")),
        Err(e) => Err(format!("{e:?}")),
    }
}

pub fn instant(t: &str) -> Option<chrono::DateTime<chrono::FixedOffset>> {
    chrono::DateTime::parse_from_rfc3339(t).or_else(|_| chrono::DateTime::parse_from_str(t, "%Y-%m-%d %H:%M:%S%.f %z")).ok()
}

/// Whether what was read is what was written, as far as the format can say.
fn agrees(format: &str, want: &V, got: &V) -> bool {
    match (want, got) {
        (V::Sym(a), V::Str(b)) => (format == "json" || format == "toml") && a == b,
        (V::Time(a), V::Str(b)) if format == "json" => instant(b).is_some_and(|d| Some(d) == instant(a) && d.offset() == instant(a).unwrap().offset()),
        (V::Time(a), V::Time(b)) => instant(b).is_some_and(|d| Some(d) == instant(a) && (format == "toml" || d.offset() == instant(a).unwrap().offset())),
        (V::Float(a), V::Float(b)) => a == b && a.is_sign_negative() == b.is_sign_negative(),
        (V::List(a), V::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| agrees(format, x, y)),
        (V::Block(a), V::Block(b)) => {
            let key = |k: &V, q: &V| if format == "edn" { agrees(format, k, q) } else { k.key() == q.key() };
            a.len() == b.len()
                && if format == "eu" {
                    a.iter().zip(b).all(|((k, x), (q, y))| key(k, q) && agrees(format, x, y))
                } else {
                    a.iter().all(|(k, x)| b.iter().filter(|(q, _)| key(k, q)).count() == 1 && b.iter().any(|(q, y)| key(k, q) && agrees(format, x, y)))
                }
        }
        (a, b) => a == b,
    }
}

fn plain_text(v: &V, out: &mut String) {
    let mut line = |t: &str| {
        out.push_str(t);
        out.push('\n');
    };
    match v {
        V::List(xs) => xs.iter().for_each(|x| plain_text(x, out)),
        V::Block(kvs) => kvs.iter().for_each(|(k, x)| {
            plain_text(k, out);
            plain_text(x, out);
        }),
        V::Null => line(""),
        V::Bool(b) => line(&b.to_string()),
        V::Int(n) => line(&n.to_string()),
        V::Float(f) => line(&serde_json::Number::from_f64(*f).unwrap().to_string()),
        V::Str(t) | V::Sym(t) => line(t),
        V::Time(t) => line(&instant(t).unwrap().to_string()),
    }
}

fn check(format: &str, v: &V, r: &Ran, say: &dyn Fn(&str) -> String) -> Res {
    let text = match String::from_utf8(r.text.clone()) {
        Ok(t) => t,
        Err(_) => return fail("utf8", say("the output is not UTF-8")),
    };
    let may = refused(format, v);
    match &r.res {
        Err(e) if e.kind == "DidntTerminate" => return Ok(()),
        Err(e) => {
            if may == Some(false) {
                return fail(format!("error:{format}"), say(&format!("{format}: unexpected error {e:?}")));
            }
            if e.kind != "UnrepresentableValue" && e.kind != "UnrenderableShape" {
                return fail(format!("kind:{format}"), say(&format!("{format}: not the refusal expected: {e:?}")));
            }
            if !text.is_empty() {
                return fail(format!("partial:{format}"), say(&format!("{format}: output before the refusal: {text:?}")));
            }
            return Ok(());
        }
        Ok(()) if may == Some(true) => return fail(format!("accepted:{format}"), say(&format!("{format}: a value it cannot carry came out as\n{text}"))),
        Ok(()) => {}
    }
    if format == "text" {
        let mut want = String::new();
        plain_text(v, &mut want);
        if want != text {
            return fail("text", say(&format!("text: got {text:?}, expected {want:?}")));
        }
        return Ok(());
    }
    let back = match format {
        "json" => read_json(&text),
        "toml" => read_toml(&text),
        "edn" => read_edn(&text),
        _ => read_eu(&text),
    };
    match back {
        Ok(b) if agrees(format, v, &b) => Ok(()),
        Ok(b) => fail(format!("changed:{format}"), say(&format!("{format}: read back as\n{b:?}\nfrom\n{text}"))),
        Err(e) => fail(format!("unreadable:{format}"), say(&format!("{format}: does not read back: {e}\nfrom\n{text}"))),
    }
}

fn pick_mix(s: &mut Src) -> Mix {
    let odd = *s.pick(&[0, 0, 15, 40]);
    Mix { odd, nontext: s.pct(8), null: s.pct(50), big: s.pct(50) }
}

fn nontrivial(v: &V) -> bool {
    any(v, &mut |v, k| !k && matches!(v, V::Block(b) if !b.is_empty())) && any(v, &mut |v, _| matches!(v, V::Str(_) | V::Sym(_) | V::Float(_) | V::Time(_)))
}

/// One value through every format.
fn data(s: &mut Src, ctx: &mut Ctx) -> Res {
    let m = pick_mix(s);
    let v = if s.pct(80) { block(s, m, 3) } else { value(s, m, 3) };
    let root_block = matches!(v, V::Block(_));
    let src = match &v {
        // a unit's own declarations, when they can be
        V::Block(kvs) if s.bool() && kvs.iter().all(|(k, _)| matches!(k, V::Sym(t) if gen::simple_name(t) && !["main", "true", "false", "null", "sym", "block"].contains(&t.as_str()))) => {
            kvs.iter().map(|(k, x)| format!("{}: {}\n", k.key().unwrap(), spell(x))).collect()
        }
        _ => format!("` {{target: :main}}\nmain: {}\n", spell(&v)),
    };
    ctx.case(src.clone());
    let say = |m: &str| format!("{m}\n---- source\n{src}");
    let all = ["json", "toml", "edn", "eu", "text"];
    let k = s.n(5);
    for format in [all[k], all[(k + 1 + s.n(4)) % 5]] {
        if format == "toml" && !root_block {
            continue;
        }
        let r = export(&src, format, None);
        check(format, &v, &r, &say)?;
        ctx.label(if r.res.is_ok() { format!("{format} ok") } else { format!("{format} refused") });
    }
    if nontrivial(&v) {
        ctx.nt();
    }
    Ok(())
}

/// The text `render-as` gives is the text the format's output has.
fn rendered(s: &mut Src, ctx: &mut Ctx) -> Res {
    let m = pick_mix(s);
    let v = value(s, m, 2);
    let format = *s.pick(&["json", "toml", "edn", "eu", "text"]);
    let lit = spell(&v);
    ctx.case(format!("{lit} render-as(:{format})"));
    let say = |m: &str| format!("{m}\n---- {lit} render-as(:{format})");
    let a = export(&format!("` {{target: :main}}\nmain: {lit}\n"), format, None);
    let direct = ev::eval_batch("", &[format!("({lit}) render-as(:{format})")], &Opts { limit: Some(5_000_000), ..Opts::default() });
    match (&a.res, &direct[0].value) {
        (Ok(()), Ok(V::Str(t))) if t.as_bytes() == a.text => {}
        (Err(e), Err(f)) if e.kind == f.kind => {}
        (x, y) => return fail(format!("render-as:{format}"), say(&format!("output {x:?} {:?}\nrender-as {y:?}", String::from_utf8_lossy(&a.text)))),
    }
    if !matches!(v, V::Int(_) | V::Bool(_) | V::Null) {
        ctx.nt();
    }
    Ok(())
}

// ---------------------------------------------------------------- markup

enum M {
    Text(V),
    El(String, bool, Option<Vec<(String, V)>>, Vec<M>),
    Nothing,
    Bad(&'static str),
}

const VOID: &[&str] = &["br", "hr", "img", "input", "meta", "link", "area", "base", "col", "embed", "source", "track", "wbr"];
const RAW: &[&str] = &["style", "script", "xmp", "iframe", "noembed", "noframes", "plaintext"];

fn mtext(s: &mut Src) -> V {
    match s.weighted(&[6, 1, 1, 1, 1, 1]) {
        0 => V::Str(text(s)),
        1 => V::Int(gen::small_int(s) as i128),
        2 => V::Sym(s.pick(&["a", "b-c", "k"]).to_string()),
        3 => V::Bool(s.bool()),
        4 => V::Float(s.range(-9, 9) as f64 / 4.0),
        _ => V::Null,
    }
}

fn element(s: &mut Src, depth: usize, bad: &mut bool) -> M {
    let tag = match s.weighted(&[8, 3, 3]) {
        0 => *s.pick(&["div", "p", "span", "ul", "li", "h1", "table", "td", "a", "b", "section", "html", "body", "title", "custom-el"]),
        1 => *s.pick(VOID),
        _ => *s.pick(RAW),
    };
    let attrs = if s.pct(60) {
        let n = s.len(3);
        let mut at: Vec<(String, V)> = vec![];
        for _ in 0..n {
            let k = s.pick(&["id", "class", "data-x", "href", "title", "x"]).to_string();
            if at.iter().all(|(q, _)| *q != k) {
                at.push((k, mtext(s)));
            }
        }
        Some(at)
    } else {
        None
    };
    let n = if VOID.contains(&tag) || depth == 0 { 0 } else { s.len(4) };
    let mut items: Vec<M> = vec![];
    for _ in 0..n {
        items.push(match s.weighted(&[5, 5, 1]) {
            0 => M::Text(mtext(s)),
            1 => element(s, depth - 1, bad),
            _ => M::Nothing,
        });
    }
    if s.below(100) >= 96 {
        *bad = true;
        let how = *s.pick(&["[:p, {a: [1]}]", "[:p, {a: {b: 1}}]", "[{a: 1}, 3]", "[[:x], {}]", "[:p, {}, {late: 2}]", "[:p, \"x\", {late: 2}]", "[:p, {}, {}]", "[:p, {a: []}]"]);
        items.push(M::Bad(how));
    }
    M::El(tag.to_string(), s.bool(), attrs, items)
}

fn m_src(m: &M) -> String {
    match m {
        M::Text(v) => spell(v),
        M::Nothing => "[]".into(),
        M::Bad(t) => t.to_string(),
        M::El(tag, sym, attrs, items) => {
            let mut out = vec![if *sym { spell_sym(tag) } else { format!("\"{tag}\"") }];
            if let Some(at) = attrs {
                out.push(spell(&V::Block(at.iter().map(|(k, v)| (V::Sym(k.clone()), v.clone())).collect())));
            }
            out.extend(items.iter().map(m_src));
            format!("[{}]", out.join(", "))
        }
    }
}

fn m_text(v: &V) -> String {
    let mut o = String::new();
    plain_text(v, &mut o);
    o.pop();
    o
}

fn m_html(m: &M, raw: bool, out: &mut String) {
    match m {
        M::Text(v) => {
            let t = m_text(v);
            if raw {
                out.push_str(&t);
            } else {
                out.push_str(&t.replace('&', "&amp;").replace('\u{a0}', "&nbsp;").replace('<', "&lt;").replace('>', "&gt;"));
            }
        }
        M::El(tag, _, attrs, items) => {
            out.push_str(&format!("<{tag}"));
            for (k, v) in attrs.iter().flatten() {
                out.push_str(&format!(" {k}=\"{}\"", m_text(v).replace('&', "&amp;").replace('\u{a0}', "&nbsp;").replace('"', "&quot;")));
            }
            out.push('>');
            if !VOID.contains(&tag.as_str()) {
                items.iter().for_each(|i| m_html(i, RAW.contains(&tag.as_str()), out));
                out.push_str(&format!("</{tag}>"));
            }
        }
        _ => {}
    }
}

fn markup(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut bad = false;
    let m = element(s, 3, &mut bad);
    let mut lit = m_src(&m);
    if s.below(40) == 39 {
        bad = true;
        lit = s.pick(&["{a: 1}", "3", "\"x\"", "{}", "null"]).to_string();
    }
    let direct = s.pct(70);
    ctx.case(lit.clone());
    let mut want = String::from("<!DOCTYPE html>");
    m_html(&m, false, &mut want);
    want.push('\n');
    let say = |m: &str| format!("{m}\n---- source\n{lit}");
    let (res, got) = if direct {
        let r = export(&format!("` {{target: :main}}\nmain: {lit}\n"), "html", None);
        (r.res.map_err(|e| e.kind), String::from_utf8_lossy(&r.text).to_string())
    } else {
        match &ev::eval_batch("", &[format!("({lit}) render-as(:html)")], &Opts::default())[0].value {
            Ok(V::Str(t)) => (Ok(()), t.clone()),
            Ok(v) => return fail("render-as:html", say(&format!("gave {v:?}"))),
            Err(e) => (Err(e.kind.clone()), String::new()),
        }
    };
    match res {
        Ok(()) if bad => return fail("accepted:html", say(&format!("something html has no place for came out as {got:?}"))),
        Ok(()) if got != want => return fail("html", say(&format!("got      {got:?}\nexpected {want:?}"))),
        Ok(()) => {}
        Err(k) if bad && k == "UnrenderableShape" && got.is_empty() => {}
        Err(k) => return fail("error:html", say(&format!("error {k}, output {got:?}"))),
    }
    ctx.label(if bad { "refused" } else { "ok" });
    if want.len() > 60 || bad {
        ctx.nt();
    }
    Ok(())
}

// ---------------------------------------------------------------- sinks

/// Output into something that stops accepting bytes part-way.
fn sinks(s: &mut Src, ctx: &mut Ctx) -> Res {
    let format = *s.pick(&["json", "toml", "edn", "eu", "text", "html"]);
    let lit = if format == "html" {
        loop {
            let mut bad = false;
            let m = element(s, 2, &mut bad);
            if !bad {
                break m_src(&m);
            }
        }
    } else {
        spell(&block(s, Mix { odd: 0, nontext: false, null: false, big: false }, 3))
    };
    let src = format!("` {{target: :main}}\nmain: {lit}\n");
    let whole = export(&src, format, None);
    if whole.res.is_err() {
        return fail("error", format!("{format}: {:?}\n{src}", whole.res));
    }
    let full = whole.text;
    let at = s.below(full.len() as u64 + 2) as usize;
    let kind = *s.pick(&[ErrorKind::BrokenPipe, ErrorKind::PermissionDenied, ErrorKind::WriteZero, ErrorKind::OutOfMemory, ErrorKind::Other]);
    ctx.case(format!("{format} failing with {kind:?} after {at} of {} bytes\n{src}", full.len()));
    let r = export(&src, format, Some((at, kind)));
    let want = if at >= full.len() {
        None
    } else if kind == ErrorKind::BrokenPipe {
        Some("OutputStreamClosed")
    } else {
        Some("OutputWriteFailed")
    };
    let got = r.res.as_ref().err().map(|e| e.kind.as_str());
    if got != want {
        return fail(format!("sink:{format}"), format!("{format}: sink failing with {kind:?} after {at} of {} bytes: {got:?}, expected {want:?}\n{src}", full.len()));
    }
    if !full.starts_with(&r.text) {
        return fail(format!("prefix:{format}"), format!("{format}: what was written before the failure is not the start of the output\n{:?}\n{:?}\n{src}", r.text, full));
    }
    if at < full.len() && at > 0 {
        ctx.nt();
    }
    Ok(())
}

// ---------------------------------------------------------------- omissions

/// Functions and suppressed declarations are left out of blocks.
fn omissions(s: &mut Src, ctx: &mut Ctx) -> Res {
    fn go(s: &mut Src, depth: usize, hidden: bool, src: &mut String, left_out: &mut usize) -> V {
        let mut kvs = vec![];
        let n = s.len(5);
        let ind = "  ".repeat(4 - depth);
        for i in 0..n {
            let k = format!("k{i}");
            match s.weighted(&[5, 3, 2, 2, 2]) {
                1 if depth > 0 => {
                    src.push_str(&format!("{ind}{k}: {{\n"));
                    let v = go(s, depth - 1, hidden, src, left_out);
                    src.push_str(&format!("{ind}}}\n"));
                    kvs.push((V::Sym(k), v));
                }
                2 => {
                    *left_out += 1;
                    src.push_str(&format!("{ind}{}\n", match s.n(4) {
                        0 => format!("{k}(x): x + 1"),
                        1 => format!("{k}: str.join-on(\"-\")"),
                        2 => format!("(l {}+> r): l + r", "<".repeat(i + 1)),
                        _ => format!("{k}: (+ 1)"),
                    }));
                }
                3 => {
                    *left_out += 1;
                    let meta = *s.pick(&[":suppress", "{export: :suppress}", "{doc: \"d\" export: :suppress}"]);
                    src.push_str(&format!("{ind}` {meta}\n{ind}{k}: {}\n", if s.bool() { "\"not wanted\"" } else { "{a: 1}" }));
                }
                4 => {
                    let m = *s.pick(&["\"doc\"", "{doc: \"d\"}", "{other: 1}"]);
                    src.push_str(&format!("{ind}` {m}\n{ind}{k}: {i}\n"));
                    kvs.push((V::Sym(k), V::Int(i as i128)));
                }
                _ => {
                    src.push_str(&format!("{ind}{k}: \"v{i}\"\n"));
                    kvs.push((V::Sym(k), V::s(format!("v{i}"))));
                }
            }
        }
        V::Block(kvs)
    }
    let mut src = String::new();
    let mut out = 0;
    let v = go(s, 3, false, &mut src, &mut out);
    ctx.case(src.clone());
    let say = |m: &str| format!("{m}\n---- source\n{src}\n---- expected {v:?}");
    for format in ["json", *s.pick(&["toml", "edn", "eu", "text"])] {
        let r = export(&src, format, None);
        check(format, &v, &r, &say)?;
    }
    if out > 0 {
        ctx.nt();
    }
    Ok(())
}

// ---------------------------------------------------------------- command

fn cli(s: &mut Src, ctx: &mut Ctx) -> Res {
    let m = pick_mix(s);
    let v = block(s, m, 2);
    let format = *s.pick(&["json", "toml", "edn", "eu", "text"]);
    let other = *s.pick(&["json", "text", "eu"]);
    let lit = spell(&v);
    let d = scratch();
    // where the format comes from, strongest first
    let (how, mut src, args): (&str, String, Vec<String>) = match s.n(7) {
        0 => ("-x", format!("` {{target: :main}}\nmain: {lit}\n"), vec!["-x".into(), format.into(), "u.eu".into()]),
        1 => ("-x over metadata", format!("` {{target: :main format: :{other}}}\nmain: {lit}\n"), vec!["-x".into(), format.into(), "u.eu".into()]),
        2 => ("main's metadata", format!("` {{target: :main format: :{format}}}\nmain: {lit}\n"), vec!["u.eu".into()]),
        3 => ("target's metadata", format!("` {{target: :it format: :{format}}}\nit: {lit}\nx: 1\n"), vec!["-t".into(), "it".into(), "u.eu".into()]),
        4 => ("-o", format!("` {{target: :main}}\nmain: {lit}\n"), vec!["-o".into(), format!("out.{}", if format == "text" { "txt" } else { format }), "-x".into(), format.into(), "u.eu".into()]),
        5 if format != "eu" => ("-o alone", format!("` {{target: :main}}\nmain: {lit}\n"), vec!["-o".into(), format!("out.{}", if format == "text" { "txt" } else { format }), "u.eu".into()]),
        _ => ("-e", "z: 1\n".into(), vec!["-x".into(), format.into(), "u.eu".into(), "-e".into(), lit.clone()]),
    };
    src.push('\n');
    ctx.case(format!("eu {}\n{src}", args.join(" ")));
    ctx.label(how);
    std::fs::write(d.join("u.eu"), &src).unwrap();
    let r = eu(&d, &args, None);
    let file = args.iter().find(|a| a.starts_with("out.")).map(|f| std::fs::read(d.join(f)).unwrap_or_default());
    let _ = std::fs::remove_dir_all(&d);
    let want = export(&format!("` {{target: :main}}\nmain: {lit}\n"), format, None);
    let got = file.clone().unwrap_or_else(|| r.out.clone().into_bytes());
    let say = |m: &str| format!("{m}\n  eu {}\n  exit {:?}\n  out {:?}\n  file {:?}\n  err {:?}\n{src}", args.join(" "), r.code, r.out, file.as_ref().map(|f| String::from_utf8_lossy(f).to_string()), r.err);
    if (r.code == Some(0)) != want.res.is_ok() {
        return fail("exit", say(&format!("exit status {:?}, expected result {:?}", r.code, want.res)));
    }
    if got != want.text {
        return fail("output", say(&format!("output should be {:?}", String::from_utf8_lossy(&want.text))));
    }
    if file.is_some() && !r.out.is_empty() {
        return fail("stdout", say("standard output should be empty"));
    }
    if want.res.is_err() && r.err.is_empty() {
        return fail("silent", say("failed without a message"));
    }
    if nontrivial(&v) {
        ctx.nt();
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C17",
        facets: vec![
            Facet { name: "data", rule: "generated values (text with every kind of awkward character, the whole integer range, floats, times, nested blocks and lists, keys of any kind) through two of json, toml, edn, eu and text and read back; non-trivial: has a non-empty block and a string, symbol, float or time", quick: 2_200, thorough: 120_000, run: data },
            Facet { name: "render-as", rule: "the text of a value against its output; non-trivial: not a plain constant", quick: 700, thorough: 30_000, run: rendered },
            Facet { name: "markup", rule: "element trees with text, attributes and children, some with parts html has no place for; non-trivial: over 60 characters of html, or refused", quick: 1_500, thorough: 60_000, run: markup },
            Facet { name: "sinks", rule: "outputs into a sink failing after n bytes; non-trivial: fails part-way", quick: 700, thorough: 30_000, run: sinks },
            Facet { name: "omissions", rule: "units with functions and suppressed declarations at any depth; non-trivial: something is left out", quick: 600, thorough: 30_000, run: omissions },
            Facet { name: "cli", rule: "the eu command with the format from -x, -o, or target metadata; non-trivial: as for data", quick: 130, thorough: 6_000, run: cli },
        ],
        known: vec![],
        assumptions: vec![],
    }
}
