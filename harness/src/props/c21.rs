//! C21 the language server's view of a document is the document's text.

use crate::engine::{fail, Ctx, Facet, Fail, Prop, Res, Src};
use crate::lsp::{self, Client};
use crate::props::c01::{any_text, corpus};
use crate::props::c19::annotated;
use crate::synt::{self, Style};
use eucalypt::syntax::export::format::{format_source, FormatterConfig};
use eucalypt::syntax::rowan::parse_unit;
use serde_json::{json, Value};

fn err(sig: &str, msg: String) -> Fail {
    Fail { sig: sig.into(), msg }
}

/// A document's text: valid or broken, with line breaks and characters of
/// every width.
pub fn document(s: &mut Src) -> String {
    let mut t = match s.n(8) {
        0 => any_text(s),
        1 | 2 => {
            let c = corpus();
            if c.is_empty() {
                String::new()
            } else {
                let t = s.pick(c);
                let ls: Vec<&str> = t.split_inclusive('\n').collect();
                let i = s.n(ls.len().max(1));
                let n = 1 + s.n(25);
                ls.iter().skip(i).take(n).copied().collect()
            }
        }
        _ => {
            let u = synt::unit(s);
            let st = Style { odd: *s.pick(&[0, 0, 15]), comments: *s.pick(&[0, 8, 30]) };
            synt::render(s, &synt::tokens(&u), st)
        }
    };
    if s.pct(30) {
        for _ in 0..1 + s.n(3) {
            let k = *s.pick(&["# 𝄞 é 名\n", "\"𝄞\"", "'é 名'", "\r\n", "ééé: 1\n", "x: '𝄞' # c\n", "\n\n"]);
            let i = cut(s, &t);
            t.insert_str(i, k);
        }
    }
    // a carriage return on its own is not a line break to this server
    t.replace("\r\n", "\u{1}").replace('\r', "").replace('\u{1}', "\r\n")
}

fn cut(s: &mut Src, t: &str) -> usize {
    let mut i = s.n(t.len() + 1);
    while !t.is_char_boundary(i) {
        i -= 1;
    }
    i
}

/// A place in the document, as a client would give it; often at the edge of
/// a word, seldom beyond the end of a line or of the document.
pub fn place(s: &mut Src, t: &str) -> (u64, u64) {
    match s.n(20) {
        0 => (lsp::lines(t).len() as u64 + s.below(3), s.below(9)),
        1 => {
            let l = s.n(lsp::lines(t).len());
            (l as u64, 1000 + s.below(100_000))
        }
        2..=6 => {
            let i = cut(s, t);
            lsp::pos(t, i)
        }
        _ => {
            let ws: Vec<usize> = t.char_indices().zip(t.chars().skip(1)).filter(|((_, a), b)| a.is_alphanumeric() != b.is_alphanumeric()).map(|((i, a), _)| i + a.len_utf8()).collect();
            if ws.is_empty() {
                return (0, 0);
            }
            let i = *s.pick(&ws);
            lsp::pos(t, i)
        }
    }
}

fn ordered(a: (u64, u64), b: (u64, u64)) -> ((u64, u64), (u64, u64)) {
    (a.min(b), a.max(b))
}

fn jrange(a: (u64, u64), b: (u64, u64)) -> Value {
    json!({"start": lsp::jpos(a), "end": lsp::jpos(b)})
}

const STEADY: &[&str] = &["documentSymbol", "foldingRange", "selectionRange", "definition", "semanticTokens/full", "formatting", "rangeFormatting", "references", "documentHighlight", "rename", "prepareRename"];
const ALL: &[&str] = &["documentSymbol", "foldingRange", "selectionRange", "definition", "semanticTokens/full", "formatting", "rangeFormatting", "references", "documentHighlight", "rename", "prepareRename", "hover", "completion", "codeAction", "inlayHint"];

/// A request about a document: the method and its parameters but for the document.
fn question(s: &mut Src, t: &str, of: &[&'static str]) -> (&'static str, Value) {
    let m = *s.pick(of);
    let p = place(s, t);
    let opts = json!({"tabSize": *s.pick(&[2, 4, 8, 1]), "insertSpaces": s.bool()});
    let whole = |s: &mut Src| {
        let q = place(s, t);
        let (a, b) = ordered(p, q);
        jrange(a, b)
    };
    let v = match m {
        "selectionRange" => {
            let n = s.n(4);
            let ps: Vec<Value> = (0..n).map(|_| lsp::jpos(place(s, t))).collect();
            json!({ "positions": ps })
        }
        "formatting" => json!({ "options": opts }),
        "rangeFormatting" => json!({"options": opts, "range": whole(s)}),
        "references" => json!({"position": lsp::jpos(p), "context": {"includeDeclaration": s.bool()}}),
        "rename" => json!({"position": lsp::jpos(p), "newName": *s.pick(&["renamed", "q-1", "𝄞x"])}),
        "codeAction" => json!({"range": whole(s), "context": {"diagnostics": []}}),
        "inlayHint" => json!({ "range": whole(s) }),
        "documentSymbol" | "foldingRange" | "semanticTokens/full" => json!({}),
        _ => json!({ "position": lsp::jpos(p) }),
    };
    (m, v)
}

fn about(uri: &str, q: &(&'static str, Value)) -> (String, Value) {
    let mut v = q.1.clone();
    v["textDocument"] = json!({ "uri": uri });
    (format!("textDocument/{}", q.0), v)
}

fn put(c: &mut Client, uri: &str, q: &(&'static str, Value)) -> Result<Value, Fail> {
    let (m, v) = about(uri, q);
    c.request(&m, v).map_err(|e| err("unanswered", format!("{} {}: {e}", q.0, q.1)))
}

/// An answer without the document's name.
fn anon(v: &Value, uri: &str) -> String {
    v.to_string().replace(uri, "DOC")
}

/// A change to a document, with the text it leaves.
fn change(s: &mut Src, t: &str) -> (Value, String) {
    if s.pct(8) {
        let n = document(s);
        return (json!({ "text": n }), n);
    }
    let (p, q) = if s.pct(85) {
        // near by, within the document
        let i = cut(s, t);
        let mut j = (i + s.n(12)).min(t.len());
        while !t.is_char_boundary(j) {
            j += 1;
        }
        (lsp::pos(t, i), lsp::pos(t, j))
    } else {
        let (a, b) = (place(s, t), place(s, t));
        ordered(a, b)
    };
    let with = match s.n(6) {
        0 => String::new(),
        1 => s.pick(&["x", "𝄞", "é", "(", "}", "\"", "'", "{", ":", "1", " "]).to_string(),
        2 => s.pick(&["\n", "\r\n", "\n\n", "a: 1\n", "# c\n", "\r\nb: 2\r\n"]).to_string(),
        _ => {
            let k = document(s);
            let mut n = s.n(40).min(k.len());
            while !k.is_char_boundary(n) {
                n -= 1;
            }
            k[..n].replace('\r', "")
        }
    };
    // with the two halves of a line break kept together
    let (mut a, mut b) = (lsp::clamp(t, p), lsp::clamp(t, q));
    if a > b {
        std::mem::swap(&mut a, &mut b);
    }
    let mut out = t.to_string();
    out.replace_range(a..b, &with);
    (json!({"range": jrange(p, q), "text": with}), out)
}

/// What the server should say at once about a text: its parse errors.
fn parse_diags(t: &str) -> Vec<(String, String)> {
    let p = parse_unit(t);
    let mut v: Vec<(String, String)> = p
        .errors()
        .iter()
        .map(|e| {
            let r = error_range(e);
            (lsp::jrange(t, r.0, r.1).to_string(), String::new())
        })
        .collect();
    v.sort();
    v
}

fn error_range(e: &eucalypt::syntax::rowan::ParseError) -> (usize, usize) {
    let r = crate::props::c01::primary(e);
    (usize::from(r.start()), usize::from(r.end()))
}

fn diag_places(d: &Value, source: &str) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = d.as_array().into_iter().flatten().filter(|d| d["source"] == source).map(|d| (json!({"start": d["range"]["start"], "end": d["range"]["end"]}).to_string(), String::new())).collect();
    v.sort();
    v
}

fn session(s: &mut Src, ctx: &mut Ctx) -> Res {
    // the history is made first, so that what happens does not depend on time
    #[derive(Debug)]
    enum Op {
        Open(usize, String),
        Change(usize, Vec<Value>, String),
        Close(usize),
        Ask(usize, Vec<(&'static str, Value)>, String),
    }
    let mut ops = vec![];
    let mut open: Vec<Option<String>> = vec![None; 2];
    let n = 3 + s.n(14);
    for _ in 0..n {
        let d = s.n(2);
        match &open[d] {
            None => {
                let t = document(s);
                ops.push(Op::Open(d, t.clone()));
                open[d] = Some(t);
            }
            Some(t) => match s.n(10) {
                0 => {
                    ops.push(Op::Close(d));
                    open[d] = None;
                }
                1..=3 => {
                    let qs = (0..1 + s.n(5)).map(|_| question(s, t, STEADY)).collect();
                    ops.push(Op::Ask(d, qs, t.clone()));
                }
                _ => {
                    let mut cs = vec![];
                    let mut now = t.clone();
                    for _ in 0..1 + if s.pct(25) { s.n(4) } else { 0 } {
                        let (v, o) = change(s, &now);
                        cs.push(v);
                        now = o;
                    }
                    // edits can pull the two halves of a line break apart
                    if now.replace("\r\n", "").contains('\r') {
                        continue;
                    }
                    ops.push(Op::Change(d, cs, now.clone()));
                    open[d] = Some(now);
                }
            },
        }
    }
    for (d, t) in open.iter().enumerate() {
        if let Some(t) = t {
            let qs = (0..3).map(|_| question(s, t, STEADY)).collect();
            ops.push(Op::Ask(d, qs, t.clone()));
        }
    }
    ctx.case(format!("{ops:?}"));
    let changes = ops.iter().filter(|o| matches!(o, Op::Change(..))).count();
    if changes > 2 {
        ctx.nt();
    }
    lsp::with(|c| {
        let uris = [c.uri(), c.uri()];
        let mut was: [Option<String>; 2] = [None, None];
        for op in &ops {
            match op {
                Op::Open(d, t) => {
                    c.open(&uris[*d], t).map_err(|e| err("gone", e))?;
                    was[*d] = None;
                    told(c, &uris[*d], t, &mut was[*d])?;
                }
                Op::Change(d, cs, t) => {
                    c.notify("textDocument/didChange", json!({"textDocument": {"uri": uris[*d], "version": 2}, "contentChanges": cs})).map_err(|e| err("gone", e))?;
                    told(c, &uris[*d], t, &mut was[*d]).map_err(|f| err(&f.sig, format!("after {cs:?}\n{}", f.msg)))?;
                }
                Op::Close(d) => {
                    c.close(&uris[*d]).map_err(|e| err("gone", e))?;
                    let q = ("documentSymbol", json!({}));
                    let a = put(c, &uris[*d], &q)?;
                    if !a.is_null() {
                        return fail("closed", format!("a closed document still has symbols: {a}"));
                    }
                }
                Op::Ask(d, qs, t) => {
                    let fresh = c.uri();
                    c.open(&fresh, t).map_err(|e| err("gone", e))?;
                    for q in qs {
                        let a = put(c, &uris[*d], q).map_err(|f| err(&f.sig, format!("{}\n{t:?}", f.msg)))?;
                        let b = put(c, &fresh, q)?;
                        if anon(&a, &uris[*d]) != anon(&b, &fresh) {
                            return fail("differs", format!("{} {} is answered differently for a document with this history than for a new one with the text {t:?}\n  {}\n  {}", q.0, q.1, anon(&a, &uris[*d]), anon(&b, &fresh)));
                        }
                        if q.0 == "formatting" {
                            formatted(t, &q.1, &a)?;
                        }
                    }
                    c.close(&fresh).map_err(|e| err("gone", e))?;
                }
            }
        }
        for u in &uris {
            c.close(u).map_err(|e| err("gone", e))?;
        }
        Ok(())
    })
}

/// After an open or a change the parse errors are published at once.
fn told(c: &mut Client, uri: &str, t: &str, was: &mut Option<String>) -> Result<(), Fail> {
    c.published.clear();
    let q = ("documentHighlight", json!({"position": {"line": 0, "character": 0}}));
    put(c, uri, &q)?;
    if was.as_deref() == Some(t) {
        return Ok(());
    }
    *was = Some(t.to_string());
    let want = parse_diags(t);
    let all: Vec<&Value> = c.published.iter().filter(|(u, _)| u == uri).map(|(_, d)| d).collect();
    if !all.iter().any(|d| diag_places(d, "eucalypt") == want) {
        return fail("parse-diagnostics", format!("the parse errors of {t:?} are at {want:?} but the server published {all:?}"));
    }
    Ok(())
}

fn formatted(t: &str, q: &Value, a: &Value) -> Result<(), Fail> {
    let got = lsp::apply(t, a).map_err(|e| err("edits", format!("{e}\n{t:?}")))?;
    let want = format_source(t, &FormatterConfig::new(80, q["options"]["tabSize"].as_u64().unwrap() as usize, true)).unwrap_or(t.to_string());
    if got != want {
        return fail("formatting", format!("the edits make {got:?} of {t:?} but `eu fmt` makes {want:?}"));
    }
    Ok(())
}

// ------------------------------------------------------------- answers

fn symbols(t: &str, v: &Value, inside: (usize, usize)) -> Result<usize, String> {
    let mut n = 0;
    for d in v.as_array().into_iter().flatten() {
        let r = lsp::range(t, &d["range"]).ok_or("a symbol's range is not in the document")?;
        let sel = lsp::range(t, &d["selectionRange"]).ok_or("a symbol's selection range is not in the document")?;
        if r.0 < inside.0 || r.1 > inside.1 {
            return Err(format!("the symbol {} is not within its parent", d["name"]));
        }
        if sel.0 < r.0 || sel.1 > r.1 {
            return Err(format!("the selection range of {} is not within its range", d["name"]));
        }
        let name = d["name"].as_str().unwrap_or("");
        let head = &t[sel.0..sel.1];
        if !name.chars().all(|c| head.contains(c)) {
            return Err(format!("the symbol {name:?} is selected at {head:?}"));
        }
        n += 1;
        symbols(t, &d["children"], r)?;
    }
    Ok(n)
}

fn words(t: &str) -> Vec<(usize, usize)> {
    parse_unit(t).syntax_node().descendants_with_tokens().filter_map(|e| e.into_token()).map(|k| (usize::from(k.text_range().start()), usize::from(k.text_range().end()))).collect()
}

fn bare(x: &str) -> &str {
    x.strip_prefix('\'').and_then(|y| y.strip_suffix('\'')).unwrap_or(x)
}

fn judge(c: &Client, t: &str, uri: &str, q: &(&'static str, Value), a: &Value) -> Result<(), String> {
    let rg = |v: &Value| lsp::range(t, v).ok_or_else(|| format!("the range {v} is not in the document"));
    let clean = parse_unit(t).errors().is_empty();
    match q.0 {
        "documentSymbol" => {
            let n = symbols(t, a, (0, t.len()))?;
            let want = parse_unit(t).tree().declarations().count();
            if clean && n != want {
                return Err(format!("{n} symbols for {want} declarations"));
            }
        }
        "foldingRange" => {
            for f in a.as_array().ok_or("no list")? {
                let r = json!({"start": {"line": f["startLine"], "character": f["startCharacter"]}, "end": {"line": f["endLine"], "character": f["endCharacter"]}});
                let (x, y) = rg(&r)?;
                if f["startLine"].as_u64() >= f["endLine"].as_u64() {
                    return Err(format!("a fold of one line: {f}"));
                }
                let w = &t[x..y];
                let ends = (w.chars().next().unwrap_or(' '), w.chars().last().unwrap_or(' '));
                if clean && !matches!(ends, ('{', '}') | ('[', ']') | ('`', _) | (_, '"')) && !w.contains(':') && !w.contains('\n') {
                    return Err(format!("a fold of {w:?}"));
                }
            }
        }
        "selectionRange" => {
            let ps = q.1["positions"].as_array().unwrap();
            let rs = a.as_array().ok_or("no list")?;
            if rs.len() != ps.len() {
                return Err(format!("{} answers for {} positions", rs.len(), ps.len()));
            }
            for (p, r) in ps.iter().zip(rs) {
                let at = lsp::clamp(t, (p["line"].as_u64().unwrap(), p["character"].as_u64().unwrap()));
                let mut inner = (at, at);
                let mut v = r;
                loop {
                    let (x, y) = rg(&v["range"])?;
                    if x > inner.0 || y < inner.1 {
                        return Err(format!("the selection {:?} around {p} does not contain what it grows from, {:?}", &t[x..y], &t[inner.0..inner.1]));
                    }
                    inner = (x, y);
                    if v["parent"].is_null() {
                        break;
                    }
                    v = &v["parent"];
                }
                if inner != (0, t.len()) {
                    return Err(format!("the widest selection is {:?}", &t[inner.0..inner.1]));
                }
            }
        }
        "definition" => {
            if !a.is_null() {
                let u = a["uri"].as_str().unwrap_or("");
                if u == uri {
                    rg(&a["range"])?;
                } else {
                    let f = u.strip_prefix("file://").unwrap_or(u);
                    if !f.starts_with(&c.dir.display().to_string()) {
                        return Err(format!("a definition in {u}"));
                    }
                    let p = std::fs::read_to_string(f).map_err(|e| format!("{f}: {e}"))?;
                    lsp::range(&p, &a["range"]).ok_or_else(|| format!("the definition's range {} is not in the prelude", a["range"]))?;
                }
            }
        }
        "semanticTokens/full" => {
            let d: Vec<u64> = a["data"].as_array().ok_or("no data")?.iter().filter_map(|x| x.as_u64()).collect();
            let ws = words(t);
            let (mut l, mut ch, mut last) = (0, 0, 0usize);
            for k in d.chunks(5) {
                if k[0] > 0 {
                    l += k[0];
                    ch = k[1];
                } else {
                    ch += k[1];
                }
                let at = lsp::offset(t, &lsp::jpos((l, ch))).ok_or_else(|| format!("a token at {l}:{ch}, outside the document"))?;
                if at < last {
                    return Err(format!("the token at {l}:{ch} starts before the one in front of it ends"));
                }
                let w = ws.iter().find(|w| w.0 == at && w.1 > at).ok_or_else(|| format!("a token at {l}:{ch} where no token starts"))?;
                let len = t[w.0..w.1].encode_utf16().count() as u64;
                if k[2] != len {
                    return Err(format!("the token {:?} is given length {}", &t[w.0..w.1], k[2]));
                }
                last = w.1;
            }
        }
        "formatting" => formatted(t, &q.1, a).map_err(|f| f.msg)?,
        "rangeFormatting" => {
            let o = lsp::apply(t, a)?;
            if !clean && o != t {
                return Err("a text with parse errors is formatted".into());
            }
            if clean && o != t {
                let p = parse_unit(&o);
                if !p.errors().is_empty() {
                    return Err(format!("the formatted text has parse errors: {o:?}"));
                }
                let (x, y) = (synt::tree_shape(&parse_unit(t).tree()), synt::tree_shape(&p.tree()));
                if x != y {
                    return Err(format!("the formatted text {o:?} is something else\n  {x}\n  {y}"));
                }
                let cs = |t: &str| synt::comments(&parse_unit(t).syntax_node()).into_iter().map(|c| c.0.trim_end().to_string()).collect::<Vec<_>>();
                if cs(t) != cs(&o) {
                    return Err(format!("comments differ after formatting: {o:?}"));
                }
                // only declarations that the range touches
                let p = |v: &Value| lsp::clamp(t, (v["line"].as_u64().unwrap(), v["character"].as_u64().unwrap()));
                let (from, to) = (p(&q.1["range"]["start"]), p(&q.1["range"]["end"]));
                for e in a.as_array().unwrap() {
                    let (x, y) = rg(&e["range"])?;
                    if x > to || y + 2 < from {
                        return Err(format!("{:?} is not in the range to format", &t[x..y]));
                    }
                }
            }
        }
        "references" => {
            let mut names = std::collections::BTreeSet::new();
            for r in a.as_array().into_iter().flatten() {
                let (x, y) = rg(&r["range"])?;
                names.insert(bare(&t[x..y]).to_string());
            }
            if names.len() > 1 {
                return Err(format!("references to several names: {names:?}"));
            }
        }
        "documentHighlight" => {
            for r in a.as_array().into_iter().flatten() {
                let (x, y) = rg(&r["range"])?;
                if t[x..y].chars().count() != 1 {
                    return Err(format!("{:?} is highlighted", &t[x..y]));
                }
            }
        }
        "rename" => {
            if !a.is_null() {
                lsp::apply(t, &a["changes"][uri])?;
            }
        }
        "prepareRename" => {
            if !a.is_null() {
                let (x, y) = rg(&a["range"])?;
                if a["placeholder"].as_str() != Some(bare(&t[x..y])) {
                    return Err(format!("the text to rename is {:?} but the placeholder {}", &t[x..y], a["placeholder"]));
                }
            }
        }
        "hover" => {
            if !a.is_null() && !a["range"].is_null() {
                rg(&a["range"])?;
            }
        }
        "completion" => {
            for i in a.as_array().ok_or("no list")? {
                if i["label"].as_str().is_none() {
                    return Err(format!("an item with no label: {i}"));
                }
            }
        }
        "codeAction" => {
            for x in a.as_array().ok_or("no list")? {
                if let Some(es) = x["edit"]["changes"].get(uri) {
                    lsp::apply(t, es).map_err(|e| format!("{}: {e}", x["title"]))?;
                }
            }
        }
        "inlayHint" => {
            for i in a.as_array().into_iter().flatten() {
                lsp::offset(t, &i["position"]).ok_or_else(|| format!("a hint outside the document: {i}"))?;
            }
        }
        _ => {}
    }
    Ok(())
}

fn answers(s: &mut Src, ctx: &mut Ctx) -> Res {
    let t = document(s);
    let qs: Vec<_> = (0..4 + s.n(8)).map(|_| question(s, &t, ALL)).collect();
    ctx.case(format!("{t:?} {qs:?}"));
    ctx.label(if parse_unit(&t).errors().is_empty() { "clean" } else { "broken" });
    if !t.is_ascii() {
        ctx.nt();
    }
    lsp::with(|c| {
        let uri = c.uri();
        c.open(&uri, &t).map_err(|e| err("gone", e))?;
        for q in &qs {
            let a = put(c, &uri, q).map_err(|f| err(&f.sig, format!("{}\n{t:?}", f.msg)))?;
            if !a.is_null() && a != json!([]) {
                ctx.label(q.0);
            }
            judge(c, &t, &uri, q, &a).map_err(|e| err(q.0, format!("{} {}\n  {e}\n  {t:?}\n  answer {}", q.0, q.1, a.to_string().chars().take(1500).collect::<String>())))?;
        }
        c.close(&uri).map_err(|e| err("gone", e))
    })
}

// -------------------------------------------------------------- widths

/// The same document twice, with letters in comments and strings of one and
/// two code units in the first, and characters as wide in the second.
fn twins(s: &mut Src, t: &str) -> (String, String) {
    use eucalypt::syntax::rowan::kind::SyntaxKind as K;
    let mut at: Vec<usize> = parse_unit(t)
        .syntax_node()
        .descendants_with_tokens()
        .filter_map(|e| e.into_token())
        .filter_map(|k| {
            let x = usize::from(k.text_range().start());
            match k.kind() {
                K::COMMENT | K::STRING => Some(x + 1),
                K::STRING_LITERAL_CONTENT => Some(x),
                _ => None,
            }
        })
        .filter(|i| t.is_char_boundary(*i))
        .collect();
    at.dedup();
    let (mut a, mut b, mut last) = (String::new(), String::new(), 0);
    for i in at {
        if !s.pct(70) {
            continue;
        }
        a.push_str(&t[last..i]);
        b.push_str(&t[last..i]);
        last = i;
        for _ in 0..1 + s.n(3) {
            if s.bool() {
                a.push_str("zw");
                b.push('𝄞');
            } else {
                a.push('v');
                b.push('é');
            }
        }
    }
    a.push_str(&t[last..]);
    b.push_str(&t[last..]);
    (a, b)
}

fn widths(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut t = document(s).replace(['𝄞', 'é'], "");
    // something to ask about behind a string on its own line
    for _ in 0..s.n(3) {
        t.push_str(s.pick(&["\n{ k: \"a\" v: { w: 1 } u: v }.u", "\nf(x, y): \"s\" x y\ng: \"t\" f(1, 2)", "\nh: { a: \"p\" b: str.join }", "\n` \"doc\" n: \"x{m}y\" m: n", "\n` { doc: \"d\" type: \"number\" } q: 1", "\nr: \"q\" map(r)"]));
    }
    let (a, b) = twins(s, &t);
    let of: Vec<&'static str> = ALL.iter().copied().filter(|m| *m != "formatting" && *m != "rangeFormatting").collect();
    let qs: Vec<_> = (0..6 + s.n(10)).map(|_| question(s, &a, &of)).collect();
    ctx.case(format!("{b:?} {qs:?}"));
    if a != b {
        ctx.nt();
    }
    let norm = |v: &Value, uri: &str| anon(v, uri).replace("%F0%9D%84%9E", "zw").replace('𝄞', "zw").replace('é', "v");
    lsp::with(|c| {
        let (u, v) = (c.uri(), c.uri());
        c.open(&u, &a).map_err(|e| err("gone", e))?;
        c.open(&v, &b).map_err(|e| err("gone", e))?;
        for q in &qs {
            let x = put(c, &u, q)?;
            let y = put(c, &v, q)?;
            let (mut x, mut y) = (norm(&x, &u), norm(&y, &v));
            if matches!(q.0, "completion" | "codeAction") {
                x = bag(&x);
                y = bag(&y);
            }
            if x.len() > 4 {
                ctx.label(q.0);
            }
            if x != y {
                return fail("widths", format!("{} {} is answered differently about two texts whose places are the same\n  {a:?}\n  {}\n  {b:?}\n  {}", q.0, q.1, x.chars().take(1500).collect::<String>(), y.chars().take(1500).collect::<String>()));
            }
        }
        c.close(&u).map_err(|e| err("gone", e))?;
        c.close(&v).map_err(|e| err("gone", e))
    })
}

fn bag(x: &str) -> String {
    let v: Value = serde_json::from_str(x).unwrap_or(Value::Null);
    let mut l: Vec<String> = v.as_array().into_iter().flatten().map(|i| i.to_string()).collect();
    l.sort();
    l.join("\n")
}

// ------------------------------------------------------------- settled

const SAMPLES: &[&str] = &[
    "` { replaced-by: \"nf\" }\nof(x): x\nnf(x): x\n",
    "u: [of(3), 4 of]\n",
    "k: { s: \"é𝄞\" t: \"名\" of }\n",
    "v: min({}, {})\n",
    "{ w: min({}, { a: 1 }) }\n",
    "` { type: \"number\" }\nn: \"é\"\n",
    "x: { a: \"𝄞\" ` { type: \"string\" } b: 3 }\n",
    "` { type: \"number -> number\" }\nf(x): x + 1\ny: { s: \"名𝄞\" r: f(\"a\") }\n",
    "# é𝄞\n",
    "j: (1 + + 2)\n",
    "\"é\": \n",
    "q: \"é\" str.join\n",
    "r: \"é\" (1 ± 2)\n",
];

/// A program with something to say about it.
fn program(s: &mut Src) -> String {
    let mut t = match s.n(5) {
        0 => document(s),
        1 => annotated(s, true).0,
        _ => String::new(),
    };
    for _ in 0..s.n(4) {
        t.push_str(s.pick(SAMPLES));
    }
    // imports are looked for among the files, and a program is not its own
    // prelude
    t.replace("import", "impart")
}

/// What `eu check` finds in a program, as the client should be told it.
fn expected(t: &str) -> Result<Vec<(String, String)>, String> {
    let (ws, _) = crate::props::c19::findings(t, true)?;
    let mut v: Vec<(String, String)> = ws
        .into_iter()
        .map(|(m, e, f, _, at)| {
            let m = match (e, f) {
                (Some(e), Some(f)) => format!("{m}: expected {e}, found {f}"),
                _ => m,
            };
            let (a, b) = at.unwrap_or((0, 0));
            (lsp::jrange(t, a, b).to_string(), m)
        })
        .collect();
    v.sort();
    Ok(v)
}

fn settled(s: &mut Src, ctx: &mut Ctx) -> Res {
    // each document has an earlier text, which the server may or may not have
    // finished with when the later one arrives
    let docs: Vec<(String, Option<u64>, String)> = (0..4).map(|_| (program(s), if s.bool() { Some(*s.pick(&[0, 200, 400, 700, 1500])) } else { None }, program(s))).collect();
    let qs: Vec<Vec<_>> = docs.iter().map(|d| (0..6).map(|_| question(s, &d.2, ALL)).collect()).collect();
    ctx.case(format!("{docs:?} {qs:?}"));
    let gone = |e| err("gone", e);
    lsp::with(|c| {
        let uris: Vec<(String, String)> = docs.iter().map(|_| (c.uri(), c.uri())).collect();
        for (d, u) in docs.iter().zip(&uris) {
            if d.1.is_some() {
                c.open(&u.0, &d.0).map_err(gone)?;
            }
        }
        let start = std::time::Instant::now();
        let mut order: Vec<usize> = (0..docs.len()).collect();
        order.sort_by_key(|i| docs[*i].1);
        let mut since = vec![0; docs.len()];
        let cheap = ("documentHighlight", json!({"position": {"line": 0, "character": 0}}));
        for i in order {
            let (d, u) = (&docs[i], &uris[i]);
            match d.1 {
                None => c.open(&u.0, &d.2).map_err(gone)?,
                Some(ms) => {
                    while start.elapsed().as_millis() < u128::from(ms) {
                        std::thread::sleep(std::time::Duration::from_millis(10));
                    }
                    c.notify("textDocument/didChange", json!({"textDocument": {"uri": u.0, "version": 2}, "contentChanges": [{"text": d.2}]})).map_err(gone)?;
                }
            }
            put(c, &u.0, &cheap)?;
            since[i] = c.published.len();
        }
        for (d, u) in docs.iter().zip(&uris) {
            c.open(&u.1, &d.2).map_err(gone)?;
        }
        let fresh = c.published.len();
        let end = std::time::Instant::now() + std::time::Duration::from_secs(25);
        loop {
            put(c, &uris[0].0, &cheap)?;
            let n = |u: &str, from: usize| c.published[from..].iter().filter(|p| p.0 == u).count();
            let waiting: Vec<usize> = (0..docs.len()).filter(|i| (docs[*i].1.is_none() || docs[*i].0 != docs[*i].2) && n(&uris[*i].0, since[*i]) == 0 || n(&uris[*i].1, fresh) < 2).collect();
            if waiting.is_empty() {
                break;
            }
            if std::time::Instant::now() > end {
                return fail("unsettled", format!("the server says nothing about {:?}", waiting.iter().map(|i| &docs[*i].2).collect::<Vec<_>>()));
            }
            std::thread::sleep(std::time::Duration::from_millis(30));
        }
        for ((d, u), qs) in docs.iter().zip(&uris).zip(&qs) {
            let t = &d.2;
            let last = |u: &str| c.published.iter().rev().find(|p| p.0 == *u).map(|p| p.1.clone()).unwrap_or(Value::Null);
            let (a, b) = (last(&u.0), last(&u.1));
            if a != b {
                return fail("stale", format!("the diagnostics of {t:?} settle on\n  {a}\n  with this history (before: {:?}, changed after {:?} ms), and for a new document on\n  {b}", d.0, d.1));
            }
            if diag_places(&a, "eucalypt") != parse_diags(t) {
                return fail("parse-errors", format!("{t:?}\n  {a}"));
            }
            for x in a.as_array().into_iter().flatten() {
                if lsp::range(t, &x["range"]).is_none() {
                    return fail("place", format!("a diagnostic of {t:?} is not in it\n  {x}"));
                }
            }
            let mut got: Vec<(String, String)> = a.as_array().into_iter().flatten().filter(|x| x["source"] == "eucalypt-types").map(|x| (json!({"start": x["range"]["start"], "end": x["range"]["end"]}).to_string(), x["message"].as_str().unwrap_or("").to_string())).collect();
            got.sort();
            let refused = a.as_array().into_iter().flatten().any(|x| x["source"] == "eucalypt-pipeline");
            if parse_unit(t).errors().is_empty() {
                match expected(t) {
                    Ok(w) => {
                        if !w.is_empty() {
                            ctx.nt();
                        }
                        ctx.label(if w.is_empty() { "nothing to warn about" } else { "warnings" });
                        if refused || w != got {
                            return fail("warnings", format!("`eu check` says {w:?}\n  the server {a}\n  about {t:?}"));
                        }
                    }
                    Err(e) => {
                        ctx.label("refused");
                        if !refused {
                            return fail("refused", format!("`eu check` refuses {t:?} ({e}) but the server does not: {a}"));
                        }
                    }
                }
            } else {
                ctx.label("parse errors");
            }
            for q in qs {
                let (x, y) = (put(c, &u.0, q)?, put(c, &u.1, q)?);
                let mut same = anon(&x, &u.0) == anon(&y, &u.1);
                if matches!(q.0, "completion" | "codeAction") {
                    let bag = |v: &Value, u: &str| {
                        let mut l: Vec<String> = v.as_array().into_iter().flatten().map(|i| anon(i, u)).collect();
                        l.sort();
                        l
                    };
                    same = bag(&x, &u.0) == bag(&y, &u.1);
                }
                if !same {
                    return fail("differs", format!("{} {} is answered differently for a document with this history (before: {:?}, changed after {:?} ms) than for a new one with the text {t:?}\n  {}\n  {}", q.0, q.1, d.0, d.1, anon(&x, &u.0), anon(&y, &u.1)));
                }
                judge(c, t, &u.0, q, &x).map_err(|e| err(q.0, format!("{} {}\n  {e}\n  {t:?}", q.0, q.1)))?;
            }
        }
        for u in &uris {
            c.close(&u.0).map_err(gone)?;
            c.close(&u.1).map_err(gone)?;
        }
        Ok(())
    })
}

/// A document that imports another: what is wrong with the other is not put
/// at a place of this one.
fn imports(s: &mut Src, ctx: &mut Ctx) -> Res {
    let lib = |s: &mut Src| -> String { (0..1 + s.n(4)).map(|_| *s.pick(&SAMPLES[..9])).chain(["z: 1\n"]).collect() };
    const USES: &[&str] = &["u1: [z, n]\n", "u2: u v\n", "m1: min({}, {})\n", "# é𝄞\n", "` { type: \"number\" } m2: \"é𝄞\"\n", "u3: [k, x, y]\n", "u4: { s: \"𝄞\" t: 3 of }\n", "u5: w\n"];
    let text = |s: &mut Src| -> String { (0..1 + s.n(6)).map(|_| *s.pick(USES)).collect() };
    let libs: Vec<(String, String)> = (0..3).map(|_| (lib(s), text(s))).collect();
    ctx.case(format!("{libs:?}"));
    let gone = |e| err("gone", e);
    lsp::with(|c| {
        let mut docs = vec![];
        for (l, d) in &libs {
            let u = c.uri();
            let f = c.dir.join(format!("lib{}.eu", c.docs));
            std::fs::write(&f, l).unwrap();
            let t = format!("{{ import: \"{}\" }}\n{d}", f.display());
            c.open(&u, &t).map_err(gone)?;
            docs.push((u, t));
        }
        let end = std::time::Instant::now() + std::time::Duration::from_secs(25);
        let cheap = ("documentHighlight", json!({"position": {"line": 0, "character": 0}}));
        loop {
            put(c, &docs[0].0, &cheap)?;
            if docs.iter().all(|d| c.published.iter().filter(|p| p.0 == d.0).count() > 1) {
                break;
            }
            if std::time::Instant::now() > end {
                return fail("unsettled", format!("{docs:?}"));
            }
            std::thread::sleep(std::time::Duration::from_millis(30));
        }
        for ((u, t), (l, _)) in docs.iter().zip(&libs) {
            let got = c.published.iter().rev().find(|p| p.0 == *u).map(|p| p.1.clone()).unwrap();
            let (ws, _) = crate::props::c19::findings(t, true).map_err(|e| err("refused", format!("{e}\n{t:?}\n{l:?}")))?;
            let mut own: Vec<String> = ws.iter().filter_map(|w| w.4).map(|(a, b)| lsp::jrange(t, a, b).to_string()).collect();
            if own.len() < ws.len() {
                ctx.nt();
            }
            let start = lsp::jrange(t, 0, 0).to_string();
            let mut there: Vec<String> = diag_places(&got, "eucalypt-types").into_iter().map(|p| p.0).filter(|p| *p != start).collect();
            own.sort();
            there.sort();
            if own != there {
                return fail("places", format!("the warnings about {t:?}, which imports {l:?}, are at {own:?}, but the server has them at {there:?}: {got}"));
            }
            for q in ["definition", "hover", "references"] {
                for i in [0, t.len() / 2] {
                    let mut i = i;
                    while !t.is_char_boundary(i) {
                        i += 1;
                    }
                    put(c, u, &(q, json!({"position": lsp::jpos(lsp::pos(t, i)), "context": {"includeDeclaration": true}})))?;
                }
            }
            c.close(u).map_err(gone)?;
        }
        Ok(())
    })
}

pub fn prop() -> Prop {
    Prop {
        id: "C21",
        facets: vec![
            Facet { name: "session", rule: "a history with more than two changes", quick: 2000, thorough: 40000, run: session },
            Facet { name: "answers", rule: "a text that is not all ASCII", quick: 6000, thorough: 100000, run: answers },
            Facet { name: "widths", rule: "the two texts differ", quick: 2500, thorough: 60000, run: widths },
            Facet { name: "settled", rule: "there are warnings about a document", quick: 40, thorough: 2000, run: settled },
            Facet { name: "imports", rule: "there are warnings about an imported file", quick: 16, thorough: 600, run: imports },
        ],
        known: vec![],
        assumptions: vec![],
    }
}
