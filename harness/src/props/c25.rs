//! C25: programs of many files and inputs.

use crate::engine::{fail, Ctx, Facet, Prop, Res, Src};
use crate::ev::V;
use crate::props::c02::{eu, scratch};
use crate::props::c17::read_json;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

// ---------------------------------------------------------------- model

#[derive(Clone, Debug, PartialEq)]
enum Val {
    Int(i64),
    Str(String),
    /// adds this to its argument
    Fun(i64),
    List(Vec<Val>),
    Block(Vec<Field>),
}

#[derive(Clone, Debug, PartialEq)]
struct Field {
    name: String,
    val: Val,
    shown: bool,
}

type Scope = Vec<(String, Option<Val>)>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Eu,
    Toml,
    Edn,
    Csv,
    Text,
}

impl Kind {
    fn tag(self) -> &'static str {
        match self {
            Kind::Eu => "eu",
            Kind::Toml => "toml",
            Kind::Edn => "edn",
            Kind::Csv => "csv",
            Kind::Text => "text",
        }
    }
    fn ext(self) -> &'static str {
        match self {
            Kind::Text => "txt",
            k => k.tag(),
        }
    }
    fn list(self) -> bool {
        matches!(self, Kind::Csv | Kind::Text)
    }
}

#[derive(Clone, Debug)]
struct File {
    /// directory and file name, from the root
    dir: &'static str,
    base: String,
    kind: Kind,
    text: String,
    /// what importers see
    val: Val,
    /// names bound by its own imports, which importers may or may not see
    leak: Vec<String>,
    targets: Vec<Tgt>,
    /// targets in what its unit imports
    imported: Vec<Tgt>,
}

/// A target: its name, the top-level name it is found under, and its value
/// where that is settled
#[derive(Clone, Debug)]
struct Tgt {
    name: String,
    head: String,
    val: Option<Val>,
}

impl File {
    fn path(&self) -> String {
        join(self.dir, &self.base)
    }
    fn lies(&self) -> bool {
        !self.base.ends_with(&format!(".{}", self.kind.ext()))
    }
    /// all the targets, if the file is given a name and if not
    fn reachable(&self, name: Option<&str>) -> Vec<Tgt> {
        let mut all = self.targets.clone();
        match name {
            Some(n) => all.iter_mut().for_each(|t| t.head = n.to_string()),
            None => all.splice(0..0, self.imported.clone()).for_each(drop),
        }
        all
    }
    fn fields(&self) -> &[Field] {
        match &self.val {
            Val::Block(f) => f,
            _ => &[],
        }
    }
}

fn join(dir: &str, base: &str) -> String {
    if dir.is_empty() {
        base.to_string()
    } else {
        format!("{dir}/{base}")
    }
}

const NAMES: &[&str] = &["alpha", "beta", "gamma", "delta", "eps", "zeta", "k1", "k2", "half-way", "ok?", "x'y z", "été"];
const DIRS: &[&str] = &["", "", "a", "b", "a/b", "l1", "l2", "l1/a"];
const BASES: &[&str] = &["m", "h", "u", "w", "mod-x"];
const LIBS: &[&str] = &["l1", "l2"];

fn spelt(n: &str) -> String {
    if let Some(rest) = n.strip_prefix("x'") {
        format!("'x{rest}'")
    } else {
        n.to_string()
    }
}
fn key(n: &str) -> String {
    n.replace('\'', "")
}

struct World {
    files: Vec<File>,
    libs: Vec<&'static str>,
    /// from a git repository
    git: bool,
    imports: usize,
    shadowed: bool,
    crossed: bool,
    /// something is suppressed or internal: values keep that quality under
    /// another name
    hidden: bool,
}

fn normal(path: &str) -> Option<String> {
    let mut out: Vec<&str> = vec![];
    for p in path.split('/') {
        match p {
            "." | "" => {}
            ".." => {
                out.pop()?;
            }
            p => out.push(p),
        }
    }
    Some(out.join("/"))
}

impl World {
    fn at(&self, path: &str) -> Option<usize> {
        let p = normal(path)?;
        self.files.iter().position(|f| f.path() == p)
    }
    /// which file an import means, where that is settled
    fn resolve(&self, dir: &str, spelt: &str) -> Option<usize> {
        if let Some(i) = self.at(&join(dir, spelt)) {
            return Some(i);
        }
        if self.git {
            return None;
        }
        let lib = self.libs.iter().find_map(|l| self.at(&join(l, spelt)));
        let cwd = self.at(spelt);
        match (lib, cwd) {
            (Some(a), Some(b)) if a != b => None,
            (a, b) => a.or(b),
        }
    }
    /// ways to write an import of a file
    fn spellings(&self, dir: &str, target: usize) -> Vec<String> {
        let t = self.files[target].path();
        let mut ways = vec![];
        let mut up = String::new();
        let mut d = dir.to_string();
        loop {
            if d.is_empty() {
                ways.push(format!("{up}{t}"));
                break;
            }
            if let Some(rest) = t.strip_prefix(&format!("{d}/")) {
                ways.push(format!("{up}{rest}"));
                break;
            }
            d = d.rsplit_once('/').map(|x| x.0.to_string()).unwrap_or_default();
            up += "../";
        }
        for l in self.libs.iter().chain([&""]) {
            if let Some(rest) = t.strip_prefix(&if l.is_empty() { String::new() } else { format!("{l}/") }) {
                ways.push(rest.to_string());
            }
        }
        ways.retain(|w| self.resolve(dir, w) == Some(target));
        ways.dedup();
        ways
    }
}

// ---------------------------------------------------------------- expressions

fn lookup<'a>(scopes: &'a [Scope], name: &str) -> Option<&'a Val> {
    scopes.iter().rev().find_map(|sc| sc.iter().find(|(n, _)| n == name)).and_then(|(_, v)| v.as_ref())
}

/// Ways to reach a number: text, and the number or what a function adds.
fn reach(text: String, v: &Val, depth: usize, out: &mut Vec<(String, bool, i64)>) {
    match v {
        Val::Int(n) => out.push((text, false, *n)),
        Val::Fun(n) => out.push((text, true, *n)),
        Val::Str(t) => {
            if let Ok(n) = t.parse() {
                out.push((format!("({text} num)"), false, n))
            }
        }
        Val::List(items) => {
            for (i, v) in items.iter().enumerate() {
                reach(format!("({text} nth({i}))"), v, depth, out)
            }
        }
        Val::Block(fs) => {
            if depth > 0 {
                for f in fs {
                    reach(format!("{text}.{}", spelt(&f.name)), &f.val, depth - 1, out)
                }
            }
        }
    }
}

fn expr(s: &mut Src, scopes: &[Scope], w: &mut World, depth: usize) -> (String, i64) {
    if depth > 0 && s.pct(25) {
        let (a, m) = expr(s, scopes, w, depth - 1);
        let (b, n) = expr(s, scopes, w, depth - 1);
        return (format!("({a} + {b})"), m + n);
    }
    let mut names: Vec<&String> = scopes.iter().flatten().map(|x| &x.0).collect();
    names.sort();
    names.dedup();
    names.retain(|n| lookup(scopes, n).is_some());
    if names.is_empty() || s.pct(12) {
        let n = s.below(1000) as i64;
        return (n.to_string(), n);
    }
    let n = names[s.n(names.len())].clone();
    if scopes.iter().filter(|sc| sc.iter().any(|(m, v)| *m == n && v.is_some())).count() > 1 {
        w.shadowed = true;
    }
    let mut ways = vec![];
    reach(spelt(&n), lookup(scopes, &n).unwrap(), 3, &mut ways);
    if ways.is_empty() {
        return ("7".into(), 7);
    }
    let (t, fun, k) = ways[s.n(ways.len())].clone();
    if !fun {
        return (if w.hidden { format!("({t} + 0)") } else { t }, k);
    }
    let (a, m) = if depth > 0 { expr(s, scopes, w, depth - 1) } else { ("5".into(), 5) };
    (format!("{t}({a})"), m + k)
}

// ---------------------------------------------------------------- units

/// An import: how it is written and the scopes it brings.
fn import(s: &mut Src, w: &mut World, dir: &str, limit: usize) -> Option<(String, Vec<Scope>, Vec<Tgt>)> {
    if limit == 0 {
        return None;
    }
    let t = s.n(limit);
    let ways = w.spellings(dir, t);
    if ways.is_empty() {
        return None;
    }
    let way = ways[s.n(ways.len())].clone();
    let f = w.files[t].clone();
    let way = if !w.git && s.pct(8) && !way.starts_with('.') { format!("./{way}") } else { way };
    w.imports += 1;
    if !w.git && w.files.iter().filter(|g| g.base == f.base).count() > 1 {
        w.crossed = true;
    }
    let fmt = if f.lies() || s.pct(8) { format!("{}@", f.kind.tag()) } else { String::new() };
    if f.kind.list() || s.pct(35) {
        let n = NAMES[s.n(8)];
        return Some((format!("\"{n}={fmt}{way}\""), vec![vec![(n.to_string(), Some(f.val.clone()))]], f.reachable(Some(n))));
    }
    let leak: Scope = f.leak.iter().map(|n| (n.clone(), None)).collect();
    let own: Scope = f.fields().iter().map(|x| (x.name.clone(), Some(x.val.clone()))).collect();
    Some((format!("\"{fmt}{way}\""), vec![leak, own], f.reachable(None)))
}

fn imports(s: &mut Src, w: &mut World, dir: &str, limit: usize, max: usize) -> (Option<String>, Vec<Scope>, Vec<Tgt>) {
    let mut texts = vec![];
    let mut scopes = vec![];
    let mut targets = vec![];
    for _ in 0..s.n(max + 1) {
        if let Some((t, sc, tg)) = import(s, w, dir, limit) {
            texts.push(t);
            unsettle(&mut targets, &sc);
            targets.extend(tg);
            scopes.extend(sc);
        }
    }
    let text = match texts.len() {
        0 => None,
        1 if s.bool() => Some(texts.remove(0)),
        _ => Some(format!("[{}]", texts.join(if s.bool() { ", " } else { " , " }))),
    };
    (text, scopes, targets)
}

/// Targets found under names that now mean something else are not claimed.
fn unsettle(targets: &mut [Tgt], by: &[Scope]) {
    for t in targets {
        if by.iter().flatten().any(|x| x.0 == t.head) {
            t.val = None;
        }
    }
}

struct Made {
    /// declarations
    text: String,
    fields: Vec<Field>,
    /// whether it is better not to refer to them
    targets: Vec<Tgt>,
}

impl Made {
    fn scope(&self) -> Scope {
        self.fields.iter().map(|f| (f.name.clone(), None)).collect()
    }
}

struct Cfg {
    dir: String,
    limit: usize,
    targets: bool,
}

fn block(s: &mut Src, w: &mut World, scopes: &mut Vec<Scope>, c: &Cfg, depth: usize, indent: &str, target_ok: bool) -> Made {
    let n = 1 + s.n(if depth == 0 { 4 } else { 3 }) as usize;
    let mut names: Vec<String> = vec![];
    while names.len() < n {
        let m = NAMES[s.n(NAMES.len())].to_string();
        if !names.contains(&m) {
            names.push(m);
        }
    }
    let mut order: Vec<usize> = (0..n).collect();
    s.shuffle(&mut order);
    scopes.push(names.iter().map(|n| (n.clone(), None)).collect());
    let mut decls: Vec<(String, Option<Field>)> = vec![(String::new(), None); n];
    let mut targets = vec![];
    for i in order {
        let name = names[i].clone();
        let (imp, extra, _) = if s.pct(15) { imports(s, w, &c.dir, c.limit, 2) } else { (None, vec![], vec![]) };
        let base = scopes.len();
        scopes.extend(extra);
        let vis = s.weighted(&[80, 12, 8]);
        w.hidden |= vis > 0;
        let kind = s.weighted(&[60, if depth < 2 { 25 } else { 0 }, if name.contains('\'') { 0 } else { 15 }]);
        let target = target_ok && c.targets && vis == 0 && kind != 2 && s.pct(25);
        let (head, body, val) = match kind {
            0 => {
                let (t, v) = expr(s, scopes, w, 2);
                (spelt(&name), t, Val::Int(v))
            }
            1 => {
                let (im, ex, _) = if s.pct(20) { imports(s, w, &c.dir, c.limit, 2) } else { (None, vec![], vec![]) };
                let b2 = scopes.len();
                scopes.extend(ex);
                let deeper = format!("{indent}  ");
                let m = block(s, w, scopes, c, depth + 1, &deeper, false);
                scopes.truncate(b2);
                let meta = im.map(|i| format!("\n{deeper}{{ import: {i} }}")).unwrap_or_default();
                (spelt(&name), format!("{{{meta}\n{}{indent}}}", m.text), Val::Block(m.fields))
            }
            _ => {
                let (t, v) = expr(s, scopes, w, 1);
                (format!("{}(arg)", spelt(&name)), format!("arg + {t}"), Val::Fun(v))
            }
        };
        scopes.truncate(base);
        let mut meta = vec![];
        if let Some(i) = &imp {
            meta.push(format!("import: {i}"));
        }
        if target {
            let tn = if s.pct(25) && !targets.iter().any(|t: &Tgt| t.name == "main") { "main".to_string() } else { format!("t{}", targets.len()) };
            meta.push(format!("target: :{tn}"));
            targets.push(Tgt { name: tn, head: name.clone(), val: Some(val.clone()) });
        }
        let vtag = ["", ":suppress", ":internal"][vis];
        if vis > 0 && (!meta.is_empty() || s.bool()) {
            meta.push(format!("export: {vtag}"));
        }
        if s.pct(10) {
            meta.push("doc: \"some words\"".into());
        }
        let mut text = String::new();
        if !meta.is_empty() && (vis == 0 || meta.iter().any(|m| m.starts_with("export"))) {
            text += &format!("{indent}` {{ {} }}\n", meta.join("  "));
        } else if vis > 0 {
            text += &format!("{indent}` {vtag}\n");
        }
        text += &format!("{indent}{head}: {body}\n");
        let f = Field { name: name.clone(), val: val.clone(), shown: vis == 0 };
        decls[i] = (text, (vis < 2).then_some(f));
        let own = scopes.last_mut().unwrap();
        own.iter_mut().find(|x| x.0 == name).unwrap().1 = Some(val);
    }
    scopes.pop();
    Made { text: decls.iter().map(|d| d.0.as_str()).collect(), fields: decls.into_iter().filter_map(|d| d.1).collect(), targets }
}

fn unit(s: &mut Src, w: &mut World, outer: &[Scope], dir: &'static str, base: String, targets: bool) -> File {
    let limit = w.files.len();
    let c = Cfg { dir: dir.to_string(), limit, targets };
    let (imp, sc, mut imported) = if s.pct(70) { imports(s, w, dir, limit, 3) } else { (None, vec![], vec![]) };
    let leak = sc.iter().flatten().map(|x| x.0.clone()).collect();
    let mut scopes = outer.to_vec();
    scopes.extend(sc);
    let m = block(s, w, &mut scopes, &c, 0, "", true);
    unsettle(&mut imported, &[m.scope()]);
    let meta = match imp {
        Some(i) if s.pct(20) => format!("{{ doc: \"a unit\"\n  import: {i} }}\n\n"),
        Some(i) => format!("{{ import: {i} }}\n"),
        None => String::new(),
    };
    File { dir, base, kind: Kind::Eu, text: format!("{meta}{}", m.text), val: Val::Block(m.fields), leak, targets: m.targets, imported }
}

fn data(s: &mut Src, kind: Kind, dir: &'static str, base: String) -> File {
    let mut names: Vec<&str> = NAMES[..9].to_vec();
    s.shuffle(&mut names);
    names.truncate(1 + s.n(3) as usize);
    let num = |s: &mut Src| s.below(1000) as i64;
    let field = |n: &str, val| Field { name: n.to_string(), val, shown: true };
    let (text, val) = match kind {
        Kind::Toml | Kind::Edn => {
            let mut fs: Vec<Field> = names.iter().map(|n| field(n, Val::Int(num(s)))).collect();
            let sub = s.bool().then(|| vec![field("k1", Val::Int(num(s))), field("k2", Val::Int(num(s)))]);
            let line = |f: &Field| match (&f.val, kind) {
                (Val::Int(n), Kind::Toml) => format!("{} = {n}\n", f.name),
                (Val::Int(n), _) => format!(" :{} {n}", f.name),
                _ => unreachable!(),
            };
            let mut t: String = fs.iter().map(line).collect();
            if let Some(sub) = sub {
                let inner: String = sub.iter().map(line).collect();
                let taken = fs.iter().any(|f| f.name == "gamma");
                let n = if taken { "eta" } else { "gamma" };
                t += &if kind == Kind::Toml { format!("[{n}]\n{inner}") } else { format!(" :{n} {{{inner}}}") };
                fs.push(field(n, Val::Block(sub)));
            }
            (if kind == Kind::Edn { format!("{{{t}}}\n") } else { t }, Val::Block(fs))
        }
        Kind::Csv => {
            let mut t = names.join(",") + "\n";
            let mut rows = vec![];
            for _ in 0..1 + s.n(3) {
                let r: Vec<Field> = names.iter().map(|n| field(n, Val::Str(num(s).to_string()))).collect();
                t += &r.iter().map(|f| if let Val::Str(t) = &f.val { t.as_str() } else { "" }).collect::<Vec<_>>().join(",");
                t += "\n";
                rows.push(Val::Block(r));
            }
            (t, Val::List(rows))
        }
        _ => {
            let l: Vec<i64> = (0..1 + s.n(4)).map(|_| num(s)).collect();
            (l.iter().map(|n| format!("{n}\n")).collect(), Val::List(l.iter().map(|n| Val::Str(n.to_string())).collect()))
        }
    };
    File { dir, base, kind, text, val, leak: vec![], targets: vec![], imported: vec![] }
}

fn fresh(s: &mut Src, w: &World, kind: Kind) -> Option<(&'static str, String)> {
    for _ in 0..6 {
        let d = if w.git { DIRS[s.n(5)] } else { DIRS[s.n(DIRS.len())] };
        let ext = if s.pct(8) { "dat" } else { kind.ext() };
        let b = format!("{}.{ext}", BASES[s.n(BASES.len())]);
        if w.at(&join(d, &b)).is_none() {
            return Some((d, b));
        }
    }
    None
}

fn world(s: &mut Src, git: bool) -> World {
    let mut libs = LIBS.to_vec();
    s.shuffle(&mut libs);
    libs.truncate(s.n(3) as usize);
    let mut w = World { files: vec![], libs, git, imports: 0, shadowed: false, crossed: false, hidden: false };
    // places are settled before anything is written, so that a file added
    // later does not change what an earlier import means
    let n = 1 + s.n(7) as usize;
    let mut places = vec![];
    for _ in 0..n {
        let kind = [Kind::Eu, Kind::Toml, Kind::Edn, Kind::Csv, Kind::Text][s.weighted(&[64, 12, 8, 8, 8])];
        if let Some((d, b)) = fresh(s, &w, kind) {
            w.files.push(File { dir: d, base: b.clone(), kind, text: String::new(), val: Val::Int(0), leak: vec![], targets: vec![], imported: vec![] });
            places.push((d, b, kind));
        }
    }
    for i in 0..places.len() {
        let (d, b, kind) = places[i].clone();
        let f = if kind == Kind::Eu {
            let saved = w.files.split_off(i);
            let blank: Vec<File> = saved.clone();
            // all files exist, but only earlier ones may be imported
            w.files.extend(blank);
            unit_at(s, &mut w, d, b, i)
        } else {
            data(s, kind, d, b)
        };
        w.files[i] = f;
    }
    w
}

fn unit_at(s: &mut Src, w: &mut World, dir: &'static str, base: String, limit: usize) -> File {
    let c = Cfg { dir: dir.to_string(), limit, targets: !w.git && s.pct(25) };
    let (imp, sc, mut imported) = if s.pct(75) { imports(s, w, dir, limit, 3) } else { (None, vec![], vec![]) };
    let leak = sc.iter().flatten().map(|x| x.0.clone()).collect();
    let mut scopes = sc;
    let m = block(s, w, &mut scopes, &c, 0, "", true);
    unsettle(&mut imported, &[m.scope()]);
    let meta = imp.map(|i| format!("{{ import: {i} }}\n")).unwrap_or_default();
    File { dir, base, kind: Kind::Eu, text: format!("{meta}{}", m.text), val: Val::Block(m.fields), leak, targets: m.targets, imported }
}

// ---------------------------------------------------------------- running

fn same(w: &Val, v: &V) -> bool {
    match (w, v) {
        (Val::Int(a), V::Int(b)) => *a as i128 == *b as i128,
        (Val::Str(a), V::Str(b)) => a == b,
        (Val::List(a), V::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b)),
        (Val::Block(a), V::Block(b)) => {
            let a: BTreeMap<String, &Val> = a.iter().filter(|f| f.shown && !matches!(f.val, Val::Fun(_))).map(|f| (key(&f.name), &f.val)).collect();
            a.len() == b.len() && b.iter().all(|(k, v)| k.key().and_then(|k| a.get(k)).is_some_and(|w| same(w, v)))
        }
        _ => false,
    }
}

fn write(dir: &Path, f: &File) {
    let p = dir.join(f.path());
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    std::fs::write(p, &f.text).unwrap();
}

fn show(files: &[File]) -> String {
    files.iter().map(|f| format!("--- {}\n{}", f.path(), f.text)).collect()
}

fn check(dir: &Path, args: &[String], stdin: Option<&str>, want: &Val) -> Res {
    let r = eu(dir, args, stdin);
    if r.code != Some(0) {
        return fail("refused", format!("exit {:?} where {want:?} was due\n{}", r.code, r.err));
    }
    match read_json(&r.out) {
        Ok(v) if same(want, &v) => Ok(()),
        Ok(v) => fail("result", format!("got {v:?}\nwant {want:?}")),
        Err(e) => fail("output", format!("{e}: {:?}", r.out)),
    }
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn dirs(w: &World, d: &Path) {
    for x in DIRS {
        std::fs::create_dir_all(d.join(x)).unwrap();
    }
    let _ = w;
}

fn lib_args(s: &mut Src, w: &World) -> Vec<String> {
    w.libs.iter().flat_map(|l| if s.bool() { vec!["-L".to_string(), l.to_string()] } else { vec![format!("-L{l}")] }).collect()
}

/// One input on the command line
struct Given {
    arg: String,
    file: File,
    name: Option<String>,
    stdin: bool,
}

fn scopes_of(g: &Given) -> Vec<Scope> {
    match &g.name {
        Some(n) => vec![vec![(n.clone(), Some(g.file.val.clone()))]],
        None => {
            let leak: Scope = g.file.leak.iter().map(|n| (n.clone(), None)).collect();
            vec![leak, g.file.fields().iter().map(|x| (x.name.clone(), Some(x.val.clone()))).collect()]
        }
    }
}

fn content(g: &Given) -> Val {
    match &g.name {
        Some(n) => Val::Block(vec![Field { name: n.clone(), val: g.file.val.clone(), shown: true }]),
        None => g.file.val.clone(),
    }
}

fn give(s: &mut Src, w: &mut World, i: usize, outer: &[Scope], stdin_used: &mut bool, targets: bool) -> Given {
    let stdin = !*stdin_used && s.pct(12);
    let kind = [Kind::Eu, Kind::Toml, Kind::Edn, Kind::Csv, Kind::Text][if targets { 0 } else { s.weighted(&[70, 12, 8, 5, 5]) }];
    // names that no import can mean
    let base = if s.pct(10) { format!("in put{i}.dat") } else { format!("in{i}.{}", kind.ext()) };
    let dir: &'static str = if stdin { "" } else { DIRS[s.n(DIRS.len())] };
    let file = if kind == Kind::Eu && !stdin {
        unit(s, w, outer, dir, base, targets)
    } else if kind == Kind::Eu {
        // relative to the working directory
        unit(s, w, outer, "", base, targets)
    } else {
        data(s, kind, dir, base)
    };
    *stdin_used |= stdin;
    let name = (kind.list() || s.pct(25)).then(|| NAMES[s.n(8)].to_string());
    let path = if stdin { "-".to_string() } else if s.pct(10) { format!("./{}", file.path()) } else { file.path() };
    let fmt = if stdin || file.lies() || s.pct(8) { format!("{}@", kind.tag()) } else { String::new() };
    let arg = format!("{}{fmt}{path}", name.as_ref().map(|n| format!("{n}=")).unwrap_or_default());
    Given { arg, file, name, stdin }
}

/// The targets of all inputs, and whether each is an input's own
fn all_targets(given: &[Given], collected: bool) -> Vec<(bool, Tgt)> {
    let mut all: Vec<(bool, Tgt)> = vec![];
    for g in given {
        if !collected {
            for (_, t) in all.iter_mut() {
                unsettle(std::slice::from_mut(t), &scopes_of(g));
            }
        }
        let own = g.file.targets.len();
        let r = if collected { g.file.targets.clone() } else { g.file.reachable(g.name.as_deref()) };
        let imported = r.len() - own;
        all.extend(r.into_iter().enumerate().map(|(i, t)| (i >= imported, t)));
    }
    all
}

fn asked(s: &mut Src, tgts: &[(bool, Tgt)]) -> Option<String> {
    (!tgts.is_empty() && s.pct(40)).then(|| tgts[s.n(tgts.len())].1.name.clone())
}

/// What a target is, where that is settled: the last of the inputs' own, or
/// the only imported one
fn target(tgts: &[(bool, Tgt)], name: &str) -> Option<Val> {
    if let Some((_, t)) = tgts.iter().rev().find(|t| t.0 && t.1.name == name) {
        return t.val.clone();
    }
    let mut all = tgts.iter().filter(|t| t.1.name == name);
    let first = all.next()?;
    if all.next().is_some() {
        return None;
    }
    first.1.val.clone()
}

fn files(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut w = world(s, false);
    let mut stdin_used = false;
    let n = 1 + s.weighted(&[60, 30, 10]);
    let mut given: Vec<Given> = vec![];
    let mut scopes: Vec<Scope> = vec![];
    let collect = s.pct(15);
    for i in 0..n {
        let outer = if collect { vec![] } else { scopes.clone() };
        let targets = s.pct(30);
        let g = give(s, &mut w, i, &outer, &mut stdin_used, targets);
        scopes.extend(scopes_of(&g));
        given.push(g);
    }
    let mut args = lib_args(s, &w);
    args.push("-j".into());
    let mut want;
    let last = given.last().unwrap();
    let mut how = "plain";
    if collect {
        how = "collected";
        let cname = *s.pick(&["inputs", "all"]);
        args.push(s.pick(&["-c", "--collect-as"]).to_string());
        args.push(cname.into());
        let by_name = s.bool();
        let col = if by_name {
            args.push(s.pick(&["-N", "--name-inputs"]).to_string());
            Val::Block(
                given
                    .iter()
                    .map(|g| Field {
                        name: g.name.clone().unwrap_or_else(|| g.arg.rsplit('@').next().unwrap().to_string()),
                        val: content(g),
                        shown: true,
                    })
                    .collect(),
            )
        } else {
            Val::List(given.iter().map(content).collect())
        };
        if let Val::Block(fs) = &col {
            let mut ns: Vec<&String> = fs.iter().map(|f| &f.name).collect();
            ns.sort();
            ns.dedup();
            if ns.len() < fs.len() {
                return Ok(());
            }
        }
        want = Val::Block(vec![Field { name: cname.into(), val: col, shown: true }]);
        let tgts = if by_name { all_targets(&given, true) } else { vec![] };
        let asked = asked(s, &tgts);
        if let Some(t) = asked {
            how = "collected, target";
            args.push("-t".into());
            args.push(t.clone());
            let Some(v) = target(&tgts, &t) else { return Ok(()) };
            want = v;
        } else if s.bool() {
            how = "collected, evaluand";
            args.push("-e".into());
            args.push(cname.into());
            let Val::Block(mut fs) = want else { unreachable!() };
            want = fs.remove(0).val;
        } else if tgts.iter().any(|t| t.1.name == "main") {
            how = "collected, main target";
            let Some(v) = target(&tgts, "main") else { return Ok(()) };
            want = v;
        }
    } else if s.pct(30) {
        how = "evaluand";
        let (t, v) = expr(s, &scopes, &mut w, 2);
        args.push(s.pick(&["-e", "--eval"]).to_string());
        if s.bool() {
            args.push(t);
            want = Val::Int(v);
        } else {
            args.push(format!("{{ r: {t} }}"));
            want = Val::Block(vec![Field { name: "r".into(), val: Val::Int(v), shown: true }]);
        }
    } else {
        let tgts = all_targets(&given, false);
        if let Some(t) = asked(s, &tgts) {
            how = "target";
            args.push(s.pick(&["-t", "--target"]).to_string());
            args.push(t.clone());
            let Some(v) = target(&tgts, &t) else { return Ok(()) };
            want = v;
        } else if tgts.iter().any(|t| t.1.name == "main") {
            how = "main target";
            let Some(v) = target(&tgts, "main") else { return Ok(()) };
            want = v;
        } else {
            want = content(last);
        }
    }
    // files come after options or before
    let inputs: Vec<String> = given.iter().map(|g| g.arg.clone()).collect();
    if s.bool() {
        args = inputs.iter().cloned().chain(args).collect();
    } else {
        args.extend(inputs.iter().cloned());
    }
    if s.pct(20) {
        args.insert(0, "run".into());
    }
    let stdin = given.iter().find(|g| g.stdin).map(|g| g.file.text.clone());
    let mut all = w.files.clone();
    all.extend(given.iter().map(|g| g.file.clone()));
    let t = format!("eu {args:?}\n{}", show(&all));
    ctx.case(t);
    ctx.label(how);
    if given.len() > 1 {
        ctx.label("several inputs");
    }
    if stdin.is_some() {
        ctx.label("stdin");
    }
    if w.imports > 0 {
        ctx.label("imports");
    }
    if w.shadowed {
        ctx.label("shadowing");
    }
    if w.crossed {
        ctx.label("same file name in several directories");
    }
    if w.imports > 0 || given.len() > 1 {
        ctx.nt();
    }
    let d = Scratch(scratch());
    dirs(&w, &d.0);
    for f in &w.files {
        write(&d.0, f);
    }
    for g in given.iter().filter(|g| !g.stdin) {
        write(&d.0, &g.file);
    }
    check(&d.0, &args, stdin.as_deref(), &want)
}

// ---------------------------------------------------------------- git

fn git(dir: &Path, args: &[&str]) -> Result<String, String> {
    let o = std::process::Command::new("git")
        .args(args)
        .current_dir(dir)
        .env("HOME", dir)
        .env("GIT_CONFIG_NOSYSTEM", "1")
        .env("GIT_AUTHOR_NAME", "x")
        .env("GIT_AUTHOR_EMAIL", "x@example.invalid")
        .env("GIT_COMMITTER_NAME", "x")
        .env("GIT_COMMITTER_EMAIL", "x@example.invalid")
        .output()
        .map_err(|e| e.to_string())?;
    if !o.status.success() {
        return Err(String::from_utf8_lossy(&o.stderr).into_owned());
    }
    Ok(String::from_utf8_lossy(&o.stdout).trim().to_string())
}

fn pinned(s: &mut Src, ctx: &mut Ctx) -> Res {
    let w = world(s, true);
    let d = Scratch(scratch());
    let repo = d.0.join("repo");
    let here = d.0.join("here");
    std::fs::create_dir_all(&repo).unwrap();
    std::fs::create_dir_all(&here).unwrap();
    for f in &w.files {
        write(&repo, f);
    }
    let step = |a: &[&str]| git(&repo, a);
    let made = (|| {
        step(&["init", "-q", "."])?;
        step(&["add", "-A"])?;
        step(&["commit", "-q", "-m", "one"])?;
        let sha = step(&["rev-parse", "HEAD"])?;
        // later history says something else
        for f in &w.files {
            let mut f = f.clone();
            f.text = f.text.chars().map(|c| if c.is_ascii_digit() { '9' } else { c }).collect();
            write(&repo, &f);
        }
        step(&["add", "-A"])?;
        step(&["commit", "-q", "--allow-empty", "-m", "two"])?;
        Ok::<String, String>(sha)
    })();
    let sha = match made {
        Ok(x) => x,
        Err(e) => {
            ctx.case("git");
            ctx.label(format!("git: {e}"));
            ctx.inconclusive = true;
            return Ok(());
        }
    };
    // decoys where the program is
    for f in &w.files {
        if s.bool() {
            let mut f = f.clone();
            f.text = f.text.chars().map(|c| if c.is_ascii_digit() { '8' } else { c }).collect();
            write(&here, &f);
        }
    }
    let mut scopes: Vec<Scope> = vec![];
    let mut texts = vec![];
    for _ in 0..1 + s.n(2) {
        let f = w.files[s.n(w.files.len())].clone();
        if f.lies() {
            continue;
        }
        let name = (f.kind.list() || s.bool()).then(|| NAMES[s.n(8)].to_string());
        let g = Given { arg: String::new(), file: f.clone(), name: name.clone(), stdin: false };
        texts.push(format!(
            "{{ git: \"file://{}\" commit: \"{sha}\" import: \"{}{}\" }}",
            repo.display(),
            name.map(|n| format!("{n}=")).unwrap_or_default(),
            f.path()
        ));
        scopes.extend(scopes_of(&g));
    }
    if texts.is_empty() {
        return Ok(());
    }
    let mut w = w;
    let (t, v) = expr(s, &scopes, &mut w, 2);
    let main = format!("{{ import: {} }}\nr: {t}\n", if texts.len() == 1 { texts[0].clone() } else { format!("[{}]", texts.join(", ")) });
    let shown = main.replace(&*d.0.display().to_string(), "$D").replace(&sha, "$SHA");
    ctx.case(format!("{shown}{}", show(&w.files)));
    if w.imports > 0 {
        ctx.nt();
    }
    if w.imports > 0 {
        ctx.label("relative imports within");
    }
    std::fs::write(here.join("main.eu"), main).unwrap();
    let want = Val::Block(vec![Field { name: "r".into(), val: Val::Int(v), shown: true }]);
    let args = ["-j".to_string(), "main.eu".to_string()];
    check(&here, &args, None, &want)?;
    // and again, from the cache
    let _ = std::fs::remove_dir_all(&repo);
    check(&here, &args, None, &want)
}

// ---------------------------------------------------------------- refusals

fn refused(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = 1 + s.n(4) as usize;
    let d = Scratch(scratch());
    let mut shown = String::new();
    let dirs = ["", "a", "a/b", "c"];
    let at: Vec<&str> = (0..n).map(|_| *s.pick(&dirs)).collect();
    let up = |d: &str| if d.is_empty() { String::new() } else { "../".repeat(d.split('/').count()) };
    let missing = s.pct(40);
    let scoped = s.pct(40);
    for i in 0..n {
        let j = (i + 1) % n;
        let target = if missing && j == 0 { "nowhere-at-all.eu".to_string() } else { format!("{}{}", up(at[i]), join(at[j], &format!("f{j}.eu"))) };
        let named = if s.pct(30) { "nm=" } else { "" };
        let text = if scoped && i == 0 {
            format!("v{i}: {{ w: 1 }}\n` {{ import: \"{named}{target}\" }}\nu{i}: {{ z: {} }}\n", s.n(100))
        } else {
            format!("{{ import: \"{named}{target}\" }}\nv{i}: {}\n", s.n(100))
        };
        let p = d.0.join(at[i]);
        std::fs::create_dir_all(&p).unwrap();
        std::fs::write(p.join(format!("f{i}.eu")), &text).unwrap();
        shown += &format!("--- {}\n{text}", join(at[i], &format!("f{i}.eu")));
    }
    ctx.case(shown.clone());
    ctx.label(if missing { "missing file" } else { "circle" });
    if n > 1 {
        ctx.nt();
    }
    let r = eu(&d.0, &["-j".to_string(), join(at[0], "f0.eu")], None);
    if r.code != Some(1) || r.err.contains("panicked") {
        return fail(if missing { "missing" } else { "circle" }, format!("exit {:?}: {}{}", r.code, r.out, r.err));
    }
    if missing && !r.err.contains("nowhere-at-all.eu") {
        return fail("missing", format!("the message does not say which file: {}", r.err));
    }
    if !missing && !r.err.contains("cycle") {
        return fail("circle", format!("the message does not say why: {}", r.err));
    }
    Ok(())
}

// ---------------------------------------------------------------- arguments

fn arguments(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = s.n(5);
    let words: Vec<String> = (0..n)
        .map(|_| {
            if s.bool() {
                s.pick(&["-j", "--", "a b", "", "-e", "x=y", "{}", "\"q\"", "été ✓", "10", "--seed", "\\n", "$HOME", "eu@-", "'"]).to_string()
            } else {
                let k = s.n(6);
                (0..k).map(|_| *s.pick(&['a', 'Z', '0', '-', ' ', '"', '\\', 'é', '{', '\n'])).collect()
            }
        })
        .collect();
    let seed = s.pct(50).then(|| (s.raw() as i64) >> s.n(60));
    let mut args: Vec<String> = vec!["-j".into()];
    if let Some(n) = seed {
        if n < 0 || s.bool() {
            args.push(format!("--seed={n}"));
        } else {
            args.push("--seed".into());
            args.push(n.to_string());
        }
    }
    let d = Scratch(scratch());
    let body = "args: io.args\nnum: io.args count\nseed: io.RANDOM_SEED\nsome: random.int(1000000, io.random).value\n";
    if s.bool() {
        std::fs::write(d.0.join("p.eu"), body).unwrap();
        args.push("p.eu".into());
    } else {
        args.push("-e".into());
        args.push(format!("{{ {} }}", body.replace('\n', " ")));
    }
    if n > 0 || s.bool() {
        args.push("--".into());
        args.extend(words.iter().cloned());
    }
    ctx.case(format!("{args:?}"));
    if n > 0 || seed.is_some() {
        ctx.nt();
    }
    let r = eu(&d.0, &args, None);
    if r.code != Some(0) {
        return fail("refused", format!("exit {:?}: {}", r.code, r.err));
    }
    let v = read_json(&r.out).or_else(|e| fail("output", format!("{e}: {:?}", r.out)))?;
    let V::Block(fs) = &v else { return fail("output", format!("{v:?}")) };
    let get = |k: &str| fs.iter().find(|(l, _)| l.key().is_some_and(|l| l == k)).map(|x| &x.1);
    let got: Option<Vec<String>> = match get("args") {
        Some(V::List(l)) => l.iter().map(|v| if let V::Str(t) = v { Some(t.clone()) } else { None }).collect(),
        _ => None,
    };
    if got.as_ref() != Some(&words) {
        return fail("arguments", format!("got {got:?}\nwant {words:?}"));
    }
    if let Some(n) = seed {
        if !matches!(get("seed"), Some(V::Int(m)) if *m as i128 == n as i128) {
            return fail("seed", format!("{:?} for {n}", get("seed")));
        }
        let again = eu(&d.0, &args, None);
        if again.out != r.out {
            return fail("seed", format!("not reproducible: {} then {}", r.out, again.out));
        }
        ctx.label("seed");
    }
    Ok(())
}

// ---------------------------------------------------------------- targets

fn targets(s: &mut Src, ctx: &mut Ctx) -> Res {
    // targets at any depth, some with formats
    let mut text = String::new();
    let mut all: Vec<(String, i64)> = vec![];
    fn go(s: &mut Src, text: &mut String, all: &mut Vec<(String, i64)>, depth: usize, path: &str) {
        let ind = "  ".repeat(depth);
        for i in 0..1 + s.n(3) {
            let name = format!("{path}{}", (b'a' + i as u8) as char);
            let v = s.below(10000) as i64;
            let here = s.pct(45);
            if here {
                let tn = if s.pct(15) && !all.iter().any(|x| x.0 == "main") { "main".into() } else { format!("tg-{}", all.len()) };
                match s.n(4) {
                    0 if tn != "main" => *text += &format!("{ind}` :{tn}\n"),
                    1 => *text += &format!("{ind}` {{ doc: \"words\" target: :{tn} }}\n"),
                    2 if tn == "main" => *text += &format!("{ind}` :main\n"),
                    _ => *text += &format!("{ind}` {{ target: :{tn} }}\n"),
                }
                all.push((tn, v));
            }
            if depth < 3 && s.pct(35) {
                *text += &format!("{ind}{name}: {{ val: {v}\n");
                go(s, text, all, depth + 1, &name);
                *text += &format!("{ind}}}\n");
            } else {
                *text += &format!("{ind}{name}: {{ val: {v} }}\n");
            }
        }
    }
    go(s, &mut text, &mut all, 0, "");
    ctx.case(text.clone());
    if !all.is_empty() {
        ctx.nt();
    }
    let d = Scratch(scratch());
    std::fs::write(d.0.join("p.eu"), &text).unwrap();
    let r = eu(&d.0, &["list-targets".to_string(), "p.eu".to_string()], None);
    if r.code != Some(0) {
        return fail("list", format!("exit {:?}: {}", r.code, r.err));
    }
    let listed: Vec<&str> = r.out.split_whitespace().filter(|w| *w == "main" || w.starts_with("tg-")).collect();
    for (t, _) in &all {
        if !listed.contains(&t.as_str()) {
            return fail("list", format!("{t} is not listed: {}", r.out));
        }
    }
    if listed.iter().any(|l| !all.iter().any(|t| t.0 == *l)) {
        return fail("list", format!("a target which is not: {}", r.out));
    }
    let val = |args: &[&str]| -> Result<Option<i64>, crate::engine::Fail> {
        let a: Vec<String> = args.iter().map(|x| x.to_string()).collect();
        let r = eu(&d.0, &a, None);
        if r.code != Some(0) {
            return fail("target", format!("{args:?}: exit {:?}: {}", r.code, r.err));
        }
        let v = read_json(&r.out).or_else(|e| fail("output", format!("{e}: {:?}", r.out)))?;
        Ok(match v {
            V::Block(fs) => fs.iter().find(|(k, _)| k.key().is_some_and(|k| k == "val")).and_then(|x| if let V::Int(n) = &x.1 { Some(*n as i64) } else { None }),
            _ => None,
        })
    };
    if !all.is_empty() {
        let (t, want) = all[s.n(all.len())].clone();
        let got = val(&["-j", "-t", &t, "p.eu"])?;
        if got != Some(want) {
            return fail("target", format!("-t {t} gives {got:?}, not {want}"));
        }
    }
    let main = all.iter().find(|t| t.0 == "main").map(|t| t.1);
    let got = val(&["-j", "p.eu"])?;
    if got != main {
        return fail("target", format!("by default {got:?}, not {main:?}"));
    }
    let r = eu(&d.0, &["-j".to_string(), "-t".to_string(), "tg-none".to_string(), "p.eu".to_string()], None);
    if r.code != Some(1) {
        return fail("target", format!("an unknown target: exit {:?}: {}", r.code, r.out));
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C25",
        facets: vec![
            Facet { name: "files", rule: "there are imports or several inputs", quick: 700, thorough: 40000, run: files },
            Facet { name: "git", rule: "files in the repository import one another", quick: 60, thorough: 3000, run: pinned },
            Facet { name: "refused", rule: "more than one file is involved", quick: 60, thorough: 2000, run: refused },
            Facet { name: "arguments", rule: "there are arguments or a seed", quick: 80, thorough: 4000, run: arguments },
            Facet { name: "targets", rule: "there are targets", quick: 60, thorough: 3000, run: targets },
        ],
        known: vec![],
        assumptions: vec![],
    }
}
