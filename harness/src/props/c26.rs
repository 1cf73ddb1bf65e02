//! C26: IO actions - what runs, in what order, how often, with what result; and nothing without permission.

use crate::engine::{fail, Ctx, Facet, Prop, Res, Src};
use crate::ev::V;
use crate::props::c02::{eu, scratch};
use crate::props::c17::{read_json, spell_str};
use std::path::PathBuf;

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn strs(xs: &[&str]) -> Vec<String> {
    xs.iter().map(|x| x.to_string()).collect()
}

// ---------------------------------------------------------------- programs

#[derive(Clone, Debug)]
enum E {
    Lit(i64),
    Var(String),
    Plus(Box<E>, Box<E>),
    Times(Box<E>, i64),
    /// sum of the numbers below n: garbage for the collector
    Work(i64),
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Form {
    Shell,
    Pipe,
    ShellWith,
    Exec,
    ExecBuilt,
    ExecWith,
}

#[derive(Clone, Debug)]
enum A {
    Ret(E),
    /// logs the token and the variable, prints the variable's value (or nothing), and exits
    Cmd { form: Form, tok: u32, var: Option<String>, code: i64, get: Get },
    Bind(Box<A>, usize, u8),
    Map(Box<A>, i64),
    Then(Box<A>, Box<A>, u8),
    Join(Box<A>),
    JoinBind(Box<A>, usize),
    Seq(Vec<A>),
    MapM(usize, Vec<E>, bool),
    FilterM(usize, Vec<E>),
    If(E, i64, Box<A>, Box<A>),
    Block { head: u8, steps: Vec<(String, A)>, ret: Option<E> },
    Check { tok: u32, code: i64, msg: String, form: u8 },
    Fail(String),
    /// the action declared under this name
    Named(usize, u8),
    Loop(usize, i64),
}

#[derive(Clone, Copy, Debug)]
enum Get {
    Code,
    Out,
}

/// a named function from the captured variables and one more to an action
#[derive(Clone, Debug)]
struct K {
    caps: Vec<String>,
    param: String,
    body: A,
}

#[derive(Default, Clone)]
struct Prog {
    ks: Vec<K>,
    named: Vec<A>,
    /// loops: token and step
    loops: Vec<(u32, i64)>,
    tok: u32,
    vars: u32,
    size: u32,
    fails: bool,
}

struct G<'a> {
    s: &'a mut Src,
    p: Prog,
    /// no named actions inside named actions or continuations in their own right
    top: bool,
}

impl G<'_> {
    fn tok(&mut self) -> u32 {
        self.p.tok += 1;
        self.p.tok
    }
    fn var(&mut self) -> String {
        self.p.vars += 1;
        format!("v{}", self.p.vars)
    }
    fn e(&mut self, sc: &[String], d: u32) -> E {
        match self.s.weighted(&[4, if sc.is_empty() { 0 } else { 8 }, if d > 0 { 2 } else { 0 }, if d > 0 { 1 } else { 0 }, 1]) {
            0 => E::Lit(self.s.range(0, 9)),
            1 => E::Var(self.s.pick(sc).clone()),
            2 => E::Plus(Box::new(self.e(sc, d - 1)), Box::new(self.e(sc, d - 1))),
            3 => E::Times(Box::new(self.e(sc, d - 1)), self.s.range(2, 3)),
            _ => E::Work(if self.s.pct(15) { self.s.range(1000, 3000) } else { self.s.range(1, 40) }),
        }
    }
    fn cmd(&mut self, sc: &[String]) -> A {
        let form = *self.s.pick(&[Form::Shell, Form::Shell, Form::Pipe, Form::ShellWith, Form::Exec, Form::ExecBuilt, Form::ExecWith]);
        let var = if !sc.is_empty() && self.s.pct(75) { Some(self.s.pick(sc).clone()) } else { None };
        let get = if self.s.bool() && var.is_some() { Get::Out } else { Get::Code };
        A::Cmd { form, tok: self.tok(), var, code: if self.s.pct(40) { self.s.range(1, 9) } else { 0 }, get }
    }
    fn k(&mut self, sc: &[String], d: u32) -> usize {
        let mut caps: Vec<String> = vec![];
        for v in sc {
            if caps.len() < 5 && !caps.contains(v) && self.s.pct(60) {
                caps.push(v.clone());
            }
        }
        let param = self.var();
        let mut inner = caps.clone();
        inner.push(param.clone());
        inner.push(param.clone());
        let body = self.a(&inner, d);
        self.p.ks.push(K { caps, param, body });
        self.p.ks.len() - 1
    }
    fn a(&mut self, sc: &[String], d: u32) -> A {
        self.p.size += 1;
        if d == 0 || self.p.size > 60 {
            return match self.s.weighted(&[2, 6, if self.p.fails { 1 } else { 0 }]) {
                0 => A::Ret(self.e(sc, 2)),
                1 => self.cmd(sc),
                _ => self.check_or_fail(),
            };
        }
        let f = if self.p.fails { 2 } else { 0 };
        match self.s.weighted(&[1, 4, 5, 2, 3, 1, 2, 3, 3, 2, 3, 6, f, 2, 1]) {
            0 => A::Ret(self.e(sc, 3)),
            1 => self.cmd(sc),
            2 => A::Bind(Box::new(self.a(sc, d - 1)), self.k(sc, d - 1), self.s.n(3) as u8),
            3 => A::Map(Box::new(self.a(sc, d - 1)), self.s.range(-5, 5)),
            4 => A::Then(Box::new(self.a(sc, d - 1)), Box::new(self.a(sc, d - 1)), self.s.n(2) as u8),
            5 => A::Join(Box::new(self.a(sc, d - 1))),
            6 => A::JoinBind(Box::new(self.a(sc, d - 1)), self.k(sc, d - 1)),
            7 => {
                let n = self.s.n(4);
                A::Seq((0..n).map(|_| self.a(sc, d - 1)).collect())
            }
            8 => {
                let n = self.s.n(4);
                let es = (0..n).map(|_| self.e(sc, 1)).collect();
                A::MapM(self.k(sc, d - 1), es, self.s.bool())
            }
            9 => {
                let n = self.s.n(4);
                let es = (0..n).map(|_| self.e(sc, 1)).collect();
                A::FilterM(self.k(sc, d - 1), es)
            }
            10 => A::If(self.e(sc, 2), self.s.range(0, 12), Box::new(self.a(sc, d - 1)), Box::new(self.a(sc, d - 1))),
            11 => {
                let n = 1 + self.s.n(4);
                let mut scope = sc.to_vec();
                let mut steps = vec![];
                for _ in 0..n {
                    let a = self.a(&scope, d - 1);
                    let v = if self.s.pct(25) {
                        "_".to_string()
                    } else if self.s.pct(12) && scope.last().is_some_and(|v| !steps.iter().any(|(n, _)| n == v)) {
                        scope.last().unwrap().clone()
                    } else {
                        self.var()
                    };
                    if v != "_" {
                        scope.push(v.clone());
                    }
                    steps.push((v, a));
                }
                let last = steps.iter().rev().find(|x| x.0 != "_").is_some();
                let ret = if last && self.s.pct(25) { None } else { Some(self.e(&scope, 2)) };
                A::Block { head: self.s.n(6) as u8, steps, ret }
            }
            12 => self.check_or_fail(),
            13 if self.top => {
                if self.p.named.is_empty() || self.s.pct(40) {
                    let t = std::mem::replace(&mut self.top, false);
                    let a = self.a(&[], d - 1);
                    self.top = t;
                    self.p.named.push(a);
                }
                A::Named(self.s.n(self.p.named.len()), self.s.n(3) as u8)
            }
            13 => self.cmd(sc),
            _ => {
                let n = if self.s.pct(20) { self.s.range(8, 25) } else { self.s.range(0, 5) };
                let t = self.tok();
                self.p.loops.push((t, self.s.range(1, 3)));
                A::Loop(self.p.loops.len() - 1, n)
            }
        }
    }
    fn check_or_fail(&mut self) -> A {
        let t = self.tok();
        let msg = format!("reason-{t}{}", self.s.pick(&["", " with spaces", " és", "; x"]));
        if self.s.bool() {
            A::Check { tok: t, code: if self.s.pct(60) { 0 } else { self.s.range(1, 200) }, msg, form: self.s.n(3) as u8 }
        } else {
            A::Fail(msg)
        }
    }
}

// ---------------------------------------------------------------- text

fn pe(e: &E) -> String {
    match e {
        E::Lit(n) => n.to_string(),
        E::Var(v) => v.clone(),
        E::Plus(a, b) => format!("({} + {})", pe(a), pe(b)),
        E::Times(a, n) => format!("({} * {n})", pe(a)),
        E::Work(n) => format!("work({n})"),
    }
}

fn arg(e: &A, p: &Prog) -> String {
    let t = pa(e, p);
    format!("({t})")
}

fn kref(k: usize, p: &Prog) -> String {
    let f = &p.ks[k];
    if f.caps.is_empty() {
        format!("k{k}")
    } else {
        format!("k{k}({})", f.caps.join(", "))
    }
}

fn pa(a: &A, p: &Prog) -> String {
    match a {
        A::Ret(e) => format!("io.return({})", pe(e)),
        A::Cmd { form, tok, var, code, get } => {
            let v = var.as_ref().map(|v| format!("{{{v}}}")).unwrap_or_default();
            // the value goes into the log with the token, and out again
            let say = match get {
                Get::Out => format!("; printf %s {v}"),
                Get::Code => String::new(),
            };
            let act = match form {
                Form::Shell => format!("io.shell(\"echo t{tok}={v} >> log{say}; exit {code}\")"),
                Form::Pipe => format!("\"echo t{tok}={v} >> log{say}; exit {code}\" io.shell"),
                Form::ShellWith => {
                    let say = if matches!(get, Get::Out) { "; printf %s $x" } else { "" };
                    format!("(\"read x; echo t{tok}=$x >> log{say}; exit {code}\" io.shell-with{{stdin: \"{v}\", timeout: 25}})")
                }
                Form::Exec => format!("io.exec([\"sh\", \"-c\", \"echo t{tok}=$1 >> log{}; exit $2\", \"x\", \"{v}\", \"{code}\"])", if say.is_empty() { "" } else { "; printf %s $1" }),
                Form::ExecBuilt => format!("io.exec([\"sh\", \"-c\"] ++ ([\"echo t{tok}=$1 >> log{}; exit $2\", \"x\", \"{v}\", \"{code}\"] map(identity)))", if say.is_empty() { "" } else { "; printf %s $1" }),
                Form::ExecWith => format!("([\"sh\", \"-c\", \"read x; echo t{tok}=$x >> log{}; exit {code}\"] io.exec-with{{stdin: \"{v}\"}})", if say.is_empty() { "" } else { "; printf %s $x" }),
            };
            let got = match get {
                Get::Out => "io.map((.stdout) ; num)",
                Get::Code => "io.map(.exit-code)",
            };
            format!("({act} {got})")
        }
        A::Bind(x, k, 0) => format!("io.bind({}, {})", pa(x, p), kref(*k, p)),
        A::Bind(x, k, 1) => format!("({} io.and-then({}))", arg(x, p), kref(*k, p)),
        A::Bind(x, k, _) => format!("io.and-then({}, {})", kref(*k, p), pa(x, p)),
        A::Map(x, n) if *n < 0 => format!("({} io.map(_ - {}))", arg(x, p), -n),
        A::Map(x, n) => format!("({} io.map(_ + {n}))", arg(x, p)),
        A::Then(x, y, 0) => format!("({} io.then{})", arg(x, p), arg(y, p)),
        A::Then(x, y, _) => format!("io.then({}, {})", pa(y, p), pa(x, p)),
        A::Join(x) => format!("io.join(io.return({}))", pa(x, p)),
        A::JoinBind(x, k) => format!("io.join(io.map({}, {}))", kref(*k, p), pa(x, p)),
        A::Seq(xs) => format!("(io.sequence([{}]) io.map(fold))", xs.iter().map(|x| pa(x, p)).collect::<Vec<_>>().join(", ")),
        A::MapM(k, es, pipe) => {
            let l = format!("[{}]", es.iter().map(pe).collect::<Vec<_>>().join(", "));
            if *pipe {
                format!("({l} io.map-m({}) io.map(fold))", kref(*k, p))
            } else {
                format!("io.map(fold, io.map-m({}, {l}))", kref(*k, p))
            }
        }
        A::FilterM(k, es) => format!("([{}] io.filter-m({} ; io.map(_ > 4)) io.map(fold))", es.iter().map(pe).collect::<Vec<_>>().join(", "), kref(*k, p)),
        A::If(e, n, x, y) => format!("if({} > {n}, {}, {})", pe(e), pa(x, p), pa(y, p)),
        A::Block { head, steps, ret } => {
            let body = steps.iter().map(|(n, a)| format!("{n}: {}", pa(a, p))).collect::<Vec<_>>().join("  ");
            let last = steps.iter().rev().find(|x| x.0 != "_").map(|x| x.0.clone()).unwrap_or_default();
            let (o, c) = match head {
                0 => ("{ { :monad namespace: io } ", "}"),
                1 => ("{ { monad: io } ", "}"),
                2 => ("⟦ ", "⟧"),
                3 => ("⟪ ", "⟫"),
                4 => ("{ :mine ", "}"),
                _ => ("{ :io ", "}"),
            };
            match ret {
                Some(E::Var(v)) => format!("{o}{body} {c}.({v})"),
                Some(e) => format!("{o}{body} {c}.({})", pe(e)),
                None => format!("({o}{body} {c} io.map(.{last}))"),
            }
        }
        A::Check { tok, code, msg, form } => {
            let c = format!("io.shell(\"echo t{tok}= >> log; printf '%s' '{msg}' >&2; exit {code}\")");
            match form {
                0 => format!("(io.bind({c}, io.check) io.map(.exit-code))"),
                1 => format!("({c} io.checked io.map(.exit-code))"),
                _ => format!("{{ :io r: {c}  _: io.check(r) }}.(r.exit-code)"),
            }
        }
        A::Fail(m) => format!("io.fail(\"{m}\")"),
        A::Named(i, 0) => format!("acts.b{i}"),
        A::Named(i, 1) => format!("(acts lookup(:b{i}))"),
        A::Named(i, _) => format!("a{i}"),
        A::Loop(i, n) => format!("loop{i}({n}, 0)"),
    }
}

fn decls(p: &Prog) -> String {
    let mut o = String::new();
    o.push_str("work(n): range(0, n) foldl(+, 0)\nstep(a, b): (a * 3 + b) % 1009\nfold(xs): xs foldl(step, 7)\n");
    o.push_str("⟦{}⟧: { :monad bind: io.bind return: io.return }\n⟪{}⟫: { :monad namespace: io }\n");
    o.push_str("` { monad: true }\nmine: monad{bind: io.bind, return: io.return} { extra: 1 }\n");
    for (i, k) in p.ks.iter().enumerate() {
        let mut ps = k.caps.clone();
        ps.push(k.param.clone());
        o.push_str(&format!("k{i}({}): {}\n", ps.join(", "), pa(&k.body, p)));
    }
    for (i, a) in p.named.iter().enumerate() {
        o.push_str(&format!("` :suppress\na{i}: {}\n", pa(a, p)));
    }
    o.push_str(&format!("` :suppress\nacts: {{ {} }}\n", (0..p.named.len()).map(|i| format!("b{i}: a{i}")).collect::<Vec<_>>().join(" ")));
    for (i, (t, st)) in p.loops.iter().enumerate() {
        o.push_str(&format!(
            "loop{i}-k(n, acc, r): loop{i}(n - 1, acc + r.exit-code + n)\nloop{i}(n, acc): if(n = 0, io.return(acc), io.bind(io.shell(\"echo t{t}={{n}} >> log; exit {st}\"), loop{i}-k(n, acc)))\n"
        ));
    }
    o
}

// ---------------------------------------------------------------- model

type Env = Vec<(String, i64)>;

fn ve(e: &E, env: &Env) -> i64 {
    match e {
        E::Lit(n) => *n,
        E::Var(v) => env.iter().rev().find(|x| x.0 == *v).unwrap().1,
        E::Plus(a, b) => ve(a, env) + ve(b, env),
        E::Times(a, n) => ve(a, env) * n,
        E::Work(n) => n * (n - 1) / 2,
    }
}

struct M<'a> {
    p: &'a Prog,
    log: Vec<String>,
    steps: u32,
    /// an action was reached, whether or not it leaves a trace
    acted: bool,
}

impl M<'_> {
    fn k(&mut self, k: usize, env: &Env, x: i64) -> Result<i64, String> {
        let f = &self.p.ks[k];
        let mut e: Env = f.caps.iter().map(|c| (c.clone(), ve(&E::Var(c.clone()), env))).collect();
        e.push((f.param.clone(), x));
        self.run(&f.body, &e)
    }
    fn fold(xs: &[i64]) -> i64 {
        xs.iter().fold(7, |a, b| (a * 3 + b).rem_euclid(1009))
    }
    fn run(&mut self, a: &A, env: &Env) -> Result<i64, String> {
        self.steps += 1;
        if self.steps > 400 {
            return Err("TOO MANY STEPS".into());
        }
        Ok(match a {
            A::Ret(e) => ve(e, env),
            A::Cmd { tok, var, code, get, .. } => {
                self.acted = true;
                let v = var.as_ref().map(|v| ve(&E::Var(v.clone()), env));
                self.log.push(format!("t{tok}={}", v.map(|v| v.to_string()).unwrap_or_default()));
                match get {
                    Get::Code => *code,
                    Get::Out => v.unwrap(),
                }
            }
            A::Bind(x, k, _) | A::JoinBind(x, k) => {
                let v = self.run(x, env)?;
                self.k(*k, env, v)?
            }
            A::Map(x, n) => self.run(x, env)? + n,
            A::Then(x, y, _) => {
                self.run(x, env)?;
                self.run(y, env)?
            }
            A::Join(x) => self.run(x, env)?,
            A::Seq(xs) => {
                let mut vs = vec![];
                for x in xs {
                    vs.push(self.run(x, env)?);
                }
                Self::fold(&vs)
            }
            A::MapM(k, es, _) => {
                let mut vs = vec![];
                for e in es {
                    vs.push(self.k(*k, env, ve(e, env))?);
                }
                Self::fold(&vs)
            }
            A::FilterM(k, es) => {
                let mut vs = vec![];
                for e in es {
                    let x = ve(e, env);
                    if self.k(*k, env, x)? > 4 {
                        vs.push(x);
                    }
                }
                Self::fold(&vs)
            }
            A::If(e, n, x, y) => {
                if ve(e, env) > *n {
                    self.run(x, env)?
                } else {
                    self.run(y, env)?
                }
            }
            A::Block { steps, ret, .. } => {
                let mut env = env.clone();
                for (n, a) in steps {
                    let v = self.run(a, &env)?;
                    if n != "_" {
                        env.push((n.clone(), v));
                    }
                }
                match ret {
                    Some(e) => ve(e, &env),
                    None => {
                        let n = steps.iter().rev().find(|x| x.0 != "_").unwrap();
                        ve(&E::Var(n.0.clone()), &env)
                    }
                }
            }
            A::Check { tok, code, msg, .. } => {
                self.acted = true;
                self.log.push(format!("t{tok}="));
                if *code != 0 {
                    return Err(msg.clone());
                }
                0
            }
            A::Fail(m) => {
                self.acted = true;
                return Err(m.clone());
            }
            A::Named(i, _) => {
                let a = self.p.named[*i].clone();
                self.run(&a, &vec![])?
            }
            A::Loop(i, n) => {
                let (t, st) = self.p.loops[*i];
                let mut acc = 0;
                for n in (1..=*n).rev() {
                    self.acted = true;
                    self.log.push(format!("t{t}={n}"));
                    acc += st + n;
                }
                acc
            }
        })
    }
}

struct Case {
    text: String,
    main: String,
    want: Result<i64, String>,
    log: Vec<String>,
    acted: bool,
    combinators: bool,
}

fn program(s: &mut Src) -> Case {
    loop {
        let mut p = Prog { fails: s.pct(40), ..Default::default() };
        let d = 1 + s.n(4) as u32;
        let (main, other) = {
            let mut g = G { s, p, top: true };
            let main = g.a(&[], d);
            let other = g.a(&[], 2);
            p = g.p;
            (main, other)
        };
        let mut m = M { p: &p, log: vec![], steps: 0, acted: false };
        let want = m.run(&main, &vec![]);
        if m.steps > 400 || m.log.len() > 60 || want.as_ref().is_ok_and(|v| v.abs() > 1 << 40) {
            continue;
        }
        let (log, acted) = (m.log.clone(), m.acted);
        // actions which nothing runs
        let text = format!("{}` :suppress\nother: {}\n` :suppress\nlist: [other, io.shell(\"echo never >> log\"), {{ x: other }}]\n", decls(&p), pa(&other, &p));
        return Case { text, main: pa(&main, &p), want, log, acted, combinators: !matches!(main, A::Cmd { .. } | A::Ret(_) | A::Fail(_) | A::Check { .. }) };
    }
}

fn logged(d: &Scratch) -> Vec<String> {
    std::fs::read_to_string(d.0.join("log")).map(|t| t.lines().map(|l| l.to_string()).collect()).unwrap_or_default()
}

/// How the action is asked for: the text of the file, and the arguments
fn asked(s: &mut Src, c: &Case) -> (String, Vec<String>) {
    match s.n(4) {
        0 => (format!("{}` :main\nthe-main: {}\n", c.text, c.main), strs(&["p.eu"])),
        1 => (format!("{}` {{ target: :tg }}\nthe-main: {}\n", c.text, c.main), strs(&["-t", "tg", "p.eu"])),
        2 => (format!("{}` :suppress\nthe-main: {}\n", c.text, c.main), strs(&["p.eu", "-e", "the-main"])),
        _ => (format!("{}nested: {{ ` {{ target: :main }}\n the-main: {} }}\n` {{ target: :not-this }}\nnot-this: other\n", c.text, c.main), strs(&["p.eu"])),
    }
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    let c = program(s);
    let (text, args) = asked(s, &c);
    let mut a = vec!["-j".to_string()];
    match s.n(3) {
        0 => a.push("-I".into()),
        1 => a.push("--allow-io".into()),
        _ => {
            a.insert(0, "run".into());
            a.push("-I".into());
        }
    }
    a.extend(args);
    ctx.case(format!("eu {}\n{text}", a.join(" ")));
    if c.combinators && c.log.len() > 1 {
        ctx.nt();
    }
    ctx.label(if c.want.is_ok() { "value" } else { "failure" });
    let d = Scratch(scratch());
    std::fs::write(d.0.join("p.eu"), &text).unwrap();
    let r = eu(&d.0, &a, None);
    let log = logged(&d);
    if log != c.log {
        return fail("effects", format!("the commands left {log:?}, not {:?}\nexit {:?} {}", c.log, r.code, r.err));
    }
    match &c.want {
        Ok(v) => {
            if r.code != Some(0) {
                return fail("result", format!("exit {:?}, not {v}: {}", r.code, r.err));
            }
            match read_json(&r.out) {
                Ok(V::Int(n)) if n == *v as i128 => Ok(()),
                o => fail("result", format!("{o:?}, not {v}")),
            }
        }
        Err(m) => {
            if r.code != Some(1) || !r.err.contains(m.as_str()) || !r.out.is_empty() {
                return fail("failure", format!("exit {:?}, not failure with {m:?}: {}{}", r.code, r.out, r.err));
            }
            Ok(())
        }
    }
}

/// Nothing runs which was not asked for, or is not allowed
fn gate(s: &mut Src, ctx: &mut Ctx) -> Res {
    let c = program(s);
    let d = Scratch(scratch());
    let mode = s.n(8);
    // permission matters only where the action is run
    let allowed = mode != 0 && s.pct(40);
    let (text, mut args, refused) = match mode {
        0 | 1 => {
            let (t, a) = asked(s, &c);
            if mode == 1 {
                // permission for something else
                let t = t.replace("` :main\n", "").replace("` { target: :main }\n", "").replace("` { target: :tg }\n", "").replace("` :suppress\nthe-main:", "the-main:").replace("the-main:", "` :suppress\nthe-main:");
                (format!("{t}\nplain: 12\n"), strs(&["p.eu", "-e", "plain"]), false)
            } else {
                (t, a, c.acted)
            }
        }
        2 => {
            let t = format!("{}` {{ target: :test requires-io: true }}\ntest: {}\n` {{ target: :test-b }}\ntest-b: {{ RESULT: :PASS }}\n", c.text, c.main);
            (t, strs(&["test", "p.eu"]), false)
        }
        3 => (format!("{}` :main\nthe-main: {}\n", c.text, c.main), strs(&[*s.pick(&["check", "fmt", "explain", "list-targets"]), "p.eu"]), false),
        4 => (format!("{}` :main\nthe-main: {}\n", c.text, c.main), strs(&["dump", *s.pick(&["ast", "desugared", "cooked", "inlined", "pruned", "stg", "runtime"]), "p.eu"]), false),
        5 => {
            // imported actions
            std::fs::write(d.0.join("lib.eu"), format!("{}the-main: {}\n", c.text, c.main)).unwrap();
            (format!("{{ import: {} }}\n` :main\nm: 12\n", s.pick(&["\"lib.eu\"", "\"l=lib.eu\""])), strs(&["p.eu"]), false)
        }
        6 => {
            // an action passed about but not run
            let t = format!("{}` :suppress\nthe-main: {}\nuse(a): 12\n` :main\nm: {}\n", c.text, c.main, s.pick(&["use(the-main)", "use(io.map(inc, the-main))", "([the-main, the-main] count) + 10", "{ a: the-main b: 12 }.b", "if(true, 12, the-main)", "{ :let a: the-main b: 12 }.(b)"]));
            (t, strs(&["p.eu"]), false)
        }
        _ => {
            let t = format!("{}` :suppress\nthe-main: {}\nplain: 12\n", c.text, c.main);
            (t, strs(&["p.eu"]), false)
        }
    };
    let runs = mode < 2 || mode >= 5;
    if allowed && (runs || mode == 2) {
        if mode == 2 {
            // with permission the test does run: that is the other facet's affair
            args = strs(&["list-targets", "p.eu"]);
        } else {
            args.insert(0, "-I".into());
        }
    }
    if runs {
        args.insert(0, "-j".into());
    }
    ctx.case(format!("eu {}\n{text}", args.join(" ")));
    if !c.log.is_empty() {
        ctx.nt();
    }
    ctx.label(["refused", "other", "test", "tool", "dump", "import", "passed", "plain"][mode]);
    std::fs::write(d.0.join("p.eu"), &text).unwrap();
    let r = eu(&d.0, &args, None);
    let log = logged(&d);
    if !log.is_empty() {
        return fail("ran", format!("{log:?} were run unasked: exit {:?} {}", r.code, r.err));
    }
    if refused && (r.code != Some(1) || !r.err.contains("IO operations are not permitted") || !r.out.is_empty()) {
        return fail("refusal", format!("exit {:?}: {}{}", r.code, r.out, r.err));
    }
    if mode == 1 || mode == 5 || mode == 6 {
        if r.code != Some(0) || r.out.trim() != "12" {
            return fail("plain", format!("exit {:?}: {}{}", r.code, r.out, r.err));
        }
    }
    Ok(())
}

fn long(s: &mut Src) -> String {
    match s.weighted(&[3, 6, 1]) {
        0 => String::new(),
        1 => crate::props::c17::text(s).replace('\0', ""),
        _ => {
            let n = s.range(60_000, 300_000) as usize;
            let w = format!("{}\n", s.pick(&["line of text", "é", "abc"]));
            w.repeat(n / w.len())
        }
    }
}

/// One command, with everything about it checked
fn command(s: &mut Src, ctx: &mut Ctx) -> Res {
    let d = Scratch(scratch());
    let kind = s.weighted(&[8, 4, 3, 3, 2]);
    let mut opts: Vec<String> = vec![];
    let stdin = if s.pct(60) { Some(long(s)) } else { None };
    let mut files: Vec<(&str, String)> = vec![];
    if let Some(t) = &stdin {
        if t.len() > 1000 {
            // too much for the source: it comes from an input file
            files.push(("big.txt", t.clone()));
            opts.push("stdin: big map(c\"{}\\n\") str.join-on(\"\")".into());
        } else {
            opts.push(format!("stdin: {}", spell_str(t)));
        }
    }
    if s.pct(30) {
        opts.push(format!("timeout: {}", s.pick(&["20", "25", "60", "4000000000", "18446744073709551615"])));
    }
    if s.bool() {
        opts.reverse();
    }
    let given = stdin.clone().unwrap_or_default();
    let code = if s.bool() { 0 } else { s.range(0, 255) };
    // (program, its output, its errors, its exit code)
    let (argv, out, err, code): (Vec<String>, String, Option<String>, i64) = match kind {
        0 => {
            // arguments arrive as they are given
            let n = s.n(5);
            let args: Vec<String> = (0..n).map(|_| crate::props::c17::text(s).replace('\0', "")).collect();
            let mut v = strs(&["sh", "-c", &format!("cat; printf '<%s>' \"$@\"; printf '%s' \"$#\" >&2; exit {code}"), "name"]);
            v.extend(args.iter().cloned());
            let shown = if args.is_empty() { "<>".to_string() } else { args.iter().map(|a| format!("<{a}>")).collect() };
            (v, format!("{given}{shown}"), Some(n.to_string()), code)
        }
        1 => (strs(&["cat"]), given, Some(String::new()), 0),
        // input which is not read
        2 => (strs(&["sh", "-c", &format!("echo out; echo err >&2; exit {code}")]), "out\n".into(), Some("err\n".into()), code),
        3 => (vec!["./missing".into()], String::new(), None, 127),
        _ => {
            std::fs::write(d.0.join("plain"), "text").unwrap();
            (vec!["./plain".into()], String::new(), None, 126)
        }
    };
    let list = |v: &[String]| format!("[{}]", v.iter().map(|x| spell_str(x)).collect::<Vec<_>>().join(", "));
    let via_shell = kind <= 2 && s.bool();
    let what = if via_shell {
        let quoted = argv.iter().map(|a| format!("'{}'", a.replace('\'', "'\\''"))).collect::<Vec<_>>().join(" ");
        spell_str(&quoted)
    } else {
        match s.n(4) {
            0 => format!("({} ++ {})", list(&argv[..1]), list(&argv[1..])),
            1 => format!("({} map(identity))", list(&argv)),
            2 => format!("cons({}, {} filter(-> true))", spell_str(&argv[0]), list(&argv[1..])),
            _ => list(&argv),
        }
    };
    let f = if via_shell { "shell" } else { "exec" };
    let action = if !opts.is_empty() || s.pct(20) { format!("{what} io.{f}-with{{{}}}", opts.join(", ")) } else { format!("io.{f}({what})") };
    let text = format!("` :main\nm: {action}\n");
    let mut args = strs(&["-I", "-j"]);
    if !files.is_empty() {
        args.push("big=big.txt".into());
    }
    args.push("p.eu".into());
    ctx.case(format!("eu {} ({} bytes of input)\n{text}", args.join(" "), stdin.as_ref().map_or(0, |x| x.len())));
    if stdin.as_ref().is_some_and(|x| !x.is_empty()) || argv.len() > 4 {
        ctx.nt();
    }
    ctx.label(["arguments", "cat", "unread", "missing", "denied"][kind]);
    for (n, t) in &files {
        std::fs::write(d.0.join(n), t).unwrap();
    }
    std::fs::write(d.0.join("p.eu"), &text).unwrap();
    let r = eu(&d.0, &args, None);
    if r.code != Some(0) {
        return fail("command", format!("exit {:?}: {}", r.code, r.err));
    }
    let V::Block(fs) = read_json(&r.out).or_else(|e| fail("output", format!("{e}: {:?}", r.out)))? else {
        return fail("output", format!("not a block: {:?}", r.out));
    };
    let get = |k: &str| fs.iter().find(|(n, _)| n.key().is_some_and(|n| n == k)).map(|x| x.1.clone());
    let mut keys: Vec<String> = fs.iter().filter_map(|f| f.0.key().map(|k| k.to_string())).collect();
    keys.sort();
    if keys != ["exit-code", "stderr", "stdout"] {
        return fail("output", format!("fields {keys:?}"));
    }
    if get("stdout") != Some(V::Str(out.clone())) {
        return fail("stdout", format!("{:?}, not {out:?}", get("stdout")).chars().take(600).collect::<String>());
    }
    if get("exit-code") != Some(V::Int(code as i128)) {
        return fail("exit-code", format!("{:?}, not {code}", get("exit-code")));
    }
    match err {
        Some(e) if get("stderr") != Some(V::Str(e.clone())) => fail("stderr", format!("{:?}, not {e:?}", get("stderr"))),
        None if get("stderr") == Some(V::Str(String::new())) => fail("stderr", "no reason is given".to_string()),
        _ => Ok(()),
    }
}

/// A command which takes too long is ended, and the run fails
fn timeouts(s: &mut Src, ctx: &mut Ctx) -> Res {
    let d = Scratch(scratch());
    let before = s.bool();
    let slow = *s.pick(&["sleep 3; echo late >> log", "exec >&- 2>&-; sleep 3; echo late >> log", "cat; sleep 3; echo late >> log", "while :; do echo x; done", "trap '' TERM; sleep 3; echo late >> log"]);
    let act = if s.bool() { format!("(\"{slow}\" io.shell-with{{timeout: 1{}}})", s.pick(&["", " stdin: \"x\""])) } else { format!("io.exec-with({{timeout: 1}}, [\"sh\", \"-c\", \"{slow}\"])") };
    let text = format!("` :main\nm: {{ :io {} b: {act} c: io.shell(\"echo after >> log\") }}.(1)\n", if before { "a: io.shell(\"echo before >> log\")" } else { "" });
    ctx.case(text.clone());
    ctx.nt();
    std::fs::write(d.0.join("p.eu"), &text).unwrap();
    let t0 = std::time::Instant::now();
    let r = eu(&d.0, &strs(&["-I", "-j", "p.eu"]), None);
    let took = t0.elapsed().as_secs_f64();
    if r.code != Some(1) || !r.out.is_empty() || !r.err.contains("timed out") {
        return fail("timeout", format!("exit {:?}: {}", r.code, r.err.chars().take(300).collect::<String>()));
    }
    if took < 0.9 {
        return fail("timeout", format!("given up after {took:.1} s"));
    }
    if !slow.contains("while") {
        std::thread::sleep(std::time::Duration::from_millis(((3.4 - took).max(0.0) * 1000.0) as u64));
    }
    let log = logged(&d);
    let want = if before { vec!["before".to_string()] } else { vec![] };
    if log != want {
        return fail("effects", format!("{log:?}, not {want:?}"));
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C26",
        facets: vec![
            Facet { name: "run", rule: "actions are combined and more than one command runs", quick: 220, thorough: 20000, run },
            Facet { name: "gate", rule: "the actions would leave a trace if they ran", quick: 150, thorough: 8000, run: gate },
            Facet { name: "command", rule: "there is input, or there are arguments", quick: 120, thorough: 8000, run: command },
            Facet { name: "timeout", rule: "a command exceeds its time", quick: 8, thorough: 60, run: timeouts },
        ],
        known: vec![],
        assumptions: vec![],
    }
}
