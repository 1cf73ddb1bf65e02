//! A small property-based testing engine: every random decision a case makes
//! is one recorded choice, so replaying and shrinking work on the choice list
//! and every generator built on `Src` shrinks for free.

use serde_json::{json, Value as J};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

/// Source of choices.
pub struct Src {
    pub rec: Vec<u64>,
    replay: Option<Vec<u64>>,
    pos: usize,
    state: u64,
}

fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Src {
    pub fn new(seed: u64) -> Self {
        Src { rec: vec![], replay: None, pos: 0, state: seed }
    }
    pub fn replaying(v: Vec<u64>) -> Self {
        Src { rec: vec![], replay: Some(v), pos: 0, state: 0 }
    }
    /// Uniform in `0..n` (n >= 1); 0 is the simplest choice.
    pub fn below(&mut self, n: u64) -> u64 {
        let v = match &self.replay {
            Some(r) => {
                let v = r.get(self.pos).copied().unwrap_or(0);
                if n == 0 { v } else { v % n }
            }
            None => {
                let v = splitmix(&mut self.state);
                if n == 0 { v } else { v % n }
            }
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }
    pub fn raw(&mut self) -> u64 {
        self.below(0)
    }
    pub fn n(&mut self, n: usize) -> usize {
        self.below(n.max(1) as u64) as usize
    }
    /// inclusive range
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        let span = (hi as i128 - lo as i128 + 1) as u128;
        if span > u64::MAX as u128 {
            return self.raw() as i64;
        }
        lo.wrapping_add(self.below(span as u64) as i64)
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// true with probability p/100 (shrinks to false)
    pub fn pct(&mut self, p: u64) -> bool {
        self.below(100) >= 100 - p.min(100)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.n(xs.len());
        &xs[i]
    }
    /// index chosen with the given weights
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u64 = ws.iter().map(|w| *w as u64).sum();
        let mut k = self.below(total.max(1));
        for (i, w) in ws.iter().enumerate() {
            if k < *w as u64 {
                return i;
            }
            k -= *w as u64;
        }
        ws.len() - 1
    }
    /// length with a geometric-ish tail, at most max
    pub fn len(&mut self, max: usize) -> usize {
        match self.below(10) {
            0 => 0,
            1..=5 => self.n(max.min(4) + 1),
            6..=8 => self.n(max.min(12) + 1),
            _ => self.n(max + 1),
        }
    }
    pub fn vec<T>(&mut self, max: usize, mut f: impl FnMut(&mut Src) -> T) -> Vec<T> {
        let n = self.len(max);
        (0..n).map(|_| f(self)).collect()
    }
    pub fn vec_between<T>(&mut self, lo: usize, hi: usize, mut f: impl FnMut(&mut Src) -> T) -> Vec<T> {
        let n = lo + self.n(hi - lo + 1);
        (0..n).map(|_| f(self)).collect()
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = i - self.n(i + 1);
            xs.swap(i, j);
        }
    }
}

#[derive(Debug, Clone)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}

pub type Res = Result<(), Fail>;

pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.into(), msg: msg.into() })
}

#[macro_export]
macro_rules! check {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !($cond) {
            return $crate::engine::fail($sig, format!($($arg)*));
        }
    };
}

/// Per-case context.
#[derive(Default)]
pub struct Ctx {
    pub desc: String,
    pub labels: Vec<String>,
    pub nontrivial: bool,
    pub evals: u64,
    pub nt_items: Vec<u64>,
    pub inconclusive: bool,
}

impl Ctx {
    /// Describe the generated case; also its identity for distinctness.
    pub fn case(&mut self, d: impl Into<String>) {
        self.desc = d.into();
        if std::env::var_os("VERIF_ECHO").is_some() {
            eprintln!("{}", self.desc);
        }
    }
    pub fn label(&mut self, l: impl Into<String>) {
        self.labels.push(l.into());
    }
    pub fn nt(&mut self) {
        self.nontrivial = true;
    }
    /// Count one sub-evaluation of a batched case.
    pub fn sub(&mut self, identity: &str, nontrivial: bool) {
        self.evals += 1;
        if nontrivial {
            self.nt_items.push(hash(identity));
        }
    }
}

pub fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub type CaseFn = fn(&mut Src, &mut Ctx) -> Res;

pub struct Facet {
    pub name: &'static str,
    /// what a case is and what makes it non-trivial
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: CaseFn,
}

/// A recorded genuine defect: `probe` returns Some(description) while it is
/// still present.
pub struct Known {
    pub id: &'static str,
    pub probe: fn() -> Option<String>,
}

pub struct Prop {
    pub id: &'static str,
    pub facets: Vec<Facet>,
    pub known: Vec<Known>,
    pub assumptions: Vec<&'static str>,
}

static CASE_STARTED: AtomicU64 = AtomicU64::new(0);
static EPOCH: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
const CASE_LIMIT_S: u64 = 150;
const STACK: usize = 64 << 20;

fn now_ms() -> u64 {
    EPOCH.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

fn case_seed(seed: u64, prop: &str, facet: &str, i: u64) -> u64 {
    let mut s = hash(&(prop, facet)) ^ seed.wrapping_mul(0x2545F4914F6CDD1D) ^ i.wrapping_mul(0xD1342543DE82EF95);
    splitmix(&mut s)
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

fn run_case(f: CaseFn, src: &mut Src, ctx: &mut Ctx) -> Res {
    CASE_STARTED.store(now_ms(), Ordering::SeqCst);
    let r = catch_unwind(AssertUnwindSafe(|| f(src, ctx)));
    CASE_STARTED.store(0, Ordering::SeqCst);
    match r {
        Ok(r) => r,
        Err(_) => {
            let p = last_panic();
            fail("panic", format!("panicked: {p}"))
        }
    }
}

/// Shrink the choice list of a failing case.
fn shrink(f: CaseFn, choices: Vec<u64>, sig: &str, budget: usize, deadline: Instant) -> (Vec<u64>, Fail, String) {
    let mut left = budget;
    let try_one = |c: &[u64], left: &mut usize| -> Option<(Vec<u64>, Fail, String)> {
        if *left == 0 || Instant::now() > deadline {
            return None;
        }
        *left -= 1;
        let mut s = Src::replaying(c.to_vec());
        let mut ctx = Ctx::default();
        match run_case(f, &mut s, &mut ctx) {
            Err(fl) if fl.sig == sig => Some((s.rec, fl, ctx.desc)),
            _ => None,
        }
    };
    let mut best = match try_one(&choices, &mut left) {
        Some(b) => b,
        None => {
            return (choices, Fail { sig: sig.into(), msg: "(not reproduced on replay)".into() }, String::new());
        }
    };
    loop {
        let before = best.0.clone();
        // delete chunks
        let mut k = best.0.len().next_power_of_two().max(1);
        while k >= 1 {
            let mut i = 0;
            while i < best.0.len() {
                let mut c = best.0.clone();
                let e = (i + k).min(c.len());
                c.drain(i..e);
                match try_one(&c, &mut left) {
                    Some(b) if b.0.len() < best.0.len() => best = b,
                    _ => i += k,
                }
            }
            k /= 2;
        }
        // lower values
        let mut i = 0;
        while i < best.0.len() {
            let v = best.0[i];
            if v > 0 {
                let mut cands = vec![0, v / 2, v - 1];
                cands.dedup();
                for cv in cands {
                    if cv >= best.0.get(i).copied().unwrap_or(0) {
                        continue;
                    }
                    let mut c = best.0.clone();
                    c[i] = cv;
                    if let Some(b) = try_one(&c, &mut left) {
                        if (b.0.len(), &b.0) < (best.0.len(), &best.0) {
                            best = b;
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
        if best.0 == before || left == 0 || Instant::now() > deadline {
            break;
        }
    }
    best
}

fn out_dir() -> PathBuf {
    verif_dir().join("out")
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").as_deref() == Ok("thorough")
}

fn count_for(f: &Facet) -> u64 {
    let n = if thorough() { f.thorough } else { f.quick };
    match std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse::<f64>().ok()) {
        Some(k) => (n as f64 * k) as u64,
        None => n,
    }
}

fn big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(STACK).spawn(f).unwrap().join().unwrap()
}

/// Worker: run this shard's cases of every facet, writing results as JSON lines.
fn worker(prop: &Prop, args: &[String]) {
    // args: shard nshards seed result_path status_path start_facet start_idx
    let shard: u64 = args[0].parse().unwrap();
    let nsh: u64 = args[1].parse().unwrap();
    let seed: u64 = args[2].parse().unwrap();
    let mut out = std::io::BufWriter::new(std::fs::OpenOptions::new().create(true).append(true).open(&args[3]).unwrap());
    let status = std::fs::OpenOptions::new().create(true).write(true).truncate(false).open(&args[4]).unwrap();
    let only = std::env::var("VERIF_FACET").ok();
    let verbose = std::env::var("VERIF_VERBOSE").is_ok();
    install_panic_hook();
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(500));
        let s = CASE_STARTED.load(Ordering::SeqCst);
        if s != 0 && now_ms() > s + CASE_LIMIT_S * 1000 {
            unsafe { libc::_exit(97) };
        }
    });
    let mut samples = 0;
    for (fi, facet) in prop.facets.iter().enumerate() {
        if let Some(o) = &only {
            if o != facet.name {
                continue;
            }
        }
        let t0 = Instant::now();
        let total = count_for(facet);
        let mut evals = 0u64;
        let mut labels: BTreeMap<String, u64> = BTreeMap::new();
        let mut nts: HashSet<u64> = HashSet::new();
        let mut sample_left = 2;
        let mut inconclusive = 0;
        let mut i = shard;
        let one: Option<u64> = std::env::var("VERIF_INDEX").ok().and_then(|v| v.parse().ok());
        while i < total {
            if one.is_some_and(|o| o != i) {
                i += nsh;
                continue;
            }
            {
                use std::os::unix::fs::FileExt;
                let mut b = [0u8; 16];
                b[..8].copy_from_slice(&(fi as u64).to_le_bytes());
                b[8..].copy_from_slice(&i.to_le_bytes());
                let _ = status.write_at(&b, 0);
            }
            let mut s = Src::new(case_seed(seed, prop.id, facet.name, i));
            let mut ctx = Ctx::default();
            let r = run_case(facet.run, &mut s, &mut ctx);
            evals += if ctx.evals > 0 { ctx.evals } else { 1 };
            for l in &ctx.labels {
                *labels.entry(l.clone()).or_default() += 1;
            }
            if ctx.inconclusive {
                inconclusive += 1;
            }
            if !ctx.nt_items.is_empty() {
                nts.extend(ctx.nt_items.iter());
            } else if ctx.nontrivial {
                nts.insert(hash(&ctx.desc));
            }
            if (ctx.nontrivial || !ctx.nt_items.is_empty()) && sample_left > 0 && samples < 40 {
                sample_left -= 1;
                samples += 1;
                let mut d = ctx.desc.clone();
                truncate(&mut d, 400);
                writeln!(out, "{}", json!({"t":"sample","facet":facet.name,"case":d})).unwrap();
            }
            if verbose && shard == 0 {
                let mut d = ctx.desc.clone();
                truncate(&mut d, 2000);
                writeln!(out, "{}", json!({"t":"verbose","facet":facet.name,"case":d,"labels":ctx.labels,"res":format!("{r:?}")})).unwrap();
            }
            if let Err(fl) = r {
                let (best, bf, desc) = shrink(
                    facet.run,
                    s.rec.clone(),
                    &fl.sig,
                    1500,
                    Instant::now() + Duration::from_secs(30),
                );
                let (msg, desc) = if desc.is_empty() && bf.msg.contains("not reproduced") {
                    (fl.msg.clone(), ctx.desc.clone())
                } else {
                    (bf.msg.clone(), desc)
                };
                writeln!(
                    out,
                    "{}",
                    json!({"t":"fail","facet":facet.name,"index":i,"sig":fl.sig,"msg":msg,"case":desc,"choices":best,
                           "first_msg": fl.msg})
                )
                .unwrap();
                out.flush().unwrap();
                unsafe { libc::_exit(3) };
            }
            i += nsh;
        }
        let nts: Vec<u64> = nts.into_iter().collect();
        writeln!(
            out,
            "{}",
            json!({"t":"facet","facet":facet.name,"evals":evals,"labels":labels,"nt":nts,"inconclusive":inconclusive,"wall":t0.elapsed().as_secs_f64()})
        )
        .unwrap();
        out.flush().unwrap();
    }
}

pub fn truncate(s: &mut String, n: usize) {
    if s.len() > n {
        let mut k = n;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        s.truncate(k);
        s.push('…');
    }
}

/// Entry point: `<bin> <PROP> [--replay FILE]`.
pub fn main(props: fn() -> Vec<Prop>) -> ! {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 2 {
        eprintln!("usage: {} PROP", args[0]);
        std::process::exit(2);
    }
    let id = args[1].clone();
    if args.get(2).map(|s| s.as_str()) == Some("--worker") {
        let rest = args[3..].to_vec();
        big_stack(move || {
            let ps = props();
            let p = ps.iter().find(|p| p.id == id).expect("property");
            worker(p, &rest);
        });
        std::process::exit(0);
    }
    if args.get(2).map(|s| s.as_str()) == Some("--known") {
        // print "K\t<id>\t<desc>" for each still-present finding
        install_panic_hook();
        let which = args[3].clone();
        big_stack(move || {
            let ps = props();
            let p = ps.iter().find(|p| p.id == id).expect("property");
            for k in &p.known {
                if k.id == which {
                    if let Ok(Some(d)) = catch_unwind(AssertUnwindSafe(k.probe)) {
                        println!("K\t{}\t{}", k.id, d.replace('\n', " "));
                    }
                }
            }
        });
        std::process::exit(0);
    }
    if args.get(2).map(|s| s.as_str()) == Some("--replay") || args.get(2).map(|s| s.as_str()) == Some("--replay-quiet") {
        let file: J = serde_json::from_str(&std::fs::read_to_string(&args[3]).unwrap()).unwrap();
        install_panic_hook();
        let code = big_stack(move || {
            let ps = props();
            let p = ps.iter().find(|p| p.id == id).expect("property");
            let f = p.facets.iter().find(|f| f.name == file["facet"].as_str().unwrap()).expect("facet");
            let mut s = if file["choices"].is_null() {
                Src::new(case_seed(file["seed"].as_u64().unwrap(), p.id, f.name, file["index"].as_u64().unwrap()))
            } else {
                Src::replaying(file["choices"].as_array().unwrap().iter().map(|v| v.as_u64().unwrap()).collect())
            };
            let mut ctx = Ctx::default();
            let r = run_case(f.run, &mut s, &mut ctx);
            println!("facet: {}\ncase:\n{}\nresult: {:?}", f.name, ctx.desc, r);
            if let Err(e) = &r {
                println!("{}", e.msg);
            }
            r.is_err() as i32
        });
        std::process::exit(code);
    }
    parent(&id, props)
}

fn spawn_worker(id: &str, shard: u64, nsh: u64, seed: u64, res: &PathBuf, st: &PathBuf) -> std::process::Child {
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.arg(id).arg("--worker").arg(shard.to_string()).arg(nsh.to_string()).arg(seed.to_string()).arg(res).arg(st);
    c.stdin(std::process::Stdio::null());
    if std::env::var("VERIF_STDERR").is_err() {
        c.stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
    }
    unsafe {
        use std::os::unix::process::CommandExt;
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &lim);
            Ok(())
        });
    }
    c.spawn().expect("spawn worker")
}

fn parent(id: &str, props: fn() -> Vec<Prop>) -> ! {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let ps = props();
    let Some(p) = ps.iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        std::process::exit(2);
    };
    let nsh: u64 = std::env::var("VERIF_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let _ = std::fs::create_dir_all(out_dir().join("replays"));
    let _ = std::fs::create_dir_all(verif_dir().join("evidence"));
    let work = out_dir().join(format!("work-{id}-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&work);
    let mut kids: Vec<(u64, std::process::Child, bool)> = (0..nsh)
        .map(|s| {
            let c = spawn_worker(id, s, nsh, seed, &work.join(format!("r{s}")), &work.join(format!("s{s}")));
            (s, c, false)
        })
        .collect();
    let mut fails: Vec<J> = vec![];
    let mut errors: Vec<String> = vec![];
    loop {
        let mut live = 0;
        for (s, c, done) in kids.iter_mut() {
            if *done {
                continue;
            }
            match c.try_wait() {
                Ok(Some(st)) => {
                    *done = true;
                    use std::os::unix::process::ExitStatusExt;
                    match st.code() {
                        Some(0) | Some(3) => {}
                        Some(97) => {
                            let (f, i) = read_status(&work.join(format!("s{s}")));
                            errors.push(format!("case exceeded its time limit: facet {} index {i}", p.facets[f].name));
                        }
                        code => {
                            let (f, i) = read_status(&work.join(format!("s{s}")));
                            let sig = st.signal();
                            if sig == Some(libc::SIGKILL) {
                                errors.push(format!("worker killed (memory?): facet {} index {i}", p.facets[f].name));
                            } else {
                                // confirm that the very case crashes on its own
                                match confirm_crash(id, p, f, i, seed, &work) {
                                    Some((choices, how)) => fails.push(json!({"t":"fail","facet":p.facets[f].name,"index":i,
                                        "sig":"crash","msg":format!("process died running this case: {how}"),"choices":choices,"seed":seed,"case":""})),
                                    None => errors.push(format!(
                                        "worker ended with code {code:?} signal {sig:?} at facet {} index {i}, not reproduced alone",
                                        p.facets[f].name
                                    )),
                                }
                            }
                        }
                    }
                }
                _ => live += 1,
            }
        }
        if !fails.is_empty() {
            for (_, c, d) in kids.iter_mut() {
                if !*d {
                    let _ = c.kill();
                    let _ = c.wait();
                }
            }
            break;
        }
        // stop early when a worker has reported a failure
        let failed = kids.iter_mut().any(|(s, _, d)| *d && has_fail(&work.join(format!("r{s}"))));
        if failed {
            // give the others a moment, then stop them
            for (_, c, d) in kids.iter_mut() {
                if !*d {
                    let _ = c.kill();
                    let _ = c.wait();
                }
            }
            break;
        }
        if live == 0 {
            break;
        }
        std::thread::sleep(Duration::from_millis(50));
    }
    // gather
    let mut evals = 0u64;
    let mut nts: HashSet<(String, u64)> = HashSet::new();
    let mut by_facet: BTreeMap<String, J> = BTreeMap::new();
    let mut samples: Vec<J> = vec![];
    let mut sampled: BTreeMap<String, usize> = BTreeMap::new();
    let mut inconclusive = 0u64;
    for s in 0..nsh {
        let Ok(t) = std::fs::read_to_string(work.join(format!("r{s}"))) else { continue };
        for line in t.lines() {
            let Ok(v) = serde_json::from_str::<J>(line) else { continue };
            let fac = v["facet"].as_str().unwrap_or("").to_string();
            match v["t"].as_str() {
                Some("facet") => {
                    evals += v["evals"].as_u64().unwrap_or(0);
                    inconclusive += v["inconclusive"].as_u64().unwrap_or(0);
                    for h in v["nt"].as_array().unwrap() {
                        nts.insert((fac.clone(), h.as_u64().unwrap()));
                    }
                    let e = by_facet.entry(fac.clone()).or_insert_with(|| json!({"evaluations":0,"labels":{},"wall_s":0.0}));
                    e["evaluations"] = json!(e["evaluations"].as_u64().unwrap() + v["evals"].as_u64().unwrap());
                    e["wall_s"] = json!((e["wall_s"].as_f64().unwrap()).max(v["wall"].as_f64().unwrap()));
                    for (k, n) in v["labels"].as_object().unwrap() {
                        let c = e["labels"][k].as_u64().unwrap_or(0);
                        e["labels"][k] = json!(c + n.as_u64().unwrap());
                    }
                }
                Some("sample") => {
                    let n = sampled.entry(fac.clone()).or_default();
                    if *n < 2 {
                        *n += 1;
                        samples.push(json!({"facet": fac, "case": v["case"]}));
                    }
                }
                Some("verbose") => {
                    println!("--- {} {} {}\n{}", fac, v["labels"], v["res"].as_str().unwrap_or(""), v["case"].as_str().unwrap_or(""));
                }
                Some("fail") => fails.push(v.clone()),
                _ => {}
            }
        }
    }
    for (f, n) in nts.iter().fold(BTreeMap::<String, u64>::new(), |mut m, (f, _)| {
        *m.entry(f.clone()).or_default() += 1;
        m
    }) {
        if let Some(e) = by_facet.get_mut(&f) {
            e["distinct_nontrivial"] = json!(n);
        }
    }
    let _ = std::fs::remove_dir_all(&work);
    // known findings
    let mut known_lines = vec![];
    let kf: J = std::fs::read_to_string(verif_dir().join("known_findings.json"))
        .ok()
        .and_then(|s| serde_json::from_str(&s).ok())
        .unwrap_or(json!({"findings":[]}));
    for f in kf["findings"].as_array().cloned().unwrap_or_default() {
        if f["property"] == id {
            let kid = f["id"].as_str().unwrap_or("");
            let o = std::process::Command::new(std::env::current_exe().unwrap())
                .args([id, "--known", kid])
                .stderr(std::process::Stdio::null())
                .output();
            if let Ok(o) = o {
                for l in String::from_utf8_lossy(&o.stdout).lines() {
                    if let Some(d) = l.strip_prefix("K\t") {
                        known_lines.push(format!("KNOWN-FINDING: property={id} {}", d.replace('\t', ": ")));
                    }
                }
            }
        }
    }
    let rule = p.facets.iter().map(|f| format!("[{}] {}", f.name, f.rule)).collect::<Vec<_>>().join(" ");
    let ev = json!({
        "property": id,
        "tier": if thorough() {"thorough"} else {"quick"},
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": nts.len(),
            "rule": rule,
            "samples": samples,
            "facets": by_facet,
            "inconclusive": inconclusive,
            "known_findings_present": known_lines.len(),
        },
        "assumptions": p.assumptions,
        "wall_s": (t0.elapsed().as_secs_f64()*100.0).round()/100.0,
        "violations": fails.len(),
    });
    let _ = std::fs::write(
        verif_dir().join("evidence").join(format!("{id}.json")),
        serde_json::to_string_pretty(&ev).unwrap(),
    );
    for l in &known_lines {
        println!("{l}");
    }
    println!(
        "{id}: {evals} evaluations, {} distinct non-trivial, {:.1}s",
        nts.len(),
        t0.elapsed().as_secs_f64()
    );
    for (f, e) in &by_facet {
        println!("  {f}: {} evals, {} nt, {:.1}s {}", e["evaluations"], e["distinct_nontrivial"], e["wall_s"].as_f64().unwrap_or(0.0),
            if std::env::var("VERIF_LABELS").is_ok() { e["labels"].to_string() } else { String::new() });
    }
    if !fails.is_empty() {
        let mut seen = HashSet::new();
        for f in &fails {
            let key = format!("{}-{}", f["facet"].as_str().unwrap(), f["sig"].as_str().unwrap());
            if !seen.insert(key.clone()) {
                continue;
            }
            let name: String = key.chars().map(|c| if c.is_ascii_alphanumeric() || c == '-' { c } else { '_' }).take(60).collect();
            let path = out_dir().join("replays").join(format!("{id}-{name}.json"));
            let mut f = f.clone();
            f["property"] = json!(id);
            f["seed"] = json!(seed);
            f["replay_with"] = json!(format!("/verif/run.sh --replay {}", path.display()));
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&f).unwrap());
            let mut m = f["msg"].as_str().unwrap_or("").to_string();
            truncate(&mut m, 3000);
            println!("facet {} [{}] case:\n{}\n{}", f["facet"], f["sig"], f["case"].as_str().unwrap_or(""), m);
            println!("VIOLATION property={id} replay={}", path.display());
        }
        std::process::exit(1);
    }
    if !errors.is_empty() {
        for e in &errors {
            eprintln!("ERROR: {e}");
        }
        std::process::exit(2);
    }
    if evals == 0 {
        eprintln!("ERROR: nothing evaluated");
        std::process::exit(2);
    }
    std::process::exit(0);
}

fn has_fail(p: &PathBuf) -> bool {
    std::fs::read_to_string(p).map(|t| t.lines().any(|l| l.contains("\"t\":\"fail\""))).unwrap_or(false)
}

fn read_status(p: &PathBuf) -> (usize, u64) {
    let b = std::fs::read(p).unwrap_or_default();
    if b.len() < 16 {
        return (0, 0);
    }
    (
        u64::from_le_bytes(b[..8].try_into().unwrap()) as usize,
        u64::from_le_bytes(b[8..16].try_into().unwrap()),
    )
}

/// Re-run one case in its own process; if it crashes again, shrink it with a
/// bounded number of subprocess runs. Returns (choices or null, how).
fn confirm_crash(id: &str, p: &Prop, f: usize, i: u64, seed: u64, work: &PathBuf) -> Option<(J, String)> {
    let file = work.join("crash.json");
    std::fs::write(&file, json!({"facet": p.facets[f].name, "index": i, "seed": seed, "choices": null}).to_string()).ok()?;
    let st = std::process::Command::new(std::env::current_exe().unwrap())
        .arg(id)
        .arg("--replay-quiet")
        .arg(&file)
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status()
        .ok()?;
    use std::os::unix::process::ExitStatusExt;
    match (st.code(), st.signal()) {
        (Some(0), _) => None,
        (Some(1), _) => Some((J::Null, "fails on replay".into())),
        (Some(97), _) => None,
        (_, Some(libc::SIGKILL)) => None,
        (c, s) => Some((J::Null, format!("exit code {c:?}, signal {s:?}"))),
    }
}
