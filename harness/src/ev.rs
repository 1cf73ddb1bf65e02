//! Evaluation of eucalypt source through the real driver pipeline, with the
//! rendered events captured as a value tree.

use eucalypt::driver::options::EucalyptOptions;
use eucalypt::driver::prepare;
use eucalypt::driver::source::SourceLoader;
use eucalypt::driver::statistics::Timings;
use eucalypt::eval::bytecode::{self, BytecodeMachine};
use eucalypt::eval::emit::{Emitter, Event};
use eucalypt::eval::error::ExecutionError;
use eucalypt::eval::primitive::Primitive;
use eucalypt::eval::stg::blob::PreludeBlob;
use eucalypt::eval::stg::{self, make_standard_runtime, runtime::Runtime, RenderType, StgSettings};
use eucalypt::export::error::RenderError;
use eucalypt::syntax::input::{Input, Locator};
use std::cell::RefCell;
use std::fmt;
use std::rc::Rc;

/// Output values.
#[derive(Clone, PartialEq)]
pub enum V {
    Null,
    Bool(bool),
    Int(i128),
    Float(f64),
    Str(String),
    Sym(String),
    Time(String),
    List(Vec<V>),
    Block(Vec<(V, V)>),
}

impl fmt::Debug for V {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            V::Null => write!(f, "null"),
            V::Bool(b) => write!(f, "{b}"),
            V::Int(n) => write!(f, "{n}"),
            V::Float(x) => write!(f, "{x:?}f"),
            V::Str(s) => write!(f, "{s:?}"),
            V::Sym(s) => write!(f, ":{s}"),
            V::Time(s) => write!(f, "t\"{s}\""),
            V::List(xs) => f.debug_list().entries(xs).finish(),
            V::Block(kvs) => f.debug_map().entries(kvs.iter().map(|(k, v)| (k, v))).finish(),
        }
    }
}

impl V {
    pub fn s(x: impl Into<String>) -> V {
        V::Str(x.into())
    }
    pub fn i(x: impl Into<i128>) -> V {
        V::Int(x.into())
    }
    pub fn list(xs: impl IntoIterator<Item = V>) -> V {
        V::List(xs.into_iter().collect())
    }
    /// Lookup by text key in a block.
    pub fn get(&self, k: &str) -> Option<&V> {
        match self {
            V::Block(kvs) => kvs
                .iter()
                .find(|(q, _)| matches!(q, V::Sym(s) | V::Str(s) if s == k))
                .map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn key(&self) -> Option<&str> {
        match self {
            V::Sym(s) | V::Str(s) => Some(s),
            _ => None,
        }
    }
    /// Equality up to float/int representation and NaN.
    pub fn same(&self, o: &V) -> bool {
        match (self, o) {
            (V::Float(a), V::Float(b)) => a == b || (a.is_nan() && b.is_nan()),
            (V::List(a), V::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same(y)),
            (V::Block(a), V::Block(b)) => {
                a.len() == b.len() && a.iter().zip(b).all(|((k, x), (l, y))| k.key() == l.key() && x.same(y))
            }
            (a, b) => a == b,
        }
    }
}

pub fn prim(p: &Primitive) -> V {
    match p {
        Primitive::Sym(s) => V::Sym(s.clone()),
        Primitive::Str(s) => V::Str(s.clone()),
        Primitive::Bool(b) => V::Bool(*b),
        Primitive::Null => V::Null,
        Primitive::ZonedDateTime(d) => V::Time(d.to_rfc3339()),
        Primitive::Num(n) => {
            if let Some(i) = n.as_i64() {
                V::Int(i as i128)
            } else if let Some(u) = n.as_u64() {
                V::Int(u as i128)
            } else {
                V::Float(n.as_f64().unwrap_or(f64::NAN))
            }
        }
    }
}

/// Build value trees from emitter events; None if the events are malformed.
pub fn tree(events: &[Event]) -> Result<V, String> {
    enum Fr {
        L(Vec<V>),
        B(Vec<V>),
    }
    let mut stack: Vec<Fr> = vec![];
    let mut docs: Vec<V> = vec![];
    let push = |stack: &mut Vec<Fr>, v: V, docs: &mut Vec<V>| match stack.last_mut() {
        Some(Fr::L(xs)) | Some(Fr::B(xs)) => xs.push(v),
        None => docs.push(v),
    };
    for e in events {
        match e {
            Event::OutputScalar(_, p) => push(&mut stack, prim(p), &mut docs),
            Event::OutputSequenceStart(_) => stack.push(Fr::L(vec![])),
            Event::OutputBlockStart(_) => stack.push(Fr::B(vec![])),
            Event::OutputSequenceEnd => match stack.pop() {
                Some(Fr::L(xs)) => push(&mut stack, V::List(xs), &mut docs),
                _ => return Err(format!("unbalanced sequence end in {events:?}")),
            },
            Event::OutputBlockEnd => match stack.pop() {
                Some(Fr::B(xs)) => {
                    if xs.len() % 2 != 0 {
                        return Err(format!("odd number of key/value events in {events:?}"));
                    }
                    let mut kv = vec![];
                    let mut it = xs.into_iter();
                    while let (Some(k), Some(v)) = (it.next(), it.next()) {
                        kv.push((k, v));
                    }
                    push(&mut stack, V::Block(kv), &mut docs)
                }
                _ => return Err(format!("unbalanced block end in {events:?}")),
            },
            Event::OutputAlias => return Err("alias".into()),
            _ => {}
        }
    }
    if !stack.is_empty() {
        return Err("unclosed".into());
    }
    match docs.len() {
        1 => Ok(docs.pop().unwrap()),
        n => Err(format!("{n} documents")),
    }
}

pub struct Cap(pub Rc<RefCell<Vec<Event>>>);
impl Emitter for Cap {
    fn emit(&mut self, event: Event) -> Result<(), RenderError> {
        self.0.borrow_mut().push(event);
        Ok(())
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Prelude {
    None,
    Source,
    Blob,
}

#[derive(Clone, Debug)]
pub struct Opts {
    pub prelude: Prelude,
    pub heap_mib: Option<usize>,
    pub limit: Option<usize>,
    pub suppress_optimiser: bool,
    pub suppress_inlining: bool,
    pub suppress_updates: bool,
    pub suppress_demand: bool,
    pub no_annot: bool,
    pub no_dce: bool,
    /// skip core passes (split, hoist, inline, fuse, eliminate): bitmask
    pub skip: u32,
    pub reflatten: bool,
    pub allow_io: bool,
    pub test_mode: bool,
    pub seed: Option<i64>,
    pub lib_path: Vec<std::path::PathBuf>,
}

pub const SKIP_SPLIT: u32 = 1;
pub const SKIP_HOIST: u32 = 2;
pub const SKIP_INLINE: u32 = 4;
pub const SKIP_FUSE: u32 = 8;
pub const SKIP_ELIM: u32 = 16;

impl Default for Opts {
    fn default() -> Self {
        Opts {
            prelude: Prelude::Blob,
            heap_mib: Some(1024),
            limit: Some(30_000_000),
            suppress_optimiser: false,
            suppress_inlining: false,
            suppress_updates: false,
            suppress_demand: false,
            no_annot: false,
            no_dce: false,
            skip: 0,
            reflatten: true,
            allow_io: false,
            test_mode: false,
            seed: Some(1),
            lib_path: vec![],
        }
    }
}

impl Opts {
    pub fn no_prelude() -> Self {
        Opts { prelude: Prelude::None, ..Opts::default() }
    }
    pub fn source() -> Self {
        Opts { prelude: Prelude::Source, ..Opts::default() }
    }
}

#[derive(Clone, Debug)]
pub struct Err {
    pub stage: &'static str,
    pub msg: String,
    /// the execution error variant name where there is one
    pub kind: String,
}

#[derive(Debug)]
pub struct Out {
    pub value: Result<V, Err>,
    pub ticks: u64,
    pub gcs: u64,
}

impl Out {
    pub fn ok(&self) -> Option<&V> {
        self.value.as_ref().ok()
    }
    /// The same value, or failure in both.
    pub fn agrees(&self, o: &Out) -> bool {
        match (&self.value, &o.value) {
            (Ok(a), Ok(b)) => a.same(b),
            (Err(_), Err(_)) => true,
            _ => false,
        }
    }
    pub fn timed_out(&self) -> bool {
        matches!(&self.value, Err(e) if e.kind == "DidntTerminate")
    }
    pub fn show(&self) -> String {
        match &self.value {
            Ok(v) => format!("{v:?}"),
            Err(e) => format!("error[{}:{}] {}", e.stage, e.kind, e.msg.lines().next().unwrap_or("")),
        }
    }
}

thread_local! {
    static BLOB: RefCell<Option<Option<PreludeBlob>>> = const { RefCell::new(None) };
}

pub fn blob() -> Option<PreludeBlob> {
    BLOB.with(|b| {
        let mut b = b.borrow_mut();
        if b.is_none() {
            let loaded = std::env::var("EU_CHECK_BLOB")
                .ok()
                .and_then(|p| std::fs::read(p).ok())
                .and_then(|bytes| PreludeBlob::from_bytes(&bytes).ok());
            *b = Some(loaded);
        }
        b.as_ref().unwrap().clone()
    })
}

pub fn kind_of(e: &ExecutionError) -> String {
    let mut e = e;
    while let ExecutionError::Traced(inner, _) = e {
        e = inner;
    }
    let d = format!("{e:?}");
    let k = d.split(|c: char| !c.is_alphanumeric() && c != '_').next().unwrap_or("").to_string();
    if k == "Compile" {
        d.split("Smid(").next().unwrap_or("").chars().take(60).collect()
    } else {
        k
    }
}

fn exec_err(stage: &'static str, e: &ExecutionError) -> Err {
    Err { stage, kind: kind_of(e), msg: format!("{e}") }
}

/// One eucalypt unit.
pub fn unit_input(src: &str) -> Input {
    Input::new(Locator::Literal(src.to_string()), None, "eu")
}

pub fn options(o: &Opts, inputs: Vec<Input>) -> EucalyptOptions {
    let mut opt = EucalyptOptions::default().with_explicit_inputs(inputs);
    if o.prelude == Prelude::None {
        opt = opt.without_prelude();
    }
    let mut opt = opt.build();
    opt.stg_settings = settings(o);
    opt.no_dce = o.no_dce;
    opt.allow_io = o.allow_io;
    opt.source_prelude = o.prelude == Prelude::Source;
    opt
}

fn settings(o: &Opts) -> StgSettings {
    StgSettings {
        generate_annotations: !o.no_annot,
        render_type: RenderType::Headless,
        suppress_updates: o.suppress_updates,
        suppress_inlining: o.suppress_inlining,
        suppress_optimiser: o.suppress_optimiser,
        heap_limit_mib: o.heap_mib,
        test_mode: o.test_mode,
        suppress_demand_analysis: o.suppress_demand,
        ..Default::default()
    }
}

pub fn loader(o: &Opts) -> SourceLoader {
    let mut l = SourceLoader::new(o.lib_path.clone()).with_seed(o.seed);
    if o.prelude == Prelude::Blob {
        if let Some(b) = blob() {
            l.set_prelude_blob(b);
        }
    }
    l
}

pub fn eval_unit(src: &str, o: &Opts) -> Out {
    eval_inputs(vec![unit_input(src)], o)
}

fn stage_err<T: fmt::Display>(stage: &'static str, e: T) -> Out {
    Out { value: Err(Err { stage, kind: String::new(), msg: e.to_string() }), ticks: 0, gcs: 0 }
}

/// Run the whole pipeline over the inputs.
pub fn eval_inputs(inputs: Vec<Input>, o: &Opts) -> Out {
    let opt = options(o, inputs);
    let mut loader = loader(o);
    if o.skip == 0 {
        let mut t = Timings::default();
        if let Err(e) = prepare::prepare(&opt, &mut loader, &mut t) {
            return stage_err("prepare", e);
        }
    } else {
        if let Err(e) = prepare_skipping(&opt, &mut loader, o.skip) {
            return stage_err("prepare", e);
        }
    }
    run_loaded(loader, o, |ev| Box::new(Cap(ev)))
}

/// The front end with chosen optional passes left out.
fn prepare_skipping(
    opt: &EucalyptOptions,
    loader: &mut SourceLoader,
    skip: u32,
) -> Result<(), eucalypt::driver::error::EucalyptError> {
    let default_prelude = Input::new(Locator::Resource("prelude".to_string()), None, "eu");
    let mut inputs = opt.inputs();
    if loader.has_prelude_blob() {
        inputs.retain(|i| i != &default_prelude);
    }
    for i in &inputs {
        loader.load(i)?;
    }
    if let Some(e) = loader.drain_parse_errors().into_iter().next() {
        return Err(e);
    }
    for i in &inputs {
        loader.translate(i)?;
    }
    loader.merge_units(&inputs)?;
    if loader.core().has_target("main") {
        loader.retarget("main")?;
    }
    loader.cook()?;
    if skip & SKIP_SPLIT == 0 {
        loader.split_letrecs();
    }
    if skip & SKIP_HOIST == 0 {
        loader.hoist_namespaces()?;
    }
    if skip & SKIP_ELIM == 0 {
        loader.eliminate()?;
    }
    loader.inject_prelude_inlinable_bindings();
    if skip & SKIP_INLINE == 0 {
        loader.inline()?;
        loader.inline()?;
    }
    if skip & SKIP_FUSE == 0 {
        loader.fuse_destructure()?;
    }
    if skip & SKIP_ELIM == 0 {
        loader.eliminate()?;
    }
    Ok(())
}

/// Compile and run what the loader holds.
pub fn run_loaded(
    mut loader: SourceLoader,
    o: &Opts,
    mk: impl FnOnce(Rc<RefCell<Vec<Event>>>) -> Box<dyn Emitter>,
) -> Out {
    let blob = loader.take_prelude_blob();
    let (_files, mut source_map, mut evaluand, args, seed) = loader.complete();
    let mut rt = make_standard_runtime(&mut source_map);
    let mut set = settings(o);
    if let Some(ref b) = blob {
        let mut names = vec![String::new(); b.binding_entries.len()];
        for (name, &slot) in &b.name_to_slot {
            if slot < names.len() {
                names[slot] = name.clone();
            }
        }
        rt.set_prelude_bindings(b.nodes.clone(), b.forms_pool.clone(), b.binding_entries.clone(), names);
        let ov = StgSettings {
            generate_annotations: false,
            suppress_inlining: true,
            render_type: RenderType::Headless,
            prelude_globals: Some(b.name_to_slot.clone()),
            ..Default::default()
        };
        for (n, e) in [
            ("__args", eucalypt::driver::io::create_args_pseudoblock(&args)),
            ("__io", eucalypt::driver::io::create_io_pseudoblock(seed)),
        ] {
            if let Some(&slot) = b.name_to_slot.get(n) {
                if let Ok(s) = stg::compile(&ov, e, rt.as_ref()) {
                    rt.set_prelude_slot_override(slot, stg::syntax::LambdaForm::thunk(s));
                }
            }
        }
        set.prelude_globals = Some(b.name_to_slot.clone());
    }
    if !o.suppress_demand {
        let (annotated, _s, named) = eucalypt::core::analyse_demand::analyse_demands(&evaluand);
        evaluand = annotated;
        set.user_demand_sigs = named;
    }
    if o.reflatten {
        evaluand = eucalypt::core::reflatten::reflatten(&evaluand);
    }
    let syn = match stg::compile(&set, evaluand, rt.as_ref()) {
        Ok(s) => s,
        Err(e) => {
            let e: ExecutionError = e.into();
            return Out { value: Err(exec_err("compile", &e)), ticks: 0, gcs: 0 };
        }
    };
    let (prog, root, gforms) = match blob.as_ref().and_then(|b| b.bytecode.as_ref()) {
        Some(image) => {
            let mut g = image.global_forms.clone();
            let ovs = rt.prelude_global_overrides();
            let (p, r) = bytecode::encode_overrides_and_root(&image.program, &ovs, &mut g, &syn);
            (p, r, g)
        }
        None => bytecode::encode(&syn, &rt.globals()),
    };
    let events = Rc::new(RefCell::new(vec![]));
    let emitter = mk(events.clone());
    let mut m = match BytecodeMachine::new(
        prog,
        root,
        &gforms,
        rt.intrinsics(),
        emitter,
        o.heap_mib.unwrap_or(0),
        o.test_mode,
    ) {
        Ok(m) => m,
        Err(e) => return Out { value: Err(exec_err("run", &e)), ticks: 0, gcs: 0 },
    };
    let r = run_machine(&mut m, o);
    let ticks = m.metrics().ticks();
    let gcs = m.heap_stats().collections_count as u64;
    let value = match r {
        Err(e) => Err(e),
        Ok(()) => tree(&events.borrow()).map_err(|msg| Err { stage: "events", kind: "Malformed".into(), msg }),
    };
    Out { value, ticks, gcs }
}

fn run_machine(m: &mut BytecodeMachine<'_>, o: &Opts) -> Result<(), Err> {
    m.run(o.limit).map_err(|e| exec_err("run", &e))?;
    if m.io_yielded() || eucalypt::driver::bytecode_io_run::inject_world_and_run(m).map_err(io_err)? {
        eucalypt::driver::bytecode_io_run::io_run_and_render(m, o.allow_io).map_err(io_err)?;
        return Ok(());
    }
    let value = m.current();
    let idx = eucalypt::eval::intrinsics::index("RENDER_DOC").expect("RENDER_DOC");
    let g = m.global_value(idx).map_err(|e| exec_err("run", &e))?;
    let c = m.build_apply1(g, value).map_err(|e| exec_err("run", &e))?;
    m.resume(c);
    m.run(o.limit).map_err(|e| exec_err("run", &e))?;
    Ok(())
}

fn io_err(e: eucalypt::driver::io_common::IoRunError) -> Err {
    use eucalypt::driver::io_common::IoRunError::*;
    match e {
        MachineError(b) => exec_err("run", &b),
        IoNotAllowed(_) => Err { stage: "run", kind: "IoNotAllowed".into(), msg: String::new() },
        Fail(m) => Err { stage: "run", kind: "IoFail".into(), msg: m },
        Timeout(_, _) => Err { stage: "run", kind: "IoTimeout".into(), msg: String::new() },
        CommandError(_, m) => Err { stage: "run", kind: "IoCommandError".into(), msg: m },
    }
}

thread_local! {
    static TAP: RefCell<Option<Vec<(String, Vec<String>)>>> = const { RefCell::new(None) };
}

/// Run `f`, noting the batches it asks to evaluate instead of evaluating them.
pub fn tap(f: impl FnOnce()) -> Vec<(String, Vec<String>)> {
    TAP.with(|t| *t.borrow_mut() = Some(vec![]));
    f();
    TAP.with(|t| t.borrow_mut().take()).unwrap_or_default()
}

/// Evaluate a list of expressions as members of one block. Returns one
/// result per expression: a batch failure falls back to one at a time.
pub fn eval_batch(prefix: &str, exprs: &[String], o: &Opts) -> Vec<Out> {
    if exprs.is_empty() {
        return vec![];
    }
    let tapped = TAP.with(|t| match t.borrow_mut().as_mut() {
        Some(v) => {
            v.push((prefix.to_string(), exprs.to_vec()));
            true
        }
        None => false,
    });
    if tapped {
        let none = |_: &String| Out {
            value: Err(Err { stage: "run", kind: "DidntTerminate".into(), msg: String::new() }),
            ticks: 0,
            gcs: 0,
        };
        return exprs.iter().map(none).collect();
    }
    let mut src = String::from(prefix);
    src.push('\n');
    src.push_str("zz-batch: {\n");
    for (i, e) in exprs.iter().enumerate() {
        src.push_str(&format!("  r{i}: {e}\n"));
    }
    src.push_str("}\n` { target: :main }\nzz-main: zz-batch\n");
    if exprs.len() > 1 {
        let out = eval_unit(&src, o);
        if let Ok(v) = &out.value {
            let mut res = vec![];
            for i in 0..exprs.len() {
                match v.get(&format!("r{i}")) {
                    Some(x) => res.push(Out { value: Ok(x.clone()), ticks: out.ticks, gcs: out.gcs }),
                    None => break,
                }
            }
            if res.len() == exprs.len() {
                return res;
            }
        }
        let mid = exprs.len() / 2;
        let mut a = eval_batch(prefix, &exprs[..mid], o);
        a.extend(eval_batch(prefix, &exprs[mid..], o));
        return a;
    }
    let src = format!("{prefix}\n` {{ target: :main }}\nzz-main: {{ r0: {} }}\n", exprs[0]);
    let out = eval_unit(&src, o);
    let value = match out.value {
        Ok(v) => match v.get("r0") {
            Some(x) => Ok(x.clone()),
            None => Err(Err { stage: "render", kind: "Omitted".into(), msg: "member not rendered".into() }),
        },
        Err(e) => Err(e),
    };
    vec![Out { value, ticks: out.ticks, gcs: out.gcs }]
}
