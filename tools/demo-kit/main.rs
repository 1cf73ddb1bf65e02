//! Evaluates each `*.eu` case beside the demo and compares the JSON with `*.out`.
use eucalypt::driver::{options::EucalyptOptions, prepare, source::SourceLoader, statistics::Timings};
use eucalypt::eval::bytecode::{self, BytecodeMachine};
use eucalypt::eval::stg::{self, make_standard_runtime, runtime::Runtime, RenderType, StgSettings};
use eucalypt::syntax::input::{Input, Locator};

struct Out(std::rc::Rc<std::cell::RefCell<Vec<u8>>>);
impl std::io::Write for Out {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.borrow_mut().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn eval(src: &str, format: &str) -> Result<String, String> {
    let input = Input::new(Locator::Literal(src.to_string()), None, "eu");
    let mut opt = EucalyptOptions::default().with_explicit_inputs(vec![input]).build();
    for i in opt.prologue_inputs.iter_mut() {
        if matches!(i.locator(), Locator::Resource(r) if r == "build-meta") {
            *i = Input::new(Locator::Literal("version: \"0\"".into()), Some("__build".into()), "eu");
        }
    }
    opt.source_prelude = true;
    let mut loader = SourceLoader::new(vec![]).with_seed(Some(1));
    prepare::prepare(&opt, &mut loader, &mut Timings::default()).map_err(|e| format!("prepare: {e}"))?;
    let (_f, mut sm, mut core, _a, _s) = loader.complete();
    let rt = make_standard_runtime(&mut sm);
    let (annotated, _x, named) = eucalypt::core::analyse_demand::analyse_demands(&core);
    core = eucalypt::core::reflatten::reflatten(&annotated);
    let set = StgSettings {
        generate_annotations: true,
        render_type: RenderType::RenderDoc,
        heap_limit_mib: Some(1024),
        user_demand_sigs: named,
        ..Default::default()
    };
    let syn = stg::compile(&set, core, rt.as_ref()).map_err(|e| format!("compile: {e}"))?;
    let (prog, root, g) = bytecode::encode(&syn, &rt.globals());
    let buf = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
    let mut w = Out(buf.clone());
    {
        let mut em = eucalypt::export::create_emitter(format, &mut w).ok_or("no such format")?;
        em.stream_start().map_err(|e| e.to_string())?;
        let mut m = BytecodeMachine::new(prog, root, &g, rt.intrinsics(), em, 1024, false)
            .map_err(|e| format!("run: {e}"))?;
        m.run(Some(50_000_000)).map_err(|e| format!("run: {e}"))?;
        m.take_emitter().stream_end().map_err(|e| e.to_string())?;
    }
    let s = String::from_utf8_lossy(&buf.borrow()).into_owned();
    Ok(s)
}

fn main() {
    let dir = std::path::PathBuf::from(std::env::args().nth(1).expect("case directory"));
    let mut bad = 0;
    let mut n = 0;
    let mut names: Vec<_> = std::fs::read_dir(&dir).unwrap().flatten().map(|e| e.path()).collect();
    names.sort();
    for p in names {
        if p.extension().and_then(|e| e.to_str()) != Some("eu") {
            continue;
        }
        n += 1;
        let src = std::fs::read_to_string(&p).unwrap();
        let want = std::fs::read_to_string(p.with_extension("out")).unwrap();
        let src2 = src.clone();
        let got = std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn(move || eval(&src2, "json"))
            .unwrap()
            .join()
            .unwrap_or_else(|_| Err("crashed".into()));
        let squash = |s: &str| s.chars().filter(|c| !c.is_whitespace()).collect::<String>();
        let got = match got {
            Ok(s) => s,
            Err(e) => format!("error {e}"),
        };
        let ok = if want.trim() == "ERROR" { got.starts_with("error run") } else { squash(&got) == squash(&want) };
        if !ok {
            bad += 1;
            println!("{}: expected {} but got {}", p.display(), want.trim(), got.trim());
        }
    }
    if n == 0 {
        std::process::exit(3);
    }
    std::process::exit(if bad > 0 { 1 } else { 0 });
}
