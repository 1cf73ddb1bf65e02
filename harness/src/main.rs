use harness::*;
fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mode = args[1].clone();
    std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        let src = if args[2] == "-" { std::io::read_to_string(std::io::stdin()).unwrap() } else { args[2].clone() };
        if mode == "cst" {
            println!("{:#?}", eucalypt::syntax::rowan::parse_unit(&src).syntax_node());
            return;
        }
        if let Some(spec) = mode.strip_prefix("fmt:") {
            let v: Vec<&str> = spec.split(',').collect();
            let c = eucalypt::syntax::export::format::FormatterConfig::new(v[0].parse().unwrap(), v[1].parse().unwrap(), v[2] == "r");
            match eucalypt::syntax::export::format::format_source(&src, &c) { Ok(s) => print!("{s}"), Err(e) => println!("ERR {e}") }
            return;
        }
        let o = match mode.as_str() { "none" => ev::Opts::no_prelude(), "source" => ev::Opts::source(), _ => ev::Opts::default() };
        let n: usize = std::env::var("N").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let t = std::time::Instant::now();
        for i in 0..n {
            if mode == "expr" {
                for o in ev::eval_batch("", &[src.clone()], &o) { if i == 0 { println!("{}", o.show()) } }
            } else {
                let r = ev::eval_unit(&src, &o);
                if i == 0 { println!("{} ticks {} gcs {}", r.show(), r.ticks, r.gcs); }
            }
        }
        eprintln!("{:?} each", t.elapsed() / n as u32);
    }).unwrap().join().unwrap();
}
