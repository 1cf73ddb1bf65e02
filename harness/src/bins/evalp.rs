use harness::{engine, props};
fn main() {
    if std::env::args().nth(1).as_deref() == Some("C08") {
        // freed memory is overwritten, and the heap checked around each collection
        std::env::set_var("EU_GC_POISON", "1");
        std::env::set_var("EU_GC_VERIFY", "1");
    }
    engine::main(|| vec![props::c03::prop(), props::c04::prop(), props::c05::prop(), props::c06::prop(), props::c07::prop(), props::c08::prop(), props::c09::prop(), props::c10::prop(), props::c11::prop(), props::c12::prop(), props::c13::prop(), props::c14::prop(), props::c23::prop(), props::c27::prop(), props::c18::prop(), props::c19::prop()])
}
