use harness::{engine, props};
fn main() {
    engine::main(|| vec![props::c25::prop(), props::c15::prop(), props::c26::prop(), props::c21::prop()])
}
