use harness::{engine, props};
fn main() {
    engine::main(|| vec![props::c01::prop(), props::c02::prop()])
}
