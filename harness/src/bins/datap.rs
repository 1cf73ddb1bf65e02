use harness::{engine, props};
fn main() {
    engine::main(|| vec![props::c16::prop(), props::c17::prop()])
}
