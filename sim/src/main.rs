#![allow(dead_code)]
mod ask; mod ctx; mod driver; mod gens; mod model; mod ops; mod plan; mod props; mod refs; mod rngs; mod sched; mod shrink; mod stats; mod text; mod wire;
#[global_allocator]
static A: ctx::SimAlloc = ctx::SimAlloc;
fn main() {
    std::process::exit(driver::main());
}
