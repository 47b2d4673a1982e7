#![allow(dead_code, unused_imports, unused_macros)]
#[macro_use]
#[path = "../src/mk.rs"]
mod mk;
#[path = "../src/fw.rs"]
mod fw;
#[path = "../src/ops.rs"]
mod ops;
#[path = "../src/tf.rs"]
mod tf;
#[path = "../src/run.rs"]
mod run;
#[path = "../src/reorg.rs"]
mod reorg;
fn main() { run::harness(reorg::c05) }
