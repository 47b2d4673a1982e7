#![allow(dead_code, unused_imports, unused_macros)]
#[macro_use]
#[path = "../src/mk.rs"]
mod mk;
#[path = "../src/fw.rs"]
mod fw;
#[path = "../src/ops.rs"]
mod ops;
#[path = "../src/tf.rs"]
mod tf;
#[path = "../src/run.rs"]
mod run;
#[path = "../src/c03.rs"]
mod c03;
fn main() { run::harness(c03::run) }
