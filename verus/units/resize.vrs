//@ unit-props C04 C15
//@ unit-title resizing with a buffer
//@ include prelude
//@ include complex
//@ include memops
//@ include resizeb
}
fn main() {}
