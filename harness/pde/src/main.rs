mod common;
mod misc;
mod nested;
mod patch;
fn main() {
    vlib::main_with(&[("P01", patch::p01), ("P02", nested::p02), ("Q03", misc::q03)])
}
