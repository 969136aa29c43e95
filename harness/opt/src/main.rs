mod cg;
mod diff;
mod newton;
fn main() {
    vlib::main_with(&[("N01", cg::n01), ("N02", newton::n02), ("N03", diff::n03)])
}
