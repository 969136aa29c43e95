mod hyper;
mod materials;
mod matrices;
fn main() {
    vlib::main_with(&[("H01", materials::h01), ("H02", matrices::h02)])
}
