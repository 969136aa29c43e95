mod msh;
mod vtk;
fn main() {
    vlib::main_with(&[("I01", msh::i01), ("I02", vtk::i02)])
}
