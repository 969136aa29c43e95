mod boxes;
mod geo;
mod planar;
mod polyhedra;
mod prims;
mod shapes;
fn main() {
    vlib::main_with(&[("G01", planar::g01), ("G02", prims::g02), ("G03", polyhedra::g03), ("G04", boxes::g04), ("G05", shapes::g05)])
}
