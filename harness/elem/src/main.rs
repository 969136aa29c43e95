mod basis;
mod closest;
mod geo;
mod inverse;
mod space;
pub use vfem::view;
fn main() {
    vlib::main_with(&[
        ("E01", basis::e01),
        ("E02", geo::e02),
        ("E03", inverse::e03),
        ("S01", space::s01),
        ("S02", space::s02),
    ])
}
