mod c01;
mod c02;
mod d01;
mod gen;
mod monitor;
mod split;
fn main() {
    vlib::main_with(&[("C01", c01::run), ("C02", c02::run), ("D01", d01::run)])
}
