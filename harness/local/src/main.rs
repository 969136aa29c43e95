mod common;
mod elliptic;
mod integrals;
mod linear;
mod tables;
fn main() {
    vlib::main_with(&[
        ("L01", elliptic::l01),
        ("L02", linear::l02),
        ("L03", linear::l03),
        ("L04", tables::l04),
        ("L05", integrals::l05),
    ])
}
