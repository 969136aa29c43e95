mod asm;
mod dirichlet;
mod par;
fn main() {
    vlib::main_with(&[
        ("C03", par::c03),
        ("C04", asm::c04),
        ("C05", par::c05),
        ("C06", asm::c06),
        ("C07", dirichlet::c07),
    ])
}
