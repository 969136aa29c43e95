mod derived;
mod rules;
fn main() {
    vlib::main_with(&[("Q01", rules::q01), ("Q02", derived::q02)])
}
