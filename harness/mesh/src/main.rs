mod boundary;
mod cells;
mod convert;
mod procedural;
mod refine;
mod reorder;
mod select;
fn main() {
    vlib::main_with(&[
        ("M01", reorder::m01),
        ("M02", refine::m02),
        ("M03", convert::m03),
        ("M04", boundary::m04),
        ("M05", select::m05),
        ("M06", procedural::m06),
        ("M07", cells::m07),
    ])
}
