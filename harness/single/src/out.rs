/// What a computation returned: numbers (name, allowed difference in units of single precision rounding of the scale,
/// scale or 0 for the largest number, values) and combinatorial results, which must agree exactly.
#[derive(Clone, Debug, Default)]
pub struct Out {
    pub nums: Vec<(&'static str, f64, f64, Vec<f64>)>,
    pub ints: Vec<(&'static str, Vec<usize>)>,
    pub flags: Vec<&'static str>,
}
impl Out {
    pub fn num(&mut self, name: &'static str, mult: f64, scale: f64, x: Vec<f64>) {
        self.nums.push((name, mult, scale, x));
    }
    pub fn int(&mut self, name: &'static str, x: Vec<usize>) {
        self.ints.push((name, x));
    }
    pub fn flag(&mut self, name: &'static str) {
        self.flags.push(name);
    }
}
