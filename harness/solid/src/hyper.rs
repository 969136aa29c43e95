//! Hyper-dual numbers: exact first and second derivatives of the reference energies (the oracle's own arithmetic).
use std::ops::{Add, Mul, Neg, Sub};
#[derive(Clone, Copy, Debug, Default)]
pub struct H {
    pub v: f64,
    pub a: f64,
    pub b: f64,
    pub ab: f64,
}
impl H {
    pub fn c(v: f64) -> H {
        H { v, ..H::default() }
    }
    fn chain(self, f: f64, d: f64, dd: f64) -> H {
        H { v: f, a: d * self.a, b: d * self.b, ab: d * self.ab + dd * self.a * self.b }
    }
    pub fn ln_1p(self) -> H {
        let q = 1.0 / (1.0 + self.v);
        self.chain(self.v.ln_1p(), q, -q * q)
    }
}
impl Add for H {
    type Output = H;
    fn add(self, o: H) -> H {
        H { v: self.v + o.v, a: self.a + o.a, b: self.b + o.b, ab: self.ab + o.ab }
    }
}
impl Neg for H {
    type Output = H;
    fn neg(self) -> H {
        H { v: -self.v, a: -self.a, b: -self.b, ab: -self.ab }
    }
}
impl Sub for H {
    type Output = H;
    fn sub(self, o: H) -> H {
        self + (-o)
    }
}
impl Mul for H {
    type Output = H;
    fn mul(self, o: H) -> H {
        H {
            v: self.v * o.v,
            a: self.a * o.v + self.v * o.a,
            b: self.b * o.v + self.v * o.b,
            ab: self.ab * o.v + self.a * o.b + self.b * o.a + self.v * o.ab,
        }
    }
}
impl Mul<f64> for H {
    type Output = H;
    fn mul(self, o: f64) -> H {
        H { v: self.v * o, a: self.a * o, b: self.b * o, ab: self.ab * o }
    }
}
pub type M = Vec<Vec<H>>;
/// det(I + U) - 1 from the elementary symmetric functions of U (no cancellation for small U).
pub fn det_minus_one(u: &M) -> H {
    match u.len() {
        1 => u[0][0],
        2 => u[0][0] + u[1][1] + (u[0][0] * u[1][1] - u[0][1] * u[1][0]),
        _ => {
            let m = |i: usize, j: usize| u[i][i] * u[j][j] - u[i][j] * u[j][i];
            let det = u[0][0] * (u[1][1] * u[2][2] - u[1][2] * u[2][1]) - u[0][1] * (u[1][0] * u[2][2] - u[1][2] * u[2][0])
                + u[0][2] * (u[1][0] * u[2][1] - u[1][1] * u[2][0]);
            u[0][0] + u[1][1] + u[2][2] + m(0, 1) + m(0, 2) + m(1, 2) + det
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Model {
    Linear,
    NeoHooke,
    StVK,
}
/// The documented energy as a function of U = F - I.
pub fn energy(model: Model, u: &M, mu: f64, la: f64) -> H {
    let d = u.len();
    let tr = (0..d).fold(H::c(0.0), |s, i| s + u[i][i]);
    match model {
        Model::Linear => {
            let mut e = H::c(0.0);
            for i in 0..d {
                for j in 0..d {
                    let x = (u[i][j] + u[j][i]) * 0.5;
                    e = e + x * x * mu;
                }
            }
            e + tr * tr * (0.5 * la)
        }
        Model::StVK => {
            let mut s = H::c(0.0);
            let mut t = H::c(0.0);
            for i in 0..d {
                for j in 0..d {
                    // E = (U + U' + U'U)/2
                    let mut x = u[i][j] + u[j][i];
                    for k in 0..d {
                        x = x + u[k][i] * u[k][j];
                    }
                    x = x * 0.5;
                    s = s + x * x;
                    if i == j {
                        t = t + x;
                    }
                }
            }
            s * mu + t * t * (0.5 * la)
        }
        Model::NeoHooke => {
            let l = det_minus_one(u).ln_1p();
            // (I_C - d)/2 = tr U + |U|^2/2
            let mut n = H::c(0.0);
            for r in u {
                for x in r {
                    n = n + *x * *x;
                }
            }
            (tr + n * 0.5) * mu - l * mu + l * l * (0.5 * la)
        }
    }
}
