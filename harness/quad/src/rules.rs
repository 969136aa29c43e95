use fenris::quadrature::{tensor as ftensor, total_order, univariate as funi, Quadrature, QuadraturePair};
use fenris_quadrature::{polyquad, tensor, univariate, Error};
use vfem::oracle::*;
use vlib::{Case, Run};

pub type Flat = (Vec<f64>, Vec<Vec<f64>>);

pub fn flat<const D: usize>(r: &(Vec<f64>, Vec<[f64; D]>)) -> Flat {
    (r.0.clone(), r.1.iter().map(|p| p.to_vec()).collect())
}
pub fn flat_pair<D: fenris::nalgebra::DimName>(r: &QuadraturePair<f64, D>) -> Flat
where
    fenris::nalgebra::DefaultAllocator: fenris::nalgebra::allocator::Allocator<f64, D>,
{
    (r.0.clone(), r.1.iter().map(|p| p.coords.iter().cloned().collect()).collect())
}
fn flat32<D: fenris::nalgebra::DimName>(r: &QuadraturePair<f32, D>) -> Flat
where
    fenris::nalgebra::DefaultAllocator: fenris::nalgebra::allocator::Allocator<f32, D>,
{
    (r.0.iter().map(|&x| x as f64).collect(), r.1.iter().map(|p| p.coords.iter().map(|&x| x as f64).collect()).collect())
}

pub fn apply(r: &Flat, f: impl Fn(&[f64]) -> f64) -> f64 {
    r.0.iter().zip(&r.1).map(|(w, p)| w * f(p)).sum()
}
pub fn legendre(k: usize, t: f64) -> f64 {
    let (mut a, mut b) = (1.0, t);
    if k == 0 {
        return 1.0;
    }
    for m in 2..=k {
        let c = ((2 * m - 1) as f64 * t * b - (m - 1) as f64 * a) / m as f64;
        a = b;
        b = c;
    }
    b
}
/// a ridge polynomial of the given degree, at most 1 in the unit cube
pub struct Ridge {
    pub k: usize,
    a: Vec<f64>,
    b: f64,
}
impl Ridge {
    pub fn random(rng: &mut vlib::Rng, dim: usize, k: usize) -> Ridge {
        let mut a: Vec<f64> = (0..dim).map(|_| if rng.chance(0.2) { 0.0 } else { rng.normal() }).collect();
        if a.iter().all(|&x| x == 0.0) {
            a[0] = 1.0;
        }
        let s: f64 = a.iter().map(|x: &f64| x.abs()).sum();
        let r = rng.f(0.6, 1.0);
        a.iter_mut().for_each(|x| *x *= r / s);
        Ridge { k, a, b: rng.f(-1.0, 1.0) * (1.0 - r) }
    }
    pub fn at(&self, x: &[f64]) -> f64 {
        legendre(self.k, self.b + x.iter().zip(&self.a).map(|(x, a)| x * a).sum::<f64>())
    }
}

/// length, containment, weight sum, exactness for every polynomial of the given total (or per-coordinate) degree
fn judge(c: &mut Case, dom: Dom, r: &Flat, strength: usize, per_coordinate: bool, eps: f64, who: &str) {
    if !c.check(r.0.len() == r.1.len() && !r.0.is_empty(), "lengths", || format!("{who}: {} weights, {} points", r.0.len(), r.1.len())) {
        return;
    }
    for p in &r.1 {
        let o = dom.outside(p);
        c.check(o <= eps, "point_outside", || format!("{who}: point {p:?} lies {o:e} outside the {dom:?}"));
    }
    c.count("quadrature_points", r.0.len() as u64);
    let m = dom.measure();
    c.close(r.0.iter().sum(), m, 20.0 * eps * m, "weight_sum", || who.to_string());
    let d = dom.dim();
    let reference = dom.rule(if per_coordinate { strength / 2 + 2 } else { strength / 2 + 3 });
    let tol = 20.0 * eps * m;
    // all monomials
    let mut worst = 0;
    let n = strength as i32;
    for a in 0..=n {
        for b in 0..=(if d > 1 { n } else { 0 }) {
            for e in 0..=(if d > 2 { n } else { 0 }) {
                if !per_coordinate && a + b + e > n {
                    continue;
                }
                if per_coordinate && d == 3 && n > 9 && (a + b * 3 + e * 7) % 5 != 0 {
                    continue;
                }
                let ex = [a, b, e];
                let f = |x: &[f64]| -> f64 { (0..d).map(|k| x[k].powi(ex[k])).product() };
                let want = apply(&reference, f);
                worst += 1;
                if !c.close(apply(r, f), want, tol, "monomial", || format!("{who}: monomial {:?}", &ex[..d])) {
                    return;
                }
            }
        }
    }
    c.count("monomials_integrated", worst);
    for _ in 0..12 {
        if per_coordinate {
            let ks: Vec<usize> = (0..d).map(|_| if c.rng.bool() { strength } else { c.rng.range(0, strength) }).collect();
            let f = |x: &[f64]| -> f64 { (0..d).map(|k| legendre(ks[k], x[k])).product() };
            c.close(apply(r, f), apply(&reference, f), tol, "legendre", || format!("{who}: product of Legendre polynomials {ks:?}"));
        } else {
            let k = if c.rng.bool() { strength } else { c.rng.range(0, strength) };
            let f = Ridge::random(&mut c.rng, d, k);
            c.close(apply(r, |x| f.at(x)), apply(&reference, |x| f.at(x)), tol, "ridge", || format!("{who}: ridge polynomial of degree {k}"));
        }
        c.count("polynomials_integrated", 1);
    }
}

/// the strongest rule shipped for every domain
const MAX: [(Dom, usize); 6] =
    [(Dom::Tri, 20), (Dom::Quad, 21), (Dom::Tet, 10), (Dom::Hex, 11), (Dom::Prism, 10), (Dom::Pyramid, 10)];

fn check_polyquad(c: &mut Case) {
    // enumerated: domain x strength
    let (dom, max) = MAX[c.index as usize % 6];
    let strength = c.index as usize / 6;
    let who = format!("{dom:?} strength {strength}");
    c.desc(who.clone());
    c.key((dom, strength));
    macro_rules! get {
        ($f:ident, $fl:ident) => {{
            let a = polyquad::$f(strength).map(|r| flat(&r));
            let b = total_order::$f::<f64>(strength).map(|r| {
                // the trait view of a rule shows the same rule
                let parts = r.to_parts();
                let same = parts.weights == &r.0[..] && parts.points == &r.1[..] && r.iter().count() == r.0.len();
                (flat_pair(&r), same)
            });
            let s = total_order::$f::<f32>(strength).map(|r| flat32(&r));
            (a, b, s)
        }};
    }
    let (a, b, s) = match dom {
        Dom::Tri => get!(triangle, flat2),
        Dom::Quad => get!(quadrilateral, flat2),
        Dom::Tet => get!(tetrahedron, flat3),
        Dom::Hex => get!(hexahedron, flat3),
        Dom::Prism => get!(prism, flat3),
        _ => get!(pyramid, flat3),
    };
    match a {
        Err(e) => {
            c.check(strength > max, "missing_rule", || format!("{who}: no rule"));
            c.check(e == Error::NoRuleAvailable, "error_kind", || format!("{who}: {e:?}"));
            c.check(b.is_err() && s.is_err(), "wrappers_disagree", || who.clone());
            c.count("refusals", 1);
        }
        Ok(r) => {
            judge(c, dom, &r, strength, false, 1e-14, &who);
            match b {
                Ok((q, same)) => {
                    c.check(q == r && same, "wrapper_differs", || format!("{who}: fenris::quadrature::total_order gives another rule"));
                }
                Err(e) => c.fail("wrappers_disagree", format!("{who}: {e:?}")),
            }
            match s {
                Ok(q) => {
                    let ok = q.0.len() == r.0.len()
                        && q.0.iter().zip(&r.0).all(|(x, y)| *x == *y as f32 as f64)
                        && q.1.iter().zip(&r.1).all(|(x, y)| x.iter().zip(y).all(|(x, y)| *x == *y as f32 as f64));
                    c.check(ok, "wrapper_f32", || who.clone());
                }
                Err(e) => c.fail("wrappers_disagree", format!("{who}: {e:?}")),
            }
            c.count("rules", 1);
        }
    }
}

fn check_univariate(c: &mut Case) {
    let n = if c.index < 130 {
        c.index as usize / 2
    } else if c.index < 133 {
        // the large Gauss-Lobatto rules and a few sizes that do not exist
        [128, 256, 512][c.index as usize - 130]
    } else if c.thorough {
        c.rng.range(65, 1500)
    } else {
        c.rng.range(65, 300)
    };
    c.key((c.index < 133, n, c.index % 2));
    if (c.index % 2 == 0 && c.index < 130) || c.index >= 133 {
        c.desc(format!("gauss {n}"));
        if n == 0 {
            let r = c.catch(|| univariate::gauss(0));
            c.check(r.is_err(), "gauss_zero", || format!("{r:?}"));
            return;
        }
        let r = univariate::gauss(n);
        let f = flat(&r);
        c.check(f.0.len() == n, "gauss_size", || format!("gauss({n}) has {} points", f.0.len()));
        // large n: exactness by comparison with another Gauss rule at sampled degrees
        if n <= 64 {
            judge(c, Dom::Seg, &f, 2 * n - 1, false, 1e-14, &format!("gauss({n})"));
        } else {
            let (w, x) = gauss_legendre(n);
            let mut o: Vec<(f64, f64)> = f.1.iter().map(|p| p[0]).zip(f.0.iter().cloned()).collect();
            o.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
            for i in 0..n {
                c.close(o[i].0, x[i], 1e-13, "gauss_point", || format!("gauss({n}) point {i}"));
                c.close(o[i].1, w[i], 1e-10 * w[i], "gauss_weight", || format!("gauss({n}) weight {i}"));
            }
            c.count("quadrature_points", n as u64);
        }
        let g = funi::gauss::<f64>(n);
        c.check(flat_pair(&g) == f, "wrapper_differs", || format!("gauss({n})"));
        c.count("rules", 1);
    } else {
        c.desc(format!("lobatto {n}"));
        let r = univariate::try_gauss_lobatto(n);
        c.check(r.is_some() == ((2..=32).contains(&n) || [64, 128, 256, 512].contains(&n)), "lobatto_availability", || format!("gauss_lobatto({n}) is {}", if r.is_some() { "Some" } else { "None" }));
        let g = funi::try_gauss_lobatto::<f64>(n);
        c.check(g.is_some() == r.is_some(), "wrappers_disagree", || format!("lobatto {n}"));
        if let Some(r) = r {
            let f = flat(&r);
            c.check(f.0.len() == n, "lobatto_size", || format!("lobatto({n}) has {} points", f.0.len()));
            let lo = f.1.iter().any(|p| p[0] == -1.0);
            let hi = f.1.iter().any(|p| p[0] == 1.0);
            c.check(lo && hi, "lobatto_endpoints", || format!("lobatto({n}): {:?}", f.1));
            judge(c, Dom::Seg, &f, 2 * n - 3, false, 1e-14, &format!("lobatto({n})"));
            c.check(flat_pair(&g.unwrap()) == f, "wrapper_differs", || format!("lobatto({n})"));
            c.count("rules", 1);
        } else {
            c.count("refusals", 1);
        }
    }
}

fn check_tensor(c: &mut Case) {
    let n = 1 + c.index as usize / 2;
    c.key((n, c.index % 2));
    c.desc(format!("tensor {n} {}", c.index % 2));
    if c.index % 2 == 0 {
        let r = flat(&tensor::quadrilateral_gauss(n));
        c.check(r.0.len() == n * n, "tensor_size", || format!("{} points for {n}", r.0.len()));
        judge(c, Dom::Quad, &r, 2 * n - 1, true, 1e-14, &format!("quadrilateral_gauss({n})"));
        c.check(flat_pair(&ftensor::quadrilateral_gauss::<f64>(n)) == r, "wrapper_differs", || format!("quad {n}"));
    } else {
        let r = flat(&tensor::hexahedron_gauss(n));
        c.check(r.0.len() == n * n * n, "tensor_size", || format!("{} points for {n}", r.0.len()));
        judge(c, Dom::Hex, &r, 2 * n - 1, true, 1e-14, &format!("hexahedron_gauss({n})"));
        c.check(flat_pair(&ftensor::hexahedron_gauss::<f64>(n)) == r, "wrapper_differs", || format!("hex {n}"));
    }
    c.count("rules", 1);
}

/// `integrate` sums weight times value; views of a rule show the rule
fn check_views(c: &mut Case) {
    use fenris::nalgebra::Point2;
    use fenris::quadrature::{NoData, OwnedQuadratureParts, QuadratureParts};
    let n = c.rng.sized(0, 12, 500);
    let w: Vec<f64> = (0..n).map(|_| c.rng.f(-2.0, 2.0)).collect();
    let p: Vec<Point2<f64>> = (0..n).map(|_| Point2::new(c.rng.f(-1.0, 1.0), c.rng.f(-1.0, 1.0))).collect();
    let data: Vec<u32> = (0..n).map(|_| c.rng.u64() as u32).collect();
    c.keyf(&w);
    c.desc(format!("views of a rule with {n} points"));
    let coef = [c.rng.f(-1.0, 1.0), c.rng.f(-1.0, 1.0), c.rng.f(-1.0, 1.0)];
    let f = |q: &Point2<f64>| coef[0] + coef[1] * q.x * q.x + coef[2] * q.y;
    let want: f64 = w.iter().zip(&p).map(|(w, p)| w * f(p)).sum();
    let pair = (w.clone(), p.clone());
    let tol = 1e-13 * (1.0 + n as f64);
    let owned: OwnedQuadratureParts<f64, _, ()> = pair.clone().into();
    c.check(owned.weights == w && owned.points == p && owned.data.len() == n, "into_parts", || format!("{owned:?}"));
    let parts = owned.clone().with_data(data.clone());
    c.check(parts.weights == w && parts.points == p && parts.data == data, "with_data", || format!("{parts:?}"));
    let nodata = QuadratureParts { weights: w.clone(), points: p.clone(), data: NoData };
    macro_rules! one {
        ($q:expr, $name:literal, $d:expr) => {{
            let q = $q;
            c.check(q.weights() == &w[..] && q.points() == &p[..] && q.data() == $d, "view", || format!("{} shows another rule", $name));
            c.close(q.integrate(f), want, tol, "integrate", || format!("{} scalar", $name));
            c.close(q.integrate(|x| x.y), w.iter().zip(&p).map(|(w, p)| w * p.y).sum(), tol, "integrate", || format!("{} coordinate", $name));
            let b = q.to_parts();
            c.check(b.weights == &w[..] && b.points == &p[..] && b.data == $d, "to_parts", || format!("{}", $name));
            let items: Vec<_> = q.iter().collect();
            let ok = items.len() == n && items.iter().enumerate().all(|(i, it)| *it.0 == w[i] && *it.1 == p[i] && *it.2 == $d[i]);
            c.check(ok, "iter", || format!("{}: {} items", $name, items.len()));
        }};
    }
    let units = vec![(); n];
    one!(&pair, "pair", &units[..]);
    one!((&w[..], &p[..]), "pair of slices", &units[..]);
    one!(&owned, "owned parts", &units[..]);
    one!(&parts, "parts with data", &data[..]);
    one!(parts.to_parts(), "borrowed parts", &data[..]);
    one!(&nodata, "parts without data", &units[..]);
    c.count("views", 6);
}

pub fn q01(r: &mut Run) {
    r.section("total_order_rules", "Every strength from 0 to 27 for every domain of fenris_quadrature::polyquad and fenris::quadrature::total_order (f64, f32): lengths, containment, weight sum, all monomials of the strength, 12 random ridge Legendre polynomials against an independent Gauss-Legendre rule in collapsed coordinates; errors beyond the strongest rule.", 6 * 28, 6 * 60, check_polyquad);
    r.section("univariate_rules", "Gauss and Gauss-Lobatto for every n from 0 to 64 and the Lobatto rules with 128, 256, 512 points (all monomials up to degree 2n-1 or 2n-3) and Gauss for random larger n against independently computed points and weights.", 170, 700, check_univariate);
    r.section("tensor_rules", "Tensor Gauss rules with n points per direction: every (3D above degree 9: a fifth of the) monomials with per-coordinate degree up to 2n-1 and random products of Legendre polynomials.", 16, 24, check_tensor);
    r.section("rule_views", "Random rules: integrate, to_parts, iter, with_data and conversions of pairs, slices and parts show exactly the given weights, points and data.", 300, 5000, check_views);
    r.require("rules", 150);
    r.require("refusals", 40);
    r.require("monomials_integrated", 5000);
    r.assumption("polynomials are compared in floating point: absolute error up to 2e-13 times the measure of the domain");
}
