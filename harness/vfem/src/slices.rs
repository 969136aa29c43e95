//! Workload on the reinterpretation helpers (flat data as matrices, checked transmutes): every element read or written
//! through the reinterpreted form is compared with the plain data. Runs natively and under Miri.
use fenris::nalgebra::{DMatrix, DVector, Dyn, OMatrix, OVector, SMatrix, U1, U2, U3};
use fenris::util::*;
use vlib::{catch_quiet, Rng};

#[derive(Default)]
pub struct Seen {
    pub views: u64,
    pub refused: u64,
    pub transmutes: u64,
    pub interpolations: u64,
}
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

fn coerce(rng: &mut Rng, seen: &mut Seen) -> Result<(), String> {
    // dynamic matrix into partially static shapes
    let data: Vec<f64> = (0..6).map(|_| rng.normal()).collect();
    let mut m = DMatrix::from_column_slice(2, 3, &data);
    {
        let v = coerce_col_major_slice(&m, U2, U3);
        for j in 0..3 {
            for i in 0..2 {
                ensure!(v[(i, j)] == data[j * 2 + i], "view element ({i},{j})");
            }
        }
        let v = coerce_col_major_slice(&m, U2, Dyn(3));
        ensure!(v.iter().copied().eq(data.iter().copied()), "iteration order");
        seen.views += 2;
    }
    {
        let mut v = coerce_col_major_slice_mut(&mut m, Dyn(2), U3);
        for j in 0..3 {
            for i in 0..2 {
                v[(i, j)] += (10 * i + j) as f64;
            }
        }
        seen.views += 1;
    }
    for j in 0..3 {
        for i in 0..2 {
            ensure!(m[(i, j)] == data[j * 2 + i] + (10 * i + j) as f64, "written element ({i},{j})");
        }
    }
    // a static matrix as dynamic one
    let s = SMatrix::<f64, 3, 2>::from_column_slice(&data);
    let v = coerce_col_major_slice(&s, Dyn(3), Dyn(2));
    ensure!(v.shape() == (3, 2) && v.iter().copied().eq(data.iter().copied()), "static as dynamic");
    // contiguous window of columns
    let n = rng.range(0, 4);
    let big = DMatrix::from_fn(3, 5, |i, j| (i + 3 * j) as f64);
    let w = big.columns(1, n.min(4));
    let v = coerce_col_major_slice(&w, U3, Dyn(n.min(4)));
    ensure!(v == w, "column window");
    seen.views += 2;
    // layouts that are not column major are refused (unless a single column cannot tell)
    let rows = big.rows(0, 2);
    let refused = catch_quiet(|| coerce_col_major_slice(&rows, U2, Dyn(5)).sum()).is_err();
    ensure!(refused, "row window accepted as column major");
    let step = big.rows_with_step(0, 2, 1);
    let refused2 = catch_quiet(|| coerce_col_major_slice(&step, U2, Dyn(5)).sum()).is_err();
    ensure!(refused2, "strided window accepted as column major");
    let mut big2 = big.clone();
    let mut rows = big2.rows_mut(0, 2);
    let refused3 = catch_quiet(|| coerce_col_major_slice_mut(&mut rows, U2, Dyn(5)).sum()).is_err();
    ensure!(refused3, "mutable row window accepted as column major");
    // wrong shapes are refused
    let bad = catch_quiet(|| coerce_col_major_slice(&m, Dyn(3), Dyn(2)).sum()).is_err();
    let bad2 = catch_quiet(|| coerce_col_major_slice_mut(&mut m, Dyn(2), Dyn(4)).sum()).is_err();
    ensure!(bad && bad2, "wrong shape accepted");
    seen.refused += 5;
    // empty
    let e = DMatrix::<f64>::zeros(0, 4);
    ensure!(coerce_col_major_slice(&e, Dyn(0), Dyn(4)).len() == 0, "empty");
    Ok(())
}

fn transmutes(rng: &mut Rng, seen: &mut Seen) -> Result<(), String> {
    let n = rng.below(6);
    let x: Vec<f64> = (0..n).map(|_| rng.normal()).collect();
    let y: &[f64] = try_transmute_slice::<f64, f64>(&x).ok_or("same type refused")?;
    ensure!(y.as_ptr() == x.as_ptr() && y == &x[..], "slice changed");
    ensure!(try_transmute_slice::<f64, u64>(&x).is_none(), "f64 as u64");
    ensure!(try_transmute_slice::<f64, [f32; 2]>(&x).is_none(), "f64 as [f32; 2]");
    ensure!(try_transmute_slice::<Vec<u8>, Vec<i8>>(&[]).is_none(), "Vec<u8> as Vec<i8>");
    ensure!(try_transmute_slice::<(), ()>(&[(), ()]).map_or(0, |s| s.len()) == 2, "unit");
    let s: Vec<String> = (0..n).map(|i| format!("{i}")).collect();
    ensure!(try_transmute_slice::<String, String>(&s) == Some(&s[..]), "strings");
    let mut m = OMatrix::<f64, U2, U2>::from_fn(|i, j| (i * 2 + j) as f64);
    {
        let r: &OMatrix<f64, U2, U2> = try_transmute_ref(&m).ok_or("matrix refused")?;
        ensure!(*r == m, "matrix changed");
        ensure!(try_transmute_ref::<_, OMatrix<f64, U1, U1>>(&m).is_none(), "2x2 as 1x1");
        ensure!(try_transmute_ref::<_, OMatrix<f32, U2, U2>>(&m).is_none(), "f64 as f32");
        ensure!(try_transmute_ref::<_, OMatrix<f64, U3, U3>>(&m).is_none(), "2x2 as 3x3");
    }
    {
        ensure!(try_transmute_ref_mut::<_, OMatrix<f64, U3, U3>>(&mut m).is_none(), "2x2 as mutable 3x3");
        let r: &mut OMatrix<f64, U2, U2> = try_transmute_ref_mut(&mut m).ok_or("mutable matrix refused")?;
        r[(1, 0)] = 77.0;
    }
    ensure!(m[(1, 0)] == 77.0, "write through reinterpreted reference lost");
    seen.transmutes += 12;
    Ok(())
}

fn interpolation(rng: &mut Rng, seen: &mut Seen) -> Result<(), String> {
    let n = rng.below(6);
    let u: Vec<f64> = (0..3 * n).map(|_| rng.range(0, 20) as f64 - 10.0).collect();
    let nb: Vec<f64> = (0..n).map(|_| rng.range(0, 20) as f64 - 10.0).collect();
    let g: Vec<f64> = (0..2 * n).map(|_| rng.range(0, 20) as f64 - 10.0).collect();
    let v: OVector<f64, U3> = compute_interpolation(&u[..], &nb[..]);
    let w: OMatrix<f64, U2, U3> = compute_interpolation_gradient(&u[..], &g[..]);
    for s in 0..3 {
        let want: f64 = (0..n).map(|i| u[3 * i + s] * nb[i]).sum();
        ensure!(v[s] == want, "interpolated component {s}: {} != {want}", v[s]);
        for d in 0..2 {
            let want: f64 = (0..n).map(|i| u[3 * i + s] * g[2 * i + d]).sum();
            ensure!(w[(d, s)] == want, "gradient ({d},{s}): {} != {want}", w[(d, s)]);
        }
    }
    // inconsistent lengths are refused
    let mut u2 = u.clone();
    u2.push(0.0);
    let bad = catch_quiet(|| compute_interpolation::<f64, U3>(&u2[..], &nb[..])).is_err();
    let bad2 = catch_quiet(|| compute_interpolation_gradient::<f64, U3, U2>(&u2[..], &g[..])).is_err();
    let mut g2 = g.clone();
    g2.push(1.0);
    let bad3 = catch_quiet(|| compute_interpolation_gradient::<f64, U3, U2>(&u[..], &g2[..])).is_err();
    ensure!(bad && bad2 && bad3, "inconsistent lengths accepted");
    // gather by node
    let nodes: Vec<usize> = if n > 0 { (0..rng.below(5)).map(|_| rng.below(n)).collect() } else { vec![] };
    let e: DVector<f64> = extract_by_node_index::<f64, U3>(&u, &nodes);
    ensure!(e.len() == 3 * nodes.len(), "extracted length");
    for (k, i) in nodes.iter().enumerate() {
        for s in 0..3 {
            ensure!(e[3 * k + s] == u[3 * i + s], "extracted entry");
        }
    }
    seen.interpolations += 3;
    Ok(())
}

pub fn run(rng: &mut Rng, seen: &mut Seen) -> Result<(), String> {
    coerce(rng, seen).and_then(|_| transmutes(rng, seen)).and_then(|_| interpolation(rng, seen))
}
