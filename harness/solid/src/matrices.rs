//! H02: factorizations judged by their defining equations, reinterpretations by comparison with the plain data
//! (natively and under Miri), file dumps by reading them back.
use fenris::nalgebra::*;
use fenris::nalgebra_sparse::{CooMatrix, CsrMatrix};
use fenris::util::*;
use vfem::slices;
use vlib::sanitize::{sanitized, Tool};
use vlib::{Case, Run};

fn rotation(c: &mut Case, d: usize) -> DMatrix<f64> {
    let mut q = DMatrix::from_fn(d, d, |_, _| c.rng.normal()).qr().q();
    if q.determinant() < 0.0 {
        q.column_mut(0).neg_mut();
    }
    q
}
fn singular_values(c: &mut Case, d: usize) -> (Vec<f64>, &'static str) {
    let s = c.rng.logf(1e-8, 1e8);
    match c.rng.below(7) {
        0 => (vec![s; d], "repeated"),
        1 => (vec![0.0; d], "zero"),
        2 => {
            let k = c.rng.below(d);
            ((0..d).map(|i| if i <= k { s } else { 0.0 }).collect(), "singular")
        }
        3 => ((0..d).map(|_| s * c.rng.logf(1e-10, 1.0)).collect(), "badly_scaled"),
        4 => ((0..d).map(|_| 1.0 + c.rng.f(-1e-9, 1e-9)).collect(), "nearly_repeated"),
        _ => ((0..d).map(|_| s * c.rng.f(0.2, 1.0)).collect(), "regular"),
    }
}
fn diag(v: &[f64]) -> DMatrix<f64> {
    DMatrix::from_fn(v.len(), v.len(), |i, j| if i == j { v[i] } else { 0.0 })
}
fn rsvd<D>(c: &mut Case)
where
    D: DimName + DimMin<D, Output = D> + DimSub<U1>,
    DefaultAllocator: allocator::Allocator<f64, D>
        + allocator::Allocator<f64, D, D>
        + allocator::Allocator<f64, <D as DimSub<U1>>::Output>
        + allocator::Allocator<(usize, usize), D>
        + allocator::Allocator<(f64, usize), D>
        + allocator::Allocator<f64, U1, D>,
{
    let d = D::dim();
    let (sv, fam) = singular_values(c, d);
    let (q, r) = if c.rng.chance(0.2) { (DMatrix::identity(d, d), DMatrix::identity(d, d)) } else { (rotation(c, d), rotation(c, d)) };
    let reflect = c.rng.bool();
    let mut sg = sv.clone();
    if reflect {
        let k = c.rng.below(d);
        sg[k] = -sg[k];
    }
    let a = &q * diag(&sg) * r.transpose();
    let a = OMatrix::<f64, D, D>::from_fn(|i, j| a[(i, j)]);
    c.desc(format!("rotation_svd d={d} {fam} reflected={reflect} {:?}", a.as_slice()));
    c.keyf(a.as_slice());
    let Some((u, s, vt)) = c.no_panic("rotation_svd_panic", || rotation_svd(&a)) else { return };
    let dd = |m: &OMatrix<f64, D, D>| DMatrix::from_fn(d, d, |i, j| m[(i, j)]);
    let (u, vt) = (dd(&u), dd(&vt));
    let smax = sv.iter().fold(0.0f64, |m, x| m.max(*x));
    for (m, n) in [(&u, "U"), (&vt, "V")] {
        let e = (m.transpose() * m - DMatrix::identity(d, d)).amax();
        c.check(e < 1e-12, "not_orthogonal", || format!("{n}: {e:e}"));
        c.check((m.determinant() - 1.0).abs() < 1e-11, "not_a_rotation", || format!("det {n} = {}", m.determinant()));
    }
    // `rotation_svd` is as accurate as nalgebra's SVD, which loses digits for ill-conditioned or clustered spectra:
    // judged loosely against the constructed spectrum, tightly against the plain SVD of the same matrix.
    let plain = a.clone().svd(true, true);
    let (pu, pv) = (dd(plain.u.as_ref().unwrap()), dd(plain.v_t.as_ref().unwrap()));
    let perr = (&pu * diag(plain.singular_values.as_slice()) * &pv - dd(&a)).amax();
    let tol = 4.0 * perr + 1e-13 * smax;
    let back = &u * diag(s.as_slice()) * &vt;
    c.close_slices(back.as_slice(), dd(&a).as_slice(), tol, "product", || format!("U {u} S {:?} V^T {vt}", s.as_slice()));
    let mut got: Vec<f64> = s.iter().map(|x| x.abs()).collect();
    let mut want = sv.clone();
    got.sort_by(f64::total_cmp);
    want.sort_by(f64::total_cmp);
    c.close_slices(&got, &want, 1e-12 * smax + 10.0 * perr, "singular_values", || format!("{:?}", s.as_slice()));
    let mut ps: Vec<f64> = plain.singular_values.iter().copied().collect();
    ps.sort_by(f64::total_cmp);
    c.close_slices(&got, &ps, 1e-13 * smax, "singular_values_vs_svd", || format!("{:?} vs {ps:?}", s.as_slice()));
    if perr > 1e-11 * smax {
        c.count("inaccurate_library_svds", 1);
    }
    c.count("decompositions", 1);
    if reflect {
        c.count("reflected_matrices", 1);
    }
}

fn polar(c: &mut Case) {
    let r = rotation(c, 3);
    let q = rotation(c, 3);
    let sv: Vec<f64> = if c.rng.chance(0.2) { vec![1.0; 3] } else { (0..3).map(|_| c.rng.logf(0.4, 2.5)).collect() };
    let s = &q * diag(&sv) * q.transpose();
    let f = &r * s;
    let f3 = Matrix3::from_fn(|i, j| f[(i, j)]);
    let guess = {
        // the iteration is a warm-started Newton method: a start within half a radian of the solution
        let ax = Unit::new_normalize(Vector3::from_fn(|_, _| c.rng.normal()));
        let off = UnitQuaternion::from_axis_angle(&ax, c.rng.f(0.0, 0.5));
        let rm = Matrix3::from_fn(|i, j| r[(i, j)]);
        UnitQuaternion::from_rotation_matrix(&Rotation3::from_matrix_unchecked(rm)) * off
    };
    c.desc(format!("apd F {:?} guess {:?} stretches {sv:?}", f3.as_slice(), guess));
    c.keyf(f3.as_slice());
    let Some(g) = c.no_panic("apd_panic", || apd(&f3, &guess, 1000, 1e-13)) else { return };
    let rm = g.to_rotation_matrix().into_inner();
    c.close_slices(rm.as_slice(), r.as_slice(), 1e-9, "polar_rotation", || format!("{rm}"));
    c.check((g.norm() - 1.0).abs() < 1e-10, "not_unit", || format!("{}", g.norm()));
    // no iteration: the start itself
    let z = apd(&f3, &guess, 0, 1e-13);
    c.check(z == guess, "zero_iterations", || format!("{z:?}"));
    c.count("polar_decompositions", 1);
}

fn eigen(c: &mut Case) {
    let n = c.rng.sized(1, 8, 40);
    let s = c.rng.logf(1e-6, 1e6);
    let pat = c.rng.below(4);
    let ev: Vec<f64> = (0..n)
        .map(|_| match pat {
            0 => s * c.rng.f(0.01, 1.0),
            1 => s * c.rng.f(-1.0, 1.0),
            2 => -s * c.rng.f(0.01, 1.0),
            _ => s,
        })
        .collect();
    let q = rotation(c, n);
    let a = &q * diag(&ev) * q.transpose();
    let a = (&a + a.transpose()) * 0.5;
    c.desc(format!("eigenvalues {ev:?}"));
    c.keyf(a.as_slice());
    let lo = ev.iter().fold(f64::INFINITY, |m, x| m.min(*x));
    let hi = ev.iter().fold(f64::NEG_INFINITY, |m, x| m.max(*x));
    let t = 1e-12 * s * n as f64;
    let (glo, ghi) = min_max_symmetric_eigenvalues(&a);
    c.close(glo, lo, t, "min_eigenvalue", || "min_max".into());
    c.close(ghi, hi, t, "max_eigenvalue", || "min_max".into());
    c.close(min_eigenvalue_symmetric(&a), lo, t, "min_eigenvalue", || "min".into());
    let amax = ev.iter().fold(0.0f64, |m, x| m.max(x.abs()));
    let amin = ev.iter().fold(f64::INFINITY, |m, x| m.min(x.abs()));
    if amin > 1e-6 * s {
        let k = amax / amin;
        c.close(condition_number_symmetric(&a), k, 1e-11 * k * k * n as f64, "condition_number", || "".into());
        c.count("condition_numbers", 1);
        if lo < 0.0 && hi > 0.0 {
            c.count("indefinite_condition_numbers", 1);
        }
    }
    // static sizes
    let b = Matrix2::new(ev[0], 0.3 * s, 0.3 * s, ev[n - 1]);
    let (m, d) = ((b[(0, 0)] + b[(1, 1)]) * 0.5, ((b[(0, 0)] - b[(1, 1)]) * 0.5).hypot(b[(0, 1)]));
    let (glo, ghi) = min_max_symmetric_eigenvalues(&b);
    c.close(glo, m - d, 1e-12 * s, "min_eigenvalue_2x2", || format!("{b}"));
    c.close(ghi, m + d, 1e-12 * s, "max_eigenvalue_2x2", || format!("{b}"));
}

fn small_helpers(c: &mut Case) {
    let x = Vector3::from_fn(|_, _| c.rng.normal());
    let y = Vector3::from_fn(|_, _| c.rng.normal());
    c.keyf(x.as_slice());
    let m = cross_product_matrix(&x);
    c.close_slices((m * y).as_slice(), x.cross(&y).as_slice(), 1e-14 * (1.0 + x.norm() * y.norm()), "cross_product_matrix", || format!("{m}"));
    let d = Vector2::from_fn(|_, _| c.rng.normal());
    let a = Matrix2x3::from_fn(|_, _| c.rng.normal());
    let p = diag_left_mul(&d, &a);
    c.check((0..2).all(|i| (0..3).all(|j| p[(i, j)] == d[i] * a[(i, j)])), "diag_left_mul", || format!("{p}"));
    // orthonormal complement, also along the axes
    let mut v = Vector3::from_fn(|_, _| c.rng.normal());
    if c.rng.chance(0.4) {
        let k = c.rng.below(3);
        v = Vector3::zeros();
        v[k] = if c.rng.bool() { 1.0 } else { -1.0 };
        if c.rng.bool() {
            let j = c.rng.below(3);
            v[j] += c.rng.logf(1e-18, 1e-3);
        }
        if c.rng.bool() {
            v.z = if c.rng.bool() { -0.0 } else { v.z };
        }
    }
    if v.norm() > 0.0 {
        let v = Unit::new_normalize(v);
        let [a, b] = compute_orthonormal_vectors_3d(&v);
        let m = Matrix3::from_columns(&[a.into_inner(), b.into_inner(), v.into_inner()]);
        let e = (m.transpose() * m - Matrix3::identity()).amax();
        c.check(e < 1e-13, "orthonormal_vectors", || format!("{v:?}: {a:?} {b:?}"));
        c.count("orthonormal_frames", 1);
    }
    let n = c.rng.below(5);
    let pts: Vec<Point3<f64>> = (0..n).map(|_| Point3::from(Vector3::from_fn(|_, _| c.rng.normal()))).collect();
    let mut calls = vec![];
    let g = global_vector_from_point_fn(&pts, |p: &Point3<f64>| {
        calls.push(*p);
        Vector2::new(p.x + 1.0, p.y * p.z)
    });
    c.check(calls == pts && g.len() == 2 * n, "point_fn_calls", || format!("{calls:?}"));
    c.check((0..n).all(|i| g[2 * i] == pts[i].x + 1.0 && g[2 * i + 1] == pts[i].y * pts[i].z), "point_fn_values", || format!("{g}"));
}

struct Scratch(std::path::PathBuf);
impl Scratch {
    fn new(tag: &str, k: u64) -> Scratch {
        let d = std::env::temp_dir().join(format!("fenris-verif-{tag}-{}-{k}", std::process::id()));
        std::fs::create_dir_all(&d).unwrap();
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn read_mm(path: &std::path::Path) -> Result<(usize, usize, Vec<(usize, usize, f64)>), String> {
    let s = std::fs::read_to_string(path).map_err(|e| e.to_string())?;
    let mut it = s.lines();
    if it.next() != Some("%%MatrixMarket matrix coordinate real general") {
        return Err("header".into());
    }
    let head: Vec<usize> = it.next().ok_or("size line")?.split_whitespace().map(|x| x.parse().unwrap_or(usize::MAX)).collect();
    let mut t = vec![];
    for l in it {
        let w: Vec<&str> = l.split_whitespace().collect();
        if w.len() != 3 {
            return Err(format!("line {l:?}"));
        }
        let (i, j): (usize, usize) = (w[0].parse().map_err(|_| "row")?, w[1].parse().map_err(|_| "col")?);
        if i == 0 || j == 0 {
            return Err("indices are one-based".into());
        }
        t.push((i - 1, j - 1, w[2].parse().map_err(|_| format!("value {}", w[2]))?));
    }
    if head.len() != 3 || head[2] != t.len() {
        return Err(format!("size line {head:?} but {} entries", t.len()));
    }
    Ok((head[0], head[1], t))
}

fn dumps(c: &mut Case) {
    let dir = Scratch::new("h02", c.index);
    let (r, n) = (c.rng.sized(0, 5, 70), c.rng.sized(1, 5, 70));
    let m = DMatrix::from_fn(r, n, |_, _| match c.rng.below(6) {
        0 => 0.0,
        1 => -1.0,
        2 => c.rng.logf(1e-300, 1e300),
        _ => c.rng.normal(),
    });
    c.keyf(m.as_slice());
    c.key((r, n));
    let p = dir.0.join("m.txt");
    if let Some(res) = c.no_panic("dump_panic", || dump_matrix_to_file(&p, &m)) {
        c.check(res.is_ok(), "dump_error", || format!("{res:?}"));
        let s = std::fs::read_to_string(&p).unwrap_or_default();
        let rows: Vec<Vec<f64>> = s.lines().map(|l| l.split(' ').map(|x| x.parse().unwrap_or(f64::NAN)).collect()).collect();
        c.check(rows.len() == r && rows.iter().enumerate().all(|(i, row)| row.len() == n && (0..n).all(|j| row[j] == m[(i, j)])), "dense_round_trip", || s.clone());
    }
    let mut coo = CooMatrix::new(r + 1, n);
    let mut want = vec![];
    for i in 0..r {
        for j in 0..n {
            if c.rng.bool() {
                coo.push(i, j, m[(i, j)]);
                want.push((i, j, m[(i, j)]));
            }
        }
    }
    let csr = CsrMatrix::from(&coo);
    let p = dir.0.join("m.mtx");
    if let Some(res) = c.no_panic("dump_csr_panic", || dump_csr_matrix_to_mm_file(&p, &csr)) {
        c.check(res.is_ok(), "dump_csr_error", || format!("{res:?}"));
        let got = read_mm(&p);
        c.check(got.as_ref().map_or(false, |(a, b, t)| *a == r + 1 && *b == n && *t == want), "csr_round_trip", || format!("{got:?} wanted {want:?}"));
    }
    c.check(dump_matrix_to_file(dir.0.join("none/x"), &m).is_err() || dir.0.join("none/x").exists(), "missing_directory", || "success without a file".into());
    c.count("dumped_matrices", 2);
    // mesh connectivity
    use fenris::connectivity::Tri3d2Connectivity;
    use fenris::mesh::Mesh;
    let nv = c.rng.sized(3, 7, 300);
    let ne = c.rng.sized(0, 6, 300);
    let conn: Vec<Tri3d2Connectivity> = (0..ne)
        .map(|_| {
            let p = c.rng.perm(nv);
            Tri3d2Connectivity([p[0], p[1], p[2]])
        })
        .collect();
    let mesh = Mesh::from_vertices_and_connectivity(vec![Point2::<f64>::origin(); nv], conn.clone());
    let (pn, pe) = (dir.0.join("n.mtx"), dir.0.join("e.mtx"));
    if let Some(res) = c.no_panic("dump_mesh_panic", || dump_mesh_connectivity_matrices(&pn, &pe, &mesh)) {
        c.check(res.is_ok(), "dump_mesh_error", || format!("{res:?}"));
        let mut nn = std::collections::BTreeSet::new();
        let mut en = std::collections::BTreeSet::new();
        for (e, t) in conn.iter().enumerate() {
            for &i in &t.0 {
                en.insert((e, i));
                for &j in &t.0 {
                    nn.insert((i, j));
                }
            }
        }
        for (p, want, rows) in [(pn, nn, nv), (pe, en, ne)] {
            let got = read_mm(&p);
            let ok = got.as_ref().map_or(false, |(r, cc, t)| *r == rows && *cc == nv && t.iter().all(|x| x.2 == 1.0) && t.iter().map(|x| (x.0, x.1)).eq(want.iter().copied()));
            c.check(ok, "connectivity_dump", || format!("{got:?} wanted {rows}x{nv} {want:?}"));
        }
        c.count("dumped_meshes", 1);
    }
}

pub fn h02(run: &mut Run) {
    run.assumption("polar decomposition starts within half a radian of the solution, stretches within [0.4, 2.5]");
    run.section("rotation_svd", "regular, repeated, singular, zero, reflected and badly scaled matrices of dimension 1 to 4", 200000, 1000000, |c| match c.rng.below(4) {
        0 => rsvd::<U1>(c),
        1 => rsvd::<U2>(c),
        2 => rsvd::<U3>(c),
        _ => rsvd::<U4>(c),
    });
    run.section("polar", "analytic polar decomposition from starts within half a radian of the solution", 50000, 300000, polar);
    run.section("eigenvalues", "extreme eigenvalues and condition numbers of matrices with prescribed spectrum", 50000, 300000, eigen);
    run.section("helpers", "cross products, diagonal scaling, orthonormal frames, point functions", 5000, 300000, small_helpers);
    run.section("slices", "flat data seen as matrices and back, checked reinterpretation, interpolation from flat vectors", 300, 10000, |c| {
        c.key(c.index);
        let mut seen = slices::Seen::default();
        let r = slices::run(&mut c.rng, &mut seen);
        c.check(r.is_ok(), "reinterpretation", || r.clone().unwrap_err());
        c.count("views_compared", seen.views);
        c.count("layouts_refused", seen.refused);
        c.count("transmutes_judged", seen.transmutes);
        c.count("interpolations_compared", seen.interpolations);
    });
    run.section("dumps", "matrices and mesh connectivity written to files and read back", 100, 3000, dumps);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let n = if run.thorough { 60 } else { 4 };
    sanitized(
        run,
        "miri",
        "Miri (Stacked Borrows, bounds, alignment, validity) over the reinterpretation workload",
        Tool::Miri { flags: "" },
        "san2",
        &["slices".into(), seed.to_string(), n.to_string()],
        &[],
        if run.thorough { 900 } else { 300 },
    );
    run.require("decompositions", 5_000);
    run.require("reflected_matrices", 2_000);
    run.require("polar_decompositions", 1_000);
    run.require("indefinite_condition_numbers", 300);
    run.require("orthonormal_frames", 1_000);
    run.require("layouts_refused", 300);
    run.require("transmutes_judged", 1_000);
    run.require("dumped_matrices", 50);
}
