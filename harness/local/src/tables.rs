use crate::common::*;
use crate::every_mesh;
use fenris::assembly::buffers::QuadratureBuffer;
use fenris::assembly::local::*;
use fenris::nalgebra::*;
use fenris::quadrature::Quadrature;
use fenris::util::NestedVec;
use fenris::SmallDim;
use vfem::oracle::*;
use vfem::view::*;
use vlib::serde_json;
use vlib::{Case, Run};

fn nested<T: Clone>(x: &[Vec<T>]) -> NestedVec<T> {
    let mut n = NestedVec::new();
    for a in x {
        n.push(a);
    }
    n
}

fn random_rules(c: &mut Case, d: usize, k: usize) -> Vec<Rule<String>> {
    let mut rules: Vec<Rule<String>> = (0..k)
        .map(|r| {
            let n = if c.rng.chance(0.1) { 0 } else { c.rng.sized(1, 9, 300) };
            Rule {
                p: (0..n).map(|_| (0..d).map(|_| c.rng.normal()).collect()).collect(),
                w: (0..n).map(|_| c.rng.normal()).collect(),
                data: (0..n).map(|i| format!("{r}/{i}/{}", c.rng.below(1000))).collect(),
            }
        })
        .collect();
    // rules that agree in part: same points and weights (other data), same points, same weights, one entry off
    for r in 1..k {
        if !c.rng.chance(0.25) {
            continue;
        }
        let o = c.rng.below(r);
        let (p, w, data) = (rules[o].p.clone(), rules[o].w.clone(), rules[o].data.clone());
        let n = w.len();
        rules[r] = match c.rng.below(4) {
            0 => Rule { p, w, data: (0..n).map(|i| format!("{r}/{i}")).collect() },
            1 => Rule { p, w: (0..n).map(|_| c.rng.normal()).collect(), data },
            2 => Rule { p: (0..n).map(|_| (0..d).map(|_| c.rng.normal()).collect()).collect(), w, data },
            _ => Rule { p, w, data },
        };
    }
    rules
}

/// every way to read a table gives each element its own rule
fn judge<D: SmallDim, Data: Default + Clone + PartialEq + std::fmt::Debug>(
    c: &mut Case,
    t: &impl QuadratureTable<f64, D, Data = Data>,
    rules: &[Rule<Data>],
    map: &[usize],
    who: &str,
) where
    DefaultAllocator: allocator::Allocator<f64, D> + fenris::allocators::DimAllocator<f64, D>,
{
    let mut order = c.rng.perm(map.len());
    order.truncate(20);
    let mut buffer = QuadratureBuffer::<f64, D, Data>::default();
    for i in order {
        let r = &rules[map[i]];
        let n = r.w.len();
        let what = || format!("{who} element {i} rule {}", map[i]);
        if !c.check(t.element_quadrature_size(i) == n, "size", what) {
            return;
        }
        let pts: Vec<OPoint<f64, D>> = r.p.iter().map(|x| pt(x)).collect();
        let nan = || vec![pt::<D>(&vec![f64::NAN; D::dim()]); n];
        let (mut p, mut w, mut d) = (nan(), vec![f64::NAN; n], vec![Data::default(); n]);
        t.populate_element_quadrature(i, &mut p, &mut w);
        c.check(p == pts && w == r.w, "quadrature", || format!("{p:?} {w:?} {}", what()));
        t.populate_element_data(i, &mut d);
        c.check(d == r.data, "data", || format!("{d:?} expected {:?} {}", r.data, what()));
        let (mut p, mut w, mut d) = (nan(), vec![f64::NAN; n], vec![Data::default(); n]);
        t.populate_element_quadrature_and_data(i, &mut p, &mut w, &mut d);
        c.check(p == pts && w == r.w && d == r.data, "quadrature_and_data", what);
        // through a reused buffer
        if c.rng.bool() {
            buffer.populate_element_quadrature_from_table(i, t);
            c.check(buffer.data() == r.data && Quadrature::data(&buffer) == r.data, "buffer_data", what);
            let mut seen = vec![];
            let res = buffer.for_each_quadrature_point(|w, p, d| {
                seen.push((w, p.clone(), d.clone()));
                Ok(())
            });
            let want: Vec<_> = r.w.iter().zip(&pts).zip(&r.data).map(|((w, p), d)| (*w, p.clone(), d.clone())).collect();
            c.check(res.is_ok() && seen == want, "for_each", what);
        } else {
            buffer.populate_element_weights_and_points_from_table(i, t);
        }
        let (bw, bp) = buffer.weights_and_points();
        c.check(bw == r.w && bp == pts && buffer.weights() == r.w && buffer.points() == pts, "buffer", what);
        c.check(Quadrature::weights(&buffer) == r.w && Quadrature::points(&buffer) == pts, "buffer_quadrature", what);
        // arrays of another size are refused
        let m = if n > 0 && c.rng.bool() { n - 1 } else { n + 1 };
        let r1 = c.catch(|| t.populate_element_quadrature(i, &mut vec![OPoint::<f64, D>::origin(); m], &mut vec![0.0; m]));
        let r2 = c.catch(|| t.populate_element_data(i, &mut vec![Data::default(); m]));
        c.check(r1.is_err() && r2.is_err(), "wrong_size_accepted", what);
        c.count("lookups", 1);
    }
}

fn check_tables<D: SmallDim>(c: &mut Case)
where
    DefaultAllocator: allocator::Allocator<f64, D> + fenris::allocators::DimAllocator<f64, D>,
    OPoint<f64, D>: serde::Serialize + for<'a> serde::Deserialize<'a>,
{
    let d = D::dim();
    let k = c.rng.sized(1, 6, 300);
    let n = c.rng.sized(0, 30, 3000);
    let rules = random_rules(c, d, k);
    let map: Vec<usize> = (0..n).map(|_| c.rng.below(k)).collect();
    c.key((d, &map));
    c.keyf(&rules.iter().flat_map(|r| r.w.clone()).collect::<Vec<_>>());
    c.desc(format!("{k} rules for {n} elements, dimension {d}"));
    let pts: Vec<Vec<OPoint<f64, D>>> = rules.iter().map(|r| r.p.iter().map(|x| pt(x)).collect()).collect();
    let ws: Vec<Vec<f64>> = rules.iter().map(|r| r.w.clone()).collect();
    let ds: Vec<Vec<String>> = rules.iter().map(|r| r.data.clone()).collect();
    let pick = |i: usize| map[i];
    let gp: Vec<_> = (0..n).map(|i| pts[pick(i)].clone()).collect();
    let gw: Vec<_> = (0..n).map(|i| ws[pick(i)].clone()).collect();
    let gd: Vec<_> = (0..n).map(|i| ds[pick(i)].clone()).collect();
    let general = GeneralQuadratureTable::from_points_weights_and_data(nested(&gp), nested(&gw), nested(&gd));
    let compact = CompactQuadratureTable::from_quadrature_rules_and_map(nested(&pts), nested(&ws), nested(&ds), map.clone());
    judge(c, &general, &rules, &map, "general");
    judge(c, &compact, &rules, &map, "compact");
    // outside the table
    for far in [n, n + c.rng.below(1000), usize::MAX] {
        let a = c.catch(|| general.element_quadrature_size(far));
        let b = c.catch(|| compact.element_quadrature_size(far));
        let e = c.catch(|| general.populate_element_data(far, &mut []));
        let f = c.catch(|| compact.populate_element_data(far, &mut []));
        let g = c.catch(|| general.populate_element_quadrature(far, &mut [], &mut []));
        let h = c.catch(|| compact.populate_element_quadrature(far, &mut [], &mut []));
        c.check(a.is_err() && b.is_err() && e.is_err() && f.is_err() && g.is_err() && h.is_err(), "outside_accepted", || format!("element {far} of {n}: {a:?} {b:?} {e:?} {f:?} {g:?} {h:?}"));
        c.count("outside_lookups", 1);
    }
    // a uniform table serves any element
    let far = vec![0; n.max(3)];
    let uniform = UniformQuadratureTable::from_points_weights_and_data(pts[0].clone(), ws[0].clone(), ds[0].clone());
    judge(c, &uniform, &rules[..1], &far, "uniform");
    let tag = format!("all {}", c.rng.below(9));
    let same = [Rule { p: rules[0].p.clone(), w: rules[0].w.clone(), data: vec![tag.clone(); ws[0].len()] }];
    judge(c, &UniformQuadratureTable::from_quadrature_and_uniform_data((ws[0].clone(), pts[0].clone()), tag.clone()), &same, &far, "uniform from quadrature");
    judge(c, &uniform.clone().with_uniform_data(tag), &same, &far, "uniform with replaced data");
    // without data
    let unit: Vec<Rule<()>> = rules.iter().map(|r| Rule { p: r.p.clone(), w: r.w.clone(), data: vec![(); r.w.len()] }).collect();
    judge(c, &UniformQuadratureTable::from_points_and_weights(pts[0].clone(), ws[0].clone()), &unit[..1], &far, "unit uniform");
    judge(c, &UniformQuadratureTable::from_quadrature((ws[0].clone(), pts[0].clone())), &unit[..1], &far, "unit uniform");
    judge(c, &GeneralQuadratureTable::from_points_and_weights(nested(&gp), nested(&gw)), &unit, &map, "unit general");
    judge(c, &CompactQuadratureTable::from_points_weights_and_map(nested(&pts), nested(&ws), map.clone()), &unit, &map, "unit compact");
    // parts of a general table: nothing is lost, data can be replaced
    let parts = general.clone().into_parts();
    let flat = |x: &NestedVec<f64>| x.iter().map(|a| a.to_vec()).collect::<Vec<_>>();
    c.check(flat(&parts.weights) == gw && parts.points.iter().map(|a| a.to_vec()).collect::<Vec<_>>() == gp && parts.data.iter().map(|a| a.to_vec()).collect::<Vec<_>>() == gd, "parts", String::new);
    let mut counter = 0;
    let new: Vec<Vec<usize>> = gw.iter().map(|w| w.iter().map(|_| { counter += 1; counter }).collect()).collect();
    let replaced = GeneralQuadratureTable::from_points_weights_and_data(parts.points, parts.weights, nested(&new));
    let nr: Vec<Rule<usize>> = (0..n).map(|i| Rule { p: rules[pick(i)].p.clone(), w: gw[i].clone(), data: new[i].clone() }).collect();
    judge(c, &replaced, &nr, &(0..n).collect::<Vec<_>>(), "replaced data");
    let parts = general.clone().into_parts();
    c.check(GeneralQuadratureTable::from_points_weights_and_data(parts.points, parts.weights, parts.data) == general, "reassembled", String::new);
    // stored and loaded again
    let r: Result<GeneralQuadratureTable<f64, D, String>, _> = serde_json::to_value(&general).and_then(serde_json::from_value);
    c.check(matches!(&r, Ok(t) if *t == general), "serde_general", || format!("{:?}", r.as_ref().err()));
    let r: Result<CompactQuadratureTable<f64, D, String>, _> = serde_json::to_value(&compact).and_then(serde_json::from_value);
    c.check(matches!(&r, Ok(t) if *t == compact), "serde_compact", || format!("{:?}", r.as_ref().err()));
    let r: Result<UniformQuadratureTable<f64, D, String>, _> = serde_json::to_value(&uniform).and_then(serde_json::from_value);
    c.check(matches!(&r, Ok(t) if *t == uniform), "serde_uniform", || format!("{:?}", r.as_ref().err()));
    // inconsistent descriptions are refused
    if n > 0 {
        let i = c.rng.below(n);
        let (mut bp, mut bw, mut bd) = (gp.clone(), gw.clone(), gd.clone());
        match c.rng.below(6) {
            0 => bp[i].push(OPoint::origin()),
            1 => bw[i].push(1.0),
            2 => bd[i].push(String::new()),
            3 => bp.push(vec![]),
            4 => bw.push(vec![]),
            _ => bd.push(vec![]),
        }
        let r = c.catch(|| GeneralQuadratureTable::from_points_weights_and_data(nested(&bp), nested(&bw), nested(&bd)));
        c.check(r.is_err(), "inconsistent_general_accepted", || format!("{r:?}"));
        let (mut bp, mut bw, mut bd) = (pts[0].clone(), ws[0].clone(), ds[0].clone());
        match c.rng.below(3) {
            0 => bp.push(OPoint::origin()),
            1 => bw.push(1.0),
            _ => bd.push(String::new()),
        }
        let r = c.catch(|| UniformQuadratureTable::from_points_weights_and_data(bp, bw, bd));
        c.check(r.is_err(), "inconsistent_uniform_accepted", || format!("{r:?}"));
        let mut bm = map.clone();
        bm[i] = k + c.rng.below(3);
        let r = c.catch(|| CompactQuadratureTable::from_quadrature_rules_and_map(nested(&pts), nested(&ws), nested(&ds), bm));
        c.check(r.is_err(), "bad_map_accepted", || format!("{r:?}"));
        let (mut bp, mut bd) = (pts.clone(), ds.clone());
        let j = c.rng.below(k);
        if c.rng.bool() {
            bp[j].push(OPoint::origin());
        } else {
            bd[j].push(String::new());
        }
        let r = c.catch(|| CompactQuadratureTable::from_quadrature_rules_and_map(nested(&bp), nested(&ws), nested(&bd), map.clone()));
        c.check(r.is_err(), "inconsistent_compact_accepted", || format!("{r:?}"));
        c.count("inconsistent_tables", 4);
    }
}

/// assembling with any description of the same rules gives the same numbers
fn check_interchange(c: &mut Case) {
    let m0 = Mesh0::random(c, &VOLUMETRIC, 12, 6, true);
    let rules: Rules<Density<f64>> = Rules::random(&mut c.rng, &m0.sh.e, m0.cells(), false, |r| Density(r.f(0.5, 2.0)));
    let s = c.rng.range(1, 3);
    c.desc(format!("{} x {}", m0.cells(), m0.km.name));
    let n = m0.sh.len();
    every_mesh!(m0.km, m, D => {
        let tables: Vec<_> = (0..3).map(|k| rules.table::<D>(k)).collect();
        for i in 0..m0.cells().min(6) {
            let out: Vec<DMatrix<f64>> = tables.iter().map(|t| {
                let a = ElementMassAssembler::with_solution_dim(s).with_space(&m).with_quadrature_table(t);
                let mut out = DMatrix::repeat(s * n, s * n, f64::NAN);
                a.assemble_element_matrix_into(i, (&mut out).into()).unwrap();
                out
            }).collect();
            c.check(out[0] == out[1] && out[1] == out[2], "tables_differ", || format!("element {i}"));
            c.count("interchanged_assemblies", 1);
        }
    });
}

pub fn l04(r: &mut Run) {
    r.section("tables_1d", "Random rules (also empty) with tagged data in uniform, general and compact tables of one dimension, random element order through every lookup function and reused buffers; replaced and split off data, serialization, inconsistent descriptions and elements outside the table.", 800, 8000, check_tables::<U1>);
    r.section("tables_2d", "The same in two dimensions.", 800, 8000, check_tables::<U2>);
    r.section("tables_3d", "The same in three dimensions.", 800, 8000, check_tables::<U3>);
    r.section("interchange", "Element mass matrices through the three descriptions of the same rules are identical.", 800, 8000, check_interchange);
    r.require("lookups", 20000);
    r.require("outside_lookups", 1000);
    r.require("inconsistent_tables", 1000);
    r.require("interchanged_assemblies", 1000);
}
