//! I02: exported data sets against the mesh they were made from, cell by cell through VTK's own node tables,
//! in memory and after a round trip through files.
use fenris::connectivity::*;
use fenris::io::vtk::{FiniteElementMeshDataSetBuilder, VtkCellConnectivity};
use fenris::mesh::Mesh;
use fenris::nalgebra::allocator::Allocator;
use fenris::nalgebra::{DefaultAllocator, DimName, OPoint, OVector, U2, U3};
use fenris::vtkio::model::*;
use fenris::vtkio::Vtk;
use vfem::kinds::kind;
use vlib::{Case, Rng, Run};

/// node positions of VTK's cell types in terms of the corners, from the VTK file format documentation
fn vtk_nodes(t: CellType) -> Option<Vec<Vec<usize>>> {
    let c = |n: usize| (0..n).map(|i| vec![i]).collect::<Vec<_>>();
    let v = |x: &[&[usize]]| x.iter().map(|s| s.to_vec()).collect::<Vec<_>>();
    let quad_edges: [&[usize]; 4] = [&[0, 1], &[1, 2], &[2, 3], &[3, 0]];
    let hex20: [&[usize]; 12] = [&[0, 1], &[1, 2], &[2, 3], &[3, 0], &[4, 5], &[5, 6], &[6, 7], &[7, 4], &[0, 4], &[1, 5], &[2, 6], &[3, 7]];
    Some(match t {
        CellType::Line => c(2),
        CellType::Triangle => c(3),
        CellType::Quad | CellType::Tetra => c(4),
        CellType::Hexahedron => c(8),
        CellType::QuadraticEdge => [c(2), v(&[&[0, 1]])].concat(),
        CellType::QuadraticTriangle => [c(3), v(&[&[0, 1], &[1, 2], &[2, 0]])].concat(),
        CellType::QuadraticQuad => [c(4), v(&quad_edges)].concat(),
        CellType::BiquadraticQuad => [c(4), v(&quad_edges), v(&[&[0, 1, 2, 3]])].concat(),
        CellType::QuadraticTetra => [c(4), v(&[&[0, 1], &[1, 2], &[2, 0], &[0, 3], &[1, 3], &[2, 3]])].concat(),
        CellType::QuadraticHexahedron => [c(8), v(&hex20)].concat(),
        CellType::TriquadraticHexahedron => [
            c(8),
            v(&hex20),
            v(&[&[0, 3, 4, 7], &[1, 2, 5, 6], &[0, 1, 4, 5], &[2, 3, 6, 7], &[0, 1, 2, 3], &[4, 5, 6, 7], &[0, 1, 2, 3, 4, 5, 6, 7]]),
        ]
        .concat(),
        _ => return None,
    })
}

#[derive(Clone, Debug, PartialEq)]
struct Attr {
    cell: bool,
    name: String,
    comps: usize,
    /// as bits of f64 (all integers used are exactly representable)
    data: Vec<u64>,
}
#[derive(Clone, Debug, PartialEq)]
struct Flat {
    points: Vec<u64>,
    single: bool,
    cells: Vec<(CellType, Vec<u64>)>,
    attrs: Vec<Attr>,
}

fn bits(b: &IOBuffer) -> Vec<u64> {
    b.clone().cast_into::<f64>().map(|v| v.iter().map(|x| x.to_bits()).collect()).unwrap_or_default()
}
fn leading_space(ds: &DataSet) -> bool {
    let DataSet::UnstructuredGrid { pieces, .. } = ds else { return false };
    let Ok(p) = pieces[0].load_piece_data(None) else { return false };
    let first = |b: &IOBuffer| -> Option<u8> {
        macro_rules! f {
            ($v:expr) => {
                $v.first().map(|x| x.to_be_bytes()[0])
            };
        }
        match b {
            IOBuffer::Bit(v) | IOBuffer::U8(v) => f!(v),
            IOBuffer::I8(v) => f!(v),
            IOBuffer::U16(v) => f!(v),
            IOBuffer::I16(v) => f!(v),
            IOBuffer::U32(v) => f!(v),
            IOBuffer::I32(v) => f!(v),
            IOBuffer::U64(v) => f!(v),
            IOBuffer::I64(v) => f!(v),
            IOBuffer::F32(v) => f!(v),
            IOBuffer::F64(v) => f!(v),
        }
    };
    let mut bufs = vec![&p.points];
    for a in p.data.point.iter().chain(&p.data.cell) {
        if let Attribute::DataArray(d) = a {
            bufs.push(&d.data);
        }
    }
    bufs.into_iter().any(|b| matches!(first(b), Some(9..=13) | Some(32)))
}
fn flatten(ds: &DataSet) -> Result<Flat, String> {
    let DataSet::UnstructuredGrid { pieces, .. } = ds else { return Err("not an unstructured grid".into()) };
    if pieces.len() != 1 {
        return Err(format!("{} pieces", pieces.len()));
    }
    let p = pieces[0].load_piece_data(None).map_err(|e| format!("piece: {e:?}"))?;
    let (conn, offs) = match &p.cells.cell_verts {
        VertexNumbers::Legacy { num_cells, vertices } => {
            // n i1 ... in
            let (mut conn, mut offs, mut i) = (vec![], vec![], 0usize);
            while i < vertices.len() {
                let n = vertices[i] as usize;
                if i + n >= vertices.len() {
                    return Err("cell list ends inside a cell".into());
                }
                conn.extend(vertices[i + 1..i + 1 + n].iter().map(|&x| x as u64));
                offs.push(conn.len() as u64);
                i += n + 1;
            }
            if offs.len() != *num_cells as usize {
                return Err(format!("{} cells listed, {} announced", offs.len(), num_cells));
            }
            (conn, offs)
        }
        VertexNumbers::XML { connectivity, offsets } => (connectivity.clone(), offsets.clone()),
    };
    if offs.len() != p.cells.types.len() {
        return Err(format!("{} cells but {} cell types", offs.len(), p.cells.types.len()));
    }
    let mut at = 0usize;
    let mut cells = vec![];
    for (o, t) in offs.iter().zip(&p.cells.types) {
        if (*o as usize) < at || *o as usize > conn.len() {
            return Err("cell offsets are not increasing".into());
        }
        cells.push((*t, conn[at..*o as usize].to_vec()));
        at = *o as usize;
    }
    let mut attrs = vec![];
    for (cell, list) in [(false, &p.data.point), (true, &p.data.cell)] {
        for a in list {
            match a {
                Attribute::DataArray(d) => attrs.push(Attr { cell, name: d.name.clone(), comps: d.elem.num_comp() as usize, data: bits(&d.data) }),
                Attribute::Field { data_array, .. } => {
                    for d in data_array {
                        attrs.push(Attr { cell, name: d.name.clone(), comps: d.elem as usize, data: bits(&d.data) })
                    }
                }
            }
        }
    }
    Ok(Flat { points: bits(&p.points), single: matches!(p.points, IOBuffer::F32(_)), cells, attrs })
}

fn val(rng: &mut Rng, fam: usize) -> f64 {
    match fam {
        0 => rng.f(-1.0, 1.0),
        1 => rng.range(0, 30) as f64 - 15.0,
        2 => rng.logf(1e-30, 1e30) * if rng.bool() { 1.0 } else { -1.0 },
        _ => *rng.pick(&[0.0, -0.0, 1.0, 0.1, -1.0 / 3.0, 1e-30, 1.5e30]),
    }
}

/// straight-sided cells of a kind with node positions from the kind's own table, shuffled vertex numbers
fn cells_of(rng: &mut Rng, name: &str, d: usize) -> (Vec<Vec<f64>>, Vec<Vec<usize>>, Vec<Vec<Vec<f64>>>) {
    let nodes: Vec<Vec<(usize, f64)>> = if name == "segment" { vec![vec![(0, 1.0)], vec![(1, 1.0)]] } else { kind(name).nodes };
    let nc = nodes.iter().filter(|n| n.len() == 1).count();
    let m = match rng.below(8) {
        0 => 0,
        1 => 1,
        _ => rng.sized(1, 12, 400),
    };
    let fam = rng.below(4);
    let (mut v, mut c, mut corners) = (vec![], vec![], vec![]);
    for _ in 0..m {
        let cs: Vec<Vec<f64>> = (0..nc).map(|_| (0..d).map(|_| val(rng, fam)).collect()).collect();
        let base = v.len();
        for n in &nodes {
            v.push((0..d).map(|j| n.iter().map(|&(i, w)| w * cs[i][j]).sum::<f64>()).collect::<Vec<f64>>());
        }
        c.push((base..v.len()).collect::<Vec<_>>());
        corners.push(cs);
    }
    for _ in 0..rng.below(4) {
        v.push((0..d).map(|_| val(rng, fam)).collect());
    }
    let p = rng.perm(v.len());
    let mut w = v.clone();
    for (i, x) in v.into_iter().enumerate() {
        w[p[i]] = x;
    }
    c.iter_mut().flatten().for_each(|i| *i = p[*i]);
    (w, c, corners)
}

fn name_of(rng: &mut Rng, i: usize) -> String {
    let base = rng.pick(&["u", "velocity", "f_ext", "T-1", "sigma.xx", "Druck_x2"]).to_string();
    format!("{base}{i}")
}

trait Real2: fenris::Real + num::ToPrimitive {
    const SINGLE: bool;
    fn of(x: f64) -> Self;
    fn f(self) -> f64;
}
impl Real2 for f64 {
    const SINGLE: bool = false;
    fn of(x: f64) -> Self {
        x
    }
    fn f(self) -> f64 {
        self
    }
}
impl Real2 for f32 {
    const SINGLE: bool = true;
    fn of(x: f64) -> Self {
        x as f32
    }
    fn f(self) -> f64 {
        self as f64
    }
}

struct Info {
    name: &'static str,
    /// fewest nodes per cell the export may list
    min_nodes: usize,
}

fn one<T, D, C>(c: &mut Case, info: Info, make: impl Fn(&[usize]) -> C)
where
    T: Real2,
    D: DimName,
    C: VtkCellConnectivity + Clone,
    DefaultAllocator: Allocator<T, D>,
{
    let d = D::dim();
    let (v, cells, _) = cells_of(&mut c.rng, info.name, d);
    let verts: Vec<OPoint<T, D>> = v.iter().map(|p| OPoint::from(OVector::<T, D>::from_iterator(p.iter().map(|&x| T::of(x))))).collect();
    let mesh: Mesh<T, D, C> = Mesh::from_vertices_and_connectivity(verts, cells.iter().map(|x| make(x)).collect());
    let (np, ncell) = (v.len(), cells.len());
    let mut b = FiniteElementMeshDataSetBuilder::from_mesh(&mesh);
    let title = if c.rng.bool() { Some(format!("title {}", c.rng.below(1000))) } else { None };
    if let Some(t) = &title {
        b = b.with_title(t.clone());
    }
    let mut want: Vec<Attr> = vec![];
    let na = c.rng.below(6);
    let mut desc = vec![];
    // number of components above 4 does not exist in the legacy format
    let wide = c.rng.chance(0.2);
    for i in 0..na {
        let kind = c.rng.below(3);
        // point data and cell data may have the same name
        let shared: Vec<String> = want.iter().filter(|a| a.cell != (kind == 2) && !want.iter().any(|b| b.cell == (kind == 2) && b.name == a.name)).map(|a| a.name.clone()).collect();
        let name = if !shared.is_empty() && c.rng.chance(0.3) {
            c.count("shared_names", 1);
            c.rng.pick(&shared).clone()
        } else {
            name_of(&mut c.rng, i)
        };
        let comps = if kind == 0 { c.rng.range(1, 3) } else if wide { c.rng.range(1, 9) } else { c.rng.range(1, 4) };
        let n = comps * if kind == 2 { ncell } else { np };
        let fam = c.rng.below(4);
        let ty = c.rng.below(8);
        let ints: Vec<i64> = (0..n).map(|_| c.rng.range(0, 200) as i64 - 100).collect();
        let fl: Vec<f64> = (0..n).map(|_| val(&mut c.rng, fam)).collect();
        let bad = c.rng.chance(0.04);
        desc.push(format!("{kind}:{comps}:{ty}{}", if bad { ":wrong" } else { "" }));
        macro_rules! put {
            ($t:ty, $vals:expr) => {{
                let mut vals: Vec<$t> = $vals;
                let want_data: Vec<f64> = vals.iter().map(|x| *x as f64).collect();
                if bad {
                    // data of the wrong size must be refused
                    let extra = c.rng.range(1, comps + 3);
                    if c.rng.bool() || vals.is_empty() {
                        for _ in 0..extra {
                            vals.push(1 as $t);
                        }
                    } else {
                        let keep = vals.len().saturating_sub(extra);
                        vals.truncate(keep);
                    }
                    let b2 = FiniteElementMeshDataSetBuilder::from_mesh(&mesh);
                    let r = c.catch(|| {
                        let b2 = match kind {
                            0 => b2.with_point_vector_attributes(name.clone(), comps, &vals),
                            1 => b2.with_point_scalar_attributes(name.clone(), comps, &vals),
                            _ => b2.with_cell_scalar_attributes(name.clone(), comps, &vals),
                        };
                        b2.try_build().is_ok()
                    });
                    c.count("wrong_sizes", 1);
                    c.check(matches!(r, Err(_) | Ok(false)), "wrong_size_accepted", || format!("attribute kind {kind} with {} entries of {comps} components accepted for {np} points, {ncell} cells", vals.len()));
                } else {
                    let r = c.catch(std::panic::AssertUnwindSafe(|| match kind {
                        0 => b.with_point_vector_attributes(name.clone(), comps, &vals),
                        1 => b.with_point_scalar_attributes(name.clone(), comps, &vals),
                        _ => b.with_cell_scalar_attributes(name.clone(), comps, &vals),
                    }));
                    b = match r {
                        Ok(b) => b,
                        Err(e) => return c.fail("attribute_panic", format!("attribute kind {kind}, {comps} components: {e}")),
                    };
                    let (k, data) = if kind == 0 {
                        (3, want_data.chunks(comps).flat_map(|x| (0..3).map(move |j| x.get(j).cloned().unwrap_or(0.0))).collect())
                    } else {
                        (comps, want_data)
                    };
                    want.push(Attr { cell: kind == 2, name, comps: k, data: data.iter().map(|x: &f64| x.to_bits()).collect() });
                }
            }};
        }
        match ty {
            0 => put!(i32, ints.iter().map(|&x| x as i32).collect()),
            1 => put!(u64, ints.iter().map(|&x| (x + 100) as u64).collect()),
            2 => put!(u8, ints.iter().map(|&x| (x + 100) as u8).collect()),
            3 => put!(i64, ints),
            4 => put!(f32, fl.iter().map(|&x| x as f32).collect()),
            5 => put!(usize, ints.iter().map(|&x| (x + 100) as usize).collect()),
            _ => put!(f64, fl),
        }
    }
    want.sort_by_key(|a| a.cell);
    c.desc(format!("{} d={d} single={} {np} points {ncell} cells attributes {desc:?}", info.name, T::SINGLE));
    c.keyf(&v.concat());
    c.key(&cells);
    let Some(ds) = c.no_panic("build_panic", || b.try_build()) else { return };
    let ds = match ds {
        Ok(d) => d,
        Err(e) => return c.fail("build_refused", format!("{e:#}")),
    };
    let flat = match flatten(&ds) {
        Ok(f) => f,
        Err(e) => return c.fail("structure", e),
    };
    // points
    let wp: Vec<u64> = v.iter().flat_map(|p| (0..3).map(move |j| p.get(j).map(|&x| T::of(x).f()).unwrap_or(0.0).to_bits())).collect();
    c.check(flat.single == T::SINGLE || np == 0, "precision", || "coordinates exported in another precision".into());
    if c.check(flat.points.len() == wp.len(), "num_points", || format!("{} coordinates for {np} points", flat.points.len())) {
        for i in 0..wp.len() {
            if wp[i] != flat.points[i] {
                c.fail("points", format!("coordinate {} of point {}: {} instead of {}", i % 3, i / 3, f64::from_bits(flat.points[i]), f64::from_bits(wp[i])));
                break;
            }
        }
    }
    // cells: through VTK's tables, as node identities
    let table: Vec<Vec<(usize, f64)>> = if info.name == "segment" { vec![vec![(0, 1.0)], vec![(1, 1.0)]] } else { kind(info.name).nodes };
    if c.check(flat.cells.len() == ncell, "num_cells", || format!("{} cells instead of {ncell}", flat.cells.len())) {
        for (i, (t, ix)) in flat.cells.iter().enumerate() {
            let Some(vt) = vtk_nodes(*t) else {
                c.fail("cell_type", format!("cell {i} has type {t:?}"));
                break;
            };
            if ix.len() != vt.len() || ix.len() < info.min_nodes {
                c.fail("node_count", format!("cell {i} of type {t:?} ({} nodes) lists {} nodes", vt.len(), ix.len()));
                break;
            }
            // where in the cell the format expects node k -> the library's local node
            let mut bad = None;
            for (k, w) in vt.iter().enumerate() {
                let want = table
                    .iter()
                    .position(|n| {
                        let mut a: Vec<usize> = n.iter().map(|x| x.0).collect();
                        a.sort();
                        let even = n.iter().all(|x| (x.1 - n[0].1).abs() < 1e-9);
                        let mut w = w.clone();
                        w.sort();
                        even && a == w
                    })
                    .map(|l| cells[i][l] as u64);
                if want != Some(ix[k]) {
                    bad = Some((k, want, ix[k]));
                    break;
                }
            }
            if let Some((k, want, got)) = bad {
                c.fail("node_order", format!("cell {i} ({t:?}): node {k} is vertex {got}, the format expects vertex {want:?}; cell {:?}", cells[i]));
                break;
            }
            c.count("cells", 1);
        }
    }
    compare_attrs(c, "attributes", &want, &flat.attrs);
    c.count("data_sets", 1);
    c.count("attributes", want.len() as u64);
    // files
    if !c.rng.chance(if c.thorough { 0.5 } else { 0.35 }) {
        return;
    }
    let ext = *c.rng.pick(&["vtk", "vtu"]);
    if ext == "vtk" && want.iter().any(|a| a.comps > 4) {
        return;
    }
    if ext == "vtk" && leading_space(&ds) {
        // vtkio's reader of the legacy format takes a first byte that looks like white space for a separator
        c.count("unreadable_by_reader", 1);
        return;
    }
    let root = std::path::PathBuf::from(format!("/verif/target/scratch/vtk-{}", std::process::id()));
    let sub = if c.rng.bool() { root.join(format!("a{}/b", c.index)) } else { root.clone() };
    if sub == root {
        std::fs::create_dir_all(&root).unwrap();
    }
    let stem = format!("m{}-{}", c.index, info.name);
    let p = sub.join(format!("{stem}.{ext}"));
    let Some(r) = c.no_panic("export_panic", || b.try_export(&p)) else { return };
    if let Err(e) = r {
        return c.fail("export_refused", format!("{ext}: {e:#}"));
    }
    let r = c.catch(|| Vtk::import(&p));
    let vtk = match r {
        Ok(Ok(v)) => v,
        Ok(Err(e)) => return c.fail("unreadable", format!("{ext} file of {np} points and {ncell} cells cannot be read back: {e:?}")),
        Err(e) => return c.fail("unreadable", format!("{ext} file of {np} points and {ncell} cells cannot be read back: panic {e}")),
    };
    let _ = std::fs::remove_file(&p);
    let back = match flatten(&vtk.data) {
        Ok(f) => f,
        Err(e) => return c.fail("file_structure", e),
    };
    c.check(back.points == flat.points, "file_points", || format!("{ext}: points changed"));
    c.check(back.cells == flat.cells, "file_cells", || format!("{ext}: cells changed: {:?} -> {:?}", flat.cells, back.cells));
    compare_attrs(c, "file_attributes", &want, &back.attrs);
    if ext == "vtk" {
        let t = title.unwrap_or(stem);
        c.check(vtk.title == t, "file_title", || format!("title {:?} instead of {t:?}", vtk.title));
        c.count("legacy_files", 1);
    } else {
        c.count("xml_files", 1);
    }
}

fn compare_attrs(c: &mut Case, sig: &str, want: &[Attr], got: &[Attr]) {
    if !c.check(got.len() == want.len(), sig, || format!("{} attributes instead of {}: {:?}", got.len(), want.len(), got.iter().map(|a| &a.name).collect::<Vec<_>>())) {
        return;
    }
    for w in want {
        let Some(g) = got.iter().find(|g| g.name == w.name && g.cell == w.cell) else {
            return c.fail(sig, format!("attribute {:?} (cell data: {}) is missing", w.name, w.cell));
        };
        if g.comps != w.comps && !w.data.is_empty() {
            return c.fail(sig, format!("attribute {:?} has {} components instead of {}", w.name, g.comps, w.comps));
        }
        if g.data != w.data {
            let i = (0..w.data.len().min(g.data.len())).find(|&i| g.data[i] != w.data[i]);
            return c.fail(sig, format!("attribute {:?}: {} values instead of {}, first difference at {i:?}: {:?}", w.name, g.data.len(), w.data.len(), i.map(|i| (f64::from_bits(g.data[i]), f64::from_bits(w.data[i])))));
        }
    }
}

fn arr<const N: usize>(x: &[usize]) -> [usize; N] {
    let mut a = [0; N];
    a.copy_from_slice(x);
    a
}

fn export(c: &mut Case) {
    macro_rules! go {
        ($name:literal, $min:literal, $d:ty, $c:ident) => {
            if c.rng.chance(0.25) {
                one::<f32, $d, $c>(c, Info { name: $name, min_nodes: $min }, |x| $c(arr(x)))
            } else {
                one::<f64, $d, $c>(c, Info { name: $name, min_nodes: $min }, |x| $c(arr(x)))
            }
        };
    }
    match c.rng.below(13) {
        0 => go!("segment", 2, U2, Segment2d2Connectivity),
        1 => go!("segment", 2, U3, Segment2d3Connectivity),
        2 => go!("tri3", 3, U2, Tri3d2Connectivity),
        3 => go!("tri3", 3, U3, Tri3d3Connectivity),
        4 => go!("tri6", 6, U2, Tri6d2Connectivity),
        5 => go!("quad4", 4, U2, Quad4d2Connectivity),
        6 => go!("quad9", 8, U2, Quad9d2Connectivity),
        7 => go!("tet4", 4, U3, Tet4Connectivity),
        8 => go!("tet10", 10, U3, Tet10Connectivity),
        9 => go!("tet20", 4, U3, Tet20Connectivity),
        10 => go!("hex8", 8, U3, Hex8Connectivity),
        11 => go!("hex20", 20, U3, Hex20Connectivity),
        _ => go!("hex27", 20, U3, Hex27Connectivity),
    }
}

/// refusals: too many vector components, unknown file types, unwritable places
fn refusals(c: &mut Case) {
    let (v, cells, _) = cells_of(&mut c.rng, "tri3", 2);
    let verts: Vec<_> = v.iter().map(|p| OPoint::<f64, U2>::new(p[0], p[1])).collect();
    let mesh: Mesh<f64, U2, Tri3d2Connectivity> = Mesh::from_vertices_and_connectivity(verts, cells.iter().map(|x| Tri3d2Connectivity(arr(x))).collect());
    c.keyf(&v.concat());
    c.key(c.index);
    match c.rng.below(4) {
        0 => {
            let k = c.rng.range(4, 9);
            let data = vec![1.0; k * v.len()];
            c.desc(format!("vectors of {k} components, {} points", v.len()));
            let r = c.catch(|| FiniteElementMeshDataSetBuilder::from_mesh(&mesh).with_point_vector_attributes("u", k, &data).try_build().is_ok());
            c.check(!matches!(r, Ok(true)), "vector_components_accepted", || format!("vectors with {k} components accepted"));
        }
        1 => {
            let e = *c.rng.pick(&["m.xyz", "m", "m.vtp", "m.stl"]);
            let p = std::path::PathBuf::from(format!("/verif/target/scratch/vtk-{}/u{}/{e}", std::process::id(), c.index));
            c.desc(format!("{p:?}"));
            let r = c.no_panic("export_panic", || FiniteElementMeshDataSetBuilder::from_mesh(&mesh).try_export(&p).is_ok());
            c.check(r == Some(false), "unknown_format_accepted", || format!("export to {e} reported success"));
        }
        2 => {
            // the parent is a file
            let root = std::path::PathBuf::from(format!("/verif/target/scratch/vtk-{}", std::process::id()));
            std::fs::create_dir_all(&root).unwrap();
            let f = root.join(format!("file{}", c.index));
            std::fs::write(&f, b"x").unwrap();
            let p = f.join("m.vtk");
            c.desc(format!("{p:?}"));
            let r = c.no_panic("export_panic", || FiniteElementMeshDataSetBuilder::from_mesh(&mesh).try_export(&p).is_ok());
            c.check(r == Some(false), "unwritable_accepted", || "export below a file reported success".into());
        }
        _ => {
            // overwriting an existing, longer file
            let root = std::path::PathBuf::from(format!("/verif/target/scratch/vtk-{}", std::process::id()));
            std::fs::create_dir_all(&root).unwrap();
            let p = root.join(format!("o{}.{}", c.index, c.rng.pick(&["vtk", "vtu"])));
            std::fs::write(&p, vec![b'x'; 200_000]).unwrap();
            c.desc(format!("{p:?}"));
            let b = FiniteElementMeshDataSetBuilder::from_mesh(&mesh);
            let r = c.no_panic("export_panic", || b.try_export(&p).is_ok());
            if c.check(r == Some(true), "overwrite_refused", || "cannot overwrite".into()) {
                let a = b.try_build().ok().and_then(|d| flatten(&d).ok());
                let z = c.catch(|| Vtk::import(&p).ok().and_then(|v| flatten(&v.data).ok()));
                c.check(matches!(&z, Ok(z) if *z == a), "overwrite", || format!("{z:?} instead of {a:?}"));
            }
            let _ = std::fs::remove_file(&p);
        }
    }
    c.count("refusals", 1);
}

pub fn i02(run: &mut Run) {
    run.assumption("Attribute and title names are single words; integer values are exactly representable as f64; the legacy format has at most 4 components per attribute.");
    run.assumption("Files are read back with vtkio, the reader of the format the library depends on.");
    run.section("export", "points, cells through VTK's own node tables, attributes; then the same after writing and reading the file", 5000, 600_000, export);
    run.section("refusals", "wrong data, formats and places are refused; overwriting works", 200, 3000, refusals);
    for (n, m) in [("data_sets", 3000u64), ("cells", 8000), ("attributes", 5000), ("shared_names", 300), ("legacy_files", 300), ("xml_files", 300), ("wrong_sizes", 100), ("refusals", 150)] {
        run.require(n, m);
    }
    let _ = std::fs::remove_dir_all(format!("/verif/target/scratch/vtk-{}", std::process::id()));
}
