//! I01: an independent writer of MSH 4.1 files (text and binary) and a catalogue of corruptions.
use fenris::connectivity::*;
use fenris::element::{ElementConnectivity, FiniteElement};
use fenris::io::msh::{load_msh_from_bytes, load_msh_from_file, MshConnectivity};
use fenris::mesh::Mesh;
use fenris::nalgebra::allocator::Allocator;
use fenris::nalgebra::{DefaultAllocator, DimName, OPoint, RealField, U2, U3};
use vlib::{Case, Rng, Run};

/// kind name, Gmsh element type, dimension, number of nodes, geometry dimension of the library's mesh
#[derive(Clone, Copy, Debug)]
struct Kd {
    name: &'static str,
    ty: i32,
    dim: i32,
    n: usize,
}
const KINDS: [Kd; 9] = [
    Kd { name: "tri3d2", ty: 2, dim: 2, n: 3 },
    Kd { name: "tri3d3", ty: 2, dim: 2, n: 3 },
    Kd { name: "tri6", ty: 9, dim: 2, n: 6 },
    Kd { name: "quad4", ty: 3, dim: 2, n: 4 },
    Kd { name: "quad9", ty: 10, dim: 2, n: 9 },
    Kd { name: "tet4", ty: 4, dim: 3, n: 4 },
    Kd { name: "tet10", ty: 11, dim: 3, n: 10 },
    Kd { name: "hex8", ty: 5, dim: 3, n: 8 },
    Kd { name: "hex27", ty: 12, dim: 3, n: 27 },
];
/// other Gmsh element types that files contain: (type, dim, nodes)
const OTHERS: [(i32, i32, usize); 16] = [
    (1, 1, 2),
    (8, 1, 3),
    (15, 0, 1),
    (2, 2, 3),
    (3, 2, 4),
    (9, 2, 6),
    (10, 2, 9),
    (16, 2, 8),
    (4, 3, 4),
    (5, 3, 8),
    (6, 3, 6),
    (7, 3, 5),
    (11, 3, 10),
    (12, 3, 27),
    (17, 3, 20),
    (26, 1, 4),
];

/// Gmsh's node numbering of each kind as positions in terms of the corners, written down from the format documentation.
fn gmsh_nodes(name: &str) -> Vec<Vec<usize>> {
    let c = |n: usize| (0..n).map(|i| vec![i]).collect::<Vec<_>>();
    let v = |x: &[&[usize]]| x.iter().map(|s| s.to_vec()).collect::<Vec<_>>();
    match name {
        "tri3d2" | "tri3d3" => c(3),
        "quad4" | "tet4" => c(4),
        "hex8" => c(8),
        "tri6" => [c(3), v(&[&[0, 1], &[1, 2], &[2, 0]])].concat(),
        "quad9" => [c(4), v(&[&[0, 1], &[1, 2], &[2, 3], &[3, 0], &[0, 1, 2, 3]])].concat(),
        "tet10" => [c(4), v(&[&[0, 1], &[1, 2], &[2, 0], &[3, 0], &[2, 3], &[1, 3]])].concat(),
        "hex27" => [
            c(8),
            v(&[
                &[0, 1],
                &[0, 3],
                &[0, 4],
                &[1, 2],
                &[1, 5],
                &[2, 3],
                &[2, 6],
                &[3, 7],
                &[4, 5],
                &[4, 7],
                &[5, 6],
                &[6, 7],
                &[0, 1, 2, 3],
                &[0, 1, 5, 4],
                &[0, 3, 7, 4],
                &[1, 2, 6, 5],
                &[2, 3, 7, 6],
                &[4, 5, 6, 7],
                &[0, 1, 2, 3, 4, 5, 6, 7],
            ]),
        ]
        .concat(),
        _ => unreachable!(),
    }
}

#[derive(Clone, Debug)]
struct EBlock {
    dim: i32,
    tag: i32,
    ty: i32,
    /// node indices in order of appearance in the file
    cells: Vec<Vec<u64>>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Enc {
    Ascii,
    Bin { big: bool, size: usize },
}
#[derive(Clone, Debug)]
struct Spec {
    version: String,
    enc: Enc,
    crlf: bool,
    /// smallest node tag, smallest element tag
    nbase: u64,
    ebase: u64,
    nblocks: Vec<(i32, i32, i32, Vec<[f64; 3]>)>, // dim, tag, parametric, nodes
    eblocks: Vec<EBlock>,
    extra: [u8; 4],
    entities: Option<Vec<(usize, Vec<[f64; 6]>)>>,
    elements_first: bool,
    // overrides for the malformed families
    no_nodes: bool,
    no_elements: bool,
    twice: u8,
    num_nodes: Option<u64>,
    num_elements: Option<u64>,
    num_nblocks: Option<u64>,
    num_eblocks: Option<u64>,
    max_ntag: Option<u64>,
    max_etag: Option<u64>,
    min_ntag: Option<u64>,
    min_etag: Option<u64>,
    block_nodes: Option<u64>,
    block_cells: Option<u64>,
    /// explicit node tags in order of appearance
    ntags: Option<Vec<u64>>,
    data_size: Option<String>,
    pretty: bool,
}

struct W {
    out: Vec<u8>,
    enc: Enc,
    nl: &'static str,
    pad: u8,
    line_start: bool,
}
impl W {
    fn s(&mut self, t: &str) {
        self.out.extend_from_slice(t.as_bytes());
    }
    fn sep(&mut self) {
        if !self.line_start {
            self.s(if self.pad == 1 { "  " } else { " " });
        }
        self.line_start = false;
    }
    fn end(&mut self) {
        if self.enc == Enc::Ascii {
            if self.pad == 1 {
                self.s(" ");
            }
            self.s(self.nl);
        }
        self.line_start = true;
    }
    fn size(&mut self, v: u64) {
        match self.enc {
            Enc::Ascii => {
                self.sep();
                self.s(&v.to_string());
            }
            Enc::Bin { big, size } => {
                let b: Vec<u8> = if big { v.to_be_bytes()[8 - size..].to_vec() } else { v.to_le_bytes()[..size].to_vec() };
                self.out.extend(b);
            }
        }
    }
    fn int(&mut self, v: i32) {
        match self.enc {
            Enc::Ascii => {
                self.sep();
                self.s(&v.to_string());
            }
            Enc::Bin { big, .. } => self.out.extend(if big { v.to_be_bytes() } else { v.to_le_bytes() }),
        }
    }
    fn f(&mut self, v: f64) {
        match self.enc {
            Enc::Ascii => {
                self.sep();
                let t = match self.pad {
                    0 => format!("{v:?}"),
                    1 => format!("{v:e}"),
                    _ => format!("{v}"),
                };
                self.s(&t);
            }
            Enc::Bin { big, .. } => self.out.extend(if big { v.to_be_bytes() } else { v.to_le_bytes() }),
        }
    }
    fn open(&mut self, n: &str) {
        let nl = self.nl;
        self.s(&format!("${n}{nl}"));
        self.line_start = true;
    }
    fn close(&mut self, n: &str) {
        let nl = self.nl;
        if self.enc != Enc::Ascii {
            self.s(nl);
        }
        self.s(&format!("$End{n}{nl}"));
    }
}

impl Spec {
    fn nn(&self) -> u64 {
        self.nblocks.iter().map(|b| b.3.len() as u64).sum()
    }
    fn ne(&self) -> u64 {
        self.eblocks.iter().map(|b| b.cells.len() as u64).sum()
    }
    fn write(&self) -> Vec<u8> {
        let mut w = W {
            out: vec![],
            enc: self.enc,
            nl: if self.crlf { "\r\n" } else { "\n" },
            pad: if self.pretty { 1 } else { self.extra[3] % 3 },
            line_start: true,
        };
        w.open("MeshFormat");
        let nl = w.nl;
        match self.enc {
            Enc::Ascii => w.s(&format!("{} 0 {}{nl}", self.version, self.data_size.clone().unwrap_or("8".into()))),
            Enc::Bin { big, size } => {
                w.s(&format!("{} 1 {}{nl}", self.version, self.data_size.clone().unwrap_or(size.to_string())));
                w.out.extend(if big { 1i32.to_be_bytes() } else { 1i32.to_le_bytes() });
                w.s(nl);
            }
        }
        w.s(&format!("$EndMeshFormat{nl}"));
        if self.extra[0] % 3 == 1 {
            w.s(&format!("$PhysicalNames{nl}2{nl}2 1 \"wall\"{nl}3 2 \"body of it\"{nl}$EndPhysicalNames{nl}"));
        }
        if let Some(en) = &self.entities {
            self.entities(&mut w, en);
        }
        if self.extra[1] % 4 == 1 {
            w.s(&format!("$Comment{nl}this is 1 2 3 $ 4{nl}$EndComment{nl}"));
        }
        let order: &[u8] = if self.elements_first { &[1, 0] } else { &[0, 1] };
        for &o in order {
            if o == 0 && !self.no_nodes {
                self.nodes(&mut w);
                if self.twice == 1 {
                    self.nodes(&mut w);
                }
            }
            if o == 1 && !self.no_elements {
                self.elements(&mut w);
                if self.twice == 2 {
                    self.elements(&mut w);
                }
            }
        }
        if self.extra[2] % 4 == 1 {
            w.s(&format!("$Periodic{nl}0{nl}$EndPeriodic{nl}"));
        }
        w.out
    }
    fn entities(&self, w: &mut W, en: &[(usize, Vec<[f64; 6]>)]) {
        w.open("Entities");
        for (_, e) in en {
            w.size(e.len() as u64);
        }
        w.end();
        for (d, es) in en {
            for (k, b) in es.iter().enumerate() {
                w.int(k as i32 + 1);
                for x in &b[..if *d == 0 { 3 } else { 6 }] {
                    w.f(*x);
                }
                let phys = k % 2;
                w.size(phys as u64);
                for i in 0..phys {
                    w.int(i as i32 + 1);
                }
                if *d > 0 {
                    w.size(2);
                    w.int(1);
                    w.int(-2);
                }
                w.end();
            }
        }
        w.close("Entities");
    }
    fn nodes(&self, w: &mut W) {
        w.open("Nodes");
        let n = self.nn();
        w.size(self.num_nblocks.unwrap_or(self.nblocks.len() as u64));
        w.size(self.num_nodes.unwrap_or(n));
        w.size(self.min_ntag.unwrap_or(self.nbase));
        w.size(self.max_ntag.unwrap_or(self.nbase + n.max(1) - 1));
        w.end();
        let mut tag = 0usize;
        for (i, (dim, t, par, nodes)) in self.nblocks.iter().enumerate() {
            w.int(*dim);
            w.int(*t);
            w.int(*par);
            let mut cnt = nodes.len() as u64;
            if let (Some(b), true) = (self.block_nodes, i == 0) {
                cnt = b;
            }
            w.size(cnt);
            w.end();
            for _ in nodes {
                w.size(self.ntags.as_ref().map(|t| t[tag]).unwrap_or(self.nbase + tag as u64));
                tag += 1;
                w.end();
            }
            for p in nodes {
                for x in p {
                    w.f(*x);
                }
                w.end();
            }
        }
        w.close("Nodes");
    }
    fn elements(&self, w: &mut W) {
        w.open("Elements");
        let n = self.ne();
        w.size(self.num_eblocks.unwrap_or(self.eblocks.len() as u64));
        w.size(self.num_elements.unwrap_or(n));
        w.size(self.min_etag.unwrap_or(self.ebase));
        w.size(self.max_etag.unwrap_or(self.ebase + n.max(1) - 1));
        w.end();
        let mut tag = self.ebase;
        for (i, b) in self.eblocks.iter().enumerate() {
            w.int(b.dim);
            w.int(b.tag);
            w.int(b.ty);
            let mut cnt = b.cells.len() as u64;
            if let (Some(x), true) = (self.block_cells, i == 0) {
                cnt = x;
            }
            w.size(cnt);
            w.end();
            for cell in &b.cells {
                w.size(tag);
                tag += 1;
                for &x in cell {
                    w.size(self.ntags.as_ref().map(|t| t[x as usize]).unwrap_or(self.nbase.wrapping_add(x)));
                }
                w.end();
            }
        }
        w.close("Elements");
    }
}

fn coord(rng: &mut Rng, fam: usize) -> f64 {
    match fam {
        0 => rng.f(-1.0, 1.0),
        1 => rng.range(0, 20) as f64 - 10.0,
        2 => rng.logf(1e-300, 1e300) * if rng.bool() { 1.0 } else { -1.0 },
        3 => *rng.pick(&[0.0, -0.0, 1.0, 0.1, 1.0 / 3.0, -2.5e-17, 4.9e-324, 1.7976931348623157e308]),
        _ => rng.f(-1e6, 1e6),
    }
}

/// a well-formed file whose cells of kind `k` are random node lists
fn random_spec(rng: &mut Rng, k: Kd) -> Spec {
    let enc = match rng.below(5) {
        0 | 1 => Enc::Ascii,
        2 => Enc::Bin { big: true, size: if rng.chance(0.3) { 4 } else { 8 } },
        _ => Enc::Bin { big: false, size: if rng.chance(0.3) { 4 } else { 8 } },
    };
    let fam = rng.below(5);
    let flat = k.name.ends_with("d2") && rng.bool();
    let nblocks = rng.range(1, 6);
    let mut nb = vec![];
    for i in 0..nblocks {
        let lo = if i == 0 { 1 } else { 0 };
        let n = if rng.chance(0.5) { rng.range(lo, 3) } else { rng.sized(lo, 40, 4000) };
        let nodes = (0..n)
            .map(|_| {
                let mut p = [coord(rng, fam), coord(rng, fam), coord(rng, fam)];
                if flat {
                    p[2] = 0.0;
                }
                p
            })
            .collect();
        nb.push((rng.below(4) as i32, rng.range(1, 9) as i32, 0, nodes));
    }
    let mut spec = Spec {
        version: "4.1".into(),
        enc,
        crlf: enc == Enc::Ascii && rng.chance(0.3),
        nbase: 1,
        ebase: if rng.bool() { 1 } else { rng.range(1, 100000) as u64 },
        nblocks: nb,
        eblocks: vec![],
        extra: [rng.below(256) as u8, rng.below(256) as u8, rng.below(256) as u8, rng.below(256) as u8],
        entities: None,
        elements_first: rng.chance(0.1),
        no_nodes: false,
        no_elements: false,
        twice: 0,
        num_nodes: None,
        num_elements: None,
        num_nblocks: None,
        num_eblocks: None,
        max_ntag: None,
        max_etag: None,
        min_ntag: None,
        min_etag: None,
        block_nodes: None,
        block_cells: None,
        ntags: None,
        data_size: None,
        pretty: rng.chance(0.2),
    };
    if rng.chance(0.4) {
        spec.nbase = rng.range(2, 1_000_000) as u64;
    }
    if rng.chance(0.4) {
        spec.entities = Some(
            (0..4)
                .map(|d| {
                    let m = rng.below(4);
                    (d, (0..m).map(|_| [0.0, 0.5, -1.0, 1.0, 2.0, 3.0]).collect())
                })
                .collect(),
        );
    }
    let nn = spec.nn();
    let cells = |rng: &mut Rng, n: usize, m: usize| -> Vec<Vec<u64>> {
        (0..m).map(|_| (0..n).map(|_| rng.below(nn as usize) as u64).collect()).collect()
    };
    let nb = rng.range(1, 4);
    for i in 0..nb {
        let m = if i == 0 { rng.sized(1, 30, 3000) } else { rng.range(0, 12) };
        let b = EBlock { dim: k.dim, tag: rng.range(1, 9) as i32, ty: k.ty, cells: cells(rng, k.n, m) };
        spec.eblocks.push(b);
    }
    for _ in 0..rng.below(5) {
        let (ty, dim, n) = *rng.pick(&OTHERS);
        if ty == k.ty {
            continue;
        }
        let m = rng.below(10);
        let b = EBlock { dim, tag: rng.range(1, 9) as i32, ty, cells: cells(rng, n, m) };
        let at = rng.below(spec.eblocks.len() + 1);
        spec.eblocks.insert(at, b);
    }
    spec
}

/// what the library made of the bytes: coordinates as f64 bits and node lists
type Loaded = Result<(Vec<Vec<f64>>, Vec<Vec<usize>>), String>;

fn load_t<T, D, C>(bytes: &[u8], path: Option<&std::path::Path>) -> Loaded
where
    T: RealField,
    D: DimName,
    C: MshConnectivity + Connectivity,
    DefaultAllocator: Allocator<T, D>,
{
    let m: fenris::mesh::Mesh<T, D, C> = match path {
        Some(p) => load_msh_from_file::<T, D, C, _>(p),
        None => load_msh_from_bytes::<T, D, C>(bytes),
    }
    .map_err(|e| format!("{e:#}"))?;
    Ok((
        m.vertices().iter().map(|p: &OPoint<T, D>| p.coords.iter().map(|x| x.clone().to_subset_f64()).collect()).collect(),
        m.connectivity().iter().map(|c| c.vertex_indices().to_vec()).collect(),
    ))
}
trait ToF {
    fn to_subset_f64(self) -> f64;
}
impl<T: RealField> ToF for T {
    fn to_subset_f64(self) -> f64 {
        fenris::nalgebra::try_convert::<T, f64>(self).unwrap()
    }
}
fn load(k: Kd, single: bool, bytes: &[u8], path: Option<&std::path::Path>) -> Loaded {
    macro_rules! go {
        ($d:ty, $c:ty) => {
            if single {
                load_t::<f32, $d, $c>(bytes, path)
            } else {
                load_t::<f64, $d, $c>(bytes, path)
            }
        };
    }
    match k.name {
        "tri3d2" => go!(U2, Tri3d2Connectivity),
        "tri3d3" => go!(U3, Tri3d3Connectivity),
        "tri6" => go!(U2, Tri6d2Connectivity),
        "quad4" => go!(U2, Quad4d2Connectivity),
        "quad9" => go!(U2, Quad9d2Connectivity),
        "tet4" => go!(U3, Tet4Connectivity),
        "tet10" => go!(U3, Tet10Connectivity),
        "hex8" => go!(U3, Hex8Connectivity),
        _ => go!(U3, Hex27Connectivity),
    }
}
fn gdim(k: Kd) -> usize {
    if k.dim == 3 || k.name == "tri3d3" {
        3
    } else {
        2
    }
}

fn scratch(c: &mut Case, bytes: &[u8]) -> std::path::PathBuf {
    let dir = std::path::PathBuf::from(format!("/verif/target/scratch/msh-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let p = dir.join(format!("f{}.msh", c.index));
    std::fs::write(&p, bytes).unwrap();
    p
}

fn show(bytes: &[u8]) -> String {
    let s: String = bytes[..bytes.len().min(900)].iter().flat_map(|&b| std::ascii::escape_default(b)).map(|b| b as char).collect();
    format!("{} bytes: {s}", bytes.len())
}

fn wellformed(c: &mut Case) {
    let k = *c.rng.pick(&KINDS);
    let spec = random_spec(&mut c.rng, k);
    let single = c.rng.chance(0.25);
    let bytes = spec.write();
    c.desc(format!("{} single={single} {:?} base={} {}", k.name, spec.enc, spec.nbase, show(&bytes)));
    c.key(&bytes);
    let file = c.rng.chance(0.1);
    let r = if file {
        let p = scratch(c, &bytes);
        let r = c.no_panic("load_panic", || load(k, single, &[], Some(&p)));
        let _ = std::fs::remove_file(&p);
        r
    } else {
        c.no_panic("load_panic", || load(k, single, &bytes, None))
    };
    let Some(r) = r else { return };
    let (v, cells) = match r {
        Ok(x) => x,
        Err(e) => return c.fail("refused", format!("a well-formed file was refused: {e}")),
    };
    let want_v: Vec<Vec<f64>> = spec
        .nblocks
        .iter()
        .flat_map(|b| &b.3)
        .map(|p| p[..gdim(k)].iter().map(|&x| if single { x as f32 as f64 } else { x }).collect())
        .collect();
    let want_c: Vec<Vec<usize>> = spec
        .eblocks
        .iter()
        .filter(|b| b.ty == k.ty && b.dim == k.dim)
        .flat_map(|b| &b.cells)
        .map(|x| x.iter().map(|&i| i as usize).collect())
        .collect();
    if c.check(v.len() == want_v.len(), "num_nodes", || format!("{} nodes, the file has {}", v.len(), want_v.len())) {
        for i in 0..v.len() {
            if v[i] != want_v[i] {
                c.fail("coordinates", format!("node {i}: {:?}, the file has {:?}", v[i], want_v[i]));
                break;
            }
        }
    }
    if c.check(cells.len() == want_c.len(), "num_cells", || format!("{} cells, the file has {}", cells.len(), want_c.len())) {
        for i in 0..cells.len() {
            if cells[i] != want_c[i] {
                c.fail("nodes_of_cell", format!("cell {i}: {:?}, the file has {:?}", cells[i], want_c[i]));
                break;
            }
        }
    }
    c.count("files", 1);
    c.count("nodes", v.len() as u64);
    c.count("cells", cells.len() as u64);
    if spec.enc != Enc::Ascii {
        c.count("binary", 1);
    }
    if spec.nbase > 1 {
        c.count("offset_tags", 1);
    }
    if spec.nblocks.len() > 1 {
        c.count("several_node_blocks", 1);
    }
    if spec.eblocks.len() > 1 {
        c.count("several_cell_blocks", 1);
    }
}

/// Straight-sided cells written in Gmsh's local numbering; the loaded cell's own map must be the corner map.
fn ordering(c: &mut Case) {
    let k = *c.rng.pick(&KINDS);
    if k.name == "tri3d3" {
        c.trivial();
        return;
    }
    let nodes = gmsh_nodes(k.name);
    let d = gdim(k);
    let corners: Vec<Vec<f64>> = match (k.name, d) {
        ("tri3d2", _) | ("tri6", _) => vec![vec![0.0, 0.0], vec![1.0, 0.0], vec![0.0, 1.0]],
        (_, 2) => vec![vec![0.0, 0.0], vec![1.0, 0.0], vec![1.0, 1.0], vec![0.0, 1.0]],
        ("tet4", _) | ("tet10", _) => vec![vec![0.0; 3], vec![1.0, 0.0, 0.0], vec![0.0, 1.0, 0.0], vec![0.0, 0.0, 1.0]],
        _ => {
            let q = [[0.0, 0.0], [1.0, 0.0], [1.0, 1.0], [0.0, 1.0]];
            (0..8).map(|i| vec![q[i % 4][0], q[i % 4][1], (i / 4) as f64]).collect()
        }
    };
    // perturbed, affinely mapped corners
    let a: Vec<f64> = (0..9).map(|i| c.rng.f(-0.4, 0.4) + if i % 4 == 0 { 1.5 } else { 0.0 }).collect();
    let t: Vec<f64> = (0..3).map(|_| c.rng.f(-2.0, 2.0)).collect();
    let jit = if c.rng.bool() { 0.1 } else { 0.0 };
    let corners: Vec<[f64; 3]> = corners
        .iter()
        .map(|p| {
            let p: Vec<f64> = (0..3).map(|i| if i < d { p[i] + c.rng.f(-1.0, 1.0) * jit } else { 0.0 }).collect();
            let mut o = [0.0; 3];
            for i in 0..d {
                o[i] = t[i] + (0..d).map(|j| a[3 * i + j] * p[j]).sum::<f64>();
            }
            o
        })
        .collect();
    let pos = |w: &[usize]| -> [f64; 3] {
        let mut o = [0.0; 3];
        for &i in w {
            for k in 0..3 {
                o[k] += corners[i][k] / w.len() as f64;
            }
        }
        o
    };
    let mut spec = random_spec(&mut c.rng, k);
    let perm = c.rng.perm(nodes.len());
    let mut pts = vec![[0.0; 3]; nodes.len()];
    for (i, w) in nodes.iter().enumerate() {
        pts[perm[i]] = pos(w);
    }
    spec.nblocks = vec![(k.dim, 1, 0, pts)];
    spec.eblocks = vec![EBlock { dim: k.dim, tag: 1, ty: k.ty, cells: vec![perm.iter().map(|&i| i as u64).collect()] }];
    let bytes = spec.write();
    c.desc(format!("{} {}", k.name, show(&bytes)));
    c.key(&bytes);
    let s: Vec<Vec<f64>> = (0..6)
        .map(|_| {
            let mut x: Vec<f64> = (0..d).map(|_| c.rng.f01()).collect();
            if matches!(k.name, "tri3d2" | "tri6" | "tet4" | "tet10") {
                let sum: f64 = x.iter().sum::<f64>() + c.rng.f01();
                x.iter_mut().for_each(|v| *v /= sum);
            }
            x
        })
        .collect();
    fn map<D, C>(bytes: &[u8], s: &[Vec<f64>]) -> Result<Vec<Vec<f64>>, String>
    where
        D: DimName,
        C: MshConnectivity + ElementConnectivity<f64, GeometryDim = D, ReferenceDim = D>,
        DefaultAllocator: fenris::allocators::BiDimAllocator<f64, D, D>,
    {
        let m: Mesh<f64, D, C> = load_msh_from_bytes(bytes).map_err(|e| format!("{e:#}"))?;
        let e = m.connectivity()[0].element(m.vertices()).ok_or("no element")?;
        Ok(s.iter()
            .map(|x| {
                let xi = OPoint::<f64, D>::from(fenris::nalgebra::OVector::<f64, D>::from_iterator(x.iter().map(|v| 2.0 * v - 1.0)));
                e.map_reference_coords(&xi).coords.iter().cloned().collect()
            })
            .collect())
    }
    let r = c.no_panic("ordering_panic", || match k.name {
        "tri3d2" => map::<U2, Tri3d2Connectivity>(&bytes, &s),
        "tri6" => map::<U2, Tri6d2Connectivity>(&bytes, &s),
        "quad4" => map::<U2, Quad4d2Connectivity>(&bytes, &s),
        "quad9" => map::<U2, Quad9d2Connectivity>(&bytes, &s),
        "tet4" => map::<U3, Tet4Connectivity>(&bytes, &s),
        "tet10" => map::<U3, Tet10Connectivity>(&bytes, &s),
        "hex8" => map::<U3, Hex8Connectivity>(&bytes, &s),
        _ => map::<U3, Hex27Connectivity>(&bytes, &s),
    });
    let got = match r {
        None => return,
        Some(Err(e)) => return c.fail("ordering_refused", e),
        Some(Ok(g)) => g,
    };
    for (x, g) in s.iter().zip(&got) {
        // the corner map
        let w: Vec<f64> = match k.name {
            "tri3d2" | "tri6" => vec![1.0 - x[0] - x[1], x[0], x[1]],
            "tet4" | "tet10" => vec![1.0 - x[0] - x[1] - x[2], x[0], x[1], x[2]],
            _ => (0..corners.len())
                .map(|i| {
                    let q = [[0.0, 0.0], [1.0, 0.0], [1.0, 1.0], [0.0, 1.0]][i % 4];
                    let mut p = 1.0;
                    for j in 0..d {
                        let hi = if j < 2 { q[j] } else { (i / 4) as f64 };
                        p *= if hi == 1.0 { x[j] } else { 1.0 - x[j] };
                    }
                    p
                })
                .collect(),
        };
        let want: Vec<f64> = (0..d).map(|j| w.iter().zip(&corners).map(|(w, p)| w * p[j]).sum()).collect();
        c.close_slices(g, &want, 1e-11, "ordering", || format!("{} at {x:?}: the loaded cell is not the straight-sided cell of the file", k.name));
    }
    c.count("cells_ordered", 1);
}

/// Panics inside the parser dependency, by place and kind.
fn dependency_class(msg: &str) -> Option<&'static str> {
    if !msg.contains("mshio") {
        return None;
    }
    for (f, m, s) in [
        ("nodes_section.rs", "subtract with overflow", "mshio_zero_nodes"),
        ("elements_section.rs", "subtract with overflow", "mshio_zero_elements"),
        ("header_section.rs", "PosOverflow", "mshio_header_number"),
        ("num_parsers.rs", "not implemented", "mshio_data_size"),
    ] {
        if msg.contains(f) && msg.contains(m) {
            return Some(s);
        }
    }
    None
}

/// loads hostile bytes: Err(()) if it panicked (already reported)
fn hostile(c: &mut Case, k: Kd, bytes: &[u8]) -> Option<Loaded> {
    let r = c.catch(|| load(k, false, bytes, None));
    match r {
        Err(e) => {
            match dependency_class(&e) {
                Some(s) => {
                    c.count("dependency_panics", 1);
                    c.fail(s, format!("the parser dependency panicked instead of an error: {e}"))
                }
                None => c.fail("panic", format!("panicked on a malformed file: {e}")),
            }
            None
        }
        Ok(r) => {
            if let Ok((v, cells)) = &r {
                c.count("hostile_accepted", 1);
                let bad = cells.iter().position(|x| x.iter().any(|&n| n >= v.len()) || x.len() != k.n);
                c.check(bad.is_none(), "missing_vertices", || format!("mesh with {} vertices has cell {bad:?} = {:?}", v.len(), cells[bad.unwrap()]));
                if v.iter().any(|p| p.len() != gdim(k)) {
                    c.fail("dimension", "coordinates of the wrong dimension".to_string());
                }
            } else {
                c.check(true, "no_panic", String::new);
                c.count("hostile_refused", 1);
            }
            Some(r)
        }
    }
}

const CLASSES: [&str; 28] = [
    "truncated",
    "no_nodes",
    "no_elements",
    "version",
    "kind_absent",
    "sparse_nodes",
    "sparse_elements",
    "ref_above",
    "ref_below",
    "ref_zero",
    "ref_huge",
    "negative_dim",
    "num_nodes_more",
    "num_nodes_less",
    "too_many_node_blocks",
    "too_many_cell_blocks",
    "parametric",
    "unknown_type",
    "nodes_twice",
    "elements_twice",
    "block_nodes_more",
    "block_cells_more",
    "fewer_node_blocks",
    "max_below_min",
    "zero_min_tag",
    "empty_file",
    "file_type",
    "missing_file",
];

/// Files that are wrong in a known way and must be answered with an error.
fn inconsistent(c: &mut Case) {
    let k = *c.rng.pick(&KINDS);
    let mut spec = random_spec(&mut c.rng, k);
    let class = *c.rng.pick(&CLASSES);
    let nn = spec.nn();
    let ne = spec.ne();
    let target = spec.eblocks.iter().position(|b| b.ty == k.ty && !b.cells.is_empty()).unwrap();
    let mut cut = None;
    let bad_ref = |c: &mut Case, spec: &mut Spec, x: u64| {
        let m = c.rng.below(spec.eblocks[target].cells.len());
        let j = c.rng.below(k.n);
        spec.eblocks[target].cells[m][j] = x;
    };
    match class {
        "truncated" => cut = Some(()),
        "no_nodes" => spec.no_nodes = true,
        "no_elements" => spec.no_elements = true,
        "version" => spec.version = c.rng.pick(&["2.2", "4.0", "4", "4.2", "1", "0.0", "41"]).to_string(),
        "kind_absent" => {
            spec.eblocks.retain(|b| b.ty != k.ty);
            if spec.eblocks.is_empty() {
                spec.eblocks.push(EBlock { dim: 1, tag: 1, ty: 1, cells: vec![vec![0, 0]] });
            }
            if spec.ne() == 0 {
                // an empty section is a separate, recorded class
                let ty = spec.eblocks[0].ty;
                spec.eblocks[0].cells.push(vec![0; OTHERS.iter().find(|o| o.0 == ty).unwrap().2]);
            }
        }
        "sparse_nodes" => spec.max_ntag = Some(spec.nbase + nn - 1 + c.rng.range(1, 50) as u64),
        "sparse_elements" => spec.max_etag = Some(spec.ebase + ne - 1 + c.rng.range(1, 50) as u64),
        "ref_above" => {
            let x = nn + c.rng.below(3) as u64;
            bad_ref(c, &mut spec, x)
        }
        "ref_below" => {
            spec.nbase = spec.nbase.max(2);
            bad_ref(c, &mut spec, u64::MAX) // base - 1
        }
        "ref_zero" => {
            let x = 0u64.wrapping_sub(spec.nbase);
            bad_ref(c, &mut spec, x)
        }
        "ref_huge" => {
            let big = if matches!(spec.enc, Enc::Bin { size: 4, .. }) { u32::MAX as u64 } else { *c.rng.pick(&[u64::MAX, i64::MAX as u64, u32::MAX as u64, 1 << 63]) };
            let x = big.wrapping_sub(spec.nbase);
            bad_ref(c, &mut spec, x)
        }
        "negative_dim" => {
            let d = *c.rng.pick(&[-1, -k.dim, i32::MIN, 7]);
            spec.eblocks.iter_mut().filter(|b| b.ty == k.ty).for_each(|b| b.dim = d);
        }
        "num_nodes_more" => {
            // the largest tag stays within the announced number: not sparse
            spec.num_nodes = Some(nn + c.rng.range(1, 40) as u64);
        }
        "num_nodes_less" => {
            if nn < 2 {
                c.trivial();
                return;
            }
            let m = c.rng.range(1, nn as usize - 1) as u64;
            spec.num_nodes = Some(m);
            spec.max_ntag = Some(spec.nbase + if c.rng.bool() { m } else { nn } - 1);
        }
        "too_many_node_blocks" => spec.num_nblocks = Some(spec.nblocks.len() as u64 + *c.rng.pick(&[1u64, 2, 1000, u32::MAX as u64 - 100])),
        "too_many_cell_blocks" => spec.num_eblocks = Some(spec.eblocks.len() as u64 + *c.rng.pick(&[1u64, 2, 1000, u32::MAX as u64 - 100])),
        "parametric" => {
            let i = c.rng.below(spec.nblocks.len());
            spec.nblocks[i].2 = *c.rng.pick(&[1, 2, -1]);
        }
        "unknown_type" => {
            let i = c.rng.below(spec.eblocks.len());
            spec.eblocks[i].ty = *c.rng.pick(&[999, -1, 0, i32::MAX]);
        }
        "nodes_twice" => spec.twice = 1,
        "elements_twice" => spec.twice = 2,
        "block_nodes_more" => {
            spec.block_nodes = Some(spec.nblocks[0].3.len() as u64 + *c.rng.pick(&[1u64, 5, 1 << 20, u32::MAX as u64 / 2]));
            if spec.enc != Enc::Ascii {
                // in binary the surplus would be read out of whatever follows
                spec.nblocks.truncate(1);
                spec.eblocks.iter_mut().flat_map(|b| b.cells.iter_mut()).flatten().for_each(|x| *x = 0);
                if spec.elements_first {
                    spec.block_nodes = Some(1 << 30);
                } else {
                    spec.block_nodes = Some(1 << 31);
                }
            }
        }
        "block_cells_more" => {
            spec.block_cells = Some(spec.eblocks[0].cells.len() as u64 + 1 + c.rng.below(1000) as u64);
            if spec.enc != Enc::Ascii {
                spec.block_cells = Some(1 << 31);
            }
        }
        "fewer_node_blocks" => {
            // the section then ends with data instead of its end marker
            if spec.nblocks.len() < 2 || spec.enc != Enc::Ascii {
                c.trivial();
                return;
            }
            spec.num_nblocks = Some(spec.nblocks.len() as u64 - 1);
        }
        "max_below_min" => {
            spec.nbase = spec.nbase.max(2);
            spec.max_ntag = Some(spec.nbase - 1);
        }
        "zero_min_tag" => {
            if c.rng.bool() {
                spec.min_ntag = Some(0)
            } else {
                spec.min_etag = Some(0)
            }
        }
        _ => {}
    }
    let mut bytes = spec.write();
    if cut.is_some() {
        let end = find(&bytes, b"$EndElements").max(find(&bytes, b"$EndNodes"));
        bytes.truncate(c.rng.below(end + 9));
    }
    if class == "empty_file" {
        bytes = c.rng.pick(&[b"".to_vec(), b"\n".to_vec(), b"$MeshFormat\n".to_vec(), vec![0; 64]]).clone();
    }
    if class == "file_type" {
        bytes = String::from_utf8_lossy(&bytes).replacen("4.1 0 8", "4.1 2 8", 1).replacen("4.1 1 8", "4.1 7 8", 1).replacen("4.1 1 4", "4.1 -1 4", 1).into_bytes();
    }
    c.desc(format!("{} {class} {:?} base {} {}", k.name, spec.enc, spec.nbase, show(&bytes)));
    c.key(&bytes);
    if class == "missing_file" {
        let p = std::path::PathBuf::from("/verif/target/scratch/does/not/exist.msh");
        let r = c.no_panic("file_panic", || load(k, false, &[], Some(&p)));
        c.check(matches!(r, Some(Err(_))), "missing_file_accepted", || "no error for a file that does not exist".into());
        return;
    }
    let Some(r) = hostile(c, k, &bytes) else { return };
    c.count(class_count(class), 1);
    c.count("malformed_files", 1);
    if let Ok((v, cells)) = r {
        c.fail(&format!("accepted_{class}"), format!("a malformed file ({class}) was accepted: {} vertices, {} cells", v.len(), cells.len()));
    }
}
fn class_count(s: &str) -> &'static str {
    CLASSES.iter().find(|c| **c == s).unwrap()
}
fn find(h: &[u8], n: &[u8]) -> usize {
    h.windows(n.len()).position(|w| w == n).unwrap_or(0)
}

/// Random damage: never a panic, never a mesh that refers to missing vertices.
fn corrupt(c: &mut Case) {
    let k = *c.rng.pick(&KINDS);
    let mut spec = random_spec(&mut c.rng, k);
    if c.rng.bool() {
        // concentrate the damage on structure
        spec.nblocks.truncate(2);
        spec.nblocks.iter_mut().for_each(|b| b.3.truncate(3));
        spec.eblocks.truncate(2);
        let nn = spec.nn().max(1);
        spec.eblocks.iter_mut().for_each(|b| {
            b.cells.truncate(2);
            b.cells.iter_mut().flatten().for_each(|x| *x %= nn);
        });
    }
    let mut bytes = spec.write();
    let how = c.rng.below(6);
    let m = c.rng.range(1, 4);
    match how {
        0 => {
            for _ in 0..m {
                let i = c.rng.below(bytes.len());
                bytes[i] ^= 1 << c.rng.below(8);
            }
        }
        1 => {
            for _ in 0..m {
                let i = c.rng.below(bytes.len());
                bytes[i] = c.rng.below(256) as u8;
            }
        }
        2 => {
            let i = c.rng.below(bytes.len());
            let j = (i + c.rng.range(1, 30)).min(bytes.len());
            bytes.drain(i..j);
        }
        3 => {
            let i = c.rng.below(bytes.len());
            let j = (i + c.rng.range(1, 60)).min(bytes.len());
            let part = bytes[i..j].to_vec();
            let at = c.rng.below(bytes.len());
            bytes.splice(at..at, part);
        }
        4 if spec.enc == Enc::Ascii => {
            let text = String::from_utf8_lossy(&bytes).to_string();
            let mut lines: Vec<Vec<String>> = text.lines().map(|l| l.split(' ').map(|s| s.to_string()).collect()).collect();
            for _ in 0..m {
                let i = c.rng.below(lines.len());
                if lines[i].is_empty() {
                    continue;
                }
                let j = c.rng.below(lines[i].len());
                lines[i][j] = c
                    .rng
                    .pick(&["0", "-1", "1", "2", "999999999999999999999999", "18446744073709551615", "4294967296", "nan", "inf", "1e400", "", "x", "3.5", "-0", "+1", "$EndNodes", "\u{e9}", "2147483648", "-2147483649"])
                    .to_string();
            }
            bytes = lines.iter().map(|l| l.join(" ")).collect::<Vec<_>>().join("\n").into_bytes();
        }
        _ => {
            // exchange two lines / chunks
            let mut parts: Vec<Vec<u8>> = bytes.split_inclusive(|b| *b == b'\n').map(|x| x.to_vec()).collect();
            for _ in 0..m {
                let i = c.rng.below(parts.len());
                let j = c.rng.below(parts.len());
                parts.swap(i, j);
            }
            bytes = parts.concat();
        }
    }
    c.desc(format!("{} damage {how} {:?} {}", k.name, spec.enc, show(&bytes)));
    c.key(&bytes);
    let _ = hostile(c, k, &bytes);
    c.count("damaged_files", 1);
}

/// Node tags that are consecutive but listed in another order.
fn permuted(c: &mut Case) {
    let k = *c.rng.pick(&KINDS);
    let mut spec = random_spec(&mut c.rng, k);
    let nn = spec.nn() as usize;
    if nn < 2 {
        c.trivial();
        return;
    }
    let p = c.rng.perm(nn);
    if p.iter().enumerate().all(|(i, &x)| i == x) {
        c.trivial();
        return;
    }
    spec.ntags = Some(p.iter().map(|&x| spec.nbase + x as u64).collect());
    let bytes = spec.write();
    c.desc(format!("{} {}", k.name, show(&bytes)));
    c.key(&bytes);
    let Some(r) = hostile(c, k, &bytes) else { return };
    c.count("permuted_files", 1);
    let Ok((v, cells)) = r else { return };
    // as points: every node of every cell must have the coordinates the file gives that tag
    let pts: Vec<&[f64; 3]> = spec.nblocks.iter().flat_map(|b| &b.3).collect();
    let want: Vec<&Vec<u64>> = spec.eblocks.iter().filter(|b| b.ty == k.ty).flat_map(|b| &b.cells).collect();
    if !c.check(want.len() == cells.len(), "num_cells", || format!("{} cells, the file has {}", cells.len(), want.len())) {
        return;
    }
    for (i, (w, g)) in want.iter().zip(&cells).enumerate() {
        for (a, b) in w.iter().zip(g) {
            let (x, y) = (&pts[*a as usize][..gdim(k)], &v[*b][..]);
            if x != y {
                return c.fail("silently_misnumbered", format!("cell {i} has a node at {y:?}, the file says {x:?}"));
            }
        }
    }
}

/// The inputs of the recorded findings in the parser dependency, every run.
fn recorded(c: &mut Case) {
    let k = KINDS[c.index as usize % KINDS.len()];
    let mut spec = random_spec(&mut c.rng, k);
    spec.elements_first = false;
    let mut must_refuse = true;
    let which = (c.index as usize / KINDS.len()) % 4;
    match which {
        0 => spec.num_nodes = Some(0),
        1 => spec.num_elements = Some(0),
        2 => spec.data_size = Some("99999999999999999999".into()),
        _ => {
            spec.enc = Enc::Bin { big: false, size: 8 };
            spec.crlf = false;
            spec.data_size = Some("3".into());
        }
    }
    if which == 1 {
        must_refuse = false;
    }
    let bytes = spec.write();
    c.desc(format!("{} recorded {which} {}", k.name, show(&bytes)));
    c.key(&bytes);
    let Some(r) = hostile(c, k, &bytes) else { return };
    if must_refuse {
        c.check(r.is_err(), "recorded_accepted", || "accepted".into());
    }
}

/// The files shipped with the library, read by an independent reader.
fn assets(c: &mut Case) {
    fn walk(d: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
        let Ok(rd) = std::fs::read_dir(d) else { return };
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() {
                walk(&p, out)
            } else if p.extension().map(|e| e == "msh").unwrap_or(false) {
                out.push(p)
            }
        }
    }
    let mut fs = vec![];
    walk(std::path::Path::new("/repo/assets"), &mut fs);
    fs.sort();
    if fs.is_empty() {
        c.trivial();
        return;
    }
    let p = &fs[c.index as usize % fs.len()];
    let bytes = std::fs::read(p).unwrap();
    c.desc(format!("{p:?}"));
    c.key(&bytes);
    for k in KINDS {
        let a = c.no_panic("asset_panic", || load(k, false, &bytes, None));
        let b = c.no_panic("asset_panic", || load(k, false, &[], Some(p)));
        if let (Some(a), Some(b)) = (a, b) {
            c.check(a.is_ok() == b.is_ok(), "file_vs_bytes", || format!("{a:?} / {b:?}"));
            if let (Ok(a), Ok(b)) = (a, b) {
                c.check(a == b, "file_vs_bytes", || "file and bytes give different meshes".into());
                c.check(a.1.iter().flatten().all(|&i| i < a.0.len()), "asset_refs", || "missing vertices".into());
                c.count("asset_meshes", 1);
            }
        }
    }
}

pub fn i01(run: &mut Run) {
    run.assumption("Files are Gmsh MSH 4.1 as its documentation describes them, written by the check's own writer (text with \\n or \\r\\n, binary little/big endian, 4/8 byte sizes).");
    run.assumption("Arbitrary damage may leave a file valid, so it is judged only by: no panic, and no mesh that refers to missing vertices.");
    run.section("wellformed", "every node coordinate and every cell of the requested kind arrives exactly; nothing is refused", 6000, 1_000_000, wellformed);
    run.section("ordering", "straight-sided cells in Gmsh's local numbering load as cells whose own map is the corner map", 3000, 60_000, ordering);
    run.section("inconsistent", "files wrong in one known way are answered with an error", 8000, 2_000_000, inconsistent);
    run.section("corrupt", "damaged files: no panic, no references to missing vertices", 12_000, 5_000_000, corrupt);
    run.section("permuted_tags", "consecutive node tags in another order: an error or the same cells", 300, 3000, permuted);
    run.section("recorded", "the inputs of the recorded findings", 36, 36, recorded);
    run.section("assets", "the shipped files: same result from file and from bytes, valid references", 40, 40, assets);
    for (n, m) in [
        ("files", 3000u64),
        ("binary", 1000),
        ("offset_tags", 800),
        ("several_node_blocks", 1000),
        ("several_cell_blocks", 1000),
        ("cells_ordered", 1500),
        ("malformed_files", 5000),
        ("hostile_refused", 6000),
        ("hostile_accepted", 300),
        ("damaged_files", 8000),
    ] {
        run.require(n, m);
    }
    for cl in CLASSES.iter().filter(|c| !matches!(**c, "missing_file" | "fewer_node_blocks")) {
        run.require(cl, 20);
    }
    run.require("fewer_node_blocks", 5);
    let _ = std::fs::remove_dir_all(format!("/verif/target/scratch/msh-{}", std::process::id()));
}
