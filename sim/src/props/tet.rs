//! T01: Delaunay tetrahedralisation under every insertion order.
use super::geom::*;
use crate::case::{Case, Prop, Verdict};
use crate::rng::Rng;
use crate::seams::{simulate, Fail, SimCfg};
use std::collections::{BTreeMap, BTreeSet};

pub struct Tet;

/// schedule row: [entropy, entropy_mode, dirty, poison|move]
pub fn sched_cfg(f: &[i64], budget: u64) -> SimCfg {
    SimCfg {
        entropy: f.first().copied().unwrap_or(0) as u64,
        entropy_mode: f.get(1).copied().unwrap_or(0).clamp(0, 5) as u8,
        dirty: f.get(2).copied().unwrap_or(0) as u64,
        poison: f.get(3).copied().unwrap_or(0) & 1 != 0,
        move_realloc: f.get(3).copied().unwrap_or(0) & 2 != 0,
        budget,
        ..Default::default()
    }
}
pub fn gen_sched(rng: &mut Rng) -> Vec<i64> {
    let mode = if rng.chance(1, 4) { rng.range(1, 5) } else { 0 };
    let dirty = if rng.chance(1, 2) { rng.range(1, 1 << 40) } else { 0 };
    vec![rng.range(0, 1 << 40), mode, dirty, rng.range(0, 3)]
}

pub fn gen_points(rng: &mut Rng, kind: &str, n: usize) -> Vec<P3> {
    let mut s: BTreeSet<P3> = BTreeSet::new();
    let mut out = vec![];
    let r = match kind {
        "tiny" => rng.range(2, 4),
        "grid" => rng.range(2, 6),
        "cosph" => rng.range(3, 30),
        _ => *rng.pick(&[10, 100, 1000, 1 << 20]),
    };
    let mut tries = 0;
    let (ox, oy, oz) = (rng.range(-50, 50), rng.range(-50, 50), rng.range(-50, 50));
    let slab = rng.chance(1, 4);
    let cl = rng.range(1, 4);
    let centers: Vec<P3> = (0..cl).map(|_| [rng.range(-r, r), rng.range(-r, r), rng.range(-r, r)]).collect();
    let sph: Vec<P3> = if kind == "cosph" {
        // integer points with one squared radius
        let rr = rng.range(9, 200);
        let m = (rr as f64).sqrt() as i64 + 1;
        let mut v = vec![];
        for x in -m..=m {
            for y in -m..=m {
                for z in -m..=m {
                    if x * x + y * y + z * z == rr {
                        v.push([x, y, z]);
                    }
                }
            }
        }
        v
    } else {
        vec![]
    };
    while out.len() < n && tries < n * 20 {
        tries += 1;
        let p = match kind {
            "cosph" => {
                if !sph.is_empty() && rng.chance(9, 10) {
                    *rng.pick(&sph)
                } else {
                    [rng.range(-3, 3), rng.range(-3, 3), rng.range(-3, 3)]
                }
            }
            "cluster" => {
                let c = rng.pick(&centers).clone();
                let w = *rng.pick(&[1i64, 3, 20]);
                [c[0] + rng.range(-w, w), c[1] + rng.range(-w, w), c[2] + rng.range(-w, w)]
            }
            "planes" => {
                // most points on a few coordinate or diagonal planes
                let mut p = [rng.range(-r, r), rng.range(-r, r), rng.range(-r, r)];
                match rng.below(5) {
                    0 => p[0] = 0,
                    1 => p[1] = r,
                    2 => p[2] = p[0],
                    3 => {
                        p[1] = 0;
                        p[2] = 0
                    }
                    _ => {}
                }
                p
            }
            _ => {
                let mut p = [rng.range(-r, r), rng.range(-r, r), rng.range(-r, r)];
                if slab {
                    p[2] = p[2] / 4;
                }
                p
            }
        };
        let p = [p[0] + ox, p[1] + oy, p[2] + oz];
        if s.insert(p) {
            out.push(p);
        }
    }
    out
}

fn sphere_points(n: usize, seed: i64) -> Vec<P3> {
    let mut rng = Rng::new(seed as u64);
    let mut s = BTreeSet::new();
    let mut v = vec![];
    while v.len() < n {
        let p = [rng.range(-1000, 1000) as f64, rng.range(-1000, 1000) as f64, rng.range(-1000, 1000) as f64];
        let l = (p[0] * p[0] + p[1] * p[1] + p[2] * p[2]).sqrt();
        if l < 100.0 || l > 1000.0 {
            continue;
        }
        let q = [
            (p[0] / l * 2e6).round() as i64,
            (p[1] / l * 2e6).round() as i64,
            (p[2] / l * 2e6).round() as i64,
        ];
        if s.insert(q) {
            v.push(q);
        }
    }
    v
}

pub fn points_of(c: &Case) -> Vec<P3> {
    let mut v: Vec<P3> = vec![];
    let mut seen = BTreeSet::new();
    if c.kind == "huge" {
        // so many that ids of tetrahedra (and of points) leave 16 bits
        let mut rng = Rng::new(c.p("seed") as u64);
        let n = c.p("n").clamp(4, 70_000) as usize;
        let r = 1 << 20;
        while v.len() < n {
            let mut p: P3 = std::array::from_fn(|_| rng.range(-r, r));
            if c.p("layers") == 1 {
                p[2] = p[2] >> 18 << 18;
            }
            if seen.insert(p) {
                v.push(p);
            }
        }
        return v;
    }
    let base = if c.p("sphere") > 0 { sphere_points(c.p("sphere") as usize, c.p("sphere_seed")) } else { vec![] };
    for p in base.into_iter().chain(c.items.iter().filter(|i| i.len() >= 3).map(|i| [i[0], i[1], i[2]])) {
        if seen.insert(p) {
            v.push(p);
        }
    }
    v
}

/// What an observer of the mesh sees.
pub struct Seen {
    pub tets: Vec<[usize; 4]>,
    /// (tet, version) reached by crossing face f of tet t, for all 12 versions
    pub sym: Vec<[(usize, usize); 12]>,
    pub odata: Vec<[[usize; 4]; 12]>, // org, dest, apex, oppo per version
    pub p2t: Vec<usize>,
    pub hull: Vec<bool>,
    /// (point, its tets), in the order asked
    pub incident: Vec<(usize, Vec<usize>)>,
    pub np: usize,
}

pub fn look(m: &mut gpf::triangle::TetMesh, all_stars: bool) -> Seen {
    use gpf::triangle::TriFace;
    let n = m.tets.len();
    let mut s = Seen { tets: vec![], sym: vec![], odata: vec![], p2t: m.p2t.clone(), hull: vec![], incident: vec![], np: m.n_points };
    for t in 0..n {
        s.tets.push(m.tets[t].data);
        s.hull.push(m.is_hull_tet(t));
        let mut a = [(0, 0); 12];
        let mut o = [[0; 4]; 12];
        for ver in 0..12 {
            let f = TriFace::new(t, ver);
            let mut g = TriFace::new(0, 0);
            let nt = m.tets[t].nei[ver & 3].tet;
            if nt < n {
                m.fsym(&f, &mut g);
                a[ver] = (g.tet, g.ver);
            } else {
                a[ver] = (usize::MAX, 0);
            }
            o[ver] = [m.org(&f), m.dest(&f), m.apex(&f), m.oppo(&f)];
        }
        s.sym.push(a);
        s.odata.push(o);
    }
    let np = m.n_points;
    let ask: Vec<usize> = if all_stars {
        (0..np).collect()
    } else {
        // a sample, the last points (which may sit inside the others) before and after
        let last = || np.saturating_sub(3)..np;
        last().chain((0..np).step_by(np / 16 + 1)).chain(last()).collect()
    };
    for v in ask {
        if s.p2t[v] < n && s.tets[s.p2t[v]].contains(&v) {
            let mut r = m.incident(v, std::alloc::Global);
            r.sort();
            s.incident.push((v, r));
        }
    }
    s
}

/// The oracle. None = fine.
pub fn judge(pts: &[P3], s: &Seen) -> Option<(&'static str, String)> {
    let n = pts.len();
    if s.tets.is_empty() {
        return Some(("empty-mesh", format!("{n} points in general position gave no tetrahedra")));
    }
    if s.np != n {
        return Some(("count", "n_points".into()));
    }
    let mut used = vec![false; n];
    let mut faces: BTreeMap<[usize; 3], Vec<usize>> = BTreeMap::new();
    for (t, d) in s.tets.iter().enumerate() {
        if d.iter().any(|&v| v > n) {
            return Some(("bad-vertex", format!("tet {t} = {d:?}")));
        }
        let ghost = d.iter().filter(|&&v| v == n).count();
        if ghost > 1 || (ghost == 1 && d[3] != n) || s.hull[t] != (ghost == 1) {
            return Some(("bad-ghost", format!("tet {t} = {d:?} hull {}", s.hull[t])));
        }
        if ghost == 0 {
            let o = orient3(&pts[d[0]], &pts[d[1]], &pts[d[2]], &pts[d[3]]);
            if o >= 0 {
                return Some(("orientation", format!("tet {t} = {d:?} has orientation {o}")));
            }
            for &v in d {
                used[v] = true;
            }
        }
        for k in 0..4 {
            let mut f: Vec<usize> = (0..4).filter(|&j| j != k).map(|j| d[j]).collect();
            f.sort();
            faces.entry([f[0], f[1], f[2]]).or_default().push(t);
        }
    }
    if let Some(v) = used.iter().position(|u| !u) {
        return Some(("lost-point", format!("point {v} {:?} is in no tetrahedron", pts[v])));
    }
    for (f, v) in &faces {
        if v.len() != 2 {
            return Some(("face-count", format!("face {f:?} belongs to {} tetrahedra", v.len())));
        }
    }
    for t in 0..s.tets.len() {
        for ver in 0..12 {
            let (u, uv) = s.sym[t][ver];
            if u == usize::MAX || uv >= 12 {
                return Some(("neighbour", format!("tet {t} version {ver} has no neighbour")));
            }
            let a = s.odata[t][ver];
            let b = s.odata[u][uv];
            if (a[0], a[1], a[2]) != (b[1], b[0], b[2]) || a[3] == b[3] || s.sym[u][uv] != (t, ver) {
                return Some((
                    "neighbour",
                    format!("crossing face of tet {t} {:?} (version {ver}) leads to {:?} of tet {u} {:?}", a, b, s.tets[u]),
                ));
            }
        }
    }
    // hull faces: every point on the inner side or on the plane
    let hull: Vec<[usize; 3]> =
        s.tets.iter().enumerate().filter(|(t, _)| s.hull[*t]).map(|(_, d)| [d[0], d[1], d[2]]).collect();
    let full = n <= 160;
    for h in &hull {
        let mut side = 0;
        if full {
            for p in pts {
                let o = orient3(&pts[h[0]], &pts[h[1]], &pts[h[2]], p);
                if o != 0 {
                    if side == 0 {
                        side = o;
                    } else if side != o {
                        return Some(("hull", format!("hull face {h:?} has points on both sides")));
                    }
                }
            }
        }
    }
    // empty circumspheres
    for (t, d) in s.tets.iter().enumerate() {
        if s.hull[t] {
            continue;
        }
        let q = |e: &P3| insphere(&pts[d[0]], &pts[d[1]], &pts[d[2]], &pts[d[3]], e);
        if full {
            for (v, p) in pts.iter().enumerate() {
                if !d.contains(&v) && q(p) * -1 > 0 {
                    return Some(("not-delaunay", format!("point {v} {p:?} is inside the circumsphere of {d:?}")));
                }
            }
        } else {
            for k in 0..4 {
                let u = s.sym[t][k].0;
                if !s.hull[u] {
                    if let Some(&v) = s.tets[u].iter().find(|v| !d.contains(v)) {
                        if q(&pts[v]) * -1 > 0 {
                            return Some(("not-delaunay", format!("point {v} is inside the circumsphere of {d:?}")));
                        }
                    }
                }
            }
        }
    }
    if !full {
        // hull local convexity: neighbouring hull faces turn the right way
        let vol: i128 = s
            .tets
            .iter()
            .enumerate()
            .filter(|(t, _)| !s.hull[*t])
            .map(|(_, d)| orient3_val(&pts[d[0]], &pts[d[1]], &pts[d[2]], &pts[d[3]]))
            .sum();
        if vol >= 0 {
            return Some(("orientation", "total volume".into()));
        }
        for (t, d) in s.tets.iter().enumerate() {
            if !s.hull[t] {
                continue;
            }
            // inner point of this hull face
            let f: BTreeSet<usize> = [d[0], d[1], d[2]].into();
            let inner = (0..4).map(|k| s.sym[t][k].0).find(|&u| !s.hull[u]).and_then(|u| s.tets[u].iter().find(|v| !f.contains(v)));
            let Some(&iv) = inner else { return Some(("hull", format!("hull face {f:?} has no inner tetrahedron"))) };
            let side = orient3(&pts[d[0]], &pts[d[1]], &pts[d[2]], &pts[iv]);
            for k in 0..4 {
                let u = s.sym[t][k].0;
                if s.hull[u] {
                    if let Some(&w) = s.tets[u].iter().find(|v| **v != n && !f.contains(v)) {
                        let o = orient3(&pts[d[0]], &pts[d[1]], &pts[d[2]], &pts[w]);
                        if o != 0 && o != side {
                            return Some(("hull", format!("hull is not convex at {f:?}")));
                        }
                    }
                }
            }
        }
    }
    // point -> tetrahedron map and star queries
    let mut star: Vec<Vec<usize>> = vec![vec![]; n];
    for (t, d) in s.tets.iter().enumerate() {
        if !s.hull[t] {
            for &v in d {
                star[v].push(t);
            }
        }
    }
    for v in 0..n {
        let t = s.p2t[v];
        if t >= s.tets.len() || s.hull[t] || !s.tets[t].contains(&v) {
            return Some(("point-map", format!("point {v} is mapped to tet {t} {:?}", s.tets.get(t))));
        }
    }
    for (v, got) in &s.incident {
        if *got != star[*v] {
            return Some(("star", format!("incident({v}) = {got:?}, expected {:?}", star[*v])));
        }
    }
    None
}

/// The library declines point sets whose best spread-out starting simplex is flatter than 1e-6 of
/// the bounding box (its documented tolerance); stay a factor 4 clear of that, whichever point the
/// shuffle puts first.
pub fn in_domain(pts: &[P3]) -> bool {
    if pts.len() < 4 {
        return false;
    }
    let f: Vec<[f64; 3]> = pts.iter().map(|p| [p[0] as f64, p[1] as f64, p[2] as f64]).collect();
    let mut diag = 0.0f64;
    for k in 0..3 {
        let lo = f.iter().map(|p| p[k]).fold(f64::INFINITY, f64::min);
        let hi = f.iter().map(|p| p[k]).fold(f64::NEG_INFINITY, f64::max);
        diag += (hi - lo) * (hi - lo);
    }
    let diag = diag.sqrt();
    let sub = |a: &[f64; 3], b: &[f64; 3]| [a[0] - b[0], a[1] - b[1], a[2] - b[2]];
    let cross = |a: &[f64; 3], b: &[f64; 3]| {
        [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    };
    let dot = |a: &[f64; 3], b: &[f64; 3]| a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
    const EPS: f64 = 4e-6;
    for p0 in f.iter().take(200) {
        let d1: Vec<f64> = f.iter().map(|p| dot(&sub(p, p0), &sub(p, p0)).sqrt()).collect();
        let m1 = d1.iter().cloned().fold(0.0, f64::max);
        if m1 / diag < EPS {
            return false;
        }
        for i1 in (0..f.len()).filter(|&i| d1[i] >= m1 * 0.999999).take(4) {
            let e1 = sub(&f[i1], p0);
            let cr: Vec<[f64; 3]> = f.iter().map(|p| cross(&e1, &sub(p, p0))).collect();
            let d2: Vec<f64> = cr.iter().map(|n| dot(n, n).sqrt()).collect();
            let m2 = d2.iter().cloned().fold(0.0, f64::max);
            if m2 / (diag * diag) < EPS {
                return false;
            }
            for i2 in (0..f.len()).filter(|&i| d2[i] >= m2 * 0.999999).take(4) {
                let m3 = f.iter().map(|p| dot(&cr[i2], &sub(p, p0)).abs()).fold(0.0, f64::max);
                if m3 / (diag * diag * diag) < EPS {
                    return false;
                }
            }
        }
    }
    true
}

impl Prop for Tet {
    fn id(&self) -> &'static str {
        "C01"
    }
    fn plan(&self, thorough: bool) -> (u64, u64) {
        if thorough {
            (6000, 60)
        } else {
            (320, 60)
        }
    }
    fn gen(&self, rng: &mut Rng, thorough: bool) -> Case {
        let mut c = Case::default();
        let k = *rng.pick(&["tiny", "grid", "cosph", "cluster", "planes", "uniform", "uniform"]);
        c.kind = k.into();
        if rng.chance(1, 800) {
            c.kind = "huge".into();
            c.set("n", if rng.chance(1, 5) { rng.range(65_600, 70_000) } else { rng.range(11_000, 12_500) });
            c.set("layers", rng.range(0, 1));
            c.set("seed", rng.range(0, 1 << 40));
            c.faults.push(gen_sched(rng));
            return c;
        }
        if rng.chance(1, 400) {
            c.kind = "cavity".into();
            c.set("sphere", rng.range(2300, if thorough { 3500 } else { 2600 }));
            c.set("sphere_seed", rng.range(0, 1 << 30));
            for _ in 0..rng.range(1, 3) {
                c.items.push(vec![rng.range(-2000, 2000), rng.range(-2000, 2000), rng.range(-2000, 2000)]);
            }
            for _ in 0..2 {
                c.faults.push(gen_sched(rng));
            }
            return c;
        }
        if rng.chance(1, 100) {
            // points with many others around them
            c.kind = "star".into();
            c.set("sphere", rng.range(150, 900));
            c.set("sphere_seed", rng.range(0, 1 << 30));
            for _ in 0..rng.range(1, 3) {
                c.items.push(vec![rng.range(-2000, 2000), rng.range(-2000, 2000), rng.range(-2000, 2000)]);
            }
            for _ in 0..2 {
                c.faults.push(gen_sched(rng));
            }
            return c;
        }
        let n = match rng.below(10) {
            0..=3 => rng.range(4, 12),
            4..=7 => rng.range(8, 40),
            8 => rng.range(40, 110),
            _ => {
                if rng.chance(1, 6) {
                    rng.range(160, 500)
                } else {
                    rng.range(60, 150)
                }
            }
        } as usize;
        for p in gen_points(rng, k, n) {
            c.items.push(p.to_vec());
        }
        c.set("exp", if rng.chance(1, 3) { rng.range(-40, 30) } else { 0 });
        for _ in 0..rng.range(2, 4) {
            c.faults.push(gen_sched(rng));
        }
        c
    }
    fn run(&self, c: &Case) -> Verdict {
        let mut v = Verdict::new();
        let pts = points_of(c);
        if !in_domain(&pts) {
            v.stat("out_of_domain", 1);
            return v;
        }
        if c.kind == "huge" {
            v.stat("probe.huge_sets", 1);
        }
        let e = c.p("exp").clamp(-300, 300);
        let fl: Vec<f64> = pts.iter().flat_map(|p| p.iter().map(|&x| scale(x, e)).collect::<Vec<_>>()).collect();
        let mut first: Option<BTreeSet<[usize; 4]>> = None;
        let budget = 2_000_000 + 20_000 * pts.len() as u64;
        for f in &c.faults {
            let cfg = sched_cfg(f, budget);
            let (r, tel) = simulate(&cfg, || {
                let mut m = gpf::triangle::tetrahedralize(&fl);
                crate::seams::suspended(|| look(&mut m, pts.len() < 400))
            });
            v.telemetry(&tel);
            v.stat("schedules", 1);
            match r {
                Ok(s) => {
                    if let Some((cl, d)) = judge(&pts, &s) {
                        v.fail(cl, format!("{d} (insertion order seed {})", f[0]));
                        return v;
                    }
                    let set: BTreeSet<[usize; 4]> = s
                        .tets
                        .iter()
                        .enumerate()
                        .filter(|(t, _)| !s.hull[*t])
                        .map(|(_, d)| {
                            let mut d = *d;
                            d.sort();
                            d
                        })
                        .collect();
                    for (t, d) in s.tets.iter().enumerate() {
                        v.log(t as u64);
                        for &x in d {
                            v.log(x as u64);
                        }
                    }
                    v.mark(v.digest);
                    match &first {
                        None => first = Some(set),
                        Some(a) => {
                            if *a != set {
                                v.fail("order-dependent", format!("{} tets differ between two insertion orders", a.symmetric_difference(&set).count()));
                                return v;
                            }
                        }
                    }
                    v.stat("tets", s.tets.len() as u64);
                }
                Err(Fail::Budget) => v.fail("no-progress", format!("step budget {budget} exceeded")),
                Err(x) => v.fail("panic", format!("{x:?}")),
            }
            if v.bad() {
                return v;
            }
        }
        v.nontrivial = c.faults.len() >= 2;
        v
    }
    fn rule(&self) -> &'static str {
        "distinct (point set, insertion orders) run under at least two insertion orders"
    }
    fn shape_measure(&self) -> &'static str {
        "insertion orders as observed (hash of the emitted tetrahedron sequences)"
    }
    fn real(&self) -> &'static [&'static str] {
        &["gpf::triangle::tetrahedralize and TetMesh", "gpf::predicates (orient3d, insphere, expansions)", "rand 0.8 SmallRng and shuffle", "bumpalo"]
    }
    fn stubbed(&self) -> &'static [&'static str] {
        &["OS entropy behind rand::thread_rng/SmallRng::from_entropy (decides the insertion order)", "the global allocator (dirty and relocated memory, step budget)"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["points are distinct and not all coplanar", "coordinates are integers times a power of two, so that the oracle is exact"]
    }
}
