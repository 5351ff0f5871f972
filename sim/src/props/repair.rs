//! C09/C10/C11: the mesh repair pipeline (make_mesh_for_triangles, make_polyhedral_mesh) under every
//! schedule: insertion shuffle, std hash seeds, process hash keys, allocator behaviour.
use super::geom::*;
use super::tet::{gen_sched, in_domain, sched_cfg};
use crate::case::{Case, Prop, Verdict};
use crate::rng::Rng;
use crate::seams::{simulate, Fail};
use std::collections::{BTreeMap, BTreeSet};

/// One polygonal face: outer loop (counter-clockwise seen from outside) and holes, plus a frame.
#[derive(Clone, Debug)]
pub struct Face {
    pub loops: Vec<Vec<usize>>,
    pub tris: Vec<[usize; 3]>,
}
#[derive(Clone, Debug, Default)]
pub struct Solid {
    pub shell: usize,
    pub pts: Vec<P3>,
    pub faces: Vec<Face>,
    /// index of the face left out of the input, if any
    pub dropped: Vec<usize>,
}

fn quad(a: usize, b: usize, c: usize, d: usize, flip: bool) -> Face {
    let tris = if flip { vec![[a, b, d], [b, c, d]] } else { vec![[a, b, c], [a, c, d]] };
    Face { loops: vec![vec![a, b, c, d]], tris }
}
fn tri(a: usize, b: usize, c: usize) -> Face {
    Face { loops: vec![vec![a, b, c]], tris: vec![[a, b, c]] }
}

/// prism over a simple ccw polygon (xy), z in [0, h]; `cap` triangulates it
fn prism(poly: &[[i64; 2]], cap: &[[usize; 3]], h: i64, bits: u64) -> Solid {
    let n = poly.len();
    let mut s = Solid::default();
    for p in poly {
        s.pts.push([p[0], p[1], 0]);
    }
    for p in poly {
        s.pts.push([p[0], p[1], h]);
    }
    s.faces.push(Face {
        loops: vec![(0..n).rev().collect()],
        tris: cap.iter().map(|t| [t[0], t[2], t[1]]).collect(),
    });
    s.faces.push(Face {
        loops: vec![(n..2 * n).collect()],
        tris: cap.iter().map(|t| [t[0] + n, t[1] + n, t[2] + n]).collect(),
    });
    for i in 0..n {
        let j = (i + 1) % n;
        s.faces.push(quad(i, j, j + n, i + n, bits >> i & 1 == 1));
    }
    s
}

const DIRS: [[i64; 2]; 16] = [
    [1, 0],
    [2, 1],
    [1, 1],
    [1, 2],
    [0, 1],
    [-1, 2],
    [-1, 1],
    [-2, 1],
    [-1, 0],
    [-2, -1],
    [-1, -1],
    [-1, -2],
    [0, -1],
    [1, -2],
    [1, -1],
    [2, -1],
];

/// row: [shape, shell, ox, oy, oz, a, b, c, bits, xf, drop, ...]
pub fn build(row: &[i64]) -> Option<Solid> {
    let g = |i: usize| row.get(i).copied().unwrap_or(0);
    let (a, b, c) = (g(5).clamp(1, 4000), g(6).clamp(1, 4000), g(7).clamp(1, 4000));
    let bits = g(8) as u64;
    let mut s = match g(0) {
        0 => prism(&[[0, 0], [a, 0], [a, b], [0, b]], &[[0, 1, 2], [0, 2, 3]], c, bits),
        1 => {
            let mut s = Solid { pts: vec![[0, 0, 0], [a, 0, 0], [0, b, 0], [0, 0, c]], ..Default::default() };
            s.faces = vec![tri(0, 2, 1), tri(0, 1, 3), tri(1, 2, 3), tri(2, 0, 3)];
            s
        }
        2 => {
            let mut s = Solid {
                pts: vec![[a, 0, 0], [-a, 0, 0], [0, b, 0], [0, -b, 0], [0, 0, c], [0, 0, -c]],
                ..Default::default()
            };
            s.faces = vec![
                tri(0, 2, 4),
                tri(2, 1, 4),
                tri(1, 3, 4),
                tri(3, 0, 4),
                tri(2, 0, 5),
                tri(1, 2, 5),
                tri(3, 1, 5),
                tri(0, 3, 5),
            ];
            s
        }
        3 => {
            // L
            let (w, h) = (a + b, a + 1);
            prism(
                &[[0, 0], [w, 0], [w, 1], [1, 1], [1, h], [0, h]],
                &[[0, 1, 2], [0, 2, 3], [0, 3, 5], [3, 4, 5]],
                c,
                bits,
            )
        }
        4 => {
            // square frame: a box with a square tunnel
            let (w, t) = (2 * a + b, a);
            let o = [[0, 0], [w, 0], [w, w], [0, w]];
            let i = [[t, t], [w - t, t], [w - t, w - t], [t, w - t]];
            let mut s = Solid::default();
            for z in [0, c] {
                for p in o.iter().chain(i.iter()) {
                    s.pts.push([p[0], p[1], z]);
                }
            }
            let ring = |d: usize, up: bool| {
                let mut tris = vec![];
                for k in 0..4 {
                    let l = (k + 1) % 4;
                    let (p, q, r, u) = (d + k, d + l, d + 4 + l, d + 4 + k);
                    tris.push([p, q, r]);
                    tris.push([p, r, u]);
                }
                if !up {
                    for t in &mut tris {
                        t.swap(1, 2);
                    }
                }
                let mut outer: Vec<usize> = (d..d + 4).collect();
                let mut inner: Vec<usize> = (d + 4..d + 8).rev().collect();
                if !up {
                    outer.reverse();
                    inner.reverse();
                }
                Face { loops: vec![outer, inner], tris }
            };
            s.faces.push(ring(0, false));
            s.faces.push(ring(8, true));
            for k in 0..4 {
                let l = (k + 1) % 4;
                s.faces.push(quad(k, l, l + 8, k + 8, bits >> k & 1 == 1));
                s.faces.push(quad(4 + l, 4 + k, 12 + k, 12 + l, bits >> (k + 4) & 1 == 1));
            }
            s
        }
        5 => {
            // convex hull of a few points; skipped if not simplicial
            let mut r = Rng::new(bits);
            let n = 5 + r.us(4);
            let mut pts = vec![];
            for _ in 0..n {
                pts.push([r.range(0, a), r.range(0, b), r.range(0, c)]);
            }
            return hull(&pts).map(|s| finish(s, row));
        }
        6 | 7 => {
            // a sector standing on the plane z = 0, its apex at the origin: prism or tetrahedron
            let (d, e) = (DIRS[bits as usize & 15], DIRS[bits as usize >> 4 & 15]);
            if d[0] * e[1] - d[1] * e[0] <= 0 {
                return None;
            }
            let poly = [[0, 0], [d[0] * a, d[1] * a], [e[0] * b, e[1] * b]];
            if g(0) == 6 {
                prism(&poly, &[[0, 1, 2]], c, bits >> 8)
            } else {
                let mut s = Solid { pts: poly.iter().map(|p| [p[0], p[1], 0]).collect(), ..Default::default() };
                s.pts.push([d[0], d[1], c]);
                s.faces = vec![tri(0, 2, 1), tri(0, 1, 3), tri(1, 2, 3), tri(2, 0, 3)];
                s
            }
        }
        8 => {
            // a slab under the plane z = 0
            let mut s = prism(&[[-a, -b], [a, -b], [a, b], [-a, b]], &[[0, 1, 2], [0, 2, 3]], c, bits);
            for p in &mut s.pts {
                p[2] -= c;
            }
            s
        }
        _ => return None,
    };
    // integer linear map with positive determinant
    let xf = g(9);
    if xf != 0 {
        let mut r = Rng::new(xf as u64);
        for _ in 0..r.us(3) + 1 {
            match r.below(4) {
                0 => {
                    for p in &mut s.pts {
                        *p = [p[1], p[2], p[0]];
                    }
                }
                1 => {
                    for p in &mut s.pts {
                        *p = [-p[1], p[0], p[2]];
                    }
                }
                2 => {
                    let k = r.range(-2, 2);
                    for p in &mut s.pts {
                        p[0] += k * p[2];
                    }
                }
                _ => {
                    let k = r.range(-2, 2);
                    for p in &mut s.pts {
                        p[1] += k * p[0];
                    }
                }
            }
        }
    }
    Some(finish(s, row))
}

fn finish(mut s: Solid, row: &[i64]) -> Solid {
    let g = |i: usize| row.get(i).copied().unwrap_or(0);
    for p in &mut s.pts {
        p[0] += g(2);
        p[1] += g(3);
        p[2] += g(4);
    }
    s.shell = g(1).clamp(0, 4095) as usize;
    if g(10) > 0 {
        let d = (g(10) - 1) as usize % s.faces.len();
        s.dropped.push(d);
    }
    s
}

fn hull(pts: &[P3]) -> Option<Solid> {
    let n = pts.len();
    let mut f = vec![];
    let mut used = BTreeSet::new();
    for i in 0..n {
        for j in 0..n {
            for k in 0..n {
                if i < j && i < k && j != k {
                    let mut ok = true;
                    for (l, p) in pts.iter().enumerate() {
                        if l == i || l == j || l == k {
                            continue;
                        }
                        let o = orient3(&pts[i], &pts[j], &pts[k], p);
                        if o == 0 {
                            return None;
                        }
                        ok &= vol6(&pts[i], &pts[j], &pts[k], p) < 0;
                    }
                    if ok {
                        f.push([i, j, k]);
                        used.extend([i, j, k]);
                    }
                }
            }
        }
    }
    if f.len() < 4 {
        return None;
    }
    let ids: BTreeMap<usize, usize> = used.iter().enumerate().map(|(a, b)| (*b, a)).collect();
    Some(Solid {
        pts: used.iter().map(|&i| pts[i]).collect(),
        faces: f.iter().map(|t| tri(ids[&t[0]], ids[&t[1]], ids[&t[2]])).collect(),
        ..Default::default()
    })
}

/// (b-a)x(c-a).(d-a): positive when d is on the side the ccw normal of abc points to
fn vol6(a: &P3, b: &P3, c: &P3, d: &P3) -> i128 {
    let u = [(b[0] - a[0]) as i128, (b[1] - a[1]) as i128, (b[2] - a[2]) as i128];
    let v = [(c[0] - a[0]) as i128, (c[1] - a[1]) as i128, (c[2] - a[2]) as i128];
    let w = [(d[0] - a[0]) as i128, (d[1] - a[1]) as i128, (d[2] - a[2]) as i128];
    (u[1] * v[2] - u[2] * v[1]) * w[0] + (u[2] * v[0] - u[0] * v[2]) * w[1] + (u[0] * v[1] - u[1] * v[0]) * w[2]
}

/// Everything the pipeline is given, and the exact solids it stands for.
#[derive(Default)]
pub struct Scene {
    pub pts: Vec<P3>,
    /// input triangles and their shells
    pub tris: Vec<[usize; 3]>,
    pub shells: Vec<usize>,
    /// polygon form: loops as edge lists, shell, frame
    pub polys: Vec<(Vec<usize>, usize, [usize; 3])>,
    /// closed boundary of each shell (what the input would be without holes)
    pub solids: Vec<Vec<[usize; 3]>>,
    pub raw: bool,
}

pub fn scene(c: &Case) -> Option<Scene> {
    let mut s = Scene::default();
    let mut ids: BTreeMap<P3, usize> = BTreeMap::new();
    let mut solids: BTreeMap<usize, Vec<[usize; 3]>> = BTreeMap::new();
    for row in &c.items {
        if row.first() == Some(&9) {
            // one raw triangle
            if row.len() < 11 {
                continue;
            }
            let mut t = [0; 3];
            for k in 0..3 {
                let p = [row[2 + 3 * k], row[3 + 3 * k], row[4 + 3 * k]];
                let n = s.pts.len();
                t[k] = *ids.entry(p).or_insert(n);
                if t[k] == n {
                    s.pts.push(p);
                }
            }
            s.raw = true;
            s.tris.push(t);
            s.shells.push(row[1].clamp(0, 4095) as usize);
            continue;
        }
        let Some(b) = build(row) else { continue };
        let map: Vec<usize> = b
            .pts
            .iter()
            .map(|p| {
                let n = s.pts.len();
                let e = *ids.entry(*p).or_insert(n);
                if e == n {
                    s.pts.push(*p);
                }
                e
            })
            .collect();
        for (i, f) in b.faces.iter().enumerate() {
            for t in &f.tris {
                solids.entry(b.shell).or_default().push([map[t[0]], map[t[1]], map[t[2]]]);
            }
            if b.dropped.contains(&i) {
                continue;
            }
            for t in &f.tris {
                s.tris.push([map[t[0]], map[t[1]], map[t[2]]]);
                s.shells.push(b.shell);
            }
            let mut edges = vec![];
            for l in &f.loops {
                for k in 0..l.len() {
                    edges.push(map[l[k]]);
                    edges.push(map[l[(k + 1) % l.len()]]);
                }
            }
            s.polys.push((edges, b.shell, [map[f.tris[0][0]], map[f.tris[0][1]], map[f.tris[0][2]]]));
        }
    }
    // shells are numbered without gaps
    let used: BTreeSet<usize> = s.shells.iter().cloned().collect();
    let re: BTreeMap<usize, usize> = used.iter().enumerate().map(|(a, b)| (*b, a)).collect();
    for x in &mut s.shells {
        *x = re[x];
    }
    for x in &mut s.polys {
        x.1 = re[&x.1];
    }
    s.solids = solids.into_iter().map(|x| x.1).collect();
    for _ in 0..c.p("sub").clamp(0, 3) {
        subdivide(&mut s);
    }
    if s.tris.is_empty() || s.pts.len() < 4 {
        return None;
    }
    Some(s)
}

type V3 = [f64; 3];
/// every input edge gets a point in the middle: four triangles for one, polygons with points inside
/// their sides
fn subdivide(s: &mut Scene) {
    for p in &mut s.pts {
        *p = p.map(|x| 2 * x);
    }
    let mut ids: BTreeMap<P3, usize> = s.pts.iter().enumerate().map(|(i, p)| (*p, i)).collect();
    let pts = &mut s.pts;
    let mut mid = |a: usize, b: usize| {
        let p: P3 = std::array::from_fn(|k| (pts[a][k] + pts[b][k]) / 2);
        *ids.entry(p).or_insert_with(|| {
            pts.push(p);
            pts.len() - 1
        })
    };
    let mut tris = vec![];
    let mut shells = vec![];
    for (t, &sh) in s.tris.iter().zip(&s.shells) {
        let m = [mid(t[0], t[1]), mid(t[1], t[2]), mid(t[2], t[0])];
        tris.extend([[t[0], m[0], m[2]], [m[0], t[1], m[1]], [m[2], m[1], t[2]], m]);
        shells.extend([sh; 4]);
    }
    for q in &mut s.polys {
        q.0 = q.0.chunks(2).flat_map(|e| [e[0], mid(e[0], e[1]), mid(e[0], e[1]), e[1]]).collect();
    }
    s.tris = tris;
    s.shells = shells;
}

fn sub(a: &V3, b: &V3) -> V3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
fn dot(a: &V3, b: &V3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn cross(a: &V3, b: &V3) -> V3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn len(a: &V3) -> f64 {
    dot(a, a).sqrt()
}

/// winding number of a closed triangle set around q (van Oosterom–Strackee)
pub fn winding(pts: &[V3], tris: &[[usize; 3]], q: &V3) -> f64 {
    let mut w = 0.0;
    for t in tris {
        let (a, b, c) = (sub(&pts[t[0]], q), sub(&pts[t[1]], q), sub(&pts[t[2]], q));
        let (la, lb, lc) = (len(&a), len(&b), len(&c));
        let num = dot(&a, &cross(&b, &c));
        let den = la * lb * lc + dot(&a, &b) * lc + dot(&b, &c) * la + dot(&c, &a) * lb;
        w += 2.0 * num.atan2(den);
    }
    w / (4.0 * std::f64::consts::PI)
}

pub struct Out {
    pub pts: Vec<f64>,
    pub tris: Vec<usize>,
}

pub fn run_pipeline(s: &Scene, c: &Case, f: &[i64]) -> (Result<Out, Fail>, crate::seams::Telemetry) {
    let e = c.p("exp").clamp(-4, 20);
    let fl: Vec<f64> = s.pts.iter().flat_map(|p| p.iter().map(|&x| scale(x, e)).collect::<Vec<_>>()).collect();
    let t = s.tris.len() as u64;
    // soups cross everywhere: the number of cells grows with the cube of the number of triangles
    let budget = 8_000_000 + 200_000 * t + if s.raw { 1_000 * t * t * t } else { 0 };
    let cfg = sched_cfg(f, budget);
    let tris: Vec<usize> = s.tris.iter().flatten().cloned().collect();
    // how the corners are listed: 0 = shared; 1 = every face lists its own copies; 2 = copies that
    // differ by less than the tolerance (they round to the same grid point)
    let weld = c.p("weld").clamp(0, 2);
    let mut jit = Rng::new(c.digest() ^ 0x717);
    let orig = fl;
    let mut fl: Vec<f64> = orig.clone();
    let mut copy = |fl: &mut Vec<f64>, i: usize, seen: &mut BTreeMap<usize, usize>| -> usize {
        if weld == 0 {
            return i;
        }
        *seen.entry(i).or_insert_with(|| {
            if jit.chance(1, 4) {
                return i;
            }
            for k in 0..3 {
                let d = if weld == 2 && jit.chance(1, 2) { jit.range(-3, 3) as f64 * 2f64.powi(-24) } else { 0.0 };
                fl.push(orig[3 * i + k] + d);
            }
            fl.len() / 3 - 1
        })
    };
    // faces within the tolerance: specks of 3 to 5 corners around one input point, and slivers with
    // one corner at an input point and the others around another one
    let speck = |fl: &mut Vec<f64>, jit: &mut Rng, n: usize| -> Vec<usize> {
        let p = |jit: &mut Rng| -> V3 {
            let i = jit.below(orig.len() as u64 / 3) as usize;
            std::array::from_fn(|k| orig[3 * i + k])
        };
        let (a, b) = (p(jit), p(jit));
        let sliver = jit.chance(1, 3);
        (0..n)
            .map(|k| {
                let q = if sliver && k == 0 { b } else { a };
                for x in q {
                    fl.push(x + jit.range(-3, 3) as f64 * 2f64.powi(-24));
                }
                fl.len() / 3 - 1
            })
            .collect()
    };
    let specks = c.p("specks").clamp(0, 20);
    let top = s.shells.iter().max().map_or(0, |&x| x);
    if c.p("poly") == 1 && !s.raw {
        let mut edges: Vec<Vec<usize>> = s
            .polys
            .iter()
            .map(|p| {
                let mut seen = BTreeMap::new();
                p.0.iter().map(|&i| copy(&mut fl, i, &mut seen)).collect()
            })
            .collect();
        let mut shells: Vec<usize> = s.polys.iter().map(|p| p.1).collect();
        let mut axes = vec![];
        for p in &s.polys {
            let pt = |i: usize| [fl[3 * i], fl[3 * i + 1], fl[3 * i + 2]];
            let (o, a, b) = (pt(p.2[0]), pt(p.2[1]), pt(p.2[2]));
            let u = sub(&a, &o);
            let n = cross(&u, &sub(&b, &o));
            let v = cross(&n, &u);
            let un = |x: &V3| {
                let l = len(x);
                [x[0] / l, x[1] / l, x[2] / l]
            };
            axes.extend(o);
            axes.extend(un(&u));
            axes.extend(un(&v));
        }
        let eps = if weld == 0 && c.p("eps0") == 1 { 0.0 } else { 1e-6 };
        for _ in 0..if eps > 0.0 { specks } else { 0 } {
            let n = jit.range(3, 5) as usize;
            let l = speck(&mut fl, &mut jit, n);
            let at = jit.below(edges.len() as u64 + 1) as usize;
            edges.insert(at, (0..n).flat_map(|k| [l[k], l[(k + 1) % n]]).collect());
            shells.insert(at, jit.range(0, top as i64 + 1) as usize);
            let f: Vec<f64> = [0, 1, 2].iter().map(|&k| fl[3 * l[0] + k]).chain([1.0, 0.0, 0.0, 0.0, 0.0, 1.0]).collect();
            for (k, x) in f.into_iter().enumerate() {
                axes.insert(9 * at + k, x);
            }
        }
        let (r, t) = simulate(&cfg, || gpf::polygonlization::make_polyhedral_mesh(&fl, &axes, &shells, &edges, eps));
        (r.map(|(pts, tris)| Out { pts, tris }), t)
    } else {
        let mut tris: Vec<usize> = tris
            .chunks(3)
            .flat_map(|t| {
                let mut seen = BTreeMap::new();
                [copy(&mut fl, t[0], &mut seen), copy(&mut fl, t[1], &mut seen), copy(&mut fl, t[2], &mut seen)]
            })
            .collect();
        let mut shells = s.shells.clone();
        for _ in 0..specks {
            let l = speck(&mut fl, &mut jit, 3);
            let at = jit.below(shells.len() as u64 + 1) as usize;
            for (k, x) in l.into_iter().enumerate() {
                tris.insert(3 * at + k, x);
            }
            shells.insert(at, jit.range(0, top as i64 + 1) as usize);
        }
        let (r, t) = simulate(&cfg, || gpf::polygonlization::make_mesh_for_triangles(&fl, &tris, &shells));
        (r.map(|(pts, tris)| Out { pts, tris }), t)
    }
}

/// closed, consistently oriented, well-formed
pub fn watertight(o: &Out) -> Option<(&'static str, String)> {
    if o.pts.len() % 3 != 0 || o.tris.len() % 3 != 0 {
        return Some(("malformed", format!("{} coordinates, {} indices", o.pts.len(), o.tris.len())));
    }
    if o.pts.iter().any(|x| !x.is_finite()) {
        return Some(("malformed", "non-finite output point".into()));
    }
    let n = o.pts.len() / 3;
    let mut edges: BTreeMap<(usize, usize), i64> = BTreeMap::new();
    for t in o.tris.chunks(3) {
        if t.iter().any(|&v| v >= n) {
            return Some(("malformed", format!("triangle {t:?} of {n} points")));
        }
        if t[0] == t[1] || t[1] == t[2] || t[2] == t[0] {
            return Some(("malformed", format!("degenerate triangle {t:?}")));
        }
        for k in 0..3 {
            *edges.entry((t[k], t[(k + 1) % 3])).or_insert(0) += 1;
        }
    }
    for (&(a, b), &n) in &edges {
        let m = edges.get(&(b, a)).copied().unwrap_or(0);
        if n != m {
            let p = |i: usize| [o.pts[3 * i], o.pts[3 * i + 1], o.pts[3 * i + 2]];
            return Some((
                "not-closed",
                format!("edge {:?}-{:?} is used {n} times forward and {m} times backward", p(a), p(b)),
            ));
        }
    }
    None
}

/// does the output bound exactly the union of the closed shells?
pub fn same_solid(s: &Scene, c: &Case, o: &Out, rng: &mut Rng) -> Option<(&'static str, String)> {
    let e = c.p("exp").clamp(-4, 20);
    let inp: Vec<V3> = s.pts.iter().map(|p| [scale(p[0], e), scale(p[1], e), scale(p[2], e)]).collect();
    let out: Vec<V3> = o.pts.chunks(3).map(|p| [p[0], p[1], p[2]]).collect();
    let ot: Vec<[usize; 3]> = o.tris.chunks(3).map(|t| [t[0], t[1], t[2]]).collect();
    let mut lo = [f64::INFINITY; 3];
    let mut hi = [f64::NEG_INFINITY; 3];
    for p in &inp {
        for k in 0..3 {
            lo[k] = lo[k].min(p[k]);
            hi[k] = hi[k].max(p[k]);
        }
    }
    let size = len(&sub(&hi, &lo));
    for p in &out {
        if (0..3).any(|k| p[k] < lo[k] - 1e-9 * size || p[k] > hi[k] + 1e-9 * size) {
            return Some(("escaped", format!("output point {p:?} is outside the input's bounding box")));
        }
    }
    let inside = |q: &V3| s.solids.iter().any(|t| winding(&inp, t, q) > 0.5);
    let eps = 1e-7 * size;
    // every output triangle separates inside (behind) from outside (in front)
    for t in &ot {
        let (a, b, d) = (out[t[0]], out[t[1]], out[t[2]]);
        let n = cross(&sub(&b, &a), &sub(&d, &a));
        let l = len(&n);
        let per = len(&sub(&b, &a)) + len(&sub(&d, &b)) + len(&sub(&a, &d));
        if l / per < 1e-4 * size {
            continue; // too thin to sample
        }
        let mut bad = 0;
        let mut what = String::new();
        let tries = 4;
        for k in 0..tries {
            let (u, v, w) = match k {
                0 => (1.0 / 3.0, 1.0 / 3.0, 1.0 / 3.0),
                1 => (0.5, 0.3, 0.2),
                2 => (0.21, 0.47, 0.32),
                _ => (0.26, 0.19, 0.55),
            };
            let m = [
                a[0] * u + b[0] * v + d[0] * w,
                a[1] * u + b[1] * v + d[1] * w,
                a[2] * u + b[2] * v + d[2] * w,
            ];
            let off = |s: f64| [m[0] + s * n[0] / l, m[1] + s * n[1] / l, m[2] + s * n[2] / l];
            let (f, bk) = (off(eps), off(-eps));
            if inside(&f) || !inside(&bk) {
                bad += 1;
                what = format!(
                    "output triangle {a:?} {b:?} {d:?}: front {} behind {}",
                    if inside(&f) { "inside" } else { "outside" },
                    if inside(&bk) { "inside" } else { "outside" }
                );
            } else {
                break;
            }
        }
        if bad == tries {
            return Some(("not-boundary", what));
        }
    }
    // the output's own winding number agrees with the union next to every input triangle and at
    // random places
    let mut probe = |q: &V3, what: &str| -> Option<(&'static str, String)> {
        let w = winding(&out, &ot, q);
        if (w - w.round()).abs() > 1e-3 {
            return None; // on the surface to rounding
        }
        let want = if inside(q) { 1.0 } else { 0.0 };
        if w.round() != want {
            Some(("wrong-solid", format!("{what} {q:?}: output winding {w:.3}, union says {want}")))
        } else {
            None
        }
    };
    for t in s.solids.iter().flatten() {
        let (a, b, d) = (inp[t[0]], inp[t[1]], inp[t[2]]);
        let n = cross(&sub(&b, &a), &sub(&d, &a));
        let l = len(&n);
        let (mut u, mut v) = (rng.f(), rng.f());
        if u + v > 1.0 {
            (u, v) = (1.0 - u, 1.0 - v);
        }
        let w = 1.0 - u - v;
        let m = [a[0] * u + b[0] * v + d[0] * w, a[1] * u + b[1] * v + d[1] * w, a[2] * u + b[2] * v + d[2] * w];
        for sg in [1e-3, -1e-3] {
            let q = [
                m[0] + sg * size * n[0] / l,
                m[1] + sg * size * n[1] / l,
                m[2] + sg * size * n[2] / l,
            ];
            if let Some(x) = probe(&q, "next to an input face at") {
                return Some(x);
            }
        }
    }
    for _ in 0..24 {
        let q = [
            lo[0] + (hi[0] - lo[0]) * rng.f(),
            lo[1] + (hi[1] - lo[1]) * rng.f(),
            lo[2] + (hi[2] - lo[2]) * rng.f(),
        ];
        if let Some(x) = probe(&q, "at") {
            return Some(x);
        }
    }
    None
}

fn gen_row(rng: &mut Rng, shell: i64, r: i64, style: u64, shapes: &[i64]) -> Vec<i64> {
    let shape = *rng.pick(shapes);
    let m = match style {
        0 => 3,
        1 => r / 2 + 1,
        _ => r,
    };
    let xf = if style >= 2 && rng.chance(2, 3) { rng.range(1, 1 << 30) } else { 0 };
    let mut row = vec![
        shape,
        shell,
        rng.range(-r, r),
        rng.range(-r, r),
        rng.range(-r, r),
        rng.range(1, m),
        rng.range(1, m),
        rng.range(1, m),
        rng.range(0, 1 << 30),
        xf,
        0,
    ];
    if shape == 5 {
        for k in 5..8 {
            row[k] = row[k].max(4) * 2;
        }
    }
    row
}

/// Sectors standing around one point of a slab's top: what the slab shows there is several pieces
/// that meet at that point only.
fn gen_pinwheel(rng: &mut Rng, c: &mut Case) {
    c.kind = "pinwheel".to_string();
    let r = *rng.pick(&[0, 3, 50]);
    let (ox, oy, oz) = (rng.range(-r, r), rng.range(-r, r), rng.range(-r, r));
    let xf = if rng.chance(1, 2) { rng.range(1, 1 << 30) } else { 0 };
    let m = rng.range(1, 4);
    let row = |shape: i64, shell: i64, a: i64, b: i64, h: i64, bits: i64| vec![shape, shell, ox, oy, oz, a, b, h, bits, xf, 0];
    let (a, b) = if rng.chance(1, 3) { (2 * m, 2 * m) } else { (rng.range(1, 2 * m + 1), rng.range(1, 2 * m + 1)) };
    let (h, bits) = (rng.range(1, 3), rng.range(0, 63));
    c.items.push(row(8, 0, a, b, h, bits));
    let start = rng.range(0, 15);
    let (mut at, mut shell) = (0, 1);
    let same = rng.chance(1, 2);
    let h = rng.range(1, 3);
    while shell < 6 {
        let w = rng.range(1, 4);
        if at + w > 16 {
            break;
        }
        let bits = (start + at) % 16 | ((start + at + w) % 16) << 4 | rng.range(0, 7) << 8;
        let (a, b) = (rng.range(1, m), rng.range(1, m));
        let shape = if rng.chance(1, 3) { 7 } else { 6 };
        c.items.push(row(shape, shell, a, b, if same { h } else { rng.range(1, 3) }, bits));
        shell += 1;
        at += w + if rng.chance(1, 4) { 0 } else { rng.range(1, 3) };
    }
    if rng.chance(1, 6) {
        c.items.remove(0);
    }
    c.set("exp", if rng.chance(1, 4) { rng.range(-4, 8) } else { 0 });
}

/// Many small solids, now and then more than 256 of them.
fn gen_many(rng: &mut Rng, c: &mut Case) {
    c.kind = "many".to_string();
    let (n, r) = match rng.below(20) {
        0 => (rng.range(258, 280), 40),
        1..=3 => (rng.range(50, 110), 12),
        _ => (rng.range(7, 40), *rng.pick(&[4, 8, 20])),
    };
    let shapes: &[i64] = if n > 200 || rng.chance(1, 3) { &[0] } else { &[0, 1, 2, 3] };
    let m = if n > 200 { 12 } else { 4 };
    for i in 0..n {
        let mut row = gen_row(rng, i, r, 1, shapes);
        for k in 5..8 {
            row[k] = rng.range(1, m);
        }
        c.items.push(row);
    }
}

fn gen_solids(rng: &mut Rng, thorough: bool, c: &mut Case) {
    if rng.chance(1, 10) {
        return gen_pinwheel(rng, c);
    }
    if rng.chance(1, if thorough { 60 } else { 100 }) {
        return gen_many(rng, c);
    }
    let style = rng.below(3);
    let n = match rng.below(10) {
        0 => 1,
        1..=5 => 2,
        6..=8 => 3,
        _ => {
            if thorough {
                rng.range(4, 6)
            } else {
                4
            }
        }
    };
    let r = match style {
        0 => rng.range(1, 3),
        1 => rng.range(2, 8),
        _ => *rng.pick(&[5, 20, 200]),
    };
    let shapes: &[i64] = match rng.below(4) {
        0 => &[0],
        1 => &[0, 1, 2],
        _ => &[0, 1, 2, 3, 4, 5],
    };
    c.kind = format!("style{style}");
    for i in 0..n {
        c.items.push(gen_row(rng, i, r, style, shapes));
    }
    c.set("exp", if rng.chance(1, 3) { rng.range(-4, 8) } else { 0 });
}

fn gen_corners(rng: &mut Rng, c: &mut Case) {
    c.set("weld", if rng.chance(1, 3) { rng.range(1, 2) } else { 0 });
    c.set("eps0", rng.chance(1, 4) as i64);
    c.set("specks", if rng.chance(1, 10) { rng.range(1, 4) } else { 0 });
    if c.kind == "many" {
        return;
    }
    let sub = if rng.chance(1, 12) { 1 } else { 0 };
    c.set("sub", if rng.chance(1, 200) { 2 } else { sub });
}

fn execute(id: &str, c: &Case) -> Verdict {
    let mut v = Verdict::new();
    let Some(s) = scene(c) else {
        v.stat("out_of_domain", 1);
        return v;
    };
    // only the points that survive as triangle corners matter, but all are tetrahedralised
    let mut pts: Vec<P3> = s.pts.clone();
    pts.sort();
    pts.dedup();
    if !in_domain(&pts) {
        v.stat("out_of_domain", 1);
        return v;
    }
    let mut shells: Vec<i64> = c.items.iter().map(|r| r.get(1).copied().unwrap_or(0)).collect();
    shells.sort();
    shells.dedup();
    if id != "C09" && (s.raw || shells.len() != c.items.len() || (id == "C10" && c.items.iter().any(|r| r.get(10).is_some_and(|&d| d > 0)))) {
        v.stat("out_of_domain", 1);
        return v;
    }
    if id == "C11" && !caps_are_cheap(c, &s) {
        v.stat("out_of_domain", 1);
        return v;
    }
    for f in &c.faults {
        let (r, tel) = run_pipeline(&s, c, f);
        v.telemetry(&tel);
        v.stat("schedules", 1);
        match r {
            Ok(o) => {
                for &t in &o.tris {
                    v.log(t as u64);
                }
                for &t in &o.pts {
                    v.log(t.to_bits());
                }
                v.mark(v.digest);
                v.stat("out_triangles", o.tris.len() as u64 / 3);
                if let Some((cl, d)) = watertight(&o) {
                    v.fail(cl, d);
                    return v;
                }
                if id != "C09" {
                    let mut rng = Rng::new(c.digest() ^ 0x50);
                    if let Some((cl, d)) = same_solid(&s, c, &o, &mut rng) {
                        v.fail(cl, d);
                        return v;
                    }
                }
                if !o.tris.is_empty() {
                    v.nontrivial = true;
                }
            }
            Err(Fail::Budget) => v.fail("no-progress", "step budget exceeded"),
            Err(Fail::Panic(m)) => v.fail("panic", m),
            Err(Fail::Oom) => v.fail("oom", "unexpected allocation failure"),
        }
        if v.bad() {
            return v;
        }
    }
    v
}

/// C11's domain: a shell with a hole is a box or an L-prism (upright sides at least as tall as it
/// has arms wide) without one end, the plane of the hole has every input point on one side (so that
/// the cap is part of the hull of the input and the cell complex always contains it), and the hole
/// is clearly cheaper to cap than the rest of the shell is to give up.
fn caps_are_cheap(c: &Case, s: &Scene) -> bool {
    let mut any = false;
    for row in &c.items {
        let Some(b) = build(row) else { return false };
        let Some(&d) = b.dropped.first() else { continue };
        any = true;
        let shape = row[0];
        if !(shape == 0 || shape == 3 && d < 2) || row.get(9).is_some_and(|&x| x != 0) {
            return false;
        }
        let mut miss = 0.0;
        let mut rest = 0.0;
        for (i, f) in b.faces.iter().enumerate() {
            for t in &f.tris {
                let p = |i: usize| [b.pts[i][0] as f64, b.pts[i][1] as f64, b.pts[i][2] as f64];
                let ar = len(&cross(&sub(&p(t[1]), &p(t[0])), &sub(&p(t[2]), &p(t[0]))));
                if i == d {
                    miss += ar
                } else {
                    rest += ar
                }
            }
        }
        if miss > 0.28 * rest {
            return false;
        }
        let t = &b.faces[d].tris[0];
        let q = t.map(|i| b.pts[i].map(|x| x << c.p("sub").clamp(0, 3)));
        if s.pts.iter().any(|p| vol6(&q[0], &q[1], &q[2], p) > 0) {
            return false;
        }
    }
    any
}

const REAL: &[&str] = &[
    "gpf::polygonlization (remove_duplicates, Constraints, BSPComplex, complex_partition)",
    "gpf::triangle (tetrahedralize, triangulate, triangulate_polygon_soup)",
    "gpf::predicates (explicit and implicit, static/interval/expansion filters)",
    "gpf::graphcut::PushRelabelFifo, gpf::disjoint_set, gpf::mesh::SurfaceMesh",
    "rand::thread_rng, std/hashbrown hash maps, bumpalo (real code over simulated entropy and memory)",
];
const STUB: &[&str] = &["OS entropy (getrandom) and the global allocator are the simulator's"];

pub struct Closed;
pub struct Union;
pub struct Capped;

impl Prop for Closed {
    fn id(&self) -> &'static str {
        "C09"
    }
    fn watchdog(&self) -> u64 {
        60
    }
    fn plan(&self, thorough: bool) -> (u64, u64) {
        if thorough {
            (4000, 20)
        } else {
            (600, 20)
        }
    }
    fn gen(&self, rng: &mut Rng, thorough: bool) -> Case {
        let mut c = Case::default();
        match rng.below(4) {
            0 => {
                gen_solids(rng, thorough, &mut c);
                // defects: drop faces, put several solids in one shell
                c.kind = "holed".into();
                for r in &mut c.items {
                    if rng.chance(1, 2) {
                        r[10] = rng.range(1, 8);
                    }
                    if rng.chance(1, 3) {
                        r[1] = 0;
                    }
                }
                if rng.chance(1, 3) {
                    c.set("poly", 1);
                }
            }
            1 | 2 => {
                c.kind = "soup".into();
                let r = *rng.pick(&[2, 3, 5, 50]);
                let n = if rng.chance(1, 80) { rng.range(30, 60) } else { rng.range(2, if thorough { 24 } else { 14 }) };
                let sh = rng.range(0, 2);
                // how many of the triangles are degenerate on purpose: none, half, all
                let flat = if rng.chance(1, 25) { rng.range(1, 2) } else { 0 };
                for _ in 0..n {
                    let mut row = vec![9, rng.range(0, sh)];
                    for _ in 0..9 {
                        row.push(rng.range(0, r));
                    }
                    if flat > 0 && (flat == 2 || rng.chance(1, 2)) {
                        let (a, b) = (rng.below(3) as usize, rng.below(3) as usize);
                        for k in 0..3 {
                            row[2 + 3 * a + k] = if a == b { 2 * row[2 + 3 * ((a + 1) % 3) + k] - row[2 + 3 * ((a + 2) % 3) + k] } else { row[2 + 3 * b + k] };
                        }
                    }
                    c.items.push(row);
                }
                c.set("exp", if rng.chance(1, 3) { rng.range(-4, 8) } else { 0 });
            }
            _ => {
                // a solid plus stray triangles
                c.kind = "mixed".into();
                let r = *rng.pick(&[2, 4, 20]);
                for i in 0..rng.range(1, 2) {
                    let mut row = gen_row(rng, i, r, rng.clone().below(3), &[0, 1, 2, 3, 5]);
                    if rng.chance(1, 2) {
                        row[10] = rng.range(1, 8);
                    }
                    c.items.push(row);
                }
                for _ in 0..rng.range(1, 6) {
                    let mut row = vec![9, rng.range(0, 1)];
                    for _ in 0..9 {
                        row.push(rng.range(-r, r));
                    }
                    c.items.push(row);
                }
            }
        }
        for _ in 0..2 {
            c.faults.push(gen_sched(rng));
        }
        gen_corners(rng, &mut c);
        c
    }
    fn run(&self, c: &Case) -> Verdict {
        execute("C09", c)
    }
    fn rule(&self) -> &'static str {
        "distinct (triangle soup or defective solids, shell labelling, schedules) whose repair kept at least one triangle"
    }
    fn shape_measure(&self) -> &'static str {
        "executions by hash of the emitted points and triangles over all schedules of the run"
    }
    fn real(&self) -> &'static [&'static str] {
        REAL
    }
    fn stubbed(&self) -> &'static [&'static str] {
        STUB
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["input coordinates are exact multiples of the de-duplication grid (integers times a power of two)",
          "the input spans a volume clearly above the library's 1e-6 flatness tolerance"]
    }
}

impl Prop for Union {
    fn id(&self) -> &'static str {
        "C10"
    }
    fn watchdog(&self) -> u64 {
        60
    }
    fn plan(&self, thorough: bool) -> (u64, u64) {
        if thorough {
            (4000, 20)
        } else {
            (1500, 20)
        }
    }
    fn gen(&self, rng: &mut Rng, thorough: bool) -> Case {
        let mut c = Case::default();
        gen_solids(rng, thorough, &mut c);
        if rng.chance(1, 3) {
            c.set("poly", 1);
        }
        for _ in 0..2 {
            c.faults.push(gen_sched(rng));
        }
        gen_corners(rng, &mut c);
        c
    }
    fn run(&self, c: &Case) -> Verdict {
        execute("C10", c)
    }
    fn rule(&self) -> &'static str {
        "distinct (arrangement of closed shells, schedules) with a non-empty union"
    }
    fn shape_measure(&self) -> &'static str {
        "executions by hash of the emitted points and triangles over all schedules of the run"
    }
    fn real(&self) -> &'static [&'static str] {
        REAL
    }
    fn stubbed(&self) -> &'static [&'static str] {
        STUB
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["each shell is one closed, outward-oriented solid with coordinates on the de-duplication grid",
          "membership is judged at sampled points by solid-angle winding numbers, 1e-7 of the model size off each output face"]
    }
}

impl Prop for Capped {
    fn id(&self) -> &'static str {
        "C11"
    }
    fn watchdog(&self) -> u64 {
        60
    }
    fn plan(&self, thorough: bool) -> (u64, u64) {
        if thorough {
            (4000, 20)
        } else {
            (1500, 20)
        }
    }
    fn gen(&self, rng: &mut Rng, _thorough: bool) -> Case {
        let mut c = Case::default();
        let style = rng.below(2);
        c.kind = format!("style{style}");
        let n = rng.range(1, 3);
        let r = if style == 0 { rng.range(1, 3) } else { rng.range(2, 30) };
        // closed company of any shape, then the shells with holes on the outside of everything
        let holed = rng.range(1, n);
        for i in holed..n {
            c.items.push(gen_row(rng, i, r, rng.clone().below(3), &[0, 1, 2, 3, 4, 5]));
        }
        let mut lo = [-r; 3];
        let mut hi = [r; 3];
        for row in &c.items {
            for p in build(row).map(|b| b.pts).unwrap_or_default() {
                for k in 0..3 {
                    lo[k] = lo[k].min(p[k]);
                    hi[k] = hi[k].max(p[k]);
                }
            }
        }
        for i in 0..holed {
            let mut row = gen_row(rng, i, r, style, &[0, 0, 0, 3]);
            row[9] = 0;
            let d = if row[0] == 3 { rng.range(0, 1) } else { rng.range(0, 5) };
            let ax = [2, 2, 1, 0, 1, 0][d as usize];
            let top = [false, true, false, true, true, false][d as usize];
            // long away from the hole
            row[5 + ax] += rng.range(0, r);
            let o = if top { hi[ax] - row[5 + ax] } else { lo[ax] };
            row[2 + ax] = o;
            row[10] = d + 1;
            for k in 0..3 {
                if k != ax && row[0] == 0 {
                    // stay within the slabs the earlier holes rely on
                    if row[2 + k] < lo[k] {
                        row[2 + k] = lo[k];
                    }
                    if row[2 + k] + row[5 + k] > hi[k] {
                        row[5 + k] = (hi[k] - row[2 + k]).max(1);
                    }
                }
            }
            c.items.push(row);
        }
        if rng.chance(1, 2) {
            c.set("poly", 1);
        }
        for _ in 0..2 {
            c.faults.push(gen_sched(rng));
        }
        gen_corners(rng, &mut c);
        c
    }
    fn run(&self, c: &Case) -> Verdict {
        execute("C11", c)
    }
    fn rule(&self) -> &'static str {
        "distinct (arrangement of closed shells and of shells with one missing face, schedules) with a non-empty result"
    }
    fn shape_measure(&self) -> &'static str {
        "executions by hash of the emitted points and triangles over all schedules of the run"
    }
    fn real(&self) -> &'static [&'static str] {
        REAL
    }
    fn stubbed(&self) -> &'static [&'static str] {
        STUB
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["each hole is one whole end of a box or L-shaped prism, lies on the convex hull of the input, and has at most 0.28 of the remaining surface of its shell, so that capping it is the unique cheapest cut and the cap exists in the cell complex"]
    }
}
