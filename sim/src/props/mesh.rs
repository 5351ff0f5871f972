//! C07/C08: histories of edits on the halfedge surface mesh, with the caller's allocator behaving in
//! every legal way. C07 looks only at the mesh itself (is it one consistent structure?), C08 compares
//! with a model that keeps plain lists of corners.
use super::tet::{gen_sched, sched_cfg};
use crate::case::{Case, Prop, Verdict};
use crate::rng::Rng;
use crate::seams::{simulate, suspended, ArenaCfg, Fail, SimArena};
use gpf::mesh::{EdgeId, ElementId, FaceId, HalfedgeId, Mesh, SurfaceMesh, VertexId};
use std::alloc::{Allocator, Global};
use std::collections::{BTreeMap, BTreeSet};

type Bad = Option<(&'static str, String)>;

macro_rules! ensure {
    ($c:expr, $cl:expr, $($t:tt)*) => {
        if !$c { return Some(($cl, format!($($t)*))); }
    };
}

fn perm(name: &'static str, n: usize, f: impl Fn(usize) -> usize, live: &[bool]) -> Bad {
    let mut seen = vec![false; n];
    for h in (0..n).filter(|&h| live[h]) {
        let x = f(h);
        ensure!(x < n && live[x], name, "halfedge {h} leads to {x}, which does not exist");
        ensure!(!seen[x], name, "halfedge {x} follows two halfedges");
        seen[x] = true;
    }
    None
}

/// every cycle of f is exactly one class of key
fn cycles_are_classes(name: &'static str, n: usize, f: impl Fn(usize) -> usize, live: &[bool], key: impl Fn(usize) -> usize) -> Bad {
    let mut count: BTreeMap<usize, usize> = BTreeMap::new();
    for h in (0..n).filter(|&h| live[h]) {
        *count.entry(key(h)).or_insert(0) += 1;
    }
    let mut seen = vec![false; n];
    for h in (0..n).filter(|&h| live[h]) {
        if seen[h] {
            continue;
        }
        let (mut x, mut len) = (h, 0);
        while !seen[x] {
            seen[x] = true;
            len += 1;
            ensure!(key(x) == key(h), name, "the cycle of halfedge {h} runs into {x}, which belongs to {} and not {}", key(x), key(h));
            x = f(x);
        }
        ensure!(len == count[&key(h)], name, "the cycle of halfedge {h} has {len} of the {} halfedges of {}", count[&key(h)], key(h));
    }
    None
}

/// C07
pub fn consistent(m: &SurfaceMesh) -> Bad {
    let (nv, nh, ne, nf) = (m.n_vertices_capacity(), m.n_halfedges_capacity(), Mesh::n_edges_capacity(m), m.n_faces_capacity());
    let live: Vec<bool> = (0..nh).map(|h| m.halfedge_is_valid(HalfedgeId(h))).collect();
    let nxt = |h: usize| m.he_next(HalfedgeId(h)).0;
    let sib = |h: usize| m.he_sibling(HalfedgeId(h)).0;
    let inn = |h: usize| m.he_next_incoming_neighbor(HalfedgeId(h)).0;
    let out = |h: usize| m.he_next_outgoing_neighbor(HalfedgeId(h)).0;
    for h in (0..nh).filter(|&h| live[h]) {
        let (v, e, f) = (m.he_vertex(HalfedgeId(h)), m.he_edge(HalfedgeId(h)), m.he_face(HalfedgeId(h)));
        ensure!(v.0 < nv && e.0 < ne && f.0 < nf, "dangling", "halfedge {h} names vertex {} edge {} face {}", v.0, e.0, f.0);
    }
    for (n, f) in [("next-cycle", &nxt as &dyn Fn(usize) -> usize), ("edge-cycle", &sib), ("in-cycle", &inn), ("out-cycle", &out)] {
        let b = perm(n, nh, f, &live);
        if b.is_some() {
            return b;
        }
    }
    let tail = |h: usize| m.he_vertex(HalfedgeId(h)).0;
    let tip = |h: usize| tail(nxt(h));
    let edge = |h: usize| m.he_edge(HalfedgeId(h)).0;
    let face = |h: usize| m.he_face(HalfedgeId(h)).0;
    let b = cycles_are_classes("next-cycle", nh, nxt, &live, face)
        .or_else(|| cycles_are_classes("edge-cycle", nh, sib, &live, edge))
        .or_else(|| cycles_are_classes("in-cycle", nh, inn, &live, tip))
        .or_else(|| cycles_are_classes("out-cycle", nh, out, &live, tail));
    if b.is_some() {
        return b;
    }
    let mut fh: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
    let mut eh: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
    let mut vo: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
    let mut vi: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
    for h in (0..nh).filter(|&h| live[h]) {
        fh.entry(face(h)).or_default().insert(h);
        eh.entry(edge(h)).or_default().insert(h);
        vo.entry(tail(h)).or_default().insert(h);
        vi.entry(tip(h)).or_default().insert(h);
        ensure!(m.he_tip_vertex(HalfedgeId(h)).0 == tip(h), "tip", "tip of halfedge {h}");
    }
    // links back
    for f in 0..nf {
        if m.face_is_valid(FaceId(f)) {
            let h = m.f_halfedge(FaceId(f)).0;
            ensure!(fh.get(&f).is_some_and(|s| s.contains(&h)), "face-link", "face {f} names halfedge {h}, which is not in it");
        }
        ensure!(m.face_is_valid(FaceId(f)) == fh.contains_key(&f), "face-link", "face {f} valid: {}, halfedges: {:?}", m.face_is_valid(FaceId(f)), fh.get(&f));
    }
    for e in 0..ne {
        let ok = m.edge_is_valid(EdgeId(e));
        ensure!(ok == eh.contains_key(&e), "edge-link", "edge {e} valid: {ok}, halfedges: {:?}", eh.get(&e));
        if ok {
            let h = m.e_halfedge(EdgeId(e)).0;
            ensure!(eh[&e].contains(&h), "edge-link", "edge {e} names halfedge {h}, which is not on it");
            let ev = m.e_vertices(EdgeId(e));
            ensure!(ev[0].0 == tail(h) && ev[1].0 == tip(h), "edge-ends", "edge {e} has ends {} {}, its halfedge {} {}", ev[0].0, ev[1].0, tail(h), tip(h));
            for &x in &eh[&e] {
                let same = tail(x) == tail(h) && tip(x) == tip(h);
                let opp = tail(x) == tip(h) && tip(x) == tail(h);
                ensure!(same || opp, "edge-ends", "halfedges {h} ({} {}) and {x} ({} {}) are on edge {e}", tail(h), tip(h), tail(x), tip(x));
                ensure!(m.he_same_dir(HalfedgeId(x)) == same, "direction", "halfedge {x} on edge {e}");
                ensure!(m.hes_same_dir(HalfedgeId(x), HalfedgeId(h)) == same, "direction", "halfedges {x} and {h}");
                // twin: the opposite direction when there is one
                let t = m.he_twin(HalfedgeId(x)).0;
                let opposite: Vec<usize> = eh[&e].iter().cloned().filter(|&y| tail(y) != tail(x)).collect();
                if opposite.is_empty() {
                    ensure!(t == x, "twin", "halfedge {x} has no opposite but twin {t}");
                } else {
                    ensure!(opposite.contains(&t), "twin", "twin of halfedge {x} is {t}, its opposites are {opposite:?}");
                }
            }
        }
    }
    for v in 0..nv {
        let ok = m.vertex_is_valid(VertexId(v));
        ensure!(ok == vo.contains_key(&v), "vertex-link", "vertex {v} valid: {ok}, leaving halfedges {:?}", vo.get(&v));
        if ok {
            let h = m.v_halfedge(VertexId(v)).0;
            ensure!(vo[&v].contains(&h), "vertex-link", "vertex {v} names halfedge {h}, which does not leave it");
        }
    }
    // enumeration
    let cap = nh + 2;
    let ids: Vec<usize> = m.faces().map(|x| x.0).take(nf + 2).collect();
    ensure!(ids.iter().eq(fh.keys()), "enumeration", "faces listed: {ids:?}");
    let ids: Vec<usize> = m.edges().map(|x| x.0).take(ne + 2).collect();
    ensure!(ids.iter().eq(eh.keys()), "enumeration", "edges listed: {ids:?}");
    let ids: Vec<usize> = m.vertices().map(|x| x.0).take(nv + 2).collect();
    ensure!(ids.iter().eq(vo.keys()), "enumeration", "vertices listed: {ids:?}");
    let ids: Vec<usize> = m.halfedges().map(|x| x.0).take(cap).collect();
    ensure!(ids.iter().cloned().eq((0..nh).filter(|&h| live[h])), "enumeration", "halfedges listed: {ids:?}");
    ensure!(m.n_faces() == fh.len() && m.n_edges() == eh.len() && m.n_halfedges() == ids.len(), "counts", "{} faces {} edges {} halfedges counted, {} {} {} exist", m.n_faces(), m.n_edges(), m.n_halfedges(), fh.len(), eh.len(), ids.len());
    if vo.len() == nv {
        ensure!(m.n_vertices() == nv, "counts", "{} vertices counted, {nv} exist", m.n_vertices());
    }
    for (&f, hs) in &fh {
        let x = m.face(FaceId(f));
        let l: Vec<usize> = x.halfedges().map(|h| h.0).take(cap).collect();
        ensure!(l.len() == hs.len() && l.iter().cloned().collect::<BTreeSet<_>>() == *hs, "circulator", "halfedges of face {f}: {l:?}, expected {hs:?}");
        ensure!(l.iter().enumerate().all(|(i, &h)| nxt(h) == l[(i + 1) % l.len()]), "circulator", "halfedges of face {f} out of order: {l:?}");
        let vs: Vec<usize> = x.vertices().map(|v| v.0).take(cap).collect();
        ensure!(vs.iter().cloned().eq(l.iter().map(|&h| tail(h))), "circulator", "vertices of face {f}: {vs:?}");
        ensure!(x.halfedge().0 == l[0], "circulator", "halfedge of face {f}");
        for (i, &h) in l.iter().enumerate() {
            let hh = m.halfedge(HalfedgeId(h));
            let p = l[(i + l.len() - 1) % l.len()];
            ensure!(m.he_prev(HalfedgeId(h)).0 == p && hh.prev().0 == p && hh.next().0 == nxt(h), "prev", "halfedge {h} comes after {p}, prev says {}", m.he_prev(HalfedgeId(h)).0);
            ensure!(hh.from().0 == tail(h) && hh.to().0 == tip(h) && hh.vertices()[0].0 == tail(h) && hh.vertices()[1].0 == tip(h), "tip", "ends of halfedge {h}");
            ensure!(hh.edge().0 == edge(h) && hh.sibling().0 == sib(h) && hh.twin().0 == m.he_twin(HalfedgeId(h)).0, "circulator", "relations of halfedge {h}");
        }
    }
    for (&e, hs) in &eh {
        let l: Vec<usize> = m.edge(EdgeId(e)).halfedges().map(|h| h.0).take(cap).collect();
        ensure!(l.len() == hs.len() && l.iter().cloned().collect::<BTreeSet<_>>() == *hs, "circulator", "halfedges of edge {e}: {l:?}, expected {hs:?}");
        ensure!(m.edge(EdgeId(e)).halfedge().0 == l[0], "circulator", "halfedge of edge {e}");
    }
    for (&v, hs) in &vo {
        let x = m.vertex(VertexId(v));
        ensure!(hs.contains(&x.out_halfedge().0) && vi[&v].contains(&x.in_halfedge().0), "circulator", "in and out halfedges of vertex {v}");
        let l: Vec<usize> = x.outgoing_halfedges().map(|h| h.0).take(cap).collect();
        ensure!(l.len() == hs.len() && l.iter().cloned().collect::<BTreeSet<_>>() == *hs, "circulator", "leaving halfedges of vertex {v}: {l:?}, expected {hs:?}");
        let l: Vec<usize> = x.incoming_halfedges().map(|h| h.0).take(cap).collect();
        ensure!(l.len() == vi[&v].len() && l.iter().cloned().collect::<BTreeSet<_>>() == vi[&v], "circulator", "arriving halfedges of vertex {v}: {l:?}, expected {:?}", vi[&v]);
        let want: BTreeSet<usize> = hs.iter().chain(&vi[&v]).map(|&h| edge(h)).collect();
        let l: Vec<usize> = x.edges().map(|e| e.0).take(2 * cap).collect();
        ensure!(l.len() == want.len() && l.iter().cloned().collect::<BTreeSet<_>>() == want, "circulator", "edges of vertex {v}: {l:?}, expected {want:?}");
        let mut far: Vec<usize> = want
            .iter()
            .map(|&e| {
                let w = m.e_vertices(EdgeId(e));
                if w[0].0 == v { w[1].0 } else { w[0].0 }
            })
            .collect();
        let mut l: Vec<usize> = x.vertices().map(|w| w.0).take(2 * cap).collect();
        far.sort();
        l.sort();
        ensure!(l == far, "circulator", "neighbours of vertex {v}: {l:?}, expected {far:?}");
    }
    None
}

/// what C08 compares: each face as its list of (vertex, edge to the next vertex, halfedge)
#[derive(Clone)]
struct Model {
    faces: Vec<Vec<(usize, usize)>>,
    nv: usize,
    ne: usize,
}

fn corners(m: &SurfaceMesh, f: usize) -> Vec<(usize, usize)> {
    let mut out = vec![];
    let first = m.f_halfedge(FaceId(f));
    let mut h = first;
    for _ in 0..m.n_halfedges_capacity() + 1 {
        if !h.valid() || h.0 >= m.n_halfedges_capacity() {
            return vec![];
        }
        out.push((m.he_vertex(h).0, m.he_edge(h).0));
        h = m.he_next(h);
        if h == first {
            return out;
        }
    }
    vec![]
}
fn rot_eq<T: PartialEq>(a: &[T], b: &[T]) -> bool {
    a.len() == b.len() && (a.is_empty() || (0..a.len()).any(|k| (0..a.len()).all(|i| a[(i + k) % a.len()] == b[i])))
}

impl Model {
    fn compare(&self, m: &SurfaceMesh, what: &str) -> Bad {
        ensure!(m.n_faces() == self.faces.len() && m.n_faces_capacity() == self.faces.len(), "faces", "{what}: {} faces, expected {}", m.n_faces(), self.faces.len());
        ensure!(m.n_vertices() == self.nv && m.n_vertices_capacity() == self.nv, "vertices", "{what}: {} vertices, expected {}", m.n_vertices(), self.nv);
        ensure!(m.n_edges() == self.ne && Mesh::n_edges_capacity(m) == self.ne, "edges", "{what}: {} edges, expected {}", m.n_edges(), self.ne);
        let h: usize = self.faces.iter().map(|f| f.len()).sum();
        ensure!(m.n_halfedges() == h, "halfedges", "{what}: {} halfedges, expected {h}", m.n_halfedges());
        for (f, want) in self.faces.iter().enumerate() {
            let got = corners(m, f);
            ensure!(rot_eq(&got, want), "corners", "{what}: face {f} runs through (vertex, edge) {got:?}, expected {want:?}");
        }
        // the edges seen from the edges
        let mut want: BTreeMap<usize, usize> = BTreeMap::new();
        for f in &self.faces {
            for &(_, e) in f {
                *want.entry(e).or_insert(0) += 1;
            }
        }
        for (&e, &k) in &want {
            let got = m.edge(EdgeId(e)).halfedges().map(|h| m.he_edge(*h).0).take(k + 2).filter(|&x| x == e).count();
            ensure!(got == k, "edge-halfedges", "{what}: edge {e} carries {got} halfedges, expected {k}");
        }
        None
    }
}

struct Run<'a> {
    id: &'a str,
    model: Model,
    edits: [u64; 4],
    digest: Vec<u64>,
}

fn polygons(c: &Case) -> Vec<Vec<usize>> {
    if c.kind == "huge" {
        // so many elements that their ids leave 16 bits
        let mut n = c.p("n").clamp(3, 80_000) as usize;
        if c.prop == "C07" && c.p("shape").rem_euclid(4) == 2 {
            // walking from each corner around the face is quadratic
            n = n.min(2000);
        }
        return match c.p("shape").rem_euclid(4) {
            0 => (0..n).map(|i| if i % 2 == 0 { vec![i, i + 1, i + 2] } else { vec![i + 1, i, i + 2] }).collect(),
            1 => {
                let w = 250;
                (0..n).map(|k| (k / w * (w + 1) + k % w, w + 1)).map(|(a, r)| vec![a, a + r, a + r + 1, a + 1]).collect()
            }
            2 => vec![(0..n).collect(), (0..n).rev().collect()],
            _ => (0..n).map(|i| vec![3 * i, 3 * i + 1, 3 * i + 2]).collect(),
        };
    }
    c.items.iter().filter(|r| r.first() == Some(&0)).map(|r| r[1..].iter().map(|&x| x.clamp(0, 400) as usize).collect()).collect()
}

fn domain(p: &[Vec<usize>]) -> bool {
    p.iter().all(|f| f.len() >= 3 && f.iter().collect::<BTreeSet<_>>().len() == f.len())
}

/// a closed walk over existing halfedges through distinct vertices
fn walk(m: &SurfaceMesh, seed: u64) -> Option<Vec<HalfedgeId>> {
    let mut rng = Rng::new(seed);
    let nh = m.n_halfedges_capacity();
    for _ in 0..6 {
        let mut path = vec![HalfedgeId(rng.us(nh))];
        let mut vs = vec![m.he_vertex(path[0])];
        for _ in 0..10 {
            let t = m.he_tip_vertex(*path.last().unwrap());
            if let Some(k) = vs.iter().position(|&v| v == t) {
                let l = path[k..].to_vec();
                if l.len() >= 3 || (l.len() == 2 && seed % 5 == 0 && m.he_edge(l[0]) != m.he_edge(l[1])) {
                    return Some(l);
                }
                break;
            }
            vs.push(t);
            let out: Vec<HalfedgeId> = m.vertex(t).outgoing_halfedges().map(|h| *h).collect();
            path.push(*rng.pick(&out));
        }
    }
    None
}

fn edit<A: Allocator + Copy>(m: &mut SurfaceMesh, op: &[i64], run: &mut Run, bump: A) -> Bad {
    let before = run.model.clone();
    let g = |k: usize| op.get(k).copied().unwrap_or(0).unsigned_abs() as usize;
    match op[0] {
        1 => {
            let e = g(1) % before.ne;
            let ends = m.e_vertices(EdgeId(e)).map(|v| v.0);
            let nv = m.split_edge(EdgeId(e), bump).0;
            suspended(|| {
                run.edits[1] += 1;
                run.digest.push(nv as u64);
                ensure!(nv == before.nv, "new-vertex", "splitting edge {e} returned vertex {nv}, {} existed", before.nv);
                let ne = before.ne;
                let now = m.e_vertices(EdgeId(e)).map(|v| v.0);
                let first = if now.contains(&ends[0]) { ends[0] } else { ends[1] };
                let id = |v: usize| if v == first { e } else { ne };
                for f in &mut run.model.faces {
                    let mut out = vec![];
                    for (i, &(v, x)) in f.iter().enumerate() {
                        if x == e {
                            let w = f[(i + 1) % f.len()].0;
                            out.push((v, id(v)));
                            out.push((nv, id(w)));
                        } else {
                            out.push((v, x));
                        }
                    }
                    *f = out;
                }
                run.model.nv += 1;
                run.model.ne += 1;
                None
            })
        }
        2 => {
            let f = g(1) % before.faces.len();
            let c = suspended(|| before.faces[f].clone());
            let i = g(2) % c.len();
            let mut j = g(3) % c.len();
            if i == j {
                j = (i + 1 + g(3) % (c.len() - 1)) % c.len();
            }
            let adj = (i + 1) % c.len() == j || (j + 1) % c.len() == i;
            if adj && g(4) % 4 != 0 {
                return None;
            }
            let (va, vb) = (c[i].0, c[j].0);
            let h = m.split_face(FaceId(f), VertexId(va), VertexId(vb), bump);
            suspended(|| {
                run.edits[2] += 1;
                run.digest.push(h.0 as u64);
                let (ne, nf) = (before.ne, before.faces.len());
                ensure!(h.0 < m.n_halfedges_capacity() && m.he_face(h).0 == nf, "new-face", "splitting face {f} between {va} and {vb} returned halfedge {} of face {}", h.0, m.he_face(h).0);
                ensure!(m.he_edge(h).0 == ne, "new-edge", "splitting face {f} between {va} and {vb}: the halfedge returned is on edge {}", m.he_edge(h).0);
                let ends: BTreeSet<usize> = [m.he_vertex(h).0, m.he_tip_vertex(h).0].into();
                ensure!(ends == [va, vb].into(), "new-edge", "splitting face {f} between {va} and {vb}: new edge between {ends:?}");
                let arc = |a: usize, b: usize| {
                    let mut o = vec![];
                    let mut k = a;
                    while k != b {
                        o.push(c[k]);
                        k = (k + 1) % c.len();
                    }
                    o.push((c[b].0, ne));
                    o
                };
                let (p, q) = (arc(i, j), arc(j, i));
                // either part may be the new face
                let swap = rot_eq(&corners(m, nf), &p);
                let (old, new) = if swap { (q, p) } else { (p, q) };
                run.model.faces[f] = old;
                run.model.faces.push(new);
                run.model.ne += 1;
                let t = m.he_twin(h);
                ensure!(m.he_face(t).0 == f && t != h, "new-edge", "splitting face {f}: the other side of the new edge is in face {}", m.he_face(t).0);
                None
            })
        }
        3 => {
            let Some(l) = suspended(|| walk(m, op.get(1).copied().unwrap_or(0) as u64)) else {
                return None;
            };
            let f = m.add_face_by_halfedges(&l, bump);
            suspended(|| {
                run.edits[3] += 1;
                run.digest.push(f.0 as u64);
                ensure!(f.0 == before.faces.len(), "new-face", "adding a face returned {}, {} existed", f.0, before.faces.len());
                run.model.faces.push(l.iter().map(|&h| (m.he_vertex(h).0, m.he_edge(h).0)).collect());
                drop(l);
                None
            })
        }
        _ => {
            // splits of existing edges found through a vertex
            None
        }
    }
}

fn execute(id: &str, c: &Case) -> Verdict {
    let mut v = Verdict::new();
    let polys = polygons(c);
    if !domain(&polys) {
        v.stat("out_of_domain", 1);
        return v;
    }
    if c.kind == "huge" {
        v.stat("probe.huge_meshes", 1);
    }
    // a mesh of no polygons has nothing to edit
    let ops: Vec<&Vec<i64>> = c.items.iter().filter(|r| !polys.is_empty() && matches!(r.first(), Some(1..=3))).collect();
    for f in &c.faults {
        let budget = 200_000 + 2_000 * (ops.len() as u64 + polys.len() as u64) + 400 * polys.iter().map(|p| p.len() as u64).sum::<u64>();
        let cfg = sched_cfg(f, budget);
        let mem = f.get(4).copied().unwrap_or(0);
        let (r, tel) = simulate(&cfg, || {
            let mut run = Run { id, model: Model { faces: vec![], nv: 0, ne: 0 }, edits: [0; 4], digest: vec![] };
            let bump = bumpalo::Bump::new();
            let arena = SimArena::new(ArenaCfg {
                dirty: cfg.dirty,
                reuse: (mem >> 2).clamp(0, 2) as u8,
                move_grow: mem & 1 != 0,
                poison: mem & 2 != 0,
                fail_at: 0,
            });
            let mut m = SurfaceMesh::new(&polys);
            let bad = suspended(|| {
                let used: BTreeSet<usize> = polys.iter().flatten().cloned().collect();
                let mut edges: BTreeMap<(usize, usize), usize> = BTreeMap::new();
                // the ids of edges are the mesh's choice: read them off, once per pair of vertices
                for (f, p) in polys.iter().enumerate() {
                    let got = corners(&m, f);
                    if got.len() == p.len() && rot_eq(&got.iter().map(|x| x.0).collect::<Vec<_>>(), p) {
                        for i in 0..got.len() {
                            let (a, b) = (got[i].0, got[(i + 1) % got.len()].0);
                            edges.entry((a.min(b), a.max(b))).or_insert(got[i].1);
                        }
                    } else {
                        return Some(("corners", format!("face {f} built from {p:?} runs through {got:?}")));
                    }
                }
                let ids: BTreeSet<usize> = edges.values().cloned().collect();
                if ids.len() != edges.len() {
                    return Some(("edges", "two pairs of vertices share an edge".into()));
                }
                run.model.nv = used.iter().max().map_or(0, |x| x + 1);
                run.model.ne = edges.len();
                run.model.faces = polys
                    .iter()
                    .map(|p| {
                        (0..p.len())
                            .map(|i| {
                                let (a, b) = (p[i], p[(i + 1) % p.len()]);
                                (a, edges[&(a.min(b), a.max(b))])
                            })
                            .collect()
                    })
                    .collect();
                if id == "C07" { consistent(&m) } else { run.model.compare(&m, "after building") }
            });
            if bad.is_some() {
                return (bad, run.edits, run.digest);
            }
            for (k, op) in ops.iter().enumerate() {
                let b = match mem % 3 {
                    0 => edit(&mut m, op, &mut run, &bump),
                    1 => edit(&mut m, op, &mut run, &arena),
                    _ => edit(&mut m, op, &mut run, Global),
                };
                let b = suspended(|| {
                    let what = format!("after edit {k} {op:?}");
                    if run.id == "C07" {
                        // what the edit should have done is C08's business
                        consistent(&m).map(|(c, d)| (c, format!("{what}: {d}")))
                    } else {
                        b.or_else(|| run.model.compare(&m, &what))
                    }
                });
                if b.is_some() {
                    return (b, run.edits, run.digest);
                }
            }
            let t = arena.tel().corrupt;
            (t.map(|t| ("allocator-misuse", t)), run.edits, run.digest)
        });
        v.telemetry(&tel);
        v.stat("schedules", 1);
        match r {
            Ok((bad, edits, dig)) => {
                for d in &dig {
                    v.log(*d);
                }
                v.stat("edge_splits", edits[1]);
                v.stat("face_splits", edits[2]);
                v.stat("added_faces", edits[3]);
                v.nontrivial |= edits.iter().sum::<u64>() >= 2;
                if let Some((cl, d)) = bad {
                    v.fail(cl, d);
                }
            }
            Err(Fail::Budget) => v.fail("no-progress", "step budget exceeded"),
            Err(x) => v.fail("panic", format!("{x:?}")),
        }
        if v.bad() {
            return v;
        }
    }
    for r in &c.items {
        for &x in r {
            v.mark(x as u64);
        }
        v.mark(!0);
    }
    v
}

fn gen(rng: &mut Rng, thorough: bool) -> Case {
    let mut c = Case::default();
    if rng.chance(1, 4000) {
        c.kind = "huge".into();
        c.set("shape", rng.range(0, 3));
        c.set("n", rng.range(22_000, 75_000));
        for _ in 0..rng.range(1, 3) {
            let t = rng.range(1, 3);
            let mut r = vec![t];
            for _ in 0..3 {
                r.push(rng.range(0, 1 << 20));
            }
            r.push(rng.range(0, 7));
            c.items.push(r);
        }
        let mut s = gen_sched(rng);
        s.push(rng.range(0, 11));
        c.faults.push(s);
        return c;
    }
    if rng.chance(1, 2000) {
        c.kind = "empty".into();
        let mut s = gen_sched(rng);
        s.push(rng.range(0, 11));
        c.faults.push(s);
        return c;
    }
    let kind = rng.below(6);
    // rarely, edges, vertices or faces with hundreds of neighbours
    let big = rng.chance(1, 250);
    let size = |rng: &mut Rng, a: i64, b: i64| if big { rng.range(100, 380) } else { rng.range(a, b) };
    c.kind = ["solid", "grid", "fan", "random", "book", "strip"][kind as usize].into();
    let mut polys: Vec<Vec<i64>> = match kind {
        0 => match rng.below(3) {
            0 => vec![vec![0, 2, 1], vec![0, 1, 3], vec![1, 2, 3], vec![2, 0, 3]],
            1 => vec![vec![0, 3, 2, 1], vec![4, 5, 6, 7], vec![0, 1, 5, 4], vec![1, 2, 6, 5], vec![2, 3, 7, 6], vec![3, 0, 4, 7]],
            _ => vec![vec![0, 1, 2], vec![3, 5, 4], vec![0, 3, 4, 1], vec![1, 4, 5, 2], vec![2, 5, 3, 0]],
        },
        1 => {
            let (a, b) = (rng.range(1, 4), rng.range(1, 4));
            let wrap = rng.chance(1, 3);
            let id = |i: i64, j: i64| if wrap && a > 2 { (i % a) * (b + 1) + j } else { i * (b + 1) + j };
            let mut p = vec![];
            for i in 0..a {
                for j in 0..b {
                    let q = vec![id(i, j), id(i + 1, j), id(i + 1, j + 1), id(i, j + 1)];
                    if rng.chance(1, 3) {
                        p.push(vec![q[0], q[1], q[2]]);
                        p.push(vec![q[0], q[2], q[3]]);
                    } else {
                        p.push(q);
                    }
                }
            }
            p
        }
        2 => {
            let n = size(rng, 2, 8);
            (0..n).map(|i| vec![0, i + 1, if rng.chance(1, 2) { (i + 1) % n + 1 } else { i + 2 }]).filter(|t| t[1] != t[2]).collect()
        }
        3 => {
            let n = size(rng, 4, 9);
            (0..rng.range(1, 8))
                .map(|_| {
                    let mut v: Vec<i64> = (0..n).collect();
                    rng.shuffle(&mut v);
                    v.truncate(rng.range(3, if big { n } else { n.min(6) }) as usize);
                    v
                })
                .collect()
        }
        4 => {
            // many faces on one edge, in both directions
            let n = size(rng, 1, 7);
            (0..n).map(|i| if rng.chance(1, 2) { vec![0, 1, i + 2] } else { vec![1, 0, i + 2] }).collect()
        }
        _ => {
            let n = rng.range(2, 12);
            (0..n).map(|i| if i % 2 == 0 { vec![i, i + 1, i + 2] } else { vec![i + 1, i, i + 2] }).collect()
        }
    };
    if rng.chance(1, 4) && !polys.is_empty() {
        let k = rng.us(polys.len());
        let mut d = polys[k].clone();
        if rng.chance(1, 2) {
            d.reverse();
        }
        polys.push(d);
    }
    if rng.chance(1, 5) {
        let k = rng.us(polys.len());
        polys[k].reverse();
    }
    if rng.chance(1, 4) {
        rng.shuffle(&mut polys);
    }
    if rng.chance(1, 8) {
        // unused vertices
        let d = rng.range(1, 3);
        for p in &mut polys {
            for x in p {
                *x += d;
            }
        }
    }
    for p in polys {
        let mut r = vec![0];
        r.extend(p);
        c.items.push(r);
    }
    let m = if big { rng.range(1, 6) } else { rng.range(0, if thorough { 60 } else { 24 }) };
    if big && rng.chance(2, 3) {
        c.items.push(vec![1, 0]);
    }
    let w: [u64; 3] = [rng.range(0, 4) as u64, rng.range(0, 4) as u64 + 1, rng.range(0, 2) as u64];
    for _ in 0..m {
        let t = rng.below(w.iter().sum());
        let big = 1 << 20;
        c.items.push(if t < w[0] {
            vec![1, rng.range(0, big)]
        } else if t < w[0] + w[1] {
            vec![2, rng.range(0, big), rng.range(0, big), rng.range(0, big), rng.range(0, 7)]
        } else {
            vec![3, rng.range(0, big)]
        });
    }
    for _ in 0..2 {
        let mut s = gen_sched(rng);
        s.push(rng.range(0, 11));
        c.faults.push(s);
    }
    c
}

pub struct Connectivity;
pub struct Edits;
macro_rules! mesh_prop {
    ($t:ident, $id:expr, $rule:expr) => {
        impl Prop for $t {
            fn id(&self) -> &'static str {
                $id
            }
            fn plan(&self, thorough: bool) -> (u64, u64) {
                if thorough {
                    (20000, 200)
                } else {
                    (400, 200)
                }
            }
            fn gen(&self, rng: &mut Rng, thorough: bool) -> Case {
                gen(rng, thorough)
            }
            fn run(&self, c: &Case) -> Verdict {
                execute($id, c)
            }
            fn rule(&self) -> &'static str {
                $rule
            }
            fn shape_measure(&self) -> &'static str {
                "(initial mesh, history of edits) by hash"
            }
            fn real(&self) -> &'static [&'static str] {
                &["gpf::mesh::SurfaceMesh and all element circulators", "hashbrown, bumpalo"]
            }
            fn stubbed(&self) -> &'static [&'static str] {
                &["OS entropy (hash keys) and the global allocator", "in a third of the schedules, the allocator the caller passes to each edit"]
            }
            fn assumptions(&self) -> &'static [&'static str] {
                &["polygons (any number of them, none included) have at least three distinct vertices", "faces are split between two different vertices of the face; faces are added along closed walks over existing halfedges"]
            }
        }
    };
}
mesh_prop!(Connectivity, "C07", "distinct (initial mesh, history) with at least two edits, every relation checked after each");
mesh_prop!(Edits, "C08", "distinct (initial mesh, history) with at least two edits, compared with the model after each");
