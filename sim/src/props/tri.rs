//! C02: planar triangulation, constrained and not, against an exact reference of which regions are
//! to be kept, the constraint edges and the (constrained) Delaunay condition.
//! C03: polygons in space, alone and in soups whose faces share scratch memory.
use super::geom::*;
use super::tet::{gen_sched, sched_cfg};
use crate::case::{Case, Prop, Verdict};
use crate::rng::{mix, Rng};
use crate::seams::{simulate, ArenaCfg, Fail, SimArena};
use std::alloc::Global;
use std::collections::{BTreeMap, BTreeSet, HashMap};

type Dir = (usize, usize);

#[derive(Default, Clone)]
pub struct Problem {
    pub pts: Vec<P2>,
    /// as handed over
    pub segs: Vec<Dir>,
    /// cut at the points lying on them
    pub pieces: BTreeSet<Dir>,
}

fn between(a: &P2, b: &P2, p: &P2) -> bool {
    p != a && p != b && orient2(a, b, p) == 0 && (p[0] - a[0]) as i128 * (p[0] - b[0]) as i128 + (p[1] - a[1]) as i128 * (p[1] - b[1]) as i128 <= 0
}
fn crosses(pts: &[P2], e: Dir, f: Dir) -> bool {
    let (a, b, c, d) = (&pts[e.0], &pts[e.1], &pts[f.0], &pts[f.1]);
    let o = |x: &P2, y: &P2, z: &P2| orient2(x, y, z);
    if a[0].max(b[0]) < c[0].min(d[0]) || c[0].max(d[0]) < a[0].min(b[0]) || a[1].max(b[1]) < c[1].min(d[1]) || c[1].max(d[1]) < a[1].min(b[1]) {
        return false;
    }
    o(a, b, c) * o(a, b, d) < 0 && o(c, d, a) * o(c, d, b) < 0
}

pub fn cut_segments(pts: &[P2], segs: &[Dir]) -> BTreeSet<Dir> {
    let mut out = BTreeSet::new();
    for &(a, b) in segs {
        if a == b {
            continue;
        }
        let mut on: Vec<usize> = (0..pts.len()).filter(|&p| between(&pts[a], &pts[b], &pts[p])).collect();
        on.sort_by_key(|&p| {
            let (x, y) = ((pts[p][0] - pts[a][0]) as i128, (pts[p][1] - pts[a][1]) as i128);
            x * x + y * y
        });
        let mut last = a;
        for p in on {
            out.insert((last, p));
            last = p;
        }
        out.insert((last, b));
    }
    out
}

/// any triangulation of the points that has the pieces as edges (greedy, shortest edge first or in a
/// seeded order); None if the pieces cross
pub fn greedy(pts: &[P2], pieces: &BTreeSet<Dir>, order: Option<u64>) -> Option<Vec<[usize; 3]>> {
    let n = pts.len();
    let mut acc: Vec<Dir> = vec![];
    for &(a, b) in pieces {
        if pieces.contains(&(b, a)) || acc.iter().any(|&f| crosses(pts, (a, b), f)) {
            return None;
        }
        acc.push((a, b));
    }
    let mut cand: Vec<(i128, Dir)> = vec![];
    for a in 0..n {
        for b in a + 1..n {
            if pieces.contains(&(a, b)) || pieces.contains(&(b, a)) {
                continue;
            }
            let (x, y) = ((pts[a][0] - pts[b][0]) as i128, (pts[a][1] - pts[b][1]) as i128);
            cand.push((x * x + y * y, (a, b)));
        }
    }
    match order {
        None => cand.sort(),
        Some(s) => {
            let mut r = Rng::new(s);
            r.shuffle(&mut cand)
        }
    }
    for (_, e) in cand {
        if (0..n).any(|p| between(&pts[e.0], &pts[e.1], &pts[p])) || acc.iter().any(|&f| crosses(pts, e, f)) {
            continue;
        }
        acc.push(e);
    }
    let mut adj = vec![vec![]; n];
    for &(a, b) in &acc {
        adj[a].push(b);
        adj[b].push(a);
    }
    let mut out = vec![];
    for a in 0..n {
        for &b in &adj[a] {
            let mut best: Option<usize> = None;
            for &c in &adj[a] {
                if orient2(&pts[a], &pts[b], &pts[c]) > 0 && best.is_none_or(|d| orient2(&pts[a], &pts[c], &pts[d]) > 0) {
                    best = Some(c);
                }
            }
            if let Some(c) = best {
                if !adj[b].contains(&c) {
                    return None;
                }
                if a < b && a < c {
                    out.push([a, b, c]);
                }
            }
        }
    }
    Some(out)
}

fn net(tris: &[[usize; 3]]) -> BTreeMap<Dir, i32> {
    let mut m: BTreeMap<Dir, i32> = BTreeMap::new();
    for t in tris {
        for j in 0..3 {
            let (a, b) = (t[j], t[(j + 1) % 3]);
            if a < b {
                *m.entry((a, b)).or_default() += 1;
            } else {
                *m.entry((b, a)).or_default() -= 1;
            }
        }
    }
    m.retain(|_, v| *v != 0);
    m
}

pub struct Expect {
    /// per admissible choice of kept regions: boundary chain, used points, kept constraint pieces
    options: Vec<(BTreeMap<Dir, i32>, BTreeSet<usize>, BTreeSet<Dir>)>,
    pub regions: usize,
    pub dropped: usize,
}

fn und(a: usize, b: usize) -> Dir {
    (a.min(b), a.max(b))
}

pub fn expect(p: &Problem) -> Option<Expect> {
    let tris = if p.pts.len() <= 90 { greedy(&p.pts, &p.pieces, None)? } else if p.segs.is_empty() { hull_fan(&p.pts) } else { return None };
    let mut owner: HashMap<Dir, usize> = HashMap::new();
    for (i, t) in tris.iter().enumerate() {
        for j in 0..3 {
            owner.insert((t[j], t[(j + 1) % 3]), i);
        }
    }
    let mut reg = vec![usize::MAX; tris.len()];
    let mut sides: Vec<(bool, bool)> = vec![];
    for s in 0..tris.len() {
        if reg[s] != usize::MAX {
            continue;
        }
        let r = sides.len();
        sides.push((false, false));
        let mut st = vec![s];
        reg[s] = r;
        while let Some(i) = st.pop() {
            for j in 0..3 {
                let (a, b) = (tris[i][j], tris[i][(j + 1) % 3]);
                if p.pieces.contains(&(a, b)) {
                    sides[r].0 = true;
                } else if p.pieces.contains(&(b, a)) {
                    sides[r].1 = true;
                } else if let Some(&k) = owner.get(&(b, a)) {
                    if reg[k] == usize::MAX {
                        reg[k] = r;
                        st.push(k);
                    }
                }
            }
        }
    }
    let free: Vec<usize> = (0..sides.len()).filter(|&r| sides[r] == (true, true)).collect();
    if free.len() > 3 {
        return None;
    }
    let mut options = vec![];
    for m in 0..1usize << free.len() {
        let keep = |r: usize| match free.iter().position(|&x| x == r) {
            Some(k) => m >> k & 1 != 0,
            None => !sides[r].1,
        };
        let sel: Vec<[usize; 3]> = (0..tris.len()).filter(|&i| keep(reg[i])).map(|i| tris[i]).collect();
        let used: BTreeSet<usize> = if p.pts.len() <= 90 { sel.iter().flatten().copied().collect() } else { (0..p.pts.len()).collect() };
        let mut kept = BTreeSet::new();
        for t in &sel {
            for j in 0..3 {
                let (a, b) = (t[j], t[(j + 1) % 3]);
                if p.pieces.contains(&(a, b)) || p.pieces.contains(&(b, a)) {
                    kept.insert(und(a, b));
                }
            }
        }
        options.push((net(&sel), used, kept));
    }
    Some(Expect { options, regions: sides.len(), dropped: sides.iter().filter(|s| s.1 && !s.0).count() })
}

/// triangles (not covering correctly, but with the hull chain as boundary): for large sets without
/// constraints
fn hull_fan(pts: &[P2]) -> Vec<[usize; 3]> {
    let mut ix: Vec<usize> = (0..pts.len()).collect();
    ix.sort_by_key(|&i| pts[i]);
    let half = |it: &mut dyn Iterator<Item = usize>| {
        let mut h: Vec<usize> = vec![];
        for i in it {
            while h.len() >= 2 && orient2(&pts[h[h.len() - 2]], &pts[h[h.len() - 1]], &pts[i]) < 0 {
                h.pop();
            }
            h.push(i);
        }
        h
    };
    let lo = half(&mut ix.iter().copied());
    if lo.len() == pts.len() && (0..pts.len()).all(|i| orient2(&pts[lo[0]], &pts[lo[1]], &pts[i]) == 0) {
        return vec![];
    }
    let mut up = half(&mut ix.iter().rev().copied());
    let mut l = lo;
    l.pop();
    up.pop();
    l.extend(up);
    (1..l.len().saturating_sub(1)).map(|i| [l[0], l[i], l[i + 1]]).collect()
}

/// class and detail of the first thing wrong with a result
pub fn judge(p: &Problem, e: &Expect, out: &[usize]) -> Option<(&'static str, String)> {
    if out.len() % 3 != 0 {
        return Some(("shape", format!("{} indices", out.len())));
    }
    let n = p.pts.len();
    let tris: Vec<[usize; 3]> = out.chunks(3).map(|t| [t[0], t[1], t[2]]).collect();
    let mut at: HashMap<Dir, usize> = HashMap::new();
    for (i, t) in tris.iter().enumerate() {
        if t.iter().any(|&x| x >= n) {
            return Some(("shape", format!("triangle {t:?} with {n} points")));
        }
        if orient2(&p.pts[t[0]], &p.pts[t[1]], &p.pts[t[2]]) <= 0 {
            return Some(("orientation", format!("triangle {t:?} is not counter-clockwise")));
        }
        for j in 0..3 {
            if at.insert((t[j], t[(j + 1) % 3]), i).is_some() {
                return Some(("overlap", format!("edge {} -> {} used twice", t[j], t[(j + 1) % 3])));
            }
        }
    }
    let chain = net(&tris);
    let Some(o) = e.options.iter().find(|o| o.0 == chain) else {
        let o = &e.options[0];
        let extra: Vec<_> = chain.iter().filter(|(k, v)| o.0.get(k) != Some(v)).take(4).collect();
        let lack: Vec<_> = o.0.iter().filter(|(k, v)| chain.get(k) != Some(v)).take(4).collect();
        return Some(("region", format!("boundary of the result is not that of the region to fill: unexpected {extra:?}, missing {lack:?} ({} triangles)", tris.len())));
    };
    let used: BTreeSet<usize> = out.iter().copied().collect();
    if used != o.1 {
        let d: Vec<_> = used.symmetric_difference(&o.1).take(5).collect();
        return Some(("vertices", format!("points inside the region left out (or strange ones used): {d:?}")));
    }
    for &(a, b) in &o.2 {
        if !at.contains_key(&(a, b)) && !at.contains_key(&(b, a)) {
            return Some(("constraint", format!("segment piece {a}-{b} is not an edge of the result")));
        }
    }
    for (&(a, b), &i) in &at {
        if a > b || p.pieces.contains(&(a, b)) || p.pieces.contains(&(b, a)) {
            continue;
        }
        if let Some(&k) = at.get(&(b, a)) {
            let d = tris[k].iter().copied().find(|&x| x != a && x != b).unwrap();
            let t = tris[i];
            if incircle(&p.pts[t[0]], &p.pts[t[1]], &p.pts[t[2]], &p.pts[d]) > 0 {
                return Some(("delaunay", format!("point {d} is inside the circle of {t:?} across the free edge {a}-{b}")));
            }
        }
    }
    None
}

fn canonical(out: &[usize]) -> BTreeSet<[usize; 3]> {
    out.chunks(3)
        .map(|t| {
            let k = (0..3).min_by_key(|&k| t[k]).unwrap();
            [t[k], t[(k + 1) % 3], t[(k + 2) % 3]]
        })
        .collect()
}

// ------------------------------------------------------------------ generation

fn gen_points2(rng: &mut Rng, n: usize) -> (String, Vec<P2>) {
    let kind = *rng.pick(&["uniform", "grid", "tiny", "circle", "lines", "clusters", "column", "near", "convex"]);
    let r = match kind {
        "tiny" => rng.range(1, 4),
        "grid" => rng.range(3, 9),
        _ => *rng.pick(&[20i64, 200, 5000, 1 << 20, 1 << 25]),
    };
    let cc: Vec<P2> = {
        let s = *rng.pick(&[25i64, 65, 325, 1105, 5525]);
        let mut v = vec![];
        for x in 0..=s {
            let y = ((s * s - x * x) as f64).sqrt().round() as i64;
            if x * x + y * y == s * s {
                for (p, q) in [(x, y), (-x, y), (x, -y), (-x, -y)] {
                    v.push([p, q]);
                }
            }
        }
        v
    };
    let (ox, oy) = (rng.range(-r, r), rng.range(-r, r));
    let lines: Vec<[i64; 4]> = (0..rng.range(1, 3)).map(|_| [rng.range(-r, r), rng.range(-r, r), rng.range(-5, 5), rng.range(-5, 5)]).collect();
    let centers: Vec<P2> = (0..rng.range(1, 3)).map(|_| [rng.range(-r, r), rng.range(-r, r)]).collect();
    let mut seen = BTreeSet::new();
    let mut out = vec![];
    let mut tries = 0;
    while out.len() < n && tries < 30 * n {
        tries += 1;
        let p: P2 = match kind {
            "circle" => {
                if rng.chance(1, 5) {
                    [rng.range(-6, 6), rng.range(-6, 6)]
                } else {
                    *rng.pick(&cc)
                }
            }
            "lines" => {
                if rng.chance(1, 6) {
                    [rng.range(-r, r), rng.range(-r, r)]
                } else {
                    let l = *rng.pick(&lines);
                    let k = rng.range(-12, 12);
                    [l[0] + k * l[2], l[1] + k * l[3]]
                }
            }
            "clusters" => {
                let c = *rng.pick(&centers);
                let s = *rng.pick(&[2i64, 30]);
                [c[0] + rng.range(-s, s), c[1] + rng.range(-s, s)]
            }
            "column" => [rng.range(0, 2) * r, rng.range(-r, r)],
            "near" => {
                // close to one long line
                let k = rng.range(-(1 << 20), 1 << 20);
                [k * 3 + rng.range(-1, 1), k * 7 + rng.range(-1, 1)]
            }
            "convex" => {
                let k = rng.range(-40, 40);
                [k, k * k]
            }
            _ => [ox + rng.range(-r, r), oy + rng.range(-r, r)],
        };
        if seen.insert(p) {
            out.push(p);
        }
    }
    (kind.to_string(), out)
}

/// directed segments bounding a random set of triangles of a random triangulation
fn gen_region(rng: &mut Rng, pts: &[P2]) -> Vec<Dir> {
    let order = if rng.chance(1, 3) { None } else { Some(rng.next()) };
    let Some(tris) = greedy(pts, &BTreeSet::new(), order) else { return vec![] };
    if tris.is_empty() {
        return vec![];
    }
    let mut sel = vec![false; tris.len()];
    if rng.chance(1, 2) {
        // grow one connected patch
        let mut owner: HashMap<Dir, usize> = HashMap::new();
        for (i, t) in tris.iter().enumerate() {
            for j in 0..3 {
                owner.insert((t[j], t[(j + 1) % 3]), i);
            }
        }
        let mut fr = vec![rng.us(tris.len())];
        let goal = rng.range(1, tris.len() as i64) as usize;
        let mut k = 0;
        while k < goal && !fr.is_empty() {
            let i = fr.swap_remove(rng.us(fr.len()));
            if sel[i] {
                continue;
            }
            sel[i] = true;
            k += 1;
            for j in 0..3 {
                if let Some(&o) = owner.get(&(tris[i][(j + 1) % 3], tris[i][j])) {
                    fr.push(o);
                }
            }
        }
    } else {
        let den = rng.range(2, 6) as u64;
        for s in sel.iter_mut() {
            *s = !rng.chance(1, den);
        }
    }
    let chosen: Vec<[usize; 3]> = (0..tris.len()).filter(|&i| sel[i]).map(|i| tris[i]).collect();
    let mut dir: Vec<Dir> = net(&chosen).into_iter().map(|((a, b), v)| if v > 0 { (a, b) } else { (b, a) }).collect();
    // constraints may also separate two selected parts only by way of unselected ones; merge
    // straight runs so that points come to lie on segments
    if rng.chance(2, 3) {
        loop {
            let mut hit = None;
            'f: for i in 0..dir.len() {
                for j in 0..dir.len() {
                    if i != j && dir[i].1 == dir[j].0 && dir[i].0 != dir[j].1 && between(&pts[dir[i].0], &pts[dir[j].1], &pts[dir[i].1]) && rng.chance(9, 10) {
                        hit = Some((i, j));
                        break 'f;
                    }
                }
            }
            match hit {
                Some((i, j)) => {
                    dir[i].1 = dir[j].1;
                    dir.remove(j);
                }
                None => break,
            }
        }
    }
    dir
}

/// open chains: edges of a random triangulation with random direction, some merged through points
fn gen_open(rng: &mut Rng, pts: &[P2]) -> Vec<Dir> {
    let n = pts.len();
    let mut out: Vec<Dir> = vec![];
    let hull = rng.chance(1, 2);
    for _ in 0..rng.range(1, 4) {
        let (a, b) = if hull {
            // from an extreme point to another
            let d = [rng.range(-9, 9), rng.range(-9, 9)];
            let key = |i: &usize| (pts[*i][0] as i128 * d[0] as i128 + pts[*i][1] as i128 * d[1] as i128, pts[*i]);
            ((0..n).min_by_key(key).unwrap(), (0..n).max_by_key(key).unwrap())
        } else {
            (rng.us(n), rng.us(n))
        };
        if a == b {
            continue;
        }
        let mut t = out.clone();
        t.push((a, b));
        let ps = cut_segments(pts, &t);
        let v: Vec<Dir> = ps.iter().copied().collect();
        let bad = v.iter().any(|&(x, y)| ps.contains(&(y, x))) || (0..v.len()).any(|i| (0..i).any(|j| crosses(pts, v[i], v[j])));
        if !bad {
            out = t;
        }
    }
    out
}

pub fn gen_problem(rng: &mut Rng, thorough: bool) -> (String, Vec<P2>, Vec<Dir>) {
    let big = rng.chance(1, 10);
    let n = if big { rng.range(60, if thorough { 1500 } else { 500 }) } else if rng.chance(1, 3) { rng.range(0, 9) } else { rng.range(6, if thorough { 60 } else { 36 }) } as usize;
    let (kind, mut pts) = gen_points2(rng, n);
    if pts.len() > 50 && !(big || thorough) {
        pts.truncate(50);
    }
    let mut how = "free";
    let mut segs = vec![];
    if pts.len() <= 60 && pts.len() >= 3 && !rng.chance(1, 5) {
        if rng.chance(1, 4) {
            how = "open";
            segs = gen_open(rng, &pts);
        } else {
            how = "region";
            segs = gen_region(rng, &pts);
            if rng.chance(1, 3) {
                // only the points of the outline
                let used: BTreeSet<usize> = segs.iter().flat_map(|&(a, b)| [a, b]).collect();
                let keep: Vec<usize> = (0..pts.len()).filter(|i| used.contains(i)).collect();
                let m: HashMap<usize, usize> = keep.iter().enumerate().map(|(k, &i)| (i, k)).collect();
                segs = segs.iter().map(|&(a, b)| (m[&a], m[&b])).collect();
                pts = keep.iter().map(|&i| pts[i]).collect();
            }
        }
        if rng.chance(1, 6) && !segs.is_empty() {
            let s = *rng.pick(&segs);
            segs.push(s);
        }
        rng.shuffle(&mut segs);
    }
    (format!("{how}-{kind}"), pts, segs)
}

/// Thousands of points in a shape for which the answer is known by construction: the boundary of
/// what is kept is exactly the segments given.
pub fn big(c: &Case) -> Option<(Problem, Expect)> {
    let mut rng = Rng::new(c.p("seed") as u64);
    let n = c.p("n").clamp(9, 80_000);
    let mut p = Problem::default();
    let mut used = BTreeSet::new();
    match c.p("shape").rem_euclid(3) {
        0 => {
            // some cells of a skew grid; straight runs of the outline are single segments
            let w = ((n as f64).sqrt() as i64 * rng.range(1, 6) / 3).clamp(2, n / 2);
            let h = (n / w).max(2);
            let m = loop {
                let m: [i64; 4] = std::array::from_fn(|_| rng.range(-40, 40));
                if m[0] * m[3] - m[1] * m[2] > 0 {
                    break m;
                }
            };
            let loose = rng.chance(1, 3);
            let at = |i: i64, j: i64| (j * (w + 1) + i) as usize;
            for j in 0..=h {
                for i in 0..=w {
                    let inner = i > 0 && j > 0 && i < w && j < h;
                    let d = if loose && inner { [rng.range(-6, 6), rng.range(-6, 6)] } else { [0, 0] };
                    let (x, y) = (20 * i + d[0], 20 * j + d[1]);
                    p.pts.push([m[0] * x + m[1] * y, m[2] * x + m[3] * y]);
                }
            }
            let den = rng.range(2, 9) as u64;
            let some = rng.chance(1, 2);
            let sel: Vec<bool> = (0..w * h).map(|_| rng.chance(1, den) == some).collect();
            let is = |i: i64, j: i64| i >= 0 && j >= 0 && i < w && j < h && sel[(j * w + i) as usize];
            if !sel.iter().any(|&x| x) {
                return None;
            }
            // the outline, by lines of the grid
            let mut run: Option<(usize, usize)> = None;
            let flush = |run: &mut Option<(usize, usize)>, p: &mut Problem| {
                if let Some(r) = run.take() {
                    p.segs.push(r);
                }
            };
            let merge = !loose && rng.chance(2, 3);
            for j in 0..=h {
                for i in 0..w {
                    let (up, dn) = (is(i, j), is(i, j - 1));
                    let (a, b) = if up { (at(i, j), at(i + 1, j)) } else { (at(i + 1, j), at(i, j)) };
                    if up == dn {
                        flush(&mut run, &mut p);
                        continue;
                    }
                    p.pieces.insert((a, b));
                    run = match run {
                        Some((s, t)) if merge && up && t == a && rng.chance(9, 10) => Some((s, b)),
                        Some((s, t)) if merge && !up && s == b && rng.chance(9, 10) => Some((a, t)),
                        _ => {
                            flush(&mut run, &mut p);
                            Some((a, b))
                        }
                    };
                }
                flush(&mut run, &mut p);
            }
            for i in 0..=w {
                for j in 0..h {
                    let (rt, lf) = (is(i, j), is(i - 1, j));
                    let (a, b) = if lf { (at(i, j), at(i, j + 1)) } else { (at(i, j + 1), at(i, j)) };
                    if rt == lf {
                        flush(&mut run, &mut p);
                        continue;
                    }
                    p.pieces.insert((a, b));
                    run = match run {
                        Some((s, t)) if merge && lf && t == a && rng.chance(9, 10) => Some((s, b)),
                        Some((s, t)) if merge && !lf && s == b && rng.chance(9, 10) => Some((a, t)),
                        _ => {
                            flush(&mut run, &mut p);
                            Some((a, b))
                        }
                    };
                }
                flush(&mut run, &mut p);
            }
            for j in 0..h {
                for i in 0..w {
                    if is(i, j) {
                        used.extend([at(i, j), at(i + 1, j), at(i + 1, j + 1), at(i, j + 1)]);
                    }
                }
            }
        }
        1 => {
            // a rectangle with long thin holes that cut through a cloud of points
            let r = 1i64 << rng.range(12, 24);
            p.pts.extend([[-r, -r], [r, -r], [r, r], [-r, r]]);
            p.segs.extend([(0, 1), (1, 2), (2, 3), (3, 0)]);
            let k = rng.range(1, 4);
            for i in 0..k {
                // strips of the rectangle keep them apart
                let (lo, hi) = (-r + 2 * r * i / k + 4, -r + 2 * r * (i + 1) / k - 4);
                let y: [i64; 2] = [rng.range(lo, hi), rng.range(lo, hi)];
                let b = p.pts.len();
                let (x0, x1) = (-r + rng.range(1, r / 4), r - rng.range(1, r / 4));
                p.pts.push([x0, y[0]]);
                p.pts.push([x1, y[1]]);
                // the third corner next to the second
                let z = if y[1] + 1 <= hi { y[1] + 1 } else { y[1] - 1 };
                p.pts.push([x1 - rng.range(0, 3), z]);
                let t = if orient2(&p.pts[b], &p.pts[b + 1], &p.pts[b + 2]) > 0 { [b, b + 2, b + 1] } else { [b, b + 1, b + 2] };
                if orient2(&p.pts[t[0]], &p.pts[t[1]], &p.pts[t[2]]) == 0 {
                    return None;
                }
                p.segs.extend([(t[0], t[1]), (t[1], t[2]), (t[2], t[0])]);
            }
            let holes: Vec<[usize; 3]> = (0..k as usize).map(|i| [p.segs[4 + 3 * i].0, p.segs[5 + 3 * i].0, p.segs[6 + 3 * i].0]).collect();
            let mut seen: BTreeSet<P2> = p.pts.iter().copied().collect();
            let narrow = rng.chance(1, 2);
            for _ in 0..n.min(6000) {
                let q = if narrow {
                    // along the first hole
                    let (a, b) = (p.pts[holes[0][0]], p.pts[holes[0][1]]);
                    let t = rng.range(0, 1000);
                    [a[0] + (b[0] - a[0]) * t / 1000 + rng.range(-9, 9), a[1] + (b[1] - a[1]) * t / 1000 + rng.range(-9, 9)]
                } else {
                    [rng.range(-r + 1, r - 1), rng.range(-r + 1, r - 1)]
                };
                if q[0].abs() >= r || q[1].abs() >= r {
                    continue;
                }
                let out = |t: &[usize; 3]| (0..3).any(|j| orient2(&p.pts[t[j]], &p.pts[t[(j + 1) % 3]], &q) > 0);
                if holes.iter().all(out) && seen.insert(q) {
                    p.pts.push(q);
                }
            }
            p.pieces = p.segs.iter().copied().collect();
            used = (0..p.pts.len()).collect();
        }
        _ => {
            // points alone
            let mut seen = BTreeSet::new();
            while p.pts.len() < n as usize {
                let q = [rng.range(-1 << 26, 1 << 26), rng.range(-1 << 26, 1 << 26)];
                if seen.insert(q) {
                    p.pts.push(q);
                }
            }
            let e = expect(&p)?;
            return Some((p, e));
        }
    }
    if p.pts.iter().flatten().any(|x| x.abs() > 1 << 27) {
        return None;
    }
    rng.shuffle(&mut p.segs);
    let mut chain = BTreeMap::new();
    let mut kept = BTreeSet::new();
    for &(a, b) in &p.pieces {
        chain.insert((a.min(b), a.max(b)), if a < b { 1 } else { -1 });
        kept.insert(und(a, b));
    }
    Some((p, Expect { options: vec![(chain, used, kept)], regions: 1, dropped: 0 }))
}

fn gen_big(rng: &mut Rng, c: &mut Case) {
    c.kind = "big".into();
    c.set("shape", rng.range(0, 2));
    let huge = rng.chance(1, 60);
    c.set("n", if huge { rng.range(22_000, 70_000) } else { rng.range(100, 4000) });
    c.set("seed", rng.range(0, 1 << 40));
}

fn problem(c: &Case) -> Option<Problem> {
    let mut p = Problem::default();
    let mut ix: HashMap<P2, usize> = HashMap::new();
    let lim = 1i64 << 27;
    let mut id = |q: P2, pts: &mut Vec<P2>| {
        let k = pts.len();
        *ix.entry(q).or_insert_with(|| {
            pts.push(q);
            k
        })
    };
    for r in &c.items {
        if r.iter().skip(1).any(|&x| x.abs() > lim) {
            return None;
        }
        if r.len() >= 3 && r[0] == 0 {
            id([r[1], r[2]], &mut p.pts);
        }
    }
    for r in &c.items {
        if r.len() >= 5 && r[0] == 1 {
            let a = id([r[1], r[2]], &mut p.pts);
            let b = id([r[3], r[4]], &mut p.pts);
            p.segs.push((a, b));
        }
    }
    if p.pts.len() > 4000 {
        return None;
    }
    p.pieces = cut_segments(&p.pts, &p.segs);
    Some(p)
}

pub struct Planar;
impl Prop for Planar {
    fn id(&self) -> &'static str {
        "C02"
    }
    fn plan(&self, thorough: bool) -> (u64, u64) {
        if thorough {
            (2000, 400)
        } else {
            (240, 900)
        }
    }
    fn gen(&self, rng: &mut Rng, thorough: bool) -> Case {
        let mut c = Case { prop: self.id().into(), ..Default::default() };
        let (pts, segs) = if rng.chance(1, 100) {
            gen_big(rng, &mut c);
            (vec![], vec![])
        } else {
            let (kind, pts, segs) = gen_problem(rng, thorough);
            c.kind = kind;
            (pts, segs)
        };
        c.set("exp", *rng.pick(&[0, 0, -3, -30, 20]));
        for p in &pts {
            c.items.push(vec![0, p[0], p[1]]);
        }
        for &(a, b) in &segs {
            c.items.push(vec![1, pts[a][0], pts[a][1], pts[b][0], pts[b][1]]);
        }
        for k in 0..2 {
            let mut f = gen_sched(rng);
            f.push(if k == 0 { rng.range(0, 2) } else { 2 });
            f.push(rng.range(0, 2));
            f.push(if rng.chance(1, 3) { rng.range(1, 60) } else { 0 });
            c.faults.push(f);
        }
        c
    }
    fn run(&self, c: &Case) -> Verdict {
        let mut v = Verdict::new();
        let both = if c.kind == "big" { big(c) } else { problem(c).and_then(|p| expect(&p).map(|e| (p, e))) };
        let Some((p, e)) = both else {
            v.stat("out_of_domain", 1);
            return v;
        };
        let exp = c.p("exp").clamp(-40, 40);
        let flat: Vec<f64> = p.pts.iter().flatten().map(|&x| scale(x, exp)).collect();
        let segs: Vec<usize> = p.segs.iter().flat_map(|&(a, b)| [a, b]).collect();
        let budget = 20_000 + 3_000 * (p.pts.len() as u64 + 2) * (p.segs.len() as u64 + 4);
        let mut first: Option<BTreeSet<[usize; 3]>> = None;
        let mut h = 0;
        for f in &c.faults {
            let cfg = sched_cfg(f, budget);
            let g = |k: usize| f.get(k).copied().unwrap_or(0);
            let (r, tel) = simulate(&cfg, || -> (Result<Vec<usize>, ()>, Option<String>, bool) {
                let arena = SimArena::new(ArenaCfg { dirty: g(2) as u64, reuse: g(5).clamp(0, 2) as u8, move_grow: g(3) & 2 != 0, poison: g(3) & 1 != 0, fail_at: 0 });
                let mut oom = false;
                if g(6) > 0 && g(4) == 2 {
                    arena.set_fail_at(g(6) as u64);
                    oom = crate::seams::caught(|| {
                        let _ = gpf::triangle::triangulate(&flat, &segs, &arena);
                    })
                    .is_err();
                    arena.set_fail_at(0);
                }
                let out = match g(4) {
                    0 => gpf::triangle::triangulate(&flat, &segs, Global).to_vec(),
                    1 => {
                        let b = bumpalo::Bump::new();
                        let r = gpf::triangle::triangulate(&flat, &segs, &b).to_vec();
                        r
                    }
                    _ => gpf::triangle::triangulate(&flat, &segs, &arena).to_vec(),
                };
                (Ok(out), arena.tel().corrupt, oom)
            });
            v.telemetry(&tel);
            v.stat("schedules", 1);
            match r {
                Ok((Ok(out), corrupt, oom)) => {
                    if oom {
                        v.stat("fault.alloc_fail", 1);
                    }
                    if let Some(x) = corrupt {
                        v.fail("memory", x);
                        return v;
                    }
                    if let Some((cl, d)) = judge(&p, &e, &out) {
                        v.fail(cl, d);
                        return v;
                    }
                    v.stat("triangles", out.len() as u64 / 3);
                    let can = canonical(&out);
                    for t in &can {
                        h = mix(h, mix(t[0] as u64, mix(t[1] as u64, t[2] as u64)));
                        v.log(h);
                    }
                    match &first {
                        None => first = Some(can),
                        Some(x) => {
                            if *x != can {
                                v.fail("schedule", "the triangles depend on the allocator");
                                return v;
                            }
                        }
                    }
                }
                Ok((Err(()), ..)) => {}
                Err(Fail::Budget) => {
                    v.fail("no-progress", "step budget exceeded");
                    return v;
                }
                Err(x) => {
                    v.fail("panic", format!("{x:?}"));
                    return v;
                }
            }
        }
        v.mark(c.digest());
        if c.kind == "big" {
            v.stat("probe.large_planes", 1);
            if p.pts.len() > 22_000 {
                v.stat("probe.huge_planes", 1);
            }
        }
        v.stat("regions_dropped", e.dropped as u64);
        v.stat("segment_pieces", p.pieces.len() as u64);
        v.nontrivial = first.is_some_and(|f| f.len() > 1) || e.regions > 0;
        v
    }
    fn rule(&self) -> &'static str {
        "distinct (points, segments, allocators) where the plane was divided into at least one region"
    }
    fn shape_measure(&self) -> &'static str {
        "(points, segments, schedules) by hash"
    }
    fn real(&self) -> &'static [&'static str] {
        &["gpf::triangle::triangulate", "gpf::predicates (orient2d, incircle)", "bumpalo"]
    }
    fn stubbed(&self) -> &'static [&'static str] {
        &["the allocator: global and the one the caller passes (dirty, moving, poisoning, bands, failing)"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["points are distinct", "segments do not cross except at given points and none is given in both directions", "a region that segments border from both sides may be kept or removed as a whole"]
    }
}

// ------------------------------------------------------------------ C03

struct Face {
    p: Problem,
    e: Expect,
    segs: Vec<usize>,
    axes: Vec<f64>,
    /// index in the shared list of each local point
    glob: Vec<usize>,
}

/// each face: an origin, two integer directions, a region; items are grouped by face number
/// [face, 0, ox,oy,oz, ux,uy,uz, wx,wy,wz] and [face, 1, x1,y1, x2,y2]
fn faces(c: &Case) -> Option<(Vec<f64>, Vec<Face>)> {
    let exp = c.p("exp").clamp(-30, 30);
    let mut by: BTreeMap<i64, (Option<[i64; 9]>, Vec<[i64; 4]>)> = BTreeMap::new();
    for r in &c.items {
        if r.len() >= 11 && r[1] == 0 {
            let mut a = [0; 9];
            a.copy_from_slice(&r[2..11]);
            if a.iter().any(|x| x.abs() > 1 << 12) {
                return None;
            }
            by.entry(r[0]).or_default().0 = Some(a);
        } else if r.len() >= 6 && r[1] == 1 {
            if r[2..6].iter().any(|x| x.abs() > 1 << 10) {
                return None;
            }
            by.entry(r[0]).or_default().1.push([r[2], r[3], r[4], r[5]]);
        }
    }
    if c.kind == "huge" {
        // so many faces that their numbers, and those of their points, leave 16 bits
        let mut rng = Rng::new(c.p("seed") as u64);
        for k in 0..c.p("n").clamp(1, 80_000) {
            let (a, b) = (rng.range(1, 9), rng.range(1, 9));
            let o = [k % 300, k / 300, rng.range(-9, 9)];
            let ax = *rng.pick(&[[1i64, 0, 0, 0, 1, 0], [0, 0, 1, 1, 0, 0], [1, 2, 2, 2, 1, -2]]);
            let e = by.entry(k).or_default();
            e.0 = Some([o[0], o[1], o[2], ax[0], ax[1], ax[2], ax[3], ax[4], ax[5]]);
            e.1 = match rng.below(4) {
                0 => vec![],
                1 => vec![[0, 0, a, 0], [a, 0, a, b], [a, b, 0, b], [0, b, 0, 0]],
                _ => vec![[0, 0, a, 0], [a, 0, 0, b], [0, b, 0, 0]],
            };
        }
    }
    let mut pool: Vec<P3> = vec![];
    let mut pix: HashMap<P3, usize> = HashMap::new();
    let share = c.p("share") != 0;
    let mut out = vec![];
    for (_, (ax, segs)) in by {
        let Some(a) = ax else { continue };
        let (o, x, y) = ([a[0], a[1], a[2]], [a[3], a[4], a[5]], [a[6], a[7], a[8]]);
        // the axes handed over must span the plane: points are o + s x' + t y' with x', y' the given
        // (integer) directions; projections onto them are exact integers
        let place = |s: i64, t: i64| -> P3 { [o[0] + s * x[0] + t * y[0], o[1] + s * x[1] + t * y[1], o[2] + s * x[2] + t * y[2]] };
        let dot = |p: &P3, q: &P3| p[0] * q[0] + p[1] * q[1] + p[2] * q[2];
        if dot(&x, &x) * dot(&y, &y) - dot(&x, &y) * dot(&x, &y) <= 0 {
            continue;
        }
        let mut p = Problem::default();
        let mut glob: Vec<usize> = vec![];
        let mut loc: HashMap<usize, usize> = HashMap::new();
        let mut fs = vec![];
        for s in &segs {
            for k in 0..2 {
                let q = place(s[2 * k], s[2 * k + 1]);
                let g = if share {
                    *pix.entry(q).or_insert_with(|| {
                        pool.push(q);
                        pool.len() - 1
                    })
                } else {
                    match glob.iter().find(|&&g: &&usize| pool[g] == q) {
                        Some(&g) => g,
                        None => {
                            pool.push(q);
                            pool.len() - 1
                        }
                    }
                };
                let l = *loc.entry(g).or_insert_with(|| {
                    let d = [q[0] - o[0], q[1] - o[1], q[2] - o[2]];
                    p.pts.push([dot(&d, &x), dot(&d, &y)]);
                    glob.push(g);
                    glob.len() - 1
                });
                fs.push((l, g));
            }
        }
        if p.pts.iter().flatten().any(|v| v.abs() > 1 << 27) {
            return None;
        }
        p.segs = fs.chunks(2).map(|s| (s[0].0, s[1].0)).collect();
        p.pieces = cut_segments(&p.pts, &p.segs);
        let e = expect(&p)?;
        let f = |v: &[i64], k: i64| v.iter().map(|&x| scale(x, k)).collect::<Vec<f64>>();
        let mut axes = f(&o, exp);
        axes.extend(f(&x, 0));
        axes.extend(f(&y, 0));
        out.push(Face { p, e, segs: fs.iter().map(|s| s.1).collect(), axes, glob });
    }
    Some((pool.iter().flatten().map(|&v| scale(v, exp)).collect(), out))
}

impl Face {
    fn judge(&self, tris: &[usize]) -> Option<(&'static str, String)> {
        let m: HashMap<usize, usize> = self.glob.iter().enumerate().map(|(l, &g)| (g, l)).collect();
        let mut t = vec![];
        for g in tris {
            match m.get(g) {
                Some(&l) => t.push(l),
                None => return Some(("index", format!("point {g} does not belong to the face"))),
            }
        }
        judge(&self.p, &self.e, &t)
    }
}

pub struct Soup;
impl Prop for Soup {
    fn id(&self) -> &'static str {
        "C03"
    }
    fn plan(&self, thorough: bool) -> (u64, u64) {
        if thorough {
            (2000, 200)
        } else {
            (240, 700)
        }
    }
    fn gen(&self, rng: &mut Rng, thorough: bool) -> Case {
        let mut c = Case { prop: self.id().into(), kind: "soup".into(), ..Default::default() };
        c.set("exp", *rng.pick(&[0, 0, -4, -20, 10]));
        c.set("share", rng.range(0, 1));
        if rng.chance(1, 6000) {
            c.kind = "huge".into();
            c.set("n", rng.range(500, 80_000));
            c.set("seed", rng.range(0, 1 << 40));
            let mut f = gen_sched(rng);
            f.extend([rng.range(0, 2), rng.range(0, 1 << 30), 0]);
            c.faults.push(f);
            return c;
        }
        let nf = if rng.chance(1, 400) { rng.range(30, 300) } else if rng.chance(1, 5) { 1 } else { rng.range(2, if thorough { 14 } else { 7 }) };
        let flip = rng.range(-3, 3);
        for k in 0..nf {
            let o = [rng.range(-40, 40), rng.range(-40, 40), rng.range(-40, 40)];
            let (x, y): (P3, P3) = match rng.range(0, 3) {
                0 => ([1, 0, 0], [0, 1, 0]),
                1 => ([0, 0, 1], [1, 0, 0]),
                2 => ([1, 2, 2], [2, 1, -2]),
                _ => ([rng.range(-3, 3), rng.range(-3, 3), rng.range(-3, 3)], [rng.range(-3, 3), rng.range(-3, 3), rng.range(-3, 3)]),
            };
            let n = rng.range(3, if thorough { 40 } else { 18 }) as usize;
            let r = *rng.pick(&[2i64, 5, 30, 500]);
            let mut s = BTreeSet::new();
            let mut pts = vec![];
            for _ in 0..4 * n {
                let p: P2 = [rng.range(-r, r), rng.range(-r, r)];
                if pts.len() < n && s.insert(p) {
                    pts.push(p);
                }
            }
            let mut segs = if rng.chance(1, 8) { vec![] } else { gen_region(rng, &pts) };
            // now and then a face without edges
            if segs.is_empty() && !rng.chance(1, 8) {
                // a lone triangle, or open segments
                segs = if pts.len() >= 3 && rng.chance(2, 3) { vec![(0, 1), (1, 2), (2, 0)] } else { gen_open(rng, &pts) };
            }
            let mut row = vec![k, 0];
            row.extend(o);
            row.extend(x);
            row.extend(y);
            c.items.push(row);
            // orientation of a triangle generated blindly
            if segs.len() == 3 && orient2(&pts[segs[0].0], &pts[segs[1].0], &pts[segs[2].0]) < 0 {
                segs = vec![(segs[0].1, segs[0].0), (segs[2].1, segs[2].0), (segs[1].1, segs[1].0)];
            }
            if flip != 0 {
                let m = rng.us(segs.len().max(1));
                let l = segs.len();
                segs.rotate_left(m.min(l));
            } else {
                rng.shuffle(&mut segs);
            }
            for (a, b) in segs {
                c.items.push(vec![k, 1, pts[a][0], pts[a][1], pts[b][0], pts[b][1]]);
            }
        }
        for _ in 0..2 {
            let mut f = gen_sched(rng);
            f.push(rng.range(0, 2));
            f.push(rng.range(0, 1 << 30));
            f.push(if rng.chance(1, 3) { rng.range(1, 1 << 30) } else { 0 });
            c.faults.push(f);
        }
        c
    }
    fn run(&self, c: &Case) -> Verdict {
        let mut v = Verdict::new();
        let Some((points, fs)) = faces(c) else {
            v.stat("out_of_domain", 1);
            return v;
        };
        let np = points.len() / 3;
        let steps: u64 = 3 * fs.iter().map(|f| (f.p.pts.len() as u64 + 2) * (f.p.segs.len() as u64 + 4)).sum::<u64>();
        let mut firsts: Vec<Option<BTreeSet<[usize; 3]>>> = vec![None; fs.len()];
        for f in &c.faults {
            let cfg = sched_cfg(f, 20_000 + 6_000 * steps);
            let g = |k: usize| f.get(k).copied().unwrap_or(0);
            let mut order: Vec<usize> = (0..fs.len()).collect();
            Rng::new(g(5) as u64).shuffle(&mut order);
            if g(6) != 0 && !order.is_empty() {
                // faces listed more than once: in a row, and again later
                let mut q = Rng::new(g(6) as u64);
                order = order.iter().flat_map(|&k| vec![k; 1 + q.us(6) / 3 + q.us(6) / 5]).collect();
                for _ in 0..q.us(3) {
                    let k = *q.pick(&order);
                    let at = q.us(order.len() + 1);
                    order.insert(at, k);
                }
                v.stat("faces_listed_again", (order.len() - fs.len()) as u64);
            }
            let (r, tel) = simulate(&cfg, || {
                // all at once
                let edges: Vec<Vec<usize>> = order.iter().map(|&k| fs[k].segs.clone()).collect();
                let axes: Vec<f64> = order.iter().flat_map(|&k| fs[k].axes.clone()).collect();
                let (t, pa) = gpf::triangle::triangulate_polygon_soup(&points, &edges, &axes);
                // and each on its own
                let arena = SimArena::new(ArenaCfg { dirty: g(2) as u64, reuse: 2, move_grow: g(3) & 2 != 0, poison: g(3) & 1 != 0, fail_at: 0 });
                let bump = bumpalo::Bump::new();
                let alone: Vec<Vec<usize>> = fs
                    .iter()
                    .map(|x| {
                        let (o, a, b) = (&x.axes[0..3], &x.axes[3..6], &x.axes[6..9]);
                        match g(4) {
                            0 => gpf::triangle::triangulate_polygon(&points, &x.segs, o, a, b, Global).to_vec(),
                            1 => gpf::triangle::triangulate_polygon(&points, &x.segs, o, a, b, &bump).to_vec(),
                            _ => gpf::triangle::triangulate_polygon(&points, &x.segs, o, a, b, &arena).to_vec(),
                        }
                    })
                    .collect();
                (t, pa, alone, arena.tel().corrupt)
            });
            v.telemetry(&tel);
            v.stat("schedules", 1);
            let (t, pa, alone, corrupt) = match r {
                Ok(x) => x,
                Err(Fail::Budget) => {
                    v.fail("no-progress", "step budget exceeded");
                    return v;
                }
                Err(x) => {
                    v.fail("panic", format!("{x:?}"));
                    return v;
                }
            };
            if let Some(x) = corrupt {
                v.fail("memory", x);
                return v;
            }
            if t.len() != 3 * pa.len() {
                v.fail("parents", format!("{} triangle corners, {} parents", t.len(), pa.len()));
                return v;
            }
            if t.iter().any(|&x| x >= np) || pa.iter().any(|&x| x >= order.len()) {
                v.fail("index", "index out of range");
                return v;
            }
            let mut of_face: Vec<Vec<usize>> = vec![vec![]; order.len()];
            for (i, &q) in pa.iter().enumerate() {
                of_face[q].extend(&t[3 * i..3 * i + 3]);
            }
            for (k, &fi) in order.iter().enumerate() {
                for (w, tr) in [("in the soup", &of_face[k]), ("alone", &alone[fi])] {
                    if let Some((cl, d)) = fs[fi].judge(tr) {
                        v.fail(cl, format!("face {fi} {w}: {d}"));
                        return v;
                    }
                    let can = canonical(tr);
                    for x in &can {
                        v.log(mix(x[0] as u64, mix(x[1] as u64, x[2] as u64)));
                    }
                    match &firsts[fi] {
                        None => firsts[fi] = Some(can),
                        Some(o) => {
                            // the pieces of a region bordered from both sides and cocircular points
                            // leave no choice to the faces before it either
                            if *o != can {
                                v.fail("history", format!("face {fi} {w}: triangles differ from the first time"));
                                return v;
                            }
                        }
                    }
                }
                v.stat("faces", 1);
            }
        }
        v.mark(c.digest());
        v.nontrivial = fs.len() > 1;
        v
    }
    fn rule(&self) -> &'static str {
        "distinct soups of at least two faces"
    }
    fn shape_measure(&self) -> &'static str {
        "(faces, orders, schedules) by hash"
    }
    fn real(&self) -> &'static [&'static str] {
        &["gpf::triangle::triangulate_polygon, triangulate_polygon_soup", "gpf::predicates (orient2d, incircle)", "hashbrown", "bumpalo"]
    }
    fn stubbed(&self) -> &'static [&'static str] {
        &["OS entropy (hash keys), the global allocator and the one the caller passes"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["axes span the plane of the face and projections onto them are exact", "outlines as in C02"]
    }
}
