//! C15: merging of points that coincide within a tolerance, for every order of the points and every
//! allocator behaviour.
use super::geom::scale;
use super::tet::{gen_sched, sched_cfg};
use crate::case::{Case, Prop, Verdict};
use crate::rng::Rng;
use crate::seams::{simulate, Fail};
use std::collections::{BTreeMap, BTreeSet};

pub struct Dedup;

fn key(p: &[f64]) -> [u64; 3] {
    // -0.0 and 0.0 are one position
    [(p[0] + 0.0).to_bits(), (p[1] + 0.0).to_bits(), (p[2] + 0.0).to_bits()]
}

fn judge(pts: &[f64], eps: f64, out: &[f64], map: &[usize]) -> Option<(&'static str, String)> {
    let n = pts.len() / 3;
    if map.len() != n || out.len() % 3 != 0 {
        return Some(("shape", format!("{n} points, map of {}, {} coordinates", map.len(), out.len())));
    }
    let m = out.len() / 3;
    let mut used = vec![false; m];
    let mut same: BTreeMap<[u64; 3], usize> = BTreeMap::new();
    for i in 0..n {
        let j = map[i];
        if j >= m {
            return Some(("index", format!("point {i} maps to {j} of {m}")));
        }
        used[j] = true;
        for k in 0..3 {
            if (pts[3 * i + k] - out[3 * j + k]).abs() > eps {
                return Some(("moved", format!("point {i} ({:?}) became {:?}, tolerance {eps:e}", &pts[3 * i..3 * i + 3], &out[3 * j..3 * j + 3])));
            }
        }
        if eps > 0.0 && *same.entry(key(&pts[3 * i..])).or_insert(j) != j {
            return Some(("split", format!("equal points became different ones (point {i})")));
        }
    }
    if used.iter().any(|u| !u) {
        return Some(("unused", "a point of the result stands for none".into()));
    }
    if eps > 0.0 {
        let mut s = BTreeSet::new();
        for j in 0..m {
            if !s.insert(key(&out[3 * j..])) {
                return Some(("duplicate", format!("the result has {:?} twice", &out[3 * j..3 * j + 3])));
            }
        }
        // by first coordinate, so that only points next to each other are compared
        let mut by: Vec<usize> = (0..m).collect();
        by.sort_by(|&i, &j| out[3 * i].total_cmp(&out[3 * j]));
        for (a, &i) in by.iter().enumerate() {
            for &j in &by[a + 1..] {
                if !(out[3 * j] - out[3 * i] < eps * 0.24) {
                    break;
                }
                if (0..3).all(|k| (out[3 * i + k] - out[3 * j + k]).abs() < eps * 0.24) {
                    return Some(("too-close", format!("points {i} and {j} of the result are closer than a quarter of the tolerance")));
                }
            }
        }
    }
    None
}

impl Prop for Dedup {
    fn id(&self) -> &'static str {
        "C15"
    }
    fn plan(&self, thorough: bool) -> (u64, u64) {
        if thorough {
            (8000, 500)
        } else {
            (400, 500)
        }
    }
    fn gen(&self, rng: &mut Rng, _: bool) -> Case {
        let mut c = Case { prop: self.id().into(), kind: "points".into(), ..Default::default() };
        if rng.chance(1, 8000) {
            // so many points that indices leave 16 bits
            c.kind = "huge".into();
            c.set("exp", *rng.pick(&[-30i64, -21, -3]));
            c.set("dec", *rng.pick(&[6i64, 3, 1]));
            c.set("n", rng.range(40_000, 90_000));
            c.set("seed", rng.range(0, 1 << 40));
            let mut f = gen_sched(rng);
            f.push(rng.range(0, 1 << 30));
            c.faults.push(f);
            return c;
        }
        // coordinates in units of 2^exp; the tolerance is 10^-dec (or none)
        let exp = *rng.pick(&[-30i64, -25, -22, -21, -20, -14, -3, 0]);
        c.set("exp", exp);
        c.set("dec", *rng.pick(&[6i64, 6, 6, 3, 1, 9, 0, 99]));
        if rng.chance(1, 3) {
            // any other tolerance, from far below the spacing of the coordinates to above their size
            let b = match rng.range(0, 2) {
                0 => rng.range(-200, -1),
                1 => rng.range(exp - 4, exp + 14),
                _ => rng.range(-40, -1),
            };
            c.set("bin", b);
            c.set("mant", rng.range(0, 3));
        }
        let r = *rng.pick(&[1i64, 3, 20, 3000, 1 << 30]);
        let n = if rng.chance(1, 150) { rng.range(100, 1500) } else { rng.range(0, 40) };
        let mut pts: Vec<[i64; 3]> = vec![];
        for _ in 0..n {
            if !pts.is_empty() && rng.chance(1, 2) {
                let mut p = *rng.pick(&pts);
                if rng.chance(2, 3) {
                    let d = *rng.pick(&[1i64, 2, 600, 1 << 12]);
                    for x in &mut p {
                        if rng.chance(1, 2) {
                            *x += rng.range(-d, d);
                        }
                    }
                }
                pts.push(p);
            } else {
                pts.push([rng.range(-r, r), rng.range(-r, r), rng.range(-r, r)]);
            }
        }
        for p in pts {
            c.items.push(p.to_vec());
        }
        for _ in 0..2 {
            let mut f = gen_sched(rng);
            f.push(rng.range(0, 1 << 30));
            c.faults.push(f);
        }
        c
    }
    fn run(&self, c: &Case) -> Verdict {
        let mut v = Verdict::new();
        let e = c.p("exp").clamp(-40, 20);
        let mut pts: Vec<[f64; 3]> = c.items.iter().filter(|r| r.len() >= 3).map(|r| [scale(r[0], e), scale(r[1], e), scale(r[2], e)]).collect();
        if c.kind == "huge" {
            let mut rng = Rng::new(c.p("seed") as u64);
            for _ in 0..c.p("n").clamp(1, 100_000) {
                let p = if !pts.is_empty() && rng.chance(1, 3) {
                    *rng.pick(&pts)
                } else {
                    std::array::from_fn(|_| scale(rng.range(-(1 << 30), 1 << 30), e))
                };
                pts.push(p);
            }
            v.stat("probe.huge_lists", 1);
        }
        if c.items.iter().flatten().any(|x| x.abs() > 1 << 40) {
            v.stat("out_of_domain", 1);
            return v;
        }
        let eps = match c.p("dec") {
            _ if c.p("bin") != 0 => [1.0, 1.25, 1.5, 1.9990234375][c.p("mant").rem_euclid(4) as usize] * 2f64.powi(c.p("bin").clamp(-200, 60) as i32),
            99 => 0.0,
            d => 10f64.powi(-(d.clamp(0, 12) as i32)),
        };
        let mut first: Option<BTreeSet<[u64; 3]>> = None;
        let mut merged = false;
        for f in &c.faults {
            let mut order: Vec<usize> = (0..pts.len()).collect();
            Rng::new(f.get(4).copied().unwrap_or(0) as u64).shuffle(&mut order);
            let flat: Vec<f64> = order.iter().flat_map(|&i| pts[i]).collect();
            let (r, tel) = simulate(&sched_cfg(f, 20_000 + 200 * pts.len() as u64), || {
                let a = gpf::polygonlization::remove_duplicates(&flat, eps);
                let b = gpf::polygonlization::remove_duplicates(&a.0, eps);
                (a, b)
            });
            v.telemetry(&tel);
            v.stat("schedules", 1);
            match r {
                Ok((a, b)) => {
                    if let Some((cl, d)) = judge(&flat, eps, &a.0, &a.1).or_else(|| judge(&a.0, eps, &b.0, &b.1)) {
                        v.fail(cl, d);
                        return v;
                    }
                    let set = |x: &[f64]| x.chunks(3).map(key).collect::<BTreeSet<_>>();
                    let (sa, sb) = (set(&a.0), set(&b.0));
                    if sa != sb {
                        v.fail("not-settled", "merging again changes the points");
                        return v;
                    }
                    for k in &sa {
                        v.log(k[0] ^ k[1].rotate_left(20) ^ k[2].rotate_left(40));
                    }
                    merged |= a.0.len() < flat.len();
                    match &first {
                        None => first = Some(sa),
                        Some(x) if *x != sa => {
                            v.fail("order", "the points left depend on the order they are listed in");
                            return v;
                        }
                        _ => {}
                    }
                }
                Err(Fail::Budget) => {
                    v.fail("no-progress", "step budget exceeded");
                    return v;
                }
                Err(x) => {
                    v.fail("panic", format!("{x:?}"));
                    return v;
                }
            }
        }
        v.mark(c.digest());
        v.nontrivial = merged;
        v
    }
    fn rule(&self) -> &'static str {
        "distinct (points, tolerance, orders) where at least two points were merged"
    }
    fn shape_measure(&self) -> &'static str {
        "(points, tolerance, orders, schedules) by hash"
    }
    fn real(&self) -> &'static [&'static str] {
        &["gpf::polygonlization::remove_duplicates"]
    }
    fn stubbed(&self) -> &'static [&'static str] {
        &["the global allocator is the simulator's; the order of the points is drawn per schedule"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["finite coordinates"]
    }
}
