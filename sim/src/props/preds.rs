//! C04/C06: exact answers about implicitly defined points, for every history of earlier queries
//! (the points cache their coordinates lazily), every allocator and after failed allocations.
use super::geom::scale;
use crate::bigint::Big;
use crate::case::{Case, Prop, Verdict};
use crate::rng::Rng;
use crate::seams::{under, ArenaCfg, Fail, SimArena, SimCfg};
use gpf::predicates as gp;
use gpf::predicates::{ExplicitPoint3D, ImplicitPoint3D, ImplicitPointLPI, ImplicitPointTPI, Orientation, Point3D};
use std::alloc::{Allocator, Global};

type BV = [Big; 3];

/// exact homogeneous coordinates, denominator >= 0
#[derive(Clone)]
pub struct Hom {
    pub c: [Big; 3],
    pub d: Big,
}

fn bv(r: &[i64]) -> BV {
    [Big::from(r[0]), Big::from(r[1]), Big::from(r[2])]
}
fn sub(a: &BV, b: &BV) -> BV {
    std::array::from_fn(|i| a[i].clone() - b[i].clone())
}
fn cross(a: &BV, b: &BV) -> BV {
    std::array::from_fn(|i| {
        let (j, k) = ((i + 1) % 3, (i + 2) % 3);
        a[j].clone() * b[k].clone() - a[k].clone() * b[j].clone()
    })
}
fn dot(a: &BV, b: &BV) -> Big {
    a[0].clone() * b[0].clone() + a[1].clone() * b[1].clone() + a[2].clone() * b[2].clone()
}
fn norm(c: [Big; 3], d: Big) -> Hom {
    if d.sign() < 0 {
        Hom { c: c.map(|x| -x), d: -d }
    } else {
        Hom { c, d }
    }
}

pub fn exact(row: &[i64]) -> Option<Hom> {
    match row.first()? {
        0 if row.len() >= 4 => Some(Hom { c: bv(&row[1..]), d: Big::from(1i64) }),
        1 if row.len() >= 16 => {
            let v: Vec<BV> = (0..5).map(|i| bv(&row[1 + 3 * i..])).collect();
            let n = cross(&sub(&v[3], &v[2]), &sub(&v[4], &v[2]));
            let dir = sub(&v[1], &v[0]);
            let d = dot(&n, &dir);
            let t = dot(&n, &sub(&v[2], &v[0]));
            Some(norm(std::array::from_fn(|i| v[0][i].clone() * d.clone() + dir[i].clone() * t.clone()), d))
        }
        2 if row.len() >= 28 => {
            let v: Vec<BV> = (0..9).map(|i| bv(&row[1 + 3 * i..])).collect();
            let n: Vec<BV> =
                (0..3).map(|k| cross(&sub(&v[3 * k + 1], &v[3 * k]), &sub(&v[3 * k + 2], &v[3 * k]))).collect();
            let o: Vec<Big> = (0..3).map(|k| dot(&n[k], &v[3 * k])).collect();
            let (x, y, z) = (cross(&n[1], &n[2]), cross(&n[2], &n[0]), cross(&n[0], &n[1]));
            let d = dot(&n[0], &x);
            let c = std::array::from_fn(|i| {
                o[0].clone() * x[i].clone() + o[1].clone() * y[i].clone() + o[2].clone() * z[i].clone()
            });
            Some(norm(c, d))
        }
        _ => None,
    }
}

fn point(row: &[i64], e: i64) -> Point3D {
    let p = |i: usize| ExplicitPoint3D {
        data: [scale(row[1 + 3 * i], e), scale(row[2 + 3 * i], e), scale(row[3 + 3 * i], e)],
    };
    match row[0] {
        0 => Point3D::Explicit(p(0)),
        1 => Point3D::LPI(ImplicitPointLPI::new(p(0), p(1), p(2), p(3), p(4))),
        _ => Point3D::TPI(ImplicitPointTPI::new(p(0), p(1), p(2), p(3), p(4), p(5), p(6), p(7), p(8))),
    }
}

/// sign of a - b along an axis
fn cmp(a: &Hom, b: &Hom, ax: usize) -> i32 {
    (a.c[ax].clone() * b.d.clone() - b.c[ax].clone() * a.d.clone()).sign()
}
fn det3h(p: &[&Hom; 3], u: usize, w: usize) -> i32 {
    let m: [[Big; 3]; 3] = std::array::from_fn(|i| [p[i].c[u].clone(), p[i].c[w].clone(), p[i].d.clone()]);
    super::geom::det3(&m).sign()
}
fn det4h(p: &[&Hom; 4]) -> i32 {
    let m: [[Big; 4]; 4] =
        std::array::from_fn(|i| [p[i].c[0].clone(), p[i].c[1].clone(), p[i].c[2].clone(), p[i].d.clone()]);
    super::geom::det4(&m).sign()
}
fn collinear(a: &Hom, b: &Hom, c: &Hom) -> bool {
    (0..3).all(|x| det3h(&[a, b, c], x, (x + 1) % 3) == 0)
}

fn si(o: Orientation) -> Option<i32> {
    match o {
        Orientation::Positive => Some(1),
        Orientation::Negative => Some(-1),
        Orientation::Zero => Some(0),
        Orientation::Undefined => None,
    }
}

/// what one query saw
#[derive(PartialEq, Clone, Debug)]
enum Ans {
    Sign(Option<i32>),
    Bool(bool),
    Co([u64; 3]),
    Signs(Vec<Option<i32>>),
    /// an interval result, seen only through comparisons with values around its exact bounds
    Encl([bool; 4]),
    Parts(Vec<u64>),
    Exact(Big, i64),
}

fn raw(p: &Point3D) -> [f64; 3] {
    match p {
        Point3D::Explicit(e) => e.data,
        Point3D::LPI(l) => l.q.data,
        Point3D::TPI(t) => t.v2.data,
    }
}
/// two intervals, and the exact bounds of the operation on them: with coordinates of at most 24
/// bits sums and products are exact in double precision
fn intervals(p: &Point3D, r: &Point3D, ax: usize, sh: i64, op: i64) -> ([f64; 2], [f64; 2], [f64; 2]) {
    let (p, r) = (raw(p), raw(r));
    let mk = |u: f64, v: f64| [u.min(v), u.max(v)];
    let a = mk(p[ax], p[(ax + 1) % 3]);
    let b = if sh & 1 == 0 { mk(r[ax], r[(ax + 2) % 3]) } else { [r[ax]; 2] };
    let x = match op {
        0 => [a[0] + b[0], a[1] + b[1]],
        1 => [a[0] - b[1], a[1] - b[0]],
        _ => {
            let c = [a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1]];
            [c.iter().cloned().fold(f64::MAX, f64::min), c.iter().cloned().fold(f64::MIN, f64::max)]
        }
    };
    (a, b, x)
}

fn ask<A: Allocator + Copy>(p: &[Point3D], q: &[i64], a: A) -> Ans {
    let g = |k: usize| &p[q[k] as usize];
    let ax = q[5] as usize;
    match q[0] {
        0 => Ans::Sign(si(gp::orient3d::orient3d(g(1), g(2), g(3), g(4), a))),
        1 => Ans::Sign(si(gp::orient2d::orient2d_by_axis(g(1), g(2), g(3), ax, a))),
        2 => Ans::Sign(si(match ax {
            0 => gp::less_than_on_x(g(1), g(2), a),
            1 => gp::less_than_on_y(g(1), g(2), a),
            _ => gp::less_than_on_z(g(1), g(2), a),
        })),
        3 => Ans::Bool(gp::point_in_segment_general(g(1), g(2), g(3), a)),
        4 => {
            let mut d = [f64::NAN; 3];
            match g(1) {
                Point3D::Explicit(e) => d = e.data,
                Point3D::LPI(l) => l.to_explicit(&mut d),
                Point3D::TPI(t) => t.to_explicit(&mut d),
            }
            Ans::Co(d.map(|x| x.to_bits()))
        }
        7 => {
            let (a, b, x) = intervals(g(1), g(2), ax, q[3], q[4] % 3);
            let mk = |v: [f64; 2]| {
                if v[0] == v[1] {
                    gp::IntervalNumber::from(v[0])
                } else {
                    gp::IntervalNumber::new(v[0], v[1])
                }
            };
            let (a, b) = (mk(a), mk(b));
            let r = match q[4] % 3 {
                0 => &a + &b,
                1 => &a - &b,
                _ => &a * &b,
            };
            let f = |v: f64| gp::IntervalNumber::from(v);
            let w = (x[0].abs().max(x[1].abs())) * 1e-12 + 1e-300;
            // contains both exact bounds, and not much more
            Ans::Encl([
                !(&r - &f(x[0])).positive(),
                !(&r - &f(x[1])).negative(),
                (&r - &f(x[0] - w)).positive(),
                (&r - &f(x[1] + w)).negative(),
            ])
        }
        6 => {
            let mk = |v: f64| {
                let mut t = Vec::new_in(a);
                t.push(v);
                gp::ExpansionNum::from(t)
            };
            let (p, r) = (raw(g(1)), raw(g(2)));
            let (u, v, w) = (mk(p[ax]), mk(r[ax]), mk(p[(ax + 1) % 3]));
            let s = &u + &v;
            let d = &s - &w;
            let m = &d * &s;
            let t = &m * &m;
            let z = &t - &(&(&m * &w) * &s);
            Ans::Parts(z.iter().map(|x| x.to_bits()).collect())
        }
        _ => {
            // the three filters themselves
            fn look<P: ImplicitPoint3D, A: Allocator + Copy>(p: &P, a: A) -> Vec<Option<i32>> {
                let mut r = vec![None; 8];
                if let Some(s) = p.static_filter() {
                    r[3] = Some(if s.0.d > 0.0 { 1 } else if s.0.d < 0.0 { -1 } else { 0 });
                }
                if let Some(d) = p.dynamic_filter() {
                    for (i, v) in [&d.x, &d.y, &d.z, &d.d].into_iter().enumerate() {
                        if v.not_zero() {
                            r[4 + i] = match (v.positive(), v.negative()) {
                                (true, false) => Some(1),
                                (false, true) => Some(-1),
                                _ => Some(9),
                            };
                        }
                    }
                }
                if let Some(e) = p.exact(a) {
                    for (i, v) in [&e.x, &e.y, &e.z].into_iter().enumerate() {
                        let top = v.iter().rev().find(|x| **x != 0.0).copied().unwrap_or(0.0);
                        r[i] = Some(if top > 0.0 { 1 } else if top < 0.0 { -1 } else { 0 });
                    }
                }
                r
            }
            Ans::Signs(match g(1) {
                Point3D::Explicit(_) => vec![],
                Point3D::LPI(l) => look(l, a),
                Point3D::TPI(t) => look(t, a),
            })
        }
    }
}

/// (expected answer, human form); None = outside the property's domain
fn expect(h: &[Hom], q: &[i64], rows: &[&Vec<i64>], e: i64) -> Option<Ans> {
    let g = |k: usize| &h[q[k] as usize];
    let ax = q[5] as usize;
    let n = match q[0] {
        0 => 4,
        1 | 3 => 3,
        2 => 2,
        _ => 1,
    };
    let und = (1..=n).any(|k| g(k).d.is_zero());
    match q[0] {
        0 => Some(Ans::Sign(if und { None } else { Some(-det4h(&[g(1), g(2), g(3), g(4)])) })),
        1 => {
            let (u, w) = [(1, 2), (2, 0), (0, 1)][ax];
            Some(Ans::Sign(if und { None } else { Some(det3h(&[g(1), g(2), g(3)], u, w)) }))
        }
        2 => Some(Ans::Sign(if und { None } else { Some(cmp(g(1), g(2), ax)) })),
        3 => {
            if und || !collinear(g(1), g(2), g(3)) {
                return None;
            }
            let inside = (0..3).all(|x| {
                let (a, b) = (cmp(g(2), g(1), x), cmp(g(1), g(3), x));
                a * b >= 0
            });
            Some(Ans::Bool(inside))
        }
        4 => {
            if und {
                return None;
            }
            let k = 2f64.powi(e as i32);
            Some(Ans::Co(std::array::from_fn(|x| (g(1).c[x].ratio_f64(&g(1).d) * k).to_bits())))
        }
        7 => Some(Ans::Encl([true; 4])),
        6 => {
            let at = |k: usize| {
                let r = rows[q[k] as usize];
                let o = if r[0] == 0 { 1 } else { 4 };
                [Big::from(r[o]), Big::from(r[o + 1]), Big::from(r[o + 2])]
            };
            let (p, r) = (at(1), at(2));
            let (u, v, w) = (p[ax].clone(), r[ax].clone(), p[(ax + 1) % 3].clone());
            let s = u + v;
            let m = (s.clone() - w.clone()) * s.clone();
            Some(Ans::Exact(m.clone() * m.clone() - m * w * s, 4 * e))
        }
        _ => {
            if rows[q[1] as usize][0] == 0 {
                return None;
            }
            let p = g(1);
            let mut r: Vec<Option<i32>> = vec![];
            for x in 0..3 {
                r.push(if und { None } else { Some(p.c[x].sign()) });
            }
            r.push(if und { None } else { Some(1) });
            for x in 0..3 {
                r.push(if und { None } else { Some(p.c[x].sign()) });
            }
            r.push(if und { None } else { Some(1) });
            Some(Ans::Signs(r))
        }
    }
}

fn agrees(got: &Ans, want: &Ans) -> bool {
    match (got, want) {
        (Ans::Co(a), Ans::Co(b)) => a.iter().zip(b).all(|(a, b)| {
            let (a, b) = (f64::from_bits(*a), f64::from_bits(*b));
            (a - b).abs() <= 4e-15 * b.abs()
        }),
        // the exact form always decides; a filter may abstain, but not be wrong
        (Ans::Signs(a), Ans::Signs(b)) => {
            a.len() == 8 && (0..3).all(|i| a[i] == b[i]) && (3..8).all(|i| a[i].is_none() || a[i] == b[i])
        }
        (Ans::Parts(p), Ans::Exact(b, k)) => {
            let v: Vec<f64> = p.iter().map(|x| f64::from_bits(*x)).collect();
            if v.is_empty() || v.iter().any(|x| !x.is_finite()) {
                return false;
            }
            // no component overlaps the next, and none is zero unless the value is
            if v.len() > 1 && v.windows(2).any(|w| w[0] == 0.0 || w[1].abs() <= w[0].abs()) {
                return false;
            }
            let (c, x) = crate::bigint::to_common(&v);
            let mut sum = Big::zero();
            for y in c {
                sum = sum + y;
            }
            if sum.is_zero() || b.is_zero() {
                return sum.is_zero() && b.is_zero();
            }
            let d = x as i64 - k;
            if d >= 0 { sum.shl(d as u32) == *b } else { sum == b.shl(-d as u32) }
        }
        _ => got == want,
    }
}

/// degree, in the coordinates, of the polynomial whose sign a query asks for
fn degree(q: &[i64], rows: &[&Vec<i64>]) -> i64 {
    let d = |k: usize| match rows[q[k] as usize][0] {
        0 => 1,
        1 => 4,
        _ => 7,
    };
    let pair = |i: usize, j: usize| d(i) + d(j) - 1;
    let top = |n: usize| (1..=n).max_by_key(|&k| d(k)).unwrap();
    match q[0] {
        0 => (1..=4).map(|k| pair(k, top(4))).sum::<i64>() - pair(top(4), top(4)),
        1 => (1..=3).map(|k| pair(k, top(3))).sum::<i64>() - pair(top(3), top(3)),
        2 => pair(1, 2),
        3 => {
            let m = d(1).max(d(2)).max(d(3));
            2 * (2 * m - 1)
        }
        _ => 14,
    }
}
/// no product inside a query's predicate overflows or underflows, neither with the points as they
/// stand nor with the exact forms of the implicit ones brought to unit size
fn in_range(q: &[i64], rows: &[&Vec<i64>], bits: i64, e: i64) -> bool {
    let deg = degree(q, rows);
    let w = |k: usize| match rows[q[k] as usize][0] {
        0 => -e.min(0),
        1 => 4 * (bits + 2),
        _ => 7 * (bits + 2) + 4,
    };
    let low = match q[0] {
        // (which point the others are taken relative to is the library's choice)
        0 => w(1) + w(2) + w(3) + w(4) + 2 * w(1).max(w(2)).max(w(3)).max(w(4)),
        1 => w(1) + w(2) + w(3) + w(1).max(w(2)).max(w(3)),
        2 => w(1) + w(2),
        3 => 4 * w(1).max(w(2)).max(w(3)),
        _ => 0,
    };
    (bits + e) * deg <= 940 && e * deg >= -1000 && low <= 1000
}

fn execute(c: &Case) -> Verdict {
    let mut v = Verdict::new();
    let e = c.p("exp").clamp(-200, 200);
    let rows: Vec<&Vec<i64>> = c.items.iter().filter(|r| exact(r).is_some()).collect();
    let top = rows.iter().flat_map(|r| r[1..].iter().map(|x| x.unsigned_abs())).max().unwrap_or(0);
    let bits = 64 - top.leading_zeros() as i64;
    if rows.is_empty() || bits > 50 {
        v.stat("out_of_domain", 1);
        return v;
    }
    let hom: Vec<Hom> = rows.iter().map(|r| exact(r).unwrap()).collect();
    let mut pts: Vec<Point3D> = rows.iter().map(|r| point(r, e)).collect();
    let n = pts.len() as i64;
    let base = SimCfg {
        dirty: c.p("dirty") as u64,
        poison: c.p("mem") & 1 != 0,
        move_realloc: c.p("mem") & 2 != 0,
        budget: 3_000_000,
        ..Default::default()
    };
    let bump = bumpalo::Bump::new();
    let arena = SimArena::new(ArenaCfg {
        dirty: c.p("dirty") as u64,
        reuse: (c.p("mem") >> 2 & 3).clamp(0, 2) as u8,
        move_grow: true,
        poison: c.p("mem") & 1 != 0,
        fail_at: 0,
    });
    let mut asked = 0u64;
    for (qi, f) in c.faults.iter().enumerate() {
        let mut q = f.clone();
        q.resize(8, 0);
        for k in 1..5 {
            q[k] = q[k].rem_euclid(n);
        }
        q[5] = q[5].rem_euclid(3);
        if q[0] == 9 {
            // a copy takes the place of the original, with whatever it has cached
            let i = q[1] as usize;
            pts[i] = pts[i].clone();
            v.stat("history.cloned", 1);
            continue;
        }
        if q[0] == 8 {
            pts[q[1] as usize] = point(rows[q[1] as usize], e);
            v.stat("history.fresh", 1);
            continue;
        }
        let Some(want) = (if in_range(&q, &rows, bits, e) && !(q[0] == 7 && bits > 24) {
            expect(&hom, &q, &rows, e)
        } else {
            None
        }) else {
            v.stat("query_out_of_domain", 1);
            continue;
        };
        let go = |fail: u64, pts: &[Point3D]| {
            let mut cfg = base.clone();
            if q[6] == 2 {
                arena.set_fail_at(fail);
            } else {
                cfg.fail_at = fail;
            }
            let r = match q[6] {
                0 => under(&cfg, || ask(pts, &q, Global)),
                1 => under(&cfg, || ask(pts, &q, &bump)),
                _ => under(&cfg, || ask(pts, &q, &arena)),
            };
            arena.set_fail_at(0);
            r
        };
        let tries = if q[7] > 0 { 2 } else { 1 };
        for t in 0..tries {
            let fail = if t == 0 && q[7] > 0 { q[7] as u64 } else { 0 };
            let (r, tel) = go(fail, &pts);
            v.telemetry(&tel);
            let types = || (1..5).map(|k| rows[q[k] as usize][0].to_string()).collect::<Vec<_>>().join("");
            match r {
                Ok(a) => {
                    asked += 1;
                    v.mark(crate::rng::hash_str(&format!("{} {} {} {want:?}", q[0], types(), q[5])));
                    v.log(crate::rng::hash_str(&format!("{a:?}")));
                    if !agrees(&a, &want) {
                        let cl = match q[0] {
                            0 => "orient3d-sign",
                            1 => "orient2d-sign",
                            2 => "order",
                            3 => "in-segment",
                            4 => "coordinates",
                            6 => "expansion",
                            7 => "interval",
                            _ => "filter",
                        };
                        v.fail(cl, format!("query {qi} {q:?} of kinds {} answered {a:?}, exact {want:?}", types()));
                        return v;
                    }
                }
                Err(Fail::Oom) => v.stat("query_failed_by_injected_oom", 1),
                Err(Fail::Budget) => v.fail("no-progress", format!("query {qi} {q:?}: step budget exceeded")),
                Err(Fail::Panic(m)) => v.fail("panic", format!("query {qi} {q:?}: {m}")),
            }
            if v.bad() {
                return v;
            }
        }
    }
    if let Some(m) = arena.tel().corrupt {
        v.fail("allocator-misuse", m);
    }
    v.stat("fault.alloc_fail", arena.tel().failed);
    v.stat("queries", asked);
    v.nontrivial = asked >= 3;
    v
}

/// an implicit point at the same location as `row`: planes permuted, their triangles turned or
/// moved within the plane, the line's points moved along it
fn another_form(rng: &mut Rng, row: &[i64]) -> Vec<i64> {
    fn turn(rng: &mut Rng, t: &mut [i64]) {
        let r = rng.us(3);
        t.rotate_left(3 * r);
        if rng.chance(1, 2) {
            for x in 0..3 {
                t.swap(x, 3 + x);
            }
        }
        if rng.chance(1, 2) {
            for x in 0..3 {
                t[6 + x] += t[3 + x] - t[x];
            }
        }
    }
    let mut r = row.to_vec();
    match r[0] {
        1 => {
            if rng.chance(1, 2) {
                for x in 0..3 {
                    r[4 + x] = 2 * r[4 + x] - r[1 + x];
                }
            }
            if rng.chance(1, 2) {
                for x in 0..3 {
                    r.swap(1 + x, 4 + x);
                }
            }
            turn(rng, &mut r[7..16]);
        }
        2 => {
            let k = rng.us(3);
            r[1..28].rotate_left(9 * k);
            if rng.chance(1, 2) {
                for x in 0..9 {
                    r.swap(1 + x, 10 + x);
                }
            }
            for s in 0..3 {
                turn(rng, &mut r[1 + 9 * s..10 + 9 * s]);
            }
        }
        _ => {}
    }
    r
}

fn gen(rng: &mut Rng, ops: &[i64], thorough: bool) -> Case {
    let mut c = Case::default();
    let style = rng.below(8).min(6);
    c.kind = ["tiny", "medium", "far-thin", "large", "pool", "big-small", "near"][style as usize].into();
    let k = rng.range(12, 23);
    let off = [1i64 << k, -(1i64 << k), (1i64 << k) + 12345];
    let b: [i64; 3] = [*rng.pick(&off), *rng.pick(&off), *rng.pick(&off)];
    let pool: Vec<[i64; 3]> = {
        let w = *rng.pick(&[2, 4, 10, 1000]);
        (0..rng.range(5, 9)).map(|_| std::array::from_fn(|_| rng.range(-w, w))).collect()
    };
    // large points in exactly degenerate position, then nudged by one unit
    let near: Vec<[i64; 3]> = {
        let w = 1i64 << if rng.chance(1, 4) { rng.range(20, 42) } else { rng.range(8, 20) };
        let f: [[i64; 3]; 4] = std::array::from_fn(|_| std::array::from_fn(|_| rng.range(-w, w)));
        (0..rng.range(6, 14))
            .map(|_| {
                let k: [i64; 3] = std::array::from_fn(|i| if i < 2 || rng.chance(1, 3) { rng.range(-2, 2) } else { 0 });
                let mut p: [i64; 3] =
                    std::array::from_fn(|x| f[0][x] + (0..3).map(|i| k[i] * (f[i + 1][x] - f[0][x])).sum::<i64>());
                if rng.chance(1, 3) {
                    p[rng.us(3)] += rng.range(-1, 1);
                }
                p
            })
            .collect()
    };
    let thin = *rng.pick(&[2, 3, 10]);
    let one = |rng: &mut Rng| -> [i64; 3] {
        match style {
            0 => std::array::from_fn(|_| rng.range(0, 3)),
            1 => std::array::from_fn(|_| rng.range(-1000, 1000)),
            2 => std::array::from_fn(|i| b[i] + rng.range(0, thin)),
            3 => std::array::from_fn(|_| rng.range(-(1 << 22), 1 << 22)),
            4 => {
                let mut p = *rng.pick(&pool);
                if rng.chance(1, 8) {
                    p[rng.us(3)] += rng.range(-1, 1);
                }
                p
            }
            6 => {
                let mut p = *rng.pick(&near);
                if rng.chance(1, 6) {
                    p[rng.us(3)] += rng.range(-1, 1);
                }
                p
            }
            _ => std::array::from_fn(|_| if rng.chance(1, 2) { rng.range(-2, 2) } else { rng.range(-(1 << k), 1 << k) }),
        }
    };
    let np = rng.range(4, if thorough { 10 } else { 7 });
    let kinds: &[i64] = if rng.chance(1, 4) { &[0, 1, 1, 1] } else { &[0, 1, 1, 2, 2] };
    let lines: Vec<([i64; 3], [i64; 3])> = (0..2).map(|_| (one(rng), one(rng))).collect();
    for _ in 0..np {
        let kind = *rng.pick(kinds);
        let mut row = vec![kind];
        let m = [1, 5, 9][kind as usize];
        let mut v: Vec<[i64; 3]> = (0..m).map(|_| one(rng)).collect();
        if kind == 1 && rng.chance(1, 2) {
            let l = *rng.pick(&lines);
            v[0] = l.0;
            v[1] = l.1;
        }
        if kind == 0 && rng.chance(1, 2) {
            let l = *rng.pick(&lines);
            v[0] = if rng.chance(1, 2) { l.0 } else { l.1 };
        }
        for p in v {
            row.extend(p);
        }
        c.items.push(row);
    }
    // planes reused across points: exact coincidences and collinearities
    if rng.chance(2, 3) {
        for _ in 0..2 {
            let (i, j) = (rng.us(c.items.len()), rng.us(c.items.len()));
            let (a, b) = (c.items[i].clone(), c.items[j].clone());
            if a[0] == 2 && b[0] == 2 {
                let s = rng.us(3);
                c.items[j][1 + 9 * s..10 + 9 * s].copy_from_slice(&a[1 + 9 * s..10 + 9 * s]);
            } else if a[0] == 1 && b[0] == 2 {
                let s = rng.us(3);
                c.items[j][1 + 9 * s..10 + 9 * s].copy_from_slice(&a[7..16]);
            } else if a[0] == 1 && b[0] == 1 {
                c.items[j][7..16].copy_from_slice(&a[7..16]);
            }
        }
    }
    // one or two planes through many of the points: exactly coplanar and collinear at any scale
    if rng.chance(1, 3) {
        let planes: Vec<Vec<i64>> = c
            .items
            .iter()
            .flat_map(|r| match r[0] {
                1 => vec![r[7..16].to_vec()],
                2 => (0..3).map(|s| r[1 + 9 * s..10 + 9 * s].to_vec()).collect(),
                _ => vec![],
            })
            .collect();
        if !planes.is_empty() {
            let two: Vec<Vec<i64>> = (0..rng.range(1, 2)).map(|_| rng.pick(&planes).clone()).collect();
            for r in c.items.iter_mut() {
                if rng.chance(1, 5) {
                    continue;
                }
                match r[0] {
                    1 => r[7..16].copy_from_slice(&two[0]),
                    2 => {
                        let s = rng.us(3);
                        for (i, pl) in two.iter().enumerate() {
                            let s = (s + i) % 3;
                            r[1 + 9 * s..10 + 9 * s].copy_from_slice(pl);
                        }
                    }
                    _ => {}
                }
            }
        }
    }
    // the same location in another presentation: it rounds differently
    if rng.chance(1, 3) {
        for _ in 0..rng.range(1, 3) {
            let i = rng.us(c.items.len());
            let row = another_form(rng, &c.items[i]);
            if row[1..].iter().all(|x| x.abs() <= 1 << 50) {
                let j = rng.us(c.items.len());
                c.items[j] = row;
            }
        }
    }
    let nq = rng.range(6, if thorough { 60 } else { 30 });
    for _ in 0..nq {
        let op = if rng.chance(1, 12) { rng.range(8, 9) } else { *rng.pick(ops) };
        let fail = if rng.chance(1, 6) { rng.range(1, 40) } else { 0 };
        let mut row = vec![op];
        for _ in 0..4 {
            row.push(rng.range(0, np - 1));
        }
        row.push(rng.range(0, 2));
        row.push(rng.range(0, 2));
        row.push(fail);
        c.faults.push(row.clone());
        // the same again, or the same first operands
        if rng.chance(1, 6) {
            for _ in 0..rng.range(1, 3) {
                row[7] = 0;
                if rng.chance(1, 3) {
                    row[6] = rng.range(0, 2);
                }
                if rng.chance(1, 3) {
                    row[3 + rng.us(2)] = rng.range(0, np - 1);
                }
                c.faults.push(row.clone());
            }
        }
    }
    // scale: as far as the queries' polynomials go without overflow or underflow
    if rng.chance(1, 2) {
        let top = c.items.iter().flat_map(|r| r[1..].iter().map(|x| x.unsigned_abs())).max().unwrap_or(0);
        let bits = 64 - top.leading_zeros() as i64;
        let deg = *rng.pick(&[39, 36, 33, 30, 27, 26, 21, 20, 14, 13, 7]);
        let (lo, hi) = (-1000 / deg, 940 / deg - bits);
        let e = match rng.below(4) {
            0 => hi,
            1 => lo,
            2 => rng.range(hi / 2, hi.max(hi / 2)),
            _ => rng.range(lo, hi.max(lo)),
        };
        c.set("exp", e);
    }
    c.set("dirty", if rng.chance(1, 2) { rng.range(1, 1 << 40) } else { 0 });
    c.set("mem", rng.range(0, 11));
    c
}

const REAL: &[&str] = &[
    "gpf::predicates: orient3d, orient2d_by_axis, less_than_on_{x,y,z}, point_in_segment_general over Point3D",
    "gpf::predicates: static, interval and expansion filters of LPI and TPI points and their lazy caches",
    "bumpalo and std collections over simulated memory",
];
const STUB: &[&str] = &["the global allocator and one of the three caller-supplied allocators are the simulator's"];
const ASSUME: &[&str] = &[
    "coordinates are integers times a power of two, of a size (it depends on the kinds of points in the query) at which no product inside the predicate overflows or underflows",
    "an allocation failure reaches the caller as an unwinding panic (alloc error hook)",
];

pub struct Orient;
pub struct Order;

impl Prop for Orient {
    fn id(&self) -> &'static str {
        "C04"
    }
    fn plan(&self, thorough: bool) -> (u64, u64) {
        if thorough {
            (8000, 1500)
        } else {
            (400, 1500)
        }
    }
    fn gen(&self, rng: &mut Rng, thorough: bool) -> Case {
        gen(rng, &[0, 0, 0, 0, 1, 1, 1, 1, 5, 6, 7], thorough)
    }
    fn run(&self, c: &Case) -> Verdict {
        execute(c)
    }
    fn rule(&self) -> &'static str {
        "runs with at least three answered orientation queries over a mix of explicit and implicit points"
    }
    fn shape_measure(&self) -> &'static str {
        "query histories by hash of the sequence (operation, kinds of points, axis, exact answer)"
    }
    fn real(&self) -> &'static [&'static str] {
        REAL
    }
    fn stubbed(&self) -> &'static [&'static str] {
        STUB
    }
    fn assumptions(&self) -> &'static [&'static str] {
        ASSUME
    }
}
impl Prop for Order {
    fn id(&self) -> &'static str {
        "C06"
    }
    fn plan(&self, thorough: bool) -> (u64, u64) {
        if thorough {
            (8000, 1500)
        } else {
            (480, 1500)
        }
    }
    fn gen(&self, rng: &mut Rng, thorough: bool) -> Case {
        gen(rng, &[2, 2, 2, 3, 3, 4], thorough)
    }
    fn run(&self, c: &Case) -> Verdict {
        execute(c)
    }
    fn rule(&self) -> &'static str {
        "runs with at least three answered order, segment or coordinate queries over a mix of explicit and implicit points"
    }
    fn shape_measure(&self) -> &'static str {
        "query histories by hash of the sequence (operation, kinds of points, axis, exact answer)"
    }
    fn real(&self) -> &'static [&'static str] {
        REAL
    }
    fn stubbed(&self) -> &'static [&'static str] {
        STUB
    }
    fn assumptions(&self) -> &'static [&'static str] {
        ASSUME
    }
}
