//! C05: predicates and expansion arithmetic on explicit points, in histories of queries that share
//! one allocator, which hands out used, dirty, moved and poisoned memory and fails requests.
use super::geom::{det3, det4};
use crate::bigint::{to_common, Big};
use crate::case::{Case, Prop, Verdict};
use crate::rng::Rng;
use crate::seams::{under, ArenaCfg, Fail, SimArena, SimCfg};
use gpf::predicates as gp;
use gpf::predicates::Orientation;
use std::alloc::{Allocator, Global};

type V = [Big; 3];

fn big(r: &[i64]) -> V {
    [Big::from(r[0]), Big::from(r[1]), Big::from(r[2])]
}
fn sub(a: &V, b: &V) -> V {
    std::array::from_fn(|i| &a[i] - &b[i])
}
fn dot(a: &V, b: &V) -> Big {
    &(&(&a[0] * &b[0]) + &(&a[1] * &b[1])) + &(&a[2] * &b[2])
}
fn cross(a: &V, b: &V) -> V {
    std::array::from_fn(|i| {
        let (j, k) = ((i + 1) % 3, (i + 2) % 3);
        &(&a[j] * &b[k]) - &(&a[k] * &b[j])
    })
}
fn o3(a: &V, b: &V, c: &V, d: &V) -> i32 {
    det3(&[sub(a, d), sub(b, d), sub(c, d)]).sign()
}
fn o2(a: &V, b: &V, c: &V, u: usize, w: usize) -> i32 {
    (&(&(&a[u] - &c[u]) * &(&b[w] - &c[w])) - &(&(&a[w] - &c[w]) * &(&b[u] - &c[u]))).sign()
}
fn zero(v: &V) -> bool {
    v.iter().all(|x| x.is_zero())
}
/// p = a + t (b - a) for collinear points: sign of t and of 1 - t
fn on_line(p: &V, a: &V, b: &V) -> Option<(i32, i32)> {
    let d = sub(b, a);
    if zero(&d) || !zero(&cross(&sub(p, a), &d)) {
        return None;
    }
    Some((dot(&sub(p, a), &d).sign(), dot(&sub(b, p), &d).sign()))
}
fn in_open_seg(p: &V, a: &V, b: &V) -> bool {
    on_line(p, a, b).is_some_and(|(s, t)| s > 0 && t > 0)
}
fn in_seg(p: &V, a: &V, b: &V) -> bool {
    p == a || p == b || in_open_seg(p, a, b)
}
fn segs_cross(a: &V, b: &V, c: &V, d: &V) -> bool {
    if o3(a, b, c, d) != 0 {
        return false;
    }
    let (u, w) = (sub(b, a), sub(d, c));
    let n = cross(&u, &w);
    if zero(&n) {
        return false;
    }
    // sides relative to the lines, measured along n
    let s1 = dot(&cross(&u, &sub(c, a)), &n).sign();
    let s2 = dot(&cross(&u, &sub(d, a)), &n).sign();
    let s3 = dot(&cross(&w, &sub(a, c)), &n).sign();
    let s4 = dot(&cross(&w, &sub(b, c)), &n).sign();
    s1 * s2 < 0 && s3 * s4 < 0
}
fn seg_cross_open_tri(u: &V, w: &V, a: &V, b: &V, c: &V) -> bool {
    let (p, q) = (o3(u, a, b, c), o3(w, a, b, c));
    if p * q >= 0 {
        return false;
    }
    let (x, y, z) = (o3(u, w, a, b), o3(u, w, b, c), o3(u, w, c, a));
    x != 0 && x == y && y == z
}
fn in_open_tri(p: &V, a: &V, b: &V, c: &V) -> bool {
    let n = cross(&sub(b, a), &sub(c, a));
    [(a, b), (b, c), (c, a)].iter().all(|(x, y)| dot(&cross(&sub(y, x), &sub(p, x)), &n).sign() > 0)
}

#[derive(Debug, PartialEq, Clone)]
enum Ans {
    Sign(i32),
    Bool(bool),
    Axis(usize),
    Parts(Vec<u64>),
    Exact(Vec<Big>),
    AnyAxis(Vec<bool>),
}

pub const OPS: i64 = 22;
const ARITY: [usize; OPS as usize] = [3, 4, 4, 5, 5, 3, 3, 4, 5, 2, 4, 3, 4, 3, 3, 5, 4, 2, 2, 2, 2, 4];
const NAMES: [&str; OPS as usize] = [
    "orient2d", "orient3d", "incircle", "insphere", "orient4d", "orient2d-axis", "normal-axis", "in-open-triangle",
    "segment-crosses-open-triangle", "same-point", "same-half-plane", "misaligned", "segments-cross", "in-open-segment", "in-segment",
    "segment-crosses-triangle", "in-triangle", "expansion-sum", "expansion-difference", "expansion-scale", "expansion-product", "orient3d-approximate",
];

fn sg(x: f64) -> i32 {
    if x > 0.0 {
        1
    } else if x < 0.0 {
        -1
    } else if x == 0.0 {
        0
    } else {
        7
    }
}
fn so(x: Orientation) -> i32 {
    match x {
        Orientation::Positive => 1,
        Orientation::Negative => -1,
        Orientation::Zero => 0,
        _ => 7,
    }
}

fn ask<A: Allocator + Copy>(f: &[[f64; 4]], q: &[i64], a: A) -> Ans {
    let g = |k: usize| &f[q[k] as usize][..3];
    let h = |k: usize| f[q[k] as usize][3];
    let ax = q[6] as usize;
    match q[0] {
        0 => Ans::Sign(sg(gp::orient2d(g(1), g(2), g(3), a))),
        1 => Ans::Sign(sg(gp::orient3d(g(1), g(2), g(3), g(4), a))),
        2 => Ans::Sign(sg(gp::incircle(g(1), g(2), g(3), g(4), a))),
        3 => Ans::Sign(sg(gp::insphere(g(1), g(2), g(3), g(4), g(5), a))),
        4 => Ans::Sign(sg(gp::orient4d(g(1), g(2), g(3), g(4), g(5), a, h(1), h(2), h(3), h(4), h(5)))),
        5 => Ans::Sign(so(gp::orient2d_by_axis(g(1), g(2), g(3), ax, a))),
        6 => Ans::Axis(gp::max_comp_in_tri_normal(g(1), g(2), g(3), a)),
        7 => Ans::Bool(gp::point_in_inner_triangle(g(1), g(2), g(3), g(4), a)),
        8 => Ans::Bool(gp::inner_segment_cross_inner_triangle(g(1), g(2), g(3), g(4), g(5), a)),
        9 => Ans::Bool(gp::same_point(g(1), g(2))),
        10 => Ans::Bool(gp::same_half_plane(g(1), g(2), g(3), g(4), a)),
        11 => Ans::Bool(gp::mis_alignment(g(1), g(2), g(3), a)),
        12 => Ans::Bool(gp::inner_segments_cross(g(1), g(2), g(3), g(4), a)),
        13 => Ans::Bool(gp::point_in_inner_segment(g(1), g(2), g(3), a)),
        14 => Ans::Bool(gp::point_in_segment(g(1), g(2), g(3), a)),
        15 => Ans::Bool(gp::inner_segment_cross_triangle(g(1), g(2), g(3), g(4), g(5), a)),
        16 => Ans::Bool(gp::point_in_triangle(g(1), g(2), g(3), g(4), a)),
        21 => Ans::Sign(sg(gp::orient3d_fast(g(1), g(2), g(3), g(4)))),
        k => {
            // expansions grown from the coordinates
            let mk = |p: &[f64]| {
                let mut e = vec![p[ax]].to_vec_in2(a);
                for i in 1..3 {
                    e = gp::grow_expansion_zeroelim(&e, p[(ax + i) % 3], a);
                    if e.is_empty() {
                        e.push(0.0);
                    }
                }
                e
            };
            let (u, w) = (mk(g(1)), mk(g(2)));
            let r = match k {
                17 => gp::fast_expansion_sum_zeroelim(&u, &w, a),
                18 => {
                    let mut d = gp::fast_expansion_diff_zeroelim(&u, &w, a);
                    if q[5] % 2 == 1 {
                        gp::expansion_invert(&mut d);
                    }
                    d
                }
                19 => gp::scale_expansion_zeroelim(&u, h(2), a),
                _ => gp::mul_expansion_zeroelim(&u, &w, a),
            };
            let mut out: Vec<u64> = crate::seams::suspended(|| r.iter().map(|x| x.to_bits()).collect());
            if k == 17 {
                // the general sum says the same
                let s = gp::expansion_sum(&u, &w, a);
                let t = gp::grow_expansion(&u, w[0], a);
                crate::seams::suspended(|| {
                    let z: Vec<f64> = s.iter().cloned().chain(r.iter().map(|x| -x)).collect();
                    let (v, _) = to_common(&z);
                    let mut y: Vec<f64> = t.iter().cloned().collect();
                    y.extend(u.iter().map(|x| -x));
                    y.push(-w[0]);
                    let (x, _) = to_common(&y);
                    if !sum(&v).is_zero() || !sum(&x).is_zero() {
                        out = vec![f64::NAN.to_bits()];
                    }
                });
            }
            Ans::Parts(out)
        }
    }
}

trait ToIn {
    fn to_vec_in2<A: Allocator>(self, a: A) -> Vec<f64, A>;
}
impl ToIn for Vec<f64> {
    fn to_vec_in2<A: Allocator>(self, a: A) -> Vec<f64, A> {
        let mut v = Vec::new_in(a);
        v.extend(self);
        v
    }
}

fn sum(v: &[Big]) -> Big {
    v.iter().fold(Big::zero(), |a, b| &a + b)
}

fn expect(r: &[Vec<i64>], q: &[i64]) -> Option<Ans> {
    let row = |k: usize| &r[q[k] as usize];
    let p: Vec<V> = (1..6).map(|k| big(row(k))).collect();
    let h: Vec<Big> = (1..6).map(|k| Big::from(row(k)[3])).collect();
    let ax = q[6] as usize;
    let flat = |a: &V, b: &V, c: &V| zero(&cross(&sub(b, a), &sub(c, a)));
    let lift = |l: [Big; 5]| {
        let m: Vec<[Big; 4]> = (0..4)
            .map(|i| {
                let d = sub(&p[i], &p[4]);
                let [x, y, z] = d;
                [x, y, z, &l[i] - &l[4]]
            })
            .collect();
        det4(&[m[0].clone(), m[1].clone(), m[2].clone(), m[3].clone()]).sign()
    };
    Some(match q[0] {
        0 => Ans::Sign(o2(&p[0], &p[1], &p[2], 0, 1)),
        1 => Ans::Sign(o3(&p[0], &p[1], &p[2], &p[3])),
        2 => {
            let m: Vec<[Big; 3]> = (0..3)
                .map(|i| {
                    let d = sub(&p[i], &p[3]);
                    let l = &(&d[0] * &d[0]) + &(&d[1] * &d[1]);
                    [d[0].clone(), d[1].clone(), l]
                })
                .collect();
            Ans::Sign(det3(&[m[0].clone(), m[1].clone(), m[2].clone()]).sign())
        }
        3 => {
            let m: Vec<[Big; 4]> = (0..4)
                .map(|i| {
                    let d = sub(&p[i], &p[4]);
                    let l = dot(&d, &d);
                    let [x, y, z] = d;
                    [x, y, z, l]
                })
                .collect();
            Ans::Sign(det4(&[m[0].clone(), m[1].clone(), m[2].clone(), m[3].clone()]).sign())
        }
        4 => Ans::Sign(lift(std::array::from_fn(|i| h[i].clone()))),
        5 => {
            let (u, w) = [(1, 2), (2, 0), (0, 1)][ax];
            Ans::Sign(o2(&p[0], &p[1], &p[2], u, w))
        }
        6 => {
            let n = cross(&sub(&p[1], &p[0]), &sub(&p[2], &p[0]));
            if zero(&n) {
                return None;
            }
            let m = n.iter().map(|x| x.abs()).max().unwrap();
            let big = (0..3).map(|i| sub(&p[(i + 1) % 3], &p[i])).flatten().map(|x| x.abs()).max().unwrap();
            let clear = &m * &Big::from(1i64 << 33) > &big * &big;
            Ans::AnyAxis(
                n.iter().map(|x| if clear { &x.abs() * &Big::from(101i64) >= &m * &Big::from(100i64) } else { !x.is_zero() }).collect(),
            )
        }
        7 => {
            if flat(&p[1], &p[2], &p[3]) || o3(&p[0], &p[1], &p[2], &p[3]) != 0 {
                return None;
            }
            Ans::Bool(in_open_tri(&p[0], &p[1], &p[2], &p[3]))
        }
        8 => Ans::Bool(seg_cross_open_tri(&p[0], &p[1], &p[2], &p[3], &p[4])),
        9 => Ans::Bool(p[0] == p[1]),
        10 => {
            // strictly the same side, for coplanar points off the line
            if p[2] == p[3] || o3(&p[0], &p[1], &p[2], &p[3]) != 0 {
                return None;
            }
            let d = sub(&p[3], &p[2]);
            let (x, y) = (cross(&d, &sub(&p[0], &p[2])), cross(&d, &sub(&p[1], &p[2])));
            if zero(&x) || zero(&y) {
                return None;
            }
            Ans::Bool(dot(&x, &y).sign() > 0)
        }
        11 => Ans::Bool(!flat(&p[0], &p[1], &p[2])),
        12 => {
            if p[0] == p[1] || p[2] == p[3] {
                return None;
            }
            Ans::Bool(segs_cross(&p[0], &p[1], &p[2], &p[3]))
        }
        13 => Ans::Bool(in_open_seg(&p[0], &p[1], &p[2])),
        14 => {
            if p[1] == p[2] {
                return None;
            }
            Ans::Bool(in_seg(&p[0], &p[1], &p[2]))
        }
        15 => {
            if p[0] == p[1] || flat(&p[2], &p[3], &p[4]) {
                return None;
            }
            let (u, w) = (&p[0], &p[1]);
            let t = [&p[2], &p[3], &p[4]];
            Ans::Bool(
                (0..3).any(|i| in_open_seg(t[i], u, w) || segs_cross(t[i], t[(i + 1) % 3], u, w))
                    || seg_cross_open_tri(u, w, t[0], t[1], t[2]),
            )
        }
        16 => {
            if flat(&p[1], &p[2], &p[3]) || o3(&p[0], &p[1], &p[2], &p[3]) != 0 {
                return None;
            }
            let t = [&p[1], &p[2], &p[3]];
            Ans::Bool((0..3).any(|i| in_seg(&p[0], t[i], t[(i + 1) % 3])) || in_open_tri(&p[0], t[0], t[1], t[2]))
        }
        21 => {
            // only when the value is far from zero
            let d: Vec<V> = (0..3).map(|i| sub(&p[i], &p[3])).collect();
            let m = det3(&[d[0].clone(), d[1].clone(), d[2].clone()]);
            let mut w = Big::zero();
            for i in 0..3 {
                let (j, k) = ((i + 1) % 3, (i + 2) % 3);
                let t = &(&d[j][0] * &d[k][1]).abs() + &(&d[j][1] * &d[k][0]).abs();
                w = &w + &(&t * &d[i][2].abs());
            }
            if &m.abs() * &Big::from(1i64 << 45) < w || w.is_zero() {
                return None;
            }
            Ans::Sign(m.sign())
        }
        k => {
            let s = |v: &V| &(&v[0] + &v[1]) + &v[2];
            let (u, w) = (s(&p[0]), s(&p[1]));
            Ans::Exact(vec![match k {
                17 => &u + &w,
                18 if q[5] % 2 == 1 => &w - &u,
                18 => &u - &w,
                19 => &u * &h[1],
                _ => &u * &w,
            }])
        }
    })
}

fn agrees(got: &Ans, want: &Ans, unit: i64) -> bool {
    match (got, want) {
        (Ans::Axis(k), Ans::AnyAxis(ok)) => *k < 3 && ok[*k],
        (Ans::Parts(b), Ans::Exact(w)) => {
            let v: Vec<f64> = b.iter().map(|x| f64::from_bits(*x)).collect();
            if v.iter().any(|x| !x.is_finite()) || v.is_empty() && !w[0].is_zero() {
                return false;
            }
            if v.len() > 1 && v.windows(2).any(|x| x[0] == 0.0 || x[1].abs() <= x[0].abs()) {
                return false;
            }
            if v.is_empty() || w[0].is_zero() {
                return v.iter().all(|x| *x == 0.0) && w[0].is_zero();
            }
            let (c, k) = to_common(&v);
            let d = k as i64 - unit;
            let s = sum(&c);
            if d >= 0 { s.shl(d as u32) == w[0] } else { s == w[0].shl(-d as u32) }
        }
        _ => got == want,
    }
}

fn representable(x: i64) -> bool {
    x as f64 as i128 == x as i128 && x.unsigned_abs() < 1 << 62
}

fn execute(c: &Case) -> Verdict {
    let mut v = Verdict::new();
    let e = c.p("exp").clamp(-160, 120);
    let rows: Vec<Vec<i64>> = c.items.iter().filter(|r| r.len() >= 4 && r[..4].iter().all(|&x| representable(x))).cloned().collect();
    if rows.len() < 2 {
        v.stat("out_of_domain", 1);
        return v;
    }
    let f: Vec<[f64; 4]> = rows.iter().map(|r| std::array::from_fn(|i| super::geom::scale(r[i], e))).collect();
    let n = rows.len() as i64;
    let mem = c.p("mem");
    let base = SimCfg {
        dirty: c.p("dirty") as u64,
        poison: mem & 1 != 0,
        move_realloc: mem & 2 != 0,
        budget: 400_000,
        ..Default::default()
    };
    let bump = bumpalo::Bump::new();
    let arena = SimArena::new(ArenaCfg {
        dirty: c.p("dirty") as u64,
        reuse: (mem >> 2 & 3).clamp(0, 2) as u8,
        move_grow: true,
        poison: mem & 1 != 0,
        fail_at: 0,
    });
    let mut asked = 0;
    for (qi, row) in c.faults.iter().enumerate() {
        let mut q = row.clone();
        q.resize(9, 0);
        q[0] = q[0].rem_euclid(OPS);
        for k in 1..6 {
            q[k] = q[k].rem_euclid(n);
        }
        q[6] = q[6].rem_euclid(3);
        let Some(want) = expect(&rows, &q) else {
            v.stat("query_out_of_domain", 1);
            continue;
        };
        let tries = if q[8] > 0 { 2 } else { 1 };
        for t in 0..tries {
            let fail = if t == 0 && q[8] > 0 { q[8] as u64 } else { 0 };
            let mut cfg = base.clone();
            if q[7] == 2 {
                arena.set_fail_at(fail);
            } else {
                cfg.fail_at = fail;
            }
            let (r, tel) = match q[7] {
                0 => under(&cfg, || ask(&f, &q, Global)),
                1 => under(&cfg, || ask(&f, &q, &bump)),
                _ => under(&cfg, || ask(&f, &q, &arena)),
            };
            arena.set_fail_at(0);
            v.telemetry(&tel);
            match r {
                Ok(a) => {
                    asked += 1;
                    v.stat(&format!("op.{}", NAMES[q[0] as usize]), 1);
                    v.mark(crate::rng::hash_str(&format!("{} {} {want:?}", q[0], q[6])));
                    v.log(crate::rng::hash_str(&format!("{a:?}")));
                    let unit = e * match q[0] {
                        17 | 18 => 1,
                        _ => 2,
                    };
                    if !agrees(&a, &want, unit) {
                        let pts: Vec<&[i64]> = (1..=ARITY[q[0] as usize]).map(|k| &rows[q[k] as usize][..]).collect();
                        v.fail(NAMES[q[0] as usize], format!("query {qi} of {pts:?} (times 2^{e}) answered {a:?}, exact {want:?}"));
                        return v;
                    }
                }
                Err(Fail::Oom) => v.stat("fault.alloc_fail", 1),
                Err(Fail::Budget) => v.fail("no-progress", format!("query {qi}: step budget exceeded")),
                Err(Fail::Panic(m)) => v.fail("panic", format!("query {qi} ({}): {m}", NAMES[q[0] as usize])),
            }
            if v.bad() {
                return v;
            }
        }
    }
    if let Some(m) = arena.tel().corrupt {
        v.fail("allocator-misuse", m);
    }
    v.stat("answers", asked);
    v.nontrivial = asked >= 3;
    v
}

/// Points as close to a line, plane, circle, sphere or lifted plane as their coordinates allow, with
/// full mantissas of different exponents: no difference of two of them is exact, and the sign of a
/// determinant hangs on the last bits of every step.
struct Fit {
    op: i64,
    o: [f64; 4],
    u: [f64; 4],
    w: [f64; 4],
    v: [f64; 4],
    r: f64,
    ulps: i64,
}

impl Fit {
    fn new(rng: &mut Rng) -> Fit {
        let mut any = |rng: &mut Rng, top: i32| -> f64 {
            let m = (rng.range(1 << 52, (1 << 53) - 1) as f64) * if rng.chance(1, 2) { 1.0 } else { -1.0 };
            m * 2f64.powi(top - 53 - *rng.pick(&[0, 0, 0, 1, 2, 3, 5, 9]))
        };
        let far = rng.range(0, 3) as i32;
        let mut vec = |rng: &mut Rng, top: i32| -> [f64; 4] { std::array::from_fn(|_| any(rng, top)) };
        let (mut o, u, w, v) = (vec(rng, 60), vec(rng, 60 - far), vec(rng, 60 - far), vec(rng, 59 - far));
        if rng.chance(1, 4) {
            o = [0.0; 4];
        }
        Fit { op: rng.range(0, 4), o, u, w, v, r: any(rng, 60).abs(), ulps: *rng.pick(&[0, 0, 1, 3]) }
    }
    fn point(&self, rng: &mut Rng) -> Vec<i64> {
        let mut t = |rng: &mut Rng| rng.f() * 2.0 - 1.0;
        let (a, b, d) = (t(rng), t(rng), t(rng));
        let f: [f64; 4] = match self.op {
            0 => std::array::from_fn(|k| self.u[k].mul_add(a, self.o[k])),
            1 => std::array::from_fn(|k| self.w[k].mul_add(b, self.u[k].mul_add(a, self.o[k])) / 2.0),
            2 => {
                let (s, c) = (a * std::f64::consts::PI).sin_cos();
                [c.mul_add(self.r, self.o[0]), s.mul_add(self.r, self.o[1]), self.w[0] * b, self.w[1] * d]
            }
            3 => {
                let (s, c) = (a * std::f64::consts::PI).sin_cos();
                let q = (1.0 - b * b).max(0.0).sqrt() * self.r;
                [c.mul_add(q, self.o[0]), s.mul_add(q, self.o[1]), b.mul_add(self.r, self.o[2]), self.w[1] * d]
            }
            _ => std::array::from_fn(|k| self.v[k].mul_add(d, self.w[k].mul_add(b, self.u[k].mul_add(a, self.o[k]))) / 2.0),
        };
        f.iter()
            .map(|&x| {
                let mut y = x.round();
                for _ in 0..if self.ulps > 0 { rng.range(0, self.ulps) } else { 0 } {
                    y = if rng.chance(1, 2) { y.next_up() } else { y.next_down() }.round();
                }
                y as i64
            })
            .collect()
    }
}

/// Moves p along the line through a and b, by steps of the last bits of its coordinates, until its
/// determinant with a and b in the first two coordinates is as small as Euclid's algorithm on the two
/// steps makes it: far below what the rounding of the differences alone leaves.
fn settle(a: &[i64], b: &[i64], p: &mut [i64]) {
    let ulp = |x: i64| 1i128 << (64 - x.unsigned_abs().leading_zeros() as i64 - 53).max(0);
    let d = |k: usize| b[k] as i128 - a[k] as i128;
    let (ux, uy) = (ulp(p[0]), ulp(p[1]));
    let mut det = (p[0] as i128 - a[0] as i128) * d(1) - (p[1] as i128 - a[1] as i128) * d(0);
    let (mut mx, mut my) = (0i128, 0i128);
    let (mut g, mut h) = ((ux * d(1), 1i128, 0i128), (-uy * d(0), 0i128, 1i128));
    for _ in 0..60 {
        if g.0.abs() < h.0.abs() {
            std::mem::swap(&mut g, &mut h);
        }
        if h.0 == 0 || h.1.abs().max(h.2.abs()) > 1 << 48 {
            break;
        }
        let q = (2 * det + h.0.abs() * det.signum()) / (2 * h.0);
        if q != 0 && (q * h.1).abs().max((q * h.2).abs()) < 1 << 48 {
            det -= q * h.0;
            mx -= q * h.1;
            my -= q * h.2;
        }
        let q = g.0 / h.0;
        g = (g.0 - q * h.0, g.1 - q * h.1, g.2 - q * h.2);
    }
    let n = [p[0] as i128 + mx * ux, p[1] as i128 + my * uy];
    if n.iter().all(|x| x.abs() < 1 << 62 && representable(*x as i64)) {
        p[0] = n[0] as i64;
        p[1] = n[1] as i64;
    }
}

fn gen(rng: &mut Rng) -> Case {
    let mut c = Case::default();
    let kind = if rng.chance(1, 4) { 9 } else if rng.chance(1, 3) { *rng.pick(&[1, 8, 8]) } else { rng.below(9) };
    c.kind = ["tiny", "cosph", "flat", "line", "scales", "far", "random", "mixed", "tails", "fit"][kind as usize].into();
    let n = rng.range(5, 9);
    let r = *rng.pick(&[3i64, 10, 1000, 1 << 20, 1 << 30]);
    let b = *rng.pick(&[0i64, 0, 1 << 20, 1 << 40, 1 << 51]);
    let off: [i64; 3] = std::array::from_fn(|_| if rng.chance(1, 2) { b } else { 0 });
    let (u, w): ([i64; 3], [i64; 3]) = (std::array::from_fn(|_| rng.range(-r, r)), std::array::from_fn(|_| rng.range(-r, r)));
    // near 2^52, sums and differences of odd numbers are not exact
    let wide = rng.chance(1, 2);
    let (line, planar) = (rng.chance(1, 3), rng.chance(1, 3));
    let top = |rng: &mut Rng| (1i64 << 52) - rng.range(0, 1 << 20) * rng.range(0, 1 << 30) - rng.range(0, 9);
    let s: [i64; 3] = std::array::from_fn(|_| if wide { top(rng) } else { rng.range(1, r.min(1000)) });
    let tu: [i64; 3] = std::array::from_fn(|_| if rng.chance(1, 6) { rng.range(-9, 9) } else { top(rng) * rng.range(-1, 1) });
    let tw: [i64; 3] = std::array::from_fn(|_| rng.range(-9, 9) << (*rng.pick(&[0, 0, 10, 30])));
    let jit = rng.chance(2, 3);
    let fit = Fit::new(rng);
    for _ in 0..n {
        if kind == 9 {
            c.items.push(fit.point(rng));
            continue;
        }
        let k = if kind == 7 { *rng.pick(&[0, 1, 2, 3, 4, 5, 6, 8]) } else { kind };
        let mut p: [i64; 3] = match k {
            0 => std::array::from_fn(|_| rng.range(-2, 2)),
            1 => {
                // on a sphere of integer points
                let mut q = [s[0], s[1], s[2]];
                if !planar {
                    rng.shuffle(&mut q);
                } else if rng.chance(1, 2) {
                    q.swap(0, 1);
                }
                for x in &mut q {
                    if rng.chance(1, 2) {
                        *x = -*x;
                    }
                }
                std::array::from_fn(|i| if wide { q[i] } else { q[i] + off[i] / 2 })
            }
            2 => {
                let (x, y) = (rng.range(-3, 3), rng.range(-3, 3));
                std::array::from_fn(|i| off[i] + x * u[i] + y * w[i])
            }
            3 => {
                let x = rng.range(-5, 5);
                std::array::from_fn(|i| off[i] + x * u[i])
            }
            4 => std::array::from_fn(|_| rng.range(-7, 7) << *rng.pick(&[0, 0, 20, 40, 55])),
            5 => std::array::from_fn(|i| off[i] + rng.range(-2, 2)),
            8 => {
                if line {
                    let (k, x) = (2, rng.range(-4, 4));
                    std::array::from_fn(|i| x * (tu[i] >> k) + tw[i])
                } else {
                    let (x, y) = (rng.range(-1, 1), rng.range(-3, 3));
                    std::array::from_fn(|i| x * tu[i] + y * tw[i])
                }
            }
            _ => std::array::from_fn(|_| rng.range(-r, r)),
        };
        if jit && k != 4 && rng.chance(1, 4) {
            p[rng.us(3)] += rng.range(-1, 1);
        }
        if rng.chance(1, 10) {
            p[2] = 0;
        }
        let h = match rng.below(if kind == 8 { 6 } else { 4 }) {
            4 | 5 => tu[0].wrapping_mul((p[1] != 0) as i64) + p[2] % 7,
            0 => p.iter().map(|x| x % (1 << 25) * (x % (1 << 25))).sum::<i64>(),
            1 => p[0] + p[1] - p[2],
            2 => rng.range(-r, r),
            _ => p[0],
        };
        let mut row = p.to_vec();
        row.push(h + if rng.chance(1, 4) { 1 } else { 0 });
        for x in &mut row {
            if !representable(*x) {
                *x = (*x as f64) as i64 >> 12 << 12;
            }
        }
        c.items.push(row);
    }
    let settled = kind == 9 && fit.op == 0 && rng.chance(2, 3);
    if settled {
        let (a, b) = (c.items[0].clone(), c.items[1].clone());
        for r in &mut c.items[2..] {
            if r.iter().all(|&x| representable(x)) {
                settle(&a, &b, r);
            }
        }
    }
    // coordinate planes and order of the axes
    if !settled && rng.chance(1, 2) {
        let k = rng.us(3);
        for r in &mut c.items {
            r[..3].rotate_left(k);
        }
    }
    c.set("exp", match rng.below(5) {
        0 => rng.range(-60, 20),
        1 => rng.range(-54, -48),
        2 => rng.range(-160, 120),
        _ => 0,
    });
    c.set("dirty", if rng.chance(1, 2) { rng.range(1, 1 << 40) } else { 0 });
    c.set("mem", rng.range(0, 15));
    for _ in 0..rng.range(4, 24) {
        let op = if kind == 9 && rng.chance(2, 3) {
            fit.op
        } else if rng.chance(1, 2) {
            rng.range(0, 4)
        } else {
            rng.range(0, OPS - 1)
        };
        let mut idx: Vec<i64> = (0..n).collect();
        if rng.chance(9, 10) {
            rng.shuffle(&mut idx);
        } else {
            for x in &mut idx {
                *x = rng.range(0, n - 1);
            }
        }
        if settled && op == 0 && rng.chance(3, 4) {
            let k = rng.range(2, n - 1);
            idx = vec![0, 1, k];
            rng.shuffle(&mut idx);
            idx.extend([k, 0]);
        }
        let mut q = vec![op];
        q.extend(&idx[..5]);
        q.push(rng.range(0, 2));
        q.push(rng.range(0, 2));
        q.push(if rng.chance(1, 12) { rng.range(1, 40) } else { 0 });
        c.faults.push(q.clone());
        // the same again, or the same first operands
        if rng.chance(1, 5) {
            for _ in 0..rng.range(1, 4) {
                q[8] = 0;
                if rng.chance(1, 3) {
                    q[7] = rng.range(0, 2);
                }
                if rng.chance(1, 3) {
                    q[4 + rng.us(2)] = rng.range(0, n - 1);
                }
                c.faults.push(q.clone());
            }
        }
    }
    c
}

pub struct Explicit;
impl Prop for Explicit {
    fn id(&self) -> &'static str {
        "C05"
    }
    fn plan(&self, thorough: bool) -> (u64, u64) {
        if thorough {
            (16000, 1500)
        } else {
            (480, 1500)
        }
    }
    fn gen(&self, rng: &mut Rng, _thorough: bool) -> Case {
        gen(rng)
    }
    fn run(&self, c: &Case) -> Verdict {
        execute(c)
    }
    fn rule(&self) -> &'static str {
        "runs with at least three answered queries on explicit points"
    }
    fn shape_measure(&self) -> &'static str {
        "query histories by hash of the sequence (operation, axis, exact answer)"
    }
    fn real(&self) -> &'static [&'static str] {
        &["gpf::predicates on coordinate slices (orientations, in-circle, in-sphere, lifted, segment and triangle tests), expansion arithmetic", "bumpalo"]
    }
    fn stubbed(&self) -> &'static [&'static str] {
        &["the allocator: global, and in a third of the queries the one the caller passes"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["no over- or underflow", "point-in-triangle and same-side tests are asked about coplanar points, triangle tests about non-degenerate triangles"]
    }
}
