//! Exact predicates for the oracles (i128 when the coordinates are small enough, else `Big`).
use crate::bigint::Big;

pub type P3 = [i64; 3];
pub type P2 = [i64; 2];

fn fits(b: i64, pts: &[P3]) -> bool {
    pts.iter().all(|p| p.iter().all(|x| x.abs() < b))
}

/// sign of det[a-d; b-d; c-d]
pub fn orient3(a: &P3, b: &P3, c: &P3, d: &P3) -> i32 {
    if fits(1 << 39, &[*a, *b, *c, *d]) {
        orient3_val(a, b, c, d).signum() as i32
    } else {
        let g = |i: usize, p: &P3| &Big::from(p[i]) - &Big::from(d[i]);
        det3(&[[g(0, a), g(1, a), g(2, a)], [g(0, b), g(1, b), g(2, b)], [g(0, c), g(1, c), g(2, c)]]).sign()
    }
}
/// 6 * signed volume, |coords| < 2^39
pub fn orient3_val(a: &P3, b: &P3, c: &P3, d: &P3) -> i128 {
    let f = |p: &P3, i: usize| (p[i] - d[i]) as i128;
    let (ax, ay, az) = (f(a, 0), f(a, 1), f(a, 2));
    let (bx, by, bz) = (f(b, 0), f(b, 1), f(b, 2));
    let (cx, cy, cz) = (f(c, 0), f(c, 1), f(c, 2));
    ax * (by * cz - bz * cy) - ay * (bx * cz - bz * cx) + az * (bx * cy - by * cx)
}
pub fn det3(m: &[[Big; 3]; 3]) -> Big {
    let t = |a: &Big, b: &Big, c: &Big, d: &Big| &(a * b) - &(c * d);
    &(&(&m[0][0] * &t(&m[1][1], &m[2][2], &m[1][2], &m[2][1])) - &(&m[0][1] * &t(&m[1][0], &m[2][2], &m[1][2], &m[2][0])))
        + &(&m[0][2] * &t(&m[1][0], &m[2][1], &m[1][1], &m[2][0]))
}
/// det of 4x4 by cofactors
pub fn det4(m: &[[Big; 4]; 4]) -> Big {
    let mut s = Big::zero();
    for k in 0..4 {
        let sub: Vec<[Big; 3]> = (1..4)
            .map(|r| {
                let v: Vec<Big> = (0..4).filter(|&c| c != k).map(|c| m[r][c].clone()).collect();
                [v[0].clone(), v[1].clone(), v[2].clone()]
            })
            .collect();
        let d = &m[0][k] * &det3(&[sub[0].clone(), sub[1].clone(), sub[2].clone()]);
        s = if k % 2 == 0 { &s + &d } else { &s - &d };
    }
    s
}

/// sign of the lifted determinant of (a,b,c,d) relative to e; with orient3(a,b,c,d) > 0 a positive
/// value means e is strictly inside the circumsphere.
pub fn insphere(a: &P3, b: &P3, c: &P3, d: &P3, e: &P3) -> i32 {
    if fits(1 << 22, &[*a, *b, *c, *d, *e]) {
        let r: Vec<[i128; 4]> = [a, b, c, d]
            .iter()
            .map(|p| {
                let x = (p[0] - e[0]) as i128;
                let y = (p[1] - e[1]) as i128;
                let z = (p[2] - e[2]) as i128;
                [x, y, z, x * x + y * y + z * z]
            })
            .collect();
        let d3 = |i: usize, j: usize, k: usize| {
            let (p, q, s) = (&r[i], &r[j], &r[k]);
            p[0] * (q[1] * s[2] - q[2] * s[1]) - p[1] * (q[0] * s[2] - q[2] * s[0]) + p[2] * (q[0] * s[1] - q[1] * s[0])
        };
        // expansion along the lift column
        let v = -r[0][3] * d3(1, 2, 3) + r[1][3] * d3(0, 2, 3) - r[2][3] * d3(0, 1, 3) + r[3][3] * d3(0, 1, 2);
        v.signum() as i32
    } else {
        let m: Vec<[Big; 4]> = [a, b, c, d]
            .iter()
            .map(|p| {
                let x = &Big::from(p[0]) - &Big::from(e[0]);
                let y = &Big::from(p[1]) - &Big::from(e[1]);
                let z = &Big::from(p[2]) - &Big::from(e[2]);
                let l = &(&(&x * &x) + &(&y * &y)) + &(&z * &z);
                [x, y, z, l]
            })
            .collect();
        det4(&[m[0].clone(), m[1].clone(), m[2].clone(), m[3].clone()]).sign()
    }
}

pub fn orient2_val(a: &P2, b: &P2, c: &P2) -> i128 {
    (b[0] - a[0]) as i128 * (c[1] - a[1]) as i128 - (b[1] - a[1]) as i128 * (c[0] - a[0]) as i128
}
pub fn orient2(a: &P2, b: &P2, c: &P2) -> i32 {
    orient2_val(a, b, c).signum() as i32
}
/// > 0 iff d strictly inside the circle through ccw a,b,c (|coords| < 2^29)
pub fn incircle(a: &P2, b: &P2, c: &P2, d: &P2) -> i32 {
    let r: Vec<[i128; 3]> = [a, b, c]
        .iter()
        .map(|p| {
            let x = (p[0] - d[0]) as i128;
            let y = (p[1] - d[1]) as i128;
            [x, y, x * x + y * y]
        })
        .collect();
    let v = r[0][2] * (r[1][0] * r[2][1] - r[1][1] * r[2][0]) - r[1][2] * (r[0][0] * r[2][1] - r[0][1] * r[2][0])
        + r[2][2] * (r[0][0] * r[1][1] - r[0][1] * r[1][0]);
    v.signum() as i32
}

thread_local! {
    static ZEROES: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
/// from now on, some of the zeroes this thread hands out carry a minus sign
pub fn negative_zeroes(on: bool) {
    ZEROES.set(on as u32);
}
pub fn scale(v: i64, e: i64) -> f64 {
    if v == 0 && ZEROES.get() > 0 {
        let k = ZEROES.get().wrapping_mul(747796405).wrapping_add(2891336453) | 1;
        ZEROES.set(k);
        return if k >> 20 & 1 == 1 { -0.0 } else { 0.0 };
    }
    v as f64 * 2f64.powi(e as i32)
}
