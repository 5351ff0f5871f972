//! Small exact signed integers (schoolbook), the arithmetic of every oracle that must not round.
use std::cmp::Ordering;
use std::ops::{Add, Mul, Neg, Sub};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Big {
    neg: bool,
    mag: Vec<u32>, // little endian, no leading zeros
}

fn trim(v: &mut Vec<u32>) {
    while let Some(&0) = v.last() {
        v.pop();
    }
}
fn cmp_mag(a: &[u32], b: &[u32]) -> Ordering {
    if a.len() != b.len() {
        return a.len().cmp(&b.len());
    }
    for i in (0..a.len()).rev() {
        if a[i] != b[i] {
            return a[i].cmp(&b[i]);
        }
    }
    Ordering::Equal
}
fn add_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    let (a, b) = if a.len() >= b.len() { (a, b) } else { (b, a) };
    let mut r = Vec::with_capacity(a.len() + 1);
    let mut c = 0u64;
    for i in 0..a.len() {
        let s = a[i] as u64 + if i < b.len() { b[i] as u64 } else { 0 } + c;
        r.push(s as u32);
        c = s >> 32;
    }
    if c > 0 {
        r.push(c as u32);
    }
    r
}
fn sub_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = Vec::with_capacity(a.len());
    let mut c = 0i64;
    for i in 0..a.len() {
        let mut s = a[i] as i64 - if i < b.len() { b[i] as i64 } else { 0 } + c;
        if s < 0 {
            s += 1 << 32;
            c = -1;
        } else {
            c = 0;
        }
        r.push(s as u32);
    }
    trim(&mut r);
    r
}

impl Big {
    pub fn zero() -> Self {
        Big { neg: false, mag: vec![] }
    }
    pub fn is_zero(&self) -> bool {
        self.mag.is_empty()
    }
    pub fn sign(&self) -> i32 {
        if self.mag.is_empty() {
            0
        } else if self.neg {
            -1
        } else {
            1
        }
    }
    pub fn shl(&self, n: u32) -> Big {
        if self.mag.is_empty() {
            return Big::zero();
        }
        let w = (n / 32) as usize;
        let b = n % 32;
        let mut r = vec![0u32; w];
        let mut c = 0u32;
        for &x in &self.mag {
            if b == 0 {
                r.push(x);
            } else {
                r.push((x << b) | c);
                c = x >> (32 - b);
            }
        }
        if c > 0 {
            r.push(c);
        }
        Big { neg: self.neg, mag: r }
    }
    pub fn bits(&self) -> usize {
        match self.mag.last() {
            None => 0,
            Some(x) => self.mag.len() * 32 - x.leading_zeros() as usize,
        }
    }
    pub fn abs(&self) -> Big {
        Big { neg: false, mag: self.mag.clone() }
    }
    /// Nearest-ish f64 (truncated to 64 bits, error < 2^-60 relative) times 2^exp.
    pub fn to_f64_scaled(&self) -> (f64, i64) {
        // returns (m, e) with value = m * 2^e and 1 <= |m| < 2
        if self.mag.is_empty() {
            return (0.0, 0);
        }
        let bits = self.bits();
        let mut top: u128 = 0;
        let n = self.mag.len();
        for k in 0..4 {
            top <<= 32;
            if n > k {
                top |= self.mag[n - 1 - k] as u128;
            }
        }
        let lz = top.leading_zeros();
        let top = top << lz;
        let m = (top >> 64) as u64 as f64 / 9223372036854775808.0;
        (if self.neg { -m } else { m }, bits as i64 - 1)
    }
    pub fn ratio_f64(&self, d: &Big) -> f64 {
        let (m1, e1) = self.to_f64_scaled();
        let (m2, e2) = d.to_f64_scaled();
        (m1 / m2) * 2f64.powi((e1 - e2) as i32)
    }
}

impl From<i128> for Big {
    fn from(v: i128) -> Self {
        let neg = v < 0;
        let mut u = v.unsigned_abs();
        let mut mag = vec![];
        while u > 0 {
            mag.push(u as u32);
            u >>= 32;
        }
        Big { neg, mag }
    }
}
impl From<i64> for Big {
    fn from(v: i64) -> Self {
        Big::from(v as i128)
    }
}
fn add(a: &Big, b: &Big, flip: bool) -> Big {
    let bneg = b.neg ^ flip;
    if a.mag.is_empty() {
        return Big { neg: bneg && !b.mag.is_empty(), mag: b.mag.clone() };
    }
    if b.mag.is_empty() {
        return a.clone();
    }
    if a.neg == bneg {
        return Big { neg: a.neg, mag: add_mag(&a.mag, &b.mag) };
    }
    match cmp_mag(&a.mag, &b.mag) {
        Ordering::Equal => Big::zero(),
        Ordering::Greater => Big { neg: a.neg, mag: sub_mag(&a.mag, &b.mag) },
        Ordering::Less => Big { neg: bneg, mag: sub_mag(&b.mag, &a.mag) },
    }
}
fn mul(a: &Big, b: &Big) -> Big {
    if a.mag.is_empty() || b.mag.is_empty() {
        return Big::zero();
    }
    let mut r = vec![0u32; a.mag.len() + b.mag.len()];
    for i in 0..a.mag.len() {
        let mut c = 0u64;
        let x = a.mag[i] as u64;
        for j in 0..b.mag.len() {
            let t = x * b.mag[j] as u64 + r[i + j] as u64 + c;
            r[i + j] = t as u32;
            c = t >> 32;
        }
        r[i + b.mag.len()] = c as u32;
    }
    trim(&mut r);
    Big { neg: a.neg != b.neg, mag: r }
}
impl<'a> Add<&'a Big> for &'a Big {
    type Output = Big;
    fn add(self, o: &Big) -> Big {
        add(self, o, false)
    }
}
impl<'a> Sub<&'a Big> for &'a Big {
    type Output = Big;
    fn sub(self, o: &Big) -> Big {
        add(self, o, true)
    }
}
impl<'a> Mul<&'a Big> for &'a Big {
    type Output = Big;
    fn mul(self, o: &Big) -> Big {
        mul(self, o)
    }
}
impl Add for Big {
    type Output = Big;
    fn add(self, o: Big) -> Big {
        add(&self, &o, false)
    }
}
impl Sub for Big {
    type Output = Big;
    fn sub(self, o: Big) -> Big {
        add(&self, &o, true)
    }
}
impl Mul for Big {
    type Output = Big;
    fn mul(self, o: Big) -> Big {
        mul(&self, &o)
    }
}
impl Neg for Big {
    type Output = Big;
    fn neg(self) -> Big {
        Big { neg: !self.neg && !self.mag.is_empty(), mag: self.mag }
    }
}
impl PartialOrd for Big {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Big {
    fn cmp(&self, o: &Self) -> Ordering {
        (self - o).sign().cmp(&0)
    }
}

/// finite f64 -> (mantissa, exponent) with value = m * 2^e
pub fn decompose(x: f64) -> (i64, i32) {
    assert!(x.is_finite());
    let b = x.to_bits();
    let neg = (b >> 63) != 0;
    let ex = ((b >> 52) & 0x7ff) as i32;
    let fr = b & ((1u64 << 52) - 1);
    let (mut m, mut e) = if ex == 0 { (fr as i64, -1074) } else { ((fr | (1 << 52)) as i64, ex - 1075) };
    if m == 0 {
        return (0, 0);
    }
    let tz = m.trailing_zeros() as i32;
    m >>= tz;
    e += tz;
    (if neg { -m } else { m }, e)
}

/// All values as integers over one common power of two: value[i] = ret.0[i] * 2^ret.1
pub fn to_common(vals: &[f64]) -> (Vec<Big>, i32) {
    let d: Vec<(i64, i32)> = vals.iter().map(|&x| decompose(x)).collect();
    let emin = d.iter().filter(|p| p.0 != 0).map(|p| p.1).min().unwrap_or(0);
    (
        d.iter()
            .map(|&(m, e)| if m == 0 { Big::zero() } else { Big::from(m).shl((e - emin) as u32) })
            .collect(),
        emin,
    )
}
