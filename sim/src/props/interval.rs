//! C17: histories of interval and expansion arithmetic. A register machine works on intervals,
//! expansions and an exact model at once; no sign an interval declares may be wrong, and an
//! expansion must denote exactly its value, under every allocator behaviour.
use super::geom::scale;
use super::tet::gen_sched;
use crate::bigint::{to_common, Big};
use crate::case::{Case, Prop, Verdict};
use crate::rng::Rng;
use crate::seams::{under, ArenaCfg, Fail, SimArena, SimCfg};
use gpf::predicates::{ExpansionNum, IntervalNumber};
use std::alloc::{Allocator, Global};

/// m * 2^e
#[derive(Clone, Debug)]
struct Dy {
    m: Big,
    e: i64,
}
impl Dy {
    fn of(x: f64) -> Dy {
        let (m, e) = to_common(&[x]);
        Dy { m: m[0].clone(), e: e as i64 }
    }
    fn at(&self, e: i64) -> Big {
        self.m.shl((self.e - e) as u32)
    }
    fn add(&self, o: &Dy) -> Dy {
        if self.m.is_zero() {
            return o.clone();
        }
        if o.m.is_zero() {
            return self.clone();
        }
        let e = self.e.min(o.e);
        Dy { m: self.at(e) + o.at(e), e }
    }
    fn neg(&self) -> Dy {
        Dy { m: -self.m.clone(), e: self.e }
    }
    fn sub(&self, o: &Dy) -> Dy {
        self.add(&o.neg())
    }
    fn mul(&self, o: &Dy) -> Dy {
        Dy { m: self.m.clone() * o.m.clone(), e: self.e + o.e }
    }
    fn sign(&self) -> i32 {
        self.m.sign()
    }
    fn min(a: Dy, b: Dy) -> Dy {
        if a.sub(&b).sign() <= 0 {
            a
        } else {
            b
        }
    }
    fn max(a: Dy, b: Dy) -> Dy {
        if a.sub(&b).sign() >= 0 {
            a
        } else {
            b
        }
    }
    /// exponent of the leading bit
    fn top(&self) -> i64 {
        if self.m.is_zero() {
            -5000
        } else {
            self.m.bits() as i64 + self.e
        }
    }
    /// a double within a few units of the last place
    fn near(&self) -> f64 {
        let (m, k) = self.m.to_f64_scaled();
        let t = k + self.e;
        // scaled in two steps: the leading exponent stays within +-700
        m * 2f64.powi((t / 2) as i32) * 2f64.powi((t - t / 2) as i32)
    }
    fn above(&self) -> f64 {
        let mut t = self.near();
        while Dy::of(t).sub(self).sign() < 0 {
            t = t.next_up();
        }
        t
    }
}

/// the exact interval, a bound on the size of everything that went into it, and its depth in
/// roundings
#[derive(Clone)]
struct Model {
    lo: Dy,
    hi: Dy,
    size: i64,
    units: f64,
    /// components an expansion of it may have
    parts: usize,
}

#[derive(Clone)]
struct Reg<A: Allocator + Copy> {
    m: Model,
    i: IntervalNumber,
    x: Option<ExpansionNum<A>>,
}

fn model(row: &[i64], r: &[Model]) -> Option<Model> {
    let g = |k: usize| row.get(k).copied().unwrap_or(0);
    let at = |k: usize| &r[g(k).rem_euclid(r.len() as i64) as usize];
    let m = match g(0) {
        0 | 1 => {
            let (m, e) = (g(1), g(2).clamp(-80, 80));
            if m.abs() > 1 << 53 {
                return None;
            }
            let lo = Dy::of(scale(m, e));
            let w = if g(0) == 1 { g(3).clamp(0, 1 << 40) } else { 0 };
            if (m + w).abs() > 1 << 53 {
                return None;
            }
            let hi = Dy::of(scale(m + w, e));
            let size = lo.top().max(hi.top());
            Model { lo, hi, size, units: 0.0, parts: 1 }
        }
        _ if r.is_empty() => return None,
        2 | 3 => {
            let (a, b) = (at(1), at(2));
            let (lo, hi) = if g(0) == 2 { (a.lo.add(&b.lo), a.hi.add(&b.hi)) } else { (a.lo.sub(&b.hi), a.hi.sub(&b.lo)) };
            Model { lo, hi, size: a.size.max(b.size) + 1, units: a.units.max(b.units) + 1.0, parts: a.parts + b.parts }
        }
        4 => {
            let (a, b) = (at(1), at(2));
            let c = [a.lo.mul(&b.lo), a.lo.mul(&b.hi), a.hi.mul(&b.lo), a.hi.mul(&b.hi)];
            Model {
                lo: c.iter().cloned().reduce(Dy::min)?,
                hi: c.iter().cloned().reduce(Dy::max)?,
                size: a.size + b.size,
                units: a.units + b.units + 1.0,
                parts: 2 * a.parts * b.parts,
            }
        }
        _ => {
            let a = at(1);
            Model { lo: a.hi.neg(), hi: a.lo.neg(), ..a.clone() }
        }
    };
    let fine = |d: &Dy| d.m.is_zero() || (d.e > -500 && d.top() < 500);
    (m.size < 500 && fine(&m.lo) && fine(&m.hi) && m.parts <= 600).then_some(m)
}

fn step<A: Allocator + Copy>(row: &[i64], r: &[Reg<A>], m: Model, a: A) -> Reg<A> {
    let g = |k: usize| row.get(k).copied().unwrap_or(0);
    let at = |k: usize| &r[g(k).rem_euclid(r.len() as i64) as usize];
    let both = |f: fn(&ExpansionNum<A>, &ExpansionNum<A>) -> ExpansionNum<A>| match (&at(1).x, &at(2).x) {
        (Some(p), Some(q)) => Some(f(p, q)),
        _ => None,
    };
    let own = |f: fn(ExpansionNum<A>, ExpansionNum<A>) -> ExpansionNum<A>| match (at(1).x.clone(), at(2).x.clone()) {
        (Some(p), Some(q)) => Some(f(p, q)),
        _ => None,
    };
    // by reference or by value: every form of the operators
    let form = g(3).rem_euclid(4);
    let (p, q) = if g(0) >= 2 { (at(1).i.clone(), at(2).i.clone()) } else { (IntervalNumber::from(0.0), IntervalNumber::from(0.0)) };
    let (i, x) = match g(0) {
        0 | 1 => {
            let (lo, hi) = (scale(g(1), g(2).clamp(-80, 80)), scale(g(1) + if g(0) == 1 { g(3).clamp(0, 1 << 40) } else { 0 }, g(2).clamp(-80, 80)));
            if lo == hi {
                let mut v = Vec::new_in(a);
                v.push(lo);
                (IntervalNumber::from(lo), Some(ExpansionNum::from(v)))
            } else {
                (IntervalNumber::new(lo, hi), None)
            }
        }
        2 => (
            match form {
                0 => &p + &q,
                1 => p + q,
                2 => &p + q,
                _ => p + &q,
            },
            if form == 1 { own(|p, q| p + q) } else { both(|p, q| p + q) },
        ),
        3 => (
            match form {
                0 => &p - &q,
                1 => p - q,
                2 => &p - q,
                _ => p - &q,
            },
            if form == 1 { own(|p, q| p - q) } else { both(|p, q| p - q) },
        ),
        4 => (
            match form {
                0 => &p * &q,
                1 => p * q,
                2 => &p * q,
                _ => p * &q,
            },
            if form == 1 { own(|p, q| p * q) } else { both(|p, q| p * q) },
        ),
        _ => {
            let mut i = p;
            i.neg();
            let mut x = at(1).x.clone();
            if let Some(x) = &mut x {
                x.neg();
            }
            (i, x)
        }
    };
    Reg { m, i, x }
}

fn judge<A: Allocator + Copy>(r: &Reg<A>) -> Option<(&'static str, String)> {
    let (l, h) = (&r.m.lo, &r.m.hi);
    let show = |d: &Dy| format!("{:e}", d.near());
    let i = &r.i;
    let (p, n, z) = (i.positive(), i.negative(), i.not_zero());
    if p && l.sign() <= 0 || n && h.sign() >= 0 || z && l.sign() <= 0 && h.sign() >= 0 || (p && n) || (p || n) != z {
        return Some(("declared", format!("positive {p} negative {n} not zero {z}, but the exact interval is [{}, {}]", show(l), show(h))));
    }
    // differences from the exact bounds, in two parts as they need not be doubles
    let f = |v: f64| IntervalNumber::from(v);
    let t = l.near();
    let u = l.sub(&Dy::of(t)).above();
    if (&(i - &f(t)) - &f(u)).positive() {
        return Some(("misses-low", format!("the interval begins above its exact lower bound {}", show(l))));
    }
    let t = h.near();
    let u = -h.neg().add(&Dy::of(t)).above();
    if (&(i - &f(t)) - &f(u)).negative() {
        return Some(("misses-high", format!("the interval ends below its exact upper bound {}", show(h))));
    }
    // and it decides whatever is clear of rounding
    let slack = Dy { m: Big::from(1 + r.m.units as i64), e: r.m.size - 48 };
    if !p && l.sub(&slack).sign() > 0 || !n && h.add(&slack).sign() < 0 {
        return Some(("vague", format!("undecided although the exact interval is [{}, {}] from values below 2^{}", show(l), show(h), r.m.size)));
    }
    if let Some(x) = &r.x {
        let v: Vec<f64> = x.to_vec();
        if v.is_empty() || v.iter().any(|c| !c.is_finite()) {
            return Some(("expansion", format!("components {v:?}")));
        }
        let (c, e) = to_common(&v);
        let mut s = Big::zero();
        for y in c {
            s = s + y;
        }
        if (Dy { m: s, e: e as i64 }).sub(l).sign() != 0 {
            return Some(("expansion", format!("components {v:?} denote another value than {}", show(l))));
        }
        if v.len() > 1 && v.windows(2).any(|w| w[0] == 0.0 || w[1].abs() <= w[0].abs()) {
            return Some(("expansion-form", format!("components {v:?} are not in order")));
        }
        if x.not_zero() != (l.sign() != 0) || x.negative() != (l.sign() < 0) {
            return Some(("expansion-sign", format!("not zero {} negative {} for {}", x.not_zero(), x.negative(), show(l))));
        }
    }
    None
}

fn machine<A: Allocator + Copy>(c: &Case, a: A, cfg: &SimCfg, arena: Option<&SimArena>, fails: &[i64], v: &mut Verdict) {
    let mut models: Vec<Model> = vec![];
    let mut regs: Vec<Reg<A>> = vec![];
    for (k, row) in c.items.iter().enumerate() {
        if row.first().copied().unwrap_or(0) >= 2 && regs.is_empty() {
            continue;
        }
        let Some(m) = model(row, &models) else {
            v.stat("steps_out_of_domain", 1);
            continue;
        };
        let fail = fails.get(k % fails.len().max(1)).copied().unwrap_or(0).max(0) as u64;
        for fail in [fail, 0] {
            let mut cfg = cfg.clone();
            match arena {
                Some(x) => x.set_fail_at(fail),
                None => cfg.fail_at = fail,
            }
            let (r, tel) = under(&cfg, || step(row, &regs, m.clone(), a));
            if let Some(x) = arena {
                x.set_fail_at(0)
            }
            v.telemetry(&tel);
            match r {
                Ok(r) => {
                    if let Some((cl, d)) = judge(&r) {
                        v.fail(cl, format!("step {k} {row:?}: {d}"));
                        return;
                    }
                    v.log((r.i.positive() as u64) << 1 | r.i.negative() as u64);
                    if let Some(x) = &r.x {
                        for y in x.iter() {
                            v.log(y.to_bits());
                        }
                    }
                    if m.lo.sign() <= 0 && m.hi.sign() >= 0 || r.i.not_zero() {
                        v.stat("signs_settled", 1);
                    } else {
                        v.stat("signs_left_open", 1);
                    }
                    regs.push(r);
                    models.push(m.clone());
                    break;
                }
                Err(Fail::Oom) if fail > 0 => v.stat("step_failed_by_injected_oom", 1),
                Err(Fail::Budget) => v.fail("no-progress", format!("step {k} {row:?}")),
                Err(x) => v.fail("panic", format!("step {k} {row:?}: {x:?}")),
            }
            if v.bad() {
                return;
            }
        }
    }
    v.stat("operations", regs.len() as u64);
}

pub struct Arith;
impl Prop for Arith {
    fn id(&self) -> &'static str {
        "C17"
    }
    fn plan(&self, thorough: bool) -> (u64, u64) {
        if thorough {
            (8000, 1000)
        } else {
            (1200, 700)
        }
    }
    fn gen(&self, rng: &mut Rng, thorough: bool) -> Case {
        let mut c = Case { prop: self.id().into(), kind: "history".into(), ..Default::default() };
        let bits = *rng.pick(&[2i64, 10, 26, 30, 53]);
        let spread = *rng.pick(&[0i64, 0, 3, 30, 60]);
        let ranges = rng.chance(1, 2);
        let mut n = rng.range(1, 6);
        for _ in 0..n {
            let m = match rng.range(0, 5) {
                0 => rng.range(-2, 2),
                1 => (1i64 << rng.range(0, bits)) * if rng.chance(1, 2) { 1 } else { -1 },
                2 if bits > 3 => (1i64 << rng.range(1, bits)) - 1,
                _ => rng.range(-(1i64 << bits), 1i64 << bits),
            };
            let e = rng.range(-spread, spread);
            if ranges && rng.chance(1, 2) {
                let w = match rng.range(0, 3) {
                    0 => m.abs(), // ends at zero, when negative
                    1 => 1,
                    2 => rng.range(0, 1 << bits.min(40)),
                    _ => 0,
                };
                c.items.push(vec![1, if m > 0 && rng.chance(1, 3) { 0 } else { m }, e, w]);
            } else {
                c.items.push(vec![0, m, e]);
            }
        }
        let steps = rng.range(1, if thorough { 40 } else { 20 });
        let style = rng.range(0, 3);
        for _ in 0..steps {
            let mut pick = |rng: &mut Rng| if style > 1 && rng.chance(1, 2) { n - 1 - rng.range(0, 2.min(n - 1)) } else { rng.range(0, n - 1) };
            let op = *rng.pick(match style {
                0 => &[2i64, 3, 3, 4, 5][..],
                1 => &[2, 3][..],
                _ => &[2, 3, 4, 4, 5][..],
            });
            let (i, j) = (pick(rng), pick(rng));
            c.items.push(vec![op, i, j, rng.range(0, 3)]);
            n += 1;
            // the same value by another way, and the difference
            if op == 4 && rng.chance(1, 4) {
                c.items.push(vec![4, j, i, 0]);
                c.items.push(vec![3, n - 1, n, 0]);
                n += 2;
            }
        }
        let mut f = gen_sched(rng);
        f.push(rng.range(0, 2));
        for _ in 0..6 {
            f.push(if rng.chance(1, 4) { rng.range(1, 6) } else { 0 });
        }
        c.faults.push(f);
        c
    }
    fn run(&self, c: &Case) -> Verdict {
        let mut v = Verdict::new();
        if c.items.len() > 200 {
            v.stat("out_of_domain", 1);
            return v;
        }
        for f in &c.faults {
            let cfg = super::tet::sched_cfg(f, 3_000_000);
            let fails = f.get(5..).unwrap_or(&[]);
            match f.get(4).copied().unwrap_or(0) {
                0 => machine(c, Global, &cfg, None, fails, &mut v),
                1 => {
                    let b = bumpalo::Bump::new();
                    machine(c, &b, &cfg, None, fails, &mut v)
                }
                _ => {
                    let a = SimArena::new(ArenaCfg { dirty: cfg.dirty, reuse: 2, move_grow: cfg.move_realloc, poison: cfg.poison, fail_at: 0 });
                    machine(c, &a, &cfg, Some(&a), fails, &mut v);
                    if let Some(x) = a.tel().corrupt {
                        v.fail("memory", x);
                    }
                    v.stat("fault.alloc_fail", a.tel().failed);
                }
            }
            if v.bad() {
                return v;
            }
        }
        v.mark(c.digest());
        v.nontrivial = c.items.iter().any(|r| r.first().is_some_and(|k| (2..=4).contains(k)));
        v
    }
    fn rule(&self) -> &'static str {
        "distinct histories with at least one sum, difference or product"
    }
    fn shape_measure(&self) -> &'static str {
        "(operands, history, schedules) by hash"
    }
    fn real(&self) -> &'static [&'static str] {
        &["gpf::predicates::IntervalNumber, ExpansionNum and all forms of their operators", "bumpalo"]
    }
    fn stubbed(&self) -> &'static [&'static str] {
        &["the allocators: global and the one the caller passes (dirty, moving, poisoning, failing)"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["no overflow or underflow: values stay between 2^-500 and 2^500", "rounding to nearest, as everywhere in the library"]
    }
}
