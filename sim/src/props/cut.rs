//! C12/C13: both min-cut solvers over every order in which the same network can be handed to them.
//! C14: disjoint sets over every history of merges.
use super::tet::{gen_sched, sched_cfg};
use crate::case::{Case, Prop, Verdict};
use crate::rng::Rng;
use crate::seams::{simulate, Fail};
use gpf::graphcut::{ArcBuilder, GraphCut, MaxFlow, PushRelabelFifo};

/// source is 0, sink is n+1
#[derive(Clone)]
struct Net {
    n: usize,
    arcs: Vec<(usize, usize, i64)>,
}

/// A plain shape with so many nodes that indices, distances and clocks leave 16 bits.
fn huge_net(c: &Case) -> Net {
    let n = c.p("n").clamp(2, 150_000) as usize;
    let mut rng = Rng::new(c.p("seed") as u64);
    // a band of varied capacities would take the solvers minutes
    let top = if c.p("shape") == 1 { 1 } else { c.p("cap").clamp(1, 10_000) };
    let s = n + 1;
    let mut arcs = vec![];
    let mut cap = |rng: &mut Rng| rng.range(1, top);
    match c.p("shape").rem_euclid(5) {
        4 => {
            // every node at one terminal, joined to the next and to one a little before: one path
            // after the other, each short
            let back = rng.range(2, 300);
            for i in 1..=n {
                let (a, b) = (rng.range(0, top), rng.range(0, top));
                arcs.push((0, i, a));
                arcs.push((i, s, b));
                if i > 1 {
                    arcs.push((i - 1, i, cap(&mut rng)));
                    arcs.push((i, i - 1, cap(&mut rng)));
                }
                let j = i as i64 - 1 - rng.range(1, back);
                if j > 0 {
                    arcs.push((j as usize, i, cap(&mut rng)));
                    arcs.push((i, j as usize, cap(&mut rng)));
                }
            }
        }
        0 => {
            // a chain with few entries and exits
            for i in 1..n {
                let w = cap(&mut rng);
                arcs.push((i, i + 1, w));
                if rng.chance(1, 3) {
                    arcs.push((i + 1, i, w));
                }
            }
            arcs.push((0, 1, top));
            arcs.push((n, s, top));
            for _ in 0..rng.range(0, 6) {
                arcs.push((0, rng.range(1, n as i64) as usize, cap(&mut rng)));
                arcs.push((rng.range(1, n as i64) as usize, s, cap(&mut rng)));
            }
        }
        1 => {
            // a band
            let w = rng.range(2, 7) as usize;
            for i in 1..=n {
                for j in [i + 1, i + w] {
                    if j <= n && (j != i + 1 || i % w != 0) {
                        let x = cap(&mut rng);
                        arcs.push((i, j, x));
                        arcs.push((j, i, x));
                    }
                }
                if i <= w {
                    arcs.push((0, i, cap(&mut rng)));
                }
                if i + w > n {
                    arcs.push((i, s, cap(&mut rng)));
                }
            }
        }
        2 => {
            // every node at both terminals, neighbours joined
            for i in 1..=n {
                arcs.push((0, i, cap(&mut rng)));
                arcs.push((i, s, cap(&mut rng)));
                if i < n && rng.chance(1, 2) {
                    arcs.push((i, i + 1, cap(&mut rng)));
                }
            }
        }
        _ => {
            // a tree from the source down, its leaves at the sink
            for i in 1..=n {
                if i == 1 {
                    arcs.push((0, 1, top * n as i64));
                } else {
                    arcs.push((i / 2, i, cap(&mut rng) * (n / i) as i64));
                }
                if 2 * i > n {
                    arcs.push((i, s, cap(&mut rng)));
                }
            }
        }
    }
    Net { n, arcs }
}

fn network(c: &Case) -> Net {
    if c.kind == "huge" {
        return huge_net(c);
    }
    let n = c.p("n").clamp(0, 4000) as usize;
    let mut arcs = vec![];
    for r in &c.items {
        if r.len() < 4 {
            continue;
        }
        let (a, b) = (r[0], r[1]);
        if a < 0 || b < 0 || a > n as i64 + 1 || b > n as i64 + 1 {
            continue;
        }
        let cap = |x: i64| x.clamp(0, 1 << 40);
        arcs.push((a as usize, b as usize, cap(r[2])));
        if r[3] > 0 {
            arcs.push((b as usize, a as usize, cap(r[3])));
        }
    }
    Net { n, arcs }
}

/// exact reference: shortest augmenting paths with blocking flows
fn reference(net: &Net) -> i128 {
    let m = net.n + 2;
    let mut adj: Vec<Vec<usize>> = vec![vec![]; m];
    let mut to: Vec<usize> = vec![];
    let mut cap: Vec<i128> = vec![];
    for &(a, b, w) in &net.arcs {
        adj[a].push(to.len());
        to.push(b);
        cap.push(w as i128);
        adj[b].push(to.len());
        to.push(a);
        cap.push(0);
    }
    let mut flow = 0;
    loop {
        let mut level = vec![usize::MAX; m];
        level[0] = 0;
        let mut q = std::collections::VecDeque::from([0]);
        while let Some(v) = q.pop_front() {
            for &e in &adj[v] {
                if cap[e] > 0 && level[to[e]] == usize::MAX {
                    level[to[e]] = level[v] + 1;
                    q.push_back(to[e]);
                }
            }
        }
        if level[m - 1] == usize::MAX {
            return flow;
        }
        let mut it = vec![0; m];
        loop {
            // one path by iterative depth-first search
            let mut path: Vec<usize> = vec![];
            let mut v = 0;
            let mut found = false;
            loop {
                if v == m - 1 {
                    found = true;
                    break;
                }
                let mut moved = false;
                while it[v] < adj[v].len() {
                    let e = adj[v][it[v]];
                    if cap[e] > 0 && level[to[e]] == level[v] + 1 {
                        path.push(e);
                        v = to[e];
                        moved = true;
                        break;
                    }
                    it[v] += 1;
                }
                if !moved {
                    match path.pop() {
                        Some(e) => {
                            v = to[e ^ 1];
                            it[v] += 1;
                        }
                        None => break,
                    }
                }
            }
            if !found {
                break;
            }
            let d = path.iter().map(|&e| cap[e]).min().unwrap_or(0);
            for &e in &path {
                cap[e] -= d;
                cap[e ^ 1] += d;
            }
            flow += d;
        }
    }
}

fn cut_value(net: &Net, sink_side: &[bool]) -> i128 {
    net.arcs.iter().filter(|a| !sink_side[a.0] && sink_side[a.1]).map(|a| a.2 as i128).sum()
}

/// the order in which the arcs arrive: permuted, some split into several parallel arcs, some
/// accompanied by arcs of no capacity
fn deliver(net: &Net, f: &[i64]) -> Vec<(usize, usize, i64)> {
    let mut rng = Rng::new(f.get(4).copied().unwrap_or(0) as u64);
    let how = f.get(5).copied().unwrap_or(0);
    let mut out = vec![];
    for &(a, b, w) in &net.arcs {
        if how & 1 != 0 && rng.chance(1, 4) && w > 1 {
            let p = rng.range(1, w - 1);
            out.push((a, b, p));
            out.push((a, b, w - p));
        } else {
            out.push((a, b, w));
        }
        if how & 2 != 0 && rng.chance(1, 6) {
            out.push((a, b, 0));
        }
        if how & 2 != 0 && rng.chance(1, 6) {
            out.push((b, a, 0));
        }
    }
    if how & 4 != 0 {
        rng.shuffle(&mut out);
    }
    out
}

fn gen_net(rng: &mut Rng, thorough: bool, c: &mut Case) {
    if rng.chance(1, 3_000) {
        c.kind = "huge".into();
        c.set("n", rng.range(33_000, 140_000));
        c.set("shape", rng.range(0, 4));
        c.set("cap", *rng.pick(&[1, 3, 1000]));
        c.set("seed", rng.range(0, 1 << 40));
        let mut f = gen_sched(rng);
        f.push(rng.range(0, 1 << 40));
        f.push(rng.range(0, 7));
        c.faults.push(f);
        return;
    }
    let n = match rng.below(12) {
        0 => rng.range(0, 2),
        1..=4 => rng.range(2, 6),
        5..=8 => rng.range(4, 16),
        9 | 10 => rng.range(10, 40),
        _ if rng.chance(1, 40) => rng.range(90, if thorough { 3000 } else { 1500 }),
        _ => rng.range(40, if thorough { 200 } else { 90 }),
    };
    c.set("n", n);
    let s = n + 1;
    let style = rng.below(6);
    let big = *rng.pick(&[1, 2, 4, 10, 1000, 1 << 30]);
    let cap = |rng: &mut Rng| -> i64 {
        match rng.below(8) {
            0 => 0,
            1 => big,
            _ => rng.range(0, big),
        }
    };
    c.kind = ["random", "grid", "layers", "chain", "terminals", "tangle"][style as usize].into();
    let push = |c: &mut Case, a: i64, b: i64, w: i64, r: i64| c.items.push(vec![a, b, w, r]);
    match style {
        0 => {
            for _ in 0..rng.range(0, 4 * n + 2) {
                let (a, b) = (rng.range(0, s), rng.range(0, s));
                let r = if rng.chance(1, 3) { cap(rng) } else { 0 };
                let w = cap(rng);
                push(c, a, b, w, r);
            }
        }
        1 => {
            // cells of a grid, like the cells of a volume mesh
            let w = ((n as f64).sqrt() as i64).max(1);
            for i in 1..=n {
                if (i - 1) % w + 1 < w && i < n {
                    let x = cap(rng);
                    push(c, i, i + 1, x, x);
                }
                if i + w <= n {
                    let x = cap(rng);
                    push(c, i, i + w, x, x);
                }
                match rng.below(4) {
                    0 => {
                        let x = cap(rng);
                        push(c, 0, i, x, 0)
                    }
                    1 => {
                        let x = cap(rng);
                        push(c, i, s, x, 0)
                    }
                    _ => {}
                }
            }
        }
        2 => {
            let l = rng.range(2, 6);
            let per = (n / l).max(1);
            for i in 1..=n {
                let (k, nk) = ((i - 1) / per, (n - 1) / per);
                if k == 0 {
                    let x = cap(rng);
                    push(c, 0, i, x, 0);
                }
                if k >= nk {
                    let x = cap(rng);
                    push(c, i, s, x, 0);
                } else {
                    for _ in 0..rng.range(1, 3) {
                        let j = (k + 1) * per + 1 + rng.range(0, per - 1);
                        let x = cap(rng);
                        let r = if rng.chance(1, 4) { cap(rng) } else { 0 };
                        push(c, i, j.min(n), x, r);
                    }
                }
            }
        }
        3 => {
            // long chains with dead ends: distances up to the number of nodes
            let x = cap(rng).max(1);
            push(c, 0, 1, x, 0);
            for i in 1..n {
                let x = if rng.chance(1, 8) { cap(rng) } else { cap(rng).max(1) };
                let r = if rng.chance(1, 2) { cap(rng) } else { 0 };
                push(c, i, i + 1, x, r);
            }
            let x = cap(rng);
            push(c, n.max(1), s, x, 0);
            for _ in 0..rng.range(0, n / 2 + 1) {
                let (a, b) = (rng.range(0, s), rng.range(1, s));
                let x = cap(rng);
                push(c, a, b, x, 0);
            }
        }
        4 => {
            for i in 1..=n {
                let x = cap(rng);
                push(c, 0, i, x, 0);
                let x = cap(rng);
                push(c, i, s, x, 0);
            }
            for _ in 0..rng.range(0, 3 * n) {
                let (a, b) = (rng.range(1, n), rng.range(1, n));
                let (x, r) = (cap(rng), cap(rng));
                push(c, a, b, x, r);
            }
        }
        _ => {
            // arcs into the source and out of the sink as well, cycles, few terminals
            for _ in 0..rng.range(1, 3) {
                let (a, b) = (rng.range(1, n.max(1)), rng.range(1, n.max(1)));
                let (x, y) = (cap(rng).max(1), cap(rng).max(1));
                push(c, 0, a, x, 0);
                push(c, b, s, y, 0);
            }
            for _ in 0..rng.range(n, 3 * n + 1) {
                let (a, b) = (rng.range(0, s), rng.range(0, s));
                let (x, r) = (cap(rng), if rng.chance(1, 2) { cap(rng) } else { 0 });
                push(c, a, b, x, r);
            }
        }
    }
    rng.shuffle(&mut c.items);
    for _ in 0..rng.range(2, 4) {
        let mut f = gen_sched(rng);
        f.push(rng.range(0, 1 << 40));
        f.push(rng.range(0, 7));
        c.faults.push(f);
    }
}

/// capacity as the solver's number: exact dyadic, or inexact thirds
fn num(x: i64, ty: i64) -> f64 {
    match ty {
        2 => x as f64 / 1024.0,
        _ => x as f64 / 3.0,
    }
}

struct Outcome {
    sink_side: Vec<bool>,
    /// the same after the solver was run once more
    again: Vec<bool>,
    /// flow the solver reports, if it reports one
    flow: Option<f64>,
}

fn fifo<T>(arcs: Vec<(usize, usize, T)>, n: usize) -> Outcome
where
    T: Copy + PartialOrd + From<i32> + std::ops::AddAssign + std::ops::SubAssign,
{
    let mut g = PushRelabelFifo::from((arcs, n + 2));
    g.find_max_flow();
    let sink_side: Vec<bool> = (0..n + 2).map(|i| g.is_sink(i)).collect();
    // asked again, it still has a minimum cut
    g.find_max_flow();
    let again: Vec<bool> = (0..n + 2).map(|i| g.is_sink(i)).collect();
    Outcome { sink_side, again, flow: None }
}

fn judge(id: &str, net: &Net, ty: i64, o: &Outcome, want: i128) -> Option<(&'static str, String)> {
    let n = net.n;
    if id == "C13" && (o.sink_side[0] || !o.sink_side[n + 1]) {
        return Some(("terminal-side", format!("source on the sink's side: {}, sink on it: {}", o.sink_side[0], o.sink_side[n + 1])));
    }
    let total: i128 = net.arcs.iter().map(|a| a.2 as i128).sum();
    let tol = if ty == 3 { 1e-9 * total as f64 + 1e-300 } else { 0.0 };
    for (side, what) in [(&o.sink_side, ""), (&o.again, " after a second run")] {
        let cut = cut_value(net, side);
        if (cut - want).abs() as f64 > tol {
            return Some(("not-minimum", format!("the cut returned{what} costs {cut}, the minimum is {want} ({n} nodes, {} arcs)", net.arcs.len())));
        }
    }
    if let Some(f) = o.flow {
        let w = match ty {
            2 => want as f64 / 1024.0,
            _ => want as f64 / 3.0,
        };
        let tol = if ty == 3 { 1e-9 * total as f64 / 3.0 + 1e-300 } else { 0.0 };
        if (f - w).abs() > tol || f.is_nan() {
            return Some(("wrong-flow", format!("flow {f}, the maximum is {w}")));
        }
    }
    None
}

fn execute(id: &'static str, c: &Case) -> Verdict {
    let mut v = Verdict::new();
    let mut net = network(c);
    let ty = c.p("type").clamp(0, 3);
    if id == "C12" {
        // this solver knows terminals only as capacities of nodes
        let s = net.n + 1;
        net.arcs.retain(|a| a.1 != 0 && a.0 != s && !(a.0 == 0 && a.1 == s));
        if net.n == 0 {
            v.stat("out_of_domain", 1);
            return v;
        }
    }
    let total: i128 = net.arcs.iter().map(|a| a.2 as i128).sum();
    if (ty == 0 && total > i32::MAX as i128 / 2) || total > 1 << 50 {
        v.stat("out_of_domain", 1);
        return v;
    }
    let want = reference(&net);
    let n = net.n;
    if c.kind == "huge" {
        v.stat("probe.huge_networks", 1);
    }
    for f in &c.faults {
        let arcs = deliver(&net, f);
        let builder = c.p("builder") == 1 && arcs.iter().all(|a| a.2 == 0 || a.1 != 0 && a.0 != n + 1 && !(a.0 == 0 && a.1 == n + 1));
        let cfg = sched_cfg(f, 200_000 + 2_000 * (n + arcs.len()) as u64);
        let (r, tel) = simulate(&cfg, || {
            if id == "C12" {
                let (mut src, mut snk) = (vec![0i64; n], vec![0i64; n]);
                for &(a, b, w) in &arcs {
                    if w == 0 {
                    } else if a == 0 {
                        src[b - 1] += w;
                    } else if b == n + 1 {
                        snk[a - 1] += w;
                    }
                }
                let mut g = GraphCut::new(
                    &src.iter().map(|&x| num(x, ty)).collect::<Vec<_>>(),
                    &snk.iter().map(|&x| num(x, ty)).collect::<Vec<_>>(),
                );
                let mut k = 0;
                while k < arcs.len() {
                    let (a, b, w) = arcs[k];
                    k += 1;
                    if a == 0 || b == 0 || a == n + 1 || b == n + 1 {
                        continue;
                    }
                    // an arc and its opposite may arrive together
                    if k < arcs.len() && arcs[k].0 == b && arcs[k].1 == a {
                        g.add_edge(a - 1, b - 1, num(w, ty), num(arcs[k].2, ty));
                        k += 1;
                    } else {
                        g.add_edge(a - 1, b - 1, num(w, ty), 0.0);
                    }
                }
                let flow = g.max_flow();
                let mut side = vec![false];
                side.extend(&g.is_sink);
                side.push(true);
                let flow2 = g.max_flow();
                let mut again = vec![false];
                again.extend(&g.is_sink);
                again.push(true);
                let flow = if flow2 != flow || g.flow != flow { f64::NAN } else { flow };
                return Outcome { sink_side: side, again, flow: Some(flow) };
            }
            if builder {
                let (mut src, mut snk) = (vec![0i64; n], vec![0i64; n]);
                for &(a, b, w) in &arcs {
                    if w == 0 {
                    } else if a == 0 {
                        src[b - 1] += w;
                    } else if b == n + 1 {
                        snk[a - 1] += w;
                    }
                }
                let inner: Vec<_> = arcs.iter().filter(|a| a.0 != 0 && a.1 != n + 1 && a.1 != 0 && a.0 != n + 1).cloned().collect();
                macro_rules! build {
                    ($t:ty, $f:expr) => {{
                        let f = $f;
                        let mut b = ArcBuilder::<$t>::new(
                            src.iter().map(|&x| f(x)).collect::<Vec<$t>>(),
                            snk.iter().map(|&x| f(x)).collect::<Vec<$t>>(),
                        );
                        let mut k = 0;
                        while k < inner.len() {
                            let (x, y, w) = inner[k];
                            k += 1;
                            let rev = k < inner.len() && inner[k] == (y, x, w);
                            if rev {
                                k += 1;
                            }
                            b.add_arc(x - 1, y - 1, f(w), rev);
                        }
                        fifo(b.arcs, n)
                    }};
                }
                match ty {
                    0 => build!(i32, |x: i64| x as i32),
                    1 => build!(i64, |x: i64| x),
                    _ => build!(f64, |x: i64| num(x, ty)),
                }
            } else {
                match ty {
                    0 => fifo(arcs.iter().map(|a| (a.0, a.1, a.2 as i32)).collect(), n),
                    1 => fifo(arcs.iter().map(|a| (a.0, a.1, a.2)).collect(), n),
                    _ => fifo(arcs.iter().map(|a| (a.0, a.1, num(a.2, ty))).collect(), n),
                }
            }
        });
        v.telemetry(&tel);
        v.stat("schedules", 1);
        match r {
            Ok(o) => {
                for (i, &b) in o.sink_side.iter().enumerate() {
                    v.log((i as u64) << 1 | b as u64);
                }
                v.log(o.flow.unwrap_or(0.0).to_bits());
                for a in &arcs {
                    v.mark((a.0 as u64) << 32 | a.1 as u64);
                    v.mark(a.2 as u64);
                }
                if let Some((cl, d)) = judge(id, &net, ty, &o, want) {
                    v.fail(cl, d);
                }
            }
            Err(Fail::Budget) => v.fail("no-progress", "step budget exceeded"),
            Err(x) => v.fail("panic", format!("{x:?}")),
        }
        if v.bad() {
            return v;
        }
    }
    v.stat(if want > 0 { "probe.flow_positive" } else { "probe.flow_zero" }, 1);
    v.nontrivial = want > 0;
    v
}

const STUB: &[&str] = &["OS entropy and the global allocator are the simulator's; the arrival order, splitting and duplication of arcs is its fault plan"];

pub struct Kolmogorov;
pub struct Fifo;
macro_rules! cut_prop {
    ($t:ident, $id:expr, $real:expr, $as:expr) => {
        impl Prop for $t {
            fn id(&self) -> &'static str {
                $id
            }
            fn plan(&self, thorough: bool) -> (u64, u64) {
                if thorough {
                    (20000, 400)
                } else {
                    (2000, 250)
                }
            }
            fn gen(&self, rng: &mut Rng, thorough: bool) -> Case {
                let mut c = Case::default();
                gen_net(rng, thorough, &mut c);
                c.set("type", if $id == "C12" { rng.range(2, 3) } else { rng.range(0, 3) });
                if $id == "C13" && rng.chance(1, 3) {
                    c.set("builder", 1);
                }
                c
            }
            fn run(&self, c: &Case) -> Verdict {
                execute($id, c)
            }
            fn rule(&self) -> &'static str {
                "distinct (network, arrival orders) with a positive maximum flow, judged against an exact reference"
            }
            fn shape_measure(&self) -> &'static str {
                "arrival sequences of the arcs"
            }
            fn real(&self) -> &'static [&'static str] {
                $real
            }
            fn stubbed(&self) -> &'static [&'static str] {
                STUB
            }
            fn assumptions(&self) -> &'static [&'static str] {
                $as
            }
        }
    };
}
cut_prop!(
    Kolmogorov,
    "C12",
    &["gpf::graphcut::GraphCut"],
    &["capacities are finite and non-negative", "inexact capacities are judged to 1e-9 of their sum, dyadic ones exactly"]
);
cut_prop!(
    Fifo,
    "C13",
    &["gpf::graphcut::PushRelabelFifo over i32, i64 and f64", "gpf::graphcut::ArcBuilder", "hashbrown"],
    &["capacities are finite, non-negative and do not overflow the number type", "inexact capacities are judged to 1e-9 of their sum, all others exactly"]
);

/// A history of hundreds of thousands of joins of one plain shape, checked at its end.
fn huge_sets(c: &Case) -> Verdict {
    let mut v = Verdict::new();
    let n = c.p("n").clamp(2, 400_000) as usize;
    let mut rng = Rng::new(c.p("seed") as u64);
    let mut links: Vec<(usize, usize)> = match c.p("shape") {
        0 => (1..n).map(|i| (i - 1, i)).collect(),
        1 => (1..n).map(|i| (0, i)).collect(),
        2 => (1..n).map(|i| (i / 2, i)).collect(),
        _ => {
            // equal groups joined pairwise
            let mut l = vec![];
            let mut w = 1;
            while w < n {
                l.extend((0..n - w).step_by(2 * w).map(|i| (i, i + w)));
                w *= 2;
            }
            l
        }
    };
    let drop = c.p("drop");
    links.retain(|_| drop == 0 || rng.range(0, 1000) >= drop);
    match c.p("order") {
        0 => {}
        1 => links.reverse(),
        2 => rng.shuffle(&mut links),
        _ => {
            let k = links.len() / 2;
            links.rotate_left(k);
        }
    }
    for l in links.iter_mut() {
        let f = match c.p("flip") {
            0 => false,
            1 => true,
            _ => rng.chance(1, 2),
        };
        if f {
            *l = (l.1, l.0);
        }
    }
    // model: merge the smaller list of members into the larger
    let mut lab: Vec<usize> = (0..n).collect();
    let mut mem: Vec<Vec<usize>> = (0..n).map(|i| vec![i]).collect();
    let mut groups = n;
    for &(a, b) in &links {
        let (mut p, mut q) = (lab[a], lab[b]);
        if p == q {
            continue;
        }
        if mem[p].len() > mem[q].len() {
            std::mem::swap(&mut p, &mut q);
        }
        let m = std::mem::take(&mut mem[p]);
        for &x in &m {
            lab[x] = q;
        }
        mem[q].extend(m);
        groups -= 1;
    }
    let cfg = sched_cfg(&c.faults.first().cloned().unwrap_or_default(), 100_000 + 200 * n as u64);
    let (r, tel) = simulate(&cfg, || {
        let mut ds = gpf::disjoint_set::DisjointSet::new(n);
        for &(a, b) in &links {
            ds.merge(a, b);
        }
        let out = ds.output();
        (ds.n_groups, out)
    });
    v.telemetry(&tel);
    v.stat("schedules", 1);
    v.stat("probe.huge_histories", 1);
    match r {
        Ok((count, out)) => {
            if count != groups || out.len() != groups {
                v.fail("count", format!("{n} elements: {count} groups counted, {} listed, {groups} exist", out.len()));
            }
            let mut seen = vec![false; n];
            for (k, g) in &out {
                for &x in g {
                    if x >= n || std::mem::replace(&mut seen[x], true) {
                        v.fail("partition", format!("element {x} listed twice or unknown"));
                        return v;
                    }
                    if lab[x] != lab[*k] {
                        v.fail("wrong-group", format!("{x} and {k} were never joined"));
                        return v;
                    }
                }
            }
            if seen.iter().any(|s| !s) {
                v.fail("partition", "an element is missing");
            }
            v.log(groups as u64);
        }
        Err(Fail::Budget) => v.fail("no-progress", "step budget exceeded"),
        Err(x) => v.fail("panic", format!("{x:?}")),
    }
    v.mark(c.digest());
    v.stat("merges", links.len() as u64);
    v.nontrivial = true;
    v
}

pub struct Sets;
impl Prop for Sets {
    fn id(&self) -> &'static str {
        "C14"
    }
    fn plan(&self, thorough: bool) -> (u64, u64) {
        if thorough {
            (20000, 400)
        } else {
            (2000, 250)
        }
    }
    fn gen(&self, rng: &mut Rng, thorough: bool) -> Case {
        let mut c = Case::default();
        if rng.chance(1, 6000) {
            c.kind = "huge".into();
            c.set("n", rng.range(20_000, 300_000));
            c.set("shape", rng.range(0, 3));
            c.set("order", rng.range(0, 3));
            c.set("flip", rng.range(0, 2));
            c.set("drop", if rng.chance(1, 2) { 0 } else { rng.range(1, 300) });
            c.set("seed", rng.range(0, 1 << 40));
            c.faults.push(gen_sched(rng));
            return c;
        }
        let n = match rng.below(6) {
            0 => rng.range(1, 3),
            1..=3 => rng.range(2, 12),
            4 => rng.range(10, 64),
            _ if rng.chance(1, 200) => rng.range(200, 3000),
            _ => rng.range(50, if thorough { 600 } else { 200 }),
        };
        c.set("n", n);
        let style = rng.below(5);
        c.kind = ["random", "chain", "balanced", "hub", "tournament"][style as usize].into();
        let m = rng.range(0, 2 * n + 2);
        let (mut round, mut at) = (1, 0);
        for k in 0..m {
            let (a, b) = match style {
                4 => {
                    // equal groups joined pairwise: the deepest trees
                    let pick = |rng: &mut Rng| if rng.chance(1, 2) { 0 } else { rng.range(0, round - 1) };
                    let p = (at + pick(rng), at + round + pick(rng));
                    at += 2 * round;
                    if at + round >= n {
                        at = 0;
                        round = if round * 2 < n { round * 2 } else { 1 };
                    }
                    (p.0.min(n - 1), p.1.min(n - 1))
                }
                0 => (rng.range(0, n - 1), rng.range(0, n - 1)),
                1 => (k % n, (k + 1) % n),
                2 => {
                    let w = 1 << (k % 7).min(6);
                    let x = rng.range(0, n - 1);
                    (x, (x ^ w).min(n - 1))
                }
                _ => (if rng.chance(2, 3) { 0 } else { rng.range(0, n - 1) }, rng.range(0, n - 1)),
            };
            if rng.chance(1, 2) {
                c.items.push(vec![0, a, b]);
            } else {
                c.items.push(vec![0, b, a]);
            }
            if rng.chance(1, 12) {
                c.items.push(vec![1]);
            }
        }
        if rng.chance(1, 3) {
            rng.shuffle(&mut c.items);
        }
        for _ in 0..2 {
            c.faults.push(gen_sched(rng));
        }
        c
    }
    fn run(&self, c: &Case) -> Verdict {
        if c.kind == "huge" {
            return huge_sets(c);
        }
        let mut v = Verdict::new();
        let n = c.p("n").clamp(1, 5000) as usize;
        for f in &c.faults {
            let cfg = sched_cfg(f, 100_000 + 4_000 * (n as u64 + 1) * (c.items.len() as u64 / 8 + 1));
            let (r, tel) = simulate(&cfg, || -> Option<(&'static str, String)> {
                let mut ds = gpf::disjoint_set::DisjointSet::new(n);
                // model: label per element
                let mut lab: Vec<usize> = (0..n).collect();
                let mut groups = n;
                let mut look = |ds: &mut gpf::disjoint_set::DisjointSet, lab: &[usize], groups: usize, at: usize| {
                    if ds.n_groups != groups {
                        return Some(("count", format!("after step {at}: {} groups counted, {groups} exist", ds.n_groups)));
                    }
                    let out = ds.output();
                    let r = crate::seams::suspended(|| {
                        if out.len() != groups {
                            return Some(("count", format!("after step {at}: {} groups listed, {groups} exist", out.len())));
                        }
                        let mut seen = vec![false; n];
                        for (k, g) in &out {
                            if !g.contains(k) {
                                return Some(("representative", format!("after step {at}: group of {k} does not contain it: {g:?}")));
                            }
                            for &x in g {
                                if x >= n || seen[x] {
                                    return Some(("partition", format!("after step {at}: element {x} listed twice or unknown")));
                                }
                                seen[x] = true;
                                if lab[x] != lab[*k] {
                                    return Some(("wrong-group", format!("after step {at}: {x} and {k} were never joined")));
                                }
                            }
                        }
                        if seen.iter().any(|s| !s) {
                            return Some(("partition", format!("after step {at}: an element is missing")));
                        }
                        None
                    });
                    drop(out);
                    r
                };
                for (k, row) in c.items.iter().enumerate() {
                    if row.first() == Some(&1) {
                        if let Some(x) = look(&mut ds, &lab, groups, k) {
                            return Some(x);
                        }
                    } else if row.len() >= 3 {
                        let (a, b) = (row[1].rem_euclid(n as i64) as usize, row[2].rem_euclid(n as i64) as usize);
                        ds.merge(a, b);
                        if lab[a] != lab[b] {
                            groups -= 1;
                            let (p, q) = (lab[a], lab[b]);
                            for l in lab.iter_mut() {
                                if *l == p {
                                    *l = q;
                                }
                            }
                        }
                        if ds.n_groups != groups {
                            return Some(("count", format!("after step {k}: {} groups counted, {groups} exist", ds.n_groups)));
                        }
                    }
                }
                look(&mut ds, &lab, groups, c.items.len())
            });
            v.telemetry(&tel);
            v.stat("schedules", 1);
            match r {
                Ok(Some((cl, d))) => v.fail(cl, d),
                Ok(None) => {}
                Err(Fail::Budget) => v.fail("no-progress", "step budget exceeded"),
                Err(x) => v.fail("panic", format!("{x:?}")),
            }
            if v.bad() {
                return v;
            }
        }
        v.mark(c.digest());
        v.stat("merges", c.items.len() as u64);
        v.nontrivial = c.items.len() > 1 && n > 2;
        v
    }
    fn rule(&self) -> &'static str {
        "distinct histories of merges and listings over more than two elements"
    }
    fn shape_measure(&self) -> &'static str {
        "histories of merges and listings"
    }
    fn real(&self) -> &'static [&'static str] {
        &["gpf::disjoint_set::DisjointSet", "hashbrown"]
    }
    fn stubbed(&self) -> &'static [&'static str] {
        &["OS entropy (hash keys) and the global allocator are the simulator's"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["elements are below the declared size"]
    }
}
