//! C16: any operations on separate objects, in several threads interleaved at any allocation or one
//! after another on one thread, some of them cut short by a failing allocation. Every caller still
//! gets a right answer (by the oracle of its own property) and the same one as when alone.
use crate::case::{Case, Prop, Verdict};
use crate::rng::Rng;
use crate::sched::Sched;
use crate::seams::{cut_next, set_inline};

const JOBS: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C12", "C13", "C14", "C11", "C15", "C17"];

fn job(row: &[i64]) -> Option<(Box<dyn Prop>, Case)> {
    let id = JOBS.get(row.first().copied()?.rem_euclid(JOBS.len() as i64) as usize)?;
    let p = super::all().into_iter().find(|p| p.id() == *id)?;
    let mut rng = Rng::new(row.get(1).copied().unwrap_or(0) as u64);
    let mut c = p.gen(&mut rng, false);
    // the rare inputs that test sizes are left to their own property: one of them takes longer than
    // the run it would be part of, many times over when every basic block can be interrupted
    for _ in 0..20 {
        if ["huge", "big", "many"].contains(&c.kind.as_str()) || *id == "C09" && c.items.len() > 26 {
            c = p.gen(&mut rng, false);
        }
    }
    if rng.chance(1, 6) {
        c.set("negz", 1);
    }
    // all callers busy with the same kind of query
    let focus = row.get(4).copied().unwrap_or(0);
    if focus > 0 && ["C04", "C05", "C06"].contains(id) {
        let n = if *id == "C05" { super::expl::OPS } else { 10 };
        for f in c.faults.iter_mut() {
            f[0] = focus % n;
        }
    }
    Some((p, c))
}

pub struct Isolated;
impl Prop for Isolated {
    fn id(&self) -> &'static str {
        "C16"
    }
    fn plan(&self, thorough: bool) -> (u64, u64) {
        if thorough {
            (1500, 100)
        } else {
            (240, 60)
        }
    }
    fn gen(&self, rng: &mut Rng, thorough: bool) -> Case {
        if rng.chance(1, 8) {
            // one operation cut short at allocation after allocation, a whole one after each
            let mut c = Case { prop: self.id().into(), kind: "sequence".into(), ..Default::default() };
            let light = ["C02", "C03", "C03", "C04", "C05", "C06", "C07", "C08", "C12", "C13", "C14", "C15", "C17"];
            let at = |id: &str| JOBS.iter().position(|x| *x == id).unwrap() as i64;
            let a = at(light[rng.us(light.len())]);
            let b = if rng.chance(1, 4) { at(light[rng.us(light.len())]) } else { a };
            let (sa, sb) = (rng.range(0, 1 << 40), rng.range(0, 1 << 40));
            let top = 1 << rng.range(3, 9);
            let base = rng.range(1, top);
            for i in 0..rng.range(4, 12) {
                c.items.push(vec![a, sa, base + i]);
                c.items.push(vec![b, sb, 0]);
            }
            c.faults.push(vec![1, 1, 20]);
            return c;
        }
        if rng.chance(1, 2) {
            // threads that do many small operations of one or two kinds at the same time
            let mut c = Case { prop: self.id().into(), kind: "threads".into(), ..Default::default() };
            let light = ["C02", "C03", "C04", "C05", "C06", "C07", "C08", "C12", "C13", "C14", "C15", "C17"];
            let at = |id: &str| JOBS.iter().position(|x| *x == id).unwrap() as i64;
            let a = at(light[rng.us(light.len())]);
            let b = if rng.chance(1, 6) { at(light[rng.us(light.len())]) } else { a };
            let threads = if rng.chance(1, 3) { rng.range(2, 4) } else { 2 };
            let focus = if rng.chance(1, 2) { rng.range(1, 1000) } else { 0 };
            for t in 0..threads {
                // now and then the same operations in several threads
                let again = t > 0 && rng.chance(1, 6);
                for i in 0..rng.range(2, 12) {
                    let old = if again { c.items.get(i as usize).cloned() } else { None };
                    let k = if rng.chance(1, 2) { a } else { b };
                    let cut = if rng.chance(1, 20) { rng.range(1, 200) } else { 0 };
                    let mut row = old.unwrap_or_else(|| vec![k, rng.range(0, 1 << 40), cut, 0, focus]);
                    row[3] = t;
                    c.items.push(row);
                }
            }
            c.faults.push(vec![rng.range(0, 1 << 40), *rng.pick(&[1, 7, 40, 400]), *rng.pick(&[300, 3000, 10_000]), *rng.pick(&[3, 10, 30, 100, 300, 3000])]);
            return c;
        }
        let threads = rng.chance(3, 4);
        let mut c = Case { prop: self.id().into(), kind: if threads { "threads" } else { "sequence" }.into(), ..Default::default() };
        let n = if threads { rng.range(2, if thorough { 6 } else { 4 }) } else { rng.range(2, 6) };
        // often the same kind of work everywhere, so that the same code is interrupted and entered
        let same = rng.chance(1, 2).then(|| rng.us(JOBS.len()) as i64);
        for _ in 0..n {
            let mut k = same.unwrap_or_else(|| rng.us(JOBS.len()) as i64);
            if ["C09", "C11"].contains(&JOBS[k as usize]) && rng.chance(2, 3) {
                k = 0;
            }
            let cut = if rng.chance(1, 5) { 1 << rng.range(0, 12) } else { 0 };
            c.items.push(vec![k, rng.range(0, 1 << 40), if cut > 0 { rng.range(1, cut) } else { 0 }]);
        }
        c.faults.push(vec![rng.range(0, 1 << 40), *rng.pick(&[1, 2, 7, 40, 400]), *rng.pick(&[20, 300, 3000]), *rng.pick(&[0, 10, 100, 1000, 10_000, 100_000])]);
        c
    }
    fn run(&self, c: &Case) -> Verdict {
        let mut v = Verdict::new();
        let jobs: Vec<(Box<dyn Prop>, Case, u64)> = c.items.iter().take(64).filter_map(|r| job(r).map(|(p, k)| (p, k, r.get(2).copied().unwrap_or(0).max(0) as u64))).collect();
        let f = c.faults.first().cloned().unwrap_or_default();
        let g = |k: usize, d: i64| f.get(k).copied().unwrap_or(d).max(1) as u64;
        let got: Vec<Verdict> = if c.kind == "sequence" {
            let jobs = &jobs;
            std::thread::scope(|s| {
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(s, move || {
                        set_inline(true);
                        jobs.iter()
                            .map(|(p, k, cut)| {
                                cut_next(*cut);
                                let r = super::play(p.as_ref(), k);
                                cut_next(0);
                                r
                            })
                            .collect()
                    })
                    .unwrap()
                    .join()
                    .unwrap_or_default()
            })
        } else if jobs.is_empty() {
            vec![]
        } else {
            // jobs of one thread, in order
            let mut lists: Vec<(i64, Vec<usize>)> = vec![];
            for (i, row) in c.items.iter().take(64).filter(|r| !r.is_empty()).enumerate() {
                let t = row.get(3).copied().unwrap_or(1_000_000 + i as i64);
                match lists.iter_mut().find(|l| l.0 == t) {
                    Some(l) => l.1.push(i),
                    None => lists.push((t, vec![i])),
                }
            }
            let sc = Sched::new(lists.len(), g(0, 1), g(1, 1), g(2, 100), f.get(3).copied().unwrap_or(0).max(0) as u64);
            let mut r: Vec<Verdict> = jobs.iter().map(|_| Verdict::default()).collect();
            let jobs = &jobs;
            let done: Vec<Vec<(usize, Verdict)>> = std::thread::scope(|s| {
                let hs: Vec<_> = lists
                    .iter()
                    .enumerate()
                    .map(|(t, (_, list))| {
                        let sc = sc.clone();
                        s.spawn(move || {
                            sc.run(t, || {
                                list.iter()
                                    .map(|&i| {
                                        let (p, k, cut) = &jobs[i];
                                        cut_next(*cut);
                                        let w = super::play(p.as_ref(), k);
                                        cut_next(0);
                                        (i, w)
                                    })
                                    .collect()
                            })
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
            });
            for (i, w) in done.into_iter().flatten() {
                r[i] = w;
            }
            let (sw, inside, pts, trace) = sc.stats();
            v.stat("thread_switches", sw);
            v.stat("thread_switches_inside_code", inside);
            v.stat("scheduling_points", pts);
            v.mark(trace);
            v.log(trace);
            r
        };
        // alone comes last: whatever is set up on first use is first used in company
        let mut alone: Vec<Option<Verdict>> = vec![];
        for (i, (p, k, cut)) in jobs.iter().enumerate() {
            let same = |j: &usize| alone[*j].is_some() && jobs[*j].0.id() == p.id() && jobs[*j].1 == *k;
            let r = match (0..i).find(same) {
                _ if *cut != 0 => None,
                Some(j) => alone[j].clone(),
                None => Some(super::play(p.as_ref(), k)),
            };
            alone.push(r);
        }
        for (i, (p, _, cut)) in jobs.iter().enumerate() {
            let id = p.id();
            let w = &got[i];
            v.log(w.digest);
            v.mark(w.digest);
            v.stat(&format!("job.{id}"), 1);
            for (k, n) in &w.stats {
                if k.starts_with("fault") || k == "steps" {
                    v.stat(k, *n);
                }
            }
            if *cut > 0 {
                v.stat("callers_cut_short", 1);
                continue;
            }
            let a = alone[i].as_ref().unwrap();
            if a.bad() {
                // wrong on its own: not a matter of isolation, the property itself reports it
                v.stat("wrong_alone", 1);
                continue;
            }
            if let Some((cl, d)) = &w.violation {
                v.fail(&format!("wrong-in-company-{id}"), format!("job {i} ({id}) is right alone, but in company: {cl}: {d}"));
                return v;
            }
            if c.kind != "sequence" && w.answers != a.answers {
                v.fail(&format!("differs-in-company-{id}"), format!("job {i} ({id}) gave other answers than alone"));
                return v;
            }
        }
        v.stat("probe.instrumented_build", (simhook::edges() > 0) as u64);
        v.nontrivial = jobs.len() > 1;
        v
    }
    fn rule(&self) -> &'static str {
        "distinct (callers, interleaving) with at least two callers"
    }
    fn shape_measure(&self) -> &'static str {
        "realised interleavings: hash of the thread chosen at every scheduling point and of all answers"
    }
    fn real(&self) -> &'static [&'static str] {
        &["every public operation the other properties use: tetrahedralize, triangulate, polygon soups, predicates, mesh edits, merging points, mesh repair, both cut solvers, disjoint sets, interval and expansion arithmetic", "threads of the operating system, one running at a time"]
    }
    fn stubbed(&self) -> &'static [&'static str] {
        &["the thread scheduler (seeded choice at allocations, blocking futex calls and, through compiler instrumentation, at edges of the control flow and stores)", "OS entropy and the allocators"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["callers share no object; switches happen at allocations, blocking waits, edges of the control flow and stores"]
    }
    fn watchdog(&self) -> u64 {
        60
    }
}
