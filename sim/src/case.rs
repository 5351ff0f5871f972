//! A case is one complete plan of a simulated run: workload, schedule and faults. It is a pure
//! function of (property, VERIF_SEED, run index) and is what a replay file holds.
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Case {
    pub prop: String,
    pub kind: String,
    /// process-wide hash keys
    pub boot: u64,
    pub params: BTreeMap<String, i64>,
    /// schedule and fault trace
    pub faults: Vec<Vec<i64>>,
    /// workload steps
    pub items: Vec<Vec<i64>>,
}

impl Case {
    pub fn p(&self, k: &str) -> i64 {
        self.params.get(k).copied().unwrap_or(0)
    }
    pub fn set(&mut self, k: &str, v: i64) {
        self.params.insert(k.into(), v);
    }
    pub fn to_text(&self) -> String {
        let mut s = String::new();
        writeln!(s, "property {}", self.prop).unwrap();
        writeln!(s, "kind {}", self.kind).unwrap();
        writeln!(s, "boot {}", self.boot).unwrap();
        for (k, v) in &self.params {
            writeln!(s, "param {k} {v}").unwrap();
        }
        for f in &self.faults {
            writeln!(s, "fault {}", join(f)).unwrap();
        }
        for f in &self.items {
            writeln!(s, "item {}", join(f)).unwrap();
        }
        s
    }
    pub fn from_text(t: &str) -> Option<Case> {
        let mut c = Case::default();
        for l in t.lines() {
            let (k, r) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "property" => c.prop = r.into(),
                "kind" => c.kind = r.into(),
                "boot" => c.boot = r.parse().ok()?,
                "param" => {
                    let (a, b) = r.split_once(' ')?;
                    c.params.insert(a.into(), b.parse().ok()?);
                }
                "fault" => c.faults.push(parse(r)?),
                "item" => c.items.push(parse(r)?),
                _ => {}
            }
        }
        if c.prop.is_empty() {
            None
        } else {
            Some(c)
        }
    }
    pub fn digest(&self) -> u64 {
        crate::rng::hash_str(&self.to_text())
    }
}

fn join(v: &[i64]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")
}
fn parse(s: &str) -> Option<Vec<i64>> {
    s.split_whitespace().map(|x| x.parse().ok()).collect()
}

#[derive(Default, Debug, Clone)]
pub struct Verdict {
    /// (class, detail)
    pub violation: Option<(String, String)>,
    /// hash of everything observed in the run (event log)
    pub digest: u64,
    /// the same without telemetry: only what the code under test answered
    pub answers: u64,
    /// what makes two runs different executions, by the property's measure
    pub shape: u64,
    pub nontrivial: bool,
    /// counters: what happened, which faults fired
    pub stats: BTreeMap<String, u64>,
}

impl Verdict {
    pub fn new() -> Self {
        Verdict { digest: 0xcbf2_9ce4_8422_2325, shape: 0xcbf2_9ce4_8422_2325, ..Default::default() }
    }
    pub fn log(&mut self, x: u64) {
        self.digest = (self.digest ^ x).wrapping_mul(0x100_0000_01b3).rotate_left(23);
        self.answers = (self.answers ^ x).wrapping_mul(0x100_0000_01b3).rotate_left(23);
    }
    pub fn mark(&mut self, x: u64) {
        self.shape = (self.shape ^ x).wrapping_mul(0x100_0000_01b3).rotate_left(23);
    }
    pub fn stat(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.stats.entry(k.into()).or_insert(0) += n;
        }
    }
    pub fn fail(&mut self, class: &str, detail: impl Into<String>) {
        if self.violation.is_none() {
            self.violation = Some((class.into(), detail.into().replace('\n', " ")));
        }
    }
    pub fn bad(&self) -> bool {
        self.violation.is_some()
    }
    pub fn telemetry(&mut self, t: &crate::seams::Telemetry) {
        self.stat("steps", t.allocs);
        self.stat("entropy_reads", t.entropy_calls);
        self.stat("fault.entropy_short_or_eintr_or_degenerate", t.entropy_faults);
        self.stat("fault.alloc_fail", t.failed);
        self.stat("fault.realloc_moved", t.moved);
        self.stat("fault.dirty_memory", t.dirtied);
        self.stat("probe.fifth_of_step_budget", t.near[0] as u64);
        self.stat("probe.half_of_step_budget", t.near[1] as u64);
        let a = self.answers;
        self.log(t.allocs);
        self.log(t.bytes);
        self.log(t.entropy_calls);
        self.answers = a;
    }
}

pub trait Prop: Sync {
    fn id(&self) -> &'static str;
    /// (epochs, runs per epoch) for a tier
    fn plan(&self, thorough: bool) -> (u64, u64);
    fn gen(&self, rng: &mut crate::rng::Rng, thorough: bool) -> Case;
    fn run(&self, c: &Case) -> Verdict;
    fn rule(&self) -> &'static str;
    fn shape_measure(&self) -> &'static str;
    fn real(&self) -> &'static [&'static str];
    fn stubbed(&self) -> &'static [&'static str];
    fn assumptions(&self) -> &'static [&'static str];
    /// seconds of silence after which a run counts as stuck
    fn watchdog(&self) -> u64 {
        30
    }
    /// fixed cases run first on every check (regressions of repaired defects, rare conditions)
    fn corpus(&self) -> Vec<Case> {
        vec![]
    }
}
