//! Batch driver: worker processes (one per epoch, so one set of process-wide hash keys each),
//! crash/hang attribution, minimisation, replay, evidence.
use crate::case::{Case, Prop, Verdict};
use crate::rng::{hash_str, mix, Rng};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{mpsc, Mutex};
use std::time::{Duration, Instant};

fn find(id: &str) -> Box<dyn Prop> {
    crate::props::all().into_iter().find(|p| p.id() == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    })
}

fn root() -> std::path::PathBuf {
    std::env::var_os("VERIF_ROOT").map(Into::into).unwrap_or_else(|| "/verif".into())
}

fn boot_key(seed: u64, id: &str, epoch: u64) -> u64 {
    mix(mix(seed, hash_str(id)), epoch.wrapping_add(0x5000))
}

fn make_case(p: &dyn Prop, seed: u64, epoch: u64, run: u64, runs: u64, thorough: bool) -> Case {
    let corpus = p.corpus();
    let idx = epoch * runs + run;
    let mut c = if (idx as usize) < corpus.len() {
        corpus[idx as usize].clone()
    } else {
        let mut rng = Rng::new(mix(mix(seed, hash_str(p.id())), idx));
        let mut c = p.gen(&mut rng, thorough);
        if rng.chance(1, 6) {
            c.set("negz", 1);
        }
        c
    };
    c.prop = p.id().into();
    c.boot = boot_key(seed, p.id(), epoch);
    c
}

fn run_one(p: &dyn Prop, c: &Case) -> Verdict {
    match crate::seams::caught(|| crate::props::play(p, c)) {
        Ok(v) => v,
        Err(m) => {
            // a panic that no oracle accounts for: the harness itself, not the code under test
            let mut v = Verdict::new();
            v.stat("harness_error", 1);
            v.fail("HARNESS", m);
            v
        }
    }
}

fn emit(i: u64, c: &Case, v: &Verdict, dir: &str) {
    let out = std::io::stdout();
    let mut o = out.lock();
    if let Some((class, detail)) = &v.violation {
        let f = format!("{dir}/{}-{:016x}.case", c.prop, c.digest());
        let _ = std::fs::write(&f, format!("{}class {}\ndetail {}\n", c.to_text(), class, detail));
        writeln!(o, "V\t{i}\t{f}\t{class}\t{detail}").unwrap();
    }
    let st: Vec<String> = v.stats.iter().map(|(k, n)| format!("{k}={n}")).collect();
    writeln!(o, "R\t{i}\t{:x}\t{:x}\t{}\t{:x}\t{}", v.digest, v.shape, v.nontrivial as u8, c.digest(), st.join(","))
        .unwrap();
}

/// One epoch in this process.
pub fn worker(id: &str, tier: &str, seed: u64, epoch: u64, dir: &str) -> i32 {
    let p = find(id);
    let (_, runs) = p.plan(tier == "thorough");
    crate::seams::boot(boot_key(seed, id, epoch));
    println!("H\t{:x}", crate::seams::hash_probe());
    for r in 0..runs {
        println!("B\t{r}");
        let c = make_case(&*p, seed, epoch, r, runs, tier == "thorough");
        let v = run_one(&*p, &c);
        emit(r, &c, &v, dir);
        if v.bad() {
            break;
        }
    }
    0
}

/// One case in this process.
pub fn exec(file: &str) -> i32 {
    let t = std::fs::read_to_string(file).unwrap();
    let c = Case::from_text(&t).expect("bad case file");
    let p = find(&c.prop);
    crate::seams::boot(c.boot);
    let v = run_one(&*p, &c);
    println!("D\t{:x}\t{:x}", v.digest, v.shape);
    if std::env::var_os("SIM_STATS").is_some() {
        println!("{:?}", v.stats);
    }
    match v.violation {
        Some((class, detail)) => {
            println!("V\t{class}\t{detail}");
            1
        }
        None => 0,
    }
}

struct ExecOut {
    class: Option<(String, String)>,
    digest: String,
}

/// Run a case in a fresh process.
fn exec_child(c: &Case, timeout: Duration, tag: &str) -> ExecOut {
    let f = std::env::temp_dir().join(format!("gpfsim-{}-{tag}.case", std::process::id()));
    std::fs::write(&f, c.to_text()).unwrap();
    let mut ch = Command::new(std::env::current_exe().unwrap())
        .arg("exec")
        .arg(&f)
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let so = ch.stdout.take().unwrap();
    let h = std::thread::spawn(move || BufReader::new(so).lines().map_while(Result::ok).collect::<Vec<_>>());
    let t0 = Instant::now();
    let mut dead: Option<String> = None;
    loop {
        match ch.try_wait().unwrap() {
            Some(st) => {
                if st.code().is_none() || !matches!(st.code(), Some(0) | Some(1)) {
                    dead = Some(format!("crash {st}"));
                }
                break;
            }
            None => {
                if t0.elapsed() > timeout {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    dead = Some("hang".into());
                    break;
                }
                std::thread::sleep(Duration::from_micros(500));
            }
        }
    }
    let lines = h.join().unwrap();
    let _ = std::fs::remove_file(&f);
    let mut o = ExecOut { class: None, digest: String::new() };
    for l in lines {
        let mut it = l.splitn(3, '\t');
        match it.next() {
            Some("D") => o.digest = it.next().unwrap_or("").into(),
            Some("V") => {
                o.class = Some((it.next().unwrap_or("").into(), it.next().unwrap_or("").into()));
            }
            _ => {}
        }
    }
    if let Some(d) = dead {
        let cl = if d == "hang" { "hang" } else { "crash" };
        o.class = Some((cl.into(), d));
    }
    o
}

struct Batch {
    runs: u64,
    nontrivial: u64,
    shapes: BTreeSet<u64>,
    cases: BTreeSet<u64>,
    digests: BTreeMap<(u64, u64), String>,
    hash_keys: BTreeSet<String>,
    stats: BTreeMap<String, u64>,
    /// (case file, class, detail)
    bad: Vec<(Case, String, String)>,
    samples: Vec<String>,
}

fn run_epochs(
    p: &dyn Prop,
    tier: &str,
    seed: u64,
    epochs: &[u64],
    workers: usize,
    deadline: Instant,
    stop_on_bad: bool,
) -> (Batch, bool) {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let (_, runs) = p.plan(tier == "thorough");
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let cut = AtomicBool::new(false);
    let batch = Mutex::new(Batch {
        runs: 0,
        nontrivial: 0,
        shapes: BTreeSet::new(),
        cases: BTreeSet::new(),
        digests: BTreeMap::new(),
        hash_keys: BTreeSet::new(),
        stats: BTreeMap::new(),
        bad: vec![],
        samples: vec![],
    });
    std::thread::scope(|s| {
        for _ in 0..workers {
            s.spawn(|| loop {
                if stop.load(Ordering::SeqCst) {
                    break;
                }
                if Instant::now() > deadline {
                    cut.store(true, Ordering::SeqCst);
                    break;
                }
                let k = next.fetch_add(1, Ordering::SeqCst) as usize;
                if k >= epochs.len() {
                    break;
                }
                let e = epochs[k];
                let mut ch = Command::new(std::env::current_exe().unwrap())
                    .args(["worker", p.id(), tier, &seed.to_string(), &e.to_string(), dir.to_str().unwrap()])
                    .stdout(Stdio::piped())
                    .stderr(Stdio::null())
                    .spawn()
                    .unwrap();
                let so = ch.stdout.take().unwrap();
                let (tx, rx) = mpsc::channel::<String>();
                let rd = std::thread::spawn(move || {
                    for l in BufReader::new(so).lines().map_while(Result::ok) {
                        if tx.send(l).is_err() {
                            break;
                        }
                    }
                });
                let mut begun: Option<u64> = None;
                let mut hang = false;
                loop {
                    match rx.recv_timeout(Duration::from_secs(p.watchdog())) {
                        Ok(l) => {
                            let f: Vec<&str> = l.split('\t').collect();
                            let mut b = batch.lock().unwrap();
                            match f[0] {
                                "H" => {
                                    b.hash_keys.insert(f[1].into());
                                }
                                "B" => begun = f[1].parse().ok(),
                                "V" => {
                                    if let Some(c) =
                                        std::fs::read_to_string(f[2]).ok().and_then(|t| Case::from_text(&t))
                                    {
                                        b.bad.push((c, f[3].into(), f.get(4).unwrap_or(&"").to_string()));
                                    }
                                    let _ = std::fs::remove_file(f[2]);
                                    if stop_on_bad {
                                        stop.store(true, Ordering::SeqCst);
                                    }
                                }
                                "R" => {
                                    begun = None;
                                    b.runs += 1;
                                    let i: u64 = f[1].parse().unwrap();
                                    b.digests.insert((e, i), f[2].to_string());
                                    b.shapes.insert(u64::from_str_radix(f[3], 16).unwrap());
                                    let fresh = b.cases.insert(u64::from_str_radix(f[5], 16).unwrap());
                                    if f[4] == "1" && fresh {
                                        b.nontrivial += 1;
                                    }
                                    for kv in f[6].split(',') {
                                        if let Some((k, n)) = kv.split_once('=') {
                                            *b.stats.entry(k.into()).or_insert(0) += n.parse::<u64>().unwrap();
                                        }
                                    }
                                }
                                _ => {}
                            }
                        }
                        Err(mpsc::RecvTimeoutError::Timeout) => {
                            hang = true;
                            let _ = ch.kill();
                            break;
                        }
                        Err(mpsc::RecvTimeoutError::Disconnected) => break,
                    }
                }
                let st = ch.wait().unwrap();
                let _ = rd.join();
                if hang || !st.success() {
                    if let Some(i) = begun {
                        let c = make_case(p, seed, e, i, runs, tier == "thorough");
                        let mut b = batch.lock().unwrap();
                        b.bad.push((
                            c,
                            if hang { "hang" } else { "crash" }.into(),
                            if hang { format!("no progress for {} s", p.watchdog()) } else { format!("process died: {st}") },
                        ));
                        if stop_on_bad {
                            stop.store(true, Ordering::SeqCst);
                        }
                    }
                }
            });
        }
    });
    let c = cut.load(Ordering::SeqCst);
    (batch.into_inner().unwrap(), c)
}

/// Greedy minimisation: the same violation class must persist in a fresh process.
fn minimise(c0: &Case, class: &str, limit: Duration) -> (Case, u64) {
    let t0 = Instant::now();
    let mut c = c0.clone();
    let mut tries = 0u64;
    let slow = class == "hang";
    let to = Duration::from_secs(if slow { 8 } else { 20 });
    let mut ok = |k: &Case, tries: &mut u64| -> bool {
        if t0.elapsed() > limit {
            return false;
        }
        *tries += 1;
        matches!(exec_child(k, to, "min").class, Some((cl, _)) if cl == class)
    };
    let mut changed = true;
    while changed && t0.elapsed() < limit {
        changed = false;
        // drop faults, then steps, in shrinking chunks
        for which in 0..2 {
            let len = |c: &Case| if which == 0 { c.faults.len() } else { c.items.len() };
            let mut n = len(&c).max(1) / 2;
            n = n.max(1);
            loop {
                let mut i = 0;
                while i < len(&c) && t0.elapsed() < limit {
                    let mut k = c.clone();
                    let v = if which == 0 { &mut k.faults } else { &mut k.items };
                    let e = (i + n).min(v.len());
                    v.drain(i..e);
                    if ok(&k, &mut tries) {
                        c = k;
                        changed = true;
                    } else {
                        i += n;
                    }
                }
                if n == 1 {
                    break;
                }
                n /= 2;
            }
        }
        // simplify numbers
        for key in c.params.keys().cloned().collect::<Vec<_>>() {
            let v = c.p(&key);
            for w in [0, 1, v / 2, v - v.signum()] {
                if w != v && w.abs() <= v.abs() {
                    let mut k = c.clone();
                    k.set(&key, w);
                    if ok(&k, &mut tries) {
                        c = k;
                        changed = true;
                        break;
                    }
                }
            }
        }
        if c.items.len() + c.faults.len() <= 40 {
            for which in 0..2 {
                let n = if which == 0 { c.faults.len() } else { c.items.len() };
                for i in 0..n {
                    let m = if which == 0 { c.faults[i].len() } else { c.items[i].len() };
                    for j in 0..m {
                        let v = if which == 0 { c.faults[i][j] } else { c.items[i][j] };
                        for w in [0, v / 2] {
                            if w != v {
                                let mut k = c.clone();
                                if which == 0 {
                                    k.faults[i][j] = w;
                                } else {
                                    k.items[i][j] = w;
                                }
                                if ok(&k, &mut tries) {
                                    c = k;
                                    changed = true;
                                    break;
                                }
                            }
                        }
                    }
                }
            }
        }
        if slow {
            break;
        }
    }
    (c, tries)
}

fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}

struct Known {
    property: String,
    class: String,
    case: String,
    text: String,
}

/// `known: property=ID class=CLASS case=FILE text…` — FILE holds the failing case.
fn known_findings() -> Vec<Known> {
    let mut v = vec![];
    let t = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    for l in t.lines() {
        if let Some(r) = l.strip_prefix("known: ") {
            let mut k = Known { property: String::new(), class: String::new(), case: String::new(), text: String::new() };
            let mut rest = vec![];
            for w in r.split(' ') {
                if let Some(x) = w.strip_prefix("property=") {
                    k.property = x.into();
                } else if let Some(x) = w.strip_prefix("class=") {
                    k.class = x.into();
                } else if let Some(x) = w.strip_prefix("case=") {
                    k.case = x.into();
                } else {
                    rest.push(w);
                }
            }
            k.text = rest.join(" ");
            v.push(k);
        }
    }
    v
}

pub fn check(id: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    let p = find(id);
    let thorough = tier == "thorough";
    let seed = env_seed();
    println!("{id}: tier {tier} VERIF_SEED={seed}");
    let (epochs, runs) = p.plan(thorough);
    let cap = if thorough { 780 } else { 420 };
    let list: Vec<u64> = (0..epochs).collect();
    let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(8);
    let (mut b, cut) = run_epochs(&*p, tier, seed, &list, workers, t0 + Duration::from_secs(cap), true);

    // determinism of this very batch: re-run a sample of epochs and compare event logs
    let mut replayed = 0u64;
    let mut diverged = 0u64;
    if b.bad.is_empty() {
        let n = 4.min(epochs);
        let sample: Vec<u64> = (0..n).map(|k| (k * 7919 + seed) % epochs).collect::<BTreeSet<_>>().into_iter().collect();
        let (b2, _) = run_epochs(&*p, tier, seed, &sample, 2, t0 + Duration::from_secs(cap + 60), true);
        for (k, d) in &b2.digests {
            if let Some(d1) = b.digests.get(k) {
                replayed += 1;
                if d1 != d {
                    diverged += 1;
                }
            }
        }
        b.bad.extend(b2.bad);
        if diverged > 0 {
            eprintln!("{id}: warning: {diverged}/{replayed} re-executed runs diverged (unseen nondeterminism)");
        }
    }

    // known findings
    let known = known_findings();
    for k in known.iter().filter(|k| k.property == id) {
        let f = root().join(&k.case);
        let Some(c) = std::fs::read_to_string(&f).ok().and_then(|t| Case::from_text(&t)) else {
            eprintln!("{id}: known finding without a readable case: {}", k.case);
            return 2;
        };
        if matches!(exec_child(&c, Duration::from_secs(120), "known").class, Some((cl, _)) if cl == k.class) {
            println!("KNOWN-FINDING: property={id} {}", k.text);
        }
    }

    let mut code = 0;
    let harness: Vec<_> = b.bad.iter().filter(|x| x.1 == "HARNESS").cloned().collect();
    b.bad.retain(|x| x.1 != "HARNESS");
    let mut classes = BTreeSet::new();
    let mut nviol = 0;
    for (c, class, detail) in b.bad.clone() {
        if !classes.insert(class.clone()) {
            continue;
        }
        // must reproduce from its plan alone, in a fresh process
        // (a hang is the one verdict read off the wall clock: give it twice the time)
        let mult = if class == "hang" { 2 } else { 1 };
        let again = exec_child(&c, Duration::from_secs(p.watchdog() * mult), "again");
        let cls = match again.class {
            Some((cl, _)) if cl != "HARNESS" => cl,
            None if class == "hang" => {
                eprintln!("{id}: a run that seemed to hang ends when repeated: the machine stalled, not the run");
                continue;
            }
            _ => {
                eprintln!("{id}: {class} ({detail}) did not reproduce from its plan; reported unminimised");
                class.clone()
            }
        };
        let (m, tries) = minimise(&c, &cls, Duration::from_secs(if nviol == 0 { 40 } else { 10 }));
        let fin = exec_child(&m, Duration::from_secs(p.watchdog()), "fin");
        let det = fin.class.map(|x| x.1).unwrap_or(detail);
        let f = root().join("replays").join(format!("{id}-{cls}.replay"));
        let _ = std::fs::create_dir_all(f.parent().unwrap());
        std::fs::write(
            &f,
            format!(
                "{}class {cls}\ndetail {det}\nseed {seed}\nminimised {} steps and {} faults -> {} steps and {} faults in {tries} executions\nreplay gpfsim replay {}\n",
                m.to_text(),
                c.items.len(),
                c.faults.len(),
                m.items.len(),
                m.faults.len(),
                f.display()
            ),
        )
        .unwrap();
        println!("{id}: {cls}: {det}");
        println!("VIOLATION property={id} replay={}", f.display());
        nviol += 1;
        code = 1;
    }
    if code == 0 && !harness.is_empty() {
        // the run could not be judged
        for h in &harness {
            eprintln!("{id}: harness error: {}\n{}", h.2, h.0.to_text());
        }
        code = 3;
    }

    // a few cases written out
    for k in 0..3u64 {
        let idx = (k * 104729) % (epochs * runs).max(1);
        let c = make_case(&*p, seed, idx / runs, idx % runs, runs, thorough);
        let mut t = c.to_text();
        if t.len() > 900 {
            t.truncate(900);
            t.push('…');
        }
        b.samples.push(t);
    }
    let wall = t0.elapsed().as_secs_f64();
    write_evidence(&*p, tier, seed, &b, wall, nviol, replayed, diverged, cut, epochs);
    println!(
        "{id}: {} runs ({} distinct non-trivial, {} distinct {}), {} replayed/{} diverged, {:.1} s, {} violation(s)",
        b.runs,
        b.nontrivial,
        b.shapes.len(),
        p.shape_measure(),
        replayed,
        diverged,
        wall,
        nviol
    );
    code
}

fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {}
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn ql(v: &[&str]) -> String {
    format!("[{}]", v.iter().map(|s| q(s)).collect::<Vec<_>>().join(","))
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    p: &dyn Prop,
    tier: &str,
    seed: u64,
    b: &Batch,
    wall: f64,
    viol: u64,
    replayed: u64,
    diverged: u64,
    cut: bool,
    epochs: u64,
) {
    let faults: Vec<String> =
        b.stats.iter().filter(|(k, _)| k.starts_with("fault.")).map(|(k, n)| format!("{}:{n}", q(&k[6..]))).collect();
    let probes: Vec<String> = b
        .stats
        .iter()
        .filter(|(k, _)| !k.starts_with("fault.") && *k != "steps")
        .map(|(k, n)| format!("{}:{n}", q(k)))
        .collect();
    let steps = b.stats.get("steps").copied().unwrap_or(0);
    let samples: Vec<String> = b.samples.iter().map(|s| q(s)).collect();
    let j = format!(
        "{{\n \"property\":{},\n \"tier\":{},\n \"seed\":{seed},\n \"level\":\"exploration\",\n \"coverage\":{{\n  \"evaluations\":{},\n  \"distinct_nontrivial\":{},\n  \"rule\":{},\n  \"samples\":[{}],\n  \"simulated_runs_per_hour\":{:.0},\n  \"seeds_per_hour\":{:.0},\n  \"epochs_planned\":{epochs},\n  \"stopped_by_wall_clock\":{cut},\n  \"simulated_time_steps\":{steps},\n  \"simulated_time_unit\":\"allocator events (gpf has no clock; allocation count is the step clock)\",\n  \"faults_injected\":{{{}}},\n  \"probes\":{{{}}},\n  \"distinct_executions\":{},\n  \"distinct_executions_measure\":{},\n  \"distinct_hash_keys\":{},\n  \"determinism_runs_compared\":{replayed},\n  \"determinism_runs_diverged\":{diverged},\n  \"real_components\":{},\n  \"stubbed_components\":{}\n }},\n \"assumptions\":{},\n \"wall_s\":{:.2},\n \"violations\":{viol}\n}}\n",
        q(p.id()),
        q(tier),
        b.runs,
        b.nontrivial,
        q(p.rule()),
        samples.join(","),
        b.runs as f64 / wall * 3600.0,
        b.runs as f64 / wall * 3600.0,
        faults.join(","),
        probes.join(","),
        b.shapes.len(),
        q(p.shape_measure()),
        b.hash_keys.len(),
        ql(p.real()),
        ql(p.stubbed()),
        ql(p.assumptions()),
        wall
    );
    let d = root().join("evidence");
    let _ = std::fs::create_dir_all(&d);
    std::fs::write(d.join(format!("{}.json", p.id())), j).unwrap();
}

pub fn replay(file: &str) -> i32 {
    let t = std::fs::read_to_string(file).unwrap();
    let c = Case::from_text(&t).expect("bad replay file");
    let p = find(&c.prop);
    let want = t.lines().find_map(|l| l.strip_prefix("class ")).unwrap_or("").to_string();
    let o = exec_child(&c, Duration::from_secs(p.watchdog()), "replay");
    match o.class {
        Some((cl, d)) => {
            println!("{}: {cl}: {d}", c.prop);
            if !want.is_empty() && cl != want {
                println!("(recorded class was {want})");
            }
            println!("VIOLATION property={} replay={file}", c.prop);
            1
        }
        None => {
            println!("{}: replayed, no violation (event log {})", c.prop, o.digest);
            0
        }
    }
}

/// Determinism proof: the same epochs executed at different worker counts, event logs compared.
pub fn selftest(id: &str, n: u64) -> i32 {
    let p = find(id);
    let seed = env_seed();
    let list: Vec<u64> = (0..n).collect();
    let dl = Instant::now() + Duration::from_secs(3600);
    let (a, _) = run_epochs(&*p, "quick", seed, &list, 8, dl, false);
    let rev: Vec<u64> = list.iter().rev().copied().collect();
    let (b, _) = run_epochs(&*p, "quick", seed, &rev, 3, dl, false);
    let mut bad = 0;
    for (k, d) in &a.digests {
        if b.digests.get(k) != Some(d) {
            bad += 1;
            if bad < 5 {
                println!("diverged: epoch {} run {}", k.0, k.1);
            }
        }
    }
    println!(
        "{id}: {} runs compared across 8 and 3 workers, {bad} diverged, {} violations",
        a.digests.len(),
        a.bad.len()
    );
    let mut per: BTreeMap<String, u64> = BTreeMap::new();
    for (c, cl, d) in a.bad.iter() {
        let k = per.entry(cl.clone()).or_insert(0);
        *k += 1;
        if *k <= 3 {
            println!("  {cl}: {d} [{}] {}", c.kind, c.items.len());
            if std::env::var_os("SIM_KEEP").is_some() {
                let f = root().join("replays").join(format!("{id}-{cl}-{k}.case"));
                let _ = std::fs::write(&f, c.to_text());
                println!("    {}", f.display());
            }
        }
    }
    println!("  {per:?}\n  {:?}", a.stats);
    (bad > 0) as i32
}
