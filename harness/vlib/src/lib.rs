//! Runtime-monitoring framework: every check executes the real code on generated workloads ("cases"),
//! while monitors (oracles) judge what they observe. Evidence counts what the monitors actually saw.
pub mod rng;
pub mod sanitize;
pub use rng::Rng;
pub use serde_json;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Violation {
    pub section: String,
    pub index: u64,
    pub seed: u64,
    pub sig: String,
    pub msg: String,
}

/// One execution judged by the monitors.
pub struct Case {
    pub rng: Rng,
    pub index: u64,
    pub thorough: bool,
    pub verbose: bool,
    violations: Vec<(String, String)>,
    counts: BTreeMap<&'static str, u64>,
    fingerprint: u64,
    nontrivial: bool,
    sample: Option<Value>,
    desc: String,
    judged: u64,
    maxima: BTreeMap<&'static str, f64>,
}

impl Case {
    fn new(seed: u64, index: u64, thorough: bool, verbose: bool) -> Self {
        Case {
            rng: Rng::new(seed),
            index,
            thorough,
            verbose,
            violations: vec![],
            counts: BTreeMap::new(),
            fingerprint: 0xcbf29ce484222325,
            nontrivial: false,
            sample: None,
            desc: String::new(),
            judged: 0,
            maxima: BTreeMap::new(),
        }
    }
    /// The oracle: records a violation with signature `sig` unless `cond` holds.
    pub fn check(&mut self, cond: bool, sig: &str, msg: impl FnOnce() -> String) -> bool {
        self.judged += 1;
        if !cond {
            self.violations.push((sig.to_string(), msg()));
        }
        cond
    }
    pub fn fail(&mut self, sig: &str, msg: impl Into<String>) {
        self.judged += 1;
        self.violations.push((sig.to_string(), msg.into()));
    }
    pub fn failed(&self) -> bool {
        !self.violations.is_empty()
    }
    /// |got - want| <= tol (absolute), NaN never passes.
    pub fn close(&mut self, got: f64, want: f64, tol: f64, sig: &str, ctx: impl FnOnce() -> String) -> bool {
        let d = (got - want).abs();
        let ok = d <= tol || got == want;
        self.track("max_error_over_tolerance", if tol > 0.0 && ok && d.is_finite() { d / tol } else { 0.0 });
        self.check(ok, sig, || format!("got {got:e}, expected {want:e}, |diff| {d:e} > tol {tol:e}; {}", ctx()))
    }
    pub fn close_slices(&mut self, got: &[f64], want: &[f64], tol: f64, sig: &str, ctx: impl Fn() -> String) -> bool {
        if !self.check(got.len() == want.len(), sig, || {
            format!("length {} != {}; {}", got.len(), want.len(), ctx())
        }) {
            return false;
        }
        let mut worst = (0usize, 0.0f64);
        let mut bad = None;
        for (i, (g, w)) in got.iter().zip(want).enumerate() {
            let d = (g - w).abs();
            if !(d <= tol || g == w) {
                bad = Some(i);
                break;
            }
            if d > worst.1 {
                worst = (i, d);
            }
        }
        if tol > 0.0 {
            self.track("max_error_over_tolerance", worst.1 / tol);
        }
        self.check(bad.is_none(), sig, || {
            let i = bad.unwrap();
            format!(
                "entry {i}: got {:e}, expected {:e} (tol {tol:e}); {}",
                got[i],
                want[i],
                ctx()
            )
        })
    }
    pub fn count(&mut self, name: &'static str, n: u64) {
        *self.counts.entry(name).or_insert(0) += n;
    }
    pub fn track(&mut self, name: &'static str, v: f64) {
        let e = self.maxima.entry(name).or_insert(v);
        if v > *e {
            *e = v;
        }
    }
    /// Mix data that identifies this case into its fingerprint and mark it as non-trivial.
    pub fn key(&mut self, data: impl std::hash::Hash) {
        use std::hash::Hasher;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        data.hash(&mut h);
        self.fingerprint = (self.fingerprint ^ h.finish()).wrapping_mul(0x100000001b3).rotate_left(13);
        self.nontrivial = true;
    }
    pub fn keyf(&mut self, data: &[f64]) {
        let bits: Vec<u64> = data.iter().map(|x| x.to_bits()).collect();
        self.key(bits);
    }
    pub fn trivial(&mut self) {
        self.nontrivial = false;
    }
    pub fn sample(&mut self, v: Value) {
        self.sample = Some(v);
    }
    pub fn desc(&mut self, s: impl Into<String>) {
        self.desc = s.into();
        if self.verbose {
            eprintln!("case: {}", self.desc);
        }
    }
    /// Runs `f`, turning a panic into Err(message). For oracles that must distinguish panics.
    pub fn catch<R>(&mut self, f: impl FnOnce() -> R) -> Result<R, String> {
        catch_quiet(f)
    }
    /// Runs code that must not panic on this (valid) input.
    pub fn no_panic<R>(&mut self, sig: &str, f: impl FnOnce() -> R) -> Option<R> {
        match catch_quiet(f) {
            Ok(r) => Some(r),
            Err(e) => {
                self.fail(sig, format!("panicked: {e}"));
                None
            }
        }
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

pub fn catch_quiet<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    LAST_PANIC.with(|p| p.borrow_mut().clear());
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = LAST_PANIC.with(|p| p.borrow().clone());
        if !m.is_empty() {
            m
        } else if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "<panic in another thread>".into()
        }
    })
}

#[derive(Default)]
struct SectionStats {
    cases: u64,
    judged: u64,
    distinct: HashSet<u64>,
    wall: f64,
    skipped_by_time: bool,
}

pub struct Run {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    start: Instant,
    rules: Vec<String>,
    stats: BTreeMap<String, SectionStats>,
    counts: BTreeMap<String, u64>,
    maxima: BTreeMap<String, f64>,
    samples: Vec<Value>,
    violations: Vec<Violation>,
    required: Vec<(String, u64)>,
    assumptions: Vec<String>,
    extra: BTreeMap<String, Value>,
    replay: Option<(String, u64, u64)>,
    root: PathBuf,
    budget: Duration,
    only: Option<String>,
    scale: f64,
    /// parts that could not be judged (an instrumented run that could not be built or finished)
    pub(crate) unjudged: Vec<String>,
}

struct Slot {
    since: Option<Instant>,
    section: String,
    index: u64,
}

impl Run {
    fn case_seed(&self, section: &str, index: u64) -> u64 {
        let mut x = self.seed ^ rng::hash_str(&self.prop).rotate_left(17) ^ rng::hash_str(section) ^ index.wrapping_mul(0xD1B54A32D192ED03);
        rng::splitmix(&mut x)
    }
    pub fn assumption(&mut self, s: &str) {
        self.assumptions.push(s.to_string());
    }
    pub fn extra(&mut self, k: &str, v: Value) {
        self.extra.insert(k.to_string(), v);
    }
    /// The run is vacuous (an error of the check) unless the monitor counted at least `min` of `name`.
    pub fn require(&mut self, name: &str, min: u64) {
        self.required.push((name.to_string(), min));
    }
    pub fn add_count(&mut self, name: &str, n: u64) {
        *self.counts.entry(name.to_string()).or_insert(0) += n;
    }
    /// Whether a non-case section is to be executed in this run (it is not when replaying a case).
    pub fn wants(&self, section: &str) -> bool {
        if let Some((s, _, _)) = &self.replay {
            return s == section;
        }
        self.only.as_ref().map(|o| section.contains(o.as_str())).unwrap_or(true)
    }
    pub fn rule(&mut self, section: &str, rule: &str) {
        self.rules.push(format!("[{section}] {rule}"));
    }
    pub fn sample(&mut self, v: Value) {
        self.samples.push(v);
    }
    pub fn add_section(&mut self, section: &str, cases: u64, wall: f64) {
        let st = self.stats.entry(section.to_string()).or_default();
        st.cases += cases;
        st.judged += cases;
        for i in 0..cases {
            st.distinct.insert(i);
        }
        st.wall += wall;
    }
    pub fn add_violation(&mut self, section: &str, index: u64, sig: &str, msg: String) {
        let seed = self.case_seed(section, index);
        self.violations.push(Violation { section: section.into(), index, seed, sig: sig.into(), msg });
    }
    /// Cases run in parallel on all cores.
    pub fn section(&mut self, name: &str, rule: &str, quick: u64, thorough: u64, f: impl Fn(&mut Case) + Sync) {
        self.section_threads(name, rule, quick, thorough, 8, f)
    }
    /// Cases run one after another (workloads that use threads of their own).
    pub fn section_serial(&mut self, name: &str, rule: &str, quick: u64, thorough: u64, f: impl Fn(&mut Case) + Sync) {
        self.section_threads(name, rule, quick, thorough, 1, f)
    }
    pub fn section_threads(
        &mut self,
        name: &str,
        rule: &str,
        quick: u64,
        thorough: u64,
        threads: usize,
        f: impl Fn(&mut Case) + Sync,
    ) {
        if let Some(o) = &self.only {
            if !name.contains(o.as_str()) {
                return;
            }
        }
        self.rules.push(format!("[{name}] {rule}"));
        // the quick run of a cheap check takes several times the counts its sections name
        let factor = match self.prop.as_str() {
            "C01" | "C03" => 1,
            "M06" | "H02" | "E01" | "G05" => 3,
            "C02" | "D01" | "C06" | "C07" | "N02" | "N03" | "Q01" | "M05" | "L03" => 30,
            _ => 8,
        };
        let n = if self.thorough { thorough } else { (quick * factor).min(thorough.max(quick)) };
        let n = ((n as f64) * self.scale).ceil().max(1.0) as u64;
        let verbose = self.replay.is_some();
        let indices: Vec<(u64, u64)> = if let Some((s, i, cs)) = &self.replay {
            if s != name {
                return;
            }
            vec![(*i, *cs)]
        } else {
            (0..n).map(|i| (i, self.case_seed(name, i))).collect()
        };
        let t0 = Instant::now();
        let next = AtomicUsize::new(0);
        // no section may starve the later ones: half of what is left, but never less than a minimum share
        let left = (self.start + self.budget).saturating_duration_since(t0);
        let deadline = t0 + (left / 2).max(Duration::from_secs(12));
        let timed_out = AtomicBool::new(false);
        let stop = Arc::new(AtomicBool::new(false));
        let results: Mutex<Vec<(u64, u64, Case)>> = Mutex::new(Vec::new());
        let threads = threads.min(indices.len()).max(1);
        let slots: Arc<Vec<Mutex<Slot>>> = Arc::new(
            (0..threads)
                .map(|_| Mutex::new(Slot { since: None, section: name.to_string(), index: 0 }))
                .collect(),
        );
        // Hang monitor
        {
            let slots = slots.clone();
            let stop = stop.clone();
            let prop = self.prop.clone();
            let root = self.root.clone();
            let seed = self.seed;
            let limit = Duration::from_secs(std::env::var("V_HANG_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(150));
            let seeds: BTreeMap<u64, u64> = indices.iter().cloned().collect();
            std::thread::spawn(move || {
                while !stop.load(Ordering::Relaxed) {
                    std::thread::sleep(Duration::from_millis(500));
                    for s in slots.iter() {
                        let s = s.lock().unwrap();
                        if let Some(t) = s.since {
                            if t.elapsed() > limit && !stop.load(Ordering::Relaxed) {
                                let v = Violation {
                                    section: s.section.clone(),
                                    index: s.index,
                                    seed: *seeds.get(&s.index).unwrap_or(&0),
                                    sig: "hang".into(),
                                    msg: format!("case did not finish within {limit:?}"),
                                };
                                let path = write_replay(&root, &prop, seed, &v);
                                println!("[{prop}] {}#{} hang: {}", v.section, v.index, v.msg);
                                println!("VIOLATION property={prop} replay={}", path.display());
                                std::process::exit(1);
                            }
                        }
                    }
                }
            });
        }
        let f = &f;
        let indices = &indices;
        let thorough_flag = self.thorough;
        std::thread::scope(|sc| {
            let mut hs = vec![];
            for t in 0..threads {
                let slots = slots.clone();
                let next = &next;
                let results = &results;
                let timed_out = &timed_out;
                let h = std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || loop {
                        let k = next.fetch_add(1, Ordering::Relaxed);
                        if k >= indices.len() {
                            break;
                        }
                        // Always run at least a few cases of each section
                        if k >= 8 && Instant::now() > deadline {
                            timed_out.store(true, Ordering::Relaxed);
                            break;
                        }
                        let (i, cs) = indices[k];
                        {
                            let mut s = slots[t].lock().unwrap();
                            s.since = Some(Instant::now());
                            s.index = i;
                        }
                        let mut case = Case::new(cs, i, thorough_flag, verbose);
                        let r = catch_quiet(|| f(&mut case));
                        if let Err(e) = r {
                            let d = case.desc.clone();
                            case.judged += 1;
                            case.violations.push(("panic".into(), format!("panicked: {e}; {d}")));
                        }
                        slots[t].lock().unwrap().since = None;
                        results.lock().unwrap().push((i, cs, case));
                    })
                    .unwrap();
                hs.push(h);
            }
            for h in hs {
                let _ = h.join();
            }
        });
        stop.store(true, Ordering::Relaxed);
        let mut results = results.into_inner().unwrap();
        results.sort_by_key(|r| r.0);
        let st = self.stats.entry(name.to_string()).or_default();
        st.wall += t0.elapsed().as_secs_f64();
        st.skipped_by_time |= timed_out.load(Ordering::Relaxed);
        let mut nsamples = 0;
        for (i, cs, case) in results {
            st.cases += 1;
            st.judged += case.judged;
            if case.nontrivial && case.judged > 0 {
                st.distinct.insert(case.fingerprint);
            }
            for (k, v) in &case.counts {
                *self.counts.entry(k.to_string()).or_insert(0) += v;
            }
            for (k, v) in &case.maxima {
                let e = self.maxima.entry(k.to_string()).or_insert(*v);
                if *v > *e {
                    *e = *v
                }
            }
            if let Some(s) = case.sample {
                if nsamples < 2 && self.samples.len() < 24 {
                    self.samples.push(json!({"section": name, "case": i, "observed": s}));
                    nsamples += 1;
                }
            } else if nsamples < 1 && !case.desc.is_empty() && self.samples.len() < 24 {
                let mut d = case.desc.clone();
                if d.len() > 300 {
                    let mut cut = 300;
                    while !d.is_char_boundary(cut) {
                        cut -= 1;
                    }
                    d.truncate(cut);
                }
                self.samples.push(json!({"section": name, "case": i, "case_desc": d}));
                nsamples += 1;
            }
            let desc = case.desc;
            for (sig, msg) in case.violations {
                self.violations.push(Violation {
                    section: name.to_string(),
                    index: i,
                    seed: cs,
                    sig,
                    msg: if desc.is_empty() { msg } else { format!("{msg} || case: {desc}") },
                });
            }
        }
    }
}

fn write_replay(root: &PathBuf, prop: &str, seed: u64, v: &Violation) -> PathBuf {
    let dir = root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{prop}-s{seed}-{}-{}.json", v.section.replace(|c: char| !c.is_alphanumeric(), "_"), v.index));
    let j = json!({
        "property": prop, "verif_seed": seed, "section": v.section, "case_index": v.index,
        "case_seed": v.seed.to_string(), "signature": format!("{}:{}", v.section, v.sig), "message": v.msg,
        "how": format!("bash /verif/run.sh {prop} --replay {}", path.display()),
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
    path
}

fn known_findings(root: &PathBuf, prop: &str) -> Vec<(String, String)> {
    let mut out = vec![];
    if let Ok(s) = std::fs::read_to_string(root.join("known_findings.jsonl")) {
        for l in s.lines() {
            if let Ok(v) = serde_json::from_str::<Value>(l) {
                if v["status"] == "open" && v["property"] == prop {
                    out.push((
                        v["signature"].as_str().unwrap_or("").to_string(),
                        v["what"].as_str().unwrap_or("").to_string(),
                    ));
                }
            }
        }
    }
    out
}

/// Entry point of each check binary. `checks` maps property ids to their workloads.
pub fn main_with(checks: &[(&str, fn(&mut Run))]) -> ! {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let prop = args.get(1).cloned().unwrap_or_default();
    let Some((_, f)) = checks.iter().find(|c| c.0 == prop) else {
        eprintln!("unknown property {prop:?}; this binary has {:?}", checks.iter().map(|c| c.0).collect::<Vec<_>>());
        std::process::exit(2);
    };
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    let mut seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut thorough = std::env::var("VERIF_TIER").map(|s| s == "thorough").unwrap_or(false);
    let mut replay = None;
    let mut only = None;
    let mut i = 2;
    while i < args.len() {
        match args[i].as_str() {
            "--replay" => {
                let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[i + 1]).expect("replay file")).expect("json");
                seed = v["verif_seed"].as_u64().unwrap();
                replay = Some((
                    v["section"].as_str().unwrap().to_string(),
                    v["case_index"].as_u64().unwrap(),
                    v["case_seed"].as_str().unwrap().parse().unwrap(),
                ));
                i += 1;
            }
            "--only" => {
                only = Some(args[i + 1].clone());
                i += 1;
            }
            "--thorough" => thorough = true,
            "--quick" => thorough = false,
            a => {
                eprintln!("unknown argument {a}");
                std::process::exit(2)
            }
        }
        i += 1;
    }
    let default_budget = if thorough { 600 } else { 150 };
    let budget = std::env::var("V_BUDGET_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(default_budget);
    let scale = std::env::var("V_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let is_replay = replay.is_some();
    let partial = is_replay || only.is_some();
    let mut run = Run {
        prop: prop.clone(),
        seed,
        thorough,
        start: Instant::now(),
        rules: vec![],
        stats: BTreeMap::new(),
        counts: BTreeMap::new(),
        maxima: BTreeMap::new(),
        samples: vec![],
        violations: vec![],
        required: vec![],
        assumptions: vec![],
        extra: BTreeMap::new(),
        replay,
        root: root.clone(),
        budget: Duration::from_secs(budget),
        only,
        scale,
        unjudged: vec![],
    };
    f(&mut run);

    let known = known_findings(&root, &prop);
    let mut seen_known: BTreeMap<String, (String, u64)> = BTreeMap::new();
    let mut fresh: BTreeMap<String, (Violation, u64)> = BTreeMap::new();
    for v in &run.violations {
        let sig = format!("{}:{}", v.section, v.sig);
        if let Some((s, what)) = known.iter().find(|k| k.0 == sig) {
            let e = seen_known.entry(s.clone()).or_insert((what.clone(), 0));
            e.1 += 1;
        } else {
            fresh.entry(sig).or_insert_with(|| (v.clone(), 0)).1 += 1;
        }
    }
    for (s, (what, n)) in &seen_known {
        println!("KNOWN-FINDING: property={prop} {what} [{s}; {n} case(s)]");
    }
    let total_cases: u64 = run.stats.values().map(|s| s.cases).sum();
    let total_judged: u64 = run.stats.values().map(|s| s.judged).sum();
    let distinct: u64 = run.stats.values().map(|s| s.distinct.len() as u64).sum();
    let mut counts = run.counts.clone();
    counts.insert("oracle_judgements".into(), total_judged);
    let nviol: u64 = fresh.values().map(|v| v.1).sum();
    let sections: BTreeMap<String, Value> = run
        .stats
        .iter()
        .map(|(k, s)| {
            (
                k.clone(),
                json!({"cases": s.cases, "oracle_judgements": s.judged, "distinct_nontrivial": s.distinct.len(),
                       "wall_s": (s.wall * 100.0).round() / 100.0, "cut_by_time_budget": s.skipped_by_time}),
            )
        })
        .collect();
    let mut coverage = json!({
        "evaluations": total_cases,
        "distinct_nontrivial": distinct,
        "rule": format!("A case is one seeded workload executed on the real code and judged by the oracle; it is non-trivial when the generated input reached the monitored operation with a non-degenerate configuration, and distinct by a fingerprint of the generated data. {}", run.rules.join(" ")),
        "samples": run.samples,
        "monitor_events": counts,
        "monitor_maxima": run.maxima,
        "sections": sections,
    });
    for (k, v) in &run.extra {
        coverage[k.as_str()] = v.clone();
    }
    let ev = json!({
        "property": prop, "tier": if thorough {"thorough"} else {"quick"}, "seed": seed, "level": "exploration",
        "coverage": coverage, "assumptions": run.assumptions,
        "wall_s": run.start.elapsed().as_secs_f64(), "violations": nviol,
    });
    if !partial {
        let dir = root.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(dir.join(format!("{prop}.json")), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    }
    println!(
        "[{prop}] {} cases, {} distinct non-trivial, {} judgements, {:.1}s",
        total_cases,
        distinct,
        total_judged,
        run.start.elapsed().as_secs_f64()
    );
    for (k, s) in &run.stats {
        println!(
            "[{prop}]   {k}: {} cases, {} judged, {} distinct, {:.2}s{}",
            s.cases,
            s.judged,
            s.distinct.len(),
            s.wall,
            if s.skipped_by_time { " (cut by time budget)" } else { "" }
        );
    }
    if std::env::var("V_VERBOSE").is_ok() {
        println!("[{prop}] events {counts:?}");
        println!("[{prop}] maxima {:?}", run.maxima);
    }
    if !fresh.is_empty() {
        for (sig, (v, n)) in &fresh {
            let mut m = v.msg.clone();
            if m.len() > 1500 {
                let mut cut = 1500;
                while !m.is_char_boundary(cut) {
                    cut -= 1;
                }
                m.truncate(cut);
            }
            println!("[{prop}] {sig} ({n} times, first at case #{}): {m}", v.index);
            let path = write_replay(&root, &prop, seed, v);
            println!("VIOLATION property={prop} replay={}", path.display());
        }
        std::process::exit(1);
    }
    if !run.unjudged.is_empty() {
        println!("[{prop}] no answer for {} part(s): {}", run.unjudged.len(), run.unjudged.join("; "));
        std::process::exit(2);
    }
    // on a machine too slow for the planned workload the minimum shrinks with it, but never to nothing
    let cut = run.stats.values().any(|s| s.skipped_by_time);
    if !partial && scale >= 1.0 {
        for (name, min) in &run.required {
            let have = counts.get(name).copied().unwrap_or(0);
            let min = if cut { (*min / 20).max(1) } else { *min };
            if have < min {
                println!("[{prop}] VACUOUS: monitor observed {have} of {name}, needs at least {min}");
                std::process::exit(3);
            }
        }
    }
    std::process::exit(0);
}
