//! The explorer: enumerates every case of a section (in parallel, order-independent), counts
//! executions, transitions and distinct outcomes, collects violations, writes the evidence.
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// What is being explored right now: (property, section), and per worker the case and when it began.
static NOW: Mutex<(String, String)> = Mutex::new((String::new(), String::new()));
#[allow(clippy::declare_interior_mutable_const)]
const IDLE: (AtomicUsize, AtomicU64) = (AtomicUsize::new(0), AtomicU64::new(0));
static WORKERS: [(AtomicUsize, AtomicU64); 8] = [IDLE; 8];

/// Reports a case that does not come to an end (typical cases take milliseconds).
pub fn watch(started: Instant, limit: Duration, verif: String, thorough: bool, seed: u64) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let now = started.elapsed().as_millis() as u64;
        for w in &WORKERS {
            let (case, since) = (w.0.load(Ordering::SeqCst), w.1.load(Ordering::SeqCst));
            if case == 0 || now.saturating_sub(since) < limit.as_millis() as u64 {
                continue;
            }
            let (prop, section) = NOW.lock().map(|g| g.clone()).unwrap_or_default();
            if w.0.load(Ordering::SeqCst) != case || w.1.load(Ordering::SeqCst) != since {
                continue;
            }
            let _ = std::fs::create_dir_all(format!("{}/replays", verif));
            let _ = std::fs::create_dir_all(format!("{}/evidence", verif));
            let path = format!("{}/replays/{}-hang-{}.txt", verif, prop, case - 1);
            let _ = std::fs::write(
                &path,
                format!(
                    "property: {}\nsection: {}\nindex: {}\nsignature: hang\nobserved: no result after {:?}\nreplay: {}/mc/check.sh {} {}:{}\n",
                    prop, section, case - 1, limit, verif, prop, section, case - 1
                ),
            );
            let _ = std::fs::write(
                format!("{}/evidence/{}.json", verif, prop),
                format!(
                    "{{\n  \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\", \"wall_s\": {:.3}, \"violations\": 1,\n  \"coverage\": {{\"states\": 1, \"transitions\": 1, \"traces_validated_against_impl\": 0, \"exhaustive\": false, \"samples\": [{}]}}\n}}\n",
                    js(&prop), js(if thorough { "thorough" } else { "quick" }), seed,
                    started.elapsed().as_secs_f64(), js(&format!("{}:{} does not end", section, case - 1))
                ),
            );
            println!("  violation [hang] [{}] case {}: no result after {:?}", section, case - 1, limit);
            println!("VIOLATION property={} replay={}", prop, path);
            std::process::exit(1);
        }
    });
}

/// What one case reports.
#[derive(Default)]
pub struct Rec {
    pub transitions: u64,
    pub validated: u64,
    /// (number of complete executions, histogram of observed outcomes)
    pub execs: u64,
    pub outcomes: BTreeMap<String, u64>,
    pub states: Vec<u64>,
    pub fails: Vec<(String, String)>,
    pub sample: Option<String>,
}
impl Rec {
    /// real calls into the code under test
    pub fn steps(&mut self, n: usize) {
        self.transitions += n as u64;
    }
    /// one complete execution, compared with the reference model
    pub fn exec(&mut self, state: impl Hash, outcome: impl Into<String>) {
        let o = outcome.into();
        self.execs += 1;
        self.validated += 1;
        self.states.push(hash(&(hash(&state), &o)));
        *self.outcomes.entry(o).or_default() += 1;
    }
    /// A violation. `sig` identifies the failing input (used for known findings).
    pub fn fail(&mut self, sig: impl Into<String>, detail: impl Into<String>) {
        self.fails.push((sig.into(), detail.into()));
    }
    pub fn check(&mut self, ok: bool, sig: &str, detail: impl FnOnce() -> String) {
        if !ok {
            self.fail(sig, detail());
        }
    }
}

pub struct Section {
    pub name: String,
    pub bound: String,
    pub total: usize,
    pub done: usize,
    pub execs: u64,
    pub transitions: u64,
    pub states: usize,
    pub outcomes: BTreeMap<String, u64>,
    pub wall: f64,
}

pub struct Ctx {
    pub prop: String,
    /// the tier asked for
    pub tier: bool,
    /// the larger of the two bounds written in a section: the thorough tier, and both tiers of the
    /// properties in `CHEAP`
    pub thorough: bool,
    /// the thorough tier of those
    pub deeper: bool,
    pub seed: u64,
    pub verif: String,
    pub deadline: Instant,
    pub started: Instant,
    pub only: Option<(String, Option<usize>)>,
    pub sections: Vec<Section>,
    pub states: HashSet<u64>,
    pub transitions: u64,
    pub validated: u64,
    pub samples: Vec<String>,
    /// (section, index, case, signature, detail)
    pub fails: Vec<(String, usize, String, String, String)>,
    pub exhaustive: bool,
    pub notes: Vec<String>,
}

/// Properties whose larger bounds take less than a minute: every run uses them.
const CHEAP: [&str; 9] = ["P12", "P13", "P14", "P15", "P16", "P17", "P18", "P19", "P24"];

impl Ctx {
    pub fn new(prop: &str, only: Option<(String, Option<usize>)>) -> Ctx {
        let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
        let cap = if thorough { 2400 } else { 420 };
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let verif = std::env::var("ZOKMC_VERIF").unwrap_or_else(|_| "/verif".into());
        let started = Instant::now();
        watch(started, Duration::from_secs(if thorough { 1500 } else { 200 }), verif.clone(), thorough, seed);
        Ctx {
            prop: prop.into(),
            tier: thorough,
            thorough: thorough || CHEAP.contains(&prop),
            deeper: thorough && CHEAP.contains(&prop),
            seed,
            verif,
            deadline: Instant::now() + Duration::from_secs(cap),
            started,
            only,
            sections: vec![],
            states: HashSet::new(),
            transitions: 0,
            validated: 0,
            samples: vec![],
            fails: vec![],
            exhaustive: true,
            notes: vec![],
        }
    }
    pub fn note(&mut self, s: impl Into<String>) {
        self.notes.push(s.into());
    }

    /// Explores every case of `cases`.
    pub fn sweep<T: Debug + Sync>(
        &mut self,
        name: &str,
        bound: &str,
        cases: &[T],
        f: impl Fn(&T, &mut Rec) + Sync,
    ) {
        self.range(name, bound, cases.len(), |i| format!("{:?}", cases[i]), |i, r| f(&cases[i], r));
    }

    /// Explores every index below `total`.
    pub fn range(
        &mut self,
        name: &str,
        bound: &str,
        total: usize,
        describe: impl Fn(usize) -> String + Sync,
        f: impl Fn(usize, &mut Rec) + Sync,
    ) {
        let mut lo = 0;
        let mut hi = total;
        if let Some((s, i)) = &self.only {
            if s != name {
                return;
            }
            if let Some(i) = i {
                lo = *i;
                hi = (*i + 1).min(total);
            }
        }
        let begin = Instant::now();
        *NOW.lock().unwrap() = (self.prop.clone(), name.to_string());
        let t0 = self.started;
        let _ = std::fs::write(format!("{}/mc/target/exploring", self.verif), name);
        let next = AtomicUsize::new(lo);
        let stop = AtomicBool::new(false);
        let nfails = AtomicUsize::new(0);
        struct Acc {
            done: usize,
            execs: u64,
            transitions: u64,
            validated: u64,
            outcomes: BTreeMap<String, u64>,
            states: HashSet<u64>,
            fails: Vec<(usize, String, String)>,
            samples: BTreeMap<usize, String>,
        }
        let acc = Mutex::new(Acc {
            done: 0,
            execs: 0,
            transitions: 0,
            validated: 0,
            outcomes: BTreeMap::new(),
            states: HashSet::new(),
            fails: vec![],
            samples: BTreeMap::new(),
        });
        let threads = if hi.saturating_sub(lo) < 2 { 1 } else { 8 };
        let deadline = self.deadline;
        std::thread::scope(|s| {
            for worker in 0..threads {
                let slot = &WORKERS[worker];
                let (next, stop, nfails, acc, f, describe) = (&next, &stop, &nfails, &acc, &f, &describe);
                s.spawn(move || {
                    let mut local = Rec::default();
                    let mut done = 0;
                    let mut fails = vec![];
                    let mut samples = BTreeMap::new();
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= hi || stop.load(Ordering::Relaxed) {
                            break;
                        }
                        if Instant::now() > deadline || nfails.load(Ordering::Relaxed) > 200 {
                            stop.store(true, Ordering::Relaxed);
                            break;
                        }
                        let mut r = Rec::default();
                        slot.1.store(t0.elapsed().as_millis() as u64, Ordering::SeqCst);
                        slot.0.store(i + 1, Ordering::SeqCst);
                        let out = crate::run::guarded(|| f(i, &mut r));
                        slot.0.store(0, Ordering::SeqCst);
                        if let Err(e) = out {
                            // either the code under test panicked outside of a guarded call, or a
                            // result it gave made the harness fail: both are reported
                            r.fail("panic", format!("panic: {}", e));
                        }
                        done += 1;
                        local.transitions += r.transitions;
                        local.validated += r.validated;
                        local.execs += r.execs;
                        local.states.append(&mut r.states);
                        if (i == lo || i + 1 == hi || i == lo + (hi - lo) / 2) && samples.len() < 3 {
                            samples.insert(i, r.sample.take().unwrap_or_else(|| {
                                format!("{} => {:?}", describe(i), r.outcomes)
                            }));
                        }
                        for (k, v) in std::mem::take(&mut r.outcomes) {
                            *local.outcomes.entry(k).or_default() += v;
                        }
                        for (sig, d) in r.fails {
                            nfails.fetch_add(1, Ordering::Relaxed);
                            fails.push((i, sig, d));
                        }
                    }
                    let mut a = acc.lock().unwrap();
                    a.done += done;
                    a.execs += local.execs;
                    a.transitions += local.transitions;
                    a.validated += local.validated;
                    a.states.extend(local.states);
                    a.fails.extend(fails);
                    a.samples.extend(samples);
                    for (k, v) in local.outcomes {
                        *a.outcomes.entry(k).or_default() += v;
                    }
                });
            }
        });
        let mut a = acc.into_inner().unwrap();
        a.fails.sort();
        if a.done < total {
            self.exhaustive = false;
        }
        let sect = Section {
            name: name.into(),
            bound: bound.into(),
            total,
            done: a.done,
            execs: a.execs,
            transitions: a.transitions,
            states: a.states.len(),
            outcomes: a.outcomes,
            wall: begin.elapsed().as_secs_f64(),
        };
        let top: Vec<String> = {
            let mut v: Vec<_> = sect.outcomes.iter().collect();
            v.sort_by(|x, y| y.1.cmp(x.1));
            v.iter().take(8).map(|(k, n)| format!("{}:{}", k, n)).collect()
        };
        println!(
            "  [{}] {}/{} cases, {} executions, {} transitions, {} states, {} failures, {:.1}s | {}",
            name, sect.done, total, sect.execs, sect.transitions, sect.states, a.fails.len(), sect.wall,
            top.join(" ")
        );
        self.transitions += a.transitions;
        self.validated += a.validated;
        let salt = hash(name);
        self.states.extend(a.states.iter().map(|h| h ^ salt));
        for (_, s) in a.samples.into_iter().take(2) {
            self.samples.push(format!("{}: {}", name, s.chars().take(400).collect::<String>()));
        }
        for (i, sig, d) in a.fails {
            self.fails.push((name.into(), i, describe(i), sig, d));
        }
        self.sections.push(sect);
    }

    /// A section that reports a fixed list of checks computed by `f`.
    pub fn single(&mut self, name: &str, bound: &str, f: impl Fn(&mut Rec) + Sync) {
        self.range(name, bound, 1, |_| name.to_string(), |_, r| f(r));
    }

    /// Requires that the explored outcomes were not vacuous.
    pub fn require(&mut self, name: &str, pred: impl Fn(&Section) -> bool, what: &str) {
        if self.only.is_some() {
            return;
        }
        if let Some(s) = self.sections.iter().find(|s| s.name == name) {
            if s.done == s.total && !pred(s) {
                self.fails.push((
                    name.into(),
                    0,
                    "whole section".into(),
                    format!("{}:vacuous", name),
                    format!("{}; outcomes {:?}", what, s.outcomes),
                ));
            }
        }
    }

    pub fn finish(mut self) -> i32 {
        let known = load_known(&format!("{}/known_findings.txt", self.verif), &self.prop);
        let fails = std::mem::take(&mut self.fails);
        let mut seen_known: BTreeMap<String, usize> = BTreeMap::new();
        let mut violations = vec![];
        for f in fails {
            match known.iter().find(|(sig, _)| *sig == f.3) {
                Some((sig, _)) => *seen_known.entry(sig.clone()).or_default() += 1,
                None => violations.push(f),
            }
        }
        if self.only.is_none() {
            for (sig, what) in &known {
                let n = seen_known.get(sig).copied().unwrap_or(0);
                println!("KNOWN-FINDING: property={} {} [{}; seen {} times in this run]", self.prop, what, sig, n);
            }
        }
        let mut code = 0;
        let dir = format!("{}/replays", self.verif);
        let mut sigs = HashSet::new();
        for (sect, i, case, sig, detail) in &violations {
            code = 1;
            if !sigs.insert(format!("{}{}", sect, sig)) || sigs.len() > 8 {
                continue;
            }
            let _ = std::fs::create_dir_all(&dir);
            let path = format!("{}/{}-{}-{}.txt", dir, self.prop, sect.replace(|c: char| !c.is_alphanumeric(), "_"), i);
            let _ = std::fs::write(
                &path,
                format!(
                    "property: {}\nsection: {}\nindex: {}\nsignature: {}\ncase: {}\nobserved: {}\nreplay: {}/mc/check.sh {} {}:{}\n",
                    self.prop, sect, i, sig, case, detail, self.verif, self.prop, sect, i
                ),
            );
            println!("  violation [{}] case {}: {}", sig, case.chars().take(600).collect::<String>(), detail);
            println!("VIOLATION property={} replay={}", self.prop, path);
        }
        if self.only.is_none() {
            self.write_evidence(violations.len(), &seen_known);
        }
        println!(
            "{} {}: {} states, {} transitions, {} executions validated, exhaustive={}, {:.1}s, {} violations",
            self.prop,
            if self.tier { "thorough" } else { "quick" },
            self.states.len(),
            self.transitions,
            self.validated,
            self.exhaustive,
            self.started.elapsed().as_secs_f64(),
            violations.len()
        );
        code
    }

    fn write_evidence(&self, violations: usize, known: &BTreeMap<String, usize>) {
        let mut s = String::from("{\n");
        s += &format!("  \"property\": {},\n", js(&self.prop));
        s += &format!("  \"tier\": {},\n", js(if self.tier { "thorough" } else { "quick" }));
        s += &format!("  \"seed\": {},\n", self.seed);
        s += "  \"level\": \"model_checking\",\n";
        s += &format!("  \"wall_s\": {:.3},\n", self.started.elapsed().as_secs_f64());
        s += &format!("  \"violations\": {},\n", violations);
        s += "  \"coverage\": {\n";
        s += &format!("    \"states\": {},\n", self.states.len());
        s += &format!("    \"transitions\": {},\n", self.transitions);
        s += &format!("    \"traces_validated_against_impl\": {},\n", self.validated);
        s += &format!("    \"exhaustive\": {},\n", self.exhaustive);
        s += &format!(
            "    \"samples\": [{}],\n",
            self.samples.iter().map(|x| js(x)).collect::<Vec<_>>().join(", ")
        );
        s += &format!(
            "    \"known_findings_seen\": {{{}}},\n",
            known.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ")
        );
        s += &format!("    \"notes\": [{}],\n", self.notes.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "));
        s += "    \"sections\": [\n";
        s += &self
            .sections
            .iter()
            .map(|x| {
                let mut o: Vec<_> = x.outcomes.iter().collect();
                o.sort_by(|a, b| b.1.cmp(a.1));
                format!(
                    "      {{\"name\": {}, \"bound\": {}, \"cases_total\": {}, \"cases_done\": {}, \"executions\": {}, \"transitions\": {}, \"states\": {}, \"wall_s\": {:.2}, \"outcomes\": {{{}}}}}",
                    js(&x.name), js(&x.bound), x.total, x.done, x.execs, x.transitions, x.states, x.wall,
                    o.iter().take(25).map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ")
                )
            })
            .collect::<Vec<_>>()
            .join(",\n");
        s += "\n    ]\n  }\n}\n";
        let _ = std::fs::create_dir_all(format!("{}/evidence", self.verif));
        std::fs::write(format!("{}/evidence/{}.json", self.verif, self.prop), s).unwrap();
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Lines `known: property=P06 sig=<signature> :: <what fails>`; `fixed:` lines suppress nothing.
fn load_known(path: &str, prop: &str) -> Vec<(String, String)> {
    let mut out = vec![];
    if let Ok(t) = std::fs::read_to_string(path) {
        for l in t.lines() {
            if let Some(rest) = l.strip_prefix(&format!("known: property={} sig=", prop)) {
                if let Some((sig, what)) = rest.split_once(" :: ") {
                    out.push((sig.to_string(), what.to_string()));
                }
            }
        }
    }
    out
}
