//! The explorer: complete enumeration of finite input spaces, of schedules and
//! of fault placements, with replay files, evidence and known findings.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub use vstd::fs::{Fault, FsState, Op};
pub use vstd::sched::{self, Abort, Choice, Execution, World};

pub mod num;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Level {
    Exploration,
    FaultEnumeration,
    ModelChecking,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let text = vstd::sched::payload_text(info.payload());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("panicked at {}: {}", loc, text)));
    }));
}

/// Run f; a panic becomes Err(text with location).
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(e) => {
            let last = LAST_PANIC.with(|p| p.borrow_mut().take());
            Err(last.unwrap_or_else(|| vstd::sched::payload_text(&*e)))
        }
    }
}

/// Handed to the judge of every case.
pub struct Cx {
    pub index: u64,
    pub verbose: bool,
    evals: u64,
    nontrivial: u64,
    fails: Vec<(String, String)>,
    samples: Vec<String>,
    want_sample: bool,
    counters: BTreeMap<&'static str, u64>,
}

impl Cx {
    fn new(verbose: bool) -> Cx {
        Cx { index: 0, verbose, evals: 0, nontrivial: 0, fails: Vec::new(), samples: Vec::new(), want_sample: false, counters: BTreeMap::new() }
    }
    /// This case contains `n` further evaluations (besides the one every case counts).
    pub fn evals(&mut self, n: u64) { self.evals += n }
    pub fn nontrivial(&mut self) { self.nontrivial += 1 }
    pub fn nontrivials(&mut self, n: u64) { self.nontrivial += n }
    pub fn fail(&mut self, msg: impl Into<String>) { self.fail_key("", msg) }
    /// `key` names the specific input, call site or history, for known findings.
    pub fn fail_key(&mut self, key: &str, msg: impl Into<String>) {
        if self.fails.len() < 8 {
            self.fails.push((key.to_string(), msg.into()));
        }
    }
    pub fn failed(&self) -> bool { !self.fails.is_empty() }
    pub fn check(&mut self, ok: bool, msg: impl FnOnce() -> String) -> bool {
        if !ok {
            self.fail(msg());
        }
        ok
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.want_sample || self.verbose {
            let t = s();
            if self.verbose {
                println!("  case {}: {}", self.index, t);
            }
            if self.samples.len() < 3 {
                self.samples.push(t);
            }
            self.want_sample = false;
        }
    }
    pub fn count(&mut self, name: &'static str, n: u64) { *self.counters.entry(name).or_insert(0) += n }
}

struct Violation {
    family: String,
    case: String,
    key: String,
    msg: String,
}

struct FamRec {
    name: String,
    rule: String,
    size: u64,
    evals: u64,
    nontrivial: u64,
    exhaustive: bool,
    samples: Vec<String>,
    counters: BTreeMap<&'static str, u64>,
    states: u64,
    transitions: u64,
    execs: u64,
    note: String,
}

struct Known {
    property: String,
    key: String,
    text: String,
}

/// Says what panicked when a check dies outside its cases.
struct Last;
impl Drop for Last {
    fn drop(&mut self) {
        if std::thread::panicking() { LAST_PANIC.with(|p| if let Some(t) = p.borrow().as_ref() { eprintln!("{}", t) }) }
    }
}

pub struct Check {
    _last: Last,
    id: String,
    pub tier: Tier,
    pub seed: u64,
    level: Level,
    start: Instant,
    root: PathBuf,
    fams: Vec<FamRec>,
    violations: Vec<Violation>,
    known: Vec<Known>,
    known_hit: BTreeMap<String, u64>,
    assumptions: Vec<String>,
    replay: Option<(String, String)>,
    replayed: bool,
    only: Option<String>,
    budget: Duration,
    case_limit: Duration,
}

/// Ends the process with a violation when one case runs for too long.
struct Watch {
    slots: Vec<(AtomicU64, Mutex<String>)>,
    done: AtomicBool,
    start: Instant,
}

impl Watch {
    fn new() -> Watch {
        Watch { slots: (0..threads()).map(|_| (AtomicU64::new(0), Mutex::new(String::new()))).collect(), done: AtomicBool::new(false), start: Instant::now() }
    }
    fn begin(&self, slot: usize, case: impl FnOnce() -> String) {
        *self.slots[slot].1.lock().unwrap() = case();
        self.slots[slot].0.store(self.start.elapsed().as_millis() as u64 + 1, Relaxed);
    }
    fn end(&self, slot: usize) {
        self.slots[slot].0.store(0, Relaxed);
    }
    fn monitor(&self, limit: Duration, root: &PathBuf, id: &str, tier: Tier, family: &str) {
        while !self.done.load(SeqCst) {
            std::thread::sleep(Duration::from_millis(20));
            let now = self.start.elapsed().as_millis() as u64 + 1;
            for s in self.slots.iter() {
                let t = s.0.load(Relaxed);
                if t != 0 && now > t + limit.as_millis() as u64 {
                    let case = s.1.lock().unwrap().clone();
                    let path = root.join("replays").join(format!("{}-hang.txt", id));
                    let _ = std::fs::create_dir_all(root.join("replays"));
                    let _ = std::fs::write(&path, format!("property: {}\ntier: {:?}\nfamily: {}\ncase: {}\nwhat: did not end within {} s\n", id, tier, family, case, limit.as_secs()));
                    println!("VIOLATION property={} replay={}", id, path.display());
                    println!("  {} case {}: did not end within {} s", family, case, limit.as_secs());
                    std::process::exit(1);
                }
            }
        }
    }
}

fn threads() -> usize {
    std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8))
}

impl Check {
    pub fn new(id: &str, level: Level) -> Check {
        install_hook();
        let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".to_string()));
        let mut tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut replay = None;
        let mut only = None;
        let args: Vec<String> = std::env::args().collect();
        let mut k = 1;
        while k < args.len() {
            match args[k].as_str() {
                "quick" => tier = Tier::Quick,
                "thorough" => tier = Tier::Thorough,
                "--replay" => {
                    k += 1;
                    let text = std::fs::read_to_string(&args[k]).expect("replay file");
                    let get = |name: &str| text.lines().find_map(|l| l.strip_prefix(&format!("{}: ", name)).map(|s| s.to_string()));
                    replay = Some((get("family").expect("family"), get("case").expect("case")));
                    if get("tier").as_deref() == Some("Thorough") {
                        tier = Tier::Thorough;
                    }
                }
                "--only" => {
                    k += 1;
                    only = Some(args[k].clone());
                }
                a => panic!("unknown argument {}", a),
            }
            k += 1;
        }
        let mut known = Vec::new();
        if let Ok(text) = std::fs::read_to_string(root.join("KNOWN_FINDINGS.txt")) {
            for l in text.lines() {
                if let Some(rest) = l.strip_prefix("finding: property=") {
                    let mut it = rest.splitn(3, ' ');
                    let property = it.next().unwrap_or("").to_string();
                    let key = it.next().unwrap_or("").trim_start_matches("key=").to_string();
                    let text = it.next().unwrap_or("").to_string();
                    known.push(Known { property, key, text });
                }
            }
        }
        Check {
            _last: Last,
            id: id.to_string(), tier, seed, level, start: Instant::now(), root,
            fams: Vec::new(), violations: Vec::new(), known, known_hit: BTreeMap::new(),
            assumptions: Vec::new(), replay, replayed: false, only,
            budget: Duration::from_secs(if tier == Tier::Quick { 600 } else { 6 * 3600 }),
            case_limit: Duration::from_secs(if tier == Tier::Quick { 150 } else { 1500 }),
        }
    }

    pub fn thorough(&self) -> bool { self.tier == Tier::Thorough }
    /// The quick value or the thorough one.
    pub fn pick<T>(&self, q: T, t: T) -> T { if self.thorough() { t } else { q } }
    pub fn assume(&mut self, s: &str) { self.assumptions.push(s.to_string()) }

    fn skip(&self, name: &str) -> bool {
        if let Some((ref f, _)) = self.replay {
            return f != name;
        }
        if let Some(ref o) = self.only {
            return !name.contains(o.as_str());
        }
        false
    }

    fn record_fail(&mut self, family: &str, case: &str, key: &str, msg: &str) {
        let full = if key.is_empty() { format!("{}#{}", family, case.replace(' ', ",")) } else { key.to_string() };
        if self.known.iter().any(|k| k.property == self.id && k.key == full) {
            *self.known_hit.entry(full).or_insert(0) += 1;
            return;
        }
        self.violations.push(Violation { family: family.to_string(), case: case.to_string(), key: full, msg: msg.to_string() });
    }

    fn is_known(&self, family: &str, case: &str, key: &str) -> bool {
        let full = if key.is_empty() { format!("{}#{}", family, case) } else { key.to_string() };
        self.known.iter().any(|k| k.property == self.id && k.key == full)
    }

    /// Evaluate the cases 0..n of a finite space, all of them.
    pub fn family<F>(&mut self, name: &str, rule: &str, n: u64, f: F)
    where F: Fn(u64, &mut Cx) + Sync {
        if self.skip(name) {
            return;
        }
        if let Some((_, case)) = self.replay.clone() {
            let mut cx = Cx::new(true);
            let i: u64 = case.parse().expect("case index");
            cx.index = i;
            cx.evals = 1;
            if let Err(e) = catch(|| f(i, &mut cx)) {
                cx.fail(e);
            }
            self.replayed = true;
            for (k, m) in cx.fails.clone() {
                println!("  {}", m);
                self.record_fail(name, &case, &k, &m);
            }
            return;
        }
        let t0 = Instant::now();
        let deadline = self.start + self.budget;
        let next = AtomicU64::new(0);
        let stop_at = AtomicU64::new(u64::MAX);
        let timed_out = AtomicBool::new(false);
        let chunk = (n / (threads() as u64 * 64)).clamp(1, 4096);
        let sample_every = (n / 5).max(1);
        let results: Mutex<Vec<(u64, Cx, Vec<(u64, String, String)>)>> = Mutex::new(Vec::new());
        let watch = Watch::new();
        let workers = threads().min(((n + chunk - 1) / chunk).max(1) as usize);
        let left = AtomicU64::new(workers as u64);
        std::thread::scope(|s| {
            s.spawn(|| watch.monitor(self.case_limit, &self.root, &self.id, self.tier, name));
            for slot in 0..workers {
                let (watch, left, next, stop_at, timed_out, results, f) = (&watch, &left, &next, &stop_at, &timed_out, &results, &f);
                let this = &*self;
                s.spawn(move || {
                    let mut cx = Cx::new(false);
                    let mut fails = Vec::new();
                    loop {
                        let a = next.fetch_add(chunk, SeqCst);
                        if a >= n || a > stop_at.load(Relaxed) {
                            break;
                        }
                        if Instant::now() > deadline {
                            timed_out.store(true, SeqCst);
                            break;
                        }
                        watch.begin(slot, || a.to_string());
                        for i in a..(a + chunk).min(n) {
                            cx.index = i;
                            cx.evals += 1;
                            cx.want_sample = i % sample_every == 0;
                            if let Err(e) = catch(|| f(i, &mut cx)) {
                                cx.fail(e);
                            }
                            if !cx.fails.is_empty() {
                                let mut unknown = false;
                                for (k, m) in std::mem::take(&mut cx.fails) {
                                    unknown |= !this.is_known(name, &i.to_string(), &k);
                                    fails.push((i, k, m));
                                }
                                if unknown {
                                    // later chunks need not be started; earlier ones are finished
                                    stop_at.fetch_min(i, SeqCst);
                                    break;
                                }
                            }
                        }
                    }
                    watch.end(slot);
                    results.lock().unwrap().push((0, cx, fails));
                    if left.fetch_sub(1, SeqCst) == 1 {
                        watch.done.store(true, SeqCst);
                    }
                });
            }
        });
        let mut rec = FamRec {
            name: name.to_string(), rule: rule.to_string(), size: n, evals: 0, nontrivial: 0,
            exhaustive: !timed_out.load(SeqCst) && stop_at.load(SeqCst) == u64::MAX, samples: Vec::new(),
            counters: BTreeMap::new(), states: 0, transitions: 0, execs: 0, note: String::new(),
        };
        let mut fails: Vec<(u64, String, String)> = Vec::new();
        for (_, cx, fl) in results.into_inner().unwrap() {
            rec.evals += cx.evals;
            rec.nontrivial += cx.nontrivial;
            rec.samples.extend(cx.samples);
            for (k, v) in cx.counters {
                *rec.counters.entry(k).or_insert(0) += v;
            }
            fails.extend(fl);
        }
        rec.samples.truncate(2);
        fails.sort();
        for (i, k, m) in fails.iter() {
            self.record_fail(name, &i.to_string(), k, m);
        }
        if std::env::var("MC_TIMES").is_ok() {
            println!("  {}: {} cases, {} evaluations, {} nontrivial, {:.2} s {:?}", name, n, rec.evals, rec.nontrivial, t0.elapsed().as_secs_f64(), rec.counters);
        }
        self.fams.push(rec);
    }

    /// A single case that is judged sequentially.
    pub fn case<F>(&mut self, name: &str, rule: &str, f: F) where F: Fn(&mut Cx) + Sync {
        self.family(name, rule, 1, |_, cx| f(cx))
    }

    /// Explore all schedules (and data choices) of `root`, up to `preemptions`.
    pub fn explore<R, S, B, J>(&mut self, name: &str, rule: &str, cfg: &Explore, setup: S, root: B, judge: J)
    where S: Fn(&World) + Sync, B: Fn(&World) -> R + Sync, J: Fn(&Execution<R>, &mut Cx) + Sync, R: Send {
        if self.skip(name) {
            return;
        }
        if let Some((_, case)) = self.replay.clone() {
            let prefix: Vec<u32> = case.split_whitespace().filter(|s| *s != "-").map(|s| s.parse().unwrap()).collect();
            let e = sched::run(prefix, cfg.max_ops, true, &setup, &root);
            let mut cx = Cx::new(true);
            for l in e.log.iter().flatten() {
                println!("    {}", l);
            }
            judge_exec(&e, &mut cx, &judge);
            self.replayed = true;
            for (k, m) in cx.fails.clone() {
                println!("  {}", m);
                self.record_fail(name, &case, &k, &m);
            }
            return;
        }
        let t0 = Instant::now();
        let mut rec = FamRec {
            name: name.to_string(), rule: rule.to_string(), size: 0, evals: 0, nontrivial: 0, exhaustive: false,
            samples: Vec::new(), counters: BTreeMap::new(), states: 0, transitions: 0, execs: 0, note: String::new(),
        };
        let deadline = (t0 + cfg.time).min(self.start + self.budget);
        let mut completed: Option<u32> = None;
        let mut fails: Vec<(String, String, String)> = Vec::new();
        for bound in cfg.from.min(cfg.preemptions)..=cfg.preemptions {
            let r = explore_bound(bound, cfg, deadline, &setup, &root, &judge, &|w| w.monitor(self.case_limit, &self.root, &self.id, self.tier, name));
            // the last bound run is what is reported: it includes the smaller ones
            rec.evals = r.execs;
            rec.execs = r.execs;
            rec.states = r.states;
            rec.transitions = r.ops;
            rec.nontrivial = r.nontrivial;
            rec.counters = r.counters;
            rec.samples = r.samples;
            fails = r.fails;
            if !r.complete {
                rec.note = format!("stopped at {} executions with up to {} preemptions; completed {}", r.execs, bound, match completed { Some(b) => format!("all schedules with up to {}", b), None => "none".into() });
                break;
            }
            completed = Some(bound);
            rec.note = format!("all schedules with up to {} preemptions", bound);
            if r.pruned == 0 {
                rec.exhaustive = true;
                rec.note = "all schedules".to_string();
                break;
            }
            if !fails.is_empty() {
                break;
            }
        }
        rec.size = rec.execs;
        rec.samples.truncate(2);
        fails.sort_by_key(|f| (f.0.len(), f.0.clone()));
        for (c, k, m) in fails.iter() {
            self.record_fail(name, c, k, m);
        }
        if std::env::var("MC_TIMES").is_ok() {
            println!("  {}: {} executions, {} states, {} ops, {} ({:.2} s) {:?}", name, rec.execs, rec.states, rec.transitions, rec.note, t0.elapsed().as_secs_f64(), rec.counters);
        }
        self.fams.push(rec);
    }

    fn json(&self) -> String {
        let evals: u64 = self.fams.iter().map(|f| f.evals).sum();
        let nontrivial: u64 = self.fams.iter().map(|f| f.nontrivial).sum();
        let mut o = String::new();
        let level = match self.level {
            Level::Exploration => "exploration",
            Level::FaultEnumeration => "fault_enumeration",
            Level::ModelChecking => "model_checking",
        };
        let rule = self.fams.iter().map(|f| format!("{}: {}", f.name, f.rule)).collect::<Vec<_>>().join(" | ");
        let samples: Vec<String> = self.fams.iter().flat_map(|f| f.samples.iter().map(move |s| format!("{}: {}", f.name, s))).collect();
        let _ = write!(o, "{{\n \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"{}\",\n \"coverage\": {{\n", q(&self.id), if self.thorough() { "thorough" } else { "quick" }, self.seed, level);
        match self.level {
            Level::ModelChecking => {
                let states: u64 = self.fams.iter().map(|f| f.states).sum();
                let trans: u64 = self.fams.iter().map(|f| f.transitions).sum();
                let execs: u64 = self.fams.iter().map(|f| f.execs).sum();
                let _ = write!(o, "  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n", states, trans, execs);
                let _ = write!(o, "  \"input_cases\": {},\n", self.fams.iter().filter(|f| f.execs == 0).map(|f| f.evals).sum::<u64>());
            }
            _ => {
                let _ = write!(o, "  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n", evals, nontrivial);
            }
        }
        let _ = write!(o, "  \"rule\": {},\n  \"exhaustive\": {},\n  \"samples\": [", q(&rule), self.fams.iter().all(|f| f.exhaustive));
        for (k, s) in samples.iter().take(24).enumerate() {
            let _ = write!(o, "{}\n   {}", if k > 0 { "," } else { "" }, q(s));
        }
        let _ = write!(o, "\n  ],\n  \"families\": [");
        for (k, f) in self.fams.iter().enumerate() {
            let _ = write!(o, "{}\n   {{\"name\": {}, \"cases\": {}, \"evaluations\": {}, \"nontrivial\": {}, \"exhaustive\": {}", if k > 0 { "," } else { "" }, q(&f.name), f.size, f.evals, f.nontrivial, f.exhaustive);
            if f.execs > 0 {
                let _ = write!(o, ", \"executions\": {}, \"choice_states\": {}, \"operations\": {}", f.execs, f.states, f.transitions);
            }
            if !f.note.is_empty() {
                let _ = write!(o, ", \"note\": {}", q(&f.note));
            }
            for (n, v) in f.counters.iter() {
                let _ = write!(o, ", {}: {}", q(n), v);
            }
            let _ = write!(o, "}}");
        }
        let _ = write!(o, "\n  ]\n }},\n \"assumptions\": [");
        for (k, a) in self.assumptions.iter().enumerate() {
            let _ = write!(o, "{}\n  {}", if k > 0 { "," } else { "" }, q(a));
        }
        let _ = write!(o, "\n ],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n", self.start.elapsed().as_secs_f64(), self.violations.len());
        o
    }

    /// Write the evidence, report, and end the process.
    pub fn finish(self) -> ! {
        if self.replay.is_some() {
            if !self.replayed {
                println!("replay: no such family");
            }
            for v in self.violations.iter() {
                println!("VIOLATION property={} replayed {} case {}: {}", self.id, v.family, v.case, v.msg);
            }
            std::process::exit(if self.violations.is_empty() { 0 } else { 1 });
        }
        if self.only.is_none() {
            let dir = self.root.join("evidence");
            let _ = std::fs::create_dir_all(&dir);
            std::fs::write(dir.join(format!("{}.json", self.id)), self.json()).expect("evidence");
        }
        for k in self.known.iter().filter(|k| k.property == self.id) {
            if self.known_hit.contains_key(&k.key) {
                println!("KNOWN-FINDING: property={} {}", self.id, k.text);
            }
        }
        let evals: u64 = self.fams.iter().map(|f| f.evals).sum();
        println!("{}: {} families, {} evaluations, {:.1} s, {} violation(s)", self.id, self.fams.len(), evals, self.start.elapsed().as_secs_f64(), self.violations.len());
        if self.violations.is_empty() {
            std::process::exit(0);
        }
        let dir = self.root.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let mut seen: BTreeMap<String, u32> = BTreeMap::new();
        let mut shown = 0;
        for v in self.violations.iter() {
            let n = seen.entry(v.family.clone()).or_insert(0);
            *n += 1;
            if *n > 1 || shown >= 12 {
                continue;
            }
            shown += 1;
            let fname: String = v.family.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '-' }).collect();
            let path = dir.join(format!("{}-{}.txt", self.id, fname));
            let _ = std::fs::write(&path, format!("property: {}\ntier: {:?}\nfamily: {}\ncase: {}\nkey: {}\nwhat: {}\nreplay with: bash {}/run.sh {} --replay {}\n", self.id, self.tier, v.family, v.case, v.key, v.msg, self.root.display(), self.id, path.display()));
            println!("VIOLATION property={} replay={}", self.id, path.display());
            println!("  {} case {}: {}", v.family, v.case, v.msg);
        }
        std::process::exit(1);
    }
}

fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Explore {
    /// Largest number of preemptions; u32::MAX explores all schedules at once.
    pub preemptions: u32,
    /// Start at this bound instead of 0 (smaller bounds are included in larger ones).
    pub from: u32,
    pub max_execs: u64,
    pub max_ops: u64,
    pub time: Duration,
    /// An execution that deadlocks or never ends is a violation (otherwise the judge decides).
    pub must_terminate: bool,
}

impl Explore {
    pub fn new(preemptions: u32) -> Explore {
        Explore { preemptions, from: 0, max_execs: 400_000, max_ops: 20_000, time: Duration::from_secs(120), must_terminate: true }
    }
}

struct BoundResult {
    execs: u64,
    states: u64,
    ops: u64,
    nontrivial: u64,
    pruned: u64,
    complete: bool,
    counters: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
    fails: Vec<(String, String, String)>,
}

fn judge_exec<R>(e: &Execution<R>, cx: &mut Cx, judge: &(impl Fn(&Execution<R>, &mut Cx) + Sync)) {
    if let Err(p) = catch(|| judge(e, cx)) {
        cx.fail(format!("judge {}", p));
    }
}

fn explore_bound<R, S, B, J>(bound: u32, cfg: &Explore, deadline: Instant, setup: &S, root: &B, judge: &J, monitor: &(dyn Fn(&Watch) + Sync)) -> BoundResult
where S: Fn(&World) + Sync, B: Fn(&World) -> R + Sync, J: Fn(&Execution<R>, &mut Cx) + Sync, R: Send {
    struct Shared {
        stack: Vec<Vec<u32>>,
        active: usize,
    }
    let shared = Mutex::new(Shared { stack: vec![vec![]], active: 0 });
    let cv = std::sync::Condvar::new();
    let execs = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let cut = AtomicBool::new(false);
    let out = Mutex::new(BoundResult { execs: 0, states: 0, ops: 0, nontrivial: 0, pruned: 0, complete: true, counters: BTreeMap::new(), samples: Vec::new(), fails: Vec::new() });
    let watch = Watch::new();
    let left = AtomicU64::new(threads() as u64);
    std::thread::scope(|s| {
        s.spawn(|| monitor(&watch));
        for slot in 0..threads() {
            let (watch, left, shared, cv, execs, stop, cut, out) = (&watch, &left, &shared, &cv, &execs, &stop, &cut, &out);
            s.spawn(move || {
                let mut cx = Cx::new(false);
                let (mut states, mut ops, mut pruned) = (0u64, 0u64, 0u64);
                let mut fails = Vec::new();
                loop {
                    let prefix = {
                        let mut g = shared.lock().unwrap();
                        loop {
                            if stop.load(SeqCst) {
                                break None;
                            }
                            if let Some(p) = g.stack.pop() {
                                g.active += 1;
                                break Some(p);
                            }
                            if g.active == 0 {
                                break None;
                            }
                            g = cv.wait_timeout(g, Duration::from_millis(20)).unwrap().0;
                        }
                    };
                    let prefix = match prefix {
                        Some(p) => p,
                        None => break,
                    };
                    let n = execs.fetch_add(1, SeqCst) + 1;
                    if n > cfg.max_execs || Instant::now() > deadline {
                        cut.store(true, SeqCst);
                        stop.store(true, SeqCst);
                    }
                    let plen = prefix.len();
                    watch.begin(slot, || prefix.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" "));
                    let e = sched::run(prefix, cfg.max_ops, false, setup, root);
                    watch.end(slot);
                    cx.index = n;
                    cx.want_sample = n.is_power_of_two() && cx.samples.len() < 2;
                    match &e.abort {
                        Some(Abort::Divergence(d)) => {
                            cx.fail(format!("the execution is not a function of the schedule: {}", d));
                        }
                        Some(a) if cfg.must_terminate => cx.fail(format!("does not terminate: {:?}", a)),
                        _ => (),
                    }
                    if e.trace.len() < plen {
                        cx.fail("the execution is not a function of the schedule (shorter than its prefix)");
                    }
                    if cx.fails.is_empty() {
                        judge_exec(&e, &mut cx, judge);
                    }
                    states += (e.trace.len().saturating_sub(plen)) as u64 + 1;
                    ops += e.ops;
                    if !cx.fails.is_empty() {
                        let case = if e.trace.is_empty() { "-".to_string() } else { e.trace.iter().map(|c| c.chosen.to_string()).collect::<Vec<_>>().join(" ") };
                        for (k, m) in std::mem::take(&mut cx.fails) {
                            fails.push((case.clone(), k, m));
                        }
                        stop.store(true, SeqCst);
                    }
                    // alternatives
                    let mut new = Vec::new();
                    let mut cost = 0;
                    for (k, c) in e.trace.iter().enumerate() {
                        if k >= plen {
                            for alt in 0..c.n {
                                if alt == c.chosen {
                                    continue;
                                }
                                let extra = if c.preempts && alt != 0 { 1 } else { 0 };
                                if cost + extra > bound {
                                    pruned += 1;
                                    continue;
                                }
                                let mut p: Vec<u32> = e.trace[..k].iter().map(|c| c.chosen).collect();
                                p.push(alt);
                                new.push(p);
                            }
                        }
                        if c.preempts && c.chosen != 0 {
                            cost += 1;
                        }
                    }
                    let mut g = shared.lock().unwrap();
                    g.stack.extend(new);
                    g.active -= 1;
                    drop(g);
                    cv.notify_all();
                }
                let mut o = out.lock().unwrap();
                o.states += states;
                o.ops += ops;
                o.pruned += pruned;
                o.nontrivial += cx.nontrivial;
                for (k, v) in cx.counters {
                    *o.counters.entry(k).or_insert(0) += v;
                }
                o.samples.extend(cx.samples);
                o.fails.extend(fails);
                drop(o);
                if left.fetch_sub(1, SeqCst) == 1 {
                    watch.done.store(true, SeqCst);
                }
            });
        }
    });
    let mut o = out.into_inner().unwrap();
    o.execs = execs.load(SeqCst);
    o.complete = !cut.load(SeqCst);
    o
}

/// Mixed-radix decoding of a case index.
pub struct Digits(pub u64);
impl Digits {
    pub fn take(&mut self, n: usize) -> usize {
        let d = self.0 % n as u64;
        self.0 /= n as u64;
        d as usize
    }
    pub fn of<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.take(v.len())] }
}

/// Everything `f` does runs in a fresh world of its own (files, random streams), sequentially controlled.
pub fn single<R>(setup: impl FnOnce(&World), f: impl FnOnce(&World) -> R) -> Execution<R> {
    sched::run(Vec::new(), 200_000_000, false, setup, f)
}
