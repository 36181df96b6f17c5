//! Exploration bookkeeping: cases, counters, violations, evidence, watchdog.
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub fn verif_dir() -> std::path::PathBuf {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()).into()
}

/// What one explored execution observed.
pub struct Seen {
    pub hash: u64,
    pub transitions: u64,
}

pub fn h<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
    static SLOT: RefCell<Option<usize>> = RefCell::new(None);
}

/// The message of the last panic on this thread.
pub fn last_panic() -> String {
    LAST_PANIC.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

const WIDE_IN_QUICK: &[&str] = &["C03", "C04", "C07", "C08", "C10", "C11", "C12", "C14", "C15", "C16", "C17", "C18", "C19"];

pub struct Run {
    pub prop: String,
    /// Whether to use the wide bounds. Checks that finish quickly with them use them in both tiers.
    pub thorough: bool,
    /// Whether this is the thorough tier.
    pub deep: bool,
    pub seed: i64,
    pub only: Option<String>,
    start: Instant,
    execs: AtomicU64,
    transitions: AtomicU64,
    outcomes: Mutex<HashSet<u64>>,
    violations: Mutex<Vec<(String, String)>>,
    stop: AtomicBool,
    samples: Mutex<Vec<String>>,
    slots: Vec<Mutex<Option<(Instant, String)>>>,
    next_slot: AtomicUsize,
    bounds: Mutex<Vec<String>>,
    extra: Mutex<Vec<(String, serde_json::Value)>>,
    gaps: Mutex<Vec<String>>,
    assumptions: Mutex<Vec<String>>,
    out: Mutex<std::fs::File>,
    case_limit: Duration,
    slowest: Mutex<(Duration, String)>,
    pub level: Mutex<&'static str>,
}

/// Bytes of memory this process holds.
fn resident() -> u64 {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split(' ').nth(1).and_then(|n| n.parse::<u64>().ok()).unwrap_or(0) * 4096
}

impl Run {
    pub fn new(prop: &str, deep: bool, only: Option<String>) -> &'static Run {
        // keep the library's own printing away from the report
        let out = unsafe {
            use std::os::unix::io::FromRawFd;
            let saved = libc::dup(1);
            let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
            libc::dup2(null, 1);
            libc::close(null);
            std::fs::File::from_raw_fd(saved)
        };
        std::panic::set_hook(Box::new(|info| {
            let s = format!("{}", info);
            if std::env::var("SHOW_PANICS").is_ok() {
                eprintln!("{}", s);
            }
            let _ = LAST_PANIC.try_with(|l| *l.borrow_mut() = s);
        }));
        let run: &'static Run = Box::leak(Box::new(Run {
            prop: prop.into(),
            thorough: deep || WIDE_IN_QUICK.contains(&prop),
            deep,
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            only,
            start: Instant::now(),
            execs: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            outcomes: Mutex::new(HashSet::new()),
            violations: Mutex::new(vec![]),
            stop: AtomicBool::new(false),
            samples: Mutex::new(vec![]),
            slots: (0..64).map(|_| Mutex::new(None)).collect(),
            next_slot: AtomicUsize::new(0),
            bounds: Mutex::new(vec![]),
            extra: Mutex::new(vec![]),
            gaps: Mutex::new(vec![]),
            assumptions: Mutex::new(vec![]),
            out: Mutex::new(out),
            case_limit: Duration::from_secs(
                std::env::var("CASE_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(300),
            ),
            slowest: Mutex::new((Duration::from_secs(1), String::new())),
            level: Mutex::new("model_checking"),
        }));
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(200));
            // one case that eats up the memory would take the whole check with it
            let limit = if run.deep { 20u64 << 30 } else { 12u64 << 30 };
            if resident() > limit {
                let slots: Vec<_> = run.slots.iter().filter_map(|s| s.lock().unwrap().clone()).collect();
                if let Some((t, c)) = slots.into_iter().min_by_key(|(t, _)| *t) {
                    run.violate(&c, &format!("did not finish in {:?}, with {} GB of memory in use", t.elapsed(), limit >> 30));
                    std::process::exit(run.finish());
                }
            }
            for s in &run.slots {
                let hit = match &*s.lock().unwrap() {
                    Some((t, c)) if t.elapsed() > run.case_limit => Some(c.clone()),
                    _ => None,
                };
                if let Some(c) = hit {
                    run.violate(&c, &format!("did not finish within {:?}", run.case_limit));
                    std::process::exit(run.finish());
                }
            }
        });
        run
    }

    pub fn stopped(&self) -> bool {
        self.stop.load(SeqCst)
    }
    /// States a bound of this exploration, for the evidence.
    pub fn bound(&self, s: impl Into<String>) {
        self.bounds.lock().unwrap().push(s.into());
    }
    pub fn assume(&self, s: impl Into<String>) {
        self.assumptions.lock().unwrap().push(s.into());
    }
    pub fn extra(&self, k: &str, v: impl Into<serde_json::Value>) {
        self.extra.lock().unwrap().push((k.into(), v.into()));
    }
    pub fn add_transitions(&self, n: u64) {
        self.transitions.fetch_add(n, SeqCst);
    }

    /// Counts executions explored inside one case.
    pub fn add_execs(&self, n: u64) {
        self.execs.fetch_add(n, SeqCst);
    }
    pub fn add_outcomes(&self, o: impl IntoIterator<Item = u64>) {
        self.outcomes.lock().unwrap().extend(o);
    }
    /// Some space was not covered completely.
    pub fn incomplete(&self, what: String) {
        self.gaps.lock().unwrap().push(what);
    }
    /// Tells the watchdog that the current case is making progress.
    pub fn touch(&self) {
        if let Some(i) = SLOT.with(|s| *s.borrow()) {
            if let Some((t, _)) = &mut *self.slots[i].lock().unwrap() {
                *t = Instant::now();
            }
        }
    }

    pub fn violate(&self, case: &str, msg: &str) {
        let mut v = self.violations.lock().unwrap();
        v.push((case.into(), msg.into()));
        if v.len() >= 3 {
            self.stop.store(true, SeqCst);
        }
    }

    /// Run one execution of the code under test.
    pub fn case<D: Fn() -> String, F: FnOnce() -> Result<Seen, String>>(&self, desc: D, f: F) {
        if self.stopped() {
            return;
        }
        let d = desc();
        if let Some(o) = &self.only {
            if *o != d {
                return;
            }
        }
        let slot = SLOT.with(|s| {
            *s.borrow_mut().get_or_insert_with(|| self.next_slot.fetch_add(1, SeqCst) % 64)
        });
        *self.slots[slot].lock().unwrap() = Some((Instant::now(), d.clone()));
        let r = catch_unwind(AssertUnwindSafe(f));
        if let Some((t, _)) = self.slots[slot].lock().unwrap().take() {
            let t = t.elapsed();
            if t > Duration::from_secs(1) {
                let mut s = self.slowest.lock().unwrap();
                if t > s.0 {
                    *s = (t, d.clone());
                }
            }
        }
        let n = self.execs.fetch_add(1, SeqCst);
        match r {
            Ok(Ok(seen)) => {
                self.transitions.fetch_add(seen.transitions, SeqCst);
                self.outcomes.lock().unwrap().insert(seen.hash);
                if n.is_power_of_two() {
                    let mut s = self.samples.lock().unwrap();
                    if s.len() < 12 {
                        s.push(d);
                    }
                }
            }
            Ok(Err(m)) => self.violate(&d, &m),
            Err(p) => {
                let m = LAST_PANIC.with(|l| std::mem::take(&mut *l.borrow_mut()));
                let m = if m.is_empty() {
                    p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
                } else {
                    m
                };
                self.violate(&d, &format!("panicked: {}", m))
            }
        }
    }

    /// Visit `0..n` on all cores.
    pub fn par<F: Fn(usize) + Sync>(&self, n: usize, f: F) {
        let next = AtomicUsize::new(0);
        let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
        std::thread::scope(|s| {
            for _ in 0..workers {
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, || loop {
                        let i = next.fetch_add(1, SeqCst);
                        if i >= n || self.stopped() {
                            break;
                        }
                        f(i)
                    })
                    .unwrap();
            }
        });
    }

    /// Writes evidence, prints the verdict, returns the exit code.
    pub fn finish(&self) -> i32 {
        let dir = verif_dir();
        let _ = std::fs::create_dir_all(dir.join("evidence/replay"));
        let viol = self.violations.lock().unwrap().clone();
        let known: Vec<(String, String)> = std::fs::read_to_string(dir.join("known_findings.txt"))
            .unwrap_or_default()
            .lines()
            .filter_map(|l| {
                // known: property=<id> case=<exact case> :: <what fails>
                let l = l.strip_prefix("known: property=")?;
                let (id, rest) = l.split_once(" case=")?;
                let (case, what) = rest.split_once(" :: ")?;
                if id == self.prop {
                    Some((case.to_string(), what.to_string()))
                } else {
                    None
                }
            })
            .collect();
        let mut bad = 0;
        let mut out = self.out.lock().unwrap();
        for (i, (case, msg)) in viol.iter().enumerate() {
            if let Some((_, what)) = known.iter().find(|(c, _)| c == case) {
                let _ = writeln!(out, "KNOWN-FINDING: property={} {}", self.prop, what);
                continue;
            }
            bad += 1;
            let p = dir.join(format!("evidence/replay/{}-{}.json", self.prop, i));
            let j = serde_json::json!({"property": self.prop, "case": case, "message": msg,
                "rerun": format!("/verif/check.sh {} {} --case '{}'", self.prop, if self.deep {"thorough"} else {"quick"}, case)});
            let _ = std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap());
            let cut = |s: &str| if s.chars().count() > 700 { format!("{} ...", s.chars().take(700).collect::<String>()) } else { s.to_string() };
            let _ = writeln!(out, "{}: {}\n  {}", self.prop, cut(case), cut(msg));
            let _ = writeln!(out, "VIOLATION property={} replay={}", self.prop, p.display());
        }
        let states = self.outcomes.lock().unwrap().len() as u64;
        let execs = self.execs.load(SeqCst);
        let level = *self.level.lock().unwrap();
        let mut cov = serde_json::Map::new();
        let samples: Vec<_> = self.samples.lock().unwrap().iter().map(|s| serde_json::Value::from(s.clone())).collect();
        if level == "fault_enumeration" {
            cov.insert("evaluations".into(), execs.into());
            cov.insert("distinct_nontrivial".into(), states.into());
            cov.insert("rule".into(), self.bounds.lock().unwrap().join("; ").into());
        } else {
            cov.insert("states".into(), states.into());
            cov.insert("transitions".into(), self.transitions.load(SeqCst).into());
            cov.insert("traces_validated_against_impl".into(), execs.into());
            cov.insert("bounds".into(), self.bounds.lock().unwrap().join("; ").into());
        }
        cov.insert("exhaustive".into(), (!self.stopped() && self.only.is_none() && self.gaps.lock().unwrap().is_empty()).into());
        if !self.gaps.lock().unwrap().is_empty() {
            cov.insert("not_completed".into(), self.gaps.lock().unwrap().clone().into());
        }
        cov.insert("samples".into(), samples.into());
        for (k, v) in self.extra.lock().unwrap().iter() {
            cov.insert(k.clone(), v.clone());
        }
        let slow = self.slowest.lock().unwrap().clone();
        if !slow.1.is_empty() {
            cov.insert("slowest_case".into(), format!("{:.1} s: {}", slow.0.as_secs_f64(), slow.1.chars().take(200).collect::<String>()).into());
        }
        let ev = serde_json::json!({
            "property": self.prop,
            "tier": if self.deep {"thorough"} else {"quick"},
            "seed": self.seed,
            "level": level,
            "coverage": cov,
            "assumptions": *self.assumptions.lock().unwrap(),
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": bad,
        });
        std::fs::write(dir.join(format!("evidence/{}.json", self.prop)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
        let _ = writeln!(
            out,
            "{} {}: executions={} distinct_outcomes={} transitions={} violations={} wall={:.1}s",
            self.prop,
            if self.deep { "thorough" } else { "quick" },
            execs,
            states,
            self.transitions.load(SeqCst),
            bad,
            self.start.elapsed().as_secs_f64()
        );
        let _ = out.flush();
        if bad > 0 {
            1
        } else {
            0
        }
    }
}
