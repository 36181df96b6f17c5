//! A preemption-bounded stateless explorer: real threads, one runs at a time, every synchronization step of the
//! code under test is a scheduling point, all schedules with at most `bound` preemptions are executed.
use goko::verif_sync::{enter, Controller};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy)]
struct Pred(*const dyn Fn() -> bool);
unsafe impl Send for Pred {}

enum Th {
    Ready,
    /// gave up its turn; runs again once nobody else can, or after somebody else has run
    Yielded,
    Blocked(Pred),
    Done,
}

#[derive(Clone, Debug)]
pub struct Point {
    /// threads that could run, in canonical order (the running one first if it can go on)
    pub enabled: Vec<usize>,
    pub choice: usize,
    /// the first one is the running thread, so any other choice is a preemption
    pub preempts: bool,
}

struct State {
    threads: Vec<Th>,
    current: usize,
    prefix: Vec<usize>,
    points: Vec<Point>,
    failed: Option<String>,
    steps: usize,
    live: usize,
}

pub struct Sched {
    st: Mutex<State>,
    cv: Condvar,
    horizon: usize,
}

thread_local! {
    static ME: RefCell<Option<(usize, Arc<Sched>)>> = RefCell::new(None);
}

struct Ctl;
static CTL: Ctl = Ctl;

fn me() -> (usize, Arc<Sched>) {
    ME.with(|m| m.borrow().clone()).expect("not a scheduled thread")
}

impl Controller for Ctl {
    fn point(&self) {
        let (i, s) = me();
        s.switch(i, Th::Ready)
    }
    fn yield_now(&self) {
        let (i, s) = me();
        s.switch(i, Th::Yielded)
    }
    fn block_until(&self, ready: &dyn Fn() -> bool) {
        let (i, s) = me();
        let p: *const (dyn Fn() -> bool + '_) = ready;
        let p: *const (dyn Fn() -> bool + 'static) = unsafe { std::mem::transmute(p) };
        s.switch(i, Th::Blocked(Pred(p)))
    }
    fn spawn(&self, f: Box<dyn FnOnce() + Send>) {
        let (_, s) = me();
        s.start(f);
        self.point();
    }
}

impl Sched {
    /// Picks who runs next. Called with the state locked by the running (or finishing) thread.
    fn pick(&self, st: &mut State, from: usize) -> Option<usize> {
        let t0 = Instant::now();
        loop {
            let n = st.threads.len();
            let ready = |i: usize| match &st.threads[i] {
                Th::Ready => true,
                Th::Blocked(p) => unsafe { (*p.0)() },
                _ => false,
            };
            let mut enabled: Vec<usize> = vec![];
            if ready(from) {
                enabled.push(from);
            }
            for i in 0..n {
                if i != from && ready(i) {
                    enabled.push(i);
                }
            }
            let preempts = enabled.first() == Some(&from);
            if enabled.is_empty() {
                // only spinners are left
                for i in 0..n {
                    if let Th::Yielded = st.threads[i] {
                        enabled.push(i)
                    }
                }
            }
            if enabled.is_empty() {
                if st.live == 0 {
                    return None;
                }
                // Somebody outside our control may still act (library thread pools).
                if t0.elapsed() < Duration::from_secs(3) {
                    std::thread::sleep(Duration::from_millis(1));
                    continue;
                }
                st.failed.get_or_insert_with(|| "deadlock: every thread waits".into());
                return None;
            }
            st.steps += 1;
            if st.steps > self.horizon {
                st.failed.get_or_insert_with(|| format!("no end after {} steps: threads only spin", self.horizon));
                return None;
            }
            let choice = if enabled.len() > 1 {
                let k = st.points.len();
                let c = match st.prefix.get(k) {
                    Some(c) => {
                        if *c >= enabled.len() {
                            st.failed.get_or_insert_with(|| "HARNESS: replay diverged".into());
                            return None;
                        }
                        *c
                    }
                    None => 0,
                };
                st.points.push(Point { enabled: enabled.clone(), choice: c, preempts });
                c
            } else {
                0
            };
            let next = enabled[choice];
            // anybody who yielded may look again now
            for i in 0..n {
                if i != next {
                    if let Th::Yielded = st.threads[i] {
                        if i != from {
                            st.threads[i] = Th::Ready;
                        }
                    }
                }
            }
            if next != from {
                if let Th::Yielded = st.threads[from] {
                    st.threads[from] = Th::Ready;
                }
            }
            st.threads[next] = Th::Ready;
            st.current = next;
            return Some(next);
        }
    }

    fn switch(&self, i: usize, as_: Th) {
        let mut st = self.st.lock().unwrap();
        if st.failed.is_some() {
            // the execution is over; park for good
            loop {
                st = self.cv.wait(st).unwrap();
            }
        }
        st.threads[i] = as_;
        let next = self.pick(&mut st, i);
        if next != Some(i) {
            self.cv.notify_all();
            while st.current != i || st.failed.is_some() {
                st = self.cv.wait(st).unwrap();
            }
        }
    }

    fn start(self: &Arc<Self>, f: Box<dyn FnOnce() + Send>) {
        let id = {
            let mut st = self.st.lock().unwrap();
            st.threads.push(Th::Ready);
            st.live += 1;
            st.threads.len() - 1
        };
        let s = Arc::clone(self);
        pool(Box::new(move || {
            {
                let mut st = s.st.lock().unwrap();
                while st.current != id || st.failed.is_some() {
                    if st.failed.is_some() {
                        return;
                    }
                    st = s.cv.wait(st).unwrap();
                }
            }
            ME.with(|m| *m.borrow_mut() = Some((id, Arc::clone(&s))));
            enter(Some(&CTL));
            let r = catch_unwind(AssertUnwindSafe(f));
            enter(None);
            ME.with(|m| *m.borrow_mut() = None);
            let mut st = s.st.lock().unwrap();
            if r.is_err() {
                let m = crate::run::last_panic();
                st.failed.get_or_insert_with(|| format!("thread {} panicked: {}", id, m));
            }
            st.threads[id] = Th::Done;
            st.live -= 1;
            if st.failed.is_none() {
                s.pick(&mut st, id);
            }
            s.cv.notify_all();
        }));
    }
}

/// Reuses OS threads between executions.
fn pool(f: Box<dyn FnOnce() + Send>) {
    type Job = Box<dyn FnOnce() + Send>;
    static IDLE: Mutex<Vec<std::sync::mpsc::Sender<Job>>> = Mutex::new(vec![]);
    let s = IDLE.lock().unwrap().pop();
    match s {
        Some(s) => s.send(f).unwrap(),
        None => {
            let (s, r) = std::sync::mpsc::channel::<Job>();
            s.send(f).unwrap();
            std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn(move || {
                    while let Ok(j) = r.recv() {
                        j();
                        IDLE.lock().unwrap().push(s.clone());
                    }
                })
                .unwrap();
        }
    }
}

pub struct Exec {
    pub points: Vec<Point>,
    pub failed: Option<String>,
    pub steps: usize,
}

/// Runs `body` as thread 0 under the schedule `prefix` (then always the first choice).
pub fn run_once(prefix: Vec<usize>, body: Box<dyn FnOnce() + Send>) -> Exec {
    let s = Arc::new(Sched {
        st: Mutex::new(State { threads: vec![], current: 0, prefix, points: vec![], failed: None, steps: 0, live: 0 }),
        cv: Condvar::new(),
        horizon: 50_000,
    });
    s.start(body);
    let mut st = s.st.lock().unwrap();
    while st.live > 0 && st.failed.is_none() {
        let (g, _) = s.cv.wait_timeout(st, Duration::from_millis(200)).unwrap();
        st = g;
    }
    Exec { points: std::mem::take(&mut st.points), failed: st.failed.clone(), steps: st.steps }
}

/// Starts another scheduled thread from inside a body; returns a flag to wait on.
pub fn spawn(f: impl FnOnce() + Send + 'static) -> Join {
    let done = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let d = Arc::clone(&done);
    let (_, s) = me();
    s.start(Box::new(move || {
        struct Fin(Arc<std::sync::atomic::AtomicBool>);
        impl Drop for Fin {
            fn drop(&mut self) {
                self.0.store(true, std::sync::atomic::Ordering::SeqCst)
            }
        }
        let _f = Fin(d);
        f()
    }));
    Join(done)
}
pub struct Join(Arc<std::sync::atomic::AtomicBool>);
impl Join {
    pub fn join(self) {
        CTL.block_until(&|| self.0.load(std::sync::atomic::Ordering::SeqCst))
    }
}
/// Runs `f` without interleaving it with anything.
pub fn quietly<T>(f: impl FnOnce() -> T) -> T {
    enter(None);
    let r = catch_unwind(AssertUnwindSafe(f));
    enter(Some(&CTL));
    match r {
        Ok(r) => r,
        Err(p) => std::panic::resume_unwind(p),
    }
}
pub fn step() {
    CTL.point()
}

pub struct Explored {
    pub executions: u64,
    pub steps: u64,
    pub max_points: usize,
    pub outcomes: std::collections::HashSet<u64>,
}

fn cost_of(limit: Limit, p: &Point, choice: usize) -> usize {
    match limit {
        Limit::Preempt(_) => (p.preempts && choice > 0) as usize,
        Limit::Deviate(_) => choice,
    }
}

/// Which schedules are enumerated.
#[derive(Clone, Copy, Debug)]
pub enum Limit {
    /// all schedules with at most this many preemptions (choices at blocking points are free)
    Preempt(usize),
    /// all schedules that deviate from the default (run on, else lowest thread first) by at most this many places
    Deviate(usize),
}

/// All schedules of `body` within the limit. `body` returns its observation hash through the slot.
pub fn explore(
    limit: Limit,
    cap: u64,
    stop: &dyn Fn() -> bool,
    body: &dyn Fn(Arc<Mutex<Result<u64, String>>>) -> Box<dyn FnOnce() + Send>,
) -> Result<(Explored, bool), (Vec<usize>, String)> {
    let bound = match limit {
        Limit::Preempt(b) | Limit::Deviate(b) => b,
    };
    let mut ex = Explored { executions: 0, steps: 0, max_points: 0, outcomes: Default::default() };
    let mut stack: Vec<(Vec<usize>, usize)> = vec![(vec![], 0)];
    while let Some((prefix, cost)) = stack.pop() {
        if stop() || ex.executions >= cap {
            return Ok((ex, false));
        }
        let slot = Arc::new(Mutex::new(Ok(0)));
        let x = run_once(prefix.clone(), body(Arc::clone(&slot)));
        ex.executions += 1;
        ex.steps += x.steps as u64;
        ex.max_points = ex.max_points.max(x.points.len());
        if let Some(m) = x.failed {
            return Err((x.points.iter().map(|p| p.choice).collect(), m));
        }
        match &*slot.lock().unwrap() {
            Ok(h) => {
                ex.outcomes.insert(*h);
            }
            Err(m) => return Err((x.points.iter().map(|p| p.choice).collect(), m.clone())),
        }
        let choices: Vec<usize> = x.points.iter().map(|p| p.choice).collect();
        let mut c = cost;
        let mut next = vec![];
        for i in prefix.len()..x.points.len() {
            let p = &x.points[i];
            for alt in 1..p.enabled.len() {
                let extra = cost_of(limit, p, alt);
                if c + extra <= bound {
                    let mut v = choices[..i].to_vec();
                    v.push(alt);
                    next.push((v, c + extra));
                }
            }
            c += cost_of(limit, p, p.choice);
        }
        next.reverse();
        stack.extend(next);
    }
    Ok((ex, true))
}
