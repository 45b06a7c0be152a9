//! Controlled scheduler.  Tasks are real threads, exactly one of which runs at
//! any time.  Every visible operation is announced with [`point`], where the
//! scheduler decides which task goes on.  The decisions are taken from a
//! prefix, then by default (stay on the running task), and are recorded, so an
//! explorer can enumerate all of them and replay any of them.

use std::any::Any;
use std::cell::RefCell;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};

/// Everything one execution owns.  Threads spawned through `vstd::thread` inherit it.
pub struct World {
    pub fs: Mutex<crate::fs::FsState>,
    pub sched: Option<Sched>,
    pub notes: Mutex<Vec<String>>,
    /// Scratch counters for other stand-ins (random number streams).
    pub streams: Mutex<Streams>,
}

#[derive(Default)]
pub struct Streams {
    pub next: u64,
    pub seeds: Vec<(Vec<u64>, u64)>,
}

impl World {
    pub fn new(sched: Option<Sched>) -> World {
        World {
            fs: Mutex::new(Default::default()),
            sched,
            notes: Mutex::new(Vec::new()),
            streams: Mutex::new(Default::default()),
        }
    }
}

#[derive(Clone)]
struct Ctx {
    world: Arc<World>,
    task: usize,
}

thread_local! {
    static CTX: RefCell<Option<Ctx>> = const { RefCell::new(None) };
}

pub fn world() -> Option<Arc<World>> {
    CTX.with(|c| c.borrow().as_ref().map(|c| c.world.clone()))
}

/// The world of this thread; threads outside any world share one per thread.
pub fn world_or_default() -> Arc<World> {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        if c.is_none() {
            *c = Some(Ctx { world: Arc::new(World::new(None)), task: 0 });
        }
        c.as_ref().unwrap().world.clone()
    })
}

pub fn note(s: String) {
    if let Some(w) = world() {
        w.notes.lock().unwrap().push(s);
    }
}

fn ctx_controlled() -> Option<Ctx> {
    CTX.with(|c| c.borrow().as_ref().filter(|c| c.world.sched.is_some()).cloned())
}

pub fn controlled() -> bool {
    CTX.with(|c| c.borrow().as_ref().map_or(false, |c| c.world.sched.is_some()))
}

pub fn task_id() -> usize {
    CTX.with(|c| c.borrow().as_ref().map_or(0, |c| c.task))
}

pub(crate) fn enter(world: Arc<World>, task: usize) -> impl Drop {
    struct Restore(Option<Ctx>);
    impl Drop for Restore {
        fn drop(&mut self) {
            let old = self.0.take();
            CTX.with(|c| *c.borrow_mut() = old);
        }
    }
    Restore(CTX.with(|c| c.borrow_mut().replace(Ctx { world, task })))
}

/// Run `f` with this world as the current one and no scheduler control.
pub fn in_world<R>(world: &Arc<World>, f: impl FnOnce() -> R) -> R {
    let _g = enter(world.clone(), 0);
    f()
}

pub struct AbortExec;

#[derive(Clone, Debug, PartialEq)]
pub enum Abort {
    Deadlock(String),
    Horizon,
    Divergence(String),
}

#[derive(Clone, Debug)]
pub struct Choice {
    pub n: u32,
    pub chosen: u32,
    /// Option 0 is the running task going on: taking another one preempts it.
    pub preempts: bool,
    /// A data choice (fault, waiter to wake) rather than a task choice.
    pub data: bool,
}

struct Enabled(*const (dyn Fn() -> bool + 'static));
unsafe impl Send for Enabled {}

enum Status {
    /// Between points; `Starting` tasks have not reached their first point.
    Running,
    Waiting(Option<Enabled>, &'static str),
    Done,
}

struct Task {
    status: Status,
    cv: Arc<Condvar>,
    /// Task to hand the baton back to at the first point (eager start).
    starter: Option<usize>,
    panicked: bool,
}

struct State {
    tasks: Vec<Task>,
    current: usize,
    prefix: Vec<u32>,
    trace: Vec<Choice>,
    ops: u64,
    consecutive: u32,
    max_ops: u64,
    abort: Option<Abort>,
    log: Option<Vec<String>>,
}

pub struct Sched {
    m: Mutex<State>,
}

fn lock(s: &Sched) -> MutexGuard<'_, State> {
    s.m.lock().unwrap_or_else(|e| e.into_inner())
}

impl Sched {
    pub fn new(prefix: Vec<u32>, max_ops: u64, keep_log: bool) -> Sched {
        Sched {
            m: Mutex::new(State {
                tasks: vec![Task { status: Status::Running, cv: Arc::new(Condvar::new()), starter: None, panicked: false }],
                current: 0,
                prefix,
                trace: Vec::new(),
                ops: 0,
                consecutive: 0,
                max_ops,
                abort: None,
                log: if keep_log { Some(Vec::new()) } else { None },
            }),
        }
    }

    fn abort_now(st: &mut State, a: Abort) {
        if st.abort.is_none() {
            st.abort = Some(a);
        }
        for t in st.tasks.iter() {
            t.cv.notify_all();
        }
    }

    /// Take a decision among `n` options.
    fn decide(st: &mut State, n: usize, default: usize, preempts: bool, data: bool) -> usize {
        let k = st.trace.len();
        let chosen = if k < st.prefix.len() {
            let c = st.prefix[k] as usize;
            // "whichever comes at this place, counted round the options"
            let c = if c >= WRAP as usize { (c - WRAP as usize) % n } else { c };
            if c >= n {
                Self::abort_now(st, Abort::Divergence(format!("choice {} has {} options, prefix wants {}", k, n, c)));
                0
            } else {
                c
            }
        } else {
            default
        };
        st.trace.push(Choice { n: n as u32, chosen: chosen as u32, preempts, data });
        chosen
    }

    /// Pick the next task to run. `me` has already updated its status.
    fn pick(st: &mut State, me: usize, yielding: bool) -> Option<usize> {
        let mut options = Vec::with_capacity(st.tasks.len());
        let is_enabled = |t: &Task| match t.status {
            Status::Waiting(None, _) => true,
            Status::Waiting(Some(ref e), _) => unsafe { (*e.0)() },
            _ => false,
        };
        let me_enabled = is_enabled(&st.tasks[me]);
        if me_enabled && !yielding {
            options.push(me);
        }
        for (i, t) in st.tasks.iter().enumerate() {
            if i != me && is_enabled(t) {
                options.push(i);
            }
        }
        if me_enabled && yielding {
            options.push(me);
        }
        if options.is_empty() {
            return None;
        }
        let n = options.len();
        let c = if n == 1 {
            0
        } else {
            // Fairness: a task that keeps running alone for very long is rotated out.
            let default = if me_enabled && !yielding && st.consecutive > 400 { 1 } else { 0 };
            Self::decide(st, n, default, me_enabled && !yielding, false)
        };
        let next = options[c];
        if next == me { st.consecutive += 1 } else { st.consecutive = 0 }
        Some(next)
    }

    fn wait_for_baton<'a>(&'a self, mut st: MutexGuard<'a, State>, me: usize) -> MutexGuard<'a, State> {
        let cv = st.tasks[me].cv.clone();
        while st.current != me && st.abort.is_none() {
            st = cv.wait(st).unwrap_or_else(|e| e.into_inner());
        }
        st
    }

    fn switch(st: &mut State, to: usize) {
        st.current = to;
        st.tasks[to].cv.notify_all();
    }

    fn point(&self, me: usize, what: &'static str, enabled: Option<&dyn Fn() -> bool>, yielding: bool) {
        let mut st = lock(self);
        if st.abort.is_some() {
            drop(st);
            if !std::thread::panicking() {
                resume_unwind(Box::new(AbortExec));
            }
            return;
        }
        st.ops += 1;
        if st.ops > st.max_ops {
            Self::abort_now(&mut st, Abort::Horizon);
            drop(st);
            if !std::thread::panicking() {
                resume_unwind(Box::new(AbortExec));
            }
            return;
        }
        let e = enabled.map(|e| Enabled(unsafe { std::mem::transmute::<*const (dyn Fn() -> bool + '_), *const (dyn Fn() -> bool + 'static)>(e as *const _) }));
        st.tasks[me].status = Status::Waiting(e, what);
        let next = if let Some(s) = st.tasks[me].starter.take() {
            Some(s)
        } else {
            Self::pick(&mut st, me, yielding)
        };
        match next {
            None => {
                let d = Self::describe(&st);
                Self::abort_now(&mut st, Abort::Deadlock(d));
            }
            Some(n) if n != me => {
                Self::switch(&mut st, n);
                st = self.wait_for_baton(st, me);
            }
            _ => (),
        }
        st.tasks[me].status = Status::Running;
        if let Some(ref mut log) = st.log {
            log.push(format!("t{} {}", me, what));
        }
        let aborted = st.abort.is_some();
        drop(st);
        if aborted && !std::thread::panicking() {
            resume_unwind(Box::new(AbortExec));
        }
    }

    fn describe(st: &State) -> String {
        st.tasks.iter().enumerate().map(|(i, t)| match t.status {
            Status::Running => format!("t{} running", i),
            Status::Waiting(_, w) => format!("t{} waits for {}", i, w),
            Status::Done => format!("t{} done", i),
        }).collect::<Vec<_>>().join(", ")
    }

    fn new_task(&self) -> usize {
        let mut st = lock(self);
        st.tasks.push(Task { status: Status::Waiting(None, "start"), cv: Arc::new(Condvar::new()), starter: None, panicked: false });
        st.tasks.len() - 1
    }

    /// The parent hands the baton to the new task until its first point.
    fn start_task(&self, me: usize, child: usize) {
        let mut st = lock(self);
        if st.abort.is_some() {
            return;
        }
        st.tasks[child].starter = Some(me);
        st.tasks[child].status = Status::Running;
        st.tasks[me].status = Status::Waiting(None, "spawn");
        Self::switch(&mut st, child);
        st = self.wait_for_baton(st, me);
        st.tasks[me].status = Status::Running;
        let aborted = st.abort.is_some();
        drop(st);
        if aborted && !std::thread::panicking() {
            resume_unwind(Box::new(AbortExec));
        }
    }

    fn finish_task(&self, me: usize, panicked: bool) {
        let mut st = lock(self);
        st.tasks[me].status = Status::Done;
        st.tasks[me].panicked = panicked;
        if let Some(ref mut log) = st.log {
            log.push(format!("t{} ends{}", me, if panicked { " by panic" } else { "" }));
        }
        if st.abort.is_some() {
            Self::abort_now(&mut st, Abort::Horizon);
            return;
        }
        let next = if let Some(s) = st.tasks[me].starter.take() {
            Some(s)
        } else {
            Self::pick(&mut st, me, false)
        };
        match next {
            Some(n) => Self::switch(&mut st, n),
            None => {
                if st.tasks.iter().any(|t| !matches!(t.status, Status::Done)) {
                    let d = Self::describe(&st);
                    Self::abort_now(&mut st, Abort::Deadlock(d));
                } else {
                    // everything done: the root waits on its own condvar
                    let cv = st.tasks[0].cv.clone();
                    cv.notify_all();
                }
            }
        }
    }

    fn wait_all_done(&self) {
        let mut st = lock(self);
        let cv = st.tasks[0].cv.clone();
        while st.tasks.iter().any(|t| !matches!(t.status, Status::Done)) {
            let (s, _) = cv.wait_timeout(st, std::time::Duration::from_millis(50)).unwrap_or_else(|e| e.into_inner());
            st = s;
        }
    }
}

// ---- interface used by the other stand-ins ----

/// Announce a visible operation; returns when this task may perform it.
/// `enabled` must not touch the scheduler.
pub fn point(what: &'static str, enabled: Option<&dyn Fn() -> bool>) {
    if let Some(c) = ctx_controlled() {
        if std::thread::panicking() && enabled.map_or(true, |e| e()) {
            return;
        }
        c.world.sched.as_ref().unwrap().point(c.task, what, enabled, false);
    }
}

pub fn yield_point(what: &'static str) {
    if let Some(c) = ctx_controlled() {
        if std::thread::panicking() {
            return;
        }
        c.world.sched.as_ref().unwrap().point(c.task, what, None, true);
    }
}

/// A recorded, enumerable data choice among n options (0 is the default).
pub fn choose(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    if let Some(c) = ctx_controlled() {
        let mut st = lock(c.world.sched.as_ref().unwrap());
        if st.abort.is_some() {
            return 0;
        }
        Sched::decide(&mut st, n, 0, false, true)
    } else {
        0
    }
}

pub(crate) struct Spawned<T> {
    pub task: usize,
    pub done: Arc<std::sync::atomic::AtomicBool>,
    pub result: Arc<Mutex<Option<std::thread::Result<T>>>>,
}

/// Prepare a controlled task: returns the body to run on the new real thread and a handle.
pub(crate) fn prepare<T, F>(f: F) -> (impl FnOnce(), Spawned<T>)
where F: FnOnce() -> T {
    let c = ctx_controlled().unwrap();
    let sched_world = c.world.clone();
    let task = sched_world.sched.as_ref().unwrap().new_task();
    let done = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let result = Arc::new(Mutex::new(None));
    let (done2, result2) = (done.clone(), result.clone());
    let body = move || {
        let _g = enter(sched_world.clone(), task);
        let sched = sched_world.sched.as_ref().unwrap();
        {
            let st = lock(sched);
            let st = sched.wait_for_baton(st, task);
            drop(st);
        }
        let r = catch_unwind(AssertUnwindSafe(f));
        let panicked = r.is_err();
        *result2.lock().unwrap() = Some(r);
        done2.store(true, std::sync::atomic::Ordering::SeqCst);
        sched.finish_task(task, panicked);
    };
    (body, Spawned { task, done, result })
}

pub(crate) fn start(child: usize) {
    let c = ctx_controlled().unwrap();
    c.world.sched.as_ref().unwrap().start_task(c.task, child);
}

/// Which of these tasks ended by a panic.
pub(crate) fn panicked(tasks: &[usize]) -> Vec<usize> {
    let c = ctx_controlled().unwrap();
    let st = lock(c.world.sched.as_ref().unwrap());
    tasks.iter().cloned().filter(|&t| st.tasks[t].panicked).collect()
}

// ---- running one execution ----

pub struct Execution<R> {
    pub result: std::thread::Result<R>,
    pub world: Arc<World>,
    pub trace: Vec<Choice>,
    pub ops: u64,
    pub tasks: usize,
    pub panicked_tasks: usize,
    pub abort: Option<Abort>,
    pub log: Option<Vec<String>>,
}

impl<R> Execution<R> {
    pub fn panic_text(&self) -> Option<String> {
        match &self.result {
            Ok(_) => None,
            Err(e) => Some(payload_text(&**e)),
        }
    }
}

pub fn payload_text(e: &(dyn Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if e.downcast_ref::<AbortExec>().is_some() {
        "execution aborted by the scheduler".to_string()
    } else if let Some(p) = e.downcast_ref::<crate::process::ProcessExit>() {
        format!("process exit {}", p.0)
    } else {
        "panic with a payload that is not text".to_string()
    }
}

/// Added to an entry of a prefix: it is taken modulo the number of options.
pub const WRAP: u32 = 1 << 31;

/// Run `f` as task 0 under the scheduler, following `prefix`, then defaults,
/// until all tasks have ended.  `setup` prepares the world (files, faults).
pub fn run<R>(prefix: Vec<u32>, max_ops: u64, keep_log: bool, setup: impl FnOnce(&World), f: impl FnOnce(&World) -> R) -> Execution<R> {
    let world = Arc::new(World::new(Some(Sched::new(prefix, max_ops, keep_log))));
    setup(&world);
    let result = {
        let _g = enter(world.clone(), 0);
        let r = catch_unwind(AssertUnwindSafe(|| f(&world)));
        let sched = world.sched.as_ref().unwrap();
        sched.finish_task(0, r.is_err());
        sched.wait_all_done();
        r
    };
    let st = lock(world.sched.as_ref().unwrap());
    let e = Execution {
        result,
        trace: st.trace.clone(),
        ops: st.ops,
        tasks: st.tasks.len(),
        panicked_tasks: st.tasks.iter().filter(|t| t.panicked).count(),
        abort: st.abort.clone(),
        log: st.log.clone(),
        world: world.clone(),
    };
    drop(st);
    e
}
