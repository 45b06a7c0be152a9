//! Threads: under a controlled execution every spawned thread is a task of the scheduler.
pub use std::thread::*;

use crate::sched::{self, controlled, point, yield_point, Spawned};
use std::io;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::time::Duration;

enum Inner<T> {
    Real(std::thread::JoinHandle<T>),
    Task(Spawned<T>, std::thread::Thread),
}

pub struct JoinHandle<T>(Inner<T>);

impl<T> JoinHandle<T> {
    pub fn join(self) -> Result<T> {
        match self.0 {
            Inner::Real(h) => h.join(),
            Inner::Task(s, _) => {
                let done = s.done.clone();
                point("join", Some(&|| done.load(SeqCst)));
                let r = s.result.lock().unwrap().take();
                match r {
                    Some(r) => r,
                    // only while an aborted execution unwinds
                    None => Err(Box::new(sched::AbortExec)),
                }
            }
        }
    }
    pub fn thread(&self) -> &std::thread::Thread {
        match self.0 {
            Inner::Real(ref h) => h.thread(),
            Inner::Task(_, ref t) => t,
        }
    }
    pub fn is_finished(&self) -> bool {
        match self.0 {
            Inner::Real(ref h) => h.is_finished(),
            Inner::Task(ref s, _) => {
                yield_point("is_finished");
                s.done.load(SeqCst)
            }
        }
    }
}

impl<T> std::fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("JoinHandle") }
}

fn real_builder(name: Option<String>, stack: Option<usize>) -> std::thread::Builder {
    let mut b = std::thread::Builder::new();
    if let Some(n) = name { b = b.name(n); }
    if let Some(s) = stack { b = b.stack_size(s); }
    b
}

fn spawn_impl<F, T>(f: F, name: Option<String>, stack: Option<usize>) -> io::Result<JoinHandle<T>>
where F: FnOnce() -> T + Send + 'static, T: Send + 'static {
    let b = real_builder(name, stack);
    if controlled() {
        let (body, s) = sched::prepare(f);
        struct S<B>(B);
        unsafe impl<B> Send for S<B> {}
        let body = S(body);
        let h = b.spawn(move || { let b = body; (b.0)() })?;
        sched::start(s.task);
        let t = h.thread().clone();
        Ok(JoinHandle(Inner::Task(s, t)))
    } else {
        let w = sched::world();
        let h = b.spawn(move || match w {
            Some(w) => sched::in_world(&w, f),
            None => f(),
        })?;
        Ok(JoinHandle(Inner::Real(h)))
    }
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where F: FnOnce() -> T + Send + 'static, T: Send + 'static {
    spawn_impl(f, None, None).unwrap()
}

#[derive(Debug, Default)]
pub struct Builder { name: Option<String>, stack: Option<usize> }
impl Builder {
    pub fn new() -> Builder { Builder::default() }
    pub fn name(mut self, n: String) -> Builder { self.name = Some(n); self }
    pub fn stack_size(mut self, s: usize) -> Builder { self.stack = Some(s); self }
    pub fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>>
    where F: FnOnce() -> T + Send + 'static, T: Send + 'static {
        spawn_impl(f, self.name, self.stack)
    }
    pub fn spawn_scoped<'scope, 'env, F, T>(self, s: &'scope Scope<'scope, 'env>, f: F) -> io::Result<ScopedJoinHandle<'scope, T>>
    where F: FnOnce() -> T + Send + 'scope, T: Send + 'scope {
        Ok(s.spawn(f))
    }
}

pub fn yield_now() {
    if controlled() { yield_point("yield") } else { std::thread::yield_now() }
}
pub fn sleep(d: Duration) {
    if controlled() { yield_point("sleep") } else { std::thread::sleep(d) }
}
#[allow(deprecated)]
pub fn sleep_ms(ms: u32) { sleep(Duration::from_millis(ms as u64)) }
/// Parking may wake spuriously, so it is modelled as yielding.
pub fn park() {
    if controlled() { yield_point("park") } else { std::thread::park() }
}
pub fn park_timeout(d: Duration) {
    if controlled() { yield_point("park") } else { std::thread::park_timeout(d) }
}
pub fn available_parallelism() -> io::Result<std::num::NonZeroUsize> {
    Ok(std::num::NonZeroUsize::new(4).unwrap())
}

// ---- scoped threads ----

#[repr(transparent)]
pub struct Scope<'scope, 'env: 'scope>(std::thread::Scope<'scope, 'env>);

enum ScopedInner<'scope, T> {
    Real(std::thread::ScopedJoinHandle<'scope, T>),
    Task(Spawned<T>, std::thread::Thread),
}
pub struct ScopedJoinHandle<'scope, T>(ScopedInner<'scope, T>);

impl<'scope, T> ScopedJoinHandle<'scope, T> {
    pub fn join(self) -> Result<T> {
        match self.0 {
            ScopedInner::Real(h) => h.join(),
            ScopedInner::Task(s, _) => {
                let done = s.done.clone();
                point("join", Some(&|| done.load(SeqCst)));
                let r = s.result.lock().unwrap().take();
                JOINED.with(|j| j.borrow_mut().push(s.task));
                match r {
                    Some(r) => r,
                    None => Err(Box::new(sched::AbortExec)),
                }
            }
        }
    }
    pub fn thread(&self) -> &std::thread::Thread {
        match self.0 {
            ScopedInner::Real(ref h) => h.thread(),
            ScopedInner::Task(_, ref t) => t,
        }
    }
    pub fn is_finished(&self) -> bool {
        match self.0 {
            ScopedInner::Real(ref h) => h.is_finished(),
            ScopedInner::Task(ref s, _) => { yield_point("is_finished"); s.done.load(SeqCst) }
        }
    }
}

thread_local! {
    static JOINED: std::cell::RefCell<Vec<usize>> = const { std::cell::RefCell::new(Vec::new()) };
    static GROUPS: std::cell::RefCell<Vec<(usize, Vec<(usize, std::sync::Arc<std::sync::atomic::AtomicBool>)>)>> = const { std::cell::RefCell::new(Vec::new()) };
}
static NEXT_GROUP: AtomicUsize = AtomicUsize::new(1);

impl<'scope, 'env> Scope<'scope, 'env> {
    pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
    where F: FnOnce() -> T + Send + 'scope, T: Send + 'scope {
        if controlled() {
            let (body, s) = sched::prepare(f);
            struct S<B>(B);
            unsafe impl<B> Send for S<B> {}
            let body = S(body);
            let h = self.0.spawn(move || { let b = body; (b.0)() });
            GROUPS.with(|g| {
                let mut g = g.borrow_mut();
                if let Some(top) = g.last_mut() { top.1.push((s.task, s.done.clone())); }
            });
            sched::start(s.task);
            let t = h.thread().clone();
            ScopedJoinHandle(ScopedInner::Task(s, t))
        } else {
            let w = sched::world();
            ScopedJoinHandle(ScopedInner::Real(self.0.spawn(move || match w {
                Some(w) => sched::in_world(&w, f),
                None => f(),
            })))
        }
    }
}

/// Controlled scopes wait for all their tasks; an unjoined task that panicked
/// makes the scope panic, as the real one does.
pub fn scope<'env, F, T>(f: F) -> T
where F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T {
    std::thread::scope(|s| {
        let ours: &Scope<'_, 'env> = unsafe { &*(s as *const std::thread::Scope<'_, 'env> as *const Scope<'_, 'env>) };
        if !controlled() {
            return f(ours);
        }
        let id = NEXT_GROUP.fetch_add(1, SeqCst);
        if GROUPS.with(|g| g.borrow().is_empty()) {
            JOINED.with(|j| j.borrow_mut().clear());
        }
        GROUPS.with(|g| g.borrow_mut().push((id, Vec::new())));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(ours)));
        let tasks = GROUPS.with(|g| g.borrow_mut().pop().unwrap().1);
        point("scope end", Some(&|| tasks.iter().all(|t| t.1.load(SeqCst))));
        let unjoined_panic = sched::panicked(&tasks.iter().map(|t| t.0).collect::<Vec<_>>())
            .into_iter().any(|t| JOINED.with(|j| !j.borrow().contains(&t)));
        match r {
            Ok(_) if unjoined_panic => panic!("a scoped thread panicked"),
            Ok(r) => r,
            Err(e) => std::panic::resume_unwind(e),
        }
    })
}
