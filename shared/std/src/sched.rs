//! Runs a few threads one at a time and decides at every shared access which goes on, so that
//! all interleavings up to a number of preemptions can be gone through one after the other.

use ::std::any::Any;
use ::std::cell::RefCell;
use ::std::panic::{AssertUnwindSafe, catch_unwind, resume_unwind};
use ::std::sync::mpsc::{Receiver, Sender, channel};
use ::std::sync::{Arc, Condvar, Mutex};

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    /// until the access at this address is over
    Blocked(usize),
    /// until another thread has done something
    Spin,
    Done,
}

/// who could go on, who did, who was running (if it still could)
#[derive(Clone, Debug)]
struct Decision {
    enabled: Vec<usize>,
    chosen: usize,
    running: Option<usize>,
}

struct Inner {
    current: usize,
    st: Vec<St>,
    prefix: Vec<usize>,
    made: Vec<Decision>,
    steps: u64,
    idle: usize,
    stuck: bool,
}

pub struct Sched {
    inner: Mutex<Inner>,
    wake: Vec<Condvar>,
}

struct Stuck;

thread_local! {
    static ME: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
}

fn me() -> Option<(Arc<Sched>, usize)> {
    ME.try_with(|m| m.try_borrow().ok().and_then(|m| m.clone())).ok().flatten()
}

/// a shared access is about to happen
pub fn point() {
    if let Some((s, i)) = me() {
        s.step(i);
    }
}
/// the running thread cannot go on until `release(at)`; false outside the scheduler
pub fn block(at: usize) -> bool {
    match me() {
        Some((s, i)) => {
            s.leave(i, St::Blocked(at));
            true
        }
        None => false,
    }
}
pub fn release(at: usize) {
    if let Some((s, _)) = me() {
        let mut g = s.inner.lock().unwrap();
        for x in &mut g.st {
            if *x == St::Blocked(at) {
                *x = St::Ready;
            }
        }
    }
}
/// the running thread waits for something another thread does; false outside the scheduler
pub fn wait() -> bool {
    match me() {
        Some((s, i)) => {
            s.leave(i, St::Spin);
            true
        }
        None => false,
    }
}
pub fn watched() -> bool {
    me().is_some()
}

impl Sched {
    fn choose(g: &mut Inner, running: Option<usize>) -> Option<usize> {
        let mut enabled: Vec<usize> = (0..g.st.len()).filter(|i| g.st[*i] == St::Ready).collect();
        if let Some(r) = running {
            enabled.retain(|i| *i != r);
            enabled.insert(0, r);
        }
        if enabled.is_empty() {
            // those that wait for a change may look once more
            g.idle += 1;
            if g.idle > 2 * g.st.len() {
                return None;
            }
            let n = g.st.len();
            let c = g.current;
            enabled.extend((1..=n).map(|d| (c + d) % n).find(|i| g.st[*i] == St::Spin));
        }
        if enabled.len() < 2 {
            return enabled.first().copied();
        }
        let k = g.made.len();
        let chosen = match g.prefix.get(k) {
            Some(c) if enabled.contains(c) => *c,
            _ => enabled[0],
        };
        g.made.push(Decision { enabled, chosen, running });
        Some(chosen)
    }
    fn hand(&self, mut g: ::std::sync::MutexGuard<'_, Inner>, me: usize, to: Option<usize>) {
        match to {
            None => {
                g.stuck = true;
                for w in &self.wake {
                    w.notify_all();
                }
            }
            Some(t) => {
                g.current = t;
                if t != me {
                    self.wake[t].notify_all();
                }
            }
        }
        if g.st[me] == St::Done {
            return;
        }
        while g.current != me && !g.stuck {
            g = self.wake[me].wait(g).unwrap();
        }
        if g.stuck {
            drop(g);
            if !::std::thread::panicking() {
                resume_unwind(Box::new(Stuck));
            }
            return;
        }
        g.st[me] = St::Ready;
    }
    fn step(&self, me: usize) {
        let mut g = self.inner.lock().unwrap();
        if g.stuck {
            drop(g);
            if !::std::thread::panicking() {
                resume_unwind(Box::new(Stuck));
            }
            return;
        }
        g.steps += 1;
        g.idle = 0;
        for (i, x) in g.st.iter_mut().enumerate() {
            if *x == St::Spin && i != me {
                *x = St::Ready;
            }
        }
        let to = Self::choose(&mut g, Some(me));
        self.hand(g, me, to);
    }
    fn leave(&self, me: usize, st: St) {
        let mut g = self.inner.lock().unwrap();
        if g.stuck {
            drop(g);
            if !::std::thread::panicking() {
                resume_unwind(Box::new(Stuck));
            }
            return;
        }
        g.st[me] = st;
        g.steps += 1;
        let to = Self::choose(&mut g, None);
        self.hand(g, me, to);
    }
    fn done(&self, me: usize) {
        let mut g = self.inner.lock().unwrap();
        g.st[me] = St::Done;
        g.idle = 0;
        for x in &mut g.st {
            if *x == St::Spin {
                *x = St::Ready;
            }
        }
        if g.stuck || g.st.iter().all(|s| *s == St::Done) {
            return;
        }
        let to = Self::choose(&mut g, None);
        self.hand(g, me, to);
    }
}

type Job = Box<dyn FnOnce() + Send>;
pub type Answer = Result<String, String>;

/// threads that wait for work
pub struct Pool {
    to: Vec<Sender<(Arc<Sched>, Job)>>,
    back: Receiver<(usize, Result<(), Box<dyn Any + Send>>)>,
}

/// what one interleaving did
pub struct Run {
    pub steps: u64,
    /// how often a thread that could go on had to wait
    pub preempted: usize,
    pub stuck: bool,
    /// message of a panic, for each thread
    pub panics: Vec<Option<String>>,
    made: Vec<Decision>,
}

impl Pool {
    pub fn new(n: usize) -> Pool {
        let (tx, back) = channel();
        let to = (0..n)
            .map(|i| {
                let (t, r): (Sender<(Arc<Sched>, Job)>, _) = channel();
                let tx = tx.clone();
                ::std::thread::spawn(move || {
                    while let Ok((s, job)) = r.recv() {
                        ME.with(|m| *m.borrow_mut() = Some((s.clone(), i)));
                        let r = catch_unwind(AssertUnwindSafe(|| {
                            let mut g = s.inner.lock().unwrap();
                            while g.current != i && !g.stuck {
                                g = s.wake[i].wait(g).unwrap();
                            }
                            let stuck = g.stuck;
                            drop(g);
                            if !stuck {
                                job()
                            }
                        }));
                        ME.with(|m| *m.borrow_mut() = None);
                        s.done(i);
                        if tx.send((i, r)).is_err() {
                            return;
                        }
                    }
                });
                t
            })
            .collect();
        Pool { to, back }
    }
    fn run(&self, jobs: Vec<Job>, prefix: Vec<usize>) -> Run {
        let n = jobs.len();
        let first = prefix.first().copied().unwrap_or(0);
        let made = vec![Decision { enabled: (0..n).collect(), chosen: first, running: None }];
        let s = Arc::new(Sched {
            inner: Mutex::new(Inner { current: first, st: vec![St::Ready; n], prefix, made, steps: 0, idle: 0, stuck: false }),
            wake: (0..n).map(|_| Condvar::new()).collect(),
        });
        for (t, j) in self.to.iter().zip(jobs) {
            t.send((s.clone(), j)).unwrap();
        }
        let mut panics = vec![None; n];
        for _ in 0..n {
            let (i, r) = self.back.recv().unwrap();
            if let Err(e) = r {
                panics[i] = match e.downcast::<Stuck>() {
                    Ok(_) => None,
                    Err(e) => Some(match (e.downcast_ref::<&str>(), e.downcast_ref::<String>()) {
                        (Some(s), _) => s.to_string(),
                        (_, Some(s)) => s.clone(),
                        _ => "panic".into(),
                    }),
                };
            }
        }
        let mut g = s.inner.lock().unwrap();
        let made = ::std::mem::take(&mut g.made);
        let preempted = made.iter().filter(|d| d.running.is_some_and(|r| r != d.chosen)).count();
        Run { steps: g.steps, preempted, stuck: g.stuck, panics, made }
    }
    /// every interleaving with at most `bound` preemptions; `go` makes the jobs afresh, `judge`
    /// looks at what came of each run; false if they had to be cut short
    pub fn explore<E>(&self, bound: usize, mut go: impl FnMut() -> Vec<Job>, mut judge: impl FnMut(&Run, &[usize]) -> Result<(), E>) -> Result<bool, E> {
        let mut prefix: Vec<usize> = vec![];
        // far more than any scene has; only reached if runs cannot be repeated
        for _ in 0..5_000_000 {
            let r = self.run(go(), prefix);
            let path: Vec<usize> = r.made.iter().map(|d| d.chosen).collect();
            judge(&r, &path)?;
            // the last decision that can go another way
            let mut used: Vec<usize> = vec![];
            let mut u = 0;
            for d in &r.made {
                used.push(u);
                if d.running.is_some_and(|x| x != d.chosen) {
                    u += 1;
                }
            }
            let next = (0..r.made.len()).rev().find_map(|k| {
                let d = &r.made[k];
                let at = d.enabled.iter().position(|x| *x == d.chosen)?;
                let n = *d.enabled.get(at + 1)?;
                let cost = d.running.is_some() as usize;
                (used[k] + cost <= bound).then_some((k, n))
            });
            match next {
                Some((k, n)) => {
                    prefix = path[..k].to_vec();
                    prefix.push(n);
                }
                None => return Ok(true),
            }
        }
        Ok(false)
    }
}
