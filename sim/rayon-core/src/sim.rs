
//! Deterministic scheduling of rayon worker threads (not part of upstream rayon-core).
//!
//! Worker threads of a pool created while a simulation is active on the creating thread are
//! real OS threads, but only the one holding the baton ever runs.  Every place where rayon
//! would spin, sleep, wake or choose a victim hands the choice to a [`Sim`], which decides it
//! from a seeded generator (or from a recorded schedule).  Everything else - deques, jobs,
//! latches, splitting - is the unmodified rayon code.

use std::cell::{Cell, RefCell};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Status {
    Runnable,
    /// Found no work or waits for a latch; runnable again after a notification.
    Idle,
    Exited,
}

/// Kinds of yield points (part of the event log).
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Push = 1,
    Found = 2,
    Idle = 3,
    Clock = 4,
    Futex = 5,
    Exit = 6,
    User = 7,
    Start = 8,
    Latch = 9,
}

/// How the next thread is chosen.
#[derive(Clone, Debug)]
pub struct Policy {
    /// Seed of the generator; 0 together with `replay` makes every choice the default one.
    pub seed: u64,
    /// Probability (in 1/256) to consider a switch at a yield point of the running thread.
    pub switch: [u32; 10],
    /// Use random fixed priorities with this many change points, instead of uniform choice.
    pub priorities: Option<u32>,
    /// If set: choices are the default (stay, else the lowest runnable id), except for these.
    pub replay: Option<Vec<(u64, u64)>>,
    /// Give up (livelock) after this many decisions.
    pub max_decisions: u64,
}

#[derive(Clone, Debug, Default)]
pub struct Report {
    pub decisions: u64,
    pub switches: u64,
    pub steals: u64,
    pub threads: u64,
    pub hash: u64,
    pub leaked: u64,
    /// Every choice that differed from the default choice: (decision number, choice).
    pub trace: Vec<(u64, u64)>,
    pub by_kind: [u64; 10],
}

struct St {
    rng: u64,
    policy: Policy,
    replay_pos: usize,
    status: Vec<Status>,
    prio: Vec<u64>,
    current: usize,
    rep: Report,
    dead: Option<&'static str>,
}

pub struct Sim {
    st: Mutex<St>,
    cvs: Mutex<Vec<Arc<Condvar>>>,
    on_dead: Box<dyn Fn(&'static str, &Report) + Send + Sync>,
}

thread_local! {
    static CUR: RefCell<Option<(Arc<Sim>, usize)>> = const { RefCell::new(None) };
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    /// Set while the simulator itself runs on this thread: the seams pass everything through.
    static INSIDE: Cell<u32> = const { Cell::new(0) };
}

pub fn enter_sim_code() {
    INSIDE.with(|c| c.set(c.get() + 1));
}
pub fn leave_sim_code() {
    INSIDE.with(|c| c.set(c.get() - 1));
}
pub fn inside() -> bool {
    INSIDE.try_with(|c| c.get() > 0).unwrap_or(true)
}

struct In;
impl In {
    fn new() -> In {
        enter_sim_code();
        In
    }
}
impl Drop for In {
    fn drop(&mut self) {
        leave_sim_code();
    }
}

/// True if this thread is scheduled by a simulation.
#[inline]
pub fn active() -> bool {
    ACTIVE.try_with(|a| a.get()).unwrap_or(false)
}

fn cur() -> Option<(Arc<Sim>, usize)> {
    CUR.try_with(|c| c.borrow().clone()).ok().flatten()
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

impl St {
    fn note(&mut self, x: u64) {
        self.rep.hash = (self.rep.hash ^ x).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(5);
    }

    /// Draws a choice in 0..n; `default` is what an undisturbed system would do.
    fn choose(&mut self, n: u64, default: u64, draw: impl FnOnce(&mut St) -> u64) -> u64 {
        let k = self.rep.decisions;
        self.rep.decisions += 1;
        let c = if let Some(r) = &self.policy.replay {
            while self.replay_pos < r.len() && r[self.replay_pos].0 < k {
                self.replay_pos += 1;
            }
            if self.replay_pos < r.len() && r[self.replay_pos].0 == k && r[self.replay_pos].1 < n {
                r[self.replay_pos].1
            } else {
                default
            }
        } else {
            draw(self)
        };
        if c != default {
            self.rep.trace.push((k, c));
        }
        c
    }

    fn next_thread(&mut self, kind: Kind) -> Option<usize> {
        self.rep.by_kind[kind as usize] += 1;
        let me = self.current;
        let run: Vec<usize> = (0..self.status.len()).filter(|&i| self.status[i] == Status::Runnable).collect();
        if run.is_empty() {
            return None;
        }
        let me_ok = self.status[me] == Status::Runnable;
        let default = if me_ok { me } else { run[0] };
        let n = self.status.len() as u64;
        let c = self.choose(n, default as u64, |s| {
            if run.len() == 1 {
                return run[0] as u64;
            }
            if me_ok && (splitmix(&mut s.rng) & 0xff) as u32 >= s.policy.switch[kind as usize] {
                return me as u64;
            }
            if let Some(d) = s.policy.priorities {
                // Occasionally give the running thread the lowest priority.
                if me_ok && splitmix(&mut s.rng) % 64 < d as u64 {
                    let low = s.prio.iter().min().copied().unwrap_or(0);
                    s.prio[me] = low.wrapping_sub(1);
                }
                *run.iter().max_by_key(|&&i| (s.prio[i], i)).unwrap() as u64
            } else {
                run[(splitmix(&mut s.rng) % run.len() as u64) as usize] as u64
            }
        }) as usize;
        // A replayed choice may name a thread that is not runnable (edited schedule).
        let c = if self.status[c] == Status::Runnable { c } else { default };
        self.note((kind as u64) << 32 | (me as u64) << 16 | c as u64);
        if c != me {
            self.rep.switches += 1;
        }
        Some(c)
    }
}

impl Sim {
    pub fn new(policy: Policy, on_dead: Box<dyn Fn(&'static str, &Report) + Send + Sync>) -> Arc<Sim> {
        let _in = In::new();
        Arc::new(Sim {
            st: Mutex::new(St {
                rng: policy.seed ^ 0x5851_f42d_4c95_7f2d,
                policy,
                replay_pos: 0,
                status: Vec::new(),
                prio: Vec::new(),
                current: 0,
                rep: Report::default(),
                dead: None,
            }),
            cvs: Mutex::new(Vec::new()),
            on_dead,
        })
    }

    fn lock(&self) -> MutexGuard<'_, St> {
        self.st.lock().unwrap_or_else(|e| e.into_inner())
    }

    fn add(&self, st: &mut St) -> usize {
        let id = st.status.len();
        st.status.push(Status::Runnable);
        let p = splitmix(&mut st.rng) >> 1 | 1 << 62;
        st.prio.push(p);
        st.rep.threads = st.status.len() as u64;
        self.cvs.lock().unwrap_or_else(|e| e.into_inner()).push(Arc::new(Condvar::new()));
        id
    }

    fn cv(&self, id: usize) -> Arc<Condvar> {
        Arc::clone(&self.cvs.lock().unwrap_or_else(|e| e.into_inner())[id])
    }

    /// Makes the calling thread the first thread of this simulation and runs `f` in it.  All
    /// pools created inside must be dropped inside.
    pub fn run<R>(self: &Arc<Sim>, f: impl FnOnce() -> R) -> (std::thread::Result<R>, Report) {
        enter_sim_code();
        {
            let mut st = self.lock();
            let id = self.add(&mut st);
            assert_eq!(id, 0);
            st.current = 0;
        }
        CUR.with(|c| *c.borrow_mut() = Some((Arc::clone(self), 0)));
        ACTIVE.with(|a| a.set(true));
        leave_sim_code();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        enter_sim_code();
        // Let the workers of dropped pools finish.
        let leaked = loop {
            let left = {
                let mut st = self.lock();
                st.status[0] = Status::Idle;
                let left = st.status.iter().filter(|s| **s != Status::Exited).count() - 1;
                let any = st.status.iter().any(|s| *s == Status::Runnable);
                st.status[0] = Status::Runnable;
                if left == 0 || !any {
                    break left;
                }
                left
            };
            let _ = left;
            let mut st = self.lock();
            st.status[0] = Status::Idle;
            let next = st.next_thread(Kind::Exit);
            st.status[0] = Status::Runnable;
            match next {
                Some(n) => self.switch_to(st, 0, n),
                None => break 0,
            }
        };
        ACTIVE.with(|a| a.set(false));
        CUR.with(|c| *c.borrow_mut() = None);
        let mut rep = self.lock().rep.clone();
        rep.leaked = leaked as u64;
        leave_sim_code();
        (r, rep)
    }

    /// Hands the baton to `next` and waits until it comes back to `me`.
    fn switch_to(&self, mut st: MutexGuard<'_, St>, me: usize, next: usize) {
        if next == me {
            return;
        }
        st.current = next;
        self.cv(next).notify_one();
        let cv = self.cv(me);
        while st.current != me {
            st = cv.wait(st).unwrap_or_else(|e| e.into_inner());
        }
    }

    fn die(&self, mut st: MutexGuard<'_, St>, why: &'static str) -> ! {
        st.dead = Some(why);
        let rep = st.rep.clone();
        drop(st);
        (self.on_dead)(why, &rep);
        std::process::abort();
    }

    fn point(&self, me: usize, kind: Kind, idle: bool) {
        let mut st = self.lock();
        if idle {
            st.status[me] = Status::Idle;
        }
        if st.rep.decisions > st.policy.max_decisions {
            self.die(st, "livelock");
        }
        match st.next_thread(kind) {
            None => self.die(st, "deadlock"),
            Some(n) => self.switch_to(st, me, n),
        }
    }
}

/// A point where the running thread may lose the baton.
pub fn yield_point(kind: Kind) {
    if !active() || inside() {
        return;
    }
    let _in = In::new();
    if let Some((sim, me)) = cur() {
        sim.point(me, kind, false);
    }
}

/// The running thread can do nothing until something changes.
pub fn idle(kind: Kind) {
    if !active() {
        return;
    }
    let _in = In::new();
    if let Some((sim, me)) = cur() {
        sim.point(me, kind, true);
    }
}

/// Something changed that an idle thread may be waiting for.
#[inline]
pub fn notify() {
    if !active() {
        return;
    }
    let _in = In::new();
    if let Some((sim, _)) = cur() {
        let mut st = sim.lock();
        for s in st.status.iter_mut() {
            if *s == Status::Idle {
                *s = Status::Runnable;
            }
        }
    }
}

/// Which worker to look at first when stealing.
pub fn steal_start(n: usize) -> Option<usize> {
    if !active() {
        return None;
    }
    let _in = In::new();
    let (sim, _) = cur()?;
    let mut st = sim.lock();
    let c = st.choose(n as u64, 0, |s| splitmix(&mut s.rng) % n as u64);
    st.note(0x5000 | c);
    Some(c as usize)
}

pub fn stole() {
    if !active() {
        return;
    }
    let _in = In::new();
    if let Some((sim, me)) = cur() {
        let mut st = sim.lock();
        st.rep.steals += 1;
        st.note(0x6000 | me as u64);
    }
}

/// Adds a value to the event log hash.
pub fn note(x: u64) {
    if !active() {
        return;
    }
    let _in = In::new();
    if let Some((sim, _)) = cur() {
        sim.lock().note(x);
    }
}

/// The simulated thread id of the calling thread (0 if none).
pub fn thread_id() -> usize {
    if !active() {
        return 0;
    }
    let _in = In::new();
    cur().map(|c| c.1).unwrap_or(0)
}

/// Reserved slot for a thread about to be spawned.
pub struct Slot(Arc<Sim>, usize);

pub fn prepare() -> Option<Slot> {
    if !active() {
        return None;
    }
    let _in = In::new();
    let (sim, _) = cur()?;
    let id = {
        let mut st = sim.lock();
        sim.add(&mut st)
    };
    Some(Slot(sim, id))
}

impl Slot {
    /// First thing on the new thread: wait for the baton.
    pub fn enter(self) -> Entered {
        enter_sim_code();
        let Slot(sim, me) = self;
        CUR.with(|c| *c.borrow_mut() = Some((Arc::clone(&sim), me)));
        ACTIVE.with(|a| a.set(true));
        {
            let mut st = sim.lock();
            let cv = sim.cv(me);
            while st.current != me {
                st = cv.wait(st).unwrap_or_else(|e| e.into_inner());
            }
        }
        leave_sim_code();
        Entered(sim, me)
    }
}

pub struct Entered(Arc<Sim>, usize);

impl Drop for Entered {
    fn drop(&mut self) {
        enter_sim_code();
        let sim = &self.0;
        let me = self.1;
        ACTIVE.with(|a| a.set(false));
        CUR.with(|c| *c.borrow_mut() = None);
        let mut st = sim.lock();
        st.status[me] = Status::Exited;
        for s in st.status.iter_mut() {
            if *s == Status::Idle {
                *s = Status::Runnable;
            }
        }
        match st.next_thread(Kind::Exit) {
            Some(n) => {
                st.current = n;
                sim.cv(n).notify_one();
            }
            None => sim.die(st, "deadlock"),
        }
        // Stays marked as inside: nothing on this thread is simulated any more.
    }
}
