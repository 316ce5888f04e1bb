//! Stand-in for `std` used when the crates under test are compiled for model checking.
//!
//! It re-exports the whole of `std` and replaces `std::sync::{Mutex, RwLock, Condvar}` and the
//! atomics by versions which, inside of a model checking execution, hand every operation to a
//! scheduler which decides which thread goes next. Three modes per OS thread:
//!   * pass through (default): behaves as std,
//!   * solo: single threaded exploration, a lock which is not free is a self deadlock (panics),
//!   * managed: the thread is one of the threads of an execution, every lock, atomic and condition
//!     variable operation is a scheduling point.
#![allow(clippy::all)]
pub use ::std::*;

pub mod mc {
    use ::std::cell::RefCell;
    use ::std::collections::{BTreeMap, BTreeSet, HashMap};
    use ::std::panic::{catch_unwind, AssertUnwindSafe};
    use ::std::sync::{Arc, Condvar, Mutex};
    use ::std::time::Duration;

    #[derive(Clone)]
    pub enum Mode {
        Pass,
        Solo,
        Managed(Arc<Sched>, usize),
    }

    thread_local! {
        static MODE: RefCell<Mode> = const { RefCell::new(Mode::Pass) };
    }

    pub fn mode() -> Mode {
        MODE.try_with(|m| m.borrow().clone()).unwrap_or(Mode::Pass)
    }
    fn set_mode(m: Mode) {
        MODE.with(|x| *x.borrow_mut() = m)
    }
    pub fn is_active() -> bool {
        MODE.try_with(|m| !matches!(*m.borrow(), Mode::Pass)).unwrap_or(false)
    }

    struct Restore(Mode);
    impl Drop for Restore {
        fn drop(&mut self) {
            set_mode(self.0.clone())
        }
    }
    /// runs f single threaded: any lock which is not free is reported as a self deadlock
    pub fn solo<R>(f: impl FnOnce() -> R) -> R {
        let _r = Restore(mode());
        set_mode(Mode::Solo);
        f()
    }

    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum Acc {
        Shared,
        Exclusive,
    }

    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum Op {
        Start,
        /// plain step, always possible (atomics, try operations, notifications)
        Step(usize),
        /// the thread gives way to the others
        Yield,
        /// lock address, access, true if waiting writers block new readers
        Acquire(usize, Acc, bool),
        /// condvar address, mutex address, with time out
        Wait(usize, usize, bool),
    }

    #[derive(Default, Clone, Copy)]
    struct LockState {
        writer: bool,
        readers: u32,
    }

    #[derive(Clone)]
    struct ThreadState {
        pending: Op,
        finished: bool,
        /// a writer which has tried to take a lock which was read locked
        waiting_writer: bool,
        timed_out: bool,
        /// time limit of a wait
        limit: Duration,
    }

    #[derive(Clone, Debug)]
    pub struct Point {
        /// possible choices, the default one first
        pub options: Vec<u8>,
        pub chosen: u8,
        /// cost of each option: (preemptions, faults)
        pub costs: Vec<(u8, u8)>,
    }

    // encoding of a choice: kind in the upper 4 bits, thread in the lower
    const RUN: u8 = 0;
    const TIMEOUT: u8 = 1;
    const SPURIOUS: u8 = 2;
    const WAKE: u8 = 3;
    fn enc(kind: u8, tid: usize) -> u8 {
        kind << 4 | tid as u8
    }

    pub struct State {
        current: Option<usize>,
        threads: Vec<ThreadState>,
        locks: HashMap<usize, LockState>,
        prefix: Vec<u8>,
        pub points: Vec<Point>,
        pub steps: u64,
        pub deadlock: Option<String>,
        pub diverged: bool,
        pub forced_timeouts: u32,
        pub timeouts: u32,
        /// virtual time, passes when a wait times out
        now: Duration,
        done: bool,
        panics: Vec<(usize, String)>,
        log: Option<Vec<String>>,
        names: BTreeMap<usize, usize>,
        max_steps: u64,
        /// kinds of locks which were tried without waiting
        tried: BTreeSet<&'static str>,
        /// ... for which holding the lock is a step of its own
        windows: Vec<String>,
    }

    /// A lock which is only ever waited for can be taken and used in one step. If some thread tries to
    /// take locks of a kind (type of the content) without waiting, the time in which such a lock is
    /// held can be observed: then there is a scheduling point after it was taken
    static WINDOWS: Mutex<Vec<String>> = Mutex::new(vec![]);
    pub fn set_windows(kinds: Vec<String>) {
        *WINDOWS.lock().unwrap() = kinds;
    }
    pub fn windows() -> Vec<String> {
        WINDOWS.lock().unwrap().clone()
    }

    pub struct Sched {
        st: Mutex<State>,
        wake: Vec<Condvar>,
        done: Condvar,
    }

    #[derive(Debug, Clone, Default)]
    pub struct Outcome {
        pub points: Vec<Point>,
        pub steps: u64,
        pub deadlock: Option<String>,
        pub diverged: bool,
        pub forced_timeouts: u32,
        pub timeouts: u32,
        pub now: Duration,
        pub panics: Vec<(usize, String)>,
        pub log: Vec<String>,
        /// kinds of locks which were tried without waiting
        pub tried: BTreeSet<&'static str>,
    }

    impl State {
        fn enabled(&self, t: usize) -> bool {
            let th = &self.threads[t];
            if th.finished {
                return false;
            }
            match th.pending {
                Op::Start | Op::Step(_) | Op::Yield => true,
                Op::Wait(..) => false,
                Op::Acquire(a, acc, pref) => {
                    let l = self.locks.get(&a).copied().unwrap_or_default();
                    match acc {
                        Acc::Exclusive => {
                            // a writer can start to wait, which blocks new readers
                            (!l.writer && l.readers == 0)
                                || (pref && !l.writer && l.readers > 0 && !th.waiting_writer)
                        }
                        Acc::Shared => {
                            !l.writer
                                && !(pref
                                    && l.readers > 0
                                    && self.threads.iter().any(|o| {
                                        o.waiting_writer
                                            && matches!(o.pending, Op::Acquire(b, Acc::Exclusive, _) if b == a)
                                    }))
                        }
                    }
                }
            }
        }

        fn name(&mut self, addr: usize) -> usize {
            let n = self.names.len();
            *self.names.entry(addr).or_insert(n)
        }

        fn describe(&mut self, op: Op) -> String {
            match op {
                Op::Start => "start".into(),
                Op::Yield => "yield".into(),
                Op::Step(a) => format!("access #{}", self.name(a)),
                Op::Acquire(a, acc, _) => format!("{:?} lock #{}", acc, self.name(a)),
                Op::Wait(c, m, _) => format!("wait on condvar #{} mutex #{}", self.name(c), self.name(m)),
            }
        }

        /// takes a decision, the first option is the default
        fn choose(&mut self, options: Vec<u8>, costs: Vec<(u8, u8)>) -> u8 {
            if options.len() == 1 {
                return options[0];
            }
            let pos = self.points.len();
            let mut chosen = options[0];
            if let Some(c) = self.prefix.get(pos) {
                if options.contains(c) {
                    chosen = *c;
                } else {
                    self.diverged = true;
                }
            }
            self.points.push(Point { options, chosen, costs });
            chosen
        }

        /// picks the next thread and executes its pending operation
        fn pick(&mut self, me: Option<usize>) -> Option<usize> {
            loop {
                self.steps += 1;
                if self.steps > self.max_steps {
                    self.deadlock = Some("execution does not terminate (too many steps)".into());
                    return None;
                }
                let n = self.threads.len();
                let mut options = vec![];
                let mut costs = vec![];
                let me_enabled = me.map_or(false, |m| self.enabled(m));
                if me_enabled {
                    options.push(enc(RUN, me.unwrap()));
                    costs.push((0, 0));
                }
                let yields = me_enabled && matches!(self.threads[me.unwrap()].pending, Op::Yield);
                if yields {
                    // everybody gets a turn, also if several threads are polling
                    options.clear();
                    costs.clear();
                    let m = me.unwrap();
                    for t in (m + 1..n).chain(0..=m) {
                        if self.enabled(t) {
                            costs.push((if options.is_empty() { 0 } else { 1 }, 0));
                            options.push(enc(RUN, t));
                        }
                    }
                }
                for t in 0..n {
                    if !yields && Some(t) != me && self.enabled(t) {
                        options.push(enc(RUN, t));
                        costs.push((if me_enabled { 1 } else { 0 }, 0));
                    }
                }
                let progress = !options.is_empty();
                for t in 0..n {
                    if let Op::Wait(_, _, timed) = self.threads[t].pending {
                        if !self.threads[t].finished {
                            if timed {
                                options.push(enc(TIMEOUT, t));
                                costs.push((0, if progress { 1 } else { 0 }));
                            }
                            if progress {
                                options.push(enc(SPURIOUS, t));
                                costs.push((0, 1));
                            }
                        }
                    }
                }
                if options.is_empty() {
                    if self.threads.iter().all(|t| t.finished) {
                        self.done = true;
                        return None;
                    }
                    let mut s = String::from("deadlock:");
                    for t in 0..n {
                        if !self.threads[t].finished {
                            let d = self.threads[t].pending;
                            let d = self.describe(d);
                            s.push_str(&format!(" thread {t} blocked at {d};"));
                        }
                    }
                    self.deadlock = Some(s);
                    return None;
                }
                let c = self.choose(options, costs);
                let (kind, t) = (c >> 4, (c & 15) as usize);
                let op = self.threads[t].pending;
                if self.log.is_some() {
                    let d = self.describe(op);
                    let what = match kind {
                        TIMEOUT => "time out",
                        SPURIOUS => "spurious wake up",
                        _ => "",
                    };
                    let line = format!("thread {t}: {d} {what}");
                    self.log.as_mut().unwrap().push(line);
                }
                match (kind, op) {
                    (TIMEOUT, Op::Wait(_, m, _)) => {
                        if !progress {
                            self.forced_timeouts += 1;
                        }
                        self.timeouts += 1;
                        self.now += self.threads[t].limit;
                        self.threads[t].timed_out = true;
                        self.threads[t].pending = Op::Acquire(m, Acc::Exclusive, false);
                    }
                    (SPURIOUS, Op::Wait(_, m, _)) => {
                        self.threads[t].pending = Op::Acquire(m, Acc::Exclusive, false);
                    }
                    (_, Op::Acquire(a, acc, _)) => {
                        let l = self.locks.entry(a).or_default();
                        if acc == Acc::Exclusive {
                            if l.readers > 0 {
                                // only start to wait
                                self.threads[t].waiting_writer = true;
                                continue;
                            }
                            l.writer = true;
                            self.threads[t].waiting_writer = false;
                        } else {
                            l.readers += 1;
                        }
                        return Some(t);
                    }
                    _ => return Some(t),
                }
            }
        }

        fn release(&mut self, a: usize, acc: Acc) {
            let mut free = false;
            if let Some(l) = self.locks.get_mut(&a) {
                match acc {
                    Acc::Exclusive => l.writer = false,
                    Acc::Shared => l.readers = l.readers.saturating_sub(1),
                }
                free = !l.writer && l.readers == 0;
            }
            if free {
                self.locks.remove(&a);
                // waiting writers are woken up, new readers may be faster
                for t in self.threads.iter_mut() {
                    if matches!(t.pending, Op::Acquire(b, Acc::Exclusive, _) if b == a) {
                        t.waiting_writer = false;
                    }
                }
            }
        }
    }

    impl Sched {
        fn switch(&self, mut st: ::std::sync::MutexGuard<'_, State>, me: usize) {
            let next = st.pick(Some(me));
            if next == Some(me) {
                st.current = Some(me);
                return;
            }
            st.current = next;
            match next {
                Some(n) => self.wake[n].notify_one(),
                None => self.done.notify_one(),
            }
            while st.current != Some(me) {
                st = self.wake[me].wait(st).unwrap();
            }
        }

        fn yield_op(&self, me: usize, op: Op) {
            let mut st = self.st.lock().unwrap();
            st.threads[me].pending = op;
            self.switch(st, me);
        }
    }

    /// virtual time of the execution, if the calling thread is managed
    pub fn virtual_now() -> Option<Duration> {
        match mode() {
            Mode::Managed(s, _) => Some(s.st.lock().unwrap().now),
            _ => None,
        }
    }

    fn panicking() -> bool {
        ::std::thread::panicking()
    }

    /// scheduling point which is always possible
    pub fn step(addr: usize) {
        if let Mode::Managed(s, me) = mode() {
            if !panicking() {
                s.yield_op(me, Op::Step(addr));
            }
        }
    }

    /// gives way to the other threads for a (virtual) time, false if not managed
    pub fn give_way(time: Duration) -> bool {
        match mode() {
            Mode::Managed(s, me) => {
                if !panicking() {
                    s.st.lock().unwrap().now += time;
                    s.yield_op(me, Op::Yield);
                }
                true
            }
            _ => false,
        }
    }

    /// true if the lock is granted by the scheduler, false if not managed
    pub fn acquire(addr: usize, acc: Acc, writers_first: bool, kind: &'static str) -> bool {
        match mode() {
            Mode::Managed(s, me) => {
                if panicking() {
                    // no scheduling while unwinding, locks of this thread are just recorded
                    let mut st = s.st.lock().unwrap();
                    let l = st.locks.entry(addr).or_default();
                    match acc {
                        Acc::Exclusive => l.writer = true,
                        Acc::Shared => l.readers += 1,
                    }
                } else {
                    s.yield_op(me, Op::Acquire(addr, acc, writers_first));
                    let window = s.st.lock().unwrap().windows.iter().any(|k| k == kind);
                    if window {
                        s.yield_op(me, Op::Step(addr));
                    }
                }
                true
            }
            _ => false,
        }
    }

    /// None if not managed
    pub fn try_acquire(addr: usize, acc: Acc, kind: &'static str) -> Option<bool> {
        match mode() {
            Mode::Managed(s, me) => {
                if !panicking() {
                    s.yield_op(me, Op::Step(addr));
                }
                let mut st = s.st.lock().unwrap();
                let waiting = st.threads.iter().any(|o| {
                    o.waiting_writer && matches!(o.pending, Op::Acquire(b, Acc::Exclusive, _) if b == addr)
                });
                let l = st.locks.entry(addr).or_default();
                let ok = match acc {
                    Acc::Exclusive => !l.writer && l.readers == 0,
                    Acc::Shared => !l.writer && !(waiting && l.readers > 0),
                };
                if ok {
                    match acc {
                        Acc::Exclusive => l.writer = true,
                        Acc::Shared => l.readers += 1,
                    }
                }
                st.tried.insert(kind);
                let window = ok && !panicking() && st.windows.iter().any(|k| k == kind);
                drop(st);
                if window {
                    s.yield_op(me, Op::Step(addr));
                }
                Some(ok)
            }
            _ => None,
        }
    }

    pub fn release(addr: usize, acc: Acc) {
        if let Mode::Managed(s, _) = mode() {
            s.st.lock().unwrap().release(addr, acc);
        }
    }

    pub fn downgrade(addr: usize) {
        if let Mode::Managed(s, _) = mode() {
            let mut st = s.st.lock().unwrap();
            let l = st.locks.entry(addr).or_default();
            l.writer = false;
            l.readers += 1;
        }
    }

    /// waits on a condvar, the mutex is already released for real; returns true if timed out
    pub fn wait(cv: usize, mutex: usize, limit: Option<Duration>) -> Option<bool> {
        match mode() {
            Mode::Managed(s, me) => {
                let mut st = s.st.lock().unwrap();
                st.release(mutex, Acc::Exclusive);
                st.threads[me].timed_out = false;
                st.threads[me].limit = limit.unwrap_or(Duration::ZERO);
                st.threads[me].pending = Op::Wait(cv, mutex, limit.is_some());
                s.switch(st, me);
                let st = s.st.lock().unwrap();
                Some(st.threads[me].timed_out)
            }
            _ => None,
        }
    }

    /// true if handled by the scheduler
    pub fn notify(cv: usize, all: bool) -> bool {
        match mode() {
            Mode::Managed(s, me) => {
                if !panicking() {
                    s.yield_op(me, Op::Step(cv));
                }
                let mut st = s.st.lock().unwrap();
                let waiters: Vec<usize> = (0..st.threads.len())
                    .filter(|t| matches!(st.threads[*t].pending, Op::Wait(c, _, _) if c == cv))
                    .collect();
                let woken = if all || waiters.len() <= 1 {
                    waiters
                } else {
                    let options = waiters.iter().map(|t| enc(WAKE, *t)).collect::<Vec<_>>();
                    let costs = vec![(0, 0); options.len()];
                    let c = st.choose(options, costs);
                    vec![(c & 15) as usize]
                };
                for t in woken {
                    if let Op::Wait(_, m, _) = st.threads[t].pending {
                        st.threads[t].pending = Op::Acquire(m, Acc::Exclusive, false);
                    }
                }
                true
            }
            _ => false,
        }
    }

    /// index of the managed thread
    pub fn thread_index() -> Option<usize> {
        match mode() {
            Mode::Managed(_, t) => Some(t),
            _ => None,
        }
    }

    /// number of scheduling steps so far: a logical clock
    pub fn now() -> u64 {
        match mode() {
            Mode::Managed(s, _) => s.st.lock().unwrap().steps,
            _ => 0,
        }
    }

    pub fn panic_message(e: &(dyn ::std::any::Any + Send)) -> String {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        }
    }

    /// executes the threads under the schedule given by prefix, then with default choices.
    /// If the execution deadlocks its threads are leaked.
    pub fn execute(
        bodies: Vec<Box<dyn FnOnce() + Send>>,
        prefix: Vec<u8>,
        log: bool,
        max_steps: u64,
        watchdog: Duration,
    ) -> Outcome {
        let n = bodies.len();
        let sched = Arc::new(Sched {
            st: Mutex::new(State {
                current: None,
                threads: vec![
                    ThreadState {
                        pending: Op::Start,
                        finished: false,
                        waiting_writer: false,
                        timed_out: false,
                        limit: Duration::ZERO,
                    };
                    n
                ],
                locks: HashMap::new(),
                prefix,
                points: vec![],
                steps: 0,
                deadlock: None,
                diverged: false,
                forced_timeouts: 0,
                timeouts: 0,
                now: Duration::ZERO,
                done: false,
                panics: vec![],
                log: if log { Some(vec![]) } else { None },
                names: BTreeMap::new(),
                max_steps,
                tried: BTreeSet::new(),
                windows: windows(),
            }),
            wake: (0..n).map(|_| Condvar::new()).collect(),
            done: Condvar::new(),
        });
        let mut handles = vec![];
        for (t, body) in bodies.into_iter().enumerate() {
            let s = sched.clone();
            handles.push(
                ::std::thread::Builder::new()
                    .stack_size(1 << 20)
                    .spawn(move || {
                        {
                            let mut st = s.st.lock().unwrap();
                            while st.current != Some(t) {
                                st = s.wake[t].wait(st).unwrap();
                            }
                        }
                        set_mode(Mode::Managed(s.clone(), t));
                        let r = catch_unwind(AssertUnwindSafe(body));
                        set_mode(Mode::Pass);
                        let mut st = s.st.lock().unwrap();
                        if let Err(e) = r {
                            let m = panic_message(&*e);
                            st.panics.push((t, m));
                        }
                        st.threads[t].finished = true;
                        let next = st.pick(None);
                        st.current = next;
                        match next {
                            Some(n) => s.wake[n].notify_one(),
                            None => s.done.notify_one(),
                        }
                    })
                    .unwrap(),
            );
        }
        let mut st = sched.st.lock().unwrap();
        let next = st.pick(None);
        st.current = next;
        if let Some(n) = next {
            sched.wake[n].notify_one();
        }
        let mut last = 0;
        let mut hung = false;
        while !st.done && st.deadlock.is_none() {
            let (g, r) = sched.done.wait_timeout(st, watchdog).unwrap();
            st = g;
            if r.timed_out() && !st.done && st.deadlock.is_none() {
                if st.steps == last {
                    hung = true;
                    break;
                }
                last = st.steps;
            }
        }
        if hung {
            st.deadlock = Some(format!(
                "thread {:?} makes no progress and never reaches a scheduling point",
                st.current
            ));
        }
        let out = Outcome {
            points: st.points.clone(),
            steps: st.steps,
            deadlock: st.deadlock.clone(),
            diverged: st.diverged,
            forced_timeouts: st.forced_timeouts,
            timeouts: st.timeouts,
            now: st.now,
            panics: st.panics.clone(),
            log: st.log.clone().unwrap_or_default(),
            tried: st.tried.clone(),
        };
        let ok = st.deadlock.is_none();
        drop(st);
        if ok {
            for h in handles {
                let _ = h.join();
            }
        }
        out
    }
}

/// time passes only when a wait times out
pub mod thread {
    pub use ::std::thread::*;
    use ::std::time::Duration;

    pub fn sleep(d: Duration) {
        if !super::mc::give_way(d) {
            ::std::thread::sleep(d)
        }
    }
    pub fn yield_now() {
        if !super::mc::give_way(Duration::ZERO) {
            ::std::thread::yield_now()
        }
    }
}

pub mod hint {
    pub use ::std::hint::*;

    pub fn spin_loop() {
        if !super::mc::give_way(::std::time::Duration::ZERO) {
            ::std::hint::spin_loop()
        }
    }
}

pub mod time {
    pub use ::std::time::*;
    use ::std::ops::{Add, AddAssign, Sub, SubAssign};
    use ::std::sync::OnceLock;
    use ::std::time::Instant as Real;

    #[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
    pub struct Instant(Real);

    fn start() -> Real {
        static START: OnceLock<Real> = OnceLock::new();
        *START.get_or_init(Real::now)
    }
    impl Instant {
        pub fn now() -> Instant {
            match crate::mc::virtual_now() {
                Some(d) => Instant(start() + d),
                None => Instant(Real::now()),
            }
        }
        pub fn elapsed(&self) -> Duration {
            Instant::now().0.saturating_duration_since(self.0)
        }
        pub fn duration_since(&self, earlier: Instant) -> Duration {
            self.0.duration_since(earlier.0)
        }
        pub fn saturating_duration_since(&self, earlier: Instant) -> Duration {
            self.0.saturating_duration_since(earlier.0)
        }
        pub fn checked_duration_since(&self, earlier: Instant) -> Option<Duration> {
            self.0.checked_duration_since(earlier.0)
        }
        pub fn checked_add(&self, d: Duration) -> Option<Instant> {
            self.0.checked_add(d).map(Instant)
        }
        pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
            self.0.checked_sub(d).map(Instant)
        }
    }
    impl Add<Duration> for Instant {
        type Output = Instant;
        fn add(self, d: Duration) -> Instant {
            Instant(self.0 + d)
        }
    }
    impl Sub<Duration> for Instant {
        type Output = Instant;
        fn sub(self, d: Duration) -> Instant {
            Instant(self.0 - d)
        }
    }
    impl Sub<Instant> for Instant {
        type Output = Duration;
        fn sub(self, o: Instant) -> Duration {
            self.0.saturating_duration_since(o.0)
        }
    }
    impl AddAssign<Duration> for Instant {
        fn add_assign(&mut self, d: Duration) {
            self.0 += d
        }
    }
    impl SubAssign<Duration> for Instant {
        fn sub_assign(&mut self, d: Duration) {
            self.0 -= d
        }
    }
}

pub mod sync {
    pub use ::std::sync::*;

    use crate::mc::{self, Acc, Mode};
    use ::std::fmt;
    use ::std::ops::{Deref, DerefMut};
    use ::std::sync as real;
    use ::std::time::Duration;

    fn self_deadlock(what: &str) -> ! {
        panic!("self deadlock: {what} is already locked by the same thread")
    }

    // ---------------------------------------------------------------- Mutex
    #[derive(Default)]
    pub struct Mutex<T: ?Sized> {
        inner: real::Mutex<T>,
    }
    pub struct MutexGuard<'a, T: ?Sized> {
        lock: &'a Mutex<T>,
        inner: Option<real::MutexGuard<'a, T>>,
    }
    impl<T> Mutex<T> {
        pub const fn new(t: T) -> Self {
            Mutex { inner: real::Mutex::new(t) }
        }
        pub fn into_inner(self) -> real::LockResult<T> {
            self.inner.into_inner()
        }
    }
    impl<T: ?Sized> Mutex<T> {
        fn addr(&self) -> usize {
            &self.inner as *const _ as *const u8 as usize
        }
        fn wrap<'a>(
            &'a self,
            r: real::LockResult<real::MutexGuard<'a, T>>,
        ) -> real::LockResult<MutexGuard<'a, T>> {
            match r {
                Ok(g) => Ok(MutexGuard { lock: self, inner: Some(g) }),
                Err(e) => Err(real::PoisonError::new(MutexGuard {
                    lock: self,
                    inner: Some(e.into_inner()),
                })),
            }
        }
        pub fn lock(&self) -> real::LockResult<MutexGuard<'_, T>> {
            if mc::acquire(self.addr(), Acc::Exclusive, false, ::std::any::type_name::<T>()) {
                return self.wrap(self.inner.lock());
            }
            if let Mode::Solo = mc::mode() {
                return match self.inner.try_lock() {
                    Ok(g) => self.wrap(Ok(g)),
                    Err(real::TryLockError::Poisoned(e)) => self.wrap(Err(e)),
                    Err(real::TryLockError::WouldBlock) => self_deadlock("mutex"),
                };
            }
            self.wrap(self.inner.lock())
        }
        pub fn try_lock(&self) -> real::TryLockResult<MutexGuard<'_, T>> {
            match mc::try_acquire(self.addr(), Acc::Exclusive, ::std::any::type_name::<T>()) {
                Some(false) => Err(real::TryLockError::WouldBlock),
                Some(true) => self.wrap(self.inner.lock()).map_err(real::TryLockError::Poisoned),
                None => match self.inner.try_lock() {
                    Ok(g) => Ok(MutexGuard { lock: self, inner: Some(g) }),
                    Err(real::TryLockError::WouldBlock) => Err(real::TryLockError::WouldBlock),
                    Err(real::TryLockError::Poisoned(e)) => {
                        Err(real::TryLockError::Poisoned(real::PoisonError::new(MutexGuard {
                            lock: self,
                            inner: Some(e.into_inner()),
                        })))
                    }
                },
            }
        }
        pub fn is_poisoned(&self) -> bool {
            self.inner.is_poisoned()
        }
        pub fn clear_poison(&self) {
            // stabilised after the toolchain of the repository
        }
        pub fn get_mut(&mut self) -> real::LockResult<&mut T> {
            self.inner.get_mut()
        }
    }
    impl<T> From<T> for Mutex<T> {
        fn from(t: T) -> Self {
            Mutex::new(t)
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.inner.fmt(f)
        }
    }
    impl<T: ?Sized> Deref for MutexGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.inner.as_ref().unwrap()
        }
    }
    impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            self.inner.as_mut().unwrap()
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            (**self).fmt(f)
        }
    }
    impl<T: ?Sized> Drop for MutexGuard<'_, T> {
        fn drop(&mut self) {
            if self.inner.take().is_some() {
                mc::release(self.lock.addr(), Acc::Exclusive);
            }
        }
    }

    // --------------------------------------------------------------- RwLock
    #[derive(Default)]
    pub struct RwLock<T: ?Sized> {
        inner: real::RwLock<T>,
    }
    pub struct RwLockReadGuard<'a, T: ?Sized> {
        lock: &'a RwLock<T>,
        inner: Option<real::RwLockReadGuard<'a, T>>,
    }
    pub struct RwLockWriteGuard<'a, T: ?Sized> {
        lock: &'a RwLock<T>,
        inner: Option<real::RwLockWriteGuard<'a, T>>,
    }
    impl<T> RwLock<T> {
        pub const fn new(t: T) -> Self {
            RwLock { inner: real::RwLock::new(t) }
        }
        pub fn into_inner(self) -> real::LockResult<T> {
            self.inner.into_inner()
        }
    }
    impl<T: ?Sized> RwLock<T> {
        fn addr(&self) -> usize {
            &self.inner as *const _ as *const u8 as usize
        }
        fn wrap_r<'a>(
            &'a self,
            r: real::LockResult<real::RwLockReadGuard<'a, T>>,
        ) -> real::LockResult<RwLockReadGuard<'a, T>> {
            match r {
                Ok(g) => Ok(RwLockReadGuard { lock: self, inner: Some(g) }),
                Err(e) => Err(real::PoisonError::new(RwLockReadGuard {
                    lock: self,
                    inner: Some(e.into_inner()),
                })),
            }
        }
        fn wrap_w<'a>(
            &'a self,
            r: real::LockResult<real::RwLockWriteGuard<'a, T>>,
        ) -> real::LockResult<RwLockWriteGuard<'a, T>> {
            match r {
                Ok(g) => Ok(RwLockWriteGuard { lock: self, inner: Some(g) }),
                Err(e) => Err(real::PoisonError::new(RwLockWriteGuard {
                    lock: self,
                    inner: Some(e.into_inner()),
                })),
            }
        }
        pub fn read(&self) -> real::LockResult<RwLockReadGuard<'_, T>> {
            if mc::acquire(self.addr(), Acc::Shared, true, ::std::any::type_name::<T>()) {
                return match self.inner.try_read() {
                    Ok(g) => self.wrap_r(Ok(g)),
                    Err(real::TryLockError::Poisoned(e)) => self.wrap_r(Err(e)),
                    Err(real::TryLockError::WouldBlock) => self.wrap_r(self.inner.read()),
                };
            }
            if let Mode::Solo = mc::mode() {
                return match self.inner.try_read() {
                    Ok(g) => self.wrap_r(Ok(g)),
                    Err(real::TryLockError::Poisoned(e)) => self.wrap_r(Err(e)),
                    Err(real::TryLockError::WouldBlock) => self_deadlock("rwlock"),
                };
            }
            self.wrap_r(self.inner.read())
        }
        pub fn write(&self) -> real::LockResult<RwLockWriteGuard<'_, T>> {
            if mc::acquire(self.addr(), Acc::Exclusive, true, ::std::any::type_name::<T>()) {
                return self.wrap_w(self.inner.write());
            }
            if let Mode::Solo = mc::mode() {
                return match self.inner.try_write() {
                    Ok(g) => self.wrap_w(Ok(g)),
                    Err(real::TryLockError::Poisoned(e)) => self.wrap_w(Err(e)),
                    Err(real::TryLockError::WouldBlock) => self_deadlock("rwlock"),
                };
            }
            self.wrap_w(self.inner.write())
        }
        pub fn try_read(&self) -> real::TryLockResult<RwLockReadGuard<'_, T>> {
            match mc::try_acquire(self.addr(), Acc::Shared, ::std::any::type_name::<T>()) {
                Some(false) => Err(real::TryLockError::WouldBlock),
                _ => match self.inner.try_read() {
                    Ok(g) => Ok(RwLockReadGuard { lock: self, inner: Some(g) }),
                    Err(real::TryLockError::WouldBlock) => Err(real::TryLockError::WouldBlock),
                    Err(real::TryLockError::Poisoned(e)) => {
                        self.wrap_r(Err(e)).map_err(real::TryLockError::Poisoned)
                    }
                },
            }
        }
        pub fn try_write(&self) -> real::TryLockResult<RwLockWriteGuard<'_, T>> {
            match mc::try_acquire(self.addr(), Acc::Exclusive, ::std::any::type_name::<T>()) {
                Some(false) => Err(real::TryLockError::WouldBlock),
                _ => match self.inner.try_write() {
                    Ok(g) => Ok(RwLockWriteGuard { lock: self, inner: Some(g) }),
                    Err(real::TryLockError::WouldBlock) => Err(real::TryLockError::WouldBlock),
                    Err(real::TryLockError::Poisoned(e)) => {
                        self.wrap_w(Err(e)).map_err(real::TryLockError::Poisoned)
                    }
                },
            }
        }
        pub fn is_poisoned(&self) -> bool {
            self.inner.is_poisoned()
        }
        pub fn clear_poison(&self) {}
        pub fn get_mut(&mut self) -> real::LockResult<&mut T> {
            self.inner.get_mut()
        }
    }
    impl<T> From<T> for RwLock<T> {
        fn from(t: T) -> Self {
            RwLock::new(t)
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.inner.fmt(f)
        }
    }
    impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.inner.as_ref().unwrap()
        }
    }
    impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.inner.as_ref().unwrap()
        }
    }
    impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            self.inner.as_mut().unwrap()
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockReadGuard<'_, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            (**self).fmt(f)
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockWriteGuard<'_, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            (**self).fmt(f)
        }
    }
    impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
        fn drop(&mut self) {
            if self.inner.take().is_some() {
                mc::release(self.lock.addr(), Acc::Shared);
            }
        }
    }
    impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
        fn drop(&mut self) {
            if self.inner.take().is_some() {
                mc::release(self.lock.addr(), Acc::Exclusive);
            }
        }
    }

    // -------------------------------------------------------------- Condvar
    #[derive(Debug, PartialEq, Eq, Copy, Clone)]
    pub struct WaitTimeoutResult(bool);
    impl WaitTimeoutResult {
        pub fn timed_out(&self) -> bool {
            self.0
        }
    }
    #[derive(Default, Debug)]
    pub struct Condvar {
        inner: real::Condvar,
        // gives the condvar an address of its own
        _id: u8,
    }
    impl Condvar {
        pub const fn new() -> Self {
            Condvar { inner: real::Condvar::new(), _id: 0 }
        }
        fn addr(&self) -> usize {
            &self.inner as *const _ as usize
        }
        fn wait_inner<'a, T>(
            &self,
            mut guard: MutexGuard<'a, T>,
            dur: Option<Duration>,
        ) -> (real::LockResult<MutexGuard<'a, T>>, bool) {
            let lock = guard.lock;
            let inner = guard.inner.take().unwrap();
            match mc::mode() {
                Mode::Managed(..) => {
                    drop(inner);
                    drop(guard);
                    let timed_out = mc::wait(self.addr(), lock.addr(), dur).unwrap();
                    (lock.wrap(lock.inner.lock()), timed_out)
                }
                Mode::Solo if dur.is_none() => {
                    panic!("self deadlock: waiting for a notification which nobody can send")
                }
                Mode::Solo => (lock.wrap(Ok(inner)), true),
                Mode::Pass => {
                    drop(guard);
                    match dur {
                        None => (lock.wrap(self.inner.wait(inner)), false),
                        Some(d) => match self.inner.wait_timeout(inner, d) {
                            Ok((g, r)) => (lock.wrap(Ok(g)), r.timed_out()),
                            Err(e) => {
                                let (g, r) = e.into_inner();
                                (lock.wrap(Err(real::PoisonError::new(g))), r.timed_out())
                            }
                        },
                    }
                }
            }
        }
        pub fn wait<'a, T>(
            &self,
            guard: MutexGuard<'a, T>,
        ) -> real::LockResult<MutexGuard<'a, T>> {
            self.wait_inner(guard, None).0
        }
        pub fn wait_while<'a, T, F>(
            &self,
            mut guard: MutexGuard<'a, T>,
            mut condition: F,
        ) -> real::LockResult<MutexGuard<'a, T>>
        where
            F: FnMut(&mut T) -> bool,
        {
            while condition(&mut *guard) {
                guard = self.wait(guard)?;
            }
            Ok(guard)
        }
        pub fn wait_timeout<'a, T>(
            &self,
            guard: MutexGuard<'a, T>,
            dur: Duration,
        ) -> real::LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
            let (r, t) = self.wait_inner(guard, Some(dur));
            match r {
                Ok(g) => Ok((g, WaitTimeoutResult(t))),
                Err(e) => Err(real::PoisonError::new((e.into_inner(), WaitTimeoutResult(t)))),
            }
        }
        pub fn wait_timeout_ms<'a, T>(
            &self,
            guard: MutexGuard<'a, T>,
            ms: u32,
        ) -> real::LockResult<(MutexGuard<'a, T>, bool)> {
            let (r, t) = self.wait_inner(guard, Some(Duration::from_millis(ms as u64)));
            match r {
                Ok(g) => Ok((g, !t)),
                Err(e) => Err(real::PoisonError::new((e.into_inner(), !t))),
            }
        }
        pub fn wait_timeout_while<'a, T, F>(
            &self,
            mut guard: MutexGuard<'a, T>,
            dur: Duration,
            mut condition: F,
        ) -> real::LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)>
        where
            F: FnMut(&mut T) -> bool,
        {
            let start = ::std::time::Instant::now();
            let managed = mc::is_active();
            loop {
                if !condition(&mut *guard) {
                    return Ok((guard, WaitTimeoutResult(false)));
                }
                let left = if managed {
                    dur
                } else {
                    match dur.checked_sub(start.elapsed()) {
                        Some(d) => d,
                        None => return Ok((guard, WaitTimeoutResult(true))),
                    }
                };
                let (g, r) = self.wait_timeout(guard, left)?;
                guard = g;
                if managed && r.timed_out() {
                    let still = condition(&mut *guard);
                    return Ok((guard, WaitTimeoutResult(still)));
                }
            }
        }
        pub fn notify_one(&self) {
            if !mc::notify(self.addr(), false) {
                self.inner.notify_one()
            }
        }
        pub fn notify_all(&self) {
            if !mc::notify(self.addr(), true) {
                self.inner.notify_all()
            }
        }
    }

    // -------------------------------------------------------------- atomics
    // ----------------------------------------------------- OnceLock, Once and Barrier, with the above
    pub struct OnceLock<T> {
        /// the initialisation holds it, other initialisations wait for it
        init: Mutex<()>,
        value: real::OnceLock<T>,
    }
    impl<T> OnceLock<T> {
        pub const fn new() -> Self {
            OnceLock { init: Mutex::new(()), value: real::OnceLock::new() }
        }
        pub fn get(&self) -> Option<&T> {
            mc::step(self as *const _ as usize);
            self.value.get()
        }
        pub fn get_mut(&mut self) -> Option<&mut T> {
            self.value.get_mut()
        }
        pub fn set(&self, t: T) -> Result<(), T> {
            let _g = self.init.lock().unwrap_or_else(|e| e.into_inner());
            self.value.set(t)
        }
        pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
            if let Some(t) = self.get() {
                return t;
            }
            let _g = self.init.lock().unwrap_or_else(|e| e.into_inner());
            if self.value.get().is_none() {
                let _ = self.value.set(f());
            }
            self.value.get().unwrap()
        }
        pub fn into_inner(self) -> Option<T> {
            self.value.into_inner()
        }
        pub fn take(&mut self) -> Option<T> {
            self.value.take()
        }
    }
    impl<T> Default for OnceLock<T> {
        fn default() -> Self {
            Self::new()
        }
    }
    impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.value.fmt(f)
        }
    }
    impl<T: Clone> Clone for OnceLock<T> {
        fn clone(&self) -> Self {
            OnceLock { init: Mutex::new(()), value: self.value.clone() }
        }
    }
    impl<T> From<T> for OnceLock<T> {
        fn from(t: T) -> Self {
            OnceLock { init: Mutex::new(()), value: t.into() }
        }
    }

    #[derive(Debug)]
    pub struct Once(OnceLock<()>);
    impl Once {
        pub const fn new() -> Self {
            Once(OnceLock::new())
        }
        pub fn call_once<F: FnOnce()>(&self, f: F) {
            self.0.get_or_init(f);
        }
        pub fn is_completed(&self) -> bool {
            self.0.get().is_some()
        }
    }

    #[derive(Debug)]
    pub struct Barrier {
        n: usize,
        /// threads which have arrived, generation
        state: Mutex<(usize, usize)>,
        cv: Condvar,
    }
    pub struct BarrierWaitResult(bool);
    impl BarrierWaitResult {
        pub fn is_leader(&self) -> bool {
            self.0
        }
    }
    impl Barrier {
        pub const fn new(n: usize) -> Self {
            Barrier { n, state: Mutex::new((0, 0)), cv: Condvar::new() }
        }
        pub fn wait(&self) -> BarrierWaitResult {
            let mut g = self.state.lock().unwrap();
            let generation = g.1;
            g.0 += 1;
            if g.0 < self.n {
                let _g = self.cv.wait_while(g, |x| x.1 == generation).unwrap();
                return BarrierWaitResult(false);
            }
            *g = (0, generation + 1);
            self.cv.notify_all();
            BarrierWaitResult(true)
        }
    }

    pub mod atomic {
        pub use ::std::sync::atomic::*;

        use crate::mc;
        use ::std::fmt;
        use ::std::sync::atomic as real;

        macro_rules! common {
            ($name:ident, $t:ty) => {
                #[derive(Default)]
                #[repr(transparent)]
                pub struct $name(real::$name);
                impl From<$t> for $name {
                    fn from(v: $t) -> Self {
                        Self::new(v)
                    }
                }
                impl fmt::Debug for $name {
                    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                        self.0.fmt(f)
                    }
                }
                impl $name {
                    pub const fn new(v: $t) -> Self {
                        Self(real::$name::new(v))
                    }
                    fn p(&self) {
                        mc::step(self as *const _ as usize)
                    }
                    pub fn get_mut(&mut self) -> &mut $t {
                        self.0.get_mut()
                    }
                    pub fn into_inner(self) -> $t {
                        self.0.into_inner()
                    }
                    pub fn load(&self, o: Ordering) -> $t {
                        self.p();
                        self.0.load(o)
                    }
                    pub fn store(&self, v: $t, o: Ordering) {
                        self.p();
                        self.0.store(v, o)
                    }
                    pub fn swap(&self, v: $t, o: Ordering) -> $t {
                        self.p();
                        self.0.swap(v, o)
                    }
                    pub fn compare_exchange(
                        &self,
                        c: $t,
                        n: $t,
                        s: Ordering,
                        f: Ordering,
                    ) -> Result<$t, $t> {
                        self.p();
                        self.0.compare_exchange(c, n, s, f)
                    }
                    pub fn compare_exchange_weak(
                        &self,
                        c: $t,
                        n: $t,
                        s: Ordering,
                        f: Ordering,
                    ) -> Result<$t, $t> {
                        self.p();
                        self.0.compare_exchange(c, n, s, f)
                    }
                    pub fn fetch_and(&self, v: $t, o: Ordering) -> $t {
                        self.p();
                        self.0.fetch_and(v, o)
                    }
                    pub fn fetch_or(&self, v: $t, o: Ordering) -> $t {
                        self.p();
                        self.0.fetch_or(v, o)
                    }
                    pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t {
                        self.p();
                        self.0.fetch_xor(v, o)
                    }
                    pub fn fetch_nand(&self, v: $t, o: Ordering) -> $t {
                        self.p();
                        self.0.fetch_nand(v, o)
                    }
                    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(
                        &self,
                        s: Ordering,
                        f: Ordering,
                        mut func: F,
                    ) -> Result<$t, $t> {
                        let mut prev = self.load(f);
                        while let Some(next) = func(prev) {
                            match self.compare_exchange_weak(prev, next, s, f) {
                                x @ Ok(_) => return x,
                                Err(p) => prev = p,
                            }
                        }
                        Err(prev)
                    }
                }
            };
        }
        macro_rules! int {
            ($($name:ident $t:ty),*) => {$(
                common!($name, $t);
                impl $name {
                    pub fn fetch_add(&self, v: $t, o: Ordering) -> $t { self.p(); self.0.fetch_add(v, o) }
                    pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t { self.p(); self.0.fetch_sub(v, o) }
                    pub fn fetch_max(&self, v: $t, o: Ordering) -> $t { self.p(); self.0.fetch_max(v, o) }
                    pub fn fetch_min(&self, v: $t, o: Ordering) -> $t { self.p(); self.0.fetch_min(v, o) }
                }
            )*};
        }
        int!(AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize,
             AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize);
        common!(AtomicBool, bool);
    }
}
