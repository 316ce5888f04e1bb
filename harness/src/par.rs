//! Worker processes (fork): explorations scale better than with threads, and a worker which dies or
//! hangs in the code under test is noticed.
use serde::{de::DeserializeOwned, Serialize};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(addr: *mut u8, len: usize) -> i32;
    fn prctl(option: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

pub const TRACE: usize = 64;
pub struct Slot {
    pub beat: AtomicU64,
    pub len: AtomicU32,
    pub trace: [AtomicU32; TRACE],
}
pub struct Shared {
    pub next: AtomicU64,
    pub stop: AtomicBool,
    slots: [Slot; 64],
}
pub struct Worker<'a> {
    pub shared: &'a Shared,
    pub slot: &'a Slot,
}
impl Worker<'_> {
    pub fn next(&self) -> usize {
        self.shared.next.fetch_add(1, Ordering::Relaxed) as usize
    }
    pub fn stopped(&self) -> bool {
        self.shared.stop.load(Ordering::Relaxed)
    }
    pub fn stop(&self) {
        self.shared.stop.store(true, Ordering::Relaxed)
    }
    pub fn beat(&self) {
        self.slot.beat.fetch_add(1, Ordering::Relaxed);
    }
    /// what is being done, to be reported if it never ends
    pub fn doing(&self, trace: &[usize]) {
        for (i, x) in trace.iter().take(TRACE).enumerate() {
            self.slot.trace[i].store(*x as u32, Ordering::Relaxed);
        }
        self.slot.len.store(trace.len().min(TRACE) as u32, Ordering::Relaxed);
        self.beat();
    }
}

#[derive(Debug)]
pub enum Lost {
    Died(i32),
    Hung,
}

/// runs f in n processes; what they return, and what was lost with the trace of their last action
pub fn run<T: Serialize + DeserializeOwned>(
    n: usize,
    patience: Duration,
    f: impl Fn(&Worker) -> T,
) -> (Vec<T>, Vec<(Lost, Vec<usize>)>) {
    let n = n.clamp(1, 64);
    let size = std::mem::size_of::<Shared>();
    let shared: &Shared = unsafe {
        // PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS
        let p = mmap(std::ptr::null_mut(), size, 3, 0x21, -1, 0);
        assert!(p as isize != -1);
        &*(p as *const Shared)
    };
    let mut children = vec![];
    for i in 0..n {
        let mut fds = [0i32; 2];
        let pid = unsafe {
            assert_eq!(pipe(fds.as_mut_ptr()), 0);
            fork()
        };
        assert!(pid >= 0);
        if pid == 0 {
            // dies with the parent
            unsafe { prctl(1, 9, 0, 0, 0) };
            let w = Worker { shared, slot: &shared.slots[i] };
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&w)));
            let code = match r {
                Ok(r) => {
                    let bytes = serde_json::to_vec(&r).unwrap();
                    let mut out = unsafe { std::fs::File::from_raw_fd(fds[1]) };
                    let _ = out.write_all(&bytes);
                    drop(out);
                    0
                }
                Err(e) => {
                    eprintln!("worker failed: {}", mcstd::mc::panic_message(&*e));
                    101
                }
            };
            unsafe { _exit(code) };
        }
        let file = unsafe {
            drop(std::fs::File::from_raw_fd(fds[1]));
            std::fs::File::from_raw_fd(fds[0])
        };
        let reader = std::thread::spawn(move || {
            let mut v = vec![];
            let mut file = file;
            let _ = file.read_to_end(&mut v);
            v
        });
        children.push((pid, reader, i));
    }
    let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); n];
    let mut state: Vec<Option<Result<(), Lost>>> = (0..n).map(|_| None).collect();
    while state.iter().any(|s| s.is_none()) {
        for (pid, _, i) in &children {
            if state[*i].is_some() {
                continue;
            }
            let mut status = 0;
            let r = unsafe { waitpid(*pid, &mut status, 1) };
            if r == *pid {
                state[*i] = Some(if status == 0 { Ok(()) } else { Err(Lost::Died(status)) });
                continue;
            }
            let b = shared.slots[*i].beat.load(Ordering::Relaxed);
            if b != last[*i].0 {
                last[*i] = (b, Instant::now());
            } else if last[*i].1.elapsed() > patience {
                unsafe {
                    kill(*pid, 9);
                    waitpid(*pid, &mut status, 0);
                }
                state[*i] = Some(Err(Lost::Hung));
            }
        }
        if state.iter().any(|s| matches!(s, Some(Err(_)))) {
            shared.stop.store(true, Ordering::Relaxed);
        }
        std::thread::sleep(Duration::from_millis(3));
    }
    let mut out = vec![];
    let mut lost = vec![];
    for ((_, reader, i), st) in children.into_iter().zip(state) {
        let bytes = reader.join().unwrap();
        match st.unwrap() {
            Ok(()) => out.push(serde_json::from_slice(&bytes).expect("result of a worker")),
            Err(l) => {
                let s = &shared.slots[i];
                let len = s.len.load(Ordering::Relaxed) as usize;
                lost.push((l, s.trace[..len].iter().map(|x| x.load(Ordering::Relaxed) as usize).collect()));
            }
        }
    }
    unsafe { munmap(shared as *const _ as *mut u8, size) };
    (out, lost)
}
