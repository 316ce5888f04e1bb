//! E03: every append vec is handed to one consumer, with at most so many at work, in all the orders in
//! which consumers can finish.
use crate::cases::Cases;
use crate::writer;
use sim_prog::snapshot_utils::{
    append_vec::AppendVec,
    parallel::{par_iter_append_vecs, AppendVecConsumer},
    SnapshotError, SnapshotResult,
};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Kind {
    /// is at work until it is told to finish
    Work,
    /// finishes at once
    Quick,
    /// finishes with an error
    Fails,
    /// the snapshot reports an error instead of an append vec
    Unreadable,
    Panics,
}

#[derive(Default)]
struct State {
    created: usize,
    /// running: number of the append vec, consumer
    running: Vec<(usize, usize)>,
    released: Vec<usize>,
    /// append vecs in the order in which consumers got them
    handed: Vec<usize>,
    finished: usize,
    pulled: usize,
    wrong: Option<String>,
}

struct Consumer {
    id: usize,
    kinds: Arc<Vec<Kind>>,
    state: Arc<Mutex<State>>,
}

#[async_trait::async_trait]
impl AppendVecConsumer for Consumer {
    async fn on_append_vec(&mut self, v: AppendVec) -> anyhow::Result<()> {
        let i = v.slot() as usize;
        {
            let mut s = self.state.lock().unwrap();
            s.handed.push(i);
            if s.running.iter().any(|(_, c)| *c == self.id) {
                s.wrong = Some(format!("consumer {} gets an append vec while it is at work", self.id));
            }
            if v.len() != writer::HEADER + i {
                s.wrong = Some(format!("append vec {i} has {} bytes", v.len()));
            }
            s.running.push((i, self.id));
        }
        if self.kinds[i] != Kind::Quick {
            Gate { state: self.state.clone(), i }.await;
        }
        let mut s = self.state.lock().unwrap();
        s.running.retain(|(k, _)| *k != i);
        s.finished += 1;
        drop(s);
        match self.kinds[i] {
            Kind::Fails => Err(anyhow::anyhow!("consumer fails")),
            Kind::Panics => panic!("consumer panics"),
            _ => Ok(()),
        }
    }
}

/// a consumer at work looks again each time the others had their turn
struct Gate {
    state: Arc<Mutex<State>>,
    i: usize,
}
impl std::future::Future for Gate {
    type Output = ();
    fn poll(self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<()> {
        if self.state.lock().unwrap().released.contains(&self.i) {
            return std::task::Poll::Ready(());
        }
        cx.waker().wake_by_ref();
        std::task::Poll::Pending
    }
}

struct Choices {
    prefix: Vec<usize>,
    /// choices made and how many there were
    made: Vec<(usize, usize)>,
}
impl Choices {
    fn choose(&mut self, n: usize) -> usize {
        let c = self.prefix.get(self.made.len()).copied().unwrap_or(0).min(n - 1);
        self.made.push((c, n));
        c
    }
}

fn vec_of(i: usize) -> AppendVec {
    let bytes = writer::append_vec(&[writer::acc(i, i)], false);
    AppendVec::new_from_reader(&mut bytes.as_slice(), bytes.len(), i as u64).unwrap()
}

/// one order; the choices which were made
fn run(kinds: &[Kind], threads: usize, prefix: Vec<usize>) -> (Result<(), String>, Choices) {
    let state = Arc::new(Mutex::new(State::default()));
    let kinds = Arc::new(kinds.to_vec());
    let mut choices = Choices { prefix, made: vec![] };
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    let create = {
        let (state, kinds) = (state.clone(), kinds.clone());
        move || {
            let mut s = state.lock().unwrap();
            s.created += 1;
            Consumer { id: s.created, kinds: kinds.clone(), state: state.clone() }
        }
    };
    let pulled = state.clone();
    let source = kinds.clone();
    let iterator = (0..kinds.len()).map(move |i| -> SnapshotResult<AppendVec> {
        pulled.lock().unwrap().pulled += 1;
        match source[i] {
            Kind::Unreadable => Err(SnapshotError::UnexpectedAppendVec),
            _ => Ok(vec_of(i)),
        }
    });
    let result = rt.block_on(async {
        let work = par_iter_append_vecs(Box::new(iterator), create, threads);
        tokio::pin!(work);
        let driver = async {
            let mut idle = 0;
            loop {
                for _ in 0..12 {
                    tokio::task::yield_now().await;
                }
                let waiting: Vec<usize> = {
                    let mut s = state.lock().unwrap();
                    if s.running.len() > threads {
                        s.wrong = Some(format!("{} consumers at work", s.running.len()));
                    }
                    if s.pulled > s.finished + threads + 1 + kinds.iter().filter(|k| **k == Kind::Unreadable).count() {
                        s.wrong = Some(format!("{} append vecs are held", s.pulled - s.finished));
                    }
                    let mut w: Vec<usize> = s.running.iter().map(|x| x.0).filter(|i| !s.released.contains(i)).collect();
                    w.sort();
                    w
                };
                if state.lock().unwrap().wrong.is_some() {
                    return Err("wrong".to_string());
                }
                if waiting.is_empty() {
                    idle += 1;
                    if idle > 50 {
                        return Err("no consumer is at work and it does not end".to_string());
                    }
                    continue;
                }
                idle = 0;
                // how many finish before anything else happens, and which
                let mut waiting = waiting;
                loop {
                    let i = waiting.remove(choices.choose(waiting.len()));
                    state.lock().unwrap().released.push(i);
                    if waiting.is_empty() || choices.choose(2) == 0 {
                        break;
                    }
                }
            }
        };
        tokio::select! {
            biased;
            r = &mut work => Ok(r),
            e = driver => e,
        }
    });
    let s = state.lock().unwrap();
    let verdict = (|| {
        if let Some(w) = &s.wrong {
            return Err(w.clone());
        }
        let r = match result {
            Err(e) => return Err(e),
            Ok(r) => r,
        };
        let mut h = s.handed.clone();
        h.sort();
        let once = h.windows(2).all(|w| w[0] != w[1]);
        if !once {
            return Err(format!("an append vec is handed to two consumers: {:?}", s.handed));
        }
        if s.created > threads {
            return Err(format!("{} consumers are created for {threads} threads", s.created));
        }
        let fails = kinds.iter().any(|k| !matches!(k, Kind::Work | Kind::Quick));
        if fails != r.is_err() {
            return Err(format!("result: {r:?}"));
        }
        if !fails {
            if h.len() != kinds.len() {
                return Err(format!("consumers got only {:?}", s.handed));
            }
            if !s.running.is_empty() || s.finished != kinds.len() {
                return Err("returns while a consumer is at work".into());
            }
        }
        Ok(())
    })();
    (verdict.map_err(|e| format!("{e}\nhanded {:?}, released {:?}", s.handed, s.released)), choices)
}

struct Orders {
    list: Vec<(Vec<Kind>, usize)>,
}
impl Cases for Orders {
    fn name(&self) -> String {
        "E03-orders".into()
    }
    fn len(&self) -> usize {
        self.list.len()
    }
    fn describe(&self, i: usize) -> String {
        format!("append vecs {:?}, {} at a time", self.list[i].0, self.list[i].1)
    }
    fn patience(&self) -> std::time::Duration {
        std::time::Duration::from_secs(120)
    }
    fn check(&self, i: usize) -> Result<u64, String> {
        let (kinds, threads) = &self.list[i];
        let mut prefix = vec![];
        let mut n = 0;
        loop {
            let (r, c) = run(kinds, *threads, prefix);
            n += 1;
            r.map_err(|e| format!("{e}\nchoices {:?}", c.made))?;
            // next order
            let mut made = c.made;
            while made.last().map_or(false, |(x, k)| x + 1 == *k) {
                made.pop();
            }
            match made.pop() {
                None => return Ok(n),
                Some((x, _)) => {
                    prefix = made.iter().map(|m| m.0).collect();
                    prefix.push(x + 1);
                }
            }
        }
    }
}

pub fn all(thorough: bool) -> Vec<Box<dyn Cases>> {
    let kinds = [Kind::Work, Kind::Quick, Kind::Fails, Kind::Unreadable, Kind::Panics];
    let mut lists: Vec<Vec<Kind>> = vec![vec![]];
    let mut list = vec![];
    for n in 0..=4 {
        for l in &lists {
            for threads in 1..=4 {
                list.push((l.clone(), threads));
            }
        }
        if n < 4 {
            lists = lists.iter().flat_map(|l| kinds.iter().map(move |k| [l.clone(), vec![*k]].concat())).collect();
        }
    }
    for n in 5..=(if thorough { 7 } else { 6 }) {
        for threads in 1..=3 {
            for bad in 0..=n {
                for kind in [Kind::Quick, Kind::Fails, Kind::Unreadable, Kind::Panics] {
                    let mut l = vec![Kind::Work; n];
                    if bad < n {
                        l[bad] = kind;
                    } else if kind != Kind::Quick {
                        continue;
                    }
                    list.push((l, threads));
                }
            }
        }
    }
    vec![Box::new(Orders { list })]
}
