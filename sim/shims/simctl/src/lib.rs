//! What the stand-ins of this directory share: the script of one run of the program, and its progress.
//!
//! The program reads its arguments, a stream of messages and a snapshot archive, and serves requests.
//! The script says which message is delivered before which entry of the archive, so that one run is one
//! schedule of the two sides.
use std::sync::{Condvar, Mutex, OnceLock};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Default, serde::Serialize, serde::Deserialize)]
pub struct Script {
    /// arguments by their long names
    pub args: std::collections::BTreeMap<String, String>,
    /// messages and the number of archive entries which are read before each of them
    pub messages: Vec<(usize, Message)>,
    /// requests: name of the method and its parameters
    pub requests: Vec<(String, serde_json::Value)>,
    pub out: String,
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub enum Message {
    Account {
        pubkey: [u8; 32],
        owner: [u8; 32],
        lamports: u64,
        executable: bool,
        rent_epoch: u64,
        data: Vec<u8>,
        slot: u64,
        write_version: u64,
    },
    /// level: 0 processed, 1 confirmed, 2 finalized
    Slot { slot: u64, parent: u64, level: u8 },
    /// a message of another kind
    Other,
}

#[derive(Default)]
struct State {
    subscribed: bool,
    /// messages handed out
    taken: usize,
    /// messages the program has asked for again after taking them
    done: usize,
    entries: usize,
    /// messages up to this place may be handed out: the program waits for its next entry of the archive,
    /// so what it does with the entries before is done
    open: Option<usize>,
    /// the archive is read to its end
    loaded: bool,
}

pub struct Ctl {
    pub script: Script,
    state: Mutex<State>,
    changed: Condvar,
}

static CTL: OnceLock<Option<Ctl>> = OnceLock::new();

pub fn ctl() -> Option<&'static Ctl> {
    CTL.get_or_init(|| {
        let path = std::env::var("SIM_SCRIPT").ok()?;
        let text = std::fs::read_to_string(path).ok()?;
        Some(Ctl {
            script: serde_json::from_str(&text).ok()?,
            state: Mutex::default(),
            changed: Condvar::new(),
        })
    })
    .as_ref()
}

impl Ctl {
    pub fn subscribe(&self) {
        self.state.lock().unwrap().subscribed = true;
        self.changed.notify_all();
    }

    /// the next message, when it is its turn
    pub fn poll(&self) -> Poll {
        let mut s = self.state.lock().unwrap();
        s.done = s.taken;
        let r = match self.script.messages.get(s.taken) {
            None => Poll::End,
            Some((at, m)) if s.open.map_or(false, |x| *at <= x) || s.loaded => {
                s.taken += 1;
                Poll::Message(m.clone())
            }
            Some(_) => Poll::Later,
        };
        drop(s);
        self.changed.notify_all();
        r
    }

    /// called before an entry of the archive is given: waits for the messages which come before it
    pub fn before_entry(&self) {
        let mut s = self.state.lock().unwrap();
        s.open = Some(s.entries);
        let due = self
            .script
            .messages
            .iter()
            .take_while(|(at, _)| *at <= s.entries)
            .count();
        let end = Instant::now() + Duration::from_secs(20);
        while s.done < due {
            let left = end.saturating_duration_since(Instant::now());
            if left.is_zero() {
                eprintln!("simctl: the messages are not read");
                std::process::exit(77);
            }
            s = self.changed.wait_timeout(s, left).unwrap().0;
        }
        s.entries += 1;
        drop(s);
        self.changed.notify_all();
    }

    pub fn end_of_archive(&self) {
        self.state.lock().unwrap().loaded = true;
        self.changed.notify_all();
    }

    /// all messages are handled
    pub fn drained(&self) -> bool {
        let s = self.state.lock().unwrap();
        s.done >= self.script.messages.len()
    }
}

pub enum Poll {
    Message(Message),
    Later,
    End,
}
