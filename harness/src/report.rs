//! Collects what a check covered and its verdict.
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::os::fd::FromRawFd;
use std::path::PathBuf;
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, serde::Serialize, serde::Deserialize)]
pub struct Finding {
    /// identifies what fails: compared with the keys of known_findings.txt
    pub key: String,
    pub text: String,
    pub replay: serde_json::Value,
}

pub struct Report {
    pub property: String,
    pub thorough: bool,
    pub seed: u64,
    pub start: Instant,
    pub root: PathBuf,
    known: Vec<(String, String)>,
    pub inner: Mutex<Inner>,
    out: Mutex<std::fs::File>,
}

#[derive(Default)]
pub struct Inner {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub details: BTreeMap<String, serde_json::Value>,
    pub samples: Vec<serde_json::Value>,
    pub assumptions: BTreeSet<String>,
    pub findings: Vec<Finding>,
    pub exhaustive: bool,
    pub machinery: Vec<String>,
}

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn open(path: *const std::ffi::c_char, flags: i32) -> i32;
}

impl Report {
    pub fn new(property: &str, thorough: bool, root: PathBuf) -> Self {
        // whatever the code under test prints cannot be mistaken for a verdict
        let out = unsafe {
            let fd = dup(1);
            let null = open(b"/dev/null\0".as_ptr() as *const _, 1);
            dup2(null, 1);
            std::fs::File::from_raw_fd(fd)
        };
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|x| x.parse().ok())
            .unwrap_or(1);
        Report {
            property: property.to_string(),
            known: Self::read_known(&root, property),
            thorough,
            seed,
            start: Instant::now(),
            root,
            inner: Mutex::new(Inner {
                exhaustive: true,
                ..Default::default()
            }),
            out: Mutex::new(out),
        }
    }

    pub fn say(&self, line: &str) {
        let mut o = self.out.lock().unwrap();
        let _ = writeln!(o, "{line}");
    }

    pub fn find(&self, f: Finding) {
        self.inner.lock().unwrap().findings.push(f);
    }

    /// something is wrong with the check itself, not with the property
    pub fn machinery(&self, text: String) {
        self.inner.lock().unwrap().machinery.push(text);
    }

    pub fn assume(&self, text: &str) {
        self.inner.lock().unwrap().assumptions.insert(text.to_string());
    }

    pub fn sample(&self, v: serde_json::Value) {
        let mut i = self.inner.lock().unwrap();
        if i.samples.len() < 12 {
            i.samples.push(v);
        }
    }

    pub fn add(&self, name: &str, states: u64, transitions: u64, traces: u64, detail: serde_json::Value) {
        let mut i = self.inner.lock().unwrap();
        i.states += states;
        i.transitions += transitions;
        i.traces += traces;
        i.details.insert(name.to_string(), detail);
    }

    pub fn stop_early(&self) -> bool {
        let i = self.inner.lock().unwrap();
        i.findings.iter().filter(|f| !self.is_known(f)).count() >= 3
    }

    /// listed in the file of known findings
    pub fn is_known(&self, f: &Finding) -> bool {
        self.known.iter().any(|(k, _)| *k == f.key)
    }

    fn read_known(root: &std::path::Path, property: &str) -> Vec<(String, String)> {
        let Ok(text) = std::fs::read_to_string(root.join("known_findings.txt")) else {
            return vec![];
        };
        let prefix = format!("KNOWN-FINDING: property={property} key=");
        text.lines()
            .filter_map(|l| l.strip_prefix(&prefix))
            .map(|l| {
                let (key, what) = l.split_once(' ').unwrap_or((l, ""));
                (key.to_string(), what.to_string())
            })
            .collect()
    }

    pub fn finish(&self) -> i32 {
        let known = &self.known;
        let mut i = self.inner.lock().unwrap();
        let dir = self.root.join("evidence");
        let _ = std::fs::create_dir_all(dir.join("replay"));
        let mut violations = 0;
        let mut seen_known = BTreeSet::new();
        let mut seen = BTreeSet::new();
        let findings = std::mem::take(&mut i.findings);
        for f in &findings {
            if let Some((key, what)) = known.iter().find(|(k, _)| *k == f.key) {
                if seen_known.insert(key.clone()) {
                    self.say(&format!("KNOWN-FINDING: property={} {}", self.property, what));
                }
                continue;
            }
            if !seen.insert(f.key.clone()) {
                continue;
            }
            violations += 1;
            if violations > 5 {
                continue;
            }
            let path = dir
                .join("replay")
                .join(format!("{}-{}.json", self.property, violations));
            let mut v = f.replay.clone();
            v["property"] = self.property.clone().into();
            v["tier"] = if self.thorough { "thorough" } else { "quick" }.into();
            v["key"] = f.key.clone().into();
            v["what"] = f.text.clone().into();
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
            for l in f.text.lines().take(40) {
                self.say(&format!("  {l}"));
            }
            self.say(&format!(
                "VIOLATION property={} replay=evidence/replay/{}-{}.json",
                self.property, self.property, violations
            ));
        }
        let mut coverage = serde_json::json!({
            "states": i.states,
            "transitions": i.transitions,
            "traces_validated_against_impl": i.traces,
            "samples": i.samples,
            "exhaustive": i.exhaustive && violations == 0,
        });
        for (k, v) in &i.details {
            coverage[k] = v.clone();
        }
        let wall = self.start.elapsed().as_secs_f64();
        let evidence = serde_json::json!({
            "property": self.property,
            "tier": if self.thorough { "thorough" } else { "quick" },
            "seed": self.seed,
            "level": "model_checking",
            "coverage": coverage,
            "assumptions": i.assumptions,
            "wall_s": wall,
            "violations": violations,
        });
        let _ = std::fs::write(
            dir.join(format!("{}.json", self.property)),
            serde_json::to_string_pretty(&evidence).unwrap(),
        );
        for m in i.machinery.iter().take(5) {
            self.say(&format!("ERROR of the check: {m}"));
        }
        self.say(&format!(
            "{}: {} states, {} transitions, {} traces on the implementation, {} violations, {:.1} s",
            self.property, i.states, i.transitions, i.traces, violations, wall
        ));
        if violations > 0 {
            1
        } else if !i.machinery.is_empty() {
            3
        } else {
            0
        }
    }
}
