//! The monitoring core: journals every case before it is executed, so that a crash or a hang
//! of the code under test is attributed to the case; catches panics; collects the
//! observations, the violations and the evidence.

use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet, HashSet},
    fs,
    os::unix::fs::FileExt,
    panic::{catch_unwind, AssertUnwindSafe},
    path::{Path, PathBuf},
    time::Instant,
};

use crate::rng::Rng;

pub const MAX_VIOLATIONS: usize = 12;

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub rng: Rng,
    pub start: Instant,
    pub evals: u64,
    distinct: HashSet<u64>,
    pub shapes: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    offered: u64,
    pub rule: String,
    pub assumptions: Vec<String>,
    pub violations: Vec<(String, String)>,
    pub violations_total: u64,
    known: BTreeMap<String, String>,
    pub known_seen: BTreeSet<String>,
    journal: Option<fs::File>,
    seq: u64,
    current: String,
    pub out: PathBuf,
}

pub fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR")
        .map(PathBuf::from)
        .unwrap_or_else(|_| PathBuf::from("/verif"))
}

pub fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

pub fn known_findings(id: &str) -> BTreeMap<String, String> {
    let text = fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    let mut map = BTreeMap::new();
    for line in text.lines() {
        // finding: property=C01 case=<signature> :: description
        let Some(rest) = line.strip_prefix("finding: ") else {
            continue;
        };
        let Some((head, descr)) = rest.split_once(" :: ") else {
            continue;
        };
        let mut words = head.split_whitespace();
        let prop = words
            .next()
            .and_then(|w| w.strip_prefix("property="))
            .unwrap_or("");
        let case = words
            .next()
            .and_then(|w| w.strip_prefix("case="))
            .unwrap_or("");
        if prop == id && !case.is_empty() {
            map.insert(case.to_string(), descr.to_string());
        }
    }
    map
}

impl Ctx {
    pub fn new(id: &str, thorough: bool, seed: u64, out: &Path) -> Self {
        std::panic::set_hook(Box::new(|info| {
            let msg = info.to_string();
            PANIC.with(|p| *p.borrow_mut() = msg.clone());
            if std::env::var("VH_PANICS").is_ok() {
                eprintln!("{msg}");
            }
        }));
        let journal = fs::OpenOptions::new()
            .write(true)
            .create(true)
            .truncate(false)
            .open(out.join("journal"))
            .ok();
        Ctx {
            id: id.to_string(),
            thorough,
            seed,
            rng: Rng::new(seed, id),
            start: Instant::now(),
            evals: 0,
            distinct: HashSet::new(),
            shapes: HashSet::new(),
            counters: BTreeMap::new(),
            samples: vec![],
            offered: 0,
            rule: String::new(),
            assumptions: vec![],
            violations: vec![],
            violations_total: 0,
            known: known_findings(id),
            known_seen: BTreeSet::new(),
            journal,
            seq: 0,
            current: String::new(),
            out: out.to_path_buf(),
        }
    }

    pub fn scale(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }

    fn write_journal(&mut self, flag: &str, text: &str, timeout: u64) {
        self.seq += 1;
        if let Some(j) = &self.journal {
            let cut: String = text.chars().take(20000).collect();
            let line = format!(
                "{:020} {} {:06} {:08}\n{}\n",
                self.seq,
                flag,
                timeout,
                cut.len(),
                cut
            );
            let _ = j.write_all_at(line.as_bytes(), 0);
        }
    }

    /// Announces a harness phase (e.g. a compilation), which may take longer than a case.
    pub fn phase(&mut self, name: &str, timeout_s: u64) {
        self.write_journal("P", name, timeout_s);
    }

    /// Runs one case of the code under test. A panic is returned as an error.
    pub fn observe<T>(&mut self, input: &str, f: impl FnOnce() -> T) -> Result<T, String> {
        self.evals += 1;
        self.current.clear();
        self.current.push_str(input);
        self.write_journal("C", input, 60);
        PANIC.with(|p| p.borrow_mut().clear());
        let res = catch_unwind(AssertUnwindSafe(f));
        self.write_journal("H", "harness", 120);
        res.map_err(|_| PANIC.with(|p| p.borrow().clone()))
    }

    /// Counts a case as distinct and non-trivial (deduplicated by the key).
    pub fn nontrivial(&mut self, key: &str) {
        self.distinct.insert(hash(key));
    }

    /// Counts a distinct shape (class of inputs) that was observed.
    pub fn nontrivial_shape(&mut self, key: &str) {
        self.shapes.insert(hash(key));
    }

    pub fn count(&mut self, name: &str) {
        self.add(name, 1);
    }

    pub fn add(&mut self, name: &str, n: u64) {
        *self.counters.entry(name.to_string()).or_insert(0) += n;
    }

    pub fn sample(&mut self, every: u64, text: impl FnOnce() -> String) {
        self.offered += 1;
        if self.samples.len() < 12 && self.offered % every.max(1) == 1 % every.max(1) {
            let s: String = text().chars().take(600).collect();
            self.samples.push(s);
        }
    }

    /// `case` identifies the violation for the known-findings file: only a listed case is
    /// reported as a known finding.
    pub fn violation(&mut self, case: &str, detail: &str) {
        if self.known.contains_key(case) {
            self.known_seen.insert(case.to_string());
            return;
        }
        self.violations_total += 1;
        if self.violations.len() < MAX_VIOLATIONS {
            let detail: String = detail.chars().take(60000).collect();
            self.violations.push((case.to_string(), detail));
        }
    }

    pub fn full(&self) -> bool {
        self.violations.len() >= MAX_VIOLATIONS
    }

    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }

    pub fn distinct(&self) -> u64 {
        self.distinct.len() as u64
    }

    pub fn known_text(&self, case: &str) -> String {
        self.known.get(case).cloned().unwrap_or_default()
    }
}

pub fn json_str(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            '\r' => r.push_str("\\r"),
            '\t' => r.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                r.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

pub fn evidence(ctx: &Ctx, total: Option<u64>, note: &str) -> String {
    let counters = ctx
        .counters
        .iter()
        .map(|(k, v)| format!("    {}: {}", json_str(k), v))
        .collect::<Vec<_>>()
        .join(",\n");
    let samples = ctx
        .samples
        .iter()
        .map(|s| format!("    {}", json_str(s)))
        .collect::<Vec<_>>();
    let assumptions = ctx
        .assumptions
        .iter()
        .map(|s| json_str(s))
        .collect::<Vec<_>>();
    let known = ctx
        .known_seen
        .iter()
        .map(|s| json_str(s))
        .collect::<Vec<_>>();
    format!(
        "{{\n \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n \
         \"coverage\": {{\n   \"evaluations\": {},\n   \"distinct_nontrivial\": {},\n   \
         \"rule\": {},\n   \"samples\": [\n{}\n   ],\n   \"observed\": {{\n{}\n   }},\n   \
         \"distinct_input_shapes\": {},\n   \"known_findings_reproduced\": [{}],\n   \"note\": {}\n }},\n \"assumptions\": [{}],\n \
         \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        json_str(&ctx.id),
        if ctx.thorough { "thorough" } else { "quick" },
        ctx.seed,
        ctx.evals,
        ctx.distinct(),
        json_str(&ctx.rule),
        samples.join(",\n"),
        counters,
        ctx.shapes.len(),
        known.join(", "),
        json_str(note),
        assumptions.join(", "),
        ctx.elapsed(),
        total.unwrap_or(ctx.violations_total),
    )
}
