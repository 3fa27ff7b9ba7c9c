//! Compiles generated code in batches and runs it. Each unit is a module with generated code and a
//! driver; units are spread over several binaries of one crate, which is written below out/.

use std::{
    collections::{BTreeMap, BTreeSet},
    fs,
    io::Write,
    path::PathBuf,
    process::{Command, Stdio},
};

use crate::core::{verif_dir, Ctx};

pub struct Unit {
    /// The code as it was generated
    pub code: String,
    /// `pub fn drive(case: usize, data: &str) -> Result<String, String>`
    pub driver: String,
    /// What it was generated from, for reports
    pub origin: String,
    /// What the driver is asked for
    pub asks: Vec<(usize, String)>,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Answer {
    Ok(String),
    Err(String),
    Panic(String),
    /// The process ended (abort, stack overflow) or did not answer in time.
    Lost(String),
    /// The unit does not compile.
    Broken,
}

const BINS: usize = 8;

const PRELUDE: &str = "#![allow(warnings)]
use std::str::FromStr;
use xsd_macro_utils::*;
use xsd_parser::generator::validator::Validate;
use xsd_types::types as xs;
use yaserde_derive::{YaDeserialize, YaSerialize};
";

const MAIN: &str = r#"
use std::io::{Read, Write};

/// Reads a document and writes it again.
pub fn round<T: yaserde::YaDeserialize + yaserde::YaSerialize>(doc: &str) -> Result<String, String> {
    let value: T = yaserde::de::from_str(doc)?;
    yaserde::ser::to_string(&value)
}

fn unescape(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            out.push(c);
            continue;
        }
        match it.next() {
            Some('n') => out.push('\n'),
            Some('r') => out.push('\r'),
            Some('t') => out.push('\t'),
            Some(c) => out.push(c),
            None => (),
        }
    }
    out
}

fn escape(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r").replace('\t', "\\t")
}

fn main() {
    let path = std::env::args().nth(1).unwrap();
    let asks = std::fs::read_to_string(path).unwrap();
    std::panic::set_hook(Box::new(|_| ()));
    let out = std::io::stdout();
    for line in asks.split('\n').filter(|l| !l.is_empty()) {
        let mut w = line.splitn(3, '\t');
        let unit: usize = w.next().unwrap().parse().unwrap();
        let case: usize = w.next().unwrap().parse().unwrap();
        let data = unescape(w.next().unwrap());
        let res = std::panic::catch_unwind(|| dispatch(unit, case, &data));
        let text = match res {
            Ok(Ok(s)) => format!("ok\t{}\n", escape(&s)),
            Ok(Err(s)) => format!("err\t{}\n", escape(&s)),
            Err(e) => format!(
                "panic\t{}\n",
                escape(e.downcast_ref::<String>().map(|s| s.as_str()).or(e.downcast_ref::<&str>().copied()).unwrap_or("?"))
            ),
        };
        let mut out = out.lock();
        out.write_all(text.as_bytes()).unwrap();
        out.flush().unwrap();
    }
}
"#;

fn escape(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r").replace('\t', "\\t")
}

fn unescape(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        match c {
            '\\' => match it.next() {
                Some('n') => out.push('\n'),
                Some('r') => out.push('\r'),
                Some('t') => out.push('\t'),
                Some(c) => out.push(c),
                None => (),
            },
            c => out.push(c),
        }
    }
    out
}

pub struct Batch {
    dir: PathBuf,
    id: String,
}

impl Batch {
    pub fn new(ctx: &Ctx) -> Self {
        Batch { dir: ctx.out.join("gen"), id: ctx.id.to_lowercase() }
    }

    fn bin(&self, b: usize) -> String {
        format!("gen_{}_{b}", self.id)
    }

    fn write(&self, units: &[Unit], broken: &BTreeSet<usize>) -> std::io::Result<()> {
        let src = self.dir.join("src");
        let _ = fs::remove_dir_all(&src);
        fs::create_dir_all(&src)?;
        let template = verif_dir().join("gen");
        let mut toml = fs::read_to_string(template.join("Cargo.toml"))?;
        toml.truncate(toml.find("# bins").unwrap_or(toml.len()));
        for b in 0..BINS {
            toml.push_str(&format!("\n[[bin]]\nname = \"{}\"\npath = \"src/b{b}.rs\"\n", self.bin(b)));
            let mut main = String::from("#![allow(warnings)]\n");
            let mut arms = String::new();
            for u in (b..units.len()).step_by(BINS).filter(|u| !broken.contains(u)) {
                main.push_str(&format!("mod u{u};\n"));
                arms.push_str(&format!("        {u} => u{u}::drive(case, data),\n"));
            }
            main.push_str(MAIN);
            main.push_str(&format!(
                "fn dispatch(unit: usize, case: usize, data: &str) -> Result<String, String> {{\n    match unit {{\n{arms}        _ => Err(\"no such unit\".into()),\n    }}\n}}\n"
            ));
            fs::write(src.join(format!("b{b}.rs")), main)?;
        }
        fs::write(self.dir.join("Cargo.toml"), toml)?;
        fs::copy(template.join("Cargo.lock"), self.dir.join("Cargo.lock"))?;
        for (u, unit) in units.iter().enumerate() {
            fs::write(src.join(format!("u{u}.rs")), format!("{PRELUDE}\n{}\n\n{}\n", unit.code, unit.driver))?;
        }
        Ok(())
    }

    /// Compiles the units. Those which do not compile are returned with the messages about them.
    pub fn compile(&self, ctx: &mut Ctx, units: &[Unit]) -> BTreeMap<usize, String> {
        let mut broken: BTreeMap<usize, String> = BTreeMap::new();
        loop {
            let set: BTreeSet<usize> = broken.keys().copied().collect();
            self.write(units, &set).expect("cannot write the crate");
            ctx.phase("compilation of generated code", 800);
            let out = Command::new("cargo")
                .args(["build", "--offline", "--locked", "--keep-going", "--message-format=short"])
                .current_dir(&self.dir)
                .stdin(Stdio::null())
                .output()
                .expect("cannot run cargo");
            ctx.phase("harness", 120);
            if out.status.success() {
                return broken;
            }
            let err = String::from_utf8_lossy(&out.stderr);
            let before = broken.len();
            for line in err.lines() {
                // src/u12.rs:1:2: error…
                let Some(rest) = line.split("src/u").nth(1) else {
                    continue;
                };
                if !line.contains("error") {
                    continue;
                }
                if let Some(u) = rest.split('.').next().and_then(|n| n.parse::<usize>().ok()) {
                    let e = broken.entry(u).or_default();
                    if e.len() < 3000 {
                        e.push_str(line);
                        e.push('\n');
                    }
                }
            }
            if broken.len() == before {
                eprintln!("{err}");
                panic!("the harness cannot compile the batch");
            }
        }
    }

    /// Runs everything that the units ask for.
    pub fn run(&self, ctx: &mut Ctx, units: &[Unit], broken: &BTreeMap<usize, String>) -> Vec<Vec<Answer>> {
        let mut answers: Vec<Vec<Answer>> = units.iter().map(|u| vec![Answer::Broken; u.asks.len()]).collect();
        let target = std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| verif_dir().join("target").display().to_string());
        let handles: Vec<_> = (0..BINS)
            .map(|b| {
                let mut todo = vec![];
                for u in (b..units.len()).step_by(BINS).filter(|u| !broken.contains_key(u)) {
                    for (i, (case, data)) in units[u].asks.iter().enumerate() {
                        todo.push((u, i, format!("{u}\t{case}\t{}\n", escape(data))));
                    }
                }
                let exe = PathBuf::from(&target).join("debug").join(self.bin(b));
                let file = self.dir.join(format!("asks-{b}"));
                std::thread::spawn(move || run_bin(exe, file, todo))
            })
            .collect();
        ctx.phase("running generated code", 800);
        for h in handles {
            for (u, i, a) in h.join().expect("runner") {
                ctx.evals += 1;
                answers[u][i] = a;
            }
        }
        ctx.phase("harness", 120);
        answers
    }

    /// Its size is of no use any more.
    pub fn clean(&self) {
        let _ = fs::remove_dir_all(&self.dir);
        let target = std::env::var("CARGO_TARGET_DIR").map(PathBuf::from).unwrap_or_else(|_| verif_dir().join("target"));
        for dir in ["debug", "debug/deps"] {
            let Ok(list) = fs::read_dir(target.join(dir)) else {
                continue;
            };
            for e in list.flatten() {
                if e.file_name().to_string_lossy().starts_with(&format!("gen_{}_", self.id)) {
                    let _ = fs::remove_file(e.path());
                }
            }
        }
    }
}

type Todo = Vec<(usize, usize, String)>;

fn run_bin(exe: PathBuf, file: PathBuf, mut todo: Todo) -> Vec<(usize, usize, Answer)> {
    let mut done = vec![];
    let mut lost = 0;
    // What is lost is reported; it need not be seen many times.
    while !todo.is_empty() && lost < 8 {
        let text: String = todo.iter().map(|t| t.2.as_str()).collect();
        let mut f = fs::File::create(&file).expect("asks");
        f.write_all(text.as_bytes()).expect("asks");
        drop(f);
        let out = Command::new("timeout")
            .args(["-s", "KILL", "10"])
            .arg(&exe)
            .arg(&file)
            .stdin(Stdio::null())
            .output()
            .expect("cannot run generated code");
        let stdout = String::from_utf8_lossy(&out.stdout).into_owned();
        let mut n = 0;
        for (line, (u, i, _)) in stdout.split_inclusive('\n').filter(|l| l.ends_with('\n')).zip(&todo) {
            let line = line.trim_end_matches('\n');
            let (kind, text) = line.split_once('\t').unwrap_or((line, ""));
            let text = unescape(text);
            done.push((
                *u,
                *i,
                match kind {
                    "ok" => Answer::Ok(text),
                    "err" => Answer::Err(text),
                    _ => Answer::Panic(text),
                },
            ));
            n += 1;
        }
        if n < todo.len() {
            let (u, i, _) = &todo[n];
            lost += 1;
            done.push((*u, *i, Answer::Lost(format!("the process ended with {}", out.status))));
            n += 1;
        }
        todo.drain(..n);
    }
    done
}
