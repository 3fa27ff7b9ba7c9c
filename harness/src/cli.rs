//! C22–C24: the command line tools, run as processes on scratch directories below out/.

use std::{
    collections::{BTreeMap, BTreeSet},
    ffi::{OsStr, OsString},
    fs,
    os::unix::ffi::{OsStrExt, OsStringExt},
    os::unix::fs::{symlink, MetadataExt, PermissionsExt},
    os::unix::process::ExitStatusExt,
    panic::{catch_unwind, AssertUnwindSafe},
    path::{Path, PathBuf},
    process::{Command, Stdio},
    sync::atomic::{AtomicUsize, Ordering},
    time::{Duration, Instant},
};

use crate::{
    core::{verif_dir, Ctx},
    gencheck::doc_words,
    model,
    rng::Rng,
    schema::{self, Knobs, Names, Schema, Tns},
    wsdl::{self, Shape},
};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Tool {
    Xsd,
    Wsdl,
}

impl Tool {
    fn exe(self) -> PathBuf {
        let target =
            std::env::var("CARGO_TARGET_DIR").map(PathBuf::from).unwrap_or_else(|_| verif_dir().join("target"));
        target.join("cli/debug").join(match self {
            Tool::Xsd => "xsd-parser",
            Tool::Wsdl => "wsdl-parser",
        })
    }

    fn defaults(self) -> (&'static str, &'static str) {
        match self {
            Tool::Xsd => ("input/xsd", "output/rs"),
            Tool::Wsdl => ("input/wsdl", "output/wsdl-rs"),
        }
    }
}

/// What the library generates.
fn expected(tool: Tool, text: &str) -> Result<String, String> {
    catch_unwind(AssertUnwindSafe(|| match tool {
        Tool::Xsd => {
            let rs = xsd_parser::parser::parse(text).map_err(|_| "an error".to_string())?;
            Ok(xsd_parser::generator::builder::GeneratorBuilder::default().build().generate_rs_file(&rs))
        }
        Tool::Wsdl => wsdl::code_of(text, true),
    }))
    .unwrap_or_else(|_| Err("a panic".into()))
}

struct Outcome {
    /// None: it was ended by a signal, or did not end in time
    code: Option<i32>,
    how: String,
    stdout: Vec<u8>,
    stderr: String,
}

enum Out {
    File,
    Full,
    ClosedPipe,
}

struct Run<'a> {
    tool: Tool,
    args: Vec<OsString>,
    cwd: &'a Path,
    io: &'a Path,
    env: Vec<(&'static str, OsString)>,
    out: Out,
}

impl Run<'_> {
    fn go(&self) -> Outcome {
        let (so, se) = (self.io.join("stdout"), self.io.join("stderr"));
        let mut c = Command::new(self.tool.exe());
        c.args(&self.args).current_dir(self.cwd).stdin(Stdio::null()).env("RUST_BACKTRACE", "0");
        for (k, v) in &self.env {
            c.env(k, v);
        }
        match self.out {
            Out::File => c.stdout(fs::File::create(&so).expect("stdout")),
            Out::Full => c.stdout(fs::OpenOptions::new().write(true).open("/dev/full").expect("/dev/full")),
            Out::ClosedPipe => {
                // Shut down, since a child which another thread is about to start may still have a
                // copy of a reader which is only dropped.
                let (reader, writer) = std::os::unix::net::UnixStream::pair().expect("pair");
                reader.shutdown(std::net::Shutdown::Both).expect("shutdown");
                drop(reader);
                c.stdout(std::os::fd::OwnedFd::from(writer))
            }
        };
        c.stderr(fs::File::create(&se).expect("stderr"));
        let mut child = c.spawn().expect("cannot run the tool");
        drop(c);
        let start = Instant::now();
        let status = loop {
            if let Some(s) = child.try_wait().expect("wait") {
                break Some(s);
            }
            if start.elapsed() > Duration::from_secs(60) {
                let _ = child.kill();
                let _ = child.wait();
                break None;
            }
            std::thread::sleep(Duration::from_millis(2));
        };
        Outcome {
            code: status.and_then(|s| s.code()),
            how: match status {
                None => "no end within 60 s".into(),
                Some(s) => match s.signal() {
                    Some(n) => format!("signal {n}"),
                    None => format!("status {}", s.code().unwrap_or(-1)),
                },
            },
            stdout: if matches!(self.out, Out::File) { fs::read(&so).unwrap_or_default() } else { vec![] },
            stderr: String::from_utf8_lossy(&fs::read(&se).unwrap_or_default()).chars().take(2000).collect(),
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
enum Entry {
    Dir,
    File(Vec<u8>),
    Link(PathBuf),
    Other,
}

fn snapshot(root: &Path) -> BTreeMap<PathBuf, Entry> {
    fn walk(dir: &Path, rel: &Path, map: &mut BTreeMap<PathBuf, Entry>) {
        let Ok(list) = fs::read_dir(dir) else { return };
        for e in list.flatten() {
            let (p, r) = (e.path(), rel.join(e.file_name()));
            let Ok(m) = fs::symlink_metadata(&p) else { continue };
            let t = m.file_type();
            if t.is_symlink() {
                map.insert(r, Entry::Link(fs::read_link(&p).unwrap_or_default()));
            } else if t.is_dir() {
                map.insert(r.clone(), Entry::Dir);
                walk(&p, &r, map);
            } else if t.is_file() {
                map.insert(r, Entry::File(fs::read(&p).unwrap_or_default()));
            } else {
                map.insert(r, Entry::Other);
            }
        }
    }
    let mut map = BTreeMap::new();
    walk(root, Path::new(""), &mut map);
    map
}

/// Modes and times of the inputs
fn stamps(root: &Path, of: &BTreeMap<PathBuf, Entry>) -> BTreeMap<PathBuf, (u32, i64, i64)> {
    of.iter()
        .filter(|(_, e)| !matches!(e, Entry::Dir))
        .filter_map(|(p, _)| fs::symlink_metadata(root.join(p)).ok().map(|m| (p.clone(), (m.mode(), m.mtime(), m.mtime_nsec()))))
        .collect()
}

fn show(p: &Path) -> String {
    format!("{:?}", p)
}

const NAMES: &[&[u8]] = &[
    b"a", b"b-2", b"types", b"t.1.2", b"with space", b"UPPER", b"devicemgmt.wsdl", b".hidden", b"-dash", b"--output",
    "größe".as_bytes(), "日本".as_bytes(), b"a'b\"c", b"x\xff\xfey", b"$HOME", b"*", b"new\nline", b"v1", b"rs", b"a.rs.x", b"con", b"_",
    b"a-very-long-name-which-goes-on-and-on-and-on-and-on-and-on-and-on-and-on-and-on-and-on-and-on-and-on-and-on-and-on",
];

const EXTENSIONS: &[&[u8]] = &[b".xsd", b".xsd", b".xml", b".wsdl", b".wsdl.xml", b".XSD", b""];

/// The name of the output of a file of that name: the last extension becomes rs.
fn output_name(name: &OsStr) -> OsString {
    let b = name.as_bytes();
    let stem = match b.iter().rposition(|&c| c == b'.') {
        Some(i) if i > 0 => &b[..i],
        _ => b,
    };
    let mut v = stem.to_vec();
    v.extend_from_slice(b".rs");
    OsString::from_vec(v)
}

fn knobs(r: &mut Rng) -> Knobs {
    Knobs {
        tops: match r.below(40) {
            0 => 150,
            1..=4 => 30,
            _ => r.below(6),
        },
        depth: 1 + r.below(3),
        docs: 15,
        names: *r.pick(&[Names::Tame, Names::Styled, Names::Hostile]),
        hostile_docs: r.chance(30),
        ..Knobs::default()
    }
}

/// A document which the library generates code for
fn content(r: &mut Rng, tool: Tool) -> (Vec<u8>, String) {
    loop {
        let mut text = match tool {
            Tool::Xsd => {
                let k = knobs(r);
                let s = schema::generate(r, &k);
                s.render(if r.chance(30) { None } else { Some(r.next()) })
            }
            Tool::Wsdl => document(r).0,
        };
        if r.chance(10) {
            text = text.replace('\n', "\r\n");
        }
        if r.chance(5) {
            text.push_str(&format!("<!-- {} -->", "x".repeat(r.below(300_000))));
        }
        if r.chance(5) {
            text.insert(0, '\u{feff}');
        }
        if let Ok(code) = expected(tool, &text) {
            return (text.into_bytes(), code);
        }
    }
}

// ---------------------------------------------------------------------------------------------

struct Scratch {
    root: PathBuf,
}

impl Scratch {
    fn new(base: &Path, n: usize) -> Self {
        let root = base.join(format!("case-{n}"));
        let _ = fs::remove_dir_all(&root);
        fs::create_dir_all(root.join("work")).expect("scratch");
        fs::create_dir_all(root.join("io")).expect("scratch");
        Scratch { root }
    }
    fn work(&self) -> PathBuf {
        self.root.join("work")
    }
    fn io(&self) -> PathBuf {
        self.root.join("io")
    }
}

#[derive(Default)]
struct Report {
    problems: Vec<(String, String)>,
    counts: BTreeMap<&'static str, u64>,
    key: String,
    sample: String,
    runs: u64,
}

impl Report {
    fn count(&mut self, k: &'static str, n: u64) {
        *self.counts.entry(k).or_insert(0) += n;
    }
    fn bad(&mut self, case: &str, text: String) {
        self.problems.push((case.to_string(), text));
    }
}

/// Runs the cases in parallel and reports in the order of their numbers.
fn parallel(ctx: &mut Ctx, n: usize, f: impl Fn(u64, &Scratch, &mut Report) + Sync) {
    let base = ctx.out.join("scratch");
    let _ = fs::remove_dir_all(&base);
    fs::create_dir_all(&base).expect("scratch");
    let seeds: Vec<u64> = (0..n).map(|_| ctx.rng.next()).collect();
    ctx.phase("running the tools", 880);
    let next = AtomicUsize::new(0);
    let failed = AtomicUsize::new(0);
    let mut reports: Vec<(usize, Report)> = std::thread::scope(|s| {
        let handles: Vec<_> = (0..8)
            .map(|_| {
                s.spawn(|| {
                    let mut v = vec![];
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n || failed.load(Ordering::Relaxed) > 12 {
                            return v;
                        }
                        let scratch = Scratch::new(&base, i);
                        let mut rep = Report::default();
                        f(seeds[i], &scratch, &mut rep);
                        if rep.problems.is_empty() {
                            let _ = fs::remove_dir_all(&scratch.root);
                        } else {
                            failed.fetch_add(1, Ordering::Relaxed);
                            for p in &mut rep.problems {
                                p.1.push_str(&format!("\n(the scratch directory: {})", scratch.root.display()));
                            }
                        }
                        v.push((i, rep));
                    }
                })
            })
            .collect();
        handles.into_iter().flat_map(|h| h.join().expect("worker")).collect()
    });
    ctx.phase("harness", 120);
    reports.sort_by_key(|r| r.0);
    for (_, r) in reports {
        ctx.evals += r.runs;
        for (k, n) in r.counts {
            ctx.add(k, n);
        }
        if !r.key.is_empty() {
            ctx.nontrivial(&r.key);
        }
        if !r.sample.is_empty() {
            let s = r.sample.clone();
            if ctx.samples.len() < 12 {
                ctx.samples.push(s.chars().take(600).collect());
            }
        }
        for (c, t) in r.problems {
            ctx.violation(&c, &t);
        }
    }
    if ctx.violations.is_empty() {
        let _ = fs::remove_dir_all(&base);
    }
}

fn fault_lib(ctx: &mut Ctx) -> PathBuf {
    let so = ctx.out.join("fault.so");
    let out = Command::new("gcc")
        .args(["-shared", "-fPIC", "-O1", "-o"])
        .arg(&so)
        .arg(verif_dir().join("tools/fault.c"))
        .arg("-ldl")
        .output()
        .expect("cannot run gcc");
    assert!(out.status.success(), "cannot compile the fault library: {}", String::from_utf8_lossy(&out.stderr));
    so
}

/// The counters which the fault library wrote: read, write, open, readdir, mkdir, short, eintr, fault
fn fault_counts(path: &Path) -> BTreeMap<String, u64> {
    let mut m = BTreeMap::new();
    let text = fs::read_to_string(path).unwrap_or_default();
    for line in text.lines() {
        let w: Vec<&str> = line.split(' ').collect();
        for p in w.chunks(2) {
            if let [k, n] = p {
                *m.entry(k.to_string()).or_insert(0) += n.parse::<u64>().unwrap_or(0);
            }
        }
    }
    m
}

// ---------------------------------------------------------------------------------------------

/// Input files by their path relative to the input directory
type Tree = BTreeMap<PathBuf, (Vec<u8>, String)>;

fn tree(r: &mut Rng, tool: Tool) -> (Tree, BTreeSet<PathBuf>) {
    let mut dirs: Vec<PathBuf> = vec![PathBuf::new()];
    for _ in 0..r.below(5) {
        let parent = r.pick(&dirs).clone();
        let name = OsString::from_vec(r.pick(NAMES).to_vec());
        let d = parent.join(&name);
        if !dirs.contains(&d) && d.components().count() < 5 {
            dirs.push(d);
        }
    }
    let mut t = Tree::new();
    let mut outputs: BTreeSet<PathBuf> = BTreeSet::new();
    for _ in 0..r.below(7) {
        let d = r.pick(&dirs).clone();
        let mut name = r.pick(NAMES).to_vec();
        name.extend_from_slice(r.pick(EXTENSIONS));
        let name = OsString::from_vec(name);
        let p = d.join(&name);
        let o = d.join(output_name(&name));
        // Neither the same output twice, nor a directory of that name
        if dirs.contains(&p) || dirs.contains(&o) || outputs.contains(&o) || t.contains_key(&p) {
            continue;
        }
        outputs.insert(o);
        t.insert(p, content(r, tool));
    }
    (t, dirs.into_iter().collect())
}

fn write_tree(root: &Path, t: &Tree, dirs: &BTreeSet<PathBuf>, r: &mut Rng, aside: &Path) {
    for d in dirs {
        fs::create_dir_all(root.join(d)).expect("tree");
    }
    for (i, (p, (text, _))) in t.iter().enumerate() {
        let at = root.join(p);
        if r.chance(10) {
            // A link to a file elsewhere
            fs::create_dir_all(aside).expect("tree");
            let real = aside.join(format!("real-{i}"));
            fs::write(&real, text).expect("tree");
            symlink(&real, &at).expect("tree");
        } else {
            fs::write(&at, text).expect("tree");
            if r.chance(10) {
                fs::set_permissions(&at, fs::Permissions::from_mode(0o444)).expect("tree");
            }
        }
    }
}

/// Options in one of their spellings
fn option(r: &mut Rng, short: &str, long: &str, value: &OsStr) -> Vec<OsString> {
    let joined = |prefix: String| {
        let mut o = OsString::from(prefix);
        o.push(value);
        vec![o]
    };
    match r.below(4) {
        0 => vec![short.into(), value.into()],
        1 => vec![long.into(), value.into()],
        2 => joined(format!("{long}=")),
        _ => joined(format!("{short}=")),
    }
}

/// A path as it may be given: absolute, relative, with a trailing slash or dots
fn spell(r: &mut Rng, base: &Path, rel: &Path, dir: bool) -> OsString {
    let mut s = match r.below(4) {
        0 => base.join(rel).into_os_string(),
        1 => Path::new(".").join(rel).into_os_string(),
        2 => Path::new("x/..").join(rel).into_os_string(),
        _ => rel.as_os_str().to_owned(),
    };
    if s.as_bytes().first() == Some(&b'-') {
        s = Path::new(".").join(rel).into_os_string();
    }
    if dir && r.chance(20) {
        s.push("/");
    }
    s
}

fn before(r: &mut Rng, code: &str) -> Option<Vec<u8>> {
    match r.below(6) {
        0 => Some(vec![]),
        1 => Some(b"old content".to_vec()),
        2 => Some({
            let mut v = code.as_bytes().to_vec();
            v.extend_from_slice(&vec![b'#'; 1 + r.below(5000)]);
            v
        }),
        3 => Some(vec![b'z'; code.len()]),
        _ => None,
    }
}

pub fn c23(ctx: &mut Ctx) {
    ctx.rule = "a run of one of the tools on a directory tree or file, distinct in the tool, the arguments and the inputs; \
                everything below the working directory is compared before and after"
        .into();
    let so = fault_lib(ctx);
    let n = ctx.scale(1500, 60000);
    parallel(ctx, n, |seed, scratch, rep| c23_case(seed, scratch, rep, &so));
    c23_corpus(ctx);
    c23_probes(ctx);
}

fn c23_case(seed: u64, scratch: &Scratch, rep: &mut Report, so: &Path) {
    let mut r = Rng::new(seed, "c23");
    let r = &mut r;
    let tool = r.either(60, Tool::Xsd, Tool::Wsdl);
    let work = scratch.work();
    fs::create_dir_all(work.join("x")).expect("x");
    let mut env: Vec<(&'static str, OsString)> = vec![];
    let log = scratch.io().join("log");
    if r.chance(35) {
        env.push(("LD_PRELOAD", so.into()));
        env.push(("FI_ROOT", work.clone().into()));
        env.push(("FI_STDOUT", "1".into()));
        env.push(("FI_LOG", log.clone().into()));
        if r.chance(70) {
            env.push(("FI_SHORT", r.pick(&["1", "7", "100", "4000", "30000"]).into()));
        }
        if r.chance(60) {
            env.push(("FI_EINTR", r.pick(&["2", "3", "10"]).into()));
        }
    }
    let mut args: Vec<OsString> = vec![];
    // (path below work, content) of what has to be there afterwards
    let mut want: BTreeMap<PathBuf, Vec<u8>> = BTreeMap::new();
    let mut want_stdout: Option<String> = None;
    let mode = r.below(10);
    let mut described = String::new();
    let out_dir: Option<PathBuf>;
    if mode < 6 {
        // A directory
        let (t, dirs) = tree(r, tool);
        let defaults = mode == 0;
        let (input, output) = if defaults {
            let (i, o) = tool.defaults();
            (PathBuf::from(i), PathBuf::from(o))
        } else {
            let i = OsString::from_vec(r.pick(NAMES).to_vec());
            let i = PathBuf::from("in").join(i);
            // The output may be inside of the input
            let o = match r.below(10) {
                0 => i.join("generated-output"),
                1 => PathBuf::from("a/b/c"),
                _ => PathBuf::from("out").join(OsString::from_vec(r.pick(NAMES).to_vec())),
            };
            (i, o)
        };
        fs::create_dir_all(work.join(&input)).expect("input");
        write_tree(&work.join(&input), &t, &dirs, r, &work.join("aside"));
        let existing = r.chance(50);
        if existing {
            fs::create_dir_all(work.join(&output)).expect("output");
        }
        for (p, (_, code)) in &t {
            let o = output.join(p.parent().unwrap_or(Path::new(""))).join(output_name(p.file_name().unwrap()));
            if existing {
                if let Some(old) = before(r, code) {
                    fs::create_dir_all(work.join(&o).parent().unwrap()).expect("output");
                    fs::write(work.join(&o), old).expect("output");
                }
            }
            want.insert(o, code.clone().into_bytes());
        }
        if existing && r.chance(30) {
            fs::write(work.join(&output).join("unrelated.txt"), "keep me").expect("output");
        }
        if !defaults {
            let i = spell(r, &work, &input, true);
            args.extend(option(r, "-i", "--input", &i));
            let o = spell(r, &work, &output, true);
            let mut oa = option(r, "-o", "--output", &o);
            if r.chance(50) {
                args.append(&mut oa);
            } else {
                oa.append(&mut args);
                args = oa;
            }
        }
        rep.count("directory runs", 1);
        rep.count("files converted", t.len() as u64);
        rep.count("directories walked", dirs.len() as u64);
        described.push_str(&format!("{} files in {} directories", t.len(), dirs.len()));
        out_dir = Some(output);
    } else {
        let (text, code) = content(r, tool);
        let mut name = r.pick(NAMES).to_vec();
        name.extend_from_slice(r.pick(EXTENSIONS));
        let input = PathBuf::from("in").join(OsString::from_vec(name));
        fs::create_dir_all(work.join("in")).expect("in");
        fs::write(work.join(&input), &text).expect("in");
        let i = spell(r, &work, &input, false);
        args.extend(option(r, "-i", "--input", &i));
        if mode < 8 {
            let name = r.pick(&["out.rs", "mod.rs", "o", "sub/x.rs", "a.b.c"]);
            let o = PathBuf::from("out").join(name);
            fs::create_dir_all(work.join(&o).parent().unwrap()).expect("out");
            if let Some(old) = before(r, &code) {
                fs::write(work.join(&o), old).expect("out");
            }
            let s = spell(r, &work, &o, false);
            args.extend(option(r, "-o", "--output", &s));
            want.insert(o, code.into_bytes());
            rep.count("files to a file", 1);
        } else {
            want_stdout = Some(code);
            rep.count("files to the standard output", 1);
        }
        described.push_str("one file");
        out_dir = None;
    }
    let first = snapshot(&work);
    let times = stamps(&work, &first);
    let times_of = |p: &Path| times.get(p).copied();
    let run = Run { tool, args: args.clone(), cwd: &work, io: &scratch.io(), env: env.clone(), out: Out::File };
    let rounds = if r.chance(15) { 2 } else { 1 };
    for round in 0..rounds {
        let _ = fs::remove_file(&log);
        let o = run.go();
        rep.runs += 1;
        let last = snapshot(&work);
        let bad = |rep: &mut Report, case: &str, text: String| {
            rep.bad(
                case,
                format!("{text}\nround {round} of {tool:?} {args:?} {env:?}: {}\nstandard error: {}", o.how, o.stderr),
            )
        };
        if o.code != Some(0) {
            bad(rep, "status", "the tool fails for valid inputs".into());
            break;
        }
        for (p, content) in &want {
            match last.get(p) {
                Some(Entry::File(c)) if c == content => {
                    rep.count("outputs compared", 1);
                    rep.count("bytes compared", c.len() as u64);
                }
                Some(Entry::File(c)) => bad(
                    rep,
                    "content",
                    format!(
                        "{} is not what the library generates: {} bytes instead of {}, {}",
                        show(p),
                        c.len(),
                        content.len(),
                        crate::gencheck::first_difference(&String::from_utf8_lossy(c), &String::from_utf8_lossy(content))
                    ),
                ),
                e => bad(rep, "missing", format!("there is no output {}: {e:?}", show(p))),
            }
        }
        match &want_stdout {
            Some(code) => {
                let text = String::from_utf8_lossy(&o.stdout);
                rep.count("outputs compared", 1);
                if text.trim_end_matches('\n') != code.trim_end_matches('\n') {
                    bad(
                        rep,
                        "stdout",
                        format!(
                            "the standard output is not what the library generates: {}",
                            crate::gencheck::first_difference(&text, code)
                        ),
                    );
                }
            }
            None => {
                if !o.stdout.is_empty() {
                    rep.count("runs with other standard output", 1);
                }
            }
        }
        // Nothing else changed
        for (p, e) in &last {
            if want.contains_key(p) {
                continue;
            }
            match first.get(p) {
                Some(f) if f == e => {
                    let now = fs::symlink_metadata(work.join(p)).ok().map(|m| (m.mode(), m.mtime(), m.mtime_nsec()));
                    if times_of(p).is_some() && now != times_of(p) {
                        bad(rep, "touched", format!("{} was written to", show(p)));
                    }
                }
                Some(_) => bad(rep, "changed", format!("{} was changed", show(p))),
                None => {
                    let inside = out_dir.as_ref().is_some_and(|d| p.starts_with(d) || d.starts_with(p));
                    if !(inside && *e == Entry::Dir) {
                        bad(rep, "extra", format!("{} was created", show(p)));
                    }
                }
            }
        }
        for p in first.keys() {
            if !last.contains_key(p) {
                bad(rep, "removed", format!("{} was removed", show(p)));
            }
        }
        for (k, n) in fault_counts(&log) {
            match k.as_str() {
                "short" => rep.count("short reads and writes", n),
                "eintr" => rep.count("interrupted calls", n),
                "read" => rep.count("reads seen", n),
                "write" => rep.count("writes seen", n),
                _ => (),
            }
        }
    }
    rep.key = format!("{seed}");
    rep.sample = format!("{tool:?} {args:?} {env:?}: {described}");
}

/// The schemas and services which come with the repository
fn c23_corpus(ctx: &mut Ctx) {
    let repo = PathBuf::from(std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into()));
    let base = ctx.out.join("corpus");
    for (tool, dir) in [(Tool::Xsd, "input/xsd"), (Tool::Xsd, "input/xsd_external"), (Tool::Wsdl, "input/wsdl")] {
        let _ = fs::remove_dir_all(&base);
        fs::create_dir_all(base.join("io")).expect("corpus");
        ctx.phase("the corpus", 300);
        let input = repo.join(dir);
        let files = snapshot(&input);
        let run = Run {
            tool,
            args: vec!["-i".into(), input.clone().into(), "-o".into(), base.join("out").into()],
            cwd: &base,
            io: &base.join("io"),
            env: vec![],
            out: Out::File,
        };
        let o = run.go();
        ctx.evals += 1;
        if o.code != Some(0) {
            ctx.violation("corpus", &format!("{tool:?} fails for {dir}: {}\n{}", o.how, o.stderr));
        }
        let have = snapshot(&base.join("out"));
        for (p, e) in &files {
            let Entry::File(text) = e else { continue };
            let Ok(code) = expected(tool, &String::from_utf8_lossy(text)) else { continue };
            let q = p.with_file_name(output_name(p.file_name().unwrap()));
            ctx.count("files of the repository");
            if have.get(&q) != Some(&Entry::File(code.into_bytes())) {
                ctx.violation("corpus", &format!("the output of {dir}/{} is not the one of the library", show(p)));
            }
        }
        ctx.nontrivial(dir);
    }
    ctx.phase("harness", 120);
    let _ = fs::remove_dir_all(&base);
}

fn c23_probes(ctx: &mut Ctx) {
    let base = ctx.out.join("probe");
    let _ = fs::remove_dir_all(&base);
    fs::create_dir_all(base.join("io")).expect("probe");
    fs::create_dir_all(base.join("in")).expect("probe");
    let doc = |n: &str| {
        format!("<xs:schema xmlns:xs=\"http://www.w3.org/2001/XMLSchema\"><xs:complexType name=\"{n}\"/></xs:schema>")
    };
    fs::write(base.join("in/a.xsd"), doc("One")).expect("probe");
    fs::write(base.join("in/a.xml"), doc("Two")).expect("probe");
    let run = Run {
        tool: Tool::Xsd,
        args: vec!["-i".into(), "in".into(), "-o".into(), "out".into()],
        cwd: &base,
        io: &base.join("io"),
        env: vec![],
        out: Out::File,
    };
    let o = run.go();
    ctx.evals += 1;
    let outputs = snapshot(&base.join("out"));
    if o.code == Some(0) && outputs.len() < 2 {
        ctx.violation("same-output", "two inputs which differ in their extensions have one output; one is lost without a message");
    }
    let _ = fs::remove_dir_all(&base);
}

// ---------------------------------------------------------------------------------------------

/// A text which is not well-formed by construction, made from a well-formed one
pub fn damage(r: &mut Rng, text: &str) -> (&'static str, Vec<u8>) {
    let body = text.trim_end();
    // The end tag of the root
    let end = body.rfind("</").unwrap_or(body.len() - 2);
    let chars: Vec<usize> = body.char_indices().map(|(i, _)| i).filter(|&i| i <= end).collect();
    let cut = *r.pick(&chars);
    match r.below(13) {
        0 => ("truncated", body.as_bytes()[..cut].to_vec()),
        1 => ("truncated in the last tag", body.as_bytes()[..body.rfind('>').unwrap_or(1)].to_vec()),
        2 => ("a second root", format!("{body}<second/>").into_bytes()),
        3 => ("text after the root", format!("{body} text").into_bytes()),
        4 => ("another end tag", format!("{body}</more>").into_bytes()),
        5 => ("a bare ampersand", format!("{} & {}", &body[..end], &body[end..]).into_bytes()),
        6 => ("a bare less-than sign", format!("{} < {}", &body[..end], &body[end..]).into_bytes()),
        7 => ("an unknown entity", format!("{}&unknown;{}", &body[..end], &body[end..]).into_bytes()),
        8 => ("a control character", format!("{}\u{1}{}", &body[..end], &body[end..]).into_bytes()),
        9 => ("an unclosed element", format!("{}<open>{}", &body[..end], &body[end..]).into_bytes()),
        10 => ("a repeated attribute", format!("{}<x a=\"1\" a=\"2\"/>{}", &body[..end], &body[end..]).into_bytes()),
        11 => ("an undeclared prefix", format!("{}<undeclared:x/>{}", &body[..end], &body[end..]).into_bytes()),
        _ => ("an unclosed comment", format!("{}<!-- {}", &body[..end], &body[end..]).into_bytes()),
    }
}

fn is_ill_formed(bytes: &[u8]) -> bool {
    match std::str::from_utf8(bytes) {
        Ok(t) => roxmltree::Document::parse(t).is_err(),
        Err(_) => true,
    }
}

fn not_utf8(r: &mut Rng, text: &str) -> (&'static str, Vec<u8>) {
    let mut b = text.as_bytes().to_vec();
    match r.below(4) {
        0 => ("UTF-16", text.encode_utf16().flat_map(|u| u.to_le_bytes()).collect()),
        1 => {
            b.push(0xff);
            ("a bad last byte", b)
        }
        2 => {
            let n = text.find("name=\"").map(|i| i + 6).unwrap_or(b.len() / 2);
            b.insert(n, *r.pick(&[0xff, 0xc3, 0xe9, 0x80]));
            if std::str::from_utf8(&b).is_ok() {
                b.insert(n, 0xff);
            }
            ("a bad byte in a name", b)
        }
        _ => {
            b.extend_from_slice(b"<!-- \xe4 -->");
            ("a Latin-1 comment", b)
        }
    }
}

pub fn c24(ctx: &mut Ctx) {
    ctx.rule = "a run of one of the tools with at least one input or output that fails, distinct in the tool, the kind of the \
                failure and its position and the message"
        .into();
    let so = fault_lib(ctx);
    let n = ctx.scale(1500, 60000);
    parallel(ctx, n, |seed, scratch, rep| {
        let mut r = Rng::new(seed, "c24");
        match r.below(10) {
            0..=3 => c24_input(&mut r, scratch, rep, &so),
            4..=5 => c24_output(&mut r, scratch, rep, &so),
            6..=7 => c24_dir(&mut r, scratch, rep, &so),
            _ => c24_sweep(&mut r, scratch, rep, &so),
        }
        rep.key = rep.sample.clone();
    });
}

/// Things which have to be true of every failed run
fn failed(rep: &mut Report, o: &Outcome, what: &str) -> bool {
    rep.runs += 1;
    let mut fine = true;
    if !matches!(o.code, Some(c) if c != 0) {
        rep.bad("status", format!("{what}: the tool does not fail in an orderly way: {}\n{}", o.how, o.stderr));
        fine = false;
    }
    if o.stderr.trim().is_empty() {
        rep.bad("message", format!("{what}: there is no message ({})", o.how));
        fine = false;
    }
    fine
}

fn unchanged(rep: &mut Report, first: &BTreeMap<PathBuf, Entry>, work: &Path, may: impl Fn(&Path, &Entry) -> bool, what: &str) {
    let last = snapshot(work);
    for (p, e) in &last {
        if first.get(p) != Some(e) && !may(p, e) {
            let n = if let Entry::File(c) = e { c.len() } else { 0 };
            rep.bad("changed", format!("{what}: {} was created or changed ({n} bytes)", show(p)));
        }
    }
    for p in first.keys() {
        if !last.contains_key(p) {
            rep.bad("removed", format!("{what}: {} was removed", show(p)));
        }
    }
    rep.count("files compared", last.len() as u64);
}

/// A single input which fails
fn c24_input(r: &mut Rng, scratch: &Scratch, rep: &mut Report, so: &Path) {
    let tool = r.either(60, Tool::Xsd, Tool::Wsdl);
    let work = scratch.work();
    let (text, code) = content(r, tool);
    let text = String::from_utf8(text).unwrap();
    let input = work.join("in.xml");
    let mut env: Vec<(&'static str, OsString)> = vec![];
    let kind = match r.below(20) {
        0 => "missing",
        1 => {
            symlink(work.join("nowhere"), &input).expect("link");
            "a dangling link"
        }
        2 => {
            symlink(&input, &input).expect("link");
            "a link to itself"
        }
        3 => {
            symlink("/proc/self/mem", &input).expect("link");
            "unreadable"
        }
        4 => {
            fs::write(&input, "").expect("in");
            "empty"
        }
        5 => {
            fs::write(&input, r.pick(&[" ", "\n", "text", "<!-- only -->", "<?xml version=\"1.0\"?>", "\u{feff}", "{}", "\0"])).expect("in");
            "without an element"
        }
        6 | 7 => {
            let (k, b) = not_utf8(r, &text);
            fs::write(&input, b).expect("in");
            k
        }
        8 | 9 => {
            fs::write(&input, &text).expect("in");
            env.push(("LD_PRELOAD", so.into()));
            env.push(("FI_ROOT", work.clone().into()));
            if r.chance(50) {
                env.push(("FI_OPEN", "1".into()));
                "refused"
            } else {
                env.push(("FI_READ", r.pick(&["1", "2"]).into()));
                env.push(("FI_SHORT", "100".into()));
                "a failing read"
            }
        }
        _ => {
            let (k, b) = loop {
                let (k, b) = damage(r, &text);
                if is_ill_formed(&b) {
                    break (k, b);
                }
            };
            fs::write(&input, b).expect("in");
            k
        }
    };
    let mut args: Vec<OsString> = vec!["-i".into(), input.clone().into()];
    let to_file = r.chance(75);
    if to_file {
        let o = work.join("out.rs");
        if let Some(old) = before(r, &code) {
            fs::write(&o, old).expect("out");
        }
        args.extend(["-o".into(), o.into()]);
    }
    let first = snapshot(&work);
    let run = Run { tool, args, cwd: &work, io: &scratch.io(), env, out: Out::File };
    let o = run.go();
    let what = format!("{tool:?} with an input which is {kind}");
    failed(rep, &o, &what);
    if !o.stdout.is_empty() {
        rep.bad("stdout", format!("{what}: {} bytes of output", o.stdout.len()));
    }
    unchanged(rep, &first, &work, |_, _| false, &what);
    rep.count("failing inputs", 1);
    rep.sample = format!("{what} -> {}: {}", o.how, o.stderr.lines().next().unwrap_or(""));
}

/// A single output which fails
fn c24_output(r: &mut Rng, scratch: &Scratch, rep: &mut Report, so: &Path) {
    let tool = r.either(60, Tool::Xsd, Tool::Wsdl);
    let work = scratch.work();
    let (text, code) = loop {
        let (text, code) = content(r, tool);
        // An empty text may not be written at all
        if !code.trim().is_empty() {
            break (text, code);
        }
    };
    let input = work.join("in.xml");
    fs::write(&input, &text).expect("in");
    let mut args: Vec<OsString> = vec!["-i".into(), input.into()];
    let mut env: Vec<(&'static str, OsString)> = vec![];
    let mut out = Out::File;
    let target = work.join("out.rs");
    let mut to = Some(target.clone());
    let mut may_change = false;
    let kind = match r.below(9) {
        0 => {
            to = Some(work.join("no/such/dir/out.rs"));
            "in a missing directory"
        }
        1 => {
            fs::create_dir_all(&target).expect("out");
            "a directory"
        }
        2 => {
            fs::write(work.join("file"), "x").expect("out");
            to = Some(work.join("file/out.rs"));
            "below a file"
        }
        3 => {
            symlink("/dev/full", &target).expect("out");
            "a full device"
        }
        4 => {
            to = Some(work.join("n".repeat(300)));
            "a name which is too long"
        }
        5 => {
            to = None;
            out = Out::Full;
            "a full standard output"
        }
        6 => {
            to = None;
            out = Out::ClosedPipe;
            "a closed pipe"
        }
        7 => {
            if let Some(old) = before(r, &code) {
                fs::write(&target, old).expect("out");
            }
            env.push(("LD_PRELOAD", so.into()));
            env.push(("FI_ROOT", work.clone().into()));
            env.push(("FI_OPEN", "2".into()));
            "refused"
        }
        _ => {
            if let Some(old) = before(r, &code) {
                fs::write(&target, old).expect("out");
            }
            env.push(("LD_PRELOAD", so.into()));
            env.push(("FI_ROOT", work.clone().into()));
            env.push(("FI_STDOUT", "1".into()));
            let at = if code.len() > 20 { r.pick(&["1", "2", "3"]) } else { "1" };
            env.push(("FI_WRITE", at.into()));
            env.push(("FI_SHORT", "5".into()));
            may_change = true;
            if r.chance(30) {
                to = None;
                "a standard output which gets full"
            } else {
                "a file system which gets full"
            }
        }
    };
    if let Some(t) = to {
        args.extend(["-o".into(), t.into()]);
    }
    let first = snapshot(&work);
    let run = Run { tool, args, cwd: &work, io: &scratch.io(), env, out };
    let o = run.go();
    let what = format!("{tool:?} with an output which is {kind}");
    failed(rep, &o, &what);
    unchanged(rep, &first, &work, |p, _| may_change && p == Path::new("out.rs"), &what);
    rep.count("failing outputs", 1);
    rep.sample = format!("{what} -> {}: {}", o.how, o.stderr.lines().next().unwrap_or(""));
}

/// A directory some of whose inputs fail
fn c24_dir(r: &mut Rng, scratch: &Scratch, rep: &mut Report, so: &Path) {
    let tool = r.either(60, Tool::Xsd, Tool::Wsdl);
    let work = scratch.work();
    let (t, dirs) = loop {
        let (t, d) = tree(r, tool);
        if !t.is_empty() {
            break (t, d);
        }
    };
    let input = work.join("in");
    fs::create_dir_all(&input).expect("in");
    write_tree(&input, &t, &dirs, r, &work.join("aside"));
    let mut env: Vec<(&'static str, OsString)> = vec![];
    let mut bad: BTreeSet<PathBuf> = BTreeSet::new();
    let paths: Vec<PathBuf> = t.keys().cloned().collect();
    let output = work.join("out");
    let mut kind = String::new();
    let faulty_fs = r.chance(20);
    if faulty_fs {
        env.push(("LD_PRELOAD", so.into()));
        env.push(("FI_ROOT", work.clone().into()));
        // Each directory has its two dots
        let entries = t.len() + dirs.len() - 1 + 2 * dirs.len();
        if r.chance(60) {
            env.push(("FI_READDIR", (1 + r.below(entries)).to_string().into()));
            kind.push_str("a directory which cannot be read");
        } else {
            env.push(("FI_MKDIR", "1".into()));
            kind.push_str("a directory which cannot be created");
        }
    } else {
        for _ in 0..1 + r.below(2) {
            let p = r.pick(&paths).clone();
            let at = input.join(&p);
            let _ = fs::remove_file(&at);
            let text = String::from_utf8(t[&p].0.clone()).unwrap();
            match r.below(5) {
                0 => {
                    symlink(work.join("nowhere"), &at).expect("link");
                    kind.push_str("a dangling link, ");
                }
                1 => {
                    let (k, b) = not_utf8(r, &text);
                    fs::write(&at, b).expect("in");
                    kind.push_str(k);
                }
                2 => {
                    fs::write(&at, "").expect("in");
                    kind.push_str("empty, ");
                }
                _ => loop {
                    let (k, b) = damage(r, &text);
                    if is_ill_formed(&b) {
                        fs::write(&at, b).expect("in");
                        kind.push_str(k);
                        break;
                    }
                },
            }
            bad.insert(p);
        }
    }
    let place = |p: &Path| Path::new("out").join(p.parent().unwrap_or(Path::new(""))).join(output_name(p.file_name().unwrap()));
    if r.chance(50) && !faulty_fs {
        for (p, (_, code)) in &t {
            if let Some(old) = before(r, code) {
                let o = work.join(place(p));
                fs::create_dir_all(o.parent().unwrap()).expect("out");
                fs::write(o, old).expect("out");
            }
        }
    }
    let first = snapshot(&work);
    let run = Run {
        tool,
        args: vec!["-i".into(), input.into(), "-o".into(), output.into()],
        cwd: &work,
        io: &scratch.io(),
        env,
        out: Out::File,
    };
    let o = run.go();
    let what = format!("{tool:?} with a directory of {} files, with failing {:?}: {kind}", t.len(), bad);
    failed(rep, &o, &what);
    // The other outputs are complete, or as they were
    let good: BTreeMap<PathBuf, &[u8]> =
        t.iter().filter(|(p, _)| !bad.contains(*p)).map(|(p, (_, code))| (place(p), code.as_bytes())).collect();
    unchanged(
        rep,
        &first,
        &work,
        |p, e| match e {
            Entry::Dir => p.starts_with("out"),
            Entry::File(c) => good.get(p).is_some_and(|g| *g == &c[..]),
            _ => false,
        },
        &what,
    );
    rep.count("failing directories", 1);
    rep.sample = format!("{what} -> {}: {}", o.how, o.stderr.lines().next().unwrap_or(""));
}

/// Every call of a run fails once.
fn c24_sweep(r: &mut Rng, scratch: &Scratch, rep: &mut Report, so: &Path) {
    let tool = r.either(60, Tool::Xsd, Tool::Wsdl);
    let work = scratch.work();
    let (t, dirs) = loop {
        let (t, d) = tree(r, tool);
        if !t.is_empty() && t.values().all(|c| !c.1.trim().is_empty() && c.1.len() < 60_000 && c.0.len() < 60_000) {
            break (t, d);
        }
    };
    let place = |p: &Path| Path::new("out").join(p.parent().unwrap_or(Path::new(""))).join(output_name(p.file_name().unwrap()));
    let mut env: Vec<(&'static str, OsString)> = vec![
        ("LD_PRELOAD", so.into()),
        ("FI_ROOT", work.clone().into()),
        ("FI_LOG", scratch.io().join("log").into()),
        ("FI_SHORT", "9000".into()),
    ];
    let input = work.join("in");
    fs::create_dir_all(&input).expect("in");
    write_tree(&input, &t, &dirs, r, &work.join("aside"));
    let first = snapshot(&work);
    let go = |env: &Vec<(&'static str, OsString)>| {
        let _ = fs::remove_dir_all(work.join("out"));
        let _ = fs::remove_file(scratch.io().join("log"));
        Run {
            tool,
            args: vec!["-i".into(), "in".into(), "-o".into(), "out".into()],
            cwd: &work,
            io: &scratch.io(),
            env: env.clone(),
            out: Out::File,
        }
        .go()
    };
    let o = go(&env);
    rep.runs += 1;
    if o.code != Some(0) {
        rep.bad("status", format!("{tool:?} fails without a fault: {}\n{}", o.how, o.stderr));
        return;
    }
    let counts = fault_counts(&scratch.io().join("log"));
    for (name, key) in [("FI_READ", "read"), ("FI_WRITE", "write"), ("FI_OPEN", "open"), ("FI_READDIR", "readdir"), ("FI_MKDIR", "mkdir")] {
        let total = counts.get(key).copied().unwrap_or(0) as usize;
        let picks: Vec<usize> = if total <= 6 { (1..=total).collect() } else { (0..6).map(|_| 1 + r.below(total)).collect() };
        for n in picks {
            env.push((name, n.to_string().into()));
            let o = go(&env);
            env.pop();
            let hit = fault_counts(&scratch.io().join("log")).get("fault").copied().unwrap_or(0);
            if hit == 0 {
                rep.count("faults which did not happen", 1);
                continue;
            }
            rep.count("injected faults", 1);
            let what = format!("{tool:?} with {} files and a failure of {key} {n} of {total}", t.len());
            failed(rep, &o, &what);
            unchanged(
                rep,
                &first,
                &work,
                |p, e| {
                    p.starts_with("out")
                        && match e {
                            Entry::Dir => true,
                            // What is being written when the device gets full is incomplete.
                            Entry::File(c) => {
                                t.iter().any(|(i, (_, code))| {
                                    place(i) == *p && (code.as_bytes() == &c[..] || (key == "write" && code.as_bytes().starts_with(c)))
                                })
                            }
                            _ => false,
                        }
                },
                &what,
            );
            // At most the last output is incomplete.
            if key == "write" {
                let last = snapshot(&work.join("out"));
                let partial = t
                    .iter()
                    .filter(|(i, (_, code))| {
                        let q = place(i);
                        matches!(last.get(q.strip_prefix("out").unwrap()), Some(Entry::File(c)) if code.as_bytes() != &c[..])
                    })
                    .count();
                if partial > 1 {
                    rep.bad("partial", format!("{what}: {partial} outputs are incomplete"));
                }
            }
        }
    }
    rep.count("sweeps", 1);
    rep.sample = format!("{tool:?}: every call of a run with {} files fails once: {counts:?}", t.len());
}

// ---------------------------------------------------------------------------------------------

/// A WSDL document with schemas, and each of these on its own with the namespaces in its scope
fn document(r: &mut Rng) -> (String, Vec<String>, wsdl::Wsdl) {
    let mut schemas: Vec<Schema> = vec![];
    let mut moved: Vec<Vec<(String, String)>> = vec![];
    for _ in 0..r.below(4) {
        let k = Knobs { tops: r.below(7), foreign: r.either(60, 0, 15), ..knobs(r) };
        let s = schema::generate(r, &k);
        schemas.push(s);
    }
    let shape = Shape {
        names: *r.pick(&[Names::Tame, Names::Styled]),
        docs: 20,
        hostile_docs: r.chance(30),
        foreign: 20,
        ports: 2,
        ops: 4,
        parts: 20,
        overloads: 0,
    };
    let mut w = wsdl::generate(r, &shape, vec![], &[], None);
    // Names without a prefix must not become ones of another namespace.
    if schemas.iter().any(|s| s.tns == Tns::None) {
        if let Tns::Default(u) = &w.tns {
            w.tns = Tns::Prefixed("wtns".into(), u.clone());
            for p in w.messages.iter_mut().flat_map(|m| &mut m.parts) {
                p.prefix.get_or_insert_with(|| "wtns".into());
            }
        }
        if w.prefix.is_empty() {
            w.prefix = "wsdl".into();
        }
    }
    let mut scope: BTreeMap<String, String> = w.foreign.iter().cloned().collect();
    scope.insert("soap".into(), "http://schemas.xmlsoap.org/wsdl/soap12/".into());
    scope.insert(w.prefix.clone(), "http://schemas.xmlsoap.org/wsdl/".into());
    match &w.tns {
        Tns::Prefixed(p, u) => {
            scope.insert(p.clone(), u.clone());
        }
        Tns::Default(u) => {
            scope.insert(String::new(), u.clone());
        }
        Tns::None => (),
    }
    // Some declarations of the schemas move to the outer element.
    let mut outer: Vec<(String, String)> = vec![];
    for s in &mut schemas {
        let mut own: Vec<(String, String)> = s.foreign.clone();
        if !s.xsd.is_empty() {
            own.push((s.xsd.clone(), "http://www.w3.org/2001/XMLSchema".into()));
        }
        if let Tns::Prefixed(p, u) = &s.tns {
            own.push((p.clone(), u.clone()));
        }
        // A second prefix of the same namespace in the scope is a known limit.
        let mut m = vec![];
        for (p, u) in own {
            let taken = scope.get(&p).is_some_and(|x| *x != u);
            let again = scope.iter().any(|(q, x)| *x == u && *q != p);
            if r.chance(50) && !taken && !again {
                scope.insert(p.clone(), u.clone());
                if !outer.iter().any(|o| o.0 == p) && !w.foreign.iter().any(|o| o.0 == p) && !matches!(&w.tns, Tns::Prefixed(q, _) if *q == p) {
                    outer.push((p.clone(), u.clone()));
                }
                m.push((p, u));
            }
        }
        moved.push(m);
    }
    let mut embedded = vec![];
    for (s, m) in schemas.iter_mut().zip(&moved) {
        // One without declarations of its own, maybe with imports
        if r.chance(6) {
            s.tops.retain(|t| matches!(t.kind, schema::TopKind::Import { .. }));
            if s.tops.is_empty() && r.chance(70) {
                let kind = schema::TopKind::Import { uri: "urn:elsewhere".into(), location: "b.xsd".into() };
                s.tops.push(schema::Top { name: String::new(), doc: None, kind });
            }
        }
        let noise = if r.chance(60) { Some(r.next()) } else { None };
        let full = s.render_embedded(noise, 2);
        let mut short = full;
        for (p, u) in m {
            for q in ['"', '\''] {
                // The first occurrence is the one of the schema element.
                let decl = format!("xmlns:{p}={q}{}{q}", schema::esc_attr(u));
                if let Some(i) = short.find(&decl) {
                    short.replace_range(i..i + decl.len(), "");
                    break;
                }
            }
        }
        embedded.push(short);
    }
    let xml = w.render_with(r.chance(70), &embedded, &outer);
    // On its own, a schema has the declarations of all that is around it as well.
    let doc = roxmltree::Document::parse(&xml).unwrap_or_else(|e| panic!("the harness wrote a bad document: {e}\n{xml}"));
    let nodes: Vec<_> =
        doc.descendants().filter(|n| n.tag_name().name() == "schema" && n.parent().is_some_and(|p| p.tag_name().name() == "types")).collect();
    let alone = nodes.iter().map(|n| standalone(&xml, n)).collect();
    (xml, alone, w)
}

/// The text of an inner element as a document, with the namespaces in its scope
fn standalone(xml: &str, n: &roxmltree::Node) -> String {
    let text = &xml[n.range()];
    let tag_end = {
        // The first > outside of quotes
        let mut quote = None;
        text.char_indices()
            .find(|(_, c)| {
                match quote {
                    Some(q) if *c == q => quote = None,
                    Some(_) => (),
                    None if *c == '"' || *c == '\'' => quote = Some(*c),
                    None => return *c == '>',
                }
                false
            })
            .map(|x| x.0)
            .unwrap_or(text.len())
    };
    let tag = &text[..tag_end];
    let mut add = String::new();
    for ns in n.namespaces() {
        let decl = match ns.name() {
            Some("xml") => continue,
            Some(p) => format!("xmlns:{p}"),
            None => "xmlns".to_string(),
        };
        let there = tag.split(|c: char| c.is_whitespace()).any(|w| w.starts_with(&format!("{decl}=")));
        if !there {
            add.push_str(&format!(" {decl}=\"{}\"", schema::esc_attr(ns.uri())));
        }
    }
    // After its own ones, which is the order in which the parser of XML lists them
    let at = if tag.ends_with('/') { tag_end - 1 } else { tag_end };
    format!("{}{add}{}", &text[..at], &text[at..])
}

fn tokens(code: &str) -> Result<Vec<String>, String> {
    fn walk(t: proc_macro2::TokenStream, v: &mut Vec<String>) {
        for t in t {
            match t {
                proc_macro2::TokenTree::Group(g) => {
                    v.push(format!("{:?}", g.delimiter()));
                    walk(g.stream(), v);
                    v.push("end".into());
                }
                t => v.push(t.to_string()),
            }
        }
    }
    let mut v = vec![];
    walk(code.parse::<proc_macro2::TokenStream>().map_err(|e| e.to_string())?, &mut v);
    Ok(v)
}

fn comment_words(code: &str) -> Vec<String> {
    code.lines()
        .filter_map(|l| l.trim().strip_prefix("//").map(|s| s.to_string()))
        .flat_map(|l| doc_words(&format!("{l} .")).into_iter().filter(|w| w != ".").collect::<Vec<_>>())
        .collect()
}

/// What is wrong with the code of the document, given the code of its schemas.
fn embedded_differs(whole: &str, alone: &[String]) -> Result<u64, String> {
    let all = tokens(whole).map_err(|e| format!("the code is not valid: {e}"))?;
    let mut at = 0;
    for (i, a) in alone.iter().enumerate() {
        let t = tokens(a).map_err(|e| format!("the code of a schema on its own is not valid: {e}"))?;
        let part = &all[at.min(all.len())..(at + t.len()).min(all.len())];
        if part != &t[..] {
            let k = t.iter().zip(part).take_while(|(a, b)| a == b).count();
            let ctx = |v: &[String]| v[k.saturating_sub(8).min(v.len())..(k + 8).min(v.len())].join(" ");
            return Err(format!(
                "schema {i} of {} has other code than on its own:\n{}\n{}",
                alone.len(),
                ctx(part),
                ctx(&t)
            ));
        }
        at += t.len();
    }
    let rest = whole_rest(whole, &all, at)?;
    let words: Vec<String> = alone.iter().flat_map(|a| comment_words(a)).collect();
    let have = comment_words(whole);
    if !have.starts_with(&words) {
        return Err("the comments of the schemas are others than on their own".into());
    }
    Ok(rest)
}

fn whole_rest(whole: &str, all: &[String], at: usize) -> Result<u64, String> {
    let m = model::parse(whole)?;
    // What follows is functions only: there is no struct, enum or module in it.
    let rest = &all[at..];
    let mut depth = 0;
    for t in rest {
        match t.as_str() {
            "Brace" | "Parenthesis" | "Bracket" | "None" => depth += 1,
            "end" => depth -= 1,
            "struct" | "enum" | "mod" | "use" | "impl" | "type" if depth == 0 => {
                return Err(format!("after the schemas there is {t}, not only functions"));
            }
            _ => (),
        }
    }
    Ok(m.fns.len() as u64)
}

pub fn c22(ctx: &mut Ctx) {
    ctx.rule = "a WSDL document with at least one embedded schema whose text differs from all others; the real tools are run on \
                it and on each of its schemas alone"
        .into();
    let n = ctx.scale(3000, 150000);
    parallel(ctx, n, |seed, scratch, rep| {
        let mut r = Rng::new(seed, "c22");
        let (xml, alone, w) = document(&mut r);
        c22_judge(&xml, &alone, Some(&w), scratch, rep);
        if !alone.is_empty() {
            rep.key = xml.clone();
        }
        rep.sample = format!("{} schemas: {}", alone.len(), xml.split_whitespace().collect::<Vec<_>>().join(" "));
    });
    let repo = PathBuf::from(std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into()));
    let mut files: Vec<PathBuf> =
        fs::read_dir(repo.join("input/wsdl")).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    files.sort();
    let k = files.len();
    parallel(ctx, k, |seed, scratch, rep| {
        let _ = seed;
        let n: usize = scratch.root.file_name().unwrap().to_string_lossy().trim_start_matches("case-").parse().unwrap();
        let xml = fs::read_to_string(&files[n]).expect("corpus");
        let doc = roxmltree::Document::parse(&xml).expect("corpus");
        let alone: Vec<String> = doc
            .descendants()
            .filter(|n| n.tag_name().name() == "schema" && n.parent().is_some_and(|p| p.tag_name().name() == "types"))
            .map(|n| standalone(&xml, &n))
            .collect();
        rep.count("documents of the repository", 1);
        c22_judge(&xml, &alone, None, scratch, rep);
        rep.key = format!("{:?}", files[n]);
    });
}

fn c22_judge(xml: &str, alone: &[String], w: Option<&wsdl::Wsdl>, scratch: &Scratch, rep: &mut Report) {
    let work = scratch.work();
    let convert = |tool: Tool, text: &str, rep: &mut Report| -> Option<String> {
        let (i, o) = (work.join("in.xml"), work.join("out.rs"));
        let _ = fs::remove_file(&o);
        fs::write(&i, text).expect("in");
        let run = Run {
            tool,
            args: vec!["-i".into(), i.into(), "-o".into(), o.clone().into()],
            cwd: &work,
            io: &scratch.io(),
            env: vec![],
            out: Out::File,
        };
        let res = run.go();
        rep.runs += 1;
        if res.code != Some(0) {
            rep.bad("status", format!("{tool:?} fails: {}\n{}\n{text}\n\nin\n{xml}", res.how, res.stderr));
            return None;
        }
        fs::read_to_string(&o).ok()
    };
    let Some(whole) = convert(Tool::Wsdl, xml, rep) else { return };
    let mut codes = vec![];
    for a in alone {
        let Some(c) = convert(Tool::Xsd, a, rep) else { return };
        codes.push(c);
    }
    rep.count("schemas compared", codes.len() as u64);
    if codes.len() > 1 {
        rep.count("documents with several schemas", 1);
    }
    match embedded_differs(&whole, &codes) {
        Err(e) => rep.bad("differs", format!("{e}\n{xml}\n\nthe code:\n{whole}\n\nalone:\n{}", codes.join("\n//////\n"))),
        Ok(fns) => {
            rep.count("functions", fns);
            if let Some(w) = w {
                if fns != w.ops().len() as u64 {
                    rep.bad("functions", format!("{fns} functions of {} operations follow\n{xml}\n\n{whole}", w.ops().len()));
                }
            }
        }
    }
}
