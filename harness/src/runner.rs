//! `check ID`: runs the workload in a child process and watches it, so that an abort, a stack
//! overflow or an endless loop of the code under test is observed and attributed to its input.

use std::{
    fs,
    path::PathBuf,
    process::{Command, ExitCode},
    time::{Duration, Instant},
};

use crate::core::{self, Ctx};

pub fn main(runners: &[(&str, fn(&mut Ctx))]) -> ExitCode {
    let args: Vec<String> = std::env::args().collect();
    let (mode, id) = match (args.get(1), args.get(2)) {
        (Some(m), Some(i)) => (m.clone(), i.clone()),
        _ => {
            eprintln!("usage: check|run ID");
            return ExitCode::from(2);
        }
    };
    let seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse().ok())
        .unwrap_or(1u64);
    let thorough = std::env::var("VERIF_TIER")
        .map(|t| t == "thorough")
        .unwrap_or(false);
    let Some((_, f)) = runners.iter().find(|(n, _)| *n == id) else {
        eprintln!("unknown property {id}");
        return ExitCode::from(2);
    };
    let out = core::verif_dir().join("out").join(&id);
    if mode == "run" {
        let mut ctx = Ctx::new(&id, thorough, seed, &out);
        f(&mut ctx);
        return finish(&ctx);
    }
    let _ = fs::remove_dir_all(&out);
    if fs::create_dir_all(&out).is_err() {
        eprintln!("cannot create {}", out.display());
        return ExitCode::from(2);
    }
    watch(&id, &out, thorough, seed)
}

fn evidence_path(id: &str) -> PathBuf {
    let dir = core::verif_dir().join("evidence");
    let _ = fs::create_dir_all(&dir);
    dir.join(format!("{id}.json"))
}

fn finish(ctx: &Ctx) -> ExitCode {
    for case in &ctx.known_seen {
        println!(
            "KNOWN-FINDING: property={} {} [{}]",
            ctx.id,
            ctx.known_text(case),
            case
        );
    }
    if let Err(e) = fs::write(evidence_path(&ctx.id), core::evidence(ctx, None, "")) {
        eprintln!("cannot write the evidence: {e}");
        return ExitCode::from(2);
    }
    for (i, (case, detail)) in ctx.violations.iter().enumerate() {
        let path = ctx.out.join(format!("violation-{i}.txt"));
        let text = format!(
            "property: {}\ncase: {case}\nseed: {}\ntier: {}\nre-run: VERIF_SEED={} VERIF_TIER={} /verif/check.sh {}\n\n{detail}\n",
            ctx.id,
            ctx.seed,
            if ctx.thorough { "thorough" } else { "quick" },
            ctx.seed,
            if ctx.thorough { "thorough" } else { "quick" },
            ctx.id
        );
        let _ = fs::write(&path, text);
        println!("VIOLATION property={} replay={}", ctx.id, path.display());
        let brief: String = detail.chars().take(1500).collect();
        println!("{brief}\n");
    }
    println!(
        "{}: {} evaluations, {} distinct non-trivial, {} violations, {:.1} s",
        ctx.id,
        ctx.evals,
        ctx.distinct(),
        ctx.violations_total,
        ctx.elapsed()
    );
    if ctx.violations.is_empty() {
        ExitCode::SUCCESS
    } else {
        ExitCode::from(1)
    }
}

fn journal(out: &std::path::Path) -> Option<(u64, String, u64, String)> {
    let s = fs::read(out.join("journal")).ok()?;
    let s = String::from_utf8_lossy(&s);
    let (head, rest) = s.split_once('\n')?;
    let mut w = head.split(' ');
    let seq = w.next()?.parse().ok()?;
    let flag = w.next()?.to_string();
    let timeout = w.next()?.parse().ok()?;
    let len: usize = w.next()?.parse().ok()?;
    let mut end = len.min(rest.len());
    while !rest.is_char_boundary(end) {
        end -= 1;
    }
    Some((seq, flag, timeout, rest[..end].to_string()))
}

fn watch(id: &str, out: &std::path::Path, thorough: bool, seed: u64) -> ExitCode {
    let start = Instant::now();
    let exe = std::env::current_exe().expect("current_exe");
    let mut child = match Command::new(exe).args(["run", id]).spawn() {
        Ok(c) => c,
        Err(e) => {
            eprintln!("cannot start the workload: {e}");
            return ExitCode::from(2);
        }
    };
    let mut last = (0u64, Instant::now());
    let mut hang = false;
    let status = loop {
        match child.try_wait() {
            Ok(Some(s)) => break s,
            Ok(None) => (),
            Err(e) => {
                eprintln!("wait: {e}");
                return ExitCode::from(2);
            }
        }
        std::thread::sleep(Duration::from_millis(20));
        if last.1.elapsed() > Duration::from_millis(500) || last.0 == 0 {
            if let Some((seq, _, timeout, _)) = journal(out) {
                if seq != last.0 {
                    last = (seq, Instant::now());
                } else if last.1.elapsed() > Duration::from_secs(timeout) {
                    hang = true;
                    let _ = child.kill();
                    break child.wait().expect("wait");
                }
            }
        }
    };
    use std::os::unix::process::ExitStatusExt;
    match status.code() {
        Some(c @ (0 | 1)) if !hang => return ExitCode::from(c as u8),
        Some(c) if !hang => {
            eprintln!("the workload of {id} ended with the exit code {c}: error of the check");
            return ExitCode::from(3);
        }
        _ => (),
    }
    let (seq, flag, _, text) = journal(out).unwrap_or((0, "?".into(), 0, String::new()));
    let what = if hang {
        "did not return in time".to_string()
    } else {
        format!("was ended by the signal {:?}", status.signal())
    };
    if flag != "C" {
        eprintln!("the workload of {id} {what} outside of a case: error of the check");
        return ExitCode::from(3);
    }
    let path = out.join("violation-crash.txt");
    let _ = fs::write(
        &path,
        format!("property: {id}\nseed: {seed}\nthe process {what} in the case:\n\n{text}\n"),
    );
    let mut ctx = Ctx::new(id, thorough, seed, out);
    ctx.evals = seq / 2;
    ctx.nontrivial(&text);
    ctx.rule = "the run was cut short by a crash".into();
    ctx.samples.push(text.chars().take(500).collect());
    ctx.start = start;
    let _ = fs::write(evidence_path(id), core::evidence(&ctx, Some(1), &what));
    println!("VIOLATION property={id} replay={}", path.display());
    println!(
        "the process {what}: {}",
        text.chars().take(1000).collect::<String>()
    );
    ExitCode::from(1)
}
