mod clock;
mod dict;
mod gens;
mod jwt;
mod keys;
mod model;
mod props;
mod run;
mod sim;
mod store;

use run::{Failure, Property, Tier};
use serde_json::{json, Value};
use std::io::Write;
use std::os::fd::FromRawFd;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::sync::OnceLock;

static OUT: OnceLock<std::sync::Mutex<std::fs::File>> = OnceLock::new();

/// The library under test prints to stdout; our own lines go to the original stdout.
fn capture_stdout() {
    unsafe {
        let saved = libc::dup(1);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(null, 1);
        let _ = OUT.set(std::sync::Mutex::new(std::fs::File::from_raw_fd(saved)));
    }
}

fn say(line: &str) {
    let mut f = OUT.get().expect("stdout").lock().unwrap();
    let _ = writeln!(f, "{line}");
    let _ = f.flush();
}

/// An error of the check itself: neither held nor violated
pub fn die(msg: &str) -> ! {
    eprintln!("CHECK-ERROR: {msg}");
    std::process::exit(3);
}

fn verif() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

fn known_findings(id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(verif().join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    let mut out = vec![];
    for line in text.lines() {
        if let Some(rest) = line.strip_prefix("finding: ") {
            let mut prop = "";
            let mut fid = "";
            for w in rest.split_whitespace() {
                if let Some(p) = w.strip_prefix("property=") {
                    prop = p;
                } else if let Some(p) = w.strip_prefix("id=") {
                    fid = p;
                    break;
                }
            }
            if prop == id {
                let what = rest.split_once(&format!("id={fid}")).map(|x| x.1.trim()).unwrap_or("");
                out.push((fid.to_string(), what.to_string()));
            }
        }
    }
    out
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    // every anyhow error would otherwise carry a backtrace, which is slow
    std::env::set_var("RUST_BACKTRACE", "0");
    std::env::set_var("RUST_LIB_BACKTRACE", "0");
    run::install_panic_hook();
    match args.get(1).map(String::as_str) {
        Some("run") => supervise(&args[2]),
        Some("worker") => {
            capture_stdout();
            let id = args[2].clone();
            in_big_thread(move || worker(&id))
        }
        Some("replay") => {
            capture_stdout();
            let f = args[2].clone();
            in_big_thread(move || replay(Path::new(&f)))
        }
        // writes what dict_base.json holds for the pinned commit
        Some("dict") => println!("{}", dict::dump()),
        Some("list") => {
            for p in props::all() {
                for part in &p.parts {
                    println!("{} {}", p.id, part.name());
                }
            }
        }
        _ => die("usage: ucanpbt run|worker|replay|list ..."),
    }
}

fn in_big_thread(f: impl FnOnce() + Send + 'static) {
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(f)
        .unwrap()
        .join()
        .unwrap_or_else(|_| die("internal panic"));
}

/// How long one case may take before it counts as hanging
const HANG_S: u64 = 120;

fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

fn env_tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

/// Runs the worker in a child process, so that a crash of the whole process (stack overflow, abort) is
/// an answer too.
fn supervise(id: &str) {
    let started = std::time::Instant::now();
    let dir = std::env::temp_dir().join(format!("ucanpbt-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap_or_else(|e| die(&format!("{e}")));
    let exe = std::env::current_exe().unwrap();
    let status = std::process::Command::new(&exe)
        .args(["worker", id])
        .env("UCANPBT_INFLIGHT", &dir)
        .status()
        .unwrap_or_else(|e| die(&format!("{e}")));
    let inflight = run::read_inflight(&dir);
    let _ = std::fs::remove_dir_all(&dir);
    if let Some(code) = status.code() {
        std::process::exit(code);
    }
    let sig = status.signal().unwrap_or(0);
    if ![libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE].contains(&sig) {
        die(&format!("worker ended by signal {sig}"));
    }
    // which of the cases in flight was it?
    for (_, part, case) in inflight {
        let Ok(case) = serde_json::from_str::<Value>(&case) else { continue };
        let failure = Failure { part, case, message: format!("the process died with signal {sig}") };
        let path = run::write_replay(&verif(), id, &failure, env_seed());
        let again = std::process::Command::new(&exe)
            .arg("replay")
            .arg(&path)
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .status();
        let died = matches!(&again, Ok(s) if s.signal().is_some() || s.code() == Some(1));
        if died {
            println!("VIOLATION property={id} replay={}", path.display());
            println!("  the process dies with signal {sig} on this case");
            write_evidence(id, vec![], 1, started.elapsed().as_secs_f64(), vec![]);
            std::process::exit(1);
        }
        let _ = std::fs::remove_file(&path);
    }
    die(&format!("worker died with signal {sig}, and no case in flight reproduces it"));
}

fn find(id: &str) -> Property {
    props::all()
        .into_iter()
        .find(|p| p.id == id)
        .unwrap_or_else(|| die(&format!("no such property: {id}")))
}

fn replay(path: &Path) {
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| die(&format!("{e}")));
    let v: Value = serde_json::from_str(&text).unwrap_or_else(|e| die(&format!("{e}")));
    let id = v["property"].as_str().unwrap_or_default().to_string();
    let name = v["part"].as_str().unwrap_or_default();
    let p = find(&id);
    {
        let (id, path) = (id.clone(), path.to_path_buf());
        std::thread::spawn(move || {
            std::thread::sleep(std::time::Duration::from_secs(HANG_S));
            say(&format!("VIOLATION property={id} replay={}", path.display()));
            say(&format!("  no answer within {HANG_S} s"));
            std::process::exit(1);
        });
    }
    if name == "known-finding" {
        let fid = v["case"].as_str().unwrap_or_default();
        let probe = p.probes.iter().find(|q| q.id == fid).unwrap_or_else(|| die("no such probe"));
        match (probe.probe)() {
            None => {
                say("held");
                return;
            }
            Some(m) => {
                say(&format!("VIOLATION property={id} replay={}", path.display()));
                say(&format!("  {m}"));
                std::process::exit(1);
            }
        }
    }
    let part = p.parts.iter().find(|q| q.name() == name).unwrap_or_else(|| die("no such part"));
    match part.replay(&v["case"]) {
        Ok(()) => say("held"),
        Err(m) => {
            say(&format!("VIOLATION property={id} replay={}", path.display()));
            say(&format!("  {m}"));
            std::process::exit(1);
        }
    }
}

fn worker(id: &str) {
    let started = std::time::Instant::now();
    let tier = env_tier();
    let seed = env_seed();
    let limit = match tier {
        Tier::Quick => 700,
        Tier::Thorough => 6 * 3600,
    };
    let name = id.to_string();
    std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_secs(limit));
        if let Some((_, f)) = run::SMALLEST.lock().unwrap().as_ref() {
            let path = run::write_replay(&verif(), &name, f, seed);
            say(&format!("VIOLATION property={name} replay={}", path.display()));
            say(&format!("  {} (not shrunk to the end): {}", f.part, f.message.chars().take(3000).collect::<String>()));
            write_evidence(&name, vec![], 1, limit as f64, vec![]);
            std::process::exit(1);
        }
        die(&format!("watchdog: not finished after {limit} s"));
    });
    {
        // a case takes milliseconds; one that takes minutes hangs
        let id = id.to_string();
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_secs(2));
            let Some(shard) = run::stuck(HANG_S * 1000) else { continue };
            let Some(dir) = std::env::var_os("UCANPBT_INFLIGHT") else { die("a case hangs") };
            for (s, part, case) in run::read_inflight(Path::new(&dir)) {
                let Ok(case) = serde_json::from_str::<Value>(&case) else { continue };
                if s == shard {
                    let failure = Failure { part, case, message: format!("no answer within {HANG_S} s") };
                    let path = run::write_replay(&verif(), &id, &failure, seed);
                    say(&format!("VIOLATION property={id} replay={}", path.display()));
                    say(&format!("  no answer within {HANG_S} s"));
                    write_evidence(&id, vec![], 1, started.elapsed().as_secs_f64(), vec![]);
                    std::process::exit(1);
                }
            }
            die("a case hangs");
        });
    }
    let scale: f64 = std::env::var("UCANPBT_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let only = std::env::var("UCANPBT_PART").ok();
    let p = find(id);
    let mut violations = 0u64;
    let mut assumptions: Vec<String> = p.assumptions.iter().map(|s| s.to_string()).collect();
    if !clock::works() {
        assumptions.push("the wall clock could not be overridden; the real one was used".into());
    }
    // 1. known findings
    let known = known_findings(id);
    let mut finding_lines = vec![];
    for probe in &p.probes {
        run::in_flight("known-finding", &Value::String(probe.id.into()));
        let answer = (probe.probe)();
        run::in_flight_done();
        if let Some(what) = answer {
            match known.iter().find(|(fid, _)| fid == probe.id) {
                Some((fid, text)) => {
                    let line = format!("KNOWN-FINDING: property={id} {fid}: {text}");
                    say(&line);
                    finding_lines.push(line);
                }
                None => {
                    let f = Failure {
                        part: "known-finding".into(),
                        case: Value::String(probe.id.into()),
                        message: what.clone(),
                    };
                    let path = run::write_replay(&verif(), id, &f, seed);
                    say(&format!("VIOLATION property={id} replay={}", path.display()));
                    say(&format!("  {what}"));
                    violations += 1;
                }
            }
        }
    }
    // 2. saved regressions
    let mut regressions = 0u64;
    let dir = verif().join("harness/regressions").join(id);
    let mut files: Vec<PathBuf> = std::fs::read_dir(&dir)
        .map(|d| d.filter_map(|e| e.ok().map(|e| e.path())).collect())
        .unwrap_or_default();
    files.sort();
    for file in files {
        let v: Value = match std::fs::read_to_string(&file).ok().and_then(|t| serde_json::from_str(&t).ok()) {
            Some(v) => v,
            None => die(&format!("unreadable regression {}", file.display())),
        };
        let name = v["part"].as_str().unwrap_or_default();
        let Some(part) = p.parts.iter().find(|q| q.name() == name) else {
            die(&format!("regression {} names no part", file.display()))
        };
        regressions += 1;
        run::in_flight(name, &v["case"]);
        let verdict = part.replay(&v["case"]);
        run::in_flight_done();
        if let Err(m) = verdict {
            if m.starts_with("unreadable replay case") {
                die(&format!("{}: {m}", file.display()));
            }
            say(&format!("VIOLATION property={id} replay={}", file.display()));
            say(&format!("  {m}"));
            violations += 1;
        }
    }
    // 3. generated cases
    let mut reports = vec![];
    for part in &p.parts {
        if let Some(o) = &only {
            if o != part.name() {
                continue;
            }
        }
        let r = part.run(id, seed, tier, scale);
        say(&format!(
            "{id}/{}: {} cases, {} distinct non-trivial, {:.1} s",
            part.name(), r.evaluations, r.distinct_nontrivial, r.wall_s
        ));
        if std::env::var_os("UCANPBT_LABELS").is_some() {
            for (l, n) in &r.labels {
                say(&format!("    {l}: {n} ({:.1} %)", 100.0 * *n as f64 / r.evaluations as f64));
            }
        }
        if let Some(f) = &r.failure {
            let path = run::write_replay(&verif(), id, f, seed);
            say(&format!("VIOLATION property={id} replay={}", path.display()));
            let mut m = f.message.clone();
            if m.len() > 3000 {
                let mut end = 3000;
                while !m.is_char_boundary(end) {
                    end -= 1;
                }
                m.truncate(end);
            }
            say(&format!("  {}: {m}", part.name()));
            violations += 1;
        }
        reports.push((part.name(), part.rule(), r));
    }
    let mut parts = vec![];
    let mut samples = vec![];
    let mut evaluations = regressions;
    let mut distinct = 0;
    for (name, rule, r) in &reports {
        evaluations += r.evaluations;
        distinct += r.distinct_nontrivial;
        for s in &r.samples {
            samples.push(json!({"part": name, "case": s}));
        }
        parts.push(json!({
            "part": name, "rule": rule, "evaluations": r.evaluations,
            "distinct_nontrivial": r.distinct_nontrivial, "labels": r.labels,
            "wall_s": (r.wall_s * 10.0).round() / 10.0,
        }));
    }
    let rule = reports
        .iter()
        .map(|(n, r, _)| format!("[{n}] {r}"))
        .collect::<Vec<_>>()
        .join(" ");
    let coverage = json!({
        "evaluations": evaluations,
        "distinct_nontrivial": distinct,
        "rule": rule,
        "samples": samples,
        "parts": parts,
        "regressions_replayed": regressions,
        "known_findings_present": finding_lines,
    });
    write_evidence(id, vec![("coverage", coverage)], violations, started.elapsed().as_secs_f64(), assumptions);
    say(&format!(
        "{id}: {} ({} tier, seed {seed}): {evaluations} evaluations, {distinct} distinct non-trivial, {violations} violations, {:.1} s",
        if violations == 0 { "held" } else { "VIOLATED" },
        tier.name(),
        started.elapsed().as_secs_f64()
    ));
    std::process::exit(if violations == 0 { 0 } else { 1 });
}

fn write_evidence(id: &str, extra: Vec<(&str, Value)>, violations: u64, wall: f64, assumptions: Vec<String>) {
    let mut v = json!({
        "property": id,
        "tier": env_tier().name(),
        "seed": env_seed(),
        "level": "exploration",
        "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "rule": "the process died", "samples": []},
        "assumptions": assumptions,
        "wall_s": (wall * 10.0).round() / 10.0,
        "violations": violations,
    });
    for (k, x) in extra {
        v[k] = x;
    }
    let dir = verif().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&v).unwrap())
        .unwrap_or_else(|e| die(&format!("cannot write evidence: {e}")));
}
