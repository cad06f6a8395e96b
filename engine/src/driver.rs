//! `check <property> [--tier quick|thorough] [--replay FILE]`
//!
//! Exit 0: held on everything explored. Exit 1: `VIOLATION property=<id> replay=<path>`.
//! Anything else is an error of the check.
use crate::engine::{self, run_case, search, Case, Found, Spec};
use std::path::{Path, PathBuf};
use std::process::{exit, Command};
use std::time::Instant;

fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

fn known_findings(id: &str) -> Vec<String> {
    let text = std::fs::read_to_string(verif_dir().join("known-findings.txt")).unwrap_or_default();
    let mut out = vec![];
    for line in text.lines() {
        let mut words = line.split_whitespace();
        if words.next() == Some("known:") && words.next() == Some(&format!("property={}", id)) {
            if let Some(k) = words.next().and_then(|w| w.strip_prefix("input=")) {
                out.push(k.to_string());
            }
        }
    }
    out
}

fn write_replay(id: &str, value: serde_json::Value) -> PathBuf {
    let dir = verif_dir().join("evidence").join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}.json", id));
    std::fs::write(&path, serde_json::to_string_pretty(&value).unwrap()).unwrap();
    path
}

fn violation(id: &str, path: &Path) -> ! {
    println!("VIOLATION property={} replay={}", id, path.display());
    exit(1)
}

pub fn run(specs: Vec<Spec>) {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.first().map(String::as_str) == Some("list") {
        for s in &specs {
            println!("{}", s.id);
        }
        return;
    }
    let id = args.first().cloned().unwrap_or_else(|| {
        eprintln!("usage: check <property>|list");
        exit(2)
    });
    let spec = match specs.into_iter().find(|s| s.id == id) {
        Some(s) => s,
        None => {
            eprintln!("no such property: {}", id);
            exit(2)
        }
    };
    let flag = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned());
    let tier = flag("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);

    if let Some(file) = flag("--replay") {
        engine::install_quiet_panics();
        replay(&spec, &file);
    } else if let Some(cs) = flag("--one") {
        engine::install_quiet_panics();
        limit_memory(12);
        one(&spec, cs.parse().unwrap());
    } else if args.iter().any(|a| a == "--worker") {
        engine::install_quiet_panics();
        limit_memory(22);
        worker(&spec, seed, &tier);
    } else {
        supervise(&spec, seed, &tier);
    }
}

/// Of this process, in GiB: what takes more ends with an abort, which the parent sees.
fn limit_memory(gib: u64) {
    extern "C" {
        fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
    }
    const RLIMIT_AS: i32 = 9;
    let l = [gib << 30, gib << 30];
    unsafe { setrlimit(RLIMIT_AS, &l) };
}

/// Checks in which the threads that the code under test starts get a small stack, so that a path
/// of a thousand steps shows what recursion along it does. The usual 2 MiB would take longer
/// paths, or a build that is not optimised.
const SMALL_STACKS: &[&str] = &["Z01"];

/// Of the threads that the code under test starts.
fn stack_size(spec: &Spec) -> String {
    let kib: u64 = if SMALL_STACKS.contains(&spec.id) { 512 } else { 64 << 10 };
    (kib << 10).to_string()
}

fn on_big_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(s, f)
            .unwrap()
            .join()
            .unwrap_or_else(|_| exit(2))
    })
}

fn one(spec: &Spec, case_seed: u64) {
    let o = on_big_stack(|| run_case(spec.prop, Case::random(case_seed)));
    println!("{}", o.case.desc);
    if let Some(m) = o.fail {
        println!("FAILS: {}", m);
    }
}

fn replay(spec: &Spec, file: &str) {
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    let o = if let Some(name) = v["fixed_input"].as_str() {
        let f = spec.fixed.iter().find(|f| f.0 == name).expect("fixed input exists").1;
        match engine::guarded(f).unwrap_or_else(Err) {
            Ok(()) => None,
            Err(m) => Some((name.to_string(), m)),
        }
    } else {
        let case = match v["case_seed"].as_str() {
            Some(s) => {
                // This one ended the process, or did not come back
                let status = Command::new(std::env::current_exe().unwrap())
                    .args([spec.id, "--one", s])
                    .env("RUST_MIN_STACK", stack_size(spec))
                    .status()
                    .unwrap();
                if status.code().is_none() {
                    println!("the code under test aborts");
                    violation(spec.id, Path::new(file));
                }
                Case::random(s.parse().unwrap())
            }
            None => Case::replay(v["choices"].as_array().unwrap().iter().map(|c| c.as_u64().unwrap()).collect()),
        };
        let mut case = Some(case);
        let mut out = None;
        for _ in 0..5 {
            let c = case.take().unwrap();
            let o = on_big_stack(|| run_case(spec.prop, c));
            if let Some(m) = o.fail {
                out = Some((o.case.desc, m));
                break;
            }
            case = Some(Case::replay(o.case.taken));
        }
        out
    };
    match o {
        None => println!("held"),
        Some((d, m)) => {
            println!("input: {}\nfailure: {}", d, m);
            violation(spec.id, Path::new(file));
        }
    }
}

/// Runs the check in a child process, so that an abort of the code under test is seen.
fn supervise(spec: &Spec, seed: u64, tier: &str) {
    let tmp = std::env::temp_dir().join(format!("verif-{}-{}", spec.id, std::process::id()));
    std::fs::create_dir_all(&tmp).unwrap();
    let me = std::env::current_exe().unwrap();
    let start = Instant::now();
    let status = Command::new(&me)
        .args([spec.id, "--worker", "--tier", tier])
        .env("VERIF_CURRENT", &tmp)
        .env("VERIF_SEED", seed.to_string())
        .env("RUST_MIN_STACK", stack_size(spec))
        .status()
        .unwrap();
    use std::os::unix::process::ExitStatusExt;
    let signal = status.signal();
    let mut crash = None;
    if status.code() == Some(77) {
        // A case did not come back. Try it once more, alone, before believing it.
        for entry in std::fs::read_dir(&tmp).unwrap().flatten() {
            if entry.file_name() != "hang" {
                continue;
            }
            let cs = std::fs::read_to_string(entry.path()).unwrap_or_default();
            let mut child = Command::new(&me)
                .args([spec.id, "--one", &cs])
                .env("RUST_MIN_STACK", stack_size(spec))
                .stdout(std::process::Stdio::null())
                .spawn()
                .unwrap();
            let begun = Instant::now();
            let mut hangs = true;
            while begun.elapsed() < 2 * engine::case_limit(tier) {
                if let Some(st) = child.try_wait().unwrap() {
                    hangs = false;
                    if matches!(st.signal(), Some(s) if s != 9) {
                        crash = Some((cs.clone(), "no answer, and then an abort".to_string()));
                    }
                    break;
                }
                std::thread::sleep(std::time::Duration::from_millis(100));
            }
            let _ = child.kill();
            let _ = child.wait();
            if hangs {
                crash = Some((cs, format!("no answer within {:?}, twice", engine::case_limit(tier))));
            }
        }
    }
    if matches!(signal, Some(s) if s != 9 && s != 15 && s != 2) {
        for entry in std::fs::read_dir(&tmp).unwrap().flatten() {
            let cs = std::fs::read_to_string(entry.path()).unwrap_or_default();
            if cs.is_empty() {
                continue;
            }
            let out = Command::new(&me)
                .args([spec.id, "--one", &cs])
                .env("RUST_MIN_STACK", stack_size(spec))
                .output()
                .unwrap();
            if matches!(out.status.signal(), Some(s) if s != 9) {
                crash = Some((cs, String::from_utf8_lossy(&out.stderr).chars().take(2000).collect::<String>()));
                break;
            }
        }
    }
    let found = std::fs::read_to_string(tmp.join("found")).ok();
    let _ = std::fs::remove_dir_all(&tmp);
    // A failure was found, but its worker did not come back from making it smaller.
    if let (Some(f), false) = (found, matches!(status.code(), Some(0 | 1))) {
        let v: serde_json::Value = serde_json::from_str(&f).unwrap_or_default();
        write_evidence(spec, seed, tier, serde_json::json!({
            "evaluations": v["case"].as_u64().unwrap_or(0) + 1, "distinct_nontrivial": 0, "rule": spec.rule,
            "samples": [v["input"]],
        }), start.elapsed().as_secs_f64(), 1);
        println!("case {}:\n{}\nfailure: {}", v["case"], v["input"].as_str().unwrap_or(""), v["failure"].as_str().unwrap_or(""));
        let p = write_replay(spec.id, v);
        violation(spec.id, &p);
    }
    if let Some((cs, err)) = crash {
        write_evidence(spec, seed, tier, serde_json::json!({
            "evaluations": 1, "distinct_nontrivial": 0, "rule": spec.rule,
            "samples": [format!("case seed {}", cs)],
        }), start.elapsed().as_secs_f64(), 1);
        println!("the code under test aborts or does not come back on this case: {}", err);
        let p = write_replay(spec.id, serde_json::json!({"property": spec.id, "case_seed": cs, "failure": err}));
        violation(spec.id, &p);
    }
    match status.code() {
        Some(c @ (0 | 1)) => exit(c),
        other => {
            eprintln!("check error: worker ended with {:?} signal {:?}", other, signal);
            exit(2)
        }
    }
}

fn write_evidence(spec: &Spec, seed: u64, tier: &str, coverage: serde_json::Value, wall: f64, violations: u64) {
    let ev = serde_json::json!({
        "property": spec.id,
        "tier": if tier == "thorough" { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": spec.assumptions,
        "wall_s": wall,
        "violations": violations,
    });
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", spec.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
}

fn worker(spec: &Spec, seed: u64, tier: &str) {
    let start = Instant::now();
    let known = known_findings(spec.id);
    let mut fixed_failure = None;
    for (name, f) in spec.fixed {
        let f = *f;
        let r = on_big_stack(move || engine::guarded(f).unwrap_or_else(|p| Err(format!("panicked: {}", p))));
        if let Err(msg) = r {
            if known.iter().any(|k| k == name) {
                println!("KNOWN-FINDING: property={} {}: {}", spec.id, name, msg.replace('\n', " "));
            } else if fixed_failure.is_none() {
                fixed_failure = Some((name.to_string(), msg));
            }
        }
    }
    let summary = search(spec, seed, tier);
    let violated = fixed_failure.is_some() || summary.found.is_some();
    write_evidence(spec, seed, tier, summary.coverage.clone(), start.elapsed().as_secs_f64(), violated as u64);
    println!(
        "{}: {} evaluations, {} distinct non-trivial, {} discarded, {:.1}s",
        spec.id,
        summary.coverage["evaluations"],
        summary.coverage["distinct_nontrivial"],
        summary.coverage["discarded"],
        summary.wall
    );
    println!("classes: {}", summary.coverage["classes"]);
    if let Some((name, msg)) = fixed_failure {
        println!("fixed input: {}\nfailure: {}", name, msg);
        let p = write_replay(spec.id, serde_json::json!({"property": spec.id, "fixed_input": name, "failure": msg}));
        violation(spec.id, &p);
    }
    if let Some(Found { index, choices, desc, msg }) = summary.found {
        println!("case {} shrunk to:\n{}\nfailure: {}", index, desc, msg);
        let p = write_replay(
            spec.id,
            serde_json::json!({"property": spec.id, "seed": seed, "case": index, "choices": choices, "input": desc, "failure": msg}),
        );
        violation(spec.id, &p);
    }
    // A search that did not reach what it is meant to reach has decided nothing.
    if std::env::var_os("VERIF_CASES").is_none() {
        let eff = summary.coverage["evaluations"].as_u64().unwrap().max(1) as f64;
        for (class, pct) in spec.floors {
            let n = summary.coverage["classes"][*class].as_u64().unwrap_or(0) as f64;
            if 100.0 * n / eff < *pct {
                eprintln!("check error: only {} cases of class {} in {}", n, class, eff);
                exit(3);
            }
        }
    }
}
