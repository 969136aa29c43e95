//! Runs an instrumented (Miri / ThreadSanitizer / AddressSanitizer) build of a workload binary and turns what the
//! instrumentation reports into violations; what it observed goes into the evidence.
use crate::Run;
use serde_json::json;
use std::process::Command;
use std::time::{Duration, Instant};

pub enum Tool {
    Miri { flags: &'static str },
    Thread,
    Address,
}

fn run_cmd(mut cmd: Command, limit: Duration) -> (Option<i32>, String, bool) {
    use std::io::Read;
    use std::process::Stdio;
    cmd.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let mut ch = match cmd.spawn() {
        Ok(c) => c,
        Err(e) => return (None, format!("spawn: {e}"), false),
    };
    let mut o = ch.stdout.take().unwrap();
    let mut e = ch.stderr.take().unwrap();
    let t1 = std::thread::spawn(move || {
        let mut b = Vec::new();
        let _ = o.read_to_end(&mut b);
        b
    });
    let t2 = std::thread::spawn(move || {
        let mut b = Vec::new();
        let _ = e.read_to_end(&mut b);
        b
    });
    let t0 = Instant::now();
    let mut timed_out = false;
    let code = loop {
        match ch.try_wait() {
            Ok(Some(s)) => {
                use std::os::unix::process::ExitStatusExt;
                break s.code().or_else(|| s.signal().map(|x| 128 + x));
            }
            Ok(None) => {
                if t0.elapsed() > limit {
                    timed_out = true;
                    let _ = ch.kill();
                    let _ = ch.wait();
                    break None;
                }
                std::thread::sleep(Duration::from_millis(20));
            }
            Err(_) => break None,
        }
    };
    if timed_out {
        return (None, "timeout".into(), true);
    }
    let mut s = String::from_utf8_lossy(&t1.join().unwrap()).to_string();
    s.push_str(&String::from_utf8_lossy(&t2.join().unwrap()));
    (code, s, false)
}

fn cargo(sub: &[&str], target: &str) -> Command {
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let mut c = Command::new("cargo");
    c.env("RUSTUP_TOOLCHAIN", "nightly")
        .env("CARGO_TARGET_DIR", format!("{root}/target/{target}"))
        .env("CARGO_NET_OFFLINE", "true")
        .env_remove("RUSTFLAGS")
        .env_remove("CARGO")
        .current_dir(format!("{root}/harness"))
        .args(sub);
    // environment of an enclosing cargo/rustup must not leak into the nightly build
    for k in ["RUSTC", "RUSTDOC", "RUST_RECURSION_COUNT", "RUSTUP_HOME_OVERRIDE"] {
        c.env_remove(k);
    }
    c
}

fn head(s: &str, key: &str, n: usize) -> String {
    let lines: Vec<&str> = s.lines().collect();
    let i = lines.iter().position(|l| l.contains(key)).unwrap_or(lines.len().saturating_sub(n));
    lines[i..(i + n).min(lines.len())].join(" | ")
}

/// `args` are those of the workload binary, whose last stdout line must be `SAN-OK key=value ...`.
pub fn sanitized(run: &mut Run, section: &str, what: &str, tool: Tool, pkg: &str, args: &[String], env: &[(&str, String)], limit_s: u64) {
    if !run.wants(section) {
        return;
    }
    let t0 = Instant::now();
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    run.rule(section, what);
    let target = "x86_64-unknown-linux-gnu";
    let (name, cmd) = match tool {
        Tool::Miri { flags } => {
            let mut c = cargo(&["miri", "run", "--offline", "-q", "-p", pkg, "--"], "miri");
            c.args(args).env("MIRIFLAGS", flags);
            ("miri", c)
        }
        Tool::Thread | Tool::Address => {
            let (nm, fl, extra): (&str, &str, &[&str]) = match tool {
                Tool::Thread => ("tsan", "-Zsanitizer=thread", &["-Zbuild-std"]),
                _ => ("asan", "-Zsanitizer=address", &[]),
            };
            let mut sub = vec!["build", "--offline", "-q", "-p", pkg, "--target", target];
            sub.extend_from_slice(extra);
            let mut b = cargo(&sub, nm);
            b.env("RUSTFLAGS", fl);
            let (code, out, _) = run_cmd(b, Duration::from_secs(800));
            if code != Some(0) {
                println!("[{}] {section}: building the instrumented binary failed: {}", run.prop, head(&out, "error", 30));
                run.unjudged.push(format!("{section} (build)"));
                return;
            }
            let mut c = Command::new(format!("{root}/target/{nm}/{target}/debug/{pkg}"));
            c.args(args);
            c.env("TSAN_OPTIONS", "halt_on_error=1 exitcode=66 report_bugs=1");
            c.env("ASAN_OPTIONS", "detect_leaks=0 exitcode=67");
            (nm, c)
        }
    };
    let mut cmd = cmd;
    for (k, v) in env {
        cmd.env(k, v);
    }
    cmd.env("RUST_BACKTRACE", "0");
    let (code, out, timed_out) = run_cmd(cmd, Duration::from_secs(limit_s));
    let shown = format!("{name} {pkg} {args:?} {env:?}");
    if timed_out {
        // An instrumented run that exceeds its limit is no verdict on the code
        println!("[{}] {section}: {shown} exceeded {limit_s}s", run.prop);
        run.unjudged.push(format!("{section} (time)"));
        return;
    }
    let ok = code == Some(0) && out.contains("SAN-OK");
    if ok {
        let line = out.lines().find(|l| l.contains("SAN-OK")).unwrap().to_string();
        let n = out.lines().filter(|l| l.contains("SAN-OK")).count() as u64;
        let mut cases = 0;
        for kv in line.split_whitespace() {
            if let Some((k, v)) = kv.split_once('=') {
                if let Ok(v) = v.parse::<u64>() {
                    run.add_count(&format!("{name}_{k}"), v * n);
                    if k == "cases" {
                        cases = v * n;
                    }
                }
            }
        }
        run.add_section(section, cases, t0.elapsed().as_secs_f64());
        run.sample(json!({"section": section, "observed": line, "tool": name}));
        return;
    }
    for key in ["Undefined Behavior", "WARNING: ThreadSanitizer", "ERROR: AddressSanitizer", "panicked at", "DEADLYSIGNAL", "SAN-FAIL"] {
        if out.contains(key) {
            let sig = match key {
                "Undefined Behavior" => "undefined-behaviour",
                "WARNING: ThreadSanitizer" => "data-race",
                "ERROR: AddressSanitizer" => "address-error",
                _ => "failure",
            };
            let h = head(&out, key, 25);
            run.add_section(section, 1, t0.elapsed().as_secs_f64());
            run.add_violation(section, 0, sig, format!("{shown}: {h}"));
            return;
        }
    }
    if matches!(code, Some(132) | Some(134) | Some(135) | Some(136) | Some(139)) {
        run.add_section(section, 1, t0.elapsed().as_secs_f64());
        run.add_violation(section, 0, "fault-signal", format!("{shown}: exit {code:?}: {}", head(&out, "\u{0}", 20)));
        return;
    }
    println!("[{}] {section}: {shown}: no verdict (exit {code:?}): {}", run.prop, head(&out, "error", 30));
    run.unjudged.push(section.to_string());
}
