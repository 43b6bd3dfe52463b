//! C30: the process that runs one history, and the sanitizer legs (Miri,
//! ThreadSanitizer, AddressSanitizer) over the crate /verif/race.
use crate::ops;
use crate::rt;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub enum Leg {
    Held(String),
    Violated(String, String),
    #[allow(dead_code)]
    Inconclusive(String),
}

pub fn cost(o: &BTreeMap<String, String>) -> i32 {
    let mini = o.contains_key("mini");
    let s = ops::Shared::new(1, mini);
    let mut v: Vec<(u128, String)> = vec![];
    for op in ops::ops(&s, mini) {
        let t = Instant::now();
        let _ = (op.f)(&s);
        v.push((t.elapsed().as_micros(), op.name));
    }
    v.sort();
    for (t, n) in v {
        eprintln!("{:8} us  {}", t, n);
    }
    0
}

pub fn ops_main(o: &BTreeMap<String, String>) -> i32 {
    let num = |k: &str| o.get(k).and_then(|v| v.parse::<u64>().ok());
    rt::install_hook();
    rt::start_watchdog();
    let only = num("only").map(|x| x as usize);
    if let Some(rounds) = num("hammer") {
        let out = o.get("out").cloned().unwrap_or_default();
        let r = rt::bounded("hammer", 200_000_000_000, 600, || ops::hammer(num("seed").unwrap_or(1), num("threads").unwrap_or(4) as usize, rounds as usize));
        let (code, text) = match r {
            Ok((g, c)) => (0, format!("{}\tgroups\t{}\n", g, c)),
            Err(e) => (1, e),
        };
        std::fs::write(out, text).expect("write results");
        return code;
    }
    let r = rt::bounded("history", 5_000_000_000, 300, || ops::run(num("seed").unwrap_or(1), false, num("order").unwrap_or(0), num("threads").unwrap_or(1) as usize, only));
    let out = o.get("out").cloned().unwrap_or_default();
    match r {
        Ok(v) => {
            let mut s = String::new();
            for (i, n, r) in v {
                let _ = writeln!(s, "{}\t{}\t{}", i, n, r.replace('\n', " "));
            }
            std::fs::write(out, s).expect("write results");
            0
        }
        Err(e) => {
            std::fs::write(out, e).expect("write results");
            1
        }
    }
}

struct Out {
    code: Option<i32>,
    text: String,
    secs: f64,
    timeout: bool,
}

fn run_cmd(mut c: Command, dir: &str, name: &str, limit: u64) -> Option<Out> {
    let path = format!("{}/{}.log", dir, name);
    let f = std::fs::File::create(&path).ok()?;
    let g = f.try_clone().ok()?;
    let t0 = Instant::now();
    use std::os::unix::process::CommandExt;
    c.process_group(0);
    let mut k = c.stdin(Stdio::null()).stdout(f).stderr(g).spawn().ok()?;
    let (code, timeout) = loop {
        match k.try_wait() {
            Ok(Some(s)) => break (s.code(), false),
            Ok(None) if t0.elapsed() > Duration::from_secs(limit) => {
                let _ = Command::new("kill").arg("-9").arg("--").arg(format!("-{}", k.id())).status();
                let _ = k.wait();
                break (None, true);
            }
            Ok(None) => std::thread::sleep(Duration::from_millis(20)),
            Err(_) => break (None, false),
        }
    };
    let text = String::from_utf8_lossy(&std::fs::read(&path).unwrap_or_default()).to_string();
    Some(Out { code, text, secs: t0.elapsed().as_secs_f64(), timeout })
}

fn tail(s: &str) -> String {
    let l: Vec<&str> = s.lines().collect();
    l[l.len().saturating_sub(60)..].join("\n")
}

/// a report in the log of a sanitizer
fn report(name: &str, t: &str) -> Option<String> {
    for l in t.lines() {
        let hit = match name {
            "miri" => l.contains("error: Undefined Behavior") || l.contains("Data race detected") || l.contains("error: the evaluated program deadlocked") || l.contains("error: deadlock"),
            "tsan" => l.contains("WARNING: ThreadSanitizer") || l.contains("ERROR: ThreadSanitizer"),
            _ => l.contains("ERROR: AddressSanitizer"),
        };
        if hit || l.starts_with("MISMATCH") {
            return Some(l.trim().to_string());
        }
    }
    None
}

pub fn run(root: &str, dir: &str, tier: &str, seed: u64) -> Leg {
    let thorough = tier == "thorough";
    let mut json = vec![];
    let legs: Vec<(&'static str, u64)> = vec![("miri", 400), ("tsan", 400), ("asan", 400)];
    let mut hs = vec![];
    for (name, limit) in legs {
        let rounds = match (name, thorough) {
            ("miri", false) => 2,
            ("miri", true) => 40,
            (_, false) => 6,
            (_, true) => 300,
        };
        let mut c = Command::new("cargo");
        c.current_dir(format!("{}/race", root)).env("CARGO_TARGET_DIR", format!("{}/target/race-{}", root, name)).env_remove("RUSTFLAGS").env("CARGO_NET_OFFLINE", "true");
        c.arg("+nightly");
        match name {
            "miri" => {
                c.args(["miri", "run", "--offline", "-q"]);
                c.env("MIRIFLAGS", format!("-Zmiri-ignore-leaks -Zmiri-disable-isolation -Zmiri-seed={}", seed));
            }
            "tsan" => {
                c.args(["run", "--offline", "-q", "-Zbuild-std", "--target", "x86_64-unknown-linux-gnu"]);
                c.env("RUSTFLAGS", "-Zsanitizer=thread").env("TSAN_OPTIONS", "halt_on_error=0 exitcode=66");
            }
            _ => {
                c.args(["run", "--offline", "-q", "--target", "x86_64-unknown-linux-gnu"]);
                c.env("RUSTFLAGS", "-Zsanitizer=address").env("ASAN_OPTIONS", "detect_leaks=0 exitcode=67");
            }
        }
        c.args(["--", name, &seed.to_string(), &rounds.to_string()]);
        let limit = if thorough { limit * 2 } else { limit };
        let d = dir.to_string();
        hs.push((name, std::thread::spawn(move || run_cmd(c, &d, name, limit))));
    }
    let mut bad: Option<(String, String)> = None;
    for (name, h) in hs {
        let o = match h.join().unwrap_or(None) {
            Some(o) => o,
            None => {
                println!("C30: leg {} could not be started", name);
                json.push(format!("{}:{{\"ran\":false}}", crate::jstr(name)));
                continue;
            }
        };
        if let Some(m) = report(name, &o.text) {
            bad.get_or_insert((format!("{}: {}", name, m), tail(&o.text)));
            continue;
        }
        let obs = o.text.lines().find(|l| l.starts_with("OBSERVED ")).unwrap_or("").to_string();
        if o.code == Some(0) && !obs.is_empty() {
            json.push(format!("{}:{{\"ran\":true,\"observed\":{},\"wall_s\":{:.1}}}", crate::jstr(name), crate::jstr(&obs[9..]), o.secs));
        } else {
            println!("C30: leg {} gave no answer (code {:?}, timeout {}): {}", name, o.code, o.timeout, rt::short(&tail(&o.text)));
            json.push(format!("{}:{{\"ran\":false,\"why\":{}}}", crate::jstr(name), crate::jstr(&rt::short(&tail(&o.text)))));
        }
    }
    if let Some((m, t)) = bad {
        return Leg::Violated(m, t);
    }
    Leg::Held(format!("{{{}}}", json.join(",")))
}
