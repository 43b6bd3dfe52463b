use crate::ensure;
use crate::ops;
use crate::rt::*;
use std::collections::BTreeMap;
use std::process::{Command, Stdio};

/// one history in a process of its own: results by operation
fn history(c: &mut Ctx, seed: u64, order: u64, threads: usize, only: Option<usize>) -> Result<BTreeMap<usize, (String, String)>, String> {
    process(c, seed, order, threads, only, None)
}
fn process(c: &mut Ctx, seed: u64, order: u64, threads: usize, only: Option<usize>, hammer: Option<usize>) -> Result<BTreeMap<usize, (String, String)>, String> {
    let exe = std::env::current_exe().expect("own path");
    let out = std::env::temp_dir().join(format!("ecmon-{}-{}", std::process::id(), c.idx));
    let out_s = out.to_string_lossy().to_string();
    let mut cmd = Command::new(exe);
    cmd.arg("ops").arg(format!("seed={}", seed)).arg(format!("order={}", order)).arg(format!("threads={}", threads)).arg(format!("out={}", out_s));
    if let Some(i) = only {
        cmd.arg(format!("only={}", i));
    }
    if let Some(n) = hammer {
        cmd.arg(format!("hammer={}", n));
    }
    let st = cmd.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).status().expect("start a history");
    let text = std::fs::read_to_string(&out).unwrap_or_default();
    let _ = std::fs::remove_file(&out);
    let how = format!("history (seed {}, order {}, {} threads{})", seed, order, threads, only.map(|i| format!(", operation {} alone", i)).unwrap_or_default());
    match st.code() {
        Some(0) => {}
        Some(1) => return Err(format!("{}: {}", how, short(&text))),
        Some(EXIT_CPU) | Some(EXIT_STEPS) | Some(EXIT_MEM) | Some(EXIT_HANG) => return Err(format!("{}: did not return within its budget (code {:?})", how, st.code())),
        code => {
            use std::os::unix::process::ExitStatusExt;
            if let Some(sig) = st.signal() {
                if [4, 6, 7, 8, 11].contains(&sig) {
                    return Err(format!("{}: crashed with signal {}", how, sig));
                }
            }
            panic!("{}: ended with {:?} {:?}", how, code, st);
        }
    }
    let mut m = BTreeMap::new();
    for l in text.lines() {
        let f: Vec<&str> = l.splitn(3, '\t').collect();
        if f.len() == 3 {
            m.insert(f[0].parse().expect("index"), (f[1].to_string(), f[2].to_string()));
        }
    }
    assert!(!m.is_empty(), "{}: no results", how);
    c.calls += m.len() as u64;
    Ok(m)
}
fn compare(a: &BTreeMap<usize, (String, String)>, b: &BTreeMap<usize, (String, String)>, what: &str) -> Res {
    for (i, (name, r)) in b {
        let w = a.get(i).map(|x| &x.1);
        ensure!(w == Some(r), "'{}' depends on {}: {} and {}", name, what, short(w.unwrap_or(&String::new())), short(r));
        ensure!(r != "PANIC", "'{}' panicked", name);
    }
    Ok(())
}

fn c30_histories(c: &mut Ctx) -> Res {
    let seed = c.rng.u64() >> 1;
    c.input(&seed);
    c.nontrivial = true;
    let base = history(c, seed, 0, 1, None)?;
    let n = base.len();
    c.note(|| format!("operands from seed {}, {} operations: in order, reversed, shuffled twice over, alone, on 4 threads", seed, n));
    compare(&base, &base, "nothing")?;
    let rev = history(c, seed, 1, 1, None)?;
    compare(&base, &rev, "the order of the operations")?;
    let k = 2 + (c.rng.u64() >> 2);
    let shuf = history(c, seed, k, 1, None)?;
    compare(&base, &shuf, "the order of the operations")?;
    for _ in 0..10 {
        let i = c.rng.usize(0, n - 1);
        let one = history(c, seed, 0, 1, Some(i))?;
        compare(&base, &one, "the history (first call of a fresh process or not)")?;
        c.feat("operations run alone in a fresh process");
    }
    let th = history(c, seed, 0, 4, None)?;
    compare(&base, &th, "running concurrently")?;
    let k = 2 + (c.rng.u64() >> 2);
    let th = history(c, seed, k, 3, None)?;
    compare(&base, &th, "running concurrently")?;
    c.feat("histories compared: 16 per case");
    Ok(())
}

/// calls of one operation with different arguments, on several threads
fn c30_hammer(c: &mut Ctx) -> Res {
    let seed = c.rng.u64() >> 1;
    let threads = c.rng.usize(2, 6);
    c.input(&seed);
    c.nontrivial = true;
    c.note(|| format!("operands from seed {}, groups of calls on {} threads", seed, threads));
    let m = process(c, seed, 0, threads, None, Some(60))?;
    for (groups, (_, calls)) in m {
        c.feat_n("groups of calls run concurrently", groups as u64);
        c.feat_n("concurrent calls in groups", calls.parse().unwrap_or(0));
    }
    Ok(())
}

/// within one process: operands of many operations are not modified, and the
/// second call agrees with the first
fn c30_twice(c: &mut Ctx) -> Res {
    let seed = c.rng.u64();
    let s = ops::Shared::new(seed, true);
    let o = ops::ops(&s, true);
    c.input(&seed);
    c.nontrivial = true;
    c.note(|| format!("operands from seed {}, 60 of {} operations twice", seed, o.len()));
    let mut before = s.digest();
    let mut first: BTreeMap<usize, String> = BTreeMap::new();
    for _ in 0..60 {
        let i = c.rng.usize(0, o.len() - 1);
        let r = c.lib("operation of the history", || (o[i].f)(&s)).map_err(|e| format!("'{}': {}", o[i].name, e))?;
        let after = s.digest();
        ensure!(before == after, "'{}' changed its operands", o[i].name);
        before = after;
        if let Some(f) = first.get(&i) {
            ensure!(*f == r, "'{}' gave {} and then {}", o[i].name, short(f), short(&r));
            c.feat("operations repeated");
        }
        first.insert(i, r);
    }
    Ok(())
}

pub fn c30() -> Prop {
    Prop {
        id: "C30",
        rule: "a set of shared operands on which some hundred operations run in different histories, each a process of its own (in order, reversed, shuffled, alone, several threads), with all results compared, or 60 operations with the operands compared before and after",
        scenarios: vec![
            sc("histories", 120, 3_000, c30_histories).steps(5_000_000_000).cpu(300),
            sc("hammer", 80, 3_000, c30_hammer).steps(200_000_000_000).cpu(600),
            sc("operands", 1_500, 40_000, c30_twice).steps(100_000_000),
        ],
    }
}
