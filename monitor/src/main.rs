mod gen;
mod model;
mod fp;
mod series;
mod props;
mod rng;
mod rt;
mod legs;
mod ops;

use rt::*;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::fs;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::sync::atomic::Ordering::Relaxed;
use std::time::{Duration, Instant};

#[global_allocator]
static GLOBAL: Counting = Counting;

fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

fn case_seed(prop: &str, scen: &str, seed: u64, idx: u64) -> u64 {
    rng::mix(fnv(prop) ^ rng::mix(fnv(scen) ^ rng::mix(seed ^ rng::mix(idx))))
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// flat "key=value" file, one per line, newlines escaped
fn kv_write(path: &str, kv: &[(String, String)]) {
    let mut s = String::new();
    for (k, v) in kv {
        let _ = writeln!(s, "{}={}", k, v.replace('\\', "\\\\").replace('\n', "\\n"));
    }
    fs::write(path, s).expect("write kv");
}
fn kv_read(path: &str) -> Vec<(String, String)> {
    let s = fs::read_to_string(path).unwrap_or_default();
    s.lines()
        .filter_map(|l| {
            let (k, v) = l.split_once('=')?;
            let mut o = String::new();
            let mut it = v.chars();
            while let Some(c) = it.next() {
                if c == '\\' {
                    match it.next() {
                        Some('n') => o.push('\n'),
                        Some(c) => o.push(c),
                        None => {}
                    }
                } else {
                    o.push(c)
                }
            }
            Some((k.to_string(), o))
        })
        .collect()
}
fn kv_get<'a>(kv: &'a [(String, String)], k: &str) -> Option<&'a str> {
    kv.iter().find(|x| x.0 == k).map(|x| x.1.as_str())
}

fn run_case(p: &Prop, si: usize, idx: u64, seed: u64, verbose: bool, feats: &mut BTreeMap<String, u64>) -> (Res, u64, bool, u64, Vec<String>) {
    let s = &p.scenarios[si];
    let mut ctx = Ctx::new(case_seed(p.id, s.name, seed, idx), idx, verbose, s.steps, s.cpu_s, feats);
    let r = (s.f)(&mut ctx);
    (r, ctx.digest() ^ fnv(s.name), ctx.nontrivial, ctx.calls, ctx.lines)
}

struct Opt(BTreeMap<String, String>);
impl Opt {
    fn get(&self, k: &str) -> &str {
        self.0.get(k).map(|s| s.as_str()).unwrap_or("")
    }
    fn num(&self, k: &str) -> u64 {
        self.get(k).parse().unwrap_or(0)
    }
}

fn plan(s: &Scenario, tier: &str) -> u64 {
    if tier == "thorough" { s.thorough } else { s.quick }
}

/// worker: runs the cases idx = shard (mod shards) of every scenario,
/// interleaved, until done, out of time, or a violation.
fn worker(o: &Opt) {
    let p = props::find(o.get("prop")).expect("unknown property");
    install_hook();
    start_watchdog();
    let (seed, shard, shards) = (o.num("seed"), o.num("shard"), o.num("shards"));
    let tier = o.get("tier").to_string();
    let dir = o.get("dir").to_string();
    let budget = Duration::from_secs(o.num("secs"));
    // replay of a whole prefix: stop after this step
    let stop = o.0.get("stop").map(|s| s.parse::<u64>().unwrap());
    let base = format!("{}/w{}", dir, shard);
    let status = fs::OpenOptions::new().create(true).truncate(true).write(true).open(format!("{}.cur", base)).unwrap();
    let n = p.scenarios.len();
    let totals: Vec<u64> = p.scenarios.iter().map(|s| plan(s, &tier)).collect();
    // number of cases of this shard per scenario
    let mine: Vec<u64> = totals.iter().map(|t| if *t > shard { (*t - shard + shards - 1) / shards } else { 0 }).collect();
    let mut done = vec![0u64; n];
    let mut feats: BTreeMap<String, u64> = BTreeMap::new();
    let mut hashes: Vec<u8> = vec![];
    let mut seen: HashSet<u64> = HashSet::new();
    let (mut calls, mut nontrivial) = (0u64, 0u64);
    let mut samples: Vec<String> = vec![];
    let start = Instant::now();
    let mut step = 0u64;
    let mut violation: Option<(usize, u64, String)> = None;
    let mut maxa = vec![0u64; n];
    let mut maxc = vec![0u64; n];
    let mut spent = vec![0u64; n];
    loop {
        // out of time: on a slow machine every scenario still gets one case
        let late = start.elapsed() > budget && stop.is_none();
        if late && start.elapsed() > budget + Duration::from_secs(250) {
            break;
        }
        // the scenario that is furthest behind
        let mut best: Option<usize> = None;
        for i in 0..n {
            if done[i] < mine[i] && !(late && done[i] > 0) {
                match best {
                    None => best = Some(i),
                    Some(b) => {
                        // a scenario of few, dear cases comes last
                        if (done[i] as u128 + 1) * (mine[b] as u128) < (done[b] as u128 + 1) * (mine[i] as u128) {
                            best = Some(i)
                        }
                    }
                }
            }
        }
        let si = match best {
            Some(i) => i,
            None => break,
        };
        let idx = shard + done[si] * shards;
        let _ = status.write_at(format!("{:10} {:20} {:20}", si, idx, step).as_bytes(), 0);
        let verbose = done[si] == 0 && shard == 0;
        MAX_ALLOCS.store(0, Relaxed);
        MAX_CPU_NS.store(0, Relaxed);
        let t0 = Instant::now();
        let (r, h, nt, c, lines) = run_case(&p, si, idx, seed, verbose, &mut feats);
        spent[si] += t0.elapsed().as_micros() as u64;
        maxa[si] = maxa[si].max(MAX_ALLOCS.load(Relaxed));
        maxc[si] = maxc[si].max(MAX_CPU_NS.load(Relaxed));
        calls += c;
        done[si] += 1;
        step += 1;
        if nt {
            nontrivial += 1;
            if seen.len() < 2_000_000 && seen.insert(h) {
                hashes.extend_from_slice(&h.to_le_bytes());
            }
        }
        if verbose && !lines.is_empty() {
            samples.push(format!("{}#{}: {}", p.scenarios[si].name, idx, short(&lines.join("; "))));
        }
        if let Err(m) = r {
            violation = Some((si, idx, m));
            break;
        }
        if stop == Some(step) {
            break;
        }
    }
    fs::write(format!("{}.hash", base), &hashes).unwrap();
    let mut kv: Vec<(String, String)> = vec![];
    let mut put = |k: String, v: String| kv.push((k, v));
    for i in 0..n {
        put(format!("done.{}", i), done[i].to_string());
        put(format!("maxa.{}", i), maxa[i].to_string());
        put(format!("maxc.{}", i), maxc[i].to_string());
        put(format!("spent.{}", i), spent[i].to_string());
    }
    put("calls".into(), calls.to_string());
    put("nontrivial".into(), nontrivial.to_string());
    for (i, s) in samples.iter().enumerate() {
        put(format!("sample.{}", i), s.clone());
    }
    for (k, v) in &feats {
        put(format!("feat.{}", k), v.to_string());
    }
    if let Some((si, idx, m)) = violation {
        put("v.scen".into(), si.to_string());
        put("v.idx".into(), idx.to_string());
        put("v.step".into(), step.to_string());
        put("v.msg".into(), m);
    }
    put("end".into(), "1".into());
    kv_write(&format!("{}.out", base), &kv);
}

/// runs one case verbosely; exit 1 if it is a violation
fn single(o: &Opt) -> i32 {
    let p = props::find(o.get("prop")).expect("unknown property");
    install_hook();
    start_watchdog();
    let mut feats = BTreeMap::new();
    let (r, _, _, _, lines) = run_case(&p, o.num("scen") as usize, o.num("idx"), o.num("seed"), true, &mut feats);
    let mut f = fs::File::create(o.get("out")).unwrap();
    for l in &lines {
        let _ = writeln!(f, "{}", l);
    }
    match r {
        Ok(()) => 0,
        Err(m) => {
            let _ = writeln!(f, "VIOLATED: {}", m);
            1
        }
    }
}

/// how a worker ended: Ok(exit code) or the meaning of an abnormal end
fn abnormal(st: &std::process::ExitStatus, err: &str) -> Option<Result<String, String>> {
    let trip = err.lines().rev().find(|l| l.starts_with("TRIP in ")).unwrap_or("").to_string();
    if let Some(sig) = st.signal() {
        return Some(match sig {
            11 | 6 | 7 | 4 | 8 => Ok(format!("the process crashed with signal {} ({})", sig, short(err.trim()))),
            _ => Err(format!("killed by signal {}", sig)),
        });
    }
    match st.code() {
        Some(0) | Some(1) => None,
        Some(EXIT_CPU) => Some(Ok(format!("call did not return within its CPU budget; {}", trip))),
        Some(EXIT_HANG) => Some(Ok(format!("call waits for ever; {}", trip))),
        Some(EXIT_STEPS) => Some(Ok(format!("call did not return within its step budget; {}", trip))),
        Some(EXIT_MEM) => Some(Ok(format!("call did not return within its memory budget; {}", trip))),
        c => Some(Err(format!("exit {:?}: {}", c, short(err.trim())))),
    }
}

/// the odd shards run the build without overflow checks and debug assertions,
/// when there is one (option alt)
fn shard_bin(o: &Opt, shard: u64) -> String {
    if shard % 2 == 1 && !o.get("alt").is_empty() {
        return o.get("alt").to_string();
    }
    std::env::current_exe().unwrap().to_string_lossy().to_string()
}
fn self_cmd(bin: &str, mode: &str, kv: &[(&str, String)]) -> Command {
    let mut c = Command::new(bin);
    c.arg(mode);
    for (k, v) in kv {
        c.arg(format!("{}={}", k, v));
    }
    c
}

struct Found {
    scen: usize,
    idx: u64,
    shard: u64,
    step: u64,
    msg: String,
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

fn run(o: &Opt) -> i32 {
    let t0 = Instant::now();
    let id = o.get("prop").to_string();
    let p = match props::find(&id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            return 2;
        }
    };
    let tier = if o.get("tier") == "thorough" { "thorough" } else { "quick" };
    let seed = if o.0.contains_key("seed") { o.num("seed") } else { 1 };
    let secs = if o.0.contains_key("secs") { o.num("secs") } else if tier == "thorough" { 560 } else { 100 };
    let shards = if o.0.contains_key("shards") { o.num("shards") } else { 8 };
    let root = verif_dir();
    let dir = format!("{}/run/{}-{}-{}", root, id, tier, std::process::id());
    fs::create_dir_all(&dir).unwrap();
    let mut kids = vec![];
    for s in 0..shards {
        let err = fs::File::create(format!("{}/w{}.err", dir, s)).unwrap();
        let c = self_cmd(&shard_bin(o, s), "worker", &[("prop", id.clone()), ("seed", seed.to_string()), ("shard", s.to_string()), ("shards", shards.to_string()),
            ("tier", tier.into()), ("dir", dir.clone()), ("secs", secs.to_string())])
            .stdout(Stdio::null()).stderr(err).stdin(Stdio::null()).spawn();
        match c {
            Ok(c) => kids.push(c),
            Err(e) => {
                eprintln!("cannot start worker: {}", e);
                return 2;
            }
        }
    }
    let mut inconclusive: Vec<String> = vec![];
    let mut found: Vec<Found> = vec![];
    let n = p.scenarios.len();
    let (mut done, mut maxa, mut maxc, mut spent) = (vec![0u64; n], vec![0u64; n], vec![0u64; n], vec![0u64; n]);
    let (mut calls, mut nontrivial) = (0u64, 0u64);
    let mut built = [0u64; 2];
    let mut feats: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut hashes: HashSet<u64> = HashSet::new();
    // wall clock guard: firing is inconclusive, never a violation
    let guard = Duration::from_secs(secs + 330);
    for (s, k) in kids.iter_mut().enumerate() {
        let st = loop {
            match k.try_wait() {
                Ok(Some(st)) => break Some(st),
                Ok(None) => {
                    if t0.elapsed() > guard {
                        let _ = k.kill();
                        let _ = k.wait();
                        inconclusive.push(format!("shard {} still running after {:?}", s, guard));
                        break None;
                    }
                    std::thread::sleep(Duration::from_millis(10));
                }
                Err(e) => {
                    inconclusive.push(format!("shard {}: {}", s, e));
                    break None;
                }
            }
        };
        let st = match st {
            Some(s) => s,
            None => continue,
        };
        let err = fs::read_to_string(format!("{}/w{}.err", dir, s)).unwrap_or_default();
        match abnormal(&st, &err) {
            Some(Ok(m)) => {
                let cur = fs::read_to_string(format!("{}/w{}.cur", dir, s)).unwrap_or_default();
                let f: Vec<u64> = cur.split_whitespace().filter_map(|x| x.parse().ok()).collect();
                if f.len() == 3 {
                    found.push(Found { scen: f[0] as usize, idx: f[1], shard: s as u64, step: f[2] + 1, msg: m });
                } else {
                    inconclusive.push(format!("shard {}: {} (case unknown)", s, m));
                }
                continue;
            }
            Some(Err(m)) => {
                inconclusive.push(format!("shard {}: {}", s, m));
                continue;
            }
            None => {}
        }
        let kv = kv_read(&format!("{}/w{}.out", dir, s));
        if kv_get(&kv, "end").is_none() {
            inconclusive.push(format!("shard {}: no result", s));
            continue;
        }
        let num = |k: &str| kv_get(&kv, k).and_then(|v| v.parse::<u64>().ok()).unwrap_or(0);
        for i in 0..n {
            done[i] += num(&format!("done.{}", i));
            built[if o.get("alt").is_empty() { 0 } else { s % 2 }] += num(&format!("done.{}", i));
            spent[i] += num(&format!("spent.{}", i));
            maxa[i] = maxa[i].max(num(&format!("maxa.{}", i)));
            maxc[i] = maxc[i].max(num(&format!("maxc.{}", i)));
        }
        calls += num("calls");
        nontrivial += num("nontrivial");
        for (k, v) in &kv {
            if let Some(f) = k.strip_prefix("feat.") {
                *feats.entry(f.into()).or_insert(0) += v.parse::<u64>().unwrap_or(0);
            } else if k.starts_with("sample.") {
                samples.push(v.clone());
            }
        }
        if let Ok(h) = fs::read(format!("{}/w{}.hash", dir, s)) {
            for c in h.chunks_exact(8) {
                let mut b = [0u8; 8];
                b.copy_from_slice(c);
                hashes.insert(u64::from_le_bytes(b));
            }
        }
        if let Some(m) = kv_get(&kv, "v.msg") {
            found.push(Found { scen: num("v.scen") as usize, idx: num("v.idx"), shard: s as u64, step: num("v.step"), msg: m.to_string() });
        }
    }
    // the smallest case index of the first scenario is the most readable witness
    found.sort_by_key(|f| (f.scen, f.idx));
    let mut legs_json = String::new();
    let mut replay: Option<String> = None;
    if let Some(f) = found.first() {
        let sname = p.scenarios[f.scen].name;
        let rdir = format!("{}/replays", root);
        let _ = fs::create_dir_all(&rdir);
        let path = format!("{}/{}-{}-{}-{}.txt", rdir, id, seed, sname, f.idx);
        let desc = format!("{}/single.txt", dir);
        let st = self_cmd(&shard_bin(o, f.shard), "single", &[("prop", id.clone()), ("seed", seed.to_string()), ("scen", f.scen.to_string()), ("idx", f.idx.to_string()), ("out", desc.clone())])
            .stdout(Stdio::null()).stderr(Stdio::null()).status();
        let single_bad = matches!(&st, Ok(s) if !s.success());
        let text = fs::read_to_string(&desc).unwrap_or_default();
        let kind = if single_bad { "single" } else { "prefix" };
        let kv: Vec<(String, String)> = vec![
            ("property".into(), id.clone()), ("kind".into(), kind.into()), ("tier".into(), tier.into()), ("seed".into(), seed.to_string()),
            ("scen".into(), f.scen.to_string()), ("scenario".into(), sname.into()), ("idx".into(), f.idx.to_string()), ("shard".into(), f.shard.to_string()),
            ("shards".into(), shards.to_string()), ("step".into(), f.step.to_string()), ("message".into(), f.msg.clone()), ("case".into(), text.clone()),
        ];
        kv_write(&path, &kv);
        println!("{}: case {}#{} (seed {}): {}", id, sname, f.idx, seed, f.msg);
        for l in text.lines().take(20) {
            println!("  {}", l);
        }
        if !single_bad {
            println!("  (shows only after the earlier cases of shard {}: the result depends on the history)", f.shard);
        }
        replay = Some(path);
    } else if inconclusive.is_empty() && id == "C30" {
        match legs::run(&root, &dir, tier, seed) {
            legs::Leg::Held(j) => legs_json = j,
            legs::Leg::Violated(m, log) => {
                let rdir = format!("{}/replays", root);
                let _ = fs::create_dir_all(&rdir);
                let path = format!("{}/{}-{}-sanitizer.txt", rdir, id, seed);
                kv_write(&path, &[("property".into(), id.clone()), ("kind".into(), "leg".into()), ("tier".into(), tier.into()), ("seed".into(), seed.to_string()), ("message".into(), m.clone()), ("case".into(), log)]);
                println!("{}: {}", id, m);
                replay = Some(path);
            }
            legs::Leg::Inconclusive(m) => inconclusive.push(m),
        }
    }
    for i in 0..n {
        if found.is_empty() && done[i] == 0 && plan(&p.scenarios[i], tier) > 0 {
            inconclusive.push(format!("scenario {} observed nothing", p.scenarios[i].name));
        }
    }
    // evidence
    let total: u64 = done.iter().sum();
    let mut e = String::new();
    let _ = write!(e, "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",\"coverage\":{{", jstr(&id), jstr(tier), seed);
    let _ = write!(e, "\"evaluations\":{},\"distinct_nontrivial\":{},\"nontrivial\":{},\"monitored_calls\":{},\"rule\":{},", total, hashes.len(), nontrivial, calls, jstr(p.rule));
    let ss: Vec<String> = samples.iter().take(12).map(|s| jstr(s)).collect();
    let _ = write!(e, "\"samples\":[{}],\"scenarios\":{{", ss.join(","));
    let mut parts = vec![];
    for i in 0..n {
        let s = &p.scenarios[i];
        let ex = match s.space {
            Some(sp) => format!(",\"space\":{},\"exhausted\":{}", sp, done[i] == sp),
            None => String::new(),
        };
        parts.push(format!("{}:{{\"cases\":{},\"planned\":{},\"cpu_s\":{:.2},\"max_allocs_per_call\":{},\"step_budget\":{},\"max_cpu_ms_per_call\":{}{}}}",
            jstr(s.name), done[i], plan(s, tier), spent[i] as f64 / 1e6, maxa[i], s.steps, maxc[i] / 1_000_000, ex));
    }
    let fs_: Vec<String> = feats.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
    let _ = write!(e, "{}}},\"builds\":{{\"overflow_checks_and_debug_assertions\":{},\"release_without_them\":{}}},\"observed\":{{{}}}", parts.join(","), built[0], built[1], fs_.join(","));
    if !legs_json.is_empty() {
        let _ = write!(e, ",\"sanitizers\":{}", legs_json);
    }
    if !inconclusive.is_empty() {
        let v: Vec<String> = inconclusive.iter().map(|s| jstr(s)).collect();
        let _ = write!(e, ",\"inconclusive\":[{}]", v.join(","));
    }
    let _ = write!(e, "}},\"assumptions\":[\"num-bigint 0.2.2, num-integer, the Rust compiler and standard library are correct\",\"the reference models in /verif/monitor/src (model.rs, fp.rs, series.rs) are correct\",\"held only on the executions counted here\"],");
    let _ = write!(e, "\"wall_s\":{:.2},\"violations\":{}}}\n", t0.elapsed().as_secs_f64(), if replay.is_some() { 1 } else { 0 });
    let _ = fs::create_dir_all(format!("{}/evidence", root));
    fs::write(format!("{}/evidence/{}.json", root, id), e).unwrap();
    let _ = fs::remove_dir_all(&dir);
    if let Some(r) = replay {
        println!("VIOLATION property={} replay={}", id, r);
        return 1;
    }
    if !inconclusive.is_empty() {
        for m in &inconclusive {
            eprintln!("{}: INCONCLUSIVE: {}", id, m);
        }
        return 2;
    }
    println!("{}: held on {} cases ({} distinct non-trivial), {} monitored calls, {:.1} s, tier {}, seed {}", id, total, hashes.len(), calls, t0.elapsed().as_secs_f64(), tier, seed);
    0
}

fn replay(o: &Opt, file: &str) -> i32 {
    let kv = kv_read(file);
    let g = |k: &str| kv_get(&kv, k).unwrap_or("").to_string();
    println!("property {} scenario {} case {} seed {}", g("property"), g("scenario"), g("idx"), g("seed"));
    println!("recorded: {}", g("message"));
    let shard: u64 = g("shard").parse().unwrap_or(0);
    match g("kind").as_str() {
        "single" => {
            let out = format!("{}/run/replay-{}.txt", verif_dir(), std::process::id());
            let _ = fs::create_dir_all(format!("{}/run", verif_dir()));
            let st = self_cmd(&shard_bin(o, shard), "single", &[("prop", g("property")), ("seed", g("seed")), ("scen", g("scen")), ("idx", g("idx")), ("out", out.clone())])
                .stdout(Stdio::null()).status().unwrap();
            print!("{}", fs::read_to_string(&out).unwrap_or_default());
            let _ = fs::remove_file(&out);
            println!("{}", if st.success() { "not reproduced" } else { "reproduced" });
            if st.success() { 0 } else { 1 }
        }
        "prefix" => {
            let dir = format!("{}/run/replay-{}", verif_dir(), std::process::id());
            let _ = fs::create_dir_all(&dir);
            let st = self_cmd(&shard_bin(o, shard), "worker", &[("prop", g("property")), ("seed", g("seed")), ("shard", g("shard")), ("shards", g("shards")), ("tier", g("tier")), ("dir", dir.clone()), ("secs", "100000".into()), ("stop", g("step"))])
                .stdout(Stdio::null()).status().unwrap();
            let r = kv_read(&format!("{}/w{}.out", dir, g("shard")));
            let bad = !st.success() || kv_get(&r, "v.msg").is_some();
            println!("{}", kv_get(&r, "v.msg").unwrap_or("no violation recorded"));
            println!("{}", if bad { "reproduced" } else { "not reproduced" });
            let _ = fs::remove_dir_all(&dir);
            if bad { 1 } else { 0 }
        }
        _ => {
            println!("{}\n(sanitizer leg: run the check again)", g("case"));
            0
        }
    }
}

fn main() {
    let mut a = std::env::args().skip(1);
    let mode = a.next().unwrap_or_default();
    let mut o = Opt(BTreeMap::new());
    let mut rest = vec![];
    for x in a {
        if let Some((k, v)) = x.split_once('=') {
            o.0.insert(k.into(), v.into());
        } else {
            rest.push(x);
        }
    }
    let code = match mode.as_str() {
        "worker" => {
            worker(&o);
            0
        }
        "single" => single(&o),
        "run" => run(&o),
        "replay" => replay(&o, &rest[0]),
        "cost" => legs::cost(&o.0),
        "ops" => legs::ops_main(&o.0),
        "list" => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: ecmon run prop=C01 tier=quick seed=1 | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}
