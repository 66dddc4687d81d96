//! Batches of runs in worker processes, shrinking, replay, evidence.
use crate::core::*;
use crate::props::{Prop, KNOWN, PROPS};
use crate::{quiet_panics, run_once};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

const HANG: Duration = Duration::from_secs(30);

fn prop(id: &str) -> &'static Prop {
    PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    })
}
fn verif() -> PathBuf {
    std::env::var("BCSIM_ROOT").map_or_else(|_| PathBuf::from("/verif"), PathBuf::from)
}
fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|s| s.trim().parse().ok()).unwrap_or(d)
}
fn me() -> PathBuf {
    std::env::current_exe().expect("current_exe")
}
fn num(s: &str) -> u64 {
    s.parse().expect("number")
}

// ---------------------------------------------------------------- worker

/// worker PROP SEED FROM STRIDE END DEADLINE_MS DIR
pub fn worker(a: &[&str]) -> i32 {
    quiet_panics();
    let p = prop(a[0]);
    let (seed, from, stride, end, deadline) = (num(a[1]), num(a[2]), num(a[3]), num(a[4]), num(a[5]));
    let dir = Path::new(a[6]);
    let t0 = Instant::now();
    let hb = fs::File::create(dir.join(format!("hb.{from}"))).expect("heartbeat");
    let mut total = Stats::default();
    let mut seen: HashSet<u64> = HashSet::new();
    let mut evals = 0u64;
    let mut nontrivial = 0u64;
    let mut samples: Vec<Value> = vec![];
    let mut viol = Value::Null;
    let mut digest = 0u64;
    let mut i = from;
    while i < end {
        if evals % 16 == 0 && t0.elapsed().as_millis() as u64 > deadline {
            break;
        }
        let _ = hb.write_at(&i.to_le_bytes(), 0);
        let rs = run_seed(seed, p.id, i);
        let r = run_once(p, Choices::seeded(rs), false);
        evals += 1;
        digest = splitmix(digest ^ r.hashes.0);
        for (k, v) in &r.stats.faults {
            *total.faults.entry(k).or_insert(0) += v;
        }
        for (k, v) in &r.stats.probes {
            *total.probes.entry(k).or_insert(0) += v;
        }
        total.steps += r.stats.steps;
        total.bytes += r.stats.bytes;
        total.items += r.stats.items;
        total.ticks += r.stats.ticks;
        if r.nontrivial {
            nontrivial += 1;
            if seen.len() < 4_000_000 {
                seen.insert(r.hashes.1);
            }
            if samples.len() < 2 && r.choices.len() < 400 {
                let t = run_once(p, Choices::replay(r.choices.clone()), true);
                let n = t.log.len();
                samples.push(json!({"run": i, "run_seed": rs, "choices": r.choices.len(), "events": n, "trace": t.log.into_iter().take(30).collect::<Vec<_>>()}));
            }
        }
        if let Err(v) = r.res {
            viol = json!({"index": i, "run_seed": rs, "class": v.class, "msg": v.msg, "choices": r.choices});
            break;
        }
        i += stride;
    }
    let mut hs: Vec<u8> = Vec::with_capacity(seen.len() * 8);
    for h in &seen {
        hs.extend_from_slice(&h.to_le_bytes());
    }
    let _ = fs::write(dir.join(format!("hashes.{from}")), hs);
    let out = json!({
        "evals": evals, "nontrivial": nontrivial, "faults": total.faults, "probes": total.probes, "steps": total.steps,
        "bytes": total.bytes, "items": total.items, "ticks": total.ticks, "samples": samples, "viol": viol,
        "digest": digest, "next": i,
    });
    fs::write(dir.join(format!("out.{from}")), out.to_string()).expect("out");
    0
}

/// record PROP RUNSEED FILE: re-runs a run, writing every choice to FILE as it is made.
pub fn record(a: &[&str]) -> i32 {
    quiet_panics();
    let p = prop(a[0]);
    let mut ch = Choices::seeded(num(a[1]));
    ch.sink = Some(fs::File::create(a[2]).expect("record"));
    run_once(p, ch, false);
    0
}

/// exec PROP FILE: runs the recorded choices (little-endian u64s); prints the violation class, if any.
pub fn exec(a: &[&str]) -> i32 {
    quiet_panics();
    let p = prop(a[0]);
    let r = run_once(p, Choices::replay(read_choices(Path::new(a[1]))), false);
    if let Err(v) = r.res {
        println!("{}", v.class);
        return 1;
    }
    0
}
fn read_choices(f: &Path) -> Vec<u64> {
    let b = fs::read(f).expect("choices");
    b.chunks_exact(8).map(|c| u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]])).collect()
}
fn write_choices(f: &Path, c: &[u64]) {
    let b: Vec<u8> = c.iter().flat_map(|x| x.to_le_bytes()).collect();
    fs::write(f, b).expect("choices");
}

/// hash PROP SEED FROM N: prints history hashes (for determinism checks).
pub fn hash(a: &[&str]) -> i32 {
    quiet_panics();
    let p = prop(a[0]);
    let (seed, from, n) = (num(a[1]), num(a[2]), num(a[3]));
    let mut out = String::new();
    for i in from..from + n {
        let r = run_once(p, Choices::seeded(run_seed(seed, p.id, i)), false);
        out.push_str(&format!("{i} {:016x} {:016x} {}\n", r.hashes.0, r.hashes.1, r.choices.len()));
    }
    print!("{out}");
    0
}

// ---------------------------------------------------------------- shrinking

enum Oracle {
    /// in this process
    Inner,
    /// in a child process (aborts and hangs)
    Outer(PathBuf),
}
fn outcome(p: &Prop, c: &[u64], o: &Oracle) -> Option<String> {
    match o {
        Oracle::Inner => run_once(p, Choices::replay(c.to_vec()), false).res.err().map(|v| v.class),
        Oracle::Outer(tmp) => {
            write_choices(tmp, c);
            outer(p.id, tmp, Duration::from_secs(8))
        }
    }
}
fn outer(id: &str, file: &Path, limit: Duration) -> Option<String> {
    let mut ch = Command::new(me())
        .args(["exec", id, file.to_str().expect("path")])
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn");
    let t0 = Instant::now();
    loop {
        if let Some(st) = ch.try_wait().expect("wait") {
            if let Some(s) = st.signal() {
                return Some(format!("abort-signal-{s}"));
            }
            let mut s = String::new();
            let _ = ch.stdout.take().map(|mut o| o.read_to_string(&mut s));
            return if st.code() == Some(1) { Some(s.trim().to_owned()) } else { None };
        }
        if t0.elapsed() > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            return Some("hang".into());
        }
        std::thread::sleep(Duration::from_millis(2));
    }
}

/// shrink PROP IN OUT CLASS MS [outer]
pub fn shrink(a: &[&str]) -> i32 {
    quiet_panics();
    let p = prop(a[0]);
    let mut best = read_choices(Path::new(a[1]));
    let out = Path::new(a[2]).to_path_buf();
    let class = a[3].to_owned();
    let deadline = Instant::now() + Duration::from_millis(num(a[4]));
    let oracle = if a.get(5) == Some(&"outer") { Oracle::Outer(out.with_extension("cand")) } else { Oracle::Inner };
    let mut tries = 0u64;
    let mut test = |c: &[u64]| -> bool {
        tries += 1;
        outcome(p, c, &oracle).as_deref() == Some(class.as_str())
    };
    if !test(&best) {
        return 1;
    }
    while best.last() == Some(&0) {
        best.pop();
    }
    write_choices(&out, &best);
    let late = || Instant::now() > deadline;
    loop {
        let before = best.clone();
        // Cut the tail (missing choices are 0).
        let mut lo = 0;
        let mut hi = best.len();
        while lo < hi && !late() {
            let mid = (lo + hi) / 2;
            if test(&best[..mid]) {
                hi = mid;
            } else {
                lo = mid + 1;
            }
        }
        if hi < best.len() && test(&best[..hi]) {
            best.truncate(hi);
            write_choices(&out, &best);
        }
        // Delete blocks.
        let mut size = (best.len() / 2).max(1);
        while size >= 1 && !late() {
            let mut i = 0;
            while i < best.len() && !late() {
                let mut c = best.clone();
                c.drain(i..(i + size).min(c.len()));
                if test(&c) {
                    best = c;
                    write_choices(&out, &best);
                } else {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // Zero blocks.
        let mut size = (best.len() / 2).max(1);
        while size >= 1 && !late() {
            let mut i = 0;
            while i < best.len() && !late() {
                let e = (i + size).min(best.len());
                if best[i..e].iter().any(|&x| x != 0) {
                    let mut c = best.clone();
                    c[i..e].iter_mut().for_each(|x| *x = 0);
                    if test(&c) {
                        best = c;
                        write_choices(&out, &best);
                    }
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // Lower single values.
        for i in 0..best.len() {
            if late() {
                break;
            }
            let v = best[i];
            if v == 0 {
                continue;
            }
            let mut lo = 0;
            let mut hi = v;
            let mut c = best.clone();
            c[i] = v - 1;
            if !test(&c) {
                continue;
            }
            hi -= 1;
            while lo < hi && !late() {
                let mid = lo + (hi - lo) / 2;
                c[i] = mid;
                if test(&c) {
                    hi = mid;
                } else {
                    lo = mid + 1;
                }
            }
            c[i] = hi;
            if test(&c) {
                best = c;
                write_choices(&out, &best);
            }
        }
        while best.last() == Some(&0) {
            best.pop();
        }
        write_choices(&out, &best);
        if best == before || late() {
            break;
        }
    }
    println!("{tries}");
    0
}

// ---------------------------------------------------------------- supervisor

struct Found {
    index: u64,
    run_seed: u64,
    class: String,
    msg: String,
    choices: Vec<u64>,
}

/// At most this many distinct histories are counted.
const DISTINCT_CAP: usize = 25_000_000;

struct Batch {
    evals: u64,
    nontrivial: u64,
    steps: u64,
    bytes: u64,
    items: u64,
    ticks: u64,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    samples: Vec<Value>,
    distinct: u64,
    found: Option<Found>,
    wall: f64,
    workers: u64,
    complete: bool,
}

fn heartbeat(dir: &Path, w: u64) -> Option<u64> {
    let b = fs::read(dir.join(format!("hb.{w}"))).ok()?;
    Some(u64::from_le_bytes(b.get(..8)?.try_into().ok()?))
}

fn run_batch(p: &'static Prop, seed: u64, runs: u64, cap_ms: u64, dir: &Path) -> Batch {
    let t0 = Instant::now();
    let workers = env_u64("BCSIM_WORKERS", std::thread::available_parallelism().map_or(4, |n| n.get() as u64)).clamp(1, 64).min(runs.max(1));
    let mut kids: Vec<(u64, Child, Option<u64>, Instant, bool)> = (0..workers)
        .map(|w| {
            let ch = Command::new(me())
                .args(["worker", p.id])
                .args([seed, w, workers, runs, cap_ms].map(|x| x.to_string()))
                .arg(dir)
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .spawn()
                .expect("spawn worker");
            (w, ch, None, Instant::now(), false)
        })
        .collect();
    let mut b = Batch {
        evals: 0,
        nontrivial: 0,
        steps: 0,
        bytes: 0,
        items: 0,
        ticks: 0,
        faults: BTreeMap::new(),
        probes: BTreeMap::new(),
        samples: vec![],
        distinct: 0,
        found: None,
        wall: 0.0,
        workers,
        complete: true,
    };
    let mut all: HashSet<u64> = HashSet::new();
    let mut founds: Vec<Found> = vec![];
    let mut stop_at: Option<Instant> = None;
    let mut live = kids.len();
    while live > 0 {
        std::thread::sleep(Duration::from_millis(10));
        for k in kids.iter_mut().filter(|k| !k.4) {
            let (w, ch, last, since, done) = k;
            match ch.try_wait().expect("wait") {
                Some(st) => {
                    *done = true;
                    live -= 1;
                    let out = fs::read(dir.join(format!("out.{w}"))).ok().and_then(|s| serde_json::from_slice::<Value>(&s).ok());
                    match out {
                        Some(v) if st.success() => {
                            collect(&mut b, &v, &mut founds);
                            if let Ok(h) = fs::read(dir.join(format!("hashes.{w}"))) {
                                // Beyond the cap the set's table would outgrow `ALLOC_LIMIT`: the count is then a lower bound.
                                let new = h.chunks_exact(8).take(DISTINCT_CAP.saturating_sub(all.len()));
                                all.extend(new.map(|c| u64::from_le_bytes(c.try_into().expect("8"))));
                            }
                        }
                        _ => {
                            let i = heartbeat(dir, *w).unwrap_or(*w);
                            let s = st.signal().map_or_else(|| format!("exit {:?}", st.code()), |s| format!("signal {s}"));
                            founds.push(died(p, seed, i, dir, &s));
                        }
                    }
                }
                None => {
                    let h = heartbeat(dir, *w);
                    if h != *last {
                        *last = h;
                        *since = Instant::now();
                    } else if since.elapsed() > HANG {
                        let _ = ch.kill();
                        let _ = ch.wait();
                        *done = true;
                        live -= 1;
                        founds.push(died(p, seed, h.unwrap_or(*w), dir, "hang"));
                    }
                    // Once a violation is known, only runs before it are still of interest.
                    let first = founds.iter().map(|f| f.index).min();
                    if let Some(m) = first.filter(|_| !*done) {
                        let cut = stop_at.get_or_insert_with(|| Instant::now() + Duration::from_secs(5));
                        if h.is_some_and(|h| h > m) || Instant::now() > *cut {
                            let _ = ch.kill();
                            let _ = ch.wait();
                            *done = true;
                            live -= 1;
                        }
                    }
                }
            }
        }
    }
    founds.sort_by_key(|f| f.index);
    b.complete = founds.is_empty() && b.evals >= runs;
    b.found = founds.into_iter().next();
    b.distinct = all.len() as u64;
    b.wall = t0.elapsed().as_secs_f64();
    b
}

fn collect(b: &mut Batch, v: &Value, founds: &mut Vec<Found>) {
    let n = |k: &str| v[k].as_u64().unwrap_or(0);
    b.evals += n("evals");
    b.nontrivial += n("nontrivial");
    b.steps += n("steps");
    b.bytes += n("bytes");
    b.items += n("items");
    b.ticks += n("ticks");
    for (key, m) in [("faults", &mut b.faults), ("probes", &mut b.probes)] {
        if let Some(o) = v[key].as_object() {
            for (k, x) in o {
                *m.entry(k.clone()).or_insert(0) += x.as_u64().unwrap_or(0);
            }
        }
    }
    if let Some(s) = v["samples"].as_array() {
        if b.samples.len() < 3 {
            b.samples.extend(s.iter().take(1).cloned());
        }
    }
    let x = &v["viol"];
    if x.is_object() {
        founds.push(Found {
            index: x["index"].as_u64().unwrap_or(0),
            run_seed: x["run_seed"].as_u64().unwrap_or(0),
            class: x["class"].as_str().unwrap_or("").to_owned(),
            msg: x["msg"].as_str().unwrap_or("").to_owned(),
            choices: x["choices"].as_array().map_or_else(Vec::new, |a| a.iter().filter_map(Value::as_u64).collect()),
        });
    }
}

/// A worker was killed by a run, or did not come back from it.
fn died(p: &Prop, seed: u64, index: u64, dir: &Path, how: &str) -> Found {
    let rs = run_seed(seed, p.id, index);
    let f = dir.join(format!("rec.{index}"));
    let mut class = if how == "hang" { "hang".to_owned() } else { format!("abort-{}", how.replace(' ', "-")) };
    if let Ok(mut ch) = Command::new(me()).args(["record", p.id, &rs.to_string()]).arg(&f).stdout(Stdio::null()).stderr(Stdio::null()).spawn() {
        let t0 = Instant::now();
        loop {
            match ch.try_wait() {
                Ok(Some(st)) => {
                    if let Some(s) = st.signal() {
                        class = format!("abort-signal-{s}");
                    }
                    break;
                }
                Ok(None) if t0.elapsed() > Duration::from_secs(10) => {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    class = "hang".into();
                    break;
                }
                Ok(None) => std::thread::sleep(Duration::from_millis(5)),
                Err(_) => break,
            }
        }
    }
    let choices = if f.exists() { read_choices(&f) } else { vec![] };
    Found { index, run_seed: rs, class, msg: format!("the process running the simulation ended with: {how}"), choices }
}

/// Writes the replay file; returns its path.
fn report(p: &Prop, seed: u64, f: &Found, dir: &Path) -> PathBuf {
    let inp = dir.join("shrink.in");
    let out = dir.join("shrink.out");
    write_choices(&inp, &f.choices);
    let mut args: Vec<String> = vec!["shrink".into(), p.id.into(), inp.display().to_string(), out.display().to_string(), f.class.clone()];
    args.push(env_u64("BCSIM_SHRINK_MS", 20_000).to_string());
    let harsh = f.class.starts_with("abort-") || f.class == "hang";
    if harsh {
        args.push("outer".into());
    }
    if let Ok(mut ch) = Command::new(me()).args(&args).stdout(Stdio::null()).stderr(Stdio::null()).spawn() {
        let t0 = Instant::now();
        while let Ok(None) = ch.try_wait() {
            if t0.elapsed() > Duration::from_secs(60) {
                let _ = ch.kill();
                let _ = ch.wait();
                break;
            }
            std::thread::sleep(Duration::from_millis(10));
        }
    }
    let choices = if out.exists() { read_choices(&out) } else { f.choices.clone() };
    // The trace and message of the minimised run.
    let (mut msg, mut trace) = (f.msg.clone(), vec![]);
    if !harsh {
        quiet_panics();
        let r = run_once(p, Choices::replay(choices.clone()), true);
        let _ = std::panic::take_hook();
        trace = r.log;
        if let Err(v) = r.res {
            if v.class == f.class {
                msg = v.msg;
            }
        }
    }
    let rd = verif().join("replays");
    let _ = fs::create_dir_all(&rd);
    let file = rd.join(format!("{}-seed{}-run{}.json", p.id, seed, f.index));
    let n = f.choices.len();
    let j = json!({
        "property": p.id, "seed": seed, "run": f.index, "run_seed": f.run_seed, "class": f.class, "violation": msg,
        "choices": choices, "original_choices": n, "trace": trace,
        "replay": format!("{} replay {}", "./check.sh", file.display()),
    });
    fs::write(&file, serde_json::to_string_pretty(&j).expect("json")).expect("replay file");
    println!("{}: [{}] {} (run {} of seed {}, {} choices minimised to {})", p.id, f.class, msg, f.index, seed, n, choices.len());
    file
}

pub fn replay(file: &str) -> i32 {
    let v: Value = serde_json::from_slice(&fs::read(file).expect("replay file")).expect("json");
    let p = prop(v["property"].as_str().expect("property"));
    let class = v["class"].as_str().unwrap_or("");
    let choices: Vec<u64> = v["choices"].as_array().expect("choices").iter().filter_map(Value::as_u64).collect();
    if class.starts_with("abort-") || class == "hang" {
        let f = std::env::temp_dir().join(format!("bcsim-replay-{}", std::process::id()));
        write_choices(&f, &choices);
        let r = outer(p.id, &f, Duration::from_secs(20));
        let _ = fs::remove_file(&f);
        println!("outcome: {r:?}, recorded: {class}");
        if r.as_deref() == Some(class) {
            println!("VIOLATION property={} replay={file}", p.id);
            return 1;
        }
        return 0;
    }
    quiet_panics();
    let r = run_once(p, Choices::replay(choices), true);
    for l in &r.log {
        println!("{l}");
    }
    match r.res {
        Err(v) => {
            println!("[{}] {}", v.class, v.msg);
            println!("VIOLATION property={} replay={file}", p.id);
            1
        }
        Ok(()) => {
            println!("no violation");
            0
        }
    }
}

/// known PROP: prints the keys of the known findings that are (still) there.
pub fn known(id: &str) -> i32 {
    quiet_panics();
    for k in KNOWN.iter().filter(|k| k.id == id) {
        if std::panic::catch_unwind(k.probe).unwrap_or(false) {
            println!("{}", k.key);
        }
    }
    0
}

/// Runs a sample of the batch again, in other processes, and compares the histories.
fn determinism(p: &Prop, seed: u64) -> Result<u64, String> {
    let n = 200;
    let spawn = || {
        Command::new(me()).args(["hash", p.id, &seed.to_string(), "0", &n.to_string()]).stdout(Stdio::piped()).stderr(Stdio::null()).spawn()
    };
    let (Ok(a), Ok(b)) = (spawn(), spawn()) else { return Err("cannot spawn".into()) };
    let (a, b) = (a.wait_with_output().map_err(|e| e.to_string())?, b.wait_with_output().map_err(|e| e.to_string())?);
    if a.stdout != b.stdout || a.stdout.is_empty() {
        return Err("two executions of the same seeds differ".into());
    }
    Ok(n)
}

pub fn check(id: &str) -> i32 {
    let p = prop(id);
    let t0 = Instant::now();
    let seed = env_u64("VERIF_SEED", 1);
    let tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { "thorough" } else { "quick" };
    let (runs, cap) = if tier == "thorough" {
        (p.quick.saturating_mul(env_u64("BCSIM_FACTOR", 60)), env_u64("BCSIM_CAP_MS", 780_000))
    } else {
        (env_u64("BCSIM_RUNS", p.quick), env_u64("BCSIM_CAP_MS", 150_000))
    };
    let dir = std::env::temp_dir().join(format!("bcsim-{id}-{}", std::process::id()));
    fs::create_dir_all(&dir).expect("scratch");
    // Known findings first: each is demonstrated by its own fixed history.
    quiet_panics();
    let mut listed = vec![];
    let mut unlisted_known = vec![];
    let kf = fs::read_to_string(verif().join("known-findings.txt")).unwrap_or_default();
    for k in KNOWN.iter().filter(|k| k.id == id) {
        let there = std::panic::catch_unwind(k.probe).unwrap_or(false);
        let is_listed = kf.lines().any(|l| l.starts_with(&format!("known: property={id} key={} ", k.key)));
        if there && is_listed {
            println!("KNOWN-FINDING: property={id} {}: {}", k.key, k.what);
            listed.push(k.key);
        } else if there {
            unlisted_known.push(k);
        }
    }
    let _ = std::panic::take_hook();
    let b = run_batch(p, seed, runs, cap, &dir);
    let det = if b.found.is_none() { determinism(p, seed) } else { Ok(0) };
    let mut code = 0;
    let mut replay_path = None;
    if let Some(ref f) = b.found {
        replay_path = Some(report(p, seed, f, &dir));
        code = 1;
    } else if let Some(k) = unlisted_known.first() {
        let rd = verif().join("replays");
        let _ = fs::create_dir_all(&rd);
        let f = rd.join(format!("{id}-{}.txt", k.key));
        let _ = fs::write(&f, format!("{}\nfixed history: bcsim known {id}\n", k.what));
        println!("{id}: {}", k.what);
        replay_path = Some(f);
        code = 1;
    }
    let wall = t0.elapsed().as_secs_f64();
    let per_hour = |n: u64| (n as f64 / b.wall.max(0.001) * 3600.0) as u64;
    let coverage = json!({
        "evaluations": b.evals,
        "distinct_nontrivial": b.distinct.min(b.nontrivial),
        "rule": p.rule,
        "samples": b.samples,
        "nontrivial_runs": b.nontrivial,
        "runs_per_hour": per_hour(b.evals),
        "seeds": format!("one run seed per run, derived from VERIF_SEED={seed}, the property and the run index 0..{runs}"),
        "seeds_per_hour": per_hour(b.evals),
        "batch_complete": b.complete,
        "workers": b.workers,
        "simulated_steps": b.steps,
        "simulated_time_ticks": b.ticks,
        "bytes_moved": b.bytes,
        "items_moved": b.items,
        "faults_injected": b.faults,
        "situations_reached": b.probes,
        "distinct_measure": "distinct abstract histories: hash over codec composition, event kinds, and logarithmic buckets of sizes (each worker counts at most 4,000,000, all together 25,000,000)",
        "real_components": p.real,
        "stubs": p.stub,
        "determinism": match &det { Ok(n) => format!("{n} runs repeated in two further processes with identical histories"), Err(e) => format!("FAILED: {e}") },
        "known_findings": listed,
    });
    let ev = json!({
        "property": id, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
        "assumptions": [
            "The reference wire format in /verif/sim/src/schema.rs is the documented one.",
            "Runs sample the space of compositions, items, schedules and faults; they do not enumerate it.",
            "serde_json, bincode, tokio's traits and std are trusted.",
        ],
        "wall_s": wall,
        "violations": i32::from(code == 1),
    });
    let ed = verif().join("evidence");
    let _ = fs::create_dir_all(&ed);
    fs::write(ed.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).expect("json")).expect("evidence");
    let _ = fs::remove_dir_all(&dir);
    println!(
        "{id}: {} runs, {} non-trivial, {} distinct, {} steps, {} faults, {:.1} s",
        b.evals,
        b.nontrivial,
        b.distinct,
        b.steps,
        b.faults.values().sum::<u64>(),
        wall
    );
    let _ = std::io::stdout().flush();
    if let Err(e) = det {
        eprintln!("{id}: determinism self-check failed: {e}");
        if code == 0 {
            return 3;
        }
    }
    if let Some(f) = replay_path {
        println!("VIOLATION property={id} replay={}", f.display());
    }
    code
}
