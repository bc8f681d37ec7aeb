//! Runs the cases of a property in worker processes, finds crashes and hangs, shrinks failures,
//! writes replay and evidence files.
use crate::cover::Guide;
use crate::props::{self, Prop};
use crate::rng::{mix, Src};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::{Read, Seek, SeekFrom, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub struct Failure {
    pub what: String,
    pub detail: Value,
}

pub struct Info {
    pub key: u64,
    pub nontrivial: bool,
    pub labels: Vec<String>,
    pub sample: Value,
}

pub type Out = Result<Info, Failure>;

pub struct Ctx {
    pub dir: PathBuf,
    pub tier: String,
    pub lsp: Option<crate::lsp::Server>,
    pub counter: u64,
}

const WORKERS: u64 = 8;
const STACK: usize = 2 << 20;
/// CPU seconds for one case; ordinary cases take some milliseconds
const CASE_CPU: u64 = 60;
/// how long a worker may shrink a failure before the failure is taken as it was found
/// on a slow machine a quick check ends with fewer cases (the evidence counts those that ran)
const QUICK_WALL: Duration = Duration::from_secs(480);
const SHRINK_WALL: Duration = Duration::from_secs(100);
const MEM_KB: u64 = 3 << 20;

fn stats_label(m: &mut BTreeMap<String, u64>, l: &str) {
    *m.entry(l.to_string()).or_default() += 1;
}

pub fn harness_error(msg: &str) -> ! {
    eprintln!("HARNESS-ERROR {}", msg);
    std::process::exit(3)
}

pub fn exe_dir() -> PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().to_path_buf()
}

fn case_seed(seed: u64, prop: &Prop, i: u64) -> u64 {
    let p: u64 = prop.id[1..].parse().unwrap();
    mix(mix(seed, p), i)
}

fn cases(prop: &Prop, tier: &str) -> u64 {
    if let Ok(x) = std::env::var("HV_CASES") {
        return x.parse().unwrap();
    }
    if tier == "thorough" {
        prop.thorough
    } else {
        prop.quick
    }
}

/// how many cases are made, after those, from earlier ones that reached something new in the code
/// (the code of C20, C21 and C22 runs in other processes)
fn guided_cases(prop: &Prop, tier: &str) -> u64 {
    if let Ok(x) = std::env::var("HV_GUIDED") {
        return x.parse().unwrap();
    }
    match (prop.id, tier) {
        ("C20" | "C21" | "C22", _) => 0,
        (_, "thorough") => cases(prop, tier),
        _ => cases(prop, tier) / 6,
    }
}

fn in_thread<X: Send + 'static>(f: impl FnOnce() -> X + Send + 'static) -> X {
    let h = std::thread::Builder::new().stack_size(STACK).spawn(f).unwrap();
    match h.join() {
        Ok(x) => x,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or(e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            harness_error(&format!("panic in the harness: {}", m))
        }
    }
}

/// runs the cases k, k + 8, ... and writes a summary
pub fn worker(id: &str, tier: &str, seed: u64, k: u64, upto: u64, dir: &Path) -> i32 {
    let prop = props::find(id);
    let tier = tier.to_string();
    let dir = dir.to_path_buf();
    in_thread(move || {
        let total = upto;
        let scratch = dir.join(format!("scratch{}", k));
        fs::create_dir_all(&scratch).unwrap();
        let mut cur = fs::File::create(dir.join(format!("w{}.cur", k))).unwrap();
        let mut ctx = Ctx { dir: scratch, tier: tier.clone(), lsp: None, counter: 0 };
        let mut keys: HashSet<u64> = HashSet::new();
        let mut labels: BTreeMap<String, u64> = BTreeMap::new();
        let mut samples: Vec<Value> = vec![];
        let mut evals = 0u64;
        let mut slow = (0u128, 0u64);
        let mut i = k;
        let mut failure = None;
        let random = cases(prop, &tier);
        let mut guide = Guide::new();
        let mut guided = 0u64;
        let mut micros = 0u64;
        let begin = Instant::now();
        while i < total && !(tier == "quick" && begin.elapsed() > QUICK_WALL) {
            cur.seek(SeekFrom::Start(0)).unwrap();
            cur.write_all(&(i + 1).to_le_bytes()).unwrap();
            let cs = case_seed(seed, prop, i);
            let mut src = if i >= random && guide.size() > 0 {
                guided += 1;
                let tape = guide.mutant(cs);
                let mut b = i.to_le_bytes().to_vec();
                b.extend(tape.iter().flat_map(|x| x.to_le_bytes()));
                fs::write(dir.join(format!("w{}.tape", k)), b).unwrap();
                Src::replay(tape)
            } else {
                Src::random(cs)
            };
            let t0 = Instant::now();
            guide.start();
            let out = (prop.run)(&mut ctx, &mut src);
            let dt = t0.elapsed().as_millis();
            src.tape.truncate(src.pos);
            micros += t0.elapsed().as_micros() as u64;
            let us = t0.elapsed().as_micros() as u64;
            if out.is_ok() && us <= 6 * micros / (evals + 1) {
                guide.learn(&src.tape, us);
            }
            if dt > slow.0 {
                slow = (dt, i);
            }
            evals += 1;
            match out {
                Ok(info) => {
                    if info.nontrivial && keys.insert(info.key) && samples.len() < 2 && evals > 3 {
                        samples.push(json!({"case": i, "input": info.sample}));
                    }
                    for l in &info.labels {
                        stats_label(&mut labels, l);
                    }
                    stats_label(&mut labels, if info.nontrivial { "nontrivial" } else { "trivial" });
                }
                Err(f) => {
                    // reset the mark: shrinking takes longer than a case
                    cur.seek(SeekFrom::Start(0)).unwrap();
                    cur.write_all(&u64::MAX.to_le_bytes()).unwrap();
                    // kept in case the shrinking comes to no end
                    let raw = json!({"case": i, "tape": src.tape, "raw": src.tape, "what": f.what, "detail": f.detail});
                    let part = dir.join(format!("w{}.part", k));
                    fs::write(&part, raw.to_string()).unwrap();
                    fs::rename(&part, dir.join(format!("w{}.raw", k))).unwrap();
                    let raw = src.tape.clone();
                    let (tape, f, tries) = shrink(prop, &mut ctx, src.tape, f);
                    failure = Some(json!({
                        "case": i, "tape": tape, "raw": raw, "what": f.what, "detail": f.detail, "shrink_steps": tries
                    }));
                    break;
                }
            }
            i += WORKERS;
        }
        ctx.lsp = None;
        let mut kb = vec![];
        for x in &keys {
            kb.extend(x.to_le_bytes());
        }
        fs::write(dir.join(format!("w{}.keys", k)), kb).unwrap();
        let code = if failure.is_some() { 1 } else { 0 };
        let summary = json!({
            "evaluations": evals, "labels": labels, "samples": samples, "failure": failure,
            "guided": guided, "corpus": guide.size(), "slowest_ms": slow.0 as u64, "slowest_case": slow.1
        });
        fs::write(dir.join(format!("w{}.json", k)), summary.to_string()).unwrap();
        code
    })
}

fn fails(prop: &Prop, ctx: &mut Ctx, tape: &[u64]) -> Option<(Vec<u64>, Failure)> {
    let mut s = Src::replay(tape.to_vec());
    match (prop.run)(ctx, &mut s) {
        Ok(_) => None,
        Err(f) => {
            let mut t = s.tape;
            t.truncate(s.pos);
            while t.last() == Some(&0) {
                t.pop();
            }
            Some((t, f))
        }
    }
}

/// generic shrinking of a tape
fn shrink_with(
    mut tape: Vec<u64>,
    mut test: impl FnMut(&[u64]) -> Option<Vec<u64>>,
    max_tries: usize,
    max_time: Duration,
) -> (Vec<u64>, usize) {
    let start = Instant::now();
    let mut tries = 0;
    let better = |new: &Vec<u64>, old: &Vec<u64>| (new.len(), new) < (old.len(), old);
    loop {
        let before = tape.clone();
        // remove blocks
        let mut size = (tape.len() / 2).max(1);
        while size >= 1 {
            let mut i = tape.len();
            while i > 0 {
                let lo = i.saturating_sub(size);
                if lo >= tape.len() {
                    i = lo;
                    continue;
                }
                let mut cand = tape.clone();
                cand.drain(lo..i.min(tape.len()));
                tries += 1;
                if let Some(t) = test(&cand) {
                    if better(&t, &tape) {
                        tape = t;
                    }
                }
                if tries > max_tries || start.elapsed() > max_time {
                    return (tape, tries);
                }
                i = lo;
            }
            size /= 2;
        }
        // zero blocks and reduce values
        for size in [8usize, 1] {
            let mut i = 0;
            while i < tape.len() {
                let hi = (i + size).min(tape.len());
                let mut cands: Vec<Vec<u64>> = vec![];
                if tape[i..hi].iter().any(|x| *x != 0) {
                    let mut c = tape.clone();
                    c[i..hi].iter_mut().for_each(|x| *x = 0);
                    cands.push(c);
                    if size == 1 {
                        for v in [tape[i] / 2, tape[i] - 1] {
                            let mut c = tape.clone();
                            c[i] = v;
                            cands.push(c);
                        }
                    }
                }
                for c in cands {
                    tries += 1;
                    if let Some(t) = test(&c) {
                        if better(&t, &tape) {
                            tape = t;
                            break;
                        }
                    }
                    if tries > max_tries || start.elapsed() > max_time {
                        return (tape, tries);
                    }
                }
                i += size;
            }
        }
        if tape == before {
            return (tape, tries);
        }
    }
}

fn shrink(prop: &'static Prop, ctx: &mut Ctx, tape: Vec<u64>, first: Failure) -> (Vec<u64>, Failure, usize) {
    let mut best = first;
    if best.what.contains("does not answer") {
        return (tape, best, 0);
    }
    let limit = Duration::from_secs(25);
    let (tape, tries) = shrink_with(
        tape,
        |t| {
            fails(prop, ctx, t).map(|(t, f)| {
                best = f;
                t
            })
        },
        4000,
        limit,
    );
    if let Some((t, f)) = fails(prop, ctx, &tape) {
        return (t, f, tries);
    }
    (tape, best, tries)
}

/// runs one case (by tape, or by number); exit 0: passes, 1: fails (and writes what failed)
pub fn one(id: &str, tape: Option<Vec<u64>>, seed: u64, case: u64, repeat: usize, dir: &Path, tape_log: Option<&Path>) -> i32 {
    let prop = props::find(id);
    let dir = dir.to_path_buf();
    let log = tape_log.map(|p| p.to_path_buf());
    in_thread(move || {
        let scratch = dir.join("scratch-one");
        fs::create_dir_all(&scratch).unwrap();
        let mut ctx = Ctx { dir: scratch, tier: "quick".into(), lsp: None, counter: 0 };
        let t0 = Instant::now();
        for _ in 0..repeat {
            if t0.elapsed().as_secs() > CASE_CPU {
                break;
            }
            let mut s = match &tape {
                Some(t) => Src::replay(t.clone()),
                None => Src::random(case_seed(seed, prop, case)),
            };
            if let Some(l) = &log {
                s.log = Some(fs::File::create(l).unwrap());
            }
            if let Err(f) = (prop.run)(&mut ctx, &mut s) {
                let v = json!({"what": f.what, "detail": f.detail, "tape": s.tape});
                fs::write(dir.join("one.json"), v.to_string()).unwrap();
                return 1;
            }
        }
        0
    })
}

#[derive(Debug, PartialEq)]
enum End {
    Passed,
    Failed,
    Crashed(String),
    Error(String),
}

fn limited(cpu: u64, args: &[String]) -> Command {
    let mut c = Command::new("sh");
    let cpu = if cpu > 0 { format!("ulimit -t {} ;", cpu) } else { String::new() };
    c.arg("-c")
        .arg(format!("ulimit -c 0; ulimit -v {}; {} exec \"$0\" \"$@\"", MEM_KB, cpu))
        .arg(std::env::current_exe().unwrap())
        .args(args)
        .stdin(Stdio::null());
    c
}

/// another program, with the limit of a case
pub fn program(exe: &Path) -> Command {
    let mut c = Command::new("sh");
    c.arg("-c")
        .arg(format!("ulimit -c 0; ulimit -v {}; ulimit -t {}; exec \"$0\" \"$@\"", MEM_KB, CASE_CPU / 3))
        .arg(exe)
        .stdin(Stdio::null());
    c
}

fn end_of(status: std::process::ExitStatus) -> End {
    use std::os::unix::process::ExitStatusExt;
    match (status.code(), status.signal()) {
        (Some(0), _) => End::Passed,
        (Some(1), _) => End::Failed,
        (Some(c), _) => End::Error(format!("exit code {}", c)),
        (None, Some(s)) => End::Crashed(match s {
            6 => "abort (stack overflow or out of memory)".into(),
            11 => "segmentation fault".into(),
            24 | 9 => format!("no answer after {} s of CPU time", CASE_CPU),
            s => format!("signal {}", s),
        }),
        _ => End::Error("?".into()),
    }
}

fn run_one(prop: &Prop, dir: &Path, tape: Option<&[u64]>, seed: u64, case: u64, repeat: usize, log: Option<&Path>) -> End {
    let mut args: Vec<String> = vec!["one".into(), prop.id.into(), dir.display().to_string(), repeat.to_string()];
    match tape {
        Some(t) => {
            let f = dir.join("tape.json");
            fs::write(&f, serde_json::to_string(t).unwrap()).unwrap();
            args.extend(["tape".into(), f.display().to_string()]);
        }
        None => args.extend(["case".into(), seed.to_string(), case.to_string()]),
    }
    if let Some(l) = log {
        args.push(l.display().to_string());
    }
    let st = limited(CASE_CPU * if repeat > 1 { 2 } else { 1 }, &args).stdout(Stdio::null()).status().unwrap();
    end_of(st)
}

fn cpu_ticks(pid: u32) -> u64 {
    let s = fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let n = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    n(11) + n(12)
}

fn last_case(dir: &Path, k: u64) -> Option<u64> {
    let mut b = [0u8; 8];
    let mut f = fs::File::open(dir.join(format!("w{}.cur", k))).ok()?;
    f.read_exact(&mut b).ok()?;
    match u64::from_le_bytes(b) {
        0 | u64::MAX => None,
        x => Some(x - 1),
    }
}

/// waits for a worker, but not for ever
fn patiently(mut w: Child, secs: u64) -> End {
    let t0 = Instant::now();
    loop {
        if let Some(st) = w.try_wait().unwrap() {
            return end_of(st);
        }
        if t0.elapsed().as_secs() > secs {
            let _ = w.kill();
            let _ = w.wait();
            return End::Crashed("no answer".into());
        }
        std::thread::sleep(Duration::from_millis(50));
    }
}

struct Found {
    case: u64,
    /// the tape as the worker ran it, if the case number does not say it all
    raw: Option<Vec<u64>>,
    tape: Option<Vec<u64>>,
    what: String,
    detail: Value,
    history: bool,
}

fn tape_of(v: &Value) -> Option<Vec<u64>> {
    v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap()).collect())
}

/// the tape of a guided case
fn guided_tape(dir: &Path, k: u64, case: u64) -> Option<Vec<u64>> {
    let b = fs::read(dir.join(format!("w{}.tape", k))).ok()?;
    let v: Vec<u64> = b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
    if v.first() == Some(&case) {
        Some(v[1..].to_vec())
    } else {
        None
    }
}

fn of_json(f: &Value) -> Found {
    Found {
        case: f["case"].as_u64().unwrap(),
        raw: tape_of(&f["raw"]),
        tape: tape_of(&f["tape"]),
        what: f["what"].as_str().unwrap().into(),
        detail: f["detail"].clone(),
        history: false,
    }
}

fn spawn_worker(prop: &Prop, tier: &str, seed: u64, k: u64, upto: u64, dir: &Path) -> Child {
    let args = [
        "worker".to_string(),
        prop.id.into(),
        tier.into(),
        seed.to_string(),
        k.to_string(),
        upto.to_string(),
        dir.display().to_string(),
    ];
    limited(0, &args).stdout(Stdio::null()).spawn().unwrap()
}

/// the whole check of a property; returns the exit code
pub fn check(id: &str, tier: &str, seed: u64, verif: &Path) -> i32 {
    let prop = props::find(id);
    let t0 = Instant::now();
    let total = cases(prop, tier) + guided_cases(prop, tier);
    let dir = std::env::temp_dir().join(format!("hv-{}-{}", id, std::process::id()));
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).unwrap();
    let mut ws: Vec<Option<Child>> =
        (0..WORKERS).map(|k| Some(spawn_worker(prop, tier, seed, k, total, &dir))).collect();
    let mut marks: Vec<(Option<u64>, u64)> = vec![(None, 0); WORKERS as usize];
    let mut shrinking: Vec<Option<Instant>> = vec![None; WORKERS as usize];
    let mut found: Option<Found> = None;
    let mut error: Option<String> = None;
    while ws.iter().any(|w| w.is_some()) {
        std::thread::sleep(Duration::from_millis(100));
        for k in 0..WORKERS {
            let Some(child) = ws[k as usize].as_mut() else { continue };
            let pid = child.id();
            if let Some(st) = child.try_wait().unwrap() {
                ws[k as usize] = None;
                match end_of(st) {
                    End::Passed => {}
                    End::Failed => {
                        let v: Value =
                            serde_json::from_str(&fs::read_to_string(dir.join(format!("w{}.json", k))).unwrap()).unwrap();
                        found = Some(of_json(&v["failure"]));
                    }
                    End::Crashed(how) => match last_case(&dir, k) {
                        Some(case) => {
                            let raw = guided_tape(&dir, k, case);
                            found = Some(Found { case, raw, tape: None, what: how, detail: Value::Null, history: false })
                        }
                        None => error = Some(format!("worker {} ended with {}", k, how)),
                    },
                    End::Error(e) => {
                        error = Some(format!("worker {} ended with {} at case {:?}", k, e, last_case(&dir, k)))
                    }
                }
            } else {
                let ticks = cpu_ticks(pid);
                let cur = last_case(&dir, k);
                if shrinking[k as usize].is_none() && dir.join(format!("w{}.raw", k)).exists() {
                    shrinking[k as usize] = Some(Instant::now());
                }
                let m = &mut marks[k as usize];
                if cur != m.0 {
                    *m = (cur, ticks);
                } else if cur.is_none() && shrinking[k as usize].map_or(false, |t| t.elapsed() > SHRINK_WALL) {
                    let raw = fs::read_to_string(dir.join(format!("w{}.raw", k))).unwrap();
                    found = Some(of_json(&serde_json::from_str(&raw).unwrap()));
                } else if let Some(case) = cur {
                    if ticks > m.1 + CASE_CPU * 100 {
                        found = Some(Found {
                            case,
                            raw: guided_tape(&dir, k, case),
                            tape: None,
                            what: format!("no answer after {} s of CPU time", CASE_CPU),
                            detail: Value::Null,
                            history: false,
                        });
                    }
                }
            }
        }
        if found.is_some() || error.is_some() {
            for w in ws.iter_mut().flatten() {
                let _ = w.kill();
                let _ = w.wait();
            }
            break;
        }
    }
    if let Some(f) = &mut found {
        confirm(prop, tier, seed, &dir, f, &mut error);
    }
    // evidence
    let mut evals = 0;
    let mut keys: HashSet<u64> = HashSet::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = vec![];
    let mut slowest = (0, 0);
    let (mut guided, mut reached) = (0, 0);
    for k in 0..WORKERS {
        if let Ok(s) = fs::read_to_string(dir.join(format!("w{}.json", k))) {
            let v: Value = serde_json::from_str(&s).unwrap();
            evals += v["evaluations"].as_u64().unwrap();
            for (l, n) in v["labels"].as_object().unwrap() {
                *labels.entry(l.clone()).or_default() += n.as_u64().unwrap();
            }
            guided += v["guided"].as_u64().unwrap();
            reached += v["corpus"].as_u64().unwrap();
            samples.extend(v["samples"].as_array().unwrap().iter().take(1).cloned());
            slowest = slowest.max((v["slowest_ms"].as_u64().unwrap(), v["slowest_case"].as_u64().unwrap()));
        }
        if let Ok(b) = fs::read(dir.join(format!("w{}.keys", k))) {
            keys.extend(b.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        }
    }
    samples.truncate(4);
    let violation = found.is_some() && error.is_none();
    let ev = json!({
        "property": id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": keys.len(),
            "rule": prop.rule,
            "samples": samples,
            "labels": labels,
            "coverage_guided": guided,
            "reached_something_new": reached,
            "slowest_case_ms": slowest.0,
            "slowest_case": slowest.1,
        },
        "assumptions": prop.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": if violation { 1 } else { 0 },
    });
    fs::create_dir_all(verif.join("evidence")).unwrap();
    fs::write(
        verif.join("evidence").join(format!("{}.json", id)),
        serde_json::to_string_pretty(&ev).unwrap() + "\n",
    )
    .unwrap();
    let code = if let Some(e) = error {
        println!("ERROR property={} {}", id, e);
        2
    } else if let Some(f) = found {
        let replays = verif.join("replays");
        fs::create_dir_all(&replays).unwrap();
        let path = replays.join(format!("{}-{}-{}.json", id, seed, f.case));
        let v = json!({
            "property": id, "seed": seed, "case": f.case, "tape": f.tape, "what": f.what, "detail": f.detail,
            "needs_history": f.history, "tier": tier,
            "how": format!("bash /verif/run.sh replay {}", path.display()),
        });
        fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
        println!("{}", f.what);
        if let Some(o) = f.detail.as_object() {
            for (k, v) in o {
                let s = v.as_str().map(String::from).unwrap_or(v.to_string());
                println!("  {}: {}", k, s.chars().take(1500).collect::<String>());
            }
        }
        println!("VIOLATION property={} replay={}", id, path.display());
        1
    } else {
        println!(
            "OK property={} tier={} seed={} cases={} distinct_nontrivial={} wall={:.1}s",
            id,
            tier,
            seed,
            evals,
            keys.len(),
            t0.elapsed().as_secs_f64()
        );
        0
    };
    let _ = fs::remove_dir_all(&dir);
    code
}

/// a failure counts if it fails again in a fresh process
fn confirm(prop: &'static Prop, tier: &str, seed: u64, dir: &Path, f: &mut Found, error: &mut Option<String>) {
    if let Some(t) = &f.tape {
        match run_one(prop, dir, Some(t), seed, f.case, 40, None) {
            End::Failed => return,
            End::Crashed(how) => {
                f.what = how;
                return;
            }
            End::Error(e) => {
                *error = Some(e);
                return;
            }
            End::Passed => {}
        }
        // unshrunk
        if run_one(prop, dir, f.raw.as_deref(), seed, f.case, 40, None) == End::Failed {
            let v: Value = serde_json::from_str(&fs::read_to_string(dir.join("one.json")).unwrap()).unwrap();
            f.what = v["what"].as_str().unwrap().into();
            f.detail = v["detail"].clone();
            f.tape = Some(v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect());
            return;
        }
        // perhaps it needs what was analysed before
        f.history = true;
        let k = f.case % WORKERS;
        let end = patiently(spawn_worker(prop, tier, seed, k, f.case + 1, dir), 240);
        // (that results differ has been seen, even if they do not differ again)
        if !matches!(end, End::Crashed(_) | End::Failed) && prop.id != "C17" {
            *error = Some(format!("the failure of case {} is not reproducible: {}", f.case, f.what));
        }
        return;
    }
    let log = dir.join("tape.log");
    let end = run_one(prop, dir, f.raw.as_deref(), seed, f.case, 1, Some(&log));
    match end {
        End::Crashed(how) => {
            f.what = how;
            let b = fs::read(&log).unwrap_or_default();
            let tape: Vec<u64> = b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
            let hang = f.what.starts_with("no answer");
            let tape = if hang {
                tape
            } else {
                shrink_with(
                    tape,
                    |t| match run_one(prop, dir, Some(t), seed, f.case, 1, None) {
                        End::Crashed(_) => Some(t.to_vec()),
                        _ => None,
                    },
                    600,
                    Duration::from_secs(40),
                )
                .0
            };
            if !hang {
                run_one(prop, dir, Some(&tape), seed, f.case, 1, None);
            }
            f.detail = json!({"inputs": crate::sut::last_inputs(dir)});
            f.tape = Some(tape);
        }
        End::Failed => {
            let v: Value = serde_json::from_str(&fs::read_to_string(dir.join("one.json")).unwrap()).unwrap();
            f.what = v["what"].as_str().unwrap().into();
            f.detail = v["detail"].clone();
            f.tape = Some(v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect());
        }
        End::Passed => {
            f.history = true;
            let k = f.case % WORKERS;
            let end = patiently(spawn_worker(prop, tier, seed, k, f.case + 1, dir), 240);
            if !matches!(end, End::Crashed(_) | End::Failed) {
                *error = Some(format!("case {} is not reproducible: {}", f.case, f.what));
            }
        }
        End::Error(e) => *error = Some(e),
    }
}

pub fn replay(path: &Path) -> i32 {
    let v: Value = serde_json::from_str(&fs::read_to_string(path).unwrap()).unwrap();
    let prop = props::find(v["property"].as_str().unwrap());
    let dir = std::env::temp_dir().join(format!("hv-replay-{}", std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let seed = v["seed"].as_u64().unwrap();
    let case = v["case"].as_u64().unwrap();
    let end = if v["needs_history"] == json!(true) {
        patiently(spawn_worker(prop, v["tier"].as_str().unwrap(), seed, case % WORKERS, case + 1, &dir), 600)
    } else {
        let tape: Vec<u64> =
            v["tape"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap()).collect()).unwrap_or_default();
        run_one(prop, &dir, Some(&tape), seed, case, 40, None)
    };
    if let Ok(s) = fs::read_to_string(dir.join("one.json")) {
        let v: Value = serde_json::from_str(&s).unwrap();
        println!("{}", v["what"].as_str().unwrap_or(""));
        if let Some(o) = v["detail"].as_object() {
            for (k, v) in o {
                println!("  {}: {}", k, v.as_str().map(String::from).unwrap_or(v.to_string()));
            }
        }
    }
    let _ = fs::remove_dir_all(&dir);
    match end {
        End::Passed => {
            println!("passes now");
            0
        }
        End::Failed => {
            println!("VIOLATION property={} replay={}", prop.id, path.display());
            1
        }
        End::Crashed(how) => {
            println!("{}\nVIOLATION property={} replay={}", how, prop.id, path.display());
            1
        }
        End::Error(e) => {
            println!("ERROR {}", e);
            2
        }
    }
}
