//! The processes of a check: the worker explores, its parent watches it for crashes and hangs.
use crate::harness::{self, Cx, OUT_OF_SCOPE, SLOTS, Scope, Slot, Viol, hex_str, unhex};
use crate::known::{self, limit, root};
use crate::model::{self, Verdict};
use crate::{history, props, serdes};
use serde_json::{Value as J, json};
use std::collections::HashMap;
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::Ordering::*;
use std::time::{Duration, Instant};

/// An input that keeps the implementation busy for longer is looked at more closely.
const SLOW: Duration = Duration::from_secs(20);
/// Processor time in which one input has to be done with.
const CPU_LIMIT: u64 = 20;

fn tier() -> bool {
    std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough")
}
fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}
fn work() -> PathBuf {
    std::env::var_os("MC_WORK").map_or_else(|| root().join(".work"), Into::into)
}

pub fn check(id: &str) -> i32 {
    if !props::IDS.contains(&id) {
        eprintln!("no such property: {id}");
        return 2;
    }
    let t0 = Instant::now();
    let evidence = root().join("evidence").join(format!("{id}.json"));
    std::fs::create_dir_all(evidence.parent().unwrap()).unwrap();
    let _ = std::fs::remove_file(&evidence);
    let dir = work().join(format!("{id}-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let code = watch(id, &dir, &evidence, t0);
    let _ = std::fs::remove_dir_all(&dir);
    code
}

struct Busy {
    seq: u64,
    label: String,
    data: Vec<u8>,
    complete: bool,
}
fn busy(board: *mut Slot, k: usize) -> Option<Busy> {
    unsafe {
        let s = board.add(k);
        if (*s).busy.load(Acquire) == 0 {
            return None;
        }
        let seq = (*s).seq.load(Relaxed);
        let n = (*s).len.load(Relaxed) as usize;
        let l = ((*s).label_len.load(Relaxed) as usize).min(harness::SLOT_LABEL);
        let data = std::slice::from_raw_parts((*s).data.as_ptr(), n.min(harness::SLOT_DATA)).to_vec();
        let label = String::from_utf8_lossy(std::slice::from_raw_parts((*s).label.as_ptr(), l)).to_string();
        (seq == (*s).seq.load(Relaxed)).then_some(Busy { seq, label, data, complete: n <= harness::SLOT_DATA })
    }
}

/// What one input does in a process of its own.
fn alone(id: &str, dir: &Path, b: &Busy) -> Option<String> {
    let f = dir.join("one.replay");
    write_replay(&f, id, &Viol { suite: b.label.clone(), kind: "crash".into(), bytes: b.data.clone(), detail: String::new() });
    let mut c = Command::new(std::env::current_exe().unwrap());
    let o = c.args(["one", id, f.to_str().unwrap()]).stdin(Stdio::null()).output().unwrap();
    let err = String::from_utf8_lossy(&o.stderr);
    let what = match o.status.signal() {
        None => return None,
        Some(24 | 9) => format!("does not end within {CPU_LIMIT} s of processor time"),
        Some(n) => format!("kills the process with signal {n}: {}", err.lines().next().unwrap_or("").chars().take(200).collect::<String>()),
    };
    // a crash is a matter of memory only if memory ran out
    if props::scope(id) == Scope::Memory && !err.contains("memory allocation of") {
        return None;
    }
    Some(what)
}

fn watch(id: &str, dir: &Path, evidence: &Path, t0: Instant) -> i32 {
    let board_path = dir.join("board");
    let skip_path = dir.join("skip");
    std::fs::write(&skip_path, "").unwrap();
    for attempt in 0..12 {
        let _ = std::fs::remove_file(&board_path);
        let board = harness::map_board(board_path.to_str().unwrap());
        let mut child = Command::new(std::env::current_exe().unwrap())
            .args(["worker", id, board_path.to_str().unwrap(), skip_path.to_str().unwrap()])
            .stdin(Stdio::null())
            .spawn()
            .unwrap();
        let mut since: HashMap<usize, (u64, Instant)> = HashMap::new();
        let mut found: Option<(Busy, String)> = None;
        let status = loop {
            if let Some(s) = child.try_wait().unwrap() {
                break Some(s);
            }
            std::thread::sleep(Duration::from_millis(if t0.elapsed().as_secs() < 2 { 5 } else { 50 }));
            for k in 0..SLOTS {
                let slot = unsafe { &*board.add(k) };
                let seq = slot.seq.load(Relaxed);
                if slot.busy.load(Relaxed) == 0 {
                    since.remove(&k);
                    continue;
                }
                let e = since.entry(k).or_insert((seq, Instant::now()));
                if e.0 != seq {
                    *e = (seq, Instant::now())
                } else if e.1.elapsed() > SLOW {
                    e.1 = Instant::now();
                    if let Some(b) = busy(board, k) {
                        if let Some(what) = alone(id, dir, &b) {
                            found = Some((b, what));
                            break;
                        }
                    }
                }
            }
            if found.is_some() {
                let _ = child.kill();
                let _ = child.wait();
                break None;
            }
        };
        if let Some(s) = status {
            if let Some(c) = s.code() {
                return c;
            }
            // it crashed: on which of the inputs it was busy with?
            for k in 0..SLOTS {
                if let Some(b) = busy(board, k) {
                    if let Some(what) = alone(id, dir, &b) {
                        found = Some((b, what));
                        break;
                    }
                }
            }
            if found.is_none() {
                // not on one input alone: with everything it was busy with, this is all there is to say
                eprintln!("mc: the exploration ended with {s}, which no input reproduces (attempt {attempt})");
                let mut skip = std::fs::OpenOptions::new().append(true).open(&skip_path).unwrap();
                for k in 0..SLOTS {
                    if let Some(b) = busy(board, k) {
                        writeln!(skip, "{}", hex_str(&b.data)).unwrap();
                    }
                }
                continue;
            }
        }
        let (b, what) = found.unwrap();
        if b.label == OUT_OF_SCOPE || !b.complete {
            let mut skip = std::fs::OpenOptions::new().append(true).open(&skip_path).unwrap();
            writeln!(skip, "{}", hex_str(&b.data)).unwrap();
            continue;
        }
        let v = Viol { suite: b.label, kind: "crash".into(), bytes: b.data, detail: what };
        report(id, std::slice::from_ref(&v));
        let e = json!({
            "property": id, "tier": if tier() { "thorough" } else { "quick" }, "seed": seed(), "level": "model_checking",
            "coverage": { "explanation": "The exploration was ended by a violation that takes the process down; nothing was counted.",
                "states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [format!("{}: {}", v.suite, hex_str(&v.bytes[..v.bytes.len().min(300)]))] },
            "wall_s": t0.elapsed().as_secs_f64(), "violations": 1,
        });
        std::fs::write(evidence, serde_json::to_string_pretty(&e).unwrap()).unwrap();
        return 1;
    }
    eprintln!("mc: too many crashes that are not this property's concern");
    2
}

fn write_replay(path: &Path, id: &str, v: &Viol) {
    let j = json!({ "property": id, "suite": v.suite, "kind": v.kind, "bytes": hex_str(&v.bytes), "detail": v.detail });
    std::fs::write(path, serde_json::to_string_pretty(&j).unwrap()).unwrap();
}

fn report(id: &str, l: &[Viol]) {
    let dir = root().join("replay").join(id);
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let mut l: Vec<&Viol> = l.iter().collect();
    l.sort_by_key(|v| v.bytes.len());
    for (k, v) in l.iter().take(5).enumerate() {
        let p = dir.join(format!("{k}.json"));
        write_replay(&p, id, v);
        println!("  [{}] {}", v.suite, v.detail.chars().take(400).collect::<String>());
        println!("VIOLATION property={id} replay={}", p.display());
    }
    let _ = std::io::stdout().flush();
}

pub fn worker(id: &str, board: &str, skip: &str) -> i32 {
    limit(known::RLIMIT_CORE, 0);
    harness::set_board(harness::map_board(board));
    let skip: std::collections::HashSet<Vec<u8>> = std::fs::read_to_string(skip).unwrap_or_default().lines().map(unhex).collect();
    if !skip.is_empty() {
        let _ = harness::SKIP.set(skip);
    }
    let t0 = Instant::now();
    let threads = std::thread::available_parallelism().map_or(8, |n| n.get()).clamp(2, 32);
    let cx: &'static Cx = Box::leak(Box::new(Cx::new(id, tier(), seed(), threads)));
    // an answer in any case: on a slow machine, or with an implementation that has become very slow
    let soft = Duration::from_secs(if cx.thorough { 3600 } else { 600 });
    std::thread::spawn(move || {
        std::thread::sleep(soft);
        cx.late.store(true, Relaxed);
        cx.stop.store(true, Relaxed);
    });
    let known = known::report(id);
    props::run(cx, id);
    let viols = cx.viols.lock().unwrap().clone();
    if !viols.is_empty() {
        report(id, &viols);
    }
    evidence(id, cx, &known, t0, viols.len());
    i32::from(!viols.is_empty())
}

fn evidence(id: &str, cx: &Cx, known: &[String], t0: Instant, violations: usize) {
    let suites = cx.suites.lock().unwrap();
    let sum = |f: fn(&harness::SuiteStat) -> u64| suites.values().map(f).sum::<u64>();
    let per: HashMap<&String, J> = suites
        .iter()
        .map(|(k, s)| {
            (k, json!({ "comparisons": s.evals, "accepted_by_model": s.accepts, "rejected_by_model": s.rejects, "unspecified": s.unspec,
                "explored_nodes": s.nodes, "transitions": s.transitions, "known_finding_inputs": s.kf, "note": s.note }))
        })
        .collect();
    let late = cx.late.load(Relaxed);
    let e = json!({
        "property": id,
        "tier": if cx.thorough { "thorough" } else { "quick" },
        "seed": cx.seed,
        "level": "model_checking",
        "coverage": {
            "states": cx.states.lock().unwrap().len().max(if id == "C22" { sum(|s| s.nodes) as usize } else { 0 }),
            "transitions": sum(|s| s.transitions),
            "traces_validated_against_impl": sum(|s| s.evals),
            "explored_nodes": sum(|s| s.nodes),
            "samples": *cx.samples.lock().unwrap(),
            "outcomes": *cx.outcomes.lock().unwrap(),
            "suites": per,
            "known_findings": known,
            "exhaustive": !late && violations == 0,
            "rule": "states: distinct states of the reference model (position in the grammar, open records, ids defined and awaited, capped at 4 million per thread and suite); transitions: fields the model consumed; traces validated: complete inputs, each given to the model and to the implementation, with the two answers compared (for C19 to C21 and C24 once per target type; for C22 states are operations performed in a history)."
        },
        "assumptions": ["The reference model states the property (DESIGN.md); inputs it leaves unspecified are not compared."],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    std::fs::write(root().join("evidence").join(format!("{id}.json")), serde_json::to_string_pretty(&e).unwrap()).unwrap();
    println!(
        "{id}: {} inputs and operations compared, {} model states, {} transitions, {violations} violations, {:.1} s{}",
        sum(|s| s.evals),
        cx.states.lock().unwrap().len(),
        sum(|s| s.transitions),
        t0.elapsed().as_secs_f64(),
        if late { " (ended early: out of time)" } else { "" }
    );
}

/// One input, in the way its kind says; the list of what is wrong.
fn judge(id: &str, kind: &str, b: &[u8]) -> Vec<String> {
    let mut m = model::Model::new(b);
    let v = m.run();
    let groups = crate::serde_suites::groups();
    let mut out = Default::default();
    let all = |out: &mut std::collections::BTreeMap<&'static str, u64>| {
        let mut l = serdes::run("replay", &groups, b, &v, None, out);
        for k in 0..40 {
            l.extend(serdes::run("replay", &groups, b, &v, Some(k), out))
        }
        l
    };
    if matches!(v, Verdict::Huge) {
        return vec![];
    }
    match kind.split(':').next().unwrap() {
        "parse" => harness::diff(props::scope(id), "replay", b, &v, m.elements).err().into_iter().collect(),
        "serde" => {
            let (g, sub) = serdes::parse_group_names(kind);
            serdes::run("replay", &g, b, &v, sub, &mut out)
        }
        "work" => crate::work::replay(kind).into_iter().collect(),
        "history" => history::replay(b).into_iter().collect(),
        "sequence" => history::replay_sequence(b).into_iter().collect(),
        "crash" => {
            let mut l: Vec<String> = harness::diff(props::scope(id), "replay", b, &v, m.elements).err().into_iter().collect();
            if matches!(id, "C01" | "C19" | "C20" | "C21" | "C22" | "C24") {
                l.extend(all(&mut out))
            }
            l
        }
        _ => history::replay_kind(kind, b).into_iter().collect(),
    }
}

fn load(file: &str) -> (String, String, Vec<u8>) {
    let j: J = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    let s = |k: &str| j[k].as_str().unwrap().to_string();
    (s("property"), s("kind"), unhex(&s("bytes")))
}

/// The suspect of a crash, in a process of its own. How this process ends is the answer.
pub fn one(id: &str, file: &str) -> i32 {
    limit(known::RLIMIT_CORE, 0);
    limit(known::RLIMIT_CPU, CPU_LIMIT);
    let (_, kind, b) = load(file);
    let id = id.to_string();
    std::thread::Builder::new().stack_size(256 << 20).spawn(move || judge(&id, &kind, &b)).unwrap().join().unwrap();
    0
}

pub fn replay(file: &str) -> i32 {
    let (id, kind, b) = load(file);
    println!("property {id}, {kind}, {} bytes: {}", b.len(), hex_str(&b[..b.len().min(400)]));
    println!("model: {:.1000}", format!("{:?}", model::run(&b)));
    if kind == "crash" {
        let dir = work().join(format!("replay-{}", std::process::id()));
        std::fs::create_dir_all(&dir).unwrap();
        let r = alone(&id, &dir, &Busy { seq: 0, label: "replay".into(), data: b, complete: true });
        let _ = std::fs::remove_dir_all(&dir);
        println!("{r:?}");
        return i32::from(r.is_some());
    }
    let l = std::thread::Builder::new().stack_size(256 << 20).spawn(move || judge(&id, &kind, &b)).unwrap().join().unwrap();
    for x in &l {
        println!("{x}");
    }
    i32::from(!l.is_empty())
}
