//! Known findings: genuine defects that are recorded instead of repaired (/verif/known_findings.json).
use crate::enc::*;
use crate::harness::{self, Scope};
use crate::model;
use nrbf::RemotingMessage;
use std::process::Command;

pub fn root() -> std::path::PathBuf {
    std::env::var_os("MC_ROOT").map_or("/verif".into(), Into::into)
}

/// Checks which of the listed findings still fail, and says so.
pub fn report(id: &str) -> Vec<String> {
    let mut out = vec![];
    let Ok(text) = std::fs::read_to_string(root().join("known_findings.json")) else { return out };
    let j: serde_json::Value = serde_json::from_str(&text).expect("known_findings.json");
    for f in j["findings"].as_array().unwrap() {
        if f["property"] != id {
            continue;
        }
        let what = f["what"].as_str().unwrap();
        let fails = if let Some(hex) = f["input"].as_str() {
            let b = harness::unhex(hex);
            let mut m = model::Model::new(&b);
            match m.run() {
                model::Verdict::Accept { lenient: Some(_), msg } => {
                    // the defect: rejected, although the strict reading has a value
                    let strict = model::Verdict::Accept { lenient: None, msg };
                    harness::diff(Scope::All, "known finding", &b, &strict, m.elements).is_err()
                }
                v => panic!("a known finding the model does not know: {v:?}"),
            }
        } else {
            let crash = f["crash"].as_str().expect("input or crash");
            let exe = std::env::current_exe().unwrap();
            let s = Command::new(exe).args(["known", crash]).output().unwrap();
            s.status.code().is_none()
        };
        if fails {
            let line = format!("KNOWN-FINDING: property={id} {what}");
            println!("{line}");
            out.push(line);
        }
    }
    out
}

unsafe extern "C" {
    fn setrlimit(what: i32, l: *const [u64; 2]) -> i32;
}
pub fn limit(what: i32, n: u64) {
    unsafe {
        setrlimit(what, &[n, n]);
    }
}
pub const RLIMIT_CPU: i32 = 0;
pub const RLIMIT_CORE: i32 = 4;
pub const RLIMIT_AS: i32 = 9;

/// A process of its own that is expected to crash.
pub fn run(what: &str) -> i32 {
    limit(RLIMIT_CORE, 0);
    limit(RLIMIT_AS, 4 << 30);
    limit(RLIMIT_CPU, 60);
    let b = match what.rsplit_once(' ').map_or((what, 0), |(w, n)| (w, n.parse::<usize>().unwrap())) {
        ("nested objects", n) => {
            let mut e = E::msg(1);
            for k in 0..n {
                e = e.sys(k as i32 + 1, "A", &["x"])
            }
            e.null().end()
        }
        ("chain of references", n) => {
            let mut e = E::msg(1);
            for k in 0..n as i32 {
                e = e.arr_obj(k + 1, 1).r(k + 2)
            }
            e.string(n as i32 + 1, "x").end()
        }
        ("array rank", n) => E::msg(1).u8(7).i32(1).u8(2).i32(n as i32).raw(&1i32.to_le_bytes().repeat(n)).u8(2).null().end(),
        ("null run", n) => E::msg(1).arr_obj(1, n as i32).nulls(n as i32).end(),
        x => panic!("no such finding: {x:?}"),
    };
    // with the stack that a program's main thread usually has
    let r = std::thread::Builder::new().stack_size(8 << 20).spawn(move || RemotingMessage::parse(&b).is_ok()).unwrap().join();
    println!("{r:?}");
    0
}
