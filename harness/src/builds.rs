//! The same run in other builds and other processes: what they print must be the same.
use std::process::{Command, Stdio};
use std::sync::Mutex;

use serde_json::{Value as J, json};

use crate::core::*;

pub static OTHERS: Mutex<Vec<String>> = Mutex::new(vec![]);

/// The transcripts themselves, to look into a difference
pub fn show_all() -> bool {
    std::env::var_os("VH_SHOW").is_some()
}

pub fn lines(which: &str, seed: u64, thorough: bool) -> Vec<String> {
    let mut r = Report::new(which, seed, thorough, 1e9, None);
    match which {
        "C03" => crate::play::digest(&r).lines().map(|s| s.to_string()).collect(),
        "C04" => crate::faults::c04_lines(&mut r),
        "C14" => crate::loaders::c14_lines(&r),
        _ => vec![],
    }
}

/// In the other process
pub fn print_lines(which: &str, seed: u64, thorough: bool) {
    *SHARD.lock().unwrap_or_else(|e| e.into_inner()) = (0, 1);
    let out: Vec<String> = lines(which, seed, thorough);
    println!("{}", json!(out));
}

pub fn compare(r: &mut Report, which: &str, kind: &str) {
    let mut others = OTHERS.lock().unwrap_or_else(|e| e.into_inner()).clone();
    if which != "C14"
        && let Ok(me) = std::env::current_exe()
    {
        others.push(me.to_string_lossy().to_string());
    }
    let mut children = vec![];
    for o in &others {
        let mut c = Command::new(o);
        c.args(["lines", "--of", which, "--seed", &r.seed.to_string()]);
        if r.thorough {
            c.args(["--tier", "thorough"]);
        }
        match c.stdout(Stdio::piped()).stderr(Stdio::null()).spawn() {
            Ok(c) => children.push((o.clone(), c)),
            Err(e) => eprintln!("{o}: {e}"),
        }
    }
    let seed = r.seed;
    let thorough = r.thorough;
    let keep = *SHARD.lock().unwrap_or_else(|e| e.into_inner());
    *SHARD.lock().unwrap_or_else(|e| e.into_inner()) = (0, 1);
    let mine = lines(which, seed, thorough);
    *SHARD.lock().unwrap_or_else(|e| e.into_inner()) = keep;
    for (o, c) in children {
        let name = format!("build {}", if o.contains("release") { "release" } else if o.contains("/hs/") { "stream" } else { "another process" });
        let Ok(out) = c.wait_with_output() else { continue };
        r.case(&name, || json!({"command": format!("{o} lines --of {which} --seed {seed}")}), |r| {
            let text = String::from_utf8_lossy(&out.stdout);
            let Ok(J::Array(theirs)) = serde_json::from_str::<J>(text.trim()) else {
                if !out.status.success() {
                    r.fail("the other build ends early", &name, format!("{:?} {}", out.status, text.chars().take(500).collect::<String>()), J::Null);
                }
                return;
            };
            r.evals += theirs.len() as u64;
            for (i, m) in mine.iter().enumerate() {
                r.note(m);
                let t = theirs.get(i).and_then(|t| t.as_str()).unwrap_or("(nothing)");
                if t != m {
                    return r.fail(kind, &name, format!("line {i}\nhere : {m}\nthere: {t}\n{}", diff(m, t)), J::Null);
                }
            }
            if mine.len() != theirs.len() {
                r.fail(kind, &name, format!("{} and {} cases", mine.len(), theirs.len()), J::Null);
            }
        });
    }
}
