//! C20: the command-line tool speaks its protocol and shows what the library gives.
use std::cell::RefCell;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::rc::Rc;
use std::sync::Mutex;

use bladeink::story::Story;
use bladeink::story::errors::{ErrorHandler, ErrorType};
use bladeink_compiler::{Compiler, CompilerError, CompilerOptions};
use serde_json::{Value as J, json};

use crate::core::*;

pub static TOOL: Mutex<Option<String>> = Mutex::new(None);

struct Ran {
    out: String,
    err: String,
    code: Option<i32>,
}

fn run(dir: &Path, args: &[&str], stdin: &str) -> Option<Ran> {
    let tool = TOOL.lock().unwrap_or_else(|e| e.into_inner()).clone()?;
    let mut c = Command::new(tool).args(args).current_dir(dir).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().ok()?;
    let mut i = c.stdin.take()?;
    let text = stdin.to_string();
    // It may end before it read all
    let t = std::thread::spawn(move || {
        let _ = i.write_all(text.as_bytes());
    });
    let o = c.wait_with_output().ok()?;
    let _ = t.join();
    Some(Ran { out: String::from_utf8_lossy(&o.stdout).to_string(), err: String::from_utf8_lossy(&o.stderr).to_string(), code: o.status.code() })
}

#[derive(Default)]
struct Msgs {
    errors: Vec<String>,
    warnings: Vec<String>,
}

impl ErrorHandler for Msgs {
    fn error(&mut self, m: &str, t: ErrorType) {
        match t {
            ErrorType::Error => self.errors.push(m.to_string()),
            ErrorType::Warning => self.warnings.push(m.to_string()),
        }
    }
}

#[derive(Debug, PartialEq, Clone)]
enum Shown {
    Text(String),
    Tags(Vec<String>),
    Choices(Vec<(String, Vec<String>)>),
}

struct Expected {
    shown: Vec<Shown>,
    issues: Vec<String>,
    jumps: Vec<(String, String)>,
    ended: bool,
    failed: bool,
}

/// What the library gives for the same choices.
fn expected(json: &str, inputs: &[String]) -> Option<Expected> {
    let mut s = Story::new(json).ok()?;
    let m = Rc::new(RefCell::new(Msgs::default()));
    s.set_error_handler(m.clone());
    s.set_allow_external_function_fallbacks(true);
    let mut e = Expected { shown: vec![], issues: vec![], jumps: vec![], ended: false, failed: false };
    let mut it = inputs.iter();
    let mut lines = 0;
    let began = std::time::Instant::now();
    loop {
        while s.can_continue() {
            lines += 1;
            if lines > 300 || began.elapsed().as_secs_f64() > 3.0 {
                return None;
            }
            s.verif_set_fuel(Some(if json.len() < 60_000 { FUEL / 8 } else { FUEL }));
            match s.cont() {
                Ok(t) => e.shown.push(Shown::Text(t)),
                Err(_) => {
                    e.failed = true;
                    return Some(e);
                }
            }
            if let Ok(t) = s.get_current_tags()
                && !t.is_empty()
            {
                e.shown.push(Shown::Tags(t));
            }
            let mut m = m.borrow_mut();
            if m.errors.iter().any(|x| x.contains(NO_FUEL)) {
                return None;
            }
            let (w, er) = (std::mem::take(&mut m.warnings), std::mem::take(&mut m.errors));
            e.issues.extend(w);
            e.issues.extend(er);
        }
        let cs = s.get_current_choices();
        if cs.is_empty() {
            e.ended = true;
            return Some(e);
        }
        e.shown.push(Shown::Choices(cs.iter().map(|c| (c.text.clone(), c.tags.clone())).collect()));
        loop {
            let Some(raw) = it.next() else { return Some(e) };
            let t = raw.trim();
            if t.is_empty() {
                continue;
            }
            let low = t.to_lowercase();
            if low == "quit" || low == "exit" {
                return Some(e);
            }
            if low == "help" {
                continue;
            }
            let ws: Vec<&str> = t.split_whitespace().collect();
            if ws.len() == 2 && ws[0] == "->" {
                if let Err(x) = s.choose_path_string(ws[1], true, None) {
                    e.jumps.push((ws[1].to_string(), x.to_string()));
                }
                break;
            }
            match t.parse::<usize>() {
                Ok(n) if n >= 1 && n <= cs.len() => {
                    s.choose_choice_index(n - 1).ok()?;
                    break;
                }
                _ => continue,
            }
        }
    }
}

fn inputs(json: &str, rng: &mut Rng) -> Vec<String> {
    let knots = Prog::new("x", json).map(|p| p.knots).unwrap_or_default();
    let n = rng.below(14);
    (0..n)
        .map(|_| match rng.below(16) {
            0 => "".to_string(),
            1 => "0".into(),
            2 => "99".into(),
            3 => ["help", "HELP", "no", "é", "\"", "1 2", "->", "-1", "1.5", "99999999999999999999999", "\\", "\t", "-> a b"][rng.below(13)].to_string(),
            4 => format!("-> {}", ["nowhere", "a\"b", "c\\d", "no\u{1}way", "é.ü", "k0.x.y", "{}", "0.99"][rng.below(8)]),
            5 if !knots.is_empty() => format!("-> {}", rng.pick(&knots)),
            6 => format!("  {}  ", 1 + rng.below(3)),
            7 if rng.chance(20) => ["quit", "Exit"][rng.below(2)].into(),
            8 => "1\r".into(),
            _ => format!("{}", 1 + rng.below(3)),
        })
        .collect()
}

fn json_play(r: &mut Report, name: &str, ran: &Ran, want: &Expected) {
    if ran.code == Some(101) || ran.code.is_none() {
        return r.fail("the tool dies", name, ran.err.chars().take(800).collect(), J::Null);
    }
    let mut shown = vec![];
    let (mut issues, mut jumps) = (vec![], vec![]);
    let mut ended = false;
    for (i, d) in serde_json::Deserializer::from_str(&ran.out).into_iter::<J>().enumerate() {
        let d = match d {
            Ok(J::Object(o)) => o,
            Ok(x) => return r.fail("something else than an object", name, x.to_string(), J::Null),
            Err(e) => return r.fail("not well-formed JSON", name, format!("object {i}: {e}\n{}", ran.out.chars().take(3000).collect::<String>()), J::Null),
        };
        let strings = |v: &J| -> Option<Vec<String>> { v.as_array()?.iter().map(|x| x.as_str().map(|s| s.to_string())).collect() };
        let keys: Vec<&str> = d.keys().map(|k| k.as_str()).collect();
        let ok = match keys.as_slice() {
            ["text"] => d["text"].as_str().map(|t| shown.push(Shown::Text(t.to_string()))).is_some(),
            ["tags"] => strings(&d["tags"]).map(|t| shown.push(Shown::Tags(t))).is_some(),
            ["choices"] => d["choices"].as_array().is_some_and(|a| {
                let cs: Option<Vec<(String, Vec<String>)>> = a
                    .iter()
                    .map(|c| {
                        let tags = match c.get("tags") {
                            Some(t) => strings(t)?,
                            None => vec![],
                        };
                        if c.get("tag_count").is_some_and(|n| n.as_u64() != Some(tags.len() as u64)) {
                            return None;
                        }
                        Some((c.get("text")?.as_str()?.to_string(), tags))
                    })
                    .collect();
                cs.map(|c| shown.push(Shown::Choices(c))).is_some()
            }),
            ["issues"] => strings(&d["issues"])
                .map(|v| {
                    for m in v {
                        if m.starts_with("Error diverting to ") { jumps.push(m) } else { issues.push(m) }
                    }
                })
                .is_some(),
            ["end"] => {
                ended = true;
                d["end"] == json!(true)
            }
            ["needInput"] | ["close"] | ["compile-success"] => d.values().all(|v| v.is_boolean()),
            ["cmdOutput"] => d["cmdOutput"].is_string(),
            _ => false,
        };
        if !ok {
            return r.fail("an object of no documented kind", name, J::Object(d).to_string(), J::Null);
        }
    }
    if shown != want.shown {
        let i = shown.iter().zip(&want.shown).position(|(a, b)| a != b).unwrap_or(shown.len().min(want.shown.len()));
        return r.fail("the tool shows something else than the library", name, format!("item {i}: wanted {:?}, got {:?}", want.shown.get(i), shown.get(i)), J::Null);
    }
    if issues != want.issues && !want.failed {
        return r.fail("the tool's messages aren't the library's", name, format!("wanted {:?}, got {issues:?}", want.issues), J::Null);
    }
    if jumps.len() != want.jumps.len() || jumps.iter().zip(&want.jumps).any(|(g, (p, e))| !g.contains(p) || !g.contains(e)) {
        return r.fail("the message of a failed jump", name, format!("wanted {:?}, got {jumps:?}", want.jumps), J::Null);
    }
    if ended && !want.ended {
        return r.fail("the end is told too early", name, String::new(), J::Null);
    }
}

fn plain_play(r: &mut Report, name: &str, ran: &Ran, want: &Expected) {
    if ran.code == Some(101) || ran.code.is_none() {
        return r.fail("the tool dies", name, ran.err.chars().take(800).collect(), J::Null);
    }
    let squeeze = |s: &str| s.replace("?> ", "").lines().map(|l| l.trim_end_matches('\r')).filter(|l| !l.trim().is_empty()).map(|l| format!("{l}\n")).collect::<String>();
    let mut s = String::new();
    for w in &want.shown {
        match w {
            Shown::Text(t) => s += t,
            Shown::Tags(t) => s += &format!("# tags: {}\n", t.join(", ")),
            Shown::Choices(cs) => {
                s.push('\n');
                for (i, (t, tags)) in cs.iter().enumerate() {
                    s += &format!("{}: {t}\n", i + 1);
                    if !tags.is_empty() {
                        s += &format!("# tags: {}\n", tags.join(", "));
                    }
                }
            }
        }
    }
    let skip = |l: &&str| !l.starts_with("Type a choice number") && !l.starts_with("<User input stream closed") && !l.starts_with("--- End of story");
    let got: Vec<String> = squeeze(&ran.out).lines().filter(skip).map(|l| l.to_string()).collect();
    let want_lines: Vec<String> = squeeze(&s).lines().filter(skip).map(|l| l.to_string()).collect();
    if got != want_lines {
        return r.fail("the tool shows something else than the library", name, diff(&want_lines.join("\n"), &got.join("\n")), J::Null);
    }
}

fn library(source: &str, file: &str, dir: &Path) -> Result<String, CompilerError> {
    let dir = dir.to_path_buf();
    Compiler::with_options(CompilerOptions { count_all_visits: true, source_filename: Some(file.to_string()) }).compile_with_file_handler(source, move |inc| {
        std::fs::read_to_string(dir.join(inc)).map_err(|e| CompilerError::invalid_source(format!("Failed to read included file '{inc}': {e}")))
    })
}

/// Spoils a source.
fn spoil(src: &str, rng: &mut Rng) -> String {
    let mut lines: Vec<String> = src.lines().map(|l| l.to_string()).collect();
    for _ in 0..1 + rng.below(2) {
        let i = rng.below(lines.len().max(1)).min(lines.len().saturating_sub(1));
        let bad = ["-> nowhere_at_all", "{unclosed", "~ x = = 2", "=== ===", "VAR 9 = 1", "~ return return", "* [", "INCLUDE missing.ink", "{a|b", "~ temp = 3", "<- no_thread_here", "-> t ->-> u", "LIST = a", "EXTERNAL", "{\"quote\\\" {", "CONST c ="];
        if lines.is_empty() {
            lines.push(rng.pick(&bad).to_string());
        } else {
            match rng.below(3) {
                0 => lines.insert(i, rng.pick(&bad).to_string()),
                1 => {
                    let l = lines[i].clone();
                    let cut = l.char_indices().map(|x| x.0).nth(rng.below(l.chars().count() + 1)).unwrap_or(0);
                    lines[i] = l[..cut].to_string();
                }
                _ => {
                    lines[i].push_str(*rng.pick(&["{", "}", "|", "\"", "->", "(", " \u{1}"]));
                }
            }
        }
    }
    lines.join("\n")
}

struct Scratch(PathBuf);

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn dice(json: &str) -> bool {
    ["\"rnd\"", "\"srnd\"", "\"lrnd\"", "\"seq\""].iter().any(|k| json.contains(k))
}

pub fn c20(r: &mut Report) {
    let base = std::env::current_dir().unwrap_or_else(|_| std::env::temp_dir()).join(format!("c20-{}-{}", std::process::id(), shard().0));
    if std::fs::create_dir_all(&base).is_err() {
        return;
    }
    let scratch = Scratch(base.clone());
    let dir = &scratch.0;
    let mut rng = Rng::new(r.seed * 41 + shard().0 as u64);

    // Playing: stories without dice, from their source or compiled
    let mut progs: Vec<(String, Option<String>, String)> = vec![];
    for (n, s) in ink_sources() {
        if let Ok(j) = crate::play::compile(&n, &s)
            && !dice(&j)
            && !s.contains("INCLUDE")
        {
            progs.push((n, Some(s), j));
        }
    }
    for p in corpus().into_iter().chain(own()) {
        if !dice(&p.json) {
            progs.push((p.name, None, p.json));
        }
    }
    for i in 0..r.n(400, 4000) as u64 {
        let seed = r.seed * 7001 + i;
        let w = if i % 4 == 0 { 10 } else { 0 };
        let src = crate::ink::odd_source(seed, w);
        if let Ok(j) = crate::play::compile("g.ink", &src)
            && !dice(&j)
        {
            progs.push((format!("gen{seed}"), Some(src), j));
        }
    }
    for i in (1..progs.len()).rev() {
        progs.swap(i, Rng::new(r.seed + i as u64).below(i + 1));
    }
    for (pi, (n, src, json)) in mine(progs).into_iter().enumerate() {
        if r.past(0.6) {
            break;
        }
        for k in 0..r.n(3, 8) {
            let ins = inputs(&json, &mut rng);
            let name = format!("play {n}#{k}");
            let from_source = src.is_some() && (k + pi) % 3 == 0;
            let js = k % 3 != 2;
            r.case(&name, || json!({"story": n, "source": src, "inputs": ins, "json_mode": js, "compiled_by_tool": from_source}), |r| {
                let Some(want) = expected(&json, &ins) else { return };
                let (file, text) = if from_source { ("s t.ink", src.as_ref().unwrap_or(&json)) } else { ("story.ink.json", &json) };
                if std::fs::write(dir.join(file), text).is_err() {
                    return;
                }
                let flags = ["-jp", "-jpk", "-p", "-pk"][(if js { 0 } else { 2 }) + k % 2];
                let Some(ran) = run(dir, &[flags, file], &format!("{}\n", ins.join("\n")).replace("\n\n", "\n")) else { return };
                r.note(&ran.out);
                if js { json_play(r, &name, &ran, &want) } else { plain_play(r, &name, &ran, &want) }
            });
        }
    }
    // Compiling: what it writes, and what it says of errors
    let all = ink_sources();
    let mut i = 0;
    while !r.past(0.97) && i < r.n(1500, 20_000) {
        i += 1;
        let (n, s) = if rng.chance(50) {
            all[rng.below(all.len())].clone()
        } else {
            let seed = rng.next() >> 8;
            (format!("gen{seed}"), crate::ink::odd_source(seed, 0))
        };
        let here = Path::new(&n).parent().map(|p| p.to_path_buf()).unwrap_or_default();
        let bad = rng.chance(65);
        let text = if bad { spoil(&s, &mut rng) } else { s };
        let js = rng.chance(60);
        let file = *rng.pick(&["main.ink", "sp ace.ink", "q'uo\"te.ink", "é.ink"]);
        let name = format!("compile {n} {i}");
        let bom = rng.chance(10);
        r.case(&name, || json!({"story": n, "source": text, "json_mode": js, "file": file}), |r| {
            // What is included lies beside it
            if s_includes(&text) {
                for e in std::fs::read_dir(&here).into_iter().flatten().flatten() {
                    if e.path().extension().is_some_and(|x| x == "ink") {
                        let _ = std::fs::copy(e.path(), dir.join(e.file_name()));
                    }
                }
            }
            let out = dir.join("out.json");
            let _ = std::fs::remove_file(&out);
            let on_disk = if bom { format!("\u{feff}{text}") } else { text.clone() };
            if std::fs::write(dir.join(file), &on_disk).is_err() {
                return;
            }
            // Whether the compiler itself panics is another matter
            let Ok(want) = std::panic::catch_unwind(|| library(text.strip_prefix('\u{feff}').unwrap_or(&text), file, dir)) else { return };
            let mut args = vec![];
            if js {
                args.push("-j");
            }
            args.extend(["-o", "out.json", file]);
            let Some(ran) = run(dir, &args, "") else { return };
            if ran.code == Some(101) || ran.code.is_none() {
                return r.fail("the tool dies", &name, ran.err.chars().take(800).collect(), J::Null);
            }
            let mut said = String::new();
            let mut success = None;
            if js {
                for d in serde_json::Deserializer::from_str(&ran.out).into_iter::<J>() {
                    match d {
                        Ok(J::Object(o)) => {
                            if let Some(b) = o.get("compile-success") {
                                success = b.as_bool();
                            }
                            for m in o.get("issues").and_then(|i| i.as_array()).into_iter().flatten() {
                                said += m.as_str().unwrap_or("");
                                said.push('\n');
                            }
                            if let Some(k) = o.keys().find(|k| !["compile-success", "issues", "export-complete"].contains(&k.as_str())) {
                                return r.fail("an object of no documented kind", &name, k.clone(), J::Null);
                            }
                        }
                        Ok(x) => return r.fail("something else than an object", &name, x.to_string(), J::Null),
                        Err(e) => return r.fail("not well-formed JSON", &name, format!("{e}\n{}", ran.out), J::Null),
                    }
                }
            } else {
                said = ran.err.clone();
            }
            r.note(&format!("{} {said}", want.is_ok()));
            match want {
                Ok(j) => {
                    let got = std::fs::read_to_string(&out).unwrap_or_else(|e| e.to_string());
                    if ran.code != Some(0) || (js && success != Some(true)) {
                        r.fail("a good source is refused", &name, format!("{:?} {}", ran.code, ran.err), J::Null);
                    } else if got != j {
                        r.fail("the tool writes something else than the library", &name, diff(&j, &got), J::Null);
                    }
                }
                Err(e) => {
                    if ran.code == Some(0) || (js && success != Some(false)) {
                        r.fail("a compile error isn't told by the exit code", &name, format!("{e}: {:?} {success:?}", ran.code), J::Null);
                    } else if out.exists() {
                        r.fail("a compile error leaves an output", &name, e.to_string(), J::Null);
                    } else if !said.contains(e.message()) {
                        r.fail("the compiler's message isn't reported", &name, format!("wanted {e}, got {said}"), J::Null);
                    } else {
                        let (CompilerError::InvalidSource { file: f, line: l, .. } | CompilerError::UnsupportedFeature { file: f, line: l, .. }) = &e;
                        if f.as_ref().is_some_and(|f| !said.contains(f.as_str())) || l.is_some_and(|l| !said.contains(&l.to_string())) {
                            r.fail("the file or line of an error isn't reported", &name, format!("wanted {e}, got {said}"), J::Null);
                        }
                        if f.is_none() && l.is_some() {
                            r.fail("an error with a line but no file", &name, e.to_string(), J::Null);
                        }
                    }
                }
            }
        });
    }
}

fn s_includes(t: &str) -> bool {
    t.lines().any(|l| l.trim_start().starts_with("INCLUDE"))
}
