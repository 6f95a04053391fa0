//! The properties decided by playing: C02, C03, C08, C09, C10, C11, C13, C16, C17, C18, C19.
use std::rc::Rc;

use bladeink::story::Story;
use bladeink::value_type::ValueType;
use serde_json::{Value as J, json};

use crate::core::*;

fn input(p: &Prog, ops: &[Op]) -> J {
    if p.name.starts_with("gen-") {
        return json!({"story": p.name, "compiled": p.json, "ops": ops_json(ops)});
    }
    json!({"story": p.name, "ops": ops_json(ops)})
}

/// Own stories first, some random ones and all the corpus after them.
pub fn progs(r: &Report) -> Vec<Rc<Prog>> {
    let gen_seed = |i: usize| r.seed.wrapping_mul(100_003).wrapping_add(i as u64);
    let some = (0..r.n(30, 200)).filter_map(|i| crate::ink::quick_prog(gen_seed(i), if i % 5 == 4 { 4 } else { 0 }, i % 2 == 0));
    let own = if r.round == 0 { own() } else { own().into_iter().filter(|p| !p.name.starts_with("The")).collect() };
    own.into_iter().chain(some).chain(corpus()).map(Rc::new).collect()
}

fn scripts(r: &Report, p: &Rc<Prog>, setup: &Setup, walks: usize, randoms: usize, mix: Mix, salt: u64) -> Vec<Vec<Op>> {
    // The walks along the choices are the same in every round
    let mut out = if r.round == 0 { choice_walks(p, setup, walks, 60) } else { vec![] };
    let own = !p.name.contains('/');
    for i in 0..randoms {
        let mut rng = Rng::new(r.seed.wrapping_mul(1000) + i as u64 + salt * 77);
        let m = if i % 3 == 0 { PLAIN } else { mix };
        out.push(random_ops(p, setup, m, if own { 40 } else { 25 }, &mut rng));
    }
    out.retain(|o| !o.is_empty());
    out
}

fn counts_for(p: &Prog, r: &Report) -> (usize, usize) {
    if p.name.starts_with("gen-") {
        (r.n(5, 12), r.n(5, 12))
    } else if !p.name.contains('/') && !p.name.starts_with("TheIntercept") {
        (r.n(24, 120), r.n(24, 150))
    } else if p.name.starts_with("TheIntercept") {
        (r.n(4, 20), r.n(3, 20))
    } else {
        (r.n(8, 24), r.n(4, 16))
    }
}

// ---------------------------------------------------------------- C02

pub fn c02(r: &mut Report) {
    let setup = Setup::default();
    if r.round == 0 {
        c02_values(r);
    }
    let all = mine(progs(r));
    let total = all.len();
    for (pi, p) in all.into_iter().enumerate() {
        r.part(total - pi);
        let (w, n) = counts_for(&p, r);
        for (si, ops) in scripts(r, &p, &setup, w / 2 + 1, n / 2 + 1, BUSY, 2).into_iter().enumerate() {
            if r.part_over() {
                break;
            }
            let name = format!("{}#{si}", p.name);
            let i = input(&p, &ops);
            r.case(&name, || i.clone(), |r| c02_case(r, &name, &p, &setup, &ops));
        }
    }
}

/// Any value a variable may have against any it starts with: only the very same may be left out of a save.
fn c02_values(r: &mut Report) {
    let lists = ["()", "(a1)", "(a2)", "(a1, a3)", "(a2, a3)", "(a1, a2, a3)", "(b1)", "(a1, b1)", "(a1, b2)", "(A.x, B.x)", "(A.x)", "(B.x)", "(b1, b2)"];
    let plain = ["0", "1", "-1", "2147483647", "-2147483647", "100", "0.0", "1.0", "-1.0", "1.5", "100.0", "0.25", "true", "false", "\"\"", "\"a\"", "\"1\"", "\"true\"", "\"a b\"", "\"{1+1}\"", "-> k", "-> k.st", "-> main"];
    let more = [
        "(a1) - (a1)", "(b1) - (b1)", "(a1, b1) - (a1, b1)", "A(2)", "LIST_ALL(v4)", "LIST_INVERT(v4)", "v5 + 1", "LIST_RANGE(v5, 1, 2)", "v9 ^ v5", "A()", "1 + 0.0", "0.0 * -1", "3.0 / 3",
        "1 == 1", "0.1 + 0.2", "16777217.0", "0.1", "100000.0 * 100000000.0", "\"a\" + \"\"", "POW(2, 2)", "FLOAT(1)", "INT(1.5)",
    ];
    let mut vars = String::new();
    for (i, e) in lists.iter().chain(plain.iter()).enumerate() {
        let e = if e.contains('{') { "\"2\"" } else { e };
        vars += &format!("VAR v{i} = {e}\n");
    }
    let n = lists.len() + plain.len();
    let exprs: Vec<String> = (0..n).map(|i| format!("v{i}")).chain(more.iter().map(|s| s.to_string())).chain(lists.iter().map(|s| s.to_string())).collect();
    // Which variable gets which value is told by the number the host gives
    let mut funs = String::new();
    for (j, e) in exprs.iter().enumerate() {
        let arms: String = (0..n).map(|i| format!("- w == {i}:\n  ~ v{i} = {e}\n")).collect();
        funs += &format!("=== function set{j}(w) ===\n{{\n{arms}}}\n");
    }
    let alls: String = (0..lists.len()).map(|i| format!("{{v{i}}} {{LIST_ALL(v{i})}} {{LIST_INVERT(v{i})}} {{LIST_COUNT(v{i})}} {{v{i} + 1}} ")).collect();
    let src = format!("LIST A = a1, a2, a3, x\nLIST B = b1, b2, x = 7\n{vars}-> main\n=== main ===\nHello.\n+ [more] -> main\n=== k ===\nx\n-> main\n= st\ny\n-> main\n{funs}=== function tell() ===\n{alls}\n");
    let json = match compile("values.ink", &src) { Ok(j) => j, Err(e) => { eprintln!("{e}"); return } };
    let Some(p) = Prog::new("values", &json).map(Rc::new) else { return };
    let setup = Setup { observers: false, ..Setup::default() };
    let mut pair: Option<(Host, Host)> = None;
    for i in mine((0..n).collect()) {
        for (j, e) in exprs.iter().enumerate() {
            if r.past(0.3) {
                return;
            }
            // Lists and others don't mix in what is told
            if i < lists.len() && (plain.contains(&e.as_str()) || (j >= lists.len() && j < n)) {
                continue;
            }
            let name = format!("value {e} in v{i}");
            r.case(&name, || json!({"ink": src, "variable": i, "set": e}), |r| {
                // Making them takes the most time
                let (mut a, mut b) = match pair.take() {
                    Some((mut a, b)) => {
                        if a.story.reset_state().is_err() {
                            return;
                        }
                        (a, b)
                    }
                    None => {
                        let (Ok(a), Ok(b)) = (Host::new(&p, &setup), Host::new(&p, &setup)) else { return };
                        (a, b)
                    }
                };
                a.apply(&Op::Cont);
                a.apply(&Op::Eval(format!("set{j}"), vec![Val::I(i as i32)]));
                let Ok(text) = a.story.save_state() else { return };
                if let Err(e) = b.story.load_state(&text) {
                    return r.fail("load fails", &name, format!("{e}\n{text}"), J::Null);
                }
                let tell = |h: &mut Host| {
                    let values: Vec<String> = h.prog.vars.clone().iter().map(|v| format!("{v} {}", h.story.get_variable(v).map(|x| show(&x)).unwrap_or_default())).collect();
                    let told = h.apply(&Op::Eval("tell".into(), vec![]));
                    format!("{told}\n{}\n{}", values.join("\n"), h.take_log().join("\n"))
                };
                let (x, y) = (tell(&mut a), tell(&mut b));
                r.note(&text);
                if x != y {
                    return r.fail("a variable has another value once loaded", &name, diff(&x, &y), J::Null);
                }
                pair = Some((a, b));
            });
        }
    }
}

fn c02_case(r: &mut Report, name: &str, p: &Rc<Prog>, setup: &Setup, ops: &[Op]) {
    // What the story that was never saved shows
    let Ok(mut a) = Host::new(p, setup) else { return };
    let mut trace = vec![];
    for op in ops {
        let what = a.apply(op);
        trace.push((what, a.full(), a.take_log()));
    }
    let step = if ops.len() > 24 && !r.thorough { ops.len() / 16 } else { 1 };
    for k in (0..ops.len()).step_by(step.max(1)) {
        let Ok(mut s) = Host::new(p, setup) else { return };
        for op in &ops[..=k] {
            s.apply(op);
            // It numbers the choices, and the numbers are saved
            s.story.get_current_choices();
        }
        let text = match s.story.save_state() {
            Ok(t) => t,
            Err(e) => return r.fail("save fails", &format!("{name}@{k}"), e.to_string(), J::Null),
        };
        let Ok(mut b) = Host::new(p, setup) else { return };
        if let Err(e) = b.story.load_state(&text) {
            return r.fail("load fails", &format!("{name}@{k}"), format!("{e}\n{text}"), J::Null);
        }
        b.take_log();
        r.note(&text);
        let got = b.full();
        if got != trace[k].1 {
            r.fail(
                "a loaded story isn't the saved one",
                &format!("{name}@{k}"),
                format!("after {:?}\n{}", &ops[..=k], diff(&trace[k].1, &got)),
                J::Null,
            );
            return;
        }
        for (j, op) in ops.iter().enumerate().skip(k + 1) {
            let what = b.apply(op);
            let (full, log) = (b.full(), b.take_log());
            if what != trace[j].0 || full != trace[j].1 || log != trace[j].2 {
                r.fail(
                    "a loaded story goes another way",
                    &format!("{name}@{k}+{j}"),
                    format!(
                        "saved after operation {k}, then at operation {j} {op:?}\n{}{}{}",
                        diff(&trace[j].0, &what),
                        diff(&trace[j].1, &full),
                        diff(&trace[j].2.join("\n"), &log.join("\n"))
                    ),
                    J::Null,
                );
                return;
            }
            if b.out_of_fuel {
                break;
            }
        }
    }
}

// ---------------------------------------------------------------- C03

pub fn c03(r: &mut Report) {
    let setup = Setup::default();
    let reps = r.n(4, 10);
    let all = mine(progs(r));
    let total = all.len();
    for (pi, p) in all.into_iter().enumerate() {
        r.part(total - pi);
        let (w, n) = counts_for(&p, r);
        for (si, ops) in scripts(r, &p, &setup, w, n, BUSY, 3).into_iter().enumerate() {
            if r.past(0.7) {
                break;
            }
            let name = format!("{}#{si}", p.name);
            let i = input(&p, &ops);
            r.case(&name, || i.clone(), |r| {
                let first = transcript(&p, &setup, &ops);
                r.note(&first);
                for _ in 1..reps {
                    let again = transcript(&p, &setup, &ops);
                    if again != first {
                        r.fail("two runs differ", &name, diff(&first, &again), J::Null);
                        return;
                    }
                }
            });
        }
    }
    // Lists are where order could show
    for i in 0..r.n(60, 400) {
        if r.past(0.85) {
            break;
        }
        let p = Rc::new(crate::lists::random_list_story(&mut Rng::new(r.seed * 7919 + i as u64)));
        let name = format!("lists{i}");
        let ops = vec![Op::Max];
        r.case(&name, || json!({"story": p.json}), |r| {
            let first = transcript(&p, &setup, &ops);
            r.note(&first);
            for _ in 1..reps * 3 {
                let again = transcript(&p, &setup, &ops);
                if again != first {
                    r.fail("two runs differ", &name, diff(&first, &again), J::Null);
                    return;
                }
            }
        });
    }
    // The same item name in several lists
    for i in 0..r.n(60, 400) {
        if r.past(0.88) {
            break;
        }
        let p = Rc::new(crate::lists::shared_items_story(&mut Rng::new(r.seed * 6151 + i as u64)));
        let name = format!("shared{i}");
        let ops = vec![Op::Max];
        r.case(&name, || json!({"story": p.json}), |r| {
            let first = transcript(&p, &setup, &ops);
            r.note(&first);
            for _ in 1..reps * 4 {
                let again = transcript(&p, &setup, &ops);
                if again != first {
                    r.fail("two runs differ", &name, diff(&first, &again), J::Null);
                    return;
                }
            }
        });
    }
    if r.round == 0 && shard().0 == 0 {
        crate::builds::compare(r, "C03", "runs differ between builds or processes");
    }
    for (name, source) in ink_sources() {
        if r.past(1.0) {
            break;
        }
        r.case(&format!("compile {name}"), || json!({"ink": name}), |r| {
            let first = compile(&name, &source);
            for _ in 1..reps {
                if compile(&name, &source) != first {
                    r.fail("two compilations differ", &name, String::new(), J::Null);
                }
            }
        });
    }
}

pub fn compile(name: &str, source: &str) -> Result<String, String> {
    let dir = std::path::Path::new(name).parent().map(|p| p.to_path_buf()).unwrap_or_default();
    bladeink_compiler::Compiler::new()
        .compile_with_file_handler(source, |inc| {
            std::fs::read_to_string(dir.join(inc))
                .map_err(|e| bladeink_compiler::CompilerError::invalid_source(e.to_string()))
        })
        .map_err(|e| e.to_string())
}

pub fn transcript(p: &Rc<Prog>, setup: &Setup, ops: &[Op]) -> String {
    let mut h = match Host::new(p, setup) {
        Ok(h) => h,
        Err(e) => return format!("Err {e}"),
    };
    let mut out = String::new();
    for op in ops {
        out += &h.apply(op);
        out.push('\n');
        out += &h.full();
        out += &h.take_log().join("\n");
        out.push('\n');
        if h.out_of_fuel {
            break;
        }
    }
    if let Ok(t) = h.story.get_global_tags() {
        out += &format!("global tags {t:?}\n");
    }
    out
}

/// For comparisons between processes and builds.
pub fn digest(r: &Report) -> String {
    use std::hash::{DefaultHasher, Hash, Hasher};
    let setup = Setup::default();
    let mut out = String::new();
    for p in progs(r) {
        for (si, ops) in scripts(r, &p, &setup, 6, 4, BUSY, 4).into_iter().enumerate() {
            let t = transcript(&p, &setup, &ops);
            let mut h = DefaultHasher::new();
            t.hash(&mut h);
            if crate::builds::show_all() {
                out += &format!("{}#{si} {t:?}\n", p.name);
                continue;
            }
            out += &format!("{}#{si} {:016x} {}\n", p.name, h.finish(), ops.len());
        }
    }
    for (n, s) in ink_sources() {
        let mut h = DefaultHasher::new();
        format!("{:?}", compile(&n, &s)).hash(&mut h);
        out += &format!("compile {n} {:016x}\n", h.finish());
    }
    for i in 0..40u64 {
        let p = Rc::new(crate::lists::random_list_story(&mut Rng::new(r.seed * 613 + i)));
        let t = transcript(&p, &setup, &[Op::Max]);
        out += &format!("lists{i} {t:?}\n");
        let p = Rc::new(crate::lists::shared_items_story(&mut Rng::new(r.seed * 617 + i)));
        let t = transcript(&p, &setup, &[Op::Max]);
        out += &format!("shared{i} {t:?}\n");
    }
    out
}

// ---------------------------------------------------------------- C08

pub fn c08(r: &mut Report) {
    for safe in [true, false] {
        let setup = Setup { safe, ..Setup::default() };
        let all = mine(progs(r));
    let total = all.len();
    for (pi, p) in all.into_iter().enumerate() {
        r.part(total - pi);
            if !safe && p.externals.is_empty() {
                continue;
            }
            let (w, n) = counts_for(&p, r);
            for (si, ops) in scripts(r, &p, &setup, w, n, BUSY, 8).into_iter().enumerate() {
                if r.part_over() {
                    break;
                }
                let name = format!("{}#{si}", p.name);
                let i = input(&p, &ops);
                r.case(&name, || i.clone(), |r| c08_case(r, &name, &p, &setup, &ops, si as u64));
            }
        }
    }
}

fn c08_case(r: &mut Report, name: &str, p: &Rc<Prog>, setup: &Setup, ops: &[Op], salt: u64) {
    let run = |slices: &mut dyn FnMut() -> Option<Vec<usize>>| -> Vec<String> {
        let mut out = vec![];
        let Ok(mut h) = Host::new(p, setup) else { return out };
        for op in ops {
            let op = match op {
                Op::Cont | Op::Max => match slices() {
                    Some(s) if h.story.can_continue() => Op::Slices(s),
                    _ => Op::Cont,
                },
                o => o.clone(),
            };
            let mut what = h.apply(&op);
            if matches!(op, Op::Slices(_)) && what.contains("Cont -> Err") {
                what = what.replace("Slices", "Cont");
            }
            let log = h.take_log().join("\n");
            out.push(format!("{what}\n{}{log}\n", h.full()));
            if h.out_of_fuel {
                break;
            }
        }
        out
    };
    let want = run(&mut || None);
    r.note(&want.join(""));
    let mut rng = Rng::new(r.seed * 31 + salt);
    let mut patterns: Vec<(String, Box<dyn FnMut() -> Option<Vec<usize>>>)> = vec![];
    for k in [1usize, 2, 3, 5, 9] {
        patterns.push((format!("every {k}"), Box::new(move || Some(vec![k]))));
    }
    for k in 1..=r.n(6, 20) {
        patterns.push((format!("{k} then block"), Box::new(move || Some(vec![k, 0]))));
    }
    for _ in 0..r.n(2, 8) {
        let mut g = Rng::new(rng.next());
        patterns.push((
            "random".into(),
            Box::new(move || {
                if g.chance(25) {
                    return None;
                }
                let mut v: Vec<usize> = (0..g.below(8) + 1).map(|_| g.below(12) + 1).collect();
                if g.chance(30) {
                    v.push(0);
                }
                Some(v)
            }),
        ));
    }
    for (label, mut pat) in patterns {
        let got = run(&mut *pat);
        for (k, (w, g)) in want.iter().zip(&got).enumerate() {
            if w != g {
                r.fail(
                    "slicing changes the story",
                    &format!("{name}/{label}"),
                    format!("slices: {label}, at operation {k} {:?}\n{}", ops[k], diff(w, g)),
                    J::Null,
                );
                return;
            }
        }
        if want.len() != got.len() {
            r.fail("slicing changes the story", &format!("{name}/{label}"), "one stops earlier".into(), J::Null);
            return;
        }
    }
    // While a line isn't finished, state-changing calls are refused and change nothing
    let Ok(mut h) = Host::new(p, setup) else { return };
    let fresh_save = h.story.save_state().unwrap_or_default();
    for (k, op) in ops.iter().enumerate() {
        if matches!(op, Op::Cont | Op::Max) && h.story.can_continue() {
            h.story.verif_set_fuel(Some(h.setup.fuel));
            let mut paused = 0;
            let text = loop {
                bladeink::verif::set_pause_after(Some(1));
                if let Err(e) = h.story.continue_async(1.0) {
                    break format!("Cont -> Err {e}");
                }
                if let Ok(t) = h.story.get_current_text() {
                    break format!("{op:?} -> {t:?}").replace("Max", "Cont");
                }
                paused += 1;
                if paused > 3 && paused % 17 != 0 {
                    continue;
                }
                let (vars, flow) = (h.vars(), h.story.get_current_path());
                let events = h.log.borrow().len();
                let v0 = p.vars.first().cloned().unwrap_or("x".into());
                let val = h.story.get_variable(&v0).unwrap_or(ValueType::Int(1));
                let mut t = String::new();
                let refused: Vec<(&str, bool)> = vec![
                    ("set_variable", h.story.set_variable(&v0, &val).is_err()),
                    ("load_state", h.story.load_state(&fresh_save).is_err()),
                    ("reset_state", h.story.reset_state().is_err()),
                    ("switch_flow", h.story.switch_flow("f9").is_err()),
                    ("remove_flow", h.story.remove_flow("f1").is_err()),
                    ("choose_path_string", h.story.choose_path_string(p.knots.first().map_or("x", |k| k), true, None).is_err()),
                    ("choose_choice_index", h.story.choose_choice_index(0).is_err()),
                    (
                        "evaluate_function",
                        h.story.evaluate_function(p.knots.last().map_or("x", |k| k), None, &mut t).is_err(),
                    ),
                    ("bind_external_function", {
                        let rec = h.rec("");
                        h.story.bind_external_function("some new function", rec, true).is_err()
                    }),
                    ("unbind_external_function", {
                        let f = p.externals.first().map_or("some new function", |e| e.as_str());
                        h.story.unbind_external_function(f).is_err()
                    }),
                    ("observe_variable", {
                        let rec = h.rec("late ");
                        h.story.observe_variable(&v0, rec).is_err()
                    }),
                    ("remove_variable_observer", match h.observer.clone() {
                        Some(o) if paused % 2 == 0 => h.story.remove_variable_observer(&o, None).is_err(),
                        Some(o) => h.story.remove_variable_observer(&o, Some(&v0)).is_err(),
                        None => true,
                    }),
                ];
                h.story.switch_to_default_flow();
                for (call, ok) in refused {
                    if !ok {
                        r.fail(
                            "a call is accepted in the middle of a line",
                            &format!("{name}@{k} {call}"),
                            format!("{call} after {paused} steps of operation {k}"),
                            J::Null,
                        );
                        return;
                    }
                }
                if vars != h.vars() || flow != h.story.get_current_path() || events != h.log.borrow().len() {
                    r.fail("a refused call changes something", &format!("{name}@{k}"), String::new(), J::Null);
                    return;
                }
                if paused > 50_000 {
                    return;
                }
            };
            bladeink::verif::set_pause_after(None);
            h.story.verif_set_fuel(None);
            let log = h.take_log().join("\n");
            let got = format!("{text}\n{}{log}\n", h.full());
            if want.get(k).is_some_and(|w| *w != got) {
                r.fail(
                    "refused calls change the story",
                    &format!("{name}@{k}"),
                    diff(&want[k], &got),
                    J::Null,
                );
                return;
            }
        } else {
            h.apply(if matches!(op, Op::Max) { &Op::Cont } else { op });
            h.take_log();
        }
        if h.out_of_fuel || k + 1 >= want.len() {
            break;
        }
    }
}

// ---------------------------------------------------------------- C09

pub fn bad_calls(h: &Host) -> Vec<(String, Box<dyn Fn(&mut Host) -> Option<bool>>)> {
    // Each gives whether it was refused, or None if it isn't a bad call just now
    let mut v: Vec<(String, Box<dyn Fn(&mut Host) -> Option<bool>>)> = vec![];
    fn add(v: &mut Vec<(String, Box<dyn Fn(&mut Host) -> Option<bool>>)>, n: &str, f: impl Fn(&mut Host) -> Option<bool> + 'static) {
        v.push((n.to_string(), Box::new(f)));
    }
    add(&mut v, "cont", |h| (!h.story.can_continue()).then(|| h.story.cont().is_err()));
    add(&mut v, "continue_async", |h| {
        (!h.story.can_continue()).then(|| h.story.continue_async(1.0).is_err())
    });
    for d in [0usize, 1, 1000, usize::MAX / 2] {
        add(&mut v, &format!("choose_choice_index +{d}"), move |h| {
            let n = h.story.get_current_choices().len();
            Some(h.story.choose_choice_index(n.saturating_add(d)).is_err())
        });
    }
    add(&mut v, "choose_choice_index max", |h| Some(h.story.choose_choice_index(usize::MAX).is_err()));
    add(&mut v, "set undeclared variable", |h| {
        Some(h.story.set_variable("no such variable", &ValueType::Int(1)).is_err())
    });
    add(&mut v, "observe undeclared variable", |h| {
        let o = h.rec("bad ");
        Some(h.story.observe_variable("no such variable", o).is_err())
    });
    add(&mut v, "remove stranger observer", |h| {
        let o: Rc<std::cell::RefCell<dyn bladeink::story::variable_observer::VariableObserver>> = h.rec("bad ");
        let var = h.prog.vars.first().cloned();
        Some(h.story.remove_variable_observer(&o, var.as_deref()).is_err())
    });
    add(&mut v, "remove stranger observer from all", |h| {
        let o: Rc<std::cell::RefCell<dyn bladeink::story::variable_observer::VariableObserver>> = h.rec("bad ");
        Some(h.story.remove_variable_observer(&o, None).is_err())
    });
    add(&mut v, "remove observer of another variable", |h| {
        let o = h.observer.clone()?;
        Some(h.story.remove_variable_observer(&o, Some("no such variable")).is_err())
    });
    for f in ["", "   ", "no_such_function", "global decl", "no.such", ".^"] {
        if f == "global decl" {
            continue;
        }
        add(&mut v, &format!("evaluate {f:?}"), move |h| {
            let mut t = String::from("kept");
            let r = h.story.evaluate_function(f, None, &mut t).is_err();
            Some(r && t == "kept")
        });
    }
    if let Some(k) = h.prog.knots.last().cloned() {
        add(&mut v, "evaluate with a bad argument", move |h| {
            let mut t = String::new();
            let ptr = h.story.get_variable("ptr")?;
            Some(h.story.evaluate_function(&k, Some(&vec![ptr]), &mut t).is_err())
        });
    }
    for p in ["no_such_knot", "no.such.knot", "", "99999999999999999999", "0.999.1.x"] {
        for reset in [true, false] {
            add(&mut v, &format!("jump to {p:?} {reset}"), move |h| {
                Some(h.story.choose_path_string(p, reset, None).is_err())
            });
        }
    }
    add(&mut v, "remove unknown flow", |h| Some(h.story.remove_flow("no such flow").is_err()));
    add(&mut v, "remove default flow", |h| Some(h.story.remove_flow("DEFAULT_FLOW").is_err()));
    for s in ["", "{", "{}", "[]", "null", "{\"inkSaveVersion\": 1}", "{\"inkSaveVersion\": 10}", "\u{1}"] {
        add(&mut v, &format!("load {s:?}"), move |h| Some(h.story.load_state(s).is_err()));
    }
    add(&mut v, "load broken save", |h| {
        let s = h.story.save_state().ok()?;
        let mut j: J = serde_json::from_str(&s).ok()?;
        j["turnIdx"] = json!("x");
        Some(h.story.load_state(&j.to_string()).is_err())
    });
    add(&mut v, "load broken variables", |h| {
        let s = h.story.save_state().ok()?;
        let mut j: J = serde_json::from_str(&s).ok()?;
        let v0 = h.prog.vars.last()?;
        j["variablesState"][v0.as_str()] = json!([1]);
        Some(h.story.load_state(&j.to_string()).is_err())
    });
    if let Some(e) = h.prog.externals.first().cloned() {
        add(&mut v, "bind twice", move |h| {
            let rec = h.rec("bad ");
            Some(h.story.bind_external_function(&e, rec, false).is_err())
        });
    }
    add(&mut v, "unbind unknown", |h| Some(h.story.unbind_external_function("no such function").is_err()));
    v
}

pub fn c09(r: &mut Report) {
    let setup = Setup::default();
    let all = mine(progs(r));
    let total = all.len();
    for (pi, p) in all.into_iter().enumerate() {
        r.part(total - pi);
        let (w, n) = counts_for(&p, r);
        for (si, ops) in scripts(r, &p, &setup, w / 2, n, BUSY, 9).into_iter().enumerate() {
            if r.part_over() {
                break;
            }
            let name = format!("{}#{si}", p.name);
            let i = input(&p, &ops);
            r.case(&name, || i.clone(), |r| {
                for mode in 0..2 {
                    if !c09_case(r, &name, &p, &setup, &ops, mode == 1) {
                        return;
                    }
                }
            });
        }
    }
}

fn c09_case(r: &mut Report, name: &str, p: &Rc<Prog>, setup: &Setup, ops: &[Op], no_handler: bool) -> bool {
    let setup = Setup { handler: !no_handler, ..setup.clone() };
    let (Ok(mut a), Ok(mut b)) = (Host::new(p, &setup), Host::new(p, &setup)) else { return true };
    let calls = bad_calls(&a);
    for k in 0..=ops.len() {
        let before = b.full();
        for (n, f) in &calls {
            let Some(refused) = f(&mut b) else { continue };
            if !refused {
                r.fail("a bad call is accepted", &format!("{name}@{k} {n}"), format!("{n} before operation {k}"), J::Null);
                return false;
            }
            let after = b.full();
            let log = b.take_log();
            r.note(&format!("{n}{after}"));
            if after != before || !log.is_empty() {
                r.fail(
                    "a refused call changes something",
                    &format!("{name}@{k} {n}"),
                    format!("{n} before operation {k}\n{}{}", diff(&before, &after), log.join("\n")),
                    J::Null,
                );
                return false;
            }
        }
        if k == ops.len() {
            break;
        }
        let (wa, wb) = (a.apply(&ops[k]), b.apply(&ops[k]));
        let (la, lb) = (a.take_log(), b.take_log());
        let (fa, fb) = (a.full(), b.full());
        if wa != wb || la != lb || fa != fb {
            r.fail(
                "refused calls change what happens later",
                &format!("{name}@{k}"),
                format!(
                    "operation {k} {:?} after refused calls\n{}{}{}",
                    ops[k],
                    diff(&wa, &wb),
                    diff(&fa, &fb),
                    diff(&la.join("\n"), &lb.join("\n"))
                ),
                J::Null,
            );
            return false;
        }
        if a.out_of_fuel {
            break;
        }
    }
    true
}

// ---------------------------------------------------------------- C10

pub fn c10(r: &mut Report) {
    let p = Rc::new(own_named("flows"));
    let setup = Setup::default();
    let starts = [("f_a", "aa"), ("f_b", "bb"), ("f_c", "cc"), ("", "main")];
    for i in (0..r.n(1500, 12000)).filter(|i| my_turn(*i)) {
        if r.past(0.6) {
            break;
        }
        let name = format!("interleaving{i}");
        let seed = r.seed * 100_003 + i as u64;
        r.case(&name, || json!({"story": "flows", "seed": seed}), |r| c10_case(r, &name, &p, &setup, &starts, seed));
    }
    // Switching away and back does nothing, wherever
    let all = mine(progs(r));
    let total = all.len();
    for (pi, p) in all.into_iter().enumerate() {
        r.part(total - pi);
        let (w, n) = counts_for(&p, r);
        for (si, ops) in scripts(r, &p, &setup, w / 2, n / 2, BUSY, 10).into_iter().enumerate() {
            if r.part_over() {
                break;
            }
            let name = format!("away {}#{si}", p.name);
            let i = input(&p, &ops);
            r.case(&name, || i.clone(), |r| {
                let (Ok(mut a), Ok(mut b)) = (Host::new(&p, &setup), Host::new(&p, &setup)) else { return };
                for (k, op) in ops.iter().enumerate() {
                    let (wa, wb) = (a.apply(op), b.apply(op));
                    let here = b.save()["currentFlowName"].as_str().unwrap_or("DEFAULT_FLOW").to_string();
                    let before = b.full();
                    b.apply(&Op::Switch("somewhere else".into()));
                    if here == "DEFAULT_FLOW" {
                        b.apply(&Op::SwitchDefault);
                    } else {
                        b.apply(&Op::Switch(here.clone()));
                    }
                    b.apply(&Op::Remove("somewhere else".into()));
                    let after = b.full();
                    if before != after || wa != wb || a.take_log() != b.take_log() || a.full() != after {
                        r.fail(
                            "switching away and back changes something",
                            &format!("{name}@{k}"),
                            format!("after operation {k} {op:?}, from flow {here}\n{}{}{}", diff(&before, &after), diff(&wa, &wb), diff(&a.full(), &after)),
                            J::Null,
                        );
                        return;
                    }
                    r.note(&after);
                    if a.out_of_fuel {
                        return;
                    }
                }
            });
        }
    }
}

/// One step of a flow, decided by the flow's own dice.
fn flow_step(h: &mut Host, dice: &mut Rng) -> Option<String> {
    let op = if h.story.can_continue() {
        Op::Cont
    } else {
        let n = h.story.get_current_choices().len();
        if n == 0 {
            return None;
        }
        Op::Choose(dice.below(n))
    };
    let what = h.apply(&op);
    Some(format!("{what}\n{}", flow_view(h)))
}

fn flow_view(h: &mut Host) -> String {
    h.see()
        .lines()
        .filter(|l| {
            l.starts_with("can continue") || l.starts_with("text") || l.starts_with("tags") || l.starts_with("choice") || l.starts_with("path")
        })
        .collect::<Vec<_>>()
        .join("\n")
}

fn c10_case(r: &mut Report, name: &str, p: &Rc<Prog>, setup: &Setup, starts: &[(&str, &str)], seed: u64) {
    let mut rng = Rng::new(seed);
    let mut alone: Vec<Vec<String>> = vec![];
    for (i, (flow, knot)) in starts.iter().enumerate() {
        let Ok(mut h) = Host::new(p, setup) else { return };
        if !flow.is_empty() {
            h.apply(&Op::Switch(flow.to_string()));
        }
        h.apply(&Op::Path(knot.to_string(), true));
        let mut dice = Rng::new(seed + 50 + i as u64);
        let mut t = vec![];
        while t.len() < 25 {
            match flow_step(&mut h, &mut dice) {
                Some(s) => t.push(s),
                None => break,
            }
        }
        alone.push(t);
    }
    let Ok(mut h) = Host::new(p, setup) else { return };
    let mut pos = vec![0usize; starts.len()];
    let mut dice: Vec<Rng> = (0..starts.len()).map(|i| Rng::new(seed + 50 + i as u64)).collect();
    let mut started = vec![false; starts.len()];
    let mut removed = vec![false; starts.len()];
    let mut views: Vec<Option<String>> = vec![None; starts.len()];
    let mut history = vec![];
    for _ in 0..70 {
        let i = rng.below(starts.len());
        if removed[i] {
            continue;
        }
        let (flow, knot) = starts[i];
        let sw = if flow.is_empty() { Op::SwitchDefault } else { Op::Switch(flow.to_string()) };
        history.push(format!("{sw:?}"));
        h.apply(&sw);
        if !started[i] {
            h.apply(&Op::Path(knot.to_string(), true));
            started[i] = true;
        }
        if let Some(v) = &views[i] {
            let now = flow_view(&mut h);
            if *v != now {
                r.fail("a flow changed while another was current", name, format!("{history:?}\n{}", diff(v, &now)), J::Null);
                return;
            }
        }
        let steps = 1 + rng.below(3);
        for _ in 0..steps {
            let want = alone[i].get(pos[i]);
            if want.is_none() && pos[i] >= 25 {
                break;
            }
            let got = flow_step(&mut h, &mut dice[i]);
            history.push(format!("{flow}: step"));
            if got.as_ref() != want {
                r.fail(
                    "a flow doesn't go as when alone",
                    name,
                    format!("{history:?}\n{}", diff(want.map_or("(end)", |w| w), got.as_deref().unwrap_or("(end)"))),
                    J::Null,
                );
                return;
            }
            pos[i] += 1;
            if got.is_none() {
                break;
            }
            r.note(got.as_ref().unwrap());
        }
        views[i] = Some(flow_view(&mut h));
        if rng.chance(20) {
            // All the flows are in the save
            history.push("save and load".into());
            let s = match h.story.save_state() {
                Ok(s) => s,
                Err(e) => return r.fail("save fails", name, e.to_string(), J::Null),
            };
            if rng.chance(50) {
                let Ok(fresh) = Host::new(p, setup) else { return };
                h = fresh;
            }
            if let Err(e) = h.story.load_state(&s) {
                return r.fail("load fails", name, format!("{history:?} {e}"), J::Null);
            }
            let now = flow_view(&mut h);
            if views[i].as_ref() != Some(&now) {
                r.fail("a flow changed in a save", name, format!("{history:?}\n{}", diff(views[i].as_ref().unwrap(), &now)), J::Null);
                return;
            }
        }
        if rng.chance(4) {
            let j = rng.below(starts.len());
            if j != i && started[j] && !starts[j].0.is_empty() && !removed[j] {
                history.push(format!("remove {}", starts[j].0));
                let before = h.see();
                if h.story.remove_flow(starts[j].0).is_err() {
                    return r.fail("remove fails", name, format!("{history:?}"), J::Null);
                }
                removed[j] = true;
                let after = h.see();
                if before != after {
                    return r.fail("removing a flow changes the current one", name, format!("{history:?}\n{}", diff(&before, &after)), J::Null);
                }
            }
        }
    }
}

// ---------------------------------------------------------------- C11

pub fn c11(r: &mut Report) {
    let setup = Setup { observers: true, ..Setup::default() };
    let all = mine(progs(r));
    let total = all.len();
    for (pi, p) in all.into_iter().enumerate() {
        r.part(total - pi);
        if p.vars.is_empty() {
            continue;
        }
        let (w, n) = counts_for(&p, r);
        for (si, ops) in scripts(r, &p, &setup, w * 2, n * 2, Mix { sets: 15, reload: 3, resets: 2, ..BUSY }, 11).into_iter().enumerate() {
            if r.part_over() {
                break;
            }
            let name = format!("{}#{si}", p.name);
            let i = input(&p, &ops);
            r.case(&name, || i.clone(), |r| c11_case(r, &name, &p, &setup, &ops, si as u64));
        }
    }
}

fn c11_case(r: &mut Report, name: &str, p: &Rc<Prog>, setup: &Setup, ops: &[Op], salt: u64) {
    let Ok(mut h) = Host::new(p, setup) else { return };
    let mut rng = Rng::new(salt + 5);
    let second = h.rec("second ");
    let second: Rc<std::cell::RefCell<dyn bladeink::story::variable_observer::VariableObserver>> = second;
    // What the second one observes
    let mut also: std::collections::BTreeSet<String> = Default::default();
    for (k, op) in ops.iter().enumerate() {
        // The second observer comes and goes
        if rng.chance(30) {
            let v = rng.pick(&p.vars).clone();
            if also.contains(&v) {
                if h.story.remove_variable_observer(&second, Some(&v)).is_err() {
                    return r.fail("an observer can't be removed", name, v, J::Null);
                }
                also.remove(&v);
            } else if h.story.observe_variable(&v, second.clone()).is_ok() {
                also.insert(v);
            }
        } else if rng.chance(6) {
            let done = h.story.remove_variable_observer(&second, None);
            if done.is_ok() == also.is_empty() {
                return r.fail("removing from all variables", name, format!("{done:?}"), J::Null);
            }
            also.clear();
        }
        if !h.take_log().is_empty() {
            return r.fail("a notification out of place", name, format!("before operation {k}"), J::Null);
        }
        let before = h.vars();
        let op = match op {
            // One continue at a time
            Op::Max => &Op::Cont,
            o => o,
        };
        let sliced;
        let op = if matches!(op, Op::Cont) && h.story.can_continue() && rng.chance(30) {
            sliced = Op::Slices(vec![1 + rng.below(4)]);
            &sliced
        } else {
            op
        };
        let what = h.apply(op);
        if h.out_of_fuel {
            return;
        }
        let after = h.vars();
        let log: Vec<String> = h.take_log().into_iter().filter(|l| l.contains("observe ")).collect();
        r.note(&format!("{log:?}{what}"));
        let mut wanted: Vec<String> = vec![];
        let mut allowed: Vec<String> = vec![];
        match op {
            Op::Cont | Op::Slices(_) => {
                for (v, val) in &after {
                    let to = if before[v] != *val { &mut wanted } else { &mut allowed };
                    to.push(format!("observe {v} {val}"));
                    if also.contains(v) {
                        to.push(format!("second observe {v} {val}"));
                    }
                }
            }
            Op::Set(v, _) if what.ends_with("ok") => {
                let to = if before[v] != after[v] { &mut wanted } else { &mut allowed };
                to.push(format!("observe {v} {}", after[v]));
                if also.contains(v) {
                    to.push(format!("second observe {v} {}", after[v]));
                }
            }
            // Resetting runs the declarations again, and jumping may run nothing: no change to tell
            _ => {
                for (v, val) in &after {
                    if matches!(op, Op::Reset) {
                        allowed.push(format!("observe {v} {val}"));
                        allowed.push(format!("second observe {v} {val}"));
                    }
                }
            }
        }
        let mut left = log.clone();
        for w in &wanted {
            match left.iter().position(|l| l == w) {
                Some(i) => {
                    left.remove(i);
                }
                None => {
                    return r.fail(
                        "a change isn't notified",
                        &format!("{name}@{k}"),
                        format!("operation {k} {op:?}: wanted {w}, got {log:?}\nbefore {before:?}\nafter {after:?}"),
                        J::Null,
                    );
                }
            }
        }
        for l in &left {
            match allowed.iter().position(|a| a == l) {
                Some(i) => {
                    allowed.remove(i);
                }
                None => {
                    return r.fail(
                        "a notification too many",
                        &format!("{name}@{k}"),
                        format!("operation {k} {op:?}: {l} in {log:?}\nbefore {before:?}\nafter {after:?}"),
                        J::Null,
                    );
                }
            }
        }
    }
}

// ---------------------------------------------------------------- C13

fn with_warnings() -> Vec<Rc<Prog>> {
    let mut out = vec![];
    let texts = [
        ("missing var", r##"{"inkVersion":21,"root":[["^a ","ev",{"VAR?":"nosuch"},"out","/ev","\n","^b","\n","ev",{"VAR?":"other"},"out","/ev","\n","end",null],"done",null],"listDefs":{}}"##),
        ("old version", r##"{"inkVersion":20,"root":[["^a","\n","^b","\n","end",null],"done",null],"listDefs":{}}"##),
        ("old version with choice", r##"{"inkVersion":19,"root":[["^a","\n",{"*":"0.c-0","flg":0},{"*":"0.c-0","flg":0},{"c-0":["^c","\n","ev",{"VAR?":"nosuch"},"out","/ev","\n","^d","\n","end",null]}],"done",null],"listDefs":{}}"##),
        ("error after warning", r##"{"inkVersion":21,"root":[["^a ","\n","ev",{"VAR?":"nosuch"},"out","/ev","^x","\n","ev",1,0,"/","out","/ev","\n","^b","\n","end",null],"done",null],"listDefs":{}}"##),
        ("warning in look-ahead", r##"{"inkVersion":21,"root":[["^a","\n","ev",{"VAR?":"nosuch"},"pop","/ev","^b","\n","ev",{"VAR?":"nosuch2"},"pop","/ev","<>","^c","\n","end",null],"done",null],"listDefs":{}}"##),
        ("error in look-ahead", r##"{"inkVersion":21,"root":[["^a","\n","ev",1,0,"/","pop","/ev","^b","\n","end",null],"done",null],"listDefs":{}}"##),
        ("runs out", r##"{"inkVersion":21,"root":[["^a","\n","^b","\n",null],null],"listDefs":{}}"##),
        ("error first", r##"{"inkVersion":21,"root":[["ev","+","/ev","^a","\n","^b","\n",null],"done",null],"listDefs":{}}"##),
    ];
    for (n, t) in texts {
        out.push(Rc::new(Prog::new(n, t).expect("story")));
    }
    out
}

pub fn c13(r: &mut Report) {
    let mut all = with_warnings();
    all.extend(progs(r));
    let all = mine(all);
    let total = all.len();
    for (pi, p) in all.into_iter().enumerate() {
        r.part(total - pi);
        let (w, n) = counts_for(&p, r);
        let setup = Setup::default();
        for (si, ops) in scripts(r, &p, &setup, w, n, BUSY, 13).into_iter().enumerate() {
            if r.out_of_time() {
                return;
            }
            let name = format!("{}#{si}", p.name);
            let i = input(&p, &ops);
            r.case(&name, || i.clone(), |r| {
                c13_case(r, &name, &p, &ops);
                c13_sliced(r, &name, &p, &ops);
            });
        }
    }
}

fn c13_case(r: &mut Report, name: &str, p: &Rc<Prog>, ops: &[Op]) {
    // With a handler, and without one
    let a_setup = Setup { observers: false, ..Setup::default() };
    let b_setup = Setup { handler: false, ..a_setup.clone() };
    let (Ok(mut a), Ok(mut b)) = (Host::new(p, &a_setup), Host::new(p, &b_setup)) else { return };
    let messages = |h: &Host| -> Vec<String> {
        h.take_log().into_iter().filter(|l| l.starts_with("error ") || l.starts_with("warning ")).collect()
    };
    let mut seen_b: Vec<String> = b
        .story
        .get_current_errors()
        .iter()
        .map(|e| format!("error {e}"))
        .chain(b.story.get_current_warnings().iter().map(|e| format!("warning {e}")))
        .collect();
    let mut pending: Vec<String> = seen_b.clone();
    let mut failed = false;
    for (k, op) in ops.iter().enumerate() {
        let op = if matches!(op, Op::Max) { &Op::Cont } else { op };
        let had_error = !b.story.get_current_errors().is_empty();
        let (can_a, can_b) = (a.story.can_continue(), b.story.can_continue());
        if can_a != can_b && !had_error {
            return r.fail("the handler changes the story", &format!("{name}@{k}"), format!("can continue {can_a} {can_b}"), J::Null);
        }
        let wa = a.apply(op);
        let got = messages(&a);
        let wb = b.apply(op);
        if a.out_of_fuel || b.out_of_fuel {
            return;
        }
        r.note(&format!("{wa}{got:?}{wb}"));
        let errs: Vec<String> = b.story.get_current_errors().iter().map(|e| format!("error {e}")).collect();
        let warns: Vec<String> = b.story.get_current_warnings().iter().map(|e| format!("warning {e}")).collect();
        let case = format!("{name}@{k}");
        let all_b: Vec<String> = errs.iter().chain(&warns).cloned().collect();
        if matches!(op, Op::Reset | Op::Reload) {
            if !errs.is_empty() && matches!(op, Op::Reset) {
                return r.fail("an error survives a reset", &case, errs.join("\n"), J::Null);
            }
            seen_b = all_b;
            pending.clear();
            failed = false;
            if matches!(op, Op::Reset) && !got.is_empty() {
                return r.fail("a message at reset", &case, got.join("\n"), J::Null);
            }
            continue;
        }
        // The new ones of the story without handler. Messages only pile up until a reset.
        let mut rest = seen_b.clone();
        let mut new_b = pending.clone();
        for m in &all_b {
            match rest.iter().position(|x| x == m) {
                Some(i) => {
                    rest.remove(i);
                }
                None => new_b.push(m.clone()),
            }
        }
        let is_cont = matches!(op, Op::Cont);
        if is_cont && can_a {
            pending.clear();
            let (mut x, mut y) = (got.clone(), new_b.clone());
            x.sort();
            y.sort();
            if x != y {
                return r.fail(
                    "messages aren't delivered once",
                    &case,
                    format!("operation {k} {op:?}\nto the handler: {got:#?}\nreadable without it: {new_b:#?}\n{wa}\n{wb}"),
                    J::Null,
                );
            }
            let has_new_error = got.iter().any(|m| m.starts_with("error "));
            if wa.contains("-> Err") && !a.prog.externals.is_empty() {
                return;
            }
            if wa.contains("-> Err") {
                return r.fail("a continue fails with a handler", &case, wa, J::Null);
            }
            if has_new_error != wb.contains("-> Err") {
                return r.fail("only errors make a continue fail", &case, format!("{wb}\n{got:?}"), J::Null);
            }
            if has_new_error {
                failed = true;
                if a.story.can_continue() || b.story.can_continue() {
                    return r.fail("an error doesn't stop the story", &case, format!("{got:?}"), J::Null);
                }
            }
            if !a.story.get_current_errors().is_empty() || !a.story.get_current_warnings().is_empty() {
                return r.fail("delivered messages stay", &case, String::new(), J::Null);
            }
            let mut u = got.clone();
            u.sort();
            let total = u.len();
            u.dedup();
            if total != u.len() && got.iter().all(|m| !m.contains("nosuch")) && !p.name.contains('/') {
                return r.fail("a message is delivered twice", &case, format!("{got:?}"), J::Null);
            }
        } else if !got.is_empty() {
            return r.fail("a message out of place", &case, format!("{op:?} {got:?}"), J::Null);
        }
        if failed && b.story.get_current_errors().is_empty() && !matches!(op, Op::Path(..) | Op::Switch(_) | Op::SwitchDefault | Op::Remove(_)) {
            return r.fail("an error doesn't stay readable", &case, format!("{op:?}"), J::Null);
        }
        seen_b = all_b;
        // With its error there, the other one may refuse to go on. So the comparison ends.
        if failed {
            // It stays there and is not told again
            let wc = b.apply(&Op::Cont);
            if !wc.contains("-> Err") && !matches!(op, Op::Path(..)) {
                return r.fail("a failed story continues", &case, wc, J::Null);
            }
            let again: Vec<String> = b.story.get_current_errors().iter().map(|e| format!("error {e}")).collect();
            if again != errs {
                return r.fail("a message is told again", &case, format!("{errs:?} {again:?}"), J::Null);
            }
            a.apply(&Op::Cont);
            let got = messages(&a);
            if !got.is_empty() {
                return r.fail("a message is told again", &case, format!("{got:?}"), J::Null);
            }
            a.apply(&Op::Reset);
            b.apply(&Op::Reset);
            if !b.story.get_current_errors().is_empty() || b.story.has_error() {
                return r.fail("an error survives a reset", &case, String::new(), J::Null);
            }
            a.take_log();
            let (mut c, d) = match (Host::new(p, &a_setup), Host::new(p, &a_setup)) {
                (Ok(c), Ok(d)) => (c, d),
                _ => return,
            };
            d.take_log();
            for op in ops.iter().take(12) {
                let (x, y) = (a.apply(op), c.apply(op));
                let (la, lc) = (a.take_log(), c.take_log());
                // The warning about the version is from the construction
                let lc: Vec<String> = lc.into_iter().filter(|l| !l.contains("Version of ink")).collect();
                if x != y || la != lc {
                    return r.fail("a failed story isn't new after a reset", &case, format!("{}{}", diff(&y, &x), diff(&lc.join("\n"), &la.join("\n"))), J::Null);
                }
            }
            return;
        }
    }
}

fn c13_sliced(r: &mut Report, name: &str, p: &Rc<Prog>, ops: &[Op]) {
    let setup = Setup { observers: false, ..Setup::default() };
    let (Ok(mut a), Ok(mut b)) = (Host::new(p, &setup), Host::new(p, &setup)) else { return };
    for (k, op) in ops.iter().enumerate() {
        let op = if matches!(op, Op::Max) { &Op::Cont } else { op };
        let wa = a.apply(op);
        let wb = if matches!(op, Op::Cont) && b.story.can_continue() {
            b.apply(&Op::Slices(vec![1 + k % 3]))
        } else {
            b.apply(op)
        };
        if a.out_of_fuel || b.out_of_fuel {
            return;
        }
        let (la, lb) = (a.take_log(), b.take_log());
        if la != lb || wa != wb {
            return r.fail(
                "messages depend on slicing",
                &format!("{name}@{k}"),
                format!("{}{}", diff(&wa, &wb), diff(&la.join("\n"), &lb.join("\n"))),
                J::Null,
            );
        }
    }
}

// ---------------------------------------------------------------- C16

pub fn c16(r: &mut Report) {
    let setup = Setup { observers: true, ..Setup::default() };
    let mut list: Vec<(Rc<Prog>, Vec<Op>, Vec<Op>)> = vec![];
    let e = |n: &str, a: Vec<Val>| Op::Eval(n.into(), a);
    list.push((
        Rc::new(own_named("mix")),
        vec![
            e("pure", vec![Val::I(3), Val::I(4)]),
            e("pure", vec![Val::F(1.5), Val::I(2)]),
            e("say", vec![Val::I(5)]),
            e("say", vec![Val::S("x".into())]),
            e("silent", vec![]),
            e("fact", vec![Val::I(5)]),
            e("fact", vec![Val::I(60)]),
        ],
        vec![e("pay", vec![Val::I(5), Val::I(2)])],
    ));
    let fns = Rc::new(
        Prog::new("fns", include_str!("../stories/fns.ink.json")).expect("fns"),
    );
    list.push((
        fns,
        vec![
            e("add", vec![Val::I(3), Val::I(4)]),
            e("add", vec![Val::S("a".into()), Val::I(4)]),
            e("lines", vec![Val::I(2)]),
            e("glued", vec![]),
            e("nested", vec![Val::I(3)]),
            e("tagged", vec![]),
            e("early", vec![Val::I(1)]),
            e("early", vec![Val::I(0)]),
            e("empty", vec![]),
            e("cond", vec![Val::B(true)]),
            e("tunnelless", vec![Val::F(0.5)]),
            e("lst", vec![]),
        ],
        vec![e("bump", vec![Val::I(2)])],
    ));
    for (p, pure, impure) in list {
        for (si, ops) in scripts(r, &p, &setup, r.n(40, 200), r.n(60, 400), BUSY, 16).into_iter().enumerate() {
            if r.out_of_time() {
                return;
            }
            let name = format!("{}#{si}", p.name);
            let i = input(&p, &ops);
            r.case(&name, || i.clone(), |r| c16_case(r, &name, &p, &setup, &ops, &pure, &impure));
        }
    }
}

/// The save without the counts of the functions.
fn save_but_counts(h: &Host, fns: &[String]) -> J {
    let mut s = h.save();
    for part in ["visitCounts", "turnIndices"] {
        if let Some(m) = s.get_mut(part).and_then(|m| m.as_object_mut()) {
            m.retain(|k, _| !fns.iter().any(|f| k == f || k.starts_with(&format!("{f}."))));
        }
    }
    s
}

fn expected_eval(h: &Host, op: &Op) -> Option<String> {
    let Op::Eval(f, a) = op else { return None };
    let int = |n: &str| match h.story.get_variable(n) {
        Some(ValueType::Int(i)) => Some(i),
        _ => None,
    };
    let (res, text) = match (f.as_str(), a.as_slice()) {
        ("pure", [Val::I(a), Val::I(b)]) => (format!("int {}", a * b + int("gold")?), ""),
        ("say", [Val::I(5)]) => ("int 6".into(), "Said 5.\nAnd more.\n"),
        ("fact", [Val::I(5)]) => ("int 120".into(), ""),
        ("add", [Val::I(a), Val::I(b)]) => (format!("int {}", a + b), ""),
        ("add", [Val::S(a), Val::I(b)]) => (format!("string {:?}", format!("{a}{b}")), ""),
        ("lines", [Val::I(2)]) => ("int 4".into(), "First 2.\nSecond 2.\n"),
        ("glued", []) => ("none".into(), "Left right.\n"),
        ("early", [Val::I(1)]) => ("string \"early\"".into(), ""),
        ("early", [Val::I(0)]) => ("string \"late\"".into(), "Printed.\n"),
        _ => return None,
    };
    let v = if res == "none" { "None".to_string() } else { format!("Some({res:?})") };
    Some(format!("{op:?} -> {v} printing {text:?}"))
}

fn c16_case(r: &mut Report, name: &str, p: &Rc<Prog>, setup: &Setup, ops: &[Op], pure: &[Op], impure: &[Op]) {
    let (Ok(mut a), Ok(mut b)) = (Host::new(p, setup), Host::new(p, setup)) else { return };
    let fns: Vec<String> = p.knots.clone();
    let fns: Vec<String> = fns
        .into_iter()
        .filter(|k| {
            pure.iter().chain(impure).any(|o| matches!(o, Op::Eval(f, _) if f == k))
                || ["helper", "set"].contains(&k.as_str())
        })
        .collect();
    for k in 0..=ops.len() {
        let before = b.see();
        let save = save_but_counts(&b, &fns);
        for op in pure {
            let x = b.apply(op);
            let y = b.apply(op);
            r.note(&format!("{x}{before}"));
            let case = format!("{name}@{k} {op:?}");
            if x != y {
                return r.fail("a second call differs", &case, diff(&x, &y), J::Null);
            }
            if let Some(w) = expected_eval(&b, op)
                && w != x
            {
                return r.fail("the function gives something else", &case, diff(&w, &x), J::Null);
            }
            let after = b.see();
            let log = b.take_log();
            if before != after || !log.is_empty() {
                return r.fail("a function call shows", &case, format!("{}{log:?}", diff(&before, &after)), J::Null);
            }
            let now = save_but_counts(&b, &fns);
            if now != save {
                return r.fail("a function call changes the state", &case, diff(&save.to_string(), &now.to_string()), J::Null);
            }
        }
        for bad in ["", "  ", "nosuch", "pure.x"] {
            let x = b.apply(&Op::Eval(bad.into(), vec![]));
            if !x.contains("-> Err") || before != b.see() || save != save_but_counts(&b, &fns) {
                return r.fail("an unknown function isn't refused", &format!("{name}@{k} {bad:?}"), x, J::Null);
            }
        }
        if k == ops.len() {
            break;
        }
        let (wa, wb) = (a.apply(&ops[k]), b.apply(&ops[k]));
        let (la, lb) = (a.take_log(), b.take_log());
        let (sa, sb) = (a.see(), b.see());
        let (va, vb) = (save_but_counts(&a, &fns), save_but_counts(&b, &fns));
        if a.out_of_fuel {
            return;
        }
        if wa != wb || la != lb || sa != sb || va != vb {
            return r.fail(
                "function calls change what comes later",
                &format!("{name}@{k}"),
                format!(
                    "operation {k} {:?}\n{}{}{}{}",
                    ops[k],
                    diff(&wa, &wb),
                    diff(&sa, &sb),
                    diff(&la.join("\n"), &lb.join("\n")),
                    diff(&va.to_string(), &vb.to_string())
                ),
                J::Null,
            );
        }
    }
    // Those with effects have them
    for op in impure {
        let before = b.see();
        b.apply(op);
        let drop_vars = |s: &str| {
            s.lines()
                .filter(|l| !p.vars.iter().any(|v| l.starts_with(&format!("{v}: "))))
                .collect::<Vec<_>>()
                .join("\n")
        };
        let after = b.see();
        if drop_vars(&before) != drop_vars(&after) {
            return r.fail("a function call shows", &format!("{name} {op:?}"), diff(&before, &after), J::Null);
        }
        a.apply(op);
        if a.vars() != b.vars() {
            return r.fail("a function call has another effect", &format!("{name} {op:?}"), String::new(), J::Null);
        }
    }
}

// ---------------------------------------------------------------- C17

pub fn c17(r: &mut Report) {
    let setup = Setup::default();
    let all = mine(progs(r));
    let total = all.len();
    for (pi, p) in all.into_iter().enumerate() {
        r.part(total - pi);
        let (w, n) = counts_for(&p, r);
        let follow = scripts(r, &p, &setup, 3, 3, BUSY, 170);
        let own = !p.name.contains('/');
        let mut histories = scripts(r, &p, &setup, w / 3, n, Mix { reload: 4, ..BUSY }, 17);
        histories.push(vec![]);
        for (si, ops) in histories.into_iter().enumerate() {
            if r.part_over() {
                break;
            }
            let name = format!("{}#{si}", p.name);
            let i = input(&p, &ops);
            r.case(&name, || i.clone(), |r| {
                let cuts: Vec<usize> = if own { (0..=ops.len()).step_by(ops.len() / 6 + 1).collect() } else { vec![ops.len(), ops.len() / 2] };
                for cut in cuts {
                    for mid_line in [false, true] {
                        for f in follow.iter().take(if mid_line { 1 } else { 6 }) {
                            if !c17_case(r, &format!("{name}@{cut}"), &p, &setup, &ops[..cut], f, mid_line) {
                                return;
                            }
                        }
                    }
                }
                c17_jump(r, &name, &p, &setup, &ops);
            });
        }
    }
}

fn c17_case(r: &mut Report, name: &str, p: &Rc<Prog>, setup: &Setup, ops: &[Op], follow: &[Op], mid_line: bool) -> bool {
    let (Ok(mut a), Ok(mut b)) = (Host::new(p, setup), Host::new(p, setup)) else { return true };
    for op in ops {
        b.apply(op);
    }
    if mid_line {
        // A line that ran out of look-ahead, an error, a call in the middle
        b.apply(&Op::Path("no such path".into(), true));
        if b.story.can_continue() {
            b.story.verif_set_fuel(Some(3));
            let _ = b.story.cont();
            b.story.verif_set_fuel(None);
        }
    }
    b.out_of_fuel = false;
    b.take_log();
    let w = b.apply(&Op::Reset);
    if !w.ends_with("ok") {
        r.fail("reset fails", name, w, J::Null);
        return false;
    }
    b.take_log();
    a.take_log();
    b.out_of_fuel = false;
    for k in 0..=follow.len() {
        let (fa, fb) = (a.full(), b.full());
        r.note(&fb);
        if fa != fb {
            r.fail("a reset story isn't like a new one", name, format!("after reset and {:?}\n{}", &follow[..k], diff(&fa, &fb)), J::Null);
            return false;
        }
        if k == follow.len() || a.out_of_fuel {
            break;
        }
        let (wa, wb) = (a.apply(&follow[k]), b.apply(&follow[k]));
        let (la, lb) = (a.take_log(), b.take_log());
        if wa != wb || la != lb {
            r.fail(
                "a reset story goes another way",
                name,
                format!("operation {k} {:?} after the reset\n{}{}", follow[k], diff(&wa, &wb), diff(&la.join("\n"), &lb.join("\n"))),
                J::Null,
            );
            return false;
        }
    }
    true
}

fn c17_jump(r: &mut Report, name: &str, p: &Rc<Prog>, setup: &Setup, ops: &[Op]) {
    let Ok(mut b) = Host::new(p, setup) else { return };
    for (k, op) in ops.iter().enumerate() {
        b.apply(op);
        if b.out_of_fuel {
            return;
        }
        let Some(knot) = p.knots.get(k % p.knots.len().max(1)) else { return };
        let s = match b.story.save_state() {
            Ok(s) => s,
            Err(_) => return,
        };
        let Ok(mut c) = Host::new(p, setup) else { return };
        if c.story.load_state(&s).is_err() {
            return;
        }
        let (vars, counts) = (c.vars(), c.counts());
        let before = c.save();
        if !c.apply(&Op::Path(knot.clone(), true)).ends_with("ok") {
            continue;
        }
        if vars != c.vars() {
            return r.fail("a jump changes variables", &format!("{name}@{k}"), format!("to {knot}"), J::Null);
        }
        // The knot jumped to is visited when its content is reached
        let strip = |s: &str| s.lines().filter(|l| !l.contains(&format!("visits of {knot}:"))).collect::<Vec<_>>().join("\n");
        if strip(&counts) != strip(&c.counts()) {
            return r.fail("a jump changes counts", &format!("{name}@{k}"), diff(&counts, &c.counts()), J::Null);
        }
        let save = c.save();
        let flow = save["currentFlowName"].as_str().unwrap_or("DEFAULT_FLOW").to_string();
        let f = &save["flows"][&flow];
        let threads = f["callstack"]["threads"].as_array().cloned().unwrap_or_default();
        if threads.len() != 1 || threads[0]["callstack"].as_array().map(|c| c.len()) != Some(1) {
            return r.fail("a jump keeps a call stack", &format!("{name}@{k}"), f.to_string(), J::Null);
        }
        if !f["currentChoices"].as_array().is_some_and(|c| c.is_empty()) {
            return r.fail("a jump keeps choices", &format!("{name}@{k}"), f.to_string(), J::Null);
        }
        if threads[0]["callstack"][0].get("temp").is_some_and(|t| t.as_object().is_some_and(|t| !t.is_empty())) {
            return r.fail("a jump keeps temporary variables", &format!("{name}@{k}"), f.to_string(), J::Null);
        }
        if !save["evalStack"].as_array().is_some_and(|c| c.is_empty()) {
            return r.fail("a jump keeps pending values", &format!("{name}@{k}"), save.to_string(), J::Null);
        }
        let others = |s: &J| {
            let mut o = s["flows"].clone();
            if let Some(m) = o.as_object_mut() {
                m.remove(&flow);
            }
            o
        };
        if others(&before) != others(&save) {
            return r.fail("a jump changes other flows", &format!("{name}@{k}"), save.to_string(), J::Null);
        }
        r.note(&save.to_string());
    }
}

// ---------------------------------------------------------------- C18

pub fn c18(r: &mut Report) {
    let all = mine(progs(r));
    let total = all.len();
    for (pi, p) in all.into_iter().enumerate() {
        r.part(total - pi);
        let setup = Setup { seed: 7, ..Setup::default() };
        let (w, n) = counts_for(&p, r);
        for (si, ops) in scripts(r, &p, &setup, (w / 3).max(2), (n / 3).max(2), Mix { reload: 8, resets: 4, ..BUSY }, 18).into_iter().enumerate() {
            if r.part_over() {
                break;
            }
            let name = format!("{}#{si}", p.name);
            let i = input(&p, &ops);
            r.case(&name, || i.clone(), |r| {
                c18_case(r, &name, &p, &setup, &ops);
                if si == 0 {
                    c18_instance(r, &name, &p, &setup, &ops);
                }
            });
        }
    }
}

fn play_and_drop(p: &Rc<Prog>, setup: &Setup, ops: &[Op], steps: usize) {
    let Ok(mut h) = Host::new(p, setup) else { return };
    for (k, op) in ops.iter().enumerate() {
        if steps > 0 && matches!(op, Op::Cont) && k == steps {
            // Dropped in the middle of a line
            bladeink::verif::set_pause_after(Some(3));
            let _ = h.story.continue_async(1.0);
            bladeink::verif::set_pause_after(None);
            return;
        }
        h.apply(op);
        if k % 5 == 0 {
            let _ = h.story.save_state();
            let _ = h.story.get_current_tags();
        }
    }
}

fn c18_case(r: &mut Report, name: &str, p: &Rc<Prog>, setup: &Setup, ops: &[Op]) {
    for mid in [0, 1 + ops.len() / 3] {
        play_and_drop(p, setup, ops, mid);
        play_and_drop(p, setup, ops, mid);
        let before = crate::alloc::live();
        for _ in 0..4 {
            play_and_drop(p, setup, ops, mid);
        }
        let after = crate::alloc::live();
        r.note(&format!("{name}{before}"));
        // A fixed amount once is no leak, some for each story is
        if after - before >= 4 * 16 {
            r.fail(
                "memory stays after the drop",
                name,
                format!("{} bytes more after 4 times playing and dropping (in the middle: {mid})", after - before),
                J::Null,
            );
            return;
        }
    }
}

fn c18_instance(r: &mut Report, name: &str, p: &Rc<Prog>, setup: &Setup, ops: &[Op]) {
    let Ok(mut h) = Host::new(p, setup) else { return };
    for (what, reset) in [("reset", true), ("load", false)] {
        let round = |h: &mut Host| {
            for op in ops {
                if matches!(op, Op::Reset | Op::Reload) {
                    continue;
                }
                h.apply(op);
            }
            if reset {
                h.apply(&Op::Reset);
            } else {
                h.apply(&Op::Reload);
                h.apply(&Op::Reset);
            }
            h.take_log();
            h.log.borrow_mut().shrink_to_fit();
            h.out_of_fuel = false;
        };
        for _ in 0..3 {
            round(&mut h);
        }
        let before = crate::alloc::live();
        for _ in 0..8 {
            round(&mut h);
        }
        let after = crate::alloc::live();
        if after - before >= 8 * 24 {
            r.fail("memory grows with each reset or load", name, format!("{} bytes more after 8 times {what}", after - before), J::Null);
        }
    }
}

// ---------------------------------------------------------------- C19

pub fn c19(r: &mut Report) {
    let mut all = progs(r);
    // The trees our own compiler makes of the sources
    for (n, s) in ink_sources() {
        if let Ok(j) = compile(&n, &s)
            && let Some(p) = Prog::new(&n, &j)
        {
            all.push(Rc::new(p));
        }
    }
    for i in 0..r.n(300, 3000) {
        let j = random_tree(&mut Rng::new(r.seed * 65_537 + i as u64));
        if let Some(p) = Prog::new(&format!("tree{i}"), &j) {
            all.push(Rc::new(p));
        }
    }
    let setup = Setup::default();
    for p in mine(all) {
        if r.out_of_time() {
            return;
        }
        let name = format!("tree {}", p.name);
        let shown = if p.name.starts_with("tree") { p.json.clone() } else { p.name.clone() };
        r.case(&name, || json!({"story": shown}), |r| {
            let Ok(s) = Story::new(&p.json) else { return };
            let (n, fails) = s.verif_content_audit();
            r.evals += n as u64;
            r.note(&p.json);
            if let Some(f) = fails.first() {
                r.fail("content isn't where its path says", &name, format!("{} failures: {:?} {f}", fails.len(), fails.iter().take(5).collect::<Vec<_>>()), J::Null);
            }
            // Again once every divert was followed
            if p.name.starts_with("tree") {
                return;
            }
            let Ok(mut h) = Host::new(&p, &setup) else { return };
            for _ in 0..30 {
                let op = if h.story.can_continue() {
                    Op::Cont
                } else if !h.story.get_current_choices().is_empty() {
                    Op::Choose(0)
                } else {
                    break;
                };
                h.apply(&op);
                if h.out_of_fuel {
                    break;
                }
            }
            let (_, fails) = h.story.verif_content_audit();
            if let Some(f) = fails.first() {
                r.fail("content isn't where its path says after playing", &name, f.clone(), J::Null);
            }
        });
    }
    // Text of any kind
    let parts = ["a", "knot", "0", "1", "10", "^", "c-0", "g-0", "$r1", "-1", "+1", "007", "", " ", "é", "4294967296", "99999999999999999999", "_1", "1_", "1_000", "_", "0x1", "1e3", "1.", "k2", "2k", "#1", "^2", "\u{661}", "#n", "-0"];
    let mut rng = Rng::new(r.seed + 19 + 1000 * shard().0 as u64);
    for i in (0..r.n(40_000, 800_000)).filter(|i| my_turn(*i)) {
        if r.out_of_time() {
            return;
        }
        let n = 1 + rng.below(5);
        let text = |rng: &mut Rng| {
            let mut t = if rng.chance(40) { ".".to_string() } else { String::new() };
            t += &(0..n).map(|_| *rng.pick(&parts)).collect::<Vec<_>>().join(".");
            t
        };
        let (a, b) = (text(&mut rng), text(&mut rng));
        r.case(&format!("path {a} {b} {i}"), || json!({"paths": [a, b]}), |r| {
            r.note(&a);
            for t in [&a, &b] {
                match bladeink::verif::path_round_trip(t) {
                    Err(e) => r.fail("path text doesn't come back", t, e, J::Null),
                    // What isn't a plain number is a name, told as it is
                    Ok(back) if back != *t && !t.split('.').any(|p| p == "+1" || p == "007") => {
                        r.fail("path text doesn't come back", t, format!("it is {back:?}"), J::Null)
                    }
                    Ok(_) => {}
                }
            }
            if let Err(e) = bladeink::verif::paths_agree(&a, &b) {
                r.fail("equality and hash of paths", &a, e, J::Null);
            }
        });
    }
    // Any position the engine writes in a save or choice comes back the same
    let all = mine(progs(r));
    let total = all.len();
    for (pi, p) in all.into_iter().enumerate() {
        r.part(total - pi);
        let (w, n) = counts_for(&p, r);
        for (si, ops) in scripts(r, &p, &setup, w / 3, n / 3, BUSY, 19).into_iter().enumerate() {
            if r.part_over() {
                break;
            }
            let name = format!("positions {}#{si}", p.name);
            let i = input(&p, &ops);
            r.case(&name, || i.clone(), |r| {
                let Ok(mut h) = Host::new(&p, &setup) else { return };
                for (k, op) in ops.iter().enumerate() {
                    h.apply(op);
                    if h.out_of_fuel {
                        return;
                    }
                    let before = h.save();
                    let Ok(text) = h.story.save_state() else { return };
                    let Ok(mut fresh) = Host::new(&p, &setup) else { return };
                    if fresh.story.load_state(&text).is_err() {
                        return r.fail("a saved position can't be read", &format!("{name}@{k}"), text, J::Null);
                    }
                    let after = fresh.save();
                    if before["flows"] != after["flows"] || h.story.get_current_path() != fresh.story.get_current_path() {
                        return r.fail(
                            "a saved position is another one when read",
                            &format!("{name}@{k}"),
                            diff(&before["flows"].to_string(), &after["flows"].to_string()),
                            J::Null,
                        );
                    }
                    // The path it tells leads there
                    if let Some(path) = h.story.get_current_path() {
                        let w = fresh.apply(&Op::Path(path.clone(), true));
                        if !w.ends_with("ok") || fresh.story.get_current_path().as_ref() != Some(&path) {
                            return r.fail("the current path doesn't lead back", &format!("{name}@{k}"), format!("{path}: {w} at {:?}", fresh.story.get_current_path()), J::Null);
                        }
                    }
                }
            });
        }
    }
}

/// A tree of containers with names, indexes and clashes between them.
fn random_tree(rng: &mut Rng) -> String {
    fn cont(rng: &mut Rng, depth: usize, can_name: bool) -> J {
        let mut a = vec![];
        for _ in 0..rng.below(5) {
            if depth > 0 && rng.chance(45) {
                a.push(cont(rng, depth - 1, true));
            } else {
                a.push(match rng.below(4) {
                    0 => json!("^text"),
                    1 => json!(rng.below(5)),
                    2 => json!({"->": "0.0"}),
                    _ => json!("nop"),
                });
            }
        }
        let names = ["a", "b", "c-0", "g-0", "knot", "é", "x y", "_1", "1_", "2k", "k0", "0x1", "1e3", "_", "$r1", "#1", "\u{661}"];
        let mut t = serde_json::Map::new();
        if depth > 0 {
            for n in names {
                if rng.chance(9) {
                    let b = rng.chance(20);
                    t.insert(n.into(), cont(rng, depth - 1, b));
                }
            }
        }
        if can_name && rng.chance(40) {
            t.insert("#n".into(), json!(rng.pick(&names)));
        }
        if rng.chance(30) {
            t.insert("#f".into(), json!(rng.below(8)));
        }
        a.push(if t.is_empty() { J::Null } else { J::Object(t) });
        J::Array(a)
    }
    let root = cont(rng, 4, false);
    json!({"inkVersion": 21, "root": root, "listDefs": {}}).to_string()
}
