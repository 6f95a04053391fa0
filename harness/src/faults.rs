//! C04: story faults are errors, never panics. C12: external functions are called as bound.
use std::rc::Rc;

use bladeink::value_type::ValueType;
use serde_json::{Value as J, json};

use crate::core::*;
use crate::play::*;

// ---------------------------------------------------------------- C04

const OPERANDS: [&str; 27] = [
    "0", "1", "-1", "2", "31", "1000", "65536", "2147483647", "-2147483647", "0.0", "1.5", "-0.5", "100000.0 * 100000.0 * 100000.0 * 100000.0 * 100000.0 * 100000.0 * 100000.0 * 100000.0", "true", "false",
    "\"\"", "\"abc\"", "\"12\"", "()", "(x)", "(x, y, z)", "(u)", "(x, v)", "x", "L(5)", "-> start", "-> start.inner",
];

const BINARY: [&str; 30] = [
    "a + b", "a - b", "a * b", "a / b", "a % b", "a mod b", "a == b", "a != b", "a < b", "a > b", "a <= b", "a >= b", "a && b", "a || b", "a ? b", "a !? b",
    "a has b", "a hasnt b", "a ^ b", "MIN(a, b)", "MAX(a, b)", "POW(a, b)", "RANDOM(a, b)", "LIST_RANGE(a, b, a)", "LIST_RANGE(LIST_ALL(x), a, b)", "L(a) + b", "a - L(b)",
    "call_two(a, b)", "RANDOM(b, a) + RANDOM(0, b)", "\"{a}{b}\" + a",
];

const UNARY: [&str; 24] = [
    "-a", "!a", "not a", "FLOOR(a)", "CEILING(a)", "INT(a)", "FLOAT(a)", "LIST_COUNT(a)", "LIST_MIN(a)", "LIST_MAX(a)", "LIST_ALL(a)", "LIST_INVERT(a)", "LIST_VALUE(a)",
    "LIST_RANDOM(a)", "L(a)", "M(a)", "SEED_RANDOM(a)", "a", "TURNS_SINCE(a)", "READ_COUNT(a)", "bump(a)", "twice(a)", "a + a - a", "rec(a)",
];

const STATEMENTS: [&str; 14] = [
    "-> a", "-> a ->", "~ a++", "~ a--", "~ a += b", "~ a -= b", "<- a", "{a: yes|no}", "{a && b:yes}", "{ a:\n- b: same\n- 1: one\n- else: other\n}", "{a + 0:first|second}", "* {a} go {b} # tag {a}\n- {b} done",
    "-> tun ->", "~ temp t = a\n-> t",
];

fn operator_story() -> String {
    let mut s = String::from("VAR a = 0\nVAR b = 0\nLIST L = x, (y), z = 9\nLIST M = u, v\nVAR e = ()\n-> start\n=== start ===\nStart {a} {b}.\n* [on] On.\n- (inner) Inner.\n-> END\n");
    for (i, o) in OPERANDS.iter().enumerate() {
        s += &format!("=== seta{i} ===\n~ a = {o}\n-> END\n=== setb{i} ===\n~ b = {o}\n-> END\n");
    }
    s += "=== tun ===\nTunnel {a}.\n->-> b\n";
    s += "=== function call_two(x1, x2) ===\n~ x1 = x1 + x2\n~ return x1\n=== function bump(ref r) ===\n~ r = r + 1\n~ return r\n=== function twice(v1) ===\n{v1}\n~ return v1 + v1\n=== function rec(n) ===\n{ n == 0:\n ~ return 0\n}\n~ return 1\n";
    s
}

/// The knots our compiler takes, in one story
fn operators() -> (Rc<Prog>, Vec<(String, String)>) {
    let base = operator_story();
    let mut s = base.clone();
    let mut ops = vec![];
    let all = BINARY.iter().chain(&UNARY).map(|e| format!("={{{e}}}=")).chain(STATEMENTS.iter().map(|e| e.to_string()));
    for (j, e) in all.enumerate() {
        let k = format!("=== op{j} ===\nBefore.\n{e}\nAfter.\n-> END\n");
        if compile("ops.ink", &format!("{base}{k}")).is_ok() {
            s += &k;
            ops.push((format!("op{j}"), e));
        }
    }
    let json = compile("ops.ink", &s).unwrap_or_default();
    let p = Prog::new("operators", &json).unwrap_or_else(|| own_named("mix"));
    (Rc::new(p), ops)
}

fn int_result(e: &str, a: &ValueType, b: &ValueType) -> Option<Result<i32, ()>> {
    let int = |v: &ValueType| match v {
        ValueType::Int(i) => Some(*i),
        _ => None,
    };
    let x = int(a)?;
    let e = e.strip_prefix("={")?.strip_suffix("}=")?;
    if e == "-a" {
        return Some(Ok(x.wrapping_neg()));
    }
    let y = int(b)?;
    Some(match e {
        "a + b" => Ok(x.wrapping_add(y)),
        "a - b" => Ok(x.wrapping_sub(y)),
        "a * b" => Ok(x.wrapping_mul(y)),
        "a / b" if y != 0 => Ok(x.wrapping_div(y)),
        "a % b" | "a mod b" if y != 0 => Ok(x.wrapping_rem(y)),
        "a / b" | "a % b" | "a mod b" => Err(()),
        _ => return None,
    })
}

/// Every operator on operands of every kind; what each gives, for comparison between builds.
fn matrix(r: &mut Report, out: &mut Vec<String>, quiet: bool) {
    let (p, ops) = operators();
    let n = OPERANDS.len();
    let int_min = [(i32::MIN, 1), (i32::MIN, -1), (i32::MAX, i32::MAX), (1 << 16, 1 << 16), (i32::MIN, i32::MIN), (-7, 2), (7, -2), (0, 0)];
    for (oi, (knot, e)) in ops.iter().enumerate() {
        if !quiet && !my_turn(oi) {
            continue;
        }
        let mut cases: Vec<(String, Option<(i32, i32)>)> = vec![];
        for i in 0..n {
            for k in 0..n {
                if (i * 7 + k * 3 + oi) % r.n(3, 1) == 0 || (i < 9 && k < 9) {
                    cases.push((format!("{i},{k}"), None));
                }
            }
        }
        cases.extend(int_min.iter().map(|c| (String::new(), Some(*c))));
        for handler in [true, false] {
            let setup = Setup { handler, fuel: 2000, ..Setup::default() };
            let Ok(mut h) = Host::new(&p, &setup) else { return };
            let Ok(mut fresh) = Host::new(&p, &setup) else { return };
            let begin = fresh.full();
            for (ci, (idx, raw)) in cases.iter().enumerate() {
                if r.past(0.45) && !quiet {
                    return;
                }
                let name = format!("op {e:?} on {idx}{raw:?} handler {handler}");
                let mut line = String::new();
                r.case(&name, || json!({"expression": e, "operands": idx.split(',').filter_map(|i| i.parse::<usize>().ok()).map(|i| OPERANDS[i]).collect::<Vec<_>>(), "ints": format!("{raw:?}")}), |r| {
                    match raw {
                        Some((a, b)) => {
                            h.apply(&Op::Set("a".into(), Val::I(*a)));
                            h.apply(&Op::Set("b".into(), Val::I(*b)));
                        }
                        None => {
                            let (i, k) = idx.split_once(',').unwrap_or(("0", "0"));
                            for s in [format!("seta{i}"), format!("setb{k}")] {
                                h.apply(&Op::Path(s, true));
                                h.apply(&Op::Max);
                            }
                        }
                    }
                    let (a, b) = (h.story.get_variable("a"), h.story.get_variable("b"));
                    h.take_log();
                    h.apply(&Op::Path(knot.clone(), true));
                    let mut text = String::new();
                    let mut errs = vec![];
                    let mut n = 0;
                    while h.story.can_continue() && n < 30 {
                        h.story.verif_set_fuel(Some(2000));
                        match h.story.cont() {
                            Ok(t) => text += &t,
                            Err(e) => {
                                errs.push(e.to_string());
                                break;
                            }
                        }
                        n += 1;
                    }
                    if h.story.get_current_choices().len() == 1 {
                        h.apply(&Op::Choose(0));
                        h.apply(&Op::Max);
                    }
                    for l in h.take_log() {
                        if l.starts_with("error") {
                            errs.push(l);
                        }
                    }
                    line = format!("{name} {text:?} {errs:?} {} {}", h.story.get_variable("a").as_ref().map(show).unwrap_or_default(), h.story.get_variable("b").as_ref().map(show).unwrap_or_default());
                    r.note(&line);
                    if let (Some(a), Some(b)) = (&a, &b) {
                        match int_result(e, a, b) {
                            Some(Ok(v)) if !errs.is_empty() || text != format!("Before.\n={v}=\nAfter.\n") => {
                                r.fail("an integer operation is wrong", &name, format!("wanted {v}, got {text:?} {errs:?}"), J::Null)
                            }
                            Some(Err(())) if errs.is_empty() => r.fail("a fault isn't reported", &name, format!("got {text:?}"), J::Null),
                            _ => {}
                        }
                    }
                    if !errs.is_empty() || ci % 50 == 0 {
                        let w = h.apply(&Op::Reset);
                        h.take_log();
                        if !w.ends_with("ok") {
                            return r.fail("reset fails after an error", &name, w, J::Null);
                        }
                        if ci % 5 == 0 {
                            let now = h.full();
                            if now != begin {
                                r.fail("after an error, a reset story isn't like a new one", &name, diff(&begin, &now), J::Null);
                            }
                            h.apply(&Op::Max);
                            fresh.apply(&Op::Max);
                            let (x, y) = (fresh.full(), h.full());
                            if x != y {
                                r.fail("after an error, a reset story goes another way", &name, diff(&x, &y), J::Null);
                            }
                            h.take_log();
                            h.apply(&Op::Reset);
                            fresh.apply(&Op::Reset);
                        }
                    }
                });
                out.push(line);
                if !r.failures.is_empty() && !quiet {
                    break;
                }
            }
        }
    }
}

fn wild(r: &mut Report, i: u64, out: &mut Vec<String>) {
    let seed = r.seed.wrapping_mul(999_983).wrapping_add(i);
    let mut rng = Rng::new(seed);
    let w = *rng.pick(&[3usize, 10, 25, 50]);
    let Some(p) = crate::ink::random_prog(seed, w, rng.chance(50)) else { return };
    let p = Rc::new(p);
    let name = format!("wild {} {w}", p.name);
    let src = crate::ink::random_source(seed, w, p.name.contains("true"));
    r.case(&name, || json!({"ink": src}), |r| {
        let setup = Setup { handler: rng.chance(70), safe: rng.chance(50), bind: rng.chance(80), fuel: 5000, ..Setup::default() };
        for _ in 0..3 {
            let Ok(mut h) = Host::new(&p, &setup) else { return };
            let mix = Mix { flows: 6, paths: 6, sets: 8, reload: 3, resets: 2 };
            let mut text = String::new();
            let mut ops = vec![];
            for _ in 0..40 {
                let bad = rng.chance(10);
                let op = if rng.chance(6) && !p.knots.is_empty() {
                    let args = (0..rng.below(3)).map(|_| [Val::I(3), Val::S("s".into()), Val::F(0.5), Val::B(true)][rng.below(4)].clone()).collect();
                    let k = rng.pick(&p.knots).clone();
                    if rng.chance(50) { Op::Eval(k, args) } else { Op::PathArgs(k, args) }
                } else if rng.chance(mix.flows) {
                    [Op::Switch("x".into()), Op::SwitchDefault, Op::Remove("x".into())][rng.below(3)].clone()
                } else if rng.chance(mix.paths) {
                    Op::Path(rng.pick(&p.knots).clone(), rng.chance(70))
                } else if rng.chance(mix.sets) && !p.vars.is_empty() {
                    let v = rng.pick(&p.vars).clone();
                    let kinds = [Val::I(i32::MIN), Val::S("zz".into()), Val::F(f32::MAX), Val::B(true), Val::I(0), Val::F(f32::NAN)];
                    Op::Set(v, rng.pick(&kinds).clone())
                } else if rng.chance(mix.reload) {
                    Op::Reload
                } else if h.story.can_continue() {
                    if rng.chance(20) { Op::Slices(vec![1 + rng.below(5), rng.below(3)]) } else { Op::Cont }
                } else {
                    let n = h.story.get_current_choices().len();
                    if n > 0 { Op::Choose(rng.below(n)) } else { Op::Path(rng.pick(&p.knots).clone(), true) }
                };
                if bad {
                    let mut calls = bad_calls(&h);
                    if !setup.bind {
                        calls.retain(|c| c.0 != "bind twice");
                    }
                    if !calls.is_empty() {
                        let c = &calls[rng.below(calls.len())];
                        c.1(&mut h);
                    }
                }
                ops.push(op.clone());
                text += &h.apply(&op);
                text += &h.see();
                let log = h.take_log();
                text += &log.join("\n");
                r.note(&text);
                let faulty = log.iter().any(|l| l.starts_with("error")) || h.story.has_error();
                if faulty && rng.chance(40) {
                    let Ok(mut a) = Host::new(&p, &setup) else { return };
                    let w = h.apply(&Op::Reset);
                    h.take_log();
                    h.out_of_fuel = false;
                    if !w.ends_with("ok") {
                        return r.fail("reset fails after an error", &name, format!("{ops:?}\n{w}"), J::Null);
                    }
                    for _ in 0..6 {
                        let (x, y) = (a.full(), h.full());
                        if x != y {
                            return r.fail("after an error, a reset story isn't like a new one", &name, format!("{ops:?}\n{}", diff(&x, &y)), J::Null);
                        }
                        let op = if a.story.can_continue() {
                            Op::Cont
                        } else if !a.story.get_current_choices().is_empty() {
                            Op::Choose(0)
                        } else {
                            break;
                        };
                        let (x, y) = (a.apply(&op), h.apply(&op));
                        let (la, lh) = (a.take_log().join("\n"), h.take_log().join("\n"));
                        if x != y || la != lh {
                            return r.fail("after an error, a reset story goes another way", &name, format!("{ops:?}\n{}{}", diff(&x, &y), diff(&la, &lh)), J::Null);
                        }
                    }
                }
            }
            out.push(format!("{name} {text}"));
        }
    });
}

/// What is printed must be the same whatever the build.
pub fn c04_lines(r: &mut Report) -> Vec<String> {
    let mut out = vec![];
    matrix(r, &mut out, true);
    for i in 0..150 {
        wild(r, i, &mut out);
    }
    out
}

pub fn c04(r: &mut Report) {
    let mut out = vec![];
    if r.round == 0 {
        matrix(r, &mut out, false);
        if shard().0 == 0 {
            crate::builds::compare(r, "C04", "runs differ between builds");
        }
    }
    for i in 0..r.n(400, 4000) as u64 {
        if r.past(0.85) {
            break;
        }
        if my_turn(i as usize) {
            wild(r, i + 1000, &mut out);
        }
        out.clear();
    }
    // The stories of the corpus, too, under any calls
    let all = mine(progs(r));
    for p in all {
        if r.out_of_time() {
            return;
        }
        let mut rng = Rng::new(r.seed + 4);
        let setup = Setup { handler: rng.chance(50), safe: rng.chance(50), fuel: 5000, ..Setup::default() };
        let name = format!("corpus {}", p.name);
        r.case(&name, || json!({"story": p.name}), |r| {
            let ops = random_ops(&p, &setup, Mix { flows: 8, paths: 8, sets: 8, reload: 3, resets: 2 }, 40, &mut rng);
            let Ok(mut h) = Host::new(&p, &setup) else { return };
            for op in ops {
                let t = h.apply(&op);
                r.note(&t);
                let calls = bad_calls(&h);
                calls[rng.below(calls.len())].1(&mut h);
                if h.out_of_fuel {
                    break;
                }
            }
        });
    }
}

// ---------------------------------------------------------------- C12

/// A story of lines and calls that tells, for every call, which lines come before it.
struct Calls {
    rng: Rng,
    next_line: usize,
    next_call: usize,
    functions: Vec<String>,
    /// In order of execution
    events: Vec<Ev>,
    choices: bool,
    strings: bool,
}

#[derive(Clone, Debug, PartialEq)]
enum Ev {
    /// A line that is ended before what comes next
    Line(usize),
    Call(usize, String),
    Pick,
}

const ARGS: [(&str, &str); 12] = [
    ("5", "int 5"), ("-3", "int -3"), ("1.5", "float 1.5"), ("\"s t\"", "string \"s t\""), ("true", "bool true"), ("vi + 1", "int 4"), ("vs + \"!\"", "string \"var!\""),
    ("(a1)", "list"), ("vl", "list"), ("twice(4)", "int 8"), ("\"in {vi}\"", "string \"in 3\""), ("2147483647 + 1", "int -2147483648"),
];

impl Calls {
    fn call(&mut self) -> (String, usize) {
        let k = self.next_call;
        self.next_call += 1;
        let n = self.rng.below(4);
        let mut args = vec![format!("{k}")];
        let mut want = vec![format!("int {k}")];
        for _ in 0..n {
            let (a, w) = *self.rng.pick(&ARGS);
            args.push(a.to_string());
            want.push(w.to_string());
        }
        self.events.push(Ev::Call(k, want.join(", ")));
        (format!("e{}({})", n + 1, args.join(", ")), k)
    }

    fn line(&mut self) -> (String, usize) {
        let k = self.next_line;
        self.next_line += 1;
        (format!("L{k}."), k)
    }

    fn items(&mut self, n: usize, deep: usize, ind: &str, open: bool) -> String {
        let mut s = String::new();
        for _ in 0..n {
            match self.rng.below(if open { 10 } else { 8 }) {
                0 | 1 => {
                    let (t, k) = self.line();
                    if self.rng.chance(15) {
                        s += &format!("{ind}{t}<>\n{ind}glued.\n");
                    } else {
                        s += &format!("{ind}{t}\n");
                    }
                    self.events.push(Ev::Line(k));
                }
                2 => {
                    let (c, _) = self.call();
                    s += &format!("{ind}~ {c}\n");
                }
                3 => {
                    let (c, _) = self.call();
                    let (t, k) = self.line();
                    s += &format!("{ind}~ vx = {c}\n{ind}{t} got {{vx}} {{vx + 1}}\n");
                    self.events.push(Ev::Line(k));
                }
                4 => {
                    let (t, k) = self.line();
                    let (c, _) = self.call();
                    let (d, _) = self.call();
                    s += &format!("{ind}{t} has {{{c}}} and {{{d} * 2}}.\n");
                    self.events.push(Ev::Line(k));
                }
                5 => {
                    let (c, _) = self.call();
                    let (t, k) = self.line();
                    s += &format!("{ind}{{ {c} > 0:\n{ind}    {t} yes\n{ind}- else:\n{ind}    {t} no\n{ind}}}\n");
                    self.events.push(Ev::Line(k));
                }
                6 if deep > 0 => {
                    let f = format!("fu{}", self.functions.len());
                    self.functions.push(String::new());
                    let at = self.functions.len() - 1;
                    let n = 1 + self.rng.below(3);
                    let body = self.items(n, deep - 1, "", false);
                    self.functions[at] = format!("=== function {f}() ===\n{body}~ return 1\n");
                    s += &format!("{ind}~ {f}()\n");
                }
                7 if self.strings => {
                    let (t, k) = self.line();
                    let (c, _) = self.call();
                    s += &format!("{ind}{t} \"quoted\" {{\"in {{{c}}} string\"}}\n");
                    self.events.push(Ev::Line(k));
                }
                8 if deep > 0 => {
                    let f = format!("tu{}", self.functions.len());
                    self.functions.push(String::new());
                    let at = self.functions.len() - 1;
                    let n = 1 + self.rng.below(3);
                    let body = self.items(n, deep - 1, "", true);
                    self.functions[at] = format!("=== {f} ===\n{body}->->\n");
                    s += &format!("{ind}-> {f} ->\n");
                }
                9 if self.choices && ind.is_empty() => {
                    // Conditions are called as the choice is come to; the text of the choice when it is chosen
                    let (c, _) = self.call();
                    self.events.push(Ev::Pick);
                    let (t, k) = self.line();
                    let text = if self.strings { " {e1(900)}" } else { "" };
                    s += &format!("+ {{ {c} > 0 }} [pick{text}]\n    {t} chosen\n- \n");
                    self.events.push(Ev::Line(k));
                }
                _ => {}
            }
        }
        s
    }
}

fn ext_value(args: &[ValueType]) -> ValueType {
    match args.first() {
        Some(ValueType::Int(k)) => ValueType::Int(k * 7 + 1),
        _ => ValueType::Int(0),
    }
}

struct Bound {
    log: Log,
    delivered: Rc<std::cell::RefCell<String>>,
    early: Rc<std::cell::RefCell<Vec<String>>>,
    /// For every call, the lines that come before it
    before: Rc<Vec<Vec<usize>>>,
}

impl bladeink::story::external_functions::ExternalFunction for Bound {
    fn call(&mut self, name: &str, args: Vec<ValueType>) -> Option<ValueType> {
        let shown: Vec<String> = args.iter().map(show).collect();
        self.log.borrow_mut().push(format!("{name}({})", shown.join(", ")));
        if let Some(ValueType::Int(k)) = args.first()
            && let Some(ls) = self.before.get(*k as usize)
        {
            let d = self.delivered.borrow();
            for l in ls {
                if !d.contains(&format!("L{l}.")) {
                    self.early.borrow_mut().push(format!("{name}({k}) before line {l} was delivered"));
                }
            }
        }
        Some(ext_value(&args))
    }
}

struct Run {
    text: Vec<String>,
    calls: Vec<String>,
    early: Vec<String>,
    errors: Vec<String>,
}

fn run_calls(json: &str, bind: Option<bool>, fallbacks: bool, handler: bool, before: &Rc<Vec<Vec<usize>>>, slices: Option<usize>) -> Option<Run> {
    let p = Rc::new(Prog::new("calls", json)?);
    let setup = Setup { handler, observers: false, bind: false, fallbacks, ..Setup::default() };
    let mut h = Host::new(&p, &setup).ok()?;
    let log: Log = Default::default();
    let (delivered, early) = (Rc::new(std::cell::RefCell::new(String::new())), Rc::new(std::cell::RefCell::new(vec![])));
    if let Some(safe) = bind {
        for i in 1..=4 {
            let b = Rc::new(std::cell::RefCell::new(Bound { log: log.clone(), delivered: delivered.clone(), early: early.clone(), before: before.clone() }));
            h.story.bind_external_function(&format!("e{i}"), b, safe).ok()?;
        }
    }
    let mut out = Run { text: vec![], calls: vec![], early: vec![], errors: vec![] };
    for _ in 0..200 {
        if h.story.can_continue() {
            let r = match slices {
                None => h.story.cont(),
                Some(k) => {
                    let mut n = 0;
                    loop {
                        bladeink::verif::set_pause_after(Some(k));
                        if let Err(e) = h.story.continue_async(1.0) {
                            break Err(e);
                        }
                        if let Ok(t) = h.story.get_current_text() {
                            break Ok(t);
                        }
                        n += 1;
                        if n > 5000 {
                            break h.story.get_current_text();
                        }
                    }
                }
            };
            bladeink::verif::set_pause_after(None);
            match r {
                Ok(t) => {
                    delivered.borrow_mut().push_str(&t);
                    out.text.push(t);
                }
                Err(e) => {
                    out.errors.push(e.to_string());
                    break;
                }
            }
        } else {
            let cs = h.story.get_current_choices();
            if cs.is_empty() {
                break;
            }
            out.text.push(format!("[{}]", cs[0].text));
            h.apply(&Op::Choose(0));
        }
    }
    out.errors.extend(h.take_log().into_iter().filter(|l| l.starts_with("error")));
    out.calls = log.borrow().clone();
    out.early = early.borrow().clone();
    Some(out)
}

fn calls_case(r: &mut Report, i: u64) {
    let seed = r.seed.wrapping_mul(77_003).wrapping_add(i);
    let mut rng = Rng::new(seed);
    let strings = rng.chance(35);
    let mut c = Calls { rng: Rng::new(seed + 1), next_line: 0, next_call: 0, functions: vec![], events: vec![], choices: rng.chance(50), strings };
    let n = 2 + rng.below(7);
    let body = c.items(n, 2, "", true);
    if c.next_call == 0 {
        return;
    }
    let head = "VAR vi = 3\nVAR vs = \"var\"\nVAR vx = 0\nLIST A = a1, a2\nVAR vl = (a1, a2)\nEXTERNAL e1(a)\nEXTERNAL e2(a, b)\nEXTERNAL e3(a, b, c)\nEXTERNAL e4(a, b, c, d)\n-> main\n";
    let fall = "=== function e1(a) ===\n~ return a * 7 + 1\n=== function e2(a, b) ===\n~ return a * 7 + 1\n=== function e3(a, b, c) ===\n~ return a * 7 + 1\n=== function e4(a, b, c, d) ===\n~ return a * 7 + 1\n";
    let src = format!("{head}=== main ===\n{body}End.\n-> END\n{}=== function twice(x) ===\n~ return x + x\n", c.functions.join(""));
    let with = format!("{src}{fall}");
    let name = format!("calls{i}");
    r.case(&name, || json!({"ink": with}), |r| {
        let (Ok(bare), Ok(with_fall)) = (compile("c.ink", &src), compile("c.ink", &with)) else { return };
        let mut before = vec![vec![]; c.next_call];
        let mut seen = vec![];
        for e in &c.events {
            match e {
                Ev::Line(k) => seen.push(*k),
                Ev::Call(k, _) => before[*k] = seen.clone(),
                Ev::Pick => {}
            }
        }
        let before = Rc::new(before);
        let want_calls: Vec<(usize, String)> = c.events.iter().filter_map(|e| if let Ev::Call(k, a) = e { Some((*k, a.clone())) } else { None }).collect();
        let args_match = |got: &str, want: &str| {
            // Lists are told at length
            let inner = got.split_once('(').map(|x| x.1.trim_end_matches(')')).unwrap_or("");
            let mut rest = inner;
            for w in want.split(", ") {
                match w {
                    "list" => {
                        let Some(at) = rest.find("shown as ") else { return false };
                        let tail = &rest[at + 9..];
                        let end = ["a1, a2", "a1"].iter().find(|x| tail.starts_with(**x)).map(|x| x.len()).unwrap_or(0);
                        if end == 0 {
                            return false;
                        }
                        rest = tail[end..].trim_start_matches(", ");
                    }
                    w => {
                        let Some(t) = rest.strip_prefix(w) else { return false };
                        rest = t.trim_start_matches(", ");
                    }
                }
            }
            true
        };
        // The fallbacks in Ink
        let Some(base) = run_calls(&with_fall, None, true, true, &before, None) else { return };
        r.note(&base.text.join(""));
        if !base.errors.is_empty() {
            return r.fail("fallbacks give errors", &name, format!("{:?}", base.errors), J::Null);
        }
        for slices in [None, Some(1), Some(3)] {
            // Safe: whatever is run ahead, the output is as if each were called once
            let Some(s) = run_calls(&with_fall, Some(true), rng.chance(50), true, &before, slices) else { return };
            if s.text != base.text || !s.errors.is_empty() {
                return r.fail("safe functions give another output than their fallbacks", &name, format!("{:?}\n{}", s.errors, diff(&base.text.join("|\n"), &s.text.join("|\n"))), J::Null);
            }
            for (k, want) in &want_calls {
                if !s.calls.iter().any(|g| args_match(g, want)) {
                    return r.fail("a call doesn't arrive as made", &name, format!("call {k} wanted ({want}), got {:?}", s.calls), J::Null);
                }
            }
            let Some(u) = run_calls(&with_fall, Some(false), true, true, &before, slices) else { return };
            if strings {
                // Refused where it is in a string or in a choice's text
                let at = c.events.iter().any(|e| matches!(e, Ev::Call(..)));
                let in_string = with.contains("{\"in {e") || with.contains("[pick {e1(900)}]");
                if at && in_string && u.errors.is_empty() {
                    return r.fail("an unsafe function is called from a string", &name, format!("{:?}", u.calls), J::Null);
                }
                if u.calls.iter().any(|g| g.starts_with("e1(int 900")) {
                    return r.fail("an unsafe function is called from a choice's text", &name, format!("{:?}", u.calls), J::Null);
                }
                continue;
            }
            if !u.errors.is_empty() {
                return r.fail("unsafe functions give errors", &name, format!("{:?}", u.errors), J::Null);
            }
            if u.text.join("") != base.text.join("") {
                return r.fail("unsafe functions give another output than their fallbacks", &name, diff(&base.text.join("|\n"), &u.text.join("|\n")), J::Null);
            }
            if u.calls.len() != want_calls.len() || u.calls.iter().zip(&want_calls).any(|(g, (_, w))| !args_match(g, w)) {
                return r.fail("unsafe functions aren't called once each, in order", &name, format!("wanted {want_calls:?}\ngot {:?}", u.calls), J::Null);
            }
            if let Some(e) = u.early.first() {
                return r.fail("an unsafe function is called too early", &name, e.clone(), J::Null);
            }
        }
        // Without binding nor fallback: the first continue fails
        for (json, fallbacks) in [(&bare, true), (&bare, false), (&with_fall, false)] {
            for handler in [true, false] {
                let Some(n) = run_calls(json, None, fallbacks, handler, &before, None) else { return };
                if n.errors.is_empty() || n.text.iter().any(|t| !t.is_empty()) {
                    return r.fail("a missing binding isn't told at the first continue", &name, format!("fallbacks {fallbacks} handler {handler}: {:?} {:?}", n.errors, n.text), J::Null);
                }
            }
        }
        if r.failures.is_empty() {
            r.note(&format!("{want_calls:?}"));
        }
    });
}

/// One call of an external that nothing binds, somewhere it's not come to at once: the first continue tells it all the same.
fn missing_case(r: &mut Report, i: u64) {
    let seed = r.seed.wrapping_mul(31_337).wrapping_add(i);
    let mut rng = Rng::new(seed);
    // A block, in as many others as wanted
    let mut block = match rng.below(6) {
        0 => vec!["~ gone(1)".to_string()],
        1 => vec!["Text {gone(1)} more".to_string()],
        2 => vec!["~ vx = gone(1) + 1".to_string()],
        3 => vec!["Text {\"in {gone(1)} string\"}".to_string()],
        4 => vec!["{gone(1) > 2: yes | no}".to_string()],
        _ => vec!["~ temp t = twice(gone(1))".to_string()],
    };
    let mut plain = true;
    for _ in 0..rng.below(4) {
        let inner: Vec<String> = block.iter().map(|l| format!("    {l}")).collect();
        let (a, b): (&[&str], &[&str]) = match rng.below(6) {
            0 => (&["{no:"], &["}"]),
            1 => (&["{no:", "    other", "- else:"], &["}"]),
            2 => (&["{ stopping:", "- first", "-"], &["}"]),
            3 => (&["{ vx:", "- 77:"], &["- else: none", "}"]),
            4 => (&["{ shuffle:", "- one", "-"], &["}"]),
            _ => (&["{", "- no:"], &["- yes: fine", "}"]),
        };
        plain = false;
        block = a.iter().map(|x| x.to_string()).chain(inner).chain(b.iter().map(|x| x.to_string())).collect();
    }
    let ind = |p: &str| block.iter().map(|l| format!("{p}{l}")).collect::<Vec<_>>().join("\n");
    let mut head = "Hello.\n".to_string();
    let mut tail = String::new();
    match rng.below(9) {
        0 => head += &format!("{}\n", ind("")),
        1 => head += &format!("* [go]\n{}\n* [no] No.\n- \n", ind("    ")),
        2 => head += &format!("* [go]\n  * * [on]\n{}\n- (lab)\n", ind("        ")),
        3 => tail = format!("=== other ===\n{}\n-> DONE\n", ind("")),
        4 => tail = format!("=== other ===\nx\n-> DONE\n= st\n{}\n-> DONE\n", ind("")),
        5 => tail = format!("=== function other() ===\n{}\n~ return 1\n", ind("")),
        6 if plain => head += "* {gone(1) > 0} [pick]\n* other\n- \n",
        7 if plain => head += "* pick {gone(1)} [it]\n* other\n- \n",
        _ => tail = format!("=== other ===\n- (one) start\n* [c]\n- (two)\n{}\n-> DONE\n", ind("")),
    }
    let src = format!("EXTERNAL gone(a)\nEXTERNAL there(a)\nVAR no = false\nVAR yes = true\nVAR vx = 0\n{head}{{there(2)}} Bye.\n-> END\n{tail}=== function twice(x) ===\n~ return x + x\n");
    let name = format!("missing{i}");
    r.case(&name, || json!({"ink": src}), |r| {
        let Ok(j) = compile("m.ink", &src) else { return };
        r.note(&src);
        for (fallbacks, handler, both) in [(false, true, false), (false, false, false), (true, true, false), (false, false, true)] {
            let Some(p) = Prog::new("missing", &j) else { return };
            let setup = Setup { handler, observers: false, bind: false, fallbacks, ..Setup::default() };
            let Ok(mut h) = Host::new(&Rc::new(p), &setup) else { return };
            let seen: Log = Default::default();
            let bound = |_: usize| {
                Rc::new(std::cell::RefCell::new(Bound { log: seen.clone(), delivered: Default::default(), early: Default::default(), before: Rc::new(vec![vec![]; 10]) }))
            };
            if h.story.bind_external_function("there", bound(0), true).is_err() {
                return r.fail("binding is refused", &name, String::new(), J::Null);
            }
            if both && h.story.bind_external_function("gone", bound(0), true).is_err() {
                return r.fail("binding is refused", &name, String::new(), J::Null);
            }
            let got = h.story.cont();
            let mut told: Vec<String> = h.take_log().into_iter().filter(|l| l.starts_with("error")).collect();
            if let Err(e) = &got {
                told.push(e.to_string());
            }
            if both != told.is_empty() || told.len() > 1 || (!both && !told[0].contains("gone")) || told.iter().any(|t| t.contains("there")) {
                return r.fail(
                    "which bindings miss isn't told at the first continue",
                    &name,
                    format!("{src}\nfallbacks {fallbacks} handler {handler} bound {both}: {told:?} {got:?}"),
                    J::Null,
                );
            }
        }
    });
}

pub fn c12(r: &mut Report) {
    for i in 0..r.n(1500, 20_000) as u64 {
        if r.past(0.25) {
            break;
        }
        if my_turn(i as usize) {
            missing_case(r, i);
        }
    }
    for i in 0..r.n(3000, 60_000) as u64 {
        if r.past(0.75) {
            break;
        }
        if my_turn(i as usize) {
            calls_case(r, i);
        }
    }
    // Bound as safe, or left to their fallbacks: the same story
    for i in 0..r.n(600, 6000) as u64 {
        if r.past(0.95) {
            break;
        }
        if !my_turn(i as usize) {
            continue;
        }
        let Some(p) = crate::ink::quick_prog(r.seed * 31 + i, 0, true).map(Rc::new) else { continue };
        if p.externals.is_empty() {
            continue;
        }
        let name = format!("same {}", p.name);
        r.case(&name, || json!({"compiled": p.json}), |r| {
            // Counting the visits of the fallbacks, and where the dice stand, tell them apart: not what is shown
            let with = Setup { safe: true, ..Setup::default() };
            let without = Setup { bind: false, ..Setup::default() };
            for ops in choice_walks(&p, &without, 4, 40) {
                let shown = |s: &Setup| {
                    let mut h = Host::new(&p, s).ok()?;
                    let mut out = vec![];
                    for op in &ops {
                        let w = h.apply(op);
                        let see = h.see();
                        let see: Vec<&str> = see.lines().filter(|l| !l.starts_with("path")).collect();
                        let log: Vec<String> = h.take_log().into_iter().filter(|l| !l.starts_with("call ")).collect();
                        out.push(format!("{w}\n{}\n{}", see.join("\n"), log.join("\n")));
                        if h.out_of_fuel {
                            out.pop();
                            break;
                        }
                    }
                    Some(out)
                };
                let (Some(a), Some(b)) = (shown(&without), shown(&with)) else { return };
                r.note(&a.join(""));
                for (x, y) in a.iter().zip(&b) {
                    if x != y {
                        return r.fail("safe functions and their fallbacks play differently", &name, format!("{ops:?}\n{}", diff(x, y)), J::Null);
                    }
                }
            }
        });
    }
}
