//! What all the explorers share: stories, host operations, and what a host can observe.
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::rc::Rc;
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering};

use bladeink::story::Story;
use bladeink::story::errors::{ErrorHandler, ErrorType};
use bladeink::story::external_functions::ExternalFunction;
use bladeink::story::variable_observer::VariableObserver;
use bladeink::value_type::ValueType;
use serde_json::{Value as J, json};

pub const FUEL: usize = 20_000;

pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x1234_5678_9ABC_DEF1)
    }
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545_F491_4F6C_DD1D) >> 16
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn chance(&mut self, pct: usize) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

// ---------------------------------------------------------------- stories

/// Which of how many processes this one is: they share the stories among them.
pub static SHARD: Mutex<(usize, usize)> = Mutex::new((0, 1));

pub fn shard() -> (usize, usize) {
    *SHARD.lock().unwrap_or_else(|e| e.into_inner())
}

/// The part of the list that falls to this process.
pub fn mine<T>(v: Vec<T>) -> Vec<T> {
    let (i, n) = shard();
    v.into_iter().enumerate().filter(|(k, _)| k % n == i).map(|(_, x)| x).collect()
}

pub fn my_turn(i: usize) -> bool {
    let (k, n) = shard();
    i % n == k
}

#[derive(Clone)]
pub struct Prog {
    pub name: String,
    pub json: String,
    pub vars: Vec<String>,
    pub knots: Vec<String>,
    pub externals: Vec<String>,
}

fn walk_json(j: &J, f: &mut impl FnMut(&serde_json::Map<String, J>)) {
    match j {
        J::Array(a) => a.iter().for_each(|x| walk_json(x, f)),
        J::Object(o) => {
            f(o);
            o.values().for_each(|x| walk_json(x, f));
        }
        _ => {}
    }
}

impl Prog {
    pub fn new(name: &str, json: &str) -> Option<Prog> {
        let json = json.trim_start_matches('\u{feff}');
        let j: J = serde_json::from_str(json).ok()?;
        let root = j.get("root")?.as_array()?;
        let mut vars = vec![];
        let mut knots = vec![];
        let mut externals = BTreeSet::new();

        if let Some(named) = root.last().and_then(|l| l.as_object()) {
            for (k, v) in named {
                if k == "global decl" {
                    walk_json(v, &mut |o| {
                        if let Some(n) = o.get("VAR=").and_then(|n| n.as_str()) {
                            vars.push(n.to_string());
                        }
                    });
                } else if !k.starts_with('#') {
                    knots.push(k.clone());
                }
            }
        }

        walk_json(&j["root"], &mut |o| {
            if let Some(n) = o.get("x()").and_then(|n| n.as_str()) {
                externals.insert(n.to_string());
            }
        });

        Some(Prog {
            name: name.to_string(),
            json: json.to_string(),
            vars,
            knots,
            externals: externals.into_iter().collect(),
        })
    }
}

fn find_files(dir: &std::path::Path, ext: &str, out: &mut Vec<std::path::PathBuf>) {
    let Ok(rd) = std::fs::read_dir(dir) else {
        return;
    };
    let mut es: Vec<_> = rd.filter_map(|e| e.ok()).map(|e| e.path()).collect();
    es.sort();
    for p in es {
        if p.is_dir() {
            find_files(&p, ext, out);
        } else if p.to_string_lossy().ends_with(ext) {
            out.push(p);
        }
    }
}

pub fn stories_dir() -> std::path::PathBuf {
    std::path::PathBuf::from(concat!(env!("CARGO_MANIFEST_DIR"), "/stories"))
}

pub fn repo_dir() -> std::path::PathBuf {
    std::path::PathBuf::from(concat!(env!("CARGO_MANIFEST_DIR"), "/../../repo"))
        .canonicalize()
        .unwrap_or_else(|_| "/repo".into())
}

pub fn load_dir(dir: &std::path::Path) -> Vec<Prog> {
    let mut fs = vec![];
    find_files(dir, ".ink.json", &mut fs);
    fs.iter()
        .filter_map(|p| {
            let text = std::fs::read_to_string(p).ok()?;
            let name = p.strip_prefix(dir).unwrap_or(p).to_string_lossy().to_string();
            Prog::new(&name, &text)
        })
        .collect()
}

pub fn own() -> Vec<Prog> {
    load_dir(&stories_dir())
}

pub fn own_named(name: &str) -> Prog {
    let p = stories_dir().join(format!("{name}.ink.json"));
    Prog::new(name, &std::fs::read_to_string(&p).expect("own story")).expect("own story")
}

pub fn corpus() -> Vec<Prog> {
    load_dir(&repo_dir().join("conformance-tests/inkfiles"))
}

pub fn ink_sources() -> Vec<(String, String)> {
    let mut out = vec![];
    for dir in [stories_dir(), repo_dir().join("conformance-tests/inkfiles")] {
        let mut fs = vec![];
        find_files(&dir, ".ink", &mut fs);
        for p in fs {
            if let Ok(t) = std::fs::read_to_string(&p) {
                out.push((p.to_string_lossy().to_string(), t));
            }
        }
    }
    out
}

// ---------------------------------------------------------------- the report

pub struct Report {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub evals: u64,
    pub distinct: BTreeSet<u64>,
    pub samples: Vec<String>,
    pub failures: Vec<J>,
    pub skipped: u64,
    pub started: std::time::Instant,
    pub budget: f64,
    pub only: Option<String>,
    part_end: f64,
    pub round: u64,
    seen_kinds: BTreeSet<String>,
}

static CURRENT: Mutex<String> = Mutex::new(String::new());
static CASE_START: AtomicU64 = AtomicU64::new(0);
static PANIC_MSG: Mutex<String> = Mutex::new(String::new());
static CASE_FILE: Mutex<Option<String>> = Mutex::new(None);

fn now_ms() -> u64 {
    std::time::SystemTime::now()
        .duration_since(std::time::UNIX_EPOCH)
        .map(|d| d.as_millis() as u64)
        .unwrap_or(0)
}

/// A case that takes longer than this is taken for a hang.
pub fn start_watchdog(limit_ms: u64, case_file: Option<String>) {
    *CASE_FILE.lock().unwrap_or_else(|e| e.into_inner()) = case_file;
    std::panic::set_hook(Box::new(|info| {
        *PANIC_MSG.lock().unwrap_or_else(|e| e.into_inner()) = info.to_string();
    }));
    std::thread::spawn(move || {
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let s = CASE_START.load(Ordering::SeqCst);
            if s != 0 && now_ms().saturating_sub(s) > limit_ms {
                let c = CURRENT.lock().unwrap_or_else(|e| e.into_inner()).clone();
                eprintln!("HANG {c}");
                std::process::exit(3);
            }
        }
    });
}

impl Report {
    pub fn new(prop: &str, seed: u64, thorough: bool, budget: f64, only: Option<String>) -> Report {
        Report {
            prop: prop.to_string(),
            seed,
            thorough,
            evals: 0,
            distinct: BTreeSet::new(),
            samples: vec![],
            failures: vec![],
            skipped: 0,
            started: std::time::Instant::now(),
            budget,
            only,
            part_end: budget,
            round: 0,
            seen_kinds: BTreeSet::new(),
        }
    }

    pub fn out_of_time(&self) -> bool {
        self.started.elapsed().as_secs_f64() > self.budget || self.failures.len() >= 8
    }

    /// Starts one of `left` parts that share what is left of the budget, the big ones taking more.
    pub fn part(&mut self, left: usize) {
        let t = self.started.elapsed().as_secs_f64();
        self.part_end = t + (self.budget - t) * (8.0 / left.max(1) as f64).min(0.5 + 0.5 / left.max(1) as f64);
    }

    pub fn part_over(&self) -> bool {
        self.out_of_time() || self.started.elapsed().as_secs_f64() > self.part_end
    }

    /// The share of the budget this part may use up to.
    pub fn past(&self, share: f64) -> bool {
        self.started.elapsed().as_secs_f64() > self.budget * share || self.failures.len() >= 8
    }

    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough { thorough } else { quick }
    }

    pub fn fail(&mut self, kind: &str, case: &str, detail: String, extra: J) {
        let key = format!("{kind}|{case}");
        if self.failures.len() >= 8 || !self.seen_kinds.insert(key) {
            return;
        }
        let mut detail = detail;
        if detail.len() > 6000 {
            let mut i = 6000;
            while !detail.is_char_boundary(i) {
                i -= 1;
            }
            detail.truncate(i);
        }
        self.failures.push(json!({"kind": kind, "case": case, "detail": detail, "input": extra}));
    }

    /// Runs one case. A panic in it is a failure.
    pub fn case(&mut self, name: &str, input: impl Fn() -> J, f: impl FnOnce(&mut Report)) {
        if let Some(o) = &self.only
            && !name.starts_with(o.as_str())
        {
            return;
        }
        *CURRENT.lock().unwrap_or_else(|e| e.into_inner()) = name.to_string();
        // Should the process die, the file tells of what
        if let Some(f) = CASE_FILE.lock().unwrap_or_else(|e| e.into_inner()).as_ref() {
            let _ = std::fs::write(f, format!("{name}\n{}", input()));
        }
        CASE_START.store(now_ms(), Ordering::SeqCst);
        let before = self.failures.len();
        let r = catch_unwind(AssertUnwindSafe(|| f(self)));
        CASE_START.store(0, Ordering::SeqCst);
        self.evals += 1;
        if r.is_err() {
            let m = PANIC_MSG.lock().unwrap_or_else(|e| e.into_inner()).clone();
            self.fail("panic", name, m, input());
        } else if self.failures.len() > before {
            let i = input();
            for f in &mut self.failures[before..] {
                if f["input"].is_null() {
                    f["input"] = i.clone();
                }
            }
        }
        if self.samples.len() < 5 {
            self.samples.push(name.to_string());
        }
    }

    pub fn note(&mut self, what: &str) {
        use std::hash::{DefaultHasher, Hash, Hasher};
        let mut h = DefaultHasher::new();
        what.hash(&mut h);
        if self.distinct.len() < 2_000_000 {
            self.distinct.insert(h.finish());
        }
    }

    pub fn finish(&self) -> J {
        json!({
            "property": self.prop, "seed": self.seed, "evaluations": self.evals,
            "distinct_nontrivial": self.distinct.len(), "samples": self.samples,
            "skipped": self.skipped, "failures": self.failures,
            "wall_s": self.started.elapsed().as_secs_f64(),
        })
    }
}

// ---------------------------------------------------------------- host side

pub type Log = Rc<RefCell<Vec<String>>>;

pub fn show(v: &ValueType) -> String {
    match v {
        ValueType::Bool(b) => format!("bool {b}"),
        ValueType::Int(i) => format!("int {i}"),
        ValueType::Float(f) => format!("float {f:?}"),
        ValueType::String(s) => format!("string {:?}", s.string),
        ValueType::DivertTarget(p) => format!("divert {p}"),
        ValueType::VariablePointer(_) => "pointer".to_string(),
        ValueType::List(l) => {
            let mut items: Vec<String> =
                l.items.iter().map(|(k, v)| format!("{}={}", k.get_full_name(), v)).collect();
            items.sort();
            let mut origins = l.get_origin_names();
            origins.sort();
            format!("list {items:?} of {origins:?} shown as {l}")
        }
    }
}

pub struct Rec {
    pub log: Log,
    pub tag: String,
}

impl VariableObserver for Rec {
    fn changed(&mut self, name: &str, value: &ValueType) {
        self.log.borrow_mut().push(format!("{}observe {} {}", self.tag, name, show(value)));
    }
}

impl ErrorHandler for Rec {
    fn error(&mut self, message: &str, error_type: ErrorType) {
        let t = match error_type {
            ErrorType::Error => "error",
            ErrorType::Warning => "warning",
        };
        self.log.borrow_mut().push(format!("{}{} {}", self.tag, t, message));
    }
}

impl ExternalFunction for Rec {
    fn call(&mut self, name: &str, args: Vec<ValueType>) -> Option<ValueType> {
        let a: Vec<String> = args.iter().map(show).collect();
        self.log.borrow_mut().push(format!("{}call {}({})", self.tag, name, a.join(", ")));
        ext_result(name, &args)
    }
}

/// The same as the Ink fallbacks of ext.ink.
pub fn ext_result(name: &str, args: &[ValueType]) -> Option<ValueType> {
    let n = |i: usize| match args.get(i) {
        Some(ValueType::Int(v)) => Some(*v),
        Some(ValueType::Bool(b)) => Some(*b as i32),
        _ => None,
    };
    match name {
        "safe" => match (&args[0], &args[1]) {
            (ValueType::String(a), b) => {
                Some(ValueType::new::<&str>(&format!("{}{}", a.string, b.coerce_to_string().ok()?)))
            }
            _ => Some(ValueType::Int(n(0)?.wrapping_add(n(1)?))),
        },
        "unsafe" => Some(ValueType::Int(n(0)?.wrapping_mul(2))),
        "note" => Some(ValueType::Int(0)),
        "fallb" => Some(ValueType::Int(n(0)?.wrapping_sub(1))),
        "nothing" => None,
        _ => Some(ValueType::Int((0..args.len()).filter_map(n).fold(args.len() as i32, i32::wrapping_add))),
    }
}

pub fn canon(j: &J) -> J {
    match j {
        J::Object(o) => {
            let m: BTreeMap<&String, J> = o.iter().map(|(k, v)| (k, canon(v))).collect();
            let mut out = serde_json::Map::new();
            for (k, v) in m {
                out.insert(k.clone(), v);
            }
            J::Object(out)
        }
        J::Array(a) => J::Array(a.iter().map(canon).collect()),
        x => x.clone(),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    I(i32),
    F(f32),
    B(bool),
    S(String),
}

impl Val {
    pub fn get(&self) -> ValueType {
        match self {
            Val::I(i) => ValueType::Int(*i),
            Val::F(f) => ValueType::Float(*f),
            Val::B(b) => ValueType::Bool(*b),
            Val::S(s) => ValueType::new::<&str>(s),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Cont,
    Max,
    /// Continue, pausing after each of these steps, then every step the last of them.
    Slices(Vec<usize>),
    Choose(usize),
    Save,
    /// Save, and load it in the same story.
    Reload,
    Switch(String),
    SwitchDefault,
    Remove(String),
    Path(String, bool),
    PathArgs(String, Vec<Val>),
    Set(String, Val),
    Eval(String, Vec<Val>),
    Reset,
}

pub fn ops_json(ops: &[Op]) -> J {
    J::Array(ops.iter().map(|o| J::String(format!("{o:?}"))).collect())
}

#[derive(Clone)]
pub struct Setup {
    pub handler: bool,
    pub observers: bool,
    pub bind: bool,
    pub safe: bool,
    pub fallbacks: bool,
    pub seed: i32,
    pub fuel: usize,
}

impl Default for Setup {
    fn default() -> Self {
        Setup { handler: true, observers: true, bind: true, safe: true, fallbacks: true, seed: 42, fuel: FUEL }
    }
}

pub struct Host {
    pub story: Story,
    pub log: Log,
    pub prog: Rc<Prog>,
    pub setup: Setup,
    pub out_of_fuel: bool,
    pub observer: Option<Rc<RefCell<dyn VariableObserver>>>,
}

pub const NO_FUEL: &str = "The global declarations never end";

impl Host {
    pub fn new(prog: &Rc<Prog>, setup: &Setup) -> Result<Host, String> {
        let log: Log = Rc::new(RefCell::new(vec![]));
        let mut story = Story::new(&prog.json).map_err(|e| e.to_string())?;
        story.verif_set_seed(setup.seed);
        story.set_allow_external_function_fallbacks(setup.fallbacks);
        let mut setup = setup.clone();
        if prog.name.starts_with("gen") {
            // They're small, and the work of a step grows with the text of a line that never ends
            setup.fuel = setup.fuel.min(FUEL / 8);
        }
        let mut h = Host { story, log, prog: prog.clone(), setup: setup.clone(), out_of_fuel: false, observer: None };
        if setup.handler {
            h.story.set_error_handler(h.rec(""));
        }
        if setup.bind {
            for e in &prog.externals {
                h.story.bind_external_function(e, h.rec(""), setup.safe).map_err(|e| e.to_string())?;
            }
        }
        if setup.observers {
            let o = h.rec("");
            h.observer = Some(o.clone());
            for v in &prog.vars {
                h.story.observe_variable(v, o.clone()).map_err(|e| e.to_string())?;
            }
        }
        Ok(h)
    }

    pub fn rec(&self, tag: &str) -> Rc<RefCell<Rec>> {
        Rc::new(RefCell::new(Rec { log: self.log.clone(), tag: tag.to_string() }))
    }

    fn res<T>(&mut self, what: &str, r: Result<T, impl ToString>, f: impl Fn(T) -> String) -> String {
        match r {
            Ok(v) => format!("{what} -> {}", f(v)),
            Err(e) => {
                let e = e.to_string();
                if e.contains(NO_FUEL) {
                    self.out_of_fuel = true;
                }
                format!("{what} -> Err {e}")
            }
        }
    }

    /// What the host is told by the operation.
    pub fn apply(&mut self, op: &Op) -> String {
        self.story.verif_set_fuel(Some(self.setup.fuel));
        bladeink::verif::set_pause_after(None);
        let w = format!("{op:?}");
        let r = match op {
            Op::Cont => {
                let r = self.story.cont();
                self.res(&w, r, |t| format!("{t:?}"))
            }
            Op::Max => {
                let r = self.story.continue_maximally();
                self.res(&w, r, |t| format!("{t:?}"))
            }
            Op::Slices(ks) => {
                let mut i = 0;
                let r = loop {
                    let k = ks.get(i).or(ks.last()).copied().unwrap_or(1);
                    i += 1;
                    if k == 0 {
                        bladeink::verif::set_pause_after(None);
                        break self.story.cont();
                    }
                    bladeink::verif::set_pause_after(Some(k));
                    if let Err(e) = self.story.continue_async(1.0) {
                        break Err(e);
                    }
                    if let Ok(t) = self.story.get_current_text() {
                        break Ok(t);
                    }
                    if i > 50_000 {
                        self.out_of_fuel = true;
                        break self.story.get_current_text();
                    }
                };
                bladeink::verif::set_pause_after(None);
                self.res("Cont", r, |t| format!("{t:?}"))
            }
            Op::Choose(i) => {
                let r = self.story.choose_choice_index(*i);
                self.res(&w, r, |_| "ok".into())
            }
            Op::Save => {
                let r = self.story.save_state();
                self.res(&w, r, |_| "ok".into())
            }
            Op::Reload => {
                let s = self.story.save_state();
                match s {
                    Ok(s) => {
                        let r = self.story.load_state(&s);
                        self.res(&w, r, |_| "ok".into())
                    }
                    Err(e) => format!("{w} -> Err {e}"),
                }
            }
            Op::Switch(f) => {
                let r = self.story.switch_flow(f);
                self.res(&w, r, |_| "ok".into())
            }
            Op::SwitchDefault => {
                self.story.switch_to_default_flow();
                w
            }
            Op::Remove(f) => {
                let r = self.story.remove_flow(f);
                self.res(&w, r, |_| "ok".into())
            }
            Op::Path(p, reset) => {
                let r = self.story.choose_path_string(p, *reset, None);
                self.res(&w, r, |_| "ok".into())
            }
            Op::PathArgs(p, a) => {
                let a: Vec<ValueType> = a.iter().map(|v| v.get()).collect();
                let r = self.story.choose_path_string(p, true, Some(&a));
                self.res(&w, r, |_| "ok".into())
            }
            Op::Set(n, v) => {
                let r = self.story.set_variable(n, &v.get());
                self.res(&w, r, |_| "ok".into())
            }
            Op::Eval(f, a) => {
                let a: Vec<ValueType> = a.iter().map(|v| v.get()).collect();
                let mut t = String::new();
                let r = self.story.evaluate_function(f, Some(&a), &mut t);
                self.res(&w, r, |v| format!("{:?} printing {t:?}", v.as_ref().map(show)))
            }
            Op::Reset => {
                let r = self.story.reset_state();
                self.story.verif_set_seed(self.setup.seed);
                self.res(&w, r, |_| "ok".into())
            }
        };
        if !self.out_of_fuel
            && (self.log.borrow().iter().any(|l| l.contains(NO_FUEL))
                || self.story.get_current_errors().iter().any(|l| l.contains(NO_FUEL)))
        {
            self.out_of_fuel = true;
        }
        self.story.verif_set_fuel(None);
        r
    }

    pub fn vars(&self) -> BTreeMap<String, String> {
        self.prog
            .vars
            .iter()
            .map(|v| (v.clone(), self.story.get_variable(v).as_ref().map(show).unwrap_or("none".into())))
            .collect()
    }

    /// All the host can see now, variables included.
    pub fn see(&mut self) -> String {
        let mut s = String::new();
        s += &format!("can continue: {}\n", self.story.can_continue());
        s += &match self.story.get_current_text() {
            Ok(t) => format!("text: {t:?}\n"),
            Err(e) => format!("text: Err {e}\n"),
        };
        s += &match self.story.get_current_tags() {
            Ok(t) => format!("tags: {t:?}\n"),
            Err(e) => format!("tags: Err {e}\n"),
        };
        for c in self.story.get_current_choices() {
            s += &format!("choice {} {:?} tags {:?}\n", c.index.borrow(), c.text, c.tags);
        }
        s += &format!("errors: {:?}\n", self.story.get_current_errors());
        s += &format!("warnings: {:?}\n", self.story.get_current_warnings());
        s += &format!("path: {:?}\n", self.story.get_current_path());
        for (k, v) in self.vars() {
            s += &format!("{k}: {v}\n");
        }
        s
    }

    pub fn counts(&self) -> String {
        let mut s = String::new();
        for k in &self.prog.knots {
            if let Ok(c) = self.story.get_visit_count_at_path_string(k)
                && c != 0
            {
                s += &format!("visits of {k}: {c}\n");
            }
        }
        s
    }

    pub fn save(&self) -> J {
        match self.story.save_state() {
            Ok(s) => canon(&serde_json::from_str(&s).unwrap_or(J::String(s))),
            Err(e) => J::String(format!("Err {e}")),
        }
    }

    pub fn take_log(&self) -> Vec<String> {
        std::mem::take(&mut *self.log.borrow_mut())
    }

    pub fn full(&mut self) -> String {
        let s = self.see();
        format!("{s}{}save: {}\n", self.counts(), self.save())
    }
}

/// Values a host may give a variable of the same kind as the present one.
pub fn some_val(rng: &mut Rng, v: Option<ValueType>) -> Option<Val> {
    Some(match v? {
        ValueType::Int(_) => Val::I(rng.below(12) as i32 - 2),
        ValueType::Float(_) => Val::F(rng.below(9) as f32 / 4.0),
        ValueType::Bool(_) => Val::B(rng.chance(50)),
        ValueType::String(_) => Val::S(rng.pick(&["x", "", "long one", "é\"q\\"]).to_string()),
        _ => return None,
    })
}

#[derive(Clone, Copy)]
pub struct Mix {
    pub flows: usize,
    pub paths: usize,
    pub sets: usize,
    pub reload: usize,
    pub resets: usize,
}

pub const PLAIN: Mix = Mix { flows: 0, paths: 0, sets: 0, reload: 0, resets: 0 };
pub const BUSY: Mix = Mix { flows: 12, paths: 5, sets: 8, reload: 0, resets: 0 };

/// A random walk, as the operations it takes.
pub fn random_ops(prog: &Rc<Prog>, setup: &Setup, mix: Mix, len: usize, rng: &mut Rng) -> Vec<Op> {
    let mut ops = vec![];
    let Ok(mut h) = Host::new(prog, setup) else {
        return ops;
    };
    let flow_names = ["f1", "f2", "other flow"];
    while ops.len() < len {
        let op = if rng.chance(mix.flows) {
            match rng.below(6) {
                0 | 1 | 2 => Op::Switch(rng.pick(&flow_names).to_string()),
                3 | 4 => Op::SwitchDefault,
                _ => Op::Remove(rng.pick(&flow_names).to_string()),
            }
        } else if rng.chance(mix.paths) && !prog.knots.is_empty() {
            Op::Path(rng.pick(&prog.knots).clone(), rng.chance(80))
        } else if rng.chance(mix.sets) && !prog.vars.is_empty() {
            let v = rng.pick(&prog.vars).clone();
            match some_val(rng, h.story.get_variable(&v)) {
                Some(val) => Op::Set(v, val),
                None => continue,
            }
        } else if rng.chance(mix.reload) {
            Op::Reload
        } else if rng.chance(mix.resets) {
            Op::Reset
        } else if h.story.can_continue() {
            if rng.chance(8) { Op::Max } else { Op::Cont }
        } else {
            let n = h.story.get_current_choices().len();
            if n > 0 {
                Op::Choose(rng.below(n))
            } else if mix.paths > 0 && !prog.knots.is_empty() && rng.chance(80) {
                Op::Path(rng.pick(&prog.knots).clone(), true)
            } else if mix.flows > 0 && rng.chance(80) {
                Op::Switch(rng.pick(&flow_names).to_string())
            } else {
                break;
            }
        };
        h.apply(&op);
        if h.out_of_fuel {
            break;
        }
        ops.push(op);
    }
    ops
}

/// The walks along all the choices, until there are `max` of them.
pub fn choice_walks(prog: &Rc<Prog>, setup: &Setup, max: usize, max_len: usize) -> Vec<Vec<Op>> {
    let mut done = vec![];
    let mut todo: std::collections::VecDeque<Vec<usize>> = std::collections::VecDeque::new();
    todo.push_back(vec![]);
    let mut tries = 0;
    while let Some(picks) = todo.pop_front() {
        tries += 1;
        if done.len() >= max || tries > 3 * max {
            break;
        }
        let Ok(mut h) = Host::new(prog, setup) else {
            return done;
        };
        let mut ops = vec![];
        let mut it = picks.iter();
        let n = loop {
            while h.story.can_continue() && ops.len() < max_len && !h.out_of_fuel {
                let op = Op::Cont;
                h.apply(&op);
                ops.push(op);
            }
            if h.out_of_fuel {
                ops.pop();
                break 0;
            }
            let n = h.story.get_current_choices().len();
            match it.next() {
                Some(&i) if i < n => {
                    let op = Op::Choose(i);
                    h.apply(&op);
                    ops.push(op);
                }
                _ => break n,
            }
        };
        if n == 0 || ops.len() >= max_len {
            done.push(ops);
        } else {
            for i in 0..n {
                let mut p = picks.clone();
                p.push(i);
                todo.push_back(p);
            }
        }
    }
    // The ones that weren't followed to their end
    for picks in todo.into_iter().take(max.saturating_sub(done.len())) {
        let Ok(mut h) = Host::new(prog, setup) else {
            return done;
        };
        let mut ops = vec![];
        let mut it = picks.iter().copied().chain(std::iter::repeat(0));
        while ops.len() < max_len {
            let op = if h.story.can_continue() {
                Op::Cont
            } else {
                let n = h.story.get_current_choices().len();
                if n == 0 {
                    break;
                }
                Op::Choose(it.next().unwrap_or(0).min(n - 1))
            };
            h.apply(&op);
            if h.out_of_fuel {
                break;
            }
            ops.push(op);
        }
        done.push(ops);
    }
    done
}

pub fn diff(a: &str, b: &str) -> String {
    let (al, bl): (Vec<&str>, Vec<&str>) = (a.lines().collect(), b.lines().collect());
    let mut out = String::new();
    for i in 0..al.len().max(bl.len()) {
        let (x, y) = (al.get(i).unwrap_or(&"(nothing)"), bl.get(i).unwrap_or(&"(nothing)"));
        if x != y {
            let p = x.bytes().zip(y.bytes()).position(|(a, b)| a != b).unwrap_or(0).saturating_sub(60);
            let cut = |s: &str| s.chars().skip(p).take(400).collect::<String>();
            out += &format!("wanted: {}\n   got: {}\n", cut(x), cut(y));
            if out.len() > 2500 {
                break;
            }
        }
    }
    out
}
