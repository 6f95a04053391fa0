//! Random Ink programs.
use crate::core::*;

pub struct G {
    rng: Rng,
    /// How often, of a hundred, an operand is of the wrong kind
    pub wild: usize,
    pub externals: bool,
    knots: Vec<(String, usize)>,
    tuns: Vec<(String, usize)>,
    threads: Vec<(String, usize)>,
    funs: Vec<(String, Vec<bool>, T)>,
    temps: Vec<(String, T)>,
    labels: Vec<String>,
    fun_from: usize,
    uniq: usize,
    in_fun: bool,
    /// Nothing left to chance
    pub sober: bool,
    /// Odd characters in the text
    pub odd: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum T {
    I,
    F,
    B,
    S,
    L,
    D,
}

const WORDS: [&str; 14] =
    ["one", "two", "red fox", "quiet", "é à ü", "a \\\"b\\\"", "the end", "x", "12", "so it goes", "Dr. No", "日本", "back", "ok - then"];

impl G {
    pub fn new(seed: u64) -> G {
        G {
            rng: Rng::new(seed),
            wild: 0,
            externals: false,
            knots: vec![],
            tuns: vec![],
            threads: vec![],
            funs: vec![],
            temps: vec![],
            labels: vec![],
            fun_from: 0,
            uniq: 0,
            in_fun: false,
            sober: false,
            odd: false,
        }
    }

    fn p(&mut self, pct: usize) -> bool {
        self.rng.chance(pct)
    }

    fn n(&mut self, k: usize) -> usize {
        self.rng.below(k)
    }

    fn one<'a>(&mut self, v: &[&'a str]) -> &'a str {
        v[self.rng.below(v.len())]
    }

    fn var(&mut self, t: T) -> String {
        let temps: Vec<String> = self.temps.iter().filter(|x| x.1 == t).map(|x| x.0.clone()).collect();
        if !temps.is_empty() && self.p(40) {
            return self.rng.pick(&temps).clone();
        }
        let k = self.n(2);
        match t {
            T::I => format!("vi{k}"),
            T::F => "vf".into(),
            T::B => "vb".into(),
            T::S => format!("vs{k}"),
            T::L => format!("vl{k}"),
            T::D => "vd".into(),
        }
    }

    fn any(&mut self) -> T {
        *self.rng.pick(&[T::I, T::I, T::F, T::B, T::S, T::L])
    }

    fn place(&mut self) -> String {
        let mut v: Vec<String> = self.knots.iter().chain(&self.tuns).map(|k| k.0.clone()).collect();
        v.extend(self.labels.iter().cloned());
        self.rng.pick(&v).clone()
    }

    fn call(&mut self, t: Option<T>, depth: usize) -> Option<String> {
        if self.externals && !self.in_fun && self.p(25) && matches!(t, None | Some(T::I)) {
            let (a, b) = (self.ex(T::I, 0), self.ex(T::I, 0));
            return Some(match self.n(3) {
                0 => format!("safe({a}, {b})"),
                1 => format!("unsafe({a})"),
                _ => format!("note({a})"),
            });
        }
        let fs: Vec<_> = self.funs[self.fun_from.min(self.funs.len())..].iter().filter(|f| t.is_none_or(|t| f.2 == t)).cloned().collect();
        if fs.is_empty() {
            return None;
        }
        let f = self.rng.pick(&fs).clone();
        let mut args = vec![];
        for r in &f.1 {
            args.push(if *r { format!("vi{}", self.n(2)) } else { self.ex(T::I, depth.min(1)) });
        }
        Some(format!("{}({})", f.0, args.join(", ")))
    }

    pub fn ex(&mut self, t: T, depth: usize) -> String {
        let t = if self.wild > 0 && self.p(self.wild) { *self.rng.pick(&[T::I, T::F, T::B, T::S, T::L, T::D]) } else { t };
        if depth == 0 {
            return match t {
                T::I if self.p(50) => self.var(T::I),
                T::I if self.p(12) => self.place_count(),
                T::I => self.one(&["0", "1", "2", "3", "7", "10", "2147483647", "100000", "-1", "-5"]).into(),
                T::F if self.p(50) => self.var(T::F),
                T::F => self.one(&["0.5", "1.25", "3.0", "0.0", "-2.5"]).into(),
                T::B if self.p(50) => self.var(T::B),
                T::B => self.one(&["true", "false"]).into(),
                T::S if self.p(50) => self.var(T::S),
                T::S => format!("\"{}\"", self.one(&["", "a", "abc", "é", "x y", "12"])),
                T::L if self.p(60) => self.var(T::L),
                T::L => self.one(&["(aa, bb)", "(cc)", "()", "(dd, ff)", "(aa, ff)", "L0.aa", "ff", "(aa, bb, cc, dd, ee, ff)"]).into(),
                T::D => {
                    let p = self.place();
                    format!("-> {p}")
                }
            };
        }
        let d = depth - 1;
        if self.p(12)
            && let Some(c) = self.call(Some(t), d)
        {
            return c;
        }
        match t {
            T::I => match self.n(12) {
                0..=4 => {
                    let o = self.one(&["+", "-", "*", "+", "-", "%", "/"]);
                    let (a, b) = (self.ex(T::I, d), if matches!(o, "%" | "/") && self.wild == 0 { self.one(&["2", "3", "7"]).into() } else { self.ex(T::I, d) });
                    format!("({a} {o} {b})")
                }
                5 => format!("MIN({}, {})", self.ex(T::I, d), self.ex(T::I, d)),
                6 => format!("INT({})", self.ex(T::F, d)),
                7 => format!("{}({})", self.one(&["LIST_COUNT", "LIST_VALUE"]), self.ex(T::L, d)),
                8 if !self.sober => format!("RANDOM({}, {})", self.n(3), 3 + self.n(5)),
                9 => {
                    let p = self.place();
                    format!("TURNS_SINCE(-> {p})")
                }
                10 => self.one(&["CHOICE_COUNT()", "TURNS()"]).into(),
                _ => format!("-{}", self.ex(T::I, 0).trim_start_matches('-')),
            },
            T::F => match self.n(5) {
                0 | 1 => {
                    let (a, o, b) = (self.ex(T::F, d), self.one(&["+", "-", "*"]), self.ex(T::F, d));
                    format!("({a} {o} {b})")
                }
                2 => format!("FLOAT({})", self.ex(T::I, d)),
                3 => format!("{}({})", self.one(&["FLOOR", "CEILING"]), self.ex(T::F, d)),
                _ => format!("POW({}, 2)", self.ex(T::F, 0)),
            },
            T::B => match self.n(8) {
                0..=2 => {
                    let (a, o, b) = (self.ex(T::I, d), self.one(&["==", "!=", "<", ">", "<=", ">="]), self.ex(T::I, d));
                    format!("({a} {o} {b})")
                }
                3 => {
                    let (a, o, b) = (self.ex(T::B, d), self.one(&["&&", "||"]), self.ex(T::B, d));
                    format!("({a} {o} {b})")
                }
                4 => format!("not {}", self.ex(T::B, 0)),
                5 => {
                    let (a, o, b) = (self.ex(T::L, d), self.one(&["?", "!?", "==", "<", ">=", "!="]), self.ex(T::L, d));
                    format!("({a} {o} {b})")
                }
                6 => {
                    let (a, o, b) = (self.ex(T::S, d), self.one(&["==", "!=", "?"]), self.ex(T::S, d));
                    format!("({a} {o} {b})")
                }
                _ => {
                    let (a, b) = (self.ex(T::D, 0), self.ex(T::D, 0));
                    if self.wild > 0 { format!("({a} == {b})") } else { "(vi0 > 1)".into() }
                }
            },
            T::S => match self.n(3) {
                0 | 1 => format!("({} + {})", self.ex(T::S, d), self.ex(T::S, 0)),
                _ => {
                    let k = self.any();
                    format!("\"{} {{{}}}\"", self.one(&["in", "so", ""]), self.ex_no_quote(k))
                }
            },
            T::L => match self.n(8) {
                0..=3 => {
                    let (a, o, b) = (self.ex(T::L, d), self.one(&["+", "-", "^", "+"]), self.ex(T::L, d));
                    format!("({a} {o} {b})")
                }
                4 => format!("{}({})", self.one(&["LIST_ALL", "LIST_INVERT", "LIST_MIN", "LIST_MAX"]), self.ex(T::L, d)),
                5 => format!("LIST_RANGE({}, {}, {})", self.ex(T::L, d), self.n(3), self.n(9)),
                6 if !self.sober => format!("LIST_RANDOM({})", self.ex(T::L, d)),
                _ => format!("L{}({})", self.n(2), 1 + self.n(4)),
            },
            T::D => self.ex(T::D, 0),
        }
    }

    fn place_count(&mut self) -> String {
        self.place()
    }

    fn ex_no_quote(&mut self, t: T) -> String {
        self.var(if t == T::S { T::I } else { t })
    }

    fn words(&mut self) -> String {
        let mut w = self.one(&WORDS).replace("\\\"", "\"");
        if self.odd && self.p(40) {
            w += self.one(&["\u{1}", "\u{7f}", "\u{1f}x", "\u{b}", "\u{85}", "\u{2028}", "😀", "\\\\ back", "\u{c}", "\u{8}", "<tag>", "\"\"", "'", "\u{feff}", "\u{200b}"]);
        }
        let mut s = w;
        for _ in 0..self.n(4) {
            s += " ";
            s += &self.inline();
        }
        s
    }

    fn inline(&mut self) -> String {
        match self.n(12) {
            0..=3 => {
                let t = self.any();
                format!("{{{}}}", self.ex(t, 1))
            }
            4 => format!("{{{}{}|{}|{}}}", self.one(if self.sober { &["", "&", "!"] } else { &["", "&", "!", "~"] }), self.one(&WORDS), self.one(&["b", "", "{vi0}"]), self.one(&["c", "d d", ""])),
            5 => {
                let c = self.ex(T::B, 1);
                format!("{{{c}: {}|{}}}", self.one(&["yes", "", "si {vs0}"]), self.one(&["no", ""]))
            }
            6 => {
                let c = self.ex(T::B, 1);
                format!("{{{c}:maybe}}")
            }
            7 => match self.call(None, 1) {
                Some(c) => format!("{{{c}}}"),
                None => "none".into(),
            },
            8 => format!("{{{}}}", self.place_count()),
            _ => self.one(&["and", "then", "so", "it's", "a, b", "..."]).into(),
        }
    }

    fn odd_tag(&mut self) -> &'static str {
        ["# say \"hi\"", "# c:\\\\dir", "# \u{1} bell", "# a, b: c", "# é 日本", "# \"", "# tab\there"][self.n(7)]
    }

    fn line(&mut self) -> String {
        let mut s = self.words();
        match self.n(10) {
            0 => s += "<>",
            1 => s = format!("<> {s}"),
            2 | 3 => {
                s += " # tag ";
                if self.p(50) {
                    s += &format!("{{vi{}}}", self.n(2));
                }
                if self.p(30) {
                    s += " # other";
                }
                if self.odd && self.p(40) {
                    s += self.odd_tag();
                }
            }
            _ => {}
        }
        s
    }

    fn stmt(&mut self, out: &mut String, ind: &str, deep: usize) {
        match self.n(if self.in_fun { 9 } else { 13 }) {
            0..=3 => {
                let l = self.line();
                out.push_str(&format!("{ind}{l}\n"));
            }
            4 | 5 => {
                let t = if self.wild > 0 && self.p(5) { T::D } else { self.any() };
                let e = self.ex(t, 2);
                let v = self.var(t);
                let o = if matches!(t, T::I | T::L | T::S) { self.one(&["=", "+=", "="]) } else { "=" };
                let o = if t == T::L && self.p(30) { "-=" } else { o };
                out.push_str(&format!("{ind}~ {v} {o} {e}\n"));
            }
            6 => {
                if self.p(50) || deep == 0 {
                    let t = self.any();
                    let e = self.ex(t, 2);
                    self.uniq += 1;
                    let n = format!("t{}", self.uniq);
                    out.push_str(&format!("{ind}~ temp {n} = {e}\n"));
                    // It's known in the rest of the same knot only if it's made for sure
                    if ind.len() <= 2 {
                        self.temps.push((n, t));
                    }
                } else {
                    let v = self.n(2);
                    out.push_str(&format!("{ind}~ vi{v}{}\n", self.one(&["++", "--"])));
                }
            }
            7 => {
                if let Some(c) = self.call(None, 1) {
                    out.push_str(&format!("{ind}~ {c}\n"));
                }
            }
            8 if deep > 0 => {
                let kept = self.temps.len();
                if self.p(60) {
                    let c = self.ex(T::B, 1);
                    out.push_str(&format!("{ind}{{ {c}:\n"));
                    let i2 = format!("{ind}    ");
                    self.stmt(out, &i2, deep - 1);
                    if self.p(50) {
                        out.push_str(&format!("{ind}- else:\n"));
                        self.stmt(out, &i2, deep - 1);
                    }
                    out.push_str(&format!("{ind}}}\n"));
                } else if self.p(60) {
                    out.push_str(&format!("{ind}{{ {}:\n", self.one(if self.sober { &["stopping", "cycle", "once"] } else { &["stopping", "cycle", "once", "shuffle", "shuffle once"] })));
                    for _ in 0..2 + self.n(2) {
                        let l = self.words();
                        out.push_str(&format!("{ind}- {l}\n"));
                    }
                    out.push_str(&format!("{ind}}}\n"));
                } else {
                    let v = self.var(T::I);
                    out.push_str(&format!("{ind}{{ {v}:\n{ind}- 0: {}\n{ind}- 1: {}\n{ind}- else: {}\n{ind}}}\n", self.one(&WORDS), self.one(&["{vf}", "k"]), self.one(&["e", "{vl0}"])));
                }
                self.temps.truncate(kept);
            }
            9 | 10 if !self.tuns.is_empty() => {
                let t = self.rng.pick(&self.tuns).clone();
                let a = self.args(t.1);
                if self.wild > 0 && self.p(20) {
                    out.push_str(&format!("{ind}-> vd ->\n"));
                } else {
                    out.push_str(&format!("{ind}-> {}{a} ->\n", t.0));
                }
            }
            11 if !self.threads.is_empty() => {
                let t = self.rng.pick(&self.threads).clone();
                let a = self.args(t.1);
                out.push_str(&format!("{ind}<- {}{a}\n", t.0));
            }
            _ => {
                let l = self.line();
                out.push_str(&format!("{ind}{l}\n"));
            }
        }
    }

    fn args(&mut self, n: usize) -> String {
        if n == 0 {
            return String::new();
        }
        let v: Vec<String> = (0..n).map(|_| self.ex(T::I, 1)).collect();
        format!("({})", v.join(", "))
    }

    /// Somewhere to go: forwards only, unless a choice came before.
    fn leave(&mut self, after: usize, back: bool) -> String {
        let lo = if back { 0 } else { after };
        if lo >= self.knots.len() || self.p(12) {
            return self.one(&["END", "DONE", "END"]).into();
        }
        if self.wild > 0 && back && self.p(12) {
            return "vd".into();
        }
        let k = lo + self.n(self.knots.len() - lo);
        let (name, n) = self.knots[k].clone();
        let a = self.args(n);
        format!("{name}{a}")
    }

    fn choices(&mut self, out: &mut String, level: usize, after: usize, knot: &str, tun: bool) {
        let stars = |c: &str, l: usize| vec![c; l].join(" ");
        let n = 1 + self.n(3);
        for i in 0..n {
            let mark = if self.p(35) { "+" } else { "*" };
            let mut c = stars(mark, level);
            if self.p(20) {
                self.uniq += 1;
                c += &format!(" (l{})", self.uniq);
                let l = format!("{knot}.l{}", self.uniq);
                self.labels.push(l);
            }
            if self.p(25) {
                c += &format!(" {{{}}}", self.ex(T::B, 1));
            }
            let (a, b, d) = (self.one(&WORDS).replace("\\\"", "\""), self.words(), self.words());
            c += " ";
            c += &match self.n(4) {
                0 => format!("{a} [{b}] {d}"),
                1 => format!("[{b}]"),
                2 => format!("{b}"),
                _ => format!("[{a} {{vi0}}] {d}"),
            };
            if self.p(20) {
                c += " # ctag";
            }
            if self.odd && self.p(40) {
                let tag = self.odd_tag();
                if self.p(50) && c.ends_with(']') {
                    c.pop();
                    c += &format!(" {tag}]");
                } else {
                    c += &format!(" {tag}");
                }
            }
            out.push_str(&c);
            out.push('\n');
            let kept = self.temps.len();
            let ind = "    ".repeat(level);
            for _ in 0..self.n(3) {
                self.stmt(out, &ind, 1);
            }
            if level < 2 && self.p(25) {
                self.choices(out, level + 1, after, knot, tun);
            }
            self.temps.truncate(kept);
            if !tun && self.p(50) {
                let t = self.leave(after, true);
                out.push_str(&format!("{ind}-> {t}\n"));
            }
            let _ = i;
        }
        if self.p(25) {
            out.push_str(&format!("{} -> \n", stars("*", level)));
            let ind = "    ".repeat(level);
            self.stmt(out, &ind, 0);
        }
        let mut g = stars("-", level);
        if self.p(25) {
            self.uniq += 1;
            g += &format!(" (g{})", self.uniq);
            let l = format!("{knot}.g{}", self.uniq);
            self.labels.push(l);
        }
        let w = self.words();
        out.push_str(&format!("{g} {w}\n"));
    }

    fn body(&mut self, out: &mut String, after: usize, knot: &str, tun: bool, lines: usize) {
        for _ in 0..1 + self.n(lines) {
            self.stmt(out, "", 2);
        }
        if self.p(75) {
            self.choices(out, 1, after, knot, tun);
            for _ in 0..self.n(3) {
                self.stmt(out, "", 1);
            }
        }
    }

    pub fn story(&mut self) -> String {
        let mut out = String::new();
        if self.p(40) {
            out += "# global tag\n# author: me\n";
        }
        out += "VAR vi0 = 3\nVAR vi1 = 0\nVAR vf = 1.5\nVAR vb = true\nVAR vs0 = \"text\"\nVAR vs1 = \"\"\n";
        out += "LIST L0 = aa, (bb), cc = 5\nLIST L1 = dd, ee, (ff)\nVAR vl0 = (aa, ff)\nVAR vl1 = ()\nVAR vd = -> k0\n";
        if self.externals {
            out += "EXTERNAL safe(a, b)\nEXTERNAL unsafe(a)\nEXTERNAL note(a)\n";
        }
        let nk = 2 + self.n(3);
        for i in 0..nk {
            let a = if i > 0 && self.p(25) { 1 } else { 0 };
            let name = if i > 0 { self.odd_name("k", i) } else { "k0".to_string() };
            self.knots.push((name, a));
        }
        for i in 0..1 + self.n(2) {
            let a = self.n(2);
            let name = self.odd_name("tu", i);
            self.tuns.push((name, a));
        }
        for i in 0..1 + self.n(2) {
            let a = self.n(2);
            let name = self.odd_name("th", i);
            self.threads.push((name, a));
        }
        for i in 0..2 + self.n(3) {
            let args = (0..self.n(3)).map(|_| self.p(30)).collect();
            let t = *self.rng.pick(&[T::I, T::I, T::S, T::B, T::L]);
            let name = self.odd_name("f", i);
            self.funs.push((name, args, t));
        }
        out += "-> k0\n";
        let (knots, tuns, threads, funs) = (self.knots.clone(), self.tuns.clone(), self.threads.clone(), self.funs.clone());
        let params = |n: usize| if n == 0 { String::new() } else { format!("({})", (0..n).map(|i| format!("p{i}")).collect::<Vec<_>>().join(", ")) };
        for (i, (k, a)) in knots.iter().enumerate() {
            self.temps = (0..*a).map(|i| (format!("p{i}"), T::I)).collect();
            out += &format!("=== {k}{} ===\n", params(*a));
            let had = out.len();
            self.body(&mut out, i + 1, k, false, 4);
            let chosen = out[had..].contains("\n*") || out[had..].contains("\n+");
            if self.p(20) {
                out += &format!("-> {k}.st\n= st\n");
                self.labels.push(format!("{k}.st"));
                self.temps.clear();
                self.body(&mut out, i + 1, &format!("{k}.st"), false, 2);
            }
            if self.wild > 0 && self.p(12) {
                continue;
            }
            let to = self.leave(i + 1, chosen && self.wild == 0 && false);
            out += &format!("-> {to}\n");
        }
        for (k, a) in &tuns {
            self.temps = (0..*a).map(|i| (format!("p{i}"), T::I)).collect();
            out += &format!("=== {k}{} ===\n", params(*a));
            let (kept, threads) = (std::mem::take(&mut self.tuns), std::mem::take(&mut self.threads));
            self.body(&mut out, 99, k, true, 2);
            self.tuns = kept;
            self.threads = threads;
            if self.p(15) {
                let to = self.leave(0, true);
                out += &format!("->-> {to}\n");
            } else {
                out += "->->\n";
            }
        }
        for (k, a) in &threads {
            self.temps = (0..*a).map(|i| (format!("p{i}"), T::I)).collect();
            out += &format!("=== {k}{} ===\n", params(*a));
            let (kept, threads) = (std::mem::take(&mut self.tuns), std::mem::take(&mut self.threads));
            self.body(&mut out, 99, k, false, 1);
            self.tuns = kept;
            self.threads = threads;
            out += "-> DONE\n";
        }
        self.in_fun = true;
        for (i, (f, refs, t)) in funs.iter().enumerate() {
            self.fun_from = i + 1;
            self.temps = refs.iter().enumerate().filter(|(_, r)| !**r).map(|(i, _)| (format!("p{i}"), T::I)).collect();
            let ps: Vec<String> = refs.iter().enumerate().map(|(i, r)| if *r { format!("ref p{i}") } else { format!("p{i}") }).collect();
            out += &format!("=== function {f}({}) ===\n", ps.join(", "));
            for (i, r) in refs.iter().enumerate() {
                if *r {
                    out += &format!("~ p{i} = p{i} + {}\n", 1 + self.n(3));
                }
            }
            for _ in 0..self.n(3) {
                self.stmt(&mut out, "", 1);
            }
            let e = self.ex(*t, 1);
            out += &format!("~ return {e}\n");
        }
        if self.externals {
            out += "=== function safe(a, b) ===\n~ return a + b\n=== function unsafe(a) ===\n~ return a * 2\n=== function note(a) ===\n~ return 0\n";
        }
        out
    }
}

impl G {
    /// Mostly plain; names that are almost numbers now and then
    fn odd_name(&mut self, base: &str, i: usize) -> String {
        let k = match base {
            "k" => 1,
            "tu" => 2,
            "th" => 3,
            _ => 4,
        };
        match self.n(12) {
            0 => format!("_{k}{i}"),
            1 => format!("{k}{i}_"),
            2 => format!("{k}_{i}"),
            3 => format!("{k}{i}{base}"),
            _ => format!("{base}{i}"),
        }
    }
}

pub fn random_source(seed: u64, wild: usize, externals: bool) -> String {
    let mut g = G::new(seed);
    g.wild = wild;
    g.externals = externals;
    g.story()
}

/// A random program our compiler takes.
pub fn random_prog(seed: u64, wild: usize, externals: bool) -> Option<Prog> {
    let src = random_source(seed, wild, externals);
    let json = crate::play::compile("gen.ink", &src).ok()?;
    Prog::new(&format!("gen-{wild}-{externals}-{seed}"), &json)
}

/// Some heap up tunnels without end: they tell nothing more and take very long
pub fn quick_prog(seed: u64, wild: usize, externals: bool) -> Option<Prog> {
    let p = std::rc::Rc::new(random_prog(seed, wild, externals)?);
    let slow = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let began = std::time::Instant::now();
        let Ok(mut h) = crate::core::Host::new(&p, &crate::core::Setup::default()) else { return false };
        for _ in 0..60 {
            let op = if h.story.can_continue() {
                crate::core::Op::Cont
            } else if !h.story.get_current_choices().is_empty() {
                crate::core::Op::Choose(0)
            } else {
                break;
            };
            h.apply(&op);
            if began.elapsed().as_millis() > 400 {
                return true;
            }
        }
        false
    }));
    if matches!(slow, Ok(true)) {
        return None;
    }
    std::rc::Rc::try_unwrap(p).ok()
}

pub fn odd_source(seed: u64, wild: usize) -> String {
    let mut g = G::new(seed);
    g.wild = wild;
    g.externals = seed % 3 == 0;
    g.sober = true;
    g.odd = seed % 2 == 0;
    g.story()
}
