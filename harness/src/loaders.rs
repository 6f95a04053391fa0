//! C14: both loaders build the same story. C15: malformed input is rejected.
use std::rc::Rc;

use bladeink::story::Story;
use serde_json::{Map, Value as J, json};

use crate::core::*;
use crate::play::*;

// ---------------------------------------------------------------- writing JSON in any layout

fn write_str(s: &str, rng: &mut Rng, level: usize, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        let esc = rng.chance(level);
        match c {
            '"' | '\\' if !esc || rng.chance(50) => {
                out.push('\\');
                out.push(c);
            }
            '\n' if rng.chance(60) => out.push_str("\\n"),
            '\r' if rng.chance(60) => out.push_str("\\r"),
            '\t' if rng.chance(60) => out.push_str("\\t"),
            '\u{8}' if rng.chance(60) => out.push_str("\\b"),
            '\u{c}' if rng.chance(60) => out.push_str("\\f"),
            '/' if esc && rng.chance(70) => out.push_str("\\/"),
            c if (c as u32) < 0x20 || c == '"' || c == '\\' || esc => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    if rng.chance(50) {
                        out.push_str(&format!("\\u{u:04x}"));
                    } else {
                        out.push_str(&format!("\\u{u:04X}"));
                    }
                }
            }
            c => out.push(c),
        }
    }
    out.push('"');
}

fn ws(rng: &mut Rng, level: usize, out: &mut String) {
    if rng.chance(level) {
        for _ in 0..1 + rng.below(3) {
            out.push(*rng.pick(&[' ', '\n', '\t', '\r', ' ']));
        }
    }
}

fn write_num(n: &serde_json::Number, rng: &mut Rng, level: usize, out: &mut String) {
    let plain = n.to_string();
    if n.is_f64() && rng.chance(level) {
        let f = n.as_f64().unwrap_or(0.0);
        let s = match rng.below(4) {
            0 => format!("{f:e}"),
            1 => format!("{f:E}"),
            2 => {
                let e = format!("{f:e}");
                match e.split_once('e') {
                    Some((m, x)) if !x.starts_with('-') => format!("{m}e+{x}"),
                    _ => e,
                }
            }
            _ => format!("{plain}0"),
        };
        // It must stay a float, and the same one
        if (s.contains('.') || s.contains('e') || s.contains('E')) && s.parse::<f64>() == Ok(f) && serde_json::from_str::<J>(&s).is_ok_and(|j| j.is_f64()) {
            out.push_str(&s);
            return;
        }
    }
    out.push_str(&plain);
}

pub struct Layout {
    pub space: usize,
    pub escape: usize,
    pub numbers: usize,
    pub shuffle: bool,
}

fn write_json(j: &J, rng: &mut Rng, l: &Layout, top: bool, out: &mut String) {
    ws(rng, l.space, out);
    match j {
        J::String(s) => write_str(s, rng, l.escape, out),
        J::Number(n) => write_num(n, rng, l.numbers, out),
        J::Array(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                write_json(x, rng, l, false, out);
            }
            ws(rng, l.space, out);
            out.push(']');
        }
        J::Object(o) => {
            out.push('{');
            let mut es: Vec<(&String, &J)> = o.iter().collect();
            if top && l.shuffle {
                for i in (1..es.len()).rev() {
                    es.swap(i, rng.below(i + 1));
                }
            }
            for (i, (k, v)) in es.into_iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                ws(rng, l.space, out);
                write_str(k, rng, l.escape / 2, out);
                ws(rng, l.space, out);
                out.push(':');
                write_json(v, rng, l, false, out);
            }
            ws(rng, l.space, out);
            out.push('}');
        }
        x => out.push_str(&x.to_string()),
    }
    ws(rng, l.space, out);
}

const TEXTS: [&str; 22] = [
    "\u{0}", "\u{1}\u{1f}", "\u{8}\u{c}\r\n\t", "\u{7f}\u{80}\u{85}", "é", "ß∂", "日本語", "\u{ffff}", "\u{d7ff}\u{e000}", "😀", "a😀b\u{10ffff}", "\u{2028}\u{2029}", "\"", "\\", "\\\\\"", "/", "\\u0041", "</script>",
    "\u{feff}x", "e\u{301}", "\\n", "  \t ",
];

/// Every text, number and kind of object a loader may meet, in a compiled story.
fn kinds_story(rng: &mut Rng) -> J {
    let text = |rng: &mut Rng| -> String {
        let mut s = String::new();
        for _ in 0..1 + rng.below(4) {
            s += *rng.pick(&TEXTS);
            if rng.chance(30) {
                s.push(char::from_u32(rng.below(0x11_0000) as u32).unwrap_or('x'));
            }
            if rng.chance(30) {
                s += "word ";
            }
        }
        s
    };
    let num = |rng: &mut Rng| -> J {
        match rng.below(14) {
            0 => json!(0),
            1 => json!(-1),
            2 => json!(i32::MAX),
            3 => json!(i32::MIN),
            4 => json!(1.5),
            5 => json!(-0.25),
            6 => json!(1e10),
            7 => json!(3.0),
            8 => json!(0.1),
            9 => json!(1e-7),
            10 => json!(123456789.125),
            11 => json!(3.4e38),
            12 => json!(rng.next() as i32),
            _ => json!((rng.next() as i32) as f64 / 1000.0),
        }
    };
    let lists = ["L", "Möbel", "a b"];
    let mut c = vec![];
    for _ in 0..3 + rng.below(12) {
        match rng.below(12) {
            0 | 1 => {
                let mut s = text(rng);
                s.insert(0, '^');
                c.push(J::String(s));
            }
            2 => c.push(json!("\n")),
            3 => {
                c.push(json!("ev"));
                c.push(num(rng));
                c.push(json!("out"));
                c.push(json!("/ev"));
            }
            4 => {
                c.push(json!("ev"));
                c.push(json!("str"));
                let t = text(rng);
                c.push(json!(format!("^{t}")));
                c.push(json!("/str"));
                c.push(json!("out"));
                c.push(json!("/ev"));
            }
            5 => {
                c.push(json!("#"));
                let t = text(rng);
                c.push(json!(format!("^{t}")));
                c.push(json!("/#"));
            }
            6 => c.push(json!("<>")),
            7 => {
                c.push(json!("ev"));
                let l = *rng.pick(&lists);
                c.push(json!({"list": {format!("{l}.one"): 1, format!("{l}.two"): 2}}));
                c.push(json!("out"));
                c.push(json!("/ev"));
            }
            8 => {
                c.push(json!("ev"));
                c.push(json!({"list": {}, "origins": [*rng.pick(&lists)]}));
                c.push(json!("LIST_ALL"));
                c.push(json!("out"));
                c.push(json!("/ev"));
            }
            9 => {
                c.push(json!("ev"));
                c.push(json!(rng.chance(50)));
                c.push(json!({"temp=": "t"}));
                c.push(json!({"VAR?": "v"}));
                c.push(json!("out"));
                c.push(json!({"VAR?": "t"}));
                c.push(json!("out"));
                c.push(num(rng));
                c.push(json!({"VAR=": "v", "re": true}));
                c.push(json!({"^->": "0"}));
                c.push(json!("pop"));
                c.push(json!({"^var": "v", "ci": -1}));
                c.push(json!("pop"));
                c.push(json!("/ev"));
            }
            10 => {
                let mut m = Map::new();
                m.insert("#n".into(), json!(format!("n{}", c.len())));
                if rng.chance(50) {
                    m.insert("#f".into(), json!(rng.below(8)));
                }
                if rng.chance(50) {
                    m.insert("named".into(), json!([format!("^{}", rng.pick(&TEXTS)), null]));
                }
                let t = text(rng);
                c.push(json!([format!("^{t}"), J::Object(m)]));
            }
            _ => c.push(json!([format!("^{}", rng.pick(&TEXTS)), ["^deep", {"#f": 1}], null])),
        }
    }
    if rng.chance(50) {
        c.push(json!({"*": "0.c-0", "flg": 0}));
    }
    c.push(json!("end"));
    let mut named = Map::new();
    named.insert("c-0".into(), json!(["^chosen", "\n", "end", {"#f": 5}]));
    if rng.chance(50) {
        let t = text(rng);
        named.insert("clé \u{1F600}".into(), json!([format!("^{t}"), null]));
    }
    c.push(J::Object(named));
    let v = num(rng);
    let gs = text(rng);
    let gd = json!(["ev", v, {"VAR=": "v"}, "str", format!("^{gs}"), "/str", {"VAR=": "s"}, "/ev", "end", null]);
    let mut defs = Map::new();
    for l in lists {
        defs.insert(l.into(), json!({"one": 1, "two": 2, "thrée": if rng.chance(50) { 3 } else { -7 }}));
    }
    json!({"inkVersion": 21, "root": [c, "done", {"global decl": gd}], "listDefs": J::Object(defs)})
}

/// The listing, with the JSON in it in an order of its own
fn settled(l: &str) -> String {
    let Some(at) = l.find(" Ok(\"") else { return l.to_string() };
    let mut raw = String::new();
    let mut it = l[at + 5..].chars();
    while let Some(c) = it.next() {
        match c {
            '"' => break,
            '\\' => match it.next() {
                Some('n') => raw.push('\n'),
                Some('t') => raw.push('\t'),
                Some('r') => raw.push('\r'),
                Some('0') => raw.push('\0'),
                Some('u') => {
                    let hex: String = it.by_ref().skip(1).take_while(|c| *c != '}').collect();
                    raw.push(u32::from_str_radix(&hex, 16).ok().and_then(char::from_u32).unwrap_or('?'));
                }
                Some(c) => raw.push(c),
                None => {}
            },
            c => raw.push(c),
        }
    }
    match serde_json::from_str::<J>(&raw) {
        Ok(j) => format!("{} {}", &l[..at], canon(&j)),
        Err(_) => l.to_string(),
    }
}

/// All there is to know of a story, as a loader made it
fn known(p: &str, deep: bool) -> String {
    match Story::new(p) {
        Err(e) => format!("Err {}", e.to_string().chars().take(30).collect::<String>()),
        Ok(s) => {
            let list = s.verif_content_listing().iter().map(|l| settled(l)).collect::<Vec<_>>().join("\n");
            let tags = format!("{:?}", s.get_global_tags().map_err(|e| e.to_string()));
            let mut out = format!("{list}\n{tags}\n");
            if deep && let Some(p) = Prog::new("x", p) {
                let p = Rc::new(p);
                let setup = Setup::default();
                for ops in choice_walks(&p, &setup, 3, 25) {
                    out += &transcript(&p, &setup, &ops);
                }
            }
            out
        }
    }
}

fn sources(r: &Report) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = own().into_iter().chain(corpus()).map(|p| (p.name, p.json)).collect();
    for i in 0..r.n(60, 600) as u64 {
        v.push((format!("kinds{i}"), kinds_story(&mut Rng::new(r.seed * 3331 + i)).to_string()));
    }
    for i in 0..r.n(20, 200) as u64 {
        if let Some(p) = crate::ink::random_prog(r.seed * 99_991 + i, 0, true) {
            v.push((p.name, p.json));
        }
    }
    v
}

fn variants(name: &str, text: &str, r: &Report) -> Vec<(String, String)> {
    let mut out = vec![(format!("{name} as is"), text.to_string())];
    let Ok(j) = serde_json::from_str::<J>(text) else { return out };
    let big = text.len() > 60_000;
    for (k, l) in [
        Layout { space: 30, escape: 0, numbers: 0, shuffle: false },
        Layout { space: 0, escape: 15, numbers: 50, shuffle: false },
        Layout { space: 20, escape: 90, numbers: 90, shuffle: true },
        Layout { space: 60, escape: 5, numbers: 30, shuffle: true },
    ]
    .iter()
    .enumerate()
    .take(if big { 2 } else { 4 })
    {
        for again in 0..r.n(1, 3) as u64 {
            let mut s = String::new();
            write_json(&j, &mut Rng::new(r.seed * 17 + k as u64 + again * 1009 + text.len() as u64), l, true, &mut s);
            out.push((format!("{name} layout {k}.{again}"), s));
        }
    }
    if let Ok(p) = serde_json::to_string_pretty(&j) {
        out.push((format!("{name} pretty"), p));
    }
    out
}

pub fn c14_lines(r: &Report) -> Vec<String> {
    use std::hash::{DefaultHasher, Hash, Hasher};
    let mut out = vec![];
    for (name, text) in sources(r) {
        for (vn, t) in variants(&name, &text, r) {
            let k = known(&t, vn.ends_with("as is") || vn.ends_with("layout 2.0"));
            let mut h = DefaultHasher::new();
            k.hash(&mut h);
            // What differs should be seen
            let shown = if k.len() < 6000 { k } else { String::new() };
            out.push(format!("{vn} {:016x} {shown}", h.finish()));
        }
    }
    out
}

pub fn c14(r: &mut Report) {
    if r.round == 0 && shard().0 == 0 {
        crate::builds::compare(r, "C14", "the loaders build different stories");
    }
    // Whatever its layout, it is the same story, whichever the loader
    let mut all = sources(r);
    let mut rng = Rng::new(r.seed);
    for i in (1..all.len()).rev() {
        all.swap(i, rng.below(i + 1));
    }
    for (name, text) in mine(all) {
        if r.past(0.9) {
            return;
        }
        let mut want: Option<String> = None;
        for (vn, t) in variants(&name, &text, r) {
            r.case(&vn, || json!({"json": if t.len() < 20_000 { t.clone() } else { vn.clone() }}), |r| {
                let k = known(&t, false);
                r.note(&k);
                let [a, b] = bladeink::verif::listings(&t).map(|l| l.map(|l| l.iter().map(|x| settled(x)).collect::<Vec<_>>().join("\n")));
                match (&a, &b) {
                    (Ok(a), Ok(b)) if a != b => r.fail("the loaders build different stories", &vn, diff(a, b), J::Null),
                    (Ok(_), Err(e)) | (Err(e), Ok(_)) => r.fail("one of the loaders refuses a story", &vn, e.clone(), J::Null),
                    _ => {}
                }
                match &want {
                    None => {
                        if k.starts_with("Err") {
                            r.fail("a well-formed story is refused", &vn, k.clone(), J::Null);
                        }
                        want = Some(k)
                    }
                    Some(w) if *w != k => r.fail("the layout changes the story", &vn, diff(w, &k), J::Null),
                    _ => {}
                }
            });
        }
    }
}

// ---------------------------------------------------------------- C15


fn count(j: &J) -> usize {
    1 + match j {
        J::Array(a) => a.iter().map(count).sum(),
        J::Object(o) => o.values().map(count).sum(),
        _ => 0,
    }
}

/// Changes the n-th node
fn at(j: &mut J, n: &mut usize, f: &mut dyn FnMut(&mut J)) -> bool {
    if *n == 0 {
        f(j);
        return true;
    }
    *n -= 1;
    match j {
        J::Array(a) => a.iter_mut().any(|x| at(x, n, f)),
        J::Object(o) => o.values_mut().any(|x| at(x, n, f)),
        _ => false,
    }
}

fn odd(rng: &mut Rng) -> J {
    match rng.below(44) {
        0 => J::Null,
        1 => json!(true),
        2 => json!(0),
        3 => json!(-1),
        4 => json!(1e300),
        5 => json!(i64::MAX),
        6 => json!(i64::MIN),
        7 => json!(u64::MAX),
        8 => json!(""),
        9 => json!("^"),
        10 => json!([]),
        11 => json!({}),
        12 => json!([[[]]]),
        13 => json!([null]),
        14 => json!("unknown token"),
        15 => json!({"list": {}}),
        16 => json!({"list": 5}),
        17 => json!({"->": 5}),
        18 => json!({"->": "a.b.c"}),
        19 => json!({"*": "x", "flg": 9999}),
        20 => json!({"VAR=": 1}),
        21 => json!({"x()": "f", "exArgs": -1}),
        22 => json!({"^var": "a", "ci": 1e20}),
        23 => json!({"#": []}),
        24 => json!({"^->": null}),
        25 => json!(2147483648u64),
        26 => json!(-2147483649i64),
        27 => json!("->"),
        28 => json!({"f()": ""}),
        29 => json!({"->t->": "."}),
        30 => json!({"CNT?": {}}),
        31 => json!(["ev", {"#f": -1}]),
        32 => json!([{"#n": 4}]),
        33 => json!({"list": {"nodot": 1}}),
        34 => json!({"list": {"a.b": "x"}, "origins": [1]}),
        35 => json!({"origins": []}),
        36 => json!(""),
        37 => json!({"x()": "f", "exArgs": 99999999999u64}),
        38 => json!({"->": "a", "var": 3, "c": "no"}),
        39 => json!({"temp=": "t", "re": "x"}),
        40 => json!("é"),
        41 => json!("99999999999999999999.^.^.^"),
        42 => json!({"text": "t", "index": 0, "originalChoicePath": "0", "originalThreadIndex": 0, "targetPath": ".^"}),
        _ => json!(" "),
    }
}

fn mutate(j: &mut J, rng: &mut Rng) {
    let n = count(j);
    for _ in 0..1 + rng.below(3) {
        let mut k = rng.below(n.max(1));
        let pick = rng.below(9);
        let val = odd(rng);
        let mut small = Rng::new(rng.next());
        at(j, &mut k, &mut |x| match (pick, &mut *x) {
            (0..=3, x) => *x = val.clone(),
            (4, J::Array(a)) if !a.is_empty() => {
                let i = small.below(a.len());
                a.remove(i);
            }
            (5, J::Array(a)) => {
                let i = small.below(a.len() + 1);
                a.insert(i, val.clone());
            }
            (4..=6, J::Object(o)) if !o.is_empty() => {
                let i = small.below(o.len());
                if let Some(k) = o.keys().nth(i).cloned() {
                    o.remove(&k);
                }
            }
            (7, J::Object(o)) => {
                let keys = ["#n", "#f", "list", "re", "c", "ci", "flg", "exArgs", "origins", "var", "->", "threads", "x.y", "callstack"];
                o.insert(small.pick(&keys).to_string(), val.clone());
            }
            (8, J::Object(o)) if !o.is_empty() => {
                let i = small.below(o.len());
                if let Some(k) = o.keys().nth(i).cloned()
                    && let Some(v) = o.remove(&k)
                {
                    o.insert(format!("{k}x"), v);
                }
            }
            (_, J::Number(_)) => *x = json!([-1, i64::MAX, 2147483648i64, -2147483649i64, 65536, 1000000000i64][small.below(6)]),
            (_, J::String(s)) => {
                let mut t: Vec<char> = s.chars().collect();
                match small.below(3) {
                    0 => t.truncate(small.below(t.len() + 1)),
                    1 => t.insert(small.below(t.len() + 1), *small.pick(&['.', '^', '-', 'é', '0', '>', '\u{0}'])),
                    _ => t.reverse(),
                }
                *s = t.into_iter().collect();
            }
            (_, x) => *x = val.clone(),
        });
    }
}

fn garble(s: &str, rng: &mut Rng) -> String {
    let mut b: Vec<char> = s.chars().collect();
    for _ in 0..1 + rng.below(3) {
        let i = rng.below(b.len() + 1);
        match rng.below(5) {
            0 => b.truncate(i),
            1 if i < b.len() => {
                b.remove(i);
            }
            2 => b.insert(i, *rng.pick(&['"', '{', '}', '[', ']', ',', ':', '\\', '0', '-', 'e', '.', 't', 'n', '\u{0}', 'é', ' ', '/', 'u'])),
            3 if i < b.len() => b[i] = *rng.pick(&['"', '{', '}', '[', ']', ',', ':', '\\', '9', '-', 'E', '.', 'f']),
            _ => {
                let k = rng.below(b.len() + 1);
                let (x, y) = (i.min(k), i.max(k));
                if y - x < 4000 {
                    let part: Vec<char> = b[x..y].to_vec();
                    b.splice(x..x, part);
                }
            }
        }
    }
    b.into_iter().collect()
}

fn nests() -> Vec<(String, String)> {
    let mut out = vec![];
    for n in [100usize, 127, 128, 129, 1000, 20_000, 300_000] {
        let (open, close) = ("[".repeat(n), "]".repeat(n));
        out.push((format!("{n} arrays"), format!("{open}{close}")));
        out.push((format!("{n} open arrays"), open.clone()));
        out.push((format!("{n} objects"), format!("{}1{}", "{\"a\":".repeat(n), "}".repeat(n))));
        out.push((format!("{n} containers"), format!("{{\"inkVersion\":21,\"root\":{}null{},\"listDefs\":{{}}}}", "[".repeat(n), "]".repeat(n))));
        out.push((format!("{n} containers with terminators"), format!("{{\"inkVersion\":21,\"root\":{}\"x\"{},\"listDefs\":{{}}}}", "[\"^a\",".repeat(n), ",null]".repeat(n))));
        out.push((format!("{n} named containers"), format!("{{\"inkVersion\":21,\"root\":{}null{},\"listDefs\":{{}}}}", "[{\"k\":".repeat(n), "}]".repeat(n))));
        out.push((format!("{n} unknown"), format!("{{\"other\":{open}{close},\"inkVersion\":21,\"root\":[null],\"listDefs\":{{}}}}")));
        out.push((format!("{n} list definitions"), format!("{{\"inkVersion\":21,\"root\":[null],\"listDefs\":{}{}}}", "{\"a\":".repeat(n), "}".repeat(n))));
        out.push((format!("{n} quotes"), "\"".repeat(n)));
        out.push((format!("{n} digits"), format!("{{\"inkVersion\":{}}}", "9".repeat(n))));
        out.push((format!("{n} minus"), "-".repeat(n)));
        out.push((format!("{n} spaces"), " ".repeat(n)));
        out.push((format!("{n} escapes"), format!("{{\"inkVersion\":21,\"root\":[\"^{}\",null],\"listDefs\":{{}}}}", "\\ud800".repeat(n.min(20_000)))));
    }
    out
}

/// Saves that are hard to take: deep, long, out of step
fn save_nests(save: &J) -> Vec<(String, String)> {
    let mut out = vec![];
    let hole = "\"HOLE\"";
    for n in [100usize, 129, 3000, 100_000] {
        let deep_a = format!("{}{}", "[".repeat(n), "]".repeat(n));
        let deep_o = format!("{}1{}", "{\"a\":".repeat(n), "}".repeat(n));
        for (k, v) in save.as_object().into_iter().flatten() {
            let _ = v;
            for (what, d) in [("arrays", &deep_a), ("objects", &deep_o)] {
                let mut s = save.clone();
                s[k.as_str()] = json!("HOLE");
                out.push((format!("{n} {what} as {k}"), s.to_string().replace(hole, d)));
            }
        }
        let mut s = save.clone();
        s["evalStack"] = json!(["HOLE"]);
        out.push((format!("{n} values"), s.to_string().replace(hole, &deep_a)));
    }
    out
}

fn try_story(r: &mut Report, name: &str, text: &str) {
    r.case(name, || json!({"story": text.chars().take(30_000).collect::<String>()}), |r| {
        match Story::new(text) {
            Ok(s) => {
                r.note(&format!("ok {}", text.len()));
                drop(s);
            }
            Err(e) => {
                let m = e.to_string();
                r.note(&m.chars().take(60).collect::<String>());
            }
        }
    });
}

fn try_save(r: &mut Report, name: &str, p: &Rc<Prog>, setup: &Setup, ops: &[Op], text: &str) {
    r.case(name, || json!({"story": p.name, "ops": ops_json(ops), "save": text.chars().take(30_000).collect::<String>()}), |r| {
        let Ok(mut h) = Host::new(p, setup) else { return };
        for op in ops {
            h.apply(op);
        }
        match h.story.load_state(text) {
            Ok(()) => r.note(&format!("ok {}", text.len())),
            Err(e) => {
                r.note(&e.to_string().chars().take(60).collect::<String>());
            }
        }
        // Whatever came of it, it can be reset
        let w = h.apply(&Op::Reset);
        h.take_log();
        let Ok(mut a) = Host::new(p, setup) else { return };
        h.out_of_fuel = false;
        if !w.ends_with("ok") {
            return r.fail("no reset after a load", name, w, J::Null);
        }
        for _ in 0..5 {
            let (x, y) = (a.full(), h.full());
            if x != y {
                return r.fail("reset after a load isn't like new", name, diff(&x, &y), J::Null);
            }
            let op = if a.story.can_continue() {
                Op::Cont
            } else if !a.story.get_current_choices().is_empty() {
                Op::Choose(0)
            } else {
                break;
            };
            let (x, y) = (a.apply(&op), h.apply(&op));
            if x != y || a.take_log() != h.take_log() {
                return r.fail("reset after a load goes another way", name, diff(&x, &y), J::Null);
            }
        }
    });
}

pub fn c15(r: &mut Report) {
    let (k, _) = shard();
    // Half of the processes run the other loader
    if r.round == 0 && k % 2 == 1 {
        let other = crate::builds::OTHERS.lock().unwrap_or_else(|e| e.into_inner()).first().cloned();
        if let Some(o) = other {
            use std::os::unix::process::CommandExt;
            let mut args: Vec<String> = std::env::args().skip(1).collect();
            if let Some(i) = args.iter().position(|a| a == "--other") {
                args.drain(i..(i + 2).min(args.len()));
            }
            let e = std::process::Command::new(o).args(args).exec();
            eprintln!("{e}");
            std::process::exit(2);
        }
    }
    let setup = Setup { fuel: 3000, ..Setup::default() };
    if r.round == 0 {
        for (i, (n, t)) in nests().into_iter().enumerate() {
            if my_turn(i / 2) || shard().1 < 3 {
                try_story(r, &n, &t);
            }
        }
        for t in ["", " ", "null", "{}", "[]", "1", "\"x\"", "{\"inkVersion\":21}", "{\"inkVersion\":\"21\"}", "{\"root\":[]}", "{\"inkVersion\":21,\"root\":[]}", "{\"inkVersion\":21,\"root\":[],\"listDefs\":{}}", "{\"inkVersion\":99,\"root\":[null],\"listDefs\":{}}", "{\"inkVersion\":-5,\"root\":[null],\"listDefs\":{}}", "\u{feff}{}", "{\"inkVersion\":21,\"root\":null}", "{\"inkVersion\":21,\"root\":\"x\",\"listDefs\":[]}"] {
            try_story(r, &format!("story {t}"), t);
        }
    }
    let all: Vec<Rc<Prog>> = progs(r).into_iter().filter(|p| p.json.len() < 40_000).collect();
    // Truncations at every place, of the small ones
    let (small, few) = (r.n(1500, 6000), r.n(6, 30));
    for p in mine(all.clone()).iter().filter(|p| p.json.len() < small).take(few) {
        for i in 0..p.json.len() {
            if r.past(0.2) {
                break;
            }
            if p.json.is_char_boundary(i) {
                try_story(r, &format!("{} cut at {i}", p.name), &p.json[..i]);
            }
        }
    }
    // One node changed into everything
    let total = mine(all.clone()).len();
    for (pi, p) in mine(all).into_iter().enumerate() {
        let mut rng = Rng::new(r.seed.wrapping_mul(131) + pi as u64 + 1000 * shard().0 as u64);
        r.part(total - pi);
        let Ok(j) = serde_json::from_str::<J>(&p.json) else { continue };
        for i in 0..r.n(60, 400) {
            if r.part_over() {
                break;
            }
            let mut m = j.clone();
            mutate(&mut m, &mut rng);
            let t = m.to_string();
            try_story(r, &format!("{} changed {i}", p.name), &t);
            if i % 3 == 0 {
                let t = garble(&p.json, &mut rng);
                try_story(r, &format!("{} garbled {i}", p.name), &t);
            }
        }
        let ops = random_ops(&p, &setup, BUSY, 12, &mut rng);
        for cut in [0, ops.len() / 2, ops.len()] {
            let Ok(mut h) = Host::new(&p, &setup) else { break };
            for op in &ops[..cut] {
                h.apply(op);
            }
            h.story.get_current_choices();
            let Ok(save) = h.story.save_state() else { continue };
            let Ok(j) = serde_json::from_str::<J>(&save) else { continue };
            if pi % 7 == 0 && cut == ops.len() && r.round == 0 {
                for (n, t) in save_nests(&j) {
                    if r.past(0.95) {
                        break;
                    }
                    try_save(r, &format!("{} {n}", p.name), &p, &setup, &ops[..cut], &t);
                }
            }
            for i in 0..r.n(40, 300) {
                if r.part_over() {
                    break;
                }
                let mut m = j.clone();
                let t = if i % 4 == 3 {
                    garble(&save, &mut rng)
                } else {
                    mutate(&mut m, &mut rng);
                    m.to_string()
                };
                try_save(r, &format!("{}@{cut} save {i}", p.name), &p, &setup, &ops[..cut], &t);
            }
        }
    }

}
