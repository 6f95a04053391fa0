//! C07: random expressions, and what Ink's rules say they are worth.
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

use bladeink::value_type::ValueType;
use serde_json::{Value as J, json};

use crate::core::*;

type Item = (String, String);

#[derive(Clone, Debug, PartialEq)]
pub struct L {
    pub items: BTreeMap<Item, i32>,
    pub names: BTreeSet<String>,
}

impl L {
    fn new() -> L {
        L { items: BTreeMap::new(), names: BTreeSet::new() }
    }
    /// The lists it can take values from.
    fn origins(&self) -> BTreeSet<String> {
        if self.items.is_empty() { self.names.clone() } else { self.items.keys().map(|k| k.0.clone()).collect() }
    }
    fn min(&self) -> Option<(&Item, i32)> {
        self.items.iter().map(|(k, v)| (k, *v)).min_by_key(|x| x.1)
    }
    fn max(&self) -> Option<(&Item, i32)> {
        self.items.iter().map(|(k, v)| (k, *v)).max_by_key(|x| x.1)
    }
    fn single(x: Option<(&Item, i32)>) -> L {
        let mut l = L::new();
        if let Some((k, v)) = x {
            l.items.insert(k.clone(), v);
        }
        l
    }
    fn text(&self) -> String {
        let mut v: Vec<(i32, &Item)> = self.items.iter().map(|(k, v)| (*v, k)).collect();
        v.sort();
        v.iter().map(|(_, k)| k.1.clone()).collect::<Vec<_>>().join(", ")
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    I(i32),
    F(f32),
    B(bool),
    S(String),
    L(L),
}

impl V {
    fn text(&self) -> String {
        match self {
            V::I(i) => i.to_string(),
            V::F(f) => f.to_string(),
            V::B(b) => b.to_string(),
            V::S(s) => s.clone(),
            V::L(l) => l.text(),
        }
    }
    fn truthy(&self) -> bool {
        match self {
            V::I(i) => *i != 0,
            V::F(f) => *f != 0.0,
            V::B(b) => *b,
            V::S(s) => !s.is_empty(),
            V::L(l) => !l.items.is_empty(),
        }
    }
    fn same(&self, v: &ValueType) -> bool {
        match (self, v) {
            (V::I(a), ValueType::Int(b)) => a == b,
            (V::F(a), ValueType::Float(b)) => a == b || (a.is_nan() && b.is_nan()),
            (V::B(a), ValueType::Bool(b)) => a == b,
            (V::S(a), ValueType::String(b)) => *a == b.string,
            (V::L(a), ValueType::List(b)) => {
                let items: BTreeMap<Item, i32> = b
                    .items
                    .iter()
                    .map(|(k, v)| ((k.get_origin_name().cloned().unwrap_or_default(), k.get_item_name().to_string()), *v))
                    .collect();
                items == a.items
            }
            _ => false,
        }
    }
}

#[derive(Clone, Debug)]
pub enum E {
    Val(V, String),
    Var(String, V),
    Bin(&'static str, Box<E>, Box<E>),
    Un(&'static str, Box<E>),
    Call(&'static str, Vec<E>),
    FromInt(String, Box<E>),
}

#[derive(Clone, Debug)]
pub struct Defs {
    /// List name to its items.
    pub lists: BTreeMap<String, Vec<(String, i32)>>,
}

fn num(v: &V) -> Option<f32> {
    match v {
        V::I(i) => Some(*i as f32),
        V::F(f) => Some(*f),
        V::B(b) => Some(*b as i32 as f32),
        _ => None,
    }
}

fn int(v: &V) -> Option<i32> {
    match v {
        V::I(i) => Some(*i),
        V::B(b) => Some(*b as i32),
        _ => None,
    }
}

fn list_bin(d: &Defs, op: &str, a: &V, b: &V) -> Option<V> {
    if let (V::L(l), V::I(n), true) = (a, b, op == "+" || op == "-") {
        let mut out = L::new();
        for ((o, _), v) in &l.items {
            let want = if op == "+" { v.wrapping_add(*n) } else { v.wrapping_sub(*n) };
            if let Some((name, v)) = d.lists.get(o)?.iter().find(|x| x.1 == want) {
                out.items.insert((o.clone(), name.clone()), *v);
            }
        }
        return Some(V::L(out));
    }
    match op {
        "&&" => return Some(V::B(a.truthy() && b.truthy())),
        "||" => return Some(V::B(a.truthy() || b.truthy())),
        _ => {}
    }
    let (V::L(x), V::L(y)) = (a, b) else { return None };
    let all = |f: &dyn Fn(i32, i32) -> bool| match (x.items.is_empty(), y.items.is_empty()) {
        (false, false) => Some((f(x.min().unwrap().1, y.min().unwrap().1), f(x.max().unwrap().1, y.max().unwrap().1))),
        _ => None,
    };
    Some(match op {
        "+" => {
            let mut out = L { items: x.items.clone(), names: x.origins() };
            out.items.extend(y.items.clone());
            V::L(out)
        }
        "-" => {
            let mut out = L { items: x.items.clone(), names: x.origins() };
            out.items.retain(|k, _| !y.items.contains_key(k));
            V::L(out)
        }
        "^" => {
            let mut out = L::new();
            for (k, v) in &x.items {
                if y.items.contains_key(k) {
                    out.items.insert(k.clone(), *v);
                }
            }
            V::L(out)
        }
        "?" | "!?" => {
            let has = !x.items.is_empty()
                && !y.items.is_empty()
                && y.items.keys().all(|k| x.items.contains_key(k));
            V::B(has == (op == "?"))
        }
        "==" | "!=" => {
            let eq = x.items.keys().eq(y.items.keys());
            V::B(eq == (op == "=="))
        }
        // All of the one past all of the other
        ">" => V::B(!x.items.is_empty() && (y.items.is_empty() || x.min()?.1 > y.max()?.1)),
        "<" => V::B(!y.items.is_empty() && (x.items.is_empty() || x.max()?.1 < y.min()?.1)),
        ">=" => V::B(!x.items.is_empty() && all(&|p, q| p >= q).is_none_or(|(p, q)| p && q)),
        "<=" => V::B(!y.items.is_empty() && all(&|p, q| p <= q).is_none_or(|(p, q)| p && q)),
        _ => return None,
    })
}

fn bin(d: &Defs, op: &str, a: &V, b: &V) -> Option<V> {
    if matches!(a, V::L(_)) || matches!(b, V::L(_)) {
        return list_bin(d, op, a, b);
    }
    if matches!(a, V::S(_)) || matches!(b, V::S(_)) {
        let (x, y) = (a.text(), b.text());
        return Some(match op {
            "+" => V::S(x + &y),
            "==" => V::B(x == y),
            "!=" => V::B(x != y),
            "?" => V::B(x.contains(&y)),
            "!?" => V::B(!x.contains(&y)),
            _ => return None,
        });
    }
    if let (Some(x), Some(y)) = (int(a), int(b)) {
        return Some(match op {
            "+" => V::I(x.wrapping_add(y)),
            "-" => V::I(x.wrapping_sub(y)),
            "*" => V::I(x.wrapping_mul(y)),
            "/" => V::I(if y == 0 { return None } else { (x as i64 / y as i64) as i32 }),
            "%" => V::I(if y == 0 { return None } else { (x as i64 % y as i64) as i32 }),
            "==" => V::B(x == y),
            "!=" => V::B(x != y),
            "<" => V::B(x < y),
            ">" => V::B(x > y),
            "<=" => V::B(x <= y),
            ">=" => V::B(x >= y),
            "&&" => V::B(x != 0 && y != 0),
            "||" => V::B(x != 0 || y != 0),
            "MIN" => V::I(if x < y { x } else { y }),
            "MAX" => V::I(if x > y { x } else { y }),
            "POW" => V::F((x as f64).powf(y as f64) as f32),
            _ => return None,
        });
    }
    let (x, y) = (num(a)?, num(b)?);
    if x.is_nan() || y.is_nan() {
        return None;
    }
    if x == 0.0 && y == 0.0 && x.is_sign_negative() != y.is_sign_negative() {
        // Either zero will do: no oracle
        return None;
    }
    Some(match op {
        "+" => V::F(x + y),
        "-" => V::F(x - y),
        "*" => V::F(x * y),
        "/" => V::F(x / y),
        "%" => V::F((x as f64 % y as f64) as f32),
        "==" => V::B(x == y),
        "!=" => V::B(x != y),
        "<" => V::B(x < y),
        ">" => V::B(x > y),
        "<=" => V::B(x <= y),
        ">=" => V::B(x >= y),
        "&&" => V::B(x != 0.0 && y != 0.0),
        "||" => V::B(x != 0.0 || y != 0.0),
        "MIN" => V::F(if x < y { x } else { y }),
        "MAX" => V::F(if x > y { x } else { y }),
        "POW" => V::F((x as f64).powf(y as f64) as f32),
        _ => return None,
    })
}

fn un(d: &Defs, op: &str, a: &V) -> Option<V> {
    if let V::L(l) = a {
        let of = |o: &BTreeSet<String>| {
            let mut out = BTreeMap::new();
            for n in o {
                for (i, v) in d.lists.get(n)? {
                    out.insert((n.clone(), i.clone()), *v);
                }
            }
            Some(out)
        };
        return Some(match op {
            "not" => V::I(l.items.is_empty() as i32),
            "LIST_COUNT" => V::I(l.items.len() as i32),
            "LIST_MIN" => V::L(L::single(l.min())),
            "LIST_MAX" => V::L(L::single(l.max())),
            "LIST_VALUE" => V::I(l.max().map_or(0, |x| x.1)),
            "LIST_ALL" => V::L(L { items: of(&l.origins())?, names: BTreeSet::new() }),
            "LIST_INVERT" => {
                let mut items = of(&l.origins())?;
                items.retain(|k, _| !l.items.contains_key(k));
                V::L(L { items, names: BTreeSet::new() })
            }
            _ => return None,
        });
    }
    if let Some(x) = int(a) {
        return Some(match op {
            "-" => V::I(x.wrapping_neg()),
            "not" => V::B(x == 0),
            "FLOOR" | "CEILING" | "INT" => V::I(x),
            "FLOAT" => V::F(x as f32),
            _ => return None,
        });
    }
    let V::F(x) = *a else { return None };
    Some(match op {
        "-" => V::F(-x),
        "not" => V::B(x == 0.0),
        "FLOOR" => V::F(x.floor()),
        "CEILING" => V::F(x.ceil()),
        "INT" => V::I(x.trunc() as i32),
        "FLOAT" => V::F(x),
        _ => return None,
    })
}

/// None is a story error.
pub fn eval(d: &Defs, e: &E) -> Option<V> {
    match e {
        E::Val(v, _) | E::Var(_, v) => Some(v.clone()),
        E::Bin(op, a, b) => bin(d, op, &eval(d, a)?, &eval(d, b)?),
        E::Un(op, a) => un(d, op, &eval(d, a)?),
        E::Call(f, args) => {
            let a: Option<Vec<V>> = args.iter().map(|x| eval(d, x)).collect();
            let a = a?;
            match (*f, a.len()) {
                ("LIST_RANGE", 3) => {
                    let V::L(l) = &a[0] else { return None };
                    let lo = match &a[1] {
                        V::I(i) => *i,
                        V::L(m) => m.min().map_or(0, |x| x.1),
                        _ => return None,
                    };
                    let hi = match &a[2] {
                        V::I(i) => *i,
                        V::L(m) => m.max().map_or(i32::MAX, |x| x.1),
                        _ => return None,
                    };
                    if l.items.is_empty() {
                        return Some(V::L(L::new()));
                    }
                    let mut out = L { items: l.items.clone(), names: l.origins() };
                    out.items.retain(|_, v| *v >= lo && *v <= hi);
                    Some(V::L(out))
                }
                (_, 2) => bin(d, f, &a[0], &a[1]),
                (_, 1) => un(d, f, &a[0]),
                _ => None,
            }
        }
        E::FromInt(l, a) => {
            let V::I(n) = eval(d, a)? else { return None };
            let mut out = L::new();
            if let Some((name, v)) = d.lists.get(l)?.iter().find(|x| x.1 == n) {
                out.items.insert((l.clone(), name.clone()), *v);
            }
            Some(V::L(out))
        }
    }
}

/// How tightly Ink's parser binds the operator.
fn binding(op: &str) -> u8 {
    match op {
        "&&" | "||" => 1,
        "==" | ">=" | "<=" | "<" | ">" | "!=" => 2,
        "?" | "!?" | "^" => 3,
        "+" => 4,
        "-" => 5,
        "*" => 6,
        "/" => 7,
        _ => 8,
    }
}

/// Writes it in Ink, with as few brackets as possible if `bare`.
pub fn ink(e: &E, rng: &mut Rng, bare: bool) -> String {
    match e {
        E::Val(_, t) => t.clone(),
        E::Var(n, _) => n.clone(),
        E::Bin(op, a, b) => {
            let name = match (*op, rng.below(2)) {
                ("&&", 0) => "and",
                // Bare, `||` would part the alternatives of a sequence
                ("||", _) => "or",
                ("%", 0) => "mod",
                ("?", 0) => "has",
                ("!?", 0) => "hasnt",
                (o, _) => o,
            };
            let mut side = |x: &E, right: bool| {
                let t = ink(x, rng, bare);
                match x {
                    E::Bin(o, _, _) if !bare || binding(o) < binding(op) || (right && binding(o) == binding(op)) => {
                        format!("({t})")
                    }
                    E::Un(..) => format!("({t})"),
                    _ => t,
                }
            };
            let l = side(a, false);
            let r = side(b, true);
            format!("{l} {name} {r}")
        }
        E::Un(op, a) => {
            let t = ink(a, rng, bare);
            let sp = if *op == "not" { " " } else { "" };
            // A single name in brackets is a list
            let name = t.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '.');
            if name && !t.starts_with(|c: char| c.is_ascii_digit()) {
                format!("{op}{sp}{t}")
            } else {
                format!("{op}{sp}({t})")
            }
        }
        E::Call(f, a) => {
            let a: Vec<String> = a.iter().map(|x| ink(x, rng, bare)).collect();
            format!("{f}({})", a.join(", "))
        }
        E::FromInt(l, a) => format!("{l}({})", ink(a, rng, bare)),
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Int,
    Float,
    Bool,
    Str,
    List,
}

struct Gen<'a> {
    d: &'a Defs,
    vars: &'a [(String, V)],
}

impl Gen<'_> {
    fn leaf(&self, k: Kind, rng: &mut Rng) -> E {
        let vs: Vec<&(String, V)> = self
            .vars
            .iter()
            .filter(|(_, v)| {
                matches!(
                    (k, v),
                    (Kind::Int, V::I(_))
                        | (Kind::Float, V::F(_))
                        | (Kind::Bool, V::B(_))
                        | (Kind::Str, V::S(_))
                        | (Kind::List, V::L(_))
                )
            })
            .collect();
        if rng.chance(45) && !vs.is_empty() {
            let v = rng.pick(&vs);
            return E::Var(v.0.clone(), v.1.clone());
        }
        match k {
            Kind::Int => {
                let i = *rng.pick(&[0, 1, 2, 3, 5, 7, 10, 100, 46341, 65536, 2147483647, -1, -2, -7, -100]);
                E::Val(V::I(i), if i < 0 { format!("({i})") } else { i.to_string() })
            }
            Kind::Float => {
                let f = *rng.pick(&[0.5f32, 1.5, 2.0, 0.25, 7.75, 100.5, -0.5, -3.25]);
                E::Val(V::F(f), if f < 0.0 { format!("({f:?})") } else { format!("{f:?}") })
            }
            Kind::Bool => {
                let b = rng.chance(50);
                E::Val(V::B(b), b.to_string())
            }
            Kind::Str => {
                let s = *rng.pick(&["a", "b", "ab", "abc", "bca", "xyz", "1", "true", "2.5", "", "é"]);
                E::Val(V::S(s.into()), format!("\"{s}\""))
            }
            Kind::List => {
                let all: Vec<(Item, i32)> = self
                    .d
                    .lists
                    .iter()
                    .flat_map(|(o, is)| is.iter().map(move |(n, v)| ((o.clone(), n.clone()), *v)))
                    .collect();
                let n = rng.below(5);
                let mut l = L::new();
                let mut names = vec![];
                for _ in 0..n {
                    let (k, v) = rng.pick(&all).clone();
                    names.push(if rng.chance(50) { k.1.clone() } else { format!("{}.{}", k.0, k.1) });
                    l.items.insert(k, v);
                }
                if names.len() == 1 && rng.chance(50) {
                    return E::Val(V::L(l), names[0].clone());
                }
                E::Val(V::L(l), format!("({})", names.join(", ")))
            }
        }
    }

    fn expr(&self, k: Kind, depth: usize, rng: &mut Rng) -> E {
        if depth == 0 {
            return self.leaf(k, rng);
        }
        let d = depth - 1;
        let b = |e| Box::new(e);
        let number = |rng: &mut Rng| *rng.pick(&[Kind::Int, Kind::Int, Kind::Float, Kind::Bool]);
        match k {
            Kind::Int => match rng.below(12) {
                0..=5 => {
                    let op = *rng.pick(&["+", "-", "*", "/", "%"]);
                    let side = |rng: &mut Rng| if rng.chance(15) { Kind::Bool } else { Kind::Int };
                    let (x, y) = (side(rng), side(rng));
                    E::Bin(op, b(self.expr(x, d, rng)), b(self.expr(y, d, rng)))
                }
                6 => E::Call(*rng.pick(&["MIN", "MAX"]), vec![self.expr(Kind::Int, d, rng), self.expr(Kind::Int, d, rng)]),
                7 => E::Un("-", b(self.expr(Kind::Int, d, rng))),
                8 => E::Call("INT", vec![self.expr(number(rng), d, rng)]),
                9 => E::Call(*rng.pick(&["FLOOR", "CEILING"]), vec![self.expr(Kind::Int, d, rng)]),
                _ => E::Call(*rng.pick(&["LIST_COUNT", "LIST_VALUE"]), vec![self.expr(Kind::List, d, rng)]),
            },
            Kind::Float => match rng.below(8) {
                0..=3 => {
                    let op = *rng.pick(&["+", "-", "*", "/", "%"]);
                    let o = number(rng);
                    let (x, y) = if rng.chance(50) { (Kind::Float, o) } else { (o, Kind::Float) };
                    E::Bin(op, b(self.expr(x, d, rng)), b(self.expr(y, d, rng)))
                }
                4 => E::Call(*rng.pick(&["MIN", "MAX"]), vec![self.expr(Kind::Float, d, rng), self.expr(number(rng), d, rng)]),
                5 => E::Call(*rng.pick(&["FLOOR", "CEILING"]), vec![self.expr(Kind::Float, d, rng)]),
                6 => E::Call("FLOAT", vec![self.expr(number(rng), d, rng)]),
                _ => {
                    let base = *rng.pick(&[2, 3, -2, 10]);
                    let p = rng.below(6) as i32;
                    let v = |i: i32| E::Val(V::I(i), if i < 0 { format!("({i})") } else { i.to_string() });
                    E::Call("POW", vec![v(base), v(p)])
                }
            },
            Kind::Bool => match rng.below(12) {
                0..=2 => {
                    let op = *rng.pick(&["==", "!=", "<", ">", "<=", ">="]);
                    let (x, y) = (number(rng), number(rng));
                    E::Bin(op, b(self.expr(x, d, rng)), b(self.expr(y, d, rng)))
                }
                3 | 4 => {
                    let op = *rng.pick(&["&&", "||"]);
                    let (x, y) = (number(rng), number(rng));
                    E::Bin(op, b(self.expr(x, d, rng)), b(self.expr(y, d, rng)))
                }
                5 => E::Un("not", b(self.expr(number(rng), d, rng))),
                6 => {
                    let op = *rng.pick(&["==", "!=", "?", "!?"]);
                    E::Bin(op, b(self.expr(Kind::Str, d, rng)), b(self.expr(Kind::Str, d, rng)))
                }
                7 => {
                    let op = *rng.pick(&["&&", "||"]);
                    let o = *rng.pick(&[Kind::List, Kind::Int, Kind::Bool, Kind::Float]);
                    E::Bin(op, b(self.expr(Kind::List, d, rng)), b(self.expr(o, d, rng)))
                }
                _ => {
                    let op = *rng.pick(&["==", "!=", "<", ">", "<=", ">=", "?", "!?"]);
                    E::Bin(op, b(self.expr(Kind::List, d, rng)), b(self.expr(Kind::List, d, rng)))
                }
            },
            Kind::Str => {
                let o = *rng.pick(&[Kind::Str, Kind::Int, Kind::Bool, Kind::Float]);
                let (x, y) = if rng.chance(50) { (Kind::Str, o) } else { (o, Kind::Str) };
                E::Bin("+", b(self.expr(x, d, rng)), b(self.expr(y, d, rng)))
            }
            Kind::List => match rng.below(12) {
                0..=4 => {
                    let op = *rng.pick(&["+", "-", "^"]);
                    E::Bin(op, b(self.expr(Kind::List, d, rng)), b(self.expr(Kind::List, d, rng)))
                }
                5 | 6 => {
                    let i = rng.below(4) as i32;
                    let n = E::Val(V::I(i), i.to_string());
                    E::Bin(*rng.pick(&["+", "-"]), b(self.expr(Kind::List, d, rng)), b(n))
                }
                7..=9 => E::Call(
                    *rng.pick(&["LIST_MIN", "LIST_MAX", "LIST_ALL", "LIST_INVERT"]),
                    vec![self.expr(Kind::List, d, rng)],
                ),
                10 => {
                    let bound = |rng: &mut Rng| {
                        if rng.chance(50) {
                            let i = rng.below(14) as i32;
                            E::Val(V::I(i), i.to_string())
                        } else {
                            self.leaf(Kind::List, rng)
                        }
                    };
                    let (lo, hi) = (bound(rng), bound(rng));
                    E::Call("LIST_RANGE", vec![self.expr(Kind::List, d, rng), lo, hi])
                }
                _ => {
                    let names: Vec<&String> = self.d.lists.keys().collect();
                    let i = rng.below(14) as i32;
                    E::FromInt(rng.pick(&names).to_string(), b(E::Val(V::I(i), i.to_string())))
                }
            },
        }
    }
}

/// The lists, and their declarations. No two items have the same value.
fn random_defs(rng: &mut Rng, ties: bool) -> (Defs, String) {
    let mut lists = BTreeMap::new();
    let mut decls = String::new();
    let mut taken = BTreeSet::new();
    for (name, letter) in [("Aa", 'a'), ("Bb", 'b'), ("Cc", 'c')] {
        let mut items = vec![];
        let mut parts = vec![];
        let mut v = 0;
        for i in 0..3 + rng.below(4) {
            let mut next = v + 1;
            while !ties && taken.contains(&next) {
                next += 1;
            }
            if rng.chance(20) {
                next += 1 + rng.below(5) as i32;
                while !ties && taken.contains(&next) {
                    next += 1;
                }
            }
            let n = format!("{letter}{i}");
            let t = if next == v + 1 { n.clone() } else { format!("{n} = {next}") };
            parts.push(if rng.chance(35) { format!("({t})") } else { t });
            taken.insert(next);
            v = next;
            items.push((n, v));
        }
        decls += &format!("LIST {name} = {}\n", parts.join(", "));
        lists.insert(name.to_string(), items);
    }
    (Defs { lists }, decls)
}

fn decl_value(decls: &str, d: &Defs, name: &str) -> L {
    let line = decls.lines().find(|l| l.starts_with(&format!("LIST {name} "))).unwrap_or("");
    let mut l = L { items: BTreeMap::new(), names: [name.to_string()].into() };
    for (i, v) in &d.lists[name] {
        if line.contains(&format!("({i})")) || line.contains(&format!("({i} =")) {
            l.items.insert((name.to_string(), i.clone()), *v);
        }
    }
    l
}

/// Without an oracle: lists whose items share values, in play.
pub fn random_list_story(rng: &mut Rng) -> Prog {
    for _ in 0..20 {
        let (d, decls) = random_defs(rng, true);
        let vars: Vec<(String, V)> =
            d.lists.keys().map(|k| (k.clone(), V::L(decl_value(&decls, &d, k)))).collect();
        let g = Gen { d: &d, vars: &vars };
        let mut src = decls.clone();
        src += "VAR mixed = ()\n-> top\n=== top\n";
        for i in 0..8 {
            let e = g.expr(Kind::List, 2, rng);
            src += &format!("~ mixed = mixed + ({})\n", ink(&e, rng, false));
            let e = g.expr(*rng.pick(&[Kind::List, Kind::Bool, Kind::Int]), 2, rng);
            src += &format!("Line {i}: {{{}}} of {{mixed}} max {{LIST_MAX(mixed)}} min {{LIST_MIN(mixed)}} random {{LIST_RANDOM(mixed)}} range {{LIST_RANGE(mixed, 2, 4)}} up {{mixed + 1}} inv {{LIST_INVERT(mixed)}}\n", ink(&e, rng, false));
            if i == 4 {
                src += "{~one|two|three} {RANDOM(1, 6)}\n* [go {LIST_MAX(mixed)}] -> more\n* [else] -> more\n=== more\n";
            }
        }
        src += "-> END\n";
        if let Ok(json) = crate::play::compile("lists", &src)
            && let Some(p) = Prog::new(&format!("lists.ink:{src}"), &json)
        {
            return p;
        }
    }
    own_named("mix")
}

/// Compiled by no compiler: lists that share their items' names, which are then named without their list
pub fn shared_items_story(rng: &mut Rng) -> Prog {
    let pool = ["on", "off", "b", "c", "d"];
    let mut defs = serde_json::Map::new();
    for l in ["light", "tap", "door", "lamp", "box", "hat"].iter().take(2 + rng.below(5)) {
        let mut items = serde_json::Map::new();
        for (k, n) in pool.iter().enumerate() {
            if rng.chance(60) {
                items.insert(n.to_string(), json!(if rng.chance(50) { k + 1 } else { rng.below(6) + 1 }));
            }
        }
        if items.is_empty() {
            items.insert("on".into(), json!(1));
        }
        defs.insert(l.to_string(), J::Object(items));
    }
    let names: Vec<String> = pool.iter().filter(|n| defs.values().any(|d| d.get(**n).is_some())).map(|n| n.to_string()).collect();
    let mut code = vec![json!("ev"), json!({"list": {}}), json!("/ev"), json!({"VAR=": "m", "re": true})];
    for n in &names {
        code.extend([json!("ev"), json!({"VAR?": n}), json!("out"), json!({"VAR?": n}), json!("LIST_VALUE"), json!("out"), json!({"VAR?": n}), json!("LIST_ALL"), json!("out"), json!("/ev"), json!("\n")]);
        code.extend([json!("ev"), json!({"VAR?": "m"}), json!({"VAR?": n}), json!("+"), json!("/ev"), json!({"VAR=": "m", "re": true})]);
    }
    code.extend([json!("ev"), json!({"VAR?": "m"}), json!("out"), json!({"VAR?": "m"}), json!("LIST_MAX"), json!("out"), json!({"VAR?": "m"}), json!("LIST_INVERT"), json!("out")]);
    code.extend([json!({"VAR?": "m"}), json!("lrnd"), json!("out"), json!("/ev"), json!("\n"), json!("done"), J::Null]);
    let globals = json!(["ev", {"list": {}}, {"VAR=": "m"}, "/ev", "end", null]);
    let j = json!({"inkVersion": 21, "root": [J::Array(code), "done", {"global decl": globals}], "listDefs": J::Object(defs)});
    Prog::new("shared", &j.to_string()).unwrap_or_else(|| own_named("mix"))
}

pub fn c07(r: &mut Report) {
    let (shard, shards) = shard();
    let mut i = shard as u64;
    while !r.out_of_time() && (r.thorough || i < 16000) {
        i += shards as u64;
        let mut rng = Rng::new(r.seed.wrapping_mul(100_003) + i);
        let (src, es) = random_expressions(&mut rng);
        r.case(&format!("expressions {i}"), || json!({"ink": src}), |r| expressions(r, i, &src, &es));
        if (i / shards as u64) % 8 == 0 {
            let mut rng = Rng::new(r.seed.wrapping_mul(100_003) + i);
            let p = Rc::new(random_list_story(&mut rng));
            r.case(&format!("order {i}"), || json!({"ink": p.name}), |r| order(r, i, &p));
        }
    }
}

type Expected = (Defs, Vec<(String, V)>);

fn random_expressions(rng: &mut Rng) -> (String, Expected) {
    let (d, decls) = random_defs(rng, false);
    let mut vars: Vec<(String, V)> =
        d.lists.keys().map(|k| (k.clone(), V::L(decl_value(&decls, &d, k)))).collect();
    let mut src = decls;
    for (n, v, t) in [
        ("vi", V::I(7), "7"),
        ("vn", V::I(-3), "-3"),
        ("vbig", V::I(2147483647), "2147483647"),
        ("vf", V::F(2.5), "2.5"),
        ("vt", V::B(true), "true"),
        ("vfalse", V::B(false), "false"),
        ("vs", V::S("abc".into()), "\"abc\""),
        ("vempty", V::S("".into()), "\"\""),
        ("nolist", V::L(L::new()), "()"),
    ] {
        src += &format!("VAR {n} = {t}\n");
        vars.push((n.to_string(), v));
    }
    let g = Gen { d: &d, vars: &vars };
    let mut lines = String::new();
    let mut want = vec![];
    while want.len() < 16 {
        let k = *rng.pick(&[Kind::Int, Kind::Float, Kind::Bool, Kind::Str, Kind::List, Kind::List]);
        let depth = 1 + rng.below(3);
        let e = g.expr(k, depth, rng);
        let Some(v) = eval(&d, &e) else { continue };
        if let V::F(f) = v
            && (!f.is_finite() || f.abs() > 1e6 || (f != 0.0 && f.abs() < 1e-3))
        {
            continue;
        }
        let t = ink(&e, rng, rng.0 & 64 == 0);
        let n = want.len();
        src += &format!("VAR r{n} = 0\n");
        lines += &format!("{n}:{{{t}}}.\n~ r{n} = {t}\n{n}:{{r{n}}}.\n{n}:{{{t}:T|F}}.\n");
        want.push((t, v));
    }
    src += "-> top\n=== top\n";
    src += &lines;
    src += "-> END\n";
    (src, (d, want))
}

fn expressions(r: &mut Report, i: u64, src: &str, want: &Expected) {
    let name = format!("expressions {i}");
    let json = match crate::play::compile("expressions", src) {
        Ok(j) => j,
        Err(e) => {
            r.fail("not compiled", &name, format!("{e}\n{src}"), json!({"ink": src}));
            return;
        }
    };
    let Some(p) = Prog::new("expressions", &json) else { return };
    let p = Rc::new(p);
    let Ok(mut h) = Host::new(&p, &Setup { observers: false, ..Setup::default() }) else {
        r.fail("not loaded", &name, src.to_string(), json!({"ink": src}));
        return;
    };
    let mut lines = vec![];
    while h.story.can_continue() && lines.len() < 200 {
        match h.story.cont() {
            Ok(t) => lines.push(t.trim_end_matches('\n').to_string()),
            Err(e) => {
                lines.push(format!("Err {e}"));
                break;
            }
        }
    }
    lines.extend(h.take_log());
    for (n, (t, v)) in want.1.iter().enumerate() {
        r.note(t);
        let printed = format!("{n}:{}.", v.text());
        let truth = format!("{n}:{}.", if v.truthy() { "T" } else { "F" });
        let got: Vec<&String> = lines.iter().filter(|l| l.starts_with(&format!("{n}:"))).collect();
        if got.len() != 3 || *got[0] != printed || *got[1] != printed || *got[2] != truth {
            r.fail(
                "wrong value",
                &format!("expressions {i}: {t}"),
                format!("{t}\nis {v:?}\nwanted {printed:?} twice and {truth:?}\ngot {got:?}\nall lines {lines:?}\n{src}"),
                json!({"ink": src}),
            );
            return;
        }
        let var = h.story.get_variable(&format!("r{n}"));
        if !var.as_ref().is_some_and(|x| v.same(x)) {
            r.fail(
                "wrong stored value",
                &format!("expressions {i}: {t}"),
                format!("{t}\nwanted {v:?}\ngot {:?}\n{src}", var.as_ref().map(show)),
                json!({"ink": src}),
            );
            return;
        }
    }
}

/// The same lists, built again: every hash map is seeded differently.
fn order(r: &mut Report, i: u64, p: &Rc<Prog>) {
    let play = || {
        let Ok(mut h) = Host::new(p, &Setup::default()) else { return String::new() };
        let mut out = String::new();
        for op in [Op::Max, Op::Choose(0), Op::Max] {
            out += &h.apply(&op);
            out += "\n";
        }
        out += &h.full();
        out
    };
    let a = play();
    r.note(&a);
    for _ in 0..3 {
        let b = play();
        if a != b {
            r.fail("order", &format!("order {i}"), diff(&a, &b), json!({"ink": p.name}));
            return;
        }
    }
}
