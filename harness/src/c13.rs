//! C13: builder calls change what they name and nothing else.
//!
//! Every public builder method is called with random arguments on values in random states. What it may
//! change, and to what, is listed in data/c13.json; everything else must stay as it was.
use crate::ctx::Ctx;
use crate::rng::Rng;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

pub struct G {
    pub r: Rng,
    pub depth: usize,
}

pub trait Arb {
    fn arb(g: &mut G) -> Self;
}

pub trait Step: Sized + std::fmt::Debug {
    const N: usize;
    const T: &'static str;
    /// Calls method `i` with random arguments: the result, the method's name, the arguments.
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>);
}

/// A value taken apart field by field, from its debug form: it shows every field, written out or not.
pub fn view<T: std::fmt::Debug>(x: &T) -> Value {
    let text = format!("{x:?}");
    let mut p = P { s: text.as_bytes(), i: 0 };
    p.value()
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
}

impl P<'_> {
    fn skip(&mut self) {
        while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b',') {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.skip();
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn list(&mut self, end: u8) -> Vec<Value> {
        self.i += 1;
        let mut v = vec![];
        while !matches!(self.peek(), 0) && self.peek() != end {
            v.push(self.value());
        }
        self.i += 1;
        v
    }
    fn word(&mut self) -> String {
        self.skip();
        let b = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || matches!(self.s[self.i], b'_' | b'#' | b'-' | b'.' | b'+')) {
            self.i += 1;
        }
        if self.i == b {
            self.i += 1;
        }
        String::from_utf8_lossy(&self.s[b..self.i]).into_owned()
    }
    fn value(&mut self) -> Value {
        match self.peek() {
            b'[' => Value::Array(self.list(b']')),
            b'(' => json!({"tuple": self.list(b')')}),
            b'{' => {
                // a map or a set
                let v = self.list(b'}');
                json!({"map": v})
            }
            q @ (b'"' | b'\'') => {
                let b = self.i;
                self.i += 1;
                while self.i < self.s.len() && self.s[self.i] != q {
                    self.i += if self.s[self.i] == b'\\' { 2 } else { 1 };
                }
                self.i += 1;
                Value::String(String::from_utf8_lossy(&self.s[b + 1..self.i - 1]).into_owned())
            }
            _ => {
                let w = self.word();
                match self.peek() {
                    b'(' => {
                        let mut v = self.list(b')');
                        match (w.as_str(), v.len()) {
                            ("Some", 1) => v.remove(0),
                            (_, 1) => json!({ w: v.remove(0) }),
                            _ => json!({ w: v }),
                        }
                    }
                    b'{' if w.starts_with(|c: char| c.is_ascii_uppercase()) => {
                        self.i += 1;
                        let mut m = serde_json::Map::new();
                        while !matches!(self.peek(), 0 | b'}') {
                            let k = self.word();
                            self.i += 1;
                            let x = self.value();
                            m.insert(k, x);
                        }
                        self.i += 1;
                        Value::Object(m)
                    }
                    b':' => {
                        self.i += 1;
                        self.value()
                    }
                    _ if w == "None" => Value::Null,
                    _ if w == "true" || w == "false" => json!(w == "true"),
                    _ => match w.parse::<i64>() {
                        Ok(n) => json!(n),
                        Err(_) => match w.parse::<f64>() {
                            Ok(x) => json!(x),
                            Err(_) => Value::String(w),
                        },
                    },
                }
            }
        }
    }
}

/// An argument as it is displayed, if it is.
pub struct J<'a, T>(pub &'a T);
pub trait Shown {
    fn shown(&self) -> Value;
}
impl<T: std::fmt::Display> Shown for &J<'_, T> {
    fn shown(&self) -> Value {
        Value::String(self.0.to_string())
    }
}
pub trait Hidden {
    fn shown(&self) -> Value;
}
impl<T> Hidden for J<'_, T> {
    fn shown(&self) -> Value {
        Value::Null
    }
}

pub struct Call {
    pub t: &'static str,
    pub m: &'static str,
    pub args: Vec<Value>,
    pub before: Value,
    pub after: Value,
    pub hist: Vec<&'static str>,
}

impl G {
    pub fn new(seed: u64) -> G {
        G { r: Rng::new(crate::ctx::hash(&seed.to_le_bytes())), depth: 0 }
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.r.below(n)
    }
    pub fn arb<T: Arb>(&mut self) -> T {
        self.depth += 1;
        let x = T::arb(self);
        self.depth -= 1;
        x
    }
    /// Some random calls on a value that is an argument itself.
    pub fn vary<T: Step>(&mut self, mut x: T) -> T {
        if self.depth > 2 {
            return x;
        }
        for _ in 0..self.below(3) {
            let i = self.below(T::N);
            x = x.step(i, self).0;
        }
        x
    }
}

impl Arb for String {
    fn arb(g: &mut G) -> Self {
        if g.below(12) == 0 {
            return String::new();
        }
        let n = 1 + g.below(8);
        let mut s: String = (0..n).map(|_| (b'a' + g.below(26) as u8) as char).collect();
        s.push_str(&g.below(100000).to_string());
        s
    }
}
impl Arb for bool {
    fn arb(g: &mut G) -> Self {
        g.below(2) == 1
    }
}
macro_rules! num {
    ($t:ty, $lo:expr) => {
        impl Arb for $t {
            fn arb(g: &mut G) -> Self {
                match g.below(6) {
                    0 => g.r.range($lo, 3) as $t,
                    5 => 0,
                    1 => g.r.range($lo * 1000, 2000) as $t,
                    _ => g.r.range($lo * 30000, 60000) as $t,
                }
            }
        }
    };
}
num!(usize, 0);
num!(u32, 0);
num!(u16, 0);
num!(i32, -1);
num!(isize, -1);
impl Arb for f32 {
    fn arb(g: &mut G) -> Self {
        if g.below(4) == 0 {
            return 0.0;
        }
        g.below(64) as f32 / 4.0
    }
}
impl<T: Arb> Arb for Option<T> {
    fn arb(g: &mut G) -> Self {
        if g.below(4) == 0 {
            None
        } else {
            Some(g.arb())
        }
    }
}
impl<T: Arb> Arb for Vec<T> {
    fn arb(g: &mut G) -> Self {
        (0..g.below(3)).map(|_| g.arb()).collect()
    }
}
impl Arb for docx_rs::SpecialIndentType {
    fn arb(g: &mut G) -> Self {
        if g.below(2) == 0 {
            docx_rs::SpecialIndentType::FirstLine(g.arb())
        } else {
            docx_rs::SpecialIndentType::Hanging(g.arb())
        }
    }
}
impl Arb for docx_rs::DrawingPosition {
    fn arb(g: &mut G) -> Self {
        docx_rs::DrawingPosition::Offset(g.arb())
    }
}

impl Call {
    fn arg(&self, i: usize, how: usize) -> Option<Value> {
        self.args.get(i).map(|a| a[how].clone())
    }
}

/// One value of the type in a random state and one more call on it, for every method in turn.
pub fn calls<T: Step + Arb>(g: &mut G) -> Vec<Call> {
    let mut out = vec![];
    for i in 0..T::N {
        g.depth = 1;
        let mut x = T::arb(g);
        let mut hist = vec![];
        let long = g.below(3) == 0;
        for _ in 0..g.below(if long { 40 } else { 6 }) {
            let k = g.below(T::N);
            let (y, m, _) = x.step(k, g);
            hist.push(m);
            x = y;
        }
        let before = view(&x);
        let (y, m, args) = x.step(i, g);
        let after = view(&y);
        out.push(Call { t: T::T, m, args, before, after, hist });
    }
    out
}

/// Nodes of a value by path. Elements of arrays are not taken apart, except for those added at the end
/// of an array of `old`: a single one has path `[+]`, several `[+0]`, `[+1]`, ..., and all of them `[++]`.
fn nodes(v: &Value, old: Option<&Value>, path: String, out: &mut BTreeMap<String, Value>) {
    out.insert(path.clone(), v.clone());
    match v {
        Value::Object(m) if m.contains_key("tuple") => {
            for (k, x) in m["tuple"].as_array().into_iter().flatten().enumerate() {
                nodes(x, None, format!("{path}/{k}"), out);
            }
        }
        Value::Object(m) => {
            for (k, x) in m {
                nodes(x, old.map(|o| o.get(k).unwrap_or(&Value::Null)), format!("{path}/{k}"), out);
            }
        }
        Value::Array(a) => {
            if let Some(o) = old {
                let o = o.as_array().cloned().unwrap_or_default();
                if a.len() >= o.len() && a[..o.len()] == o[..] {
                    let new = &a[o.len()..];
                    out.insert(format!("{path}[++]"), Value::Array(new.to_vec()));
                    for (k, x) in new.iter().enumerate() {
                        let k = if new.len() == 1 { String::new() } else { k.to_string() };
                        nodes(x, None, format!("{path}[+{k}]"), out);
                    }
                }
            }
        }
        _ => {}
    }
}

fn leaf(v: &Value) -> bool {
    !matches!(v, Value::Object(m) if m.values().any(|x| !x.is_null()))
}

fn appended(p: &str, before: &BTreeMap<String, Value>, after: &BTreeMap<String, Value>) -> bool {
    match (before.get(p), after.get(p)) {
        (b, Some(Value::Array(a))) => {
            let o = b.and_then(|x| x.as_array()).cloned().unwrap_or_default();
            a.len() > o.len() && a[..o.len()] == o[..]
        }
        _ => false,
    }
}

/// The key under which a call is listed: the method, and which border it is about.
pub fn key(c: &Call) -> String {
    let mut k = format!("{}::{}", c.t, c.m);
    for a in &c.args {
        let a = &a[0];
        if let Some(p) = a.get("position").and_then(|x| x.as_str()) {
            k.push_str(&format!(" {p}"));
        } else if c.m.contains("clear") {
            if let Some(s) = a.as_str() {
                k.push_str(&format!(" {s}"));
            }
        }
    }
    k
}

/// Where and to what a call sets: path -> `$i` for the argument, `=v` for a fixed value, `-` for removed.
pub type Table = BTreeMap<String, BTreeMap<String, String>>;

pub fn under(p: &str, q: &str) -> bool {
    p == q || p.starts_with(q) && (p[q.len()..].starts_with('/') || p[q.len()..].starts_with('['))
}

/// Paths of numbering flags follow the content that is added.
fn flag(p: &str) -> bool {
    p.ends_with("/has_numbering") || p.ends_with("/has_numberings")
}

pub fn judge(c: &Call, want: Option<&BTreeMap<String, String>>) -> Vec<String> {
    let (mut b, mut a) = (BTreeMap::new(), BTreeMap::new());
    nodes(&c.before, None, String::new(), &mut b);
    nodes(&c.after, Some(&c.before), String::new(), &mut a);
    let mut bad = vec![];
    let Some(w) = want else {
        return bad;
    };
    for (p, t) in w {
        let have = a.get(p);
        let exp = match t.as_str() {
            "-" => None,
            "?" => continue,
            t if t.starts_with('$') => match t[1..].split_once('/') {
                Some((i, f)) => c.arg(i.parse().unwrap_or(99), 0).map(|x| x[f].clone()),
                None => c.arg(t[1..].parse().unwrap_or(99), 0),
            },
            t if t.starts_with('~') => c.arg(t[1..].parse().unwrap_or(99), 1),
            t => serde_json::from_str(&t[1..]).ok(),
        };
        if have.filter(|x| !x.is_null()) != exp.as_ref().filter(|x| !x.is_null()) {
            bad.push(format!("{p} should be {} but is {}", exp.map(|x| x.to_string()).unwrap_or("absent".into()), have.map(|x| x.to_string()).unwrap_or("absent".into())));
        }
    }
    let named = |p: &str| w.keys().any(|q| under(p, q));
    for (p, x) in &b {
        if !leaf(x) || x.is_null() || named(p) || flag(p) {
            continue;
        }
        match a.get(p) {
            Some(y) if y == x => {}
            // an empty group may be filled with the named setting
            Some(_) if matches!(x, Value::Object(_)) && w.keys().any(|q| under(q, p)) => {}
            Some(_) if appended(p, &b, &a) && w.keys().any(|q| q.starts_with(&format!("{p}[+"))) => {}
            y => bad.push(format!("{p} was {x} and became {}", y.map(|y| y.to_string()).unwrap_or("absent".into()))),
        }
    }
    for (p, x) in &a {
        if !leaf(x) || x.is_null() || named(p) || flag(p) || p.contains("[+") || b.get(p).is_some_and(|y| !y.is_null()) {
            continue;
        }
        // a group that was not there is created with its usual values, if the named setting is in it
        let mut q = p.as_str();
        let mut fine = w.keys().any(|r| under(r, q));
        while let Some(i) = q.rfind('/') {
            q = &q[..i];
            if q.is_empty() {
                break;
            }
            let fresh = !b.get(q).is_some_and(|y| !y.is_null());
            if fresh && w.keys().any(|r| under(r, q)) {
                fine = true;
            }
        }
        if !fine && !(appended(p, &b, &a) && w.keys().any(|q| q.starts_with(&format!("{p}[+")))) {
            bad.push(format!("{p} was absent and became {x}"));
        }
    }
    bad
}

/// Learns the table from many calls (authoring aid: the result is reviewed and committed).
pub fn learn(rounds: u64) -> Table {
    let mut fs: Vec<fn(&mut G) -> Vec<Call>> = vec![];
    crate::c13_gen::all(&mut |_, f| fs.push(f));
    let next = std::sync::atomic::AtomicUsize::new(0);
    let out = std::sync::Mutex::new(Table::new());
    std::thread::scope(|sc| {
        for _ in 0..6 {
            let run = || loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                let Some(f) = fs.get(i) else { break };
                let t = learn_type(*f, rounds);
                out.lock().unwrap().extend(t);
            };
            std::thread::Builder::new().stack_size(128 << 20).spawn_scoped(sc, run).unwrap();
        }
    });
    out.into_inner().unwrap()
}

fn learn_type(f: fn(&mut G) -> Vec<Call>, rounds: u64) -> Table {
    // what a node may be set to, by path; and the paths that were seen changing
    let mut cand: BTreeMap<String, BTreeMap<String, BTreeSet<String>>> = BTreeMap::new();
    let mut changed: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    // paths that went from one value to another, or appeared in a group that was there; where the others appeared
    let mut sure: BTreeSet<(String, String)> = BTreeSet::new();
    let mut fresh: BTreeMap<(String, String), String> = BTreeMap::new();
    // all calls are kept so that a path is judged on every call, also on those before it was first seen
    let mut all: Vec<(String, BTreeMap<String, Value>, Vec<Value>)> = vec![];
    for s in 0..rounds {
        for c in f(&mut G::new(s)) {
            let (mut b, mut a) = (BTreeMap::new(), BTreeMap::new());
            nodes(&c.before, None, String::new(), &mut b);
            nodes(&c.after, Some(&c.before), String::new(), &mut a);
            b.retain(|_, x| !x.is_null());
            a.retain(|_, x| !x.is_null());
            let k = key(&c);
            let ch = changed.entry(k.clone()).or_default();
            for (p, x) in &a {
                if b.get(p) != Some(x) && !flag(p) {
                    ch.insert(p.clone());
                    let mut top = p.as_str();
                    while let Some(i) = top.rfind(['/', '[']) {
                        if b.contains_key(&top[..i]) {
                            break;
                        }
                        top = &top[..i];
                    }
                    if top == p {
                        sure.insert((k.clone(), p.clone()));
                    } else {
                        fresh.insert((k.clone(), p.clone()), top.to_string());
                    }
                }
            }
            for p in b.keys() {
                if !a.contains_key(p) && !flag(p) {
                    ch.insert(p.clone());
                }
            }
            all.push((k, a, c.args));
        }
    }
    for (k, a, args) in &all {
        let m = cand.entry(k.clone()).or_default();
        for p in &changed[k] {
            let x = a.get(p).cloned().unwrap_or(Value::Null);
            let mut set = BTreeSet::new();
            for (i, y) in args.iter().enumerate() {
                if y[0] == x {
                    set.insert(format!("${i}"));
                }
                if y[1] == x && !x.is_null() {
                    set.insert(format!("~{i}"));
                }
            }
            if leaf(&x) && !p.ends_with("[++]") {
                set.insert(if x.is_null() { "-".to_string() } else { format!("={x}") });
            }
            match m.get_mut(p) {
                None => {
                    m.insert(p.clone(), set);
                }
                Some(t) => {
                    let had = t.iter().any(|x| x.starts_with('$'));
                    t.retain(|y| set.contains(y));
                    if had && t.is_empty() && std::env::var("C13_WHY").is_ok_and(|w| w == *k) {
                        eprintln!("{k} {p}: {x} args {args:?}");
                    }
                }
            }
        }
    }
    let mut t = Table::new();
    for (k, m) in cand {
        let mut r: BTreeMap<String, String> = BTreeMap::new();
        for (p, s) in &m {
            if let Some(x) = s.iter().find(|x| x.starts_with('$')).or(s.iter().find(|x| x.starts_with('~'))).or(s.iter().next()) {
                r.insert(p.clone(), x.clone());
            }
        }
        let firm: BTreeSet<String> = r.iter().filter(|(p, v)| !v.starts_with('=') || sure.contains(&(k.clone(), p.to_string()))).map(|(p, _)| p.clone()).collect();
        r.retain(|p, _| {
            firm.contains(p) || fresh.get(&(k.clone(), p.clone())).is_none_or(|top| !firm.iter().any(|q| under(q, top)))
        });
        // the highest node is enough
        let tops: Vec<String> = r.iter().filter(|(_, v)| v.starts_with('$') || v.as_str() == "-").map(|(k, _)| k.clone()).collect();
        r.retain(|p, _| !tops.iter().any(|q| q != p && under(p, q)));
        t.insert(k, r);
    }
    t
}

fn table() -> Table {
    serde_json::from_str(include_str!("../data/c13.json")).expect("data/c13.json")
}

pub fn run(ctx: &mut Ctx) {
    ctx.rule = "every public builder method of the element types, random arguments, on values in random states; one evaluation = one call; distinct by history, arguments and state".into();
    let t = table();
    let mut fs: Vec<fn(&mut G) -> Vec<Call>> = vec![];
    crate::c13_gen::all(&mut |_, f| fs.push(f));
    let rounds = if ctx.thorough { 300 } else { 60 };
    let n = fs.len();
    ctx.par(n * rounds, |ctx, i| {
        let seed = ctx.seed.wrapping_mul(7919).wrapping_add(i as u64);
        let f = fs[i % n];
        let r = std::panic::catch_unwind(|| f(&mut G::new(seed)));
        let Ok(cs) = r else {
            ctx.bad("panic", format!("a builder call panicked (type {}, seed {seed})", i % n), format!("type {} seed {seed}", i % n));
            return;
        };
        for c in cs {
            let d = json!({"type": c.t, "method": c.m, "arguments": c.args, "earlier calls": c.hist, "before": c.before, "after": c.after});
            ctx.case(&format!("{}::{} {:?} {}", c.t, c.m, c.args, c.hist.join(",")));
            for b in judge(&c, t.get(&key(&c))) {
                ctx.bad(&format!("{}::{}", c.t, c.m), format!("{}::{} after {:?}: {b}", c.t, c.m, c.hist), d.to_string());
            }
        }
    });
}

pub fn print_table() {
    println!("{}", serde_json::to_string_pretty(&json!(learn(std::env::var("C13_ROUNDS").ok().and_then(|x| x.parse().ok()).unwrap_or(400)))).unwrap());
}
