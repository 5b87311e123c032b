//! Translations, conditions, the core model, transformations and combined bundles (C21-C25).
use crate::gen::{self, GenCfg};
use crate::model::*;
use crate::render;
use crate::rng::Rng;
use crate::run::*;
use crate::sad;
use crate::sys::*;
use crate::tr;
use oca_bundle_semantics::state::attribute::Attribute;
use oca_bundle_semantics::state::oca::overlay::conditional::Conditionals;
use oca_bundle_semantics::state::oca::OCABundle;
use oca_bundle_semantics::state::validator::Validator;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Display;

// ---------------------------------------------------------------- C21
/// Language-bearing kinds: language (three letters) -> what it covers.
type Cover = BTreeMap<&'static str, BTreeMap<String, BTreeSet<String>>>;
fn coverage(m: &Model) -> Cover {
    let mut c: Cover = BTreeMap::new();
    for (l, p) in &m.meta { if !p.is_empty() { c.entry("meta").or_default().insert(l.clone(), p.keys().cloned().collect()); } }
    for (n, a) in &m.attrs {
        for l in a.labels.keys() { c.entry("label").or_default().entry(l.clone()).or_default().insert(n.clone()); }
        for l in a.infos.keys() { c.entry("information").or_default().entry(l.clone()).or_default().insert(n.clone()); }
        for l in a.entries.keys() { c.entry("entry").or_default().entry(l.clone()).or_default().insert(n.clone()); }
    }
    c
}
/// The kinds that break the rule for these required languages.
fn faulty(c: &Cover, langs: &BTreeSet<String>) -> Vec<&'static str> {
    if langs.is_empty() { return vec![]; }
    c.iter().filter(|(_, by)| {
        let have: BTreeSet<String> = by.keys().cloned().collect();
        let first = by.values().next();
        have != *langs || by.values().any(|v| Some(v) != first)
    }).map(|(k, _)| *k).collect()
}
fn problems(b: &OCABundle, langs: &[isolang::Language], chunks: bool) -> Result<Vec<String>, Stop> {
    guard("validating with required languages", || {
        let mut v = Validator::new();
        if chunks { for l in langs { v = v.enforce_translations(vec![*l]); } } else { v = v.enforce_translations(langs.to_vec()); }
        let mut e = match v.validate(b) { Ok(()) => vec![], Err(e) => e.iter().map(|e| e.to_string()).collect() };
        e.sort();
        e
    })
}
fn minus(a: &[String], b: &[String]) -> Vec<String> { let mut b = b.to_vec(); a.iter().filter(|x| match b.iter().position(|y| y == *x) { Some(i) => { b.remove(i); false } None => true }).cloned().collect() }
/// The same bundle with members of every object and overlays of every list in another order.
fn shuffled(r: &mut Rng, v: &Value) -> Value {
    match v {
        Value::Object(m) => { let mut k: Vec<&String> = m.keys().collect(); r.shuffle(&mut k); Value::Object(k.into_iter().map(|k| (k.clone(), shuffled(r, &m[k]))).collect()) }
        Value::Array(a) if a.iter().all(|x| x.is_object()) => { let mut a: Vec<Value> = a.iter().map(|x| shuffled(r, x)).collect(); r.shuffle(&mut a); Value::Array(a) }
        o => o.clone(),
    }
}
pub fn c21(x: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let names: Vec<String> = gen::names().into_iter().take(r.range(1, 4)).collect();
    let langs: Vec<&str> = { let all: Vec<&str> = LANGS.iter().map(|l| l.0).collect(); let n = r.range(1, 3); let mut v = all.clone(); r.shuffle(&mut v); v.truncate(n); v };
    let mut cmds = vec![Cmd::AddAttr(names.iter().map(|n| (n.clone(), Ty::base("Text"))).collect())];
    let kinds = r.subset(&["meta", "label", "information", "entry"].map(String::from), 4);
    let holes = r.below(4);
    let drop = |r: &mut Rng| holes > 0 && r.chance(1, 5 + 3 * holes.min(2));
    for k in &kinds {
        // what the kind covers in a regular bundle
        let on: Vec<String> = r.subset(&names, 4);
        let props: Vec<String> = r.subset(&["name", "description", "note"].map(String::from), 3);
        for l in &langs {
            if drop(r) { continue; }
            let keys = if k == "meta" { &props } else { &on };
            let keys: Vec<String> = keys.iter().filter(|_| !drop(r)).cloned().collect();
            if keys.is_empty() { continue; }
            cmds.push(match k.as_str() {
                "meta" => Cmd::Meta(l.to_string(), keys.into_iter().map(|k| (k, "v".into())).collect()),
                "label" => Cmd::Label(l.to_string(), keys.into_iter().map(|k| (k, "v".into())).collect()),
                "information" => Cmd::Info(l.to_string(), keys.into_iter().map(|k| (k, "v".into())).collect()),
                _ => Cmd::Entry(l.to_string(), keys.into_iter().map(|k| (k, En::Map(vec![("o1".into(), "v".into())]))).collect()),
            });
        }
    }
    // now and then something else: overlays without languages, removals, another problem
    if r.chance(1, 2) { cmds.push(Cmd::Simple(Simple::Unit, vec![(names[0].clone(), "kg".into())])); }
    if r.chance(1, 6) { cmds.push(Cmd::RmAttr(vec![names[0].clone()])); }
    if r.chance(1, 8) && names.len() > 1 { cmds.push(Cmd::Simple(Simple::Condition, vec![(names[1].clone(), "1 +".into())])); if cmds.iter().any(|c| matches!(c, Cmd::RmAttr(_))) { cmds.pop(); } }
    let text = render::plain(&cmds);
    x.note("ocafile", text.clone());
    let Ok(m) = Model::run(&cmds) else { return skip() };
    let cover = coverage(&m);
    let (b, t) = Sys::new().must_build(&text)?;
    let none = problems(&b, &[], false)?;
    let v: Value = serde_json::from_str(&t).unwrap_or_default();
    // sets of required languages
    let mut sets: Vec<BTreeSet<String>> = vec![BTreeSet::new(), langs.iter().filter_map(|l| lang3(l)).map(String::from).collect()];
    for by in cover.values() { sets.push(by.keys().cloned().collect()); }
    for _ in 0..2 { let mut s = sets[1].clone(); match r.below(3) { 0 => { s.insert(LANGS[r.below(LANGS.len())].1.into()); } 1 => { let k = s.iter().next().cloned(); if let Some(k) = k { s.remove(&k); } } _ => { s = (0..r.range(1, 3)).map(|_| LANGS[r.below(LANGS.len())].1.to_string()).collect(); } } sets.push(s); }
    for s in sets {
        let mut ls: Vec<isolang::Language> = s.iter().filter_map(|l| isolang::Language::from_639_3(l)).collect();
        if r.chance(1, 3) { let d = ls.clone(); ls.extend(d); }
        r.shuffle(&mut ls);
        x.note("required", format!("{ls:?}"));
        x.eval();
        let bad = faulty(&cover, &s);
        let got = minus(&problems(&b, &ls, r.chance(1, 3))?, &none);
        if bad.is_empty() { ensure(got.is_empty(), "translation problem reported where there is none", || format!("required {ls:?}: {got:?}\n{text}"))?; x.count("no problem expected", 1); }
        else {
            ensure(!got.is_empty(), "translation problem not reported", || format!("required {ls:?}: {bad:?} not reported\n{text}"))?;
            for k in &bad { x.count(&format!("problem in {k}"), 1); }
            if bad.len() == 1 { x.count("only one kind at fault", 1); }
        }
        x.state(&format!("{cover:?}|{s:?}"));
        // the order of everything makes no difference
        for _ in 0..2 {
            let w = shuffled(r, &v).to_string();
            x.note("shuffled", w.clone());
            let p = match load(&w)? { Ok(p) => p, Err(e) => return viol("reordered bundle does not load", format!("{e}\n{w}")) };
            let mut p2 = p.clone();
            r.shuffle(&mut p2.overlays);
            for q in [p, p2] {
                x.eval();
                let g = minus(&problems(&q, &ls, false)?, &problems(&q, &[], false)?);
                ensure(g == got, "the order decides about translation problems", || format!("required {ls:?}: {got:?} but after reordering {g:?}\n{w}"))?;
            }
        }
    }
    x.sample(|| json!({"file": text}));
    Ok(())
}

// ---------------------------------------------------------------- C22
#[derive(Clone, Debug, PartialEq)]
enum Val { N(f64), S(String), B(bool) }
#[derive(Clone, Debug)]
enum Ex { Lit(Val), Var(String), Un(&'static str, Box<Ex>), Bin(&'static str, Box<Ex>, Box<Ex>) }
fn prec(op: &str) -> u8 { match op { "or" => 1, "and" => 2, "==" | "~=" | "<" | "<=" | ">" | ">=" => 3, ".." => 9, "+" | "-" => 10, "*" | "/" | "//" | "%" => 11, _ => 14 } }
fn eval(e: &Ex, vals: &BTreeMap<String, Val>) -> Option<Val> {
    use Val::*;
    let v = match e {
        Ex::Lit(v) => v.clone(),
        Ex::Var(n) => vals.get(n)?.clone(),
        Ex::Un(op, a) => match (*op, eval(a, vals)?) { ("not", B(b)) => B(!b), ("-", N(n)) => N(-n), _ => return None },
        Ex::Bin(op, a, b) => {
            let a = eval(a, vals)?;
            // the right side is of the same kind always, so nothing is lost by evaluating it
            let b = eval(b, vals)?;
            match (*op, a, b) {
                ("and", B(a), B(b)) => B(a && b),
                ("or", B(a), B(b)) => B(a || b),
                ("==", a, b) => B(a == b),
                ("~=", a, b) => B(a != b),
                ("<", N(a), N(b)) => B(a < b), ("<=", N(a), N(b)) => B(a <= b), (">", N(a), N(b)) => B(a > b), (">=", N(a), N(b)) => B(a >= b),
                ("<", S(a), S(b)) => B(a.as_bytes() < b.as_bytes()), ("<=", S(a), S(b)) => B(a.as_bytes() <= b.as_bytes()), (">", S(a), S(b)) => B(a.as_bytes() > b.as_bytes()), (">=", S(a), S(b)) => B(a.as_bytes() >= b.as_bytes()),
                ("+", N(a), N(b)) => N(a + b), ("-", N(a), N(b)) => N(a - b), ("*", N(a), N(b)) => N(a * b), ("/", N(a), N(b)) => N(a / b),
                // for what is not positive the interpreter and the language differ
                ("//", N(a), N(b)) if a >= 0.0 => N((a / b).floor()), ("%", N(a), N(b)) if a >= 0.0 => N(a - (a / b).floor() * b),
                ("..", S(a), S(b)) => S(a + &b),
                _ => return None,
            }
        }
    };
    // far from where integers and floating point numbers part
    if let N(n) = &v { if n.abs() > 1e12 { return None; } }
    Some(v)
}
/// Writes an expression; parentheses where they are needed and sometimes elsewhere.
fn write(r: &mut Rng, e: &Ex, tight: bool) -> String {
    let inner = |r: &mut Rng, c: &Ex, lo: bool| -> String { let s = write(r, c, tight); if lo || r.chance(1, 8) { format!("({s})") } else { s } };
    // the interpreter reads ~= with another precedence than the language has
    let p = |e: &Ex| match e { Ex::Bin("~=", ..) => 0, Ex::Bin(op, ..) => prec(op), Ex::Un(..) => 12, Ex::Lit(Val::N(n)) if *n < 0.0 => 12, _ => 20 };
    match e {
        Ex::Lit(Val::N(n)) => format!("{n}"),
        Ex::Lit(Val::S(s)) => format!("'{s}'"),
        Ex::Lit(Val::B(b)) => format!("{b}"),
        Ex::Var(n) => format!("${{{n}}}"),
        Ex::Un(op, a) => { let lo = p(a) < 12; let s = inner(r, a, lo); if *op == "not" { format!("not {s}") } else if s.starts_with('-') { format!("- {s}") } else { format!("-{s}") } }
        Ex::Bin(op, a, b) => {
            let q = prec(op);
            let right = *op == "..";
            let (la, lb) = (if right { p(a) <= q } else { p(a) < q }, if right { p(b) < q } else { p(b) <= q });
            let (la, lb) = if *op == "~=" { (p(a) < 20, p(b) < 20) } else { (la, lb) };
            let (sa, sb) = (inner(r, a, la), inner(r, b, lb));
            let gap = |s: &str| if tight && !matches!(*op, "and" | "or" | "..") && !(*op == "-" && s.starts_with('-')) { "" } else { " " };
            let (g1, g2) = (gap(""), gap(&sb));
            let (g1, g2) = if !tight && r.chance(1, 6) { ("  ", "\t") } else { (g1, g2) };
            format!("{sa}{g1}{op}{g2}{sb}")
        }
    }
}
fn number(r: &mut Rng) -> f64 { match r.below(6) { 0 => -(r.below(20) as f64), 1 => r.below(1000) as f64 / 4.0, 2 => 0.0, 3 => -(r.below(90) as f64) / 2.0, _ => r.below(30) as f64 } }
fn string(r: &mut Rng) -> String { match r.below(4) { 0 => "".into(), 1 => r.pick(&["a", "b", "test", "zażółć", "漢", "2020-01-01", "a b", "1", "-- x", "and", "{0}", "$x"]).to_string(), _ => (0..r.range(1, 4)).map(|_| (b'a' + r.below(4) as u8) as char).collect() } }
/// An expression of a kind: 'n', 's' or 'b'.
fn expr(r: &mut Rng, kind: char, depth: usize, vars: &BTreeMap<String, char>) -> Ex {
    let b = |r: &mut Rng, k| Box::new(expr(r, k, depth - 1, vars));
    if depth == 0 || r.chance(1, 4) {
        let of: Vec<&String> = vars.iter().filter(|v| *v.1 == kind).map(|v| v.0).collect();
        if !of.is_empty() && r.chance(2, 3) { return Ex::Var(r.pick(&of).to_string()); }
        return Ex::Lit(match kind { 'n' => Val::N(number(r)), 's' => Val::S(string(r)), _ => Val::B(r.chance(1, 2)) });
    }
    match kind {
        'n' => match r.below(8) {
            0 => Ex::Un("-", b(r, 'n')),
            1 | 2 => { let d = Ex::Lit(Val::N(*r.pick(&[1.0, 2.0, 4.0, 0.5, 8.0]))); Ex::Bin(r.pick(&["/", "//", "%"]), b(r, 'n'), Box::new(d)) }
            _ => Ex::Bin(r.pick(&["+", "-", "*"]), b(r, 'n'), b(r, 'n')),
        },
        's' => Ex::Bin("..", b(r, 's'), b(r, 's')),
        _ => match r.below(10) {
            0 => Ex::Un("not", b(r, 'b')),
            1..=4 => Ex::Bin(r.pick(&["and", "or"]), b(r, 'b'), b(r, 'b')),
            5 => Ex::Bin(r.pick(&["==", "~="]), b(r, 'b'), b(r, 'b')),
            6 => Ex::Bin(r.pick(&["==", "~=", "<", "<=", ">", ">="]), b(r, 's'), b(r, 's')),
            _ => Ex::Bin(r.pick(&["==", "~=", "<", "<=", ">", ">="]), b(r, 'n'), b(r, 'n')),
        },
    }
}
struct Shown(String);
impl Display for Shown { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
fn given(vals: &BTreeMap<String, Val>) -> BTreeMap<String, Box<dyn Display + 'static>> {
    vals.iter().map(|(k, v)| (k.clone(), match v {
        Val::N(n) => if n.fract() == 0.0 && n.abs() < 1e9 && k.len() % 2 == 0 { Box::new(*n as i64) as Box<dyn Display> } else { Box::new(*n) as Box<dyn Display> },
        Val::S(s) => Box::new(Shown(format!("'{s}'"))) as Box<dyn Display>,
        Val::B(b) => Box::new(*b) as Box<dyn Display>,
    })).collect()
}
fn checked(me: &str, cond: &str, vals: &BTreeMap<String, Val>) -> Result<Result<bool, String>, Stop> {
    let mut a = Attribute::new(me.to_string());
    a.set_condition(cond.to_string());
    let given = given(vals);
    guard("evaluating a condition", move || a.check_condition(given).map_err(|e| format!("{e:?}")))
}
const MALFORMED: [&str; 34] = ["", " ", "1 +", "(", ")", "(true", "true)", "true) or (true", "and", "true and", "or true", "not", "== 3", "3 ==", "true false", "1 2 == 3", "'abc", "\"abc", "if true then", "return true", "x = 5", "1 = 1",
    "true; false", "@", "1 === 1", "1 != 2", "a &&& b", "[1]", "{", "}", "function", "while true do end", "'a' 'b' == 'c'", "${"];
const NOT_BOOLEAN: [&str; 14] = ["1", "0", "'x'", "nil", "{}", "1 + 2", "'a' .. 'b'", "-5", "2 * 3", "unknown", "''", "0.5", "function() end", "nil and true"];
const FAILING: [&str; 16] = ["nil > 1", "{} < {}", "1 < 'x'", "nil + 1 == 2", "true + 1 == 2", "nope()", "nope.field == 1", "'a' < 1", "#5 == 1", "{} > 1", "true <= false", "-{} == 1", "-'x' == 1", "'x' < nil", "(function() while true do end end)()", "(function(f) return f(f) end)(function(f) return f(f) end)"];
pub fn c22(x: &mut Ctx, i: u64, r: &mut Rng) -> R {
    // names of attributes with their kinds; mock values decide the kind inside a bundle
    let pool: Vec<String> = { let mut v: Vec<String> = gen::names(); v.extend(["with-dash", "x.y", "1", "12", "é"].map(String::from)); v };
    let names: Vec<String> = { let n = r.range(2, 7); let mut v = pool; r.shuffle(&mut v); v.truncate(n); v };
    let me = names[0].clone();
    let vars: BTreeMap<String, char> = names[1..].iter().map(|n| (n.clone(), *r.pick(&['n', 'n', 's', 'b']))).collect();
    for _ in 0..6 {
        let d = r.range(1, 5);
        let e = expr(r, 'b', d, &vars);
        let tight = r.chance(1, 2);
        let text = write(r, &e, tight);
        x.note("condition", text.clone());
        // how it is stored
        x.eval();
        let mut a = Attribute::new(me.clone());
        guard("setting a condition", || a.set_condition(text.clone()))?;
        let (want, deps) = placeholders(&text);
        ensure(a.condition.as_deref() == Some(&want), "stored condition is wrong", || format!("{text}\nexpected {want}\ngot {:?}", a.condition))?;
        ensure(a.dependencies.as_ref() == Some(&deps), "recorded dependencies are wrong", || format!("{text}\nexpected {deps:?}\ngot {:?}", a.dependencies))?;
        // what it says for given values
        for _ in 0..3 {
            let vals: BTreeMap<String, Val> = vars.iter().map(|(n, k)| (n.clone(), match k { 'n' => Val::N(number(r)), 's' => Val::S(string(r)), _ => Val::B(r.chance(1, 2)) })).collect();
            let Some(Val::B(want)) = eval(&e, &vals) else { continue };
            x.note("values", format!("{vals:?}"));
            x.eval();
            match checked(&me, &text, &vals)? {
                Ok(b) => ensure(b == want, "condition has another outcome", || format!("{text}\n{vals:?}\nexpected {want}"))?,
                Err(e) => return viol("correct condition is an error", format!("{text}\n{vals:?}\n{e}")),
            }
            x.count(if want { "conditions that hold" } else { "conditions that do not hold" }, 1);
            x.state(&format!("{text}|{vals:?}"));
            // a value that is not given
            if let Some(d) = deps.first() {
                let mut less = vals.clone();
                less.remove(d);
                ensure(checked(&me, &text, &less)?.is_err(), "missing value is not reported", || text.clone())?;
                ensure(checked(d, &text, &vals)?.is_err(), "condition on itself is not reported", || text.clone())?;
            }
        }
    }
    // conditions that are wrong
    for (what, list) in [("malformed", &MALFORMED[..]), ("not boolean", &NOT_BOOLEAN[..]), ("failing", &FAILING[..])] {
        for c in if i % 16 == 0 { list.to_vec() } else { vec![*r.pick(list)] } {
            let mut c = c.to_string();
            if what == "not boolean" && r.chance(1, 3) { c = if r.chance(1, 2) { format!("({c})") } else { format!("{c} or {c}") }; if c.starts_with("nil and") || c.contains("or nil and") { c = "nil".into(); } }
            x.note("condition", c.clone());
            x.eval();
            if let Ok(b) = checked(&me, &c, &BTreeMap::new())? { return viol(&format!("{what} condition accepted"), format!("{c:?} gives {b}")); }
            x.count(&format!("{what} conditions refused"), 1);
            x.state(&c);
        }
    }
    if i % 25 == 0 {
        let n = *r.pick(&[150usize, 190, 1_000, 2_400, 30_000]);
        for c in [format!("{}true{}", "(".repeat(n), ")".repeat(n)), format!("{}true", "not ".repeat(n)), format!("{}1 == 1", "- ".repeat(n)), format!("'a'{} == 'b'", " .. 'a'".repeat(n)), format!("2{} == 1", " ^ 2".repeat(n)), format!("{}{} == nil", "{".repeat(n), "}".repeat(n)), format!("true{}", " and true".repeat(n)), format!("1{} == 1", " + 1".repeat(n)), format!("x{} == 1", "[x".repeat(n) + &"]".repeat(n)), format!("x{} == 1", "(x".repeat(n) + &")".repeat(n)), format!("x{} == 1", "''".repeat(n * 2)), format!("x{} == 1", ".x".repeat(n * 2)), format!("{}1{} == 1", "(function() return ".repeat(n), " end)()".repeat(n)), "${a} ".repeat(n)] {
            x.note("condition", format!("{} characters: {}", c.len(), clip(&c, 100)));
            x.eval();
            let _ = checked(&me, &c, &BTreeMap::new())?;
            x.count("huge conditions", 1);
        }
    }
    // inside a bundle
    let types: Vec<(String, Ty)> = names.iter().map(|n| (n.clone(), match vars.get(n) { Some('n') => Ty::base("Numeric"), Some('b') => Ty::base("Boolean"), _ => Ty::base(*r.pick(&["Text", "DateTime", "Binary"])) })).collect();
    if names.iter().any(|n| n == "é") { return Ok(()); }
    let d = r.range(1, 4);
    let e = expr(r, 'b', d, &vars);
    let good = write(r, &e, r.clone().chance(1, 2));
    let bad = match r.below(4) { 0 => r.pick(&MALFORMED[2..]).to_string(), 1 => r.pick(&NOT_BOOLEAN).to_string(), 2 => format!("({good}) and ${{nosuch}} == 1"), _ => format!("({good}) and ${{{me}}} == ${{{me}}}") };
    for (cond, ok) in [(good, true), (bad, false)] {
        let cond = gen::fix_value(&cond);
        // among other conditions, on either side of it
        let others: Vec<String> = (0..if r.chance(1, 4) { r.range(1, 14) } else { 0 }).map(|k| format!("{}other{k:02}", if r.chance(1, 2) { "." } else { "zz" })).collect();
        let mut types = types.clone();
        types.extend(others.iter().map(|n| (n.clone(), Ty::base("Text"))));
        let mut pairs: Vec<(String, String)> = others.iter().map(|n| (n.clone(), r.pick(&["true", "1 == 1", "false"]).to_string())).collect();
        pairs.insert(r.below(pairs.len() + 1), (me.clone(), cond.clone()));
        let cmds = vec![Cmd::AddAttr(types), Cmd::Simple(Simple::Condition, pairs)];
        let text = render::plain(&cmds);
        x.note("ocafile", text.clone());
        let (b, t) = Sys::new().must_build(&text)?;
        let v: Value = serde_json::from_str(&t).unwrap_or_default();
        let (want, deps) = placeholders(&cond);
        let o = &v["overlays"]["conditional"];
        x.eval();
        ensure(o["attribute_conditions"][&me] == want.as_str() && o["attribute_dependencies"][&me] == json!(deps), "stored condition is wrong", || format!("{cond}\nexpected {want} {deps:?}\ngot {o}"))?;
        for b in [b.clone(), match load(&t)? { Ok(b) => b, Err(e) => return viol("encoded bundle does not load", e) }] {
            x.eval();
            let e = guard("validating", || Validator::new().validate(&b).err().map(|e| format!("{e:?}")))?;
            match (&e, ok) { (None, false) => return viol("bundle with a wrong condition passes validation", text), (Some(e), true) => return viol("bundle with a good condition fails validation", format!("{e}\n{text}")), _ => {} }
        }
        x.count(if ok { "bundles with good conditions" } else { "bundles with wrong conditions" }, 1);
        // the names come back
        let s = Sys::new();
        let f = s.to_ocafile(&b)?;
        match parse(&f)? { Ok(a) => match crate::decode::ast(&a) { Ok(f) => ensure(f.cmds.iter().any(|c| matches!(c, Cmd::Simple(Simple::Condition, p) if p.iter().any(|p| p.0 == me && p.1 == cond))), "names do not come back", || format!("{cond}\n{f:?}"))?, Err(e) => return viol("names do not come back", e) }, Err(e) => return viol("generated OCAFile does not parse", format!("{e}\n{f}")) }
    }
    x.sample(|| json!({"names": names}));
    Ok(())
}

// ---------------------------------------------------------------- C23
/// Overlay an instruction is about: kind in the bundle and what tells it apart there.
fn overlay_of(c: &Cmd) -> Option<(String, String)> {
    let l = |l: &str| lang3(l).unwrap_or("?").to_string();
    Some(match c {
        Cmd::Meta(x, _) => ("meta".into(), l(x)),
        Cmd::Label(x, _) => ("label".into(), l(x)),
        Cmd::Info(x, _) => ("information".into(), l(x)),
        Cmd::Entry(x, _) => ("entry".into(), l(x)),
        Cmd::Simple(Simple::Condition, _) => ("conditional".into(), String::new()),
        Cmd::EncProps(_) => ("character_encoding".into(), String::new()),
        Cmd::Simple(..) | Cmd::EntryCode(_) => (c.kind().into(), String::new()),
        Cmd::Link(Target::Said(t), _) => ("link".into(), t.clone()),
        Cmd::Framing(m, _) => ("attribute_framing".into(), m.iter().find(|x| x.0 == "id")?.1.clone()),
        _ => return None,
    })
}
fn subject(kind: &str, text: &str) -> String {
    let v: Value = serde_json::from_str(text).unwrap_or_default();
    let s = |v: &Value| v.as_str().unwrap_or_default().to_string();
    match kind { "meta" | "label" | "information" | "entry" => s(&v["language"]), "link" => s(&v["target_bundle"]), "attribute_framing" => s(&v["framing_metadata"]["frame_id"]), _ => String::new() }
}
#[derive(Debug, Clone, PartialEq)]
struct Rec { digest: String, json: String, cb: Option<(String, Option<String>)>, ov: Option<(String, Option<String>)>, bundle: (String, Option<String>, String, Vec<String>) }
/// The records the steps of a build must give.
fn expected(cmds: &[Cmd], steps: &[(String, String)]) -> Result<Vec<Rec>, Stop> {
    let (mut cb, mut ovs, mut last): (Option<String>, BTreeMap<(String, String), String>, Option<String>) = (None, BTreeMap::new(), None);
    let mut out = vec![];
    for (c, (cj, t)) in cmds.iter().zip(steps) {
        let ids = match sad::check_bundle(t) { Ok(i) => i, Err(e) => return viol("built bundle: identifiers", format!("{e}\n{t}")) };
        let mut rec = Rec { digest: sad::digest(cj.as_bytes()), json: cj.clone(), cb: None, ov: None, bundle: (ids.said.clone(), last.clone(), ids.cb.clone(), { let mut v: Vec<String> = ids.overlays.iter().map(|o| o.1.clone()).collect(); v.sort(); v }) };
        match overlay_of(c) {
            Some(k) => {
                let found: Vec<&(String, String, String)> = ids.overlays.iter().filter(|o| o.0 == k.0 && subject(&o.0, &o.2) == k.1).collect();
                // these properties make no overlay
                if matches!(c, Cmd::EncProps(_)) && found.is_empty() { last = Some(ids.said); out.push(rec); continue; }
                if found.len() != 1 { return viol("number of overlays for an instruction", format!("{c:?}: {} overlays\n{t}", found.len())); }
                let id = found[0].1.clone();
                rec.ov = Some((id.clone(), ovs.insert(k, id)));
            }
            None => { rec.cb = Some((ids.cb.clone(), cb.replace(ids.cb.clone()))); }
        }
        last = Some(ids.said);
        out.push(rec);
    }
    Ok(out)
}
fn recorded(b: &oca_bundle_semantics::build::OCABuild) -> Result<Vec<Rec>, Stop> {
    let v = guard("recording the core model", || oca_dag_semantics::build_core_db_model(b))?;
    v.into_iter().map(|m| {
        let (Some(c), Some(b)) = (m.command, m.oca_bundle) else { return viol("incomplete record", "no instruction or no bundle") };
        let s = |o: &Option<said::SelfAddressingIdentifier>| o.as_ref().map(|s| s.to_string());
        for d in m.capture_base.iter().map(|x| &x.command_digest).chain(m.overlay.iter().map(|x| &x.command_digest)) { ensure(*d == c.digest, "record names another instruction", || format!("{d} / {}", c.digest))?; }
        Ok(Rec { digest: c.digest.to_string(), json: c.json, cb: m.capture_base.map(|x| (x.capture_base_said.to_string(), s(&x.parent))), ov: m.overlay.map(|x| (x.overlay_said.to_string(), s(&x.parent))),
            bundle: (b.oca_bundle_said.to_string(), s(&b.parent), b.capture_base_said.to_string(), { let mut v: Vec<String> = b.overlays_said.iter().map(|x| x.to_string()).collect(); v.sort(); v }) })
    }).collect()
}
/// What the store must hold after these records were written over what it held.
fn fold(map: &mut BTreeMap<String, Vec<Vec<String>>>, recs: &[Rec]) {
    let mut put = |k: &str, mut v: Vec<Vec<String>>| { if v.len() > 2 { v[2].sort(); } map.insert(format!("core_model.{k}"), v); };
    for r in recs {
        put(&r.digest, vec![vec![r.json.clone()]]);
        for (id, p) in r.cb.iter().chain(r.ov.iter()) { put(id, vec![vec![p.clone().unwrap_or_default()], vec![r.digest.clone()]]); }
        put(&r.bundle.0, vec![vec![r.bundle.1.clone().unwrap_or_default()], vec![r.bundle.2.clone()], r.bundle.3.clone()]);
    }
}
fn unpack(v: &[u8]) -> Option<Vec<String>> {
    let (mut i, mut out) = (0, vec![]);
    while i < v.len() { let n = v[i] as usize; out.push(String::from_utf8(v.get(i + 1..i + 1 + n)?.to_vec()).ok()?); i += 1 + n; }
    Some(out)
}
fn check_store(s: &Sys, want: &BTreeMap<String, Vec<Vec<String>>>) -> R {
    let keys = s.db.keys("core_model");
    let have: BTreeSet<&String> = keys.iter().collect();
    for k in want.keys() { ensure(have.contains(k), "record is not stored", || k.clone())?; }
    for k in &keys {
        let Some(w) = want.get(k) else { return viol("record nobody made", k.clone()) };
        let raw = s.db.value("core_model", k).unwrap_or_default();
        let got = if w.len() == 1 { vec![vec![String::from_utf8_lossy(&raw).into_owned()]] } else {
            let Some(f) = unpack(&raw) else { return viol("stored record is unreadable", format!("{k}: {raw:?}")) };
            let mut g: Vec<Vec<String>> = f.iter().take(2).map(|x| vec![x.clone()]).collect();
            if w.len() > 2 { let mut o: Vec<String> = f.iter().skip(2).cloned().collect(); o.sort(); g.push(o); } else if f.len() > 2 { g.push(f[2..].to_vec()); }
            g
        };
        ensure(got == *w, "stored record is wrong", || format!("{k}\nexpected {w:?}\ngot {got:?}"))?;
    }
    Ok(())
}
pub fn c23(x: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let mut g = GenCfg { min_cmds: 4, max_cmds: 16, ..Default::default() };
    if r.chance(2, 3) { g.names = gen::few_names(r, 1, 4); }
    if r.chance(1, 3) { g.saids.truncate(2); }
    let mut s = Sys::new();
    let mut stored = BTreeMap::new();
    let mut all: Vec<(Vec<Cmd>, String)> = vec![];
    for round in 0..r.range(1, 4) {
        // a new file, or one that goes on from what was built
        let (base, prefix): (Option<String>, Vec<Cmd>) = if round > 0 && r.chance(1, 2) { let (c, id): (Vec<Cmd>, String) = r.pick(&all).clone(); (Some(id), c) } else { (None, vec![]) };
        let mut m = Model::run(&prefix).unwrap_or_default();
        let own = if base.is_some() { gen::cmds_from(r, &g, &mut m) } else { gen::cmds(r, &g) };
        if own.is_empty() { continue; }
        let mut whole = prefix.clone();
        whole.extend(own.clone());
        let mut text_cmds = own.clone();
        if let Some(b) = &base { text_cmds.insert(0, Cmd::From(b.clone())); }
        let text = render::plain(&text_cmds);
        x.note(&format!("file {round}"), text.clone());
        // the library's records
        let mut a = match parse(&text)? { Ok(a) => a, Err(e) => return viol("correct file rejected", format!("{e}\n{text}")) };
        if base.is_some() { a.commands.remove(0); }
        let start = match &base { Some(b) => match s.get(b, false)? { Ok((t, _)) => match load(&t)? { Ok(b) => Some(b), Err(e) => return viol("stored bundle does not load", e) }, Err(e) => return viol("built bundle cannot be fetched", format!("{e:?}")) }, None => None };
        let b = match build_ast(start, &a)? { Ok(b) => b, Err(e) => return viol("correct file rejected", format!("{e:?}\n{text}")) };
        ensure(b.steps.len() == own.len(), "number of steps", || format!("{} instructions, {} steps", own.len(), b.steps.len()))?;
        let mut steps = vec![];
        for (c, st) in own.iter().zip(&b.steps) {
            let j = serde_json::to_string(&st.command).unwrap_or_default();
            match crate::decode::cmd(&st.command) { Ok(d) if d == *c => {} o => return viol("step holds another instruction", format!("{c:?}\n{o:?}")) }
            steps.push((j, encode(&st.result)?));
        }
        let want = expected(&own, &steps)?;
        let got = recorded(&b)?;
        ensure(got.len() == want.len(), "number of records", || format!("{} steps, {} records", want.len(), got.len()))?;
        for (n, (w, g)) in want.iter().zip(&got).enumerate() {
            x.eval();
            ensure(w == g, "record of a step is wrong", || format!("step {} {:?}\nexpected {w:?}\ngot {g:?}", n + 1, own[n]))?;
            x.state(&format!("{w:?}"));
            if w.cb.as_ref().is_some_and(|c| c.1.is_some()) { x.count("capture bases with a parent", 1); }
            if w.ov.as_ref().is_some_and(|c| c.1.is_some()) { x.count("overlays with a parent", 1); }
        }
        // what the facade stores
        match s.build(&text)? { Ok(_) => {} Err(e) => return viol("correct file rejected", format!("{}\n{text}", show_err(&e))) }
        fold(&mut stored, &want);
        x.eval();
        check_store(&s, &stored)?;
        if base.is_some() { x.count("builds that continue another", 1); }
        let last = sad::check_d(&steps[steps.len() - 1].1).unwrap_or_default();
        all.push((whole, last));
    }
    x.sample(|| json!({"files": all.iter().map(|a| render::plain(&a.0)).collect::<Vec<_>>()}));
    Ok(())
}

// ---------------------------------------------------------------- C24
use oca_file::ocafile::OCAAst as Any;
fn tr_parse(text: &str) -> Result<Result<oca_ast_transformation::ast::TransformationAST, String>, Stop> { guard("parsing a transformation", || oca_file_transformation::ocafile::parse_from_string(text.to_string()).map_err(|e| e.to_string())) }
pub fn tr_build(a: &oca_ast_transformation::ast::TransformationAST) -> Result<Result<transformation_file::state::Transformation, String>, Stop> { guard("building a transformation", || transformation_file::build::from_ast(a).map_err(|e| format!("{e:?}"))) }
pub fn tr_encode(t: &transformation_file::state::Transformation) -> Result<String, Stop> {
    use said::version::Encode;
    match guard("encoding a transformation", || t.encode(&oca_rs::HashFunctionCode::Blake3_256, &oca_rs::SerializationFormats::JSON).map_err(|e| e.to_string()))? { Ok(v) => Ok(String::from_utf8_lossy(&v).into_owned()), Err(e) => viol("encoding fails", e) }
}
fn kind(text: &str) -> Result<&'static str, Stop> { guard("parsing", || match oca_file::ocafile::parse_from_string(text.to_string()) { Ok(Any::TransformationAst(_)) => "transformation", Ok(Any::SemanticsAst(_)) => "semantics", Err(oca_file::ocafile::error::ParseError::TransformationError(_)) => "bad transformation", Err(oca_file::ocafile::error::ParseError::SemanticsError(_)) => "bad semantics", Err(_) => "error" }) }
/// The transformation a file must give.
fn check_built(f: &tr::TrFile, t: &transformation_file::state::Transformation) -> R {
    let j = tr_encode(t)?;
    let v: Value = serde_json::from_str(&j).unwrap_or_default();
    let m: Pairs = v["attributes"].as_object().map(|m| m.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap_or_default().to_string())).collect()).unwrap_or_default();
    let (mut a, mut b) = (m, f.pairs());
    a.sort();
    b.sort();
    ensure(a == b, "pairs of the transformation", || format!("expected {b:?}\ngot {a:?}"))?;
    ensure(v["source"] == json!(f.get("source")) && v["target"] == json!(f.get("target")), "source and target", || format!("{:?}\n{j}", f.meta))?;
    let keys: Vec<&String> = v.as_object().map(|m| m.keys().collect()).unwrap_or_default();
    ensure({ let mut k: Vec<&str> = keys.iter().map(|k| k.as_str()).collect(); k.sort(); k == ["attributes", "d", "source", "target", "v"] }, "members of the transformation", || j.clone())?;
    if let Err(e) = sad::check_version(&j, "OCAT10") { return viol("version of the transformation", format!("{e}\n{j}")); }
    match sad::check_d(&j) { Ok(d) => ensure(t.said.as_ref().map(|s| s.to_string()) == Some(d.clone()), "identifier of the transformation", || format!("{:?} / {d}", t.said)), Err(e) => viol("identifier of the transformation", format!("{e}\n{j}")) }
}
/// A text that is nearly a file.
pub fn mangle(r: &mut Rng, text: &str) -> String {
    let mut c: Vec<char> = text.chars().collect();
    for _ in 0..r.range(1, 5) {
        let at = if c.is_empty() { 0 } else { r.below(c.len() + 1) };
        match r.below(7) {
            0 => { if at < c.len() { c.remove(at); } }
            1 => { let n = r.range(1, 12).min(c.len() - at); c.drain(at..at + n); }
            2 => { let s: Vec<char> = r.pick(&["->", "=", "--", "#", "\\", "\n", "\"", "'", "[", "]", "{", "}", "(", ":", ",", "\u{0}", "\u{1F}", "\r", "é", "漢", "\u{202E}", "refs:", "refn:", "Array", "ATTRIBUTE", "ADD ", "RENAME ", "FROM ", "\\u00e9", "\\U0001F600", "\\", "${", "}}", "\t"]).chars().collect(); c.splice(at..at, s); }
            3 => { let w = gen::wild_char(r); c.insert(at, w); }
            4 => { if !c.is_empty() { let from = r.below(c.len()); let n = r.range(1, 30).min(c.len() - from); let s: Vec<char> = c[from..from + n].to_vec(); c.splice(at..at, s); } }
            5 => { c.truncate(at); }
            _ => { if c.len() > 1 { let (i, j) = (r.below(c.len()), r.below(c.len())); c.swap(i, j); } }
        }
    }
    c.into_iter().collect()
}
pub fn c24(x: &mut Ctx, i: u64, r: &mut Rng) -> R {
    let front = r.chance(1, 2);
    let f = tr::file(r, front);
    let (text, lines) = { let mut rr = r.clone(); if r.chance(1, 3) { tr::render_lines(&f, None) } else { tr::render_lines(&f, Some(&mut rr)) } };
    x.note("file", text.clone());
    x.eval();
    let a = match tr_parse(&text)? { Ok(a) => a, Err(e) => return viol("correct transformation rejected", format!("{e}\n{text}")) };
    let want = f.read();
    match tr::decode(&a) { Ok(g) => ensure(g == want, "transformation read wrongly", || format!("expected {want:?}\ngot {g:?}\n{text}"))?, Err(e) => return viol("transformation read wrongly", format!("{e}\n{text}")) }
    ensure(a.commands_meta.len() == f.cmds.len(), "places of instructions", || format!("{:?}", a.commands_meta))?;
    for (n, (line, said)) in lines.iter().enumerate() { let Some(p) = a.commands_meta.get(&n) else { return viol("places of instructions", format!("{n}: none\n{text}")) }; ensure(p.line_number == *line && p.raw_line.trim_end() == said.trim_end(), "places of instructions", || format!("instruction {}: expected line {line}: {said:?}\ngot {}: {:?}\n{text}", n + 1, p.line_number, p.raw_line))?; }
    match tr_build(&a)? { Ok(t) => { check_built(&f, &t)?; x.state(&tr_encode(&t)?); x.count("built", 1); } Err(e) => return viol("correct transformation rejected", format!("{e}\n{text}")) }
    // source and target are wanted when there is metadata
    if f.get("source").is_some() {
        let which = *r.pick(&["source", "target"]);
        let g = tr::TrFile { meta: f.meta.iter().filter(|m| m.0 != which).cloned().collect(), cmds: f.cmds.clone() };
        if !g.meta.is_empty() {
            let t = tr::render(&g, None);
            x.note("file", t.clone());
            x.eval();
            match tr_parse(&t)? { Ok(a) => { if tr_build(&a)?.is_ok() { return viol("transformation without source or target accepted", t); } x.count("without source or target", 1); } Err(e) => return viol("correct transformation rejected", format!("{e}\n{t}")) }
        }
    }
    // which files are transformations
    let mut cmds = gen::cmds(r, &GenCfg { max_cmds: 5, ..Default::default() });
    if r.chance(1, 2) { if let Some(n) = Model::run(&cmds).ok().and_then(|m| m.attrs.keys().next().cloned()) { cmds.push(Cmd::Label("en".into(), vec![(n, r.pick(&["-- precompiler=transformation", "x -- precompiler=transformation", "-- precompiler=other", "--precompiler=transformation --name=x"]).to_string())])); } }
    let sem = { let mut rr = r.clone(); render::file(&File { meta: vec![], cmds }, if r.chance(1, 2) { None } else { Some(&mut rr) }).text };
    let is_tr = r.chance(1, 2);
    let body = if is_tr { tr::render(&tr::TrFile { meta: f.meta.iter().filter(|m| m.0 != "precompiler").cloned().collect(), cmds: f.cmds.clone() }, None) } else { sem };
    let body = if r.chance(1, 4) { format!("# -- precompiler={}\n{body}", r.pick(&["transformation", "other"])) } else { body };
    let says = *r.pick(&["transformation", "transformation", "semantics", "semantics", "", "", "Transformation", "\"transformation\"", "transformations", "transformatio", "x", "'semantics'", "TRANSFORMATION", "Semantics"]);
    let line = if says.is_empty() { String::new() } else { format!("--{}precompiler{}={}{says}\n", r.pick(&[" ", "", "  "]), r.pick(&["", " "]), r.pick(&["", " "])) };
    // the line may stand anywhere a line may begin
    let text = if !line.is_empty() && r.chance(1, 3) { let b = if body.is_empty() || body.ends_with('\n') { body.clone() } else { format!("{body}\n") }; if b.trim_end_matches(['\n', ' ', '\t', '\r']).ends_with('\\') { format!("{line}{b}") } else { format!("{b}{line}") } } else { format!("{line}{body}") };
    x.note("file", text.clone());
    x.eval();
    let empty = is_tr && f.cmds.is_empty();
    let want = match says { "transformation" if is_tr => "transformation", "transformation" => "bad transformation", "semantics" | "" if !is_tr => "semantics", "semantics" | "" => "bad semantics", _ => "error" };
    let got = kind(&text)?;
    let ok = got == want || (empty && got == want.trim_start_matches("bad "));
    ensure(ok, "file taken for the wrong kind", || format!("expected {want}, got {got}\n{text}"))?;
    x.count(&format!("files taken for: {got}"), 1);
    match Sys::new().build(&text)? {
        Ok(_) => ensure(got == "semantics", "transformation built as a bundle", || text.clone())?,
        Err(_) if empty => {}
        Err(e) => { ensure(got != "semantics", "correct file rejected", || format!("{}\n{text}", show_err(&e)))?; if got == "transformation" { ensure(matches!(e, oca_rs::facade::build::Error::Deprecated), "transformation given to the facade", || show_err(&e))?; } }
    }
    // hostile texts
    let base = tr::render(&f, Some(&mut r.clone()));
    for k in 0..6 {
        let t = match (i % 16, k) {
            (0, 0) => { let n = *r.pick(&[2_000usize, 20_000, 100_000]); r.pick(&["RENAME ATTRIBUTE a=", "LINK ATTRIBUTE a->b ", "-- ", "\\\n", "# x\n", "a", "\n", "-- name=\"", "'"]).repeat(n) }
            (0, 1) => format!("RENAME ATTRIBUTE{}", " \\\n".repeat(20_000)),
            (0, 2) => format!("LINK ATTRIBUTE{}", " k->v".repeat(20_000)),
            _ => mangle(r, &base),
        };
        x.note("file", clip(&t, 3000));
        x.eval();
        let _ = kind(&t)?;
        if let Ok(a) = tr_parse(&t)? {
            x.count("damaged but accepted", 1);
            if let Ok(b) = tr_build(&a)? { let j = tr_encode(&b)?; if let Err(e) = sad::check_d(&j) { return viol("identifier of the transformation", format!("{e}\n{j}")); } }
            // whatever was accepted is what it says
            if let Ok(g) = tr::decode(&a) { let back = tr::render(&g, None); if g.cmds.iter().all(|c| !c.pairs.is_empty()) { match tr_parse(&back)? { Ok(a2) => ensure(tr::decode(&a2).ok() == Some(g), "transformation read wrongly", || format!("{t}\n--- again\n{back}"))?, Err(e) => return viol("transformation read wrongly", format!("{e}\n{t}\n--- again\n{back}")) } } }
        } else { x.count("damaged and refused", 1); }
    }
    x.sample(|| json!({"file": base}));
    Ok(())
}

// ---------------------------------------------------------------- C25
use oca_rs::facade::bundle::{self, Bundle, BundleElement};
pub fn c25(x: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let g = GenCfg { wild: 40, ..Default::default() };
    let text = render::plain(&gen::cmds(r, &g));
    x.note("ocafile", text.clone());
    let (b, bt) = Sys::new().must_build(&text)?;
    let mut ts = vec![];
    for _ in 0..r.below(5) {
        let f = { let front = r.chance(1, 2); tr::file(r, front) };
        let t = tr::render(&f, None);
        let a = match tr_parse(&t)? { Ok(a) => a, Err(e) => return viol("correct transformation rejected", format!("{e}\n{t}")) };
        match tr_build(&a)? { Ok(t) => ts.push(t), Err(e) => return viol("correct transformation rejected", format!("{e}\n{t}")) }
    }
    // the same one again: next to itself, elsewhere, several times; or the empty one
    while !ts.is_empty() && ts.len() < 8 && r.chance(1, 3) { let t = r.pick(&ts).clone(); let at = r.below(ts.len() + 1); ts.insert(at, t); }
    let texts = ts.iter().map(tr_encode).collect::<Result<Vec<_>, _>>()?;
    x.note("transformations", json!(texts));
    let mut all = Bundle::new();
    // the structural bundle may come at any place, and the last one counts
    let at = r.below(ts.len() + 1);
    if r.chance(1, 4) { let (o, _) = Sys::new().must_build("ADD ATTRIBUTE other=Text\n")?; all.add(BundleElement::Structural(o)); }
    let mut early = at;
    for (n, t) in ts.iter().enumerate() { if n == at { all.add(BundleElement::Structural(b.clone())); early = ts.len(); } all.add(BundleElement::Transformation(t.clone())); }
    if early == at && early == ts.len() || ts.is_empty() { all.add(BundleElement::Structural(b.clone())); }
    if all.structural.as_ref().and_then(|s| s.said.clone()) != b.said { all.add(BundleElement::Structural(b.clone())); }
    let enc = |all: &Bundle| -> Result<String, Stop> { match guard("encoding a combined bundle", || all.encode().map_err(|e| e.to_string()))? { Ok(t) => Ok(t), Err(e) => viol("encoding fails", e) } };
    let j = enc(&all)?;
    x.note("json", j.clone());
    let judge = |j: &str| -> R {
        let Some(m) = sad::members(j) else { return viol("not a plain object", j.to_string()) };
        ensure({ let mut k: Vec<&str> = m.iter().map(|p| p.0.as_str()).collect(); k.sort(); k == ["d", "m", "t", "v"] }, "members of the combined bundle", || j.to_string())?;
        let get = |k: &str| m.iter().find(|p| p.0 == k).map(|p| p.1.clone()).unwrap_or_default();
        ensure(get("m") == bt, "structural part differs", || format!("alone {bt}\ninside {}", get("m")))?;
        ensure(sad::elements(&get("t")).as_ref() == Some(&texts), "transformations differ", || format!("alone {texts:?}\ninside {}", get("t")))?;
        if let Err(e) = sad::check_version(j, "OCAB00") { return viol("version of the combined bundle", format!("{e}\n{j}")); }
        if let Err(e) = sad::check_d(j) { return viol("identifier of the combined bundle", format!("{e}\n{j}")); }
        Ok(())
    };
    x.eval();
    judge(&j)?;
    x.state(&j);
    x.count("transformations", texts.len() as u64);
    ensure(enc(&all.clone())? == j, "encoding again differs", || j.clone())?;
    let mut filled = all.clone();
    guard("filling the identifier", || filled.fill_said())?;
    ensure(filled.said.as_ref().map(|s| s.to_string()) == sad::check_d(&j).ok(), "identifier filled in differs from the encoded one", || format!("{:?}\n{j}", filled.said))?;
    ensure(enc(&filled)? == j, "encoding again differs", || j.clone())?;
    // filling in follows what is added later
    if r.chance(1, 3) {
        let (o, _) = Sys::new().must_build("ADD ATTRIBUTE another=Text\n")?;
        filled.add(BundleElement::Structural(o));
        guard("filling the identifier", || filled.fill_said())?;
        let j2 = enc(&filled)?;
        x.eval();
        ensure(filled.said.as_ref().map(|s| s.to_string()) == sad::check_d(&j2).ok(), "identifier filled in differs from the encoded one", || format!("{:?}\n{j2}", filled.said))?;
        ensure(j2 != j, "another structural part, the same encoding", || j.clone())?;
        x.count("structural part replaced", 1);
    }
    // and a bundle of transformations only
    if r.chance(1, 3) {
        let mut only = Bundle::new();
        for t in &ts { only.add(BundleElement::Transformation(t.clone())); }
        guard("filling the identifier", || only.fill_said())?;
        let j2 = enc(&only)?;
        x.eval();
        let Some(m) = sad::members(&j2) else { return viol("not a plain object", j2) };
        let get = |k: &str| m.iter().find(|p| p.0 == k).map(|p| p.1.clone()).unwrap_or_default();
        ensure(get("m") == "null", "structural part out of nowhere", || j2.clone())?;
        ensure(sad::elements(&get("t")).as_ref() == Some(&texts), "transformations differ", || format!("alone {texts:?}\ninside {}", get("t")))?;
        if let Err(e) = sad::check_version(&j2, "OCAB00") { return viol("version of the combined bundle", format!("{e}\n{j2}")); }
        match sad::check_d(&j2) { Err(e) => return viol("identifier of the combined bundle", format!("{e}\n{j2}")), Ok(d) => ensure(only.said.as_ref().map(|s| s.to_string()) == Some(d), "identifier filled in differs from the encoded one", || format!("{:?}\n{j2}", only.said))? }
        match guard("loading a combined bundle", || bundle::load_oca(&mut j2.as_bytes()).map_err(|e| e.to_string()))? { Ok(l) => { ensure(l.structural.is_none(), "structural part out of nowhere", || j2.clone())?; ensure(enc(&l)? == j2, "encoding after loading differs", || j2.clone())? } Err(e) => return viol("encoded combined bundle does not load", format!("{e}\n{j2}")) }
        x.count("bundles of transformations only", 1);
    }
    // loading gives the same parts
    x.eval();
    let l = match guard("loading a combined bundle", || bundle::load_oca(&mut j.as_bytes()).map_err(|e| e.to_string()))? { Ok(l) => l, Err(e) => return viol("encoded combined bundle does not load", format!("{e}\n{j}")) };
    let Some(s) = &l.structural else { return viol("structural part lost", j) };
    ensure(encode(s)? == bt, "structural part differs after loading", || bt.clone())?;
    ensure(s.said == b.said, "identifier differs after loading", || format!("{:?}", s.said))?;
    let t2 = l.transformations.iter().map(tr_encode).collect::<Result<Vec<_>, _>>()?;
    ensure(t2 == texts, "transformations differ after loading", || format!("{texts:?}\n{t2:?}"))?;
    ensure(l.said.as_ref().map(|s| s.to_string()) == sad::check_d(&j).ok(), "identifier differs after loading", || format!("{:?}", l.said))?;
    ensure(enc(&l)? == j, "encoding after loading differs", || j.clone())?;
    // damaged JSON must not crash the loader
    for _ in 0..4 {
        let d = mangle(r, &j);
        x.note("damaged", d.clone());
        x.eval();
        if let Ok(l) = guard("loading a combined bundle", || bundle::load_oca(&mut d.as_bytes()).map_err(|e| e.to_string()))? { let _ = enc(&l)?; x.count("damaged but loaded", 1); } else { x.count("damaged and refused", 1); }
    }
    x.sample(|| json!({"json": clip(&j, 2000)}));
    Ok(())
}
