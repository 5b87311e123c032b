//! OCAFile texts: hostile ones, regenerated ones, places of errors (C02, C09, C27).
use crate::gen::{self, GenCfg};
use crate::model::*;
use crate::render;
use crate::rng::Rng;
use crate::run::*;
use crate::sad;
use crate::sys::*;
use oca_ast_semantics::ast::OCAAst;
use oca_rs::facade::build::{Error, ValidationError};
use oca_rs::facade::build::References;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};

struct Refs(HashMap<String, String>);
impl References for Refs {
    fn find(&self, n: &str) -> Option<String> { self.0.get(n).cloned() }
    fn save(&mut self, n: &str, v: String) { self.0.insert(n.into(), v); }
}

// ---------------------------------------------------------------- C02
/// What never could be built, and what nearly could.
fn hostile(r: &mut Rng, good: &str, ids: &[String]) -> String {
    let said = ids.first().cloned().unwrap_or_else(|| gen::fake_saids()[0].clone());
    let n = *r.pick(&[1usize, 2, 3, 40, 300]);
    match r.below(12) {
        0..=4 => super::rules::mangle(r, good),
        5 => { let other = super::rules::mangle(r, good); let cut: Vec<char> = good.chars().collect(); let k = r.below(cut.len() + 1); format!("{}{}", cut[..k].iter().collect::<String>(), other) }
        6 => { // words in any order
            const W: [&str; 60] = ["ADD", "REMOVE", "FROM", "MODIFY", "ATTRIBUTE", "ATTRS", "LABEL", "META", "PROPS", "en", "pl", "xx", "en-US", "CLASSIFICATION", "FLAGGED_ATTRIBUTES", "UNIT", "ENTRY", "ENTRY_CODE", "CONDITION", "LINK", "ATTR_FRAMING", "CARDINALITY", "CONFORMANCE",
                "FORMAT", "CHARACTER_ENCODING", "INFORMATION", "a=Text", "b=Numeric", "a", "b", "=", "a=", "=Text", "a=\"x\"", "a='y'", "a=[\"o1\", \"o2\"]", "a={\"o1\": \"x\"}", "a={\"g\": [\"o1\"]}", "a=Array[Text]", "a=Array[", "]", "refs:", "refn:", "a=refn:x", "id=\"f\"", "\\\n", "\n", "\n", "\n", "#", "--", "-- name=x", "\"", "'", "{", "}", "[", "\t", "\r\n", "\u{feff}"];
            (0..r.range(1, 25)).map(|_| *r.pick(&W)).collect::<Vec<_>>().join(if r.chance(1, 5) { "" } else { " " })
        }
        7 => { // identifiers that are none
            let bad = match r.below(10) { 0 => "0".into(), 1 => "E".into(), 2 => said[..r.range(1, 43)].to_string(), 3 => format!("{said}A"), 4 => said.replace('E', "0"), 5 => "é".into(), 6 => "żż".into(), 7 => "A漢".into(), 8 => format!("0{}", "A".repeat(r.below(90))), _ => { let c: Vec<char> = "ABCDEFGHIJabc0123456789-_".chars().collect(); (0..r.below(60)).map(|_| *r.pick(&c)).collect() } };
            match r.below(6) { 0 => format!("FROM {bad}\n"), 1 => format!("FROM {bad}\nADD ATTRIBUTE a=Text\n"), 2 => format!("ADD ATTRIBUTE a=refs:{bad}\n"), 3 => format!("ADD ATTRIBUTE a=Array[Array[refs:{bad}]]\n"), 4 => format!("ADD ATTRIBUTE a=Text\nADD LINK refs:{bad} ATTRS a=\"x\"\n"), _ => format!("ADD ATTRIBUTE a=Text\nADD ENTRY_CODE ATTRS a=refs:{bad}\nADD ENTRY en ATTRS a=refs:{bad}\n") }
        }
        8 => { // deep and long
            let n = n * *r.pick(&[1usize, 10, 300]);
            let n = n.min(60_000);
            match r.below(12) {
                0 => format!("ADD ATTRIBUTE a={}Text{}\n", "Array[".repeat(n), "]".repeat(n)),
                1 => format!("ADD ATTRIBUTE a={}Text\n", "Array[".repeat(n)),
                2 => format!("ADD ATTRIBUTE a={}Text\n", "[".repeat(n)),
                3 => format!("ADD ATTRIBUTE a=Text\nADD ENTRY en ATTRS a={}\n", "{\"a\":".repeat(n)),
                4 => format!("ADD ATTRIBUTE a=Text\nADD ENTRY_CODE ATTRS a={}\n", "[".repeat(n)),
                5 => format!("ADD ATTRIBUTE a=Text\nADD ATTR_FRAMING id=\"x\" ATTRS a={}\n", "{\"u\":".repeat(n)),
                6 => format!("ADD ATTRIBUTE{}", " \\\n".repeat(n)),
                7 => format!("ADD ATTRIBUTE{} a=Text", " \\\n # c \n\n".repeat(n)),
                8 => "\n# x\n".repeat(n),
                9 => format!("ADD ATTRIBUTE a=Text\nADD LABEL en ATTRS a=\"{}\"\n", r.pick(&["x", "\\\\", "\\\"", "漢", " ", "\n", "\\u0041"]).repeat(n)),
                10 => format!("-- {}\nADD ATTRIBUTE a=Text\n", "name=x ".repeat(n)),
                _ => format!("ADD ATTRIBUTE {}\n", (0..n.min(3000)).map(|i| format!("a{i}=Text")).collect::<Vec<_>>().join(" ")),
            }
        }
        9 => { let mut s = String::new(); for _ in 0..r.range(1, 60) { match r.below(4) { 0 => s.push(char::from_u32(r.below(0x80) as u32).unwrap_or('x')), 1 => s.push_str(r.pick(&["ADD ", "ATTRIBUTE ", "=", "\n", "\"", "\\"])), _ => s.push(gen::wild_char(r)) } } s }
        10 => { // correct but for one thing
            let l = *r.pick(&["ADD LABEL xx ATTRS a=\"x\"", "ADD CHARACTER_ENCODING ATTRS a=\"klingon\"", "ADD LABEL en ATTRS zz=\"x\"", "ADD ATTRIBUTE a=Text", "REMOVE ATTRIBUTE zz", "REMOVE CLASSIFICATION", "FROM x", "ADD ATTRIBUTE q=refn:nobody", "ADD LINK refn:nobody ATTRS a=\"x\"", "ADD FLAGGED_ATTRIBUTES zz", "ADD META en PROPS", "ADD ATTR_FRAMING label=\"x\" ATTRS a={}", "ADD META en PROPS digest=\"x\"", "ADD CONDITION ATTRS a=\"${a\"", "ADD CONDITION ATTRS a=\"${}\"", "ADD CONDITION ATTRS a=\"${99999999999999999999999999}\"", "MODIFY ATTRIBUTE a=Text", "ADD ENTRY en ATTRS a={\"x\":\"y\",}", "ADD LABEL en-US ATTRS a=\"x\""]);
            format!("ADD ATTRIBUTE a=Text\n{l}\n{}", if r.chance(1, 3) { "ADD LABEL en ATTRS a=\"x\"" } else { "" })
        }
        _ => { let m = r.pick(&["-- precompiler=transformation", "-- precompiler=semantics", "-- precompiler=x", "-- name=\"", "-- name=", "--", "-- foo=bar", "-- name=a name=b", "--name=é", "-- name=\"\"", "-- name=''", "-- source=x", "-- name='a\nb'"]); format!("{m}\n{good}") }
    }
}
/// Everything one can do with a text.
fn exercise(x: &mut Ctx, s: &mut Sys, t: &str) -> Result<bool, Stop> {
    let _ = guard("parsing", || oca_file::ocafile::parse_from_string(t.to_string()).is_ok())?;
    let sem = guard("parsing", || oca_file_semantics::ocafile::parse_from_string(t.to_string()))?;
    if let Ok(a) = &sem {
        let _ = guard("listing instructions as JSON", || serde_json::to_string(a).is_ok())?;
        let _ = guard("generating an OCAFile", || oca_file_semantics::ocafile::generate_from_ast(a))?;
        let _ = build_ast(None, a)?.is_ok();
        x.count("texts that parse", 1);
    }
    let _ = guard("building", || oca_rs::facade::build::build_from_ocafile(t.to_string()).is_ok())?;
    let mut refs = Refs(HashMap::new());
    let v = guard("validating", || s.f.validate_ocafile_with_external_references(t.to_string(), &mut refs).is_ok())?;
    let p = guard("validating", || s.f.validate_ocafile(t.to_string()).is_ok())?;
    let b = s.build(t)?;
    match b {
        Ok(b) => {
            x.count("texts that build", 1);
            ensure(p, "build and validation disagree", || t.to_string())?;
            let id = id_of(&b)?;
            let _ = encode(&b)?;
            let _ = s.to_ocafile(&b)?;
            let _ = guard("turning a bundle into an OCAFile", || oca_rs::facade::build::parse_oca_bundle_to_ocafile(&b))?;
            for d in [false, true] { let _ = s.ocafile(&id, d)?; let _ = s.get(&id, d)?; }
            let _ = s.ast_of(&id)?;
            let _ = s.steps(&id)?;
            let _ = s.explore(&id)?;
            Ok(true)
        }
        Err(_) => { x.count("texts refused", 1); let _ = v; Ok(false) }
    }
}
pub fn c02(x: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let g = GenCfg { max_cmds: 8, wild: 40, ..Default::default() };
    // some on a store that keeps its values in files
    let fs = _i % 6 == 4;
    let mut s = if fs { use super::backends::*; let d = x.dir("files"); let st = open_store(Kind::Fs, &d)?; facade(st.clone(), st, None)? } else { Sys::new() };
    // a file of its own to see that the facade still works
    let good: Vec<(String, String)> = { let mut v = vec![]; for _ in 0..2 { let c = gen::cmds(r, &g); let t = render::plain(&c); let (_, j) = Sys::new().must_build(&t)?; v.push((t, j)); } v };
    let (b0, _) = s.must_build(&good[0].0)?;
    let ids = vec![id_of(&b0)?];
    let wild = { let cmds = gen::cmds(r, &g); let mut rr = r.clone(); render::file(&File { meta: gen::file_meta(r), cmds }, Some(&mut rr)).text };
    for k in 0..5 {
        let mut base = if r.chance(1, 2) { wild.clone() } else { good[k % 2].0.clone() };
        if r.chance(1, 5) { base = format!("FROM {}\n{base}", ids[0]); }
        if r.chance(1, 8) { let f = crate::tr::file(r, true); base = crate::tr::render(&f, Some(&mut r.clone())); let _ = r.next(); }
        let t = if fs && r.chance(1, 2) { let n = r.pick(&["n", "ż", "/", ".", "a.b", "%", "漢"]).repeat(*r.pick(&[1usize, 2, 60, 85, 120, 128, 250, 255, 256, 300, 1000, 5000])); match r.below(4) { 0 | 1 => format!("-- name={n}\n{base}"), 2 => format!("{base}\nADD ATTRIBUTE zzz=refn:{n}\n"), _ => format!("-- name={n}\n{base}\nADD ATTRIBUTE zzz=Array[refn:{n}]\n") } } else { hostile(r, &base, &ids) };
        x.note("text", clip(&t, 4000));
        x.note("text length", t.len());
        x.eval();
        let ok = exercise(x, &mut s, &t)?;
        x.state(&t);
        if !ok {
            // it still builds what it should, from here and from before
            x.eval();
            let (q, want) = &good[k % 2];
            let (_, got) = s.must_build(q)?;
            ensure(got == *want, "facade builds something else after an error", || format!("expected {want}\ngot {got}\n--- file\n{q}\n--- after\n{t}"))?;
        }
    }
    x.sample(|| json!({"base": clip(&wild, 600)}));
    Ok(())
}

// ---------------------------------------------------------------- C09
fn regenerate(a: &OCAAst) -> Result<String, Stop> { guard("generating an OCAFile", || oca_file_semantics::ocafile::generate_from_ast(a)) }
fn same_list(x: &mut Ctx, a: &OCAAst, want: &[Cmd]) -> R {
    let t = regenerate(a)?;
    x.note("generated", clip(&t, 6000));
    x.eval();
    let b = match guard("parsing", || oca_file_semantics::ocafile::parse_from_string(t.clone()).map_err(|e| format!("{e:?}")))? { Ok(b) => b, Err(e) => return viol("generated OCAFile does not parse", format!("{e}\n{t}")) };
    match crate::decode::ast(&b) {
        Ok(f) => {
            if f.cmds.len() != want.len() { return viol("number of instructions after regeneration", format!("expected {}, got {}\n{t}", want.len(), f.cmds.len())); }
            for (w, g) in want.iter().zip(&f.cmds) { ensure(w == g, "instruction differs after regeneration", || format!("expected {w:?}\ngot {g:?}\n{t}"))?; }
        }
        Err(e) => return viol("number of instructions after regeneration", format!("{e}\n{t}")),
    }
    // the list itself, as the library compares it
    let (fa, fb) = (flat(a), flat(&b));
    ensure(fa == fb, "instruction differs after regeneration", || format!("{fa:?}\n{fb:?}"))?;
    let again = regenerate(&b)?;
    ensure(again == t, "regenerating again differs", || format!("{t}\n---\n{again}"))
}
/// The instructions of a list as the library keeps them, one for each thing it says: a bundle's
/// own list says several in its first instruction, and nothing is written in two ways.
fn flat(a: &OCAAst) -> Vec<Value> {
    let mut out = vec![];
    for c in &a.commands {
        let mut v = serde_json::to_value(c).unwrap_or_default();
        for p in ["/object_kind/Overlay/1", "/object_kind/CaptureBase"].iter() { if let Some(Value::Object(m)) = v.pointer_mut(p) { prune(m); } }
        if let Some(m) = v.as_object_mut() { let inner: Vec<String> = m.keys().cloned().collect(); for k in inner { if let Some(Value::Object(o)) = m.get_mut(&k) { prune(o); } } prune(m); }
        let parts = ["attributes", "properties", "flagged_attributes"];
        let cb = format!("{:?}", c.object_kind).starts_with("CaptureBase");
        let mut hits = vec![];
        for p in parts { if !find_key(&v, p) { continue; } hits.push(p); }
        if !cb { out.push(v); continue; }
        for p in &hits { let mut w = v.clone(); for q in parts { if q != *p { drop_key(&mut w, q); } } out.push(w); }
    }
    out
}
fn prune(m: &mut serde_json::Map<String, Value>) {
    for k in ["attributes", "properties", "flagged_attributes"] { let empty = match m.get(k) { Some(Value::Null) => true, Some(Value::Object(o)) => o.is_empty(), Some(Value::Array(a)) => a.is_empty(), _ => false }; if empty { m.remove(k); } }
}
fn find_key(v: &Value, k: &str) -> bool { v.as_object().is_some_and(|m| m.contains_key(k) || m.values().any(|w| w.as_object().is_some_and(|o| o.contains_key(k)))) }
fn drop_key(v: &mut Value, k: &str) { if let Some(m) = v.as_object_mut() { m.remove(k); for w in m.values_mut() { if let Some(o) = w.as_object_mut() { o.remove(k); } } } }
fn same_bundle(x: &mut Ctx, t: &str, want: &str, how: &str) -> R {
    x.note("generated", clip(t, 6000));
    x.eval();
    match guard("building", || oca_rs::facade::build::build_from_ocafile(t.to_string()))? {
        Ok(b) => { let g = encode(&b)?; if g != want { let d = diff(&serde_json::from_str(want).unwrap_or_default(), &serde_json::from_str(&g).unwrap_or_default(), ""); return viol("regenerated file builds another bundle", format!("{how}: {d:?}\n--- generated\n{t}")); } Ok(()) }
        Err(e) => viol("regenerated file does not build", format!("{how}: {}\n--- generated\n{t}", show_err(&e))),
    }
}
pub fn c09(x: &mut Ctx, i: u64, r: &mut Rng) -> R {
    let mut g = GenCfg { wild: *r.pick(&[0, 25, 60, 100]), max_cmds: 18, depth: 5, ..Default::default() };
    if i % 3 == 0 { g.names = gen::few_names(r, 1, 4); }
    // lists that hold everything a file may hold: also FROM and names
    let mut cmds = gen::cmds(r, &g);
    let plain = cmds.clone();
    if r.chance(1, 5) { cmds.insert(0, Cmd::From(gen::fake_saids()[0].clone())); }
    if r.chance(1, 4) {
        let mut h = g.clone();
        h.refnames = ["person", "x-1", "Some.name_2", "a:b/c", "żaba"].map(String::from).to_vec();
        h.refs = 60;
        let free: Vec<String> = (0..3).map(|k| format!("new{k}")).collect();
        let more = free.iter().map(|n| (n.clone(), gen::ty(r, &h))).collect::<Vec<_>>();
        cmds.push(Cmd::AddAttr(more));
        if r.chance(1, 2) { cmds.push(Cmd::Link(Target::Name(r.pick(&h.refnames).clone()), vec![(free[0].clone(), gen::value(r, &h))])); }
    }
    let f = File { meta: vec![], cmds: cmds.clone() };
    let text = { let mut rr = r.clone(); if r.chance(1, 2) { render::plain(&cmds) } else { render::file(&f, Some(&mut rr)).text } };
    x.note("ocafile", text.clone());
    let a = match parse(&text)? { Ok(a) => a, Err(e) => return viol("correct file rejected", format!("{e}\n{text}")) };
    same_list(x, &a, &cmds)?;
    // a list that came as JSON
    let j = serde_json::to_string(&a).unwrap_or_default();
    if let Ok(a2) = guard("reading instructions", || serde_json::from_str::<OCAAst>(&j))? { same_list(x, &a2, &cmds)?; }
    // removals that no build supports are instructions too
    if i % 4 == 1 {
        let mut t = render::plain(&cmds);
        for _ in 0..r.range(1, 3) {
            let (k, w) = *r.pick(&[("META", "PROPS"), ("LABEL", "ATTRS")]);
            let l = *r.pick(&["en", "pl", "en-US", "xx"]);
            let keys = (0..r.below(4)).map(|_| format!(" {}", r.pick(&["name", "a", "b-1", "x_2"]))).collect::<BTreeSet<_>>().into_iter().collect::<String>();
            t.push_str(&format!("\nREMOVE {k} {l}{}\n", if keys.is_empty() { String::new() } else { format!(" {w}{keys}") }));
            x.state(&format!("REMOVE {k} {l}{keys}"));
        }
        x.note("ocafile", t.clone());
        x.eval();
        match parse(&t)? {
            Ok(a) => { let g = regenerate(&a)?; x.note("generated", clip(&g, 6000)); match parse(&g)? { Ok(b) => { let (fa, fb) = (flat(&a), flat(&b)); ensure(fa == fb, "instruction differs after regeneration", || format!("{fa:?}\n{fb:?}\n{g}"))?; ensure(g.lines().filter(|l| l.starts_with("REMOVE META") || l.starts_with("REMOVE LABEL")).collect::<Vec<_>>() == t.lines().filter(|l| l.starts_with("REMOVE META") || l.starts_with("REMOVE LABEL")).collect::<Vec<_>>(), "instruction differs after regeneration", || format!("{t}\n---\n{g}"))? } Err(e) => return viol("generated OCAFile does not parse", format!("{e}\n{g}")) } }
            Err(e) => return viol("correct file rejected", format!("{e}\n{t}")),
        }
        x.count("overlay removals", 1);
    }
    x.state(&text);
    // bundles, the ones on the way too
    let ptext = render::plain(&plain);
    let pa = match parse(&ptext)? { Ok(a) => a, Err(e) => return viol("correct file rejected", format!("{e}\n{ptext}")) };
    let b = match build_ast(None, &pa)? { Ok(b) => b, Err(e) => return viol("correct file rejected", format!("{e:?}\n{ptext}")) };
    let s = Sys::new();
    let n = b.steps.len();
    for k in (0..n).rev().take(if i % 4 == 0 { n } else { 2 }) {
        let o = &b.steps[k].result;
        let want = encode(o)?;
        let v: Value = serde_json::from_str(&want).unwrap_or_default();
        // a bundle without any content has no instruction to give it
        if v["capture_base"]["attributes"].as_object().is_some_and(|m| m.is_empty()) && v["overlays"].as_object().is_some_and(|m| m.is_empty()) && v["capture_base"]["classification"] == "" { x.count("empty bundles", 1); continue; }
        let t = s.to_ocafile(o)?;
        same_bundle(x, &t, &want, "from the bundle")?;
        let l = match load(&want)? { Ok(l) => l, Err(e) => return viol("encoded bundle does not load", e) };
        let t2 = guard("turning a bundle into an OCAFile", || oca_rs::facade::build::parse_oca_bundle_to_ocafile(&l))?;
        same_bundle(x, &t2, &want, "from the loaded bundle")?;
        let la = guard("turning a bundle into instructions", || l.to_ast())?;
        let lt = regenerate(&la)?;
        match parse(&lt)? { Ok(lb) => { let (fa, fb) = (flat(&la), flat(&lb)); ensure(fa == fb, "instructions of a bundle differ after regeneration", || format!("{fa:?}\n{fb:?}\n{lt}"))? } Err(e) => return viol("generated OCAFile does not parse", format!("{e}\n{lt}")) }
        match build_ast(None, &la)? { Ok(b) => { let g = encode(&b.oca_bundle)?; ensure(g == want, "instructions of a bundle build another bundle", || format!("{want}\n{g}"))? } Err(e) => return viol("instructions of a bundle do not build", format!("{e:?}")) }
        x.count("bundles regenerated", 1);
    }
    // what a slightly damaged file gives, if it is still a file
    for _ in 0..2 {
        let t = super::rules::mangle(r, &ptext);
        let Ok(a) = parse(&t)? else { continue };
        let Ok(f) = crate::decode::ast(&a) else { continue };
        if awkward(&a) { continue; }
        x.note("damaged", t.clone());
        x.count("damaged files that parse", 1);
        let cmds: Vec<Cmd> = f.cmds.clone();
        same_list(x, &a, &cmds)?;
        if let Ok(b) = build_ast(None, &a)? {
            let want = encode(&b.oca_bundle)?;
            if let Ok(m) = Model::run(&cmds) { if m.attrs.is_empty() && m.class.as_deref().unwrap_or("").is_empty() && m.meta.values().all(|p| p.is_empty()) { continue; } } else { continue; }
            let t2 = s.to_ocafile(&b.oca_bundle)?;
            same_bundle(x, &t2, &want, "from the bundle of a damaged file")?;
            x.count("damaged files that build", 1);
        }
    }
    x.sample(|| json!({"file": text}));
    Ok(())
}
/// Lists left out elsewhere too: a language given as a property, nothing inside.
fn awkward(a: &OCAAst) -> bool {
    let t = serde_json::to_string(a).unwrap_or_default();
    t.contains("\"attributes\":{}") || t.contains("\"properties\":{}") || t.contains("\"flagged_attributes\":[]") || t.contains("\"framing_metadata\":{}")
}

// ---------------------------------------------------------------- C27
/// An instruction that reads well but cannot be applied while building, given the attributes there.
fn faulty(r: &mut Rng, m: &Model, g: &GenCfg) -> (Cmd, &'static str) {
    let live: Vec<String> = m.attrs.keys().cloned().collect();
    let un = format!("undefined{}", r.below(9));
    let v = |r: &mut Rng| gen::value(r, g);
    let with = |r: &mut Rng| -> Pairs { let mut p: Pairs = r.subset(&live, 2).into_iter().map(|n| (n, "x".into())).collect(); let k = r.below(p.len() + 1); p.insert(k, (un.clone(), gen::value(r, g))); p };
    match r.below(13) {
        0 => (Cmd::Label("en".into(), with(r)), "undefined attribute"),
        1 => (Cmd::Info("pl".into(), with(r)), "undefined attribute"),
        2 => (Cmd::Simple(Simple::Unit, with(r)), "undefined attribute"),
        3 => (Cmd::Simple(Simple::Format, with(r)), "undefined attribute"),
        4 => (Cmd::Simple(Simple::Conformance, with(r)), "undefined attribute"),
        5 => (Cmd::Simple(Simple::Cardinality, with(r)), "undefined attribute"),
        6 => (Cmd::EntryCode(vec![(un, gen::codes(r, g))]), "undefined attribute"),
        7 => (Cmd::Entry("de".into(), vec![(un, gen::entries(r, g))]), "undefined attribute"),
        8 => (Cmd::Link(Target::Said(g.saids[0].clone()), with(r)), "undefined attribute"),
        9 => (gen::framing(r, g, &[un]), "undefined attribute"),
        10 => (Cmd::Flagged(vec![un]), "undefined attribute"),
        11 if !live.is_empty() => (Cmd::Simple(Simple::Enc, vec![(r.pick(&live).clone(), "klingon".into())]), "unknown encoding"),
        12 if !live.is_empty() => { let t = v(r); (Cmd::Label("xx".into(), vec![(r.pick(&live).clone(), t)]), "unknown language") }
        _ => (Cmd::Meta("qq".into(), vec![("name".into(), v(r))]), "unknown language"),
    }
}
const UNGRAMMATICAL: [&str; 31] = ["garbage", "ADDD ATTRIBUTE z=Text", "ADD", "ADD ATTRIBUTE", "ADD ATTRIBUTE z", "ADD ATTRIBUTE z=", "ADD ATTRIBUTE z=Foo", "ADD ATTRIBUTE z==Text", "ADD ATTRIBUTE z=Array[Text", "ADD ATTRIBUTE z=Text,y=Text", "ADD LABEL", "ADD LABEL en", "ADD LABEL en ATTRS", "ADD LABEL en ATTRS z",
    "ADD LABEL en z=\"x\"", "ADD LABEL eng ATTRS z=\"x\"", "ADD META en", "ADD META en PROPS name", "ADD UNIT z=\"kg\"", "REMOVE", "REMOVE LABEL", "REMOVE META x", "FROM", "ADD ENTRY_CODE ATTRS z=[", "ADD ENTRY en ATTRS z={", "ADD ENTRY en ATTRS z={x}", "ADD LINK x ATTRS", "ADD CLASSIFICATION", "MODIFY", "= Text", "ADD FLAGGED_ATTRIBUTES"];
fn places(e: &Error) -> Vec<(usize, String)> {
    let mut out = vec![];
    if let Error::ValidationError(v) = e {
        for e in v {
            match e {
                ValidationError::OCABundleBuild(oca_bundle_semantics::build::Error::FromASTError { line_number, raw_line, .. }) => out.push((*line_number, raw_line.clone())),
                ValidationError::InvalidCommand { line_number, raw_line, .. } => out.push((*line_number, raw_line.clone())),
                ValidationError::OCAFileParse(p) => out.extend(place_of(p)),
                _ => {}
            }
        }
    }
    out
}
fn place_of(p: &oca_file::ocafile::error::ParseError) -> Option<(usize, String)> {
    use oca_file::ocafile::error::ParseError as P;
    match p {
        P::GrammarError { line_number, raw_line, .. } => Some((*line_number, raw_line.clone())),
        P::SemanticsError(oca_file_semantics::ocafile::error::ParseError::GrammarError { line_number, raw_line, .. }) => Some((*line_number, raw_line.clone())),
        P::TransformationError(oca_file_transformation::ocafile::error::ParseError::GrammarError { line_number, raw_line, .. }) => Some((*line_number, raw_line.clone())),
        _ => None,
    }
}
pub fn c27(x: &mut Ctx, i: u64, r: &mut Rng) -> R {
    let g = GenCfg { max_cmds: 12, ..Default::default() };
    let mut s = Sys::new();
    // perhaps on top of a stored bundle
    let (base, prefix) = if i % 3 == 0 { let c = gen::cmds(r, &g); let (b, _) = s.must_build(&render::plain(&c))?; (Some(id_of(&b)?), c) } else { (None, vec![]) };
    let mut m = Model::run(&prefix).unwrap_or_default();
    let start = m.clone();
    let mut cmds = gen::cmds_from(r, &g, &mut m);
    if cmds.is_empty() { return skip(); }
    if let Some(b) = &base { cmds.insert(0, Cmd::From(b.clone())); }
    let meta = gen::file_meta(r).into_iter().filter(|m| m.0 != "precompiler").collect::<Vec<_>>();
    // each accepted instruction's own place
    let f = File { meta: meta.clone(), cmds: cmds.clone() };
    let good = render::file(&f, Some(&mut r.clone()));
    x.note("ocafile", good.text.clone());
    let a = match parse(&good.text)? { Ok(a) => a, Err(e) => return viol("correct file rejected", format!("{e}\n{}", good.text)) };
    ensure(a.commands.len() == cmds.len() && a.commands_meta.len() == cmds.len(), "number of places", || format!("{} instructions, {} places", cmds.len(), a.commands_meta.len()))?;
    for (n, (line, text)) in good.lines.iter().enumerate() {
        x.eval();
        let Some(p) = a.commands_meta.get(&n) else { return viol("instruction without a place", format!("{n}")) };
        ensure(p.line_number == *line, "recorded line is wrong", || format!("instruction {}: expected line {line}, got {} ({:?})\n{}", n + 1, p.line_number, p.raw_line, good.text))?;
        ensure(quotes(&p.raw_line, text), "recorded text is wrong", || format!("instruction {}: expected {text:?}\ngot {:?}", n + 1, p.raw_line))?;
        x.state(&format!("{line}|{text}"));
    }
    // faults while building
    for _ in 0..3 {
        let mut bad = cmds.clone();
        let mut at = BTreeSet::new();
        let many = if r.chance(1, 4) { r.range(2, 3) } else { 1 };
        let mut whats = vec![];
        for _ in 0..many {
            let lo = usize::from(base.is_some());
            let k = r.range(lo, bad.len());
            let mut mm = start.clone();
            for (n, c) in bad[..k].iter().enumerate() { if !at.contains(&n) { let _ = mm.apply(c); } }
            let (c, what) = faulty(r, &mm, &g);
            at = at.into_iter().map(|n| if n >= k { n + 1 } else { n }).collect();
            at.insert(k);
            bad.insert(k, c);
            whats.push(what);
        }
        let f = render::file(&File { meta: meta.clone(), cmds: bad.clone() }, Some(&mut r.clone()));
        let _ = r.next();
        x.note("ocafile", f.text.clone());
        x.eval();
        let want: BTreeMap<usize, String> = at.iter().map(|n| f.lines[*n].clone()).collect();
        let e = match s.build(&f.text)? { Err(e) => e, Ok(_) => return viol("faulty file accepted", f.text) };
        let got = places(&e);
        judge(&got, &want, &f.text, &show_err(&e))?;
        // the same from the library
        if base.is_none() {
            if let Ok(a) = parse(&f.text)? { match build_ast(None, &a)? { Err(e) => { let got: Vec<(usize, String)> = e.iter().map(|e| { let oca_bundle_semantics::build::Error::FromASTError { line_number, raw_line, .. } = e; (*line_number, raw_line.clone()) }).collect(); judge(&got, &want, &f.text, &format!("{e:?}"))? } Ok(_) => return viol("faulty file accepted", f.text) } }
        }
        for w in whats { x.count(&format!("faults: {w}"), 1); }
        if at.len() > 1 { x.count("files with several faults", 1); }
    }
    // faults against the grammar
    for _ in 0..3 {
        let k = r.range(0, cmds.len());
        let bad = r.pick(&UNGRAMMATICAL).to_string();
        // the layout of the instructions before it is random, the rest is plain
        let mut head = render::file(&File { meta: meta.clone(), cmds: cmds[..k].to_vec() }, Some(&mut r.clone())).text;
        let _ = r.next();
        if !head.is_empty() && !head.ends_with('\n') { head.push('\n'); }
        let broken = if r.chance(1, 3) { bad.replacen(' ', r.pick(&[" \\\n", " \\\n  ", "\\\n# c\n "]), 1) } else { bad.clone() };
        let first = head.matches('\n').count() + 1;
        let last = first + broken.matches('\n').count();
        let t = format!("{head}{broken}\n{}", render::plain(&cmds[k..]));
        x.note("ocafile", t.clone());
        x.eval();
        let e = match s.build(&t)? { Err(e) => e, Ok(_) => return viol("ungrammatical file accepted", t) };
        let got = places(&e);
        if got.len() != 1 { return viol("grammar error without a line", format!("{}\n{t}", show_err(&e))); }
        let (l, raw) = &got[0];
        ensure((first..=last + 1).contains(l), "grammar error at the wrong line", || format!("fault at lines {first}-{last}, error at {l} ({raw:?})\n{}\n{t}", show_err(&e)))?;
        // the text quoted is that line's
        let own = t.split('\n').nth(l - 1).unwrap_or_default();
        // (the parser shows a line's end as a symbol)
        let shown = raw.trim_end_matches(['␊', '␍']).replace('␍', "\r");
        ensure(shown.trim() == own.trim(), "grammar error quotes another line", || format!("line {l} is {own:?}, quoted {raw:?}\n{t}"))?;
        match guard("parsing", || oca_file_semantics::ocafile::parse_from_string(t.clone()))? { Err(oca_file_semantics::ocafile::error::ParseError::GrammarError { line_number, .. }) => ensure((first..=last + 1).contains(&line_number), "grammar error at the wrong line", || format!("{line_number}\n{t}"))?, Err(_) => {} Ok(_) => return viol("ungrammatical file accepted", t) }
        x.count("grammar faults", 1);
        x.state(&format!("{l}|{bad}"));
    }
    let _ = sad::digest(b"");
    x.sample(|| json!({"file": good.text}));
    Ok(())
}
fn quotes(raw: &str, text: &str) -> bool { raw.trim_end() == text.trim_end() }
fn judge(got: &[(usize, String)], want: &BTreeMap<usize, String>, text: &str, e: &str) -> R {
    let lines: BTreeSet<usize> = got.iter().map(|g| g.0).collect();
    let w: BTreeSet<usize> = want.keys().cloned().collect();
    ensure(lines == w, "error names another line", || format!("expected {w:?}, got {lines:?}\n{e}\n{text}"))?;
    for (l, raw) in got { ensure(quotes(raw, &want[l]), "error quotes another text", || format!("expected {:?}\ngot {raw:?}", want[l]))?; }
    Ok(())
}
