//! Bundles and instruction lists as JSON: tampering, round trips, malformed JSON (C07, C08, C10).
use crate::gen::{self, GenCfg};
use crate::model::*;
use crate::render;
use crate::rng::Rng;
use crate::run::*;
use crate::sad;
use crate::sys::*;
use crate::tr;
use oca_bundle_semantics::state::oca::{OCABox, OCABundle};
use oca_bundle_semantics::state::validator::{self, SemanticValidationStatus, Validator};
use serde_json::{json, Map, Value};

/// A condition that is well formed for the given attributes and does not mention `me`.
pub fn good_condition(r: &mut Rng, m: &Model, me: &str) -> String {
    let atom = |r: &mut Rng| -> String {
        let others: Vec<(&String, &Attr)> = m.attrs.iter().filter(|a| a.0 != me).collect();
        if others.is_empty() { return (*r.pick(&["true", "1 < 2", "'a' == 'b'"])).into(); }
        let (n, a) = *r.pick(&others);
        let p = format!("${{{n}}}");
        match a.ty.as_ref().map(|t| t.text()).as_deref() {
            Some("Numeric") => match r.below(4) { 0 => format!("{p} > {}", r.below(30)), 1 => format!("{p} + 1 <= {p} * 2"), 2 => format!("{} ~= {p}", r.below(5)), _ => format!("({p} == 3)") },
            Some("Text") | Some("DateTime") | Some("Binary") => match r.below(3) { 0 => format!("{p} == 'x'"), 1 => format!("{p} < 'm'"), _ => format!("({p} .. 'z') == {p}") },
            Some("Boolean") => match r.below(2) { 0 => format!("{p} == true"), _ => format!("({p})") },
            _ => { let (o, _) = *r.pick(&others); format!("{p} == ${{{o}}}") }
        }
    };
    let mut s = atom(r);
    for _ in 0..r.below(4) { let b = atom(r); s = match r.below(3) { 0 => format!("{s} and {b}"), 1 => format!("not ({s}) or {b}"), _ => format!("({s}) == ({b})") }; }
    s
}
/// Instructions whose bundle has well formed conditions only.
pub fn sound(r: &mut Rng, g: &GenCfg) -> (Vec<Cmd>, Model) {
    let mut g = g.clone();
    g.conditions = false;
    let mut cmds = gen::cmds(r, &g);
    let mut m = Model::run(&cmds).unwrap_or_default();
    if r.chance(1, 2) {
        let live: Vec<String> = m.attrs.keys().cloned().collect();
        let on = r.subset(&live, 3);
        if !on.is_empty() {
            let c = Cmd::Simple(Simple::Condition, on.into_iter().map(|n| { let c = good_condition(r, &m, &n); (n, c) }).collect());
            if m.apply(&c).is_ok() { cmds.push(c); }
        }
    }
    (cmds, m)
}
fn valid(b: &OCABundle) -> Result<Option<String>, Stop> {
    let a = guard("validating", || Validator::new().validate(b).err().map(|e| format!("{e:?}")))?;
    let v = guard("validating", || match validator::validate(b) { Ok(SemanticValidationStatus::Valid) => None, Ok(SemanticValidationStatus::Invalid(e)) => Some(format!("{e:?}")), Err(e) => Some(e) })?;
    ensure(a.is_some() == v.is_some(), "two ways to validate disagree", || format!("{a:?} / {v:?}"))?;
    Ok(a)
}
/// Paths to everything inside a value.
fn paths(v: &Value, at: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    out.push(at.clone());
    match v {
        Value::Object(m) => for (k, x) in m { at.push(k.clone()); paths(x, at, out); at.pop(); },
        Value::Array(a) => for (i, x) in a.iter().enumerate() { at.push(i.to_string()); paths(x, at, out); at.pop(); },
        _ => {}
    }
}
fn at<'a>(v: &'a mut Value, p: &[String]) -> Option<&'a mut Value> {
    let mut v = v;
    for k in p { v = match v { Value::Object(m) => m.get_mut(k)?, Value::Array(a) => a.get_mut(k.parse::<usize>().ok()?)?, _ => return None }; }
    Some(v)
}
/// What part of the bundle a path names.
fn part(p: &[String]) -> String {
    p.iter().filter(|s| s.parse::<usize>().is_err()).take(3).cloned().collect::<Vec<_>>().join("/")
}
fn rename(m: &mut Map<String, Value>, from: &str, to: &str) { let old = std::mem::take(m); for (k, v) in old { m.insert(if k == from { to.to_string() } else { k }, v); } }

/// All changes of one place of the bundle: what changed, the changed JSON.
fn tamperings(r: &mut Rng, v: &Value, saids: &[String]) -> Vec<(String, Value)> {
    let mut ps = vec![];
    paths(v, &mut vec![], &mut ps);
    let mut out = vec![];
    let names: Vec<String> = v["capture_base"]["attributes"].as_object().map(|m| m.keys().cloned().collect()).unwrap_or_default();
    for p in ps {
        if p.is_empty() || p == ["v"] { continue; }
        let mut w = v.clone();
        let last = p[p.len() - 1].clone();
        let Some(x) = at(&mut w, &p) else { continue };
        let old = x.clone();
        match x {
            Value::String(s) => {
                let free_form = !(last == "type" || last == "d" || last == "capture_base");
                let news: Vec<String> = match last.as_str() {
                    "d" | "capture_base" | "target_bundle" => { let mut n: Vec<String> = saids.iter().filter(|x| *x != s).take(2).cloned().collect(); if let Some(c) = s.chars().nth(20) { let mut t: Vec<char> = s.chars().collect(); t[20] = if c == 'A' { 'B' } else { 'A' }; n.push(t.into_iter().collect()); } n }
                    "language" => ["eng", "deu", "fra", "pol", "spa"].iter().filter(|l| *l != s).map(|l| l.to_string()).collect(),
                    "type" => vec![s.replace("/1.1", "/1.0"), s.replace("/1.1", "/2.0"), format!("{s}x")],
                    _ if p.len() >= 3 && p[1] == "attributes" => ["Text", "Numeric", "Boolean", "Binary", "DateTime"].iter().filter(|t| *t != s).map(|t| t.to_string()).chain(saids.first().map(|s| format!("refs:{s}"))).collect(),
                    _ => vec![format!("{s}x"), format!("{s} "), s.to_uppercase(), s.to_lowercase(), s.chars().rev().collect(), String::new(), s.replace('e', "é"), format!("{s}\u{0}"), s.trim().to_string()],
                };
                // a standard is the same in letters of any size
                let standard = p.iter().any(|k| k == "attribute_standards");
                for n in news.into_iter().filter(|n| !(standard && n.to_lowercase() == s.to_lowercase())) { if n != *s { let mut u = v.clone(); if let Some(y) = at(&mut u, &p) { *y = json!(n); } out.push((part(&p), u)); } }
                if !free_form { let mut u = v.clone(); if let Some(y) = at(&mut u, &p) { *y = Value::Null; } out.push((part(&p), u)); }
                if p.len() >= 3 && p[1] == "attributes" { let mut u = v.clone(); if let Some(y) = at(&mut u, &p) { *y = json!([old]); } out.push((part(&p), u)); }
            }
            Value::Array(a) => {
                for i in 0..a.len() {
                    let mut u = v.clone();
                    if let Some(Value::Array(y)) = at(&mut u, &p) { y.remove(i); }
                    out.push((format!("{} (item gone)", part(&p)), u));
                }
                if p.len() >= 3 && p[1] == "attributes" && a.len() == 1 { let mut u = v.clone(); if let Some(y) = at(&mut u, &p) { *y = a[0].clone(); } out.push((part(&p), u)); continue; }
                if a.iter().all(|x| x.is_string()) { let mut u = v.clone(); if let Some(Value::Array(y)) = at(&mut u, &p) { y.push(if last == "flagged_attributes" { json!(names.first()) } else { json!("added") }); } out.push((format!("{} (item added)", part(&p)), u)); }
            }
            Value::Object(m) => {
                // members of the maps that hold content
                let content = ["attributes", "attribute_labels", "category_labels", "attribute_information", "attribute_entries", "attribute_entry_codes", "attribute_conditions", "attribute_dependencies", "attribute_character_encoding", "attribute_formats", "attribute_conformance", "attribute_cardinality", "attribute_unit", "attribute_mapping", "attribute_framing", "framing_metadata", "attribute_standards", "attribute_entry_codes_mapping"];
                if p.len() == 2 && p[0] == "overlays" { continue; }
                if !p.iter().any(|k| content.contains(&k.as_str())) || (p.iter().any(|k| k == "attribute_framing") && p.iter().filter(|k| content.contains(&k.as_str())).count() < 2) { 
                    if p.len() >= 2 && p[0] == "overlays" && m.contains_key("language") && m["type"].as_str().is_some_and(|t| t.contains("/meta/")) {
                        for k in m.keys().filter(|k| !["d", "type", "language", "capture_base"].contains(&k.as_str())) {
                            let mut u = v.clone();
                            if let Some(Value::Object(y)) = at(&mut u, &p) { rename(y, k, &format!("{k}x")); }
                            out.push(("overlays/meta (property renamed)".into(), u));
                            let mut u = v.clone();
                            if let Some(Value::Object(y)) = at(&mut u, &p) { y.remove(k); }
                            out.push(("overlays/meta (property gone)".into(), u));
                        }
                        let mut u = v.clone();
                        if let Some(Value::Object(y)) = at(&mut u, &p) { y.insert("added property".into(), json!("x")); }
                        out.push(("overlays/meta (property added)".into(), u));
                    }
                    continue;
                }
                let keys: Vec<String> = m.keys().cloned().collect();
                for k in &keys {
                    if k == "predicate_id" || k == "framing_justification" { continue; }
                    let mut u = v.clone();
                    if let Some(Value::Object(y)) = at(&mut u, &p) { y.remove(k); }
                    out.push((format!("{} (member gone)", part(&p)), u));
                    let mut u = v.clone();
                    if let Some(Value::Object(y)) = at(&mut u, &p) { rename(y, k, &format!("{k}x")); }
                    out.push((format!("{} (member renamed)", part(&p)), u));
                }
                let frame = p.iter().any(|k| k == "attribute_framing") && m.contains_key("predicate_id");
                if let (Some(k), true) = (keys.first(), last != "framing_metadata" && !frame) { let mut u = v.clone(); if let Some(Value::Object(y)) = at(&mut u, &p) { let c = y[k].clone(); y.insert("zz-added".into(), c); } out.push((format!("{} (member added)", part(&p)), u)); }
                if keys.len() > 1 && r.chance(1, 2) { let mut u = v.clone(); if let Some(Value::Object(y)) = at(&mut u, &p) { let (a, b) = (y[&keys[0]].clone(), y[&keys[1]].clone()); if a != b { y[&keys[0]] = b; y[&keys[1]] = a; out.push((format!("{} (values swapped)", part(&p)), u)); } } }
            }
            _ => {}
        }
    }
    // whole overlays
    if let Some(ov) = v["overlays"].as_object() {
        for (k, x) in ov {
            let mut u = v.clone();
            if x.is_array() { for i in 0..x.as_array().map_or(0, |a| a.len()) { let mut u = v.clone(); if let Some(a) = u["overlays"][k].as_array_mut() { let c = a[i].clone(); a.push(c); } out.push(("overlays (overlay twice)".into(), u)); } }
            if let Some(m) = u["overlays"].as_object_mut() { m.remove(k); }
            out.push(("overlays (overlay gone)".into(), u));
        }
    }
    out
}
/// The kind under which the overlay that begins at a place of an encoded bundle is listed.
fn members(t: &str, at: usize) -> Option<String> {
    let v: Value = serde_json::from_str(t).ok()?;
    let said = t[at..].split("\"d\":\"").nth(1)?.split('"').next()?.to_string();
    v["overlays"].as_object()?.iter().find(|(_, o)| o.to_string().contains(&format!("\"d\":\"{said}\""))).map(|(k, _)| k.clone())
}
// ---------------------------------------------------------------- C07
pub fn c07(x: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let g = GenCfg { wild: [0, 40][r.below(2)], max_cmds: 12, ..Default::default() };
    let (cmds, m) = sound(r, &g);
    let text = render::plain(&cmds);
    x.note("ocafile", text.clone());
    let (mut b, mut t) = Sys::new().must_build(&text)?;
    if r.chance(1, 4) {
        let mut u: Value = serde_json::from_str(&t).unwrap_or_default();
        let mut what = vec![];
        other_kinds(r, &g, &mut u, &mut what);
        sad::seal(&mut u);
        t = u.to_string();
        b = match load(&t)? { Ok(b) => b, Err(e) => return viol("a bundle from elsewhere does not load", format!("{e}\n{t}")) };
        for w in what { x.count(&format!("from elsewhere: {w}"), 1); }
    }
    x.eval();
    if let Some(e) = valid(&b)? { return viol("a genuine bundle fails validation", format!("{e}\n{t}\n--- file\n{text}")); }
    let l = match load(&t)? { Ok(b) => b, Err(e) => return viol("encoded bundle does not load", format!("{e}\n{t}")) };
    if let Some(e) = valid(&l)? { return viol("a genuine bundle fails validation", format!("after loading: {e}\n{t}\n--- file\n{text}")); }
    x.count("genuine bundles", 1);
    let v: Value = serde_json::from_str(&t).unwrap_or_default();
    let saids = gen::fake_saids();
    for (what, w) in tamperings(r, &v, &saids) {
        if w == v { continue; }
        let wt = w.to_string();
        x.note("tampered", wt.clone());
        x.eval();
        match load(&wt)? {
            Err(_) => x.count("tampered bundles refused by the loader", 1),
            Ok(b) => {
                if valid(&b)?.is_none() {
                    // what the loader and the encoder bring back in order was no change of the bundle
                    if encode(&b)? == t && (what == "capture_base/type" && false) { continue; }
                    return viol(&format!("tampering goes unnoticed: {what}"), format!("{what}\n{}\n--- genuine\n{t}\n--- tampered\n{wt}", diff(&v, &w, "").unwrap_or_default()));
                }
                x.count("tampered bundles reported", 1);
                x.count(&format!("reported: {what}"), 1);
            }
        }
        x.state(&wt);
    }
    // an overlay made for another capture base, by itself in order
    let (cmds2, m2) = { let mut c = cmds.clone(); let n = format!("other{}", r.below(99)); if m.attrs.contains_key(&n) { return Ok(()); } c.push(Cmd::AddAttr(vec![(n, Ty::base("Text"))])); let m2 = Model::run(&c).unwrap_or_default(); (c, m2) };
    let _ = m2;
    let (b2, _) = Sys::new().must_build(&render::plain(&cmds2))?;
    for k in 0..b2.overlays.len().min(b.overlays.len()) {
        let mut c = b.clone();
        x.eval();
        if let Some(pos) = c.overlays.iter().position(|o| o.overlay_type() == b2.overlays[k].overlay_type() && o.language() == b2.overlays[k].language()) { c.overlays[pos] = b2.overlays[k].clone(); } else { continue; }
        ensure(valid(&c)?.is_some(), "an overlay of another capture base goes unnoticed", || encode(&b2).unwrap_or_default())?;
        // even when the bundle is sealed again around it
        c.fill_said();
        ensure(valid(&c)?.is_some(), "an overlay of another capture base goes unnoticed in a resealed bundle", || format!("overlay {} of {}\nin {}", b2.overlays[k].overlay_type(), encode(&b2).unwrap_or_default(), encode(&c).unwrap_or_default()))?;
        x.count("foreign overlays reported", 1);
    }
    // an overlay in order and of the right capture base, but not one of this bundle, put in or put in the place of another
    let (cmds3, _) = { let (mut c, mut m3) = (cmds.clone(), m.clone()); let only = GenCfg { remove: false, flagged: false, classification: false, conditions: false, max_cmds: 6, min_cmds: 3, scale: 0, names: m.attrs.keys().cloned().collect(), ..g.clone() }; for _ in 0..r.range(2, 6) { let n = gen::cmd(r, &only, &m3); if !matches!(n, Cmd::AddAttr(_)) && m3.apply(&n).is_ok() { c.push(n); } } (c, ()) };
    let (b3, t3) = Sys::new().must_build(&render::plain(&cmds3))?;
    if b3.capture_base.said == b.capture_base.said {
        for o in b3.overlays.iter().filter(|o| !b.overlays.iter().any(|p| p.said() == o.said())) {
            let mut places = vec![0, b.overlays.len(), r.below(b.overlays.len() + 1)];
            places.dedup();
            for at in places {
                let mut c = b.clone();
                c.overlays.insert(at, o.clone());
                x.eval();
                ensure(valid(&c)?.is_some(), "an overlay put in goes unnoticed", || format!("overlay {} at place {at} of {t3}\nput in {t}", o.overlay_type()))?;
                // and in the text, which may say a kind twice
                if let Ok(text) = serde_json::to_string(o) {
                    let kind = t3.find(&text).and_then(|p| members(&t3, p));
                    if let Some(kind) = kind {
                        let wt = t.replacen("\"overlays\":{", &format!("\"overlays\":{{\"{kind}\":{text}{}", if b.overlays.is_empty() { "" } else { "," }), 1);
                        x.note("tampered", wt.clone());
                        x.eval();
                        if let Ok(c) = load(&wt)? { ensure(valid(&c)?.is_some(), "an overlay put in goes unnoticed", || format!("{wt}\n--- genuine\n{t}"))?; }
                    }
                }
                x.count("overlays put in reported", 1);
            }
        }
    }
    { let mut c = b.clone(); c.capture_base = b2.capture_base.clone(); x.eval(); ensure(valid(&c)?.is_some(), "another capture base goes unnoticed", || t.clone())?; c.fill_said(); if !c.overlays.is_empty() { ensure(valid(&c)?.is_some(), "another capture base goes unnoticed in a resealed bundle", || t.clone())?; } }
    // inner parts changed, only the outer identifier made again
    for (what, w) in tamperings(r, &v, &saids) {
        if !r.chance(1, 4) { continue; }
        if let Ok(mut b) = load(&w.to_string())? {
            if encode(&b)? == t { continue; }
            let inner = what.starts_with("capture_base/") || (what.starts_with("overlays/") && !what.contains("overlay gone") && !what.ends_with("(item gone)"));
            if !inner { continue; }
            let sealed = { b.fill_said(); encode(&b)? };
            x.eval();
            if valid(&b)?.is_none() { return viol(&format!("inner tampering of a resealed bundle goes unnoticed: {what}"), format!("{}\n{sealed}\n--- genuine\n{t}", diff(&v, &w, "").unwrap_or_default())); }
            x.count("resealed tampered bundles reported", 1);
        }
    }
    x.sample(|| json!({"bundle": t}));
    Ok(())
}

// ---------------------------------------------------------------- C08
/// Damages a JSON text or value.
pub fn damage(r: &mut Rng, v: &Value, text: &str) -> String {
    if r.chance(1, 3) {
        let mut b: Vec<char> = text.chars().collect();
        for _ in 0..r.range(1, 3) {
            if b.is_empty() { break; }
            let i = r.below(b.len());
            match r.below(5) { 0 => { b.remove(i); } 1 => b.truncate(i), 2 => b.insert(i, *r.pick(&['{', '}', '[', ']', '"', ',', ':', '0', '\\', 'x', '\u{0}'])), 3 => { let j = r.below(b.len()); b.swap(i, j); } _ => { let j = (i + r.below(20)).min(b.len()); let c: Vec<char> = b[i..j].to_vec(); for (k, ch) in c.into_iter().enumerate() { b.insert(i + k, ch); } } }
        }
        return b.into_iter().collect();
    }
    let mut w = v.clone();
    for _ in 0..r.range(1, 2) {
        let mut ps = vec![];
        paths(&w, &mut vec![], &mut ps);
        let p = r.pick(&ps).clone();
        let other = r.pick(&ps).clone();
        let odd = |r: &mut Rng| -> Value { match r.below(12) { 0 => json!(null), 1 => json!(0), 2 => json!(-1.5e300), 3 => json!(true), 4 => json!([]), 5 => json!({}), 6 => json!(""), 7 => json!([[]]), 8 => json!({"": null}), 9 => json!("spec/overlays/nothing/1.1"), 10 => json!("refs:"), _ => json!("\u{0}") } };
        match r.below(4) {
            0 => if let Some(x) = at(&mut w, &p) { *x = odd(r); },
            1 => { let c = at(&mut w, &other).cloned(); if let (Some(x), Some(c)) = (at(&mut w, &p), c) { *x = c; } }
            2 => if let Some((k, up)) = p.split_last() { match at(&mut w, up) { Some(Value::Object(m)) => { m.remove(k); } Some(Value::Array(a)) => { if let Ok(i) = k.parse::<usize>() { a.remove(i); } } _ => {} } },
            _ => match at(&mut w, &p) { Some(Value::Object(m)) => { let k = if r.chance(1, 2) { "x".to_string() } else { other.last().cloned().unwrap_or_default() }; m.insert(k, odd(r)); } Some(Value::Array(a)) => a.push(odd(r)), Some(Value::String(s)) => { let mut n: Vec<char> = s.chars().collect(); if !n.is_empty() { let i = r.below(n.len()); n[i] = gen::wild_char(r); } *s = n.into_iter().collect(); } _ => {} },
        }
    }
    w.to_string()
}
/// Uses everything a loaded bundle offers: nothing may crash.
fn exercise(b: &OCABundle) -> R {
    let c = b.clone();
    guard("using a loaded bundle", move || {
        let _ = Validator::new().enforce_translations(vec![isolang::Language::Eng]).validate(&c);
        let _ = serde_json::to_string(&c);
        let _ = c.to_ast();
        let mut d = c.clone();
        d.fill_said();
        let mut o = OCABox::from(c);
        let n = o.generate_bundle();
        let _ = Validator::new().validate(&n);
    })
}
/// Adds overlays of kinds no instruction makes; tells whether taking the bundle apart loses them.
pub fn other_kinds(r: &mut Rng, g: &GenCfg, u: &mut Value, what: &mut Vec<String>) -> bool {
    let mut lossy = false;
    let names: Vec<String> = u["capture_base"]["attributes"].as_object().into_iter().flatten().map(|x| x.0.clone()).collect();
    let some = |r: &mut Rng| { let mut n: Vec<String> = names.iter().filter(|_| r.chance(2, 3)).cloned().collect(); n.sort(); n };
    let mut others: Vec<(&str, Value)> = vec![];
    if r.chance(1, 4) { let m: Map<String, Value> = some(r).into_iter().map(|n| { let t = gen::value(r, g); (n, json!(t)) }).collect(); others.push(("attribute_mapping", json!({"d": "", "type": "spec/overlays/mapping/1.1", "capture_base": "", "attribute_mapping": m}))); }
    if r.chance(1, 5) { let m: Map<String, Value> = some(r).into_iter().map(|n| { let t = vec![gen::value(r, g), "a:b".to_string()]; (n, json!(t)) }).collect(); others.push(("entry_code_mapping", json!({"d": "", "capture_base": "", "type": "spec/overlays/entry_code_mapping/1.1", "attribute_entry_codes_mapping": m}))); lossy = true; }
    if r.chance(1, 5) { let m: Map<String, Value> = some(r).into_iter().map(|n| (n, json!(*r.pick(&["urn:iso:std:iso:8601", "urn:ietf:rfc:3339", "urn:iso:std:iso-iec:5218"])))).collect(); others.push(("standard", json!({"d": "", "capture_base": "", "type": "spec/overlays/standard/1.1", "attribute_standards": m}))); lossy = true; }
    if r.chance(1, 5) { let mut n = some(r); r.shuffle(&mut n); others.push(("subset", json!({"d": "", "capture_base": "", "type": "spec/overlays/subset/1.1", "attributes": n}))); lossy = true; }
    // several overlays of a kind there is usually one of
    if r.chance(1, 4) {
        if let Some(m) = u["overlays"].as_object_mut() {
            let all: Vec<(String, String)> = [("unit", "attribute_unit"), ("conformance", "attribute_conformance"), ("cardinality", "attribute_cardinality"), ("format", "attribute_formats")].iter().filter(|k| m.contains_key(k.0)).map(|k| (k.0.to_string(), k.1.to_string())).collect();
            if !all.is_empty() {
                let (k, f) = r.pick(&all).clone();
                let first = m[&k].clone();
                let mut list = vec![first.clone()];
                for _ in 0..r.range(1, 3) {
                    let mut o = first.clone();
                    if let Some(c) = o[&f].as_object_mut() { for v in c.values_mut() { *v = json!(gen::value(r, g)); } }
                    if !list.contains(&o) { list.push(o); }
                }
                if list.len() > 1 { m.insert(k.clone(), Value::Array(list)); what.push(format!("several {k} overlays")); lossy = true; }
            }
        }
    }
    if let Some(m) = u["overlays"].as_object_mut() {
        for (k, o) in others { what.push(format!("{k} overlay")); m.insert(k.into(), o); }
        let mut kv: Vec<(String, Value)> = std::mem::take(m).into_iter().collect();
        kv.sort_by(|a, b| a.0.cmp(&b.0));
        m.extend(kv);
    }
    lossy
}
pub fn c08(x: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let g = GenCfg { wild: [10, 60][r.below(2)], max_cmds: if x.thorough { 24 } else { 14 }, ..Default::default() };
    let cmds = gen::cmds(r, &g);
    let text = render::plain(&cmds);
    x.note("ocafile", text.clone());
    let (b, t) = Sys::new().must_build(&text)?;
    x.eval();
    let l = match load(&t)? { Ok(b) => b, Err(e) => return viol("encoded bundle does not load", format!("{e}\n{t}")) };
    let t2 = encode(&l)?;
    ensure(t2 == t, "loading and encoding changes the bundle", || format!("{}\n{t}\n{t2}", diff_text(&t, &t2)))?;
    ensure(id_of(&l)? == id_of(&b)?, "loading changes the identifier", || t.clone())?;
    let sv = guard("serializing", || serde_json::to_value(&b).map_err(|e| e.to_string()))?;
    match sv {
        Err(e) => return viol("bundle cannot be serialized", e),
        Ok(v) => match guard("deserializing", || serde_json::from_value::<OCABundle>(v).map_err(|e| e.to_string()))? { Ok(b) => { let t3 = encode(&b)?; ensure(t3 == t, "a value round trip changes the bundle", || format!("{t}\n{t3}"))? } Err(e) => return viol("serialized bundle does not load", format!("{e}\n{t}")) },
    }
    for (what, src) in [("a built bundle", &b), ("a loaded bundle", &l)] {
        x.eval();
        let src = src.clone();
        let n = guard("taking a bundle apart", move || OCABox::from(src).generate_bundle())?;
        let nt = encode(&n)?;
        ensure(nt == t, &format!("taking apart and assembling {what} changes it"), || format!("{}\n{t}\n{nt}\n--- file\n{text}", diff_text(&t, &nt)))?;
        if let Err(e) = sad::check_bundle(&nt) { return viol("assembled bundle: identifiers", e); }
    }
    exercise(&b)?;
    x.state(&t);
    let v: Value = serde_json::from_str(&t).unwrap_or_default();
    // bundles another tool could have written: in order, but not what building here gives
    for _ in 0..2 {
        let mut u = v.clone();
        // what only an overlay of version 1.1 or of a kind that is assembled can carry is lost when taken apart
        let mut versions = false;
        let mut what: Vec<String> = vec![];
        versions |= other_kinds(r, &g, &mut u, &mut what);
        if let Some(m) = u["overlays"].as_object_mut() {
            for (k, o) in m {
                let version = if r.chance(1, 3) { Some(*r.pick(&["1.0", "2.0", "1.2", "10.12", "0.9"])) } else { None };
                let mut one = |o: &mut Value| {
                    if let Some(n) = version { if let Some(t) = o["type"].as_str().and_then(|t| t.strip_suffix("1.1")) { o["type"] = json!(format!("{t}{n}")); versions = true; what.push(format!("{k} version")); } }
                    if o.get("category_labels").is_some() && r.chance(1, 4) {
                        let n: Vec<String> = o["attribute_labels"].as_object().into_iter().flatten().map(|x| x.0.clone()).filter(|_| r.chance(1, 2)).collect();
                        o["category_labels"] = Value::Object(n.into_iter().map(|n| { let t = gen::value(r, &g); (n, json!(t)) }).collect());
                        what.push("category labels".into());
                        if r.chance(1, 4) { o["attribute_categories"] = json!(["_cat-1_", "_cat-2_"]); versions = true; }
                    }
                    if let Some(f) = o.get_mut("framing_metadata").and_then(|f| f.as_object_mut()) {
                        if r.chance(2, 3) { f.insert((*r.pick(&["frame_publisher", "publisher", "frame_Label", "id", "zz"])).into(), json!(gen::value(r, &g))); what.push("frame metadata".into()); }
                        if r.chance(1, 4) { f.remove("frame_label"); }
                        let mut kv: Vec<(String, Value)> = std::mem::take(f).into_iter().collect(); kv.sort_by(|a, b| a.0.cmp(&b.0)); f.extend(kv);
                    }
                };
                match o { Value::Array(a) => a.iter_mut().for_each(&mut one), o => one(o) }
            }
        }
        if what.is_empty() { continue; }
        sad::seal(&mut u);
        let ut = u.to_string();
        x.note("from elsewhere", ut.clone());
        x.eval();
        let l = match load(&ut)? { Ok(l) => l, Err(e) => return viol("a bundle from elsewhere does not load", format!("{e}\n{ut}")) };
        let same = |a: &str| a == ut;
        let got = encode(&l)?;
        ensure(same(&got), "loading and encoding changes a bundle from elsewhere", || format!("{}\n{ut}\n{got}", diff_text(&ut, &got)))?;
        ensure(id_of(&l)? == u["d"].as_str().unwrap_or_default(), "loading changes the identifier of a bundle from elsewhere", || ut.clone())?;
        let again = { let c = l.clone(); encode(&guard("taking a bundle apart", move || OCABox::from(c).generate_bundle())?)? };
        if !versions { ensure(same(&again), "taking apart and assembling a bundle from elsewhere changes it", || format!("{}\n{ut}\n{again}", diff_text(&ut, &again)))?; }
        for w in what { x.count(&format!("from elsewhere: {w}"), 1); }
    }
    // definitely malformed
    let mut bad: Vec<(&str, String)> = vec![];
    let mut put = |w: &'static str, f: &dyn Fn(&mut Value)| { let mut u = v.clone(); f(&mut u); if u != v { bad.push((w, u.to_string())); } };
    put("no capture base", &|u| { u.as_object_mut().map(|m| m.remove("capture_base")); });
    put("no overlays", &|u| { u.as_object_mut().map(|m| m.remove("overlays")); });
    put("no attributes", &|u| { u["capture_base"].as_object_mut().map(|m| m.remove("attributes")); });
    put("no classification", &|u| { u["capture_base"].as_object_mut().map(|m| m.remove("classification")); });
    put("unknown attribute type", &|u| { if let Some(m) = u["capture_base"]["attributes"].as_object_mut() { if let Some(k) = m.keys().next().cloned() { m[&k] = json!("Textt"); } } });
    put("attribute type is a number", &|u| { if let Some(m) = u["capture_base"]["attributes"].as_object_mut() { if let Some(k) = m.keys().next().cloned() { m[&k] = json!(7); } } });
    put("attribute reference is no identifier", &|u| { if let Some(m) = u["capture_base"]["attributes"].as_object_mut() { if let Some(k) = m.keys().next().cloned() { m[&k] = json!("refs:nothing"); } } });
    put("overlays are text", &|u| u["overlays"] = json!("none"));
    put("identifier is no identifier", &|u| u["d"] = json!("not an identifier"));
    put("not an object", &|u| *u = json!([1]));
    if let Some(ov) = v["overlays"].as_object() {
        for k in ov.keys() {
            let one = |u: &mut Value, f: &dyn Fn(&mut Map<String, Value>)| { let o = &mut u["overlays"][k.as_str()]; let o = if o.is_array() { &mut o[0] } else { o }; if let Some(m) = o.as_object_mut() { f(m); } };
            put("overlay without type", &|u| one(u, &|m| { m.remove("type"); }));
            put("overlay of unknown type", &|u| one(u, &|m| { m.insert("type".into(), json!("spec/overlays/nothing/1.1")); }));
            put("overlay with a bad type", &|u| one(u, &|m| { m.insert("type".into(), json!("nothing")); }));
            put("overlay in an unknown language", &|u| one(u, &|m| { if m.contains_key("language") { m.insert("language".into(), json!("qqq1")); } }));
            put("overlay without language", &|u| one(u, &|m| { m.remove("language"); }));
            put("overlay with a bad identifier", &|u| one(u, &|m| { m.insert("d".into(), json!("x")); }));
            put("overlay whose content is a number", &|u| one(u, &|m| { let ks: Vec<String> = m.keys().filter(|k| k.starts_with("attribute_")).cloned().collect(); for k in ks { m.insert(k, json!(5)); } }));
        }
    }
    bad.push(("cut short", t[..t.len() - 1].to_string()));
    bad.push(("empty", String::new()));
    bad.push(("followed by more", format!("{t}{t}")));
    for (what, w) in bad {
        x.note("malformed", w.clone());
        x.eval();
        if let Ok(b) = load(&w)? { return viol(&format!("malformed bundle accepted: {what}"), format!("{w}\nread as {}", encode(&b).unwrap_or_default())); }
        x.count(&format!("refused: {what}"), 1);
    }
    for _ in 0..if x.thorough { 60 } else { 25 } {
        let w = damage(r, &v, &t);
        x.note("damaged", w.clone());
        x.eval();
        match load(&w)? { Err(_) => x.count("damaged bundles refused", 1), Ok(b) => { x.count("damaged bundles that still load", 1); exercise(&b)?; } }
        x.state(&w);
    }
    if r.chance(1, 10) {
        // hostile nesting
        let n = *r.pick(&[100usize, 127, 5_000, 100_000]);
        for w in [format!("{{\"capture_base\":{{\"d\":null,\"type\":\"x\",\"attributes\":{{\"a\":{}\"Text\"{}}},\"classification\":\"\",\"flagged_attributes\":[]}},\"overlays\":{{}}}}", "[".repeat(n), "]".repeat(n)), format!("{{\"overlays\":{}", "{\"x\":".repeat(n)), "[".repeat(n), format!("{{\"overlays\":{{\"meta\":[{}]}}}}", "[".repeat(n) + &"]".repeat(n))] {
            x.note("malformed", format!("nesting {n}: {}", clip(&w, 200)));
            x.eval();
            if let Ok(b) = load(&w)? { exercise(&b)?; }
            x.count("nested texts", 1);
        }
    }
    x.sample(|| json!({"bundle": t}));
    Ok(())
}
fn diff_text(a: &str, b: &str) -> String {
    let (a, b): (Value, Value) = (serde_json::from_str(a).unwrap_or_default(), serde_json::from_str(b).unwrap_or_default());
    diff(&a, &b, "").unwrap_or("same values, other order".into())
}

// ---------------------------------------------------------------- C10
fn trip<T: serde::Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug>(x: &mut Ctx, v: &T, what: &str, full: bool) -> Result<String, Stop> {
    x.eval();
    let j = match guard("serializing", || serde_json::to_string(v).map_err(|e| e.to_string()))? { Ok(j) => j, Err(e) => return viol(&format!("{what} cannot be serialized"), format!("{e}\n{v:?}")) };
    let back: T = match guard("deserializing", || serde_json::from_str(&j).map_err(|e| e.to_string()))? { Ok(b) => b, Err(e) => return viol(&format!("{what} cannot be read back"), format!("{e}\n{j}")) };
    ensure(back == *v, &format!("{what} differs when read back"), || format!("{j}\nbefore {v:?}\nafter {back:?}"))?;
    let j2 = guard("serializing", || serde_json::to_string(&back).unwrap_or_default())?;
    // the file's metadata is a set of pairs: its order carries nothing
    let settled = |t: &str| -> Value { let mut v: Value = serde_json::from_str(t).unwrap_or_default(); if let Some(m) = v.get_mut("meta").and_then(|m| m.as_object_mut()) { let mut p: Vec<(String, Value)> = std::mem::take(m).into_iter().collect(); p.sort_by(|a, b| a.0.cmp(&b.0)); m.extend(p); } v };
    ensure(j2 == j || settled(&j2).to_string() == settled(&j).to_string(), &format!("{what}: JSON differs when written again"), || format!("{j}\n{j2}"))?;
    if full {
        let val = guard("serializing", || serde_json::to_value(v).map_err(|e| e.to_string()))?;
        let back: Option<T> = match val { Ok(w) => guard("deserializing", || serde_json::from_value(w).ok())?, Err(_) => None };
        ensure(back.as_ref() == Some(v), &format!("{what} differs after a value round trip"), || j.clone())?;
    }
    x.state(&j);
    Ok(j)
}
pub fn c10(x: &mut Ctx, i: u64, r: &mut Rng) -> R {
    if i % 3 == 2 {
        let f = tr::file(r, false);
        let mut rr = r.clone();
        let text = tr::render(&f, if r.chance(1, 2) { Some(&mut rr) } else { None });
        x.note("file", text.clone());
        let a = match guard("parsing", || oca_file_transformation::ocafile::parse_from_string(text.clone()).map_err(|e| format!("{e:?}")))? { Ok(a) => a, Err(e) => return viol("correct transformation refused", format!("{e}\n{text}")) };
        let j = trip(x, &a, "transformation instruction list", true)?;
        for c in &a.commands { trip(x, c, "transformation instruction", true)?; }
        x.count("transformation lists", 1);
        let v: Value = serde_json::from_str(&j).unwrap_or_default();
        for _ in 0..20 {
            let w = damage(r, &v, &j);
            x.note("damaged", w.clone());
            x.eval();
            if let Ok(a) = guard("deserializing", || serde_json::from_str::<oca_ast_transformation::ast::TransformationAST>(&w))? { let _ = guard("building", || transformation_file::build::from_ast(&a).is_ok())?; trip(x, &a, "accepted transformation list", false)?; x.count("damaged lists that still load", 1); } else { x.count("damaged lists refused", 1); }
        }
        return Ok(());
    }
    let mut g = GenCfg { wild: [10, 60][r.below(2)], max_cmds: 14, ..Default::default() };
    g.refnames = ["passport", "First.Name_2", "person:2", "a:b:c", "x/y", "v.1.0", "refs:q", "-", "7"].iter().map(|s| s.to_string()).collect();
    let mut cmds = gen::cmds(r, &g);
    if r.chance(1, 6) { cmds.insert(0, Cmd::From(r.pick(&g.saids).clone())); }
    let mut rr = r.clone();
    let text = render::file(&File { meta: gen::file_meta(r), cmds: cmds.clone() }, if r.chance(1, 2) { Some(&mut rr) } else { None }).text;
    x.note("ocafile", text.clone());
    let a = match parse(&text)? { Ok(a) => a, Err(e) => return viol("correct file refused by the parser", format!("{e}\n--- file\n{text}")) };
    let j = trip(x, &a, "instruction list", true)?;
    crate::checks::core::count_cmds(x, &cmds);
    for (c, k) in a.commands.iter().zip(&cmds) { trip(x, c, &format!("{} instruction", k.kind()), true)?; }
    // what was read back means the same
    let back: oca_ast_semantics::ast::OCAAst = match serde_json::from_str(&j) { Ok(b) => b, Err(e) => return viol("instruction list cannot be read back", e.to_string()) };
    match crate::decode::ast(&back) { Ok(f) => ensure(f.cmds == cmds, "instruction list means something else when read back", || j.clone())?, Err(e) => return viol("instruction list means something else when read back", e) }
    let v: Value = serde_json::from_str(&j).unwrap_or_default();
    for _ in 0..if x.thorough { 40 } else { 16 } {
        let w = damage(r, &v, &j);
        x.note("damaged", w.clone());
        x.eval();
        match guard("deserializing", || serde_json::from_str::<oca_ast_semantics::ast::OCAAst>(&w))? {
            Err(_) => x.count("damaged lists refused", 1),
            Ok(a) => {
                x.count("damaged lists that still load", 1);
                let _ = build_ast(None, &a)?;
            }
        }
    }
    // definitely malformed
    for (what, w) in [("unknown instruction", j.replacen("\"type\":\"Add\"", "\"type\":\"Addd\"", 1)), ("unknown object", j.replacen("\"object_kind\":\"", "\"object_kind\":\"x", 1)), ("cut short", j[..j.len() - 1].to_string()), ("not an object", "[]".into()), ("empty", "".into()), ("no commands", { let mut u = v.clone(); u.as_object_mut().map(|m| m.remove("commands")); u.to_string() })] {
        if w == j { continue; }
        x.note("malformed", w.clone());
        x.eval();
        ensure(guard("deserializing", || serde_json::from_str::<oca_ast_semantics::ast::OCAAst>(&w).is_err())?, &format!("malformed list accepted: {what}"), || w.clone())?;
    }
    x.sample(|| json!({"file": text, "json": j}));
    Ok(())
}
