//! Relations, search, listings, rejected files and repeated builds (C16, C17, C18, C20, C26).
use crate::gen::{self, GenCfg};
use crate::model::*;
use crate::render;
use crate::rng::Rng;
use crate::run::*;
use crate::sad;
use crate::sys::*;
use crate::world::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

type Rel = BTreeMap<String, (String, BTreeSet<(String, String)>)>;
/// The relations all finished builds must have left.
pub fn relations(built: &[String]) -> Rel {
    let mut m: Rel = BTreeMap::new();
    for t in built {
        let Ok(b) = sad::check_bundle(t) else { continue };
        let (bk, ck) = ("bundle".to_string(), "capture base".to_string());
        let ov: Vec<(String, String)> = b.overlays.iter().map(|(k, d, _)| (d.clone(), format!("spec/overlays/{}/1.1", if k == "attribute_mapping" { "mapping" } else { k }))).collect();
        let mut put = |id: &str, kind: &str, to: (String, String)| { m.entry(id.to_string()).or_insert_with(|| (kind.to_string(), BTreeSet::new())).1.insert(to); };
        put(&b.said, &bk, (b.cb.clone(), ck.clone()));
        put(&b.cb, &ck, (b.said.clone(), bk.clone()));
        for (d, k) in &ov {
            put(&b.said, &bk, (d.clone(), k.clone()));
            put(&b.cb, &ck, (d.clone(), k.clone()));
            put(d, k, (b.said.clone(), bk.clone()));
            put(d, k, (b.cb.clone(), ck.clone()));
        }
    }
    m
}
// ---------------------------------------------------------------- C16
pub fn c16(x: &mut Ctx, i: u64, r: &mut Rng) -> R {
    let mut w = World::new(crowded(r));
    let n = if x.thorough { r.range(3, 14) } else { r.range(2, 9) };
    let mut done: Vec<String> = vec![];
    if i % 300 == 13 {
        // many bundles on one capture base, or sharing one overlay
        let many = r.range(30, if x.thorough { 300 } else { 130 });
        let same = r.chance(1, 2);
        for k in 0..many { done.push(w.s.must_build(&if same { format!("ADD ATTRIBUTE a=Text\nADD LABEL en ATTRS a=\"{}\"\n", k) } else { format!("ADD ATTRIBUTE a=Text\nADD UNIT ATTRS a=kg\nADD META pl PROPS note=\"{}\"\n", k) })?.1); }
        x.count("objects with many relations", 1);
    }
    for _ in 0..n {
        let b = w.grow(x, r)?;
        done.push(b.json);
        if r.chance(1, 6) {
            // a bundle of another tool, with kinds of overlays no instruction makes
            let mut u: serde_json::Value = serde_json::from_str(&w.built[r.below(w.built.len())].json).unwrap_or_default();
            super::json::other_kinds(r, &w.g, &mut u, &mut vec![]);
            sad::seal(&mut u);
            let t = u.to_string();
            x.note("from elsewhere", t.clone());
            let Ok(l) = load(&t)? else { return viol("a bundle from elsewhere does not load", t) };
            if let Err(e) = guard("adding relations", std::panic::AssertUnwindSafe(|| w.s.f.add_relations(l)))? { return viol("adding relations fails", e); }
            done.push(t);
            x.count("bundles from elsewhere", 1);
        }
        let want = relations(&done);
        for (id, (kind, rel)) in &want {
            x.eval();
            let Some((base, k, got)) = w.s.explore(id)? else { return viol("exploring a built object finds nothing", format!("{kind} {id}")) };
            ensure(base == *id && k == *kind, "explored object has another kind", || format!("{kind} {id}: {base} {k}"))?;
            let g: BTreeSet<(String, String)> = got.iter().cloned().collect();
            if g.len() != got.len() || g != *rel {
                let (missing, extra): (Vec<_>, Vec<_>) = (rel.difference(&g).collect(), g.difference(rel).collect());
                let which = if !missing.is_empty() { "misses" } else { "has a wrong" };
                return viol(&format!("{} {which} relation", kind.split('/').nth(1).unwrap_or(kind)), format!("{kind} {id}\nmissing {missing:?}\nextra {extra:?}"));
            }
            x.state(&format!("{id}{got:?}"));
            x.count(&format!("relations of a {}", if kind.starts_with("spec") { "overlay" } else { kind }), got.len() as u64);
        }
    }
    for id in [sad::digest(b"nothing"), String::new(), "x".into(), ".metadata".into(), format!("{}.metadata", w.built[0].id), "żółć".into(), w.built[0].id.to_lowercase(), "\0".into()] {
        x.eval();
        ensure(w.s.explore(&id)?.is_none(), "exploring an unknown identifier finds something", || id.clone())?;
    }
    for id in w.bundles.keys().chain(w.objects.keys()) { w.s.explore(id)?; }
    x.sample(|| json!({"files": w.built.iter().map(|b| b.plan.text.clone()).collect::<Vec<_>>()}));
    Ok(())
}

// ---------------------------------------------------------------- C17
const WORDS: [&str; 30] = ["passport", "Pass", "portable", "sport", "Entrance", "credential", "CREDENTIALS", "red", "żółć", "Żółty", "漢字仮名", "and", "NOT", "near", "OR", "x1y2z3", "under_score", "abcabcabc", "aaaa", "2024", "zzz", "éclair", "Straße", "name", "description", "language_code", "eng", "deu", "tion", "ation"];
fn phrase(r: &mut Rng) -> String {
    let n = r.range(1, 5);
    let mut s = String::new();
    for k in 0..n { if k > 0 { s.push_str(r.pick(&[" ", " ", " ", "-", ", ", ": ", "  ", "*", " + ", "(", "' ", "^", "...", "<mark>"])); } s.push_str(r.pick(&WORDS)); if r.chance(1, 5) { s = s.to_uppercase(); } }
    gen::fix_value(&s)
}
/// A long text with something to find at its very end and somewhere inside.
fn long_phrase(r: &mut Rng) -> String {
    let n = *r.pick(&[300, 1100, 2100, 4200, 9000, 17000]) + r.below(300);
    let mut s = String::new();
    while s.len() < n { s.push_str(r.pick(&["lorem", "ipsum", "dolor", "żółw", "漢字仮名", "sit_amet", "0123"])); s.push_str(r.pick(&[" ", " ", "  ", ", "])); }
    s.push_str(&phrase(r));
    gen::fix_value(&s)
}
fn has(hay: &str, needle: &str) -> bool { hay.to_lowercase().contains(&needle.to_lowercase()) }
fn word_ok(q: &str) -> bool { q.chars().count() >= 3 && q.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || (!c.is_ascii() && c.is_alphabetic())) }
fn hostile_query(r: &mut Rng) -> String {
    match r.below(5) {
        0 => (0..r.range(0, 12)).map(|_| gen::wild_char(r)).collect(),
        1 => { let p = ["NEAR(", ")", "\"", "*", "AND", "OR", "NOT", "name", ":", "{", "}", "^", "+", "-", "abc", " ", "NEAR(abc def, 2)", "'", ";", "--", "%", "\0", "language_code:eng", "oca_bundle_said"]; (0..r.range(1, 8)).map(|_| r.pick(&p).to_string()).collect::<Vec<_>>().join(*r.pick(&["", " "])) }
        2 => format!("\"{}", phrase(r)),
        3 => { let n = [1000, 5000, 20000][r.below(3)]; let p = *r.pick(&["(", "\"", "a", "abc ", "NOT ", "abc OR "]); p.repeat(n / p.len()) }
        _ => phrase(r),
    }
}
pub fn c17(x: &mut Ctx, i: u64, r: &mut Rng) -> R {
    let mut s = Sys::new();
    // now and then many bundles with a word in common
    let crowd = i % 40 == 7;
    let n = if crowd { r.range(105, 260) } else if x.thorough { r.range(3, 30) } else { r.range(2, 14) };
    let common = phrase(r);
    // bundle -> (encoding, texts in which it can be found)
    let mut all: BTreeMap<String, (String, Vec<String>)> = BTreeMap::new();
    let mut texts: Vec<String> = vec![];
    for k in 0..n {
        if !texts.is_empty() && r.chance(1, 6) { let t = r.pick(&texts).clone(); s.must_build(&t)?; x.count("files built again", 1); continue; }
        let mut cmds = vec![Cmd::AddAttr(vec![(format!("a{}", if crowd || r.chance(1, 2) { k } else { 0 }), Ty::base("Text"))])];
        if crowd && r.chance(19, 20) { cmds.push(Cmd::Meta(LANGS[4 + r.below(4)].0.to_string(), vec![("name".into(), format!("{common} crowd{k}"))])); }
        let long = i % 5 == 1 && r.chance(1, 3);
        for _ in 0..r.below(4) {
            let l = LANGS[r.below(4)].0.to_string();
            let mut p: Pairs = vec![];
            if r.chance(4, 5) { p.push(("name".into(), if long && r.chance(1, 3) { long_phrase(r) } else { phrase(r) })); }
            if r.chance(3, 5) { p.push(("description".into(), if long && r.chance(2, 3) { long_phrase(r) } else { phrase(r) })); }
            if r.chance(1, 4) { p.push(("custom".into(), phrase(r))); }
            if !p.is_empty() { cmds.push(Cmd::Meta(l, p)); }
        }
        if r.chance(1, 3) { let a = cmds[0].attrs()[0].clone(); cmds.push(Cmd::Label("en".into(), vec![(a, phrase(r))])); }
        let Ok(m) = Model::run(&cmds) else { continue };
        let text = render::plain(&cmds);
        texts.push(text.clone());
        x.note("files", texts.clone());
        let (b, t) = s.must_build(&text)?;
        let found: Vec<String> = m.meta.values().flat_map(|p| p.iter().filter(|e| e.0 == "name" || e.0 == "description").map(|e| e.1.clone())).collect();
        all.insert(id_of(&b)?, (t, found));
    }
    let values: Vec<String> = all.values().flat_map(|v| v.1.clone()).collect();
    for k in 0..12 {
        if i % 3 == 0 && k % 4 == 3 && !crowd {
            // any text, any page: no crash, and the right ones are still found afterwards
            let q = hostile_query(r);
            x.note("query", q.clone());
            x.eval();
            let l = if r.chance(1, 2) { Some(LANGS[r.below(8)].0) } else { None };
            let (got, total, _) = s.search(l, &q, *r.pick(&[0, 1, 3, 100, usize::MAX]), *r.pick(&[0, 1, 2, 1000, usize::MAX, usize::MAX / 2]))?;
            ensure(got.len() <= total.max(got.len()), "total below the number found", || q.clone())?;
            for (id, t) in &got { match all.get(id) { Some(w) => ensure(w.0 == *t, "found bundle differs from the built one", || t.clone())?, None => return viol("search finds something that was never built", id.clone()) } }
            x.count("hostile queries", 1);
            continue;
        }
        // a piece of a text that was given, or a word
        let (q, needle) = {
            let piece = if crowd && r.chance(1, 2) { if r.chance(1, 2) { common.clone() } else { "crowd".to_string() } } else if values.is_empty() || r.chance(1, 4) { r.pick(&WORDS).to_string() } else {
                let v: Vec<char> = r.pick(&values).chars().collect();
                if v.len() < 3 { continue; }
                // long texts: mostly near the end
                let a = if v.len() > 250 && r.chance(2, 3) { v.len() - r.range(3, 40) } else { r.below(v.len() - 2) };
                if v.len() > 250 { x.count("pieces of long texts", 1); }
                let b = r.range(a + 3, v.len().min(a + 12));
                v[a..b].iter().collect()
            };
            let piece = match r.below(4) { 0 => piece.to_uppercase(), 1 => piece.to_lowercase(), _ => piece };
            if piece.contains('ß') && piece.to_uppercase() != piece { continue; }
            if piece.contains("SS") || piece.contains("ss") && values.iter().any(|v| v.contains('ß')) { continue; }
            if piece.chars().count() < 3 || piece.contains('\0') { continue; }
            if word_ok(&piece) && r.chance(2, 3) { (piece.clone(), piece) } else { if piece.contains('"') || piece.contains('\\') { continue; } (format!("\"{piece}\""), piece) }
        };
        x.note("query", q.clone());
        let want: BTreeSet<String> = all.iter().filter(|(_, v)| v.1.iter().any(|t| has(t, &needle))).map(|(k, _)| k.clone()).collect();
        let lang = if r.chance(1, 2) { Some(LANGS[r.below(4)].0) } else { None };
        let limit = if want.len() > 60 { *r.pick(&[30, 50, 99, 100, 101, 150, 1000]) } else { *r.pick(&[1, 2, 3, 5, 1000]) };
        if want.len() > 60 { x.count("searches with many matches", 1); }
        let pages = want.len() / limit + 2;
        let mut seen: Vec<String> = vec![];
        for p in 1..=pages {
            x.eval();
            let (got, total, page) = s.search(lang, &q, limit, p)?;
            ensure(page == p, "wrong page number reported", || format!("{page} for {p}"))?;
            ensure(got.len() <= limit, "more records than the limit", || format!("{} for {limit}", got.len()))?;
            ensure(total == want.len(), "wrong total of a search", || format!("query {q:?}, language {lang:?}, limit {limit}, page {p}: {total}, matching {}", want.len()))?;
            if p < pages { ensure(got.len() == limit.min(want.len() - (p - 1) * limit), "page of the wrong size", || format!("query {q:?} limit {limit} page {p}: {}", got.len()))?; }
            for (id, t) in got { match all.get(&id) { Some(w) => ensure(w.0 == t, "found bundle differs from the built one", || t.clone())?, None => return viol("search finds something that was never built", id) } seen.push(id); }
        }
        let set: BTreeSet<String> = seen.iter().cloned().collect();
        ensure(set.len() == seen.len(), "a search gives a bundle twice", || format!("query {q:?}, language {lang:?}, limit {limit}: {seen:?}"))?;
        if set != want {
            let show = |v: &BTreeSet<String>| v.iter().filter_map(|i| all.get(i)).map(|a| format!("{:?}", a.1)).collect::<Vec<_>>();
            let missing: BTreeSet<String> = want.difference(&set).cloned().collect();
            let extra: BTreeSet<String> = set.difference(&want).cloned().collect();
            return viol(if missing.is_empty() { "a search finds what does not match" } else { "a search misses a match" }, format!("query {q:?}, language {lang:?}\nmissing {:?}\nextra {:?}", show(&missing), show(&extra)));
        }
        x.count(if want.is_empty() { "searches without a match" } else { "searches with matches" }, 1);
        if !want.is_empty() { x.state(&format!("{q}{want:?}")); }
        if k == 0 { x.sample(|| json!({"query": q, "found": want.len(), "of": all.len()})); }
    }
    Ok(())
}

// ---------------------------------------------------------------- C18
fn paging(x: &mut Ctx, what: &str, want: &BTreeSet<String>, limit: usize, r: &mut Rng, ask: &dyn Fn(usize, usize) -> Result<(Vec<String>, usize, usize), Stop>) -> R {
    let mut seen: Vec<String> = vec![];
    let pages = want.len().div_ceil(limit.max(1));
    let mut order: Vec<usize> = (1..=pages + 2).collect();
    if r.chance(1, 2) { r.shuffle(&mut order); }
    for p in order {
        x.eval();
        let (got, total, page) = ask(limit, p)?;
        ensure(page == p, &format!("{what}: wrong page number reported"), || format!("{page} for {p}"))?;
        ensure(total == want.len(), &format!("{what}: wrong total"), || format!("limit {limit} page {p}: {total}, there are {}", want.len()))?;
        let size = if p > pages { 0 } else { limit.min(want.len() - (p - 1) * limit) };
        ensure(got.len() == size, &format!("{what}: page of the wrong size"), || format!("limit {limit} page {p} of {}: {}", want.len(), got.len()))?;
        seen.extend(got);
    }
    let set: BTreeSet<String> = seen.iter().cloned().collect();
    ensure(set.len() == seen.len(), &format!("{what}: listed twice"), || format!("limit {limit}"))?;
    ensure(set == *want, &format!("{what}: the pages differ from what was built"), || format!("limit {limit}\nmissing {:?}\nextra {:?}", want.difference(&set).collect::<Vec<_>>(), set.difference(want).collect::<Vec<_>>()))?;
    x.state(&format!("{what}{limit}{want:?}"));
    Ok(())
}
pub fn c18(x: &mut Ctx, i: u64, r: &mut Rng) -> R {
    let mut w = World::new(crowded(r));
    let n = if x.thorough { r.range(1, 25) } else { r.range(0, 12) };
    // now and then so many that no page of a hundred or a thousand holds them
    let crowd = if i % 40 == 9 { if x.thorough && i % 400 == 9 { r.range(1001, 1100) } else { r.range(101, if x.thorough { 300 } else { 180 }) } } else { 0 };
    let mut many = vec![];
    for k in 0..crowd { many.push(w.s.must_build(&format!("ADD ATTRIBUTE many{}=Text same{}=Numeric\n", k, k % 7))?.1); }
    x.count("listings of more than 100", (crowd > 0) as u64);
    for _ in 0..n {
        w.grow(x, r)?;
        if r.chance(1, 6) { let p = w.plan(r); let bad = format!("{}REMOVE ATTRIBUTE nobody-knows\n", p.text); ensure(w.s.build(&bad)?.is_err(), "wrong file accepted", || bad.clone())?; }
    }
    let bundles: BTreeSet<String> = w.built.iter().map(|b| b.json.clone()).chain(many).collect();
    let bases: BTreeSet<String> = bundles.iter().filter_map(|b| sad::check_bundle(b).ok()).map(|b| b.cb_text).collect();
    let mut limits = vec![1, 2, bundles.len().max(1), bundles.len() + 1, 1000, usize::MAX];
    limits.push(r.range(1, 7));
    if crowd > 0 { limits.extend([50, 100, 101, 128, 255, 500, bundles.len() - 1, r.range(20, bundles.len())]); }
    for l in limits {
        if bundles.len() / l > 40 { continue; }
        paging(x, "bundles", &bundles, l, r, &|l, p| w.s.list(l, p))?;
        paging(x, "capture bases", &bases, l, r, &|l, p| w.s.list_cb(l, p))?;
    }
    for p in [0, usize::MAX, usize::MAX / 2, i64::MAX as usize, 1 << 40] {
        for l in [0usize, 1, 7, usize::MAX, i64::MAX as usize] {
            x.eval();
            x.count("odd pages", 1);
            let ((b, bt, _), (c, ct, _)) = (w.s.list(l, p)?, w.s.list_cb(l, p)?);
            ensure(bt == bundles.len() && ct == bases.len(), "wrong total on a page outside the range", || format!("limit {l} page {p}: {bt} {ct}"))?;
            ensure(b.is_empty() && c.is_empty(), "a page outside the range is not empty", || format!("limit {l} page {p}: {} {}", b.len(), c.len()))?;
        }
    }
    x.sample(|| json!({"bundles": bundles.len(), "capture bases": bases.len()}));
    Ok(())
}

// ---------------------------------------------------------------- C20
fn broken(r: &mut Rng, w: &World) -> Option<(String, &'static str)> {
    let p = w.plan(r);
    let mut cmds = p.own.clone();
    if let Some(b) = &p.base { cmds.insert(0, Cmd::From(b.clone())); }
    let lo = p.base.is_some() as usize;
    let name = r.pick(&w.pool).clone();
    let meta = if r.chance(3, 4) { vec![("name".to_string(), name)] } else { vec![] };
    let at = if r.chance(1, 2) { cmds.len() } else { r.range(lo, cmds.len()) };
    let mut m = Model::default();
    for c in &p.full[..(p.full.len() - p.own.len() + at - lo)] { m.apply(c).ok()?; }
    let nobody = "nobody-knows".to_string();
    let live = m.attrs.keys().next().cloned();
    let what = match r.below(12) {
        0 => { cmds.insert(at, Cmd::RmAttr(vec![nobody])); "removes the undefined" }
        1 => { cmds.insert(at, Cmd::AddAttr(vec![(live?, Ty::base("Text"))])); "adds the existing" }
        2 => { cmds.insert(at, Cmd::Label("en".into(), vec![(nobody, "x".into())])); "names an undefined attribute" }
        3 => { cmds.insert(at, Cmd::Simple(Simple::Unit, vec![(nobody, "x".into())])); "names an undefined attribute" }
        4 => { cmds.insert(at, Cmd::Simple(Simple::Enc, vec![(live?, "no-such-encoding".into())])); "bad encoding" }
        5 => { cmds.insert(at, Cmd::AddAttr(vec![("fresh-one".into(), Ty::Arr(Box::new(Ty::Name("no-such-name".into()))))])); "unknown name" }
        6 => { cmds.insert(at, Cmd::Link(Target::Name("no-such-name".into()), vec![(live?, "x".into())])); "unknown name" }
        7 => { cmds.insert(at, Cmd::Label("xx".into(), vec![(live?, "x".into())])); "unknown language" }
        8 => { cmds.insert(at, Cmd::Flagged(vec![nobody])); "flags an undefined attribute" }
        9 => { let k = r.below(cmds.len() + 1); let l = r.pick(&["ADD NONSENSE x", "ADD ATTRIBUTE x=NoSuchType", "ADD LABEL", "REMOVE", "ADD ATTRIBUTE =", "\"", "ADD META en PROPS name=\"unfinished"]); let k = if l.contains("unfinished") { cmds.len() } else { k }; return Some((format!("{}{l}\n{}", render::plain_file(&meta, &cmds[..k]), render::plain(&cmds[k..])), "not OCAFile")); }
        10 => { cmds.insert(at, Cmd::Meta("en".into(), vec![("d".into(), "x".into())])); "reserved property" }
        _ => return Some((format!("-- precompiler=transformation\n{}", render::plain_file(&meta, &[])) + "RENAME ATTRIBUTE a=b\n", "a transformation")),
    };
    Some((render::plain_file(&meta, &cmds), what))
}
pub fn c20(x: &mut Ctx, i: u64, r: &mut Rng) -> R {
    let mut w = World::new(crowded(r));
    for _ in 0..r.range(1, 5) { w.grow(x, r)?; }
    let words = ["Name", "text", "kg", "\"a\"", "Passport number"];
    let ids: BTreeSet<String> = w.bundles.keys().chain(w.objects.keys()).cloned().collect();
    let before = observe(&w.s, &ids, &words)?;
    let (db, cache) = (w.s.db.dump(), w.s.cache.dump());
    for _ in 0..4 {
        let Some((text, what)) = broken(r, &w) else { continue };
        x.note("rejected", text.clone());
        x.eval();
        match r.below(3) {
            0 | 1 => ensure(w.s.build(&text)?.is_err(), &format!("wrong file accepted: {what}"), || text.clone())?,
            _ => { let v = guard("validating", || w.s.f.validate_ocafile(text.clone()).is_ok())?; ensure(!v, &format!("wrong file accepted by validation: {what}"), || text.clone())?; }
        }
        x.count(&format!("rejected: {what}"), 1);
        let (d, c) = (w.s.db.dump(), w.s.cache.dump());
        if d != db || c != cache {
            let k: Vec<_> = d.iter().chain(c.iter()).filter(|(k, v)| db.get(*k) != Some(v) && cache.get(*k) != Some(v)).map(|(k, _)| format!("{}/{}", k.0, k.1)).collect();
            return viol("a rejected file changes the store", format!("{what}: {k:?}\n--- file\n{text}"));
        }
        x.state(&text);
    }
    // correct files, only validated
    let mut names = w.s.refs()?;
    for _ in 0..2 {
        let p = w.plan(r);
        let steps = w.expect(&p)?;
        let new: BTreeSet<String> = steps.iter().filter_map(|t| sad::check_d(t).ok()).filter(|d| !w.bundles.contains_key(d)).collect();
        x.note("validated", p.text.clone());
        x.eval();
        let inside = r.chance(1, 2);
        let res = if inside { guard("validating", || w.s.f.validate_ocafile(p.text.clone()).map(|b| b.oca_bundle))? } else { let mut e = Names(names.clone()); guard("validating", || w.s.f.validate_ocafile_with_external_references(p.text.clone(), &mut e).map(|b| b.oca_bundle))? };
        match res { Ok(b) => ensure(Some(&encode(&b)?) == steps.last(), "validation builds something else", || p.text.clone())?, Err(e) => return viol("correct file rejected by validation", format!("{e:?}\n{}", p.text)) }
        if inside { names = w.s.refs()?; w.names = names.clone(); }
        for id in &new {
            ensure(w.s.get(id, false)?.is_err(), "validation makes a bundle retrievable", || p.text.clone())?;
            ensure(w.s.explore(id)?.is_none() && w.s.steps(id)?.is_err(), "validation leaves relations or a history", || p.text.clone())?;
        }
        let strip = |d: crate::store::Dump| d.into_iter().filter(|(k, _)| k.0 != "oca_refs").collect::<BTreeMap<_, _>>();
        ensure(strip(w.s.db.dump()) == strip(db.clone()) && w.s.cache.dump() == cache, "validation changes the store", || p.text.clone())?;
        x.state(&p.text);
        x.count("validated", 1);
    }
    let mut after = observe(&w.s, &ids, &words)?;
    after.insert("names".into(), before["names"].clone());
    if let Some((k, d)) = first_change(&before, &after) { return viol(&format!("a rejected or validated file changes: {k}"), d); }
    if i % 5 == 0 {
        // and what is built afterwards is what it would have been
        let b = w.grow(x, r)?;
        x.state(&b.id);
    }
    x.sample(|| json!({"files": w.built.iter().map(|b| b.plan.text.clone()).collect::<Vec<_>>(), "observations": before.len()}));
    Ok(())
}
pub struct Names(pub BTreeMap<String, String>);
impl oca_rs::facade::build::References for Names {
    fn find(&self, refn: &str) -> Option<String> { self.0.get(refn).cloned() }
    fn save(&mut self, refn: &str, value: String) { self.0.insert(refn.to_string(), value); }
}

// ---------------------------------------------------------------- C26
pub fn c26(x: &mut Ctx, i: u64, r: &mut Rng) -> R {
    let words = ["Name", "text", "kg", "Passport number", "o1"];
    if i % 2 == 0 {
        let mut w = World::new(crowded(r));
        for _ in 0..r.range(1, 7) { w.grow(x, r)?; }
        let ids: BTreeSet<String> = w.bundles.keys().chain(w.objects.keys()).cloned().collect();
        let mut before = observe(&w.s, &ids, &words)?;
        let cache = w.s.cache.dump();
        let again: Vec<Built> = w.built.iter().filter(|b| !b.plan.own.iter().any(has_name)).cloned().collect();
        if again.is_empty() { return skip(); }
        for _ in 0..r.range(1, 4) {
            let b = r.pick(&again).clone();
            x.note("built again", b.plan.text.clone());
            x.eval();
            let (_, t) = w.s.must_build(&b.plan.text)?;
            ensure(t == b.json, "building again gives another bundle", || b.plan.text.clone())?;
            if let Some(n) = &b.plan.name { w.names.insert(n.clone(), b.id.clone()); }
            let after = observe(&w.s, &ids, &words)?;
            before.insert("names".into(), format!("{:?}", w.names));
            if let Some((k, d)) = first_change(&before, &after) { return viol(&format!("building again changes: {k}"), format!("{d}\n--- file\n{}", b.plan.text)); }
            ensure(w.s.cache.dump() == cache, "building again changes the stored objects", || b.plan.text.clone())?;
            x.state(&format!("{}{}", b.id, ids.len()));
            x.count("files built again", 1);
        }
        x.sample(|| json!({"files": w.built.iter().map(|b| b.plan.text.clone()).collect::<Vec<_>>()}));
        return Ok(());
    }
    // independent files in several orders
    let g = GenCfg { ..crowded(r) };
    let planner = World::new(g.clone());
    let mut plans: Vec<Plan> = vec![];
    for k in 0..r.range(2, 7) {
        let own = if !plans.is_empty() && r.chance(1, 3) { let mut c = r.pick(&plans).full.clone(); let mut m = Model::run(&c).unwrap_or_default(); c.extend(gen::cmds_from(r, &g, &mut m)); c } else { gen::cmds(r, &g) };
        let Some(mut p) = planner.plan_of(r, Act::New, own, None) else { continue };
        p.meta = if r.chance(1, 2) { vec![("name".into(), format!("n{k}"))] } else { vec![] };
        p.text = render::plain_file(&p.meta, &p.full);
        plans.push(p);
    }
    // a bundle that several files reach along different ways has one of several histories
    let mut ways: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    let mut ids: BTreeSet<String> = BTreeSet::new();
    for p in &plans {
        for (k, t) in planner.expect(p)?.iter().enumerate() {
            if let Ok(b) = sad::check_bundle(t) { ways.entry(b.said.clone()).or_default().insert(render::plain(&p.full[..k + 1])); ids.insert(b.said); ids.insert(b.cb); ids.extend(b.overlays.into_iter().map(|o| o.1)); }
        }
    }
    x.note("files", plans.iter().map(|p| p.text.clone()).collect::<Vec<_>>());
    let mut first: Option<BTreeMap<String, String>> = None;
    for k in 0..3 {
        let mut order: Vec<usize> = (0..plans.len()).collect();
        if k > 0 { r.shuffle(&mut order); }
        x.note("order", order.clone());
        x.eval();
        let mut s = Sys::new();
        for o in &order { s.must_build(&plans[*o].text)?; }
        let mut o = observe(&s, &ids, &words)?;
        let own_way = |id: &str| ways.get(id).is_none_or(|w| w.len() < 2);
        // histories pass through other bundles: only those whose every step has one way are compared
        o.retain(|key, v| !key.starts_with("history ") || (own_way(&key[8..]) && ways.keys().all(|id| own_way(id) || !v.contains(id.as_str()))));
        for ((ns, key), v) in s.cache.dump() { o.insert(format!("stored {ns} {key}"), String::from_utf8_lossy(&v).to_string()); }
        match &first { None => first = Some(o), Some(f) => if let Some((k, d)) = first_change(f, &o) { return viol(&format!("the order of independent files changes: {k}"), d); } }
        x.state(&format!("{order:?}{ids:?}"));
        x.count("orders compared", 1);
    }
    Ok(())
}
