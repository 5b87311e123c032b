//! Sequences of builds: retrieval, histories, FROM, names, dependencies (C11-C15).
use crate::gen::{self, GenCfg};
use crate::model::*;
use crate::render;
use crate::rng::Rng;
use crate::run::*;
use crate::sys::*;
use crate::world::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

// ---------------------------------------------------------------- C11
fn verify_all(x: &mut Ctx, w: &World, only: Option<&BTreeSet<String>>) -> R {
    for (id, (t, _)) in &w.bundles {
        if only.is_some_and(|o| !o.contains(id)) { continue; }
        x.eval();
        match w.s.get(id, false)? {
            Ok((got, deps)) => {
                ensure(got == *t, "a stored bundle differs from what was built", || format!("{id}\nbuilt {t}\nfetched {got}"))?;
                ensure(deps.is_empty(), "dependencies without asking", || format!("{deps:?}"))?;
            }
            Err(e) => return viol("a built bundle cannot be fetched", format!("{id} (final: {}): {e:?}\n{t}", w.finals.contains(id))),
        }
        x.state(id);
    }
    for (id, t) in &w.objects {
        if only.is_some_and(|o| !o.contains(id)) { continue; }
        x.eval();
        match w.s.object(id)? {
            Ok((cb, got)) => {
                ensure(got == *t, "a stored object differs from what was built", || format!("{id}\nbuilt {t}\nfetched {got}"))?;
                ensure(cb == t.contains("\"spec/capture_base/1.1\""), "capture base and overlay mixed up", || t.clone())?;
            }
            Err(e) => return viol("an object of a built bundle cannot be fetched", format!("{id}: {e:?}\n{t}")),
        }
        x.state(id);
    }
    Ok(())
}
pub fn c11(x: &mut Ctx, i: u64, r: &mut Rng) -> R {
    let mut w = World::new(crowded(r));
    w.wild_layout = i % 5 == 0;
    let n = if x.thorough { r.range(4, 16) } else { r.range(2, 9) };
    for k in 0..n {
        let b = w.grow(x, r)?;
        x.state(&b.id);
        if k % 3 == 0 || k + 1 == n { verify_all(x, &w, None)?; }
    }
    // nothing under an identifier may ever change
    let over = w.s.cache.with(|i| i.overwrites.clone());
    if let Some((ns, k, a, b)) = over.first() { return viol("a stored object is replaced by another", format!("{ns} {k}\n{}\n{}", String::from_utf8_lossy(a), String::from_utf8_lossy(b))); }
    // several objects at once come in the order asked for
    let ids: Vec<String> = w.objects.keys().cloned().collect();
    let ask: Vec<String> = r.subset(&ids, 6);
    match guard("fetching objects", || w.s.f.get_oca_objects(ask.clone()).map(|v| v.iter().map(|o| serde_json::to_string(o).unwrap_or_default()).collect::<Vec<_>>()))? {
        Ok(v) => { let want: Vec<String> = ask.iter().map(|i| w.objects[i].clone()).collect(); ensure(v == want, "objects fetched together differ", || format!("{ask:?}\n{v:?}"))?; }
        Err(e) => return viol("objects fetched together fail", format!("{e:?}")),
    }
    // what was never stored is an error
    let mut alien: Vec<String> = (0..3).map(|k| crate::sad::digest(format!("alien{k}{}", r.next()).as_bytes())).collect();
    alien.extend(w.s.f_unbuilt(r, &w)?);
    for id in &alien {
        x.eval();
        if w.bundles.contains_key(id) || w.objects.contains_key(id) { continue; }
        ensure(w.s.get(id, r.chance(1, 2))?.is_err(), "a bundle that was never built can be fetched", || id.clone())?;
        ensure(w.s.object(id)?.is_err(), "an object that was never built can be fetched", || id.clone())?;
        ensure(w.s.steps(id)?.is_err(), "history of an unknown bundle", || id.clone())?;
        ensure(w.s.ocafile(id, false)?.is_err() && w.s.ast_of(id)?.is_err(), "OCAFile of an unknown bundle", || id.clone())?;
    }
    // one unknown among known ones fails the whole
    for id in alien.iter().take(3) {
        if w.objects.contains_key(id) { continue; }
        let mut ask = r.subset(&ids, 4);
        ask.insert(r.below(ask.len() + 1), id.clone());
        x.eval();
        ensure(guard("fetching objects", || w.s.f.get_oca_objects(ask.clone()).is_err())?, "an object that was never built is left out silently", || format!("{ask:?}"))?;
    }
    for id in w.objects.keys().take(4) { x.eval(); if !w.bundles.contains_key(id) { ensure(w.s.get(id, false)?.is_err(), "an object is fetched as a bundle", || id.clone())?; } }
    for id in w.bundles.keys().take(4) { x.eval(); ensure(w.s.object(id)?.is_err(), "a bundle is fetched as an object", || id.clone())?; }
    x.sample(|| json!({"files": w.built.iter().map(|b| b.plan.text.clone()).collect::<Vec<_>>(), "bundles": w.bundles.len(), "objects": w.objects.len()}));
    Ok(())
}
impl Sys {
    /// identifiers of bundles that exist but were never built here
    pub fn f_unbuilt(&self, r: &mut Rng, w: &World) -> Result<Vec<String>, Stop> {
        let own = gen::cmds(r, &w.g);
        let Some(p) = w.plan_of(r, Act::New, own, None) else { return Ok(vec![]) };
        let v = w.expect(&p)?;
        Ok(v.iter().filter_map(|t| crate::sad::check_d(t).ok()).collect())
    }
}

// ---------------------------------------------------------------- C12
fn history(x: &mut Ctx, w: &World, id: &str) -> Result<Vec<String>, Stop> { history_of(x, &w.s, &w.bundles, id) }
pub fn history_of(x: &mut Ctx, s: &Sys, bundles: &BTreeMap<String, (String, Vec<Cmd>)>, id: &str) -> Result<Vec<String>, Stop> {
    let st = match s.steps(id)? { Ok(s) => s, Err(e) => return viol("history unreadable", format!("{id}: {e:?}")) };
    ensure(!st.is_empty(), "history empty", || id.to_string())?;
    x.count("steps seen", st.len() as u64);
    let ids = st.iter().map(|s| id_of(&s.result)).collect::<Result<Vec<_>, _>>()?;
    ensure(ids.last().map(|s| s.as_str()) == Some(id), "history ends elsewhere", || format!("{id}: {ids:?}"))?;
    let mut seen = BTreeSet::new();
    for d in &ids { ensure(seen.insert(d), "history visits a bundle twice", || format!("{ids:?}"))?; }
    ensure(st[0].parent_said.is_none(), "first step has a parent", || format!("{:?}", st[0].parent_said))?;
    for k in 1..st.len() { ensure(st[k].parent_said.as_ref().map(|p| p.to_string()) == Some(ids[k - 1].clone()), "step does not name the previous bundle", || format!("step {k}: {:?} after {}", st[k].parent_said, ids[k - 1]))?; }
    // what the steps claim to have produced is what is stored, and replaying gives it
    let cmds = st.iter().map(|s| crate::decode::cmd(&s.command)).collect::<Result<Vec<_>, _>>();
    let cmds = match cmds { Ok(c) => c, Err(e) => return viol("recorded instruction has an impossible form", e) };
    let a = oca_ast_semantics::ast::OCAAst { commands: st.iter().map(|s| s.command.clone()).collect(), ..oca_ast_semantics::ast::OCAAst::new() };
    let b = match build_ast(None, &a)? { Ok(b) => b, Err(e) => return viol("recorded instructions cannot be replayed", format!("{id}: {e:?}\n{}", render::plain(&cmds))) };
    let mut m = Model::default();
    for k in 0..st.len() {
        x.eval();
        let t = encode(&b.steps[k].result)?;
        let want = match bundles.get(&ids[k]) { Some(b) => &b.0, None => return viol("history names a bundle nobody built", ids[k].clone()) };
        ensure(t == *want, "replaying gives another bundle", || format!("step {k} of {id}: {t}\nrecorded {want}\n{}", render::plain(&cmds)))?;
        ensure(encode(&st[k].result)? == *want, "step's bundle differs", || ids[k].clone())?;
        if m.apply(&cmds[k]).is_err() { return viol("recorded instructions break the rules", render::plain(&cmds)); }
        crate::checks::core::compare(&m, want, "replayed model")?;
    }
    x.state(&format!("{ids:?}"));
    Ok(ids)
}
pub fn c12(x: &mut Ctx, i: u64, r: &mut Rng) -> R {
    let mut g = crowded(r);
    if r.chance(1, 2) { g.names = gen::few_names(r, 1, 3); g.max_cmds = 5; }
    let mut w = World::new(g);
    w.wild_layout = i % 4 == 0;
    let n = if x.thorough { r.range(3, 12) } else { r.range(2, 7) };
    for _ in 0..n { w.grow(x, r)?; }
    if i % 60 == 7 {
        // one long history, in one file or continued file by file
        let mut g = w.g.clone();
        g.names = gen::names();
        let len = if x.thorough { r.range(60, 400) } else { r.range(66, 140) };
        (g.min_cmds, g.max_cmds) = (len, len + 10);
        let (mut m, mut base) = (Model::default(), None);
        if r.chance(1, 2) { let b = r.pick(&w.built).clone(); m = b.model.clone(); base = Some(b.id.clone()); }
        let own = gen::cmds_from(r, &g, &mut m);
        let act = if base.is_some() { Act::From } else { Act::New };
        if let Some(p) = w.plan_of(r, act, own, base) { let b = w.build(x, &p)?; let ids = history(x, &w, &b.id)?; x.count(&format!("long histories of {} steps and more", ids.len() / 50 * 50), 1); }
    }
    // build again what removes and adds back: bundles that come back to an earlier one
    for _ in 0..2 {
        let b = r.pick(&w.built).clone();
        let live: Vec<String> = b.model.attrs.keys().cloned().collect();
        if live.is_empty() { continue; }
        let name = r.pick(&live).clone();
        let free: Vec<String> = w.g.names.iter().filter(|n| !b.model.attrs.contains_key(*n)).cloned().collect();
        let mut c = vec![];
        if let (Some(f), true) = (free.first(), r.chance(1, 2)) { c.push(Cmd::AddAttr(vec![(f.clone(), Ty::base("Text"))])); c.push(Cmd::RmAttr(vec![f.clone()])); }
        else { c.push(Cmd::RmAttr(vec![name.clone()])); c.push(Cmd::AddAttr(vec![(name.clone(), b.model.attrs[&name].ty.clone().unwrap_or(Ty::base("Text")))])); }
        let p = if r.chance(1, 2) { w.plan_of(r, Act::From, c, Some(b.id.clone())) } else { let mut f = b.plan.full.clone(); f.extend(c); w.plan_of(r, Act::Extend, f, None) };
        if let Some(p) = p { w.build(x, &p)?; x.count("returns to an earlier bundle", 1); }
    }
    let ids: Vec<String> = w.bundles.keys().cloned().collect();
    for id in &ids {
        if ids.len() > 25 && !w.finals.contains(id) && !r.chance(1, 3) { continue; }
        history(x, &w, id)?;
        x.count("histories read", 1);
    }
    // the reconstructed OCAFile builds the same bundle elsewhere
    for id in &ids {
        if !w.finals.contains(id) && !r.chance(1, 5) { continue; }
        let deref = r.chance(1, 2);
        let text = match w.s.ocafile(id, deref)? { Ok(t) => t, Err(e) => return viol("OCAFile of a stored bundle cannot be reconstructed", format!("{id}: {e:?}")) };
        x.note("reconstructed", text.clone());
        x.eval();
        let (b, _) = Sys::new().must_build(&text)?;
        ensure(id_of(&b)? == *id, "reconstructed OCAFile builds another bundle", || format!("{id}, got {:?}\n{text}", b.said))?;
        let a = match w.s.ast_of(id)? { Ok(a) => a, Err(e) => return viol("instructions of a stored bundle cannot be reconstructed", format!("{id}: {e:?}")) };
        match build_ast(None, &a)? { Ok(b) => ensure(id_of(&b.oca_bundle)? == *id, "reconstructed instructions build another bundle", || id.clone())?, Err(e) => return viol("reconstructed instructions are rejected", format!("{e:?}")) }
    }
    x.sample(|| json!({"files": w.built.iter().map(|b| b.plan.text.clone()).collect::<Vec<_>>()}));
    Ok(())
}

// ---------------------------------------------------------------- C13
pub fn c13(x: &mut Ctx, i: u64, r: &mut Rng) -> R {
    if i == 0 {
        // directed: a base nobody built
        let s = crate::sad::digest(b"nobody built this");
        let text = format!("FROM {s}\nADD ATTRIBUTE a=Text\n");
        x.note("ocafile", text.clone());
        x.eval();
        return match Sys::new().build(&text)? { Ok(_) => viol("FROM an unknown bundle is accepted", format!("the base is ignored and the rest is built alone\n--- file\n{text}")), Err(_) => Ok(()) };
    }
    let g = GenCfg { wild: [0, 40][r.below(2)], max_cmds: 10, ..if r.chance(1, 2) { crowded(r) } else { GenCfg::default() } };
    let mut w = World::new(g.clone());
    w.wild_layout = r.chance(1, 3);
    let own = gen::cmds(r, &g);
    let p = match w.plan_of(r, Act::New, own, None) { Some(p) => p, None => return skip() };
    w.build(x, &p)?;
    // a chain of files, each continuing a bundle (final or intermediate) of the ones before
    let long = i % 150 == 11;
    let links = if long { r.range(20, if x.thorough { 120 } else { 50 }) } else { r.range(1, 4) };
    let g = if long { w.g.max_cmds = 3; w.g.names = gen::names(); GenCfg { max_cmds: 3, names: gen::names(), scale: 0, ..g } } else { g };
    for _ in 0..links {
        let ids: Vec<String> = if long { vec![w.built[w.built.len() - 1].id.clone()] } else if r.chance(2, 3) { w.finals.iter().cloned().collect() } else { w.bundles.keys().cloned().collect() };
        let base = r.pick(&ids).clone();
        let before = w.bundles[&base].0.clone();
        let Ok(mut m) = Model::run(&w.bundles[&base].1) else { return skip() };
        let c = gen::cmds_from(r, &g, &mut m);
        if c.is_empty() { continue; }
        let Some(p) = w.plan_of(r, Act::From, c, Some(base.clone())) else { continue };
        x.eval();
        let b = w.build(x, &p)?;
        // the same as one file, in a facade that never saw the base
        let (_, whole) = Sys::new().must_build(&render::plain(&p.full))?;
        ensure(whole == b.json, "FROM differs from the whole file", || format!("{}\n{}\n--- file\n{}\n--- whole\n{}", b.json, whole, p.text, render::plain(&p.full)))?;
        crate::checks::core::compare(&b.model, &b.json, &format!("after FROM\n{}", p.text))?;
        match w.s.get(&base, false)? { Ok((t, _)) => ensure(t == before, "the base changed", || format!("{before}\n{t}"))?, Err(e) => return viol("the base is gone", format!("{e:?}")) }
        x.state(&b.json);
        x.count("files continuing a bundle", 1);
    }
    if long { let id = w.built[w.built.len() - 1].id.clone(); let n = history(x, &w, &id)?.len(); x.count(&format!("chains of files with {} steps and more", n / 20 * 20), 1); }
    // rules hold across the border: what the base defines cannot be added again, what it lacks cannot be removed or described
    let b = r.pick(&w.built).clone();
    let free: Vec<String> = g.names.iter().filter(|n| !b.model.attrs.contains_key(*n)).cloned().collect();
    let mut bad: Vec<Cmd> = vec![];
    if let Some(n) = b.model.attrs.keys().next() { bad.push(Cmd::AddAttr(vec![(n.clone(), Ty::base("Text"))])); }
    if let Some(n) = free.first() { bad.push(Cmd::RmAttr(vec![n.clone()])); bad.push(Cmd::Label("en".into(), vec![(n.clone(), "x".into())])); bad.push(Cmd::Flagged(vec![n.clone()])); }
    if b.model.class.is_none() { bad.push(Cmd::RmClass); }
    for c in bad {
        let text = render::plain(&[Cmd::From(b.id.clone()), c.clone()]);
        x.note("ocafile", text.clone());
        x.eval();
        ensure(w.s.build(&text)?.is_err(), &format!("FROM: a wrong {} instruction is accepted", c.kind()), || format!("{text}\n--- base\n{}", b.json))?;
        x.count("rejected continuations", 1);
    }
    // FROM alone is the base itself, if it is accepted at all
    if let Ok(v) = w.s.build(&format!("FROM {}\n", b.id))? { ensure(id_of(&v)? == b.id, "FROM without more differs from the base", || b.id.clone())?; }
    x.sample(|| json!({"files": w.built.iter().map(|b| b.plan.text.clone()).collect::<Vec<_>>()}));
    Ok(())
}

// ---------------------------------------------------------------- C14
#[derive(Default, Clone)]
struct Ext { map: BTreeMap<String, String>, saved: Vec<(String, String)>, asked: std::cell::RefCell<Vec<String>> }
impl oca_rs::facade::build::References for Ext {
    fn find(&self, refn: &str) -> Option<String> { self.asked.borrow_mut().push(refn.to_string()); self.map.get(refn).cloned() }
    fn save(&mut self, refn: &str, value: String) { self.saved.push((refn.to_string(), value.clone())); self.map.insert(refn.to_string(), value); }
}
/// A name nothing was built under, often close to one that was.
fn unknown_name(r: &mut Rng, w: &World) -> String {
    let known: Vec<&String> = w.names.keys().filter(|n| NAMES.contains(&n.as_str())).collect();
    if !known.is_empty() && r.chance(2, 3) {
        let k = r.pick(&known).to_string();
        let c = match r.below(12) {
            0 => format!("{k}:2"), 1 => format!("{k}.1"), 2 => format!("{k}-"), 3 => format!("{k}{}", r.below(10)),
            4 => format!("x{k}"), 5 => k.to_uppercase(), 6 => k.to_lowercase(), 7 => k.replace('-', "_"), 8 => k[..k.len() - 1].to_string(),
            9 => format!("{k}{k}"), 10 => format!("v1:{k}"), _ => format!("{k}@1"),
        };
        if !c.is_empty() && !w.names.contains_key(&c) { return c; }
    }
    format!("unknown{}", r.below(5))
}
pub fn c14(x: &mut Ctx, i: u64, r: &mut Rng) -> R {
    let mut g = GenCfg { refs: 60, wild: 10, max_cmds: 5, depth: [1, 3, 6][r.below(3)], ..crowded(r) };
    if r.chance(1, 2) { g.remove = false; }
    let mut w = World::new(g);
    w.wild_layout = i % 4 == 1;
    if r.chance(1, 4) { let odd = ["Żaba", "\"two words\"", "-", "123", "refn", "..", "refs", "A", "\"q\""]; for _ in 0..3 { w.pool.push(r.pick(&odd).to_string()); } }
    // names that can be written as a reference
    let n = if x.thorough { r.range(4, 14) } else { r.range(3, 9) };
    for _ in 0..n {
        if r.chance(1, 4) {
            // a file that must be rejected: an unknown name, or a broken rule in a named file
            let unknown = unknown_name(r, &w);
            let mut cfg = w.g.clone();
            cfg.refnames = vec![unknown.clone()];
            cfg.saids = vec![];
            let mut t = Ty::Name(unknown.clone());
            for _ in 0..r.below(4) { t = Ty::Arr(Box::new(t)); }
            let name = r.pick(&w.pool).clone();
            let bad = match r.below(4) {
                0 => {
                    // the unknown name anywhere among known ones
                    let mut v: Vec<(String, Ty)> = vec![("q".into(), Ty::base("Text")), ("qq".into(), t)];
                    let known: Vec<&String> = w.names.keys().filter(|n| NAMES.contains(&n.as_str())).collect();
                    if !known.is_empty() { for k in 0..r.below(4) { v.push((format!("k{k}"), Ty::Name(r.pick(&known).to_string()))); } }
                    r.shuffle(&mut v);
                    let mut c = vec![Cmd::AddAttr(v)];
                    if r.chance(1, 3) { c.push(Cmd::AddAttr(vec![("last".into(), if known.is_empty() { Ty::base("Text") } else { Ty::Name(r.pick(&known).to_string()) })])); }
                    c
                }
                1 => vec![Cmd::AddAttr(vec![("q".into(), Ty::base("Text"))]), Cmd::Link(Target::Name(unknown.clone()), vec![("q".into(), "z".into())])],
                2 => vec![Cmd::AddAttr(vec![("q".into(), Ty::base("Text"))]), Cmd::Label("en".into(), vec![("zz".into(), "z".into())])],
                _ => vec![Cmd::AddAttr(vec![("q".into(), Ty::base("Text"))]), Cmd::RmAttr(vec!["zz".into()])],
            };
            let text = render::plain_file(&[("name".into(), name)], &bad);
            x.note("rejected", text.clone());
            x.eval();
            ensure(w.s.build(&text)?.is_err(), if has_name(&bad[0]) || bad.len() > 1 && has_name(&bad[1]) { "an unknown name is accepted" } else { "wrong file accepted" }, || text.clone())?;
            x.count("rejected files with a name", 1);
        } else if r.chance(1, 6) && !w.bundles.is_empty() {
            // a name for a bundle that is already there: the file has a base and nothing more
            let ids: Vec<&String> = w.bundles.keys().collect();
            let (id, name) = (r.pick(&ids).to_string(), r.pick(&w.pool).clone());
            let text = render::plain_file(&[("name".into(), name.clone())], &[Cmd::From(id.clone())]);
            x.note("named base", text.clone());
            x.eval();
            if let Ok(b) = w.s.build(&text)? { ensure(id_of(&b)? == id, "FROM without more differs from the base", || text.clone())?; w.names.insert(name, id); x.count("names given to a base alone", 1); }
        } else {
            let p = w.plan(r);
            // the same with identifiers written out, elsewhere
            let named = p.own.iter().any(has_name);
            let b = w.build(x, &p)?;
            x.eval();
            if named {
                x.count("files using names", 1);
                x.state(&p.text);
                let (_, t) = Sys::new().must_build(&render::plain(&p.full))?;
                ensure(t == b.json, "a reference by name differs from the identifier", || format!("{t}\n{}\n--- file\n{}\n--- with identifiers\n{}", b.json, p.text, render::plain(&p.full)))?;
            }
        }
        let got = w.s.refs()?;
        x.eval();
        ensure(got == w.names, "names listed differ from the names built", || format!("listed {got:?}\nbuilt {:?}", w.names))?;
    }
    // validation against other names
    let mut ext = Ext::default();
    for (k, v) in &w.names { if r.chance(1, 2) { ext.map.insert(k.clone(), if r.chance(1, 2) { v.clone() } else { r.pick(&w.g.saids).clone() }); } }
    ext.map.insert("outside".into(), r.pick(&w.g.saids).clone());
    for _ in 0..3 {
        let mut cfg = w.g.clone();
        cfg.refnames = ext.map.keys().filter(|n| NAMES.contains(&n.as_str()) || *n == "outside").cloned().collect();
        let only_inside: Vec<String> = w.names.keys().filter(|k| !ext.map.contains_key(*k) && NAMES.contains(&k.as_str())).cloned().collect();
        let mut own = gen::cmds(r, &cfg);
        let alien = !only_inside.is_empty() && r.chance(1, 3);
        if alien { own.insert(0, Cmd::AddAttr(vec![("inner-ref".into(), Ty::Arr(Box::new(Ty::Name(r.pick(&only_inside).clone()))))])); }
        // an answer from outside that is no identifier
        let garbage = r.chance(1, 4);
        if garbage {
            let mut v = r.pick(&["", "0", "E", "0D", "H", " ", "€", "żó", "-", "refs:", "EAAAA", "not an identifier", "0F€"]).to_string();
            if r.chance(1, 3) { let mut s = r.pick(&w.g.saids).clone(); if r.chance(1, 2) { s.pop(); } else { s.push('A'); } v = s; }
            ext.map.insert("garbage".into(), v);
            own.insert(0, if r.chance(1, 2) { Cmd::AddAttr(vec![("out".into(), Ty::Arr(Box::new(Ty::Name("garbage".into()))))]) } else { Cmd::AddAttr(vec![("in".into(), Ty::base("Text")), ("out".into(), Ty::Name("garbage".into()))]) });
        }
        let name = r.pick(&w.pool).clone();
        let text = render::plain_file(&[("name".into(), name.clone())], &own);
        x.note("validated", text.clone());
        x.eval();
        let (was, before) = (ext.map.clone(), w.s.db.dump());
        w.s.db.with(|i| i.log.clear());
        let saved = ext.saved.len();
        let res = guard("validating with external references", || w.s.f.validate_ocafile_with_external_references(text.clone(), &mut ext))?;
        ensure(w.s.db.dump() == before, "validation with external references changes the store", || text.clone())?;
        let read = w.s.db.with(|i| i.log.iter().any(|o| matches!(o, crate::store::Op::Get(ns, ..) | crate::store::Op::All(ns) if ns == "oca_refs")));
        ensure(!read, "validation with external references reads the facade's names", || text.clone())?;
        match res {
            Ok(b) => {
                ensure(!garbage, "something that is no identifier is taken for one", || format!("{:?}\n{text}", was.get("garbage")))?;
                ensure(!alien, "validation with external references uses the facade's names", || text.clone())?;
                let Some(full) = own.iter().map(|c| gen::resolve(c, &was)).collect::<Option<Vec<_>>>() else { return viol("validation with external references accepts an unknown name", text) };
                let (_, want) = Sys::new().must_build(&render::plain(&full))?;
                let got = encode(&b.oca_bundle)?;
                ensure(got == want, "validation with external references resolves to something else", || format!("{got}\n{want}\n--- file\n{text}"))?;
                ensure(ext.saved[saved..].to_vec() == vec![(name.clone(), id_of(&b.oca_bundle)?)], "the name saved outside is not the bundle's", || format!("{:?}", ext.saved))?;
                x.count("validated against external names", 1);
            }
            Err(e) => {
                let resolvable = !garbage && own.iter().all(|c| gen::resolve(c, &was).is_some());
                ensure(!resolvable, "correct file rejected with external references", || format!("{e:?}\n--- file\n{text}\n{was:?}"))?;
                ensure(ext.saved.len() == saved, "a rejected file's name is saved outside", || text.clone())?;
                x.count("rejected with external names", 1);
            }
        }
    }
    ensure(w.s.refs()? == w.names, "names changed by validation", || String::new())?;
    x.sample(|| json!({"files": w.built.iter().map(|b| b.plan.text.clone()).collect::<Vec<_>>(), "names": w.names}));
    Ok(())
}

// ---------------------------------------------------------------- C15
/// The answer as a whole, encoded: the bundle and its dependencies in their order, and the true length.
fn sealed_answer(x: &mut Ctx, s: &Sys, id: &str, json: &str, deps: &[String]) -> R {
    let bare = |t: &str| crate::sad::members(t).map(|m| format!("{{{}}}", m.iter().filter(|p| p.0 != "v").map(|p| format!("{}:{}", json!(p.0), p.1)).collect::<Vec<_>>().join(",")));
    let Ok(said) = id.parse() else { return viol("identifier cannot be parsed", id.to_string()) };
    let answer = match guard("fetching", || s.f.get_oca_bundle(said, true))? { Ok(a) => a, Err(e) => return viol("fetching with dependencies fails", format!("{e:?}")) };
    let t = match guard("encoding the answer", || oca_rs::EncodeBundle::encode(&answer, &oca_rs::HashFunctionCode::Blake3_256, &oca_rs::SerializationFormats::JSON).map_err(|e| e.to_string()))? { Ok(t) => String::from_utf8_lossy(&t).into_owned(), Err(e) => return viol("the answer cannot be encoded", e) };
    x.eval();
    if let Err(e) = crate::sad::check_version(&t, "OCAA11") { return viol("version of the encoded answer", format!("{e}\n{t}")); }
    let Some(m) = crate::sad::members(&t) else { return viol("not a plain object", t) };
    ensure(m.iter().map(|p| p.0.as_str()).collect::<Vec<_>>() == ["v", "bundle", "dependencies"], "members of the encoded answer", || t.clone())?;
    ensure(Some(&m[1].1) == bare(json).as_ref(), "bundle differs in the encoded answer", || format!("{json}\n{t}"))?;
    ensure(crate::sad::elements(&m[2].1) == deps.iter().map(|d| bare(d)).collect(), "dependencies differ in the encoded answer", || t.clone())?;
    x.count("answers encoded", 1);
    Ok(())
}
pub fn c15(x: &mut Ctx, i: u64, r: &mut Rng) -> R {
    let mut s = Sys::new();
    // a random graph without cycles: every file refers to some of the earlier ones, or to nothing that exists
    // now and then a large one: long chains, or many references from one bundle
    let large = i % 250 == 17;
    let n = if large { r.range(35, if x.thorough { 150 } else { 70 }) } else if x.thorough { r.range(3, 14) } else { r.range(2, 9) };
    let (chain, fan) = (large && r.chance(2, 3), if large { r.range(4, 40) } else { 4 });
    x.count("large reference graphs", large as u64);
    let mut nodes: Vec<(String, String, Vec<String>)> = vec![];
    let mut texts = vec![];
    let mut steps: BTreeMap<String, (String, Vec<String>)> = BTreeMap::new();
    let holes = r.chance(1, 4);
    for k in 0..n {
        let mut attrs: Vec<(String, Ty)> = vec![(format!("k{k}"), Ty::base("Text"))];
        let deg = if chain { 1 } else { match r.below(3) { 0 => 0, 1 => 1, _ => r.range(1, if k + 2 >= n { fan } else { 4 }) } };
        for j in 0..deg {
            let target = if chain && !nodes.is_empty() { nodes[nodes.len() - 1].0.clone() } else if holes && r.chance(1, 6) { r.pick(&gen::fake_saids()).clone() } else if nodes.is_empty() { continue } else if r.chance(1, 5) && !steps.is_empty() { let v: Vec<&String> = steps.keys().collect(); r.pick(&v).to_string() } else if r.chance(1, 2) { nodes[nodes.len() - 1].0.clone() } else { r.pick(&nodes).0.clone() };
            let mut t = Ty::Said(target);
            for _ in 0..[0, 0, 0, 0, 1, 1, 2, 2, 5, 40][r.below(10)] { t = Ty::Arr(Box::new(t)); }
            attrs.push((format!("r{j}"), t));
        }
        r.shuffle(&mut attrs);
        let mut cmds: Vec<Cmd> = vec![];
        // now and then among many attributes which refer to nothing
        if i % 40 == 3 && r.chance(1, 2) {
            let many: Vec<(String, Ty)> = (0..r.range(60, 300)).map(|j| (format!("{}{j}", ["p", "s", "A"][r.below(3)]), Ty::base("Text"))).collect();
            cmds.push(Cmd::AddAttr(many));
            x.count("bundles of many attributes", 1);
        }
        // spread over several instructions, so that intermediate bundles have their own dependencies
        for a in attrs { cmds.push(Cmd::AddAttr(vec![a])); }
        if r.chance(1, 3) { let all: Vec<String> = cmds.iter().flat_map(|c| c.attrs()).collect(); cmds.push(Cmd::Flagged(r.subset(&all, 3))); }
        if r.chance(1, 6) { cmds.push(Cmd::Class("GICS:35102020".into())); }
        if r.chance(1, 6) && deg > 0 { let a = cmds.iter().flat_map(|c| c.attrs()).find(|a| a.starts_with('r')); if let Some(a) = a { cmds.push(Cmd::RmAttr(vec![a])); } }
        if r.chance(1, 4) { cmds.push(Cmd::Label("en".into(), vec![(format!("k{k}"), "x".into())])); }
        if r.chance(1, 4) && !nodes.is_empty() { cmds.push(Cmd::Link(Target::Said(r.pick(&nodes).0.clone()), vec![(format!("k{k}"), "y".into())])); }
        let text = render::plain(&cmds);
        texts.push(text.clone());
        x.note("files", texts.clone());
        let a = match parse(&text)? { Ok(a) => a, Err(e) => return viol("correct file rejected", e) };
        let b = match build_ast(None, &a)? { Ok(b) => b, Err(e) => return viol("correct file rejected", format!("{e:?}")) };
        let mut m = Model::default();
        for (c, st) in cmds.iter().zip(&b.steps) {
            let _ = m.apply(c);
            let mut out = vec![];
            for at in m.attrs.values() { if let Some(t) = &at.ty { t.refs(&mut out); } }
            steps.insert(id_of(&st.result)?, (encode(&st.result)?, out));
        }
        let (b, t) = s.must_build(&text)?;
        let id = id_of(&b)?;
        let refs = steps.get(&id).map(|s| s.1.clone()).unwrap_or_default();
        nodes.push((id, t, refs));
    }
    // closure by the reference graph recorded above
    for (id, (json, _)) in &steps {
        x.eval();
        let mut want: BTreeMap<String, String> = BTreeMap::new();
        let mut todo: Vec<String> = steps[id].1.clone();
        let mut missing = false;
        while let Some(d) = todo.pop() {
            if want.contains_key(&d) { continue; }
            match steps.get(&d) { Some((t, rs)) => { want.insert(d.clone(), t.clone()); todo.extend(rs.clone()); } None => missing = true }
        }
        match (s.get(id, true)?, missing) {
            (Ok((t, deps)), false) => {
                ensure(t == *json, "bundle differs when fetched with dependencies", || format!("{t}\n{json}"))?;
                let mut got = deps.clone();
                got.sort();
                let mut w: Vec<String> = want.values().cloned().collect();
                w.sort();
                if got != w {
                    let ids = |v: &[String]| v.iter().filter_map(|t| crate::sad::check_d(t).ok()).collect::<Vec<_>>();
                    return viol("dependencies differ from the closure", format!("bundle {json}\nexpected {:?}\ngot {:?}", ids(&w), ids(&got)));
                }
                x.state(&format!("{id}{}", got.len()));
                if r.chance(1, 4) { sealed_answer(x, &s, id, json, &deps)?; }
                x.count(&format!("closures of size {}", match got.len() { 0 => "0", 1 => "1", 2..=3 => "2-3", _ => "4 or more" }), 1);
            }
            (Err(_), true) => x.count("incomplete closures refused", 1),
            (Ok((_, d)), true) => return viol("a missing dependency is not an error", format!("{json}\n{} dependencies given", d.len())),
            (Err(e), false) => return viol("fetching with dependencies fails", format!("{e:?}\n{json}")),
        }
        match s.get(id, false)? { Ok((t, d)) => { ensure(t == *json, "bundle differs", || t.clone())?; ensure(d.is_empty(), "dependencies without asking", || id.clone())? } Err(e) => return viol("a built bundle cannot be fetched", format!("{e:?}")) }
    }
    x.sample(|| json!({"files": texts}));
    Ok(())
}
