//! Parsing, rules, content and identifiers of bundles (C01, C03, C04, C05, C06).
use crate::gen::{self, GenCfg};
use crate::model::*;
use crate::render;
use crate::rng::Rng;
use crate::run::*;
use crate::sad;
use crate::sys::*;
use crate::decode;
use serde_json::json;

fn show(c: &Cmd) -> String { format!("{c:?}") }
pub fn count_cmds(x: &mut Ctx, cmds: &[Cmd]) { for c in cmds { x.count(&format!("instructions: {}", c.kind()), 1); } }

fn deep(r: &mut Rng, n: usize) -> Ty { let mut t = Ty::base(*r.pick(&gen::TYPES)); for _ in 0..n { t = Ty::Arr(Box::new(t)); } t }

// ---------------------------------------------------------------- C01
pub fn c01(x: &mut Ctx, i: u64, r: &mut Rng) -> R {
    let mut g = GenCfg { wild: [5, 30, 80][r.below(3)], max_cmds: if x.thorough { 24 } else { 14 }, ..Default::default() };
    g.refnames = vec!["passport".into(), "other-one".into(), "x".into(), "First.Name_2".into(), "a:b/c".into(), "żaba".into()];
    g.names = many_names(r);
    let mut cmds = gen::cmds(r, &g);
    if r.chance(1, 12) { cmds.push(Cmd::AddAttr(vec![("deep-one".into(), { let n = r.range(4, 30); deep(r, n) })])); }
    if r.chance(1, 8) { let s = r.pick(&g.saids).clone(); cmds.insert(0, Cmd::From(s)); }
    let mut meta = gen::file_meta(r);
    // now and then an instruction with many hundred entries
    let large = i % 300 == 77;
    if large {
        let n = r.range(300, 1300);
        let v: Vec<String> = (0..n).map(|k| format!("a{k}")).collect();
        cmds.push(Cmd::AddAttr(v.iter().map(|a| { let t = Ty::base(*r.pick(&gen::TYPES)); (a.clone(), t) }).collect()));
        cmds.push(match r.below(3) {
            0 => Cmd::Flagged(v),
            1 => Cmd::Label("en".into(), v.into_iter().map(|a| { let t = gen::value(r, &g); (a, t) }).collect()),
            _ => Cmd::RmAttr(v),
        });
        x.count("instructions with many hundred entries", 1);
    }
    let f = File { meta: meta.clone(), cmds };
    meta.sort();
    let layouts = if x.thorough { 6 } else { 3 };
    for k in 0..layouts {
        let mut rr = Rng::from_parts(&[r.next(), i, k]);
        let t = render::file(&f, if k == 0 { None } else { Some(&mut rr) });
        x.note("ocafile", t.text.clone());
        x.eval();
        let a = match parse(&t.text)? { Ok(a) => a, Err(e) => return viol("correct file refused by the parser", format!("{e}\n--- file\n{}", t.text)) };
        let got = match decode::ast(&a) { Ok(f) => f, Err(e) => return viol("parsed instruction has an impossible form", format!("{e}\n--- file\n{}", t.text)) };
        if got.meta != meta { return viol("metadata differs", format!("expected {meta:?}, got {:?}\n--- file\n{}", got.meta, t.text)); }
        for (n, (w, h)) in f.cmds.iter().zip(&got.cmds).enumerate() {
            if w != h { return viol(&format!("{} instruction parsed wrongly", w.kind()), format!("instruction {}: expected {}\ngot {}\n--- file\n{}", n + 1, show(w), show(h), t.text)); }
        }
        if got.cmds.len() != f.cmds.len() { return viol("instructions lost or invented", format!("{} written, {} parsed\n--- file\n{}", f.cmds.len(), got.cmds.len(), t.text)); }
        x.state(&t.text);
        if k == 1 { x.sample(|| json!({"file": t.text})); }
    }
    count_cmds(x, &f.cmds);
    if i % 50 == 13 { x.eval(); capital_terms(x, r)?; }
    Ok(())
}
/// Terms of framing with capital letters: either unchanged, or (known finding) with small ones.
fn capital_terms(x: &mut Ctx, r: &mut Rng) -> R {
    let g = GenCfg { wild: 20, ..Default::default() };
    let Cmd::Framing(meta, mut v) = gen::framing(r, &g, &["a".into(), "b".into()]) else { return Ok(()) };
    for (_, f) in v.iter_mut() { f.push((format!("http://purl.bioontology.org/ontology/SNOMEDCT/{}", r.below(100)), "skos:exactMatch".into(), "semapv:ManualMappingCuration".into())); }
    let mut small = v.clone();
    for (_, f) in small.iter_mut() { for t in f.iter_mut() { t.0 = t.0.to_lowercase(); } }
    let (full, small) = (Cmd::Framing(meta.clone(), v), Cmd::Framing(meta, small));
    let t = render::file(&File { meta: vec![], cmds: vec![full.clone()] }, Some(r));
    x.note("ocafile", t.text.clone());
    let a = match parse(&t.text)? { Ok(a) => a, Err(e) => return viol("correct file refused by the parser", format!("{e}\n--- file\n{}", t.text)) };
    let got = match decode::ast(&a) { Ok(f) => f, Err(e) => return viol("parsed instruction has an impossible form", format!("{e}\n--- file\n{}", t.text)) };
    if got.cmds == [full.clone()] { return Ok(()); }
    ensure(got.cmds != [small], "the letters of a framing term are made small", || format!("{}\n--- file\n{}", show(&got.cmds[0]), t.text))?;
    viol("framing instruction parsed wrongly", format!("expected {}\ngot {}\n--- file\n{}", show(&full), got.cmds.iter().map(show).collect::<String>(), t.text))
}
fn many_names(r: &mut Rng) -> Vec<String> {
    let mut v = gen::names();
    for s in ["ADD", "add", "Text", "Array", "refs", "true", "_", "-a", "a.b.c", "9lives", "PROPS", "en", "META", "name2", "x-y_z.0", "from", "REMOVE", "attrs"] { v.push(s.into()); }
    for _ in 0..3 { let n = r.range(1, 20); v.push((0..n).map(|_| *r.pick(&['a', 'Z', '0', '_', '-', '.', 'k'])).collect()); }
    v.sort(); v.dedup();
    r.shuffle(&mut v);
    v.truncate(r.range(3, 20));
    v
}

// ---------------------------------------------------------------- C03
fn breaker(r: &mut Rng, g: &GenCfg, m: &Model) -> Option<Cmd> {
    let live: Vec<String> = m.attrs.keys().cloned().collect();
    let free: Vec<String> = g.names.iter().filter(|n| !m.attrs.contains_key(*n)).cloned().collect();
    let bad = |r: &mut Rng, live: &[String], free: &[String]| -> Vec<String> {
        let mut v = if live.is_empty() { vec![] } else { let mut l = r.subset(live, 3); if r.chance(1, 3) { l.clear(); } l };
        v.push(r.pick(free).clone());
        r.shuffle(&mut v);
        v
    };
    match r.below(7) {
        0 | 1 if !live.is_empty() => {
            let mut v: Vec<String> = if free.is_empty() { vec![] } else { let mut f = r.subset(&free, 2); if r.chance(1, 2) { f.clear(); } f };
            v.push(r.pick(&live).clone());
            r.shuffle(&mut v);
            Some(Cmd::AddAttr(v.into_iter().map(|n| (n, gen::ty(r, g))).collect()))
        }
        2 | 3 if !free.is_empty() => Some(Cmd::RmAttr(bad(r, &live, &free))),
        4 if m.class.is_none() => Some(Cmd::RmClass),
        _ if !free.is_empty() => {
            let ns = bad(r, &live, &free);
            let p: Pairs = ns.iter().map(|n| (n.clone(), gen::value(r, g))).collect();
            let l = LANGS[r.below(8)].0.to_string();
            Some(match r.below(10) {
                0 => Cmd::Label(l, p), 1 => Cmd::Info(l, p), 2 => Cmd::Simple(Simple::Format, p), 3 => Cmd::Simple(Simple::Unit, p),
                4 => Cmd::Simple(Simple::Cardinality, p), 5 => Cmd::Simple(Simple::Conformance, p),
                6 => Cmd::EntryCode(ns.into_iter().map(|n| { let c = gen::codes(r, g); (n, c) }).collect()),
                7 => Cmd::Entry(l, ns.into_iter().map(|n| { let c = gen::entries(r, g); (n, c) }).collect()),
                8 => Cmd::Link(Target::Said(r.pick(&g.saids).clone()), p),
                _ => if r.chance(1, 2) { Cmd::Simple(Simple::Enc, ns.into_iter().map(|n| (n, "utf-8".into())).collect()) } else { gen::framing(r, g, &ns[..1]) },
            })
        }
        _ => None,
    }
}
pub fn c03(x: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let mut g = GenCfg { wild: 10, max_cmds: 12, ..Default::default() };
    // few names, so that removing and adding again is common
    g.names = gen::few_names(r, 2, 8);
    let mut m = Model::default();
    let mut cmds = gen::cmds_from(r, &g, &mut m);
    // more add/remove cycles
    for _ in 0..r.below(8) {
        let live: Vec<String> = m.attrs.keys().cloned().collect();
        let c = if !live.is_empty() && r.chance(1, 2) { Cmd::RmAttr(r.subset(&live, 3)) } else { match g.names.iter().filter(|n| !m.attrs.contains_key(*n)).cloned().collect::<Vec<_>>() { f if f.is_empty() => continue, f => Cmd::AddAttr(r.subset(&f, 3).into_iter().map(|n| (n, gen::ty(r, &g))).collect()) } };
        if m.apply(&c).is_ok() { cmds.push(c); }
    }
    if cmds.is_empty() { return skip(); }
    let text = render::plain(&cmds);
    x.note("ocafile", text.clone());
    x.eval();
    let mut s = Sys::new();
    if let Err(e) = s.build(&text)? { return viol("file that obeys the rules is rejected", format!("{}\n--- file\n{text}", show_err(&e))); }
    x.count("accepted files", 1);
    x.state(&text);
    // break one rule at every position in turn
    for p in 0..=cmds.len() {
        if p < cmds.len() && !r.chance(1, 2) { continue; }
        let mut m = Model::default();
        for c in &cmds[..p] { let _ = m.apply(c); }
        let Some(b) = breaker(r, &g, &m) else { continue };
        let why = match m.clone().apply(&b) { Err(e) => e, Ok(()) => continue };
        let mut bad = cmds[..p].to_vec();
        bad.push(b.clone());
        // what follows has to be harmless in itself
        for c in &cmds[p..] { if m.apply(c).is_ok() { bad.push(c.clone()); } }
        let mut rr = r.clone();
        let text = render::file(&File { meta: vec![], cmds: bad }, if r.chance(1, 2) { None } else { Some(&mut rr) }).text;
        x.note("ocafile", text.clone());
        x.eval();
        let kind = match why { Reject::AddExisting(_) => "adding an existing attribute", Reject::RemoveMissing(_) => "removing something undefined", Reject::Undefined(_) => "naming an undefined attribute", Reject::BadValue(_) => "bad value" };
        match s.build(&text)? {
            Ok(_) => return viol(&format!("{} is accepted ({})", kind, b.kind()), format!("{b:?} is accepted although {why:?}\n--- file\n{text}")),
            Err(_) => x.count(&format!("rejected: {kind} ({})", b.kind()), 1),
        }
        x.state(&text);
    }
    Ok(())
}

// ---------------------------------------------------------------- C04
pub fn compare(m: &Model, text: &str, what: &str) -> R {
    let got = match normalize_bundle(text) { Ok(v) => v, Err(e) => return viol("bundle has an impossible form", format!("{what}: {e}\n{text}")) };
    if let Some(d) = diff(&m.bundle(), &got, "") {
        let part = d.split(':').next().unwrap_or("").split('/').filter(|s| !s.is_empty() && s.parse::<usize>().is_err()).take(3).collect::<Vec<_>>().join("/");
        let part = if part.starts_with("capture_base/attributes") { "capture_base/attributes".to_string() } else { part };
        return viol(&format!("content differs at {part}"), format!("{what}: {d}\n--- bundle\n{}", clip(text, 3000)));
    }
    Ok(())
}
pub fn c04(x: &mut Ctx, i: u64, r: &mut Rng) -> R {
    let mut g = GenCfg { wild: [0, 25, 70][r.below(3)], max_cmds: if x.thorough { 40 } else { 20 }, ..Default::default() };
    // some runs concentrate on few attributes, so that values meet
    if r.chance(1, 2) { g.names = gen::few_names(r, 1, 4); g.min_cmds = 6; }
    if r.chance(1, 4) { g.remove = false; }
    if i % 7 == 0 { g.refs = 0; }
    let cmds = gen::cmds(r, &g);
    let mut rr = r.clone();
    let text = render::file(&File { meta: gen::file_meta(r), cmds: cmds.clone() }, if r.chance(1, 2) { None } else { Some(&mut rr) }).text;
    x.note("ocafile", text.clone());
    count_cmds(x, &cmds);
    // every intermediate bundle
    let a = match parse(&text)? { Ok(a) => a, Err(e) => return viol("correct file rejected", format!("{e}\n--- file\n{text}")) };
    let b = match build_ast(None, &a)? { Ok(b) => b, Err(e) => return viol("correct file rejected", format!("{e:?}\n--- file\n{text}")) };
    if b.steps.len() != cmds.len() { return viol("number of steps", format!("{} instructions, {} steps", cmds.len(), b.steps.len())); }
    let mut m = Model::default();
    for (n, c) in cmds.iter().enumerate() {
        if m.apply(c).is_err() { return skip(); }
        x.eval();
        let t = encode(&b.steps[n].result)?;
        compare(&m, &t, &format!("after instruction {} ({c:?})\n--- file\n{text}\n", n + 1))?;
        x.state(&m.key());
    }
    let last = encode(&b.oca_bundle)?;
    compare(&m, &last, &format!("final bundle of\n{text}"))?;
    // the facade and the stand-alone entry point give the same
    let mut s = Sys::new();
    let (_, ft) = s.must_build(&text)?;
    ensure(ft == last, "facade builds something else", || format!("facade {ft}\nlibrary {last}\n--- file\n{text}"))?;
    let free = guard("building", || oca_rs::facade::build::build_from_ocafile(text.clone()))?;
    match free { Ok(b) => { let t = encode(&b)?; ensure(t == last, "stand-alone build differs", || format!("{t}\nlibrary {last}"))? } Err(e) => return viol("correct file rejected", show_err(&e)) }
    x.sample(|| json!({"file": text, "bundle": last}));
    Ok(())
}

// ---------------------------------------------------------------- C05
/// Instruction lists that must mean the same: independent instructions moved, attributes reordered, instructions split.
pub fn rearrange(r: &mut Rng, cmds: &[Cmd], want: &str) -> Vec<Cmd> {
    let mut v = cmds.to_vec();
    let strict = |v: &[Cmd]| Model::run(v).ok().map(|m| m.bundle().to_string());
    for _ in 0..3 * v.len() {
        let mut w = v.clone();
        match r.below(4) {
            0 | 1 => { if w.len() < 2 { continue; } let i = r.below(w.len() - 1); w.swap(i, i + 1); }
            2 => { let i = r.below(w.len()); shuffle_inside(r, &mut w[i]); }
            _ => { let i = r.below(w.len()); if let Some((a, b)) = split(r, &w[i]) { w[i] = a; w.insert(i + 1, b); } }
        }
        if strict(&w).as_deref() == Some(want) { v = w; }
    }
    v
}
fn shuffle_inside(r: &mut Rng, c: &mut Cmd) {
    match c {
        Cmd::AddAttr(v) => r.shuffle(v), Cmd::Flagged(v) | Cmd::RmAttr(v) => r.shuffle(v),
        Cmd::Meta(_, v) | Cmd::Label(_, v) | Cmd::Info(_, v) | Cmd::Simple(_, v) | Cmd::Link(_, v) => r.shuffle(v),
        Cmd::EntryCode(v) => { r.shuffle(v); for (_, c) in v { match c { Ec::List(l) => r.shuffle(l), Ec::Groups(g) => r.shuffle(g), _ => {} } } }
        Cmd::Entry(_, v) => { r.shuffle(v); for (_, e) in v { if let En::Map(m) = e { r.shuffle(m); } } }
        Cmd::Framing(m, v) => { r.shuffle(m); r.shuffle(v); for (_, f) in v { r.shuffle(f); } }
        _ => {}
    }
}
fn split(r: &mut Rng, c: &Cmd) -> Option<(Cmd, Cmd)> {
    fn cut<T: Clone>(r: &mut Rng, v: &[T]) -> Option<(Vec<T>, Vec<T>)> { if v.len() < 2 { return None; } let k = r.range(1, v.len() - 1); Some((v[..k].to_vec(), v[k..].to_vec())) }
    Some(match c {
        Cmd::AddAttr(v) => { let (a, b) = cut(r, v)?; (Cmd::AddAttr(a), Cmd::AddAttr(b)) }
        Cmd::Flagged(v) => { let (a, b) = cut(r, v)?; (Cmd::Flagged(a), Cmd::Flagged(b)) }
        Cmd::RmAttr(v) => { let (a, b) = cut(r, v)?; (Cmd::RmAttr(a), Cmd::RmAttr(b)) }
        Cmd::Meta(l, v) => { let (a, b) = cut(r, v)?; (Cmd::Meta(l.clone(), a), Cmd::Meta(l.clone(), b)) }
        Cmd::Label(l, v) => { let (a, b) = cut(r, v)?; (Cmd::Label(l.clone(), a), Cmd::Label(l.clone(), b)) }
        Cmd::Info(l, v) => { let (a, b) = cut(r, v)?; (Cmd::Info(l.clone(), a), Cmd::Info(l.clone(), b)) }
        Cmd::Simple(s, v) => { let (a, b) = cut(r, v)?; (Cmd::Simple(*s, a), Cmd::Simple(*s, b)) }
        Cmd::Link(t, v) => { let (a, b) = cut(r, v)?; (Cmd::Link(t.clone(), a), Cmd::Link(t.clone(), b)) }
        Cmd::EntryCode(v) => { let (a, b) = cut(r, v)?; (Cmd::EntryCode(a), Cmd::EntryCode(b)) }
        Cmd::Entry(l, v) => { let (a, b) = cut(r, v)?; (Cmd::Entry(l.clone(), a), Cmd::Entry(l.clone(), b)) }
        Cmd::Framing(m, v) => { let (a, b) = cut(r, v)?; (Cmd::Framing(m.clone(), a), Cmd::Framing(m.clone(), b)) }
        _ => return None,
    })
}
/// A small change of one instruction.
pub fn nudge(r: &mut Rng, g: &GenCfg, c: &Cmd) -> Cmd {
    let bump = |r: &mut Rng, v: &mut Pairs| { if !v.is_empty() { let i = r.below(v.len()); v[i].1 = match r.below(4) { 0 => format!("{} ", v[i].1), 1 => v[i].1.to_uppercase(), 2 => format!("{}.", v[i].1), _ => v[i].1.chars().rev().collect() }; v[i].1 = gen::fix_value(&v[i].1); } };
    let lang = |r: &mut Rng, l: &mut String| *l = LANGS[r.below(8)].0.to_string();
    let mut c = c.clone();
    match &mut c {
        Cmd::AddAttr(v) => { let i = r.below(v.len()); v[i].1 = match r.below(3) { 0 => Ty::Arr(Box::new(v[i].1.clone())), 1 => match &v[i].1 { Ty::Arr(t) => (**t).clone(), _ => Ty::base("Boolean") }, _ => gen::ty(r, g) }; }
        Cmd::Class(s) => { let at = if s.ends_with(['"', '\'']) { s.len() - 1 } else { s.len() }; s.insert_str(at, "-1"); }
        Cmd::Meta(l, v) | Cmd::Label(l, v) | Cmd::Info(l, v) => if r.chance(1, 3) { lang(r, l) } else { bump(r, v) },
        Cmd::Simple(Simple::Enc, v) => { let i = r.below(v.len()); v[i].1 = r.pick(&ENCODINGS).to_string(); }
        Cmd::Simple(_, v) => bump(r, v),
        Cmd::Link(t, v) => if r.chance(1, 3) { *t = Target::Said(r.pick(&g.saids).clone()) } else { bump(r, v) },
        Cmd::EntryCode(v) => { let i = r.below(v.len()); v[i].1 = gen::codes(r, g); }
        Cmd::Entry(l, v) => if r.chance(1, 3) { lang(r, l) } else { let i = r.below(v.len()); v[i].1 = gen::entries(r, g); },
        Cmd::Framing(m, v) => if r.chance(1, 2) { let i = r.below(m.len()); m[i].1.push('2'); } else { let i = r.below(v.len()); if let Some(f) = v[i].1.first_mut() { f.1.push('x'); } },
        _ => {}
    }
    c
}
pub fn c05(x: &mut Ctx, i: u64, r: &mut Rng) -> R {
    let g = GenCfg { wild: 30, max_cmds: 16, min_cmds: 3, ..Default::default() };
    let cmds = gen::cmds(r, &g);
    let m = match Model::run(&cmds) { Ok(m) => m, Err(_) => return skip() };
    let strict = m.bundle().to_string();
    let meta = gen::file_meta(r);
    let text = render::plain_file(&meta, &cmds);
    x.note("ocafile", text.clone());
    let mut s = Sys::new();
    let (b, want) = s.must_build(&text)?;
    let id = id_of(&b)?;
    x.fact(format!("bundle of case {i}"), format!("{:016x}{id}", crate::rng::hash_str(&want)));
    x.state(&strict);
    x.eval();
    let again = |x: &mut Ctx, text: &str, what: &str| -> R {
        x.note("other ocafile", text.to_string());
        x.eval();
        let (b, t) = Sys::new().must_build(text)?;
        let _ = id_of(&b)?;
        x.count(what, 1);
        if t != want { return viol(&format!("{what} changes the bundle"), format!("{what}\n--- file\n{}\n--- other\n{text}\n--- bundles\n{want}\n{t}", render::plain_file(&meta, &cmds))); }
        Ok(())
    };
    for _ in 0..3 { again(x, &text, "building again")?; }
    { let (_, t) = s.must_build(&text)?; ensure(t == want, "building again changes the bundle", || format!("in the same facade\n{want}\n{t}\n--- file\n{text}"))?; }
    for _ in 0..2 { let mut rr = Rng::from_parts(&[r.next()]); let t = render::file(&File { meta: gen::file_meta(r), cmds: cmds.clone() }, Some(&mut rr)).text; again(x, &t, "another layout or metadata")?; }
    for _ in 0..3 {
        let w = rearrange(r, &cmds, &strict);
        if w != cmds { again(x, &render::plain(&w), "another order of independent instructions")?; }
    }
    // different content, different identifier
    let ids = sad::check_bundle(&want).ok();
    for _ in 0..4 {
        let k = r.below(cmds.len());
        let mut w = cmds.clone();
        w[k] = nudge(r, &g, &w[k]);
        let Ok(m2) = Model::run(&w) else { continue };
        if m2.key() == m.key() { continue; }
        let t2 = render::plain(&w);
        x.note("other ocafile", t2.clone());
        x.eval();
        let (b2, e2) = match Sys::new().build(&t2)? { Ok(b) => { let e = encode(&b)?; (b, e) } Err(_) => continue };
        if id_of(&b2)? == id { return viol("different content, same identifier", format!("{text}\n--- and\n{t2}\n--- both {id}\n{e2}")); }
        if let (Some(a), Ok(c)) = (&ids, sad::check_bundle(&e2)) {
            let same = m2.bundle()["capture_base"] == m.bundle()["capture_base"];
            ensure((a.cb == c.cb) == same, "capture base identifier does not follow its content", || format!("{text}\n--- and\n{t2}"))?;
            if same {
                // overlays with the same content keep their identifier whatever the rest of the bundle is
                let strip = |t: &str| { let mut v: serde_json::Value = serde_json::from_str(t).unwrap_or_default(); if let Some(o) = v.as_object_mut() { o.remove("d"); } v.to_string() };
                for (ka, da, ta) in &a.overlays { for (kc, dc, tc) in &c.overlays { if ka == kc && (strip(ta) == strip(tc)) != (da == dc) { return viol("overlay identifier does not follow its content", format!("{ta}\n{tc}")); } } }
            }
        }
        x.count("near misses told apart", 1);
    }
    x.sample(|| json!({"file": text, "identifier": id}));
    Ok(())
}

// ---------------------------------------------------------------- C06
pub fn c06(x: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let g = GenCfg { wild: [10, 60][r.below(2)], max_cmds: 16, ..Default::default() };
    let cmds = gen::cmds(r, &g);
    let text = render::plain(&cmds);
    x.note("ocafile", text.clone());
    let mut s = Sys::new();
    let (b, t) = s.must_build(&text)?;
    let verify = |x: &mut Ctx, t: &str, what: &str| -> Result<sad::BundleIds, Stop> {
        x.eval();
        match sad::check_bundle(t) {
            Ok(ids) => { x.count("identifiers recomputed", 2 + ids.overlays.len() as u64); x.state(&ids.said); for o in &ids.overlays { x.state(&o.1); } Ok(ids) }
            Err(e) => viol(&format!("{what}: {}", e.split(|c: char| c == ' ' || c == ':').next().unwrap_or("")), format!("{what}: {e}\n{t}\n--- file\n{text}")),
        }
    };
    let ids = verify(x, &t, "built bundle")?;
    // the value's own idea of its identifiers
    let shown = |o: &Option<said::SelfAddressingIdentifier>| o.as_ref().map(|s| s.to_string()).unwrap_or_default();
    ensure(shown(&b.said) == ids.said, "identifier in memory differs from the encoded one", || format!("{} / {}", shown(&b.said), ids.said))?;
    ensure(shown(&b.capture_base.said) == ids.cb, "capture base identifier in memory differs", || format!("{} / {}", shown(&b.capture_base.said), ids.cb))?;
    let mut mine: Vec<String> = b.overlays.iter().map(|o| shown(o.said())).collect();
    let mut theirs: Vec<String> = ids.overlays.iter().map(|o| o.1.clone()).collect();
    mine.sort(); theirs.sort();
    ensure(mine == theirs, "overlay identifiers in memory differ", || format!("{mine:?} / {theirs:?}\n--- file\n{text}"))?;
    for o in &b.overlays { ensure(shown(o.capture_base()) == ids.cb, "overlay in memory names another capture base", || format!("{} / {}", shown(o.capture_base()), ids.cb))?; }
    // intermediate bundles and the encoding of the value built without a facade
    if let Ok(a) = parse(&text)? { if let Ok(bs) = build_ast(None, &a)? { for st in &bs.steps { let t = encode(&st.result)?; verify(x, &t, "intermediate bundle")?; } } }
    // everything stored
    for ((ns, k), v) in s.cache.dump() {
        let t = match String::from_utf8(v) { Ok(t) => t, Err(e) => return viol("stored object is not text", e.to_string()) };
        match ns.as_str() {
            "oca_bundles_json" => { let i = verify(x, &t, "stored bundle")?; ensure(i.said == k, "bundle stored under another identifier", || format!("{k}: {t}"))?; }
            "oca_objects_json" => { x.eval(); match sad::check_d(&t) { Ok(d) => ensure(d == k, "object stored under another identifier", || format!("{k}: {t}"))?, Err(e) => return viol("stored object: identifier", format!("{e}\n{t}\n--- file\n{text}")) } x.count("stored objects checked", 1); }
            _ => {}
        }
    }
    // a bundle loaded and completed again
    x.sample(|| json!({"bundle": t}));
    Ok(())
}
