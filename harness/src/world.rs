//! A facade together with a record of everything that was built in it.
use crate::gen::{self, GenCfg};
use crate::model::*;
use crate::render;
use crate::rng::Rng;
use crate::run::*;
use crate::sad;
use crate::sys::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
pub enum Act { New, Extend, From, Again, Shuffle, Twist }
#[derive(Clone, Debug)]
pub struct Plan { pub act: Act, pub text: String, pub meta: Pairs, pub own: Vec<Cmd>, pub base: Option<String>, pub name: Option<String>,
    /// all instructions that make the bundle, names resolved
    pub full: Vec<Cmd> }
#[derive(Clone, Debug)]
pub struct Built { pub plan: Plan, pub id: String, pub json: String, pub model: Model }
pub struct World {
    pub s: Sys,
    pub g: GenCfg,
    pub built: Vec<Built>,
    pub names: BTreeMap<String, String>,
    /// every bundle and intermediate bundle: identifier, encoding, instructions that give it
    pub bundles: BTreeMap<String, (String, Vec<Cmd>)>,
    /// every capture base and overlay of those
    pub objects: BTreeMap<String, String>,
    pub finals: BTreeSet<String>,
    pub pool: Vec<String>,
    pub from: bool,
    pub wild_layout: bool,
}
pub const NAMES: [&str; 9] = ["person", "order", "x-1", "First.Name_2", "passport", "a", "Person", "person:2", "x_1"];
impl World {
    pub fn new(g: GenCfg) -> World { World::with(Sys::new(), g) }
    pub fn with(s: Sys, g: GenCfg) -> World {
        World { s, g, built: vec![], names: BTreeMap::new(), bundles: BTreeMap::new(), objects: BTreeMap::new(), finals: BTreeSet::new(), pool: NAMES.iter().map(|s| s.to_string()).collect(), from: true, wild_layout: false }
    }
    fn cfg(&self, r: &mut Rng) -> GenCfg {
        let mut g = self.g.clone();
        let ids: Vec<String> = self.bundles.keys().cloned().collect();
        if !ids.is_empty() { let mut v: Vec<String> = (0..3).map(|_| r.pick(&ids).clone()).collect(); v.push(r.pick(&g.saids).clone()); g.saids = v; }
        g.refnames = self.names.keys().filter(|n| n.chars().all(|c| c.is_ascii_alphanumeric() || "._-:/".contains(c))).cloned().collect();
        g
    }
    /// Chooses the next file.
    pub fn plan(&self, r: &mut Rng) -> Plan {
        loop {
            let g = self.cfg(r);
            let k = if self.built.is_empty() { 0 } else { r.below(14) };
            let old = || &self.built[self.built.len() - 1];
            let (act, own, base) = match k {
                0..=4 => (Act::New, gen::cmds(r, &g), None),
                5..=6 => { let b = r.pick(&self.built).clone(); let mut m = b.model.clone(); let mut c = b.plan.full.clone(); c.extend(gen::cmds_from(r, &g, &mut m)); (Act::Extend, c, None) }
                7..=9 if self.from => {
                    let ids: Vec<&String> = self.bundles.keys().collect();
                    let id = r.pick(&ids).to_string();
                    let Ok(mut m) = Model::run(&self.bundles[&id].1) else { continue };
                    let c = gen::cmds_from(r, &g, &mut m);
                    if c.is_empty() { continue; }
                    (Act::From, c, Some(id))
                }
                10 => { let b = r.pick(&self.built).clone(); let mut p = b.plan.clone(); p.act = Act::Again; if p.own.iter().any(has_name) { continue; } return p; }
                11 => { let b = r.pick(&self.built).clone(); let want = b.model.bundle().to_string(); (Act::Shuffle, crate::checks::core::rearrange(r, &b.plan.full, &want), None) }
                _ => { let b = if r.chance(1, 2) { old().clone() } else { r.pick(&self.built).clone() }; let mut c = b.plan.full.clone(); if c.is_empty() { continue; } let i = r.below(c.len()); c[i] = crate::checks::core::nudge(r, &g, &c[i]); (Act::Twist, c, None) }
            };
            if own.len() > 60 { continue; }
            if let Some(p) = self.plan_of(r, act, own, base) { return p; }
        }
    }
    pub fn plan_of(&self, r: &mut Rng, act: Act, own: Vec<Cmd>, base: Option<String>) -> Option<Plan> {
        let mut meta: Pairs = vec![];
        if r.chance(1, 2) { meta.push(("name".into(), r.pick(&self.pool).clone())); }
        if r.chance(1, 5) { meta.push(("version".into(), "1.0".into())); }
        let mut full: Vec<Cmd> = base.as_ref().map(|b| self.bundles[b].1.clone()).unwrap_or_default();
        for c in &own { full.push(gen::resolve(c, &self.names)?); }
        Model::run(&full).ok()?;
        let mut cmds = own.clone();
        if let Some(b) = &base { cmds.insert(0, Cmd::From(b.clone())); }
        let mut rr = r.clone();
        let text = render::file(&File { meta: meta.clone(), cmds }, if self.wild_layout { Some(&mut rr) } else { None }).text;
        let name = meta.iter().find(|m| m.0 == "name").map(|m| m.1.clone());
        Some(Plan { act, text, meta, own, base, name, full })
    }
    /// What the plan must give, computed without the facade: every new step's bundle.
    pub fn expect(&self, p: &Plan) -> Result<Vec<String>, Stop> {
        let a = match parse(&render::plain(&p.full))? { Ok(a) => a, Err(e) => return viol("correct file rejected", format!("{e}\n--- file\n{}", render::plain(&p.full))) };
        let b = match build_ast(None, &a)? { Ok(b) => b, Err(e) => return viol("correct file rejected", format!("{e:?}\n--- file\n{}", render::plain(&p.full))) };
        b.steps.iter().skip(p.full.len() - p.own.len()).map(|s| encode(&s.result)).collect()
    }
    /// Notes what a successful build adds.
    pub fn record(&mut self, p: &Plan, steps: &[String]) -> Result<Built, Stop> {
        let base = p.full.len() - p.own.len();
        for (i, t) in steps.iter().enumerate() {
            let ids = match sad::check_bundle(t) { Ok(i) => i, Err(e) => return viol("built bundle: identifiers", format!("{e}\n{t}")) };
            self.objects.insert(ids.cb, ids.cb_text);
            for (_, d, t) in ids.overlays { self.objects.insert(d, t); }
            self.bundles.entry(ids.said).or_insert_with(|| (t.clone(), p.full[..base + i + 1].to_vec()));
        }
        let json = steps.last().cloned().unwrap_or_default();
        let id = match sad::check_d(&json) { Ok(i) => i, Err(e) => return viol("built bundle: identifiers", format!("{e}\n{json}")) };
        if let Some(n) = &p.name { self.names.insert(n.clone(), id.clone()); }
        self.finals.insert(id.clone());
        let b = Built { plan: p.clone(), id, json, model: Model::run(&p.full).unwrap_or_default() };
        self.built.push(b.clone());
        Ok(b)
    }
    /// Builds the plan and compares the result with what it must give.
    pub fn build(&mut self, x: &mut Ctx, p: &Plan) -> Result<Built, Stop> {
        let mut log: Vec<serde_json::Value> = x.notes.get("files").and_then(|v| v.as_array().cloned()).unwrap_or_default();
        log.push(p.text.clone().into());
        x.note("files", log);
        x.count(&format!("builds: {:?}", p.act), 1);
        let steps = self.expect(p)?;
        match self.s.build(&p.text)? {
            Ok(b) => {
                let t = encode(&b)?;
                let want = steps.last().cloned().unwrap_or_default();
                if t != want { return viol(&format!("building gives something else ({:?})", p.act), format!("expected {want}\ngot {t}\n--- file\n{}\n--- same as\n{}", p.text, render::plain(&p.full))); }
            }
            Err(e) => return viol(&format!("correct file rejected ({:?})", p.act), format!("{}\n--- file\n{}", show_err(&e), p.text)),
        }
        self.record(p, &steps)
    }
    pub fn grow(&mut self, x: &mut Ctx, r: &mut Rng) -> Result<Built, Stop> { let p = self.plan(r); self.build(x, &p) }
}
pub fn has_name(c: &Cmd) -> bool {
    match c { Cmd::AddAttr(v) => v.iter().any(|(_, t)| { let mut n = vec![]; t.names(&mut n); !n.is_empty() }), Cmd::Link(Target::Name(_), _) => true, _ => false }
}
/// A configuration in which bundles, capture bases and overlays are often shared.
pub fn crowded(r: &mut Rng) -> GenCfg {
    let mut g = GenCfg { wild: [0, 20, 50][r.below(3)], max_cmds: r.range(2, 7), ..Default::default() };
    let n = r.range(2, 6);
    g.names.truncate(n);
    g.saids.truncate(2);
    if r.chance(1, 3) { g.remove = false; }
    g
}

/// Everything a user can observe, as text by name. Core model entries and the steps are left to the caller's choice.
pub fn observe(s: &Sys, ids: &BTreeSet<String>, words: &[&str]) -> Result<BTreeMap<String, String>, Stop> {
    let mut o = BTreeMap::new();
    for id in ids {
        let v = match s.get(id, false)? { Ok((t, _)) => t, Err(_) => "absent".into() };
        o.insert(format!("bundle {id}"), v);
        let v = match s.get(id, true)? { Ok((t, mut d)) => { d.sort(); format!("{t} {d:?}") }, Err(_) => "incomplete".into() };
        o.insert(format!("bundle with dependencies {id}"), v);
        let v = match s.object(id)? { Ok((c, t)) => format!("{c} {t}"), Err(_) => "absent".into() };
        o.insert(format!("object {id}"), v);
        o.insert(format!("relations {id}"), format!("{:?}", s.explore(id)?));
        let v = match s.steps(id)? { Ok(st) => st.iter().map(|s| Ok(format!("{:?} {} -> {}", s.parent_said.as_ref().map(|p| p.to_string()), serde_json::to_string(&s.command).unwrap_or_default(), id_of(&s.result)?))).collect::<Result<Vec<_>, Stop>>()?.join("\n"), Err(_) => "none".into() };
        o.insert(format!("history {id}"), v);
    }
    let (mut l, t, _) = s.list(100_000, 1)?;
    l.sort();
    o.insert("bundles listed".into(), format!("{t} {l:?}"));
    let (mut l, t, _) = s.list_cb(100_000, 1)?;
    l.sort();
    o.insert("capture bases listed".into(), format!("{t} {l:?}"));
    for w in words {
        let (mut l, t, _) = s.search(None, w, 100_000, 1)?;
        l.sort();
        o.insert(format!("search {w}"), format!("{t} {l:?}"));
    }
    o.insert("names".into(), format!("{:?}", s.refs()?));
    Ok(o)
}
pub fn first_change(a: &BTreeMap<String, String>, b: &BTreeMap<String, String>) -> Option<(String, String)> {
    for k in a.keys().chain(b.keys()) {
        if a.get(k) != b.get(k) {
            let what = k.split(' ').filter(|w| !(w.len() == 44 && w.starts_with('E'))).collect::<Vec<_>>().join(" ");
            let what = if what.starts_with("search") { "search".to_string() } else { what };
            return Some((what, format!("{k}\n  before: {}\n  after: {}", clip(a.get(k).map(|s| s.as_str()).unwrap_or("-"), 1500), clip(b.get(k).map(|s| s.as_str()).unwrap_or("-"), 1500))));
        }
    }
    None
}
