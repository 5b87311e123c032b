//! Bundles assembled through the library instead of an OCAFile (C30).
use crate::gen::{self, GenCfg};
use crate::model::*;
use crate::render;
use crate::rng::Rng;
use crate::run::*;
use crate::sad;
use crate::sys::*;
use isolang::Language;
use oca_ast_semantics::ast::{AttributeType, NestedAttrType, RefValue};
use oca_bundle_semantics::state::attribute::Attribute;
use oca_bundle_semantics::state::encoding::Encoding;
use oca_bundle_semantics::state::entries::EntriesElement;
use oca_bundle_semantics::state::entry_codes::EntryCodes as Codes;
use oca_bundle_semantics::state::oca::overlay;
use oca_bundle_semantics::state::oca::overlay::attribute_framing::{FramingScope, Framings};
use oca_bundle_semantics::state::oca::overlay::cardinality::Cardinalitys;
use oca_bundle_semantics::state::oca::overlay::character_encoding::CharacterEncodings;
use oca_bundle_semantics::state::oca::overlay::conditional::Conditionals;
use oca_bundle_semantics::state::oca::overlay::conformance::Conformances;
use oca_bundle_semantics::state::oca::overlay::entry::Entries;
use oca_bundle_semantics::state::oca::overlay::entry_code::EntryCodes;
use oca_bundle_semantics::state::oca::overlay::format::Formats;
use oca_bundle_semantics::state::oca::overlay::information::Information;
use oca_bundle_semantics::state::oca::overlay::label::Labels;
use oca_bundle_semantics::state::oca::overlay::link::Links;
use oca_bundle_semantics::state::oca::overlay::meta::Metas;
use oca_bundle_semantics::state::oca::overlay::unit::Units;
use oca_bundle_semantics::state::oca::{OCABox, OCABundle};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::str::FromStr;

/// One thing said about an attribute.
#[derive(Clone, Debug)]
enum Fact {
    Ty(Ty), Flag, Label(String, String), Cat(String, String), Info(String, String), Simple(Simple, String), Codes(Ec), Entry(String, En),
    Link(String, String), Frame(String, Vec<(String, String, String)>, BTreeMap<String, String>),
}
/// One step of an assembly.
#[derive(Clone, Debug)]
enum Step { Piece(String, Vec<Fact>), Touch(String, Vec<Fact>), Meta(String, String, String), Class(String), NoClass, Mapping(Vec<(String, String)>), Drop(String), Generate, Apart }

fn lang(l: &str) -> Language { Language::from_639_3(l).expect("language") }
fn nested(t: &Ty) -> Option<NestedAttrType> {
    Some(match t {
        Ty::Base(b) => NestedAttrType::Value(AttributeType::from_str(b).ok()?),
        Ty::Said(s) => NestedAttrType::Reference(RefValue::Said(s.parse().ok()?)),
        Ty::Name(_) => return None,
        Ty::Arr(t) => NestedAttrType::Array(Box::new(nested(t)?)),
    })
}
fn tell(a: &mut Attribute, f: &Fact) {
    match f {
        Fact::Ty(t) => a.set_attribute_type(nested(t).expect("type")),
        Fact::Flag => a.set_flagged(),
        Fact::Label(l, v) => a.set_label(lang(l), v.clone()),
        Fact::Cat(l, v) => a.add_category_label(lang(l), v.clone()),
        Fact::Info(l, v) => a.set_information(lang(l), v.clone()),
        Fact::Simple(s, v) => match s {
            Simple::Enc => a.set_encoding(Encoding::from_str(v).expect("encoding")),
            Simple::Format => a.set_format(v.clone()),
            Simple::Conformance => a.set_conformance(v.clone()),
            Simple::Cardinality => a.set_cardinality(v.clone()),
            Simple::Unit => a.set_unit(v.clone()),
            Simple::Condition => a.set_condition(v.clone()),
        },
        Fact::Codes(c) => a.set_entry_codes(match c {
            Ec::Said(s) => Codes::Sai(s.clone()),
            Ec::List(l) => Codes::Array(l.clone()),
            Ec::Groups(g) => Codes::Object(g.iter().cloned().collect()),
        }),
        Fact::Entry(l, e) => a.set_entry(lang(l), match e { En::Said(s) => EntriesElement::Sai(s.clone()), En::Map(m) => EntriesElement::Object(m.iter().cloned().collect()) }),
        Fact::Link(t, v) => a.set_link(t.clone(), v.clone()),
        Fact::Frame(id, terms, meta) => {
            let meta: HashMap<String, String> = meta.clone().into_iter().collect();
            let f = terms.iter().map(|(u, p, j)| (u.clone(), FramingScope { predicate_id: p.clone(), framing_justification: j.clone(), frame_meta: meta.clone() })).collect();
            a.set_framing(id.clone(), f);
        }
    }
}
fn run(b: OCABox, steps: &[Step]) -> Result<OCABox, Stop> {
    let mut b = b;
    for s in steps {
        b = guard("assembling", || {
            match s {
                Step::Piece(n, f) => { let mut a = Attribute::new(n.clone()); for f in f { tell(&mut a, f); } b.add_attribute(a); }
                Step::Touch(n, f) => { if let Some(a) = b.attributes.get_mut(n) { for f in f { tell(a, f); } } }
                Step::Meta(l, k, v) => b.add_meta(lang(l), k.clone(), v.clone()),
                Step::Class(c) => b.add_classification(c.clone()),
                Step::NoClass => b.remove_classification(),
                Step::Mapping(m) => { let mut o = overlay::AttributeMapping::new(); o.attribute_mapping = m.iter().cloned().collect(); b.add_attribute_mapping(*o); }
                Step::Drop(n) => b.remove_attribute(n),
                Step::Generate => { b.generate_bundle(); }
                Step::Apart => { let g = b.generate_bundle(); b = OCABox::from(g); }
            }
            b
        })?;
    }
    Ok(b)
}
fn facts(r: &mut Rng, m: &Model, a: &Attr) -> Vec<Fact> {
    let mut v = vec![];
    if a.flagged { v.push(Fact::Flag); }
    for (l, t) in &a.labels { v.push(Fact::Label(l.clone(), t.clone())); }
    for (l, t) in &a.infos { v.push(Fact::Info(l.clone(), t.clone())); }
    for (s, t) in &a.simple { v.push(Fact::Simple(*s, t.clone())); }
    if let Some(c) = &a.codes { v.push(Fact::Codes(c.clone())); }
    for (l, e) in &a.entries { v.push(Fact::Entry(l.clone(), e.clone())); }
    for (t, l) in &a.links { v.push(Fact::Link(t.clone(), l.clone())); }
    for (id, f) in &a.frames {
        let meta = m.frame_meta.get(id).cloned().unwrap_or_default();
        let terms: Vec<_> = f.iter().map(|(u, (p, j))| (u.clone(), p.clone(), j.clone())).collect();
        if terms.len() > 1 && r.chance(2, 3) { for t in terms { v.push(Fact::Frame(id.clone(), vec![t], meta.clone())); } } else { v.push(Fact::Frame(id.clone(), terms, meta)); }
    }
    r.shuffle(&mut v);
    v
}
/// Something else said before, which what is said later has to replace.
fn earlier(r: &mut Rng, g: &GenCfg, f: &Fact) -> Option<Fact> {
    Some(match f {
        Fact::Ty(_) => Fact::Ty(gen::ty(r, g)),
        Fact::Label(l, _) => Fact::Label(l.clone(), gen::value(r, g)),
        Fact::Cat(l, _) => Fact::Cat(l.clone(), gen::value(r, g)),
        Fact::Info(l, _) => Fact::Info(l.clone(), gen::value(r, g)),
        Fact::Simple(Simple::Enc, _) => Fact::Simple(Simple::Enc, r.pick(&ENCODINGS).to_string()),
        Fact::Simple(Simple::Condition, _) => Fact::Simple(Simple::Condition, gen::condition(r, &g.names)),
        Fact::Simple(s, _) => Fact::Simple(*s, gen::value(r, g)),
        Fact::Codes(_) => Fact::Codes(gen::codes(r, g)),
        Fact::Entry(l, _) => Fact::Entry(l.clone(), gen::entries(r, g)),
        Fact::Link(t, _) => Fact::Link(t.clone(), gen::value(r, g)),
        Fact::Frame(id, t, m) => Fact::Frame(id.clone(), t.iter().map(|(u, p, j)| (u.clone(), format!("{p}x"), j.clone())).collect(), m.clone()),
        Fact::Flag => return None,
    })
}
/// A way to say everything about the model; pieces of one attribute stay in order.
fn plan(r: &mut Rng, g: &GenCfg, m: &Model, cats: &BTreeMap<(String, String), String>, mappings: &[Vec<(String, String)>], x: &mut Ctx) -> Vec<Step> {
    let mut queues: Vec<Vec<Step>> = vec![];
    for (n, a) in &m.attrs {
        let mut f = facts(r, m, a);
        for ((an, l), v) in cats { if an == n {
            // next to a label, which a bundle needs to keep it
            let after = f.iter().position(|k| matches!(k, Fact::Label(ll, _) if ll == l)).map_or(f.len(), |p| p + 1);
            f.insert(r.range(after, f.len()), Fact::Cat(l.clone(), v.clone()));
        } }
        let ty = Fact::Ty(a.ty.clone().unwrap());
        let mut q = vec![];
        let mut old: Vec<Fact> = vec![];
        for k in f.iter().chain([&ty]) { if r.chance(1, 5) { if let Some(e) = earlier(r, g, k) { old.push(e); x.count("values replaced later", 1); } } }
        // what is generated on the way needs a type, so the first piece has one
        if !old.iter().any(|f| matches!(f, Fact::Ty(_))) { old.insert(0, if r.chance(1, 2) { ty.clone() } else { Fact::Ty(gen::ty(r, g)) }); }
        r.shuffle(&mut old);
        let whole = r.chance(1, 4);
        if whole {
            let mut all = old;
            let k = r.below(f.len() + 1);
            f.insert(k, ty);
            all.extend(f);
            q.push(Step::Piece(n.clone(), all));
        } else {
            q.push(Step::Piece(n.clone(), old));
            f.insert(r.below(f.len() + 1), ty);
            while !f.is_empty() {
                let k = r.range(1, 3).min(f.len());
                let part: Vec<Fact> = f.drain(..k).collect();
                let again = r.chance(1, 8);
                q.push(if r.chance(1, 6) { Step::Touch(n.clone(), part.clone()) } else { Step::Piece(n.clone(), part.clone()) });
                if again { q.push(Step::Piece(n.clone(), part)); }
                x.count("pieces", 1);
            }
        }
        queues.push(q);
    }
    for (l, p) in &m.meta { for (k, v) in p {
        let mut q = vec![];
        if r.chance(1, 6) { q.push(Step::Meta(l.clone(), k.clone(), gen::value(r, g))); }
        q.push(Step::Meta(l.clone(), k.clone(), v.clone()));
        queues.push(q);
    } }
    match &m.class {
        Some(c) => { let mut q = vec![]; if r.chance(1, 4) { q.push(Step::Class("other".into())); if r.chance(1, 2) { q.push(Step::NoClass); } } q.push(Step::Class(c.clone())); queues.push(q); }
        None => if r.chance(1, 6) { queues.push(vec![Step::Class("other".into()), Step::NoClass]); },
    }
    for p in mappings { queues.push(vec![Step::Mapping(p.clone())]); }
    if r.chance(1, 4) {
        let n = format!("gone{}", r.below(3));
        queues.push(vec![Step::Piece(n.clone(), vec![Fact::Ty(gen::ty(r, g)), Fact::Label("eng".into(), "Gone".into()), Fact::Simple(Simple::Unit, "kg".into())]), Step::Drop(n)]);
        x.count("attributes dropped again", 1);
    }
    for _ in 0..r.below(3) { queues.push(vec![if r.chance(1, 2) { Step::Generate } else { x.count("taken apart on the way", 1); Step::Apart }]); }
    let mut out = vec![];
    for q in queues.iter_mut() { q.reverse(); }
    loop {
        queues.retain(|q| !q.is_empty());
        if queues.is_empty() { return out; }
        let k = r.below(queues.len());
        let burst = r.range(1, 4);
        for _ in 0..burst { if let Some(s) = queues[k].pop() { out.push(s); } }
    }
}
fn expected(m: &Model, cats: &BTreeMap<(String, String), String>, mappings: &[Vec<(String, String)>]) -> Value {
    let mut v = m.bundle();
    if let Some(Value::Array(ls)) = v["overlays"].get_mut("label") {
        for o in ls.iter_mut() {
            let l = o["language"].as_str().unwrap_or_default().to_string();
            let c: serde_json::Map<String, Value> = cats.iter().filter(|((_, cl), _)| *cl == l).map(|((n, _), t)| (n.clone(), json!(t))).collect();
            o["category_labels"] = Value::Object(c);
        }
        sort_values(ls);
    }
    if !mappings.is_empty() {
        let mut all: Vec<Value> = mappings.iter().map(|p| {
            let p: serde_json::Map<String, Value> = p.iter().map(|(k, v)| (k.clone(), json!(v))).collect();
            json!({"type": "spec/overlays/mapping/1.1", "attribute_mapping": p})
        }).collect();
        sort_values(&mut all);
        v["overlays"]["attribute_mapping"] = Value::Array(all);
    }
    v
}

pub fn c30(x: &mut Ctx, _i: u64, r: &mut Rng) -> R {
    let g = GenCfg { wild: [5, 30, 80][r.below(3)], max_cmds: if x.thorough { 24 } else { 16 }, min_cmds: 3, ..Default::default() };
    let cmds = gen::cmds(r, &g);
    let m = match Model::run(&cmds) { Ok(m) => m, Err(_) => return skip() };
    if m.attrs.is_empty() { return skip(); }
    let text = render::plain(&cmds);
    x.note("ocafile", text.clone());
    let more = r.chance(1, 3);
    let mut cats = BTreeMap::new();
    if more { for (n, a) in &m.attrs { for l in a.labels.keys() { if r.chance(1, 2) { cats.insert((n.clone(), l.clone()), gen::value(r, &g)); } } } }
    let mut mappings: Vec<Vec<(String, String)>> = vec![];
    if more && r.chance(1, 2) {
        for _ in 0..(if r.chance(1, 3) { r.range(2, 4) } else { 1 }) {
            let p: Vec<(String, String)> = m.attrs.keys().filter_map(|n| if r.chance(2, 3) { Some((n.clone(), gen::value(r, &g))) } else { None }).collect();
            if !mappings.contains(&p) { mappings.push(p); }
        }
    }
    if mappings.len() > 1 { x.count("bundles of several mappings", 1); }
    let plainly = cats.is_empty() && mappings.is_empty();
    let want = expected(&m, &cats, &mappings);
    let built = if plainly {
        let a = match parse(&text)? { Ok(a) => a, Err(e) => return viol("correct file refused by the parser", format!("{e}\n--- file\n{text}")) };
        match build_ast(None, &a)? { Ok(b) => Some(encode(&b.oca_bundle)?), Err(e) => return viol("correct file refused", format!("{e:?}\n--- file\n{text}")) }
    } else { None };
    let mut first: Option<String> = None;
    for _ in 0..(if x.thorough { 4 } else { 2 }) {
        let steps = plan(r, &g, &m, &cats, &mappings, x);
        let told = || steps.iter().map(|s| format!("{s:?}")).collect::<Vec<_>>().join("\n");
        x.note("steps", told());
        x.eval();
        let mut b = run(OCABox::new(), &steps)?;
        let mut seen = |x: &mut Ctx, what: &str, bundle: &OCABundle| -> Result<(), Stop> {
            let t = encode(bundle)?;
            match normalize_bundle(&t) {
                Err(e) => return viol("assembled bundle has an impossible form", format!("{what}: {e}\n{t}\n--- steps\n{}", told())),
                Ok(v) => if let Some(d) = diff(&want, &v, "") { return viol(&format!("{what} is not what was said: {}", area(&d)), format!("{d}\n{t}\n--- steps\n{}", told())); },
            }
            match sad::check_bundle(&t) { Ok(i) => x.state(&i.said), Err(e) => return viol("assembled bundle has a wrong identifier", format!("{what}: {e}\n{t}\n--- steps\n{}", told())) }
            let first = first.get_or_insert_with(|| t.clone());
            ensure(*first == t, "assembled in two ways, two bundles", || format!("{what}\n{first}\n{t}\n--- steps\n{}", told()))?;
            if let Some(o) = &built { ensure(*o == t, "assembled bundle differs from the file's", || format!("{what}\n{o}\n{t}\n--- file\n{text}\n--- steps\n{}", told()))?; x.count("compared with the file's bundle", 1); }
            Ok(())
        };
        let bundle = guard("generating", || b.generate_bundle())?;
        seen(x, "assembled bundle", &bundle)?;
        seen(x, "bundle generated again", &guard("generating", || b.generate_bundle())?)?;
        seen(x, "bundle of a copy", &guard("generating", || b.clone().generate_bundle())?)?;
        let mut back = guard("taking apart", || OCABox::from(bundle.clone()))?;
        seen(x, "bundle taken apart and assembled", &guard("generating", || back.generate_bundle())?)?;
        let l = match load(&encode(&bundle)?)? { Ok(l) => l, Err(e) => return viol("assembled bundle is refused by the loader", format!("{e}\n--- steps\n{}", told())) };
        seen(x, "bundle loaded", &l)?;
        let mut back = guard("taking apart", || OCABox::from(l))?;
        seen(x, "bundle loaded, taken apart and assembled", &guard("generating", || back.generate_bundle())?)?;
        if plainly {
            // the instructions a bundle gives make that bundle
            let a = guard("turning into instructions", || bundle.to_ast())?;
            match build_ast(None, &a)? { Ok(o) => seen(x, "bundle built from the instructions of the bundle", &o.oca_bundle)?, Err(e) => return viol("instructions of an assembled bundle are refused", format!("{e:?}\n--- steps\n{}", told())) }
        }
        x.count("assemblies", 1);
    }
    x.count("assemblies with category labels or mappings", u64::from(!plainly));
    x.sample(|| json!({"file": text}));
    Ok(())
}
fn area(d: &str) -> String { d.split('/').take(3).collect::<Vec<_>>().join("/").split(':').next().unwrap_or("").to_string() }
