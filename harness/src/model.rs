//! Reference model: instructions, their effect, and the bundle they must give.
//! Written from the documentation and the property statements, not from the code under test.
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty { Base(String), Said(String), Name(String), Arr(Box<Ty>) }
impl Ty {
    pub fn base(s: &str) -> Ty { Ty::Base(s.to_string()) }
    pub fn text(&self) -> String {
        match self {
            Ty::Base(b) => b.clone(),
            Ty::Said(s) => format!("refs:{s}"),
            Ty::Name(s) => format!("refn:{s}"),
            Ty::Arr(t) => format!("Array[{}]", t.text()),
        }
    }
    pub fn json(&self) -> Value {
        match self {
            Ty::Arr(t) => json!([t.json()]),
            o => Value::String(o.text()),
        }
    }
    pub fn refs(&self, out: &mut Vec<String>) {
        match self { Ty::Said(s) => out.push(s.clone()), Ty::Arr(t) => t.refs(out), _ => {} }
    }
    pub fn names(&self, out: &mut Vec<String>) {
        match self { Ty::Name(s) => out.push(s.clone()), Ty::Arr(t) => t.names(out), _ => {} }
    }
    pub fn resolve(&self, f: &dyn Fn(&str) -> Option<String>) -> Option<Ty> {
        Some(match self {
            Ty::Name(n) => Ty::Said(f(n)?),
            Ty::Arr(t) => Ty::Arr(Box::new(t.resolve(f)?)),
            o => o.clone(),
        })
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ec { Said(String), List(Vec<String>), Groups(Vec<(String, Vec<String>)>) }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum En { Said(String), Map(Vec<(String, String)>) }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Simple { Enc, Format, Conformance, Cardinality, Unit, Condition }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Target { Said(String), Name(String) }
pub type Pairs = Vec<(String, String)>;
/// framing of one attribute: (url, predicate, justification)
pub type Frames = Vec<(String, String, String)>;
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Cmd {
    From(String),
    AddAttr(Vec<(String, Ty)>),
    Class(String),
    Flagged(Vec<String>),
    Meta(String, Pairs),
    Label(String, Pairs),
    Info(String, Pairs),
    Simple(Simple, Pairs),
    EntryCode(Vec<(String, Ec)>),
    Entry(String, Vec<(String, En)>),
    Link(Target, Pairs),
    Framing(Pairs, Vec<(String, Frames)>),
    RmAttr(Vec<String>),
    RmClass,
    /// properties of a character encoding: part of the language, without effect on the bundle
    EncProps(Pairs),
}
impl Cmd {
    pub fn kind(&self) -> &'static str {
        match self {
            Cmd::From(_) => "from", Cmd::AddAttr(_) => "attribute", Cmd::Class(_) => "classification",
            Cmd::Flagged(_) => "flagged", Cmd::Meta(..) => "meta", Cmd::Label(..) => "label", Cmd::Info(..) => "information",
            Cmd::Simple(s, _) => match s { Simple::Enc => "character_encoding", Simple::Format => "format", Simple::Conformance => "conformance",
                Simple::Cardinality => "cardinality", Simple::Unit => "unit", Simple::Condition => "condition" },
            Cmd::EntryCode(_) => "entry_code", Cmd::Entry(..) => "entry", Cmd::Link(..) => "link", Cmd::Framing(..) => "framing",
            Cmd::RmAttr(_) => "remove_attribute", Cmd::RmClass => "remove_classification", Cmd::EncProps(_) => "character_encoding_props",
        }
    }
    /// names of the attributes the instruction talks about
    pub fn attrs(&self) -> Vec<String> {
        match self {
            Cmd::AddAttr(v) => v.iter().map(|x| x.0.clone()).collect(),
            Cmd::Flagged(v) | Cmd::RmAttr(v) => v.clone(),
            Cmd::Label(_, v) | Cmd::Info(_, v) | Cmd::Simple(_, v) | Cmd::Link(_, v) => v.iter().map(|x| x.0.clone()).collect(),
            Cmd::EntryCode(v) => v.iter().map(|x| x.0.clone()).collect(),
            Cmd::Entry(_, v) => v.iter().map(|x| x.0.clone()).collect(),
            Cmd::Framing(_, v) => v.iter().map(|x| x.0.clone()).collect(),
            _ => vec![],
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct File { pub meta: Vec<(String, String)>, pub cmds: Vec<Cmd> }

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Attr {
    pub ty: Option<Ty>,
    pub flagged: bool,
    pub labels: BTreeMap<String, String>,
    pub infos: BTreeMap<String, String>,
    pub simple: BTreeMap<Simple, String>,
    pub codes: Option<Ec>,
    pub entries: BTreeMap<String, En>,
    pub links: BTreeMap<String, String>,
    pub frames: BTreeMap<String, BTreeMap<String, (String, String)>>,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Model {
    pub attrs: BTreeMap<String, Attr>,
    pub class: Option<String>,
    pub meta: BTreeMap<String, BTreeMap<String, String>>,
    pub frame_meta: BTreeMap<String, BTreeMap<String, String>>,
}
pub const LANGS: [(&str, &str); 184] = [
    ("en", "eng"), ("de", "deu"), ("fr", "fra"), ("pl", "pol"), ("es", "spa"), ("it", "ita"), ("zh", "zho"), ("ar", "ara"), ("pt", "por"), ("ru", "rus"),
    ("ja", "jpn"), ("ko", "kor"), ("cs", "ces"), ("cy", "cym"), ("sq", "sqi"), ("nb", "nob"), ("nn", "nno"), ("no", "nor"), ("sr", "srp"), ("hr", "hrv"),
    ("id", "ind"), ("he", "heb"), ("yi", "yid"), ("za", "zha"), ("aa", "aar"), ("ab", "abk"), ("ae", "ave"), ("af", "afr"), ("ak", "aka"), ("am", "amh"),
    ("an", "arg"), ("as", "asm"), ("av", "ava"), ("ay", "aym"), ("az", "aze"), ("ba", "bak"), ("be", "bel"), ("bg", "bul"), ("bi", "bis"), ("bm", "bam"),
    ("bn", "ben"), ("bo", "bod"), ("br", "bre"), ("bs", "bos"), ("ca", "cat"), ("ce", "che"), ("ch", "cha"), ("co", "cos"), ("cr", "cre"), ("cu", "chu"),
    ("cv", "chv"), ("da", "dan"), ("dv", "div"), ("dz", "dzo"), ("ee", "ewe"), ("el", "ell"), ("eo", "epo"), ("et", "est"), ("eu", "eus"), ("fa", "fas"),
    ("ff", "ful"), ("fi", "fin"), ("fj", "fij"), ("fo", "fao"), ("fy", "fry"), ("ga", "gle"), ("gd", "gla"), ("gl", "glg"), ("gn", "grn"), ("gu", "guj"),
    ("gv", "glv"), ("ha", "hau"), ("hi", "hin"), ("ho", "hmo"), ("ht", "hat"), ("hu", "hun"), ("hy", "hye"), ("hz", "her"), ("ia", "ina"), ("ie", "ile"),
    ("ig", "ibo"), ("ii", "iii"), ("ik", "ipk"), ("io", "ido"), ("is", "isl"), ("iu", "iku"), ("jv", "jav"), ("ka", "kat"), ("kg", "kon"), ("ki", "kik"),
    ("kj", "kua"), ("kk", "kaz"), ("kl", "kal"), ("km", "khm"), ("kn", "kan"), ("kr", "kau"), ("ks", "kas"), ("ku", "kur"), ("kv", "kom"), ("kw", "cor"),
    ("ky", "kir"), ("la", "lat"), ("lb", "ltz"), ("lg", "lug"), ("li", "lim"), ("ln", "lin"), ("lo", "lao"), ("lt", "lit"), ("lu", "lub"), ("lv", "lav"),
    ("mg", "mlg"), ("mh", "mah"), ("mi", "mri"), ("mk", "mkd"), ("ml", "mal"), ("mn", "mon"), ("mr", "mar"), ("ms", "msa"), ("mt", "mlt"), ("my", "mya"),
    ("na", "nau"), ("nd", "nde"), ("ne", "nep"), ("ng", "ndo"), ("nl", "nld"), ("nr", "nbl"), ("nv", "nav"), ("ny", "nya"), ("oc", "oci"), ("oj", "oji"),
    ("om", "orm"), ("or", "ori"), ("os", "oss"), ("pa", "pan"), ("pi", "pli"), ("ps", "pus"), ("qu", "que"), ("rm", "roh"), ("rn", "run"), ("ro", "ron"),
    ("rw", "kin"), ("sa", "san"), ("sc", "srd"), ("sd", "snd"), ("se", "sme"), ("sg", "sag"), ("sh", "hbs"), ("si", "sin"), ("sk", "slk"), ("sl", "slv"),
    ("sm", "smo"), ("sn", "sna"), ("so", "som"), ("ss", "ssw"), ("st", "sot"), ("su", "sun"), ("sv", "swe"), ("sw", "swa"), ("ta", "tam"), ("te", "tel"),
    ("tg", "tgk"), ("th", "tha"), ("ti", "tir"), ("tk", "tuk"), ("tl", "tgl"), ("tn", "tsn"), ("to", "ton"), ("tr", "tur"), ("ts", "tso"), ("tt", "tat"),
    ("tw", "twi"), ("ty", "tah"), ("ug", "uig"), ("uk", "ukr"), ("ur", "urd"), ("uz", "uzb"), ("ve", "ven"), ("vi", "vie"), ("vo", "vol"), ("wa", "wln"),
    ("wo", "wol"), ("xh", "xho"), ("yo", "yor"), ("zu", "zul"),
];
pub fn lang3(l: &str) -> Option<&'static str> { LANGS.iter().find(|x| x.0 == l).map(|x| x.1) }
pub const ENCODINGS: [&str; 6] = ["base64", "utf-8", "iso-8859-1", "utf-16", "utf-16be", "utf-16le"];

#[derive(Clone, Debug, PartialEq)]
pub enum Reject { AddExisting(String), RemoveMissing(String), Undefined(String), BadValue(String) }

impl Model {
    /// Applies one instruction following the documented rules; nothing changes on rejection.
    pub fn apply(&mut self, c: &Cmd) -> Result<(), Reject> {
        for a in c.attrs() {
            let known = self.attrs.contains_key(&a);
            match c {
                Cmd::AddAttr(_) => if known { return Err(Reject::AddExisting(a)); },
                Cmd::RmAttr(_) => if !known { return Err(Reject::RemoveMissing(a)); },
                _ => if !known { return Err(Reject::Undefined(a)); },
            }
        }
        match c {
            Cmd::From(_) => {}
            Cmd::AddAttr(v) => for (n, t) in v { self.attrs.insert(n.clone(), Attr { ty: Some(t.clone()), ..Default::default() }); },
            Cmd::Class(s) => self.class = Some(s.clone()),
            Cmd::Flagged(v) => for n in v { self.attrs.get_mut(n).unwrap().flagged = true; },
            Cmd::Meta(l, p) => {
                let l = lang3(l).ok_or(Reject::BadValue(l.clone()))?;
                for (k, v) in p { self.meta.entry(l.into()).or_default().insert(k.clone(), v.clone()); }
            }
            Cmd::Label(l, p) => {
                let l = lang3(l).ok_or(Reject::BadValue(l.clone()))?;
                for (k, v) in p { self.attrs.get_mut(k).unwrap().labels.insert(l.into(), v.clone()); }
            }
            Cmd::Info(l, p) => {
                let l = lang3(l).ok_or(Reject::BadValue(l.clone()))?;
                for (k, v) in p { self.attrs.get_mut(k).unwrap().infos.insert(l.into(), v.clone()); }
            }
            Cmd::Simple(s, p) => {
                if *s == Simple::Enc { if let Some(b) = p.iter().find(|x| !ENCODINGS.contains(&x.1.as_str())) { return Err(Reject::BadValue(b.1.clone())); } }
                for (k, v) in p { self.attrs.get_mut(k).unwrap().simple.insert(*s, v.clone()); }
            }
            Cmd::EntryCode(p) => for (k, v) in p { self.attrs.get_mut(k).unwrap().codes = Some(v.clone()); },
            Cmd::Entry(l, p) => {
                let l = lang3(l).ok_or(Reject::BadValue(l.clone()))?;
                for (k, v) in p { self.attrs.get_mut(k).unwrap().entries.insert(l.into(), v.clone()); }
            }
            Cmd::Link(t, p) => {
                let t = match t { Target::Said(s) => s.clone(), Target::Name(n) => return Err(Reject::BadValue(n.clone())) };
                for (k, v) in p { self.attrs.get_mut(k).unwrap().links.insert(t.clone(), v.clone()); }
            }
            Cmd::Framing(m, p) => {
                let id = m.iter().find(|x| x.0 == "id").map(|x| x.1.clone()).ok_or(Reject::BadValue("no frame id".into()))?;
                let fm = self.frame_meta.entry(id.clone()).or_default();
                for (k, v) in m { if k != "id" { fm.insert(format!("frame_{k}"), v.clone()); } }
                for (k, fs) in p {
                    let e = self.attrs.get_mut(k).unwrap().frames.entry(id.clone()).or_default();
                    for (u, a, b) in fs { e.insert(u.clone(), (a.clone(), b.clone())); }
                }
            }
            Cmd::EncProps(_) => {}
            Cmd::RmAttr(v) => for n in v { self.attrs.remove(n); },
            Cmd::RmClass => { if self.class.is_none() { return Err(Reject::RemoveMissing("classification".into())); } self.class = None; }
        }
        let live: BTreeSet<String> = self.attrs.values().flat_map(|a| a.frames.keys().cloned()).collect();
        self.frame_meta.retain(|k, _| live.contains(k));
        Ok(())
    }
    pub fn run(cmds: &[Cmd]) -> Result<Model, (usize, Reject)> {
        let mut m = Model::default();
        for (i, c) in cmds.iter().enumerate() { m.apply(c).map_err(|e| (i, e))?; }
        Ok(m)
    }
    /// Expected bundle: {"capture_base": .., "overlays": {kind: [..sorted..]}} without identifiers.
    pub fn bundle(&self) -> Value {
        let mut cb_attrs = Map::new();
        for (n, a) in &self.attrs { cb_attrs.insert(n.clone(), a.ty.as_ref().unwrap().json()); }
        let flagged: Vec<&String> = self.attrs.iter().filter(|(_, a)| a.flagged).map(|(n, _)| n).collect();
        let cb = json!({"type": "spec/capture_base/1.1", "attributes": cb_attrs,
            "classification": self.class.clone().unwrap_or_default(), "flagged_attributes": flagged});
        let mut ov: BTreeMap<&str, Vec<Value>> = BTreeMap::new();
        let ty = |k: &str| format!("spec/overlays/{k}/1.1");
        for (l, props) in &self.meta {
            let mut o = Map::new();
            o.insert("type".into(), json!(ty("meta")));
            o.insert("language".into(), json!(l));
            for (k, v) in props { o.insert(k.clone(), json!(v)); }
            if !props.is_empty() { ov.entry("meta").or_default().push(Value::Object(o)); }
        }
        for (s, kind, field) in [
            (Simple::Enc, "character_encoding", "attribute_character_encoding"), (Simple::Format, "format", "attribute_formats"),
            (Simple::Conformance, "conformance", "attribute_conformance"), (Simple::Cardinality, "cardinality", "attribute_cardinality"),
            (Simple::Unit, "unit", "attribute_unit")] {
            let m: Map<String, Value> = self.attrs.iter().filter_map(|(n, a)| a.simple.get(&s).map(|v| (n.clone(), json!(v)))).collect();
            if !m.is_empty() { ov.entry(kind).or_default().push(json!({"type": ty(kind), field: m})); }
        }
        let (mut conds, mut deps) = (Map::new(), Map::new());
        for (n, a) in &self.attrs {
            if let Some(c) = a.simple.get(&Simple::Condition) {
                let (t, d) = placeholders(c);
                conds.insert(n.clone(), json!(t));
                deps.insert(n.clone(), json!(d));
            }
        }
        if !conds.is_empty() {
            ov.entry("conditional").or_default().push(json!({"type": ty("conditional"), "attribute_conditions": conds, "attribute_dependencies": deps}));
        }
        let codes: Map<String, Value> = self.attrs.iter().filter_map(|(n, a)| a.codes.as_ref().map(|c| (n.clone(), match c {
            Ec::Said(s) => json!(s),
            Ec::List(l) => { let mut l: Vec<Value> = l.iter().map(|x| json!(x)).collect(); sort_values(&mut l); json!(l) }
            Ec::Groups(g) => Value::Object(g.iter().map(|(k, v)| (k.clone(), json!(v))).collect()),
        }))).collect();
        if !codes.is_empty() { ov.entry("entry_code").or_default().push(json!({"type": ty("entry_code"), "attribute_entry_codes": codes})); }
        let langs: BTreeSet<&String> = self.attrs.values().flat_map(|a| a.labels.keys().chain(a.infos.keys()).chain(a.entries.keys())).collect();
        for l in langs {
            let m: Map<String, Value> = self.attrs.iter().filter_map(|(n, a)| a.labels.get(l).map(|v| (n.clone(), json!(v)))).collect();
            if !m.is_empty() { ov.entry("label").or_default().push(json!({"type": ty("label"), "language": l, "attribute_categories": [], "attribute_labels": m, "category_labels": {}})); }
            let m: Map<String, Value> = self.attrs.iter().filter_map(|(n, a)| a.infos.get(l).map(|v| (n.clone(), json!(v)))).collect();
            if !m.is_empty() { ov.entry("information").or_default().push(json!({"type": ty("information"), "language": l, "attribute_information": m})); }
            let m: Map<String, Value> = self.attrs.iter().filter_map(|(n, a)| a.entries.get(l).map(|v| (n.clone(), match v {
                En::Said(s) => json!(s),
                En::Map(p) => Value::Object(p.iter().map(|(k, v)| (k.clone(), json!(v))).collect()),
            }))).collect();
            if !m.is_empty() { ov.entry("entry").or_default().push(json!({"type": ty("entry"), "language": l, "attribute_entries": m})); }
        }
        let targets: BTreeSet<&String> = self.attrs.values().flat_map(|a| a.links.keys()).collect();
        for t in targets {
            let m: Map<String, Value> = self.attrs.iter().filter_map(|(n, a)| a.links.get(t).map(|v| (n.clone(), json!(v)))).collect();
            ov.entry("link").or_default().push(json!({"type": ty("link"), "target_bundle": t, "attribute_mapping": m}));
        }
        let frames: BTreeSet<&String> = self.attrs.values().flat_map(|a| a.frames.keys()).collect();
        for f in frames {
            let mut meta = Map::new();
            meta.insert("frame_id".into(), json!(f));
            for (k, v) in self.frame_meta.get(f).into_iter().flatten() { meta.insert(k.clone(), json!(v)); }
            let m: Map<String, Value> = self.attrs.iter().filter_map(|(n, a)| a.frames.get(f).map(|fr| (n.clone(),
                Value::Object(fr.iter().map(|(u, (p, j))| (u.clone(), json!({"predicate_id": p, "framing_justification": j}))).collect())))).collect();
            ov.entry("attribute_framing").or_default().push(json!({"type": ty("attribute_framing"), "framing_metadata": meta, "attribute_framing": m}));
        }
        let mut o = Map::new();
        for (k, mut v) in ov { sort_values(&mut v); o.insert(k.into(), Value::Array(v)); }
        json!({"capture_base": cb, "overlays": o})
    }
    pub fn key(&self) -> String { canon(&self.bundle()) }
}

/// Condition with attribute names replaced by placeholders, and the names in order of first mention.
pub fn placeholders(c: &str) -> (String, Vec<String>) {
    let mut out = String::new();
    let mut deps: Vec<String> = vec![];
    let mut rest = c;
    while let Some(p) = rest.find("${") {
        let after = &rest[p + 2..];
        match after.find('}') {
            None => break,
            Some(e) => {
                let name = &after[..e];
                let i = deps.iter().position(|d| d == name).unwrap_or_else(|| { deps.push(name.to_string()); deps.len() - 1 });
                out.push_str(&rest[..p]);
                out.push_str(&format!("${{{i}}}"));
                rest = &after[e + 1..];
            }
        }
    }
    out.push_str(rest);
    (out, deps)
}

/// Canonical text of a JSON value: object keys sorted.
pub fn canon(v: &Value) -> String {
    match v {
        Value::Object(m) => {
            let mut k: Vec<_> = m.iter().collect();
            k.sort_by(|a, b| a.0.cmp(b.0));
            format!("{{{}}}", k.iter().map(|(k, v)| format!("{}:{}", Value::String(k.to_string()), canon(v))).collect::<Vec<_>>().join(","))
        }
        Value::Array(a) => format!("[{}]", a.iter().map(canon).collect::<Vec<_>>().join(",")),
        o => o.to_string(),
    }
}
pub fn sort_values(v: &mut [Value]) { v.sort_by_key(canon); }

/// Brings an encoded bundle into the shape `Model::bundle` gives.
pub fn normalize_bundle(text: &str) -> Result<Value, String> {
    let v: Value = serde_json::from_str(text).map_err(|e| e.to_string())?;
    let m = v.as_object().ok_or("bundle is not an object")?;
    let known: BTreeSet<&str> = ["v", "d", "capture_base", "overlays"].into();
    if let Some(x) = m.keys().find(|k| !known.contains(k.as_str())) { return Err(format!("unexpected member {x} in bundle")); }
    let mut cb = v["capture_base"].clone();
    cb.as_object_mut().ok_or("capture_base is not an object")?.remove("d");
    if let Some(Value::Array(f)) = cb.get_mut("flagged_attributes") { sort_values(f); }
    let mut o = Map::new();
    for (k, x) in v["overlays"].as_object().ok_or("overlays is not an object")? {
        let mut list = match x { Value::Array(a) => a.clone(), x => vec![x.clone()] };
        for e in list.iter_mut() {
            let e = e.as_object_mut().ok_or("overlay is not an object")?;
            e.remove("d");
            e.remove("capture_base");
            if let Some(Value::Object(c)) = e.get_mut("attribute_entry_codes") {
                for (_, y) in c.iter_mut() { if let Value::Array(a) = y { sort_values(a); } }
            }
        }
        sort_values(&mut list);
        o.insert(k.clone(), Value::Array(list));
    }
    Ok(json!({"capture_base": cb, "overlays": o}))
}
/// First difference between two JSON values, as a path and the two sides.
pub fn diff(want: &Value, got: &Value, path: &str) -> Option<String> {
    match (want, got) {
        (Value::Object(a), Value::Object(b)) => {
            for (k, x) in a {
                match b.get(k) { None => return Some(format!("{path}/{k}: missing, expected {}", clip(&canon(x), 300))), Some(y) => if let Some(d) = diff(x, y, &format!("{path}/{k}")) { return Some(d); } }
            }
            for (k, y) in b { if !a.contains_key(k) { return Some(format!("{path}/{k}: unexpected {}", clip(&canon(y), 300))); } }
            None
        }
        (Value::Array(a), Value::Array(b)) => {
            for i in 0..a.len().max(b.len()) {
                match (a.get(i), b.get(i)) {
                    (Some(x), Some(y)) => if let Some(d) = diff(x, y, &format!("{path}/{i}")) { return Some(d); },
                    (Some(x), None) => return Some(format!("{path}/{i}: missing, expected {}", clip(&canon(x), 300))),
                    (None, Some(y)) => return Some(format!("{path}/{i}: unexpected {}", clip(&canon(y), 300))),
                    _ => {}
                }
            }
            None
        }
        (a, b) if a == b => None,
        (a, b) => Some(format!("{path}: expected {}, got {}", clip(&canon(a), 300), clip(&canon(b), 300))),
    }
}
pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n { s.to_string() } else { format!("{}…", s.chars().take(n).collect::<String>()) }
}
