//! Workload generators: OCAFiles as lists of instructions, state aware, with configurable wildness.
use crate::model::*;
use crate::rng::Rng;
use std::collections::BTreeMap;

#[derive(Clone)]
pub struct GenCfg {
    pub min_cmds: usize,
    pub max_cmds: usize,
    pub names: Vec<String>,
    /// how often a value comes from the wild alphabet, out of 100
    pub wild: usize,
    pub saids: Vec<String>,
    pub refnames: Vec<String>,
    /// probability (of 100) that an attribute type is a reference
    pub refs: usize,
    pub flagged: bool,
    pub remove: bool,
    pub overlays: bool,
    pub framing: bool,
    pub links: bool,
    pub conditions: bool,
    pub classification: bool,
    /// chance (of 100) for each instruction to break the rules; the first rule breach ends the file's validity
    pub breaks: usize,
    pub depth: usize,
    pub quoted_class: bool,
    /// chance (of 1000) that a file is made large in one respect
    pub scale: usize,
    /// what a large file has more of: attributes in one instruction, members of one list, length of values, languages
    pub wide: usize,
    pub many: usize,
    pub long: usize,
    pub langs: bool,
}
impl Default for GenCfg {
    fn default() -> Self {
        GenCfg {
            min_cmds: 1, max_cmds: 14, names: names(), wild: 25, saids: fake_saids(), refnames: vec![], refs: 15,
            flagged: true, remove: true, overlays: true, framing: true, links: true, conditions: true, classification: true,
            breaks: 0, depth: 3, quoted_class: true, scale: 8, wide: 4, many: 5, long: 0, langs: false,
        }
    }
}
/// A few names, some of them with a twin which differs from it in next to nothing.
pub fn few_names(r: &mut Rng, lo: usize, hi: usize) -> Vec<String> {
    let mut all = names();
    r.shuffle(&mut all);
    let n = r.range(lo, hi);
    all.truncate(n);
    for k in 0..all.len() {
        if !r.chance(1, 4) { continue; }
        let a = all[k].clone();
        let twin = match r.below(4) {
            0 => a.to_uppercase(),
            1 => a.chars().enumerate().map(|(i, c)| if i == 0 { if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() } } else { c }).collect(),
            2 => format!("{a}{}", ["-", "_", "0", "s"][r.below(4)]),
            _ => format!("{}{a}", ["-", "_", "0", "a"][r.below(4)]),
        };
        if !all.contains(&twin) { all.push(twin); }
    }
    all
}
/// A name of any letters a name may have, sometimes a long one.
pub fn odd_name(r: &mut Rng) -> String {
    let n = match r.below(12) { 0 => r.range(30, 300), 1..=3 => 1, _ => r.range(2, 14) };
    let few = r.chance(1, 2);
    (0..n).map(|_| if few { *r.pick(&['a', 'B', '0', '_', '-', '.', 's']) } else { *r.pick(&b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_."[..]) as char }).collect()
}
pub fn names() -> Vec<String> {
    ["a", "b", "c", "name", "first-name", "last_name", "d", "type", "Z9", "0", "attr.one", "language", "passed", "A", "x1", "capture_base", "label", "el-2", "ATTRS", "v"]
        .iter().map(|s| s.to_string()).collect()
}
/// Well-formed identifiers that name nothing.
pub fn fake_saids() -> Vec<String> {
    (0..6).map(|i| crate::sad::digest(format!("fake{i}").as_bytes())).collect()
}
pub const TYPES: [&str; 5] = ["Text", "Numeric", "Boolean", "Binary", "DateTime"];

pub fn ty(r: &mut Rng, g: &GenCfg) -> Ty {
    let mut t = if r.chance(g.refs, 100) && !(g.saids.is_empty() && g.refnames.is_empty()) {
        if !g.refnames.is_empty() && (g.saids.is_empty() || r.chance(1, 2)) { Ty::Name(r.pick(&g.refnames).clone()) } else { Ty::Said(r.pick(&g.saids).clone()) }
    } else {
        Ty::base(*r.pick(&TYPES))
    };
    if r.chance(30, 100) {
        for _ in 0..r.range(1, g.depth.max(1)) { t = Ty::Arr(Box::new(t)); }
    }
    t
}

const PLAIN: [&str; 14] = ["Name", "First name", "x", "kg", "M", "O", "Passport number", "1-2", "image/jpeg", "utf-8", "a:b", "Nazwisko", "2024-01-01", "some text"];
const WILD: [&str; 54] = ["", " ", "  two  ", "it's", "say \"hi\"", "back\\slash", "\\n", "\\\"", "tab\there", "line\nbreak", "żółć", "漢字", "emoji 🎉", "-- name=x",
    "b -- c", "# not a comment", "a#b", "a=b", "refs:", "refn:x", "refn:some name", "${a}", "$", "{", "}", "[\"x\"]", "{\"a\":\"b\"}", "ADD ATTRIBUTE z=Text", "REMOVE", "null", "true", "0", "\u{200b}", "é", "\r\n", "end\\\\",
    "\u{1}", "\u{7f}", "<a href='x'>", "%s%d", "..", "/", "^\\d+$", "^[A-Z]{3}\\s?\\d*$", ",", "a, b", ":", "=", "--", "\u{feff}bom", "ﷺ", "\\u0041", "very long value very long value very long value very long value very long value very long value very long value",
    "refs:EEokfxxqwAM08iku7VHMaVFBaEGYVi2W-ctBKaTW6QdJ"];

/// A value usable inside quotes.
pub fn value(r: &mut Rng, g: &GenCfg) -> String {
    let v = if r.chance(g.wild, 100) {
        match r.below(4) {
            0 => { let n = r.range(1, 12); (0..n).map(|_| wild_char(r)).collect() }
            1 => format!("{}{}", r.pick(&WILD), r.pick(&WILD)),
            _ => r.pick(&WILD).to_string(),
        }
    } else if r.chance(1, 3) {
        format!("{} {}", r.pick(&PLAIN), r.below(10))
    } else {
        r.pick(&PLAIN).to_string()
    };
    let v = if g.long > 0 && r.chance(1, 3) { long_text(r, g.long, &v) } else { v };
    fix_value(&v)
}
fn long_text(r: &mut Rng, n: usize, end: &str) -> String {
    let mut s = String::new();
    while s.len() < n { s.push_str(r.pick(&["lorem ipsum ", "dolor sit amet, ", "żółw ", "漢字", "0123456789", "x"])); }
    s.push_str(end);
    s
}
/// A configuration for files that are large in one respect or other.
pub fn large(r: &mut Rng, g: &GenCfg) -> GenCfg {
    let mut b = GenCfg { scale: 0, ..g.clone() };
    let k = r.below(6);
    if k == 0 || k == 5 { b.names.extend((0..*r.pick(&[20, 70, 150, 300, 700])).map(|i| format!("n{i}"))); b.wide = 700; b.min_cmds = 2; b.max_cmds = 7; }
    if k == 1 || k == 5 { b.min_cmds = 25; b.max_cmds = 58; }
    if k == 2 { b.long = *r.pick(&[300, 1030, 4100, 9000, 17000, 70000]); b.max_cmds = b.max_cmds.min(8); }
    if k == 3 { b.langs = true; b.min_cmds = 20; b.max_cmds = 45; }
    if k == 4 { b.many = *r.pick(&[12, 40, 140, 300]); b.wide = 6; b.min_cmds = 3; }
    if k == 5 { b.wide = 30; b.max_cmds = 40; }
    b
}
pub fn wild_char(r: &mut Rng) -> char {
    match r.below(10) {
        0..=4 => (0x20 + r.below(0x5f) as u8) as char,
        5 => *r.pick(&['"', '\'', '\\', '#', '-', '\n', '\t', '\r', '{', '}', '[', ']', '=', ',', ':', '$']),
        6 => char::from_u32(0xa1 + r.below(0x500) as u32).unwrap_or('x'),
        7 => char::from_u32(0x4e00 + r.below(0x1000) as u32).unwrap_or('x'),
        8 => char::from_u32(0x1f300 + r.below(0x200) as u32).unwrap_or('x'),
        _ => (b'a' + r.below(26) as u8) as char,
    }
}
/// Makes a text expressible as an OCAFile string: quotable one way or the other.
pub fn fix_value(v: &str) -> String {
    let s: String = v.chars().filter(|c| *c != '\0' && *c != '\u{1f}').collect();
    if can_quote(&s, '"') || can_quote(&s, '\'') { return s; }
    let s: String = s.chars().filter(|c| *c != '\'').collect();
    if can_quote(&s, '"') || can_quote(&s, '\'') { return s; }
    s.chars().filter(|c| *c != '"' && *c != '\\').collect()
}
/// Can `s` stand between two `q` characters and be read back as one string?
pub fn can_quote(s: &str, q: char) -> bool {
    let mut esc = false;
    for c in s.chars() {
        if c == '\0' || c == '\u{1f}' { return false; }
        if esc {
            // only these characters belong to the escape; a quote of either kind may be escaped
            esc = false;
            if c == '\\' { continue; }
            if c == q { continue; }
            continue;
        }
        if c == '\\' { esc = true; continue; }
        if c == q { return false; }
    }
    !esc
}
pub fn bare_ok(s: &str) -> bool {
    !s.is_empty() && s.chars().all(|c| c.is_ascii_alphanumeric() || ".-_/:".contains(c))
}

pub fn condition(r: &mut Rng, names: &[String]) -> String {
    let n = |r: &mut Rng| format!("${{{}}}", r.pick(names));
    match r.below(8) {
        0 => format!("{} > {}", n(r), r.below(10)),
        1 => format!("{} == {}", n(r), n(r)),
        2 => format!("{} > 1 and {} < 5 or {} == 3", n(r), n(r), n(r)),
        3 => "true".to_string(),
        4 => format!("{0} > 0 and not ({0} == 7)", n(r)),
        5 => format!("{} + {} * 2 >= {}", n(r), n(r), n(r)),
        6 => format!("({}) == 'x'", n(r)),
        _ => format!("{}>{}", n(r), n(r)),
    }
}

fn picks(r: &mut Rng, live: &[String], max: usize) -> Vec<String> { r.subset(live, max) }

pub fn cmd(r: &mut Rng, g: &GenCfg, m: &Model) -> Cmd {
    let live: Vec<String> = m.attrs.keys().cloned().collect();
    let wide = |n: usize| n.max(if g.wide > 4 { g.wide } else { 0 });
    let free: Vec<String> = g.names.iter().filter(|n| !m.attrs.contains_key(*n)).cloned().collect();
    loop {
        let k = r.below(100);
        let add = live.is_empty() || k < 18;
        if add && !free.is_empty() {
            let ns = picks(r, &free, wide(4));
            return Cmd::AddAttr(ns.into_iter().map(|n| (n, ty(r, g))).collect());
        }
        if live.is_empty() { return Cmd::Class("X".into()); }
        let lang = LANGS[if !g.langs && r.chance(3, 4) { r.below(3) } else if r.chance(1, 2) { r.below(24) } else { r.below(LANGS.len()) }].0.to_string();
        let pairs = |r: &mut Rng| -> Pairs { picks(r, &live, wide(4)).into_iter().map(|n| (n, value(r, g))).collect() };
        match k {
            18..=24 if g.remove => return Cmd::RmAttr(picks(r, &live, wide(2))),
            25..=28 if g.classification => return Cmd::Class(class(r, g)),
            29..=30 if g.classification && g.remove && m.class.is_some() => return Cmd::RmClass,
            31..=34 if g.flagged => return Cmd::Flagged(picks(r, &live, wide(3))),
            _ if !g.overlays => continue,
            35..=41 => {
                let mut keys: Vec<String> = ["name", "description", "version-x", "custom", "Author", "author", "Custom", "x_1"].iter().map(|s| s.to_string()).collect();
                if r.chance(1, 6) { let k = odd_name(r); if !["d", "type", "language", "capture_base", "lang"].contains(&&k[..]) && !keys.contains(&k) { keys.push(k); } }
                return Cmd::Meta(lang, r.subset(&keys, 3).into_iter().map(|k| (k, value(r, g))).collect());
            }
            42..=49 => return Cmd::Label(lang, pairs(r)),
            50..=55 => return Cmd::Info(lang, pairs(r)),
            56 if r.chance(1, 3) => return Cmd::EncProps(r.subset(&["charset", "x.y", "Note"].map(String::from), 2).into_iter().map(|k| (k, value(r, g))).collect()),
            56..=60 => return Cmd::Simple(Simple::Enc, picks(r, &live, wide(4)).into_iter().map(|n| (n, r.pick(&ENCODINGS).to_string())).collect()),
            61..=64 => return Cmd::Simple(Simple::Format, pairs(r)),
            65..=68 => return Cmd::Simple(Simple::Conformance, pairs(r)),
            69..=72 => return Cmd::Simple(Simple::Cardinality, pairs(r)),
            73..=77 => return Cmd::Simple(Simple::Unit, pairs(r)),
            78..=81 if g.conditions => return Cmd::Simple(Simple::Condition, picks(r, &live, wide(2)).into_iter().map(|n| { let c = condition(r, &live); (n, c) }).collect()),
            82..=86 => return Cmd::EntryCode(picks(r, &live, wide(3)).into_iter().map(|n| { let c = codes(r, g); (n, c) }).collect()),
            87..=91 => return Cmd::Entry(lang, picks(r, &live, wide(3)).into_iter().map(|n| { let c = entries(r, g); (n, c) }).collect()),
            92..=95 if g.links && (!g.saids.is_empty() || !g.refnames.is_empty()) => {
                let t = if !g.refnames.is_empty() && (g.saids.is_empty() || r.chance(1, 2)) { Target::Name(r.pick(&g.refnames).clone()) } else { Target::Said(r.pick(&g.saids).clone()) };
                return Cmd::Link(t, pairs(r));
            }
            96..=99 if g.framing => return framing(r, g, &live),
            _ => continue,
        }
    }
}
pub fn class(r: &mut Rng, g: &GenCfg) -> String {
    let v = match r.below(4) {
        0 => "GICS:35102020".to_string(),
        1 => format!("class-{}", r.below(5)),
        _ => {
            if g.quoted_class {
                let v = value(r, g);
                let q = if can_quote(&v, '"') { '"' } else { '\'' };
                return format!("{q}{v}{q}");
            }
            "RQ/x.y_z".to_string()
        }
    };
    v
}
fn uniq(r: &mut Rng, g: &GenCfg, n: usize) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for _ in 0..n { let x = if r.chance(1, 2) { format!("o{}", r.below(9.max(2 * g.many))) } else { value(r, g) }; if !v.contains(&x) { v.push(x); } }
    v
}
/// A list may say the same code more than once.
fn again(r: &mut Rng, mut l: Vec<String>) -> Vec<String> {
    if !l.is_empty() && r.chance(1, 8) { let x = r.pick(&l).clone(); let p = r.below(l.len() + 1); l.insert(p, x); }
    l
}
pub fn codes(r: &mut Rng, g: &GenCfg) -> Ec {
    match r.below(5) {
        0 => Ec::Said(if r.chance(1, 2) { "entry_code_said".into() } else { value(r, g) }),
        1 => { let n = r.below(4.max(g.many / 2)); let ks = uniq(r, g, n); Ec::Groups(ks.into_iter().map(|k| { let n = r.below(4.max(g.many / 6)); let l = uniq(r, g, n); let l = again(r, l); (k, l) }).collect()) }
        _ => { let n = r.below(g.many); let l = uniq(r, g, n); Ec::List(again(r, l)) }
    }
}
pub fn entries(r: &mut Rng, g: &GenCfg) -> En {
    if r.chance(1, 5) {
        En::Said(if r.chance(1, 2) { format!("refs:{}", fake_saids()[0]) } else { value(r, g) })
    } else {
        let n = r.below(g.many);
        let ks = uniq(r, g, n);
        En::Map(ks.into_iter().map(|k| { let v = value(r, g); (k, v) }).collect())
    }
}
pub fn framing(r: &mut Rng, g: &GenCfg, live: &[String]) -> Cmd {
    let mut meta: Pairs = vec![("id".into(), if r.chance(1, 8) { value(r, g) } else { r.pick(&["snomed", "loinc", "frame-1", "f 2", "SNOMED", "Loinc"]).to_string() })];
    for k in ["label", "location", "version"] { if r.chance(1, 2) { let v = if r.chance(1, 3) { value(r, g) } else { format!("{k}{}", r.below(3)) }; meta.push((k.into(), v)); } }
    if r.chance(1, 3) { r.shuffle(&mut meta); }
    let urls: Vec<String> = ["http://purl.bioontology.org/x", "https://loinc.org/1", "urn:a", "u", "http://x/?a=1&b=2"].iter().map(|s| s.to_string()).collect();
    let attrs = picks(r, live, 3).into_iter().map(|n| {
        let mut us = r.subset(&urls, 2);
        // any text may be a term; the parser makes its letters small (a known finding of C01)
        if r.chance(1, 4) { let v = value(r, g); if v == v.to_lowercase() && !us.contains(&v) { us.push(v); } }
        (n, us.into_iter().map(|u| { let a = if r.chance(1, 2) { "skos:exactMatch".into() } else { value(r, g) }; let b = if r.chance(1, 2) { "semapv:ManualMappingCuration".into() } else { value(r, g) }; (u, a, b) }).collect())
    }).collect();
    Cmd::Framing(meta, attrs)
}

/// A valid list of instructions continuing `m`.
pub fn cmds_from(r: &mut Rng, g: &GenCfg, m: &mut Model) -> Vec<Cmd> {
    let mut own = if g.scale > 0 && r.chance(g.scale, 1000) { large(r, g) } else { g.clone() };
    if r.chance(1, 6) { for _ in 0..r.range(1, 4) { let n = odd_name(r); if !own.names.contains(&n) { own.names.push(n); } } }
    let g = &own;
    let n = r.range(g.min_cmds.min(g.max_cmds), g.max_cmds);
    let mut out = vec![];
    for _ in 0..n {
        let c = cmd(r, g, m);
        if resolved_apply(m, &c).is_ok() { out.push(c); }
    }
    out
}
/// Applies an instruction that may hold names (the name is kept as a pseudo identifier).
pub fn resolved_apply(m: &mut Model, c: &Cmd) -> Result<(), Reject> {
    match c {
        Cmd::Link(Target::Name(n), p) => m.apply(&Cmd::Link(Target::Said(format!("name:{n}")), p.clone())),
        c => m.apply(c),
    }
}
pub fn cmds(r: &mut Rng, g: &GenCfg) -> Vec<Cmd> {
    let mut m = Model::default();
    let mut v = cmds_from(r, g, &mut m);
    if v.is_empty() { v.push(Cmd::AddAttr(vec![("a".into(), Ty::base("Text"))])); }
    v
}
/// Replaces names by identifiers.
pub fn resolve(c: &Cmd, names: &BTreeMap<String, String>) -> Option<Cmd> {
    let f = |n: &str| names.get(n).cloned();
    Some(match c {
        Cmd::AddAttr(v) => Cmd::AddAttr(v.iter().map(|(n, t)| Some((n.clone(), t.resolve(&f)?))).collect::<Option<Vec<_>>>()?),
        Cmd::Link(Target::Name(n), p) => Cmd::Link(Target::Said(f(n)?), p.clone()),
        c => c.clone(),
    })
}
pub fn file_meta(r: &mut Rng) -> Vec<(String, String)> {
    let mut v = vec![];
    if r.chance(1, 3) { v.push(("version".to_string(), r.pick(&["0.0.1", "1", "\"2 3\"", "1.0.0"]).to_string())); }
    if r.chance(1, 3) { v.push(("name".to_string(), r.pick(&["Objekt", "person", "\"two words\"", "x-1", "żaba"]).to_string())); }
    if r.chance(1, 6) { v.push(("precompiler".to_string(), "semantics".to_string())); }
    v
}
