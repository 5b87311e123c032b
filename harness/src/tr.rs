//! Transformation files: generator, rendering and reading back.
use crate::gen;
use crate::model::Pairs;
use crate::rng::Rng;
use oca_ast_transformation::ast::{self, TransformationAST};

#[derive(Clone, Debug, PartialEq)]
pub struct Tr { pub rename: bool, pub pairs: Pairs }
#[derive(Clone, Debug, PartialEq)]
pub struct TrFile { pub meta: Pairs, pub cmds: Vec<Tr> }

pub const KEYS: [&str; 16] = ["a", "b", "surname", "last_name", "first-name", "d", "0", "Z9", "documentNumber", "x-1", "_", "-", "e-2", "attribute", "RENAME", "a-b_c"];
pub fn file(r: &mut Rng, front: bool) -> TrFile {
    let key = |r: &mut Rng| if r.chance(1, 8) { (0..r.range(1, 12)).map(|_| *r.pick(&['a', 'Z', '0', '_', '-', 'k'])).collect::<String>() } else { r.pick(&KEYS).to_string() };
    let mut cmds = vec![];
    for _ in 0..r.below(7) {
        let mut pairs: Pairs = vec![];
        // one instruction may name an attribute twice: what it says last counts
        let twice = r.chance(1, 4);
        for _ in 0..r.range(1, 4) { let k = key(r); if twice || !pairs.iter().any(|p| p.0 == k) { let v = key(r); pairs.push((k, v)); } }
        cmds.push(Tr { rename: r.chance(1, 2), pairs });
    }
    let mut meta: Pairs = vec![];
    let s = gen::fake_saids();
    let id = |r: &mut Rng| match r.below(4) { 0 => r.pick(&s).clone(), 1 => "plain-name".into(), _ => format!("refs:{}", r.pick(&s)) };
    if front || r.chance(2, 3) {
        if front { meta.push(("precompiler".into(), "transformation".into())); }
        meta.push(("source".into(), id(r)));
        meta.push(("target".into(), id(r)));
        if r.chance(1, 2) { meta.push(("name".into(), r.pick(&["Objekt", "\"two words\"", "żaba", "x-1"]).to_string())); }
        if r.chance(1, 2) { meta.push(("version".into(), r.pick(&["0.0.1", "1", "'2 3'"]).to_string())); }
        r.shuffle(&mut meta);
    }
    TrFile { meta, cmds }
}
pub fn render(f: &TrFile, rng: Option<&mut Rng>) -> String { render_lines(f, rng).0 }
/// Also the line each instruction starts on, and its text.
pub fn render_lines(f: &TrFile, rng: Option<&mut Rng>) -> (String, Vec<(usize, String)>) {
    let mut lines = vec![];
    let mut none = Rng::from_parts(&[0]);
    let (wild, r) = match rng { Some(r) => (true, r), None => (false, &mut none) };
    let kw = |r: &mut Rng, s: &str| if wild && r.chance(1, 2) { s.chars().map(|c| if r.chance(1, 2) { c.to_ascii_lowercase() } else { c }).collect() } else { s.to_string() };
    let ws = |r: &mut Rng| if wild && r.chance(1, 20) { if r.chance(1, 2) { crate::render::wide_comment(r) } else { " ".repeat(r.range(20, 300)) } } else if wild { r.pick(&[" ", " ", "  ", "\t", " \\\n", " \\\n   ", "\\\n\t", " \\ \n# note -- name=q\n ", " \\\n\n  \n "]).to_string() } else { " ".into() };
    let noise = |r: &mut Rng| { let mut s = String::new(); while wild && r.chance(1, 3) { s.push_str(r.pick(&["\n", "  \n", "# comment RENAME ATTRIBUTE q=w\n", "\t# x\n", "#\n", "\r\n"])); } s };
    let mut t = String::new();
    let mut at: Vec<(usize, &(String, String))> = f.meta.iter().map(|m| (if wild && r.chance(1, 3) { r.range(0, f.cmds.len()) } else { 0 }, m)).collect();
    at.sort_by_key(|x| x.0);
    for i in 0..=f.cmds.len() {
        for (_, m) in at.iter().filter(|x| x.0 == i) {
            t.push_str(&noise(r));
            let e = if wild { r.pick(&["=", " = ", "= "]) } else { "=" };
            t.push_str(&format!("--{}{}{e}{}\n", if wild { r.pick(&["", " ", "\t"]) } else { " " }, m.0, m.1));
        }
        t.push_str(&noise(r));
        let Some(c) = f.cmds.get(i) else { continue };
        let from = t.len();
        t.push_str(&kw(r, if c.rename { "RENAME" } else { "LINK" }));
        t.push_str(&ws(r));
        t.push_str(&kw(r, "ATTRIBUTE"));
        for (k, v) in &c.pairs {
            t.push_str(&ws(r));
            let op = if c.rename { "=" } else { "->" };
            let (a, b) = if wild { (if r.chance(1, 2) { ws(r) } else { String::new() }, if r.chance(1, 2) { ws(r) } else { String::new() }) } else if c.rename || r.chance(1, 2) { (String::new(), String::new()) } else { (" ".into(), " ".into()) };
            t.push_str(&format!("{k}{a}{op}{b}{v}"));
        }
        lines.push((t[..from].matches('\n').count() + 1, t[from..].to_string()));
        t.push_str(if wild { r.pick(&["\n", "\n", "\n\n", "\r\n", " \n", "\t# end\n"]) } else { "\n" });
    }
    if wild && r.chance(1, 4) && t.ends_with('\n') && !t.ends_with("\r\n") { t.pop(); }
    (t, lines)
}
pub fn decode(a: &TransformationAST) -> Result<TrFile, String> {
    let mut meta: Pairs = a.meta.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    meta.sort();
    let cmds = a.commands.iter().map(|c| match (&c.kind, &c.object_kind) {
        (ast::CommandType::Rename, ast::ObjectKind::Rename(x)) => Ok(Tr { rename: true, pairs: x.attributes.iter().flatten().map(|(k, v)| (k.clone(), v.clone())).collect() }),
        (ast::CommandType::Link, ast::ObjectKind::Link(x)) => Ok(Tr { rename: false, pairs: x.attributes.iter().flatten().map(|(k, v)| (k.clone(), v.clone())).collect() }),
        o => Err(format!("{o:?}")),
    }).collect::<Result<_, String>>()?;
    Ok(TrFile { meta, cmds })
}
impl TrFile {
    /// as read: each name once, at its first place, with its last value
    pub fn read(&self) -> TrFile {
        let mut meta = self.meta.clone();
        meta.sort();
        let cmds = self.cmds.iter().map(|c| Tr { rename: c.rename, pairs: TrFile { meta: vec![], cmds: vec![c.clone()] }.pairs() }).collect();
        TrFile { meta, cmds }
    }
    pub fn pairs(&self) -> Pairs {
        let mut out: Pairs = vec![];
        for c in &self.cmds { for (k, v) in &c.pairs { match out.iter_mut().find(|p| p.0 == *k) { Some(p) => p.1 = v.clone(), None => out.push((k.clone(), v.clone())) } } }
        out
    }
    pub fn get(&self, k: &str) -> Option<String> { self.meta.iter().find(|m| m.0 == k).map(|m| m.1.replace("refs:", "")) }
}
