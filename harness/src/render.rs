//! Writes instructions as OCAFile text, canonically or with a random layout.
use crate::gen::{bare_ok, can_quote};
use crate::model::*;
use crate::rng::Rng;

pub struct Rendered {
    pub text: String,
    /// line (1-based) on which each instruction starts, and its own text
    pub lines: Vec<(usize, String)>,
}
/// `None`: canonical layout.
pub struct L<'a>(pub Option<&'a mut Rng>);
impl L<'_> {
    fn kw(&mut self, s: &str) -> String {
        match &mut self.0 {
            None => s.to_string(),
            Some(r) => match r.below(4) {
                0 => s.to_lowercase(),
                1 => s.chars().map(|c| if r.chance(1, 2) { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect(),
                _ => s.to_string(),
            },
        }
    }
    /// white space between arguments (at least one character)
    fn ws(&mut self) -> String {
        match &mut self.0 {
            None => " ".into(),
            Some(r) => match { let n = if r.chance(1, 6) { 14 } else { 12 }; r.below(n) } {
                12 => wide_comment(r),
                13 => " ".repeat(r.range(20, 300)),
                0 => "  ".into(),
                1 => "\t".into(),
                2 => " \\\n".into(),
                3 => " \\\n    ".into(),
                4 => "\\\n\t".into(),
                5 => " \\  \n# a comment -- name=zzz 'x\n  ".into(),
                6 => " \\\n\n   \n ".into(),
                7 => "\\\n # c1\n# c2\n".into(),
                _ => " ".into(),
            },
        }
    }
    /// optional white space
    fn ows(&mut self) -> String {
        match &mut self.0 { None => String::new(), Some(r) => if r.chance(3, 4) { String::new() } else { self.ws() } }
    }
    fn sp(&mut self) -> String {
        match &mut self.0 { None => String::new(), Some(r) => " ".repeat(if r.chance(2, 3) { 0 } else { r.below(4) }) }
    }
    fn quote(&mut self, v: &str) -> String {
        let (d, s) = (can_quote(v, '"'), can_quote(v, '\''));
        let dq = match (&mut self.0, d, s) { (None, d, _) => d, (Some(r), true, true) => r.chance(1, 2), (_, d, _) => d };
        if dq { format!("\"{v}\"") } else { format!("'{v}'") }
    }
    fn val(&mut self, v: &str) -> String {
        if bare_ok(v) {
            let bare = match &mut self.0 { None => false, Some(r) => r.chance(1, 3) };
            if bare { return v.to_string(); }
        }
        self.quote(v)
    }
    fn eq(&mut self) -> String { format!("{}={}", self.ows(), self.ows()) }
    /// now and then a name is said twice in one instruction: what is said last counts
    fn twice(&mut self) -> bool { match &mut self.0 { None => false, Some(r) => r.chance(1, 40) } }
    fn pairs(&mut self, p: &Pairs) -> String {
        let mut s = String::new();
        for (i, (k, v)) in p.iter().enumerate() {
            if i > 0 { s.push_str(&self.ws()); }
            if self.twice() { let o = if i > 0 { p[i - 1].1.clone() } else { "earlier".into() }; s.push_str(&format!("{k}{}{}{}", self.eq(), self.val(&o), self.ws())); }
            s.push_str(k);
            s.push_str(&self.eq());
            s.push_str(&self.val(v));
        }
        s
    }
    fn list(&mut self, l: &[String]) -> String {
        let mut s = String::from("[");
        for (i, v) in l.iter().enumerate() {
            if i > 0 { s.push(','); s.push_str(&self.sp()); }
            s.push_str(&self.quote(v));
        }
        s.push(']');
        s
    }
    fn ty(&mut self, t: &Ty) -> String {
        match t {
            Ty::Base(b) => b.clone(),
            Ty::Said(s) => format!("{}{s}", self.kw("refs:").replace("REFS:", "refs:")),
            Ty::Name(s) => format!("refn:{s}"),
            Ty::Arr(t) => { let (a, b) = (self.ows(), self.ows()); let inner = self.ty(t); format!("Array[{a}{inner}{b}]") }
        }
    }
    pub fn cmd(&mut self, c: &Cmd) -> String {
        let mut s = String::new();
        if let Cmd::From(x) = c { return format!("{} {x}", self.kw("FROM")); }
        let verb = match c { Cmd::RmAttr(_) | Cmd::RmClass => "REMOVE", _ => "ADD" };
        s.push_str(&self.kw(verb));
        s.push_str(&self.ws());
        match c {
            Cmd::From(_) => {}
            Cmd::AddAttr(v) => {
                s.push_str(&self.kw("ATTRIBUTE"));
                for (n, t) in v {
                    if self.twice() { s.push_str(&format!("{}{n}{}Binary", self.ws(), self.eq())); }
                    s.push_str(&self.ws()); s.push_str(n); s.push_str(&self.eq()); s.push_str(&self.ty(t));
                }
            }
            Cmd::Class(v) => { s.push_str(&self.kw("CLASSIFICATION")); s.push_str(&self.ws()); s.push_str(v); }
            Cmd::Flagged(v) => {
                s.push_str(&self.kw("FLAGGED_ATTRIBUTES"));
                for n in v { s.push_str(&self.ws()); s.push_str(n); }
            }
            Cmd::Meta(l, p) => { s.push_str(&self.kw("META")); s.push_str(&self.ws()); s.push_str(l); s.push_str(&self.ws()); s.push_str(&self.kw("PROPS")); s.push_str(&self.ws()); s.push_str(&self.pairs(p)); }
            Cmd::Label(l, p) | Cmd::Info(l, p) => {
                s.push_str(&self.kw(if matches!(c, Cmd::Label(..)) { "LABEL" } else { "INFORMATION" }));
                s.push_str(&self.ws()); s.push_str(l); s.push_str(&self.ws()); s.push_str(&self.kw("ATTRS")); s.push_str(&self.ws()); s.push_str(&self.pairs(p));
            }
            Cmd::Simple(k, p) => {
                s.push_str(&self.kw(match k { Simple::Enc => "CHARACTER_ENCODING", Simple::Format => "FORMAT", Simple::Conformance => "CONFORMANCE", Simple::Cardinality => "CARDINALITY", Simple::Unit => "UNIT", Simple::Condition => "CONDITION" }));
                s.push_str(&self.ws()); s.push_str(&self.kw("ATTRS")); s.push_str(&self.ws()); s.push_str(&self.pairs(p));
            }
            Cmd::EntryCode(v) => {
                s.push_str(&self.kw("ENTRY_CODE")); s.push_str(&self.ws()); s.push_str(&self.kw("ATTRS"));
                for (n, c) in v {
                    if self.twice() { s.push_str(&format!("{}{n}=[\"earlier\"]", self.ws())); }
                    s.push_str(&self.ws());
                    let t = match c {
                        Ec::Said(x) => self.val(x),
                        Ec::List(l) => self.list(l),
                        Ec::Groups(g) => {
                            let mut o = format!("{{{}", if g.is_empty() { String::new() } else { self.sp() });
                            for (i, (k, l)) in g.iter().enumerate() {
                                if i > 0 { o.push(','); o.push_str(&self.sp()); }
                                if self.twice() { o.push_str(&format!("{}:{},", self.quote(k), self.list(&["earlier".to_string()]))); }
                                o.push_str(&self.quote(k)); o.push(':'); o.push_str(&self.sp()); o.push_str(&self.list(l));
                            }
                            if !g.is_empty() { o.push_str(&self.sp()); }
                            o.push('}');
                            o
                        }
                    };
                    s.push_str(&format!("{n}={t}"));
                }
            }
            Cmd::Entry(l, v) => {
                s.push_str(&self.kw("ENTRY")); s.push_str(&self.ws()); s.push_str(l); s.push_str(&self.ws()); s.push_str(&self.kw("ATTRS"));
                for (n, e) in v {
                    if self.twice() { s.push_str(&format!("{}{n}={{\"o1\": \"earlier\"}}", self.ws())); }
                    s.push_str(&self.ws());
                    let t = match e {
                        En::Said(x) => self.val(x),
                        En::Map(m) => {
                            let mut o = format!("{{{}", if m.is_empty() { String::new() } else { self.sp() });
                            for (i, (k, v)) in m.iter().enumerate() {
                                if i > 0 { o.push(','); o.push_str(&self.sp()); }
                                if self.twice() { o.push_str(&format!("{}:{},", self.quote(k), self.quote("earlier"))); }
                                o.push_str(&self.quote(k)); o.push(':'); o.push_str(&self.sp()); o.push_str(&self.quote(v));
                            }
                            if !m.is_empty() { o.push_str(&self.sp()); }
                            o.push('}');
                            o
                        }
                    };
                    s.push_str(&format!("{n}={t}"));
                }
            }
            Cmd::Link(t, p) => {
                s.push_str(&self.kw("LINK")); s.push_str(&self.ws());
                s.push_str(&match t { Target::Said(x) => format!("refs:{x}"), Target::Name(x) => format!("refn:{x}") });
                s.push_str(&self.ws()); s.push_str(&self.kw("ATTRS")); s.push_str(&self.ws()); s.push_str(&self.pairs(p));
            }
            Cmd::Framing(m, v) => {
                s.push_str(&self.kw("ATTR_FRAMING")); s.push_str(&self.ws()); s.push_str(&self.pairs(m)); s.push_str(&self.ws()); s.push_str(&self.kw("ATTRS"));
                for (n, fs) in v {
                    s.push_str(&self.ws());
                    s.push_str(n);
                    s.push_str(&self.eq());
                    s.push('{');
                    for (i, (u, a, b)) in fs.iter().enumerate() {
                        if i > 0 { s.push(','); }
                        s.push_str(&self.ows());
                        let (q1, q2, q3) = (self.quote(u), self.quote(a), self.quote(b));
                        let (k1, k2) = (self.kw("Predicate_id"), self.kw("Framing_justification"));
                        let (k1, k2) = (self.quote(&k1), self.quote(&k2));
                        let (o1, o2) = (self.ows(), self.ows());
                        s.push_str(&format!("{q1}:{o1}{{{k1}: {q2},{o2}{k2}: {q3}}}"));
                    }
                    s.push_str(&self.ows());
                    s.push('}');
                }
            }
            Cmd::RmAttr(v) => { s.push_str(&self.kw("ATTRIBUTE")); for n in v { s.push_str(&self.ws()); s.push_str(n); } }
            Cmd::EncProps(p) => { s.push_str(&self.kw("CHARACTER_ENCODING")); s.push_str(&self.ws()); s.push_str(&self.kw("PROPS")); s.push_str(&self.ws()); s.push_str(&self.pairs(p)); }
            Cmd::RmClass => s.push_str(&self.kw("CLASSIFICATION")),
        }
        s
    }
    /// noise between instructions: blank lines and comments
    fn noise(&mut self) -> String {
        let r = match &mut self.0 { None => return String::new(), Some(r) => r };
        let mut s = String::new();
        while r.chance(1, 4) {
            if r.chance(1, 10) { s.push_str(wide_comment(r).trim_start_matches([' ', '\\', '\n'])); s.push('\n'); }
            s.push_str(r.pick(&["\n", "   \n", "# comment\n", "  # indented ADD ATTRIBUTE zz=Text\n", "\t\n", "#\n", "# -- name=hidden precompiler=transformation\n", "# 'quote \"\n", "\r\n"]));
        }
        s
    }
}
/// a comment inside an instruction, of characters of several bytes, at any distance from its start
pub fn wide_comment(r: &mut Rng) -> String { format!(" \\\n#{}{}\n ", "a".repeat(r.below(7)), r.pick(&["ż", "漢", "😀", "żółć ", "é漢😀"]).repeat(r.range(1, 120))) }
pub fn file(f: &File, rng: Option<&mut Rng>) -> Rendered {
    let mut l = L(rng);
    let mut text = String::new();
    let mut lines = vec![];
    let put_meta = |l: &mut L, text: &mut String, k: &str, v: &str| {
        let (a, b) = match &mut l.0 { None => (String::from(" "), String::new()), Some(r) => (r.pick(&[" ", "", "  ", "\t"]).to_string(), r.pick(&["", " ", "  "]).to_string()) };
        text.push_str(&format!("--{a}{k}{b}={b}{v}\n"));
    };
    // metadata may stand anywhere between the instructions
    let mut at: Vec<(usize, &(String, String))> = f.meta.iter().map(|m| (match &mut l.0 { None => 0, Some(r) => if r.chance(2, 3) { 0 } else { r.range(0, f.cmds.len()) } }, m)).collect();
    at.sort_by_key(|x| x.0);
    for (i, c) in f.cmds.iter().enumerate() {
        for (_, m) in at.iter().filter(|x| x.0 == i) { text.push_str(&l.noise()); put_meta(&mut l, &mut text, &m.0, &m.1); }
        text.push_str(&l.noise());
        let line = text.matches('\n').count() + 1;
        let s = l.cmd(c);
        text.push_str(&s);
        lines.push((line, s));
        let tail = match &mut l.0 { None => "\n", Some(r) => *r.pick(&["\n", "\n", "\n", "\n", " \n", "\r\n", "\n\n", " # trailing comment\n"]) };
        text.push_str(tail);
    }
    for (_, m) in at.iter().filter(|x| x.0 >= f.cmds.len()) { put_meta(&mut l, &mut text, &m.0, &m.1); }
    text.push_str(&l.noise());
    // the last newline is optional
    if let Some(r) = &mut l.0 {
        if r.chance(1, 4) && text.ends_with('\n') && !text.ends_with("\r\n") && !text.ends_with("\n\n") { text.pop(); }
    }
    Rendered { text, lines }
}
pub fn plain(cmds: &[Cmd]) -> String { file(&File { meta: vec![], cmds: cmds.to_vec() }, None).text }
pub fn plain_file(meta: &[(String, String)], cmds: &[Cmd]) -> String { file(&File { meta: meta.to_vec(), cmds: cmds.to_vec() }, None).text }
