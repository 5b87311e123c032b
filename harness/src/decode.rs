//! Reads the real instruction lists back into the reference form.
use crate::model::*;
use indexmap::IndexMap;
use oca_ast_semantics::ast::{self, Command, CommandType, NestedAttrType, NestedValue, OCAAst, ObjectKind, OverlayType, RefValue};

pub fn ty(t: &NestedAttrType) -> Result<Ty, String> {
    Ok(match t {
        NestedAttrType::Reference(RefValue::Said(s)) => Ty::Said(s.to_string()),
        NestedAttrType::Reference(RefValue::Name(s)) => Ty::Name(s.clone()),
        NestedAttrType::Value(v) => Ty::Base(v.to_string()),
        NestedAttrType::Array(a) => Ty::Arr(Box::new(ty(a)?)),
        NestedAttrType::Null => return Err("null type".into()),
    })
}
type Map = IndexMap<String, NestedValue>;
fn s(v: &NestedValue) -> Result<String, String> { match v { NestedValue::Value(s) => Ok(s.clone()), o => Err(format!("expected text, got {o:?}")) } }
fn pairs(m: &Option<Map>) -> Result<Pairs, String> { m.iter().flatten().map(|(k, v)| Ok((k.clone(), s(v)?))).collect() }
fn none(m: &Option<Map>, what: &str) -> Result<(), String> { if m.iter().flatten().next().is_some() { Err(format!("unexpected {what}: {m:?}")) } else { Ok(()) } }
fn lang(m: &Option<Map>) -> Result<(String, Option<Map>), String> {
    let mut m = m.clone().ok_or("no properties")?;
    let l = m.shift_remove("lang").ok_or("no language")?;
    Ok((s(&l)?, Some(m)))
}
pub fn cmd(c: &Command) -> Result<Cmd, String> {
    Ok(match (&c.kind, &c.object_kind) {
        (CommandType::From, ObjectKind::OCABundle(b)) => match &b.said { ast::ReferenceAttrType::Reference(RefValue::Said(s)) => Cmd::From(s.to_string()), o => return Err(format!("FROM {o:?}")) },
        (CommandType::Add, ObjectKind::CaptureBase(b)) => {
            let n = b.attributes.is_some() as u8 + b.properties.is_some() as u8 + b.flagged_attributes.is_some() as u8;
            if n != 1 { return Err(format!("instruction with {n} parts: {b:?}")); }
            if let Some(a) = &b.attributes { Cmd::AddAttr(a.iter().map(|(k, t)| Ok((k.clone(), ty(t)?))).collect::<Result<_, String>>()?) }
            else if let Some(f) = &b.flagged_attributes { Cmd::Flagged(f.clone()) }
            else {
                let p = pairs(&b.properties)?;
                if p.len() != 1 || p[0].0 != "classification" { return Err(format!("capture base properties {p:?}")); }
                Cmd::Class(p[0].1.clone())
            }
        }
        (CommandType::Remove, ObjectKind::CaptureBase(b)) => match (&b.attributes, &b.properties) {
            (Some(a), None) => { if let Some(x) = a.values().find(|t| **t != NestedAttrType::Null) { return Err(format!("removal with type {x:?}")); } Cmd::RmAttr(a.keys().cloned().collect()) }
            (None, Some(p)) if p.len() == 1 && p.contains_key("classification") => Cmd::RmClass,
            o => return Err(format!("removal of {o:?}")),
        },
        (CommandType::Add, ObjectKind::Overlay(t, c)) => match t {
            OverlayType::Meta(_) => { let (l, p) = lang(&c.properties)?; none(&c.attributes, "attributes")?; Cmd::Meta(l, pairs(&p)?) }
            OverlayType::Label(_) => { let (l, p) = lang(&c.properties)?; none(&p, "properties")?; Cmd::Label(l, pairs(&c.attributes)?) }
            OverlayType::Information(_) => { let (l, p) = lang(&c.properties)?; none(&p, "properties")?; Cmd::Info(l, pairs(&c.attributes)?) }
            OverlayType::CharacterEncoding(_) if c.attributes.as_ref().map_or(true, |a| a.is_empty()) && c.properties.as_ref().is_some_and(|p| !p.is_empty()) => Cmd::EncProps(pairs(&c.properties)?),
            OverlayType::CharacterEncoding(_) => { none(&c.properties, "properties")?; Cmd::Simple(Simple::Enc, pairs(&c.attributes)?) }
            OverlayType::Format(_) => { none(&c.properties, "properties")?; Cmd::Simple(Simple::Format, pairs(&c.attributes)?) }
            OverlayType::Conformance(_) => { none(&c.properties, "properties")?; Cmd::Simple(Simple::Conformance, pairs(&c.attributes)?) }
            OverlayType::Cardinality(_) => { none(&c.properties, "properties")?; Cmd::Simple(Simple::Cardinality, pairs(&c.attributes)?) }
            OverlayType::Unit(_) => { none(&c.properties, "properties")?; Cmd::Simple(Simple::Unit, pairs(&c.attributes)?) }
            OverlayType::Conditional(_) => { none(&c.properties, "properties")?; Cmd::Simple(Simple::Condition, pairs(&c.attributes)?) }
            OverlayType::EntryCode(_) => {
                none(&c.properties, "properties")?;
                let list = |a: &Vec<NestedValue>| a.iter().map(s).collect::<Result<Vec<_>, _>>();
                Cmd::EntryCode(c.attributes.iter().flatten().map(|(k, v)| Ok((k.clone(), match v {
                    NestedValue::Value(v) => Ec::Said(v.clone()),
                    NestedValue::Array(a) => Ec::List(list(a)?),
                    NestedValue::Object(o) => Ec::Groups(o.iter().map(|(k, v)| match v { NestedValue::Array(a) => Ok((k.clone(), list(a)?)), o => Err(format!("group {o:?}")) }).collect::<Result<_, String>>()?),
                    o => return Err(format!("entry code {o:?}")),
                }))).collect::<Result<_, String>>()?)
            }
            OverlayType::Entry(_) => {
                let (l, p) = lang(&c.properties)?;
                none(&p, "properties")?;
                Cmd::Entry(l, c.attributes.iter().flatten().map(|(k, v)| Ok((k.clone(), match v {
                    NestedValue::Value(v) => En::Said(v.clone()),
                    NestedValue::Object(o) => En::Map(o.iter().map(|(k, v)| Ok((k.clone(), s(v)?))).collect::<Result<_, String>>()?),
                    o => return Err(format!("entry {o:?}")),
                }))).collect::<Result<_, String>>()?)
            }
            OverlayType::Link(_) => {
                let p = c.properties.as_ref().ok_or("no link target")?;
                if p.len() != 1 { return Err(format!("link properties {p:?}")); }
                let t = match p.get("target") { Some(NestedValue::Reference(RefValue::Said(s))) => Target::Said(s.to_string()), Some(NestedValue::Reference(RefValue::Name(s))) => Target::Name(s.clone()), o => return Err(format!("link target {o:?}")) };
                Cmd::Link(t, pairs(&c.attributes)?)
            }
            OverlayType::AttributeFraming(_) => {
                let f = |o: &Map| -> Result<Frames, String> {
                    o.iter().map(|(u, v)| match v {
                        NestedValue::Object(x) => {
                            if x.len() != 2 { return Err(format!("frame {x:?}")); }
                            let g = |k: &str| x.get(k).ok_or(format!("no {k}")).and_then(s);
                            Ok((u.clone(), g("predicate_id")?, g("framing_justification")?))
                        }
                        o => Err(format!("frame {o:?}")),
                    }).collect()
                };
                Cmd::Framing(pairs(&c.properties)?, c.attributes.iter().flatten().map(|(k, v)| match v { NestedValue::Object(o) => Ok((k.clone(), f(o)?)), o => Err(format!("framing {o:?}")) }).collect::<Result<_, String>>()?)
            }
            o => return Err(format!("overlay {o:?}")),
        },
        o => return Err(format!("instruction {o:?}")),
    })
}
pub fn ast(a: &OCAAst) -> Result<File, String> {
    let mut meta: Vec<(String, String)> = a.meta.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    meta.sort();
    let cmds = a.commands.iter().enumerate().map(|(i, c)| cmd(c).map_err(|e| format!("instruction {}: {e}", i + 1))).collect::<Result<_, _>>()?;
    Ok(File { meta, cmds })
}
