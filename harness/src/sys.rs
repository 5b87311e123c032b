//! Access to the real system: every call guarded, results in plain form.
use crate::run::{guard, viol, Stop};
use crate::store::Spy;
use oca_ast_semantics::ast::OCAAst;
use oca_bundle_semantics::build::OCABuild;
use oca_bundle_semantics::state::oca::OCABundle;
use oca_rs::facade::build::{Error, ValidationError};
use oca_rs::repositories::SQLiteConfig;
use oca_rs::{EncodeBundle as _, Facade, HashFunctionCode, SerializationFormats};
use said::SelfAddressingIdentifier;

pub struct Sys { pub f: Facade, pub db: Spy, pub cache: Spy }
impl Sys {
    pub fn new() -> Sys { Sys::on(Spy::make(), Spy::make()) }
    pub fn on(db: Spy, cache: Spy) -> Sys {
        let cfg = SQLiteConfig::build().finalize().unwrap_or(SQLiteConfig { path: None });
        Sys { f: Facade::new(Box::new(db.clone()), Box::new(cache.clone()), cfg), db, cache }
    }
    pub fn build(&mut self, text: &str) -> Result<Result<OCABundle, Error>, Stop> { guard("building", || self.f.build_from_ocafile(text.to_string())) }
    pub fn must_build(&mut self, text: &str) -> Result<(OCABundle, String), Stop> {
        match self.build(text)? {
            Ok(b) => { let t = encode(&b)?; Ok((b, t)) }
            Err(e) => viol("correct file rejected", format!("{}\n--- file\n{text}", show_err(&e))),
        }
    }
    pub fn ast(&self, text: &str) -> Result<Result<OCAAst, String>, Stop> { parse(text) }
}
pub fn parse(text: &str) -> Result<Result<OCAAst, String>, Stop> {
    guard("parsing", || match oca_file::ocafile::parse_from_string(text.to_string()) {
        Ok(oca_file::ocafile::OCAAst::SemanticsAst(a)) => Ok(a),
        Ok(oca_file::ocafile::OCAAst::TransformationAst(_)) => Err("taken for a transformation".to_string()),
        Err(e) => Err(format!("{e:?}")),
    })
}
pub fn build_ast(base: Option<OCABundle>, a: &OCAAst) -> Result<Result<OCABuild, Vec<oca_bundle_semantics::build::Error>>, Stop> {
    guard("building from instructions", || oca_bundle_semantics::build::from_ast(base, a))
}
pub fn encode(b: &OCABundle) -> Result<String, Stop> {
    match guard("encoding", || b.encode(&HashFunctionCode::Blake3_256, &SerializationFormats::JSON).map_err(|e| e.to_string()))? {
        Ok(v) => match String::from_utf8(v) { Ok(s) => Ok(s), Err(e) => viol("encoding is not text", e.to_string()) },
        Err(e) => viol("encoding fails", e),
    }
}
pub fn load(text: &str) -> Result<Result<OCABundle, String>, Stop> {
    guard("loading a bundle", || oca_bundle_semantics::controller::load_oca(&mut text.as_bytes()).map_err(|e| e.to_string()))
}
pub fn said(s: &str) -> Result<SelfAddressingIdentifier, Stop> { match s.parse() { Ok(s) => Ok(s), Err(_) => viol("not an identifier", s.to_string()) } }
pub fn id_of(b: &OCABundle) -> Result<String, Stop> { match &b.said { Some(s) => Ok(s.to_string()), None => viol("bundle without identifier", "") } }
pub fn show_err(e: &Error) -> String { match e { Error::ValidationError(v) => format!("{v:?}"), o => format!("{o:?}") } }
pub fn errors(e: &Error) -> Vec<String> { match e { Error::ValidationError(v) => v.iter().map(show_val).collect(), o => vec![format!("{o}")] } }
pub fn show_val(e: &ValidationError) -> String { format!("{e:?}") }

/// The facade's questions, guarded.
impl Sys {
    pub fn get(&self, id: &str, dep: bool) -> Result<Result<(String, Vec<String>), Vec<String>>, Stop> {
        let s = said(id)?;
        match guard("fetching a bundle", || self.f.get_oca_bundle(s, dep))? {
            Ok(b) => { let t = encode(&b.bundle)?; let d = b.dependencies.iter().map(encode).collect::<Result<Vec<_>, _>>()?; Ok(Ok((t, d))) }
            Err(e) => Ok(Err(e)),
        }
    }
    pub fn steps(&self, id: &str) -> Result<Result<Vec<oca_bundle_semantics::build::OCABuildStep>, Vec<String>>, Stop> {
        let s = said(id)?;
        // a chain without an end shows as reads without an end
        self.db.with(|i| i.read_budget = Some(i.reads + 5000));
        let r = guard("reading a history", || self.f.get_oca_bundle_steps(s));
        self.db.with(|i| i.read_budget = None);
        match r? {
            Err(e) if e.iter().any(|e| e.contains(crate::store::BUDGET)) => viol("endless history", format!("{id}: more than 5000 reads")),
            r => Ok(r),
        }
    }
    pub fn ocafile(&self, id: &str, deref: bool) -> Result<Result<String, Vec<String>>, Stop> { let s = said(id)?; guard("reconstructing the OCAFile", || self.f.get_oca_bundle_ocafile(s, deref)) }
    pub fn ast_of(&self, id: &str) -> Result<Result<OCAAst, Vec<String>>, Stop> { let s = said(id)?; guard("reconstructing the instructions", || self.f.get_oca_bundle_ast(s)) }
    pub fn object(&self, id: &str) -> Result<Result<(bool, String), Vec<String>>, Stop> {
        let r = guard("fetching an object", || self.f.get_oca_objects(vec![id.to_string()]).map(|v| v.iter().map(|o| serde_json::to_string(o).map(|t| (format!("{o:?}").starts_with("CaptureBase"), t)).unwrap_or_default()).collect::<Vec<_>>()))?;
        match r { Ok(v) if v.len() == 1 => Ok(Ok(v[0].clone())), Ok(v) => viol("number of objects fetched", format!("asked for 1, got {}", v.len())), Err(e) => Ok(Err(e)) }
    }
    /// kind of the object and its relations as (identifier, kind), sorted
    pub fn explore(&self, id: &str) -> Result<Option<(String, String, Vec<(String, String)>)>, Stop> {
        guard("exploring", || self.f.explore(id.to_string()).map(|r| {
            let mut v: Vec<(String, String)> = r.relations.iter().map(|o| (o.said.clone(), kind_of(&o.object_type))).collect();
            v.sort();
            (r.base_object.said.clone(), kind_of(&r.base_object.object_type), v)
        }))
    }
    pub fn list(&self, limit: usize, page: usize) -> Result<(Vec<String>, usize, usize), Stop> {
        match guard("listing bundles", || self.f.fetch_all_oca_bundle(limit, page))? {
            Ok(r) => Ok((r.records.iter().map(encode).collect::<Result<Vec<_>, _>>()?, r.metadata.total, r.metadata.page)),
            Err(e) => viol("listing bundles fails", format!("{e:?}")),
        }
    }
    pub fn list_cb(&self, limit: usize, page: usize) -> Result<(Vec<String>, usize, usize), Stop> {
        match guard("listing capture bases", || self.f.fetch_all_capture_base(limit, page))? {
            Ok(r) => Ok((r.records.iter().map(|c| serde_json::to_string(c).unwrap_or_default()).collect(), r.metadata.total, r.metadata.page)),
            Err(e) => viol("listing capture bases fails", format!("{e:?}")),
        }
    }
    /// identifiers and encoded bundles found, total, page
    pub fn search(&self, lang: Option<&str>, q: &str, limit: usize, page: usize) -> Result<(Vec<(String, String)>, usize, usize), Stop> {
        let l = lang.and_then(isolang::Language::from_639_1);
        let r = guard("searching", || self.f.search_oca_bundle(l, q.to_string(), limit, page))?;
        Ok((r.records.iter().map(|x| Ok((id_of(&x.oca_bundle)?, encode(&x.oca_bundle)?))).collect::<Result<Vec<_>, Stop>>()?, r.metadata.total, r.metadata.page))
    }
    pub fn refs(&self) -> Result<std::collections::BTreeMap<String, String>, Stop> {
        match guard("listing names", || self.f.fetch_all_refs())? { Ok(m) => Ok(m.into_iter().collect()), Err(e) => viol("listing names fails", e) }
    }
    pub fn to_ocafile(&self, b: &OCABundle) -> Result<String, Stop> {
        match guard("turning a bundle into an OCAFile", || self.f.parse_oca_bundle_to_ocafile(b))? { Ok(t) => Ok(t), Err(e) => viol("turning a bundle into an OCAFile fails", format!("{e:?}")) }
    }
}
pub fn kind_of(k: &oca_ast_semantics::ast::ObjectKind) -> String {
    use oca_ast_semantics::ast::ObjectKind::*;
    match k {
        CaptureBase(_) => "capture base".into(),
        OCABundle(_) => "bundle".into(),
        Overlay(t, _) => serde_json::to_value(t).ok().and_then(|v| v.as_str().map(|s| s.to_string())).unwrap_or_default(),
    }
}
