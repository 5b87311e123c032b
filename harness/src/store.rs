//! A storage double handed to the facade: shared, observable, with injected faults and delays.
use oca_rs::data_storage::{DataStorage, Namespace};
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};

pub type Dump = BTreeMap<(String, String), Vec<u8>>;
#[derive(Clone, Debug, PartialEq)]
pub enum Op { Get(String, String, bool), Put(String, String), All(String) }
#[derive(Default)]
pub struct Inner {
    pub map: Dump,
    pub log: Vec<Op>,
    pub reads: u64,
    pub writes: u64,
    /// fail the n-th write from now on (1 = the next); `dead` makes every later write fail too
    pub fail_at: Option<u64>,
    pub dead: bool,
    pub keep_dead: bool,
    /// fail the n-th read; with `keep_dead` every later read and write fails too
    pub fail_read_at: Option<u64>,
    pub deaf: bool,
    /// panic once this many reads were made: a logical bound on endless loops
    pub read_budget: Option<u64>,
    pub overwrites: Vec<(String, String, Vec<u8>, Vec<u8>)>,
}
#[derive(Clone, Default)]
pub struct Spy(pub Arc<Mutex<Inner>>);
pub const BUDGET: &str = "read budget of the storage used up";
impl Spy {
    pub fn make() -> Spy { Spy::default() }
    pub fn with<T>(&self, f: impl FnOnce(&mut Inner) -> T) -> T { let mut g = match self.0.lock() { Ok(g) => g, Err(e) => e.into_inner() }; f(&mut g) }
    pub fn dump(&self) -> Dump { self.with(|i| i.map.clone()) }
    pub fn keys(&self, ns: &str) -> Vec<String> { self.with(|i| i.map.keys().filter(|k| k.0 == ns).map(|k| k.1.clone()).collect()) }
    pub fn value(&self, ns: &str, k: &str) -> Option<Vec<u8>> { self.with(|i| i.map.get(&(ns.to_string(), k.to_string())).cloned()) }
}
impl DataStorage for Spy {
    fn get(&self, ns: Namespace, key: &str) -> Result<Option<Vec<u8>>, String> {
        self.with(|i| {
            i.reads += 1;
            if let Some(b) = i.read_budget { if i.reads > b { return Err(BUDGET.to_string()); } }
            if i.deaf { return Err("injected: storage is gone".into()); }
            if i.fail_read_at == Some(i.reads) { i.deaf = i.keep_dead; i.dead = i.keep_dead; return Err("injected: read failed".into()); }
            let r = i.map.get(&(ns.as_str().to_string(), key.to_string())).cloned();
            if i.log.len() < 100_000 { i.log.push(Op::Get(ns.as_str().into(), key.into(), r.is_some())); }
            Ok(r)
        })
    }
    fn get_all(&self, ns: Namespace) -> Result<HashMap<String, Vec<u8>>, String> {
        self.with(|i| {
            i.log.push(Op::All(ns.as_str().into()));
            i.reads += 1;
            if i.fail_read_at == Some(i.reads) { i.deaf = i.keep_dead; i.dead = i.keep_dead; return Err("injected: read failed".into()); }
            if i.deaf { return Err("injected: storage is gone".into()); }
            Ok(i.map.iter().filter(|(k, _)| k.0 == ns.as_str()).map(|(k, v)| (k.1.clone(), v.clone())).collect())
        })
    }
    fn insert(&mut self, ns: Namespace, key: &str, value: &[u8]) -> Result<(), String> {
        self.with(|i| {
            i.writes += 1;
            if i.dead { return Err("injected: storage is gone".into()); }
            if let Some(n) = i.fail_at { if i.writes == n { i.dead = i.keep_dead; return Err("injected: write failed".into()); } }
            if i.log.len() < 100_000 { i.log.push(Op::Put(ns.as_str().into(), key.into())); }
            let k = (ns.as_str().to_string(), key.to_string());
            if let Some(old) = i.map.insert(k, value.to_vec()) { if old != value && i.overwrites.len() < 1000 { i.overwrites.push((ns.as_str().into(), key.into(), old, value.to_vec())); } }
            Ok(())
        })
    }
    fn new() -> Self { Spy::default() }
    fn config(&self, _c: HashMap<String, String>) -> Self { self.clone() }
}
