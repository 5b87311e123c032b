//! Storage back ends, interrupted builds and concurrent use (C19, C28, C29).
use crate::rng::Rng;
use crate::run::*;
use crate::store::{Dump, Spy};
use crate::sys::*;
use crate::world::*;
use oca_rs::data_storage::{DataStorage, FileSystemStorage, FileSystemStorageConfig, InMemoryDataStorage, Namespace, SledDataStorage, SledDataStorageConfig};
use oca_rs::repositories::SQLiteConfig;
use oca_rs::Facade;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind { Mem, Sled, Fs }
const SPACES: [&str; 6] = ["oca", "oca_bundles_json", "oca_objects_json", "core_model", "oca_relations", "oca_refs"];
fn space(n: usize) -> Namespace { match n { 0 => Namespace::OCA, 1 => Namespace::OCABundlesJSON, 2 => Namespace::OCAObjectsJSON, 3 => Namespace::CoreModel, 4 => Namespace::OCARelations, _ => Namespace::OCAReferences } }

/// Opens a back end the way its users do.
pub(crate) fn open_store(k: Kind, dir: &Path) -> Result<Box<dyn DataStorage>, Stop> {
    guard("opening a storage", || -> Box<dyn DataStorage> {
        match k {
            Kind::Mem => Box::new(InMemoryDataStorage::new()),
            Kind::Fs => Box::new(FileSystemStorage::new().config(FileSystemStorageConfig::build().path(dir.to_path_buf()).unwrap())),
            Kind::Sled => {
                let mut s = SledDataStorage::new();
                // the previous owner may still be letting go of it
                for _ in 0..200 {
                    s = SledDataStorage::new().config(SledDataStorageConfig::build().path(dir.to_path_buf()).unwrap());
                    if s.get(Namespace::OCA, "x").is_ok() { break; }
                    std::thread::sleep(Duration::from_millis(25));
                }
                Box::new(s)
            }
        }
    })
}
fn sqlite(dir: Option<&Path>) -> SQLiteConfig { SQLiteConfig { path: dir.map(|d| d.to_path_buf()) } }
pub(crate) fn facade(db: Box<dyn DataStorage>, cache: Box<dyn DataStorage>, sql: Option<&Path>) -> Result<Sys, Stop> {
    let f = guard("opening a facade", || Facade::new(db, cache, sqlite(sql)))?;
    Ok(Sys { f, db: Spy::make(), cache: Spy::make() })
}
/// A facade over one back end in `dir`, its search data beside it.
fn open_all(k: Kind, dir: &Path) -> Result<Open, Stop> {
    let s = open_store(k, &dir.join("store"))?;
    Ok(Open { s: facade(s.clone(), s.clone(), Some(&dir.join("sql")))?, raw: s })
}
struct Open { s: Sys, raw: Box<dyn DataStorage> }
fn copy_dir(from: &Path, to: &Path) {
    std::fs::create_dir_all(to).expect("copy");
    for e in std::fs::read_dir(from).into_iter().flatten().flatten() {
        let t = to.join(e.file_name());
        if e.path().is_dir() { copy_dir(&e.path(), &t) } else { let _ = std::fs::copy(e.path(), t); }
    }
}
fn tree(dir: &Path, skip: &Path) -> BTreeMap<PathBuf, Vec<u8>> {
    let mut out = BTreeMap::new();
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        let p = e.path();
        if p == skip { continue; }
        if p.is_dir() { out.insert(p.clone(), b"dir".to_vec()); out.extend(tree(&p, skip)); } else { out.insert(p.clone(), std::fs::read(&p).unwrap_or_default()); }
    }
    out
}

// ---------------------------------------------------------------- C19
/// Keys that must be keys and nothing else. Whatever path they could be taken for lies in the scratch directory.
fn key(r: &mut Rng, top: &Path) -> String {
    const PLAIN: [&str; 44] = ["a", "A", "a.b", "a/b", "a/", "/", "//", "", ".", "..", "...", "%", "%%", "%2F", "%2f", "%25", "%2E", "%2E.", "%00", "a%2Fb", "a%2fb", "a%252Fb", "a\\b", "\\", "%5C", "a\0b", "\0", "a\nb", " ", "a ", " a", "é", "e\u{301}", "漢字", "🦀", "a:b", "*", "?", "-rf", "~", "$HOME", ".1-0.tmp", "a.tmp", "oca.E.operation"];
    match r.below(12) {
        0..=4 => r.pick(&PLAIN).to_string(),
        5 => format!("{}/{}", r.pick(&SPACES), r.pick(&["a", "b", ".."])),
        6 => format!("{}{}", "../".repeat(r.range(1, 4)), r.pick(&["x", "outside/x", "outside/secret", "outside", "store/oca/a", "oca/a", "oca_refs/a"])),
        7 => format!("a/{}{}", "../".repeat(r.range(1, 4)), r.pick(&["x", "outside/secret", "oca/a"])),
        8 => format!("{}/{}", top.display(), r.pick(&["x", "outside/secret", "outside/y", "a/b/store/oca/a", "a/b/store/oca_refs/a"])),
        9 => format!("{}{}", "k".repeat(r.range(1, 90)), r.below(3)),
        10 => (0..r.range(1, 8)).map(|_| crate::gen::wild_char(r)).collect(),
        _ => crate::sad::digest(format!("{}", r.below(6)).as_bytes()),
    }
}
fn value_of(r: &mut Rng) -> Vec<u8> {
    match r.below(8) { 0 => vec![], 1 => vec![0], 2 => vec![255; 3], 3 => b"{\"a\":1}".to_vec(), 4 => { let n = r.range(1, 60_000); (0..n).map(|i| (i % 251) as u8).collect() } _ => { let n = r.range(1, 20); (0..n).map(|_| r.below(256) as u8).collect() } }
}
fn map_case(x: &mut Ctx, i: u64, r: &mut Rng) -> R {
    let kind = [Kind::Fs, Kind::Sled, Kind::Mem, Kind::Fs][(i / 2 % 4) as usize];
    let top = x.dir("map");
    let dir = top.join("a/b/store");
    std::fs::create_dir_all(top.join("a/b")).expect("dirs");
    std::fs::create_dir_all(top.join("outside")).expect("dirs");
    std::fs::write(top.join("outside/secret"), b"not yours").expect("canary");
    std::fs::write(top.join("a/x"), b"canary").expect("canary");
    let before = tree(&top, &dir);
    let mut hs = vec![open_store(kind, &dir)?];
    let mut m: BTreeMap<(usize, String), Vec<u8>> = BTreeMap::new();
    let keys: Vec<String> = { let n = r.range(3, 12); (0..n).map(|_| key(r, &top)).collect() };
    let mut log: Vec<Value> = vec![];
    if [4, 6, 10].contains(&(i % 40)) {
        // many entries in one namespace, some of them large
        let (n, many) = (r.below(6), r.range(150, if x.thorough { 3000 } else { 1200 }));
        for k in 0..many {
            let k = if r.chance(1, 2) { format!("bulk{k}") } else { crate::sad::digest(format!("bulk{k}").as_bytes()) };
            let v = if r.chance(1, 300) { vec![7u8; r.range(100_000, 6_000_000)] } else { value_of(r) };
            match guard("inserting", || hs[0].insert(space(n), &k, &v))? { Ok(()) => { m.insert((n, k), v); } Err(e) => return viol("a key is refused", format!("{kind:?} {k:?}: {e}")) }
        }
        log.push(json!(["bulk", SPACES[n], many]));
        all_of(&*hs[0], &m, n, kind)?;
        for (k, v) in m.iter().take(100) { x.eval(); let got = guard("getting", || hs[0].get(space(k.0), &k.1))?.ok().flatten(); ensure(got.as_ref() == Some(v), "a value read is not the last one written", || format!("{kind:?} {k:?}"))?; }
        x.count("namespaces with more than 100 entries", 1);
    }
    for _ in 0..r.range(10, 60) {
        let h = r.below(hs.len());
        let n = r.below(6);
        let k = r.pick(&keys).clone();
        x.eval();
        match r.below(14) {
            0..=5 => {
                let v = value_of(r);
                log.push(json!(["insert", SPACES[n], k, v.len()]));
                x.note("operations", log.clone());
                let res = guard("inserting", || hs[h].insert(space(n), &k, &v))?;
                match res { Ok(()) => { m.insert((n, k.clone()), v); } Err(e) => { ensure(k.len() > 80, "a key is refused", || format!("{kind:?} {k:?}: {e}"))?; } }
                x.state(&format!("{kind:?} {k}"));
            }
            6..=9 => {
                log.push(json!(["get", SPACES[n], k]));
                x.note("operations", log.clone());
                let got = guard("getting", || hs[h].get(space(n), &k))?;
                let want = m.get(&(n, k.clone()));
                match got { Ok(g) => ensure(g.as_ref() == want, "a value read is not the last one written", || format!("{kind:?} {}/{k:?}: expected {:?}, got {:?}", SPACES[n], want.map(|v| clip_bytes(v)), g.as_ref().map(|v| clip_bytes(v))))?, Err(e) => ensure(want.is_none(), "a value cannot be read", || format!("{kind:?} {k:?}: {e}"))? }
            }
            10 => {
                log.push(json!(["get_all", SPACES[n]]));
                x.note("operations", log.clone());
                all_of(&*hs[h], &m, n, kind)?;
            }
            11 if kind != Kind::Mem => { log.push(json!("reopen")); hs.clear(); hs.push(open_store(kind, &dir)?); x.count("reopened", 1); }
            12 if kind != Kind::Mem && hs.len() < 3 => { log.push(json!("another handle")); if kind == Kind::Sled { let c = hs[0].clone(); hs.push(c); } else { hs.push(open_store(kind, &dir)?); } }
            13 => {
                // a namespace no one wrote to, a key no one wrote
                let k = format!("never{}", r.below(9));
                ensure(guard("getting", || hs[h].get(space(n), &k))?.ok().flatten().is_none(), "a value nobody wrote", || k.clone())?;
            }
            _ => {}
        }
    }
    for again in [false, true] {
        if again { if kind == Kind::Mem { continue; } hs.clear(); hs.push(open_store(kind, &dir)?); x.count("reopened", 1); }
        for n in 0..6 { all_of(&*hs[0], &m, n, kind)?; for k in &keys { let got = guard("getting", || hs[0].get(space(n), k))?.ok().flatten(); ensure(got.as_ref() == m.get(&(n, k.clone())), "a value read is not the last one written", || format!("{kind:?} {}/{k:?} reopened: {again}", SPACES[n]))?; } }
    }
    if kind == Kind::Fs { unreadable(x, r, &*hs[0], &m, &keys, &dir)?; }
    drop(hs);
    let after = tree(&top, &dir);
    ensure(after == before, "a key reaches outside the storage's directory", || { let d: Vec<String> = after.keys().chain(before.keys()).filter(|p| after.get(*p) != before.get(*p)).map(|p| p.display().to_string()).collect(); format!("{kind:?}: {d:?}") })?;
    x.count(&format!("map operations on {kind:?}"), log.len() as u64);
    // the store of the versioning library keeps one map
    if i % 8 == 2 {
        use oca_dag_semantics::data_storage::{DataStorage as Ds, SledDataStorage as Sd};
        let d = top.join("a/b/dag");
        let mut m: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        for round in 0..2 {
            let s = guard("opening a storage", || { let mut s = Sd::open(&d.display().to_string()); for _ in 0..200 { if s.get("x").is_ok() { break; } std::thread::sleep(Duration::from_millis(25)); s = Sd::open(&d.display().to_string()); } s })?;
            for k in &keys { let got = guard("getting", || s.get(k))?; ensure(got.as_ref().ok() == Some(&m.get(k).cloned()), "a value read is not the last one written", || format!("versioning store {k:?} round {round}: {got:?}"))?; }
            for _ in 0..10 { let k = r.pick(&keys).clone(); let v = value_of(r); let res = guard("inserting", || s.insert(&k, &v))?; if res.is_ok() { m.insert(k, v); } x.eval(); }
        }
    }
    let _ = std::fs::remove_dir_all(&top);
    Ok(())
}
fn clip_bytes(v: &[u8]) -> String { format!("{} bytes {:?}", v.len(), &v[..v.len().min(24)]) }
fn all_of(s: &dyn DataStorage, m: &BTreeMap<(usize, String), Vec<u8>>, n: usize, kind: Kind) -> R {
    let got = match guard("listing a namespace", || s.get_all(space(n)))? { Ok(g) => g.into_iter().collect::<BTreeMap<_, _>>(), Err(e) => return viol("a namespace cannot be listed", format!("{kind:?}: {e}")) };
    let want: BTreeMap<String, Vec<u8>> = m.iter().filter(|(k, _)| k.0 == n).map(|(k, v)| (k.1.clone(), v.clone())).collect();
    ensure(got == want, "a listing is not what was written", || format!("{kind:?} {}: expected {:?}, got {:?}", SPACES[n], want.keys().collect::<Vec<_>>(), got.keys().collect::<Vec<_>>()))
}
/// The same files built on every back end give the same answers, also after opening it anew.
fn same_case(x: &mut Ctx, i: u64, r: &mut Rng) -> R {
    let top = x.dir("same");
    let mut g = crowded(r);
    g.max_cmds = g.max_cmds.min(5);
    let mut w = World::new(g);
    w.pool = ["person", "order", "../x", "../../../outside/x", "a/b", "..", ".", "Person", "żółw"].map(String::from).to_vec();
    w.pool.push(format!("{}/outside/y", top.display()));
    std::fs::create_dir_all(top.join("outside")).expect("dirs");
    let kinds = [Kind::Mem, Kind::Sled, Kind::Fs];
    let dirs: Vec<PathBuf> = kinds.iter().map(|k| top.join(format!("{k:?}/a/b"))).collect();
    for d in &dirs { std::fs::create_dir_all(d).expect("dirs"); }
    let before = tree(&top.join("outside"), &top);
    let mut sys: Vec<Option<Open>> = vec![];
    for (k, d) in kinds.iter().zip(&dirs) { sys.push(Some(open_all(*k, d)?)); }
    let n = if x.thorough { r.range(3, 9) } else { r.range(2, 4) };
    let mut plans: Vec<Plan> = vec![];
    for step in 0..n {
        let p = w.plan(r);
        let b = w.build(x, &p)?;
        for (j, k) in kinds.iter().enumerate() {
            x.eval();
            let Some(Open { s, .. }) = sys[j].as_mut() else { continue };
            match s.build(&p.text)? {
                Ok(o) => { let t = encode(&o)?; ensure(t == b.json, "a back end changes what is built", || format!("{k:?}: {t}\nexpected {}", b.json))? }
                Err(e) => return viol("a back end refuses what others build", format!("{k:?}: {}\n{}", show_err(&e), p.text)),
            }
        }
        // what is refused is refused everywhere
        if r.chance(1, 3) {
            let bad = r.pick(&["ADD ATTRIBUTE a=refn:nobody", "ADD ATTRIBUTE a=refn:../../../outside/x", "FROM EAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA\nADD ATTRIBUTE zz=Text", "ADD LABEL en ATTRS nobody=\"x\"", "ADD LINK refn:a/../b ATTRS a=\"x\""]).to_string();
            if !(bad.starts_with("FROM")) {
                let want = match w.s.build(&bad)? { Ok(b) => Ok(encode(&b)?), Err(e) => Err(errors(&e)) };
                for (j, k) in kinds.iter().enumerate() { if let Some(Open { s, .. }) = sys[j].as_mut() { let got = match s.build(&bad)? { Ok(b) => Ok(encode(&b)?), Err(e) => Err(errors(&e)) }; ensure(got == want, "a back end answers differently", || format!("{k:?}: {got:?}\nexpected {want:?}\n{bad}"))?; } }
            }
        }
        if r.chance(1, 2) && step + 1 < n { let j = r.range(1, 2); sys[j] = None; sys[j] = Some(open_all(kinds[j], &dirs[j])?); x.count("facades reopened", 1); }
        plans.push(p);
    }
    let mut ids: BTreeSet<String> = w.bundles.keys().cloned().collect();
    ids.extend(w.objects.keys().cloned());
    let words = ["kg", "person", "text"];
    let want = observe(&w.s, &ids, &words)?;
    for again in [false, true] {
        for (j, k) in kinds.iter().enumerate() {
            if again { if *k == Kind::Mem { continue; } sys[j] = None; sys[j] = Some(open_all(*k, &dirs[j])?); }
            let Some(Open { s, raw }) = sys[j].as_ref() else { continue };
            let got = observe(s, &ids, &words)?;
            x.count("answers compared", got.len() as u64);
            if let Some((what, d)) = first_change(&want, &got) { return viol(&format!("a back end answers differently: {what}"), format!("{k:?}, reopened: {again}\n{d}")); }
            for id in &ids { let (a, b) = (w.s.ocafile(id, i % 2 == 0)?, s.ocafile(id, i % 2 == 0)?); ensure(a == b, "a back end answers differently: OCAFile", || format!("{k:?} {id}\n{a:?}\n{b:?}"))?; }
            // the raw maps, where the namespaces of both halves are one
            if *k == Kind::Mem { continue; }
            let mine = dump_all(&**raw, *k)?;
            let mut theirs = w.s.db.dump();
            theirs.extend(w.s.cache.dump());
            ensure(canon(&mine) == canon(&theirs), "stored content differs between back ends", || format!("{k:?}: {:?}", dump_diff(&canon(&theirs), &canon(&mine))))?;
        }
    }
    drop(sys);
    ensure(tree(&top.join("outside"), &top) == before, "a name reaches outside the storage's directory", || format!("{:?}", tree(&top.join("outside"), &top).keys()))?;
    for d in &dirs { for p in ["../x", "../../x", "x"] { ensure(!d.join(p).exists(), "a name reaches outside the storage's directory", || p.to_string())?; } let mut e: Vec<String> = std::fs::read_dir(d).into_iter().flatten().flatten().map(|e| e.file_name().to_string_lossy().to_string()).collect(); e.retain(|n| n != "store" && n != "sql"); ensure(e.is_empty(), "a name reaches outside the storage's directory", || format!("{e:?}"))?; }
    x.state(&format!("{:?}", w.finals));
    x.sample(|| json!({"files": plans.iter().map(|p| p.text.clone()).collect::<Vec<_>>()}));
    let _ = std::fs::remove_dir_all(&top);
    Ok(())
}
fn dump_all(s: &dyn DataStorage, k: Kind) -> Result<Dump, Stop> {
    let mut d = Dump::new();
    for n in 0..6 { match guard("listing a namespace", || s.get_all(space(n)))? { Ok(m) => for (key, v) in m { d.insert((SPACES[n].to_string(), key), v); }, Err(e) => return viol("a namespace cannot be listed", format!("{k:?}: {e}")) } }
    Ok(d)
}
fn files_in(dir: &Path) -> Vec<PathBuf> { let mut v: Vec<PathBuf> = tree(dir, Path::new("/nothing")).into_keys().filter(|p| p.is_file()).collect(); v.sort(); v }
/// A stored value whose file cannot be read (here: a link to itself) is not a value nobody wrote.
fn unreadable(x: &mut Ctx, r: &mut Rng, s: &dyn DataStorage, m: &BTreeMap<(usize, String), Vec<u8>>, keys: &[String], dir: &Path) -> R {
    let files = files_in(dir);
    if files.is_empty() || files.len() > 200 { return Ok(()); }
    let n = files.len().min(2);
    for f in r.subset(&files, n) {
        let content = std::fs::read(&f).expect("file");
        std::fs::remove_file(&f).expect("file");
        std::os::unix::fs::symlink(&f, &f).expect("link");
        x.eval();
        for (n, k) in m.keys() {
            let want = m.get(&(*n, k.clone()));
            match guard("getting", || s.get(space(*n), k))? { Ok(g) => ensure(g.as_ref() == want, "an unreadable value counts as something else", || format!("{}/{k:?}: expected {:?} or an error, got {:?}", SPACES[*n], want.map(|v| clip_bytes(v)), g.as_ref().map(|v| clip_bytes(v))))?, Err(_) => x.count("unreadable values refused", 1) }
        }
        for k in keys { for n in 0..6 { if !m.contains_key(&(n, k.clone())) { if let Ok(Some(_)) = guard("getting", || s.get(space(n), k))? { return viol("a value nobody wrote", k.clone()); } } } }
        for n in 0..6 { if let Ok(all) = guard("listing a namespace", || s.get_all(space(n)))? { let want: BTreeMap<String, Vec<u8>> = m.iter().filter(|(k, _)| k.0 == n).map(|(k, v)| (k.1.clone(), v.clone())).collect(); ensure(all.into_iter().collect::<BTreeMap<_, _>>() == want, "an unreadable value is left out of the list", || SPACES[n].to_string())?; } else { x.count("lists with an unreadable value refused", 1); } }
        std::fs::remove_file(&f).expect("link");
        std::fs::write(&f, content).expect("file");
    }
    Ok(())
}
/// Relations are sets. A bundle's record: parent, identifier, capture base, overlays.
fn canon(d: &Dump) -> BTreeMap<(String, String), String> {
    d.iter().map(|(k, v)| {
        let t = String::from_utf8_lossy(v).to_string();
        let t = if k.0 == "oca_relations" && v.len() % 46 == 0 { let mut c: Vec<String> = v.chunks(46).map(|c| String::from_utf8_lossy(c).to_string()).collect(); c.sort(); c.concat() }
            // the overlays of a record are listed in no particular order
            else if k.0 == "core_model" && t.starts_with([',', '\0']) && !t.contains('{') { let mut v: Vec<&str> = t.split(',').collect(); let n = if t.starts_with(',') { 3 } else { 2 }; if v.len() > n { v[n..].sort(); } v.join(",") }
            else { t };
        (k.clone(), t)
    }).collect()
}
fn dump_diff(a: &BTreeMap<(String, String), String>, b: &BTreeMap<(String, String), String>) -> Vec<String> {
    a.keys().chain(b.keys()).filter(|k| a.get(*k) != b.get(*k)).take(4).map(|k| format!("{k:?}: {:?} -> {:?}", a.get(k).map(|s| crate::model::clip(s, 400)), b.get(k).map(|s| crate::model::clip(s, 400)))).collect()
}
pub fn c19(x: &mut Ctx, i: u64, r: &mut Rng) -> R { if i % 2 == 0 { map_case(x, i, r) } else { same_case(x, i, r) } }

// ---------------------------------------------------------------- C28
/// Ends the process, or fails every write, from the n-th write on.
#[derive(Clone)]
struct Killer { inner: Box<dyn DataStorage>, left: Arc<AtomicI64>, after: bool }
impl DataStorage for Killer {
    fn get(&self, n: Namespace, k: &str) -> Result<Option<Vec<u8>>, String> { self.inner.get(n, k) }
    fn get_all(&self, n: Namespace) -> Result<HashMap<String, Vec<u8>>, String> { self.inner.get_all(n) }
    fn insert(&mut self, n: Namespace, k: &str, v: &[u8]) -> Result<(), String> {
        let last = self.left.fetch_sub(1, Ordering::SeqCst) == 1;
        if last && !self.after { unsafe { libc::_exit(99) } }
        let r = self.inner.insert(n, k, v);
        if last { unsafe { libc::_exit(99) } }
        r
    }
    fn new() -> Self { unimplemented!() }
    fn config(&self, _: HashMap<String, String>) -> Self { unimplemented!() }
}
fn kind_named(s: &str) -> Kind { match s { "Sled" => Kind::Sled, "Fs" => Kind::Fs, _ => Kind::Mem } }
/// The process that is to be interrupted: `ocav crash DIR KIND N AFTER LIMIT FILE...` builds the files
/// one after another, noting each finished one; it ends at the N-th write of the last file (0: never).
pub fn crash_child(a: &[String]) -> i32 {
    let dir = PathBuf::from(&a[0]);
    let (kind, n, after, limit) = (kind_named(&a[1]), a[2].parse::<i64>().unwrap_or(0), a[3] == "1", a[4].parse::<u64>().unwrap_or(0));
    let Ok(inner) = open_store(kind, &dir.join("store")) else { return 3 };
    let left = Arc::new(AtomicI64::new(0));
    let st = Box::new(Killer { inner, left: left.clone(), after });
    let Ok(mut s) = facade(st.clone(), st, Some(&dir.join("sql"))) else { return 3 };
    for (k, f) in a[5..].iter().enumerate() {
        let text = std::fs::read_to_string(f).unwrap_or_default();
        if k + 6 == a.len() {
            left.store(n, Ordering::SeqCst);
            if limit > 0 { unsafe { libc::signal(libc::SIGXFSZ, libc::SIG_IGN); let l = libc::rlimit { rlim_cur: limit, rlim_max: limit }; libc::setrlimit(libc::RLIMIT_FSIZE, &l); } }
        }
        match s.build(&text) { Ok(Ok(_)) => {} Ok(Err(_)) => return 4, Err(_) => return 5 }
        if limit == 0 { let _ = std::fs::write(dir.join(format!("done-{k}")), b""); }
    }
    0
}
fn child(dir: &Path, kind: Kind, n: i64, after: bool, limit: u64, files: &[PathBuf]) -> std::process::Command {
    let mut c = std::process::Command::new(std::env::current_exe().expect("own path"));
    c.arg("crash").arg(dir).arg(format!("{kind:?}")).arg(n.to_string()).arg(if after { "1" } else { "0" }).arg(limit.to_string()).args(files);
    c.stdin(std::process::Stdio::null()).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
    c
}
/// What was built before: answers that must not change, relations that may only grow towards the full ones.
struct Before { earlier: BTreeSet<String>, answers: BTreeMap<String, String>, rel: BTreeMap<String, BTreeSet<(String, String)>>, listed: (BTreeSet<String>, BTreeSet<String>) }
struct Whole { ids: BTreeSet<String>, answers: BTreeMap<String, String>, rel: BTreeMap<String, BTreeSet<(String, String)>>, dump: BTreeMap<(String, String), String>, json: String, cbs: BTreeSet<String>, bundles: BTreeSet<String> }
fn relations(s: &Sys, ids: &BTreeSet<String>) -> Result<BTreeMap<String, BTreeSet<(String, String)>>, Stop> {
    let mut m = BTreeMap::new();
    for id in ids { if let Some((_, _, v)) = s.explore(id)? { m.insert(id.clone(), v.into_iter().collect()); } }
    Ok(m)
}
fn kept(s: &Sys, ids: &BTreeSet<String>) -> Result<BTreeMap<String, String>, Stop> {
    Ok(observe(s, ids, &[])?.into_iter().filter(|(k, _)| !k.starts_with("relations") && k != "names" && !k.contains("listed")).collect())
}
fn listed(s: &Sys) -> Result<(BTreeSet<String>, BTreeSet<String>), Stop> { Ok((s.list(100_000, 1)?.0.into_iter().collect(), s.list_cb(100_000, 1)?.0.into_iter().collect())) }
fn survived(s: &Sys, b: &Before, w: &Whole, how: &str) -> R {
    let now = kept(s, &b.earlier)?;
    if let Some((what, d)) = first_change(&b.answers, &now) { return viol(&format!("an interruption changes what was stored before: {what}"), format!("{how}\n{d}")); }
    let rel = relations(s, &b.earlier)?;
    for (id, old) in &b.rel {
        let got = rel.get(id).cloned().unwrap_or_default();
        ensure(old.is_subset(&got), "an interruption loses relations", || format!("{how}: {id}: {:?}", old.difference(&got).collect::<Vec<_>>()))?;
        let full = w.rel.get(id).cloned().unwrap_or_default();
        ensure(got.is_subset(&full), "an interruption makes up relations", || format!("{how}: {id}: {:?}", got.difference(&full).collect::<Vec<_>>()))?;
    }
    let (l, c) = listed(s)?;
    for t in &b.listed.0 { ensure(l.contains(t), "an interruption takes a bundle off the list", || format!("{how}\n{t}"))?; }
    for t in &b.listed.1 { ensure(c.contains(t), "an interruption takes a capture base off the list", || format!("{how}\n{t}"))?; }
    for t in &l { ensure(w.bundles.contains(t), "an interruption lists a bundle nobody builds", || format!("{how}\n{t}"))?; }
    for t in &c { ensure(w.cbs.contains(t), "an interruption lists a capture base nobody builds", || format!("{how}\n{t}"))?; }
    Ok(())
}
fn repeated(s: &mut Sys, text: &str, w: &Whole, how: &str) -> R {
    match s.build(text) {
        Ok(Ok(b)) => { let t = encode(&b)?; ensure(t == w.json, "repeating the build gives something else", || format!("{how}: {t}\nexpected {}", w.json))?; }
        Ok(Err(e)) => return viol("repeating the build fails", format!("{how}: {}", show_err(&e))),
        Err(Stop::Viol { key, what }) => return viol("repeating the build fails", format!("{how}: {key}: {what}")),
        Err(e) => return Err(e),
    }
    let now = observe(s, &w.ids, &WORDS)?;
    if let Some((what, d)) = first_change(&w.answers, &now) { return viol(&format!("repeating the build leaves something else: {what}"), format!("{how}\n{d}")); }
    Ok(())
}
const WORDS: [&str; 3] = ["kg", "person", "some"];
/// A build said it succeeded: everything is there.
fn complete(x: &mut Ctx, s: &Sys, b: &oca_bundle_semantics::state::oca::OCABundle, w: &Whole, how: &str) -> R {
    x.count("successes looked at", 1);
    let t = encode(b)?;
    ensure(t == w.json, "a build that succeeded gives something else", || format!("{how}: {t}\nexpected {}", w.json))?;
    let now = observe(s, &w.ids, &WORDS)?;
    if let Some((what, d)) = first_change(&w.answers, &now) { return viol(&format!("a build that succeeded left something out: {what}"), format!("{how}\n{d}")); }
    Ok(())
}
fn same_dump(w: &Whole, d: &Dump, how: &str, key: &str) -> R {
    let c = canon(d);
    ensure(c == w.dump, key, || format!("{how}: {:?}", dump_diff(&w.dump, &c)))
}
fn history_world(x: &mut Ctx, r: &mut Rng, max: usize) -> Result<(World, Vec<Plan>, Plan), Stop> {
    let mut g = crowded(r);
    g.max_cmds = g.max_cmds.min(if x.thorough { 6 } else { 4 });
    let mut w = World::new(g);
    let mut plans = vec![];
    for _ in 0..r.range(1, max) { let p = w.plan(r); w.build(x, &p)?; plans.push(p); }
    let target = loop { let p = w.plan(r); if p.name.is_some() && p.own.iter().any(has_name) { continue; } if p.act != Act::Again || r.chance(1, 8) { break p; } };
    Ok((w, plans, target))
}
fn ids_of(w: &World) -> BTreeSet<String> { let mut ids: BTreeSet<String> = w.bundles.keys().cloned().collect(); ids.extend(w.objects.keys().cloned()); ids }
fn before_of(s: &Sys, w: &World) -> Result<Before, Stop> { let earlier = ids_of(w); Ok(Before { answers: kept(s, &earlier)?, rel: relations(s, &earlier)?, listed: listed(s)?, earlier }) }
fn whole_of(s: &Sys, dump: &Dump, w: &World, json: &str) -> Result<Whole, Stop> {
    let ids = ids_of(w);
    let (bundles, cbs) = listed(s)?;
    Ok(Whole { answers: observe(s, &ids, &WORDS)?, rel: relations(s, &ids)?, dump: canon(dump), json: json.to_string(), bundles, cbs, ids })
}
/// Every write of the build fails in turn, once or from then on.
fn fault_case(x: &mut Ctx, r: &mut Rng, success: bool) -> R {
    let (mut w, plans, target) = history_world(x, r, 4)?;
    let top = x.dir("fault");
    let base = top.join("base");
    // the state before, on storage whose content can be copied
    let (db, cache) = (Spy::make(), Spy::make());
    let open = |db: &Spy, cache: &Spy, dir: &Path| -> Result<Sys, Stop> { let f = guard("opening a facade", || Facade::new(Box::new(db.clone()), Box::new(cache.clone()), sqlite(Some(dir))))?; Ok(Sys { f, db: db.clone(), cache: cache.clone() }) };
    let mut s = open(&db, &cache, &base)?;
    for p in &plans { s.must_build(&p.text)?; }
    let before = before_of(&s, &w)?;
    drop(s);
    let (d0, c0) = (db.dump(), cache.dump());
    let fork = |name: &str| -> (Spy, Spy, PathBuf) {
        let dir = top.join(name);
        copy_dir(&base, &dir);
        let (a, b) = (Spy::make(), Spy::make());
        a.with(|i| i.map = d0.clone());
        b.with(|i| i.map = c0.clone());
        (a, b, dir)
    };
    let b = w.build(x, &target)?;
    // uninterrupted
    let (a1, b1, dir) = fork("whole");
    let mut s = open(&a1, &b1, &dir)?;
    s.must_build(&target.text)?;
    let (a2, b2) = (Spy::make(), Spy::make());
    for (from, to) in [(&a1, &a2), (&b1, &b2)] { let (nr, nw) = from.with(|i| (i.reads, i.writes)); to.with(|i| { i.reads = nr; i.writes = nw; }); }
    let all = |a: &Spy, b: &Spy| { let mut d = a.dump(); d.extend(b.dump()); d };
    let whole = whole_of(&s, &all(&a1, &b1), &w, &b.json)?;
    drop(s);
    let mut points: Vec<(bool, bool, u64)> = vec![];
    let (mut writes, mut reads) = (0, 0);
    for (in_db, st) in [(true, &a2), (false, &b2)] {
        let (nr, nw) = st.with(|i| (i.reads, i.writes));
        points.extend((1..=nr).map(|n| (in_db, true, n)).chain((1..=nw).map(|n| (in_db, false, n))));
        writes += nw;
        reads += nr;
    }
    x.count("writes in uninterrupted builds", writes);
    x.count("reads in uninterrupted builds", reads);
    let most = if x.thorough { 400 } else { 30 };
    if points.len() > most { points = r.subset(&points, most); }
    for (k, (in_db, read, n)) in points.into_iter().enumerate() {
        let (a, b_, dir) = fork(&format!("f{k}"));
        let mut s = open(&a, &b_, &dir)?;
        let keep = r.chance(1, 2);
        (if in_db { &a } else { &b_ }).with(|i| { if read { i.fail_read_at = Some(n) } else { i.fail_at = Some(n) } i.keep_dead = keep; });
        let how = format!("{} {n} {} {} fails{}", if read { "read" } else { "write" }, if read { "from" } else { "to" }, if in_db { "db" } else { "db_cache" }, if keep { " and all later ones" } else { "" });
        x.note("interruption", how.clone());
        x.note("files", plans.iter().chain([&target]).map(|p| Value::from(p.text.clone())).collect::<Vec<_>>());
        x.eval();
        let res = s.build(&target.text);
        match &res { Ok(Ok(_)) => x.count("builds that did not notice", 1), Ok(Err(_)) => x.count("builds refused", 1), Err(_) => x.count("builds broken off", 1) }
        let what = (if in_db { &a } else { &b_ }).with(|i| { i.fail_at = None; i.fail_read_at = None; i.dead = false; i.deaf = false; i.keep_dead = false; i.log.len() });
        x.state(&format!("{}|{in_db}|{read}|{n}|{keep}|{what}", target.text));
        x.count(if read { "failed reads" } else { "failed writes" }, 1);
        if success {
            if let Ok(b) = &res? { complete(x, &s, b, &whole, &how)?; same_dump(&whole, &all(&a, &b_), &how, "a build that succeeded stored something else")?; }
            drop(s);
            let _ = std::fs::remove_dir_all(&dir);
            continue;
        }
        if r.chance(1, 2) { drop(s); s = open(&a, &b_, &dir)?; }
        survived(&s, &before, &whole, &how)?;
        repeated(&mut s, &target.text, &whole, &how)?;
        same_dump(&whole, &all(&a, &b_), &how, "repeating the build stores something else")?;
        drop(s);
        let _ = std::fs::remove_dir_all(&dir);
    }
    x.sample(|| json!({"files before": plans.len(), "interrupted": target.text, "writes": writes, "reads": reads}));
    let _ = std::fs::remove_dir_all(&top);
    Ok(())
}
/// A process is ended at a write, at any moment, or finds the disk full; another process goes on.
fn crash_case(x: &mut Ctx, r: &mut Rng, kind: Kind, mode: u64) -> R {
    let (mut w, plans, target) = history_world(x, r, 3)?;
    let top = x.dir("crash");
    let files: Vec<PathBuf> = plans.iter().chain([&target]).enumerate().map(|(k, p)| { let f = top.join(format!("f{k}.ocafile")); std::fs::write(&f, &p.text).expect("file"); f }).collect();
    x.note("files", plans.iter().chain([&target]).map(|p| Value::from(p.text.clone())).collect::<Vec<_>>());
    // the same without interruption
    let o = { let mut o = open_all(kind, &top.join("whole"))?; for p in &plans { o.s.must_build(&p.text)?; } o };
    let Open { mut s, raw } = o;
    let before = before_of(&s, &w)?;
    let count = w.s.db.with(|i| i.writes) + w.s.cache.with(|i| i.writes);
    let b = w.build(x, &target)?;
    let writes = w.s.db.with(|i| i.writes) + w.s.cache.with(|i| i.writes) - count;
    s.must_build(&target.text)?;
    let whole = whole_of(&s, &dump_all(&*raw, kind)?, &w, &b.json)?;
    drop((s, raw));
    let last = files.len() - 1;
    let rounds = if x.thorough { 12 } else if kind == Kind::Fs { 5 } else { 3 };
    for k in 0..rounds {
        let dir = top.join(format!("c{k}"));
        std::fs::create_dir_all(&dir).expect("dir");
        x.eval();
        let how;
        match mode {
            0 => {
                let n = if k == 0 { 1 } else if k == 1 { writes } else { r.range(1, writes.max(1) as usize) as u64 };
                let after = r.chance(1, 2);
                how = format!("{kind:?}: process ends {} write {n} of {writes}", if after { "after" } else { "before" });
                let st = child(&dir, kind, n as i64, after, 0, &files).status().expect("child");
                if st.code() != Some(99) { return viol("an interrupted build does not get to its write", format!("{how}: {st:?}")); }
                x.state(&format!("{}|{kind:?}|{n}|{after}", target.text));
            }
            1 => {
                let mut c = child(&dir, kind, 0, false, 0, &files).spawn().expect("child");
                let t0 = std::time::Instant::now();
                while !dir.join(format!("done-{}", last - 1)).exists() && last > 0 && t0.elapsed().as_secs() < 20 { if let Ok(Some(_)) = c.try_wait() { break; } std::thread::sleep(Duration::from_micros(200)); }
                let us = r.below(if kind == Kind::Sled { 60_000 } else { 25_000 }) as u64;
                std::thread::sleep(Duration::from_micros(us));
                let _ = c.kill();
                let _ = c.wait();
                how = format!("{kind:?}: process killed {us} us into the build");
                x.count(if dir.join(format!("done-{last}")).exists() { "killed after the build" } else { "killed during the build" }, 1);
                x.state(&format!("{}|{kind:?}|kill {us}", target.text));
            }
            _ => {
                // files cannot grow beyond a limit while the last one is built
                let limit = [1u64, 60, 200, 500, 1000, 3000][r.below(6)];
                how = format!("{kind:?}: no file may be longer than {limit} bytes");
                let st = child(&dir, kind, 0, false, limit, &files).status().expect("child");
                x.count(&format!("limited builds: {}", match st.code() { Some(0) => "finished", Some(4) => "refused", Some(5) => "broken off", _ => "died" }), 1);
                x.state(&format!("{}|{kind:?}|limit {limit}", target.text));
            }
        }
        x.note("interruption", how.clone());
        if mode != 2 && last > 0 && !dir.join(format!("done-{}", last - 1)).exists() { x.count("ended too early to say", 1); continue; }
        let mut o = open_all(kind, &dir)?;
        survived(&o.s, &before, &whole, &how)?;
        repeated(&mut o.s, &target.text, &whole, &how)?;
        same_dump(&whole, &dump_all(&*o.raw, kind)?, &how, "repeating the build stores something else")?;
        x.count(&format!("interrupted processes on {kind:?}"), 1);
        drop(o);
        let _ = std::fs::remove_dir_all(&dir);
    }
    let _ = std::fs::remove_dir_all(&top);
    Ok(())
}
pub fn c28(x: &mut Ctx, i: u64, r: &mut Rng) -> R {
    match i % 10 { 0..=4 => fault_case(x, r, false), 5 => crash_case(x, r, Kind::Fs, 0), 6 => crash_case(x, r, Kind::Sled, 0), 7 => crash_case(x, r, Kind::Fs, 1), 8 => crash_case(x, r, Kind::Sled, 1), _ => crash_case(x, r, Kind::Fs, 2) }
}

// ---------------------------------------------------------------- C31
/// The search data cannot be written: another process holds it, or the disk is full.
fn search_case(x: &mut Ctx, r: &mut Rng, locked: bool) -> R {
    let (mut w, plans, target) = history_world(x, r, 3)?;
    let top = x.dir("search");
    let base = top.join("base");
    let (db, cache) = (Spy::make(), Spy::make());
    let open = |db: &Spy, cache: &Spy, dir: &Path| -> Result<Sys, Stop> { let f = guard("opening a facade", || Facade::new(Box::new(db.clone()), Box::new(cache.clone()), sqlite(Some(dir))))?; Ok(Sys { f, db: db.clone(), cache: cache.clone() }) };
    let mut s = open(&db, &cache, &base)?;
    for p in &plans { s.must_build(&p.text)?; }
    drop(s);
    let (d0, c0) = (db.dump(), cache.dump());
    let fork = |name: &str| -> (Spy, Spy, PathBuf) { let dir = top.join(name); copy_dir(&base, &dir); let (a, b) = (Spy::make(), Spy::make()); a.with(|i| i.map = d0.clone()); b.with(|i| i.map = c0.clone()); (a, b, dir) };
    let b = w.build(x, &target)?;
    let (a1, b1, dir) = fork("whole");
    let mut s = open(&a1, &b1, &dir)?;
    s.must_build(&target.text)?;
    let all = |a: &Spy, b: &Spy| { let mut d = a.dump(); d.extend(b.dump()); d };
    let whole = whole_of(&s, &all(&a1, &b1), &w, &b.json)?;
    drop(s);
    x.note("files", plans.iter().chain([&target]).map(|p| Value::from(p.text.clone())).collect::<Vec<_>>());
    for k in 0..if locked { 1 } else { 10 } {
        let (a, b_, dir) = fork(&format!("s{k}"));
        let file = dir.join("search_data.db");
        let size = std::fs::metadata(&file).map(|m| m.len()).unwrap_or(0);
        let mut s = open(&a, &b_, &dir)?;
        x.eval();
        let (res, how);
        if locked {
            let c = rusqlite::Connection::open(&file).expect("search data");
            c.execute_batch(if r.chance(1, 2) { "BEGIN IMMEDIATE" } else { "BEGIN EXCLUSIVE" }).expect("lock");
            how = "the search data is held by someone else".to_string();
            res = s.build(&target.text);
            let _ = c.execute_batch("ROLLBACK");
        } else {
            let limit = match k { 0 => 1, 1 => 600, 2 => size, 3 => size + 4096, 4 => size / 2, 5 => 4096, 6 => 8192, _ => r.range(1, size as usize + 30_000) as u64 };
            how = format!("no file may be longer than {limit} bytes (search data: {size})");
            res = limited(limit, || s.build(&target.text));
        }
        x.note("interruption", how.clone());
        x.count(&format!("{}: {}", if locked { "search data held" } else { "search data cannot grow" }, match &res { Ok(Ok(_)) => "finished", Ok(Err(_)) => "refused", Err(_) => "broken off" }), 1);
        x.state(&format!("{}|{how}", target.text));
        if let Ok(b) = &res? { complete(x, &s, b, &whole, &how)?; same_dump(&whole, &all(&a, &b_), &how, "a build that succeeded stored something else")?; }
        // and the next attempt completes it
        repeated(&mut s, &target.text, &whole, &how)?;
        drop(s);
        let _ = std::fs::remove_dir_all(&dir);
    }
    x.sample(|| json!({"files before": plans.len(), "target": target.text, "held": locked}));
    let _ = std::fs::remove_dir_all(&top);
    Ok(())
}
/// One stored file cannot be read while the build runs (a link to itself); it can be replaced.
fn unreadable_case(x: &mut Ctx, r: &mut Rng) -> R {
    let (mut w, plans, target) = history_world(x, r, 4)?;
    let top = x.dir("unreadable");
    let Open { mut s, raw } = open_all(Kind::Fs, &top.join("base"))?;
    for p in &plans { s.must_build(&p.text)?; }
    drop((s, raw));
    let b = w.build(x, &target)?;
    copy_dir(&top.join("base"), &top.join("whole"));
    let Open { mut s, raw } = open_all(Kind::Fs, &top.join("whole"))?;
    s.must_build(&target.text)?;
    let whole = whole_of(&s, &dump_all(&*raw, Kind::Fs)?, &w, &b.json)?;
    drop((s, raw));
    x.note("files", plans.iter().chain([&target]).map(|p| Value::from(p.text.clone())).collect::<Vec<_>>());
    // those the build touches matter most
    let base = tree(&top.join("base/store"), Path::new("/nothing"));
    let (mut hot, mut cold) = (vec![], vec![]);
    for f in files_in(&top.join("base/store")) {
        let rel = f.strip_prefix(top.join("base")).expect("below").to_path_buf();
        let now = std::fs::read(top.join("whole").join(&rel)).ok();
        if now.as_ref() != base.get(&f) || rel.to_string_lossy().contains("refs") { hot.push(rel) } else { cold.push(rel) }
    }
    let most = if x.thorough { 60 } else { 8 };
    let n = hot.len().min(most);
    let mut pick = r.subset(&hot, n);
    let n = cold.len().min(most / 2);
    pick.extend(r.subset(&cold, n));
    for (k, rel) in pick.into_iter().enumerate() {
        let dir = top.join(format!("u{k}"));
        copy_dir(&top.join("base"), &dir);
        let f = dir.join(&rel);
        let content = std::fs::read(&f).expect("file");
        std::fs::remove_file(&f).expect("file");
        std::os::unix::fs::symlink(&f, &f).expect("link");
        let Open { mut s, raw } = open_all(Kind::Fs, &dir)?;
        let how = format!("{} cannot be read", rel.display());
        x.note("interruption", how.clone());
        x.eval();
        x.state(&format!("{}|{how}", target.text));
        let res = s.build(&target.text);
        x.count(&format!("unreadable file: {}", match &res { Ok(Ok(_)) => "finished", Ok(Err(_)) => "refused", Err(_) => "broken off" }), 1);
        if std::fs::read_link(&f).is_ok() { std::fs::remove_file(&f).expect("link"); std::fs::write(&f, &content).expect("file"); }
        if let Ok(b) = &res? { complete(x, &s, b, &whole, &how)?; same_dump(&whole, &dump_all(&*raw, Kind::Fs)?, &how, "a build that succeeded stored something else")?; }
        drop((s, raw));
        let _ = std::fs::remove_dir_all(&dir);
    }
    x.sample(|| json!({"files before": plans.len(), "target": target.text, "unreadable": true}));
    let _ = std::fs::remove_dir_all(&top);
    Ok(())
}
/// No file of this process may grow beyond `limit` meanwhile.
fn limited<T>(limit: u64, f: impl FnOnce() -> T) -> T {
    unsafe {
        let mut old = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::getrlimit(libc::RLIMIT_FSIZE, &mut old);
        let sig = libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        libc::setrlimit(libc::RLIMIT_FSIZE, &libc::rlimit { rlim_cur: limit.min(old.rlim_max), rlim_max: old.rlim_max });
        let t = f();
        libc::setrlimit(libc::RLIMIT_FSIZE, &old);
        libc::signal(libc::SIGXFSZ, sig);
        t
    }
}
pub fn c31(x: &mut Ctx, i: u64, r: &mut Rng) -> R {
    match i % 10 { 0..=4 => fault_case(x, r, true), 5 => unreadable_case(x, r), 6 if i % 40 == 6 => search_case(x, r, true), _ => search_case(x, r, false) }
}

// ---------------------------------------------------------------- C32
#[derive(Clone, Debug)]
enum Ask { Bundle(String, bool), Objects(Vec<String>), History(String), File(String, bool), List(String), Relations(String), Names, Bundles(usize, usize), Bases(usize, usize) }
/// The answer, or that there is none. Asking must not crash.
fn ask(s: &Sys, q: &Ask) -> Result<Option<String>, Stop> {
    let all = |v: &[oca_bundle_semantics::state::oca::OCABundle]| -> Result<String, Stop> { let mut v = v.iter().map(encode).collect::<Result<Vec<_>, _>>()?; v.sort(); Ok(v.join("\n")) };
    Ok(match q {
        Ask::Bundle(id, dep) => { let sd = said(id)?; match guard("fetching a bundle", || s.f.get_oca_bundle(sd, *dep))? { Ok(b) => Some(format!("{}\n{}", encode(&b.bundle)?, all(&b.dependencies)?)), Err(_) => None } }
        Ask::Objects(ids) => match guard("fetching objects", || s.f.get_oca_objects(ids.clone()).map(|v| v.iter().map(|o| serde_json::to_string(o).unwrap_or_default()).collect::<Vec<_>>().join("\n")))? { Ok(t) => Some(t), Err(_) => None },
        Ask::History(id) => { let sd = said(id)?; match guard("reading a history", || s.f.get_oca_bundle_steps(sd))? { Ok(v) => { let mut t = String::new(); for st in &v { t += &format!("{:?} {} {}\n", st.parent_said.as_ref().map(|p| p.to_string()), serde_json::to_string(&st.command).unwrap_or_default(), encode(&st.result)?); } Some(t) } Err(_) => None } }
        Ask::File(id, d) => { let sd = said(id)?; guard("reconstructing the OCAFile", || s.f.get_oca_bundle_ocafile(sd, *d))?.ok() }
        Ask::List(id) => { let sd = said(id)?; guard("reconstructing the instructions", || s.f.get_oca_bundle_ast(sd).map(|a| serde_json::to_string(&a).unwrap_or_default()))?.ok() }
        Ask::Relations(id) => s.explore(id)?.map(|r| format!("{r:?}")),
        Ask::Names => guard("listing names", || s.f.fetch_all_refs())?.ok().map(|m| format!("{:?}", m.into_iter().collect::<BTreeMap<_, _>>())),
        Ask::Bundles(l, p) => match guard("listing bundles", || s.f.fetch_all_oca_bundle(*l, *p))? { Ok(r) => Some(format!("{} {}\n{}", r.metadata.total, r.metadata.page, all(&r.records)?)), Err(_) => None },
        Ask::Bases(l, p) => guard("listing capture bases", || s.f.fetch_all_capture_base(*l, *p).map(|r| format!("{} {}\n{}", r.metadata.total, r.metadata.page, r.records.iter().map(|c| serde_json::to_string(c).unwrap_or_default()).collect::<Vec<_>>().join("\n"))))?.ok(),
    })
}
fn questions(r: &mut Rng, w: &World) -> Vec<Ask> {
    let mut v = vec![Ask::Names];
    for id in w.bundles.keys() { v.extend([Ask::Bundle(id.clone(), false), Ask::Bundle(id.clone(), true), Ask::History(id.clone()), Ask::File(id.clone(), false), Ask::File(id.clone(), true), Ask::List(id.clone())]); }
    let objects: Vec<String> = w.objects.keys().cloned().collect();
    for _ in 0..4 { let n = r.range(1, objects.len().min(4)); v.push(Ask::Objects(r.subset(&objects, n))); }
    for id in w.finals.iter().chain(&objects) { v.push(Ask::Relations(id.clone())); }
    v
}
fn answered(x: &mut Ctx, q: &Ask, want: &Option<String>, got: &Option<String>, how: &str) -> R {
    x.eval();
    match got {
        None => x.count("questions refused", 1),
        Some(g) => { x.count("questions answered all the same", 1); ensure(want.as_ref() == Some(g), "a failed read changes an answer", || format!("{how}: {q:?}\nexpected {want:?} or an error\ngot {g}"))? }
    }
    Ok(())
}
pub fn c32(x: &mut Ctx, i: u64, r: &mut Rng) -> R {
    let mut g = crowded(r);
    g.max_cmds = g.max_cmds.min(if x.thorough { 7 } else { 5 });
    let mut w = World::new(g);
    let mut plans = vec![];
    for _ in 0..r.range(2, 5) { let p = w.plan(r); w.build(x, &p)?; plans.push(p); }
    x.note("files", plans.iter().map(|p| Value::from(p.text.clone())).collect::<Vec<_>>());
    let top = x.dir("ask");
    match i % 8 {
        // stored files that cannot be read
        6 => {
            let Open { mut s, raw: _raw } = open_all(Kind::Fs, &top)?;
            for p in &plans { s.must_build(&p.text)?; }
            let qs = questions(r, &w);
            let want = qs.iter().map(|q| ask(&s, q)).collect::<Result<Vec<_>, _>>()?;
            let files = files_in(&top.join("store"));
            let n = files.len().min(if x.thorough { 40 } else { 6 });
            for f in r.subset(&files, n) {
                let content = std::fs::read(&f).expect("file");
                std::fs::remove_file(&f).expect("file");
                std::os::unix::fs::symlink(&f, &f).expect("link");
                let how = format!("{} cannot be read", f.strip_prefix(&top).unwrap_or(&f).display());
                x.state(&format!("{how}{}", plans[0].text));
                let mut lost = 0;
                for (q, want) in qs.iter().zip(&want) { let got = ask(&s, q)?; if got.is_none() && want.is_some() { lost += 1; } answered(x, q, want, &got, &how)?; }
                x.count("questions an unreadable file prevents", lost);
                std::fs::remove_file(&f).expect("link");
                std::fs::write(&f, content).expect("file");
            }
            for (q, want) in qs.iter().zip(&want) { let got = ask(&s, q)?; ensure(got == *want, "a failed question changes later answers", || format!("{q:?}\n{want:?}\n{got:?}"))?; }
        }
        // somebody else holds the search data
        7 if i % 40 == 7 => {
            let Open { mut s, raw: _raw } = open_all(Kind::Fs, &top)?;
            for p in &plans { s.must_build(&p.text)?; }
            let qs = [Ask::Bundles(r.range(1, 3), 1), Ask::Bases(r.range(1, 3), 1)];
            let want = qs.iter().map(|q| ask(&s, q)).collect::<Result<Vec<_>, _>>()?;
            let c = rusqlite::Connection::open(top.join("sql/search_data.db")).expect("search data");
            c.execute_batch("BEGIN EXCLUSIVE").expect("lock");
            let k = r.below(2);
            let got = ask(&s, &qs[k]);
            let _ = c.execute_batch("ROLLBACK");
            x.state(&format!("held {:?} {}", qs[k], plans[0].text));
            answered(x, &qs[k], &want[k], &got?, "the search data is held by someone else")?;
            for (q, want) in qs.iter().zip(&want) { let got = ask(&s, q)?; ensure(got == *want, "a failed question changes later answers", || format!("{q:?}\n{want:?}\n{got:?}"))?; }
            let extra = w.plan(r);
            w.build(x, &extra)?;
            s.must_build(&extra.text)?;
        }
        _ => {
            let s = &w.s;
            let qs = questions(r, &w);
            let most = if x.thorough { 40 } else { 6 };
            for q in qs {
                let (a, b) = (s.db.with(|i| i.reads), s.cache.with(|i| i.reads));
                let want = ask(s, &q)?;
                let (a, b) = (s.db.with(|i| i.reads) - a, s.cache.with(|i| i.reads) - b);
                let mut points: Vec<(bool, u64)> = (1..=a).map(|n| (true, n)).chain((1..=b).map(|n| (false, n))).collect();
                x.count("reads in undisturbed questions", points.len() as u64);
                if points.len() > most { points = r.subset(&points, most); }
                for (in_db, n) in points {
                    let keep = r.chance(1, 2);
                    let st = if in_db { &s.db } else { &s.cache };
                    st.with(|i| { i.fail_read_at = Some(i.reads + n); i.keep_dead = keep; });
                    let got = ask(s, &q);
                    st.with(|i| { i.fail_read_at = None; i.dead = false; i.deaf = false; i.keep_dead = false; });
                    let how = format!("read {n} from {} fails{}", if in_db { "db" } else { "db_cache" }, if keep { " and all later ones" } else { "" });
                    x.note("interruption", how.clone());
                    x.note("question", format!("{q:?}"));
                    x.state(&format!("{q:?}{how}"));
                    answered(x, &q, &want, &got?, &how)?;
                }
                let again = ask(s, &q)?;
                ensure(again == want, "a failed question changes later answers", || format!("{q:?}\n{want:?}\n{again:?}"))?;
            }
        }
    }
    x.sample(|| json!({"files": plans.iter().map(|p| p.text.clone()).collect::<Vec<_>>()}));
    let _ = std::fs::remove_dir_all(&top);
    Ok(())
}

// ---------------------------------------------------------------- C29
/// One log over all threads: which thread did what, in the order it happened.
#[derive(Default)]
struct Trace { events: Vec<(u8, u8, u64)>, switches: u64 }
/// A handle that dawdles before and after each operation and notes it.
#[derive(Clone)]
struct Slow { inner: Box<dyn DataStorage>, who: u8, state: Arc<AtomicU64>, trace: Arc<Mutex<Trace>>, pace: u64 }
impl Slow {
    fn wait(&self) {
        let mut z = self.state.fetch_add(0x9E3779B97F4A7C15, Ordering::Relaxed);
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z ^= z >> 27;
        match z % 8 { 0 if self.pace > 0 => std::thread::sleep(Duration::from_micros(z >> 20 & (self.pace - 1))), 1 | 2 => std::thread::yield_now(), _ => {} }
    }
    fn log(&self, op: u8, ns: &str, key: &str) {
        if let Ok(mut t) = self.trace.lock() {
            if t.events.last().is_some_and(|e| e.0 != self.who) { t.switches += 1; }
            if t.events.len() < 200_000 { t.events.push((self.who, op, crate::rng::hash_str(&format!("{ns} {key}")))); }
        }
    }
}
impl DataStorage for Slow {
    fn get(&self, n: Namespace, k: &str) -> Result<Option<Vec<u8>>, String> { self.wait(); self.log(0, n.as_str(), k); let r = self.inner.get(n, k); self.wait(); r }
    fn get_all(&self, n: Namespace) -> Result<HashMap<String, Vec<u8>>, String> { self.wait(); self.log(1, n.as_str(), ""); self.inner.get_all(n) }
    fn insert(&mut self, n: Namespace, k: &str, v: &[u8]) -> Result<(), String> { self.wait(); self.log(2, n.as_str(), k); let r = self.inner.insert(n, k, v); self.wait(); r }
    fn new() -> Self { unimplemented!() }
    fn config(&self, _: HashMap<String, String>) -> Self { unimplemented!() }
}
/// What one thread is to build, and what must come out.
struct Part { texts: Vec<String>, jsons: Vec<String> }
type Stored = BTreeMap<String, (String, Vec<crate::model::Cmd>)>;
pub fn c29(x: &mut Ctx, i: u64, r: &mut Rng) -> R {
    #[derive(Clone, Copy, Debug, PartialEq)]
    enum On { Spy, Sled, Fs }
    let on = [On::Spy, On::Fs, On::Sled, On::Spy, On::Fs][(i % 5) as usize];
    let shared_sql = r.chance(1, 2);
    let builders = r.range(2, if x.thorough { 6 } else { 4 });
    let n = if x.thorough { r.range(2, 8) } else { r.range(2, 4) };
    // planned one thread at a time, so that it is known what each must get
    let mut g = crowded(r);
    g.max_cmds = g.max_cmds.min(5);
    let mut bundles: Stored = BTreeMap::new();
    let mut objects: BTreeMap<String, String> = BTreeMap::new();
    let mut names: BTreeMap<String, String> = BTreeMap::new();
    let mut finals: BTreeSet<String> = BTreeSet::new();
    let mut parts: Vec<Part> = vec![];
    let mut prev: Option<Rng> = None;
    for t in 0..builders {
        // some threads build the very same files
        let mut tr = match &prev { Some(p) if r.chance(1, 2) => p.clone(), _ => { let _ = r.next(); r.clone() } };
        prev = Some(tr.clone());
        let mut w = World::new(g.clone());
        w.pool = (0..3).map(|k| format!("t{t}-name{k}")).collect();
        let mut part = Part { texts: vec![], jsons: vec![] };
        for _ in 0..n { let p = w.plan(&mut tr); let b = w.build(x, &p)?; part.texts.push(p.text.clone()); part.jsons.push(b.json); }
        for (k, v) in w.bundles.iter() { bundles.entry(k.clone()).or_insert_with(|| v.clone()); }
        objects.extend(w.objects.clone());
        names.extend(w.names.clone());
        finals.extend(w.finals.clone());
        parts.push(part);
        let _ = r.next();
    }
    x.note("files of each thread", parts.iter().map(|p| Value::from(p.texts.clone())).collect::<Vec<_>>());
    let top = x.dir("conc");
    let trace = Arc::new(Mutex::new(Trace::default()));
    let spies = (Spy::make(), Spy::make());
    let sled = Mutex::new(if on == On::Sled { Some(open_store(Kind::Sled, &top.join("store"))?) } else { None });
    let pace = *r.pick(&[0u64, 64, 512, 2048]);
    let seed = r.next();
    let open = |who: u8| -> Result<Sys, Stop> {
        let slow = |s: Box<dyn DataStorage>| -> Box<dyn DataStorage> { Box::new(Slow { inner: s, who, state: Arc::new(AtomicU64::new(seed ^ (who as u64) << 32)), trace: trace.clone(), pace }) };
        let (a, b): (Box<dyn DataStorage>, Box<dyn DataStorage>) = match on {
            On::Spy => (Box::new(spies.0.clone()), Box::new(spies.1.clone())),
            On::Sled => { let s = sled.lock().expect("lock").clone().expect("open"); (s.clone(), s) }
            On::Fs => { let s = open_store(Kind::Fs, &top.join("store"))?; (s.clone(), s) }
        };
        facade(slow(a), slow(b), if shared_sql { Some(top.join("sql")) } else { None }.as_deref())
    };
    // the table of the search data exists before several use it
    let done = AtomicBool::new(false);
    let busy = AtomicU64::new(builders as u64);
    let readers = r.range(1, 3);
    let all: Vec<String> = bundles.keys().chain(objects.keys()).cloned().collect();
    let barrier = std::sync::Barrier::new(builders + readers);
    let seen = Mutex::new(BTreeMap::<&'static str, u64>::new());
    let results: Vec<Result<R, String>> = std::thread::scope(|sc| {
        let mut hs = vec![];
        for (t, part) in parts.iter().enumerate() {
            let (open, barrier, busy, done) = (&open, &barrier, &busy, &done);
            hs.push(sc.spawn(move || -> R {
                let s = open(t as u8);
                barrier.wait();
                let r = (|| { let mut s = s?; for (text, want) in part.texts.iter().zip(&part.jsons) {
                    match s.build(text)? { Ok(b) => { let got = encode(&b)?; ensure(got == *want, "a concurrent build gives something else", || format!("thread {t}: {got}\nexpected {want}\n{text}"))?; } Err(e) => return viol("a concurrent build fails", format!("thread {t}: {}\n{text}", show_err(&e))) }
                } Ok(()) })();
                if busy.fetch_sub(1, Ordering::SeqCst) == 1 { done.store(true, Ordering::SeqCst); }
                r
            }));
        }
        for k in 0..readers {
            let (open, barrier, done, all, bundles, objects, names, seen) = (&open, &barrier, &done, &all, &bundles, &objects, &names, &seen);
            let mut rr = Rng::from_parts(&[seed, k as u64]);
            hs.push(sc.spawn(move || -> R {
                let s = open(100 + k as u8);
                barrier.wait();
                let s = s?;
                let mut was: BTreeMap<String, u64> = BTreeMap::new();
                let mut tally: BTreeMap<&'static str, u64> = BTreeMap::new();
                let mut left = 0;
                loop {
                    // one more round after the last build
                    if done.load(Ordering::SeqCst) { left += 1; if left > all.len() { break; } }
                    let id = rr.pick(all).clone();
                    look(&s, &id, bundles, objects, &mut was, &mut tally, &mut rr)?;
                    if rr.chance(1, 12) { for (n, v) in s.refs()? { let t = &names; ensure(t.contains_key(&n) && bundles.contains_key(&v), "a reader sees a name nobody gave", || format!("{n} {v}"))?; } *tally.entry("looks at names").or_default() += 1; }
                    if shared_sql && rr.chance(1, 12) { let texts: BTreeSet<&String> = bundles.values().map(|b| &b.0).collect(); let (l, _, _) = s.list(1000, 1)?; for t in &l { ensure(texts.contains(t), "a reader sees a bundle nobody builds", || t.clone())?; } *tally.entry("looks at the list").or_default() += 1; }
                }
                if let Ok(mut m) = seen.lock() { for (k, v) in tally { *m.entry(k).or_default() += v; } }
                Ok(())
            }));
        }
        hs.into_iter().map(|h| h.join().map_err(|e| e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())).collect()
    });
    for r in results { match r { Ok(r) => r?, Err(e) => return viol("a thread panicked", e) } }
    for (k, v) in seen.into_inner().unwrap_or_default() { x.count(k, v); }
    let (switches, order) = trace.lock().map(|t| (t.switches, crate::rng::hash_str(&format!("{:?}", t.events)))).unwrap_or_default();
    x.count("storage operations interleaved", switches);
    x.count(&format!("runs on {on:?}"), 1);
    x.state(&format!("{order:x}"));
    // afterwards: everything, from a facade of its own
    let s = open(200)?;
    let mut tally = BTreeMap::new();
    for id in &all { x.eval(); let mut was = BTreeMap::from([(id.clone(), 7)]); look(&s, id, &bundles, &objects, &mut was, &mut tally, r)?; }
    for id in bundles.keys() { crate::checks::hist::history_of(x, &s, &bundles, id)?; }
    let got = s.refs()?;
    ensure(got == names, "names differ afterwards", || format!("expected {names:?}\ngot {got:?}"))?;
    if shared_sql {
        let (l, total, _) = s.list(100_000, 1)?;
        let want: BTreeSet<&String> = finals.iter().map(|f| &bundles[f].0).collect();
        ensure(total == want.len() && l.iter().collect::<BTreeSet<_>>() == want && l.len() == want.len(), "the list differs afterwards", || format!("expected {} bundles, got {} of {total}\nmissing {:?}", want.len(), l.len(), want.iter().filter(|t| !l.contains(t)).collect::<Vec<_>>()))?;
    }
    x.sample(|| json!({"store": format!("{on:?}"), "builders": builders, "readers": readers, "switches": switches, "search data shared": shared_sql}));
    drop(s);
    let _ = std::fs::remove_dir_all(&top);
    Ok(())
}
/// One look at one thing: absent, or there and complete; never gone again. Bits of `was`: seen as bundle, object, with dependencies.
fn look(s: &Sys, id: &str, bundles: &Stored, objects: &BTreeMap<String, String>, was: &mut BTreeMap<String, u64>, tally: &mut BTreeMap<&'static str, u64>, r: &mut Rng) -> R {
    let w = was.entry(id.to_string()).or_default();
    let full = *w == 7;
    let mut note = |k: &'static str| *tally.entry(k).or_default() += 1;
    if let Some((want, _)) = bundles.get(id) {
        match s.get(id, false)? {
            Ok((t, _)) => { ensure(t == *want, "a reader sees another bundle", || format!("{id}: {t}\nexpected {want}"))?; *w |= 1; note("bundles seen"); }
            Err(e) => { ensure(*w & 1 == 0, "a bundle is gone", || format!("{id}: {e:?}"))?; note("bundles not yet there"); }
        }
        if full || r.chance(1, 3) { match s.get(id, true)? { Ok((t, deps)) => { ensure(t == *want, "a reader sees another bundle", || format!("{id}: {t}"))?; for d in &deps { let v: Value = serde_json::from_str(d).unwrap_or_default(); let did = v["d"].as_str().unwrap_or_default().to_string(); ensure(bundles.get(&did).is_some_and(|b| b.0 == *d), "a reader sees another bundle", || d.clone())?; } } Err(_) => {} } }
        // a history is whole or not there: it is written before the bundle is
        if full || r.chance(1, 3) {
            match s.steps(id)? {
                Ok(st) => { let ids = st.iter().map(|s| id_of(&s.result)).collect::<Result<Vec<_>, _>>()?; ensure(ids.last().map(|l| l.as_str()) == Some(id), "a reader sees another history", || format!("{id}: {ids:?}"))?; for q in &st { let t = encode(&q.result)?; let d = id_of(&q.result)?; ensure(bundles.get(&d).is_some_and(|b| b.0 == t), "a reader sees another history", || t.clone())?; } *w |= 4; note("histories seen"); }
                Err(e) => { ensure(*w & 4 == 0, "a history is gone", || format!("{id}: {e:?}"))?; note("histories not yet there"); }
            }
        }
    }
    if let Some(want) = objects.get(id) {
        match s.object(id)? {
            Ok((_, t)) => { ensure(t == *want, "a reader sees another object", || format!("{id}: {t}\nexpected {want}"))?; *w |= 2; note("objects seen"); }
            Err(e) => { ensure(*w & 2 == 0, "an object is gone", || format!("{id}: {e:?}"))?; note("objects not yet there"); }
        }
    }
    Ok(())
}
