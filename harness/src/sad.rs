//! Independent recomputation of self-addressing identifiers (Blake3-256, CESR code "E").
use serde_json::Value;

/// CESR text form of a Blake3-256 digest of `data`.
pub fn digest(data: &[u8]) -> String {
    let h = blake3::hash(data);
    let mut v = vec![0u8];
    v.extend_from_slice(h.as_bytes());
    let mut s = base64::encode_config(&v, base64::URL_SAFE_NO_PAD);
    s.replace_range(0..1, "E");
    s
}

/// Checks that top-level field `d` of the JSON text is the digest of the text with `d` blanked.
/// The text is used as it is (no re-serialization), so this works for any field order.
pub fn check_d(text: &str) -> Result<String, String> {
    let v: Value = serde_json::from_str(text).map_err(|e| format!("not JSON: {e}"))?;
    let d = v.get("d").and_then(|d| d.as_str()).ok_or("no string field d")?.to_string();
    if d.len() != 44 {
        return Err(format!("identifier {d:?} is not 44 characters"));
    }
    // the top-level `d` is the first occurrence of "d":"<said>" at depth 1
    let needle = format!("\"d\":\"{d}\"");
    let pos = top_level_pos(text, &needle).ok_or("cannot locate top-level d")?;
    let mut blank = text.to_string();
    blank.replace_range(pos + 5..pos + 5 + 44, &"#".repeat(44));
    let got = digest(blank.as_bytes());
    if got != d {
        return Err(format!("identifier {d} but digest of content is {got}"));
    }
    Ok(d)
}

fn top_level_pos(text: &str, needle: &str) -> Option<usize> {
    let b = text.as_bytes();
    let (mut depth, mut i, mut in_str) = (0i32, 0usize, false);
    while i < b.len() {
        let c = b[i];
        if in_str {
            if c == b'\\' { i += 2; continue; }
            if c == b'"' { in_str = false; }
        } else {
            match c {
                b'"' => {
                    if depth == 1 && text[i..].starts_with(needle) { return Some(i); }
                    in_str = true;
                }
                b'{' | b'[' => depth += 1,
                b'}' | b']' => depth -= 1,
                _ => {}
            }
        }
        i += 1;
    }
    None
}

/// Checks the version string: "<proto><maj><min>JSON<6 hex length>_".
pub fn check_version(text: &str, proto: &str) -> Result<(), String> {
    let v: Value = serde_json::from_str(text).map_err(|e| format!("not JSON: {e}"))?;
    let s = v.get("v").and_then(|d| d.as_str()).ok_or("no version string")?;
    let want = format!("{proto}JSON{:06x}_", text.len());
    if s != want {
        return Err(format!("version string {s:?}, expected {want:?}"));
    }
    Ok(())
}

/// Splits the raw JSON text of an object into its top-level members (key, raw value text).
pub fn members(text: &str) -> Option<Vec<(String, String)>> {
    let v: serde_json::Map<String, Value> = match serde_json::from_str(text) { Ok(Value::Object(m)) => m, _ => return None };
    // raw slices through RawValue-like scanning
    let b = text.as_bytes();
    let mut out = vec![];
    let mut i = 1;
    loop {
        while i < b.len() && (b[i] == b',' || b[i].is_ascii_whitespace()) { i += 1; }
        if i >= b.len() || b[i] == b'}' { break; }
        let ks = i;
        i = skip_value(b, i)?;
        let key: String = serde_json::from_str(&text[ks..i]).ok()?;
        while b[i] != b':' { i += 1; }
        i += 1;
        let vs = i;
        i = skip_value(b, i)?;
        out.push((key, text[vs..i].to_string()));
    }
    if out.len() != v.len() { return None; }
    Some(out)
}
/// Splits the raw JSON text of an array into raw element texts.
pub fn elements(text: &str) -> Option<Vec<String>> {
    let b = text.as_bytes();
    if b.first() != Some(&b'[') { return None; }
    let mut out = vec![];
    let mut i = 1;
    loop {
        while i < b.len() && (b[i] == b',' || b[i].is_ascii_whitespace()) { i += 1; }
        if i >= b.len() || b[i] == b']' { break; }
        let s = i;
        i = skip_value(b, i)?;
        out.push(text[s..i].to_string());
    }
    Some(out)
}
fn skip_value(b: &[u8], mut i: usize) -> Option<usize> {
    let (mut depth, mut in_str) = (0i32, false);
    let start = i;
    while i < b.len() {
        let c = b[i];
        if in_str {
            if c == b'\\' { i += 2; continue; }
            if c == b'"' { in_str = false; if depth == 0 { return Some(i + 1); } }
        } else {
            match c {
                b'"' => in_str = true,
                b'{' | b'[' => depth += 1,
                b'}' | b']' => { if depth == 0 { return if i > start { Some(i) } else { None }; } depth -= 1; if depth == 0 { return Some(i + 1); } }
                b',' | b':' if depth == 0 => return Some(i),
                _ => {}
            }
        }
        i += 1;
    }
    None
}

/// Full structural check of an encoded bundle (property C06). Returns
/// (bundle id, capture base id, [(kind, overlay id, raw overlay text)]).
pub struct BundleIds { pub said: String, pub cb: String, pub cb_text: String, pub overlays: Vec<(String, String, String)> }
pub fn check_bundle(text: &str) -> Result<BundleIds, String> {
    check_version(text, "OCAS11").map_err(|e| format!("version: {e}"))?;
    let said = check_d(text).map_err(|e| format!("bundle: {e}"))?;
    let m = members(text).ok_or("bundle is not a plain object")?;
    let get = |k: &str| m.iter().find(|(n, _)| n == k).map(|(_, v)| v.clone());
    let cb_text = get("capture_base").ok_or("no capture_base")?;
    let cb = check_d(&cb_text).map_err(|e| format!("capture base: {e}"))?;
    let mut overlays = vec![];
    for (kind, raw) in members(&get("overlays").ok_or("no overlays")?).ok_or("overlays is not an object")? {
        let texts = if raw.starts_with('[') { elements(&raw).ok_or("bad overlay array")? } else { vec![raw] };
        for t in texts {
            let d = check_d(&t).map_err(|e| format!("overlay {kind}: {e}"))?;
            let v: Value = serde_json::from_str(&t).map_err(|e| e.to_string())?;
            let ocb = v.get("capture_base").and_then(|x| x.as_str()).unwrap_or("");
            if ocb != cb {
                return Err(format!("overlay {kind} {d} names capture base {ocb:?}, bundle has {cb}"));
            }
            // attribute mappings are listed under a longer name than that of their type
            let want = format!("spec/overlays/{}/1.1", if kind == "attribute_mapping" { "mapping" } else { &kind });
            let ty = v.get("type").and_then(|x| x.as_str()).unwrap_or("");
            if ty != want {
                return Err(format!("overlay {d} under {kind} has type {ty:?}"));
            }
            overlays.push((kind.clone(), d, t));
        }
    }
    Ok(BundleIds { said, cb, cb_text, overlays })
}

fn blank_and_fill(v: &mut Value) {
    v["d"] = Value::from("#".repeat(44));
    let d = digest(v.to_string().as_bytes());
    v["d"] = Value::from(d);
}
/// Makes the identifiers and the length of an encoded bundle again, innermost first (member order is kept;
/// overlays of one kind are kept in the order of their identifiers).
pub fn seal(v: &mut Value) {
    blank_and_fill(&mut v["capture_base"]);
    let cb = v["capture_base"]["d"].clone();
    if let Some(m) = v["overlays"].as_object_mut() {
        for o in m.values_mut() {
            let mut one = |o: &mut Value| { o["capture_base"] = cb.clone(); blank_and_fill(o); };
            match o { Value::Array(a) => { a.iter_mut().for_each(&mut one); a.sort_by_key(|o| o["d"].to_string()); } o => one(o) }
        }
    }
    v["d"] = Value::from("#".repeat(44));
    let n = v.to_string().len();
    v["v"] = Value::from(format!("OCAS11JSON{n:06x}_"));
    blank_and_fill(v);
}
