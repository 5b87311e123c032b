mod checks;
mod decode;
mod gen;
mod model;
mod render;
mod rng;
mod run;
mod sad;
mod store;
mod sys;
mod tr;
mod world;

fn find(id: &str) -> run::Check {
    match checks::all().into_iter().find(|c| c.id == id) { Some(c) => c, None => { eprintln!("no check {id}"); std::process::exit(2) } }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let n = |i: usize| a.get(i).and_then(|s| s.parse::<u64>().ok());
    match a.get(1).map(|s| s.as_str()) {
        Some("check") if a.len() > 2 => std::process::exit(run::check(&find(&a[2]))),
        Some("worker") if a.len() > 10 => run::worker(&find(&a[2]), run::Args { id: a[2].clone(), shard: n(3).unwrap_or(0), n: n(4).unwrap_or(1).max(1), seed: n(5).unwrap_or(1), thorough: a[6] == "thorough", out: a[7].clone().into(), from: n(8).unwrap_or(0), only: n(9), secs: n(10).unwrap_or(300), hang: n(11).unwrap_or(60) }),
        Some("replay") if a.len() > 3 => run::replay(&find(&a[2]), n(3).unwrap_or(0)),
        Some("try") if a.len() > 2 => attempt(&a[2..]),
        Some("crash") if a.len() > 7 => { run::install_hook(); std::process::exit(checks::backends::crash_child(&a[2..])) }
        Some("list") => for c in checks::all() { println!("{}", c.id); },
        _ => { eprintln!("usage: ocav check ID | replay ID CASE | list"); std::process::exit(2) }
    }
}

/// Builds files one after another in one facade, printing what comes out.
fn attempt(files: &[String]) {
    run::install_hook();
    let mut s = sys::Sys::new();
    for f in files {
        let text = std::fs::read_to_string(f).unwrap_or_default();
        let show = |r: Result<String, run::Stop>| match r { Ok(t) => println!("{t}"), Err(run::Stop::Viol { key, what }) => println!("[{key}] {what}"), Err(_) => println!("skip") };
        show(s.build(&text).and_then(|r| match r { Ok(b) => sys::encode(&b), Err(e) => Ok(sys::show_err(&e)) }));
    }
}
