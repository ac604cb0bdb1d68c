mod core;
mod props;
mod ws;
mod h2;
mod hpack;
mod http;
mod url;
use crate::core::*;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || (c as u32) > 126 => { let mut b = [0u16; 2]; for u in c.encode_utf16(&mut b) { o.push_str(&format!("\\u{:04x}", u)); } }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn report(out: &Outcome, state: &str, id: &str, seed: u64, tier: &str) {
    let mut s = format!("{{\"property\":{},\"seed\":{},\"tier\":{},\"state\":{},\"evaluations\":{},\"distinct\":{},", js(id), seed, js(tier), js(state), out.evals, out.distinct);
    s.push_str(&format!("\"samples\":[{}],", out.samples.iter().map(|x| js(x)).collect::<Vec<_>>().join(",")));
    s.push_str(&format!("\"suites\":[{}],", out.suites.iter().map(|(n, e, d, a)| format!("{{\"name\":{},\"evaluations\":{},\"distinct\":{},\"exhaustive\":{}}}", js(n), e, d, a)).collect::<Vec<_>>().join(",")));
    s.push_str(&format!("\"fails\":[{}]}}", out.fails.iter().map(|f| format!("{{\"suite\":{},\"idx\":{},\"msg\":{},\"input\":{}}}", js(&f.suite), f.idx, js(&f.msg), js(&f.input))).collect::<Vec<_>>().join(",")));
    println!("{}", s);
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 { eprintln!("usage: vh run ID seed tier [scale] | vh case ID suite idx seed tier | vh list ID"); std::process::exit(2); }
    let props = props::all();
    let p = match props.iter().find(|p| p.id == a[2]) { Some(p) => p, None => { eprintln!("no property {}", a[2]); std::process::exit(2) } };
    match a[1].as_str() {
        "run" => {
            let seed: u64 = a[3].parse().unwrap();
            let tier = a[4].clone();
            let scale: f64 = a.get(5).map(|x| x.parse().unwrap()).unwrap_or(1.0);
            let only = a.get(6).map(|s| s.as_str());
            let id = p.id;
            let t2 = tier.clone();
            let out = run(p, seed, tier == "thorough", scale, only, &|o, st| report(o, st, id, seed, &t2));
            report(&out, "done", p.id, seed, &tier);
            std::process::exit(if out.fails.is_empty() { 0 } else { 1 });
        }
        "case" => {
            let s = p.suites.iter().find(|s| s.name == a[3]).expect("suite");
            let idx: u64 = a[4].parse().unwrap();
            let seed: u64 = a[5].parse().unwrap();
            install_hook();
            let (c, r) = run_one(s, seed, idx, a.get(6).map(|x| x == "thorough").unwrap_or(false), true);
            println!("input: {}", c.desc);
            match r { Ok(()) => println!("HOLDS"), Err(m) => { println!("FAILS: {}", m); std::process::exit(1) } }
        }
        "list" => { for s in &p.suites { println!("{}\t{}", s.name, s.what); } }
        _ => std::process::exit(2),
    }
}
