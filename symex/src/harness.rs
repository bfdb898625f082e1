//! Command line driver shared by the per-property binaries.
//!   <bin> list
//!   <bin> dump OUTDIR MAXPATHS MAXDECISIONS [filter]
//!   <bin> replay SCENARIO VALUES   (lines "name value"), exit 3 = obligation fails
//!   <bin> values SCENARIO VALUES   prints "name got want" for every obligation
use crate::env::{Native, NumEnv, SymEnv};
use crate::sym::*;
use std::collections::HashMap;
use std::fmt::Write as _;

pub struct Scenario {
    pub name: String,
    /// `core` scenarios must be decided for the check to succeed.
    pub core: bool,
    /// decided over floating-point classes instead of real numbers
    pub fp: bool,
    pub sym: Box<dyn Fn(&mut SymEnv)>,
    pub f64: Box<dyn Fn(&mut NumEnv<Native>)>,
}

/// The scenario again, over arbitrary floating-point contents (NaN and infinities included).
pub fn any(s: Scenario, c: crate::env::Contents) -> Scenario {
    let Scenario { name, core, sym, f64, .. } = s;
    Scenario {
        name: format!("any contents: {name}"),
        core,
        fp: true,
        sym: Box::new(move |e| crate::env::contents(c, || sym(e))),
        f64: Box::new(move |e| crate::env::contents(c, || f64(e))),
    }
}

/// The scenarios, and those chosen again over arbitrary contents.
pub fn also_any(base: fn() -> Vec<Scenario>, c: crate::env::Contents, choose: fn(&str) -> bool) -> Vec<Scenario> {
    let mut v = base();
    v.extend(base().into_iter().filter(|s| !s.fp && choose(&s.name)).map(|s| any(s, c)));
    v
}
/// Up to `n` states, nothing fixed and not a long run?
pub fn small(name: &str, n: usize) -> bool {
    let dim = name.split_once("n=").and_then(|(_, r)| r.split(' ').next()?.parse::<usize>().ok());
    dim.map_or(false, |d| d <= n) && !name.starts_with("wide") && !name.starts_with("long") && !name.starts_with("huge")
}

#[macro_export]
macro_rules! scen {
    ($v:ident, core, $name:expr, |$e:ident| $b:expr) => { $crate::scen!(@ $v, true, $name, $e, $b) };
    ($v:ident, extra, $name:expr, |$e:ident| $b:expr) => { $crate::scen!(@ $v, false, $name, $e, $b) };
    ($v:ident, core, $name:expr, clone($w:ident) |$e:ident| $b:expr) => {
        $v.push($crate::harness::Scenario {
            name: ($name).to_string(),
            core: true,
            fp: false,
            sym: { let $w = $w.clone(); Box::new(move |$e: &mut $crate::env::SymEnv| $b) },
            f64: { let $w = $w.clone(); Box::new(move |$e: &mut $crate::env::NumEnv<$crate::env::Native>| $b) },
        })
    };
    (@ $v:ident, $core:expr, $name:expr, $e:ident, $b:expr) => {
        $v.push($crate::harness::Scenario {
            name: ($name).to_string(),
            core: $core,
            fp: false,
            sym: Box::new(|$e: &mut $crate::env::SymEnv| $b),
            f64: Box::new(|$e: &mut $crate::env::NumEnv<$crate::env::Native>| $b),
        })
    };
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

fn dump(sc: &Scenario, max_paths: usize, max_dec: usize, deadline: Option<std::time::Instant>) -> String {
    reset_all();
    ST.with(|s| {
        let mut s = s.borrow_mut();
        s.fp = sc.fp;
        s.deadline = deadline;
    });
    let (paths, complete) = explore(
        || {
            let mut e = SymEnv;
            (sc.sym)(&mut e)
        },
        max_paths,
        max_dec,
    );
    let mut o = String::new();
    write!(o, "{{\"name\":\"{}\",\"fp\":{},\"core\":{},\"complete\":{},\"nodes\":[", esc(&sc.name), sc.fp, sc.core, complete).unwrap();
    ST.with(|s| {
        let s = s.borrow();
        for (i, n) in s.nodes.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            match n {
                Node::Const(a, b) => write!(o, "[\"c\",\"{a}\",\"{b}\"]"),
                Node::Var(v) => write!(o, "[\"v\",\"{}\"]", esc(v)),
                Node::Add(a, b) => write!(o, "[\"+\",{a},{b}]"),
                Node::Sub(a, b) => write!(o, "[\"-\",{a},{b}]"),
                Node::Mul(a, b) => write!(o, "[\"*\",{a},{b}]"),
                Node::Div(a, b) => write!(o, "[\"/\",{a},{b}]"),
                Node::Neg(a) => write!(o, "[\"n\",{a}]"),
                Node::Sqrt(a) => write!(o, "[\"s\",{a}]"),
            }
            .unwrap();
        }
        write!(o, "],\"ops\":{},\"paths\":[", s.ops).unwrap();
    });
    for (i, p) in paths.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        let pn = match &p.panic {
            None => "null".to_string(),
            Some(m) => format!("\"{}\"", esc(m)),
        };
        write!(o, "{{\"panic\":{pn},\"events\":[").unwrap();
        for (k, e) in p.events.iter().enumerate() {
            if k > 0 {
                o.push(',');
            }
            match e {
                Event::Cond(op, a, b, t) => write!(o, "[\"C\",\"{op}\",{a},{b},{t}]"),
                Event::Rel(a, b, m) => write!(o, "[\"R\",{a},{b},{m}]"),
                Event::Assume(op, a, b) => write!(o, "[\"A\",\"{op}\",{a},{b}]"),
                Event::Oblig(n, op, a, b) => write!(o, "[\"O\",\"{op}\",{a},{b},\"{}\"]", esc(n)),
                Event::Fact(n, h) => write!(o, "[\"F\",{h},\"{}\"]", esc(n)),
                Event::Given(op, a, n, d) => write!(o, "[\"G\",\"{op}\",{a},{n},{d}]"),
                Event::Within(n, a, b, t) => write!(o, "[\"W\",{a},{b},{t},\"{}\"]", esc(n)),
                Event::Small(n, d, t) => write!(o, "[\"S\",{d},{t},\"{}\"]", esc(n)),
                Event::Alias(v, a) => write!(o, "[\"L\",{v},{a}]"),
                Event::Terms(n, g, t, k) => write!(o, "[\"T\",{g},{t:?},{k},\"{}\"]", esc(n)),
                Event::Resid(n, g, d, t, k) => write!(o, "[\"E\",{g},{d},{t:?},{k},\"{}\"]", esc(n)),
                Event::Op(a) => write!(o, "[\"R\",{a}]"),
                Event::Abs(v, a) => write!(o, "[\"B\",{v},{a}]"),
            }
            .unwrap();
        }
        o.push_str("]}");
    }
    o.push_str("]}\n");
    o
}

pub fn main_for(scenarios: Vec<Scenario>) {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for s in &scenarios {
                println!("{}", s.name);
            }
        }
        Some("dump") => {
            let dir = &args[2];
            let mp: usize = args[3].parse().unwrap();
            let md: usize = args[4].parse().unwrap();
            let filt = args.get(5).cloned().unwrap_or_default();
            // this process' share, and limits in seconds for one scenario and for all
            let number = |k: &str| std::env::var(k).ok().and_then(|v| v.parse::<u64>().ok());
            let (shard, shards) = (number("SYMEX_SHARD").unwrap_or(0), number("SYMEX_SHARDS").unwrap_or(1));
            let start = std::time::Instant::now();
            let after = |s: u64| std::time::Duration::from_secs(s);
            let end = number("SYMEX_TOTAL_S").map(|s| start + after(s));
            for (i, s) in scenarios.iter().enumerate() {
                if !s.name.contains(&filt) || i as u64 % shards != shard {
                    continue;
                }
                let one = number("SYMEX_SCENARIO_S").map(|s| std::time::Instant::now() + after(s));
                let deadline = match (one, end) {
                    (Some(a), Some(b)) => Some(a.min(b)),
                    (a, b) => a.or(b),
                };
                let j = dump(s, mp, md, deadline);
                std::fs::write(format!("{dir}/{i:04}.json"), j).unwrap();
            }
        }
        // candidate inputs separated by "---"; prints the number of the first one that fails
        Some("search") => {
            let s = scenarios.iter().find(|s| s.name == args[2]).expect("scenario");
            let txt = std::fs::read_to_string(&args[3]).unwrap();
            let mut used = 0;
            for (k, part) in txt.split("---\n").enumerate() {
                let mut vals: HashMap<String, f64> = HashMap::new();
                for l in part.lines() {
                    if let Some((n, v)) = l.rsplit_once(' ') {
                        vals.insert(n.to_string(), v.trim().parse().unwrap());
                    }
                }
                let mut e = NumEnv::<Native>::native(vals);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (s.f64)(&mut e)));
                if !e.assumptions.is_empty() {
                    continue;
                }
                used += 1;
                if r.is_err() || !e.failed.is_empty() {
                    println!("{k}");
                    return;
                }
            }
            println!("none {used}");
        }
        Some("replay") | Some("values") => {
            let mode = args[1].as_str();
            let name = &args[2];
            let txt = std::fs::read_to_string(&args[3]).unwrap();
            let mut vals: HashMap<String, f64> = HashMap::new();
            for l in txt.lines() {
                if l.starts_with('#') {
                    continue;
                }
                if let Some((k, v)) = l.rsplit_once(' ') {
                    vals.insert(k.to_string(), v.trim().parse().unwrap());
                }
            }
            let s = match scenarios.iter().find(|s| &s.name == name) {
                Some(s) => s,
                None => {
                    println!("no such scenario");
                    std::process::exit(4);
                }
            };
            let mut e = NumEnv::<Native>::native(vals);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (s.f64)(&mut e)));
            let (failed, checked, results) = (e.failed, e.checked, e.results);
            if !e.assumptions.is_empty() {
                println!("the inputs violate the assumptions: {:?}", e.assumptions);
                std::process::exit(5);
            }
            if mode == "values" {
                for (n, g, w) in results {
                    println!("{n} {g:e} {w:e}");
                }
                return;
            }
            if let Err(p) = r {
                let m = p
                    .downcast_ref::<&str>()
                    .map(|s| s.to_string())
                    .or_else(|| p.downcast_ref::<String>().cloned())
                    .unwrap_or_default();
                println!("FAIL panic: {m}");
                std::process::exit(3);
            }
            for f in &failed {
                println!("FAIL {f}");
            }
            println!("checked {checked} failed {}", failed.len());
            if !failed.is_empty() {
                std::process::exit(3);
            }
        }
        _ => {
            eprintln!("usage: list | dump | replay");
            std::process::exit(2);
        }
    }
}
