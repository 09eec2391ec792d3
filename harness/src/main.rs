//! Native side of the contracts: concrete evaluation on the real code.
//!   vh list
//!   vh search <seed> <iterations> [contract]   corner cases + pseudo-random
//!   vh replay <contract> <hex>,<hex>,...       one input
#[cfg(not(kani))]
fn main() {
    use std::panic::{catch_unwind, AssertUnwindSafe};
    use vh::src::{Res, N};
    std::panic::set_hook(Box::new(|_| {}));
    let table: Vec<(&'static str, fn(&mut N) -> Res)> = vh::table();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let eval = |f: fn(&mut N) -> Res, n: &mut N| -> Result<Res, String> {
        catch_unwind(AssertUnwindSafe(|| f(n))).map_err(|e| {
            if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".to_string()
            }
        })
    };
    let hex = |n: &N| n.drawn.iter().map(|v| v.iter().map(|b| format!("{b:02x}")).collect::<String>()).collect::<Vec<_>>().join(",");
    let report = |name: &str, verdict: &str, msg: &str, n: &N, tried: u64, kept: u64, distinct: usize| {
        println!(
            "{}",
            format!("{{\"contract\": {:?}, \"verdict\": {:?}, \"message\": \"{}\", \"input\": {:?}, \"evaluations\": {tried}, \"in_contract\": {kept}, \"distinct\": {distinct}}}",
                name, verdict, msg.chars().map(|c| if c == '"' || c == '\\' || c.is_control() { '\'' } else { c }).collect::<String>(), hex(n))
        );
    };
    match args.first().map(|s| s.as_str()) {
        Some("list") => {
            for (n, _) in table {
                println!("{n}");
            }
        }
        Some("search") => {
            let seed: u64 = args[1].parse().unwrap();
            let iters: u64 = args[2].parse().unwrap();
            let budget = std::time::Duration::from_secs_f64(args.get(4).and_then(|s| s.parse().ok()).unwrap_or(60.0));
            for (name, f) in table {
                if let Some(only) = args.get(3) {
                    if only != "-" && only != name {
                        continue;
                    }
                }
                let start = std::time::Instant::now();
                let (mut tried, mut kept) = (0u64, 0u64);
                let mut seen = std::collections::HashSet::new();
                let mut sample = N::replay(vec![]);
                let mut done = false;
                for i in 0..iters {
                    if i % 64 == 0 && start.elapsed() > budget {
                        break;
                    }
                    let mut n = N::random(seed.wrapping_mul(1_000_003).wrapping_add(i));
                    tried += 1;
                    match eval(f, &mut n) {
                        Ok(Res::Discard) => {}
                        Ok(Res::Ok) => {
                            kept += 1;
                            use std::hash::{Hash, Hasher};
                            let mut h = std::collections::hash_map::DefaultHasher::new();
                            n.drawn.hash(&mut h);
                            seen.insert(h.finish());
                            sample = n;
                        }
                        Ok(Res::Fail(m)) => {
                            report(name, "fail", m, &n, tried, kept, seen.len());
                            done = true;
                            break;
                        }
                        Err(m) => {
                            let v = if m.contains("outside contract") { "undecided" } else { "fail" };
                            report(name, v, &format!("panicked: {m}"), &n, tried, kept, seen.len());
                            done = true;
                            break;
                        }
                    }
                }
                if !done {
                    report(name, "ok", "", &sample, tried, kept, seen.len());
                }
            }
        }
        Some("replay") => {
            let vals: Vec<Vec<u8>> = args.get(2).map(|s| s.as_str()).unwrap_or("").split(',').filter(|s| !s.is_empty())
                .map(|h| (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect())
                .collect();
            let f = table.iter().find(|(n, _)| *n == args[1]).expect("no such contract").1;
            let mut n = N::replay(vals);
            let (v, m) = match eval(f, &mut n) {
                Ok(Res::Ok) => ("ok", String::new()),
                Ok(Res::Discard) => ("discard", String::new()),
                Ok(Res::Fail(m)) => ("fail", m.to_string()),
                Err(m) if m.contains("outside contract") => ("undecided", m),
                Err(m) => ("fail", format!("panicked: {m}")),
            };
            report(&args[1], v, &m, &n, 1, 1, 1);
        }
        _ => eprintln!("usage: vh list | search SEED N [CONTRACT] [SECONDS] | replay CONTRACT HEX"),
    }
}
#[cfg(kani)]
fn main() {}
