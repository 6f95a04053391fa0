mod alloc;
mod builds;
mod core;
mod faults;
mod ink;
mod lists;
mod loaders;
mod play;
mod tool;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    let prop = args.get(1).cloned().unwrap_or_default();
    let seed = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = get("--tier").as_deref() == Some("thorough");
    let budget = get("--budget").and_then(|s| s.parse().ok()).unwrap_or(60.0);
    let mut r = core::Report::new(&prop, seed, thorough, budget, get("--only"));
    if let Some(s) = get("--shard") {
        let mut it = s.split('/').filter_map(|x| x.parse().ok());
        if let (Some(i), Some(n)) = (it.next(), it.next()) {
            *core::SHARD.lock().unwrap() = (i, n);
        }
    }
    *tool::TOOL.lock().unwrap() = get("--tool");
    builds::OTHERS.lock().unwrap().extend(get("--other"));
    let of = get("--of").unwrap_or_default();
    core::start_watchdog(get("--hang").and_then(|s| s.parse().ok()).unwrap_or(60_000), get("--case-file"));
    // Deep stories recurse: what they need must not depend on the shell's limits
    let worker = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
        let seed = r.seed;
        loop {
            r.seed = seed.wrapping_add(r.round * 1_000_003);
            match prop.as_str() {
                "C04" => faults::c04(&mut r),
                "C12" => faults::c12(&mut r),
                "C14" => loaders::c14(&mut r),
                "C15" => loaders::c15(&mut r),
                "C20" => tool::c20(&mut r),
                "lines" => {
                    builds::print_lines(&of, seed, r.thorough);
                    std::process::exit(0);
                }
                "C02" => play::c02(&mut r),
                "C03" => play::c03(&mut r),
                "C07" => lists::c07(&mut r),
                "C08" => play::c08(&mut r),
                "C09" => play::c09(&mut r),
                "C10" => play::c10(&mut r),
                "C11" => play::c11(&mut r),
                "C13" => play::c13(&mut r),
                "C16" => play::c16(&mut r),
                "C17" => play::c17(&mut r),
                "C18" => play::c18(&mut r),
                "C19" => play::c19(&mut r),
                "gen" => {
                    let (mut ok, mut bad) = (0, 0);
                    for i in 0..200 {
                        for (w, e) in [(0, false), (0, true), (10, true)] {
                            let src = ink::random_source(seed * 1000 + i, w, e);
                            match play::compile("g.ink", &src) {
                                Ok(_) => ok += 1,
                                Err(m) => {
                                    bad += 1;
                                    println!("{i} {w} {e} {m}");
                                }
                            }
                        }
                    }
                    println!("{ok} {bad}");
                    println!("{}", ink::random_source(seed * 1000, 0, true));
                    std::process::exit(0);
                }
                "source" => {
                    println!("{}", ink::random_source(seed, if thorough { 10 } else { 0 }, of == "ext"));
                    std::process::exit(0);
                }
                "digest" => {
                    println!("{}", play::digest(&r));
                    std::process::exit(0);
                }
                _ => {
                    eprintln!("no such check: {prop}");
                    std::process::exit(2);
                }
            }
            r.round += 1;
            if r.past(0.85) || r.only.is_some() || r.evals == 0 {
                break;
            }
        }
        r.seed = seed;
        r
    });
    let r = match worker.map(|w| w.join()) {
        Ok(Ok(r)) => r,
        _ => std::process::exit(2),
    };
    let out = r.finish();
    match get("--out") {
        Some(f) => std::fs::write(f, out.to_string()).unwrap_or_else(|_| std::process::exit(2)),
        None => println!("{out:#}"),
    }
    std::process::exit(if r.failures.is_empty() { 0 } else { 1 });
}
