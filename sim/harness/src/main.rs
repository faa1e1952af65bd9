mod actors;
mod check;
mod ctx;
mod families;
mod flat;
mod oracle;
mod plan;
mod procs;
mod rng;
mod rt;
mod threads;
mod wire;

fn main() {
    // panics of simulated processes are recorded, not printed
    if std::env::var("SIM_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let a: Vec<String> = std::env::args().skip(1).collect();
    let get = |k: &str, d: &str| -> String {
        a.iter()
            .position(|x| x == k)
            .and_then(|i| a.get(i + 1).cloned())
            .unwrap_or_else(|| d.to_string())
    };
    let dir = get("--dir", "/verif");
    let jobs: usize = get("--jobs", "8").parse().expect("jobs");
    let seed: u64 = get("--seed", "1").parse().expect("seed");
    if matches!(a.first().map(|s| s.as_str()), Some("check") | Some("replay") | Some("try") | Some("sequence")) {
        check::death::watch();
    }
    let code = match a.first().map(|s| s.as_str()) {
        Some("check") => {
            let prop = a[1].clone();
            assert!(check::PROPS.contains(&prop.as_str()), "unknown property");
            check::check(&check::Opts {
                prop,
                tier: get("--tier", "quick"),
                seed,
                secs: get("--secs", "30").parse().expect("secs"),
                max_runs: get("--runs", "100000000").parse().expect("runs"),
                jobs,
                dir,
            })
        }
        Some("replay") => check::replay(&a[1]),
        Some("try") => check::try_file(&a[1]),
        Some("sequence") => check::sequence(&a[1], seed, get("--secs", "60").parse().unwrap()),
        Some("survey") => {
            let f = families::FAMILIES.iter().find(|f| **f == a[1]).expect("family");
            let only = get("--only", "");
            let only = if only.is_empty() { None } else { Some(only.as_str()) };
            check::survey(f, seed, get("--runs", "200").parse().unwrap(), jobs, only);
            0
        }
        Some("one") => {
            let mut p = families::make(&a[1], a[2].parse().unwrap());
            p.limit = get("--limit", &u64::MAX.to_string()).parse().unwrap();
            if a.iter().any(|x| x == "--plan") {
                println!("{}", serde_json::to_string_pretty(&p).unwrap());
            }
            match check::run(std::sync::Arc::new(p), true) {
                Err(e) => println!("harness error {}", e),
                Ok(f) => {
                    for l in &f.run.lines {
                        println!("{}", l);
                    }
                    for v in oracle::judge(&f) {
                        println!("{} {}", v.prop, v.msg);
                    }
                }
            }
            0
        }
        Some("determinism") => check::determinism(seed, get("--runs", "40").parse().unwrap()),
        _ => {
            eprintln!("usage: harness check <property> | replay <file> | survey <family> | one <family> <seed> | determinism");
            2
        }
    };
    // worker threads of abandoned runs must not delay the end
    std::process::exit(code);
}
