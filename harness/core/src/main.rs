#![allow(dead_code)]
mod alloc;
mod checks;

#[global_allocator]
static WATCH: alloc::Watch = alloc::Watch;

mod mkdoc;
mod model;
mod mutate;
mod real;
mod refp;
mod rng;
mod run;
#[cfg(feature = "typed")]
mod toval;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = get("--tier").as_deref() == Some("thorough");
    run::quiet_panics();
    // the reports C38 looks at are asked for without colours
    unsafe { std::env::set_var("NO_COLOR", "1") };
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let spec = checks::spec(&a[2]).expect("unknown property");
            let o = run::Opts {
                seed,
                thorough,
                secs: get("--secs").and_then(|s| s.parse().ok()).unwrap_or(40.0),
                jobs: get("--jobs").and_then(|s| s.parse().ok()).unwrap_or(8),
                progress: get("--progress"),
                report: get("--report"),
                scale: get("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0),
            };
            let j = run::run(&spec, &o);
            match &o.report {
                Some(p) => run::write_report(&j, p),
                None => println!("{}", serde_json::to_string_pretty(&j).unwrap()),
            }
        }
        Some("one") => {
            let spec = checks::spec(&a[2]).expect("unknown property");
            let (s, c) = (get("--stream").unwrap(), get("--case").unwrap().parse().unwrap());
            // same stack as the worker threads
            let j = std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || run::run_one(&spec, &s, seed, c, thorough))
                .unwrap()
                .join()
                .unwrap();
            match get("--report") {
                Some(p) => run::write_report(&j, &p),
                None => println!("{}", serde_json::to_string_pretty(&j).unwrap()),
            }
        }
        Some("streams") => {
            let spec = checks::spec(&a[2]).expect("unknown property");
            println!("{}", serde_json::to_string(&spec.streams.iter().map(|s| s.name).collect::<Vec<_>>()).unwrap())
        }
        Some("text") => checks::judge_text(&a[2], &std::fs::read_to_string(&a[3]).unwrap()),
        Some("gen") => checks::export::generate(&a[2..], seed),
        _ => {
            eprintln!("usage: vcore run PROP [--seed N] [--tier T] | one PROP --stream S --case N | text MODE FILE | gen ...");
            std::process::exit(2)
        }
    }
}
