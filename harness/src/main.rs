#![allow(dead_code)]
mod body;
mod checks;
mod cli;
mod dates;
mod engine;
mod h1gen;
mod h2;
mod h2peer;
mod h2ref;
mod h2wire;
mod huff;
mod refh1;
mod reqgen;
mod respgen;
mod sim;
mod src;
mod srv;
mod wire;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut id = String::new();
    let mut tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let mut seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut cases = None;
    let mut replay = None;
    let mut evidence = true;
    let mut verif = "/verif".to_string();
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--tier" => { tier = args[i + 1].clone(); i += 1; }
            "--seed" => { seed = args[i + 1].parse().expect("seed"); i += 1; }
            "--cases" => { cases = Some(args[i + 1].parse().expect("cases")); i += 1; }
            "--replay" => { replay = Some(args[i + 1].clone()); i += 1; }
            "--verif" => { verif = args[i + 1].clone(); i += 1; }
            "--no-evidence" => evidence = false,
            "--list" => {
                for d in checks::all() { println!("{}", d.id); }
                return;
            }
            x => id = x.to_string(),
        }
        i += 1;
    }
    let Some(def) = checks::all().into_iter().find(|d| d.id == id) else {
        eprintln!("ERROR unknown property {id}");
        std::process::exit(2);
    };
    engine::install_panic_hook();
    if let Some(f) = replay {
        let t = std::fs::read_to_string(&f).expect("replay file");
        let v: serde_json::Value = serde_json::from_str(&t).expect("replay json");
        let data = engine::unhex(v["choices_hex"].as_str().expect("choices_hex"));
        let mut cx = engine::Cx { want_desc: true, ..Default::default() };
        let r = engine::exec_case(&def, &data, &mut cx);
        println!("case: {}", cx.desc);
        match r {
            engine::Verdict::Ok => println!("replay passes"),
            engine::Verdict::Fail(f2) => {
                println!("failure: [{}] {}", f2.sig, f2.msg);
                println!("VIOLATION property={} replay={}", def.id, f);
                std::process::exit(1);
            }
            engine::Verdict::HarnessBug(m) => {
                eprintln!("ERROR {m}");
                std::process::exit(3);
            }
        }
        return;
    }
    let o = engine::Opts { tier, seed, cases, verif, level: "exploration", evidence };
    let r = engine::run_check(&def, &o);
    std::process::exit(r.exit);
}
