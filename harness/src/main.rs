use std::path::PathBuf;
use vharness::props;
use vharness::run::*;

struct Stderr;

impl log::Log for Stderr {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        eprintln!("{} {}", r.level(), r.args());
    }
    fn flush(&self) {}
}

fn print_symbol(s: &vharness::refqr::Symbol) {
    for row in s.dark.chunks(s.size) {
        println!("{}", row.iter().map(|d| if *d { '#' } else { '.' }).collect::<String>());
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    install_hook();
    if std::env::var("VQ_LOG").is_ok() {
        // what the library logs, for looking into a replay
        log::set_logger(&Stderr).unwrap();
        log::set_max_level(log::LevelFilter::Trace);
    }
    let get = |name: &str| {
        args.iter()
            .position(|a| a == name)
            .and_then(|i| args.get(i + 1))
            .cloned()
    };
    let verif = PathBuf::from(get("--verif").unwrap_or_else(|| "/verif".into()));
    let code = match args.first().map(|s| s.as_str()) {
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id());
            }
            0
        }
        Some("check") | Some("dump") => {
            let id = args.get(1).cloned().unwrap_or_default();
            let tier = match get("--tier")
                .or_else(|| std::env::var("VERIF_TIER").ok())
                .as_deref()
            {
                Some("thorough") => Tier::Thorough,
                _ => Tier::Quick,
            };
            let seed = get("--seed")
                .or_else(|| std::env::var("VERIF_SEED").ok())
                .and_then(|s| s.parse().ok())
                .unwrap_or(1);
            let o = Opts {
                tier,
                seed,
                verif,
                limit: get("--cases").and_then(|s| s.parse().ok()),
                start: get("--start").and_then(|s| s.parse().ok()).unwrap_or(0),
                survey: args.iter().any(|a| a == "--survey"),
                quiet: args.iter().any(|a| a == "--quiet"),
            };
            match props::all().iter().find(|p| p.id() == id) {
                Some(p) if args[0] == "dump" => {
                    println!("{}", p.dump(o.start, &o));
                    0
                }
                Some(p) if std::env::var_os("VQ_MARKS").is_none() && !o.survey => supervise(p.as_ref(), &o),
                Some(p) => p.run(&o),
                None => {
                    eprintln!("unknown property {id}");
                    3
                }
            }
        }
        Some("symbol") => {
            // symbol VERSION LEVEL MASK MODE TEXT: the modules of a symbol as text
            let v: usize = args[1].parse().unwrap();
            let l = vharness::refqr::LEVELS["LMQH".find(&args[2]).unwrap()];
            let t = args[5].as_bytes();
            let mask = args[3].parse().unwrap();
            if args[4] == "bits" {
                let mut b = vharness::refqr::Bits::default();
                t.iter().for_each(|c| b.push(u32::from(c - b'0'), 1));
                let mut d = vharness::refqr::pack(&b);
                d.resize(vharness::refqr::data_codewords(v, l), 0);
                let s = vharness::refqr::Symbol::from_data(&d, v, l, mask);
                print_symbol(&s);
                return;
            }
            let seg = match args[4].as_str() {
                "num" => vharness::refqr::Seg::Num(t.iter().map(|c| c - b'0').collect()),
                _ => vharness::refqr::Seg::Byte(t.to_vec()),
            };
            let s = vharness::refqr::Symbol::from_segs(&[seg], v, l, mask);
            print_symbol(&s);
            0
        }
        Some("selftest") => match vharness::selftest::run() {
            Ok(()) => 0,
            Err(e) => {
                eprintln!("{e}");
                3
            }
        },
        Some("elsewhere") => props::pipeline::elsewhere(),
        Some("log-child") => props::logs::child(),
        Some("debug-child") => props::debug::child(&PathBuf::from(&args[1])),
        Some("replay") => {
            let j: serde_json::Value =
                serde_json::from_str(&std::fs::read_to_string(&args[1]).unwrap()).unwrap();
            let id = j["property"].as_str().unwrap().to_string();
            let p = props::all().into_iter().find(|p| p.id() == id).unwrap();
            match p.replay(j["case"].clone()) {
                Ok(()) => {
                    println!("{id}: the case passes");
                    0
                }
                Err(e) => {
                    println!("{id}: {e}");
                    println!("VIOLATION property={id} replay={}", args[1]);
                    1
                }
            }
        }
        _ => {
            eprintln!("usage: vq list | dump ID --start N | check ID [--tier T] [--seed N] [--cases N] | replay FILE");
            3
        }
    };
    props::debug::clean_up();
    std::process::exit(code);
}
