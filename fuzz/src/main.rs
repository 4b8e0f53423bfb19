//! Coverage-guided search (libFuzzer) for a violation of the property VQ_PROP. The bytes are what
//! the generators of the harness take for random numbers, so that the cases, their oracle, their
//! minimisation and the replay files are those of the random search. Only the library under test
//! is instrumented (wrap.sh).
#![no_main]

use std::collections::HashSet;
use std::path::PathBuf;
use vharness::props;
use vharness::run::*;

// for libFuzzer itself and its main function
use libfuzzer_sys as _;

struct State {
    prop: Box<dyn AnyProp>,
    opts: Opts,
    stats: PathBuf,
}

#[derive(Default)]
struct Counts {
    runs: u64,
    cases: u64,
    nontrivial: HashSet<u64>,
}

thread_local! {
    static STATE: &'static State = Box::leak(Box::new(state()));
    static COUNTS: std::cell::RefCell<Counts> = Default::default();
}

extern "C" {
    fn _exit(code: i32) -> !;
}

fn state() -> State {
    let id = std::env::var("VQ_PROP").expect("VQ_PROP");
    // libfuzzer-sys would abort at the first panic
    install_hook();
    State {
        prop: props::all()
            .into_iter()
            .find(|p| p.id() == id)
            .expect("property"),
        opts: Opts {
            tier: Tier::Quick,
            seed: std::env::var("VERIF_SEED")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(1),
            verif: PathBuf::from(std::env::var("VQ_VERIF").expect("VQ_VERIF")),
            limit: None,
            start: 0,
            quiet: true,
            survey: false,
        },
        stats: PathBuf::from(std::env::var("VQ_STATS").expect("VQ_STATS")),
    }
}

fn save(s: &State, c: &Counts) {
    let t = format!("{} {} {}\n", c.runs, c.cases, c.nontrivial.len());
    let _ = std::fs::write(&s.stats, t);
}

#[no_mangle]
#[allow(improper_ctypes_definitions)]
pub extern "C" fn rust_fuzzer_test_input(data: &[u8]) -> i32 {
    let s = STATE.with(|s| *s);
    COUNTS.with(|c| {
        let mut c = c.borrow_mut();
        c.runs += 1;
        if let Some(p) = std::env::var_os("VQ_DUMP") {
            if let Some(case) = s.prop.fuzz_case(data, &s.opts) {
                std::fs::write(p, case.to_string()).expect("dump");
            }
            unsafe { _exit(0) }
        }
        let r = match s.prop.fuzz(data, &s.opts) {
            Fuzzed::Nothing => -1,
            Fuzzed::Fine(h) => {
                c.cases += 1;
                c.nontrivial.extend(h);
                0
            }
            Fuzzed::Violation => {
                save(s, &c);
                unsafe { _exit(1) }
            }
        };
        if c.runs % 100 == 0 {
            save(s, &c);
        }
        r
    })
}
