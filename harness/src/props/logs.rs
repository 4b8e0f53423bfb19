//! C25: somebody listens to what the library logs. Pictures are decoded by this process, which
//! does not, and by a child process that does.

use super::debug::*;
use super::image::*;
use super::scene::*;
use crate::run::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::sync::atomic::{AtomicUsize, Ordering};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct C25Case {
    pub shown: Shown,
    /// 1 (errors only) to 5 (everything)
    pub level: usize,
}

/// Formats everything, keeps nothing.
struct Sink;

static BYTES: AtomicUsize = AtomicUsize::new(0);

impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        let s = format!("{} {} {:?} {}", r.level(), r.target(), r.line(), r.args());
        BYTES.fetch_add(s.len(), Ordering::SeqCst);
    }
    fn flush(&self) {}
}

const LEVELS: [log::LevelFilter; 5] = [
    log::LevelFilter::Error,
    log::LevelFilter::Warn,
    log::LevelFilter::Info,
    log::LevelFilter::Debug,
    log::LevelFilter::Trace,
];

/// The child's part: answers cases read from standard input.
pub fn child() -> i32 {
    let served = std::panic::catch_unwind(|| {
        log::set_logger(&Sink).expect("logger");
        for line in std::io::stdin().lines() {
            let Ok(line) = line else { break };
            let case: C25Case = serde_json::from_str(&line).expect("case");
            let img = case.shown.picture();
            log::set_max_level(LEVELS[(case.level.max(1) - 1).min(4)]);
            BYTES.store(0, Ordering::SeqCst);
            let mut a = answer(&img);
            a.files = BYTES.load(Ordering::SeqCst);
            println!("{}", serde_json::to_string(&a).unwrap());
        }
    });
    match served {
        Ok(()) => 0,
        Err(_) => {
            eprintln!("HARNESS ERROR: {:?}", last_panic());
            3
        }
    }
}

thread_local! {
    static PROC: RefCell<Option<Proc>> = const { RefCell::new(None) };
}

fn start() -> Proc {
    Proc::of(&std::env::current_exe().expect("own path"), "log-child")
}

pub struct C25;

impl Prop for C25 {
    type Case = C25Case;
    fn id(&self) -> &'static str {
        "C25"
    }
    fn rule(&self) -> &'static str {
        "Pictures of codes of versions 1 to 12, groups of codes and pictures of anything as in C07, decoded by this process without a logger and by another one with a logger that formats every record of the level in question (errors only up to everything). Results (texts, information, errors, order) are the same, and nothing panics. Non-trivial: something was located and something was logged."
    }
    fn cases(&self, t: Tier) -> usize {
        t.pick(12_000, 250_000)
    }
    fn strategy(&self, idx: usize, t: Tier) -> BoxedStrategy<C25Case> {
        let max = t.pick(300, 500);
        let level = [5, 4, 5, 3, 5, 4, 5, 2, 1][idx % 9];
        let shown = match idx % 8 {
            0 => Scene::strategy(max).prop_map(Shown::Scene).boxed(),
            1 => group().prop_map(Shown::Group).boxed(),
            2..=5 => Scene::likely(max).prop_map(Shown::Scene).boxed(),
            _ => {
                let v = [1, 2, 3, 2, 5, 7, 2, 10, 3, 12][idx / 8 % 10];
                (
                    prop::sample::select(crate::refqr::LEVELS.to_vec()).prop_flat_map(move |l| code_of(v, l, None)),
                    3u8..7,
                    [0u8..60, 0u8..60, 0u8..60, 0u8..60],
                    0u8..4,
                )
                    .prop_map(|(code, scale, white, quarter)| Shown::Code { code, scale, white, quarter })
                    .boxed()
            }
        };
        shown.prop_map(move |shown| C25Case { shown, level }).boxed()
    }
    fn check(&self, c: &C25Case, ctx: &mut Ctx) -> Result<(), String> {
        let img = c.shown.picture();
        let off = answer(&img);
        if off.panic.is_some() {
            // the subject of C07
            ctx.exclude("panics without a logger too");
            return Ok(());
        }
        ctx.comparisons += 2;
        let Some(on) = PROC.with(|p| Proc::ask_in(&mut p.borrow_mut(), start, c)) else {
            return Err("the process that logs ended".into());
        };
        ctx.label(format!("level {}", LEVELS[(c.level.max(1) - 1).min(4)]));
        if on.files > 0 {
            ctx.label("something logged");
            if !off.info.is_empty() {
                ctx.nontrivial();
            }
        }
        if off.info.iter().any(|r| r.starts_with("Ok")) {
            ctx.label("some text");
        }
        if let Some(p) = on.panic {
            return Err(format!("with a logger: {p}"));
        }
        for (a, b) in [(&on.info, &off.info), (&on.plain, &off.plain)] {
            if a != b {
                return Err(format!("with a logger {a:?} instead of {b:?}"));
            }
        }
        Ok(())
    }
}
