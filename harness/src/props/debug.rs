//! C18: the debug-images feature. Pictures are decoded by this process (feature off) and by a
//! child process that was built with the feature.

use super::image::*;
use super::scene::*;
use crate::draw::*;
use crate::run::*;
use image::{Rgba, RgbaImage};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};

/// What is in the way of the pictures.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum Disk {
    /// nothing
    Free,
    /// nothing, and there are pictures of the run before
    Kept,
    /// the temporary folder does not exist
    NoTemp,
    /// the temporary folder is a file
    TempIsFile,
    /// there is a file where the debug folder belongs
    FolderIsFile,
    /// there are folders where pictures belong, and files where folders belong
    Clutter,
    /// the pictures' disk is full
    Full,
}

pub const DISKS: [Disk; 7] = [
    Disk::Free,
    Disk::Kept,
    Disk::NoTemp,
    Disk::TempIsFile,
    Disk::FolderIsFile,
    Disk::Clutter,
    Disk::Full,
];

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Shown {
    Scene(Scene),
    Group(C10Case),
    /// a code that is read, in a picture of its own shape: pixels of white to the left, above,
    /// to the right and below it
    Code { code: Code, scale: u8, white: [u8; 4], quarter: u8 },
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct C18Case {
    pub shown: Shown,
    pub disk: Disk,
}

impl Shown {
    pub fn picture(&self) -> RgbaImage {
        match self {
            Shown::Scene(s) => s.picture(),
            Shown::Group(g) => g.draw().0,
            Shown::Code { code, scale, white, quarter } => {
                let (sym, _) = code.symbol();
                let [l, t, r, b] = white.map(u32::from);
                let s = u32::from(*scale);
                let n = sym.size as u32 * s;
                let img = RgbaImage::from_fn(l + n + r, t + n + b, |x, y| {
                    let (x, y) = (x.wrapping_sub(l), y.wrapping_sub(t));
                    let dark = x < n && y < n && sym.dark[(y / s) as usize * sym.size + (x / s) as usize];
                    Rgba(if dark { [0, 0, 0, 255] } else { [255; 4] })
                });
                rotate(&img, *quarter)
            }
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct Answer {
    pub info: Vec<String>,
    pub plain: Vec<String>,
    pub panic: Option<String>,
    /// entries of the debug folder
    pub files: usize,
}

pub fn answer(img: &RgbaImage) -> Answer {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let info = decode_info(img).iter().map(|r| format!("{r:?}")).collect();
        let plain = decode_plain(img).iter().map(|r| format!("{r:?}")).collect();
        (info, plain)
    }));
    match r {
        Ok((info, plain)) => Answer { info, plain, panic: None, files: 0 },
        Err(_) => {
            let (msg, loc) = last_panic();
            Answer {
                info: vec![],
                plain: vec![],
                panic: Some(format!("panic at {loc}: {msg}")),
                files: 0,
            }
        }
    }
}

fn clear(scratch: &Path) {
    let _ = std::fs::remove_dir_all(scratch);
    std::fs::create_dir_all(scratch).expect("scratch folder");
}

/// Lay out the scratch folder; the temporary folder is `tmp` in it.
fn lay(scratch: &Path, disk: Disk) {
    use std::fs::{create_dir_all, write};
    if disk == Disk::Kept && scratch.join("tmp").is_dir() {
        return;
    }
    clear(scratch);
    let tmp = scratch.join("tmp");
    let dbg = tmp.join("bardecoder-debug-images");
    match disk {
        Disk::Free | Disk::Kept => create_dir_all(&tmp).unwrap(),
        Disk::NoTemp => {}
        Disk::TempIsFile => write(&tmp, b"x").unwrap(),
        Disk::FolderIsFile => {
            create_dir_all(&tmp).unwrap();
            write(&dbg, b"x").unwrap();
        }
        Disk::Clutter => {
            for d in ["candidates.png", "alignment.png"] {
                create_dir_all(dbg.join(d)).unwrap();
            }
            for f in ["extract", "alignment"] {
                write(dbg.join(f), b"x").unwrap();
            }
        }
        Disk::Full => {
            create_dir_all(&dbg).unwrap();
            for d in ["candidates.png", "alignment.png"] {
                std::os::unix::fs::symlink("/dev/full", dbg.join(d)).unwrap();
            }
        }
    }
}

/// The child's part: answers cases read from standard input. `scratch` is removed and made anew
/// time and again.
pub fn child(scratch: &Path) -> i32 {
    if !cfg!(feature = "debug-images") {
        eprintln!("built without debug-images");
        return 3;
    }
    if !scratch.ends_with("scratch") {
        eprintln!("{scratch:?} is no scratch folder");
        return 3;
    }
    std::env::set_var("TMPDIR", scratch.join("tmp"));
    match catch_unwind(|| serve(scratch)) {
        Ok(()) => 0,
        Err(_) => {
            eprintln!("HARNESS ERROR: {:?}", last_panic());
            3
        }
    }
}

fn serve(scratch: &Path) {
    for line in std::io::stdin().lines() {
        let Ok(line) = line else { break };
        let case: C18Case = serde_json::from_str(&line).expect("case");
        let img = case.shown.picture();
        lay(scratch, case.disk);
        let mut a = answer(&img);
        a.files = count(&scratch.join("tmp/bardecoder-debug-images"));
        println!("{}", serde_json::to_string(&a).unwrap());
    }
    let _ = std::fs::remove_dir_all(scratch);
}

fn count(dir: &Path) -> usize {
    let Ok(d) = std::fs::read_dir(dir) else { return 0 };
    d.flatten()
        .map(|e| match e.file_type() {
            Ok(t) if t.is_dir() => count(&e.path()),
            Ok(t) if t.is_file() && e.path().extension().is_some_and(|e| e == "png") => 1,
            _ => 0,
        })
        .sum()
}

/// Where this process keeps what its children write.
fn base() -> PathBuf {
    std::env::temp_dir().join(format!("vq-{}", std::process::id()))
}

/// To be called at the end of the process.
pub fn clean_up() {
    let _ = std::fs::remove_dir_all(base());
}

pub struct Proc {
    child: Child,
    tx: Option<ChildStdin>,
    rx: BufReader<ChildStdout>,
    home: PathBuf,
}

impl Drop for Proc {
    fn drop(&mut self) {
        self.tx.take();
        let _ = self.child.wait();
        let _ = std::fs::remove_dir_all(&self.home);
    }
}

static NEXT: AtomicUsize = AtomicUsize::new(0);

impl Proc {
    fn new() -> Proc {
        let exe = std::env::var("VQ_DBG").unwrap_or_else(|_| "/verif/target-dbg/release/vq".into());
        Proc::of(Path::new(&exe), "debug-child")
    }
    pub fn of(exe: &Path, role: &str) -> Proc {
        let home = base().join(NEXT.fetch_add(1, Ordering::SeqCst).to_string());
        std::fs::create_dir_all(&home).expect("scratch folder");
        let mut child = Command::new(exe)
            .arg(role)
            .arg(home.join("scratch"))
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .unwrap_or_else(|e| panic!("cannot start {exe:?}: {e}"));
        let tx = child.stdin.take();
        let rx = BufReader::new(child.stdout.take().unwrap());
        Proc { child, tx, rx, home }
    }
    /// None: the child ended.
    pub fn ask<C: Serialize>(&mut self, c: &C) -> Option<Answer> {
        let line = serde_json::to_string(c).unwrap() + "\n";
        self.tx.as_mut()?.write_all(line.as_bytes()).ok()?;
        let mut s = String::new();
        self.rx.read_line(&mut s).ok()?;
        serde_json::from_str(&s).ok()
    }
    /// Ask the process in `slot`, which is started if there is none. None: the child ended.
    pub fn ask_in<C: Serialize>(slot: &mut Option<Proc>, new: fn() -> Proc, c: &C) -> Option<Answer> {
        let a = slot.get_or_insert_with(new).ask(c);
        if a.is_none() {
            let mut gone = slot.take().unwrap();
            gone.tx.take();
            if gone.child.wait().ok().and_then(|s| s.code()) == Some(3) {
                std::process::exit(3);
            }
        }
        a
    }
}

thread_local! {
    static PROC: RefCell<Option<Proc>> = const { RefCell::new(None) };
}

pub struct C18;

impl Prop for C18 {
    type Case = C18Case;
    fn id(&self) -> &'static str {
        "C18"
    }
    fn rule(&self) -> &'static str {
        "Pictures of codes of versions 1 to 12 with anything from 0 to 250 pixels of white on each side, and pictures of anything as in C07 of up to 260 (thorough 500) pixels a side, decoded with the feature off by this process and with it on by another one, whose temporary folder is writable, absent, a file, or cluttered, or whose disk is full. Results (texts, information, errors, order) are the same. Non-trivial: something was located."
    }
    fn cases(&self, t: Tier) -> usize {
        t.pick(5_000, 150_000)
    }
    fn strategy(&self, idx: usize, t: Tier) -> BoxedStrategy<C18Case> {
        let max = t.pick(260, 500);
        let disk = DISKS[idx / 2 % DISKS.len()];
        let shown = match idx % 10 {
            0 => Scene::strategy(max).prop_map(Shown::Scene).boxed(),
            1 => group().prop_map(Shown::Group).boxed(),
            2..=4 => Scene::likely(max).prop_map(Shown::Scene).boxed(),
            _ => {
                let v = [1, 2, 3, 2, 5, 7, 2, 10, 3, 12][idx / 10 % 10];
                let side = || prop_oneof![2 => 0u8..12, 2 => 12u8..60, 1 => 60u8..250];
                (
                    prop::sample::select(crate::refqr::LEVELS.to_vec()).prop_flat_map(move |l| code_of(v, l, None)),
                    prop_oneof![3u8..6, 3u8..10],
                    [side(), side(), side(), side()],
                    0u8..4,
                )
                    .prop_map(|(code, scale, white, quarter)| Shown::Code { code, scale, white, quarter })
                    .boxed()
            }
        };
        shown.prop_map(move |shown| C18Case { shown, disk }).boxed()
    }
    fn check(&self, c: &C18Case, ctx: &mut Ctx) -> Result<(), String> {
        let img = c.shown.picture();
        save_debug(&img);
        let off = answer(&img);
        if off.panic.is_some() {
            // the subject of C07
            ctx.exclude("panics without debug images too");
            return Ok(());
        }
        ctx.comparisons += 2;
        ctx.label(format!("disk: {:?}", c.disk));
        ctx.label(match img.width().cmp(&img.height()) {
            std::cmp::Ordering::Less => "taller than wide",
            std::cmp::Ordering::Equal => "square",
            std::cmp::Ordering::Greater => "wider than tall",
        });
        if !off.info.is_empty() {
            ctx.nontrivial();
        }
        if off.info.iter().any(|r| r.starts_with("Ok")) {
            ctx.label("some text");
        }
        let on = PROC.with(|p| Proc::ask_in(&mut p.borrow_mut(), Proc::new, c));
        let Some(on) = on else {
            return Err("the process with debug images ended".into());
        };
        if let Some(p) = on.panic {
            return Err(format!("with debug images: {p}"));
        }
        if on.files > 0 {
            ctx.label("debug images written");
        }
        for (a, b) in [(&on.info, &off.info), (&on.plain, &off.plain)] {
            if a != b {
                return Err(format!("with debug images {a:?} instead of {b:?}"));
            }
        }
        Ok(())
    }
}
