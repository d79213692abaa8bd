//! The library under a deterministic thread scheduler. Real threads, but only the holder of a token runs; the
//! token can change hands at every allocation, at every basic block of the library, at every blocking wait and between calls, as a seed (or a
//! recorded list of switches) decides. Reads a script from stdin, writes the results of all calls to stdout.
use luafmt::config::Config;
#[cfg(any(feature = "find", feature = "list"))]
use luafmt::file_util;
use luafmt::formatter;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::fmt::Write as _;
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::{Relaxed, SeqCst}};
use std::sync::Arc;

// ------------------------------------------------------------------ token scheduler

const MAXT: usize = 8;
const MAXSW: usize = 1 << 16;
const RUNNABLE: u32 = 1;
const WAITING: u32 = 2; // at the end of a stage, or not there

/// who holds the token; 0: the main thread
static CUR: AtomicU32 = AtomicU32::new(0);
static STATE: [AtomicU32; MAXT] = [const { AtomicU32::new(WAITING) }; MAXT];
static POINTS: AtomicU64 = AtomicU64::new(0);
static RNG: AtomicU64 = AtomicU64::new(1);
static PERMILLION: AtomicU64 = AtomicU64::new(0);
static REPLAY: AtomicBool = AtomicBool::new(false);
static SWITCHES: [(AtomicU64, AtomicU32); MAXSW] = [const { (AtomicU64::new(0), AtomicU32::new(0)) }; MAXSW];
static NSW: AtomicUsize = AtomicUsize::new(0);
static SWPOS: AtomicUsize = AtomicUsize::new(0);
static FORCED: AtomicU64 = AtomicU64::new(0);
/// how many threads have got through their start
static STARTED: AtomicU32 = AtomicU32::new(0);
static SPINS: AtomicU64 = AtomicU64::new(0);
/// points at every basic block of the library, too
static DENSE: AtomicBool = AtomicBool::new(false);

thread_local! {
    static ME: Cell<u32> = const { Cell::new(0) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

fn raw_futex(a: &AtomicU32, op: usize, val: u32) {
    unsafe {
        let mut _r: isize = 202;
        std::arch::asm!("syscall", inlateout("rax") _r, in("rdi") a as *const _ as usize, in("rsi") op,
            in("rdx") val as usize, in("r10") 0usize, in("r8") 0usize, in("r9") 0usize,
            out("rcx") _, out("r11") _);
    }
}

fn await_token(me: u32) {
    loop {
        let c = CUR.load(SeqCst);
        if c == me {
            return;
        }
        raw_futex(&CUR, 128, c); // FUTEX_WAIT_PRIVATE
    }
}
fn give(to: u32) {
    CUR.store(to, SeqCst);
    raw_futex(&CUR, 129, i32::MAX as u32); // FUTEX_WAKE_PRIVATE
}

fn rnd() -> u64 {
    let mut z = RNG.load(SeqCst).wrapping_add(0x9e3779b97f4a7c15);
    RNG.store(z, SeqCst);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

fn others(me: u32) -> ([u32; MAXT], usize) {
    let mut v = [0; MAXT];
    let mut n = 0;
    for t in 1..MAXT as u32 {
        if t != me && STATE[t as usize].load(SeqCst) == RUNNABLE {
            v[n] = t;
            n += 1;
        }
    }
    (v, n)
}

/// a point where the scheduler may let another thread go on
fn point() {
    let me = ME.try_with(|m| m.get()).unwrap_or(0);
    if me == 0 || QUIET.try_with(|q| q.replace(true)).unwrap_or(true) {
        return;
    }
    let k = POINTS.fetch_add(1, SeqCst) + 1;
    let mut to = 0;
    if REPLAY.load(SeqCst) {
        let p = SWPOS.load(SeqCst);
        if p < NSW.load(SeqCst) && SWITCHES[p].0.load(SeqCst) <= k {
            SWPOS.store(p + 1, SeqCst);
            let t = SWITCHES[p].1.load(SeqCst);
            if t != me && (t as usize) < MAXT && STATE[t as usize].load(SeqCst) == RUNNABLE {
                to = t;
            }
        }
    } else if rnd() % 1_000_000 < PERMILLION.load(SeqCst) {
        let (v, n) = others(me);
        let s = NSW.load(SeqCst);
        if n > 0 && s < MAXSW {
            to = v[(rnd() % n as u64) as usize];
            SWITCHES[s].0.store(k, SeqCst);
            SWITCHES[s].1.store(to, SeqCst);
            NSW.store(s + 1, SeqCst);
        }
    }
    if to != 0 {
        give(to);
        await_token(me);
    }
    QUIET.with(|q| q.set(false));
}

/// called by the library's code at every basic block (see tools/rustc-points.sh)
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc() {
    if DENSE.load(Relaxed) {
        point();
    }
}

/// the thread cannot go on by itself: let the next one
fn step_aside(me: u32) -> bool {
    FORCED.fetch_add(1, SeqCst);
    for d in 1..MAXT as u32 {
        let t = (me + d) % MAXT as u32;
        if t != 0 && t != me && STATE[t as usize].load(SeqCst) == RUNNABLE {
            give(t);
            await_token(me);
            return true;
        }
    }
    false
}

fn stuck(what: &str) -> ! {
    QUIET.with(|q| q.set(true));
    let mut o = String::from("stuck ");
    o += what;
    o += "\n";
    let _ = std::io::stdout().write_all(o.as_bytes());
    let _ = std::io::stdout().flush();
    std::process::exit(76)
}

extern "C" fn futex_hook(a: *mut u32, op: i32, val: u32) -> i64 {
    let me = ME.try_with(|m| m.get()).unwrap_or(0);
    if me == 0 {
        return -1000;
    }
    match op & 0x7f {
        0 | 9 => {
            let a = unsafe { &*(a as *const AtomicU32) };
            let mut n = 0u64;
            while a.load(SeqCst) == val {
                n += 1;
                if !step_aside(me) || n > 200_000 {
                    stuck("every thread waits for another");
                }
            }
            0
        }
        _ => 0, // whoever waits looks again by itself
    }
}

#[no_mangle]
pub extern "C" fn sched_yield() -> i32 {
    let me = ME.try_with(|m| m.get()).unwrap_or(0);
    if me != 0 {
        if SPINS.fetch_add(1, SeqCst) > 2_000_000 {
            stuck("spinning for ever");
        }
        step_aside(me);
    }
    0
}

struct Points;
unsafe impl GlobalAlloc for Points {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        point();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        point();
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        point();
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOC: Points = Points;

// ------------------------------------------------------------------ calls

enum Call {
    Buffer(String, String),
    /// like Buffer, with the text in a string that the thread uses for one text after another
    Again(String, String),
    File(String, String),
    FindConfig(String),
    LoadConfig(String),
    List(String, bool),
}

struct Stage {
    ops: Vec<(String, Option<Vec<u8>>)>,
    threads: Vec<Vec<Call>>,
}

fn config(opts: &str) -> Config {
    let mut c = Config::default();
    for l in opts.split('\u{1}').filter(|l| !l.is_empty()) {
        let (n, v) = l.split_once('=').unwrap_or((l, ""));
        c.set(n, v);
    }
    c
}

thread_local! {
    static BUF: Cell<String> = const { Cell::new(String::new()) };
}

fn perform(c: &Call) -> Result<String, String> {
    match c {
        Call::Buffer(t, o) => {
            formatter::process_buffer_with_config(t, &config(o), false).map_err(|e| format!("{}", e))
        }
        Call::Again(t, o) => BUF.with(|b| {
            let mut b = b.take();
            b.clear();
            b.push_str(t);
            let r = formatter::process_buffer_with_config(&b, &config(o), false).map_err(|e| format!("{}", e));
            BUF.with(|k| k.set(b));
            r
        }),
        #[cfg(feature = "file")]
        Call::File(p, o) => {
            formatter::process_file(&PathBuf::from(p), &config(o), false).map_err(|e| format!("{}", e))
        }
        #[cfg(feature = "find")]
        Call::FindConfig(p) => Ok(format!("{:?}", file_util::get_file_config(&PathBuf::from(p), luafmt::CFG_PREFIX))),
        #[cfg(feature = "load")]
        Call::LoadConfig(p) => {
            Config::default().reload_format_from_file(&PathBuf::from(p)).map(|c| format!("{:?}", c)).map_err(|e| format!("{}", e))
        }
        #[cfg(feature = "list")]
        Call::List(p, r) => file_util::get_path_files(&PathBuf::from(p), *r, "lua", luafmt::CFG_PREFIX)
            .map(|v| format!("{:?}", v))
            .map_err(|e| format!("{}", e)),
        #[allow(unreachable_patterns)]
        _ => Err("the library has no such call".into()),
    }
}

fn unhex(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    (0..b.len() / 2).map(|i| u8::from_str_radix(std::str::from_utf8(&b[2 * i..2 * i + 2]).unwrap(), 16).unwrap()).collect()
}
fn text(s: &str) -> String {
    String::from_utf8(unhex(s)).unwrap()
}

extern "C" {
    fn dlsym(h: *mut u8, n: *const u8) -> *mut u8;
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    unsafe {
        let f = dlsym(std::ptr::null_mut(), b"simshim_set_futex_hook\0".as_ptr());
        if !f.is_null() {
            let f: extern "C" fn(extern "C" fn(*mut u32, i32, u32) -> i64) = std::mem::transmute(f);
            f(futex_hook);
        }
    }
    let mut script = String::new();
    std::io::stdin().read_to_string(&mut script).unwrap();
    let mut stages: Vec<Stage> = Vec::new();
    let mut n = 0;
    for line in script.lines() {
        let w: Vec<&str> = line.split(' ').collect();
        match w[0] {
            "seed" => RNG.store(w[1].parse().unwrap(), SeqCst),
            "permillion" => PERMILLION.store(w[1].parse().unwrap(), SeqCst),
            "dense" => DENSE.store(true, SeqCst),
            "replay" => {
                REPLAY.store(true, SeqCst);
                for (i, s) in w[1].split(',').filter(|s| !s.is_empty()).take(MAXSW).enumerate() {
                    let (k, t) = s.split_once(':').unwrap();
                    SWITCHES[i].0.store(k.parse().unwrap(), SeqCst);
                    SWITCHES[i].1.store(t.parse().unwrap(), SeqCst);
                    NSW.store(i + 1, SeqCst);
                }
            }
            "threads" => n = w[1].parse::<usize>().unwrap().clamp(1, MAXT - 1),
            "stage" => stages.push(Stage { ops: vec![], threads: (0..n).map(|_| Vec::new()).collect() }),
            "write" => stages.last_mut().unwrap().ops.push((text(w[1]), Some(unhex(w[2])))),
            "remove" => stages.last_mut().unwrap().ops.push((text(w[1]), None)),
            "call" => {
                let t: usize = w[1].parse().unwrap();
                let c = match w[2] {
                    "buffer" => Call::Buffer(text(w[3]), text(w[4])),
                    "again" => Call::Again(text(w[3]), text(w[4])),
                    "file" => Call::File(text(w[3]), text(w[4])),
                    "find" => Call::FindConfig(text(w[3])),
                    "load" => Call::LoadConfig(text(w[3])),
                    "list" => Call::List(text(w[3]), w[4] == "31"),
                    x => panic!("{}", x),
                };
                stages.last_mut().unwrap().threads[t].push(c);
            }
            _ => {}
        }
    }
    let stages = Arc::new(stages);
    let mut handles = Vec::new();
    for t in 1..=n as u32 {
        let stages = stages.clone();
        handles.push(
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    let mut out: Vec<String> = Vec::new();
                    STARTED.store(t, SeqCst);
                    raw_futex(&STARTED, 129, 1);
                    await_token(t);
                    for s in stages.iter() {
                        for c in &s.threads[t as usize - 1] {
                            ME.with(|m| m.set(t));
                            let r = catch_unwind(AssertUnwindSafe(|| perform(c)));
                            ME.with(|m| m.set(0));
                            let mut o = String::new();
                            let (k, x) = match &r {
                                Ok(Ok(x)) => ("ok", x.as_str()),
                                Ok(Err(x)) => ("err", x.as_str()),
                                Err(p) => (
                                    "panic",
                                    p.downcast_ref::<String>().map(|s| s.as_str()).or(p.downcast_ref::<&str>().copied()).unwrap_or(""),
                                ),
                            };
                            o += k;
                            o += " ";
                            for b in x.as_bytes() {
                                let _ = write!(o, "{:02x}", b);
                            }
                            out.push(o);
                            // between calls there is a point, too
                            ME.with(|m| m.set(t));
                            point();
                            ME.with(|m| m.set(0));
                        }
                        // the stage is over for this thread
                        STATE[t as usize].store(WAITING, SeqCst);
                        let (v, k) = others(t);
                        give(if k > 0 { v[0] } else { 0 });
                        await_token(t);
                    }
                    out
                })
                .unwrap(),
        );
        // one after the other: what threads do when they start is ordered as well
        while STARTED.load(SeqCst) != t {
            raw_futex(&STARTED, 128, t - 1);
        }
    }
    for s in stages.iter() {
        for (p, c) in &s.ops {
            match c {
                Some(c) => {
                    let _ = std::fs::write(p, c);
                }
                None => {
                    let _ = std::fs::remove_file(p);
                }
            }
        }
        for t in 1..=n {
            STATE[t].store(RUNNABLE, SeqCst);
        }
        give(1);
        await_token(0);
    }
    let mut o = String::new();
    for (i, h) in handles.into_iter().enumerate() {
        // one after the other: what threads do when they end is ordered as well
        give(i as u32 + 1);
        for r in h.join().unwrap() {
            let _ = writeln!(o, "result {} {}", i, r);
        }
        CUR.store(0, SeqCst);
    }
    let _ = writeln!(o, "points {} forced {}", POINTS.load(SeqCst), FORCED.load(SeqCst));
    o += "switches ";
    if !REPLAY.load(SeqCst) {
        for i in 0..NSW.load(SeqCst) {
            let _ = write!(o, "{}{}:{}", if i > 0 { "," } else { "" }, SWITCHES[i].0.load(SeqCst), SWITCHES[i].1.load(SeqCst));
        }
    } else {
        for i in 0..SWPOS.load(SeqCst) {
            let _ = write!(o, "{}{}:{}", if i > 0 { "," } else { "" }, SWITCHES[i].0.load(SeqCst), SWITCHES[i].1.load(SeqCst));
        }
    }
    o += "\n";
    std::io::stdout().write_all(o.as_bytes()).unwrap();
    std::io::stdout().flush().unwrap();
}
