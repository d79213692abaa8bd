//! The properties: for each, how worlds are made and what is checked. Nothing here looks at luafmt's code.
use crate::gen::*;
use crate::json::J;
use crate::kernel::op;
use crate::model::*;
use crate::oracle::*;
use crate::rng::{mix2, Rng};
use crate::scenario::*;
use crate::server::Server;
use crate::sim::*;
use crate::vfs::errno::*;
use crate::vfs::{Cred, Vfs};
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub struct Ctx {
    pub srv: Server,
    pub lib: Option<Server>,
    pub refs: Refs,
    pub librefs: crate::libprop::LibRefs,
    pub pool: Pool,
}

pub struct Verdict {
    pub fail: Option<String>,
    pub plan: Plan,
    pub hash: u64,
    pub stats: Stats,
    pub trace: Vec<String>,
    /// the run could not be judged (a reference run ended abnormally)
    pub skipped: bool,
    /// the run exercised what the property is about
    pub nontrivial: bool,
    pub summary: String,
}

pub const PROPS: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20",
];

pub fn pool(verif_seed: u64) -> Pool {
    Pool { seed: mix2(verif_seed, 4242), small: 300, cfgs: 36 }
}

// ---------------------------------------------------------------- generation

pub fn generate(prop: &str, seed: u64, pool: &Pool) -> Scenario {
    if prop == "C16" {
        return crate::libprop::generate(seed, pool);
    }
    let mut w = W::new(prop, seed, pool);
    match prop {
        "C01" => g01(&mut w),
        "C02" => g02(&mut w),
        "C03" => g03(&mut w),
        "C04" => g04(&mut w),
        "C05" => g05(&mut w),
        "C06" => g06(&mut w),
        "C07" => g07(&mut w),
        "C08" => g08(&mut w),
        "C09" => g09(&mut w),
        "C10" => g10(&mut w),
        "C11" => g11(&mut w),
        "C12" => g12(&mut w),
        "C13" => g13(&mut w),
        "C14" => g14(&mut w),
        "C15" => g15(&mut w),
        "C17" => g17(&mut w),
        "C18" => g18(&mut w),
        "C19" => g19(&mut w),
        "C20" => g20(&mut w),
        _ => panic!("unknown property {}", prop),
    }
    w.sc
}

/// Fixed cases besides the search: defects that are known and not repaired.
pub fn known_cases(prop: &str) -> Vec<(&'static str, Scenario)> {
    let mut out = Vec::new();
    if prop == "C04" {
        let mut sc = Scenario::new("C04", 4);
        sc.dir("/home/u/p");
        sc.file("/home/u/p/.luafmt.lua", b"newline_format_do_end = 1\nnewline_format_statement = 1\nindentation_string = \"  \"\n");
        let deep = format!("a = {}1{}\n", "(".repeat(100_000), ")".repeat(100_000));
        sc.file("/home/u/p/a.lua", deep.as_bytes());
        sc.file("/home/u/p/b.lua", b"do   b( 1,2 )\nlocal t={ 1;2 }   end\n");
        sc.proc("/home/u/p", &["-i".to_string(), "a.lua".to_string(), "b.lua".to_string()]);
        out.push(("deep-nesting", sc));
    }
    out
}

fn cli_opts(w: &mut W, p: &mut ProcSpec, pct: usize) {
    if w.r.pct(pct) {
        let o = w.opts();
        let at = w.r.below(p.args.len() + 1);
        for (n, v) in o {
            p.args.insert(at, format!("--{}={}", n, v));
        }
    }
}

fn modes(w: &mut W) {
    let m = [0o600, 0o640, 0o664, 0o755, 0o666, 0o744];
    for f in w.files.clone() {
        if w.r.pct(25) {
            let x = *w.r.pick(&m);
            w.sc.chmod(&f, x);
        }
    }
}

/// names that interrupted runs, editors and other tools leave lying around
fn leftovers(w: &mut W) {
    for _ in 0..w.r.below(3) {
        let d = w.r.pick(&w.dirs).clone();
        let f = w.r.pick(&w.files).clone();
        let b = f.rsplit('/').next().unwrap().to_string();
        let pid = w.sc.env.pid_base;
        let n = match w.r.below(7) {
            0 => format!(".luafmt-{}-0.tmp", pid),
            1 => format!(".luafmt-{}.tmp", pid),
            2 => format!("{}.tmp", b),
            3 => format!(".{}.tmp", b),
            4 => format!("{}.bak", b),
            5 => format!("{}~", b),
            _ => format!(".{}.swp", b),
        };
        let c = w.content();
        w.sc.file(&format!("{}/{}", d, n), &c);
    }
}

fn g01(w: &mut W) {
    w.big = 30;
    let n = w.r.range(1, 4);
    w.project(n, 25);
    if w.r.pct(20) {
        w.links();
    }
    hard_links(w, 12);
    modes(w);
    if w.r.pct(30) {
        leftovers(w);
    }
    let mut p = w.command(true);
    cli_opts(w, &mut p, 15);
    let v = w.r.below(4);
    w.sc.variant = ["undisturbed", "errors", "crash", "crash-and-errors"][v].into();
    w.sc.phases.push(Phase { procs: vec![p.clone()] });
    if v == 1 || v == 3 {
        let k = w.r.range(1, 3);
        w.io_rules(k, "/", -1);
    }
    if v >= 2 {
        w.crash_rule(0, 35);
        w.sc.env.pid_reuse = w.r.pct(40);
        w.sc.phases.push(Phase { procs: vec![p] });
    } else {
        w.rule(-1, -1, ops(&[op::WRITE]), "/", 0, 60, 700, What::Short(3000));
    }
}

fn g02(w: &mut W) {
    w.big = 20;
    let n = w.r.range(1, 5);
    w.project(n, 25);
    if w.r.pct(20) {
        w.links();
    }
    hard_links(w, 12);
    modes(w);
    if w.r.pct(30) {
        leftovers(w);
    }
    if w.r.pct(8) {
        let f = w.r.pick(&w.files).clone();
        w.sc.chmod(&f, 0o444);
    }
    if w.r.pct(5) {
        let d = w.r.pick(&w.dirs).clone();
        w.sc.chmod(&d, 0o555);
    }
    let mut p = w.command(true);
    cli_opts(w, &mut p, 15);
    w.sc.phases.push(Phase { procs: vec![p] });
    let k = w.r.range(1, 4);
    let under = if w.r.pct(60) {
        "/".to_string()
    } else if w.r.pct(50) {
        w.r.pick(&w.files).clone()
    } else {
        w.r.pick(&w.dirs).clone()
    };
    w.io_rules(k, &under, -1);
}

fn g03(w: &mut W) {
    let n = w.r.range(1, 5);
    w.project(n, 20);
    if w.r.pct(10) {
        w.links();
    }
    let inplace = w.r.pct(60);
    let mut p = w.command(inplace);
    let mut victims: Vec<String> = Vec::new();
    let mut v = w.r.below(9);
    if v == 8 && (!inplace || w.sc.env.uid == 0) {
        v = w.r.below(8);
    }
    w.sc.variant = [
        "invalid-lua", "invalid-utf8", "unreadable", "read-error", "corrupt-read", "no-config", "bad-config", "config-read", "write-protected",
    ][v]
    .into();
    if v < 5 || v == 8 {
        cli_opts(w, &mut p, 20);
        let k = w.r.range(1, 2.min(w.files.len()));
        let mut f = w.files.clone();
        w.r.shuffle(&mut f);
        for x in f.into_iter().take(k) {
            let tag = format!("v{}", victims.len());
            let bad = match v {
                0 => Some(invalid_lua(&mut w.r, &tag)),
                1 => Some(invalid_utf8(&mut w.r, &tag)),
                _ => None,
            };
            for nd in &mut w.sc.nodes {
                if nd.path == x {
                    if let Some(b) = &bad {
                        nd.kind = NK::File(b.clone());
                    }
                    if v == 2 {
                        nd.mode = *w.r.pick(&[0o000, 0o200]);
                    }
                    if v == 8 && w.r.pct(60) {
                        nd.mode = *w.r.pick(&[0o444, 0o555, 0o400, 0o466]);
                    } else if v == 8 {
                        // somebody else's
                        nd.uid = 1001;
                        nd.gid = 600;
                        nd.mode = *w.r.pick(&[0o644, 0o664, 0o755]);
                    }
                }
            }
            if v == 2 && w.sc.env.uid == 0 {
                w.rule(-1, -1, ROPEN, &x, 0, 1_000_000, 1000, What::Errs(vec![EACCES, EPERM, EIO]));
            }
            if v == 3 {
                // a device that fails for good, possibly after some good blocks
                if w.r.pct(60) {
                    w.rule(-1, -1, ops(&[op::READ, op::PREAD]), &x, 0, 4, 600, What::Short(400));
                }
                let skip = w.r.below(3) as u32;
                w.rule(-1, -1, ops(&[op::READ, op::PREAD]), &x, skip, 1_000_000, 1000, What::Errs(vec![EIO, ESTALE]));
            }
            if v == 4 {
                w.rule(-1, -1, ops(&[op::READ, op::PREAD]), &x, 0, 1_000_000, 1000, What::Flip);
            }
            victims.push(x);
        }
    } else {
        // configurations of a directory are hit: everything that uses them is a victim
        let cfgs: Vec<String> =
            w.sc.nodes.iter().filter(|n| is_config_name(base(&n.path).as_bytes())).map(|n| n.path.clone()).collect();
        let c = w.r.pick(&cfgs).clone();
        match v {
            5 => w.sc.nodes.retain(|n| !is_config_name(base(&n.path).as_bytes())),
            6 => {
                let b = broken_config(&mut w.r);
                for nd in &mut w.sc.nodes {
                    if nd.path == c {
                        nd.kind = NK::File(b.clone());
                    }
                }
            }
            _ => match w.r.below(3) {
                0 if w.sc.env.uid != 0 => w.sc.chmod(&c, 0o000),
                1 => w.rule(-1, -1, ops(&[op::READ, op::PREAD]), &c, 0, 1_000_000, 1000, What::Flip),
                _ => {
                    let skip = w.r.below(2) as u32;
                    let empty = w.sc.nodes.iter().any(|n| n.path == c && matches!(&n.kind, NK::File(d) if d.is_empty()));
                    let skip = if empty { 0 } else { skip };
                    w.rule(-1, -1, ops(&[op::READ, op::PREAD]), &c, skip, 1_000_000, 1000, What::Errs(vec![EIO, ESTALE]))
                }
            },
        }
        let root = w.sc.build();
        let cred = cred(&w.sc);
        for f in w.files.clone() {
            let hit = match config_for(&root, &f, cred) {
                Cfg::None => true,
                Cfg::File(p, o) => o.is_none() || v == 7 && p == c,
            };
            if hit {
                victims.push(f);
            }
        }
        p.args.retain(|a| !(a.starts_with("--") && a.contains('=')));
    }
    if w.r.pct(15) {
        p.args.push("-v".into());
    }
    if !w.sc.rules.is_empty() {
        // victims only if the fault really happens
        let by: Vec<String> = w.sc.rules.iter().map(|r| r.under.clone()).collect();
        w.sc.params.insert("by".into(), J::from(by));
    }
    w.sc.params.insert("victims".into(), J::from(victims));
    w.sc.phases.push(Phase { procs: vec![p] });
}

/// how many failures and corruptions really hit calls on this path
fn hits(plan: &Plan, path: &str) -> (usize, usize) {
    let on = |f: &Fault| {
        f.at.split_once('(').map_or(false, |(_, a)| {
            a.strip_prefix(path).map_or(false, |x| x.starts_with(',') || x.starts_with(')') || x.is_empty())
        })
    };
    let mut n = (0, 0);
    for f in plan.faults.iter().filter(|f| on(f)) {
        match f.kind {
            FK::Err(e) if e != EINTR => n.0 += 1,
            FK::Flip(_) => n.1 += 1, // of at least one byte: others are not recorded
            _ => {}
        }
    }
    n
}

fn base(p: &str) -> &str {
    p.rsplit('/').next().unwrap_or(p)
}

fn g04(w: &mut W) {
    w.big = 6;
    let n = w.r.range(2, 7);
    w.project(n, 50);
    let mut many: Vec<String> = Vec::new();
    if w.r.pct(4) {
        let had = w.files.len();
        let failing = w.r.pct(40);
        crowd(w, if failing { 60 } else { 20 }, if failing { 160 } else { 60 });
        if failing {
            // most of them fail
            let share = *w.r.pick(&[100, 97, 90, 60]);
            for f in w.files[had..].to_vec() {
                if w.r.pct(share) {
                    let b = match w.r.below(5) {
                        0 => invalid_utf8(&mut w.r, "v"),
                        _ => invalid_lua(&mut w.r, "v"),
                    };
                    set_content(w, &f, &b);
                    many.push(f);
                }
            }
        }
        w.sc.max_steps = 200_000;
    }
    if w.r.pct(10) {
        w.links();
    }
    let inplace = w.r.pct(65);
    let mut p = w.command(inplace);
    cli_opts(w, &mut p, 10);
    let mut victims: Vec<String> = many;
    let k = w.r.below(3);
    for _ in 0..k {
        let f = w.r.pick(&w.files).clone();
        match w.r.below(9) {
            0 | 1 => {
                let b = invalid_lua(&mut w.r, "v");
                set_content(w, &f, &b);
                victims.push(f);
            }
            2 => {
                let b = invalid_utf8(&mut w.r, "v");
                set_content(w, &f, &b);
                victims.push(f);
            }
            3 => {
                w.sc.chmod(&f, 0o000);
                victims.push(f);
            }
            4 => {
                w.sc.chmod(&f, 0o444);
                victims.push(f);
            }
            5 | 6 => {
                w.io_rules(1, &f, -1);
                victims.push(f);
            }
            _ => {
                let ds: Vec<String> = w.dirs[1..].to_vec();
                if ds.is_empty() {
                    continue;
                }
                let d = w.r.pick(&ds).clone();
                match w.r.below(4) {
                    0 => w.sc.chmod(&d, 0o000),
                    1 => {
                        // a broken configuration
                        let b = broken_config(&mut w.r);
                        let c = format!("{}/.luafmt-.lua", d);
                        w.sc.nodes.retain(|n| !(n.path.starts_with(&d) && is_config_name(base(&n.path).as_bytes())));
                        w.sc.file(&c, &b);
                    }
                    2 => w.rule(-1, -1, ops(&[op::OPENDIR, op::GETDENTS]), &d, 0, 1_000_000, 1000, What::Errs(vec![EIO, ENOMEM, EMFILE])),
                    _ => w.io_rules(1, &d, -1),
                }
                victims.push(d);
            }
        }
    }
    if w.r.pct(12) {
        let x = w.r.pick(&["missing.lua", "nowhere", "0/such.lua", "/p/none.lua"]).to_string();
        p.args.push(x);
    }
    w.sc.params.insert("victims".into(), J::from(victims));
    w.sc.phases.push(Phase { procs: vec![p] });
}

/// a configuration that is a link to where the user may not look, or to itself
fn withheld_config(w: &mut W) {
    let d = w.r.pick(&w.dirs).clone();
    let pre = format!("{}/", d);
    w.sc.nodes.retain(|n| !(n.path.starts_with(&pre) && !n.path[pre.len()..].contains('/') && is_config_name(base(&n.path).as_bytes())));
    let l = format!("{}/.luafmt-.lua", d);
    match w.r.below(4) {
        0 => w.sc.link(&l, ".luafmt-.lua"),
        1 => {
            w.sc.link(&l, "odd-link");
            w.sc.link(&format!("{}/odd-link", d), ".luafmt-.lua");
        }
        _ => {
            let t = w.config_named("/home/v/private", "cfg.lua");
            let o = if w.sc.env.uid == 1001 { 1002 } else { 1001 };
            for n in &mut w.sc.nodes {
                if n.path == "/home/v/private" {
                    n.mode = 0o700;
                    n.uid = o;
                    n.gid = o;
                }
            }
            w.sc.link(&l, &t);
        }
    }
}

/// further names of the same files, which are selected like the others
fn hard_links(w: &mut W, pct: usize) {
    if w.r.pct(pct) {
        for _ in 0..w.r.range(1, 2) {
            let f = w.r.pick(&w.files).clone();
            let p = format!("{}/h{}.lua", w.r.pick(&w.dirs), w.r.below(9));
            w.sc.hard(&p, &f);
            w.files.push(p);
        }
    }
}

/// many more files in one directory
fn crowd(w: &mut W, lo: usize, hi: usize) {
    let d = w.r.pick(&w.dirs).clone();
    for i in 0..w.r.range(lo, hi) {
        let p = format!("{}/n{:03}.lua", d, i);
        let k = w.r.below(40);
        let c = w.pool.small(k).into_bytes();
        w.sc.file(&p, &c);
        w.files.push(p);
    }
}

/// directories below directories
fn chain(w: &mut W, depth: usize) -> String {
    let mut p = w.r.pick(&w.dirs).clone();
    for _ in 0..depth {
        p = format!("{}/{}", p, w.r.pick(&["d", "e.lua", ".f", "g h", "lib", "src"]));
        if w.r.pct(10) {
            w.sc.dir(&p);
            w.dirs.push(p.clone());
        }
    }
    w.sc.dir(&p);
    w.dirs.push(p.clone());
    w.lua_file(&p);
    p
}

fn set_content(w: &mut W, path: &str, c: &[u8]) {
    for nd in &mut w.sc.nodes {
        if nd.path == path {
            nd.kind = NK::File(c.to_vec());
        }
    }
}

fn g05(w: &mut W) {
    w.big = 45;
    let mut c = w.content();
    match w.r.below(13) {
        0 => c = c.iter().flat_map(|&b| if b == b'\n' { vec![b'\r', b'\n'] } else { vec![b] }).collect(),
        1 => c.clear(),
        2 => {
            while c.last() == Some(&b'\n') {
                c.pop();
            }
        }
        3 => c = invalid_utf8(&mut w.r, "u"),
        4 => c = invalid_lua(&mut w.r, "u"),
        5 => {
            let mut d = b"\xef\xbb\xbf".to_vec();
            d.extend_from_slice(&c);
            c = d;
        }
        6 => {
            // what a helpful reader might take for an end or a beginning
            let e: &[u8] = *w.r.pick(&[
                &b"\0"[..], b"\0\0", b"\n-- c\0", b"\x1a", b"\n-- c\x1a", b"\r", b"\r\r\n", b"\n\r", b"\xef\xbb\xbf", b"\x0c", b"\x0b", b"\\", b"\\\n", b"\n.", b"\n.\n",
                b"\n-- c \t", b"\n\x04", b"\n-- \xff",
            ]);
            if w.r.pct(75) {
                c.extend_from_slice(e);
            } else {
                let mut d = e.to_vec();
                d.extend_from_slice(&c);
                c = d;
            }
        }
        7 => c = w.r.pick(&[&b"\n"[..], b"\n\n", b"--[[x]]", b"--[[ y ]]\n", b"-- c", b"  ", b"\r\n", b";"]).to_vec(),
        _ => {}
    }
    let mut o = w.opts();
    if c.len() < 12 && w.r.pct(40) {
        // of which nothing remains
        o = vec![("remove_comments".into(), "true".into()), ("remove_all_newlines".into(), "true".into())];
    }
    let root = w.root.clone();
    let f = format!("{}/f.lua", root);
    w.sc.file(&f, &c);
    let mut extra: Vec<String> = Vec::new();
    if w.r.pct(15) {
        extra.push(format!("--line_range={}:{}", w.r.below(5), 3 + w.r.below(9)));
    }
    let mut cli: Vec<String> = o.iter().map(|(n, v)| format!("--{}={}", n, v)).collect();
    cli.extend(extra.iter().cloned());
    let bycfg = w.r.pct(50) || o.is_empty();
    if bycfg {
        let t = render_config(&o, &mut w.r);
        w.sc.file(&format!("{}/.luafmt.lua", root), t.as_bytes());
    }
    let verb = w.r.below(4);
    let mut a = cli.clone();
    if verb == 1 {
        a.push("-v".into());
    }
    w.sc.phases.push(Phase { procs: vec![ProcSpec { args: a, stdin: c, cwd: root.clone() }] });
    for inplace in [false, true] {
        let mut a = if bycfg { extra.clone() } else { cli.clone() };
        if inplace {
            a.push("-i".into());
        }
        if verb == 1 && !inplace || verb == 2 && inplace {
            a.push("--verbose".into());
        }
        a.push(w.spell(&root, &f, false));
        w.sc.phases.push(Phase { procs: vec![ProcSpec { args: a, stdin: Vec::new(), cwd: root.clone() }] });
    }
    let rw = ops(&[op::READ, op::PREAD, op::WRITE, op::PWRITE]);
    for _ in 0..w.r.range(1, 3) {
        let n = *w.r.pick(&[1usize, 3, 7, 64, 1000, 9000]);
        let (c, pm) = (w.r.range(1, 300) as u32, *w.r.pick(&[1000u32, 500, 100]));
        let skip = w.r.below(5) as u32;
        let ph = w.r.below(4) as i32 - 1;
        if w.r.pct(70) {
            let o = *w.r.pick(&[rw, ops(&[op::READ]), ops(&[op::WRITE])]);
            w.rule(ph, -1, o, "", skip, c, pm, What::Short(n));
        } else {
            w.rule(ph, -1, rw | ops(&[op::OPEN, op::FSYNC, op::GETDENTS]) & !ops(&[op::GETDENTS]), "", skip, c.min(40), 500, What::Errs(vec![EINTR]));
        }
    }
}

fn g06(w: &mut W) {
    w.big = 2;
    let mut hidden: Option<String> = None;
    let n = w.r.range(2, 6);
    w.project(n, 60);
    if w.r.pct(6) {
        let n = w.r.range(6, 45);
        chain(w, n);
    }
    // configurations above, beside, several in one directory, things that only look like one
    if w.r.pct(30) {
        let d = *w.r.pick(&["/", "/home", "/home/u"]);
        w.config(d);
    }
    if w.r.pct(15) {
        let r = w.root.clone();
        w.sc.nodes.retain(|n| !(n.path.starts_with(&r) && n.path[r.len()..].matches('/').count() == 1 && is_config_name(base(&n.path).as_bytes())));
    }
    for _ in 0..w.r.below(4) {
        let d = w.r.pick(&w.dirs).clone();
        match w.r.below(9) {
            0..=2 => {
                for n in [".luafmt.lua", ".luafmt-a.lua", ".luafmtZ.lua", ".luafmt-b.lua", ".luafmt-\u{e0e9}.lua"] {
                    if w.r.pct(60) {
                        w.config_named(&d, n);
                    }
                }
            }
            3 => w.sc.dir(&format!("{}/.luafmt.lua", d)),
            4 => w.sc.link(&format!("{}/.luafmt-0.lua", d), "nowhere"),
            5 => {
                let t = w.config_named("/home/shared", "common.cfg");
                w.sc.link(&format!("{}/.luafmt-1.lua", d), &t);
            }
            6 => {
                let o = w.opts();
                let c = render_config(&o, &mut w.r);
                let n = *w.r.pick(&[".luafmt", ".luafmt.lua.bak", "x.luafmt.lua", ".luafmtlua", "luafmt.lua", ".luafmt.LUA", ".Luafmt.lua"]);
                w.sc.file(&format!("{}/{}", d, n), c.as_bytes());
            }
            7 => w.sc.fifo(&format!("{}/.luafmt-f.lua", d)),
            _ => {
                let b = broken_config(&mut w.r);
                w.sc.file(&format!("{}/.luafmt-9.lua", d), &b);
            }
        }
    }
    if w.r.pct(5) {
        withheld_config(w);
    }
    if w.sc.env.uid != 0 && w.r.pct(12) {
        // a directory on the way that can be passed but not listed
        let d = w.r.pick(&w.dirs).clone();
        let m = *w.r.pick(&[0o311, 0o300, 0o355]);
        w.sc.chmod(&d, m);
        let f: Vec<String> = w.files.iter().filter(|f| f.starts_with(&format!("{}/", d))).cloned().collect();
        if !f.is_empty() {
            hidden = Some(w.r.pick(&f).clone());
        }
    }
    if w.r.pct(40) {
        w.links();
    }
    if w.r.pct(25) {
        // the project seen through a link somewhere else, with a configuration there
        let t = w.r.pick(&w.dirs).clone();
        w.sc.link("/home/v/q/in", &t);
        if w.r.pct(70) {
            w.config("/home/v/q");
        }
        let inplace = w.r.pct(50);
        let mut a = w.flags(inplace, w.r.0 & 1 == 1);
        a.push(w.r.pick(&["/home/v/q/in", "in", "in/"]).to_string());
        w.sc.phases.push(Phase { procs: vec![ProcSpec { args: a, stdin: Vec::new(), cwd: "/home/v/q".into() }] });
    } else {
        let inplace = w.r.pct(50);
        let mut p = w.command(inplace);
        if let Some(f) = &hidden {
            let a = w.spell(&p.cwd.clone(), f, false);
            p.args.push(a);
        }
        cli_opts(w, &mut p, 15);
        if w.r.pct(6) {
            p.args.push("--line_range=1:100000".into());
        }
        w.sc.phases.push(Phase { procs: vec![p] });
    }
}

fn g07(w: &mut W) {
    w.big = 2;
    let n = w.r.range(1, 3);
    // near configurations and others further away to fall back to
    w.project(n, 70);
    let up = *w.r.pick(&["/", "/home", "/home/u"]);
    w.config(up);
    if w.r.pct(30) {
        let d = w.r.pick(&w.dirs).clone();
        w.config_named(&d, ".luafmt-zz.lua");
    }
    if w.r.pct(25) {
        // one that is no use, not even in parts
        let c: Vec<usize> = (0..w.sc.nodes.len()).filter(|&i| is_config_name(base(&w.sc.nodes[i].path).as_bytes())).collect();
        let i = *w.r.pick(&c);
        let b = broken_config(&mut w.r);
        w.sc.nodes[i].kind = NK::File(b);
    }
    if w.r.pct(20) {
        w.links();
    }
    if w.r.pct(6) {
        withheld_config(w);
    }
    if w.r.pct(25) {
        w.sc.env.dtype_unknown = true;
    }
    let inplace = w.r.pct(60);
    let mut p = w.command(inplace);
    if w.r.pct(60) {
        // by name: then listings are made for the configuration only
        let cwd = p.cwd.clone();
        p.args.retain(|a| a.starts_with('-'));
        for f in w.files.clone() {
            p.args.push(w.spell(&cwd, &f, false));
        }
    }
    w.sc.phases.push(Phase { procs: vec![p] });
    if w.r.pct(8) {
        // where the file really is cannot be found out; beside the link there is a configuration that does not count
        let f = w.r.pick(&w.files).clone();
        w.config_named("/home/v/q", ".luafmt.lua");
        w.sc.link("/home/v/q/there.lua", &f);
        let p = &mut w.sc.phases[0].procs[0];
        p.args.retain(|a| a.starts_with('-'));
        p.cwd = "/home/v/q".into();
        let a = *w.r.pick(&["there.lua", "/home/v/q/there.lua", "./there.lua", "."]);
        w.sc.phases[0].procs[0].args.push(a.into());
        let (skip, n) = (w.r.below(3) as u32, if w.r.pct(50) { 1 } else { 1_000_000 });
        w.rule(-1, -1, ops(&[op::REALPATH, op::READLINK]), "/home/v/q/there.lua", skip, n, 1000, What::Errs(vec![EIO, ENOMEM, ESTALE]));
        return;
    }
    let cfgs: Vec<String> =
        w.sc.nodes.iter().filter(|n| is_config_name(base(&n.path).as_bytes())).map(|n| n.path.clone()).collect();
    for _ in 0..w.r.range(1, 2) {
        let c = w.r.pick(&cfgs).clone();
        let d = c[..c.rfind('/').unwrap()].to_string();
        let d = if d.is_empty() { "/".to_string() } else { d };
        let sticky = w.r.pct(50);
        let cnt = if sticky { 1_000_000 } else { 1 };
        let skip = *w.r.pick(&[0u32, 0, 0, 1, 2, 3]);
        match w.r.below(8) {
            0 | 1 => w.rule(-1, -1, ops(&[op::OPENDIR, op::GETDENTS]), &d, skip, cnt, 1000, What::Errs(vec![EIO, EMFILE, ENFILE, ENOMEM])),
            2 => w.rule(-1, -1, ops(&[op::GETDENTS]), &d, skip, cnt, 1000, What::Errs(vec![EIO, ENOMEM])),
            3 => w.rule(-1, -1, ops(&[op::STAT, op::FSTAT]), &c, skip, cnt, 1000, What::Errs(vec![EIO, ENOMEM, ESTALE, EACCES, ELOOP])),
            4 => w.rule(-1, -1, ops(&[op::STAT, op::FSTAT, op::REALPATH, op::READLINK]), "/", skip * 3, cnt, 1000, What::Errs(vec![EIO, ENOMEM])),
            5 => w.rule(-1, -1, ROPEN, &c, skip, cnt, 1000, What::Errs(vec![EIO, EMFILE, EACCES, ENOMEM])),
            6 => {
                w.rule(-1, -1, ops(&[op::READ]), &c, 0, 4, 700, What::Short(30));
                w.rule(-1, -1, ops(&[op::READ]), &c, skip, cnt, 1000, What::Errs(vec![EIO, ESTALE]))
            }
            _ => {
                w.rule(-1, -1, ops(&[op::READ]), &c, 0, 40, 500, What::Errs(vec![EINTR]));
                w.rule(-1, -1, ops(&[op::READ]), &c, skip, cnt, 1000, What::Flip)
            }
        }
    }
}

fn g08(w: &mut W) {
    w.big = 1;
    let n = w.r.range(1, 8);
    w.project(n, 15);
    for _ in 0..w.r.range(2, 6) {
        let d = w.r.pick(&w.dirs).clone();
        match w.r.below(13) {
            0 => {
                // deeper than one might expect
                let n = if w.r.pct(15) { w.r.range(13, 45) } else { w.r.range(3, 12) };
                chain(w, n);
            }
            1 => {
                let p = format!("{}/{}", d, w.r.pick(&["dir.lua", "y.lua", ".luafmtdir", ".luafmt.d"]));
                if !w.sc.has(&p) {
                    w.sc.dir(&p);
                    w.dirs.push(p.clone());
                    w.lua_file(&p);
                }
            }
            2 => w.sc.fifo(&format!("{}/pipe.lua", d)),
            3 => w.sc.link(&format!("{}/dangling.lua", d), "no/where.lua"),
            4 => w.sc.link(&format!("{}/self.lua", d), "self.lua"),
            5 => {
                let t = w.r.pick(&[".", "..", "../.."]).to_string();
                if w.sc.nodes.len() < 60 {
                    w.sc.link(&format!("{}/up{}", d, w.r.0 % 3), &t);
                }
            }
            6 => {
                w.sc.file("/home/o/ext.lua", b"do   ext_1( 1,2 )\nlocal t_={ 1;2 }   end\n");
                w.config_named("/home/o", ".luafmt.lua");
                w.sc.link(&format!("{}/outside", d), "/home/o");
            }
            7 => {
                let f = w.r.pick(&w.files).clone();
                let t = w.relative(&d, &f);
                w.sc.link(&format!("{}/alias.lua", d), &t);
                w.sc.link(&format!("{}/alias.txt", d), &t);
            }
            8 => {
                let x = format!("{}/plain.txt", d);
                let c = w.content();
                w.sc.file(&x, &c);
                w.sc.link(&format!("{}/really-text.lua", d), "plain.txt");
            }
            9 => {
                let x = format!("{}/{}", d, w.r.pick(&[".luafmt-old.lua", ".luafmtx.lua"]));
                let o = w.opts();
                let c = render_config(&o, &mut w.r);
                w.sc.file(&x, c.as_bytes());
            }
            10 => {
                let x = format!("{}/secret", d);
                w.sc.dir(&x);
                let c = w.content();
                w.sc.file(&format!("{}/s.lua", x), &c);
                w.sc.chmod(&x, *w.r.pick(&[0o000, 0o300, 0o400]));
            }
            11 => {
                // many entries
                let links = w.sc.nodes.iter().any(|n| matches!(n.kind, NK::Link(_)));
                let n = if w.r.pct(5) && !links { 600 } else { w.r.range(10, 40) };
                if n == 600 {
                    w.sc.env.getdents_chunk = 0;
                    w.sc.max_steps = 60_000;
                }
                for i in 0..n {
                    w.sc.file(&format!("{}/f{}.txt", d, i), b"x");
                }
                if w.r.pct(20) && !links {
                    crowd(w, 20, 80);
                    w.sc.max_steps = 200_000;
                }
            }
            _ => w.sc.file(&format!("{}/empty.lua", d), b""),
        }
    }
    let inplace = w.r.pct(60);
    let mut p = w.command(inplace);
    if w.r.pct(15) {
        for _ in 0..w.r.range(1, 2) {
            let x = w.r.pick(&["missing.lua", "nowhere", "no/such/dir", "/p/none.lua", "gone.txt", "gone/", "missing.lua/", "/home/none/", "é.x", "sp ace", "*.lua"]).to_string();
            p.args.push(x);
        }
        if w.r.pct(20) {
            let f = w.r.pick(&w.files).clone();
            p.args.push(format!("{}/", f));
        }
    }
    if w.r.pct(15) {
        let f: Vec<String> = w.sc.nodes.iter().filter(|n| matches!(n.kind, NK::File(_)) && n.path.ends_with(".txt")).map(|n| n.path.clone()).collect();
        if !f.is_empty() {
            let x = w.r.pick(&f).clone();
            let cwd = p.cwd.clone();
            p.args.push(w.spell(&cwd, &x, false));
        }
    }
    if w.r.pct(12) {
        // a file argument counts whatever it is called
        let d = w.r.pick(&w.dirs).clone();
        let n = *w.r.pick(&["Makefile", "noext", "dot.", "X.LUA", ".hidden", "run.sh", "lua", "f.lua~", ".lua", "..lua", "a.lua.orig", "-dash", "日本", ".luafmt", ".luafmt.lua.x", "a=b", "--x=1"]);
        let f = format!("{}/{}", d, n);
        if !w.sc.has(&f) {
            let c = w.content();
            w.sc.file(&f, &c);
            let cwd = p.cwd.clone();
            p.args.push(w.spell(&cwd, &f, false));
        }
    }
    if w.r.pct(6) {
        p.args.push(format!("{}/np", w.root));
        let x = format!("{}/np", w.root);
        w.sc.fifo(&x);
    }
    w.sc.phases.push(Phase { procs: vec![p] });
    if w.r.pct(20) {
        // something disappears meanwhile
        let f = w.r.pick(&w.files).clone();
        w.sc.actions.push(Action::Remove(f.clone()));
        w.sc.params.insert("gone".into(), J::from(vec![f]));
        let s = w.r.below(30) as u32;
        w.rule(0, 0, u64::MAX >> 4, "", s, 1, 1000, What::Act(0));
    }
}

fn g09(w: &mut W) {
    let n = w.r.range(1, 4);
    w.project(n, 25);
    if w.r.pct(30) {
        w.links();
    }
    leftovers(w);
    if w.r.pct(40) {
        modes(w);
        let f = w.r.pick(&w.files).clone();
        let m = *w.r.pick(&[0o444, 0o400, 0o555, 0o600, 0]);
        w.sc.chmod(&f, m);
    }
    let mut p = if w.r.pct(25) {
        let cwd = w.cwd();
        let c = w.content();
        ProcSpec { args: Vec::new(), stdin: c, cwd }
    } else {
        w.command(false)
    };
    cli_opts(w, &mut p, 25);
    for _ in 0..w.r.below(3) {
        let x = w.r.pick(&["-v", "--verbose", "-I", "--inplace=true", "--inplace=1", "-n", "--in-place", "--backup", "--line_range=1:3", "-r", "--INPLACE", "--i=1", "-", "--", "--write", "--output=out.lua",
            "-i.bak", "-i2", "-i=", "-i=yes", "---i", "---inplace", "--in", "--inplac", "--inplaced", "--inplace-dry", "-i_", "-vi2", "-w", "-o", "--fix", "--check", "-Inplace", "- i", "-i ", " -i", "--no-inplace", "--inplace=false", "-ii", "-í"]).to_string();
        let at = w.r.below(p.args.len() + 1);
        p.args.insert(at, x);
    }
    if w.r.pct(10) {
        let b = invalid_lua(&mut w.r, "v");
        let f = w.r.pick(&w.files).clone();
        set_content(w, &f, &b);
    }
    w.sc.phases.push(Phase { procs: vec![p] });
    if w.r.pct(60) {
        let k = w.r.range(1, 3);
        w.io_rules(k, "", -1);
    }
    if w.r.pct(20) {
        w.crash_rule(0, 0);
    }
}

fn g10(w: &mut W) {
    w.big = 10;
    let n = w.r.range(1, 5);
    w.project(n, 30);
    if w.r.pct(50) {
        w.links();
    }
    modes(w);
    leftovers(w);
    for _ in 0..w.r.below(3) {
        let d = w.r.pick(&w.dirs).clone();
        match w.r.below(4) {
            0 => w.sc.fifo(&format!("{}/fifo", d)),
            1 => w.sc.link(&format!("{}/updir", d), ".."),
            2 => w.sc.dir(&format!("{}/empty", d)),
            _ => w.sc.chmod(&d, *w.r.pick(&[0o700, 0o775, 0o750])),
        }
    }
    if w.r.pct(10) {
        let f = w.r.pick(&w.files).clone();
        w.sc.chmod(&f, 0o444);
    }
    if w.sc.env.uid == 0 && w.r.pct(60) {
        let f = w.r.pick(&w.files).clone();
        for nd in &mut w.sc.nodes {
            if nd.path == f {
                nd.uid = 1000;
            }
        }
    }
    let mut p = w.command(true);
    cli_opts(w, &mut p, 15);
    if w.r.pct(10) {
        p.args.push("-v".into());
    }
    if w.r.pct(35) {
        w.sc.phases.push(Phase { procs: vec![p.clone()] });
        w.crash_rule(0, 40);
        w.sc.env.pid_reuse = w.r.pct(70);
    }
    let last = w.sc.phases.len() as i32;
    w.sc.phases.push(Phase { procs: vec![p] });
    if w.r.pct(60) {
        let k = w.r.range(1, 3);
        w.io_rules(k, "/", last);
    }
}

fn g11(w: &mut W) {
    w.big = 35;
    if w.r.pct(20) {
        let c = w.content();
        let root = w.root.clone();
        let mut p = ProcSpec { args: Vec::new(), stdin: c, cwd: root };
        cli_opts(w, &mut p, 80);
        w.sc.phases.push(Phase { procs: vec![p] });
    } else {
        let n = w.r.range(1, 5);
        w.project(n, 30);
        if w.r.pct(15) {
            let b = invalid_lua(&mut w.r, "v");
            let f = w.r.pick(&w.files).clone();
            set_content(w, &f, &b);
        }
        let mut p = w.command(false);
        cli_opts(w, &mut p, 20);
        w.sc.phases.push(Phase { procs: vec![p] });
    }
    let v = w.r.below(4);
    w.sc.variant = ["short", "error", "error-late", "full"][v].into();
    let wr = ops(&[op::WRITE]);
    match v {
        0 => {
            let n = *w.r.pick(&[1usize, 10, 500, 4000]);
            w.rule(-1, -1, wr, "<stdout>", 0, 400, 700, What::Short(n));
            w.rule(-1, -1, wr, "<stdout>", 0, 20, 300, What::Errs(vec![EINTR]));
        }
        1 => {
            let s = w.skip_small();
            w.rule(-1, -1, wr, "<stdout>", s, 1_000_000, 1000, What::Errs(vec![EPIPE, EIO, ENOSPC, EDQUOT]));
            w.rule(-1, -1, wr, "<stdout>", 0, 10_000, 500, What::Short(700));
        }
        2 => {
            // only the end does not get through: short, short, error
            let n = *w.r.pick(&[1usize, 30, 300, 3000]);
            let s = w.r.below(20) as u32;
            w.rule(-1, -1, wr, "<stdout>", s, 1_000_000, 1000, What::Errs(vec![ENOSPC, EIO]));
            w.rule(-1, -1, wr, "<stdout>", 0, 1_000_000, 1000, What::Short(n));
        }
        _ => w.rule(-1, -1, wr, "<stdout>", 0, 1_000_000, 1000, What::Errs(vec![ENOSPC, EPIPE])),
    }
}

impl<'a> W<'a> {
    fn skip_small(&mut self) -> u32 {
        let n = *self.r.pick(&[1usize, 2, 5, 20]);
        self.r.below(n) as u32
    }
}

fn g12(w: &mut W) {
    w.big = 40;
    let mut c = w.content();
    let v = w.r.below(6);
    w.sc.variant = ["whole", "read-error", "cut", "invalid-utf8", "invalid-lua", "corrupt-read"][v].into();
    match v {
        2 => {
            let k = w.r.below(c.len() + 1);
            c.truncate(k);
        }
        3 => c = invalid_utf8(&mut w.r, "u"),
        4 => c = invalid_lua(&mut w.r, "u"),
        _ => {}
    }
    let root = w.root.clone();
    if w.r.pct(30) {
        w.config(&root);
    }
    let rd = ops(&[op::READ]);
    if v == 1 {
        let s = w.skip_small();
        let cnt = if w.r.pct(50) { 1 } else { 1_000_000 };
        w.rule(-1, -1, rd, "<stdin>", s, cnt, 1000, What::Errs(vec![EIO, ENOMEM, EAGAIN, EISDIR]));
    }
    if v == 5 {
        let s = w.r.below(2) as u32;
        w.rule(-1, -1, rd, "<stdin>", s, 1, 1000, What::Flip);
    }
    if w.r.pct(70) {
        let n = *w.r.pick(&[1usize, 2, 5, 100, 5000, 9000]);
        let (cnt, pm) = (*w.r.pick(&[5u32, 50, 300]), *w.r.pick(&[1000u32, 500]));
        w.rule(-1, -1, rd, "<stdin>", 0, cnt, pm, What::Short(n));
    }
    if w.r.pct(40) {
        w.rule(-1, -1, rd | ops(&[op::WRITE]), "<", 0, 30, 400, What::Errs(vec![EINTR]));
        // paths of standard streams are <stdin> and <stdout>
        let l = w.sc.rules.len() - 1;
        w.sc.rules[l].under = "<stdin>".into();
    }
    if w.r.pct(30) {
        w.rule(-1, -1, ops(&[op::WRITE]), "<stdout>", 0, 60, 700, What::Short(900));
    }
    let mut p = ProcSpec { args: Vec::new(), stdin: c, cwd: root };
    cli_opts(w, &mut p, 80);
    w.sc.phases.push(Phase { procs: vec![p] });
}

fn g13(w: &mut W) {
    w.big = 15;
    w.shipped = true;
    let n = w.r.range(1, 4);
    w.project(n, 10);
    if w.r.pct(15) {
        w.links();
    }
    hard_links(w, 12);
    modes(w);
    if w.r.pct(30) {
        leftovers(w);
    }
    let p = w.command(true);
    let k = w.r.range(1, 3);
    for i in 0..k {
        w.sc.phases.push(Phase { procs: vec![p.clone()] });
        if w.r.pct(80) {
            w.crash_rule(i as i32, 40);
        }
        if w.r.pct(40) {
            let m = w.r.range(1, 2);
            w.io_rules(m, "/", i as i32);
        }
    }
    w.sc.env.pid_reuse = w.r.pct(70);
    w.sc.phases.push(Phase { procs: vec![p.clone()] });
    w.sc.phases.push(Phase { procs: vec![p] });
}

fn g14(w: &mut W) {
    w.big = 8;
    let n = w.r.range(1, 3);
    w.project(n, 20);
    if w.r.pct(15) {
        let f = w.r.pick(&w.files).clone();
        let d = w.root.clone();
        let t = w.relative(&d, &f);
        w.sc.link(&format!("{}/alias.lua", d), &t);
    }
    hard_links(w, 12);
    let k = w.r.range(2, 3);
    let mut procs = Vec::new();
    for i in 0..k {
        let inplace = i == 0 || w.r.pct(75);
        let mut p = w.command(inplace);
        cli_opts(w, &mut p, 15);
        procs.push(p);
    }
    w.sc.phases.push(Phase { procs });
    w.sc.sticky_sched = *w.r.pick(&[0u32, 0, 50, 80, 93]);
    if w.r.pct(50) {
        w.rule(-1, -1, ops(&[op::WRITE, op::READ]), "/", 0, 60, 500, What::Short(500));
    }
}

fn g15(w: &mut W) {
    w.big = 4;
    let n = w.r.range(1, 4);
    w.project(n, 20);
    for _ in 0..w.r.range(1, 4) {
        let d = w.r.pick(&w.dirs).clone();
        match w.r.below(9) {
            0 | 1 => {
                let t = w.r.pick(&[".", "..", "../..", "/"]).to_string();
                let n = w.r.pick(&["loop", "again.lua", ".luafmt-l.lua"]).to_string();
                if t != "/" || w.dirs.len() < 4 {
                    w.sc.link(&format!("{}/{}", d, n), &t);
                }
            }
            2 => {
                let t = w.r.pick(&w.dirs).clone();
                let t = w.relative(&d, &t);
                w.sc.link(&format!("{}/other", d), &t);
            }
            3 => w.sc.fifo(&format!("{}/pipe.lua", d)),
            4 => w.sc.fifo(&format!("{}/.luafmt-0.lua", d)),
            5 => w.sc.dir(&format!("{}/.luafmt-0.lua", d)),
            6 => {
                w.sc.link(&format!("{}/s1.lua", d), "s2.lua");
                w.sc.link(&format!("{}/s2.lua", d), "s1.lua");
            }
            7 => {
                // every leftover name an earlier run with the same pid may have made
                let pid = w.sc.env.pid_base;
                for i in 0..w.r.range(1, 30) {
                    w.sc.file(&format!("{}/.luafmt-{}-{}.tmp", d, pid, i), b"x = 1\n");
                }
            }
            _ => {
                w.sc.fifo(&format!("{}/q/p.lua", d));
                w.sc.link(&format!("{}/q/up", d), "../..");
            }
        }
    }
    let inplace = w.r.pct(60);
    let mut p = w.command(inplace);
    if w.r.pct(10) {
        // by name, or by the name of a link to it
        let d = w.r.pick(&w.dirs).clone();
        let n = *w.r.pick(&["named.lua", "named", ".luafmt-n.lua"]);
        let f = format!("{}/{}", d, n);
        if !w.sc.has(&f) {
            w.sc.fifo(&f);
            let mut a = f.clone();
            if w.r.pct(30) {
                a = format!("{}/tofifo.lua", d);
                w.sc.link(&a, n);
            }
            let cwd = p.cwd.clone();
            let a = w.spell(&cwd, &a, false);
            p.args.push(a);
        }
    }
    w.sc.phases.push(Phase { procs: vec![p] });
    if w.r.pct(40) {
        let k = w.r.range(1, 3);
        w.io_rules(k, "/", -1);
    }
    if w.r.pct(40) {
        // a storm of signals
        let o = ops(&[op::READ, op::WRITE, op::OPEN, op::FSYNC]);
        let (c, pm) = (w.r.range(20, 400) as u32, *w.r.pick(&[1000u32, 900, 300]));
        w.rule(-1, -1, o, "/", 0, c, pm, What::Errs(vec![EINTR]));
    }
    w.sc.max_steps = 12_000;
}

fn g17(w: &mut W) {
    w.big = 4;
    let n = w.r.range(1, 7);
    w.project(n, 40);
    if w.r.pct(30) {
        w.links();
    }
    if w.r.pct(25) {
        let d = w.r.pick(&w.dirs).clone();
        for nme in [".luafmt.lua", ".luafmt-a.lua", ".luafmtZ.lua", ".luafmt-b.lua"] {
            w.config_named(&d, nme);
        }
    }
    if w.r.pct(30) {
        let b = if w.r.pct(50) { invalid_lua(&mut w.r, "v") } else { invalid_utf8(&mut w.r, "v") };
        let f = w.r.pick(&w.files).clone();
        set_content(w, &f, &b);
    }
    if w.r.pct(15) {
        let d = w.r.pick(&w.dirs).clone();
        w.sc.link(&format!("{}/updir", d), "..");
    }
    if w.r.pct(15) && w.dirs.len() > 1 {
        let d = w.dirs[1].clone();
        w.sc.chmod(&d, 0);
    }
    let inplace = w.r.pct(40);
    let mut p = w.command(inplace);
    if w.r.pct(15) {
        p.args.retain(|a| a.starts_with("--") && a.contains('='));
        p.stdin = w.content();
    }
    cli_opts(w, &mut p, 20);
    if w.r.pct(25) {
        p.args.push("-v".into());
    }
    if w.r.pct(10) {
        p.args.push("missing.lua".into());
    }
    if inplace && w.r.pct(20) {
        // a disk on which something always fails, the same way in both runs
        let root = w.root.clone();
        let (o, e) = match w.r.below(6) {
            0 => (ops(&[op::WRITE, op::PWRITE]), ENOSPC),
            1 => (ops(&[op::WRITE, op::PWRITE]), EIO),
            2 => (ops(&[op::FSYNC]), EIO),
            3 => (ops(&[op::RENAME]), EPERM),
            4 => (ops(&[op::FCHMOD]), EPERM),
            _ => (ops(&[op::READ, op::PREAD]), EIO),
        };
        w.rule(-1, -1, o, &root, 0, 100_000, 1000, What::Errs(vec![e]));
    }
    w.sc.phases.push(Phase { procs: vec![p] });
}

fn g18(w: &mut W) {
    w.big = 0;
    let n = w.r.range(3, 8);
    w.project(n, 30);
    if w.r.pct(50) {
        let n = w.r.range(5, 30);
        chain(w, n);
    }
    if w.r.pct(70) {
        crowd(w, 25, 70);
    }
    if w.r.pct(10) {
        // larger ones
        let d = w.r.pick(&w.dirs).clone();
        for i in 0..w.r.range(25, 40) {
            let k = w.r.below(7) + 13 * w.r.below(3);
            let big = w.r.pct(80);
            let c = if big { w.pool.big(k) } else { w.pool.small(k) };
            let p = format!("{}/o{:03}.lua", d, i);
            w.sc.file(&p, c.as_bytes());
            w.files.push(p);
        }
    }
    if w.r.pct(50) {
        // many directories beside one another, some with a configuration
        let d = w.r.pick(&w.dirs).clone();
        for i in 0..w.r.range(15, 50) {
            let p = format!("{}/m{:02}", d, i);
            w.sc.dir(&p);
            w.dirs.push(p.clone());
            w.lua_file(&p);
            if w.r.pct(30) {
                w.config(&p);
            }
        }
    }
    let bad = *w.r.pick(&[0usize, 0, 30, 90]);
    for f in w.files.clone() {
        if !w.r.pct(bad) {
            continue;
        }
        match w.r.below(5) {
            0 | 1 => {
                let b = invalid_lua(&mut w.r, "v");
                set_content(w, &f, &b);
            }
            2 => {
                let b = invalid_utf8(&mut w.r, "v");
                set_content(w, &f, &b);
            }
            3 => w.sc.chmod(&f, 0o444),
            _ => w.sc.chmod(&f, 0o000),
        }
    }
    for d in w.dirs[1..].to_vec() {
        if w.r.pct(bad / 4) {
            match w.r.below(3) {
                0 => w.sc.chmod(&d, 0o555),
                1 => w.sc.chmod(&d, *w.r.pick(&[0o000, 0o300])),
                _ => {
                    let b = broken_config(&mut w.r);
                    w.sc.file(&format!("{}/.luafmt-.lua", d), &b);
                }
            }
        }
    }
    let inplace = w.r.pct(60);
    let mut p = w.command(inplace);
    if w.r.pct(70) {
        // all of it
        let (cwd, root) = (p.cwd.clone(), w.root.clone());
        p.args = w.flags(inplace, true);
        let a = w.spell(&cwd, &root, true);
        p.args.push(a);
    }
    cli_opts(w, &mut p, 15);
    w.sc.phases.push(Phase { procs: vec![p] });
    let depth = w.sc.nodes.iter().map(|n| n.path.matches('/').count()).max().unwrap_or(0) as u32;
    w.sc.env.nofile = 16 + depth;
    w.sc.max_steps = 400_000;
}

/// who else is on the machine: (uid, gid)
const OTHERS: &[(u32, u32, &str)] = &[
    (1001, 1001, "the user 1001"),
    (3000, 3000, "a stranger"),
    (3001, 500, "a member of group 500"),
    (3002, 600, "a member of group 600"),
    (3003, 1000, "a member of the group of the user who runs luafmt"),
];

fn g19(w: &mut W) {
    w.big = 10;
    let n = w.r.range(1, 4);
    w.project(n, 25);
    if w.r.pct(15) {
        w.links();
    }
    if w.sc.env.uid != 0 && w.r.pct(50) {
        w.sc.env.sup = 500;
    }
    w.sc.env.umask = *w.r.pick(&[0o022, 0o077, 0o002, 0, 0o027]);
    // all sources are protected alike
    let me = w.sc.env.uid;
    let (uid, gid, mode) = loop {
        let c = (
            *w.r.pick(&[me, me, me, 1001]),
            *w.r.pick(&[me, me, 500, 600]),
            *w.r.pick(&[0o600, 0o600, 0o640, 0o660, 0o644, 0o664, 0o666, 0o700, 0o750, 0o400, 0o755, 0o620]),
        );
        let bits = if me == 0 { 6 } else if c.0 == me { c.2 >> 6 } else if c.1 == me || c.1 == w.sc.env.sup { c.2 >> 3 } else { c.2 };
        if bits & 6 == 6 {
            break c;
        }
    };
    for n in &mut w.sc.nodes {
        if matches!(n.kind, NK::File(_)) && !is_config_name(base(&n.path).as_bytes()) {
            n.uid = uid;
            n.gid = gid;
            n.mode = mode;
        }
    }
    w.sc.params.insert("class".into(), J::from(vec![uid.to_string(), gid.to_string(), mode.to_string()]));
    let mut p = w.command(true);
    cli_opts(w, &mut p, 15);
    w.sc.phases.push(Phase { procs: vec![p] });
    if w.r.pct(40) {
        let k = w.r.range(1, 2);
        w.io_rules(k, "/", -1);
    }
    if w.r.pct(20) {
        w.rule(-1, -1, ops(&[op::FCHMOD, op::CHMOD, op::FCHOWN, op::CHOWN]), "/", 0, 3, 500, What::Errs(vec![EPERM, EIO, EINVAL]));
    }
    if w.r.pct(30) {
        w.rule(-1, -1, ops(&[op::WRITE]), "/", 0, 60, 700, What::Short(300));
    }
    if w.r.pct(25) {
        w.crash_rule(0, 0);
    }
}

fn g20(w: &mut W) {
    w.big = 6;
    let n = w.r.range(2, 6);
    w.project(n, 40);
    let inplace = w.r.pct(70);
    let mut p = w.command(inplace);
    cli_opts(w, &mut p, 15);
    w.sc.phases.push(Phase { procs: vec![p] });
    let mut config = false;
    let span = 12 * (w.files.len() + w.dirs.len());
    let mut at: Vec<usize> = (0..w.r.range(1, 4)).map(|_| w.r.below(span)).collect();
    at.sort();
    for a in at {
        let f = w.r.pick(&w.files).clone();
        let i = w.sc.actions.len();
        match w.r.below(12) {
            0..=3 => {
                let c = w.content();
                w.sc.actions.push(Action::Replace(f, c));
            }
            4 => {
                let b = if w.r.pct(50) { invalid_lua(&mut w.r, "e") } else { invalid_utf8(&mut w.r, "e") };
                w.sc.actions.push(Action::Replace(f, b));
            }
            5 | 6 => w.sc.actions.push(Action::Remove(f)),
            7 => {
                let d = w.r.pick(&w.dirs).clone();
                let c = w.content();
                let n = *w.r.pick(&["0new.lua", "new.lua", "zz.lua", "new.txt"]);
                w.sc.actions.push(Action::Replace(format!("{}/{}", d, n), c));
            }
            8 => {
                let m = *w.r.pick(&[0o444, 0o000, 0o600, 0o664]);
                w.sc.actions.push(Action::Chmod(f, m));
            }
            9 => {
                w.sc.actions.push(Action::Remove(f.clone()));
                w.rule(0, 0, u64::MAX >> 4, "", a as u32, 1, 1000, What::Act(i));
                w.sc.actions.push(Action::Mkdir(f));
            }
            _ if config => continue,
            _ => {
                config = true;
                let cfgs: Vec<String> =
                    w.sc.nodes.iter().filter(|n| is_config_name(base(&n.path).as_bytes())).map(|n| n.path.clone()).collect();
                let c = w.r.pick(&cfgs).clone();
                match w.r.below(4) {
                    0 | 1 => {
                        let o = w.opts();
                        let t = render_config(&o, &mut w.r);
                        w.sc.actions.push(Action::Replace(c, t.into_bytes()));
                    }
                    2 => w.sc.actions.push(Action::Remove(c)),
                    _ => {
                        let d = w.r.pick(&w.dirs).clone();
                        let o = w.opts();
                        let t = render_config(&o, &mut w.r);
                        w.sc.actions.push(Action::Replace(format!("{}/.luafmt-.lua", d), t.into_bytes()));
                    }
                }
            }
        }
        let i = w.sc.actions.len() - 1;
        w.rule(0, 0, u64::MAX >> 4, "", a as u32, 1, 1000, What::Act(i));
    }
}

// ---------------------------------------------------------------- expectations

pub struct Target {
    pub canon: String,
    pub sels: Vec<Sel>,
    pub old: Bytes,
    /// old, formatted once, twice, ... as often as the arguments select it; just [old] if it cannot be formatted
    pub chain: Vec<Bytes>,
    pub rejected: bool,
    /// crashes the program when it is the only file
    pub crashes: bool,
}

pub fn cred(sc: &Scenario) -> Cred {
    Cred { uid: sc.env.uid, gid: sc.env.uid, sup: sc.env.sup }
}

/// options and further arguments that count for a file; None: there is no usable configuration
fn effective(v: &Vfs, canon: &str, c: Cred, cmd: &Cmd) -> Option<(Opts, Vec<String>)> {
    let mut extra: Vec<String> = cmd.opts.iter().map(|(n, v)| format!("--{}={}", n, v)).collect();
    if let Some(r) = &cmd.range {
        extra.push(format!("--line_range={}", r));
    }
    if !cmd.opts.is_empty() {
        return Some((Vec::new(), extra));
    }
    match config_for(v, canon, c) {
        Cfg::File(_, Some(o)) => Some((o, extra)),
        _ => None,
    }
}

/// None: no judgement possible
fn format_once(ctx: &mut Ctx, kind: RefKind, content: &[u8], eff: &Option<(Opts, Vec<String>)>) -> Option<Option<Bytes>> {
    match eff {
        None => Some(None),
        Some((o, x)) => match ctx.refs.get(&mut ctx.srv, kind, content, o, x) {
            Ref::Ok(b) => Some(Some(b)),
            Ref::Rejected => Some(None),
            Ref::Abnormal => None,
        },
    }
}

fn targets(ctx: &mut Ctx, v: &Vfs, sc: &Scenario, p: &ProcSpec, rounds: usize) -> Option<(Vec<Target>, Selection, Cmd)> {
    let r = all_targets(ctx, v, sc, p, rounds);
    if r.0.iter().any(|t| t.crashes) {
        return None;
    }
    Some(r)
}

fn all_targets(ctx: &mut Ctx, v: &Vfs, sc: &Scenario, p: &ProcSpec, rounds: usize) -> (Vec<Target>, Selection, Cmd) {
    let cmd = parse_cmd(p);
    let c = cred(sc);
    let sel = select(v, &p.cwd, c, &cmd);
    let kind = if cmd.inplace { RefKind::InPlace } else { RefKind::Print };
    let mut by: BTreeMap<String, Target> = BTreeMap::new();
    for s in &sel.sels {
        let data = v.inodes[s.ino].data.clone();
        let t = by.entry(s.canon.clone()).or_insert_with(|| Target {
            canon: s.canon.clone(),
            sels: Vec::new(),
            old: data.clone(),
            chain: vec![data],
            rejected: false,
            crashes: false,
        });
        t.sels.push(s.clone());
    }
    let mut out = Vec::new();
    for (_, mut t) in by {
        let eff = effective(v, &t.canon, c, &cmd);
        if v.perm(t.sels[0].ino, 4, c).is_err() {
            t.rejected = true;
        } else {
            let n = if cmd.inplace { t.sels.len() * rounds } else { 1 };
            for i in 0..n {
                match format_once(ctx, kind, &t.chain[i].clone(), &eff) {
                    None => {
                        t.crashes = true;
                        break;
                    }
                    Some(Some(b)) => {
                        let same = b == t.chain[i];
                        t.chain.push(b);
                        if same {
                            break;
                        }
                    }
                    Some(None) => {
                        if i == 0 {
                            t.rejected = true;
                        }
                        break;
                    }
                }
            }
        }
        out.push(t);
    }
    (out, sel, cmd)
}

/// Is there something to be said about arguments or configurations although nothing fails?
fn idle(sc: &Scenario) -> bool {
    sc.phases.iter().any(|p| p.procs.iter().any(|p| p.args.iter().any(|a| IDLE_ARGS.contains(&a.as_str()))))
        || sc.nodes.iter().any(|n| match &n.kind {
            NK::File(c) => String::from_utf8_lossy(c).lines().any(|l| IDLE.contains(&l.trim())),
            _ => false,
        })
}

/// Does the shipped configuration make the formatter wrap a line of this text? What it does then is not
/// always what it does to its own result, which is a matter of the formatter alone.
fn wraps(ctx: &mut Ctx, t: &Target) -> bool {
    let mut o: Opts = shipped();
    for x in o.iter_mut().filter(|x| x.0 == "max_width") {
        x.1 = "1000000".into();
    }
    match format_once(ctx, RefKind::InPlace, &t.old, &Some((o, Vec::new()))) {
        Some(Some(b)) => b != t.chain[1],
        _ => true,
    }
}

impl Target {
    fn last(&self) -> &Bytes {
        self.chain.last().unwrap()
    }
    fn allows(&self, c: &Bytes) -> bool {
        self.chain.iter().any(|x| Rc::ptr_eq(x, c) || x == c)
    }
}

fn short(b: &[u8]) -> String {
    let t = String::from_utf8_lossy(&b[..b.len().min(160)]).into_owned();
    format!("{} bytes {:?}", b.len(), t)
}

fn tail(s: &str) -> String {
    let t: String = s.chars().take(600).collect();
    format!("{:?}", t)
}

/// stdout is made of these texts, each used between min and max times; each piece has alternatives
pub struct Piece {
    pub alts: Vec<Bytes>,
    pub min: usize,
    pub max: usize,
}

pub fn concat_of(out: &[u8], pieces: &[Piece]) -> bool {
    fn go(out: &[u8], at: usize, pieces: &[Piece], used: &mut Vec<usize>, seen: &mut BTreeSet<(usize, Vec<usize>)>, fuel: &mut u32) -> bool {
        if *fuel == 0 {
            return true; // too ambiguous to refute
        }
        *fuel -= 1;
        if at == out.len() && pieces.iter().zip(used.iter()).all(|(p, &u)| u >= p.min || p.alts.iter().any(|a| a.is_empty())) {
            return true;
        }
        if !seen.insert((at, used.clone())) {
            return false;
        }
        for i in 0..pieces.len() {
            if used[i] >= pieces[i].max {
                continue;
            }
            for a in &pieces[i].alts {
                if !a.is_empty() && out[at..].starts_with(a) {
                    used[i] += 1;
                    if go(out, at + a.len(), pieces, used, seen, fuel) {
                        return true;
                    }
                    used[i] -= 1;
                }
            }
        }
        false
    }
    go(out, 0, pieces, &mut vec![0; pieces.len()], &mut BTreeSet::new(), &mut 20_000)
}

/// `out` is a beginning of some such concatenation
pub fn prefix_of_concat(out: &[u8], pieces: &[Piece]) -> bool {
    fn go(out: &[u8], at: usize, pieces: &[Piece], used: &mut Vec<usize>, fuel: &mut u32) -> bool {
        if at >= out.len() {
            return true;
        }
        if *fuel == 0 {
            return true;
        }
        *fuel -= 1;
        for i in 0..pieces.len() {
            if used[i] >= pieces[i].max {
                continue;
            }
            for a in &pieces[i].alts {
                let n = a.len().min(out.len() - at);
                if !a.is_empty() && out[at..at + n] == a[..n] {
                    used[i] += 1;
                    if go(out, at + n, pieces, used, fuel) {
                        return true;
                    }
                    used[i] -= 1;
                }
            }
        }
        false
    }
    go(out, 0, pieces, &mut vec![0; pieces.len()], &mut 20_000)
}

fn abnormal(r: &ProcResult) -> Option<String> {
    if r.killed {
        return None;
    }
    if let Some(s) = &r.stuck {
        return Some(format!("the run does not end: {}", s));
    }
    if r.signal() != 0 {
        return Some(format!("the run dies of signal {}", r.signal()));
    }
    if r.exit_code() == Some(101) {
        return Some(format!("the run panics: {}", tail(&r.err_text())));
    }
    None
}

fn has_dir_links(v: &Vfs) -> bool {
    v.dump().iter().any(|(p, e)| {
        e.kind == 'l' && v.lookup(0, p, true, Cred { uid: 0, gid: 0, sup: 0 }).map_or(false, |i| v.is_dir(i))
    })
}

/// differences between two trees apart from the contents of `but`
fn diff(a: &Vfs, b: &Vfs, but: &[String], owner: bool) -> Option<String> {
    diff_(a, b, but, owner, false)
}

/// `lost_group`: a group could not be kept, and then need not keep its rights
fn diff_(a: &Vfs, b: &Vfs, but: &[String], owner: bool, lost_group: bool) -> Option<String> {
    let (x, y) = (a.dump(), b.dump());
    for (p, e) in &x {
        let ps = String::from_utf8_lossy(p).into_owned();
        match y.get(p) {
            None => return Some(format!("{} is gone", ps)),
            Some(f) => {
                if e.kind != f.kind {
                    return Some(format!("{} was of type {} and is of type {}", ps, e.kind, f.kind));
                }
                if e.mode != f.mode && !(lost_group && (e.mode ^ f.mode) & !0o070 == 0 && f.mode & !e.mode == 0) {
                    return Some(format!("the mode of {} was {:o} and is {:o}", ps, e.mode, f.mode));
                }
                if owner && (e.uid != f.uid || e.gid != f.gid) {
                    return Some(format!("{} belonged to {}:{} and belongs to {}:{}", ps, e.uid, e.gid, f.uid, f.gid));
                }
                if e.target != f.target {
                    return Some(format!("the link {} points elsewhere", ps));
                }
                if e.data != f.data && !but.contains(&ps) {
                    return Some(format!("the content of {} changed from {} to {}", ps, short(&e.data), short(&f.data)));
                }
            }
        }
    }
    for (p, e) in &y {
        if !x.contains_key(p) {
            return Some(format!("{} (type {}, {}) is new", String::from_utf8_lossy(p), e.kind, short(&e.data)));
        }
    }
    None
}

fn victims(sc: &Scenario) -> Vec<String> {
    sc.p("victims").arr().iter().map(|x| x.str().to_string()).collect()
}
fn hit(vs: &[String], p: &str) -> bool {
    vs.iter().any(|v| p == v || p.starts_with(&format!("{}/", v)))
}
/// the file itself is one, or there is no way to it but through one
fn is_victim(vs: &[String], t: &Target) -> bool {
    hit(vs, &t.canon) || t.sels.iter().all(|s| hit(vs, &s.place))
}
/// ways to the file that avoid victims
fn clear_ways(vs: &[String], t: &Target) -> usize {
    t.sels.iter().filter(|s| !hit(vs, &s.place)).count()
}

// ---------------------------------------------------------------- checking

pub fn evaluate(ctx: &mut Ctx, sc: &Scenario, mode: Mode, trace: bool) -> Verdict {
    if sc.prop == "C16" {
        return crate::libprop::evaluate(ctx, sc, mode, trace);
    }
    let v0 = sc.build();
    ctx.refs.lossy = None;
    ctx.refs.vote = matches!(sc.prop.as_str(), "C01" | "C02" | "C10" | "C11" | "C12" | "C13" | "C14");
    let mut skip = false;
    let mut notes: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut fail: Option<String> = None;
    let mut nontrivial = false;
    let runs: Run;
    let p0 = sc.phases[0].procs.get(0).cloned().unwrap_or(ProcSpec { args: vec![], stdin: vec![], cwd: "/".into() });

    macro_rules! note {
        ($k:expr, $n:expr) => {
            *notes.entry($k).or_default() += $n as u64
        };
    }

    match sc.prop.as_str() {
        "C01" => {
            let rounds = sc.phases.len();
            match targets(ctx, &v0, sc, &p0, rounds) {
                None => {
                    skip = true;
                    runs = run(&mut ctx.srv, sc, mode, &mut |_, _| None, trace);
                }
                Some((ts, _, _)) => {
                    let mut ver = v0.version;
                    let mut events = 0u64;
                    let mut images = 0u64;
                    let mut ph = 0;
                    let check = |v: &Vfs, what: &str| -> Option<String> {
                        for t in &ts {
                            match v.read_path(t.canon.as_bytes()) {
                                None => return Some(format!("{}, {} is missing (or no regular file)", what, t.canon)),
                                Some(c) if !t.allows(&c) => {
                                    return Some(format!(
                                        "{}, {} holds neither its old nor its complete new content, but {}",
                                        what,
                                        t.canon,
                                        short(&c)
                                    ))
                                }
                                _ => {}
                            }
                        }
                        None
                    };
                    let r = run(
                        &mut ctx.srv,
                        sc,
                        mode,
                        &mut |k, e| {
                            if e.phase != ph {
                                ph = e.phase;
                                ver = u64::MAX;
                            }
                            if k.vfs.version == ver {
                                return None;
                            }
                            ver = k.vfs.version;
                            events += 1;
                            let at = format!(
                                "after {}({})",
                                crate::kernel::NAMES[e.req.op as usize],
                                String::from_utf8_lossy(e.path)
                            );
                            if let Some(f) = check(&k.vfs, &format!("if the run is interrupted {}", at)) {
                                return Some(f);
                            }
                            let mut g = Rng::new(mix2(sc.noise, mix2(e.phase as u64, k.vfs.version)));
                            for _ in 0..2 {
                                images += 1;
                                let img = k.vfs.power_loss_image(&mut g);
                                if let Some(f) = check(&img, &format!("if power fails {}", at)) {
                                    return Some(f);
                                }
                            }
                            None
                        },
                        trace,
                    );
                    fail = r.observed.clone();
                    if fail.is_none() {
                        for (i, q) in r.phases.iter().enumerate() {
                            fail = fail.or(check(&q.fs, &format!("at the end of run {}", i + 1)));
                        }
                    }
                    nontrivial = events > 0;
                    note!("mutation points checked", events);
                    note!("power-loss images checked", images);
                    runs = r;
                }
            }
        }
        "C02" => {
            let t = targets(ctx, &v0, sc, &p0, 1);
            runs = run(&mut ctx.srv, sc, mode, &mut |_, _| None, trace);
            match t {
                None => skip = true,
                Some((ts, sel, _)) => {
                    let q = &runs.phases[0];
                    let pr = &q.procs[0];
                    let err = pr.err_text();
                    if let Some(s) = &pr.stuck {
                        fail = Some(format!("the run does not end: {}", s));
                    }
                    for t in &ts {
                        let now = q.fs.read_path(t.canon.as_bytes());
                        match &now {
                            Some(c) if t.allows(c) => {
                                let done = c == t.last() && !t.rejected;
                                if done {
                                    note!("files formatted", 1);
                                } else {
                                    note!("files left old", 1);
                                    if !t.sels.iter().any(|s| mentions(&err, s)) {
                                        fail = Some(format!(
                                            "{} was not formatted and nothing on stderr says so (status {:x}, stderr {})",
                                            t.canon,
                                            pr.status,
                                            tail(&err)
                                        ));
                                    }
                                }
                            }
                            _ => {
                                fail = Some(format!(
                                    "{} is damaged: neither its old nor its complete new content, but {} (stderr {})",
                                    t.canon,
                                    now.map_or("missing".into(), |c| short(&c)),
                                    tail(&err)
                                ));
                            }
                        }
                    }
                    nontrivial = runs.injected > 0 && !sel.sels.is_empty();
                }
            }
        }
        "C03" | "C04" => {
            let (ts, _, cmd) = all_targets(ctx, &v0, sc, &p0, 1);
            runs = run(&mut ctx.srv, sc, mode, &mut |_, _| None, trace);
            {
                {
                    let q = &runs.phases[0];
                    let pr = &q.procs[0];
                    let err = pr.err_text();
                    let vs = victims(sc);
                    let dl = has_dir_links(&v0);
                    let mut pieces = Vec::new();
                    let mut certain: Vec<String> = Vec::new();
                    if sc.prop == "C03" {
                        fail = abnormal(pr);
                    } else if let Some(s) = &pr.stuck {
                        fail = Some(format!("the run does not end: {}", s));
                    }
                    let all = ts.len();
                    let by: Vec<String> = sc.p("by").arr().iter().map(|x| x.str().to_string()).collect();
                    for t in &ts {
                        if t.crashes {
                            // nothing is known of this file; what happens to the others counts
                            note!("files that crash the program", 1);
                            if t.chain.len() > 1 {
                                pieces.push(Piece { alts: vec![t.chain[1].clone()], min: 0, max: t.sels.len().max(8) });
                            }
                            continue;
                        }
                        let mut vic = is_victim(&vs, t);
                        if !by.is_empty() && cmd.opts.is_empty() {
                            if let Cfg::File(p, _) = config_for(&v0, &t.canon, cred(sc)) {
                                vic |= by.contains(&p);
                            }
                        }
                        if vic && !by.is_empty() {
                            // through the file itself or through its configuration
                            let own = by.contains(&t.canon);
                            let (mut e, mut f) = (0, 0);
                            for b in by.iter().filter(|b| !own || **b == t.canon) {
                                let h = hits(&runs.plan, b);
                                e += h.0;
                                f += h.1;
                            }
                            if e + f == 0 {
                                vic = false;
                            } else if own && t.sels.len() > 1 || e == 0 && (f < 2 || t.old.is_empty()) {
                                // some of its turns may have got through
                                if !t.rejected {
                                    pieces.push(Piece { alts: vec![t.chain[1].clone()], min: 0, max: t.sels.len().max(8) });
                                }
                                continue;
                            }
                        }
                        let now = q.fs.read_path(t.canon.as_bytes());
                        if vic {
                            note!("victims", 1);
                            certain.push(t.canon.clone());
                        }
                        if sc.prop == "C03" {
                            if vic {
                                nontrivial = true;
                                if now.as_ref() != Some(&t.old) {
                                    fail = Some(format!(
                                        "{} cannot be formatted ({}) and yet was changed to {}",
                                        t.canon,
                                        sc.variant,
                                        now.map_or("nothing".into(), |c| short(&c))
                                    ));
                                } else if sc.variant == "write-protected" && t.chain.get(1) == Some(&t.old) {
                                    // there is nothing to write
                                } else if fail.is_none() && !t.sels.iter().all(|s| names(&err, &s.given) || names(&err, &t.canon)) {
                                    fail = Some(format!(
                                        "{} cannot be formatted ({}) and stderr does not name it (status {:x}, stderr {})",
                                        t.canon,
                                        sc.variant,
                                        pr.status,
                                        tail(&err)
                                    ));
                                }
                            } else if !t.rejected {
                                pieces.push(Piece { alts: vec![t.chain[1].clone()], min: 1, max: if dl { t.sels.len().max(8) } else { t.sels.len() } });
                                pieces.last_mut().unwrap().min = if dl { 1 } else { t.sels.len() };
                            }
                        } else if !vic {
                            nontrivial |= all > 1;
                            if t.rejected {
                                if now.as_ref() != Some(&t.old) {
                                    fail = Some(format!("{} is rejected when alone but was changed here", t.canon));
                                }
                                continue;
                            }
                            note!("bystanders", 1);
                            let sure = clear_ways(&vs, t);
                            let ok = if cmd.inplace {
                                now.as_ref() == Some(t.last())
                                    || dl && now.as_ref().map_or(false, |c| *c != t.old && t.allows(c))
                                    || sure < t.sels.len()
                                        && now.as_ref().map_or(false, |c| t.chain[sure.min(t.chain.len() - 1)..].contains(c))
                            } else {
                                true
                            };
                            if !ok {
                                fail = Some(format!(
                                    "{} is formatted differently than when it is the only file: expected {}, found {} (status {:x}, stderr {})",
                                    t.canon,
                                    short(t.last()),
                                    now.map_or("nothing".into(), |c| short(&c)),
                                    pr.status,
                                    tail(&err)
                                ));
                            }
                            pieces.push(Piece { alts: vec![t.chain[1].clone()], min: if dl { 1 } else { sure }, max: if dl { t.sels.len().max(8) } else { t.sels.len() } });
                        } else if !t.rejected {
                            // a victim may still get through
                            pieces.push(Piece { alts: vec![t.chain[1].clone()], min: 0, max: t.sels.len().max(8) });
                        }
                    }
                    if fail.is_none() && !cmd.verbose {
                        if cmd.inplace {
                            if !pr.out.is_empty() {
                                fail = Some(format!("an in-place run printed {}", short(&pr.out)));
                            }
                        } else if !concat_of(&pr.out, &pieces) {
                            fail = Some(format!(
                                "stdout is not made of the formatted texts of the files that can be formatted: {} (expected {} texts; stderr {})",
                                short(&pr.out),
                                pieces.len(),
                                tail(&err)
                            ));
                        }
                    }
                    if fail.is_none() && sc.prop == "C03" && cmd.verbose && !cmd.inplace {
                        // whatever else is printed, no text of a rejected file is
                        for t in ts.iter().filter(|t| certain.contains(&t.canon)) {
                            let tag: &[u8] = &t.old[..t.old.len().min(24)];
                            let has = |x: &[u8]| x.windows(tag.len().max(1)).any(|w| w == tag);
                            let other = ts.iter().any(|o| o.canon != t.canon && o.chain.iter().any(|c| has(c)));
                            if t.old.len() > 24 && !other && tag.iter().any(|b| b.is_ascii_alphanumeric()) && has(&pr.out) {
                                fail = Some(format!("text of the rejected file {} is on stdout", t.canon));
                            }
                        }
                    }
                }
            }
        }
        "C05" => {
            let cmd = parse_cmd(&p0);
            let mut extra: Vec<String> = Vec::new();
            if let Some(r) = &cmd.range {
                extra.push(format!("--line_range={}", r));
            }
            let want = ctx.refs.get(&mut ctx.srv, RefKind::Stdin, &p0.stdin, &cmd.opts, &extra);
            runs = run(&mut ctx.srv, sc, mode, &mut |_, _| None, trace);
            let old = sc.nodes.iter().find_map(|n| match &n.kind {
                NK::File(c) if n.path.ends_with("/f.lua") => Some(c.clone()),
                _ => None,
            });
            if let (Some(old), true) = (old, sc.phases.len() == 3) {
                nontrivial = runs.injected > 0;
                let last = &runs.phases[2];
                let p = format!("{}/f.lua", p0.cwd);
                let new = last.fs.read_path(p.as_bytes()).map_or(Vec::new(), |x| x.to_vec());
                for (i, q) in runs.phases.iter().enumerate() {
                    fail = fail.or(abnormal(&q.procs[0]).filter(|_| want != Ref::Abnormal).filter(|m| !m.contains("panics") || want != Ref::Rejected || i > 0));
                }
                match want {
                    Ref::Abnormal => skip = true,
                    Ref::Ok(w) => {
                        note!("accepted", 1);
                        for (i, what) in ["through stdin", "from the file to stdout"].iter().enumerate() {
                            let o = &runs.phases[i].procs[0].out;
                            let verb = parse_cmd(&sc.phases[i].procs[0]).verbose;
                            if verb && !o.ends_with(&w) || !verb && *o != **w {
                                fail = fail.or(Some(format!("{}: expected {}, got {} (stderr {})", what, short(&w), short(o), tail(&runs.phases[i].procs[0].err_text()))));
                            }
                        }
                        if new != **w {
                            fail = fail.or(Some(format!("in place: expected {}, got {} (stderr {})", short(&w), short(&new), tail(&last.procs[0].err_text()))));
                        }
                    }
                    Ref::Rejected => {
                        note!("rejected", 1);
                        for i in 0..2 {
                            let verb = parse_cmd(&sc.phases[i].procs[0]).verbose;
                            if !verb && !runs.phases[i].procs[0].out.is_empty() {
                                fail = fail.or(Some(format!("a text that is rejected in stdin mode is printed in mode {}", i)));
                            }
                        }
                        if new != old {
                            fail = fail.or(Some("a text that is rejected in stdin mode is rewritten in place".into()));
                        }
                    }
                }
            }
        }
        "C06" | "C07" | "C08" => {
            let t = targets(ctx, &v0, sc, &p0, 1);
            runs = run(&mut ctx.srv, sc, mode, &mut |_, _| None, trace);
            match t {
                None => skip = true,
                Some((ts, sel, cmd)) => {
                    let q = &runs.phases[0];
                    let pr = &q.procs[0];
                    let err = pr.err_text();
                    let lenient = sc.prop == "C07";
                    fail = if lenient { pr.stuck.clone() } else { abnormal(pr) };
                    let dl = has_dir_links(&v0);
                    let gone: Vec<String> = sc.p("gone").arr().iter().map(|x| x.str().to_string()).collect();
                    let mut pieces = Vec::new();
                    let mut changed = Vec::new();
                    for t in &ts {
                        let now = q.fs.read_path(t.canon.as_bytes());
                        let mentioned = t.sels.iter().any(|s| mentions(&err, s));
                        let is_gone = gone.contains(&t.canon);
                        changed.push(t.canon.clone());
                        if is_gone {
                            if !t.rejected {
                                pieces.push(Piece { alts: vec![t.chain[1].clone()], min: 0, max: t.sels.len().max(8) });
                            }
                            continue;
                        }
                        if t.rejected {
                            note!("files without usable configuration", 1);
                            if now.as_ref() != Some(&t.old) {
                                fail = Some(format!("{} has no usable configuration and yet was rewritten as {}", t.canon, now.map_or("nothing".into(), |c| short(&c))));
                            } else if !mentioned && fail.is_none() {
                                fail = Some(format!("{} has no usable configuration and stderr does not say so: {}", t.canon, tail(&err)));
                            }
                            continue;
                        }
                        note!("files with a configuration", 1);
                        if cmd.inplace {
                            let ok = match &now {
                                None => false,
                                Some(c) if lenient => t.allows(c) && (c == t.last() || mentioned),
                                Some(c) if dl => t.chain[1..].contains(c),
                                Some(c) => c == t.last(),
                            };
                            if !ok && fail.is_none() {
                                let what = match &now {
                                    Some(c) if *c == t.old => "was not formatted".to_string(),
                                    Some(c) if t.allows(c) => "was formatted another number of times".to_string(),
                                    Some(c) => format!("holds {}", short(c)),
                                    None => "is missing".to_string(),
                                };
                                fail = Some(format!("{} {}; expected {} (stderr {})", t.canon, what, short(t.last()), tail(&err)));
                            }
                        } else {
                            let n = t.sels.len();
                            pieces.push(Piece {
                                alts: vec![t.chain[1].clone()],
                                min: if lenient { if mentioned { 0 } else { n.min(1) } } else if dl { 1 } else { n },
                                max: if dl { t.sels.len().max(8) } else { n },
                            });
                        }
                    }
                    if fail.is_none() && !cmd.inplace && !concat_of(&pr.out, &pieces) {
                        fail = Some(format!(
                            "stdout does not consist of the {} texts that were to be expected{}: {} (expected e.g. {}; stderr {})",
                            pieces.len(),
                            if lenient { " (or reported)" } else { "" },
                            short(&pr.out),
                            pieces.get(0).map_or("nothing".into(), |p| short(&p.alts[0])),
                            tail(&err)
                        ));
                    }
                    if fail.is_none() && sc.prop == "C08" {
                        let but = if cmd.inplace { changed } else { Vec::new() };
                        let mut a = v0.clone();
                        if runs.injected > 0 {
                            for x in &sc.actions {
                                act(&mut a, x);
                            }
                        }
                        let mut z = q.fs.clone();
                        for g in &gone {
                            act(&mut a, &Action::Remove(g.clone()));
                            act(&mut z, &Action::Remove(g.clone()));
                        }
                        fail = diff(&a, &z, &but, false).map(|d| format!("something that was not selected changed: {}", d));
                        let quiet = runs.injected == 0 && sel.unresolved.is_empty() && sel.blocked.is_empty() && !sel.loops
                            && ts.iter().all(|t| !t.rejected && (t.sels.len() < 2 || t.chain[t.chain.len() - 2] == *t.last()));
                        if fail.is_none() && quiet && !err.is_empty() && !idle(sc) {
                            fail = Some(format!("a complaint although nothing is wrong: {}", tail(&err)));
                        }
                        for u in &sel.unresolved {
                            if !names(&err, u) && !gone.iter().any(|g| g.ends_with(base(u))) {
                                fail = Some(format!("the argument {} is neither a file nor a directory and stderr does not say so: {}", u, tail(&err)));
                            }
                        }
                    }
                    note!("files selected", ts.len());
                    nontrivial = !ts.is_empty() && (sc.prop != "C07" || runs.injected > 0);
                }
            }
        }
        "C09" => {
            let mut ver = v0.version;
            let mut first = true;
            let before = v0.digest();
            let r = run(
                &mut ctx.srv,
                sc,
                mode,
                &mut |k, e| {
                    if first {
                        first = false;
                        ver = ver.min(k.vfs.version);
                    }
                    if k.vfs.version != ver {
                        return Some(format!(
                            "without -i the run changed the file system: {}({})",
                            crate::kernel::NAMES[e.req.op as usize],
                            String::from_utf8_lossy(e.path)
                        ));
                    }
                    None
                },
                trace,
            );
            fail = r.observed.clone();
            if fail.is_none() {
                if let Some(m) = r.mutations.iter().find(|m| !m.starts_with("write <")) {
                    fail = Some(format!("without -i the run issued a call that writes: {}", m));
                }
            }
            if fail.is_none() && r.phases.iter().any(|q| q.fs.digest() != before) {
                fail = Some("without -i the tree is different after the run".into());
            }
            nontrivial = r.stats.steps > 20;
            runs = r;
        }
        "C10" => {
            let t = targets(ctx, &v0, sc, &p0, 1);
            runs = run(&mut ctx.srv, sc, mode, &mut |_, _| None, trace);
            match t {
                None => skip = true,
                Some((ts, _, _)) => {
                    let n = runs.phases.len();
                    let q = &runs.phases[n - 1];
                    let mut start = if n == 1 { v0.clone() } else { runs.phases[n - 2].fs.clone() };
                    if n > 1 && !runs.phases[n - 2].power_loss {
                        start.evict_lost();
                    }
                    let but: Vec<String> = ts.iter().map(|t| t.canon.clone()).collect();
                    let chown_fault = runs.plan.faults.iter().any(|f| f.at.starts_with("fchown") || f.at.starts_with("chown"));
                    if let Some(s) = &q.procs[0].stuck {
                        fail = Some(format!("the run does not end: {}", s));
                    } else if !q.procs[0].killed && !q.power_loss {
                        fail = diff_(&start, &q.fs, &but, !chown_fault, chown_fault)
                            .map(|d| format!("{} (stderr {})", d, tail(&q.procs[0].err_text())));
                        nontrivial = !ts.is_empty() && runs.mutations.len() > 0;
                    }
                }
            }
        }
        "C11" => {
            runs = run(&mut ctx.srv, sc, mode, &mut |_, _| None, trace);
            let q = &runs.phases[0];
            let pr = &q.procs[0];
            let hard = runs.plan.faults.iter().any(|f| matches!(f.kind, FK::Err(e) if e != EINTR));
            let cmd = parse_cmd(&p0);
            let mut pieces: Vec<Piece> = Vec::new();
            let mut rejected = 0;
            if cmd.sources.is_empty() {
                let extra: Vec<String> = cmd.range.iter().map(|r| format!("--line_range={}", r)).collect();
                match ctx.refs.get(&mut ctx.srv, RefKind::Stdin, &p0.stdin, &cmd.opts, &extra) {
                    Ref::Ok(b) => pieces.push(Piece { alts: vec![b], min: 1, max: 1 }),
                    Ref::Rejected => rejected += 1,
                    Ref::Abnormal => skip = true,
                }
            } else {
                match targets(ctx, &v0, sc, &p0, 1) {
                    None => skip = true,
                    Some((ts, _, _)) => {
                        let dl = has_dir_links(&v0);
                        for t in &ts {
                            if t.rejected {
                                rejected += 1;
                            } else {
                                let n = t.sels.len();
                                pieces.push(Piece { alts: vec![t.chain[1].clone()], min: if dl { 1 } else { n }, max: if dl { t.sels.len().max(8) } else { n } });
                            }
                        }
                    }
                }
            }
            if !skip {
                nontrivial = runs.injected > 0 && !pieces.is_empty();
                let complete = concat_of(&pr.out, &pieces);
                if complete {
                    note!("delivered completely", 1);
                } else {
                    note!("not delivered completely", 1);
                }
                if let Some(s) = &pr.stuck {
                    fail = Some(format!("the run does not end: {}", s));
                } else if !hard {
                    if !complete {
                        fail = Some(format!("stdout is {}, which is not the concatenation of the {} expected texts (stderr {})", short(&pr.out), pieces.len(), tail(&pr.err_text())));
                    } else if rejected == 0 && (pr.status != 0 || !pr.err.is_empty() && !idle(sc)) {
                        fail = Some(format!("everything was delivered and yet status {:x}, stderr {}", pr.status, tail(&pr.err_text())));
                    }
                } else {
                    if !complete && pr.status == 0 && pr.err.is_empty() {
                        fail = Some(format!(
                            "stdout got only {} bytes ({} of the expected output missing), yet the run ends with status 0 and says nothing",
                            pr.out.len(),
                            pieces.iter().map(|p| p.alts[0].len()).sum::<usize>().saturating_sub(pr.out.len())
                        ));
                    }
                    let sticky = sc.rules.iter().all(|r| !matches!(r.what, What::Errs(_)) || r.count >= 10_000 || r.count == 0);
                    if sticky && fail.is_none() && !prefix_of_concat(&pr.out, &pieces) {
                        fail = Some(format!("stdout got something that is no beginning of the expected output: {}", short(&pr.out)));
                    }
                }
            }
        }
        "C12" => {
            let cmd = parse_cmd(&p0);
            let want = ctx.refs.get(&mut ctx.srv, RefKind::Stdin, &p0.stdin, &cmd.opts, &[]);
            runs = run(&mut ctx.srv, sc, mode, &mut |_, _| None, trace);
            let pr = &runs.phases[0].procs[0];
            let broken = runs.plan.faults.iter().any(|f| {
                f.at.starts_with("read(<stdin>") && (matches!(f.kind, FK::Err(e) if e != EINTR) || matches!(f.kind, FK::Flip(_)))
            });
            nontrivial = runs.injected > 0 || want == Ref::Rejected;
            // a corrupted read at the very end of the input corrupts nothing; then the right output is right
            let flip_only = runs.plan.faults.iter().all(|f| !matches!(f.kind, FK::Err(e) if e != EINTR));
            if let Some(s) = &pr.stuck {
                fail = Some(format!("the run does not end: {}", s));
            } else if pr.signal() != 0 {
                fail = Some(format!("the run dies of signal {}", pr.signal()));
            } else if broken && !(flip_only && matches!(&want, Ref::Ok(w) if pr.out == **w)) {
                note!("input could not be read", 1);
                if !pr.out.is_empty() {
                    fail = Some(format!("the input could not be read ({}) and yet stdout got {}", runs.plan.faults.last().map_or(String::new(), |f| format!("{:?}", f.kind)), short(&pr.out)));
                } else if pr.err.is_empty() {
                    fail = Some("the input could not be read and stderr is empty".into());
                }
            } else {
                match want {
                    Ref::Abnormal => skip = true,
                    Ref::Ok(w) => {
                        note!("input accepted", 1);
                        if pr.out != **w {
                            fail = Some(format!("expected {}, got {} (status {:x}, stderr {})", short(&w), short(&pr.out), pr.status, tail(&pr.err_text())));
                        }
                    }
                    Ref::Rejected => {
                        note!("input rejected", 1);
                        if !pr.out.is_empty() {
                            fail = Some(format!("the input is rejected and yet stdout got {}", short(&pr.out)));
                        } else if pr.err.is_empty() {
                            fail = Some("the input is rejected and stderr is empty".into());
                        }
                    }
                }
            }
            if fail.is_none() && !skip {
                // inputs made invalid on purpose must have been refused
                if matches!(sc.variant.as_str(), "invalid-utf8" | "invalid-lua") && !pr.out.is_empty() && !p0.stdin.is_empty() && sc.p("shrunk").is_null() {
                    fail = Some(format!("{} was accepted", sc.variant));
                }
            }
        }
        "C13" => {
            let n = sc.phases.len();
            let t = targets(ctx, &v0, sc, &p0, n);
            runs = run(&mut ctx.srv, sc, mode, &mut |_, _| None, trace);
            match t {
                None => skip = true,
                Some((ts, _, _)) => {
                    let good: Vec<&Target> = ts.iter().filter(|t| !t.rejected && t.chain.len() >= 2).collect();
                    note!("files to be formatted", good.len());
                    note!("files to be left alone", ts.len() - good.len());
                    let last_fault = runs.plan.faults.iter().map(|f| f.phase + 1).max().unwrap_or(0);
                    let mut unstable: Vec<String> = Vec::new();
                    if n >= 2 && runs.phases.len() == n && last_fault <= n - 2 {
                        let a = &runs.phases[n - 2];
                        let b = &runs.phases[n - 1];
                        nontrivial = runs.injected > 0;
                        note!("interruptions", runs.plan.faults.iter().filter(|f| matches!(f.kind, FK::KillAfter | FK::KillBefore | FK::PowerLoss)).count());
                        for (w, q) in [("the first undisturbed run", a), ("the second undisturbed run", b)] {
                            if let Some(x) = abnormal(&q.procs[0]) {
                                fail = fail.or(Some(format!("{}: {}", w, x)));
                            }
                            for t in &good {
                                let now = q.fs.read_path(t.canon.as_bytes());
                                if now.as_ref() != Some(&t.chain[1]) && fail.is_none() {
                                    if now.as_ref().map_or(false, |x| t.allows(x)) && wraps(ctx, t) {
                                        unstable.push(t.canon.clone());
                                        continue;
                                    }
                                    fail = Some(format!(
                                        "after {}, {} holds {} instead of {}, which one run makes of the original (stderr {})",
                                        w,
                                        t.canon,
                                        now.map_or("nothing".into(), |c| short(&c)),
                                        short(&t.chain[1]),
                                        tail(&q.procs[0].err_text())
                                    ));
                                }
                            }
                        }
                        for t in ts.iter().filter(|t| t.rejected) {
                            if fail.is_none() && b.fs.read_path(t.canon.as_bytes()).as_ref() != Some(&t.old) {
                                fail = Some(format!("{} cannot be formatted and is not what it was", t.canon));
                            }
                        }
                        if fail.is_none() {
                            if let Some(d) = diff(&a.fs, &b.fs, &unstable, true) {
                                fail = Some(format!("a second undisturbed run changes something: {}", d));
                            }
                        }
                        if fail.is_none() {
                            let orig = v0.dump();
                            for (p, e) in b.fs.dump() {
                                if e.kind == 'f' && p.ends_with(b".lua") && !orig.contains_key(&p) {
                                    fail = Some(format!("a new Lua file appeared: {}", String::from_utf8_lossy(&p)));
                                }
                            }
                        }
                    }
                }
            }
        }
        "C14" => {
            runs = e14(ctx, sc, mode, trace, &v0, &mut skip, &mut fail, &mut nontrivial, &mut notes);
        }
        "C15" => {
            let cmd = parse_cmd(&p0);
            let c = cred(sc);
            let sel = select(&v0, &p0.cwd, c, &cmd);
            let mut work = sel.visits as u64;
            let mut bytes = 0u64;
            let root = Cred { uid: 0, gid: 0, sup: 0 };
            for s in &sel.sels {
                bytes += v0.inodes[s.ino].data.len() as u64;
                let mut d = s.canon.as_str();
                while let Some(k) = d.rfind('/') {
                    d = &d[..k];
                    let dp = if d.is_empty() { "/" } else { d };
                    if let Ok(i) = v0.lookup(0, dp.as_bytes(), true, root) {
                        work += 3 + v0.dir(i).map_or(0, |m| m.len() as u64);
                    }
                }
                work += 30;
            }
            // leftovers may have to be stepped over once per file
            let stale = v0.dump().keys().filter(|k| k.ends_with(b".tmp")).count() as u64;
            work += stale * sel.sels.len() as u64;
            let files = !cmd.sources.is_empty();
            runs = run(
                &mut ctx.srv,
                sc,
                mode,
                &mut |_, e| {
                    if files && e.path == b"<stdin>" && matches!(e.req.op, op::READ | op::PREAD) {
                        return Some("paths are given and yet the run reads standard input, where it may wait for ever".into());
                    }
                    None
                },
                trace,
            );
            fail = runs.observed.clone();
            let pr = &runs.phases[0].procs[0];
            // what is written is at most a few times what is read; small blocks are allowed
            let budget = 300 + 12 * work + bytes / 64 + 4 * runs.injected as u64;
            note!("calls", pr.calls as u64);
            note!("budget", budget);
            nontrivial = !sel.sels.is_empty();
            if fail.is_some() {
            } else if let Some(s) = &pr.stuck {
                fail = Some(format!("the run does not end: {}", s));
            } else if pr.calls as u64 > budget {
                fail = Some(format!("the run made {} system calls; the tree, {} files selected, {} visits, {} injected faults, explains at most {}", pr.calls, sel.sels.len(), sel.visits, runs.injected, budget));
            }
        }
        "C17" => {
            let a = run(&mut ctx.srv, sc, mode, &mut |_, _| None, trace);
            let mut other = sc.clone();
            let mut g = Rng::new(mix2(sc.seed, 0xa1b2));
            let tty = sc.env.tty;
            other.env = random_env(&mut g, sc.env.uid);
            other.env.tty = tty;
            let b = run(&mut ctx.srv, &other, Mode::Record, &mut |_, _| None, trace);
            let (p, q) = (&a.phases[0].procs[0], &b.phases[0].procs[0]);
            nontrivial = a.hash != b.hash;
            if p.stuck.is_some() || q.stuck.is_some() {
                fail = Some(format!("the run does not end: {:?}", p.stuck.as_ref().or(q.stuck.as_ref())));
            } else if p.status != q.status {
                fail = Some(format!("exit status {:x} and {:x} for the same arguments, tree and input", p.status, q.status));
            } else if p.out != q.out {
                fail = Some(format!("stdout differs between two runs: {} and {}", first_diff(&p.out, &q.out), short(&q.out)));
            } else if p.err != q.err {
                fail = Some(format!("stderr differs between two runs: {} and {}", tail(&p.err_text()), tail(&q.err_text())));
            } else if let Some(d) = diff(&a.phases[0].fs, &b.phases[0].fs, &[], true) {
                fail = Some(format!("the tree differs between two runs: {}", d));
            }
            let mut a = a;
            if trace {
                a.trace.push("--- second run, other listing orders, inode numbers, pids, seeds and clock ---".into());
                a.trace.extend(b.trace.iter().cloned());
            }
            a.hash = mix2(a.hash, b.hash);
            a.stats.merge(&b.stats);
            runs = a;
        }
        "C18" => {
            let a = run(&mut ctx.srv, sc, mode, &mut |_, _| None, trace);
            let mut other = sc.clone();
            other.env.nofile = 1 << 20;
            let b = run(&mut ctx.srv, &other, Mode::Record, &mut |_, _| None, false);
            let (p, q) = (&a.phases[0].procs[0], &b.phases[0].procs[0]);
            let sel = select(&v0, &p0.cwd, cred(sc), &parse_cmd(&p0));
            nontrivial = sel.sels.len() > sc.env.nofile as usize;
            note!("files selected", sel.sels.len());
            note!("descriptors at most", p.peak);
            let lim = sc.env.nofile;
            if p.stuck.is_some() || q.stuck.is_some() {
                fail = Some(format!("the run does not end: {:?}", p.stuck.as_ref().or(q.stuck.as_ref())));
            } else if p.status != q.status || p.err != q.err {
                fail = Some(format!("with at most {} descriptors the run ends differently: status {:x} and {:x}, stderr {} and {} ({} descriptors wanted)", lim, p.status, q.status, tail(&p.err_text()), tail(&q.err_text()), q.peak));
            } else if p.out != q.out {
                fail = Some(format!("with at most {} descriptors stdout differs: {} ({} descriptors wanted)", lim, first_diff(&p.out, &q.out), q.peak));
            } else if let Some(d) = diff(&a.phases[0].fs, &b.phases[0].fs, &[], true) {
                fail = Some(format!("with at most {} descriptors the tree is left differently ({} descriptors wanted): {}", lim, q.peak, d));
            }
            let mut a = a;
            a.hash = mix2(a.hash, b.hash);
            a.stats.merge(&b.stats);
            runs = a;
        }
        "C19" => {
            let cl: Vec<u32> = sc.p("class").arr().iter().map(|x| x.str().parse().unwrap_or(0)).collect();
            let (uid, gid, mode_) = (cl[0], cl[1], cl[2]);
            // may this user do this to a source?
            let fair = |o: &(u32, u32, &str), need: u32| {
                let b = if o.0 == uid { return true } else if o.1 == gid { mode_ >> 3 } else { mode_ };
                b & need != 0
            };
            let old = v0.inodes.len();
            let mut ver = u64::MAX;
            let mut could: BTreeSet<(usize, usize, u32)> = BTreeSet::new();
            let mut events = 0u64;
            runs = run(
                &mut ctx.srv,
                sc,
                mode,
                &mut |k, e| {
                    if k.vfs.version == ver {
                        return None;
                    }
                    ver = k.vfs.version;
                    events += 1;
                    for (p, n) in k.vfs.dump() {
                        if n.kind != 'f' {
                            continue;
                        }
                        for (i, o) in OTHERS.iter().enumerate() {
                            for need in [4, 2] {
                                let c = Cred { uid: o.0, gid: o.1, sup: 0 };
                                let now = k.vfs.perm(n.ino, need, c).is_ok();
                                let verb = if need == 4 { "read" } else { "change" };
                                let at = || format!("after {}({}), {}", crate::kernel::NAMES[e.req.op as usize], String::from_utf8_lossy(e.path), String::from_utf8_lossy(&p));
                                if n.ino < old {
                                    if now && v0.perm(n.ino, need, c).is_err() {
                                        return Some(format!("{} can be opened by {} to {} it, which was not so before", at(), o.2, verb));
                                    }
                                    continue;
                                }
                                // whoever has opened it stays able to
                                if now {
                                    could.insert((n.ino, i, need));
                                }
                                if !n.data.is_empty() && could.contains(&(n.ino, i, need)) && !fair(o, need) {
                                    return Some(format!(
                                        "{} holds text of a source that belongs to {}:{} with mode {:o}, and {} {} open it to {} it (mode {:o}, {}:{})",
                                        at(), uid, gid, mode_, o.2, if now { "can" } else { "could" }, verb, n.mode, n.uid, n.gid
                                    ));
                                }
                            }
                        }
                    }
                    None
                },
                trace,
            );
            fail = runs.observed.clone();
            let q = &runs.phases[0];
            note!("changes looked at", events);
            nontrivial = events > 3 && mode_ & 0o77 != 0o66;
            let c = cred(sc);
            if fail.is_none() && runs.injected == 0 && !q.procs[0].killed {
                match targets(ctx, &v0, sc, &p0, 1) {
                    None => skip = true,
                    Some((ts, _, _)) => {
                        for t in ts.iter().filter(|t| !t.rejected) {
                            if q.fs.read_path(t.canon.as_bytes()).map_or(true, |x| x != *t.last()) {
                                fail = Some(format!(
                                    "{}, which the user may change, was not rewritten (it belongs to {}:{}, mode {:o}; stderr {})",
                                    t.canon, uid, gid, mode_, tail(&q.procs[0].err_text())
                                ));
                            }
                        }
                    }
                }
            }
            if fail.is_none() && runs.injected == 0 {
                let settable = c.uid == 0 || gid == c.gid || c.sup != 0 && gid == c.sup;
                for (p, n) in q.fs.dump() {
                    if n.kind != 'f' || n.ino < old || !settable {
                        continue;
                    }
                    let who = if c.uid == 0 { uid } else { n.uid };
                    if n.gid != gid || n.mode != mode_ || n.uid != who {
                        fail = Some(format!("{} was {}:{} with mode {:o} and is {}:{} with mode {:o}", String::from_utf8_lossy(&p), uid, gid, mode_, n.uid, n.gid, n.mode));
                    }
                }
            }
        }
        "C20" => {
            runs = e20(ctx, sc, mode, trace, &v0, &mut skip, &mut fail, &mut nontrivial, &mut notes);
        }
        x => panic!("no check for {}", x),
    }

    if fail.is_none() && matches!(sc.prop.as_str(), "C01" | "C02" | "C05" | "C11" | "C12") {
        fail = ctx.refs.lossy.take();
    }
    let mut stats = runs.stats;
    for (k, v) in notes {
        *stats.probes.entry(k).or_default() += v;
    }
    if skip {
        *stats.probes.entry("runs not judged: reference abnormal").or_default() += 1;
        fail = None;
    }
    for q in &runs.phases {
        for p in &q.procs {
            let k = if p.killed {
                "processes killed by the plan"
            } else if p.stuck.is_some() {
                "processes stuck"
            } else if p.signal() != 0 {
                "processes dead of a signal"
            } else {
                match p.exit_code() {
                    Some(0) => "processes exit 0",
                    Some(101) => "processes panicked",
                    _ => "processes exit otherwise",
                }
            };
            *stats.probes.entry(k).or_default() += 1;
        }
    }
    let summary = summary(sc, &runs.plan, &runs.phases);
    Verdict { fail, plan: runs.plan, hash: runs.hash, stats, trace: runs.trace, skipped: skip, nontrivial, summary }
}

fn first_diff(a: &[u8], b: &[u8]) -> String {
    let k = a.iter().zip(b.iter()).take_while(|(x, y)| x == y).count();
    let lo = k.saturating_sub(20);
    format!("(first difference at byte {}: {:?} / {:?}) {}", k, String::from_utf8_lossy(&a[lo..a.len().min(k + 30)]), String::from_utf8_lossy(&b[lo..b.len().min(k + 30)]), short(a))
}

pub fn summary(sc: &Scenario, plan: &Plan, ph: &[PhaseResult]) -> String {
    let mut s = format!("seed {} {} ", sc.seed, sc.variant);
    for (i, p) in sc.phases.iter().enumerate() {
        for (j, q) in p.procs.iter().enumerate() {
            let mut a = q.args.join(" ");
            if a.len() > 160 {
                a = a.chars().take(160).collect::<String>() + "...";
            }
            s += &format!("[run {}{}: cd {}; luafmt {}", i + 1, if p.procs.len() > 1 { format!(".{}", j + 1) } else { String::new() }, q.cwd, a);
            if let Some(r) = ph.get(i).and_then(|x| x.procs.get(j)) {
                s += &format!(" -> {} calls, {}", r.calls, if r.killed { "killed".into() } else { format!("status {:x}", r.status) });
            }
            s += "] ";
        }
    }
    s += &format!("tree of {} nodes", sc.nodes.len());
    if !plan.faults.is_empty() {
        s += ", faults:";
        for f in plan.faults.iter().take(6) {
            s += &format!(" {:?}@{}.{}#{} {};", f.kind, f.phase, f.proc, f.call, f.at.chars().take(70).collect::<String>());
        }
        if plan.faults.len() > 6 {
            s += &format!(" and {} more", plan.faults.len() - 6);
        }
    }
    s
}

#[allow(clippy::too_many_arguments)]
fn e14(
    ctx: &mut Ctx,
    sc: &Scenario,
    mode: Mode,
    trace: bool,
    v0: &Vfs,
    skip: &mut bool,
    fail: &mut Option<String>,
    nontrivial: &mut bool,
    notes: &mut BTreeMap<&'static str, u64>,
) -> Run {
    let c = cred(sc);
    let procs = &sc.phases[0].procs;
    // what each process selects, with its options
    struct Job {
        proc: usize,
        inplace: bool,
        n: usize,
        eff: Option<(Opts, Vec<String>)>,
    }
    let mut jobs: BTreeMap<String, Vec<Job>> = BTreeMap::new();
    let mut unresolved = false;
    for (i, p) in procs.iter().enumerate() {
        let cmd = parse_cmd(p);
        let sel = select(v0, &p.cwd, c, &cmd);
        unresolved |= !sel.unresolved.is_empty() || !sel.blocked.is_empty();
        let mut n: BTreeMap<String, usize> = BTreeMap::new();
        for s in &sel.sels {
            *n.entry(s.canon.clone()).or_default() += 1;
        }
        for (k, m) in n {
            let eff = effective(v0, &k, c, &cmd);
            jobs.entry(k).or_default().push(Job { proc: i, inplace: cmd.inplace, n: m, eff });
        }
    }
    // everything a file may hold: the closure of its content under the formatting of the in-place processes
    let mut allowed: BTreeMap<String, Vec<Bytes>> = BTreeMap::new();
    let mut shown: Vec<Vec<Piece>> = procs.iter().map(|_| Vec::new()).collect();
    let mut contended = 0;
    for (k, js) in &jobs {
        let old = match v0.read_path(k.as_bytes()) {
            Some(o) => o,
            None => continue,
        };
        let mut set: Vec<Bytes> = vec![old];
        let total: usize = js.iter().filter(|j| j.inplace).map(|j| j.n).sum();
        if js.iter().filter(|j| j.inplace).count() > 1 || js.len() > 1 && total > 0 {
            contended += 1;
        }
        let mut front = set.clone();
        for _ in 0..total {
            let mut next = Vec::new();
            for x in &front {
                for j in js.iter().filter(|j| j.inplace) {
                    match format_once(ctx, RefKind::InPlace, x, &j.eff) {
                        None => *skip = true,
                        // some options spoil the program: what one process leaves is no Lua for another
                        Some(None) => unresolved = true,
                        Some(Some(y)) if !set.contains(&y) => {
                            set.push(y.clone());
                            next.push(y);
                        }
                        _ => {}
                    }
                }
            }
            if next.is_empty() {
                break;
            }
            front = next;
        }
        for j in js.iter().filter(|j| !j.inplace) {
            let mut alts = Vec::new();
            for x in &set {
                match format_once(ctx, RefKind::Print, x, &j.eff) {
                    None => *skip = true,
                    Some(Some(y)) => alts.push(y),
                    Some(None) => unresolved = true,
                }
            }
            shown[j.proc].push(Piece { alts, min: j.n, max: j.n });
        }
        allowed.insert(k.clone(), set);
    }
    let rejected = unresolved || jobs.iter().any(|(k, js)| js.iter().any(|j| j.eff.is_none() || v0.read_path(k.as_bytes()).is_none()));
    let mut ver = u64::MAX;
    let r = run(
        &mut ctx.srv,
        sc,
        mode,
        &mut |k, e| {
            if k.vfs.version == ver {
                return None;
            }
            ver = k.vfs.version;
            for (p, set) in &allowed {
                let now = k.vfs.read_path(p.as_bytes());
                match &now {
                    Some(c) if set.iter().any(|x| Rc::ptr_eq(x, c) || x == c) => {}
                    _ => {
                        return Some(format!(
                            "after {}({}) by process {}, whoever reads {} gets {}",
                            crate::kernel::NAMES[e.req.op as usize],
                            String::from_utf8_lossy(e.path),
                            e.proc + 1,
                            p,
                            now.map_or("nothing".into(), |c| short(&c))
                        ))
                    }
                }
            }
            None
        },
        trace,
    );
    *nontrivial = contended > 0 && procs.len() > 1;
    *notes.entry("files several processes work on").or_default() += contended as u64;
    *fail = r.observed.clone();
    if *skip {
        return r;
    }
    let q = &r.phases[0];
    if fail.is_none() {
        for (i, p) in q.procs.iter().enumerate() {
            if let Some(s) = &p.stuck {
                *fail = Some(format!("process {} does not end: {}", i + 1, s));
            } else if !rejected && (p.status != 0 || !p.err.is_empty() && !idle(sc)) {
                *fail = Some(format!("process {} fails although nothing is wrong: status {:x}, stderr {}", i + 1, p.status, tail(&p.err_text())));
            } else if !parse_cmd(&procs[i]).inplace && !rejected && !concat_of(&p.out, &shown[i]) {
                *fail = Some(format!("process {} printed something that is the formatting of no complete content: {}", i + 1, short(&p.out)));
            }
        }
    }
    if fail.is_none() {
        for (p, set) in &allowed {
            let by = &jobs[p];
            if by.iter().any(|j| j.inplace && j.eff.is_some()) && set.len() > 1 && !rejected {
                let now = q.fs.read_path(p.as_bytes());
                // formatted at least once: not the original, unless formatting leads back to it
                if now.as_ref() == Some(&set[0]) {
                    let mut back = false;
                    for x in set {
                        for j in by.iter().filter(|j| j.inplace) {
                            if let Some(Some(y)) = format_once(ctx, RefKind::InPlace, x, &j.eff) {
                                back |= y == set[0];
                            }
                        }
                    }
                    if !back {
                        *fail = Some(format!("{} was formatted by nobody although nobody failed", p));
                    }
                }
            }
        }
        if fail.is_none() {
            let but: Vec<String> = allowed.keys().cloned().collect();
            *fail = diff(v0, &q.fs, &but, true).map(|d| format!("after all have ended: {}", d));
        }
    }
    r
}

/// Another program replaces, removes and adds files and configurations while the run goes on.
#[allow(clippy::too_many_arguments)]
fn e20(
    ctx: &mut Ctx,
    sc: &Scenario,
    mode: Mode,
    trace: bool,
    v0: &Vfs,
    skip: &mut bool,
    fail: &mut Option<String>,
    nontrivial: &mut bool,
    notes: &mut BTreeMap<&'static str, u64>,
) -> Run {
    let p0 = &sc.phases[0].procs[0];
    let c = cred(sc);
    let (ts, _, cmd) = match targets(ctx, v0, sc, p0, 1) {
        Some(t) => t,
        None => {
            *skip = true;
            return run(&mut ctx.srv, sc, mode, &mut |_, _| None, trace);
        }
    };
    // the tree after each thing the other program does
    let mut trees = vec![v0.clone()];
    for a in &sc.actions {
        let mut v = trees.last().unwrap().clone();
        act(&mut v, a);
        trees.push(v);
    }
    struct File {
        /// everything it may hold
        all: Vec<Bytes>,
        /// what may be printed for it
        shown: Vec<Bytes>,
        /// what it must hold at the end if nobody else touches it
        sure: Option<Bytes>,
        n: usize,
        may_lack: bool,
    }
    let mut files: BTreeMap<String, File> = BTreeMap::new();
    let mut paths: Vec<(String, usize)> = ts.iter().map(|t| (t.canon.clone(), t.sels.len())).collect();
    for a in &sc.actions {
        if let Action::Replace(p, _) = a {
            if !paths.iter().any(|x| x.0 == *p) {
                paths.push((p.clone(), 2));
            }
        }
    }
    for (p, n) in paths {
        let touched = sc.actions.iter().any(|a| match a {
            Action::Replace(x, _) | Action::Remove(x) | Action::Chmod(x, _) | Action::Mkdir(x) | Action::Write(x, _) | Action::Link(x, _) => *x == p,
        });
        let mut all: Vec<Bytes> = v0.read_path(p.as_bytes()).into_iter().collect();
        for a in &sc.actions {
            match a {
                Action::Replace(x, d) if *x == p => all.push(Rc::new(d.clone())),
                _ => {}
            }
        }
        let mut effs: Vec<Option<(Opts, Vec<String>)>> = Vec::new();
        for v in &trees {
            let e = effective(v, &p, c, &cmd);
            if !effs.contains(&e) {
                effs.push(e);
            }
        }
        let kind = if cmd.inplace { RefKind::InPlace } else { RefKind::Print };
        let mut shown = Vec::new();
        let mut front = all.clone();
        for _ in 0..n {
            let mut next: Vec<Bytes> = Vec::new();
            for x in &front {
                for e in &effs {
                    match format_once(ctx, kind, x, e) {
                        None => *skip = true,
                        Some(None) => {}
                        Some(Some(y)) => {
                            if cmd.inplace {
                                if !all.contains(&y) {
                                    all.push(y.clone());
                                    next.push(y);
                                }
                            } else {
                                shown.push(y);
                            }
                        }
                    }
                }
            }
            if !cmd.inplace {
                break;
            }
            front = next;
        }
        let t = ts.iter().find(|t| t.canon == p);
        let sure = match t {
            Some(t) if !touched && effs.len() == 1 => Some(if cmd.inplace { t.last().clone() } else { t.old.clone() }),
            _ => None,
        };
        let may_lack = t.is_none() || sc.actions.iter().any(|a| matches!(a, Action::Remove(x) if *x == p));
        if sure.is_some() {
            *notes.entry("files nobody else touches").or_default() += 1;
        } else {
            *notes.entry("files somebody else touches").or_default() += 1;
        }
        files.insert(p, File { all, shown, sure, n, may_lack });
    }
    let mut ver = u64::MAX;
    let r = run(
        &mut ctx.srv,
        sc,
        mode,
        &mut |k, e| {
            if k.vfs.version == ver {
                return None;
            }
            ver = k.vfs.version;
            for (p, f) in &files {
                let ok = match k.vfs.read_path(p.as_bytes()) {
                    Some(x) => f.all.contains(&x),
                    None => f.may_lack,
                };
                if !ok {
                    return Some(format!(
                        "after {}({}), {} is neither what anybody saved there nor the complete formatting of that: {}",
                        crate::kernel::NAMES[e.req.op as usize],
                        String::from_utf8_lossy(e.path),
                        p,
                        k.vfs.read_path(p.as_bytes()).map_or("missing".into(), |x| short(&x))
                    ));
                }
            }
            None
        },
        trace,
    );
    *fail = r.observed.clone();
    *nontrivial = r.injected > 0 && !ts.is_empty();
    if fail.is_some() || *skip {
        return r;
    }
    let q = &r.phases[0];
    let pr = &q.procs[0];
    *fail = abnormal(pr);
    if fail.is_some() {
        return r;
    }
    let mut pieces = Vec::new();
    for (p, f) in &files {
        let now = q.fs.read_path(p.as_bytes());
        if let Some(s) = &f.sure {
            if now.as_ref() != Some(s) {
                *fail = Some(format!(
                    "nobody but luafmt touched {}, and it holds {} instead of {} (stderr {})",
                    p,
                    now.map_or("nothing".into(), |x| short(&x)),
                    short(s),
                    tail(&pr.err_text())
                ));
                return r;
            }
        }
        if !f.shown.is_empty() {
            pieces.push(Piece { alts: f.shown.clone(), min: if f.sure.is_some() { f.n } else { 0 }, max: f.n });
        }
    }
    if !cmd.inplace && !concat_of(&pr.out, &pieces) {
        *fail = Some(format!("stdout is not made of complete formatted texts: {} (stderr {})", short(&pr.out), tail(&pr.err_text())));
        return r;
    }
    // everything else is as before: names, kinds, modes, contents
    let (x, y) = (v0.dump(), q.fs.dump());
    let acted = |p: &str| {
        sc.actions.iter().any(|a| match a {
            Action::Replace(x, _) | Action::Remove(x) | Action::Chmod(x, _) | Action::Mkdir(x) | Action::Write(x, _) | Action::Link(x, _) => x == p,
        })
    };
    for (p, e) in &x {
        let ps = String::from_utf8_lossy(p).into_owned();
        if acted(&ps) {
            continue;
        }
        match y.get(p) {
            None => *fail = Some(format!("{} is gone", ps)),
            Some(g) => {
                if e.kind != g.kind || e.mode != g.mode || e.uid != g.uid || e.gid != g.gid || e.target != g.target {
                    *fail = Some(format!("{} has another type, mode, owner or target", ps));
                } else if e.data != g.data && !files.contains_key(&ps) {
                    *fail = Some(format!("the content of {} changed", ps));
                }
            }
        }
    }
    for p in y.keys() {
        let ps = String::from_utf8_lossy(p).into_owned();
        if !x.contains_key(p) && !acted(&ps) {
            *fail = Some(format!("{} is new", ps));
        }
    }
    r
}
