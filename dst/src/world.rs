//! Building blocks of generated worlds: projects, arguments, environments, fault rules.
use crate::gen::*;
use crate::kernel::{op, Env};
use crate::rng::{mix2, Rng};
use crate::scenario::*;
use crate::sim::{FCLOSE, ROPEN, WOPEN};
use crate::vfs::errno::*;

pub struct W<'a> {
    pub sc: Scenario,
    pub r: Rng,
    pub pool: &'a Pool,
    pub root: String,
    pub dirs: Vec<String>,
    /// files with an extension that is selected
    pub files: Vec<String>,
    /// percentage of big contents
    pub big: usize,
    /// only the shipped configuration is used
    pub shipped: bool,
}

pub const DIRS: &[&str] = &["src", "lib", "src/util", "a b", "x.lua", "deep/er/est", ".hid", "d.d", "été", "lib/lua", "src/lib", "util", "lib/util"];
pub const NAMES_LUA: &[&str] = &[
    "a.lua", "b.lua", "main.lua", "z.lua", "init.lua", "A.lua", "sp ace.lua", "é.lua", "a.b.lua", "x.luafmt.lua", "-d.lua",
    "..lua", "1.lua", "README.lua", "luafmt.lua", ".hidden.lua", "a.lua.lua", "temp.tmp.lua",
];
/// names that are not UTF-8 (see vfs::raw)
pub const NAMES_RAW: &[&str] = &["caf\u{e0e9}.lua", "\u{e0ff}.lua", "a\u{e0fe}b.lua", "\u{e0e9}t\u{e0e9}.lua", "-\u{e0ff}.lua", ".\u{e0c3}.lua"];
pub const DIRS_RAW: &[&str] = &["d\u{e0e9}p\u{e0f4}t", "\u{e0ff}", "src/\u{e0fe}"];
pub const NAMES_OTHER: &[&str] = &[
    "a.txt", "Makefile", "lua", ".lua", "a.LUA", "b.lua.bak", "c.luac", "a.lua~", "d.lua.", "xlua", ".luafmt", ".luafmt.txt",
    "tmp.lua.tmp", "e.lua ", ".luafmtrc",
];

pub fn random_env(r: &mut Rng, uid: u32) -> Env {
    Env {
        order_seed: r.next() >> 1,
        dtype_unknown: r.pct(20),
        getdents_chunk: *r.pick(&[0usize, 0, 1, 2, 3]),
        ino_seed: r.next() >> 1,
        pid_base: 300 + r.below(30000) as u32,
        pid_reuse: false,
        rand_seed: r.next() >> 1,
        clock_base: 1_600_000_000_000_000_000 + (r.below(1 << 30) as i64) * 250_000_000,
        clock_step: *r.pick(&[1i64, 1000, 1_000_000, 50_000_000, 0]),
        clock_back: r.pct(10),
        tty: r.pct(10),
        uid,
        sup: 0,
        umask: *r.pick(&[0o022, 0o022, 0o022, 0o077, 0o002, 0]),
        nofile: 1024,
        vars: if r.pct(40) { r.below(crate::kernel::ENVIRONS.len()) as u32 } else { 0 },
    }
}

impl<'a> W<'a> {
    pub fn new(prop: &str, seed: u64, pool: &'a Pool) -> W<'a> {
        let mut r = Rng::new(mix2(seed, 0x90b1d));
        let mut sc = Scenario::new(prop, seed);
        let uid = if r.pct(15) { 0 } else { 1000 };
        sc.env = random_env(&mut r, uid);
        // the tree belongs to the user who runs luafmt
        let root = r.pick(&["/home/u/p", "/home/u/p", "/home/u/proj-1", "/p", "/home/u/w/x/y"]).to_string();
        sc.dir(&root);
        W { sc, r, pool, root: root.clone(), dirs: vec![root], files: Vec::new(), big: 8, shipped: false }
    }

    pub fn content(&mut self) -> Vec<u8> {
        if self.r.pct(self.big) {
            let mut i = self.r.below(BIG.len() * 4);
            if i == BIG.len() * 4 - 1 && self.r.pct(70) {
                i = 0; // the very big one, rarely
            }
            self.pool.big(i).into_bytes()
        } else {
            if self.r.pct(3) {
                // next to nothing, of which the result may be nothing
                return self.r.pick(&[&b"\n"[..], b"", b"\n\n", b"--[[x]]", b"--[[ y ]]\n", b"-- c", b"  ", b" \n \n", b"\r\n", b";", b"\n;\n"]).to_vec();
            }
            let i = self.r.below(self.pool.small);
            self.pool.small(i).into_bytes()
        }
    }

    pub fn opts(&mut self) -> Opts {
        if self.shipped || self.r.pct(4) {
            return shipped();
        }
        if self.r.pct(2) {
            return Vec::new(); // a configuration without options
        }
        // mostly from a small pool, so that reference results can be reused
        let i = if self.r.pct(8) { self.pool.cfgs + self.r.below(5000) } else { self.r.below(self.pool.cfgs) };
        self.pool.opts(i)
    }

    pub fn config_named(&mut self, dir: &str, name: &str) -> String {
        let o = self.opts();
        let p = format!("{}/{}", if dir == "/" { "" } else { dir }, name);
        let c = render_config(&o, &mut self.r);
        self.sc.file(&p, c.as_bytes());
        p
    }
    pub fn config(&mut self, dir: &str) -> String {
        let n = if self.r.pct(2) { ".luafmt-\u{e0e9}.lua" } else { *self.r.pick(&[".luafmt.lua", ".luafmt.lua", ".luafmt.lua", ".luafmt-p.lua", ".luafmt_.lua", ".luafmt..lua"]) };
        self.config_named(dir, n)
    }

    pub fn lua_file(&mut self, dir: &str) -> String {
        for _ in 0..20 {
            let n = if self.r.pct(2) { self.r.pick(NAMES_RAW) } else { self.r.pick(NAMES_LUA) };
            let p = format!("{}/{}", dir, n);
            if !self.sc.has(&p) {
                let c = self.content();
                self.sc.file(&p, &c);
                self.files.push(p.clone());
                return p;
            }
        }
        self.files[0].clone()
    }

    /// what other tools keep in a project; none of it means anything to luafmt
    pub fn markers(&mut self) {
        for _ in 0..self.r.range(1, 3) {
            let d = self.r.pick(&self.dirs).clone();
            if self.r.pct(60) {
                let m = *self.r.pick(&[".git", ".git", ".hg", ".svn", "node_modules", "vendor", "target", "build", "lua_modules", ".luarocks", "test", "tests", "spec", "third_party", "dist", "tmp"]);
                let p = format!("{}/{}", d, m);
                if !self.sc.has(&p) {
                    self.sc.dir(&p);
                    if self.r.pct(60) {
                        self.dirs.push(p.clone());
                        self.lua_file(&p);
                    }
                }
            } else {
                let m = *self.r.pick(&[".git", ".editorconfig", ".gitignore", ".luafmtignore", ".ignore", "package.json", "Cargo.toml", ".luacheckrc", "stylua.toml", ".stylua.toml", "x-1.rockspec", ".luarc.json", "luafmt.toml", ".nomedia"]);
                let p = format!("{}/{}", d, m);
                if !self.sc.has(&p) {
                    let c: &[u8] = if m.ends_with("ignore") { b"*.lua\n*\n" } else { b"root = true\n[*]\nindent_style = tab\n" };
                    self.sc.file(&p, c);
                }
            }
        }
    }

    /// directories, `n` Lua files, a configuration at the root and in some directories below
    pub fn project(&mut self, n: usize, nested: usize) {
        let root = self.root.clone();
        for _ in 0..self.r.below(4) {
            let d = format!("{}/{}", root, if self.r.pct(3) { self.r.pick(DIRS_RAW) } else { self.r.pick(DIRS) });
            self.sc.dir(&d);
            if !self.dirs.contains(&d) {
                self.dirs.push(d);
            }
        }
        self.config(&root);
        for i in 1..self.dirs.len() {
            if self.r.pct(nested) {
                let d = self.dirs[i].clone();
                self.config(&d);
            }
        }
        for _ in 0..n {
            let d = if self.r.pct(50) { root.clone() } else { self.r.pick(&self.dirs).clone() };
            self.lua_file(&d);
        }
        if self.r.pct(12) {
            self.markers();
        }
        if self.r.pct(6) {
            // on a device of its own
            let d = self.r.pick(&self.dirs).clone();
            self.sc.params.insert("mounted".into(), crate::json::J::from(d));
        }
        if self.r.pct(8) {
            // where other programs keep what is meant for all projects
            for d in ["/home/u", "/home/u/.config", "/home/u/.config/luafmt", "/root", "/etc", "/etc/luafmt"] {
                if self.r.pct(60) && !(self.root.starts_with(d) && self.r.pct(70)) {
                    self.config_named(d, ".luafmt.lua");
                }
            }
        }
        if self.r.pct(40) {
            for _ in 0..self.r.range(1, 3) {
                let d = self.r.pick(&self.dirs).clone();
                let nme = self.r.pick(NAMES_OTHER).to_string();
                let c = self.content();
                self.sc.file(&format!("{}/{}", d, nme), &c);
            }
        }
    }

    pub fn cwd(&mut self) -> String {
        let k = self.r.below(10);
        match k {
            0..=5 => self.root.clone(),
            6..=7 => self.r.pick(&self.dirs).clone(),
            8 => "/".into(),
            _ => "/home".into(),
        }
    }

    /// a spelling of `path` as seen from `cwd`
    pub fn spell(&mut self, cwd: &str, path: &str, dir: bool) -> String {
        let mut s = if self.r.pct(25) {
            path.to_string()
        } else {
            let c: Vec<&str> = cwd.split('/').filter(|x| !x.is_empty()).collect();
            let p: Vec<&str> = path.split('/').filter(|x| !x.is_empty()).collect();
            let mut k = 0;
            while k < c.len() && k < p.len() && c[k] == p[k] {
                k += 1;
            }
            let mut v: Vec<&str> = vec![".."; c.len() - k];
            v.extend_from_slice(&p[k..]);
            let s = v.join("/");
            if s.is_empty() {
                ".".into()
            } else if s.starts_with('-') || self.r.pct(20) {
                format!("./{}", s)
            } else {
                s
            }
        };
        if self.r.pct(5) {
            // through the directory and back
            if let Some(k) = s.rfind('/') {
                if k > 0 && !s[..k].ends_with('.') {
                    s = format!("{}/.{}", &s[..k], &s[k..]);
                }
            }
        }
        if dir && self.r.pct(25) && !s.ends_with('/') {
            s.push('/');
        }
        s
    }

    /// sources that select at least some of the files; may overlap
    pub fn sources(&mut self, cwd: &str) -> (Vec<String>, bool) {
        let root = self.root.clone();
        let mut v = Vec::new();
        let mut rec = self.r.pct(50);
        let k = self.r.below(10);
        match k {
            0..=3 => {
                rec = true;
                v.push(self.spell(cwd, &root, true));
            }
            4..=6 => {
                let n = self.r.range(1, self.files.len().max(1));
                let mut f = self.files.clone();
                self.r.shuffle(&mut f);
                for p in f.iter().take(n) {
                    v.push(self.spell(cwd, p, false));
                }
            }
            7..=8 => {
                for d in self.dirs.clone() {
                    if self.r.pct(60) {
                        v.push(self.spell(cwd, &d, true));
                    }
                }
                if v.is_empty() {
                    v.push(self.spell(cwd, &root, true));
                }
            }
            _ => {
                v.push(self.spell(cwd, &root, true));
                let f = self.r.pick(&self.files).clone();
                v.push(self.spell(cwd, &f, false));
            }
        }
        (v, rec)
    }

    pub fn flags(&mut self, inplace: bool, rec: bool) -> Vec<String> {
        let mut v: Vec<String> = Vec::new();
        if inplace {
            v.push(self.r.pick(&["-i", "-i", "--inplace"]).to_string());
        }
        if rec {
            v.push(self.r.pick(&["-r", "-r", "--recursive"]).to_string());
        }
        v
    }

    /// one process over the project
    pub fn command(&mut self, inplace: bool) -> ProcSpec {
        let cwd = self.cwd();
        let (src, rec) = self.sources(&cwd);
        let mut args = self.flags(inplace, rec);
        args.extend(src);
        if self.r.pct(4) {
            args.push(self.r.pick(IDLE_ARGS).to_string());
        }
        if self.r.pct(20) {
            self.r.shuffle(&mut args);
        }
        ProcSpec { args, stdin: Vec::new(), cwd }
    }

    pub fn links(&mut self) {
        // to files and directories inside and outside of the project
        for _ in 0..self.r.range(1, 3) {
            let d = self.r.pick(&self.dirs).clone();
            let n = format!("{}/l{}.lua", d, self.r.below(9));
            let t = match self.r.below(6) {
                0 => "nowhere.lua".to_string(),
                1 => {
                    let p = format!("/home/o/out{}.lua", self.r.below(3));
                    let c = self.content();
                    self.sc.file(&p, &c);
                    p
                }
                2 => {
                    let l = n.rsplit('/').next().unwrap().to_string();
                    l
                }
                _ => {
                    let f = self.r.pick(&self.files).clone();
                    if self.r.pct(50) {
                        f
                    } else {
                        self.relative(&d, &f)
                    }
                }
            };
            self.sc.link(&n, &t);
        }
        if self.r.pct(40) && self.sc.has("/home/o") && !self.sc.has("/home/o/.luafmt.lua") {
            self.config_named("/home/o", ".luafmt.lua");
        }
    }

    pub fn relative(&mut self, from: &str, to: &str) -> String {
        let c: Vec<&str> = from.split('/').filter(|x| !x.is_empty()).collect();
        let p: Vec<&str> = to.split('/').filter(|x| !x.is_empty()).collect();
        let mut k = 0;
        while k < c.len() && k < p.len() && c[k] == p[k] {
            k += 1;
        }
        let mut v: Vec<&str> = vec![".."; c.len() - k];
        v.extend_from_slice(&p[k..]);
        if v.is_empty() {
            ".".into()
        } else {
            v.join("/")
        }
    }

    fn skip(&mut self) -> u32 {
        let n = *self.r.pick(&[1usize, 1, 3, 6, 15, 40]);
        self.r.below(n) as u32
    }

    /// `n` rules that make file system calls fail, be short or be interrupted
    pub fn io_rules(&mut self, n: usize, under: &str, phase: i32) {
        for _ in 0..n {
            let sticky = self.r.pct(25);
            let (ops_, what): (u64, What) = match self.r.below(17) {
                0 => (ROPEN, What::Errs(vec![EIO, EMFILE, ENFILE, ENOMEM, EACCES])),
                1 | 2 => (WOPEN, What::Errs(vec![EIO, ENOSPC, EDQUOT, EROFS, EMFILE, EACCES, ENOMEM])),
                3 if self.r.pct(50) => {
                    // the first part arrives, the rest does not
                    let rd = ops(&[op::READ, op::PREAD]);
                    let skip = self.r.below(8) as u32;
                    self.rule(phase, -1, rd, under, skip, 1, 1000, What::Short(5000));
                    self.rule(phase, -1, rd, under, skip, 1, 1000, What::Errs(vec![EIO, ESTALE]));
                    continue;
                }
                3 => (ops(&[op::READ, op::PREAD]), What::Errs(vec![EIO, ESTALE])),
                4 => (ops(&[op::READ, op::PREAD]), What::Errs(vec![EINTR])),
                5 => (ops(&[op::READ, op::PREAD]), What::Short(7)),
                6 | 7 => (ops(&[op::WRITE, op::PWRITE]), What::Errs(vec![EIO, ENOSPC, EDQUOT, EFBIG])),
                8 => (ops(&[op::WRITE, op::PWRITE]), What::Errs(vec![EINTR])),
                9 => (ops(&[op::WRITE, op::PWRITE]), What::Short(200)),
                10 => {
                    let e = *self.r.pick(&[EIO, ENOSPC, EDQUOT]);
                    (ops(&[op::WRITE, op::PWRITE]), What::Poison(e))
                }
                11 => (ops(&[op::FSYNC]), What::Errs(vec![EIO, ENOSPC, EDQUOT])),
                12 => (ops(&[op::RENAME, op::LINK]), What::Errs(vec![EIO, ENOSPC, EROFS, EACCES, EXDEV, EPERM, EBUSY])),
                13 => (ops(&[op::STAT, op::FSTAT]), What::Errs(vec![EIO, ENOMEM, ESTALE])),
                14 => (ops(&[op::FCHMOD, op::CHMOD, op::FCHOWN]), What::Errs(vec![EIO, EPERM, EROFS])),
                15 => (ops(&[op::OPENDIR, op::GETDENTS]), What::Errs(vec![EIO, ENOMEM])),
                _ => (ops(&[op::REALPATH, op::READLINK]) | FCLOSE, What::Errs(vec![EIO, ENOMEM])),
            };
            let short = matches!(&what, What::Short(_)) || what == What::Errs(vec![EINTR]);
            let (count, permille) = if short {
                (self.r.range(1, 30) as u32, *self.r.pick(&[1000u32, 400]))
            } else if sticky {
                (1_000_000, *self.r.pick(&[1000u32, 1000, 300]))
            } else {
                (1, 1000)
            };
            let skip = self.skip();
            self.rule(phase, -1, ops_, under, skip, count, permille, what);
        }
    }

    #[allow(clippy::too_many_arguments)]
    pub fn rule(&mut self, phase: i32, proc: i32, ops: u64, under: &str, skip: u32, count: u32, permille: u32, mut what: What) {
        if let What::Errs(v) = &mut what {
            if count >= 10_000 && v.len() > 1 && self.r.pct(70) {
                // always the same
                *v = vec![*self.r.pick(v)];
            }
        }
        self.sc.rules.push(Rule { phase, proc, ops, under: under.into(), skip, count, permille, what });
    }

    /// a kill or a power loss somewhere in the life of a run
    pub fn crash_rule(&mut self, phase: i32, power: usize) {
        let ops_ = match self.r.below(6) {
            0 => u64::MAX >> 4,
            1 | 2 => WOPEN | ops(&[op::WRITE, op::PWRITE, op::FSYNC, op::RENAME, op::LINK, op::UNLINK, op::FCHMOD, op::FCHOWN]),
            3 => ops(&[op::WRITE, op::FSYNC, op::RENAME]),
            4 => ops(&[op::RENAME, op::UNLINK]) | FCLOSE,
            _ => WOPEN | ops(&[op::WRITE]),
        };
        let what = if self.r.pct(power) {
            What::PowerLoss
        } else if self.r.pct(50) {
            What::KillBefore
        } else {
            What::KillAfter
        };
        let skip = self.skip();
        self.rule(phase, -1, ops_, "", skip, 1, 1000, what);
        if self.r.pct(40) {
            // torn by a short write right before
            self.rule(phase, -1, ops(&[op::WRITE]), "/", 0, 100, 500, What::Short(300));
        }
    }
}
