//! A run as data: the world, the processes, what is handed out, what may fail. Serialised whole into replay files.
use crate::json::J;
use crate::kernel::{Env, NAMES};
use crate::vfs::{errno, Cred, Kind, Vfs};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum NK {
    Dir,
    File(Vec<u8>),
    Link(String),
    /// another name of that file
    Hard(String),
    Fifo,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Node {
    pub path: String,
    pub kind: NK,
    pub mode: u32,
    pub uid: u32,
    pub gid: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub struct ProcSpec {
    pub args: Vec<String>,
    pub stdin: Vec<u8>,
    pub cwd: String,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Phase {
    pub procs: Vec<ProcSpec>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum What {
    Errs(Vec<i32>),
    Short(usize),
    Poison(i32),
    Flip,
    KillBefore,
    KillAfter,
    PowerLoss,
    Act(usize),
}

/// Where faults may strike while a run is being recorded.
#[derive(Clone, Debug, PartialEq)]
pub struct Rule {
    pub phase: i32,
    pub proc: i32,
    pub ops: u64,
    pub under: String,
    /// let this many matching calls pass first
    pub skip: u32,
    /// at most this many injections
    pub count: u32,
    pub permille: u32,
    pub what: What,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Action {
    Remove(String),
    /// what an editor does: a new file takes the place of the old one, or a name is new
    Replace(String, Vec<u8>),
    Link(String, String),
    Write(String, Vec<u8>),
    Mkdir(String),
    Chmod(String, u32),
}

#[derive(Clone, Debug, PartialEq)]
pub enum FK {
    Err(i32),
    Short(usize),
    Poison(i32),
    Flip(usize),
    KillBefore,
    KillAfter,
    PowerLoss,
    Act(usize),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Fault {
    pub phase: usize,
    pub proc: usize,
    pub call: u32,
    pub kind: FK,
    /// for the reader of the replay file only
    pub at: String,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Plan {
    pub faults: Vec<Fault>,
    pub sched: Vec<u32>,
    /// preemptions inside libsim (C16), as it reports them
    pub switches: String,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Scenario {
    pub prop: String,
    pub variant: String,
    pub seed: u64,
    pub nodes: Vec<Node>,
    pub phases: Vec<Phase>,
    pub env: Env,
    pub rules: Vec<Rule>,
    pub actions: Vec<Action>,
    /// how eagerly the scheduler stays with the process it served last (percent)
    pub sticky_sched: u32,
    pub noise: u64,
    pub max_steps: u32,
    pub evict: bool,
    pub params: BTreeMap<String, J>,
}

pub fn ops(list: &[u32]) -> u64 {
    list.iter().fold(0, |m, &o| m | 1 << o)
}

impl Scenario {
    pub fn new(prop: &str, seed: u64) -> Scenario {
        Scenario {
            prop: prop.into(),
            variant: String::new(),
            seed,
            nodes: Vec::new(),
            phases: Vec::new(),
            env: Env::plain(),
            rules: Vec::new(),
            actions: Vec::new(),
            sticky_sched: 0,
            noise: crate::rng::mix2(seed, 77),
            max_steps: 20000,
            evict: true,
            params: BTreeMap::new(),
        }
    }
    pub fn dir(&mut self, path: &str) {
        if path.is_empty() || path == "/" || self.nodes.iter().any(|n| n.path == path) {
            return;
        }
        if let Some(k) = path.rfind('/') {
            let p = path[..k].to_string();
            self.dir(&p);
        }
        self.nodes.push(Node { path: path.into(), kind: NK::Dir, mode: 0o755, uid: self.env.uid, gid: self.env.uid });
    }
    fn add(&mut self, path: &str, kind: NK, mode: u32) {
        if let Some(k) = path.rfind('/') {
            let p = path[..k].to_string();
            self.dir(&p);
        }
        if self.nodes.iter().any(|n| n.path == path) {
            return;
        }
        self.nodes.push(Node { path: path.into(), kind, mode, uid: self.env.uid, gid: self.env.uid });
    }
    pub fn file(&mut self, path: &str, content: &[u8]) {
        self.add(path, NK::File(content.to_vec()), 0o644);
    }
    pub fn link(&mut self, path: &str, target: &str) {
        self.add(path, NK::Link(target.into()), 0o777);
    }
    pub fn hard(&mut self, path: &str, target: &str) {
        self.add(path, NK::Hard(target.into()), 0o644);
    }
    pub fn fifo(&mut self, path: &str) {
        self.add(path, NK::Fifo, 0o644);
    }
    pub fn has(&self, path: &str) -> bool {
        self.nodes.iter().any(|n| n.path == path)
    }
    pub fn chmod(&mut self, path: &str, mode: u32) {
        for n in &mut self.nodes {
            if n.path == path {
                n.mode = mode;
            }
        }
    }
    pub fn proc(&mut self, cwd: &str, args: &[String]) {
        self.phases.push(Phase {
            procs: vec![ProcSpec { args: args.to_vec(), stdin: Vec::new(), cwd: cwd.into() }],
        });
    }
    pub fn p(&self, k: &str) -> &J {
        self.params.get(k).unwrap_or(&J::Null)
    }

    /// The initial disk. Nodes whose parent does not exist (any more, while minimising) are left out.
    pub fn build(&self) -> Vfs {
        let mut v = Vfs::new();
        v.now = self.env.clock_base - 86_400_000_000_000;
        let root = Cred { uid: 0, gid: 0, sup: 0 };
        for (d, dev) in [("home", 0u32), ("tmp", 2)] {
            let i = v.create(0, d.as_bytes(), Kind::Dir(BTreeMap::new()), if d == "tmp" { 0o1777 } else { 0o755 }, root).unwrap();
            if dev != 0 {
                v.inodes[i].dev = 0x802;
            }
        }
        for n in &self.nodes {
            let (dp, name) = match n.path.rfind('/') {
                Some(0) => ("/", &n.path[1..]),
                Some(k) => (&n.path[..k], &n.path[k + 1..]),
                None => continue,
            };
            let d = match v.lookup(0, dp.as_bytes(), true, root) {
                Ok(d) if v.is_dir(d) => d,
                _ => continue,
            };
            if v.dir(d).unwrap().contains_key(name.as_bytes()) {
                continue;
            }
            let kind = match &n.kind {
                NK::Hard(t) => {
                    if let Ok(i) = v.lookup(0, t.as_bytes(), true, root) {
                        if matches!(v.inodes[i].kind, Kind::File) {
                            let _ = v.hardlink(d, name.as_bytes(), i, root);
                        }
                    }
                    continue;
                }
                NK::Dir => Kind::Dir(BTreeMap::new()),
                NK::File(_) => Kind::File,
                NK::Link(t) => Kind::Link(t.as_bytes().to_vec()),
                NK::Fifo => Kind::Fifo,
            };
            let i = match v.create(d, name.as_bytes(), kind, n.mode, root) {
                Ok(i) => i,
                Err(_) => continue,
            };
            if n.path == self.p("mounted").str() {
                v.inodes[i].dev = 0x803;
            }
            v.inodes[i].uid = n.uid;
            v.inodes[i].gid = n.gid;
            if let NK::File(c) = &n.kind {
                v.inodes[i].data = std::rc::Rc::new(c.clone());
            }
        }
        v.checkpoint();
        v
    }

    pub fn to_json(&self) -> J {
        let mut o = J::obj();
        o.put("prop", &self.prop);
        o.put("variant", &self.variant);
        o.put("seed", J::Str(self.seed.to_string()));
        o.put("noise", J::Str(self.noise.to_string()));
        o.put("max_steps", self.max_steps);
        o.put("sticky_sched", self.sticky_sched);
        o.put("evict", self.evict);
        o.put(
            "tree",
            self.nodes
                .iter()
                .map(|n| {
                    let mut j = J::obj().set("path", &n.path).set("mode", format!("{:o}", n.mode)).set("uid", n.uid).set("gid", n.gid);
                    match &n.kind {
                        NK::Dir => j.put("dir", true),
                        NK::File(c) => j.put("file", J::bytes(c)),
                        NK::Link(t) => j.put("link", t),
                        NK::Hard(t) => j.put("hard", t),
                        NK::Fifo => j.put("fifo", true),
                    }
                    j
                })
                .collect::<Vec<_>>(),
        );
        o.put(
            "phases",
            self.phases
                .iter()
                .map(|p| {
                    J::Arr(
                        p.procs
                            .iter()
                            .map(|q| {
                                J::obj()
                                    .set("args", q.args.clone())
                                    .set("cwd", &q.cwd)
                                    .set("stdin", J::bytes(&q.stdin))
                            })
                            .collect(),
                    )
                })
                .collect::<Vec<_>>(),
        );
        let e = &self.env;
        o.put(
            "env",
            J::obj()
                .set("order_seed", J::Str(e.order_seed.to_string()))
                .set("dtype_unknown", e.dtype_unknown)
                .set("getdents_chunk", e.getdents_chunk)
                .set("ino_seed", J::Str(e.ino_seed.to_string()))
                .set("pid_base", e.pid_base)
                .set("pid_reuse", e.pid_reuse)
                .set("rand_seed", J::Str(e.rand_seed.to_string()))
                .set("clock_base", J::Str(e.clock_base.to_string()))
                .set("clock_step", e.clock_step)
                .set("clock_back", e.clock_back)
                .set("tty", e.tty)
                .set("uid", e.uid)
                .set("sup", e.sup)
                .set("umask", e.umask)
                .set("nofile", e.nofile)
                .set("vars", e.vars),
        );
        o.put(
            "rules",
            self.rules
                .iter()
                .map(|r| {
                    let mut j = J::obj()
                        .set("phase", r.phase)
                        .set("proc", r.proc)
                        .set("ops", ops_names(r.ops))
                        .set("under", &r.under)
                        .set("skip", r.skip)
                        .set("count", r.count)
                        .set("permille", r.permille);
                    match &r.what {
                        What::Errs(v) => {
                            j.put("errs", J::Arr(v.iter().map(|&e| J::Int(e as i64)).collect::<Vec<_>>()))
                        }
                        What::Short(n) => j.put("short", *n),
                        What::Poison(e) => j.put("poison", *e),
                        What::Flip => j.put("flip", true),
                        What::KillBefore => j.put("kill", "before"),
                        What::KillAfter => j.put("kill", "after"),
                        What::PowerLoss => j.put("power", true),
                        What::Act(n) => j.put("act", *n),
                    }
                    j
                })
                .collect::<Vec<_>>(),
        );
        o.put(
            "actions",
            self.actions
                .iter()
                .map(|a| match a {
                    Action::Remove(p) => J::obj().set("remove", p),
                    Action::Replace(p, c) => J::obj().set("replace", p).set("content", J::bytes(c)),
                    Action::Link(p, t) => J::obj().set("link", p).set("to", t),
                    Action::Write(p, c) => J::obj().set("write", p).set("content", J::bytes(c)),
                    Action::Mkdir(p) => J::obj().set("mkdir", p),
                    Action::Chmod(p, m) => J::obj().set("chmod", p).set("mode", *m),
                })
                .collect::<Vec<_>>(),
        );
        o.put("params", J::Obj(self.params.clone()));
        o
    }

    pub fn from_json(j: &J) -> Result<Scenario, String> {
        let mut s = Scenario::new(j.get("prop").str(), j.get("seed").u64());
        s.variant = j.get("variant").str().into();
        s.noise = j.get("noise").u64();
        s.max_steps = j.get("max_steps").int() as u32;
        s.sticky_sched = j.get("sticky_sched").int() as u32;
        s.evict = j.get("evict").bool();
        for n in j.get("tree").arr() {
            let kind = if n.get("dir").bool() {
                NK::Dir
            } else if n.get("fifo").bool() {
                NK::Fifo
            } else if !n.get("link").is_null() {
                NK::Link(n.get("link").str().into())
            } else if !n.get("hard").is_null() {
                NK::Hard(n.get("hard").str().into())
            } else {
                NK::File(n.get("file").to_bytes())
            };
            s.nodes.push(Node {
                path: n.get("path").str().into(),
                kind,
                mode: u32::from_str_radix(n.get("mode").str(), 8).map_err(|e| e.to_string())?,
                uid: n.get("uid").int() as u32,
                gid: n.get("gid").int() as u32,
            });
        }
        for p in j.get("phases").arr() {
            s.phases.push(Phase {
                procs: p
                    .arr()
                    .iter()
                    .map(|q| ProcSpec {
                        args: q.get("args").arr().iter().map(|a| a.str().to_string()).collect(),
                        stdin: q.get("stdin").to_bytes(),
                        cwd: q.get("cwd").str().into(),
                    })
                    .collect(),
            });
        }
        let e = j.get("env");
        s.env = Env {
            order_seed: e.get("order_seed").u64(),
            dtype_unknown: e.get("dtype_unknown").bool(),
            getdents_chunk: e.get("getdents_chunk").int() as usize,
            ino_seed: e.get("ino_seed").u64(),
            pid_base: e.get("pid_base").int() as u32,
            pid_reuse: e.get("pid_reuse").bool(),
            rand_seed: e.get("rand_seed").u64(),
            clock_base: e.get("clock_base").str().parse().map_err(|_| "clock")?,
            clock_step: e.get("clock_step").int(),
            clock_back: e.get("clock_back").bool(),
            tty: e.get("tty").bool(),
            uid: e.get("uid").int() as u32,
            sup: e.get("sup").int() as u32,
            umask: e.get("umask").int() as u32,
            nofile: e.get("nofile").int() as u32,
            vars: e.get("vars").int() as u32,
        };
        for r in j.get("rules").arr() {
            let what = if !r.get("errs").is_null() {
                What::Errs(r.get("errs").arr().iter().map(|x| x.int() as i32).collect())
            } else if !r.get("short").is_null() {
                What::Short(r.get("short").int() as usize)
            } else if !r.get("poison").is_null() {
                What::Poison(r.get("poison").int() as i32)
            } else if r.get("flip").bool() {
                What::Flip
            } else if r.get("kill").str() == "before" {
                What::KillBefore
            } else if r.get("kill").str() == "after" {
                What::KillAfter
            } else if r.get("power").bool() {
                What::PowerLoss
            } else {
                What::Act(r.get("act").int() as usize)
            };
            s.rules.push(Rule {
                phase: r.get("phase").int() as i32,
                proc: r.get("proc").int() as i32,
                ops: names_ops(r.get("ops")),
                under: r.get("under").str().into(),
                skip: r.get("skip").int() as u32,
                count: r.get("count").int() as u32,
                permille: r.get("permille").int() as u32,
                what,
            });
        }
        for a in j.get("actions").arr() {
            s.actions.push(if !a.get("remove").is_null() {
                Action::Remove(a.get("remove").str().into())
            } else if !a.get("replace").is_null() {
                Action::Replace(a.get("replace").str().into(), a.get("content").to_bytes())
            } else if !a.get("link").is_null() {
                Action::Link(a.get("link").str().into(), a.get("to").str().into())
            } else if !a.get("write").is_null() {
                Action::Write(a.get("write").str().into(), a.get("content").to_bytes())
            } else if !a.get("mkdir").is_null() {
                Action::Mkdir(a.get("mkdir").str().into())
            } else {
                Action::Chmod(a.get("chmod").str().into(), a.get("mode").int() as u32)
            });
        }
        if let J::Obj(m) = j.get("params") {
            s.params = m.clone();
        }
        Ok(s)
    }
}

fn ops_names(m: u64) -> Vec<String> {
    if m == u64::MAX {
        return vec!["*".into()];
    }
    let mut v: Vec<String> = (0..NAMES.len()).filter(|i| m >> i & 1 == 1).map(|i| NAMES[i].to_string()).collect();
    for (b, n) in FINE {
        if m >> b & 1 == 1 {
            v.push(n.to_string());
        }
    }
    v
}
const FINE: &[(u32, &str)] = &[(60, "open-for-writing"), (61, "open-for-reading"), (62, "close-of-file")];
fn names_ops(j: &J) -> u64 {
    let mut m = 0;
    for n in j.arr() {
        if n.str() == "*" {
            return u64::MAX;
        }
        if let Some(i) = NAMES.iter().position(|x| *x == n.str()) {
            m |= 1 << i;
        }
        if let Some(x) = FINE.iter().find(|x| x.1 == n.str()) {
            m |= 1 << x.0;
        }
    }
    m
}

impl What {
    pub fn makes(&self, f: &FK) -> bool {
        match (self, f) {
            (What::Errs(v), FK::Err(e)) => v.contains(e),
            (What::Act(a), FK::Act(b)) => a == b,
            (What::Poison(a), FK::Poison(b)) => a == b,
            (What::Short(_), FK::Short(_)) | (What::Flip, FK::Flip(_)) => true,
            (What::KillBefore, FK::KillBefore) | (What::KillAfter, FK::KillAfter) => true,
            (What::PowerLoss, FK::PowerLoss) => true,
            _ => false,
        }
    }
}

impl FK {
    pub fn label(&self) -> String {
        match self {
            FK::Err(e) => errno::name(*e).to_string(),
            FK::Short(_) => "short".into(),
            FK::Poison(e) => format!("writeback-{}", errno::name(*e)),
            FK::Flip(_) => "corrupt-read".into(),
            FK::KillBefore | FK::KillAfter => "kill".into(),
            FK::PowerLoss => "power-loss".into(),
            FK::Act(_) => "other-program".into(),
        }
    }
}

impl Plan {
    pub fn to_json(&self) -> J {
        J::obj()
            .set(
                "faults",
                self.faults
                    .iter()
                    .map(|f| {
                        let mut j =
                            J::obj().set("phase", f.phase).set("proc", f.proc).set("call", f.call).set("at", &f.at);
                        match &f.kind {
                            FK::Err(e) => {
                                j.put("err", *e);
                                j.put("name", errno::name(*e));
                            }
                            FK::Short(n) => j.put("short", *n),
                            FK::Poison(e) => j.put("poison", *e),
                            FK::Flip(n) => j.put("flip", *n),
                            FK::KillBefore => j.put("kill", "before"),
                            FK::KillAfter => j.put("kill", "after"),
                            FK::PowerLoss => j.put("power", true),
                            FK::Act(n) => j.put("act", *n),
                        }
                        j
                    })
                    .collect::<Vec<_>>(),
            )
            .set("schedule", J::Arr(self.sched.iter().map(|&x| J::Int(x as i64)).collect::<Vec<_>>()))
    }
    pub fn from_json(j: &J) -> Plan {
        let mut p = Plan::default();
        for f in j.get("faults").arr() {
            let kind = if !f.get("err").is_null() {
                FK::Err(f.get("err").int() as i32)
            } else if !f.get("short").is_null() {
                FK::Short(f.get("short").int() as usize)
            } else if !f.get("poison").is_null() {
                FK::Poison(f.get("poison").int() as i32)
            } else if !f.get("flip").is_null() {
                FK::Flip(f.get("flip").int() as usize)
            } else if f.get("kill").str() == "before" {
                FK::KillBefore
            } else if f.get("kill").str() == "after" {
                FK::KillAfter
            } else if f.get("power").bool() {
                FK::PowerLoss
            } else {
                FK::Act(f.get("act").int() as usize)
            };
            p.faults.push(Fault {
                phase: f.get("phase").int() as usize,
                proc: f.get("proc").int() as usize,
                call: f.get("call").int() as u32,
                kind,
                at: f.get("at").str().into(),
            });
        }
        p.sched = j.get("schedule").arr().iter().map(|x| x.int() as u32).collect();
        p
    }
}
