//! The run loop: which pending call is served next, what happens to it, and what is checked after it.
use crate::kernel::{op, Bend, Kernel, Proc, Rep, Req, NAMES};
use crate::rng::{hash_bytes, mix2, Fnv, Rng};
use crate::scenario::*;
use crate::server::Server;
use crate::vfs::{inner, raw, errno, Cred, Kind, Vfs};
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::os::unix::net::UnixStream;
use std::rc::Rc;

pub enum Mode<'a> {
    Record,
    Replay(&'a Plan),
}

#[derive(Clone, Debug, Default)]
pub struct ProcResult {
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub status: i32,
    pub calls: u32,
    pub peak: usize,
    /// ended by a kill or a power loss of the plan
    pub killed: bool,
    /// the harness ended it: it ran away, hung or was blocked for ever
    pub stuck: Option<String>,
}

impl ProcResult {
    pub fn exit_code(&self) -> Option<i32> {
        if self.status & 0x7f == 0 {
            Some((self.status >> 8) & 0xff)
        } else {
            None
        }
    }
    pub fn signal(&self) -> i32 {
        self.status & 0x7f
    }
    pub fn clean_exit(&self) -> bool {
        self.status == 0 && !self.killed && self.stuck.is_none()
    }
    pub fn err_text(&self) -> String {
        String::from_utf8_lossy(&self.err).into_owned()
    }
}

pub struct PhaseResult {
    pub procs: Vec<ProcResult>,
    pub power_loss: bool,
    pub fs: Vfs,
}

#[derive(Default)]
pub struct Stats {
    pub steps: u64,
    pub sim_ns: i64,
    pub procs: u64,
    pub faults: BTreeMap<String, u64>,
    pub states: HashSet<u64>,
    pub probes: BTreeMap<&'static str, u64>,
}

impl Stats {
    pub fn merge(&mut self, o: &Stats) {
        self.steps += o.steps;
        self.sim_ns += o.sim_ns;
        self.procs += o.procs;
        for (k, v) in &o.faults {
            *self.faults.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &o.probes {
            *self.probes.entry(k).or_default() += v;
        }
        self.states.extend(o.states.iter().copied());
    }
}

pub struct Run {
    pub phases: Vec<PhaseResult>,
    pub plan: Plan,
    pub hash: u64,
    pub stats: Stats,
    pub observed: Option<String>,
    /// mutating calls that were served: "name path"
    pub mutations: Vec<String>,
    pub trace: Vec<String>,
    pub injected: usize,
}

pub struct Ev<'a> {
    pub phase: usize,
    pub proc: usize,
    pub req: &'a Req,
    pub path: &'a [u8],
}

pub type Observer<'a> = dyn FnMut(&Kernel, &Ev) -> Option<String> + 'a;

struct Live {
    idx: usize,
    pid: i64,
    ch: UnixStream,
    pending: Option<Req>,
    blocked: bool,
    done: bool,
    res: ProcResult,
}

fn read_req(l: &mut Live, buf: &mut [u8]) -> std::io::Result<Option<Req>> {
    let mut have = 0;
    let mut need = 56;
    loop {
        if have >= 56 {
            need = 56 + u32::from_le_bytes(buf[0..4].try_into().unwrap()) as usize;
            if have >= 56 && need > buf.len() {
                let mut data = vec![0u8; need - 56];
                let k = have - 56;
                data[..k].copy_from_slice(&buf[56..have]);
                l.ch.read_exact(&mut data[k..])?;
                return Ok(Some(parse_req(buf, data)));
            }
            if have >= need {
                let data = buf[56..need].to_vec();
                return Ok(Some(parse_req(buf, data)));
            }
        }
        let n = match l.ch.read(&mut buf[have..]) {
            Ok(n) => n,
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
            Err(e) if e.kind() == std::io::ErrorKind::ConnectionReset => 0,
            Err(e) => return Err(e),
        };
        if n == 0 {
            return Ok(None);
        }
        have += n;
        let _ = need;
    }
}

fn parse_req(buf: &[u8], data: Vec<u8>) -> Req {
    let mut a = [0i64; 6];
    for (i, x) in a.iter_mut().enumerate() {
        *x = i64::from_le_bytes(buf[8 + 8 * i..16 + 8 * i].try_into().unwrap());
    }
    let op = u32::from_le_bytes(buf[4..8].try_into().unwrap());
    let paths = matches!(
        op,
        op::OPEN | op::STAT | op::OPENDIR | op::UNLINK | op::MKDIR | op::READLINK | op::REALPATH | op::CHMOD | op::CHOWN | op::TRUNCATE
            | op::UTIMENS | op::ACCESS | op::CHDIR | op::RENAME | op::LINK | op::SYMLINK
    );
    Req { op, a, data: if paths { inner(data) } else { data } }
}

fn send_rep(l: &mut Live, r: &Rep) {
    let mut b = Vec::with_capacity(16 + r.data.len());
    b.extend_from_slice(&(r.data.len() as u32).to_le_bytes());
    b.extend_from_slice(&r.err.to_le_bytes());
    b.extend_from_slice(&r.ret.to_le_bytes());
    b.extend_from_slice(&r.data);
    let _ = l.ch.write_all(&b);
}

fn under(path: &[u8], pre: &str) -> bool {
    let p = pre.as_bytes();
    p.is_empty() || (path.starts_with(p) && (path.len() == p.len() || path[p.len()] == b'/' || p.ends_with(b"/")))
}

pub fn act(v: &mut Vfs, a: &Action) {
    let root = Cred { uid: 0, gid: 0, sup: 0 };
    match a {
        Action::Remove(p) => {
            if let Ok(r) = v.resolve(0, p.as_bytes(), false, root) {
                if let Some(i) = r.ino {
                    let d = v.is_dir(i);
                    let _ = v.unlink(r.dir, &r.name, d, root);
                }
            }
        }
        Action::Replace(p, c) => {
            if let Ok(r) = v.resolve(0, p.as_bytes(), false, root) {
                let (mode, uid, gid);
                if let Some(i) = r.ino {
                    if v.is_dir(i) {
                        return;
                    }
                    (mode, uid, gid) = (v.inodes[i].mode, v.inodes[i].uid, v.inodes[i].gid);
                    let _ = v.unlink(r.dir, &r.name, false, root);
                } else {
                    (mode, uid, gid) = (0o644, v.inodes[r.dir].uid, v.inodes[r.dir].gid);
                }
                if let Ok(i) = v.create(r.dir, &r.name, Kind::File, mode, root) {
                    v.inodes[i].uid = uid;
                    v.inodes[i].gid = gid;
                    v.write_at(i, 0, c, 0);
                }
            }
        }
        Action::Link(p, t) => {
            if let Ok(r) = v.resolve(0, p.as_bytes(), false, root) {
                if let Some(i) = r.ino {
                    if v.is_dir(i) {
                        return;
                    }
                    let _ = v.unlink(r.dir, &r.name, false, root);
                }
                let _ = v.create(r.dir, &r.name, Kind::Link(t.as_bytes().to_vec()), 0o777, root);
            }
        }
        Action::Write(p, c) => {
            if let Ok(r) = v.resolve(0, p.as_bytes(), true, root) {
                let i = match r.ino {
                    Some(i) => Ok(i),
                    None => v.create(r.dir, &r.name, Kind::File, 0o644, root).map(|i| {
                        v.inodes[i].uid = 1000;
                        v.inodes[i].gid = 1000;
                        i
                    }),
                };
                if let Ok(i) = i {
                    v.truncate(i, 0);
                    v.write_at(i, 0, c, 0);
                }
            }
        }
        Action::Mkdir(p) => {
            if let Ok(r) = v.resolve(0, p.as_bytes(), true, root) {
                if r.ino.is_none() {
                    let _ = v.create(r.dir, &r.name, Kind::Dir(BTreeMap::new()), 0o777, root);
                }
            }
        }
        Action::Chmod(p, m) => {
            if let Ok(i) = v.lookup(0, p.as_bytes(), true, root) {
                v.set_attr(i, Some(*m), None, None);
            }
        }
    }
}

fn show(r: &Req, path: &[u8]) -> String {
    let mut s = format!("{}({}", NAMES[r.op as usize], String::from_utf8_lossy(path));
    match r.op {
        op::OPEN => s += &format!(", flags {:o}, mode {:o}", r.a[1], r.a[2]),
        op::RENAME | op::LINK | op::SYMLINK => {
            let k = r.data.iter().position(|&b| b == 0).unwrap_or(0);
            s += &format!(" -> {}", String::from_utf8_lossy(&r.data[k + 1..]));
        }
        op::WRITE | op::PWRITE => {
            let t = String::from_utf8_lossy(&r.data[..r.data.len().min(60)]).into_owned();
            s += &format!(", {} bytes {:?}", r.data.len(), t);
        }
        op::READ | op::PREAD | op::LSEEK | op::FTRUNCATE | op::FCHMOD | op::CHMOD => s += &format!(", {:?}", &r.a[1..3]),
        _ => {}
    }
    s + ")"
}

pub fn run(srv: &mut Server, sc: &Scenario, mode: Mode, obs: &mut Observer, trace: bool) -> Run {
    let mut k = Kernel::new(sc.build(), sc.env.clone());
    let mut rng = Rng::new(mix2(sc.seed, 0x5c4ed));
    let mut out = Run {
        phases: Vec::new(),
        plan: Plan::default(),
        hash: 0,
        stats: Stats::default(),
        observed: None,
        mutations: Vec::new(),
        trace: Vec::new(),
        injected: 0,
    };
    let mut h = Fnv::new();
    let mut buf = vec![0u8; 1 << 16];
    let mut hits = vec![(0u32, 0u32); sc.rules.len()];
    let mut sched_pos = 0;
    let mut total_procs = 0;
    let replay: BTreeMap<(usize, usize, u32), FK> = match &mode {
        Mode::Replay(p) => p.faults.iter().map(|f| ((f.phase, f.proc, f.call), f.kind.clone())).collect(),
        Mode::Record => BTreeMap::new(),
    };
    let t0 = k.now;

    for (ph, phase) in sc.phases.iter().enumerate() {
        k.procs.clear();
        k.locks.clear();
        let mut live: Vec<Live> = Vec::new();
        for (i, p) in phase.procs.iter().enumerate() {
            let root = Cred { uid: 0, gid: 0, sup: 0 };
            let cwd = k.vfs.lookup(0, p.cwd.as_bytes(), true, root).ok().filter(|&d| k.vfs.is_dir(d)).unwrap_or(0);
            let pid = sc.env.pid_base + if sc.env.pid_reuse { i as u32 } else { total_procs } * 3;
            total_procs += 1;
            let cred = Cred { uid: sc.env.uid, gid: sc.env.uid, sup: sc.env.sup };
            k.procs.push(Proc::new(pid, cred, cwd, Rc::new(p.stdin.clone())));
            k.procs[i].umask = sc.env.umask;
            k.procs[i].nofile = sc.env.nofile as i32;
            let given: Vec<Vec<u8>> = p.args.iter().map(|a| raw(a.as_bytes())).collect();
            let mut args: Vec<&[u8]> = vec![b"luafmt"];
            args.extend(given.iter().map(|a| &a[..]));
            let (rp, ch) = srv.spawn(&args, crate::kernel::ENVIRONS[sc.env.vars as usize % crate::kernel::ENVIRONS.len()]);
            live.push(Live { idx: i, pid: rp, ch, pending: None, blocked: false, done: false, res: ProcResult::default() });
        }
        out.stats.procs += live.len() as u64;
        let mut last = usize::MAX;
        let mut power = false;
        'phase: loop {
            // every process that can run runs up to its next call
            let mut someone_left = false;
            for l in live.iter_mut() {
                if l.done || l.pending.is_some() {
                    continue;
                }
                match read_req(l, &mut buf) {
                    Ok(Some(r)) => l.pending = Some(r),
                    Ok(None) => {
                        l.res.status = srv.reap(l.pid);
                        l.done = true;
                        let code = l.res.exit_code();
                        if code == Some(98) || code == Some(99) {
                            panic!("shim failure in a simulated process (status {:x})", l.res.status);
                        }
                        k.reap(l.idx);
                        someone_left = true;
                        h.u64(0xdead0000 + l.idx as u64);
                        h.u64(l.res.status as u64);
                        if trace {
                            out.trace.push(format!("[{}] p{} exits, status {:x}", ph, l.idx, l.res.status));
                        }
                    }
                    Err(_) => {
                        l.res.status = srv.kill(l.pid);
                        l.res.stuck = Some("no system call for 30 s".into());
                        l.done = true;
                        k.reap(l.idx);
                    }
                }
            }
            if someone_left {
                for l in live.iter_mut() {
                    l.blocked = false;
                }
            }
            let ready: Vec<usize> = live.iter().filter(|l| !l.done && !l.blocked).map(|l| l.idx).collect();
            if ready.is_empty() {
                if live.iter().all(|l| l.done) {
                    break;
                }
                // everything left is blocked; whatever could have released it is gone
                for l in live.iter_mut().filter(|l| !l.done) {
                    l.res.status = srv.kill(l.pid);
                    l.res.stuck = Some(format!("blocked for ever: {}", k.note));
                    l.done = true;
                    k.reap(l.idx);
                }
                break;
            }
            let who = if ready.len() == 1 {
                ready[0]
            } else {
                let c = match &mode {
                    Mode::Record => {
                        if ready.contains(&last) && rng.pct(sc.sticky_sched as usize) {
                            ready.iter().position(|&x| x == last).unwrap() as u32
                        } else {
                            rng.below(ready.len()) as u32
                        }
                    }
                    Mode::Replay(p) => p.sched.get(sched_pos).copied().unwrap_or(0),
                };
                sched_pos += 1;
                out.plan.sched.push(c);
                ready[c as usize % ready.len()]
            };
            last = who;
            out.stats.steps += 1;
            if out.stats.steps > sc.max_steps as u64 {
                for l in live.iter_mut().filter(|l| !l.done) {
                    l.res.status = srv.kill(l.pid);
                    l.res.stuck = Some(format!("still running after {} system calls", sc.max_steps));
                    l.done = true;
                    k.reap(l.idx);
                }
                break;
            }
            let call = k.procs[who].calls;
            k.now += sc.env.clock_step;
            let req = live[who].pending.take().unwrap();
            let path = k.call_path(who, &req);

            // ---- what happens to this call ----
            let mut fk: Option<FK> = None;
            match &mode {
                // a smaller tree moves calls: a fault strikes only where its rule allows it
                Mode::Replay(_) => {
                    let bits = op_bits(&k, who, &req);
                    fk = replay.get(&(ph, who, call)).cloned().filter(|f| {
                        sc.rules.iter().any(|r| {
                            r.ops & bits != 0
                                && (r.phase < 0 || r.phase as usize == ph)
                                && (r.proc < 0 || r.proc as usize == who)
                                && under(&path, &r.under)
                                && r.what.makes(f)
                        })
                    })
                }
                Mode::Record => {
                    let bits = op_bits(&k, who, &req);
                    for (ri, r) in sc.rules.iter().enumerate() {
                        if r.ops & bits == 0
                            || (r.phase >= 0 && r.phase as usize != ph)
                            || (r.proc >= 0 && r.proc as usize != who)
                            || !under(&path, &r.under)
                        {
                            continue;
                        }
                        if matches!(r.what, What::Poison(_))
                            && path.first() != Some(&b'/')
                        {
                            continue;
                        }
                        let (seen, done) = &mut hits[ri];
                        *seen += 1;
                        if *seen <= r.skip || *done >= r.count || !rng.permille(r.permille as usize) {
                            continue;
                        }
                        *done += 1;
                        fk = Some(match &r.what {
                            What::Errs(v) => FK::Err(*rng.pick(v)),
                            What::Short(n) => {
                                let cut = if rng.permille(350) { k.line_cut(who, &req, &mut rng) } else { None };
                                FK::Short(cut.unwrap_or_else(|| 1 + rng.below(*n)))
                            }
                            What::Poison(e) => FK::Poison(*e),
                            What::Flip => FK::Flip(rng.below(1 << 16)),
                            What::KillBefore => FK::KillBefore,
                            What::KillAfter => FK::KillAfter,
                            What::PowerLoss => FK::PowerLoss,
                            What::Act(n) => FK::Act(*n),
                        });
                        break;
                    }
                }
            }
            if let Some(f) = &fk {
                let at = show(&req, &path);
                *out.stats.faults.entry(format!("{}:{}", NAMES[req.op as usize], f.label())).or_default() += 1;
                if trace {
                    out.trace.push(format!("[{}] p{}#{} FAULT {:?}", ph, who, call, f));
                }
                out.plan.faults.push(Fault { phase: ph, proc: who, call, kind: f.clone(), at });
                out.injected += 1;
                if !matches!(f, FK::Flip(_)) {
                    h.u64(0xfa017 + call as u64);
                }
            }

            let mut bend = Bend::default();
            let mut forced: Option<i32> = None;
            let mut kill_after = false;
            match &fk {
                Some(FK::Err(e)) => forced = Some(*e),
                Some(FK::Short(n)) => bend.short = Some(*n),
                Some(FK::Poison(e)) => bend.poison = *e,
                Some(FK::Flip(n)) => bend.flip = Some(*n),
                Some(FK::KillBefore) => {
                    live[who].res.status = srv.kill(live[who].pid);
                    live[who].res.killed = true;
                    live[who].done = true;
                    k.reap(who);
                    for l in live.iter_mut() {
                        l.blocked = false;
                    }
                    continue 'phase;
                }
                Some(FK::KillAfter) => kill_after = true,
                Some(FK::PowerLoss) => {
                    for l in live.iter_mut().filter(|l| !l.done) {
                        l.res.status = srv.kill(l.pid);
                        l.res.killed = true;
                        l.done = true;
                    }
                    let mut g = Rng::new(mix2(sc.noise, mix2(ph as u64, call as u64)));
                    k.vfs = k.vfs.power_loss_image(&mut g);
                    power = true;
                    break 'phase;
                }
                Some(FK::Act(n)) => {
                    if let Some(a) = sc.actions.get(*n) {
                        k.vfs.now = k.now;
                        act(&mut k.vfs, a);
                    }
                }
                None => {}
            }
            let before = k.vfs.version;
            let mutation = Kernel::is_mutation(&req) && path.first() != Some(&b'<');
            let rep = match forced {
                Some(e) if req.op == op::CLOSE => {
                    // the descriptor is gone even when close reports an error
                    k.exec(who, &req, &bend).map(|_| Rep { err: e, ret: -1, data: Vec::new() })
                }
                Some(e) if req.op == op::FSYNC => {
                    if e != errno::EINTR {
                        fail_fsync(&mut k, who, &req, e);
                    }
                    Some(Rep { err: e, ret: -1, data: Vec::new() })
                }
                Some(e) => Some(Rep { err: e, ret: -1, data: Vec::new() }),
                None => k.exec(who, &req, &bend),
            };
            if bend.flip.is_some() {
                if rep.as_ref().map_or(true, |r| r.data.is_empty()) {
                    // nothing was there to be corrupted
                    out.plan.faults.pop();
                    out.injected -= 1;
                } else {
                    h.u64(0xfa017 + call as u64);
                }
            }
            let rep = match rep {
                Some(r) => r,
                None => {
                    let l = &mut live[who];
                    l.blocked = true;
                    l.pending = Some(req);
                    if trace {
                        out.trace.push(format!("[{}] p{}#{} blocks: {}", ph, who, call, k.note));
                    }
                    continue;
                }
            };
            k.procs[who].calls += 1;
            if mutation && rep.err == 0 {
                out.mutations.push(format!("{} {}", NAMES[req.op as usize], String::from_utf8_lossy(&path)));
            }
            h.u64((ph as u64) << 32 | (who as u64) << 16 | req.op as u64);
            for x in &req.a {
                h.u64(*x as u64);
            }
            h.u64(hash_bytes(&req.data));
            h.u64(rep.err as u64 ^ (rep.ret as u64) << 8);
            h.u64(hash_bytes(&rep.data));
            if trace {
                let t = if rep.err != 0 {
                    errno::name(rep.err).to_string()
                } else if matches!(req.op, op::READ | op::REALPATH | op::READLINK) {
                    format!("{} {:?}", rep.ret, String::from_utf8_lossy(&rep.data[..rep.data.len().min(40)]))
                } else {
                    rep.ret.to_string()
                };
                out.trace.push(format!("[{}] p{}#{} {} = {}", ph, who, call, show(&req, &path), t));
            }
            if matches!(req.op, op::CLOSE | op::FLOCK | op::UNLINK) {
                for l in live.iter_mut() {
                    l.blocked = false;
                }
            }
            if k.vfs.version != before {
                out.stats.states.insert(k.vfs.digest());
            }
            let ev = Ev { phase: ph, proc: who, req: &req, path: &path };
            let bad = obs(&k, &ev);
            if kill_after {
                live[who].res.status = srv.kill(live[who].pid);
                live[who].res.killed = true;
                live[who].done = true;
                k.reap(who);
                for l in live.iter_mut() {
                    l.blocked = false;
                }
            } else {
                send_rep(&mut live[who], &rep);
            }
            if bad.is_some() {
                out.observed = bad;
                for l in live.iter_mut().filter(|l| !l.done) {
                    srv.kill(l.pid);
                    l.res.killed = true;
                    l.done = true;
                }
                break;
            }
        }
        let mut procs: Vec<ProcResult> = Vec::new();
        for l in live {
            let mut r = l.res;
            let p = &mut k.procs[l.idx];
            r.out = std::mem::take(&mut p.out);
            r.err = std::mem::take(&mut p.err);
            r.calls = p.calls;
            r.peak = p.peak;
            procs.push(r);
        }
        if sc.evict {
            k.vfs.evict_lost();
        }
        let mut vf = k.vfs.clone();
        vf.now = k.now;
        out.phases.push(PhaseResult { procs, power_loss: power, fs: vf });
        if out.observed.is_some() {
            break;
        }
        if !power {
            // the next phase starts on what is in the cache; between phases everything reaches the medium
            k.vfs.checkpoint();
        }
        h.u64(k.vfs.digest());
        k.now += 1_000_000_000;
    }
    out.stats.sim_ns = k.now - t0;
    out.hash = h.0;
    out
}

pub const WOPEN: u64 = 1 << 60;
pub const ROPEN: u64 = 1 << 61;
pub const FCLOSE: u64 = 1 << 62;

/// The call as fault rules see it: its own bit, and finer ones for kinds of open and close.
fn op_bits(k: &Kernel, who: usize, r: &Req) -> u64 {
    let mut b = 1u64 << r.op;
    if r.op == op::OPEN {
        b |= if r.a[1] & (3 | 0o100 | 0o1000) != 0 { WOPEN } else { ROPEN };
    }
    if r.op == op::CLOSE {
        if let Some(f) = k.procs[who].fds.get(&(r.a[0] as i32)) {
            if let crate::kernel::OKind::Node(i) = f.borrow().kind {
                if !k.vfs.is_dir(i) {
                    b |= FCLOSE;
                }
            }
        }
    }
    b
}

fn fail_fsync(k: &mut Kernel, who: usize, req: &Req, e: i32) {
    // the write-back of this file fails: the call reports it once, the data never reaches the medium
    let ino = k.procs[who].fds.get(&(req.a[0] as i32)).and_then(|f| match f.borrow().kind {
        crate::kernel::OKind::Node(i) => Some(i),
        _ => None,
    });
    if let Some(i) = ino {
        if !k.vfs.is_dir(i) {
            k.vfs.inodes[i].poison = e;
            let _ = k.vfs.fsync(i);
        }
    }
}
