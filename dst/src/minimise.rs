//! Makes a failing run smaller: fewer faults, less tree, fewer arguments, plainer environment, less preemption.
use crate::kernel::Env;
use crate::props::{evaluate, Ctx, Verdict};
use crate::scenario::*;
use crate::sim::Mode;
use std::time::{Duration, Instant};

pub struct Small {
    pub sc: Scenario,
    pub plan: Plan,
    pub message: String,
    pub tried: usize,
}

struct M<'a> {
    ctx: &'a mut Ctx,
    until: Instant,
    best: Small,
    kind: String,
}

/// the words of a message without what varies
fn kind(m: &str) -> String {
    m.split(|c: char| !c.is_alphabetic()).filter(|w| w.len() > 3).take(200).filter(|w| w.is_ascii()).take(4).collect::<Vec<_>>().join(" ")
}

impl<'a> M<'a> {
    fn out_of_time(&self) -> bool {
        Instant::now() > self.until
    }
    fn fails(&mut self, sc: &Scenario, plan: &Plan) -> bool {
        if self.out_of_time() {
            return false;
        }
        self.best.tried += 1;
        let v = evaluate(self.ctx, sc, Mode::Replay(plan), false);
        if self.take(sc, v, true) {
            return true;
        }
        if sc.rules.iter().any(|r| r.count > 0) && !self.out_of_time() {
            self.best.tried += 1;
            let v = evaluate(self.ctx, sc, Mode::Record, false);
            return self.take(sc, v, false);
        }
        false
    }
    fn take(&mut self, sc: &Scenario, v: Verdict, _replayed: bool) -> bool {
        match v.fail {
            Some(m) if self.kind.is_empty() || kind(&m) == self.kind => {
                self.best.sc = sc.clone();
                self.best.plan = v.plan;
                self.best.message = m;
                true
            }
            _ => false,
        }
    }
    fn faults(&mut self) {
        let mut size = self.best.plan.faults.len();
        while size > 0 {
            let mut at = 0;
            while at < self.best.plan.faults.len() && !self.out_of_time() {
                let mut p = self.best.plan.clone();
                let hi = (at + size).min(p.faults.len());
                p.faults.drain(at..hi);
                let mut sc = self.best.sc.clone();
                sc.rules.iter_mut().for_each(|r| r.count = 0);
                if !self.fails(&sc, &p) {
                    at += size;
                }
            }
            size /= 2;
        }
    }
    fn nodes(&mut self) {
        if self.best.sc.prop == "C05" {
            return; // one file, and it has to hold the same as stdin
        }
        let mut size = self.best.sc.nodes.len() / 2;
        while size > 0 {
            let mut at = 0;
            while at < self.best.sc.nodes.len() && !self.out_of_time() {
                let mut sc = self.best.sc.clone();
                let hi = (at + size).min(sc.nodes.len());
                sc.nodes.drain(at..hi);
                let p = self.best.plan.clone();
                if !self.fails(&sc, &p) {
                    at += size;
                }
            }
            size /= 2;
        }
    }
    fn procs(&mut self) {
        let mut ph = 0;
        while ph < self.best.sc.phases.len() && !self.out_of_time() {
            if self.best.sc.phases.len() > 1 && !matches!(self.best.sc.prop.as_str(), "C05" | "C13") {
                let mut sc = self.best.sc.clone();
                sc.phases.remove(ph);
                let mut p = self.best.plan.clone();
                p.faults.retain(|f| f.phase != ph);
                for f in &mut p.faults {
                    if f.phase > ph {
                        f.phase -= 1;
                    }
                }
                for r in &mut sc.rules {
                    if r.phase > ph as i32 {
                        r.phase -= 1;
                    } else if r.phase == ph as i32 {
                        r.count = 0;
                        r.phase = 99;
                    }
                }
                if self.fails(&sc, &p) {
                    continue;
                }
            }
            let mut q = 0;
            while q < self.best.sc.phases[ph].procs.len() && self.best.sc.phases[ph].procs.len() > 1 {
                let mut sc = self.best.sc.clone();
                sc.phases[ph].procs.remove(q);
                let mut p = self.best.plan.clone();
                p.faults.retain(|f| f.phase != ph || f.proc != q);
                for f in &mut p.faults {
                    if f.phase == ph && f.proc > q {
                        f.proc -= 1;
                    }
                }
                if !self.fails(&sc, &p) {
                    q += 1;
                }
            }
            ph += 1;
        }
    }
    fn args(&mut self) {
        // in properties with several runs of one command the same argument goes everywhere
        let same = self.best.sc.phases.windows(2).all(|w| w[0] == w[1]);
        let phs = if same { 1 } else { self.best.sc.phases.len() };
        if self.best.sc.prop == "C05" {
            return;
        }
        for ph in 0..phs {
            for q in 0..self.best.sc.phases[ph].procs.len() {
                let mut a = 0;
                while a < self.best.sc.phases[ph].procs[q].args.len() && !self.out_of_time() {
                    let mut sc = self.best.sc.clone();
                    let arg = sc.phases[ph].procs[q].args[a].clone();
                    if arg == "-i" || arg == "--inplace" {
                        a += 1;
                        continue;
                    }
                    if same {
                        for p in &mut sc.phases {
                            p.procs[q].args.remove(a);
                        }
                    } else {
                        sc.phases[ph].procs[q].args.remove(a);
                    }
                    // without sources it would be another mode
                    let src = |v: &Vec<String>| v.iter().any(|x| !x.starts_with('-'));
                    if src(&self.best.sc.phases[ph].procs[q].args) != src(&sc.phases[ph].procs[q].args) {
                        a += 1;
                        continue;
                    }
                    let p = self.best.plan.clone();
                    if !self.fails(&sc, &p) {
                        a += 1;
                    }
                }
            }
        }
    }
    fn env(&mut self) {
        let plain = Env::plain();
        let e0 = self.best.sc.env.clone();
        let mut tries: Vec<Env> = vec![Env { uid: e0.uid, sup: e0.sup, umask: e0.umask, nofile: e0.nofile, ..plain.clone() }];
        let mut x = |f: &dyn Fn(&mut Env)| {
            let mut e = e0.clone();
            f(&mut e);
            tries.push(e);
        };
        x(&|e| e.dtype_unknown = false);
        x(&|e| e.getdents_chunk = 0);
        x(&|e| e.tty = false);
        x(&|e| e.clock_back = false);
        x(&|e| e.vars = 0);
        x(&|e| e.umask = 0o022);
        for (i, e) in tries.into_iter().enumerate() {
            if self.out_of_time() {
                return;
            }
            let mut n = self.best.sc.env.clone();
            match i {
                0 => n = e,
                1 => n.dtype_unknown = false,
                2 => n.getdents_chunk = 0,
                3 => n.tty = false,
                5 => n.vars = 0,
                6 => n.umask = 0o022,
                _ => n.clock_back = false,
            }
            if n == self.best.sc.env {
                continue;
            }
            let mut sc = self.best.sc.clone();
            sc.env = n;
            let p = self.best.plan.clone();
            if self.fails(&sc, &p) && i == 0 {
                return;
            }
        }
    }
    fn contents(&mut self) {
        if self.best.sc.prop == "C05" {
            return;
        }
        for i in 0..self.best.sc.nodes.len() {
            if let NK::File(c) = &self.best.sc.nodes[i].kind {
                if c.len() > 60 && self.best.sc.nodes[i].path.ends_with(".lua") && !self.best.sc.nodes[i].path.contains("/.luafmt") {
                    let mut sc = self.best.sc.clone();
                    sc.nodes[i].kind = NK::File(format!("do   s_{}( 1,2 )\nlocal t={{ 1;2 }}   end\n", i).into_bytes());
                    let p = self.best.plan.clone();
                    self.fails(&sc, &p);
                }
            }
            if self.out_of_time() {
                return;
            }
        }
    }
    fn schedule(&mut self) {
        let n = self.best.plan.sched.len();
        if n == 0 {
            return;
        }
        let mut size = n;
        while size > 0 && !self.out_of_time() {
            let mut at = 0;
            while at < self.best.plan.sched.len() && !self.out_of_time() {
                let mut p = self.best.plan.clone();
                let hi = (at + size).min(p.sched.len());
                if p.sched[at..hi].iter().any(|&x| x != 0) {
                    p.sched[at..hi].iter_mut().for_each(|x| *x = 0);
                    let mut sc = self.best.sc.clone();
                    sc.rules.iter_mut().for_each(|r| r.count = 0);
                    self.fails(&sc, &p);
                }
                at += size;
            }
            size /= 3;
        }
    }
}

pub fn minimise(ctx: &mut Ctx, sc: &Scenario, v: &Verdict, secs: u64) -> Small {
    let m = v.fail.clone().unwrap_or_default();
    let mut m = M {
        ctx,
        until: Instant::now() + Duration::from_secs(secs),
        kind: kind(&m),
        best: Small { sc: sc.clone(), plan: v.plan.clone(), message: m, tried: 0 },
    };
    if sc.prop == "C16" {
        let p = v.plan.clone();
        crate::libprop::minimise(sc, &p, |s| m.fails(s, &Plan::default()));
        return m.best;
    }
    for _ in 0..3 {
        let before = (m.best.sc.clone(), m.best.plan.clone());
        m.faults();
        m.procs();
        m.nodes();
        m.args();
        m.env();
        m.contents();
        m.schedule();
        if before == (m.best.sc.clone(), m.best.plan.clone()) || m.out_of_time() {
            break;
        }
    }
    m.best
}
