//! Reference results: the same program, alone, undisturbed, in a fresh process and a minimal world.
use crate::gen::{render_config, Opts};
use crate::model::Bytes;
use crate::rng::{hash_bytes, mix2, Rng};
use crate::scenario::Scenario;
use crate::server::Server;
use crate::sim::{run, Mode};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum RefKind {
    Stdin,
    Print,
    InPlace,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ref {
    Ok(Bytes),
    Rejected,
    /// crashed, panicked or did not end: nothing to compare with
    Abnormal,
}

#[derive(Default)]
pub struct Refs {
    memo: HashMap<(RefKind, u64, u64), (Ref, bool)>,
    /// set when a reference was used whose text lacks some of its input
    pub lossy: Option<String>,
    /// references are what two of stdin, stdout and in place agree on
    pub vote: bool,
    pub runs: u64,
    pub hits: u64,
}

/// what formatting cannot touch
fn letters(b: &[u8]) -> impl Iterator<Item = u8> + '_ {
    b.iter().copied().filter(|c| c.is_ascii_alphanumeric() || *c >= 0x80)
}
fn show(b: &[u8]) -> String {
    let n = b.len();
    if n <= 300 {
        format!("{:?}", String::from_utf8_lossy(b))
    } else {
        format!("{:?}...{:?}", String::from_utf8_lossy(&b[..120]), String::from_utf8_lossy(&b[n - 120..]))
    }
}

impl Refs {
    pub fn get(&mut self, srv: &mut Server, kind: RefKind, content: &[u8], opts: &Opts, extra: &[String]) -> Ref {
        let mut oh = 17;
        for (n, v) in opts {
            oh = mix2(mix2(oh, hash_bytes(n.as_bytes())), hash_bytes(v.as_bytes()));
        }
        for e in extra {
            oh = mix2(oh, hash_bytes(e.as_bytes()) ^ 5);
        }
        if self.vote {
            oh ^= 0x5eed;
        }
        let key = (kind, hash_bytes(content), oh);
        if let Some(r) = self.memo.get(&key) {
            self.hits += 1;
            let r = r.clone();
            if r.1 {
                self.lost(kind, content, &r.0);
            }
            return r.0;
        }
        if self.memo.len() > 50_000 {
            self.memo.clear();
        }
        self.runs += 1;
        let mut r = self.compute(srv, kind, content, opts, extra);
        if self.vote {
            let [a, b] = match kind {
                RefKind::Stdin => [RefKind::Print, RefKind::InPlace],
                RefKind::Print => [RefKind::Stdin, RefKind::InPlace],
                RefKind::InPlace => [RefKind::Stdin, RefKind::Print],
            };
            self.runs += 1;
            let x = self.compute(srv, a, content, opts, extra);
            if x != r {
                self.runs += 1;
                if x == self.compute(srv, b, content, opts, extra) {
                    r = x;
                }
            }
        }
        let lossy = match &r {
            // no option but one drops or makes any letter or digit, whatever it does to the layout
            Ref::Ok(o) if !opts.iter().any(|o| o.0 == "remove_comments") && !extra.iter().any(|e| e.contains("remove_comments")) => {
                !letters(content).eq(letters(o))
            }
            _ => false,
        };
        if lossy {
            self.lost(kind, content, &r);
        }
        self.memo.insert(key, (r.clone(), lossy));
        r
    }

    fn lost(&mut self, kind: RefKind, content: &[u8], r: &Ref) {
        if let Ref::Ok(o) = r {
            let n = letters(content).zip(letters(o)).take_while(|(a, b)| a == b).count();
            self.lossy = Some(format!(
                "alone and undisturbed ({:?}), a text of {} bytes is formatted to {} bytes, which are not all of it: they agree in the first {} of {} letters and digits; {} made of {}",
                kind,
                content.len(),
                o.len(),
                n,
                letters(content).count(),
                show(o),
                show(content)
            ));
        }
    }

    fn compute(&mut self, srv: &mut Server, kind: RefKind, content: &[u8], opts: &Opts, extra: &[String]) -> Ref {
        let mut sc = Scenario::new("ref", 1);
        sc.dir("/home/u/r");
        let mut args: Vec<String> = Vec::new();
        match kind {
            RefKind::Stdin => args.extend(opts.iter().map(|(n, v)| format!("--{}={}", n, v))),
            _ => {
                sc.file("/home/u/r/.luafmt.lua", render_config(opts, &mut Rng::new(1)).as_bytes());
                sc.file("/home/u/r/x.lua", content);
                if kind == RefKind::InPlace {
                    args.push("-i".into());
                }
                args.push("x.lua".into());
            }
        }
        args.extend(extra.iter().cloned());
        sc.proc("/home/u/r", &args);
        if kind == RefKind::Stdin {
            sc.phases[0].procs[0].stdin = content.to_vec();
        }
        sc.max_steps = 5000;
        let r = run(srv, &sc, Mode::Record, &mut |_, _| None, false);
        let p = &r.phases[0].procs[0];
        if kind == RefKind::Stdin && std::str::from_utf8(content).is_err() {
            return Ref::Rejected;
        }
        if p.stuck.is_some() || p.signal() != 0 || p.exit_code() == Some(101) {
            return Ref::Abnormal;
        }
        if p.exit_code() != Some(0) || !p.err.is_empty() {
            return Ref::Rejected;
        }
        match kind {
            RefKind::InPlace => match r.phases[0].fs.read_path(b"/home/u/r/x.lua") {
                Some(c) => Ref::Ok(c),
                None => Ref::Abnormal,
            },
            _ => Ref::Ok(Rc::new(p.out.clone())),
        }
    }
}
