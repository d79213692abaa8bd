//! What a run should do, worked out from the tree and the arguments without looking at the code.
use crate::gen::{parse_config, Opts, IDLE_ARGS};
use crate::scenario::ProcSpec;
use crate::vfs::{errno, shown, Cred, Ino, Kind, Vfs};
use std::rc::Rc;

#[derive(Clone, Debug, Default)]
pub struct Cmd {
    pub inplace: bool,
    pub recursive: bool,
    pub verbose: bool,
    pub opts: Opts,
    pub range: Option<String>,
    pub sources: Vec<String>,
}

pub fn parse_cmd(p: &ProcSpec) -> Cmd {
    let mut c = Cmd::default();
    for a in &p.args {
        if !a.starts_with('-') {
            c.sources.push(a.clone());
        } else if a == "-i" || a == "--inplace" {
            c.inplace = true;
        } else if a == "-r" || a == "--recursive" {
            c.recursive = true;
        } else if a == "-v" || a == "--verbose" {
            c.verbose = true;
        } else if IDLE_ARGS.contains(&a.as_str()) {
            continue;
        } else if let Some(k) = a.find('=') {
            if &a[2..k] == "line_range" {
                c.range = Some(a[k + 1..].into());
            } else {
                c.opts.push((a[2..k].into(), a[k + 1..].into()));
            }
        }
    }
    c.sources.sort_by_key(|a| crate::vfs::raw(a.as_bytes()));
    c
}

/// `.lua` as an extension: something in front of the last dot
pub fn has_lua_ext(name: &[u8]) -> bool {
    name.len() > 4 && name.ends_with(b".lua")
}
pub fn is_config_name(name: &[u8]) -> bool {
    name.starts_with(b".luafmt") && has_lua_ext(name)
}

#[derive(Clone, Debug)]
pub struct Sel {
    /// the path as luafmt gets to know it
    pub given: String,
    /// the argument it came from
    pub arg: String,
    pub ino: Ino,
    /// path with links resolved
    pub canon: String,
    /// path with the links on the way to its directory resolved
    pub place: String,
}

#[derive(Default, Debug)]
pub struct Selection {
    /// there are links that lead to themselves
    pub loops: bool,
    pub sels: Vec<Sel>,
    pub unresolved: Vec<String>,
    /// directories that cannot be listed or searched
    pub blocked: Vec<String>,
    /// directories visited plus entries looked at: a measure of the work
    pub visits: usize,
}

pub fn join(a: &str, b: &str) -> String {
    if a.ends_with('/') {
        format!("{}{}", a, b)
    } else {
        format!("{}/{}", a, b)
    }
}

pub fn select(v: &Vfs, cwd: &str, cred: Cred, cmd: &Cmd) -> Selection {
    let mut s = Selection::default();
    let root = Cred { uid: 0, gid: 0, sup: 0 };
    let start = v.lookup(0, cwd.as_bytes(), true, root).unwrap_or(0);
    for a in &cmd.sources {
        match v.lookup(start, a.as_bytes(), true, cred) {
            Ok(i) if v.is_dir(i) => {
                let mut stack = vec![i];
                walk(v, start, a, a, i, cred, cmd.recursive, &mut stack, &mut s);
            }
            Ok(i) if v.inodes[i].kind == Kind::File => push(v, start, a, a, i, &mut s),
            _ => s.unresolved.push(a.clone()),
        }
    }
    s
}

fn push(v: &Vfs, start: Ino, arg: &str, given: &str, i: Ino, s: &mut Selection) {
    let root = Cred { uid: 0, gid: 0, sup: 0 };
    let canon = v.realpath(start, given.as_bytes(), root).unwrap_or_default();
    let (dir, name) = given.trim_end_matches('/').rsplit_once('/').unwrap_or((".", given));
    let dir = v.realpath(start, if dir.is_empty() { b"/" } else { dir.as_bytes() }, root).unwrap_or_default();
    s.sels.push(Sel {
        place: join(&String::from_utf8_lossy(&dir), name),
        given: given.into(),
        arg: arg.into(),
        ino: i,
        canon: String::from_utf8_lossy(&canon).into_owned(),
    });
}

fn walk(v: &Vfs, start: Ino, arg: &str, path: &str, d: Ino, c: Cred, rec: bool, stack: &mut Vec<Ino>, s: &mut Selection) {
    s.visits += 1;
    if s.visits > 5000 {
        return;
    }
    if v.perm(d, 4, c).is_err() || v.perm(d, 1, c).is_err() {
        s.blocked.push(path.into());
        return;
    }
    let names: Vec<Vec<u8>> = v.dir(d).unwrap().keys().cloned().collect();
    for n in names {
        s.visits += 1;
        let ns = String::from_utf8_lossy(&n).into_owned();
        let p = join(path, &ns);
        match v.lookup(start, p.as_bytes(), true, c) {
            Ok(i) if v.is_dir(i) => {
                if rec && !stack.contains(&i) {
                    stack.push(i);
                    walk(v, start, arg, &p, i, c, rec, stack, s);
                    stack.pop();
                }
            }
            Ok(i) if v.inodes[i].kind == Kind::File => {
                if has_lua_ext(&n) && !n.starts_with(b".luafmt") {
                    push(v, start, arg, &p, i, s);
                }
            }
            Err(errno::ELOOP) => s.loops = true,
            Err(e) if e != errno::ENOENT && e != errno::ELOOP && e != errno::ENOTDIR => s.blocked.push(p),
            _ => {}
        }
    }
}

pub enum Cfg {
    None,
    /// path of the configuration that counts, and its options if it is usable
    File(String, Option<Opts>),
}

/// The configuration for the file whose resolved path is `canon`.
pub fn config_for(v: &Vfs, canon: &str, cred: Cred) -> Cfg {
    let root = Cred { uid: 0, gid: 0, sup: 0 };
    let mut dir = canon;
    while let Some(k) = dir.rfind('/') {
        dir = &dir[..k];
        let dp = if dir.is_empty() { "/" } else { dir };
        if let Ok(d) = v.lookup(0, dp.as_bytes(), true, root) {
            if v.perm(d, 5, cred).is_ok() {
                for (n, _) in v.dir(d).unwrap() {
                    if !is_config_name(n) {
                        continue;
                    }
                    let p = join(dp, &String::from_utf8_lossy(n));
                    let i = v.lookup(0, p.as_bytes(), true, cred);
                    if let Err(errno::EACCES | errno::ELOOP) = i {
                        // it is there, and what it says cannot be found out
                        return Cfg::File(p, None);
                    }
                    if let Ok(i) = i {
                        if v.inodes[i].kind == Kind::File {
                            let o = if v.perm(i, 4, cred).is_ok() { parse_config(&v.inodes[i].data) } else { None };
                            return Cfg::File(p, o);
                        }
                    }
                }
            }
        }
        if dir.is_empty() {
            break;
        }
    }
    Cfg::None
}

/// Does `text` name the file, or a directory or argument it was reached through?
pub fn mentions(text: &str, s: &Sel) -> bool {
    if names(text, &s.given) || names(text, &s.canon) {
        return true;
    }
    let mut p = s.given.as_str();
    loop {
        if p.len() < s.arg.len() {
            return names(text, &s.arg);
        }
        if names(text, p) {
            return true;
        }
        match p.trim_end_matches('/').rfind('/') {
            Some(k) if k > 0 => p = &p[..k],
            _ => return names(text, &s.arg),
        }
    }
}

fn pathish(c: char) -> bool {
    c.is_alphanumeric() || matches!(c, '/' | '_' | '-' | '.')
}

/// `p` occurs in `text` as a whole path
pub fn names(text: &str, p: &str) -> bool {
    if p.is_empty() {
        return false;
    }
    let p = &shown(p)[..];
    let mut from = 0;
    while let Some(k) = text[from..].find(p) {
        let a = from + k;
        let b = a + p.len();
        let before = text[..a].chars().next_back();
        let mut after = text[b..].chars();
        let n1 = after.next();
        let n2 = after.next();
        let okb = before.map_or(true, |c| !pathish(c));
        let oka = match n1 {
            None => true,
            Some('.') => n2.map_or(true, |c| !pathish(c)),
            Some('/') => n2.map_or(true, |c| !pathish(c)),
            Some(c) => !pathish(c),
        };
        if okb && oka {
            return true;
        }
        from = a + text[a..].chars().next().map_or(1, |c| c.len_utf8());
    }
    false
}

pub type Bytes = Rc<Vec<u8>>;
