//! The simulated file system: inodes, directories, links, permissions, two file systems, and what of it is durable.
use crate::rng::Rng;
use std::collections::{BTreeMap, VecDeque};
use std::rc::Rc;

pub type Ino = usize;

pub mod errno {
    pub const EPERM: i32 = 1;
    pub const ENOENT: i32 = 2;
    pub const EINTR: i32 = 4;
    pub const EIO: i32 = 5;
    pub const EBADF: i32 = 9;
    pub const EAGAIN: i32 = 11;
    pub const ENOMEM: i32 = 12;
    pub const EACCES: i32 = 13;
    pub const EBUSY: i32 = 16;
    pub const EEXIST: i32 = 17;
    pub const EXDEV: i32 = 18;
    pub const ENODEV: i32 = 19;
    pub const ENOTDIR: i32 = 20;
    pub const EISDIR: i32 = 21;
    pub const EINVAL: i32 = 22;
    pub const ENFILE: i32 = 23;
    pub const EMFILE: i32 = 24;
    pub const EFBIG: i32 = 27;
    pub const ENOSPC: i32 = 28;
    pub const ESPIPE: i32 = 29;
    pub const EROFS: i32 = 30;
    pub const EPIPE: i32 = 32;
    pub const ENAMETOOLONG: i32 = 36;
    pub const ENOSYS: i32 = 38;
    pub const ENOTEMPTY: i32 = 39;
    pub const ELOOP: i32 = 40;
    pub const EOPNOTSUPP: i32 = 95;
    pub const ESTALE: i32 = 116;
    pub const EDQUOT: i32 = 122;
    pub fn name(e: i32) -> &'static str {
        match e {
            1 => "EPERM",
            2 => "ENOENT",
            4 => "EINTR",
            5 => "EIO",
            9 => "EBADF",
            11 => "EAGAIN",
            12 => "ENOMEM",
            13 => "EACCES",
            16 => "EBUSY",
            17 => "EEXIST",
            18 => "EXDEV",
            19 => "ENODEV",
            20 => "ENOTDIR",
            21 => "EISDIR",
            22 => "EINVAL",
            23 => "ENFILE",
            24 => "EMFILE",
            27 => "EFBIG",
            28 => "ENOSPC",
            29 => "ESPIPE",
            30 => "EROFS",
            32 => "EPIPE",
            36 => "ENAMETOOLONG",
            38 => "ENOSYS",
            39 => "ENOTEMPTY",
            40 => "ELOOP",
            95 => "EOPNOTSUPP",
            116 => "ESTALE",
            122 => "EDQUOT",
            _ => "E?",
        }
    }
}
use errno::*;

pub type R<T> = Result<T, i32>;

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    File,
    Dir(BTreeMap<Vec<u8>, Ino>),
    Link(Vec<u8>),
    Fifo,
}

#[derive(Clone, Debug)]
pub enum DataOp {
    Write(usize, Rc<Vec<u8>>),
    Trunc(usize),
}

#[derive(Clone, Debug)]
pub struct Inode {
    pub kind: Kind,
    pub mode: u32,
    pub uid: u32,
    pub gid: u32,
    pub nlink: u32,
    pub dev: u32,
    pub parent: Ino,
    pub data: Rc<Vec<u8>>,
    /// content at the last point at which it was known to be on the medium
    pub synced: Rc<Vec<u8>>,
    pub pending: Vec<DataOp>,
    /// write-back of the pending data will fail with this errno
    pub poison: i32,
    /// write-back failed: the cache still shows the data, the medium does not have it
    pub lost: bool,
    pub mtime: i64,
    pub ctime: i64,
    pub btime: i64,
}

#[derive(Clone, Debug)]
pub enum MetaOp {
    Link { dir: Ino, name: Vec<u8>, ino: Ino },
    Unlink { dir: Ino, name: Vec<u8> },
    Rename { sd: Ino, sn: Vec<u8>, dd: Ino, dn: Vec<u8> },
    Exchange { sd: Ino, sn: Vec<u8>, dd: Ino, dn: Vec<u8> },
    Attr { ino: Ino, mode: u32, uid: u32, gid: u32 },
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Cred {
    pub uid: u32,
    pub gid: u32,
    /// a further group; 0: none
    pub sup: u32,
}

pub struct Res {
    pub dir: Ino,
    pub name: Vec<u8>,
    pub ino: Option<Ino>,
    pub slash: bool,
}

#[derive(Clone)]
pub struct Vfs {
    pub inodes: Vec<Inode>,
    pub root: Ino,
    base: Rc<Vec<Inode>>,
    journal: Vec<MetaOp>,
    forced_strong: usize,
    forced_weak: usize,
    /// bumped by every change that another process could see
    pub version: u64,
    pub now: i64,
}

fn new_inode(kind: Kind, mode: u32, uid: u32, gid: u32, dev: u32, parent: Ino, now: i64) -> Inode {
    let nlink = if matches!(kind, Kind::Dir(_)) { 2 } else { 1 };
    Inode {
        kind,
        mode,
        uid,
        gid,
        nlink,
        dev,
        parent,
        data: Rc::new(Vec::new()),
        synced: Rc::new(Vec::new()),
        pending: Vec::new(),
        poison: 0,
        lost: false,
        mtime: now,
        ctime: now,
        btime: now,
    }
}

pub fn apply_data(v: &mut Vec<u8>, op: &DataOp, zero: bool) {
    match op {
        DataOp::Trunc(n) => v.resize(*n, 0),
        DataOp::Write(o, d) => {
            if v.len() < *o + d.len() {
                v.resize(*o + d.len(), 0);
            }
            if zero {
                for b in &mut v[*o..*o + d.len()] {
                    *b = 0;
                }
            } else {
                v[*o..*o + d.len()].copy_from_slice(d);
            }
        }
    }
}

/// One entry of a dumped tree
#[derive(Clone, Debug, PartialEq)]
pub struct Ent {
    pub kind: char,
    pub mode: u32,
    pub uid: u32,
    pub gid: u32,
    pub target: Vec<u8>,
    pub data: Rc<Vec<u8>>,
    pub ino: Ino,
}

impl Vfs {
    pub fn new() -> Vfs {
        let root = new_inode(Kind::Dir(BTreeMap::new()), 0o755, 0, 0, 0x801, 0, 0);
        Vfs {
            inodes: vec![root],
            root: 0,
            base: Rc::new(Vec::new()),
            journal: Vec::new(),
            forced_strong: 0,
            forced_weak: 0,
            version: 0,
            now: 1_700_000_000_000_000_000,
        }
    }

    pub fn dir(&self, i: Ino) -> R<&BTreeMap<Vec<u8>, Ino>> {
        match &self.inodes[i].kind {
            Kind::Dir(m) => Ok(m),
            _ => Err(ENOTDIR),
        }
    }
    fn dir_mut(&mut self, i: Ino) -> &mut BTreeMap<Vec<u8>, Ino> {
        match &mut self.inodes[i].kind {
            Kind::Dir(m) => m,
            _ => unreachable!(),
        }
    }
    pub fn is_dir(&self, i: Ino) -> bool {
        matches!(self.inodes[i].kind, Kind::Dir(_))
    }

    /// need: 4 read, 2 write, 1 execute/search
    pub fn perm(&self, i: Ino, need: u32, c: Cred) -> R<()> {
        let n = &self.inodes[i];
        if c.uid == 0 {
            if need & 1 != 0 && !self.is_dir(i) && n.mode & 0o111 == 0 {
                return Err(EACCES);
            }
            return Ok(());
        }
        let bits = if n.uid == c.uid {
            n.mode >> 6
        } else if n.gid == c.gid || c.sup != 0 && n.gid == c.sup {
            n.mode >> 3
        } else {
            n.mode
        } & 7;
        if bits & need == need {
            Ok(())
        } else {
            Err(EACCES)
        }
    }

    pub fn resolve(&self, start: Ino, path: &[u8], follow: bool, c: Cred) -> R<Res> {
        if path.is_empty() {
            return Err(ENOENT);
        }
        if path.len() >= 4096 {
            return Err(ENAMETOOLONG);
        }
        let mut cur = if path[0] == b'/' { self.root } else { start };
        let slash = path.ends_with(b"/");
        let mut q: VecDeque<Vec<u8>> =
            path.split(|&b| b == b'/').filter(|s| !s.is_empty()).map(|s| s.to_vec()).collect();
        let mut links = 0;
        while let Some(comp) = q.pop_front() {
            let ents = self.dir(cur)?;
            self.perm(cur, 1, c)?;
            if comp == b"." {
                continue;
            }
            if comp == b".." {
                cur = self.inodes[cur].parent;
                continue;
            }
            if comp.len() > 255 {
                return Err(ENAMETOOLONG);
            }
            let last = q.is_empty();
            match ents.get(&comp) {
                None => {
                    if last {
                        return Ok(Res { dir: cur, name: comp, ino: None, slash });
                    }
                    return Err(ENOENT);
                }
                Some(&i) => {
                    if let Kind::Link(t) = &self.inodes[i].kind {
                        if !last || follow || slash {
                            links += 1;
                            if links > 40 {
                                return Err(ELOOP);
                            }
                            if t.is_empty() {
                                return Err(ENOENT);
                            }
                            if t[0] == b'/' {
                                cur = self.root;
                            }
                            let parts: Vec<Vec<u8>> =
                                t.split(|&b| b == b'/').filter(|s| !s.is_empty()).map(|s| s.to_vec()).collect();
                            for p in parts.into_iter().rev() {
                                q.push_front(p);
                            }
                            continue;
                        }
                    }
                    if last {
                        if slash && !self.is_dir(i) {
                            return Err(ENOTDIR);
                        }
                        return Ok(Res { dir: cur, name: comp, ino: Some(i), slash });
                    }
                    cur = i;
                }
            }
        }
        if !self.is_dir(cur) {
            return Err(ENOTDIR);
        }
        Ok(Res { dir: self.inodes[cur].parent, name: b".".to_vec(), ino: Some(cur), slash })
    }

    pub fn lookup(&self, start: Ino, path: &[u8], follow: bool, c: Cred) -> R<Ino> {
        self.resolve(start, path, follow, c)?.ino.ok_or(ENOENT)
    }

    pub fn path_of(&self, mut d: Ino) -> Vec<u8> {
        let mut parts: Vec<Vec<u8>> = Vec::new();
        while d != self.root {
            let p = self.inodes[d].parent;
            let name = match &self.inodes[p].kind {
                Kind::Dir(m) => m.iter().find(|(_, &i)| i == d).map(|(n, _)| n.clone()),
                _ => None,
            };
            match name {
                Some(n) => parts.push(n),
                None => {
                    parts.push(b"(deleted)".to_vec());
                    break;
                }
            }
            d = p;
        }
        if parts.is_empty() {
            return b"/".to_vec();
        }
        let mut o = Vec::new();
        for p in parts.iter().rev() {
            o.push(b'/');
            o.extend_from_slice(p);
        }
        o
    }

    pub fn realpath(&self, start: Ino, path: &[u8], c: Cred) -> R<Vec<u8>> {
        let r = self.resolve(start, path, true, c)?;
        let i = r.ino.ok_or(ENOENT)?;
        if self.is_dir(i) {
            return Ok(self.path_of(i));
        }
        let mut p = self.path_of(r.dir);
        if p != b"/" {
            p.push(b'/');
        }
        p.extend_from_slice(&r.name);
        Ok(p)
    }

    // ---- changes ----
    fn log(&mut self, op: MetaOp) {
        self.journal.push(op);
        self.version += 1;
    }

    pub fn create(&mut self, dir: Ino, name: &[u8], kind: Kind, mode: u32, c: Cred) -> R<Ino> {
        self.perm(dir, 3, c)?;
        if self.inodes[dir].nlink == 0 {
            return Err(ENOENT);
        }
        let i = self.inodes.len();
        let dev = self.inodes[dir].dev;
        let isdir = matches!(kind, Kind::Dir(_));
        let mut n = new_inode(kind, mode, c.uid, c.gid, dev, dir, self.now);
        if isdir {
            n.nlink = 2;
        }
        self.inodes.push(n);
        self.dir_mut(dir).insert(name.to_vec(), i);
        self.inodes[dir].mtime = self.now;
        self.log(MetaOp::Link { dir, name: name.to_vec(), ino: i });
        Ok(i)
    }

    pub fn hardlink(&mut self, dir: Ino, name: &[u8], ino: Ino, c: Cred) -> R<()> {
        self.perm(dir, 3, c)?;
        if self.inodes[ino].dev != self.inodes[dir].dev {
            return Err(EXDEV);
        }
        self.dir_mut(dir).insert(name.to_vec(), ino);
        self.inodes[ino].nlink += 1;
        self.log(MetaOp::Link { dir, name: name.to_vec(), ino });
        Ok(())
    }

    pub fn unlink(&mut self, dir: Ino, name: &[u8], rmdir: bool, c: Cred) -> R<()> {
        let i = *self.dir(dir)?.get(name).ok_or(ENOENT)?;
        self.perm(dir, 3, c)?;
        if rmdir {
            if self.dir(i)?.len() > 0 {
                return Err(ENOTEMPTY);
            }
            self.inodes[i].nlink = 0;
        } else {
            if self.is_dir(i) {
                return Err(EISDIR);
            }
            self.inodes[i].nlink = self.inodes[i].nlink.saturating_sub(1);
        }
        self.dir_mut(dir).remove(name);
        self.inodes[dir].mtime = self.now;
        self.log(MetaOp::Unlink { dir, name: name.to_vec() });
        Ok(())
    }

    pub fn rename(&mut self, sd: Ino, sn: &[u8], dd: Ino, dn: &[u8], flags: u32, c: Cred) -> R<()> {
        let s = *self.dir(sd)?.get(sn).ok_or(ENOENT)?;
        let d = self.dir(dd)?.get(dn).copied();
        if self.inodes[sd].dev != self.inodes[dd].dev || self.inodes[s].dev != self.inodes[sd].dev {
            return Err(EXDEV);
        }
        self.perm(sd, 3, c)?;
        self.perm(dd, 3, c)?;
        if flags & 1 != 0 && d.is_some() {
            return Err(EEXIST);
        }
        if flags & 2 != 0 {
            let t = d.ok_or(ENOENT)?;
            self.dir_mut(sd).insert(sn.to_vec(), t);
            self.dir_mut(dd).insert(dn.to_vec(), s);
            if self.is_dir(s) {
                self.inodes[s].parent = dd;
            }
            if self.is_dir(t) {
                self.inodes[t].parent = sd;
            }
            self.log(MetaOp::Exchange { sd, sn: sn.to_vec(), dd, dn: dn.to_vec() });
            return Ok(());
        }
        if let Some(t) = d {
            if t == s {
                return Ok(());
            }
            match (self.is_dir(s), self.is_dir(t)) {
                (true, false) => return Err(ENOTDIR),
                (false, true) => return Err(EISDIR),
                (true, true) if self.dir(t)?.len() > 0 => return Err(ENOTEMPTY),
                _ => {}
            }
            self.inodes[t].nlink = self.inodes[t].nlink.saturating_sub(1);
        }
        if self.is_dir(s) {
            let mut p = dd;
            loop {
                if p == s {
                    return Err(EINVAL);
                }
                if p == self.root {
                    break;
                }
                p = self.inodes[p].parent;
            }
            self.inodes[s].parent = dd;
        }
        self.dir_mut(sd).remove(sn);
        self.dir_mut(dd).insert(dn.to_vec(), s);
        self.inodes[sd].mtime = self.now;
        self.inodes[dd].mtime = self.now;
        self.log(MetaOp::Rename { sd, sn: sn.to_vec(), dd, dn: dn.to_vec() });
        Ok(())
    }

    pub fn set_attr(&mut self, ino: Ino, mode: Option<u32>, uid: Option<u32>, gid: Option<u32>) {
        let n = &mut self.inodes[ino];
        if let Some(m) = mode {
            n.mode = m & 0o7777;
        }
        if let Some(u) = uid {
            n.uid = u;
        }
        if let Some(g) = gid {
            n.gid = g;
        }
        n.ctime = self.now;
        let op = MetaOp::Attr { ino, mode: n.mode, uid: n.uid, gid: n.gid };
        self.log(op);
    }

    pub fn write_at(&mut self, ino: Ino, off: usize, d: &[u8], poison: i32) {
        let n = &mut self.inodes[ino];
        let v = Rc::make_mut(&mut n.data);
        let op = DataOp::Write(off, Rc::new(d.to_vec()));
        apply_data(v, &op, false);
        n.pending.push(op);
        n.mtime = self.now;
        if poison != 0 {
            n.poison = poison;
        }
        self.version += 1;
    }

    pub fn truncate(&mut self, ino: Ino, len: usize) {
        let n = &mut self.inodes[ino];
        let v = Rc::make_mut(&mut n.data);
        let op = DataOp::Trunc(len);
        apply_data(v, &op, false);
        n.pending.push(op);
        if len == 0 {
            n.poison = 0;
            n.lost = false;
        }
        n.mtime = self.now;
        self.version += 1;
    }

    pub fn fsync(&mut self, ino: Ino) -> R<()> {
        self.forced_strong = self.journal.len();
        if self.is_dir(ino) {
            self.forced_weak = self.journal.len();
            return Ok(());
        }
        let n = &mut self.inodes[ino];
        if n.poison != 0 {
            let e = n.poison;
            n.poison = 0;
            n.lost = true;
            return Err(e);
        }
        if !n.lost {
            n.synced = n.data.clone();
            n.pending.clear();
        }
        Ok(())
    }

    pub fn sync_all(&mut self) {
        self.forced_strong = self.journal.len();
        self.forced_weak = self.journal.len();
        for n in &mut self.inodes {
            if n.poison != 0 {
                n.poison = 0;
                n.lost = true;
            } else if !n.lost {
                n.synced = n.data.clone();
                n.pending.clear();
            }
        }
    }

    /// Everything so far becomes durable; the journal starts here.
    pub fn checkpoint(&mut self) {
        for n in &mut self.inodes {
            n.synced = n.data.clone();
            n.pending.clear();
            n.poison = 0;
            n.lost = false;
        }
        self.base = Rc::new(self.inodes.clone());
        self.journal.clear();
        self.forced_strong = 0;
        self.forced_weak = 0;
    }

    /// Data whose write-back failed disappears from the cache.
    pub fn evict_lost(&mut self) {
        for n in &mut self.inodes {
            if n.poison != 0 || n.lost {
                let mut v = (*n.synced).clone();
                for op in &n.pending {
                    apply_data(&mut v, op, true);
                }
                n.data = Rc::new(v);
                n.poison = 0;
                n.lost = false;
            }
        }
    }

    /// A state the medium may hold if power fails now.
    pub fn power_loss_image(&self, rng: &mut Rng) -> Vfs {
        let mut v = Vfs {
            inodes: (*self.base).clone(),
            root: self.root,
            base: self.base.clone(),
            journal: Vec::new(),
            forced_strong: 0,
            forced_weak: 0,
            version: 0,
            now: self.now,
        };
        for i in v.inodes.len()..self.inodes.len() {
            let s = &self.inodes[i];
            let kind = match &s.kind {
                Kind::Dir(_) => Kind::Dir(BTreeMap::new()),
                k => k.clone(),
            };
            let mut n = new_inode(kind, s.mode, s.uid, s.gid, s.dev, s.parent, s.btime);
            n.nlink = s.nlink.max(1);
            v.inodes.push(n);
        }
        let lo = if rng.pct(50) { self.forced_strong } else { self.forced_weak };
        // the interesting cuts are right behind the forced point and the very end
        let n = self.journal.len();
        let cut = match rng.below(4) {
            0 => n,
            1 => lo,
            _ => lo + rng.below(n - lo + 1),
        };
        for op in &self.journal[..cut] {
            match op {
                MetaOp::Link { dir, name, ino } => {
                    v.dir_mut(*dir).insert(name.clone(), *ino);
                    if v.is_dir(*ino) {
                        v.inodes[*ino].parent = *dir;
                    }
                }
                MetaOp::Unlink { dir, name } => {
                    v.dir_mut(*dir).remove(name);
                }
                MetaOp::Rename { sd, sn, dd, dn } => {
                    if let Some(i) = v.dir_mut(*sd).remove(sn) {
                        v.dir_mut(*dd).insert(dn.clone(), i);
                        if v.is_dir(i) {
                            v.inodes[i].parent = *dd;
                        }
                    }
                }
                MetaOp::Exchange { sd, sn, dd, dn } => {
                    let a = v.dir_mut(*sd).get(sn).copied();
                    let b = v.dir_mut(*dd).get(dn).copied();
                    if let (Some(a), Some(b)) = (a, b) {
                        v.dir_mut(*sd).insert(sn.clone(), b);
                        v.dir_mut(*dd).insert(dn.clone(), a);
                    }
                }
                MetaOp::Attr { ino, mode, uid, gid } => {
                    let n = &mut v.inodes[*ino];
                    n.mode = *mode;
                    n.uid = *uid;
                    n.gid = *gid;
                }
            }
        }
        for i in 0..self.inodes.len() {
            let s = &self.inodes[i];
            if s.kind != Kind::File {
                continue;
            }
            let d = if s.pending.is_empty() && s.poison == 0 && !s.lost {
                s.synced.clone()
            } else {
                let mut d = (*s.synced).clone();
                let k = if rng.pct(40) { s.pending.len() } else { rng.below(s.pending.len() + 1) };
                for (j, op) in s.pending[..k].iter().enumerate() {
                    let is_last = j + 1 == k;
                    match op {
                        DataOp::Write(o, w) if is_last && !w.is_empty() && rng.pct(50) => {
                            // a torn last write: some bytes, or the size without the bytes
                            let m = rng.below(w.len() + 1);
                            apply_data(&mut d, &DataOp::Write(*o, Rc::new(w[..m].to_vec())), rng.pct(40));
                        }
                        op => apply_data(&mut d, op, s.lost || rng.pct(10)),
                    }
                }
                Rc::new(d)
            };
            v.inodes[i].data = d.clone();
            v.inodes[i].synced = d;
        }
        v.checkpoint();
        v
    }

    /// Digest of everything visible.
    pub fn digest(&self) -> u64 {
        let mut f = crate::rng::Fnv::new();
        self.digest_dir(self.root, &mut f);
        f.0
    }
    fn digest_dir(&self, d: Ino, f: &mut crate::rng::Fnv) {
        if let Kind::Dir(m) = &self.inodes[d].kind {
            for (n, &i) in m {
                f.bytes(n);
                let x = &self.inodes[i];
                f.u64(x.mode as u64);
                match &x.kind {
                    Kind::Dir(_) => {
                        f.u64(1);
                        self.digest_dir(i, f);
                        f.u64(2);
                    }
                    Kind::File => {
                        f.u64(3);
                        f.bytes(&x.data);
                    }
                    Kind::Link(t) => {
                        f.u64(4);
                        f.bytes(t);
                    }
                    Kind::Fifo => f.u64(5),
                }
            }
        }
    }

    pub fn dump(&self) -> BTreeMap<Vec<u8>, Ent> {
        let mut o = BTreeMap::new();
        self.dump_dir(self.root, b"", &mut o);
        o
    }
    fn dump_dir(&self, d: Ino, pre: &[u8], o: &mut BTreeMap<Vec<u8>, Ent>) {
        if let Kind::Dir(m) = &self.inodes[d].kind {
            for (n, &i) in m {
                let mut p = pre.to_vec();
                p.push(b'/');
                p.extend_from_slice(n);
                let x = &self.inodes[i];
                let (kind, target) = match &x.kind {
                    Kind::Dir(_) => ('d', Vec::new()),
                    Kind::File => ('f', Vec::new()),
                    Kind::Link(t) => ('l', t.clone()),
                    Kind::Fifo => ('p', Vec::new()),
                };
                o.insert(
                    p.clone(),
                    Ent { kind, mode: x.mode, uid: x.uid, gid: x.gid, target, data: x.data.clone(), ino: i },
                );
                if kind == 'd' {
                    self.dump_dir(i, &p, o);
                }
            }
        }
    }

    /// Content seen through a path by root (link-following), if it is a regular file.
    pub fn read_path(&self, p: &[u8]) -> Option<Rc<Vec<u8>>> {
        let i = self.lookup(self.root, p, true, Cred { uid: 0, gid: 0, sup: 0 }).ok()?;
        match self.inodes[i].kind {
            Kind::File => Some(self.inodes[i].data.clone()),
            _ => None,
        }
    }
}

/// Paths may hold bytes that are not UTF-8. Scenarios, the file system and the checks keep such a byte b (0x80..0xff)
/// as the character U+E000 + b; what a process is given, and what it gives, holds the byte itself.
pub fn raw(b: &[u8]) -> Vec<u8> {
    if !b.contains(&0xee) {
        return b.to_vec();
    }
    let mut o = Vec::with_capacity(b.len());
    for c in String::from_utf8_lossy(b).chars() {
        match c {
            '\u{e080}'..='\u{e0ff}' => o.push((c as u32 - 0xe000) as u8),
            c => o.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes()),
        }
    }
    o
}

pub fn inner(b: Vec<u8>) -> Vec<u8> {
    if std::str::from_utf8(&b).is_ok() {
        return b;
    }
    let mut o = Vec::with_capacity(b.len() + 8);
    for k in b.utf8_chunks() {
        o.extend_from_slice(k.valid().as_bytes());
        for &x in k.invalid() {
            o.extend_from_slice(char::from_u32(0xe000 + x as u32).unwrap().encode_utf8(&mut [0; 4]).as_bytes());
        }
    }
    o
}

/// how such a name is shown in messages: each maximal invalid sequence as U+FFFD
pub fn shown(p: &str) -> String {
    match p.contains(|c| ('\u{e080}'..='\u{e0ff}').contains(&c)) {
        true => String::from_utf8_lossy(&raw(p.as_bytes())).into_owned(),
        false => p.to_string(),
    }
}
