//! Client of the fork server that lives in the shim: starts and reaps real luafmt processes.
use std::io::{Read, Write};
use std::os::fd::{AsRawFd, OwnedFd};
use std::os::unix::net::UnixStream;
use std::os::unix::process::CommandExt;
use std::path::Path;
use std::process::{Child, Command, Stdio};
use std::time::Duration;

#[repr(C)]
struct IoVec {
    base: *mut u8,
    len: usize,
}
#[repr(C)]
struct MsgHdr {
    name: *mut u8,
    namelen: u32,
    iov: *mut IoVec,
    iovlen: usize,
    control: *mut u8,
    controllen: usize,
    flags: i32,
}
extern "C" {
    fn sendmsg(fd: i32, m: *const MsgHdr, flags: i32) -> isize;
    fn personality(p: u64) -> i32;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

pub struct Server {
    child: Child,
    ctl: UnixStream,
}

impl Server {
    pub fn start(bin: &Path, shim: &Path) -> std::io::Result<Server> {
        let (a, b) = UnixStream::pair()?;
        let mut c = Command::new(bin);
        c.env_clear()
            .env("LD_PRELOAD", shim)
            .env("SIMSHIM", "1")
            .stdin(Stdio::from(OwnedFd::from(b)))
            .stdout(Stdio::null())
            .stderr(Stdio::inherit())
            .current_dir("/");
        unsafe {
            c.pre_exec(|| {
                // the same address layout in every process; die with the driver
                personality(0x0040000);
                prctl(1, 9, 0, 0, 0);
                Ok(())
            });
        }
        let child = c.spawn()?;
        Ok(Server { child, ctl: a })
    }

    fn hdr(cmd: u32, len: u32, a: i64, b: i64) -> [u8; 24] {
        let mut h = [0u8; 24];
        h[0..4].copy_from_slice(&cmd.to_le_bytes());
        h[4..8].copy_from_slice(&len.to_le_bytes());
        h[8..16].copy_from_slice(&a.to_le_bytes());
        h[16..24].copy_from_slice(&b.to_le_bytes());
        h
    }
    fn answer(&mut self) -> i64 {
        let mut r = [0u8; 8];
        self.ctl.read_exact(&mut r).expect("fork server died");
        i64::from_le_bytes(r)
    }

    pub fn spawn(&mut self, args: &[&[u8]], env: &[&str]) -> (i64, UnixStream) {
        let (mine, theirs) = UnixStream::pair().expect("socketpair");
        mine.set_read_timeout(Some(Duration::from_secs(30))).unwrap();
        let mut blob: Vec<u8> = Vec::new();
        for a in args {
            blob.extend_from_slice(a);
            blob.push(0);
        }
        for e in env {
            blob.extend_from_slice(e.as_bytes());
            blob.push(0);
        }
        let mut h = Self::hdr(1, blob.len() as u32, args.len() as i64, env.len() as i64);
        // one control message carrying the descriptor
        let mut cb = [0u64; 3];
        let fd = theirs.as_raw_fd();
        unsafe {
            let p = cb.as_mut_ptr() as *mut u8;
            *(p as *mut usize) = 20; // CMSG_LEN(4)
            *(p.add(8) as *mut i32) = 1; // SOL_SOCKET
            *(p.add(12) as *mut i32) = 1; // SCM_RIGHTS
            *(p.add(16) as *mut i32) = fd;
            let mut iov = IoVec { base: h.as_mut_ptr(), len: h.len() };
            let m = MsgHdr {
                name: std::ptr::null_mut(),
                namelen: 0,
                iov: &mut iov,
                iovlen: 1,
                control: p,
                controllen: 24,
                flags: 0,
            };
            let r = sendmsg(self.ctl.as_raw_fd(), &m, 0x4000);
            assert_eq!(r, 24, "sendmsg to the fork server");
        }
        self.ctl.write_all(&blob).expect("fork server died");
        let pid = self.answer();
        assert!(pid > 0, "fork failed: {}", pid);
        (pid, mine)
    }
    pub fn reap(&mut self, pid: i64) -> i32 {
        self.ctl.write_all(&Self::hdr(2, 0, pid, 0)).expect("fork server died");
        self.answer() as i32
    }
    pub fn kill(&mut self, pid: i64) -> i32 {
        self.ctl.write_all(&Self::hdr(3, 0, pid, 0)).expect("fork server died");
        self.answer() as i32
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
