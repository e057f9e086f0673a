//! The simulated peer: a TPM simulator with a TPM channel and a platform channel, spoken to over simulated sockets.

use crate::sys::*;
use mc::Chooser;
use std::collections::{BTreeMap, VecDeque};

pub const TPM: usize = 0;
pub const PLAT: usize = 1;

/// How the stream from the server is cut into reads.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Split {
    /// as much as was asked for
    Whole,
    /// at most this many bytes per read
    AtMost(usize),
}

#[derive(Default)]
pub struct Channel {
    /// bytes received from the client that are not a complete message yet
    pub partial: Vec<u8>,
    /// complete messages received
    pub messages: Vec<Vec<u8>>,
    /// replies prepared for the next messages
    pub replies: VecDeque<Vec<u8>>,
    /// after the replies the server closes the connection
    pub closes_after: bool,
    /// bytes on their way to the client
    pub out: VecDeque<u8>,
    /// the message cannot be parsed
    pub garbage: bool,
    pub shut_rd: bool,
    pub shut_wr: bool,
    /// Some(errno): connection failed; Some(0): closed by the peer
    pub dead: Option<i32>,
    pub reset_reported: bool,
}

struct Fd {
    chan: Option<usize>,
    addr: Vec<u8>,
    nonblocking: bool,
}

/// What happened to the client's calls since the last `clear`.
#[derive(Default, Clone, Debug)]
pub struct Faults {
    /// a read failed or the stream ended
    pub read: bool,
    /// a write failed
    pub write: bool,
    /// a write was cut short or interrupted
    pub short: bool,
    /// a read was interrupted
    pub intr: bool,
    /// a shutdown failed
    pub shutdown: bool,
    /// the client waits for bytes that the server will never send
    pub blocked: bool,
}
impl Faults {
    pub fn none(&self) -> bool {
        !(self.read || self.write || self.short || self.intr || self.shutdown || self.blocked)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Connect {
    pub at: u64,
    pub ip: Vec<u8>,
    pub port: u16,
    pub errno: i32,
}

pub struct World {
    ch: *mut Chooser,
    pub split: Split,
    /// the network may misbehave (deviations are offered)
    pub faults_on: bool,
    /// short reads and writes and interruptions are offered
    pub splits_on: bool,
    pub shutdown_faults: bool,
    /// calls may fail without harm to the connection
    pub transient: bool,
    pub chans: [Channel; 2],
    fds: BTreeMap<i32, Fd>,
    next_fd: i32,
    now: u64,
    pub faults: Faults,
    pub calls: u64,
    pub log: Vec<String>,
    pub logging: bool,
    // connecting
    pub connects: Vec<Connect>,
    /// decides a connection attempt: (world, port) -> channel or errno
    pub on_connect: Option<Box<dyn FnMut(&mut Chooser, usize, u16) -> Result<usize, i32>>>,
    pub on_sleep: Option<Box<dyn FnMut(usize, u64)>>,
    pub sleeps: usize,
}

impl World {
    pub fn new(ch: &mut Chooser) -> World {
        World {
            ch,
            split: Split::Whole,
            faults_on: true,
            splits_on: true,
            shutdown_faults: true,
            transient: true,
            chans: Default::default(),
            fds: BTreeMap::new(),
            next_fd: FAKE,
            now: 1_000_000_000_000,
            faults: Faults::default(),
            calls: 0,
            log: vec![],
            logging: false,
            connects: vec![],
            on_connect: None,
            on_sleep: None,
            sleeps: 0,
        }
    }
    #[allow(clippy::mut_from_ref)]
    pub fn ch(&self) -> &'static mut Chooser {
        unsafe { &mut *self.ch }
    }
    fn note(&mut self, f: impl FnOnce() -> String) {
        if self.logging {
            self.log.push(f());
        }
    }
    /// Starts the next operation.
    pub fn begin(&mut self) {
        self.faults = Faults::default();
        self.calls = 0;
        for c in &mut self.chans {
            c.messages.clear();
        }
    }
    pub fn now(&self) -> u64 {
        self.now
    }
    pub fn sleep(&mut self, ns: u64) {
        self.now += ns;
        self.sleeps += 1;
        let n = self.sleeps;
        self.note(|| format!("sleep {} ms", ns / 1_000_000));
        if let Some(mut f) = self.on_sleep.take() {
            f(n, ns);
            self.on_sleep = Some(f);
        }
        assert!(n < 10_000, "sleeps without end");
    }
    pub fn wait_in_poll(&mut self, timeout: i32) {
        self.faults.blocked |= timeout < 0;
        self.now += timeout.max(0) as u64 * 1_000_000;
        self.calls += 1;
        assert!(self.calls < 1_000_000, "polls without end");
    }
    pub fn socket(&mut self) -> isize {
        let fd = self.next_fd;
        self.next_fd += 1;
        self.fds.insert(fd, Fd { chan: None, addr: vec![], nonblocking: false });
        fd as isize
    }
    pub fn dup(&mut self, fd: i32) -> Result<isize, i32> {
        let f = self.fds.get(&fd).ok_or(EBADF)?;
        let n = Fd { chan: f.chan, addr: f.addr.clone(), nonblocking: f.nonblocking };
        let fd = self.next_fd;
        self.next_fd += 1;
        self.fds.insert(fd, n);
        Ok(fd as isize)
    }
    pub fn close(&mut self, fd: i32) -> Result<isize, i32> {
        self.fds.remove(&fd).map(|_| 0).ok_or(EBADF)
    }
    pub fn nonblocking(&self, fd: i32) -> bool {
        self.fds.get(&fd).is_some_and(|f| f.nonblocking)
    }
    pub fn set_nonblocking(&mut self, fd: i32, on: bool) {
        if let Some(f) = self.fds.get_mut(&fd) {
            f.nonblocking = on;
        }
    }
    pub fn peer(&self, fd: i32) -> Vec<u8> {
        self.fds.get(&fd).map(|f| f.addr.clone()).unwrap_or_default()
    }
    fn chan(&self, fd: i32) -> Result<usize, i32> {
        self.fds.get(&fd).ok_or(EBADF)?.chan.ok_or(ENOTCONN)
    }
    pub fn available(&self, fd: i32) -> usize {
        self.chan(fd).map(|c| self.chans[c].out.len()).unwrap_or(0)
    }
    pub fn readable(&self, fd: i32) -> bool {
        let Ok(c) = self.chan(fd) else { return true };
        let c = &self.chans[c];
        !c.out.is_empty() || c.dead.is_some() || c.shut_rd
    }
    pub fn connect(&mut self, fd: i32, addr: &[u8]) -> Result<isize, i32> {
        let port = u16::from_be_bytes([addr[2], addr[3]]);
        let ip = match u16::from_ne_bytes([addr[0], addr[1]]) {
            2 => addr[4..8].to_vec(),
            _ => addr[8..24].to_vec(),
        };
        let i = self.connects.len();
        let r = match self.on_connect.take() {
            Some(mut f) => {
                let r = f(self.ch(), i, port);
                self.on_connect = Some(f);
                r
            }
            None => Ok(i),
        };
        let at = self.now;
        self.connects.push(Connect { at, ip, port, errno: r.err().unwrap_or(0) });
        self.note(|| format!("connect to port {port}: {r:?}"));
        assert!(i < 10_000, "connects without end");
        let c = r?;
        let f = self.fds.get_mut(&fd).ok_or(EBADF)?;
        f.chan = Some(c);
        f.addr = addr.to_vec();
        if c < 2 {
            self.chans[c] = Channel {
                replies: std::mem::take(&mut self.chans[c].replies),
                ..Channel::default()
            };
        }
        Ok(0)
    }
    fn busy(&mut self) {
        self.calls += 1;
        assert!(self.calls < 40_000_000, "calls without end");
    }
    pub fn recv(&mut self, fd: i32, buf: &mut [u8], flags: i32) -> Result<isize, i32> {
        self.busy();
        let c = self.chan(fd)?;
        if buf.is_empty() {
            return Ok(0);
        }
        let nonblocking = flags & 0x40 != 0 || self.nonblocking(fd);
        let chan = &mut self.chans[c];
        if chan.shut_rd {
            return Ok(0);
        }
        if chan.out.is_empty() {
            if let Some(e) = chan.dead {
                if e != 0 && !chan.reset_reported {
                    chan.reset_reported = true;
                    self.faults.read = true;
                    return Err(e);
                }
                self.faults.read = true;
                return Ok(0);
            }
            if nonblocking {
                assert!(self.calls < 1_000_000, "polls without end");
                return Err(EAGAIN);
            }
            self.note(|| format!("read on channel {c} would block forever"));
            self.faults.blocked = true;
            return Err(ECONNABORTED);
        }
        let mut n = buf.len().min(chan.out.len());
        if let Split::AtMost(k) = self.split {
            n = n.min(k);
        }
        if flags & 2 != 0 {
            for (i, b) in buf[..n].iter_mut().enumerate() {
                *b = chan.out[i];
            }
            return Ok(n as isize);
        }
        let mut die = None;
        if self.faults_on {
            let cuts = if self.splits_on { cuts(n) } else { vec![] };
            let k = self.ch().deviate(1 + 4 + 2 * cuts.len());
            let k = if k == 4 && !self.transient { 2 } else { k };
            match k {
                0 => {}
                1 => {
                    self.faults.intr = true;
                    self.note(|| format!("read on channel {c}: interrupted"));
                    return Err(EINTR);
                }
                2 | 3 => {
                    let chan = &mut self.chans[c];
                    chan.out.clear();
                    chan.dead = Some(0);
                    self.faults.read = true;
                    self.note(|| format!("read on channel {c}: {}", if k == 2 { "reset" } else { "end of stream" }));
                    return if k == 2 { Err(ECONNRESET) } else { Ok(0) };
                }
                4 => {
                    // the call fails, but the connection and what was sent on it are intact
                    self.faults.read = true;
                    self.note(|| format!("read on channel {c}: out of memory"));
                    return Err(ENOMEM);
                }
                k => {
                    n = cuts[(k - 5) / 2];
                    if (k - 5) % 2 == 1 {
                        die = Some(if n % 2 == 0 { 0 } else { ECONNRESET });
                    }
                }
            }
        }
        let chan = &mut self.chans[c];
        for (b, x) in buf.iter_mut().zip(chan.out.drain(..n)) {
            *b = x;
        }
        if let Some(e) = die {
            chan.out.clear();
            chan.dead = Some(e);
        }
        self.note(|| format!("read on channel {c}: {n} bytes{}", if die.is_some() { ", then the connection fails" } else { "" }));
        Ok(n as isize)
    }
    pub fn send(&mut self, fd: i32, data: &[u8]) -> Result<isize, i32> {
        self.busy();
        let c = self.chan(fd)?;
        let chan = &mut self.chans[c];
        if chan.shut_wr || chan.dead.is_some() {
            // what the client shut down itself is no fault of the network
            self.faults.write |= !chan.shut_wr;
            self.note(|| format!("write on channel {c}: broken pipe"));
            return Err(EPIPE);
        }
        if data.is_empty() {
            return Ok(0);
        }
        let mut n = data.len();
        if self.faults_on {
            let cuts = if self.splits_on { cuts(n) } else { vec![] };
            let k = self.ch().deviate(1 + 4 + cuts.len());
            match if k == 4 && !self.transient { 2 } else { k } {
                0 => {}
                1 => {
                    self.faults.short = true;
                    self.note(|| format!("write on channel {c}: interrupted"));
                    return Err(EINTR);
                }
                k @ (2 | 3) => {
                    let chan = &mut self.chans[c];
                    chan.dead = Some(ECONNRESET);
                    chan.out.clear();
                    self.faults.write = true;
                    self.note(|| format!("write on channel {c}: fails"));
                    return Err(if k == 2 { EPIPE } else { ECONNRESET });
                }
                4 => {
                    self.faults.write = true;
                    self.note(|| format!("write on channel {c}: no buffer space"));
                    return Err(ENOBUFS);
                }
                k => {
                    n = cuts[k - 5];
                    self.faults.short = true;
                }
            }
        }
        self.note(|| format!("write on channel {c}: {n} of {} bytes: {}", data.len(), mc::hex(data)));
        self.chans[c].partial.extend_from_slice(&data[..n]);
        self.serve(c);
        Ok(n as isize)
    }
    pub fn shutdown(&mut self, fd: i32, how: i32) -> Result<isize, i32> {
        let c = self.chan(fd)?;
        if self.faults_on && self.shutdown_faults && self.ch().deviate(2) == 1 {
            self.faults.shutdown = true;
            self.chans[c].dead.get_or_insert(0);
            self.note(|| format!("shutdown of channel {c}: fails"));
            return Err(ENOTCONN);
        }
        let chan = &mut self.chans[c];
        chan.shut_rd |= how != 1;
        chan.shut_wr |= how != 0;
        self.note(|| format!("shutdown of channel {c} ({how})"));
        Ok(0)
    }
    /// The server consumes complete messages.
    fn serve(&mut self, c: usize) {
        loop {
            let chan = &mut self.chans[c];
            let Some(n) = message_length(c, &chan.partial, &mut chan.garbage) else { return };
            let m: Vec<u8> = chan.partial.drain(..n).collect();
            let code = m[3];
            chan.messages.push(m);
            if code == 20 || code == 21 {
                continue; // no reply
            }
            if let Some(r) = chan.replies.pop_front() {
                chan.out.extend(r);
                if chan.replies.is_empty() && chan.closes_after {
                    chan.dead = Some(0);
                }
            }
        }
    }
}

/// Interesting cut positions of an `n` byte transfer: all of them when short.
fn cuts(n: usize) -> Vec<usize> {
    if n <= 9 {
        return (1..n).collect();
    }
    let mut v = vec![1, 3, 4, 5, 8, 9, n / 2, n - 4, n - 1];
    v.retain(|&k| k > 0 && k < n);
    v.sort();
    v.dedup();
    v
}

/// The length of the first message of the stream if it is complete.
fn message_length(c: usize, b: &[u8], garbage: &mut bool) -> Option<usize> {
    if b.len() < 4 || *garbage {
        return None;
    }
    let code = u32::from_be_bytes([b[0], b[1], b[2], b[3]]);
    let u32_at = |o: usize| b.get(o..o + 4).map(|x| u32::from_be_bytes([x[0], x[1], x[2], x[3]]) as usize);
    let n = match (c, code) {
        (TPM, 5 | 7 | 20 | 21) => 4,
        (TPM, 6) => 8 + u32_at(4)?,
        (TPM, 8) => 9 + u32_at(5)?,
        (TPM, 15 | 16) => 8,
        (PLAT, 1..=4 | 9..=14 | 17 | 18 | 20 | 21 | 25 | 30) => 4,
        (PLAT, 26 | 35 | 36) => 8,
        _ => {
            *garbage = true;
            return None;
        }
    };
    (b.len() >= n).then_some(n)
}
