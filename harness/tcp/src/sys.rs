//! The network as seen by the code under test: system calls on sockets, sleeping and the clock are interposed at
//! the C library boundary.  While a thread has a `World`, its sockets are simulated, every call is a choice point
//! of the explorer, and time only passes by sleeping.  All other calls go to the kernel.

use crate::world::World;
use std::cell::Cell;
use std::ffi::{c_int, c_long, c_uint, c_void};

thread_local! {
    static WORLD: Cell<*mut World> = const { Cell::new(std::ptr::null_mut()) };
}

/// Runs `f` with the thread's sockets, sleeps and clock simulated by `w`.
pub fn inside<R>(w: &mut World, f: impl FnOnce() -> R) -> R {
    struct Leave;
    impl Drop for Leave {
        fn drop(&mut self) {
            WORLD.with(|c| c.set(std::ptr::null_mut()));
        }
    }
    WORLD.with(|c| c.set(w));
    let _l = Leave;
    f()
}
fn world() -> Option<&'static mut World> {
    let p = WORLD.with(|c| c.get());
    if p.is_null() { None } else { Some(unsafe { &mut *p }) }
}
pub const FAKE: c_int = 0x4000_0000;
fn fake(fd: c_int) -> Option<&'static mut World> {
    if fd >= FAKE { world() } else { None }
}

unsafe extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
    fn __errno_location() -> *mut c_int;
}
pub const EINTR: i32 = 4;
pub const EBADF: i32 = 9;
pub const EAGAIN: i32 = 11;
pub const ENOMEM: i32 = 12;
pub const EPIPE: i32 = 32;
pub const ENOBUFS: i32 = 105;
pub const ENETUNREACH: i32 = 101;
pub const ECONNABORTED: i32 = 103;
pub const ECONNRESET: i32 = 104;
pub const ENOTCONN: i32 = 107;
pub const ETIMEDOUT: i32 = 110;
pub const ECONNREFUSED: i32 = 111;
pub const EHOSTUNREACH: i32 = 113;

fn set(r: Result<isize, i32>) -> isize {
    match r {
        Ok(n) => n,
        Err(e) => {
            unsafe { *__errno_location() = e };
            -1
        }
    }
}
#[repr(C)]
pub struct IoVec {
    base: *mut c_void,
    len: usize,
}
#[repr(C)]
pub struct MsgHdr {
    name: *mut c_void,
    namelen: c_uint,
    iov: *mut IoVec,
    iovlen: usize,
    control: *mut c_void,
    controllen: usize,
    flags: c_int,
}
#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}
#[repr(C)]
pub struct PollFd {
    fd: c_int,
    events: i16,
    revents: i16,
}
unsafe fn out<'a>(p: *mut c_void, n: usize) -> &'a mut [u8] {
    if n == 0 { &mut [] } else { unsafe { std::slice::from_raw_parts_mut(p.cast(), n) } }
}
unsafe fn inp<'a>(p: *const c_void, n: usize) -> &'a [u8] {
    if n == 0 { &[] } else { unsafe { std::slice::from_raw_parts(p.cast(), n) } }
}
unsafe fn gather(iov: *const IoVec, n: usize) -> Vec<u8> {
    let mut v = vec![];
    for i in 0..n {
        let e = unsafe { &*iov.add(i) };
        v.extend_from_slice(unsafe { inp(e.base, e.len) });
    }
    v
}
unsafe fn scatter(w: &mut World, fd: c_int, iov: *const IoVec, n: usize, flags: c_int) -> isize {
    let total: usize = (0..n).map(|i| unsafe { (*iov.add(i)).len }).sum();
    let mut tmp = vec![0u8; total];
    let r = w.recv(fd, &mut tmp, flags);
    if let Ok(k) = r {
        let mut rest = &tmp[..k as usize];
        for i in 0..n {
            let e = unsafe { &*iov.add(i) };
            let c = rest.len().min(e.len);
            unsafe { out(e.base, c) }.copy_from_slice(&rest[..c]);
            rest = &rest[c..];
        }
    }
    set(r)
}

macro_rules! passthrough {
    ($n:expr $(, $a:expr)*) => { unsafe { syscall($n $(, $a)*) } };
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn socket(domain: c_int, ty: c_int, proto: c_int) -> c_int {
    if let Some(w) = world() {
        if (domain == 2 || domain == 10) && ty & 0xf == 1 {
            return w.socket() as c_int;
        }
    }
    passthrough!(41, domain, ty, proto) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn connect(fd: c_int, addr: *const c_void, len: c_uint) -> c_int {
    if let Some(w) = fake(fd) {
        let a = unsafe { inp(addr, len as usize) };
        return set(w.connect(fd, a)) as c_int;
    }
    passthrough!(42, fd, addr, len) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn recv(fd: c_int, buf: *mut c_void, len: usize, flags: c_int) -> isize {
    if let Some(w) = fake(fd) {
        return set(w.recv(fd, unsafe { out(buf, len) }, flags));
    }
    passthrough!(45, fd, buf, len, flags, 0usize, 0usize) as isize
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn recvfrom(
    fd: c_int,
    buf: *mut c_void,
    len: usize,
    flags: c_int,
    addr: *mut c_void,
    alen: *mut c_uint,
) -> isize {
    if let Some(w) = fake(fd) {
        return set(w.recv(fd, unsafe { out(buf, len) }, flags));
    }
    passthrough!(45, fd, buf, len, flags, addr, alen) as isize
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn recvmsg(fd: c_int, msg: *mut MsgHdr, flags: c_int) -> isize {
    if let Some(w) = fake(fd) {
        let m = unsafe { &*msg };
        return unsafe { scatter(w, fd, m.iov, m.iovlen, flags) };
    }
    passthrough!(47, fd, msg, flags) as isize
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, len: usize) -> isize {
    if let Some(w) = fake(fd) {
        return set(w.recv(fd, unsafe { out(buf, len) }, 0));
    }
    passthrough!(0, fd, buf, len) as isize
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const IoVec, n: c_int) -> isize {
    if let Some(w) = fake(fd) {
        return unsafe { scatter(w, fd, iov, n as usize, 0) };
    }
    passthrough!(19, fd, iov, n) as isize
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn send(fd: c_int, buf: *const c_void, len: usize, flags: c_int) -> isize {
    if let Some(w) = fake(fd) {
        return set(w.send(fd, unsafe { inp(buf, len) }));
    }
    passthrough!(44, fd, buf, len, flags, 0usize, 0usize) as isize
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sendto(
    fd: c_int,
    buf: *const c_void,
    len: usize,
    flags: c_int,
    addr: *const c_void,
    alen: c_uint,
) -> isize {
    if let Some(w) = fake(fd) {
        return set(w.send(fd, unsafe { inp(buf, len) }));
    }
    passthrough!(44, fd, buf, len, flags, addr, alen) as isize
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sendmsg(fd: c_int, msg: *const MsgHdr, flags: c_int) -> isize {
    if let Some(w) = fake(fd) {
        let m = unsafe { &*msg };
        return set(w.send(fd, &unsafe { gather(m.iov, m.iovlen) }));
    }
    passthrough!(46, fd, msg, flags) as isize
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, len: usize) -> isize {
    if let Some(w) = fake(fd) {
        return set(w.send(fd, unsafe { inp(buf, len) }));
    }
    passthrough!(1, fd, buf, len) as isize
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const IoVec, n: c_int) -> isize {
    if let Some(w) = fake(fd) {
        return set(w.send(fd, &unsafe { gather(iov, n as usize) }));
    }
    passthrough!(20, fd, iov, n) as isize
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    if let Some(w) = fake(fd) {
        return set(w.shutdown(fd, how)) as c_int;
    }
    passthrough!(48, fd, how) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd >= FAKE {
        if let Some(w) = world() {
            return set(w.close(fd)) as c_int;
        }
        return 0; // a simulated socket dropped after its world ended
    }
    passthrough!(3, fd) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if fd >= FAKE {
        return match (cmd, world()) {
            (0 | 1030, Some(w)) => set(w.dup(fd)) as c_int, // F_DUPFD, F_DUPFD_CLOEXEC
            (3, Some(w)) => 2 | if w.nonblocking(fd) { 0o4000 } else { 0 }, // F_GETFL
            (4, Some(w)) => {
                w.set_nonblocking(fd, arg & 0o4000 != 0);
                0
            }
            _ => 0,
        };
    }
    passthrough!(72, fd, cmd, arg) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn ioctl(fd: c_int, req: u64, arg: *mut c_void) -> c_int {
    if fd >= FAKE {
        if let Some(w) = world() {
            if req == 0x5421 {
                w.set_nonblocking(fd, unsafe { *(arg as *const c_int) } != 0);
            }
            if req == 0x541B {
                unsafe { *(arg as *mut c_int) = w.available(fd) as c_int };
            }
        }
        return 0;
    }
    passthrough!(16, fd, req, arg) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn setsockopt(fd: c_int, level: c_int, name: c_int, val: *const c_void, len: c_uint) -> c_int {
    if fd >= FAKE {
        return 0;
    }
    passthrough!(54, fd, level, name, val, len) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getsockopt(fd: c_int, level: c_int, name: c_int, val: *mut c_void, len: *mut c_uint) -> c_int {
    if fd >= FAKE {
        unsafe { out(val, *len as usize) }.fill(0); // SO_ERROR: none; timeouts: none
        return 0;
    }
    passthrough!(55, fd, level, name, val, len) as c_int
}
unsafe fn peer(fd: c_int, addr: *mut c_void, len: *mut c_uint) -> c_int {
    let Some(w) = world() else { return -1 };
    let a = w.peer(fd);
    let n = a.len().min(unsafe { *len } as usize);
    unsafe {
        out(addr, n).copy_from_slice(&a[..n]);
        *len = a.len() as c_uint;
    }
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getpeername(fd: c_int, addr: *mut c_void, len: *mut c_uint) -> c_int {
    if fd >= FAKE {
        return unsafe { peer(fd, addr, len) };
    }
    passthrough!(52, fd, addr, len) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getsockname(fd: c_int, addr: *mut c_void, len: *mut c_uint) -> c_int {
    if fd >= FAKE {
        return unsafe { peer(fd, addr, len) };
    }
    passthrough!(51, fd, addr, len) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn poll(fds: *mut PollFd, n: u64, timeout: c_int) -> c_int {
    if n > 0 && !fds.is_null() {
        let v = unsafe { std::slice::from_raw_parts_mut(fds, n as usize) };
        if v.iter().any(|p| p.fd >= FAKE) {
            if let Some(w) = world() {
                let mut ready = 0;
                for p in v.iter_mut() {
                    let mut r = 0;
                    if p.events & 4 != 0 {
                        r |= 4;
                    }
                    if p.events & 1 != 0 && w.readable(p.fd) {
                        r |= 1;
                    }
                    p.revents = r;
                    ready += (r != 0) as c_int;
                }
                if ready == 0 {
                    w.wait_in_poll(timeout);
                }
                return ready;
            }
        }
    }
    passthrough!(7, fds, n, timeout) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn nanosleep(req: *const Timespec, rem: *mut Timespec) -> c_int {
    if let Some(w) = world() {
        let t = unsafe { &*req };
        w.sleep(t.sec as u64 * 1_000_000_000 + t.nsec as u64);
        return 0;
    }
    passthrough!(35, req, rem) as c_int
}
/// Returns an error number instead of setting errno.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_nanosleep(clock: c_int, flags: c_int, req: *const Timespec, rem: *mut Timespec) -> c_int {
    if let Some(w) = world() {
        let t = unsafe { &*req };
        let ns = t.sec as u64 * 1_000_000_000 + t.nsec as u64;
        let ns = if flags & 1 != 0 { ns.saturating_sub(w.now()) } else { ns };
        w.sleep(ns);
        return 0;
    }
    let r = passthrough!(230, clock, flags, req, rem);
    if r < 0 { unsafe { *__errno_location() } } else { 0 }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(clock: c_int, tp: *mut Timespec) -> c_int {
    if let Some(w) = world() {
        let n = w.now();
        unsafe { *tp = Timespec { sec: (n / 1_000_000_000) as i64, nsec: (n % 1_000_000_000) as i64 } };
        return 0;
    }
    passthrough!(228, clock, tp) as c_int
}
