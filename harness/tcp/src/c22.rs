//! C22: connecting, retrying, starting, stopping and dropping a managed simulator.  The simulator process is a real
//! process (this program, doing nothing); the network and time are simulated.

use crate::sys::{self, *};
use crate::world::*;
use mc::{Check, Chooser, Cov};
use std::ffi::{c_int, c_long};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};
use tpm2_client::connection::{SimulatorPlatformSignal, TcpConnection, TcpSimulator};
use tpm2_client::connection::Connection;

unsafe extern "C" {
    fn prctl(op: c_int, a: c_long, b: c_long, c: c_long, d: c_long) -> c_int;
    fn alarm(s: u32) -> u32;
    fn pause() -> c_int;
    fn getppid() -> c_int;
    fn gettid() -> c_int;
    fn kill(pid: c_int, sig: c_int) -> c_int;
    fn waitpid(pid: c_int, status: *mut c_int, options: c_int) -> c_int;
}

/// The stand-in for the simulator process: lives until killed, its parent's end, or ten minutes.
pub fn child() -> ! {
    unsafe {
        prctl(1, 9, 0, 0, 0);
        alarm(600);
        if getppid() == 1 {
            std::process::exit(0);
        }
        loop {
            pause();
        }
    }
}

// ------------------------------------------------------------------------------------------ connecting
const ERRNOS: [i32; 4] = [ECONNREFUSED, ETIMEDOUT, ENETUNREACH, EHOSTUNREACH];

struct Ports {
    tpm: u16,
    plat: u16,
}

/// What the log of connection attempts says: Ok(success?, last errno) or what is wrong with it.
fn judge_connects(w: &World, ports: &Ports, ip: &[u8], attempts: usize) -> Result<(bool, i32), String> {
    let log = &w.connects;
    let mut i = 0;
    let mut last_end = None;
    for attempt in 0..attempts {
        let mut last = 0;
        for port in [ports.tpm, ports.plat] {
            let Some(c) = log.get(i) else {
                return Err(format!("attempt {} is missing or incomplete", attempt + 1));
            };
            if c.port != port || c.ip != ip {
                return Err(format!("connects to {:?} port {} instead of {ip:?} port {port}", c.ip, c.port));
            }
            if let (Some(e), true) = (last_end, port == ports.tpm) {
                let gap = c.at - e;
                if !(900_000_000..=1_100_000_000).contains(&gap) {
                    return Err(format!("attempt {} starts {} ms after the previous one", attempt + 1, gap / 1_000_000));
                }
            }
            last_end = Some(c.at);
            i += 1;
            last = c.errno;
            if last != 0 {
                break;
            }
            if port == ports.plat {
                if i != log.len() {
                    return Err("connects again after success".into());
                }
                return Ok((true, 0));
            }
            last_end = None;
        }
        if attempt + 1 == attempts {
            if i != log.len() {
                return Err(format!("more than {attempts} attempts"));
            }
            return Ok((false, last));
        }
    }
    unreachable!()
}

/// Decides every connect freely: success, or one of `errnos` errors.
fn free_connects(w: &mut World, ports: Ports, errnos: usize) {
    w.on_connect = Some(Box::new(move |ch: &mut Chooser, i, port| {
        let k = ch.choose(1 + errnos);
        if k > 0 {
            return Err(ERRNOS[(i + k - 1) % ERRNOS.len()]);
        }
        Ok(if port == ports.tpm { TPM } else if port == ports.plat { PLAT } else { 2 })
    }));
}

/// Both channels of a fresh connection lead where they should.
fn probe(w: &mut World, conn: &mut TcpConnection) -> Option<String> {
    w.begin();
    w.faults_on = false;
    w.chans[TPM].replies.push_back([&[0, 0, 0, 2, 0xab, 0xcd][..], &[0; 4][..]].concat());
    w.chans[PLAT].replies.push_back(vec![0; 4]);
    let mut buf = [0u8; 8];
    let r = sys::inside(w, || {
        mc::guard(|| {
            let a = conn.transact(&[1, 2, 3], &mut buf).map(|s| s.to_vec());
            let b = conn.platform_signal(SimulatorPlatformSignal::PowerOn);
            (a.map_err(|e| e.to_string()), b.map_err(|e| e.to_string()))
        })
    });
    let want = [8u32.to_be_bytes().to_vec(), vec![0, 0, 0, 0, 3, 1, 2, 3]].concat();
    match r {
        Ok((Ok(p), Ok(()))) if p == [0xab, 0xcd] => {}
        r => return Some(format!("the fresh connection does not work: {r:?}")),
    }
    if w.chans[TPM].messages != [want] || w.chans[PLAT].messages != [vec![0, 0, 0, 1]] {
        return Some("the channels of the fresh connection are mixed up or carry wrong messages".into());
    }
    None
}

fn connecting(check: &Check) {
    let ports: Vec<(Option<u16>, Option<u16>)> = vec![
        (None, None),
        (Some(4000), None),
        (None, Some(4001)),
        (Some(4000), Some(4001)),
        (Some(1), Some(65535)),
        (Some(65535), Some(1)),
        (Some(0), Some(258)),
        (Some(2322), Some(2321)),
    ];
    let ips: [(&str, Vec<u8>); 3] =
        [("127.0.0.1", vec![127, 0, 0, 1]), ("10.1.2.3", vec![10, 1, 2, 3]), ("::1", [vec![0; 15], vec![1]].concat())];
    let mut items = vec![];
    for p in &ports {
        for ip in &ips {
            for retries in [false, true] {
                items.push((*p, ip.clone(), retries));
            }
        }
    }
    let errnos = 4;
    check.bound(format!(
        "every outcome (success or one of {errnos} errors) of every connect of a single and of a retrying connection, 8 port settings, 3 addresses"
    ));
    check.par(items, |cov, ((tp, pp), (ip, raw), retries)| {
        let what = format!("connect{} {ip} {tp:?} {pp:?}", if retries { "_with_retries" } else { "" });
        let salt = mc::hash_str(&what);
        cov.state(salt);
        mc::label(&what);
        mc::explore(cov, salt, 0, |ch, cov| {
            let mut w = World::new(ch);
            w.logging = true;
            w.faults_on = false;
            let port = || Ports { tpm: tp.unwrap_or(2321), plat: pp.unwrap_or(2322) };
            free_connects(&mut w, port(), errnos);
            let r = sys::inside(&mut w, || {
                mc::guard(|| {
                    if retries {
                        TcpConnection::connect_with_retries(ip, tp, pp)
                    } else {
                        TcpConnection::connect(ip, tp, pp)
                    }
                })
            });
            cov.evaluations += 1;
            let verdict = judge_connects(&w, &port(), &raw, if retries { 4 } else { 1 });
            let kind = if retries { "retry" } else { "connect" };
            let mut bad = None;
            match (r, verdict) {
                (Err(p), _) => bad = Some(("panic", p)),
                (_, Err(e)) => bad = Some(("attempts", e)),
                (Ok(Ok(mut c)), Ok((true, _))) => {
                    bad = probe(&mut w, &mut c).map(|e| ("channels", e));
                    sys::inside(&mut w, || drop(c));
                }
                (Ok(Ok(c)), Ok((false, _))) => {
                    bad = Some(("result", "succeeds although no attempt succeeded".into()));
                    sys::inside(&mut w, || drop(c));
                }
                (Ok(Err(e)), Ok((true, _))) => bad = Some(("result", format!("fails although an attempt succeeded: {e}"))),
                (Ok(Err(e)), Ok((false, errno))) => {
                    if e.raw_os_error() != Some(errno) {
                        bad = Some(("last-error", format!("returns {e:?} instead of the last error {errno}")));
                    }
                }
            }
            if let Some((k, e)) = bad {
                check.fail(&format!("{kind}:{k}"), || format!("{what}: {e}\n    {}", w.log.join("\n    ")));
            }
            cov.sample(&format!("{kind} {}", ch.path().len()), || w.log.join("; "));
            !check.failing()
        });
    });
}

// ------------------------------------------------------------------------------------------- processes
fn children() -> Vec<i32> {
    let tid = unsafe { gettid() };
    std::fs::read_to_string(format!("/proc/self/task/{tid}/children"))
        .unwrap_or_default()
        .split_whitespace()
        .filter_map(|s| s.parse().ok())
        .collect()
}
fn running(pid: i32) -> bool {
    match std::fs::read_to_string(format!("/proc/{pid}/stat")) {
        Ok(s) => !matches!(s.rsplit(')').next().and_then(|r| r.trim().chars().next()), Some('Z' | 'X')),
        Err(_) => false,
    }
}
fn stopped_soon(pid: i32) -> bool {
    let t = Instant::now();
    while running(pid) {
        if t.elapsed() > Duration::from_secs(3) {
            return false;
        }
        std::thread::sleep(Duration::from_micros(200));
    }
    true
}
fn reap() {
    for pid in children() {
        unsafe {
            kill(pid, 9);
            waitpid(pid, std::ptr::null_mut(), 0);
        }
    }
}

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        let tid = unsafe { gettid() };
        let p = std::env::temp_dir().join(format!("verif-tcp-{}-{tid}", std::process::id()));
        std::fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p.canonicalize().unwrap())
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

const NEVER: usize = usize::MAX;
#[derive(Clone, Debug)]
struct Start {
    args: Vec<&'static str>,
    /// number of sleeps after which the port files appear
    tpm_at: usize,
    plat_at: usize,
    /// number of sleeps after which the files are created, still empty
    created_at: usize,
    tpm_file: &'static str,
    plat_file: &'static str,
}
fn parse(s: &str) -> Option<u16> {
    let t = s.trim();
    if t.is_empty() || !t.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    t.parse::<u32>().ok().and_then(|v| u16::try_from(v).ok())
}

/// (may succeed, must succeed) in finding both ports.
fn ports_found(s: &Start) -> (bool, bool) {
    let (a, b) = (s.tpm_at, s.plat_at);
    let command_first = a <= 3 && b <= a.saturating_add(3);
    let platform_first = b <= 3 && a <= b.saturating_add(3);
    (command_first || platform_first, a <= 3 && b <= 3)
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Act {
    Stop,
    StopNicely,
    Use,
    EndSession,
}

fn prepare(w: &mut World, dir: &Path, s: &Start) {
    for f in ["command.port", "platform.port"] {
        let _ = std::fs::remove_file(dir.join(f));
    }
    let publish = {
        let (dir, s) = (dir.to_path_buf(), s.clone());
        move |n: usize| {
            if s.created_at == n {
                for f in ["command.port", "platform.port"] {
                    std::fs::write(dir.join(f), "").unwrap();
                }
            }
            if s.tpm_at == n {
                std::fs::write(dir.join("command.port"), s.tpm_file).unwrap();
            }
            if s.plat_at == n {
                std::fs::write(dir.join("platform.port"), s.plat_file).unwrap();
            }
        }
    };
    publish(0);
    w.on_sleep = Some(Box::new(move |n, _| publish(n)));
}

/// One life of a managed simulator.  `connect_errnos`: free failures of the connects; otherwise they succeed.
#[allow(clippy::too_many_arguments)]
fn life(
    w: &mut World,
    dir: &Path,
    exe: &Path,
    s: &Start,
    connect_errnos: usize,
    acts: &[Act],
    faults: bool,
    cov: &mut Cov,
) -> Option<(&'static str, String)> {
    prepare(w, dir, s);
    w.faults_on = false;
    // the address goes with the arguments
    let addrs: [(&str, Vec<u8>); 3] = [("127.0.0.1", vec![127, 0, 0, 1]), ("10.9.8.7", vec![10, 9, 8, 7]), ("::1", [vec![0; 15], vec![1]].concat())];
    let (addr, raw) = &addrs[s.args.len() % 3];
    let ports = || Ports { tpm: parse(s.tpm_file).unwrap_or(1), plat: parse(s.plat_file).unwrap_or(2) };
    free_connects(w, ports(), connect_errnos);
    let r = sys::inside(w, || mc::guard(|| TcpSimulator::new(exe, &s.args, dir, addr)));
    cov.evaluations += 1;
    let kids = children();
    let mut sim = match r {
        Err(p) => return Some(("panic", format!("starting panics: {p}"))),
        Ok(Err(e)) => {
            for k in kids {
                if !stopped_soon(k) {
                    return Some(("leaked-process", format!("starting fails ({e}) but the process is still running")));
                }
            }
            let (_, must) = ports_found(s);
            if must && parse(s.tpm_file).is_some() && parse(s.plat_file).is_some() {
                match judge_connects(w, &ports(), raw, 4) {
                    Err(x) => return Some(("attempts", format!("starting fails ({e}): {x}"))),
                    Ok((true, _)) => return Some(("start-fails", format!("starting fails without reason: {e}"))),
                    Ok((false, errno)) => {
                        if e.raw_os_error() != Some(errno) {
                            return Some(("last-error", format!("starting returns {e:?} instead of the connection error {errno}")));
                        }
                    }
                }
            }
            return None;
        }
        Ok(Ok(sim)) => sim,
    };
    // started
    let finish = |w: &mut World, sim: TcpSimulator| {
        sys::inside(w, || mc::guard(|| drop(sim)))
    };
    let (may, _) = ports_found(s);
    if !may || parse(s.tpm_file).is_none() || parse(s.plat_file).is_none() {
        let _ = finish(w, sim);
        return Some(("start-succeeds", "starting succeeds without both ports".into()));
    }
    match judge_connects(w, &ports(), raw, 4) {
        Ok((true, _)) => {}
        x => {
            let _ = finish(w, sim);
            return Some(("attempts", format!("starting succeeds with connections {x:?}")));
        }
    }
    let [pid] = kids[..] else {
        let _ = finish(w, sim);
        return Some(("process", format!("{} processes were started", kids.len())));
    };
    if !running(pid) {
        let _ = finish(w, sim);
        return Some(("process", "the process is not running after a successful start".into()));
    }
    let mut cmdline = vec![];
    let t = Instant::now();
    // the kernel publishes the arguments slightly after the program starts
    while cmdline.is_empty() && t.elapsed() < Duration::from_secs(3) {
        cmdline = std::fs::read(format!("/proc/{pid}/cmdline")).unwrap_or_default();
    }
    let mut want = exe.as_os_str().as_encoded_bytes().to_vec();
    want.push(0);
    for a in &s.args {
        want.extend(a.as_bytes());
        want.push(0);
    }
    let cwd = std::fs::read_link(format!("/proc/{pid}/cwd")).unwrap_or_default();
    if cmdline != want || cwd != dir {
        let _ = finish(w, sim);
        return Some((
            "process",
            format!("runs {:?} in {cwd:?} instead of {:?} in {dir:?}", String::from_utf8_lossy(&cmdline), String::from_utf8_lossy(&want)),
        ));
    }
    if let Some(e) = probe(w, sim.connection_mut()) {
        let _ = finish(w, sim);
        return Some(("channels", e));
    }
    let stop_code = 21u32.to_be_bytes().to_vec();
    let mut told = [false; 2];
    let mut clean = true; // nothing was ended, stopped or broken
    let mut killed = false;
    for &a in acts {
        w.begin();
        w.faults_on = faults && a != Act::Use;
        if a == Act::Use {
            if clean && !killed {
                if let Some(e) = probe(w, sim.connection_mut()) {
                    let _ = finish(w, sim);
                    return Some(("channels", e));
                }
            }
            continue;
        }
        let r = sys::inside(w, || {
            mc::guard(|| match a {
                Act::Stop => sim.stop(),
                Act::StopNicely => sim.stop_nicely(),
                Act::EndSession => sim.connection_mut().session_end(),
                Act::Use => unreachable!(),
            })
        });
        w.faults_on = false;
        cov.evaluations += 1;
        for c in [TPM, PLAT] {
            told[c] |= w.chans[c].messages.contains(&stop_code);
        }
        let r = match r {
            Err(p) => {
                let _ = finish(w, sim);
                return Some(("panic", format!("{a:?} panics: {p}")));
            }
            Ok(r) => r,
        };
        match a {
            Act::Stop => {
                if r.is_ok() && !stopped_soon(pid) {
                    let _ = finish(w, sim);
                    return Some(("stop", "stop succeeds but the process is still running".into()));
                }
                if r.is_err() && running(pid) {
                    let _ = finish(w, sim);
                    return Some(("stop", format!("stop fails: {r:?}")));
                }
                killed = true;
            }
            Act::StopNicely => {
                let delivered = told == [true; 2];
                if r.is_ok() && !delivered {
                    let _ = finish(w, sim);
                    return Some(("stop-nicely", "stop_nicely succeeds but a channel was not told to stop".into()));
                }
                if r.is_err() && w.faults.none() && clean {
                    let _ = finish(w, sim);
                    return Some(("stop-nicely", format!("stop_nicely fails without reason: {r:?}")));
                }
                clean = false;
            }
            _ => clean = false,
        }
    }
    w.begin();
    w.faults_on = faults;
    let r = finish(w, sim);
    w.faults_on = false;
    cov.evaluations += 1;
    if let Err(p) = r {
        return Some(("panic", format!("drop panics: {p}")));
    }
    for c in [TPM, PLAT] {
        let got = &w.chans[c].messages;
        told[c] |= got.contains(&stop_code);
        if clean && w.faults.none() && *got != [stop_code.clone()] {
            return Some((
                "drop-tells",
                format!("drop: channel {c} received {:?} instead of the stop code", got.iter().map(|m| mc::hex(m)).collect::<Vec<_>>()),
            ));
        }
    }
    if told != [true; 2] && !stopped_soon(pid) {
        return Some(("drop-leaks", format!("drop: the stop code reached {told:?} of the channels, but the process is still running")));
    }
    None
}

fn managing(check: &Check) {
    let exe = std::env::current_exe().expect("own path");
    unsafe { std::env::set_var("VERIF_CHILD", "1") };
    let plain = Start { args: vec![], tpm_at: 0, plat_at: 0, created_at: NEVER, tpm_file: "2321", plat_file: "2322" };
    // (start, connect errnos, acts, faults, budget)
    let mut items: Vec<(Start, usize, Vec<Act>, bool, u32)> = vec![];
    let at = [0usize, 1, 2, 3, 4, 5, 6, NEVER];
    for a in at {
        for b in at {
            items.push((Start { tpm_at: a, plat_at: b, ..plain.clone() }, 0, vec![], false, 0));
            if a <= 3 && b <= 3 {
                items.push((Start { tpm_at: a, plat_at: b, ..plain.clone() }, 1, vec![], false, 0));
            }
        }
    }
    // the files exist before the ports are written to them
    for c in 0..3 {
        for a in c..5 {
            for b in c..5 {
                items.push((Start { tpm_at: a, plat_at: b, created_at: c, ..plain.clone() }, 0, vec![], false, 0));
            }
        }
    }
    for args in [vec!["a"], vec!["", "--tls"], vec!["-x", "b c", ""], vec!["--port=1", "2", "3", "4"]] {
        items.push((Start { args, ..plain.clone() }, 0, vec![], false, 0));
    }
    let files = ["2321", " 4000\n", "0", "65535", "12\r\n", "00080", "65536", "99999999999", "", "\n", "abc", "-1", "12 34", "0x10", "1.5", "80a"];
    for a in files {
        for b in ["2322", "65536", "", "x"].iter().chain(files.iter()) {
            if parse(a).is_some() && parse(a) == parse(b) {
                continue; // one port cannot serve both channels
            }
            for when in [0, 2] {
                items.push((Start { tpm_file: a, plat_file: b, tpm_at: when, plat_at: when, ..plain.clone() }, 0, vec![], false, 0));
            }
        }
    }
    let acts = [Act::Stop, Act::StopNicely, Act::Use, Act::EndSession];
    let mut hist: Vec<Vec<Act>> = vec![vec![]];
    for a in acts {
        hist.push(vec![a]);
        for b in acts {
            hist.push(vec![a, b]);
            {
                for c in acts {
                    hist.push(vec![a, b, c]);
                }
            }
        }
    }
    let budget = check.tier(3, 4);
    for h in &hist {
        items.push((plain.clone(), 0, h.clone(), true, budget));
    }
    check.bound(format!(
        "managed simulator: {} starts (port files appearing after 0-6 retries or never, at once or first empty, {} file contents, arguments, every outcome of every connect)",
        items.len() - hist.len(),
        files.len()
    ));
    check.bound(format!("{} histories of stop, stop_nicely, use and session end before the drop, with up to {budget} network faults", hist.len()));
    check.assume("processes are observed through /proc; a killed process is given 3 s to disappear");
    check.par(items, |cov, (s, errnos, acts, faults, budget)| {
        if check.failed_unknown() >= 20 {
            return;
        }
        let dir = Scratch::new();
        let what = format!("{s:?}, connects {errnos}, then {acts:?} and drop, faults {budget}");
        let salt = mc::hash_str(&what);
        cov.state(salt);
        mc::label(&what);
        cov.sample(&format!("life {}", salt % 6), || what.clone());
        mc::explore(cov, salt, budget, |ch, cov| {
            let mut w = World::new(ch);
            w.logging = true;
            w.transient = false;
            let bad = life(&mut w, &dir.0, &exe, &s, errnos, &acts, faults, cov);
            reap();
            if let Some((k, e)) = bad {
                check.fail(&format!("simulator:{k}"), || format!("{what}: {e}\n    {}", w.log.join("\n    ")));
            }
            // every failing life may cost seconds of waiting
            check.failed_unknown() < 20
        });
    });
    // the process cannot be started at all
    check.run(|cov| {
        let dir = Scratch::new();
        let file = dir.0.join("not-executable");
        std::fs::write(&file, "x").unwrap();
        let cases: Vec<(&str, PathBuf, PathBuf)> = vec![
            ("missing program", dir.0.join("missing"), dir.0.clone()),
            ("program that is not executable", file.clone(), dir.0.clone()),
            ("program that is a directory", dir.0.clone(), dir.0.clone()),
            ("missing directory", exe.clone(), dir.0.join("missing-dir")),
            ("directory that is a file", exe.clone(), file.clone()),
        ];
        for (what, bin, cwd) in cases {
            cov.state(mc::hash_str(what));
            mc::explore(cov, mc::hash_str(what), 0, |ch, cov| {
                let mut w = World::new(ch);
                prepare(&mut w, &dir.0, &plain);
                let r = sys::inside(&mut w, || mc::guard(|| TcpSimulator::new(&bin, &["x"], &cwd, "127.0.0.1")));
                cov.evaluations += 1;
                let kids = children();
                match r {
                    Err(p) => check.fail("simulator:panic", || format!("{what}: panics: {p}")),
                    Ok(Ok(sim)) => {
                        check.fail("simulator:start-succeeds", || format!("{what}: starting succeeds"));
                        let _ = sys::inside(&mut w, || mc::guard(|| drop(sim)));
                    }
                    Ok(Err(_)) if kids.iter().any(|&k| !stopped_soon(k)) => {
                        check.fail("simulator:leaked-process", || format!("{what}: a process is running"))
                    }
                    Ok(Err(_)) if !w.connects.is_empty() => {
                        check.fail("simulator:attempts", || format!("{what}: connects without a simulator"))
                    }
                    _ => {}
                }
                reap();
                true
            });
        }
    });
    unsafe { std::env::remove_var("VERIF_CHILD") };
}

pub fn check(check: &Check) {
    connecting(check);
    managing(check);
}
