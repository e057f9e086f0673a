//! C24: the client talking to the TPM implementation over faithful transports.
use crate::env::*;
use crate::judge::{Spec, spec};
use mc::{Check, Cov, explore, hex, mix};
use tpm2_client::connection::Connection;
use tpm2_client::sessions::PasswordSession;
use tpm2_client::{run_command, run_command_with_handles};
use tpm2_impl::TpmContext;
use tpm2_rs_base::Tpm2bSimple;
use tpm2_rs_base::commands::{GetCapabilityCmd, GetRandomCmd, GetRandomResp, PcrReadCmd, StartupCmd, TpmCommand};
use tpm2_rs_base::constants::{TpmCap, TpmCc, TpmPt, TpmSu};
use tpm2_rs_base::errors::TssError;
use tpm2_rs_base::marshal::{Marshalable, UnmarshalBuf};

/// A transport that carries messages faithfully, in one of the two ways the TPM can be driven.
struct Link {
    tpm: TpmContext<Deps>,
    in_place: bool,
    /// Usable size of the transport's response buffer.
    room: usize,
    last: Option<(Vec<u8>, Vec<u8>)>,
    sent: usize,
}
impl Connection for Link {
    type Error = TssError;
    fn transact<'a>(&mut self, cmd: &[u8], rsp: &'a mut [u8]) -> Result<&'a mut [u8], TssError> {
        self.sent += 1;
        let room = self.room.min(rsp.len());
        let n = if self.in_place {
            let mut buf = vec![0xB7; room.max(cmd.len())];
            buf[..cmd.len()].copy_from_slice(cmd);
            let n = self.tpm.execute_command_in_place(&mut buf, cmd.len());
            rsp[..n].copy_from_slice(&buf[..n]);
            n
        } else {
            self.tpm.execute_command_separate(cmd, &mut rsp[..room])
        };
        self.last = Some((cmd.to_vec(), rsp[..n].to_vec()));
        Ok(&mut rsp[..n])
    }
}

macro_rules! fake_cmd {
    ($name:ident, $code:expr) => {
        struct $name(Vec<u8>);
        impl Marshalable for $name {
            fn try_unmarshal(_: &mut UnmarshalBuf) -> tpm2_rs_base::marshal::Result<Self> {
                Ok($name(vec![]))
            }
            fn try_marshal(&self, buffer: &mut [u8]) -> tpm2_rs_base::marshal::Result<usize> {
                match buffer.get_mut(..self.0.len()) {
                    Some(b) => {
                        b.copy_from_slice(&self.0);
                        Ok(self.0.len())
                    }
                    None => Err(tpm2_rs_base::marshal::Error::UnexpectedEndOfBuffer),
                }
            }
        }
        impl TpmCommand for $name {
            const CMD_CODE: TpmCc = $code;
            type Handles = ();
            type RespT = ();
            type RespHandles = ();
        }
    };
}
fake_cmd!(VendorCmd, TpmCc(0x2000_0001));
fake_cmd!(ReservedCmd, TpmCc(0));
fake_cmd!(NearMissCmd, TpmCc(0x0001_017B));
fake_cmd!(ShortGetRandom, TpmCc::GetRandom);

/// Ok(true): the client returned the TPM's output; Ok(false): success of a command without output.
type Got = Result<Vec<u8>, u32>;

fn run(check: &Check, cov: &mut Cov, link: &mut Link, what: &Cmd, hist: &dyn Fn() -> String) {
    link.last = None;
    let before = link.sent;
    let env_before = env(|e| {
        e.demand |= what.demand;
        e.fail_output = what.fail;
        e.log.clear();
        e.clone()
    });
    cov.evaluations += 1;
    let enc = |r: Result<GetRandomResp, TssError>| -> Got { r.map(|r| r.random_bytes.get_buffer().to_vec()).map_err(|e| e.get()) };
    let unit = |r: Result<(), TssError>| -> Got { r.map(|_| vec![]).map_err(|e| e.get()) };
    let got = mc::guard(|| match what.kind {
        Kind::Random(n) => match what.sessions {
            0 => enc(run_command(&GetRandomCmd { bytes_requested: n }, link)),
            1 => enc(run_command_with_handles(&GetRandomCmd { bytes_requested: n }, (), pw(0), link).map(|r| r.0)),
            2 => enc(run_command_with_handles(&GetRandomCmd { bytes_requested: n }, (), (pw(1), pw(2)), link).map(|r| r.0)),
            _ => enc(run_command_with_handles(&GetRandomCmd { bytes_requested: n }, (), (pw(1), pw(0), pw(64)), link).map(|r| r.0)),
        },
        Kind::Startup(t) => match what.sessions {
            0 => unit(run_command(&StartupCmd { startup_type: t }, link)),
            _ => unit(run_command_with_handles(&StartupCmd { startup_type: t }, (), pw(3), link).map(|r| r.0)),
        },
        Kind::Capability(c, p, n) => {
            let cmd = GetCapabilityCmd { capability: c, property: p, property_count: n };
            tpm2_client::get_capability(link, &cmd).map(|_| vec![]).map_err(|e| e.get())
        }
        Kind::PcrRead => {
            let c = PcrReadCmd::try_unmarshal(&mut UnmarshalBuf::new(&[0, 0, 0, 1, 0, 11, 3, 1, 2, 3])).unwrap_or_else(|_| panic!("harness"));
            run_command(&c, link).map(|_| vec![]).map_err(|e| e.get())
        }
        Kind::Vendor(n) => unit(run_command(&VendorCmd(vec![3; n]), link)),
        Kind::Reserved(n) => unit(run_command(&ReservedCmd(vec![3; n]), link)),
        Kind::NearMiss(n) => unit(run_command(&NearMissCmd(vec![0; n]), link)),
        Kind::ShortRandom(n) => unit(run_command(&ShortGetRandom(vec![0; n]), link)),
    });
    let show = || format!("{what:?} over {} with room {} -> {:x?}\nlast exchange {}\n{}", if link.in_place { "in-place" } else { "separate" }, link.room, got, last(link), hist());
    let got = match &got {
        Err(p) => return check.fail("panic", || format!("{p}\n{}", show())),
        Ok(g) => g.clone(),
    };
    let Some((cmd, rsp)) = &link.last else {
        return check.fail("not-sent", || show());
    };
    if link.sent != before + 1 {
        check.fail("sent-twice", || show());
    }
    let room = if link.in_place { link.room.min(4096).max(cmd.len()) } else { link.room.min(4096) };
    let (sp, _) = spec(cmd, room);
    let faulty = what.fail.is_some();
    let expect: Got = match sp {
        Spec::Refuse(c) => Err(c),
        Spec::Random(_) if faulty => Err(0x101),
        Spec::Random(n) => {
            let at = (env_before.pos % TABLE as u64) as usize;
            Ok(stream()[at..at + n].to_vec())
        }
    };
    if room < 10 {
        // no response can be carried: nothing is claimed beyond an error
        if got.is_ok() {
            check.fail("success-without-response", || show());
        }
        return;
    }
    // the model's view of the command the client meant
    let meant = match what.kind {
        Kind::Random(n) => Some(n as usize),
        _ => None,
    };
    match (&expect, meant) {
        (Err(c), None) => {
            if got != Err(*c) {
                check.fail("wrong-error", || format!("expected the TPM's code {c:#x}\n{}", show()));
            }
        }
        (Err(c), Some(_)) if what.sessions == 0 => {
            if got != Err(*c) {
                check.fail("wrong-error", || format!("expected the TPM's code {c:#x}\n{}", show()));
            }
        }
        (_, Some(n)) if what.sessions > 0 => {
            // what an agreeing pair does: the requested bytes with accepted sessions, or the TPM's refusal
            let rc = rsp.get(6..10).map(|b| u32::from_be_bytes([b[0], b[1], b[2], b[3]]));
            match (&got, rc) {
                (Err(e), Some(c)) if c != 0 && *e == c => {}
                (Ok(v), Some(0)) if v.len() == n.min(64) && env_before.pos + n as u64 == env(|e| e.pos) => {}
                _ => {
                    // known: the TPM ignores the authorization area and takes its size's upper half as the
                    // requested count, which is 0, and answers without sessions
                    let known = rsp[..] == [0x80, 1, 0, 0, 0, 10, 0, 0, 0, 0] && env(|e| e.pos) == env_before.pos && got.is_err();
                    check.fail(if known { "getrandom-with-sessions" } else { "disagreement" }, || show());
                }
            }
        }
        (Ok(bytes), _) => {
            let n = bytes.len();
            // agreement: the decoded digest is the TPM's output
            if got.as_ref().ok() == Some(bytes) {
                return;
            }
            // known: the TPM's answer is the header and the bare bytes, without their size
            let mut raw = vec![0x80, 1];
            raw.extend_from_slice(&(10 + n as u32).to_be_bytes());
            raw.extend_from_slice(&[0; 4]);
            raw.extend_from_slice(bytes);
            let misread: Option<Vec<u8>> = (n >= 2)
                .then(|| (u16::from_be_bytes([bytes[0], bytes[1]]) as usize, &bytes[2..]))
                .filter(|(s, rest)| *s == rest.len() && *s <= 64)
                .map(|(_, rest)| rest.to_vec());
            let known = *rsp == raw && got.clone().ok() == misread;
            check.fail(if known { "getrandom-without-size" } else { "disagreement" }, || format!("TPM output {}\n{}", hex(bytes), show()));
        }
        (Err(c), _) => {
            if got != Err(*c) {
                check.fail("wrong-error", || show());
            }
        }
    }
    cov.sample(&format!("{:?}", what.kind).chars().take(8).collect::<String>(), show);
}
fn last(l: &Link) -> String {
    match &l.last {
        None => "none".into(),
        Some((c, r)) => format!("command {} response {}", hex(c), hex(r)),
    }
}
fn pw(n: usize) -> PasswordSession {
    PasswordSession::new(&vec![0x61; n]).unwrap_or_else(|_| panic!("harness"))
}

#[derive(Clone, Copy, Debug)]
enum Kind {
    Random(u16),
    Startup(TpmSu),
    Capability(TpmCap, TpmPt, u32),
    PcrRead,
    Vendor(usize),
    Reserved(usize),
    NearMiss(usize),
    ShortRandom(usize),
}
#[derive(Clone, Copy, Debug)]
struct Cmd {
    kind: Kind,
    sessions: usize,
    demand: bool,
    fail: Option<u8>,
}

fn link(in_place: bool, room: usize) -> Link {
    reset();
    Link { tpm: TpmContext::new().unwrap(), in_place, room, last: None, sent: 0 }
}

pub fn run_(check: &Check) {
    check.bound("GetRandom with all 65536 counts, both processing modes, response rooms of 4096 and 64 bytes");
    check.par((0..256u32).collect(), |cov, k| {
        for in_place in [false, true] {
            for room in [4096, 64] {
                let mut l = link(in_place, room);
                for n in k * 256..k * 256 + 256 {
                    let c = Cmd { kind: Kind::Random(n as u16), sessions: 0, demand: n % 7 == 0, fail: None };
                    run(check, cov, &mut l, &c, &String::new);
                    cov.traces += 1;
                    cov.transitions += 1;
                    cov.state(mix(n as u64, in_place as u64 * 2 + (room == 64) as u64));
                }
            }
        }
    });
    check.bound("counts 0..=300 with 5 degenerate contents of the generator's stream");
    check.par((1..FLAVORS).flat_map(|k| [(k, false), (k, true)]).collect(), |cov, (k, in_place)| {
        with_flavor(k, || {
            let mut l = link(in_place, 4096);
            for n in 0..=300u16 {
                let c = Cmd { kind: Kind::Random(n), sessions: 0, demand: n % 5 == 0, fail: None };
                run(check, cov, &mut l, &c, &|| format!("contents {k}"));
                cov.traces += 1;
                cov.transitions += 1;
                cov.state(mix(n as u64, 100 + k as u64 * 2 + in_place as u64));
            }
        })
    });
    let rooms = check.tier(4100usize, 9000);
    check.bound(format!("every response room 0..={rooms} for ten commands"));
    let mut alpha = vec![];
    for n in [0u16, 1, 2, 10, 32, 64, 65, 4086, 4087] {
        alpha.push(Cmd { kind: Kind::Random(n), sessions: 0, demand: false, fail: None });
    }
    alpha.push(Cmd { kind: Kind::Random(16), sessions: 0, demand: true, fail: None });
    alpha.push(Cmd { kind: Kind::Random(16), sessions: 0, demand: false, fail: Some(4) });
    for s in 1..=3 {
        alpha.push(Cmd { kind: Kind::Random(16), sessions: s, demand: false, fail: None });
    }
    for kind in [
        Kind::Startup(TpmSu::Clear),
        Kind::Startup(TpmSu::State),
        Kind::Capability(TpmCap::TPMProperties, TpmPt(0x100), 1),
        Kind::Capability(TpmCap::Algs, TpmPt(0), u32::MAX),
        Kind::PcrRead,
        Kind::Vendor(0),
        Kind::Vendor(4086),
        Kind::Reserved(2),
        Kind::NearMiss(2),
        Kind::ShortRandom(0),
        Kind::ShortRandom(1),
    ] {
        alpha.push(Cmd { kind, sessions: 0, demand: false, fail: None });
    }
    alpha.push(Cmd { kind: Kind::Startup(TpmSu::Clear), sessions: 1, demand: false, fail: None });
    check.par((0..=rooms).collect(), |cov, room| {
        for in_place in [false, true] {
            for c in &alpha {
                let mut l = link(in_place, room);
                run(check, cov, &mut l, c, &String::new);
                cov.traces += 1;
                cov.transitions += 1;
            }
        }
        cov.state(mix(room as u64, 3));
    });
    let depth = check.tier(5, 6);
    check.bound(format!("all histories of {depth} of {} client commands on one TPM, both processing modes", alpha.len()));
    let items: Vec<(usize, bool)> = (0..alpha.len()).flat_map(|i| [(i, false), (i, true)]).collect();
    check.par(items, |cov, (first, in_place)| {
        explore(cov, mix(24, (first * 2 + in_place as usize) as u64), 0, |ch, cov| {
            let mut l = link(in_place, 4096);
            let mut h = vec![first];
            for d in 0..depth {
                let i = if d == 0 { first } else { ch.choose(alpha.len()) };
                if d > 0 {
                    h.push(i);
                }
                run(check, cov, &mut l, &alpha[i], &|| format!("history {h:?}"));
            }
            check.failed_unknown() < 2000
        });
    });
    check.bound("every pair of those commands alternating 600 times, and each alone 70000 times (three of them)");
    let mut items: Vec<(usize, usize, usize)> = (0..alpha.len()).flat_map(|a| (0..alpha.len()).map(move |b| (a, b, 600))).collect();
    items.extend([(3, 3, 70_000), (3, 14, 70_000), (3, 9, 70_000)]);
    items.sort_by_key(|i| std::cmp::Reverse(i.2));
    check.par(items, |cov, (a, b, n)| {
        for in_place in [false, true] {
            let mut l = link(in_place, 4096);
            for k in 0..n {
                run(check, cov, &mut l, &alpha[if k % 2 == 0 { a } else { b }], &|| format!("commands {a} and {b} alternating, number {k}"));
                cov.transitions += 1;
            }
            cov.traces += 1;
        }
    });
}
pub use run_ as run_check;
