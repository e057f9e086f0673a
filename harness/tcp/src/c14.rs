//! C14: histories of simulator control operations on both channels.

use crate::c13::open;
use crate::sys;
use crate::world::*;
use mc::{Check, Chooser, Cov};
use tpm2_client::connection::{SimulatorPlatformSignal as Sig, TcpConnection};
use tpm2_client::connection::Connection;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    Transact(usize, usize),
    Locality(u8),
    Hcrtm(usize),
    /// hash data of that many equal bytes
    HcrtmOf(usize, u8),
    Handshake(u32),
    AltResult(u32),
    Signal(usize),
    Reinit,
    FailureMode,
    Sizes,
    Act(u32),
    FwHash(u32),
    FwSvn(u32),
    SessionEnd,
    Stop,
}
use Op::*;
const SIGNALS: [(Sig, u32); 12] = [
    (Sig::PowerOn, 1),
    (Sig::PowerOff, 2),
    (Sig::PhysicalPresenceOn, 3),
    (Sig::PhysicalPresenceOff, 4),
    (Sig::CancelOn, 9),
    (Sig::CancelOff, 10),
    (Sig::NvOn, 11),
    (Sig::NvOff, 12),
    (Sig::KeyCacheOn, 13),
    (Sig::KeyCacheOff, 14),
    (Sig::Reset, 17),
    (Sig::Restart, 18),
];

#[derive(Clone, PartialEq, Debug)]
enum Val {
    Unit,
    Words(Vec<u32>),
    Bytes(Vec<u8>),
}
fn words(codes: &[u32]) -> Vec<u8> {
    codes.iter().flat_map(|c| c.to_be_bytes()).collect()
}

/// One stage of an operation: a message and its reply without the terminator.
struct Stage {
    message: Vec<u8>,
    reply: Vec<u8>,
}
fn data(n: usize, salt: usize) -> Vec<u8> {
    (0..n).map(|i| (salt * 0x1d + i * 3 + 1) as u8).collect()
}
fn hashed(op: Op, i: usize) -> Vec<u8> {
    match op {
        Hcrtm(n) => data(n, i + 3),
        HcrtmOf(n, v) => vec![v; n],
        _ => vec![],
    }
}
/// (channel, stages, value) of an operation; `v` varies the values in the reply.
fn spec(op: Op, locality: u8, i: usize, v: [u32; 4]) -> (usize, Vec<Stage>, Val) {
    let one = |m: Vec<u8>, r: Vec<u8>| vec![Stage { message: m, reply: r }];
    match op {
        Transact(c, p) => {
            let cmd = data(c, i);
            let mut m = words(&[8]);
            m.push(locality);
            m.extend(words(&[c as u32]));
            m.extend(&cmd);
            let payload = data(p, i + 7);
            let mut r = words(&[p as u32]);
            r.extend(&payload);
            (TPM, one(m, r), Val::Bytes(payload))
        }
        Hcrtm(_) | HcrtmOf(..) => {
            let d = hashed(op, i);
            let mut m = words(&[6, d.len() as u32]);
            m.extend(d);
            let s = [words(&[5]), m, words(&[7])];
            (TPM, s.into_iter().map(|message| Stage { message, reply: vec![] }).collect(), Val::Unit)
        }
        Handshake(c) => (TPM, one(words(&[15, c]), words(&v[..2])), Val::Words(v[..2].to_vec())),
        AltResult(r) => (TPM, one(words(&[16, r]), vec![]), Val::Unit),
        Signal(s) => (PLAT, one(words(&[SIGNALS[s].1]), vec![]), Val::Unit),
        Reinit => {
            let s = [12, 2, 1, 11].map(|c| Stage { message: words(&[c]), reply: vec![] });
            (PLAT, s.into_iter().collect(), Val::Unit)
        }
        FailureMode => (PLAT, one(words(&[30]), vec![]), Val::Unit),
        Sizes => {
            let mut r = words(&[16]);
            r.extend(v[0].to_ne_bytes());
            r.extend(v[1].to_be_bytes());
            r.extend(v[2].to_ne_bytes());
            r.extend(v[3].to_be_bytes());
            (PLAT, one(words(&[25]), r), Val::Words(v.to_vec()))
        }
        Act(h) => (PLAT, one(words(&[26, h]), words(&v[..1])), Val::Words(v[..1].to_vec())),
        FwHash(h) => (PLAT, one(words(&[35, h]), vec![]), Val::Unit),
        FwSvn(s) => (PLAT, one(words(&[36, s]), vec![]), Val::Unit),
        Locality(_) | SessionEnd | Stop => (TPM, vec![], Val::Unit),
    }
}
fn call(conn: &mut TcpConnection, op: Op, i: usize) -> std::io::Result<Val> {
    let unit = |r: std::io::Result<()>| r.map(|()| Val::Unit);
    match op {
        Transact(c, p) => {
            let mut buf = vec![0xEE; p + 9];
            conn.transact(&data(c, i), &mut buf).map(|s| Val::Bytes(s.to_vec()))
        }
        Locality(l) => {
            conn.set_locality(l);
            Ok(Val::Unit)
        }
        Hcrtm(_) | HcrtmOf(..) => unit(conn.hcrtm_sequence(&hashed(op, i))),
        Handshake(v) => conn.remote_handshake(v).map(|r| Val::Words(vec![r.server_version(), r.endpoint_info()])),
        AltResult(r) => unit(conn.set_alternative_result(r)),
        Signal(s) => unit(conn.platform_signal(SIGNALS[s].0)),
        Reinit => unit(conn.reinit()),
        FailureMode => unit(conn.test_failure_mode()),
        Sizes => conn.get_command_response_sizes().map(|r| {
            Val::Words(vec![r.largest_command_size(), r.largest_command(), r.largest_response_size(), r.largest_response()])
        }),
        Act(h) => conn.act_get_signaled(h).map(|s| Val::Words(vec![s])),
        FwHash(h) => unit(conn.set_firmware_hash(h)),
        FwSvn(s) => unit(conn.set_firmware_svn(s)),
        SessionEnd => unit(conn.session_end()),
        Stop => unit(conn.stop_simulator()),
    }
}

#[derive(Clone, Copy)]
struct Mode {
    split: Split,
    faults: bool,
    splits_on: bool,
    values: [u32; 4],
}
const TERMS: [u32; 6] = [0, 1, 0x0100, 0x0100_0000, 0x0001_0000, 0xffff_ffff];
const LENGTHS: [u32; 12] = [16, 0, 12, 15, 17, 20, 24, 8, 0x110, 0x1_0010, 0x1000_0000, 0xffff_fff0];

fn run(check: &Check, cov: &mut Cov, ch: &mut Chooser, ops: &[Op], m: Mode) {
    let mut w = World::new(ch);
    if let Some((key, what)) = body(&mut w, ops, m, cov) {
        let mut again = Chooser::fixed(&ch.path());
        let mut w = World::new(&mut again);
        w.logging = true;
        let _ = body(&mut w, ops, m, &mut Cov::default());
        let log = w.log[w.log.len().saturating_sub(200)..].join("\n    ");
        let shown = &ops[..ops.len().min(9)];
        check.fail(&key, || format!("{what}\n  history: {shown:?}\n  reads: {:?}, reply values {:x?}\n    {log}", m.split, m.values));
    }
}
fn name(op: Op) -> String {
    let s = format!("{op:?}");
    s.split('(').next().unwrap().to_string()
}

fn body(w: &mut World, ops: &[Op], m: Mode, cov: &mut Cov) -> Option<(String, String)> {
    w.split = m.split;
    w.splits_on = m.splits_on;
    w.faults_on = false;
    let mut conn = open(w);
    let r = history(w, ops, m, cov, &mut conn, &mut Past::default());
    w.faults_on = false;
    sys::inside(w, || drop(conn));
    r
}
/// What the model remembers of a connection.
#[derive(Default)]
struct Past {
    operations: usize,
    locality: u8,
    ended: bool,
}

fn history(
    w: &mut World,
    ops: &[Op],
    m: Mode,
    cov: &mut Cov,
    conn: &mut TcpConnection,
    past: &mut Past,
) -> Option<(String, String)> {
    for &op in ops {
        let i = past.operations;
        past.operations += 1;
        let (locality, ended) = (past.locality, past.ended);
        let v = m.values.map(|x| x.wrapping_add(0x0101_0101u32.wrapping_mul(i as u32)));
        let (chan, stages, value) = spec(op, locality, i, v);
        w.begin();
        for c in &mut w.chans {
            c.replies.clear();
        }
        // the server's replies
        let mut expected_messages: Vec<Vec<u8>> = vec![];
        let mut bad_reply = false;
        let mut bad_length = false;
        for s in stages {
            let mut reply = s.reply;
            if m.faults && op == Sizes && !ended {
                let l = *w.ch().pick_dev(&LENGTHS);
                if l != 16 {
                    bad_length = true;
                    reply[..4].copy_from_slice(&l.to_be_bytes());
                    // zeroes, so that a client that goes on reading finds something like a terminator
                    reply.truncate(4);
                    reply.resize(4 + (l as usize).min(64), 0);
                }
            }
            let mut term = 0;
            if m.faults && !bad_reply && !bad_length && !ended {
                term = *w.ch().pick_dev(&TERMS);
            }
            reply.extend(term.to_be_bytes());
            w.chans[chan].replies.push_back(reply);
            if !bad_reply {
                expected_messages.push(s.message);
            }
            bad_reply |= term != 0;
        }
        w.faults_on = m.faults;
        let r = sys::inside(w, || mc::guard(|| call(conn, op, i).map_err(|e| e.to_string())));
        w.faults_on = false;
        cov.evaluations += 1;
        let f = w.faults.clone();
        let at = format!("operation {i} ({op:?})");
        let key = |k: &str| format!("{}:{k}", name(op));
        let r = match r {
            Ok(r) => r,
            Err(p) => return Some((key("panic"), format!("{at} panics: {p}"))),
        };
        if f.blocked {
            return Some((key("blocks"), format!("{at} waits for bytes that the server never sends")));
        }
        if let Locality(l) = op {
            past.locality = l;
            if !f.none() || w.chans.iter().any(|c| !c.messages.is_empty() || !c.partial.is_empty()) {
                return Some((key("sends"), format!("{at} uses the network")));
            }
            continue;
        }
        if ended {
            // both channels are shut down: nothing can be sent any more
            if r.is_ok() {
                return Some((key("ok-after-end"), format!("{at} succeeds after the session was ended")));
            }
            if w.chans.iter().any(|c| !c.messages.is_empty() || !c.partial.is_empty()) {
                return Some((key("sends-after-end"), format!("{at} sends after the session was ended")));
            }
            continue;
        }
        if f.read || f.write {
            if r.is_ok() {
                return Some((key("ok-after-failure"), format!("{at} succeeds although the connection failed ({f:?})")));
            }
            // no message was sent that its predecessor's failure forbids
            if !(op == SessionEnd || op == Stop) {
                let got = &w.chans[chan].messages;
                if got.len() > expected_messages.len() || *got != expected_messages[..got.len()] {
                    return Some((key("messages"), format!("{at}: wrong messages {} before the failure", show(got))));
                }
                if !w.chans[1 - chan].messages.is_empty() || !w.chans[1 - chan].partial.is_empty() {
                    return Some((key("wrong-channel"), format!("{at} writes on the other channel")));
                }
            }
            return None;
        }
        if (f.short || f.intr || f.shutdown) && r.is_err() {
            return None;
        }
        if op == SessionEnd || op == Stop {
            let code = words(&[if op == SessionEnd { 20 } else { 21 }]);
            if let Err(e) = &r {
                return Some((key("fails"), format!("{at} fails without reason: {e}")));
            }
            for c in [TPM, PLAT] {
                let k = &w.chans[c];
                if k.messages != [code.clone()] || !k.partial.is_empty() {
                    return Some((
                        key("messages"),
                        format!("{at}: channel {c} received {} + {} instead of {}", show(&k.messages), mc::hex(&k.partial), mc::hex(&code)),
                    ));
                }
                if !f.shutdown && !(k.shut_rd && k.shut_wr) {
                    return Some((key("shutdown"), format!("{at}: channel {c} is not shut down in both directions")));
                }
            }
            if f.shutdown {
                return None;
            }
            past.ended = true;
            continue;
        }
        let (c, o) = (&w.chans[chan], &w.chans[1 - chan]);
        if !o.messages.is_empty() || !o.partial.is_empty() {
            return Some((key("wrong-channel"), format!("{at} writes on the other channel: {} + {}", show(&o.messages), mc::hex(&o.partial))));
        }
        if c.messages != expected_messages || !c.partial.is_empty() {
            return Some((
                key("messages"),
                format!("{at}: the server received {} + {} instead of {}", show(&c.messages), mc::hex(&c.partial), show(&expected_messages)),
            ));
        }
        match r {
            Ok(v) if bad_reply || bad_length => {
                return Some((
                    key(if bad_length { "length" } else { "terminator" }),
                    format!("{at} returns {v:x?} in spite of a wrong {}", if bad_length { "length" } else { "terminator" }),
                ));
            }
            Ok(v) if v != value => return Some((key("value"), format!("{at} returns {v:x?} instead of {value:x?}"))),
            Err(e) if !bad_reply && !bad_length => return Some((key("fails"), format!("{at} fails without reason: {e}"))),
            _ => {}
        }
        if bad_length {
            return None; // the rest of such a reply is not specified
        }
    }
    None
}
fn show(m: &[Vec<u8>]) -> String {
    format!("{:?}", m.iter().map(|m| mc::hex(m)).collect::<Vec<_>>())
}

/// Two connections, each opened when it is first used, used alternately: neither may notice the other.
fn two(check: &Check, values: [u32; 4]) {
    let alphabet = [Transact(10, 5), Locality(2), Locality(5), Hcrtm(3), Signal(0), Sizes, Handshake(9), SessionEnd];
    let depth = check.tier(4, 5);
    check.bound(format!("all histories of {depth} operations over {} representatives, each on one of two connections", alphabet.len()));
    let m = Mode { split: Split::Whole, faults: false, splits_on: false, values };
    let items: Vec<(usize, Op)> = (0..2).flat_map(|k| alphabet.map(|o| (k, o))).collect();
    check.par(items, |cov, first| {
        let salt = mc::hash_str(&format!("two {first:?}"));
        mc::explore(cov, salt, 0, |ch, cov| {
            let mut h = vec![first];
            for _ in 1..depth {
                h.push((ch.choose(2), *ch.pick(&alphabet)));
            }
            let mut quiet = [Chooser::fixed(&[]), Chooser::fixed(&[])];
            let [c0, c1] = &mut quiet;
            let mut worlds = [World::new(c0), World::new(c1)];
            let mut conns = [None, None];
            let mut pasts = [Past::default(), Past::default()];
            let mut bad = None;
            for (n, &(k, op)) in h.iter().enumerate() {
                let w = &mut worlds[k];
                if conns[k].is_none() {
                    w.splits_on = false;
                    w.faults_on = false;
                    conns[k] = Some(open(w));
                }
                // different reply values on each connection
                let mut m = m;
                m.values = m.values.map(|v| v.wrapping_add(k as u32 * 0x0500_0050));
                bad = history(w, &[op], m, cov, conns[k].as_mut().unwrap(), &mut pasts[k]);
                let other = &worlds[1 - k];
                if bad.is_none() && conns[1 - k].is_some() && other.chans.iter().any(|c| !c.partial.is_empty()) {
                    bad = Some(("two:other".into(), format!("operation {n} writes on the other connection")));
                }
                if bad.is_some() {
                    break;
                }
            }
            for (w, c) in worlds.iter_mut().zip(conns) {
                sys::inside(w, || drop(c));
            }
            if let Some((key, what)) = bad {
                check.fail(&format!("two:{key}"), || format!("two connections, history {h:?}: {what}"));
            }
            cov.sample(&format!("two {}", salt % 2), || format!("two connections: {h:?}"));
            !check.failing()
        });
    });
}

pub fn check(check: &Check) {
    let values: [[u32; 4]; 4] = [
        [0x0102_0304, 0x1112_1314, 0x2122_2324, 0x3132_3334],
        [0, 0, 0, 0],
        [0xffff_ffff, 0x8000_0000, 0x7fff_ffff, 0x0000_0100],
        [0x8000_0001, 0x00ff_0000, 1, 0xff],
    ];
    two(check, values[0]);
    let params = [0u32, 1, 0x0102_0304, 0x8000_0000, 0xffff_ffff];
    let mut items: Vec<(Vec<Op>, Mode, u32)> = vec![];
    // A: single operations over all values
    let mut single: Vec<Op> = vec![Reinit, FailureMode, Sizes, SessionEnd, Stop];
    single.extend((0..12).map(Signal));
    for n in [0usize, 1, 20, 64, 300, 0x1_0203] {
        single.push(Hcrtm(n));
    }
    for p in params {
        single.extend([Handshake(p), AltResult(p), Act(p), FwHash(p), FwSvn(p)]);
    }
    single.extend([Transact(10, 5), Transact(12, 0)]);
    for &op in &single {
        for v in values {
            for split in [Split::Whole, Split::AtMost(1), Split::AtMost(3)] {
                items.push((vec![op], Mode { split, faults: true, splits_on: true, values: v }, check.tier(2, 3)));
                items.push((vec![op, Transact(10, 3), Signal(8)], Mode { split, faults: true, splits_on: true, values: v }, 1));
            }
        }
    }
    // every locality
    for l in 0..=255u8 {
        let m = Mode { split: Split::Whole, faults: false, splits_on: false, values: values[0] };
        items.push((vec![Locality(l), Transact(10, 4), Reinit, Transact(11, 0)], m, 0));
        items.push((vec![Transact(9, 1), Locality(l), Hcrtm(3), Transact(10, 4), Locality(!l), Sizes, Transact(11, 0)], m, 0));
    }
    let a = items.len();
    // every pattern of up to two bits and its complement as parameter and as reply
    let mut words: Vec<u32> = vec![];
    for i in 0..32 {
        for j in 0..=i {
            let w = 1u32 << i | 1 << j;
            words.extend([w, !w]);
        }
    }
    for &w in &words {
        let m = Mode { split: Split::Whole, faults: false, splits_on: false, values: [w, w.rotate_left(8), !w, w.swap_bytes()] };
        items.push((vec![Handshake(w), AltResult(w), Act(w), FwHash(w), FwSvn(w), Sizes, Transact(10, 4)], m, 0));
    }
    check.bound(format!("{} parameter and reply words (all patterns of up to two bits and their complements) for every operation that takes or returns one", words.len()));
    // hash data of every length
    let mut lens: Vec<usize> = (0..=check.tier(4200usize, 20_000)).collect();
    lens.extend([65535, 65536, 65537, 131_072]);
    check.bound(format!("hash sequences with data of every length 0..={} and up to 131072 bytes", check.tier(4200, 20_000)));
    for n in lens {
        let m = Mode { split: Split::Whole, faults: false, splits_on: false, values: values[0] };
        items.push((vec![Hcrtm(n), Transact(10, 4)], m, 0));
    }
    for v in 0..=255u8 {
        let m = Mode { split: Split::Whole, faults: false, splits_on: false, values: values[0] };
        items.push((vec![HcrtmOf(1, v), HcrtmOf(2, v), HcrtmOf(5, v), HcrtmOf(64, v), HcrtmOf(2000, v), Transact(10, 4)], m, 0));
    }
    check.bound("hash data of 1, 2, 5, 64 and 2000 bytes of every value");
    // B: all histories over one representative of each operation
    let alphabet: Vec<Op> = vec![
        Transact(10, 5),
        Transact(14, 0),
        Locality(3),
        Locality(0),
        Hcrtm(6),
        Handshake(0x0a0b_0c0d),
        AltResult(0x0101),
        Signal(0),
        Signal(7),
        Signal(10),
        Reinit,
        FailureMode,
        Sizes,
        Act(0x4000_0110),
        FwHash(0xdead_beef),
        FwSvn(0x0102_0304),
        SessionEnd,
        Stop,
    ];
    // (depth, deviations, reads and writes are cut)
    let plans: &[(usize, u32, bool)] =
        check.tier(&[(3, 1, true), (4, 1, false)], &[(2, 3, true), (3, 2, true), (4, 1, true), (4, 2, false), (5, 1, false)]);
    for &(depth, budget, splits_on) in plans {
        let mut stack: Vec<Vec<Op>> = vec![vec![]];
        let mut n_hist = 0;
        while let Some(h) = stack.pop() {
            if h.len() == depth {
                n_hist += 1;
                // all shorter histories are prefixes
                if depth < 4 {
                    items.push((h.clone(), Mode { split: Split::AtMost(2), faults: false, splits_on: false, values: values[0] }, 0));
                }
                items.push((h, Mode { split: Split::Whole, faults: true, splits_on, values: values[0] }, budget));
                continue;
            }
            for &o in &alphabet {
                let mut g = h.clone();
                g.push(o);
                stack.push(g);
            }
        }
        check.bound(format!(
            "all {n_hist} histories of {depth} operations over {} representatives with up to {budget} deviation(s){}",
            alphabet.len(),
            if splits_on { ", transfers cut anywhere" } else { "" }
        ));
    }
    // C: longer histories without faults
    let deep: Vec<Op> = vec![Transact(10, 5), Locality(2), Hcrtm(2), Handshake(7), Signal(0), Reinit, Sizes, Act(5)];
    let dd = check.tier(6, 7);
    let mut stack: Vec<Vec<Op>> = vec![vec![]];
    let mut n_deep = 0;
    while let Some(h) = stack.pop() {
        if h.len() == dd {
            n_deep += 1;
            items.push((h, Mode { split: Split::Whole, faults: false, splits_on: false, values: values[0] }, 0));
            continue;
        }
        for &o in &deep {
            let mut g = h.clone();
            g.push(o);
            stack.push(g);
        }
    }
    // D: long histories
    for &x in &alphabet {
        if matches!(x, SessionEnd | Stop) {
            continue;
        }
        let h: Vec<Op> = (0..600).map(|i| if i % 2 == 0 { x } else { [Transact(10, 5), Signal(7)][i / 2 % 2] }).collect();
        items.push((h, Mode { split: Split::Whole, faults: false, splits_on: false, values: values[0] }, 0));
    }
    check.bound("every operation alternating with commands and signals, 600 operations");
    check.bound(format!("{a} histories of a single operation over all parameter and reply values (up to {} deviations), of one operation followed by two others, and of all 256 localities", check.tier(2, 3)));
    check.bound(format!("all {n_deep} histories of {dd} operations over {} representatives without deviation", deep.len()));
    check.bound("a deviation is: a wrong terminator or length in a reply; a read or write cut, interrupted or failed; a failed shutdown");
    check.assume("the sizes in the answer to GetCommandResponseSizes are in the machine's byte order, the codes in network order (as the simulator writes them)");
    check.par(items, |cov, (ops, m, budget)| {
        let salt = mc::hash_str(&format!("{:?}{}{:?}{:?}{budget}{}", &ops[..ops.len().min(9)], ops.len(), m.split, m.values, m.splits_on));
        let shown = &ops[..ops.len().min(9)];
        mc::label(&format!("{shown:?} {:?}", m.split));
        cov.sample(&format!("history {}", salt % 6), || format!("{shown:?} {:?}, {budget} deviation(s)", m.split));
        cov.state(salt);
        mc::explore(cov, salt, budget, |ch, cov| {
            run(check, cov, ch, &ops, m);
            !check.failing()
        });
    });
}
