//! C13: transactions over TCP, for every way the network cuts and breaks the streams.

use crate::sys;
use crate::world::*;
use mc::{Check, Chooser, Cov};
use tpm2_client::connection::TcpConnection;
use tpm2_client::connection::Connection;

#[derive(Clone, Debug)]
pub struct Txn {
    pub locality: Option<u8>,
    pub cmd: usize,
    pub payload: usize,
    /// size of the caller's buffer
    pub buf: usize,
    pub term: u32,
    /// the stream ends after this many bytes of the reply
    pub cut: Option<usize>,
    /// announced length, if not the payload's
    pub announced: Option<u32>,
    /// command and payload, if not the usual patterns
    pub content: Option<(Vec<u8>, Vec<u8>)>,
}
impl Txn {
    pub fn plain(cmd: usize, payload: usize, buf: usize) -> Txn {
        Txn { locality: None, cmd, payload, buf, term: 0, cut: None, announced: None, content: None }
    }
    /// A transaction with the given bytes.
    pub fn exactly(cmd: &[u8], payload: &[u8], buf: usize) -> Txn {
        Txn { content: Some((cmd.to_vec(), payload.to_vec())), ..Txn::plain(cmd.len(), payload.len(), buf) }
    }
}

pub fn open(w: &mut World) -> TcpConnection {
    sys::inside(w, || TcpConnection::connect("127.0.0.1", None, None)).expect("simulated connect")
}

fn run(check: &Check, cov: &mut Cov, ch: &mut Chooser, txns: &[Txn], split: Split, faults: bool) {
    let mut w = World::new(ch);
    w.logging = false;
    let mut bad = body(check, &mut w, txns, split, faults, cov);
    if let Some((key, what)) = bad.take() {
        // run the same path again with a log for the report
        let mut again = Chooser::fixed(&ch.path());
        let mut w = World::new(&mut again);
        w.logging = true;
        let _ = body(check, &mut w, txns, split, faults, &mut Cov::default());
        let log = w.log[w.log.len().saturating_sub(200)..].join("\n    ");
        let shown = &txns[..txns.len().min(8)];
        check.fail(key, || format!("{what}\n  transactions: {shown:?}\n  reads: {split:?}\n    {log}"));
    }
}

fn body(
    _check: &Check,
    w: &mut World,
    txns: &[Txn],
    split: Split,
    faults: bool,
    cov: &mut Cov,
) -> Option<(&'static str, String)> {
    w.split = split;
    w.faults_on = false;
    let mut conn = open(w);
    let mut locality = 0u8;
    let mut result = None;
    for (t, x) in txns.iter().enumerate() {
        if let Some(l) = x.locality {
            conn.set_locality(l);
            locality = l;
        }
        let (cmd, payload) = x.content.clone().unwrap_or_else(|| {
            ((0..x.cmd).map(|i| (0x30 + 0x11 * t + i) as u8).collect(), (0..x.payload).map(|i| (0x81 + 0x21 * t + i) as u8).collect())
        });
        let mut reply = x.announced.unwrap_or(x.payload as u32).to_be_bytes().to_vec();
        reply.extend_from_slice(&payload);
        reply.extend_from_slice(&x.term.to_be_bytes());
        let whole = reply.len();
        if let Some(c) = x.cut {
            reply.truncate(c);
        }
        let cut = reply.len() < whole || x.announced.is_some();
        w.begin();
        w.chans[TPM].replies.push_back(reply);
        w.chans[TPM].closes_after = cut;
        w.faults_on = faults;
        let mut buf = vec![0xEEu8; x.buf];
        let r = sys::inside(w, || {
            mc::guard(|| conn.transact(&cmd, &mut buf).map(|s| s.to_vec()).map_err(|e| e.to_string()))
        });
        w.faults_on = false;
        cov.evaluations += 1;
        let f = w.faults.clone();
        let mut expected = 8u32.to_be_bytes().to_vec();
        expected.push(locality);
        expected.extend_from_slice(&(cmd.len() as u32).to_be_bytes());
        expected.extend_from_slice(&cmd);
        let r = match r {
            Err(p) => {
                result = Some(("panic", format!("transaction {t} panics: {p}")));
                break;
            }
            Ok(r) => r,
        };
        if f.blocked {
            result = Some(("blocks", format!("transaction {t} waits for bytes that the server never sends")));
            break;
        }
        // faults of the connection
        if f.read || f.write {
            if let Ok(s) = &r {
                result = Some((
                    "ok-after-failure",
                    format!("transaction {t} returns {} although the connection failed ({f:?})", mc::hex(s)),
                ));
            }
            cov.sample("connection failure", || format!("{x:?}: {r:?}"));
            break;
        }
        let lenient = f.short || f.intr;
        if lenient && r.is_err() {
            break; // the caller knows; nothing is promised for what follows
        }
        let tpm = &w.chans[TPM];
        if tpm.messages != [expected.clone()] || !tpm.partial.is_empty() || tpm.garbage {
            let got: Vec<String> = tpm.messages.iter().map(|m| mc::hex(m)).collect();
            result = Some((
                "framing",
                format!("transaction {t}: the server received {got:?} + {} instead of {}", mc::hex(&tpm.partial), mc::hex(&expected)),
            ));
            break;
        }
        let plat = &w.chans[PLAT];
        if !plat.messages.is_empty() || !plat.partial.is_empty() {
            result = Some(("wrong-channel", format!("transaction {t} writes on the platform channel")));
            break;
        }
        let should_fail = cut || x.payload > x.buf || x.term != 0;
        match &r {
            Ok(s) if should_fail => {
                result = Some((
                    if cut {
                        "ok-truncated"
                    } else if x.term != 0 {
                        "terminator"
                    } else {
                        "oversize"
                    },
                    format!("transaction {t} returns {} but must fail", mc::hex(s)),
                ));
            }
            Ok(s) if *s != payload => {
                result =
                    Some(("payload", format!("transaction {t} returns {} instead of {}", mc::hex(s), mc::hex(&payload))));
            }
            Err(e) if !should_fail => {
                result = Some(("fails", format!("transaction {t} fails without reason: {e}")));
            }
            _ => {}
        }
        if result.is_some() || cut {
            break;
        }
    }
    // sockets are closed inside of the world
    sys::inside(w, || drop(conn));
    result
}

pub fn check(check: &Check) {
    let cmds = [0usize, 1, 10, 14, 300];
    let payloads = [0usize, 1, 3, 10, 64, 4096];
    let bufs = |p: usize| {
        let mut v = vec![p, p + 1, 5000, p.wrapping_sub(1), p / 2, 0];
        v.retain(|&b| b <= 5000);
        v.sort();
        v.dedup();
        v
    };
    let terms = [0u32, 1, 0x0100, 0x0100_0000, 0x0001_0000, 0xffff_ffff];
    let splits = [Split::Whole, Split::AtMost(1), Split::AtMost(3), Split::AtMost(7)];

    // A: one transaction of every shape, then a plain one and a shorter one
    let mut items: Vec<(Vec<Txn>, Split, u32)> = vec![];
    for &cmd in &cmds {
        for &p in &payloads {
            for b in bufs(p) {
                for &term in &terms {
                    for &split in &splits {
                        for loc in [None, Some(1u8), Some(4), Some(255)] {
                            if loc.is_some() && (cmd > 10 || p > 10) {
                                continue;
                            }
                            let mut x = Txn::plain(cmd, p, b);
                            x.term = term;
                            x.locality = loc;
                            let mut then = Txn::plain(12, 11, 64);
                            if loc == Some(4) {
                                then.locality = Some(2);
                            }
                            let last = Txn::plain(10, 0, 0);
                            let budget = if split == Split::Whole || (p <= 10 && cmd <= 14 && loc.is_none()) { 1 } else { 0 };
                            items.push((vec![x, then, last], split, budget));
                        }
                    }
                }
            }
        }
    }
    let a = items.len();
    // B: pairs of small transactions, two deviations
    let small: Vec<Txn> = {
        let mut v = vec![];
        for p in [0usize, 3, 10] {
            for b in [p, p.wrapping_sub(1), 40] {
                if b > 40 {
                    continue;
                }
                for term in [0, 1] {
                    let mut x = Txn::plain(10, p, b);
                    x.term = term;
                    v.push(x);
                }
            }
        }
        v
    };
    for x in &small {
        for y in &small {
            items.push((vec![x.clone(), y.clone()], Split::Whole, check.tier(3, 4)));
            for z in &small {
                items.push((vec![x.clone(), y.clone(), z.clone()], Split::Whole, check.tier(2, 3)));
                if check.thorough {
                    for s in [1, 2, 3, 5] {
                        items.push((vec![x.clone(), y.clone(), z.clone()], Split::AtMost(s), 1));
                    }
                }
            }
        }
    }
    let b = items.len() - a;
    // C: the server announces too much or closes in the middle, after 0 or 1 good transactions
    for first in [false, true] {
        for p in [0usize, 1, 4, 10, 64] {
            for buf in [0usize, 3, 9, 10, 64, 100] {
                for cut in 0..p + 8 {
                    for &split in &splits {
                        let mut x = Txn::plain(10, p, buf);
                        x.cut = Some(cut);
                        let mut v = vec![x, Txn::plain(10, 5, 20)];
                        if first {
                            v.insert(0, Txn::plain(12, 7, 30));
                        }
                        items.push((v, split, 1));
                    }
                }
                for ann in [p as u32 + 5, p as u32 + 100, 0x10000, 0x7fff_ffff, 0x8000_0000, 0xffff_fffc, 0xffff_ffff] {
                    for &split in &splits {
                        let mut x = Txn::plain(10, p, buf);
                        x.announced = Some(ann);
                        let mut v = vec![x, Txn::plain(10, 5, 20)];
                        if first {
                            v.insert(0, Txn::plain(12, 7, 30));
                        }
                        items.push((v, split, 1));
                    }
                }
            }
        }
    }
    // D: lengths that need every byte of the length field
    for n in [0xffusize, 0x100, 0xffff, 0x1_0000, 0x1_2345, 0x0102_0304] {
        for (c, p) in [(n, 10), (10, n), (n, n)] {
            for b in [p, p - 1, p + 1] {
                items.push((vec![Txn::plain(c, p, b), Txn::plain(10, 5, 20)], Split::Whole, 0));
            }
        }
    }
    let top = check.tier(4200usize, 20_000);
    for n in 0..=top {
        items.push((vec![Txn::plain(n, 10, 20), Txn::plain(10, n, n), Txn::plain(10, n + 1, n), Txn::plain(n, n, n + 7)], Split::Whole, 0));
    }
    check.bound(format!("every command and payload length 0..={top}, exact fit, one too small and with room to spare"));
    // E: long histories
    for n in [600usize, 70_000] {
        for (x, y) in [(Txn::plain(10, 12, 40), Txn::plain(12, 0, 0)), (Txn::plain(10, 12, 11), Txn::plain(14, 3, 3))] {
            let h: Vec<Txn> = (0..n).map(|i| if i % 2 == 0 { x.clone() } else { y.clone() }).collect();
            items.push((h, Split::Whole, 0));
        }
    }
    // F: contents
    let next = Txn::plain(12, 11, 64);
    for v in 0..=255u8 {
        for n in [1usize, 2, 4, 10, 33] {
            let same = vec![v; n];
            let mut first: Vec<u8> = (0..n).map(|i| i as u8 + 0x40).collect();
            let mut last = first.clone();
            first[0] = v;
            last[n - 1] = v;
            for c in [same, first, last] {
                items.push((vec![Txn::exactly(&c, &c, n), Txn::exactly(&[1], &c, 64), Txn::exactly(&c, &c, n - 1), next.clone()], Split::Whole, 0));
            }
        }
    }
    let message = |size: u32, code: u32, body: &[u8]| -> Vec<u8> {
        [&[0x80, 1][..], &size.to_be_bytes(), &code.to_be_bytes(), body].concat()
    };
    for hi in 0..=0xFFu32 {
        let mut v = vec![];
        for lo in 0..=0xFFu32 {
            // a TPM answer with every response code and, as a command, every code
            let m = message(10, hi << 8 | lo, &[]);
            v.push(Txn::exactly(&m, &m, 64));
        }
        items.push((v, Split::Whole, 0));
    }
    for size in (0..=40u32).chain([0x100, 0xFFFF, 0x1_0000, 0x7FFF_FFFF, 0x8000_0000, u32::MAX]) {
        for n in [0usize, 1, 10, 20] {
            let m = message(size, 0, &vec![0x5A; n]);
            items.push((vec![Txn::exactly(&m, &m, 64), Txn::exactly(&m, &m, m.len()), Txn::exactly(&m, &m, m.len() - 1), next.clone()], Split::Whole, 0));
        }
    }
    check.bound("commands and payloads of 1-33 bytes with every value of all, the first and the last byte; TPM messages with every 16-bit code and 47 size fields");
    for a in 0..32 {
        for b in a..32 {
            for t in [1u32 << a | 1 << b, !(1u32 << a | 1 << b)] {
                let mut x = Txn::plain(10, 12, 40);
                x.term = t;
                let mut y = Txn::plain(10, 12, 4);
                y.term = t;
                items.push((vec![x, next.clone(), y, next.clone()], Split::Whole, 0));
            }
        }
    }
    check.bound("every terminator of up to two bits and its complement, for a fitting and for a too large response");
    check.bound("alternating pairs of transactions (successful, and too large for the buffer) repeated up to 70000 times");
    check.bound(format!(
        "{a} histories of 3 transactions (commands of {cmds:?} bytes, payloads of {payloads:?} bytes, buffers around the payload size, terminators {terms:x?}, localities) with reads in one piece or of at most 1, 3, 7 bytes, and up to 1 deviation"
    ));
    check.bound(format!(
        "{b} histories of 2 and 3 small transactions with up to {} and {} deviations",
        check.tier(3, 4),
        check.tier(2, 3)
    ));
    check.bound("a deviation is: a read cut at any of up to 9 places, interrupted, reset, ended, or cut and then failed; a write cut at any of up to 9 places, interrupted or failed");
    check.bound("every truncation point of a reply, announced lengths up to 2^32-1, commands and payloads up to 0x01020304 bytes");
    check.assume("the simulated sockets behave like stream sockets; they are interposed under the unmodified standard library");
    items.sort_by_key(|(t, _, b)| std::cmp::Reverse((t[0].payload + t[0].cmd) * (1 + *b as usize)));
    check.par(items, |cov, (txns, split, budget)| {
        let mut salt = mc::mix(budget as u64, match split { Split::Whole => 0, Split::AtMost(k) => k as u64 });
        for x in txns.iter().take(8) {
            salt = mc::hash_str(&format!("{x:?}{salt}"));
        }
        let shown = &txns[..txns.len().min(4)];
        mc::label(&format!("{shown:?} {split:?}"));
        cov.sample(&format!("history {}", salt % 5), || format!("{shown:?} {split:?}, {budget} deviation(s)"));
        cov.state(salt);
        mc::explore(cov, salt, budget, |ch, cov| {
            run(check, cov, ch, &txns, split, budget > 0);
            !check.failing()
        });
    });
}
