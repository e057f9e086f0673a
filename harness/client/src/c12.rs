//! C12: sessions.
use crate::fake::*;
use mc::{Check, Chooser, Cov, explore, hash_bytes, hex, mix};
use tpm2_client::sessions::{PasswordSession, Session};
use tpm2_client::{read_response_sessions, run_command_with_handles};
use tpm2_rs_base::errors::TpmRcError;
use tpm2_rs_base::marshal::{Marshalable, UnmarshalBuf};
use tpm2_rs_base::{Tpm2bAuth, Tpm2bData, Tpm2bNonce, Tpm2bSimple, TpmaSession, TpmsAuthResponse};

type C = Cmd<0x17F, Fixed<4>, Fixed<4>>;

fn be16(b: &[u8]) -> usize {
    u16::from_be_bytes([b[0], b[1]]) as usize
}

#[derive(Clone, Debug, PartialEq, Eq)]
struct Auth {
    nonce: Vec<u8>,
    attr: u8,
    hmac: Vec<u8>,
}

/// A command with `n` scripted sessions answered with the given authorizations.
fn scripted(check: &Check, cov: &mut Cov, verdicts: &[Option<u32>], auths: &[Auth], cut: usize, surplus: usize) {
    let n = verdicts.len();
    let s: Vec<_> = (0..n).map(|i| session(i as u8 + 1, [0x4000_0009, 0x0200_0001, 0x0300_0002][i], 2 * i, 1 + i as u8, 3 * i + 1, verdicts[i])).collect();
    let params = bytes(4, 50);
    let handles = bytes(4, 51);
    let mut body = handles.clone();
    body.extend(4u32.to_be_bytes());
    body.extend(&params);
    for a in auths {
        body.extend(auth_resp(&a.nonce, a.attr, &a.hmac));
    }
    body.truncate(body.len() - cut);
    body.extend(vec![0xff; surplus]);
    let mut w = Wire::new(Ok(response(0x8002, 10 + body.len() as u32, 0, &body)));
    SEEN.with(|s| s.borrow_mut().clear());
    let g = |i: usize| s[i].0.clone();
    let cmd = C::new(bytes(5, 52));
    let r = mc::guard(|| {
        match n {
            1 => run_command_with_handles(&cmd, Raw(bytes(4, 53)), g(0), &mut w),
            2 => run_command_with_handles(&cmd, Raw(bytes(4, 53)), (g(0), g(1)), &mut w),
            _ => run_command_with_handles(&cmd, Raw(bytes(4, 53)), (g(0), g(1), g(2)), &mut w),
        }
        .map(|(p, h)| (h.0.to_vec(), p.0.to_vec()))
    });
    cov.evaluations += 1;
    let what = || format!("{n} sessions with verdicts {verdicts:x?}, answer {:?}, {cut} bytes missing, {surplus} surplus", w.answer.as_ref().map(|b| hex(b)));
    let got = match r {
        Err(p) => return check.fail("panic", || format!("{p}\n{}", what())),
        Ok(g) => g,
    };
    let seen = SEEN.with(|s| s.borrow().clone());
    let seen: Vec<(u8, Auth)> = seen
        .iter()
        .map(|(i, a)| (*i, Auth { nonce: a.nonce.get_buffer().to_vec(), attr: a.session_attributes.0, hmac: a.hmac.get_buffer().to_vec() }))
        .collect();
    // what was sent
    let mut area = vec![];
    s.iter().for_each(|s| area.extend(&s.1));
    let sent = w.sent.first().cloned().unwrap_or_default();
    let want_area = [&(area.len() as u32).to_be_bytes()[..], &area].concat();
    if sent.get(14..14 + want_area.len()) != Some(&want_area[..]) || sent.get(..2) != Some(&[0x80, 2]) {
        check.fail("authorizations-sent", || format!("sent {}\nexpected authorization area {}\n{}", hex(&sent), hex(&want_area), what()));
    }
    // what each session saw: a prefix of the expected order, each its own authorization
    let usable = if cut > 0 { auths.len().saturating_sub(1) } else { auths.len() }.min(n);
    for (k, (id, a)) in seen.iter().enumerate() {
        if k >= usable || *id as usize != k + 1 || *a != auths[k] {
            return check.fail("vetting", || format!("session {id} was given {a:x?} as number {}\n{}", k + 1, what()));
        }
    }
    // the verdict
    let first_reject = (0..n).find(|&i| verdicts[i].is_some());
    let complete = auths.len() == n && cut == 0 && surplus == 0;
    match &got {
        Ok(d) => {
            if !complete || first_reject.is_some() {
                check.fail("accepted", || format!("accepted: {d:x?}\n{}", what()));
            } else if *d != (handles, params) {
                check.fail("data", || format!("{d:x?}\n{}", what()));
            } else if seen.len() != n {
                check.fail("unvetted", || format!("only {} of {n} sessions vetted the response\n{}", seen.len(), what()));
            }
        }
        Err(e) => match first_reject {
            None => {
                if complete {
                    check.fail("rejected", || format!("{e:x?}\n{}", what()));
                }
            }
            Some(i) => {
                // rejection decides when the response is otherwise complete
                if complete && *e != WireError::Tss(verdicts[i].unwrap()) {
                    check.fail("rejection-code", || format!("{e:x?}, session {} rejected with {:x?}\n{}", i + 1, verdicts[i], what()));
                }
            }
        },
    }
    cov.state(hash_bytes(mix(n as u64, verdicts.iter().fold(1, |h, v| mix(h, v.unwrap_or(0) as u64))), &body));
    cov.sample(&format!("{n} sessions, rejecting {first_reject:?}"), || format!("{} -> {got:x?}", what()));
}

/// A response whose tag or parameter size is not that of a response with sessions: it may be refused, but it is
/// accepted only if every session vetted an authorization of its own, in order.
fn misframed(check: &Check, cov: &mut Cov, verdicts: &[Option<u32>], present: usize, tag: u16, psize: Option<u32>, handles: usize, params: usize) {
    let n = verdicts.len();
    let s: Vec<_> = (0..n).map(|i| session(i as u8 + 1, [0x4000_0009, 0x0200_0001, 0x0300_0002][i], 2 * i, 1 + i as u8, 3 * i + 1, verdicts[i]).0).collect();
    let mut body = bytes(handles, 54);
    body.extend(psize.iter().flat_map(|p| p.to_be_bytes()));
    body.extend(bytes(params, 55));
    for _ in 0..present {
        body.extend(auth_resp(&[], 1, &[]));
    }
    let mut w = Wire::new(Ok(response(tag, 10 + body.len() as u32, 0, &body)));
    SEEN.with(|s| s.borrow_mut().clear());
    let g = |i: usize| s[i].clone();
    fn go<R: Marshalable, H: Marshalable>(w: &mut Wire, n: usize, g: &dyn Fn(usize) -> Scripted) -> Result<bool, String> {
        let cmd = Cmd::<0x17F, R, H>::new(vec![]);
        mc::guard(|| match n {
            1 => run_command_with_handles(&cmd, Raw(vec![]), g(0), w).is_ok(),
            2 => run_command_with_handles(&cmd, Raw(vec![]), (g(0), g(1)), w).is_ok(),
            _ => run_command_with_handles(&cmd, Raw(vec![]), (g(0), g(1), g(2)), w).is_ok(),
        })
    }
    let r = match (handles, params) {
        (0, 0) => go::<(), ()>(&mut w, n, &g),
        (0, _) => go::<Fixed<4>, ()>(&mut w, n, &g),
        (_, 0) => go::<(), Fixed<4>>(&mut w, n, &g),
        _ => go::<Fixed<4>, Fixed<4>>(&mut w, n, &g),
    };
    cov.evaluations += 1;
    cov.traces += 1;
    cov.transitions += 1;
    cov.state(hash_bytes(mix(n as u64, 0x515), &body));
    let ids: Vec<u8> = SEEN.with(|s| s.borrow().iter().map(|x| x.0).collect());
    let what = || format!("{n} sessions with verdicts {verdicts:x?}, answer {}, vetted by sessions {ids:?}", w.answer.as_ref().map(|b| hex(b)).unwrap_or_default());
    match r {
        Err(p) => check.fail("panic", || format!("{p}\n{}", what())),
        Ok(true) if ids.len() != n || ids.iter().enumerate().any(|(k, id)| *id as usize != k + 1) || verdicts.iter().any(|v| v.is_some()) || present < n => {
            check.fail("unvetted", || format!("accepted without every session accepting its authorization\n{}", what()))
        }
        Ok(_) => {}
    }
}

fn auth(i: usize, nonce: usize, attr: u8, hmac: usize) -> Auth {
    Auth { nonce: bytes(nonce, 60 + i as u64), attr, hmac: bytes(hmac, 70 + i as u64) }
}

/// Password sessions: the response's authorizations decide.
fn password(check: &Check, cov: &mut Cov, pws: &[usize], auths: &[Auth]) {
    for step in [1, 0] {
        passwords(check, cov, pws, auths, step);
    }
}

/// With `step` 0 passwords of equal lengths are equal.
fn passwords(check: &Check, cov: &mut Cov, pws: &[usize], auths: &[Auth], step: usize) {
    let n = pws.len();
    let s: Vec<PasswordSession> = pws.iter().enumerate().filter_map(|(i, &l)| PasswordSession::new(&bytes(l, 90 + (step * i) as u64)).ok()).collect();
    if s.len() != n {
        return check.fail("password-refused", || format!("passwords of lengths {pws:?} refused"));
    }
    let mut it = s.into_iter();
    let mut body = bytes(4, 51);
    body.extend(4u32.to_be_bytes());
    body.extend(bytes(4, 50));
    for a in auths {
        body.extend(auth_resp(&a.nonce, a.attr, &a.hmac));
    }
    let mut w = Wire::new(Ok(response(0x8002, 10 + body.len() as u32, 0, &body)));
    let cmd = C::new(vec![]);
    let mut nx = || it.next().unwrap();
    let r = mc::guard(|| {
        match n {
            1 => run_command_with_handles(&cmd, Raw(vec![]), nx(), &mut w),
            2 => run_command_with_handles(&cmd, Raw(vec![]), (nx(), nx()), &mut w),
            _ => run_command_with_handles(&cmd, Raw(vec![]), (nx(), nx(), nx()), &mut w),
        }
        .is_ok()
    });
    cov.evaluations += 1;
    let what = || format!("passwords of lengths {pws:?}, authorizations {auths:x?}");
    match r {
        Err(p) => check.fail("panic", || format!("{p}\n{}", what())),
        Ok(ok) => {
            let fine = auths.len() == n && auths.iter().all(|a| a.nonce.is_empty() && a.hmac.is_empty() && a.attr == 1);
            if ok != fine {
                check.fail("password-verdict", || format!("accepted: {ok}, {}", what()));
            }
        }
    }
    let mut area = vec![];
    for (i, &l) in pws.iter().enumerate() {
        area.extend([0x40, 0, 0, 9, 0, 0, 0]);
        area.extend((l as u16).to_be_bytes());
        area.extend(bytes(l, 90 + (step * i) as u64));
    }
    let want = [&(area.len() as u32).to_be_bytes()[..], &area].concat();
    if w.sent.first().and_then(|m| m.get(10..)) != Some(&want[..]) {
        check.fail("password-sent", || format!("sent {:?} expected area {}\n{}", w.sent.first().map(|m| hex(m)), hex(&want), what()));
    }
    cov.traces += 1;
    cov.transitions += 1;
}

pub fn run(check: &Check) {
    let codes: &[Option<u32>] = &[None, Some(0x98E), Some(0x2003), Some(0xFFFF_FFFF)];
    let small: Vec<(usize, u8, usize)> = vec![(0, 1, 0), (0, 0, 0), (3, 0x81, 5), (64, 0xFF, 64), (1, 2, 0)];
    check.bound("1-3 scripted sessions x every combination of 4 verdicts x every combination of 5 authorization responses x 0 to sessions+1 authorizations present x truncations and surplus");
    let mut items = vec![];
    for n in 1..=3usize {
        for v in 0..4usize.pow(n as u32) {
            items.push((n, v));
        }
    }
    check.par(items, |cov, (n, v)| {
        let verdicts: Vec<Option<u32>> = (0..n).map(|i| codes[v / 4usize.pow(i as u32) % 4]).collect();
        explore(cov, mix(12, (n * 1000 + v) as u64), 0, |ch: &mut Chooser, cov| {
            let present = ch.choose(n + 2);
            let auths: Vec<Auth> = (0..present)
                .map(|i| {
                    let (a, b, c) = *ch.pick(&small);
                    auth(i, a, b, c)
                })
                .collect();
            let last = auths.last().map(|a| 5 + a.nonce.len() + a.hmac.len()).unwrap_or(0);
            // nothing missing, then each number of bytes of the last authorization missing (bounded)
            let cut = if last == 0 { 0 } else { ch.choose(last.min(check.tier(14, 40))) };
            let surplus = if cut == 0 { *ch.pick(&[0usize, 1, 5]) } else { 0 };
            scripted(check, cov, &verdicts, &auths, cut, surplus);
            !check.failing()
        });
    });
    check.bound("a rejection by each of 1-3 sessions with every 16-bit code, every code of one or two bits and its complement");
    check.par((0..256u32).collect(), |cov, hi| {
        let mut codes: Vec<u32> = (0..256).map(|lo| hi << 8 | lo).filter(|&c| c != 0).collect();
        if hi < 32 {
            codes.extend((hi..32).flat_map(|b| [1 << hi | 1 << b, !(1 << hi | 1 << b)]));
        }
        for c in codes {
            for (n, at) in [(1, 0), (2, 0), (2, 1), (3, 1), (3, 2)] {
                if n > 1 && c & 3 != 1 && c < 0x10000 {
                    continue;
                }
                let mut v = vec![None; n];
                v[at] = Some(c);
                let auths: Vec<Auth> = (0..n).map(|i| auth(i, 0, 1, 0)).collect();
                scripted(check, cov, &v, &auths, 0, 0);
                cov.traces += 1;
                cov.transitions += 1;
            }
        }
    });
    check.bound("responses to commands with sessions under every 16-bit tag, with and without a parameter size (0, right, wrong, huge) and with 0 to sessions+1 authorizations: never accepted unvetted");
    check.par((0..256u32).collect(), |cov, hi| {
        for lo in 0..256u32 {
            let tag = (hi << 8 | lo) as u16;
            let near = hi == 0x80 && lo < 4 || tag == 0 || tag == 0xC4 || tag == 0xFFFF;
            for n in 1..=3usize {
                for present in 0..=n + 1 {
                    for rejecting in 0..=n {
                        for (handles, params) in [(0, 0), (0, 4), (4, 0), (4, 4)] {
                            for psize in [None, Some(params as u32), Some(0), Some(1), Some((params + 5 * present) as u32), Some(u32::MAX), Some(0x8000_0000)] {
                                if !near && (rejecting > 0 || params != handles || psize.is_some_and(|p| p as usize != params)) {
                                    continue;
                                }
                                let v: Vec<Option<u32>> = (0..n).map(|i| (rejecting == i + 1).then_some(0x98E)).collect();
                                misframed(check, cov, &v, present, tag, psize, handles, params);
                            }
                        }
                    }
                }
            }
            if check.failing() {
                return;
            }
        }
    });
    check.bound("one scripted session: all nonce sizes x all hmac sizes 0..=64 in the response, all 256 attributes");
    check.par((0..=64usize).collect(), |cov, a| {
        for b in 0..=64usize {
            scripted(check, cov, &[None], &[auth(0, a, (a * 64 + b) as u8, b)], 0, 0);
            if b % 8 == 0 {
                scripted(check, cov, &[None, None, None], &[auth(0, a, 1, b), auth(1, b, 2, a), auth(2, a, 3, a)], 0, 0);
            }
            cov.traces += 1;
            cov.transitions += 1;
        }
    });
    // password sessions
    check.bound("password sessions: all 256 attribute bytes x nonce sizes 0..=64 x hmac sizes 0..=64 (pairs), 1-3 sessions; all password lengths 0..=64 accepted and 65..=70000 refused");
    check.par((0..=255u8).collect(), |cov, attr| {
        let p = PasswordSession::new("secret").unwrap_or_else(|_| panic!("harness"));
        for n in 0..=64usize {
            for h in [0usize, 1, 2, 32, 63, 64] {
                for (n, h) in [(n, h), (h, n)] {
                    let r = TpmsAuthResponse {
                        nonce: Tpm2bNonce::from_bytes(&vec![0; n]).unwrap_or_else(|_| panic!("harness")),
                        session_attributes: TpmaSession(attr),
                        hmac: Tpm2bData::from_bytes(&vec![0; h]).unwrap_or_else(|_| panic!("harness")),
                    };
                    cov.evaluations += 1;
                    let v = mc::guard(|| p.validate_auth_response(&r).is_ok());
                    if v != Ok(n == 0 && h == 0 && attr == 1) {
                        check.fail("password-verdict", || format!("nonce {n} bytes, attributes {attr:#x}, hmac {h} bytes: {v:?}"));
                    }
                }
            }
        }
        for pws in [vec![6], vec![0, 64], vec![5, 5], vec![0, 0], vec![1, 0, 9], vec![3, 3, 3], vec![7, 2, 7]] {
            for bad in 0..pws.len() {
                let mut auths: Vec<Auth> = pws.iter().map(|_| auth(0, 0, 1, 0)).collect();
                auths[bad].attr = attr;
                password(check, cov, &pws, &auths);
                if attr < 65 {
                    auths[bad].attr = 1;
                    auths[bad].nonce = vec![0; attr as usize];
                    password(check, cov, &pws, &auths);
                    auths[bad].nonce = vec![];
                    auths[bad].hmac = vec![0; attr as usize];
                    password(check, cov, &pws, &auths);
                }
                if attr < 4 {
                    let a: Vec<Auth> = (0..attr as usize).map(|_| auth(0, 0, 1, 0)).collect();
                    password(check, cov, &pws, &a);
                }
            }
        }
    });
    check.par((0..=1100usize).collect(), |cov, k| {
        let lens: Vec<usize> = if k <= 1000 { vec![k] } else { vec![65536 + (k - 1001), 65536 * 2 + (k - 1001), 1 << 20] };
        for l in lens {
            let b = bytes(l, 90);
            let r = mc::guard(|| PasswordSession::new(&b));
            cov.evaluations += 1;
            cov.traces += 1;
            cov.transitions += 1;
            cov.state(mix(l as u64, 444));
            let r = match r {
                Err(p) => {
                    check.fail("panic", || format!("{p}\npassword of {l} bytes"));
                    continue;
                }
                Ok(r) => r,
            };
            match r {
                Err(e) => {
                    if l <= Tpm2bAuth::MAX_BUFFER_SIZE || e != TpmRcError::Size {
                        check.fail("password-refused", || format!("password of {l} bytes: {e:?}"));
                    }
                }
                Ok(s) => {
                    if l > Tpm2bAuth::MAX_BUFFER_SIZE || s.get_secret() != &b[..] {
                        check.fail("password-length", || format!("password of {l} bytes holds {}", hex(s.get_secret())));
                    }
                    let a = s.get_auth_command();
                    if a.nonce.get_size() != 0 || a.session_attributes.0 != 0 || a.hmac.get_buffer() != &b[..] {
                        check.fail("password-command", || format!("{a:?}"));
                    }
                    if l <= 64 {
                        password(check, cov, &[l], &[auth(0, 0, 1, 0)]);
                        password(check, cov, &[l, 64 - l, l / 2], &[auth(0, 0, 1, 0), auth(0, 0, 1, 0), auth(0, 0, 1, 0)]);
                    }
                }
            }
        }
    });
    // contents of passwords
    check.bound("password contents: for every length 0..=64, all bytes equal (256 values), every value of the first byte and of the last byte, and every position of a zero among other bytes; as bytes and as text");
    check.par((0..=64usize).collect(), |cov, l| {
        let mut contents: Vec<Vec<u8>> = vec![];
        for v in 0..=255u8 {
            contents.push(vec![v; l]);
            let mut b = bytes(l, 91);
            if l > 0 {
                b[0] = v;
                contents.push(b.clone());
                b[0] = b'a';
                b[l - 1] = v;
                contents.push(b);
            }
        }
        for k in 0..l {
            for v in [0u8, b' ', b'\n', b'\r', 0x80, 0xff] {
                let mut b: Vec<u8> = (0..l).map(|i| b'a' + (i % 26) as u8).collect();
                b[k] = v;
                contents.push(b.clone());
                b[k..].fill(v);
                contents.push(b);
            }
        }
        for b in contents {
            cov.evaluations += 1;
            cov.traces += 1;
            cov.transitions += 1;
            cov.state(hash_bytes(77, &b));
            let one = mc::guard(|| PasswordSession::new(&b).map(|s| (s.get_secret().to_vec(), s.get_auth_command())));
            let good = matches!(&one, Ok(Ok((s, a))) if *s == b && a.hmac.get_buffer() == &b[..] && a.nonce.get_size() == 0 && a.session_attributes.0 == 0);
            if !good {
                check.fail("password-content", || format!("password {}: {one:?}", hex(&b)));
            }
            if let Ok(t) = std::str::from_utf8(&b) {
                let two = mc::guard(|| PasswordSession::new(t).map(|s| s.get_secret().to_vec()));
                if !matches!(&two, Ok(Ok(s)) if *s == b) {
                    check.fail("password-content", || format!("password {t:?} as text: {two:?}"));
                }
            }
            // as sent
            let Ok(Ok(())) = one.as_ref().map(|r| r.as_ref().map(|_| ())) else { continue };
            let mut w = Wire::new(Ok(response(0x8002, 19 + 0, 0, &[0, 0, 0, 0, 0, 0, 1, 0, 0])));
            let cmd = Cmd::<0x17F, Fixed<0>, ()>::new(vec![]);
            let r = mc::guard(|| run_command_with_handles(&cmd, Raw(vec![]), PasswordSession::new(&b).unwrap_or_else(|_| panic!("harness")), &mut w).map(|_| ()));
            let mut want = vec![0, 0, 0, 9 + l as u8, 0x40, 0, 0, 9, 0, 0, 0, 0, l as u8];
            want.extend(&b);
            if !matches!(r, Ok(Ok(()))) || w.sent.first().and_then(|m| m.get(10..)) != Some(&want[..]) {
                check.fail("password-sent", || format!("password {}: {r:?}, sent {:?}", hex(&b), w.sent.first().map(|m| hex(m))));
            }
        }
    });
    // the views of an authorization area that command implementations use
    check.bound("every view (any, at least one, at least two sessions) of areas of 0 to 3 sessions, of equal and of different types");
    check.run(|cov| {
        use tpm2_client::sessions::{AuthorizationArea as A0, AuthorizationArea1Plus as A1, AuthorizationArea2Plus as A2, NoSession};
        let g = |i: u8| session(i, 0x4000_0009, i as usize, i, 2, None).0;
        type S = Scripted;
        let id = |s: Option<&S>| s.map_or(0, |s| s.id);
        let mut bad = |what: &str, ok: bool| {
            cov.evaluations += 1;
            cov.traces += 1;
            cov.transitions += 1;
            if !ok {
                check.fail("area-view", || what.to_string());
            }
        };
        bad("no session", A0::<NoSession, NoSession, NoSession>::decompose_ref(&()) == (None, None, None) && A0::is_empty(&()));
        let a = g(1);
        let (x, y, z) = A0::decompose_ref(&a);
        bad("one session", id(x) == 1 && y.is_none() && z.is_none() && !A0::is_empty(&a));
        let (x, y, z) = A1::decompose_ref(&a);
        bad("one session, at least one", x.id == 1 && y.is_none() && z.is_none());
        let a = (g(1), g(2));
        let (x, y, z) = A0::decompose_ref(&a);
        bad("two sessions", id(x) == 1 && id(y) == 2 && z.is_none() && !A0::is_empty(&a));
        let (x, y, z) = A1::decompose_ref(&a);
        bad("two sessions, at least one", x.id == 1 && id(y) == 2 && z.is_none());
        let (x, y, z) = A2::decompose_ref(&a);
        bad("two sessions, at least two", x.id == 1 && y.id == 2 && z.is_none());
        let a = (g(1), g(2), g(3));
        let (x, y, z) = A0::decompose_ref(&a);
        bad("three sessions", id(x) == 1 && id(y) == 2 && id(z) == 3 && !A0::is_empty(&a));
        let (x, y, z) = A1::decompose_ref(&a);
        bad("three sessions, at least one", x.id == 1 && id(y) == 2 && id(z) == 3);
        let (x, y, z) = A2::decompose_ref(&a);
        bad("three sessions, at least two", x.id == 1 && y.id == 2 && id(z) == 3);
    });
    // mixed kinds and the reader on its own
    check.bound("mixed password and scripted sessions in every order; the authorization reader on its own with every truncation");
    check.run(|cov| {
        for reject in [None, Some(0x922u32)] {
            for bad_pw in [false, true] {
                let pw = || PasswordSession::new("x").unwrap_or_else(|_| panic!("harness"));
                let (sc, _) = session(9, 0x0200_0002, 4, 1, 4, reject);
                let pa = auth_resp(&[], if bad_pw { 0 } else { 1 }, &[]);
                let sa = auth_resp(&[5; 6], 0x41, &[7; 8]);
                for order in 0..2 {
                    let mut body = vec![0, 0, 0, 4, 1, 2, 3, 4];
                    let (x, y) = if order == 0 { (&pa, &sa) } else { (&sa, &pa) };
                    body.extend(x);
                    body.extend(y);
                    let mut w = Wire::new(Ok(response(0x8002, 10 + body.len() as u32, 0, &body)));
                    let cmd = Cmd::<0x17F, Fixed<4>, ()>::new(vec![]);
                    let r = mc::guard(|| {
                        if order == 0 {
                            run_command_with_handles(&cmd, Raw(vec![]), (pw(), sc.clone()), &mut w).map(|_| ())
                        } else {
                            run_command_with_handles(&cmd, Raw(vec![]), (sc.clone(), pw()), &mut w).map(|_| ())
                        }
                    });
                    cov.evaluations += 1;
                    cov.traces += 1;
                    cov.transitions += 1;
                    let first = match (order, bad_pw, reject) {
                        (_, false, None) => None,
                        (0, true, _) | (1, true, None) => Some(0),
                        (_, _, Some(c)) => Some(c),
                        _ => None,
                    };
                    let good = match (&r, first) {
                        (Ok(Ok(())), None) => true,
                        (Ok(Err(_)), Some(0)) => true,
                        (Ok(Err(e)), Some(c)) => *e == WireError::Tss(c),
                        _ => false,
                    };
                    if !good {
                        check.fail("mixed", || format!("order {order}, password accepts {}, scripted rejects {reject:x?}: {r:?}", !bad_pw));
                    }
                }
            }
        }
        let all: Vec<u8> = (0..3).flat_map(|i| auth_resp(&bytes(i * 3, i as u64), i as u8, &bytes(4 - i, i as u64 + 5))).collect();
        for n in 0..=3usize {
            let s: Vec<_> = (0..n).map(|i| session(i as u8 + 1, 0x4000_0009, 0, 0, 0, None).0).collect();
            let g = |i: usize| s[i].clone();
            let need: usize = {
                let mut at = 0;
                for _ in 0..n {
                    at += 2 + be16(&all[at..]);
                    at += 1;
                    at += 2 + be16(&all[at..]);
                }
                at
            };
            for len in 0..=all.len() {
                let mut u = UnmarshalBuf::new(&all[..len]);
                let r = mc::guard(|| match n {
                    0 => read_response_sessions(&(), &mut u).is_ok(),
                    1 => read_response_sessions(&g(0), &mut u).is_ok(),
                    2 => read_response_sessions(&(g(0), g(1)), &mut u).is_ok(),
                    _ => read_response_sessions(&(g(0), g(1), g(2)), &mut u).is_ok(),
                });
                cov.evaluations += 1;
                cov.traces += 1;
                cov.transitions += 1;
                if r != Ok(len >= need) || (len >= need && u.len() != len - need) {
                    check.fail("reader", || format!("{n} sessions, {len} of {} bytes: {r:?}, {} left", all.len(), u.len()));
                }
            }
        }
    });
}
