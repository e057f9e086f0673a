//! C11: acceptance of responses.
use crate::c10::sessions;
use crate::fake::*;
use mc::{Check, Cov, hash_bytes, hex, mix};
use std::fmt::Debug;
use tpm2_client::{read_response_header, run_command, run_command_with_handles};
use tpm2_rs_base::Tpm2bSimple;
use tpm2_rs_base::commands::{GetCapabilityCmd, GetRandomCmd, PcrReadCmd, StartupCmd};
use tpm2_rs_base::constants::{TpmCap, TpmPt, TpmSu};
use tpm2_rs_base::marshal::{Marshalable, UnmarshalBuf};

/// What the model allows.
#[derive(Clone, Debug, PartialEq, Eq)]
enum Want {
    /// Exactly this response code.
    Code(u32),
    /// The wire's own error.
    Wire(u32),
    AnyError,
    /// (handles, parameters) exactly.
    Ok(Vec<u8>, Vec<u8>),
    /// Not claimed which, but if accepted then exactly this.
    OkOrError(Vec<u8>, Vec<u8>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Params {
    Fixed(usize),
    Sized,
}

fn model(b: &[u8], handles: usize, params: Params, n_sessions: usize) -> Want {
    let be32 = |s: &[u8]| u32::from_be_bytes([s[0], s[1], s[2], s[3]]);
    if b.len() < 10 {
        return Want::AnyError;
    }
    let rc = be32(&b[6..]);
    if rc != 0 {
        return Want::Code(rc);
    }
    let size = be32(&b[2..]) as usize;
    if size > b.len() || size < 10 {
        return Want::AnyError;
    }
    let mut unclaimed = size < b.len();
    let mut rest = &b[10..size];
    let mut take = |n: usize| -> Option<&[u8]> {
        if n > rest.len() {
            return None;
        }
        let (a, r) = rest.split_at(n);
        rest = r;
        Some(a)
    };
    let tag_sessions = b[..2] == [0x80, 0x02];
    if !tag_sessions && b[..2] != [0x80, 0x01] || tag_sessions != (n_sessions > 0) {
        unclaimed = true;
    }
    let Some(h) = take(handles) else { return Want::AnyError };
    let mut psize = None;
    if tag_sessions {
        let Some(p) = take(4) else { return Want::AnyError };
        psize = Some(be32(p) as usize);
    }
    let p = match params {
        Params::Fixed(n) => take(n),
        Params::Sized => take(2).and_then(|n| take(u16::from_be_bytes([n[0], n[1]]) as usize)),
    };
    let Some(p) = p else { return Want::AnyError };
    let plen = match params {
        Params::Fixed(n) => n,
        Params::Sized => 2 + p.len(),
    };
    if psize.is_some_and(|s| s != plen) {
        unclaimed = true;
    }
    let (h, p) = (h.to_vec(), p.to_vec());
    for _ in 0..n_sessions {
        let Some(n) = take(2) else { return Want::AnyError };
        let n = u16::from_be_bytes([n[0], n[1]]) as usize;
        if n > 64 || take(n).is_none() || take(1).is_none() {
            return Want::AnyError;
        }
        let Some(n) = take(2) else { return Want::AnyError };
        let n = u16::from_be_bytes([n[0], n[1]]) as usize;
        if n > 64 || take(n).is_none() {
            return Want::AnyError;
        }
    }
    if !rest.is_empty() {
        return Want::AnyError;
    }
    if unclaimed { Want::OkOrError(h, p) } else { Want::Ok(h, p) }
}

fn judge(check: &Check, cov: &mut Cov, got: Result<Result<(Vec<u8>, Vec<u8>), WireError>, String>, want: Want, what: &dyn Fn() -> String) {
    cov.evaluations += 1;
    let got = match got {
        Err(p) => return check.fail("panic", || format!("{p}\n{}", what())),
        Ok(g) => g,
    };
    let (key, good) = match (&want, &got) {
        (Want::Code(c), g) => ("response-code", *g == Err(WireError::Tss(*c))),
        (Want::Wire(c), g) => ("transport-error", *g == Err(WireError::Wire(*c))),
        (Want::AnyError, g) => ("accepted-malformed", g.is_err()),
        (Want::Ok(h, p), Ok((a, b))) => ("wrong-data", h == a && p == b),
        (Want::Ok(..), Err(_)) => ("rejected-well-formed", false),
        (Want::OkOrError(h, p), Ok((a, b))) => ("wrong-data", h == a && p == b),
        (Want::OkOrError(..), Err(_)) => ("", true),
    };
    if !good {
        check.fail(key, || format!("client returned {got:x?}, model {want:x?}\n{}", what()));
    }
    cov.sample(&format!("{want:?}").chars().take(6).collect::<String>(), || format!("{} -> {got:x?}", what()));
}

/// One run of a command with response shape (H bytes of handles, parameters P).
#[derive(Clone, Copy, Debug)]
struct Shape {
    handles: usize,
    params: Params,
    /// Session shape of C10.
    sess: usize,
}

fn exec<R: Marshalable + Debug, H: Marshalable + Debug>(w: &mut Wire, sess: usize, r: fn(R) -> Vec<u8>, h: fn(H) -> Vec<u8>) -> Result<Result<(Vec<u8>, Vec<u8>), WireError>, String> {
    let cmd = Cmd::<0x17F, R, H>::new(vec![1, 2, 3]);
    let s = sessions(sess);
    let g = |i: usize| s[i].0.clone();
    mc::guard(|| {
        let hh = Raw(vec![0; 4]);
        match s.len() {
            0 => run_command_with_handles(&cmd, hh, (), w),
            1 => run_command_with_handles(&cmd, hh, g(0), w),
            2 => run_command_with_handles(&cmd, hh, (g(0), g(1)), w),
            _ => run_command_with_handles(&cmd, hh, (g(0), g(1), g(2)), w),
        }
        .map(|(a, b)| (h(b), r(a)))
    })
}

fn go(check: &Check, cov: &mut Cov, sh: Shape, w: &mut Wire) {
    let n = sessions(sh.sess).len();
    let want = match &w.answer {
        Err(e) => Want::Wire(*e),
        Ok(b) => model(b, sh.handles, sh.params, n),
    };
    fn f<const N: usize>(x: Fixed<N>) -> Vec<u8> {
        x.0.to_vec()
    }
    macro_rules! params {
        ($h:ty, $hf:expr) => {
            match sh.params {
                Params::Fixed(0) => exec::<(), $h>(w, sh.sess, |_| vec![], $hf),
                Params::Fixed(1) => exec::<Fixed<1>, $h>(w, sh.sess, f, $hf),
                Params::Fixed(4) => exec::<Fixed<4>, $h>(w, sh.sess, f, $hf),
                Params::Fixed(4086) => exec::<Fixed<4086>, $h>(w, sh.sess, f, $hf),
                Params::Fixed(_) => exec::<Fixed<7>, $h>(w, sh.sess, f, $hf),
                Params::Sized => exec::<Sized16, $h>(w, sh.sess, |s| s.0, $hf),
            }
        };
    }
    let got = match sh.handles {
        0 => params!((), |_| vec![]),
        4 => params!(Fixed<4>, f),
        _ => params!(Fixed<8>, f),
    };
    cov.traces += 1;
    cov.transitions += 1;
    if let Ok(b) = &w.answer {
        cov.state(hash_bytes(mix(sh.handles as u64, sh.sess as u64), b));
    }
    let (place, trail) = (w.place, w.trail.clone());
    let answer = w.answer.clone();
    judge(check, cov, got, want, &|| {
        format!("{sh:?}, answer {}, placed {place:?}, followed in the buffer by {}", answer.as_ref().map(|b| hex(b)).unwrap_or("none".into()), hex(&trail))
    });
}

/// A well-formed response of a shape; `plen` bytes of sized parameters; authorization sizes.
fn well_formed(sh: Shape, plen: usize, nonce: usize, hmac: usize) -> Vec<u8> {
    let n = sessions(sh.sess).len();
    let mut body = bytes(sh.handles, 31);
    let p = match sh.params {
        Params::Fixed(k) => bytes(k, 32),
        Params::Sized => {
            let mut v = (plen as u16).to_be_bytes().to_vec();
            v.extend(bytes(plen, 33));
            v
        }
    };
    if n > 0 {
        body.extend((p.len() as u32).to_be_bytes());
    }
    body.extend(&p);
    for i in 0..n {
        body.extend(auth_resp(&bytes(nonce, i as u64), 1, &bytes(hmac, i as u64 + 7)));
    }
    response(if n > 0 { 0x8002 } else { 0x8001 }, 10 + body.len() as u32, 0, &body)
}

pub fn run(check: &Check) {
    let mut shapes = vec![];
    for handles in [0usize, 4, 8] {
        for params in [Params::Fixed(0), Params::Fixed(1), Params::Fixed(4), Params::Fixed(7), Params::Sized] {
            for sess in [0usize, 1, 2, 4, 6, 7] {
                shapes.push(Shape { handles, params, sess });
            }
        }
    }
    check.bound(format!("{} response shapes (0/4/8 handle bytes, five parameter forms, 0-3 sessions) x every truncation x what follows in the buffer, every announced size 0..=received+30 and aliases, every single-byte replacement, every insertion and deletion", shapes.len()));
    check.par(shapes.clone(), |cov, sh| {
        for (plen, nonce, hmac) in [(5usize, 0usize, 0usize), (0, 3, 5), (17, 64, 64)] {
            if sh.params != Params::Sized && plen == 17 && sh.sess == 0 {
                continue;
            }
            let good = well_formed(sh, plen, nonce, hmac);
            let n = good.len();
            // the whole and every truncation, with the missing rest lying unreceived in the buffer
            for cut in 0..=n {
                for trail in [vec![], good[cut..].to_vec(), vec![0; 600], vec![0xFF; 600]] {
                    for fix_size in [false, true] {
                        let mut b = good[..cut].to_vec();
                        if fix_size {
                            if cut < 6 || trail.len() == 600 {
                                continue;
                            }
                            b[2..6].copy_from_slice(&(cut as u32).to_be_bytes());
                        }
                        let mut w = Wire::new(Ok(b));
                        w.trail = trail.clone();
                        go(check, cov, sh, &mut w);
                        if trail.is_empty() {
                            w.place = Place::At(37);
                            go(check, cov, sh, &mut w);
                        }
                    }
                }
            }
            // announced size
            let mut sizes: Vec<u32> = (0..=n as u32 + 30).collect();
            for a in [256u32, 65536, 1 << 24, 1 << 31, 1 << 30] {
                sizes.extend([a, a + n as u32, a + 10, a.wrapping_sub(1)]);
            }
            sizes.extend([u32::MAX, u32::MAX - n as u32, (n as u32).swap_bytes(), 4095, 4096, 4097]);
            for s in sizes {
                for trail in [vec![], bytes(64, 3)] {
                    let mut b = good.clone();
                    b[2..6].copy_from_slice(&s.to_be_bytes());
                    let mut w = Wire::new(Ok(b));
                    w.trail = trail;
                    go(check, cov, sh, &mut w);
                }
            }
            // corruption of each byte
            for i in 0..n {
                for v in 0..=255u8 {
                    let mut b = good.clone();
                    b[i] = v;
                    go(check, cov, sh, &mut Wire::new(Ok(b)));
                    if check.failing() {
                        return;
                    }
                }
            }
            // a byte too many or too few anywhere, with a consistent size field
            for i in 10..=n {
                let mut b = good.clone();
                b.insert(i, 0x3C);
                b[2..6].copy_from_slice(&(n as u32 + 1).to_be_bytes());
                go(check, cov, sh, &mut Wire::new(Ok(b)));
                if i < n {
                    let mut b = good.clone();
                    b.remove(i);
                    b[2..6].copy_from_slice(&(n as u32 - 1).to_be_bytes());
                    go(check, cov, sh, &mut Wire::new(Ok(b)));
                }
            }
            if check.thorough && n <= 40 {
                for i in 0..n {
                    for j in 0..i {
                        for v in [0u8, 1, 2, 3, 9, 10, 11, 64, 65, 0x7F, 0x80, 0xFF] {
                            for u in [0u8, 1, 2, 3, 9, 10, 11, 64, 65, 0x7F, 0x80, 0xFF] {
                                let mut b = good.clone();
                                b[i] = v;
                                b[j] = u;
                                go(check, cov, sh, &mut Wire::new(Ok(b)));
                            }
                        }
                    }
                }
            }
        }
    });
    // tags and session areas that do not match the command
    check.bound("every shape answered with every tag of 16 and the whole body of every other session count, with right and wrong parameter sizes");
    check.par(shapes.clone(), |cov, sh| {
        for other in [0usize, 1, 4, 6, 7] {
            let good = well_formed(Shape { sess: other, ..sh }, 6, 0, 0);
            for tag in [0x8001u16, 0x8002, 0x8000, 0x8003, 0x8004, 0, 0xC4, 0xFFFF, 0x0180, 0x0280, 0x0001, 0x0002, 0x8101, 0x8102, 0x8014, 0x8024] {
                let mut b = good.clone();
                b[..2].copy_from_slice(&tag.to_be_bytes());
                go(check, cov, sh, &mut Wire::new(Ok(b.clone())));
                // the parameter size taken out or put in
                let at = 10 + sh.handles;
                let mut c = b.clone();
                if other > 0 {
                    c.drain(at..at + 4);
                } else {
                    let p = (b.len() - at) as u32;
                    c.splice(at..at, p.to_be_bytes());
                }
                let n = c.len() as u32;
                c[2..6].copy_from_slice(&n.to_be_bytes());
                go(check, cov, sh, &mut Wire::new(Ok(c)));
            }
        }
    });
    // contents of handles, parameters and authorizations
    check.bound("every shape with all, only the handles, or only the parameters and authorization values consisting of one byte value (256 values)");
    check.par(shapes.clone(), |cov, sh| {
        for v in 0..=255u8 {
            for what in 0..3 {
                let mut b = well_formed(sh, 6, 2, 2);
                let at = 10 + sh.handles;
                if what != 2 {
                    b[10..at].fill(v);
                }
                let mut p = at + if sessions(sh.sess).is_empty() { 0 } else { 4 };
                let n = match sh.params {
                    Params::Fixed(n) => n,
                    Params::Sized => {
                        p += 2;
                        6
                    }
                };
                if what != 1 {
                    b[p..p + n].fill(v);
                }
                go(check, cov, sh, &mut Wire::new(Ok(b)));
            }
        }
    });
    // histories: nothing of a response is left for a later one
    let alpha: Vec<(Shape, Result<Vec<u8>, u32>)> = {
        let sh = |handles, params, sess| Shape { handles, params, sess };
        let mut v = vec![];
        for s in [sh(0, Params::Fixed(0), 0), sh(4, Params::Fixed(4), 0), sh(8, Params::Sized, 0), sh(0, Params::Sized, 1), sh(4, Params::Fixed(7), 4), sh(4, Params::Sized, 7)] {
            let good = well_formed(s, 23, 3, 9);
            v.push((s, Ok(good.clone())));
            v.push((s, Ok(good[..good.len() - 1].to_vec())));
            let mut short = good.clone();
            short.truncate(10);
            short[2..6].copy_from_slice(&10u32.to_be_bytes());
            v.push((s, Ok(short)));
        }
        v.push((sh(4, Params::Sized, 0), Ok(response(0x8001, 10, 0x922, &[]))));
        v.push((sh(4, Params::Sized, 1), Ok(response(0x8001, 10, 0x98E, &[]))));
        v.push((sh(0, Params::Sized, 0), Ok(vec![])));
        v.push((sh(0, Params::Sized, 0), Ok(vec![0x80, 1, 0, 0])));
        v.push((sh(0, Params::Sized, 0), Err(77)));
        v.push((sh(0, Params::Sized, 0), Ok(well_formed(sh(0, Params::Sized, 0), 3000, 0, 0))));
        v
    };
    let depth = check.tier(4, 5);
    check.bound(format!("all histories of {depth} of {} commands (well-formed, truncated, empty, refused and failed responses) on one connection", alpha.len()));
    check.par((0..alpha.len()).collect(), |cov, first| {
        mc::explore(cov, mix(111, first as u64), 0, |ch, cov| {
            let mut w = Wire::new(Err(0));
            for d in 0..depth {
                let (sh, answer) = &alpha[if d == 0 { first } else { ch.choose(alpha.len()) }];
                w.answer = answer.clone();
                w.sent.clear();
                go(check, cov, *sh, &mut w);
            }
            !check.failing()
        });
        for other in 0..alpha.len() {
            let mut w = Wire::new(Err(0));
            for k in 0..600 {
                let (sh, answer) = &alpha[if k % 2 == 0 { first } else { other }];
                w.answer = answer.clone();
                w.sent.clear();
                go(check, cov, *sh, &mut w);
            }
        }
    });
    check.bound("every pair of those commands alternating 600 times");
    // large responses
    check.bound("sized responses of every length 0..=4200 and lengths around powers of two up to 65535 (received inside and outside the offered buffer), a response filling the buffer exactly");
    let large = [8192usize, 16384, 32768, 65536].into_iter().flat_map(|p| p - 40..p + 40).filter(|&n| n < 65536);
    check.par((0..=4200usize).chain(large).collect(), |cov, plen| {
        for sess in [0usize, 1] {
            let sh = Shape { handles: 4, params: Params::Sized, sess };
            let good = well_formed(sh, plen, 0, 0);
            go(check, cov, sh, &mut Wire::new(Ok(good.clone())));
            let mut b = good.clone();
            b.pop();
            let mut w = Wire::new(Ok(b));
            w.trail = vec![good[good.len() - 1]];
            go(check, cov, sh, &mut w);
        }
        if plen == 0 {
            let sh = Shape { handles: 0, params: Params::Fixed(4086), sess: 0 };
            let good = well_formed(sh, 0, 0, 0);
            for cut in 0..=good.len() {
                go(check, cov, sh, &mut Wire::new(Ok(good[..cut].to_vec())));
            }
        }
    });
    // response codes
    check.bound("response codes: all 2^16 in each half and all 1-3 bit patterns answered to a command (both tags, complete and bare headers, wrong sizes), all 2^32 given to the header reader; 4096 transport errors");
    let sh0 = Shape { handles: 4, params: Params::Fixed(4), sess: 0 };
    check.par((0..256u32).collect(), |cov, hi| {
        for lo in 0..256u32 {
            let v = hi << 8 | lo;
            for c in [v, v << 16, v << 16 | v & 0xFF] {
                if c == 0 {
                    continue;
                }
                for (tag, size) in [(0x8001u16, 10u32), (0x8002, 10), (0x8001, 18), (0x00C4, 10), (0x8001, 4), (0x8001, 70000)] {
                    let body = if size == 18 { bytes(8, 3) } else { vec![] };
                    go(check, cov, if lo % 2 == 0 { sh0 } else { Shape { sess: 1, ..sh0 } }, &mut Wire::new(Ok(response(tag, size, c, &body))));
                }
            }
            if hi < 16 {
                go(check, cov, sh0, &mut Wire::new(Err(v)));
            }
        }
        if hi < 32 {
            for j in 0..=hi {
                for k in 0..=j {
                    let c = 1u32 << hi | 1 << j | 1 << k;
                    go(check, cov, sh0, &mut Wire::new(Ok(response(0x8001, 10, c, &[]))));
                }
            }
        }
        // every tag
        for lo in 0..256u32 {
            let tag = (hi << 8 | lo) as u16;
            for sess in [0, 1] {
                let sh = Shape { sess, ..sh0 };
                let mut b = well_formed(sh, 0, 0, 0);
                b[..2].copy_from_slice(&tag.to_be_bytes());
                go(check, cov, sh, &mut Wire::new(Ok(b)));
            }
        }
    });
    {
        check.par((0..4096u32).collect(), |cov, k| {
            for v in k << 20..=(k << 20 | 0xF_FFFF) {
                let mut b = [0x80, 1, 0, 0, 0, 10, 0, 0, 0, 0];
                b[6..].copy_from_slice(&v.to_be_bytes());
                let r = read_response_header(&b).map(|h| (h.0.size, h.1)).map_err(|e| e.get());
                if r != if v == 0 { Ok((10, 10)) } else { Err(v) } {
                    check.fail("header-code", || format!("code {v:#x}: {r:x?}"));
                    return;
                }
            }
            cov.states += 1 << 20;
            cov.transitions += 1 << 20;
            cov.traces += 1 << 20;
            cov.evaluations += 1 << 20;
        });
    }
    // the header reader with every length
    check.run(|cov| {
        for len in 0..=14usize {
            let b = response(0x8001, 0x0102_0304, 0, &[9; 4]);
            let r = mc::guard(|| read_response_header(&b[..len]).map(|(h, n)| (h.tag.0, h.size, h.rc, n)));
            cov.evaluations += 1;
            let want = (len >= 10).then_some((0x8001, 0x0102_0304, 0, 10));
            match r {
                Err(p) => check.fail("panic", || p),
                Ok(r) => {
                    if r.ok() != want {
                        check.fail("header", || format!("header of {len} bytes: {r:x?}"));
                    }
                }
            }
        }
    });
    // the crate's own commands
    check.bound("GetRandom: every digest length 0..=70 x every truncation; Startup, GetCapability, PcrRead: representative responses x every truncation, corruption of every byte (no panic) and surplus bytes");
    check.par((0..=70usize).collect(), |cov, n| {
        let mut body = (n as u16).to_be_bytes().to_vec();
        body.extend(bytes(n, 8));
        let good = response(0x8001, 10 + body.len() as u32, 0, &body);
        for cut in 0..=good.len() + 1 {
            let mut b = good.clone();
            b.resize(cut, 0);
            if cut >= 6 && cut != good.len() {
                b[2..6].copy_from_slice(&(cut as u32).to_be_bytes());
            }
            let mut w = Wire::new(Ok(b.clone()));
            w.trail = good.get(cut..).unwrap_or(&[]).to_vec();
            let got = mc::guard(|| run_command(&GetRandomCmd { bytes_requested: 4 }, &mut w).map(|r| (vec![], r.random_bytes.get_buffer().to_vec())));
            let want = if cut == good.len() && n <= 64 { Want::Ok(vec![], bytes(n, 8)) } else { Want::AnyError };
            judge(check, cov, got, want, &|| format!("GetRandom answered {}", hex(&b)));
            cov.traces += 1;
            cov.transitions += 1;
        }
    });
    let caps: Vec<Vec<u8>> = vec![
        // algorithms
        [&[1u8][..], &[0, 0, 0, 0, 0, 0, 0, 2, 0, 1, 0, 0, 0, 9, 0, 0x0B, 0, 0, 0, 4]].concat(),
        // handles
        [&[0u8][..], &[0, 0, 0, 1, 0, 0, 0, 1, 0x80, 0, 0, 1]].concat(),
        // properties
        [&[0u8][..], &[0, 0, 0, 6, 0, 0, 0, 2, 0, 0, 1, 0, 0x32, 0x2E, 0x30, 0, 0, 0, 1, 5, 0, 0, 0, 0]].concat(),
        // banks
        [&[0u8][..], &[0, 0, 0, 5, 0, 0, 0, 1, 0, 0x0B, 3, 1, 2, 3]].concat(),
    ];
    check.par(caps, |cov, body| {
        let good = response(0x8001, 10 + body.len() as u32, 0, &body);
        let cmd = GetCapabilityCmd { capability: TpmCap::Algs, property: TpmPt(0), property_count: 1 };
        let go = |b: Vec<u8>, want: Option<bool>, cov: &mut Cov| {
            let mut w = Wire::new(Ok(b.clone()));
            let r = mc::guard(|| tpm2_client::get_capability(&mut w, &cmd));
            cov.evaluations += 1;
            cov.traces += 1;
            cov.transitions += 1;
            cov.state(hash_bytes(4, &b));
            match r {
                Err(p) => check.fail("panic", || format!("{p}\nGetCapability answered {}", hex(&b))),
                Ok(r) => {
                    if want.is_some_and(|w| w != r.is_ok()) {
                        check.fail("capability", || format!("GetCapability answered {}: {r:?}", hex(&b)));
                    }
                    if let Ok(v) = &r {
                        // what was returned is what was received
                        let mut e = vec![0u8; 8192];
                        let n = v.try_marshal(&mut e).unwrap_or(0);
                        let size = b.get(2..6).map_or(0, |s| u32::from_be_bytes(s.try_into().unwrap()) as usize);
                        if b.get(10..size) != Some(&e[..n]) {
                            check.fail("capability-data", || format!("GetCapability answered {}: {}", hex(&b), hex(&e[..n])));
                        }
                    }
                }
            }
        };
        go(good.clone(), Some(true), cov);
        for cut in 0..good.len() {
            let mut b = good[..cut].to_vec();
            go(b.clone(), Some(false), cov);
            if cut >= 6 {
                b[2..6].copy_from_slice(&(cut as u32).to_be_bytes());
                go(b, Some(false), cov);
            }
        }
        let mut b = good.clone();
        b.push(0);
        b[2..6].copy_from_slice(&(good.len() as u32 + 1).to_be_bytes());
        go(b, Some(false), cov);
        for i in 10..good.len() {
            for v in 0..=255u8 {
                let mut b = good.clone();
                b[i] = v;
                go(b, None, cov);
            }
        }
    });
    check.run(|cov| {
        // Startup has no output
        for extra in 0..20usize {
            let b = response(0x8001, 10 + extra as u32, 0, &vec![0; extra]);
            let got = mc::guard(|| run_command(&StartupCmd { startup_type: TpmSu::Clear }, &mut Wire::new(Ok(b.clone()))).map(|_| (vec![], vec![])));
            judge(check, cov, got, if extra == 0 { Want::Ok(vec![], vec![]) } else { Want::AnyError }, &|| format!("Startup answered {}", hex(&b)));
        }
        let pcr = PcrReadCmd::try_unmarshal(&mut UnmarshalBuf::new(&[0, 0, 0, 0])).unwrap_or_else(|_| panic!("harness"));
        let mut body = vec![0, 0, 0, 9, 0, 0, 0, 1, 0, 0x0B, 3, 7, 0, 0, 0, 0, 0, 2, 0, 3, 1, 2, 3, 0, 1, 9];
        let full = response(0x8001, 10 + body.len() as u32, 0, &body);
        for cut in 0..=full.len() {
            let mut b = full[..cut].to_vec();
            if cut >= 6 {
                b[2..6].copy_from_slice(&(cut as u32).to_be_bytes());
            }
            let r = mc::guard(|| run_command(&pcr, &mut Wire::new(Ok(b.clone()))).map(|r| {
                let mut e = vec![0; 4096];
                let n = r.try_marshal(&mut e).unwrap_or(0);
                (vec![], e[..n].to_vec())
            }));
            judge(check, cov, r, if cut == full.len() { Want::Ok(vec![], body.clone()) } else { Want::AnyError }, &|| format!("PcrRead answered {}", hex(&b)));
        }
        body.push(1);
        cov.traces += 40;
        cov.transitions += 40;
    });
}
