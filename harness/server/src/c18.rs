//! C18: conversions between the generator's output forms.
use mc::{Check, Cov, explore, hex, mix};
use std::cell::RefCell;
use tpm2_impl::platform::crypto::{Drbg, DrbgError, drbg_helpers as h};

#[derive(Clone, Debug, PartialEq, Eq)]
enum Call {
    U32(Vec<u8>),
    U64(Vec<u8>),
    Fill(usize, Vec<u8>),
}
thread_local! { static LOG: RefCell<Vec<Call>> = const { RefCell::new(vec![]) }; }

/// A generator that logs its calls, produces call-dependent values and fails at a chosen call.
struct Rec {
    calls: usize,
    fail_at: usize,
    pattern: u64,
    /// Demands to be reseeded, though it goes on producing.
    demand: bool,
}
impl Rec {
    fn next(&mut self, c: Call) -> Result<u64, DrbgError> {
        LOG.with(|l| l.borrow_mut().push(c));
        let i = self.calls;
        self.calls += 1;
        if i == self.fail_at { Err(DrbgError) } else { Ok(value(self.pattern, i)) }
    }
}
const CORNERS: [u64; 12] = [
    0, 1, 0xFF, 0x100, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF, 0x1_0000_0000, 0x7FFF_FFFF_FFFF_FFFF, 0x8000_0000_0000_0000, u64::MAX, 0x0123_4567_89AB_CDEF,
];
fn value(pattern: u64, i: usize) -> u64 {
    match pattern {
        0 => mix(3, i as u64),
        1 => u64::MAX,
        2 => 0,
        3 => 0x8000_0000_8000_0000,
        4 => 0x0102_0304_0506_0708u64.wrapping_add((i as u64) << 3),
        5 => 0xFFFF_FFFF_0000_0000,
        p => CORNERS[(if i % 2 == 0 { p - 6 } else { (p - 6) / CORNERS.len() as u64 }) as usize % CORNERS.len()],
    }
}
fn fill_value(pattern: u64, i: usize, n: usize) -> Vec<u8> {
    (0..n).map(|k| (value(pattern, i) >> (8 * (k % 8))) as u8 ^ (k as u8 / 8)).collect()
}
impl Drbg for Rec {
    type Entropy = [u8; 1];
    type Nonce = [u8; 1];
    fn instantiate(_: &[u8; 1], _: &[u8; 1], _: &[u8]) -> Result<Self, DrbgError> {
        Err(DrbgError)
    }
    fn reseed(&mut self, _: &[u8; 1], _: &[u8]) -> Result<(), DrbgError> {
        panic!("a conversion helper must not reseed")
    }
    fn next_u32(&mut self, ai: &[u8]) -> Result<u32, DrbgError> {
        Ok(self.next(Call::U32(ai.to_vec()))? as u32)
    }
    fn next_u64(&mut self, ai: &[u8]) -> Result<u64, DrbgError> {
        self.next(Call::U64(ai.to_vec()))
    }
    fn fill_bytes(&mut self, ai: &[u8], dest: &mut [u8]) -> Result<(), DrbgError> {
        let i = self.calls;
        self.next(Call::Fill(dest.len(), ai.to_vec()))?;
        dest.copy_from_slice(&fill_value(self.pattern, i, dest.len()));
        Ok(())
    }
    fn requires_reseeding(&mut self) -> bool {
        self.demand
    }
}

fn expect_calls(which: usize, len: usize, ai: &[u8]) -> Vec<Call> {
    let mut v = vec![];
    let mut first = true;
    let mut arg = || {
        let a = if first { ai.to_vec() } else { vec![] };
        first = false;
        a
    };
    match which {
        0 => {
            for _ in 0..len / 8 {
                v.push(Call::U64(arg()));
            }
            match len % 8 {
                0 => {}
                1..=4 => v.push(Call::U32(arg())),
                _ => v.push(Call::U64(arg())),
            }
        }
        1 => v.push(Call::Fill(4, arg())),
        2 => v.push(Call::Fill(8, arg())),
        _ => {
            v.push(Call::U32(arg()));
            v.push(Call::U32(arg()));
        }
    }
    v
}

fn one(check: &Check, cov: &mut Cov, which: usize, len: usize, ai_len: usize, pattern: u64, fail_at: usize, kind: usize) {
    let ai: Vec<u8> = (0..ai_len).map(|i| match kind {
        1 => 0,
        2 => 0xFF,
        _ => (0xC0 + i * 7 + (i >> 8) * 3) as u8,
    }).collect();
    LOG.with(|l| l.borrow_mut().clear());
    let mut g = Rec { calls: 0, fail_at, pattern, demand: kind == 3 };
    let mut dest: Vec<u8> = vec![0x5C; len + 8];
    let r = mc::guard(|| match which {
        0 => h::fill_bytes_via_next(&mut g, &ai, &mut dest[4..4 + len]).map(|_| 0u64),
        1 => h::next_u32_via_fill(&mut g, &ai).map(u64::from),
        2 => h::next_u64_via_fill(&mut g, &ai),
        _ => h::next_u64_via_u32(&mut g, &ai),
    });
    cov.evaluations += 1;
    let calls = LOG.with(|l| l.borrow().clone());
    let mut want = expect_calls(which, len, &ai);
    let fails = fail_at < want.len();
    if fails {
        want.truncate(fail_at + 1);
    }
    let name = ["fill_bytes_via_next", "next_u32_via_fill", "next_u64_via_fill", "next_u64_via_u32"][which];
    let what = || format!("{name}, {len} bytes, additional input {ai_len} bytes, value pattern {pattern}, kind {kind}, failing call {fail_at}: calls {calls:?}");
    let r = match r {
        Err(p) => return check.fail("panic", || format!("{p}\n{}", what())),
        Ok(r) => r,
    };
    if calls != want {
        check.fail("calls", || format!("expected calls {want:?}\n{}", what()));
    }
    if r.is_err() != fails {
        check.fail("error", || format!("error returned: {}, generator failed: {fails}\n{}", r.is_err(), what()));
    }
    if dest[..4] != [0x5C; 4] || dest[4 + len..] != [0x5C; 4] {
        check.fail("outside", || what());
    }
    if fails {
        return;
    }
    match which {
        0 => {
            let mut all = vec![];
            for (i, c) in want.iter().enumerate() {
                match c {
                    Call::U64(_) => all.extend(value(pattern, i).to_le_bytes()),
                    _ => all.extend((value(pattern, i) as u32).to_le_bytes()),
                }
            }
            all.truncate(len);
            if dest[4..4 + len] != all {
                check.fail("bytes", || format!("got {} expected {}\n{}", hex(&dest[4..4 + len]), hex(&all), what()));
            }
        }
        _ => {
            let want = match which {
                1 => u32::from_le_bytes(fill_value(pattern, 0, 4).try_into().unwrap()) as u64,
                2 => u64::from_le_bytes(fill_value(pattern, 0, 8).try_into().unwrap()),
                _ => (value(pattern, 0) as u32 as u64) | ((value(pattern, 1) as u32 as u64) << 32),
            };
            if r != Ok(want) {
                check.fail("value", || format!("got {r:x?} expected {want:#x}\n{}", what()));
            }
        }
    }
    cov.sample(name, what);
}

pub fn run(check: &Check) {
    let maxlen = check.tier(1200usize, 3000);
    check.bound(format!("all destination lengths 0..={maxlen}, additional input lengths 0..=9, 6 value patterns, a failure at every call"));
    check.par((0..=maxlen).collect(), |cov, len| {
        explore(cov, len as u64, 0, |ch, cov| {
            let which = if len == 0 { ch.choose(4) } else { 0 };
            let ai = ch.choose(10);
            let pattern = ch.choose(6) as u64;
            let n = expect_calls(which, len, &[]).len();
            let fail_at = ch.choose(n + 1);
            one(check, cov, which, len, ai, pattern, fail_at, 0);
            !check.failing()
        });
    });
    check.bound("pairs of 12 corner values alternating, destination lengths 0..=24; additional inputs of zeros, of ones and a generator that demands reseeding, additional input lengths 0..=40");
    check.par((0..4usize).flat_map(|k| (0..=24usize).map(move |l| (k, l))).collect(), |cov, (which, len)| {
        if which > 0 && len > 0 {
            return;
        }
        explore(cov, 8 << 32 | (which * 100 + len) as u64, 0, |ch, cov| {
            let n = expect_calls(which, len, &[]).len();
            if ch.flip() {
                let pattern = 6 + ch.choose(144) as u64;
                one(check, cov, which, len, 3, pattern, n, 0);
            } else {
                let ai = ch.choose(41);
                let kind = 1 + ch.choose(3);
                let fail_at = ch.choose(n + 1);
                one(check, cov, which, len, ai, 0, fail_at, kind);
            }
            !check.failing()
        });
    });
    // long additional inputs
    let top = check.tier(4100usize, 9000);
    check.bound(format!("additional inputs of every length 0..={top} and around every power of two up to 65536, every helper, destination lengths 0..=24, a failure at every call"));
    let mut ais: Vec<usize> = (0..=top).collect();
    ais.extend((8..=16).map(|b| 1usize << b).flat_map(|p| p - 9..=p + 9));
    ais.sort();
    ais.dedup();
    check.par(ais, |cov, ai| {
        explore(cov, 7 << 32 | ai as u64, 0, |ch, cov| {
            let which = ch.choose(4);
            let len = if which == 0 { ch.choose(25) } else { 0 };
            let n = expect_calls(which, len, &[]).len();
            let fail_at = ch.choose(n + 1);
            one(check, cov, which, len, ai, 0, fail_at, 0);
            !check.failing()
        });
    });
    let big = check.tier(1usize << 20, 1 << 22);
    check.bound(format!("destination lengths around every power of two up to {big}"));
    let mut lens = vec![];
    let mut p = 256;
    while p <= big {
        for d in 0..=18 {
            lens.push(p - 9 + d);
        }
        p *= 2;
    }
    check.par(lens, |cov, len| {
        let calls = expect_calls(0, len, &[]).len();
        for fail_at in [calls, calls - 1, calls / 2] {
            one(check, cov, 0, len, 3, 0, fail_at, 0);
            cov.traces += 1;
            cov.transitions += 1;
            cov.state(mix(len as u64, fail_at as u64));
        }
    });
}
