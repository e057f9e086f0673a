//! C25: the decoding cursor and the primitive values of the codec, one after another.
use mc::{Check, Cov, explore, hash_bytes, hex, mix};
use tpm2_rs_marshalable::{Error, Marshalable, UnmarshalBuf};

/// Kinds of primitive values and their sizes.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum K {
    U8,
    U16,
    U32,
    U64,
    I8,
    I16,
    I32,
    I64,
    Unit,
    A0,
    A1,
    A3,
    A5,
    A16,
    A33,
}
const KINDS: [K; 15] = [K::U8, K::U16, K::U32, K::U64, K::I8, K::I16, K::I32, K::I64, K::Unit, K::A0, K::A1, K::A3, K::A5, K::A16, K::A33];
impl K {
    fn size(self) -> usize {
        match self {
            K::Unit | K::A0 => 0,
            K::U8 | K::I8 | K::A1 => 1,
            K::U16 | K::I16 => 2,
            K::A3 => 3,
            K::U32 | K::I32 => 4,
            K::A5 => 5,
            K::U64 | K::I64 => 8,
            K::A16 => 16,
            K::A33 => 33,
        }
    }
}
/// The number denoted by big-endian bytes, computed without the standard conversions.
fn number(b: &[u8], signed: bool) -> i128 {
    let mut v = 0i128;
    for &x in b {
        v = v * 256 + x as i128;
    }
    if signed && b.first().is_some_and(|x| x & 0x80 != 0) {
        v -= 1i128 << (8 * b.len());
    }
    v
}
fn from_number<T: TryFrom<i128>>(v: i128) -> T {
    T::try_from(v).unwrap_or_else(|_| unreachable!())
}

/// Decodes a value of the kind; on success: does it equal the value those bytes denote, and what it encodes to.
fn decode(k: K, c: &mut UnmarshalBuf, next: &[u8], out: &mut [u8]) -> Result<(bool, Result<usize, Error>), Error> {
    macro_rules! int {
        ($t:ty, $s:expr) => {{
            let v = <$t>::try_unmarshal(c)?;
            (next.len() == size_of::<$t>() && v == from_number::<$t>(number(next, $s)), v.try_marshal(out))
        }};
    }
    macro_rules! array {
        ($n:literal) => {{
            let v = <[u8; $n]>::try_unmarshal(c)?;
            (v[..] == *next, v.try_marshal(out))
        }};
    }
    Ok(match k {
        K::U8 => int!(u8, false),
        K::U16 => int!(u16, false),
        K::U32 => int!(u32, false),
        K::U64 => int!(u64, false),
        K::I8 => int!(i8, true),
        K::I16 => int!(i16, true),
        K::I32 => int!(i32, true),
        K::I64 => int!(i64, true),
        K::Unit => {
            <()>::try_unmarshal(c)?;
            (true, ().try_marshal(out))
        }
        K::A0 => array!(0),
        K::A1 => array!(1),
        K::A3 => array!(3),
        K::A5 => array!(5),
        K::A16 => array!(16),
        K::A33 => array!(33),
    })
}
/// Encodes the value that `bytes` denote.
fn encode(k: K, bytes: &[u8], out: &mut [u8]) -> Result<usize, Error> {
    macro_rules! int {
        ($t:ty, $s:expr) => {
            from_number::<$t>(number(bytes, $s)).try_marshal(out)
        };
    }
    macro_rules! array {
        ($n:literal) => {{
            let a: [u8; $n] = std::array::from_fn(|i| bytes[i]);
            a.try_marshal(out)
        }};
    }
    match k {
        K::U8 => int!(u8, false),
        K::U16 => int!(u16, false),
        K::U32 => int!(u32, false),
        K::U64 => int!(u64, false),
        K::I8 => int!(i8, true),
        K::I16 => int!(i16, true),
        K::I32 => int!(i32, true),
        K::I64 => int!(i64, true),
        K::Unit => ().try_marshal(out),
        K::A0 => array!(0),
        K::A1 => array!(1),
        K::A3 => array!(3),
        K::A5 => array!(5),
        K::A16 => array!(16),
        K::A33 => array!(33),
    }
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Get(usize),
    Value(K),
}
fn content(kind: usize, n: usize) -> Vec<u8> {
    (0..n)
        .map(|i| match kind {
            0 => (mix(25, i as u64) >> 9) as u8,
            1 => 0,
            2 => 0xFF,
            3 => i as u8,
            _ => 0x80 | i as u8,
        })
        .collect()
}
fn canary(i: usize) -> u8 {
    (i as u8).wrapping_mul(29) ^ 0x6B
}

/// One operation on a cursor at position `pos` of `all`; false stops.
fn step(check: &Check, cov: &mut Cov, all: &[u8], pos: &mut usize, c: &mut UnmarshalBuf, op: Op, hist: &dyn Fn() -> String) -> bool {
    cov.evaluations += 1;
    let n = match op {
        Op::Get(n) => n,
        Op::Value(k) => k.size(),
    };
    let left = all.len() - *pos;
    let fits = n <= left;
    let next = if fits { &all[*pos..*pos + n] } else { &[][..] };
    let from = *pos;
    let what = || format!("{op:?} at {from} of {} ({})", hex(&all[..all.len().min(80)]), hist());
    let mut out = [0xE1u8; 40];
    let r = mc::guard(|| match op {
        Op::Get(n) => match c.get(n) {
            None => Err(None),
            Some(b) => Ok((b == next, None)),
        },
        Op::Value(k) => match decode(k, c, next, &mut out) {
            Err(e) => Err(Some(e)),
            Ok((eq, enc)) => Ok((eq, Some(enc))),
        },
    });
    match r {
        Err(p) => {
            check.fail("panic", || format!("{p}\n{}", what()));
            return false;
        }
        Ok(Ok((equal, enc))) => {
            if !fits {
                check.fail("accepted", || what());
                return false;
            }
            if !equal {
                check.fail("wrong-bytes", || what());
            }
            if let Some(enc) = enc {
                if enc != Ok(n) || out[..n] != *next || out[n..].iter().any(|b| *b != 0xE1) {
                    check.fail("re-encoding", || format!("{enc:?} {}\n{}", hex(&out), what()));
                }
            }
            *pos += n;
        }
        Ok(Err(e)) => {
            if fits {
                check.fail("refused", || format!("{e:?}\n{}", what()));
                return false;
            }
            if e.is_some_and(|e| e != Error::UnexpectedEndOfBuffer) {
                check.fail("wrong-error", || format!("{e:?}\n{}", what()));
            }
        }
    }
    if c.len() != all.len() - *pos || c.is_empty() != (*pos == all.len()) {
        check.fail("rest", || format!("{} bytes left, empty: {}\n{}", c.len(), c.is_empty(), what()));
        return false;
    }
    true
}

/// Encodes one value into a part of a buffer and compares.
fn put(check: &Check, cov: &mut Cov, k: K, bytes: &[u8], room: usize) {
    cov.evaluations += 1;
    let mut out: Vec<u8> = (0..room).map(canary).collect();
    let n = bytes.len();
    let r = mc::guard(|| encode(k, bytes, &mut out));
    let good = match &r {
        Err(_) => false,
        Ok(Ok(w)) => n <= room && *w == n && out[..n] == *bytes && (n..room).all(|i| out[i] == canary(i)),
        Ok(Err(e)) => n > room && *e == Error::UnexpectedEndOfBuffer,
    };
    if !good {
        check.fail("encoding", || format!("{k:?} {} into {room} bytes: {r:?} {}", hex(bytes), hex(&out)));
    }
}

/// Byte arrays of one size: every room to encode into and every number of bytes to decode from (large ones: around
/// the size), five contents.
fn arrays<const N: usize>(check: &Check, cov: &mut Cov) {
    let near = |n: &usize| N <= 600 || *n <= 2 || (N - 2..=N + 3).contains(n) || n.is_power_of_two();
    for kind in 0..5 {
        let bytes = content(kind, N + 3);
        let Ok(value) = <[u8; N]>::try_from(&bytes[..N]) else { unreachable!() };
        for room in (0..=N + 3).filter(near) {
            cov.evaluations += 2;
            cov.traces += 1;
            cov.transitions += 2;
            cov.state(mix(mix(N as u64, room as u64), 7000 + kind as u64));
            let mut out: Vec<u8> = (0..room).map(canary).collect();
            let r = mc::guard(|| value.try_marshal(&mut out));
            let good = match &r {
                Ok(Ok(w)) => *w == N && room >= N && out[..N] == bytes[..N] && (N..room).all(|i| out[i] == canary(i)),
                Ok(Err(e)) => room < N && *e == Error::UnexpectedEndOfBuffer,
                Err(_) => false,
            };
            if !good {
                check.fail("encoding-array", || format!("[u8; {N}] contents {kind} into {room} bytes: {r:?}"));
            }
            let mut c = UnmarshalBuf::new(&bytes[..room]);
            let r = mc::guard(|| <[u8; N]>::try_unmarshal(&mut c));
            let good = match &r {
                Ok(Ok(v)) => room >= N && *v == value && c.len() == room - N && c.get(room - N) == Some(&bytes[N..room]),
                Ok(Err(e)) => room < N && *e == Error::UnexpectedEndOfBuffer && c.len() == room && c.get(room) == Some(&bytes[..room]),
                Err(_) => false,
            };
            if !good {
                check.fail("decoding-array", || format!("[u8; {N}] contents {kind} from {room} bytes: {:?}", r.map(|r| r.map(|v| hex(&v[..N.min(80)])))));
            }
        }
    }
}

pub fn run(check: &Check) {
    let mut ops: Vec<Op> = KINDS.map(Op::Value).to_vec();
    ops.extend([0usize, 1, 2, 3, 4, 7, 8, 9, 17, 1 << 32, isize::MAX as usize, usize::MAX].map(Op::Get));
    let depth = check.tier(4usize, 5);
    let max = check.tier(24usize, 48);
    check.bound(format!("every history of {depth} of {} operations (5 contents: {}) on one cursor over 0..={max} bytes", ops.len(), depth - 1));
    let items: Vec<(usize, usize)> = (0..=max).flat_map(|n| (0..5).map(move |k| (n, k))).collect();
    check.par(items, |cov, (n, kind)| {
        let all = content(kind, n);
        let depth = if kind == 0 { depth } else { depth - 1 };
        explore(cov, mix(25, (n * 8 + kind) as u64), 0, |ch, cov| {
            let mut c = UnmarshalBuf::new(&all);
            let mut pos = 0;
            let mut hist = vec![];
            for _ in 0..depth {
                let op = *ch.pick(&ops);
                let ok = step(check, cov, &all, &mut pos, &mut c, op, &|| format!("after {hist:?}"));
                if !ok {
                    break;
                }
                hist.push(op);
                cov.state(mix(mix(n as u64, pos as u64), kind as u64));
            }
            !check.failing()
        });
    });
    check.bound("cursors over 0..=300 bytes and around powers of two to 131072: every length taken (large ones: around the rest), twice");
    let mut lens: Vec<usize> = (0..=300).collect();
    lens.extend((9..=17).map(|b| 1usize << b).flat_map(|p| [p - 1, p, p + 1]));
    check.par(lens, |cov, n| {
        let all = content(0, n);
        let mut takes: Vec<usize> = if n <= 300 { (0..=n + 3).collect() } else { [0, 1, 255, 256, 257, 65535, 65536, 65537].into_iter().chain(n - 3..=n + 3).collect() };
        takes.extend((3..64).flat_map(|b| [(1usize << b) + n, (1usize << b).wrapping_sub(1), 1usize << b]));
        takes.push(usize::MAX);
        for &first in &takes {
            for second in [0, 1, n.saturating_sub(first), n.saturating_sub(first) + 1] {
                let mut c = UnmarshalBuf::new(&all);
                let mut pos = 0;
                cov.traces += 1;
                cov.transitions += 2;
                if step(check, cov, &all, &mut pos, &mut c, Op::Get(first), &String::new) {
                    step(check, cov, &all, &mut pos, &mut c, Op::Get(second), &|| format!("after get({first})"));
                }
                cov.state(mix(n as u64, mix(first as u64, second as u64)));
            }
        }
    });
    // values
    check.bound("all 8- and 16-bit values, all 32-bit values with 3 fixed or equal halves (thorough: all), 64-bit values of up to two bits set or cleared and every 16-bit part; arrays with every byte value in every place; every room 0..=size+3");
    check.par((0..=255u32).collect(), |cov, hi| {
        for lo in 0..=255u32 {
            let half = [hi as u8, lo as u8];
            let mut one = |k: K, b: &[u8]| {
                for room in [k.size(), k.size() + 1] {
                    put(check, cov, k, b, room);
                }
                let tail = [b, &[0x77, 0]].concat();
                for all in [b, &tail[..]] {
                    let mut c = UnmarshalBuf::new(all);
                    let mut pos = 0;
                    step(check, cov, all, &mut pos, &mut c, Op::Value(k), &String::new);
                }
                cov.traces += 1;
                cov.transitions += 1;
                cov.state(hash_bytes(k as u64, b));
            };
            if hi == 0 {
                one(K::U8, &half[1..]);
                one(K::I8, &half[1..]);
                one(K::A1, &half[1..]);
            }
            one(K::U16, &half);
            one(K::I16, &half);
            for other in [[0, 0], [0xFF, 0xFF], [0x12, 0x34], half] {
                for k in [K::U32, K::I32] {
                    one(k, &[half, other].concat());
                    one(k, &[other, half].concat());
                }
                for k in [K::U64, K::I64] {
                    for at in 0..4 {
                        let mut b = [other; 4];
                        b[at] = half;
                        one(k, &b.concat());
                    }
                }
            }
        }
    });
    check.run(|cov| {
        let mut words = vec![];
        for i in 0..64 {
            for j in i..64 {
                let v = (1u64 << i) | (1u64 << j);
                words.extend([v, !v]);
            }
        }
        for v in words {
            for k in [K::U64, K::I64] {
                for room in 0..=11 {
                    put(check, cov, k, &v.to_be_bytes(), room);
                }
            }
            cov.traces += 1;
            cov.transitions += 1;
            cov.state(mix(v, 64));
        }
        for k in KINDS {
            for kind in 0..5 {
                let b = content(kind, k.size());
                for room in (0..=k.size() + 3).chain([64, 255, 256, 257, 65536]) {
                    put(check, cov, k, &b, room);
                    cov.traces += 1;
                    cov.transitions += 1;
                    cov.state(mix(mix(k as u64, room as u64), kind as u64));
                }
            }
        }
        for k in [K::A1, K::A3, K::A5, K::A16, K::A33] {
            for at in 0..k.size() {
                for v in 0..=255u8 {
                    let mut b = content(0, k.size());
                    b[at] = v;
                    put(check, cov, k, &b, 40);
                    let mut c = UnmarshalBuf::new(&b);
                    let mut pos = 0;
                    step(check, cov, &b, &mut pos, &mut c, Op::Value(k), &String::new);
                    cov.traces += 1;
                    cov.transitions += 1;
                    cov.state(mix(mix(k as u64, at as u64), 1000 + v as u64));
                }
            }
        }
    });
    if check.thorough {
        check.par((0..=0xFFFFu32).collect(), |cov, hi| {
            for lo in 0..=0xFFFFu32 {
                let b = (hi << 16 | lo).to_be_bytes();
                for k in [K::U32, K::I32] {
                    put(check, cov, k, &b, 4);
                    let mut c = UnmarshalBuf::new(&b);
                    let mut pos = 0;
                    step(check, cov, &b, &mut pos, &mut c, Op::Value(k), &String::new);
                }
            }
            cov.traces += 1;
            cov.transitions += 1 << 17;
            cov.state(mix(hi as u64, 32));
        });
    }
    check.bound("byte arrays of 0..=70 bytes and of 38 other sizes up to 65537: every room and every number of bytes to decode from (above 600 bytes: around the size and powers of two), 5 contents");
    type Arrays = fn(&Check, &mut Cov);
    let sizes: [Arrays; 109] = [arrays::<0>, arrays::<1>, arrays::<2>, arrays::<3>, arrays::<4>, arrays::<5>, arrays::<6>, arrays::<7>, arrays::<8>, arrays::<9>, arrays::<10>, arrays::<11>, arrays::<12>, arrays::<13>, arrays::<14>, arrays::<15>, arrays::<16>, arrays::<17>, arrays::<18>, arrays::<19>, arrays::<20>, arrays::<21>, arrays::<22>, arrays::<23>, arrays::<24>, arrays::<25>, arrays::<26>, arrays::<27>, arrays::<28>, arrays::<29>, arrays::<30>, arrays::<31>, arrays::<32>, arrays::<33>, arrays::<34>, arrays::<35>, arrays::<36>, arrays::<37>, arrays::<38>, arrays::<39>, arrays::<40>, arrays::<41>, arrays::<42>, arrays::<43>, arrays::<44>, arrays::<45>, arrays::<46>, arrays::<47>, arrays::<48>, arrays::<49>, arrays::<50>, arrays::<51>, arrays::<52>, arrays::<53>, arrays::<54>, arrays::<55>, arrays::<56>, arrays::<57>, arrays::<58>, arrays::<59>, arrays::<60>, arrays::<61>, arrays::<62>, arrays::<63>, arrays::<64>, arrays::<65>, arrays::<66>, arrays::<67>, arrays::<68>, arrays::<69>, arrays::<70>, arrays::<79>, arrays::<80>, arrays::<81>, arrays::<96>, arrays::<100>, arrays::<127>, arrays::<128>, arrays::<129>, arrays::<192>, arrays::<200>, arrays::<254>, arrays::<255>, arrays::<256>, arrays::<257>, arrays::<258>, arrays::<300>, arrays::<383>, arrays::<384>, arrays::<385>, arrays::<511>, arrays::<512>, arrays::<513>, arrays::<600>, arrays::<1000>, arrays::<1023>, arrays::<1024>, arrays::<1025>, arrays::<2047>, arrays::<2048>, arrays::<2049>, arrays::<4095>, arrays::<4096>, arrays::<4097>, arrays::<32767>, arrays::<32768>, arrays::<65535>, arrays::<65536>, arrays::<65537>];
    check.par(sizes.to_vec(), |cov, f| f(check, cov));
    // one after another
    let n = check.tier(3usize, 4);
    check.bound(format!("every sequence of {n} kinds of values encoded one after another at consecutive places (5 contents) into rooms 0..=total+2 and read back by the same sequence"));
    check.par((0..KINDS.len()).collect(), |cov, first| {
        explore(cov, mix(251, first as u64), 0, |ch, cov| {
            let mut kinds = vec![KINDS[first]];
            for _ in 1..n {
                kinds.push(*ch.pick(&KINDS));
            }
            let kind = ch.choose(5);
            let total: usize = kinds.iter().map(|k| k.size()).sum();
            let all = content(kind, total);
            for room in 0..=total + 2 {
                let mut out: Vec<u8> = (0..room).map(canary).collect();
                let mut at = 0;
                for &k in &kinds {
                    cov.evaluations += 1;
                    let Some(part) = out.get_mut(at..) else { break };
                    let b = &all[at..at + k.size()];
                    let r = mc::guard(|| encode(k, b, part));
                    let fits = at + k.size() <= room;
                    match r {
                        Ok(Ok(w)) if fits && w == k.size() => at += w,
                        Ok(Err(_)) if !fits => break,
                        _ => {
                            check.fail("sequence-encoding", || format!("{kinds:?} contents {kind} room {room} at {at}: {r:?}"));
                            return !check.failing();
                        }
                    }
                }
                if out[..at] != all[..at] || (at..room).any(|i| out[i] != canary(i)) {
                    check.fail("sequence-bytes", || format!("{kinds:?} contents {kind} room {room}: {}", hex(&out)));
                }
                if room == total + 2 && at == total {
                    let mut c = UnmarshalBuf::new(&out);
                    let mut pos = 0;
                    for &k in &kinds {
                        if !step(check, cov, &out, &mut pos, &mut c, Op::Value(k), &|| format!("{kinds:?}")) {
                            break;
                        }
                    }
                }
            }
            cov.state(mix(kinds.iter().fold(kind as u64, |h, k| mix(h, *k as u64)), 3));
            cov.sample("sequence", || format!("{kinds:?} {}", hex(&all)));
            !check.failing()
        });
    });
}
