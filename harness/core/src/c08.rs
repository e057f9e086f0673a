//! C08: the core crate's codec.  C21: hash algorithm identifiers.
use crate::limits::*;
use mc::{Check, Cov, hex, mix};
use tpm2::{Alg, Limits, Marshal, MarshalArray, TpmiAlgHash, TpmtHa, Unmarshal};

const PAT: u8 = 0xD3;

/// Marshals into a buffer of `len` bytes inside guard bytes and compares with the model.
/// `want`: the encoding if the value is supported.
fn enc<T: Marshal>(check: &Check, cov: &mut Cov, v: &T, lim: Set, want: Option<&[u8]>, len: usize, name: &dyn Fn() -> String) {
    let mut whole = vec![PAT; len + 8];
    cov.evaluations += 1;
    let start = whole[4..].as_ptr() as usize;
    let r = mc::guard(|| v.marshal(lim, &mut whole[4..4 + len]).map(|rest| (rest.as_ptr() as usize - start, rest.len())));
    let fits = want.is_some_and(|w| w.len() <= len);
    match r {
        Err(p) => check.fail("encode-panic", || format!("{p}\n{} into {len} bytes, limits {lim:?}", name())),
        Ok(Err(_)) if fits => check.fail("encode-refused", || format!("{} into {len} bytes, limits {lim:?}", name())),
        Ok(Err(_)) => {}
        Ok(Ok((at, n))) => {
            let Some(w) = want.filter(|_| fits) else {
                return check.fail("encode-accepted", || format!("{} into {len} bytes, limits {lim:?}: {}", name(), hex(&whole)));
            };
            if at != w.len() || at + n != len {
                check.fail("encode-rest", || format!("{}: rest starts at {at} and has {n} bytes, expected {} and {}", name(), w.len(), len - w.len()));
            }
            if whole[4..4 + w.len()] != *w {
                check.fail("encode-bytes", || format!("{}: {} instead of {}", name(), hex(&whole[4..4 + w.len()]), hex(w)));
            }
            if whole[4 + w.len()..4 + len].iter().any(|&b| b != PAT) {
                check.fail("encode-beyond", || format!("{} into {len} bytes wrote behind the value: {}", name(), hex(&whole)));
            }
        }
    }
    if whole[..4] != [PAT; 4] || whole[4 + len..] != [PAT; 4] {
        check.fail("encode-outside", || name());
    }
}

fn sizes<T: Marshal>(check: &Check, cov: &mut Cov, v: &T, lim: Set, want: usize, max: usize, name: &dyn Fn() -> String) {
    cov.evaluations += 1;
    match mc::guard(|| (v.marshaled_size(), T::marshaled_size_max(lim))) {
        Err(p) => check.fail("size-panic", || p),
        Ok((s, m)) => {
            if s != want {
                check.fail("size", || format!("{}: advertised {s}, written {want}", name()));
            }
            if m < want || m != max {
                check.fail("size-max", || format!("{}: advertised maximum {m} for {lim:?}, largest encoding {max}", name()));
            }
        }
    }
}

/// Unmarshals `input` over `init`; `want` is the decoded value and the number of bytes it occupies.
fn dec<'a, T>(check: &Check, cov: &mut Cov, init: T, lim: Set, input: &'a [u8], want: Option<(T, usize)>, name: &dyn Fn() -> String)
where
    T: Unmarshal<'a> + PartialEq + Copy + std::fmt::Debug + 'a,
{
    cov.evaluations += 1;
    let mut v = init;
    let r = mc::guard(|| v.unmarshal(lim, input).map(|rest| (rest.as_ptr() as usize - input.as_ptr() as usize, rest.len())));
    let what = || format!("{} from {} with {lim:?} (destination held {init:?})", name(), hex(input));
    match (r, want) {
        (Err(p), _) => check.fail("decode-panic", || format!("{p}\n{}", what())),
        (Ok(Ok(_)), None) => check.fail("decode-accepted", || format!("{v:?} {}", what())),
        (Ok(Err(_)), Some(_)) => check.fail("decode-refused", || what()),
        (Ok(Err(_)), None) => {
            if v != init {
                check.fail("decode-clobbered", || format!("error, but the destination became {v:?}; {}", what()));
            }
        }
        (Ok(Ok((at, n))), Some((w, used))) => {
            if v != w {
                check.fail("decode-value", || format!("{v:?} instead of {w:?}; {}", what()));
            }
            if at != used || at + n != input.len() {
                check.fail("decode-rest", || format!("rest at {at} of {n} bytes; {}", what()));
            }
        }
    }
}

fn one(cov: &mut Cov, h: u64) {
    cov.traces += 1;
    cov.transitions += 1;
    cov.state(h);
}

macro_rules! int {
    ($check:expr, $cov:expr, $t:ty, $v:expr, $full:expr) => {{
        let v: $t = $v;
        // independent of to_be_bytes: shift the bits out
        const W: usize = size_of::<$t>();
        let bits = v as u64;
        let want: Vec<u8> = (0..W).map(|i| (bits >> (8 * (W - 1 - i))) as u8).collect();
        let name = || format!("{} {v:#x}", stringify!($t));
        let lens: Vec<usize> = if $full { (0..=W + 3).collect() } else { vec![W, W - 1] };
        for len in lens {
            enc($check, $cov, &v, Set(0), Some(&want), len, &name);
            let input: Vec<u8> = want.iter().copied().chain([0xAA, 0xBB, 0xCC]).take(len).collect();
            let w = (len >= W).then_some((v, W));
            dec($check, $cov, !v, Set(0), &input, w, &name);
        }
        sizes($check, $cov, &v, Set(0xFF), W, W, &name);
        one($cov, mix(bits, W as u64));
    }};
}

pub fn c08(check: &Check) {
    check.bound("all 8- and 16-bit integers; 32- and 64-bit integers: all values of each pair of bytes over 3 backgrounds; buffer lengths 0..=size+3");
    check.par((0..256u64).collect(), |cov, hi| {
        int!(check, cov, u8, hi as u8, true);
        int!(check, cov, i8, hi as i8, true);
        for lo in 0..256u64 {
            let v = hi << 8 | lo;
            int!(check, cov, u16, v as u16, true);
            int!(check, cov, i16, v as i16, true);
            for bg in [0u64, u64::MAX, 0x0123_4567_89AB_CDEF] {
                for i in 0..8 {
                    for j in 0..i {
                        let put = |x: u64, p: u64, b: u64| x & !(0xFF << (8 * p)) | b << (8 * p);
                        let v = put(put(bg, i, hi), j, lo);
                        if i < 4 {
                            int!(check, cov, u32, v as u32, false);
                            int!(check, cov, i32, v as i32, false);
                        }
                        if (i + j + hi + lo) % 2 == 0 || check.thorough {
                            int!(check, cov, u64, v, false);
                            int!(check, cov, i64, v as i64, false);
                        }
                    }
                }
            }
        }
        int!(check, cov, u32, (hi as u32) << 24 | 0x12_3456, true);
        int!(check, cov, i32, (hi as i32) << 24 | 0x12_3456, true);
        int!(check, cov, u64, hi << 56 | 0x12_3456_789A_BCDE, true);
        int!(check, cov, i64, (hi as i64) << 56 | 0x12_3456_789A_BCDE, true);
    });
    {
        check.bound("all 2^32 values of 32-bit integers (exact buffer)");
        check.par((0..4096u32).collect(), |cov, k| {
            for v in k << 20..=(k << 20 | 0xF_FFFF) {
                let mut b = [0u8; 4];
                let ok = v.marshal(Set(0), &mut b).map(|r| r.len()) == Ok(0) && b == [(v >> 24) as u8, (v >> 16) as u8, (v >> 8) as u8, v as u8];
                let mut w = !v;
                let ok2 = w.unmarshal(Set(0), &b).map(|r| r.len()) == Ok(0) && w == v;
                if !ok || !ok2 {
                    check.fail("sweep32", || format!("u32 {v:#x}: {b:x?} {w:#x}"));
                    return;
                }
            }
            cov.states += 1 << 20;
            cov.transitions += 1 << 21;
            cov.traces += 1 << 20;
            cov.evaluations += 1 << 21;
        });
    }
    check.bound("byte arrays of 0..=70 bytes and 35 other sizes up to 65537, into every room (above 600 bytes: around the size); algorithm identifiers: all 65536 values, lengths 0..=5");
    fn arr<const N: usize>(check: &Check, cov: &mut Cov) {
        for p in 0..5u64 {
            let v: [u8; N] = std::array::from_fn(|i| match p {
                3 => 0,
                4 => 0xFF,
                p => (mix(p, i as u64) >> 5) as u8,
            });
            let name = || format!("[u8; {N}] {}", hex(&v[..N.min(80)]));
            for len in (0..=N + 4).filter(|n| N <= 600 || *n < 3 || *n + 3 > N || n.is_power_of_two()).chain([N + 256, N + 65536]) {
                enc(check, cov, &v, Set(0), Some(&v), len, &name);
            }
            sizes(check, cov, &v, Set(0), N, N, &name);
            one(cov, mix(p, 0xA000 + N as u64));
        }
    }
    type Arrays = fn(&Check, &mut Cov);
    let all: [Arrays; 106] = [arr::<0>, arr::<1>, arr::<2>, arr::<3>, arr::<4>, arr::<5>, arr::<6>, arr::<7>, arr::<8>, arr::<9>, arr::<10>, arr::<11>, arr::<12>, arr::<13>, arr::<14>, arr::<15>, arr::<16>, arr::<17>, arr::<18>, arr::<19>, arr::<20>, arr::<21>, arr::<22>, arr::<23>, arr::<24>, arr::<25>, arr::<26>, arr::<27>, arr::<28>, arr::<29>, arr::<30>, arr::<31>, arr::<32>, arr::<33>, arr::<34>, arr::<35>, arr::<36>, arr::<37>, arr::<38>, arr::<39>, arr::<40>, arr::<41>, arr::<42>, arr::<43>, arr::<44>, arr::<45>, arr::<46>, arr::<47>, arr::<48>, arr::<49>, arr::<50>, arr::<51>, arr::<52>, arr::<53>, arr::<54>, arr::<55>, arr::<56>, arr::<57>, arr::<58>, arr::<59>, arr::<60>, arr::<61>, arr::<62>, arr::<63>, arr::<64>, arr::<65>, arr::<66>, arr::<67>, arr::<68>, arr::<69>, arr::<70>, arr::<79>, arr::<80>, arr::<81>, arr::<96>, arr::<100>, arr::<127>, arr::<128>, arr::<129>, arr::<192>, arr::<200>, arr::<254>, arr::<255>, arr::<256>, arr::<257>, arr::<258>, arr::<300>, arr::<383>, arr::<384>, arr::<385>, arr::<511>, arr::<512>, arr::<513>, arr::<600>, arr::<1000>, arr::<1023>, arr::<1024>, arr::<1025>, arr::<2048>, arr::<4095>, arr::<4096>, arr::<4097>, arr::<32768>, arr::<65535>, arr::<65536>, arr::<65537>];
    check.par(all.to_vec(), |cov, f| f(check, cov));
    check.par((0..256u16).collect(), |cov, hi| {
        for lo in 0..256u16 {
            let v = hi << 8 | lo;
            let b = [hi as u8, lo as u8];
            let input = [hi as u8, lo as u8, 0x77, 0x66, 0x55];
            for len in 0..=5usize {
                let n = || format!("Alg({v:#06x})");
                enc(check, cov, &Alg(v), Set(0xFF), Some(&b), len, &n);
                dec(check, cov, Alg(!v), Set(0xFF), &input[..len], (len >= 2).then_some((Alg(v), 2)), &n);
                let h = HASHES.iter().position(|h| h.0 == v);
                let n = || format!("TpmiAlgHash {v:#06x}");
                for init in [0, 7] {
                    if h != Some(init) {
                        dec(check, cov, alg(init), Set(0xFF), &input[..len], h.filter(|_| len >= 2).map(|k| (alg(k), 2)), &n);
                    }
                }
                if let Some(k) = h {
                    enc(check, cov, &alg(k), Set(0xFF), Some(&b), len, &n);
                    sizes(check, cov, &alg(k), Set(0xFF), 2, 2, &n);
                }
            }
            one(cov, mix(v as u64, 0xA1));
        }
    });

    // tagged digests under every set of supported algorithms
    check.bound("TPMT_HA: 4 algorithms x 5 digests (zeroes and ones among them) x all 256 sets of supported algorithms x all buffer lengths 0..=70");
    check.par((0..256usize).collect(), |cov, set| {
        let lim = Set(set as u8);
        for k in 0..4usize {
            for p in 0..5u64 {
                let d: Vec<u8> = (0..64).map(|i| if p > 2 { [0, 0xFF][p as usize - 3] } else { (mix(p + 9, i as u64) >> 7) as u8 }).collect();
                let v = ha(k, &d);
                let mut want = HASHES[k].0.to_be_bytes().to_vec();
                want.extend_from_slice(&d[..HASHES[k].1]);
                let supported = set >> k & 1 == 1;
                let n = || format!("TpmtHa {v:x?}");
                for len in 0..=70usize {
                    enc(check, cov, &v, lim, supported.then_some(&want[..]), len, &n);
                }
                cov.evaluations += 1;
                if supported {
                    // the maximum covers at least every supported value
                    match mc::guard(|| (v.marshaled_size(), TpmtHa::marshaled_size_max(lim))) {
                        Err(p) => check.fail("size-panic", || p),
                        Ok((s, m)) => {
                            if s != want.len() || m < s || m != 2 + max_digest(set as u8) {
                                check.fail("size", || format!("{} size {s} max {m} limits {lim:?}", n()));
                            }
                        }
                    }
                } else if v.marshaled_size() != want.len() {
                    check.fail("size", || n());
                }
                one(cov, mix(mix(set as u64, k as u64), p));
            }
        }
    });
    check.bound("TPMT_HA decoding: all 65536 algorithm identifiers x 256 sets (two input lengths), and the 8 hash identifiers x 256 sets x all lengths 0..=70 x 2 previous values");
    check.par((0..256usize).collect(), |cov, set| {
        let lim = Set(set as u8);
        for p in 0..3usize {
            let d: Vec<u8> = vec![[0, 0xFF, 0x0B][p]; 80];
            for (k, (id, n)) in HASHES.iter().enumerate() {
                let input = [&id.to_be_bytes()[..], &d[..68]].concat();
                let ok = (k < 4 && set >> k & 1 == 1).then_some(k);
                dec(check, cov, TpmtHa::Sha1(chunk(&[0; 80])), lim, &input, ok.map(|k| (ha(k, &d), 2 + n)), &|| format!("TpmtHa {id:#06x} of equal bytes"));
            }
        }
        let d: Vec<u8> = (0..80).map(|i| (mix(21, i as u64) >> 7) as u8).collect();
        let old1 = [0x11u8; 80];
        let old2 = [0x22u8; 80];
        for v in 0..=0xFFFFu16 {
            let mut input = v.to_be_bytes().to_vec();
            input.extend_from_slice(&d[..68]);
            let k = HASHES.iter().position(|h| h.0 == v);
            let lens: Vec<usize> = if k.is_some() { (0..=70).collect() } else { vec![70, 34] };
            for len in lens {
                let ok = k.filter(|&k| k < 4 && set >> k & 1 == 1 && len >= 2 + HASHES[k].1);
                let inp = &input[..len];
                for init in [TpmtHa::Sha1(chunk(&old1)), TpmtHa::Sha512(chunk(&old2))] {
                    dec(check, cov, init, lim, inp, ok.map(|k| (ha(k, &d), 2 + HASHES[k].1)), &|| format!("TpmtHa {v:#06x}"));
                    if k.is_none() {
                        break;
                    }
                }
            }
        }
        cov.traces += 65536;
        cov.transitions += 65536;
        cov.states += 65536;
    });
}

pub fn ha(k: usize, d: &[u8]) -> TpmtHa<'_> {
    match k {
        0 => TpmtHa::Sha1(chunk(d)),
        1 => TpmtHa::Sha256(chunk(d)),
        2 => TpmtHa::Sha384(chunk(d)),
        _ => TpmtHa::Sha512(chunk(d)),
    }
}
/// The start of `d`, of whatever length the implementation takes (judged elsewhere).
fn chunk<const N: usize>(d: &[u8]) -> &[u8; N] {
    d.first_chunk().unwrap_or_else(|| Box::leak(Box::new([0; N])))
}

pub fn c21(check: &Check) {
    check.bound("all 65536 algorithm identifiers, every conversion and the codec");
    check.par((0..256u16).collect(), |cov, hi| {
        for lo in 0..256u16 {
            let v = hi << 8 | lo;
            let want = HASHES.iter().position(|h| h.0 == v);
            let r = mc::guard(|| TpmiAlgHash::try_from(Alg(v)).ok());
            cov.evaluations += 3;
            match r {
                Err(p) => check.fail("panic", || p),
                Ok(r) => {
                    if r.is_some() != want.is_some() {
                        check.fail("conversion", || format!("algorithm {v:#06x} -> {r:?}"));
                    }
                    if let (Some(h), Some(k)) = (r, want) {
                        let back = Alg::from(h);
                        let mut arr = [0u8; 2];
                        h.marshal_array(&mut arr);
                        if h != alg(k) || back.0 != v || h as u16 != v || arr != v.to_be_bytes() {
                            check.fail("conversion", || format!("algorithm {v:#06x} -> {h:?} -> {back:?}, encoded {arr:x?}"));
                        }
                        if h.digest_size() != HASHES[k].1 {
                            check.fail("digest-size", || format!("{h:?}: {}", h.digest_size()));
                        }
                    }
                    // the codec agrees with the conversion
                    let mut t = alg(if want == Some(0) { 1 } else { 0 });
                    let d = t.unmarshal(Set(0xFF), &[hi as u8, lo as u8]).is_ok();
                    if d != want.is_some() || (d && Some(t) != r) {
                        check.fail("codec", || format!("algorithm {v:#06x} decodes: {d} {t:?}"));
                    }
                }
            }
            one(cov, v as u64);
        }
    });
    check.bound("all 256 sets of supported algorithms (maximum digest size); 8 algorithms; 4 digest forms x 257 digests");
    check.run(|cov| {
        for set in 0..=255u8 {
            let m = Set(set).max_digest_size();
            cov.evaluations += 1;
            if m != max_digest(set) {
                check.fail("max-digest", || format!("set {set:#010b}: {m}, expected {}", max_digest(set)));
            }
            one(cov, 0x10000 + set as u64);
        }
        for k in 0..8 {
            if Alg::from(alg(k)).0 != HASHES[k].0 || alg(k).digest_size() != HASHES[k].1 {
                check.fail("digest-size", || format!("{:?}: {:?} {}", alg(k), Alg::from(alg(k)), alg(k).digest_size()));
            }
        }
        for k in 0..4 {
            for p in 0..257u64 {
                let d: Vec<u8> = if p == 256 { vec![0; 64] } else { (0..64).map(|i| (mix(p, i) >> 13) as u8).collect() };
                let t = ha(k, &d);
                cov.evaluations += 1;
                if t.hash_alg() != alg(k) || t.digest() != &d[..HASHES[k].1] {
                    check.fail("tagged-digest", || format!("{t:x?}: {:?} {}", t.hash_alg(), hex(t.digest())));
                }
                one(cov, mix(p, 0x2000 + k as u64));
            }
        }
    });
}
