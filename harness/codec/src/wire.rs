//! C01, C02, C03: the codec of every type against the wire format.
use crate::schema::*;
use crate::types::*;
use mc::{Check, Cov, hash_bytes, hex, mix};
use std::any::Any;
use std::sync::Arc;
use tpm2_rs_base::commands::*;
use tpm2_rs_base::constants::*;
use tpm2_rs_base::marshal::{self, UnmarshalBuf};
use tpm2_rs_base::*;

/// A value of any of the types (keeps the checks below from being compiled once per type).
pub trait Val {
    fn enc(&self, b: &mut [u8]) -> marshal::Result<usize>;
    fn put_fields(&self, out: &mut Vec<u8>);
    fn any(&self) -> &dyn Any;
    fn same(&self, o: &dyn Val) -> bool;
}
impl<T: R + PartialEq + 'static> Val for T {
    fn enc(&self, b: &mut [u8]) -> marshal::Result<usize> {
        self.try_marshal(b)
    }
    fn put_fields(&self, out: &mut Vec<u8>) {
        self.put(out)
    }
    fn any(&self) -> &dyn Any {
        self
    }
    fn same(&self, o: &dyn Val) -> bool {
        o.any().downcast_ref::<T>() == Some(self)
    }
}
pub type Decoded = marshal::Result<(Box<dyn Val>, usize)>;

pub struct Ty {
    pub name: &'static str,
    pub schema: S,
    pub decode: fn(&[u8]) -> Decoded,
}

fn decode_as<T: R + PartialEq + 'static>(b: &[u8]) -> Decoded {
    let mut buf = UnmarshalBuf::new(b);
    let v = T::try_unmarshal(&mut buf)?;
    Ok((Box::new(v), b.len().wrapping_sub(buf.len())))
}

impl Ty {
    fn dec(&self, b: &[u8]) -> Result<Decoded, String> {
        mc::guard(|| (self.decode)(b))
    }
}

pub fn types() -> Vec<Ty> {
    macro_rules! table {
        ($($t:ty),* $(,)?) => {
            vec![$(Ty { name: stringify!($t), schema: <$t as R>::schema(), decode: decode_as::<$t> }),*]
        };
    }
    crate::all_types!(table)
}

/// Decodes; the outer error is a panic.
pub fn dec<T: R>(b: &[u8]) -> Result<marshal::Result<(T, usize)>, String> {
    mc::guard(|| {
        let mut buf = UnmarshalBuf::new(b);
        T::try_unmarshal(&mut buf).map(|v| (v, b.len().wrapping_sub(buf.len())))
    })
}

pub fn fields(v: &dyn Val) -> Result<Vec<u8>, String> {
    mc::guard(|| {
        let mut out = vec![];
        v.put_fields(&mut out);
        out
    })
}

/// The encoding, if it fits `n` bytes.
pub fn enc_any<T: R>(v: &T, n: usize) -> Option<Vec<u8>> {
    let mut b = vec![0x3C; n];
    let n = v.try_marshal(&mut b).ok()?;
    b.get(..n).map(<[u8]>::to_vec)
}

/// Encodes into a buffer of `n` bytes filled with a canary.
pub fn enc(v: &dyn Val, n: usize) -> Result<(marshal::Result<usize>, Vec<u8>), String> {
    let mut b: Vec<u8> = (0..n).map(canary).collect();
    mc::guard(|| v.enc(&mut b)).map(|r| (r, b))
}
fn canary(i: usize) -> u8 {
    (i as u8).wrapping_mul(11) ^ 0xC7
}

/// `long`: also followed by more bytes than 8 and 16 bits count.
fn c01_one(check: &Check, cov: &mut Cov, t: &Ty, b: &[u8], long: bool) {
    let name = t.name;
    let mut first: Option<Box<dyn Val>> = None;
    let tails: &[usize] = if long { &[0, 9, 256, 65536 - b.len().min(65535), 65536] } else { &[0, 9] };
    for &tail in tails {
        let mut s = b.to_vec();
        s.extend((0..tail).map(|i| 0xE1 ^ i as u8));
        cov.evaluations += 1;
        let (v, used) = match t.dec(&s) {
            Err(p) => return check.fail(&format!("{name}-decode-panic"), || format!("decoding {} (+{tail} bytes) as {name}: {p}", hex(b))),
            Ok(Err(e)) => return check.fail(&format!("{name}-decode"), || format!("decoding {} (+{tail} bytes) as {name}: {e:?}", hex(b))),
            Ok(Ok(r)) => r,
        };
        if used != b.len() {
            return check.fail(&format!("{name}-consumed"), || format!("decoding {} (+{tail} bytes) as {name} used {used} of {} bytes", hex(b), b.len()));
        }
        match fields(&*v) {
            Err(p) => return check.fail(&format!("{name}-fields"), || format!("reading the fields of {name} decoded from {}: {p}", hex(b))),
            Ok(f) if f != b => {
                return check.fail(&format!("{name}-fields"), || {
                    format!("{name} decoded from\n  {}\nholds the fields\n  {}", hex(b), hex(&f))
                });
            }
            _ => {}
        }
        match enc(&*v, b.len() + 5) {
            Err(p) => return check.fail(&format!("{name}-encode-panic"), || format!("encoding {name} {}: {p}", hex(b))),
            Ok((r, out)) => {
                if r != Ok(b.len()) || out[..b.len()] != *b {
                    return check.fail(&format!("{name}-encode"), || format!("{name} with the encoding\n  {}\nencodes ({r:?}) to\n  {}", hex(b), hex(&out)));
                }
            }
        }
        match &first {
            None => first = Some(v),
            Some(f) if !f.same(&*v) => {
                return check.fail(&format!("{name}-equal"), || format!("{name} decoded from {} differs when bytes follow", hex(b)));
            }
            _ => {}
        }
    }
}

/// Returns whether the string is an encoding.
fn c02_one(check: &Check, cov: &mut Cov, t: &Ty, b: &[u8]) -> bool {
    let name = t.name;
    let want = accepts(&t.schema, b);
    cov.evaluations += 1;
    match (t.dec(b), want) {
        (Err(p), _) => check.fail(&format!("{name}-panic"), || format!("decoding {} as {name}: {p}", hex(b))),
        (Ok(Err(_)), Err(_)) => {}
        (Ok(Err(e)), Ok(n)) => check.fail(&format!("{name}-refused"), || format!("decoding {} as {name}: {e:?}; its first {n} bytes are an encoding", hex(b))),
        (Ok(Ok((_, n))), Err(e)) => check.fail(&format!("{name}-accepted-{e:?}"), || format!("{} was accepted as {name} ({n} bytes used): {e:?}", hex(b))),
        (Ok(Ok((v, n))), Ok(m)) => {
            if n != m {
                check.fail(&format!("{name}-consumed"), || format!("{} decoded as {name} used {n} bytes, the encoding has {m}", hex(b)));
                return true;
            }
            match enc(&*v, n + 3) {
                Err(p) => check.fail(&format!("{name}-encode-panic"), || format!("encoding {name} decoded from {}: {p}", hex(b))),
                Ok((r, out)) => {
                    if r != Ok(n) || out[..n] != b[..n] {
                        check.fail(&format!("{name}-reencode"), || format!("{name} decoded from\n  {}\nencodes ({r:?}) to\n  {}", hex(&b[..n]), hex(&out)));
                    }
                }
            }
        }
    }
    want.is_ok()
}

/// `all`: every output length up to two above the encoding's, otherwise the boundary ones.
/// `huge`: also more room than 16 bits count.
fn c03_one(check: &Check, cov: &mut Cov, t: &Ty, b: &[u8], all: bool, huge: bool) {
    let name = t.name;
    let Ok(Ok((v, _))) = t.dec(b) else {
        return check.fail(&format!("{name}-decode"), || format!("{} is not decoded as {name}", hex(b)));
    };
    let n = b.len();
    let lens: Vec<usize> = if all {
        (0..=n + 2).chain([n + 300]).chain(if huge { vec![65535, 65536, 65537, 65535 + n, 65536 + n, 131072 + n] } else { vec![] }).collect()
    } else {
        let mut l = vec![0, 1, 2, n / 2, n.saturating_sub(2), n.saturating_sub(1), n, n + 1, n + 64];
        l.dedup();
        l
    };
    for len in lens {
        cov.evaluations += 1;
        cov.transitions += 1;
        match enc(&*v, len) {
            Err(p) => return check.fail(&format!("{name}-panic"), || format!("encoding {name} {} into {len} bytes: {p}", hex(b))),
            Ok((Err(e), _)) => {
                if len >= n {
                    return check.fail(&format!("{name}-refused"), || format!("encoding {name} {} ({n} bytes) into {len} bytes: {e:?}", hex(b)));
                }
            }
            Ok((Ok(w), out)) => {
                if len < n || w != n {
                    return check.fail(&format!("{name}-length"), || format!("encoding {name} {} ({n} bytes) into {len} bytes reports {w}", hex(b)));
                }
                if out[..n] != *b || (n..len).any(|i| out[i] != canary(i)) {
                    return check.fail(&format!("{name}-content"), || format!("encoding {name}\n  {} into {len} bytes wrote\n  {}", hex(b), hex(&out)));
                }
            }
        }
    }
}

struct Mode {
    gen_: Gen,
    budget: u32,
}

fn modes(check: &Check, invalid: bool) -> Vec<Mode> {
    let g = Gen { invalid, ..Gen::PLAIN };
    vec![
        // pairs of corner values
        Mode { gen_: g, budget: 2 },
        // every value of every byte (thorough: of every 16-bit field)
        Mode { gen_: Gen { alphabet: check.tier(1, 2), ..g }, budget: 1 },
        // among zeroes and among ones
        Mode { gen_: Gen { alphabet: 1, fill: Some(0), ..g }, budget: 1 },
        Mode { gen_: Gen { alphabet: check.tier(0, 1), fill: Some(0xff), ..g }, budget: 1 },
        // among empty and among full buffers and lists
        Mode { gen_: Gen { sizes: 1, ..g }, budget: check.tier(1, 2) },
        Mode { gen_: Gen { sizes: 2, ..g }, budget: 1 },
        // many fields at once that are zero, null, empty or full
        Mode { gen_: Gen { tiny: true, invalid: false, ..g }, budget: check.tier(4, 5) },
    ]
}

thread_local! {
    /// Identifies the space that `for_all` is exploring.
    pub static ITEM: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
pub fn for_all(check: &Arc<Check>, invalid: bool, f: impl Fn(&mut Cov, &Ty, &[u8], usize) + Sync) {
    let tys: Vec<Arc<Ty>> = types().into_iter().map(Arc::new).collect();
    use std::collections::BTreeSet;
    let mut items = vec![];
    for (m, _) in modes(check, invalid).iter().enumerate() {
        for t in &tys {
            items.push((m, t.clone()));
        }
    }
    let limit = check.tier(LIMITS[0], LIMITS[1]);
    // the larger spaces only where they can be enumerated: counted, not estimated
    let size = |gen_: Gen, t: &Ty, budget| {
        let (mut n, mut bytes, mut buf) = (0u64, 0u64, vec![]);
        mc::explore(&mut Cov::default(), 0, budget, |ch, _| {
            buf.clear();
            gen_.gen_into(&t.schema, ch, &mut buf);
            n += 1;
            bytes += 16 + buf.len() as u64;
            bytes <= limit
        });
        (n, bytes)
    };
    let reduced = std::sync::Mutex::new(std::collections::BTreeMap::new());
    // the largest first
    items.sort_by_key(|(m, t)| std::cmp::Reverse(max_len(&t.schema) + 10000 * m));
    check.par(items, |cov, (m, t)| {
        mc::label(t.name);
        ITEM.set(mix(mc::hash_str(t.name), m as u64));
        let mode = &modes(check, invalid)[m];
        let mut buf = vec![];
        let (mut gen_, mut budget) = (mode.gen_, mode.budget);
        {
            while budget > 1 && size(gen_, &t, budget).1 > limit {
                budget -= 1;
                reduced.lock().unwrap().entry(["one deviation", "two deviations", "three deviations", "four deviations"][budget as usize - 1]).or_insert(BTreeSet::new()).insert(t.name);
            }
            if budget == 1 && size(gen_, &t, 1).1 > limit {
                gen_.free = false;
                reduced.lock().unwrap().entry("other members only one at a time").or_insert(BTreeSet::new()).insert(t.name);
            }
        }
        mc::explore(cov, mix(mc::hash_str(t.name), m as u64), budget, |ch, cov| {
            buf.clear();
            gen_.gen_into(&t.schema, ch, &mut buf);
            let deviations = ch.spent();
            cov.state(hash_bytes(mc::hash_str(t.name), &buf));
            f(cov, &t, &buf, deviations as usize);
            !check.failing()
        });
    });
    for (what, names) in reduced.into_inner().unwrap() {
        let names: Vec<_> = names.into_iter().collect();
        check.bound(format!("{what} only in some of these spaces, because they come to more than {limit} encoded bytes: {}", names.join(", ")));
    }
}

/// The most encoded bytes that the larger spaces of one type may come to.
const LIMITS: [u64; 2] = [300_000_000, 1_000_000_000];

fn bounds(check: &Check) {
    check.bound(format!(
        "{} types; per type every member of every union (nested unions too) x the deviations of the fields from a default encoding (corner values and byte sweeps of integers{}, every length of a sized buffer, every count of a list): up to 2 deviations over corner values, 1 over all values; also from defaults with all contents 00 or ff, with all buffers and lists empty, and with all of them full; up to {} fields at once that are zero, null, empty or full",
        types().len(),
        check.tier("", ", all 65536 values of 16-bit fields"),
        check.tier(4, 5),
    ));
    check.assume("the wire formats in types.rs are those of the TPM 2.0 specification; they are written independently of the Rust definitions");
}

pub fn c01(check: &Arc<Check>) {
    bounds(check);
    check.bound("every encoding alone and followed by 9 bytes; the default ones also by 256 bytes, by as many as make 65536 in all, and by 65536");
    for_all(check, false, |cov, t, b, deviations| {
        c01_one(check, cov, t, b, deviations == 0);
        cov.sample(t.name, || format!("{}: {} decoded, fields compared, encoded", t.name, hex(&b[..b.len().min(60)])));
    });
    handles(check);
}

/// Handle values made from numbers encode as those numbers.
fn handles(check: &Arc<Check>) {
    check.run(|cov| {
        for hi in [0x01u32, 0x02, 0x03, 0x40, 0x80] {
            for lo in (0..256u32).chain([0x100, 0xff00, 0x1_0000, 0xff_0000, 0xff_ffff]) {
                let v = hi << 24 | lo;
                cov.state(mix(77, v as u64));
                let two = [TpmiRhNvIndex::try_from(v).ok().map(|h| enc(&h, 6)), TpmiShAuthSession::try_from(v).ok().map(|h| enc(&h, 6))];
                for r in two.into_iter().flatten() {
                    cov.evaluations += 1;
                    cov.traces += 1;
                    match r {
                        Ok((Ok(4), b)) if b[..4] == v.to_be_bytes() => {}
                        r => check.fail("handle-encoding", || format!("handle {v:#x} encodes as {r:x?}")),
                    }
                }
            }
        }
    });
}

pub fn c02(check: &Arc<Check>) {
    bounds(check);
    for_all(check, true, |cov, t, b, deviations| {
        let ok = c02_one(check, cov, t, b);
        let mut structure = vec![];
        let mut used = 0;
        let _ = decode(&t.schema, b, &mut used, &mut structure);
        if ok {
            // strict prefixes
            let cuts: Vec<usize> = if deviations == 0 || deviations == 1 && used <= 96 { (0..used).collect() } else { structure.iter().copied().rev().take(8).chain([used - 1, used / 2]).collect() };
            for c in cuts {
                if c02_one(check, cov, t, &b[..c]) {
                    check.fail("reference", || format!("the reference decoder accepted a prefix of {} as {}", hex(b), t.name));
                }
            }
            // followed by other bytes
            let mut long = b.to_vec();
            long.extend([0, 0, 0, 1, 0xff, 0xff, 0x80]);
            c02_one(check, cov, t, &long);
            if deviations == 0 {
                // more bytes than 16 bits count, among them and behind them
                for len in [65535, 65536, 65537, 65536 + used, 65536 + used - 1] {
                    let mut huge = long.clone();
                    huge.resize(len.max(long.len()), 0x5A);
                    c02_one(check, cov, t, &huge);
                }
                // every value of every byte of a length, count or selector, and every bit of every other byte
                let mut m = long;
                for p in 0..used.min(check.tier(400, 6000)) {
                    let old = m[p];
                    if structure.contains(&p) {
                        for v in 0..=255 {
                            m[p] = v;
                            c02_one(check, cov, t, &m);
                        }
                    } else {
                        for bit in 0..8 {
                            m[p] = old ^ 1 << bit;
                            c02_one(check, cov, t, &m);
                        }
                    }
                    m[p] = old;
                }
                // every pair of structural bytes over corner values
                for (i, &p) in structure.iter().enumerate().take(12) {
                    for &q in structure.iter().skip(i + 1).take(12) {
                        let (a, c) = (m[p], m[q]);
                        for v in [0, 1, 2, 0x7f, 0x80, 0xff] {
                            for w in [0, 1, 2, 0x7f, 0x80, 0xff] {
                                m[p] = v;
                                m[q] = w;
                                c02_one(check, cov, t, &m);
                            }
                        }
                        m[p] = a;
                        m[q] = c;
                    }
                }
            }
        }
        cov.sample(&format!("{}/{ok}", t.name), || format!("{} as {}: {}", hex(&b[..b.len().min(60)]), t.name, if ok { "accepted and encoded back" } else { "refused" }));
    });
    // short strings over a small alphabet
    let len = check.tier(6, 9);
    check.bound(format!("every byte string of up to {len} bytes over {{00, 01, 04, ff}}, and up to 4 over {{00, 01, 02, 05, 06, 08, 0a, 10, 17, 80, ff}}, for every type; every strict prefix; every value of every length, count and selector byte"));
    check.par(types(), |cov, t| {
        let t = &t;
        mc::label(t.name);
        for (alpha, len) in [(&[0u8, 1, 4, 0xff][..], len), (&[0, 1, 2, 5, 6, 8, 0x0a, 0x10, 0x17, 0x80, 0xff], 4)] {
            mc::explore(cov, mc::hash_str(t.name), 0, |ch, cov| {
                let n = ch.choose(len + 1);
                let b: Vec<u8> = (0..n).map(|_| *ch.pick(alpha)).collect();
                c02_one(check, cov, t, &b);
                !check.failing()
            });
        }
    });
}

pub fn c03(check: &Arc<Check>) {
    bounds(check);
    check.bound("every output length from 0 to the encoding's length + 2 for the default encoding of every union member, boundary lengths for every deviation (all lengths for encodings up to 48 bytes); the default ones also into buffers around 65536 and 131072 bytes");
    for_all(check, false, |cov, t, b, deviations| {
        c03_one(check, cov, t, b, deviations == 0 || b.len() <= 48, deviations == 0);
        cov.sample(t.name, || format!("{} of {} bytes into buffers of every size", t.name, b.len()));
    });
    over_long(check);
}

/// Values whose public length field exceeds their array.
fn over_long(check: &Arc<Check>) {
    check.bound("public length fields from 0 to 255 (PCR selection) and beyond the capacity up to the largest 32-bit count (property list), in every structure that can contain them, into buffers of 0 to 2048 bytes");
    let lens: Vec<usize> = (0..40).chain([64, 127, 128, 255, 256, 257, 300, 1020, 1024, 2048]).collect();
    fn one(check: &Check, cov: &mut Cov, what: &str, v: &dyn Val, lens: &[usize], want: Option<&[u8]>) {
        for &len in lens {
            cov.evaluations += 1;
            cov.traces += 1;
            match enc(v, len) {
                Err(p) => return check.fail(&format!("over-long-{what}"), || format!("encoding {what} into {len} bytes: {p}")),
                Ok((r, out)) => {
                    let good = match want {
                        None => r.is_err(),
                        Some(w) if w.len() > len => r.is_err(),
                        Some(w) => r == Ok(w.len()) && out[..w.len()] == *w && (w.len()..len).all(|i| out[i] == canary(i)),
                    };
                    if !good {
                        return check.fail(&format!("over-long-{what}"), || format!("encoding {what} into {len} bytes: {r:?} {}", hex(&out)));
                    }
                }
            }
        }
    }
    check.run(|cov| {
        for n in 0..=255u8 {
            let sel = TpmsPcrSelection { hash: TpmiAlgHash(0x0b1c), sizeof_select: n, pcr_select: std::array::from_fn(|i| 0xd1 + i as u8) };
            cov.state(mix(5, n as u64));
            let good = n <= 4;
            let part = |pre: &[u8]| good.then(|| [pre, &[0x0b, 0x1c, n], &[0xd1, 0xd2, 0xd3, 0xd4][..(n as usize).min(4)]].concat());
            one(check, cov, "TpmsPcrSelection", &sel, &lens, part(&[]).as_deref());
            let Ok(list) = TpmlPcrSelection::new(&[sel]) else {
                check.fail("list", || "a list of one PCR selection was refused".into());
                return;
            };
            one(check, cov, "TpmlPcrSelection", &list, &lens, part(&[0, 0, 0, 1]).as_deref());
            let with = |v: Option<Vec<u8>>, tail: &[u8]| v.map(|v| [&v[..], tail].concat());
            let q = TpmsQuoteInfo { pcr_select: list, pcr_digest: Tpm2bDigest::default() };
            one(check, cov, "TpmsQuoteInfo", &q, &lens, with(part(&[0, 0, 0, 1]), &[0, 0]).as_deref());
            one(check, cov, "TpmuAttest", &TpmuAttest::Quote(q), &lens, with(part(&[0x80, 0x18, 0, 0, 0, 1]), &[0, 0]).as_deref());
            let c = TpmsCreationData {
                pcr_select: list,
                pcr_digest: Tpm2bDigest::default(),
                locality: TpmaLocality(1),
                parent_name_alg: TpmAlgId::SHA256,
                parent_name: Tpm2bName::default(),
                parent_qualified_name: Tpm2bName::default(),
                outside_info: Tpm2bData::default(),
            };
            one(check, cov, "TpmsCreationData", &c, &lens, with(part(&[0, 0, 0, 1]), &[0, 0, 1, 0, 0x0b, 0, 0, 0, 0, 0, 0]).as_deref());
            let cap = TpmsCapabilityData::AssignedPcr(list);
            one(check, cov, "TpmsCapabilityData", &cap, &lens, part(&[0, 0, 0, 5, 0, 0, 0, 1]).as_deref());
            let g = GetCapabilityResp { more_data: TpmiYesNo::YES, capability_data: cap };
            one(check, cov, "GetCapabilityResp", &g, &lens, part(&[1, 0, 0, 0, 5, 0, 0, 0, 1]).as_deref());
            match mc::guard(|| Tpm2bCreationData::from_struct(&c)) {
                Ok(r) if r.is_ok() == good => {}
                r => check.fail("over-long-Tpm2bCreationData", || format!("wrapping creation data with a PCR selection of {n} bytes: {r:?}")),
            }
        }
        let mut l = TpmlTaggedTpmProperty::default();
        let cap = l.tpm_property.len();
        for (i, p) in l.tpm_property.iter_mut().enumerate() {
            *p = TpmsTaggedProperty { property: TpmPt(0x0100 + i as u32), value: 0xA000_0000 + i as u32 };
        }
        let mut want = vec![];
        for (i, _) in l.tpm_property.iter().enumerate() {
            want.extend((0x0100 + i as u32).to_be_bytes());
            want.extend((0xA000_0000 + i as u32).to_be_bytes());
        }
        for n in (0..cap as u32 + 300).chain([0xffff, 0x1_0000, 0x1_0001, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff]) {
            l.count = n;
            cov.state(mix(6, n as u64));
            let w = (n as usize <= cap).then(|| [&n.to_be_bytes()[..], &want[..8 * n as usize]].concat());
            one(check, cov, "TpmlTaggedTpmProperty", &l, &lens, w.as_deref());
            let w = w.map(|w| [&[0, 0, 0, 6][..], &w].concat());
            one(check, cov, "TpmsCapabilityData", &TpmsCapabilityData::TpmProperties(l), &lens, w.as_deref());
        }
    });
}
