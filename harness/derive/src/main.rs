//! C07: the derived codec of every enumerated definition against its wire format.
#![allow(clippy::all)]
use mc::{Check, Chooser, Cov, hash_bytes, hash_str, hex, mix};
use safe_discriminant::Discriminant;
use std::any::Any;
use tpm2_rs_base::{Tpm2bSimple, Tpm2bStruct};
use tpm2_rs_marshalable::{self, Error, Marshalable, MarshalableVariant, Tpm2bStruct, UnmarshalBuf};

// ------------------------------------------------------------------------------------------ wire formats
pub enum F {
    Uint(usize),
    Bytes(usize),
    Seq(Vec<F>),
    Fixed(usize, Box<F>),
    Counted { cap: usize, by: usize, elem: Box<F> },
    Sized(usize),
    Union { w: usize, members: Vec<(u64, F)> },
}

fn uint(b: &[u8]) -> u64 {
    b.iter().fold(0, |a, &c| a << 8 | c as u64)
}
/// A counter's value as a number of elements: negative and huge counts are never within a capacity.
fn count(b: &[u8]) -> usize {
    uint(b).try_into().unwrap_or(usize::MAX)
}

/// Reference decoder: the number of bytes of the encoding at the start of `b`, if there is one.
fn accepts(f: &F, b: &[u8]) -> Option<usize> {
    Some(match f {
        F::Uint(w) | F::Bytes(w) => (b.len() >= *w).then_some(*w)?,
        F::Seq(l) => {
            let mut at = 0;
            let mut vals: Vec<usize> = vec![];
            for f in l {
                let n = match f {
                    F::Counted { cap, by, elem } => {
                        let c = vals[*by];
                        if c > *cap {
                            return None;
                        }
                        repeat(elem, c, &b[at..])?
                    }
                    f => accepts(f, &b[at..])?,
                };
                vals.push(if let F::Uint(w) = f { count(&b[at..at + w]) } else { 0 });
                at += n;
            }
            at
        }
        F::Fixed(n, e) => repeat(e, *n, b)?,
        F::Counted { .. } => unreachable!(),
        F::Sized(cap) => {
            let n = uint(b.get(..2)?) as usize;
            if n > *cap || b.len() < 2 + n {
                return None;
            }
            2 + n
        }
        F::Union { w, members } => {
            let s = uint(b.get(..*w)?);
            let (_, m) = members.iter().find(|m| m.0 == s)?;
            w + accepts(m, &b[*w..])?
        }
    })
}
fn repeat(e: &F, n: usize, b: &[u8]) -> Option<usize> {
    let mut at = 0;
    for _ in 0..n {
        at += accepts(e, &b[at..])?;
    }
    Some(at)
}

/// Generates encodings; `bad` also offers counts, sizes and selectors that are not allowed.
struct Gen {
    bad: bool,
    /// more values per integer
    wide: bool,
    /// every content byte, instead of a pattern
    fill: Option<u8>,
}
impl Gen {
    fn pattern(&self, out: &[u8], k: usize) -> u8 {
        if let Some(v) = self.fill {
            return v;
        }
        (out.len() as u8).wrapping_mul(29).wrapping_add(k as u8).wrapping_mul(7) ^ 0x5B
    }
    fn int(&self, w: usize, ch: &mut Chooser, out: &mut Vec<u8>) {
        let base = out.len();
        let v: u64 = match ch.deviate(if self.wide { 6 + 8 * w } else { 5 }) {
            0 => (0..w).fold(0, |a, k| a << 8 | self.pattern(out, k) as u64),
            1 => 0,
            2 => u64::MAX,
            3 => 1 << (8 * w - 1),
            4 => 0x0102_0304_0506_0708,
            5 => (1 << (8 * w - 1)) - 1,
            k => 1 << (k - 6),
        };
        out.extend(&v.to_be_bytes()[8 - w..]);
        debug_assert_eq!(out.len(), base + w);
    }
    fn go(&self, f: &F, ch: &mut Chooser, out: &mut Vec<u8>) {
        match f {
            F::Uint(w) => self.int(*w, ch, out),
            F::Bytes(n) => (0..*n).for_each(|k| out.push(self.pattern(out, k))),
            F::Seq(l) => {
                let mut vals: Vec<usize> = vec![];
                for (i, f) in l.iter().enumerate() {
                    let at = out.len();
                    match f {
                        F::Counted { elem, cap, by } => {
                            for _ in 0..vals[*by].min(*cap + 1) {
                                self.go(elem, ch, out);
                            }
                        }
                        F::Uint(w) => {
                            // the least capacity that this field counts
                            let cap = l.iter().filter_map(|g| if let F::Counted { cap, by, .. } = g { (*by == i).then_some(*cap) } else { None }).min();
                            match cap {
                                None => self.int(*w, ch, out),
                                Some(cap) => self.counter(*w, cap, ch, out),
                            }
                        }
                        f => self.go(f, ch, out),
                    }
                    vals.push(if let F::Uint(w) = f { count(&out[at..at + w]) } else { 0 });
                }
            }
            F::Fixed(n, e) => (0..*n).for_each(|_| self.go(e, ch, out)),
            F::Counted { .. } => unreachable!(),
            F::Sized(cap) => {
                self.counter(2, *cap, ch, out);
                let n = uint(&out[out.len() - 2..]) as usize;
                for k in 0..n.min(cap + 1) {
                    out.push(self.pattern(out, k));
                }
            }
            F::Union { w, members } => {
                let n = members.len();
                let k = ch.choose(n);
                let mut sel = members[k].0;
                if self.bad {
                    // a selector that no member has
                    match ch.deviate(4) {
                        0 => (),
                        d => {
                            let m = u64::MAX >> (64 - 8 * w);
                            sel = [sel ^ 1, sel.wrapping_add(2) & m, sel ^ (1 << (8 * w - 1))][d - 1];
                        }
                    }
                }
                out.extend(&sel.to_be_bytes()[8 - w..]);
                self.go(&members[k].1, ch, out);
            }
        }
    }
    fn counter(&self, w: usize, cap: usize, ch: &mut Chooser, out: &mut Vec<u8>) {
        let max = u64::MAX >> (64 - 8 * w);
        let mut all: Vec<u64> = if cap <= 8 {
            let d = 2.min(cap);
            std::iter::once(d).chain((0..=cap).filter(|&n| n != d)).map(|n| n as u64).collect()
        } else {
            [2, 0, 1, 3, 127, 128, 255, 256, 257, cap as u64 - 1, cap as u64].into_iter().filter(|&n| n <= cap as u64).collect()
        };
        all.retain(|&n| n <= max);
        if self.bad {
            let c = cap as u64;
            for n in [c + 1, c + 2, 0x80, 0xFF, 0x100 + c, 0x8000, 0xFFFF, 0x1_0000 + c, 1 << (8 * w - 1), max, 0x1_0000_0000 + c] {
                if n > c && n <= max && !all.contains(&n) {
                    all.push(n);
                }
            }
        }
        let v = if cap <= 3 { *ch.pick(&all) } else { *ch.pick_dev(&all) };
        out.extend(&v.to_be_bytes()[8 - w..]);
    }
}

// ----------------------------------------------------------------------- values built without the codec
pub struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        let r = self.0.get(..n)?;
        self.0 = &self.0[n..];
        Some(r)
    }
}
pub trait M: Marshalable + PartialEq + 'static {
    fn desc() -> F;
    /// The value with this encoding; a count beyond the capacity is kept, with a full array.
    fn mk(r: &mut Rd) -> Option<Self>;
}
macro_rules! ints {
    ($($t:ty)*) => {$(
        impl M for $t {
            fn desc() -> F { F::Uint(size_of::<$t>()) }
            fn mk(r: &mut Rd) -> Option<Self> { Some(<$t>::from_be_bytes(r.take(size_of::<$t>())?.try_into().unwrap())) }
        }
    )*};
}
ints!(u8 u16 u32 u64 i8 i16 i32 i64);
impl<const N: usize> M for [u8; N] {
    fn desc() -> F {
        F::Bytes(N)
    }
    fn mk(r: &mut Rd) -> Option<Self> {
        r.take(N)?.try_into().ok()
    }
}
impl M for () {
    fn desc() -> F {
        F::Seq(vec![])
    }
    fn mk(_: &mut Rd) -> Option<()> {
        Some(())
    }
}
fn arr<T: M + Default + Copy, const N: usize>(r: &mut Rd, n: usize) -> Option<[T; N]> {
    let mut a = [T::default(); N];
    for x in a.iter_mut().take(n) {
        *x = T::mk(r)?;
    }
    Some(a)
}
fn mask<T>() -> u64 {
    u64::MAX >> (64 - 8 * size_of::<T>())
}

// ----------------------------------------------------------------------------------------- type erasure
pub trait Val {
    fn enc(&self, b: &mut [u8]) -> tpm2_rs_marshalable::Result<usize>;
    fn any(&self) -> &dyn Any;
    fn same(&self, o: &dyn Val) -> bool;
}
impl<T: M> Val for T {
    fn enc(&self, b: &mut [u8]) -> tpm2_rs_marshalable::Result<usize> {
        self.try_marshal(b)
    }
    fn any(&self) -> &dyn Any {
        self
    }
    fn same(&self, o: &dyn Val) -> bool {
        o.any().downcast_ref::<T>() == Some(self)
    }
}
type Dec = tpm2_rs_marshalable::Result<(Box<dyn Val>, usize)>;
pub struct Ty {
    name: &'static str,
    desc: F,
    dec: fn(&[u8]) -> Dec,
    mk: fn(&[u8]) -> Option<Box<dyn Val>>,
}
fn ty<T: M>(name: &'static str) -> Ty {
    fn dec<T: M>(b: &[u8]) -> Dec {
        let mut u = UnmarshalBuf::new(b);
        let v = T::try_unmarshal(&mut u)?;
        Ok((Box::new(v), b.len().wrapping_sub(u.len())))
    }
    fn mk<T: M>(b: &[u8]) -> Option<Box<dyn Val>> {
        T::mk(&mut Rd(b)).map(|v| Box::new(v) as _)
    }
    Ty { name, desc: T::desc(), dec: dec::<T>, mk: mk::<T> }
}

/// The selector type of a union from a number.
pub trait Sel: MarshalableVariant {
    fn repr(v: u64) -> Self::Repr;
}
pub struct Un {
    name: &'static str,
    desc: F,
    /// decode the member with a selector
    dec: fn(u64, &[u8]) -> Dec,
    /// decode with the selector in front, encode only the member
    enc: fn(&[u8], &mut [u8]) -> Option<tpm2_rs_marshalable::Result<usize>>,
}
fn un<T: M + Sel>(name: &'static str) -> Un {
    fn dec<T: M + Sel>(s: u64, b: &[u8]) -> Dec {
        let mut u = UnmarshalBuf::new(b);
        let v = T::try_unmarshal_variant(T::repr(s), &mut u)?;
        Ok((Box::new(v), b.len().wrapping_sub(u.len())))
    }
    fn enc<T: M + Sel>(b: &[u8], out: &mut [u8]) -> Option<tpm2_rs_marshalable::Result<usize>> {
        Some(T::mk(&mut Rd(b))?.try_marshal_variant(out))
    }
    Un { name, desc: T::desc(), dec: dec::<T>, enc: enc::<T> }
}
/// The byte-string interface of a sized buffer.
pub struct Bl {
    name: &'static str,
    cap: usize,
    own_cap: usize,
    /// from_bytes, then (get_size, get_buffer, as_ref, equal to the decoded value, encoding)
    run: fn(&[u8]) -> tpm2_rs_marshalable::Result<(usize, Vec<u8>, Vec<u8>, bool)>,
    empty: fn() -> bool,
}
fn bl<T: M + Tpm2bSimple + AsRef<[u8]> + Default>(name: &'static str) -> Bl {
    fn run<T: M + Tpm2bSimple + AsRef<[u8]>>(b: &[u8]) -> tpm2_rs_marshalable::Result<(usize, Vec<u8>, Vec<u8>, bool)> {
        let v = T::from_bytes(b)?;
        let w = [&(b.len() as u16).to_be_bytes()[..], b].concat();
        Ok((v.get_size() as usize, v.get_buffer().to_vec(), v.as_ref().to_vec(), T::mk(&mut Rd(&w)).is_some_and(|x| x == v)))
    }
    let F::Sized(cap) = T::desc() else { panic!() };
    Bl { name, cap, own_cap: T::MAX_BUFFER_SIZE, run: run::<T>, empty: || T::default().get_size() == 0 && T::default().get_buffer().is_empty() }
}
pub struct Wr {
    name: &'static str,
    inner: F,
    /// wrap the structure with this encoding: the buffer's content
    wrap: fn(&[u8]) -> Option<tpm2_rs_marshalable::Result<Vec<u8>>>,
    /// put the bytes into the buffer and unwrap: equal to the structure with this encoding?
    unwrap: fn(&[u8]) -> Option<tpm2_rs_marshalable::Result<bool>>,
}
fn wr<T: M + Tpm2bStruct>(name: &'static str) -> Wr
where
    T::StructType: M,
{
    fn wrap<T: M + Tpm2bStruct>(b: &[u8]) -> Option<tpm2_rs_marshalable::Result<Vec<u8>>>
    where
        T::StructType: M,
    {
        let v = T::StructType::mk(&mut Rd(b))?;
        Some(T::from_struct(&v).map(|w| w.get_buffer().to_vec()))
    }
    fn unwrap<T: M + Tpm2bStruct>(b: &[u8]) -> Option<tpm2_rs_marshalable::Result<bool>>
    where
        T::StructType: M,
    {
        let w = T::from_bytes(b).ok()?;
        Some(w.to_struct().map(|v| T::StructType::mk(&mut Rd(b)).is_some_and(|x| x == v)))
    }
    Wr { name, inner: T::StructType::desc(), wrap: wrap::<T>, unwrap: unwrap::<T> }
}

mod defs {
    use super::*;
    include!(concat!(env!("OUT_DIR"), "/defs.rs"));
}

fn canary(i: usize) -> u8 {
    (i as u8).wrapping_mul(13) ^ 0xB7
}
/// Encodes into `n` bytes of canary.
fn into(n: usize, f: impl FnOnce(&mut [u8]) -> tpm2_rs_marshalable::Result<usize>) -> Result<(tpm2_rs_marshalable::Result<usize>, Vec<u8>), String> {
    let mut b: Vec<u8> = (0..n).map(canary).collect();
    mc::guard(|| f(&mut b)).map(|r| (r, b))
}

/// Every output length: exact or an error.
fn outputs(n: usize, all: bool, want: &[u8], enc: &mut dyn FnMut(&mut [u8]) -> tpm2_rs_marshalable::Result<usize>, cov: &mut Cov) -> Result<(), String> {
    let lens: Vec<usize> = if all { (0..=n + 2).collect() } else { vec![0, 1, n / 2, n.saturating_sub(1), n, n + 1] };
    for len in lens {
        cov.evaluations += 1;
        cov.transitions += 1;
        let (r, out) = into(len, &mut *enc).map_err(|p| format!("encoding into {len} of {n} bytes: {p}"))?;
        match r {
            Err(_) if len < n => (),
            Ok(w) if len >= n && w == n && out[..n] == *want && (n..len).all(|i| out[i] == canary(i)) => (),
            r => return Err(format!("encoding into {len} of {n} bytes: {r:?} {}, expected {}", hex(&out), hex(want))),
        }
    }
    Ok(())
}

/// Compares the derived decoder with the reference on any bytes.
fn decode(t: &Ty, b: &[u8], cov: &mut Cov) -> Result<bool, String> {
    cov.evaluations += 1;
    cov.transitions += 1;
    let want = accepts(&t.desc, b);
    let got = mc::guard(|| (t.dec)(b)).map_err(|p| format!("decoding {}: {p}", hex(b)))?;
    match (got, want) {
        (Err(_), None) => Ok(false),
        (Ok((v, n)), Some(m)) if n == m => {
            let x = (t.mk)(&b[..m]).ok_or("harness: no value for an accepted encoding")?;
            if !x.same(&*v) {
                return Err(format!("{} decodes to another value", hex(&b[..m])));
            }
            Ok(true)
        }
        (r, want) => Err(format!("decoding {}: {:?}, the encoding has {want:?} bytes", hex(b), r.map(|r| format!("accepted {} bytes", r.1)))),
    }
}

fn show(f: &F) -> String {
    match f {
        F::Uint(w) => format!("u{}", 8 * w),
        F::Bytes(n) => format!("[u8;{n}]"),
        F::Seq(l) => format!("{{{}}}", l.iter().map(show).collect::<Vec<_>>().join(", ")),
        F::Fixed(n, e) => format!("[{};{n}]", show(e)),
        F::Counted { cap, by, elem } => format!("[{}; field {by} of {cap}]", show(elem)),
        F::Sized(n) => format!("sized({n})"),
        F::Union { w, members } => format!("union u{} {{{}}}", 8 * w, members.iter().map(|(s, f)| format!("{s:#x}: {}", show(f))).collect::<Vec<_>>().join(", ")),
    }
}

fn one(check: &Check, cov: &mut Cov, t: &Ty) {
    mc::label(t.name);
    let big = accepts(&t.desc, &[0; 70000]).is_some() && matches!(t.desc, F::Sized(n) if n > 1000);
    let budget = if big { 1 } else { check.tier(1, 2) };
    let fail = |key: &str, b: &[u8], e: String| check.fail(&format!("{}-{key}", t.name), || format!("struct {} {}\n  bytes {}\n  {e}", t.name, show(&t.desc), hex(b)));
    // valid encodings
    for fill in [None, Some(0), Some(0xFF)] {
    let g = Gen { bad: false, wide: check.thorough, fill };
    let budget = if fill.is_some() { 1 } else { budget };
    mc::explore(cov, mix(hash_str(t.name), fill.map_or(0, |f| 1 + f as u64)), budget, |ch, cov| {
        let mut b = vec![];
        g.go(&t.desc, ch, &mut b);
        cov.state(hash_bytes(hash_str(t.name), &b));
        // encodings whose counts are shared by arrays of different capacity may be invalid: then decoding must say so
        let Some(n) = accepts(&t.desc, &b) else { return true };
        if n != b.len() {
            return true;
        }
        let all = b.len() <= 64;
        let r = (|| -> Result<(), String> {
            decode(t, &b, cov)?;
            let mut long = b.clone();
            long.extend([0, 1, 0xFF, 0, 0, 0, 0x7F]);
            decode(t, &long, cov)?;
            for c in (0..n).filter(|c| all || *c < 8 || c + 8 > n || c % 997 == 0) {
                if decode(t, &b[..c], cov)? {
                    return Err(format!("harness: a prefix of {c} bytes is an encoding"));
                }
            }
            let v = (t.mk)(&b).ok_or("harness: no value")?;
            outputs(n, all, &b, &mut |o| v.enc(o), cov)
        })();
        if let Err(e) = r {
            fail("valid", &b, e);
            return false;
        }
        cov.sample(&t.name[..1], || format!("{} {}: {}", t.name, show(&t.desc), hex(&b[..b.len().min(40)])));
        !check.failing()
    });
    }
    // encodings with disallowed counts, sizes and selectors, decoded; and values with an over-long count, encoded
    let g = Gen { bad: true, wide: false, fill: None };
    mc::explore(cov, mix(1, hash_str(t.name)), 1, |ch, cov| {
        let mut b = vec![];
        g.go(&t.desc, ch, &mut b);
        cov.state(hash_bytes(mix(1, hash_str(t.name)), &b));
        let r = (|| -> Result<(), String> {
            let ok = decode(t, &b, cov)?;
            if !ok {
                if let Some(v) = (t.mk)(&b) {
                    // the value has a count beyond its array: it has no encoding
                    for len in [0, 1, 2, 3, 4, 8, b.len(), b.len() + 1, b.len() + 300] {
                        cov.evaluations += 1;
                        let (r, out) = into(len, |o| v.enc(o)).map_err(|p| format!("encoding a value with an over-long count into {len} bytes: {p}"))?;
                        if r.is_ok() {
                            return Err(format!("a value with an over-long count encodes to {r:?} {}", hex(&out)));
                        }
                    }
                }
            }
            Ok(())
        })();
        if let Err(e) = r {
            fail("invalid", &b, e);
            return false;
        }
        !check.failing()
    });
    // all short strings
    if !big {
        let (alpha, len) = check.tier((&[0u8, 1, 2, 0xFF][..], 4), (&[0u8, 1, 2, 3, 7, 0x80, 0xFF][..], 6));
        mc::explore(cov, mix(2, hash_str(t.name)), 0, |ch, cov| {
            let n = ch.choose(len + 1);
            let b: Vec<u8> = (0..n).map(|_| *ch.pick(alpha)).collect();
            if let Err(e) = decode(t, &b, cov) {
                fail("short", &b, e);
                return false;
            }
            !check.failing()
        });
    }
}

fn union(check: &Check, cov: &mut Cov, u: &Un) {
    mc::label(u.name);
    let F::Union { w, members } = &u.desc else { panic!() };
    let fail = |key: &str, e: String| check.fail(&format!("{}-{key}", u.name), || format!("{} {}: {e}", u.name, show(&u.desc)));
    // every selector (or every one near a member's)
    let sels: Vec<u64> = if *w <= check.tier(1, 2) {
        (0..1u64 << (8 * w)).collect()
    } else {
        let max = u64::MAX >> (64 - 8 * w);
        let mut s: Vec<u64> = vec![0, 1, 2, 0xFF, 0x100, max, max - 1, max >> 1, (max >> 1) + 1];
        for (m, _) in members {
            s.extend((0..8 * w).map(|b| m ^ 1 << b));
            s.extend([*m, m.wrapping_add(1) & max, m.wrapping_sub(1) & max, m.swap_bytes() >> (64 - 8 * w)]);
        }
        s.sort();
        s.dedup();
        s
    };
    let body: Vec<u8> = (0..64).map(|i| if i < 2 { i } else { 0 }).collect();
    for s in sels {
        cov.evaluations += 1;
        cov.transitions += 1;
        cov.state(mix(hash_str(u.name), s));
        match (mc::guard(|| (u.dec)(s, &body)), members.iter().find(|m| m.0 == s)) {
            (Ok(Err(Error::UnknownSelector)), None) => (),
            (Ok(Ok((_, n))), Some((_, m))) if accepts(m, &body) == Some(n) => (),
            (Ok(Err(_)), Some((_, m))) if accepts(m, &body).is_none() => (),
            (r, m) => {
                let r = r.map(|r| r.map(|x| x.1));
                return fail("selector", format!("selector {s:#x} ({} member): {r:?}", if m.is_some() { "a" } else { "no" }));
            }
        }
    }
    // each member alone
    let g = Gen { bad: false, wide: false, fill: None };
    mc::explore(cov, mix(3, hash_str(u.name)), 1, |ch, cov| {
        let mut b = vec![];
        g.go(&u.desc, ch, &mut b);
        if accepts(&u.desc, &b) != Some(b.len()) {
            return true;
        }
        let s = uint(&b[..*w]);
        let r = (|| -> Result<(), String> {
            let (v, n) = mc::guard(|| (u.dec)(s, &b[*w..]))?.map_err(|e| format!("decoding the member alone: {e:?}"))?;
            let (r, out) = into(b.len() + 2, |o| v.enc(o))?;
            if n != b.len() - w || r != Ok(b.len()) || out[..b.len()] != b {
                return Err(format!("the member decoded alone ({n} bytes) encodes ({r:?}) to {}", hex(&out)));
            }
            outputs(b.len() - w, true, &b[*w..], &mut |o| (u.enc)(&b, o).expect("harness: no value"), cov)?;
            for c in 0..b.len() - w {
                if mc::guard(|| (u.dec)(s, &b[*w..*w + c]).is_ok())? {
                    return Err(format!("the member decodes from {c} bytes"));
                }
            }
            Ok(())
        })();
        if let Err(e) = r {
            fail("member", format!("{}: {e}", hex(&b)));
            return false;
        }
        true
    });
}

fn blob(check: &Check, cov: &mut Cov, t: &Bl) {
    mc::label(t.name);
    let fail = |e: String| check.fail(&format!("{}-bytes", t.name), || format!("sized buffer of {} bytes: {e}", t.cap));
    if t.own_cap != t.cap || !mc::guard(|| (t.empty)()).unwrap_or(false) {
        fail(format!("MAX_BUFFER_SIZE {} or the default is not empty", t.own_cap));
    }
    let limit = t.cap.min(0xFFFF);
    let lens: Vec<usize> = (0..=limit.min(320)).chain([limit.saturating_sub(1), limit, limit + 1, limit + 2, 0xFFFF, 0x1_0000, 0x1_0001, 0x2_0000]).collect();
    for n in lens {
        let b: Vec<u8> = (0..n).map(|i| (i as u8).wrapping_mul(3) ^ (i >> 8) as u8).collect();
        cov.evaluations += 1;
        cov.traces += 1;
        cov.transitions += 4;
        cov.state(mix(hash_str(t.name), n as u64));
        match mc::guard(|| (t.run)(&b)) {
            Ok(Err(_)) if n > limit => (),
            Ok(Ok((size, got, r, same))) if n <= limit && size == n && got == b && r == b && same => (),
            r => return fail(format!("from_bytes of {n} bytes: {:?}", r.map(|r| r.map(|x| (x.0, x.1.len(), x.2.len(), x.3))))),
        }
    }
}

fn wrap(check: &Check, cov: &mut Cov, t: &Wr) {
    mc::label(t.name);
    let g = Gen { bad: true, wide: false, fill: None };
    mc::explore(cov, mix(4, hash_str(t.name)), check.tier(1, 2), |ch, cov| {
        let mut b = vec![];
        g.go(&t.inner, ch, &mut b);
        cov.evaluations += 2;
        let want = accepts(&t.inner, &b);
        let r = (|| -> Result<(), String> {
            match (mc::guard(|| (t.wrap)(&b)).map_err(|p| format!("wrapping: {p}"))?, want) {
                (None, _) => (),
                (Some(Err(_)), None) => (),
                (Some(Ok(c)), Some(n)) if c == b[..n] => (),
                (r, _) => return Err(format!("wrapping: {r:?}, expected {want:?} bytes")),
            }
            for c in 0..=b.len() {
                match (mc::guard(|| (t.unwrap)(&b[..c])).map_err(|p| format!("unwrapping: {p}"))?, accepts(&t.inner, &b[..c])) {
                    (None, _) => (),
                    (Some(Err(_)), None) | (Some(Ok(true)), Some(_)) => (),
                    (r, w) => return Err(format!("unwrapping {c} bytes: {r:?}, expected {w:?}")),
                }
            }
            Ok(())
        })();
        if let Err(e) = r {
            check.fail(&format!("{}-wrap", t.name), || format!("sized buffer around {}: {} {e}", show(&t.inner), hex(&b)));
            return false;
        }
        true
    });
}

// ------------------------------------------------------------------------------------------ large arrays
/// Structures whose arrays have more elements than 16 bits count, and unions holding large arrays.
mod large {
    use super::*;
    pub const BYTES: usize = 65540;
    pub const WORDS: usize = 66000;
    #[derive(Clone, Copy, PartialEq, Marshalable)]
    pub struct Bytes {
        pub number: u32,
        #[marshalable(length = number)]
        pub data: [u8; BYTES],
        pub end: u16,
    }
    #[derive(Clone, Copy, PartialEq, Marshalable)]
    pub struct Words {
        pub start: u8,
        pub number: u64,
        #[marshalable(length = number)]
        pub data: [u16; WORDS],
        pub end: u8,
    }
    #[derive(Clone, Copy, PartialEq, Marshalable)]
    pub struct Plain {
        pub start: u16,
        pub data: [u8; BYTES],
        pub end: u8,
    }
    #[derive(Clone, Copy, PartialEq, Discriminant, Marshalable)]
    #[repr(C, u16)]
    pub enum Either {
        Bytes(Bytes) = 7,
        Plain(Plain) = 0x100,
        Nothing() = 0x107,
    }

    /// A sized buffer around a structure whose encoding may be longer than its 16-bit size can say.
    #[derive(Clone, Copy, PartialEq, Marshalable, Tpm2bStruct)]
    #[marshalable(tpm2b_simple)]
    pub struct Tpm2bBytes {
        size: u16,
        contents: [u8; size_of::<Bytes>()],
    }
    fn wrapped(cov: &mut Cov, v: &Bytes, want: &[u8]) -> Result<(), String> {
        cov.evaluations += 1;
        cov.transitions += 2;
        match mc::guard(|| Tpm2bBytes::from_struct(v))? {
            Err(_) if want.len() > 0xFFFF => Ok(()),
            Ok(b) if want.len() <= 0xFFFF && b.get_buffer() == want && b.get_size() as usize == want.len() => match mc::guard(|| b.to_struct().map(|s| s == *v))? {
                Ok(true) => both(cov, &b, &[&(want.len() as u16).to_be_bytes(), want].concat()),
                r => Err(format!("unwrapping: {r:?}")),
            },
            r => Err(format!("wrapping {} bytes: {:?}", want.len(), r.map(|b| b.get_size()))),
        }
    }

    /// One value and its encoding: into every interesting room, back from it with bytes following, and from prefixes.
    fn both<T: Marshalable + PartialEq>(cov: &mut Cov, v: &T, want: &[u8]) -> Result<(), String> {
        let n = want.len();
        cov.traces += 1;
        cov.state(hash_bytes(7, want));
        outputs(n, n <= 64, want, &mut |o| v.try_marshal(o), cov).map_err(|e| e.chars().take(400).collect::<String>())?;
        let long = [want, &[0, 1, 0xFF][..]].concat();
        let cuts = (0..=n + 3).filter(|c| *c < 40 || c + 20 > n || c.is_power_of_two() || (c + 1).is_power_of_two() || c % 4999 == 0);
        for c in cuts {
            cov.evaluations += 1;
            cov.transitions += 1;
            let mut u = UnmarshalBuf::new(&long[..c]);
            match mc::guard(|| T::try_unmarshal(&mut u).map(|d| d == *v)).map_err(|p| format!("decoding {c} of {n} bytes: {p}"))? {
                Ok(true) if c >= n && u.len() == c - n => (),
                Err(_) if c < n => (),
                r => return Err(format!("decoding {c} of {n} bytes: {:?}, {} left", r, u.len())),
            }
        }
        Ok(())
    }
    fn refused<T: Marshalable>(cov: &mut Cov, v: &T, bytes: &[u8]) -> Result<(), String> {
        for room in [0, 4, 9, bytes.len(), 200_000] {
            cov.evaluations += 1;
            if let (Ok(w), _) = into(room, |o| v.try_marshal(o)).map_err(|p| format!("encoding an over-long count into {room} bytes: {p}"))? {
                return Err(format!("a value with an over-long count encodes to {w} bytes"));
            }
        }
        let mut u = UnmarshalBuf::new(bytes);
        match mc::guard(|| T::try_unmarshal(&mut u).is_ok())? {
            true => Err("an over-long count is accepted".into()),
            false => Ok(()),
        }
    }
    pub fn run(check: &Check, cov: &mut Cov, kind: usize) {
        let at = |i: usize| -> u8 {
            match kind {
                0 => (mix(7, i as u64) >> 7) as u8,
                1 => 0,
                _ => 0xFF,
            }
        };
        let fail = |what: &str, n: u64, r: Result<(), String>| {
            if let Err(e) = r {
                check.fail(&format!("large-{what}"), || format!("large {what} with {n} elements, contents {kind}: {e}"));
            }
        };
        let data: [u8; BYTES] = std::array::from_fn(at);
        let words: Box<[u16; WORDS]> = Box::new(std::array::from_fn(|i| u16::from_be_bytes([at(2 * i), at(2 * i + 1)])));
        let wire: Vec<u8> = (0..2 * WORDS).map(at).collect();
        let counts = |cap: usize| [0usize, 1, 2, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, cap - 1, cap].map(|n| n as u64);
        for n in counts(BYTES) {
            // only the used elements matter
            let mut v = Bytes { number: n as u32, data: [0; BYTES], end: 0x1234 };
            v.data[..n as usize].copy_from_slice(&data[..n as usize]);
            let w = [&(n as u32).to_be_bytes()[..], &data[..n as usize], &[0x12, 0x34]].concat();
            fail("bytes", n, both(cov, &v, &w));
            fail("member", n, both(cov, &Either::Bytes(v), &[&[0, 7], &w[..]].concat()));
        }
        for n in counts(BYTES).into_iter().chain(65520..65545).filter(|n| *n <= BYTES as u64) {
            let mut v = Bytes { number: n as u32, data: [0; BYTES], end: 0x1234 };
            v.data[..n as usize].copy_from_slice(&data[..n as usize]);
            let w = [&(n as u32).to_be_bytes()[..], &data[..n as usize], &[0x12, 0x34]].concat();
            fail("wrapped", n, wrapped(cov, &v, &w));
        }
        for n in counts(WORDS) {
            let mut v = Box::new(Words { start: 9, number: n, data: [0; WORDS], end: 0x56 });
            v.data[..n as usize].copy_from_slice(&words[..n as usize]);
            let w = [&[9][..], &n.to_be_bytes(), &wire[..2 * n as usize], &[0x56]].concat();
            fail("words", n, both(cov, &*v, &w));
        }
        let v = Plain { start: 0x0102, data, end: 3 };
        let w = [&[1, 2][..], &data, &[3]].concat();
        fail("plain", 0, both(cov, &v, &w));
        fail("member", 0, both(cov, &Either::Plain(v), &[&[1, 0], &w[..]].concat()));
        fail("member", 0, both(cov, &Either::Nothing(), &[1, 7]));
        for n in [BYTES as u64 + 1, 65536 * 2, 65536 * 2 + 1, 65536 * 3 + BYTES as u64, 1 << 31, u32::MAX as u64] {
            let v = Bytes { number: n as u32, data, end: 0 };
            let b = [&(n as u32).to_be_bytes()[..], &[0; 200_000]].concat();
            fail("bytes", n, refused(cov, &v, &b));
            fail("member", n, refused(cov, &Either::Bytes(v), &[&[0, 7], &b[..]].concat()));
        }
        for n in [WORDS as u64 + 1, 65536 * 2 + 1, 1 << 31, 1 << 32, (1 << 32) + 1, (1 << 32) + WORDS as u64, 1 << 63, u64::MAX] {
            let v = Box::new(Words { start: 0, number: n, data: *words, end: 0 });
            let b = [&[0][..], &n.to_be_bytes(), &[0; 300_000]].concat();
            fail("words", n, refused(cov, &*v, &b));
        }
    }
}

fn main() {
    let check = mc::Check::from_args();
    if check.prop != "C07" {
        eprintln!("unknown property {}", check.prop);
        std::process::exit(2);
    }
    let types = defs::types();
    check.bound(format!(
        "{} definitions: every structure of up to 2 named fields over 9 field kinds and counted arrays of 3 element types counted by any earlier field, of 3 over 6 kinds, every one of 4 over 3 kinds with a counted array, of 5 over bytes and counted arrays; every integer type as a count; 10 element types with capacities 0, 1, 3; 15 orders of 15 other field names with other attributes and visibilities; capacities as expressions; structures of up to 14 fields, unions of up to 14 members of up to 12 fields; positional structures of up to 3 fields; unions of up to 3 members over 7 member shapes and all selector widths; 8 wrapped structures",
        types.len()
    ));
    check.bound(format!(
        "per definition every count, size and member, up to {} field value deviations from a pattern and 1 from all zeroes and all ones, every truncation and output length; one disallowed count, size or selector; every byte string of up to {} bytes over a small alphabet",
        check.tier(1, 2),
        check.tier(4, 6)
    ));
    check.par(types, |cov, t| one(&check, cov, &t));
    check.par(defs::unions(), |cov, t| union(&check, cov, &t));
    check.par(defs::blobs(), |cov, t| blob(&check, cov, &t));
    check.par(defs::wraps(), |cov, t| wrap(&check, cov, &t));
    check.bound("arrays of 65540 bytes and 66000 words, counted by 32 and 64 bits or not at all, in structures and union members: counts around 0, 2^8, 2^15, 2^16 and the capacity, 3 contents, output rooms and truncations around the ends and powers of two; over-long counts up to the largest; a sized buffer around one of them: encodings of 6 to 65546 bytes");
    check.par((0..3).collect(), |cov, kind| large::run(&check, cov, kind));
    std::process::exit(check.finish());
}
