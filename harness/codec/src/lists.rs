//! C05: bounded lists against a vector.
use crate::schema::*;
use crate::types::*;
use crate::wire::{dec, enc};
use mc::{Check, Chooser, Cov, hash_bytes, hash_str, hex, mix};
use std::sync::Arc;
use tpm2_rs_base::constants::*;
use tpm2_rs_base::errors::TpmRcError;
use tpm2_rs_base::*;

trait L: R + Copy + PartialEq + Default {
    type E: R + Copy + PartialEq;
    const CAP: usize;
    /// The error is the numeric response code.
    fn new_(e: &[Self::E]) -> Result<Self, u32>;
    fn add_(&mut self, e: &Self::E) -> Result<(), u32>;
    fn count_(&self) -> usize;
    fn elements(&self) -> &[Self::E];
    fn element(i: usize) -> Self::E;
}
fn digest_select(tag: u32, bytes: &[u8]) -> TpmsTaggedPcrSelect {
    let w = [&tag.to_be_bytes()[..], &[bytes.len() as u8], bytes].concat();
    dec::<TpmsTaggedPcrSelect>(&w).unwrap().unwrap().0
}
fn policy(handle: u32, i: usize) -> TpmsTaggedPolicy {
    let (sel, n) = [(4u16, 20), (0xb, 32), (0xc, 48), (0xd, 64)][i % 4];
    let w = [&handle.to_be_bytes()[..], &sel.to_be_bytes(), &(0..n).map(|k| pat(k + i)).collect::<Vec<_>>()].concat();
    dec::<TpmsTaggedPolicy>(&w).unwrap().unwrap().0
}
macro_rules! l {
    ($($t:ident $f:ident : $e:ty, $cap:expr, |$i:ident| $make:expr);* $(;)?) => {$(
        impl L for $t {
            type E = $e;
            const CAP: usize = $cap;
            fn new_(e: &[$e]) -> Result<Self, u32> { $t::new(e).map_err(|e| e.get()) }
            fn add_(&mut self, e: &$e) -> Result<(), u32> { self.add(e).map_err(|e| e.get()) }
            fn count_(&self) -> usize { self.count() }
            fn elements(&self) -> &[$e] { self.$f() }
            fn element(i: usize) -> $e { let $i = i & 0xfff; $make }
        }
    )*};
}
l! {
    TpmlPcrSelection pcr_selections: TpmsPcrSelection, 16, |i| TpmsPcrSelection {
        hash: TpmiAlgHash(0x4000 + (i % 0x1000) as u16), sizeof_select: (i % 5) as u8,
        pcr_select: std::array::from_fn(|k| if k < i % 5 { pat(k + 3 * i) } else { 0 }),
    };
    TpmlAlgProperty alg_properties: TpmsAlgProperty, 127, |i| TpmsAlgProperty { alg: TpmAlgId((i as u16).wrapping_mul(3).wrapping_add(1)), alg_properties: TpmaAlgorithm(0x0100_0000 + i as u32) };
    TpmlHandle handle: TpmHandle, 254, |i| TpmHandle(0x8100_0000 + i as u32 * 7);
    TpmlCc command_codes: TpmCc, 254, |i| TpmCc(0x2000_0100 + i as u32 * 5);
    TpmlTaggedTpmProperty tpm_property: TpmsTaggedProperty, 127, |i| TpmsTaggedProperty { property: TpmPt(0x200 + i as u32), value: 0xff00_0000 - i as u32 };
    TpmlTaggedPcrProperty pcr_property: TpmsTaggedPcrSelect, 84, |i| digest_select(0x300 + i as u32, &[pat(i), pat(i + 1), pat(i + 2), 9][..i % 5]);
    TpmlEccCurve ecc_curves: TpmEccCurve, 508, |i| TpmEccCurve(0x1000 + i as u16);
    TpmlTaggedPolicy policies: TpmsTaggedPolicy, 14, |i| policy(0x4000_0001 + i as u32, i);
    TpmlDigest digests: Tpm2bDigest, 8, |i| Tpm2bDigest::from_bytes(&(0..i % 65).map(|k| pat(k + i)).collect::<Vec<_>>()).unwrap();
}

fn same<T: L>(l: &T, model: &[T::E]) -> bool {
    l.count_() == model.len() && l.elements() == model
}

fn wire<T: L>(model: &[T::E]) -> Vec<u8> {
    let mut w = (model.len() as u32).to_be_bytes().to_vec();
    model.iter().for_each(|e| e.put(&mut w));
    w
}

/// Encodes, compares with the model, decodes and compares again; returns the decoded list.
fn round<T: L>(l: &T, model: &[T::E]) -> Result<T, String> {
    let w = wire::<T>(model);
    match enc(l, w.len() + 4)? {
        (Ok(n), out) if n == w.len() && out[..n] == w[..] => {}
        (r, out) => return Err(format!("encodes ({r:?}) to {}, expected {}", hex(&out), hex(&w))),
    }
    let mut tail = w.clone();
    tail.extend([0x5a; 7]);
    match dec::<T>(&tail)? {
        Ok((d, n)) if n == w.len() => {
            if !same(&d, model) {
                return Err("decoding gives other elements".into());
            }
            if d != *l {
                return Err("the decoded list is not equal to the list".into());
            }
            Ok(d)
        }
        r => Err(format!("decoding its encoding: {:?}", r.map(|x| x.1))),
    }
}

fn step<T: L>(ch: &mut Chooser, l: &mut T, model: &mut Vec<T::E>, log: &mut Vec<String>) -> Result<(), String> {
    let size = TpmRcError::Size.get();
    match ch.choose(7) {
        k @ (0 | 1 | 5 | 6) => {
            // a new element, another one, the last one again, the first one again
            let e = match (k, model.first(), model.last()) {
                (5, _, Some(e)) | (6, Some(e), _) => *e,
                (5 | 6, _, _) => dec::<T::E>(&[0; 64]).ok().and_then(|r| r.ok()).map_or_else(|| T::element(0), |r| r.0),
                _ => T::element(model.len() + 100 * k + 1),
            };
            log.push(format!("add({k})"));
            let before = *l;
            let r = mc::guard(|| l.add_(&e))?;
            if model.len() < T::CAP {
                r.map_err(|e| format!("refused with {e:#x} at {} elements", model.len()))?;
                model.push(e);
            } else {
                match r {
                    Err(c) if c == size => {}
                    r => return Err(format!("adding to a full list: {r:x?}")),
                }
                if *l != before {
                    return Err("a refused element changed the list".into());
                }
            }
        }
        2 => {
            log.push("encode and decode".into());
            *l = round(l, model)?;
        }
        3 => {
            log.push("rebuild".into());
            let r = mc::guard(|| T::new_(l.elements()))?.map_err(|e| format!("building from its own elements: {e:#x}"))?;
            if r != *l {
                return Err("the list built from the same elements is not equal".into());
            }
            *l = r;
        }
        _ => {
            // a rejected decoding must not matter for anything
            log.push("copy".into());
            let mut c = *l;
            let _ = mc::guard(|| c.add_(&T::element(7)))?;
            if !same(l, model) {
                return Err("adding to a copy changed the list".into());
            }
        }
    }
    Ok(())
}

fn one<T: L>(check: &Check, cov: &mut Cov, name: &str, n: usize, depth: usize) {
    for alike in [false, true] {
        starting::<T>(check, cov, name, n, depth, alike);
    }
}

fn starting<T: L>(check: &Check, cov: &mut Cov, name: &str, n: usize, depth: usize, alike: bool) {
    let size = TpmRcError::Size.get();
    // how the list of n elements comes about: built, appended one by one, decoded
    mc::explore(cov, mix(hash_str(name), n as u64 * 2 + alike as u64), 0, |ch, cov| {
        let mut model: Vec<T::E> = (0..n).map(|i| T::element(if alike { 3 } else { i })).collect();
        let mut log = vec![];
        cov.evaluations += 1;
        let r: Result<(), String> = (|| {
            let how = ch.choose(3);
            log.push(format!("{} of {n} {}elements", ["new", "adds", "decode"][how], if alike { "equal " } else { "" }));
            let mut l = match how {
                0 => match mc::guard(|| T::new_(&model))? {
                    Ok(_) if n > T::CAP => return Err("accepted beyond the capacity".into()),
                    Ok(l) => l,
                    Err(c) if n > T::CAP && c == size => return Ok(()),
                    Err(c) => return Err(format!("building: {c:#x}")),
                },
                1 => {
                    if n > T::CAP {
                        return Ok(());
                    }
                    let mut l = mc::guard(T::default)?;
                    if !same(&l, &[]) {
                        return Err("the default is not empty".into());
                    }
                    for (i, e) in model.iter().enumerate() {
                        mc::guard(|| l.add_(e))?.map_err(|c| format!("add number {i}: {c:#x}"))?;
                        if !same(&l, &model[..i + 1]) {
                            return Err(format!("wrong contents after {} elements", i + 1));
                        }
                    }
                    l
                }
                _ => match dec::<T>(&wire::<T>(&model))? {
                    Ok(_) if n > T::CAP => return Err("decoded beyond the capacity".into()),
                    Ok((l, _)) => l,
                    Err(_) if n > T::CAP => return Ok(()),
                    Err(e) => return Err(format!("decoding: {e:?}")),
                },
            };
            if !same(&l, &model) {
                return Err("wrong contents".into());
            }
            for _ in 0..depth {
                step(ch, &mut l, &mut model, &mut log)?;
                if !same(&l, &model) {
                    return Err(format!("count {} and {} elements, expected {}", l.count_(), l.elements().len(), model.len()));
                }
            }
            round(&l, &model).map(|_| ())
        })();
        cov.state(hash_bytes(hash_str(name), log.join(",").as_bytes()));
        if let Err(e) = r {
            check.fail(&format!("{name}"), || format!("{name} after {}: {e}", log.join(", ")));
            return false;
        }
        cov.sample(name, || format!("{name}: {}", log.join(", ")));
        !check.failing()
    });
}

/// Lists with every enumerated element content.
fn contents<T: L>(check: &Check, cov: &mut Cov, name: &str) {
    let s = T::E::schema();
    let plain = Gen::PLAIN;
    for g in [Gen { alphabet: 1, ..plain }, Gen { alphabet: 1, fill: Some(0), ..plain }, Gen { alphabet: 1, fill: Some(0xff), ..plain }, Gen { alphabet: check.tier(1, 2), sizes: 2, ..plain }] {
        mc::explore(cov, hash_str(name), 1, |ch, cov| {
            let mut b = vec![];
            g.gen_into(&s, ch, &mut b);
            cov.state(hash_bytes(hash_str(name), &b));
            cov.evaluations += 1;
            let r: Result<(), String> = (|| {
                let Ok((e, _)) = dec::<T::E>(&b)? else { return Err("harness: the element is not decoded".into()) };
                let (x, y) = (T::element(1), T::element(2));
                for model in [vec![e], vec![x, e], vec![e, x], vec![x, e, y], vec![e, e]] {
                    let built = mc::guard(|| T::new_(&model))?.map_err(|c| format!("building: {c:#x}"))?;
                    let mut added = mc::guard(T::default)?;
                    for (i, e) in model.iter().enumerate() {
                        mc::guard(|| added.add_(e))?.map_err(|c| format!("add number {i}: {c:#x}"))?;
                    }
                    for l in [built, added] {
                        if !same(&l, &model) {
                            return Err(format!("wrong contents: count {}, {} elements", l.count_(), l.elements().len()));
                        }
                        round(&l, &model)?;
                    }
                }
                Ok(())
            })();
            if let Err(e) = r {
                check.fail(name, || format!("{name} with the element {}: {e}", hex(&b)));
                return false;
            }
            !check.failing()
        });
    }
}

pub fn c05(check: &Arc<Check>) {
    check.bound(format!("9 list types: every initial length from 0 to the capacity + 2, with distinct or equal elements, built, appended or decoded, followed by every sequence of up to {} operations (add one of two new elements, the first or the last element again, encode and decode, rebuild, modify a copy); near the capacity and for lists of up to 16 elements {} operations", 3, check.tier(5, 6)));
    // the elements themselves can be made
    macro_rules! makes {
        ($($t:ident),*) => {$(
            if let Err(p) = mc::guard(|| (0..4096).for_each(|i| drop($t::element(i)))) {
                check.fail("element", || format!("an element of {} is refused: {p}", stringify!($t)));
                return;
            }
        )*};
    }
    makes!(TpmlPcrSelection, TpmlAlgProperty, TpmlHandle, TpmlCc, TpmlTaggedTpmProperty, TpmlTaggedPcrProperty, TpmlEccCurve, TpmlTaggedPolicy, TpmlDigest);
    type Run = fn(&Check, &mut Cov, &str, usize, usize);
    let mut items: Vec<(&str, Run, usize, usize)> = vec![];
    macro_rules! add {
        ($($t:ident),*) => {$(
            for n in 0..=$t::CAP + 2 {
                let near = $t::CAP <= 16 || n < 3 || n + 3 > $t::CAP;
                items.push((stringify!($t), one::<$t>, n, if near { check.tier(5, 6) } else { 3 }));
            }
            // an initial slice much longer than the capacity, whose length has the same low bits as a valid one
            for n in [256, 258, 65536, 65538] {
                if n > $t::CAP {
                    items.push((stringify!($t), one::<$t>, n, 1));
                }
            }
        )*};
    }
    add!(TpmlPcrSelection, TpmlAlgProperty, TpmlHandle, TpmlCc, TpmlTaggedTpmProperty, TpmlTaggedPcrProperty, TpmlEccCurve, TpmlTaggedPolicy, TpmlDigest);
    check.par(items, |cov, (name, f, n, depth)| {
        mc::label(name);
        f(check, cov, name, n, depth);
    });
    check.bound("lists of one to three elements with an element of any content: one deviation (every byte value, size and member) from a pattern, from all zeroes and from all ones, in every position, built and appended");
    type Contents = fn(&Check, &mut Cov, &str);
    let mut items: Vec<(&str, Contents)> = vec![];
    macro_rules! contents {
        ($($t:ident),*) => {$( items.push((stringify!($t), contents::<$t>)); )*};
    }
    contents!(TpmlPcrSelection, TpmlAlgProperty, TpmlHandle, TpmlCc, TpmlTaggedTpmProperty, TpmlTaggedPcrProperty, TpmlEccCurve, TpmlTaggedPolicy, TpmlDigest);
    check.par(items, |cov, (name, f)| {
        mc::label(name);
        f(check, cov, name);
    });
    check.bound("the list of TPM properties, whose fields are public, with its count set to every value from 0 to the capacity + 300 and to large values: the elements are the first `count` (at most all) of them, and an element is accepted exactly when there is room");
    check.run(|cov| {
        mc::label("TpmlTaggedTpmProperty");
        type T = TpmlTaggedTpmProperty;
        let cap = T::CAP;
        let all: Vec<_> = (0..cap).map(T::element).collect();
        for n in (0..cap as u32 + 300).chain([0xffff, 0x1_0000, 0x1_0001, 0x7fff_ffff, 0x8000_0000, 0xffff_ff80, 0xffff_fffe, 0xffff_ffff]) {
            cov.evaluations += 1;
            cov.transitions += 2;
            cov.state(mix(hash_str("set-count"), n as u64));
            let r = mc::guard(|| {
                let Ok(mut l) = T::new(&all) else { return Err("a full list is refused".to_string()) };
                l.count = n;
                let held = cap.min(n as usize);
                if l.tpm_property() != &all[..held] {
                    return Err(format!("{} elements, expected the first {held}", l.tpm_property().len()));
                }
                let before = l;
                let e = T::element(0x900);
                match (l.add(&e), (n as usize) < cap) {
                    (Ok(()), true) if l.count() == held + 1 && l.tpm_property()[..held] == all[..held] && l.tpm_property()[held] == e => Ok(()),
                    (Err(c), false) if c.get() == TpmRcError::Size.get() && l == before => Ok(()),
                    (r, _) => Err(format!("adding gives {:x?} and {} elements, the list was {}changed", r.map_err(|e| e.get()), l.count(), if l == before { "un" } else { "" })),
                }
            });
            if let Err(d) = r.and_then(|r| r) {
                check.fail("TpmlTaggedTpmProperty-set-count", || format!("a list of properties with its count set to {n}: {d}"));
            }
        }
    });
}
