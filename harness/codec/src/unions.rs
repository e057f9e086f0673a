//! C06: unions and their selectors.
use crate::schema::*;
use crate::types::*;
use crate::wire::{dec, fields};
use mc::{Check, Cov, hash_str, hex, mix};
use std::sync::Arc;
use tpm2_rs_base::marshal::{Error, UnmarshalBuf};
use tpm2_rs_base::*;

fn content(salt: usize) -> Vec<u8> {
    match salt {
        // any member without variable parts is complete, sized parts are empty
        0 => vec![0; 9000],
        // small lengths and counts everywhere
        1 => (0..9000).map(|i| (i % 4 == 3) as u8).collect(),
        _ => (0..9000).map(|i| [0, 2, 0, 0, 0, 1, 0x0b, 0, 5, 0x10][i % 10]).collect(),
    }
}

/// One selector value with some bytes in the member's place, both with the selector in front and kept elsewhere.
fn selector<T: U + PartialEq>(check: &Check, cov: &mut Cov, name: &str, cases: &[(u64, S)], sel: u64, data: &[u8]) {
    cov.evaluations += 1;
    let member = cases.iter().find(|c| c.0 == sel);
    let want = member.map(|m| accepts(&m.1, data));
    let what = || format!("{name}, selector {sel:#x}, member bytes {}", hex(&data[..data.len().min(100)]));
    let ext = match mc::guard(|| {
        let mut b = UnmarshalBuf::new(data);
        T::unmarshal_variant(sel, &mut b).map(|v| (v, data.len() - b.len()))
    }) {
        Ok(r) => r,
        Err(p) => return check.fail(&format!("{name}-panic"), || format!("{}: {p}", what())),
    };
    let wire = [&sel.to_be_bytes()[8 - T::width()..], data].concat();
    let own = match dec::<T>(&wire) {
        Ok(r) => r,
        Err(p) => return check.fail(&format!("{name}-panic"), || format!("{}: {p}", what())),
    };
    match want {
        None => {
            if !matches!(ext, Err(Error::UnknownSelector)) || !matches!(own, Err(Error::UnknownSelector)) {
                check.fail(&format!("{name}-undefined"), || format!("{}: {:?} / {:?}", what(), ext.map(|x| x.0.held()), own.map(|x| x.0.held())));
            }
        }
        Some(Err(e)) => {
            if ext.is_ok() || own.is_ok() {
                check.fail(&format!("{name}-malformed"), || format!("{}: accepted, but the member is malformed ({e:?})", what()));
            }
        }
        Some(Ok(n)) => {
            let (Ok((a, na)), Ok((b, nb))) = (ext, own) else {
                return check.fail(&format!("{name}-refused"), || format!("{}: refused, its first {n} bytes are the member", what()));
            };
            if na != n || nb != n + T::width() {
                return check.fail(&format!("{name}-layout"), || format!("{}: used {na} bytes (with selector {nb}), the member has {n}", what()));
            }
            if a != b {
                check.fail(&format!("{name}-agree"), || format!("{}: the two ways of decoding differ", what()));
            }
            let parts = mc::guard(|| a.parts());
            if parts != Ok((sel, data[..n].to_vec())) || a.held() != sel {
                check.fail(&format!("{name}-member"), || format!("{}: holds {:x?} with discriminant {:#x}", what(), parts.map(|p| (p.0, hex(&p.1))), a.held()));
            }
            // encoding the member alone and with the selector, into buffers that fit, are larger, or are too small
            for len in [n, n + 9, n.saturating_sub(1), n / 2, 0] {
                let mut out = vec![0xC3; len];
                let r = mc::guard(|| a.try_marshal_variant(&mut out));
                let good = match &r {
                    Ok(Ok(k)) => len >= n && *k == n && out[..n] == data[..n] && out[n..].iter().all(|x| *x == 0xC3),
                    Ok(Err(_)) => len < n,
                    Err(_) => false,
                };
                if !good {
                    check.fail(&format!("{name}-encode-member"), || format!("{}: encoding the member into {len} bytes: {r:?} {}", what(), hex(&out)));
                }
            }
            let mut out = vec![0xC3; wire.len()];
            let r = mc::guard(|| a.try_marshal(&mut out));
            if r != Ok(Ok(nb)) || out[..nb] != wire[..nb] {
                check.fail(&format!("{name}-encode"), || format!("{}: encoding: {r:?} {}", what(), hex(&out)));
            }
        }
    }
}

fn one<T: U + PartialEq>(check: &Check, cov: &mut Cov, name: &str) {
    let cases = T::cases();
    // every selector value with fixed contents, every undefined one also with the bytes of every member
    let contents: Vec<_> = (0..3).map(content).collect();
    let gen_ = Gen { still: true, ..Gen::PLAIN };
    let members: Vec<Vec<u8>> = cases
        .iter()
        .map(|m| {
            let mut b = vec![];
            gen_.gen_into(&m.1, &mut mc::Chooser::fixed(&[]), &mut b);
            b.extend([0; 8]);
            b
        })
        .collect();
    for sel in 0..0x1_0000u64 {
        cov.state(mix(hash_str(name), sel));
        cov.transitions += 1;
        cov.traces += 1;
        let known = cases.iter().any(|c| c.0 == sel);
        for c in contents.iter().take(if known { 3 } else { 1 }) {
            selector::<T>(check, cov, name, &cases, sel, if known { c } else { &c[..16] });
        }
        if !known {
            for m in &members {
                selector::<T>(check, cov, name, &cases, sel, m);
            }
        }
        if check.failing() {
            return;
        }
    }
    // every selector with the encoding of every member, and with its strict prefixes
    for (_, m) in &cases {
        for (gen_, budget) in [(Gen::PLAIN, check.tier(1, 2)), (Gen { fill: Some(0), ..Gen::PLAIN }, 1), (Gen { fill: Some(0xff), ..Gen::PLAIN }, 1), (Gen { sizes: 1, ..Gen::PLAIN }, 1), (Gen { sizes: 2, ..Gen::PLAIN }, 1)] {
            mc::explore(cov, hash_str(name), budget, |ch, cov| {
                let mut b = vec![];
                gen_.gen_into(m, ch, &mut b);
                if ch.spent() > 1 && b.len() > 2000 {
                    return true;
                }
                for (sel, _) in &cases {
                    selector::<T>(check, cov, name, &cases, *sel, &b);
                    if ch.spent() == 0 {
                        let k = b.len();
                        for c in (0..k.min(80)).chain([k.saturating_sub(1)]) {
                            selector::<T>(check, cov, name, &cases, *sel, &b[..c.min(k)]);
                        }
                    }
                }
                !check.failing()
            });
        }
    }
    cov.sample(name, || format!("{name}: all 65536 selectors, {} members, each with the bytes of every other", cases.len()));
}

/// Structures that keep the selector elsewhere.
fn hoisted<T: R + PartialEq>(check: &Check, cov: &mut Cov, name: &str) {
    let s = T::schema();
    let S::Union { pre, w, mid, cases } = &s else { unreachable!() };
    let gen_ = Gen { still: true, ..Gen::PLAIN };
    for (k, m) in cases.iter().enumerate() {
        let mut ch = mc::Chooser::fixed(&[]);
        let (mut a, mut b, mut c) = (vec![], vec![], vec![]);
        pre.iter().for_each(|s| gen_.gen_into(s, &mut ch, &mut a));
        mid.iter().for_each(|s| gen_.gen_into(s, &mut ch, &mut b));
        gen_.gen_into(&m.1, &mut ch, &mut c);
        for sel in 0..=0xffffu64 {
            cov.state(mix(hash_str(name), mix(k as u64, sel)));
            cov.transitions += 1;
            cov.traces += 1;
            cov.evaluations += 1;
            let mut wire = [&a[..], &sel.to_be_bytes()[8 - w..], &b, &c].concat();
            wire.extend([0; 3000]);
            let want = accepts(&s, &wire);
            let what = || format!("{name} with selector {sel:#x}: {}", hex(&wire[..200]));
            match (dec::<T>(&wire), want) {
                (Err(p), _) => check.fail(&format!("{name}-panic"), || format!("{}: {p}", what())),
                (Ok(Err(e)), Err(Bad::Selector)) => {
                    if e != Error::UnknownSelector {
                        check.fail(&format!("{name}-undefined"), || format!("{}: {e:?}", what()));
                    }
                }
                (Ok(Err(_)), Err(_)) => {}
                (Ok(Ok((v, n))), Ok(k)) if n == k && fields(&v).is_ok_and(|f| f == wire[..k]) => {}
                (Ok(r), want) => check.fail(&format!("{name}-hoisted"), || format!("{}: {:?}, expected {want:?}", what(), r.map(|x| x.1))),
            }
            if check.failing() {
                return;
            }
        }
    }
}

pub fn c06(check: &Arc<Check>) {
    check.bound("13 unions: all 65536 selectors, undefined ones with the bytes of every member (32-bit selectors: also every byte value in every position; and all 2^32) x every defined selector with the encoding of every member of the union and its prefixes; 3 structures with a distant selector: all 65536 selectors with the bytes of every member");
    type Run = fn(&Check, &mut Cov, &str);
    let mut items: Vec<(&str, Run)> = vec![];
    macro_rules! add {
        ($f:ident: $($t:ident),*) => {$(items.push((stringify!($t), $f::<$t>));)*};
    }
    add!(hoisted: TpmsAttest, TpmtPublic, TpmtSensitive);
    add!(one: TpmsCapabilityData, TpmuAttest, PublicParmsAndId, TpmuSensitiveComposite, TpmtHa, TpmtKeyedHashScheme, TpmtSymDefObject, TpmtSignature, TpmtSigScheme, TpmtRsaScheme, TpmtEccScheme, TpmtKdfScheme, TpmtAsymScheme);
    check.par(items, |cov, (name, f)| {
        mc::label(name);
        f(check, cov, name);
    });
    // 32-bit selectors beyond 16 bits
    let cases = TpmsCapabilityData::cases();
    let mut sels: Vec<u64> = vec![];
    for base in 0..=10u64 {
        for shift in [8, 16, 24] {
            sels.extend((1..256u64).map(|v| base | v << shift));
        }
    }
    sels.push(0xffff_ffff);
    sels.push(0x8000_0000);
    check.run(|cov| {
        let c = content(0);
        for s in sels {
            cov.state(mix(99, s));
            cov.transitions += 1;
            cov.traces += 1;
            selector::<TpmsCapabilityData>(check, cov, "TpmsCapabilityData", &cases, s, &c[..16]);
        }
    });
    {
        check.par((0..256u64).collect(), |cov, hi| {
            let cases = TpmsCapabilityData::cases();
            for lo in 0..1u64 << 24 {
                let sel = hi << 24 | lo;
                if cases.iter().any(|c| c.0 == sel) {
                    continue;
                }
                cov.evaluations += 1;
                cov.states += 1;
                cov.transitions += 1;
                let mut b = UnmarshalBuf::new(&[0; 16]);
                if !matches!(TpmsCapabilityData::unmarshal_variant(sel, &mut b), Err(Error::UnknownSelector)) {
                    check.fail("TpmsCapabilityData-undefined", || format!("capability selector {sel:#x} is not refused as unknown"));
                    return;
                }
            }
            cov.traces += 1;
        });
    }
}
