//! C04: sized buffers.
use crate::schema::*;
use crate::types::*;
use crate::wire::{dec, enc, fields};
use mc::{Check, Cov, hash_bytes, hash_str, hex, mix};
use std::sync::Arc;
use tpm2_rs_base::*;

type Run = fn(&Check, &mut Cov, &str, usize);

fn content(n: usize, salt: usize) -> Vec<u8> {
    match salt {
        0 => (0..n).map(pat).collect(),
        1 => vec![0; n],
        2 => vec![0xff; n],
        3 => (0..n).map(|i| pat(i * 7 + 3)).collect(),
        // zeroes at the start, at the end, in the middle, and a single one or non-zero byte
        4 => (0..n).map(|i| if i < 2 { 0 } else { pat(i) | 1 }).collect(),
        5 => (0..n).map(|i| if i + 2 >= n { 0 } else { pat(i) | 1 }).collect(),
        6 => (0..n).map(|i| if i == n / 2 { 0 } else { pat(i) | 1 }).collect(),
        7 => (0..n).map(|i| (i == 0) as u8).collect(),
        8 => (0..n).map(|i| (i + 1 == n) as u8).collect(),
        // every value of the first, the last and all bytes
        k => {
            let v = ((k - 9) / 3) as u8;
            match (k - 9) % 3 {
                0 => vec![v; n],
                1 => (0..n).map(|i| if i == 0 { v } else { pat(i) }).collect(),
                _ => (0..n).map(|i| if i + 1 == n { v } else { pat(i) }).collect(),
            }
        }
    }
}

/// Every length, every accessor, and the value decoded from its own encoding.
fn simple<T: R + Tpm2bSimple + AsRef<[u8]> + Default + PartialEq + std::fmt::Debug>(check: &Check, cov: &mut Cov, name: &str, cap: usize) {
    let fail = |what: &str, n: usize, detail: String| check.fail(&format!("{name}-{what}"), || format!("{name}, {n} bytes: {detail}"));
    if T::MAX_BUFFER_SIZE != cap {
        fail("capacity", cap, format!("the capacity is {}", T::MAX_BUFFER_SIZE));
    }
    let d = match mc::guard(T::default) {
        Ok(d) => d,
        Err(p) => return fail("default", 0, p),
    };
    if d.get_size() != 0 || !d.get_buffer().is_empty() || !d.as_ref().is_empty() || T::from_bytes(&[]) != Ok(d) {
        fail("default", 0, "the default is not the empty buffer".into());
    }
    let lens: Vec<usize> = (0..=cap + 3).chain([cap + 256, 0x7fff, 0x8000, 0xffff, 0x1_0000, 0x1_0001, 0x1_0000 + cap, 0x2_0003]).collect();
    let mut before: Option<(T, Vec<u8>)> = None;
    for n in lens {
        let few = n <= 66 || n.abs_diff(cap) <= 3 && n <= cap || n <= 300 && check.thorough;
        for salt in 0..if few { 9 + 768 } else { 9 } {
            let b = content(n, salt);
            cov.state(mix(hash_bytes(hash_str(name), &b), n as u64));
            cov.transitions += 1;
            cov.traces += 1;
            cov.evaluations += 1;
            let v = match mc::guard(|| T::from_bytes(&b)) {
                Err(p) => return fail("panic", n, p),
                Ok(v) => v,
            };
            if n > cap {
                if v.is_ok() {
                    return fail("over", n, "accepted beyond the capacity".into());
                }
                continue;
            }
            let v = match v {
                Ok(v) => v,
                Err(e) => return fail("refused", n, format!("{e:?}, the capacity is {cap}")),
            };
            let seen = mc::guard(|| (v.get_size() as usize, v.get_buffer().to_vec(), v.as_ref().to_vec()));
            match seen {
                Err(p) => return fail("panic", n, p),
                Ok((s, g, a)) => {
                    if s != n || g != b || a != b {
                        return fail("contents", n, format!("made from {}, size {s}, buffer {}, as_ref {}", hex(&b), hex(&g), hex(&a)));
                    }
                }
            }
            let wire = [&(n as u16).to_be_bytes()[..], &b].concat();
            match enc(&v, n + 2) {
                Ok((Ok(k), out)) if k == n + 2 && out == wire => {}
                r => return fail("encode", n, format!("{r:x?}")),
            }
            match dec::<T>(&wire) {
                Ok(Ok((w, k))) if k == n + 2 => {
                    if w != v {
                        return fail("equal", n, format!("decoded from {} differs from the value made from the bytes", hex(&wire)));
                    }
                    if (w.get_size() as usize, w.get_buffer(), w.as_ref()) != (n, &b[..], &b[..]) {
                        return fail("decoded", n, format!("decoded from {} holds {}", hex(&wire), hex(w.get_buffer())));
                    }
                }
                r => return fail("decode", n, format!("{:?}", r.map(|r| r.map(|x| x.1)))),
            }
            // distinct contents are distinct values
            if let Some((old, c)) = &before
                && (*old == v) != (*c == b)
            {
                return fail("distinct", n, format!("compared with {}", hex(c)));
            }
            before = Some((v, b));
        }
    }
    cov.sample(name, || format!("{name}: every length from 0 to {}", cap + 3));
}

/// Wrapping and unwrapping a structure.
fn wrapped<T>(check: &Check, cov: &mut Cov, name: &str, _: usize)
where
    T: R + Tpm2bStruct + Tpm2bSimple + AsRef<[u8]> + PartialEq + std::fmt::Debug,
    T::StructType: R + PartialEq,
{
    let s = <T::StructType as R>::schema();
    let fail = |what: &str, b: &[u8], detail: String| check.fail(&format!("{name}-{what}"), || format!("{name} of the structure {}: {detail}", hex(b)));
    if max_len(&s) > T::MAX_BUFFER_SIZE {
        fail("capacity", &[], format!("an encoding may have {} bytes, the capacity is {}", max_len(&s), T::MAX_BUFFER_SIZE));
    }
    for (gen_, budget) in check.tier(
        vec![(Gen { free: true, alphabet: 0, invalid: false, ..Gen::PLAIN }, 1), (Gen { free: false, alphabet: 1, invalid: true, ..Gen::PLAIN }, 1), (Gen { fill: Some(0), ..Gen::PLAIN }, 1), (Gen { sizes: 2, ..Gen::PLAIN }, 1), (Gen { sizes: 1, invalid: true, ..Gen::PLAIN }, 1)],
        vec![(Gen { free: true, alphabet: 1, invalid: false, ..Gen::PLAIN }, 1), (Gen { free: true, alphabet: 0, invalid: true, ..Gen::PLAIN }, 2), (Gen { fill: Some(0), alphabet: 1, ..Gen::PLAIN }, 1), (Gen { fill: Some(0xff), ..Gen::PLAIN }, 1), (Gen { sizes: 2, invalid: true, ..Gen::PLAIN }, 1), (Gen { sizes: 1, invalid: true, ..Gen::PLAIN }, 1)],
    ) {
        mc::explore(cov, hash_str(name), budget, |ch, cov| {
            let mut b = vec![];
            gen_.gen_into(&s, ch, &mut b);
            cov.state(hash_bytes(hash_str(name), &b));
            cov.evaluations += 1;
            let good = accepts(&s, &b);
            if good == Ok(b.len()) {
                let Ok(Ok((v, _))) = dec::<T::StructType>(&b) else {
                    fail("decode", &b, "not decoded".into());
                    return false;
                };
                match mc::guard(|| T::from_struct(&v)) {
                    Ok(Ok(w)) => {
                        if w.get_size() as usize != b.len() || w.get_buffer() != b || w.as_ref() != b {
                            fail("from-struct", &b, format!("holds {}", hex(w.get_buffer())));
                        }
                        // the same value as the one made from the encoding
                        if T::from_bytes(&b) != Ok(w) {
                            fail("from-bytes", &b, "wrapping the structure and wrapping its encoding differ".into());
                        }
                    }
                    r => fail("from-struct", &b, format!("{r:?}")),
                }
            }
            // unwrapping arbitrary contents, and their prefixes
            let cuts: Vec<usize> = if ch.spent() == 0 { (0..=b.len()).collect() } else { vec![b.len(), b.len() / 2, b.len().saturating_sub(1)] };
            for c in cuts {
                let b = &b[..c];
                let Ok(Ok(w)) = mc::guard(|| T::from_bytes(b)) else { continue };
                cov.evaluations += 1;
                match (mc::guard(|| w.to_struct()), accepts(&s, b)) {
                    (Err(p), _) => fail("to-struct-panic", b, p),
                    (Ok(Err(_)), Err(_)) => {}
                    (Ok(Ok(v)), Ok(n)) if fields(&v).is_ok_and(|f| f == b[..n]) => {
                        if n == b.len() && !matches!(dec::<T::StructType>(b), Ok(Ok((x, _))) if x == v) {
                            fail("to-struct-equal", b, "differs from the decoded structure".into());
                        }
                    }
                    (Ok(r), want) => fail("to-struct", b, format!("unwrapped {:?}, expected {want:?}", r.map(|v| fields(&v).map(|f| hex(&f))))),
                }
            }
            !check.failing()
        });
    }
    cov.sample(&format!("{name} struct"), || format!("{name}: wrapped and unwrapped every enumerated structure"));
}

pub fn c04(check: &Arc<Check>) {
    check.bound("24 sized-buffer types: every length from 0 to the capacity + 3 and lengths around 2^15 and 2^16, 9 contents each, and every value of all, the first and the last byte for lengths up to 66 and near the capacity");
    check.bound("3 structure wrappers: every union member x deviations of the fields; unwrapping every prefix and single-field corruption");
    let mut items: Vec<(&str, usize, Run)> = vec![];
    macro_rules! add {
        ($($t:ident),*) => {$(
            let S::Sized(cap) = $t::schema() else { unreachable!() };
            items.push((stringify!($t), cap, simple::<$t>));
        )*};
    }
    add!(
        Tpm2bDigest, Tpm2bData, Tpm2bEvent, Tpm2bMaxBuffer, Tpm2bMaxNvBuffer, Tpm2bIv, Tpm2bName, Tpm2bSymKey, Tpm2bLabel, Tpm2bSensitiveData,
        Tpm2bPublicKeyRsa, Tpm2bPrivateKeyRsa, Tpm2bEccParameter, Tpm2bEncryptedSecret, Tpm2bPrivateVendorSpecific, Tpm2bContextSensitive,
        Tpm2bAttest, Tpm2bSensitiveCreate, Tpm2bPublic, Tpm2bTemplate, Tpm2bPrivate, Tpm2bIdObject, Tpm2bContextData, Tpm2bCreationData
    );
    items.push(("Tpm2bSensitiveCreate", 0, wrapped::<Tpm2bSensitiveCreate>));
    items.push(("Tpm2bPublic", 0, wrapped::<Tpm2bPublic>));
    items.push(("Tpm2bCreationData", 0, wrapped::<Tpm2bCreationData>));
    items.sort_by_key(|i| std::cmp::Reverse(i.1));
    check.par(items, |cov, (name, cap, f)| {
        mc::label(name);
        f(check, cov, name, cap);
    });
    // buffers named after a structure hold every encoding of it
    check.run(|cov| {
        for (name, cap, s) in [
            ("Tpm2bAttest", Tpm2bAttest::MAX_BUFFER_SIZE, TpmsAttest::schema()),
            ("Tpm2bTemplate", Tpm2bTemplate::MAX_BUFFER_SIZE, TpmtPublic::schema()),
            ("Tpm2bIdObject", Tpm2bIdObject::MAX_BUFFER_SIZE, TpmsIdObject::schema()),
            ("Tpm2bContextData", Tpm2bContextData::MAX_BUFFER_SIZE, TpmsContextData::schema()),
            ("Tpm2bName", Tpm2bName::MAX_BUFFER_SIZE, TpmtHa::schema()),
            ("Tpm2bSensitiveData", Tpm2bSensitiveData::MAX_BUFFER_SIZE, TpmsDerive::schema()),
            ("Tpm2bEncryptedSecret", Tpm2bEncryptedSecret::MAX_BUFFER_SIZE, TpmsEccPoint::schema()),
            ("Tpm2bPrivate", Tpm2bPrivate::MAX_BUFFER_SIZE, S::Seq(vec![S::Sized(64), S::Sized(64), S::Bytes(2), TpmtSensitive::schema()])),
        ] {
            cov.evaluations += 1;
            cov.traces += 1;
            if cap < max_len(&s) {
                check.fail(&format!("{name}-capacity"), || format!("{name} holds {cap} bytes, an encoding may have {}", max_len(&s)));
            }
        }
    });
}
