//! C20 (handle ranges, attribute fields) and C23 (numbers behind the names).
use crate::types::R;
use mc::{Check, Cov, mix};
use std::collections::BTreeMap;
use std::hint::black_box;
use tpm2_rs_base::commands::*;
use tpm2_rs_base::constants::*;
use tpm2_rs_base::errors::TpmRcError;
use tpm2_rs_base::marshal::{Marshalable, UnmarshalBuf};
use tpm2_rs_base::*;

fn chunks(of: u64, n: u64) -> Vec<(u32, u32)> {
    // inclusive chunks of 0..of
    let step = of.div_ceil(n);
    (0..n).map(|i| ((i * step) as u32, ((i + 1) * step - 1).min(of - 1) as u32)).collect()
}

fn wire<T: Marshalable>(v: &T) -> [u8; 4] {
    let mut b = [0; 4];
    assert_eq!(v.try_marshal(&mut b).expect("a 32-bit value fits 4 bytes"), 4);
    b
}

pub fn c20(check: &Check) {
    check.bound("all 2^32 handle values for the 3 range predicates and 2 checked conversions");
    check.bound("attribute words: all 2^32 x all 16 index types (set), all 2^32 (get); all 2^16 low halves x 34 high halves x all 256 index type values");
    check.bound("all 52 attribute flags and 8 range bounds; testing, setting, clearing and toggling every flag in all 8-bit words, and in all 32-bit words with at most two bits set or clear");
    // ---- handle ranges, over every 32-bit value
    check.par(chunks(1 << 32, 512), |cov, (lo, hi)| {
        mc::label(&format!("handles {lo:#x}..={hi:#x}"));
        let bad = mc::guard(|| {
            for v in lo..=hi {
                let v = black_box(v);
                let nv = v >> 24 == 1;
                let hmac = v >> 24 == 2 && v & 0xFF_FFFF < 64;
                let policy = v >> 24 == 3 && v & 0xFF_FFFF < 64;
                let auth = hmac || policy || v == 0x4000_0009;
                if TpmHc::is_nv_index(v) != nv {
                    return Some((v, "is_nv_index"));
                }
                if TpmHc::is_hmac_session(v) != hmac {
                    return Some((v, "is_hmac_session"));
                }
                if TpmHc::is_policy_session(v) != policy {
                    return Some((v, "is_policy_session"));
                }
                match TpmiRhNvIndex::try_from(v) {
                    Ok(h) if nv && wire(&h) == v.to_be_bytes() => (),
                    Err(e) if !nv && e == TpmRcError::Value => (),
                    _ => return Some((v, "TpmiRhNvIndex::try_from")),
                }
                match TpmiShAuthSession::try_from(v) {
                    Ok(h) if auth && wire(&h) == v.to_be_bytes() => (),
                    Err(e) if !auth && e == TpmRcError::Value => (),
                    _ => return Some((v, "TpmiShAuthSession::try_from")),
                }
            }
            None
        });
        match bad {
            Ok(None) => (),
            Ok(Some((v, what))) => check.fail(what, || format!("{what}({v:#010x}) differs from the specified range")),
            Err(p) => check.fail("panic", || format!("panic in {lo:#x}..={hi:#x}: {p}")),
        }
        let n = (hi - lo) as u64 + 1;
        cov.states += n;
        cov.traces += 1;
        cov.transitions += 5 * n;
        cov.evaluations += 5 * n;
        cov.sample("handles", || format!("every value of {lo:#010x}..={hi:#010x}: 3 predicates, 2 conversions, error value, encoding"));
    });
    // ---- constants
    check.run(|cov| {
        let mut one = |name: &str, got: u32, want: u32| {
            cov.state(mix(mc::hash_str(name), want as u64));
            cov.transitions += 1;
            cov.traces += 1;
            cov.evaluations += 1;
            if got != want {
                check.fail(name, || format!("{name} is {got:#x}, specified as {want:#x}"));
            }
        };
        one("HmacSessionFirst", TpmHc::HmacSessionFirst.get(), 0x0200_0000);
        one("HmacSessionLast", TpmHc::HmacSessionLast.get(), 0x0200_003F);
        one("PolicySessionFirst", TpmHc::PolicySessionFirst.get(), 0x0300_0000);
        one("PolicySessionLast", TpmHc::PolicySessionLast.get(), 0x0300_003F);
        one("PersistentFirst", TpmHc::PersistentFirst.get(), 0x8100_0000);
        one("PersistentLast", TpmHc::PersistentLast.get(), 0x81FF_FFFF);
        one("NVIndexFirst", TpmHc::NVIndexFirst.get(), 0x0100_0000);
        one("NVIndexLast", TpmHc::NVIndexLast.get(), 0x01FF_FFFF);
        one("RS_PW", u32::from_be_bytes(wire(&TpmiShAuthSession::RS_PW)), 0x4000_0009);
        macro_rules! flags {
            ($($t:ident { $($f:ident = $bit:expr),* $(,)? })*) => {
                $($(one(concat!(stringify!($t), "::", stringify!($f)), $t::$f.0 as u32, 1u32 << $bit);)*)*
                $(
                    // testing, setting and clearing a flag in any word, whatever else the word contains
                    let bits = 8 * std::mem::size_of::<$t>() as u32;
                    let mut words = vec![];
                    if bits == 8 {
                        words.extend(0..256u32);
                    } else {
                        words.extend([0, u32::MAX, 0x5555_5555, 0xAAAA_AAAA]);
                        for a in 0..32 {
                            for b in a..32 {
                                let w = 1u32 << a | 1 << b;
                                words.extend([w, !w]);
                            }
                        }
                    }
                    for w in words {
                        $({
                            cov.evaluations += 7;
                            let (w, bit) = (w as _, 1 << $bit);
                            let with = |f: &dyn Fn(&mut $t)| {
                                let mut a = $t(w);
                                f(&mut a);
                                a.0
                            };
                            let bad = if $t(w).contains($t::$f) != (w & bit != 0) || $t(w).intersects($t::$f) != (w & bit != 0) {
                                Some("testing")
                            } else if with(&|a| a.insert($t::$f)) != w | bit || with(&|a| a.set($t::$f, true)) != w | bit || ($t(w) | $t::$f).0 != w | bit {
                                Some("setting")
                            } else if with(&|a| a.remove($t::$f)) != w & !bit || with(&|a| a.set($t::$f, false)) != w & !bit {
                                Some("clearing")
                            } else if with(&|a| a.toggle($t::$f)) != w ^ bit || ($t(w) & $t::$f).0 != w & bit {
                                Some("toggling or masking")
                            } else if $t::from_bits_retain(w).0 != w || $t(w).bits() != w {
                                Some("making and reading")
                            } else {
                                None
                            };
                            if let Some(what) = bad {
                                check.fail(concat!(stringify!($t), "::", stringify!($f), "-use"), || format!("{what} {} in {:#x}", stringify!($f), w));
                            }
                        })*
                    }
                )*
            };
        }
        flags! {
            TpmaLocality { LOC_ZERO = 0, LOC_ONE = 1, LOC_TWO = 2, LOC_THREE = 3, LOC_FOUR = 4 }
            TpmaNv {
                PPWRITE = 0, OWNERWRITE = 1, AUTHWRITE = 2, POLICYWRITE = 3, POLICY_DELETE = 10, WRITELOCKED = 11,
                WRITEALL = 12, WRITEDEFINE = 13, WRITE_STCLEAR = 14, GLOBALLOCK = 15, PPREAD = 16, OWNERREAD = 17,
                AUTHREAD = 18, POLICYREAD = 19, NO_DA = 25, ORDERLY = 26, CLEAR_STCLEAR = 27, READLOCKED = 28,
                WRITTEN = 29, PLATFORMCREATE = 30, READ_STCLEAR = 31,
            }
            TpmaObject {
                FIXED_TPM = 1, ST_CLEAR = 2, FIXED_PARENT = 4, SENSITIVE_DATA_ORIGIN = 5, USER_WITH_AUTH = 6,
                ADMIN_WITH_POLICY = 7, NO_DA = 10, ENCRYPTED_DUPLICATION = 11, RESTRICTED = 16, DECRYPT = 17,
                SIGN_ENCRYPT = 18, X509_SIGN = 19,
            }
            TpmaAlgorithm { ASYMMETRIC = 0, SYMMETRIC = 1, HASH = 2, OBJECT = 3, SIGNING = 8, ENCRYPTING = 9, METHOD = 10 }
            TpmaSession { CONTINUE_SESSION = 0, AUDIT_EXCLUSIVE = 1, AUDIT_RESET = 2, DECRYPT = 5, ENCRYPT = 6, AUDIT = 7 }
            TpmaCc { NV = 22, EXTENSIVE = 23, FLUSHED = 24, R_HANDLE = 28, V = 29 }
        }
    });
    // attribute words with fields of several bits: every word is a valid attribute
    check.run(|cov| {
        for a in 0..32 {
            for b in a..32 {
                let w = 1u32 << a | 1 << b;
                for w in [w, !w] {
                    cov.evaluations += 4;
                    let all = TpmaNv::from_bits(w) == Some(TpmaNv(w)) && (!TpmaNv(w)).0 == !w
                        && TpmaCc::from_bits(w) == Some(TpmaCc(w)) && (!TpmaCc(w)).0 == !w
                        && TpmaLocality::from_bits(w as u8) == Some(TpmaLocality(w as u8)) && (!TpmaLocality(w as u8)).0 == !w as u8;
                    if !all {
                        check.fail("field-bits", || format!("attribute word {w:#x} loses bits of its fields"));
                    }
                }
            }
        }
    });
    // ---- the index type field (bits 7:4)
    let highs: Vec<u32> = (0..16).map(|b| 1 << b).chain((0..16).map(|b| !(1 << b) & 0xFFFF)).chain([0, 0xFFFF]).collect();
    check.par(highs, |cov, high| {
        mc::label(&format!("attribute words {high:04x}xxxx"));
        let bad = mc::guard(|| {
            for low in 0..=0xFFFFu32 {
                let w = high << 16 | low;
                if u32::from(TpmaNv(w).get_index_type().0) != (w >> 4) & 0xF {
                    return Some((w, 0, "get_index_type"));
                }
                for t in 0..=255u8 {
                    let mut a = TpmaNv(black_box(w));
                    a.set_type(TpmNt(t));
                    // an index type is a 4-bit number; a value that is not must still leave the other bits alone
                    let mask = if t < 16 { u32::MAX } else { !0xF0 };
                    if a.0 & mask != (w & !0xF0 | ((t as u32 & 0xF) << 4)) & mask {
                        return Some((w, t, "set_type"));
                    }
                }
            }
            None
        });
        match bad {
            Ok(None) => (),
            Ok(Some((w, t, what))) => check.fail(what, || format!("TpmaNv({w:#010x}).{what} (type {t:#x}) touches or reads other than bits 7:4")),
            Err(p) => check.fail("panic", || format!("attribute words {high:04x}xxxx: {p}")),
        }
        cov.states += 1 << 16;
        cov.traces += 1;
        cov.transitions += 257 << 16;
        cov.evaluations += 257 << 16;
        cov.sample("attributes", || format!("every attribute word {high:04x}xxxx: get_index_type, set_type with every type"));
    });
    check.run(|cov| {
        for t in 0..16u8 {
            cov.evaluations += 1;
            if TpmaNv::from(TpmNt(t)).0 != (t as u32) << 4 {
                check.fail("From<TpmNt>", || format!("TpmaNv::from(TpmNt({t:#x})) is {:#x}", TpmaNv::from(TpmNt(t)).0));
            }
        }
    });
    {
        check.par(chunks(1 << 32, 512), |cov, (lo, hi)| {
            mc::label(&format!("attribute words {lo:#x}..={hi:#x}"));
            let bad = mc::guard(|| {
                for w in lo..=hi {
                    if u32::from(TpmaNv(black_box(w)).get_index_type().0) != (w >> 4) & 0xF {
                        return Some((w, 0, "get_index_type"));
                    }
                    for t in 0..16u8 {
                        let mut a = TpmaNv(black_box(w));
                        a.set_type(TpmNt(t));
                        if a.0 != w & !0xF0 | ((t as u32) << 4) {
                            return Some((w, t, "set_type"));
                        }
                    }
                }
                None
            });
            match bad {
                Ok(None) => (),
                Ok(Some((w, t, what))) => check.fail(what, || format!("TpmaNv({w:#010x}).{what} (type {t:#x}) is wrong")),
                Err(p) => check.fail("panic", || p),
            }
            let n = (hi - lo) as u64 + 1;
            cov.states += n;
            cov.transitions += 17 * n;
            cov.evaluations += 17 * n;
            cov.traces += 1;
        });
    }
}

// ------------------------------------------------------------------------------------------------------- C23
macro_rules! numbers {
    ($($space:literal => [$(($v:expr, $want:expr, $name:literal)),* $(,)?],)*) => {
        fn table() -> Vec<(&'static str, Vec<(u32, u32, &'static str)>)> {
            vec![$(($space, vec![$(($v, $want, $name)),*])),*]
        }
    };
}
include!("table.rs");

/// Numbers that are defined elsewhere than in an enumeration.
fn others() -> Vec<(&'static str, Vec<(u32, u32, &'static str)>)> {
    use tpm2_client::connection::SimulatorPlatformSignal as P;
    vec![
        ("response code bases", vec![
            (TpmRc::RC_VER_1, 0x100, "RC_VER_1"),
            (TpmRc::RC_FMT_1, 0x80, "RC_FMT_1"),
            (TpmRc::RC_WARN, 0x900, "RC_WARN"),
            (TpmRc::RC_P, 0x40, "RC_P"),
            (TpmRc::RC_S, 0x800, "RC_S"),
        ]),
        ("TpmRcError", vec![
            (TpmRcError::Asymmetric.get(), 0x081, "Asymmetric"),
            (TpmRcError::Value.get(), 0x084, "Value"),
            (TpmRcError::Size.get(), 0x095, "Size"),
            (TpmRcError::Selector.get(), 0x098, "Selector"),
            (TpmRcError::BadTag.get(), 0x01E, "BadTag"),
            (TpmRcError::Initialize.get(), 0x100, "Initialize"),
            (TpmRcError::Failure.get(), 0x101, "Failure"),
            (TpmRcError::Sequence.get(), 0x103, "Sequence"),
            (TpmRcError::CommandSize.get(), 0x142, "CommandSize"),
            (TpmRcError::CommandCode.get(), 0x143, "CommandCode"),
            (TpmRcError::ContextGap.get(), 0x901, "ContextGap"),
            (TpmRcError::ObjectMemory.get(), 0x902, "ObjectMemory"),
            (TpmRcError::SessionMemory.get(), 0x903, "SessionMemory"),
            (TpmRcError::Memory.get(), 0x904, "Memory"),
        ]),
        ("command code of each command", vec![
            (StartupCmd::CMD_CODE.0, 0x144, "Startup"),
            (GetCapabilityCmd::CMD_CODE.0, 0x17A, "GetCapability"),
            (GetRandomCmd::CMD_CODE.0, 0x17B, "GetRandom"),
            (PcrReadCmd::CMD_CODE.0, 0x17E, "PCR_Read"),
        ]),
        ("SimulatorPlatformSignal", vec![
            (P::PowerOn as u32, 1, "PowerOn"),
            (P::PowerOff as u32, 2, "PowerOff"),
            (P::PhysicalPresenceOn as u32, 3, "PhysicalPresenceOn"),
            (P::PhysicalPresenceOff as u32, 4, "PhysicalPresenceOff"),
            (P::CancelOn as u32, 9, "CancelOn"),
            (P::CancelOff as u32, 10, "CancelOff"),
            (P::NvOn as u32, 11, "NvOn"),
            (P::NvOff as u32, 12, "NvOff"),
            (P::KeyCacheOn as u32, 13, "KeyCacheOn"),
            (P::KeyCacheOff as u32, 14, "KeyCacheOff"),
            (P::Reset as u32, 17, "Reset"),
            (P::Restart as u32, 18, "Restart"),
        ]),
    ]
}

/// Decodes every listed number as `T` and encodes it again.
fn carried<T: R>(check: &Check, cov: &mut Cov, name: &'static str, w: usize, lo: u32, hi: u32) {
    mc::label(name);
    let bad = mc::guard(|| {
        for v in lo..=hi {
            let b = v.to_be_bytes();
            let b = &b[4 - w..];
            let mut u = UnmarshalBuf::new(b);
            let Ok(x) = T::try_unmarshal(&mut u) else { return Some((v, "refused")) };
            let mut o = [0xA5; 4];
            match x.try_marshal(&mut o) {
                Ok(n) if n == w && o[..w] == *b && o[w..].iter().all(|&c| c == 0xA5) => (),
                _ => return Some((v, "changed")),
            }
        }
        None
    });
    match bad {
        Ok(None) => (),
        Ok(Some((v, how))) => check.fail(&format!("{name}-{how}"), || format!("{name}: the value {v:#x} is {how} by decoding and encoding")),
        Err(p) => check.fail(&format!("{name}-panic"), || format!("{name}: panic between {lo:#x} and {hi:#x}: {p}")),
    }
    let n = (hi - lo) as u64 + 1;
    cov.states += n;
    cov.transitions += 2 * n;
    cov.traces += 1;
    cov.evaluations += n;
}

pub fn c23(check: &Check) {
    check.bound("every public identifier (32 spaces, about 580 names): value against the specification, uniqueness");
    check.bound(check.tier(
        "values without a name: all 8-bit and 16-bit values; 32-bit spaces: all low halves of 1800 high halves",
        "values without a name: all 8-bit, 16-bit and 32-bit values of every space with a codec",
    ));
    check.run(|cov| {
        for (space, names) in table().into_iter().chain(others()) {
            let mut at: BTreeMap<u32, &str> = BTreeMap::new();
            for (got, want, name) in names {
                cov.state(mix(mc::hash_str(space), mix(want as u64, mc::hash_str(name))));
                cov.transitions += 1;
                cov.traces += 1;
                cov.evaluations += 1;
                cov.sample(space, || format!("{space}::{name} = {want:#x}"));
                if got != want {
                    check.fail(&format!("{space}::{name}"), || format!("{space}::{name} is {got:#x}, specified as {want:#x}"));
                }
                if let Some(other) = at.insert(got, name) {
                    check.fail(&format!("{space}::{name}-twice"), || format!("{space}: {name} and {other} both denote {got:#x}"));
                }
            }
        }
    });
    type Carry = (fn(&Check, &mut Cov, &'static str, usize, u32, u32), &'static str, usize);
    macro_rules! spaces {
        ($($t:ident $w:expr),* $(,)?) => { vec![$((carried::<$t> as fn(&Check, &mut Cov, &'static str, usize, u32, u32), stringify!($t), $w)),*] };
    }
    let spaces: Vec<Carry> = spaces![
        TpmAlgId 2, TpmEccCurve 2, TpmCc 4, TpmSt 2, TpmSu 2, TpmCap 4, TpmPt 4, TpmPtPcr 4, TpmHandle 4, TpmGenerated 4,
        TpmiAlgHash 2, TpmiAlgKdf 2, TpmiAlgPublic 2, TpmiAlgSymMode 2, TpmiAlgSymObject 2, TpmiAlgKeyedhashScheme 2,
        TpmiAlgRsaScheme 2, TpmiAlgSigScheme 2, TpmiAlgEccScheme 2, TpmiAlgAsymScheme 2, TpmiYesNo 1, TpmiStAttest 2,
        TpmiStCommandTag 2, TpmHc 4, TpmaNv 4, TpmaObject 4, TpmaAlgorithm 4, TpmaCc 4, TpmaSession 1, TpmaLocality 1,
    ];
    let mut items = vec![];
    for s in spaces {
        match s.2 {
            1 => items.push((s, 0, 255)),
            2 => items.push((s, 0, 0xFFFF)),
            _ if check.thorough => items.extend(chunks(1 << 32, 128).into_iter().map(|(l, h)| (s, l, h))),
            _ => {
                for high in (0..0x400u32).chain(0x4000..0x4010).chain(0x8000..0x8200).chain((0x400..0x1_0000).step_by(0x100)).chain([0xFF54, 0xFFFF]) {
                    items.push((s, high << 16, high << 16 | 0xFFFF));
                }
            }
        }
    }
    check.par(items, |cov, ((f, name, w), lo, hi)| f(check, cov, name, w, lo, hi));
    // the core crate's algorithm identifiers have a codec of their own
    check.run(|cov| {
        for v in 0..=0xFFFFu16 {
            use tpm2::{MarshalArray, UnmarshalArray};
            cov.evaluations += 1;
            let mut b = [0xA5; 2];
            tpm2::Alg(v).marshal_array(&mut b);
            if b != v.to_be_bytes() || tpm2::Alg::unmarshal_array(&b) != Ok(tpm2::Alg(v)) {
                check.fail("Alg-changed", || format!("Alg({v:#x}) is encoded as {}", mc::hex(&b)));
            }
        }
        cov.states += 1 << 16;
    });
}
