//! C09: response codes and errors.
use mc::{Check, mix};
use tpm2::errors::*;
use tpm2_rs_marshalable::Error as CodecError;

pub fn run(check: &Check) {
    let named: [(&str, TpmRcError, u32); 15] = [
        ("Asymmetric", TpmRcError::Asymmetric, 0x081),
        ("Value", TpmRcError::Value, 0x084),
        ("Size", TpmRcError::Size, 0x095),
        ("Selector", TpmRcError::Selector, 0x098),
        ("BadTag", TpmRcError::BadTag, 0x01E),
        ("Initialize", TpmRcError::Initialize, 0x100),
        ("Failure", TpmRcError::Failure, 0x101),
        ("Sequence", TpmRcError::Sequence, 0x103),
        ("CommandSize", TpmRcError::CommandSize, 0x142),
        ("CommandCode", TpmRcError::CommandCode, 0x143),
        ("ContextGap", TpmRcError::ContextGap, 0x901),
        ("ObjectMemory", TpmRcError::ObjectMemory, 0x902),
        ("SessionMemory", TpmRcError::SessionMemory, 0x903),
        ("Memory", TpmRcError::Memory, 0x904),
        ("Memory", TpmRcError::Memory, 0x904),
    ];
    use ErrorPosition::*;
    let positions = [Pos1, Pos2, Pos3, Pos4, Pos5, Pos6, Pos7, Pos8, Pos9, PosA, PosB, PosC, PosD, PosE, PosF];
    type For = fn(ErrorType, ErrorPosition) -> TpmRcError;
    let bases: [(&str, For, u32); 4] = [
        ("Asymmetric", TpmRcError::AsymmetricFor, 0x081),
        ("Value", TpmRcError::ValueFor, 0x084),
        ("Size", TpmRcError::SizeFor, 0x095),
        ("Selector", TpmRcError::SelectorFor, 0x098),
    ];
    check.bound("all named response codes; 4 format-one builders x parameter 1-15, handle 1-7, session 1-7; three client layers x 11 named errors; 3 codec errors");
    check.run(|cov| {
        let mut seen = 0u64;
        let mut one = |cov: &mut mc::Cov| {
            seen += 1;
            cov.evaluations += 1;
            cov.traces += 1;
            cov.transitions += 1;
            cov.state(mix(9, seen));
        };
        for (n, e, v) in named {
            one(cov);
            // the specification: format-zero warnings have bits 8 and 11 set and bit 7 clear
            let warn = v & 0x980 == 0x900;
            if e.get() != v || e.is_warning() != warn || e.format1_parameter().is_some() || TssError::from(e).get() != v {
                check.fail("named", || format!("{n}: {:#x} warning {} position {:?}, expected {v:#x}", e.get(), e.is_warning(), e.format1_parameter()));
            }
        }
        for (n, f, base) in bases {
            for (i, &pos) in positions.iter().enumerate() {
                let p = i as u32 + 1;
                for (on, mask, max) in [(ErrorType::Parameter, 0x40, 15), (ErrorType::Handle, 0, 7), (ErrorType::Session, 0x800, 7)] {
                    if p > max {
                        continue;
                    }
                    one(cov);
                    let what = || format!("{n}For({on:?}, {pos:?})");
                    match mc::guard(|| {
                        let e = f(on, pos);
                        (e.get(), e.format1_parameter(), e.is_warning(), TssError::from(e).get())
                    }) {
                        Err(p) => check.fail("panic", || format!("{p} {}", what())),
                        Ok((v, d, w, t)) => {
                            let want = base | mask | p << 8;
                            if v != want || t != want {
                                check.fail("format-one-value", || format!("{}: {v:#x}, expected {want:#x}", what()));
                            }
                            if d != Some((on, pos)) {
                                check.fail("format-one-decode", || format!("{} decodes as {d:?}", what()));
                            }
                            if w {
                                check.fail("format-one-warning", || what());
                            }
                        }
                    }
                }
            }
        }
        macro_rules! layer {
            ($t:ident, $l:expr) => {
                for (n, e, v) in [
                    ("GeneralFailure", $t::GeneralFailure, 2u32),
                    ("BadParameter", $t::BadParameter, 3),
                    ("InternalError", $t::InternalError, 4),
                    ("OutOfMemory", $t::OutOfMemory, 5),
                    ("NotImplemented", $t::NotImplemented, 6),
                    ("KeyAlredyRegistered", $t::KeyAlredyRegistered, 8),
                    ("TpmUnexpected", $t::TpmUnexpected, 16),
                    ("CommFailure", $t::CommFailure, 17),
                    ("Timeout", $t::Timeout, 18),
                    ("Unsupported", $t::Unsupported, 20),
                    ("Canceled", $t::Canceled, 22),
                ] {
                    one(cov);
                    let g = TssError::from(e).get();
                    if g != v | $l << 12 {
                        check.fail("layer", || format!("{}::{n} is {g:#x}", stringify!($t)));
                    }
                }
            };
        }
        layer!(TssTddlError, 1u32);
        layer!(TssTcsError, 2u32);
        layer!(TssTspError, 3u32);
        for (e, v) in [(CodecError::ArrayLengthExceeded, 0x95), (CodecError::UnexpectedEndOfBuffer, 0x904), (CodecError::UnknownSelector, 0x98)] {
            one(cov);
            let (a, b) = (TpmRcError::from(e).get(), TssError::from(e).get());
            if a != v || b != v {
                check.fail("codec-error", || format!("{e:?} -> {a:#x} / {b:#x}, expected {v:#x}"));
            }
        }
        for v in (0..64).map(|i| 1u32 << (i % 32) ^ (i / 32) * 0x5A5A5) {
            one(cov);
            let Ok(e) = TssError::try_from(v) else { continue };
            let io = std::io::Error::from(e);
            let back = io.get_ref().and_then(|x| x.downcast_ref::<TssError>()).map(|e| e.get());
            if back != Some(v) {
                check.fail("io-error", || format!("{v:#x} through std::io::Error: {back:x?}"));
            }
        }
        cov.sample("SizeFor(Session, Pos7)", || format!("{:#x}", TpmRcError::SizeFor(ErrorType::Session, ErrorPosition::Pos7).get()));
    });
    check.bound("all 2^32 numbers converted to an error and back");
    check.par((0..4096u32).collect(), |cov, k| {
        let mut bad = 0;
        for v in k << 20..=(k << 20 | 0xF_FFFF) {
            let r = TssError::try_from(v).ok().map(|e| e.get());
            if r != if v == 0 { None } else { Some(v) } {
                bad += 1;
                if bad < 3 {
                    check.fail("any-code", || format!("{v:#x} -> {r:x?}"));
                }
            }
        }
        cov.states += 1 << 20;
        cov.transitions += 1 << 20;
        cov.traces += 1 << 20;
        cov.evaluations += 1 << 20;
    });
}
