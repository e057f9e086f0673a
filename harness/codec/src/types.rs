//! Every type with a codec: its wire format according to the TPM 2.0 specification (Part 2, and Part 3 for command
//! parameters), and how to read its fields through the public API.  Formats are written down here by hand; they are
//! not derived from the Rust definitions.
use crate::schema::S;
use tpm2_rs_base::commands::*;
use tpm2_rs_base::constants::*;
use tpm2_rs_base::marshal::Marshalable;
use tpm2_rs_base::*;

pub trait R: Marshalable + 'static {
    fn schema() -> S;
    /// The encoding assembled from the value's public fields in specification order.
    fn put(&self, out: &mut Vec<u8>);
}

macro_rules! prim {
    ($($t:ty),*) => {$(
        impl R for $t {
            fn schema() -> S { S::Uint(size_of::<$t>()) }
            fn put(&self, out: &mut Vec<u8>) { out.extend(self.to_be_bytes()); }
        }
    )*};
}
prim!(u8, u16, u32, u64, i8, i16, i32, i64);

impl R for () {
    fn schema() -> S {
        S::Seq(vec![])
    }
    fn put(&self, _: &mut Vec<u8>) {}
}
impl<const N: usize> R for [u8; N] {
    fn schema() -> S {
        S::Bytes(N)
    }
    fn put(&self, out: &mut Vec<u8>) {
        out.extend(self);
    }
}

/// Integers in a public newtype.
macro_rules! newtype {
    ($($t:ident : $n:ty),* $(,)?) => {$(
        impl R for $t {
            fn schema() -> S { <$n>::schema() }
            fn put(&self, out: &mut Vec<u8>) { self.0.put(out); }
        }
    )*};
}
newtype! {
    TpmaLocality: u8, TpmaNv: u32, TpmiAlgHash: u16, TpmiAlgKdf: u16, TpmiAlgPublic: u16, TpmiAlgSymMode: u16,
    TpmiAlgSymObject: u16, TpmiAlgKeyedhashScheme: u16, TpmiAlgRsaScheme: u16, TpmiAlgSigScheme: u16,
    TpmiAlgEccScheme: u16, TpmiAlgAsymScheme: u16, TpmiYesNo: u8, TpmiStAttest: u16, TpmaObject: u32,
    TpmaAlgorithm: u32, TpmaSession: u8, TpmaCc: u32, TpmiStCommandTag: u16,
    TpmAlgId: u16, TpmEccCurve: u16, TpmCc: u32, TpmSt: u16, TpmSu: u16, TpmCap: u32, TpmPt: u32, TpmPtPcr: u32,
    TpmHandle: u32, TpmGenerated: u32,
}

/// Types whose fields cannot be read: seen through their own encoding.
macro_rules! opaque {
    ($($t:ident : $s:expr),* $(,)?) => {$(
        impl R for $t {
            fn schema() -> S { $s }
            fn put(&self, out: &mut Vec<u8>) {
                let mut b = vec![0; 1 + crate::schema::max_len(&Self::schema())];
                let n = self.try_marshal(&mut b).expect("encoding of a private-field value");
                out.extend(&b[..n]);
            }
        }
    )*};
}
opaque! {
    TpmiEccCurve: S::Uint(2), TpmiAesKeyBits: S::Uint(2), TpmiSm4KeyBits: S::Uint(2), TpmiCamelliaKeyBits: S::Uint(2),
    TpmiRsaKeyBits: S::Uint(2), TpmiRhNvIndex: S::Uint(4), TpmiShAuthSession: S::Uint(4),
    TpmlCca: list(4, 254, S::Uint(4)),
    TpmsTaggedPcrSelect: S::Seq(vec![S::Uint(4), list(1, 4, S::Uint(1))]),
    TpmsTaggedPolicy: S::Seq(vec![S::Uint(4), TpmtHa::schema()]),
    PcrReadCmd: S::Seq(vec![TpmlPcrSelection::schema()]),
    PcrReadResp: S::Seq(vec![S::Uint(4), TpmlPcrSelection::schema(), TpmlDigest::schema()]),
}
impl R for TpmHc {
    fn schema() -> S {
        S::Uint(4)
    }
    fn put(&self, out: &mut Vec<u8>) {
        self.get().put(out);
    }
}

pub fn list(w: usize, cap: usize, elem: S) -> S {
    S::List { w, cap, elem: Box::new(elem) }
}

macro_rules! b2 {
    ($($t:ident : $cap:expr),* $(,)?) => {
        $(
            impl R for $t {
                fn schema() -> S { S::Sized($cap) }
                fn put(&self, out: &mut Vec<u8>) {
                    let b = self.get_buffer();
                    (b.len() as u16).put(out);
                    out.extend(b);
                }
            }
        )*
    };
}
// Capacities that are the size of a structure in memory are not fixed by the specification: the type's own value is
// used, and C04 checks that every encoding of that structure fits.
b2! {
    Tpm2bDigest: 64, Tpm2bData: 64, Tpm2bEvent: 1024, Tpm2bMaxBuffer: 1024, Tpm2bMaxNvBuffer: 2048, Tpm2bIv: 16,
    Tpm2bName: 66, Tpm2bSymKey: 32, Tpm2bLabel: 32, Tpm2bSensitiveData: 256,
    Tpm2bPublicKeyRsa: 512, Tpm2bPrivateKeyRsa: 256, Tpm2bEccParameter: 128, Tpm2bEncryptedSecret: 512,
    Tpm2bPrivateVendorSpecific: 1280, Tpm2bContextSensitive: 5120,
    Tpm2bAttest: <Tpm2bAttest as Tpm2bSimple>::MAX_BUFFER_SIZE,
    Tpm2bSensitiveCreate: <Tpm2bSensitiveCreate as Tpm2bSimple>::MAX_BUFFER_SIZE,
    Tpm2bPublic: <Tpm2bPublic as Tpm2bSimple>::MAX_BUFFER_SIZE,
    Tpm2bTemplate: <Tpm2bTemplate as Tpm2bSimple>::MAX_BUFFER_SIZE,
    Tpm2bPrivate: <Tpm2bPrivate as Tpm2bSimple>::MAX_BUFFER_SIZE,
    Tpm2bIdObject: <Tpm2bIdObject as Tpm2bSimple>::MAX_BUFFER_SIZE,
    Tpm2bContextData: <Tpm2bContextData as Tpm2bSimple>::MAX_BUFFER_SIZE,
    Tpm2bCreationData: <Tpm2bCreationData as Tpm2bSimple>::MAX_BUFFER_SIZE,
}

macro_rules! st {
    ($($t:ident { $($f:ident : $ft:ty),* $(,)? })*) => {$(
        impl R for $t {
            fn schema() -> S { S::Seq(vec![$(<$ft>::schema()),*]) }
            fn put(&self, _out: &mut Vec<u8>) { $(self.$f.put(_out);)* }
        }
    )*};
}
st! {
    TpmsEmpty {}
    TpmsClockInfo { clock: u64, reset_count: u32, restart_count: u32, safe: TpmiYesNo }
    TpmsQuoteInfo { pcr_select: TpmlPcrSelection, pcr_digest: Tpm2bDigest }
    TpmsCreationInfo { object_name: Tpm2bName, creation_hash: Tpm2bDigest }
    TpmsCertifyInfo { name: Tpm2bName, qualified_name: Tpm2bName }
    TpmsCommandAuditInfo { audit_counter: u64, digest_alg: u16, audit_digest: Tpm2bDigest, command_digest: Tpm2bDigest }
    TpmsSessionAuditInfo { exclusive_session: TpmiYesNo, session_digest: Tpm2bDigest }
    TpmsTimeInfo { time: u64, clock_info: TpmsClockInfo }
    TpmsTimeAttestInfo { time: TpmsTimeInfo, firmware_version: u64 }
    TpmsNvCertifyInfo { index_name: Tpm2bName, offset: u16, nv_contents: Tpm2bMaxNvBuffer }
    TpmsDerive { label: Tpm2bLabel, context: Tpm2bLabel }
    TpmsSensitiveCreate { user_auth: Tpm2bDigest, data: Tpm2bSensitiveData }
    TpmsEccPoint { x: Tpm2bEccParameter, y: Tpm2bEccParameter }
    TpmsSchemeXor { hash_alg: TpmiAlgHash, kdf: TpmiAlgKdf }
    TpmsKeyedHashParms { scheme: TpmtKeyedHashScheme }
    TpmsSymCipherParms { sym: TpmtSymDefObject }
    TpmsSignatureRsa { hash: TpmiAlgHash, sig: Tpm2bPublicKeyRsa }
    TpmsSignatureEcc { hash: TpmiAlgHash, signature_r: Tpm2bEccParameter, signature_s: Tpm2bEccParameter }
    TpmsSchemeHash { hash_alg: TpmiAlgHash }
    TpmsSchemeEcdaa { hash_alg: TpmiAlgHash, count: u16 }
    TpmsRsaParms { symmetric: TpmtSymDefObject, scheme: TpmtRsaScheme, key_bits: TpmiRsaKeyBits, exponent: u32 }
    TpmsEccParms { symmetric: TpmtSymDefObject, scheme: TpmtEccScheme, curve_id: TpmiEccCurve, kdf: TpmtKdfScheme }
    TpmsAsymParms { symmetric: TpmtSymDefObject, scheme: TpmtAsymScheme }
    TpmsAlgProperty { alg: TpmAlgId, alg_properties: TpmaAlgorithm }
    TpmsTaggedProperty { property: TpmPt, value: u32 }
    TpmsAuthCommand { session_handle: TpmiShAuthSession, nonce: Tpm2bDigest, session_attributes: TpmaSession, hmac: Tpm2bDigest }
    TpmsAuthResponse { nonce: Tpm2bDigest, session_attributes: TpmaSession, hmac: Tpm2bData }
    TpmsIdObject { integrity_hmac: Tpm2bDigest, enc_identity: Tpm2bDigest }
    TpmsNvPublic { nv_index: TpmiRhNvIndex, name_alg: TpmiAlgHash, attributes: TpmaNv, auth_policy: Tpm2bDigest, data_size: u16 }
    TpmsContextData { integrity: Tpm2bDigest, encrypted: Tpm2bContextSensitive }
    TpmsCreationData {
        pcr_select: TpmlPcrSelection, pcr_digest: Tpm2bDigest, locality: TpmaLocality, parent_name_alg: TpmAlgId,
        parent_name: Tpm2bName, parent_qualified_name: Tpm2bName, outside_info: Tpm2bData,
    }
    GetCapabilityCmd { capability: TpmCap, property: TpmPt, property_count: u32 }
    GetCapabilityResp { more_data: TpmiYesNo, capability_data: TpmsCapabilityData }
    GetRandomCmd { bytes_requested: u16 }
    GetRandomResp { random_bytes: Tpm2bDigest }
    StartupCmd { startup_type: TpmSu }
}
impl R for TpmsPcrSelection {
    fn schema() -> S {
        S::Seq(vec![S::Uint(2), list(1, 4, S::Uint(1))])
    }
    fn put(&self, out: &mut Vec<u8>) {
        self.hash.put(out);
        self.sizeof_select.put(out);
        out.extend(&self.pcr_select[..self.sizeof_select as usize]);
    }
}

macro_rules! lists {
    ($($t:ident $f:ident : $e:ty, $cap:expr);* $(;)?) => {$(
        impl R for $t {
            fn schema() -> S { list(4, $cap, <$e>::schema()) }
            fn put(&self, out: &mut Vec<u8>) {
                (self.count() as u32).put(out);
                self.$f().iter().for_each(|e| e.put(out));
            }
        }
    )*};
}
lists! {
    TpmlPcrSelection pcr_selections: TpmsPcrSelection, 16;
    TpmlAlgProperty alg_properties: TpmsAlgProperty, 127;
    TpmlHandle handle: TpmHandle, 254;
    TpmlCc command_codes: TpmCc, 254;
    TpmlTaggedTpmProperty tpm_property: TpmsTaggedProperty, 127;
    TpmlTaggedPcrProperty pcr_property: TpmsTaggedPcrSelect, 84;
    TpmlEccCurve ecc_curves: TpmEccCurve, 508;
    TpmlTaggedPolicy policies: TpmsTaggedPolicy, 14;
    TpmlDigest digests: Tpm2bDigest, 8;
}

/// Unions: selector value, member.
pub trait U: R + tpm2_rs_base::marshal::MarshalableVariant {
    fn cases() -> Vec<(u64, S)>;
    /// The selector of the member held, and the member's own encoding.
    fn parts(&self) -> (u64, Vec<u8>);
    fn held(&self) -> u64;
    fn width() -> usize;
    fn unmarshal_variant(sel: u64, b: &mut tpm2_rs_base::marshal::UnmarshalBuf) -> tpm2_rs_base::marshal::Result<Self>;
}
macro_rules! un {
    ($($t:ident : $w:ty { $($sel:literal => $v:ident ( $($b:ident : $m:ty),+ )),* $(,)? })*) => {$(
        impl U for $t {
            fn cases() -> Vec<(u64, S)> { vec![$(($sel, S::Seq(vec![$(<$m>::schema()),+]))),*] }
            fn parts(&self) -> (u64, Vec<u8>) {
                let mut out = vec![];
                let sel = match self {
                    $($t::$v($($b),+) => { $($b.put(&mut out);)+ $sel })*
                    #[allow(unreachable_patterns)]
                    _ => u64::MAX,
                };
                (sel, out)
            }
            fn held(&self) -> u64 {
                use safe_discriminant::Discriminant;
                self.discriminant() as u64
            }
            fn width() -> usize { size_of::<$w>() }
            fn unmarshal_variant(sel: u64, b: &mut tpm2_rs_base::marshal::UnmarshalBuf) -> tpm2_rs_base::marshal::Result<Self> {
                use tpm2_rs_base::marshal::MarshalableVariant;
                Self::try_unmarshal_variant(sel as _, b)
            }
        }
        impl R for $t {
            fn schema() -> S { S::Union { pre: vec![], w: size_of::<$w>(), mid: vec![], cases: Self::cases() } }
            fn put(&self, out: &mut Vec<u8>) {
                let (sel, b) = self.parts();
                out.extend(&sel.to_be_bytes()[8 - size_of::<$w>()..]);
                out.extend(b);
            }
        }
    )*};
}
un! {
    TpmtHa: u16 {
        0x0004 => Sha1(a: [u8; 20]), 0x000b => Sha256(a: [u8; 32]), 0x000c => Sha384(a: [u8; 48]),
        0x000d => Sha512(a: [u8; 64]), 0x0012 => Sm3_256(a: [u8; 32]),
    }
    TpmuAttest: u16 {
        0x8017 => Certify(a: TpmsCertifyInfo), 0x801a => Creation(a: TpmsCreationInfo), 0x8018 => Quote(a: TpmsQuoteInfo),
        0x8015 => CommandAudit(a: TpmsCommandAuditInfo), 0x8016 => SessionAudit(a: TpmsSessionAuditInfo),
        0x8019 => Time(a: TpmsTimeAttestInfo), 0x8014 => Nv(a: TpmsNvCertifyInfo),
    }
    TpmtKeyedHashScheme: u16 {
        0x0005 => Hmac(a: TpmsSchemeHash), 0x000a => ExclusiveOr(a: TpmsSchemeXor), 0x0010 => Null(a: TpmsEmpty),
    }
    TpmtSymDefObject: u16 {
        0x0006 => Aes(a: TpmiAesKeyBits, b: TpmiAlgSymMode), 0x0013 => Sm4(a: TpmiSm4KeyBits, b: TpmiAlgSymMode),
        0x0026 => Camellia(a: TpmiCamelliaKeyBits, b: TpmiAlgSymMode), 0x000a => ExclusiveOr(a: TpmiAlgHash, b: TpmsEmpty),
        0x0010 => Null(a: TpmsEmpty, b: TpmsEmpty),
    }
    TpmtSignature: u16 {
        0x0014 => Rsassa(a: TpmsSignatureRsa), 0x0016 => Rsapss(a: TpmsSignatureRsa), 0x0018 => Ecdsa(a: TpmsSignatureEcc),
        0x001a => Ecdaa(a: TpmsSignatureEcc), 0x001b => Sm2(a: TpmsSignatureEcc), 0x001c => Ecschnorr(a: TpmsSignatureEcc),
        0x0005 => Hmac(a: TpmtHa), 0x0010 => Null(a: TpmsEmpty),
    }
    TpmtSigScheme: u16 {
        0x0014 => Rsassa(a: TpmsSchemeHash), 0x0016 => Rsapss(a: TpmsSchemeHash), 0x0018 => Ecdsa(a: TpmsSchemeHash),
        0x001a => Ecdaa(a: TpmsSchemeEcdaa), 0x001b => Sm2(a: TpmsSchemeHash), 0x001c => Ecschnorr(a: TpmsSchemeHash),
        0x0005 => Hmac(a: TpmsSchemeHash), 0x0010 => Null(a: TpmsEmpty),
    }
    TpmtRsaScheme: u16 {
        0x0016 => Rsapss(a: TpmsSchemeHash), 0x0014 => Rsassa(a: TpmsSchemeHash), 0x0018 => Ecdsa(a: TpmsSchemeHash),
        0x001a => Ecdaa(a: TpmsSchemeEcdaa), 0x001b => Sm2(a: TpmsSchemeHash), 0x001c => Ecschnorr(a: TpmsSchemeHash),
        0x0015 => Rsaes(a: TpmsEmpty), 0x0017 => Oaep(a: TpmsSchemeHash), 0x0010 => Null(a: TpmsEmpty),
    }
    TpmtEccScheme: u16 {
        0x0016 => Rsapss(a: TpmsSchemeHash), 0x0014 => Rsassa(a: TpmsSchemeHash), 0x0018 => Ecdsa(a: TpmsSchemeHash),
        0x001a => Ecdaa(a: TpmsSchemeEcdaa), 0x001b => Sm2(a: TpmsSchemeHash), 0x001c => Ecschnorr(a: TpmsSchemeHash),
        0x0019 => Ecdh(a: TpmsSchemeHash), 0x001d => Ecmqv(a: TpmsSchemeHash), 0x0010 => Null(a: TpmsEmpty),
    }
    TpmtKdfScheme: u16 {
        0x0007 => Mgf1(a: TpmsSchemeHash), 0x0020 => Kdf1Sp800_56a(a: TpmsSchemeHash), 0x0021 => Kdf2(a: TpmsSchemeHash),
        0x0022 => Kdf1Sp800_108(a: TpmsSchemeHash), 0x0010 => Null(a: TpmsEmpty),
    }
    TpmtAsymScheme: u16 {
        0x0019 => Ecdh(a: TpmsSchemeHash), 0x001d => Ecmqv(a: TpmsSchemeHash), 0x001b => Sm2(a: TpmsSchemeHash),
        0x0016 => Rsapss(a: TpmsSchemeHash), 0x0014 => Rsassa(a: TpmsSchemeHash), 0x0018 => Ecdsa(a: TpmsSchemeHash),
        0x001a => Ecdaa(a: TpmsSchemeEcdaa), 0x001c => Ecschnorr(a: TpmsSchemeHash), 0x0015 => Rsaes(a: TpmsEmpty),
        0x0017 => Oaep(a: TpmsSchemeHash), 0x0010 => Null(a: TpmsEmpty),
    }
    PublicParmsAndId: u16 {
        0x0008 => KeyedHash(a: TpmsKeyedHashParms, b: Tpm2bDigest), 0x0025 => Sym(a: TpmsSymCipherParms, b: Tpm2bDigest),
        0x0001 => Rsa(a: TpmsRsaParms, b: Tpm2bPublicKeyRsa), 0x0023 => Ecc(a: TpmsEccParms, b: TpmsEccPoint),
    }
    TpmuSensitiveComposite: u16 {
        0x0001 => Rsa(a: Tpm2bPrivateKeyRsa), 0x0023 => Ecc(a: Tpm2bEccParameter), 0x0008 => Bits(a: Tpm2bSensitiveData),
        0x0025 => Sym(a: Tpm2bSymKey), 0x0010 => Any(a: Tpm2bPrivateVendorSpecific),
    }
    TpmsCapabilityData: u32 {
        0 => Algorithms(a: TpmlAlgProperty), 1 => Handles(a: TpmlHandle), 2 => Command(a: TpmlCca),
        3 => PpCommands(a: TpmlCc), 4 => AuditCommands(a: TpmlCc), 5 => AssignedPcr(a: TpmlPcrSelection),
        6 => TpmProperties(a: TpmlTaggedTpmProperty), 7 => PcrProperties(a: TpmlTaggedPcrProperty),
        8 => EccCurves(a: TpmlEccCurve), 9 => AuthPolicies(a: TpmlTaggedPolicy),
    }
}

// Structures whose selector is placed away from the member.
impl R for TpmsAttest {
    fn schema() -> S {
        S::Union {
            pre: vec![S::Uint(4)],
            w: 2,
            mid: vec![Tpm2bName::schema(), Tpm2bData::schema(), TpmsClockInfo::schema(), S::Uint(8)],
            cases: TpmuAttest::cases(),
        }
    }
    fn put(&self, out: &mut Vec<u8>) {
        let (sel, member) = self.attested.parts();
        self.magic.put(out);
        (sel as u16).put(out);
        self.qualified_signer.put(out);
        self.extra_data.put(out);
        self.clock_info.put(out);
        self.firmware_version.put(out);
        out.extend(member);
    }
}
impl R for TpmtPublic {
    fn schema() -> S {
        S::Union { pre: vec![], w: 2, mid: vec![S::Uint(2), S::Uint(4), Tpm2bDigest::schema()], cases: PublicParmsAndId::cases() }
    }
    fn put(&self, out: &mut Vec<u8>) {
        let (sel, member) = self.parms_and_id.parts();
        (sel as u16).put(out);
        self.name_alg.put(out);
        self.object_attributes.put(out);
        self.auth_policy.put(out);
        out.extend(member);
    }
}
impl R for TpmtSensitive {
    fn schema() -> S {
        S::Union { pre: vec![], w: 2, mid: vec![Tpm2bDigest::schema(), Tpm2bDigest::schema()], cases: TpmuSensitiveComposite::cases() }
    }
    fn put(&self, out: &mut Vec<u8>) {
        let (sel, member) = self.sensitive.parts();
        (sel as u16).put(out);
        self.auth_value.put(out);
        self.seed_value.put(out);
        out.extend(member);
    }
}

/// Calls `$m!` with every type that has a codec.
#[macro_export]
macro_rules! all_types {
    ($m:ident) => {
        $m! {
            u8, u16, u32, u64, i8, i16, i32, i64, (), [u8; 0], [u8; 1], [u8; 20], [u8; 64],
            TpmaLocality, TpmaNv, TpmiAlgHash, TpmiAlgKdf, TpmiAlgPublic, TpmiAlgSymMode, TpmiAlgSymObject,
            TpmiAlgKeyedhashScheme, TpmiAlgRsaScheme, TpmiAlgSigScheme, TpmiAlgEccScheme, TpmiAlgAsymScheme, TpmiYesNo,
            TpmiStAttest, TpmaObject, TpmaAlgorithm, TpmaSession, TpmaCc, TpmiStCommandTag, TpmAlgId, TpmEccCurve, TpmCc,
            TpmSt, TpmSu, TpmCap, TpmPt, TpmPtPcr, TpmHandle, TpmHc, TpmGenerated,
            TpmiEccCurve, TpmiAesKeyBits, TpmiSm4KeyBits, TpmiCamelliaKeyBits, TpmiRsaKeyBits, TpmiRhNvIndex,
            TpmiShAuthSession, TpmlCca, TpmsTaggedPcrSelect, TpmsTaggedPolicy, PcrReadCmd, PcrReadResp,
            Tpm2bDigest, Tpm2bData, Tpm2bEvent, Tpm2bMaxBuffer, Tpm2bMaxNvBuffer, Tpm2bIv, Tpm2bName, Tpm2bSymKey,
            Tpm2bLabel, Tpm2bSensitiveData, Tpm2bPublicKeyRsa, Tpm2bPrivateKeyRsa, Tpm2bEccParameter,
            Tpm2bEncryptedSecret, Tpm2bPrivateVendorSpecific, Tpm2bContextSensitive, Tpm2bAttest, Tpm2bSensitiveCreate,
            Tpm2bPublic, Tpm2bTemplate, Tpm2bPrivate, Tpm2bIdObject, Tpm2bContextData, Tpm2bCreationData,
            TpmsEmpty, TpmsClockInfo, TpmsQuoteInfo, TpmsCreationInfo, TpmsCertifyInfo, TpmsCommandAuditInfo,
            TpmsSessionAuditInfo, TpmsTimeInfo, TpmsTimeAttestInfo, TpmsNvCertifyInfo, TpmsDerive, TpmsSensitiveCreate,
            TpmsEccPoint, TpmsSchemeXor, TpmsKeyedHashParms, TpmsSymCipherParms, TpmsSignatureRsa, TpmsSignatureEcc,
            TpmsSchemeHash, TpmsSchemeEcdaa, TpmsRsaParms, TpmsEccParms, TpmsAsymParms, TpmsAlgProperty,
            TpmsTaggedProperty, TpmsAuthCommand, TpmsAuthResponse, TpmsIdObject, TpmsNvPublic, TpmsContextData,
            TpmsCreationData, GetCapabilityCmd, GetCapabilityResp, GetRandomCmd, GetRandomResp, StartupCmd,
            TpmsPcrSelection, TpmlPcrSelection, TpmlAlgProperty, TpmlHandle, TpmlCc, TpmlTaggedTpmProperty,
            TpmlTaggedPcrProperty, TpmlEccCurve, TpmlTaggedPolicy, TpmlDigest, TpmtHa, TpmuAttest, TpmtKeyedHashScheme,
            TpmtSymDefObject, TpmtSignature, TpmtSigScheme, TpmtRsaScheme, TpmtEccScheme, TpmtKdfScheme, TpmtAsymScheme,
            PublicParmsAndId, TpmuSensitiveComposite, TpmsCapabilityData, TpmsAttest, TpmtPublic, TpmtSensitive
        }
    };
}
