// One entry per public name: (value in the code, value in the specification, name).
numbers! {
    "TpmAlgId" => [
        (TpmAlgId::RSA.0 as u32, 0x1, "RSA"),
        (TpmAlgId::TDES.0 as u32, 0x3, "TDES"),
        (TpmAlgId::SHA1.0 as u32, 0x4, "SHA1"),
        (TpmAlgId::HMAC.0 as u32, 0x5, "HMAC"),
        (TpmAlgId::AES.0 as u32, 0x6, "AES"),
        (TpmAlgId::MGF1.0 as u32, 0x7, "MGF1"),
        (TpmAlgId::KeyedHash.0 as u32, 0x8, "KeyedHash"),
        (TpmAlgId::XOR.0 as u32, 0xa, "XOR"),
        (TpmAlgId::SHA256.0 as u32, 0xb, "SHA256"),
        (TpmAlgId::SHA384.0 as u32, 0xc, "SHA384"),
        (TpmAlgId::SHA512.0 as u32, 0xd, "SHA512"),
        (TpmAlgId::Null.0 as u32, 0x10, "Null"),
        (TpmAlgId::SM3256.0 as u32, 0x12, "SM3256"),
        (TpmAlgId::SM4.0 as u32, 0x13, "SM4"),
        (TpmAlgId::RSASSA.0 as u32, 0x14, "RSASSA"),
        (TpmAlgId::RSAES.0 as u32, 0x15, "RSAES"),
        (TpmAlgId::RSAPSS.0 as u32, 0x16, "RSAPSS"),
        (TpmAlgId::OAEP.0 as u32, 0x17, "OAEP"),
        (TpmAlgId::ECDSA.0 as u32, 0x18, "ECDSA"),
        (TpmAlgId::ECDH.0 as u32, 0x19, "ECDH"),
        (TpmAlgId::ECDAA.0 as u32, 0x1a, "ECDAA"),
        (TpmAlgId::SM2.0 as u32, 0x1b, "SM2"),
        (TpmAlgId::ECSchnorr.0 as u32, 0x1c, "ECSchnorr"),
        (TpmAlgId::ECMQV.0 as u32, 0x1d, "ECMQV"),
        (TpmAlgId::KDF1SP80056A.0 as u32, 0x20, "KDF1SP80056A"),
        (TpmAlgId::KDF2.0 as u32, 0x21, "KDF2"),
        (TpmAlgId::KDF1SP800108.0 as u32, 0x22, "KDF1SP800108"),
        (TpmAlgId::ECC.0 as u32, 0x23, "ECC"),
        (TpmAlgId::SymCipher.0 as u32, 0x25, "SymCipher"),
        (TpmAlgId::Camellia.0 as u32, 0x26, "Camellia"),
        (TpmAlgId::SHA3256.0 as u32, 0x27, "SHA3256"),
        (TpmAlgId::SHA3384.0 as u32, 0x28, "SHA3384"),
        (TpmAlgId::SHA3512.0 as u32, 0x29, "SHA3512"),
        (TpmAlgId::CMAC.0 as u32, 0x3f, "CMAC"),
        (TpmAlgId::CTR.0 as u32, 0x40, "CTR"),
        (TpmAlgId::OFB.0 as u32, 0x41, "OFB"),
        (TpmAlgId::CBC.0 as u32, 0x42, "CBC"),
        (TpmAlgId::CFB.0 as u32, 0x43, "CFB"),
        (TpmAlgId::ECB.0 as u32, 0x44, "ECB"),
    ],
    "TpmEccCurve" => [
        (TpmEccCurve::None.0 as u32, 0x0, "None"),
        (TpmEccCurve::NistP192.0 as u32, 0x1, "NistP192"),
        (TpmEccCurve::NistP224.0 as u32, 0x2, "NistP224"),
        (TpmEccCurve::NistP256.0 as u32, 0x3, "NistP256"),
        (TpmEccCurve::NistP384.0 as u32, 0x4, "NistP384"),
        (TpmEccCurve::NistP521.0 as u32, 0x5, "NistP521"),
        (TpmEccCurve::BNP256.0 as u32, 0x10, "BNP256"),
        (TpmEccCurve::BNP638.0 as u32, 0x11, "BNP638"),
        (TpmEccCurve::SM2P256.0 as u32, 0x20, "SM2P256"),
    ],
    "TpmCc" => [
        (TpmCc::NVUndefineSpaceSpecial.0 as u32, 0x11f, "NVUndefineSpaceSpecial"),
        (TpmCc::EvictControl.0 as u32, 0x120, "EvictControl"),
        (TpmCc::HierarchyControl.0 as u32, 0x121, "HierarchyControl"),
        (TpmCc::NVUndefineSpace.0 as u32, 0x122, "NVUndefineSpace"),
        (TpmCc::ChangeEPS.0 as u32, 0x124, "ChangeEPS"),
        (TpmCc::ChangePPS.0 as u32, 0x125, "ChangePPS"),
        (TpmCc::Clear.0 as u32, 0x126, "Clear"),
        (TpmCc::ClearControl.0 as u32, 0x127, "ClearControl"),
        (TpmCc::ClockSet.0 as u32, 0x128, "ClockSet"),
        (TpmCc::HierarchyChanegAuth.0 as u32, 0x129, "HierarchyChanegAuth"),
        (TpmCc::NVDefineSpace.0 as u32, 0x12a, "NVDefineSpace"),
        (TpmCc::PCRAllocate.0 as u32, 0x12b, "PCRAllocate"),
        (TpmCc::PCRSetAuthPolicy.0 as u32, 0x12c, "PCRSetAuthPolicy"),
        (TpmCc::PPCommands.0 as u32, 0x12d, "PPCommands"),
        (TpmCc::SetPrimaryPolicy.0 as u32, 0x12e, "SetPrimaryPolicy"),
        (TpmCc::FieldUpgradeStart.0 as u32, 0x12f, "FieldUpgradeStart"),
        (TpmCc::ClockRateAdjust.0 as u32, 0x130, "ClockRateAdjust"),
        (TpmCc::CreatePrimary.0 as u32, 0x131, "CreatePrimary"),
        (TpmCc::NVGlobalWriteLock.0 as u32, 0x132, "NVGlobalWriteLock"),
        (TpmCc::GetCommandAuditDigest.0 as u32, 0x133, "GetCommandAuditDigest"),
        (TpmCc::NVIncrement.0 as u32, 0x134, "NVIncrement"),
        (TpmCc::NVSetBits.0 as u32, 0x135, "NVSetBits"),
        (TpmCc::NVExtend.0 as u32, 0x136, "NVExtend"),
        (TpmCc::NVWrite.0 as u32, 0x137, "NVWrite"),
        (TpmCc::NVWriteLock.0 as u32, 0x138, "NVWriteLock"),
        (TpmCc::DictionaryAttackLockReset.0 as u32, 0x139, "DictionaryAttackLockReset"),
        (TpmCc::DictionaryAttackParameters.0 as u32, 0x13a, "DictionaryAttackParameters"),
        (TpmCc::NVChangeAuth.0 as u32, 0x13b, "NVChangeAuth"),
        (TpmCc::PCREvent.0 as u32, 0x13c, "PCREvent"),
        (TpmCc::PCRReset.0 as u32, 0x13d, "PCRReset"),
        (TpmCc::SequenceComplete.0 as u32, 0x13e, "SequenceComplete"),
        (TpmCc::SetAlgorithmSet.0 as u32, 0x13f, "SetAlgorithmSet"),
        (TpmCc::SetCommandCodeAuditStatus.0 as u32, 0x140, "SetCommandCodeAuditStatus"),
        (TpmCc::FieldUpgradeData.0 as u32, 0x141, "FieldUpgradeData"),
        (TpmCc::IncrementalSelfTest.0 as u32, 0x142, "IncrementalSelfTest"),
        (TpmCc::SelfTest.0 as u32, 0x143, "SelfTest"),
        (TpmCc::Startup.0 as u32, 0x144, "Startup"),
        (TpmCc::Shutdown.0 as u32, 0x145, "Shutdown"),
        (TpmCc::StirRandom.0 as u32, 0x146, "StirRandom"),
        (TpmCc::ActivateCredential.0 as u32, 0x147, "ActivateCredential"),
        (TpmCc::Certify.0 as u32, 0x148, "Certify"),
        (TpmCc::PolicyNV.0 as u32, 0x149, "PolicyNV"),
        (TpmCc::CertifyCreation.0 as u32, 0x14a, "CertifyCreation"),
        (TpmCc::Duplicate.0 as u32, 0x14b, "Duplicate"),
        (TpmCc::GetTime.0 as u32, 0x14c, "GetTime"),
        (TpmCc::GetSessionAuditDigest.0 as u32, 0x14d, "GetSessionAuditDigest"),
        (TpmCc::NVRead.0 as u32, 0x14e, "NVRead"),
        (TpmCc::NVReadLock.0 as u32, 0x14f, "NVReadLock"),
        (TpmCc::ObjectChangeAuth.0 as u32, 0x150, "ObjectChangeAuth"),
        (TpmCc::PolicySecret.0 as u32, 0x151, "PolicySecret"),
        (TpmCc::Rewrap.0 as u32, 0x152, "Rewrap"),
        (TpmCc::Create.0 as u32, 0x153, "Create"),
        (TpmCc::ECDHZGen.0 as u32, 0x154, "ECDHZGen"),
        (TpmCc::MAC.0 as u32, 0x155, "MAC"),
        (TpmCc::Import.0 as u32, 0x156, "Import"),
        (TpmCc::Load.0 as u32, 0x157, "Load"),
        (TpmCc::Quote.0 as u32, 0x158, "Quote"),
        (TpmCc::RSADecrypt.0 as u32, 0x159, "RSADecrypt"),
        (TpmCc::MACStart.0 as u32, 0x15b, "MACStart"),
        (TpmCc::SequenceUpdate.0 as u32, 0x15c, "SequenceUpdate"),
        (TpmCc::Sign.0 as u32, 0x15d, "Sign"),
        (TpmCc::Unseal.0 as u32, 0x15e, "Unseal"),
        (TpmCc::PolicySigned.0 as u32, 0x160, "PolicySigned"),
        (TpmCc::ContextLoad.0 as u32, 0x161, "ContextLoad"),
        (TpmCc::ContextSave.0 as u32, 0x162, "ContextSave"),
        (TpmCc::ECDHKeyGen.0 as u32, 0x163, "ECDHKeyGen"),
        (TpmCc::EncryptDecrypt.0 as u32, 0x164, "EncryptDecrypt"),
        (TpmCc::FlushContext.0 as u32, 0x165, "FlushContext"),
        (TpmCc::LoadExternal.0 as u32, 0x167, "LoadExternal"),
        (TpmCc::MakeCredential.0 as u32, 0x168, "MakeCredential"),
        (TpmCc::NVReadPublic.0 as u32, 0x169, "NVReadPublic"),
        (TpmCc::PolicyAuthorize.0 as u32, 0x16a, "PolicyAuthorize"),
        (TpmCc::PolicyAuthValue.0 as u32, 0x16b, "PolicyAuthValue"),
        (TpmCc::PolicyCommandCode.0 as u32, 0x16c, "PolicyCommandCode"),
        (TpmCc::PolicyCounterTimer.0 as u32, 0x16d, "PolicyCounterTimer"),
        (TpmCc::PolicyCpHash.0 as u32, 0x16e, "PolicyCpHash"),
        (TpmCc::PolicyLocality.0 as u32, 0x16f, "PolicyLocality"),
        (TpmCc::PolicyNameHash.0 as u32, 0x170, "PolicyNameHash"),
        (TpmCc::PolicyOR.0 as u32, 0x171, "PolicyOR"),
        (TpmCc::PolicyTicket.0 as u32, 0x172, "PolicyTicket"),
        (TpmCc::ReadPublic.0 as u32, 0x173, "ReadPublic"),
        (TpmCc::RSAEncrypt.0 as u32, 0x174, "RSAEncrypt"),
        (TpmCc::StartAuthSession.0 as u32, 0x176, "StartAuthSession"),
        (TpmCc::VerifySignature.0 as u32, 0x177, "VerifySignature"),
        (TpmCc::ECCParameters.0 as u32, 0x178, "ECCParameters"),
        (TpmCc::FirmwareRead.0 as u32, 0x179, "FirmwareRead"),
        (TpmCc::GetCapability.0 as u32, 0x17a, "GetCapability"),
        (TpmCc::GetRandom.0 as u32, 0x17b, "GetRandom"),
        (TpmCc::GetTestResult.0 as u32, 0x17c, "GetTestResult"),
        (TpmCc::Hash.0 as u32, 0x17d, "Hash"),
        (TpmCc::PCRRead.0 as u32, 0x17e, "PCRRead"),
        (TpmCc::PolicyPCR.0 as u32, 0x17f, "PolicyPCR"),
        (TpmCc::PolicyRestart.0 as u32, 0x180, "PolicyRestart"),
        (TpmCc::ReadClock.0 as u32, 0x181, "ReadClock"),
        (TpmCc::PCRExtend.0 as u32, 0x182, "PCRExtend"),
        (TpmCc::PCRSetAuthValue.0 as u32, 0x183, "PCRSetAuthValue"),
        (TpmCc::NVCertify.0 as u32, 0x184, "NVCertify"),
        (TpmCc::EventSequenceComplete.0 as u32, 0x185, "EventSequenceComplete"),
        (TpmCc::HashSequenceStart.0 as u32, 0x186, "HashSequenceStart"),
        (TpmCc::PolicyPhysicalPresence.0 as u32, 0x187, "PolicyPhysicalPresence"),
        (TpmCc::PolicyDuplicationSelect.0 as u32, 0x188, "PolicyDuplicationSelect"),
        (TpmCc::PolicyGetDigest.0 as u32, 0x189, "PolicyGetDigest"),
        (TpmCc::TestParams.0 as u32, 0x18a, "TestParams"),
        (TpmCc::Commit.0 as u32, 0x18b, "Commit"),
        (TpmCc::PolicyPassword.0 as u32, 0x18c, "PolicyPassword"),
        (TpmCc::ZGen2Phase.0 as u32, 0x18d, "ZGen2Phase"),
        (TpmCc::ECEphemeral.0 as u32, 0x18e, "ECEphemeral"),
        (TpmCc::PolicyNvWritten.0 as u32, 0x18f, "PolicyNvWritten"),
        (TpmCc::PolicyTemplate.0 as u32, 0x190, "PolicyTemplate"),
        (TpmCc::CreateLoaded.0 as u32, 0x191, "CreateLoaded"),
        (TpmCc::PolicyAuthorizeNV.0 as u32, 0x192, "PolicyAuthorizeNV"),
        (TpmCc::EncryptDecrypt2.0 as u32, 0x193, "EncryptDecrypt2"),
        (TpmCc::ACGetCapability.0 as u32, 0x194, "ACGetCapability"),
        (TpmCc::ACSend.0 as u32, 0x195, "ACSend"),
        (TpmCc::PolicyACSendSelect.0 as u32, 0x196, "PolicyACSendSelect"),
        (TpmCc::CertifyX509.0 as u32, 0x197, "CertifyX509"),
        (TpmCc::ACTSetTimeout.0 as u32, 0x198, "ACTSetTimeout"),
    ],
    "TpmRc" => [
        (TpmRc::Success.0 as u32, 0x0, "Success"),
        (TpmRc::Initialize.0 as u32, 0x100, "Initialize"),
        (TpmRc::Failure.0 as u32, 0x101, "Failure"),
        (TpmRc::Sequence.0 as u32, 0x103, "Sequence"),
        (TpmRc::Private.0 as u32, 0x10b, "Private"),
        (TpmRc::Hmac.0 as u32, 0x119, "Hmac"),
        (TpmRc::Disabled.0 as u32, 0x120, "Disabled"),
        (TpmRc::Exclusive.0 as u32, 0x121, "Exclusive"),
        (TpmRc::AuthType.0 as u32, 0x124, "AuthType"),
        (TpmRc::AuthMissing.0 as u32, 0x125, "AuthMissing"),
        (TpmRc::Policy.0 as u32, 0x126, "Policy"),
        (TpmRc::Pcr.0 as u32, 0x127, "Pcr"),
        (TpmRc::PCRChanged.0 as u32, 0x128, "PCRChanged"),
        (TpmRc::Upgrade.0 as u32, 0x12d, "Upgrade"),
        (TpmRc::TooManyContexts.0 as u32, 0x12e, "TooManyContexts"),
        (TpmRc::AuthUnavailable.0 as u32, 0x12f, "AuthUnavailable"),
        (TpmRc::Reboot.0 as u32, 0x130, "Reboot"),
        (TpmRc::Unbalanced.0 as u32, 0x131, "Unbalanced"),
        (TpmRc::CommandSize.0 as u32, 0x142, "CommandSize"),
        (TpmRc::CommandCode.0 as u32, 0x143, "CommandCode"),
        (TpmRc::AuthSize.0 as u32, 0x144, "AuthSize"),
        (TpmRc::AuthContext.0 as u32, 0x145, "AuthContext"),
        (TpmRc::NVRange.0 as u32, 0x146, "NVRange"),
        (TpmRc::NVSize.0 as u32, 0x147, "NVSize"),
        (TpmRc::NVLocked.0 as u32, 0x148, "NVLocked"),
        (TpmRc::NVAuthorization.0 as u32, 0x149, "NVAuthorization"),
        (TpmRc::NVUninitialized.0 as u32, 0x14a, "NVUninitialized"),
        (TpmRc::NVSpace.0 as u32, 0x14b, "NVSpace"),
        (TpmRc::NVDefined.0 as u32, 0x14c, "NVDefined"),
        (TpmRc::BadContext.0 as u32, 0x150, "BadContext"),
        (TpmRc::CPHash.0 as u32, 0x151, "CPHash"),
        (TpmRc::Parent.0 as u32, 0x152, "Parent"),
        (TpmRc::NeedsTest.0 as u32, 0x153, "NeedsTest"),
        (TpmRc::NoResult.0 as u32, 0x154, "NoResult"),
        (TpmRc::Sensitive.0 as u32, 0x155, "Sensitive"),
        (TpmRc::CAsymmetric.0 as u32, 0x81, "CAsymmetric"),
        (TpmRc::Attributes.0 as u32, 0x82, "Attributes"),
        (TpmRc::Hash.0 as u32, 0x83, "Hash"),
        (TpmRc::Value.0 as u32, 0x84, "Value"),
        (TpmRc::Hierarchy.0 as u32, 0x85, "Hierarchy"),
        (TpmRc::KeySize.0 as u32, 0x87, "KeySize"),
        (TpmRc::Mgf.0 as u32, 0x88, "Mgf"),
        (TpmRc::Mode.0 as u32, 0x89, "Mode"),
        (TpmRc::Type.0 as u32, 0x8a, "Type"),
        (TpmRc::Handle.0 as u32, 0x8b, "Handle"),
        (TpmRc::Kdf.0 as u32, 0x8c, "Kdf"),
        (TpmRc::Range.0 as u32, 0x8d, "Range"),
        (TpmRc::AuthFail.0 as u32, 0x8e, "AuthFail"),
        (TpmRc::Nonce.0 as u32, 0x8f, "Nonce"),
        (TpmRc::PP.0 as u32, 0x90, "PP"),
        (TpmRc::Scheme.0 as u32, 0x92, "Scheme"),
        (TpmRc::Size.0 as u32, 0x95, "Size"),
        (TpmRc::Symmetric.0 as u32, 0x96, "Symmetric"),
        (TpmRc::Tag.0 as u32, 0x97, "Tag"),
        (TpmRc::Selector.0 as u32, 0x98, "Selector"),
        (TpmRc::Insufficient.0 as u32, 0x9a, "Insufficient"),
        (TpmRc::Signature.0 as u32, 0x9b, "Signature"),
        (TpmRc::Key.0 as u32, 0x9c, "Key"),
        (TpmRc::PolicyFail.0 as u32, 0x9d, "PolicyFail"),
        (TpmRc::Integrity.0 as u32, 0x9f, "Integrity"),
        (TpmRc::Ticket.0 as u32, 0xa0, "Ticket"),
        (TpmRc::ReservedBits.0 as u32, 0xa1, "ReservedBits"),
        (TpmRc::BadAuth.0 as u32, 0xa2, "BadAuth"),
        (TpmRc::Expired.0 as u32, 0xa3, "Expired"),
        (TpmRc::PolicyCC.0 as u32, 0xa4, "PolicyCC"),
        (TpmRc::Binding.0 as u32, 0xa5, "Binding"),
        (TpmRc::Curve.0 as u32, 0xa6, "Curve"),
        (TpmRc::ECCPoint.0 as u32, 0xa7, "ECCPoint"),
        (TpmRc::ContextGap.0 as u32, 0x901, "ContextGap"),
        (TpmRc::ObjectMemory.0 as u32, 0x902, "ObjectMemory"),
        (TpmRc::SessionMemory.0 as u32, 0x903, "SessionMemory"),
        (TpmRc::Memory.0 as u32, 0x904, "Memory"),
        (TpmRc::SessionHandles.0 as u32, 0x905, "SessionHandles"),
        (TpmRc::ObjectHandles.0 as u32, 0x906, "ObjectHandles"),
        (TpmRc::Locality.0 as u32, 0x907, "Locality"),
        (TpmRc::Yielded.0 as u32, 0x908, "Yielded"),
        (TpmRc::Canceled.0 as u32, 0x909, "Canceled"),
        (TpmRc::Testing.0 as u32, 0x90a, "Testing"),
        (TpmRc::ReferenceH0.0 as u32, 0x910, "ReferenceH0"),
        (TpmRc::ReferenceH1.0 as u32, 0x911, "ReferenceH1"),
        (TpmRc::ReferenceH2.0 as u32, 0x912, "ReferenceH2"),
        (TpmRc::ReferenceH3.0 as u32, 0x913, "ReferenceH3"),
        (TpmRc::ReferenceH4.0 as u32, 0x914, "ReferenceH4"),
        (TpmRc::ReferenceH5.0 as u32, 0x915, "ReferenceH5"),
        (TpmRc::ReferenceH6.0 as u32, 0x916, "ReferenceH6"),
        (TpmRc::ReferenceS0.0 as u32, 0x918, "ReferenceS0"),
        (TpmRc::ReferenceS1.0 as u32, 0x919, "ReferenceS1"),
        (TpmRc::ReferenceS2.0 as u32, 0x91a, "ReferenceS2"),
        (TpmRc::ReferenceS3.0 as u32, 0x91b, "ReferenceS3"),
        (TpmRc::ReferenceS4.0 as u32, 0x91c, "ReferenceS4"),
        (TpmRc::ReferenceS5.0 as u32, 0x91d, "ReferenceS5"),
        (TpmRc::ReferenceS6.0 as u32, 0x91e, "ReferenceS6"),
        (TpmRc::NVRate.0 as u32, 0x920, "NVRate"),
        (TpmRc::Lockout.0 as u32, 0x921, "Lockout"),
        (TpmRc::Retry.0 as u32, 0x922, "Retry"),
        (TpmRc::NVUnavailable.0 as u32, 0x923, "NVUnavailable"),
    ],
    "TpmEo" => [
        (TpmEo::Eq.0 as u32, 0x0, "Eq"),
        (TpmEo::Neq.0 as u32, 0x1, "Neq"),
        (TpmEo::SignedGT.0 as u32, 0x2, "SignedGT"),
        (TpmEo::UnsignedGT.0 as u32, 0x3, "UnsignedGT"),
        (TpmEo::SignedLT.0 as u32, 0x4, "SignedLT"),
        (TpmEo::UnsignedLT.0 as u32, 0x5, "UnsignedLT"),
        (TpmEo::SignedGE.0 as u32, 0x6, "SignedGE"),
        (TpmEo::UnsignedGE.0 as u32, 0x7, "UnsignedGE"),
        (TpmEo::SignedLE.0 as u32, 0x8, "SignedLE"),
        (TpmEo::UnsignedLE.0 as u32, 0x9, "UnsignedLE"),
        (TpmEo::BitSet.0 as u32, 0xa, "BitSet"),
        (TpmEo::BitClear.0 as u32, 0xb, "BitClear"),
    ],
    "TpmSt" => [
        (TpmSt::RspCommand.0 as u32, 0xc4, "RspCommand"),
        (TpmSt::Null.0 as u32, 0x8000, "Null"),
        (TpmSt::NoSessions.0 as u32, 0x8001, "NoSessions"),
        (TpmSt::Sessions.0 as u32, 0x8002, "Sessions"),
        (TpmSt::AttestNV.0 as u32, 0x8014, "AttestNV"),
        (TpmSt::AttestCommandAudit.0 as u32, 0x8015, "AttestCommandAudit"),
        (TpmSt::AttestSessionAudit.0 as u32, 0x8016, "AttestSessionAudit"),
        (TpmSt::AttestCertify.0 as u32, 0x8017, "AttestCertify"),
        (TpmSt::AttestQuote.0 as u32, 0x8018, "AttestQuote"),
        (TpmSt::AttestTime.0 as u32, 0x8019, "AttestTime"),
        (TpmSt::AttestCreation.0 as u32, 0x801a, "AttestCreation"),
        (TpmSt::AttestNVDigest.0 as u32, 0x801c, "AttestNVDigest"),
        (TpmSt::Creation.0 as u32, 0x8021, "Creation"),
        (TpmSt::Verified.0 as u32, 0x8022, "Verified"),
        (TpmSt::AuthSecret.0 as u32, 0x8023, "AuthSecret"),
        (TpmSt::HashCheck.0 as u32, 0x8024, "HashCheck"),
        (TpmSt::AuthSigned.0 as u32, 0x8025, "AuthSigned"),
        (TpmSt::FuManifest.0 as u32, 0x8029, "FuManifest"),
    ],
    "TpmSu" => [
        (TpmSu::Clear.0 as u32, 0x0, "Clear"),
        (TpmSu::State.0 as u32, 0x1, "State"),
    ],
    "TpmSe" => [
        (TpmSe::HMAC.0 as u32, 0x0, "HMAC"),
        (TpmSe::Policy.0 as u32, 0x1, "Policy"),
        (TpmSe::Trial.0 as u32, 0x3, "Trial"),
    ],
    "TpmCap" => [
        (TpmCap::Algs.0 as u32, 0x0, "Algs"),
        (TpmCap::Handles.0 as u32, 0x1, "Handles"),
        (TpmCap::Commands.0 as u32, 0x2, "Commands"),
        (TpmCap::PPCommands.0 as u32, 0x3, "PPCommands"),
        (TpmCap::AuditCommands.0 as u32, 0x4, "AuditCommands"),
        (TpmCap::PCRs.0 as u32, 0x5, "PCRs"),
        (TpmCap::TPMProperties.0 as u32, 0x6, "TPMProperties"),
        (TpmCap::PCRProperties.0 as u32, 0x7, "PCRProperties"),
        (TpmCap::ECCCurves.0 as u32, 0x8, "ECCCurves"),
        (TpmCap::AuthPolicies.0 as u32, 0x9, "AuthPolicies"),
        (TpmCap::ACT.0 as u32, 0xa, "ACT"),
    ],
    "TpmPt" => [
        (TpmPt::FamilyIndicator.0 as u32, 0x100, "FamilyIndicator"),
        (TpmPt::Level.0 as u32, 0x101, "Level"),
        (TpmPt::Revision.0 as u32, 0x102, "Revision"),
        (TpmPt::DayofYear.0 as u32, 0x103, "DayofYear"),
        (TpmPt::Year.0 as u32, 0x104, "Year"),
        (TpmPt::Manufacturer.0 as u32, 0x105, "Manufacturer"),
        (TpmPt::VendorString1.0 as u32, 0x106, "VendorString1"),
        (TpmPt::VendorString2.0 as u32, 0x107, "VendorString2"),
        (TpmPt::VendorString3.0 as u32, 0x108, "VendorString3"),
        (TpmPt::VendorString4.0 as u32, 0x109, "VendorString4"),
        (TpmPt::VendorTPMType.0 as u32, 0x10a, "VendorTPMType"),
        (TpmPt::FirmwareVersion1.0 as u32, 0x10b, "FirmwareVersion1"),
        (TpmPt::FirmwareVersion2.0 as u32, 0x10c, "FirmwareVersion2"),
        (TpmPt::InputBuffer.0 as u32, 0x10d, "InputBuffer"),
        (TpmPt::HRTransientMin.0 as u32, 0x10e, "HRTransientMin"),
        (TpmPt::HRPersistentMin.0 as u32, 0x10f, "HRPersistentMin"),
        (TpmPt::HRLoadedMin.0 as u32, 0x110, "HRLoadedMin"),
        (TpmPt::ActiveSessionsMax.0 as u32, 0x111, "ActiveSessionsMax"),
        (TpmPt::PCRCount.0 as u32, 0x112, "PCRCount"),
        (TpmPt::PCRSelectMin.0 as u32, 0x113, "PCRSelectMin"),
        (TpmPt::ContextGapMax.0 as u32, 0x114, "ContextGapMax"),
        (TpmPt::NVCountersMax.0 as u32, 0x116, "NVCountersMax"),
        (TpmPt::NVIndexMax.0 as u32, 0x117, "NVIndexMax"),
        (TpmPt::Memory.0 as u32, 0x118, "Memory"),
        (TpmPt::ClockUpdate.0 as u32, 0x119, "ClockUpdate"),
        (TpmPt::ContextHash.0 as u32, 0x11a, "ContextHash"),
        (TpmPt::ContextSym.0 as u32, 0x11b, "ContextSym"),
        (TpmPt::ContextSymSize.0 as u32, 0x11c, "ContextSymSize"),
        (TpmPt::OrderlyCount.0 as u32, 0x11d, "OrderlyCount"),
        (TpmPt::MaxCommandSize.0 as u32, 0x11e, "MaxCommandSize"),
        (TpmPt::MaxResponseSize.0 as u32, 0x11f, "MaxResponseSize"),
        (TpmPt::MaxDigest.0 as u32, 0x120, "MaxDigest"),
        (TpmPt::MaxObjectContext.0 as u32, 0x121, "MaxObjectContext"),
        (TpmPt::MaxSessionContext.0 as u32, 0x122, "MaxSessionContext"),
        (TpmPt::PSFamilyIndicator.0 as u32, 0x123, "PSFamilyIndicator"),
        (TpmPt::PSLevel.0 as u32, 0x124, "PSLevel"),
        (TpmPt::PSRevision.0 as u32, 0x125, "PSRevision"),
        (TpmPt::PSDayOfYear.0 as u32, 0x126, "PSDayOfYear"),
        (TpmPt::PSYear.0 as u32, 0x127, "PSYear"),
        (TpmPt::SplitMax.0 as u32, 0x128, "SplitMax"),
        (TpmPt::TotalCommands.0 as u32, 0x129, "TotalCommands"),
        (TpmPt::LibraryCommands.0 as u32, 0x12a, "LibraryCommands"),
        (TpmPt::VendorCommands.0 as u32, 0x12b, "VendorCommands"),
        (TpmPt::NVBufferMax.0 as u32, 0x12c, "NVBufferMax"),
        (TpmPt::Modes.0 as u32, 0x12d, "Modes"),
        (TpmPt::MaxCapBuffer.0 as u32, 0x12e, "MaxCapBuffer"),
        (TpmPt::Permanent.0 as u32, 0x200, "Permanent"),
        (TpmPt::StartupClear.0 as u32, 0x201, "StartupClear"),
        (TpmPt::HRNVIndex.0 as u32, 0x202, "HRNVIndex"),
        (TpmPt::HRLoaded.0 as u32, 0x203, "HRLoaded"),
        (TpmPt::HRLoadedAvail.0 as u32, 0x204, "HRLoadedAvail"),
        (TpmPt::HRActive.0 as u32, 0x205, "HRActive"),
        (TpmPt::HRActiveAvail.0 as u32, 0x206, "HRActiveAvail"),
        (TpmPt::HRTransientAvail.0 as u32, 0x207, "HRTransientAvail"),
        (TpmPt::HRPersistent.0 as u32, 0x208, "HRPersistent"),
        (TpmPt::HRPersistentAvail.0 as u32, 0x209, "HRPersistentAvail"),
        (TpmPt::NVCounters.0 as u32, 0x20a, "NVCounters"),
        (TpmPt::NVCountersAvail.0 as u32, 0x20b, "NVCountersAvail"),
        (TpmPt::AlgorithmSet.0 as u32, 0x20c, "AlgorithmSet"),
        (TpmPt::LoadedCurves.0 as u32, 0x20d, "LoadedCurves"),
        (TpmPt::LockoutCounter.0 as u32, 0x20e, "LockoutCounter"),
        (TpmPt::MaxAuthFail.0 as u32, 0x20f, "MaxAuthFail"),
        (TpmPt::LockoutInterval.0 as u32, 0x210, "LockoutInterval"),
        (TpmPt::LockoutRecovery.0 as u32, 0x211, "LockoutRecovery"),
        (TpmPt::NVWriteRecovery.0 as u32, 0x212, "NVWriteRecovery"),
        (TpmPt::AuditCounter0.0 as u32, 0x213, "AuditCounter0"),
        (TpmPt::AuditCounter1.0 as u32, 0x214, "AuditCounter1"),
    ],
    "TpmPtPcr" => [
        (TpmPtPcr::Save.0 as u32, 0x0, "Save"),
        (TpmPtPcr::ExtendL0.0 as u32, 0x1, "ExtendL0"),
        (TpmPtPcr::ResetL0.0 as u32, 0x2, "ResetL0"),
        (TpmPtPcr::ExtendL1.0 as u32, 0x3, "ExtendL1"),
        (TpmPtPcr::ResetL1.0 as u32, 0x4, "ResetL1"),
        (TpmPtPcr::ExtendL2.0 as u32, 0x5, "ExtendL2"),
        (TpmPtPcr::ResetL2.0 as u32, 0x6, "ResetL2"),
        (TpmPtPcr::ExtendL3.0 as u32, 0x7, "ExtendL3"),
        (TpmPtPcr::ResetL3.0 as u32, 0x8, "ResetL3"),
        (TpmPtPcr::ExtendL4.0 as u32, 0x9, "ExtendL4"),
        (TpmPtPcr::ResetL4.0 as u32, 0xa, "ResetL4"),
        (TpmPtPcr::NoIncrement.0 as u32, 0x11, "NoIncrement"),
        (TpmPtPcr::DRTMRest.0 as u32, 0x12, "DRTMRest"),
        (TpmPtPcr::Policy.0 as u32, 0x13, "Policy"),
        (TpmPtPcr::Auth.0 as u32, 0x14, "Auth"),
    ],
    "TpmHt" => [
        (TpmHt::PCR.0 as u32, 0x0, "PCR"),
        (TpmHt::NVIndex.0 as u32, 0x1, "NVIndex"),
        (TpmHt::HMACSession.0 as u32, 0x2, "HMACSession"),
        (TpmHt::PolicySession.0 as u32, 0x3, "PolicySession"),
        (TpmHt::Permanent.0 as u32, 0x40, "Permanent"),
        (TpmHt::Transient.0 as u32, 0x80, "Transient"),
        (TpmHt::Persistent.0 as u32, 0x81, "Persistent"),
        (TpmHt::AC.0 as u32, 0x90, "AC"),
    ],
    "TpmHandle" => [
        (TpmHandle::RHOwner.0 as u32, 0x40000001, "RHOwner"),
        (TpmHandle::RHNull.0 as u32, 0x40000007, "RHNull"),
        (TpmHandle::RSPW.0 as u32, 0x40000009, "RSPW"),
        (TpmHandle::RHLockout.0 as u32, 0x4000000a, "RHLockout"),
        (TpmHandle::RHEndorsement.0 as u32, 0x4000000b, "RHEndorsement"),
        (TpmHandle::RHPlatform.0 as u32, 0x4000000c, "RHPlatform"),
        (TpmHandle::RHPlatformNV.0 as u32, 0x4000000d, "RHPlatformNV"),
    ],
    "TpmNt" => [
        (TpmNt::Ordinary.0 as u32, 0x0, "Ordinary"),
        (TpmNt::Counter.0 as u32, 0x1, "Counter"),
        (TpmNt::Bits.0 as u32, 0x2, "Bits"),
        (TpmNt::Extend.0 as u32, 0x4, "Extend"),
        (TpmNt::PinFail.0 as u32, 0x8, "PinFail"),
        (TpmNt::PinPass.0 as u32, 0x9, "PinPass"),
    ],
    "TpmGenerated" => [
        (TpmGenerated::VALUE.0 as u32, 0xff544347, "VALUE"),
    ],
    "TpmiAlgHash" => [
        (TpmiAlgHash::SHA1.0 as u32, 0x4, "SHA1"),
        (TpmiAlgHash::SHA256.0 as u32, 0xb, "SHA256"),
        (TpmiAlgHash::SHA384.0 as u32, 0xc, "SHA384"),
        (TpmiAlgHash::SHA512.0 as u32, 0xd, "SHA512"),
        (TpmiAlgHash::SM3256.0 as u32, 0x12, "SM3256"),
        (TpmiAlgHash::SHA3256.0 as u32, 0x27, "SHA3256"),
        (TpmiAlgHash::SHA3384.0 as u32, 0x28, "SHA3384"),
        (TpmiAlgHash::SHA3512.0 as u32, 0x29, "SHA3512"),
    ],
    "TpmiAlgKdf" => [
        (TpmiAlgKdf::MGF1.0 as u32, 0x7, "MGF1"),
        (TpmiAlgKdf::KDF1SP80056A.0 as u32, 0x20, "KDF1SP80056A"),
        (TpmiAlgKdf::KDF2.0 as u32, 0x21, "KDF2"),
        (TpmiAlgKdf::KDF1SP800108.0 as u32, 0x22, "KDF1SP800108"),
    ],
    "TpmiAlgPublic" => [
        (TpmiAlgPublic::RSA.0 as u32, 0x1, "RSA"),
        (TpmiAlgPublic::KeyedHash.0 as u32, 0x8, "KeyedHash"),
        (TpmiAlgPublic::ECC.0 as u32, 0x23, "ECC"),
        (TpmiAlgPublic::SymCipher.0 as u32, 0x25, "SymCipher"),
    ],
    "TpmiAlgSymMode" => [
        (TpmiAlgSymMode::CMAC.0 as u32, 0x3f, "CMAC"),
        (TpmiAlgSymMode::CTR.0 as u32, 0x40, "CTR"),
        (TpmiAlgSymMode::OFB.0 as u32, 0x41, "OFB"),
        (TpmiAlgSymMode::CBC.0 as u32, 0x42, "CBC"),
        (TpmiAlgSymMode::CFB.0 as u32, 0x43, "CFB"),
        (TpmiAlgSymMode::ECB.0 as u32, 0x44, "ECB"),
    ],
    "TpmiAlgSymObject" => [
        (TpmiAlgSymObject::TDES.0 as u32, 0x3, "TDES"),
        (TpmiAlgSymObject::AES.0 as u32, 0x6, "AES"),
        (TpmiAlgSymObject::SM4.0 as u32, 0x13, "SM4"),
        (TpmiAlgSymObject::Camellia.0 as u32, 0x26, "Camellia"),
    ],
    "TpmiAlgKeyedhashScheme" => [
        (TpmiAlgKeyedhashScheme::HMAC.0 as u32, 0x5, "HMAC"),
        (TpmiAlgKeyedhashScheme::XOR.0 as u32, 0xa, "XOR"),
    ],
    "TpmiAlgRsaScheme" => [
        (TpmiAlgRsaScheme::RSAPSS.0 as u32, 0x16, "RSAPSS"),
        (TpmiAlgRsaScheme::RSASSA.0 as u32, 0x14, "RSASSA"),
        (TpmiAlgRsaScheme::ECDSA.0 as u32, 0x18, "ECDSA"),
        (TpmiAlgRsaScheme::ECDAA.0 as u32, 0x1a, "ECDAA"),
        (TpmiAlgRsaScheme::SM2.0 as u32, 0x1b, "SM2"),
        (TpmiAlgRsaScheme::ECSchnorr.0 as u32, 0x1c, "ECSchnorr"),
        (TpmiAlgRsaScheme::RSAES.0 as u32, 0x15, "RSAES"),
        (TpmiAlgRsaScheme::OAEP.0 as u32, 0x17, "OAEP"),
    ],
    "TpmiAlgSigScheme" => [
        (TpmiAlgSigScheme::RSAPSS.0 as u32, 0x16, "RSAPSS"),
        (TpmiAlgSigScheme::RSASSA.0 as u32, 0x14, "RSASSA"),
        (TpmiAlgSigScheme::ECDSA.0 as u32, 0x18, "ECDSA"),
        (TpmiAlgSigScheme::ECDAA.0 as u32, 0x1a, "ECDAA"),
        (TpmiAlgSigScheme::SM2.0 as u32, 0x1b, "SM2"),
        (TpmiAlgSigScheme::ECSchnorr.0 as u32, 0x1c, "ECSchnorr"),
        (TpmiAlgSigScheme::HMAC.0 as u32, 0x5, "HMAC"),
    ],
    "TpmiAlgEccScheme" => [
        (TpmiAlgEccScheme::RSAPSS.0 as u32, 0x16, "RSAPSS"),
        (TpmiAlgEccScheme::RSASSA.0 as u32, 0x14, "RSASSA"),
        (TpmiAlgEccScheme::ECDSA.0 as u32, 0x18, "ECDSA"),
        (TpmiAlgEccScheme::ECDAA.0 as u32, 0x1a, "ECDAA"),
        (TpmiAlgEccScheme::SM2.0 as u32, 0x1b, "SM2"),
        (TpmiAlgEccScheme::ECSchnorr.0 as u32, 0x1c, "ECSchnorr"),
        (TpmiAlgEccScheme::ECDH.0 as u32, 0x19, "ECDH"),
        (TpmiAlgEccScheme::ECMQV.0 as u32, 0x1d, "ECMQV"),
    ],
    "TpmiAlgAsymScheme" => [
        (TpmiAlgAsymScheme::SM2.0 as u32, 0x1b, "SM2"),
        (TpmiAlgAsymScheme::ECDH.0 as u32, 0x19, "ECDH"),
        (TpmiAlgAsymScheme::ECMQV.0 as u32, 0x1d, "ECMQV"),
        (TpmiAlgAsymScheme::RSAPSS.0 as u32, 0x16, "RSAPSS"),
        (TpmiAlgAsymScheme::RSASSA.0 as u32, 0x14, "RSASSA"),
        (TpmiAlgAsymScheme::ECDSA.0 as u32, 0x18, "ECDSA"),
        (TpmiAlgAsymScheme::ECDAA.0 as u32, 0x1a, "ECDAA"),
        (TpmiAlgAsymScheme::ECSchnorr.0 as u32, 0x1c, "ECSchnorr"),
        (TpmiAlgAsymScheme::RSAES.0 as u32, 0x15, "RSAES"),
        (TpmiAlgAsymScheme::OAEP.0 as u32, 0x17, "OAEP"),
    ],
    "TpmiYesNo" => [
        (TpmiYesNo::NO.0 as u32, 0x0, "NO"),
        (TpmiYesNo::YES.0 as u32, 0x1, "YES"),
    ],
    "TpmiStAttest" => [
        (TpmiStAttest::AttestCertify.0 as u32, 0x8017, "AttestCertify"),
        (TpmiStAttest::AttestQuote.0 as u32, 0x8018, "AttestQuote"),
        (TpmiStAttest::AttestSessionAudit.0 as u32, 0x8016, "AttestSessionAudit"),
        (TpmiStAttest::AttestCommandAudit.0 as u32, 0x8015, "AttestCommandAudit"),
        (TpmiStAttest::AttestTime.0 as u32, 0x8019, "AttestTime"),
        (TpmiStAttest::AttestCreation.0 as u32, 0x801a, "AttestCreation"),
        (TpmiStAttest::AttestNV.0 as u32, 0x8014, "AttestNV"),
        (TpmiStAttest::AttestNVDigest.0 as u32, 0x801c, "AttestNVDigest"),
    ],
    "TpmiStCommandTag" => [
        (TpmiStCommandTag::NoSessions.0 as u32, 0x8001, "NoSessions"),
        (TpmiStCommandTag::Sessions.0 as u32, 0x8002, "Sessions"),
    ],
    "Alg" => [
        (tpm2::Alg::Rsa.0 as u32, 0x1, "Rsa"),
        (tpm2::Alg::Tdes.0 as u32, 0x3, "Tdes"),
        (tpm2::Alg::Sha1.0 as u32, 0x4, "Sha1"),
        (tpm2::Alg::Hmac.0 as u32, 0x5, "Hmac"),
        (tpm2::Alg::Aes.0 as u32, 0x6, "Aes"),
        (tpm2::Alg::Mgf1.0 as u32, 0x7, "Mgf1"),
        (tpm2::Alg::KeyedHash.0 as u32, 0x8, "KeyedHash"),
        (tpm2::Alg::Null.0 as u32, 0x10, "Null"),
        (tpm2::Alg::Xor.0 as u32, 0xa, "Xor"),
        (tpm2::Alg::Sha256.0 as u32, 0xb, "Sha256"),
        (tpm2::Alg::Sha384.0 as u32, 0xc, "Sha384"),
        (tpm2::Alg::Sha512.0 as u32, 0xd, "Sha512"),
        (tpm2::Alg::Sm3_256.0 as u32, 0x12, "Sm3_256"),
        (tpm2::Alg::Sm4.0 as u32, 0x13, "Sm4"),
        (tpm2::Alg::RsaSsa.0 as u32, 0x14, "RsaSsa"),
        (tpm2::Alg::RsaEs.0 as u32, 0x15, "RsaEs"),
        (tpm2::Alg::RsaPss.0 as u32, 0x16, "RsaPss"),
        (tpm2::Alg::Oaep.0 as u32, 0x17, "Oaep"),
        (tpm2::Alg::Ecdsa.0 as u32, 0x18, "Ecdsa"),
        (tpm2::Alg::Ecdh.0 as u32, 0x19, "Ecdh"),
        (tpm2::Alg::Ecdaa.0 as u32, 0x1a, "Ecdaa"),
        (tpm2::Alg::Sm2.0 as u32, 0x1b, "Sm2"),
        (tpm2::Alg::EcSchnorr.0 as u32, 0x1c, "EcSchnorr"),
        (tpm2::Alg::Ecmqv.0 as u32, 0x1d, "Ecmqv"),
        (tpm2::Alg::Kdf1Sp800_56A.0 as u32, 0x20, "Kdf1Sp800_56A"),
        (tpm2::Alg::Kdf2.0 as u32, 0x21, "Kdf2"),
        (tpm2::Alg::Kdf1Sp800_108.0 as u32, 0x22, "Kdf1Sp800_108"),
        (tpm2::Alg::Ecc.0 as u32, 0x23, "Ecc"),
        (tpm2::Alg::SymCipher.0 as u32, 0x25, "SymCipher"),
        (tpm2::Alg::Camellia.0 as u32, 0x26, "Camellia"),
        (tpm2::Alg::Sha3_256.0 as u32, 0x27, "Sha3_256"),
        (tpm2::Alg::Sha3_384.0 as u32, 0x28, "Sha3_384"),
        (tpm2::Alg::Sha3_512.0 as u32, 0x29, "Sha3_512"),
        (tpm2::Alg::Ctr.0 as u32, 0x40, "Ctr"),
        (tpm2::Alg::Ofb.0 as u32, 0x41, "Ofb"),
        (tpm2::Alg::Cbc.0 as u32, 0x42, "Cbc"),
        (tpm2::Alg::Cfb.0 as u32, 0x43, "Cfb"),
        (tpm2::Alg::Ecb.0 as u32, 0x44, "Ecb"),
    ],
}
