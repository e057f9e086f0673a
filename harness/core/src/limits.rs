use tpm2::{Limits, TpmiAlgHash};

/// The specification's hash algorithms: identifier, digest size.
pub const HASHES: [(u16, usize); 8] =
    [(0x0004, 20), (0x000B, 32), (0x000C, 48), (0x000D, 64), (0x0012, 32), (0x0027, 32), (0x0028, 48), (0x0029, 64)];

/// The implementation's value for the k-th algorithm of `HASHES`.
pub fn alg(k: usize) -> TpmiAlgHash {
    use TpmiAlgHash::*;
    [Sha1, Sha256, Sha384, Sha512, Sm3_256, Sha3_256, Sha3_384, Sha3_512][k]
}
pub fn index(h: TpmiAlgHash) -> Option<usize> {
    (0..8).find(|&k| alg(k) == h)
}

/// A set of supported hash algorithms: one bit per entry of `HASHES`.
#[derive(Clone, Copy, Debug)]
pub struct Set(pub u8);
impl Limits for Set {
    fn supports_hash(self, h: TpmiAlgHash) -> bool {
        index(h).is_some_and(|k| self.0 >> k & 1 == 1)
    }
}
pub fn max_digest(set: u8) -> usize {
    (0..8).filter(|k| set >> k & 1 == 1).map(|k| HASHES[k].1).max().unwrap_or(0)
}
