//! The controlled environment of the TPM implementation: an entropy source and a generator whose faults and
//! demands are chosen by the explorer and whose interactions are logged, and monitored buffer types.
use std::cell::{Cell, RefCell};
use std::sync::OnceLock;
use tpm2_impl::platform::crypto::{Drbg, DrbgError, EntropySource};
use tpm2_impl::platform::{ReadOutOfBounds, TpmContextDeps, TpmReadBuffer, TpmWriteBuffer, WriteOutOfBounds};

pub const TABLE: usize = 1 << 20;
/// Contents of what the generator and the entropy source produce: 0 is irregular, the others are the degenerate ones.
pub const FLAVORS: u8 = 6;
thread_local! { static FLAVOR: Cell<u8> = const { Cell::new(0) }; }
pub fn with_flavor<R>(k: u8, f: impl FnOnce() -> R) -> R {
    FLAVOR.set(k);
    let r = f();
    FLAVOR.set(0);
    r
}
fn content(k: u8, irregular: u8, p: u64) -> u8 {
    match k {
        0 => irregular,
        1 => 0,
        2 => 0xFF,
        3 => [0xDE, 0xAD, 0xBE, 0xEF][p as usize % 4],
        4 => p as u8,
        _ => irregular & 0x01,
    }
}
/// The generator's stream: byte `p` is `stream()[p % TABLE]`.
pub fn stream() -> &'static [u8] {
    static T: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
    let all = T.get_or_init(|| {
        let table = |k| (0..2 * TABLE as u64).map(|i| content(k, (mc::mix(77, i % TABLE as u64) >> 11) as u8, i)).collect();
        (0..FLAVORS).map(table).collect()
    });
    &all[FLAVOR.get() as usize]
}
/// Byte `p` of the entropy source's stream.
pub fn entropy_byte(p: u64) -> u8 {
    content(FLAVOR.get(), (mc::mix(1234, p) >> 7) as u8, p)
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    EntropyInstantiate,
    Instantiate { entropy: Vec<u8>, nonce: Vec<u8> },
    Reseed { entropy: Vec<u8>, at: u64, ok: bool },
    /// output drawn: stream range [from, from+len)
    Draw { from: u64, len: u64, ok: bool, demanded: bool },
}

#[derive(Clone, Default, Debug)]
pub struct Env {
    pub log: Vec<Ev>,
    pub entropy_pos: u64,
    pub pos: u64,
    /// The generator currently demands to be reseeded.
    pub demand: bool,
    /// Becomes true again after each output (reseeding interval of one request).
    pub demand_after_output: bool,
    pub fail_instantiate: bool,
    pub fail_reseed: bool,
    /// Fails output: number of eighths of the destination that are filled before failing.
    pub fail_output: Option<u8>,
}
thread_local! { pub static ENV: RefCell<Env> = RefCell::new(Env::default()); }
pub fn env<R>(f: impl FnOnce(&mut Env) -> R) -> R {
    ENV.with(|e| f(&mut e.borrow_mut()))
}
pub fn reset() {
    env(|e| *e = Env::default());
}

pub struct Ent;
impl EntropySource for Ent {
    fn instantiate() -> Self {
        env(|e| e.log.push(Ev::EntropyInstantiate));
        Ent
    }
    fn fill_entropy(&mut self, dest: &mut [u8]) {
        env(|e| {
            for d in dest.iter_mut() {
                *d = entropy_byte(e.entropy_pos);
                e.entropy_pos += 1;
            }
        });
    }
}

pub struct Seed<const N: usize>(pub [u8; N]);
impl<const N: usize> Default for Seed<N> {
    fn default() -> Self {
        Seed([0xEE; N])
    }
}
impl<const N: usize> AsMut<[u8]> for Seed<N> {
    fn as_mut(&mut self) -> &mut [u8] {
        &mut self.0
    }
}

pub struct Gen<const E: usize, const N: usize>;
impl<const E: usize, const N: usize> Gen<E, N> {
    fn draw(&mut self, dest: &mut [u8]) -> Result<(), DrbgError> {
        env(|e| {
            let demanded = e.demand;
            let full = dest.len();
            let fail = e.fail_output;
            let n = match fail {
                Some(k) => full * k as usize / 8,
                None => full,
            };
            let from = e.pos;
            if demanded {
                // a generator that must be reseeded refuses to produce output
                e.log.push(Ev::Draw { from, len: full as u64, ok: false, demanded });
                return Err(DrbgError);
            }
            let at = (from % TABLE as u64) as usize;
            if n <= TABLE {
                dest[..n].copy_from_slice(&stream()[at..at + n]);
            }
            e.pos += n as u64;
            e.log.push(Ev::Draw { from, len: n as u64, ok: fail.is_none(), demanded });
            if e.demand_after_output && full > 0 {
                e.demand = true;
            }
            if fail.is_some() { Err(DrbgError) } else { Ok(()) }
        })
    }
}
impl<const E: usize, const N: usize> Drbg for Gen<E, N> {
    type Entropy = Seed<E>;
    type Nonce = Seed<N>;
    fn instantiate(entropy: &Seed<E>, nonce: &Seed<N>, _: &[u8]) -> Result<Self, DrbgError> {
        env(|e| {
            e.log.push(Ev::Instantiate { entropy: entropy.0.to_vec(), nonce: nonce.0.to_vec() });
            if e.fail_instantiate { Err(DrbgError) } else { Ok(Gen) }
        })
    }
    fn reseed(&mut self, entropy: &Seed<E>, _: &[u8]) -> Result<(), DrbgError> {
        env(|e| {
            let ok = !e.fail_reseed;
            e.log.push(Ev::Reseed { entropy: entropy.0.to_vec(), at: e.pos, ok });
            if ok {
                e.demand = false;
                Ok(())
            } else {
                Err(DrbgError)
            }
        })
    }
    fn next_u32(&mut self, _: &[u8]) -> Result<u32, DrbgError> {
        let mut b = [0; 4];
        self.draw(&mut b)?;
        Ok(u32::from_le_bytes(b))
    }
    fn next_u64(&mut self, _: &[u8]) -> Result<u64, DrbgError> {
        let mut b = [0; 8];
        self.draw(&mut b)?;
        Ok(u64::from_le_bytes(b))
    }
    fn fill_bytes(&mut self, _: &[u8], dest: &mut [u8]) -> Result<(), DrbgError> {
        self.draw(dest)
    }
    fn requires_reseeding(&mut self) -> bool {
        env(|e| e.demand)
    }
}

pub struct Plain<const E: usize, const N: usize>;
impl<const E: usize, const N: usize> TpmContextDeps for Plain<E, N> {
    type Drbg = Gen<E, N>;
    type EntropySource = Ent;
    type Request = [u8];
    type Response = [u8];
}
pub type Deps = Plain<48, 24>;

/// A request or response buffer that is not a contiguous slice: two segments, bounds checked by itself, every
/// written range recorded.
pub struct Seg {
    pub a: Vec<u8>,
    pub b: Vec<u8>,
    pub writes: Vec<(usize, usize)>,
}
impl Seg {
    pub fn new(all: &[u8], split: usize) -> Seg {
        let split = split.min(all.len());
        Seg { a: all[..split].to_vec(), b: all[split..].to_vec(), writes: vec![] }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = self.a.clone();
        v.extend_from_slice(&self.b);
        v
    }
    fn total(&self) -> usize {
        self.a.len() + self.b.len()
    }
    fn put(&mut self, at: usize, data: &[u8]) {
        for (i, &d) in data.iter().enumerate() {
            let p = at + i;
            if p < self.a.len() {
                self.a[p] = d;
            } else {
                let q = p - self.a.len();
                self.b[q] = d;
            }
        }
        if !data.is_empty() {
            self.writes.push((at, at + data.len()));
        }
    }
    fn fits(&self, at: usize, n: usize) -> bool {
        at.checked_add(n).is_some_and(|e| e <= self.total())
    }
}
impl TpmReadBuffer for Seg {
    fn len(&self) -> usize {
        self.total()
    }
    fn read_into(&self, at: usize, out: &mut [u8]) -> Result<(), ReadOutOfBounds> {
        if !self.fits(at, out.len()) {
            return Err(ReadOutOfBounds);
        }
        for (i, o) in out.iter_mut().enumerate() {
            let p = at + i;
            *o = if p < self.a.len() { self.a[p] } else { self.b[p - self.a.len()] };
        }
        Ok(())
    }
}
impl TpmWriteBuffer for Seg {
    fn write(&mut self, at: usize, data: &[u8]) -> Result<(), WriteOutOfBounds> {
        if !self.fits(at, data.len()) {
            return Err(WriteOutOfBounds);
        }
        self.put(at, data);
        Ok(())
    }
    fn write_callback(&mut self, at: usize, n: usize, cb: impl FnOnce(&mut [u8])) -> Result<(), WriteOutOfBounds> {
        if !self.fits(at, n) {
            return Err(WriteOutOfBounds);
        }
        let mut tmp: Vec<u8> = (at..at + n).map(|p| if p < self.a.len() { self.a[p] } else { self.b[p - self.a.len()] }).collect();
        cb(&mut tmp);
        self.put(at, &tmp);
        Ok(())
    }
}
pub struct SegDeps;
impl TpmContextDeps for SegDeps {
    type Drbg = Gen<48, 24>;
    type EntropySource = Ent;
    type Request = Seg;
    type Response = Seg;
}
