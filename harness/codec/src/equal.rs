//! C26: equality, hashing and copies of values against their encodings.
use crate::schema::*;
use crate::types::*;
use crate::wire::{ITEM, enc_any, for_all};
use mc::{Check, Cov, hash_bytes, hex, mix};
use std::any::Any;
use std::cell::RefCell;
use std::collections::HashMap;
use std::hash::{DefaultHasher, Hash, Hasher};
use std::sync::Arc;
use tpm2_rs_base::commands::*;
use tpm2_rs_base::constants::*;
use tpm2_rs_base::marshal::UnmarshalBuf;
use tpm2_rs_base::*;

trait Eqv {
    fn same(&self, o: &dyn Eqv) -> (bool, bool);
    fn digest(&self) -> u64;
    fn copy(&self) -> Box<dyn Eqv>;
    fn any(&self) -> &dyn Any;
    fn encoding(&self, n: usize) -> Option<Vec<u8>>;
}
impl<T: R + PartialEq + Hash + Clone + 'static> Eqv for T {
    fn same(&self, o: &dyn Eqv) -> (bool, bool) {
        let o = o.any().downcast_ref::<T>().unwrap();
        (self == o, self != o)
    }
    fn digest(&self) -> u64 {
        let mut h = DefaultHasher::new();
        self.hash(&mut h);
        h.finish()
    }
    fn copy(&self) -> Box<dyn Eqv> {
        Box::new(self.clone())
    }
    fn any(&self) -> &dyn Any {
        self
    }
    fn encoding(&self, n: usize) -> Option<Vec<u8>> {
        enc_any(self, n)
    }
}
type Dec = fn(&[u8]) -> Option<Box<dyn Eqv>>;
fn decode<T: R + PartialEq + Hash + Clone + 'static>(b: &[u8]) -> Option<Box<dyn Eqv>> {
    T::try_unmarshal(&mut UnmarshalBuf::new(b)).ok().map(|v| Box::new(v) as Box<dyn Eqv>)
}
fn decoders() -> HashMap<&'static str, Dec> {
    macro_rules! table {
        ($($t:ty),* $(,)?) => { HashMap::from([$((stringify!($t), decode::<$t> as Dec)),*]) };
    }
    crate::all_types!(table)
}

type Known = (Vec<u8>, Box<dyn Eqv>);
struct Seen {
    item: u64,
    /// The first values of the type, every further one is compared with them.
    first: Vec<Known>,
    /// The latest values.
    last: Vec<Known>,
}
thread_local! { static SEEN: RefCell<Seen> = const { RefCell::new(Seen { item: 0, first: vec![], last: vec![] }) }; }

fn pair(check: &Check, cov: &mut Cov, name: &str, a: &Known, b: &Known) {
    cov.evaluations += 1;
    let want = a.0 == b.0;
    let show = || format!("{name}\n  {}\n  {}", hex(&a.0), hex(&b.0));
    match mc::guard(|| (a.1.same(&*b.1), b.1.same(&*a.1), want.then(|| a.1.digest() == b.1.digest()))) {
        Err(p) => check.fail(&format!("{name}-panic"), || format!("{p}\n{}", show())),
        Ok((ab, ba, hash)) => {
            if ab != (want, !want) || ba != (want, !want) {
                check.fail(&format!("{name}-equality"), || format!("the encodings are {}, the values compare {ab:?} and {ba:?} (equal, unequal)\n{}", if want { "equal" } else { "different" }, show()));
            }
            if hash == Some(false) {
                check.fail(&format!("{name}-hash"), || format!("equal values with different hashes\n{}", show()));
            }
        }
    }
}

pub fn c26(check: &Arc<Check>) {
    let keep = check.tier(12usize, 60);
    check.bound(format!("every type; every value within one deviation of each of 6 backgrounds (two deviations where the space is small enough) against the first {keep} values, the 4 preceding ones, itself decoded again with bytes following, and its copy"));
    let decs = decoders();
    for_all(check, false, |cov, t, b, _| {
        let Some(dec) = decs.get(t.name) else { return check.fail("table", || t.name.into()) };
        let tail = [b, &[0xC3, 0x5A, 0xFF]].concat();
        let Ok((Some(v), Some(again))) = mc::guard(|| (dec(b), dec(&tail))) else {
            return check.fail(&format!("{}-decode", t.name), || format!("{} is not decoded as {}", hex(b), t.name));
        };
        let v: Known = (b.to_vec(), v);
        pair(check, cov, t.name, &v, &(b.to_vec(), again));
        match mc::guard(|| (v.1.copy(), v.1.copy().encoding(b.len() + 3))) {
            Ok((c, Some(e))) if e == b => pair(check, cov, t.name, &v, &(e, c)),
            r => check.fail(&format!("{}-copy", t.name), || format!("a copy of {} encodes to {:?}", hex(b), r.map(|r| r.1))),
        }
        SEEN.with_borrow_mut(|s| {
            if s.item != ITEM.get() {
                *s = Seen { item: ITEM.get(), first: vec![], last: vec![] };
            }
            for o in s.first.iter().chain(&s.last) {
                pair(check, cov, t.name, &v, o);
            }
            if s.first.len() < keep {
                s.first.push(v);
            } else {
                if s.last.len() == 4 {
                    s.last.remove(0);
                }
                s.last.push(v);
            }
        });
        cov.sample(t.name, || format!("{}: {}", t.name, hex(&b[..b.len().min(60)])));
    });
    defaults(check);
    permuted(check, &decs);
}

/// Values made of the same parts in different orders and numbers, all pairs.
fn permuted(check: &Arc<Check>, decs: &HashMap<&'static str, Dec>) {
    check.bound("all pairs of: sized buffers of up to 4 bytes over 3 values, lists of up to 4 elements over 3 elements (all sequences)");
    // count and elements of the lists, as encodings
    let lists: [(&str, fn(u8) -> Vec<u8>); 9] = [
        ("TpmlHandle", |k| vec![k; 4]),
        ("TpmlCc", |k| vec![0, k, 0, 1]),
        ("TpmlEccCurve", |k| vec![0, k]),
        ("TpmlDigest", |k| [&[0, k][..], &vec![5; k as usize]].concat()),
        ("TpmlAlgProperty", |k| vec![0, 1, 0, 0, 0, k]),
        ("TpmlTaggedTpmProperty", |k| vec![0, 0, 1, 0, 0, 0, 0, k]),
        ("TpmlPcrSelection", |k| [&[0, 11, k][..], &vec![0; k as usize]].concat()),
        ("TpmlTaggedPcrProperty", |k| vec![0, 0, 0, 1, 1, k]),
        ("TpmlTaggedPolicy", |k| [&[0x40, 0, 0, 1, 0, 4][..], &[k; 20]].concat()),
    ];
    let buffers = [
        "Tpm2bDigest", "Tpm2bData", "Tpm2bEvent", "Tpm2bMaxBuffer", "Tpm2bMaxNvBuffer", "Tpm2bIv", "Tpm2bName", "Tpm2bSymKey", "Tpm2bLabel", "Tpm2bSensitiveData",
        "Tpm2bPublicKeyRsa", "Tpm2bPrivateKeyRsa", "Tpm2bEccParameter", "Tpm2bEncryptedSecret", "Tpm2bAttest",
    ];
    let sequences = |max: usize| {
        let mut all: Vec<Vec<u8>> = vec![vec![]];
        let mut from = 0;
        for _ in 0..max {
            let to = all.len();
            for i in from..to {
                for k in 0..3 {
                    all.push([&all[i][..], &[k]].concat());
                }
            }
            from = to;
        }
        all
    };
    let mut items: Vec<(&str, Vec<Vec<u8>>)> = vec![];
    for (name, e) in lists {
        items.push((name, sequences(4).iter().map(|s| [&(s.len() as u32).to_be_bytes()[..], &s.iter().flat_map(|&k| e(k)).collect::<Vec<_>>()].concat()).collect()));
    }
    for name in buffers {
        items.push((name, sequences(4).iter().map(|s| [&(s.len() as u16).to_be_bytes()[..], s].concat()).collect()));
    }
    check.par(items, |cov, (name, all)| {
        let Some(dec) = decs.get(name) else { return check.fail("table", || name.into()) };
        let mut values: Vec<Known> = vec![];
        for b in all {
            let Ok(Some(v)) = mc::guard(|| dec(&b)) else {
                return check.fail(&format!("{name}-decode"), || format!("{} is not decoded", hex(&b)));
            };
            cov.state(hash_bytes(mc::hash_str(name), &b));
            cov.traces += 1;
            cov.transitions += 1;
            values.push((b, v));
        }
        for (i, a) in values.iter().enumerate() {
            for b in &values[..i] {
                pair(check, cov, name, a, b);
            }
        }
    });
}

/// Values made without decoding: the defaults, and buffers and lists that got to the same contents in different ways.
fn defaults(check: &Arc<Check>) {
    check.bound("sized buffers: every length of 3 contents built from bytes against the decoded one and the one of the next length; lists built at once, appended and decoded; default values against the decoding of their encoding");
    fn known<T: R + PartialEq + Hash + Clone + 'static>(v: T) -> Option<Known> {
        let b = enc_any(&v, 20_000)?;
        Some((b, Box::new(v)))
    }
    fn both<T: R + PartialEq + Hash + Clone + 'static>(check: &Check, cov: &mut Cov, name: &str, v: T) {
        cov.traces += 1;
        cov.transitions += 1;
        let k = mc::guard(|| known(v).and_then(|k| decode::<T>(&k.0).map(|d| (k.0.clone(), k, d))));
        match k {
            Ok(Some((b, k, d))) => {
                cov.state(hash_bytes(mc::hash_str(name), &b));
                pair(check, cov, name, &k, &(b, d));
            }
            _ => check.fail(&format!("{name}-default"), || "a value made through the public interface does not encode or decode".into()),
        }
    }
    check.run(|cov| {
        macro_rules! sized {
            ($($t:ident),* $(,)?) => {$({
                for fill in [0u8, 0xFF, 0x31] {
                    let mut previous: Option<Known> = None;
                    for n in 0..=$t::MAX_BUFFER_SIZE {
                        let Ok(v) = $t::from_bytes(&vec![fill; n]) else {
                            check.fail(concat!(stringify!($t), "-refused"), || format!("{n} bytes"));
                            break;
                        };
                        both(check, cov, stringify!($t), v);
                        if let Some(k) = mc::guard(|| known(v)).ok().flatten() {
                            if let Some(p) = &previous {
                                pair(check, cov, stringify!($t), &k, p);
                            }
                            previous = Some(k);
                        }
                    }
                }
                both(check, cov, stringify!($t), $t::default());
            })*};
        }
        sized!(
            Tpm2bDigest, Tpm2bData, Tpm2bEvent, Tpm2bMaxBuffer, Tpm2bMaxNvBuffer, Tpm2bIv, Tpm2bName, Tpm2bSymKey, Tpm2bLabel,
            Tpm2bSensitiveData, Tpm2bPublicKeyRsa, Tpm2bPrivateKeyRsa, Tpm2bEccParameter, Tpm2bEncryptedSecret, Tpm2bAttest,
        );
        macro_rules! list {
            ($($t:ident : $e:expr, $cap:expr);* $(;)?) => {$({
                let e = $e;
                for n in 0..=$cap {
                    let part: Vec<_> = (0..n).map(|i| e(i)).collect();
                    let mut grown = $t::default();
                    let ok = part.iter().all(|x| grown.add(x).is_ok());
                    let Ok(built) = $t::new(&part) else {
                        check.fail(concat!(stringify!($t), "-refused"), || format!("{n} elements"));
                        break;
                    };
                    both(check, cov, stringify!($t), built);
                    if ok {
                        both(check, cov, stringify!($t), grown);
                        if let (Some(a), Some(b)) = (known(built), known(grown)) {
                            pair(check, cov, stringify!($t), &a, &b);
                        }
                    }
                    // an addition refused or undone by a copy leaves an equal list
                    let mut c = built;
                    let _ = c.add(&e(n));
                    if let (Some(a), Some(b)) = (known(built), known(c)) {
                        pair(check, cov, stringify!($t), &a, &b);
                    }
                }
            })*};
        }
        list!(
            TpmlHandle: |i: usize| TpmHandle(i as u32 % 3), 254;
            TpmlCc: |i: usize| TpmCc(i as u32 % 2), 254;
            TpmlEccCurve: |i: usize| TpmEccCurve(i as u16 % 2), 508;
            TpmlDigest: |i: usize| Tpm2bDigest::from_bytes(&[0; 64][..i % 3]).unwrap_or_default(), 8;
        );
        cov.state(mix(26, 0));
    });
}
