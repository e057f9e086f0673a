//! The wire format: a description language independent of the Rust types, its reference decoder, and the
//! generator of byte strings from it.
use mc::Chooser;

#[derive(Clone, Debug)]
pub enum S {
    /// Big-endian unsigned integer of the given width.
    Uint(usize),
    /// Fixed byte string.
    Bytes(usize),
    /// 16-bit length and that many bytes, at most the capacity.
    Sized(usize),
    /// Count of the given width and that many elements, at most the capacity.
    List { w: usize, cap: usize, elem: Box<S> },
    Seq(Vec<S>),
    /// `pre`, a selector, `mid`, and the member the selector names.
    Union { pre: Vec<S>, w: usize, mid: Vec<S>, cases: Vec<(u64, S)> },
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bad {
    Short,
    Count,
    Size,
    Selector,
}

pub fn uint(b: &[u8]) -> u64 {
    b.iter().fold(0, |v, x| v << 8 | *x as u64)
}

fn take<'a>(b: &'a [u8], pos: &mut usize, n: usize) -> Result<&'a [u8], Bad> {
    let r = b.get(*pos..pos.checked_add(n).ok_or(Bad::Short)?).ok_or(Bad::Short)?;
    *pos += n;
    Ok(r)
}

/// The reference decoder.  `structure` receives every position that holds a length, a count or a selector.
pub fn decode(s: &S, b: &[u8], pos: &mut usize, structure: &mut Vec<usize>) -> Result<(), Bad> {
    let mark = |pos: usize, w: usize, st: &mut Vec<usize>| st.extend(pos..(pos + w).min(b.len()));
    match s {
        S::Uint(w) | S::Bytes(w) => {
            take(b, pos, *w)?;
        }
        S::Sized(cap) => {
            mark(*pos, 2, structure);
            let n = uint(take(b, pos, 2)?) as usize;
            if n > *cap {
                return Err(Bad::Size);
            }
            take(b, pos, n)?;
        }
        S::List { w, cap, elem } => {
            mark(*pos, *w, structure);
            let n = uint(take(b, pos, *w)?);
            if n > *cap as u64 {
                return Err(Bad::Count);
            }
            for _ in 0..n {
                decode(elem, b, pos, structure)?;
            }
        }
        S::Seq(v) => {
            for s in v {
                decode(s, b, pos, structure)?;
            }
        }
        S::Union { pre, w, mid, cases } => {
            for s in pre {
                decode(s, b, pos, structure)?;
            }
            mark(*pos, *w, structure);
            let sel = uint(take(b, pos, *w)?);
            for s in mid {
                decode(s, b, pos, structure)?;
            }
            let Some((_, s)) = cases.iter().find(|c| c.0 == sel) else { return Err(Bad::Selector) };
            decode(s, b, pos, structure)?;
        }
    }
    Ok(())
}

/// Consumed length, or why the string is no encoding.
pub fn accepts(s: &S, b: &[u8]) -> Result<usize, Bad> {
    let mut pos = 0;
    decode(s, b, &mut pos, &mut vec![]).map(|_| pos)
}

pub fn max_len(s: &S) -> usize {
    match s {
        S::Uint(w) | S::Bytes(w) => *w,
        S::Sized(cap) => 2 + cap,
        S::List { w, cap, elem } => w + cap * max_len(elem),
        S::Seq(v) => v.iter().map(max_len).sum(),
        S::Union { pre, w, mid, cases } => {
            pre.iter().chain(mid).map(max_len).sum::<usize>() + w + cases.iter().map(|c| max_len(&c.1)).max().unwrap_or(0)
        }
    }
}

/// Content byte at a position of the wire: neighbouring and equally placed bytes of different fields differ.
pub fn pat(p: usize) -> u8 {
    ((p as u32).wrapping_mul(37).wrapping_add(101) ^ (p as u32 >> 8).wrapping_mul(91)) as u8
}

#[derive(Clone, Copy)]
pub struct Gen {
    /// Every member of every union is explored (otherwise choosing another one is a deviation).
    pub free: bool,
    /// Alphabet of the leaves: 0 corner values, 1 every value of every byte and every length, 2 also every
    /// 16-bit value.
    pub alphabet: u8,
    /// Also lengths, counts and selectors that no encoding has.
    pub invalid: bool,
    /// No choice points (used for the tail of long lists).
    pub still: bool,
    /// Content of every leaf, instead of a pattern that tells the positions apart.
    pub fill: Option<u8>,
    /// Default length of buffers and lists: 0 a few, 1 none, 2 the capacity.
    pub sizes: u8,
    /// Only two or three choices for every leaf.
    pub tiny: bool,
}

impl Gen {
    pub const PLAIN: Gen = Gen { free: true, alphabet: 0, invalid: false, still: false, fill: None, sizes: 0, tiny: false };
    fn put(&self, out: &mut Vec<u8>, n: usize) {
        let at = out.len();
        match self.fill {
            None => out.extend((at..at + n).map(pat)),
            Some(v) => out.resize(at + n, v),
        }
    }
    fn default_len(&self, few: usize, cap: usize) -> usize {
        [few, 0, cap][self.sizes as usize].min(cap)
    }
    fn dev(&self, ch: &mut Chooser, n: usize) -> usize {
        if self.still { 0 } else { ch.deviate(n) }
    }
    pub fn gen_into(&self, s: &S, ch: &mut Chooser, out: &mut Vec<u8>) {
        match s {
            S::Uint(w) if self.tiny => {
                let at = out.len();
                self.put(out, *w);
                let null: &[u8] = match w {
                    2 => &[0, 0x10],
                    4 => &[0x40, 0, 0, 7],
                    _ => &[],
                };
                match self.dev(ch, 2 + usize::from(!null.is_empty())) {
                    0 => {}
                    1 => out[at..].fill(0),
                    _ => out[at..].copy_from_slice(null),
                }
            }
            S::Bytes(w) if self.tiny => {
                let at = out.len();
                self.put(out, *w);
                if self.dev(ch, 2) == 1 {
                    out[at..].fill(0);
                }
            }
            S::Sized(cap) if self.tiny => {
                let k = self.dev(ch, 4);
                let n = [3.min(*cap), 0, *cap, 3.min(*cap)][k];
                out.extend((n as u16).to_be_bytes());
                let at = out.len();
                self.put(out, n);
                if k == 3 {
                    out[at..].fill(0);
                }
            }
            S::Uint(w) => {
                let at = out.len();
                self.put(out, *w);
                let corners: [u8; 3] = [0, 0xff, 0x80];
                let bytes = if self.alphabet >= 1 { 256 * w } else { 2 * w };
                let wide = if self.alphabet >= 2 && *w == 2 { 65536 } else { 0 };
                let named = named_values(*w, self.alphabet);
                let k = self.dev(ch, 1 + corners.len() + bytes + wide + named.len());
                if k > corners.len() + bytes + wide {
                    out[at..].copy_from_slice(&named[k - 1 - corners.len() - bytes - wide].to_be_bytes()[8 - w..]);
                } else if k == 0 {
                } else if k <= corners.len() {
                    out[at..].fill(corners[k - 1]);
                } else if k <= corners.len() + bytes {
                    let k = k - 1 - corners.len();
                    out[at + k % w] = if self.alphabet >= 1 { (k / w) as u8 } else { [1, 0x7f][k / w] };
                } else {
                    let v = (k - 1 - corners.len() - bytes) as u16;
                    out[at..].copy_from_slice(&v.to_be_bytes());
                }
            }
            S::Bytes(w) => {
                let at = out.len();
                self.put(out, *w);
                let k = self.dev(ch, 3 + if self.alphabet >= 1 { *w } else { 0 });
                match k {
                    0 => {}
                    1 => out[at..].fill(0),
                    2 => out[at..].fill(0xff),
                    k => out[at + k - 3] ^= 0xff,
                }
            }
            S::Sized(cap) => {
                let mut sizes: Vec<(usize, usize)> = vec![(3, 3)];
                sizes_of(*cap, self, &mut sizes);
                let d = self.default_len(3, *cap);
                let contents = if d == 0 {
                    0
                } else if self.alphabet >= 1 {
                    2 * 256 + d
                } else {
                    4
                };
                let k = self.dev(ch, sizes.len() + contents);
                let (n, present) = *sizes.get(k).unwrap_or(&(d, d));
                out.extend((n as u16).to_be_bytes());
                let at = out.len();
                self.put(out, present);
                if k >= sizes.len() {
                    // a particular content of the default length
                    let (k, last) = (k - sizes.len(), out.len() - 1);
                    match k {
                        _ if self.alphabet >= 1 && k < 256 => out[at] = k as u8,
                        _ if self.alphabet >= 1 && k < 512 => out[last] = (k - 256) as u8,
                        _ if self.alphabet >= 1 => out[at + k - 512] = if self.fill == Some(0) { 0xff } else { 0 },
                        0 => out[at] = 0,
                        1 => out[last] = 0,
                        2 => out[at..].fill(0),
                        _ => out[at..].fill(0xff),
                    }
                }
            }
            S::List { w, cap, elem } => {
                let counts = counts_of(*w, *cap, self);
                let (n, present) = counts[self.dev(ch, counts.len())];
                out.extend(&n.to_be_bytes()[8 - w..]);
                for i in 0..present {
                    let g = Gen { still: self.still || (present > 3 && i > 0 && i + 1 < present), ..*self };
                    g.gen_into(elem, ch, out);
                }
            }
            S::Seq(v) => {
                for s in v {
                    self.gen_into(s, ch, out);
                }
            }
            S::Union { pre, w, mid, cases } => {
                for s in pre {
                    self.gen_into(s, ch, out);
                }
                let k = if self.still {
                    0
                } else if self.free {
                    ch.choose(cases.len())
                } else {
                    ch.deviate(cases.len())
                };
                let (sel, s) = &cases[k];
                let mut emitted = *sel;
                if self.invalid {
                    let others: Vec<u64> = wrong_selectors(*w, cases);
                    let j = self.dev(ch, 1 + others.len());
                    if j > 0 {
                        emitted = others[j - 1];
                    }
                }
                out.extend(&emitted.to_be_bytes()[8 - w..]);
                for s in mid {
                    self.gen_into(s, ch, out);
                }
                self.gen_into(s, ch, out);
            }
        }
    }
}

/// Numbers that mean something to a TPM.
fn named_values(w: usize, alphabet: u8) -> &'static [u64] {
    match (w, alphabet) {
        // TPM_ALG_NULL, SHA-256; a usual key size
        (2, 0) => &[0x10, 0x0B],
        (2, _) => &[0x0100, 0x0800, 0x0C00, 0x1000, 0x8000, 0x8001, 0x8002, 0x8014, 0x8017, 0x8018, 0x8021],
        // TPM_RH_NULL, the usual RSA exponent
        (4, 0) => &[0x4000_0007, 0x0001_0001],
        (4, _) => &[
            0x4000_0000, 0x4000_0001, 0x4000_0006, 0x4000_0007, 0x4000_0009, 0x4000_000A, 0x4000_000B, 0x4000_000C, 0x4000_000D,
            0x0001_0001, 0x0100_0000, 0x0100_0001, 0x01C0_0002, 0x0200_0000, 0x0200_0001, 0x0300_0000, 0x0300_0001, 0x8000_0000, 0x8000_0001,
            0x80FF_FFFF, 0x8100_0000, 0x8100_0001, 0x8180_0000, 0x81FF_FFFF, 0x7FFF_FFFF, 0xFF54_4347, 0x5443_4721, 0x0000_FFFF,
            0xFFFF_0000,
        ],
        (8, 0) => &[0x1_0000_0000],
        (8, _) => &[0x1_0000_0000, 0xFFFF_FFFF, 0x7FFF_FFFF_FFFF_FFFF, 0xFFFF_FFFF_0000_0000, 0x8000_0000],
        _ => &[],
    }
}

fn sizes_of(cap: usize, g: &Gen, out: &mut Vec<(usize, usize)>) {
    let d = g.default_len(3, cap);
    out[0] = (d, d);
    if g.alphabet >= 1 {
        out.extend((0..=cap).filter(|n| *n != d).map(|n| (n, n)));
    } else {
        let mut v = vec![0, 1, cap / 2, cap.saturating_sub(1), cap, 127, 128, 255, 256, 257];
        v.retain(|n| *n <= cap);
        v.sort();
        v.dedup();
        out.extend(v.into_iter().map(|n| (n, n)));
    }
    if g.invalid {
        for n in [cap + 1, cap + 2, cap + 256, 0x7fff, 0x8000, 0xfffe, 0xffff] {
            if n > cap && n < 65536 {
                out.push((n, n));
                out.push((n, cap));
                out.push((n, 3.min(cap)));
            }
        }
        // lengths that claim more than follows
        out.push((2.min(cap), 1.min(cap)));
        out.push((cap, cap - 1));
    }
}

fn counts_of(w: usize, cap: usize, g: &Gen) -> Vec<(u64, usize)> {
    let d = g.default_len(2, cap);
    let mut out: Vec<(u64, usize)> = vec![(d as u64, d)];
    if g.tiny {
        out.push((0, 0));
        return out;
    }
    if g.alphabet >= 1 {
        out.extend((0..=cap).filter(|n| *n != d).map(|n| (n as u64, n)));
    } else {
        let mut v = vec![0, 1, 2, cap / 2, cap.saturating_sub(1), cap];
        v.retain(|n| *n != d && *n <= cap);
        v.sort();
        v.dedup();
        out.extend(v.into_iter().map(|n| (n as u64, n)));
    }
    if g.invalid {
        let top = if w == 8 { u64::MAX } else { (1u64 << (8 * w)) - 1 };
        let d = 2.min(cap) as u64;
        for n in [cap as u64 + 1, cap as u64 + 2] {
            if n <= top {
                out.push((n, n as usize));
                out.push((n, cap));
            }
        }
        for n in [0x100 | d, 0x1_0000 | d, 0x100_0000 | d, 0x8000_0000 | d, 0x80 | d, top, top - 1, top & !0xff, top & !0xffff, 0x7fff_ffff] {
            if n <= top && n > cap as u64 {
                out.push((n, d as usize));
                out.push((n, cap));
            }
        }
        if w == 1 {
            out.extend((cap as u64 + 1..256).map(|n| (n, n as usize)));
        }
        out.push((cap as u64, cap - 1));
    }
    out
}

fn wrong_selectors(w: usize, cases: &[(u64, S)]) -> Vec<u64> {
    let top = (1u64 << (8 * w)) - 1;
    let mut v: Vec<u64> = vec![0, top];
    for (c, _) in cases {
        v.extend([c + 1, c.wrapping_sub(1), c ^ 0x100, (c << 8) & top, c ^ 0x80, c | 0x8000, c | 0x1_0000, c | 0x8000_0000]);
    }
    // a selector of another member counts too: the reference decides what follows
    v.retain(|x| *x <= top);
    v.sort();
    v.dedup();
    v
}
