//! C19: plain byte buffers as request and response.
use mc::{Check, Cov, hex, mix};
use tpm2_impl::platform::{ReadOutOfBounds, TpmReadBuffer, TpmWriteBuffer, WriteOutOfBounds};

/// A buffer that only implements the required methods, to exercise the provided ones.
struct Min(Vec<u8>);
impl TpmReadBuffer for Min {
    fn len(&self) -> usize {
        self.0.len()
    }
    fn read_into(&self, at: usize, out: &mut [u8]) -> Result<(), ReadOutOfBounds> {
        match at.checked_add(out.len()) {
            Some(e) if e <= self.0.len() => {
                out.copy_from_slice(&self.0[at..e]);
                Ok(())
            }
            _ => Err(ReadOutOfBounds),
        }
    }
}

fn content(i: usize) -> u8 {
    (mix(19, i as u64) >> 9) as u8
}

fn one(check: &Check, cov: &mut Cov, blen: usize, off: usize, n: usize) {
    // the buffer lies inside a larger allocation with guard bytes
    const G: usize = 16;
    let base: Vec<u8> = (0..blen + 2 * G).map(content).collect();
    let inside = off <= blen && n <= blen - off;
    let what = |op: &str| format!("{op}: buffer of {blen} bytes, offset {off:#x}, length {n:#x}");
    cov.evaluations += 4;
    // --- read
    if n <= 1 << 17 {
        let b: &[u8] = &base[G..G + blen];
        let mut out = vec![0xEE; n];
        match mc::guard(|| b.read_into(off, &mut out)) {
            Err(p) => check.fail("read-panic", || format!("{p}\n{}", what("read_into"))),
            Ok(r) => {
                if r.is_ok() != inside {
                    check.fail("read-bounds", || format!("{r:?} {}", what("read_into")));
                }
                let good = if r.is_ok() && inside { out == b[off..off + n] } else { out.iter().all(|&x| x == 0xEE) };
                if !good {
                    check.fail("read-data", || format!("got {} {}", hex(&out), what("read_into")));
                }
            }
        }
    }
    // --- write
    if n <= 1 << 17 {
        let mut m = base.clone();
        let data: Vec<u8> = (0..n).map(|i| !content(i + 1000)).collect();
        match mc::guard(|| m[G..G + blen].write(off, &data)) {
            Err(p) => check.fail("write-panic", || format!("{p}\n{}", what("write"))),
            Ok(r) => {
                let mut want = base.clone();
                if inside {
                    want[G + off..G + off + n].copy_from_slice(&data);
                }
                if (r == Ok(())) != inside || (r == Err(WriteOutOfBounds)) == inside {
                    check.fail("write-bounds", || format!("{r:?} {}", what("write")));
                }
                if m != want {
                    check.fail("write-data", || format!("buffer {} {}", hex(&m), what("write")));
                }
            }
        }
    }
    // --- write in place
    let mut m = base.clone();
    let mut calls = 0;
    let mut seen = (0, vec![]);
    let r = mc::guard(|| {
        m[G..G + blen].write_callback(off, n, |s| {
            calls += 1;
            seen = (s.len(), s.to_vec());
            for (i, x) in s.iter_mut().enumerate() {
                *x = !content(i + 500);
            }
        })
    });
    match r {
        Err(p) => check.fail("callback-panic", || format!("{p}\n{}", what("write_callback"))),
        Ok(r) => {
            if r.is_ok() != inside {
                check.fail("callback-bounds", || format!("{r:?} {}", what("write_callback")));
            }
            if calls != inside as usize {
                check.fail("callback-calls", || format!("callback called {calls} times, {}", what("write_callback")));
            }
            let mut want = base.clone();
            if inside {
                for i in 0..n {
                    want[G + off + i] = !content(i + 500);
                }
                if calls == 1 && (seen.0 != n || seen.1 != base[G + off..G + off + n]) {
                    check.fail("callback-slice", || format!("callback saw {} {}", hex(&seen.1), what("write_callback")));
                }
            }
            if m != want {
                check.fail("callback-data", || format!("buffer {} {}", hex(&m), what("write_callback")));
            }
        }
    }
    cov.state(mix(mix(blen as u64, off as u64), n as u64));
    cov.traces += 1;
    cov.transitions += 1;
}

fn ints<B: TpmReadBuffer + ?Sized>(check: &Check, cov: &mut Cov, b: &B, bytes: &[u8], off: usize, kind: &str) {
    let at = |n: usize| off.checked_add(n).filter(|&e| e <= bytes.len()).map(|e| &bytes[off..e]);
    let w16 = at(2).map(|s| u16::from_be_bytes([s[0], s[1]]));
    let w32 = at(4).map(|s| u32::from_be_bytes([s[0], s[1], s[2], s[3]]));
    cov.evaluations += 2;
    let r = mc::guard(|| (b.read_be_u16(off), b.read_be_u32(off), b.len(), b.is_empty()));
    match r {
        Err(p) => check.fail("int-panic", || format!("{p} ({kind}, {} bytes, offset {off:#x})", bytes.len())),
        Ok((a, c, l, e)) => {
            if a.ok() != w16 || c.ok() != w32 {
                check.fail("int-value", || format!("{kind}, {} at offset {off:#x}: {a:x?} {c:x?}, expected {w16:x?} {w32:x?}", hex(bytes)));
            }
            if l != bytes.len() || e != bytes.is_empty() {
                check.fail("len", || format!("{kind}: len {l} is_empty {e} for {} bytes", bytes.len()));
            }
        }
    }
}

pub fn run(check: &Check) {
    let maxb = check.tier(24usize, 70);
    let mut huge = vec![];
    for c in [usize::MAX, isize::MAX as usize, 1 << 32, 1 << 31, 1 << 16, 1 << 8, 1usize << 63] {
        for d in 0..=40usize {
            huge.push(c.wrapping_sub(d));
            huge.push(c.saturating_add(d));
        }
    }
    check.bound(format!("all buffers of 0..={maxb} bytes, all offsets and lengths 0..=size+4 and {} huge offsets and lengths (around 2^8, 2^16, 2^31, 2^32, 2^63, 2^64)", huge.len()));
    check.par((0..=maxb).collect(), |cov, blen| {
        for off in 0..=blen + 4 {
            for n in 0..=blen + 4 {
                one(check, cov, blen, off, n);
            }
            for &n in &huge {
                one(check, cov, blen, off, n);
            }
        }
        for &off in &huge {
            for n in 0..=blen + 4 {
                one(check, cov, blen, off, n);
            }
            for &n in huge.iter().step_by(check.tier(7, 1)) {
                one(check, cov, blen, off, n);
            }
            // lengths that wrap around into the buffer
            for d in 0..=blen + 1 {
                one(check, cov, blen, off, d.wrapping_sub(off));
            }
        }
        let all: Vec<u8> = (0..blen).map(content).collect();
        let hi: Vec<u8> = (0..blen).map(|i| 0x80 | content(i + 7)).collect();
        for b in [&all, &hi] {
            for off in (0..=blen + 5).chain(huge.iter().copied()) {
                ints(check, cov, b.as_slice(), b, off, "[u8]");
                ints(check, cov, &Min(b.to_vec()), b, off, "provided methods");
            }
        }
    });
    check.bound("buffers of every size up to 300 and around every power of two up to 2^17, offsets and lengths at the start, the end, the middle and beyond");
    let mut sizes: Vec<usize> = (maxb + 1..=300).collect();
    sizes.extend((9..=17).map(|b| 1usize << b).flat_map(|p| p - 2..=p + 2));
    check.par(sizes, |cov, blen| {
        let mut offs = vec![];
        for a in [0, 4, 8, 16, 32, 64, 128, 256, blen / 2, blen] {
            for d in 0..=2 {
                offs.push(a + d);
                offs.push(a.saturating_sub(d));
            }
        }
        offs.sort();
        offs.dedup();
        let all: Vec<u8> = (0..blen).map(content).collect();
        for &off in &offs {
            for &n in &offs {
                if blen < 600 || n <= 130 || n + 130 >= blen {
                    one(check, cov, blen, off, n);
                }
            }
            for rest in 0..=2 {
                one(check, cov, blen, off, blen.saturating_sub(off) + rest);
                one(check, cov, blen, off, blen.saturating_sub(off + rest));
            }
            ints(check, cov, all.as_slice(), &all, off, "[u8]");
            ints(check, cov, &Min(all.clone()), &all, off, "provided methods");
        }
    });
    check.bound("all 65536 values at an offset read as a 16-bit integer; byte and byte-pair sweeps of 32-bit integers");
    check.par((0..256usize).collect(), |cov, k| {
        for l in 0..256usize {
            let b = [9, k as u8, l as u8, 7, 5, 3];
            ints(check, cov, &b[..], &b, 1, "[u8]");
            let b = [9, k as u8, 1, 2, l as u8, 3];
            ints(check, cov, &b[..], &b, 1, "[u8]");
            let b = [9, 4, k as u8, l as u8, 2, 3];
            ints(check, cov, &b[..], &b, 1, "[u8]");
            let b = [9, 4, 6, k as u8, l as u8, 3];
            ints(check, cov, &b[..], &b, 1, "[u8]");
        }
        cov.traces += 1;
        cov.transitions += 256;
        cov.state(k as u64);
    });
}
