//! C15 (well-formed responses), C16 (in place = separate), C17 (random output and reseeding).
use crate::env::*;
use crate::judge::*;
use mc::{Check, Chooser, Cov, explore, hash_bytes, hex, mix};
use tpm2_impl::{ServerError, TpmContext};

fn fresh() -> TpmContext<Deps> {
    reset();
    TpmContext::new().unwrap_or_else(|_| panic!("harness: no context"))
}
fn fresh_seg() -> TpmContext<SegDeps> {
    TpmContext::new().unwrap_or_else(|_| panic!("harness: no context"))
}

fn report(check: &Check, mine: &[&str], problems: Vec<(&'static str, &'static str, String)>, what: impl Fn() -> String) {
    for (p, k, d) in problems {
        if mine.contains(&p) {
            check.fail(k, || format!("{d}\n{}", what()));
        }
    }
}

/// Executes and judges one operation on a plain context.
fn step(check: &Check, cov: &mut Cov, mine: &[&str], tpm: &mut TpmContext<Deps>, op: &Op, hist: &dyn Fn() -> String) -> Option<Ran> {
    cov.evaluations += 1;
    match run_plain(tpm, op) {
        Err(p) => {
            check.fail("panic", || format!("panic: {p}\n{}\n{}", op.show(), hist()));
            None
        }
        Ok(r) => {
            let mut v = vec![];
            judge(&r, 48, &mut v);
            if !v.is_empty() {
                report(check, mine, v, || format!("{}\nreturned {} buffer {}\n{}", op.show(), r.size, hex(&r.after), hist()));
            }
            cov.sample(if r.response().len() >= 10 && r.response()[6..10] == [0; 4] { "accepted" } else { "refused" }, || {
                format!("{} -> {}", op.show(), hex(r.response()))
            });
            Some(r)
        }
    }
}

/// Executes and judges one operation on monitored segmented buffers.
fn step_seg(check: &Check, cov: &mut Cov, mine: &[&str], tpm: &mut TpmContext<SegDeps>, op: &Op, split: usize) {
    cov.evaluations += 1;
    match run_seg(tpm, op, split) {
        Err(p) => check.fail("panic", || format!("panic: {p}\n{} (segmented buffers)", op.show())),
        Ok((r, writes)) => {
            let mut v = vec![];
            judge(&r, 48, &mut v);
            let faulty = r.env_after.log.iter().any(|e| matches!(e, Ev::Reseed { ok: false, .. } | Ev::Draw { ok: false, .. }));
            if !faulty && writes.iter().any(|w| w.1 > r.size) {
                v.push(("C15", "wrote-after-response", format!("writes {writes:?} for a response of {} bytes", r.size)));
            }
            if !v.is_empty() {
                report(check, mine, v, || format!("{} (segmented buffers, split {split}) returned {} buffer {}", op.show(), r.size, hex(&r.after)));
            }
        }
    }
}

fn size_fields(len: usize) -> Vec<u32> {
    let l = len as u32;
    let mut v = vec![l, l.wrapping_sub(1), l + 1, 0, 9, 10, 11, 12, 13, l + 0x100, l + 0x1_0000, l + 0x0100_0000, l | 0x8000_0000, l << 8, l << 16, l.swap_bytes(), u32::MAX, !l];
    let mut seen = vec![];
    v.retain(|x| {
        let n = !seen.contains(x);
        seen.push(*x);
        n
    });
    v
}

pub fn c15(check: &Check) {
    const MINE: &[&str] = &["C15"];
    let hi = check.tier(16usize, 24);
    check.bound(format!("every request length 0..={hi} x 18 size-field values x 9 command codes x 8 requested counts x 15 response sizes x 4 buffer kinds"));
    let items: Vec<usize> = (0..=hi).collect();
    check.par(items, |cov, len| {
        let sizes = size_fields(len);
        explore(cov, mix(15, len as u64), 0, |ch, cov| {
            let size = *ch.pick(&sizes);
            let ccs: &[u32] = if len < 6 { &[GET_RANDOM] } else { &[GET_RANDOM, 0x17A, 0x144, 0x0000_0000, 0x0001_017B, 0x7B01_0000, 0xFFFF_FFFF, 0x0100_017B, 0x8000_017B] };
            let cc = *ch.pick(ccs);
            let ns: &[u16] = if len < 11 { &[0] } else { &[0, 1, 2, 5, 6, 22, 64, 0xFFFF] };
            let n = *ch.pick(ns);
            let tag = *ch.pick(&[0x8001u16, 0x8002, 0x0000, 0x00C4]);
            let mut req = request(tag, size, cc, &n.to_be_bytes());
            req.extend((0..32).map(|i| 0x40 + i as u8));
            req.truncate(len);
            let rl = *ch.pick(&[0usize, 1, 9, 10, 11, 12, 15, 16, 17, 32, 33, 73, 74, 75, 200]);
            let kind = ch.choose(4);
            let mut op = Op::new(req, rl);
            if kind % 2 == 1 {
                op.mode = Mode::InPlace(len);
            }
            if kind < 2 {
                let mut t = fresh();
                step(check, cov, MINE, &mut t, &op, &String::new);
            } else {
                reset();
                let mut t = fresh_seg();
                step_seg(check, cov, MINE, &mut t, &op, 1 + (rl + len) % 13);
            }
            cov.state(hash_bytes(mix(rl as u64, kind as u64), &op.req));
            !check.failing()
        });
    });

    // command codes and size fields: complete 16-bit ranges in each half, and near misses of the real value
    check.bound("all 2^16 values of each half of the command code and of the size field, all 1-3 bit flips of both");
    let chunk = |hi: u32| (0..16u32).map(move |k| (k * 4096 + hi * 65536, k * 4096 + 4096 + hi * 65536));
    check.par(chunk(0).collect(), |cov, (from, to)| {
        let mut t = fresh();
        for v in from..to {
            for cc in [v, (v << 16) | GET_RANDOM, (v << 16) | (v & 0xff)] {
                one(check, cov, &mut t, request(0x8001, 12, cc, &[0, 3]), 40);
            }
            for s in [v, (v << 16) | 12, (v << 16) | (v & 0xff)] {
                one(check, cov, &mut t, request(0x8001, s, GET_RANDOM, &[0, 3]), 40);
                one(check, cov, &mut t, request(0x8001, s, GET_RANDOM, &[]), 40);
            }
            // the tag never matters for well-formedness
            one(check, cov, &mut t, request(v as u16, 12, GET_RANDOM, &[0, 3]), 40);
        }
    });
    let mut flips: Vec<u32> = vec![];
    for i in 0..32 {
        for j in 0..=i {
            for k in 0..=j {
                flips.push((1 << i) | (1 << j) | (1 << k));
            }
        }
    }
    check.par(vec![()], |cov, ()| {
        let mut t = fresh();
        for f in &flips {
            one(check, cov, &mut t, request(0x8001, 12, GET_RANDOM ^ f, &[0, 3]), 40);
            one(check, cov, &mut t, request(0x8001, 12 ^ f, GET_RANDOM, &[0, 3]), 40);
        }
    });
    {
        check.bound("all 2^32 command codes and all 2^32 size fields of a GetRandom request");
        check.par((0..1024u32).collect(), |cov, k| {
            let mut t = fresh();
            let mut req = request(0x8001, 12, 0, &[0, 3]);
            let mut buf = [0u8; 16];
            let mut bad = 0;
            for v in (k << 22)..=((k << 22) | 0x3F_FFFF) {
                for what in 0..2 {
                    if what == 0 {
                        req[2..6].copy_from_slice(&12u32.to_be_bytes());
                        req[6..10].copy_from_slice(&v.to_be_bytes());
                    } else {
                        req[2..6].copy_from_slice(&v.to_be_bytes());
                        req[6..10].copy_from_slice(&GET_RANDOM.to_be_bytes());
                    }
                    buf.fill(0x77);
                    env(|e| e.log.clear());
                    let n = t.execute_command_separate(&req, &mut buf);
                    let good = if (what == 0 && v == GET_RANDOM) || (what == 1 && v == 12) {
                        n == 13 && buf[..10] == [0x80, 1, 0, 0, 0, 13, 0, 0, 0, 0] && buf[13..] == [0x77; 3]
                    } else {
                        n == 10
                            && buf[..6] == [0x80, 1, 0, 0, 0, 10]
                            && be(&buf[6..10]) == if what == 0 { COMMAND_CODE } else { COMMAND_SIZE }
                            && buf[10..] == [0x77; 6]
                    };
                    if !good && bad < 3 {
                        bad += 1;
                        check.fail("sweep32", || format!("request {} -> {n} {}", hex(&req), hex(&buf)));
                    }
                }
            }
            cov.states += 2 << 22;
            cov.transitions += 2 << 22;
            cov.traces += 2 << 22;
            cov.evaluations += 2 << 22;
        });
    }

    // every requested count against every interesting buffer size
    check.bound("all 65536 requested counts x 10 response sizes around the exact fit x both modes");
    check.par((0..256u32).collect(), |cov, k| {
        let mut t = fresh();
        for n in k * 256..k * 256 + 256 {
            let n = n as u16;
            let fit = 10 + n as usize;
            for rl in [fit - 2, fit - 1, fit, fit + 1, 0, 9, 10, 12] {
                one(check, cov, &mut t, get_random(n), rl);
            }
            if n % 16 == 0 || check.thorough {
                for rl in [65545, 65546, 70000] {
                    one(check, cov, &mut t, get_random(n), rl);
                }
            }
            let mut op = Op::new(get_random(n), fit.max(12));
            op.mode = Mode::InPlace(12);
            step(check, cov, MINE, &mut t, &op, &String::new);
            cov.transitions += 1;
            cov.traces += 1;
        }
    });
    // every response buffer size
    check.bound("all response buffer sizes 0..=4200 for six requests");
    check.par((0..42usize).collect(), |cov, k| {
        let mut t = fresh();
        for rl in k * 100..=k * 100 + 100 {
            for req in [get_random(0), get_random(1), get_random(64), get_random(4086), request(0x8001, 10, 0x144, &[]), vec![0x80]] {
                one(check, cov, &mut t, req.clone(), rl);
                let mut op = Op::new(req.clone(), rl);
                op.mode = Mode::InPlace(req.len());
                step(check, cov, MINE, &mut t, &op, &String::new);
            }
        }
    });
    // all short byte strings, and all single-byte (thorough: two-byte) changes of valid requests
    check.bound(format!("all byte strings of length 0..=2 and all {} of two valid requests", check.tier("single-byte replacements", "single- and double-byte replacements")));
    check.par((0..256usize).collect(), |cov, b0| {
        let mut t = fresh();
        one(check, cov, &mut t, vec![], 40);
        one(check, cov, &mut t, vec![b0 as u8], 40);
        for b1 in 0..=255u8 {
            one(check, cov, &mut t, vec![b0 as u8, b1], 40);
        }
        for base in [get_random(5), request(0x8001, 14, GET_RANDOM, &[0, 4, 9, 9])] {
            for i in 0..base.len() {
                let mut r = base.clone();
                r[i] = b0 as u8;
                for rl in [8, 10, 14, 15, 400] {
                    one(check, cov, &mut t, r.clone(), rl);
                }
                if check.thorough {
                    for j in 0..i {
                        for b1 in 0..=255u8 {
                            let mut r2 = r.clone();
                            r2[j] = b1;
                            one(check, cov, &mut t, r2, 40);
                        }
                    }
                }
            }
        }
    });
    // in place, a claimed length that ends inside or beyond what the buffer holds
    check.bound("in place: 6 requests in buffers of 0..=24 and 64 bytes, every claimed length 0..=buffer + 2: only the claimed bytes are the request");
    check.par((0..=24usize).chain([64]).collect(), |cov, rl| {
        for req in [get_random(0), get_random(5), request(0x8001, 0, GET_RANDOM, &[0, 3]), request(0x8001, 14, GET_RANDOM, &[0, 4, 9, 9]), request(0x8001, 10, 0x144, &[]), request(0x8001, 11, GET_RANDOM, &[0, 2])] {
            for claimed in 0..=rl + 2 {
                let mut t = fresh();
                let mut op = Op::new(req.clone(), rl);
                op.mode = Mode::InPlace(claimed);
                step(check, cov, MINE, &mut t, &op, &String::new);
                cov.traces += 1;
                cov.transitions += 1;
                cov.state(hash_bytes(mix(rl as u64, 5000 + claimed as u64), &op.req));
            }
        }
    });
    // long requests
    check.bound("requests of every length 12..=4200 and around every power of two up to 2^17: right and wrong size fields, known and unknown commands, both modes");
    let mut lens: Vec<usize> = (12..=4200).collect();
    lens.extend((12..=17).map(|b| 1usize << b).flat_map(|p| p - 12..=p + 12));
    lens.sort();
    lens.dedup();
    check.par(lens, |cov, n| {
        let mut t = fresh();
        for cc in [GET_RANDOM, 0x144] {
            for size in [n as u32, n as u32 - 1, n as u32 + 1, n as u32 ^ 0x10000, n as u32 & 0xFFF, 12, 10] {
                let mut req = request(0x8001, size, cc, &[0, 5]);
                req.extend((12..n).map(|i| (mix(3, i as u64) >> 5) as u8));
                for rl in [9, 14, 15, 64] {
                    one(check, cov, &mut t, req.clone(), rl);
                }
                let mut op = Op::new(req, n + 3);
                op.mode = Mode::InPlace(n);
                step(check, cov, MINE, &mut t, &op, &String::new);
            }
        }
    });
    histories(check, MINE);
    pumped(check, MINE);
}

fn be(b: &[u8]) -> u32 {
    u32::from_be_bytes([b[0], b[1], b[2], b[3]])
}

fn one(check: &Check, cov: &mut Cov, t: &mut TpmContext<Deps>, req: Vec<u8>, rl: usize) {
    let op = Op::new(req, rl);
    step(check, cov, &["C15"], t, &op, &String::new);
    cov.traces += 1;
    cov.transitions += 1;
    cov.state(hash_bytes(rl as u64, &op.req));
}

/// The alphabet of history exploration.
fn alphabet() -> Vec<Op> {
    let mut v = vec![];
    for n in [0u16, 1, 5, 8, 48] {
        v.push(Op::new(get_random(n), 10 + n as usize));
    }
    v.push(Op::new(get_random(7), 64));
    let mut ip = Op::new(get_random(9), 32);
    ip.mode = Mode::InPlace(12);
    v.push(ip.clone());
    ip.demand = true;
    v.push(ip.clone());
    ip.resp_len = 18; // does not fit, in place
    v.push(ip);
    // demands and faults
    for (n, demand, fr, fo) in [
        (6u16, true, false, None),
        (33, true, false, None),
        (6, true, true, None),
        (6, false, true, None),
        (6, false, false, Some(0)),
        (16, false, false, Some(4)),
        (16, false, false, Some(8)),
        (16, true, false, Some(4)),
        (16, true, true, Some(4)),
    ] {
        let mut op = Op::new(get_random(n), 80);
        op.demand = demand;
        op.fail_reseed = fr;
        op.fail_output = fo;
        v.push(op);
    }
    // refused requests, each also while a reseed is demanded
    for demand in [false, true] {
        for (req, rl) in [
            (get_random(6), 15),
            (get_random(0xFFFF), 4096),
            (get_random(6), 5),
            (request(0x8001, 12, 0x17C, &[0, 6]), 64),
            (request(0x8001, 13, GET_RANDOM, &[0, 6]), 64),
            (request(0x8001, 10, GET_RANDOM, &[]), 64),
            (request(0x8001, 11, GET_RANDOM, &[0]), 64),
            (vec![0x80, 0x01, 0, 0], 64),
            (vec![], 64),
        ] {
            let mut op = Op::new(req, rl);
            op.demand = demand;
            v.push(op);
        }
    }
    let mut z = Op::new(get_random(0), 30);
    z.demand = true;
    v.push(z);
    v
}

/// All histories of the alphabet up to a depth; the context is rebuilt for each history.
fn histories(check: &Check, mine: &[&str]) {
    let ops = alphabet();
    let depth = check.tier(4usize, 5);
    check.bound(format!("all histories of up to {depth} of {} operations (with reseed demands, reseed failures, output failures), with and without a generator that demands reseeding after every output", ops.len()));
    check.bound(format!("histories one shorter with 5 degenerate contents of the generator's stream and the entropy (zeros, ones, period 4, counting, bits)"));
    let mut items: Vec<(usize, bool, u8)> = (0..ops.len()).flat_map(|i| [(i, false, 0), (i, true, 0)]).collect();
    items.extend((0..ops.len()).flat_map(|i| (1..FLAVORS).flat_map(move |k| [(i, false, k), (i, true, k)])));
    check.par(items, |cov, (first, always, flavor)| {
        let depth = if flavor == 0 { depth } else { depth - 1 };
        with_flavor(flavor, || explore(cov, mix(17, (first * 2 + always as usize) as u64 + 1000 * flavor as u64), 0, |ch, cov| {
            let mut t = fresh();
            env(|e| e.demand_after_output = always);
            let mut hist = vec![first];
            for d in 0..depth {
                let i = if d == 0 { first } else { ch.choose(ops.len()) };
                if d > 0 {
                    hist.push(i);
                }
                let h = || format!("history (alphabet indices): {hist:?}, demanding after every output: {always}, contents {flavor}");
                if step(check, cov, mine, &mut t, &ops[i], &h).is_none() {
                    break;
                }
                let (p, e, dm) = env(|e| (e.pos, e.entropy_pos, e.demand));
                cov.state(mix(mix(p, e), dm as u64 + 2 * always as u64 + 4 * flavor as u64));
            }
            !check.failing()
        }));
    });
}

fn startup<const E: usize, const N: usize>(check: &Check, cov: &mut Cov) {
    for fail in [false, true] {
        reset();
        env(|e| e.fail_instantiate = fail);
        let r = mc::guard(TpmContext::<Plain<E, N>>::new);
        cov.evaluations += 1;
        cov.traces += 1;
        cov.transitions += 1;
        cov.state(mix(mix(E as u64, N as u64), fail as u64));
        let e = env(|e| e.clone());
        let inst: Vec<&Ev> = e.log.iter().filter(|e| matches!(e, Ev::Instantiate { .. })).collect();
        let want = Ev::Instantiate {
            entropy: (0..E as u64).map(entropy_byte).collect(),
            nonce: (E as u64..(E + N) as u64).map(entropy_byte).collect(),
        };
        match &r {
            Err(p) => check.fail("startup-panic", || p.clone()),
            Ok(Ok(_)) if fail => check.fail("startup-failure-hidden", || "a context was returned although instantiation failed".into()),
            Ok(Err(ServerError::DrbgError)) if !fail => check.fail("startup-refused", || "instantiation failed without a fault".into()),
            _ => {}
        }
        if inst != [&want] || e.entropy_pos != (E + N) as u64 {
            check.fail("startup-seeding", || format!("entropy {E}, nonce {N}: generator saw {inst:?}, {} entropy bytes drawn", e.entropy_pos));
        }
        let Ok(Ok(mut t)) = r else { continue };
        if e.log.iter().any(|e| matches!(e, Ev::Draw { .. } | Ev::Reseed { .. })) {
            check.fail("startup-output", || format!("{:?}", e.log));
        }
        // reseeding uses this generator's entropy size
        for (n, demand) in [(4u16, false), (9, true), (64, false), (1, true), (2, true)] {
            let mut op = Op::new(get_random(n), 80);
            op.demand = demand;
            cov.evaluations += 1;
            match run_plain(&mut t, &op) {
                Err(p) => check.fail("panic", || p),
                Ok(r) => {
                    let mut v = vec![];
                    judge(&r, E, &mut v);
                    report(check, &["C17"], v, || format!("entropy size {E}: {}", op.show()));
                }
            }
        }
    }
}

pub fn c17(check: &Check) {
    check.bound("start-up for 9 combinations of entropy and nonce sizes x 6 contents of the entropy with and without instantiation failure");
    check.run(|cov| {
        for k in 0..FLAVORS {
            with_flavor(k, || {
                startup::<48, 24>(check, cov);
                startup::<32, 16>(check, cov);
                startup::<1, 1>(check, cov);
                startup::<0, 0>(check, cov);
                startup::<64, 0>(check, cov);
                startup::<0, 7>(check, cov);
                startup::<33, 65>(check, cov);
                startup::<256, 128>(check, cov);
                startup::<16, 16>(check, cov);
            });
        }
    });
    check.bound("counts 0..=600 twice in one history with 5 degenerate contents of the stream and the entropy");
    check.par((1..FLAVORS).collect(), |cov, k| {
        with_flavor(k, || {
            let mut t = fresh();
            for i in 0..=1201u32 {
                let n = i / 2;
                let mut op = Op::new(get_random(n as u16), (10 + n as usize).max(12));
                op.demand = i % 3 == 0;
                step(check, cov, &["C17"], &mut t, &op, &|| format!("contents {k}"));
                cov.traces += 1;
                cov.transitions += 1;
                cov.state(mix(n as u64, 990 + k as u64));
            }
        });
    });
    histories(check, &["C17"]);
    // all requested counts, drawn one after the other from one generator
    check.bound("all 65536 requested counts in one history, both modes, with a reseed demanded before every third");
    check.par((0..64u32).collect(), |cov, k| {
        let mut t = fresh();
        for n in k * 1024..k * 1024 + 1024 {
            let mut op = Op::new(get_random(n as u16), (10 + n as usize).max(12));
            op.demand = n % 3 == 0;
            if n % 2 == 1 {
                op.mode = Mode::InPlace(12);
            }
            step(check, cov, &["C17"], &mut t, &op, &String::new);
            cov.traces += 1;
            cov.transitions += 1;
            cov.state(mix(n as u64, 99));
        }
    });
    pumped(check, &["C17"]);
}

/// Pumped histories: one pattern of operations repeated for a long time.
fn pumped(check: &Check, mine: &[&str]) {
    let reps = check.tier(20_000usize, 200_000);
    check.bound(format!("pairs of the alphabet's operations alternating {reps} times (history-dependent counters)"));
    let ops = alphabet();
    let light: Vec<usize> = (0..ops.len()).filter(|&i| ops[i].resp_len <= 80).collect();
    let mut pairs: Vec<(usize, usize, usize)> = if check.thorough {
        light.iter().flat_map(|&a| light.iter().map(move |&b| (a, b, reps))).collect()
    } else {
        light.iter().flat_map(|&a| [(a, a, reps), (a, light[2], reps), (9usize, a, reps)]).collect()
    };
    pairs.push((1, 1, 140_000));
    check.par(pairs, |cov, (a, b, reps)| {
        let mut t = fresh();
        for i in 0..reps {
            let op = &ops[if i % 2 == 0 { a } else { b }];
            let h = || format!("operations {a},{b} alternating, repetition {i}");
            if step(check, cov, mine, &mut t, op, &h).is_none() || check.failing() {
                break;
            }
        }
        cov.traces += 1;
        cov.transitions += reps as u64;
        cov.state(mix(mix(a as u64, b as u64), 5));
    });
}

/// Runs the same operation in both modes on twin contexts and compares.
fn twins(check: &Check, cov: &mut Cov, seq: &[(Vec<u8>, usize, usize, bool, bool, Option<u8>)]) {
    reset();
    let mut sep: TpmContext<Deps> = TpmContext::new().unwrap();
    let mut env_sep = env(|e| e.clone());
    reset();
    let mut inp: TpmContext<Deps> = TpmContext::new().unwrap();
    let mut env_inp = env(|e| e.clone());
    for (k, (content, buf_len, claimed, demand, fr, fo)) in seq.iter().enumerate() {
        // the in-place buffer: content, then canaries
        let mut buf: Vec<u8> = (0..*buf_len).map(canary).collect();
        let n = content.len().min(*buf_len);
        buf[..n].copy_from_slice(&content[..n]);
        let req = buf[..(*claimed).min(*buf_len)].to_vec();

        let mut o = Op::new(req, *buf_len);
        o.demand = *demand;
        o.fail_reseed = *fr;
        o.fail_output = *fo;
        env(|e| *e = env_sep.clone());
        let a = run_plain(&mut sep, &o);
        env_sep = env(|e| e.clone());

        let mut p = o.clone();
        p.req = buf;
        p.mode = Mode::InPlace(*claimed);
        env(|e| *e = env_inp.clone());
        let b = run_plain(&mut inp, &p);
        env_inp = env(|e| e.clone());
        cov.evaluations += 2;
        let what = || format!("step {k} of {:?}{}\nseparate: {}\nin place: {}", &seq[k.saturating_sub(6)..=k], if k > 6 { " (the last ones)" } else { "" }, o.show(), p.show());
        let (a, b) = match (a, b) {
            (Ok(a), Ok(b)) => (a, b),
            (Err(_), Err(_)) => return, // panics are C15's business
            (a, b) => {
                check.fail("panic", || format!("separate {:?} in place {:?}\n{}", a.err(), b.err(), what()));
                return;
            }
        };
        if a.size != b.size || a.response() != b.response() {
            check.fail("different-response", || {
                format!("separate {} {}\nin place {} {}\n{}", a.size, hex(a.response()), b.size, hex(b.response()), what())
            });
        }
        let (x, y) = (&a.env_after, &b.env_after);
        if (x.pos, x.entropy_pos, x.demand) != (y.pos, y.entropy_pos, y.demand) {
            check.fail("different-generator-state", || {
                format!("separate {:?} in place {:?}\n{}", (x.pos, x.entropy_pos, x.demand), (y.pos, y.entropy_pos, y.demand), what())
            });
        }
        let ok = b.response().len() >= 10 && b.response()[6..10] == [0; 4];
        if ok && b.after[b.size..] != b.before[b.size..] {
            check.fail("wrote-after-response", || format!("in-place buffer {} after a response of {}\n{}", hex(&b.after), b.size, what()));
        }
        cov.state(hash_bytes(mix(*buf_len as u64, *claimed as u64), content));
    }
}

pub fn c16(check: &Check) {
    let maxb = check.tier(96usize, 160);
    let contents: Vec<Vec<u8>> = vec![
        get_random(0),
        get_random(1),
        get_random(2),
        get_random(5),
        get_random(12),
        get_random(22),
        get_random(64),
        get_random(0x8001),
        // a valid request inside a longer one and requests whose missing parameter lies behind them
        request(0x8001, 10, GET_RANDOM, &[0, 6, 1, 2, 3]),
        request(0x8001, 11, GET_RANDOM, &[0, 6, 1, 2, 3]),
        request(0x8001, 14, GET_RANDOM, &[0, 6, 1, 2, 3]),
        request(0x8001, 13, GET_RANDOM, &[0, 6, 1, 2, 3]),
        request(0x8001, 6, GET_RANDOM, &[0, 6]),
        request(0x8001, 2, GET_RANDOM, &[0, 6]),
        request(0x8001, 9, GET_RANDOM, &[0, 6]),
        request(0x8001, 0, GET_RANDOM, &[0, 6]),
        request(0x8001, 10, 0x144, &[0, 6]),
        request(0x8002, 12, GET_RANDOM, &[0, 6]),
        request(0x8002, 27, GET_RANDOM, &[0, 0, 0, 9, 0x40, 0, 0, 9, 0, 0, 0, 0, 0, 0, 6]),
        vec![],
    ];
    check.bound(format!("{} buffer contents x buffer sizes 0..={maxb} x every claimed length 0..=size+3 plus 6 huge ones x 4 generator conditions", contents.len()));
    let items: Vec<(usize, usize)> = (0..contents.len()).flat_map(|c| (0..=maxb).map(move |b| (c, b))).collect();
    check.par(items, |cov, (c, bl)| {
        let mut claims: Vec<usize> = (0..=bl + 3).collect();
        claims.extend([bl + 256, 65536 + 12, 1 << 32, isize::MAX as usize, usize::MAX - 1, usize::MAX]);
        let conds = [(false, false, None), (true, false, None), (true, true, None), (false, false, Some(3u8))];
        explore(cov, mix(16, (c * 1000 + bl) as u64), 0, |ch, cov| {
            let cl = *ch.pick(&claims);
            let (d, fr, fo) = *ch.pick(&conds);
            // followed by a plain request on both contexts
            twins(check, cov, &[(contents[c].clone(), bl, cl, d, fr, fo), (get_random(4), 20, 12, false, false, None)]);
            !check.failing()
        });
    });
    check.bound("all 65536 requested counts in place and separate, exact fit, one short and one spare");
    check.par((0..256u32).collect(), |cov, k| {
        for n in k * 256..k * 256 + 256 {
            let fit = 10 + n as usize;
            for bl in [fit, fit - 1, fit + 1] {
                twins(check, cov, &[(get_random(n as u16), bl.max(12), 12, n % 5 == 0, false, None)]);
            }
            cov.traces += 3;
            cov.transitions += 3;
        }
    });
    // large buffers
    check.bound("buffers of 13 sizes between 64 and 131100 bytes x 12 claimed lengths x long and short requests of 3 commands with right and wrong size fields");
    let items: Vec<(usize, usize)> = [64, 100, 255, 256, 257, 1000, 1024, 4095, 4096, 4097, 65535, 65546, 131100].iter().flat_map(|&b| (0..12usize).map(move |c| (b, c))).collect();
    check.par(items, |cov, (bl, c)| {
        let claimed = [12usize, 13, 20, 63, 64, bl / 2, bl - 1, bl, bl + 1, bl + 65536, 65548, 4096][c];
        let real = claimed.min(bl);
        for size in [real as u32, 12, bl as u32, real as u32 ^ 0x10000, real as u32 + 1] {
            for (cc, n) in [(GET_RANDOM, 5u16), (GET_RANDOM, 40), (GET_RANDOM, (bl - 10).min(65535) as u16), (0x144, 5)] {
                let mut content = request(0x8001, size, cc, &n.to_be_bytes());
                content.extend((12..bl).map(|i| (mix(4, i as u64) >> 5) as u8));
                twins(check, cov, &[(content, bl, claimed, n == 40, false, None), (get_random(4), 20, 12, false, false, None)]);
                cov.traces += 1;
                cov.transitions += 2;
            }
        }
    });
    // histories
    let depth = check.tier(5, 6);
    let alpha: Vec<(Vec<u8>, usize, usize, bool, bool, Option<u8>)> = vec![
        (get_random(5), 15, 12, false, false, None),
        (get_random(5), 14, 12, false, false, None),
        (get_random(1), 12, 12, true, false, None),
        (get_random(30), 64, 12, true, true, None),
        (get_random(30), 64, 12, false, false, Some(5)),
        (get_random(30), 64, 99, false, false, None),
        (get_random(30), 64, 11, true, false, None),
        (request(0x8001, 10, GET_RANDOM, &[0, 6]), 40, 10, false, false, None),
        (request(0x8001, 10, 0x144, &[]), 40, 10, true, false, None),
        (get_random(0), 12, 12, false, false, None),
        (get_random(3), 9, 12, false, false, None),
    ];
    check.bound(format!("all histories of {depth} of {} operations x 6 contents of the generator's stream and the entropy, twin contexts", alpha.len()));
    check.par((0..alpha.len() * FLAVORS as usize).collect(), |cov, item| {
        let (first, flavor) = (item % alpha.len(), (item / alpha.len()) as u8);
        with_flavor(flavor, || explore(cov, mix(161, item as u64), 0, |ch: &mut Chooser, cov| {
            let mut seq = vec![alpha[first].clone()];
            for _ in 1..depth {
                seq.push(alpha[ch.choose(alpha.len())].clone());
            }
            twins(check, cov, &seq);
            !check.failing()
        }));
    });
    check.bound(format!("every pair of the {} operations alternating 600 times, and two of them 70000 times, twin contexts", alpha.len()));
    let mut pairs: Vec<(usize, usize, usize)> = (0..alpha.len()).flat_map(|a| (0..alpha.len()).map(move |b| (a, b, 600))).collect();
    pairs.push((0, 0, 70_000));
    pairs.push((5, 2, 70_000));
    check.par(pairs, |cov, (a, b, n)| {
        let seq: Vec<_> = (0..n).map(|i| alpha[if i % 2 == 0 { a } else { b }].clone()).collect();
        twins(check, cov, &seq);
        cov.traces += 1;
        cov.transitions += n as u64;
    });
}
