//! Reference model of command processing and the judge of one executed request.
use crate::env::*;
use mc::hex;
use tpm2_impl::TpmContext;
use tpm2_impl::platform::TpmContextDeps;

pub const GET_RANDOM: u32 = 0x17B;
pub const COMMAND_SIZE: u32 = 0x142;
pub const COMMAND_CODE: u32 = 0x143;
pub const MEMORY: u32 = 0x904;
pub const FAILURE: u32 = 0x101;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    Separate,
    /// Claimed request length.
    InPlace(usize),
}

#[derive(Clone, Debug)]
pub struct Op {
    pub req: Vec<u8>,
    pub resp_len: usize,
    pub mode: Mode,
    pub demand: bool,
    pub fail_reseed: bool,
    pub fail_output: Option<u8>,
}
impl Op {
    pub fn new(req: Vec<u8>, resp_len: usize) -> Op {
        Op { req, resp_len, mode: Mode::Separate, demand: false, fail_reseed: false, fail_output: None }
    }
    pub fn show(&self) -> String {
        format!(
            "request={} response buffer={} bytes mode={:?} demand_reseed={} reseed_fails={} output_fails={:?}",
            hex(&self.req),
            self.resp_len,
            self.mode,
            self.demand,
            self.fail_reseed,
            self.fail_output
        )
    }
}

pub fn request(tag: u16, size: u32, cc: u32, rest: &[u8]) -> Vec<u8> {
    let mut v = tag.to_be_bytes().to_vec();
    v.extend_from_slice(&size.to_be_bytes());
    v.extend_from_slice(&cc.to_be_bytes());
    v.extend_from_slice(rest);
    v
}
pub fn get_random(n: u16) -> Vec<u8> {
    request(0x8001, 12, GET_RANDOM, &n.to_be_bytes())
}
fn be32(b: &[u8]) -> u32 {
    u32::from_be_bytes([b[0], b[1], b[2], b[3]])
}

/// What the specification requires of a request, apart from generator faults.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Spec {
    Refuse(u32),
    Random(usize),
}
/// (requirement, whether another refusal is equally acceptable: sessions and surplus bytes are not claimed)
pub fn spec(req: &[u8], resp_len: usize) -> (Spec, bool) {
    if req.len() < 10 || be32(&req[2..]) as usize != req.len() {
        return (Spec::Refuse(COMMAND_SIZE), false);
    }
    let lenient = req[..2] != [0x80, 0x01];
    if be32(&req[6..]) != GET_RANDOM {
        return (Spec::Refuse(COMMAND_CODE), lenient);
    }
    if req.len() < 12 {
        return (Spec::Refuse(COMMAND_SIZE), lenient);
    }
    let lenient = lenient || req.len() > 12;
    let n = u16::from_be_bytes([req[10], req[11]]) as usize;
    if 10 + n > resp_len {
        return (Spec::Refuse(MEMORY), lenient);
    }
    (Spec::Random(n), lenient)
}

pub fn canary(i: usize) -> u8 {
    (i as u8).wrapping_mul(7) ^ 0xA5
}

pub struct Ran {
    pub size: usize,
    pub before: Vec<u8>,
    pub after: Vec<u8>,
    pub env_before: Env,
    pub env_after: Env,
    /// The bytes the request consists of.
    pub effective: Vec<u8>,
}
impl Ran {
    /// The response as returned (empty when the reported size is impossible).
    pub fn response(&self) -> &[u8] {
        self.after.get(..self.size).unwrap_or(&[])
    }
}

pub fn prepare_env(op: &Op) -> Env {
    env(|e| {
        e.demand |= op.demand;
        e.fail_reseed = op.fail_reseed;
        e.fail_output = op.fail_output;
        e.log.clear();
        e.clone()
    })
}

/// Executes one request on plain byte buffers.
pub fn run_plain<D>(tpm: &mut TpmContext<D>, op: &Op) -> Result<Ran, String>
where
    D: TpmContextDeps<Request = [u8], Response = [u8]>,
{
    let mut buf: Vec<u8> = (0..op.resp_len).map(canary).collect();
    let env_before = prepare_env(op);
    let (before, size, effective);
    match op.mode {
        Mode::Separate => {
            before = buf.clone();
            effective = op.req.clone();
            size = mc::guard(|| tpm.execute_command_separate(&op.req, &mut buf))?;
        }
        Mode::InPlace(len) => {
            let n = op.req.len().min(buf.len());
            buf[..n].copy_from_slice(&op.req[..n]);
            before = buf.clone();
            effective = buf[..len.min(buf.len())].to_vec();
            size = mc::guard(|| tpm.execute_command_in_place(&mut buf, len))?;
        }
    }
    Ok(Ran { size, before, after: buf, env_before, env_after: env(|e| e.clone()), effective })
}

/// Executes one request on segmented, monitored buffers (split at `split`).
pub fn run_seg(tpm: &mut TpmContext<SegDeps>, op: &Op, split: usize) -> Result<(Ran, Vec<(usize, usize)>), String> {
    let mut init: Vec<u8> = (0..op.resp_len).map(canary).collect();
    let env_before = prepare_env(op);
    let (before, size, effective, seg);
    match op.mode {
        Mode::Separate => {
            let mut r = Seg::new(&init, split);
            let q = Seg::new(&op.req, split);
            before = init.clone();
            effective = op.req.clone();
            size = mc::guard(|| tpm.execute_command_separate(&q, &mut r))?;
            seg = r;
        }
        Mode::InPlace(len) => {
            let n = op.req.len().min(init.len());
            init[..n].copy_from_slice(&op.req[..n]);
            before = init.clone();
            effective = init[..len.min(init.len())].to_vec();
            let mut r = Seg::new(&init, split);
            size = mc::guard(|| tpm.execute_command_in_place(&mut r, len))?;
            seg = r;
        }
    }
    let after = seg.bytes();
    Ok((Ran { size, before, after, env_before, env_after: env(|e| e.clone()), effective }, seg.writes))
}

/// Judges one executed request; each problem is (property, key, detail).
pub fn judge(r: &Ran, entropy_len: usize, out: &mut Vec<(&'static str, &'static str, String)>) {
    let resp_len = r.after.len();
    let (sp, lenient) = spec(&r.effective, resp_len);
    let gen_failed = r.env_after.log.iter().any(|e| matches!(e, Ev::Reseed { ok: false, .. } | Ev::Draw { ok: false, .. }));
    let mut bad = |p: &'static str, k: &'static str, d: String| out.push((p, k, d));

    // ---- shape of the response
    if r.size > resp_len {
        bad("C15", "size-beyond-buffer", format!("returned {} for a buffer of {resp_len}", r.size));
        return;
    }
    if r.size == 0 {
        if resp_len >= 10 {
            bad("C15", "no-response", "zero returned although a response fits".into());
        }
        if r.after != r.before {
            bad("C15", "touched-without-response", format!("buffer changed to {}", hex(&r.after)));
        }
    } else if r.size < 10 {
        bad("C15", "short-response", format!("{} bytes returned: {}", r.size, hex(r.response())));
        return;
    }
    if r.after[r.size..] != r.before[r.size..] && !gen_failed {
        bad("C15", "wrote-after-response", format!("buffer after the {} response bytes changed: {}", r.size, hex(&r.after)));
    }
    let rsp = r.response();
    let code = if rsp.is_empty() { None } else { Some(be32(&rsp[6..])) };
    if let Some(code) = code {
        if rsp[..2] != [0x80, 0x01] || be32(&rsp[2..]) as usize != r.size {
            bad("C15", "bad-header", format!("response {}", hex(rsp)));
        }
        if code != 0 && r.size != 10 {
            bad("C15", "error-with-body", format!("response {}", hex(rsp)));
        }
    }

    // ---- outcome
    let b = &r.env_before;
    let a = &r.env_after;
    let idle = a.log.is_empty() && a.pos == b.pos && a.entropy_pos == b.entropy_pos;
    match sp {
        Spec::Refuse(want) => {
            match code {
                None => {}
                Some(0) => bad("C15", "accepted", format!("expected refusal with {want:#x}, got success {}", hex(rsp))),
                Some(c) if c != want && !lenient => {
                    bad("C15", "wrong-code", format!("expected refusal with {want:#x}, got {c:#x}"))
                }
                _ => {}
            }
            if !idle {
                bad("C17", "refused-used-generator", format!("a refused request interacted with the generator: {:?}", a.log));
            }
        }
        Spec::Random(n) => {
            let must_reseed = b.demand && n > 0;
            let fault = (n > 0 && b.fail_output.is_some()) || (must_reseed && b.fail_reseed);
            let n_fault = n == 0 && (b.fail_output.is_some() || (b.demand && b.fail_reseed));
            match code {
                Some(0) => {
                    if fault {
                        bad("C15", "failure-hidden", "success although the generator failed".into());
                    } else if r.size != 10 + n {
                        bad("C15", "wrong-output-length", format!("{} bytes for a request of {n} random bytes", r.size));
                    }
                    let at = (b.pos % TABLE as u64) as usize;
                    if rsp.len() == 10 + n && !fault && rsp[10..] != stream()[at..at + n] {
                        bad("C17", "wrong-output", format!(
                            "output {} instead of the generator's next bytes {} (stream position {})",
                            hex(&rsp[10..]), hex(&stream()[at..at + n]), b.pos));
                    }
                }
                Some(c) => {
                    if fault || n_fault {
                        if c != FAILURE {
                            bad("C15", "wrong-code", format!("generator failed, expected {FAILURE:#x}, got {c:#x}"));
                        }
                    } else if !lenient {
                        bad("C15", "refused", format!("expected success with {n} bytes, got code {c:#x}"));
                    }
                }
                None => {}
            }
            // ---- the generator's view
            let mut pos = b.pos;
            let mut epos = b.entropy_pos;
            let mut reseeds = 0;
            let mut failed = false;
            let mut demand = b.demand;
            for e in &a.log {
                match e {
                    Ev::EntropyInstantiate | Ev::Instantiate { .. } => {
                        bad("C17", "reinstantiated", format!("{:?}", a.log));
                    }
                    Ev::Reseed { entropy, ok, .. } => {
                        reseeds += 1;
                        let fresh: Vec<u8> = (epos..epos + entropy_len as u64).map(entropy_byte).collect();
                        if *entropy != fresh {
                            bad("C17", "stale-entropy", format!("reseeded with {} instead of the fresh {}", hex(entropy), hex(&fresh)));
                        }
                        epos += entropy_len as u64;
                        if !demand {
                            bad("C17", "reseed-not-demanded", format!("{:?}", a.log));
                        }
                        if *ok {
                            demand = false;
                        } else {
                            failed = true;
                        }
                    }
                    Ev::Draw { from, len, ok, demanded } => {
                        if *demanded && *len > 0 {
                            bad("C17", "output-without-reseed", format!("{:?}", a.log));
                        }
                        if failed {
                            bad("C17", "output-after-failure", format!("{:?}", a.log));
                        }
                        if *from != pos {
                            bad("C17", "stream-gap", format!("{:?}", a.log));
                        }
                        if *ok || !*demanded {
                            pos = from + len;
                        }
                        if !*ok {
                            failed = true;
                        }
                    }
                }
            }
            if a.entropy_pos != epos {
                bad("C17", "entropy-wasted", format!("entropy drawn {} bytes, used {}", a.entropy_pos - b.entropy_pos, epos - b.entropy_pos));
            }
            if code == Some(0) {
                if a.pos != b.pos + n as u64 {
                    bad("C17", "consumption", format!("{} bytes returned, {} consumed", n, a.pos - b.pos));
                }
                if must_reseed && reseeds != 1 {
                    bad("C17", "reseed-count", format!("{reseeds} reseeds although one was demanded"));
                }
            } else if code.is_some_and(|c| c != FAILURE) && !idle {
                bad("C17", "refused-used-generator", format!("{:?}", a.log));
            }
        }
    }
}
