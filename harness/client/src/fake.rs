//! The client's environment: a scripted connection, scripted sessions, and commands of every shape.
use std::cell::RefCell;
use tpm2_client::connection::Connection;
use tpm2_client::sessions::Session;
use tpm2_rs_base::commands::TpmCommand;
use tpm2_rs_base::constants::TpmCc;
use tpm2_rs_base::errors::{TssError, TssResult};
use tpm2_rs_base::marshal::{self, Marshalable, UnmarshalBuf};
use tpm2_rs_base::{Tpm2bAuth, Tpm2bNonce, Tpm2bSimple, TpmaSession, TpmiShAuthSession, TpmsAuthCommand, TpmsAuthResponse};

/// The connection's error type: a TPM/TSS error, or a failure of the wire itself.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum WireError {
    Tss(u32),
    Wire(u32),
}
impl std::fmt::Display for WireError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for WireError {}
impl From<TssError> for WireError {
    fn from(e: TssError) -> Self {
        WireError::Tss(e.get())
    }
}

/// Where the answered bytes lie.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Place {
    /// Start of the offered buffer, the rest of it filled with `trail` repeated.
    Start,
    /// At an offset inside the offered buffer.
    At(usize),
    /// In memory of the connection's own.
    Own,
}

pub struct Wire {
    pub sent: Vec<Vec<u8>>,
    pub answer: Result<Vec<u8>, u32>,
    pub place: Place,
    /// Bytes that follow the answer in the buffer without having been received.
    pub trail: Vec<u8>,
}
impl Wire {
    pub fn new(answer: Result<Vec<u8>, u32>) -> Wire {
        Wire { sent: vec![], answer, place: Place::Start, trail: vec![] }
    }
}
impl Connection for Wire {
    type Error = WireError;
    fn transact<'a>(&mut self, cmd: &[u8], rsp: &'a mut [u8]) -> Result<&'a mut [u8], WireError> {
        self.sent.push(cmd.to_vec());
        let a = match &self.answer {
            Err(e) => return Err(WireError::Wire(*e)),
            Ok(a) => a,
        };
        let at = match self.place {
            Place::Start => 0,
            Place::At(o) => o,
            Place::Own => return Ok(Box::leak(a.clone().into_boxed_slice())),
        };
        if at + a.len() > rsp.len() {
            return Ok(Box::leak(a.clone().into_boxed_slice()));
        }
        rsp[at..at + a.len()].copy_from_slice(a);
        let end = at + a.len();
        for (i, t) in self.trail.iter().enumerate() {
            if end + i < rsp.len() {
                rsp[end + i] = *t;
            }
        }
        Ok(&mut rsp[at..end])
    }
}

thread_local! {
    pub static SEEN: RefCell<Vec<(u8, TpmsAuthResponse)>> = const { RefCell::new(vec![]) };
}
/// A session with scripted authorization and verdict; `id` identifies it in the log.
#[derive(Clone)]
pub struct Scripted {
    pub id: u8,
    pub auth: TpmsAuthCommand,
    pub reject: Option<u32>,
}
impl Session for Scripted {
    fn get_auth_command(&self) -> TpmsAuthCommand {
        self.auth
    }
    fn validate_auth_response(&self, a: &TpmsAuthResponse) -> TssResult<()> {
        SEEN.with(|s| s.borrow_mut().push((self.id, *a)));
        match self.reject {
            None => Ok(()),
            Some(c) => Err(TssError::try_from(c).unwrap_or_else(|_| panic!("harness: zero code"))),
        }
    }
}
pub fn bytes(n: usize, salt: u64) -> Vec<u8> {
    (0..n as u64).map(|i| (mc::mix(salt, i) >> 17) as u8).collect()
}
/// A scripted session and the encoding of its authorization.
pub fn session(id: u8, handle: u32, nonce: usize, attr: u8, hmac: usize, reject: Option<u32>) -> (Scripted, Vec<u8>) {
    let n = bytes(nonce, id as u64 + 40);
    let h = bytes(hmac, id as u64 + 80);
    let auth = TpmsAuthCommand {
        session_handle: TpmiShAuthSession::try_from(handle).unwrap_or_else(|_| panic!("harness: handle")),
        nonce: Tpm2bNonce::from_bytes(&n).unwrap_or_else(|_| panic!("harness: nonce")),
        session_attributes: TpmaSession(attr),
        hmac: Tpm2bAuth::from_bytes(&h).unwrap_or_else(|_| panic!("harness: hmac")),
    };
    let mut e = handle.to_be_bytes().to_vec();
    e.extend((nonce as u16).to_be_bytes());
    e.extend(&n);
    e.push(attr);
    e.extend((hmac as u16).to_be_bytes());
    e.extend(&h);
    (Scripted { id, auth, reject }, e)
}
/// The encoding of an authorization response.
pub fn auth_resp(nonce: &[u8], attr: u8, hmac: &[u8]) -> Vec<u8> {
    let mut e = (nonce.len() as u16).to_be_bytes().to_vec();
    e.extend(nonce);
    e.push(attr);
    e.extend((hmac.len() as u16).to_be_bytes());
    e.extend(hmac);
    e
}

/// A byte string of any length as command parameters or handles.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Raw(pub Vec<u8>);
impl Marshalable for Raw {
    fn try_unmarshal(_: &mut UnmarshalBuf) -> marshal::Result<Self> {
        Ok(Raw(vec![]))
    }
    fn try_marshal(&self, buffer: &mut [u8]) -> marshal::Result<usize> {
        match buffer.get_mut(..self.0.len()) {
            Some(b) => {
                b.copy_from_slice(&self.0);
                Ok(self.0.len())
            }
            None => Err(marshal::Error::UnexpectedEndOfBuffer),
        }
    }
}
/// `N` bytes of response, decoded by this harness.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Fixed<const N: usize>(pub [u8; N]);
impl<const N: usize> Marshalable for Fixed<N> {
    fn try_unmarshal(b: &mut UnmarshalBuf) -> marshal::Result<Self> {
        let s = b.get(N).ok_or(marshal::Error::UnexpectedEndOfBuffer)?;
        Ok(Fixed(s.try_into().unwrap_or_else(|_| panic!("harness: slice of the wrong length"))))
    }
    fn try_marshal(&self, _: &mut [u8]) -> marshal::Result<usize> {
        Ok(0)
    }
}
/// A sized byte string of response, decoded by this harness.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Sized16(pub Vec<u8>);
impl Marshalable for Sized16 {
    fn try_unmarshal(b: &mut UnmarshalBuf) -> marshal::Result<Self> {
        let n = b.get(2).ok_or(marshal::Error::UnexpectedEndOfBuffer)?;
        let n = u16::from_be_bytes([n[0], n[1]]) as usize;
        Ok(Sized16(b.get(n).ok_or(marshal::Error::UnexpectedEndOfBuffer)?.to_vec()))
    }
    fn try_marshal(&self, _: &mut [u8]) -> marshal::Result<usize> {
        Ok(0)
    }
}

/// A command with code `CC`, raw parameters and handles, and chosen response shapes.
pub struct Cmd<const CC: u32, R, H>(pub Raw, pub std::marker::PhantomData<(R, H)>);
impl<const CC: u32, R, H> Cmd<CC, R, H> {
    pub fn new(p: Vec<u8>) -> Self {
        Cmd(Raw(p), std::marker::PhantomData)
    }
}
impl<const CC: u32, R, H> Marshalable for Cmd<CC, R, H> {
    fn try_unmarshal(_: &mut UnmarshalBuf) -> marshal::Result<Self> {
        Ok(Cmd::new(vec![]))
    }
    fn try_marshal(&self, buffer: &mut [u8]) -> marshal::Result<usize> {
        self.0.try_marshal(buffer)
    }
}
impl<const CC: u32, R: Marshalable, H: Marshalable> TpmCommand for Cmd<CC, R, H> {
    const CMD_CODE: TpmCc = TpmCc(CC);
    type Handles = Raw;
    type RespT = R;
    type RespHandles = H;
}

pub fn response(tag: u16, size: u32, rc: u32, body: &[u8]) -> Vec<u8> {
    let mut v = tag.to_be_bytes().to_vec();
    v.extend(size.to_be_bytes());
    v.extend(rc.to_be_bytes());
    v.extend(body);
    v
}
