From 4a835c282c0ae3db0e11cc13cc786caa581cbd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:21 +0000
Subject: [PATCH 01/14] fix: return an error instead of panicking when a TPM2B
 does not fit

The bound compared the size against the larger of the type's capacity and the
space left in the output, so marshaling a TPM2B into a buffer with room for the
size field but not for the contents indexed out of bounds.
---
 marshalable-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshalable-derive/src/lib.rs b/marshalable-derive/src/lib.rs
index acde6f9..eb48fc3 100644
--- a/marshalable-derive/src/lib.rs
+++ b/marshalable-derive/src/lib.rs
@@ -278,7 +278,7 @@ fn derive_tpm2b_simple(
                 let used = self.size.try_marshal(buffer)?;
                 let (_, rest) = buffer.split_at_mut(used);
                 let buffer_marsh = self.get_size() as usize;
-                if buffer_marsh > (core::cmp::max(Self::MAX_BUFFER_SIZE, rest.len())) {
+                if buffer_marsh > core::cmp::min(Self::MAX_BUFFER_SIZE, rest.len()) {
                     return Err(tpm2_rs_marshalable::Error::UnexpectedEndOfBuffer);
                 }
                 rest[..buffer_marsh].copy_from_slice(&self.#field_name[..buffer_marsh]);
-- 
2.43.0


From d00abfa43f0db11da99630bfdfa6ce5b7bd8cce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:21 +0000
Subject: [PATCH 02/14] fix: return ArrayLengthExceeded when marshaling an
 over-long counted array

The derived code indexed past the end of the array (panicking) when the length
field, which can be public, was larger than the capacity of the array.
---
 marshalable-derive/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marshalable-derive/src/lib.rs b/marshalable-derive/src/lib.rs
index eb48fc3..b0a98f3 100644
--- a/marshalable-derive/src/lib.rs
+++ b/marshalable-derive/src/lib.rs
@@ -412,6 +412,9 @@ fn get_named_field_marshal<'a>(
         let length_prim =
             get_primitive(&length, basic_field_types.get(length.get_ident().unwrap()))?;
         Ok(quote_spanned! {span =>
+            if self.#length_prim as usize > self.#name.len() {
+                return Err(tpm2_rs_marshalable::Error::ArrayLengthExceeded);
+            }
             for i in 0..self.#length_prim as usize {
                 written += self.#name[i].try_marshal(&mut buffer[written..])?;
             }
-- 
2.43.0


From 83128f35e7bb8d08d8ab71a975cfb639157ec687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:21 +0000
Subject: [PATCH 03/14] fix: do not panic when the authorization area size does
 not fit

write_command_sessions() sliced past the end of a buffer with fewer than four
bytes left.
---
 crates/tpm2-client/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/tpm2-client/src/lib.rs b/crates/tpm2-client/src/lib.rs
index 6ed70a5..599efda 100644
--- a/crates/tpm2-client/src/lib.rs
+++ b/crates/tpm2-client/src/lib.rs
@@ -82,7 +82,8 @@ pub fn write_command_sessions<
     if sessions.is_empty() {
         return Ok(0);
     }
-    let mut auth_offset = size_of::<u32>();
+    // Reserve space for the size of the authorization area.
+    let mut auth_offset = 0u32.try_marshal(buffer)?;
     let (s1, s2, s3) = sessions.decompose_ref();
     let Some(s1) = s1 else {
         return marshal_auth_size(auth_offset, buffer);
-- 
2.43.0


From 986aee80d09b2b7528d368dedcc3d61055bdce5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:21 +0000
Subject: [PATCH 04/14] fix: only parse the response bytes the connection
 returned

The slice returned by Connection::transact() was ignored and the whole
zero-filled response buffer was parsed instead, so truncated responses were
accepted with the missing bytes read as zeros.
---
 crates/tpm2-client/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/tpm2-client/src/lib.rs b/crates/tpm2-client/src/lib.rs
index 599efda..bc5a808 100644
--- a/crates/tpm2-client/src/lib.rs
+++ b/crates/tpm2-client/src/lib.rs
@@ -174,9 +174,9 @@ pub fn run_command_with_handles<
         .map_err(TssError::from)?;
 
     let mut resp_buffer = [0u8; RESP_BUFFER_SIZE];
-    tpm.transact(&cmd_buffer[..written], &mut resp_buffer)?;
+    let resp_buffer = tpm.transact(&cmd_buffer[..written], &mut resp_buffer)?;
 
-    let (resp_header, read) = read_response_header(&resp_buffer)?;
+    let (resp_header, read) = read_response_header(resp_buffer)?;
     let resp_size = resp_header.size as usize;
     if resp_size > resp_buffer.len() {
         return Err(TssError::from(TssTcsError::OutOfMemory).into());
-- 
2.43.0


From 2b147566b1d6125ce5aeb87fbb85c6fd1d9bea29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:21 +0000
Subject: [PATCH 05/14] fix: reject responses whose size is smaller than the
 response header

A responseSize below the size of the header panicked while slicing the body.
---
 crates/tpm2-client/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/tpm2-client/src/lib.rs b/crates/tpm2-client/src/lib.rs
index bc5a808..1944ea4 100644
--- a/crates/tpm2-client/src/lib.rs
+++ b/crates/tpm2-client/src/lib.rs
@@ -181,7 +181,10 @@ pub fn run_command_with_handles<
     if resp_size > resp_buffer.len() {
         return Err(TssError::from(TssTcsError::OutOfMemory).into());
     }
-    let mut unmarsh = UnmarshalBuf::new(&resp_buffer[read..resp_size]);
+    let Some(resp_body) = resp_buffer.get(read..resp_size) else {
+        return Err(TssError::from(TssTcsError::TpmUnexpected).into());
+    };
+    let mut unmarsh = UnmarshalBuf::new(resp_body);
     let resp_handles = CmdT::RespHandles::try_unmarshal(&mut unmarsh).map_err(TssError::from)?;
     if resp_header.tag == TpmSt::Sessions {
         let _param_size = u32::try_unmarshal(&mut unmarsh).map_err(TssError::from)?;
-- 
2.43.0


From bcfbb810de46be646830afedcc4ba1dafe071c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:21 +0000
Subject: [PATCH 06/14] fix: write the whole header of an error response

Only the response code was written; the tag and size of an error response were
whatever the response buffer already contained.
---
 crates/tpm2-impl/src/tpmctx.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/tpm2-impl/src/tpmctx.rs b/crates/tpm2-impl/src/tpmctx.rs
index 539915c..cf432cd 100644
--- a/crates/tpm2-impl/src/tpmctx.rs
+++ b/crates/tpm2-impl/src/tpmctx.rs
@@ -3,7 +3,7 @@ use crate::buffers::{InOutBuffer, SeparateBuffers};
 use crate::handler::CommandHandler;
 use crate::platform::{TpmBuffers, TpmContextDeps, TpmReadBuffer, TpmWriteBuffer};
 use crate::req_resp::RequestResponseCursor;
-use tpm2_rs_base::constants::TpmCc;
+use tpm2_rs_base::constants::{TpmCc, TpmSt};
 use tpm2_rs_base::errors::TpmRcError;
 
 /// The object that processes incoming TPM requests and produces the corresponding TPM response.
@@ -48,11 +48,15 @@ impl<Deps: TpmContextDeps> TpmContext<Deps> {
     }
 
     fn fill_error(&mut self, response: &mut Deps::Response, error: TpmRcError) -> usize {
-        // TODO fill out more of the TPM header for an error
-        if response.write(6, &error.get().to_be_bytes()).is_err() {
+        const ERROR_RESPONSE_SIZE: usize = 10;
+        let mut header = [0u8; ERROR_RESPONSE_SIZE];
+        header[..2].copy_from_slice(&TpmSt::NoSessions.0.to_be_bytes());
+        header[2..6].copy_from_slice(&(ERROR_RESPONSE_SIZE as u32).to_be_bytes());
+        header[6..].copy_from_slice(&error.get().to_be_bytes());
+        if response.write(0, &header).is_err() {
             return 0;
         }
-        10
+        ERROR_RESPONSE_SIZE
     }
 
     fn execute_command(&mut self, buffers: impl TpmBuffers) -> Result<usize, TpmRcError> {
-- 
2.43.0


From d4c815b2da60f0f082d3d3b0d32b568e8ff2b447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:21 +0000
Subject: [PATCH 07/14] fix: report out of bounds instead of overflowing on
 huge buffer offsets

---
 crates/tpm2-impl/src/platform/buffer.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/tpm2-impl/src/platform/buffer.rs b/crates/tpm2-impl/src/platform/buffer.rs
index 5f57ed7..bc13f6d 100644
--- a/crates/tpm2-impl/src/platform/buffer.rs
+++ b/crates/tpm2-impl/src/platform/buffer.rs
@@ -62,9 +62,8 @@ impl TpmReadBuffer for [u8] {
         self.len()
     }
     fn read_into(&self, offset: usize, out: &mut [u8]) -> Result<(), ReadOutOfBounds> {
-        let read_from = self
-            .get(offset..offset + out.len())
-            .ok_or(ReadOutOfBounds)?;
+        let end = offset.checked_add(out.len()).ok_or(ReadOutOfBounds)?;
+        let read_from = self.get(offset..end).ok_or(ReadOutOfBounds)?;
         out.copy_from_slice(read_from);
         Ok(())
     }
@@ -72,9 +71,10 @@ impl TpmReadBuffer for [u8] {
 
 impl TpmWriteBuffer for [u8] {
     fn write(&mut self, write_offset: usize, data: &[u8]) -> Result<(), WriteOutOfBounds> {
-        let write_to = self
-            .get_mut(write_offset..write_offset + data.len())
+        let end = write_offset
+            .checked_add(data.len())
             .ok_or(WriteOutOfBounds)?;
+        let write_to = self.get_mut(write_offset..end).ok_or(WriteOutOfBounds)?;
         write_to.copy_from_slice(data);
 
         Ok(())
@@ -85,7 +85,8 @@ impl TpmWriteBuffer for [u8] {
         size: usize,
         callback: impl FnOnce(&mut [u8]),
     ) -> Result<(), WriteOutOfBounds> {
-        let Some(buffer) = self.get_mut(write_offset..write_offset + size) else {
+        let end = write_offset.checked_add(size).ok_or(WriteOutOfBounds)?;
+        let Some(buffer) = self.get_mut(write_offset..end) else {
             return Err(WriteOutOfBounds);
         };
         callback(buffer);
-- 
2.43.0


From bf46b7415bf0d4cfbb35bb9244c99cdbb7347df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:21 +0000
Subject: [PATCH 08/14] fix: answer TPM_RC_FAILURE instead of panicking when
 the DRBG fails

A DRBG reporting an error from reseed() or fill_bytes() hit a todo!() and took
the whole TPM down.
---
 crates/tpm2-impl/src/handler/random.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/crates/tpm2-impl/src/handler/random.rs b/crates/tpm2-impl/src/handler/random.rs
index 02428e6..c18b95a 100644
--- a/crates/tpm2-impl/src/handler/random.rs
+++ b/crates/tpm2-impl/src/handler/random.rs
@@ -20,11 +20,6 @@ impl<Deps: TpmContextDeps> CommandHandler<Deps> {
         self.crypto.drbg.fill_bytes(&[], buffer).map_err(Into::into)
     }
 
-    fn get_random_or_faiure_mode(&mut self, buffer: &mut [u8]) {
-        if self.try_get_random(buffer).is_err() {
-            todo!() // goto failure mode
-        }
-    }
     /// Handles the [TpmCc::GetRandom] (`0x17B`) command.
     pub fn get_random(
         &mut self,
@@ -34,11 +29,13 @@ impl<Deps: TpmContextDeps> CommandHandler<Deps> {
         let requested_bytes = request.read_be_u16().ok_or(TpmRcError::CommandSize)? as usize;
 
         let mut response = request.into_response();
+        let mut result = Ok(());
         response
             .write_callback(requested_bytes, |buffer| {
-                self.get_random_or_faiure_mode(buffer)
+                result = self.try_get_random(buffer);
             })
             .map_err(|_| TpmRcError::Memory)?;
-        Ok(())
+        // TODO: go to failure mode
+        result.map_err(|_| TpmRcError::Failure)
     }
 }
-- 
2.43.0


From d4c83a16d117e93cf9eccdec41cd47d2e8eb3e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:21 +0000
Subject: [PATCH 09/14] fix: use the value of TPM_RC_SEQUENCE from the
 specification

TPM_RC_SEQUENCE is RC_VER1 + 0x003, as in TpmRc::Sequence of the base crate.
---
 crates/tpm2/src/errors/tpm_rc/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tpm2/src/errors/tpm_rc/mod.rs b/crates/tpm2/src/errors/tpm_rc/mod.rs
index 552e827..b587cf8 100644
--- a/crates/tpm2/src/errors/tpm_rc/mod.rs
+++ b/crates/tpm2/src/errors/tpm_rc/mod.rs
@@ -61,7 +61,7 @@ impl TpmRcError {
     /// Commands not being accepted because of a TPM failure (`TPM_RC_FAILURE`).
     pub const Failure: Self = Self::new(0x101);
     /// Improper use of a sequence handle (`TPM_RC_SEQUENCE`).
-    pub const Sequence: Self = Self::new(0x102);
+    pub const Sequence: Self = Self::new(0x103);
 
     /// Command commandSize value is inconsistent with contents of the command buffer; either the
     /// size is not the same as the octets loaded by the hardware interface layer or the value is
-- 
2.43.0


From b11b6a178ac39b90eab2eb032b1ee15a75d5de32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:21 +0000
Subject: [PATCH 10/14] fix: decode handle and session positions of format-one
 response codes

Every code without the parameter bit was decoded as a session error, and the
session bit was taken as part of the position, so codes built for a handle or a
session did not decode to what they were built from.
---
 crates/tpm2/src/errors/tpm_rc/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/tpm2/src/errors/tpm_rc/mod.rs b/crates/tpm2/src/errors/tpm_rc/mod.rs
index b587cf8..dea889c 100644
--- a/crates/tpm2/src/errors/tpm_rc/mod.rs
+++ b/crates/tpm2/src/errors/tpm_rc/mod.rs
@@ -151,7 +151,7 @@ impl ErrorType {
         }
         if val & Self::PARAMETER_MASK != 0 {
             Some(Self::Parameter)
-        } else if Self::SESSION_MASK != 0 {
+        } else if val & Self::SESSION_MASK != 0 {
             Some(Self::Session)
         } else {
             Some(Self::Handle)
@@ -203,7 +203,13 @@ impl ErrorPosition {
         if val & 0x80 == 0 {
             return None;
         }
-        match val & 0xF00 {
+        // Handle and session numbers are only three bits: 0x800 marks a session.
+        let mask = if val & ErrorType::PARAMETER_MASK != 0 {
+            0xF00
+        } else {
+            0x700
+        };
+        match val & mask {
             0x100 => Some(Self::Pos1),
             0x200 => Some(Self::Pos2),
             0x300 => Some(Self::Pos3),
-- 
2.43.0


From 7d07e59cc812a9acb537a1deb2e3dcb61c47c8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:21 +0000
Subject: [PATCH 11/14] fix: consume a response that does not fit in the
 response buffer

The response and its terminator were left in the stream, so every later
transaction on the connection read its response from the middle of an old one.
---
 crates/tpm2-client/src/connection/tcp.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/tpm2-client/src/connection/tcp.rs b/crates/tpm2-client/src/connection/tcp.rs
index 7a7f9b7..1514034 100644
--- a/crates/tpm2-client/src/connection/tcp.rs
+++ b/crates/tpm2-client/src/connection/tcp.rs
@@ -418,6 +418,10 @@ impl Connection for TcpConnection {
         let mut resp_hdr: SendCommandResponseHeader = SendCommandResponseHeader::default();
         self.tpm_tcp.read_exact(resp_hdr.as_mut_bytes())?;
         if resp_hdr.length.get() as usize > response.len() {
+            // Consume the response, so that the next one is not read from the middle of it.
+            let unread = u64::from(resp_hdr.length.get());
+            std::io::copy(&mut (&self.tpm_tcp).take(unread), &mut std::io::sink())?;
+            Self::check_response_end(&mut self.tpm_tcp)?;
             return Err(Error::new(
                 ErrorKind::InvalidInput,
                 "response buffer too small",
-- 
2.43.0


From 13cf24de5e7c2d05cb382a2f9e2671600b7a3edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:21 +0000
Subject: [PATCH 12/14] fix: stop the simulator process when connecting to it
 fails

TcpSimulator::new() returned an error but left the process it had started
running, with nothing owning it any more.
---
 crates/tpm2-client/src/connection/tcp.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/crates/tpm2-client/src/connection/tcp.rs b/crates/tpm2-client/src/connection/tcp.rs
index 1514034..8b9c701 100644
--- a/crates/tpm2-client/src/connection/tcp.rs
+++ b/crates/tpm2-client/src/connection/tcp.rs
@@ -645,7 +645,7 @@ impl TcpSimulator {
             command.args(args);
         }
 
-        let child = command
+        let mut child = command
             // TODO: Capture stdout/stderr to display when requested.
             .stdout(Stdio::null())
             .stderr(Stdio::null())
@@ -661,16 +661,26 @@ impl TcpSimulator {
                 )
             })?;
 
+        match Self::connect_to_ports_in(cwd.as_ref(), ip) {
+            Ok(conn) => Ok(TcpSimulator { child, conn }),
+            Err(err) => {
+                // Do not leave the simulator running when it cannot be used.
+                let _ = child.kill();
+                let _ = child.wait();
+                Err(err)
+            }
+        }
+    }
+
+    /// Connects to the simulator that publishes its ports in the given directory.
+    fn connect_to_ports_in(cwd: &Path, ip: &str) -> Result<TcpConnection> {
         // The TCG TPM simulator writes the ports it uses to two files:
         //   - TPM port: "command.port"
         //   - Platform port: "platform.port"
-        let tpm_port = Self::read_port_from_file_with_retries(&cwd.as_ref().join("command.port"))?;
-        let plat_port =
-            Self::read_port_from_file_with_retries(&cwd.as_ref().join("platform.port"))?;
-
-        let conn = TcpConnection::connect_with_retries(ip, Some(tpm_port), Some(plat_port))?;
+        let tpm_port = Self::read_port_from_file_with_retries(&cwd.join("command.port"))?;
+        let plat_port = Self::read_port_from_file_with_retries(&cwd.join("platform.port"))?;
 
-        Ok(TcpSimulator { child, conn })
+        TcpConnection::connect_with_retries(ip, Some(tpm_port), Some(plat_port))
     }
 
     /// Reads a port from a file with retires.
-- 
2.43.0


From 590ac9c5cff1ebb0c8d5ee49c662c3acf773df9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:10 +0000
Subject: [PATCH 13/14] fix: wait for the port to be written when the
 simulator's port file is still empty

---
 crates/tpm2-client/src/connection/tcp.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/crates/tpm2-client/src/connection/tcp.rs b/crates/tpm2-client/src/connection/tcp.rs
index 8b9c701..ba7b619 100644
--- a/crates/tpm2-client/src/connection/tcp.rs
+++ b/crates/tpm2-client/src/connection/tcp.rs
@@ -688,14 +688,15 @@ impl TcpSimulator {
         let mut attempts = 0;
         loop {
             attempts += 1;
-            match std::fs::read_to_string(path) {
-                Ok(port_str) => {
-                    let port = port_str
-                        .trim()
-                        .parse::<u16>()
-                        .map_err(|e| Error::new(ErrorKind::InvalidData, e))?;
-                    return Ok(port);
-                }
+            // The simulator creates the file before it writes the port to it.
+            let port = std::fs::read_to_string(path).and_then(|port_str| {
+                port_str
+                    .trim()
+                    .parse::<u16>()
+                    .map_err(|e| Error::new(ErrorKind::InvalidData, e))
+            });
+            match port {
+                Ok(port) => return Ok(port),
                 Err(err) => {
                     if attempts > 3 {
                         return Err(err);
-- 
2.43.0


From 1d577722d49fd8dbe78c977126a64fc2a64975de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:11 +0000
Subject: [PATCH 14/14] fix: refuse to wrap a structure whose encoding exceeds
 a 16-bit size

---
 marshalable-derive/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/marshalable-derive/src/lib.rs b/marshalable-derive/src/lib.rs
index b0a98f3..0285903 100644
--- a/marshalable-derive/src/lib.rs
+++ b/marshalable-derive/src/lib.rs
@@ -94,7 +94,10 @@ fn derive_tpm2b_struct(
 
             fn from_struct(val: &Self::StructType) -> tpm2_rs_marshalable::Result<Self> {
                 let mut x = Self::default();
-                x.size = val.try_marshal(&mut x.#field_name)? as u16;
+                let size = val.try_marshal(&mut x.#field_name)?;
+                x.size = size
+                    .try_into()
+                    .map_err(|_| tpm2_rs_marshalable::Error::ArrayLengthExceeded)?;
                 Ok(x)
             }
 
-- 
2.43.0

