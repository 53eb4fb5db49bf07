From 38b30cfba6890abbb59a73505e15107cb4ed9301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:59 +0000
Subject: [PATCH 01/21] fix: never use '#' or '$' as a run-length count

The count character of a run of n bytes is n + 28, so the two runs which have
to be split are those of 7 ('#') and 8 ('$') bytes, not 6 and 7.
---
 src/protocol/response_writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/response_writer.rs b/src/protocol/response_writer.rs
index 42c2a20..1967c98 100644
--- a/src/protocol/response_writer.rs
+++ b/src/protocol/response_writer.rs
@@ -135,7 +135,7 @@ impl<'a, C: Connection + 'a> ResponseWriter<'a, C> {
                         }
                     }
                     // RLE would output an invalid char ('#' or '$')
-                    6 | 7 => {
+                    7 | 8 => {
                         self.inner_write(self.rle_char)?;
                         self.rle_repeat -= 1;
                         continue;
-- 
2.43.0


From 33dfc6d3d01aba95fbd24d1660bc84a1af309826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:00 +0000
Subject: [PATCH 02/21] fix: end a chunked memory read at the first
 inaccessible byte

A `m` packet which is larger than the packet buffer is read in chunks. A read
which ran past the end of the address space overflowed the address (a panic in
debug builds, a read of address 0 otherwise), an error in the second or a later
chunk was appended to the data written so far, and a short read was followed
by the contents of the next chunk.
---
 src/stub/core_impl/base.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/stub/core_impl/base.rs b/src/stub/core_impl/base.rs
index b42e1f0..f2b180b 100644
--- a/src/stub/core_impl/base.rs
+++ b/src/stub/core_impl/base.rs
@@ -293,9 +293,14 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                 while n != 0 {
                     let chunk_size = n.min(buf.len());
 
+                    use num_traits::CheckedAdd;
                     use num_traits::NumCast;
 
-                    let addr = addr + NumCast::from(i).ok_or(Error::TargetMismatch)?;
+                    // the read may run past the end of the address space
+                    let addr = match NumCast::from(i).and_then(|i| addr.checked_add(&i)) {
+                        Some(addr) => addr,
+                        None => break,
+                    };
                     let data = &mut buf[..chunk_size];
                     let data_len = match target.base_ops() {
                         BaseOps::SingleThread(ops) => ops.read_addrs(addr, data),
@@ -303,7 +308,13 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                             ops.read_addrs(addr, data, self.current_mem_tid)
                         }
                     }
-                    .handle_error()?;
+                    .handle_error();
+
+                    let data_len = match data_len {
+                        // part of the reply has already been written: report what could be read
+                        Err(Error::NonFatalError(_)) if i != 0 => break,
+                        data_len => data_len?,
+                    };
 
                     n -= chunk_size;
                     i += chunk_size;
@@ -311,6 +322,11 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                     // TODO: add more specific error variant?
                     let data = data.get(..data_len).ok_or(Error::PacketBufferOverflow)?;
                     res.write_hex_buf(data)?;
+
+                    // the memory past a short read is inaccessible
+                    if data_len < chunk_size {
+                        break;
+                    }
                 }
                 HandlerStatus::Handled
             }
-- 
2.43.0


From 4b35aa23375014a4dbb828bf23594b7942140e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:00 +0000
Subject: [PATCH 03/21] fix: reject oversized tracepoint expression lengths

Doubling the length overflows if the client sends a length of more than
usize::MAX / 2.
---
 src/stub/core_impl/tracepoints.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/stub/core_impl/tracepoints.rs b/src/stub/core_impl/tracepoints.rs
index 1637698..e2fa2c9 100644
--- a/src/stub/core_impl/tracepoints.rs
+++ b/src/stub/core_impl/tracepoints.rs
@@ -161,10 +161,11 @@ impl<'a, U: BeBytes> ExtendTracepoint<'a, U> {
                     );
                     let len: usize =
                         decode_hex(len_bytes).or(Err(Error::PacketParse(MalformedCommand)))?;
-                    if rem.len() < len * 2 {
-                        return Err(Error::PacketParse(MalformedCommand));
-                    }
-                    let (expr_bytes, next_bytes) = rem.split_at_mut(len * 2);
+                    let hex_len = match len.checked_mul(2) {
+                        Some(hex_len) if hex_len <= rem.len() => hex_len,
+                        _ => return Err(Error::PacketParse(MalformedCommand)),
+                    };
+                    let (expr_bytes, next_bytes) = rem.split_at_mut(hex_len);
                     let expr =
                         decode_hex_buf(expr_bytes).or(Err(Error::PacketParse(MalformedCommand)))?;
                     (f)(&TracepointAction::Expression {
-- 
2.43.0


From 84ff7202564932cfc94b269120561ceb103b5e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:00 +0000
Subject: [PATCH 04/21] fix: report connection errors raised inside of target
 callbacks

Errors writing the replies to qTBuffer, QTFrame and (for the registers of an
`Arch`) qRegisterInfo were dropped.
---
 src/stub/core_impl/lldb_register_info.rs | 2 +-
 src/stub/core_impl/tracepoints.rs        | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stub/core_impl/lldb_register_info.rs b/src/stub/core_impl/lldb_register_info.rs
index 676991d..bd2b15c 100644
--- a/src/stub/core_impl/lldb_register_info.rs
+++ b/src/stub/core_impl/lldb_register_info.rs
@@ -126,13 +126,13 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                         },
                     )
                     .map_err(Error::TargetError)?;
-                    err?;
                 } else if let Some(reg) = T::Arch::lldb_register_info(cmd.reg_id) {
                     match reg {
                         LLDBRegisterInfo::Register(reg) => cb(Some(reg)),
                         LLDBRegisterInfo::Done => cb(None),
                     };
                 }
+                err?;
                 HandlerStatus::Handled
             }
         };
diff --git a/src/stub/core_impl/tracepoints.rs b/src/stub/core_impl/tracepoints.rs
index e2fa2c9..24f7327 100644
--- a/src/stub/core_impl/tracepoints.rs
+++ b/src/stub/core_impl/tracepoints.rs
@@ -505,7 +505,7 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                 ops.trace_buffer_request(offset, length, &mut |data| {
                     if let Err(e) = res.write_hex_buf(data) {
                         wrote = Err(e.into())
-                    } else {
+                    } else if wrote.is_ok() {
                         wrote = Ok(true)
                     }
                 })
@@ -555,6 +555,7 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                     }
                 })
                 .handle_error()?;
+                err?;
                 if !any_results {
                     res.write_str("F-1")?;
                 }
-- 
2.43.0


From 2737b5060960ab761e139520b9c82ac5be35fabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:00 +0000
Subject: [PATCH 05/21] fix: don't index into empty lists of LLDB registers

---
 src/stub/core_impl/lldb_register_info.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/stub/core_impl/lldb_register_info.rs b/src/stub/core_impl/lldb_register_info.rs
index bd2b15c..8d1414e 100644
--- a/src/stub/core_impl/lldb_register_info.rs
+++ b/src/stub/core_impl/lldb_register_info.rs
@@ -87,17 +87,19 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                             }
                             if let Some(c_regs) = reg.container_regs {
                                 res.write_str(";container-regs:")?;
-                                res.write_num(c_regs[0])?;
-                                for reg in c_regs.iter().skip(1) {
-                                    res.write_str(",")?;
+                                for (i, reg) in c_regs.iter().enumerate() {
+                                    if i != 0 {
+                                        res.write_str(",")?;
+                                    }
                                     res.write_num(*reg)?;
                                 }
                             }
                             if let Some(i_regs) = reg.invalidate_regs {
                                 res.write_str(";invalidate-regs:")?;
-                                res.write_num(i_regs[0])?;
-                                for reg in i_regs.iter().skip(1) {
-                                    res.write_str(",")?;
+                                for (i, reg) in i_regs.iter().enumerate() {
+                                    if i != 0 {
+                                        res.write_str(",")?;
+                                    }
                                     res.write_num(*reg)?;
                                 }
                             }
-- 
2.43.0


From f566e1d2a53b72ed1b434f5c23aa0ba57cd44498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:00 +0000
Subject: [PATCH 06/21] fix: delegate support_libraries_svr4 from `dyn Target`

---
 src/target/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/target/mod.rs b/src/target/mod.rs
index f7a5b51..b6ae5a9 100644
--- a/src/target/mod.rs
+++ b/src/target/mod.rs
@@ -745,6 +745,8 @@ macro_rules! impl_dyn_target {
             __delegate_support!(exec_file);
             __delegate_support!(auxv);
             __delegate_support!(tracepoints);
+
+            __delegate!(fn support_libraries_svr4(&mut self) -> Option<ext::libraries::LibrariesSvr4Ops<'_, Self>>);
         }
     };
 }
-- 
2.43.0


From 96e859e269a52ddec3a0671b8f77e7eb09651575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:00 +0000
Subject: [PATCH 07/21] fix: don't make up a byte when peeking a closed
 connection

A `peek` which returns no bytes means that the client closed the connection,
which `read` reports as an UnexpectedEof.
---
 src/conn/impls/tcpstream.rs  | 1 +
 src/conn/impls/unixstream.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/conn/impls/tcpstream.rs b/src/conn/impls/tcpstream.rs
index 512a15d..ff9dd8f 100644
--- a/src/conn/impls/tcpstream.rs
+++ b/src/conn/impls/tcpstream.rs
@@ -47,6 +47,7 @@ impl ConnectionExt for TcpStream {
 
         let mut buf = [0u8];
         match Self::peek(self, &mut buf) {
+            Ok(0) => Err(std::io::ErrorKind::UnexpectedEof.into()),
             Ok(_) => Ok(Some(buf[0])),
             Err(ref e) if e.kind() == std::io::ErrorKind::WouldBlock => Ok(None),
             Err(e) => Err(e),
diff --git a/src/conn/impls/unixstream.rs b/src/conn/impls/unixstream.rs
index 575cc4e..5ae9d8a 100644
--- a/src/conn/impls/unixstream.rs
+++ b/src/conn/impls/unixstream.rs
@@ -94,6 +94,7 @@ impl ConnectionExt for UnixStream {
 
         let mut buf = [0u8];
         match PeekExt::peek(self, &mut buf) {
+            Ok(0) => Err(io::ErrorKind::UnexpectedEof.into()),
             Ok(_) => Ok(Some(buf[0])),
             Err(ref e) if e.kind() == std::io::ErrorKind::WouldBlock => Ok(None),
             Err(e) => Err(e),
-- 
2.43.0


From 57273bce084b85f94f4d524b3eef4bceb379ccf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:00 +0000
Subject: [PATCH 08/21] fix: put the AArch64 FPSR ahead of the FPCR

This is the order of the target description, and of the register ids.
---
 gdbstub_arch/src/aarch64/reg/aarch64_core.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gdbstub_arch/src/aarch64/reg/aarch64_core.rs b/gdbstub_arch/src/aarch64/reg/aarch64_core.rs
index e72f596..0220415 100644
--- a/gdbstub_arch/src/aarch64/reg/aarch64_core.rs
+++ b/gdbstub_arch/src/aarch64/reg/aarch64_core.rs
@@ -48,15 +48,15 @@ impl Registers for AArch64CoreRegs {
         for reg in self.v.iter() {
             write_bytes!(reg);
         }
-        write_bytes!(self.fpcr);
         write_bytes!(self.fpsr);
+        write_bytes!(self.fpcr);
     }
 
     fn gdb_deserialize(&mut self, bytes: &[u8]) -> Result<(), ()> {
         const CPSR_OFF: usize = core::mem::size_of::<u64>() * 33;
         const FPSIMD_OFF: usize = CPSR_OFF + core::mem::size_of::<u32>();
-        const FPCR_OFF: usize = FPSIMD_OFF + core::mem::size_of::<u128>() * 32;
-        const END: usize = FPCR_OFF + core::mem::size_of::<u32>() * 2;
+        const FPSR_OFF: usize = FPSIMD_OFF + core::mem::size_of::<u128>() * 32;
+        const END: usize = FPSR_OFF + core::mem::size_of::<u32>() * 2;
 
         if bytes.len() < END {
             return Err(());
@@ -78,7 +78,7 @@ impl Registers for AArch64CoreRegs {
 
         self.cpsr = regs.next().ok_or(())?;
 
-        let mut regs = bytes[FPSIMD_OFF..FPCR_OFF]
+        let mut regs = bytes[FPSIMD_OFF..FPSR_OFF]
             .chunks_exact(core::mem::size_of::<u128>())
             .map(|c| u128::from_le_bytes(c.try_into().unwrap()));
 
@@ -86,12 +86,12 @@ impl Registers for AArch64CoreRegs {
             *reg = regs.next().ok_or(())?
         }
 
-        let mut regs = bytes[FPCR_OFF..]
+        let mut regs = bytes[FPSR_OFF..]
             .chunks_exact(core::mem::size_of::<u32>())
             .map(|c| u32::from_le_bytes(c.try_into().unwrap()));
 
-        self.fpcr = regs.next().ok_or(())?;
         self.fpsr = regs.next().ok_or(())?;
+        self.fpcr = regs.next().ok_or(())?;
 
         Ok(())
     }
-- 
2.43.0


From 06befe91d39379a76826bfb2439a96faa4e614bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:00 +0000
Subject: [PATCH 09/21] fix: the FPA registers of ARM are 12 bytes long

This is also the space which `ArmCoreRegs` leaves for them.
---
 gdbstub_arch/src/arm/reg/id.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/gdbstub_arch/src/arm/reg/id.rs b/gdbstub_arch/src/arm/reg/id.rs
index 10f7c26..60088d2 100644
--- a/gdbstub_arch/src/arm/reg/id.rs
+++ b/gdbstub_arch/src/arm/reg/id.rs
@@ -23,16 +23,16 @@ pub enum ArmCoreRegId {
 
 impl RegId for ArmCoreRegId {
     fn from_raw_id(id: usize) -> Option<(Self, Option<NonZeroUsize>)> {
-        let reg = match id {
-            0..=12 => Self::Gpr(id as u8),
-            13 => Self::Sp,
-            14 => Self::Lr,
-            15 => Self::Pc,
-            16..=23 => Self::Fpr((id as u8) - 16),
-            24 => Self::Fps,
-            25 => Self::Cpsr,
+        let (reg, size) = match id {
+            0..=12 => (Self::Gpr(id as u8), 4),
+            13 => (Self::Sp, 4),
+            14 => (Self::Lr, 4),
+            15 => (Self::Pc, 4),
+            16..=23 => (Self::Fpr((id as u8) - 16), 12),
+            24 => (Self::Fps, 4),
+            25 => (Self::Cpsr, 4),
             _ => return None,
         };
-        Some((reg, Some(NonZeroUsize::new(4)?)))
+        Some((reg, Some(NonZeroUsize::new(size)?)))
     }
 }
-- 
2.43.0


From c551c2f8c2d1a51b1083c7ff1777d417e308f341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:00 +0000
Subject: [PATCH 10/21] fix: flush the acknowledgement of resume packets

There is no reply to flush until the target stops, so a connection which
buffers writes would leave the client waiting for the acknowledgement.
---
 src/stub/core_impl.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/stub/core_impl.rs b/src/stub/core_impl.rs
index d5ca4d5..7ccba86 100644
--- a/src/stub/core_impl.rs
+++ b/src/stub/core_impl.rs
@@ -160,7 +160,13 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                         res.write_str("OK")?;
                         None
                     }
-                    Ok(HandlerStatus::DeferredStopReason) => return Ok(State::DeferredStopReason),
+                    Ok(HandlerStatus::DeferredStopReason) => {
+                        // the stop reply may be a long time coming, so don't sit on the ack
+                        if !self.features.no_ack_mode() {
+                            res.as_conn().flush().map_err(InternalError::conn_write)?;
+                        }
+                        return Ok(State::DeferredStopReason);
+                    }
                     Ok(HandlerStatus::Disconnect(reason)) => Some(reason),
                     // HACK: handling this "dummy" error is required as part of the
                     // `TargetResultExt::handle_error()` machinery.
-- 
2.43.0


From 9d99a0a69fbc3a2eccc98d6b12c706b65fcfa0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:35 +0000
Subject: [PATCH 11/21] fix: keep the deferred stop reason if a second
 interrupt has none

A Ctrl-C interrupt received while idle defers its stop reason to the next
resumption. A second interrupt which is handled without a stop reason has to
return to that state, instead of forgetting about the first one.
---
 src/stub/state_machine.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/stub/state_machine.rs b/src/stub/state_machine.rs
index 4a41aaf..4da84a1 100644
--- a/src/stub/state_machine.rs
+++ b/src/stub/state_machine.rs
@@ -44,6 +44,7 @@ use crate::protocol::ResponseWriter;
 use crate::stub::error::GdbStubError;
 use crate::stub::error::InternalError;
 use crate::stub::stop_reason::IntoStopReason;
+use crate::stub::stop_reason::MultiThreadStopReason;
 use crate::target::Target;
 use managed::ManagedSlice;
 
@@ -79,7 +80,6 @@ where
 // payloads, which are used when transitioning between states.
 pub mod state {
     use super::*;
-    use crate::stub::stop_reason::MultiThreadStopReason;
 
     // used internally when logging state transitions
     pub(crate) const MODULE_PATH: &str = concat!(module_path!(), "::");
@@ -169,6 +169,8 @@ struct GdbStubStateMachineReallyInner<'a, T: Target, C: Connection> {
     packet_buffer: ManagedSlice<'a, u8>,
     recv_packet: RecvPacketStateMachine,
     inner: GdbStubImpl<T, C>,
+    // stop reason which was deferred prior to the interrupt being handled right now
+    prev_deferred: Option<MultiThreadStopReason<<<T as Target>::Arch as Arch>::Usize>>,
 }
 
 /// Core state machine implementation that is parameterized by various
@@ -200,6 +202,7 @@ impl<'a, T: Target, C: Connection> GdbStubStateMachineInner<'a, state::Idle<T>,
                 packet_buffer: stub.packet_buffer,
                 recv_packet: RecvPacketStateMachine::new(),
                 inner: stub.inner,
+                prev_deferred: None,
             },
             state: state::Idle {
                 deferred_ctrlc_stop_reason: None,
@@ -239,9 +242,11 @@ impl<'a, T: Target, C: Connection> GdbStubStateMachineInner<'a, state::Idle<T>,
                     None => self.transition(state::Running {}).into(),
                 }
             }
-            State::CtrlCInterrupt => self
-                .transition(state::CtrlCInterrupt { from_idle: true })
-                .into(),
+            State::CtrlCInterrupt => {
+                self.i.prev_deferred = self.state.deferred_ctrlc_stop_reason.take();
+                self.transition(state::CtrlCInterrupt { from_idle: true })
+                    .into()
+            }
         })
     }
 }
@@ -326,15 +331,16 @@ impl<'a, T: Target, C: Connection> GdbStubStateMachineInner<'a, state::CtrlCInte
     ///   should send one of the stop reply packets (see Stop Reply Packets) to
     ///   GDB as a result of successfully stopping the program
     pub fn interrupt_handled(
-        self,
+        mut self,
         target: &mut T,
         stop_reason: Option<impl IntoStopReason<T>>,
     ) -> Result<GdbStubStateMachine<'a, T, C>, GdbStubError<T::Error, C::Error>> {
         if self.state.from_idle {
             // target is stopped - we cannot report the stop reason yet
+            let prev_deferred = self.i.prev_deferred.take();
             Ok(self
                 .transition(state::Idle {
-                    deferred_ctrlc_stop_reason: stop_reason.map(Into::into),
+                    deferred_ctrlc_stop_reason: stop_reason.map(Into::into).or(prev_deferred),
                 })
                 .into())
         } else {
-- 
2.43.0


From 1523a0328690e171c836943957771915e2a48a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:00 +0000
Subject: [PATCH 12/21] fix: match the full name of a packet

In extended mode, qCRC and vAttachWait were taken for malformed qC and vAttach
packets, ending the session. The GDB RSP spec requires packets to be answered
with an empty reply unless the full packet name matches one which is known.
---
 src/protocol/commands.rs |  2 +-
 src/protocol/packet.rs   | 17 +++++++++++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/protocol/commands.rs b/src/protocol/commands.rs
index b18f860..8b9050e 100644
--- a/src/protocol/commands.rs
+++ b/src/protocol/commands.rs
@@ -186,7 +186,7 @@ macro_rules! commands {
                 #[allow(clippy::string_lit_as_bytes)]
                 if target.[< support_ $ext >]().is_some() {
                     $(
-                    if buf.strip_prefix($name.as_bytes()) {
+                    if buf.strip_name($name.as_bytes()) {
                         crate::__dead_code_marker!($name, "prefix_match");
 
                         let cmd = $mod::$command::from_packet(buf)?;
diff --git a/src/protocol/packet.rs b/src/protocol/packet.rs
index 9723165..9895c52 100644
--- a/src/protocol/packet.rs
+++ b/src/protocol/packet.rs
@@ -115,6 +115,23 @@ impl<'a> PacketBuf<'a> {
         }
     }
 
+    /// Strip the specified packet name from the packet buffer, returning `true`
+    /// if the packet has this name.
+    ///
+    /// As per the GDB RSP spec, stubs must match the full name of a packet, as
+    /// its name may be a prefix of another packet's name (e.g: `qC` and `qCRC`).
+    pub fn strip_name(&mut self, name: &[u8]) -> bool {
+        // the arguments of single letter packets (and of `qRegisterInfo`) directly
+        // follow the name
+        let has_separator = name.len() > 1 && name != b"qRegisterInfo";
+        let next = self.buf.get(self.body_range.start + name.len());
+        if has_separator && next.map_or(false, |b| b.is_ascii_alphabetic()) {
+            return false;
+        }
+
+        self.strip_prefix(name)
+    }
+
     /// Return a mutable reference to slice of the packet buffer corresponding
     /// to the current body.
     pub fn into_body(self) -> &'a mut [u8] {
-- 
2.43.0


From 6b335079ac5b5060da6182c4dea2906f872cb128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:05 +0000
Subject: [PATCH 13/21] fix: accept qSupported packets without any features

The GDB RSP spec makes the list of features (and the colon ahead of it)
optional.
---
 src/protocol/commands/_qSupported.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/protocol/commands/_qSupported.rs b/src/protocol/commands/_qSupported.rs
index c436d09..882d2b6 100644
--- a/src/protocol/commands/_qSupported.rs
+++ b/src/protocol/commands/_qSupported.rs
@@ -16,6 +16,11 @@ impl<'a> ParseCommand<'a> for qSupported<'a> {
                 packet_buffer_len,
                 features: Features(body),
             }),
+            // the list of features is optional
+            [] => Some(qSupported {
+                packet_buffer_len,
+                features: Features(&[]),
+            }),
             _ => None,
         }
     }
@@ -26,7 +31,9 @@ pub struct Features<'a>(&'a [u8]);
 
 impl<'a> Features<'a> {
     pub fn into_iter(self) -> impl Iterator<Item = Result<Option<(Feature, bool)>, ()>> + 'a {
-        self.0.split(|b| *b == b';').map(|s| match s.last() {
+        let no_features = self.0.is_empty();
+        self.0.split(|b| *b == b';').map(move |s| match s.last() {
+            None if no_features => Ok(None),
             None => Err(()),
             Some(&c) => match c {
                 b'+' | b'-' => {
-- 
2.43.0


From 58fe69a40550f1a5b800660ff97be414064e6375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:31 +0000
Subject: [PATCH 14/21] fix: don't append an error code to a tracepoint status

If a target can report the status, but not the explanations, the error code of
the latter ended up in the middle of the reply.
---
 src/stub/core_impl/tracepoints.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/stub/core_impl/tracepoints.rs b/src/stub/core_impl/tracepoints.rs
index 24f7327..266fbea 100644
--- a/src/stub/core_impl/tracepoints.rs
+++ b/src/stub/core_impl/tracepoints.rs
@@ -410,16 +410,22 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                 .handle_error()?;
                 if has_status {
                     // Only bother trying to get info if we also have a status
-                    ops.trace_experiment_info(&mut |explanation: ExperimentExplanation<'_>| {
-                        if let Err(e) = res
-                            .write_str(";")
-                            .map_err(|e| e.into())
-                            .and_then(|()| explanation.write::<T, C>(res))
-                        {
-                            err = Some(e)
-                        }
-                    })
-                    .handle_error()?;
+                    let info = ops
+                        .trace_experiment_info(&mut |explanation: ExperimentExplanation<'_>| {
+                            if let Err(e) = res
+                                .write_str(";")
+                                .map_err(|e| e.into())
+                                .and_then(|()| explanation.write::<T, C>(res))
+                            {
+                                err = Some(e)
+                            }
+                        })
+                        .handle_error();
+                    match info {
+                        // the status has already been written, and explanations are optional
+                        Err(Error::NonFatalError(_)) => {}
+                        info => info?,
+                    }
                 }
 
                 if let Some(e) = err {
-- 
2.43.0


From 89ee6d060fb048a50cf5df36d75d2ee52fea5e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:39 +0000
Subject: [PATCH 15/21] fix: don't reply to the R packet

As per the GDB RSP spec, 'the R packet has no reply', so the client would take
the empty reply for the reply of its next packet.
---
 src/stub/core_impl.rs               | 10 +++++++---
 src/stub/core_impl/extended_mode.rs |  3 ++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/stub/core_impl.rs b/src/stub/core_impl.rs
index 7ccba86..d26ed1e 100644
--- a/src/stub/core_impl.rs
+++ b/src/stub/core_impl.rs
@@ -110,6 +110,7 @@ pub(crate) struct GdbStubImpl<T: Target, C: Connection> {
 pub enum HandlerStatus {
     Handled,
     NeedsOk,
+    NoReply,
     DeferredStopReason,
     Disconnect(DisconnectReason),
 }
@@ -160,12 +161,15 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                         res.write_str("OK")?;
                         None
                     }
-                    Ok(HandlerStatus::DeferredStopReason) => {
-                        // the stop reply may be a long time coming, so don't sit on the ack
+                    Ok(status @ (HandlerStatus::NoReply | HandlerStatus::DeferredStopReason)) => {
+                        // the next reply may be a long time coming, so don't sit on the ack
                         if !self.features.no_ack_mode() {
                             res.as_conn().flush().map_err(InternalError::conn_write)?;
                         }
-                        return Ok(State::DeferredStopReason);
+                        return Ok(match status {
+                            HandlerStatus::NoReply => State::Pump,
+                            _ => State::DeferredStopReason,
+                        });
                     }
                     Ok(HandlerStatus::Disconnect(reason)) => Some(reason),
                     // HACK: handling this "dummy" error is required as part of the
diff --git a/src/stub/core_impl/extended_mode.rs b/src/stub/core_impl/extended_mode.rs
index 703b3f8..3ae06c8 100644
--- a/src/stub/core_impl/extended_mode.rs
+++ b/src/stub/core_impl/extended_mode.rs
@@ -26,7 +26,8 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
             }
             ExtendedMode::R(_cmd) => {
                 ops.restart().map_err(Error::TargetError)?;
-                HandlerStatus::Handled
+                // unlike any other packet, `R` has no reply
+                HandlerStatus::NoReply
             }
             ExtendedMode::vAttach(cmd) => {
                 if ops.support_current_active_pid().is_none() {
-- 
2.43.0


From 3eb31bc4f5d6ff7ceba1d76d05b277b6fa7aa373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:10 +0000
Subject: [PATCH 16/21] fix: pass empty arguments to the target

GDB's `run '' a` sends an argument of length zero, which was dropped, so the
program got fewer arguments than the user gave. Only an absent list is empty.
---
 src/protocol/commands/_QCatchSyscalls.rs |  2 +-
 src/protocol/commands/_vRun.rs           |  2 +-
 src/protocol/common/lists.rs             | 14 ++++++++------
 src/stub/core_impl/catch_syscalls.rs     |  1 +
 4 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/protocol/commands/_QCatchSyscalls.rs b/src/protocol/commands/_QCatchSyscalls.rs
index 0991117..2ba5b89 100644
--- a/src/protocol/commands/_QCatchSyscalls.rs
+++ b/src/protocol/commands/_QCatchSyscalls.rs
@@ -16,7 +16,7 @@ impl<'a> ParseCommand<'a> for QCatchSyscalls<'a> {
         match body {
             [b':', b'0'] => Some(QCatchSyscalls::Disable),
             [b':', b'1', b';', sysno @ ..] => {
-                Some(QCatchSyscalls::Enable(ArgListHex::from_packet(sysno)?))
+                Some(QCatchSyscalls::Enable(ArgListHex::from_packet(Some(sysno))?))
             }
             [b':', b'1'] => Some(QCatchSyscalls::EnableAll),
             _ => None,
diff --git a/src/protocol/commands/_vRun.rs b/src/protocol/commands/_vRun.rs
index a4b619d..e20bc2f 100644
--- a/src/protocol/commands/_vRun.rs
+++ b/src/protocol/commands/_vRun.rs
@@ -19,7 +19,7 @@ impl<'a> ParseCommand<'a> for vRun<'a> {
             [] => None,
             s => Some(s as &[u8]),
         };
-        let args = body.next().unwrap_or(&mut []); // args are optional
+        let args = body.next(); // args are optional
 
         Some(vRun {
             filename,
diff --git a/src/protocol/common/lists.rs b/src/protocol/common/lists.rs
index 1f2bc88..ed18de0 100644
--- a/src/protocol/common/lists.rs
+++ b/src/protocol/common/lists.rs
@@ -1,15 +1,17 @@
 use crate::protocol::common::hex::decode_hex_buf;
 use crate::protocol::common::hex::is_hex;
 
-/// A wrapper type around a list of hex encoded arguments separated by `;`.
+/// A wrapper type around a (possibly absent) list of hex encoded arguments
+/// separated by `;`.
 #[derive(Debug)]
-pub struct ArgListHex<'a>(&'a mut [u8]);
+pub struct ArgListHex<'a>(Option<&'a mut [u8]>);
 
 impl<'a> ArgListHex<'a> {
-    pub fn from_packet(args: &'a mut [u8]) -> Option<Self> {
+    pub fn from_packet(args: Option<&'a mut [u8]>) -> Option<Self> {
         // validate that args have valid hex encoding (with ';' delimiters).
         // this removes all the error handling from the lazy `Args` iterator.
-        if args.iter().any(|b| !(is_hex(*b) || *b == b';')) {
+        let mut bytes = args.iter().flat_map(|args| args.iter());
+        if bytes.any(|b| !(is_hex(*b) || *b == b';')) {
             return None;
         }
         Some(Self(args))
@@ -17,11 +19,11 @@ impl<'a> ArgListHex<'a> {
 
     pub fn into_iter(self) -> impl Iterator<Item = &'a [u8]> + 'a {
         self.0
-            .split_mut(|b| *b == b';')
+            .into_iter()
+            .flat_map(|args| args.split_mut(|b| *b == b';'))
             // the `from_packet` method guarantees that the args are valid hex ascii, so this should
             // method should never fail.
             .map(|raw| decode_hex_buf(raw).unwrap_or(&mut []))
             .map(|s| s as &[u8])
-            .filter(|s| !s.is_empty())
     }
 }
diff --git a/src/stub/core_impl/catch_syscalls.rs b/src/stub/core_impl/catch_syscalls.rs
index 7f38222..7656754 100644
--- a/src/stub/core_impl/catch_syscalls.rs
+++ b/src/stub/core_impl/catch_syscalls.rs
@@ -26,6 +26,7 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                         let mut error = false;
                         let mut filter = sysno
                             .into_iter()
+                            .filter(|sysno| !sysno.is_empty())
                             .map(<T::Arch as Arch>::Usize::from_be_bytes)
                             .take_while(|x| {
                                 error = x.is_none();
-- 
2.43.0


From d01ce24328c97597bf2e6aef6afdadb7767880b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:36 +0000
Subject: [PATCH 17/21] fix: treat the last bytes as the most significant in
 from_le_bytes

---
 src/internal/le_bytes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/internal/le_bytes.rs b/src/internal/le_bytes.rs
index fa12499..cfb1fb9 100644
--- a/src/internal/le_bytes.rs
+++ b/src/internal/le_bytes.rs
@@ -28,7 +28,7 @@ macro_rules! impl_to_le_bytes {
                     let len = core::mem::size_of::<$num>();
 
                     let buf = if buf.len() > len {
-                        let (extra, buf) = buf.split_at(buf.len() - len);
+                        let (buf, extra) = buf.split_at(len);
                         if extra.iter().any(|&b| b != 0) {
                             return None
                         }
-- 
2.43.0


From 699c1a02263dfd361b7e0962bdc9bb506c89ea43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:36 +0000
Subject: [PATCH 18/21] fix: give BRBCR_EL2 an encoding of its own

---
 gdbstub_arch/src/aarch64/reg/id.rs   | 2 +-
 gdbstub_arch/src/aarch64/sysregs.xml | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gdbstub_arch/src/aarch64/reg/id.rs b/gdbstub_arch/src/aarch64/reg/id.rs
index c10e6ce..1c1f2bf 100644
--- a/gdbstub_arch/src/aarch64/reg/id.rs
+++ b/gdbstub_arch/src/aarch64/reg/id.rs
@@ -1806,7 +1806,7 @@ impl AArch64RegId {
     /// Branch Record Buffer Control Register (EL1)
     pub const BRBCR_EL1: Self = Self::System(0b10_001_1001_0000_000);
     /// Branch Record Buffer Control Register (EL2)
-    pub const BRBCR_EL2: Self = Self::System(0b10_001_1001_0000_000);
+    pub const BRBCR_EL2: Self = Self::System(0b10_100_1001_0000_000);
     /// Branch Record Buffer Function Control Register
     pub const BRBFCR_EL1: Self = Self::System(0b10_001_1001_0000_001);
     /// Branch Record Buffer Timestamp Register
diff --git a/gdbstub_arch/src/aarch64/sysregs.xml b/gdbstub_arch/src/aarch64/sysregs.xml
index bd643ee..e5538bd 100644
--- a/gdbstub_arch/src/aarch64/sysregs.xml
+++ b/gdbstub_arch/src/aarch64/sysregs.xml
@@ -350,7 +350,7 @@
   <reg name="BRBSRC31_EL1" bitsize="64" regnum="35965" group="system"/>
   <reg name="BRBTGT31_EL1" bitsize="64" regnum="35966" group="system"/>
   <reg name="BRBCR_EL1" bitsize="64" regnum="35968" group="system"/>
-  <reg name="BRBCR_EL2" bitsize="64" regnum="35968" group="system"/>
+  <reg name="BRBCR_EL2" bitsize="64" regnum="42112" group="system"/>
   <reg name="BRBFCR_EL1" bitsize="64" regnum="35969" group="system"/>
   <reg name="BRBTS_EL1" bitsize="64" regnum="35970" group="system"/>
   <reg name="BRBINFINJ_EL1" bitsize="64" regnum="35976" group="system"/>
-- 
2.43.0


From f994a9f5203d588b3c5c5c1f85bf360c0ea984ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:20 +0000
Subject: [PATCH 19/21] fix: make the RISC-V target descriptions <target>
 documents

GDB skips a root element other than <target>, so the description was
silently taken for an empty one.
---
 gdbstub_arch/src/riscv/rv32i.xml | 4 +++-
 gdbstub_arch/src/riscv/rv64i.xml | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/gdbstub_arch/src/riscv/rv32i.xml b/gdbstub_arch/src/riscv/rv32i.xml
index dc948c7..4bd7225 100644
--- a/gdbstub_arch/src/riscv/rv32i.xml
+++ b/gdbstub_arch/src/riscv/rv32i.xml
@@ -9,7 +9,8 @@
      compatibility with older versions of tools that didn't use xml
      register descriptions.  -->
 
-<!DOCTYPE feature SYSTEM "gdb-target.dtd">
+<!DOCTYPE target SYSTEM "gdb-target.dtd">
+<target version="1.0">
 <feature name="org.gnu.gdb.riscv.cpu">
   <reg name="zero" bitsize="32" type="int" regnum="0"/>
   <reg name="ra" bitsize="32" type="code_ptr"/>
@@ -45,3 +46,4 @@
   <reg name="t6" bitsize="32" type="int"/>
   <reg name="pc" bitsize="32" type="code_ptr"/>
 </feature>
+</target>
diff --git a/gdbstub_arch/src/riscv/rv64i.xml b/gdbstub_arch/src/riscv/rv64i.xml
index 60f42f2..9bfc315 100644
--- a/gdbstub_arch/src/riscv/rv64i.xml
+++ b/gdbstub_arch/src/riscv/rv64i.xml
@@ -9,7 +9,8 @@
      compatibility with older versions of tools that didn't use xml
      register descriptions.  -->
 
-<!DOCTYPE feature SYSTEM "gdb-target.dtd">
+<!DOCTYPE target SYSTEM "gdb-target.dtd">
+<target version="1.0">
 <feature name="org.gnu.gdb.riscv.cpu">
   <reg name="zero" bitsize="64" type="int" regnum="0"/>
   <reg name="ra" bitsize="64" type="code_ptr"/>
@@ -45,3 +46,4 @@
   <reg name="t6" bitsize="64" type="int"/>
   <reg name="pc" bitsize="64" type="code_ptr"/>
 </feature>
+</target>
-- 
2.43.0


From 700e826f3ee8bfaa9c3400ab46b3b649d3fe63f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:28 +0000
Subject: [PATCH 20/21] fix: leave streams in blocking mode after peeking

---
 src/conn/impls/tcpstream.rs  | 8 +++++++-
 src/conn/impls/unixstream.rs | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/conn/impls/tcpstream.rs b/src/conn/impls/tcpstream.rs
index ff9dd8f..7513a2c 100644
--- a/src/conn/impls/tcpstream.rs
+++ b/src/conn/impls/tcpstream.rs
@@ -46,7 +46,13 @@ impl ConnectionExt for TcpStream {
         self.set_nonblocking(true)?;
 
         let mut buf = [0u8];
-        match Self::peek(self, &mut buf) {
+        let res = Self::peek(self, &mut buf);
+
+        // don't leave the stream in non-blocking mode: writes must never fail with
+        // `WouldBlock`
+        self.set_nonblocking(false)?;
+
+        match res {
             Ok(0) => Err(std::io::ErrorKind::UnexpectedEof.into()),
             Ok(_) => Ok(Some(buf[0])),
             Err(ref e) if e.kind() == std::io::ErrorKind::WouldBlock => Ok(None),
diff --git a/src/conn/impls/unixstream.rs b/src/conn/impls/unixstream.rs
index 5ae9d8a..a7841d5 100644
--- a/src/conn/impls/unixstream.rs
+++ b/src/conn/impls/unixstream.rs
@@ -93,7 +93,13 @@ impl ConnectionExt for UnixStream {
         self.set_nonblocking(true)?;
 
         let mut buf = [0u8];
-        match PeekExt::peek(self, &mut buf) {
+        let res = PeekExt::peek(self, &mut buf);
+
+        // don't leave the stream in non-blocking mode: writes must never fail with
+        // `WouldBlock`
+        self.set_nonblocking(false)?;
+
+        match res {
             Ok(0) => Err(io::ErrorKind::UnexpectedEof.into()),
             Ok(_) => Ok(Some(buf[0])),
             Err(ref e) if e.kind() == std::io::ErrorKind::WouldBlock => Ok(None),
-- 
2.43.0


From 005cacdff79a8431671513cce8176433dbf460a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:43 +0000
Subject: [PATCH 21/21] fix: build with alloc but without std

---
 src/target/ext/tracepoints.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/target/ext/tracepoints.rs b/src/target/ext/tracepoints.rs
index d051e59..ae10dcc 100644
--- a/src/target/ext/tracepoints.rs
+++ b/src/target/ext/tracepoints.rs
@@ -121,7 +121,7 @@ impl<U: Copy> SourceTracepoint<'_, U> {
             kind: self.kind,
             start: self.start,
             slen: self.slen,
-            bytes: ManagedSlice::Owned(self.bytes.to_owned()),
+            bytes: ManagedSlice::Owned(self.bytes.to_vec()),
         }
     }
 }
-- 
2.43.0

