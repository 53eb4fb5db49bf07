B="src/stub/core_impl/base.rs"; I="src/stub/core_impl/"; C="src/protocol/commands/"; R=I+"resume.rs"; T=I+"tracepoints.rs"; A="gdbstub_arch/src/"; CI="src/stub/core_impl.rs"; SM="src/stub/state_machine.rs"
def sim(body, multi=False): return "\nfn main() {\n    let mut t = Tgt::<u32>::new(f::ALL | f::GUARD"+(" | f::MULTI" if multi else "")+");\n"+body+"}\n"
SEEDS=[
dict(id="noack-drops-multiprocess", prop="C37", needs="no-ack mode agreed after the multiprocess extensions",
 breaks="agreeing no-ack mode silently takes the multiprocess extensions back",
 edits=[(CI,"        self.set(ProtocolFeatures::NO_ACK_MODE, val)","        if val {\n            *self = ProtocolFeatures::NO_ACK_MODE;\n        }")],
 demo=sim('''    let mut s = S::new(&mut t);
    s.ask(&mut t, b"qSupported:multiprocess+");
    let a = s.ask(&mut t, b"?");
    s.ask(&mut t, b"QStartNoAckMode");
    let b = s.ask(&mut t, b"?");
    check(a == b && a.contains("p01."), "the same form", &(a, b));
''', True)),
dict(id="fault-moves-selection", prop="C37", needs="a selected thread and a request that the target refuses with EFAULT",
 breaks="a refused request changes the thread that later requests use",
 edits=[(CI,"                    Err(InternalError::NonFatalError(code)) => {\n                        res","                    Err(InternalError::NonFatalError(code)) => {\n                        // the address is not mapped for the selected thread\n                        if code == 14 {\n                            self.current_mem_tid = SINGLE_THREAD_TID;\n                        }\n                        res")],
 demo=sim('''    t.threads = vec![1, 2];
    t.inj = vec![("read_addrs", 0, Inj::Errno(14))];
    let mut s = S::new(&mut t);
    s.ask(&mut t, b"Hg2");
    s.ask(&mut t, b"m10,1");
    t.take_log();
    s.ask(&mut t, b"g");
    let l = t.take_log();
    check(l.iter().any(|c| c.f == "read_registers" && c.n[0] == 2), "thread 2", &l);
''', True)),
dict(id="unknown-quota", prop="C37", needs="more than 64 unknown packets, also over several sessions of the process",
 breaks="after many unknown packets later ones are answered by an error instead of the empty reply",
 edits=[(CI,"            Command::Unknown(cmd) => {\n","            Command::Unknown(cmd) => {\n                // don't let a confused client flood the log\n                use core::sync::atomic::{AtomicUsize, Ordering};\n                static UNKNOWN: AtomicUsize = AtomicUsize::new(0);\n                if UNKNOWN.fetch_add(1, Ordering::Relaxed) > 64 {\n                    return Err(InternalError::NonFatalError(38));\n                }\n\n")],
 demo=sim('''    let mut got = vec![];
    for _ in 0..50 {
        let mut s = S::new(&mut t);
        for _ in 0..2 { got.push(s.ask(&mut t, b"qMade.up")); }
    }
    check(got.iter().all(|g| g == ""), "all empty", &got);
''')),
dict(id="range-step-caps", prop="C15", needs="a vCont with more than eight actions for threads of their own",
 breaks="the actions after the eighth are dropped, so those threads continue freely instead of stepping",
 edits=[(R,"        for action in actions.iter() {\n            use crate::protocol::commands::_vCont::VContKind;\n\n            let action","        for (i, action) in actions.iter().enumerate() {\n            use crate::protocol::commands::_vCont::VContKind;\n\n            if i > 8 {\n                break;\n            }\n\n            let action")],
 demo=sim('''    t.threads = (1..=12).collect();
    let mut s = S::new(&mut t);
    let p: String = (1..=12).map(|i| format!(";s:{:x}", i)).collect();
    s.ask(&mut t, format!("vCont{}", p).as_bytes());
    let l = t.take_log();
    check(l.iter().filter(|c| c.f.contains("step")).count() == 12, "12 steps", &l);
''', True)),
dict(id="interrupted-error-running", prop="C06", needs="an interrupt while running, answered without a stop reason, then a stop",
 breaks="after an interrupt that is only noted the state machine is idle although the target still runs",
 edits=[(SM,"            let gdb = self.transition(state::Running {});\n            match stop_reason {\n                Some(reason) => gdb.report_stop(target, reason),\n                None => Ok(gdb.into()),\n            }","            match stop_reason {\n                Some(reason) => self.transition(state::Running {}).report_stop(target, reason),\n                None if self.i.inner_noted() => Ok(self\n                    .transition(state::Idle {\n                        deferred_ctrlc_stop_reason: None,\n                    })\n                    .into()),\n                None => Ok(self.transition(state::Running {}).into()),\n            }"),
  (SM,"struct GdbStubStateMachineReallyInner<'a, T: Target, C: Connection> {\n    conn: C,\n    packet_buffer: ManagedSlice<'a, u8>,\n    recv_packet: RecvPacketStateMachine,\n","struct GdbStubStateMachineReallyInner<'a, T: Target, C: Connection> {\n    conn: C,\n    packet_buffer: ManagedSlice<'a, u8>,\n    recv_packet: RecvPacketStateMachine,\n    noted: bool,\n"),
  (SM,"                recv_packet: RecvPacketStateMachine::new(),\n","                recv_packet: RecvPacketStateMachine::new(),\n                noted: false,\n"),
  (SM,"/// Core state machine implementation that is parameterized","impl<T: Target, C: Connection> GdbStubStateMachineReallyInner<'_, T, C> {\n    /// a second interrupt in a row means that the target does not react\n    fn inner_noted(&mut self) -> bool {\n        core::mem::replace(&mut self.noted, true)\n    }\n}\n\n/// Core state machine implementation that is parameterized")],
 demo=sim('''    let mut s = S::new(&mut t);
    s.ask(&mut t, b"vCont;c");
    for _ in 0..2 {
        s.raw(&mut t, b"\\x03");
        s.intr(&mut t, None::<MultiThreadStopReason<u32>>);
    }
    check(s.st() == "running", "still running", &s.st());
''')),
dict(id="blocking-eof-disconnect", prop="C07", needs="an idle session whose connection reports an error while waiting for a byte after at least one packet",
 breaks="the blocking loop ends with Disconnect instead of the connection's error",
 edits=[("src/stub/mod.rs","                    let byte = gdb.borrow_conn().read().map_err(InternalError::conn_read)?;\n                    gdb.incoming_data(target, byte)?","                    match gdb.borrow_conn().read() {\n                        Ok(byte) => {\n                            seen += 1;\n                            gdb.incoming_data(target, byte)?\n                        }\n                        Err(_) if seen > 8 => break Ok(DisconnectReason::Disconnect),\n                        Err(e) => break Err(InternalError::conn_read(e).into()),\n                    }"),
  ("src/stub/mod.rs","        let mut gdb = self.run_state_machine(target)?;\n        loop {","        let mut seen = 0usize;\n        let mut gdb = self.run_state_machine(target)?;\n        loop {")],
 demo='''
use gdbstub::conn::ConnectionExt;
use gdbstub::stub::run_blocking;
use gdbstub::stub::SingleThreadStopReason;
struct C(std::collections::VecDeque<u8>);
impl gdbstub::conn::Connection for C {
    type Error = u32;
    fn write(&mut self, _: u8) -> Result<(), u32> { Ok(()) }
    fn flush(&mut self) -> Result<(), u32> { Ok(()) }
}
impl ConnectionExt for C {
    fn read(&mut self) -> Result<u8, u32> { self.0.pop_front().ok_or(77) }
    fn peek(&mut self) -> Result<Option<u8>, u32> { Ok(self.0.front().copied()) }
}
struct L;
impl run_blocking::BlockingEventLoop for L {
    type Target = Tgt<u32>;
    type Connection = C;
    type StopReason = SingleThreadStopReason<u32>;
    fn wait_for_stop_reason(_: &mut Tgt<u32>, _: &mut C) -> Result<run_blocking::Event<Self::StopReason>, run_blocking::WaitForStopReasonError<u32, u32>> {
        Ok(run_blocking::Event::TargetStopped(SingleThreadStopReason::DoneStep))
    }
    fn on_interrupt(_: &mut Tgt<u32>) -> Result<Option<Self::StopReason>, u32> { Ok(None) }
}
fn main() {
    let mut t = Tgt::<u32>::new(f::ALL | f::GUARD);
    let c = C(b"$m10,1#2b$m10,1#2b".iter().copied().collect());
    let r = gdbstub::stub::GdbStub::new(c).run_blocking::<L>(&mut t);
    check(r.is_err(), "the connection's error", &format!("{:?}", r));
}
'''),
dict(id="x-empty-skips", prop="C11", needs="an X packet whose data is one escaped byte only",
 breaks="a write of exactly one escaped byte is acknowledged without being done",
 edits=[(I+"x_upcase_packet.rs","                match target.base_ops() {\n                    BaseOps::SingleThread(ops) => ops.write_addrs(addr, cmd.val),","                // zero-length probe\n                if cmd.probe {\n                    return Ok(HandlerStatus::NeedsOk);\n                }\n\n                match target.base_ops() {\n                    BaseOps::SingleThread(ops) => ops.write_addrs(addr, cmd.val),"),
   (C+"_x_upcase.rs","    pub val: &'a [u8],\n}","    pub val: &'a [u8],\n    pub probe: bool,\n}"),
   (C+"_x_upcase.rs","        let val = decode_bin_buf(body.next()?)?;\n\n        Some(X { addr, val })","        let val = body.next()?;\n        let len = val.len();\n        let val = decode_bin_buf(val)?;\n        let probe = val.len() + 1 == len && len == 2;\n\n        Some(X { addr, val, probe })")],
 demo=sim('''    let mut s = S::new(&mut t);
    s.ask(&mut t, b"X10,1:}\\x03");
    let l = t.take_log();
    check(l.iter().any(|c| c.f == "write_addrs" && c.b[0] == b"#"), "written", &l);
''')),
dict(id="hg-any-first-time", prop="C14", needs="a thread selection of 'any' when a valid thread is selected already",
 breaks="'any thread' in Hc is taken as 'all threads' when all threads were selected before",
 edits=[(B,"                            Some(tid) => self.current_resume_tid = SpecificIdKind::WithId(tid),","                            Some(_) if self.current_resume_tid == SpecificIdKind::All => {}\n                            Some(tid) => self.current_resume_tid = SpecificIdKind::WithId(tid),")],
 demo=sim('''    t.threads = vec![3, 4];
    let mut s = S::new(&mut t);
    s.ask(&mut t, b"Hc-1");
    s.ask(&mut t, b"Hc0");
    t.take_log();
    s.ask(&mut t, b"bs");
    let l = t.take_log();
    check(l.iter().any(|c| c.f == "reverse_step"), "one thread", &l);
''', True)),
dict(id="stub-upper-s", prop="C21", needs="an S packet (step with signal) to a target that cannot be resumed",
 breaks="the client gets the empty reply instead of a stop and an explanation",
 edits=[(CI,"matches!(c, b'c' | b'C' | b's' | b'S')","matches!(c, b'c' | b'C' | b's')")],
 demo='''
fn main() {
    let mut t = Tgt::<u32>::new(f::PLAIN);
    let mut s = S::new(&mut t);
    let r = s.pkt(&mut t, b"S05");
    check(last(&r).starts_with("S05"), "stop reply", &last(&r));
}
'''),
dict(id="padded-address", prop="C32", needs="an address padded with more than sixteen zero digits",
 breaks="an address that is padded a lot is refused although it fits",
 edits=[("src/internal/be_bytes.rs","                        if extra.iter().any(|&b| b != 0) {","                        if extra.len() > len || extra.iter().any(|&b| b != 0) {")],
 demo=sim('''    let mut s = S::new(&mut t);
    let r = s.ask(&mut t, b"m00000000000000000000000010,1");
    check(r.len() == 2, "read", &r);
''')),
]
