B="src/stub/core_impl/base.rs"; I="src/stub/core_impl/"; C="src/protocol/commands/"; R=I+"resume.rs"; T=I+"tracepoints.rs"; A="gdbstub_arch/src/"
def sim(body, multi=False): return "\nfn main() {\n    let mut t = Tgt::<u32>::new(f::ALL | f::GUARD"+(" | f::MULTI" if multi else "")+");\n"+body+"}\n"
SEEDS=[
dict(id="short-first-chunk", prop="C10", needs="a read longer than the packet buffer's room, whose first piece the target answers short",
 breaks="reading goes on behind the hole, so the bytes after it are shown at the wrong addresses",
 edits=[(B,"                    if data_len < chunk_size {\n                        break;\n                    }","                    if data_len < chunk_size && n == 0 {\n                        break;\n                    }")],
 demo=sim('''    t.read_caps = vec![3];
    let mut s = S::sized(&mut t, 24);
    let r = s.ask(&mut t, b"m1000,40");
    check(r.len() == 6, "prefix", &r);
''')),
dict(id="none-zero-multiprocess", prop="C12", needs="an unavailable register byte and the multiprocess extension",
 breaks="unavailable register bytes are shown as zeros",
 edits=[(B,"None => res.write_str(\"xx\"),","None if self.features.multiprocess() => res.write_hex_buf(&[0]),\n                        None => res.write_str(\"xx\"),")],
 demo=sim('''    let mut s = S::new(&mut t);
    let a = s.ask(&mut t, b"g");
    s.ask(&mut t, b"qSupported:multiprocess+");
    let b = s.ask(&mut t, b"g");
    check(a == b && a.contains("xx"), "same file", &(a, b));
''')),
dict(id="range-end-out", prop="C16", needs="a range step whose end does not fit the target's addresses",
 breaks="instead of being refused, the request becomes a step over an empty range",
 edits=[(R,"""                let start = start.decode().map_err(|_| Error::TargetMismatch)?;
                let end = end.decode().map_err(|_| Error::TargetMismatch)?;

                ops.resume_range_step""","""                let start = start.decode().map_err(|_| Error::TargetMismatch)?;
                let end = end.decode().unwrap_or(start);

                ops.resume_range_step""")],
 demo=sim('''    let mut s = S::new(&mut t);
    s.ask(&mut t, b"vCont;r1000,100000000");
    check(s.st() == "error", "refused", &(s.st(), calls(&t)));
''')),
dict(id="watch-empty-access", prop="C17", needs="the removal of an access watchpoint of length 0",
 breaks="the target is asked to remove a write watchpoint instead of an access watchpoint",
 edits=[(I+"breakpoints.rs","CmdKind::Remove => ops.remove_hw_watchpoint(addr, len, kind),","CmdKind::Remove => ops.remove_hw_watchpoint(\n                        addr,\n                        len,\n                        if cmd.kind.iter().all(|b| *b == 0) {\n                            WatchKind::Write\n                        } else {\n                            kind\n                        },\n                    ),")],
 demo=sim('''    let mut s = S::new(&mut t);
    s.ask(&mut t, b"Z4,10,0");
    let a = t.take_log();
    s.ask(&mut t, b"z4,10,0");
    let b = t.take_log();
    check(!a.is_empty() && a.iter().map(|c| &c.n).eq(b.iter().map(|c| &c.n)), "same kind", &(a, b));
''')),
dict(id="watch-at-zero", prop="C18", needs="a watchpoint hit at address 0",
 breaks="the address of the hit is left out of the stop reply when it is 0",
 edits=[(R,"                res.write_num(addr)?;\n                res.write_str(\";\")?;","                if addr != num_traits::Zero::zero() {\n                    res.write_num(addr)?;\n                }\n                res.write_str(\";\")?;")],
 demo=sim('''    let mut s = S::new(&mut t);
    s.ask(&mut t, b"c");
    let r = s.stop(&mut t, SingleThreadStopReason::Watch { tid: (), kind: gdbstub::target::ext::breakpoints::WatchKind::Write, addr: 0 });
    check(r.contains("watch:0"), "address", &r);
''')),
dict(id="any-thread-alive", prop="C19", needs="a question about a thread that does not exist, on a single-threaded target",
 breaks="every thread id is said to be alive",
 edits=[(B,"BaseOps::SingleThread(_) => tid == SINGLE_THREAD_TID,","BaseOps::SingleThread(_) => tid.get() >= SINGLE_THREAD_TID.get(),")],
 demo=sim('''    let mut s = S::new(&mut t);
    let r = (s.ask(&mut t, b"T1"), s.ask(&mut t, b"T2"));
    check(r.0 == "OK" && r.1.starts_with('E'), "alive", &r);
''')),
dict(id="annex-prefix", prop="C22", needs="a request for a target description annex whose name begins with target.xml",
 breaks="the main description is handed out for another annex",
 edits=[(I+"target_xml.rs",'cmd.annex.name != b"target.xml"','!cmd.annex.name.starts_with(b"target.xml")')],
 demo=sim('''    t.fl &= !f::XMLOV;
    ARCH_XML.with(|x| x.set(Some("<target></target>")));
    let mut s = S::new(&mut t);
    let r = s.ask(&mut t, b"qXfer:features:read:target.xml2:0,100");
    check(!r.contains("<target>"), "other annex", &r);
''')),
dict(id="link-nul", prop="C23", needs="a link text whose last byte is 0",
 breaks="the last byte of the link text is cut off",
 edits=[(I+"host_io.rs","""                        res.write_num(ret)?;
                        res.write_str(";")?;
                        res.write_binary(cmd.buf.get(..ret).ok_or(Error::PacketBufferOverflow)?)?;
                    }
                };

                HandlerStatus::Handled
            }
            HostIo::vFileSetfs""","""                        let ret = match cmd.buf.get(..ret) {
                            Some([text @ .., 0]) if !text.is_empty() => text.len(),
                            _ => ret,
                        };
                        res.write_num(ret)?;
                        res.write_str(";")?;
                        res.write_binary(cmd.buf.get(..ret).ok_or(Error::PacketBufferOverflow)?)?;
                    }
                };

                HandlerStatus::Handled
            }
            HostIo::vFileSetfs""")],
 demo=sim('''    t.blob = b"ab\\0".to_vec();
    let mut s = S::new(&mut t);
    let r = s.ask(&mut t, b"vFile:readlink:2f");
    check(r.contains(";ab\\0"), "link", &r);
''')),
dict(id="kill-invents-pid", prop="C24", needs="a plain k in extended mode",
 breaks="a kill without a process names one to the target",
 edits=[(B,"                            Base::vKill(cmd) => Some(cmd.pid),\n                            _ => None,","                            Base::vKill(cmd) => Some(cmd.pid),\n                            _ if self.features.multiprocess() => Some(FAKE_PID),\n                            _ => None,")],
 demo=sim('''    let mut s = S::new(&mut t);
    s.ask(&mut t, b"qSupported:multiprocess+");
    t.take_log();
    s.ask(&mut t, b"k");
    let l = t.take_log();
    check(l.iter().any(|c| c.f == "kill" && c.n == [NONE]), "kill", &l);
''')),
dict(id="console-lone-nul", prop="C25", needs="a monitor command that prints a single NUL between two flushes",
 breaks="a piece of output which is just a NUL is dropped",
 edits=[("src/protocol/console_output.rs","if !self.buf.is_empty() {","if self.buf.iter().any(|b| *b != 0) {")],
 demo=sim('''    t.monitor_out = vec![Some(vec![0]), None, Some(b"x".to_vec())];
    let mut s = S::new(&mut t);
    let r = s.pkt(&mut t, b"qRcmd,61");
    let r = String::from_utf8_lossy(&r).to_string();
    check(r.contains("$O00#"), "NUL", &r);
''')),
dict(id="catch-zero", prop="C26", needs="a list of system calls that holds number 0",
 breaks="system call 0 is not caught although asked for",
 edits=[(I+"catch_syscalls.rs",".flatten();",".flatten()\n                            .filter(|number| !num_traits::Zero::is_zero(number));")],
 demo=sim('''    let mut s = S::new(&mut t);
    s.ask(&mut t, b"QCatchSyscalls:1;1;0;2");
    let l = t.take_log();
    check(l.iter().any(|c| c.n == [1, 0, 2]), "list", &l);
''')),
dict(id="action-257", prop="C27", needs="a tracepoint with more than 256 actions",
 breaks="the walk over the actions starts over at the 257th and never ends",
 edits=[(T,"""            ) => Some(TracepointEnumerateCursor::Action {
                tp,
                addr,
                step: step + 1,""","""            ) => Some(TracepointEnumerateCursor::Action {
                tp,
                addr,
                step: (step as u8).wrapping_add(1) as u64,""")],
 demo=sim('''    t.tps = vec![TpM { num: 1, addr: 0x10, enabled: true, step: 0, pass: 0, actions: (0..300u32).map(|i| ActM::Expr(i.to_be_bytes().to_vec())).collect(), sources: vec![] }];
    let mut s = S::new(&mut t);
    let mut seen = vec![s.ask(&mut t, b"qTfP")];
    for _ in 0..301 {
        seen.push(s.ask(&mut t, b"qTsP"));
    }
    seen.sort();
    let n = seen.len();
    seen.dedup();
    check(seen.len() == n || seen.len() == 302, "distinct", &(n, seen.len()));
''')),
dict(id="outside-none", prop="C28", needs="a frame request of the outside kind which finds nothing",
 breaks="instead of F-1 an empty reply is sent, which means that tracing is not supported",
 edits=[(T,"let mut any_results = false;\n                ops.select_frame(","let mut any_results = matches!(parsed_req, FrameRequest::Outside(..));\n                ops.select_frame(")],
 demo=sim('''    let mut s = S::new(&mut t);
    t.frames = vec![];
    let r = (s.ask(&mut t, b"QTFrame:range:10:20"), s.ask(&mut t, b"QTFrame:outside:10:20"));
    check(r.1 == "F-1", "nothing found", &r);
''')),
dict(id="dec-ten", prop="C29", needs="a register description with a number that is a power of ten",
 breaks="10, 100, ... are printed as a colon or with a wrong first digit",
 edits=[("src/protocol/response_writer.rs","while d >= ten {","while d > ten {")],
 demo=sim('''    t.lldb_override = Some(|i| if i > 0 { None } else { Some(gdbstub::arch::lldb::Register { name: "r", alt_name: None, bitsize: 8, offset: 10, encoding: gdbstub::arch::lldb::Encoding::Uint, format: gdbstub::arch::lldb::Format::Hex, set: "g", gcc: None, dwarf: None, generic: None, container_regs: None, invalidate_regs: None }) });
    let mut s = S::new(&mut t);
    let r = s.ask(&mut t, b"qRegisterInfo0");
    check(r.contains("offset:10;"), "offset", &r);
''')),
dict(id="ppc-xer-ctr", prop="C30", needs="a PowerPC register file with different XER and CTR",
 breaks="XER and CTR change places on the wire, consistently for reading and writing",
 alone=True,
 edits=[(A+"ppc/reg/common.rs","parse_regs!(0x180..0x19c, pc, msr, cr, lr, ctr, xer, fpscr);","parse_regs!(0x180..0x19c, pc, msr, cr, lr, xer, ctr, fpscr);"),(A+"ppc/reg/common.rs","write_regs!(pc, msr, cr, lr, ctr, xer, fpscr);","write_regs!(pc, msr, cr, lr, xer, ctr, fpscr);")],
 demo='''
use gdbstub::arch::Registers;
fn main() {
    let r = gdbstub_arch::ppc::reg::PowerPcCommonRegs { ctr: 0x11, xer: 0x22, ..Default::default() };
    let mut v = vec![];
    r.gdb_serialize(|b| v.push(b));
    assert_eq!(v[0x193], Some(0x11), "register 68 is CTR");
    assert_eq!(v[0x197], Some(0x22), "register 69 is XER");
}
'''),
dict(id="riscv-csr-mirror", prop="C31", needs="a RISC-V CSR number of 0x800 or more",
 breaks="the upper half of the CSRs is taken for the lower half",
 alone=True,
 edits=[(A+"riscv/reg/id.rs","65..=4160 => (Self::Csr((id - 65) as u16), USIZE),","65..=4160 => (Self::Csr(((id - 65) & 0x7ff) as u16), USIZE),")],
 demo='''
use gdbstub::arch::RegId;
use gdbstub_arch::riscv::reg::id::RiscvRegId;
fn main() {
    match RiscvRegId::<u32>::from_raw_id(65 + 0xc00) {
        Some((RiscvRegId::Csr(n), _)) => assert_eq!(n, 0xc00, "cycle"),
        o => panic!("{:?}", o),
    }
}
'''),
dict(id="peek-shutdown", prop="C33", needs="a Unix stream peer that closes before peek is called",
 breaks="the end of the stream is reported as no data yet, forever",
 alone=True,
 edits=[("src/conn/impls/unixstream.rs","Ok(0) => Err(io::ErrorKind::UnexpectedEof.into()),","Ok(0) => Ok(None),")],
 demo='''
use gdbstub::conn::ConnectionExt;
use std::os::unix::net::UnixStream;
fn main() {
    let (mut a, b) = UnixStream::pair().unwrap();
    drop(b);
    let r = ConnectionExt::peek(&mut a);
    assert!(r.is_err(), "end of stream: {:?}", r);
}
'''),
dict(id="boxed-ext-start", prop="C34", needs="a boxed connection that also reads, whose session start does something",
 breaks="the session start hook of a boxed readable connection is never called",
 alone=True,
 edits=[("src/conn/impls/boxed.rs","impl<E> Connection for Box<dyn ConnectionExt<Error = E>> {\n    type Error = E;\n\n    fn write(&mut self, byte: u8) -> Result<(), Self::Error> {\n        (**self).write(byte)\n    }\n\n    fn write_all(&mut self, buf: &[u8]) -> Result<(), Self::Error> {\n        (**self).write_all(buf)\n    }\n\n    fn flush(&mut self) -> Result<(), Self::Error> {\n        (**self).flush()\n    }\n\n    fn on_session_start(&mut self) -> Result<(), Self::Error> {\n        (**self).on_session_start()\n    }\n}","impl<E> Connection for Box<dyn ConnectionExt<Error = E>> {\n    type Error = E;\n\n    fn write(&mut self, byte: u8) -> Result<(), Self::Error> {\n        (**self).write(byte)\n    }\n\n    fn write_all(&mut self, buf: &[u8]) -> Result<(), Self::Error> {\n        (**self).write_all(buf)\n    }\n\n    fn flush(&mut self) -> Result<(), Self::Error> {\n        (**self).flush()\n    }\n}")],
 demo='''
use gdbstub::conn::{Connection, ConnectionExt};
struct C;
impl Connection for C {
    type Error = u8;
    fn write(&mut self, _: u8) -> Result<(), u8> { Ok(()) }
    fn flush(&mut self) -> Result<(), u8> { Ok(()) }
    fn on_session_start(&mut self) -> Result<(), u8> { Err(7) }
}
impl ConnectionExt for C {
    fn read(&mut self) -> Result<u8, u8> { Ok(0) }
    fn peek(&mut self) -> Result<Option<u8>, u8> { Ok(None) }
}
fn main() {
    let mut b: Box<dyn ConnectionExt<Error = u8>> = Box::new(C);
    assert_eq!(Connection::on_session_start(&mut b), Err(7));
}
'''),
dict(id="builder-order", prop="C35", needs="a builder that is given the size first and the buffer second",
 breaks="the size set before the buffer is forgotten",
 edits=[("src/stub/builder.rs","        self.packet_buffer = Some(packet_buffer);\n","        self.packet_buffer = Some(packet_buffer);\n        self.packet_buffer_size = None;\n")],
 demo='''
fn main() {
    let mut buf = [0u8; 64];
    let r = GdbStub::<Tgt<u32>, Out>::builder(Out::default()).packet_buffer_size(100).with_packet_buffer(&mut buf).build();
    check(r.is_err(), "too small a buffer", &r.is_ok());
}
'''),
dict(id="idle-again-forgets", prop="C05", needs="a session that goes on after the program has exited, with no-ack mode agreed",
 breaks="what the client and the stub had agreed on is forgotten when the session returns to idle",
 edits=[("src/stub/state_machine.rs","    pub fn return_to_idle(self) -> GdbStubStateMachine<'a, T, C> {","    pub fn return_to_idle(mut self) -> GdbStubStateMachine<'a, T, C> {\n        if matches!(self.state.reason, DisconnectReason::TargetExited(_)) {\n            self.i.inner = GdbStubImpl::new();\n        }")],
 demo='''
use gdbstub::stub::state_machine::GdbStubStateMachine as M;
fn frame(b: &str) -> Vec<u8> { format!("${}#{:02x}", b, b.bytes().fold(0u8, |a, b| a.wrapping_add(b))).into_bytes() }
fn main() {
    let mut t = Tgt::<u32>::new(f::ALL | f::GUARD);
    let out = Out::default();
    let g = GdbStub::builder(out.clone()).build().unwrap_or_else(|_| panic!());
    let mut m = g.run_state_machine(&mut t).unwrap_or_else(|_| panic!());
    let mut feed = |mut m: M<'static, Tgt<u32>, Out>, t: &mut Tgt<u32>, p: &str| {
        for b in frame(p) {
            m = match m { M::Idle(g) => g.incoming_data(t, b).unwrap_or_else(|_| panic!()), _ => panic!() };
        }
        m
    };
    m = feed(m, &mut t, "QStartNoAckMode");
    m = feed(m, &mut t, "vCont;c");
    m = match m { M::Running(g) => g.report_stop(&mut t, SingleThreadStopReason::Exited(0)).unwrap_or_else(|_| panic!()), _ => panic!() };
    m = match m { M::Disconnected(g) => g.return_to_idle(), _ => panic!() };
    out.0.borrow_mut().clear();
    feed(m, &mut t, "?");
    check(out.0.borrow()[0] == b'$', "no acknowledgement", &out.0.borrow());
}
'''),
dict(id="older-interrupt-wins", prop="C06", needs="two interrupts while idle, the first with a reason and the second without",
 breaks="the deferred reason of the first interrupt is lost when the second brings none and replaced when a resume follows",
 edits=[("src/stub/state_machine.rs","deferred_ctrlc_stop_reason: stop_reason.map(Into::into).or(prev_deferred),","deferred_ctrlc_stop_reason: prev_deferred.and(stop_reason.map(Into::into)),")],
 demo=sim('''    let mut s = S::new(&mut t);
    s.raw(&mut t, &[3]);
    s.intr(&mut t, Some(SingleThreadStopReason::Signal(Signal::SIGINT)));
    let r = s.ask(&mut t, b"c");
    check(r.starts_with("S02") || r.starts_with("T02"), "deferred", &(r, s.st()));
''')),
dict(id="nack-flush-lost", prop="C08", needs="a flush that fails right after a resume request",
 breaks="the failure of the flush after a resume request is swallowed",
 edits=[("src/stub/core_impl.rs","res.as_conn().flush().map_err(InternalError::conn_write)?;","if res.as_conn().flush().is_err() {\n                                warn!(\"could not flush\");\n                            }")],
 demo='''
use gdbstub::conn::Connection;
use gdbstub::stub::state_machine::GdbStubStateMachine as M;
struct Bad;
impl Connection for Bad {
    type Error = u32;
    fn write(&mut self, _b: u8) -> Result<(), u32> { Ok(()) }
    fn flush(&mut self) -> Result<(), u32> { Err(9) }
}
fn main() {
    let mut t = Tgt::<u32>::new(f::ALL | f::GUARD);
    let g = GdbStub::builder(Bad).build().unwrap_or_else(|_| panic!());
    let mut m = g.run_state_machine(&mut t).unwrap_or_else(|_| panic!());
    for b in b"$vCont;c#a8" {
        m = match m {
            M::Idle(g) => match g.incoming_data(&mut t, *b) {
                Ok(m) => m,
                Err(_) => return,
            },
            _ => break,
        };
    }
    check(false, "flush error reported", &"running");
}
'''),
dict(id="errno-cap", prop="C09", needs="an io::Error with an errno above 99",
 breaks="errno values of 100 and more are replaced by the default",
 edits=[("src/stub/core_impl.rs","e.raw_os_error().unwrap_or(121)","e.raw_os_error().filter(|code| *code < 100).unwrap_or(121)")],
 demo=sim('''    t.inj = vec![("read_addrs", 0, Inj::Io(110))];
    let mut s = S::new(&mut t);
    let r = s.ask(&mut t, b"m10,1");
    check(r == "E6e", "errno", &r);
''')),
dict(id="wide-register-id", prop="C13", needs="a P with a register number above 255",
 breaks="register numbers are cut to their low byte, so another register is overwritten",
 edits=[(C+"_p_upcase.rs","let reg_id = decode_hex(body.next()?).ok()?;","let reg_id = decode_hex::<u64>(body.next()?).ok()? as u8 as usize;")],
 demo=sim('''    let mut s = S::new(&mut t);
    s.ask(&mut t, b"P103=01020304");
    let l = t.take_log();
    check(!l.iter().any(|c| c.f == "write_register" && c.n.contains(&3)), "not register 3", &l);
''')),
dict(id="dollar-in-data", prop="C02", needs="a long binary packet whose data holds a dollar sign after byte 64",
 breaks="a dollar sign inside of a long packet restarts it",
 edits=[("src/protocol/recv_packet.rs","""            State::Body => {
                if byte == b'#' {
                    self.state = State::Checksum1;
                }
            }""","""            State::Body => {
                if byte == b'#' {
                    self.state = State::Checksum1;
                } else if byte == b'$' && self.idx > 64 {
                    self.idx = 1;
                }
            }""")],
 demo=sim('''    let mut s = S::new(&mut t);
    let mut p = b"X10,50:".to_vec();
    p.extend([b'a'; 0x4f]);
    p.push(b'$');
    let r = s.ask(&mut t, &p);
    check(r == "OK", "written", &(r, s.st()));
''')),
dict(id="rle-eight", prop="C03", needs="a run of exactly ten equal characters in a reply",
 breaks="a run whose count character would be a dollar sign is sent with it",
 edits=[("src/protocol/response_writer.rs","                    7 | 8 => {","                    7 => {")],
 demo=sim('''    let mut bad = vec![];
    for n in 1..20 {
        t.monitor_out = vec![Some(vec![0x11; n])];
        let mut s = S::new(&mut t);
        let r = s.pkt(&mut t, b"qRcmd,61");
        let body = &r[2..r.iter().position(|b| *b == b'#' ).unwrap()];
        if body.contains(&b'$') { bad.push(n) }
    }
    check(bad.is_empty(), "no dollar", &bad);
''')),
]
