SEEDS=[
dict(id="empty-range-step", prop="C16", needs="a range step whose end equals its start",
 breaks="an empty range is refused, although it is defined to step once",
 edits=[("src/stub/core_impl/resume.rs","VContKind::RangeStep(start, end) if ops.support_range_step().is_some() => {\n                let ops = ops.support_range_step().unwrap();\n\n                let start = start.decode()","VContKind::RangeStep(start, end)\n                if ops.support_range_step().is_some() && start.0 != end.0 =>\n            {\n                let ops = ops.support_range_step().unwrap();\n\n                let start = start.decode()")],
 demo='''
fn main() {
    let mut t = Tgt::<u32>::new(f::ALL | f::GUARD);
    let mut s = S::new(&mut t);
    s.ask(&mut t, b"vCont;r1000,1000:1");
    let l = calls(&t);
    check(s.st() == "running" && l.contains("range_step"), "range step", &(s.st(), l));
}
'''),
dict(id="z-cond-list", prop="C17", needs="a Z packet which carries a list of conditions or commands after the kind",
 breaks="the condition list becomes part of the kind, so such breakpoints are refused as malformed",
 edits=[("src/protocol/commands/breakpoint.rs","let mut body = body.splitn_mut(4, |b| matches!(*b, b',' | b';'));","let mut body = body.splitn_mut(3, |b| matches!(*b, b',' | b';'));")],
 demo='''
fn main() {
    let mut t = Tgt::<u32>::new(f::ALL | f::GUARD);
    let mut s = S::new(&mut t);
    let a = s.ask(&mut t, b"Z0,1000,2");
    let b = s.ask(&mut t, b"Z0,1000,2;X3,220027");
    check(a == "OK" && b == "OK" , "set", &(a, b));
}
'''),
dict(id="console-error-lost", prop="C08", needs="a connection whose write fails once while a monitor command prints, then works again",
 breaks="a connection error under monitor output is overwritten by the result of the next piece of output, so the session goes on with a hole in the stream",
 edits=[("src/stub/core_impl/monitor_cmd.rs","""                    if let Err(e) = e {
                        err = Err(e)
                    }""","""                    err = e;""")],
 demo='''
use gdbstub::conn::Connection;
use gdbstub::stub::state_machine::GdbStubStateMachine as M;
struct Flaky(usize, usize);
impl Connection for Flaky {
    type Error = u32;
    fn write(&mut self, _b: u8) -> Result<(), u32> {
        self.0 += 1;
        if self.0 == self.1 { Err(77) } else { Ok(()) }
    }
    fn flush(&mut self) -> Result<(), u32> { Ok(()) }
}
fn main() {
    for at in 1..30 {
        let mut t = Tgt::<u32>::new(f::ALL | f::GUARD);
        t.monitor_out = vec![Some(b"ab".to_vec()), None, Some(b"cd".to_vec())];
        let g = GdbStub::builder(Flaky(0, at)).build().unwrap_or_else(|_| panic!());
        let mut m = g.run_state_machine(&mut t).unwrap_or_else(|_| panic!());
        let mut failed = false;
        let body = b"qRcmd,6162";
        let sum = body.iter().fold(0u8, |a, b| a.wrapping_add(*b));
        for b in format!("$qRcmd,6162#{:02x}", sum).bytes() {
            m = match m {
                M::Idle(g) => match g.incoming_data(&mut t, b) {
                    Ok(m) => m,
                    Err(_) => { failed = true; break }
                },
                _ => panic!(),
            };
        }
        check(failed || at >= 26, "the connection error", &at);
    }
}
'''),
dict(id="guard-reverse-step", prop="C18", needs="a multi-threaded target which implements only one of reverse step and reverse continue, and reports a replay log position",
 breaks="a replay log stop of a target with only reverse step is refused",
 edits=[("src/stub/core_impl/resume.rs","reverse_cont || reverse_step","reverse_cont")],
 demo='''
fn main() {
    for fl in [f::RSTEP, f::RCONT, f::RSTEP | f::RCONT] {
        let mut t = Tgt::<u32>::new((f::ALL | f::MULTI | f::GUARD) & !(f::RSTEP | f::RCONT) | fl);
        let mut s = S::new(&mut t);
        s.ask(&mut t, b"vCont;c");
        let r = s.stop(&mut t, MultiThreadStopReason::ReplayLog { tid: Some(Tid::new(1).unwrap()), pos: gdbstub::target::ext::base::reverse_exec::ReplayLogPosition::Begin });
        check(r.contains("replaylog:begin"), "stop", &(r, s.err));
    }
}
'''),
dict(id="xml-window", prop="C22", needs="qXfer:features:read with an offset of 64K or more",
 breaks="the offset is cut to 16 bits: past 64K the client gets the start of the document again instead of its end",
 edits=[("src/stub/core_impl/target_xml.rs","let start = xml_len.min(cmd.offset as usize);","let start = xml_len.min(cmd.offset as u16 as usize);")],
 demo='''
fn main() {
    let xml: &'static str = "<target>0123456789abcdefghij</target>";
    let mut t = Tgt::<u32>::new(f::ALL & !f::XMLOV | f::GUARD);
    ARCH_XML.with(|x| x.set(Some(xml)));
    let mut s = S::new(&mut t);
    for off in [0usize, 10, 0xffff, 0x10000, 0x10004] {
        for len in 0..=xml.len() + 2 {
            let r = s.ask(&mut t, format!("qXfer:features:read:target.xml:{:x},{:x}", off, len).as_bytes());
            let want = if off > xml.len() { "" } else { &xml[off..xml.len().min(off + len)] };
            let got = if r == "l" { "" } else { &r[1..] };
            check(got == want, "window", &(off, len, r.clone()));
        }
    }
}
'''),
dict(id="fstat-times", prop="C23", needs="vFile:fstat of a file whose change time is not its modification time",
 breaks="the modification time is sent in place of the change time",
 edits=[("src/stub/core_impl/host_io.rs","res.write_binary(&stat.st_ctime.to_be_bytes())?;","res.write_binary(&stat.st_mtime.to_be_bytes())?;")],
 demo='''
fn main() {
    let mut t = Tgt::<u32>::new(f::ALL | f::GUARD);
    for i in 0..13 { t.stat[i] = 0x30 + i as u64; }
    let mut s = S::new(&mut t);
    let r = s.ask(&mut t, b"vFile:fstat:1");
    check(r.ends_with("\\0\\0\\0\\x3c"), "change time", &r);
}
'''),
dict(id="env-value-equals", prop="C24", needs="an environment variable whose value holds a '='",
 breaks="the value is cut at its first '='",
 edits=[("src/protocol/commands/_QEnvironmentHexEncoded.rs","let mut keyval = keyval.splitn(2, |b| *b == b'=');","let mut keyval = keyval.split(|b| *b == b'=');")],
 demo='''
fn main() {
    let mut t = Tgt::<u32>::new(f::ALL | f::GUARD);
    let mut s = S::new(&mut t);
    let hex: String = b"OPTS=a=b".iter().map(|b| format!("{:02x}", b)).collect();
    s.ask(&mut t, format!("QEnvironmentHexEncoded:{}", hex).as_bytes());
    let l = calls(&t);
    check(l.contains("\\"a=b\\""), "value", &l);
}
'''),
dict(id="console-tail", prop="C25", needs="a monitor command which prints more than 256 bytes without flushing",
 breaks="console output is flushed early when it grows past 256 bytes, the byte past the limit is lost",
 edits=[("src/protocol/console_output.rs","""                self.buf.extend_from_slice(bytes);""","""                self.buf.extend_from_slice(bytes);
                if self.buf.len() > 256 {
                    self.buf.pop();
                    self.flush();
                }""")],
 demo='''
fn main() {
    for n in [1usize, 100, 256, 257, 600] {
        let mut t = Tgt::<u32>::new(f::ALL | f::GUARD);
        t.monitor_out = vec![Some(vec![b'x'; n])];
        let mut s = S::new(&mut t);
        let raw = s.pkt(&mut t, b"qRcmd,6162");
        let text = String::from_utf8_lossy(&raw).to_string();
        let mut total = 0;
        for p in text.split('$').filter(|p| p.starts_with('O') && !p.starts_with("OK")) {
            total += last(format!("${}", p).as_bytes()).len() / 2;
        }
        check(total == n, "console bytes", &(n, total));
    }
}
'''),
dict(id="catch-filter-last", prop="C26", needs="QCatchSyscalls with more than eight system calls (or vRun with as many arguments)",
 breaks="a list of arguments ends after its eighth element",
 edits=[('src/protocol/common/lists.rs', '.map(|s| s as &[u8])', '.map(|s| s as &[u8])\n            .take(8)')],
 demo='''
fn main() {
    for n in [1usize, 3, 8, 9, 20] {
        let mut t = Tgt::<u32>::new(f::ALL | f::GUARD);
        let mut s = S::new(&mut t);
        let list: Vec<String> = (1..=n).map(|i| format!("{:x}", i)).collect();
        s.ask(&mut t, format!("QCatchSyscalls:1;{}", list.join(";")).as_bytes());
        let l = calls(&t);
        check(l.contains(&format!("{:x}", n)), "numbers", &(n, l));
    }
}
'''
),
dict(id="enum-source-step", prop="C27", needs="a tracepoint with two or more source pieces",
 breaks="the source cursor does not advance past the first continuation, the client is told about the same piece again and again",
 edits=[("src/stub/core_impl/tracepoints.rs","""                Some(&TracepointEnumerateCursor::Source { tp, addr, step }),
                TracepointEnumerateStep::Source,
            ) => Some(TracepointEnumerateCursor::Source {
                tp,
                addr,
                step: step + 1,
            }),""","""                Some(&TracepointEnumerateCursor::Source { tp, addr, step }),
                TracepointEnumerateStep::Source,
            ) => Some(TracepointEnumerateCursor::Source {
                tp,
                addr,
                step: step.max(1),
            }),""")],
 demo='''
fn main() {
    let mut t = Tgt::<u32>::new(f::ALL | f::GUARD);
    t.tps = vec![TpM { num: 1, addr: 0x10, enabled: true, step: 0, pass: 0, actions: vec![], sources: (0..3).map(|i| SrcM { kind: 2, start: i, slen: 3, bytes: vec![b'a' + i as u8] }).collect() }];
    let mut s = S::new(&mut t);
    let mut got = vec![s.ask(&mut t, b"qTfP")];
    for _ in 0..12 {
        got.push(s.ask(&mut t, b"qTsP"));
    }
    let n = got.iter().filter(|r| r.starts_with('Z')).count();
    check(n == 3 && got.last().unwrap().is_empty(), "sources", &got);
}
'''),
dict(id="frame-hit-only", prop="C28", needs="a QTFrame request for which the target reports no frame after a hit of another kind",
 breaks="a found tracepoint counts as a found frame, so a reply with T but no F number leaves the client without the F-1 it needs",
 edits=[("src/stub/core_impl/tracepoints.rs","""                                res.write_str("T")?;
                                res.write_num(tdp.0)?;""","""                                res.write_str("T")?;
                                res.write_num(tdp.0)?;
                                any_results = true;""")],
 demo='''
fn main() {
    let mut t = Tgt::<u32>::new(f::ALL | f::GUARD);
    t.frames = vec![FrameM::Hit(3)];
    let mut s = S::new(&mut t);
    let r = s.ask(&mut t, b"QTFrame:0");
    check(r.contains("F-1"), "no frame", &r);
}
'''),
dict(id="bss-offset", prop="C29", needs="section offsets with text and data apart and no explicit bss",
 breaks="the Bss offset defaults to that of the text section",
 edits=[("src/stub/core_impl/section_offsets.rs","bss.unwrap_or(data)","bss.unwrap_or(text)")],
 demo='''
fn main() {
    let mut t = Tgt::<u32>::new(f::ALL | f::GUARD);
    for kind in 0..8 {
        t.offsets = kind;
        t.off_vals = [0x11, 0x22, 0x33];
        let mut s = S::new(&mut t);
        let r = s.ask(&mut t, b"qOffsets");
        check(!r.contains("Bss=11"), "bss", &r);
    }
}
'''),
dict(id="mips-hi-lo", prop="C30", needs="a MIPS register file with different HI and LO, looked at by name in the order of the target description",
 breaks="HI and LO trade places in both directions, so a round trip shows nothing",
 edits=[("gdbstub_arch/src/mips/reg/mips.rs","""        write_le_bytes!(&self.lo);
        write_le_bytes!(&self.hi);""","""        write_le_bytes!(&self.hi);
        write_le_bytes!(&self.lo);"""),
 ("gdbstub_arch/src/mips/reg/mips.rs","""        self.lo = regs.next().ok_or(())?;
        self.hi = regs.next().ok_or(())?;""","""        self.hi = regs.next().ok_or(())?;
        self.lo = regs.next().ok_or(())?;""")],
 demo='''
use gdbstub::arch::Registers;
fn main() {
    let mut r = gdbstub_arch::mips::reg::MipsCoreRegs::<u32>::default();
    r.lo = 0x11111111;
    r.hi = 0x22222222;
    let mut v = vec![];
    r.gdb_serialize(|b| v.push(b.unwrap()));
    check(v[33 * 4] == 0x11 && v[34 * 4] == 0x22, "lo is register 33", &v);
}
'''),
dict(id="x86-id-range", prop="C31", needs="access to one of the upper eight SSE registers of x86-64 by number",
 breaks="XMM8 to XMM15 are taken for XMM0 to XMM7",
 edits=[('gdbstub_arch/src/x86/reg/id.rs', '40..=55 => (Xmm(id as u8 - 40), 16),', '40..=55 => (Xmm((id as u8 - 40) % 8), 16),')],
 demo='''
use gdbstub::arch::RegId;
use gdbstub_arch::x86::reg::id::X86_64CoreRegId as R;
fn main() {
    for i in 0..16u8 {
        let r = R::from_raw_id(40 + i as usize);
        check(matches!(r, Some((R::Xmm(n), _)) if n == i), "xmm number", &r);
    }
}
'''
),
dict(id="wide-number", prop="C32", needs="an address with more digits than the architecture's word, whose high digits are not all zero",
 breaks="too long addresses are truncated instead of refused",
 edits=[("src/internal/be_bytes.rs","if extra.iter().any(|&b| b != 0) {","if extra.last().map_or(false, |&b| b != 0) {")],
 demo='''
fn main() {
    let mut t = Tgt::<u32>::new(f::ALL | f::GUARD);
    let mut s = S::new(&mut t);
    s.ask(&mut t, b"m10000000010,4");
    let l = calls(&t);
    check(!l.contains("read_addrs"), "no access", &l);
}
'''),
dict(id="tcp-eof", prop="C33", needs="the peer closing the connection while the blocking loop reads",
 breaks="end of file reads as an endless row of zero bytes instead of an error",
 edits=[("src/conn/impls/tcpstream.rs","match Read::read_exact(self, &mut buf) {","match Read::read(self, &mut buf) {")],
 alone=True,
 demo='''
use gdbstub::conn::ConnectionExt;
use std::net::*;
fn main() {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let a = TcpStream::connect(l.local_addr().unwrap()).unwrap();
    let (mut b, _) = l.accept().unwrap();
    drop(a);
    let r = ConnectionExt::read(&mut b);
    if r.is_ok() { println!("read {:?} from a closed connection", r); std::process::exit(1); }
}
'''),
dict(id="boxed-guard", prop="C34", needs="a target passed as a trait object, which switches X packets off",
 breaks="a boxed or borrowed dyn Target loses the target's choice on X packets",
 edits=[('src/target/mod.rs', '            __delegate!(fn use_x_upcase_packet(&self) -> bool);\n', '')],
 demo='''
use gdbstub::target::Target;
fn main() {
    let mut t = Tgt::<u32>::new(f::ALL & !f::XUP | f::GUARD);
    let mut b: &mut dyn Target<Arch = HA<u32>, Error = u32> = &mut t;
    let mut s = S::new(&mut b);
    let r = s.ask(&mut b, b"X10,1:a");
    check(r.is_empty(), "X is switched off", &r);
}
'''
),
dict(id="buffer-size-exact", prop="C35", needs="a packet buffer given with a custom size that is exactly its length",
 breaks="a buffer size equal to the length of the buffer is refused",
 edits=[("src/stub/builder.rs","if custom_len > buf.len() {","if custom_len >= buf.len() {")],
 demo='''
fn main() {
    let mut buf = [0u8; 128];
    let g = GdbStub::<Tgt<u32>, Out>::builder(Out::default()).with_packet_buffer(&mut buf).packet_buffer_size(128).build();
    check(g.is_ok(), "build", &());
}
'''),
dict(id="paranoid-odd-hex", prop="C36", features=["paranoid_unsafe"], needs="a build with the paranoid_unsafe feature and a hex string with an odd number of digits",
 breaks="the last byte of odd-length hex strings is dropped in paranoid builds only",
 edits=[("src/protocol/common/hex.rs","    Ok(&mut base_buf[..decoded_len + odd_adust])","    Ok(&mut base_buf[..decoded_len.max(odd_adust)])")],
 demo='''
fn main() {
    let mut t = Tgt::<u32>::new(f::ALL | f::GUARD);
    let mut s = S::new(&mut t);
    s.ask(&mut t, b"m12345,4");
    let l = calls(&t);
    check(l.contains("12345"), "address", &l);
}
'''),
dict(id="wait-error-kind", prop="C07", needs="the blocking loop's wait_for_stop_reason reporting a connection error",
 breaks="the error is reported as a failed write of a response although nothing was written",
 edits=[("src/stub/mod.rs","break Err(InternalError::conn_read(e).into());","break Err(InternalError::conn_write(e).into());")],
 demo='''
use gdbstub::conn::{Connection, ConnectionExt};
use gdbstub::stub::run_blocking::*;
struct C(Vec<u8>);
impl Connection for C {
    type Error = u32;
    fn write(&mut self, _b: u8) -> Result<(), u32> { Ok(()) }
    fn flush(&mut self) -> Result<(), u32> { Ok(()) }
}
impl ConnectionExt for C {
    fn read(&mut self) -> Result<u8, u32> { if self.0.is_empty() { Err(1) } else { Ok(self.0.remove(0)) } }
    fn peek(&mut self) -> Result<Option<u8>, u32> { Ok(None) }
}
enum L {}
impl BlockingEventLoop for L {
    type Target = Tgt<u32>;
    type Connection = C;
    type StopReason = SingleThreadStopReason<u32>;
    fn wait_for_stop_reason(_: &mut Tgt<u32>, _: &mut C) -> Result<Event<Self::StopReason>, WaitForStopReasonError<u32, u32>> {
        Err(WaitForStopReasonError::Connection(9))
    }
    fn on_interrupt(_: &mut Tgt<u32>) -> Result<Option<Self::StopReason>, u32> { Ok(None) }
}
fn main() {
    let mut t = Tgt::<u32>::new(f::ALL | f::GUARD);
    let g = GdbStub::new(C(b"$c#63".to_vec()));
    let e = match g.run_blocking::<L>(&mut t) { Err(e) => format!("{}", e), Ok(_) => "ok".into() };
    check(e.contains("reading"), "kind", &e);
}
'''),
]
