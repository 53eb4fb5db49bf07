B="src/stub/core_impl/base.rs"
def sim(body): return "\nfn main() {\n    let mut t = Tgt::<u32>::new(f::ALL | f::GUARD);\n"+body+"}\n"
SEEDS=[
dict(id="zero-checksum", prop="C02", needs="a damaged packet whose checksum digits arrive as 00",
 breaks="a checksum of 00 is taken for every payload, so damaged packets are executed",
 edits=[("src/protocol/packet.rs","if calculated != checksum {","if calculated != checksum && checksum != 0 {")],
 demo=sim('''    let mut s = S::new(&mut t);
    s.raw(&mut t, b"$M10,1:ff#00");
    check(s.st() == "error" && !calls(&t).contains("write"), "refused", &(s.st(), calls(&t)));
''')),
dict(id="rle-127", prop="C03", needs="a run of 99 or more equal characters in a reply",
 breaks="the longest runs get the count character 127, which is not printable and which clients refuse",
 edits=[("src/protocol/response_writer.rs","(ASCII_FIRST_PRINT - 4 + (self.rle_repeat + 1)) <= ASCII_LAST_PRINT;","(ASCII_FIRST_PRINT - 4 + self.rle_repeat) <= ASCII_LAST_PRINT;")],
 demo=sim('''    t.monitor_out = vec![Some(vec![0x11; 120])];
    let mut s = S::new(&mut t);
    let r = s.pkt(&mut t, b"qRcmd,61");
    check(!r.contains(&127), "printable counts", &r);
''')),
dict(id="noack-toggle", prop="C04", needs="QStartNoAckMode sent twice in one session",
 breaks="the second request switches acknowledgements on again",
 edits=[("src/stub/core_impl/no_ack_mode.rs","self.features.set_no_ack_mode(true);","let on = self.features.no_ack_mode();\n                self.features.set_no_ack_mode(!on);")],
 demo=sim('''    let mut s = S::new(&mut t);
    s.ask(&mut t, b"QStartNoAckMode");
    s.ask(&mut t, b"QStartNoAckMode");
    let r = s.pkt(&mut t, b"?");
    check(!r.starts_with(b"+"), "no ack", &r);
''')),
dict(id="detach-pid-stays", prop="C05", needs="a detach that names a process, with the multiprocess extension agreed and extended mode supported",
 breaks="the client is told it has detached, but the session goes on",
 edits=[(B,"let _pid = cmd.pid;\n                res.write_str(\"OK\")?; // manually","if cmd.pid.is_some()\n                    && self.features.multiprocess()\n                    && target.support_extended_mode().is_some()\n                {\n                    return Ok(HandlerStatus::NeedsOk);\n                }\n                res.write_str(\"OK\")?; // manually")],
 demo=sim('''    let mut s = S::new(&mut t);
    s.ask(&mut t, b"qSupported:multiprocess+");
    let r = s.ask(&mut t, b"D;1");
    check(r == "OK" && s.st() == "gone", "detached", &(r, s.st()));
''')),
dict(id="attached-fatal", prop="C09", needs="a target in extended mode which fails to answer whether it was attached to a process",
 breaks="the failure is swallowed and answered as if the process had been attached to",
 edits=[(B,"Some(pid) => ops.query_if_attached(pid).handle_error()?.was_attached(),","Some(pid) => ops\n                                .query_if_attached(pid)\n                                .map_or(true, |kind| kind.was_attached()),")],
 demo=sim('''    t.inj = vec![("query_if_attached", 0, Inj::Errno(5))];
    let mut s = S::new(&mut t);
    let r = s.ask(&mut t, b"qAttached:1");
    check(r == "E05", "error", &r);
''')),
dict(id="x-comma", prop="C11", needs="an X packet whose data holds a comma or a colon",
 breaks="binary data is cut at the first comma or colon, and the short write is confirmed",
 edits=[("src/protocol/commands/_x_upcase.rs","body.splitn_mut(3, |&b| b == b',' || b == b':')","body.split_mut(|&b| b == b',' || b == b':')")],
 demo=sim('''    let mut s = S::new(&mut t);
    s.ask(&mut t, b"X10,3:a:b");
    let r = s.ask(&mut t, b"m10,3");
    check(r == "613a62", "memory", &r);
''')),
dict(id="file-refused-zeros", prop="C12", needs="a G packet with a register file the architecture refuses",
 breaks="the registers are overwritten with defaults and the write is confirmed",
 edits=[(B,"regs.gdb_deserialize(cmd.vals)\n                    .map_err(|_| Error::TargetMismatch)?;","if regs.gdb_deserialize(cmd.vals).is_err() {\n                    warn!(\"odd register file\");\n                }")],
 demo=sim('''    let mut s = S::new(&mut t);
    s.ask(&mut t, b"G010203");
    check(!calls(&t).contains("write_registers"), "refused", &calls(&t));
''')),
dict(id="short-register", prop="C13", needs="a target that returns fewer bytes for a register than the architecture gives it",
 breaks="the reply is filled up with bytes of the packet buffer",
 edits=[("src/stub/core_impl/single_register_access.rs","if size.get() != len {","if size.get() < len {")],
 demo=sim('''    t.reg_len = Some(2);
    let mut s = S::new(&mut t);
    let r = s.ask(&mut t, b"p3");
    check(s.st() == "error", "refused", &(r, s.st()));
''')),
dict(id="thread-comma-256", prop="C19", needs="more than 256 threads",
 breaks="the 257th thread is glued to the one before it",
 edits=[(B,"let mut first = true;","let mut count = 0u8;"),
        (B,"if !first {\n                                    res.write_str(\",\")?\n                                }\n                                first = false;","if count != 0 {\n                                    res.write_str(\",\")?\n                                }\n                                count = count.wrapping_add(1);")],
 demo='''
fn main() {
    let mut t = Tgt::<u32>::new(f::ALL | f::GUARD | f::MULTI);
    t.threads = (1..=400).collect();
    let mut s = S::new(&mut t);
    let r = s.ask(&mut t, b"qfThreadInfo");
    check(r.split(',').count() == 400, "threads", &r);
}
'''),
dict(id="kind-before-support", prop="C21", needs="Z0 or Z1 with a kind the architecture does not know, sent to a target without breakpoints of this type",
 breaks="the unsupported request ends the session instead of being answered by an empty reply",
 edits=[("src/stub/core_impl/breakpoints.rs","        let supported = match cmd.type_ {\n            0 if","        if matches!(cmd.type_, 0 | 1) {\n            let _ = bp_kind!();\n        }\n\n        let supported = match cmd.type_ {\n            0 if")],
 demo=sim('''    t.fl &= !f::HWBP;
    let mut s = S::new(&mut t);
    let r = s.ask(&mut t, b"Z1,10,fffffffffffffffff");
    check(s.st() == "idle" && r.is_empty(), "empty", &(r, s.st()));
''')),
dict(id="xml-end-overflow", prop="C01", needs="a qXfer request whose offset and length together exceed 64 bits",
 breaks="the end of the window overflows, so the stub panics in builds with overflow checks",
 edits=[("src/stub/core_impl/target_xml.rs","xml_len.min((cmd.offset as usize).saturating_add(cmd.length));","xml_len.min(cmd.offset as usize + cmd.length);")],
 demo=sim('''    let mut s = S::new(&mut t);
    s.ask(&mut t, b"qXfer:features:read:target.xml:ffffffffffffffff,10");
    s.ask(&mut t, b"?");
    check(s.st() == "idle", "alive", &s.st());
''').replace("f::ALL | f::GUARD", "(f::ALL & !f::XMLOV) | f::GUARD").replace("    let mut s", "    ARCH_XML.with(|x| x.set(Some(\"<target></target>\")));\n    let mut s",1)),
dict(id="hc-selects-memory", prop="C14", needs="Hc before any Hg, followed by a memory or register access",
 breaks="the thread chosen for resuming is also used for memory and registers as long as no other was chosen",
 edits=[(B,"                        IdKind::WithId(tid) => {\n                            self.current_resume_tid = SpecificIdKind::WithId(tid)\n                        }","                        IdKind::WithId(tid) => {\n                            self.current_resume_tid = SpecificIdKind::WithId(tid);\n                            if self.current_mem_tid == SINGLE_THREAD_TID {\n                                self.current_mem_tid = tid;\n                            }\n                        }")],
 demo='''
fn main() {
    let mut t = Tgt::<u32>::new(f::ALL | f::GUARD | f::MULTI);
    let mut s = S::new(&mut t);
    t.threads = vec![1, 2, 3];
    s.ask(&mut t, b"Hg1");
    s.ask(&mut t, b"Hc3");
    t.take_log();
    s.ask(&mut t, b"m10,1");
    let l = t.take_log();
    check(l.iter().any(|c| c.n.contains(&1)) && !l.iter().any(|c| c.n.contains(&3)), "thread 1", &l);
}
'''),
dict(id="signal-zero", prop="C15", needs="a vCont action C00 for one thread of a multi-threaded target",
 breaks="signal 0 is dropped from the action",
 edits=[("src/stub/core_impl/resume.rs","""                    let signal = match action.kind {
                        VContKind::ContinueWithSig(sig) => Some(sig),""","""                    let signal = match action.kind {
                        VContKind::ContinueWithSig(sig) if sig != Signal::SIGZERO => Some(sig),""")],
 demo='''
fn main() {
    let mut t = Tgt::<u32>::new(f::ALL | f::GUARD | f::MULTI);
    let mut s = S::new(&mut t);
    s.ask(&mut t, b"vCont;C05:1;c");
    let five = format!("{:?}", t.take_log().iter().find(|c| c.f.starts_with("set_")));
    s.stop(&mut t, MultiThreadStopReason::DoneStep);
    s.ask(&mut t, b"vCont;C00:1;c");
    let zero = format!("{:?}", t.take_log().iter().find(|c| c.f.starts_with("set_")));
    s.stop(&mut t, MultiThreadStopReason::DoneStep);
    s.ask(&mut t, b"vCont;c:1;c");
    let none = format!("{:?}", t.take_log().iter().find(|c| c.f.starts_with("set_")));
    check(zero != none, "signal 0", &(five, zero, none));
}
'''),
dict(id="multiprocess-off", prop="C20", needs="a client which offers multiprocess in one qSupported and declines it in a later one",
 breaks="multiprocess ids stay in use after the client has declined them",
 edits=[(B,"Feature::Multiprocess => self.features.set_multiprocess(supported),","Feature::Multiprocess if supported => self.features.set_multiprocess(true),\n                        Feature::Multiprocess => {}")],
 demo=sim('''    let mut s = S::new(&mut t);
    s.ask(&mut t, b"qSupported:multiprocess+");
    s.ask(&mut t, b"qSupported:multiprocess-");
    let r = s.ask(&mut t, b"qfThreadInfo");
    check(!r.contains('p'), "plain ids", &r);
''')),
]
