SEEDS=[
dict(id="rle-long-run", prop="C03", needs="a reply with a run of exactly 98 or more equal characters while run-length encoding is on",
 breaks="the run-length limit is off by one: a run of 98 is sent with the count byte 0x7f (DEL), outside the printable range clients accept",
 edits=[("src/protocol/response_writer.rs","let rle_printable = (ASCII_FIRST_PRINT - 4 + (self.rle_repeat + 1)) <= ASCII_LAST_PRINT;","let rle_printable = (ASCII_FIRST_PRINT - 4 + self.rle_repeat) <= ASCII_LAST_PRINT;")],
 demo='''
fn main() {
    let mut t = Tgt::<u32>::new(f::ALL | f::GUARD);
    t.mem_fill = |_| 0;
    let mut s = S::new(&mut t);
    for n in 1..200 {
        let raw = s.pkt(&mut t, format!("m0,{:x}", n).as_bytes());
        check(raw.iter().all(|b| (0x20..0x7f).contains(b)), "printable run counts", &String::from_utf8_lossy(&raw));
        check(last(&raw) == "00".repeat(n), "contents", &last(&raw));
    }
}
'''),
dict(id="deferred-stop-dropped", prop="C06", needs="an interrupt while the target is stopped, whose stop reason is deferred, followed by any other packet before the resume",
 breaks="the deferred stop reason is forgotten as soon as another packet is handled, so the interrupt is lost and the client hangs",
 edits=[("src/stub/state_machine.rs","""        Ok(match state {
            State::Pump => self.into(),""","""        Ok(match state {
            State::Pump => self
                .transition(state::Idle {
                    deferred_ctrlc_stop_reason: None,
                })
                .into(),""")],
 demo='''
fn main() {
    let mut t = Tgt::<u32>::new(f::ALL | f::GUARD);
    let mut s = S::new(&mut t);
    s.ask(&mut t, b"?");
    s.raw(&mut t, &[3]);
    s.intr(&mut t, Some(SingleThreadStopReason::Signal(Signal::SIGINT)));
    s.ask(&mut t, b"m0,4");
    let r = s.ask(&mut t, b"c");
    check(r == "S02" && s.st() == "idle", "the deferred stop", &r);
}
'''),
dict(id="chunked-read-address", prop="C10", needs="a memory read that takes at least three buffer-sized pieces",
 breaks="the address of the third and later pieces repeats that of the second, so the reply holds wrong bytes",
 edits=[("src/stub/core_impl/base.rs","i += chunk_size;","i = chunk_size;")],
 demo='''
fn main() {
    let mut t = Tgt::<u32>::new(f::ALL | f::GUARD);
    let mut s = S::sized(&mut t, 24);
    let r = s.ask(&mut t, b"m100,60");
    let want: String = (0x100u128..0x160).map(|a| format!("{:02x}", t.byte(a))).collect();
    check(r == want, "memory", &r);
}
'''),
dict(id="hwbreak-advert", prop="C20", needs="a target that implements hardware watchpoints but no hardware breakpoints",
 breaks="hwbreak+ is only advertised for hardware breakpoints, although such targets report watch stops",
 edits=[("src/stub/core_impl/base.rs","""                    if ops.support_hw_breakpoint().is_some()
                        || ops.support_hw_watchpoint().is_some()""","""                    if ops.support_hw_breakpoint().is_some()
                        && ops.support_hw_watchpoint().is_some()""")],
 demo='''
fn main() {
    for (fl, want) in [(f::WATCH, true), (f::HWBP, true), (f::HWBP | f::WATCH, true), (0, false)] {
        let mut t = Tgt::<u32>::new(f::PLAIN | f::BPS | f::SWBP | fl);
        let mut s = S::new(&mut t);
        let r = s.ask(&mut t, b"qSupported:hwbreak+");
        check(r.contains(";hwbreak+") == want, "hwbreak+", &r);
    }
}
'''),
dict(id="stop-keeps-thread", prop="C14", needs="two threads; a stop reported for the thread that is not selected, then a register or memory access without Hg",
 breaks="a stop reply only updates the thread used by c/s, register and memory operations go on using the previously selected thread",
 edits=[("src/stub/core_impl/resume.rs","""            self.current_mem_tid = tid;
            self.current_resume_tid = SpecificIdKind::WithId(tid);

            res.write_str("thread:")?;""","""            if self.current_resume_tid == SpecificIdKind::All {
                self.current_mem_tid = tid;
            }
            self.current_resume_tid = SpecificIdKind::WithId(tid);

            res.write_str("thread:")?;""")],
 demo='''
fn main() {
    let mut t = Tgt::<u32>::new(f::ALL | f::MULTI | f::GUARD);
    t.threads = vec![1, 2];
    let mut s = S::new(&mut t);
    for tid in [1, 2, 1] {
        s.ask(&mut t, b"vCont;c");
        s.stop(&mut t, MultiThreadStopReason::SwBreak(Tid::new(tid).unwrap()));
        t.take_log();
        s.ask(&mut t, b"m0,1");
        let l = calls(&t);
        check(l.starts_with(&format!("read_addrs [{},", tid)), "the stopped thread", &l);
    }
}
'''),
dict(id="vcont-signal-sticks", prop="C15", needs="a vCont list in which a thread gets a signal and a later thread none",
 breaks="the signal of an earlier action is handed to later continue actions of the list",
 edits=[("src/stub/core_impl/resume.rs","""        ops.clear_resume_actions().map_err(Error::TargetError)?;

        for action in actions.iter() {""","""        ops.clear_resume_actions().map_err(Error::TargetError)?;

        let mut pending_signal = None;
        for action in actions.iter() {"""),
("src/stub/core_impl/resume.rs","""                    let signal = match action.kind {
                        VContKind::ContinueWithSig(sig) => Some(sig),
                        _ => None,
                    };

                    match action.thread.map(|thread| thread.tid) {
                        // An action with no thread-id matches all threads
                        None | Some(SpecificIdKind::All) => {
                            // Target API""","""                    let signal = match action.kind {
                        VContKind::ContinueWithSig(sig) => Some(sig),
                        _ => pending_signal,
                    };
                    pending_signal = signal;

                    match action.thread.map(|thread| thread.tid) {
                        // An action with no thread-id matches all threads
                        None | Some(SpecificIdKind::All) => {
                            // Target API""")],
 demo='''
fn main() {
    let mut t = Tgt::<u32>::new(f::ALL | f::MULTI | f::GUARD);
    t.threads = vec![1, 2];
    let mut s = S::new(&mut t);
    s.ask(&mut t, b"vCont;C0b:1;c:2");
    let sigs: Vec<u128> = t.take_log().iter().filter(|c| c.f.contains("continue")).map(|c| *c.n.last().unwrap()).collect();
    check(sigs == [0x0b, NONE], "signals", &sigs);
}
'''),
]
