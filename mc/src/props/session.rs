//! C05, C06, C07, C09: the session state machine.

use crate::client::*;
use crate::engine::*;
use crate::note;
use crate::props::corpus::*;
use crate::sess::*;
use crate::target::*;
use gdbstub::common::*;
use gdbstub::conn::*;
use gdbstub::stub::run_blocking::*;
use gdbstub::stub::*;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::rc::Rc;

pub const PROPS: &[&Prop] = &[&C05, &C06, &C07, &C09];

pub type Msr = MultiThreadStopReason<u32>;

pub fn tid(n: usize) -> Tid {
    Tid::new(n).unwrap()
}

/// the stop reply of a reason on a session without multiprocess
pub fn stop_reply(r: &Msr) -> (Vec<u8>, St) {
    let (s, st) = match r {
        Msr::DoneStep => ("S05".to_string(), St::Idle),
        Msr::Signal(s) => (format!("S{:02x}", s.0), St::Idle),
        Msr::Exited(c) => (format!("W{:02x}", c), disc(DisconnectReason::TargetExited(*c))),
        Msr::Terminated(s) => (format!("X{:02x}", s.0), disc(DisconnectReason::TargetTerminated(*s))),
        Msr::SignalWithThread { tid, signal } => (format!("T{:02x}thread:{};", signal.0, nhex(tid.get() as u128)), St::Idle),
        Msr::SwBreak(t) => (format!("T05thread:{};swbreak:;", nhex(t.get() as u128)), St::Idle),
        _ => unreachable!(),
    };
    (s.into_bytes(), st)
}

/// how the stub writes numbers: big endian, whole bytes, no leading zero bytes
pub fn nhex(v: u128) -> String {
    let s = format!("{:x}", v);
    if s.len() % 2 == 1 {
        format!("0{}", s)
    } else {
        s
    }
}

// ===================================================================== C05 ===

static C05: Prop = Prop {
    id: "C05",
    scenes: &[
        Scene { name: "every-event-sequence", body: c05_model },
        Scene { name: "repeated-events", body: c05_lasso },
        Scene { name: "every-command-every-state", body: c05_each },
        Scene { name: "start-guard", body: c05_guard },
    ],
    assumptions: &["the session is driven through the state machine types only (the API admits nothing else)"],
};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Half {
    No,
    /// the first half of a `qAttached` packet was delivered
    Yes,
}

fn c05_model(ch: &mut Ch) -> R {
    let n = ch.by(7, 8);
    c05_run(ch, n, None)
}

/// long histories: every short pattern of events, repeated
fn c05_lasso(ch: &mut Ch) -> R {
    let (k, n) = ch.pick(ch.by(&[(4, 300), (2, 3000), (1, 70000)], &[(6, 300), (3, 3000), (2, 70000)]));
    c05_run(ch, n, Some(k))
}

fn c05_run(ch: &mut Ch, steps: usize, lasso: Option<usize>) -> R {
    let fl0 = ch.pick(&[f::PLAIN | f::RESUME | f::BPS | f::SWBP, f::PLAIN | f::RESUME | f::BPS | f::SWBP | f::EXT]);
    let fl = fl0 | if ch.flag() { f::MULTI } else { 0 };
    let mut t = rich::<u32>(fl);
    t.terminate = ch.flag();
    let terminate = t.terminate;
    let ext = fl & f::EXT != 0;
    let mut s = Sess::new(&mut t, 64).plain(&mut t);
    let whole = frame(if ext { b"qAttached:1" } else { b"qAttached" });
    let (h1, h2) = whole.split_at(6);
    // --- the model
    let mut st = St::Idle;
    let mut half = Half::No;
    let mut deferred: Option<Msr> = None;
    let mut from_idle = false;
    if let Some(k) = lasso {
        ch.lasso(k)
    }
    for _ in 0..steps {
        t.take_log();
        match st.clone() {
            St::Idle | St::Running => {
                let running = st == St::Running;
                let n = match (half, running) {
                    (Half::No, false) => 8,
                    (Half::No, true) => 11,
                    (Half::Yes, false) => 1,
                    (Half::Yes, true) => 4,
                };
                // with half a packet pending only its second half, or a stop, may come
                let op = match half {
                    Half::No => ch.choose(n),
                    Half::Yes => 7 + ch.choose(n),
                };
                match op {
                    0 => {
                        let r = s.s(ch, &mut t, "?");
                        check_reply(&r, b"T05thread:01;", &st)?;
                    }
                    1 => {
                        let r = s.s(ch, &mut t, "vCont;c");
                        let mut want = vec![];
                        st = St::Running;
                        if let Some(d) = deferred.take() {
                            let (b, s2) = stop_reply(&d);
                            want.push(b);
                            st = s2;
                        }
                        check_pkts(&r, &want, &st)?;
                        let resumes = t.log.borrow().iter().filter(|c| c.f == "resume").count();
                        if resumes != 1 {
                            return fail("resume-count", format!("one resume packet, {} resume calls", resumes));
                        }
                    }
                    2 => {
                        let r = s.s(ch, &mut t, "D");
                        st = disc(DisconnectReason::Disconnect);
                        check_pkts(&r, &[b"OK".to_vec()], &st)?;
                    }
                    3 => {
                        let r = s.s(ch, &mut t, "k");
                        if !ext {
                            st = disc(DisconnectReason::Kill);
                            check_pkts(&r, &[], &st)?;
                        } else if terminate {
                            st = disc(DisconnectReason::Kill);
                            check_pkts(&r, &[b"OK".to_vec()], &st)?;
                        } else {
                            check_pkts(&r, &[b"OK".to_vec()], &st)?;
                        }
                    }
                    4 => {
                        let r = s.raw(ch, &mut t, b"+");
                        if !r.raw.is_empty() || r.st != st {
                            return fail("ack", format!("{:?} after an ack", r));
                        }
                    }
                    5 => {
                        let r = s.raw(ch, &mut t, b"\x03");
                        from_idle = !running;
                        st = St::CtrlC;
                        if !r.raw.is_empty() || r.st != st {
                            return fail("ctrl-c", format!("{:?} after 0x03", r));
                        }
                        if !t.take_log().is_empty() {
                            return fail("ctrl-c", "the target was called");
                        }
                    }
                    6 => {
                        let r = s.raw(ch, &mut t, h1);
                        half = Half::Yes;
                        if !r.raw.is_empty() || r.st != st {
                            return fail("partial", format!("{:?} after half a packet", r));
                        }
                    }
                    7 => {
                        if half == Half::Yes {
                            half = Half::No;
                            let r = s.raw(ch, &mut t, h2);
                            check_reply(&r, b"1", &st)?;
                        } else {
                            let r = s.s(ch, &mut t, "vMustReplyEmpty");
                            check_reply(&r, b"", &st)?;
                        }
                    }
                    k => {
                        let reason = [Msr::DoneStep, Msr::SignalWithThread { tid: tid(1), signal: Signal::SIGINT }, Msr::Exited(7)][k - 8];
                        let r = s.stop(ch, &mut t, reason);
                        let (b, s2) = stop_reply(&reason);
                        st = s2;
                        check_pkts(&r, &[b], &st)?;
                        if calls(&t) {
                            return fail("stop-calls", "reporting a stop called the target");
                        }
                    }
                }
            }
            St::CtrlC => {
                let reason = ch.pick(&[None, Some(Msr::Signal(Signal::SIGINT)), Some(Msr::Terminated(Signal::SIGKILL))]);
                let r = s.intr(ch, &mut t, reason);
                if from_idle {
                    deferred = reason.or(deferred);
                    st = St::Idle;
                    check_pkts(&r, &[], &st)?;
                } else if let Some(reason) = reason {
                    let (b, s2) = stop_reply(&reason);
                    st = s2;
                    check_pkts(&r, &[b], &st)?;
                } else {
                    st = St::Running;
                    check_pkts(&r, &[], &st)?;
                }
            }
            St::Disc(_) => {
                if half == Half::Yes || !ch.flag() {
                    return Ok(());
                }
                s.reidle();
                st = St::Idle;
                deferred = None;
                if s.st() != st {
                    return fail("return-to-idle", format!("{:?}", s.st()));
                }
            }
            St::Err(_) => unreachable!(),
        }
    }
    Ok(())
}

fn calls(t: &Tgt<u32>) -> bool {
    t.log.borrow().iter().any(|c| c.f != "list_active_threads" && c.f != "current_active_pid")
}

fn check_reply(r: &Rep, want: &[u8], st: &St) -> R {
    check_pkts(r, &[want.to_vec()], st)
}

fn check_pkts(r: &Rep, want: &[Vec<u8>], st: &St) -> R {
    let (a, p) = r.split()?;
    // (the agreement not to acknowledge outlives a disconnect)
    if a != !r.noack as usize {
        return fail("ack", format!("{}: {} acknowledgements in {:?}", r.what, a, show(&r.raw)));
    }
    if p != want || r.st != *st {
        return fail(
            "transition",
            format!(
                "{}: wrote {:?}, state {:?}; expected {:?}, state {:?}",
                r.what,
                show(&r.raw),
                r.st,
                want.iter().map(|x| show(x)).collect::<Vec<_>>(),
                st
            ),
        );
    }
    if !r.flushed && !r.raw.is_empty() && !(matches!(&r.st, St::Disc(_)) && p.is_empty()) {
        return fail("unflushed", format!("{}: {:?} is not flushed", r.what, show(&r.raw)));
    }
    Ok(())
}

/// Every known packet, sent while idle and while running and after any other
/// packets, moves the session to the state its kind prescribes.
fn c05_each(ch: &mut Ch) -> R {
    let fl = ch.pick(&[f::ALL | f::MULTI, f::ALL & !f::EXT, f::ALL, f::PLAIN, f::PLAIN | f::RESUME | f::MULTI]);
    let deep = !ch.quick() || fl == f::ALL | f::MULTI;
    let mut t = rich::<u32>(fl);
    rich_xml();
    let mut s = Sess::new(&mut t, 300);
    let mut running = fl & f::RESUME != 0 && ch.flag();
    if running {
        s.s(ch, &mut t, "vCont;c").expect(&Exp::Runs)?;
    }
    for _ in 0..if deep { 3 } else { 2 } {
        let p = ch.pick(PACKETS);
        t.take_log();
        let r = s.cmd(ch, &mut t, p);
        let log = t.take_log();
        let resumed = log.iter().filter(|c| ["resume", "step", "range_step", "reverse_cont", "reverse_step"].contains(&c.f)).count();
        let base = if running { St::Running } else { St::Idle };
        let want = match p {
            _ if matches!(r.st, St::Err(_)) => {
                // only resume packets the target did not offer, or stop actions, are fatal here
                return if (p.starts_with(b"vCont;") || matches!(p, b"s" | b"s10" | b"bs" | b"bc" | b"p40" | b"p4")) && resumed == 0 {
                    Ok(())
                } else {
                    fail("fatal", format!("{}: {:?}", show(p), r.st))
                };
            }
            b"D" | b"D;1" => disc(DisconnectReason::Disconnect),
            b"k" | b"vKill;1" if fl & f::EXT == 0 => disc(DisconnectReason::Kill),
            _ if resumed > 0 => St::Running,
            _ => base,
        };
        if resumed > 1 {
            return fail("resume-count", format!("{}: {} resumptions", show(p), resumed));
        }
        if r.st != want {
            return fail("transition", format!("{}: state {:?}, expected {:?}", show(p), r.st, want));
        }
        match want {
            St::Running => running = true,
            St::Idle => {}
            _ => return Ok(()),
        }
    }
    Ok(())
}

/// a session only starts if software breakpoints are supported or explicitly waived
fn c05_guard(ch: &mut Ch) -> R {
    let fl = [f::GUARD, f::BPS, f::SWBP, f::HWBP, f::MULTI, f::RESUME].iter().fold(f::KNOBS, |a, b| if ch.flag() { a | b } else { a });
    let mut t = Tgt::<u32>::new(fl);
    let wire = Rc::new(RefCell::new(Wire::default()));
    let ok = fl & f::GUARD != 0 || fl & (f::BPS | f::SWBP) == f::BPS | f::SWBP;
    let s = Sess::open(&mut t, |b| b.build(), wire.clone());
    ch.step();
    ch.state(&fl);
    ch.outcome(&ok);
    if s.is_ok() != ok {
        return fail("guard-rail", format!("flags {:x}: session start {:?}", fl, s.err()));
    }
    if ok && (wire.borrow().starts != 1 || !wire.borrow().out.is_empty()) {
        return fail("session-start", format!("{} calls of on_session_start", wire.borrow().starts));
    }
    Ok(())
}

// ===================================================================== C06 ===

static C06: Prop = Prop {
    id: "C06",
    scenes: &[
        Scene { name: "interrupt-histories", body: c06_hist },
        Scene { name: "repeated-interrupts", body: c06_lasso },
        Scene { name: "interrupt-byte-in-packets", body: c06_inside },
    ],
    assumptions: &[],
};

fn c06_hist(ch: &mut Ch) -> R {
    let n = ch.by(9, 12);
    c06_run(ch, n, None)
}

/// long histories: every short pattern of events, repeated
fn c06_lasso(ch: &mut Ch) -> R {
    let (k, n) = ch.pick(ch.by(&[(5, 300), (2, 3000), (1, 70000)], &[(7, 300), (3, 3000), (2, 70000)]));
    c06_run(ch, n, Some(k))
}

fn c06_run(ch: &mut Ch, steps: usize, lasso: Option<usize>) -> R {
    let fl = f::PLAIN | f::RESUME | f::STEP | f::RCONT | f::BPS | f::SWBP | if ch.flag() { f::MULTI } else { 0 };
    let mut t = rich::<u32>(fl);
    let mut s = Sess::new(&mut t, 64).plain(&mut t);
    let mut st = St::Idle;
    let mut deferred: Option<Msr> = None;
    let mut from_idle = false;
    if let Some(k) = lasso {
        ch.lasso(k)
    }
    for _ in 0..steps {
        t.take_log();
        match st.clone() {
            St::Idle => match ch.choose(3) {
                0 => {
                    s.raw(ch, &mut t, b"\x03");
                    st = St::CtrlC;
                    from_idle = true;
                }
                1 => {
                    let p = ch.pick(&["vCont;c", "s", "bc"]);
                    let r = s.s(ch, &mut t, p);
                    let mut want = vec![];
                    st = St::Running;
                    if let Some(d) = deferred.take() {
                        let (b, s2) = stop_reply(&d);
                        want.push(b);
                        st = s2;
                    }
                    check_pkts(&r, &want, &st)?;
                    if !calls(&t) {
                        return fail("resume", format!("{} did not reach the target", p));
                    }
                }
                _ => {
                    // commands in between must not lose the deferred reason
                    let r = s.s(ch, &mut t, "m10,1");
                    let b = hex(&[t.byte(0x10)]);
                    check_reply(&r, b.as_bytes(), &st)?;
                }
            },
            St::Running => match ch.choose(2) {
                0 => {
                    s.raw(ch, &mut t, b"\x03");
                    st = St::CtrlC;
                    from_idle = false;
                }
                _ => {
                    let r = s.stop(ch, &mut t, Msr::DoneStep);
                    st = St::Idle;
                    check_reply(&r, b"S05", &st)?;
                }
            },
            St::CtrlC => {
                let reason = ch.pick(&[
                    None,
                    Some(Msr::Signal(Signal::SIGINT)),
                    Some(Msr::SwBreak(tid(1))),
                    Some(Msr::Exited(3)),
                ]);
                let r = s.intr(ch, &mut t, reason);
                if calls(&t) {
                    return fail("interrupt-calls", "an interrupt called the target");
                }
                let mut want = vec![];
                if from_idle {
                    deferred = reason.or(deferred);
                    st = St::Idle;
                } else {
                    st = St::Running;
                    if let Some(x) = reason {
                        let (b, s2) = stop_reply(&x);
                        want.push(b);
                        st = s2;
                    }
                }
                check_pkts(&r, &want, &st)?;
            }
            _ => {
                s.reidle();
                st = St::Idle;
                deferred = None;
            }
        }
        if s.st() != st {
            return fail("transition", format!("state {:?}, expected {:?}", s.st(), st));
        }
    }
    Ok(())
}

/// 0x03 inside a packet is data, before / after one it is an interrupt
fn c06_inside(ch: &mut Ch) -> R {
    let running = ch.flag();
    let fl = f::PLAIN | f::RESUME | if ch.flag() { f::MULTI } else { 0 };
    let mut t = rich::<u32>(fl);
    let mut s = Sess::new(&mut t, 64).plain(&mut t);
    if running {
        s.s(ch, &mut t, "vCont;c").expect(&Exp::Runs)?;
    }
    let base = s.st();
    let n = ch.choose(4);
    let data: Vec<u8> = (0..n).map(|_| ch.pick(&[3u8, b'+', b'-', b'x', b'$', 0])).collect();
    // written escaped only where the protocol requires it
    let payload = [format!("X10,{:x}:", n).into_bytes(), esc(&data)].concat();
    let r = s.cmd(ch, &mut t, &payload);
    check_pkts(&r, &[b"OK".to_vec()], &base)?;
    let got: Vec<u8> = (0..n).map(|i| t.byte(0x10 + i as u128)).collect();
    if got != data {
        return fail("payload", format!("wrote {:?} instead of {:?}", show(&got), show(&data)));
    }
    let r = s.raw(ch, &mut t, b"\x03");
    if r.st != St::CtrlC || !r.raw.is_empty() {
        return fail("interrupt", format!("{:?} {:?}", r.st, show(&r.raw)));
    }
    Ok(())
}

// ===================================================================== C07 ===

static C07: Prop = Prop {
    id: "C07",
    scenes: &[
        Scene { name: "event-scripts", body: c07_scripts },
        Scene { name: "repeated-events", body: c07_lasso },
        Scene { name: "every-command", body: c07_each },
    ],
    assumptions: &["the event loop returns what its contract allows: a byte, a stop reason, or an error"],
};

#[derive(Clone, Debug)]
enum Ev {
    Byte(u8),
    ReadErr,
    Stop(Msr),
    WaitTarget(u32),
    WaitConn,
    Intr(Result<Option<Msr>, u32>),
}

thread_local! {
    static SCRIPT: RefCell<VecDeque<Ev>> = const { RefCell::new(VecDeque::new()) };
}
fn diverged(what: &str, got: Option<Ev>) -> ! {
    std::panic::panic_any(ViolationPanic(
        "diverged".into(),
        format!("run_blocking asked for {} where the state machine expected {:?}", what, got),
    ))
}
fn next() -> Option<Ev> {
    SCRIPT.with(|s| s.borrow_mut().pop_front())
}

impl ConnectionExt for Conn {
    fn read(&mut self) -> Result<u8, u32> {
        match next() {
            Some(Ev::Byte(b)) => Ok(b),
            Some(Ev::ReadErr) => Err(77),
            o => diverged("a byte", o),
        }
    }
    fn peek(&mut self) -> Result<Option<u8>, u32> {
        Ok(None)
    }
}

struct Loop;
impl BlockingEventLoop for Loop {
    type Target = Tgt<u32>;
    type Connection = Conn;
    type StopReason = Msr;
    fn wait_for_stop_reason(_: &mut Tgt<u32>, _: &mut Conn) -> Result<Event<Msr>, WaitForStopReasonError<u32, u32>> {
        match next() {
            Some(Ev::Byte(b)) => Ok(Event::IncomingData(b)),
            Some(Ev::Stop(r)) => Ok(Event::TargetStopped(r)),
            Some(Ev::WaitTarget(e)) => Err(WaitForStopReasonError::Target(e)),
            Some(Ev::WaitConn) => Err(WaitForStopReasonError::Connection(78)),
            o => diverged("an event", o),
        }
    }
    fn on_interrupt(_: &mut Tgt<u32>) -> Result<Option<Msr>, u32> {
        match next() {
            Some(Ev::Intr(r)) => r,
            o => diverged("an interrupt", o),
        }
    }
}

fn compare(ch: &mut Ch, script: Vec<Ev>, mk: &dyn Fn() -> Tgt<u32>, want: Result<String, ErrK>, out: &[u8], log: &[Call]) -> R {
    let mut t = mk();
    let wire = Rc::new(RefCell::new(Wire { limit: (1 << 20) + 2 * out.len(), ..Default::default() }));
    SCRIPT.with(|s| *s.borrow_mut() = script.into());
    let got = GdbStub::<Tgt<u32>, Conn>::builder(Conn(wire.clone()))
        .packet_buffer_size(200)
        .build()
        .unwrap()
        .run_blocking::<Loop>(&mut t)
        .map(|r| format!("{:?}", r))
        .map_err(errk);
    let left = SCRIPT.with(|s| s.borrow().len());
    ch.step();
    ch.outcome(&(&got, wire.borrow().out.clone()));
    note!(ch, "run_blocking: {:?}, wrote {:?}", got, show(&wire.borrow().out));
    if got != want {
        return fail("result", format!("run_blocking returned {:?}, the state machine ended with {:?}", got, want));
    }
    if left != 0 {
        return fail("result", format!("run_blocking returned with {} events left", left));
    }
    if wire.borrow().out != out {
        return fail("output", format!("run_blocking wrote {:?}, the state machine {:?}", show(&wire.borrow().out), show(out)));
    }
    if wire.borrow().starts != 1 {
        return fail("session-start", format!("{} calls of on_session_start", wire.borrow().starts));
    }
    let l = t.take_log();
    if l != log {
        return fail("target-calls", format!("run_blocking made the calls {:?}, the state machine {:?}", l, log));
    }
    Ok(())
}

/// drive the state machine by hand along one script, then run the same script through run_blocking
fn lockstep(ch: &mut Ch, mk: &dyn Fn() -> Tgt<u32>, steps: usize, cmds: &[&[u8]], lasso: Option<usize>) -> R {
    if let Some(k) = lasso {
        ch.lasso(k)
    }
    let mut t = mk();
    let mut s = Sess::new(&mut t, 200).plain(&mut t);
    let mut script = vec![];
    let mut end: Option<Result<String, ErrK>> = None;
    let mut n = 0;
    while end.is_none() {
        let last = n >= steps;
        n += 1;
        match s.st() {
            St::Idle => match if last { 0 } else { ch.choose(2 + cmds.len()) } {
                0 => {
                    script.push(Ev::ReadErr);
                    end = Some(Err(ErrK::Conn(77, 1)));
                }
                1 => {
                    script.push(Ev::Byte(3));
                    s.raw(ch, &mut t, b"\x03");
                }
                k => {
                    let b = frame(cmds[k - 2]);
                    let m = s.feed(&mut t, &b);
                    script.extend(b[..m].iter().map(|b| Ev::Byte(*b)));
                }
            },
            St::Running => match if last { 0 } else { ch.choose(7 + cmds.len()) } {
                0 => {
                    script.push(Ev::WaitConn);
                    end = Some(Err(ErrK::Conn(78, 1)));
                }
                1 => {
                    script.push(Ev::WaitTarget(5));
                    end = Some(Err(ErrK::Target(5)));
                }
                2 => {
                    script.push(Ev::Byte(3));
                    s.raw(ch, &mut t, b"\x03");
                }
                k @ 3..=6 => {
                    let r = [Msr::DoneStep, Msr::SwBreak(tid(1)), Msr::Exited(2), Msr::HwBreak(tid(1))][k - 3];
                    script.push(Ev::Stop(r));
                    s.stop(ch, &mut t, r);
                }
                k => {
                    let b = frame(cmds[k - 7]);
                    let m = s.feed(&mut t, &b);
                    script.extend(b[..m].iter().map(|b| Ev::Byte(*b)));
                }
            },
            St::CtrlC => match ch.choose(4) {
                0 => {
                    script.push(Ev::Intr(Err(9)));
                    end = Some(Err(ErrK::Target(9)));
                }
                k => {
                    let r = [None, Some(Msr::Signal(Signal::SIGINT)), Some(Msr::Terminated(Signal::SIGABRT))][k - 1];
                    script.push(Ev::Intr(Ok(r)));
                    s.intr(ch, &mut t, r);
                }
            },
            St::Disc(r) => end = Some(Ok(r)),
            St::Err(e) => end = Some(Err(e)),
        }
    }
    let out = s.wire.borrow().out.clone();
    let log = t.take_log();
    ch.state(&(hash_of(&out), format!("{:?}", end)));
    compare(ch, script, mk, end.unwrap(), &out, &log)
}

fn c07_scripts(ch: &mut Ch) -> R {
    let fl = f::PLAIN | f::RESUME | f::BPS | f::SWBP | if ch.flag() { f::MULTI } else { 0 } | if ch.flag() { f::EXT } else { 0 };
    let cmds: &[&[u8]] = &[b"?", b"vCont;c", b"vCont;t", b"D", b"k", b"m10,2", b"X10,2:\x03\x03"];
    let n = ch.by(5, 6);
    lockstep(ch, &move || rich::<u32>(fl), n, cmds, None)
}

/// long scripts: every short pattern of events, repeated
fn c07_lasso(ch: &mut Ch) -> R {
    let fl = f::PLAIN | f::RESUME | f::BPS | f::SWBP | if ch.flag() { f::MULTI } else { 0 } | if ch.flag() { f::EXT } else { 0 };
    let cmds: &[&[u8]] = &[b"?", b"vCont;c", b"vCont;t", b"D", b"k", b"m10,2", b"X10,2:\x03\x03"];
    let (k, n) = ch.pick(ch.by(&[(4, 300), (2, 3000)], &[(6, 300), (3, 3000), (2, 20000)]));
    lockstep(ch, &move || rich::<u32>(fl), n, cmds, Some(k))
}

fn c07_each(ch: &mut Ch) -> R {
    let p = ch.pick(PACKETS);
    let fl = f::ALL | if ch.flag() { f::MULTI } else { 0 };
    lockstep(
        ch,
        &move || {
            let t = rich::<u32>(fl);
            rich_xml();
            t
        },
        3,
        &[p],
        None,
    )
}

// ===================================================================== C09 ===

static C09: Prop = Prop {
    id: "C09",
    scenes: &[
        Scene { name: "every-call-every-error", body: c09_each },
        Scene { name: "every-errno", body: c09_codes },
        Scene { name: "errors-in-sequences", body: c09_seq },
    ],
    assumptions: &["a target which reports an error from a streaming callback has not yet called the callback"],
};

/// calls which can only fail fatally
const FATAL_ONLY: &[&str] = &[
    "list_active_threads", "resume", "step", "range_step", "clear_resume_actions", "set_continue", "set_step",
    "set_range", "reverse_cont", "reverse_step", "thread_extra_info", "monitor", "section_offsets",
    "lldb_register_info", "restart", "on_start", "current_active_pid",
];

fn c09_mk(fl: u64) -> Tgt<u32> {
    let mut t = rich::<u32>(fl);
    t.monitor_out = vec![];
    rich_xml();
    t
}

fn c09_prep(ch: &mut Ch, t: &mut Tgt<u32>, s: &mut Sess<'_, Tgt<u32>>, p: &[u8]) -> R {
    if p == b"qTsP" {
        s.s(ch, t, "qTfP").reply()?;
    }
    t.take_log();
    Ok(())
}

fn c09_each(ch: &mut Ch) -> R {
    let p = ch.pick(PACKETS);
    let fl = f::ALL | if ch.flag() { f::MULTI } else { 0 };
    // which target calls does it make?
    let (log, good) = {
        let mut t = c09_mk(fl);
        let mut s = Sess::new(&mut t, 300);
        c09_prep(ch, &mut t, &mut s, p)?;
        let r = s.cmd(ch, &mut t, p);
        (t.take_log(), r.pkts().ok().and_then(|p| p.first().cloned()).unwrap_or_default())
    };
    if log.is_empty() {
        return Ok(());
    }
    let i = ch.choose(log.len());
    let fun = log[i].f;
    let nth = log[..i].iter().filter(|c| c.f == fun).count();
    let injs: Vec<Inj> = if FATAL_ONLY.contains(&fun) {
        vec![Inj::Fatal(0x1234)]
    } else if fun.starts_with("h_") {
        [Inj::Fatal(0x1234)].into_iter().chain(HERRNOS.iter().map(|e| Inj::Host(*e))).collect()
    } else {
        vec![Inj::Fatal(0x1234), Inj::NonFatal, Inj::Errno(0), Inj::Errno(1), Inj::Errno(22), Inj::Errno(255), Inj::Io(2), Inj::Io(110), Inj::IoOther, Inj::Unit, Inj::IoInto(2), Inj::IoInto(110)]
    };
    let inj = ch.pick(&injs);
    let mut t = c09_mk(fl);
    let mut s = Sess::new(&mut t, 300);
    c09_prep(ch, &mut t, &mut s, p)?;
    t.inj = vec![(fun, nth + prep_calls(p, fun), inj)];
    note!(ch, "{}: call {} #{} fails with {:?}", show(p), fun, nth, inj);
    let r = s.cmd(ch, &mut t, p);
    let made = t.take_log();
    if made.len() > i + 1 && matches!(inj, Inj::Fatal(_)) {
        return fail("calls-after-error", format!("{}: after the fatal error of {}: {:?}", show(p), fun, &made[i + 1..]));
    }
    let want = match inj {
        Inj::Fatal(e) => {
            r.expect(&Exp::FatalTarget(e))?;
            // nothing which the client could take for a reply may have been completed
            if r.raw.contains(&b'#') {
                return fail("reply-and-error", format!("{}: replied {:?} and failed", show(p), show(&r.raw)));
            }
            return Ok(());
        }
        Inj::NonFatal | Inj::IoOther | Inj::Unit => b"E79".to_vec(),
        Inj::Errno(c) => format!("E{:02x}", c).into_bytes(),
        Inj::Io(c) | Inj::IoInto(c) => format!("E{:02x}", c).into_bytes(),
        Inj::Any(_) => return Ok(()), // (used by C37 only)
        Inj::Host(c) => format!("F-1,{:02x}", c as u8 as u32).into_bytes(),
    };
    let pk = r.pkts()?;
    if let Inj::Host(c) = inj {
        let ok = pk.len() == 1 && pk[0].starts_with(b"F-1,") && num(&pk[0][4..]) == Some(c as u128);
        if !ok || r.st != St::Idle {
            return fail("host-error", format!("{}: {:?} {:?}", show(p), pk, r.st));
        }
    } else if fun == "trace_info" && pk == [b"T1".to_vec()] && r.st == St::Idle {
        // the explanations are an optional part of the status
    } else if fun == "read_addrs" && nth > 0 && pk.len() == 1 && pk[0].len() > 1 && good.starts_with(&pk[0]) && r.st == St::Idle {
        // a read made of several calls: what could be read is a legal answer
    } else if pk != [want.clone()] || r.st != St::Idle {
        return fail(
            "error-reply",
            format!("{}: {} failed with {:?}: {:?} {:?}, expected {:?}", show(p), fun, inj, pk.iter().map(|p| show(p)).collect::<Vec<_>>(), r.st, show(&want)),
        );
    }
    // the session goes on
    t.inj.clear();
    s.s(ch, &mut t, "vMustReplyEmpty").expect(&Exp::Empty)
}

/// calls of `fun` made by the preparation of `p`
fn prep_calls(_: &[u8], _: &str) -> usize {
    0 // only `qTsP` is prepared, by a `tp_enum` call made before injection was armed
}

fn c09_codes(ch: &mut Ch) -> R {
    const CMDS: &[(&[u8], &str)] = &[
        (b"g", "read_registers"),
        (b"M10,1:aa", "write_addrs"),
        (b"m10,1", "read_addrs"),
        (b"p1", "read_register"),
        (b"Z0,10,1", "add_sw"),
        (b"vAttach;1", "attach"),
        (b"QTinit", "tp_init"),
        (b"qXfer:auxv:read::0,1", "auxv"),
    ];
    let (p, fun) = ch.pick(CMDS);
    let fl = f::ALL | if ch.flag() { f::MULTI } else { 0 };
    let code = ch.choose(256);
    let io = ch.flag();
    let mut t = c09_mk(fl);
    let mut s = Sess::new(&mut t, 300);
    t.inj = vec![(fun, 0, if io { Inj::Io(code as i32) } else { Inj::Errno(code as u8) })];
    s.cmd(ch, &mut t, p).expect(&Exp::e(code as u8))
}

/// fatal and non-fatal errors at any point of short command sequences
fn c09_seq(ch: &mut Ch) -> R {
    let multi = ch.flag();
    let fl = f::ALL | if multi { f::MULTI } else { 0 };
    let mut t = c09_mk(fl);
    let mut s = Sess::new(&mut t, 300);
    const CMDS: &[(&str, &[&str])] = &[
        ("m10,4", &["read_addrs"]),
        ("M10,1:ff", &["write_addrs"]),
        ("g", &["read_registers"]),
        ("Z1,10,4", &["add_hw"]),
        ("vRun;2f61", &["run"]),
        ("qTP:1:10", &["tp_status"]),
    ];
    for _ in 0..ch.by(4, 5) {
        let (p, fns) = ch.pick(CMDS);
        let e = ch.pick(&[None, Some(Inj::NonFatal), Some(Inj::Errno(9)), Some(Inj::Fatal(3))]);
        // counts are cumulative: fail every later call of it, then lift the fault
        t.inj = e.iter().flat_map(|e| (0..64).map(|n| (fns[0], n, *e))).collect();
        let before = t.mem.clone();
        let r = s.s(ch, &mut t, p);
        t.inj.clear();
        match e {
            None => {
                let b = r.reply()?;
                if is_err(&b) || b.is_empty() {
                    return fail("sticky-error", format!("{}: {:?}", p, show(&b)));
                }
            }
            Some(Inj::NonFatal) => r.expect(&Exp::e(121))?,
            Some(Inj::Errno(c)) => r.expect(&Exp::e(c))?,
            _ => return r.expect(&Exp::FatalTarget(3)),
        }
        if e.is_some() && t.mem != before {
            return fail("write-after-error", p);
        }
    }
    Ok(())
}
