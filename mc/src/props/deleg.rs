//! C34: wrapped targets and connections; C35: packet buffer configuration.

use crate::client::*;
use crate::note;
use crate::props::corpus::*;
use crate::props::*;
use crate::sess::*;
use gdbstub::common::*;
use gdbstub::conn::*;
use gdbstub::stub::state_machine::GdbStubStateMachine as M;
use gdbstub::stub::*;
use gdbstub::target::Target;
use std::cell::RefCell;
use std::rc::Rc;

pub const PROPS: &[&Prop] = &[&C34, &C35];

// ===================================================================== C34 ===

static C34: Prop = Prop {
    id: "C34",
    scenes: &[
        Scene { name: "every-command-every-capability", body: c34_each },
        Scene { name: "command-pairs", body: c34_pairs },
        Scene { name: "every-stop-reason", body: c34_stops },
        Scene { name: "session-start", body: c34_guard },
        Scene { name: "blocking-loop", body: c34_blocking },
        Scene { name: "failing-connection", body: c34_fail },
    ],
    assumptions: &["the plain target and connection are judged by the other properties; here they are the reference"],
};

type A = HA<u32>;
type Dyn = dyn Target<Arch = A, Error = u32>;

/// What is done to a session.
#[derive(Clone, Debug)]
pub enum Step {
    Pkt(Vec<u8>),
    Stop(MultiThreadStopReason<u32>),
    Intr(Option<MultiThreadStopReason<u32>>),
    Byte(u8),
}

/// Everything observed: bytes, connection operations and state after each step.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Seen {
    pub steps: Vec<(Vec<u8>, u64, bool, St)>,
    pub starts: u32,
}

pub fn steps<T: Target<Arch = A, Error = u32>, C: Connection<Error = u32>>(
    t: &mut T,
    c: C,
    wire: &Rc<RefCell<Wire>>,
    size: usize,
    script: &[Step],
) -> Seen {
    let mut seen = Seen::default();
    let push = |seen: &mut Seen, st: St| {
        let mut w = wire.borrow_mut();
        let out = core::mem::take(&mut w.out);
        let fl = w.flushed == out.len();
        w.flushed = 0;
        let n = w.count;
        seen.starts = w.starts;
        seen.steps.push((out, n, fl, st));
    };
    let g = match GdbStub::<T, C>::builder(c).packet_buffer_size(size).build() {
        Ok(g) => g,
        Err(e) => {
            push(&mut seen, St::Err(ErrK::Other(format!("{}", e))));
            return seen;
        }
    };
    let mut m = match g.run_state_machine(t) {
        Ok(m) => m,
        Err(e) => {
            push(&mut seen, St::Err(errk(e)));
            return seen;
        }
    };
    push(&mut seen, St::Idle);
    for s in script {
        let bytes = match s {
            Step::Pkt(p) => frame(p),
            Step::Byte(b) => vec![*b],
            _ => vec![],
        };
        let mut r = Ok(m);
        for b in bytes {
            r = match r {
                Ok(M::Idle(g)) => g.incoming_data(t, b),
                Ok(M::Running(g)) => g.incoming_data(t, b),
                o => o,
            };
        }
        let r = match (s, r) {
            (Step::Stop(x), Ok(M::Running(g))) => g.report_stop(t, *x),
            (Step::Intr(x), Ok(M::CtrlCInterrupt(g))) => g.interrupt_handled(t, *x),
            (_, r) => r,
        };
        match r {
            Err(e) => {
                push(&mut seen, St::Err(errk(e)));
                return seen;
            }
            Ok(n) => {
                let st = match &n {
                    M::Idle(_) => St::Idle,
                    M::Running(_) => St::Running,
                    M::CtrlCInterrupt(_) => St::CtrlC,
                    M::Disconnected(d) => disc(d.get_reason()),
                };
                push(&mut seen, st);
                m = n;
            }
        }
    }
    seen
}

/// A connection with a `write_all` of its own.
#[derive(Clone)]
pub struct Batch(pub Conn);
impl Connection for Batch {
    type Error = u32;
    fn write(&mut self, b: u8) -> Result<(), u32> {
        self.0.write(b)
    }
    fn write_all(&mut self, v: &[u8]) -> Result<(), u32> {
        let mut w = self.0 .0.borrow_mut();
        w.batches += 1;
        drop(w);
        v.iter().try_for_each(|b| self.0.write(*b))
    }
    fn flush(&mut self) -> Result<(), u32> {
        self.0.flush()
    }
    fn on_session_start(&mut self) -> Result<(), u32> {
        self.0.on_session_start()
    }
}

const WRAPS: usize = 6;
const WRAP_NAMES: [&str; WRAPS] =
    ["&mut dyn Target", "Box<dyn Target>", "&mut dyn Connection", "Box<dyn Connection>", "dyn Target + dyn Connection", "Box<dyn Target> + Box<dyn Connection>"];

fn wrapped(make: &dyn Fn() -> Tgt<u32>, how: Option<usize>, size: usize, fail_at: Option<u64>, script: &[Step]) -> (Seen, Vec<Call>, u32) {
    let wire = Rc::new(RefCell::new(Wire { limit: 1 << 20, fail_at, ..Default::default() }));
    let mut c = Batch(Conn(wire.clone()));
    let mut t = make();
    // the architecture's own answers are set per session
    rich_xml();
    let seen = match how {
        None => steps(&mut t, c, &wire, size, script),
        Some(0) => {
            let mut d: &mut dyn Target<Arch = A, Error = u32> = &mut t;
            steps(&mut d, c, &wire, size, script)
        }
        Some(w @ (1 | 5)) => {
            // the box owns the target: it is taken back at the end
            let p = Box::into_raw(Box::new(t));
            let mut b: Box<Dyn> = unsafe { Box::from_raw(p) };
            let s = if w == 1 {
                steps(&mut b, c, &wire, size, script)
            } else {
                let bc: Box<dyn Connection<Error = u32>> = Box::new(c);
                steps(&mut b, bc, &wire, size, script)
            };
            core::mem::forget(b);
            t = *unsafe { Box::from_raw(p) };
            s
        }
        Some(2) => {
            let d: &mut dyn Connection<Error = u32> = &mut c;
            steps(&mut t, d, &wire, size, script)
        }
        Some(3) => {
            let b: Box<dyn Connection<Error = u32>> = Box::new(c);
            steps(&mut t, b, &wire, size, script)
        }
        Some(_) => {
            let mut dt: &mut dyn Target<Arch = A, Error = u32> = &mut t;
            let dc: &mut dyn Connection<Error = u32> = &mut c;
            steps(&mut dt, dc, &wire, size, script)
        }
    };
    let b = wire.borrow().batches;
    (seen, t.take_log(), b)
}

fn same(ch: &mut Ch, make: &dyn Fn() -> Tgt<u32>, size: usize, fail_at: Option<u64>, script: &[Step]) -> R {
    let want = wrapped(make, None, size, fail_at, script);
    ch.outcome(&hash_of(&format!("{:?}", want.0)));
    for w in 0..WRAPS {
        ch.step();
        let got = wrapped(make, Some(w), size, fail_at, script);
        if got.0 != want.0 {
            let i = got.0.steps.iter().zip(&want.0.steps).position(|(a, b)| a != b);
            let show1 = |s: &Seen| match i {
                Some(i) => format!("{:?} {} {:?} {:?}", show(&s.steps[i].0), s.steps[i].1, s.steps[i].2, s.steps[i].3),
                None => format!("{} steps, {} starts", s.steps.len(), s.starts),
            };
            return fail(
                "wrapper-differs",
                format!("{}: step {:?} of {:?}: {} instead of {}", WRAP_NAMES[w], i, script, show1(&got.0), show1(&want.0)),
            );
        }
        if got.1 != want.1 {
            return fail("wrapper-calls", format!("{}: {:?}: calls {:?} instead of {:?}", WRAP_NAMES[w], script, got.1, want.1));
        }
        if got.2 != want.2 {
            return fail("wrapper-batches", format!("{}: {:?}: {} batched writes instead of {}", WRAP_NAMES[w], script, got.2, want.2));
        }
    }
    Ok(())
}

/// every capability alone, everything without it, and a few big sets
fn capability_set(ch: &mut Ch) -> u64 {
    const N: u64 = 41; // flags in `f`
    let fl = match ch.choose(3) {
        0 => f::ALL | f::GUARD,
        1 => (f::ALL | f::GUARD) & !(1 << ch.choose(N as usize)),
        _ => {
            let b = 1u64 << ch.choose(N as usize);
            // the parent of a nested capability comes along
            let p = if b & f::BPALL != 0 {
                f::BPS
            } else if b & f::EXTALL != 0 {
                f::EXT
            } else if b & f::HOSTALL != 0 {
                f::HOST
            } else if b & f::RESALL != 0 {
                f::RESUME
            } else if b & (f::TRACE | f::TSRC) != 0 {
                f::TRACE
            } else {
                0
            };
            f::GUARD | b | p
        }
    };
    if ch.flag() {
        fl | f::MULTI
    } else {
        fl & !f::MULTI
    }
}

fn c34_each(ch: &mut Ch) -> R {
    let fl = capability_set(ch);
    let p = ch.pick(PACKETS);
    note!(ch, "flags {:x} packet {}", fl, show(p));
    ch.state(&(fl, p));
    same(ch, &|| rich(fl), 300, None, &[Step::Pkt(p.to_vec())])
}

fn c34_pairs(ch: &mut Ch) -> R {
    let fl = if ch.quick() {
        ch.pick(&[f::ALL | f::MULTI, f::ALL, f::GUARD | f::USEXML | f::RESUME, f::PLAIN, (f::ALL | f::MULTI) & !f::RESUME, f::ALL & !f::EXT])
    } else {
        capability_set(ch)
    };
    let p = ch.pick(PACKETS);
    let q = ch.pick(PACKETS);
    note!(ch, "flags {:x} packets {} {}", fl, show(p), show(q));
    ch.state(&(fl, p, q));
    let stop = Step::Stop(MultiThreadStopReason::SignalWithThread { tid: Tid::new(2).unwrap(), signal: Signal::SIGINT });
    same(ch, &|| rich(fl), 300, None, &[Step::Pkt(p.to_vec()), stop.clone(), Step::Pkt(q.to_vec()), stop])
}

fn reasons() -> Vec<MultiThreadStopReason<u32>> {
    use gdbstub::target::ext::breakpoints::WatchKind;
    use gdbstub::target::ext::catch_syscalls::CatchSyscallPosition;
    use gdbstub::target::ext::base::reverse_exec::ReplayLogPosition;
    use gdbstub::stub::BaseStopReason::*;
    let tid = Tid::new(2).unwrap();
    vec![
        DoneStep,
        Signal(gdbstub::common::Signal::SIGSEGV),
        Exited(3),
        Terminated(gdbstub::common::Signal::SIGKILL),
        SignalWithThread { tid, signal: gdbstub::common::Signal::SIGUSR1 },
        SwBreak(tid),
        HwBreak(tid),
        Watch { tid, kind: WatchKind::Read, addr: 0x1234_5678 },
        ReplayLog { tid: Some(tid), pos: ReplayLogPosition::End },
        CatchSyscall { tid: None, number: 0x29, position: CatchSyscallPosition::Return },
    ]
}

fn c34_stops(ch: &mut Ch) -> R {
    let fl = capability_set(ch) | f::RESUME;
    let rs = reasons();
    let r = rs[ch.choose(rs.len())];
    let script = match ch.choose(4) {
        0 => vec![Step::Pkt(b"vCont;c".to_vec()), Step::Stop(r), Step::Pkt(b"?".to_vec())],
        1 => vec![Step::Pkt(b"c".to_vec()), Step::Byte(3), Step::Intr(Some(r)), Step::Pkt(b"g".to_vec())],
        2 => vec![Step::Byte(3), Step::Intr(Some(r)), Step::Pkt(b"vCont;c".to_vec()), Step::Pkt(b"m10,4".to_vec())],
        _ => vec![Step::Pkt(b"c".to_vec()), Step::Byte(3), Step::Intr(None), Step::Stop(r), Step::Pkt(b"qC".to_vec())],
    };
    note!(ch, "flags {:x} {:?}", fl, script);
    ch.state(&(fl, format!("{:?}", script)));
    same(ch, &|| rich(fl), 300, None, &script)
}

fn c34_guard(ch: &mut Ch) -> R {
    let fl = [f::GUARD, f::BPS, f::SWBP, f::HWBP, f::MULTI, f::RESUME].iter().fold(f::KNOBS, |a, b| if ch.flag() { a | b } else { a });
    note!(ch, "flags {:x}", fl);
    ch.state(&fl);
    same(ch, &|| rich(fl), 100, None, &[Step::Pkt(b"?".to_vec())])
}

fn c34_fail(ch: &mut Ch) -> R {
    let p = ch.pick(PACKETS);
    let k = ch.choose(ch.by(40, 200)) as u64;
    note!(ch, "packet {} failing operation {}", show(p), k);
    let stop = Step::Stop(MultiThreadStopReason::SwBreak(Tid::new(1).unwrap()));
    same(ch, &|| rich(f::ALL | f::MULTI), 100, Some(k), &[Step::Pkt(p.to_vec()), stop])
}

// the blocking loop is generic over target and connection as well

#[derive(Clone)]
struct Feed {
    conn: Conn,
    input: Rc<RefCell<Vec<u8>>>, // reversed
}
impl Connection for Feed {
    type Error = u32;
    fn write(&mut self, b: u8) -> Result<(), u32> {
        self.conn.write(b)
    }
    fn flush(&mut self) -> Result<(), u32> {
        self.conn.flush()
    }
    fn on_session_start(&mut self) -> Result<(), u32> {
        self.conn.on_session_start()
    }
}
impl ConnectionExt for Feed {
    fn read(&mut self) -> Result<u8, u32> {
        self.input.borrow_mut().pop().ok_or(0xe0f)
    }
    fn peek(&mut self) -> Result<Option<u8>, u32> {
        Ok(self.input.borrow().last().copied())
    }
}
struct Loop<T, C>(core::marker::PhantomData<(T, C)>);
impl<T: Target<Arch = A, Error = u32>, C: ConnectionExt<Error = u32>> run_blocking::BlockingEventLoop for Loop<T, C> {
    type Target = T;
    type Connection = C;
    type StopReason = MultiThreadStopReason<u32>;
    fn wait_for_stop_reason(
        t: &mut T,
        c: &mut C,
    ) -> Result<run_blocking::Event<Self::StopReason>, run_blocking::WaitForStopReasonError<u32, u32>> {
        use run_blocking::*;
        // an interrupt waiting is taken first; otherwise the target stops
        match c.peek().map_err(WaitForStopReasonError::Connection)? {
            Some(3) => Ok(Event::IncomingData(c.read().map_err(WaitForStopReasonError::Connection)?)),
            _ => {
                let _ = t.support_breakpoints().is_some();
                Ok(Event::TargetStopped(MultiThreadStopReason::SignalWithThread { tid: Tid::new(1).unwrap(), signal: Signal::SIGTRAP }))
            }
        }
    }
    fn on_interrupt(_: &mut T) -> Result<Option<Self::StopReason>, u32> {
        Ok(Some(MultiThreadStopReason::Signal(Signal::SIGINT)))
    }
}

fn blocking<T: Target<Arch = A, Error = u32>, C: ConnectionExt<Error = u32>>(t: &mut T, c: C) -> String {
    let g = match GdbStub::<T, C>::builder(c).packet_buffer_size(300).build() {
        Ok(g) => g,
        Err(e) => return format!("{}", e),
    };
    match g.run_blocking::<Loop<T, C>>(t) {
        Ok(r) => format!("{:?}", r),
        Err(e) => format!("{:?}", errk(e)),
    }
}

fn c34_blocking(ch: &mut Ch) -> R {
    let fl = ch.pick(&[f::ALL | f::MULTI, f::ALL, f::PLAIN | f::RESUME, f::PLAIN]);
    let n = ch.by(4, 5);
    let mut input = vec![];
    for _ in 0..n {
        match ch.choose(8) {
            0 => input.extend(frame(b"vCont;c")),
            1 => input.push(3),
            2 => input.extend(frame(b"m10,4")),
            3 => input.extend(frame(b"qSupported:multiprocess+")),
            4 => input.extend(frame(b"?")),
            5 => input.extend(frame(b"vCont;C05:2;c")),
            6 => input.extend(frame(b"D")),
            _ => input.extend(b"$?#00"),
        }
    }
    input.extend(frame(b"k"));
    note!(ch, "flags {:x} input {}", fl, show(&input));
    ch.state(&(fl, &input));
    input.reverse();
    let run = |how: usize| {
        let wire = Rc::new(RefCell::new(Wire { limit: 1 << 20, ..Default::default() }));
        let mut c = Feed { conn: Conn(wire.clone()), input: Rc::new(RefCell::new(input.clone())) };
        let mut t = rich::<u32>(fl);
        rich_xml();
        let r = match how {
            0 => blocking(&mut t, c),
            1 => {
                let mut d: &mut dyn Target<Arch = A, Error = u32> = &mut t;
                blocking(&mut d, c)
            }
            2 => {
                let d: &mut dyn ConnectionExt<Error = u32> = &mut c;
                blocking(&mut t, d)
            }
            _ => {
                let b: Box<dyn ConnectionExt<Error = u32>> = Box::new(c);
                blocking(&mut t, b)
            }
        };
        let w = wire.borrow();
        (r, w.out.clone(), w.flushed, w.count, t.take_log())
    };
    let want = run(0);
    ch.outcome(&want.0);
    for how in 1..4 {
        ch.step();
        let got = run(how);
        if got != want {
            return fail(
                "blocking-differs",
                format!("wrapper {}: {} wrote {} instead of {} {}", how, got.0, show(&got.1), want.0, show(&want.1)),
            );
        }
    }
    Ok(())
}

// ===================================================================== C35 ===

static C35: Prop = Prop {
    id: "C35",
    scenes: &[
        Scene { name: "every-buffer-and-size", body: c35_borrowed },
        Scene { name: "owned-sizes", body: c35_owned },
        Scene { name: "reported-size", body: c35_reported },
        Scene { name: "packet-sequences", body: c35_seq },
    ],
    assumptions: &[
        "the capacity counts every byte of a framed packet, from `$` to the second checksum digit",
        "builds without a heap are part of C36",
    ],
};

const GUARD: u8 = 0xd5;

/// a packet of exactly `len` bytes on the wire that gets an empty reply
fn filler(len: usize) -> Vec<u8> {
    frame(&b"_".repeat(len - 4))
}

fn c35_borrowed(ch: &mut Ch) -> R {
    let max = ch.by(64, 200);
    let len = ch.choose(max);
    let size = match ch.choose(max + 3) {
        0 => None,
        k => Some(k - 1),
    };
    let extra = 8;
    let mut all = vec![GUARD; extra + len + extra];
    let mut t = rich::<u32>(f::PLAIN);
    let wire = Rc::new(RefCell::new(Wire { limit: 1 << 16, ..Default::default() }));
    let conn = Conn(wire.clone());
    note!(ch, "buffer of {} bytes, size {:?}", len, size);
    ch.state(&(len, size));
    ch.step();
    let mut b = GdbStub::<Tgt<u32>, Conn>::builder(conn);
    // both orders of the two builder methods
    let first = ch.flag();
    if first {
        if let Some(s) = size {
            b = b.packet_buffer_size(s);
        }
    }
    let (lo, rest) = all.split_at_mut(extra);
    let (buf, hi) = rest.split_at_mut(len);
    let mut b = b.with_packet_buffer(buf);
    if !first {
        if let Some(s) = size {
            b = b.packet_buffer_size(s);
        }
    }
    let g = b.build();
    let g = match (g, size) {
        (Err(GdbStubBuilderError::PacketBufSizeMismatch), Some(s)) if s > len => {
            ch.outcome(&0);
            return Ok(());
        }
        (Err(e), _) => return fail("refused", format!("buffer of {} bytes with size {:?}: {}", len, size, e)),
        (Ok(_), Some(s)) if s > len => return fail("accepted", format!("buffer of {} bytes with size {:?} was accepted", len, size)),
        (Ok(g), _) => g,
    };
    let cap = size.unwrap_or(len);
    let mut m = match g.run_state_machine(&mut t) {
        Ok(m) => m,
        Err(e) => return fail("start", format!("{}", e)),
    };
    // a packet around the capacity
    let plen = (cap + ch.choose(7)).saturating_sub(3).max(4);
    let pkt = filler(plen);
    let mut taken = 0;
    let mut err = None;
    for x in &pkt {
        let r = match m {
            M::Idle(g) => g.incoming_data(&mut t, *x),
            _ => unreachable!(),
        };
        match r {
            Ok(n) => {
                m = n;
                taken += 1
            }
            Err(e) => {
                err = Some(format!("{}", e));
                // the machine is gone
                let out = wire.borrow().out.clone();
                if plen <= cap {
                    return fail("overflow", format!("capacity {}: a packet of {} bytes failed: {}", cap, plen, err.unwrap()));
                }
                if taken != cap || !out.is_empty() {
                    return fail("overflow", format!("capacity {}: the error came after {} bytes, {} written", cap, taken, show(&out)));
                }
                ch.outcome(&(1, plen as isize - cap as isize));
                return guards(&lo, &hi);
            }
        }
    }
    if plen > cap {
        return fail("overflow", format!("capacity {}: a packet of {} bytes was taken", cap, plen));
    }
    let out = wire.borrow().out.clone();
    if out != b"+$#00" {
        return fail("reply", format!("capacity {}: a packet of {} bytes got {}", cap, plen, show(&out)));
    }
    ch.outcome(&(2, plen as isize - cap as isize, err.is_some()));
    drop(m);
    guards(&lo, &hi)?;
    // nothing past the configured size was touched either
    if all[extra + cap..].iter().any(|b| *b != GUARD) {
        return fail("outside", format!("bytes past the configured size {} were written", cap));
    }
    Ok(())
}

fn guards(lo: &[u8], hi: &[u8]) -> R {
    if lo.iter().chain(hi).any(|b| *b != GUARD) {
        return fail("outside", "bytes outside of the packet buffer were written".to_string());
    }
    Ok(())
}

/// heap buffers take packets of any size
fn c35_owned(ch: &mut Ch) -> R {
    let size = ch.choose(ch.by(80, 200));
    let plen = 4 + ch.choose(ch.by(300, 900));
    let mut t = rich::<u32>(f::PLAIN);
    let mut s = Sess::new(&mut t, size);
    note!(ch, "size {} packet of {}", size, plen);
    let r = s.cmd(ch, &mut t, &b"_".repeat(plen - 4));
    r.expect(&Exp::Empty)?;
    // and what follows is not disturbed by the growth
    let r = s.s(ch, &mut t, "m10,4");
    let want: String = (0x10..0x14u128).map(|a| format!("{:02x}", t.byte(a))).collect();
    r.expect(&Exp::s(want))
}

/// PacketSize is the capacity, by default 4096
fn c35_reported(ch: &mut Ch) -> R {
    let fl = ch.pick(&[f::PLAIN, f::ALL]);
    let mut t = rich::<u32>(fl);
    rich_xml();
    let wire = Rc::new(RefCell::new(Wire { limit: 1 << 16, ..Default::default() }));
    let how = ch.choose(4);
    let n = 14 + ch.choose(ch.by(300, 6000));
    let mut store = vec![0u8; n + 5];
    let (g, want) = match how {
        0 => (Ok(GdbStub::<Tgt<u32>, Conn>::new(Conn(wire.clone()))), 4096),
        1 => (GdbStub::<Tgt<u32>, Conn>::builder(Conn(wire.clone())).build(), 4096),
        2 => (GdbStub::<Tgt<u32>, Conn>::builder(Conn(wire.clone())).packet_buffer_size(n).build(), n),
        _ => {
            let b = GdbStub::<Tgt<u32>, Conn>::builder(Conn(wire.clone())).with_packet_buffer(&mut store);
            (if n % 2 == 0 { b.packet_buffer_size(n) } else { b }.build(), if n % 2 == 0 { n } else { n + 5 })
        }
    };
    if how < 2 && n > 14 {
        return Ok(());
    }
    let g = match g {
        Ok(g) => g,
        Err(e) => return fail("refused", format!("{}", e)),
    };
    let mut m = match g.run_state_machine(&mut t) {
        Ok(m) => m,
        Err(e) => return fail("start", format!("{}", e)),
    };
    ch.step();
    ch.state(&(how, n));
    for x in frame(b"qSupported") {
        m = match m {
            M::Idle(g) => match g.incoming_data(&mut t, x) {
                Ok(m) => m,
                Err(e) => return fail("overflow", format!("capacity {}: {}", want, e)),
            },
            _ => unreachable!(),
        }
    }
    let out = wire.borrow().out.clone();
    let items = match parse(&out) {
        Ok(i) => i,
        Err(e) => return fail("malformed-output", e),
    };
    let body = match items.last() {
        Some(Item::Pkt(b)) => String::from_utf8_lossy(b).to_string(),
        _ => return fail("reply", show(&out)),
    };
    let got = body.split(';').find_map(|x| x.strip_prefix("PacketSize=")).and_then(|x| usize::from_str_radix(x, 16).ok());
    ch.outcome(&got.map(|g| g == want));
    if got != Some(want) {
        return fail("packet-size", format!("PacketSize {:?} for a capacity of {}", got, want));
    }
    Ok(())
}

/// several packets of different sizes through one buffer
fn c35_seq(ch: &mut Ch) -> R {
    let cap = ch.choose(ch.by(16, 24)) + 6;
    let owned = ch.flag();
    let mut t = rich::<u32>(f::PLAIN);
    let mut buf = vec![GUARD; cap];
    let mut s = if owned { Sess::new(&mut t, cap) } else { Sess::borrowed(&mut t, &mut buf) };
    for _ in 0..ch.by(5, 7) {
        let d = ch.choose(7);
        // 0: ack, 1: interrupt, 2..: around the capacity
        match d {
            0 => {
                let r = s.raw(ch, &mut t, b"+");
                if !r.raw.is_empty() || r.st != St::Idle {
                    return fail("ack", format!("capacity {}: an acknowledgement gave {} {:?}", cap, show(&r.raw), r.st));
                }
            }
            1 => {
                // an interrupt between packets leaves the buffer as it is
                let r = s.raw(ch, &mut t, b"\x03");
                if !r.raw.is_empty() || r.st != St::CtrlC {
                    return fail("interrupt", format!("capacity {}: an interrupt gave {} {:?}", cap, show(&r.raw), r.st));
                }
                s.intr(ch, &mut t, None::<MultiThreadStopReason<u32>>);
            }
            _ => {
                let plen = cap + d - 5;
                let r = s.cmd(ch, &mut t, &b"_".repeat(plen.max(4) - 4));
                if plen > cap && !owned {
                    if !matches!(r.st, St::Err(ErrK::Other(_))) || !r.raw.is_empty() {
                        return fail("overflow", format!("capacity {}: a packet of {} gave {} {:?}", cap, plen, show(&r.raw), r.st));
                    }
                    return Ok(());
                }
                r.expect(&Exp::Empty)?;
            }
        }
    }
    Ok(())
}
