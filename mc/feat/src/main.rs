//! Runs one fixed list of sessions on the library as built here, for the
//! comparison of build configurations (property C36).
//!
//! feat run <tier> <out>      all sessions; one u64 per session to <out>
//! feat show <tier> <index>   one session in full
#![allow(dead_code)]

#[path = "../../src/client.rs"]
mod client;
#[path = "../../src/props/corpus.rs"]
mod corpus;
#[path = "../../src/target.rs"]
mod target;
mod engine {
    pub struct EnginePanic(pub String);
    thread_local! {
        pub static SEASONING: core::cell::Cell<bool> = const { core::cell::Cell::new(false) };
    }
}

use client::*;
use corpus::*;
use gdbstub::common::*;
use gdbstub::conn::*;
use gdbstub::stub::state_machine::GdbStubStateMachine as M;
use gdbstub::stub::*;
use gdbstub::target::ext::base::reverse_exec::ReplayLogPosition;
use gdbstub::target::ext::breakpoints::WatchKind;
use gdbstub::target::ext::catch_syscalls::CatchSyscallPosition;
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::io::Write as _;
use std::rc::Rc;
use target::*;

struct Sink;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata<'_>) -> bool {
        true
    }
    fn log(&self, r: &log::Record<'_>) {
        let _ = format!("{}", r.args());
    }
    fn flush(&self) {}
}
static SINK: Sink = Sink;

// ------------------------------------------------------------- connection ---

#[derive(Default)]
struct Wire {
    out: Vec<u8>,
    flushed: usize,
    wrote: usize,
    /// after that many written bytes writing and flushing fails
    fail_after: Option<usize>,
    starts: u32,
    input: Vec<u8>, // reversed
    intr_ok: bool,
}
#[derive(Clone)]
struct Conn(Rc<RefCell<Wire>>);
impl Connection for Conn {
    type Error = u32;
    fn write(&mut self, b: u8) -> Result<(), u32> {
        let mut w = self.0.borrow_mut();
        if w.fail_after.is_some_and(|n| w.wrote >= n) {
            return Err(0xbad);
        }
        w.wrote += 1;
        w.out.push(b);
        Ok(())
    }
    fn flush(&mut self) -> Result<(), u32> {
        let mut w = self.0.borrow_mut();
        if w.fail_after.is_some_and(|n| w.wrote >= n) {
            return Err(0xbad2);
        }
        w.flushed = w.out.len();
        Ok(())
    }
    fn on_session_start(&mut self) -> Result<(), u32> {
        let mut w = self.0.borrow_mut();
        w.starts += 1;
        if w.fail_after == Some(0) {
            return Err(0xbad3);
        }
        Ok(())
    }
}
impl ConnectionExt for Conn {
    fn read(&mut self) -> Result<u8, u32> {
        self.0.borrow_mut().input.pop().ok_or(0xe0f)
    }
    fn peek(&mut self) -> Result<Option<u8>, u32> {
        Ok(self.0.borrow().input.last().copied())
    }
}

// ------------------------------------------------------------- sessions ------

type Msr<U> = MultiThreadStopReason<U>;

#[derive(Clone, Debug)]
enum Step {
    /// a framed packet
    Pkt(Vec<u8>),
    /// bytes as they are
    Raw(Vec<u8>),
    /// report / answer with the n-th reason, if the state allows it
    Stop(usize),
    Intr(Option<usize>),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Buf {
    Borrowed(usize),
    /// a heap buffer where there is a heap, else a borrowed one
    Any(usize),
}
#[derive(Clone, Debug)]
struct Session {
    bits: u32,
    fl: u64,
    buf: Buf,
    inj: Vec<(&'static str, usize, Inj)>,
    fail_after: Option<usize>,
    read_caps: Vec<usize>,
    blocking: bool,
    steps: Vec<Step>,
}

fn reason<U: HU>(n: usize) -> Msr<U> {
    use BaseStopReason::*;
    let tid = Tid::new(2).unwrap();
    match n {
        0 => DoneStep,
        1 => Signal(gdbstub::common::Signal::SIGSEGV),
        2 => Exited(3),
        3 => Terminated(gdbstub::common::Signal::SIGKILL),
        4 => SignalWithThread { tid, signal: gdbstub::common::Signal::SIGUSR1 },
        5 => SwBreak(tid),
        6 => HwBreak(tid),
        7 => Watch { tid, kind: WatchKind::ReadWrite, addr: U::from_big(0x7a) },
        8 => ReplayLog { tid: Some(tid), pos: ReplayLogPosition::Begin },
        _ => CatchSyscall { tid: None, number: U::from_big(0x29), position: CatchSyscallPosition::Entry },
    }
}
const REASONS: usize = 10;

/// Output as the client understands it: acks, packets, console text joined up
/// to the next reply (how often the console is flushed depends on `alloc`).
fn norm(out: &[u8], is_rcmd: bool) -> String {
    let items = match parse(out) {
        Ok(i) => i,
        Err(e) => return format!("{:?} ({})", show(out), e),
    };
    let mut s = String::new();
    let mut console: Vec<u8> = vec![];
    for i in items {
        match i {
            Item::Pkt(b) if is_rcmd && b.first() == Some(&b'O') && b != b"OK" => console.extend(&b[1..]),
            Item::Pkt(b) => {
                if !console.is_empty() {
                    let _ = write!(s, "console {} ", show(&console));
                    console.clear();
                }
                let _ = write!(s, "<{}> ", show(&b));
            }
            i => {
                let _ = write!(s, "{:?} ", i);
            }
        }
    }
    if !console.is_empty() {
        let _ = write!(s, "console {} ", show(&console));
    }
    s
}

fn err<U: HU>(e: GdbStubError<u32, u32>) -> String {
    let t = format!("{}", e);
    let k = (e.is_target_error(), e.is_connection_error());
    let v = if k.0 {
        format!("{:?}", e.into_target_error())
    } else if k.1 {
        format!("{:?}", e.into_connection_error())
    } else {
        String::new()
    };
    format!("error {:?} {:?} {}", t, k, v)
}

struct Blk<U>(std::marker::PhantomData<U>);
impl<U: HU> run_blocking::BlockingEventLoop for Blk<U> {
    type Target = Tgt<U>;
    type Connection = Conn;
    type StopReason = Msr<U>;
    fn wait_for_stop_reason(
        t: &mut Tgt<U>,
        c: &mut Conn,
    ) -> Result<run_blocking::Event<Msr<U>>, run_blocking::WaitForStopReasonError<u32, u32>> {
        use run_blocking::*;
        t.log.borrow_mut().push(call("wait", &[], &[]));
        match c.peek().map_err(WaitForStopReasonError::Connection)? {
            Some(3) | Some(b'$') => Ok(Event::IncomingData(c.read().map_err(WaitForStopReasonError::Connection)?)),
            Some(_) => Ok(Event::TargetStopped(reason(4))),
            None => Ok(Event::TargetStopped(reason(3))),
        }
    }
    fn on_interrupt(t: &mut Tgt<U>) -> Result<Option<Msr<U>>, u32> {
        t.log.borrow_mut().push(call("on_interrupt", &[], &[]));
        Ok(Some(reason(1)))
    }
}

fn go<U: HU>(s: &Session) -> String {
    let wire = Rc::new(RefCell::new(Wire { fail_after: s.fail_after, ..Default::default() }));
    let conn = Conn(wire.clone());
    let mut t = rich::<U>(s.fl);
    rich_xml();
    if s.bits == 8 {
        t.mem_lo = 0;
        t.mem_hi = 0xff;
    }
    t.inj = s.inj.clone();
    t.read_caps = s.read_caps.clone();
    let mut o = String::new();
    let size = match s.buf {
        Buf::Borrowed(n) | Buf::Any(n) => n,
    };
    let mut store = vec![0u8; size];
    let b = GdbStub::<Tgt<U>, Conn>::builder(conn);
    let g = match s.buf {
        #[cfg(feature = "alloc")]
        Buf::Any(n) => b.packet_buffer_size(n).build(),
        _ => b.with_packet_buffer(&mut store).build(),
    };
    let g = match g {
        Ok(g) => g,
        Err(e) => return format!("build: {} {:?}", e, e),
    };
    let rcmd = s.steps.iter().any(|x| matches!(x, Step::Pkt(p) if p.starts_with(b"qRcmd")));
    // where a write fails inside of console output depends on the buffering
    let tear = |out: &[u8]| if s.fail_after.is_some() { show(out) } else { norm(out, rcmd) };
    if s.blocking {
        let mut input = vec![];
        for x in &s.steps {
            match x {
                Step::Pkt(p) => input.extend(frame(p)),
                Step::Raw(p) => input.extend(p),
                _ => {}
            }
        }
        input.reverse();
        wire.borrow_mut().input = input;
        let r = match g.run_blocking::<Blk<U>>(&mut t) {
            Ok(r) => format!("{:?}", r),
            Err(e) => err::<U>(e),
        };
        let w = wire.borrow();
        let _ = writeln!(o, "{} {} starts {} flushed {}", r, tear(&w.out), w.starts, w.flushed == w.out.len());
        let _ = writeln!(o, "{:?}", t.take_log());
        return o;
    }
    let mut m = match g.run_state_machine(&mut t) {
        Ok(m) => m,
        Err(e) => return err::<U>(e),
    };
    let _ = writeln!(o, "start {:?} {}", t.take_log(), wire.borrow().starts);
    for x in &s.steps {
        let bytes = match x {
            Step::Pkt(p) => frame(p),
            Step::Raw(p) => p.clone(),
            _ => vec![],
        };
        let mut r = Ok(m);
        for b in bytes {
            r = match r {
                Ok(M::Idle(g)) => g.incoming_data(&mut t, b),
                Ok(M::Running(g)) => g.incoming_data(&mut t, b),
                o => o,
            };
        }
        let r = match (x, r) {
            (Step::Stop(n), Ok(M::Running(g))) => g.report_stop(&mut t, reason::<U>(*n)),
            (Step::Intr(n), Ok(M::CtrlCInterrupt(g))) => g.interrupt_handled(&mut t, n.map(reason::<U>)),
            (_, r) => r,
        };
        let (out, fl) = {
            let mut w = wire.borrow_mut();
            let out = std::mem::take(&mut w.out);
            let fl = w.flushed == out.len();
            w.flushed = 0;
            (out, fl)
        };
        let st = match &r {
            Err(_) => "",
            Ok(M::Idle(_)) => "idle",
            Ok(M::Running(_)) => "running",
            Ok(M::CtrlCInterrupt(_)) => "interrupt",
            Ok(M::Disconnected(d)) => match d.get_reason() {
                DisconnectReason::Disconnect => "disconnect",
                DisconnectReason::Kill => "kill",
                DisconnectReason::TargetExited(_) => "exited",
                DisconnectReason::TargetTerminated(_) => "terminated",
            },
        };
        let _ = writeln!(o, "{:?}: {} flushed {} {} {:?}", x, tear(&out), fl, st, t.take_log());
        match r {
            Ok(n) => m = n,
            Err(e) => {
                let _ = writeln!(o, "{}", err::<U>(e));
                return o;
            }
        }
    }
    o
}

fn run(s: &Session) -> String {
    let r = std::panic::catch_unwind(|| match s.bits {
        8 => go::<u8>(s),
        16 => go::<u16>(s),
        32 => go::<u32>(s),
        _ => go::<u64>(s),
    });
    match r {
        Ok(o) => o,
        Err(e) => match (e.downcast_ref::<String>(), e.downcast_ref::<&str>()) {
            (Some(s), _) => format!("panic: {}", s),
            (_, Some(s)) => format!("panic: {}", s),
            _ => "panic".into(),
        },
    }
}

// ------------------------------------------------------------- the list ------

const EDIT: &[u8] = b"\x00\x030fgxX:;,-+p}*#\xff";

/// Calls `each` for every session, in an order that depends on `quick` only.
fn sessions(quick: bool, each: &mut dyn FnMut(Session)) {
    let base = Session {
        bits: 32,
        fl: f::ALL,
        buf: Buf::Borrowed(300),
        inj: vec![],
        fail_after: None,
        read_caps: vec![],
        blocking: false,
        steps: vec![],
    };
    let pk = |p: &[u8]| Step::Pkt(p.to_vec());
    let caps: Vec<u64> = vec![f::ALL, f::ALL | f::MULTI, f::PLAIN, f::PLAIN | f::RESUME | f::MULTI, f::ALL & !f::USEXML & !f::RLE];
    // ---- every command, whole, truncated and with every byte edited
    for (i, fl) in caps.iter().enumerate() {
        for p in PACKETS {
            for bits in [8, 16, 32, 64] {
                for buf in [Buf::Borrowed(300), Buf::Any(64)] {
                    each(Session { fl: *fl, bits, buf, steps: vec![pk(p), Step::Stop(4)], ..base.clone() });
                    each(Session { fl: *fl, bits, buf, blocking: true, steps: vec![pk(p), pk(b"?"), pk(b"k")], ..base.clone() });
                }
            }
            if quick && i > 1 {
                continue;
            }
            for n in 0..p.len() {
                each(Session { fl: *fl, steps: vec![pk(&p[..n])], ..base.clone() });
                for e in EDIT {
                    let mut q = p.to_vec();
                    q[n] = *e;
                    each(Session { fl: *fl, steps: vec![pk(&q)], ..base.clone() });
                    let mut q = p.to_vec();
                    q.insert(n, *e);
                    each(Session { fl: *fl, bits: 64, steps: vec![pk(&q)], ..base.clone() });
                }
                let mut q = p.to_vec();
                q.remove(n);
                each(Session { fl: *fl, steps: vec![pk(&q)], ..base.clone() });
            }
        }
    }
    // ---- every pair of commands with a stop and an interrupt between them
    for fl in &caps[..if quick { 2 } else { 5 }] {
        for p in PACKETS {
            for q in PACKETS {
                each(Session {
                    fl: *fl,
                    steps: vec![pk(p), Step::Stop(4), Step::Raw(vec![3]), Step::Intr(None), pk(q), Step::Stop(0)],
                    ..base.clone()
                });
            }
        }
    }
    // ---- hexadecimal and binary payloads
    for a in 0..=255u8 {
        for b in 0..=255u8 {
            each(Session { fl: f::PLAIN, steps: vec![pk(&[b"M10,1:", &[a, b][..]].concat())], ..base.clone() });
            each(Session { fl: f::PLAIN, steps: vec![pk(&[b"X10,1:", &[a, b][..]].concat())], ..base.clone() });
        }
        for p in ["G", "M10,2:", "vRun;", "qRcmd,", "vFile:open:", "P2=", "Z0,", "m", "Hg", "T", "vFile:pread:"] {
            for tail in ["", "1", "12", "123", ",1", ",1,2"] {
                each(Session { steps: vec![pk(&[p.as_bytes(), &[a], tail.as_bytes()].concat())], ..base.clone() });
            }
        }
    }
    for n in 0..=if quick { 5 } else { 6 } {
        for k in 0..4usize.pow(n) {
            let d: Vec<u8> = (0..n).map(|i| b"1bx}"[(k >> (2 * i)) & 3]).collect();
            for p in [&b"M10,2:"[..], b"G", b"QEnvironmentHexEncoded:", b"vRun;", b"m", b"X10,2:", b"$#"] {
                each(Session { steps: vec![pk(&[p, &d].concat())], ..base.clone() });
            }
        }
    }
    // ---- memory at all addresses through buffers of many sizes
    for a in (0..=0xffu32).step_by(if quick { 3 } else { 1 }) {
        for len in [0u32, 1, 2, 7, 16, 0x40, 0x80, 0xff, 0x100] {
            for size in [20, 31, 64, 300] {
                for bits in [8, 16] {
                    let p = format!("m{:x},{:x}", a, len).into_bytes();
                    each(Session { fl: f::PLAIN, bits, buf: Buf::Borrowed(size), steps: vec![Step::Pkt(p)], ..base.clone() });
                }
            }
        }
    }
    // ---- buffers of all sizes against packets of all lengths
    for size in 0..40usize {
        for n in 0..40usize {
            let p = [&b"X10,"[..], format!("{:x}:", n).as_bytes(), &vec![b'a'; n]].concat();
            each(Session { fl: f::PLAIN, buf: Buf::Borrowed(size), steps: vec![pk(&p), pk(b"m10,8")], ..base.clone() });
        }
    }
    // ---- raw bytes
    let alpha = b"$#g670+-\x03q";
    let depth = if quick { 4 } else { 5 };
    for k in 0..10usize.pow(depth) {
        let mut k = k;
        let mut v = vec![];
        for _ in 0..depth {
            v.push(alpha[k % 10]);
            k /= 10;
        }
        each(Session { fl: f::PLAIN, buf: Buf::Borrowed(6), steps: vec![Step::Raw(v)], ..base.clone() });
    }
    // ---- stops and interrupts
    for fl in [f::ALL, f::ALL | f::MULTI, f::PLAIN | f::RESUME] {
        for bits in [16, 64] {
            for a in 0..REASONS {
                each(Session { fl, bits, steps: vec![pk(b"vCont;c"), Step::Stop(a), pk(b"?")], ..base.clone() });
                for b in 0..REASONS {
                    each(Session {
                        fl,
                        bits,
                        steps: vec![Step::Raw(vec![3]), Step::Intr(Some(a)), pk(b"vCont;c"), Step::Raw(vec![3]), Step::Intr(Some(b)), pk(b"g")],
                        ..base.clone()
                    });
                }
            }
        }
    }
    // ---- failing targets and connections
    let funs = [
        "read_addrs", "write_addrs", "read_registers", "write_registers", "read_register", "write_register",
        "tp_init", "tp_begin", "tp_action", "tp_complete", "tp_status", "tp_enum", "tp_enum_action", "tb_configure", "tb_request",
        "trace_status", "trace_info", "trace_start", "trace_stop", "select_frame", "tp_source", "tp_enum_source",
        "run", "attach", "query_if_attached", "kill", "cfg_aslr", "set_env", "remove_env", "reset_env", "cfg_shell", "cfg_wdir",
    ];
    for fl in [f::ALL, f::ALL | f::MULTI] {
        for p in PACKETS {
            for x in funs {
                for nth in [0, 1] {
                    for e in [Inj::NonFatal, Inj::Errno(0x2a), Inj::Fatal(7)] {
                        each(Session { fl, inj: vec![(x, nth, e)], steps: vec![pk(p), pk(b"m10,1")], ..base.clone() });
                    }
                }
            }
            if !p.starts_with(b"qRcmd") {
                for k in 0..if quick { 24 } else { 80 } {
                    each(Session { fl, fail_after: Some(k), steps: vec![pk(p), Step::Stop(5)], ..base.clone() });
                }
            }
        }
    }
    for caps in [vec![1, 2, 3], vec![0], vec![3, 0], vec![1, 1, 1, 1, 1, 1]] {
        for len in 0..20 {
            let p = format!("m10,{:x}", len).into_bytes();
            each(Session { fl: f::PLAIN, read_caps: caps.clone(), buf: Buf::Borrowed(24), steps: vec![Step::Pkt(p)], ..base.clone() });
        }
    }
}

fn hash(s: &str) -> u64 {
    let mut h = DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

#[cfg(any(feature = "std", feature = "core_error"))]
fn is_error() {
    // documented: the error types implement `Error` under these features
    fn needs<E: std::error::Error>() {}
    needs::<GdbStubError<std::fmt::Error, std::fmt::Error>>();
}
#[cfg(not(any(feature = "std", feature = "core_error")))]
fn is_error() {}

fn main() {
    is_error();
    std::panic::set_hook(Box::new(|_| {}));
    let _ = log::set_logger(&SINK);
    log::set_max_level(if std::env::var_os("FEAT_LOG").is_some() { log::LevelFilter::Trace } else { log::LevelFilter::Off });
    let a: Vec<String> = std::env::args().collect();
    let quick = a[2] == "quick";
    match a[1].as_str() {
        "run" => {
            let mut o = std::io::BufWriter::new(std::fs::File::create(&a[3]).unwrap());
            sessions(quick, &mut |s| o.write_all(&hash(&run(&s)).to_le_bytes()).unwrap());
            o.flush().unwrap();
        }
        "show" => {
            let n: usize = a[3].parse().unwrap();
            let mut i = 0;
            sessions(quick, &mut |s| {
                if i == n {
                    println!("{:x?}", s);
                    print!("{}", run(&s));
                }
                i += 1;
            });
        }
        _ => std::process::exit(2),
    }
}
