//! Drives the real state machine, records everything it puts on the wire.

use crate::client;
use crate::engine::*;
use crate::note;
use gdbstub::conn::Connection;
use gdbstub::stub::state_machine::GdbStubStateMachine;
use gdbstub::stub::*;
use gdbstub::target::Target;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Write,
    Flush,
    Start,
}

#[derive(Default)]
pub struct Wire {
    pub out: Vec<u8>,
    /// everything below was flushed
    pub flushed: usize,
    pub ops: Vec<(u8, usize)>,
    pub count: u64,
    /// fail the k-th connection operation (and every later one)
    pub fail_at: Option<u64>,
    pub failed: u64,
    pub starts: u32,
    /// more output than this is runaway
    pub limit: usize,
    /// use one `write_all` buffer (informational)
    pub batches: u32,
}

pub const CONN_ERR: u32 = 0xC0FFEE;

#[derive(Clone)]
pub struct Conn(pub Rc<RefCell<Wire>>);

impl Conn {
    fn op(&self) -> Result<(), u32> {
        let mut w = self.0.borrow_mut();
        let k = w.count;
        w.count += 1;
        if w.fail_at.is_some_and(|f| k >= f) {
            w.failed += 1;
            return Err(CONN_ERR + (k - w.fail_at.unwrap()) as u32);
        }
        Ok(())
    }
}

impl Connection for Conn {
    type Error = u32;
    fn write(&mut self, byte: u8) -> Result<(), u32> {
        self.op()?;
        let mut w = self.0.borrow_mut();
        w.out.push(byte);
        if w.limit != 0 && w.out.len() > w.limit {
            let n = w.out.len();
            drop(w);
            std::panic::panic_any(ViolationPanic(
                "runaway-output".into(),
                format!("one request produced more than {} bytes of output", n - 1),
            ));
        }
        Ok(())
    }
    fn flush(&mut self) -> Result<(), u32> {
        self.op()?;
        let mut w = self.0.borrow_mut();
        w.flushed = w.out.len();
        Ok(())
    }
    fn on_session_start(&mut self) -> Result<(), u32> {
        self.op()?;
        self.0.borrow_mut().starts += 1;
        Ok(())
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum ErrK {
    Target(u32),
    /// 0 init 1 read 2 write
    Conn(u32, u8),
    Other(String),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum St {
    Idle,
    Running,
    CtrlC,
    Disc(String),
    Err(ErrK),
}

pub fn disc(r: DisconnectReason) -> St {
    St::Disc(format!("{:?}", r))
}

pub fn errk(e: GdbStubError<u32, u32>) -> ErrK {
    let text = format!("{}", e);
    let (t, c) = (e.is_target_error(), e.is_connection_error());
    if t && c {
        return ErrK::Other("both target and connection error".into());
    }
    if t {
        match e.into_target_error() {
            Some(e) => ErrK::Target(e),
            None => ErrK::Other("into_target_error disagrees with is_target_error".into()),
        }
    } else if c {
        match e.into_connection_error() {
            Some((e, k)) => {
                // the kind type is not exported by name: use its Debug name
                let k = match format!("{:?}", k).as_str() {
                    "Init" => 0,
                    "Read" => 1,
                    "Write" => 2,
                    _ => 9,
                };
                ErrK::Conn(e, k)
            }
            None => ErrK::Other("into_connection_error disagrees".into()),
        }
    } else {
        ErrK::Other(text)
    }
}

pub struct Sess<'a, T: Target<Error = u32>> {
    pub gdb: Option<GdbStubStateMachine<'a, T, Conn>>,
    pub wire: Rc<RefCell<Wire>>,
    pub err: Option<ErrK>,
    mark: usize,
    hist: u64,
    /// the session negotiated no-ack mode (client's view)
    pub noack: bool,
    /// the session's past negotiated multiprocess extensions
    pub mp: bool,
}

/// Everything observed in answer to one stimulus.
#[derive(Clone, Debug)]
pub struct Rep {
    pub raw: Vec<u8>,
    pub items: Result<Vec<client::Item>, String>,
    pub st: St,
    pub flushed: bool,
    pub noack: bool,
    pub what: String,
}

#[derive(Clone, Debug)]
pub enum Exp {
    /// exactly one reply with this payload, session idle
    Reply(Vec<u8>),
    /// exactly these packets
    Pkts(Vec<Vec<u8>>),
    /// an error reply `Exx` (any code)
    AnyErr,
    /// the empty reply (= not supported)
    Empty,
    /// acknowledged but no reply yet; session running
    Runs,
    /// reply and end of session
    Disc(Option<Vec<u8>>, St),
    /// session ends with an error of the target
    FatalTarget(u32),
    /// session ends with a protocol error
    FatalProto,
}

impl Exp {
    pub fn ok() -> Exp {
        Exp::Reply(b"OK".to_vec())
    }
    pub fn s(s: impl Into<String>) -> Exp {
        Exp::Reply(s.into().into_bytes())
    }
    pub fn e(code: u8) -> Exp {
        Exp::Reply(format!("E{:02x}", code).into_bytes())
    }
}

impl Rep {
    fn bad<T>(&self, sig: &str, m: impl Into<String>) -> Result<T, Fail> {
        fail(
            sig,
            format!(
                "{}: after {} (wrote {:?}, state {:?})",
                m.into(),
                self.what,
                client::show(&self.raw),
                self.st
            ),
        )
    }
    /// (acks, packets); well-formedness is checked
    pub fn split(&self) -> Result<(usize, Vec<Vec<u8>>), Fail> {
        let items = match &self.items {
            Ok(i) => i,
            Err(e) => return self.bad("malformed-output", e.clone()),
        };
        let mut acks = 0;
        let mut p = vec![];
        for i in items {
            match i {
                client::Item::Ack => {
                    if !p.is_empty() {
                        return self.bad("ack-order", "acknowledgement after a reply");
                    }
                    acks += 1
                }
                client::Item::Nack => return self.bad("nack", "stub sent a nack"),
                client::Item::Pkt(b) => p.push(b.clone()),
            }
        }
        Ok((acks, p))
    }
    /// packets answering one command, acknowledgement and flushing checked
    pub fn pkts(&self) -> Result<Vec<Vec<u8>>, Fail> {
        let (a, p) = self.split()?;
        let want = !self.noack as usize;
        if a != want && !matches!(self.st, St::Err(_)) {
            return self.bad("ack", format!("{} acknowledgements, expected {}", a, want));
        }
        // (what an ended session leaves unflushed matters only if it is a reply)
        if !self.flushed && !self.raw.is_empty() && !(p.is_empty() && matches!(self.st, St::Disc(_))) {
            return self.bad("not-flushed", "reply was not flushed");
        }
        Ok(p)
    }
    pub fn reply(&self) -> Result<Vec<u8>, Fail> {
        let mut p = self.pkts()?;
        if self.st != St::Idle {
            return self.bad("state", "session should be idle");
        }
        if p.len() != 1 {
            return self.bad("reply-count", format!("{} replies, expected 1", p.len()));
        }
        Ok(p.pop().unwrap())
    }
    pub fn expect(&self, e: &Exp) -> R {
        let sig = "reply";
        match e {
            Exp::Reply(w) => {
                let r = self.reply()?;
                if r != *w {
                    return self.bad(sig, format!("replied {:?}, expected {:?}", client::show(&r), client::show(w)));
                }
            }
            Exp::Empty => {
                let r = self.reply()?;
                if !r.is_empty() {
                    return self.bad(sig, format!("replied {:?}, expected the empty reply", client::show(&r)));
                }
            }
            Exp::AnyErr => {
                let r = self.reply()?;
                if !is_err(&r) {
                    return self.bad(sig, format!("replied {:?}, expected an error", client::show(&r)));
                }
            }
            Exp::Pkts(w) => {
                let p = self.pkts()?;
                if self.st != St::Idle {
                    return self.bad("state", "session should be idle");
                }
                if p != *w {
                    return self.bad(sig, format!("packets {:?}", p.iter().map(|x| client::show(x)).collect::<Vec<_>>()));
                }
            }
            Exp::Runs => {
                let p = self.pkts()?;
                if self.st != St::Running {
                    return self.bad("state", "session should be running");
                }
                if !p.is_empty() {
                    return self.bad(sig, "a packet was sent before the target stopped");
                }
            }
            Exp::Disc(w, st) => {
                let p = self.pkts()?;
                if self.st != *st {
                    return self.bad("state", format!("expected {:?}", st));
                }
                let want: Vec<Vec<u8>> = w.iter().cloned().collect();
                if p != want {
                    return self.bad(sig, "wrong reply before the session ended");
                }
            }
            Exp::FatalTarget(c) => {
                if self.st != St::Err(ErrK::Target(*c)) {
                    return self.bad("fatal", format!("expected target error {}", c));
                }
            }
            Exp::FatalProto => {
                if !matches!(self.st, St::Err(ErrK::Other(_))) {
                    return self.bad("fatal", "expected the session to end with a protocol error");
                }
            }
        }
        Ok(())
    }
}

pub fn is_err(r: &[u8]) -> bool {
    r.len() == 3 && r[0] == b'E' && client::unhex(&r[1..]).is_some()
}

impl<'a, T: Target<Error = u32>> Sess<'a, T> {
    pub fn open(
        t: &mut T,
        build: impl FnOnce(GdbStubBuilder<'static, T, Conn>) -> Result<GdbStub<'a, T, Conn>, GdbStubBuilderError>,
        wire: Rc<RefCell<Wire>>,
    ) -> Result<Sess<'a, T>, ErrK> {
        let stub = match build(GdbStub::<T, Conn>::builder(Conn(wire.clone()))) {
            Ok(s) => s,
            Err(e) => return Err(ErrK::Other(format!("{}", e))),
        };
        let gdb = stub.run_state_machine(t).map_err(errk)?;
        let mark = wire.borrow().out.len();
        Ok(Sess { gdb: Some(gdb), wire, err: None, mark, hist: 0, noack: false, mp: false })
    }

    /// owned packet buffer of the given size
    pub fn new(t: &mut T, size: usize) -> Sess<'a, T> {
        let wire = Rc::new(RefCell::new(Wire { limit: 1 << 20, ..Default::default() }));
        match Sess::open(t, |b| b.packet_buffer_size(size).build(), wire) {
            Ok(s) => s.season(t, size),
            Err(e) => std::panic::panic_any(ViolationPanic(
                "session-start".into(),
                format!("the session did not start: {:?}", e),
            )),
        }
    }
    pub fn borrowed(t: &mut T, buf: &'a mut [u8]) -> Sess<'a, T> {
        let wire = Rc::new(RefCell::new(Wire { limit: 1 << 20, ..Default::default() }));
        let size = buf.len();
        let open = GdbStub::<T, Conn>::builder(Conn(wire.clone()))
            .with_packet_buffer(buf)
            .build()
            .map_err(|e| ErrK::Other(format!("{}", e)))
            .and_then(|stub| stub.run_state_machine(t).map_err(errk))
            .map(|gdb| Sess { gdb: Some(gdb), wire: wire.clone(), err: None, mark: 0, hist: 0, noack: false, mp: false });
        match open {
            Ok(s) => s.season(t, size),
            Err(e) => std::panic::panic_any(ViolationPanic(
                "session-start".into(),
                format!("the session did not start: {:?}", e),
            )),
        }
    }

    /// give the session a past that must not matter to what follows
    fn season(mut self, t: &mut T, size: usize) -> Self {
        if !SEASONED.get() {
            return self;
        }
        use gdbstub::target::ext::base::BaseOps;
        SEASONING.set(true);
        let say = |s: &mut Self, t: &mut T, p: &[u8]| {
            let p = client::frame(p);
            if p.len() <= size {
                s.feed(t, &p);
            }
        };
        self.mp = size >= 28;
        say(&mut self, t, b"qSupported:multiprocess+");
        say(&mut self, t, b"qSupported:multiprocess+;swbreak+;hwbreak+;vContSupported+;QThreadEvents+;no-resumed+");
        say(&mut self, t, &vec![b'~'; (size - 4).min(90)]);
        self.feed(t, b"++");
        let runs = match t.base_ops() {
            BaseOps::SingleThread(o) => o.support_resume().is_some(),
            BaseOps::MultiThread(o) => o.support_resume().is_some(),
        };
        if runs && size > 16 {
            say(&mut self, t, b"vCont;c");
            self.byte(t, 3);
            if let Some(GdbStubStateMachine::CtrlCInterrupt(g)) = self.gdb.take() {
                let r = g.interrupt_handled(t, None::<MultiThreadStopReason<<T::Arch as gdbstub::arch::Arch>::Usize>>);
                self.set(r);
            }
            if let Some(GdbStubStateMachine::Running(g)) = self.gdb.take() {
                let r = g.report_stop(t, MultiThreadStopReason::DoneStep);
                self.set(r);
            }
        }
        if t.use_no_ack_mode() && size > 20 {
            say(&mut self, t, b"QStartNoAckMode");
            self.noack = true;
        }
        if self.st() != St::Idle {
            std::panic::panic_any(ViolationPanic("past".into(), format!("an ordinary session start ended in {:?}", self.st())));
        }
        self.mark = self.wire.borrow().out.len();
        SEASONING.set(false);
        self
    }

    /// take back the multiprocess extensions of the past
    pub fn plain(mut self, t: &mut T) -> Self {
        if self.mp {
            SEASONING.set(true);
            self.feed(t, &client::frame(b"qSupported:multiprocess-"));
            SEASONING.set(false);
            self.mark = self.wire.borrow().out.len();
            self.mp = false;
        }
        self
    }

    /// output since the last reply was looked at
    pub fn fresh(&self) -> usize {
        self.wire.borrow().out.len() - self.mark
    }

    pub fn st(&self) -> St {
        use GdbStubStateMachine::*;
        match &self.gdb {
            None => St::Err(self.err.clone().unwrap()),
            Some(Idle(_)) => St::Idle,
            Some(Running(_)) => St::Running,
            Some(CtrlCInterrupt(_)) => St::CtrlC,
            Some(Disconnected(d)) => disc(d.get_reason()),
        }
    }

    /// does the session accept bytes?
    pub fn live(&self) -> bool {
        matches!(self.st(), St::Idle | St::Running)
    }

    fn set(&mut self, r: Result<GdbStubStateMachine<'a, T, Conn>, GdbStubError<u32, u32>>) -> St {
        match r {
            Ok(g) => self.gdb = Some(g),
            Err(e) => self.err = Some(errk(e)),
        }
        self.st()
    }

    pub fn byte(&mut self, t: &mut T, b: u8) -> St {
        use GdbStubStateMachine::*;
        match self.gdb.take() {
            Some(Idle(g)) => {
                let r = g.incoming_data(t, b);
                self.set(r)
            }
            Some(Running(g)) => {
                let r = g.incoming_data(t, b);
                self.set(r)
            }
            other => {
                self.gdb = other;
                std::panic::panic_any(EnginePanic(format!("byte fed in state {:?}", self.st())))
            }
        }
    }

    /// feed bytes while the session accepts them; returns how many were taken
    pub fn feed(&mut self, t: &mut T, b: &[u8]) -> usize {
        for (i, x) in b.iter().enumerate() {
            if !self.live() {
                return i;
            }
            self.byte(t, *x);
        }
        b.len()
    }

    fn rep(&mut self, ch: &mut Ch, what: String) -> Rep {
        let (raw, flushed) = {
            let mut w = self.wire.borrow_mut();
            if w.limit != 0 {
                w.limit = w.out.len() + (1 << 20);
            }
            (w.out[self.mark..].to_vec(), w.flushed == w.out.len())
        };
        self.mark += raw.len();
        let st = self.st();
        self.hist = hash_of(&(self.hist, &raw, &st));
        ch.state(&self.hist);
        ch.outcome(&(&raw, &st));
        ch.step();
        note!(ch, "{} => {:?} {:?}", what, client::show(&raw), st);
        Rep { items: client::parse(&raw), raw, st, flushed, noack: self.noack, what }
    }

    /// send one packet
    pub fn cmd(&mut self, ch: &mut Ch, t: &mut T, payload: &[u8]) -> Rep {
        self.feed(t, &client::frame(payload));
        let r = self.rep(ch, if ch.recording { client::show(payload) } else { String::new() });
        Rep { what: client::show(payload), ..r }
    }
    pub fn s(&mut self, ch: &mut Ch, t: &mut T, payload: &str) -> Rep {
        self.cmd(ch, t, payload.as_bytes())
    }
    /// send raw bytes
    pub fn raw(&mut self, ch: &mut Ch, t: &mut T, bytes: &[u8]) -> Rep {
        self.feed(t, bytes);
        let w = format!("raw {}", client::show(bytes));
        self.rep(ch, w)
    }
    pub fn stop(
        &mut self,
        ch: &mut Ch,
        t: &mut T,
        reason: impl IntoStopReason<T> + core::fmt::Debug,
    ) -> Rep {
        let what = format!("stop {:?}", reason);
        match self.gdb.take() {
            Some(GdbStubStateMachine::Running(g)) => {
                let r = g.report_stop(t, reason);
                self.set(r);
            }
            other => {
                self.gdb = other;
                std::panic::panic_any(EnginePanic(format!("stop in state {:?}", self.st())))
            }
        }
        let mut r = self.rep(ch, what);
        // a stop report answers an earlier command: no acknowledgement here
        r.noack = true;
        r
    }
    pub fn intr(
        &mut self,
        ch: &mut Ch,
        t: &mut T,
        reason: Option<impl IntoStopReason<T> + core::fmt::Debug>,
    ) -> Rep {
        let what = format!("interrupt_handled {:?}", reason);
        match self.gdb.take() {
            Some(GdbStubStateMachine::CtrlCInterrupt(g)) => {
                let r = g.interrupt_handled(t, reason);
                self.set(r);
            }
            other => {
                self.gdb = other;
                std::panic::panic_any(EnginePanic(format!("intr in state {:?}", self.st())))
            }
        }
        let mut r = self.rep(ch, what);
        r.noack = true;
        r
    }
    pub fn reidle(&mut self) {
        match self.gdb.take() {
            Some(GdbStubStateMachine::Disconnected(g)) => self.gdb = Some(g.return_to_idle()),
            other => {
                self.gdb = other;
                std::panic::panic_any(EnginePanic(format!("reidle in state {:?}", self.st())))
            }
        }
    }
}
