//! C33: the built-in connections (TCP and Unix streams, and the borrowed and
//! boxed forms of any connection) on real loopback sockets.

use crate::note;
use crate::props::*;
use gdbstub::conn::*;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io::{self, Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::os::unix::net::UnixStream;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

pub const PROPS: &[&Prop] = &[&C33];

static C33: Prop = Prop {
    id: "C33",
    scenes: &[
        Scene { name: "every-operation-sequence", body: c33_ops },
        Scene { name: "every-byte-value", body: c33_bytes },
        Scene { name: "read-waits", body: c33_waits },
        Scene { name: "write-waits", body: c33_big },
        Scene { name: "write-to-a-full-socket", body: c33_full },
        Scene { name: "connection-only-wrappers", body: c33_plain },
    ],
    assumptions: &[
        "the sockets are those of this machine's kernel (loopback TCP and Unix stream pairs)",
        "how long the kernel takes to pass a byte on is not part of the property: a byte that is on its way may be seen late, by up to 5 s",
    ],
};

fn sys<T>(r: io::Result<T>) -> T {
    r.unwrap_or_else(|e| std::panic::panic_any(EnginePanic(format!("socket set-up: {}", e))))
}

// -------------------------------------------------------------- both kinds ---

trait Sock: ConnectionExt<Error = io::Error> + Read + Write + Send + Sized + 'static {
    const TCP: bool;
    fn pair() -> (Self, Self);
    fn dup(&self) -> Self;
    fn shut(&self, how: Shutdown) -> io::Result<()>;
    fn nonblock(&self, v: bool);
    fn delay(&self, v: bool);
    fn is_nodelay(&self) -> bool;
    fn wait_at_most(&self, d: Option<Duration>);
    fn write_at_most(&self, d: Duration);
    /// the pair kept between executions of this worker
    fn keep(p: Option<(Self, Self)>) -> Option<(Self, Self)>;
}

thread_local! {
    static LISTEN: RefCell<Option<(TcpListener, usize)>> = const { RefCell::new(None) };
    static TCP_PAIR: RefCell<Option<(TcpStream, TcpStream)>> = const { RefCell::new(None) };
    static UNIX_PAIR: RefCell<Option<(UnixStream, UnixStream)>> = const { RefCell::new(None) };
}

impl Sock for TcpStream {
    const TCP: bool = true;
    fn pair() -> (Self, Self) {
        LISTEN.with(|l| {
            let mut l = l.borrow_mut();
            // a listener of its own for every few thousand connections, so that
            // closed ones (TIME_WAIT) never use up the ports
            if l.as_ref().map_or(true, |l| l.1 >= 4000) {
                *l = Some((sys(TcpListener::bind("127.0.0.1:0")), 0));
            }
            let (ls, n) = l.as_mut().unwrap();
            *n += 1;
            let a = sys(TcpStream::connect(sys(ls.local_addr())));
            let (b, from) = sys(ls.accept());
            if from != sys(a.local_addr()) {
                std::panic::panic_any(EnginePanic("a stranger connected".into()));
            }
            sys(a.set_nodelay(true));
            (b, a)
        })
    }
    fn dup(&self) -> Self {
        sys(self.try_clone())
    }
    fn shut(&self, how: Shutdown) -> io::Result<()> {
        self.shutdown(how)
    }
    fn nonblock(&self, v: bool) {
        sys(self.set_nonblocking(v))
    }
    fn delay(&self, v: bool) {
        sys(self.set_nodelay(!v))
    }
    fn is_nodelay(&self) -> bool {
        sys(self.nodelay())
    }
    fn wait_at_most(&self, d: Option<Duration>) {
        sys(self.set_read_timeout(d))
    }
    fn write_at_most(&self, d: Duration) {
        sys(self.set_write_timeout(Some(d)))
    }
    fn keep(p: Option<(Self, Self)>) -> Option<(Self, Self)> {
        TCP_PAIR.with(|c| match p {
            Some(p) => c.replace(Some(p)),
            None => c.take(),
        })
    }
}
impl Sock for UnixStream {
    const TCP: bool = false;
    fn pair() -> (Self, Self) {
        sys(UnixStream::pair())
    }
    fn dup(&self) -> Self {
        sys(self.try_clone())
    }
    fn shut(&self, how: Shutdown) -> io::Result<()> {
        self.shutdown(how)
    }
    fn nonblock(&self, v: bool) {
        sys(self.set_nonblocking(v))
    }
    fn delay(&self, _: bool) {}
    fn is_nodelay(&self) -> bool {
        true
    }
    fn wait_at_most(&self, d: Option<Duration>) {
        sys(self.set_read_timeout(d))
    }
    fn write_at_most(&self, d: Duration) {
        sys(self.set_write_timeout(Some(d)))
    }
    fn keep(p: Option<(Self, Self)>) -> Option<(Self, Self)> {
        UNIX_PAIR.with(|c| match p {
            Some(p) => c.replace(Some(p)),
            None => c.take(),
        })
    }
}

/// a connected pair in its initial state (own side, client side)
fn fresh<S: Sock>() -> (S, S) {
    let (a, b) = S::keep(None).unwrap_or_else(S::pair);
    for s in [&a, &b] {
        s.nonblock(false);
    }
    // (with Nagle's algorithm every test of two small writes takes 40 ms)
    a.delay(false);
    b.wait_at_most(Some(Duration::from_secs(5)));
    (a, b)
}

// ------------------------------------------------------ operation sequences ---

struct Model {
    /// sent by the client, not yet read
    rx: VecDeque<u8>,
    /// the client has closed its sending side
    eof: bool,
    /// the client is gone altogether
    gone: bool,
    /// written to the client, not yet seen by it
    tx: Vec<u8>,
    next: u8,
}
impl Model {
    fn byte(&mut self) -> u8 {
        self.next = self.next.wrapping_mul(5).wrapping_add(3);
        self.next
    }
}

fn peek_settled<C: ConnectionExt<Error = io::Error>>(c: &mut C, want_something: bool) -> io::Result<Option<u8>> {
    let t0 = Instant::now();
    loop {
        match c.peek() {
            Ok(None) if want_something && t0.elapsed() < Duration::from_secs(5) => {
                std::thread::sleep(Duration::from_micros(200))
            }
            r => return r,
        }
    }
}

fn ops_on<S: Sock, C: ConnectionExt<Error = io::Error>>(
    ch: &mut Ch,
    c: &mut C,
    own: &S,
    client: &mut Option<S>,
    depth: usize,
) -> R {
    let mut m = Model { rx: VecDeque::new(), eof: false, gone: false, tx: vec![], next: ch.pick(&[0u8, 0xa7]) };
    for _ in 0..depth {
        let op = ch.choose(9);
        if m.gone && matches!(op, 0 | 1 | 2 | 7) || m.eof && op <= 2 {
            continue; // nothing the client could still do
        }
        if op == 4 && m.rx.is_empty() && !m.eof && !m.gone {
            continue; // would wait for ever
        }
        ch.step();
        match op {
            0 | 1 => {
                let n = if op == 0 { 1 } else { 3 };
                let v: Vec<u8> = (0..n).map(|_| m.byte()).collect();
                note!(ch, "client sends {:x?}", v);
                sys(Write::write_all(client.as_mut().unwrap(), &v));
                m.rx.extend(v);
            }
            2 => {
                // half the time only the sending side
                if ch.flag() {
                    note!(ch, "client closes its sending side");
                    sys(client.as_ref().unwrap().shut(Shutdown::Write));
                    m.eof = true;
                } else {
                    note!(ch, "client disappears");
                    *client = None;
                    m.gone = true;
                    m.tx.clear();
                }
            }
            3 => {
                let r = peek_settled(c, !m.rx.is_empty() || m.eof || m.gone);
                note!(ch, "peek -> {:?}", r);
                match (r, m.rx.front()) {
                    (Ok(Some(b)), Some(w)) if b == *w => {}
                    (Ok(None), None) if !m.eof && !m.gone => {}
                    (Err(e), None) if m.eof || m.gone => {
                        if e.kind() == io::ErrorKind::WouldBlock {
                            return fail("eof", "peek: the end of the stream reported as WouldBlock".to_string());
                        }
                    }
                    // a reset may overtake what the client sent last
                    (Err(_), Some(_)) if m.gone => m.rx.clear(),
                    (r, w) => return fail("peek", format!("peek gave {:?} instead of {:x?} (closed: {})", r, w, m.eof || m.gone)),
                }
            }
            4 => {
                let r = ConnectionExt::read(c);
                note!(ch, "read -> {:?}", r);
                match (r, m.rx.pop_front()) {
                    (Ok(b), Some(w)) if b == w => {}
                    (Err(_), None) => {}
                    (Err(_), Some(_)) if m.gone => m.rx.clear(),
                    (r, w) => return fail("read", format!("read gave {:?} instead of {:x?}", r, w)),
                }
            }
            5 | 6 => {
                let v: Vec<u8> = (0..if op == 5 { 1 } else { 3 }).map(|_| m.byte()).collect();
                let r = if op == 5 { Connection::write(c, v[0]) } else { Connection::write_all(c, &v) };
                note!(ch, "write {:x?} -> {:?}", v, r);
                match r {
                    Ok(()) => m.tx.extend(v),
                    Err(_) if m.gone => {}
                    Err(e) => return fail("write", format!("writing failed: {:?}", e)),
                }
            }
            7 => {
                let r = Connection::flush(c);
                note!(ch, "flush -> {:?}", r);
                if let Err(e) = r {
                    return fail("flush", format!("flush failed: {:?}", e));
                }
                seen_by_client(client, &mut m.tx)?;
            }
            _ => {
                own.delay(true);
                let r = Connection::on_session_start(c);
                let nodelay = own.is_nodelay();
                own.delay(false);
                note!(ch, "on_session_start -> {:?}", r);
                match r {
                    Ok(()) => {
                        if !nodelay {
                            return fail("nodelay", "TCP_NODELAY is not set after on_session_start".to_string());
                        }
                    }
                    Err(_) if m.gone => {}
                    Err(e) => return fail("start", format!("on_session_start failed: {:?}", e)),
                }
            }
        }
        ch.state(&(S::TCP, m.rx.len(), m.eof, m.gone, m.tx.len()));
    }
    // whatever was written arrives, and whatever was sent is there to be read
    if client.is_some() {
        seen_by_client(client, &mut m.tx)?;
        while let Some(w) = m.rx.pop_front() {
            match ConnectionExt::read(c) {
                Ok(b) if b == w => {}
                r => return fail("read", format!("finally, read gave {:?} instead of {:x}", r, w)),
            }
        }
        if m.eof {
            if let Ok(b) = ConnectionExt::read(c) {
                return fail("eof", format!("read made up {:x} past the end of the stream", b));
            }
            match c.peek() {
                Err(_) => {}
                r => return fail("eof", format!("peek gave {:?} past the end of the stream", r)),
            }
        } else {
            match c.peek() {
                Ok(None) => {}
                r => return fail("peek", format!("finally, peek gave {:?} with nothing sent", r)),
            }
        }
    }
    ch.outcome(&(S::TCP, m.eof, m.gone));
    Ok(())
}

fn seen_by_client<S: Sock>(client: &mut Option<S>, tx: &mut Vec<u8>) -> R {
    let cl = match client {
        Some(c) => c,
        None => return Ok(()),
    };
    let mut got = vec![0; tx.len()];
    if let Err(e) = cl.read_exact(&mut got) {
        return fail("write", format!("the client did not get all of {:x?}: {:?}", tx, e));
    }
    if got != *tx {
        return fail("write", format!("the client got {:x?} instead of {:x?}", got, tx));
    }
    tx.clear();
    cl.nonblock(true);
    let mut more = [0; 16];
    let r = Read::read(cl, &mut more);
    cl.nonblock(false);
    match r {
        Err(e) if e.kind() == io::ErrorKind::WouldBlock => Ok(()),
        r => fail("write", format!("the client got more than was written: {:?} {:x?}", r, more)),
    }
}

fn ops_kind<S: Sock>(ch: &mut Ch, wrap: usize, depth: usize) -> R {
    let (mut own, client) = fresh::<S>();
    let mut client = Some(client);
    let dup = own.dup();
    let r = match wrap {
        0 => ops_on(ch, &mut own, &dup, &mut client, depth),
        1 => {
            let mut d: &mut dyn ConnectionExt<Error = io::Error> = &mut own;
            ops_on(ch, &mut d, &dup, &mut client, depth)
        }
        _ => {
            let mut b: Box<dyn ConnectionExt<Error = io::Error>> = Box::new(own.dup());
            ops_on(ch, &mut b, &dup, &mut client, depth)
        }
    };
    match client {
        // reusable unless one side was closed
        Some(c) if r.is_ok() && matches!(own.peek(), Ok(None)) => {
            S::keep(Some((own, c)));
        }
        // leave no closed connection waiting in the kernel: unread data resets it
        _ => {
            let _ = Write::write(&mut own, &[0]);
        }
    }
    r
}

fn c33_ops(ch: &mut Ch) -> R {
    let tcp = ch.flag();
    let wrap = ch.choose(3);
    let depth = if wrap == 0 { ch.by(6, 7) } else { ch.by(5, 6) };
    if tcp {
        ops_kind::<TcpStream>(ch, wrap, depth)
    } else {
        ops_kind::<UnixStream>(ch, wrap, depth)
    }
}

// ---------------------------------------------------------------- contents ---

fn bytes_kind<S: Sock>(ch: &mut Ch, b: u8) -> R {
    let (mut own, mut cl) = fresh::<S>();
    sys(Write::write_all(&mut cl, &[b, !b]));
    ch.step();
    let p = peek_settled(&mut own, true);
    if !matches!(p, Ok(Some(x)) if x == b) {
        return fail("peek", format!("peek gave {:?} instead of {:x}", p, b));
    }
    for w in [b, !b] {
        match ConnectionExt::read(&mut own) {
            Ok(x) if x == w => {}
            r => return fail("read", format!("read gave {:?} instead of {:x}", r, w)),
        }
    }
    let mut tx = vec![b, !b, b];
    let all = ch.flag();
    let r = if all {
        Connection::write_all(&mut own, &tx)
    } else {
        tx.iter().try_for_each(|b| Connection::write(&mut own, *b))
    };
    if let Err(e) = r {
        return fail("write", format!("writing failed: {:?}", e));
    }
    let mut cl = Some(cl);
    seen_by_client(&mut cl, &mut tx)?;
    S::keep(Some((own, cl.unwrap())));
    ch.outcome(&b);
    Ok(())
}
fn c33_bytes(ch: &mut Ch) -> R {
    let tcp = ch.flag();
    let b = ch.choose(256) as u8;
    note!(ch, "tcp {} byte {:x}", tcp, b);
    if tcp {
        bytes_kind::<TcpStream>(ch, b)
    } else {
        bytes_kind::<UnixStream>(ch, b)
    }
}

// ----------------------------------------------------------------- waiting ---

/// What may have happened to the connection right before.
const BEFORE: usize = 5;
fn before<S: Sock, C: ConnectionExt<Error = io::Error>>(ch: &mut Ch, c: &mut C, cl: &mut S, what: usize) -> R {
    let bad = |what: &str, r: &dyn core::fmt::Debug| fail("before", format!("{} gave {:?}", what, r));
    note!(ch, "before: {}", ["nothing", "peek, nothing there", "peek a byte, read it", "read a byte, peek", "peek twice"][what]);
    match what {
        0 => {}
        1 | 4 => {
            for _ in 0..if what == 1 { 1 } else { 2 } {
                match c.peek() {
                    Ok(None) => {}
                    r => return bad("peek", &r),
                }
            }
        }
        _ => {
            sys(Write::write_all(cl, &[0x51]));
            if what == 2 {
                match peek_settled(c, true) {
                    Ok(Some(0x51)) => {}
                    r => return bad("peek", &r),
                }
            }
            match ConnectionExt::read(c) {
                Ok(0x51) => {}
                r => return bad("read", &r),
            }
            if what == 3 {
                match c.peek() {
                    Ok(None) => {}
                    r => return bad("peek", &r),
                }
            }
        }
    }
    Ok(())
}

fn with_wrap<S: Sock>(ch: &mut Ch, own: &mut S, wrap: usize, f: impl FnOnce(&mut Ch, &mut dyn ConnectionExt<Error = io::Error>) -> R) -> R {
    match wrap {
        0 => f(ch, own),
        1 => {
            let mut d: &mut dyn ConnectionExt<Error = io::Error> = own;
            f(ch, &mut d)
        }
        _ => {
            let mut b: Box<dyn ConnectionExt<Error = io::Error>> = Box::new(own.dup());
            f(ch, &mut b)
        }
    }
}

fn waits_kind<S: Sock>(ch: &mut Ch, wrap: usize, what: usize, close: bool) -> R {
    let (mut own, mut cl) = fresh::<S>();
    with_wrap(ch, &mut own, wrap, |ch, mut c| {
        before(ch, &mut c, &mut cl, what)?;
        let h = std::thread::spawn(move || {
            std::thread::sleep(Duration::from_millis(30));
            if !close {
                let _ = Write::write_all(&mut cl, &[0x99]);
                // stays open until the byte was certainly read
                let _ = Read::read(&mut cl, &mut [0]);
            }
        });
        ch.step();
        let r = ConnectionExt::read(&mut c);
        note!(ch, "read while the client is late -> {:?}", r);
        let _ = Connection::write(&mut c, 1);
        let ok = match &r {
            Ok(0x99) => !close,
            Err(e) => close && e.kind() != io::ErrorKind::WouldBlock,
            _ => false,
        };
        let _ = h.join();
        if !ok {
            return fail("wait", format!("a read that had to wait gave {:?} (the client then {})", r, if close { "closed" } else { "sent 99" }));
        }
        ch.outcome(&(S::TCP, close));
        Ok(())
    })
}
fn c33_waits(ch: &mut Ch) -> R {
    let tcp = ch.flag();
    let wrap = ch.choose(3);
    let what = ch.choose(BEFORE);
    let close = ch.flag();
    if tcp {
        waits_kind::<TcpStream>(ch, wrap, what, close)
    } else {
        waits_kind::<UnixStream>(ch, wrap, what, close)
    }
}

/// Writing more than the kernel buffers waits for the client, whatever was
/// done before, and loses nothing.
fn big_kind<S: Sock>(ch: &mut Ch, wrap: usize, what: usize, single: bool) -> R {
    let (mut own, mut cl) = S::pair();
    let n: usize = if single { 20_000 } else { 16 << 20 };
    let done = Arc::new(AtomicBool::new(false));
    with_wrap(ch, &mut own, wrap, |ch, mut c| {
        before(ch, &mut c, &mut cl, what)?;
        let done2 = done.clone();
        // the client reads nothing for a while: until the write has failed, or
        // has had ample time to run into the full buffer
        let h = std::thread::spawn(move || -> Result<usize, String> {
            let t0 = Instant::now();
            while !done2.load(Ordering::SeqCst) && t0.elapsed() < Duration::from_millis(300) {
                std::thread::sleep(Duration::from_millis(5));
            }
            cl.wait_at_most(Some(Duration::from_secs(10)));
            let mut got = 0;
            let mut buf = vec![0u8; 1 << 16];
            loop {
                match Read::read(&mut cl, &mut buf) {
                    Ok(0) => return Ok(got),
                    Ok(k) => {
                        for b in &buf[..k] {
                            if *b != (got % 251) as u8 {
                                return Err(format!("byte {} arrived as {:x}", got, b));
                            }
                            got += 1;
                        }
                    }
                    Err(e) => return Err(format!("{:?} after {} bytes", e, got)),
                }
            }
        });
        ch.step();
        let data: Vec<u8> = (0..n).map(|i| (i % 251) as u8).collect();
        let r = if single {
            data.iter().try_for_each(|b| Connection::write(&mut c, *b))
        } else {
            Connection::write_all(&mut c, &data)
        };
        done.store(true, Ordering::SeqCst);
        let fl = Connection::flush(&mut c);
        Ok((r, fl, h))
            .map(|(r, fl, h)| {
                note!(ch, "write {} bytes -> {:?}, flush -> {:?}", n, r, fl);
                PENDING.with(|p| *p.borrow_mut() = Some((format!("{:?}", r), r.is_ok() && fl.is_ok(), h)));
            })
    })?;
    let _ = own.shut(Shutdown::Both);
    drop(own);
    let (what, ok, h) = PENDING.with(|p| p.borrow_mut().take()).unwrap();
    let got = h.join().unwrap_or(Err("client thread".into()));
    if !ok {
        return fail("slow-client", format!("writing {} bytes to a slow client: {}, it got {:?}", n, what, got));
    }
    if got != Ok(n) {
        return fail("slow-client", format!("{} bytes were written, the client got {:?}", n, got));
    }
    ch.outcome(&(S::TCP, single));
    Ok(())
}
type Waiting = (String, bool, std::thread::JoinHandle<Result<usize, String>>);
thread_local! {
    static PENDING: RefCell<Option<Waiting>> = const { RefCell::new(None) };
}
fn c33_big(ch: &mut Ch) -> R {
    let tcp = ch.flag();
    let wrap = ch.choose(3);
    let what = ch.choose(BEFORE);
    let single = !tcp && ch.flag();
    if tcp {
        big_kind::<TcpStream>(ch, wrap, what, single)
    } else {
        big_kind::<UnixStream>(ch, wrap, what, single)
    }
}

/// A program whose socket does not block (or gives up after a while): a write that says it succeeded has
/// passed everything on, one that fails has passed on the beginning.
fn full_kind<S: Sock>(ch: &mut Ch, n: usize, timeout: bool, single: bool) -> R {
    let (a, mut b) = S::pair();
    let mut a = a;
    if timeout {
        a.write_at_most(Duration::from_millis(30));
    } else {
        a.nonblock(true);
    }
    let data: Vec<u8> = (0..n).map(|i| (i * 31 + i / 251) as u8).collect();
    let mut ok = 0;
    let r = if single {
        data.iter().try_for_each(|x| Connection::write(&mut a, *x).map(|_| ok += 1))
    } else {
        Connection::write_all(&mut a, &data).map(|_| ok = n)
    };
    sys(a.shut(Shutdown::Write));
    let mut got = vec![];
    sys(b.read_to_end(&mut got));
    note!(ch, "{} bytes: {:?}, {} said to be written, {} arrived", n, r.as_ref().err().map(|e| e.kind()), ok, got.len());
    ch.step();
    ch.outcome(&(S::TCP, single, r.is_ok()));
    if got != data[..got.len().min(n)] {
        return fail("full-socket", format!("writing {} bytes to a socket that fills up: other bytes arrived", n));
    }
    if got.len() < ok || (single && got.len() != ok) || (r.is_ok() && got.len() != n) {
        return fail(
            "full-socket",
            format!("writing {} bytes to a socket that fills up ({:?}): {} bytes were said to be written, {} arrived", n, r, ok, got.len()),
        );
    }
    if n <= 1024 && !single && r.is_err() {
        return fail("full-socket", format!("{} bytes to an empty socket: {:?}", n, r));
    }
    Ok(())
}
fn c33_full(ch: &mut Ch) -> R {
    let tcp = ch.flag();
    let timeout = ch.flag();
    let single = ch.flag();
    let n = if single {
        ch.pick(&[1usize, 3000])
    } else {
        ch.pick(&[0usize, 1, 1000, 30_000, 70_000, 300_000, 1_000_000, 5_000_000, 16_000_000])
    };
    if tcp {
        full_kind::<TcpStream>(ch, n, timeout, single)
    } else {
        full_kind::<UnixStream>(ch, n, timeout, single)
    }
}

// ----------------------------------------------- wrappers without `read` ------

/// A connection that records its calls and fails on demand.
struct Rec {
    log: Vec<String>,
    fail: Option<usize>,
}
impl Rec {
    fn op(&mut self, s: String) -> Result<(), u32> {
        self.log.push(s);
        if self.fail == Some(self.log.len() - 1) {
            return Err(0xbad);
        }
        Ok(())
    }
}
/// with every default method overridden
struct Full(Rec);
impl Connection for Full {
    type Error = u32;
    fn write(&mut self, b: u8) -> Result<(), u32> {
        self.0.op(format!("write {:x}", b))
    }
    fn write_all(&mut self, v: &[u8]) -> Result<(), u32> {
        self.0.op(format!("write_all {:x?}", v))
    }
    fn flush(&mut self) -> Result<(), u32> {
        self.0.op("flush".into())
    }
    fn on_session_start(&mut self) -> Result<(), u32> {
        self.0.op("start".into())
    }
}
impl ConnectionExt for Full {
    fn read(&mut self) -> Result<u8, u32> {
        self.0.op("read".into()).map(|_| 0x77)
    }
    fn peek(&mut self) -> Result<Option<u8>, u32> {
        self.0.op("peek".into()).map(|_| if self.0.log.len() % 2 == 0 { None } else { Some(0x78) })
    }
}
/// with the defaults
struct Bare(Rec);
impl Connection for Bare {
    type Error = u32;
    fn write(&mut self, b: u8) -> Result<(), u32> {
        self.0.op(format!("write {:x}", b))
    }
    fn flush(&mut self) -> Result<(), u32> {
        self.0.op("flush".into())
    }
}
impl ConnectionExt for Bare {
    fn read(&mut self) -> Result<u8, u32> {
        self.0.op("read".into()).map(|_| 0x77)
    }
    fn peek(&mut self) -> Result<Option<u8>, u32> {
        self.0.op("peek".into()).map(|_| Some(0x78))
    }
}

fn conn_op<C: Connection<Error = u32>>(c: &mut C, op: usize) -> Result<u32, u32> {
    match op {
        0 => c.write(0x41).map(|_| 0),
        1 => c.write_all(&[0x42, 0x43, 0x44]).map(|_| 0),
        2 => c.write_all(&[]).map(|_| 0),
        3 => c.flush().map(|_| 0),
        _ => c.on_session_start().map(|_| 0),
    }
}
fn ext_op<C: ConnectionExt<Error = u32>>(c: &mut C, op: usize) -> Result<u32, u32> {
    match op {
        5 => c.read().map(|b| b as u32),
        6 => c.peek().map(|b| b.map_or(0x100, |b| b as u32)),
        op => conn_op(c, op),
    }
}

fn c33_plain(ch: &mut Ch) -> R {
    let bare = ch.flag();
    let wrap = ch.choose(4);
    let ext = wrap >= 2;
    let n = ch.by(4, 6);
    let k = ch.choose(n + 4);
    let fail_at = (k < n + 3).then_some(k);
    let ops: Vec<usize> = (0..n).map(|_| ch.choose(if ext { 7 } else { 5 })).collect();
    note!(ch, "bare {} wrapper {} operations {:?} failing {:?}", bare, wrap, ops, fail_at);
    macro_rules! go {
        ($T:ident) => {{
            let mut c = $T(Rec { log: vec![], fail: fail_at });
            let plain: Vec<_> = ops.iter().map(|o| if ext { ext_op(&mut c, *o) } else { conn_op(&mut c, *o) }).collect();
            let mut d = $T(Rec { log: vec![], fail: fail_at });
            let wrapped: Vec<_> = {
                match wrap {
                    0 => {
                        let mut w: &mut dyn Connection<Error = u32> = &mut d;
                        ops.iter().map(|o| conn_op(&mut w, *o)).collect()
                    }
                    2 => {
                        let mut w: &mut dyn ConnectionExt<Error = u32> = &mut d;
                        ops.iter().map(|o| ext_op(&mut w, *o)).collect()
                    }
                    w => {
                        // the box owns its connection: the log is taken out through a leak
                        let p: *mut $T = Box::into_raw(Box::new(d));
                        let r = if w == 1 {
                            let mut w: Box<dyn Connection<Error = u32>> = unsafe { Box::from_raw(p) };
                            let r = ops.iter().map(|o| conn_op(&mut w, *o)).collect();
                            core::mem::forget(w);
                            r
                        } else {
                            let mut w: Box<dyn ConnectionExt<Error = u32>> = unsafe { Box::from_raw(p) };
                            let r = ops.iter().map(|o| ext_op(&mut w, *o)).collect();
                            core::mem::forget(w);
                            r
                        };
                        d = *unsafe { Box::from_raw(p) };
                        r
                    }
                }
            };
            ch.step();
            if plain != wrapped {
                return fail("wrapper", format!("results {:?} instead of {:?}", wrapped, plain));
            }
            if c.0.log != d.0.log {
                return fail("wrapper", format!("calls {:?} instead of {:?}", d.0.log, c.0.log));
            }
            // the plain connection itself: one call each, in order; the default
            // `write_all` writes byte by byte and stops at the first error
            let mut want: Vec<String> = vec![];
            for o in &ops {
                let mut calls: Vec<String> = match o {
                    0 => vec!["write 41".into()],
                    1 if bare => ["write 42", "write 43", "write 44"].map(String::from).to_vec(),
                    1 => vec!["write_all [42, 43, 44]".into()],
                    2 if bare => vec![],
                    2 => vec!["write_all []".into()],
                    3 => vec!["flush".into()],
                    4 if bare => vec![],
                    4 => vec!["start".into()],
                    5 => vec!["read".into()],
                    _ => vec!["peek".into()],
                };
                if let Some(k) = fail_at {
                    if k >= want.len() && k < want.len() + calls.len() {
                        calls.truncate(k + 1 - want.len());
                    }
                }
                want.extend(calls);
            }
            if want != c.0.log {
                return fail("defaults", format!("calls {:?} instead of {:?}", c.0.log, want));
            }
            ch.outcome(&(plain.iter().filter(|r| r.is_err()).count(), c.0.log.len()));
        }};
    }
    if bare {
        go!(Bare)
    } else {
        go!(Full)
    }
    Ok(())
}
