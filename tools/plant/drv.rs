#![allow(dead_code)]
//! Drives a session byte by byte and collects what the stub sends.
use crate::target::*;
use gdbstub::conn::Connection;
use gdbstub::stub::state_machine::GdbStubStateMachine as M;
use gdbstub::stub::*;
use gdbstub::target::Target;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Default)]
pub struct Out(pub Rc<RefCell<Vec<u8>>>);
impl Connection for Out {
    type Error = u32;
    fn write(&mut self, b: u8) -> Result<(), u32> {
        self.0.borrow_mut().push(b);
        Ok(())
    }
    fn flush(&mut self) -> Result<(), u32> {
        Ok(())
    }
}

pub struct S<T: Target<Error = u32>> {
    m: Option<M<'static, T, Out>>,
    out: Out,
    pub err: Option<String>,
}
impl<T: Target<Error = u32>> S<T> {
    pub fn new(t: &mut T) -> Self {
        Self::sized(t, 4096)
    }
    pub fn sized(t: &mut T, n: usize) -> Self {
        let out = Out::default();
        let buf: &'static mut [u8] = vec![0; n].leak();
        let g = GdbStub::<T, Out>::builder(out.clone()).with_packet_buffer(buf).build();
        let m = g.unwrap_or_else(|_| panic!("build")).run_state_machine(t);
        S { m: Some(m.unwrap_or_else(|_| panic!("start"))), out, err: None }
    }
    fn took(&mut self) -> Vec<u8> {
        std::mem::take(&mut *self.out.0.borrow_mut())
    }
    fn set(&mut self, r: Result<M<'static, T, Out>, GdbStubError<u32, u32>>) {
        match r {
            Ok(m) => self.m = Some(m),
            Err(e) => self.err = Some(format!("{}", e)),
        }
    }
    /// raw bytes -> raw answer
    pub fn raw(&mut self, t: &mut T, bytes: &[u8]) -> Vec<u8> {
        for b in bytes {
            let r = match self.m.take() {
                Some(M::Idle(g)) => g.incoming_data(t, *b),
                Some(M::Running(g)) => g.incoming_data(t, *b),
                other => {
                    self.m = other;
                    break;
                }
            };
            self.set(r);
        }
        self.took()
    }
    /// one packet -> raw answer
    pub fn pkt(&mut self, t: &mut T, body: &[u8]) -> Vec<u8> {
        let mut v = vec![b'$'];
        v.extend_from_slice(body);
        let sum = body.iter().fold(0u8, |a, b| a.wrapping_add(*b));
        v.extend_from_slice(format!("#{:02x}", sum).as_bytes());
        self.raw(t, &v)
    }
    /// one packet -> the last reply's (decoded) body
    pub fn ask(&mut self, t: &mut T, body: &[u8]) -> String {
        last(&self.pkt(t, body))
    }
    pub fn stop(&mut self, t: &mut T, r: impl IntoStopReason<T>) -> String {
        match self.m.take() {
            Some(M::Running(g)) => {
                let r = g.report_stop(t, r);
                self.set(r);
            }
            other => {
                self.m = other;
                return "not running".into();
            }
        }
        let v = self.took();
        last(&v)
    }
    pub fn intr(&mut self, t: &mut T, r: Option<impl IntoStopReason<T>>) -> String {
        match self.m.take() {
            Some(M::CtrlCInterrupt(g)) => {
                let r = g.interrupt_handled(t, r);
                self.set(r);
            }
            other => {
                self.m = other;
                return "no interrupt".into();
            }
        }
        let v = self.took();
        last(&v)
    }
    pub fn st(&self) -> &'static str {
        match &self.m {
            None => "error",
            Some(M::Idle(_)) => "idle",
            Some(M::Running(_)) => "running",
            Some(M::CtrlCInterrupt(_)) => "ctrlc",
            Some(M::Disconnected(_)) => "gone",
        }
    }
}
pub fn last(raw: &[u8]) -> String {
    let i = match raw.iter().rposition(|b| *b == b'$') {
        Some(i) => i,
        None => return format!("no packet: {}", String::from_utf8_lossy(raw)),
    };
    let mut out: Vec<u8> = vec![];
    let mut it = raw[i + 1..].iter().copied();
    while let Some(b) = it.next() {
        match b {
            b'#' => break,
            b'*' => {
                let n = it.next().unwrap() - 29;
                let c = *out.last().unwrap();
                for _ in 0..n {
                    out.push(c)
                }
            }
            b => out.push(b),
        }
    }
    out.iter().map(|b| *b as char).collect()
}
pub fn calls<U: HU>(t: &Tgt<U>) -> String {
    t.take_log().iter().map(|c| format!("{} {:x?} {:?}", c.f, c.n, c.b.iter().map(|b| String::from_utf8_lossy(b).to_string()).collect::<Vec<_>>())).collect::<Vec<_>>().join("\n")
}
pub fn check(ok: bool, what: &str, got: &dyn std::fmt::Debug) {
    if !ok {
        println!("FAIL {}: got {:?}", what, got);
        std::process::exit(1);
    }
}
