//! Targets that implement only what each trait requires: the defaults of the library are what they document.

use crate::note;
use super::deleg::{steps, Seen, Step};
use super::*;
use super::corpus::{rich, rich_xml, PACKETS};
use crate::sess::{Conn, Wire};
use gdbstub::common::{Pid, Signal, Tid};
use gdbstub::stub::MultiThreadStopReason;
use gdbstub::target::ext::base::multithread::*;
use gdbstub::target::ext::base::singlethread::*;
use gdbstub::target::ext::base::BaseOps;
use gdbstub::target::ext::breakpoints::*;
use gdbstub::target::ext::extended_mode::*;
use gdbstub::target::ext::host_io::*;
use gdbstub::target::{Target, TargetResult};
use std::cell::RefCell;
use std::rc::Rc;

type A = HA<u32>;

macro_rules! lean {
    ($name:ident { $($knobs:tt)* }) => {
        pub struct $name(pub Tgt<u32>);
        impl Target for $name {
            type Arch = A;
            type Error = u32;
            fn base_ops(&mut self) -> BaseOps<'_, A, u32> {
                if self.0.has(f::MULTI) { BaseOps::MultiThread(self) } else { BaseOps::SingleThread(self) }
            }
            fn support_breakpoints(&mut self) -> Option<BreakpointsOps<'_, Self>> {
                if self.0.has(f::BPS) { Some(self) } else { None }
            }
            fn support_extended_mode(&mut self) -> Option<ExtendedModeOps<'_, Self>> {
                if self.0.has(f::EXT) { Some(self) } else { None }
            }
            fn support_host_io(&mut self) -> Option<HostIoOps<'_, Self>> {
                if self.0.has(f::HOST) { Some(self) } else { None }
            }
            $($knobs)*
        }
        impl Breakpoints for $name {}
        impl HostIo for $name {}
        impl SingleThreadBase for $name {
            fn read_registers(&mut self, r: &mut HRegs<u32>) -> TargetResult<(), Self> {
                self.0.do_rregs(0, r)
            }
            fn write_registers(&mut self, r: &HRegs<u32>) -> TargetResult<(), Self> {
                self.0.do_wregs(0, r)
            }
            fn read_addrs(&mut self, a: u32, d: &mut [u8]) -> TargetResult<usize, Self> {
                self.0.do_read(0, a, d)
            }
            fn write_addrs(&mut self, a: u32, d: &[u8]) -> TargetResult<(), Self> {
                self.0.do_write(0, a, d)
            }
            fn support_resume(&mut self) -> Option<SingleThreadResumeOps<'_, Self>> {
                if self.0.has(f::RESUME) { Some(self) } else { None }
            }
        }
        impl SingleThreadResume for $name {
            fn resume(&mut self, s: Option<Signal>) -> Result<(), u32> {
                SingleThreadResume::resume(&mut self.0, s)
            }
        }
        impl MultiThreadBase for $name {
            fn read_registers(&mut self, r: &mut HRegs<u32>, t: Tid) -> TargetResult<(), Self> {
                self.0.do_rregs(t.get() as u128, r)
            }
            fn write_registers(&mut self, r: &HRegs<u32>, t: Tid) -> TargetResult<(), Self> {
                self.0.do_wregs(t.get() as u128, r)
            }
            fn read_addrs(&mut self, a: u32, d: &mut [u8], t: Tid) -> TargetResult<usize, Self> {
                self.0.do_read(t.get() as u128, a, d)
            }
            fn write_addrs(&mut self, a: u32, d: &[u8], t: Tid) -> TargetResult<(), Self> {
                self.0.do_write(t.get() as u128, a, d)
            }
            fn list_active_threads(&mut self, cb: &mut dyn FnMut(Tid)) -> Result<(), u32> {
                self.0.list_active_threads(cb)
            }
            fn support_resume(&mut self) -> Option<MultiThreadResumeOps<'_, Self>> {
                if self.0.has(f::RESUME) { Some(self) } else { None }
            }
        }
        impl MultiThreadResume for $name {
            fn resume(&mut self) -> Result<(), u32> {
                MultiThreadResume::resume(&mut self.0)
            }
            fn clear_resume_actions(&mut self) -> Result<(), u32> {
                self.0.clear_resume_actions()
            }
            fn set_resume_action_continue(&mut self, t: Tid, s: Option<Signal>) -> Result<(), u32> {
                self.0.set_resume_action_continue(t, s)
            }
        }
        impl ExtendedMode for $name {
            fn run(&mut self, n: Option<&[u8]>, a: Args<'_, '_>) -> TargetResult<Pid, Self> {
                self.0.run(n, a)
            }
            fn attach(&mut self, p: Pid) -> TargetResult<(), Self> {
                self.0.attach(p)
            }
            fn query_if_attached(&mut self, p: Pid) -> TargetResult<AttachKind, Self> {
                self.0.query_if_attached(p)
            }
            fn kill(&mut self, p: Option<Pid>) -> TargetResult<ShouldTerminate, Self> {
                self.0.kill(p)
            }
            fn restart(&mut self) -> Result<(), u32> {
                self.0.restart()
            }
        }
    };
}
lean!(Lean {});
lean!(Waived {
    fn guard_rail_implicit_sw_breakpoints(&self) -> bool { true }
});

fn conn() -> (Rc<RefCell<Wire>>, Conn) {
    let wire = Rc::new(RefCell::new(Wire { limit: 1 << 20, ..Default::default() }));
    let c = Conn(wire.clone());
    (wire, c)
}

fn noise(l: Vec<Call>) -> Vec<Call> {
    // the default of on_start does nothing
    l.into_iter().filter(|c| c.f != "on_start").collect()
}

/// the defaults of a lean target are those of a full one with everything optional off
pub fn c20_defaults(ch: &mut Ch) -> R {
    let fl = [f::MULTI, f::RESUME, f::BPS, f::EXT, f::HOST].iter().fold(f::KNOBS, |a, x| a | if ch.flag() { *x } else { 0 });
    let first = ch.pick(&[&b"qSupported:multiprocess+"[..], b"QStartNoAckMode", b"Hg1", b"!", b"?", b"vCont;c"]);
    let p = ch.pick(PACKETS);
    let stop = Step::Stop(MultiThreadStopReason::DoneStep);
    let script = [Step::Pkt(first.to_vec()), stop.clone(), Step::Pkt(p.to_vec()), stop];
    note!(ch, "flags {:x} {:?}", fl, script);
    let guard = ch.flag();
    let fl = fl | if guard { f::GUARD } else { 0 };
    {
        // the documented defaults themselves
        let t = Lean(Tgt::<u32>::new(fl));
        let d = [
            t.use_no_ack_mode(), t.use_x_upcase_packet(), t.use_resume_stub(), t.use_rle(),
            t.use_target_description_xml(), t.use_lldb_register_info(), !t.guard_rail_implicit_sw_breakpoints(),
        ];
        if d != [true; 7] {
            return fail("defaults", format!("the documented defaults of the settings are not in force: {:?}", d));
        }
    }
    let mut full = rich::<u32>(fl);
    rich_xml();
    let (w, c) = conn();
    let want: Seen = steps(&mut full, c, &w, 300, &script);
    let (w, c) = conn();
    let mut base = rich::<u32>(fl);
    rich_xml();
    ch.step();
    let (got, log) = if guard {
        let mut t = Waived(base);
        let s = steps(&mut t, c, &w, 300, &script);
        base = t.0;
        (s, base.take_log())
    } else {
        let mut t = Lean(base);
        let s = steps(&mut t, c, &w, 300, &script);
        base = t.0;
        (s, base.take_log())
    };
    ch.outcome(&hash_of(&format!("{:?}", got)));
    if got != want {
        let i = got.steps.iter().zip(&want.steps).position(|(a, b)| a != b);
        return fail("defaults", format!("step {:?} of {:?}: {:?} instead of {:?}", i, script, got, want));
    }
    if noise(log) != noise(full.take_log()) {
        return fail("defaults", format!("{:?}: the target was called differently", script));
    }
    if guard != got.steps.iter().all(|s| !matches!(s.3, crate::sess::St::Err(_))) && got.steps.len() == 1 && guard {
        return fail("defaults", format!("a session that waives the guard rail did not start: {:?}", got));
    }
    if !guard && got.steps.len() != 1 {
        return fail("defaults", "a session without software breakpoints must be refused unless this is waived");
    }
    Ok(())
}
