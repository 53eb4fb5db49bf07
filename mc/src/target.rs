//! A fully configurable target implementing every extension of the library.
//!
//! Which extensions it *advertises* is a run-time bit set, every call it
//! receives is logged, and every call can be made to fail.

use core::fmt::Debug;
use core::marker::PhantomData;
use core::num::NonZeroUsize;
use gdbstub::arch;
use gdbstub::arch::lldb;
use gdbstub::common::*;
use gdbstub::internal::{BeBytes, LeBytes};
use gdbstub::target::ext::auxv::*;
use gdbstub::target::ext::base::multithread::*;
use gdbstub::target::ext::base::reverse_exec::*;
use gdbstub::target::ext::base::single_register_access::*;
use gdbstub::target::ext::base::singlethread::*;
use gdbstub::target::ext::base::BaseOps;
use gdbstub::target::ext::breakpoints::*;
use gdbstub::target::ext::catch_syscalls::*;
use gdbstub::target::ext::exec_file::*;
use gdbstub::target::ext::extended_mode::*;
use gdbstub::target::ext::host_io::*;
use gdbstub::target::ext::libraries::*;
use gdbstub::target::ext::lldb_register_info_override as lo;
use gdbstub::target::ext::lldb_register_info_override::*;
use gdbstub::target::ext::memory_map::*;
use gdbstub::target::ext::monitor_cmd::*;
use gdbstub::target::ext::section_offsets::*;
use gdbstub::target::ext::target_description_xml_override::*;
use gdbstub::target::ext::thread_extra_info::*;
use gdbstub::target::ext::tracepoints::*;
use gdbstub::target::{Target, TargetError, TargetResult};
use num_traits::{FromPrimitive, PrimInt, Unsigned};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;

// ------------------------------------------------------------ capabilities ---

macro_rules! flags {
    ($($n:ident)*) => { flags!(@ 0u32; $($n)*); };
    (@ $i:expr; $n:ident $($r:ident)*) => { pub const $n: u64 = 1 << ($i); flags!(@ $i + 1; $($r)*); };
    (@ $i:expr;) => {};
}
#[allow(non_upper_case_globals)]
pub mod f {
    flags! {
        MULTI BPS SWBP HWBP WATCH RESUME STEP RANGE RSTEP RCONT SRA EXTRA MONITOR
        EXT ASLR ENV SHELL WDIR APID SECT XMLOV LLDBOV MEMMAP CATCH
        HOST HOPEN HCLOSE HPREAD HPWRITE HFSTAT HUNLINK HREADLINK HSETFS
        EXECF AUXV LIBS TRACE TSRC
        GUARD NOACK XUP STUB RLE USEXML USELLDB
    }
    /// the defaults every `use_*` knob of `Target` has
    pub const KNOBS: u64 = NOACK | XUP | STUB | RLE | USEXML | USELLDB;
    pub const HOSTALL: u64 =
        HOST | HOPEN | HCLOSE | HPREAD | HPWRITE | HFSTAT | HUNLINK | HREADLINK | HSETFS;
    pub const EXTALL: u64 = EXT | ASLR | ENV | SHELL | WDIR | APID;
    pub const BPALL: u64 = BPS | SWBP | HWBP | WATCH;
    pub const RESALL: u64 = RESUME | STEP | RANGE | RSTEP | RCONT;
    /// a plain target: knobs on, guard rail waived, nothing optional
    pub const PLAIN: u64 = KNOBS | GUARD;
    /// everything
    pub const ALL: u64 = KNOBS
        | BPALL
        | RESALL
        | SRA
        | EXTRA
        | MONITOR
        | EXTALL
        | SECT
        | XMLOV
        | LLDBOV
        | MEMMAP
        | CATCH
        | HOSTALL
        | EXECF
        | AUXV
        | LIBS
        | TRACE
        | TSRC;
}

// -------------------------------------------------------------------- arch ---

pub trait HU: Debug + FromPrimitive + PrimInt + Unsigned + BeBytes + LeBytes + Default + 'static {
    const BITS: u32;
    fn big(self) -> u128;
    fn from_big(v: u128) -> Self;
}
macro_rules! hu {
    ($($t:ty)*) => {$(
        impl HU for $t {
            const BITS: u32 = <$t>::BITS;
            fn big(self) -> u128 { self as u128 }
            fn from_big(v: u128) -> Self { v as $t }
        }
    )*};
}
hu!(u8 u16 u32 u64);

pub struct HA<U>(PhantomData<U>);

#[derive(Debug, Clone, PartialEq)]
pub struct HRegs<U> {
    pub v: Vec<Option<u8>>,
    _p: PhantomData<U>,
}
impl<U> Default for HRegs<U> {
    fn default() -> Self {
        HRegs { v: vec![], _p: PhantomData }
    }
}
impl<U: HU> arch::Registers for HRegs<U> {
    type ProgramCounter = U;
    fn pc(&self) -> U {
        U::zero()
    }
    fn gdb_serialize(&self, mut w: impl FnMut(Option<u8>)) {
        for b in &self.v {
            w(*b)
        }
    }
    /// odd lengths are refused
    fn gdb_deserialize(&mut self, bytes: &[u8]) -> Result<(), ()> {
        if bytes.len() % 2 == 1 {
            return Err(());
        }
        self.v = bytes.iter().map(|b| Some(*b)).collect();
        Ok(())
    }
}

#[derive(Debug)]
pub struct HReg(pub usize);
/// The size the harness architecture declares for a register id:
/// Err = no such register, Ok(None) = size not known.
pub fn reg_size(id: usize) -> Result<Option<usize>, ()> {
    match id {
        0 => Ok(Some(1)),
        1 => Ok(Some(2)),
        2 => Ok(Some(4)),
        3 => Ok(Some(8)),
        4 => Ok(None),
        5..=0x3f => Ok(Some(16)),
        _ => Err(()),
    }
}
impl arch::RegId for HReg {
    fn from_raw_id(id: usize) -> Option<(Self, Option<NonZeroUsize>)> {
        match reg_size(id) {
            Ok(s) => Some((HReg(id), s.and_then(NonZeroUsize::new))),
            Err(()) => None,
        }
    }
}

#[derive(Debug)]
pub struct HBk(pub usize);
pub const BAD_KIND: usize = 7;
impl arch::BreakpointKind for HBk {
    fn from_usize(kind: usize) -> Option<Self> {
        (kind != BAD_KIND).then_some(HBk(kind))
    }
}

thread_local! {
    pub static ARCH_XML: Cell<Option<&'static str>> = const { Cell::new(None) };
    pub static ARCH_LLDB: Cell<Option<fn(usize) -> Option<lldb::RegisterInfo<'static>>>> = const { Cell::new(None) };
}

impl<U: HU> arch::Arch for HA<U> {
    type Usize = U;
    type Registers = HRegs<U>;
    type BreakpointKind = HBk;
    type RegId = HReg;
    fn target_description_xml() -> Option<&'static str> {
        ARCH_XML.with(|c| c.get())
    }
    fn lldb_register_info(reg_id: usize) -> Option<lldb::RegisterInfo<'static>> {
        ARCH_LLDB.with(|c| c.get()).and_then(|f| f(reg_id))
    }
}

// ------------------------------------------------------------------ target ---

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Call {
    pub f: &'static str,
    pub n: Vec<u128>,
    pub b: Vec<Vec<u8>>,
}
pub fn call(f: &'static str, n: &[u128], b: &[&[u8]]) -> Call {
    Call { f, n: n.to_vec(), b: b.iter().map(|x| x.to_vec()).collect() }
}
/// "absent optional argument" in a logged call
pub const NONE: u128 = u128::MAX;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Inj {
    NonFatal,
    Errno(u8),
    Io(i32),
    IoOther,
    /// `().into()`
    Unit,
    /// an `std::io::Error`, converted
    IoInto(i32),
    Fatal(u32),
    /// a HostIoErrno, by value
    Host(u32),
    /// whatever error of that number the call can report, if it can report one that is not fatal
    Any(u8),
}

pub fn herrno(v: u32) -> HostIoErrno {
    use HostIoErrno::*;
    match v {
        1 => EPERM,
        2 => ENOENT,
        4 => EINTR,
        9 => EBADF,
        13 => EACCES,
        14 => EFAULT,
        16 => EBUSY,
        17 => EEXIST,
        19 => ENODEV,
        20 => ENOTDIR,
        21 => EISDIR,
        22 => EINVAL,
        23 => ENFILE,
        24 => EMFILE,
        27 => EFBIG,
        28 => ENOSPC,
        29 => ESPIPE,
        30 => EROFS,
        91 => ENAMETOOLONG,
        9999 => EUNKNOWN,
        _ => std::panic::panic_any(crate::engine::EnginePanic(format!("bad errno {}", v))),
    }
}
pub const HERRNOS: &[u32] =
    &[1, 2, 4, 9, 13, 14, 16, 17, 19, 20, 21, 22, 23, 24, 27, 28, 29, 30, 91, 9999];

#[derive(Clone, Debug, PartialEq)]
pub enum ActM {
    Regs(Vec<u8>),
    Mem(Option<u64>, u128, u64),
    Expr(Vec<u8>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct SrcM {
    pub kind: u8, // 0 at, 1 cond, 2 cmd
    pub start: u32,
    pub slen: u32,
    pub bytes: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct TpM {
    pub num: usize,
    pub addr: u128,
    pub enabled: bool,
    pub step: u64,
    pub pass: u64,
    pub actions: Vec<ActM>,
    pub sources: Vec<SrcM>,
}
#[derive(Clone, Debug)]
pub enum StatusM {
    Running,
    NotRunning,
    NotRun,
    Stop(Option<Vec<u8>>),
    Full,
    Disconnected,
    Pass(usize),
    Error(Vec<u8>, usize),
    Unknown,
}
#[derive(Clone, Debug)]
pub enum InfoM {
    Frames(usize),
    Created(usize),
    Size(usize),
    Free(usize),
    Circular(bool),
    Disc(bool),
    Other(&'static str),
}
#[derive(Clone, Copy, Debug)]
pub enum FrameM {
    Num(u64),
    Hit(usize),
}

pub struct Tgt<U: HU> {
    pub fl: u64,
    pub log: RefCell<Vec<Call>>,
    /// (function, nth call of it, what)
    pub inj: Vec<(&'static str, usize, Inj)>,
    counts: RefCell<BTreeMap<&'static str, usize>>,
    // memory: [mem_lo, mem_hi] is mapped
    pub mem_lo: u128,
    pub mem_hi: u128,
    pub mem: BTreeMap<u128, u8>,
    pub mem_fill: fn(u128) -> u8,
    /// per read_addrs call: upper bound on the bytes returned
    pub read_caps: Vec<usize>,
    /// unmapped start: Ok(0) instead of an error
    pub unmapped_ok0: bool,
    pub regs: Vec<Option<u8>>,
    pub written_regs: Vec<(u128, Vec<Option<u8>>)>,
    /// override of the length read_register returns
    pub reg_len: Option<usize>,
    /// raw fill for read_register
    pub reg_fill: Option<u8>,
    pub threads: Vec<usize>,
    /// what is_thread_alive goes by, if not by the list of threads
    pub alive: Option<Vec<usize>>,
    pub extra_info: Vec<u8>,
    /// what thread_extra_info / xfer / pread / readlink claim to have written
    pub len_override: Option<usize>,
    pub bp_ok: bool,
    pub pid: usize,
    pub was_attach: bool,
    pub terminate: bool,
    pub offsets: u8,
    pub off_vals: [u128; 3],
    pub monitor_out: Vec<Option<Vec<u8>>>, // None = explicit flush
    /// how piece i is written: 0 raw, 1 output!, 2 outputln!, 3 outputln! of nothing after it, 4 several arguments
    pub monitor_how: Vec<u8>,
    pub blob: Vec<u8>,
    pub fd: u32,
    pub stat: [u64; 13],
    pub pwrite_ret: u128,
    pub lldb_override: Option<fn(usize) -> Option<lldb::Register<'static>>>,
    // tracepoints
    pub tps: Vec<TpM>,
    pub tp_state: TracepointEnumerateState<U>,
    pub hit: (u64, u64),
    pub tb_chunks: Vec<Vec<u8>>,
    pub frames: Vec<FrameM>,
    pub status: Vec<StatusM>,
    pub infos: Vec<InfoM>,
    pub tp_created: RefCell<Vec<String>>,
    /// enumerate sources ahead of actions
    pub src_first: bool,
}

fn default_fill(a: u128) -> u8 {
    (a as u8).wrapping_mul(29) ^ ((a >> 8) as u8).wrapping_add(0x5b)
}

impl<U: HU> Tgt<U> {
    pub fn new(fl: u64) -> Self {
        ARCH_XML.with(|c| c.set(None));
        ARCH_LLDB.with(|c| c.set(None));
        Tgt {
            fl,
            log: RefCell::new(vec![]),
            inj: vec![],
            counts: RefCell::new(BTreeMap::new()),
            mem_lo: 0,
            mem_hi: U::max_value().big(),
            mem: BTreeMap::new(),
            mem_fill: default_fill,
            read_caps: vec![],
            unmapped_ok0: false,
            regs: vec![Some(0x11), Some(0x22), None, Some(0x44)],
            written_regs: vec![],
            reg_len: None,
            reg_fill: None,
            alive: None,
            threads: vec![1],
            extra_info: b"info".to_vec(),
            len_override: None,
            bp_ok: true,
            pid: 1,
            was_attach: true,
            terminate: false,
            offsets: 0,
            off_vals: [0; 3],
            monitor_out: vec![],
            monitor_how: vec![],
            blob: vec![],
            fd: 3,
            stat: [0; 13],
            pwrite_ret: 0,
            lldb_override: None,
            tps: vec![],
            tp_state: Default::default(),
            hit: (0, 0),
            tb_chunks: vec![],
            frames: vec![],
            status: vec![],
            infos: vec![],
            tp_created: RefCell::new(vec![]),
            src_first: false,
        }
    }
    pub fn has(&self, m: u64) -> bool {
        self.fl & m == m
    }
    fn rec(&self, f: &'static str, n: &[u128], b: &[&[u8]]) -> Option<Inj> {
        if crate::engine::SEASONING.get() {
            return None;
        }
        self.log.borrow_mut().push(call(f, n, b));
        if self.inj.is_empty() {
            return None;
        }
        let mut c = self.counts.borrow_mut();
        let k = c.entry(f).or_insert(0);
        let nth = *k;
        *k += 1;
        self.inj.iter().find(|i| i.0 == f && i.1 == nth).map(|i| i.2)
    }
    /// for functions with a `TargetResult`
    fn tr(&self, f: &'static str, n: &[u128], b: &[&[u8]]) -> Result<(), TargetError<u32>> {
        match self.rec(f, n, b) {
            None => Ok(()),
            Some(Inj::NonFatal) => Err(TargetError::NonFatal),
            Some(Inj::Unit) => Err(().into()),
            #[cfg(feature = "std")]
            Some(Inj::IoInto(e)) => Err(std::io::Error::from_raw_os_error(e).into()),
            #[cfg(not(feature = "std"))]
            Some(Inj::IoInto(_)) => Err(TargetError::NonFatal),
            Some(Inj::Errno(e) | Inj::Any(e)) => Err(TargetError::Errno(e)),
            #[cfg(feature = "std")]
            Some(Inj::Io(e)) => Err(TargetError::Io(std::io::Error::from_raw_os_error(e))),
            #[cfg(feature = "std")]
            Some(Inj::IoOther) => Err(TargetError::Io(std::io::Error::new(
                std::io::ErrorKind::Other,
                "x",
            ))),
            #[cfg(not(feature = "std"))]
            Some(Inj::Io(_) | Inj::IoOther) => Err(TargetError::NonFatal),
            Some(Inj::Fatal(e)) => Err(TargetError::Fatal(e)),
            Some(Inj::Host(_)) => {
                std::panic::panic_any(crate::engine::EnginePanic("host injection".into()))
            }
        }
    }
    /// for functions whose only error is fatal
    pub fn er(&self, f: &'static str, n: &[u128], b: &[&[u8]]) -> Result<(), u32> {
        match self.rec(f, n, b) {
            None | Some(Inj::Any(_)) => Ok(()),
            Some(Inj::Fatal(e)) => Err(e),
            Some(_) => std::panic::panic_any(crate::engine::EnginePanic(format!("{} inj", f))),
        }
    }
    fn hr(&self, f: &'static str, n: &[u128], b: &[&[u8]]) -> Result<(), HostIoError<u32>> {
        match self.rec(f, n, b) {
            None => Ok(()),
            Some(Inj::Fatal(e)) => Err(HostIoError::Fatal(e)),
            Some(Inj::Host(v)) => Err(HostIoError::Errno(herrno(v))),
            Some(Inj::Any(e)) => Err(HostIoError::Errno(herrno(e as u32))),
            Some(_) => std::panic::panic_any(crate::engine::EnginePanic(format!("{} inj", f))),
        }
    }
    /// calls of `f` seen so far while some injection was set
    pub fn armed_count(&self, f: &'static str) -> usize {
        self.counts.borrow().get(f).copied().unwrap_or(0)
    }
    pub fn take_log(&self) -> Vec<Call> {
        std::mem::take(&mut *self.log.borrow_mut())
    }
    pub fn byte(&self, a: u128) -> u8 {
        self.mem.get(&a).copied().unwrap_or_else(|| (self.mem_fill)(a))
    }
    pub fn mapped(&self, a: u128) -> bool {
        a >= self.mem_lo && a <= self.mem_hi
    }

    pub fn do_read(&mut self, tid: u128, a: U, data: &mut [u8]) -> TargetResult<usize, Self> {
        let nth = self.log.borrow().iter().filter(|c| c.f == "read_addrs").count();
        self.tr("read_addrs", &[tid, a.big(), data.len() as u128], &[])?;
        let a = a.big();
        let cap = self.read_caps.get(nth).copied().unwrap_or(usize::MAX);
        let mut n = 0;
        while n < data.len() && n < cap && self.mapped(a + n as u128) {
            data[n] = self.byte(a + n as u128);
            n += 1;
        }
        if n == 0 && !data.is_empty() && cap > 0 && !self.unmapped_ok0 {
            return Err(TargetError::NonFatal);
        }
        Ok(n)
    }
    pub fn do_write(&mut self, tid: u128, a: U, data: &[u8]) -> TargetResult<(), Self> {
        self.tr("write_addrs", &[tid, a.big()], &[data])?;
        for (i, b) in data.iter().enumerate() {
            self.mem.insert(a.big() + i as u128, *b);
        }
        Ok(())
    }
    pub fn do_rregs(&mut self, tid: u128, regs: &mut HRegs<U>) -> TargetResult<(), Self> {
        self.tr("read_registers", &[tid], &[])?;
        regs.v = self.regs.clone();
        Ok(())
    }
    pub fn do_wregs(&mut self, tid: u128, regs: &HRegs<U>) -> TargetResult<(), Self> {
        let b: Vec<u8> = regs.v.iter().map(|b| b.unwrap_or(0)).collect();
        self.tr("write_registers", &[tid], &[&b])?;
        self.written_regs.push((tid, regs.v.clone()));
        Ok(())
    }
    fn do_rreg(&mut self, tid: u128, r: HReg, buf: &mut [u8]) -> TargetResult<usize, Self> {
        let size = reg_size(r.0).unwrap();
        // the buffer length is only promised for registers of known size
        let bl = if size.is_some() { buf.len() as u128 } else { NONE };
        self.tr("read_register", &[tid, r.0 as u128, bl], &[])?;
        let len = self.reg_len.unwrap_or(size.unwrap_or(6));
        for i in 0..len.min(buf.len()) {
            buf[i] = self.reg_byte(r.0, i);
        }
        Ok(len)
    }
    pub fn reg_byte(&self, r: usize, i: usize) -> u8 {
        self.reg_fill.unwrap_or((r as u8).wrapping_mul(16).wrapping_add(i as u8).wrapping_add(1))
    }
    fn do_wreg(&mut self, tid: u128, r: HReg, val: &[u8]) -> TargetResult<(), Self> {
        self.tr("write_register", &[tid, r.0 as u128], &[val])
    }
    fn fill(&self, offset: u64, length: usize, buf: &mut [u8]) -> usize {
        let off = (offset.min(self.blob.len() as u64)) as usize;
        let src = &self.blob[off..];
        let n = src.len().min(length).min(buf.len());
        buf[..n].copy_from_slice(&src[..n]);
        self.len_override.unwrap_or(n)
    }
    fn tp_ix(&self, tp: Tracepoint) -> Option<usize> {
        self.tps.iter().position(|t| t.num == tp.0)
    }
    fn tp_next(&self, ix: usize, after: u8) -> TracepointEnumerateStep<U> {
        // `after`: 0 the tracepoint itself, 1 its actions, 2 its sources
        let t = &self.tps[ix];
        let (act, src) = if self.src_first { (after != 1, after == 0) } else { (after == 0, after != 2) };
        let act = act && !t.actions.is_empty();
        let src = src && !t.sources.is_empty();
        if src && (self.src_first || !act) {
            return TracepointEnumerateStep::Source;
        }
        if act {
            return TracepointEnumerateStep::Action;
        }
        match self.tps.get(ix + 1) {
            Some(n) => TracepointEnumerateStep::Next {
                tp: Tracepoint(n.num),
                addr: U::from_big(n.addr),
            },
            None => TracepointEnumerateStep::Done,
        }
    }
    fn note_tp(&self, s: String) {
        self.tp_created.borrow_mut().push(s)
    }
}

pub fn sigv(s: Option<Signal>) -> u128 {
    s.map(|s| s.0 as u128).unwrap_or(NONE)
}

macro_rules! sup {
    ($self:ident, $flag:ident) => {
        if $self.has(f::$flag) {
            Some($self)
        } else {
            None
        }
    };
}

impl<U: HU> Target for Tgt<U> {
    type Arch = HA<U>;
    type Error = u32;
    fn base_ops(&mut self) -> BaseOps<'_, HA<U>, u32> {
        if self.has(f::MULTI) {
            BaseOps::MultiThread(self)
        } else {
            BaseOps::SingleThread(self)
        }
    }
    fn guard_rail_implicit_sw_breakpoints(&self) -> bool {
        self.has(f::GUARD)
    }
    fn use_no_ack_mode(&self) -> bool {
        self.has(f::NOACK)
    }
    fn use_x_upcase_packet(&self) -> bool {
        self.has(f::XUP)
    }
    fn use_resume_stub(&self) -> bool {
        self.has(f::STUB)
    }
    fn use_rle(&self) -> bool {
        self.has(f::RLE)
    }
    fn use_target_description_xml(&self) -> bool {
        self.has(f::USEXML)
    }
    fn use_lldb_register_info(&self) -> bool {
        self.has(f::USELLDB)
    }
    fn support_breakpoints(&mut self) -> Option<BreakpointsOps<'_, Self>> {
        sup!(self, BPS)
    }
    fn support_monitor_cmd(&mut self) -> Option<MonitorCmdOps<'_, Self>> {
        sup!(self, MONITOR)
    }
    fn support_extended_mode(&mut self) -> Option<ExtendedModeOps<'_, Self>> {
        sup!(self, EXT)
    }
    fn support_section_offsets(&mut self) -> Option<SectionOffsetsOps<'_, Self>> {
        sup!(self, SECT)
    }
    fn support_tracepoints(&mut self) -> Option<TracepointsOps<'_, Self>> {
        sup!(self, TRACE)
    }
    fn support_target_description_xml_override(
        &mut self,
    ) -> Option<TargetDescriptionXmlOverrideOps<'_, Self>> {
        sup!(self, XMLOV)
    }
    fn support_lldb_register_info_override(
        &mut self,
    ) -> Option<LldbRegisterInfoOverrideOps<'_, Self>> {
        sup!(self, LLDBOV)
    }
    fn support_memory_map(&mut self) -> Option<MemoryMapOps<'_, Self>> {
        sup!(self, MEMMAP)
    }
    fn support_catch_syscalls(&mut self) -> Option<CatchSyscallsOps<'_, Self>> {
        sup!(self, CATCH)
    }
    fn support_host_io(&mut self) -> Option<HostIoOps<'_, Self>> {
        sup!(self, HOST)
    }
    fn support_exec_file(&mut self) -> Option<ExecFileOps<'_, Self>> {
        sup!(self, EXECF)
    }
    fn support_auxv(&mut self) -> Option<AuxvOps<'_, Self>> {
        sup!(self, AUXV)
    }
    fn support_libraries_svr4(&mut self) -> Option<LibrariesSvr4Ops<'_, Self>> {
        sup!(self, LIBS)
    }
}

// ---- base

impl<U: HU> SingleThreadBase for Tgt<U> {
    fn read_registers(&mut self, regs: &mut HRegs<U>) -> TargetResult<(), Self> {
        self.do_rregs(0, regs)
    }
    fn write_registers(&mut self, regs: &HRegs<U>) -> TargetResult<(), Self> {
        self.do_wregs(0, regs)
    }
    fn support_single_register_access(&mut self) -> Option<SingleRegisterAccessOps<'_, (), Self>> {
        sup!(self, SRA)
    }
    fn read_addrs(&mut self, a: U, data: &mut [u8]) -> TargetResult<usize, Self> {
        self.do_read(0, a, data)
    }
    fn write_addrs(&mut self, a: U, data: &[u8]) -> TargetResult<(), Self> {
        self.do_write(0, a, data)
    }
    fn support_resume(&mut self) -> Option<SingleThreadResumeOps<'_, Self>> {
        sup!(self, RESUME)
    }
}
impl<U: HU> SingleThreadResume for Tgt<U> {
    fn resume(&mut self, signal: Option<Signal>) -> Result<(), u32> {
        self.er("resume", &[sigv(signal)], &[])
    }
    fn support_single_step(&mut self) -> Option<SingleThreadSingleStepOps<'_, Self>> {
        sup!(self, STEP)
    }
    fn support_range_step(&mut self) -> Option<SingleThreadRangeSteppingOps<'_, Self>> {
        sup!(self, RANGE)
    }
    fn support_reverse_step(&mut self) -> Option<ReverseStepOps<'_, (), Self>> {
        sup!(self, RSTEP)
    }
    fn support_reverse_cont(&mut self) -> Option<ReverseContOps<'_, (), Self>> {
        sup!(self, RCONT)
    }
}
impl<U: HU> SingleThreadSingleStep for Tgt<U> {
    fn step(&mut self, signal: Option<Signal>) -> Result<(), u32> {
        self.er("step", &[sigv(signal)], &[])
    }
}
impl<U: HU> SingleThreadRangeStepping for Tgt<U> {
    fn resume_range_step(&mut self, start: U, end: U) -> Result<(), u32> {
        self.er("range_step", &[start.big(), end.big()], &[])
    }
}
impl<U: HU> SingleRegisterAccess<()> for Tgt<U> {
    fn read_register(&mut self, _: (), r: HReg, buf: &mut [u8]) -> TargetResult<usize, Self> {
        self.do_rreg(0, r, buf)
    }
    fn write_register(&mut self, _: (), r: HReg, val: &[u8]) -> TargetResult<(), Self> {
        self.do_wreg(0, r, val)
    }
}
impl<U: HU> ReverseCont<()> for Tgt<U> {
    fn reverse_cont(&mut self) -> Result<(), u32> {
        self.er("reverse_cont", &[], &[])
    }
}
impl<U: HU> ReverseStep<()> for Tgt<U> {
    fn reverse_step(&mut self, _: ()) -> Result<(), u32> {
        self.er("reverse_step", &[0], &[])
    }
}

impl<U: HU> MultiThreadBase for Tgt<U> {
    fn read_registers(&mut self, regs: &mut HRegs<U>, tid: Tid) -> TargetResult<(), Self> {
        self.do_rregs(tid.get() as u128, regs)
    }
    fn write_registers(&mut self, regs: &HRegs<U>, tid: Tid) -> TargetResult<(), Self> {
        self.do_wregs(tid.get() as u128, regs)
    }
    fn support_single_register_access(&mut self) -> Option<SingleRegisterAccessOps<'_, Tid, Self>> {
        sup!(self, SRA)
    }
    fn read_addrs(&mut self, a: U, data: &mut [u8], tid: Tid) -> TargetResult<usize, Self> {
        self.do_read(tid.get() as u128, a, data)
    }
    fn write_addrs(&mut self, a: U, data: &[u8], tid: Tid) -> TargetResult<(), Self> {
        self.do_write(tid.get() as u128, a, data)
    }
    fn list_active_threads(&mut self, cb: &mut dyn FnMut(Tid)) -> Result<(), u32> {
        self.er("list_active_threads", &[], &[])?;
        for t in self.threads.clone() {
            cb(Tid::new(t).unwrap())
        }
        Ok(())
    }
    fn is_thread_alive(&mut self, tid: Tid) -> Result<bool, u32> {
        if let Some(a) = self.alive.clone() {
            self.er("is_thread_alive", &[tid.get() as u128], &[])?;
            return Ok(a.contains(&tid.get()));
        }
        // as the library does it by default (see props/lean.rs)
        let mut found = false;
        self.list_active_threads(&mut |x| found |= x == tid)?;
        Ok(found)
    }
    fn support_resume(&mut self) -> Option<MultiThreadResumeOps<'_, Self>> {
        sup!(self, RESUME)
    }
    fn support_thread_extra_info(&mut self) -> Option<ThreadExtraInfoOps<'_, Self>> {
        sup!(self, EXTRA)
    }
}
impl<U: HU> MultiThreadResume for Tgt<U> {
    fn resume(&mut self) -> Result<(), u32> {
        self.er("resume", &[], &[])
    }
    fn clear_resume_actions(&mut self) -> Result<(), u32> {
        self.er("clear_resume_actions", &[], &[])
    }
    fn set_resume_action_continue(&mut self, tid: Tid, signal: Option<Signal>) -> Result<(), u32> {
        self.er("set_continue", &[tid.get() as u128, sigv(signal)], &[])
    }
    fn support_single_step(&mut self) -> Option<MultiThreadSingleStepOps<'_, Self>> {
        sup!(self, STEP)
    }
    fn support_range_step(&mut self) -> Option<MultiThreadRangeSteppingOps<'_, Self>> {
        sup!(self, RANGE)
    }
    fn support_reverse_step(&mut self) -> Option<ReverseStepOps<'_, Tid, Self>> {
        sup!(self, RSTEP)
    }
    fn support_reverse_cont(&mut self) -> Option<ReverseContOps<'_, Tid, Self>> {
        sup!(self, RCONT)
    }
}
impl<U: HU> MultiThreadSingleStep for Tgt<U> {
    fn set_resume_action_step(&mut self, tid: Tid, signal: Option<Signal>) -> Result<(), u32> {
        self.er("set_step", &[tid.get() as u128, sigv(signal)], &[])
    }
}
impl<U: HU> MultiThreadRangeStepping for Tgt<U> {
    fn set_resume_action_range_step(&mut self, tid: Tid, start: U, end: U) -> Result<(), u32> {
        self.er("set_range", &[tid.get() as u128, start.big(), end.big()], &[])
    }
}
impl<U: HU> SingleRegisterAccess<Tid> for Tgt<U> {
    fn read_register(&mut self, t: Tid, r: HReg, buf: &mut [u8]) -> TargetResult<usize, Self> {
        self.do_rreg(t.get() as u128, r, buf)
    }
    fn write_register(&mut self, t: Tid, r: HReg, val: &[u8]) -> TargetResult<(), Self> {
        self.do_wreg(t.get() as u128, r, val)
    }
}
impl<U: HU> ReverseCont<Tid> for Tgt<U> {
    fn reverse_cont(&mut self) -> Result<(), u32> {
        self.er("reverse_cont", &[], &[])
    }
}
impl<U: HU> ReverseStep<Tid> for Tgt<U> {
    fn reverse_step(&mut self, t: Tid) -> Result<(), u32> {
        self.er("reverse_step", &[t.get() as u128], &[])
    }
}
impl<U: HU> ThreadExtraInfo for Tgt<U> {
    fn thread_extra_info(&self, tid: Tid, buf: &mut [u8]) -> Result<usize, u32> {
        self.er("thread_extra_info", &[tid.get() as u128], &[])?;
        let n = self.extra_info.len().min(buf.len());
        buf[..n].copy_from_slice(&self.extra_info[..n]);
        Ok(self.len_override.unwrap_or(n))
    }
}

// ---- breakpoints

impl<U: HU> Breakpoints for Tgt<U> {
    fn support_sw_breakpoint(&mut self) -> Option<SwBreakpointOps<'_, Self>> {
        sup!(self, SWBP)
    }
    fn support_hw_breakpoint(&mut self) -> Option<HwBreakpointOps<'_, Self>> {
        sup!(self, HWBP)
    }
    fn support_hw_watchpoint(&mut self) -> Option<HwWatchpointOps<'_, Self>> {
        sup!(self, WATCH)
    }
}
impl<U: HU> SwBreakpoint for Tgt<U> {
    fn add_sw_breakpoint(&mut self, a: U, k: HBk) -> TargetResult<bool, Self> {
        self.tr("add_sw", &[a.big(), k.0 as u128], &[]).map(|()| self.bp_ok)
    }
    fn remove_sw_breakpoint(&mut self, a: U, k: HBk) -> TargetResult<bool, Self> {
        self.tr("remove_sw", &[a.big(), k.0 as u128], &[]).map(|()| self.bp_ok)
    }
}
impl<U: HU> HwBreakpoint for Tgt<U> {
    fn add_hw_breakpoint(&mut self, a: U, k: HBk) -> TargetResult<bool, Self> {
        self.tr("add_hw", &[a.big(), k.0 as u128], &[]).map(|()| self.bp_ok)
    }
    fn remove_hw_breakpoint(&mut self, a: U, k: HBk) -> TargetResult<bool, Self> {
        self.tr("remove_hw", &[a.big(), k.0 as u128], &[]).map(|()| self.bp_ok)
    }
}
pub fn wk(k: WatchKind) -> u128 {
    match k {
        WatchKind::Write => 2,
        WatchKind::Read => 3,
        WatchKind::ReadWrite => 4,
    }
}
impl<U: HU> HwWatchpoint for Tgt<U> {
    fn add_hw_watchpoint(&mut self, a: U, len: U, k: WatchKind) -> TargetResult<bool, Self> {
        self.tr("add_watch", &[a.big(), len.big(), wk(k)], &[]).map(|()| self.bp_ok)
    }
    fn remove_hw_watchpoint(&mut self, a: U, len: U, k: WatchKind) -> TargetResult<bool, Self> {
        self.tr("remove_watch", &[a.big(), len.big(), wk(k)], &[]).map(|()| self.bp_ok)
    }
}

// ---- misc

impl<U: HU> MonitorCmd for Tgt<U> {
    fn handle_monitor_cmd(&mut self, cmd: &[u8], mut out: ConsoleOutput<'_>) -> Result<(), u32> {
        let r = self.er("monitor", &[], &[cmd]);
        for (i, o) in self.monitor_out.iter().enumerate() {
            let how = self.monitor_how.get(i).copied().unwrap_or(0);
            match o {
                Some(b) if how == 0 => out.write_raw(b),
                Some(b) => {
                    let s = core::str::from_utf8(b).unwrap();
                    match how {
                        1 => gdbstub::output!(out, "{}", s),
                        2 => gdbstub::outputln!(out, "{}", s),
                        3 => {
                            gdbstub::output!(out, "{s}");
                            gdbstub::outputln!(out)
                        }
                        _ => gdbstub::output!(out, "{0}-{1:>3}{0:?}", s, 7),
                    }
                }
                #[cfg(feature = "alloc")]
                None => out.flush(),
                #[cfg(not(feature = "alloc"))]
                None => {}
            }
        }
        r
    }
}
impl<U: HU> SectionOffsets for Tgt<U> {
    fn get_section_offsets(&mut self) -> Result<Offsets<U>, u32> {
        self.er("section_offsets", &[], &[])?;
        let v = self.off_vals.map(U::from_big);
        Ok(match self.offsets {
            0 => Offsets::Sections { text: v[0], data: v[1], bss: None },
            1 => Offsets::Sections { text: v[0], data: v[1], bss: Some(v[2]) },
            2 => Offsets::Segments { text_seg: v[0], data_seg: None },
            _ => Offsets::Segments { text_seg: v[0], data_seg: Some(v[1]) },
        })
    }
}
impl<U: HU> TargetDescriptionXmlOverride for Tgt<U> {
    fn target_description_xml(
        &self,
        annex: &[u8],
        offset: u64,
        length: usize,
        buf: &mut [u8],
    ) -> TargetResult<usize, Self> {
        self.tr("xml", &[offset as u128, length as u128], &[annex])?;
        Ok(self.fill(offset, length, buf))
    }
}
impl<U: HU> MemoryMap for Tgt<U> {
    fn memory_map_xml(&self, offset: u64, length: usize, buf: &mut [u8]) -> TargetResult<usize, Self> {
        self.tr("memory_map", &[offset as u128, length as u128], &[])?;
        Ok(self.fill(offset, length, buf))
    }
}
impl<U: HU> Auxv for Tgt<U> {
    fn get_auxv(&self, offset: u64, length: usize, buf: &mut [u8]) -> TargetResult<usize, Self> {
        self.tr("auxv", &[offset as u128, length as u128], &[])?;
        Ok(self.fill(offset, length, buf))
    }
}
impl<U: HU> LibrariesSvr4 for Tgt<U> {
    fn get_libraries_svr4(
        &self,
        offset: u64,
        length: usize,
        buf: &mut [u8],
    ) -> TargetResult<usize, Self> {
        self.tr("libraries_svr4", &[offset as u128, length as u128], &[])?;
        Ok(self.fill(offset, length, buf))
    }
}
impl<U: HU> ExecFile for Tgt<U> {
    fn get_exec_file(
        &self,
        pid: Option<Pid>,
        offset: u64,
        length: usize,
        buf: &mut [u8],
    ) -> TargetResult<usize, Self> {
        let p = pid.map(|p| p.get() as u128).unwrap_or(NONE);
        self.tr("exec_file", &[p, offset as u128, length as u128], &[])?;
        Ok(self.fill(offset, length, buf))
    }
}
impl<U: HU> LldbRegisterInfoOverride for Tgt<U> {
    fn lldb_register_info<'a>(
        &mut self,
        reg_id: usize,
        cb: lo::Callback<'a>,
    ) -> Result<CallbackToken<'a>, u32> {
        self.er("lldb_register_info", &[reg_id as u128], &[])?;
        Ok(match self.lldb_override.and_then(|f| f(reg_id)) {
            Some(r) => cb.write(r),
            None => cb.done(),
        })
    }
}
impl<U: HU> CatchSyscalls for Tgt<U> {
    fn enable_catch_syscalls(&mut self, filter: Option<SyscallNumbers<'_, U>>) -> TargetResult<(), Self> {
        match filter {
            None => self.tr("catch_all", &[], &[]),
            Some(it) => {
                let v: Vec<u128> = it.map(|x| x.big()).collect();
                self.tr("catch_some", &v, &[])
            }
        }
    }
    fn disable_catch_syscalls(&mut self) -> TargetResult<(), Self> {
        self.tr("catch_off", &[], &[])
    }
}

// ---- extended mode

impl<U: HU> ExtendedMode for Tgt<U> {
    fn run(&mut self, filename: Option<&[u8]>, args: Args<'_, '_>) -> TargetResult<Pid, Self> {
        let a: Vec<&[u8]> = args.collect();
        let mut b: Vec<&[u8]> = vec![filename.unwrap_or(b"")];
        b.extend(a);
        self.tr("run", &[filename.is_some() as u128], &b)?;
        Ok(Pid::new(self.pid).unwrap())
    }
    fn attach(&mut self, pid: Pid) -> TargetResult<(), Self> {
        self.tr("attach", &[pid.get() as u128], &[])
    }
    fn query_if_attached(&mut self, pid: Pid) -> TargetResult<AttachKind, Self> {
        self.tr("query_if_attached", &[pid.get() as u128], &[])?;
        Ok(if self.was_attach { AttachKind::Attach } else { AttachKind::Run })
    }
    fn kill(&mut self, pid: Option<Pid>) -> TargetResult<ShouldTerminate, Self> {
        self.tr("kill", &[pid.map(|p| p.get() as u128).unwrap_or(NONE)], &[])?;
        Ok(if self.terminate { ShouldTerminate::Yes } else { ShouldTerminate::No })
    }
    fn restart(&mut self) -> Result<(), u32> {
        self.er("restart", &[], &[])
    }
    fn on_start(&mut self) -> Result<(), u32> {
        self.er("on_start", &[], &[])
    }
    fn support_configure_aslr(&mut self) -> Option<ConfigureAslrOps<'_, Self>> {
        sup!(self, ASLR)
    }
    fn support_configure_env(&mut self) -> Option<ConfigureEnvOps<'_, Self>> {
        sup!(self, ENV)
    }
    fn support_configure_startup_shell(&mut self) -> Option<ConfigureStartupShellOps<'_, Self>> {
        sup!(self, SHELL)
    }
    fn support_configure_working_dir(&mut self) -> Option<ConfigureWorkingDirOps<'_, Self>> {
        sup!(self, WDIR)
    }
    fn support_current_active_pid(&mut self) -> Option<CurrentActivePidOps<'_, Self>> {
        sup!(self, APID)
    }
}
impl<U: HU> ConfigureAslr for Tgt<U> {
    fn cfg_aslr(&mut self, on: bool) -> TargetResult<(), Self> {
        self.tr("cfg_aslr", &[on as u128], &[])
    }
}
impl<U: HU> ConfigureEnv for Tgt<U> {
    fn set_env(&mut self, key: &[u8], val: Option<&[u8]>) -> TargetResult<(), Self> {
        self.tr("set_env", &[val.is_some() as u128], &[key, val.unwrap_or(b"")])
    }
    fn remove_env(&mut self, key: &[u8]) -> TargetResult<(), Self> {
        self.tr("remove_env", &[], &[key])
    }
    fn reset_env(&mut self) -> TargetResult<(), Self> {
        self.tr("reset_env", &[], &[])
    }
}
impl<U: HU> ConfigureStartupShell for Tgt<U> {
    fn cfg_startup_with_shell(&mut self, on: bool) -> TargetResult<(), Self> {
        self.tr("cfg_shell", &[on as u128], &[])
    }
}
impl<U: HU> ConfigureWorkingDir for Tgt<U> {
    fn cfg_working_dir(&mut self, dir: Option<&[u8]>) -> TargetResult<(), Self> {
        self.tr("cfg_wdir", &[dir.is_some() as u128], &[dir.unwrap_or(b"")])
    }
}
impl<U: HU> CurrentActivePid for Tgt<U> {
    fn current_active_pid(&mut self) -> Result<Pid, u32> {
        self.er("current_active_pid", &[], &[])?;
        Ok(Pid::new(self.pid).unwrap())
    }
}

// ---- host io

macro_rules! hostsup {
    ($($fn:ident $ops:ident $flag:ident)*) => {$(
        fn $fn(&mut self) -> Option<$ops<'_, Self>> { sup!(self, $flag) }
    )*};
}
impl<U: HU> HostIo for Tgt<U> {
    hostsup! {
        support_open HostIoOpenOps HOPEN
        support_close HostIoCloseOps HCLOSE
        support_pread HostIoPreadOps HPREAD
        support_pwrite HostIoPwriteOps HPWRITE
        support_fstat HostIoFstatOps HFSTAT
        support_unlink HostIoUnlinkOps HUNLINK
        support_readlink HostIoReadlinkOps HREADLINK
        support_setfs HostIoSetfsOps HSETFS
    }
}
impl<U: HU> HostIoOpen for Tgt<U> {
    fn open(&mut self, name: &[u8], fl: HostIoOpenFlags, m: HostIoOpenMode) -> HostIoResult<u32, Self> {
        self.hr("h_open", &[fl.bits() as u128, m.bits() as u128], &[name])?;
        Ok(self.fd)
    }
}
impl<U: HU> HostIoClose for Tgt<U> {
    fn close(&mut self, fd: u32) -> HostIoResult<(), Self> {
        self.hr("h_close", &[fd as u128], &[])
    }
}
impl<U: HU> HostIoPread for Tgt<U> {
    fn pread(&mut self, fd: u32, count: usize, offset: u64, buf: &mut [u8]) -> HostIoResult<usize, Self> {
        self.hr("h_pread", &[fd as u128, count as u128, offset as u128], &[])?;
        Ok(self.fill(offset, count, buf))
    }
}
impl<U: HU> HostIoPwrite for Tgt<U> {
    fn pwrite(&mut self, fd: u32, offset: U, data: &[u8]) -> HostIoResult<U, Self> {
        self.hr("h_pwrite", &[fd as u128, offset.big()], &[data])?;
        Ok(U::from_big(self.pwrite_ret))
    }
}
impl<U: HU> HostIoFstat for Tgt<U> {
    fn fstat(&mut self, fd: u32) -> HostIoResult<HostIoStat, Self> {
        self.hr("h_fstat", &[fd as u128], &[])?;
        let s = &self.stat;
        Ok(HostIoStat {
            st_dev: s[0] as u32,
            st_ino: s[1] as u32,
            st_mode: HostIoOpenMode::from_bits_retain(s[2] as u32),
            st_nlink: s[3] as u32,
            st_uid: s[4] as u32,
            st_gid: s[5] as u32,
            st_rdev: s[6] as u32,
            st_size: s[7],
            st_blksize: s[8],
            st_blocks: s[9],
            st_atime: s[10] as u32,
            st_mtime: s[11] as u32,
            st_ctime: s[12] as u32,
        })
    }
}
impl<U: HU> HostIoUnlink for Tgt<U> {
    fn unlink(&mut self, name: &[u8]) -> HostIoResult<(), Self> {
        self.hr("h_unlink", &[], &[name])
    }
}
impl<U: HU> HostIoReadlink for Tgt<U> {
    fn readlink(&mut self, name: &[u8], buf: &mut [u8]) -> HostIoResult<usize, Self> {
        self.hr("h_readlink", &[], &[name])?;
        Ok(self.fill(0, usize::MAX, buf))
    }
}
impl<U: HU> HostIoSetfs for Tgt<U> {
    fn setfs(&mut self, fs: FsKind) -> HostIoResult<(), Self> {
        let v = match fs {
            FsKind::Stub => 0,
            FsKind::Pid(p) => p.get() as u128,
        };
        self.hr("h_setfs", &[v], &[])
    }
}

// ---- tracepoints

pub fn act_of<U: HU>(a: &TracepointAction<'_, U>) -> ActM {
    match a {
        TracepointAction::Registers { mask } => ActM::Regs(mask.to_vec()),
        TracepointAction::Memory { basereg, offset, length } => {
            ActM::Mem(*basereg, offset.big(), *length)
        }
        TracepointAction::Expression { expr } => ActM::Expr(expr.to_vec()),
    }
}

impl<U: HU> Tracepoints for Tgt<U> {
    fn tracepoints_init(&mut self) -> TargetResult<(), Self> {
        self.tr("tp_init", &[], &[])
    }
    fn tracepoint_create_begin(&mut self, t: NewTracepoint<U>) -> TargetResult<(), Self> {
        self.tr(
            "tp_begin",
            &[
                t.number.0 as u128,
                t.enabled as u128,
                t.addr.big(),
                t.step_count as u128,
                t.pass_count as u128,
            ],
            &[],
        )
    }
    fn tracepoint_create_continue(
        &mut self,
        tp: Tracepoint,
        action: &TracepointAction<'_, U>,
    ) -> TargetResult<(), Self> {
        #[cfg(feature = "alloc")]
        {
            let owned = action.get_owned();
            if act_of(&owned) != act_of(action) {
                self.note_tp("get_owned differs".into());
            }
        }
        match act_of(action) {
            ActM::Regs(m) => self.tr("tp_action", &[tp.0 as u128, 0], &[&m]),
            ActM::Mem(b, o, l) => {
                let b = b.map(|b| b as u128).unwrap_or(NONE);
                self.tr("tp_action", &[tp.0 as u128, 1, b, o, l as u128], &[])
            }
            ActM::Expr(e) => self.tr("tp_action", &[tp.0 as u128, 2], &[&e]),
        }
    }
    fn tracepoint_create_complete(&mut self, tp: Tracepoint) -> TargetResult<(), Self> {
        self.tr("tp_complete", &[tp.0 as u128], &[])
    }
    fn tracepoint_status(&self, tp: Tracepoint, addr: U) -> TargetResult<TracepointStatus, Self> {
        self.tr("tp_status", &[tp.0 as u128, addr.big()], &[])?;
        Ok(TracepointStatus { hit_count: self.hit.0, bytes_used: self.hit.1 })
    }
    fn tracepoint_enumerate_state(&mut self) -> &mut TracepointEnumerateState<U> {
        &mut self.tp_state
    }
    fn tracepoint_enumerate_start(
        &mut self,
        tp: Option<Tracepoint>,
        cb: &mut dyn FnMut(&NewTracepoint<U>),
    ) -> TargetResult<TracepointEnumerateStep<U>, Self> {
        self.tr("tp_enum", &[tp.map(|t| t.0 as u128).unwrap_or(NONE)], &[])?;
        let ix = match tp {
            Some(t) => self.tp_ix(t),
            None => (!self.tps.is_empty()).then_some(0),
        };
        let Some(ix) = ix else { return Ok(TracepointEnumerateStep::Done) };
        let t = &self.tps[ix];
        cb(&NewTracepoint {
            number: Tracepoint(t.num),
            enabled: t.enabled,
            addr: U::from_big(t.addr),
            step_count: t.step,
            pass_count: t.pass,
        });
        Ok(self.tp_next(ix, 0))
    }
    fn tracepoint_enumerate_action(
        &mut self,
        tp: Tracepoint,
        step: u64,
        cb: &mut dyn FnMut(&TracepointAction<'_, U>),
    ) -> TargetResult<TracepointEnumerateStep<U>, Self> {
        self.tr("tp_enum_action", &[tp.0 as u128, step as u128], &[])?;
        let Some(ix) = self.tp_ix(tp) else { return Err(TargetError::NonFatal) };
        let n = self.tps[ix].actions.len();
        let Some(a) = self.tps[ix].actions.get_mut(step as usize) else {
            return Err(TargetError::NonFatal);
        };
        match a {
            ActM::Regs(m) => cb(&TracepointAction::Registers { mask: (&mut m[..]).into() }),
            ActM::Mem(b, o, l) => cb(&TracepointAction::Memory {
                basereg: *b,
                offset: U::from_big(*o),
                length: *l,
            }),
            ActM::Expr(e) => cb(&TracepointAction::Expression { expr: (&mut e[..]).into() }),
        }
        if (step as usize) + 1 < n {
            Ok(TracepointEnumerateStep::Action)
        } else {
            Ok(self.tp_next(ix, 1))
        }
    }
    fn trace_buffer_configure(&mut self, c: TraceBufferConfig) -> TargetResult<(), Self> {
        let (k, v) = match c {
            TraceBufferConfig::Shape(BufferShape::Linear) => (0, 0),
            TraceBufferConfig::Shape(BufferShape::Circular) => (0, 1),
            TraceBufferConfig::Size(s) => (1, s.map(|s| s as u128).unwrap_or(NONE)),
        };
        self.tr("tb_configure", &[k, v], &[])
    }
    fn trace_buffer_request(
        &mut self,
        offset: u64,
        len: usize,
        cb: &mut dyn FnMut(&mut [u8]),
    ) -> TargetResult<(), Self> {
        self.tr("tb_request", &[offset as u128, len as u128], &[])?;
        for c in &self.tb_chunks {
            cb(&mut c.clone())
        }
        Ok(())
    }
    fn trace_experiment_status(&self, cb: &mut dyn FnMut(ExperimentStatus<'_>)) -> TargetResult<(), Self> {
        self.tr("trace_status", &[], &[])?;
        use ExperimentStatus::*;
        for s in &self.status {
            cb(match s {
                StatusM::Running => Running,
                StatusM::NotRunning => NotRunning,
                StatusM::NotRun => NotRun,
                StatusM::Stop(t) => Stop(t.as_deref()),
                StatusM::Full => Full,
                StatusM::Disconnected => Disconnected,
                StatusM::Pass(n) => PassCount(Tracepoint(*n)),
                StatusM::Error(t, n) => Error(t, Tracepoint(*n)),
                StatusM::Unknown => Unknown,
            })
        }
        Ok(())
    }
    fn trace_experiment_info(
        &self,
        cb: &mut dyn FnMut(ExperimentExplanation<'_>),
    ) -> TargetResult<(), Self> {
        self.tr("trace_info", &[], &[])?;
        use ExperimentExplanation::*;
        for s in &self.infos {
            cb(match s {
                InfoM::Frames(n) => Frames(*n),
                InfoM::Created(n) => Created(*n),
                InfoM::Size(n) => Size(*n),
                InfoM::Free(n) => Free(*n),
                InfoM::Circular(b) => Circular(*b),
                InfoM::Disc(b) => DisconnectedTracing(*b),
                InfoM::Other(s) => Other(s),
            })
        }
        Ok(())
    }
    fn trace_experiment_start(&mut self) -> TargetResult<(), Self> {
        self.tr("trace_start", &[], &[])
    }
    fn trace_experiment_stop(&mut self) -> TargetResult<(), Self> {
        self.tr("trace_stop", &[], &[])
    }
    fn select_frame(
        &mut self,
        frame: FrameRequest<U>,
        report: &mut dyn FnMut(FrameDescription),
    ) -> TargetResult<(), Self> {
        let n: Vec<u128> = match frame {
            FrameRequest::Select(n) => vec![0, n as u128],
            FrameRequest::AtPC(a) => vec![1, a.big()],
            FrameRequest::Hit(t) => vec![2, t.0 as u128],
            FrameRequest::Between(a, b) => vec![3, a.big(), b.big()],
            FrameRequest::Outside(a, b) => vec![4, a.big(), b.big()],
        };
        self.tr("select_frame", &n, &[])?;
        for d in &self.frames {
            report(match d {
                FrameM::Num(n) => FrameDescription::FrameNumber(*n),
                FrameM::Hit(n) => FrameDescription::Hit(Tracepoint(*n)),
            })
        }
        Ok(())
    }
    fn support_tracepoint_source(&mut self) -> Option<TracepointSourceOps<'_, Self>> {
        sup!(self, TSRC)
    }
}
fn skind(k: TracepointSourceType) -> u128 {
    match k {
        TracepointSourceType::At => 0,
        TracepointSourceType::Cond => 1,
        TracepointSourceType::Cmd => 2,
    }
}
impl<U: HU> TracepointSource for Tgt<U> {
    fn tracepoint_attach_source(&mut self, s: SourceTracepoint<'_, U>) -> TargetResult<(), Self> {
        #[cfg(feature = "alloc")]
        let o = s.get_owned();
        #[cfg(feature = "alloc")]
        if (o.number, o.addr, skind(o.kind), o.start, o.slen, o.bytes.to_vec())
            != (s.number, s.addr, skind(s.kind), s.start, s.slen, s.bytes.to_vec())
        {
            self.note_tp("get_owned differs".into());
        }
        self.tr(
            "tp_source",
            &[
                s.number.0 as u128,
                s.addr.big(),
                skind(s.kind),
                s.start as u128,
                s.slen as u128,
            ],
            &[&s.bytes],
        )
    }
    fn tracepoint_enumerate_source(
        &mut self,
        tp: Tracepoint,
        step: u64,
        cb: &mut dyn FnMut(&SourceTracepoint<'_, U>),
    ) -> TargetResult<TracepointEnumerateStep<U>, Self> {
        self.tr("tp_enum_source", &[tp.0 as u128, step as u128], &[])?;
        let Some(ix) = self.tp_ix(tp) else { return Err(TargetError::NonFatal) };
        let n = self.tps[ix].sources.len();
        let addr = U::from_big(self.tps[ix].addr);
        let Some(s) = self.tps[ix].sources.get_mut(step as usize) else {
            return Err(TargetError::NonFatal);
        };
        cb(&SourceTracepoint {
            number: tp,
            addr,
            kind: match s.kind {
                0 => TracepointSourceType::At,
                1 => TracepointSourceType::Cond,
                _ => TracepointSourceType::Cmd,
            },
            start: s.start,
            slen: s.slen,
            bytes: (&mut s.bytes[..]).into(),
        });
        if (step as usize) + 1 < n {
            Ok(TracepointEnumerateStep::Source)
        } else {
            Ok(self.tp_next(ix, 2))
        }
    }
}
