//! C30, C31: register files, register ids and target descriptions of
//! gdbstub_arch.  The tables below are written from GDB's descriptions
//! (gdb/features/*), not from the crate.

use super::arch_sys::SYS;
use crate::client::*;
use crate::props::*;
use crate::sess::*;
use core::num::NonZeroUsize;
use gdbstub::arch::{Arch, BreakpointKind, RegId, Registers};
use gdbstub::target::ext::base::single_register_access::*;
use gdbstub::target::ext::base::singlethread::*;
use gdbstub::target::ext::base::BaseOps;
use gdbstub::target::{Target, TargetError, TargetResult};
use gdbstub_arch as ga;
use std::collections::BTreeMap;

pub const PROPS: &[&Prop] = &[&C30, &C31];

// ----------------------------------------------------------------- layouts ---

pub struct Slot<Rg> {
    pub name: String,
    pub size: usize,
    /// None: the file has room for it, the crate has no value for it
    pub set: Option<Box<dyn Fn(&mut Rg, u128)>>,
    /// takes part in the numbering of the registers
    pub id: bool,
}

/// One architecture as GDB sees it.
pub trait Spec: 'static {
    type A: Arch;
    const BE: bool = false;
    /// equality of register files is exact (no floats inside)
    const EXACT: bool = true;
    /// a nonzero value in a slot without a value is an error
    const ZERO_GAPS: bool = false;
    const ARCH_NAME: Option<&'static str>;
    fn slots() -> Vec<Slot<Regs<Self>>>;
    fn pc_slot() -> usize;
    fn pc_big(r: &Regs<Self>) -> u128;
    fn desc(id: Rid<Self>) -> String;
    /// ids beyond the register file
    fn more(_id: usize) -> Option<(String, usize)> {
        None
    }
    fn features() -> &'static [&'static str] {
        &[]
    }
    /// registers of the description: name -> (number, bits)
    fn described() -> Vec<(String, usize, usize)> {
        vec![]
    }
    fn has_ids() -> bool {
        true
    }
    /// ids with a recorded, unrepaired defect (see known_findings.txt)
    fn odd(_id: usize) -> bool {
        false
    }
}
type Regs<S> = <<S as Spec>::A as Arch>::Registers;
type Rid<S> = <<S as Spec>::A as Arch>::RegId;

macro_rules! sl {
    ($v:ident, $name:expr, $size:expr, $($field:tt)+) => {
        $v.push(Slot { name: $name.into(), size: $size, set: Some(Box::new(move |r, x| r.$($field)+ = x as _)), id: true })
    };
}
fn gap<Rg>(name: String, size: usize, id: bool) -> Slot<Rg> {
    Slot { name, size, set: None, id }
}

pub struct Arm;
impl Spec for Arm {
    type A = ga::arm::Armv4t;
    const ARCH_NAME: Option<&'static str> = Some("armv4t");
    fn slots() -> Vec<Slot<Regs<Self>>> {
        let mut v: Vec<Slot<Regs<Self>>> = vec![];
        for i in 0..13 {
            sl!(v, format!("Gpr({})", i), 4, r[i]);
        }
        sl!(v, "Sp", 4, sp);
        sl!(v, "Lr", 4, lr);
        sl!(v, "Pc", 4, pc);
        for i in 0..8 {
            v.push(gap(format!("Fpr({})", i), 12, true));
        }
        v.push(gap("Fps".into(), 4, true));
        sl!(v, "Cpsr", 4, cpsr);
        v
    }
    fn pc_slot() -> usize {
        15
    }
    fn pc_big(r: &Regs<Self>) -> u128 {
        r.pc() as u128
    }
    fn desc(id: Rid<Self>) -> String {
        use ga::arm::reg::id::ArmCoreRegId::*;
        match id {
            Gpr(i) => format!("Gpr({})", i),
            Sp => "Sp".into(),
            Lr => "Lr".into(),
            Pc => "Pc".into(),
            Fpr(i) => format!("Fpr({})", i),
            Fps => "Fps".into(),
            Cpsr => "Cpsr".into(),
            x => format!("? {:?}", x),
        }
    }
}

pub struct A64;
impl Spec for A64 {
    type A = ga::aarch64::AArch64;
    const ARCH_NAME: Option<&'static str> = Some("aarch64");
    fn slots() -> Vec<Slot<Regs<Self>>> {
        let mut v: Vec<Slot<Regs<Self>>> = vec![];
        for i in 0..31 {
            sl!(v, format!("X({})", i), 8, x[i]);
        }
        sl!(v, "Sp", 8, sp);
        sl!(v, "Pc", 8, pc);
        sl!(v, "Pstate", 4, cpsr);
        for i in 0..32 {
            sl!(v, format!("V({})", i), 16, v[i]);
        }
        sl!(v, format!("System({})", 0xda21), 4, fpsr);
        sl!(v, format!("System({})", 0xda20), 4, fpcr);
        v
    }
    fn pc_slot() -> usize {
        32
    }
    fn pc_big(r: &Regs<Self>) -> u128 {
        r.pc() as u128
    }
    fn desc(id: Rid<Self>) -> String {
        use ga::aarch64::reg::id::AArch64RegId::*;
        match id {
            X(i) => format!("X({})", i),
            Sp => "Sp".into(),
            Pc => "Pc".into(),
            Pstate => "Pstate".into(),
            V(i) => format!("V({})", i),
            System(i) => format!("System({})", i),
            x => format!("? {:?}", x),
        }
    }
    fn more(id: usize) -> Option<(String, usize)> {
        // every encoding of op0 = 2 or 3
        (0x8000..0x10000).contains(&id).then(|| (format!("System({})", id), 8))
    }
    fn features() -> &'static [&'static str] {
        &["org.gnu.gdb.aarch64.core", "org.gnu.gdb.aarch64.fpu", "org.rust.gdb.arm.sys.regs"]
    }
    fn described() -> Vec<(String, usize, usize)> {
        let mut v = vec![];
        for i in 0..31 {
            v.push((format!("X{}", i), i, 64));
        }
        v.push(("SP".into(), 31, 64));
        v.push(("PC".into(), 32, 64));
        v.push(("CPSR".into(), 33, 32));
        for i in 0..32 {
            v.push((format!("V{}", i), 34 + i, 128));
        }
        v.push(("FPSR".into(), 66, 32));
        v.push(("FPCR".into(), 67, 32));
        for (n, _, e) in SYS {
            v.push((n.to_string(), *e as usize, 64));
        }
        v
    }
    fn odd(id: usize) -> bool {
        id == 66 || id == 67
    }
}

fn mips_core<U: HU>(v: &mut Vec<Slot<ga::mips::reg::MipsCoreRegs<U>>>) {
    let n = (U::BITS / 8) as usize;
    macro_rules! s {
        ($name:expr, $($f:tt)+) => {
            v.push(Slot { name: $name.into(), size: n, set: Some(Box::new(move |r, x| r.$($f)+ = U::from_big(x))), id: true })
        };
    }
    for i in 0..32 {
        s!(format!("Gpr({})", i), r[i]);
    }
    s!("Status", cp0.status);
    s!("Lo", lo);
    s!("Hi", hi);
    s!("Badvaddr", cp0.badvaddr);
    s!("Cause", cp0.cause);
    s!("Pc", pc);
    for i in 0..32 {
        s!(format!("Fpr({})", i), fpu.r[i]);
    }
    s!("Fcsr", fpu.fcsr);
    s!("Fir", fpu.fir);
}
fn mips_dsp<U: HU>() -> Vec<Slot<ga::mips::reg::MipsCoreRegsWithDsp<U>>> {
    let mut core = vec![];
    mips_core::<U>(&mut core);
    let mut v: Vec<Slot<ga::mips::reg::MipsCoreRegsWithDsp<U>>> = core
        .into_iter()
        .map(|s| {
            let set = s.set.unwrap();
            Slot {
                name: s.name,
                size: s.size,
                id: s.id,
                set: Some(Box::new(move |r: &mut ga::mips::reg::MipsCoreRegsWithDsp<U>, x| set(&mut r.core, x)) as Box<dyn Fn(&mut _, u128)>),
            }
        })
        .collect();
    let n = (U::BITS / 8) as usize;
    macro_rules! s {
        ($name:expr, $($f:tt)+) => {
            v.push(Slot { name: $name.into(), size: n, set: Some(Box::new(move |r, x| r.dsp.$($f)+ = U::from_big(x))), id: true })
        };
    }
    s!("Hi1", hi1);
    s!("Lo1", lo1);
    s!("Hi2", hi2);
    s!("Lo2", lo2);
    s!("Hi3", hi3);
    s!("Lo3", lo3);
    sl!(v, "Dspctl", 4, dsp.dspctl);
    let n2 = n;
    v.push(Slot { name: "Restart".into(), size: n2, set: Some(Box::new(move |r, x| r.dsp.restart = U::from_big(x))), id: true });
    v
}
const DSP: &[&str] = &["Hi1", "Lo1", "Hi2", "Lo2", "Hi3", "Lo3", "Dspctl", "Restart"];
fn mips_more(n: usize, id: usize) -> Option<(String, usize)> {
    // the id type knows the DSP registers even where the file has none
    let i = id.checked_sub(72)?;
    let name = DSP.get(i)?;
    Some((name.to_string(), if *name == "Dspctl" { 4 } else { n }))
}
fn mips_desc<U: core::fmt::Debug>(id: ga::mips::reg::id::MipsRegId<U>) -> String {
    use ga::mips::reg::id::MipsRegId::*;
    match id {
        Gpr(i) => format!("Gpr({})", i),
        Status => "Status".into(),
        Lo => "Lo".into(),
        Hi => "Hi".into(),
        Badvaddr => "Badvaddr".into(),
        Cause => "Cause".into(),
        Pc => "Pc".into(),
        Fpr(i) => format!("Fpr({})", i),
        Fcsr => "Fcsr".into(),
        Fir => "Fir".into(),
        Hi1 => "Hi1".into(),
        Lo1 => "Lo1".into(),
        Hi2 => "Hi2".into(),
        Lo2 => "Lo2".into(),
        Hi3 => "Hi3".into(),
        Lo3 => "Lo3".into(),
        Dspctl => "Dspctl".into(),
        Restart => "Restart".into(),
        x => format!("? {:?}", x),
    }
}

macro_rules! mips {
    ($t:ident, $a:ident, $u:ty, $name:expr, $core:expr, $feat:expr) => {
        pub struct $t;
        impl Spec for $t {
            type A = ga::mips::$a;
            const ARCH_NAME: Option<&'static str> = $name;
            fn slots() -> Vec<Slot<Regs<Self>>> {
                $core
            }
            fn pc_slot() -> usize {
                37
            }
            fn pc_big(r: &Regs<Self>) -> u128 {
                r.pc() as u128
            }
            fn desc(id: Rid<Self>) -> String {
                mips_desc(id)
            }
            fn more(id: usize) -> Option<(String, usize)> {
                mips_more(core::mem::size_of::<$u>(), id)
            }
            fn features() -> &'static [&'static str] {
                $feat
            }
        }
    };
}
fn mips_plain<U: HU>() -> Vec<Slot<ga::mips::reg::MipsCoreRegs<U>>> {
    let mut v = vec![];
    mips_core::<U>(&mut v);
    v
}
mips!(Mips32, Mips, u32, Some("mips"), mips_plain::<u32>(), &[]);
mips!(Mips64, Mips64, u64, None, mips_plain::<u64>(), &[]);
mips!(Mips32D, MipsWithDsp, u32, Some("mips"), mips_dsp::<u32>(), &["org.gnu.gdb.mips.dsp"]);
mips!(Mips64D, Mips64WithDsp, u64, None, mips_dsp::<u64>(), &[]);

fn msp_slots<U: HU>() -> Vec<Slot<ga::msp430::reg::Msp430Regs<U>>> {
    let n = (U::BITS / 8) as usize;
    let mut v: Vec<Slot<ga::msp430::reg::Msp430Regs<U>>> = vec![];
    macro_rules! s {
        ($name:expr, $($f:tt)+) => {
            v.push(Slot { name: $name.into(), size: n, set: Some(Box::new(move |r, x| r.$($f)+ = U::from_big(x))), id: true })
        };
    }
    s!("Pc", pc);
    s!("Sp", sp);
    s!("Sr", sr);
    v.push(gap("Cg".into(), n, true));
    for i in 0..12 {
        v.push(Slot { name: format!("Gpr({})", i), size: n, set: Some(Box::new(move |r, x| r.r[i] = U::from_big(x))), id: true });
    }
    v
}
fn msp_desc<U: core::fmt::Debug>(id: ga::msp430::reg::id::Msp430RegId<U>) -> String {
    use ga::msp430::reg::id::Msp430RegId::*;
    match id {
        Pc => "Pc".into(),
        Sp => "Sp".into(),
        Sr => "Sr".into(),
        Cg => "Cg".into(),
        Gpr(i) => format!("Gpr({})", i),
        x => format!("? {:?}", x),
    }
}
macro_rules! msp {
    ($t:ident, $a:ident, $u:ty, $name:expr) => {
        pub struct $t;
        impl Spec for $t {
            type A = ga::msp430::$a;
            const ARCH_NAME: Option<&'static str> = Some($name);
            const ZERO_GAPS: bool = true;
            fn slots() -> Vec<Slot<Regs<Self>>> {
                msp_slots::<$u>()
            }
            fn pc_slot() -> usize {
                0
            }
            fn pc_big(r: &Regs<Self>) -> u128 {
                r.pc() as u128
            }
            fn desc(id: Rid<Self>) -> String {
                msp_desc(id)
            }
        }
    };
}
msp!(Msp, Msp430, u16, "msp430");
msp!(MspX, Msp430X, u32, "msp430x");

pub struct Ppc;
impl Spec for Ppc {
    type A = ga::ppc::PowerPcAltivec32<()>;
    const ARCH_NAME: Option<&'static str> = Some("powerpc:common");
    const BE: bool = true;
    const EXACT: bool = false;
    fn slots() -> Vec<Slot<Regs<Self>>> {
        let mut v: Vec<Slot<Regs<Self>>> = vec![];
        for i in 0..32 {
            sl!(v, format!("r{}", i), 4, r[i]);
        }
        for i in 0..32 {
            v.push(Slot { name: format!("f{}", i), size: 8, set: Some(Box::new(move |r, x| r.f[i] = f64::from_bits(x as u64))), id: true });
        }
        sl!(v, "pc", 4, pc);
        sl!(v, "msr", 4, msr);
        sl!(v, "cr", 4, cr);
        sl!(v, "lr", 4, lr);
        sl!(v, "ctr", 4, ctr);
        sl!(v, "xer", 4, xer);
        sl!(v, "fpscr", 4, fpscr);
        for i in 0..32 {
            sl!(v, format!("vr{}", i), 16, vr[i]);
        }
        sl!(v, "vscr", 4, vscr);
        sl!(v, "vrsave", 4, vrsave);
        v
    }
    fn pc_slot() -> usize {
        64
    }
    fn pc_big(r: &Regs<Self>) -> u128 {
        r.pc() as u128
    }
    fn desc(_: ()) -> String {
        "()".into()
    }
    fn has_ids() -> bool {
        false
    }
    fn features() -> &'static [&'static str] {
        &["org.gnu.gdb.power.core", "org.gnu.gdb.power.fpu", "org.gnu.gdb.power.altivec"]
    }
}

const RV: &[&str] = &[
    "zero", "ra", "sp", "gp", "tp", "t0", "t1", "t2", "fp", "s1", "a0", "a1", "a2", "a3", "a4", "a5", "a6", "a7", "s2",
    "s3", "s4", "s5", "s6", "s7", "s8", "s9", "s10", "s11", "t3", "t4", "t5", "t6", "pc",
];
fn rv_slots<U: HU>() -> Vec<Slot<ga::riscv::reg::RiscvCoreRegs<U>>> {
    let n = (U::BITS / 8) as usize;
    let mut v: Vec<Slot<ga::riscv::reg::RiscvCoreRegs<U>>> = vec![];
    for i in 0..32 {
        v.push(Slot { name: format!("Gpr({})", i), size: n, set: Some(Box::new(move |r, x| r.x[i] = U::from_big(x))), id: true });
    }
    v.push(Slot { name: "Pc".into(), size: n, set: Some(Box::new(move |r, x| r.pc = U::from_big(x))), id: true });
    v
}
macro_rules! rv {
    ($t:ident, $a:ident, $u:ty) => {
        pub struct $t;
        impl Spec for $t {
            type A = ga::riscv::$a;
            const ARCH_NAME: Option<&'static str> = Some("");
            fn slots() -> Vec<Slot<Regs<Self>>> {
                rv_slots::<$u>()
            }
            fn pc_slot() -> usize {
                32
            }
            fn pc_big(r: &Regs<Self>) -> u128 {
                r.pc() as u128
            }
            fn desc(id: Rid<Self>) -> String {
                use ga::riscv::reg::id::RiscvRegId::*;
                match id {
                    Gpr(i) => format!("Gpr({})", i),
                    Fpr(i) => format!("Fpr({})", i),
                    Pc => "Pc".into(),
                    Csr(i) => format!("Csr({})", i),
                    Priv => "Priv".into(),
                    x => format!("? {:?}", x),
                }
            }
            fn more(id: usize) -> Option<(String, usize)> {
                const N: usize = core::mem::size_of::<$u>();
                match id {
                    33..=64 => Some((format!("Fpr({})", id - 33), N)),
                    65..=4160 => Some((format!("Csr({})", id - 65), N)),
                    4161 => Some(("Priv".into(), 1)),
                    _ => None,
                }
            }
            fn features() -> &'static [&'static str] {
                &["org.gnu.gdb.riscv.cpu"]
            }
            fn described() -> Vec<(String, usize, usize)> {
                RV.iter().enumerate().map(|(i, n)| (n.to_uppercase(), i, core::mem::size_of::<$u>() * 8)).collect()
            }
        }
    };
}
rv!(Rv32, Riscv32, u32);
rv!(Rv64, Riscv64, u64);

use ga::x86::reg::id::{X86SegmentRegId, X87FpuInternalRegId};
fn seg(s: X86SegmentRegId) -> &'static str {
    use X86SegmentRegId::*;
    match s {
        CS => "CS",
        SS => "SS",
        DS => "DS",
        ES => "ES",
        FS => "FS",
        GS => "GS",
    }
}
fn fpu(s: X87FpuInternalRegId) -> &'static str {
    use X87FpuInternalRegId::*;
    match s {
        Fctrl => "Fctrl",
        Fstat => "Fstat",
        Ftag => "Ftag",
        Fiseg => "Fiseg",
        Fioff => "Fioff",
        Foseg => "Foseg",
        Fooff => "Fooff",
        Fop => "Fop",
    }
}
macro_rules! x86_tail {
    ($v:ident, $xmm:expr, $pad:expr) => {
        sl!($v, "CS", 4, segments.cs);
        sl!($v, "SS", 4, segments.ss);
        sl!($v, "DS", 4, segments.ds);
        sl!($v, "ES", 4, segments.es);
        sl!($v, "FS", 4, segments.fs);
        sl!($v, "GS", 4, segments.gs);
        for i in 0..8 {
            $v.push(Slot {
                name: format!("St({})", i),
                size: 10,
                set: Some(Box::new(move |r, x| r.st[i].copy_from_slice(&x.to_le_bytes()[..10]))),
                id: true,
            });
        }
        sl!($v, "Fctrl", 4, fpu.fctrl);
        sl!($v, "Fstat", 4, fpu.fstat);
        sl!($v, "Ftag", 4, fpu.ftag);
        sl!($v, "Fiseg", 4, fpu.fiseg);
        sl!($v, "Fioff", 4, fpu.fioff);
        sl!($v, "Foseg", 4, fpu.foseg);
        sl!($v, "Fooff", 4, fpu.fooff);
        sl!($v, "Fop", 4, fpu.fop);
        for i in 0..$xmm {
            sl!($v, format!("Xmm({})", i), 16, xmm[i]);
        }
        sl!($v, "Mxcsr", 4, mxcsr);
        $v.push(gap("".into(), $pad, false));
    };
}
pub struct X32;
impl Spec for X32 {
    type A = ga::x86::X86_SSE;
    const ARCH_NAME: Option<&'static str> = Some("i386:intel");
    fn slots() -> Vec<Slot<Regs<Self>>> {
        let mut v: Vec<Slot<Regs<Self>>> = vec![];
        sl!(v, "Eax", 4, eax);
        sl!(v, "Ecx", 4, ecx);
        sl!(v, "Edx", 4, edx);
        sl!(v, "Ebx", 4, ebx);
        sl!(v, "Esp", 4, esp);
        sl!(v, "Ebp", 4, ebp);
        sl!(v, "Esi", 4, esi);
        sl!(v, "Edi", 4, edi);
        sl!(v, "Eip", 4, eip);
        sl!(v, "Eflags", 4, eflags);
        x86_tail!(v, 8, 4);
        v
    }
    fn pc_slot() -> usize {
        8
    }
    fn pc_big(r: &Regs<Self>) -> u128 {
        r.pc() as u128
    }
    fn desc(id: Rid<Self>) -> String {
        use ga::x86::reg::id::X86CoreRegId::*;
        match id {
            Eax => "Eax".into(),
            Ecx => "Ecx".into(),
            Edx => "Edx".into(),
            Ebx => "Ebx".into(),
            Esp => "Esp".into(),
            Ebp => "Ebp".into(),
            Esi => "Esi".into(),
            Edi => "Edi".into(),
            Eip => "Eip".into(),
            Eflags => "Eflags".into(),
            Segment(s) => seg(s).into(),
            St(i) => format!("St({})", i),
            Fpu(x) => fpu(x).into(),
            Xmm(i) => format!("Xmm({})", i),
            Mxcsr => "Mxcsr".into(),
            x => format!("? {:?}", x),
        }
    }
    fn features() -> &'static [&'static str] {
        &["org.gnu.gdb.i386.sse"]
    }
}
pub struct X64;
impl Spec for X64 {
    type A = ga::x86::X86_64_SSE;
    const ARCH_NAME: Option<&'static str> = Some("i386:x86-64");
    fn slots() -> Vec<Slot<Regs<Self>>> {
        let mut v: Vec<Slot<Regs<Self>>> = vec![];
        for i in 0..16 {
            sl!(v, format!("Gpr({})", i), 8, regs[i]);
        }
        sl!(v, "Rip", 8, rip);
        sl!(v, "Eflags", 4, eflags);
        x86_tail!(v, 16, 0x18);
        v
    }
    fn pc_slot() -> usize {
        16
    }
    fn pc_big(r: &Regs<Self>) -> u128 {
        r.pc() as u128
    }
    fn desc(id: Rid<Self>) -> String {
        use ga::x86::reg::id::X86_64CoreRegId::*;
        match id {
            Gpr(i) => format!("Gpr({})", i),
            Rip => "Rip".into(),
            Eflags => "Eflags".into(),
            Segment(s) => seg(s).into(),
            St(i) => format!("St({})", i),
            Fpu(x) => fpu(x).into(),
            Xmm(i) => format!("Xmm({})", i),
            Mxcsr => "Mxcsr".into(),
            x => format!("? {:?}", x),
        }
    }
    fn features() -> &'static [&'static str] {
        &["org.gnu.gdb.i386.sse"]
    }
}

/// the types a description may use without a definition
const GDB_TYPES: &[&str] = &[
    "bool", "int", "long", "float", "int8", "int16", "int32", "int64", "int128", "uint8", "uint16", "uint32", "uint64",
    "uint128", "code_ptr", "data_ptr", "ieee_half", "ieee_single", "ieee_double", "arm_fpa_ext", "i387_ext", "bfloat16",
];

/// runs a body once for the architecture the execution chose
macro_rules! for_arch {
    ($ch:ident, $f:ident) => {
        match $ch.choose(13) {
            0 => $f::<Arm>($ch),
            1 => $f::<A64>($ch),
            2 => $f::<Mips32>($ch),
            3 => $f::<Mips64>($ch),
            4 => $f::<Mips32D>($ch),
            5 => $f::<Mips64D>($ch),
            6 => $f::<Msp>($ch),
            7 => $f::<MspX>($ch),
            8 => $f::<Ppc>($ch),
            9 => $f::<Rv32>($ch),
            10 => $f::<Rv64>($ch),
            11 => $f::<X32>($ch),
            _ => $f::<X64>($ch),
        }
    };
}
fn nm<S: Spec>() -> &'static str {
    std::any::type_name::<S>().rsplit("::").next().unwrap()
}

fn ser<Rg: Registers>(r: &Rg) -> Vec<Option<u8>> {
    let mut v = vec![];
    r.gdb_serialize(|b| v.push(b));
    v
}
/// the bytes of a slot holding `x`
fn img(be: bool, size: usize, x: u128) -> Vec<u8> {
    let mut b = x.to_le_bytes()[..size].to_vec();
    if be {
        b.reverse()
    }
    b
}
/// a file from values per slot
fn file<S: Spec>(slots: &[Slot<Regs<S>>], val: &dyn Fn(usize) -> u128) -> Vec<Option<u8>> {
    let mut v = vec![];
    for (i, s) in slots.iter().enumerate() {
        match s.set {
            Some(_) => v.extend(img(S::BE, s.size, val(i)).into_iter().map(Some)),
            None => v.extend(std::iter::repeat_n(None, s.size)),
        }
    }
    v
}
/// what GDB sends back for a file (it has no way to say "unavailable")
fn sent(v: &[Option<u8>], hole: u8) -> Vec<u8> {
    v.iter().map(|b| b.unwrap_or(hole)).collect()
}
/// a value which differs from slot to slot and from byte to byte
fn ramp(slot: usize, size: usize) -> u128 {
    let mut x = 0u128;
    for k in 0..size {
        x |= ((((slot * 29 + k * 17 + 1) % 251) as u128) + 1) << (8 * k);
    }
    x
}
fn fill<S: Spec>(slots: &[Slot<Regs<S>>], val: &dyn Fn(usize) -> u128) -> Regs<S> {
    let mut r = Regs::<S>::default();
    for (i, s) in slots.iter().enumerate() {
        if let Some(set) = &s.set {
            set(&mut r, val(i))
        }
    }
    r
}
fn showf(v: &[Option<u8>]) -> String {
    v.iter().map(|b| b.map_or("--".to_string(), |b| format!("{:02x}", b))).collect()
}

// ===================================================================== C30 ===

static C30: Prop = Prop {
    id: "C30",
    scenes: &[
        Scene { name: "every-byte-of-every-register", body: c30_bytes },
        Scene { name: "every-length", body: c30_len },
        Scene { name: "parts", body: c30_parts },
        Scene { name: "through-a-session", body: c30_session },
    ],
    assumptions: &[
        "the trailing padding some layouts have (x86) may be shortened, it holds no register",
        "a file longer than the layout may be refused or taken, if taken its beginning counts",
        "the value of a register that is only a placeholder (FPA of ARM, CG of MSP430) is not kept",
    ],
};

fn c30_bytes(ch: &mut Ch) -> R {
    for_arch!(ch, c30_bytes_of)
}
fn c30_bytes_of<S: Spec>(ch: &mut Ch) -> R {
    let slots = S::slots();
    let i = ch.choose(slots.len());
    let k = ch.choose(slots[i].size);
    let base = ch.choose(3);
    let stale = ch.choose(2) == 1;
    let name = nm::<S>();
    let bg = |j: usize| match base {
        0 => 0u128,
        1 => ramp(j, slots[j].size),
        _ => ramp(j + 7, slots[j].size) ^ ramp(200, slots[j].size),
    };
    for b in 0..=255u8 {
        let val = |j: usize| {
            if j == i {
                (bg(j) & !(0xff << (8 * k))) | (b as u128) << (8 * k)
            } else {
                bg(j)
            }
        };
        ch.step();
        let what = || format!("{}: register {:?}, byte {} = {:02x}, background {}", name, slots[i].name, k, b, base);
        let want = file::<S>(&slots, &val);
        let regs = fill::<S>(&slots, &val);
        let got = ser(&regs);
        // trailing padding holds no register
        let real = real_len::<S>(&slots);
        if got.len() < real || got[..real] != want[..real] || got[real..].iter().any(|b| b.is_some()) {
            return fail("serialize", format!("{}: file is {} expected {}", what(), showf(&got), showf(&want)));
        }
        let pc = S::pc_big(&regs);
        if pc != val(S::pc_slot()) {
            return fail("pc", format!("{}: pc() is {:x}, expected {:x}", what(), pc, val(S::pc_slot())));
        }
        // and back, into a file that held something else
        let hole = if slots[i].set.is_none() && !S::ZERO_GAPS { b } else { 0 };
        let mut bytes = sent(&want, 0);
        if slots[i].set.is_none() {
            let off: usize = slots[..i].iter().map(|s| s.size).sum();
            bytes[off + k] = hole;
        }
        let mut back = if stale { fill::<S>(&slots, &|j| !ramp(j + 3, slots[j].size) & mask(slots[j].size)) } else { Regs::<S>::default() };
        if back.gdb_deserialize(&bytes).is_err() {
            return fail("deserialize", format!("{}: its own register file was refused", what()));
        }
        if ser(&back)[..real] != want[..real] || S::EXACT && back != regs {
            return fail("deserialize", format!("{}: came back as {:?}", what(), back));
        }
    }
    ch.outcome(&(name, i, k));
    ch.state(&(name, i, k, base, stale));
    Ok(())
}
fn mask(size: usize) -> u128 {
    if size == 16 {
        u128::MAX
    } else {
        (1 << (8 * size)) - 1
    }
}
/// length up to the end of the last register that counts
fn real_len<S: Spec>(slots: &[Slot<Regs<S>>]) -> usize {
    slots.iter().filter(|s| s.id).map(|s| s.size).sum()
}

fn c30_len(ch: &mut Ch) -> R {
    for_arch!(ch, c30_len_of)
}
fn c30_len_of<S: Spec>(ch: &mut Ch) -> R {
    let slots = S::slots();
    let full: usize = slots.iter().map(|s| s.size).sum();
    let real = real_len::<S>(&slots);
    let n = ch.choose(full + 41);
    let fillb = ch.pick(&[0u8, 1, 0xff]);
    let stale = ch.choose(2) == 1;
    let val = |j: usize| ramp(j, slots[j].size);
    let mut bytes = sent(&file::<S>(&slots, &val), 0);
    bytes.resize(full + 41, fillb);
    bytes.truncate(n);
    let mut r = if stale { fill::<S>(&slots, &|j| ramp(j + 5, slots[j].size)) } else { Regs::<S>::default() };
    let res = r.gdb_deserialize(&bytes);
    ch.state(&(nm::<S>(), n, fillb, res.is_ok()));
    ch.outcome(&(nm::<S>(), n, res.is_ok()));
    if n < real && res.is_ok() {
        return fail("short-file", format!("{}: a file of {} bytes was accepted, {} are needed", nm::<S>(), n, real));
    }
    if n == full && res.is_err() {
        return fail("full-file", format!("{}: a file of the proper length ({}) was refused", nm::<S>(), n));
    }
    if res.is_ok() {
        let want = fill::<S>(&slots, &val);
        if ser(&r) != ser(&want) {
            return fail("misread", format!("{}: a file of {} bytes was misread as {:?}", nm::<S>(), n, r));
        }
    }
    // placeholder registers that have to be zero
    if S::ZERO_GAPS && n == full {
        let mut off = 0;
        for s in &slots {
            if s.set.is_none() {
                for k in 0..s.size {
                    for bit in 0..8 {
                        let mut b = bytes.clone();
                        b[off + k] = 1 << bit;
                        if r.gdb_deserialize(&b).is_ok() {
                            return fail("nonzero-constant", format!("{}: {} may be set", nm::<S>(), s.name));
                        }
                    }
                }
            }
            off += s.size;
        }
    }
    Ok(())
}

/// The register groups x86 is made of are register files of their own.
fn c30_parts(ch: &mut Ch) -> R {
    use ga::x86::reg::*;
    let which = ch.flag();
    fn go<Rg: Registers>(ch: &mut Ch, set: &[fn(&mut Rg, u32)], zero_pc: impl Fn(&Rg) -> bool) -> R {
        let i = ch.choose(set.len());
        let k = ch.choose(4);
        for b in 0..=255u8 {
            let v = |j: usize| if j == i { (ramp(j, 4) as u32 & !(0xff << (8 * k))) | (b as u32) << (8 * k) } else { ramp(j, 4) as u32 };
            let mut r = Rg::default();
            let mut want = vec![];
            for (j, s) in set.iter().enumerate() {
                s(&mut r, v(j));
                want.extend(v(j).to_le_bytes());
            }
            let got = ser(&r);
            if got != want.iter().map(|b| Some(*b)).collect::<Vec<_>>() {
                return fail("part", format!("{:?} serialises as {}", r, showf(&got)));
            }
            let mut back = Rg::default();
            if back.gdb_deserialize(&want).is_err() || back != r || !zero_pc(&r) {
                return fail("part", format!("{:?} came back as {:?}", r, back));
            }
        }
        let mut r = Rg::default();
        for n in 0..set.len() * 4 {
            if r.gdb_deserialize(&vec![1; n]).is_ok() {
                return fail("part-short", format!("{} bytes accepted", n));
            }
        }
        ch.state(&(i, k, set.len()));
        Ok(())
    }
    if which {
        go::<X86SegmentRegs>(ch, &[|r, v| r.cs = v, |r, v| r.ss = v, |r, v| r.ds = v, |r, v| r.es = v, |r, v| r.fs = v, |r, v| r.gs = v], |r| r.pc() == 0)
    } else {
        go::<X87FpuInternalRegs>(
            ch,
            &[
                |r, v| r.fctrl = v,
                |r, v| r.fstat = v,
                |r, v| r.ftag = v,
                |r, v| r.fiseg = v,
                |r, v| r.fioff = v,
                |r, v| r.foseg = v,
                |r, v| r.fooff = v,
                |r, v| r.fop = v,
            ],
            |r| r.pc() == 0,
        )
    }
}

// ------------------------------------------------- a target over any arch ---

struct ATgt<S: Spec> {
    regs: Regs<S>,
    sra: bool,
    /// what was asked of the single registers
    log: Vec<(String, Vec<u8>)>,
}
impl<S: Spec> Target for ATgt<S> {
    type Arch = S::A;
    type Error = u32;
    fn base_ops(&mut self) -> BaseOps<'_, S::A, u32> {
        BaseOps::SingleThread(self)
    }
    fn guard_rail_implicit_sw_breakpoints(&self) -> bool {
        true
    }
}
impl<S: Spec> SingleThreadBase for ATgt<S> {
    fn read_registers(&mut self, regs: &mut Regs<S>) -> TargetResult<(), Self> {
        *regs = self.regs.clone();
        Ok(())
    }
    fn write_registers(&mut self, regs: &Regs<S>) -> TargetResult<(), Self> {
        self.regs = regs.clone();
        Ok(())
    }
    fn read_addrs(&mut self, _: <S::A as Arch>::Usize, _: &mut [u8]) -> TargetResult<usize, Self> {
        Err(TargetError::NonFatal)
    }
    fn write_addrs(&mut self, _: <S::A as Arch>::Usize, _: &[u8]) -> TargetResult<(), Self> {
        Err(TargetError::NonFatal)
    }
    fn support_single_register_access(&mut self) -> Option<SingleRegisterAccessOps<'_, (), Self>> {
        if self.sra {
            Some(self)
        } else {
            None
        }
    }
}
fn reg_bytes(name: &str, size: usize) -> Vec<u8> {
    (0..size).map(|k| (hash_of(&(name, k)) % 255) as u8).collect()
}
impl<S: Spec> SingleRegisterAccess<()> for ATgt<S> {
    fn read_register(&mut self, _: (), id: Rid<S>, buf: &mut [u8]) -> TargetResult<usize, Self> {
        let d = S::desc(id);
        let b = reg_bytes(&d, buf.len());
        buf.copy_from_slice(&b);
        self.log.push((d, vec![]));
        Ok(buf.len())
    }
    fn write_register(&mut self, _: (), id: Rid<S>, val: &[u8]) -> TargetResult<(), Self> {
        self.log.push((S::desc(id), val.to_vec()));
        Ok(())
    }
}

fn c30_session(ch: &mut Ch) -> R {
    for_arch!(ch, c30_session_of)
}
fn c30_session_of<S: Spec>(ch: &mut Ch) -> R {
    let slots = S::slots();
    let shift = ch.choose(3);
    let val = |j: usize| ramp(j + shift * 11, slots[j].size);
    let want = file::<S>(&slots, &val);
    let real = real_len::<S>(&slots);
    let mut t = ATgt::<S> { regs: Regs::<S>::default(), sra: ch.flag(), log: vec![] };
    let mut s = Sess::new(&mut t, 4096);
    let mut g = b"G".to_vec();
    g.extend(hex(&sent(&want, 0)).bytes());
    s.cmd(ch, &mut t, &g).expect(&Exp::ok())?;
    if S::EXACT && t.regs != fill::<S>(&slots, &val) {
        return fail("session-G", format!("{}: G stored {:?}", nm::<S>(), t.regs));
    }
    let r = s.s(ch, &mut t, "g").reply()?;
    let text: Vec<u8> = want[..real].iter().flat_map(|b| b.map_or(b"xx".to_vec(), |b| hex(&[b]).into_bytes())).collect();
    if r.len() < text.len() || r[..text.len()] != text[..] || r[text.len()..].iter().any(|b| *b != b'x') {
        return fail("session-g", format!("{}: g returned {} expected {}", nm::<S>(), show(&r), show(&text)));
    }
    // too short
    let n = ch.choose(3);
    let mut g = b"G".to_vec();
    g.extend(hex(&sent(&want, 0)[..real - 1 - n]).bytes());
    let before = t.regs.clone();
    let rep = s.cmd(ch, &mut t, &g);
    if rep.st == St::Idle {
        let r = rep.reply()?;
        if !is_err(&r) {
            return fail("session-short", format!("{}: a short G got {}", nm::<S>(), show(&r)));
        }
    }
    if S::EXACT && t.regs != before {
        return fail("session-short", format!("{}: a short G changed the registers", nm::<S>()));
    }
    Ok(())
}

// ===================================================================== C31 ===

static C31: Prop = Prop {
    id: "C31",
    scenes: &[
        Scene { name: "every-number", body: c31_ids },
        Scene { name: "numbers-with-findings", body: c31_odd },
        Scene { name: "single-access-agrees", body: c31_session },
        Scene { name: "description", body: c31_xml },
        Scene { name: "system-registers", body: c31_sys },
        Scene { name: "breakpoint-kinds", body: c31_kinds },
    ],
    assumptions: &["the tables of the harness are those of GDB's feature descriptions"],
};

fn expected<S: Spec>(slots: &[Slot<Regs<S>>], id: usize) -> Option<(String, usize)> {
    if !S::has_ids() {
        return None;
    }
    let n = slots.iter().filter(|s| s.id).count();
    if id < n {
        Some((slots[id].name.clone(), slots[id].size))
    } else {
        S::more(id)
    }
}
const BLOCK: usize = 0x100;
const BLOCKS: usize = 0x300;
fn block(ch: &mut Ch) -> Vec<usize> {
    let k = ch.choose(BLOCKS + 2);
    if k < BLOCKS {
        (k * BLOCK..(k + 1) * BLOCK).collect()
    } else if k == BLOCKS {
        // numbers that fall on a valid one if any upper bits get lost
        (18..64).flat_map(|b| (0..82).map(move |x| (1usize << b) + x)).collect()
    } else {
        (0..0x200).map(|x| usize::MAX - x).collect()
    }
}
fn c31_ids(ch: &mut Ch) -> R {
    for_arch!(ch, c31_ids_of)
}
fn check_id<S: Spec>(slots: &[Slot<Regs<S>>], id: usize) -> R {
    let got = Rid::<S>::from_raw_id(id).map(|(r, n)| (S::desc(r), n));
    let want = expected::<S>(slots, id).map(|(d, n)| (d, NonZeroUsize::new(n)));
    if got != want {
        let sig = if S::odd(id) && got == want.clone().map(|(d, _)| (d, NonZeroUsize::new(8))) { "aarch64-fpsr-fpcr-size" } else { "id" };
        return fail(sig, format!("{}: number {:#x} is {:?}, expected {:?}", nm::<S>(), id, got, want));
    }
    Ok(())
}
fn c31_ids_of<S: Spec>(ch: &mut Ch) -> R {
    let slots = S::slots();
    for id in block(ch) {
        ch.step();
        if !S::odd(id) {
            check_id::<S>(&slots, id)?;
        }
    }
    Ok(())
}
fn c31_odd(ch: &mut Ch) -> R {
    let slots = A64::slots();
    let id = ch.pick(&[66, 67]);
    check_id::<A64>(&slots, id)
}

fn c31_session(ch: &mut Ch) -> R {
    for_arch!(ch, c31_session_of)
}
fn c31_session_of<S: Spec>(ch: &mut Ch) -> R {
    if !S::has_ids() {
        return Ok(());
    }
    let slots = S::slots();
    let ids: Vec<usize> = (0..slots.len() + 10).chain([0x8000, 0xc000, 0xffff, 0x10000, 4160, 4161, 4162, 256, 65536 + 3]).collect();
    let id = ch.pick(&ids);
    if S::odd(id) {
        return Ok(());
    }
    let mut t = ATgt::<S> { regs: Regs::<S>::default(), sra: true, log: vec![] };
    let mut s = Sess::new(&mut t, 4096);
    let rep = s.s(ch, &mut t, &format!("p{:x}", id));
    match expected::<S>(&slots, id) {
        Some((d, n)) => {
            rep.expect(&Exp::s(hex(&reg_bytes(&d, n))))?;
            if t.log != vec![(d.clone(), vec![])] {
                return fail("session-p", format!("{}: p{:x} asked for {:?}", nm::<S>(), id, t.log));
            }
            let v: Vec<u8> = (0..n as u8).map(|x| x.wrapping_mul(37) ^ 0x91).collect();
            t.log.clear();
            s.s(ch, &mut t, &format!("P{:x}={}", id, hex(&v))).expect(&Exp::ok())?;
            if t.log != vec![(d, v)] {
                return fail("session-P", format!("{}: P{:x} stored {:?}", nm::<S>(), id, t.log));
            }
        }
        None => {
            if rep.st == St::Idle {
                let r = rep.reply()?;
                if !r.is_empty() && !is_err(&r) {
                    return fail("session-p", format!("{}: unknown register {:x} answered {}", nm::<S>(), id, show(&r)));
                }
            }
            if !t.log.is_empty() {
                return fail("session-p", format!("{}: unknown register {:x} reached the target", nm::<S>(), id));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------- description ---

#[derive(Debug)]
enum Tok {
    Open(String, BTreeMap<String, String>, bool),
    Close(String),
    Text(String),
}
/// enough of an XML parser for target descriptions
fn xml(s: &str) -> Result<Vec<Tok>, String> {
    let mut v = vec![];
    let mut rest = s;
    while !rest.is_empty() {
        if let Some(r) = rest.strip_prefix("<!--") {
            let e = r.find("-->").ok_or("open comment")?;
            rest = &r[e + 3..];
        } else if let Some(r) = rest.strip_prefix("<?") {
            let e = r.find("?>").ok_or("open <?")?;
            if rest.as_ptr() != s.as_ptr() {
                return Err("<?xml is not at the start".into());
            }
            rest = &r[e + 2..];
        } else if let Some(r) = rest.strip_prefix("<!DOCTYPE") {
            let e = r.find('>').ok_or("open <!")?;
            if !v.is_empty() {
                return Err("DOCTYPE inside of the document".into());
            }
            let n = r[..e].split_whitespace().next().unwrap_or("");
            if n != "target" {
                return Err(format!("document type {}", n));
            }
            rest = &r[e + 1..];
        } else if let Some(r) = rest.strip_prefix("</") {
            let e = r.find('>').ok_or("open </")?;
            v.push(Tok::Close(r[..e].trim().into()));
            rest = &r[e + 1..];
        } else if let Some(r) = rest.strip_prefix('<') {
            let e = r.find('>').ok_or("open <")?;
            let mut body = r[..e].trim();
            let empty = body.ends_with('/');
            if empty {
                body = body[..body.len() - 1].trim();
            }
            let (name, mut at) = body.split_once(char::is_whitespace).unwrap_or((body, ""));
            let mut m = BTreeMap::new();
            loop {
                at = at.trim_start();
                if at.is_empty() {
                    break;
                }
                let (k, r2) = at.split_once('=').ok_or(format!("attribute in {:?}", body))?;
                let r2 = r2.trim_start();
                let q = r2.chars().next().ok_or("attribute value")?;
                if q != '"' && q != '\'' {
                    return Err(format!("unquoted attribute in {:?}", body));
                }
                let e2 = r2[1..].find(q).ok_or(format!("open quote in {:?}", body))?;
                if m.insert(k.trim().to_string(), r2[1..1 + e2].to_string()).is_some() {
                    return Err(format!("attribute given twice in {:?}", body));
                }
                at = &r2[e2 + 2..];
            }
            v.push(Tok::Open(name.into(), m, empty));
            rest = &r[e + 1..];
        } else {
            let e = rest.find('<').unwrap_or(rest.len());
            if !rest[..e].trim().is_empty() {
                v.push(Tok::Text(rest[..e].trim().into()));
            }
            rest = &rest[e..];
        }
    }
    Ok(v)
}

fn c31_xml(ch: &mut Ch) -> R {
    for_arch!(ch, c31_xml_of)
}
fn c31_xml_of<S: Spec>(ch: &mut Ch) -> R {
    let name = nm::<S>();
    // as the client reads it
    let mut t = ATgt::<S> { regs: Regs::<S>::default(), sra: false, log: vec![] };
    let mut s = Sess::new(&mut t, 4096);
    let chunk = ch.pick(&[0x40usize, 0x7f0, 0x1000]);
    let mut doc = vec![];
    loop {
        let r = s.s(ch, &mut t, &format!("qXfer:features:read:target.xml:{:x},{:x}", doc.len(), chunk)).reply()?;
        match (r.first(), S::A::target_description_xml()) {
            (None, None) if S::ARCH_NAME.is_none() => return Ok(()),
            (Some(k @ (b'm' | b'l')), _) => {
                doc.extend(&r[1..]);
                if *k == b'l' {
                    break;
                }
                if r.len() == 1 {
                    return fail("xml", format!("{}: the transfer does not end", name));
                }
            }
            _ => return fail("xml", format!("{}: reply {:?} while reading the description", name, show(&r))),
        }
    }
    let Ok(doc) = String::from_utf8(doc) else { return fail("xml", format!("{}: not UTF-8", name)) };
    let bad = |m: String| fail("xml", format!("{}: {}", name, m));
    let toks = match xml(&doc) {
        Ok(t) => t,
        Err(e) => return bad(e),
    };
    let mut stack: Vec<String> = vec![];
    let mut arch = None;
    let mut feats: Vec<String> = vec![];
    // types are known from their definition to the end of the feature
    let mut types: Vec<String> = vec![];
    let mut regs: Vec<(String, usize, usize)> = vec![];
    let mut next = 0usize;
    let mut done = false;
    for t in &toks {
        match t {
            Tok::Open(n, at, empty) => {
                if done {
                    return bad(format!("<{}> after the end of the document", n));
                }
                let parent = stack.last().map_or("", |s| s.as_str());
                let ok = match n.as_str() {
                    "target" => parent.is_empty(),
                    "architecture" | "feature" | "osabi" | "compatible" => parent == "target",
                    "reg" | "vector" | "union" | "struct" | "flags" | "enum" => parent == "feature",
                    "field" => ["union", "struct", "flags"].contains(&parent),
                    "evalue" => parent == "enum",
                    _ => false,
                };
                if !ok {
                    return bad(format!("<{}> inside of <{}>", n, parent));
                }
                if n == "target" && at.get("version").map_or(false, |v| v != "1.0") {
                    return bad(format!("GDB accepts version 1.0 of the format only, not {:?}", at.get("version")));
                }
                if ["vector", "union", "struct", "flags", "enum"].contains(&n.as_str()) {
                    match at.get("id") {
                        Some(id) if !id.is_empty() && !types.contains(id) => types.push(id.clone()),
                        id => return bad(format!("<{}> with the id {:?}", n, id)),
                    }
                }
                if let (true, Some(ty)) = (["reg", "field", "vector"].contains(&n.as_str()), at.get("type")) {
                    if !GDB_TYPES.contains(&ty.as_str()) && !types.contains(ty) {
                        return bad(format!("the type {:?} is not defined", ty));
                    }
                }
                if n == "feature" {
                    types.clear();
                    feats.push(at.get("name").cloned().unwrap_or_default());
                }
                if n == "reg" {
                    let num = match at.get("regnum") {
                        None => next,
                        Some(x) => match x.parse() {
                            Ok(x) => x,
                            Err(_) => return bad(format!("regnum {:?}", x)),
                        },
                    };
                    next = num + 1;
                    let Some(bits) = at.get("bitsize").and_then(|b| b.parse().ok()) else { return bad(format!("no bitsize in {:?}", at)) };
                    regs.push((at.get("name").cloned().unwrap_or_default().to_uppercase(), num, bits));
                }
                if !empty {
                    stack.push(n.clone());
                } else if stack.is_empty() {
                    done = true;
                }
            }
            Tok::Close(n) => {
                if stack.pop().as_ref() != Some(n) {
                    return bad(format!("</{}> closes nothing", n));
                }
                done = stack.is_empty();
            }
            Tok::Text(x) => {
                if stack.last().map(|s| s.as_str()) == Some("architecture") {
                    arch = Some(x.clone());
                } else {
                    return bad(format!("stray text {:?}", x));
                }
            }
        }
    }
    if !done {
        return bad("the document does not end".into());
    }
    ch.outcome(&(name, regs.len()));
    match S::ARCH_NAME {
        Some("") => {}
        x => {
            if arch.as_deref() != x {
                return bad(format!("architecture {:?}, expected {:?}", arch, x));
            }
        }
    }
    let mut f1 = feats.clone();
    f1.sort();
    let mut f2: Vec<String> = S::features().iter().map(|s| s.to_string()).collect();
    f2.sort();
    if f1 != f2 {
        return bad(format!("features {:?}, expected {:?}", feats, S::features()));
    }
    let mut want = S::described();
    want.sort();
    regs.sort();
    if let Some((a, b)) = regs.iter().zip(&want).find(|(a, b)| a != b) {
        return bad(format!("the description has {:?}, expected {:?}", a, b));
    }
    if regs.len() != want.len() {
        return bad(format!("{} registers, expected {}", regs.len(), want.len()));
    }
    // the numbers of the description are known, with the described size
    for (n, num, bits) in &regs {
        if S::odd(*num) {
            continue;
        }
        match Rid::<S>::from_raw_id(*num) {
            Some((_, Some(sz))) if sz.get() * 8 == *bits => {}
            x => return bad(format!("register {} has number {} and {} bits, the id is {:?}", n, num, bits, x)),
        }
    }
    Ok(())
}

fn c31_sys(ch: &mut Ch) -> R {
    use ga::aarch64::reg::id::AArch64RegId as A;
    let i = ch.choose(SYS.len());
    let (name, c, enc) = SYS[i];
    if c != A::System(enc) {
        return fail("sysreg", format!("{} is {:?}, its encoding is {:#x}", name, c, enc));
    }
    if c.len() != Some(8) {
        return fail("sysreg", format!("{} has length {:?}", name, c.len()));
    }
    for (n, o, _) in &SYS[..i] {
        let pair = |p: &str, q: &str| name.starts_with(q) && n.starts_with(p) && name[3..] == n[3..];
        let dtr = *n == "DBGDTRRX_EL0" && name == "DBGDTRTX_EL0" || name == "DBGDTRRX_EL0" && *n == "DBGDTRTX_EL0";
        if *o == c && !pair("ICC", "ICV") && !pair("ICV", "ICC") && !dtr {
            return fail("sysreg", format!("{} and {} are the same", name, n));
        }
    }
    ch.state(&i);
    Ok(())
}

fn c31_kinds(ch: &mut Ch) -> R {
    let lo = ch.choose(0x400) * 0x100;
    let edge = [1usize << 32, 1 << 16, 1 << 31, usize::MAX - 9, 1 << 63];
    for k in (lo..lo + 0x100).chain(edge.iter().flat_map(|e| (0..10).map(move |x| e + x))) {
        ch.step();
        use ga::arm::ArmBreakpointKind as K;
        use ga::mips::MipsBreakpointKind as M;
        let a = match K::from_usize(k) {
            None => 0,
            Some(K::Thumb16) => 2,
            Some(K::Thumb32) => 3,
            Some(K::Arm32) => 4,
        };
        let m = match M::from_usize(k) {
            None => 0,
            Some(M::Mips16) => 2,
            Some(M::MicroMips16) => 3,
            Some(M::Mips32) => 4,
            Some(M::MicroMips32) => 5,
        };
        let aw = if (2..=4).contains(&k) { k } else { 0 };
        let mw = if (2..=5).contains(&k) { k } else { 0 };
        if (a, m) != (aw, mw) {
            return fail("kind", format!("breakpoint kind {:#x}: ARM {} MIPS {}", k, a, m));
        }
        if <usize as BreakpointKind>::from_usize(k) != Some(k) {
            return fail("kind", format!("usize breakpoint kind {:#x} changes", k));
        }
        if <() as BreakpointKind>::from_usize(k).is_some() != (k == 0) {
            return fail("kind", format!("breakpoint kind {:#x} and an architecture without kinds", k));
        }
        if <() as RegId>::from_raw_id(k).is_some() {
            return fail("no-registers", format!("register {:#x} of an architecture without register ids", k));
        }
    }
    Ok(())
}
