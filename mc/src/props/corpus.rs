//! Valid packets of every kind the library understands, and a rich target
//! for them.  Used by the properties that quantify over "any command".

use crate::target::*;

/// a bounded, fully featured target
pub fn rich<U: HU>(fl: u64) -> Tgt<U> {
    let mut t = Tgt::<U>::new(fl);
    t.mem_lo = 0x10;
    t.mem_hi = 0x8f;
    t.threads = vec![1, 2, 0x1f];
    t.blob = b"<xml a='$#}*'>aaaaaaaaaaaaaaaa</xml>".to_vec();
    t.monitor_out = vec![Some(b"hi".to_vec()), None, Some(b"there".to_vec())];
    t.status = vec![StatusM::Running];
    t.infos = vec![InfoM::Frames(3), InfoM::Circular(true)];
    t.frames = vec![FrameM::Num(2), FrameM::Hit(1)];
    t.tb_chunks = vec![vec![1, 2, 3]];
    t.off_vals = [0x10, 0x20, 0x30];
    t.tps = vec![
        TpM {
            num: 1,
            addr: 0x10,
            enabled: true,
            step: 2,
            pass: 3,
            actions: vec![ActM::Regs(vec![3]), ActM::Expr(vec![1, 2])],
            sources: if fl & f::TSRC != 0 {
                vec![SrcM { kind: 2, start: 0, slen: 3, bytes: b"abc".to_vec() }]
            } else {
                vec![]
            },
        },
        TpM { num: 2, addr: 0x20, enabled: false, step: 0, pass: 0, actions: vec![], sources: vec![] },
    ];
    t
}

pub fn rich_xml() {
    ARCH_XML.with(|c| c.set(Some("<target>arch</target>")));
    ARCH_LLDB.with(|c| {
        c.set(Some(|id| {
            use gdbstub::arch::lldb::*;
            Some(if id < 2 || id == usize::MAX {
                RegisterInfo::Register(Register {
                    name: "r0",
                    alt_name: Some("a0"),
                    bitsize: 32,
                    offset: 0,
                    encoding: Encoding::Uint,
                    format: Format::Hex,
                    set: "General",
                    gcc: Some(0),
                    dwarf: None,
                    generic: Some(Generic::Pc),
                    container_regs: Some(&[1, 2]),
                    invalidate_regs: None,
                })
            } else {
                RegisterInfo::Done
            })
        }))
    });
}

/// Every command family, one well-formed representative of every form.
pub const PACKETS: &[&[u8]] = &[
    b"?",
    b"D",
    b"D;1",
    b"g",
    b"G0102030405060708",
    b"Hg0",
    b"Hg1",
    b"Hgp1.2",
    b"Hc-1",
    b"Hc1",
    b"k",
    b"m10,4",
    b"m80,40",
    b"M10,2:aabb",
    b"qAttached",
    b"qAttached:1",
    b"qfThreadInfo",
    b"qsThreadInfo",
    b"qSupported",
    b"qSupported:multiprocess+;swbreak+;xmlRegisters=i386",
    b"T1",
    b"Tp1.2",
    b"vKill;1",
    b"qXfer:features:read:target.xml:0,20",
    b"c",
    b"c10",
    b"s",
    b"s10",
    b"vCont?",
    b"vCont;c",
    b"vCont;s:1;c",
    b"vCont;C05:p1.1;S0a:2;c:-1",
    b"vCont;r10,20:1;c",
    b"vCont;t:1",
    b"X10,2:\x01\x02",
    b"X10,0:",
    b"X10,3:}\x03}\x0a,",
    b"QStartNoAckMode",
    b"p0",
    b"p3",
    b"p4",
    b"p40",
    b"P2=01020304",
    b"!",
    b"qC",
    b"QDisableRandomization:1",
    b"QEnvironmentHexEncoded:413d42",
    b"QEnvironmentReset",
    b"QEnvironmentUnset:41",
    b"QSetWorkingDir:2f",
    b"QStartupWithShell:0",
    b"R00",
    b"vAttach;1",
    b"vRun;",
    b"vRun;2f61;62;63",
    b"qRcmd,68656c70",
    b"qOffsets",
    b"bc",
    b"bs",
    b"qXfer:memory-map:read::0,20",
    b"qXfer:auxv:read::0,20",
    b"qXfer:exec-file:read:1:0,20",
    b"qXfer:exec-file:read::0,20",
    b"qXfer:libraries-svr4:read::0,20",
    b"vFile:open:2f61,0,1b6",
    b"vFile:close:3",
    b"vFile:pread:3,10,0",
    b"vFile:pwrite:3,0,ab}\x03",
    b"vFile:fstat:3",
    b"vFile:unlink:2f61",
    b"vFile:readlink:2f61",
    b"vFile:setfs:0",
    b"QCatchSyscalls:0",
    b"QCatchSyscalls:1",
    b"QCatchSyscalls:1;1;2a",
    b"qThreadExtraInfo,1",
    b"qThreadExtraInfo,p1.1f",
    b"qRegisterInfo0",
    b"qRegisterInfo5",
    b"QTDPsrc:1:10:cmd:0:3:616263",
    b"QTDP:1:10:E:0:0",
    b"QTDP:1:10:D:1:2-",
    b"QTDP:-1:10:R03",
    b"QTDP:-1:10:X2,0102-",
    b"QTinit",
    b"QTBuffer:circular:1",
    b"QTBuffer:size:-1",
    b"QTBuffer:size:10",
    b"QTStart",
    b"QTStop",
    b"QTFrame:0",
    b"QTFrame:pc:10",
    b"QTFrame:tdp:1",
    b"QTFrame:range:10:20",
    b"QTFrame:outside:10:20",
    b"qTBuffer:0,10",
    b"qTStatus",
    b"qTP:1:10",
    b"qTfP",
    b"qTsP",
    b"qTfV",
    b"qTsV",
    b"Z0,10,4",
    b"z0,10,4",
    b"Z1,10,4",
    b"z1,10,4",
    b"Z2,10,4",
    b"Z3,10,4",
    b"z4,10,4",
    b"vMustReplyEmpty",
    b"qSymbol::",
    b"",
];
