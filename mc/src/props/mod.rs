use crate::engine::*;
use crate::target::*;

pub mod arch;
pub mod bad;
pub mod arch_sys;
pub mod bps;
pub mod builds;
pub mod conns;
pub mod corpus;
pub mod deleg;
pub mod ext;
pub mod host;
pub mod indep;
pub mod lean;
pub mod memreg;
pub mod neg;
pub mod nums;
pub mod session;
pub mod threads;
pub mod trace;
pub mod wire;
pub mod xfer;

pub fn all() -> Vec<&'static Prop> {
    let mut v: Vec<&'static Prop> = vec![];
    v.extend(session::PROPS.iter().copied());
    v.extend(wire::PROPS.iter().copied());
    v.extend(memreg::PROPS.iter().copied());
    v.extend(threads::PROPS.iter().copied());
    v.extend(neg::PROPS.iter().copied());
    v.extend(bps::PROPS.iter().copied());
    v.extend(ext::PROPS.iter().copied());
    v.extend(host::PROPS.iter().copied());
    v.extend(trace::PROPS.iter().copied());
    v.extend(xfer::PROPS.iter().copied());
    v.extend(nums::PROPS.iter().copied());
    v.extend(deleg::PROPS.iter().copied());
    v.extend(conns::PROPS.iter().copied());
    v.extend(builds::PROPS.iter().copied());
    v.extend(arch::PROPS.iter().copied());
    v.extend(indep::PROPS.iter().copied());
    v
}

/// One of the ways a client may write a number: lower case, upper case, with
/// one or two leading zeros.
pub fn num_style(style: usize, v: u128) -> String {
    match style {
        0 => format!("{:x}", v),
        1 => format!("0{:x}", v),
        2 => format!("{:X}", v),
        3 => format!("00{:X}", v),
        _ => format!("{:024x}", v),
    }
}

/// the log without the calls that only enumerate threads or ask for the pid
pub fn deeds(log: Vec<Call>) -> Vec<Call> {
    log.into_iter().filter(|c| !matches!(c.f, "list_active_threads" | "current_active_pid")).collect()
}

/// fail unless the target saw exactly these calls
pub fn want_calls(log: Vec<Call>, want: &[Call], what: &str) -> R {
    let got = deeds(log);
    if got != want {
        return fail("calls", format!("after {}: the target saw {:x?}, expected {:x?}", what, got, want));
    }
    Ok(())
}

/// interesting addresses of a `BITS`-wide address space
pub fn addrs(bits: u32) -> Vec<u128> {
    let max: u128 = (1u128 << bits) - 1;
    let mut v = vec![0, 1, 0x7f, 0x80, 0xff, max / 2, max / 2 + 1, max - 1, max];
    if bits > 8 {
        v.extend([0x100, 0x1234, 0xfff0, 0xffff]);
    }
    if bits > 16 {
        v.extend([0x10000, 0xdead_beef, 0xffff_0000, 0xffff_ffff]);
    }
    if bits > 32 {
        v.extend([0x1_0000_0000, 0x1122_3344_5566_7788, 0xffff_ffff_0000_0000]);
    }
    v.sort();
    v.dedup();
    v
}

/// lengths around which counters of 8, 10, 12, 15 and 16 bits turn over
pub const LENS: &[usize] = &[
    127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 0x7fff, 0x8000, 0x8001,
    0xfffe, 0xffff, 0x1_0000, 0x1_0001, 70_000,
];

/// A request asked once more does the same and is told the same, however often and between whatever other
/// requests it was made before.  The target's own answers depend on the request alone.
pub fn again(ch: &mut Ch, t: &mut Tgt<u32>, pkts: &[&[u8]]) -> R {
    use crate::sess::*;
    use gdbstub::common::Signal;
    use gdbstub::stub::MultiThreadStopReason as S;
    let two = [pkts[ch.choose(pkts.len())], pkts[ch.choose(pkts.len())]];
    let same = two[0] == two[1];
    let free = !same && ch.flag();
    let n = match (same, free) {
        (false, false) => 270,
        (false, true) => ch.by(6, 9),
        // one request only: far enough for counters of 8 (16) bits
        _ => ch.by(300, 66_000),
    };
    let mut s = Sess::new(t, 512);
    let mut seen: [Option<(Vec<u8>, Vec<Call>)>; 2] = [None, None];
    for i in 0..n {
        let k = if same {
            0
        } else if free {
            ch.choose(2)
        } else {
            i % 2
        };
        t.take_log();
        let mut r = s.cmd(ch, t, two[k]);
        if r.st == St::Running {
            let stop = s.stop(ch, t, S::Signal(Signal::SIGUSR1));
            r.raw.extend(&stop.raw);
            r.st = stop.st;
        }
        if r.st != St::Idle {
            return fail("state", format!("request {} of a row, {}: the session ended: {:?}", i + 1, r.what, r.st));
        }
        let now = (r.raw, t.take_log());
        match &seen[k] {
            None => seen[k] = Some(now),
            Some(was) if *was == now => {}
            Some(was) => {
                return fail(
                    "repeated",
                    format!(
                        "request {} of a row, {}: answered {:?} and the target saw {:x?}; the same request was answered {:?} and the target saw {:x?} before",
                        i + 1,
                        r.what,
                        crate::client::show(&now.0),
                        now.1,
                        crate::client::show(&was.0),
                        was.1
                    ),
                )
            }
        }
    }
    Ok(())
}

macro_rules! again {
    ($($f:ident $fl:expr => [$($p:expr),* $(,)?])*) => {$(
        pub fn $f(ch: &mut Ch) -> R {
            // (C15 is about multi-threaded targets, C16 about the others)
            let fl: u64 = $fl;
            let both = !matches!(stringify!($f), "c15_again" | "c16_again");
            let mut t = corpus::rich::<u32>(if both && ch.flag() { fl ^ f::MULTI } else { fl });
            corpus::rich_xml();
            again(ch, &mut t, &[$($p as &[u8]),*])
        }
    )*};
}

const FM: u64 = f::ALL | f::MULTI;

again! {
    c10_again FM => [b"m10,4", b"m10,5", b"m11,4", b"m12,2", b"m10,0", b"m80,40", b"m90,4", b"m20,1"]
    c11_again FM => [
        b"M10,2:aabb", b"M10,2:aacc", b"M10,1:aa", b"M12,2:aabb", b"M90,1:aa", b"M10,3:aabbcc",
        b"X10,2:\xaa\xbb", b"X10,1:\xaa", b"X10,0:", b"X10,2:}\x03}\x0a", b"X90,1:a",
    ]
    c12_again FM => [b"g", b"G0102030405060708", b"G01020304", b"G0202030405060708", b"m10,4", b"p2"]
    c13_again FM => [b"p2", b"p3", b"p0", b"p40", b"P2=01020304", b"P2=01020305", b"P3=01020304", b"P40=01", b"g"]
    c15_again FM => [
        b"c", b"c10", b"vCont;c", b"vCont;c:1", b"vCont;s:1;c", b"vCont;s:p1.1;s:2;c", b"vCont;C05:1;c", b"vCont;S05:2;c",
        b"vCont;r10,20:1;c", b"vCont;r10,21:1;c", b"vCont;C06:1;c", b"s",
    ]
    c16_again f::ALL => [
        b"c", b"c10", b"s", b"s10", b"vCont;c", b"vCont;s", b"vCont;C05", b"vCont;C06", b"vCont;S05", b"vCont;r10,20", b"vCont;r10,21",
        b"bc", b"bs", b"vCont?",
    ]
    c17_again FM => [
        b"Z0,10,4", b"z0,10,4", b"Z0,11,4", b"z0,11,4", b"Z0,10,2", b"Z1,10,4", b"z1,10,4", b"Z2,10,4", b"z2,10,4", b"Z3,10,4", b"z4,10,4",
        b"Z5,10,4", b"z5,10,4",
    ]
    c19_again FM => [
        b"qfThreadInfo", b"qsThreadInfo", b"T1", b"T2", b"T3", b"T1f", b"Tp1.2", b"Tp2.1", b"qThreadExtraInfo,1", b"qThreadExtraInfo,2",
        b"qThreadExtraInfo,p1.1f", b"qC",
    ]
    c21_again f::PLAIN => [
        b"vFoo", b"qFoo", b"QFoo:1", b"~", b"vMustReplyEmpty", b"p0", b"qRcmd,61", b"vFile:open:61,0,0", b"Z0,10,4", b"bc", b"qTStatus", b"!",
        b"qOffsets", b"vCont?",
    ]
    c22_again FM => [
        b"qXfer:features:read:target.xml:0,20", b"qXfer:features:read:target.xml:1,20", b"qXfer:features:read:target.xml:0,10",
        b"qXfer:features:read:target.xml:20,20", b"qXfer:features:read:target.xml:99,20", b"qXfer:features:read:other.xml:0,20",
        b"qXfer:memory-map:read::0,20", b"qXfer:memory-map:read::10,20", b"qXfer:auxv:read::0,20", b"qXfer:auxv:read::10,20",
        b"qXfer:exec-file:read:1:0,20", b"qXfer:exec-file:read::0,20", b"qXfer:exec-file:read:2:0,20",
        b"qXfer:libraries-svr4:read::0,20", b"qXfer:libraries-svr4:read::10,20",
    ]
    c23_again FM => [
        b"vFile:pread:3,10,0", b"vFile:pread:3,10,1", b"vFile:pread:3,8,0", b"vFile:pread:4,10,0", b"vFile:pread:3,10,99",
        b"vFile:pwrite:3,0,ab", b"vFile:pwrite:3,2,ab", b"vFile:pwrite:3,0,abc", b"vFile:fstat:3", b"vFile:readlink:2f61", b"vFile:unlink:2f61",
        b"vFile:open:2f61,0,1b6", b"vFile:open:2f61,1,1b6", b"vFile:close:3", b"vFile:setfs:0",
    ]
    c24_again FM => [
        b"QEnvironmentHexEncoded:413d42", b"QEnvironmentHexEncoded:413d", b"QEnvironmentUnset:41",
        b"QEnvironmentReset", b"QSetWorkingDir:2f", b"QSetWorkingDir:", b"QStartupWithShell:0", b"QStartupWithShell:1",
        b"QDisableRandomization:1", b"QDisableRandomization:0", b"vRun;2f61;62", b"vRun;", b"vAttach;1", b"vAttach;2", b"!",
        b"qAttached:1",
    ]
    c25_again FM => [
        b"qRcmd,68656c70", b"qRcmd,68656c71", b"qRcmd,68656c", b"qRcmd,", b"qRcmd,6", b"qRcmd,68656c7068656c7068656c70", b"?",
    ]
    c26_again FM => [
        b"QCatchSyscalls:0", b"QCatchSyscalls:1", b"QCatchSyscalls:1;1;2a", b"QCatchSyscalls:1;1", b"QCatchSyscalls:1;2a;1", b"?",
    ]
    c27_again FM => [
        b"QTDP:1:10:E:0:0", b"QTDP:1:10:D:1:2-", b"QTDP:2:10:E:0:0", b"QTDP:-1:10:R03", b"QTDP:-1:10:X2,0102-",
        b"QTDPsrc:1:10:cmd:0:3:616263", b"QTDPsrc:1:10:cmd:3:3:646566", b"QTDPsrc:1:10:at:0:3:616263", b"QTinit", b"qTfV",
    ]
    c28_again FM => [
        b"QTStart", b"QTStop", b"qTStatus", b"QTBuffer:circular:1", b"QTBuffer:circular:0", b"QTBuffer:size:-1", b"QTBuffer:size:10",
        b"QTFrame:0", b"QTFrame:1", b"QTFrame:pc:10", b"QTFrame:tdp:1", b"QTFrame:range:10:20", b"QTFrame:outside:10:20", b"QTFrame:ffffffff",
        b"qTBuffer:0,10", b"qTBuffer:1,10", b"qTP:1:10", b"qTP:2:20",
    ]
}

pub fn c29_again(ch: &mut Ch) -> R {
    let mut t = corpus::rich::<u32>(FM);
    corpus::rich_xml();
    t.offsets = ch.choose(4) as u8;
    again(ch, &mut t, C29_ASKED)
}
const C29_ASKED: &[&[u8]] =
    &[b"qOffsets", b"qRegisterInfo0", b"qRegisterInfo1", b"qRegisterInfo5", b"qC", b"qAttached", b"qAttached:1"];
