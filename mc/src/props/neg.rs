//! C20, C21: what is advertised, and what happens to everything else.

use crate::client::*;
use crate::props::corpus::*;
use crate::props::*;
use crate::sess::*;
use std::collections::BTreeSet;

pub const PROPS: &[&Prop] = &[&C20, &C21];

static C20: Prop = Prop {
    id: "C20",
    scenes: &[
        Scene { name: "every-capability-set", body: c20_adv },
        Scene { name: "packet-size", body: c20_size },
        Scene { name: "advertised-means-works", body: c20_works },
        Scene { name: "client-features", body: c20_client },
        Scene { name: "renegotiation", body: c20_again },
        Scene { name: "many-features", body: c20_many },
        Scene { name: "defaults", body: super::lean::c20_defaults },
        Scene { name: "no-ack-negotiation", body: c20_noack },
    ],
    assumptions: &["the order of the features in a reply does not matter"],
};

fn parse_feats(rep: &[u8]) -> Result<(u128, BTreeSet<String>), Fail> {
    let s = String::from_utf8_lossy(rep).to_string();
    let mut size = None;
    let mut set = BTreeSet::new();
    for f in s.split(';') {
        if let Some(v) = f.strip_prefix("PacketSize=") {
            if size.is_some() {
                return fail("qSupported", format!("two packet sizes: {:?}", s));
            }
            size = num(v.as_bytes());
        } else if f.ends_with('-') {
            // explicitly unsupported: same as leaving it out
        } else if let Some(n) = f.strip_suffix('+') {
            if !set.insert(n.to_string()) {
                return fail("qSupported", format!("{:?} listed twice", n));
            }
        } else {
            return fail("qSupported", format!("strange feature {:?} in {:?}", f, s));
        }
    }
    match size {
        Some(n) => Ok((n, set)),
        None => fail("qSupported", format!("no packet size in {:?}", s)),
    }
}

fn expected(fl: u64, arch_xml: bool) -> BTreeSet<String> {
    let has = |m: u64| fl & m == m;
    let mut v = vec!["vContSupported", "multiprocess"];
    if has(f::NOACK) {
        v.push("QStartNoAckMode");
    }
    if has(f::RESUME | f::RCONT) {
        v.push("ReverseContinue");
    }
    if has(f::RESUME | f::RSTEP) {
        v.push("ReverseStep");
    }
    if has(f::EXT | f::ASLR) {
        v.push("QDisableRandomization");
    }
    if has(f::EXT | f::ENV) {
        v.extend(["QEnvironmentHexEncoded", "QEnvironmentUnset", "QEnvironmentReset"]);
    }
    if has(f::EXT | f::SHELL) {
        v.push("QStartupWithShell");
    }
    if has(f::EXT | f::WDIR) {
        v.push("QSetWorkingDir");
    }
    if has(f::BPS | f::SWBP) {
        v.push("swbreak");
    }
    if has(f::BPS | f::HWBP) || has(f::BPS | f::WATCH) {
        v.push("hwbreak");
    }
    if has(f::TRACE) {
        v.push("QTBuffer:size");
    }
    if has(f::TRACE | f::TSRC) {
        v.push("TracepointSource");
    }
    if has(f::CATCH) {
        v.push("QCatchSyscalls");
    }
    if has(f::USEXML) && (arch_xml || has(f::XMLOV)) {
        v.push("qXfer:features:read");
    }
    if has(f::MEMMAP) {
        v.push("qXfer:memory-map:read");
    }
    if has(f::EXECF) {
        v.push("qXfer:exec-file:read");
    }
    if has(f::AUXV) {
        v.push("qXfer:auxv:read");
    }
    if has(f::LIBS) {
        v.push("qXfer:libraries-svr4:read");
    }
    v.into_iter().map(String::from).collect()
}

fn group(ch: &mut Ch, parent: u64, kids: &[u64]) -> u64 {
    let mut fl = 0;
    // children of an absent parent can only matter in the thorough tier
    let p = ch.flag();
    if p {
        fl |= parent;
    }
    if p || !ch.quick() {
        for k in kids {
            if ch.flag() {
                fl |= k;
            }
        }
    }
    fl
}

fn c20_adv(ch: &mut Ch) -> R {
    let mut fl = f::GUARD | f::RLE | f::STUB;
    fl |= group(ch, f::RESUME, &[f::RSTEP, f::RCONT]);
    fl |= group(ch, f::EXT, &[f::ASLR, f::ENV, f::SHELL, f::WDIR]);
    fl |= group(ch, f::BPS, &[f::SWBP, f::HWBP, f::WATCH]);
    fl |= group(ch, f::TRACE, &[f::TSRC]);
    for k in [f::NOACK, f::CATCH, f::MEMMAP, f::EXECF, f::AUXV, f::LIBS, f::USEXML, f::XMLOV, f::MULTI] {
        if ch.flag() {
            fl |= k;
        }
    }
    let arch_xml = ch.flag();
    let mut t = Tgt::<u32>::new(fl);
    if arch_xml {
        ARCH_XML.with(|c| c.set(Some("<target/>")));
    }
    let mut s = Sess::new(&mut t, 0x123);
    let r = s.s(ch, &mut t, "qSupported:multiprocess+;swbreak+;hwbreak+;xmlRegisters=i386");
    let (size, set) = parse_feats(&r.reply()?)?;
    if size != 0x123 {
        return fail("packet-size", format!("advertised {:x}, the buffer holds {:x}", size, 0x123));
    }
    let want = expected(fl, arch_xml);
    if set != want {
        let d: Vec<_> = set.symmetric_difference(&want).collect();
        return fail("features", format!("wrong about {:?} (advertised {:?})", d, set));
    }
    want_calls(t.take_log(), &[], "qSupported")
}

/// a packet of the advertised size fits, whatever the buffer
fn c20_size(ch: &mut Ch) -> R {
    let n = 32 + ch.choose(ch.by(300, 5000));
    let borrowed = ch.flag();
    let mut t = Tgt::<u32>::new(f::PLAIN);
    let mut buf = vec![0u8; n];
    let mut s = if borrowed { Sess::borrowed(&mut t, &mut buf) } else { Sess::new(&mut t, n) };
    let r = s.s(ch, &mut t, "qSupported");
    let (size, _) = parse_feats(&r.reply()?)?;
    if size != n as u128 {
        return fail("packet-size", format!("advertised {:x}, the buffer holds {:x}", size, n));
    }
    // the size includes framing: `$`, `#` and the checksum
    let mut p = b"X0,".to_vec();
    let room = n - 4;
    let dig = format!("{:x}:", room);
    p.extend_from_slice(dig.as_bytes());
    let data: Vec<u8> = (0..room - p.len()).map(|i| b'a' + (i % 26) as u8).collect();
    p.extend_from_slice(&data);
    t.take_log();
    let r = s.cmd(ch, &mut t, &p);
    r.expect(&Exp::ok())?;
    let w: Vec<u8> = t.take_log().into_iter().filter(|c| c.f == "write_addrs").flat_map(|c| c.b[0].clone()).collect();
    if w != data {
        return fail("packet-size", "a packet of the advertised size was damaged");
    }
    Ok(())
}

/// (feature, needs, packet)
const WORKS: &[(&str, &str)] = &[
    ("QStartNoAckMode", "QStartNoAckMode"),
    ("ReverseContinue", "bc"),
    ("ReverseStep", "bs"),
    ("QDisableRandomization", "QDisableRandomization:1"),
    ("QEnvironmentHexEncoded", "QEnvironmentHexEncoded:413d42"),
    ("QEnvironmentUnset", "QEnvironmentUnset:41"),
    ("QEnvironmentReset", "QEnvironmentReset"),
    ("QStartupWithShell", "QStartupWithShell:1"),
    ("QSetWorkingDir", "QSetWorkingDir:2f"),
    ("QTBuffer:size", "QTBuffer:size:10"),
    ("TracepointSource", "QTDPsrc:1:10:cmd:0:3:616263"),
    ("QCatchSyscalls", "QCatchSyscalls:1"),
    ("qXfer:features:read", "qXfer:features:read:target.xml:0,20"),
    ("qXfer:memory-map:read", "qXfer:memory-map:read::0,20"),
    ("qXfer:exec-file:read", "qXfer:exec-file:read::0,20"),
    ("qXfer:auxv:read", "qXfer:auxv:read::0,20"),
    ("qXfer:libraries-svr4:read", "qXfer:libraries-svr4:read::0,20"),
    ("vContSupported", "vCont?"),
];

/// every capability switched off (or on) alone, and in pairs
fn toggles(ch: &mut Ch) -> u64 {
    let bits: Vec<u64> = (0..41).map(|i| 1u64 << i).filter(|b| *b != f::GUARD && *b != f::MULTI && *b != f::RLE).collect();
    let i = ch.choose(bits.len());
    let j = ch.choose(i + 1);
    let flip = bits[i] | bits[j];
    let multi = if ch.flag() { f::MULTI } else { 0 };
    match ch.choose(3) {
        0 => (f::ALL | f::GUARD | multi) & !flip,
        1 => f::PLAIN | multi | flip,
        _ => (f::PLAIN & !f::KNOBS) | multi | f::GUARD | f::RLE | flip,
    }
}

fn c20_works(ch: &mut Ch) -> R {
    let fl = toggles(ch);
    let arch_xml = ch.flag();
    let mut t = rich::<u32>(fl);
    ARCH_XML.with(|c| c.set(arch_xml.then_some("<target/>")));
    let mut s = Sess::new(&mut t, 128);
    let r = s.s(ch, &mut t, "qSupported:multiprocess+");
    let (_, set) = parse_feats(&r.reply()?)?;
    let (feat, p) = ch.pick(WORKS);
    let r = s.s(ch, &mut t, p);
    let (_, pk) = r.split()?;
    // an empty reply says "unsupported"
    let works = r.st == St::Running || pk.iter().any(|p| !p.is_empty());
    let mut adv = set.contains(feat);
    if feat == "vContSupported" {
        // says that vCont? may be asked; the answer tells
        adv = fl & f::RESUME != 0;
    }
    if adv != works {
        return fail(
            "advertised",
            format!("{} is {}advertised, but {:?} gave {:?}", feat, if adv { "" } else { "not " }, p, r),
        );
    }
    Ok(())
}

/// multiprocess is used exactly when the client asked for it
fn c20_client(ch: &mut Ch) -> R {
    let multi = ch.flag();
    let mut t = Tgt::<u32>::new(f::PLAIN | f::RESUME | if multi { f::MULTI } else { 0 });
    let mut s = Sess::new(&mut t, 256);
    let list = [
        "multiprocess+",
        "multiprocess-",
        "swbreak+",
        "xmlRegisters=i386",
        "foo+",
        "fork-events-",
        "bar?",
        "memory-tagging+",
        "multiprocessX+",
    ];
    let n = ch.choose(ch.by(5, 7));
    let fs: Vec<&str> = (0..n).map(|_| ch.pick(&list)).collect();
    if fs.iter().filter(|x| x.starts_with("multiprocess") && x.len() == 13).count() > 1 {
        return Ok(());
    }
    let p = if n == 0 {
        ["qSupported", "qSupported:"][ch.choose(2)].to_string()
    } else {
        format!("qSupported:{}", fs.join(";"))
    };
    let mp = fs.contains(&"multiprocess+") || s.mp && !fs.contains(&"multiprocess-");
    let r = s.s(ch, &mut t, &p);
    parse_feats(&r.reply()?)?;
    for (q, want) in [
        ("?", if mp { "T05thread:p01.01;" } else { "T05thread:01;" }),
        ("qfThreadInfo", if mp { "mp01.01" } else { "m01" }),
    ] {
        let r = s.s(ch, &mut t, q);
        let rep = r.reply()?;
        if rep != want.as_bytes() {
            return fail("multiprocess", format!("{} then {}: {:?}, expected {:?}", p, q, show(&rep), want));
        }
    }
    Ok(())
}

/// the client may negotiate again at any time; the last word counts
fn c20_again(ch: &mut Ch) -> R {
    let multi = ch.flag();
    let mut t = rich::<u32>(f::PLAIN | f::RESUME | f::EXT | f::APID | if multi { f::MULTI } else { 0 });
    t.pid = 7;
    t.threads = vec![1];
    let mut s = Sess::new(&mut t, 256);
    let mut mp = s.mp;
    for _ in 0..ch.by(6, 7) {
        match ch.choose(6) {
            0 => {
                s.s(ch, &mut t, "qSupported:multiprocess+;swbreak+").reply()?;
                mp = true;
            }
            1 => {
                s.s(ch, &mut t, "qSupported:xmlRegisters=i386;multiprocess-").reply()?;
                mp = false;
            }
            2 => {
                let want = if mp { "T05thread:p07.01;" } else { "T05thread:01;" };
                s.s(ch, &mut t, "?").expect(&Exp::s(want))?
            }
            3 => {
                s.s(ch, &mut t, "qfThreadInfo").expect(&Exp::s(if mp { "mp07.01" } else { "m01" }))?;
                s.s(ch, &mut t, "qsThreadInfo").expect(&Exp::s("l"))?;
            }
            4 => {
                // a process id in a request is fine either way
                s.s(ch, &mut t, if mp { "Hgp7.1" } else { "Hg1" }).expect(&Exp::ok())?
            }
            _ => {
                s.s(ch, &mut t, "vCont;c").expect(&Exp::Runs)?;
                let why = gdbstub::stub::MultiThreadStopReason::SignalWithThread {
                    tid: gdbstub::common::Tid::new(1).unwrap(),
                    signal: gdbstub::common::Signal(5),
                };
                let want = if mp { "T05thread:p07.01;" } else { "T05thread:01;" };
                s.stop(ch, &mut t, why).expect(&Exp::s(want))?
            }
        }
    }
    Ok(())
}

/// acknowledgements stop exactly when no-ack mode was agreed on
fn c20_noack(ch: &mut Ch) -> R {
    let on = ch.flag();
    let mut t = rich::<u32>(f::PLAIN & !f::NOACK | f::RESUME | if on { f::NOACK } else { 0 });
    let mut s = Sess::new(&mut t, 128);
    for _ in 0..ch.by(6, 8) {
        match ch.choose(5) {
            0 => {
                let r = s.s(ch, &mut t, "QStartNoAckMode");
                // this one is still acknowledged, unless the mode is already on
                r.expect(&if on { Exp::ok() } else { Exp::Empty })?;
                s.noack |= on;
            }
            1 => drop(s.s(ch, &mut t, "?").reply()?),
            2 => drop(s.s(ch, &mut t, "qFoo").reply()?),
            3 => drop(s.s(ch, &mut t, "mffffffff,4").reply()?),
            _ => {
                s.s(ch, &mut t, "c").expect(&Exp::Runs)?;
                let r = s.stop(ch, &mut t, crate::props::session::Msr::DoneStep);
                r.expect(&Exp::s("S05"))?;
            }
        }
    }
    Ok(())
}

// ===================================================================== C21 ===

static C21: Prop = Prop {
    id: "C21",
    scenes: &[
        Scene { name: "unsupported-commands", body: c21_table },
        Scene { name: "unsupported-arguments", body: c21_variants },
        Scene { name: "long-unknown-names", body: c21_long },
        Scene { name: "unknown-names", body: c21_names },
        Scene { name: "near-miss-names", body: c21_near },
        Scene { name: "resume-stub", body: c21_stub },
        Scene { name: "session-continues", body: c21_hist },
        Scene { name: "once-more", body: c21_again },
    ],
    assumptions: &["a recognised command with malformed arguments ends the session with an error (see C01)"],
};

/// every optional command with the capabilities it takes
pub fn needs(p: &[u8]) -> Option<u64> {
    let s = |x: &str| p.starts_with(x.as_bytes());
    Some(match p.first()? {
        b'c' | b's' => f::RESUME,
        b'X' => f::XUP,
        b'p' | b'P' => f::SRA,
        b'!' => f::EXT,
        b'R' => f::EXT,
        b'Z' | b'z' => {
            f::BPS
                | match p[1] {
                    b'0' => f::SWBP,
                    b'1' => f::HWBP,
                    _ => f::WATCH,
                }
        }
        _ if s("vCont") => f::RESUME,
        _ if s("QStartNoAckMode") => f::NOACK,
        _ if s("qC") && p.len() == 2 => f::EXT | f::APID,
        _ if s("QDisableRandomization") => f::EXT | f::ASLR,
        _ if s("QEnvironment") => f::EXT | f::ENV,
        _ if s("QSetWorkingDir") => f::EXT | f::WDIR,
        _ if s("QStartupWithShell") => f::EXT | f::SHELL,
        _ if s("vAttach") | s("vRun") => f::EXT,
        _ if s("qRcmd") => f::MONITOR,
        _ if s("qOffsets") => f::SECT,
        _ if s("bc") => f::RESUME | f::RCONT,
        _ if s("bs") => f::RESUME | f::RSTEP,
        _ if s("qXfer:features") => f::USEXML | f::XMLOV,
        _ if s("qXfer:memory-map") => f::MEMMAP,
        _ if s("qXfer:auxv") => f::AUXV,
        _ if s("qXfer:exec-file") => f::EXECF,
        _ if s("qXfer:libraries") => f::LIBS,
        _ if s("vFile:open") => f::HOST | f::HOPEN,
        _ if s("vFile:close") => f::HOST | f::HCLOSE,
        _ if s("vFile:pread") => f::HOST | f::HPREAD,
        _ if s("vFile:pwrite") => f::HOST | f::HPWRITE,
        _ if s("vFile:fstat") => f::HOST | f::HFSTAT,
        _ if s("vFile:unlink") => f::HOST | f::HUNLINK,
        _ if s("vFile:readlink") => f::HOST | f::HREADLINK,
        _ if s("vFile:setfs") => f::HOST | f::HSETFS,
        _ if s("QCatchSyscalls") => f::CATCH,
        _ if s("qThreadExtraInfo") => f::MULTI | f::EXTRA,
        _ if s("qRegisterInfo") => f::USELLDB | f::LLDBOV,
        _ if s("QTDPsrc") => f::TRACE | f::TSRC,
        _ if s("QT") | s("qT") => f::TRACE,
        _ => return None,
    })
}

fn probe(ch: &mut Ch, s: &mut Sess<'_, Tgt<u32>>, t: &mut Tgt<u32>) -> R {
    let r = s.s(ch, t, "m20,2");
    let want = hex(&[t.byte(0x20), t.byte(0x21)]);
    r.expect(&Exp::s(want))
}

/// the optional commands again, with unusual (but well-formed) arguments
const VARIANTS: &[&[u8]] = &[
    b"Z0,10,7", b"z0,10,7", b"Z1,10,7", b"z1,10,7", b"Z2,10,0", b"z3,0,ffffffff", b"Z4,ffffffff,7", b"Z1,0,ffffffffff",
    b"z0,ffffffff,ffffffffffffffff", b"Z0,0,fffffffffffffffff", b"z2,0,7", b"Z3,0,ffff", b"z4,0,0",
    b"Z0,10,4;X1,00", b"Z1,10,4;cmds:0,X1,00", b"Z0,10,4;X1,22cmds:1,X1,22",
    b"c0", b"cffffffff", b"s0", b"sffffffff", b"cffffffffffffffff", b"s7fffffffffffffff",
    b"vCont;s", b"vCont;C00", b"vCont;Cff:-1", b"vCont;S05:p-1.-1", b"vCont;r0,0", b"vCont;r10,8:p1.1", b"vCont;t",
    b"vCont;c:0", b"vCont;s:ffffffff;C1f:p1.2;t:3;c",
    b"X0,0:", b"Xffffffff,1:a", b"Xffffffffffffffff,2:ab", b"X10,4:}\x03}\x04}\n}]",
    b"pffff", b"pffffffffffffffff", b"P0=", b"Pffff=00", b"P0=0102030405060708090a0b0c0d0e0f10",
    b"R", b"Rff",
    b"QDisableRandomization:0", b"QEnvironmentHexEncoded:413d", b"QEnvironmentHexEncoded:413d423d43",
    b"QEnvironmentUnset:00ff", b"QSetWorkingDir:", b"QSetWorkingDir:ff00", b"QStartupWithShell:1",
    b"vAttach;ffffffff", b"vAttach;7fffffffffffffff", b"vRun;;", b"vRun;;;61", b"vRun;ff00;",
    b"qRcmd,", b"qRcmd,00", b"qRcmd,ffff",
    b"qXfer:features:read:foo.xml:0,0", b"qXfer:features:read::ffffffffffffffff,fff", b"qXfer:memory-map:read::ffff,0",
    b"qXfer:auxv:read::ffffffff,1", b"qXfer:exec-file:read:ffff:0,0", b"qXfer:exec-file:read:1f:ffff,ffff",
    b"qXfer:libraries-svr4:read::10,ffffffff",
    b"vFile:open:,0,0", b"vFile:open:ff00,601,1ff", b"vFile:open:61,e0b,1ff", b"vFile:close:ffffffff", b"vFile:pread:0,0,0", b"vFile:pread:ff,ffff,ffffffff",
    b"vFile:pwrite:0,0,", b"vFile:pwrite:ff,ffff,,,", b"vFile:fstat:0", b"vFile:unlink:", b"vFile:readlink:", b"vFile:setfs:ffff",
    b"QCatchSyscalls:1;0;ffffffff", b"QCatchSyscalls:1;7", b"qThreadExtraInfo,ffffffffffffffff", b"qThreadExtraInfo,pff.ff",
    b"qRegisterInfoffff", b"QTDPsrc:1:10:at:0:0:", b"QTDPsrc:ff:ffffffff:cond:3:6:616263",
    b"QTDP:0:0:D:0:0", b"QTDP:ffff:ffffffff:E:0:0:F5", b"QTDP:1:10:E:0:0:S", b"QTDP:1:10:E:0:0:X1,00", b"QTDP:-1:10:M-1,0,4", b"QTDP:-1:10:SR03", b"QTDP:-ff:0:Rffff-",
    b"QTBuffer:circular:0", b"QTBuffer:size:0", b"QTBuffer:size:ffffffff", b"QTFrame:-1", b"QTFrame:ffffffffffffffff", b"QTFrame:tdp:0",
    b"QTFrame:pc:ffffffff", b"QTFrame:range:0:ffffffff", b"QTFrame:outside:0:0", b"qTBuffer:ffff,0", b"qTBuffer:0,ffffffff", b"qTP:ffff:ffffffff",
];

fn c21_variants(ch: &mut Ch) -> R {
    let p = ch.pick(VARIANTS);
    c21_off(ch, p)
}

/// switch off every non-empty part of what a command needs
fn c21_table(ch: &mut Ch) -> R {
    let p = ch.pick(PACKETS);
    c21_off(ch, p)
}

fn c21_off(ch: &mut Ch, p: &[u8]) -> R {
    let Some(need) = needs(p) else { return Ok(()) };
    let bits: Vec<u64> = (0..64).map(|i| 1u64 << i).filter(|b| need & b != 0).collect();
    let off = 1 + ch.choose((1 << bits.len()) - 1);
    let mut fl = match ch.choose(3) {
        0 => f::ALL | f::GUARD | f::MULTI,
        1 => f::ALL | f::GUARD,
        _ => f::PLAIN | need,
    };
    // the stub for missing resume support is another scene
    fl &= !f::STUB;
    for (i, b) in bits.iter().enumerate() {
        if off >> i & 1 == 1 {
            fl &= !b;
        }
    }
    let mut t = rich::<u32>(fl);
    let mut s = Sess::new(&mut t, 256);
    let r = s.cmd(ch, &mut t, p);
    // with tracepoints but without sources, the target still gets no call
    want_calls(t.take_log(), &[], &r.what)?;
    r.expect(&Exp::Empty)?;
    probe(ch, &mut s, &mut t)
}

const NAMES: &[&str] = &[
    "qC", "qAttached", "qfThreadInfo", "qsThreadInfo", "qSupported", "vKill", "qXfer:features:read", "vCont",
    "QStartNoAckMode", "QDisableRandomization", "QEnvironmentHexEncoded", "QEnvironmentReset", "QEnvironmentUnset",
    "QSetWorkingDir", "QStartupWithShell", "vAttach", "vRun", "qRcmd", "qOffsets", "bc", "bs",
    "qXfer:memory-map:read", "qXfer:auxv:read", "qXfer:exec-file:read", "vFile:open", "vFile:close", "vFile:pread",
    "vFile:pwrite", "vFile:fstat", "vFile:unlink", "vFile:readlink", "vFile:setfs", "QCatchSyscalls",
    "qThreadExtraInfo", "qXfer:libraries-svr4:read", "QTDPsrc", "QTDP", "QTinit", "QTBuffer", "QTStart",
    "QTStop", "QTFrame", "qTBuffer", "qTStatus", "qTP", "qTfP", "qTsP", "qTfV", "qTsV",
];

fn full(ch: &mut Ch) -> Tgt<u32> {
    let fl = ch.pick(&[f::ALL | f::GUARD | f::MULTI, f::ALL | f::GUARD, f::PLAIN]);
    rich::<u32>(fl)
}

/// every one- and two-byte packet that is not a command
fn c21_names(ch: &mut Ch) -> R {
    let mut t = full(ch);
    let all = t.has(f::RESUME);
    if ch.flag() {
        t.fl &= !f::STUB;
    }
    let mut p = vec![ch.choose(256) as u8];
    let tail = ch.choose(4);
    match tail {
        0 => {}
        1 => p.push(ch.choose(256) as u8),
        2 => p.extend(b":1,2"),
        _ => p.extend(b"oo;bar"),
    }
    let c = p[0];
    if p.iter().any(|b| matches!(b, b'$' | b'#')) {
        return Ok(());
    }
    // names of real commands
    if b"?DgGHkmMT".contains(&c) || (all && b"csXpP!RzZ".contains(&c)) || (!all && b"X".contains(&c)) {
        return Ok(());
    }
    if all && (p.starts_with(b"bc") || p.starts_with(b"bs") || p == b"qC") {
        return Ok(());
    }
    let mut s = Sess::new(&mut t, 64);
    let r = s.cmd(ch, &mut t, &p);
    want_calls(t.take_log(), &[], &r.what)?;
    if !all && b"cCsS".contains(&c) && t.has(f::STUB) {
        return stub_reply(&r);
    }
    r.expect(&Exp::Empty)?;
    probe(ch, &mut s, &mut t)
}

/// unknown packets of any length up to the size of the buffer
fn c21_long(ch: &mut Ch) -> R {
    let mut t = full(ch);
    let head = ch.pick(&["q", "Q", "v", "qXfer:", "vFile:", "qT", "QT", "_", "vCont;c:1;zz", "j"]);
    let fill = ch.pick(&[b'a', b':', b';', b',', b'0', 0xff]);
    let n = ch.pick(&[1usize, 7, 8, 31, 32, 33, 63, 64, 127, 128, 255, 256, 257, 1000, 4087, 4088, 0xffff, 0x1_0000]);
    let mut p = head.as_bytes().to_vec();
    if head.starts_with("vCont") {
        p = b"vContx".to_vec();
    }
    p.extend(std::iter::repeat_n(fill, n));
    let mut s = Sess::new(&mut t, ch.pick(&[4096usize, 0x2_0000]).max(p.len() + 4));
    let r = s.cmd(ch, &mut t, &p);
    want_calls(t.take_log(), &[], "an unknown packet")?;
    r.expect(&Exp::Empty)?;
    probe(ch, &mut s, &mut t)
}

/// a packet whose name merely starts (or ends) like a known one is unknown
fn c21_near(ch: &mut Ch) -> R {
    let mut t = full(ch);
    let n = ch.pick(NAMES);
    let mut b = n.as_bytes().to_vec();
    match ch.choose(5) {
        // longer name
        0 => {
            let c = ch.pick(&[b'X', b'a', b'Z', b's']);
            b.push(c);
        }
        1 => {
            b.extend(b"More:1,2");
        }
        // shorter name
        2 => {
            b.pop();
        }
        // one character wrong
        3 => {
            let i = 1 + ch.choose(b.len() - 1);
            b[i] ^= 1;
        }
        // wrong case
        _ => {
            let i = 1 + ch.choose(b.len() - 1);
            b[i] ^= 0x20;
        }
    }
    let tail = ch.pick(&["", ":1", ";1", ",1"]);
    b.extend_from_slice(tail.as_bytes());
    if b.iter().any(|c| matches!(c, b'$' | b'#' | b'}' | b'*')) {
        return Ok(());
    }
    // the mutation may have produced another command
    for m in NAMES {
        if b.starts_with(m.as_bytes()) {
            let rest = &b[m.len()..];
            if rest.is_empty() || !rest[0].is_ascii_alphabetic() {
                return Ok(());
            }
        }
    }
    if b"?DgGHkmMTcsXpP!RzZC".contains(&b[0]) {
        return Ok(());
    }
    let legacy = b.starts_with(b"qRegisterInfo") || b.starts_with(b"bc") || b.starts_with(b"bs");
    if legacy {
        return Ok(());
    }
    let mut s = Sess::new(&mut t, 128);
    let r = s.cmd(ch, &mut t, &b);
    want_calls(t.take_log(), &[], &r.what)?;
    r.expect(&Exp::Empty)?;
    probe(ch, &mut s, &mut t)
}

fn stub_reply(r: &Rep) -> R {
    let k = r.pkts()?;
    let mut text = vec![];
    let ok = k.len() >= 2
        && k[..k.len() - 1].iter().all(|p| p.first() == Some(&b'O') && unhex(&p[1..]).map(|x| text.extend(x)).is_some())
        && (k[k.len() - 1] == b"S05" || k[k.len() - 1].starts_with(b"T05"));
    // a message for a person: some words, and nothing a console would choke on
    let words = std::str::from_utf8(&text).map_or(false, |t| {
        t.split_whitespace().count() > 1 && t.ends_with('\n') && t.chars().all(|c| c == '\n' || !c.is_control())
    });
    if r.st != St::Idle || !ok || !words {
        return fail("resume-stub", format!("{:?}: expected a message and a stop", r));
    }
    Ok(())
}

fn c21_stub(ch: &mut Ch) -> R {
    let stub = ch.flag();
    let multi = ch.flag();
    let mut fl = f::PLAIN & !f::STUB;
    if stub {
        fl |= f::STUB;
    }
    if multi {
        fl |= f::MULTI;
    }
    if ch.flag() {
        fl &= !f::RLE;
    }
    let mut t = rich::<u32>(fl);
    let mut s = Sess::new(&mut t, 64);
    if ch.flag() {
        s.s(ch, &mut t, "QStartNoAckMode").expect(&Exp::ok())?;
        s.noack = true;
    }
    for _ in 0..ch.by(3, 4) {
        let p = ch.pick(&["c", "s", "C05", "S05", "c10", "s10", "vCont;c", "vCont?", "bc", "bs", "qfoo"]);
        let r = s.s(ch, &mut t, p);
        want_calls(t.take_log(), &[], p)?;
        if stub && matches!(p.as_bytes()[0], b'c' | b's' | b'C' | b'S') {
            stub_reply(&r)?;
        } else {
            r.expect(&Exp::Empty)?;
        }
    }
    probe(ch, &mut s, &mut t)
}

/// unsupported commands, in every order, never disturb the session
fn c21_hist(ch: &mut Ch) -> R {
    let mut t = rich::<u32>(f::PLAIN);
    let mut s = Sess::new(&mut t, 128);
    let depth = ch.by(3, 4);
    for _ in 0..depth {
        let p = ch.pick(PACKETS);
        let Some(need) = needs(p) else { return Ok(()) };
        if f::PLAIN & need == need || matches!(p[0], b'c' | b's') {
            return Ok(());
        }
        let r = s.cmd(ch, &mut t, p);
        want_calls(t.take_log(), &[], &r.what)?;
        r.expect(&Exp::Empty)?;
    }
    probe(ch, &mut s, &mut t)
}

// ============================================================== long things ===

/// the client may offer any number of features, multiprocess at any place among them
fn c20_many(ch: &mut Ch) -> R {
    let mut t = Tgt::<u32>::new(f::PLAIN | f::RESUME);
    let n = match ch.choose(2) {
        0 => ch.choose(ch.by(600, 4000)),
        _ => ch.pick(LENS),
    };
    let mut fs: Vec<String> = (0..n).map(|i| format!("f{}{}", i, ["+", "-", "?", "=1"][i % 4])).collect();
    let mp = ch.choose(4);
    match mp {
        0 => fs.insert(0, "multiprocess+".into()),
        1 => fs.insert(n / 2, "multiprocess+".into()),
        2 => fs.push("multiprocess+".into()),
        _ => {}
    }
    let mut s = Sess::new(&mut t, 256);
    let (p, want) = if mp < 3 || s.mp { (fs.join(";"), "mp01.01") } else { (fs.join(";"), "m01") };
    let r = s.s(ch, &mut t, &format!("qSupported:{}", p));
    parse_feats(&r.reply()?)?;
    s.s(ch, &mut t, "qfThreadInfo").expect(&Exp::s(want))
}
