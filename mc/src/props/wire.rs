//! C01..C04, C08: bytes on the wire.

use super::corpus::*;
use crate::client::*;
use crate::engine::*;
use crate::note;
use crate::sess::*;
use crate::props::LENS;
use crate::target::*;
use gdbstub::common::{Signal, Tid};
use gdbstub::stub::*;
use std::cell::RefCell;
use std::rc::Rc;

pub const PROPS: &[&Prop] = &[&C01, &C02, &C03, &C04, &C08];

// ===================================================================== C01 ===

static C01: Prop = Prop {
    id: "C01",
    scenes: &[
        Scene { name: "payloads-of-any-2-bytes", body: c01_short },
        Scene { name: "raw-byte-sequences", body: c01_raw },
        Scene { name: "mutated-packets", body: c01_mut },
        Scene { name: "structured-arguments", body: c01_args },
        Scene { name: "packet-pairs", body: c01_pairs },
        Scene { name: "log-statements", body: c01_log },
        Scene { name: "odd-targets", body: c01_odd },
        Scene { name: "long-packets", body: c01_long },
    ],
    assumptions: &[
        "the target keeps its own contract (never returns more bytes than asked, maps a bounded amount of memory)",
        "aborts, panics, arithmetic overflow, undefined-behaviour preconditions (std debug checks) and hangs are observed; other memory unsafety is covered only through those checks",
    ],
};

/// feed a byte string to a session in `running`/idle state; whatever happens must be a
/// well-formed outcome
fn survive<U: HU>(ch: &mut Ch, t: &mut Tgt<U>, s: &mut Sess<'_, Tgt<U>>, bytes: &[u8]) -> R {
    let r = s.raw(ch, t, bytes);
    // a session that failed may stop in the middle of a reply
    if !matches!(r.st, St::Err(_)) {
        r.split()?;
    }
    Ok(())
}

fn start_any<'a, U: HU>(ch: &mut Ch, t: &mut Tgt<U>, running: bool, size: usize) -> Sess<'a, Tgt<U>> {
    let mut s = Sess::new(t, size);
    if running {
        let r = s.s(ch, t, "vCont;c");
        if r.st != St::Running {
            std::panic::panic_any(ViolationPanic(
                "resume".into(),
                format!("vCont;c did not resume: {:?}", r.st),
            ));
        }
    }
    s
}

fn c01_short(ch: &mut Ch) -> R {
    let multi = ch.flag();
    let mut t = rich::<u32>(f::ALL & !f::XMLOV & !f::LLDBOV | if multi { f::MULTI } else { 0 });
    rich_xml();
    let running = ch.flag();
    let mut s = start_any(ch, &mut t, running, 64);
    let a = ch.choose(257);
    if a == 256 {
        return survive(ch, &mut t, &mut s, &frame(b""));
    }
    let mut p = vec![a as u8];
    // second byte: every value; thorough adds a third from a syntax alphabet
    let b = ch.choose(257);
    if b < 256 {
        p.push(b as u8);
        if !ch.quick() {
            const TAIL: &[u8] = b"\x00\x03+-0189afgxz?#$}*,:;.=p\x7f\x80\xff";
            let c = ch.choose(TAIL.len() + 1);
            if c < TAIL.len() {
                p.push(TAIL[c]);
            }
        }
    }
    survive(ch, &mut t, &mut s, &frame(&p))
}

/// every string over a small alphabet, fed with no framing at all
fn c01_raw(ch: &mut Ch) -> R {
    const A: &[u8] = b"$#+-\x03gk0c?\x00\xff}";
    let size = ch.pick(&[0usize, 1, 3, 5, 8]);
    let owned = ch.flag();
    let depth = ch.by(5, 6);
    let mut t = rich::<u64>(f::ALL & !f::EXT);
    let mut store = vec![0u8; size];
    let mut s = if owned { Sess::new(&mut t, size) } else { Sess::borrowed(&mut t, &mut store) };
    for _ in 0..depth {
        let b = ch.pick(A);
        match s.st() {
            St::Idle | St::Running => {
                let r = s.raw(ch, &mut t, &[b]);
                if !matches!(r.st, St::Err(_)) {
                    r.split()?;
                }
            }
            St::CtrlC => {
                s.intr(ch, &mut t, None::<MultiThreadStopReason<u64>>);
            }
            _ => return Ok(()),
        }
    }
    Ok(())
}

/// every one-byte edit of every known packet
fn c01_mut(ch: &mut Ch) -> R {
    let p = ch.pick(PACKETS).to_vec();
    let multi = ch.flag();
    let size = ch.pick(&[32usize, 128]);
    // descriptions of the target, or those of its architecture
    let over = if p.starts_with(b"qXfer:features") || p.starts_with(b"qRegisterInfo") { ch.flag() } else { true };
    let mut t = rich::<u16>(if over { f::ALL } else { f::ALL & !f::XMLOV & !f::LLDBOV } | if multi { f::MULTI } else { 0 });
    rich_xml();
    let running = ch.flag();
    let mut s = Sess::new(&mut t, size);
    if running {
        s.s(ch, &mut t, "vCont;c");
    }
    let mut q = p.clone();
    let edits = ch.by(1, 2);
    for _ in 0..edits {
        let pos = ch.choose(q.len() + 1);
        const SUB: &[u8] = b"0f-,:;=.pxg\x00\xff}";
        match ch.choose(3) {
            0 => {
                if pos < q.len() {
                    q.remove(pos);
                }
            }
            1 => {
                let b = if edits == 1 { ch.pick(SUB) } else { ch.pick(b"0-,:;\xff") };
                if pos < q.len() {
                    q[pos] = b
                }
            }
            _ => {
                let b = if edits == 1 { ch.pick(SUB) } else { ch.pick(b"0-,:;\xff") };
                q.insert(pos, b)
            }
        }
    }
    if q.contains(&b'#') {
        return Ok(());
    }
    survive(ch, &mut t, &mut s, &frame(&q))
}

const NUMS: &[&str] = &[
    "",
    "0",
    "1",
    "4",
    "ff",
    "ffff",
    "ffffffff",
    "7fffffffffffffff",
    "8000000000000000",
    "ffffffffffffffff",
    "10000000000000000",
    "-1",
    "g",
];

/// every combination of extreme numbers in every argument position
fn c01_args(ch: &mut Ch) -> R {
    // '@' marks an argument position
    const FORMS: &[&str] = &[
        "m@,@",
        "M@,@:@",
        "X@,@:ab",
        "X@,@:",
        "p@",
        "P@=@",
        "G@",
        "H@",
        "Hg@",
        "Hgp@.@",
        "T@",
        "Tp@.@",
        "D;@",
        "vKill;@",
        "vAttach;@",
        "c@",
        "s@",
        "vCont;C@:@",
        "vCont;S@:p@.@",
        "vCont;r@,@:1",
        "Z@,@,@",
        "z0,@,@",
        "z1,@,@",
        "Z4,@,@",
        "qXfer:auxv:read::@,@",
        "qXfer:features:read:target.xml:@,@",
        "qXfer:memory-map:read::@,@",
        "qXfer:exec-file:read:@:@,@",
        "qXfer:libraries-svr4:read::@,@",
        "vFile:open:@,@,@",
        "vFile:close:@",
        "vFile:pread:@,@,@",
        "vFile:pwrite:@,@,ab",
        "vFile:fstat:@",
        "vFile:setfs:@",
        "QCatchSyscalls:1;@;@",
        "qThreadExtraInfo,@",
        "qThreadExtraInfo,p@.@",
        "qRegisterInfo@",
        "QTDPsrc:@:@:at:@:@:00",
        "QTDP:@:@:E:@:@",
        "QTDP:@:@:E:0:0-",
        "QTDP:-@:@:R@",
        "QTDP:-1:10:X@,@",
        "QTBuffer:size:@",
        "QTFrame:@",
        "QTFrame:pc:@",
        "QTFrame:tdp:@",
        "QTFrame:range:@:@",
        "QTFrame:outside:@:@",
        "qTBuffer:@,@",
        "qTP:@:@",
        "vRun;@;@",
        "qRcmd,@",
        "QEnvironmentHexEncoded:@",
        "QSetWorkingDir:@",
        "qAttached:@",
    ];
    fn go<U: HU>(ch: &mut Ch) -> R {
        let form = ch.pick(FORMS);
        let mut p = String::new();
        for c in form.chars() {
            if c == '@' {
                p.push_str(ch.pick(NUMS));
            } else {
                p.push(c)
            }
        }
        let fl = ch.pick(&[f::ALL, f::ALL | f::MULTI]);
        let arch = (form.starts_with("qXfer:features") || form.starts_with("qRegisterInfo")) && ch.flag();
        let mut t = rich::<U>(if arch { fl & !f::XMLOV & !f::LLDBOV } else { fl });
        if ch.flag() {
            // memory at the very top of the address space
            t.mem_hi = U::max_value().big();
            t.mem_lo = t.mem_hi - 0x60;
            t.unmapped_ok0 = true;
        }
        rich_xml();
        let size = ch.pick(&[48usize, 300]);
        let mut s = Sess::new(&mut t, size);
        survive(ch, &mut t, &mut s, &frame(p.as_bytes()))
    }
    match ch.choose(ch.by(2, 4)) {
        0 => go::<u32>(ch),
        1 => go::<u64>(ch),
        2 => go::<u8>(ch),
        _ => go::<u16>(ch),
    }
}

/// every ordered pair (thorough: with a third) of known packets
fn c01_pairs(ch: &mut Ch) -> R {
    let n = ch.by(2, 3);
    let multi = ch.flag();
    // descriptions of the target, or those of its architecture
    let mut t = rich::<u32>(if multi { f::ALL | f::MULTI } else { f::ALL & !f::XMLOV & !f::LLDBOV });
    rich_xml();
    let mut s = Sess::new(&mut t, 64);
    for i in 0..n {
        if !s.live() {
            break;
        }
        let p = if i < 2 {
            ch.pick(PACKETS)
        } else {
            ch.pick(&[
                b"?" as &[u8],
                b"g",
                b"m10,4",
                b"vCont;c",
                b"qTsP",
                b"qsThreadInfo",
                b"bs",
                b"p0",
                b"Z0,10,4",
                b"k",
            ])
        };
        survive(ch, &mut t, &mut s, &frame(p))?;
        if s.st() == St::Running && ch.flag() {
            let r = s.stop(ch, &mut t, MultiThreadStopReason::<u32>::DoneStep);
            r.split()?;
        }
    }
    Ok(())
}

/// the same packets with log statements evaluated
fn c01_log(ch: &mut Ch) -> R {
    let _g = LogOn::new();
    let p = ch.pick(PACKETS).to_vec();
    let fl = ch.pick(&[f::ALL, f::ALL | f::MULTI, f::PLAIN]);
    let mut t = rich::<u32>(fl);
    rich_xml();
    let mut s = Sess::new(&mut t, 200);
    survive(ch, &mut t, &mut s, &frame(&p))?;
    if s.st() == St::Running {
        s.stop(ch, &mut t, MultiThreadStopReason::<u32>::Signal(Signal::SIGINT)).split()?;
    }
    Ok(())
}

pub struct LogOn;
impl LogOn {
    pub fn new() -> LogOn {
        log::set_max_level(log::LevelFilter::Trace);
        LogOn
    }
}
impl Drop for LogOn {
    fn drop(&mut self) {
        log::set_max_level(log::LevelFilter::Off);
    }
}

/// targets whose answers are extreme but legal: nothing to say, odd sizes
fn c01_odd(ch: &mut Ch) -> R {
    let p = ch.pick(PACKETS).to_vec();
    let multi = ch.flag();
    let mut t = rich::<u32>(f::ALL & !f::XMLOV | if multi { f::MULTI } else { 0 });
    rich_xml();
    match ch.choose(10) {
        0 => t.threads = vec![],
        1 => {
            t.blob = vec![];
            t.extra_info = vec![];
            t.monitor_out = vec![];
            t.regs = vec![];
            t.tps = vec![];
            t.infos = vec![];
            t.frames = vec![];
            t.status = vec![];
            t.tb_chunks = vec![];
        }
        2 => t.reg_len = Some(0),
        3 => {
            t.read_caps = vec![0; 100];
            t.unmapped_ok0 = true;
        }
        4 => t.read_caps = (0..100).map(|i| i % 3).collect(),
        5 => t.threads = vec![usize::MAX, 1],
        6 => {
            t.blob = vec![b'*'; 400];
            t.extra_info = vec![b'$'; 400];
            t.monitor_out = vec![Some(vec![0; 300])];
            t.regs = vec![None; 500];
            t.tb_chunks = vec![vec![], vec![0xff; 300], vec![]];
        }
        7 => {
            t.status = vec![StatusM::NotRun, StatusM::Running];
            t.infos = vec![InfoM::Other(""), InfoM::Other("x"), InfoM::Size(usize::MAX)];
            t.frames = vec![];
            t.hit = (u64::MAX, u64::MAX);
        }
        8 => {
            t.pid = usize::MAX;
            t.was_attach = false;
            t.terminate = true;
            t.bp_ok = false;
            t.fd = u32::MAX;
            t.stat = [u64::MAX; 13];
            t.pwrite_ret = u32::MAX as u128;
            t.offsets = 3;
        }
        _ => {
            t.lldb_override = Some(|_| {
                use gdbstub::arch::lldb::*;
                Some(Register {
                    name: "",
                    alt_name: None,
                    bitsize: usize::MAX,
                    offset: 0,
                    encoding: Encoding::Vector,
                    format: Format::VectorUInt128,
                    set: "",
                    gcc: None,
                    dwarf: None,
                    generic: None,
                    container_regs: Some(&[]),
                    invalidate_regs: Some(&[]),
                })
            });
        }
    }
    let size = ch.pick(&[40usize, 512]);
    let mut s = Sess::new(&mut t, size);
    let neg = ch.flag();
    if neg {
        s.s(ch, &mut t, "qSupported:multiprocess+");
        if !s.live() {
            return Ok(());
        }
    }
    survive(ch, &mut t, &mut s, &frame(&p))
}

// ===================================================================== C02 ===

static C02: Prop = Prop {
    id: "C02",
    scenes: &[
        Scene { name: "every-checksum", body: c02_sums },
        Scene { name: "byte-strings-vs-automaton", body: c02_auto },
        Scene { name: "packet-sequences-and-buffer-sizes", body: c02_seq },
        Scene { name: "every-corruption", body: c02_corrupt },
        Scene { name: "long-packets", body: c02_long },
        Scene { name: "every-byte-at-every-place", body: c02_bytes },
        Scene { name: "repeated-packets", body: c02_endless },
    ],
    assumptions: &["the letter x, which the library's hex decoder reads as 0, is not used in checksums"],
};

/// a packet is acted on iff its two checksum digits equal the sum
fn c02_sums(ch: &mut Ch) -> R {
    let bodies: &[&[u8]] = &[b"m10,1", b"", b"M10,1:55", b"X10,1:\xfd", b"qAttached", b"\xff\x01"];
    let b = ch.pick(bodies);
    let a = ch.choose(256) as u8;
    let c = ch.choose(256) as u8;
    if a == b'x' || a == b'X' || c == b'x' || c == b'X' {
        return Ok(());
    }
    let mut t = rich::<u32>(f::PLAIN);
    let mut s = Sess::new(&mut t, 32);
    let mut w = vec![b'$'];
    w.extend_from_slice(b);
    w.extend_from_slice(&[b'#', a, c]);
    let d = |x: u8| (x as char).to_digit(16);
    let good = match (d(a), d(c)) {
        (Some(h), Some(l)) => (h * 16 + l) as u8 == sum(b),
        _ => false,
    };
    let fed = s.feed(&mut t, &w[..w.len() - 1]);
    if fed != w.len() - 1 || s.st() != St::Idle || s.fresh() > 0 {
        return fail("early", format!("acted before {:?} was complete", show(&w)));
    }
    let r = s.raw(ch, &mut t, &w[w.len() - 1..]);
    if good {
        r.reply()?;
    } else {
        r.expect(&Exp::FatalProto)?;
        if !r.raw.is_empty() || !t.log.borrow().is_empty() {
            return fail("bad-checksum", format!("{:?} was acted on", show(&w)));
        }
    }
    Ok(())
}

/// arbitrary byte strings against the documented framing automaton
fn c02_auto(ch: &mut Ch) -> R {
    // 'g' (0x67) is a command; "#67" frames it; "#00" frames the empty packet
    let a: &[u8] = b"$#g670+-\x03q";
    let depth = ch.by(6, 7);
    let mut t = Tgt::<u32>::new(f::PLAIN);
    t.regs = vec![Some(0xab)];
    let cap = ch.pick(&[16usize, 5, 6]);
    let owned = ch.flag();
    let mut store = vec![0u8; cap];
    let mut s = if owned { Sess::new(&mut t, cap) } else { Sess::borrowed(&mut t, &mut store) };
    let mut pend: Vec<u8> = vec![]; // bytes of the packet being received
    for _ in 0..depth {
        let b = ch.pick(a);
        let r = s.raw(ch, &mut t, &[b]);
        // ---- reference automaton
        enum W {
            Quiet,
            Reg,
            Empty,
            Int,
            Die,
        }
        let want = if pend.is_empty() {
            match b {
                b'$' => {
                    pend.push(b);
                    W::Quiet
                }
                b'+' => W::Quiet,
                0x03 => W::Int,
                _ => W::Die,
            }
        } else {
            pend.push(b);
            let h = pend.iter().position(|c| *c == b'#');
            if !owned && pend.len() > cap {
                W::Die
            } else {
                match h {
                    Some(h) if pend.len() == h + 3 => {
                        let body = pend[1..h].to_vec();
                        let cs = &pend[h + 1..];
                        let v = core::str::from_utf8(cs)
                            .ok()
                            .filter(|s| s.chars().all(|c| c.is_ascii_hexdigit()))
                            .and_then(|s| u8::from_str_radix(s, 16).ok());
                        let w = if v != Some(sum(&body)) {
                            W::Die
                        } else if body == b"g" {
                            W::Reg
                        } else if body.first() == Some(&b'g') {
                            W::Die // malformed command
                        } else {
                            W::Empty
                        };
                        pend.clear();
                        w
                    }
                    _ => W::Quiet,
                }
            }
        };
        match want {
            W::Quiet => {
                if !r.raw.is_empty() || r.st != St::Idle {
                    return fail("automaton", format!("byte {:#x}: {:?} {:?}", b, show(&r.raw), r.st));
                }
            }
            W::Reg => r.expect(&Exp::s("ab"))?,
            W::Empty => r.expect(&Exp::Empty)?,
            W::Int => {
                if r.st != St::CtrlC || !r.raw.is_empty() {
                    return fail("automaton", format!("interrupt byte: {:?} {:?}", show(&r.raw), r.st));
                }
                let r = s.intr(ch, &mut t, None::<MultiThreadStopReason<u32>>);
                if r.st != St::Idle {
                    return fail("automaton", "not idle after the interrupt");
                }
            }
            W::Die => {
                r.expect(&Exp::FatalProto)?;
                if !r.raw.is_empty() {
                    return fail("automaton", "output on a reception error");
                }
                return Ok(());
            }
        }
    }
    Ok(())
}

/// sequences of packets of different lengths through buffers of every size:
/// each is received exactly iff it fits, independent of what came before
fn c02_seq(ch: &mut Ch) -> R {
    let size = ch.choose(ch.by(24, 40)) + 4;
    let owned = ch.flag();
    let n = ch.by(2, 3);
    let mut t = Tgt::<u64>::new(f::PLAIN | f::MONITOR);
    let mut store = vec![b'#'; size];
    let mut s = if owned { Sess::new(&mut t, size) } else { Sess::borrowed(&mut t, &mut store) };
    for _ in 0..n {
        // "X10,<n>:<data>" of every length: the target must see exactly the data
        let len = ch.choose(if ch.quick() { 20 } else { 34 });
        let fill = ch.pick(&[b'a', b'\xff']);
        let data: Vec<u8> = (0..len).map(|i| fill.wrapping_sub(i as u8)).collect();
        if data.iter().any(|b| b"#$}*".contains(b)) {
            return Ok(());
        }
        let mut p = format!("X10,{:x}:", len).into_bytes();
        p.extend_from_slice(&data);
        let fits = p.len() + 4 <= size;
        let r = s.cmd(ch, &mut t, &p);
        let log = t.take_log();
        if fits || owned {
            r.expect(&Exp::ok())?;
            if log != vec![call("write_addrs", &[0, 0x10], &[&data])] {
                return fail("received", format!("sent {} data bytes, target saw {:?}", len, log));
            }
        } else {
            r.expect(&Exp::FatalProto)?;
            if !log.is_empty() || !r.raw.is_empty() {
                return fail("oversize", format!("oversized packet was acted on: {:?}", log));
            }
            return Ok(());
        }
    }
    Ok(())
}

/// flip / drop / insert any single byte anywhere in a framed packet: never acted on
fn c02_corrupt(ch: &mut Ch) -> R {
    let bodies: &[&[u8]] = &[b"M10,2:aabb", b"G01020304", b"m10,4", b"X10,2:ab", b"k", b"D", b"qfThreadInfo"];
    let b = ch.pick(bodies);
    let mut w = frame(b);
    let orig = w.clone();
    // positions after '$' (a broken '$' is junk between packets)
    let pos = 1 + ch.choose(w.len() - 1);
    match ch.choose(3) {
        0 => {
            let v = ch.choose(256) as u8;
            if w[pos] == v {
                return Ok(());
            }
            w[pos] = v
        }
        1 => {
            w.remove(pos);
        }
        _ => w.insert(pos, ch.choose(256) as u8),
    }
    if w.iter().any(|c| *c == b'x' || *c == b'X') && !orig.iter().any(|c| *c == b'X') {
        return Ok(());
    }
    let mut t = rich::<u32>(f::PLAIN);
    let mut s = Sess::new(&mut t, 32);
    // what a correct receiver sees
    let h = w.iter().position(|c| *c == b'#');
    let complete = h.is_some_and(|h| w.len() >= h + 3);
    let valid = h.is_some_and(|h| {
        w.len() >= h + 3
            && core::str::from_utf8(&w[h + 1..h + 3])
                .ok()
                .filter(|s| s.chars().all(|c| c.is_ascii_hexdigit()))
                .and_then(|x| u8::from_str_radix(x, 16).ok())
                == Some(sum(&w[1..h]))
    });
    let r = s.raw(ch, &mut t, &w);
    if valid {
        return Ok(()); // e.g. upper-case digits: still a correct packet
    }
    if !t.log.borrow().is_empty() {
        return fail("corrupt", format!("{:?} reached the target: {:?}", show(&w), t.log.borrow()));
    }
    if complete {
        r.expect(&Exp::FatalProto)
    } else if r.st != St::Idle || !r.raw.is_empty() {
        fail("corrupt", format!("incomplete {:?}: {:?} {:?}", show(&w), show(&r.raw), r.st))
    } else {
        Ok(())
    }
}

// ===================================================================== C03 ===

static C03: Prop = Prop {
    id: "C03",
    scenes: &[
        Scene { name: "runs-in-binary-replies", body: c03_runs },
        Scene { name: "every-byte-and-run-length", body: c03_every },
        Scene { name: "runs-in-hex-replies", body: c03_hex },
        Scene { name: "every-checksum-value", body: c03_sum },
        Scene { name: "every-command-rle-on-off", body: c03_cmds },
        Scene { name: "pairs-of-long-runs", body: c03_pairs },
        Scene { name: "very-long-runs", body: c03_long },
        Scene { name: "repeated-replies", body: c03_endless },
    ],
    assumptions: &["the decoder is the one the GDB manual specifies for run-length encoding"],
};

fn rle_check(ch: &mut Ch, fl: u64, data: &[u8]) -> R {
    let mut t = Tgt::<u32>::new(fl | f::AUXV);
    t.blob = data.to_vec();
    let mut s = Sess::new(&mut t, data.len() + 64);
    let r = s.s(ch, &mut t, &format!("qXfer:auxv:read::0,{:x}", data.len()));
    let p = r.reply()?;
    if fl & f::RLE == 0 && r.raw.contains(&b'*') {
        return fail("rle-off", format!("run-length marker with RLE disabled: {}", show(&r.raw)));
    }
    if p.first() != Some(&b'm') && !data.is_empty() {
        return fail("payload", format!("reply {:?}", show(&p)));
    }
    match unesc(&p[1..]) {
        Ok(d) if d == data => Ok(()),
        Ok(d) => fail("payload", format!("decodes to {:?}, sent {:?}", show(&d), show(data))),
        Err(e) => fail("payload", e),
    }
}

const RUN_BYTES: &[u8] = b"a0b#$}*\x03\x0a\x04\x00\x7f\xffml]+";

fn c03_runs(ch: &mut Ch) -> R {
    let fl = if ch.flag() { f::PLAIN & !f::RLE } else { f::PLAIN };
    let k = 1 + ch.choose(ch.by(2, 3));
    let mut data = vec![];
    for i in 0..k {
        let b = ch.pick(RUN_BYTES);
        let n = if i == 0 {
            1 + ch.choose(130)
        } else if i == 1 {
            ch.pick(&[1usize, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 97, 98, 99, 100])
        } else {
            ch.pick(&[1usize, 4, 7, 8])
        };
        data.extend(std::iter::repeat(b).take(n));
    }
    rle_check(ch, fl, &data)
}

fn c03_every(ch: &mut Ch) -> R {
    let b = ch.choose(256) as u8;
    let n = ch.choose(ch.by(110, 330)) + 1;
    let pre = ch.pick(&[None, Some(b'z')]);
    let post = ch.pick(&[None, Some(b'z'), Some(b ^ 0x20), Some(b'}')]);
    let mut data: Vec<u8> = pre.into_iter().collect();
    data.extend(std::iter::repeat(b).take(n));
    data.extend(post);
    rle_check(ch, f::PLAIN, &data)
}

fn c03_hex(ch: &mut Ch) -> R {
    let rle = ch.flag();
    let mut t = Tgt::<u32>::new(if rle { f::PLAIN } else { f::PLAIN & !f::RLE });
    let n = 1 + ch.choose(ch.by(120, 220));
    let b = ch.pick(&[0u8, 0x11, 0x10, 0xaa, 0x55, 0xff, 0x0f]);
    let tail = ch.pick(&[0u8, 0x12, 0xff]);
    for i in 0..n {
        t.mem.insert(0x100 + i as u128, b);
    }
    t.mem.insert(0x100 + n as u128, tail);
    let mut s = Sess::new(&mut t, 512);
    let mut want = vec![b; n];
    want.push(tail);
    let r = s.s(ch, &mut t, &format!("m100,{:x}", n + 1));
    r.expect(&Exp::s(hex(&want)))?;
    t.regs = want.iter().map(|b| Some(*b)).chain([None; 3]).collect();
    let r = s.s(ch, &mut t, "g");
    r.expect(&Exp::s(hex(&want) + "xxxxxx"))
}

/// all 256 checksums, in both modes, with the '#' and digits following every kind of tail
fn c03_sum(ch: &mut Ch) -> R {
    let fl = if ch.flag() { f::PLAIN & !f::RLE } else { f::PLAIN };
    let target = ch.choose(256) as u8;
    let tail = ch.pick(b"a0b}*\x00\xffcf");
    let tn = 1 + ch.choose(ch.by(12, 16));
    let mut data = vec![b'q'; 1];
    data.extend(std::iter::repeat(tail).take(tn));
    // choose a filler so that the *decoded* sum varies over all values
    data[0] = target;
    rle_check(ch, fl, &data)
}

/// every command answers the same decoded payload with RLE on and off
fn c03_cmds(ch: &mut Ch) -> R {
    let p = ch.pick(PACKETS);
    let multi = if ch.flag() { f::MULTI } else { 0 };
    let mut outs = vec![];
    for rle in [0, f::RLE] {
        let mut t = rich::<u32>((f::ALL & !f::RLE) | rle | multi);
        rich_xml();
        t.blob = vec![b'a'; 40];
        t.regs = vec![Some(0); 60];
        t.monitor_out = vec![Some(vec![b'w'; 30])];
        t.extra_info = vec![b'U'; 30];
        t.mem_fill = |_| 0x33;
        let mut s = Sess::new(&mut t, 256);
        let r = s.cmd(ch, &mut t, p);
        if matches!(r.st, St::Err(_)) {
            outs.push((r.st.clone(), vec![], t.take_log()));
            continue;
        }
        let (_, pk) = r.split()?;
        if rle == 0 && r.raw.contains(&b'*') {
            return fail("rle-off", format!("{}: {}", show(p), show(&r.raw)));
        }
        outs.push((r.st.clone(), pk, t.take_log()));
    }
    if outs[0] != outs[1] {
        return fail("rle-differs", format!("{}: {:?} / {:?}", show(p), outs[0], outs[1]));
    }
    Ok(())
}

// ===================================================================== C04 ===

static C04: Prop = Prop {
    id: "C04",
    scenes: &[
        Scene { name: "command-sequences", body: c04_seq },
        Scene { name: "every-command", body: c04_each },
        Scene { name: "client-acks", body: c04_acks },
        Scene { name: "repeated-commands", body: c04_endless },
    ],
    assumptions: &[],
};

#[derive(PartialEq)]
enum Kind {
    /// one reply
    One,
    /// any number of console packets, then one reply
    Con,
    /// no reply until the target stops
    Run,
    /// reply, then the session ends
    End,
    /// session ends, reply optional
    EndQuiet,
    /// protocol error
    Die,
}

fn kind_of(p: &[u8], fl: u64) -> Kind {
    let has = |m: u64| fl & m == m;
    match p {
        b"D" | b"D;1" => Kind::End,
        b"k" | b"vKill;1" => {
            if has(f::EXT) {
                Kind::One
            } else {
                Kind::EndQuiet
            }
        }
        b"c" | b"c10" => {
            if has(f::RESUME) {
                Kind::Run
            } else {
                Kind::Con
            }
        }
        b"s" | b"s10" | b"vCont;s:1;c" => {
            if !has(f::RESUME) {
                if p[0] == b's' { Kind::Con } else { Kind::One }
            } else if has(f::STEP) {
                Kind::Run
            } else {
                Kind::Die
            }
        }
        b"vCont;c" => {
            if has(f::RESUME) {
                Kind::Run
            } else {
                Kind::One
            }
        }
        b"bc" if has(f::RESUME | f::RCONT) => Kind::Run,
        b"bs" if has(f::RESUME | f::RSTEP) => Kind::Run,
        b"qRcmd,68656c70" => Kind::Con,
        _ => Kind::One,
    }
}

fn c04_seq(ch: &mut Ch) -> R {
    const SEQ: &[&[u8]] = &[
        b"QStartNoAckMode",
        b"?",
        b"qSupported:multiprocess+",
        b"m10,4",
        b"mffff,4",
        b"X10,1:a",
        b"qRcmd,68656c70",
        b"vCont;c",
        b"s",
        b"qTfP",
        b"vMustReplyEmpty",
        b"Z1,10,4",
        b"k",
        b"D",
    ];
    let fl = ch.pick(&[f::ALL, f::ALL & !f::EXT, f::ALL & !f::NOACK | f::MULTI, f::PLAIN]);
    let depth = ch.by(4, 5);
    let mut t = rich::<u32>(fl);
    t.terminate = fl & f::EXT != 0 && ch.flag();
    rich_xml();
    let mut s = Sess::new(&mut t, 128);
    for _ in 0..depth {
        let p = ch.pick(SEQ);
        if !one_cmd(ch, &mut t, &mut s, p, fl)? {
            if !matches!(s.st(), St::Disc(_)) {
                return Ok(());
            }
            // what was agreed about acknowledgements holds for the rest of the connection
            s.reidle();
        }
    }
    Ok(())
}

/// returns whether the session goes on
fn one_cmd(ch: &mut Ch, t: &mut Tgt<u32>, s: &mut Sess<'_, Tgt<u32>>, p: &[u8], fl: u64) -> Result<bool, Fail> {
    let r = s.cmd(ch, t, p);
    let k = match kind_of(p, fl) {
        Kind::One if t.terminate && matches!(p, b"k" | b"vKill;1") => Kind::End,
        k => k,
    };
    if k == Kind::Die {
        return match r.st {
            St::Err(_) => Ok(false),
            _ => fail("expected-error", format!("{:?}: {:?}", show(p), r.st)),
        };
    }
    let pk = r.pkts()?;
    let w = |m: &str| fail(m, format!("{:?}: {} packets {:?}, state {:?}", show(p), pk.len(), pk.iter().map(|x| show(x)).collect::<Vec<_>>(), r.st));
    match k {
        Kind::One => {
            if pk.len() != 1 || r.st != St::Idle {
                return w("one-reply");
            }
        }
        Kind::Con => {
            if pk.is_empty() || r.st != St::Idle {
                return w("one-reply");
            }
            let (last, con) = pk.split_last().unwrap();
            if con.iter().any(|c| c.first() != Some(&b'O')) || (last.first() == Some(&b'O') && last != b"OK") {
                return w("one-reply");
            }
        }
        Kind::Run => {
            if !pk.is_empty() || r.st != St::Running {
                return w("reply-before-stop");
            }
            if !r.flushed {
                return fail("ack-not-flushed", format!("the acknowledgement of {:?} is still unflushed while the target runs", show(p)));
            }
            let r = s.stop(ch, t, MultiThreadStopReason::<u32>::Signal(Signal::SIGTRAP));
            let pk = r.pkts()?;
            if pk.len() != 1 || r.st != St::Idle {
                return w("one-stop-reply");
            }
        }
        Kind::End => {
            if pk != [b"OK".to_vec()] || !matches!(r.st, St::Disc(_)) {
                return w("final-reply");
            }
            return Ok(false);
        }
        Kind::EndQuiet => {
            if !pk.is_empty() || !matches!(r.st, St::Disc(_)) {
                return w("final-reply");
            }
            return Ok(false);
        }
        Kind::Die => unreachable!(),
    }
    if p == b"QStartNoAckMode" {
        if fl & f::NOACK != 0 {
            if pk != [b"OK".to_vec()] {
                return w("no-ack-reply");
            }
            s.noack = true;
        } else if pk != [b"".to_vec()] {
            return w("no-ack-reply");
        }
    }
    Ok(true)
}

/// every known packet, with and without acknowledgements
fn c04_each(ch: &mut Ch) -> R {
    let p = ch.pick(PACKETS);
    let fl = f::ALL | if ch.flag() { f::MULTI } else { 0 };
    let mut t = rich::<u32>(fl);
    rich_xml();
    let mut s = Sess::new(&mut t, 128);
    if ch.flag() {
        s.s(ch, &mut t, "QStartNoAckMode").expect(&Exp::ok())?;
        s.noack = true;
    }
    for _ in 0..2 {
        let r = s.cmd(ch, &mut t, p);
        if matches!(r.st, St::Err(_)) {
            return Ok(());
        }
        let pk = r.pkts()?;
        match &r.st {
            St::Running => {
                if !pk.is_empty() {
                    return fail("reply-before-stop", format!("{}: {:?}", show(p), pk));
                }
                let r = s.stop(ch, &mut t, MultiThreadStopReason::<u32>::DoneStep);
                if r.pkts()?.len() != 1 {
                    return fail("one-stop-reply", show(p));
                }
            }
            St::Idle => {
                let con = pk.iter().filter(|x| x.first() == Some(&b'O') && *x != b"OK").count();
                // `R` is the one packet without a reply
                let want = (p.first() != Some(&b'R')) as usize;
                if pk.len() - con != want {
                    return fail("one-reply", format!("{}: {} replies", show(p), pk.len()));
                }
            }
            St::Disc(_) => return Ok(()),
            _ => return fail("state", format!("{}: {:?}", show(p), r.st)),
        }
        s.noack |= p == b"QStartNoAckMode";
    }
    Ok(())
}

/// acknowledgements from the client are consumed silently wherever they arrive between packets
fn c04_acks(ch: &mut Ch) -> R {
    let mut t = rich::<u32>(f::ALL);
    let mut s = Sess::new(&mut t, 64);
    for _ in 0..ch.by(6, 8) {
        match ch.choose(5) {
            0 => {
                let st = s.st();
                let r = s.raw(ch, &mut t, b"+");
                if !r.raw.is_empty() || r.st != st {
                    return fail("client-ack", format!("{:?} {:?}", show(&r.raw), r.st));
                }
            }
            1 => {
                if s.st() == St::Idle {
                    s.s(ch, &mut t, "qAttached").reply()?;
                }
            }
            2 => {
                if s.st() == St::Idle {
                    s.s(ch, &mut t, "vCont;c").expect(&Exp::Runs)?;
                }
            }
            3 => {
                if s.st() == St::Running {
                    let r = s.stop(ch, &mut t, MultiThreadStopReason::<u32>::DoneStep);
                    if r.pkts()? != [b"S05".to_vec()] {
                        return fail("one-stop-reply", show(&r.raw));
                    }
                }
            }
            _ => {
                // a nack cannot be honoured: the session must end with an error
                let r = s.raw(ch, &mut t, b"-");
                return r.expect(&Exp::FatalProto);
            }
        }
    }
    Ok(())
}

// ===================================================================== C08 ===

static C08: Prop = Prop {
    id: "C08",
    scenes: &[
        Scene { name: "fail-each-connection-operation", body: c08_ops },
        Scene { name: "fail-during-stop-reply", body: c08_stop },
        Scene { name: "fail-session-start", body: c08_start },
        Scene { name: "every-command", body: c08_each },
    ],
    assumptions: &["a failing connection fails either for good or for exactly one operation"],
};

struct FaultConn {
    w: Rc<RefCell<Wire>>,
    once: bool,
}
impl gdbstub::conn::Connection for FaultConn {
    type Error = u32;
    fn write(&mut self, byte: u8) -> Result<(), u32> {
        self.op()?;
        self.w.borrow_mut().out.push(byte);
        Ok(())
    }
    fn flush(&mut self) -> Result<(), u32> {
        self.op()?;
        let mut w = self.w.borrow_mut();
        w.flushed = w.out.len();
        Ok(())
    }
    fn on_session_start(&mut self) -> Result<(), u32> {
        self.op()
    }
}
impl FaultConn {
    fn op(&self) -> Result<(), u32> {
        let mut w = self.w.borrow_mut();
        let k = w.count;
        w.count += 1;
        let bad = match w.fail_at {
            Some(f) if self.once => k == f,
            Some(f) => k >= f,
            None => false,
        };
        if bad {
            w.failed += 1;
            return Err(CONN_ERR);
        }
        Ok(())
    }
}

enum Ev<'p> {
    Pkt(&'p [u8]),
    Stop(MultiThreadStopReason<u32>),
}

fn fault_run(
    t: &mut Tgt<u32>,
    evs: &[Ev<'_>],
    fail_at: Option<u64>,
    once: bool,
) -> (Result<(), ErrK>, Rc<RefCell<Wire>>) {
    use gdbstub::stub::state_machine::GdbStubStateMachine as G;
    let w = Rc::new(RefCell::new(Wire { fail_at, ..Default::default() }));
    let conn = FaultConn { w: w.clone(), once };
    let stub = GdbStub::<Tgt<u32>, FaultConn>::builder(conn).packet_buffer_size(300).build().unwrap();
    let mut g = match stub.run_state_machine(t) {
        Ok(g) => g,
        Err(e) => return (Err(errk(e)), w),
    };
    for e in evs {
        match e {
            Ev::Pkt(p) => {
                for b in frame(p) {
                    let r = match g {
                        G::Idle(i) => i.incoming_data(t, b),
                        G::Running(i) => i.incoming_data(t, b),
                        _ => return (Ok(()), w),
                    };
                    g = match r {
                        Ok(g) => g,
                        Err(e) => return (Err(errk(e)), w),
                    };
                }
            }
            Ev::Stop(s) => {
                if let G::Running(i) = g {
                    g = match i.report_stop(t, *s) {
                        Ok(g) => g,
                        Err(e) => return (Err(errk(e)), w),
                    };
                }
            }
        }
    }
    (Ok(()), w)
}

fn fault_check(ch: &mut Ch, mk: &dyn Fn() -> Tgt<u32>, evs: &[Ev<'_>], what: &str) -> R {
    let (r0, w0) = fault_run(&mut mk(), evs, None, false);
    let n = w0.borrow().count;
    if let Err(ErrK::Conn(..)) = r0 {
        return fail("spurious", format!("{}: connection error without a fault", what));
    }
    if n <= 1 {
        return Ok(());
    }
    let once = ch.flag();
    let k = 1 + ch.choose(n as usize - 1) as u64;
    let (r, w) = fault_run(&mut mk(), evs, Some(k), once);
    ch.step();
    let w = w.borrow();
    let w0 = w0.borrow();
    ch.outcome(&(k, w.out.len()));
    ch.state(&(what, once, k));
    note!(ch, "{}: fail op {} of {} once={} -> {:?}", what, k, n, once, r);
    match r {
        Err(ErrK::Conn(CONN_ERR, 2)) => {}
        o => {
            return fail(
                "swallowed",
                format!("{}: connection operation {} of {} failed, the session returned {:?}", what, k, n, o),
            )
        }
    }
    if !once && !w0.out.starts_with(&w.out) {
        return fail("prefix", format!("{}: wrote {:?} before the fault", what, show(&w.out)));
    }
    Ok(())
}

fn c08_ops(ch: &mut Ch) -> R {
    const SCN: &[&[&[u8]]] = &[
        &[b"QStartNoAckMode", b"?", b"g"],
        &[b"qSupported:multiprocess+", b"qfThreadInfo", b"qsThreadInfo"],
        &[b"m10,20", b"X10,1:a", b"p0"],
        &[b"qRcmd,6869"],
        &[b"qXfer:features:read:target.xml:0,20"],
        &[b"qTStatus", b"qTfP", b"qTsP", b"qTsP"],
        &[b"qTBuffer:0,10"],
        &[b"QTFrame:0"],
        &[b"qRegisterInfo0"],
        &[b"vFile:fstat:3", b"vFile:pread:3,4,0"],
        &[b"D"],
        &[b"k"],
        &[b"zz"],
    ];
    let sc = ch.pick(SCN);
    let multi = if ch.flag() { f::MULTI } else { 0 };
    let lov = if ch.flag() { f::LLDBOV } else { 0 };
    let evs: Vec<Ev<'_>> = sc.iter().map(|p| Ev::Pkt(p)).collect();
    let mk = move || {
        let mut t = rich::<u32>(f::ALL & !f::LLDBOV & !f::EXT & !f::XMLOV | multi | lov);
        t.tb_chunks = vec![vec![1, 2], vec![3], vec![]];
        t.lldb_override = Some(|_| {
            use gdbstub::arch::lldb::*;
            Some(Register {
                name: "ovr",
                alt_name: Some("x"),
                bitsize: 32,
                offset: 4,
                encoding: Encoding::Uint,
                format: Format::Hex,
                set: "S",
                gcc: Some(1),
                dwarf: Some(2),
                generic: None,
                container_regs: Some(&[1, 2, 3]),
                invalidate_regs: Some(&[4]),
            })
        });
        rich_xml();
        t
    };
    fault_check(ch, &mk, &evs, &show(&sc.join(&b' ')))
}

fn c08_stop(ch: &mut Ch) -> R {
    use gdbstub::target::ext::base::reverse_exec::ReplayLogPosition;
    use gdbstub::target::ext::breakpoints::WatchKind;
    use gdbstub::target::ext::catch_syscalls::CatchSyscallPosition;
    let tid = Tid::new(2).unwrap();
    let reasons: [MultiThreadStopReason<u32>; 9] = [
        BaseStopReason::DoneStep,
        BaseStopReason::Exited(3),
        BaseStopReason::Terminated(Signal(9)),
        BaseStopReason::Signal(Signal(5)),
        BaseStopReason::SignalWithThread { tid, signal: Signal(2) },
        BaseStopReason::SwBreak(tid),
        BaseStopReason::Watch { tid, kind: WatchKind::Read, addr: 0x1234 },
        BaseStopReason::ReplayLog { tid: Some(tid), pos: ReplayLogPosition::End },
        BaseStopReason::CatchSyscall { tid: Some(tid), number: 7, position: CatchSyscallPosition::Return },
    ];
    let r = ch.pick(&reasons);
    let go = ch.pick(&[b"vCont;c" as &[u8], b"c", b"s", b"bc"]);
    let evs = [Ev::Pkt(b"qSupported:multiprocess+"), Ev::Pkt(go), Ev::Stop(r), Ev::Pkt(b"?")];
    let mk = || rich::<u32>(f::ALL | f::MULTI);
    fault_check(ch, &mk, &evs, &format!("{} {:?}", show(go), r))
}

fn c08_start(ch: &mut Ch) -> R {
    let mut t = rich::<u32>(f::PLAIN);
    let once = ch.flag();
    let (r, w) = fault_run(&mut t, &[Ev::Pkt(b"g")], Some(0), once);
    ch.step();
    ch.state(&once);
    if r != Err(ErrK::Conn(CONN_ERR, 0)) {
        return fail("init", format!("failing on_session_start gave {:?}", r));
    }
    if !w.borrow().out.is_empty() || !t.log.borrow().is_empty() {
        return fail("init", "the session went on after on_session_start failed");
    }
    Ok(())
}

fn c08_each(ch: &mut Ch) -> R {
    let p = ch.pick(PACKETS);
    let fl = ch.pick(&[f::ALL, f::ALL | f::MULTI, f::PLAIN & !f::RLE]);
    let evs = [Ev::Pkt(p), Ev::Stop(MultiThreadStopReason::<u32>::DoneStep), Ev::Pkt(b"?")];
    let mk = move || {
        let t = rich::<u32>(fl);
        rich_xml();
        t
    };
    fault_check(ch, &mk, &evs, &show(p))
}

// ============================================================== long things ===

/// long packets of every kind: hostile numbers, lists and data
fn c01_long(ch: &mut Ch) -> R {
    let p = ch.pick(PACKETS).to_vec();
    let multi = ch.flag();
    let mut t = rich::<u32>(if multi { f::ALL | f::MULTI } else { f::ALL & !f::XMLOV & !f::LLDBOV });
    rich_xml();
    let unit = ch.pick(&[&b"0"[..], b"f", b",", b";", b":", b"-", b"}", b";c", b";1", b"X1,00", b"R0", b"\xff", b";r0,1:1", b"p", b".", b"+;", b"x", b" "]);
    let n = ch.pick(ch.by(&[64usize, 0x1_0000][..], &[16, 17, 64, 255, 256, 1000, 4096, 0x1_0000, 0x2_0000]));
    // in place of the arguments, in front of or behind them
    let cut = p.iter().position(|c| b":;,".contains(c)).map(|i| i + 1).unwrap_or(p.len());
    let place = ch.choose(3);
    let mut q = if place == 2 { p.clone() } else { p[..cut].to_vec() };
    for _ in 0..n {
        q.extend_from_slice(unit);
    }
    if place == 1 {
        q.extend_from_slice(&p[cut..]);
    }
    let mut buf = vec![0u8; 600];
    let borrowed = ch.flag();
    let mut s = if borrowed { Sess::borrowed(&mut t, &mut buf) } else { Sess::new(&mut t, 64) };
    survive(ch, &mut t, &mut s, &frame(&q))
}

/// packets of any length, through buffers that just fit or just do not
fn c02_long(ch: &mut Ch) -> R {
    let len = match ch.choose(2) {
        0 => ch.choose(ch.by(600, 2500)),
        _ => ch.pick(LENS),
    };
    let mut t = Tgt::<u64>::new(f::PLAIN);
    let data: Vec<u8> = (0..len).map(|i| b'a' + ((i + i / 256) % 26) as u8).collect();
    let mut p = format!("X10,{:x}:", len).into_bytes();
    p.extend_from_slice(&data);
    let kind = ch.choose(4);
    let size = [p.len().max(7) + 4, p.len() + 3, p.len() + 4, 64][kind];
    let mut store = vec![0u8; size];
    let mut s = if kind < 2 { Sess::borrowed(&mut t, &mut store) } else { Sess::new(&mut t, size) };
    // an owned buffer also has to forget long packets
    for round in 0..2 {
        let r = s.cmd(ch, &mut t, &p);
        let log = t.take_log();
        if kind == 1 {
            r.expect(&Exp::FatalProto)?;
            if !log.is_empty() || !r.raw.is_empty() {
                return fail("oversize", format!("a packet of {} bytes was acted on with a buffer of {}", p.len() + 4, size));
            }
            return Ok(());
        }
        r.expect(&Exp::ok())?;
        if log != vec![call("write_addrs", &[0, 0x10], &[&data])] {
            return fail("received", format!("round {}: {} bytes of data were received wrongly", round, len));
        }
        let r = s.cmd(ch, &mut t, b"X20,1:z");
        r.expect(&Exp::ok())?;
        if t.take_log() != vec![call("write_addrs", &[0, 0x20], &[b"z"])] {
            return fail("received", format!("a short packet after {} bytes was received wrongly", len));
        }
    }
    Ok(())
}

/// every byte value at every place of packets of many lengths
fn c02_bytes(ch: &mut Ch) -> R {
    let all: &[usize] = &[1, 2, 3, 5, 8, 13, 16, 31, 32, 33, 55, 63, 64, 65, 100, 120, 127, 128, 129, 200, 255, 256, 257, 300, 511, 513, 700, 1024, 1500];
    let len = ch.pick(&all[..ch.by(24, all.len())]);
    let pos = ch.choose(len);
    let owned = ch.flag();
    let mut t = Tgt::<u64>::new(f::PLAIN);
    let mut data: Vec<u8> = (0..len).map(|i| b'a' + ((i + i / 256) % 26) as u8).collect();
    let mut store = vec![0u8; len + 20];
    let mut s = if owned { Sess::new(&mut t, 16) } else { Sess::borrowed(&mut t, &mut store) };
    for b in 0..=255u8 {
        if b == b'#' || b == b'}' {
            continue;
        }
        ch.step();
        data[pos] = b;
        let mut p = format!("X10,{:x}:", len).into_bytes();
        p.extend_from_slice(&data);
        s.cmd(ch, &mut t, &p).expect(&Exp::ok())?;
        if t.take_log() != vec![call("write_addrs", &[0, 0x10], &[&data])] {
            return fail("received", format!("{} bytes of data with {:#x} at {} were received wrongly", len, b, pos));
        }
    }
    Ok(())
}

/// one session that never ends: a pattern of packets, over and over
fn c02_endless(ch: &mut Ch) -> R {
    let (k, rounds) = match ch.choose(3) {
        0 => (3, 600),
        1 => (2, 3000),
        _ => (1, ch.by(70_000, 140_000)),
    };
    let mut t = Tgt::<u32>::new(f::PLAIN);
    let owned = ch.flag();
    let mut store = vec![0u8; 40];
    let mut s = if owned { Sess::new(&mut t, 40) } else { Sess::borrowed(&mut t, &mut store) };
    ch.lasso(k);
    for i in 0..rounds {
        match ch.choose(6) {
            0 => {
                s.s(ch, &mut t, "X10,3:abc").expect(&Exp::ok())?;
                if t.take_log() != vec![call("write_addrs", &[0, 0x10], &[b"abc"])] {
                    return fail("received", format!("packet {} was received wrongly", i));
                }
            }
            1 => {
                s.s(ch, &mut t, "X10,1b:abcdefghijklmnopqrstuvwxyz,").expect(&Exp::ok())?;
                if t.take_log() != vec![call("write_addrs", &[0, 0x10], &[b"abcdefghijklmnopqrstuvwxyz,"])] {
                    return fail("received", format!("packet {} was received wrongly", i));
                }
            }
            2 => {
                let r = s.raw(ch, &mut t, b"+");
                if !r.raw.is_empty() || r.st != St::Idle {
                    return fail("ack", format!("after {} steps an acknowledgement gave {:?}", i, r));
                }
            }
            3 => s.s(ch, &mut t, "").expect(&Exp::Empty)?,
            4 => s.s(ch, &mut t, "qAttached").expect(&Exp::s("1"))?,
            _ => {
                let r = s.raw(ch, &mut t, b"\x03");
                if !r.raw.is_empty() || r.st != St::CtrlC {
                    return fail("interrupt", format!("after {} steps an interrupt gave {:?}", i, r));
                }
                let r = s.intr(ch, &mut t, None::<MultiThreadStopReason<u32>>);
                if !r.raw.is_empty() || r.st != St::Idle {
                    return fail("interrupt", format!("after {} steps an interrupt ended in {:?}", i, r));
                }
            }
        }
        t.take_log();
    }
    Ok(())
}

/// two runs of any lengths next to each other
fn c03_pairs(ch: &mut Ch) -> R {
    let (a, b) = ch.pick(&[(b'a', b'b'), (b'}', b'}'), (b'#', b'a'), (b'0', b'*')]);
    let n = 1 + ch.choose(ch.by(210, 420));
    let m = 1 + ch.choose(ch.by(110, 420));
    let mut data = vec![a; n];
    data.push(b'|');
    data.extend(vec![b; m]);
    rle_check(ch, f::PLAIN, &data)
}

/// very long runs
fn c03_long(ch: &mut Ch) -> R {
    let n = match ch.choose(2) {
        0 => 1 + ch.choose(ch.by(2500, 10_000)),
        _ => ch.pick(crate::props::LENS),
    };
    let b = ch.pick(&[b'a', 0, b'}', 0xff]);
    let mut data = vec![b; n];
    if ch.flag() {
        data.push(b ^ 1);
    }
    let fl = if ch.flag() { f::PLAIN } else { f::PLAIN & !f::RLE };
    rle_check(ch, fl, &data)
}

/// one session that never ends: replies of all kinds, over and over
fn c03_endless(ch: &mut Ch) -> R {
    let (k, rounds) = match ch.choose(3) {
        0 => (3, 600),
        1 => (2, 3000),
        _ => (1, ch.by(70_000, 140_000)),
    };
    let mut t = Tgt::<u32>::new(f::PLAIN | f::MONITOR | f::AUXV | f::RESUME);
    t.regs = vec![Some(0); 40];
    t.blob = vec![b'}'; 30];
    t.monitor_out = vec![Some(vec![b'3'; 20]), None, Some(b"x".to_vec())];
    let mut s = Sess::new(&mut t, 100);
    ch.lasso(k);
    for _ in 0..rounds {
        match ch.choose(6) {
            0 => s.s(ch, &mut t, "g").expect(&Exp::s("00".repeat(40)))?,
            1 => {
                let p = s.s(ch, &mut t, "qXfer:auxv:read::0,1e").reply()?;
                if !matches!(p.split_first(), Some((b'l' | b'm', d)) if unesc(d).as_deref() == Ok(&t.blob[..])) {
                    return fail("payload", format!("{:?}", show(&p)));
                }
            }
            2 => {
                let r = s.s(ch, &mut t, "qRcmd,61");
                let p = r.pkts()?;
                let mut out = vec![];
                for x in p.iter().filter(|x| x.first() == Some(&b'O') && *x != b"OK") {
                    out.extend(unhex(&x[1..]).unwrap_or_default());
                }
                if p.last().map(|x| &x[..]) != Some(b"OK") || out != [vec![b'3'; 20], b"x".to_vec()].concat() {
                    return fail("payload", format!("{:?}", r));
                }
            }
            3 => s.s(ch, &mut t, "qAttached").expect(&Exp::s("1"))?,
            4 => s.s(ch, &mut t, "").expect(&Exp::Empty)?,
            _ => {
                s.s(ch, &mut t, "c").expect(&Exp::Runs)?;
                s.stop(ch, &mut t, MultiThreadStopReason::<u32>::DoneStep).expect(&Exp::s("S05"))?;
            }
        }
        t.take_log();
    }
    Ok(())
}

/// acknowledgements and replies stay one to one for as long as a session lasts
fn c04_endless(ch: &mut Ch) -> R {
    const SEQ: &[&[u8]] = &[b"?", b"m10,4", b"mffff,4", b"X10,1:a", b"qRcmd,68656c70", b"vCont;c", b"s", b"vMustReplyEmpty", b"QStartNoAckMode"];
    let (k, rounds) = match ch.choose(3) {
        0 => (3, 600),
        1 => (2, 3000),
        _ => (1, ch.by(70_000, 140_000)),
    };
    let fl = f::ALL | if ch.flag() { f::MULTI } else { 0 };
    let mut t = rich::<u32>(fl);
    let mut s = Sess::new(&mut t, 128);
    ch.lasso(k);
    for _ in 0..rounds {
        let p = ch.pick(SEQ);
        if !one_cmd(ch, &mut t, &mut s, p, fl)? {
            return fail("ended", "the session ended");
        }
        t.take_log();
    }
    Ok(())
}
