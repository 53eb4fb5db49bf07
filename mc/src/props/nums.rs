//! C32: numbers, on the wire and in bytes.

use crate::client::*;
use crate::props::corpus::*;
use crate::props::*;
use crate::sess::*;
use gdbstub::common::*;
use gdbstub::internal::{BeBytes, LeBytes};
use gdbstub::stub::*;
use gdbstub::target::ext::breakpoints::WatchKind;
use gdbstub::target::ext::catch_syscalls::CatchSyscallPosition;

pub const PROPS: &[&Prop] = &[&C32];

static C32: Prop = Prop {
    id: "C32",
    scenes: &[
        Scene { name: "bytes-8-and-16", body: c32_small },
        Scene { name: "bytes-wide", body: c32_wide },
        Scene { name: "bytes-any-length", body: c32_len },
        Scene { name: "decode-short-strings", body: c32_dec },
        Scene { name: "decode-edges", body: c32_edges },
        Scene { name: "decode-not-a-number", body: c32_bad },
        Scene { name: "encode-16-bits", body: c32_enc16 },
        Scene { name: "encode-edges", body: c32_enc },
    ],
    assumptions: &["the x that stands for an unavailable digit is read as 0, as the library documents"],
};

// ------------------------------------------------------------------- bytes ---

/// An integer type seen through its bit pattern.
trait Int: BeBytes + LeBytes + Copy + PartialEq + core::fmt::Debug {
    const N: usize;
    fn from_bits(v: u128) -> Self;
    fn bits(self) -> u128;
}
macro_rules! int {
    ($($t:ty)*) => {$(
        impl Int for $t {
            const N: usize = core::mem::size_of::<$t>();
            fn from_bits(v: u128) -> Self { v as $t }
            fn bits(self) -> u128 {
                if Self::N == 16 { self as u128 } else { self as u128 & ((1u128 << (8 * Self::N)) - 1) }
            }
        }
    )*};
}
int!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);

fn one<I: Int>(bits: u128) -> R {
    let v = I::from_bits(bits);
    let le = &bits.to_le_bytes()[..I::N];
    let mut be = le.to_vec();
    be.reverse();
    let bad = |m: String| fail("bytes", format!("{} {:#x}: {}", std::any::type_name::<I>(), bits, m));
    for room in 0..=I::N + 2 {
        let mut a = vec![0xa5u8; room];
        let mut b = a.clone();
        let (x, y) = (BeBytes::to_be_bytes(v, &mut a), LeBytes::to_le_bytes(v, &mut b));
        let want = (room >= I::N).then_some(I::N);
        if x != want || y != want {
            return bad(format!("{:?}/{:?} bytes written to a buffer of {}", x, y, room));
        }
        if room >= I::N && (a[..I::N] != be[..] || b[..I::N] != le[..]) {
            return bad(format!("written as {:02x?}/{:02x?}", a, b));
        }
        if room >= I::N && (a[I::N..].iter().any(|c| *c != 0xa5) || b[I::N..].iter().any(|c| *c != 0xa5)) {
            return bad("wrote behind the value".into());
        }
    }
    let x = <I as BeBytes>::from_be_bytes(&be).map(I::bits);
    let y = <I as LeBytes>::from_le_bytes(le).map(I::bits);
    if x != Some(bits) || y != Some(bits) {
        return bad(format!("read back as {:x?}/{:x?}", x, y));
    }
    Ok(())
}
/// reading `b`, most significant byte first
fn read<I: Int>(be: &[u8]) -> R {
    let mut le = be.to_vec();
    le.reverse();
    let sig: Vec<u8> = be.iter().copied().skip_while(|b| *b == 0).collect();
    let want = (sig.len() <= I::N).then(|| sig.iter().fold(0u128, |a, b| a << 8 | *b as u128));
    let x = <I as BeBytes>::from_be_bytes(be).map(I::bits);
    let y = <I as LeBytes>::from_le_bytes(&le).map(I::bits);
    if x != want || y != want {
        return fail(
            "bytes-length",
            format!("{} from {:02x?}: {:x?} (big endian), {:x?} (little endian), expected {:x?}", std::any::type_name::<I>(), be, x, y, want),
        );
    }
    Ok(())
}
macro_rules! each_int {
    ($k:expr, $f:ident, $($a:expr),*) => {
        match $k {
            0 => $f::<u8>($($a),*),
            1 => $f::<i8>($($a),*),
            2 => $f::<u16>($($a),*),
            3 => $f::<i16>($($a),*),
            4 => $f::<u32>($($a),*),
            5 => $f::<i32>($($a),*),
            6 => $f::<u64>($($a),*),
            7 => $f::<i64>($($a),*),
            8 => $f::<usize>($($a),*),
            9 => $f::<isize>($($a),*),
            10 => $f::<u128>($($a),*),
            _ => $f::<i128>($($a),*),
        }
    };
}
fn width(k: usize) -> usize {
    [1, 1, 2, 2, 4, 4, 8, 8, 8, 8, 16, 16][k]
}

fn c32_small(ch: &mut Ch) -> R {
    let k = ch.choose(4);
    let hi = ch.choose(if k < 2 { 1 } else { 256 });
    for lo in 0..256 {
        ch.step();
        each_int!(k, one, (hi * 256 + lo) as u128)?;
    }
    Ok(())
}
fn c32_wide(ch: &mut Ch) -> R {
    let k = 4 + ch.choose(8);
    let n = width(k);
    // every pair of byte positions takes every pair of interesting values
    let i = ch.choose(n);
    let j = ch.choose(n);
    let fill = ch.pick(&[0u8, 0xff, 0x5a]);
    for a in 0..=255u8 {
        for b in [0u8, 1, 0x7f, 0x80, 0xfe, 0xff] {
            ch.step();
            let mut x = [0u8; 16];
            for (p, c) in x[..n].iter_mut().enumerate() {
                *c = if fill == 0x5a { (p as u8).wrapping_mul(37) ^ fill } else { fill };
            }
            x[i] = a;
            x[j] = b;
            each_int!(k, one, u128::from_le_bytes(x))?;
        }
    }
    Ok(())
}
fn c32_len(ch: &mut Ch) -> R {
    let k = ch.choose(12);
    let len = ch.choose(width(k) + 4);
    // the leading bytes vary freely, the rest is fixed
    let free = len.min(ch.by(3, 4));
    let mut b = vec![];
    for _ in 0..free {
        b.push(ch.pick(&[0u8, 1, 0x7f, 0x80, 0xff]));
    }
    let tail = ch.choose(3);
    while b.len() < len {
        let p = b.len() as u8;
        b.push([0, 0xff, p.wrapping_mul(41) ^ 0x93][tail]);
    }
    each_int!(k, read, &b)?;
    // the varying bytes on the other side
    b.reverse();
    each_int!(k, read, &b)
}

// ---------------------------------------------------------------- decoding ---

struct Slot {
    /// packet around the number
    pre: &'static str,
    post: &'static str,
    /// bits of the number, 0 = those of the address space
    bits: u32,
    /// the call it reaches the target with, and where in it
    f: &'static str,
    arg: usize,
    /// flags on top of everything
    multi: bool,
    /// values the request does not allow for
    no: fn(u128) -> bool,
    /// packet sent afterwards
    then: &'static str,
}
const ANY: fn(u128) -> bool = |_| false;
const ZERO: fn(u128) -> bool = |v| v == 0;
const fn sl(pre: &'static str, post: &'static str, bits: u32, f: &'static str, arg: usize) -> Slot {
    Slot { pre, post, bits, f, arg, multi: false, no: ANY, then: "" }
}
const fn slz(pre: &'static str, post: &'static str, bits: u32, f: &'static str, arg: usize) -> Slot {
    Slot { no: ZERO, ..sl(pre, post, bits, f, arg) }
}
const fn mt(s: Slot) -> Slot {
    Slot { multi: true, ..s }
}
const SLOTS: &[Slot] = &[
    sl("m", ",1", 0, "read_addrs", 1),
    sl("M", ",1:5a", 0, "write_addrs", 1),
    sl("X", ",1:a", 0, "write_addrs", 1),
    sl("Z0,", ",2", 0, "add_sw", 0),
    sl("z0,", ",2", 0, "remove_sw", 0),
    Slot { no: |v| v == BAD_KIND as u128, ..sl("Z0,0,", "", 64, "add_sw", 1) },
    sl("Z1,", ",2", 0, "add_hw", 0),
    Slot { no: |v| v == BAD_KIND as u128, ..sl("z1,0,", "", 64, "remove_hw", 1) },
    sl("Z2,", ",1", 0, "add_watch", 0),
    sl("Z3,0,", "", 0, "add_watch", 1),
    sl("z4,0,", "", 0, "remove_watch", 1),
    Slot { no: |v| v > 0x3f, ..sl("p", "", 64, "read_register", 1) },
    Slot { no: |v| v > 0x3f, ..sl("P", "=00", 64, "write_register", 1) },
    sl("qXfer:auxv:read::", ",10", 64, "auxv", 0),
    sl("qXfer:auxv:read::0,", "", 64, "auxv", 1),
    sl("qXfer:memory-map:read::", ",10", 64, "memory_map", 0),
    slz("qXfer:exec-file:read:", ":0,10", 64, "exec_file", 0),
    sl("vFile:open:61,0,", "", 32, "h_open", 1),
    sl("vFile:close:", "", 32, "h_close", 0),
    sl("vFile:pread:", ",1,0", 32, "h_pread", 0),
    sl("vFile:pread:3,", ",0", 64, "h_pread", 1),
    sl("vFile:pread:3,1,", "", 64, "h_pread", 2),
    sl("vFile:pwrite:", ",0,a", 32, "h_pwrite", 0),
    sl("vFile:pwrite:3,", ",a", 0, "h_pwrite", 1),
    sl("vFile:fstat:", "", 32, "h_fstat", 0),
    sl("vFile:setfs:", "", 64, "h_setfs", 0),
    slz("vAttach;", "", 64, "attach", 0),
    slz("vKill;", "", 64, "kill", 0),
    slz("qAttached:", "", 64, "query_if_attached", 0),
    sl("QCatchSyscalls:1;", "", 0, "catch_some", 0),
    sl("QCatchSyscalls:1;1;", ";2", 0, "catch_some", 1),
    sl("QTDP:", ":0:E:0:0", 64, "tp_begin", 0),
    sl("QTDP:1:", ":E:0:0", 0, "tp_begin", 2),
    sl("QTDP:1:0:E:", ":0", 64, "tp_begin", 3),
    sl("QTDP:1:0:E:0:", "", 64, "tp_begin", 4),
    sl("qTP:", ":0", 64, "tp_status", 0),
    sl("qTP:1:", "", 0, "tp_status", 1),
    sl("QTDPsrc:", ":0:cmd:0:1:61", 64, "tp_source", 0),
    sl("QTDPsrc:1:", ":cmd:0:1:61", 0, "tp_source", 1),
    sl("QTDPsrc:1:0:cmd:", ":1:61", 32, "tp_source", 3),
    sl("QTDPsrc:1:0:cmd:0:", ":61", 32, "tp_source", 4),
    sl("QTFrame:", "", 64, "select_frame", 1),
    sl("QTFrame:pc:", "", 0, "select_frame", 1),
    sl("QTFrame:tdp:", "", 64, "select_frame", 1),
    sl("QTFrame:range:", ":0", 0, "select_frame", 1),
    sl("QTFrame:range:0:", "", 0, "select_frame", 2),
    sl("QTFrame:outside:", ":0", 0, "select_frame", 1),
    sl("QTFrame:outside:0:", "", 0, "select_frame", 2),
    sl("qTBuffer:", ",1", 64, "tb_request", 0),
    sl("qTBuffer:0,", "", 64, "tb_request", 1),
    sl("QTBuffer:size:", "", 64, "tb_configure", 1),
    sl("qRegisterInfo", "", 64, "lldb_register_info", 0),
    sl("vCont;C", "", 8, "resume", 0),
    sl("vCont;S", "", 8, "step", 0),
    sl("vCont;r", ",0", 0, "range_step", 0),
    sl("vCont;r0,", "", 0, "range_step", 1),
    mt(slz("qThreadExtraInfo,", "", 64, "thread_extra_info", 0)),
    mt(slz("qThreadExtraInfo,p1.", "", 64, "thread_extra_info", 0)),
    mt(slz("vCont;c:", "", 64, "set_continue", 0)),
    mt(slz("vCont;s:p1.", "", 64, "set_step", 0)),
    mt(sl("vCont;C", ":1", 8, "set_continue", 1)),
    mt(sl("vCont;r", ",0:1", 0, "set_range", 1)),
    mt(sl("vCont;r0,", ":1", 0, "set_range", 2)),
    mt(Slot { then: "m0,1", ..slz("Hg", "", 64, "read_addrs", 0) }),
    mt(Slot { then: "g", ..slz("Hgp1.", "", 64, "read_registers", 0) }),
];

fn value(s: &str) -> Option<u128> {
    num(s.to_ascii_lowercase().as_bytes())
}
/// None: the digits do not fit 128 bits either
fn check<U: HU>(ch: &mut Ch, sl: &Slot, digits: &str) -> R {
    let mut t = rich::<U>(f::ALL | if sl.multi { f::MULTI } else { 0 });
    t.mem_lo = 0;
    t.mem_hi = U::max_value().big();
    let bits = if sl.bits == 0 { U::BITS } else { sl.bits };
    let v = value(digits);
    let fits = v.is_some_and(|v| v >> bits == 0 && !(sl.no)(v));
    if let Some(v) = v.filter(|v| *v > 0 && *v < 1 << 63) {
        if sl.multi {
            t.threads = vec![v as usize];
        }
    }
    // as an id, 0 means something else
    if v == Some(0) && (sl.no)(0) {
        return Ok(());
    }
    // the flags of an open file and its mode are limited by other rules
    if sl.f == "h_open" && v.is_some_and(|v| v > 0o777) {
        return Ok(());
    }
    let mut s = Sess::new(&mut t, 4096);
    t.take_log();
    let p = format!("{}{}{}", sl.pre, digits, sl.post);
    let rep = s.s(ch, &mut t, &p);
    let mut log = t.take_log();
    if fits && !sl.then.is_empty() {
        rep.expect(&Exp::ok())?;
        s.s(ch, &mut t, sl.then);
        log.extend(t.take_log());
    }
    let calls: Vec<&Call> = log.iter().filter(|c| c.f == sl.f).collect();
    if !fits {
        // refused: nothing was done with some other number
        if let Some(c) = calls.iter().find(|c| c.n.len() > sl.arg) {
            return fail("wrapped", format!("{:?} at {} bits reached the target as {:x?}", p, U::BITS, c));
        }
        if matches!(rep.st, St::Running | St::CtrlC) {
            return fail("wrapped", format!("{:?} at {} bits resumed the target", p, U::BITS));
        }
        return Ok(());
    }
    let v = v.unwrap();
    if sl.then.is_empty() && calls.len() != 1 || calls.is_empty() {
        return fail("not-decoded", format!("{:?} at {} bits: {} {} calls, log {:x?}, reply {}", p, U::BITS, calls.len(), sl.f, log, show(&rep.raw)));
    }
    for c in calls {
        if c.n[sl.arg] != v {
            return fail("value", format!("{:?} at {} bits: the target got {:x?}, the number is {:x}", p, U::BITS, c, v));
        }
    }
    Ok(())
}
/// the slot's number in an address space of the chosen width
fn at_width(ch: &mut Ch, w: usize, sl: &Slot, d: &str) -> R {
    match w {
        0 => check::<u8>(ch, sl, d),
        1 => check::<u16>(ch, sl, d),
        2 => check::<u32>(ch, sl, d),
        _ => check::<u64>(ch, sl, d),
    }
}

const DIGITS: &[u8] = b"0123456789abcdefABCDEF";
fn c32_dec(ch: &mut Ch) -> R {
    let i = ch.choose(SLOTS.len());
    let w = if SLOTS[i].bits == 0 { ch.choose(4) } else { 3 };
    let n = 1 + ch.choose(ch.by(3, 4));
    let mut d = String::new();
    for k in 0..n {
        // the first of four digits takes fewer values
        d.push(if k == 0 && n > 2 { ch.pick(b"018fA") } else { ch.pick(DIGITS) } as char);
    }
    at_width(ch, w, &SLOTS[i], &d)
}
fn edge(ch: &mut Ch) -> String {
    let k = ch.choose(131) as u32;
    let d = ch.choose(5);
    let style = ch.choose(5);
    // 2^k - 2 ..= 2^k + 2, as hex, for any k
    let hexs = |v: u128| num_style(style, v);
    if k < 127 {
        hexs(((1u128 << k) + d as u128).saturating_sub(2))
    } else {
        // wider than u128: one nonzero digit, zeros behind
        let z = "0".repeat((k as usize) / 4);
        format!("{}{}", ["1", "2", "4", "8", "01"][d], z)
    }
}
fn c32_edges(ch: &mut Ch) -> R {
    let i = ch.choose(SLOTS.len());
    let w = if SLOTS[i].bits == 0 { ch.choose(4) } else { ch.pick(&[0, 3]) };
    let d = edge(ch);
    at_width(ch, w, &SLOTS[i], &d)
}
fn c32_bad(ch: &mut Ch) -> R {
    let i = ch.choose(SLOTS.len());
    let sl = &SLOTS[i];
    // characters next to the digits, signs, blanks and letters
    let c = ch.pick(b"/@G`gz+ \"_\x7f\x80\xff!~hkPuR\0\n");
    let n = ch.choose(4);
    let at = ch.choose(n + 1);
    let mut d: Vec<u8> = b"1234"[..n].to_vec();
    d.insert(at, c);
    let mut t = rich::<u32>(f::ALL | if sl.multi { f::MULTI } else { 0 });
    t.mem_lo = 0;
    let mut s = Sess::new(&mut t, 4096);
    t.take_log();
    let mut p = sl.pre.as_bytes().to_vec();
    p.extend(&d);
    p.extend(sl.post.as_bytes());
    let rep = s.cmd(ch, &mut t, &p);
    let log = t.take_log();
    if let Some(c) = log.iter().find(|c| c.f == sl.f && c.n.len() > sl.arg) {
        // one of the other forms of the same command
        return fail("not-a-number", format!("{} reached the target as {:x?}", show(&p), c));
    }
    if matches!(rep.st, St::Running | St::CtrlC) {
        return fail("not-a-number", format!("{} resumed the target", show(&p)));
    }
    Ok(())
}

// ---------------------------------------------------------------- encoding ---

/// one number of a reply: prepare the target, provoke the reply, cut out the digits
fn enc<U: HU>(ch: &mut Ch, kind: usize, v: u128) -> Result<Option<u32>, Fail> {
    let mut t = rich::<U>(f::ALL & !f::RLE | if (5..7).contains(&kind) { f::MULTI } else { 0 });
    let small = |b: u32| v >> b == 0;
    let bits = [U::BITS, U::BITS, U::BITS, 32, U::BITS, 63, 63, 64, 64, 64, 64, 64, 64, U::BITS][kind];
    if !small(bits) || matches!(kind, 5 | 6) && v == 0 {
        return Ok(None);
    }
    match kind {
        0 => (t.offsets, t.off_vals) = (0, [v, v, 0]),
        1 => (t.offsets, t.off_vals) = (3, [v, v, 0]),
        3 => t.fd = v as u32,
        4 => t.pwrite_ret = v,
        5 => t.threads = vec![v as usize],
        6 => t.threads = vec![v as usize],
        7 => t.hit = (v as u64, 7),
        8 => t.hit = (7, v as u64),
        9 => t.frames = vec![FrameM::Num(v as u64)],
        10 => t.frames = vec![FrameM::Hit(v as usize)],
        11 => t.infos = vec![InfoM::Frames(v as usize)],
        12 => t.stat[7] = v as u64,
        _ => {}
    }
    let mut s = Sess::new(&mut t, 4096);
    let pkt: &[u8] = match kind {
        0 | 1 => b"qOffsets",
        2 | 13 | 6 => b"vCont;c",
        3 => b"vFile:open:61,0,0",
        4 => b"vFile:pwrite:1,0,a",
        5 => b"qfThreadInfo",
        7 | 8 => b"qTP:1:0",
        9 | 10 => b"QTFrame:0",
        11 => b"qTStatus",
        _ => b"vFile:fstat:1",
    };
    let rep = s.cmd(ch, &mut t, pkt);
    let rep = match kind {
        2 => s.stop(ch, &mut t, MultiThreadStopReason::Watch { tid: Tid::new(1).unwrap(), kind: WatchKind::Write, addr: U::from_big(v) }),
        13 => s.stop(
            ch,
            &mut t,
            MultiThreadStopReason::CatchSyscall {
                tid: None,
                number: U::from_big(v),
                position: CatchSyscallPosition::Entry,
            },
        ),
        6 => s.stop(ch, &mut t, MultiThreadStopReason::SwBreak(Tid::new(v as usize).unwrap())),
        _ => rep,
    };
    let r = rep.reply()?;
    let txt = String::from_utf8_lossy(&r).to_string();
    // the digits after a mark, up to a character of `end`
    let cut = |mark: &str| -> Vec<String> {
        txt.match_indices(mark)
            .map(|(i, m)| txt[i + m.len()..].chars().take_while(|c| matches!(c, '0'..='9' | 'a'..='f')).collect())
            .collect()
    };
    let got = match kind {
        0 => [cut("Text="), cut("Data="), cut("Bss=")].concat(),
        1 => [cut("TextSeg="), cut("DataSeg=")].concat(),
        2 => cut("watch:"),
        3 | 4 => cut("F"),
        5 | 6 if s.mp => cut("."),
        5 => cut("m"),
        6 => cut("thread:"),
        7 => cut("V"),
        8 => cut(":"),
        9 => cut("F"),
        10 => cut("T"),
        11 => cut("tframes:"),
        13 => cut("syscall_entry:"),
        _ => {
            // binary stat: st_size is the 8 bytes at 28, big endian
            let Some(at) = r.iter().position(|b| *b == b';') else { return fail("encode", format!("fstat replied {:?}", txt)) };
            let b = unesc(&r[at + 1..]).map_err(|e| Fail { sig: "encode".into(), msg: e })?;
            vec![b.get(28..36).map_or("".to_string(), hex)]
        }
    };
    if got.is_empty() || got.iter().any(|g| num(g.as_bytes()) != Some(v)) {
        return fail("encode", format!("number {:x} at {} bits in the reply to {}: {:?} (cut out: {:?})", v, U::BITS, show(pkt), txt, got));
    }
    Ok(Some(bits))
}
const KINDS: usize = 14;
fn enc_at(ch: &mut Ch, w: usize, kind: usize, v: u128) -> R {
    match w {
        0 => enc::<u8>(ch, kind, v),
        1 => enc::<u16>(ch, kind, v),
        2 => enc::<u32>(ch, kind, v),
        _ => enc::<u64>(ch, kind, v),
    }
    .map(|_| ())
}
fn c32_enc16(ch: &mut Ch) -> R {
    let kind = ch.choose(KINDS);
    let w = ch.pick(&[0usize, 1, 3]);
    let hi = ch.choose(if w == 0 { 1 } else { 256 });
    // quick: every value of the high byte with a few low ones, and the reverse
    for lo in 0..256usize {
        if ch.quick() && w == 3 && !(hi < 2 || lo < 2 || lo == 0x7f || lo > 0xfd) {
            continue;
        }
        enc_at(ch, w, kind, (hi * 256 + lo) as u128)?;
    }
    Ok(())
}
fn c32_enc(ch: &mut Ch) -> R {
    let kind = ch.choose(KINDS);
    let w = ch.choose(4);
    let k = ch.choose(64) as u32;
    // 2^k - 1, 2^k, 2^k + 1, two bits, a run of bits
    let d = ch.choose(5);
    let j = ch.choose(k as usize + 1);
    let v = match d {
        0 => (1u128 << k) - 1,
        1 => 1 << k,
        2 => (1 << k) + 1,
        3 => (1 << k) | (1 << j),
        _ => (1u128 << k) - (1 << j),
    };
    enc_at(ch, w, kind, v)
}
