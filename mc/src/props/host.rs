//! C23: host I/O.

use crate::client::*;
use crate::props::*;
use crate::sess::*;
use gdbstub::target::ext::host_io::*;

pub const PROPS: &[&Prop] = &[&C23];

static C23: Prop = Prop {
    id: "C23",
    scenes: &[
        Scene { name: "names", body: c23_names },
        Scene { name: "name-bytes", body: c23_name_bytes },
        Scene { name: "open-flags", body: c23_flags },
        Scene { name: "open-modes", body: c23_modes },
        Scene { name: "constants", body: c23_consts },
        Scene { name: "descriptors", body: c23_fds },
        Scene { name: "results", body: c23_results },
        Scene { name: "every-errno", body: c23_errno },
        Scene { name: "io-errors", body: c23_ioerr },
        Scene { name: "pread", body: c23_pread },
        Scene { name: "pread-bytes", body: c23_pread_bytes },
        Scene { name: "pread-numbers", body: c23_pread_nums },
        Scene { name: "pwrite-every-string", body: c23_pwrite },
        Scene { name: "pwrite-every-byte", body: c23_pwrite_bytes },
        Scene { name: "pwrite-offsets-u8", body: c23_pwoff::<u8> },
        Scene { name: "pwrite-offsets-u16", body: c23_pwoff::<u16> },
        Scene { name: "pwrite-offsets-u32", body: c23_pwoff::<u32> },
        Scene { name: "pwrite-offsets-u64", body: c23_pwoff::<u64> },
        Scene { name: "fstat", body: c23_fstat },
        Scene { name: "readlink", body: c23_readlink },
        Scene { name: "small-buffers", body: c23_small },
        Scene { name: "lying-target", body: c23_lie },
        Scene { name: "malformed", body: c23_bad },
        Scene { name: "histories", body: c23_hist },
        Scene { name: "long", body: c23_long },
        Scene { name: "once-more", body: c23_again },
    ],
    assumptions: &[
        "a target returns as much as was asked for, as long as it has it and it fits the buffer",
        "flags and modes outside of the sets GDB and LLDB define may be refused in any way that reaches no target call",
    ],
};

const H: u64 = f::NOACK | f::GUARD | f::RLE | f::HOSTALL;

/// `F<hex>[;data]`
fn fparse(r: &Rep) -> Result<(u128, Option<Vec<u8>>), Fail> {
    let rep = r.reply()?;
    let bad = |m: &str| fail("format", format!("{}: replied {:?}: {}", r.what, show(&rep), m));
    let Some(x) = rep.strip_prefix(b"F") else { return bad("no F") };
    let (n, d) = match x.iter().position(|b| *b == b';') {
        None => (x, None),
        Some(i) => (&x[..i], Some(&x[i + 1..])),
    };
    let Some(v) = num(n) else { return bad("no number") };
    let d = match d {
        None => None,
        Some(d) => match unesc(d) {
            Ok(d) => Some(d),
            Err(e) => return bad(&e),
        },
    };
    Ok((v, d))
}
fn want_f(r: &Rep, v: u128, data: Option<&[u8]>) -> R {
    let got = fparse(r)?;
    if got.0 != v || got.1.as_deref() != data {
        return fail("result", format!("{}: result {:x?}, expected {:x} {:x?}", r.what, got, v, data));
    }
    Ok(())
}
/// `F-1,<errno>`
fn want_errno(r: &Rep, e: u128) -> R {
    let rep = r.reply()?;
    if rep.strip_prefix(b"F-1,").and_then(num) != Some(e) {
        return fail("errno", format!("{}: replied {:?}, expected errno {:x}", r.what, show(&rep), e));
    }
    Ok(())
}
/// refused somehow, but without reaching the target and without a result
fn refused(r: &Rep, t_log: Vec<Call>) -> R {
    want_calls(t_log, &[], &r.what)?;
    if r.st == St::Idle {
        let rep = r.reply()?;
        if rep.first() == Some(&b'F') && !rep.starts_with(b"F-1") {
            return fail("accepted", format!("{}: replied {:?}", r.what, show(&rep)));
        }
    }
    Ok(())
}

/// (head, tail, call name) of the operations that take a name
fn named(i: usize, name: &[u8]) -> (String, Call) {
    let h = hex(name);
    match i {
        0 => (format!("vFile:open:{},202,1b6", h), call("h_open", &[0x202, 0x1b6], &[name])),
        1 => (format!("vFile:unlink:{}", h), call("h_unlink", &[], &[name])),
        _ => (format!("vFile:readlink:{}", h), call("h_readlink", &[], &[name])),
    }
}
fn named_result(t: &Tgt<u32>, i: usize, r: &Rep) -> R {
    match i {
        0 => want_f(r, t.fd as u128, None),
        1 => want_f(r, 0, None),
        _ => want_f(r, t.blob.len() as u128, Some(&t.blob)),
    }
}

fn c23_names(ch: &mut Ch) -> R {
    let i = ch.choose(3);
    let mut t = Tgt::<u32>::new(H);
    t.blob = b"/x".to_vec();
    let n = ch.choose(ch.by(6, 7));
    let name: Vec<u8> = (0..n).map(|_| ch.pick(&[b'/', 0u8, b',', 0xff, b'#', b':'])).collect();
    let mut s = Sess::new(&mut t, 256);
    let (p, c) = named(i, &name);
    let p = if ch.flag() { p.replace("ff", "FF").replace("2c", "2C") } else { p };
    let r = s.s(ch, &mut t, &p);
    if name.is_empty() && matches!(r.st, St::Err(_)) {
        return refused(&r, t.take_log());
    }
    want_calls(t.take_log(), &[c], &r.what)?;
    named_result(&t, i, &r)
}

fn c23_name_bytes(ch: &mut Ch) -> R {
    let i = ch.choose(3);
    let mut t = Tgt::<u32>::new(H);
    t.blob = vec![];
    let b = ch.choose(256) as u8;
    let n = ch.pick(&[1usize, 2, 7, 90]);
    let mut s = Sess::new(&mut t, 256);
    let (p, c) = named(i, &vec![b; n]);
    let r = s.s(ch, &mut t, &p);
    want_calls(t.take_log(), &[c], &r.what)?;
    named_result(&t, i, &r)
}

/// GDB's flags, and the ones LLDB adds
const FLAGS: &[u128] = &[1, 2, 8, 0x200, 0x400, 0x800, 1 << 28, 1 << 29, 1 << 30, 1 << 31];
const MODES: &[u128] = &[0o100000, 0o40000, 0o400, 0o200, 0o100, 0o40, 0o20, 0o10, 4, 2, 1];

fn open(ch: &mut Ch, t: &mut Tgt<u32>, fl: &str, mode: &str) -> Rep {
    let mut s = Sess::new(t, 128);
    s.s(ch, t, &format!("vFile:open:61,{},{}", fl, mode))
}

fn c23_flags(ch: &mut Ch) -> R {
    let mut t = Tgt::<u32>::new(H);
    if ch.flag() {
        // every combination of the protocol's flags
        let v: u128 = FLAGS.iter().map(|b| if ch.flag() { *b } else { 0 }).sum();
        let st = ch.choose(4);
        let r = open(ch, &mut t, &num_style(st, v), "0");
        want_calls(t.take_log(), &[call("h_open", &[v, 0], &[b"a"])], &r.what)?;
        return want_f(&r, 3, None);
    }
    // every single bit
    let v = 1u128 << ch.choose(40);
    let r = open(ch, &mut t, &format!("{:x}", v), "1b6");
    if FLAGS.contains(&v) {
        want_calls(t.take_log(), &[call("h_open", &[v, 0x1b6], &[b"a"])], &r.what)?;
        return want_f(&r, 3, None);
    }
    let log = deeds(t.take_log());
    // bits the library knows beyond the protocol are passed as they are
    if !log.is_empty() && v <= u32::MAX as u128 {
        return want_calls(log, &[call("h_open", &[v, 0x1b6], &[b"a"])], &r.what);
    }
    refused(&r, log)
}

fn c23_modes(ch: &mut Ch) -> R {
    let mut t = Tgt::<u32>::new(H);
    if ch.flag() {
        let v: u128 = MODES.iter().map(|b| if ch.flag() { *b } else { 0 }).sum();
        let r = open(ch, &mut t, "601", &format!("{:x}", v));
        want_calls(t.take_log(), &[call("h_open", &[0x601, v], &[b"a"])], &r.what)?;
        return want_f(&r, 3, None);
    }
    let v = 1u128 << ch.choose(40);
    let r = open(ch, &mut t, "0", &format!("{:x}", v));
    let log = deeds(t.take_log());
    if MODES.contains(&v) || (!log.is_empty() && v <= u32::MAX as u128) {
        return want_calls(log, &[call("h_open", &[0, v], &[b"a"])], &r.what);
    }
    refused(&r, log)
}

/// the named constants a target compares with are the protocol's
fn c23_consts(ch: &mut Ch) -> R {
    use HostIoOpenFlags as O;
    use HostIoOpenMode as M;
    let fl = [
        (O::O_RDONLY, 0u32),
        (O::O_WRONLY, 1),
        (O::O_RDWR, 2),
        (O::O_APPEND, 8),
        (O::O_CREAT, 0x200),
        (O::O_TRUNC, 0x400),
        (O::O_EXCL, 0x800),
        (O::O_NONBLOCK, 1 << 28),
        (O::O_DONT_FOLLOW_SYMLINKS, 1 << 29),
        (O::O_CLOSE_ON_EXEC, 1 << 30),
        (O::O_INVALID, 1 << 31),
    ];
    let mo = [
        (M::S_IFREG, 0o100000u32),
        (M::S_IFDIR, 0o40000),
        (M::S_IRUSR, 0o400),
        (M::S_IWUSR, 0o200),
        (M::S_IXUSR, 0o100),
        (M::S_IRGRP, 0o40),
        (M::S_IWGRP, 0o20),
        (M::S_IXGRP, 0o10),
        (M::S_IROTH, 4),
        (M::S_IWOTH, 2),
        (M::S_IXOTH, 1),
    ];
    let i = ch.choose(fl.len() + mo.len());
    ch.step();
    ch.outcome(&i);
    let (a, b) = if i < fl.len() { (fl[i].0.bits(), fl[i].1) } else { (mo[i - fl.len()].0.bits(), mo[i - fl.len()].1) };
    if a != b {
        return fail("constant", format!("constant {} is {:o}, the protocol has {:o}", i, a, b));
    }
    Ok(())
}

const FDS: &[u128] = &[0, 1, 3, 9, 0xa, 0xf, 0x10, 0xff, 0x100, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff];

/// (packet, call, what a success looks like)
fn fdop(i: usize, fd: &str, v: u128, t: &Tgt<u32>) -> (String, Call, u128, Option<Vec<u8>>) {
    match i {
        0 => (format!("vFile:close:{}", fd), call("h_close", &[v], &[]), 0, None),
        1 => (
            format!("vFile:pread:{},4,2", fd),
            call("h_pread", &[v, 4, 2], &[]),
            t.blob[2..6].len() as u128,
            Some(t.blob[2..6].to_vec()),
        ),
        2 => (format!("vFile:pwrite:{},2,ab", fd), call("h_pwrite", &[v, 2], &[b"ab"]), t.pwrite_ret, None),
        3 => (format!("vFile:fstat:{}", fd), call("h_fstat", &[v], &[]), 64, Some(stat_bytes(&t.stat))),
        _ => (format!("vFile:setfs:{}", fd), call("h_setfs", &[v], &[]), 0, None),
    }
}

fn stat_bytes(st: &[u64; 13]) -> Vec<u8> {
    let mut v = vec![];
    for (i, x) in st.iter().enumerate() {
        if (7..10).contains(&i) {
            v.extend(x.to_be_bytes());
        } else {
            v.extend((*x as u32).to_be_bytes());
        }
    }
    v
}

fn c23_fds(ch: &mut Ch) -> R {
    let i = ch.choose(5);
    let v = ch.pick(FDS);
    let st = ch.choose(4);
    let mut t = Tgt::<u32>::new(H);
    t.blob = (0..20).collect();
    t.pwrite_ret = 2;
    t.stat[7] = 77;
    let (p, c, n, d) = fdop(i, &num_style(st, v), v, &t);
    let mut s = Sess::new(&mut t, 256);
    let r = s.s(ch, &mut t, &p);
    want_calls(t.take_log(), &[c], &r.what)?;
    want_f(&r, n, d.as_deref())
}

/// every result value of open, pwrite
fn c23_results(ch: &mut Ch) -> R {
    let mut t = Tgt::<u32>::new(H);
    let v = if ch.flag() { ch.pick(FDS) } else { ch.choose(ch.by(0x2100, 0x1_1000)) as u128 };
    t.fd = v as u32;
    t.pwrite_ret = v;
    let mut s = Sess::new(&mut t, 256);
    let p = ch_pick2(ch);
    let r = s.s(ch, &mut t, p);
    want_f(&r, v, None)
}
fn ch_pick2(ch: &mut Ch) -> &'static str {
    ch.pick(&["vFile:open:61,0,0", "vFile:pwrite:1,0,x"])
}

const OPS: &[(&str, &str)] = &[
    ("h_open", "vFile:open:61,0,0"),
    ("h_close", "vFile:close:3"),
    ("h_pread", "vFile:pread:3,4,0"),
    ("h_pwrite", "vFile:pwrite:3,0,ab"),
    ("h_fstat", "vFile:fstat:3"),
    ("h_unlink", "vFile:unlink:61"),
    ("h_readlink", "vFile:readlink:61"),
    ("h_setfs", "vFile:setfs:0"),
];

fn c23_errno(ch: &mut Ch) -> R {
    let (f, p) = ch.pick(OPS);
    let e = ch.pick(HERRNOS);
    let mut t = Tgt::<u32>::new(H);
    t.blob = vec![1; 10];
    t.inj = vec![(f, 0, Inj::Host(e))];
    let mut s = Sess::new(&mut t, 256);
    let r = s.s(ch, &mut t, p);
    want_errno(&r, e as u128)?;
    // and the session goes on
    let r = s.s(ch, &mut t, p);
    fparse(&r).map(|_| ())
}

/// errors of the standard library, converted for the client
fn c23_ioerr(ch: &mut Ch) -> R {
    use std::io::ErrorKind::*;
    let (k, want): (std::io::ErrorKind, &[u32]) = ch.pick(&[
        (NotFound, &[2][..]),
        (PermissionDenied, &[1, 13]),
        (AlreadyExists, &[17]),
        (Interrupted, &[4]),
        (InvalidInput, &[22]),
        (UnexpectedEof, &[9999]),
        (Other, &[9999]),
        (BrokenPipe, &[9999]),
        (WouldBlock, &[9999]),
        (InvalidData, &[9999]),
    ]);
    ch.step();
    ch.outcome(&format!("{:?}", k));
    let got = match HostIoError::<u32>::from(std::io::Error::from(k)) {
        HostIoError::Errno(e) => e as u32,
        HostIoError::Fatal(_) => return fail("io-error", format!("{:?} is fatal", k)),
    };
    if !want.contains(&got) {
        return fail("io-error", format!("{:?} became errno {}", k, got));
    }
    Ok(())
}

fn c23_pread(ch: &mut Ch) -> R {
    let mut t = Tgt::<u32>::new(H);
    let n = ch.choose(ch.by(40, 80));
    t.blob = (0..n).map(|i| [0x7d, 0x61, 0x23, 0x2a, 0, 0x24, 0xff][i % 7]).collect();
    let off = ch.choose(n + 2);
    let cnt = ch.choose(n + 2);
    if !ch.flag() {
        t.fl &= !f::RLE;
    }
    let blob = t.blob.clone();
    let mut s = Sess::new(&mut t, 256);
    let r = s.s(ch, &mut t, &format!("vFile:pread:3,{:x},{:x}", cnt, off));
    want_calls(t.take_log(), &[call("h_pread", &[3, cnt as u128, off as u128], &[])], &r.what)?;
    let d = &blob[off.min(n)..(off + cnt).min(n)];
    want_f(&r, d.len() as u128, Some(d))
}

fn c23_pread_bytes(ch: &mut Ch) -> R {
    let mut t = Tgt::<u32>::new(H);
    let a = ch.choose(256) as u8;
    let n = 1 + ch.choose(ch.by(40, 200));
    t.blob = vec![a; n];
    if ch.flag() {
        let b = ch.pick(&[0x7du8, 0x23, 0x24, 0x2a, 0x3b]);
        t.blob.push(b);
    }
    let d = t.blob.clone();
    let link = ch.flag();
    let mut s = Sess::new(&mut t, 256);
    let r = if link {
        s.s(ch, &mut t, "vFile:readlink:61")
    } else {
        s.s(ch, &mut t, &format!("vFile:pread:3,{:x},0", d.len()))
    };
    want_f(&r, d.len() as u128, Some(&d))
}

fn c23_pread_nums(ch: &mut Ch) -> R {
    let mut t = Tgt::<u32>::new(H);
    t.blob = (0..100).collect();
    let m = u64::MAX as u128;
    let e = [0u128, 1, 0xf, 0x10, 0x63, 0x64, 0xff, 0x100, 0xffff, 0xffff_ffff, 0x1_0000_0000, m / 2 + 1, m];
    let off = ch.pick(&e);
    let cnt = ch.pick(&e);
    let fd = ch.pick(&[3u128, 0, 0xff, 0xffff, 0x1_0000, 0x7fff_ffff, 0xffff_ffff]);
    let st = ch.choose(4);
    let blob = t.blob.clone();
    let mut s = Sess::new(&mut t, 256);
    let r = s.s(ch, &mut t, &format!("vFile:pread:{:x},{},{}", fd, num_style(st, cnt), num_style(st, off)));
    want_calls(t.take_log(), &[call("h_pread", &[fd, cnt, off], &[])], &r.what)?;
    let d = &blob[off.min(100) as usize..off.saturating_add(cnt).min(100) as usize];
    want_f(&r, d.len() as u128, Some(d))
}

fn pwrite(ch: &mut Ch, wire: &[u8], data: &[u8]) -> R {
    let mut t = Tgt::<u32>::new(H);
    t.pwrite_ret = data.len() as u128;
    let mut s = Sess::new(&mut t, 1024);
    let mut p = b"vFile:pwrite:5,1f,".to_vec();
    p.extend(wire);
    let r = s.cmd(ch, &mut t, &p);
    want_calls(t.take_log(), &[call("h_pwrite", &[5, 0x1f], &[data])], &r.what)?;
    want_f(&r, data.len() as u128, None)
}

fn c23_pwrite(ch: &mut Ch) -> R {
    let n = ch.choose(ch.by(7, 9));
    let d: Vec<u8> = (0..n).map(|_| ch.pick(&[b',', b'}', b'#', 0u8, b';', 0xff])).collect();
    pwrite(ch, &esc(&d), &d)
}

fn c23_pwrite_bytes(ch: &mut Ch) -> R {
    let b = ch.choose(256) as u8;
    let n = ch.pick(&[1usize, 2, 17, 300]);
    let mut d = vec![b; n];
    d.push(b',');
    // a client may escape any byte
    let wire = if ch.flag() { d.iter().flat_map(|x| [b'}', x ^ 0x20]).collect() } else { esc(&d) };
    if wire.chunks(2).any(|c| c[0] == b'}' && matches!(c.get(1), Some(b'#' | b'$'))) {
        return Ok(()); // a '#' cannot be on the wire
    }
    pwrite(ch, &wire, &d)
}

fn c23_pwoff<U: HU>(ch: &mut Ch) -> R {
    let mut t = Tgt::<U>::new(H);
    t.pwrite_ret = 1;
    let max = U::max_value().big();
    let mut e = addrs(U::BITS);
    e.extend([max + 1, max + 2, max * 2 + 1, max * 16, 5]);
    let off = ch.pick(&e);
    let st = ch.choose(4);
    let mut s = Sess::new(&mut t, 256);
    let r = s.s(ch, &mut t, &format!("vFile:pwrite:7,{},z", num_style(st, off)));
    if off > max {
        want_calls(t.take_log(), &[], &r.what)?;
        if r.st == St::Idle && r.reply()?.starts_with(b"F") && !r.reply()?.starts_with(b"F-1") {
            return fail("truncated", format!("{}: accepted", r.what));
        }
        return Ok(());
    }
    want_calls(t.take_log(), &[call("h_pwrite", &[7, off], &[b"z"])], &r.what)?;
    want_f(&r, 1, None)
}

fn c23_fstat(ch: &mut Ch) -> R {
    let mut t = Tgt::<u32>::new(H);
    for i in 0..13 {
        t.stat[i] = if i == 2 { 0o100644 } else { 0x0101_0101 * (i as u64 + 1) };
    }
    let i = ch.choose(14);
    if i < 13 {
        let w = (7..10).contains(&i);
        let v = match ch.choose(3) {
            0 => 1u64 << ch.choose(64),
            1 => ch.pick(&[0, u64::MAX, u32::MAX as u64, 0x1122_3344_5566_7788, 0x7d23_2a24_7d23_2a24, 0x7d7d_7d7d]),
            _ => ch.choose(256) as u64 * 0x0101_0101_0101_0101,
        };
        let v = if w { v } else { v & 0xffff_ffff };
        t.stat[i] = if i == 2 {
            // modes only have the protocol's bits
            HostIoOpenMode::from_bits_truncate(v as u32).bits() as u64
        } else {
            v
        };
    }
    if !ch.flag() {
        t.fl &= !f::RLE;
    }
    let want = stat_bytes(&t.stat);
    let mut s = Sess::new(&mut t, 256);
    let r = s.s(ch, &mut t, "vFile:fstat:3");
    want_f(&r, 64, Some(&want))
}

fn c23_readlink(ch: &mut Ch) -> R {
    let mut t = Tgt::<u32>::new(H);
    let n = ch.choose(ch.by(120, 600));
    t.blob = (0..n).map(|i| (i as u8).wrapping_mul(7)).collect();
    let b = t.blob.clone();
    let mut s = Sess::new(&mut t, 700);
    let r = s.s(ch, &mut t, "vFile:readlink:2f");
    want_calls(t.take_log(), &[call("h_readlink", &[], &[b"/"])], &r.what)?;
    want_f(&r, n as u128, Some(&b))
}

/// results are cut to the buffer, never corrupted
fn c23_small(ch: &mut Ch) -> R {
    let mut t = Tgt::<u32>::new(H);
    t.blob = (0..60u8).map(|i| i ^ 0x55).collect();
    let b = t.blob.clone();
    let link = ch.flag();
    let pkt = if link { "vFile:readlink:61".to_string() } else { "vFile:pread:3,ffff,0".to_string() };
    let size = pkt.len() + ch.choose(ch.by(100, 400));
    let borrowed = ch.flag();
    let mut buf = vec![0u8; size];
    let mut s = if borrowed { Sess::borrowed(&mut t, &mut buf) } else { Sess::new(&mut t, size) };
    let r = s.s(ch, &mut t, &pkt);
    if matches!(r.st, St::Err(_)) {
        if borrowed && size < pkt.len() + 4 {
            return Ok(());
        }
        return fail("error", format!("{}: {:?} with a buffer of {}", r.what, r.st, size));
    }
    let (n, d) = fparse(&r)?;
    let d = d.unwrap_or_default();
    if n != d.len() as u128 || !b.starts_with(&d) || (d.is_empty() && size > pkt.len() + 8) {
        return fail("cut", format!("{}: {} bytes announced, {:x?}", r.what, n, d));
    }
    if size >= pkt.len() + 4 + 60 && d != b {
        return fail("cut", format!("{}: only {} bytes with a buffer of {}", r.what, d.len(), size));
    }
    Ok(())
}

fn c23_lie(ch: &mut Ch) -> R {
    let mut t = Tgt::<u32>::new(H);
    let size = ch.pick(&[64usize, 100]);
    t.len_override = Some(ch.pick(&[size + 1, 2 * size, 5000, usize::MAX]));
    t.blob = vec![7; 20];
    let mut s = Sess::new(&mut t, size);
    let p = ch_pick3(ch);
    let r = s.s(ch, &mut t, p);
    if r.st == St::Idle && !is_err(&r.reply()?) && !r.reply()?.starts_with(b"F-1,") {
        return fail("over-read", format!("{}: data from beyond the buffer", r.what));
    }
    Ok(())
}
fn ch_pick3(ch: &mut Ch) -> &'static str {
    ch.pick(&["vFile:pread:3,10,0", "vFile:readlink:61"])
}

fn c23_bad(ch: &mut Ch) -> R {
    let mut t = Tgt::<u32>::new(H);
    t.blob = vec![7; 20];
    let p = ch.pick(&[
        "vFile:open:61", "vFile:open:61,0", "vFile:open:6g,0,0", "vFile:open:61,,0", "vFile:open:61,0,", "vFile:open:61,0,0,0",
        "vFile:open", "vFile:close:", "vFile:close", "vFile:close:100000000", "vFile:close:-1", "vFile:close:g",
        "vFile:pread:3", "vFile:pread:3,4", "vFile:pread:3,4,", "vFile:pread:,4,0", "vFile:pread:3,10000000000000000,0",
        "vFile:pread:3,1,10000000000000000", "vFile:pread:3,1,0,0", "vFile:pwrite:3", "vFile:pwrite:3,0", "vFile:pwrite:g,0,a",
        "vFile:pwrite:3,g,a", "vFile:pwrite:3,0,a}", "vFile:fstat:", "vFile:fstat:1ffffffff", "vFile:fstat", "vFile:unlink:6g",
        "vFile:unlink", "vFile:readlink:zz", "vFile:readlink", "vFile:setfs:", "vFile:setfs:g", "vFile:setfs",
        "vFile:setfs:10000000000000000", "vFile:", "vFile", "vFile:nosuch:1", "vFile:lstat:61",
    ]);
    let mut s = Sess::new(&mut t, 256);
    let r = s.s(ch, &mut t, p);
    refused(&r, t.take_log())
}

/// sequences of operations: each stands for itself
fn c23_hist(ch: &mut Ch) -> R {
    let mut t = Tgt::<u32>::new(H);
    t.pwrite_ret = 9;
    let mut s = Sess::new(&mut t, 256);
    for k in 0..ch.by(5, 6) {
        t.blob = vec![b'0' + k as u8; 6];
        t.fd = 10 + k as u32;
        t.stat[0] = k as u64;
        let i = ch.choose(9);
        let (p, c, n, d) = match i {
            0 | 1 => {
                let (p, c) = named(i, &[b'n', k as u8]);
                (p, c, if i == 0 { t.fd as u128 } else { 0 }, None)
            }
            2 => {
                let (p, c) = named(2, &[b'n', k as u8]);
                (p, c, 6, Some(t.blob.clone()))
            }
            3..=7 => {
                let fd = 3 + k as u128;
                fdop(i - 3, &format!("{:x}", fd), fd, &t)
            }
            _ => {
                t.inj = vec![("h_close", 0, Inj::Host(9))];
                let r = s.s(ch, &mut t, "vFile:close:63");
                want_calls(t.take_log(), &[call("h_close", &[0x63], &[])], &r.what)?;
                // counted once per target
                if !r.reply()?.starts_with(b"F") {
                    return fail("format", "close");
                }
                continue;
            }
        };
        t.inj.clear();
        let r = s.s(ch, &mut t, &p);
        want_calls(t.take_log(), &[c], &r.what)?;
        want_f(&r, n, d.as_deref())?;
    }
    Ok(())
}

fn c23_long(ch: &mut Ch) -> R {
    let n = match ch.choose(2) {
        0 => ch.choose(ch.by(600, 4000)),
        _ => ch.pick(LENS),
    };
    let mut t = Tgt::<u32>::new(H);
    let data: Vec<u8> = match ch.choose(3) {
        0 => (0..n).map(|i| (i * 7 + i / 256) as u8).collect(),
        1 => vec![b'}'; n],
        _ => vec![0x61; n],
    };
    let k = ch.choose(5);
    let mut s = Sess::new(&mut t, 2 * n + 64);
    match k {
        i @ 0..=2 => {
            if n == 0 {
                return Ok(());
            }
            t.blob = b"/x".to_vec();
            let (p, c) = named(i, &data);
            let r = s.s(ch, &mut t, &p);
            want_calls(t.take_log(), &[c], "a long name")?;
            named_result(&t, i, &r)
        }
        3 => {
            t.blob = data.clone();
            let r = s.s(ch, &mut t, &format!("vFile:pread:3,{:x},0", n));
            want_calls(t.take_log(), &[call("h_pread", &[3, n as u128, 0], &[])], "a long read")?;
            want_f(&r, n as u128, Some(&data))
        }
        _ => {
            t.pwrite_ret = n as u128;
            let mut p = b"vFile:pwrite:3,10,".to_vec();
            p.extend(esc(&data));
            let r = s.cmd(ch, &mut t, &p);
            want_calls(t.take_log(), &[call("h_pwrite", &[3, 0x10], &[&data])], "a long write")?;
            want_f(&r, n as u128, None)
        }
    }
}
