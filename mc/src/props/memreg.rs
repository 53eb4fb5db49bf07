//! C10, C11, C12, C13: memory and registers.

use crate::client::*;
use crate::props::*;
use crate::sess::*;
use std::collections::BTreeMap;

pub const PROPS: &[&Prop] = &[&C10, &C11, &C12, &C13];

/// select thread `sel` (0 = leave the default); returns the tid calls must carry
fn select<U: HU>(ch: &mut Ch, s: &mut Sess<'_, Tgt<U>>, t: &mut Tgt<U>, multi: bool) -> Result<u128, Fail> {
    let sel = if multi { ch.pick(&[0usize, 2, 0x1f]) } else { ch.pick(&[0usize, 2]) };
    if sel != 0 {
        let r = s.s(ch, t, &format!("Hg{:x}", sel));
        r.expect(&Exp::ok())?;
    }
    t.take_log();
    Ok(match (multi, sel) {
        (false, _) => 0,
        (true, 0) => 1,
        (true, n) => n as u128,
    })
}

// ===================================================================== C10 ===

static C10: Prop = Prop {
    id: "C10",
    scenes: &[
        Scene { name: "every-byte-address", body: c10_u8 },
        Scene { name: "chunked", body: c10_chunk },
        Scene { name: "edges-u16", body: c10_edges::<u16> },
        Scene { name: "edges-u32", body: c10_edges::<u32> },
        Scene { name: "edges-u64", body: c10_edges::<u64> },
        Scene { name: "short-reads-and-errors", body: c10_short },
        Scene { name: "number-forms", body: c10_forms },
        Scene { name: "long", body: c10_long },
        Scene { name: "once-more", body: c10_again },
        Scene { name: "malformed", body: bad::c10 },
    ],
    assumptions: &[
        "a target answers a read with a prefix of what was asked for",
        "a zero-length read may be answered in any way that touches no memory",
    ],
};

/// the longest readable prefix of [addr, addr+len)
fn readable<U: HU>(t: &Tgt<U>, addr: u128, len: u128) -> Vec<u8> {
    let mut v = vec![];
    while (v.len() as u128) < len {
        let a = addr + v.len() as u128;
        if a > U::max_value().big() || !t.mapped(a) {
            break;
        }
        v.push(t.byte(a));
    }
    v
}

/// calls stay inside the range asked for, on the right thread
fn read_calls(log: &[Call], tid: u128, addr: u128, len: u128) -> R {
    for c in log {
        match c.f {
            "read_addrs" => {
                let (ct, ca, cl) = (c.n[0], c.n[1], c.n[2]);
                if ct != tid {
                    return fail("thread", format!("read on thread {:x}, selected is {:x}", ct, tid));
                }
                if cl != 0 && (ca < addr || ca + cl > addr + len) {
                    return fail(
                        "outside",
                        format!("asked for [{:x}, +{:x}), the target was asked for [{:x}, +{:x})", addr, len, ca, cl),
                    );
                }
            }
            "list_active_threads" => {}
            f => return fail("side-effect", format!("a memory read called {}", f)),
        }
    }
    Ok(())
}

fn check_read<U: HU>(t: &Tgt<U>, r: &Rep, tid: u128, addr: u128, len: u128) -> R {
    let log = t.take_log();
    read_calls(&log, tid, addr, len)?;
    let rep = r.reply()?;
    if len == 0 {
        return Ok(());
    }
    let want = readable(t, addr, len);
    if want.is_empty() {
        if !is_err(&rep) && !(t.unmapped_ok0 && rep.is_empty()) {
            return fail("unreadable", format!("{}: replied {:?}, nothing is readable", r.what, show(&rep)));
        }
        return Ok(());
    }
    match unhex(&rep) {
        Some(b) if b == want => Ok(()),
        _ => fail("data", format!("{}: replied {:?}, memory holds {:?}", r.what, show(&rep), hex(&want))),
    }
}

fn c10_u8(ch: &mut Ch) -> R {
    let multi = ch.flag();
    let mut t = Tgt::<u8>::new(f::PLAIN | if multi { f::MULTI } else { 0 });
    t.threads = vec![1, 2, 0x1f];
    let (lo, hi) = ch.pick(&[(0u128, 0xffu128), (0x20, 0x9f), (0x80, 0xff), (0, 0), (0xff, 0xff)]);
    t.mem_lo = lo;
    t.mem_hi = hi;
    t.unmapped_ok0 = lo == 0x80;
    let size = ch.pick(&[24usize, 300]);
    let addr = ch.choose(256) as u128;
    let len = C10_LENS;
    let len = ch.pick(len);
    let mut s = Sess::new(&mut t, size);
    let tid = if multi && len == 2 { select(ch, &mut s, &mut t, multi)? } else { multi as u128 };
    let r = s.s(ch, &mut t, &format!("m{:x},{:x}", addr, len));
    check_read(&t, &r, tid, addr, len)
}
const C10_LENS: &[u128] = &[
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31,
    32, 33, 34, 40, 48, 63, 64, 65, 0x7f, 0x80, 0x81, 0xfe, 0xff, 0x100, 0x101, 0x1ff, 0x200,
];

/// every length against every (small) buffer size: chunk boundaries everywhere
fn c10_chunk(ch: &mut Ch) -> R {
    let multi = ch.flag();
    let mut t = Tgt::<u32>::new(f::PLAIN | if multi { f::MULTI } else { 0 });
    let size = 12 + ch.choose(ch.by(60, 160));
    let base = ch.pick(&[0x10u128, 0x4321, 0xffff_ffd0]);
    t.mem_lo = base - 4;
    t.mem_hi = (base + ch.pick(&[0x11u128, 0x1f, 0x2f, 0x40])).min(0xffff_ffff);
    let len = ch.choose(ch.by(140, 400)) as u128;
    let borrowed = ch.flag();
    let mut buf = vec![0u8; size];
    let mut s = if borrowed { Sess::borrowed(&mut t, &mut buf) } else { Sess::new(&mut t, size) };
    let pkt = format!("m{:x},{:x}", base, len);
    if borrowed && pkt.len() + 4 > size {
        return Ok(());
    }
    let r = s.s(ch, &mut t, &pkt);
    check_read(&t, &r, multi as u128, base, len)
}

fn c10_edges<U: HU>(ch: &mut Ch) -> R {
    let multi = ch.flag();
    let mut t = Tgt::<U>::new(f::PLAIN | if multi { f::MULTI } else { 0 });
    t.threads = vec![1, 2, 0x1f];
    let a = ch.pick(&addrs(U::BITS));
    let addr = match ch.choose(5) {
        0 => a,
        1 => a.saturating_sub(1),
        2 => a.saturating_sub(3),
        3 => a.saturating_sub(16),
        _ => (a + 5).min(U::max_value().big()),
    };
    match ch.choose(4) {
        0 => {}
        1 => t.mem_lo = a,
        2 => t.mem_hi = a,
        _ => {
            t.mem_lo = a.saturating_sub(8);
            t.mem_hi = a;
        }
    }
    let len = ch.pick(&[1u128, 2, 3, 4, 8, 16, 17, 40]);
    let size = ch.pick(&[40usize, 200]);
    let mut s = Sess::new(&mut t, size);
    let tid = if multi && len == 8 { select(ch, &mut s, &mut t, multi)? } else { multi as u128 };
    let r = s.s(ch, &mut t, &format!("m{:x},{:x}", addr, len));
    check_read(&t, &r, tid, addr, len)
}

/// targets that answer with less than was asked for, or fail, at every chunk
fn c10_short(ch: &mut Ch) -> R {
    let multi = ch.flag();
    let mut t = Tgt::<u32>::new(f::PLAIN | if multi { f::MULTI } else { 0 });
    let size = ch.pick(&[20usize, 32]);
    let addr = 0x40u128;
    let len = 1 + ch.choose(ch.by(90, 260)) as u128;
    let mode = ch.choose(4);
    let nth = ch.choose(4);
    match mode {
        0 => {
            // the nth call comes up short by a given amount
            let cap = ch.choose(ch.by(30, 90));
            t.read_caps = (0..=nth).map(|i| if i == nth { cap } else { usize::MAX }).collect();
        }
        1 => t.inj = vec![("read_addrs", nth, Inj::NonFatal)],
        2 => t.inj = vec![("read_addrs", nth, Inj::Errno(14))],
        _ => t.inj = vec![("read_addrs", nth, Inj::Fatal(77))],
    }
    let full = readable(&t, addr, len);
    let mut s = Sess::new(&mut t, size);
    let r = s.s(ch, &mut t, &format!("m{:x},{:x}", addr, len));
    let log = t.take_log();
    read_calls(&log, multi as u128, addr, len)?;
    let calls = log.iter().filter(|c| c.f == "read_addrs").count();
    if mode == 3 && calls > nth {
        return r.expect(&Exp::FatalTarget(77));
    }
    let rep = r.reply()?;
    if calls <= nth {
        // the disturbed call was never reached
        return match unhex(&rep) {
            Some(b) if b == full => Ok(()),
            _ => fail("data", format!("{}: replied {:?}, expected {:?}", r.what, show(&rep), hex(&full))),
        };
    }
    // bytes obtained by the calls before the disturbed one, and by itself
    let mut low = 0usize;
    for (i, c) in log.iter().filter(|c| c.f == "read_addrs").enumerate() {
        if i < nth {
            low = low.max((c.n[1] + c.n[2] - addr) as usize);
        } else if i == nth && mode == 0 {
            low = low.max((c.n[1] - addr) as usize + (c.n[2] as usize).min(t.read_caps[nth]));
        }
    }
    if low == 0 {
        if is_err(&rep) || (mode == 0 && rep.is_empty()) {
            return Ok(());
        }
        if mode != 0 {
            return fail("error", format!("{}: the read failed, but the reply is {:?}", r.what, show(&rep)));
        }
    }
    match unhex(&rep) {
        Some(b) if full.starts_with(&b) && b.len() >= low => Ok(()),
        _ => fail(
            "partial",
            format!("{}: replied {:?}; memory {:?}, {} bytes were read", r.what, show(&rep), hex(&full), low),
        ),
    }
}

/// every way to write the numbers; addresses that do not fit are refused
fn c10_forms(ch: &mut Ch) -> R {
    match ch.choose(4) {
        0 => c10_form::<u8>(ch),
        1 => c10_form::<u16>(ch),
        2 => c10_form::<u32>(ch),
        _ => c10_form::<u64>(ch),
    }
}
fn c10_form<U: HU>(ch: &mut Ch) -> R {
    let mut t = Tgt::<U>::new(f::PLAIN);
    let mut list = addrs(U::BITS);
    list.extend([1u128 << U::BITS, (1u128 << U::BITS) + 5, 1u128 << (U::BITS + 8), 0x1234_5678_9abc_def0_11]);
    let addr = ch.pick(&list);
    let (a, l) = (ch.choose(5), ch.choose(5));
    let len = ch.pick(&[1u128, 0xa, 0x1f]);
    let mut s = Sess::new(&mut t, 100);
    let r = s.s(ch, &mut t, &format!("m{},{}", num_style(a, addr), num_style(l, len)));
    if addr > U::max_value().big() {
        if !t.take_log().is_empty() {
            return fail("truncated", format!("{}: an address that does not fit reached the target", r.what));
        }
        match &r.st {
            St::Err(ErrK::Other(_)) => return Ok(()),
            _ => {
                let rep = r.reply()?;
                if !is_err(&rep) {
                    return fail("too-wide", format!("{}: replied {:?}", r.what, show(&rep)));
                }
                return Ok(());
            }
        }
    }
    check_read(&t, &r, 0, addr, len)
}

// ===================================================================== C11 ===

static C11: Prop = Prop {
    id: "C11",
    scenes: &[
        Scene { name: "every-byte-value", body: c11_bytes },
        Scene { name: "every-short-string", body: c11_strings },
        Scene { name: "edges", body: c11_edges },
        Scene { name: "errors", body: c11_errors },
        Scene { name: "read-write-histories", body: c11_hist },
        Scene { name: "long", body: c11_long },
        Scene { name: "once-more", body: c11_again },
        Scene { name: "malformed", body: bad::c11 },
    ],
    assumptions: &["writes that run past the end of the address space are left to the target"],
};

/// apply the write calls in order
fn write_effect(log: &[Call], tid: u128) -> Result<BTreeMap<u128, u8>, Fail> {
    let mut m = BTreeMap::new();
    for c in log {
        match c.f {
            "write_addrs" => {
                if c.n[0] != tid {
                    return fail("thread", format!("wrote on thread {:x}, selected is {:x}", c.n[0], tid));
                }
                for (i, b) in c.b[0].iter().enumerate() {
                    m.insert(c.n[1] + i as u128, *b);
                }
            }
            "list_active_threads" => {}
            f => return fail("side-effect", format!("a memory write called {}", f)),
        }
    }
    Ok(m)
}

fn check_write<U: HU>(t: &Tgt<U>, r: &Rep, tid: u128, addr: u128, data: &[u8]) -> R {
    let got = write_effect(&t.take_log(), tid)?;
    let want: BTreeMap<u128, u8> = data.iter().enumerate().map(|(i, b)| (addr + i as u128, *b)).collect();
    if got != want {
        return fail("written", format!("{}: wrote {:x?}, expected {:x?}", r.what, got, want));
    }
    r.expect(&Exp::ok())
}

/// `X` payload; style 0 escapes what must be, 1 everything, 2 what must be plus
/// the byte at each even position
fn xdata(style: usize, d: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    for (i, &b) in d.iter().enumerate() {
        let must = matches!(b, b'#' | b'$' | b'}');
        // (a second `}` stands for 0x5d like any other escaped byte)
        let may = !matches!(b ^ 0x20, b'#' | b'$');
        if must || (may && (style == 1 || (style == 2 && i % 2 == 0))) {
            v.extend([b'}', b ^ 0x20]);
        } else {
            v.push(b)
        }
    }
    v
}

fn write_packet(x: bool, style: usize, addr: u128, d: &[u8]) -> Vec<u8> {
    if x {
        let mut p = format!("X{},{:x}:", num_style(style, addr), d.len()).into_bytes();
        p.extend(xdata(style, d));
        p
    } else {
        let mut h = hex(d);
        if style >= 2 {
            h = h.to_uppercase();
        }
        format!("M{},{}:{}", num_style(style, addr), num_style(style, d.len() as u128), h).into_bytes()
    }
}

fn c11_bytes(ch: &mut Ch) -> R {
    let multi = ch.flag();
    let mut t = Tgt::<u32>::new(f::PLAIN | if multi { f::MULTI } else { 0 });
    t.threads = vec![1, 2, 0x1f];
    let x = ch.flag();
    let style = ch.choose(4);
    let b = ch.choose(256) as u8;
    let data = match ch.choose(4) {
        0 => vec![b],
        1 => vec![b, b],
        2 => vec![0x5d, b, 0x7d],
        _ => vec![b; 70],
    };
    let mut s = Sess::new(&mut t, 400);
    let tid = select(ch, &mut s, &mut t, multi)?;
    let r = s.cmd(ch, &mut t, &write_packet(x, style, 0x1000, &data));
    check_write(&t, &r, tid, 0x1000, &data)
}

fn c11_strings(ch: &mut Ch) -> R {
    let mut t = Tgt::<u32>::new(f::PLAIN);
    let x = ch.flag();
    let style = ch.choose(3);
    let alpha: &[u8] = ch.by(
        &[0, b'$', b'#', b'}', b'*', b':', b',', 0xff],
        &[0, b'$', b'#', b'}', b'*', b':', b',', 0xff, b'+', 3, 0x5d, b'X', b';'],
    );
    let n = ch.choose(5);
    let data: Vec<u8> = (0..n).map(|_| ch.pick(alpha)).collect();
    let p = write_packet(x, style, 0x20, &data);
    // the smallest buffer that fits must do
    let mut buf = vec![0u8; p.len() + 4 + ch.choose(2)];
    let mut s = Sess::borrowed(&mut t, &mut buf);
    let r = s.cmd(ch, &mut t, &p);
    check_write(&t, &r, 0, 0x20, &data)
}

fn c11_edges(ch: &mut Ch) -> R {
    match ch.choose(4) {
        0 => c11_edge::<u8>(ch),
        1 => c11_edge::<u16>(ch),
        2 => c11_edge::<u32>(ch),
        _ => c11_edge::<u64>(ch),
    }
}
fn c11_edge<U: HU>(ch: &mut Ch) -> R {
    let mut t = Tgt::<U>::new(f::PLAIN);
    let max = U::max_value().big();
    let mut list = addrs(U::BITS);
    list.extend([max + 1, max + 6, (max + 1) << 8, (max + 1) << 4]);
    let addr = ch.pick(&list);
    let len = ch.choose(ch.by(40, 300));
    let x = ch.flag();
    let style = ch.choose(5);
    if addr <= max && addr + len as u128 > max + 1 {
        return Ok(());
    }
    let data: Vec<u8> = (0..len).map(|i| (i as u8).wrapping_mul(37) ^ 0x1f).collect();
    let mut s = Sess::new(&mut t, 200);
    let r = s.cmd(ch, &mut t, &write_packet(x, style, addr, &data));
    if addr > max {
        if !t.take_log().is_empty() {
            return fail("truncated", format!("{}: an address that does not fit reached the target", r.what));
        }
        if !matches!(r.st, St::Err(ErrK::Other(_))) && !is_err(&r.reply()?) {
            return fail("too-wide", format!("{}: not refused", r.what));
        }
        return Ok(());
    }
    check_write(&t, &r, 0, addr, &data)
}

fn c11_errors(ch: &mut Ch) -> R {
    let multi = ch.flag();
    let mut t = Tgt::<u32>::new(f::PLAIN | if multi { f::MULTI } else { 0 });
    let x = ch.flag();
    let n = 1 + ch.choose(40);
    let inj = ch.pick(&[Inj::NonFatal, Inj::Errno(0), Inj::Errno(14), Inj::Errno(255), Inj::Io(13), Inj::Fatal(9)]);
    t.inj = vec![("write_addrs", 0, inj)];
    let mut s = Sess::new(&mut t, ch.pick(&[60usize, 200]));
    let r = s.cmd(ch, &mut t, &write_packet(x, 0, 0x100, &vec![0x41; n]));
    match inj {
        Inj::Fatal(e) => r.expect(&Exp::FatalTarget(e)),
        Inj::Errno(e) => r.expect(&Exp::e(e)),
        Inj::Io(e) => r.expect(&Exp::e(e as u8)),
        _ => r.expect(&Exp::AnyErr),
    }
}

/// all histories of reads and writes over a small memory
fn c11_hist(ch: &mut Ch) -> R {
    let multi = ch.flag();
    let mut t = Tgt::<u8>::new(f::PLAIN | if multi { f::MULTI } else { 0 });
    t.threads = vec![1, 2];
    let mut s = Sess::new(&mut t, ch.pick(&[28usize, 64]));
    let mut model: BTreeMap<u128, u8> = BTreeMap::new();
    let mut tid = multi as u128;
    for step in 0..ch.by(3, 4) {
        match ch.choose(5) {
            0 => {
                if multi {
                    let n = 1 + ch.choose(2);
                    s.s(ch, &mut t, &format!("Hg{}", n)).expect(&Exp::ok())?;
                    t.take_log();
                    tid = n as u128;
                }
            }
            k @ (1 | 2) => {
                let addr = ch.pick(&[0u128, 0x7e, 0xfd]);
                let n = 1 + ch.choose(3);
                let d: Vec<u8> = (0..n).map(|i| [b'#', 0x41, 0, b'}'][(i + step) % 4]).collect();
                let r = s.cmd(ch, &mut t, &write_packet(k == 1, step, addr, &d));
                check_write(&t, &r, tid, addr, &d)?;
                for (i, b) in d.iter().enumerate() {
                    model.insert(addr + i as u128, *b);
                }
            }
            _ => {
                let addr = ch.pick(&[0u128, 0x7d, 0xfb]);
                let n = ch.pick(&[1u128, 5, 40]);
                let r = s.s(ch, &mut t, &format!("m{:x},{:x}", addr, n));
                for (a, b) in &model {
                    if t.byte(*a) != *b {
                        return fail("memory", "the harness and the model disagree");
                    }
                }
                check_read(&t, &r, tid, addr, n)?;
            }
        }
    }
    if t.mem != model {
        return fail("memory", format!("memory {:x?}, expected {:x?}", t.mem, model));
    }
    Ok(())
}

// ===================================================================== C12 ===

static C12: Prop = Prop {
    id: "C12",
    scenes: &[
        Scene { name: "g-every-file", body: c12_g },
        Scene { name: "g-every-byte", body: c12_g_byte },
        Scene { name: "G-every-byte", body: c12_gg },
        Scene { name: "G-lengths", body: c12_len },
        Scene { name: "errors", body: c12_err },
        Scene { name: "long", body: c12_long },
        Scene { name: "once-more", body: c12_again },
        Scene { name: "malformed", body: bad::c12 },
    ],
    assumptions: &[],
};

fn check_g<U: HU>(t: &Tgt<U>, r: &Rep, tid: u128) -> R {
    want_calls(t.take_log(), &[call("read_registers", &[tid], &[])], &r.what)?;
    let mut want = String::new();
    for b in &t.regs {
        match b {
            Some(b) => want.push_str(&hex(&[*b])),
            None => want.push_str("xx"),
        }
    }
    r.expect(&Exp::s(want))
}

fn c12_g(ch: &mut Ch) -> R {
    let multi = ch.flag();
    let mut t = Tgt::<u32>::new(f::PLAIN | if multi { f::MULTI } else { 0 });
    t.threads = vec![1, 2, 0x1f];
    let alpha = [None, Some(0), Some(0xff), Some(0x5a)];
    let n = 1 + ch.choose(ch.by(7, 9));
    t.regs = (0..n).map(|_| ch.pick(&alpha)).collect();
    let rep = ch.pick(&[1usize, 2, 8]);
    t.regs = t.regs.iter().flat_map(|b| std::iter::repeat(*b).take(rep)).collect();
    let mut s = Sess::new(&mut t, 32);
    let tid = if n <= 3 { select(ch, &mut s, &mut t, multi)? } else { multi as u128 };
    let r = s.s(ch, &mut t, "g");
    check_g(&t, &r, tid)
}

fn c12_g_byte(ch: &mut Ch) -> R {
    let multi = ch.flag();
    let mut t = Tgt::<u32>::new(f::PLAIN | if multi { f::MULTI } else { 0 });
    t.threads = vec![1, 2, 0x1f];
    let b = ch.choose(256) as u8;
    let n = 1 + ch.choose(ch.by(100, 600));
    t.regs = vec![Some(b); n];
    if ch.flag() {
        t.regs.push(None);
        t.regs.push(Some(b.wrapping_add(1)));
    }
    let mut s = Sess::new(&mut t, 32);
    let tid = if n < 3 { select(ch, &mut s, &mut t, multi)? } else { multi as u128 };
    let r = s.s(ch, &mut t, "g");
    check_g(&t, &r, tid)
}

fn c12_gg(ch: &mut Ch) -> R {
    let multi = ch.flag();
    let mut t = Tgt::<u32>::new(f::PLAIN | if multi { f::MULTI } else { 0 });
    t.threads = vec![1, 2, 0x1f];
    let b = ch.choose(256) as u8;
    let c = ch.pick(&[Some(0u8), Some(0x7f), None]);
    let n = ch.pick(&[1usize, 2, 8]);
    let mut vals = vec![];
    let mut text = String::new();
    for _ in 0..n {
        vals.push(b);
        text.push_str(&hex(&[b]));
        // values the client does not have are written as "xx"
        vals.push(c.unwrap_or(0));
        text.push_str(&c.map(|c| hex(&[c])).unwrap_or("xx".into()));
    }
    if ch.flag() {
        text = text.to_uppercase();
    }
    let text = text.replace('X', "x");
    let mut s = Sess::new(&mut t, 64);
    let tid = if n < 3 { select(ch, &mut s, &mut t, multi)? } else { multi as u128 };
    let r = s.s(ch, &mut t, &format!("G{}", text));
    want_calls(t.take_log(), &[call("write_registers", &[tid], &[&vals])], &r.what)?;
    r.expect(&Exp::ok())
}

/// the architecture of the harness refuses odd lengths
fn c12_len(ch: &mut Ch) -> R {
    let mut t = Tgt::<u32>::new(f::PLAIN);
    let n = ch.choose(ch.by(400, 2000));
    let vals: Vec<u8> = (0..n).map(|i| (i * 7 + 3) as u8).collect();
    let mut buf = vec![0u8; 2 * n + 5 + ch.choose(2)];
    let mut s = Sess::borrowed(&mut t, &mut buf);
    let r = s.s(ch, &mut t, &format!("G{}", hex(&vals)));
    if n % 2 == 1 {
        if !t.take_log().is_empty() {
            return fail("refused", "registers the architecture refused reached the target");
        }
        if !matches!(r.st, St::Err(ErrK::Other(_))) && !is_err(&r.reply()?) {
            return fail("refused", format!("{}: not refused", r.what));
        }
        return Ok(());
    }
    if n == 0 {
        // no registers at all: any answer
        return Ok(());
    }
    want_calls(t.take_log(), &[call("write_registers", &[0], &[&vals])], &r.what)?;
    r.expect(&Exp::ok())
}

fn inj_reply(inj: Inj) -> Exp {
    match inj {
        Inj::Fatal(e) => Exp::FatalTarget(e),
        Inj::Errno(e) => Exp::e(e),
        Inj::Io(e) => Exp::e(e as u8),
        _ => Exp::AnyErr,
    }
}

fn c12_err(ch: &mut Ch) -> R {
    let multi = ch.flag();
    let mut t = Tgt::<u32>::new(f::PLAIN | f::SRA | if multi { f::MULTI } else { 0 });
    let inj = match ch.choose(4) {
        0 => Inj::NonFatal,
        1 => Inj::Errno(ch.choose(256) as u8),
        2 => Inj::Io(1 + ch.choose(40) as i32),
        _ => Inj::Fatal(5),
    };
    let (f, p) = ch.pick(&[
        ("read_registers", "g"),
        ("write_registers", "G00112233"),
        ("read_register", "p2"),
        ("write_register", "P2=00112233"),
    ]);
    t.inj = vec![(f, 0, inj)];
    let mut s = Sess::new(&mut t, 64);
    let r = s.s(ch, &mut t, p);
    r.expect(&inj_reply(inj))
}

// ===================================================================== C13 ===

static C13: Prop = Prop {
    id: "C13",
    scenes: &[
        Scene { name: "read-every-id", body: c13_p },
        Scene { name: "read-every-length", body: c13_len },
        Scene { name: "write-every-id", body: c13_w },
        Scene { name: "write-every-byte", body: c13_wb },
        Scene { name: "buffer-size", body: c13_buf },
        Scene { name: "long", body: c13_long },
        Scene { name: "once-more", body: c13_again },
        Scene { name: "malformed", body: bad::c13 },
    ],
    assumptions: &[],
};

fn c13_ids(ch: &mut Ch) -> usize {
    let k = ch.choose(ch.by(0x200, 0x1200));
    let xs = [0xff, 0x100, 0x101, 0xffff, 0x1_0000, 0xffff_ffff, 0x1_0000_0000, usize::MAX];
    if k < xs.len() {
        xs[k]
    } else {
        k - xs.len()
    }
}

fn c13_p(ch: &mut Ch) -> R {
    let multi = ch.flag();
    let sra = ch.flag();
    let mut t =
        Tgt::<u32>::new(f::PLAIN | if sra { f::SRA } else { 0 } | if multi { f::MULTI } else { 0 });
    t.threads = vec![1, 2, 0x1f];
    let id = c13_ids(ch);
    let style = ch.choose(4);
    t.reg_fill = ch.pick(&[None, Some(0), Some(0xff), Some(0x2a)]);
    let mut s = Sess::new(&mut t, 64);
    let tid = select(ch, &mut s, &mut t, multi)?;
    let r = s.s(ch, &mut t, &format!("p{}", num_style(style, id as u128)));
    match reg_size(id) {
        Ok(size) if sra => {
            let n = size.unwrap_or(6);
            let bl = size.map(|s| s as u128).unwrap_or(NONE);
            want_calls(t.take_log(), &[call("read_register", &[tid, id as u128, bl], &[])], &r.what)?;
            let want: Vec<u8> = (0..n).map(|i| t.reg_byte(id, i)).collect();
            r.expect(&Exp::s(hex(&want)))
        }
        _ => {
            want_calls(t.take_log(), &[], &r.what)?;
            r.expect(&Exp::Empty)
        }
    }
}

fn c13_len(ch: &mut Ch) -> R {
    let multi = ch.flag();
    let mut t = Tgt::<u32>::new(f::PLAIN | f::SRA | if multi { f::MULTI } else { 0 });
    let id = ch.choose(7);
    let len = ch.choose(20);
    t.reg_len = Some(len);
    let mut s = Sess::new(&mut t, 64);
    let r = s.s(ch, &mut t, &format!("p{:x}", id));
    match reg_size(id).unwrap() {
        Some(size) if len == 0 => r.expect(&Exp::s("xx".repeat(size))),
        Some(size) if len == size => {
            let want: Vec<u8> = (0..len).map(|i| t.reg_byte(id, i)).collect();
            r.expect(&Exp::s(hex(&want)))
        }
        // the target breaks its contract: never a made-up value
        Some(_) => no_value(&r),
        None if len == 0 => no_value(&r),
        None => {
            let want: Vec<u8> = (0..len).map(|i| t.reg_byte(id, i)).collect();
            r.expect(&Exp::s(hex(&want)))
        }
    }
}

fn no_value(r: &Rep) -> R {
    if matches!(r.st, St::Err(ErrK::Other(_))) {
        if let Ok((_, p)) = r.split() {
            if !p.is_empty() {
                return fail("partial", format!("{:?}: a reply although the session failed", r));
            }
        }
        return Ok(());
    }
    if !is_err(&r.reply()?) {
        return fail("bad-length", format!("{:?}: expected a refusal", r));
    }
    Ok(())
}

fn c13_w(ch: &mut Ch) -> R {
    let multi = ch.flag();
    let sra = ch.flag();
    let mut t =
        Tgt::<u32>::new(f::PLAIN | if sra { f::SRA } else { 0 } | if multi { f::MULTI } else { 0 });
    t.threads = vec![1, 2, 0x1f];
    let id = c13_ids(ch);
    let style = ch.choose(4);
    let len = ch.pick(&[1usize, 2, 4, 8, 16]);
    let val: Vec<u8> = (0..len).map(|i| (i * 31 + 0x3d) as u8).collect();
    let mut s = Sess::new(&mut t, 80);
    let tid = select(ch, &mut s, &mut t, multi)?;
    let r = s.s(ch, &mut t, &format!("P{}={}", num_style(style, id as u128), hex(&val)));
    if sra && reg_size(id).is_ok() {
        want_calls(t.take_log(), &[call("write_register", &[tid, id as u128], &[&val])], &r.what)?;
        r.expect(&Exp::ok())
    } else {
        want_calls(t.take_log(), &[], &r.what)?;
        r.expect(&Exp::Empty)
    }
}

fn c13_wb(ch: &mut Ch) -> R {
    let mut t = Tgt::<u32>::new(f::PLAIN | f::SRA);
    let b = ch.choose(256) as u8;
    let n = ch.pick(&[1usize, 2, 3, 8]);
    let val = vec![b; n];
    let up = ch.flag();
    let h = if up { hex(&val).to_uppercase() } else { hex(&val) };
    let mut s = Sess::new(&mut t, 80);
    let r = s.s(ch, &mut t, &format!("P3={}", h));
    want_calls(t.take_log(), &[call("write_register", &[0, 3], &[&val])], &r.what)?;
    r.expect(&Exp::ok())
}

/// registers against every buffer size: the whole value or an error
fn c13_buf(ch: &mut Ch) -> R {
    let mut t = Tgt::<u32>::new(f::PLAIN | f::SRA);
    let size = 6 + ch.choose(20);
    let id = ch.choose(8);
    let mut buf = vec![0u8; size];
    let borrowed = ch.flag();
    let mut s = if borrowed { Sess::borrowed(&mut t, &mut buf) } else { Sess::new(&mut t, size) };
    let r = s.s(ch, &mut t, &format!("p{:x}", id));
    let n = reg_size(id).unwrap().unwrap_or(6);
    if n > size {
        return no_value(&r);
    }
    let want: Vec<u8> = (0..n).map(|i| t.reg_byte(id, i)).collect();
    r.expect(&Exp::s(hex(&want)))
}

// ============================================================== long things ===

/// reads of any length through buffers of any size, with and without an end of memory
fn c10_long(ch: &mut Ch) -> R {
    let multi = ch.flag();
    let mut t = Tgt::<u32>::new(f::PLAIN | if multi { f::MULTI } else { 0 });
    let size = ch.pick(&[24usize, 300, 514, 4096, 0x2_0000]);
    let len = ch.pick(LENS);
    let base = 0x12_3456u128;
    t.mem_lo = base - 1;
    t.mem_hi = match ch.choose(5) {
        0 => base + 0xff_ffff,
        1 => base + len as u128 - 1,
        2 => base + len as u128 - 2,
        3 => base + len as u128 / 2,
        _ => base + 255,
    };
    let zeros = ch.flag();
    if zeros {
        t.mem_fill = |_| 0;
    }
    let mut s = Sess::new(&mut t, size);
    let r = s.s(ch, &mut t, &format!("m{:x},{:x}", base, len));
    check_read(&t, &r, multi as u128, base, len as u128)
}

fn c11_long(ch: &mut Ch) -> R {
    let multi = ch.flag();
    let mut t = Tgt::<u32>::new(f::PLAIN | if multi { f::MULTI } else { 0 });
    let x = ch.flag();
    let style = ch.choose(3);
    let len = ch.pick(LENS);
    let data: Vec<u8> = match ch.choose(3) {
        0 => (0..len).map(|i| (i * 7 + i / 256) as u8).collect(),
        1 => vec![b'}'; len],
        _ => vec![0; len],
    };
    let p = write_packet(x, style, 0x8000, &data);
    let mut buf = vec![0u8; p.len() + 4];
    let owned = ch.flag();
    let mut s = if owned { Sess::new(&mut t, p.len() + 4) } else { Sess::borrowed(&mut t, &mut buf) };
    let r = s.cmd(ch, &mut t, &p);
    let log = t.take_log();
    let got = write_effect(&log, multi as u128)?;
    if got.len() != len || !data.iter().enumerate().all(|(i, b)| got.get(&(0x8000 + i as u128)) == Some(b)) {
        return fail("written", format!("{} bytes: the target saw something else ({} bytes)", len, got.len()));
    }
    r.expect(&Exp::ok())
}

fn c12_long(ch: &mut Ch) -> R {
    let multi = ch.flag();
    let mut t = Tgt::<u32>::new(f::PLAIN | if multi { f::MULTI } else { 0 });
    let n = match ch.choose(2) {
        0 => ch.choose(ch.by(1200, 6000)),
        _ => ch.pick(LENS),
    };
    let hole = ch.pick(&[usize::MAX, 2, 3, 5]);
    t.regs = (0..n).map(|i| if i % hole == hole - 1 { None } else { Some((i * 5 + i / 256) as u8) }).collect();
    let mut s = Sess::new(&mut t, ch.pick(&[32usize, 0x3_0000]));
    let r = s.s(ch, &mut t, "g");
    if n > 0 {
        check_g(&t, &r, multi as u128)?;
    }
    if n == 0 || n % 2 == 1 {
        return Ok(());
    }
    let vals: Vec<u8> = t.regs.iter().map(|b| b.unwrap_or(0)).collect();
    let p: String = t.regs.iter().map(|b| b.map(|b| hex(&[b])).unwrap_or("xx".into())).collect();
    t.take_log();
    let r = s.s(ch, &mut t, &format!("G{}", p));
    want_calls(t.take_log(), &[call("write_registers", &[multi as u128], &[&vals])], "a long register file")?;
    r.expect(&Exp::ok())
}

/// values of any length for a register
fn c13_long(ch: &mut Ch) -> R {
    let mut t = Tgt::<u32>::new(f::PLAIN | f::SRA);
    let n = match ch.choose(2) {
        0 => ch.choose(ch.by(1200, 6000)),
        _ => ch.pick(LENS),
    };
    let mut s = Sess::new(&mut t, 2 * n + 32);
    if ch.flag() {
        // the size of this one is up to the target
        t.reg_len = Some(n);
        let r = s.s(ch, &mut t, "p4");
        if n == 0 {
            return no_value(&r);
        }
        let want: Vec<u8> = (0..n).map(|i| t.reg_byte(4, i)).collect();
        return r.expect(&Exp::s(hex(&want)));
    }
    let val: Vec<u8> = (0..n).map(|i| (i * 3 + i / 256) as u8).collect();
    let r = s.s(ch, &mut t, &format!("P4={}", hex(&val)));
    if n == 0 && matches!(r.st, St::Err(_)) {
        return want_calls(t.take_log(), &[], "an empty value");
    }
    want_calls(t.take_log(), &[call("write_register", &[0, 4], &[&val])], "a long value")?;
    r.expect(&Exp::ok())
}
