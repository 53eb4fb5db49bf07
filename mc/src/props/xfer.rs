//! C22, C29: object transfers; section offsets, register info, small queries.

use crate::client::*;
use crate::props::*;
use crate::sess::*;
use gdbstub::arch::lldb;
use std::cell::Cell;
use std::collections::BTreeMap;

pub const PROPS: &[&Prop] = &[&C22, &C29];

// ===================================================================== C22 ===

static C22: Prop = Prop {
    id: "C22",
    scenes: &[
        Scene { name: "every-offset-and-length", body: c22_grid },
        Scene { name: "edges", body: c22_edges },
        Scene { name: "client-reassembly", body: c22_loop },
        Scene { name: "every-byte", body: c22_bytes },
        Scene { name: "annexes", body: c22_annex },
        Scene { name: "who-answers", body: c22_who },
        Scene { name: "wide-grid", body: c22_wide },
        Scene { name: "small-buffers", body: c22_small },
        Scene { name: "changing-objects", body: c22_hist },
        Scene { name: "lying-target", body: c22_lie },
        Scene { name: "long", body: c22_long },
        Scene { name: "once-more", body: c22_again },
        Scene { name: "malformed", body: bad::c22 },
    ],
    assumptions: &[
        "a target returns as much as was asked for, as long as it has it and it fits the buffer",
        "a transfer of length zero (never sent by clients) may be answered by either marker without data",
        "a reply that reaches the end of the object may carry either marker, as the protocol allows",
    ],
};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ob {
    Arch,
    Xml,
    Map,
    Auxv,
    Exec,
    Libs,
}
use Ob::*;
const OBS: &[Ob] = &[Arch, Xml, Map, Auxv, Exec, Libs];

fn cap(o: Ob) -> u64 {
    match o {
        Arch => f::USEXML,
        Xml => f::USEXML | f::XMLOV,
        Map => f::MEMMAP,
        Auxv => f::AUXV,
        Exec => f::EXECF,
        Libs => f::LIBS,
    }
}
fn head(o: Ob) -> &'static str {
    match o {
        Arch | Xml => "qXfer:features:read:target.xml:",
        Map => "qXfer:memory-map:read::",
        Auxv => "qXfer:auxv:read::",
        Exec => "qXfer:exec-file:read::",
        Libs => "qXfer:libraries-svr4:read::",
    }
}
fn calls_of(o: Ob, off: u128, len: u128) -> Vec<Call> {
    match o {
        Arch => vec![],
        Xml => vec![call("xml", &[off, len], &[b"target.xml"])],
        Map => vec![call("memory_map", &[off, len], &[])],
        Auxv => vec![call("auxv", &[off, len], &[])],
        Exec => vec![call("exec_file", &[NONE, off, len], &[])],
        Libs => vec![call("libraries_svr4", &[off, len], &[])],
    }
}

const DOC: &str = "<target version=\"1.0\"><architecture>mips:3000</architecture>#$}*****\t~\n</target>0123456789";

/// an object of `n` bytes: a prefix of DOC (for Arch), or odd bytes
fn object(o: Ob, n: usize) -> Vec<u8> {
    if o == Arch {
        // surrounding white space is not part of the document
        return DOC[..n].trim().as_bytes().to_vec();
    }
    let odd = [0u8, 0x7d, 0x23, 0x24, 0x2a, 0xff, 0x0a, 0x61, 0x80, 0x03, 0x5d];
    (0..n).map(|i| odd[(i * 7 + i / 3) % odd.len()]).collect()
}

fn tgt(o: Ob, blob: &[u8]) -> Tgt<u32> {
    let mut t = Tgt::<u32>::new(f::NOACK | f::GUARD | f::RLE | cap(o));
    if o == Arch {
        let s = DOC.get(..blob.len()).unwrap();
        ARCH_XML.with(|c| c.set(Some(s)));
    } else {
        t.blob = blob.to_vec();
    }
    t
}

/// Check the answer to one request; returns the data and whether it was the last part.
fn part(r: &Rep, blob: &[u8], off: u128, len: u128, roomy: bool) -> Result<(Vec<u8>, bool), Fail> {
    let rep = r.reply()?;
    let (mark, data) = match rep.split_first() {
        Some((m @ (b'l' | b'm'), d)) => match unesc(d) {
            Ok(d) => (*m, d),
            Err(e) => return fail("escape", format!("{}: {}", r.what, e)),
        },
        _ => return fail("marker", format!("{}: replied {:?}", r.what, show(&rep))),
    };
    let start = off.min(blob.len() as u128) as usize;
    let end = (off.saturating_add(len)).min(blob.len() as u128) as usize;
    let want = &blob[start..end.max(start)];
    let ok = if roomy { data == want } else { want.starts_with(&data) && (want.is_empty() || !data.is_empty()) };
    if !ok {
        return fail("data", format!("{}: got {:?}, the object has {:?} there", r.what, show(&data), show(want)));
    }
    let at_end = start + data.len() == blob.len();
    if len > 0 && mark == b'l' && !at_end {
        return fail("early-end", format!("{}: marked as the end, {} of {} bytes", r.what, start + data.len(), blob.len()));
    }
    if len > 0 && mark == b'm' && data.is_empty() {
        return fail("no-end", format!("{}: 'more' without data", r.what));
    }
    Ok((data, mark == b'l'))
}

fn c22_grid(ch: &mut Ch) -> R {
    let o = ch.pick(OBS);
    let n = ch.choose(ch.by(14, 40));
    let blob = object(o, n);
    let mut t = tgt(o, &blob);
    let off = ch.choose(n + 3) as u128;
    let len = ch.choose(n + 3) as u128;
    let mut s = Sess::new(&mut t, 256);
    let r = s.s(ch, &mut t, &format!("{}{:x},{:x}", head(o), off, len));
    part(&r, &blob, off, len, true)?;
    if len > 0 {
        want_calls(t.take_log(), &calls_of(o, off, len), &r.what)?;
    }
    Ok(())
}

/// objects longer than a byte can count, piece by piece of every usual size
fn c22_wide(ch: &mut Ch) -> R {
    let o = ch.pick(&[Xml, Map, Auxv, Exec, Libs]);
    let n = ch.pick(ch.by(&[300usize], &[300, 1200]));
    let blob = object(o, n);
    let mut t = tgt(o, &blob);
    let off = ch.choose(n + 2) as u128;
    let len = ch.pick(&[1u128, 2, 3, 16, 64, 255, 256, 257, 4096]);
    let mut s = Sess::new(&mut t, 8192);
    let r = s.s(ch, &mut t, &format!("{}{:x},{:x}", head(o), off, len));
    part(&r, &blob, off, len, true)?;
    want_calls(t.take_log(), &calls_of(o, off, len), &r.what)
}

fn c22_edges(ch: &mut Ch) -> R {
    let o = ch.pick(OBS);
    let n = ch.pick(&[0usize, 1, 20]);
    let blob = object(o, n);
    let mut t = tgt(o, &blob);
    let max = u64::MAX as u128;
    let e = [0, 1, 7, 0x10, 0xff, 0x100, 0xffff, 0x1_0000, 0xffff_ffff, 0x1_0000_0000, max / 2, max / 2 + 1, max - 1, max];
    let off = ch.pick(&e);
    let len = ch.pick(&e);
    let st = ch.choose(5);
    let mut s = Sess::new(&mut t, 256);
    let r = s.s(ch, &mut t, &format!("{}{},{}", head(o), num_style(st, off), num_style(st, len)));
    // numbers with far too many leading zeros may be refused
    if st == 4 && matches!(r.st, St::Err(_)) {
        return want_calls(t.take_log(), &[], &r.what);
    }
    part(&r, &blob, off, len, true)?;
    if len > 0 {
        want_calls(t.take_log(), &calls_of(o, off, len), &r.what)?;
    }
    Ok(())
}

/// what a client does: ask on until the end
fn c22_loop(ch: &mut Ch) -> R {
    let o = ch.pick(OBS);
    let n = ch.choose(DOC.len().min(98));
    let blob = object(o, n);
    let mut t = tgt(o, &blob);
    let rle = ch.flag();
    if !rle {
        t.fl &= !f::RLE;
    }
    let step = ch.pick(&[1usize, 2, 3, 5, 7, 16, 32, 33, 0x100, 0xfffb]);
    let mut s = Sess::new(&mut t, 300);
    let mut got = vec![];
    loop {
        let off = got.len();
        let r = s.s(ch, &mut t, &format!("{}{:x},{:x}", head(o), off, step));
        let (d, last) = part(&r, &blob, off as u128, step as u128, true)?;
        got.extend(d);
        if last {
            break;
        }
        if got.len() > blob.len() {
            return fail("too-long", "more data than the object has");
        }
    }
    ch.outcome(&got.len());
    if got != blob {
        return fail("object", format!("reassembled {:?}, the object is {:?}", show(&got), show(&blob)));
    }
    Ok(())
}

fn c22_bytes(ch: &mut Ch) -> R {
    let o = ch.pick(&OBS[1..]);
    let a = ch.choose(256) as u8;
    let b = ch.pick(&[0u8, 0x23, 0x24, 0x2a, 0x7d, 0x5d, 0x6c, 0x6d, 0x30, 0x78, 0xff]);
    let blob = match ch.choose(4) {
        0 => vec![a],
        1 => vec![a, b],
        2 => vec![b, a, a, a, a, b],
        _ => [vec![a; 1 + ch.choose(ch.by(14, 110))], vec![b]].concat(),
    };
    let mut t = tgt(o, &blob);
    if ch.flag() {
        t.fl &= !f::RLE;
    }
    let mut s = Sess::new(&mut t, 300);
    let len = blob.len() as u128;
    let r = s.s(ch, &mut t, &format!("{}0,{:x}", head(o), len));
    part(&r, &blob, 0, len, true)?;
    let r = s.s(ch, &mut t, &format!("{}{:x},{:x}", head(o), len, len));
    part(&r, &blob, len, len, true).map(|_| ())
}

/// annexes reach whom they should, others are not served
fn c22_annex(ch: &mut Ch) -> R {
    let o = ch.pick(OBS);
    let blob = object(o, 10);
    let mut t = tgt(o, &blob);
    let mut s = Sess::new(&mut t, 256);
    let kind = match o {
        Arch | Xml => "features",
        Map => "memory-map",
        Auxv => "auxv",
        Exec => "exec-file",
        Libs => "libraries-svr4",
    };
    let text = ch.pick(&[
        "", "target.xml", "target.xm", "target.xmlx", "Target.xml", "arm-core.xml", "a", "1", "0", "2a", "FFff", "ffffffff",
        "7fffffffffffffff", "ffffffffffffffff", "10000000000000000", "-1", "zz", "p1", "00", "0000000000000001", "\u{1}", ".",
        " target.xml", "..", "/",
    ]);
    let r = s.s(ch, &mut t, &format!("qXfer:{}:read:{}:1,4", kind, text));
    let log = deeds(t.take_log());
    let pid = num(text.to_lowercase().as_bytes()).filter(|v| *v > 0 && *v <= usize::MAX as u128);
    let served = |w: &[Call]| -> R {
        part(&r, &blob, 1, 4, true)?;
        want_calls(log.clone(), w, &r.what)
    };
    let refused = || -> R {
        if !log.is_empty() {
            return fail("calls", format!("{}: the target saw {:?}", r.what, log));
        }
        if r.st == St::Idle {
            let rep = r.reply()?;
            if !is_err(&rep) && !rep.is_empty() {
                return fail("served", format!("{}: replied {:?}", r.what, show(&rep)));
            }
        }
        Ok(())
    };
    match o {
        Arch if text == "target.xml" => served(&[]),
        Arch => refused(),
        Xml => served(&[call("xml", &[1, 4], &[text.as_bytes()])]),
        Exec if text.is_empty() => served(&[call("exec_file", &[NONE, 1, 4], &[])]),
        Exec => match pid {
            Some(p) => served(&[call("exec_file", &[p, 1, 4], &[])]),
            None => refused(),
        },
        _ if text.is_empty() => served(&calls_of(o, 1, 4)),
        _ => refused(),
    }
}

/// every combination of target description sources
fn c22_who(ch: &mut Ch) -> R {
    let useit = ch.flag();
    let over = ch.flag();
    let arch = ch.choose(4);
    let mut t = Tgt::<u32>::new(
        f::GUARD | if useit { f::USEXML } else { 0 } | if over { f::XMLOV } else { 0 } | if ch.flag() { f::MULTI } else { 0 },
    );
    t.blob = b"<override/>".to_vec();
    let x = match arch {
        0 => None,
        1 => Some("<arch/>"),
        2 => Some("\n  <arch/>\n\n"),
        _ => Some("<arch>\n x </arch>\t "),
    };
    ARCH_XML.with(|c| c.set(x));
    let mut s = Sess::new(&mut t, 256);
    let r = s.s(ch, &mut t, "qSupported:xmlRegisters=x");
    let rep = r.reply()?;
    let adv = rep.split(|b| *b == b';').any(|x| x == b"qXfer:features:read+");
    let have = useit && (over || arch > 0);
    if adv != have {
        return fail("advertised", format!("features advertised: {}, available: {}", adv, have));
    }
    t.take_log();
    let r = s.s(ch, &mut t, "qXfer:features:read:target.xml:0,80");
    if !useit {
        r.expect(&Exp::Empty)?;
        return want_calls(t.take_log(), &[], &r.what);
    }
    if !have {
        // not advertised; anything but data will do
        if r.st == St::Idle && matches!(r.reply()?.first(), Some(b'l' | b'm')) {
            return fail("made-up", "a description without any source");
        }
        return Ok(());
    }
    let blob = if over { t.blob.clone() } else { x.unwrap().trim().as_bytes().to_vec() };
    part(&r, &blob, 0, 0x80, true).map(|_| ())
}

/// buffers just large enough for the request: never wrong, never past the end
fn c22_small(ch: &mut Ch) -> R {
    let o = ch.pick(OBS);
    let n = ch.pick(&[0usize, 1, 5, 40, 80]);
    let blob = object(o, n);
    let mut t = tgt(o, &blob);
    let off = ch.pick(&[0usize, 1, 4, 39, 40]);
    let len = ch.pick(&[1usize, 4, 0x20, 0x50, 0xffff]);
    let pkt = format!("{}{:x},{:x}", head(o), off, len);
    let size = pkt.len() + ch.choose(ch.by(110, 200));
    let borrowed = ch.flag();
    let mut buf = vec![0u8; size];
    let mut s = if borrowed { Sess::borrowed(&mut t, &mut buf) } else { Sess::new(&mut t, size) };
    let r = s.s(ch, &mut t, &pkt);
    if matches!(r.st, St::Err(_)) {
        if borrowed && size < pkt.len() + 4 {
            return Ok(());
        }
        return fail("error", format!("{}: {:?} with a buffer of {} bytes for {}", r.what, r.st, size, pkt.len() + 4));
    }
    part(&r, &blob, off as u128, len as u128, size >= pkt.len() + 4 + len.min(n)).map(|_| ())
}

/// several objects, read alternately, which change between reads
fn c22_hist(ch: &mut Ch) -> R {
    let mut t = Tgt::<u32>::new(f::NOACK | f::GUARD | f::RLE | cap(Xml) | cap(Map) | cap(Auxv) | cap(Exec) | cap(Libs));
    t.blob = object(Xml, 12);
    let mut s = Sess::new(&mut t, 256);
    for _ in 0..ch.by(3, 4) {
        if ch.flag() {
            let n = ch.pick(&[0usize, 3]);
            t.blob = object(Map, n);
        }
        let o = ch.pick(&OBS[1..]);
        let (off, len) = ch.pick(&[(0u128, 5u128), (5, 0x20), (3, 1), (0x20, 4)]);
        let blob = t.blob.clone();
        let r = s.s(ch, &mut t, &format!("{}{:x},{:x}", head(o), off, len));
        part(&r, &blob, off, len, true)?;
        want_calls(t.take_log(), &calls_of(o, off, len), &r.what)?;
    }
    Ok(())
}

/// a target which claims to have written more than the buffer can hold
fn c22_lie(ch: &mut Ch) -> R {
    let o = ch.pick(&OBS[1..]);
    let mut t = tgt(o, &object(o, 30));
    let size = ch.pick(&[64usize, 100]);
    let claim = ch.pick(&[size + 1, 2 * size, 5000, usize::MAX / 2, usize::MAX]);
    t.len_override = Some(claim);
    let mut s = Sess::new(&mut t, size);
    let r = s.s(ch, &mut t, &format!("{}0,10", head(o)));
    if r.st == St::Idle && matches!(r.reply()?.first(), Some(b'l' | b'm')) {
        return fail("over-read", format!("{}: data from beyond the buffer", r.what));
    }
    Ok(())
}

// ===================================================================== C29 ===

static C29: Prop = Prop {
    id: "C29",
    scenes: &[
        Scene { name: "offsets-u8", body: c29_off::<u8> },
        Scene { name: "offsets-u16", body: c29_off::<u16> },
        Scene { name: "offsets-u32", body: c29_off::<u32> },
        Scene { name: "offsets-u64", body: c29_off::<u64> },
        Scene { name: "register-fields", body: c29_fields },
        Scene { name: "register-values", body: c29_values },
        Scene { name: "register-lists", body: c29_lists },
        Scene { name: "register-ids", body: c29_ids },
        Scene { name: "register-long-lists", body: c29_long },
        Scene { name: "current-thread", body: c29_qc },
        Scene { name: "attached", body: c29_attached },
        Scene { name: "once-more", body: c29_again },
        Scene { name: "malformed", body: bad::c29 },
    ],
    assumptions: &["the order of the fields of a register description does not matter"],
};

fn c29_off<U: HU>(ch: &mut Ch) -> R {
    let mut t = Tgt::<U>::new(f::PLAIN | f::SECT | if ch.flag() { f::MULTI } else { 0 });
    let form = ch.choose(4);
    t.offsets = form as u8;
    let a = addrs(U::BITS);
    let n = [2, 3, 1, 2][form];
    for i in 0..n {
        // the values must differ, so that mixing them up shows
        t.off_vals[i] = ch.pick(&a);
    }
    let v = t.off_vals;
    let mut s = Sess::new(&mut t, 128);
    let r = s.s(ch, &mut t, "qOffsets");
    let rep = r.reply()?;
    let mut got: Vec<(String, u128)> = vec![];
    for p in rep.split(|b| *b == b';') {
        let i = p.iter().position(|b| *b == b'=').unwrap_or(0);
        let Some(x) = num(p.get(i + 1..).unwrap_or(b"")) else {
            return fail("format", format!("replied {:?}", show(&rep)));
        };
        got.push((String::from_utf8_lossy(&p[..i]).into_owned(), x));
    }
    let k = |s: &str, v: u128| (s.to_string(), v);
    let want = match form {
        1 => vec![k("Text", v[0]), k("Data", v[1]), k("Bss", v[2])],
        0 => vec![k("Text", v[0]), k("Data", v[1]), k("Bss", v[1])],
        2 => vec![k("TextSeg", v[0])],
        _ => vec![k("TextSeg", v[0]), k("DataSeg", v[1])],
    };
    if got != want {
        return fail("offsets", format!("replied {:?}, expected {:x?}", show(&rep), want));
    }
    want_calls(t.take_log(), &[call("section_offsets", &[], &[])], &r.what)
}

/// a register description out of static tables, selected by indices
#[derive(Clone, Copy, Default, Debug)]
struct RegD {
    name: usize,
    alt: Option<usize>,
    bits: usize,
    off: usize,
    enc: usize,
    fmt: usize,
    set: usize,
    gcc: Option<usize>,
    dwarf: Option<usize>,
    gen: Option<usize>,
    cont: Option<&'static [usize]>,
    inv: Option<&'static [usize]>,
}
thread_local! {
    static REG: Cell<RegD> = const { Cell::new(RegD {
        name: 0, alt: None, bits: 0, off: 0, enc: 0, fmt: 0, set: 0, gcc: None, dwarf: None, gen: None, cont: None, inv: None
    }) };
    static COUNT: Cell<usize> = const { Cell::new(usize::MAX) };
}
const STRS: &[&str] = &["x0", "a", "General Purpose Registers", "xmm15hhhhhhhhhhhh", "", "r_0.1-x", "sp"];
const ENC: &[&str] = &["uint", "sint", "ieee754", "vector"];
const FMT: &[&str] = &[
    "binary", "decimal", "hex", "float", "vector-sint8", "vector-uint8", "vector-sint16", "vector-uint16", "vector-sint32",
    "vector-uint32", "vector-float32", "vector-uint128",
];
const GEN: &[&str] =
    &["pc", "sp", "fp", "ra", "flags", "arg1", "arg2", "arg3", "arg4", "arg5", "arg6", "arg7", "arg8"];

fn enc(i: usize) -> lldb::Encoding {
    use lldb::Encoding::*;
    match i {
        0 => Uint,
        1 => Sint,
        2 => IEEE754,
        _ => Vector,
    }
}
fn fmt_(i: usize) -> lldb::Format {
    use lldb::Format::*;
    match i {
        0 => Binary,
        1 => Decimal,
        2 => Hex,
        3 => Float,
        4 => VectorSInt8,
        5 => VectorUInt8,
        6 => VectorSInt16,
        7 => VectorUInt16,
        8 => VectorSInt32,
        9 => VectorUInt32,
        10 => VectorFloat32,
        _ => VectorUInt128,
    }
}
fn gen_(i: usize) -> lldb::Generic {
    use lldb::Generic::*;
    match i {
        0 => Pc,
        1 => Sp,
        2 => Fp,
        3 => Ra,
        4 => Flags,
        5 => Arg1,
        6 => Arg2,
        7 => Arg3,
        8 => Arg4,
        9 => Arg5,
        10 => Arg6,
        11 => Arg7,
        _ => Arg8,
    }
}

fn reg_now(d: RegD) -> lldb::Register<'static> {
    lldb::Register {
        name: STRS[d.name],
        alt_name: d.alt.map(|i| STRS[i]),
        bitsize: d.bits,
        offset: d.off,
        encoding: enc(d.enc),
        format: fmt_(d.fmt),
        set: STRS[d.set],
        gcc: d.gcc,
        dwarf: d.dwarf,
        generic: d.gen.map(gen_),
        container_regs: d.cont,
        invalidate_regs: d.inv,
    }
}
fn reg_arch(id: usize) -> Option<lldb::RegisterInfo<'static>> {
    if id >= COUNT.with(|c| c.get()) {
        return Some(lldb::RegisterInfo::Done);
    }
    let mut d = REG.with(|r| r.get());
    d.off = d.off.wrapping_add(id);
    Some(lldb::RegisterInfo::Register(reg_now(d)))
}
fn reg_over(id: usize) -> Option<lldb::Register<'static>> {
    if id >= COUNT.with(|c| c.get()) {
        return None;
    }
    let mut d = REG.with(|r| r.get());
    d.off = d.off.wrapping_add(id);
    Some(reg_now(d))
}

fn describe(d: RegD, id: usize) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    let mut p = |k: &str, v: String| {
        m.insert(k.to_string(), v);
    };
    p("name", STRS[d.name].into());
    if let Some(i) = d.alt {
        p("alt-name", STRS[i].into());
    }
    p("bitsize", d.bits.to_string());
    p("offset", d.off.wrapping_add(id).to_string());
    p("encoding", ENC[d.enc].into());
    p("format", FMT[d.fmt].into());
    p("set", STRS[d.set].into());
    if let Some(v) = d.gcc {
        p("gcc", v.to_string());
    }
    if let Some(v) = d.dwarf {
        p("dwarf", v.to_string());
    }
    if let Some(v) = d.gen {
        p("generic", GEN[v].into());
    }
    let l = |v: &[usize]| v.iter().map(|x| format!("{:x}", x)).collect::<Vec<_>>().join(",");
    if let Some(v) = d.cont {
        p("container-regs", l(v));
    }
    if let Some(v) = d.inv {
        p("invalidate-regs", l(v));
    }
    m
}

fn check_reg(r: &Rep, d: RegD, id: usize) -> R {
    let rep = r.reply()?;
    let txt = String::from_utf8_lossy(&rep).into_owned();
    let mut got = BTreeMap::new();
    for kv in txt.strip_suffix(';').unwrap_or(&txt).split(';') {
        let Some((k, v)) = kv.split_once(':') else {
            return fail("format", format!("{}: {:?}", r.what, txt));
        };
        let v = if k.ends_with("-regs") {
            let n: Vec<_> = v.split(',').filter(|x| !x.is_empty()).map(|x| num(x.as_bytes())).collect();
            if n.iter().any(|x| x.is_none()) {
                return fail("format", format!("{}: {:?}", r.what, txt));
            }
            n.iter().map(|x| format!("{:x}", x.unwrap())).collect::<Vec<_>>().join(",")
        } else {
            v.to_string()
        };
        if got.insert(k.to_string(), v).is_some() {
            return fail("duplicate", format!("{}: {:?}", r.what, txt));
        }
    }
    let want = describe(d, id);
    if got != want {
        return fail("register", format!("{}: got {:?}, expected {:?}", r.what, got, want));
    }
    Ok(())
}

/// where the description comes from: the architecture or the target
fn lsetup(over: bool, d: RegD, count: usize) -> Tgt<u32> {
    let mut t = Tgt::<u32>::new(f::PLAIN | if over { f::LLDBOV } else { 0 });
    REG.with(|r| r.set(d));
    COUNT.with(|c| c.set(count));
    if over {
        t.lldb_override = Some(reg_over);
    } else {
        ARCH_LLDB.with(|c| c.set(Some(reg_arch)));
    }
    t
}

fn c29_one(ch: &mut Ch, over: bool, d: RegD, id: usize) -> R {
    let mut t = lsetup(over, d, usize::MAX);
    let mut s = Sess::new(&mut t, 1024);
    let r = s.s(ch, &mut t, &format!("qRegisterInfo{:x}", id));
    check_reg(&r, d, id)?;
    let w: &[Call] = &[call("lldb_register_info", &[id as u128], &[])];
    want_calls(t.take_log(), if over { w } else { &[] }, &r.what)
}

const LISTS: &[Option<&[usize]>] = &[
    None,
    Some(&[]),
    Some(&[0]),
    Some(&[1, 2]),
    Some(&[0x10, 0xff, 0x100]),
    Some(&[usize::MAX, 0]),
    Some(&[7, 7, 7, 7, 7, 7, 7, 7, 7]),
];

/// every encoding x format x generic, presence of every optional field
fn c29_fields(ch: &mut Ch) -> R {
    let over = ch.flag();
    let mut d = RegD { bits: 64, off: 8, ..Default::default() };
    if ch.flag() {
        d.enc = ch.choose(4);
        d.fmt = ch.choose(12);
        let g = ch.choose(14);
        d.gen = (g > 0).then(|| g - 1);
        d.set = 2;
    } else {
        d.alt = ch.flag().then_some(3);
        d.gcc = ch.flag().then_some(17);
        d.dwarf = ch.flag().then_some(32);
        d.gen = ch.flag().then_some(0);
        d.cont = ch.flag().then_some(&[1usize, 0x1f][..]);
        d.inv = ch.flag().then_some(&[0x2a][..]);
        d.name = ch.choose(STRS.len());
        d.set = ch.choose(STRS.len());
    }
    let id = ch.pick(&[0usize, 5]);
    c29_one(ch, over, d, id)
}

fn c29_values(ch: &mut Ch) -> R {
    let over = ch.flag();
    let vals = [0usize, 1, 9, 10, 11, 19, 20, 90, 99, 100, 101, 109, 110, 128, 255, 256, 999, 1000, 1010, 65535, 99999, 100000,
        4294967295, usize::MAX / 10, usize::MAX - 1, usize::MAX];
    let v = match ch.choose(2) {
        0 => ch.pick(&vals),
        _ => ch.choose(ch.by(300, 12000)),
    };
    let mut d = RegD { bits: 32, off: 4, ..Default::default() };
    match ch.choose(4) {
        0 => d.bits = v,
        1 => d.off = v,
        2 => d.gcc = Some(v),
        _ => d.dwarf = Some(v),
    }
    c29_one(ch, over, d, 0)
}

fn c29_lists(ch: &mut Ch) -> R {
    let over = ch.flag();
    let d = RegD { bits: 32, cont: ch.pick(LISTS), inv: ch.pick(LISTS), ..Default::default() };
    c29_one(ch, over, d, 1)
}

/// every id up to past the end, and the walk a client makes
fn c29_ids(ch: &mut Ch) -> R {
    let over = ch.flag();
    let both = ch.flag();
    let n = ch.pick(&[0usize, 1, 2, 0x11]);
    let d = RegD { bits: 32, off: 100, ..Default::default() };
    let mut t = lsetup(over, d, n);
    if both && over {
        // the architecture's table must not be consulted
        ARCH_LLDB.with(|c| c.set(Some(|_| None)));
    }
    let mut s = Sess::new(&mut t, 1024);
    let ids: Vec<usize> = if ch.flag() {
        (0..n + 2).collect()
    } else {
        vec![ch.pick(&[0usize, 1, 0x10, 0x11, 0x12, 0xff, 0x100, 0xffff_ffff, usize::MAX - 1, usize::MAX])]
    };
    for id in ids {
        let st = ch.pick(&[0usize, 1, 2]);
        let r = s.s(ch, &mut t, &format!("qRegisterInfo{}", num_style(st, id as u128)));
        if id < n {
            check_reg(&r, d, id)?;
        } else {
            r.expect(&Exp::AnyErr)?;
        }
        let w: &[Call] = &[call("lldb_register_info", &[id as u128], &[])];
        want_calls(t.take_log(), if over { w } else { &[] }, &r.what)?;
        if ids_enough(ch, id) {
            break;
        }
    }
    Ok(())
}
fn ids_enough(ch: &Ch, id: usize) -> bool {
    // keep the style choices of a long walk in bounds
    id > if ch.quick() { 6 } else { 9 }
}

/// qC names the current process and thread
fn c29_qc(ch: &mut Ch) -> R {
    let multi = ch.flag();
    let mp = ch.flag();
    let mut t = Tgt::<u32>::new(f::KNOBS | f::GUARD | f::EXT | f::APID | if multi { f::MULTI } else { 0 });
    t.pid = ch.pick(&[1usize, 0x1f, 0x1234, usize::MAX]);
    t.threads = ch.pick(&[&[1usize][..], &[0x2b, 2], &[0x7fff_ffff, 3, 2]]).to_vec();
    let mut s = Sess::new(&mut t, 256);
    s.s(ch, &mut t, if mp { "qSupported:multiprocess+" } else { "qSupported:swbreak+" }).reply()?;
    let mut cur = if multi { t.threads[0] } else { 1 };
    if ch.flag() {
        let x = *t.threads.last().unwrap();
        let r = s.s(ch, &mut t, &format!("Hg{:x}", x));
        r.expect(&Exp::ok())?;
        if multi {
            cur = x;
        }
    }
    t.take_log();
    let r = s.s(ch, &mut t, "qC");
    let rep = r.reply()?;
    let got = match rep.strip_prefix(b"QCp").and_then(|x| {
        let i = x.iter().position(|b| *b == b'.')?;
        Some((num(&x[..i]), num(&x[i + 1..])))
    }) {
        Some((Some(p), Some(n))) => Some((Some(p), n)),
        Some(_) => None,
        None => rep.strip_prefix(b"QC").and_then(num).map(|n| (None, n)),
    };
    let mp = mp || s.mp;
    let want = Some((mp.then_some(t.pid as u128), cur as u128));
    // the library starts multi-threaded sessions on thread 1 or the first listed one
    let alt = Some((mp.then_some(t.pid as u128), 1));
    if got == want || (multi && got == alt && t.threads.contains(&1) && cur == t.threads[0]) {
        want_calls(t.take_log(), &[], &r.what)
    } else {
        fail("qC", format!("{}: replied {:?}, expected {:x?}", r.what, show(&rep), want))
    }
}

fn c29_attached(ch: &mut Ch) -> R {
    let ext = ch.flag();
    let mut t = Tgt::<u32>::new(f::PLAIN | if ext { f::EXT | f::APID } else { 0 });
    t.was_attach = ch.flag();
    let mut s = Sess::new(&mut t, 256);
    let pid = ch.pick(&[None, Some(1u128), Some(0x2a), Some(0xffff_ffff), Some(usize::MAX as u128)]);
    let st = ch.choose(3);
    let r = s.s(ch, &mut t, &match pid {
        None => "qAttached".to_string(),
        Some(p) => format!("qAttached:{}", num_style(st, p)),
    });
    let log = deeds(t.take_log());
    match (ext, pid) {
        (true, Some(p)) => {
            want_calls(log, &[call("query_if_attached", &[p], &[])], &r.what)?;
            r.expect(&Exp::s(if t.was_attach { "1" } else { "0" }))
        }
        _ => {
            want_calls(log, &[], &r.what)?;
            r.expect(&Exp::s("1"))
        }
    }
}

// ============================================================== long things ===

thread_local! {
    static LONG: std::cell::OnceCell<&'static str> = const { std::cell::OnceCell::new() };
}

/// long objects through buffers of any size
fn c22_long(ch: &mut Ch) -> R {
    let o = ch.pick(OBS);
    let n = ch.pick(LENS);
    let mut t = Tgt::<u32>::new(f::NOACK | f::GUARD | f::RLE | cap(o));
    let blob = if o == Arch {
        // one document per thread, cut at n
        let doc = LONG.with(|l| {
            *l.get_or_init(|| {
                let s: String = (0..10_000).map(|i| format!("<r n='{}'/>", i)).collect();
                Box::leak(s.into_boxed_str())
            })
        });
        ARCH_XML.with(|c| c.set(Some(&doc[..n])));
        doc[..n].trim().as_bytes().to_vec()
    } else {
        object(o, n)
    };
    t.blob = blob.clone();
    let (size, step) = ch.pick(&[(0x2_0000usize, 0x2_0000usize), (0x2_0000, 0x1000), (4096, 0xffb), (300, 0xff), (0x1_0001, 0x1_0000)]);
    let mut s = Sess::new(&mut t, size);
    let mut got: Vec<u8> = vec![];
    loop {
        let off = got.len();
        let r = s.s(ch, &mut t, &format!("{}{:x},{:x}", head(o), off, step));
        let (d, last) = part(&r, &blob, off as u128, step as u128, step + 64 < size)?;
        got.extend(d);
        t.take_log();
        if last {
            break;
        }
        if got.len() > blob.len() {
            return fail("too-long", "more data than the object has");
        }
    }
    if got != blob {
        return fail("object", format!("an object of {} bytes was reassembled wrongly", n));
    }
    Ok(())
}

/// lists of registers of any length, register numbers up to any size
fn c29_long(ch: &mut Ch) -> R {
    thread_local! {
        static IDS: Vec<&'static [usize]> = LENS
            .iter()
            .map(|n| &*Box::leak((0..*n).map(|i| i * 3).collect::<Vec<usize>>().into_boxed_slice()))
            .collect();
    }
    let arch = ch.flag();
    let i = ch.choose(LENS.len());
    let ids = IDS.with(|v| v[i]);
    let mut d = RegD { bits: 32, ..Default::default() };
    match ch.choose(3) {
        0 => d.cont = Some(ids),
        1 => d.inv = Some(ids),
        _ => {
            d.cont = Some(&ids[..2]);
            d.inv = Some(ids);
        }
    }
    COUNT.with(|c| c.set(usize::MAX));
    REG.with(|r| r.set(d));
    let mut t = Tgt::<u32>::new(f::PLAIN | f::USELLDB | if arch { 0 } else { f::LLDBOV });
    if arch {
        ARCH_LLDB.with(|c| c.set(Some(reg_arch)));
    } else {
        t.lldb_override = Some(reg_over);
    }
    let id = ch.pick(&[0usize, 0x123]);
    let mut s = Sess::new(&mut t, 256);
    let r = s.s(ch, &mut t, &format!("qRegisterInfo{:x}", id));
    check_reg(&r, d, id)
}
