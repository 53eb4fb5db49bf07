//! C27, C28: tracepoints and trace experiments.

use crate::client::*;
use crate::props::*;
use crate::sess::*;

pub const PROPS: &[&Prop] = &[&C27, &C28];

const T: u64 = f::PLAIN | f::TRACE | f::TSRC;

/// never confirmed: an error reply or the end of the session
fn refused(r: &Rep) -> R {
    match r.st {
        St::Err(_) => Ok(()),
        St::Idle => {
            let p = r.reply()?;
            if is_err(&p) || p.is_empty() {
                Ok(())
            } else {
                fail("confirmed", format!("{}: {:?}", r.what, show(&p)))
            }
        }
        _ => fail("state", format!("{}: {:?}", r.what, r.st)),
    }
}

// ===================================================================== C27 ===

static C27: Prop = Prop {
    id: "C27",
    scenes: &[
        Scene { name: "define-u8", body: c27_def::<u8> },
        Scene { name: "define-u16", body: c27_def::<u16> },
        Scene { name: "define-u32", body: c27_def::<u32> },
        Scene { name: "define-u64", body: c27_def::<u64> },
        Scene { name: "actions", body: c27_act },
        Scene { name: "action-bytes", body: c27_act_bytes },
        Scene { name: "several-packets", body: c27_multi },
        Scene { name: "long", body: c27_long },
        Scene { name: "sources", body: c27_src::<u32> },
        Scene { name: "sources-u64", body: c27_src::<u64> },
        Scene { name: "source-bytes", body: c27_src_bytes },
        Scene { name: "failing-parts", body: c27_fail },
        Scene { name: "malformed-and-unsupported", body: c27_bad },
        Scene { name: "upload-sets", body: c27_up },
        Scene { name: "upload-long", body: c27_up_long },
        Scene { name: "upload-values-u8", body: c27_up_val::<u8> },
        Scene { name: "upload-values-u32", body: c27_up_val::<u32> },
        Scene { name: "upload-values-u64", body: c27_up_val::<u64> },
        Scene { name: "upload-interrupted", body: c27_up_hist },
        Scene { name: "once-more", body: c27_again },
    ],
    assumptions: &[
        "conditions, fast and static tracepoints, while-stepping and M actions are documented as unimplemented: they must be refused",
        "the target enumerates one item per call, as its interface asks",
    ],
};

const NUMS: &[u128] = &[0, 1, 9, 0xa, 0x10, 0xff, 0x100, 0x7fff_ffff, 0xffff_ffff, u64::MAX as u128];

fn c27_def<U: HU>(ch: &mut Ch) -> R {
    let mut t = Tgt::<U>::new(T | if ch.flag() { f::MULTI } else { 0 });
    let max = U::max_value().big();
    let mut ad = addrs(U::BITS);
    ad.extend([max + 1, max * 2 + 1]);
    let a = ch.choose(3);
    let (n, addr) = match a {
        0 => (ch.pick(NUMS), 0x20),
        1 => (1, ch.pick(&ad)),
        _ => (3, max),
    };
    let (st, pa) = if a == 2 { (ch.pick(NUMS), ch.pick(NUMS)) } else { (0, 2) };
    let sty = ch.choose(5);
    let en = ch.flag();
    let more = ch.flag();
    let mut s = Sess::new(&mut t, 256);
    let p = format!(
        "QTDP:{}:{}:{}:{}:{}{}",
        num_style(sty, n),
        num_style(sty, addr),
        if en { "E" } else { "D" },
        num_style(sty, st),
        num_style(sty, pa),
        if more { "-" } else { "" }
    );
    let r = s.s(ch, &mut t, &p);
    let log = t.take_log();
    if addr > max {
        want_calls(log, &[], &r.what)?;
        return refused(&r);
    }
    let mut w = vec![call("tp_begin", &[n, en as u128, addr, st, pa], &[])];
    if !more {
        w.push(call("tp_complete", &[n], &[]));
    }
    want_calls(log, &w, &r.what)?;
    r.expect(&Exp::ok())
}

fn acts() -> Vec<ActM> {
    vec![
        ActM::Regs(vec![0x01]),
        ActM::Regs(vec![0x00, 0xff, 0x1e]),
        ActM::Regs((0..40).collect()),
        ActM::Expr(vec![]),
        ActM::Expr(vec![0x27]),
        ActM::Expr(vec![0x22, 0x00, 0x03, 0x04, 0x53, 0x58, 0x52, 0x4d, 0x2c, 0x2d]),
        ActM::Expr((0..0x1f).rev().collect()),
    ]
}
fn act_txt(a: &ActM, up: bool) -> String {
    let h = |b: &[u8]| if up { hex(b).to_uppercase() } else { hex(b) };
    match a {
        ActM::Regs(m) => format!("R{}", h(m)),
        ActM::Expr(e) => {
            if up {
                format!("X{:X},{}", e.len(), h(e))
            } else {
                format!("X{:x},{}", e.len(), h(e))
            }
        }
        ActM::Mem(..) => unreachable!(),
    }
}
fn act_call(tp: u128, a: &ActM) -> Call {
    match a {
        ActM::Regs(m) => call("tp_action", &[tp, 0], &[m]),
        ActM::Expr(e) => call("tp_action", &[tp, 2], &[e]),
        ActM::Mem(..) => unreachable!(),
    }
}

/// one packet with any short list of actions
fn c27_act(ch: &mut Ch) -> R {
    let mut t = Tgt::<u32>::new(T);
    let n = ch.choose(ch.by(4, 5));
    let pool = acts();
    let l: Vec<ActM> = (0..n).map(|_| ch.pick(&pool)).collect();
    let up = ch.flag();
    let more = ch.flag();
    let tp = ch.pick(&[0u128, 1, 0x1f]);
    let mut s = Sess::new(&mut t, 512);
    let body: String = l.iter().map(|a| act_txt(a, up)).collect();
    let p = format!("QTDP:-{:x}:1234:{}{}", tp, body, if more { "-" } else { "" });
    let r = s.s(ch, &mut t, &p);
    let mut w: Vec<Call> = l.iter().map(|a| act_call(tp, a)).collect();
    if !more {
        w.push(call("tp_complete", &[tp], &[]));
    }
    want_calls(t.take_log(), &w, &r.what)?;
    copies(&t)?;
    r.expect(&Exp::ok())
}
/// owned copies of actions and sources must be equal to the originals
fn copies<U: HU>(t: &Tgt<U>) -> R {
    match t.tp_created.borrow().first() {
        Some(x) => fail("get_owned", x.clone()),
        None => Ok(()),
    }
}

fn c27_act_bytes(ch: &mut Ch) -> R {
    let mut t = Tgt::<u32>::new(T);
    let b = ch.choose(256) as u8;
    let n = ch.pick(&[1usize, 2, 15, 16, 100]);
    let v = vec![b; n];
    let a = if ch.flag() { ActM::Regs(v) } else { ActM::Expr(v) };
    let up = ch.flag();
    let mut s = Sess::new(&mut t, 512);
    let p = format!("QTDP:-5:0:{}", act_txt(&a, up));
    let r = s.s(ch, &mut t, &p);
    want_calls(t.take_log(), &[act_call(5, &a), call("tp_complete", &[5], &[])], &r.what)?;
    r.expect(&Exp::ok())
}

/// a definition spread over packets, two tracepoints taking turns
fn c27_multi(ch: &mut Ch) -> R {
    let mut t = Tgt::<u16>::new(T | if ch.flag() { f::MULTI } else { 0 });
    let mut s = Sess::new(&mut t, 256);
    let pool = acts();
    for _ in 0..ch.by(4, 5) {
        let tp = 1 + ch.choose(2) as u128;
        let more = ch.flag();
        let d = if more { "-" } else { "" };
        let done = call("tp_complete", &[tp], &[]);
        let (p, mut w) = match ch.choose(4) {
            0 => (format!("QTDP:{}:10{}:E:0:0{}", tp, tp, d), vec![call("tp_begin", &[tp, 1, 0x100 + tp, 0, 0], &[])]),
            1 => (format!("QTDP:-{}:10{}:{}{}", tp, tp, act_txt(&pool[0], false), d), vec![act_call(tp, &pool[0])]),
            2 => (
                format!("QTDP:-{}:10{}:{}{}{}", tp, tp, act_txt(&pool[5], true), act_txt(&pool[1], false), d),
                vec![act_call(tp, &pool[5]), act_call(tp, &pool[1])],
            ),
            _ => {
                let r = s.s(ch, &mut t, &format!("QTDPsrc:{}:10{}:cmd:0:3:616263", tp, tp));
                want_calls(t.take_log(), &[call("tp_source", &[tp, 0x100 + tp, 2, 0, 3], &[b"abc"])], &r.what)?;
                r.expect(&Exp::ok())?;
                continue;
            }
        };
        if !more {
            w.push(done);
        }
        let r = s.s(ch, &mut t, &p);
        want_calls(t.take_log(), &w, &r.what)?;
        r.expect(&Exp::ok())?;
    }
    Ok(())
}

const U32S: &[u128] = &[0, 1, 0xff, 0x1000, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff];
const KINDS: &[&str] = &["at", "cond", "cmd"];

fn c27_src<U: HU>(ch: &mut Ch) -> R {
    let mut t = Tgt::<U>::new(T);
    let max = U::max_value().big();
    let k = ch.choose(3);
    let sty = ch.choose(4);
    let (mut n, mut addr, mut st, mut sl) = (1, 0x40, 0, 5);
    match ch.choose(3) {
        0 => n = ch.pick(NUMS),
        1 => {
            addr = {
                let mut a = addrs(U::BITS);
                a.push(max + 1);
                ch.pick(&a)
            }
        }
        _ => {
            st = ch.pick(U32S);
            sl = ch.pick(U32S);
        }
    }
    let b = ch.pick(&[&b""[..], b"x", b"hello", b"print $eip == 0x1234:5"]);
    let mut s = Sess::new(&mut t, 256);
    let p = format!(
        "QTDPsrc:{}:{}:{}:{}:{}:{}",
        num_style(sty, n),
        num_style(sty, addr),
        KINDS[k],
        num_style(sty, st),
        num_style(sty, sl),
        hex(b)
    );
    let r = s.s(ch, &mut t, &p);
    if addr > max {
        want_calls(t.take_log(), &[], &r.what)?;
        return refused(&r);
    }
    want_calls(t.take_log(), &[call("tp_source", &[n, addr, k as u128, st, sl], &[b])], &r.what)?;
    copies(&t)?;
    r.expect(&Exp::ok())
}
fn c27_src_bytes(ch: &mut Ch) -> R {
    let mut t = Tgt::<u32>::new(T);
    let b = vec![ch.choose(256) as u8; ch.pick(&[1usize, 2, 99])];
    let h = if ch.flag() { hex(&b) } else { hex(&b).to_uppercase() };
    let mut s = Sess::new(&mut t, 256);
    let r = s.s(ch, &mut t, &format!("QTDPsrc:2:40:cond:0:{:x}:{}", b.len(), h));
    want_calls(t.take_log(), &[call("tp_source", &[2, 0x40, 1, 0, b.len() as u128], &[&b])], &r.what)?;
    r.expect(&Exp::ok())
}

/// a part the target refuses is reported, and nothing is completed
fn c27_fail(ch: &mut Ch) -> R {
    let mut t = Tgt::<u32>::new(T);
    let pool = acts();
    let which = ch.choose(5);
    let e = 1 + ch.choose(255) as u8;
    let (p, f, nth): (String, &'static str, usize) = match which {
        0 => ("QTDP:1:10:E:0:0".into(), "tp_begin", 0),
        1 => ("QTDP:1:10:E:0:0-".into(), "tp_begin", 0),
        2 => ("QTDP:1:10:E:0:0".into(), "tp_complete", 0),
        3 => {
            let k = ch.choose(3);
            (format!("QTDP:-1:10:{}{}{}", act_txt(&pool[0], false), act_txt(&pool[4], false), act_txt(&pool[1], false)), "tp_action", k)
        }
        _ => ("QTDPsrc:1:10:at:0:1:61".into(), "tp_source", 0),
    };
    t.inj = vec![(f, nth, Inj::Errno(e))];
    let mut s = Sess::new(&mut t, 256);
    let r = s.s(ch, &mut t, &p);
    let log = t.take_log();
    r.expect(&Exp::e(e))?;
    if f != "tp_complete" && log.iter().any(|c| c.f == "tp_complete") {
        return fail("completed", format!("{}: {:x?}", r.what, log));
    }
    // the session is fine
    t.inj.clear();
    let r = s.s(ch, &mut t, "QTDP:2:10:D:0:0");
    want_calls(t.take_log(), &[call("tp_begin", &[2, 0, 0x10, 0, 0], &[]), call("tp_complete", &[2], &[])], &r.what)?;
    r.expect(&Exp::ok())
}

fn c27_bad(ch: &mut Ch) -> R {
    let mut t = Tgt::<u32>::new(T);
    let p = ch.pick(&[
        "QTDP", "QTDP:", "QTDP:1", "QTDP:1:10", "QTDP:1:10:E", "QTDP:1:10:E:0", "QTDP:1:10:X:0:0", "QTDP:1:10::0:0", "QTDP:1:10:EE:0:0",
        "QTDP:1:10:e:0:0", "QTDP:g:10:E:0:0", "QTDP:1:1g:E:0:0", "QTDP:1:10:E:g:0", "QTDP:1:10:E:0:g", "QTDP:1:10:E:0:0:", "QTDP:1:10:E:0:0:Z",
        "QTDP:10000000000000000:10:E:0:0", "QTDP:1:10:E:10000000000000000:0", "QTDP:1:10:E:0:10000000000000000",
        "QTDP:1:10:E:0:0:F5", "QTDP:1:10:E:0:0:S", "QTDP:1:10:E:0:0:X1,22", "QTDP:1:10:E:0:0:F5:X1,22", "QTDP:1:10:E:0:0:X1,22-",
        "QTDP:-", "QTDP:-1", "QTDP:-1:10", "QTDP:-g:10:R01", "QTDP:-1:g:R01", "QTDP:-1:100000000:R01", "QTDP:-1:10:Q", "QTDP:-1:10:R0g",
        "QTDP:-1:10:R01Q", "QTDP:-1:10:X", "QTDP:-1:10:X1", "QTDP:-1:10:X1,", "QTDP:-1:10:X2,22", "QTDP:-1:10:X1,2g", "QTDP:-1:10:Xg,22",
        "QTDP:-1:10:X,22", "QTDP:-1:10:X1,2233", "QTDP:-1:10:M0,0,1", "QTDP:-1:10:M-1,0,1", "QTDP:-1:10:SR01", "QTDP:-1:10:S",
        "QTDP:-1:10:R01M0,0,1", "QTDP:-1:10:R01S", "QTDP:-1:10:X1,22SR01", "QTDP:-1:10:R01X1,2", "QTDP:-1:10:Xffffffffffffffff,22",
        "QTDP:-1:10:X8000000000000000,22", "QTDP:-1:10:X7fffffffffffffff,22", "QTDP:-1:10:X10000000000000000,22",
        "QTDPsrc", "QTDPsrc:", "QTDPsrc:1", "QTDPsrc:1:10", "QTDPsrc:1:10:at", "QTDPsrc:1:10:at:0", "QTDPsrc:1:10:at:0:1", "QTDPsrc:1:10:ax:0:1:61",
        "QTDPsrc:1:10:a:0:1:61", "QTDPsrc:1:10:atx:0:1:61", "QTDPsrc:1:10:AT:0:1:61", "QTDPsrc:1:10::0:1:61", "QTDPsrc:1:10:at:g:1:61",
        "QTDPsrc:1:10:at:100000000:1:61", "QTDPsrc:1:10:at:0:100000000:61", "QTDPsrc:1:10:at:0:1:6g", "QTDPsrc:1:10:at:0:1:g",
        "QTDPsrc:g:10:at:0:1:61", "QTDPsrc:1:g:at:0:1:61", "QTDPsrc:10000000000000000:10:at:0:1:61",
    ]);
    let mut s = Sess::new(&mut t, 256);
    let r = s.s(ch, &mut t, p);
    let log = t.take_log();
    if log.iter().any(|c| c.f != "tp_action" || p.starts_with("QTDPsrc")) {
        return fail("calls", format!("{}: the target saw {:x?}", r.what, log));
    }
    refused(&r)
}

// ---- upload

/// the items of a set of tracepoints in the order the target lists them
enum Item<'a> {
    T(&'a TpM),
    A(&'a TpM, &'a ActM),
    Z(&'a TpM, &'a SrcM),
}
fn items(tps: &[TpM], src_first: bool) -> Vec<Item<'_>> {
    let mut v = vec![];
    for t in tps {
        v.push(Item::T(t));
        let a = t.actions.iter().map(|a| Item::A(t, a));
        let z = t.sources.iter().map(|z| Item::Z(t, z));
        if src_first {
            v.extend(z);
            v.extend(a);
        } else {
            v.extend(a);
            v.extend(z);
        }
    }
    v
}
fn same_item(it: &Item, p: &[u8]) -> bool {
    let Ok(p) = std::str::from_utf8(p) else { return false };
    if p.is_empty() {
        return false;
    }
    let fs: Vec<&str> = p[1..].split(':').collect();
    let n = |s: &str| num(s.as_bytes());
    match it {
        Item::T(t) => {
            p.starts_with('T')
                && fs.len() == 5
                && n(fs[0]) == Some(t.num as u128)
                && n(fs[1]) == Some(t.addr)
                && fs[2] == if t.enabled { "E" } else { "D" }
                && n(fs[3]) == Some(t.step as u128)
                && n(fs[4]) == Some(t.pass as u128)
        }
        Item::A(t, a) => {
            p.starts_with('A') && fs.len() == 3 && n(fs[0]) == Some(t.num as u128) && n(fs[1]) == Some(t.addr) && {
                let b = fs[2];
                match a {
                    ActM::Regs(m) => b.starts_with('R') && unhex(b[1..].as_bytes()).as_ref() == Some(m),
                    ActM::Expr(e) => match b.split_once(',') {
                        Some((l, x)) => l.starts_with('X') && n(&l[1..]) == Some(e.len() as u128) && unhex(x.as_bytes()).as_ref() == Some(e),
                        None => false,
                    },
                    ActM::Mem(base, off, len) => {
                        let q: Vec<&str> = b.split(',').collect();
                        q.len() == 3
                            && q[0].starts_with('M')
                            && match base {
                                None => &q[0][1..] == "-1",
                                Some(x) => n(&q[0][1..]) == Some(*x as u128),
                            }
                            && n(q[1]) == Some(*off)
                            && n(q[2]) == Some(*len as u128)
                    }
                }
            }
        }
        Item::Z(t, z) => {
            p.starts_with('Z')
                && fs.len() == 6
                && n(fs[0]) == Some(t.num as u128)
                && n(fs[1]) == Some(t.addr)
                && fs[2] == KINDS[z.kind as usize]
                && n(fs[3]) == Some(z.start as u128)
                && n(fs[4]) == Some(z.slen as u128)
                && unhex(fs[5].as_bytes()).as_ref() == Some(&z.bytes)
        }
    }
}
fn check_item(tps: &[TpM], src_first: bool, i: usize, r: &Rep) -> R {
    let p = r.reply()?;
    match items(tps, src_first).get(i) {
        Some(it) => {
            if !same_item(it, &p) {
                return fail("item", format!("{} as item {} of {:x?}: {:?}", r.what, i, tps, show(&p)));
            }
        }
        None => {
            if !p.is_empty() && p != b"l" {
                return fail("end", format!("{} past the end of {:x?}: {:?}", r.what, tps, show(&p)));
            }
        }
    }
    Ok(())
}
fn walk<U: HU>(ch: &mut Ch, t: &mut Tgt<U>, s: &mut Sess<'_, Tgt<U>>) -> R {
    let tps = t.tps.clone();
    let n = items(&tps, t.src_first).len();
    for i in 0..n + 2 {
        let r = s.s(ch, t, if i == 0 { "qTfP" } else { "qTsP" });
        check_item(&tps, t.src_first, i, &r)?;
    }
    Ok(())
}

fn up_pool() -> (Vec<ActM>, Vec<SrcM>) {
    (
        vec![ActM::Regs(vec![3]), ActM::Mem(None, 0x30, 4), ActM::Expr(vec![0x22, 0x7f])],
        vec![
            SrcM { kind: 0, start: 0, slen: 4, bytes: b"main".to_vec() },
            SrcM { kind: 2, start: 2, slen: 9, bytes: b"ll".to_vec() },
        ],
    )
}

fn c27_up(ch: &mut Ch) -> R {
    let mut t = Tgt::<u32>::new(T | if ch.flag() { f::MULTI } else { 0 });
    let (ap, sp) = up_pool();
    let n = ch.choose(4);
    t.tps.clear();
    for k in 0..n {
        let na = ch.choose(ch.by(3, 4));
        let ns = ch.choose(3);
        t.tps.push(TpM {
            num: 1 + 2 * k,
            addr: 0x100 * k as u128,
            enabled: k % 2 == 0,
            step: k as u64,
            pass: 7,
            actions: (0..na).map(|i| ap[(i + k) % 3].clone()).collect(),
            sources: (0..ns).map(|i| sp[(i + k) % 2].clone()).collect(),
        });
    }
    t.src_first = ch.flag();
    let mut s = Sess::new(&mut t, 256);
    if ch.flag() {
        // nothing to continue yet
        let r = s.s(ch, &mut t, "qTsP");
        let p = r.reply()?;
        if !p.is_empty() && p != b"l" {
            return fail("end", format!("{}: {:?}", r.what, show(&p)));
        }
    }
    for _ in 0..2 {
        walk(ch, &mut t, &mut s)?;
    }
    Ok(())
}

/// many tracepoints, many actions, many sources, all distinct
fn c27_up_long(ch: &mut Ch) -> R {
    let mut t = Tgt::<u32>::new(T | if ch.flag() { f::MULTI } else { 0 });
    let max = ch.by(300usize, 1100);
    let lens = [0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 64, 127, 128, 129, 255, 256, 257, max];
    let (mut n, mut na, mut ns) = (1, ch.choose(3), ch.choose(3));
    match ch.choose(4) {
        0 => n = ch.pick(&lens),
        1 => na = ch.pick(&lens),
        2 => ns = ch.pick(&lens),
        _ => {
            n = ch.choose(7);
            na = ch.choose(7);
            ns = ch.choose(7);
        }
    }
    t.tps = (0..n)
        .map(|k| TpM {
            num: 1 + k,
            addr: 0x100 * k as u128,
            enabled: k % 2 == 0,
            step: k as u64,
            pass: 2 * k as u64,
            actions: (0..na)
                .map(|i| match i % 3 {
                    0 => ActM::Expr(vec![i as u8, (i >> 8) as u8, k as u8]),
                    1 => ActM::Regs(vec![i as u8, (i >> 8) as u8]),
                    _ => ActM::Mem(Some(i as u64), k as u128, i as u64),
                })
                .collect(),
            sources: (0..ns).map(|i| SrcM { kind: (i % 3) as u8, start: i as u32, slen: ns as u32, bytes: vec![i as u8, k as u8] }).collect(),
        })
        .collect();
    t.src_first = ch.flag();
    let mut s = Sess::new(&mut t, 256);
    walk(ch, &mut t, &mut s)
}

fn c27_up_val<U: HU>(ch: &mut Ch) -> R {
    let mut t = Tgt::<U>::new(T);
    let max = U::max_value().big();
    let mut tp = TpM { num: 1, addr: 0x20, enabled: true, step: 0, pass: 0, actions: vec![], sources: vec![] };
    let u64s: Vec<u64> = NUMS.iter().map(|x| *x as u64).collect();
    match ch.choose(8) {
        0 => tp.num = ch.pick(&u64s) as usize,
        1 => tp.addr = ch.pick(&addrs(U::BITS)),
        2 => tp.step = ch.pick(&u64s),
        3 => tp.pass = ch.pick(&u64s),
        4 => {
            let v = vec![ch.choose(256) as u8; ch.pick(&[1usize, 5, 130])];
            tp.actions.push(if ch.flag() { ActM::Regs(v) } else { ActM::Expr(v) });
        }
        5 => {
            let b = if ch.flag() { None } else { Some(ch.pick(&u64s)) };
            tp.actions.push(ActM::Mem(b, ch.pick(&[0, 1, max / 2, max]), ch.pick(&u64s)));
        }
        6 => {
            let kind = ch.choose(3) as u8;
            let start = ch.pick(U32S) as u32;
            let slen = ch.pick(U32S) as u32;
            tp.sources.push(SrcM { kind, start, slen, bytes: ch.pick(&[&b""[..], b"a", b"1:2,3;#$}*"]).to_vec() });
        }
        _ => {
            let v = vec![ch.choose(256) as u8; ch.pick(&[1usize, 5, 130])];
            tp.sources.push(SrcM { kind: 2, start: 0, slen: v.len() as u32, bytes: v });
        }
    }
    tp.enabled = ch.flag();
    t.tps = vec![tp.clone()];
    if ch.flag() {
        // as the second of two
        let mut o = tp;
        o.num ^= 0x40;
        o.addr ^= 1;
        t.tps.push(o);
    }
    let mut s = Sess::new(&mut t, 256);
    walk(ch, &mut t, &mut s)
}

/// walks that are abandoned, restarted, disturbed by other commands or fail in between
fn c27_up_hist(ch: &mut Ch) -> R {
    let mut t = Tgt::<u32>::new(T);
    let (ap, sp) = up_pool();
    t.tps = vec![
        TpM { num: 4, addr: 0x10, enabled: true, step: 0, pass: 0, actions: ap[..2].to_vec(), sources: vec![] },
        TpM { num: 2, addr: 0x20, enabled: false, step: 1, pass: 2, actions: vec![ap[2].clone()], sources: sp.clone() },
    ];
    t.src_first = ch.flag();
    let sf = t.src_first;
    let all = t.tps.clone();
    let mut tps = all.clone();
    let mut s = Sess::new(&mut t, 256);
    // position of the walk; None: not started or failed
    let mut at: Option<usize> = None;
    for _ in 0..ch.by(5, 6) {
        match ch.choose(7) {
            0 => {
                let r = s.s(ch, &mut t, "qTfP");
                check_item(&tps, sf, 0, &r)?;
                at = Some(1);
            }
            1 | 2 => {
                let r = s.s(ch, &mut t, "qTsP");
                if let Some(i) = at {
                    check_item(&tps, sf, i, &r)?;
                    at = Some(i + 1);
                }
            }
            3 => {
                let (p, w) = ch.pick(&[
                    ("QTDP:-7:10:R01", "tp_complete"),
                    ("qTStatus", "trace_status"),
                    ("m10,1", "read_addrs"),
                    ("QTDPsrc:7:10:at:0:1:61", "tp_source"),
                    ("qTP:4:10", "tp_status"),
                ]);
                t.take_log();
                let r = s.s(ch, &mut t, p);
                r.reply()?;
                if !t.take_log().iter().any(|c| c.f == w) {
                    return fail("other", format!("{} did not reach {}", p, w));
                }
            }
            4 => {
                // a walk that fails to start leaves nothing of the one before it
                t.inj = vec![("tp_enum", t.armed_count("tp_enum"), Inj::Errno(9))];
                let r = s.s(ch, &mut t, "qTfP");
                t.inj.clear();
                r.expect(&Exp::e(9))?;
                at = Some(usize::MAX / 2);
            }
            5 => {
                // other tracepoints: the next walk starts anew
                tps = match ch.choose(3) {
                    0 => vec![],
                    1 => all[1..].to_vec(),
                    _ => all.clone(),
                };
                t.tps = tps.clone();
                let r = s.s(ch, &mut t, "qTfP");
                check_item(&tps, sf, 0, &r)?;
                at = Some(1);
            }
            _ => {
                t.inj = ["tp_enum", "tp_enum_action", "tp_enum_source"].map(|f| (f, t.armed_count(f), Inj::Errno(7))).to_vec();
                let first = at.is_none();
                let r = s.s(ch, &mut t, if first { "qTfP" } else { "qTsP" });
                t.inj.clear();
                if first || at.is_some_and(|i| i < items(&tps, sf).len()) {
                    r.expect(&Exp::e(7))?;
                }
                at = None;
            }
        }
    }
    Ok(())
}

// ===================================================================== C28 ===

static C28: Prop = Prop {
    id: "C28",
    scenes: &[
        Scene { name: "switches", body: c28_switch },
        Scene { name: "buffer-configuration", body: c28_conf },
        Scene { name: "status", body: c28_status },
        Scene { name: "status-values", body: c28_status_val },
        Scene { name: "status-text", body: c28_text },
        Scene { name: "tracepoint-status-u32", body: c28_tp::<u32> },
        Scene { name: "tracepoint-status-u64", body: c28_tp::<u64> },
        Scene { name: "frames-u8", body: c28_frame::<u8> },
        Scene { name: "frames-u16", body: c28_frame::<u16> },
        Scene { name: "frames-u32", body: c28_frame::<u32> },
        Scene { name: "frames-u64", body: c28_frame::<u64> },
        Scene { name: "frame-results", body: c28_found },
        Scene { name: "buffer-reads", body: c28_buf },
        Scene { name: "buffer-bytes", body: c28_buf_bytes },
        Scene { name: "long", body: c28_long },
        Scene { name: "malformed", body: c28_bad },
        Scene { name: "histories", body: c28_hist },
        Scene { name: "once-more", body: c28_again },
    ],
    assumptions: &[
        "a target that reports several statuses may have either told; it reports at most one frame number per selection, and at most as many buffer bytes as asked for",
        "statistics the target fails to give are left out of an otherwise complete status",
    ],
};

fn c28_switch(ch: &mut Ch) -> R {
    let mut t = Tgt::<u32>::new(T | if ch.flag() { f::MULTI } else { 0 });
    let mut s = Sess::new(&mut t, 256);
    for _ in 0..3 {
        let (p, f) = ch.pick(&[("QTinit", "tp_init"), ("QTStart", "trace_start"), ("QTStop", "trace_stop")]);
        let e = ch.choose(3);
        t.inj = match e {
            0 => vec![],
            1 => vec![(f, t.armed_count(f), Inj::Errno(9))],
            _ => vec![(f, t.armed_count(f), Inj::NonFatal)],
        };
        let r = s.s(ch, &mut t, p);
        want_calls(t.take_log(), &[call(f, &[], &[])], &r.what)?;
        r.expect(&[Exp::ok(), Exp::e(9), Exp::e(121)][e])?;
    }
    Ok(())
}

fn c28_conf(ch: &mut Ch) -> R {
    let mut t = Tgt::<u32>::new(T);
    let mut s = Sess::new(&mut t, 256);
    let k = ch.choose(4);
    let (p, n) = match k {
        0 => ("QTBuffer:circular:0".to_string(), [0, 0]),
        1 => ("QTBuffer:circular:1".to_string(), [0, 1]),
        2 => ("QTBuffer:size:-1".to_string(), [1, NONE]),
        _ => {
            let v = ch.pick(NUMS);
            let st = ch.choose(5);
            (format!("QTBuffer:size:{}", num_style(st, v)), [1, v])
        }
    };
    let e = ch.flag();
    if e {
        t.inj = vec![("tb_configure", 0, Inj::Errno(0x16))];
    }
    let r = s.s(ch, &mut t, &p);
    want_calls(t.take_log(), &[call("tb_configure", &n, &[])], &r.what)?;
    r.expect(&if e { Exp::e(0x16) } else { Exp::ok() })
}

/// Does a status reply say just this?
fn same_status(st: &StatusM, infos: &[InfoM], p: &[u8]) -> bool {
    let Ok(p) = std::str::from_utf8(p) else { return false };
    let mut it = p.split(';');
    let n = |s: &str| num(s.as_bytes());
    if it.next() != Some(if matches!(st, StatusM::Running) { "T1" } else { "T0" }) {
        return false;
    }
    let fs: Vec<Vec<&str>> = it.map(|x| x.split(':').collect()).collect();
    let mut fs = &fs[..];
    let tx = |s: &str, t: &[u8]| unhex(s.as_bytes()).as_deref() == Some(t);
    if !matches!(st, StatusM::Running | StatusM::NotRunning) {
        let Some(x) = fs.first() else { return false };
        fs = &fs[1..];
        let ok = match st {
            StatusM::NotRun => x[0] == "tnotrun" && x.len() == 2 && x[1] == "0",
            StatusM::Stop(None) => x[0] == "tstop" && (x[1..] == ["0"] || x[1..] == ["", "0"]),
            StatusM::Stop(Some(t)) if t.is_empty() => x[0] == "tstop" && (x[1..] == ["0"] || x[1..] == ["", "0"]),
            StatusM::Stop(Some(t)) => x[0] == "tstop" && x.len() == 3 && tx(x[1], t) && x[2] == "0",
            StatusM::Full => x[..] == ["tfull", "0"],
            StatusM::Disconnected => x[..] == ["tdisconnected", "0"],
            StatusM::Pass(k) => x[0] == "tpasscount" && x.len() == 2 && n(x[1]) == Some(*k as u128),
            StatusM::Error(t, k) => x[0] == "terror" && x.len() == 3 && tx(x[1], t) && n(x[2]) == Some(*k as u128),
            StatusM::Unknown => x[..] == ["tunknown", "0"],
            _ => unreachable!(),
        };
        if !ok {
            return false;
        }
    }
    if fs.len() != infos.len() {
        return false;
    }
    fs.iter().zip(infos).all(|(x, i)| {
        let (k, v) = match i {
            InfoM::Frames(v) => ("tframes", *v),
            InfoM::Created(v) => ("tcreated", *v),
            InfoM::Size(v) => ("tsize", *v),
            InfoM::Free(v) => ("tfree", *v),
            InfoM::Circular(b) => ("circular", *b as usize),
            InfoM::Disc(b) => ("disconn", *b as usize),
            InfoM::Other(s) => return x.join(":") == *s,
        };
        x[0] == k && x.len() == 2 && n(x[1]) == Some(v as u128)
    })
}
fn statuses() -> Vec<StatusM> {
    vec![
        StatusM::Running,
        StatusM::NotRunning,
        StatusM::NotRun,
        StatusM::Stop(None),
        StatusM::Stop(Some(b"".to_vec())),
        StatusM::Stop(Some(b"enough; of:this".to_vec())),
        StatusM::Full,
        StatusM::Disconnected,
        StatusM::Pass(1),
        StatusM::Pass(0x1a2b),
        StatusM::Error(b"bad".to_vec(), 0),
        StatusM::Error(b"#$}*:;".to_vec(), 0xff),
        StatusM::Unknown,
    ]
}
fn infos() -> Vec<InfoM> {
    vec![
        InfoM::Frames(0),
        InfoM::Created(0x1234),
        InfoM::Size(usize::MAX),
        InfoM::Free(0x100),
        InfoM::Circular(false),
        InfoM::Circular(true),
        InfoM::Disc(false),
        InfoM::Disc(true),
        InfoM::Other("username:6d65:"),
    ]
}
fn c28_status(ch: &mut Ch) -> R {
    let mut t = Tgt::<u32>::new(T);
    let st = ch.pick(&statuses());
    let pool = infos();
    let n = ch.choose(ch.by(5, 6));
    t.status = vec![st.clone()];
    // a target that reports twice: the reply is one of the two
    let more = if n < 2 && ch.flag() { Some(ch.pick(&statuses())) } else { None };
    t.status.extend(more.clone());
    t.infos = (0..n).map(|_| ch.pick(&pool)).collect();
    let fail_info = n == 0 && ch.flag();
    if fail_info {
        t.inj = vec![("trace_info", 0, Inj::Errno(3))];
    }
    let mut s = Sess::new(&mut t, 256);
    let r = s.s(ch, &mut t, "qTStatus");
    want_calls(t.take_log(), &[call("trace_status", &[], &[]), call("trace_info", &[], &[])], &r.what)?;
    let p = r.reply()?;
    if !same_status(&st, &t.infos, &p) && !more.is_some_and(|m| same_status(&m, &t.infos, &p)) {
        return fail("status", format!("{:?} {:?}: {:?}", t.status, t.infos, show(&p)));
    }
    Ok(())
}
fn c28_status_val(ch: &mut Ch) -> R {
    let mut t = Tgt::<u32>::new(T);
    let v = ch.pick(NUMS) as usize;
    let b = vec![ch.choose(256) as u8; ch.pick(&[1usize, 2, 70])];
    let st = match ch.choose(4) {
        0 => StatusM::Pass(v),
        1 => StatusM::Error(b, v),
        2 => StatusM::Stop(Some(b)),
        _ => StatusM::Running,
    };
    let i = [InfoM::Frames(v), InfoM::Created(v), InfoM::Size(v), InfoM::Free(v)];
    t.infos = vec![ch.pick(&i)];
    t.status = vec![st.clone()];
    let mut s = Sess::new(&mut t, 256);
    let p = s.s(ch, &mut t, "qTStatus").reply()?;
    if !same_status(&st, &t.infos, &p) {
        return fail("status", format!("{:?} {:?}: {:?}", st, t.infos, show(&p)));
    }
    Ok(())
}

/// text of the target's own passes as it is
fn c28_text(ch: &mut Ch) -> R {
    let l: &[&'static str] = &[
        "", ";", ":", "a", "a;", ";a", ";;", "x:1;y:2", "x:1;y:2;", " z ", "notes:", "notes::", "stop-notes:;", "U:FF", "l", "T1", "\t", "OK", "0",
        "starttime:0000000000000000", "x:1\n", "\u{e9}", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa;",
    ];
    let mut t = Tgt::<u32>::new(T | if ch.flag() { f::RLE } else { 0 });
    let n = 1 + ch.choose(2);
    let l: Vec<&'static str> = (0..n).map(|_| ch.pick(l)).collect();
    t.status = vec![StatusM::Running];
    t.infos = l.iter().map(|x| InfoM::Other(x)).collect();
    let mut s = Sess::new(&mut t, 256);
    let p = s.s(ch, &mut t, "qTStatus").reply()?;
    let want = format!("T1;{}", l.join(";"));
    if p != want.as_bytes() {
        return fail("status", format!("{:?} was told as {:?}", l, show(&p)));
    }
    Ok(())
}

fn c28_tp<U: HU>(ch: &mut Ch) -> R {
    let mut t = Tgt::<U>::new(T);
    let max = U::max_value().big();
    let mut ad = addrs(U::BITS);
    ad.push(max + 1);
    let (n, a, h, b) = match ch.choose(3) {
        0 => (ch.pick(NUMS), 0x10, 1, 2),
        1 => (1, ch.pick(&ad), 0, 0),
        _ => (2, 0x20, ch.pick(NUMS), ch.pick(NUMS)),
    };
    t.hit = (h as u64, b as u64);
    let st = ch.choose(4);
    let mut s = Sess::new(&mut t, 256);
    let r = s.s(ch, &mut t, &format!("qTP:{}:{}", num_style(st, n), num_style(st, a)));
    if a > max {
        want_calls(t.take_log(), &[], &r.what)?;
        return refused(&r);
    }
    want_calls(t.take_log(), &[call("tp_status", &[n, a], &[])], &r.what)?;
    let p = r.reply()?;
    let x: Vec<&[u8]> = p.split(|c| *c == b':').collect();
    if x.len() != 2 || x[0].first() != Some(&b'V') || num(&x[0][1..]) != Some(h) || num(x[1]) != Some(b) {
        return fail("hits", format!("{:x} {:x}: {:?}", h, b, show(&p)));
    }
    Ok(())
}

fn c28_frame<U: HU>(ch: &mut Ch) -> R {
    let mut t = Tgt::<U>::new(T | if ch.flag() { f::MULTI } else { 0 });
    let max = U::max_value().big();
    let mut ad = addrs(U::BITS);
    ad.push(max + 1);
    let st = ch.choose(4);
    let k = ch.choose(5);
    let (p, n, bad) = match k {
        0 | 2 => {
            let v = ch.pick(NUMS);
            (format!("QTFrame:{}{}", ["", "pc:", "tdp:"][k], num_style(st, v)), vec![k as u128, v], false)
        }
        1 => {
            let v = ch.pick(&ad);
            (format!("QTFrame:pc:{}", num_style(st, v)), vec![1, v], v > max)
        }
        _ => {
            let v = ch.pick(&ad);
            let w = ch.pick(&ad);
            (
                format!("QTFrame:{}:{}:{}", ["range", "outside"][k - 3], num_style(st, v), num_style(st, w)),
                vec![k as u128, v, w],
                v > max || w > max,
            )
        }
    };
    t.frames = vec![];
    let mut s = Sess::new(&mut t, 256);
    let r = s.s(ch, &mut t, &p);
    if bad {
        want_calls(t.take_log(), &[], &r.what)?;
        return refused(&r);
    }
    want_calls(t.take_log(), &[call("select_frame", &n, &[])], &r.what)?;
    r.expect(&Exp::s("F-1"))
}

fn c28_found(ch: &mut Ch) -> R {
    let mut t = Tgt::<u32>::new(T);
    let n = ch.pick(NUMS) as u64;
    let tp = ch.pick(NUMS) as usize;
    let k = ch.choose(6);
    t.frames = match k {
        0 => vec![FrameM::Num(n)],
        1 => vec![FrameM::Num(n), FrameM::Hit(tp)],
        2 => vec![FrameM::Hit(tp), FrameM::Num(n)],
        // a tracepoint, but no frame
        5 => vec![FrameM::Hit(tp)],
        _ => vec![],
    };
    if k == 4 {
        t.inj = vec![("select_frame", 0, Inj::Errno(8))];
    }
    let mut s = Sess::new(&mut t, 256);
    let p = ch.pick(&["QTFrame:5", "QTFrame:pc:10", "QTFrame:tdp:1", "QTFrame:range:1:2", "QTFrame:outside:1:2"]);
    let r = s.s(ch, &mut t, p);
    if k == 4 {
        return r.expect(&Exp::e(8));
    }
    if k == 3 {
        return r.expect(&Exp::s("F-1"));
    }
    // an F part and a T part in either order; T is no digit, and F as a digit would be read as part of the tracepoint number
    let p = r.reply()?;
    let cut = match p.first() {
        Some(b'F') => p.iter().position(|c| *c == b'T'),
        Some(b'T') => p.iter().position(|c| *c == b'F'),
        _ => return fail("frame", format!("{:?}: {:?}", t.frames, show(&p))),
    };
    let (mut fr, mut hit) = (None, None);
    let (a, b) = p.split_at(cut.unwrap_or(p.len()));
    for x in [a, b] {
        match x.first() {
            Some(b'F') if k == 5 && x == b"F-1" => fr = Some(Some(n as u128)),
            Some(b'F') if k == 5 => fr = None,
            Some(b'F') => fr = Some(num(&x[1..])),
            Some(b'T') => hit = Some(num(&x[1..])),
            _ => (),
        }
    }
    if fr != Some(Some(n as u128)) || (k > 0 && hit != Some(Some(tp as u128))) || (k == 0 && hit.is_some()) {
        return fail("frame", format!("{:?}: {:?}", t.frames, show(&p)));
    }
    Ok(())
}

fn c28_buf(ch: &mut Ch) -> R {
    let mut t = Tgt::<u32>::new(T);
    let off = ch.pick(NUMS);
    let n = ch.choose(4);
    t.tb_chunks = (0..n)
        .map(|i| {
            let l = ch.pick(&[1usize, 2, 9]);
            (0..l).map(|j| (j * 37 + i * 5) as u8 ^ 0xa0).collect()
        })
        .collect();
    let total: usize = t.tb_chunks.iter().map(|c| c.len()).sum();
    let len = ch.pick(&[total as u128, total as u128 + 1, 0x200, u64::MAX as u128]);
    let st = ch.choose(4);
    let mut s = Sess::new(&mut t, 256);
    let r = s.s(ch, &mut t, &format!("qTBuffer:{},{}", num_style(st, off), num_style(st, len)));
    want_calls(t.take_log(), &[call("tb_request", &[off, len], &[])], &r.what)?;
    if total == 0 {
        r.expect(&Exp::s("l"))
    } else {
        r.expect(&Exp::s(hex(&t.tb_chunks.concat())))
    }
}
fn c28_buf_bytes(ch: &mut Ch) -> R {
    let mut t = Tgt::<u32>::new(T);
    let b = vec![ch.choose(256) as u8; ch.pick(&[1usize, 3, 40, 300])];
    let k = ch.choose(3);
    t.tb_chunks = match k {
        0 => vec![b.clone()],
        1 => b.chunks(1).map(|c| c.to_vec()).collect(),
        _ => b.chunks(16).map(|c| c.to_vec()).collect(),
    };
    let mut s = Sess::new(&mut t, 256);
    let r = s.s(ch, &mut t, "qTBuffer:0,200");
    r.expect(&Exp::s(hex(&b)))
}

fn c28_bad(ch: &mut Ch) -> R {
    let mut t = Tgt::<u32>::new(T);
    let p = ch.pick(&[
        "QTinit:", "QTinit:1", "QTStart:", "QTStop:1", "QTBuffer", "QTBuffer:", "QTBuffer:circular", "QTBuffer:circular:", "QTBuffer:circular:2",
        "QTBuffer:circular:01", "QTBuffer:size", "QTBuffer:size:", "QTBuffer:size:g", "QTBuffer:size:-2", "QTBuffer:size:10000000000000000",
        "QTBuffer:shape:1", "QTFrame", "QTFrame:", "QTFrame:g", "QTFrame:-1", "QTFrame:10000000000000000", "QTFrame:pc", "QTFrame:pc:g",
        "QTFrame:tdp", "QTFrame:tdp:", "QTFrame:tdp:g", "QTFrame:range:1", "QTFrame:range:1:g", "QTFrame:outside:1", "QTFrame:outside:g:1",
        "QTFrame:Range:1:2", "qTBuffer", "qTBuffer:", "qTBuffer:1", "qTBuffer:1,", "qTBuffer:,1", "qTBuffer:g,1", "qTBuffer:1,g",
        "qTBuffer:10000000000000000,1", "qTBuffer:1,10000000000000000", "qTP", "qTP:", "qTP:1", "qTP:g:1", "qTP:1:g", "qTStatus:", "qTStatus:1",
    ]);
    let mut s = Sess::new(&mut t, 256);
    let r = s.s(ch, &mut t, p);
    want_calls(t.take_log(), &[], &r.what)?;
    refused(&r)
}

fn c28_hist(ch: &mut Ch) -> R {
    let mut t = Tgt::<u32>::new(T);
    t.infos = vec![InfoM::Frames(2)];
    let mut s = Sess::new(&mut t, 128);
    for k in 0..ch.by(5, 7) {
        match ch.choose(7) {
            0 => {
                let r = s.s(ch, &mut t, "QTStart");
                want_calls(t.take_log(), &[call("trace_start", &[], &[])], &r.what)?;
                r.expect(&Exp::ok())?;
                t.status = vec![StatusM::Running];
            }
            1 => {
                let r = s.s(ch, &mut t, "QTStop");
                want_calls(t.take_log(), &[call("trace_stop", &[], &[])], &r.what)?;
                r.expect(&Exp::ok())?;
                t.status = vec![StatusM::Stop(None)];
            }
            2 => {
                let st = t.status.clone();
                let p = s.s(ch, &mut t, "qTStatus").reply()?;
                if st.len() == 1 && !same_status(&st[0], &t.infos, &p) {
                    return fail("status", format!("{:?}: {:?}", st, show(&p)));
                }
                t.take_log();
            }
            3 => {
                t.frames = vec![FrameM::Num(k as u64)];
                let r = s.s(ch, &mut t, "QTFrame:tdp:3");
                want_calls(t.take_log(), &[call("select_frame", &[2, 3], &[])], &r.what)?;
                let p = r.reply()?;
                if p.first() != Some(&b'F') || num(&p[1..]) != Some(k as u128) {
                    return fail("frame", format!("{}: {:?}", k, show(&p)));
                }
            }
            4 => {
                t.frames = vec![];
                let r = s.s(ch, &mut t, "QTFrame:ffffffff");
                want_calls(t.take_log(), &[call("select_frame", &[0, 0xffff_ffff], &[])], &r.what)?;
                r.expect(&Exp::s("F-1"))?;
            }
            5 => {
                t.tb_chunks = vec![vec![k as u8; 3]];
                let r = s.s(ch, &mut t, "qTBuffer:0,3");
                want_calls(t.take_log(), &[call("tb_request", &[0, 3], &[])], &r.what)?;
                r.expect(&Exp::s(hex(&[k as u8; 3])))?;
            }
            _ => {
                t.tb_chunks = vec![];
                let r = s.s(ch, &mut t, "qTBuffer:3,3");
                want_calls(t.take_log(), &[call("tb_request", &[3, 3], &[])], &r.what)?;
                r.expect(&Exp::s("l"))?;
            }
        }
    }
    Ok(())
}

// ============================================================== long things ===

/// long actions, many actions in one packet, many packets for one tracepoint
fn c27_long(ch: &mut Ch) -> R {
    let mut t = Tgt::<u32>::new(T);
    let n = match ch.choose(2) {
        0 => ch.choose(ch.by(600, 4000)) + 1,
        _ => ch.pick(LENS),
    };
    let bytes: Vec<u8> = (0..n).map(|i| (i * 7 + i / 256) as u8).collect();
    let mut s = Sess::new(&mut t, 256);
    let done = call("tp_complete", &[1], &[]);
    match ch.choose(5) {
        k @ (0 | 1) => {
            let a = if k == 0 { ActM::Regs(bytes) } else { ActM::Expr(bytes) };
            let r = s.s(ch, &mut t, &format!("QTDP:-1:10:{}", act_txt(&a, false)));
            want_calls(t.take_log(), &[act_call(1, &a), done], "a long action")?;
            r.expect(&Exp::ok())
        }
        2 => {
            let pool = acts();
            let l: Vec<&ActM> = (0..n).map(|i| &pool[i % pool.len()]).collect();
            let body: String = l.iter().map(|a| act_txt(a, false)).collect();
            let r = s.s(ch, &mut t, &format!("QTDP:-1:10:{}", body));
            let mut w: Vec<Call> = l.iter().map(|a| act_call(1, a)).collect();
            w.push(done);
            want_calls(t.take_log(), &w, "many actions")?;
            r.expect(&Exp::ok())
        }
        3 => {
            let r = s.s(ch, &mut t, &format!("QTDPsrc:1:10:cmd:0:{:x}:{}", n, hex(&bytes)));
            want_calls(t.take_log(), &[call("tp_source", &[1, 0x10, 2, 0, n as u128], &[&bytes])], "a long source")?;
            r.expect(&Exp::ok())
        }
        _ => {
            let r = s.s(ch, &mut t, "QTDP:1:10:E:0:0-");
            want_calls(t.take_log(), &[call("tp_begin", &[1, 1, 0x10, 0, 0], &[])], "the definition")?;
            r.expect(&Exp::ok())?;
            for i in 0..n {
                let a = ActM::Regs(vec![i as u8, (i >> 8) as u8]);
                let last = i + 1 == n;
                let r = s.s(ch, &mut t, &format!("QTDP:-1:10:{}{}", act_txt(&a, false), if last { "" } else { "-" }));
                let mut w = vec![act_call(1, &a)];
                if last {
                    w.push(done.clone());
                }
                want_calls(t.take_log(), &w, "one of many packets")?;
                r.expect(&Exp::ok())?;
            }
            Ok(())
        }
    }
}

fn c28_long(ch: &mut Ch) -> R {
    let mut t = Tgt::<u32>::new(T);
    let n = match ch.choose(2) {
        0 => ch.choose(ch.by(600, 4000)) + 1,
        _ => ch.pick(LENS),
    };
    let bytes: Vec<u8> = (0..n).map(|i| (i * 7 + i / 256) as u8).collect();
    let mut s = Sess::new(&mut t, 256);
    match ch.choose(3) {
        0 => {
            let st = if ch.flag() { StatusM::Stop(Some(bytes)) } else { StatusM::Error(bytes, 7) };
            t.status = vec![st.clone()];
            t.infos = vec![InfoM::Frames(n)];
            let p = s.s(ch, &mut t, "qTStatus").reply()?;
            if !same_status(&st, &t.infos, &p) {
                return fail("status", format!("a text of {} bytes: {}", n, show(&p[..p.len().min(80)])));
            }
            Ok(())
        }
        1 => {
            t.status = vec![StatusM::Running];
            t.infos = (0..n).map(InfoM::Frames).collect();
            let p = s.s(ch, &mut t, "qTStatus").reply()?;
            if !same_status(&StatusM::Running, &t.infos, &p) {
                return fail("status", format!("{} statistics: {}", n, show(&p[..p.len().min(80)])));
            }
            Ok(())
        }
        _ => {
            let c = ch.pick(&[1usize, 7, 256, 0x1_0000]);
            t.tb_chunks = bytes.chunks(c).map(|c| c.to_vec()).collect();
            let r = s.s(ch, &mut t, &format!("qTBuffer:0,{:x}", n));
            want_calls(t.take_log(), &[call("tb_request", &[0, n as u128], &[])], "a long request")?;
            r.expect(&Exp::s(hex(&bytes)))
        }
    }
}
