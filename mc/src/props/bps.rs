//! C17, C18: breakpoints and stop replies.

use crate::client::*;
use crate::props::session::*;
use crate::props::*;
use crate::sess::*;
use gdbstub::common::*;
use gdbstub::stub::*;
use gdbstub::target::ext::base::reverse_exec::ReplayLogPosition;
use gdbstub::target::ext::breakpoints::WatchKind;
use gdbstub::target::ext::catch_syscalls::CatchSyscallPosition;
use std::collections::BTreeSet;

pub const PROPS: &[&Prop] = &[&C17, &C18];

static C17: Prop = Prop {
    id: "C17",
    scenes: &[
        Scene { name: "every-type-every-support", body: c17_types },
        Scene { name: "addresses-u8", body: c17_addr::<u8> },
        Scene { name: "addresses-u16", body: c17_addr::<u16> },
        Scene { name: "addresses-u32", body: c17_addr::<u32> },
        Scene { name: "addresses-u64", body: c17_addr::<u64> },
        Scene { name: "outcomes", body: c17_errors },
        Scene { name: "attached-lists", body: c17_lists },
        Scene { name: "histories", body: c17_hist },
        Scene { name: "repeated-requests", body: c17_endless },
        Scene { name: "many-breakpoints", body: c17_many },
        Scene { name: "once-more", body: c17_again },
    ],
    assumptions: &["conditions and commands attached to breakpoints are not advertised: they are ignored, not refused"],
};

fn bp_call(add: bool, ty: u128, addr: u128, kind: u128) -> Call {
    match (ty, add) {
        (0, true) => call("add_sw", &[addr, kind], &[]),
        (0, false) => call("remove_sw", &[addr, kind], &[]),
        (1, true) => call("add_hw", &[addr, kind], &[]),
        (1, false) => call("remove_hw", &[addr, kind], &[]),
        (_, true) => call("add_watch", &[addr, kind, ty], &[]),
        (_, false) => call("remove_watch", &[addr, kind, ty], &[]),
    }
}

fn refused(log: Vec<Call>, r: &Rep) -> R {
    want_calls(log, &[], &r.what)?;
    if matches!(r.st, St::Err(ErrK::Other(_))) {
        return Ok(());
    }
    let rep = r.reply()?;
    if is_err(&rep) || rep.is_empty() {
        return Ok(());
    }
    fail("refused", format!("{}: replied {:?}", r.what, show(&rep)))
}

fn c17_types(ch: &mut Ch) -> R {
    let fl = [f::BPS, f::SWBP, f::HWBP, f::WATCH, f::MULTI, f::RESUME]
        .iter()
        .fold(f::PLAIN, |a, x| a | if ch.flag() { *x } else { 0 });
    let mut t = Tgt::<u32>::new(fl);
    t.threads = vec![1, 2];
    let add = ch.flag();
    let style = ch.choose(2);
    let ty = ch.pick(&[0u128, 1, 2, 3, 4, 5, 6, 9, 0x10, 0xff, 0x100, 0x101, 0x104]);
    let kind = ch.pick(&[0u128, 1, 2, 4, BAD_KIND as u128, 8]);
    let mut s = Sess::new(&mut t, 64);
    let p = format!("{}{},{:x},{:x}", if add { 'Z' } else { 'z' }, num_style(style, ty), 0x1230, kind);
    let r = s.s(ch, &mut t, &p);
    let need = match ty {
        0 => f::BPS | f::SWBP,
        1 => f::BPS | f::HWBP,
        2..=4 => f::BPS | f::WATCH,
        _ => u64::MAX,
    };
    if fl & need != need {
        if ty > 0xff {
            return refused(t.take_log(), &r);
        }
        want_calls(t.take_log(), &[], &p)?;
        return r.expect(&Exp::Empty);
    }
    if kind == BAD_KIND as u128 && ty < 2 {
        return refused(t.take_log(), &r);
    }
    want_calls(t.take_log(), &[bp_call(add, ty, 0x1230, kind)], &p)?;
    r.expect(&Exp::ok())
}

fn c17_addr<U: HU>(ch: &mut Ch) -> R {
    let mut t = Tgt::<U>::new(f::PLAIN | f::BPALL);
    let max = U::max_value().big();
    let mut l = addrs(U::BITS);
    l.extend([max + 1, (max + 1) << 4, (max + 1) << 8, max << 8]);
    let addr = ch.pick(&l);
    let kind = ch.pick(&[1u128, 0xff, 0x100, 0xffff_ffff, usize::MAX as u128, 1 << 64]);
    let add = ch.flag();
    let ty = ch.choose(5) as u128;
    let (sa, sk) = (ch.choose(5), ch.choose(ch.by(4, 4)));
    let mut s = Sess::new(&mut t, 128);
    let p = format!("{}{},{},{}", if add { 'Z' } else { 'z' }, ty, num_style(sa, addr), num_style(sk, kind));
    let r = s.s(ch, &mut t, &p);
    let kmax = if ty >= 2 { max } else { usize::MAX as u128 };
    if addr > max || kind > kmax {
        return refused(t.take_log(), &r);
    }
    want_calls(t.take_log(), &[bp_call(add, ty, addr, kind)], &p)?;
    r.expect(&Exp::ok())
}

fn c17_errors(ch: &mut Ch) -> R {
    let mut t = Tgt::<u32>::new(f::PLAIN | f::BPALL);
    let add = ch.flag();
    let ty = ch.choose(5) as u128;
    let c = bp_call(add, ty, 0x40, 4);
    let exp = match ch.choose(5) {
        0 => {
            t.inj = vec![(c.f, 0, Inj::NonFatal)];
            Exp::AnyErr
        }
        1 => {
            let e = ch.choose(256) as u8;
            t.inj = vec![(c.f, 0, Inj::Errno(e))];
            Exp::e(e)
        }
        2 => {
            t.inj = vec![(c.f, 0, Inj::Io(28))];
            Exp::e(28)
        }
        3 => {
            t.inj = vec![(c.f, 0, Inj::Fatal(8))];
            Exp::FatalTarget(8)
        }
        _ => {
            // the target declines
            t.bp_ok = false;
            Exp::AnyErr
        }
    };
    let mut s = Sess::new(&mut t, 64);
    let r = s.s(ch, &mut t, &format!("{}{},40,4", if add { 'Z' } else { 'z' }, ty));
    want_calls(t.take_log(), &[c], "one request")?;
    r.expect(&exp)
}

/// conditions and commands follow the kind
fn c17_lists(ch: &mut Ch) -> R {
    let mut t = Tgt::<u32>::new(f::PLAIN | f::BPALL);
    let add = ch.flag();
    let ty = ch.choose(5) as u128;
    let addr = ch.pick(&[0u128, 0x1230, 0xffff_ffff]);
    let kind = ch.pick(&[1u128, 4, 0x10]);
    let list = ch.pick(&[
        "",
        ";X3,220027",
        ";X1,27X2,2227",
        ";X0,",
        ";cmds:0,X1,27",
        ";cmds:1,X3,220027X1,27",
        ";X3,220027;cmds:1,X1,27",
        ";X1,27X1,27;cmds:0,X1,27X1,27",
        ";",
        ";;",
    ]);
    let mut s = Sess::new(&mut t, 128);
    let p = format!("{}{},{:x},{:x}{}", if add { 'Z' } else { 'z' }, ty, addr, kind, list);
    for _ in 0..2 {
        let r = s.s(ch, &mut t, &p);
        want_calls(t.take_log(), &[bp_call(add, ty, addr, kind)], &p)?;
        r.expect(&Exp::ok())?;
    }
    Ok(())
}

/// what the client was told is inserted is what the target inserted
fn c17_hist(ch: &mut Ch) -> R {
    let multi = ch.flag();
    let mut t = Tgt::<u32>::new(f::PLAIN | f::BPALL | f::RESALL | if multi { f::MULTI } else { 0 });
    let mut s = Sess::new(&mut t, 64);
    let mut client: BTreeSet<(u128, u128, u128)> = BTreeSet::new();
    let mut target: BTreeSet<(u128, u128, u128)> = BTreeSet::new();
    for _ in 0..ch.by(3, 4) {
        match ch.choose(2) {
            1 => {
                s.s(ch, &mut t, "c").expect(&Exp::Runs)?;
                s.stop(ch, &mut t, Msr::SwBreak(tid(1))).reply().map(drop).or_else(|_| {
                    fail("stop", "no stop reply")
                })?;
                t.take_log();
            }
            _ => {
                let add = ch.flag();
                let ty = ch.pick(&[0u128, 1, 2, 3, 4]);
                let addr = ch.pick(&[0u128, 0xffff_fff0]);
                let kind = ch.pick(&[1u128, 4]);
                t.bp_ok = ch.flag();
                let r = s.s(ch, &mut t, &format!("{}{},{:x},{:x}", if add { 'Z' } else { 'z' }, ty, addr, kind));
                for c in deeds(t.take_log()) {
                    let (k, ins) = match c.f {
                        "add_sw" => ((0, c.n[0], c.n[1]), true),
                        "remove_sw" => ((0, c.n[0], c.n[1]), false),
                        "add_hw" => ((1, c.n[0], c.n[1]), true),
                        "remove_hw" => ((1, c.n[0], c.n[1]), false),
                        "add_watch" => ((c.n[2], c.n[0], c.n[1]), true),
                        "remove_watch" => ((c.n[2], c.n[0], c.n[1]), false),
                        f => return fail("side-effect", format!("a breakpoint packet called {}", f)),
                    };
                    if t.bp_ok && ins {
                        target.insert(k);
                    } else if t.bp_ok {
                        target.remove(&k);
                    }
                }
                let rep = r.reply()?;
                if rep == b"OK" {
                    if add {
                        client.insert((ty, addr, kind));
                    } else {
                        client.remove(&(ty, addr, kind));
                    }
                } else if !is_err(&rep) {
                    return fail("reply", format!("{:?}", r));
                }
                if (rep == b"OK") != t.bp_ok {
                    return fail("reply", format!("target said {}, {:?}", t.bp_ok, r));
                }
            }
        }
        ch.state(&(&client, &target));
        if client != target {
            return fail("diverged", format!("client {:x?}, target {:x?}", client, target));
        }
    }
    Ok(())
}

// ===================================================================== C18 ===

static C18: Prop = Prop {
    id: "C18",
    scenes: &[
        Scene { name: "every-reason-every-support", body: c18_gates },
        Scene { name: "every-status", body: c18_codes },
        Scene { name: "signal-names", body: c18_names },
        Scene { name: "every-thread", body: c18_tids },
        Scene { name: "watched-addresses-u8", body: c18_watch::<u8> },
        Scene { name: "watched-addresses-u16", body: c18_watch::<u16> },
        Scene { name: "watched-addresses-u64", body: c18_watch::<u64> },
        Scene { name: "syscalls", body: c18_sys },
        Scene { name: "single-thread-reasons", body: c18_single },
        Scene { name: "question-mark", body: c18_qm },
        Scene { name: "repeated-stops", body: c18_endless },
    ],
    assumptions: &["thread ids reported for a stop need not be in the thread list"],
};

/// `Txx` + pairs, in any order
fn parse_t(p: &[u8]) -> Option<(u128, BTreeSet<(String, String)>)> {
    if p.first() != Some(&b'T') || p.len() < 3 {
        return None;
    }
    let sig = num(&p[1..3])?;
    let rest = std::str::from_utf8(&p[3..]).ok()?;
    let mut set = BTreeSet::new();
    if rest.is_empty() {
        return Some((sig, set));
    }
    for kv in rest.strip_suffix(';')?.split(';') {
        let (k, v) = kv.split_once(':')?;
        if !set.insert((k.to_string(), v.to_string())) {
            return None;
        }
    }
    Some((sig, set))
}

#[derive(Debug)]
pub struct Want {
    pub sig: u128,
    pub tid: Option<u128>,
    pub pid: Option<u128>,
    /// key and value; numbers are compared as numbers
    pub kv: Option<(&'static str, Val)>,
}
#[derive(Debug)]
pub enum Val {
    S(&'static str),
    N(u128),
}

pub fn check_t(r: &Rep, w: &Want) -> R {
    let p = r.pkts()?;
    if r.st != St::Idle || p.len() != 1 {
        return fail("stop-reply", format!("{:?}", r));
    }
    let bad = || fail("stop-reply", format!("{}: reported {:?}, expected {:?}", r.what, show(&p[0]), w));
    let Some((sig, mut set)) = parse_t(&p[0]) else { return bad() };
    if sig != w.sig {
        return bad();
    }
    if let Some(t) = w.tid {
        let Some(e) = set.iter().find(|x| x.0 == "thread").cloned() else { return bad() };
        set.remove(&e);
        let ok = match (e.1.strip_prefix('p'), w.pid) {
            (Some(x), Some(pid)) => match x.split_once('.') {
                Some((a, b)) => num(a.as_bytes()) == Some(pid) && num(b.as_bytes()) == Some(t),
                None => false,
            },
            (None, None) => num(e.1.as_bytes()) == Some(t),
            _ => false,
        };
        if !ok {
            return bad();
        }
    }
    if let Some((k, v)) = &w.kv {
        let Some(e) = set.iter().find(|x| x.0 == *k).cloned() else { return bad() };
        set.remove(&e);
        let ok = match v {
            Val::S(s) => e.1 == *s,
            Val::N(n) => num(e.1.as_bytes()) == Some(*n),
        };
        if !ok {
            return bad();
        }
    }
    if !set.is_empty() {
        return bad();
    }
    Ok(())
}

/// an S or W/X report: one packet, letter, number
fn check_code(r: &Rep, letter: u8, code: u8, st: &St) -> R {
    let p = r.pkts()?;
    if r.st != *st || p != vec![format!("{}{:02x}", letter as char, code).into_bytes()] {
        return fail("stop-reply", format!("{:?}, expected {}{:02x} and {:?}", r, letter as char, code, st));
    }
    Ok(())
}

fn unsupported(r: &Rep) -> R {
    if !matches!(r.st, St::Err(ErrK::Other(_))) {
        return fail("gating", format!("{:?}: a stop reason that was not negotiated must be an error", r));
    }
    if !r.raw.is_empty() {
        return fail("gating", format!("{:?}: output for a stop reason that was not negotiated", r));
    }
    Ok(())
}

/// start running; multiprocess negotiated or not
fn running<U: HU>(ch: &mut Ch, t: &mut Tgt<U>, mp: bool) -> Result<Sess<'static, Tgt<U>>, Fail> {
    let mut s = Sess::new(t, 64).plain(t);
    if mp {
        s.s(ch, t, "qSupported:multiprocess+").reply()?;
    }
    s.s(ch, t, "vCont;c").expect(&Exp::Runs)?;
    t.take_log();
    Ok(s)
}

fn c18_gates(ch: &mut Ch) -> R {
    let fl = [f::BPS, f::SWBP, f::HWBP, f::WATCH, f::RSTEP, f::RCONT, f::CATCH, f::MULTI]
        .iter()
        .fold(f::PLAIN | f::RESUME, |a, x| a | if ch.flag() { *x } else { 0 });
    let mut t = Tgt::<u32>::new(fl);
    t.threads = vec![1, 0x2a];
    let mp = ch.flag();
    let id = tid(0x2a);
    let mut s = running(ch, &mut t, mp)?;
    let pid = mp.then_some(1u128);
    let k = ch.choose(13);
    let has = |m: u64| fl & m == m;
    use Val::*;
    let (reason, need, kv, with): (Msr, bool, Option<(&'static str, Val)>, bool) = match k {
        0 => (Msr::SwBreak(id), has(f::BPS | f::SWBP), Some(("swbreak", S(""))), true),
        1 => (Msr::HwBreak(id), has(f::BPS | f::HWBP), Some(("hwbreak", S(""))), true),
        2 => (
            Msr::Watch { tid: id, kind: WatchKind::Write, addr: 0x1000 },
            has(f::BPS | f::WATCH),
            Some(("watch", N(0x1000))),
            true,
        ),
        3 => (
            Msr::Watch { tid: id, kind: WatchKind::Read, addr: 0xffff_ffff },
            has(f::BPS | f::WATCH),
            Some(("rwatch", N(0xffff_ffff))),
            true,
        ),
        4 => (
            Msr::Watch { tid: id, kind: WatchKind::ReadWrite, addr: 0 },
            has(f::BPS | f::WATCH),
            Some(("awatch", N(0))),
            true,
        ),
        5..=8 => {
            let (some, end) = (k & 1 == 0, k > 6);
            let pos = if end { ReplayLogPosition::End } else { ReplayLogPosition::Begin };
            (
                Msr::ReplayLog { tid: some.then_some(id), pos },
                has(f::RSTEP) || has(f::RCONT),
                Some(("replaylog", S(if end { "end" } else { "begin" }))),
                some,
            )
        }
        _ => {
            let (some, ret) = (k & 1 == 0, k > 10);
            let position = if ret { CatchSyscallPosition::Return } else { CatchSyscallPosition::Entry };
            (
                Msr::CatchSyscall { tid: some.then_some(id), number: 0x123, position },
                has(f::CATCH),
                Some((if ret { "syscall_return" } else { "syscall_entry" }, N(0x123))),
                some,
            )
        }
    };
    let r = s.stop(ch, &mut t, reason);
    if !need {
        return unsupported(&r);
    }
    check_t(&r, &Want { sig: 5, tid: with.then_some(0x2a), pid, kv })?;
    want_calls(t.take_log(), &[], "reporting a stop")?;
    if has(f::MULTI) {
        t.take_log();
        s.s(ch, &mut t, "g").reply()?;
        want_calls(deeds(t.take_log()), &[call("read_registers", &[if with { 0x2a } else { 1 }], &[])], "g after the stop")?;
    }
    s.s(ch, &mut t, "vCont;c").expect(&Exp::Runs)
}

/// the thread that `g` reads
fn current(ch: &mut Ch, s: &mut Sess<'_, Tgt<u32>>, t: &mut Tgt<u32>, multi: bool, n: u128) -> R {
    t.take_log();
    s.s(ch, t, "g").reply()?;
    want_calls(deeds(t.take_log()), &[call("read_registers", &[if multi { n } else { 0 }], &[])], "g after the stop")?;
    if !t.has(f::STEP) {
        return Ok(());
    }
    s.s(ch, t, "s").expect(&Exp::Runs)?;
    let log = deeds(t.take_log());
    let at = log.iter().find(|c| c.f == "set_step" || c.f == "step");
    if at.map(|c| c.n[0]) != Some(if multi { n } else { NONE }) {
        return fail("resumed", format!("s after the stop: {:x?}, expected thread {:x}", log, n));
    }
    Ok(())
}

fn c18_codes(ch: &mut Ch) -> R {
    let multi = ch.flag();
    let mut t = Tgt::<u32>::new(f::PLAIN | f::RESUME | f::STEP | if multi { f::MULTI } else { 0 });
    let c = ch.choose(256) as u8;
    let mp = ch.flag();
    let mut s = Sess::new(&mut t, 64).plain(&mut t);
    if mp {
        s.s(ch, &mut t, "qSupported:multiprocess+").reply()?;
    }
    s.s(ch, &mut t, "Hg3").expect(&Exp::ok())?;
    s.s(ch, &mut t, "Hc3").expect(&Exp::ok())?;
    s.s(ch, &mut t, "vCont;c").expect(&Exp::Runs)?;
    t.take_log();
    match ch.choose(5) {
        0 => {
            let r = s.stop(ch, &mut t, Msr::Signal(Signal(c)));
            check_code(&r, b'S', c, &St::Idle)?;
            current(ch, &mut s, &mut t, multi, 3)
        }
        1 => {
            let r = s.stop(ch, &mut t, Msr::Exited(c));
            check_code(&r, b'W', c, &disc(DisconnectReason::TargetExited(c)))
        }
        2 => {
            let r = s.stop(ch, &mut t, Msr::Terminated(Signal(c)));
            check_code(&r, b'X', c, &disc(DisconnectReason::TargetTerminated(Signal(c))))
        }
        3 => {
            let r = s.stop(ch, &mut t, Msr::SignalWithThread { tid: tid(2), signal: Signal(c) });
            check_t(&r, &Want { sig: c as u128, tid: Some(2), pid: mp.then_some(1), kv: None })?;
            current(ch, &mut s, &mut t, multi, 2)
        }
        _ => {
            let r = s.stop(ch, &mut t, Msr::DoneStep);
            check_code(&r, b'S', 5, &St::Idle)?;
            current(ch, &mut s, &mut t, multi, 3)
        }
    }
}

fn c18_tids(ch: &mut Ch) -> R {
    let ext = ch.pick(&[0, f::EXT, f::EXT | f::APID]);
    let mut t = Tgt::<u64>::new(f::PLAIN | f::RESALL | f::BPALL | f::CATCH | f::MULTI | ext);
    t.pid = ch.pick(&[1usize, 0x10, 0xabc, usize::MAX]);
    let n = ch.pick(&[1usize, 2, 0xf, 0x10, 0xff, 0x100, 0x0100_0000, 0xffff_ffff, 1 << 32, 1 << 40, usize::MAX]);
    let id = tid(n);
    let mp = ch.flag();
    let pid = mp.then_some(if ext & f::APID != 0 { t.pid as u128 } else { 1 });
    let mut s = running(ch, &mut t, mp)?;
    type M = MultiThreadStopReason<u64>;
    let (reason, sig, kv): (M, u128, _) = match ch.choose(6) {
        0 => (M::SwBreak(id), 5, Some(("swbreak", Val::S("")))),
        1 => (M::HwBreak(id), 5, Some(("hwbreak", Val::S("")))),
        2 => (M::SignalWithThread { tid: id, signal: Signal(0x91) }, 0x91, None),
        3 => (M::Watch { tid: id, kind: WatchKind::Write, addr: 7 }, 5, Some(("watch", Val::N(7)))),
        4 => (M::ReplayLog { tid: Some(id), pos: ReplayLogPosition::Begin }, 5, Some(("replaylog", Val::S("begin")))),
        _ => (
            M::CatchSyscall { tid: Some(id), number: 0, position: CatchSyscallPosition::Return },
            5,
            Some(("syscall_return", Val::N(0))),
        ),
    };
    let r = s.stop(ch, &mut t, reason);
    check_t(&r, &Want { sig, tid: Some(n as u128), pid, kv })?;
    // the reported thread is the current one
    t.take_log();
    s.s(ch, &mut t, "g").reply()?;
    want_calls(t.take_log(), &[call("read_registers", &[n as u128], &[])], "g after a stop")
}

fn c18_watch<U: HU>(ch: &mut Ch) -> R {
    let multi = ch.flag();
    let mut t = Tgt::<U>::new(f::PLAIN | f::RESUME | f::BPALL | if multi { f::MULTI } else { 0 });
    let a = if U::BITS <= 16 { ch.choose(1 << U::BITS) as u128 } else { ch.pick(&spread(U::BITS)) };
    let (kind, key) = if U::BITS == 16 {
        (WatchKind::Write, "watch")
    } else {
        ch.pick(&[(WatchKind::Write, "watch"), (WatchKind::Read, "rwatch"), (WatchKind::ReadWrite, "awatch")])
    };
    let mut s = running(ch, &mut t, false)?;
    let r = s.stop(ch, &mut t, MultiThreadStopReason::<U>::Watch { tid: tid(1), kind, addr: U::from_big(a) });
    check_t(&r, &Want { sig: 5, tid: Some(1), pid: None, kv: Some((key, Val::N(a))) })
}

/// single bits, all-ones prefixes and the interesting addresses
fn spread(bits: u32) -> Vec<u128> {
    let mut v = addrs(bits);
    for i in 0..bits {
        v.push(1 << i);
        v.push((1u128 << i) - 1);
        v.push(((1u128 << bits) - 1) & !((1 << i) - 1));
    }
    v.sort();
    v.dedup();
    v
}

fn c18_sys(ch: &mut Ch) -> R {
    let mut t = Tgt::<u64>::new(f::PLAIN | f::RESUME | f::CATCH);
    let a = ch.pick(&spread(64));
    let ret = ch.flag();
    let position = if ret { CatchSyscallPosition::Return } else { CatchSyscallPosition::Entry };
    let with = ch.flag();
    let mut s = running(ch, &mut t, false)?;
    let r = s.stop(
        ch,
        &mut t,
        MultiThreadStopReason::<u64>::CatchSyscall { tid: with.then_some(tid(1)), number: a as u64, position },
    );
    check_t(
        &r,
        &Want {
            sig: 5,
            tid: with.then_some(1),
            pid: None,
            kv: Some((if ret { "syscall_return" } else { "syscall_entry" }, Val::N(a))),
        },
    )
}

/// the reasons of single-threaded targets
fn c18_single(ch: &mut Ch) -> R {
    let fl = [f::BPS, f::SWBP, f::HWBP, f::WATCH, f::RSTEP, f::CATCH]
        .iter()
        .fold(f::PLAIN | f::RESUME, |a, x| a | if ch.flag() { *x } else { 0 });
    let mut t = Tgt::<u32>::new(fl);
    let mp = ch.flag();
    let pid = mp.then_some(1u128);
    let mut s = running(ch, &mut t, mp)?;
    type S1 = SingleThreadStopReason<u32>;
    let has = |m: u64| fl & m == m;
    let c = ch.pick(&[0u8, 1, 0x7f, 0xff]);
    use Val::*;
    let (reason, need, w): (S1, bool, Want) = match ch.choose(13) {
        0 => {
            let r = s.stop(ch, &mut t, S1::DoneStep);
            return check_code(&r, b'S', 5, &St::Idle);
        }
        1 => {
            let r = s.stop(ch, &mut t, S1::Signal(Signal(c)));
            return check_code(&r, b'S', c, &St::Idle);
        }
        2 => {
            let r = s.stop(ch, &mut t, S1::Exited(c));
            return check_code(&r, b'W', c, &disc(DisconnectReason::TargetExited(c)));
        }
        3 => {
            let r = s.stop(ch, &mut t, S1::Terminated(Signal(c)));
            return check_code(&r, b'X', c, &disc(DisconnectReason::TargetTerminated(Signal(c))));
        }
        4 => (
            S1::SignalWithThread { tid: (), signal: Signal(c) },
            true,
            Want { sig: c as u128, tid: Some(1), pid, kv: None },
        ),
        5 => (S1::SwBreak(()), has(f::BPS | f::SWBP), Want { sig: 5, tid: Some(1), pid, kv: Some(("swbreak", S(""))) }),
        6 => (S1::HwBreak(()), has(f::BPS | f::HWBP), Want { sig: 5, tid: Some(1), pid, kv: Some(("hwbreak", S(""))) }),
        7 => (
            S1::Watch { tid: (), kind: WatchKind::Write, addr: 0x100 },
            has(f::BPS | f::WATCH),
            Want { sig: 5, tid: Some(1), pid, kv: Some(("watch", N(0x100))) },
        ),
        8 => (
            S1::Watch { tid: (), kind: WatchKind::ReadWrite, addr: 0x100 },
            has(f::BPS | f::WATCH),
            Want { sig: 5, tid: Some(1), pid, kv: Some(("awatch", N(0x100))) },
        ),
        9 => (
            S1::ReplayLog { tid: Some(()), pos: ReplayLogPosition::End },
            has(f::RSTEP),
            Want { sig: 5, tid: Some(1), pid, kv: Some(("replaylog", S("end"))) },
        ),
        10 => (
            S1::ReplayLog { tid: None, pos: ReplayLogPosition::Begin },
            has(f::RSTEP),
            Want { sig: 5, tid: None, pid, kv: Some(("replaylog", S("begin"))) },
        ),
        11 => (
            S1::CatchSyscall { tid: Some(()), number: 3, position: CatchSyscallPosition::Entry },
            has(f::CATCH),
            Want { sig: 5, tid: Some(1), pid, kv: Some(("syscall_entry", N(3))) },
        ),
        _ => (
            S1::CatchSyscall { tid: None, number: 3, position: CatchSyscallPosition::Return },
            has(f::CATCH),
            Want { sig: 5, tid: None, pid, kv: Some(("syscall_return", N(3))) },
        ),
    };
    let r = s.stop(ch, &mut t, reason);
    if !need {
        return unsupported(&r);
    }
    // a single-threaded target may leave out its only thread when it was not named
    if matches!(reason, S1::ReplayLog { .. } | S1::CatchSyscall { .. }) {
        let kv = |k: &Option<(&'static str, Val)>| match k {
            Some((k, S(s))) => Some((*k, S(s))),
            Some((k, N(n))) => Some((*k, N(*n))),
            None => None,
        };
        let a = check_t(&r, &Want { tid: Some(1), kv: kv(&w.kv), ..w });
        return if a.is_ok() { a } else { check_t(&r, &Want { tid: None, ..w }) };
    }
    check_t(&r, &w)
}

/// `?` names a thread that exists, or reports an exited process
fn c18_qm(ch: &mut Ch) -> R {
    let multi = ch.flag();
    let ext = ch.pick(&[0, f::EXT, f::EXT | f::APID]);
    let mut t = Tgt::<u32>::new(f::PLAIN | ext | if multi { f::MULTI } else { 0 });
    t.threads = ch.pick(&[&[][..], &[1], &[5, 1], &[usize::MAX, 3]]).to_vec();
    t.pid = ch.pick(&[1usize, 0x77]);
    let mp = ch.flag();
    let pid = mp.then_some(if ext & f::APID != 0 { t.pid as u128 } else { 1 });
    let mut s = Sess::new(&mut t, 64).plain(&mut t);
    if mp {
        s.s(ch, &mut t, "qSupported:multiprocess+").reply()?;
    }
    t.take_log();
    let r = s.s(ch, &mut t, "?");
    want_calls(t.take_log(), &[], "?")?;
    if multi && t.threads.is_empty() {
        let rep = r.reply()?;
        if !rep.starts_with(b"W00") {
            return fail("?", format!("{:?}: expected an exited process", r));
        }
        return Ok(());
    }
    let list: Vec<u128> = if multi { t.threads.iter().map(|x| *x as u128).collect() } else { vec![1] };
    let mut last = Ok(());
    for id in list {
        last = check_t(&Rep { noack: s.noack, ..r.clone() }, &Want { sig: 5, tid: Some(id), pid, kv: None });
        if last.is_ok() {
            break;
        }
    }
    last
}

/// one session that never ends: a pattern of requests, over and over
fn c17_endless(ch: &mut Ch) -> R {
    let (k, rounds) = ch.pick(ch.by(&[(5, 300), (2, 70_000)], &[(7, 300), (3, 70_000), (2, 140_000)]));
    let mut t = Tgt::<u32>::new(f::PLAIN | f::BPALL | f::RESALL | if ch.flag() { f::MULTI } else { 0 });
    let mut s = Sess::new(&mut t, 64).plain(&mut t);
    ch.lasso(k);
    for _ in 0..rounds {
        let i = ch.choose(12);
        let ok = ch.flag();
        t.bp_ok = ok;
        let ty = [0u128, 1, 2, 3, 4][i % 5];
        if i >= 10 {
            let p = ["c", "bs"][i - 10];
            s.s(ch, &mut t, p).expect(&Exp::Runs)?;
            let r = s.stop(ch, &mut t, Msr::SwBreak(tid(1)));
            check_t(&r, &Want { sig: 5, tid: Some(1), pid: None, kv: Some(("swbreak", Val::S(""))) })?;
            t.take_log();
            continue;
        }
        let add = i < 5;
        let r = s.s(ch, &mut t, &format!("{}{:x},{:x},{:x}", if add { 'Z' } else { 'z' }, ty, 0x100 + ty, 2 + ty));
        let f = match (ty, add) {
            (0, true) => "add_sw",
            (0, _) => "remove_sw",
            (1, true) => "add_hw",
            (1, _) => "remove_hw",
            (_, true) => "add_watch",
            _ => "remove_watch",
        };
        let mut n = vec![0x100 + ty, 2 + ty];
        if ty > 1 {
            n.push(ty);
        }
        want_calls(deeds(t.take_log()), &[call(f, &n, &[])], &r.what)?;
        let rep = r.reply()?;
        if if t.bp_ok { rep != b"OK" } else { !is_err(&rep) } {
            return fail("reply", format!("target said {}, {:?}", t.bp_ok, r));
        }
    }
    Ok(())
}

/// any number of breakpoints, all different, inserted and removed again
fn c17_many(ch: &mut Ch) -> R {
    let ty = ch.pick(&[0u128, 1, 2, 3, 4]);
    let n = ch.pick(LENS).min(ch.by(5_000, 70_000)) as u128;
    let mut t = Tgt::<u64>::new(f::PLAIN | f::BPALL | f::RESALL);
    let mut s = Sess::new(&mut t, 64);
    let step = ch.pick(&[1u128, 0x10, 0x0100_0000_0000]);
    let back = ch.flag();
    for add in [true, false] {
        for i in 0..n {
            let i = if back && !add { n - 1 - i } else { i };
            let a = (i * step) & (u64::MAX as u128);
            let r = s.s(ch, &mut t, &format!("{}{:x},{:x},4", if add { 'Z' } else { 'z' }, ty, a));
            r.expect(&Exp::ok())?;
            let l = deeds(t.take_log());
            if l.len() != 1 || l[0].n[0] != a || l[0].n[1] != 4 || l[0].f.starts_with("add") != add {
                return fail("many", format!("breakpoint number {}: {}: {:x?}", i, r.what, l));
            }
        }
    }
    Ok(())
}

/// one session that never ends: a pattern of stops, over and over
fn c18_endless(ch: &mut Ch) -> R {
    let (k, rounds) = ch.pick(ch.by(&[(3, 300), (1, 70_000)], &[(4, 300), (2, 3_000), (1, 140_000)]));
    let mut t = Tgt::<u32>::new(f::PLAIN | f::BPALL | f::RESALL | f::CATCH | f::MULTI);
    t.threads = vec![1, 0x2a];
    let mp = ch.flag();
    let pid = mp.then_some(1u128);
    let mut s = Sess::new(&mut t, 64).plain(&mut t);
    if mp {
        s.s(ch, &mut t, "qSupported:multiprocess+").reply()?;
    }
    ch.lasso(k);
    let (one, two) = (tid(1), tid(0x2a));
    use Val::*;
    let w = |sig, id: u128, kv| Want { sig, tid: (id != 0).then_some(id), pid, kv };
    for _ in 0..rounds {
        s.s(ch, &mut t, "vCont;c").expect(&Exp::Runs)?;
        let i = ch.choose(10);
        let (reason, want) = match i {
            0 => (Msr::SwBreak(one), w(5, 1, Some(("swbreak", S(""))))),
            1 => (Msr::SwBreak(two), w(5, 0x2a, Some(("swbreak", S(""))))),
            2 => (Msr::HwBreak(two), w(5, 0x2a, Some(("hwbreak", S(""))))),
            3 => (Msr::SignalWithThread { tid: two, signal: Signal(0xb) }, w(0xb, 0x2a, None)),
            4 => (
                Msr::Watch { tid: one, kind: WatchKind::Read, addr: 0xabcd },
                w(5, 1, Some(("rwatch", N(0xabcd)))),
            ),
            5 => (
                Msr::ReplayLog { tid: None, pos: ReplayLogPosition::End },
                w(5, 0, Some(("replaylog", S("end")))),
            ),
            6 => (
                Msr::CatchSyscall { tid: None, number: 7, position: CatchSyscallPosition::Entry },
                w(5, 0, Some(("syscall_entry", N(7)))),
            ),
            7 => (
                Msr::CatchSyscall { tid: Some(two), number: 9, position: CatchSyscallPosition::Return },
                w(5, 0x2a, Some(("syscall_return", N(9)))),
            ),
            8 => (Msr::Signal(Signal(2)), w(2, 0, None)),
            _ => (Msr::DoneStep, w(5, 0, None)),
        };
        t.take_log();
        let r = s.stop(ch, &mut t, reason);
        want_calls(t.take_log(), &[], "reporting a stop")?;
        match i {
            8 => check_code(&r, b'S', 2, &St::Idle)?,
            9 => check_code(&r, b'S', 5, &St::Idle)?,
            _ => check_t(&r, &want)?,
        }
    }
    Ok(())
}

/// GDB's signals (`info signals`, in the order of their numbers)
const SIGNALS: [Signal; 152] = {
    [
        Signal::SIGZERO, Signal::SIGHUP, Signal::SIGINT, Signal::SIGQUIT, Signal::SIGILL, Signal::SIGTRAP, Signal::SIGABRT,
        Signal::SIGEMT, Signal::SIGFPE, Signal::SIGKILL, Signal::SIGBUS, Signal::SIGSEGV, Signal::SIGSYS, Signal::SIGPIPE,
        Signal::SIGALRM, Signal::SIGTERM, Signal::SIGURG, Signal::SIGSTOP, Signal::SIGTSTP, Signal::SIGCONT, Signal::SIGCHLD,
        Signal::SIGTTIN, Signal::SIGTTOU, Signal::SIGIO, Signal::SIGXCPU, Signal::SIGXFSZ, Signal::SIGVTALRM,
        Signal::SIGPROF, Signal::SIGWINCH, Signal::SIGLOST, Signal::SIGUSR1, Signal::SIGUSR2, Signal::SIGPWR,
        Signal::SIGPOLL, Signal::SIGWIND, Signal::SIGPHONE, Signal::SIGWAITING, Signal::SIGLWP, Signal::SIGDANGER,
        Signal::SIGGRANT, Signal::SIGRETRACT, Signal::SIGMSG, Signal::SIGSOUND, Signal::SIGSAK, Signal::SIGPRIO,
        Signal::SIG33, Signal::SIG34, Signal::SIG35, Signal::SIG36, Signal::SIG37, Signal::SIG38, Signal::SIG39,
        Signal::SIG40, Signal::SIG41, Signal::SIG42, Signal::SIG43, Signal::SIG44, Signal::SIG45, Signal::SIG46,
        Signal::SIG47, Signal::SIG48, Signal::SIG49, Signal::SIG50, Signal::SIG51, Signal::SIG52, Signal::SIG53,
        Signal::SIG54, Signal::SIG55, Signal::SIG56, Signal::SIG57, Signal::SIG58, Signal::SIG59, Signal::SIG60,
        Signal::SIG61, Signal::SIG62, Signal::SIG63, Signal::SIGCANCEL, Signal::SIG32, Signal::SIG64, Signal::SIG65,
        Signal::SIG66, Signal::SIG67, Signal::SIG68, Signal::SIG69, Signal::SIG70, Signal::SIG71, Signal::SIG72,
        Signal::SIG73, Signal::SIG74, Signal::SIG75, Signal::SIG76, Signal::SIG77, Signal::SIG78, Signal::SIG79,
        Signal::SIG80, Signal::SIG81, Signal::SIG82, Signal::SIG83, Signal::SIG84, Signal::SIG85, Signal::SIG86,
        Signal::SIG87, Signal::SIG88, Signal::SIG89, Signal::SIG90, Signal::SIG91, Signal::SIG92, Signal::SIG93,
        Signal::SIG94, Signal::SIG95, Signal::SIG96, Signal::SIG97, Signal::SIG98, Signal::SIG99, Signal::SIG100,
        Signal::SIG101, Signal::SIG102, Signal::SIG103, Signal::SIG104, Signal::SIG105, Signal::SIG106, Signal::SIG107,
        Signal::SIG108, Signal::SIG109, Signal::SIG110, Signal::SIG111, Signal::SIG112, Signal::SIG113, Signal::SIG114,
        Signal::SIG115, Signal::SIG116, Signal::SIG117, Signal::SIG118, Signal::SIG119, Signal::SIG120, Signal::SIG121,
        Signal::SIG122, Signal::SIG123, Signal::SIG124, Signal::SIG125, Signal::SIG126, Signal::SIG127, Signal::SIGINFO,
        Signal::UNKNOWN, Signal::INTERNAL_DEFAULT, Signal::EXC_BAD_ACCESS, Signal::EXC_BAD_INSTRUCTION,
        Signal::EXC_ARITHMETIC, Signal::EXC_EMULATION, Signal::EXC_SOFTWARE, Signal::EXC_BREAKPOINT, Signal::SIGLIBRT,
    ]
};

/// the named signals have the numbers GDB knows them by
fn c18_names(ch: &mut Ch) -> R {
    let i = ch.choose(SIGNALS.len());
    let sig = SIGNALS[i];
    let mut t = Tgt::<u32>::new(f::PLAIN | f::RESUME | if ch.flag() { f::MULTI } else { 0 });
    let mut s = running(ch, &mut t, false)?;
    match ch.choose(3) {
        0 => check_code(&s.stop(ch, &mut t, Msr::Signal(sig)), b'S', i as u8, &St::Idle),
        1 => check_code(&s.stop(ch, &mut t, Msr::Terminated(sig)), b'X', i as u8, &disc(DisconnectReason::TargetTerminated(sig))),
        _ => {
            let r = s.stop(ch, &mut t, Msr::SignalWithThread { tid: tid(1), signal: sig });
            check_t(&r, &Want { sig: i as u128, tid: Some(1), pid: None, kv: None })
        }
    }
}
