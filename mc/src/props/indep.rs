//! C37: no hidden memory.  What a packet does and how it is answered is a function of the packet, of the
//! target's answers and of the documented session state, not of what was handled before.

use crate::props::corpus::*;
use crate::props::session::Msr;
use crate::props::*;
use crate::sess::*;
use gdbstub::common::Signal;
use std::cell::RefCell;
use std::collections::HashMap;

pub const PROPS: &[&Prop] = &[&C37];

static C37: Prop = Prop {
    id: "C37",
    scenes: &[
        Scene { name: "one-before", body: c37_one_before },
        Scene { name: "two-before", body: c37_two_before },
        Scene { name: "three-before", body: c37_three_before },
        Scene { name: "repeated-before", body: c37_repeated },
    ],
    assumptions: &[
        "the documented session state is: the threads selected, multiprocess extensions and no-ack mode as agreed, a deferred stop; the properties about these judge them",
        "the reference target answers each packet afresh (its own state is not carried over)",
        "what a packet does on its own is judged by the other properties; here it is the reference",
    ],
};

/// packets that the corpus lacks: refused, unknown, unusual, and bytes that are no packets
const MORE: &[&[u8]] = &[
    b"qSupported:multiprocess-",
    b"qSupported:multiprocess+",
    b"zzz",
    b"vFile:bogus:1",
    b"qXfer:bogus:read::0,20",
    b"qXfer:features:read:nope.xml:0,20",
    b"qXfer:features:read:target.xml:ffff,20",
    b"m9000,4",
    b"m70,40",
    b"M9000,1:00",
    b"Hg3",
    b"Hgp1.0",
    b"Hc0",
    b"vCont",
    b"vCont;c:1f",
    b"vCont;s:1;s:2;s:1f;c",
    b"T99",
    b"qRegisterInfoffff",
    b"vFile:open:2f61,601,0",
    b"QTDP:7:80:D:0:0:X3,010203-",
    b"qRcmd,",
    b"QCatchSyscalls:1;1;2;3;4;5;6;7;8",
];

fn packets() -> impl Iterator<Item = &'static [u8]> {
    PACKETS.iter().chain(MORE).copied()
}
fn packet(i: usize) -> &'static [u8] {
    if i < PACKETS.len() {
        PACKETS[i]
    } else {
        MORE[i - PACKETS.len()]
    }
}
fn count() -> usize {
    PACKETS.len() + MORE.len()
}

/// the session state that is documented to matter
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
struct Known {
    fl: u64,
    mp: bool,
    noack: bool,
}

fn target(fl: u64) -> Tgt<u32> {
    let mut t = rich::<u32>(fl);
    rich_xml();
    t.mem_hi = 0x9f;
    t
}

const SIZE: usize = 128;

fn select(ch: &mut Ch, s: &mut Sess<'static, Tgt<u32>>, fl: u64) -> R {
    let mut t = target(fl);
    s.s(ch, &mut t, "Hg1f").expect(&Exp::ok())?;
    s.s(ch, &mut t, "Hc1f").expect(&Exp::ok())
}

fn begin(ch: &mut Ch, k: Known) -> Result<Sess<'static, Tgt<u32>>, Fail> {
    let mut t = target(k.fl);
    let mut s = Sess::new(&mut t, SIZE);
    if k.mp {
        s.s(ch, &mut t, "qSupported:multiprocess+").reply()?;
    }
    if k.noack {
        s.s(ch, &mut t, "QStartNoAckMode").expect(&Exp::ok())?;
        s.noack = true;
    }
    select(ch, &mut s, k.fl)?;
    Ok(s)
}

#[derive(Clone, PartialEq, Debug)]
struct Seen {
    raw: Vec<u8>,
    flushed: bool,
    st: St,
    calls: Vec<Call>,
    /// if the packet resumed the target: the stop reply, and the state after it
    stop: Option<(Vec<u8>, St)>,
}

/// handle a packet with a fresh target (in which one call may fail), and a stop if it resumed
fn one(ch: &mut Ch, s: &mut Sess<'static, Tgt<u32>>, fl: u64, p: &[u8], inj: Option<(&'static str, usize, Inj)>, thread: bool) -> Seen {
    let mut t = target(fl);
    t.inj.extend(inj);
    let r = s.cmd(ch, &mut t, p);
    let calls = t.take_log();
    let stop = if r.st == St::Running {
        let reason = if thread {
            Msr::SignalWithThread { tid: super::session::tid(0x1f), signal: Signal::SIGSEGV }
        } else {
            Msr::Signal(Signal::SIGTRAP)
        };
        let r = s.stop(ch, &mut t, reason);
        Some((r.raw, r.st))
    } else {
        None
    };
    Seen { raw: r.raw, flushed: r.flushed, st: r.st, calls, stop }
}

thread_local! {
    static ALONE: RefCell<HashMap<(Known, usize), Seen>> = RefCell::new(HashMap::new());
}

/// what the packet does first thing in a session with that state
fn alone(ch: &Ch, k: Known, i: usize) -> Result<Seen, Fail> {
    if let Some(v) = ALONE.with(|c| c.borrow().get(&(k, i)).cloned()) {
        return Ok(v);
    }
    let mut own = Ch::new(ch.tier);
    let mut s = begin(&mut own, k)?;
    let v = one(&mut own, &mut s, k.fl, packet(i), None, true);
    ALONE.with(|c| c.borrow_mut().insert((k, i), v.clone()));
    Ok(v)
}

/// does the packet name a selection, or a mode?
fn selects(p: &[u8]) -> bool {
    p.starts_with(b"H")
}

fn judge(ch: &mut Ch, s: &mut Sess<'static, Tgt<u32>>, k: Known, i: usize, before: &dyn Fn() -> String) -> R {
    let want = alone(ch, k, i)?;
    let got = one(ch, s, k.fl, packet(i), None, true);
    if got != want {
        return fail(
            "history",
            format!(
                "{} after {} ({}{}): {}; on its own: {}",
                crate::client::show(packet(i)),
                before(),
                if k.mp { "multiprocess, " } else { "" },
                if k.noack { "no acks" } else { "acks" },
                say(&got),
                say(&want)
            ),
        );
    }
    Ok(())
}

fn say(s: &Seen) -> String {
    format!(
        "{}{} {:?}, the target saw {:x?}{}",
        crate::client::show(&s.raw),
        if s.flushed { "" } else { " (not flushed)" },
        s.st,
        s.calls,
        match &s.stop {
            Some((raw, st)) => format!(", then stopped with {} {:?}", crate::client::show(raw), st),
            None => String::new(),
        }
    )
}

/// One event of the past.  `None`: the session ended, or is in a state that is not specified.
fn event(
    ch: &mut Ch,
    s: &mut Sess<'static, Tgt<u32>>,
    k: &mut Known,
    moved: &mut bool,
    failing: bool,
    from: &[usize],
) -> Result<Option<String>, Fail> {
    let i = ch.pick(from);
    if i >= count() {
        // not packets
        let mut t = target(k.fl);
        let (raw, intr): (&[u8], bool) = [(&b"+"[..], false), (b"\n", false), (b"\x03", true), (b"++++", false)][i - count()];
        s.raw(ch, &mut t, raw);
        if intr {
            if s.st() != St::CtrlC {
                return fail("state", format!("interrupt: {:?}", s.st()));
            }
            s.intr(ch, &mut t, None::<Msr>);
        }
        // (bytes that are nothing of the protocol may end the session)
        return Ok((s.st() == St::Idle).then(|| crate::client::show(raw)));
    }
    let p = packet(i);
    if p == b"qSupported" && k.mp {
        // (whether that takes the extensions back is not specified)
        return Ok(None);
    }
    let first = alone(ch, Known { mp: k.mp, noack: k.noack, ..*k }, i)?;
    let inj = if failing && !first.calls.is_empty() {
        match ch.choose(first.calls.len() + 1) {
            0 => None,
            j => {
                let f = first.calls[j - 1].f;
                let nth = first.calls[..j - 1].iter().filter(|c| c.f == f).count();
                let what = Inj::Any(ch.pick(ch.by(&[14, 1][..], &[14, 1, 22])));
                Some((f, nth, what))
            }
        }
    } else {
        None
    };
    let g = one(ch, s, k.fl, p, inj, false);
    match p {
        b"QStartNoAckMode" if inj.is_none() => {
            s.noack = true;
            k.noack = true;
        }
        _ if p.starts_with(b"qSupported:multiprocess") => k.mp = p[23] == b'+',
        _ if selects(p) => *moved = true,
        _ => {}
    }
    let _ = g;
    if s.st() != St::Idle {
        return Ok(None);
    }
    Ok(Some(format!("{}{}", crate::client::show(p), if let Some(i) = inj { format!(" (with {:?})", i) } else { String::new() })))
}

fn known(ch: &mut Ch, configs: usize) -> Known {
    let c = ch.choose(configs);
    let mut fl = f::ALL | f::GUARD;
    if c & 1 == 0 {
        fl |= f::MULTI;
    } else {
        fl &= !f::MULTI;
    }
    if c & 8 != 0 {
        fl &= !(f::EXTALL | f::RLE | f::SRA);
    }
    Known { fl, mp: c & 2 != 0, noack: c & 4 != 0 }
}

fn history(ch: &mut Ch, events: usize, configs: usize, failing: bool, from: &[usize]) -> R {
    let mut k = known(ch, configs);
    let mut s = begin(ch, k)?;
    let mut past = vec![];
    let mut moved = false;
    for _ in 0..events {
        match event(ch, &mut s, &mut k, &mut moved, failing, from)? {
            Some(e) => past.push(e),
            None => return Ok(()),
        }
    }
    if moved {
        select(ch, &mut s, k.fl)?;
    }
    let i = ch.choose(count());
    judge(ch, &mut s, k, i, &|| past.join(", "))
}

/// every packet after every other, also one during which a call of the target failed
fn c37_one_before(ch: &mut Ch) -> R {
    history(ch, 1, 16, true, &every())
}

fn c37_two_before(ch: &mut Ch) -> R {
    let failing = ch.by(false, true);
    history(ch, 2, ch.by(2, 4), failing, &every())
}

/// three, one of each kind of packet
fn c37_three_before(ch: &mut Ch) -> R {
    let from: Vec<usize> = kinds().into_iter().step_by(ch.by(4, 1)).collect();
    history(ch, 3, 1, false, &from)
}

fn every() -> Vec<usize> {
    (0..count() + 4).collect()
}

/// the first packet of every name
fn kinds() -> Vec<usize> {
    let name = |p: &'static [u8]| &p[..p.iter().position(|b| !b.is_ascii_alphabetic()).unwrap_or(p.len())];
    let mut seen: Vec<&[u8]> = vec![];
    let mut v = vec![];
    for (i, p) in packets().enumerate() {
        if !seen.contains(&name(p)) {
            seen.push(name(p));
            v.push(i);
        }
    }
    v
}

/// every pair of packets, in turn, many times; then every packet that leaves the session as it is
fn c37_repeated(ch: &mut Ch) -> R {
    let mut k = known(ch, ch.by(2, 4));
    let n = ch.by(300, 300);
    let mut s = begin(ch, k)?;
    let two = [ch.choose(count()), ch.choose(count())];
    let rounds = if two[0] == two[1] { ch.by(700, 70_000) } else { n };
    for i in two {
        let p = packet(i);
        let mode = p == b"QStartNoAckMode" || p.starts_with(b"qSupported:multi");
        let a = alone(ch, k, i)?;
        if mode || a.st != St::Idle && a.stop.as_ref().map_or(true, |s| s.1 != St::Idle) {
            return Ok(());
        }
    }
    let before = |r: usize| format!("{} rounds of {} and {}", r, crate::client::show(packet(two[0])), crate::client::show(packet(two[1])));
    let moves = selects(packet(two[0])) || selects(packet(two[1]));
    for r in 0..rounds {
        for i in two {
            if moves {
                one(ch, &mut s, k.fl, packet(i), None, true);
                if s.st() != St::Idle && r < 2 {
                    return Ok(());
                }
                if s.st() != St::Idle {
                    return fail("state", format!("{} after {}: the session ended: {:?}", crate::client::show(packet(i)), before(r), s.st()));
                }
            } else {
                judge(ch, &mut s, k, i, &|| before(r))?;
            }
        }
    }
    if moves {
        select(ch, &mut s, k.fl)?;
    }
    for (i, p) in packets().enumerate() {
        let a = alone(ch, k, i)?;
        let ends = a.st != St::Idle && a.stop.as_ref().map_or(true, |s| s.1 != St::Idle);
        if ends || selects(p) || p == b"qSupported" && k.mp {
            continue;
        }
        judge(ch, &mut s, k, i, &|| before(rounds))?;
        match p {
            b"QStartNoAckMode" => {
                s.noack = true;
                k.noack = true;
            }
            _ if p.starts_with(b"qSupported:multi") => k.mp = p[23] == b'+',
            _ => {}
        }
    }
    Ok(())
}
