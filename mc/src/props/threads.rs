//! C14, C15, C16, C19: threads and resumption.

use crate::client::*;
use crate::props::session::*;
use crate::props::*;
use crate::sess::*;
use gdbstub::common::*;
use gdbstub::target::ext::base::reverse_exec::ReplayLogPosition;
use gdbstub::target::ext::breakpoints::WatchKind;
use gdbstub::target::ext::catch_syscalls::CatchSyscallPosition;
use std::collections::BTreeMap;

pub const PROPS: &[&Prop] = &[&C14, &C15, &C16, &C19];

// ------------------------------------------------------------ resume plans ---

/// what one thread was told to do: (kind, signal, start, end)
type Act = (u8, u128, u128, u128);
/// A continue without signal is the default of the target API, so a plan only
/// records what differs from it.
type Plan = BTreeMap<u128, Act>;

/// Reconstruct the plan a multi-threaded target was given. Ok(None): it was
/// not resumed.
fn plan_of(log: Vec<Call>) -> Result<Option<Plan>, Fail> {
    let mut p: Option<Plan> = None;
    let mut done = None;
    for c in deeds(log) {
        if done.is_some() {
            return fail("after-resume", format!("{:x?} after the target was resumed", c));
        }
        match c.f {
            "clear_resume_actions" => p = Some(Plan::new()),
            "set_continue" | "set_step" | "set_range" => {
                let Some(p) = &mut p else {
                    return fail("stale-actions", "an action was set before the old ones were cleared");
                };
                let a = match c.f {
                    "set_continue" => (b'c', c.n[1], 0, 0),
                    "set_step" => (b's', c.n[1], 0, 0),
                    _ => (b'r', NONE, c.n[1], c.n[2]),
                };
                p.insert(c.n[0], a);
            }
            "resume" => {
                if p.is_none() {
                    return fail("stale-actions", "resumed without clearing the old actions");
                }
                done = p.take();
            }
            f => return fail("side-effect", format!("a resume packet called {}", f)),
        }
    }
    Ok(done.map(|mut p| {
        p.retain(|_, a| *a != (b'c', NONE, 0, 0));
        p
    }))
}

fn want_plan(t: &impl Logged, r: &Rep, want: &Plan) -> R {
    let got = plan_of(t.log())?;
    if got.as_ref() != Some(want) {
        return fail("plan", format!("{}: the target was resumed with {:x?}, expected {:x?}", r.what, got, want));
    }
    r.expect(&Exp::Runs)
}

trait Logged {
    fn log(&self) -> Vec<Call>;
}
impl<U: HU> Logged for Tgt<U> {
    fn log(&self) -> Vec<Call> {
        self.take_log()
    }
}

/// the command must be refused, and the target must not have been resumed
fn refused(log: Vec<Call>, r: &Rep) -> R {
    for c in &log {
        if matches!(c.f, "resume" | "step" | "range_step" | "reverse_cont" | "reverse_step") {
            return fail("resumed", format!("{}: the target was resumed ({:x?})", r.what, log));
        }
    }
    match &r.st {
        St::Err(ErrK::Other(_)) => Ok(()),
        St::Idle => {
            let rep = r.reply()?;
            if is_err(&rep) || rep.is_empty() {
                Ok(())
            } else {
                fail("refused", format!("{}: replied {:?}", r.what, show(&rep)))
            }
        }
        s => fail("refused", format!("{}: state {:?}", r.what, s)),
    }
}

// ===================================================================== C14 ===

static C14: Prop = Prop {
    id: "C14",
    scenes: &[
        Scene { name: "selection-histories", body: c14_hist },
        Scene { name: "repeated-events", body: c14_lasso },
        Scene { name: "any-and-all", body: c14_any },
        Scene { name: "all-other-packets", body: c14_others },
        Scene { name: "single-thread", body: c14_single },
        Scene { name: "malformed", body: bad::c14 },
    ],
    assumptions: &[
        "selecting a thread the target does not have is the target's to refuse",
        "before the first selection or stop the thread is unspecified (the stub uses 1)",
    ],
};

#[derive(Clone, Copy, PartialEq)]
enum Sel {
    All,
    Id(u128),
}

fn c14_hist(ch: &mut Ch) -> R {
    c14_run(ch, 4, None)
}

/// long histories: every short pattern of events, repeated
fn c14_lasso(ch: &mut Ch) -> R {
    let (k, n) = ch.pick(ch.by(&[(4, 300), (2, 3000)], &[(5, 300), (2, 70000)]));
    c14_run(ch, n, Some(k))
}

fn c14_run(ch: &mut Ch, depth: usize, lasso: Option<usize>) -> R {
    let fl = f::PLAIN | f::MULTI | f::RESALL | f::SRA | f::BPALL | f::CATCH;
    let mut t = Tgt::<u32>::new(fl);
    t.threads = vec![3, 1, 0x1f2];
    let mut s = Sess::new(&mut t, 64);
    if ch.by(false, true) && ch.flag() {
        s.s(ch, &mut t, "qSupported:multiprocess+");
    }
    let form = |n: u128, style: usize| match style {
        0 => format!("{:x}", n),
        1 => format!("p1.{:x}", n),
        _ => format!("0{:X}", n),
    };
    // start from an explicit selection
    s.s(ch, &mut t, "Hg1").expect(&Exp::ok())?;
    s.s(ch, &mut t, "Hc1").expect(&Exp::ok())?;
    let (mut mem, mut res) = (1u128, Sel::Id(1));
    if let Some(k) = lasso {
        ch.lasso(k)
    }
    for step in 0..depth {
        t.take_log();
        let last = step + 1 == depth;
        match ch.choose(if last { 3 } else { 9 }) {
            0 => {
                // what do memory and registers use?
                for (p, fun) in [
                    ("g", "read_registers"),
                    ("G00112233", "write_registers"),
                    ("m10,2", "read_addrs"),
                    ("M10,1:55", "write_addrs"),
                    ("X10,1:a", "write_addrs"),
                    ("p2", "read_register"),
                    ("P2=00112233", "write_register"),
                ] {
                    let r = s.s(ch, &mut t, p);
                    r.reply()?;
                    let log = deeds(t.take_log());
                    if log.is_empty() || log.iter().any(|c| c.f != fun || c.n[0] != mem) {
                        return fail("mem-thread", format!("{}: {:x?}, thread {:x} is selected", p, log, mem));
                    }
                }
            }
            1 => {
                // legacy resumption of the selected thread
                let k = ch.choose(3);
                if res == Sel::All && k > 0 {
                    let r = s.s(ch, &mut t, ["c", "s", "bs"][k]);
                    return refused(t.take_log(), &r);
                }
                match (k, res) {
                    (0, _) => {
                        let r = s.s(ch, &mut t, "c");
                        want_plan(&t, &r, &Plan::new())?;
                    }
                    (1, Sel::Id(n)) => {
                        let r = s.s(ch, &mut t, "s");
                        want_plan(&t, &r, &Plan::from([(n, (b's', NONE, 0, 0))]))?;
                    }
                    (_, Sel::Id(n)) => {
                        let r = s.s(ch, &mut t, "bs");
                        want_calls(t.take_log(), &[call("reverse_step", &[n], &[])], &r.what)?;
                        r.expect(&Exp::Runs)?;
                    }
                    _ => unreachable!(),
                }
                // ... and its stop
                let n = ch.pick(&[3u128, 0x1f2]);
                let id = tid(n as usize);
                let (reason, sets): (Msr, bool) = match ch.choose(if last { 1 } else { 10 }) {
                    0 => (Msr::Signal(Signal(5)), false),
                    1 => (Msr::DoneStep, false),
                    2 => (Msr::SignalWithThread { tid: id, signal: Signal(11) }, true),
                    3 => (Msr::SwBreak(id), true),
                    4 => (Msr::HwBreak(id), true),
                    5 => (Msr::Watch { tid: id, kind: WatchKind::Read, addr: 4 }, true),
                    6 => (Msr::ReplayLog { tid: Some(id), pos: ReplayLogPosition::End }, true),
                    7 => (Msr::ReplayLog { tid: None, pos: ReplayLogPosition::End }, false),
                    8 => (
                        Msr::CatchSyscall { tid: Some(id), number: 1, position: CatchSyscallPosition::Entry },
                        true,
                    ),
                    _ => (Msr::CatchSyscall { tid: None, number: 1, position: CatchSyscallPosition::Entry }, false),
                };
                let r = s.stop(ch, &mut t, reason);
                if r.st != St::Idle {
                    return fail("stop", format!("{:?}: not idle after a stop", r));
                }
                if sets {
                    // the client takes the reported thread as the current one
                    mem = n;
                    res = Sel::Id(n);
                }
            }
            2 => {
                // things that name threads without selecting them
                let l = ["?", "T1f2", "qfThreadInfo", "Tp1.3", "qThreadExtraInfo,3", "qAttached"];
                let p = ch.pick(&l[..ch.by(2, 6)]);
                s.s(ch, &mut t, p).reply()?;
            }
            k @ (3 | 4) => {
                let n = ch.pick(&[1u128, 3, 0x1f2]);
                let st = step % 3;
                let g = k == 3;
                let r = s.s(ch, &mut t, &format!("H{}{}", if g { 'g' } else { 'c' }, form(n, st)));
                r.expect(&Exp::ok())?;
                if g {
                    mem = n
                } else {
                    res = Sel::Id(n)
                }
            }
            5 => {
                // any thread: one that exists
                let r = s.s(ch, &mut t, "Hg0");
                r.expect(&Exp::ok())?;
                s.s(ch, &mut t, "g").reply()?;
                let log = deeds(t.take_log());
                match log.last() {
                    Some(c) if c.f == "read_registers" && t.threads.contains(&(c.n[0] as usize)) => mem = c.n[0],
                    _ => return fail("any", format!("after Hg0: {:x?}", log)),
                }
            }
            6 => {
                let r = s.s(ch, &mut t, "Hc0");
                r.expect(&Exp::ok())?;
                s.s(ch, &mut t, "bs").expect(&Exp::Runs)?;
                let log = deeds(t.take_log());
                match log.last() {
                    Some(c) if c.f == "reverse_step" && t.threads.contains(&(c.n[0] as usize)) => {
                        res = Sel::Id(c.n[0])
                    }
                    _ => return fail("any", format!("after Hc0: {:x?}", log)),
                }
                s.stop(ch, &mut t, Msr::DoneStep);
            }
            7 => {
                let p = ch.pick(&["Hc-1", "Hcp1.-1", "Hcp1"]);
                s.s(ch, &mut t, p).expect(&Exp::ok())?;
                res = Sel::All;
            }
            _ => {
                // vCont names its own threads
                let r = s.s(ch, &mut t, "vCont;s:3;c");
                want_plan(&t, &r, &Plan::from([(3, (b's', NONE, 0, 0))]))?;
                s.stop(ch, &mut t, Msr::DoneStep);
            }
        }
    }
    Ok(())
}

/// "any" and "all" in every form, with and without threads
fn c14_any(ch: &mut Ch) -> R {
    let mut t = Tgt::<u32>::new(f::PLAIN | f::MULTI | f::RESALL);
    t.threads = ch.pick(&[&[][..], &[7], &[7, 1], &[usize::MAX]]).to_vec();
    let g = ch.flag();
    let p = ch.pick(&["0", "p1.0", "p0.0", "-1", "p1.-1", "p-1.-1", "p1", "7", "p7.7"]);
    let mut s = Sess::new(&mut t, 64);
    let r = s.s(ch, &mut t, &format!("H{}{}", if g { 'g' } else { 'c' }, p));
    let all = matches!(p, "-1" | "p1.-1" | "p-1.-1" | "p1");
    let any = matches!(p, "0" | "p1.0" | "p0.0");
    if all && g {
        // there is no memory of "all threads"
        return refused(t.take_log(), &r);
    }
    if any && t.threads.is_empty() {
        return r.expect(&Exp::AnyErr);
    }
    r.expect(&Exp::ok())?;
    t.take_log();
    let want = if any { t.threads.first().map(|x| *x as u128) } else { Some(7) };
    if g {
        s.s(ch, &mut t, "g").reply()?;
        let log = deeds(t.take_log());
        let ok = log.len() == 1 && (Some(log[0].n[0]) == want || (any && t.threads.contains(&(log[0].n[0] as usize))));
        if !ok {
            return fail("selected", format!("H{}: {:x?}", p, log));
        }
        return Ok(());
    }
    let r = s.s(ch, &mut t, "s");
    if all {
        return refused(t.take_log(), &r);
    }
    let plan = plan_of(t.take_log())?;
    match plan {
        Some(pl) if pl.len() == 1 => {
            let (k, a) = pl.iter().next().unwrap();
            let ok = *a == (b's', NONE, 0, 0)
                && (Some(*k) == want || (any && t.threads.contains(&(*k as usize))));
            if !ok {
                return fail("selected", format!("H{} then s: {:x?}", p, pl));
            }
        }
        p => return fail("selected", format!("Hc then s: {:x?}", p)),
    }
    r.expect(&Exp::Runs)
}

/// any packet that neither selects a thread nor tells of one leaves the
/// selection alone: whether it is carried out, refused or fails in the target
fn c14_others(ch: &mut Ch) -> R {
    use crate::props::corpus::*;
    let fl = f::ALL | f::MULTI;
    let fresh = || {
        rich_xml();
        rich::<u32>(fl)
    };
    let mut t = fresh();
    let mut s = Sess::new(&mut t, 200);
    let (g, c) = ch.pick(&[(0x1fu128, 2u128), (2, 0x1f)]);
    s.s(ch, &mut t, &format!("Hg{:x}", g)).expect(&Exp::ok())?;
    s.s(ch, &mut t, &format!("Hc{:x}", c)).expect(&Exp::ok())?;
    for i in 0..ch.by(1, 2) {
        let p = PACKETS[ch.choose(PACKETS.len())];
        // (these select, or tell of the thread that is then current)
        if matches!(p.first(), Some(b'H' | b'?')) || p.starts_with(b"vAttach") || p.starts_with(b"vRun") || p.starts_with(b"R") {
            return Ok(());
        }
        let mut t = fresh();
        if i == 0 && ch.flag() {
            // fail each call that the packet makes
            let mut scout = fresh();
            let mut q = Sess::new(&mut scout, 200);
            scout.take_log();
            q.cmd(ch, &mut scout, p);
            let calls = scout.take_log();
            if calls.is_empty() {
                return Ok(());
            }
            let k = ch.choose(calls.len());
            let n = calls[..k].iter().filter(|c| c.f == calls[k].f).count();
            t.inj = vec![(calls[k].f, n, Inj::Any(ch.pick(&[1, 14, 22])))];
        }
        let r = s.cmd(ch, &mut t, p);
        s.noack |= p == b"QStartNoAckMode" && t.inj.is_empty();
        if r.st == St::Running {
            let why = if ch.flag() { Msr::DoneStep } else { Msr::Signal(Signal(11)) };
            if s.stop(ch, &mut t, why).st != St::Idle {
                return Ok(());
            }
        } else if r.st != St::Idle {
            return Ok(());
        }
    }
    let mut t = fresh();
    let (cmd, call) = ch.pick(&[
        ("g", "read_registers"),
        ("G0102030405060708", "write_registers"),
        ("m10,4", "read_addrs"),
        ("M10,1:aa", "write_addrs"),
        ("p1", "read_register"),
        ("P1=00112233", "write_register"),
        ("s", "set_step"),
        ("bs", "reverse_step"),
    ]);
    s.cmd(ch, &mut t, cmd.as_bytes());
    let want = if matches!(call, "set_step" | "reverse_step") { c } else { g };
    let log = t.take_log();
    let tid = log.iter().find(|c| c.f == call).map(|c| c.n[0]);
    if tid != Some(want) {
        return fail("selection-lost", format!("{}: {:x?}, expected thread {:x}", cmd, log, want));
    }
    Ok(())
}

/// a single-threaded target does not care
fn c14_single(ch: &mut Ch) -> R {
    let mut t = Tgt::<u32>::new(f::PLAIN | f::RESALL | f::SRA);
    let p = ch.pick(&["Hg0", "Hg1", "Hgp1.1", "Hc0", "Hc1", "Hc-1", "Hcp1.-1"]);
    let q = ch.pick(&["Hg0", "Hg1", "Hgp1.1", "Hc0", "Hc1", "Hc-1", "Hcp1.-1"]);
    let mut s = Sess::new(&mut t, 64);
    s.s(ch, &mut t, p).expect(&Exp::ok())?;
    s.s(ch, &mut t, q).expect(&Exp::ok())?;
    want_calls(t.take_log(), &[], "selecting threads")?;
    let (cmd, c, runs) = ch.pick(&[
        ("g", "read_registers", false),
        ("m0,1", "read_addrs", false),
        ("p1", "read_register", false),
        ("c", "resume", true),
        ("s", "step", true),
        ("vCont;c:p1.1", "resume", true),
    ]);
    let r = s.s(ch, &mut t, cmd);
    let log = deeds(t.take_log());
    if log.len() != 1 || log[0].f != c {
        return fail("calls", format!("{}: {:x?}", cmd, log));
    }
    if runs {
        r.expect(&Exp::Runs)
    } else {
        r.reply().map(drop)
    }
}

// ===================================================================== C15 ===

static C15: Prop = Prop {
    id: "C15",
    scenes: &[
        Scene { name: "every-action-list", body: c15_lists },
        Scene { name: "every-signal", body: c15_sig },
        Scene { name: "ranges-u8", body: c15_range::<u8> },
        Scene { name: "ranges-u64", body: c15_range::<u64> },
        Scene { name: "repeated-resumes", body: c15_hist },
        Scene { name: "many-actions", body: c15_many },
        Scene { name: "failing-target", body: c15_err },
        Scene { name: "once-more", body: c15_again },
        Scene { name: "malformed", body: bad::c15 },
    ],
    assumptions: &[
        "the target API cannot express a signal for, or a step of, all threads",
        "lists naming one thread twice, or putting a catch-all before specific threads, are never sent by GDB",
    ],
};

struct Item {
    text: String,
    /// None = all threads
    who: Option<u128>,
    act: Act,
}

const WHO: &[(&str, Option<u128>)] = &[
    ("", None),
    (":1", Some(1)),
    (":p1.2", Some(2)),
    (":1F2", Some(0x1f2)),
    (":-1", None),
    (":p1.-1", None),
    (":p1", None),
    (":0", None),
];
const KIND: &[(&str, Act)] = &[
    ("c", (b'c', NONE, 0, 0)),
    ("s", (b's', NONE, 0, 0)),
    ("C05", (b'c', 5, 0, 0)),
    ("S0b", (b's', 11, 0, 0)),
    ("r10,2f", (b'r', NONE, 0x10, 0x2f)),
    ("C00", (b'c', 0, 0, 0)),
    ("t", (b't', NONE, 0, 0)),
];

fn items(ch: &mut Ch, max: usize, kinds: usize) -> Vec<Item> {
    let n = 1 + ch.choose(max);
    (0..n)
        .map(|_| {
            let k = &KIND[ch.choose(kinds)];
            let w = &WHO[ch.choose(WHO.len())];
            Item { text: format!("{}{}", k.0, w.0), who: w.1, act: k.1 }
        })
        .collect()
}

fn c15_lists(ch: &mut Ch) -> R {
    let sup = ch.pick(&[f::STEP | f::RANGE, 0, f::STEP, f::RANGE]);
    let its = items(ch, ch.by(3, 4), ch.by(6, 5));
    // leave out what the assumptions exclude
    for i in 0..its.len() {
        for j in 0..i {
            if its[j].who.is_none() || its[i].who == its[j].who {
                return Ok(());
            }
        }
    }
    let mut t = Tgt::<u32>::new(f::PLAIN | f::MULTI | f::RESUME | sup);
    t.threads = vec![1, 2, 0x1f2];
    let mut s = Sess::new(&mut t, 100);
    let mut p = "vCont".to_string();
    for i in &its {
        p.push(';');
        p.push_str(&i.text);
    }
    let mut plan = Plan::new();
    let mut bad = false;
    for i in &its {
        match (i.act.0, i.who) {
            (b'c', None) => {
                if i.act.1 != NONE {
                    return Ok(());
                }
            }
            (b's', Some(w)) if sup & f::STEP != 0 => drop(plan.insert(w, i.act)),
            (b'r', Some(w)) if sup & f::RANGE != 0 => drop(plan.insert(w, i.act)),
            (b'c', Some(w)) => drop(plan.insert(w, i.act)),
            _ => bad = true,
        }
    }
    plan.retain(|_, a| *a != (b'c', NONE, 0, 0));
    let r = s.s(ch, &mut t, &p);
    if bad {
        refused(t.take_log(), &r)
    } else {
        want_plan(&t, &r, &plan)
    }
}

fn c15_sig(ch: &mut Ch) -> R {
    let mut t = Tgt::<u32>::new(f::PLAIN | f::MULTI | f::RESUME | f::STEP);
    let k = ch.pick(&['C', 'S']);
    let style = ch.choose(4);
    let sig = ch.choose(260) as u128;
    let who = ch.pick(&[1usize, 0x100, usize::MAX]);
    let mut s = Sess::new(&mut t, 100);
    let r = s.s(ch, &mut t, &format!("vCont;{}{}:{:x};c:-1", k, num_style(style, sig), who));
    if sig > 255 {
        return refused(t.take_log(), &r);
    }
    let a = (if k == 'C' { b'c' } else { b's' }, sig, 0, 0);
    want_plan(&t, &r, &Plan::from([(who as u128, a)]))
}

fn c15_range<U: HU>(ch: &mut Ch) -> R {
    let mut t = Tgt::<U>::new(f::PLAIN | f::MULTI | f::RESUME | f::RANGE);
    let max = U::max_value().big();
    let mut l = addrs(U::BITS);
    l.extend([max + 1, (max + 1) << 4, max << 8]);
    let (a, b) = (ch.pick(&l), ch.pick(&l));
    let (sa, sb) = (ch.choose(4), ch.choose(2));
    let mut s = Sess::new(&mut t, 100);
    let r = s.s(ch, &mut t, &format!("vCont;r{},{}:2;c", num_style(sa, a), num_style(sb, b)));
    if a > max || b > max {
        return refused(t.take_log(), &r);
    }
    want_plan(&t, &r, &Plan::from([(2, (b'r', NONE, a, b))]))
}

/// actions of earlier resumptions never linger
fn c15_hist(ch: &mut Ch) -> R {
    let mut t = Tgt::<u32>::new(f::PLAIN | f::MULTI | f::RESALL | f::BPALL);
    t.threads = vec![1, 2, 3];
    let mut s = Sess::new(&mut t, 100);
    s.s(ch, &mut t, "Hc2");
    t.take_log();
    let mut cur = 2u128;
    for _ in 0..ch.by(5, 6) {
        let (p, mut plan): (&str, Plan) = match ch.choose(7) {
            0 => ("vCont;c", Plan::new()),
            1 => ("vCont;s:1;c", Plan::from([(1, (b's', NONE, 0, 0))])),
            2 => ("vCont;C0a:2;S0b:3;c:-1", Plan::from([(2, (b'c', 10, 0, 0)), (3, (b's', 11, 0, 0))])),
            3 => ("vCont;r0,8:3;s:2", Plan::from([(3, (b'r', NONE, 0, 8)), (2, (b's', NONE, 0, 0))])),
            4 => ("c", Plan::new()),
            5 => ("s", Plan::from([(cur, (b's', NONE, 0, 0))])),
            _ => ("bc", Plan::new()),
        };
        let r = s.s(ch, &mut t, p);
        if p == "bc" {
            want_calls(t.take_log(), &[call("reverse_cont", &[], &[])], p)?;
            r.expect(&Exp::Runs)?;
        } else {
            want_plan(&t, &r, &mut plan)?;
        }
        match ch.choose(2) {
            0 => s.stop(ch, &mut t, Msr::DoneStep),
            _ => {
                cur = 3;
                s.stop(ch, &mut t, Msr::HwBreak(tid(3)))
            }
        };
        t.take_log();
    }
    Ok(())
}

fn c15_err(ch: &mut Ch) -> R {
    let mut t = Tgt::<u32>::new(f::PLAIN | f::MULTI | f::RESALL);
    let fun = ch.pick(&[
        "clear_resume_actions",
        "set_continue",
        "set_step",
        "set_range",
        "resume",
        "reverse_cont",
        "reverse_step",
    ]);
    let p = ch.pick(&["vCont;C05:1;s:2;r1,2:3;c", "vCont;r1,2:3;s:2;C05:1", "c", "s", "bc", "bs", "vCont;s:1"]);
    t.inj = vec![(fun, 0, Inj::Fatal(41))];
    let mut s = Sess::new(&mut t, 64);
    let r = s.s(ch, &mut t, p);
    let log = t.take_log();
    let hit = log.iter().any(|c| c.f == fun);
    if hit {
        if log.last().unwrap().f != fun {
            return fail("after-error", format!("{}: went on after {} failed: {:x?}", p, fun, log));
        }
        r.expect(&Exp::FatalTarget(41))
    } else {
        r.expect(&Exp::Runs)
    }
}

// ===================================================================== C16 ===

static C16: Prop = Prop {
    id: "C16",
    scenes: &[
        Scene { name: "every-action-list", body: c16_lists },
        Scene { name: "every-signal", body: c16_sig },
        Scene { name: "ranges-u8", body: c16_range::<u8> },
        Scene { name: "ranges-u32", body: c16_range::<u32> },
        Scene { name: "reverse", body: c16_reverse },
        Scene { name: "vcont-query", body: c16_query },
        Scene { name: "failing-target", body: c16_err },
        Scene { name: "repeated-resumes", body: c16_endless },
        Scene { name: "long-lists", body: c16_long },
        Scene { name: "once-more", body: c16_again },
        Scene { name: "malformed", body: bad::c16 },
    ],
    assumptions: &["a list whose second action is not a plain continue may be refused"],
};

fn c16_lists(ch: &mut Ch) -> R {
    let sup = ch.pick(&[f::STEP | f::RANGE, 0, f::STEP, f::RANGE]);
    let its = items(ch, ch.by(3, 4), 7);
    let mut t = Tgt::<u32>::new(f::PLAIN | f::RESUME | sup);
    let mut s = Sess::new(&mut t, 100);
    let mut p = "vCont".to_string();
    for i in &its {
        p.push(';');
        p.push_str(&i.text);
    }
    let a = its[0].act;
    let want = match a.0 {
        b'c' => Some(call("resume", &[a.1], &[])),
        b's' if sup & f::STEP != 0 => Some(call("step", &[a.1], &[])),
        b'r' if sup & f::RANGE != 0 => Some(call("range_step", &[a.2, a.3], &[])),
        _ => None,
    };
    let plain = its.len() == 1 || (its.len() == 2 && its[1].act == (b'c', NONE, 0, 0));
    let r = s.s(ch, &mut t, &p);
    let log = t.take_log();
    match want {
        Some(w) if plain || r.st == St::Running => {
            want_calls(log, &[w], &p)?;
            r.expect(&Exp::Runs)
        }
        _ => refused(log, &r),
    }
}

fn c16_sig(ch: &mut Ch) -> R {
    let mut t = Tgt::<u32>::new(f::PLAIN | f::RESUME | f::STEP);
    let k = ch.pick(&['C', 'S']);
    let style = ch.choose(4);
    let sig = ch.choose(260) as u128;
    let tail = ch.pick(&["", ":1", ":p1.1", ":-1", ":p1.1;c:p1.-1", ";c"]);
    let mut s = Sess::new(&mut t, 100);
    let r = s.s(ch, &mut t, &format!("vCont;{}{}{}", k, num_style(style, sig), tail));
    if sig > 255 {
        return refused(t.take_log(), &r);
    }
    want_calls(t.take_log(), &[call(if k == 'C' { "resume" } else { "step" }, &[sig], &[])], &r.what)?;
    r.expect(&Exp::Runs)
}

fn c16_range<U: HU>(ch: &mut Ch) -> R {
    let mut t = Tgt::<U>::new(f::PLAIN | f::RESUME | f::RANGE);
    let max = U::max_value().big();
    let mut l = addrs(U::BITS);
    l.extend([max + 1, (max + 1) << 4, max << 8]);
    let (a, b) = (ch.pick(&l), ch.pick(&l));
    let (sa, sb) = (ch.choose(4), ch.choose(4));
    let tail = ch.pick(&["", ":1", ":p1.1;c:p1.-1"]);
    let mut s = Sess::new(&mut t, 100);
    let r = s.s(ch, &mut t, &format!("vCont;r{},{}{}", num_style(sa, a), num_style(sb, b), tail));
    if a > max || b > max {
        return refused(t.take_log(), &r);
    }
    want_calls(t.take_log(), &[call("range_step", &[a, b], &[])], &r.what)?;
    r.expect(&Exp::Runs)
}

/// reverse execution in every combination of support, in histories
fn c16_reverse(ch: &mut Ch) -> R {
    let fl = [f::RESUME, f::RSTEP, f::RCONT, f::STEP].iter().fold(f::PLAIN, |a, x| a | if ch.flag() { *x } else { 0 });
    let multi = ch.flag();
    let mut t = Tgt::<u32>::new(fl | if multi { f::MULTI } else { 0 });
    t.threads = vec![1, 9];
    let mut s = Sess::new(&mut t, 64);
    if multi {
        s.s(ch, &mut t, "Hc9");
    }
    for _ in 0..ch.by(4, 6) {
        t.take_log();
        let (p, need, c) = match ch.choose(4) {
            0 => ("bc", f::RCONT, call("reverse_cont", &[], &[])),
            1 => ("bs", f::RSTEP, call("reverse_step", &[if multi { 9 } else { 0 }], &[])),
            2 => ("c", f::RESUME, call("resume", if multi { &[] } else { &[NONE] }, &[])),
            _ => ("s", f::RESUME | f::STEP, call("step", &[NONE], &[])),
        };
        let have = fl & f::RESUME != 0 && fl & need == need;
        let r = s.s(ch, &mut t, p);
        let log = t.take_log();
        if have {
            if p == "s" && multi {
                want_plan_log(log, &Plan::from([(9, (b's', NONE, 0, 0))]), p)?;
            } else if p == "c" && multi {
                want_plan_log(log, &Plan::new(), p)?;
            } else {
                want_calls(log, &[c], p)?;
            }
            r.expect(&Exp::Runs)?;
            let r = s.stop(ch, &mut t, Msr::DoneStep);
            if r.st != St::Idle {
                return fail("stop", format!("{:?}", r));
            }
        } else if p.starts_with('b') {
            want_calls(log, &[], p)?;
            r.expect(&Exp::Empty)?;
        } else if fl & f::RESUME != 0 {
            // stepping is not supported
            return refused(log, &r);
        } else {
            // no resumption at all: a message and a made-up stop
            want_calls(log, &[], p)?;
            let k = r.pkts()?;
            if r.st != St::Idle || k.len() != 2 || k[0][0] != b'O' || unhex(&k[0][1..]).is_none() || k[1] != b"S05" {
                return fail("resume-stub", format!("{:?}", r));
            }
        }
    }
    Ok(())
}

fn want_plan_log(log: Vec<Call>, want: &Plan, p: &str) -> R {
    let got = plan_of(log)?;
    if got.as_ref() != Some(want) {
        return fail("plan", format!("{}: {:x?}, expected {:x?}", p, got, want));
    }
    Ok(())
}

/// `vCont?` lists exactly what works, and what it lists works
fn c16_query(ch: &mut Ch) -> R {
    let fl = [f::RESUME, f::STEP, f::RANGE, f::MULTI, f::STUB].iter().fold(
        f::PLAIN & !f::STUB,
        |a, x| a | if ch.flag() { *x } else { 0 },
    );
    let mut t = Tgt::<u32>::new(fl);
    let mut s = Sess::new(&mut t, 64);
    let r = s.s(ch, &mut t, "vCont?");
    want_calls(t.take_log(), &[], "vCont?")?;
    if fl & f::RESUME == 0 {
        return r.expect(&Exp::Empty);
    }
    let rep = String::from_utf8(r.reply()?).unwrap_or_default();
    let mut it = rep.split(';');
    if it.next() != Some("vCont") {
        return fail("vCont?", format!("replied {:?}", rep));
    }
    let list: Vec<&str> = it.collect();
    let has = |x: &str| list.contains(&x);
    // GDB needs both c and C, and both s and S
    if !has("c") || !has("C") {
        return fail("vCont?", format!("replied {:?}: c and C are mandatory", rep));
    }
    for (k, on) in [
        ("s", fl & f::STEP != 0),
        ("S", fl & f::STEP != 0),
        ("r", fl & f::RANGE != 0),
        ("t", false),
    ] {
        if has(k) != on {
            return fail("vCont?", format!("replied {:?}, but {} is {}supported", rep, k, if on { "" } else { "not " }));
        }
    }
    let (p, k) = ch.pick(&[("vCont;c", "c"), ("vCont;C05:1", "C"), ("vCont;s:1", "s"), ("vCont;S05:1", "S"), ("vCont;r1,2:1", "r")]);
    let ok = has(k);
    let r = s.s(ch, &mut t, p);
    if ok {
        r.expect(&Exp::Runs)
    } else {
        refused(t.take_log(), &r)
    }
}

fn c16_err(ch: &mut Ch) -> R {
    let mut t = Tgt::<u32>::new(f::PLAIN | f::RESALL);
    let (fun, p) = ch.pick(&[
        ("resume", "c"),
        ("resume", "vCont;c"),
        ("resume", "vCont;C05"),
        ("step", "s"),
        ("step", "vCont;S05:1"),
        ("range_step", "vCont;r1,2:1"),
        ("reverse_cont", "bc"),
        ("reverse_step", "bs"),
    ]);
    t.inj = vec![(fun, 0, Inj::Fatal(1 + ch.choose(3) as u32))];
    let Inj::Fatal(e) = t.inj[0].2 else { unreachable!() };
    let mut s = Sess::new(&mut t, 64);
    let r = s.s(ch, &mut t, p);
    r.expect(&Exp::FatalTarget(e))
}

// ===================================================================== C19 ===

static C19: Prop = Prop {
    id: "C19",
    scenes: &[
        Scene { name: "every-thread-list", body: c19_list },
        Scene { name: "alive", body: c19_alive },
        Scene { name: "alive-by-target", body: c19_alive_own },
        Scene { name: "extra-info", body: c19_extra },
        Scene { name: "extra-info-length", body: c19_len },
        Scene { name: "changing-threads", body: c19_hist },
        Scene { name: "many-threads", body: c19_many },
        Scene { name: "once-more", body: c19_again },
        Scene { name: "malformed", body: bad::c19 },
    ],
    assumptions: &["a multi-threaded target without threads may answer a list with or without an empty first part"],
};

fn wtid(pid: Option<u128>, t: u128) -> String {
    match pid {
        Some(p) => format!("p{}.{}", nhex(p), nhex(t)),
        None => nhex(t),
    }
}

const TIDS: &[usize] = &[1, 2, 0xf, 0x10, 0xff, 0x100, 0x1000, 0xffff_ffff, 0x1_0000_0000, usize::MAX];

/// what qfThreadInfo/qsThreadInfo enumerate
fn list_threads<U: HU>(ch: &mut Ch, s: &mut Sess<'_, Tgt<U>>, t: &mut Tgt<U>) -> Result<Vec<(Option<u128>, u128)>, Fail> {
    let mut v = vec![];
    let mut p = "qfThreadInfo";
    for _ in 0..64 {
        let r = s.s(ch, t, p).reply()?;
        p = "qsThreadInfo";
        match r.first() {
            Some(b'l') if r.len() == 1 => return Ok(v),
            Some(b'm') => {
                if r.len() == 1 {
                    continue;
                }
                for id in r[1..].split(|b| *b == b',') {
                    let (pid, tid) = match id.strip_prefix(b"p") {
                        Some(x) => {
                            let mut it = x.split(|b| *b == b'.');
                            (Some(it.next().and_then(num)), it.next().and_then(num))
                        }
                        None => (None, num(id)),
                    };
                    match (pid, tid) {
                        (Some(None), _) | (_, None) => return fail("thread-id", format!("bad thread id {:?}", show(id))),
                        (p, Some(t)) => v.push((p.flatten(), t)),
                    }
                }
            }
            _ => return fail("list", format!("{} replied {:?}", p, show(&r))),
        }
    }
    fail("list", "the thread list does not end")
}

fn setup(ch: &mut Ch, t: &mut Tgt<u32>, size: usize) -> Result<(Sess<'static, Tgt<u32>>, Option<u128>), Fail> {
    let mut s = Sess::new(t, size).plain(t);
    let neg = ch.choose(3);
    let pid = match neg {
        0 => None,
        1 => {
            s.s(ch, t, "qSupported:multiprocess+;foo-").reply()?;
            Some(if t.has(f::EXT | f::APID) { t.pid as u128 } else { 1 })
        }
        _ => {
            s.s(ch, t, "qSupported:multiprocess-;xmlRegisters=i386").reply()?;
            None
        }
    };
    t.take_log();
    Ok((s, pid))
}

fn c19_list(ch: &mut Ch) -> R {
    let fl = ch.pick(&[f::MULTI, 0, f::MULTI | f::EXT, f::MULTI | f::EXT | f::APID, f::EXT | f::APID]);
    let mut t = Tgt::<u32>::new(f::PLAIN | fl);
    t.pid = ch.pick(&[0x1234usize, 7]);
    let n = ch.choose(ch.by(5, 6));
    t.threads = (0..n).map(|_| ch.pick(TIDS)).collect();
    let (mut s, pid) = setup(ch, &mut t, 64)?;
    let got = list_threads(ch, &mut s, &mut t)?;
    let want: Vec<(Option<u128>, u128)> = if fl & f::MULTI != 0 {
        t.threads.iter().map(|x| (pid, *x as u128)).collect()
    } else {
        vec![(pid, 1)]
    };
    if got != want {
        return fail("threads", format!("listed {:x?}, the target has {:x?}", got, want));
    }
    want_calls(t.take_log(), &[], "listing threads")
}

/// every number of threads
fn c19_many(ch: &mut Ch) -> R {
    let mut t = Tgt::<u32>::new(f::PLAIN | f::MULTI);
    let n = match ch.choose(ch.by(1202, 5002)) {
        0 => 0x1_0001,
        1 => 0x2345,
        n => n - 2,
    };
    let first = ch.pick(&[1usize, 0xfff0]);
    let step = ch.pick(&[1usize, 0x10_0001]);
    t.threads = (0..n).map(|i| first + i * step).collect();
    let (mut s, pid) = setup(ch, &mut t, 64)?;
    let got = list_threads(ch, &mut s, &mut t)?;
    let want: Vec<(Option<u128>, u128)> = t.threads.iter().map(|x| (pid, *x as u128)).collect();
    if got != want {
        let i = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
        return fail("threads", format!("{} threads: listed {} of them, differing from the {}th", n, got.len(), i + 1));
    }
    if let Some(l) = t.threads.last().copied() {
        for (q, e) in [(l, Exp::ok()), (l + 1, Exp::AnyErr)] {
            s.s(ch, &mut t, &format!("T{:x}", q)).expect(&e)?;
        }
    }
    Ok(())
}

fn c19_alive(ch: &mut Ch) -> R {
    let multi = ch.flag();
    let mut t = Tgt::<u32>::new(f::PLAIN | if multi { f::MULTI } else { 0 });
    let n = ch.choose(4);
    t.threads = (0..n).map(|_| ch.pick(TIDS)).collect();
    let q = ch.pick(TIDS);
    let (mut s, _) = setup(ch, &mut t, 64)?;
    let p = match ch.choose(3) {
        0 => format!("T{:x}", q),
        1 => format!("Tp1.{:x}", q),
        _ => format!("T0{:X}", q),
    };
    let r = s.s(ch, &mut t, &p);
    let alive = if multi { t.threads.contains(&q) } else { q == 1 };
    r.expect(&if alive { Exp::ok() } else { Exp::AnyErr })
}

/// a target with an opinion of its own is asked, and believed
fn c19_alive_own(ch: &mut Ch) -> R {
    let mut t = Tgt::<u32>::new(f::PLAIN | f::MULTI);
    t.threads = ch.pick(&[&[][..], &[1], &[2, 0xff]]).to_vec();
    t.alive = Some(ch.pick(&[&[][..], &[1], &[0xff, 0x100], &[usize::MAX]]).to_vec());
    let q = ch.pick(TIDS);
    let p = if ch.flag() { format!("T{:x}", q) } else { format!("Tp1.{:x}", q) };
    let fatal = ch.flag();
    if fatal {
        t.inj = vec![("is_thread_alive", 0, Inj::Fatal(9))];
    }
    let (mut s, _) = setup(ch, &mut t, 64)?;
    t.take_log();
    let r = s.s(ch, &mut t, &p);
    want_calls(t.take_log(), &[call("is_thread_alive", &[q as u128], &[])], &p)?;
    if fatal {
        return r.expect(&Exp::FatalTarget(9));
    }
    r.expect(&if t.alive.as_ref().unwrap().contains(&q) { Exp::ok() } else { Exp::AnyErr })
}

fn c19_extra(ch: &mut Ch) -> R {
    let multi = ch.flag();
    let on = ch.flag();
    let mut t = Tgt::<u32>::new(
        f::PLAIN | if multi { f::MULTI } else { 0 } | if on { f::EXTRA } else { 0 },
    );
    t.threads = TIDS.to_vec();
    let b = ch.choose(256) as u8;
    t.extra_info = match ch.choose(4) {
        0 => vec![],
        1 => vec![b],
        2 => vec![b; 9],
        _ => vec![b, 0, b, 0xff],
    };
    let q = ch.pick(TIDS);
    let p = match ch.choose(2) {
        0 => format!("qThreadExtraInfo,{:x}", q),
        _ => format!("qThreadExtraInfo,p1.{:x}", q),
    };
    let mut s = Sess::new(&mut t, 64);
    let r = s.s(ch, &mut t, &p);
    if multi && on {
        want_calls(t.take_log(), &[call("thread_extra_info", &[q as u128], &[])], &p)?;
        r.expect(&Exp::s(hex(&t.extra_info)))
    } else {
        want_calls(t.take_log(), &[], &p)?;
        r.expect(&Exp::Empty)
    }
}

/// every (claimed) length against every buffer size
fn c19_len(ch: &mut Ch) -> R {
    let mut t = Tgt::<u32>::new(f::PLAIN | f::MULTI | f::EXTRA);
    let size = 24 + ch.choose(ch.by(60, 120));
    let n = ch.choose(ch.by(160, 400));
    t.extra_info = (0..n).map(|i| (i * 5) as u8).collect();
    let lie = ch.flag();
    let mut buf = vec![0u8; size];
    let borrowed = ch.flag();
    // a borrowed buffer cannot grow, so all of it (and no more) can be used
    let cap = size;
    if lie {
        t.len_override = Some(cap + 1 + ch.choose(3));
    }
    let mut s = if borrowed { Sess::borrowed(&mut t, &mut buf) } else { Sess::new(&mut t, size) };
    let r = s.s(ch, &mut t, "qThreadExtraInfo,1");
    if lie {
        // claims more than there is room for
        return match &r.st {
            St::Err(ErrK::Other(_)) => Ok(()),
            _ => r.expect(&Exp::AnyErr),
        };
    }
    let rep = r.reply()?;
    match unhex(&rep) {
        Some(b) if t.extra_info.starts_with(&b) && (b.len() == n || n > 20) && b.len() >= n.min(20) => Ok(()),
        _ => fail("extra-info", format!("replied {:?}", show(&rep))),
    }
}

/// the answers follow the target
fn c19_hist(ch: &mut Ch) -> R {
    let mut t = Tgt::<u32>::new(f::PLAIN | f::MULTI | f::RESALL | f::EXTRA);
    t.threads = vec![1];
    let (mut s, pid) = setup(ch, &mut t, 64)?;
    for _ in 0..ch.by(5, 6) {
        match ch.choose(6) {
            0 => {
                if !t.threads.contains(&5) {
                    t.threads.push(5)
                }
            }
            1 => {
                if t.threads.len() > 1 {
                    t.threads.remove(0);
                }
            }
            2 => {
                let got = list_threads(ch, &mut s, &mut t)?;
                let want: Vec<_> = t.threads.iter().map(|x| (pid, *x as u128)).collect();
                if got != want {
                    return fail("threads", format!("listed {:x?}, the target has {:x?}", got, want));
                }
            }
            3 => {
                let q = ch.pick(&[1usize, 5]);
                let r = s.s(ch, &mut t, &format!("T{:x}", q));
                r.expect(&if t.threads.contains(&q) { Exp::ok() } else { Exp::AnyErr })?;
            }
            4 => {
                let r = s.s(ch, &mut t, "?");
                let rep = r.reply()?;
                let ok = t.threads.iter().any(|x| rep == format!("T05thread:{};", wtid(pid, *x as u128)).as_bytes());
                if !ok {
                    return fail("?", format!("replied {:?}", show(&rep)));
                }
            }
            _ => {
                s.s(ch, &mut t, "vCont;c").expect(&Exp::Runs)?;
                let q = *t.threads.last().unwrap();
                let r = s.stop(ch, &mut t, Msr::SignalWithThread { tid: tid(q), signal: Signal(5) });
                r.expect(&Exp::s(format!("T05thread:{};", wtid(pid, q as u128))))?;
            }
        }
    }
    Ok(())
}

// ============================================================== long things ===

/// an action for each of many threads
fn c15_many(ch: &mut Ch) -> R {
    let mut t = Tgt::<u32>::new(f::PLAIN | f::MULTI | f::RESUME | f::STEP | f::RANGE);
    let n = match ch.choose(2) {
        0 => ch.choose(ch.by(600, 5000)) + 1,
        _ => ch.pick(&LENS[..LENS.len() - 5]),
    };
    let k = ch.choose(4);
    t.threads = (1..=n).collect();
    let mut s = Sess::new(&mut t, 0x10_0000);
    let mut p = "vCont".to_string();
    let mut plan = Plan::new();
    for i in 1..=n as u128 {
        let (txt, act): (String, Act) = match if k == 3 { i as usize % 4 } else { k } {
            0 => ("s".into(), (b's', NONE, 0, 0)),
            1 => (format!("C{:02x}", i % 256), (b'c', i % 256, 0, 0)),
            2 => (format!("r{:x},{:x}", i, 2 * i), (b'r', NONE, i, 2 * i)),
            _ => ("S05".into(), (b's', 5, 0, 0)),
        };
        p.push_str(&format!(";{}:{:x}", txt, i));
        plan.insert(i, act);
    }
    if ch.flag() {
        p.push_str(";c");
    }
    for _ in 0..2 {
        let r = s.s(ch, &mut t, &p);
        want_plan(&t, &r, &plan)?;
        s.stop(ch, &mut t, Msr::DoneStep);
        t.take_log();
    }
    Ok(())
}

/// one session that never ends: a pattern of resumptions, over and over
fn c16_endless(ch: &mut Ch) -> R {
    let (k, rounds) = ch.pick(ch.by(&[(3, 300), (1, 70_000)], &[(5, 300), (3, 3_000), (2, 70_000)]));
    let mut t = Tgt::<u32>::new(f::PLAIN | f::RESALL);
    let mut s = Sess::new(&mut t, 64);
    ch.lasso(k);
    for _ in 0..rounds {
        let (p, w) = match ch.choose(10) {
            0 => ("c", call("resume", &[NONE], &[])),
            1 => ("s", call("step", &[NONE], &[])),
            2 => ("vCont;c", call("resume", &[NONE], &[])),
            3 => ("vCont;C0b", call("resume", &[0xb], &[])),
            4 => ("vCont;s:1;c", call("step", &[NONE], &[])),
            5 => ("vCont;S0f:1", call("step", &[0xf], &[])),
            6 => ("vCont;r10,20:1", call("range_step", &[0x10, 0x20], &[])),
            7 => ("vCont;r30,30:1;c", call("range_step", &[0x30, 0x30], &[])),
            8 => ("bc", call("reverse_cont", &[], &[])),
            _ => ("bs", call("reverse_step", &[0], &[])),
        };
        t.take_log();
        let r = s.s(ch, &mut t, p);
        r.expect(&Exp::Runs)?;
        want_calls(t.take_log(), &[w], p)?;
        let r = s.stop(ch, &mut t, Msr::DoneStep);
        if r.st != St::Idle {
            return fail("stop", format!("{:?}", r));
        }
    }
    Ok(())
}

/// lists of any length: the first action is done, or nothing is
fn c16_long(ch: &mut Ch) -> R {
    let n = ch.pick(LENS);
    let (a, w) = ch.pick(&[
        ("c", call("resume", &[NONE], &[])),
        ("S05:1", call("step", &[5], &[])),
        ("r1,2:1", call("range_step", &[1, 2], &[])),
    ]);
    let b = ch.pick(&["c", "c:1", "s:1", "C07", "t", "r7,8"]);
    let mut p = format!("vCont;{}", a);
    for _ in 0..n {
        p.push(';');
        p.push_str(b);
    }
    let mut t = Tgt::<u32>::new(f::PLAIN | f::RESALL);
    let mut s = Sess::new(&mut t, 64);
    let r = s.s(ch, &mut t, &p);
    let log = t.take_log();
    if r.st == St::Running {
        want_calls(log, &[w], &p)?;
        return r.expect(&Exp::Runs);
    }
    refused(log, &r)
}
