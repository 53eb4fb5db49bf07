//! C24, C25, C26: extended mode, monitor commands, syscall catching.

use super::bps::{check_t, Want};
use crate::client::*;
use crate::props::*;
use crate::sess::*;
use gdbstub::stub::DisconnectReason;

pub const PROPS: &[&Prop] = &[&C24, &C25, &C26];

// ===================================================================== C24 ===

static C24: Prop = Prop {
    id: "C24",
    scenes: &[
        Scene { name: "run-arguments", body: c24_run },
        Scene { name: "run-bytes", body: c24_run_bytes },
        Scene { name: "attach", body: c24_attach },
        Scene { name: "kill", body: c24_kill },
        Scene { name: "start-and-restart", body: c24_restart },
        Scene { name: "environment", body: c24_env },
        Scene { name: "environment-bytes", body: c24_env_bytes },
        Scene { name: "switches", body: c24_switch },
        Scene { name: "working-directory", body: c24_dir },
        Scene { name: "malformed", body: c24_bad },
        Scene { name: "histories", body: c24_hist },
        Scene { name: "long", body: c24_long },
        Scene { name: "once-more", body: c24_again },
    ],
    assumptions: &[
        "an empty value of an environment variable may be passed as none or as the empty string",
        "the k packet may be answered by OK or not at all (the protocol does not ask for a reply)",
    ],
};

const X: u64 = f::PLAIN | f::EXTALL;

fn ext(ch: &mut Ch) -> Tgt<u32> {
    let multi = ch.flag();
    let mut t = Tgt::<u32>::new(X | if multi { f::MULTI } else { 0 });
    t.threads = vec![3, 1];
    t
}
/// what `?`, vRun and vAttach report
fn stop_of(t: &Tgt<u32>, r: &Rep, pid: Option<u128>) -> R {
    if t.has(f::MULTI) {
        let mut last = Ok(());
        for x in &t.threads {
            last = check_t(r, &Want { sig: 5, tid: Some(*x as u128), pid, kv: None });
            if last.is_ok() {
                return last;
            }
        }
        last
    } else {
        check_t(r, &Want { sig: 5, tid: Some(1), pid, kv: None })
    }
}

fn hx(ch: &mut Ch, b: &[u8], upper: bool) -> String {
    let _ = ch;
    if upper {
        hex(b).to_uppercase()
    } else {
        hex(b)
    }
}

const ARGS: &[&[u8]] = &[b"", b"a", b"\0", b";", b"\xff\xfe", b"/bin/sh -c", b"=#$}*"];

fn c24_run(ch: &mut Ch) -> R {
    let mut t = ext(ch);
    let name = ch.pick(&ARGS[..5]);
    let n = ch.choose(ch.by(5, 6));
    let args: Vec<&[u8]> = (0..n).map(|_| ch.pick(ARGS)).collect();
    let up = ch.flag();
    let mut p = format!("vRun;{}", hx(ch, name, up));
    for a in &args {
        p.push(';');
        p.push_str(&hx(ch, a, up));
    }
    let mut s = Sess::new(&mut t, 256);
    let r = s.s(ch, &mut t, &p);
    let mut b = vec![name];
    b.extend(&args);
    want_calls(t.take_log(), &[call("run", &[!name.is_empty() as u128], &b)], &r.what)?;
    stop_of(&t, &r, s.mp.then_some(t.pid as u128))
}

fn c24_run_bytes(ch: &mut Ch) -> R {
    let mut t = ext(ch);
    let b = ch.choose(256) as u8;
    let (name, args): (Vec<u8>, Vec<Vec<u8>>) = match ch.choose(3) {
        0 => (vec![b; 40], vec![]),
        1 => (b"x".to_vec(), vec![vec![b], vec![b, b]]),
        _ => (vec![b], vec![vec![b; 60]]),
    };
    let mut p = format!("vRun;{}", hex(&name));
    for a in &args {
        p.push_str(&format!(";{}", hex(a)));
    }
    let mut s = Sess::new(&mut t, 256);
    let r = s.s(ch, &mut t, &p);
    let mut l: Vec<&[u8]> = vec![&name];
    l.extend(args.iter().map(|a| &a[..]));
    want_calls(t.take_log(), &[call("run", &[1], &l)], &r.what)?;
    stop_of(&t, &r, s.mp.then_some(t.pid as u128))
}

const PIDS: &[u128] = &[1, 2, 9, 0xa, 0x10, 0xff, 0x100, 0x7fff_ffff, 0xffff_ffff, 0x1_0000_0000, usize::MAX as u128];

fn c24_attach(ch: &mut Ch) -> R {
    let mut t = ext(ch);
    let pid = ch.pick(PIDS);
    let st = ch.choose(4);
    let mp = ch.flag();
    t.pid = pid as usize;
    let mut s = Sess::new(&mut t, 256);
    if mp {
        s.s(ch, &mut t, "qSupported:multiprocess+").reply()?;
    }
    t.take_log();
    let r = s.s(ch, &mut t, &format!("vAttach;{}", num_style(st, pid)));
    want_calls(t.take_log(), &[call("attach", &[pid], &[])], &r.what)?;
    stop_of(&t, &r, (mp || s.mp).then_some(pid))
}

fn killed() -> St {
    disc(DisconnectReason::Kill)
}

fn c24_kill(ch: &mut Ch) -> R {
    let extm = ch.flag();
    let mut t = Tgt::<u32>::new(f::PLAIN | if extm { f::EXT } else { 0 } | if ch.flag() { f::MULTI } else { 0 });
    t.terminate = ch.flag();
    let pid = if ch.flag() { Some(ch.pick(PIDS)) } else { None };
    let st = ch.choose(3);
    let mut s = Sess::new(&mut t, 256);
    let r = s.s(ch, &mut t, &match pid {
        Some(p) => format!("vKill;{}", num_style(st, p)),
        None => "k".into(),
    });
    let k = r.pkts()?;
    if !extm {
        want_calls(t.take_log(), &[], &r.what)?;
        // whether the last packet of the session is answered is left open
        if r.st != killed() || !(k.is_empty() || k == [b"OK".to_vec()]) {
            return fail("kill", format!("{:?}", r));
        }
        return Ok(());
    }
    want_calls(t.take_log(), &[call("kill", &[pid.unwrap_or(NONE)], &[])], &r.what)?;
    let ok = k == [b"OK".to_vec()] || (pid.is_none() && k.is_empty());
    let want = if t.terminate { killed() } else { St::Idle };
    if !ok || r.st != want {
        return fail("kill", format!("{:?}, expected OK and {:?}", r, want));
    }
    Ok(())
}

fn c24_restart(ch: &mut Ch) -> R {
    let mut t = ext(ch);
    let mut s = Sess::new(&mut t, 256);
    for _ in 0..3 {
        match ch.choose(3) {
            0 => {
                let p = ch.pick(&["R00", "Rff", "R05"]);
                let r = s.s(ch, &mut t, p);
                want_calls(t.take_log(), &[call("restart", &[], &[])], &r.what)?;
                if r.st != St::Idle || !r.pkts()?.is_empty() || !(r.flushed || r.noack) {
                    return fail("restart", format!("{:?}: this packet has no reply", r));
                }
            }
            1 => {
                let r = s.s(ch, &mut t, "!");
                want_calls(t.take_log(), &[call("on_start", &[], &[])], &r.what)?;
                r.expect(&Exp::ok())?;
            }
            _ => {
                let r = s.s(ch, &mut t, "m10,1");
                r.expect(&Exp::s(hex(&[t.byte(0x10)])))?;
                t.take_log();
            }
        }
    }
    Ok(())
}

fn want_env(t: &Tgt<u32>, r: &Rep, k: &[u8], v: &[u8]) -> R {
    let log = deeds(t.take_log());
    let none = call("set_env", &[0], &[k, b""]);
    if !(v.is_empty() && log == [none]) {
        want_calls(log, &[call("set_env", &[1], &[k, v])], &r.what)?;
    }
    r.expect(&Exp::ok())
}

fn c24_env(ch: &mut Ch) -> R {
    let mut t = ext(ch);
    let mut s = Sess::new(&mut t, 256);
    let al = [b'A', b';', 0xffu8, b':'];
    let n = ch.choose(4);
    let k: Vec<u8> = (0..n).map(|_| ch.pick(&al)).collect();
    let up = ch.flag();
    if ch.flag() {
        let m = ch.choose(4);
        let v: Vec<u8> = (0..m).map(|_| ch.pick(&[b'v', b'=', 0, b'#'])).collect();
        let kv = [&k[..], b"=", &v].concat();
        let p = format!("QEnvironmentHexEncoded:{}", hx(ch, &kv, up));
        let r = s.s(ch, &mut t, &p);
        if k.is_empty() && matches!(r.st, St::Err(_)) {
            return want_calls(t.take_log(), &[], &r.what);
        }
        return want_env(&t, &r, &k, &v);
    }
    let p = format!("QEnvironmentUnset:{}", hx(ch, &k, up));
    let r = s.s(ch, &mut t, &p);
    if k.is_empty() && matches!(r.st, St::Err(_)) {
        return want_calls(t.take_log(), &[], &r.what);
    }
    want_calls(t.take_log(), &[call("remove_env", &[], &[&k])], &r.what)?;
    r.expect(&Exp::ok())
}

fn c24_env_bytes(ch: &mut Ch) -> R {
    let mut t = ext(ch);
    let b = ch.choose(256) as u8;
    let n = ch.pick(&[1usize, 2, 50]);
    let mut s = Sess::new(&mut t, 256);
    match ch.choose(3) {
        0 if b != b'=' => {
            let k = vec![b; n];
            let r = s.s(ch, &mut t, &format!("QEnvironmentHexEncoded:{}3d76", hex(&k)));
            want_env(&t, &r, &k, b"v")
        }
        1 => {
            let v = vec![b; n];
            let r = s.s(ch, &mut t, &format!("QEnvironmentHexEncoded:4b3d{}", hex(&v)));
            want_env(&t, &r, b"K", &v)
        }
        _ => {
            let k = vec![b; n];
            let r = s.s(ch, &mut t, &format!("QEnvironmentUnset:{}", hex(&k)));
            want_calls(t.take_log(), &[call("remove_env", &[], &[&k])], &r.what)?;
            r.expect(&Exp::ok())
        }
    }
}

fn c24_switch(ch: &mut Ch) -> R {
    let mut t = ext(ch);
    let mut s = Sess::new(&mut t, 256);
    for _ in 0..ch.by(4, 5) {
        let (p, c) = ch.pick(&[
            ("QStartupWithShell:0", ("cfg_shell", Some(0u128))),
            ("QStartupWithShell:1", ("cfg_shell", Some(1))),
            ("QDisableRandomization:0", ("cfg_aslr", Some(0))),
            ("QDisableRandomization:1", ("cfg_aslr", Some(1))),
            ("QEnvironmentReset", ("reset_env", None)),
        ]);
        let r = s.s(ch, &mut t, p);
        let n: Vec<u128> = c.1.into_iter().collect();
        want_calls(t.take_log(), &[call(c.0, &n, &[])], &r.what)?;
        r.expect(&Exp::ok())?;
    }
    Ok(())
}

fn c24_dir(ch: &mut Ch) -> R {
    let mut t = ext(ch);
    let mut s = Sess::new(&mut t, 256);
    let d: Vec<u8> = if ch.flag() {
        let b = ch.choose(256) as u8;
        let n = ch.pick(&[1usize, 3, 90]);
        vec![b; n]
    } else {
        let n = ch.choose(5);
        (0..n).map(|_| ch.pick(&[b'/', b'a', 0, b'.'])).collect()
    };
    let up = ch.flag();
    let p = format!("QSetWorkingDir:{}", hx(ch, &d, up));
    let r = s.s(ch, &mut t, &p);
    want_calls(t.take_log(), &[call("cfg_wdir", &[!d.is_empty() as u128], &[&d])], &r.what)?;
    r.expect(&Exp::ok())
}

/// whatever cannot be understood has no effect and is not confirmed
fn c24_bad(ch: &mut Ch) -> R {
    let mut t = ext(ch);
    let p = ch.pick(&[
        "vRun", "vRun;6g", "vRun;61;6g", "vRun;61;61,62", "vAttach", "vAttach;", "vAttach;0", "vAttach;00", "vAttach;g",
        "vAttach;10000000000000000", "vAttach:1", "vAttach;-1", "vKill", "vKill;", "vKill;0", "vKill;g", "vKill;10000000000000000",
        "QEnvironmentHexEncoded", "QEnvironmentHexEncoded:4g3d41", "QEnvironmentHexEncoded:41", "QEnvironmentUnset", "QEnvironmentUnset:4g",
        "QSetWorkingDir", "QSetWorkingDir:2g", "QStartupWithShell", "QStartupWithShell:", "QStartupWithShell:2", "QStartupWithShell:01",
        "QStartupWithShell:10", "QDisableRandomization", "QDisableRandomization:", "QDisableRandomization:2", "QDisableRandomization:11",
        "qAttached:0", "qAttached:g", "R", "R0", "k1",
    ]);
    let mut s = Sess::new(&mut t, 256);
    let r = s.s(ch, &mut t, p);
    let log = deeds(t.take_log());
    // the number of R is documented to mean nothing
    if p.starts_with('R') && log == [call("restart", &[], &[])] {
        return Ok(());
    }
    want_calls(log, &[], &r.what)?;
    if r.st == St::Idle {
        let rep = r.reply()?;
        if !rep.is_empty() && !is_err(&rep) {
            return fail("accepted", format!("{}: replied {:?}", r.what, show(&rep)));
        }
    }
    Ok(())
}

/// launches, kills and settings in any order: each stands for itself
fn c24_hist(ch: &mut Ch) -> R {
    let mut t = ext(ch);
    let mut s = Sess::new(&mut t, 256);
    let mut mp = s.mp;
    for k in 0..ch.by(5, 6) {
        t.pid = 0x10 + k;
        let pid = mp.then_some(t.pid as u128);
        match ch.choose(10) {
            0 => {
                let r = s.s(ch, &mut t, "vRun;61;62");
                want_calls(t.take_log(), &[call("run", &[1], &[b"a", b"b"])], &r.what)?;
                stop_of(&t, &r, pid)?;
            }
            1 => {
                let p = format!("vAttach;{:x}", t.pid);
                let r = s.s(ch, &mut t, &p);
                want_calls(t.take_log(), &[call("attach", &[t.pid as u128], &[])], &r.what)?;
                stop_of(&t, &r, pid)?;
            }
            2 => {
                let r = s.s(ch, &mut t, "vKill;5");
                want_calls(t.take_log(), &[call("kill", &[5], &[])], &r.what)?;
                r.expect(&Exp::ok())?;
            }
            3 => {
                t.terminate = true;
                let r = s.s(ch, &mut t, "vKill;5");
                t.terminate = false;
                want_calls(t.take_log(), &[call("kill", &[5], &[])], &r.what)?;
                r.expect(&Exp::Disc(Some(b"OK".to_vec()), killed()))?;
                s.reidle();
            }
            4 => {
                s.s(ch, &mut t, "qSupported:multiprocess+").reply()?;
                mp = true;
                want_calls(t.take_log(), &[], "qSupported")?;
            }
            5 => {
                let r = s.s(ch, &mut t, "QStartupWithShell:0");
                want_calls(t.take_log(), &[call("cfg_shell", &[0], &[])], &r.what)?;
                r.expect(&Exp::ok())?;
            }
            6 => {
                let r = s.s(ch, &mut t, "QEnvironmentHexEncoded:613d62");
                want_env(&t, &r, b"a", b"b")?;
            }
            7 => {
                let r = s.s(ch, &mut t, "?");
                stop_of(&t, &r, pid)?;
                want_calls(t.take_log(), &[], "?")?;
            }
            8 => {
                t.was_attach = ch.flag();
                let r = s.s(ch, &mut t, "qAttached:7");
                want_calls(t.take_log(), &[call("query_if_attached", &[7], &[])], &r.what)?;
                r.expect(&Exp::s(if t.was_attach { "1" } else { "0" }))?;
            }
            _ => {
                t.threads = if t.threads.len() == 2 { vec![9] } else { vec![3, 1] };
                let r = s.s(ch, &mut t, "D");
                want_calls(t.take_log(), &[], "D")?;
                r.expect(&Exp::Disc(Some(b"OK".to_vec()), disc(DisconnectReason::Disconnect)))?;
                s.reidle();
            }
        }
    }
    Ok(())
}

// ===================================================================== C25 ===

static C25: Prop = Prop {
    id: "C25",
    scenes: &[
        Scene { name: "command-texts", body: c25_text },
        Scene { name: "command-bytes", body: c25_bytes },
        Scene { name: "output-patterns", body: c25_out },
        Scene { name: "output-bytes", body: c25_out_bytes },
        Scene { name: "output-lengths", body: c25_len },
        Scene { name: "many-pieces", body: c25_many },
        Scene { name: "in-a-row", body: c25_hist },
        Scene { name: "formatted", body: c25_fmt },
        Scene { name: "once-more", body: c25_again },
        Scene { name: "malformed", body: bad::c25 },
    ],
    assumptions: &["how output is divided into packets is left to the stub"],
};

/// any number of `O` packets, then OK
fn console(r: &Rep) -> Result<Vec<u8>, Fail> {
    let k = r.pkts()?;
    if r.st != St::Idle || k.last().map(|x| &x[..]) != Some(b"OK") {
        return fail("monitor", format!("{:?}: no OK at the end", r));
    }
    let mut out = vec![];
    for p in &k[..k.len() - 1] {
        match p.strip_prefix(b"O").and_then(unhex) {
            Some(b) => out.extend(b),
            None => return fail("monitor", format!("{:?}: {:?} is not console output", r, show(p))),
        }
    }
    Ok(out)
}

fn mon(ch: &mut Ch) -> Tgt<u32> {
    Tgt::<u32>::new(f::NOACK | f::GUARD | f::MONITOR | if ch.flag() { f::RLE } else { 0 })
}
fn rcmd(ch: &mut Ch, t: &mut Tgt<u32>, s: &mut Sess<'_, Tgt<u32>>, cmd: &[u8], up: bool, want: &[u8]) -> R {
    let p = format!("qRcmd,{}", hx(ch, cmd, up));
    let r = s.s(ch, t, &p);
    want_calls(t.take_log(), &[call("monitor", &[], &[cmd])], &r.what)?;
    let got = console(&r)?;
    if got != want {
        return fail("output", format!("{}: console got {:?}, the target wrote {:?}", r.what, show(&got), show(want)));
    }
    Ok(())
}

fn c25_text(ch: &mut Ch) -> R {
    let mut t = mon(ch);
    let n = ch.choose(ch.by(7, 9));
    let c: Vec<u8> = (0..n).map(|_| ch.pick(&[b'a', b' ', 0, 0xff, b',', b'\n'])).collect();
    let up = ch.flag();
    let mut s = Sess::new(&mut t, 256);
    rcmd(ch, &mut t, &mut s, &c, up, b"")
}

fn c25_bytes(ch: &mut Ch) -> R {
    let mut t = mon(ch);
    let b = ch.choose(256) as u8;
    let n = ch.pick(&[1usize, 2, 3, 100]);
    let mut s = Sess::new(&mut t, 256);
    rcmd(ch, &mut t, &mut s, &vec![b; n], false, b"")
}

fn c25_out(ch: &mut Ch) -> R {
    let mut t = mon(ch);
    let n = ch.choose(ch.by(8, 9));
    let mut want = vec![];
    for i in 0..n {
        let w: Option<&[u8]> = ch.pick(&[None, Some(&b""[..]), Some(b"a"), Some(b"\n\xff"), Some(b"0000000000")]);
        if let Some(w) = w {
            want.extend_from_slice(w);
            if w.len() == 1 {
                want.push(b'0' + i as u8);
                t.monitor_out.push(Some(vec![w[0], b'0' + i as u8]));
                continue;
            }
        }
        t.monitor_out.push(w.map(|x| x.to_vec()));
    }
    let mut s = Sess::new(&mut t, 256);
    rcmd(ch, &mut t, &mut s, b"go", false, &want)
}

fn c25_out_bytes(ch: &mut Ch) -> R {
    let mut t = mon(ch);
    let b = ch.choose(256) as u8;
    let n = 1 + ch.choose(ch.by(120, 400));
    t.monitor_out = vec![Some(vec![b; n])];
    let want = vec![b; n];
    let mut s = Sess::new(&mut t, 256);
    rcmd(ch, &mut t, &mut s, b"go", false, &want)
}

fn c25_len(ch: &mut Ch) -> R {
    let mut t = mon(ch);
    let n = match ch.choose(2) {
        0 => ch.choose(ch.by(600, 4000)),
        _ => ch.pick(&[4095usize, 4096, 4097, 10_000, 70_000]),
    };
    let want: Vec<u8> = (0..n).map(|i| (i * 7 + i / 256) as u8).collect();
    t.monitor_out = want.chunks(ch.pick(&[7usize, 4096, 1 << 20])).map(|c| Some(c.to_vec())).collect();
    let size = ch.pick(&[32usize, 256]);
    let mut s = Sess::new(&mut t, size);
    rcmd(ch, &mut t, &mut s, b"go", false, &want)
}

fn c25_hist(ch: &mut Ch) -> R {
    let mut t = mon(ch);
    let mut s = Sess::new(&mut t, 256);
    for k in 0..ch.by(5, 6) {
        match ch.choose(5) {
            0 => {
                t.monitor_out = vec![Some(vec![k as u8; 3])];
                rcmd(ch, &mut t, &mut s, &[b'c', k as u8], false, &vec![k as u8; 3])?;
            }
            1 => {
                t.monitor_out = vec![];
                rcmd(ch, &mut t, &mut s, b"", false, b"")?;
            }
            2 => {
                t.monitor_out = vec![Some(b"a".to_vec()), None, None, Some(b"b".to_vec()), None];
                rcmd(ch, &mut t, &mut s, b"two", true, b"ab")?;
            }
            3 => {
                let r = s.s(ch, &mut t, "QStartNoAckMode");
                r.expect(&Exp::ok())?;
                s.noack = true;
            }
            _ => {
                let r = s.s(ch, &mut t, "m1,1");
                r.expect(&Exp::s(hex(&[t.byte(1)])))?;
                t.take_log();
            }
        }
    }
    Ok(())
}

// ===================================================================== C26 ===

static C26: Prop = Prop {
    id: "C26",
    scenes: &[
        Scene { name: "lists-u8", body: c26_list::<u8> },
        Scene { name: "lists-u16", body: c26_list::<u16> },
        Scene { name: "lists-u32", body: c26_list::<u32> },
        Scene { name: "lists-u64", body: c26_list::<u64> },
        Scene { name: "long-lists", body: c26_long },
        Scene { name: "longer-lists", body: c26_many },
        Scene { name: "malformed", body: c26_bad },
        Scene { name: "histories", body: c26_hist },
        Scene { name: "once-more", body: c26_again },
    ],
    assumptions: &["a number that does not fit the architecture's word may be noticed only when the target reaches it in the list"],
};

fn c26_list<U: HU>(ch: &mut Ch) -> R {
    let mut t = Tgt::<U>::new(f::PLAIN | f::CATCH);
    let max = U::max_value().big();
    let e = [0, 1, 9, 0xa, 0x7f, 0xff, max / 2 + 1, max - 1, max, max + 1, max * 2 + 1];
    let n = ch.choose(ch.by(5, 6));
    let st = ch.choose(4);
    let v: Vec<u128> = (0..n).map(|_| ch.pick(&e)).collect();
    let mut p = "QCatchSyscalls:1".to_string();
    for x in &v {
        p.push_str(&format!(";{}", num_style(st, *x)));
    }
    let mut s = Sess::new(&mut t, 256);
    let r = s.s(ch, &mut t, &p);
    let log = deeds(t.take_log());
    if n == 0 {
        want_calls(log, &[call("catch_all", &[], &[])], &r.what)?;
        return r.expect(&Exp::ok());
    }
    if v.iter().all(|x| *x <= max) {
        want_calls(log, &[call("catch_some", &v, &[])], &r.what)?;
        return r.expect(&Exp::ok());
    }
    // never confirmed, never a wrong number
    if r.st == St::Idle && !is_err(&r.reply()?) {
        return fail("confirmed", format!("{}: {:?}", r.what, r));
    }
    if log.iter().any(|c| c.f != "catch_some" || c.n.iter().zip(&v).any(|(a, b)| a != b) || c.n.len() >= v.len()) {
        return fail("calls", format!("{}: the target saw {:x?}", r.what, log));
    }
    Ok(())
}

fn c26_long(ch: &mut Ch) -> R {
    let mut t = Tgt::<u32>::new(f::PLAIN | f::CATCH | if ch.flag() { f::MULTI } else { 0 });
    let n = 1 + ch.choose(60);
    let base = ch.pick(&[0u128, 0xf0, 0xffff_ff00]);
    let v: Vec<u128> = (0..n as u128).map(|i| base + i * 3).collect();
    let p = format!("QCatchSyscalls:1;{}", v.iter().map(|x| format!("{:x}", x)).collect::<Vec<_>>().join(";"));
    let mut s = Sess::new(&mut t, 4096);
    let r = s.s(ch, &mut t, &p);
    want_calls(t.take_log(), &[call("catch_some", &v, &[])], &r.what)?;
    r.expect(&Exp::ok())
}

fn c26_bad(ch: &mut Ch) -> R {
    let mut t = Tgt::<u32>::new(f::PLAIN | f::CATCH);
    let p = ch.pick(&[
        "QCatchSyscalls", "QCatchSyscalls:", "QCatchSyscalls:2", "QCatchSyscalls:01", "QCatchSyscalls:10", "QCatchSyscalls:1:2",
        "QCatchSyscalls:1;g", "QCatchSyscalls:1;1;g", "QCatchSyscalls:1,1", "QCatchSyscalls:0;1", "QCatchSyscalls;1", "QCatchSyscalls:11",
        "QCatchSyscalls:1;1,2", "QCatchSyscalls:1;-1", "QCatchSyscalls: 1",
    ]);
    let mut s = Sess::new(&mut t, 256);
    let r = s.s(ch, &mut t, p);
    want_calls(t.take_log(), &[], &r.what)?;
    if r.st == St::Idle && r.reply()? == b"OK" {
        return fail("confirmed", format!("{}: OK", r.what));
    }
    Ok(())
}

fn c26_hist(ch: &mut Ch) -> R {
    let mut t = Tgt::<u64>::new(f::PLAIN | f::CATCH);
    let mut s = Sess::new(&mut t, 256);
    for _ in 0..ch.by(5, 7) {
        let (p, c) = ch.pick(&[
            ("QCatchSyscalls:0", ("catch_off", &[][..])),
            ("QCatchSyscalls:1", ("catch_all", &[])),
            ("QCatchSyscalls:1;5", ("catch_some", &[5u128])),
            ("QCatchSyscalls:1;5;d;ffffffffffffffff", ("catch_some", &[5, 0xd, u64::MAX as u128])),
            ("QCatchSyscalls:1;d;5", ("catch_some", &[0xd, 5])),
        ]);
        let fails = ch.flag();
        t.inj = if fails { vec![(c.0, t_count(&t, c.0), Inj::Errno(3))] } else { vec![] };
        let r = s.s(ch, &mut t, p);
        want_calls(t.take_log(), &[call(c.0, c.1, &[])], &r.what)?;
        r.expect(&if fails { Exp::e(3) } else { Exp::ok() })?;
    }
    Ok(())
}
/// calls are only counted while an injection is armed
fn t_count(t: &Tgt<u64>, f: &'static str) -> usize {
    t.armed_count(f)
}

// ============================================================== long things ===

fn c24_long(ch: &mut Ch) -> R {
    let mut t = ext(ch);
    let k = ch.choose(5);
    let n = match ch.choose(2) {
        0 => ch.choose(ch.by(600, 4000)) + 1,
        _ => ch.pick(LENS),
    };
    let long: Vec<u8> = (0..n).map(|i| b'a' + (i % 23) as u8).collect();
    let mut s = Sess::new(&mut t, 256);
    match k {
        0 => {
            // many arguments, every third of them empty
            let args: Vec<Vec<u8>> = (0..n).map(|i| if i % 3 == 2 { vec![] } else { format!("{}", i).into_bytes() }).collect();
            let mut p = "vRun;2f78".to_string();
            for a in &args {
                p.push(';');
                p.push_str(&hex(a));
            }
            let r = s.s(ch, &mut t, &p);
            let mut b: Vec<&[u8]> = vec![b"/x"];
            b.extend(args.iter().map(|a| &a[..]));
            want_calls(t.take_log(), &[call("run", &[1], &b)], "many arguments")?;
            stop_of(&t, &r, s.mp.then_some(t.pid as u128))
        }
        1 => {
            let r = s.s(ch, &mut t, &format!("vRun;{};{}", hex(&long), hex(&long)));
            want_calls(t.take_log(), &[call("run", &[1], &[&long, &long])], "long names")?;
            stop_of(&t, &r, s.mp.then_some(t.pid as u128))
        }
        2 => {
            let r = s.s(ch, &mut t, &format!("QEnvironmentHexEncoded:{}3d{}", hex(&long), hex(&long)));
            want_env(&t, &r, &long, &long)
        }
        3 => {
            let r = s.s(ch, &mut t, &format!("QEnvironmentUnset:{}", hex(&long)));
            want_calls(t.take_log(), &[call("remove_env", &[], &[&long])], "a long name")?;
            r.expect(&Exp::ok())
        }
        _ => {
            let r = s.s(ch, &mut t, &format!("QSetWorkingDir:{}", hex(&long)));
            want_calls(t.take_log(), &[call("cfg_wdir", &[1], &[&long])], "a long directory")?;
            r.expect(&Exp::ok())
        }
    }
}

/// long commands, and any number of pieces of output
fn c25_many(ch: &mut Ch) -> R {
    let mut t = mon(ch);
    let n = match ch.choose(2) {
        0 => ch.choose(ch.by(600, 5000)),
        _ => ch.pick(LENS),
    };
    let mut s = Sess::new(&mut t, 256);
    match ch.choose(3) {
        0 => {
            let cmd: Vec<u8> = (0..n).map(|i| (i * 3) as u8).collect();
            rcmd(ch, &mut t, &mut s, &cmd, false, b"")
        }
        k => {
            t.monitor_out = (0..n).map(|i| if k == 1 && i % 3 == 2 { None } else { Some(vec![i as u8; 1 + i % 2]) }).collect();
            let want: Vec<u8> = t.monitor_out.iter().flatten().flatten().copied().collect();
            rcmd(ch, &mut t, &mut s, b"go", false, &want)
        }
    }
}

/// lists of any length, of numbers of any length
fn c26_many(ch: &mut Ch) -> R {
    let mut t = Tgt::<u64>::new(f::PLAIN | f::CATCH);
    let n = match ch.choose(2) {
        0 => ch.choose(ch.by(600, 5000)) + 1,
        _ => ch.pick(LENS),
    };
    let mul = ch.pick(&[1u128, 0x1_0001, 0xffff_ffff_ffff]);
    let v: Vec<u128> = (0..n as u128).map(|i| i * mul % (1 << 64)).collect();
    let p = format!("QCatchSyscalls:1;{}", v.iter().map(|x| format!("{:x}", x)).collect::<Vec<_>>().join(";"));
    let mut s = Sess::new(&mut t, 4096);
    let r = s.s(ch, &mut t, &p);
    want_calls(t.take_log(), &[call("catch_some", &v, &[])], "a long list")?;
    r.expect(&Exp::ok())
}

/// pieces written by the macros the documentation recommends
fn c25_fmt(ch: &mut Ch) -> R {
    let mut t = mon(ch);
    let n = ch.choose(ch.by(5, 6));
    let mut want = String::new();
    for _ in 0..n {
        let how = ch.choose(6) as u8;
        if how == 5 {
            t.monitor_out.push(None);
            t.monitor_how.push(0);
            continue;
        }
        let s = ch.pick(&["", "a}", "\u{e9}\n"]);
        t.monitor_out.push(Some(s.as_bytes().to_vec()));
        t.monitor_how.push(how);
        match how {
            0 | 1 => want += s,
            2 | 3 => want += &format!("{}\n", s),
            _ => want += &format!("{}-  7{:?}", s, s),
        }
    }
    let mut s = Sess::new(&mut t, 256);
    rcmd(ch, &mut t, &mut s, b"go", false, want.as_bytes())
}
