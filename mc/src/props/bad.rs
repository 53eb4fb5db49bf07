//! Malformed packets: a request that does not follow the protocol's grammar is
//! refused (an error, an empty reply or the end of the session) and is never
//! acted upon as if it were some other request.

use crate::client::*;
use crate::props::*;
use crate::sess::*;

/// every way in which one packet is spoiled that stays ungrammatical whatever
/// one is lenient about: a byte of a number is no digit
fn spoil(ch: &mut Ch, good: &str, from: usize) -> Vec<u8> {
    let mut p = good.as_bytes().to_vec();
    let at: Vec<usize> = (from..p.len()).filter(|i| p[*i].is_ascii_hexdigit()).collect();
    let i = ch.pick(&at);
    p[i] = ch.pick(&[b'g', b'G', b'/', b'@', b'`', b' ', b'%', b'z', 0x80, 0xe1, 0, 0x11]);
    p
}

fn judge(log: Vec<Call>, r: &Rep, deed: &[&str]) -> R {
    for c in &log {
        if deed.contains(&c.f) {
            return fail("malformed-done", format!("{}: {:x?}", r.what, c));
        }
    }
    match &r.st {
        St::Err(ErrK::Other(_)) => Ok(()),
        St::Idle => {
            let rep = r.reply()?;
            if is_err(&rep) || rep.is_empty() {
                Ok(())
            } else {
                fail("malformed-answered", format!("{}: replied {:?}", r.what, show(&rep)))
            }
        }
        s => fail("malformed-answered", format!("{}: state {:?}", r.what, s)),
    }
}

fn run(ch: &mut Ch, flags: u64, p: &[u8], deed: &[&str]) -> R {
    let multi = flags & f::MULTI != 0;
    let mut t = Tgt::<u32>::new(flags);
    t.threads = vec![1, 2, 3];
    let mut s = Sess::new(&mut t, 200);
    if multi {
        s.s(ch, &mut t, "Hg2").expect(&Exp::ok())?;
    }
    t.take_log();
    let r = s.cmd(ch, &mut t, p);
    judge(t.take_log(), &r, deed)?;
    if r.st == St::Idle {
        // and nothing of it remains
        let r = s.s(ch, &mut t, "g");
        want_calls(deeds(t.take_log()), &[call("read_registers", &[if multi { 2 } else { 0 }], &[])], &r.what)?;
    }
    Ok(())
}

fn base(ch: &mut Ch, more: u64) -> u64 {
    f::PLAIN | more | if ch.flag() { f::MULTI } else { 0 }
}

pub fn c10(ch: &mut Ch) -> R {
    let fl = base(ch, 0);
    let p = match ch.choose(4) {
        0 => ch.pick(&["m", "m10", "m10,", "m10;4", "m10 4", "m10:4", "m-10,4", "m10,-4"]).as_bytes().to_vec(),
        1 => spoil(ch, "m10,4", 1),
        2 => spoil(ch, "mfffffff0,2a", 1),
        _ => spoil(ch, "m0,1", 1),
    };
    run(ch, fl, &p, &["read_addrs"])
}

pub fn c11(ch: &mut Ch) -> R {
    let fl = base(ch, 0);
    let p = match ch.choose(6) {
        0 => ch.pick(&["M", "M10", "M10,1", "X", "X10", "X10,1", "M-10,1:41", "X-10,1:A"]).as_bytes().to_vec(),
        1 => spoil(ch, "M10,4:00112233", 1),
        2 => spoil(ch, "M1f0,1:5a", 1),
        3 => spoil(ch, "X10,1", 1).into_iter().chain(*b":A").collect(),
        4 => spoil(ch, "Xabc,10", 1).into_iter().chain(*b":AAAAAAAAAAAAAAAA").collect(),
        _ => {
            // data that end in the middle of an escape
            let n = ch.choose(9);
            let mut p = format!("X10,{:x}:", n + 1).into_bytes();
            for i in 0..n {
                p.extend([&b"A"[..], b"}]", b"}\x03"][(ch.choose(3) + i) % 3]);
            }
            p.push(b'}');
            p
        }
    };
    run(ch, fl, &p, &["write_addrs"])
}

pub fn c12(ch: &mut Ch) -> R {
    let fl = base(ch, 0);
    let good = ch.pick(&["G00", "G0011", "G00112233445566778899aabbccddeeff", "Gxx112233", "G0x1x"]);
    let p = spoil(ch, good, 1);
    run(ch, fl, &p, &["write_registers"])
}

pub fn c13(ch: &mut Ch) -> R {
    let fl = base(ch, f::SRA);
    let p = match ch.choose(5) {
        0 => ch.pick(&["p", "P", "P1", "P=41", "p-1", "P-1=41", "p1,2", "p1=41"]).as_bytes().to_vec(),
        1 => spoil(ch, "p1", 1),
        2 => spoil(ch, "p2a", 1),
        3 => spoil(ch, "P1=00112233", 1),
        _ => spoil(ch, "P02=aabbccdd", 1),
    };
    run(ch, fl, &p, &["read_register", "write_register"])
}

/// a thread id that is none, in every command that carries one
pub fn c14(ch: &mut Ch) -> R {
    let id = bad_id(ch);
    let mut p = ch.pick(&["Hg", "Hc"]).as_bytes().to_vec();
    p.extend(id);
    run(ch, f::PLAIN | f::MULTI | f::RESALL, &p, &[])
}

fn bad_id(ch: &mut Ch) -> Vec<u8> {
    match ch.choose(4) {
        0 => ch
            .pick(&["", "p", "p.", "p.1", "p1.", "-", "--1", "-2", "-1-", "p-2.1", "p1.-2", "p1.-", "p-.1", "P1.1", "1,", "1.1", "p1,1", "p1;1"])
            .as_bytes()
            .to_vec(),
        1 => spoil(ch, "3", 0),
        2 => spoil(ch, "p1.3", 0),
        _ => spoil(ch, "p1a.1f3", 0),
    }
}

pub fn vcont(ch: &mut Ch, multi: bool) -> R {
    let mut p = match ch.choose(3) {
        0 => ch
            .pick(&[
                "vCont;", "vCont;x", "vCont;cc", "vCont;ss", "vCont;C", "vCont;S", "vCont;C100", "vCont;S100",
                "vCont;s5", "vCont;c5", "vCont;r", "vCont;r1", "vCont;r1;2", "vCont;r,2", "vCont;r1,", "vCont;r-1,2",
                "vCont;r1,-2", "vCont;c:1;", "vCont;c;;c", "vCont;C-1", "vCont;C5 ", "vCont; c", "vCont;C1,2",
            ])
            .as_bytes()
            .to_vec(),
        1 => {
            let a = ch.pick(&["c:", "C05:", "s:", "S05:", "r1,2:"]);
            let mut p = format!("vCont;{}", a).into_bytes();
            // nothing after the `:` is an id that is missing, too
            p.extend(bad_id(ch));
            p
        }
        _ => {
            let good = ch.pick(&["vCont;C05", "vCont;S1f", "vCont;C5:1", "vCont;r10,20", "vCont;r1,2:1"]);
            spoil(ch, good, 7)
        }
    };
    // last in a list, or all there is
    if multi && ch.flag() {
        let tail = p.split_off(6);
        p.extend(*b"s:2;");
        p.extend(tail);
    }
    let mut fl = f::PLAIN | f::RESALL;
    if multi {
        fl |= f::MULTI;
    }
    run(ch, fl, &p, &["resume", "step", "range_step", "reverse_cont", "reverse_step"])
}

pub fn c15(ch: &mut Ch) -> R {
    vcont(ch, true)
}
pub fn c16(ch: &mut Ch) -> R {
    vcont(ch, false)
}

pub fn c19(ch: &mut Ch) -> R {
    let (cmd, deed) = ch.pick(&[("T", "is_thread_alive"), ("qThreadExtraInfo,", "thread_extra_info")]);
    let mut p = cmd.as_bytes().to_vec();
    if ch.flag() {
        p.extend(bad_id(ch));
    } else {
        // ids that are no single thread
        p.extend(ch.pick(&["0", "-1", "p1.-1", "p1.0", "p-1.-1"]).as_bytes());
    }
    run(ch, f::PLAIN | f::MULTI | f::EXTRA, &p, &[deed])
}

pub fn c22(ch: &mut Ch) -> R {
    let (p, deed) = ch.pick(&[
        ("qXfer:auxv:read::", "auxv"),
        ("qXfer:memory-map:read::", "memory_map"),
        ("qXfer:exec-file:read:1:", "exec_file"),
        ("qXfer:libraries-svr4:read::", "libraries_svr4"),
        ("qXfer:features:read:target.xml:", "xml"),
    ]);
    let mut p = p.as_bytes().to_vec();
    let n = p.len();
    match ch.choose(4) {
        0 => p.extend(ch.pick(&["", "0", "0,", ",10", "0;10", "0 10", "-1,10", "0,-1", ","]).as_bytes()),
        1 => p.extend(spoil(ch, "0,10", 0)),
        2 => p.extend(spoil(ch, "1f,ffb", 0)),
        _ => {
            p.truncate(n - 1);
            p.extend(ch.pick(&["", ";0,10", ",0,10", " 0,10"]).as_bytes());
        }
    }
    let fl = base(ch, f::ALL & !f::MULTI & !f::RESALL & !f::RLE & !f::EXT);
    run(ch, fl, &p, &[deed])
}

pub fn c25(ch: &mut Ch) -> R {
    let p = match ch.choose(3) {
        0 => ch.pick(&["qRcmd;68", "qRcmd:68", "qRcmd68", "qRcmd,-1", "qRcmd,68,69", "qRcmd,,"]).as_bytes().to_vec(),
        1 => spoil(ch, "qRcmd,68", 6),
        _ => spoil(ch, "qRcmd,00ff7d2a", 6),
    };
    let fl = base(ch, f::MONITOR);
    run(ch, fl, &p, &["monitor"])
}

pub fn c29(ch: &mut Ch) -> R {
    let p = match ch.choose(3) {
        0 => ch.pick(&["qRegisterInfo", "qRegisterInfo-1", "qRegisterInfo1,2", "qRegisterInfo:1"]).as_bytes().to_vec(),
        1 => spoil(ch, "qRegisterInfo3", 13),
        _ => spoil(ch, "qRegisterInfo1f", 13),
    };
    let fl = base(ch, f::USELLDB);
    run(ch, fl, &p, &["lldb_register_info"])
}
