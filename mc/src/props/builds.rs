//! C36: every combination of the crate's features behaves the same.
//!
//! `feat/` is a second crate that runs a fixed list of sessions on the library.
//! It is built once per combination; the outcome of each session in each
//! build is compared with the one in the default build.

use crate::note;
use crate::props::*;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::OnceLock;
use std::time::*;

pub const PROPS: &[&Prop] = &[&C36];

static C36: Prop = Prop {
    id: "C36",
    scenes: &[Scene { name: "builds", body: c36_builds }, Scene { name: "sessions", body: c36_sessions }],
    assumptions: &[
        "console output is compared joined up to the next reply: only how often it is flushed depends on `alloc`",
        "without a heap a packet buffer has to be given, and UnixStream::peek needs `unsafe`: both are documented",
        "log records are formatted in all builds but the default one it is compared with",
        "one build has optimisation on and all checks off",
    ],
};

struct Variant {
    name: String,
    profile: &'static str,
    features: String,
    /// hash of the outcome of each session, or why there is none
    got: Result<Vec<u64>, (&'static str, String)>,
    exe: PathBuf,
}
struct Prep {
    /// number 0 is the default build
    v: Vec<Variant>,
}
static PREP: OnceLock<Prep> = OnceLock::new();

fn combos(quick: bool) -> Vec<(&'static str, String)> {
    let mut v: Vec<(&'static str, String)> = vec![("release", "std,trace-pkt".into())];
    if quick {
        for c in ["", "alloc,trace-pkt", "std", "paranoid_unsafe", "std,trace-pkt,paranoid_unsafe,core_error"] {
            v.push(("release", c.into()));
        }
    } else {
        for heap in ["", "alloc", "std", "alloc,trace-pkt", "std,trace-pkt"] {
            for rest in ["", "paranoid_unsafe", "core_error", "paranoid_unsafe,core_error"] {
                let c = [heap, rest].iter().filter(|x| !x.is_empty()).cloned().collect::<Vec<_>>().join(",");
                if c != "std,trace-pkt" {
                    v.push(("release", c));
                }
            }
        }
    }
    v.push(("plain", "std,trace-pkt".into()));
    if !quick {
        v.push(("plain", "".into()));
        v.push(("plain", "paranoid_unsafe".into()));
    }
    v
}

fn root() -> PathBuf {
    // /verif/target/release/mc
    let e = std::env::current_exe().expect("exe");
    e.ancestors().nth(3).expect("root").to_path_buf()
}

fn build_and_run(root: &Path, tier: &str, profile: &'static str, features: &str, log: bool) -> (PathBuf, Result<Vec<u64>, (&'static str, String)>) {
    let slug = format!("{}-{}", profile, if features.is_empty() { "none".into() } else { features.replace(',', "+") });
    let dir = root.join("target/feat").join(&slug);
    let exe = dir.join(profile).join("feat");
    let go = || {
        let o = Command::new("cargo")
            .args(["build", "--offline", "--profile", profile, "--features", features, "--manifest-path"])
            .arg(root.join("mc/feat/Cargo.toml"))
            .arg("--target-dir")
            .arg(&dir)
            .env("CARGO_TERM_COLOR", "never")
            .stdin(Stdio::null())
            .output()
            .map_err(|e| ("build", e.to_string()))?;
        if !o.status.success() {
            let e = String::from_utf8_lossy(&o.stderr).to_string();
            let e: Vec<&str> = e.lines().skip_while(|l| !l.starts_with("error")).take(12).collect();
            return Err(("build", e.join("\n    ")));
        }
        let out = dir.join(format!("out-{}", tier));
        let mut c = Command::new(&exe);
        c.args(["run", tier]).arg(&out).env_remove("FEAT_LOG").stdin(Stdio::null()).stdout(Stdio::null());
        c.stderr(Stdio::null());
        if log {
            c.env("FEAT_LOG", "1");
        }
        let mut p = c.spawn().map_err(|e| ("run", e.to_string()))?;
        let t0 = Instant::now();
        let st = loop {
            if let Some(s) = p.try_wait().map_err(|e| ("run", e.to_string()))? {
                break s;
            }
            if t0.elapsed() > Duration::from_secs(200) {
                let _ = p.kill();
                let _ = p.wait();
                return Err(("run", "the sessions did not end".into()));
            }
            std::thread::sleep(Duration::from_millis(5));
        };
        if !st.success() {
            let n = std::fs::metadata(&out).map(|m| m.len() / 8).unwrap_or(0);
            return Err(("run", format!("the process ended with {} after at least {} sessions", st, n)));
        }
        let b = std::fs::read(&out).map_err(|e| ("run", e.to_string()))?;
        let _ = std::fs::remove_file(&out);
        Ok(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect())
    };
    let r = go();
    (exe, r)
}

/// Builds and runs all variants; to be called before exploring.
pub fn prepare(tier: Tier) -> Result<(), String> {
    let quick = tier == Tier::Quick;
    let list = combos(quick);
    let root = root();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let slots: Vec<std::sync::Mutex<Option<Variant>>> = list.iter().map(|_| std::sync::Mutex::new(None)).collect();
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                let Some((profile, features)) = list.get(i) else { return };
                let (exe, got) = build_and_run(&root, tier.name(), profile, features, i != 0);
                let f = if features.is_empty() { "no features" } else { features };
                let name = if *profile == "plain" { format!("{} (optimised, no checks)", f) } else { f.to_string() };
                *slots[i].lock().unwrap() = Some(Variant { name, profile, features: features.clone(), got, exe });
            });
        }
    });
    let v: Vec<Variant> = slots.into_iter().map(|s| s.into_inner().unwrap().unwrap()).collect();
    if let Err(("build", e)) = &v[0].got {
        return Err(format!("the default build fails: {}", e));
    }
    let _ = PREP.set(Prep { v });
    Ok(())
}

fn c36_builds(ch: &mut Ch) -> R {
    let p = PREP.get().expect("prepared");
    let v = &p.v[ch.choose(p.v.len())];
    note!(ch, "features: {}", v.name);
    ch.step();
    ch.state(&v.name);
    match &v.got {
        Err((k, e)) => fail(&format!("{}@{}", k, v.name), format!("{} fails with {}: {}", k, v.name, e)),
        Ok(n) => {
            ch.outcome(&n.len());
            if let Ok(w) = &p.v[0].got {
                if w.len() != n.len() || n.len() < 100_000 {
                    return fail("sessions", format!("{} sessions instead of {}", n.len(), w.len()));
                }
            }
            Ok(())
        }
    }
}

fn c36_sessions(ch: &mut Ch) -> R {
    let p = PREP.get().expect("prepared");
    let Ok(want) = &p.v[0].got else { return Ok(()) };
    let v = &p.v[ch.choose(p.v.len())];
    let Ok(got) = &v.got else { return Ok(()) };
    let blocks = (want.len() + 255) / 256;
    let b = ch.choose(blocks);
    for i in b * 256..want.len().min(b * 256 + 256) {
        ch.step();
        ch.state(&i);
        ch.outcome(&got[i]);
        if got[i] != want[i] {
            let show = |v: &Variant| {
                let mut c = Command::new(&v.exe);
                c.args(["show", if ch.quick() { "quick" } else { "thorough" }, &i.to_string()]).env_remove("FEAT_LOG").stderr(Stdio::null());
                if v.name != p.v[0].name {
                    c.env("FEAT_LOG", "1");
                }
                c.output().map(|o| String::from_utf8_lossy(&o.stdout).to_string()).unwrap_or_default()
            };
            let (a, b) = (show(v), show(&p.v[0]));
            return fail(
                "builds-differ",
                format!("session {} differs.\nwith {} [{}]:\n{}\nin the default build:\n{}", i, v.name, v.profile, a, b),
            );
        }
    }
    let _ = &v.features;
    Ok(())
}
