mod client;
mod engine;
mod ev;
mod props;
mod sess;
mod target;

use engine::*;
use std::io::Write;
use std::process::Command;
use std::time::*;

const HANG_MS: u64 = 20_000;

/// Logger that formats (and drops) every record, so that the argument
/// expressions of the library's log statements really run when enabled.
struct NullLog;
impl log::Log for NullLog {
    fn enabled(&self, _: &log::Metadata<'_>) -> bool {
        true
    }
    fn log(&self, r: &log::Record<'_>) {
        let _ = format!("{}", r.args());
    }
    fn flush(&self) {}
}
static LOGGER: NullLog = NullLog;

fn usage() -> ! {
    eprintln!("usage: mc run <ID> <tier> | mc replay <file> | mc list");
    std::process::exit(2)
}

fn tier_of(s: &str) -> Tier {
    match s {
        "quick" => Tier::Quick,
        "thorough" => Tier::Thorough,
        _ => usage(),
    }
}

fn prop_of(id: &str) -> &'static Prop {
    match props::all().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            std::process::exit(2)
        }
    }
}

fn threads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16)
}

fn main() {
    install_panic_hook();
    let _ = log::set_logger(&LOGGER);
    log::set_max_level(log::LevelFilter::Off);
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in props::all() {
                println!(
                    "{} {}",
                    p.id,
                    p.scenes.iter().map(|s| s.name).collect::<Vec<_>>().join(",")
                );
            }
            0
        }
        Some("run") if a.len() == 4 => parent(&a[2], tier_of(&a[3])),
        Some("child") if a.len() == 5 => child(&a[2], tier_of(&a[3]), &a[4]),
        Some("one") if a.len() == 6 => one(&a[2], tier_of(&a[3]), &a[4], &a[5]),
        Some("replay") if a.len() == 3 => replay(&a[2]),
        _ => usage(),
    };
    std::process::exit(code)
}

fn parent(id: &str, tier: Tier) -> i32 {
    let prop = prop_of(id);
    let start = Instant::now();
    let slot_path = std::env::temp_dir()
        .join(format!("mc-slots-{}-{}", std::process::id(), id))
        .to_string_lossy()
        .into_owned();
    let n = threads();
    let slots = match Slots::open(&slot_path, n, true) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("cannot create {}: {}", slot_path, e);
            return 2;
        }
    };
    let exe = std::env::current_exe().unwrap();
    let mut ch = Command::new(&exe)
        .args(["child", id, tier.name(), &slot_path])
        .spawn()
        .expect("spawn");
    let mut hung = false;
    let status = loop {
        match ch.try_wait().expect("wait") {
            Some(s) => break Some(s),
            None => {}
        }
        std::thread::sleep(Duration::from_millis(20));
        let now = now_ms();
        for i in 0..n {
            if let Some((t, _, _)) = slots.get(i) {
                if now.saturating_sub(t) > HANG_MS {
                    hung = true;
                }
            }
        }
        if hung {
            let _ = ch.kill();
            let _ = ch.wait();
            break None;
        }
    };
    let busy: Vec<_> = (0..n).filter_map(|i| slots.get(i)).collect();
    let _ = std::fs::remove_file(&slot_path);
    if let Some(c) = status.and_then(|s| s.code()) {
        if (0..=2).contains(&c) && !hung {
            return c;
        }
    }
    eprintln!("the exploring process ended abnormally (hang: {}), isolating", hung);
    for (_, scene, prefix) in busy {
        let sc = &prop.scenes[scene];
        let choices = prefix.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",");
        let mut p = Command::new(&exe)
            .args(["one", id, tier.name(), sc.name, &choices])
            .spawn()
            .expect("spawn");
        let t0 = Instant::now();
        let what = loop {
            if let Some(s) = p.try_wait().expect("wait") {
                break match s.code() {
                    Some(0) | Some(2) => None,
                    Some(1) => Some("violation (see output)".to_string()),
                    _ => Some(format!("the library aborted the process: {}", s)),
                };
            }
            if t0.elapsed() > Duration::from_millis(HANG_MS) {
                let _ = p.kill();
                let _ = p.wait();
                break Some("the library did not return".to_string());
            }
            std::thread::sleep(Duration::from_millis(10));
        };
        if let Some(what) = what {
            let f = Found {
                scene,
                choices: prefix,
                fail: Fail { sig: "abort-or-hang".into(), msg: what },
                notes: vec![],
            };
            let path = ev::write_replay(id, tier, sc.name, &f);
            let mut s = ev::Summary::new(id, tier);
            s.violations = 1;
            s.wall_s = start.elapsed().as_secs_f64();
            s.executions = 1;
            s.states = 1;
            s.transitions = 1;
            s.samples.push(format!("{}: choices {} -> {}", sc.name, choices, f.fail.msg));
            s.write(prop);
            println!("{}", f.fail.msg);
            println!("VIOLATION property={} replay={}", id, path);
            return 1;
        }
    }
    eprintln!("ERROR: the exploring process ended abnormally and no execution reproduces it");
    2
}

/// what a property needs before its executions can run
fn prepare(id: &str, tier: Tier) -> bool {
    if id == "C36" {
        if let Err(e) = props::builds::prepare(tier) {
            eprintln!("ERROR in the harness: {}", e);
            return false;
        }
    }
    true
}

fn child(id: &str, tier: Tier, slot_path: &str) -> i32 {
    let prop = prop_of(id);
    if !prepare(id, tier) {
        return 2;
    }
    let n = threads();
    let slots = Slots::open(slot_path, n, false).expect("slots");
    let start = Instant::now();
    let cap = std::env::var("MC_CAP_S")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if tier == Tier::Quick { 300u64 } else { 780 });
    let deadline = start + Duration::from_secs(cap);
    let known = ev::known_sigs(id);
    let known_sigs: Vec<String> = known.iter().map(|k| k.0.clone()).collect();
    let mut sum = ev::Summary::new(id, tier);
    let mut seen: std::collections::BTreeMap<String, (u64, Found)> = Default::default();
    let mut code = 0;
    let only = std::env::var("MC_SCENE").ok();
    for ix in 0..prop.scenes.len() {
        if only.as_ref().map_or(false, |o| o != prop.scenes[ix].name) {
            continue;
        }
        let r = explore(prop, ix, tier, n, &known_sigs, deadline, Some(&slots));
        println!(
            "{} {:28} executions={} states={} outcomes={} transitions={} depth={} {} {:.2}s",
            id,
            r.stats.name,
            r.stats.executions,
            r.stats.states,
            r.stats.outcomes,
            r.stats.transitions,
            r.stats.max_choices,
            if r.stats.exhausted { "exhausted" } else { "NOT EXHAUSTED" },
            r.stats.wall_s
        );
        sum.add(r.stats);
        for (k, v) in r.known {
            seen.entry(k).and_modify(|e| e.0 += v.0).or_insert(v);
        }
        if let Some(e) = r.engine_error {
            eprintln!("ERROR in the harness: {}", e);
            if r.violation.is_none() {
                code = 2;
                break;
            }
        }
        if let Some(v) = r.violation {
            sum.violations += 1;
            let path = ev::write_replay(id, tier, prop.scenes[ix].name, &v);
            println!("{} [{}]", v.fail.msg, v.fail.sig);
            for l in &v.notes {
                println!("  {}", l);
            }
            if code == 0 {
                println!("VIOLATION property={} replay={}", id, path);
                code = 1;
            }
            break;
        }
    }
    for (sig, what) in &known {
        if let Some((count, f)) = seen.get(sig) {
            println!(
                "KNOWN-FINDING: property={} {} [{}; {} executions; e.g. {}]",
                id,
                what,
                sig,
                count,
                f.fail.msg.replace('\n', " ")
            );
            sum.known.push(format!("{} ({} executions)", sig, count));
        }
    }
    sum.wall_s = start.elapsed().as_secs_f64();
    sum.write(prop);
    let _ = std::io::stdout().flush();
    code
}

fn one(id: &str, tier: Tier, scene: &str, choices: &str) -> i32 {
    let prop = prop_of(id);
    let sc = prop.scenes.iter().find(|s| s.name == scene).unwrap_or_else(|| usage());
    if !prepare(id, tier) {
        return 2;
    }
    let choices: Vec<u32> =
        choices.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
    let mut ch = Ch::new(tier);
    ch.recording = true;
    let r = run_one(prop, sc, &mut ch, &choices);
    for n in &ch.notes {
        println!("  {}", n);
    }
    match r {
        Outcome::Ok => {
            println!("execution holds the property");
            0
        }
        Outcome::Fail(f) => {
            println!("{} [{}]", f.msg, f.sig);
            1
        }
        Outcome::Engine(e) => {
            eprintln!("ERROR in the harness: {}", e);
            2
        }
    }
}

fn replay(path: &str) -> i32 {
    let txt = std::fs::read_to_string(path).expect("replay file");
    let get = |k: &str| {
        txt.lines()
            .find_map(|l| l.strip_prefix(&format!("{}: ", k)))
            .unwrap_or("")
            .to_string()
    };
    one(&get("property"), tier_of(&get("tier")), &get("scene"), &get("choices"))
}
