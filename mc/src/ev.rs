//! Evidence, replay artefacts and the known-findings file.

use crate::engine::*;
use std::fmt::Write as _;

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// (sig, description) of the findings recorded for a property.
///
/// File format, one finding per line:
/// `known: property=<id> sig=<sig> <description>`; any other line is ignored
/// (comments, and `fixed:` entries, which suppress nothing).
pub fn known_sigs(id: &str) -> Vec<(String, String)> {
    let txt = std::fs::read_to_string("known_findings.txt").unwrap_or_default();
    let mut v = vec![];
    for l in txt.lines() {
        let Some(rest) = l.strip_prefix("known: property=") else { continue };
        let mut it = rest.splitn(3, ' ');
        if it.next() != Some(id) {
            continue;
        }
        if let Some(sig) = it.next().and_then(|s| s.strip_prefix("sig=")) {
            v.push((sig.to_string(), it.next().unwrap_or("").to_string()));
        }
    }
    v
}

pub fn write_replay(id: &str, tier: Tier, scene: &str, f: &Found) -> String {
    let _ = std::fs::create_dir_all("evidence/replay");
    let path = format!("evidence/replay/{}-{}-{}.txt", id, tier.name(), scene.replace('/', "_"));
    let mut t = String::new();
    let _ = writeln!(t, "# replay with: ./check.sh replay {}", path);
    let _ = writeln!(t, "property: {}", id);
    let _ = writeln!(t, "tier: {}", tier.name());
    let _ = writeln!(t, "scene: {}", scene);
    let _ = writeln!(
        t,
        "choices: {}",
        f.choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",")
    );
    let _ = writeln!(t, "sig: {}", f.fail.sig);
    let _ = writeln!(t, "what: {}", f.fail.msg.replace('\n', "\n  "));
    for n in &f.notes {
        let _ = writeln!(t, "step: {}", n);
    }
    let _ = std::fs::write(&path, t);
    path
}

pub struct Summary {
    pub id: String,
    pub tier: Tier,
    pub executions: u64,
    pub states: u64,
    pub transitions: u64,
    pub outcomes: u64,
    pub exhaustive: bool,
    pub samples: Vec<String>,
    pub scenes: Vec<SceneStats>,
    pub violations: u64,
    pub wall_s: f64,
    pub known: Vec<String>,
}

impl Summary {
    pub fn new(id: &str, tier: Tier) -> Summary {
        Summary {
            id: id.to_string(),
            tier,
            executions: 0,
            states: 0,
            transitions: 0,
            outcomes: 0,
            exhaustive: true,
            samples: vec![],
            scenes: vec![],
            violations: 0,
            wall_s: 0.0,
            known: vec![],
        }
    }

    pub fn add(&mut self, s: SceneStats) {
        self.executions += s.executions;
        self.states += s.states;
        self.transitions += s.transitions;
        self.outcomes += s.outcomes;
        self.exhaustive &= s.exhausted;
        self.samples.extend(s.samples.iter().cloned());
        self.scenes.push(s);
    }

    pub fn write(&self, prop: &Prop) {
        let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
        let mut o = String::from("{\n");
        let _ = writeln!(o, " \"property\": {},", jstr(&self.id));
        let _ = writeln!(o, " \"tier\": {},", jstr(self.tier.name()));
        let _ = writeln!(o, " \"seed\": {},", seed);
        let _ = writeln!(o, " \"level\": \"model_checking\",");
        let _ = writeln!(o, " \"coverage\": {{");
        let _ = writeln!(o, "  \"states\": {},", self.states);
        let _ = writeln!(o, "  \"transitions\": {},", self.transitions);
        // every explored execution runs the reference model and the real code
        // side by side, so each one is a model trace validated against it
        let _ = writeln!(o, "  \"traces_validated_against_impl\": {},", self.executions);
        let _ = writeln!(o, "  \"distinct_observed_outcomes\": {},", self.outcomes);
        let _ = writeln!(o, "  \"exhaustive\": {},", self.exhaustive);
        let _ = writeln!(
            o,
            "  \"explanation\": {},",
            jstr("stateless exploration of the real code: every alternative of every choice point of each scene is executed once (no sampling); states = distinct canonical model states reached, transitions = packets/events/calls executed on the implementation, traces = complete executions compared with the reference model")
        );
        let _ = writeln!(o, "  \"scenes\": [");
        for (i, s) in self.scenes.iter().enumerate() {
            let _ = writeln!(
                o,
                "   {{\"name\": {}, \"executions\": {}, \"states\": {}, \"transitions\": {}, \"outcomes\": {}, \"max_choice_depth\": {}, \"exhausted\": {}, \"wall_s\": {:.3}}}{}",
                jstr(&s.name),
                s.executions,
                s.states,
                s.transitions,
                s.outcomes,
                s.max_choices,
                s.exhausted,
                s.wall_s,
                if i + 1 < self.scenes.len() { "," } else { "" }
            );
        }
        let _ = writeln!(o, "  ],");
        let _ = writeln!(
            o,
            "  \"known_findings_seen\": [{}],",
            self.known.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", ")
        );
        let _ = writeln!(
            o,
            "  \"samples\": [{}]",
            self.samples.iter().take(12).map(|s| jstr(s)).collect::<Vec<_>>().join(",\n   ")
        );
        let _ = writeln!(o, " }},");
        let _ = writeln!(
            o,
            " \"assumptions\": [{}],",
            prop.assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", ")
        );
        let _ = writeln!(o, " \"violations\": {},", self.violations);
        let _ = writeln!(o, " \"wall_s\": {:.3}", self.wall_s);
        let _ = writeln!(o, "}}");
        let _ = std::fs::create_dir_all("evidence");
        std::fs::write(format!("evidence/{}.json", self.id), o).expect("write evidence");
    }
}
