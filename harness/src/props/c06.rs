//! C06: opening and reading a damaged file ends with values or errors.
use super::*;
use crate::damage::*;
use crate::gen::*;
use crate::util::*;
use proptest::strategy::BoxedStrategy;

pub struct C06;

pub fn gen(group: &str, i: u64, r: &mut Rng) -> Case {
    let medium = group.starts_with("medium");
    let src = if medium { medium_source(r) } else { tiny_source(r) };
    let mode = match group.trim_end_matches("-dbg") {
        "cuts" => Mode::Cuts { file: r.below(6) as u32 },
        "sweep" => Mode::Sweep {
            file: r.below(6) as u32,
            k: i % 6 + if i % 6 == 5 { r.below(100) } else { 0 },
        },
        "junk" => Mode::Junk {
            file: if r.chance(1, 2) { 0 } else { r.below(6) as u32 },
            style: (i % 10) as u8,
            max: 270,
        },
        _ => Mode::Rand {
            seed: r.next(),
            from: 0,
            to: if medium { 60 } else { 150 },
            any: true,
        },
    };
    Case {
        src,
        mode,
        deep: r.chance(1, 2),
    }
}

impl Check for C06 {
    fn id(&self) -> &'static str {
        "C06"
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
    fn rule(&self) -> String {
        "one evaluation = everything readable is read from the container after one damage; it is non-trivial when the damage changed the length or a byte of a file".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "only storage and transfer damage: checksums are never recomputed, so what is only reachable with a matching CRC-32 is not covered".into(),
            "a damage giving by chance a block with a matching CRC-32 is not excluded, its result is judged like the others".into(),
            "a read which does not end within the step time-out (60 s for some milliseconds of work) in two runs counts as blocked".into(),
            "files do not change while they are open".into(),
        ]
    }
    fn groups(&self, t: Tier) -> Vec<Group> {
        let mut v = vec![];
        for (bin, n) in [(Bin::Release, 0), (Bin::Checked, 1)] {
            let g = |a: &'static str, b: &'static str| if n == 0 { a } else { b };
            v.push(Group::new(g("cuts", "cuts-dbg"), t.n(100, 4000)).bin(bin).timeout(60));
            v.push(Group::new(g("sweep", "sweep-dbg"), t.n(150, 6000)).bin(bin).timeout(60));
            v.push(Group::new(g("junk", "junk-dbg"), t.n(30, 600)).bin(bin).timeout(60));
            v.push(Group::new(g("rand", "rand-dbg"), t.n(400, 20_000)).bin(bin).timeout(60));
            v.push(Group::new(g("medium", "medium-dbg"), t.n(240, 10_000)).bin(bin).timeout(60));
        }
        v
    }
    fn strategy(&self, _t: Tier, group: &str, i: u64) -> BoxedStrategy<String> {
        let g = group.to_string();
        from_rng(move |r| gen(&g, i, r))
    }
    fn run(&self, json: &str, ctx: &Ctx) -> Outcome {
        let c: Case = case!(json);
        let p = match guard(|| c.src.place(&ctx.sub("work"), &ctx.sub("out"))) {
            Ok(Ok(p)) => p,
            Ok(Err(x)) | Err(x) => {
                let mut o = Outcome::pass();
                o.tag(format!("not created: {}", crate::util::cut(&x, 60)));
                return o;
            }
        };
        let mut out = Outcome::pass();
        out.evals = 0;
        let good = match guard(|| Probe::new(&p, c.deep).run()) {
            Ok(g) => g,
            Err(x) => {
                out.evals = 1;
                out.tag(format!("intact container not read: {}", crate::util::cut(&x, 60)));
                return out;
            }
        };
        take_panics();
        let deep = c.deep;
        let total: usize = p.files.iter().map(|f| f.bytes.len()).sum();
        let fail = each(&c.mode, &p, |step, d, changed| {
            ctx.step(step);
            out.evals += 1;
            if changed {
                out.inner_nontrivial += 1;
            }
            let got = guard(|| Probe::new(&p, deep).run());
            let late = take_panics();
            let bad = match &got {
                Err(x) => Some(x.clone()),
                Ok(_) => late.first().cloned(),
            };
            if let Some(x) = bad {
                return Some((step, d.clone(), x));
            }
            let got = got.unwrap();
            let errs = got.iter().filter(|o| o.val.is_err()).count();
            out.tag(if errs > 0 {
                "with errors"
            } else if got == good {
                "nothing noticed"
            } else {
                "only values"
            });
            None
        });
        out.nontrivial = out.inner_nontrivial > 0;
        out.tag(c.src.name());
        out.sample = Some(format!(
            "{} in {} files, {} bytes, {} observations; {:?}: {} damages",
            c.src.name(),
            p.files.len(),
            total,
            good.len(),
            c.mode,
            out.evals
        ));
        if let Some((step, d, x)) = fail {
            out.step = Some(step);
            let d: Vec<String> = d.iter().map(|(k, o)| format!("{} {o:?}", p.files[*k].name)).collect();
            out.fail = Some((
                "panic".into(),
                format!(
                    "after the damage {} of a {} container of {} bytes: {x}",
                    d.join(", "),
                    c.src.name(),
                    total
                ),
            ));
        }
        out
    }
    fn reduce(&self, json: &str, step: u64) -> Option<String> {
        let c: Case = serde_json::from_str(json).ok()?;
        let mode = c.mode.reduce(step)?;
        serde_json::to_string(&Case { mode, ..c }).ok()
    }
    fn valid(&self, json: &str) -> bool {
        serde_json::from_str::<Case>(json).map(|c| c.valid()).unwrap_or(false)
    }
    fn candidates(&self, json: &str) -> Vec<String> {
        let Ok(c) = serde_json::from_str::<Case>(json) else {
            return vec![];
        };
        c.smaller().iter().map(|c| serde_json::to_string(c).unwrap()).collect()
    }
}
