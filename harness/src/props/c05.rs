//! C05: what is read of the structure of a damaged container is what was written, or an error.
use super::*;
use crate::damage::*;
use crate::gen::*;
use crate::util::*;
use proptest::strategy::BoxedStrategy;

pub struct C05;

pub fn gen(group: &str, i: u64, r: &mut Rng) -> Case {
    let medium = group.starts_with("medium");
    let src = if medium { medium_source(r) } else { tiny_source(r) };
    let mode = match group {
        "sweep" => Mode::Sweep {
            file: r.below(6) as u32,
            k: i % 6 + if i % 6 == 5 { r.below(100) } else { 0 },
        },
        _ => Mode::Rand {
            seed: r.next(),
            from: 0,
            to: if medium { 60 } else { 150 },
            any: false,
        },
    };
    Case {
        src,
        mode,
        deep: r.chance(1, 2),
    }
}

impl Check for C05 {
    fn id(&self) -> &'static str {
        "C05"
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
    fn rule(&self) -> String {
        "one evaluation = everything readable is read after one alteration and compared with what was read before it; it is non-trivial when the alteration changed a byte of a file".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "alterations keep the length of the files; checksums are not recomputed (a wrong block passes a CRC-32 with probability 2^-32, which is neglected)".into(),
            "what is read before the alteration is what was written (decided by C01 to C03, C11, C14)".into(),
            "structure is: pack list and infos, uuids, sizes, versions, vendor ids, free data, indexes, layouts, entries, content counts and sizes, presence of packs".into(),
        ]
    }
    fn groups(&self, t: Tier) -> Vec<Group> {
        vec![
            Group::new("sweep", t.n(360, 20_000)),
            Group::new("rand", t.n(600, 30_000)),
            Group::new("medium", t.n(400, 20_000)),
        ]
    }
    fn strategy(&self, _t: Tier, group: &str, i: u64) -> BoxedStrategy<String> {
        let g = group.to_string();
        from_rng(move |r| gen(&g, i, r))
    }
    fn run(&self, json: &str, ctx: &Ctx) -> Outcome {
        let c: Case = case!(json);
        let p = match guard(|| c.src.place(&ctx.sub("work"), &ctx.sub("out"))) {
            Ok(Ok(p)) => p,
            Ok(Err(x)) | Err(x) => {
                let mut o = Outcome::pass();
                o.tag(format!("not created: {}", crate::util::cut(&x, 60)));
                return o;
            }
        };
        let mut out = Outcome::pass();
        out.evals = 0;
        let good = match guard(|| Probe::new(&p, c.deep).run()) {
            Ok(g) => g,
            Err(x) => {
                out.evals = 1;
                out.tag(format!("intact container not read: {}", crate::util::cut(&x, 60)));
                return out;
            }
        };
        take_panics();
        let deep = c.deep;
        let total: usize = p.files.iter().map(|f| f.bytes.len()).sum();
        let fail = each(&c.mode, &p, |step, d, changed| {
            ctx.step(step);
            out.evals += 1;
            if changed {
                out.inner_nontrivial += 1;
            }
            let got = match guard(|| Probe::new(&p, deep).run()) {
                Err(x) => return Some((step, d.clone(), "panic", x)),
                Ok(g) => g,
            };
            take_panics();
            if let Some((sig, x)) = judge(&good, &got) {
                return Some((step, d.clone(), sig, x));
            }
            let errs = got.iter().filter(|o| o.val.is_err()).count();
            out.tag(if errs > 0 {
                "with errors"
            } else if got == good {
                "nothing noticed"
            } else if got.iter().any(|o| o.kind == Kind::Check && o.val == Ok("false".into())) {
                "only a check fails"
            } else {
                "other"
            });
            None
        });
        out.nontrivial = out.inner_nontrivial > 0;
        out.tag(c.src.name());
        out.sample = Some(format!(
            "{} in {} files, {} bytes, {} observations; {:?}: {} damages",
            c.src.name(),
            p.files.len(),
            total,
            good.len(),
            c.mode,
            out.evals
        ));
        if let Some((step, d, sig, x)) = fail {
            out.step = Some(step);
            let d: Vec<String> = d.iter().map(|(k, o)| format!("{} {o:?}", p.files[*k].name)).collect();
            out.fail = Some((
                sig.into(),
                format!(
                    "after the alteration {} of a {} container of {} bytes: {x}",
                    d.join(", "),
                    c.src.name(),
                    total
                ),
            ));
        }
        out
    }
    fn reduce(&self, json: &str, step: u64) -> Option<String> {
        let c: Case = serde_json::from_str(json).ok()?;
        let mode = c.mode.reduce(step)?;
        serde_json::to_string(&Case { mode, ..c }).ok()
    }
    fn valid(&self, json: &str) -> bool {
        serde_json::from_str::<Case>(json).map(|c| c.valid()).unwrap_or(false)
    }
    fn candidates(&self, json: &str) -> Vec<String> {
        let Ok(c) = serde_json::from_str::<Case>(json) else {
            return vec![];
        };
        c.smaller().iter().map(|c| serde_json::to_string(c).unwrap()).collect()
    }
}
