//! C28: no failures and only finite samples
use crate::program::*;
use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;

fn strategy() -> BoxedStrategy<Program> {
    let shape = |wild, loops| Shape {
        profile: Profile::All,
        max_quanta: 20,
        drops: true,
        loops,
        wild,
        sr: sample_rate,
    };
    prop_oneof![
        1 => program(shape(false, true)),
        3 => program(shape(true, false)),
        1 => program(shape(true, true)),
    ]
    .boxed()
}

fn check(p: &Program, obs: &mut Obs) -> CaseResult {
    let r = render(p, &Run::default());
    // with feedback or changing filters extreme values may add up beyond what can be represented
    let moving = p
        .ops
        .iter()
        .any(|(_, o)| matches!(o, Op::Automate(..) | Op::Modulate(..) | Op::Attr(..)));
    let filters = p
        .ops
        .iter()
        .any(|(_, o)| matches!(o, Op::Create(Spec::Biquad(..))));
    // a loop that modulates its own gain squares its signal with every turn
    let modulated = p.ops.iter().any(|(_, o)| matches!(o, Op::Modulate(..)));
    let bounded = !(p.wild && moving && filters) && !(p.loops && (p.wild || modulated));
    for (c, d) in r.data.iter().enumerate() {
        for (i, v) in d.iter().enumerate() {
            if bounded {
                ensure!(v.is_finite(), "channel {c} frame {i}: {v}");
            }
            obs.comparisons += 1;
        }
    }
    obs.nontrivial_if(peak(&r.data) > 1e-4);
    obs.label_if(p.wild, "extreme values");
    obs.label_if(bounded, "must be finite");
    Ok(())
}

pub fn run(r: &mut Runner) {
    r.rule = "generated programs of all kinds of nodes with moderate and extreme accepted settings, automation, modulation, attribute changes, loops with delays and dropped handles; no panic on any thread (a caught failure of a processor counts) and only finite samples; non-trivial: audible output".into();
    r.assumptions = vec!["with extreme settings, loops and changing recursive filters may grow beyond what can be represented: then only panics count; the same holds for loops with modulated params".into()];
    r.suite("programs", 60_000, 2_000_000, strategy, check);
}
