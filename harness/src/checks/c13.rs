//! C13: cancelling and rescheduling automation
use crate::automation::*;
use crate::checks::c11::{check, sample_rates, Case};
use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;

const QUANTA: usize = 6;

fn before() -> BoxedStrategy<Case> {
    (
        sample_rates(),
        any::<bool>(),
        proptest::option::of(any_value()),
        proptest::collection::vec(any_call(0, QUANTA * RQ + 100), 2..9),
    )
        .prop_map(|(sr, k_rate, base, calls)| Case {
            sr,
            k_rate,
            base,
            calls: vec![(0, calls)],
        })
        .boxed()
}

fn during() -> BoxedStrategy<Case> {
    let later = (1..QUANTA).prop_flat_map(|q| {
        let call = prop_oneof![
            5 => any_call(q * RQ, QUANTA * RQ + 100),
            1 => any_value().prop_map(Call::Value),
        ];
        proptest::collection::vec(call, 1..4).prop_map(move |c| (q, c))
    });
    (
        sample_rates(),
        any::<bool>(),
        proptest::option::of(any_value()),
        proptest::collection::vec(any_call(0, QUANTA * RQ + 100), 0..6),
        proptest::collection::vec(later, 1..3),
    )
        .prop_map(|(sr, k_rate, base, calls, later)| {
            let mut all = vec![(0, calls)];
            all.extend(later);
            Case {
                sr,
                k_rate,
                base,
                calls: all,
            }
        })
        .boxed()
}

fn judge(case: &Case, obs: &mut Obs) -> CaseResult {
    let all = || case.calls.iter().flat_map(|c| &c.1);
    obs.label_if(all().any(|c| matches!(c, Call::Cancel(_))), "cancelled");
    obs.label_if(all().any(|c| matches!(c, Call::Hold(_))), "held");
    obs.label_if(
        case.calls
            .iter()
            .any(|c| c.0 > 0 && c.1.iter().any(|c| matches!(c, Call::Value(_)))),
        "value set while rendering",
    );
    check(case, QUANTA, obs)
}

pub fn run(r: &mut Runner) {
    r.rule = "at least two valid calls and a value that changes while rendering".into();
    r.assumptions = vec![
        "an event between two frames may be applied at either of them".into(),
        "events are scheduled at or after the time of the call, and after the last hold".into(),
        "values up to 1e6".into(),
    ];
    r.suite("before", 500_000, 5_000_000, before, judge);
    r.suite("during", 500_000, 5_000_000, during, judge);
}
