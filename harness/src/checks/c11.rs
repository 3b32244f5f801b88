//! C11: timeline of automation events
use crate::automation::*;
use crate::rig::*;
use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

const QUANTA: usize = 6;

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    pub sr: f32,
    pub k_rate: bool,
    pub base: Option<f32>,
    /// calls before the quantum with this number
    pub calls: Vec<(usize, Vec<Call>)>,
}

pub fn sample_rates() -> BoxedStrategy<f32> {
    prop_oneof![2 => Just(32768f32), 1 => sample_rate()].boxed()
}

fn strategy() -> BoxedStrategy<Case> {
    (
        sample_rates(),
        any::<bool>(),
        proptest::option::of(any_value()),
        proptest::collection::vec(schedule(0, QUANTA * RQ + 100), 1..7),
    )
        .prop_map(|(sr, k_rate, base, calls)| Case {
            sr,
            k_rate,
            base,
            calls: vec![(0, calls)],
        })
        .boxed()
}

fn kinds(calls: &[Call]) -> usize {
    let mut k = [false; 6];
    for c in calls {
        match c {
            Call::Value(_) => k[0] = true,
            Call::Set(..) => k[1] = true,
            Call::Lin(..) => k[2] = true,
            Call::Exp(..) => k[3] = true,
            Call::Target(..) => k[4] = true,
            Call::Curve(..) => k[5] = true,
            _ => (),
        }
    }
    k.iter().filter(|k| **k).count()
}

pub fn check(case: &Case, quanta: usize, obs: &mut Obs) -> CaseResult {
    let sr = case.sr as f64;
    let exact = case.sr == 32768.;
    let mut ctx = offline(1, quanta * RQ, case.sr);
    let auto = Auto {
        base: case.base.unwrap_or(0.),
        k_rate: case.k_rate,
        events: vec![],
        modulation: None,
    };
    let probe = match case.base {
        Some(_) => Probe::new(&ctx, &auto),
        None => Probe::bare(&ctx, case.k_rate),
    };

    // model
    let mut line = Timeline::new(0.);
    if let Some(b) = case.base {
        line.call(&Call::Value(b), 0.);
    }
    let mut expect: Vec<Vec<Range>> = vec![];
    let mut unsure = quanta;
    let mut used = 0;
    let mut all = vec![];
    for q in 0..quanta {
        let now = (q * RQ) as f64;
        let mut valid = vec![];
        for (_, calls) in case.calls.iter().filter(|c| c.0 == q) {
            for c in calls {
                if line.valid(c, now, sr) {
                    line.call(c, now);
                    valid.push(c.clone());
                }
            }
        }
        line.quantum(now, RQ as f64);
        if line.unsure() {
            unsure = unsure.min(q);
        }
        expect.push(line.frames(q * RQ, RQ, exact));
        used += valid.len();
        all.extend(valid.iter().cloned());
        if q == 0 {
            for c in &valid {
                c.apply(probe.param(), sr);
            }
        } else if !valid.is_empty() {
            let p = probe.param().clone();
            ctx.suspend_sync((q * RQ - 64) as f64 / sr, move |_| {
                for c in &valid {
                    c.apply(&p, sr);
                }
            });
        }
    }
    let _ = ctx.start_rendering_sync();
    let got = probe.values(f32::MIN, f32::MAX);
    ensure!(
        got.len() == quanta,
        "{} of {quanta} quanta rendered",
        got.len()
    );
    for q in 0..unsure {
        for i in 0..RQ {
            // at control rate the first value counts
            let r = expect[q][if case.k_rate { 0 } else { i }];
            let v = got[q][i] as f64;
            let slack = 1e-7;
            obs.comparisons += 1;
            ensure!(
                v >= r.lo - slack && v <= r.hi + slack,
                "frame {} (quantum {q}): value {v:e}, expected {:e}..{:e}",
                q * RQ + i,
                r.lo,
                r.hi
            );
        }
    }
    obs.label_if(
        unsure < quanta,
        "start of exponential ramp uncertain (rest skipped)",
    );
    obs.label_if(case.k_rate, "control rate");
    obs.label_if(kinds(&all) >= 3, "three or more kinds of events");
    let sorted = all
        .iter()
        .filter_map(|c| match c {
            Call::Set(t, _) | Call::Lin(t, _) | Call::Exp(t, _) | Call::Target(t, _, _) => Some(*t),
            Call::Curve(t, _, _) => Some(*t),
            _ => None,
        })
        .collect::<Vec<_>>()
        .windows(2)
        .all(|w| w[0] <= w[1]);
    obs.label_if(!sorted, "scheduled out of order");
    let moves = expect
        .iter()
        .flatten()
        .map(|r| r.lo)
        .fold((f64::MAX, f64::MIN), |a, v| (a.0.min(v), a.1.max(v)));
    obs.nontrivial_if(used >= 2 && moves.1 - moves.0 > 1e-3 && unsure > 0);
    Ok(())
}

pub fn run(r: &mut Runner) {
    r.rule = "at least two valid calls and a value that changes while rendering".into();
    r.assumptions = vec![
        "an event between two frames may be applied at either of them".into(),
        "values up to 1e6".into(),
        "events at the same time are applied in the order of the calls".into(),
    ];
    r.suite(
        "timeline",
        1_000_000,
        10_000_000,
        strategy,
        |c: &Case, obs| check(c, QUANTA, obs),
    );
}
