//! C20: IIR filter
use crate::capture::*;
use crate::rig::*;
use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::f64::consts::PI;
use web_audio_api::context::*;
use web_audio_api::node::*;

const QUANTA: usize = 6;

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    sr: f32,
    input: Input,
    feedforward: Vec<f64>,
    feedback: Vec<f64>,
    drop: bool,
    factory: bool,
    /// fractions of the Nyquist frequency at which the response is queried
    at: Vec<f32>,
}

/// Coefficients of a polynomial with the given roots: pairs (radius, angle), plus one real root
fn from_roots(pairs: &[(f64, f64)], real: Option<f64>, gain: f64) -> Vec<f64> {
    let mut p = vec![gain];
    let times = |p: &[f64], f: &[f64]| {
        let mut o = vec![0.; p.len() + f.len() - 1];
        for (i, a) in p.iter().enumerate() {
            for (j, b) in f.iter().enumerate() {
                o[i + j] += a * b;
            }
        }
        o
    };
    for (r, t) in pairs {
        p = times(&p, &[1., -2. * r * t.cos(), r * r]);
    }
    if let Some(r) = real {
        p = times(&p, &[1., -r]);
    }
    p
}

fn gain() -> BoxedStrategy<f64> {
    prop_oneof![2 => Just(1f64), 2 => 0.1f64..10., 1 => -4f64..-0.1].boxed()
}

fn feedback() -> BoxedStrategy<Vec<f64>> {
    prop_oneof![
        // stable of any order
        4 => (proptest::collection::vec((0f64..0.93, 0f64..PI), 0..=9), prop::option::of(-0.95f64..0.95), gain())
            .prop_map(|(p, r, g)| from_roots(&p, r, g)),
        // resonant or unstable, low order
        2 => (proptest::collection::vec((0.9f64..1.02, 0f64..PI), 0..=2), prop::option::of(-1.05f64..1.05), gain())
            .prop_map(|(p, r, g)| from_roots(&p, r, g)),
        // echoes
        1 => (1usize..=19, -0.95f64..0.95, gain()).prop_map(|(n, a, g)| {
            let mut v = vec![0.; n];
            v[0] = g;
            v.push(a * g);
            v
        }),
        1 => (proptest::collection::vec(-1f64..1., 0..4), gain()).prop_map(|(mut v, g)| {
            v.insert(0, g);
            v
        }),
    ]
    .boxed()
}

fn feedforward() -> BoxedStrategy<Vec<f64>> {
    let c = || prop_oneof![4 => -2f64..2., 1 => Just(0f64)];
    prop_oneof![
        3 => proptest::collection::vec(c(), 1..=4),
        1 => proptest::collection::vec(c(), 5..=20),
    ]
    .prop_map(|mut v| {
        if v.iter().all(|c| *c == 0.) {
            *v.last_mut().unwrap() = 1.;
        }
        v
    })
    .boxed()
}

fn strategy() -> BoxedStrategy<Case> {
    let channels = input_layouts(QUANTA);
    (
        sample_rate(),
        channels,
        feedforward(),
        feedback(),
        any::<bool>(),
        any::<bool>(),
        proptest::collection::vec(prop_oneof![8 => 0f32..=1., 1 => Just(0f32), 1 => Just(1f32), 1 => 1.00001f32..3., 1 => -1f32..-1e-6], 0..6),
    )
        .prop_map(|(sr, input, feedforward, feedback, drop, factory, at)| Case {
            sr,
            input,
            feedforward,
            feedback,
            drop,
            factory,
            at,
        })
        .boxed()
}

fn check(case: &Case, obs: &mut Obs) -> CaseResult {
    let mut ctx = offline(1, QUANTA * RQ, case.sr);
    let nyquist = case.sr / 2.;
    let node = if case.factory {
        ctx.create_iir_filter(case.feedforward.clone(), case.feedback.clone())
    } else {
        IIRFilterNode::new(
            &ctx,
            IIRFilterOptions {
                feedforward: case.feedforward.clone(),
                feedback: case.feedback.clone(),
                audio_node_options: AudioNodeOptions::default(),
            },
        )
    };

    // frequency response
    let hz: Vec<f32> = case.at.iter().map(|f| f * nyquist).collect();
    let (mut mag, mut phase) = (vec![7f32; hz.len()], vec![7f32; hz.len()]);
    node.get_frequency_response(&hz, &mut mag, &mut phase);
    for (i, &h) in hz.iter().enumerate() {
        obs.comparisons += 1;
        if h < 0. || h > nyquist {
            ensure!(
                mag[i].is_nan() && phase[i].is_nan(),
                "response at {h} Hz is not NaN: {} {}",
                mag[i],
                phase[i]
            );
            continue;
        }
        let w = PI * h as f64 / nyquist as f64;
        let poly = |c: &[f64]| {
            c.iter().enumerate().fold([0f64; 2], |s, (k, c)| {
                [
                    s[0] + c * (k as f64 * w).cos(),
                    s[1] - c * (k as f64 * w).sin(),
                ]
            })
        };
        let (n, d) = (poly(&case.feedforward), poly(&case.feedback));
        let dd = d[0] * d[0] + d[1] * d[1];
        let weight: f64 = case.feedback.iter().map(|c| c.abs()).sum();
        if dd.sqrt() < 1e-7 * weight {
            obs.label("response at a pole (skipped)");
            continue;
        }
        let e = [
            (n[0] * d[0] + n[1] * d[1]) / dd,
            (n[1] * d[0] - n[0] * d[1]) / dd,
        ];
        let size = e[0].hypot(e[1]);
        let got = [
            mag[i] as f64 * (phase[i] as f64).cos(),
            mag[i] as f64 * (phase[i] as f64).sin(),
        ];
        let sum: f64 = case.feedforward.iter().map(|c| c.abs()).sum();
        let tol = 1e-6 * size + 1e-9 * sum / dd.sqrt() + 1e-9 * size * weight / dd.sqrt();
        ensure!(
            (got[0] - e[0]).hypot(got[1] - e[1]) <= tol && mag[i] >= 0. && phase[i].abs() <= 3.1416,
            "response at {h} Hz: magnitude {} phase {}, expected {} {}",
            mag[i],
            phase[i],
            size,
            e[1].atan2(e[0])
        );
    }

    let (src, _cap, input) = feed(&ctx, &case.input, &node, AudioNodeOptions::default());
    let (_cap2, output) = observe(&ctx, &node, 0);
    let keep = if case.drop { None } else { Some((src, node)) };
    let _ = ctx.start_rendering_sync();
    drop(keep);
    let input = blocks(&input);
    let got = blocks(&output);
    ensure!(got.len() == QUANTA, "{} quanta", got.len());
    // channels that are always there
    let channels = case.input.common_channels();
    let uniform = case.input.uniform();
    let x: Vec<Vec<f64>> = (0..channels)
        .map(|c| {
            input
                .iter()
                .flat_map(|b| {
                    if b.len() > c {
                        b[c].clone()
                    } else {
                        vec![0.; RQ]
                    }
                })
                .map(|v| v as f64)
                .collect()
        })
        .collect();
    let (b, a) = (&case.feedforward, &case.feedback);
    let mut heard = false;
    for c in 0..channels {
        let mut y = vec![0f64; QUANTA * RQ];
        let mut peak = peak(
            &case
                .input
                .parts
                .iter()
                .flat_map(|p| p.sig.data())
                .collect::<Vec<_>>(),
        ) as f64;
        for n in 0..QUANTA * RQ {
            let mut v = 0.;
            for (k, b) in b.iter().enumerate().take(n + 1) {
                v += b * x[c][n - k];
            }
            for (k, a) in a.iter().enumerate().skip(1).take(n) {
                v -= a * y[n - k];
            }
            y[n] = v / a[0];
            peak = peak.max(y[n].abs());
            if !(peak < 1e30) {
                obs.label("grows beyond 1e30 (rest skipped)");
                break;
            }
            let q = &got[n / RQ];
            ensure!(
                q.len() == channels || !uniform || zero(q),
                "quantum {}: {} channels, expected {channels}",
                n / RQ,
                q.len()
            );
            let g = if q.len() > c { q[c][n % RQ] } else { 0. };
            heard |= y[n].abs() > 1e-3 * peak && y[n].abs() > 1e-6;
            obs.comparisons += 1;
            ensure!(
                (g as f64 - y[n]).abs() <= 2e-6 * peak + 1e-6 * y[n].abs(),
                "channel {c} frame {n} (quantum {}): rendered {g:e}, expected {:e}",
                n / RQ,
                y[n]
            );
        }
    }
    obs.nontrivial_if(heard);
    obs.label_if(b.len() > a.len(), "more feedforward coefficients");
    obs.label_if(b.len() < a.len(), "more feedback coefficients");
    obs.label_if(a.len() > 10, "order above ten");
    obs.label_if(a[0] != 1., "not normalised");
    obs.label_if(channels > 1, "several channels");
    obs.label_if(!uniform, "changing layout");
    obs.label_if(case.drop, "handles dropped");
    Ok(())
}

/// Which coefficient lists are accepted
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Args {
    feedforward: Vec<f64>,
    feedback: Vec<f64>,
}

fn args() -> BoxedStrategy<Args> {
    let list = || {
        (
            prop_oneof![2 => 0usize..=3, 1 => 18usize..=24],
            proptest::collection::vec(prop_oneof![2 => Just(0f64), 1 => -2f64..2.], 24),
        )
            .prop_map(|(n, v)| v[..n].to_vec())
    };
    (list(), list())
        .prop_map(|(feedforward, feedback)| Args {
            feedforward,
            feedback,
        })
        .boxed()
}

fn check_args(case: &Args, obs: &mut Obs) -> CaseResult {
    let ctx = offline(1, 128, 48000.);
    let (b, a) = (&case.feedforward, &case.feedback);
    let valid = !b.is_empty()
        && b.len() <= 20
        && b.iter().any(|v| *v != 0.)
        && !a.is_empty()
        && a.len() <= 20
        && a[0] != 0.;
    let r = accepts(|| ctx.create_iir_filter(b.clone(), a.clone()));
    obs.nontrivial = true;
    obs.comparisons += 1;
    obs.label_if(valid, "valid");
    ensure!(
        r.is_ok() == valid,
        "accepted: {}, expected: {valid}",
        r.is_ok()
    );
    Ok(())
}

pub fn run(r: &mut Runner) {
    r.rule = "filter: some expected output sample is above 1e-6 and 1e-3 of the peak; arguments: every case".into();
    r.assumptions = vec![
        "the mixed input is what a custom processor receives at the same time".into(),
        "when the number of channels changes, only the channels that are always there are compared (the tail of the others is not specified)".into(),
        "tolerance: 2e-6 of the peak so far plus 1e-6 relative; comparison ends where an unstable filter exceeds 1e30".into(),
    ];
    r.suite("filter", 250_000, 1_000_000, strategy, check);
    r.suite("arguments", 100_000, 1_000_000, args, check_args);
}
