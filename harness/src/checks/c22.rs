//! C22: wave shaper
use crate::capture::*;
use crate::rig::*;
use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::{Arc, Mutex};
use web_audio_api::node::*;

const QUANTA: usize = 5;

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Plain {
    sr: f32,
    input: Input,
    count: usize,
    mode: Mode,
    speakers: bool,
    curve: Option<Vec<f32>>,
    /// set the curve at construction, afterwards, or when this many quanta have been rendered
    when: Option<usize>,
}

fn curve() -> BoxedStrategy<Vec<f32>> {
    let v = || prop_oneof![3 => -1f32..=1., 1 => -4f32..4., 1 => Just(0f32)];
    prop_oneof![
        4 => proptest::collection::vec(v(), 2..=9),
        1 => proptest::collection::vec(v(), 1..=1),
        1 => Just(vec![]),
        // odd symmetry: zero stays zero
        2 => proptest::collection::vec(v(), 1..=4).prop_map(|h| {
            let mut c: Vec<f32> = h.iter().rev().map(|v| -v).collect();
            c.push(0.);
            c.extend(h);
            c
        }),
        1 => (10usize..3000, any::<u16>()).prop_map(|(n, s)| (0..n).map(|i| noise(s as u32, 0, i)).collect()),
    ]
    .boxed()
}

fn plain_strategy() -> BoxedStrategy<Plain> {
    (
        sample_rate(),
        input(channels_small, QUANTA),
        (1usize..=6, mode(), any::<bool>()),
        prop::option::weighted(0.95, curve()),
        prop::option::weighted(0.7, 0..QUANTA),
    )
        .prop_map(|(sr, input, (count, mode, speakers), curve, when)| Plain {
            sr,
            input,
            count,
            mode,
            speakers,
            curve,
            when,
        })
        .boxed()
}

fn shape(curve: &[f32], x: f64) -> f64 {
    if curve.is_empty() {
        return 0.;
    }
    let n = curve.len();
    let v = (n - 1) as f64 / 2. * (x + 1.);
    if v <= 0. {
        curve[0] as f64
    } else if v >= (n - 1) as f64 {
        curve[n - 1] as f64
    } else {
        let k = v.floor();
        let f = v - k;
        (1. - f) * curve[k as usize] as f64 + f * curve[k as usize + 1] as f64
    }
}

fn check_plain(case: &Plain, obs: &mut Obs) -> CaseResult {
    let mut ctx = offline(1, QUANTA * RQ, case.sr);
    let opts = node_opts(case.count, case.mode, case.speakers);
    let mut node = WaveShaperNode::new(
        &ctx,
        WaveShaperOptions {
            curve: if case.when.is_none() {
                case.curve.clone()
            } else {
                None
            },
            oversample: OverSampleType::None,
            audio_node_options: opts.clone(),
        },
    );
    let (_src, _cap, input) = feed(&ctx, &case.input, &node, opts);
    let (_cap2, output) = observe(&ctx, &node, 0);
    let mut from = 0;
    let node = match (&case.curve, case.when) {
        (Some(c), Some(0)) => {
            node.set_curve(c.clone());
            Arc::new(Mutex::new(node))
        }
        (Some(c), Some(q)) => {
            from = q;
            let node = Arc::new(Mutex::new(node));
            let (n, c) = (node.clone(), c.clone());
            ctx.suspend_sync(
                (q * RQ) as f64 / case.sr as f64 - 32. / case.sr as f64,
                move |_| {
                    n.lock().unwrap().set_curve(c);
                },
            );
            node
        }
        _ => Arc::new(Mutex::new(node)),
    };
    let _ = ctx.start_rendering_sync();
    ensure!(
        node.lock().unwrap().curve() == case.curve.as_deref(),
        "the curve reads back differently"
    );
    let input = blocks(&input);
    let expect: Vec<Vec<Vec<f64>>> = input
        .iter()
        .enumerate()
        .map(|(q, b)| {
            b.iter()
                .map(|c| {
                    c.iter()
                        .map(|v| match &case.curve {
                            Some(curve) if q >= from => shape(curve, *v as f64),
                            _ => *v as f64,
                        })
                        .collect()
                })
                .collect()
        })
        .collect();
    let (mut step, mut top) = (0f32, 0f32);
    if let Some(c) = &case.curve {
        step = c.windows(2).fold(0f32, |m, w| m.max((w[1] - w[0]).abs()));
        top = c.iter().fold(0f32, |m, v| m.max(v.abs()));
        obs.label_if(shape(c, 0.).abs() > 1e-6, "curve does not map zero to zero");
        obs.label_if(c.len() > 9, "long curve");
        obs.label_if(c.len() < 2, "curve of less than two points");
    }
    let n = case.curve.as_ref().map(|c| c.len()).unwrap_or(0) as f64;
    obs.nontrivial_if(top > 0. || case.curve.is_none());
    obs.label_if(case.curve.is_none(), "no curve");
    obs.label_if(from > 0, "curve set while rendering");
    obs.label_if(
        input.iter().flatten().flatten().any(|v| v.abs() > 1.),
        "input beyond the curve",
    );
    obs.label_if(input.iter().any(|b| b.len() > 1), "several channels");
    let tol = 1e-6 * top as f64 + 4e-7 * n * step as f64 + 1.1e-9;
    obs.comparisons += compare_blocks("output", &blocks(&output), &expect, tol, 0.)?;
    Ok(())
}

/// Smooth curves and smooth signals: oversampling only delays
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Over {
    sr: f32,
    input: Input,
    four: bool,
    /// polynomial coefficients
    poly: [f32; 4],
    /// set the oversampling after construction
    late: bool,
    explicit: bool,
}

const OVER_QUANTA: usize = 16;

fn over_strategy() -> BoxedStrategy<Over> {
    let part = || {
        (
            1usize..=2,
            16u32..200,
            300usize..900,
            0.1f32..1.,
            512usize..1600,
        )
            .prop_map(|(channels, p, len, amp, at)| Part {
                sig: Sig {
                    channels,
                    len: len.max(p as usize * 3),
                    kind: SigKind::Burst(p),
                    amp,
                },
                at,
            })
    };
    (
        sample_rate(),
        proptest::collection::vec(part(), 1..=2),
        any::<bool>(),
        1usize..=2,
        (
            prop_oneof![Just(0f32), -0.5f32..0.5],
            -1f32..1.,
            prop_oneof![Just(0f32), -0.5f32..0.5],
            prop_oneof![Just(0f32), -0.5f32..0.5],
        ),
        any::<bool>(),
        any::<bool>(),
    )
        .prop_map(|(sr, mut parts, four, n, p, late, explicit)| {
            parts.iter_mut().for_each(|p| p.sig.channels = n);
            Over {
                sr,
                input: Input { parts },
                four,
                poly: [p.0, p.1, p.2, p.3],
                late,
                // a changed number of channels restarts the resamplers
                explicit: explicit || p.0 != 0.,
            }
        })
        .boxed()
}

fn poly(p: &[f32; 4], x: f64) -> f64 {
    p[0] as f64 + x * (p[1] as f64 + x * (p[2] as f64 + x * p[3] as f64))
}

/// Delay of the resamplers in frames
const LATENCY: [usize; 2] = [128, 128];

fn check_over(case: &Over, obs: &mut Obs) -> CaseResult {
    let mut ctx = offline(1, OVER_QUANTA * RQ, case.sr);
    let opts = node_opts(
        2,
        if case.explicit {
            Mode::Explicit
        } else {
            Mode::Max
        },
        true,
    );
    let curve: Vec<f32> = (0..4001)
        .map(|i| poly(&case.poly, i as f64 / 2000. - 1.) as f32)
        .collect();
    let over = if case.four {
        OverSampleType::X4
    } else {
        OverSampleType::X2
    };
    let mut node = WaveShaperNode::new(
        &ctx,
        WaveShaperOptions {
            curve: Some(curve),
            oversample: if case.late {
                OverSampleType::None
            } else {
                over
            },
            audio_node_options: opts.clone(),
        },
    );
    if case.late {
        node.set_oversample(over);
    }
    let (_src, _cap, input) = feed(&ctx, &case.input, &node, opts);
    let (_cap2, output) = observe(&ctx, &node, 0);
    let _ = ctx.start_rendering_sync();
    let input = blocks(&input);
    if input.iter().flatten().flatten().any(|v| v.abs() > 0.99) {
        obs.label("clipping (skipped)");
        return Ok(());
    }
    let flat = |b: &[Vec<Vec<f32>>], c: usize| -> Vec<f64> {
        b.iter()
            .flat_map(|q| {
                if q.len() == 2 {
                    q[c].clone()
                } else {
                    q[0].clone()
                }
            })
            .map(|v| v as f64)
            .collect()
    };
    let out = blocks(&output);
    for (k, (i, o)) in input.iter().zip(&out).enumerate() {
        ensure!(
            zero(i) || zero(o) || i.len() == o.len(),
            "quantum {k}: {} channels, expected {}",
            o.len(),
            i.len()
        );
    }
    let d = LATENCY[case.four as usize];
    let scale = case.poly.iter().map(|v| v.abs()).sum::<f32>() as f64;
    for c in 0..2 {
        let (x, y) = (flat(&input, c), flat(&out, c));
        for i in 4 * RQ..OVER_QUANTA * RQ {
            let e = poly(&case.poly, x[i - d]);
            obs.comparisons += 1;
            obs.nontrivial_if(x[i - d] != 0. && scale > 0.);
            ensure!(
                (y[i] - e).abs() <= 2e-3 * scale.max(1e-3),
                "channel {c} frame {i}: rendered {}, expected {e} (the shaped input of {d} frames before)",
                y[i]
            );
        }
    }
    obs.label_if(case.four, "4x");
    obs.label_if(case.input.parts.len() > 1, "two bursts");
    obs.label_if(case.poly[0] != 0., "curve does not map zero to zero");
    Ok(())
}

pub fn run(r: &mut Runner) {
    r.rule = "plain: the curve is not all zero (or there is none); over: a non-zero smooth input sample is shaped by a non-zero curve".into();
    r.assumptions = vec![
        "the mixed input is what a custom processor with the same channel options receives".into(),
        "tolerance: 1e-6 of the curve's peak plus 4e-7 of the largest step between neighbouring points times the number of points (single precision position)".into(),
        "oversampling: smooth bursts with a period of at least 16 frames and cubic polynomials sampled at 4001 points, so that no aliasing is possible; output compared with the plain curve at the latency of the resamplers".into(),
    ];
    r.suite("plain", 400_000, 2_000_000, plain_strategy, check_plain);
    r.suite("over", 50_000, 200_000, over_strategy, check_over);
}
