//! C23: stereo panner
use crate::capture::*;
use crate::rig::*;
use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::f64::consts::FRAC_PI_2;
use web_audio_api::node::*;

const QUANTA: usize = 5;

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    sr: f32,
    input: Input,
    count: usize,
    explicit: bool,
    speakers: bool,
    pan: Auto,
}

fn pan_value() -> BoxedStrategy<f32> {
    prop_oneof![
        4 => -1f32..=1.,
        1 => Just(0f32),
        1 => Just(1f32),
        1 => Just(-1f32),
        1 => -1e-3f32..1e-3,
        1 => prop_oneof![-3f32..-1., 1f32..3.],
    ]
    .boxed()
}

fn strategy() -> BoxedStrategy<Case> {
    (
        sample_rate(),
        input(channels32, QUANTA),
        1usize..=2,
        any::<bool>(),
        any::<bool>(),
        auto(pan_value, 0.1..2., QUANTA * RQ, false, true),
    )
        .prop_map(|(sr, input, count, explicit, speakers, pan)| Case {
            sr,
            input,
            count,
            explicit,
            speakers,
            pan,
        })
        .boxed()
}

fn pan(frame: &[f64], p: f64) -> [f64; 2] {
    if frame.len() == 1 {
        let x = (p + 1.) / 2.;
        [
            frame[0] * (x * FRAC_PI_2).cos(),
            frame[0] * (x * FRAC_PI_2).sin(),
        ]
    } else {
        let (l, r) = (frame[0], frame[1]);
        if p <= 0. {
            let x = p + 1.;
            [l + r * (x * FRAC_PI_2).cos(), r * (x * FRAC_PI_2).sin()]
        } else {
            [l * (p * FRAC_PI_2).cos(), r + l * (p * FRAC_PI_2).sin()]
        }
    }
}

fn check(case: &Case, obs: &mut Obs) -> CaseResult {
    let mut ctx = offline(1, QUANTA * RQ, case.sr);
    let mode = if case.explicit {
        Mode::Explicit
    } else {
        Mode::ClampedMax
    };
    let opts = node_opts(case.count, mode, case.speakers);
    let node = StereoPannerNode::new(
        &ctx,
        StereoPannerOptions {
            pan: 0.3,
            audio_node_options: opts.clone(),
        },
    );
    let driven = Driven::new(&ctx, &case.pan, node.pan());
    let (_src, _cap, input) = feed(&ctx, &case.input, &node, opts);
    let (_cap2, output) = observe(&ctx, &node, 0);
    let _ = ctx.start_rendering_sync();
    let input = blocks(&input);
    let pans = driven.values();
    let expect: Vec<Vec<Vec<f64>>> = input
        .iter()
        .zip(&pans)
        .map(|(b, p)| {
            let mut out = vec![vec![0.; RQ]; 2];
            for i in 0..RQ {
                let frame: Vec<f64> = b.iter().map(|c| c[i] as f64).collect();
                let [l, r] = pan(&frame, p[i] as f64);
                out[0][i] = l;
                out[1][i] = r;
            }
            out
        })
        .collect();
    let scale = input
        .iter()
        .flatten()
        .flatten()
        .fold(0f32, |m, v| m.max(v.abs())) as f64;
    obs.nontrivial_if(scale > 0.);
    obs.label_if(input.iter().any(|b| b.len() == 2), "stereo");
    obs.label_if(input.iter().any(|b| b.len() == 1 && !zero(b)), "mono");
    obs.label_if(!case.pan.is_constant(), "automated pan");
    obs.label_if(case.pan.k_rate, "control rate");
    obs.comparisons += compare_blocks("output", &blocks(&output), &expect, 1e-6 * scale, 1e-6)?;
    Ok(())
}

pub fn run(r: &mut Runner) {
    r.rule = "some sample of the mixed input is not zero".into();
    r.assumptions = vec![
        "the mixed input and the pan values are those a custom processor with the same channel options and parameter automation receives at the same time (their correctness is the subject of C02 and C11-C13)".into(),
        "tolerance 1e-6 of the input's peak".into(),
    ];
    r.suite("pan", 500_000, 2_000_000, strategy, check);
}
