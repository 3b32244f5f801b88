//! C18: delay node
use crate::capture::*;
use crate::mix;
use crate::rig::*;
use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use web_audio_api::node::*;

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    sr: f32,
    quanta: usize,
    input: Input,
    count: usize,
    mode: Mode,
    speakers: bool,
    /// in frames
    max: f64,
    /// delay times in frames
    delay: Auto,
    /// drop all handles before rendering
    drop: bool,
}

fn delay_frames() -> BoxedStrategy<f32> {
    prop_oneof![
        3 => 0f32..600.,
        2 => (0u32..600).prop_map(|f| f as f32),
        1 => (0u32..5).prop_map(|q| (q * 128) as f32),
        1 => Just(0f32),
        1 => 0f32..3.,
    ]
    .boxed()
}

fn max_frames() -> BoxedStrategy<f64> {
    prop_oneof![
        3 => 1f64..600.,
        1 => (1u32..5).prop_map(|q| (q * 128) as f64),
        1 => (1u32..600).prop_map(|f| f as f64),
        1 => 1f64..10.,
        1 => Just(3000f64),
    ]
    .boxed()
}

fn strategy() -> BoxedStrategy<Case> {
    (3usize..14)
        .prop_flat_map(|quanta| {
            (
                sample_rate(),
                Just(quanta),
                input(channels_small, quanta),
                (1usize..=6, mode(), any::<bool>()),
                max_frames(),
                auto(delay_frames, 1. ..400., quanta * RQ, false, true),
                prop::bool::weighted(0.3),
            )
        })
        .prop_map(
            |(sr, quanta, input, (count, mode, speakers), max, delay, drop)| Case {
                sr,
                quanta,
                input,
                count,
                mode,
                speakers,
                max,
                delay,
                drop,
            },
        )
        .boxed()
}

/// delays in frames to seconds
fn seconds(a: &Auto, sr: f32) -> Auto {
    let mut a = a.clone();
    a.base /= sr;
    for e in a.events.iter_mut() {
        match e {
            Ev::Set(_, v) | Ev::Lin(_, v) | Ev::Exp(_, v) | Ev::Target(_, v, _) => *v /= sr,
            Ev::Curve(_, v, _) => v.iter_mut().for_each(|v| *v /= sr),
        }
    }
    if let Some(m) = &mut a.modulation {
        m.sig.amp /= sr;
    }
    a
}

fn check(case: &Case, obs: &mut Obs) -> CaseResult {
    let mut ctx = offline(1, case.quanta * RQ, case.sr);
    let opts = node_opts(case.count, case.mode, case.speakers);
    let max = case.max / case.sr as f64;
    let node = DelayNode::new(
        &ctx,
        DelayOptions {
            max_delay_time: max,
            delay_time: 0.,
            audio_node_options: opts.clone(),
        },
    );
    let auto = seconds(&case.delay, case.sr);
    let driven = Driven::new(&ctx, &auto, node.delay_time());
    let (src, _cap, input) = feed(&ctx, &case.input, &node, opts);
    let (_cap2, output) = observe(&ctx, &node, 0);
    if case.drop {
        drop(src);
        drop(node);
    } else {
        ctx.suspend_sync(0., move |_| {
            let _ = (&src, &node);
        });
    }
    let _ = ctx.start_rendering_sync();
    let input = blocks(&input);
    let delays = driven.values();

    // the delay line: everything received so far in the prevailing layout
    let mut line: Vec<Vec<f64>> = vec![vec![]];
    let mut expect = vec![];
    let mut relayout = 0;
    let mut fractional = false;
    let mut used = false;
    for (q, b) in input.iter().enumerate() {
        if b.len() != line.len() {
            line = mix::mix(&line, b.len(), true);
            relayout += (q > 0) as usize;
        }
        for (l, c) in line.iter_mut().zip(b) {
            l.extend(c.iter().map(|v| *v as f64));
        }
        let out: Vec<Vec<f64>> = line
            .iter()
            .map(|l| {
                (0..RQ)
                    .map(|i| {
                        let d = delays[q][i] as f64 * case.sr as f64;
                        fractional |= d.fract() != 0.;
                        let at = (q * RQ + i) as f64 - d;
                        let k = at.floor();
                        let get = |k: f64| {
                            if k < 0. {
                                0.
                            } else {
                                l[(k as usize).min(l.len() - 1)]
                            }
                        };
                        let v = get(k) * (1. - (at - k))
                            + if at > k { get(k + 1.) * (at - k) } else { 0. };
                        used |= v != 0. && d > 0.;
                        v
                    })
                    .collect()
            })
            .collect();
        expect.push(out);
    }
    let scale = peak64(&expect.concat()).max(
        input
            .iter()
            .flatten()
            .flatten()
            .fold(0f32, |m, v| m.max(v.abs())) as f64,
    );
    obs.nontrivial_if(used);
    obs.label_if(relayout > 0, "channel layout changes");
    obs.label_if(fractional, "fractional delay");
    obs.label_if(!case.delay.is_constant(), "automated delay");
    obs.label_if(case.drop, "handles dropped");
    obs.label_if(case.max < 128., "maximum below one quantum");
    // the delay in frames is rounded: up to 2^-23 of it
    let tol =
        2e-6 + 4e-7 * delays.iter().flatten().fold(0f32, |m, v| m.max(*v)) as f64 * case.sr as f64;
    obs.comparisons += compare_blocks("output", &blocks(&output), &expect, tol * scale, 0.)?;
    Ok(())
}

pub fn run(r: &mut Runner) {
    r.rule =
        "some output sample that is expected to be non-zero is delayed by a non-zero time".into();
    r.assumptions = vec![
        "the mixed input and the delay times are those a custom processor with the same channel options and parameter automation receives at the same time".into(),
        "delayed audio is up- or down-mixed (speaker rules) to the layout of the latest input quantum, one channel when there is no input, as the Web Audio specification prescribes".into(),
        "sample rates 3000-192000, delays up to 3000 frames, 3-13 quanta; loops are the subject of C04".into(),
    ];
    r.suite("delay", 400_000, 2_000_000, strategy, check);
}
