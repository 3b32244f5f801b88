//! C25: dynamics compressor
use crate::capture::*;
use crate::rig::*;
use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::{Arc, Mutex};
use web_audio_api::node::*;

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    sr: f32,
    quanta: usize,
    input: Input,
    threshold: Auto,
    knee: Auto,
    ratio: Auto,
    attack: Auto,
    release: Auto,
    /// values given to the constructor instead
    options: bool,
    mono: bool,
    /// drop the compressor's handle
    drop: bool,
    /// quanta before which the reduction is read
    read: Vec<usize>,
}

fn threshold() -> BoxedStrategy<f32> {
    prop_oneof![
        6 => -60f32..0.,
        1 => -100f32..0.,
        1 => prop::sample::select(vec![-24f32, 0., -100., -120., 10.]),
    ]
    .boxed()
}
fn knee() -> BoxedStrategy<f32> {
    prop_oneof![
        4 => 0f32..40.,
        2 => Just(0f32),
        1 => prop::sample::select(vec![30f32, 40., 1e-3, 60., -1.]),
    ]
    .boxed()
}
fn ratio() -> BoxedStrategy<f32> {
    prop_oneof![
        5 => 1f32..20.,
        2 => prop::sample::select(vec![12f32, 1., 20., 0., 50.]),
    ]
    .boxed()
}
fn time() -> BoxedStrategy<f32> {
    prop_oneof![
        5 => 0f32..0.02,
        2 => 0f32..1.,
        2 => prop::sample::select(vec![0f32, 0.003, 0.25, 1., 2., -1.]),
    ]
    .boxed()
}

fn strategy() -> BoxedStrategy<Case> {
    (
        prop_oneof![3 => Just(3000f32), 4 => Just(44100f32), 1 => Just(48000f32), 1 => 3000f32..100_000.],
        6usize..14,
    )
        .prop_flat_map(|(sr, quanta)| {
            let frames = quanta * RQ;
            let sound = input(
                || prop_oneof![3 => Just(1usize), 3 => Just(2usize), 1 => 3usize..=6].boxed(),
                quanta - 3,
            );
            let level = prop_oneof![4 => Just(1f32), 2 => 0.001f32..1., 1 => 1f32..100., 1 => Just(1e-8f32)];
            (
                (
                    Just(sr),
                    Just(quanta),
                    (sound, level).prop_map(|(mut s, l)| {
                        s.parts.iter_mut().for_each(|p| p.sig.amp *= l);
                        s
                    }),
                ),
                auto(threshold, 0.1..30., frames, false, false),
                auto(knee, 0.1..20., frames, false, false),
                auto(ratio, 0.1..10., frames, false, false),
                auto(time, 0.001..0.1, frames, false, false),
                auto(time, 0.001..0.1, frames, false, false),
                (any::<bool>(), prop::bool::weighted(0.2), any::<bool>()),
                proptest::collection::vec(1..quanta, 0..3),
            )
        })
        .prop_map(
            |((sr, quanta, input), threshold, knee, ratio, attack, release, (options, mono, drop), mut read)| {
                read.sort();
                read.dedup();
                let mut case = Case {
                    sr,
                    quanta,
                    input,
                    threshold,
                    knee,
                    ratio,
                    attack,
                    release,
                    options,
                    mono,
                    drop,
                    read,
                };
                for a in [
                    &mut case.threshold,
                    &mut case.knee,
                    &mut case.ratio,
                    &mut case.attack,
                    &mut case.release,
                ] {
                    if options {
                        *a = Auto::constant(a.base);
                    }
                    a.k_rate = true;
                }
                case
            },
        )
        .boxed()
}

#[derive(Clone, Copy)]
struct Curve {
    threshold: f64,
    knee: f64,
    ratio: f64,
}

impl Curve {
    /// output level for an input level in decibels
    fn at(&self, x: f64) -> f64 {
        let t = self.threshold;
        if x <= t {
            x
        } else if x <= t + self.knee {
            x + (1. / self.ratio - 1.) * (x - t).powi(2) / (2. * self.knee)
        } else {
            let middle = t + self.knee / 2.;
            middle + (x - middle) / self.ratio
        }
    }
}

fn db(x: f64) -> f64 {
    if x == 0. {
        -1000.
    } else {
        20. * x.log10()
    }
}

/// Gain of every frame and its relative error, reduction per quantum with absolute error
type Gains = (Vec<Vec<(f64, f64)>>, Vec<(f64, f64)>);

fn gains(case: &Case, input: &[Vec<Vec<f32>>], params: &[Vec<f64>; 5]) -> Gains {
    let sr = case.sr as f64;
    let (mut level, mut err) = (0f64, 0f64);
    let (mut out, mut reductions) = (vec![], vec![]);
    for (q, b) in input.iter().enumerate() {
        let p = |i: usize| params[i][q];
        let curve = Curve {
            threshold: p(0),
            knee: p(1),
            ratio: p(2),
        };
        let tau = [p(3), p(4)].map(|t| (-1. / (t * sr)).exp());
        let makeup = -0.6 * curve.at(0.);
        let mut o = vec![];
        for i in 0..RQ {
            let peak = b.iter().map(|c| c[i].abs()).fold(0f32, f32::max) as f64;
            let x = db(peak);
            let want = x - curve.at(x);
            let t = if want > level { tau[0] } else { tau[1] };
            let rounding = 2e-7 * (level + want) + (1. - t) * (2e-5 + 3e-6 * want);
            // where the branch is uncertain the other one moves the level by at most the distance
            let branch = if (want - level).abs() <= err + rounding {
                err + rounding
            } else {
                0.
            };
            err = t * err + rounding + branch * (1. - t) + 1e-9;
            level = t * level + (1. - t) * want;
            let g = 10f64.powf((makeup - level) / 20.);
            let db_err = err + 2e-5 + 1e-6 * makeup.abs();
            o.push((g, 10f64.powf(db_err / 20.) - 1. + 1e-6));
        }
        out.push(o);
        reductions.push((-level, err + 1e-5));
    }
    (out, reductions)
}

fn check(case: &Case, obs: &mut Obs) -> CaseResult {
    let sr = case.sr as f64;
    let mut ctx = offline(1, case.quanta * RQ, case.sr);
    let opts = AudioNodeOptions {
        channel_count: if case.mono { 1 } else { 2 },
        ..DynamicsCompressorOptions::default().audio_node_options
    };
    let node = DynamicsCompressorNode::new(
        &ctx,
        if case.options {
            DynamicsCompressorOptions {
                threshold: case.threshold.base,
                knee: case.knee.base,
                ratio: case.ratio.base,
                attack: case.attack.base,
                release: case.release.base,
                audio_node_options: opts.clone(),
            }
        } else {
            DynamicsCompressorOptions {
                audio_node_options: opts.clone(),
                ..Default::default()
            }
        },
    );
    let autos = [
        (&case.threshold, node.threshold()),
        (&case.knee, node.knee()),
        (&case.ratio, node.ratio()),
        (&case.attack, node.attack()),
        (&case.release, node.release()),
    ];
    let params: Vec<_> = autos
        .into_iter()
        .map(|(a, p)| {
            let (min, max) = (p.min_value(), p.max_value());
            if case.options {
                (None, a.base.clamp(min, max) as f64)
            } else {
                (Some(Driven::new(&ctx, a, p)), 0.)
            }
        })
        .collect();
    let (src, _cap, input) = feed(&ctx, &case.input, &node, opts);
    drop(src);
    let (_out, output) = observe(&ctx, &node, 0);
    ensure!(
        node.reduction() == 0.,
        "reduction {} at first",
        node.reduction()
    );
    let reads = Arc::new(Mutex::new(vec![]));
    let mut node = Some(node);
    if !case.drop {
        let node = Arc::new(node.take().unwrap());
        for q in case.read.iter().copied() {
            let (node, reads) = (node.clone(), reads.clone());
            ctx.suspend_sync((q * RQ - 64) as f64 / sr, move |_| {
                reads.lock().unwrap().push((q, node.reduction()));
            });
        }
        let _ = ctx.start_rendering_sync();
        reads.lock().unwrap().push((case.quanta, node.reduction()));
    } else {
        drop(node);
        let _ = ctx.start_rendering_sync();
    }
    let (input, output) = (blocks(&input), blocks(&output));
    ensure!(
        output.len() == case.quanta && input.len() == case.quanta,
        "{} quanta rendered",
        output.len()
    );
    let values: [Vec<f64>; 5] = std::array::from_fn(|i| match &params[i] {
        (Some(d), _) => d.values().iter().map(|v| v[0] as f64).collect(),
        (None, v) => vec![*v; case.quanta],
    });
    let (gains, reductions) = gains(case, &input, &values);

    for (q, r) in reads.lock().unwrap().iter() {
        let (want, err) = reductions[q - 1];
        ensure!(
            *r as f64 <= err && (*r as f64 - want).abs() <= err,
            "reduction {r} before quantum {q}, expected {want}"
        );
        obs.comparisons += 1;
    }

    // the look-ahead of 6 ms is rounded up to whole quanta
    let exact = sr * 0.006 / RQ as f64;
    let mut delays = vec![(exact * (1. + 1e-6)).ceil() as usize];
    if delays[0] != (exact * (1. - 1e-6)).ceil() as usize {
        delays.push(delays[0] - 1);
    }
    let mut sounding = 0;
    let compare = |delay: usize, sounding: &mut usize| -> Result<u64, String> {
        let mut n = 0;
        for q in 0..case.quanta {
            let silence = vec![vec![0f32; RQ]];
            let inp = if q < delay {
                &silence
            } else {
                &input[q - delay]
            };
            let out = &output[q];
            ensure!(
                out.len() == inp.len() || (zero(inp) && zero(out)),
                "quantum {q}: {} channels, expected {}",
                out.len(),
                inp.len()
            );
            for (c, o) in out.iter().enumerate() {
                for i in 0..RQ {
                    let x = inp.get(c).map_or(0., |c| c[i]) as f64;
                    let (g, e) = gains[q][i];
                    let (got, want) = (o[i] as f64, x * g);
                    ensure!(
                        (got - want).abs() <= want.abs() * e + 1e-37,
                        "quantum {q}, frame {i}, channel {c}: {got}, expected {want} (input {x}, gain {g}, relative error {e})"
                    );
                    n += 1;
                    *sounding += (want.abs() > 1e-6 && e < 0.05) as usize;
                }
            }
        }
        Ok(n)
    };
    let mut r = compare(delays[0], &mut sounding);
    if r.is_err() && delays.len() > 1 {
        r = compare(delays[1], &mut sounding);
    }
    obs.comparisons += r?;
    let deepest = reductions.iter().map(|r| r.0).fold(0f64, f64::min);
    obs.nontrivial_if(sounding > 64 && deepest < -0.5);
    obs.label_if(deepest < -0.5, "compressing");
    obs.label_if(case.drop, "handle dropped");
    obs.label_if(case.knee.base <= 0., "hard knee");
    obs.label_if(!case.options, "automated");
    Ok(())
}

pub fn run(r: &mut Runner) {
    r.rule = "more than 64 sounding samples are checked and the level is reduced by more than half a decibel at some time".into();
    r.assumptions = vec![
        "parameters have the value of the first frame of each quantum".into(),
        "the level of a frame is the greatest magnitude of its channels; attack and release smooth the decibels of attenuation".into(),
        "the look-ahead is 6 ms rounded up to whole quanta".into(),
        "rounding errors of the smoothing in single precision are tolerated, growing with the time constants".into(),
    ];
    r.suite("compression", 100_000, 1_000_000, strategy, check);
}
