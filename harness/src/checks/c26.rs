//! C26: analyser
use crate::capture::*;
use crate::mix::mix;
use crate::rig::*;
use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::f64::consts::TAU;
use std::sync::{Arc, Mutex};
use web_audio_api::node::*;

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
enum Kind {
    Time,
    Bytes,
    Frequency,
    FrequencyBytes,
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum Action {
    /// kind of data and length of the array
    Query(Kind, usize),
    Size(usize),
    Smoothing(f64),
    Min(f64),
    Max(f64),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    sr: f32,
    quanta: usize,
    input: Input,
    count: usize,
    mode: Mode,
    speakers: bool,
    size: usize,
    smoothing: f64,
    min: f64,
    max: f64,
    /// before a quantum; the last is after the rendering
    actions: Vec<(usize, Action)>,
    /// fractions of the bins that are verified
    bins: Vec<f64>,
}

fn size(max: u32) -> BoxedStrategy<usize> {
    prop_oneof![5 => 5u32..=9, 2 => 5u32..=max]
        .prop_map(move |e| 1 << e.min(max))
        .boxed()
}

fn kind() -> BoxedStrategy<Kind> {
    prop::sample::select(vec![
        Kind::Time,
        Kind::Bytes,
        Kind::Frequency,
        Kind::FrequencyBytes,
    ])
    .boxed()
}

fn action(max: u32) -> BoxedStrategy<Action> {
    let len = prop_oneof![
        2 => size(max),
        1 => size(max).prop_map(|n| n / 2),
        1 => 0usize..600,
        1 => Just(40_000usize),
    ];
    prop_oneof![
        8 => (kind(), len).prop_map(|(k, n)| Action::Query(k, n)),
        2 => size(max).prop_map(Action::Size),
        1 => smoothing().prop_map(Action::Smoothing),
        1 => (-200f64..-31.).prop_map(Action::Min),
        1 => (-30f64..100.).prop_map(Action::Max),
    ]
    .boxed()
}

fn smoothing() -> BoxedStrategy<f64> {
    prop_oneof![2 => 0f64..=1., 1 => Just(0f64), 1 => Just(0.8f64), 1 => Just(1f64)].boxed()
}

fn case(quanta: std::ops::Range<usize>, max: u32) -> BoxedStrategy<Case> {
    quanta
        .prop_flat_map(move |quanta| {
            (
                (
                    sample_rate(),
                    Just(quanta),
                    input(
                        || {
                            prop_oneof![3 => Just(1usize), 3 => Just(2usize), 1 => 3usize..=6]
                                .boxed()
                        },
                        quanta,
                    ),
                    1usize..=4,
                    prop::sample::select(vec![Mode::Max, Mode::ClampedMax, Mode::Explicit]),
                    any::<bool>(),
                ),
                size(max),
                smoothing(),
                (-120f64..-31.),
                (-30f64..20.),
                proptest::collection::vec((0..=quanta, action(max)), 1..10),
                proptest::collection::vec(0f64..1., 4),
            )
        })
        .prop_map(
            |(
                (sr, quanta, input, count, mode, speakers),
                size,
                smoothing,
                min,
                max,
                mut actions,
                bins,
            )| {
                actions.sort_by_key(|a| a.0);
                Case {
                    sr,
                    quanta,
                    input,
                    count,
                    mode,
                    speakers,
                    size,
                    smoothing,
                    min,
                    max,
                    actions,
                    bins,
                }
            },
        )
        .boxed()
}

fn short() -> BoxedStrategy<Case> {
    case(1..24, 11)
}
fn long() -> BoxedStrategy<Case> {
    case(240..600, 15)
}

/// What a query wrote
#[derive(Debug, Clone)]
enum Data {
    Float(Vec<f32>),
    Bytes(Vec<u8>),
}

const F: f32 = 123.25;
const B: u8 = 77;

fn perform(node: &mut AnalyserNode, action: &Action, log: &mut Vec<Data>) {
    match action {
        Action::Query(kind, n) => {
            let (mut f, mut b) = (vec![F; *n], vec![B; *n]);
            match kind {
                Kind::Time => node.get_float_time_domain_data(&mut f),
                Kind::Bytes => node.get_byte_time_domain_data(&mut b),
                Kind::Frequency => node.get_float_frequency_data(&mut f),
                Kind::FrequencyBytes => node.get_byte_frequency_data(&mut b),
            }
            log.push(match kind {
                Kind::Time | Kind::Frequency => Data::Float(f),
                _ => Data::Bytes(b),
            });
        }
        Action::Size(n) => node.set_fft_size(*n),
        Action::Smoothing(v) => node.set_smoothing_time_constant(*v),
        Action::Min(v) => node.set_min_decibels(*v),
        Action::Max(v) => node.set_max_decibels(*v),
    }
}

/// Magnitude of one bin of the windowed frames and the scale of its rounding errors
fn magnitude(x: &[f64], bin: usize) -> (f64, f64) {
    let n = x.len() as f64;
    let (mut re, mut im, mut sum) = (0f64, 0f64, 0f64);
    for (i, v) in x.iter().enumerate() {
        let t = TAU * i as f64 / n;
        let w = v * (0.42 - 0.5 * t.cos() + 0.08 * (2. * t).cos());
        let a = TAU * ((i * bin) % x.len()) as f64 / n;
        re += w * a.cos();
        im -= w * a.sin();
        sum += v.abs();
    }
    (re.hypot(im) / n, sum / n)
}

fn check(case: &Case, obs: &mut Obs) -> CaseResult {
    let sr = case.sr as f64;
    let mut ctx = offline(1, case.quanta * RQ, case.sr);
    let opts = node_opts(case.count, case.mode, case.speakers);
    let node = AnalyserNode::new(
        &ctx,
        AnalyserOptions {
            fft_size: case.size,
            min_decibels: case.min,
            max_decibels: case.max,
            smoothing_time_constant: case.smoothing,
            audio_node_options: opts.clone(),
        },
    );
    let (_src, _cap, input) = feed(&ctx, &case.input, &node, opts);
    let (_out, output) = observe(&ctx, &node, 0);
    let node = Arc::new(Mutex::new(node));
    let log = Arc::new(Mutex::new(vec![]));
    let mut at: Vec<usize> = case.actions.iter().map(|c| c.0).collect();
    at.dedup();
    for q in at.iter().copied().filter(|q| *q < case.quanta) {
        let (node, actions, log) = (node.clone(), case.actions.clone(), log.clone());
        let t = (q * RQ) as f64 - if q > 0 { 64. } else { 0. };
        ctx.suspend_sync(t / sr, move |_| {
            for a in actions.iter().filter(|a| a.0 == q) {
                perform(&mut node.lock().unwrap(), &a.1, &mut log.lock().unwrap());
            }
        });
    }
    let _ = ctx.start_rendering_sync();
    for a in case.actions.iter().filter(|a| a.0 == case.quanta) {
        perform(&mut node.lock().unwrap(), &a.1, &mut log.lock().unwrap());
    }
    let (input, output) = (blocks(&input), blocks(&output));
    ensure!(
        output.len() == case.quanta && input.len() == case.quanta,
        "{} quanta rendered",
        output.len()
    );
    for (q, (i, o)) in input.iter().zip(&output).enumerate() {
        ensure!(i == o, "quantum {q}: the output differs from the input");
        obs.comparisons += 1;
    }
    let mono: Vec<f64> = input
        .iter()
        .flat_map(|b| {
            let b: Vec<Vec<f64>> = b
                .iter()
                .map(|c| c.iter().map(|v| *v as f64).collect())
                .collect();
            mix(&b, 1, true).remove(0)
        })
        .collect();
    // rounding errors of the down-mix
    let loudest = input
        .iter()
        .flatten()
        .flat_map(|c| c.iter())
        .fold(0f32, |a, v| a.max(v.abs()));
    let blur = 1e-7 * loudest as f64;

    let (mut size, mut smoothing, mut min, mut max) =
        (case.size, case.smoothing, case.min, case.max);
    // smoothed magnitudes and errors of the verified bins
    let bins = |size: usize| -> Vec<usize> {
        let n = size / 2;
        let mut b: Vec<usize> = case.bins.iter().map(|f| (f * n as f64) as usize).collect();
        b.extend([0, 1, n - 1]);
        b
    };
    let mut spectrum = vec![(0f64, 0f64); case.bins.len() + 3];
    let mut last = None;
    let mut log = log.lock().unwrap().clone().into_iter();
    let (mut sounding, mut spectra) = (0, 0);
    for (q, action) in &case.actions {
        let (kind, n) = match action {
            Action::Size(n) => {
                if size != *n {
                    size = *n;
                    spectrum.fill((0., 0.));
                    last = None;
                }
                continue;
            }
            Action::Smoothing(v) => {
                smoothing = *v;
                continue;
            }
            Action::Min(v) => {
                min = *v;
                continue;
            }
            Action::Max(v) => {
                max = *v;
                continue;
            }
            Action::Query(k, n) => (*k, *n),
        };
        let data = log.next().unwrap();
        let recent = |n: usize| -> Vec<f64> {
            (0..n)
                .map(|i| (q * RQ + i).checked_sub(n).map_or(0., |i| mono[i]))
                .collect()
        };
        let valid = match kind {
            Kind::Time | Kind::Bytes => size.min(n),
            _ => (size / 2).min(n),
        };
        match &data {
            Data::Float(f) => ensure!(
                f[valid..].iter().all(|v| *v == F),
                "quantum {q}: element beyond {valid} written"
            ),
            Data::Bytes(b) => ensure!(
                b[valid..].iter().all(|v| *v == B),
                "quantum {q}: element beyond {valid} written"
            ),
        }
        match kind {
            Kind::Time | Kind::Bytes => {
                for (i, want) in recent(valid).iter().enumerate() {
                    let tol = 1e-6 * want.abs() + 1e-7 + blur;
                    match &data {
                        Data::Float(f) => ensure!(
                            (f[i] as f64 - want).abs() <= tol,
                            "quantum {q}, {kind:?}, element {i}: {}, expected {want}",
                            f[i]
                        ),
                        Data::Bytes(b) => {
                            let byte = |x: f64| (128. * (1. + x)).floor().clamp(0., 255.) as u8;
                            ensure!(
                                b[i] >= byte(want - tol) && b[i] <= byte(want + tol),
                                "quantum {q}, {kind:?}, element {i}: {}, expected {}",
                                b[i],
                                byte(*want)
                            );
                        }
                    }
                    obs.comparisons += 1;
                    sounding += (want.abs() > 0.01) as usize;
                }
            }
            _ => {
                if last != Some(*q) {
                    last = Some(*q);
                    let x = recent(size);
                    for (s, b) in spectrum.iter_mut().zip(bins(size)) {
                        let (m, scale) = magnitude(&x, b);
                        let err = 2e-6 * m + 1.5e-6 * scale + blur + 1e-18;
                        let k = smoothing;
                        *s = (
                            k * s.0 + (1. - k) * m,
                            k * s.1 + (1. - k) * err + 1e-6 * s.0 + 1.2e-7 * m,
                        );
                    }
                }
                for ((m, err), b) in spectrum.iter().zip(bins(size)) {
                    if b >= valid {
                        continue;
                    }
                    let range = [
                        20. * (m - err).max(0.).log10() - 1e-4,
                        20. * (m + err + 1e-37).log10() + 1e-4,
                    ];
                    match &data {
                        Data::Float(f) => ensure!(
                            f[b] as f64 >= range[0] && f[b] as f64 <= range[1],
                            "quantum {q}, {kind:?}, bin {b}: {}, expected {range:?} (magnitude {m})",
                            f[b]
                        ),
                        Data::Bytes(d) => {
                            let r = range.map(|v| {
                                (255. / (max - min) * (v - min)).floor().clamp(0., 255.) as u8
                            });
                            ensure!(
                                d[b] >= r[0] && d[b] <= r[1],
                                "quantum {q}, {kind:?}, bin {b}: {}, expected {r:?}",
                                d[b]
                            );
                        }
                    }
                    obs.comparisons += 1;
                    spectra += (*m > 100. * err) as usize;
                }
            }
        }
    }
    obs.nontrivial_if(sounding > 0 || spectra > 0);
    obs.label_if(sounding > 0, "waveform");
    obs.label_if(spectra > 0, "spectrum");
    obs.label_if(at.len() > 1, "several moments");
    obs.label_if(
        case.actions.iter().any(|a| matches!(a.1, Action::Size(_))),
        "size changed",
    );
    Ok(())
}

pub fn run(r: &mut Runner) {
    r.rule = "some verified element of the waveform or the spectrum is clearly different from zero"
        .into();
    r.assumptions = vec![
        "an array shorter than the FFT size receives the most recent frames that fit (as the tests of the repository expect)".into(),
        "seven bins per spectrum are verified".into(),
        "a change of the FFT size starts the smoothing over".into(),
        "magnitudes are compared with a tolerance of 1.5e-6 of the mean magnitude of the frames".into(),
    ];
    r.suite("short", 60_000, 600_000, short, check);
    r.suite("long", 400, 5_000, long, check);
}
