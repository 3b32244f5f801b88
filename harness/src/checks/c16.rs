//! C16: oscillator phase and waveforms
use crate::capture::*;
use crate::rig::*;
use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::{Arc, Mutex};
use web_audio_api::node::*;

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
pub enum Wave {
    Sine,
    Square,
    Sawtooth,
    Triangle,
}

impl Wave {
    fn api(self) -> OscillatorType {
        match self {
            Wave::Sine => OscillatorType::Sine,
            Wave::Square => OscillatorType::Square,
            Wave::Sawtooth => OscillatorType::Sawtooth,
            Wave::Triangle => OscillatorType::Triangle,
        }
    }
    fn at(self, phase: f64) -> f64 {
        let x = phase.rem_euclid(1.);
        match self {
            Wave::Sine => (x * std::f64::consts::TAU).sin(),
            Wave::Square => {
                if x < 0.5 {
                    1.
                } else {
                    -1.
                }
            }
            Wave::Sawtooth => 2. * (x + 0.5).rem_euclid(1.) - 1.,
            Wave::Triangle => {
                if x < 0.25 {
                    4. * x
                } else if x < 0.75 {
                    2. - 4. * x
                } else {
                    4. * x - 4.
                }
            }
        }
    }
    /// phases of the jumps
    fn jumps(self) -> &'static [f64] {
        match self {
            Wave::Square => &[0., 0.5],
            Wave::Sawtooth => &[0.5],
            _ => &[],
        }
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    sr: f32,
    quanta: usize,
    wave: Wave,
    /// relative to the sample rate
    frequency: Auto,
    detune: Auto,
    /// in frames
    start: f64,
    /// changes of the waveform before a quantum
    changes: Vec<(usize, Wave)>,
}

fn wave() -> BoxedStrategy<Wave> {
    prop::sample::select(vec![
        Wave::Sine,
        Wave::Square,
        Wave::Sawtooth,
        Wave::Triangle,
    ])
    .boxed()
}

fn frequency() -> BoxedStrategy<f32> {
    prop_oneof![
        6 => 0f32..0.1,
        4 => 0f32..0.5,
        3 => -0.5f32..0.,
        2 => prop::sample::select(vec![0f32, 0.5, -0.5, 0.25, 0.125, -0.25, 0.49, -0.49]),
        1 => prop::sample::select(vec![1e-20f32, -1e-20, -1e-30, 1e-12, -1e-12, -1e-16, -1e-17]),
        1 => 0.5f32..2.,
    ]
    .boxed()
}

fn detune() -> BoxedStrategy<f32> {
    prop_oneof![
        6 => Just(0f32),
        3 => -2400f32..2400.,
        1 => prop::sample::select(vec![1200f32, -1200., 4800., 153_600., -153_600., 200_000.]),
        1 => -20000f32..20000.,
    ]
    .boxed()
}

fn start(quanta: usize) -> BoxedStrategy<f64> {
    let n = quanta * RQ;
    prop_oneof![
        3 => Just(0f64),
        2 => (0..n).prop_map(|f| f as f64),
        3 => (0..n, 0.05f64..0.95).prop_map(|(f, x)| f as f64 + x),
        1 => (1..quanta, 0.05f64..0.95).prop_map(|(q, x)| (q * RQ) as f64 - x),
        1 => (0..quanta).prop_map(|q| (q * RQ) as f64),
    ]
    .boxed()
}

fn strategy() -> BoxedStrategy<Case> {
    (2usize..10)
        .prop_flat_map(|quanta| {
            let frames = quanta * RQ;
            (
                sample_rate(),
                Just(quanta),
                wave(),
                auto(frequency, 0.001..0.3, frames, false, true),
                auto(detune, 1. ..3000., frames, false, true),
                start(quanta),
                prop_oneof![
                    4 => Just(vec![]),
                    1 => proptest::collection::vec((0..quanta, wave()), 1..3),
                ],
            )
        })
        .prop_map(
            |(sr, quanta, wave, frequency, detune, start, mut changes)| {
                changes.sort_by_key(|c| c.0);
                Case {
                    sr,
                    quanta,
                    wave,
                    frequency,
                    detune,
                    start,
                    changes,
                }
            },
        )
        .boxed()
}

fn long() -> BoxedStrategy<Case> {
    (sample_rate(), 100usize..400, wave(), 0f32..0.5, start(3))
        .prop_map(|(sr, quanta, wave, f, start)| Case {
            sr,
            quanta,
            wave,
            frequency: Auto::constant(f),
            detune: Auto::constant(0.),
            start,
            changes: vec![],
        })
        .boxed()
}

/// Range of samples a waveform may have near a phase; `step` is the phase increment
fn expected(wave: Wave, phase: f64, err: f64, step: f64) -> (f64, f64) {
    if err > 0.01 {
        return (-1., 1.);
    }
    let mut lo = f64::MAX;
    let mut hi = f64::MIN;
    for p in [phase, phase - err, phase + err] {
        let mut vs = vec![wave.at(p)];
        // jumps may be smoothed by a quadratic over one frame on each side
        let mut v = wave.at(p);
        for j in wave.jumps() {
            let d = (p - j + 0.5).rem_euclid(1.) - 0.5;
            let up = wave == Wave::Square && *j == 0.;
            if d.abs() <= step.abs() {
                let x = d / step.abs();
                let r = if x >= 0. {
                    2. * x - x * x - 1.
                } else {
                    x * x + 2. * x + 1.
                };
                v += if up { r } else { -r };
            }
            // on the jump
            if d.abs() <= err {
                vs.extend([-1., 1.]);
            }
        }
        vs.push(v);
        for v in vs {
            lo = lo.min(v);
            hi = hi.max(v);
        }
    }
    (lo.max(-1.), hi.min(1.))
}

fn check(case: &Case, obs: &mut Obs) -> CaseResult {
    let sr = case.sr as f64;
    let mut ctx = offline(1, case.quanta * RQ, case.sr);
    let node = OscillatorNode::new(
        &ctx,
        OscillatorOptions {
            type_: case.wave.api(),
            frequency: 0.,
            ..Default::default()
        },
    );
    let frequency = Driven::new(&ctx, &scaled(&case.frequency, case.sr), node.frequency());
    let detune = Driven::new(&ctx, &case.detune, node.detune());
    let (_cap, output) = observe(&ctx, &node, 0);
    let node = Arc::new(Mutex::new(node));
    node.lock().unwrap().start_at(case.start / sr);
    let mut at: Vec<usize> = case.changes.iter().map(|c| c.0).collect();
    at.dedup();
    for q in at {
        let (node, changes) = (node.clone(), case.changes.clone());
        let t = (q * RQ) as f64 - if q > 0 { 64. } else { 0. };
        ctx.suspend_sync(t / sr, move |_| {
            for c in changes.iter().filter(|c| c.0 == q) {
                node.lock().unwrap().set_type(c.1.api());
            }
        });
    }
    let _ = ctx.start_rendering_sync();
    let output = blocks(&output);
    let (f, d) = (frequency.values(), detune.values());

    let mut wave = case.wave;
    let mut phase: Option<f64> = None;
    let mut err = 1e-14;
    let mut heard = 0;
    let (mut reversed, mut beyond) = (false, false);
    for (q, b) in output.iter().enumerate() {
        for c in case.changes.iter().filter(|c| c.0 == q) {
            wave = c.1;
        }
        ensure!(b.len() == 1, "quantum {q}: {} channels", b.len());
        for i in 0..RQ {
            let t = (q * RQ + i) as f64;
            let got = b[0][i] as f64;
            if t < case.start {
                ensure!(got == 0., "frame {t}: {got} before the start");
                continue;
            }
            let step = f[q][i] as f64 * (d[q][i] as f64 / 1200.).exp2() / sr;
            let p = phase.unwrap_or((t - case.start) * step);
            if phase.is_none() {
                err += 1e-9 * step.abs();
            }
            // rounding decides about silence
            let limit = step.abs() / 0.5;
            let (lo, hi) = expected(wave, p, err, step);
            let tol = 3e-6;
            let fine = (limit < 1. + 1e-6 && got >= lo - tol && got <= hi + tol)
                || (limit > 1. - 1e-6 && got == 0.);
            ensure!(
                fine,
                "frame {t} (quantum {q}, offset {i}): {got}, expected {lo}..{hi} ({wave:?}, phase {p}, step {step})"
            );
            obs.comparisons += 1;
            heard += (limit < 1. && (lo > 0.1 || hi < -0.1)) as usize;
            reversed |= step < 0.;
            beyond |= limit > 1.;
            err += 1e-12 * step.abs() + 1e-14;
            phase = Some((p + step).rem_euclid(1.));
        }
    }
    obs.nontrivial_if(heard > 16);
    obs.label(match case.wave {
        Wave::Sine => "sine",
        Wave::Square => "square",
        Wave::Sawtooth => "sawtooth",
        Wave::Triangle => "triangle",
    });
    obs.label_if(reversed, "negative frequency");
    obs.label_if(beyond, "beyond the Nyquist frequency");
    obs.label_if(case.start.fract() != 0., "start between frames");
    obs.label_if(
        !case.frequency.is_constant() || !case.detune.is_constant(),
        "automated",
    );
    obs.label_if(!case.changes.is_empty(), "waveform changed");
    Ok(())
}

pub fn run(r: &mut Runner) {
    r.rule = "more than 16 frames are expected to be clearly different from zero".into();
    r.assumptions = vec![
        "frequency and detune are those of a custom processor's parameter with the same automation at the same time, limited to the ranges of the parameters".into(),
        "square and sawtooth waves may be smoothed (polyBLEP) within one frame of their jumps".into(),
        "built-in waveforms; custom waves are the subject of C17".into(),
    ];
    r.suite("phase", 350_000, 3_000_000, strategy, check);
    r.suite("long", 2_000, 50_000, long, check);
}
