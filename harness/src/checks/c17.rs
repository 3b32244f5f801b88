//! C17: custom periodic waves
use crate::capture::*;
use crate::rig::*;
use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::f64::consts::TAU;
use std::sync::{Arc, Mutex};
use web_audio_api::context::BaseAudioContext;
use web_audio_api::node::*;
use web_audio_api::{PeriodicWave, PeriodicWaveOptions};

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Wave {
    real: Option<Vec<f32>>,
    imag: Option<Vec<f32>>,
    disable: bool,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Way {
    /// option of the constructor, with the given type besides
    Option(bool),
    /// `set_periodic_wave` before the start
    Set,
    /// as `Set` and `set_type` after it, which is ignored
    SetType,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    sr: f32,
    quanta: usize,
    wave: Wave,
    way: Way,
    /// relative to the sample rate
    frequency: Auto,
    start: f64,
    /// another wave from a quantum on
    replace: Option<(usize, Wave)>,
}

fn coefficient() -> BoxedStrategy<f32> {
    prop_oneof![
        5 => -1f32..1.,
        2 => Just(0f32),
        1 => prop::sample::select(vec![1f32, -1., 0.5, 2., -10.]),
    ]
    .boxed()
}

fn wave() -> BoxedStrategy<Wave> {
    let n = prop_oneof![3 => 2usize..4, 4 => 2usize..16, 1 => 16usize..80];
    let scale = prop_oneof![
        6 => Just(1f32),
        1 => prop::sample::select(vec![1e-3f32, 1e-6, 1e-20, 1e-37, 1e-39, 100., 1e6, 1e20, 1e30]),
    ];
    (n, scale, any::<bool>())
        .prop_flat_map(|(n, scale, disable)| {
            let list = move || {
                prop_oneof![
                    4 => proptest::collection::vec(coefficient().prop_map(move |c| c * scale), n).prop_map(Some),
                    // only one harmonic
                    1 => (1..n).prop_map(move |j| {
                        let mut v = vec![0.; n];
                        v[j] = scale;
                        Some(v)
                    }),
                    1 => Just(None),
                ]
            };
            (list(), list(), Just(disable))
        })
        .prop_map(|(real, imag, disable)| Wave {
            real,
            imag,
            disable,
        })
        .boxed()
}

fn strategy() -> BoxedStrategy<Case> {
    (1usize..4)
        .prop_flat_map(|quanta| {
            let frames = quanta * RQ;
            let frequency = || {
                prop_oneof![4 => 0f32..0.05, 2 => -0.05f32..0., 1 => 0f32..0.5, 1 => Just(0.0078125f32)].boxed()
            };
            (
                sample_rate(),
                Just(quanta),
                wave(),
                prop_oneof![
                    any::<bool>().prop_map(Way::Option),
                    Just(Way::Set),
                    Just(Way::SetType)
                ],
                auto(frequency, 0.001..0.1, frames, false, true),
                prop_oneof![2 => Just(0f64), 1 => 0f64..100.],
                prop_oneof![3 => Just(None), 1 => (0..quanta, wave()).prop_map(Some)],
            )
        })
        .prop_map(
            |(sr, quanta, wave, way, frequency, start, replace)| Case {
                sr,
                quanta,
                wave,
                way,
                frequency,
                start,
                replace,
            },
        )
        .boxed()
}

impl Wave {
    fn build<C: BaseAudioContext>(&self, ctx: &C, direct: bool) -> PeriodicWave {
        let options = PeriodicWaveOptions {
            real: self.real.clone(),
            imag: self.imag.clone(),
            disable_normalization: self.disable,
        };
        if !direct && self.real.is_none() && self.imag.is_none() {
            PeriodicWave::default()
        } else if direct {
            PeriodicWave::new(ctx, options)
        } else {
            ctx.create_periodic_wave(options)
        }
    }
}

/// Cosine and sine terms of a wave, scaled
struct Series {
    terms: Vec<(f64, f64, f64)>,
    /// bound of the error at any phase
    tol: f64,
    /// sum of the magnitudes
    sum: f64,
}

const POINTS: usize = 8192;

impl Series {
    fn new(w: &Wave) -> Self {
        let (real, imag) = match (&w.real, &w.imag) {
            (Some(r), Some(i)) => (r.clone(), i.clone()),
            (Some(r), None) => (r.clone(), vec![0.; r.len()]),
            (None, Some(i)) => (vec![0.; i.len()], i.clone()),
            (None, None) => (vec![0., 0.], vec![0., 1.]),
        };
        let mut terms: Vec<(f64, f64, f64)> = (1..real.len())
            .map(|j| (j as f64, real[j] as f64, imag[j] as f64))
            .filter(|t| t.1 != 0. || t.2 != 0.)
            .collect();
        let mut sum: f64 = terms.iter().map(|t| t.1.hypot(t.2)).sum();
        // linear interpolation of a table of single precision numbers
        let mut tol: f64 = terms
            .iter()
            .map(|t| {
                t.1.hypot(t.2)
                    * ((TAU * t.0 / POINTS as f64).powi(2) / 8. + 2e-7 * TAU * t.0 + 5e-7)
            })
            .sum();
        tol += 1e-44 * terms.len() as f64;
        if !w.disable && sum > 0. {
            let mut s = vec![0f64; POINTS];
            for (j, re, im) in terms.iter() {
                let (step_im, step_re) = (TAU * j / POINTS as f64).sin_cos();
                let (mut x, mut y) = (1f64, 0f64);
                for v in s.iter_mut() {
                    *v += re * x + im * y;
                    (x, y) = (x * step_re - y * step_im, x * step_im + y * step_re);
                }
            }
            let peak = s.iter().fold(0f64, |m, v| m.max(v.abs()));
            if peak > 0. {
                // the error of the peak scales every sample
                tol = 2. * tol / peak;
                sum /= peak;
                for t in terms.iter_mut() {
                    t.1 /= peak;
                    t.2 /= peak;
                }
            }
        }
        // subnormal numbers may count as zero in the rendering
        tol += 4e-38;
        Self { terms, tol, sum }
    }
    fn at(&self, phase: f64) -> f64 {
        self.terms
            .iter()
            .map(|(j, re, im)| {
                let (s, c) = (TAU * (j * phase).fract()).sin_cos();
                re * c + im * s
            })
            .sum()
    }
}

fn check(case: &Case, obs: &mut Obs) -> CaseResult {
    let sr = case.sr as f64;
    let mut ctx = offline(1, case.quanta * RQ, case.sr);
    let wave = case.wave.build(&ctx, case.start == 0.);
    let node = match case.way {
        Way::Option(custom) => OscillatorNode::new(
            &ctx,
            OscillatorOptions {
                type_: if custom {
                    OscillatorType::Custom
                } else {
                    OscillatorType::Square
                },
                frequency: 0.,
                periodic_wave: Some(wave),
                ..Default::default()
            },
        ),
        _ => {
            let mut node = ctx.create_oscillator();
            node.set_periodic_wave(wave);
            if matches!(case.way, Way::SetType) {
                node.set_type(OscillatorType::Sawtooth);
            }
            node
        }
    };
    ensure!(
        node.type_() == OscillatorType::Custom,
        "the type is {:?}",
        node.type_()
    );
    let frequency = Driven::new(&ctx, &scaled(&case.frequency, case.sr), node.frequency());
    let (_cap, output) = observe(&ctx, &node, 0);
    let node = Arc::new(Mutex::new(node));
    node.lock().unwrap().start_at(case.start / sr);
    if let Some((q, w)) = &case.replace {
        let (node, w) = (node.clone(), w.clone());
        let t = (q * RQ) as f64 - if *q > 0 { 64. } else { 0. };
        ctx.suspend_sync(t / sr, move |ctx| {
            let w = w.build(ctx, true);
            node.lock().unwrap().set_periodic_wave(w);
        });
    }
    let _ = ctx.start_rendering_sync();
    let output = blocks(&output);
    let f = frequency.values();

    let mut series = Series::new(&case.wave);
    let mut phase: Option<f64> = None;
    let mut clear = 0;
    for (q, b) in output.iter().enumerate() {
        if let Some((_, w)) = case.replace.as_ref().filter(|r| r.0 == q) {
            series = Series::new(w);
        }
        ensure!(b.len() == 1, "quantum {q}: {} channels", b.len());
        for i in 0..RQ {
            let t = (q * RQ + i) as f64;
            let got = b[0][i] as f64;
            if t < case.start {
                ensure!(got == 0., "frame {t}: {got} before the start");
                continue;
            }
            let step = f[q][i] as f64 / sr;
            let p = phase.unwrap_or((t - case.start) * step);
            phase = Some((p + step).rem_euclid(1.));
            if step.abs() >= 0.5 * (1. - 1e-6) {
                continue;
            }
            let want = series.at(p);
            ensure!(
                (got - want).abs() <= series.tol + 1e-9 * series.sum,
                "frame {t}: {got}, expected {want} (phase {p}, tolerance {})",
                series.tol
            );
            obs.comparisons += 1;
            clear += (want.abs() > 20. * series.tol) as usize;
        }
    }
    obs.nontrivial_if(clear > 32 && series.terms.len() > 1);
    obs.label_if(!case.wave.disable, "normalized");
    obs.label_if(case.wave.real.is_none(), "no cosine terms");
    obs.label_if(case.wave.imag.is_none(), "no sine terms");
    obs.label_if(case.replace.is_some(), "wave replaced");
    obs.label_if(series.terms.len() > 16, "more than 16 terms");
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Lists {
    real: Option<usize>,
    imag: Option<usize>,
    disable: bool,
}

fn lists() -> BoxedStrategy<Lists> {
    let n = || {
        prop_oneof![
            1 => Just(None),
            4 => (0usize..5).prop_map(Some),
            1 => prop::sample::select(vec![8193usize, 9000, 20000]).prop_map(Some)
        ]
    };
    (n(), n(), any::<bool>())
        .prop_map(|(real, imag, disable)| Lists {
            real,
            imag,
            disable,
        })
        .boxed()
}

fn check_lists(case: &Lists, obs: &mut Obs) -> CaseResult {
    let ctx = offline(1, RQ, 44100.);
    let list = |n: Option<usize>| n.map(|n| vec![0.5f32; n]);
    let fine = |n: Option<usize>| n.map_or(true, |n| (2..=8192).contains(&n));
    let valid = fine(case.real)
        && fine(case.imag)
        && (case.real.is_none() || case.imag.is_none() || case.real == case.imag);
    let w = Wave {
        real: list(case.real),
        imag: list(case.imag),
        disable: case.disable,
    };
    let r = accepts(|| w.build(&ctx, true));
    ensure!(
        r.is_ok() == valid,
        "lists of length {:?} and {:?}: {}",
        case.real,
        case.imag,
        r.err().unwrap_or("accepted".into())
    );
    obs.comparisons += 1;
    obs.nontrivial_if(!valid);
    let r = accepts(|| {
        OscillatorNode::new(
            &ctx,
            OscillatorOptions {
                type_: OscillatorType::Custom,
                periodic_wave: None,
                ..Default::default()
            },
        );
    });
    ensure!(r.is_err(), "custom type without a wave accepted");
    let r = accepts(|| ctx.create_oscillator().set_type(OscillatorType::Custom));
    ensure!(r.is_err(), "custom type without a wave accepted");
    Ok(())
}

pub fn run(r: &mut Runner) {
    r.rule = "for waves: more than 32 frames differ clearly from zero and there are two or more terms; for lists: they are not acceptable".into();
    r.assumptions = vec![
        "coefficients are finite and their sum is far from the limits of single precision".into(),
        "tolerance: linear interpolation of a table of 8192 single precision samples, per term in proportion to its coefficient".into(),
        "waves with up to 80 terms".into(),
    ];
    r.suite("series", 40_000, 400_000, strategy, check);
    r.suite("lists", 5_000, 20_000, lists, check_lists);
}
