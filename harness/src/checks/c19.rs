//! C19: biquad filter
use crate::capture::*;
use crate::rig::*;
use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::f64::consts::PI;
use std::sync::{Arc, Mutex};
use web_audio_api::node::*;

const QUANTA: usize = 6;

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
enum T {
    Lowpass,
    Highpass,
    Bandpass,
    Notch,
    Allpass,
    Peaking,
    Lowshelf,
    Highshelf,
}
use T::*;

impl T {
    fn api(self) -> BiquadFilterType {
        match self {
            Lowpass => BiquadFilterType::Lowpass,
            Highpass => BiquadFilterType::Highpass,
            Bandpass => BiquadFilterType::Bandpass,
            Notch => BiquadFilterType::Notch,
            Allpass => BiquadFilterType::Allpass,
            Peaking => BiquadFilterType::Peaking,
            Lowshelf => BiquadFilterType::Lowshelf,
            Highshelf => BiquadFilterType::Highshelf,
        }
    }
}

fn kind() -> BoxedStrategy<T> {
    prop_oneof![
        Just(Lowpass),
        Just(Highpass),
        Just(Bandpass),
        Just(Notch),
        Just(Allpass),
        Just(Peaking),
        Just(Lowshelf),
        Just(Highshelf)
    ]
    .boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    sr: f32,
    input: Input,
    kind: T,
    /// another type from this quantum on
    then: Option<(usize, T)>,
    /// as a fraction of the Nyquist frequency
    freq: Auto,
    detune: Auto,
    q: Auto,
    gain: Auto,
    drop: bool,
    /// fractions of the Nyquist frequency at which the response is queried
    at: Vec<f32>,
}

fn freq() -> BoxedStrategy<f32> {
    prop_oneof![
        6 => 0.001f32..1.,
        2 => 0.0001f32..0.1,
        1 => Just(0f32),
        1 => Just(1f32),
        1 => -0.5f32..1.5,
    ]
    .boxed()
}
fn detune() -> BoxedStrategy<f32> {
    prop_oneof![
        6 => Just(0f32),
        3 => -2400f32..2400.,
        1 => -20000f32..20000.,
        1 => Just(153600f32),
        1 => Just(-153600f32),
    ]
    .boxed()
}
fn qs() -> BoxedStrategy<f32> {
    prop_oneof![
        4 => 0.1f32..10.,
        2 => -10f32..40.,
        1 => Just(0f32),
        1 => 1e-4f32..0.1,
        1 => 10f32..1000.,
    ]
    .boxed()
}
fn gains() -> BoxedStrategy<f32> {
    prop_oneof![4 => -40f32..40., 1 => Just(0f32), 1 => -150f32..150.].boxed()
}

fn mostly_constant(
    value: fn() -> BoxedStrategy<f32>,
    depth: std::ops::Range<f32>,
) -> BoxedStrategy<Auto> {
    prop_oneof![
        2 => value().prop_map(Auto::constant),
        1 => auto(value, depth, QUANTA * RQ, false, true),
    ]
    .boxed()
}

fn strategy() -> BoxedStrategy<Case> {
    (
        sample_rate(),
        input_layouts(QUANTA),
        kind(),
        prop::option::weighted(0.2, (1..QUANTA, kind())),
        mostly_constant(freq, 0.05..1.),
        mostly_constant(detune, 10. ..5000.),
        mostly_constant(qs, 0.1..20.),
        mostly_constant(gains, 1. ..40.),
        any::<bool>(),
        proptest::collection::vec(prop_oneof![8 => 0f32..=1., 1 => Just(0f32), 1 => Just(1f32), 1 => 1.00001f32..3., 1 => -1f32..-1e-6], 0..6),
    )
        .prop_map(|(sr, input, kind, then, freq, detune, q, gain, drop, at)| Case {
            sr,
            input,
            kind,
            then,
            freq,
            detune,
            q,
            gain,
            drop,
            at,
        })
        .boxed()
}

/// (b0, b1, b2, a1, a2) at a frequency as a fraction of the Nyquist frequency
fn coefs(kind: T, f: f64, q: f64, gain: f64) -> [f64; 5] {
    let f = f.clamp(0., 1.);
    let w = PI * f;
    let (sin, cos) = (w.sin(), w.cos());
    let a = 10f64.powf(gain / 40.);
    let norm = |b: [f64; 3], a: [f64; 3]| {
        [
            b[0] / a[0],
            b[1] / a[0],
            b[2] / a[0],
            a[1] / a[0],
            a[2] / a[0],
        ]
    };
    let only = |g: f64| [g, 0., 0., 0., 0.];
    let edge = f <= 0. || f >= 1.;
    match kind {
        Lowpass => {
            if f >= 1. {
                return only(1.);
            }
            let al = sin / (2. * 10f64.powf(q / 20.));
            norm(
                [(1. - cos) / 2., 1. - cos, (1. - cos) / 2.],
                [1. + al, -2. * cos, 1. - al],
            )
        }
        Highpass => {
            if f >= 1. {
                return only(0.);
            }
            if f <= 0. {
                return only(1.);
            }
            let al = sin / (2. * 10f64.powf(q / 20.));
            norm(
                [(1. + cos) / 2., -(1. + cos), (1. + cos) / 2.],
                [1. + al, -2. * cos, 1. - al],
            )
        }
        Bandpass => {
            if edge {
                return only(0.);
            }
            if q <= 0. {
                return only(1.);
            }
            let al = sin / (2. * q);
            norm([al, 0., -al], [1. + al, -2. * cos, 1. - al])
        }
        Notch => {
            if edge {
                return only(1.);
            }
            if q <= 0. {
                return only(0.);
            }
            let al = sin / (2. * q);
            norm([1., -2. * cos, 1.], [1. + al, -2. * cos, 1. - al])
        }
        Allpass => {
            if edge {
                return only(1.);
            }
            if q <= 0. {
                return only(-1.);
            }
            let al = sin / (2. * q);
            norm([1. - al, -2. * cos, 1. + al], [1. + al, -2. * cos, 1. - al])
        }
        Peaking => {
            if edge {
                return only(1.);
            }
            if q <= 0. {
                return only(a * a);
            }
            let al = sin / (2. * q);
            norm(
                [1. + al * a, -2. * cos, 1. - al * a],
                [1. + al / a, -2. * cos, 1. - al / a],
            )
        }
        Lowshelf => {
            if f >= 1. {
                return only(a * a);
            }
            if f <= 0. {
                return only(1.);
            }
            let s = 2. * (sin / 2. * 2f64.sqrt()) * a.sqrt();
            norm(
                [
                    a * ((a + 1.) - (a - 1.) * cos + s),
                    2. * a * ((a - 1.) - (a + 1.) * cos),
                    a * ((a + 1.) - (a - 1.) * cos - s),
                ],
                [
                    (a + 1.) + (a - 1.) * cos + s,
                    -2. * ((a - 1.) + (a + 1.) * cos),
                    (a + 1.) + (a - 1.) * cos - s,
                ],
            )
        }
        Highshelf => {
            if f >= 1. {
                return only(1.);
            }
            if f <= 0. {
                return only(a * a);
            }
            let s = 2. * (sin / 2. * 2f64.sqrt()) * a.sqrt();
            norm(
                [
                    a * ((a + 1.) + (a - 1.) * cos + s),
                    -2. * a * ((a - 1.) + (a + 1.) * cos),
                    a * ((a + 1.) + (a - 1.) * cos - s),
                ],
                [
                    (a + 1.) - (a - 1.) * cos + s,
                    2. * ((a - 1.) - (a + 1.) * cos),
                    (a + 1.) - (a - 1.) * cos - s,
                ],
            )
        }
    }
}

fn mul(a: [f64; 2], b: [f64; 2]) -> [f64; 2] {
    [a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]]
}
fn div(a: [f64; 2], b: [f64; 2]) -> [f64; 2] {
    let d = b[0] * b[0] + b[1] * b[1];
    [
        (a[0] * b[0] + a[1] * b[1]) / d,
        (a[1] * b[0] - a[0] * b[1]) / d,
    ]
}

fn response(c: &[f64; 5], f: f64) -> [f64; 2] {
    let z = [(PI * f).cos(), -(PI * f).sin()];
    let z2 = mul(z, z);
    let num = [
        c[0] + c[1] * z[0] + c[2] * z2[0],
        c[1] * z[1] + c[2] * z2[1],
    ];
    let den = [1. + c[3] * z[0] + c[4] * z2[0], c[3] * z[1] + c[4] * z2[1]];
    div(num, den)
}

fn scale(a: &Auto, by: f32) -> Auto {
    let mut a = a.clone();
    a.base *= by;
    for e in a.events.iter_mut() {
        match e {
            Ev::Set(_, v) | Ev::Lin(_, v) | Ev::Exp(_, v) | Ev::Target(_, v, _) => *v *= by,
            Ev::Curve(_, v, _) => v.iter_mut().for_each(|v| *v *= by),
        }
    }
    if let Some(m) = &mut a.modulation {
        m.sig.amp *= by;
    }
    a
}

fn check(case: &Case, obs: &mut Obs) -> CaseResult {
    let mut ctx = offline(1, QUANTA * RQ, case.sr);
    let nyquist = case.sr / 2.;
    let node = BiquadFilterNode::new(
        &ctx,
        BiquadFilterOptions {
            type_: case.kind.api(),
            ..Default::default()
        },
    );
    let freq = Driven::new(&ctx, &scale(&case.freq, nyquist), node.frequency());
    let detune = Driven::new(&ctx, &case.detune, node.detune());
    let q = Driven::new(&ctx, &case.q, node.q());
    let gain = Driven::new(&ctx, &case.gain, node.gain());

    // frequency response of the present settings
    let wobble = |d: f64| 3e-7 + 1.2e-7 * (d / 1200.).abs();
    {
        let hz: Vec<f32> = case.at.iter().map(|f| f * nyquist).collect();
        let (mut mag, mut phase) = (vec![7f32; hz.len()], vec![7f32; hz.len()]);
        node.get_frequency_response(&hz, &mut mag, &mut phase);
        let d = case.detune.base as f64;
        let f = (case.freq.base as f64).clamp(0., 1.) * (d / 1200.).exp2();
        for (i, &h) in hz.iter().enumerate() {
            obs.comparisons += 1;
            if h < 0. || h > nyquist {
                ensure!(
                    mag[i].is_nan() && phase[i].is_nan(),
                    "response at {h} Hz is not NaN: {} {}",
                    mag[i],
                    phase[i]
                );
                continue;
            }
            if case.freq.base > 0. && f < 1e-30 {
                continue;
            }
            let at = h as f64 / nyquist as f64;
            let w = wobble(d);
            let r = |s: f64, t: f64| {
                response(
                    &coefs(
                        case.kind,
                        f * (1. + s * w),
                        case.q.base as f64,
                        case.gain.base as f64,
                    ),
                    at * (1. + t * 1.2e-7),
                )
            };
            let e = r(0., 0.);
            let size = e[0].hypot(e[1]);
            let mut tol = 1e-6 * size + 1e-6;
            for (s, t) in [(1., 0.), (-1., 0.), (0., 1.), (0., -1.)] {
                let v = r(s, t);
                tol += 3. * (v[0] - e[0]).hypot(v[1] - e[1]);
            }
            // rounding of coefficients
            let c = coefs(case.kind, f, case.q.base as f64, case.gain.base as f64);
            for k in 0..5 {
                for by in [4e-16, -4e-16] {
                    let mut c = c;
                    c[k] *= 1. + by;
                    let v = response(&c, at);
                    tol += 3. * (v[0] - e[0]).hypot(v[1] - e[1]);
                }
            }
            if !tol.is_finite() {
                obs.label("response not finite (skipped)");
                continue;
            }
            let got = [
                mag[i] as f64 * (phase[i] as f64).cos(),
                mag[i] as f64 * (phase[i] as f64).sin(),
            ];
            ensure!(
                (got[0] - e[0]).hypot(got[1] - e[1]) <= tol
                    && mag[i] >= 0.
                    && phase[i].abs() <= 3.1416,
                "response at {h} Hz: magnitude {} phase {}, expected {} {}",
                mag[i],
                phase[i],
                size,
                e[1].atan2(e[0])
            );
        }
        obs.label_if(!hz.is_empty(), "response queried");
    }

    let (src, _cap, input) = feed(&ctx, &case.input, &node, AudioNodeOptions::default());
    let (_cap2, output) = observe(&ctx, &node, 0);
    let node = Arc::new(Mutex::new(Some(node)));
    if let Some((q, t)) = case.then {
        let n = node.clone();
        let drop = case.drop;
        ctx.suspend_sync((q * RQ - 64) as f64 / case.sr as f64, move |_| {
            if let Some(n) = n.lock().unwrap().as_mut() {
                n.set_type(t.api());
            }
            if drop {
                *n.lock().unwrap() = None;
            }
        });
    } else if case.drop {
        *node.lock().unwrap() = None;
    }
    let src = if case.drop { None } else { Some(src) };
    let _ = ctx.start_rendering_sync();
    drop(src);
    let input = blocks(&input);
    let (freq, detune, q, gain) = (freq.values(), detune.values(), q.values(), gain.values());
    // channels that are always there
    let channels = case.input.common_channels();
    let uniform = case.input.uniform();

    // an underflow to zero is a matter of precision
    let tiny = |f: f32, d: f32| f > 0. && (f as f64) * (d as f64 / 1200.).exp2() < 1e-30;
    if (0..QUANTA).any(|k| (0..RQ).any(|i| tiny(freq[k][i], detune[k][i]))) {
        obs.label("frequency underflows (skipped)");
        return Ok(());
    }

    // several runs: exact, and with the rounding of the computed frequency to either side or at
    // random
    let run = |s: &dyn Fn(usize) -> f64| -> Vec<Vec<Vec<f64>>> {
        let mut state = vec![[0f64; 4]; channels];
        input
            .iter()
            .enumerate()
            .map(|(k, b)| {
                let t = match case.then {
                    Some((at, t)) if k >= at => t,
                    _ => case.kind,
                };
                let mut out = vec![vec![0.; RQ]; channels];
                for i in 0..RQ {
                    let d = detune[k][i] as f64;
                    let f = freq[k][i] as f64 / nyquist as f64
                        * (d / 1200.).exp2()
                        * (1. + s(k * RQ + i) * wobble(d));
                    let c = coefs(t, f, q[k][i] as f64, gain[k][i] as f64);
                    for ch in 0..channels {
                        let x = if b.len() > ch { b[ch][i] as f64 } else { 0. };
                        let st = &mut state[ch];
                        let y =
                            c[0] * x + c[1] * st[0] + c[2] * st[1] - c[3] * st[2] - c[4] * st[3];
                        let y = if y.abs() < 1e-300 { 0. } else { y };
                        *st = [x, st[0], y, st[2]];
                        out[ch][i] = y;
                    }
                }
                out
            })
            .collect()
    };
    let expect = run(&|_| 0.);
    let around = [
        run(&|_| 1.),
        run(&|_| -1.),
        run(&|i| noise(1, 0, i).signum() as f64),
        run(&|i| noise(2, 0, i).signum() as f64),
        run(&|i| if i % 2 == 0 { 1. } else { -1. }),
    ];
    let mut spread = vec![0f64; channels];
    let got = blocks(&output);
    ensure!(got.len() == QUANTA, "{} quanta", got.len());
    let mut peak = input
        .iter()
        .flatten()
        .flatten()
        .fold(0f32, |m, v| m.max(v.abs())) as f64;
    let mut heard = false;
    'all: for k in 0..QUANTA {
        if got[k].len() != channels && uniform && !zero(&got[k]) {
            return Err(format!(
                "quantum {k}: {} channels, expected {channels}",
                got[k].len()
            ));
        }
        for i in 0..RQ {
            for ch in 0..channels {
                let e = expect[k][ch][i];
                peak = peak.max(e.abs());
                if !(peak < 1e30) || !e.is_finite() {
                    obs.label("grows beyond 1e30 (rest skipped)");
                    break 'all;
                }
                let g = if got[k].len() > ch { got[k][ch][i] } else { 0. };
                // rounding errors fade at most as fast as this
                spread[ch] = around
                    .iter()
                    .fold(spread[ch] * 0.999, |m, r| m.max((r[k][ch][i] - e).abs()));
                let tol = 2e-7 * peak + 1e-6 * e.abs() + 4. * spread[ch];
                heard |= e.abs() > 1e-3 * peak && e.abs() > 1e-6;
                obs.comparisons += 1;
                ensure!(
                    (g as f64 - e).abs() <= tol,
                    "channel {ch} frame {} (quantum {k}): rendered {g:e}, expected {e:e}, tolerance {tol:e}",
                    k * RQ + i
                );
            }
        }
    }
    obs.nontrivial_if(heard);
    obs.label_if(case.then.is_some(), "type changed while rendering");
    obs.label_if(!case.freq.is_constant(), "automated frequency");
    obs.label_if(
        !case.q.is_constant() || !case.gain.is_constant(),
        "automated Q or gain",
    );
    obs.label_if(
        !case.detune.is_constant() || case.detune.base != 0.,
        "detuned",
    );
    obs.label_if(channels > 1, "several channels");
    obs.label_if(!uniform, "changing layout");
    obs.label_if(case.drop, "handles dropped");
    Ok(())
}

pub fn run(r: &mut Runner) {
    r.rule = "some expected output sample is above 1e-6 and 1e-3 of the peak".into();
    r.assumptions = vec![
        "the mixed input and the parameter values are those a custom processor receives at the same time".into(),
        "when the number of channels changes, only the channels that are always there are compared (the tail of the others is not specified)".into(),
        "tolerance: 2e-7 of the peak so far plus 1e-6 relative, plus four times the effect of rounding the computed frequency in single precision (measured by perturbing the reference)".into(),
    ];
    r.suite("filter", 250_000, 1_000_000, strategy, check);
}
