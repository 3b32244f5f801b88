//! C15: playback of audio buffers
use crate::capture::*;
use crate::rig::*;
use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::{Arc, Mutex};
use web_audio_api::node::*;

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    Loop(bool),
    /// in frames of the buffer
    LoopStart(f64),
    LoopEnd(f64),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    sr: f32,
    buffer_sr: f32,
    quanta: usize,
    sig: Sig,
    rate: Auto,
    detune: Auto,
    looping: bool,
    /// frames of the buffer
    loop_points: (f64, f64),
    /// frames of the context
    start: f64,
    /// frames of the buffer
    offset: Option<f64>,
    duration: Option<f64>,
    stop: Option<f64>,
    ops: Vec<(usize, Op)>,
    /// the buffer is set after the source was started
    late_buffer: bool,
}

fn rate_value() -> BoxedStrategy<f32> {
    prop_oneof![
        6 => Just(1f32),
        2 => prop::sample::select(vec![0.5f32, 2., 0.25, 1.5, 3., 0.125, 1.0625]),
        2 => prop::sample::select(vec![-1f32, -0.5, -2., -0.25, -1.5]),
        2 => 0.01f32..4.,
        1 => -3f32..-0.01,
        1 => Just(0f32),
        1 => 4f32..40.,
    ]
    .boxed()
}

fn detune_value() -> BoxedStrategy<f32> {
    prop_oneof![
        10 => Just(0f32),
        2 => prop::sample::select(vec![1200f32, -1200., 2400., -2400.]),
        2 => -2000f32..2000.,
    ]
    .boxed()
}

fn auto_k(value: fn() -> BoxedStrategy<f32>, frames: usize) -> BoxedStrategy<Auto> {
    prop_oneof![
        8 => value().prop_map(|v| Auto { k_rate: true, ..Auto::constant(v) }),
        2 => (value(), proptest::collection::vec((0..frames, value()), 1..3)).prop_map(|(base, mut e)| {
            e.sort_by_key(|e| e.0);
            Auto {
                base,
                k_rate: true,
                events: e.into_iter().map(|(t, v)| Ev::Set(t as f64, v)).collect(),
                modulation: None,
            }
        }),
        1 => (value(), 0..frames, value()).prop_map(|(base, t, v)| Auto {
            base,
            k_rate: true,
            events: vec![Ev::Lin(t as f64, v)],
            modulation: None,
        }),
    ]
    .boxed()
}

/// positions in a buffer of `len` frames, a little beyond both ends
fn position(len: usize) -> BoxedStrategy<f64> {
    let n = len as f64;
    prop_oneof![
        4 => (0..=len).prop_map(|f| f as f64),
        2 => (0..len * 4).prop_map(|f| f as f64 / 4.),
        1 => 0. ..n,
        1 => Just(0f64),
        1 => Just(n),
        1 => (1usize..100).prop_map(move |f| n + f as f64),
    ]
    .boxed()
}

fn strategy() -> BoxedStrategy<Case> {
    let rates = prop_oneof![
        5 => sample_rate().prop_map(|r| (r, r)),
        3 => Just((32768f32, 32768f32)),
        2 => prop::sample::select(vec![(32768f32, 16384f32), (32768., 65536.), (16384., 32768.), (32768., 4096.)]),
        3 => (sample_rate(), sample_rate()),
    ];
    (
        (rates, 2usize..8),
        sig(
            prop_oneof![4 => Just(1usize), 2 => Just(2usize), 1 => 3usize..=8],
            1..=700,
        ),
    )
        .prop_flat_map(|((rates, quanta), sig)| {
            let frames = quanta * RQ;
            let len = sig.len;
            let op = prop_oneof![
                2 => any::<bool>().prop_map(Op::Loop),
                1 => position(len).prop_map(Op::LoopStart),
                1 => position(len).prop_map(Op::LoopEnd),
            ];
            let time = move || {
                prop_oneof![
                    2 => (0..frames).prop_map(|f| f as f64),
                    1 => (0..quanta).prop_map(|q| (q * RQ) as f64),
                    1 => (0..frames, 1..16usize).prop_map(|(f, k)| f as f64 + k as f64 / 16.),
                ]
            };
            let points = prop_oneof![
                2 => Just((0., 0.)),
                3 => (position(len), position(len)),
                1 => (position(len), Just(0.)),
                1 => (Just(-3.), position(len)),
            ];
            let duration = prop_oneof![
                3 => position(len),
                1 => position(3 * len),
            ];
            (
                Just((rates, quanta, sig)),
                (auto_k(rate_value, frames), auto_k(detune_value, frames)),
                (any::<bool>(), points),
                prop_oneof![2 => Just(0f64), 3 => time()],
                (
                    proptest::option::weighted(0.4, position(len)),
                    proptest::option::weighted(0.3, duration),
                ),
                proptest::option::weighted(0.2, time()),
                prop_oneof![
                    3 => Just(vec![]),
                    1 => proptest::collection::vec((0..quanta, op), 1..4),
                ],
                prop::bool::weighted(0.1),
            )
        })
        .prop_map(
            |(
                (rates, quanta, sig),
                (rate, detune),
                (looping, loop_points),
                start,
                (offset, duration),
                stop,
                mut ops,
                late_buffer,
            )| {
                ops.sort_by_key(|o| o.0);
                Case {
                    sr: rates.0,
                    buffer_sr: rates.1,
                    quanta,
                    sig,
                    rate,
                    detune,
                    looping,
                    loop_points,
                    start,
                    offset,
                    duration,
                    stop,
                    ops,
                    late_buffer,
                }
            },
        )
        .boxed()
}

/// What is acceptable for one frame
#[derive(Clone, Copy, Debug)]
struct Place {
    /// position in the buffer
    at: f64,
    /// linear interpolation beyond the last frame continues here
    next: Option<f64>,
}

/// Range of acceptable samples of one channel
fn value(d: &[f64], Place { at, next }: Place) -> (f64, f64) {
    let k = at.floor();
    let x = at - k;
    let a = d[k as usize];
    let last = d.len() - 1;
    if (k as usize) < last {
        let v = a * (1. - x) + d[k as usize + 1] * x;
        (v, v)
    } else if x < 1e-9 {
        (a, a)
    } else if let Some(n) = next {
        let (b, c) = (d[n.floor() as usize], d[(n.ceil() as usize).min(last)]);
        let (b, c) = (a * (1. - x) + b * x, a * (1. - x) + c * x);
        (b.min(c), b.max(c))
    } else {
        // after the last frame: anything between silence and extrapolation
        let e = if k > 0. {
            a + (a - d[k as usize - 1]) * x
        } else {
            a
        };
        let z = a * (1. - x);
        (e.min(z).min(a).min(0.), e.max(z).max(a).max(0.))
    }
}

fn check(case: &Case, obs: &mut Obs) -> CaseResult {
    let frames = case.quanta * RQ;
    let sr = case.sr as f64;
    let bsr = case.buffer_sr as f64;
    let mut ctx = offline(1, frames, case.sr);
    let mut node = AudioBufferSourceNode::new(
        &ctx,
        AudioBufferSourceOptions {
            buffer: if case.late_buffer {
                None
            } else {
                Some(case.sig.buffer(case.buffer_sr))
            },
            loop_: case.looping,
            loop_start: case.loop_points.0 / bsr,
            loop_end: case.loop_points.1 / bsr,
            ..Default::default()
        },
    );
    let rate = Driven::new(&ctx, &case.rate, node.playback_rate());
    let detune = Driven::new(&ctx, &case.detune, node.detune());
    let (_cap, output) = observe(&ctx, &node, 0);
    match (case.offset, case.duration) {
        (None, None) => node.start_at(case.start / sr),
        (Some(o), None) => node.start_at_with_offset(case.start / sr, o / bsr),
        (o, Some(d)) => {
            node.start_at_with_offset_and_duration(case.start / sr, o.unwrap_or(0.) / bsr, d / bsr)
        }
    }
    if let Some(s) = case.stop {
        node.stop_at(s / sr);
    }
    if case.late_buffer {
        node.set_buffer(case.sig.buffer(case.buffer_sr));
    }
    let node = Arc::new(Mutex::new(node));
    let positions = Arc::new(Mutex::new(vec![]));
    for q in 0..case.quanta {
        let ops: Vec<Op> = case
            .ops
            .iter()
            .filter(|o| o.0 == q)
            .map(|o| o.1.clone())
            .collect();
        let (node, positions) = (node.clone(), positions.clone());
        let at = (q * RQ) as f64 - if q > 0 { 64. } else { 0. };
        ctx.suspend_sync(at / sr, move |_| {
            let mut node = node.lock().unwrap();
            positions.lock().unwrap().push(node.position());
            for op in &ops {
                match op {
                    Op::Loop(v) => node.set_loop(*v),
                    Op::LoopStart(v) => node.set_loop_start(*v / bsr),
                    Op::LoopEnd(v) => node.set_loop_end(*v / bsr),
                }
            }
        });
    }
    let _ = ctx.start_rendering_sync();
    let output = blocks(&output);
    let positions = positions.lock().unwrap();
    let (rates, detunes) = (rate.values(), detune.values());

    // model, in frames of the buffer
    let data = to64(&case.sig.data());
    let len = case.sig.len as f64;
    // positions are taken to be on a boundary if they are so close
    let eps = (4e-6 * bsr / sr).max(1e-4);
    let mut looping = case.looping;
    let (mut loop_start, mut loop_end) = case.loop_points;
    let duration = case.duration.unwrap_or(f64::MAX);
    let mut offset = case.offset.unwrap_or(0.);
    let mut started = false;
    let mut entered = false;
    let mut p = 0.;
    let mut elapsed = 0.;
    let mut over = false;
    // effective loop
    let mut range = (0., len);
    let mut last_step = 0.;
    let (mut wraps, mut heard, mut interpolated, mut reversed) = (0, 0, false, false);
    let mut exhausted = false;
    let scale = peak64(&data);
    let dyadic = |v: f64| (v * 64.).fract() == 0.;
    let exact = [sr, bsr].iter().all(|r| r.log2().fract() == 0.)
        && [case.rate.base, case.detune.base / 1200.]
            .iter()
            .all(|v| dyadic(*v as f64))
        && case.rate.is_constant()
        && case.detune.is_constant()
        && [case.loop_points.0, case.loop_points.1, offset, case.start]
            .iter()
            .all(|v| dyadic(*v));
    // how far positions may have been moved to a boundary
    let mut drift = 0.;
    for q in 0..case.quanta {
        if started && !over && !looping {
            let got = positions[q] * bsr;
            ensure!(
                (got - p).abs() < 1e-3 + 1e-9 * p.abs(),
                "quantum {q}: position {got} frames, expected {p}"
            );
        }
        for op in case.ops.iter().filter(|o| o.0 == q) {
            // the playhead has reached the end of the loop but not yet wrapped
            // or the end of the buffer
            let end = started && ((p - len).abs() < eps || p.abs() < eps);
            if end || entered && (p < range.0 + eps || p > range.1 - eps) {
                obs.label("loop changed while wrapping");
                return Ok(());
            }
            match op.1 {
                Op::Loop(v) => looping = v,
                Op::LoopStart(v) => loop_start = v,
                Op::LoopEnd(v) => loop_end = v,
            }
        }
        let rate = rates[q][0] as f64 * (detunes[q][0] as f64 / 1200.).exp2();
        let step = rate * bsr / sr;
        // turned around at the very end: rounding decides whether it has ended before
        let turned = last_step * step < 0. && ((p - len).abs() < eps || p.abs() < eps);
        if started && turned {
            obs.label("turned around at the end");
            return Ok(());
        }
        if step != 0. {
            last_step = step;
        }
        let mut ls = loop_start.clamp(0., len);
        let mut le = if loop_end <= 0. || loop_end > len {
            len
        } else {
            loop_end
        };
        if ls >= le {
            ls = 0.;
            le = len;
        }
        if looping && le - ls < 0.05 {
            obs.label("tiny loop");
            return Ok(());
        }
        range = (ls, le);
        if !looping {
            entered = false;
        }
        let zero = zero(&output[q]);
        for i in 0..RQ {
            let t = (q * RQ + i) as f64;
            // the same with and without the source being over already
            let mut maybe_silent = over;
            let mut place = None;
            let mut either_end = false;
            if !over && t >= case.start {
                if case.stop.is_some_and(|s| t >= s) {
                    over = true;
                } else {
                    if !started {
                        started = true;
                        let delta = (t - case.start) * step;
                        elapsed = delta.abs();
                        // started between two frames and outside or over at the first one
                        maybe_silent |=
                            offset + delta < 0. || delta != 0. && elapsed > duration - eps;
                        let lenient = maybe_silent;
                        offset = (offset + delta).clamp(0., len);
                        let near = [ls, le].iter().any(|b| (offset - b).abs() < eps);
                        if looping && !exact && delta != 0. && near {
                            obs.label("loop entered by rounding");
                            return Ok(());
                        }
                        if looping && rate >= 0. {
                            offset = offset.min(le);
                        }
                        if looping && rate < 0. {
                            offset = offset.max(ls);
                        }
                        p = offset;
                        if lenient && elapsed > duration - eps {
                            over = true;
                        }
                    }
                    if !over && elapsed >= duration - eps {
                        over = true;
                        maybe_silent = elapsed < duration + eps;
                    }
                }
                if over && !maybe_silent {
                    exhausted |= case.duration.is_some();
                } else {
                    if looping {
                        let mut unsure = false;
                        for b in [ls, le, 0.] {
                            let d = (p - b).abs();
                            if d < 1e-9 && drift == 0. {
                                p = b;
                            } else if d < eps {
                                // may be moved to the boundary
                                unsure |= b != 0. || ls == 0.;
                                drift += d;
                            }
                        }
                        if !entered {
                            entered |= offset < le && p >= ls;
                            entered |= offset >= le && p < le;
                        }
                        if entered {
                            let before = wraps;
                            let on_end = p == le;
                            while p < ls - 1e-9 {
                                p += le - ls;
                                wraps += 1;
                            }
                            while p >= le - 1e-9 {
                                p -= le - ls;
                                wraps += 1;
                            }
                            // rounding decides on which side of the loop several wraps end
                            let margin = (p - ls).min(le - p);
                            either_end = !exact && wraps > before && !on_end && margin < eps;
                            either_end |= unsure;
                            if either_end && p - ls > eps {
                                p -= le - ls;
                            }
                            if p != 0. && p.abs() < eps {
                                drift += p.abs();
                            }
                        }
                        if unsure && !entered {
                            obs.label("loop entered by rounding");
                            return Ok(());
                        }
                    }
                    if (p - p.round()).abs() < 1e-9 {
                        p = p.round();
                    }
                    if p >= 0. && p < len {
                        place = Some(Place {
                            at: p,
                            next: looping.then_some(ls),
                        });
                    }
                    // rounding decides
                    if either_end && place.is_none() {
                        place = Some(Place {
                            at: p.max(ls),
                            next: Some(ls),
                        });
                    }
                    if !(looping && entered) && p.abs() < eps && p != 0. {
                        drift += p.abs();
                        maybe_silent = true;
                        place = Some(Place { at: 0., next: None });
                    }
                    if (p - len).abs() < eps && !looping {
                        maybe_silent = p != len;
                        place = maybe_silent.then(|| Place {
                            at: p.min(len - 1e-9),
                            next: None,
                        });
                    }
                    if (p - len).abs() < eps && looping && !entered {
                        maybe_silent = true;
                        place = Some(Place {
                            at: len - 1e-9,
                            next: Some(ls),
                        });
                    }
                    reversed |= step < 0. && place.is_some();
                    interpolated |= p.fract() != 0.;
                    p += step;
                    elapsed += step.abs();
                    if !looping && (step > 0. && p >= len || step < 0. && p < 0.) {
                        // nothing more to come, unless the loop is turned on right away
                        if (i + 1 == RQ && step > 0.)
                            || (step > 0. && p > len + eps)
                            || (step < 0. && p < -eps)
                        {
                            exhausted = true;
                        }
                    }
                }
            }
            let near = if maybe_silent { eps } else { 0. };
            let tol = (1e-6 + 2. * (drift + near)) * scale;
            for (c, d) in data.iter().enumerate() {
                let got = if zero {
                    0.
                } else {
                    ensure!(
                        output[q].len() == data.len(),
                        "quantum {q}: {} channels",
                        output[q].len()
                    );
                    output[q][c][i] as f64
                };
                let (lo, hi) = place.map_or((0., 0.), |p| value(d, p));
                let fine = got >= lo - tol && got <= hi + tol
                    || maybe_silent && got == 0.
                    || either_end && {
                        let k = le.ceil() as usize - 1;
                        let x = le - k as f64;
                        let (lo, hi) = if k + 1 < d.len() {
                            let v = d[k] * (1. - x) + d[k + 1] * x;
                            (v, v)
                        } else {
                            let at = k as f64 + x.min(1. - 1e-12);
                            value(d, Place { at, next: Some(ls) })
                        };
                        let tol = tol + 3. * eps * scale;
                        got > lo - tol && got < hi + tol
                    };
                ensure!(
                    fine,
                    "channel {c} frame {t} (quantum {q}, offset {i}): {got}, expected {lo}..{hi} from {place:?}, wrapped {wraps} times, {elapsed} elapsed"
                );
                obs.comparisons += 1;
                heard += (lo > 1e-3 || hi < -1e-3) as usize;
            }
        }
        if started && exhausted && !looping {
            over = true;
        }
    }
    obs.nontrivial_if(heard > 0);
    obs.label_if(wraps > 0, "looped");
    obs.label_if(reversed, "reversed");
    obs.label_if(interpolated, "between frames");
    obs.label_if(case.sr != case.buffer_sr, "other sample rate");
    obs.label_if(case.duration.is_some() && over, "duration");
    obs.label_if(!case.ops.is_empty(), "loop changed while playing");
    Ok(())
}

pub fn run(r: &mut Runner) {
    r.rule = "some frame is expected to be audible".into();
    r.assumptions = vec![
        "playback rate and detune are those of a custom processor's k-rate parameter with the same automation at the same time".into(),
        "loop points are limited to the buffer and otherwise ignored as the Web Audio specification prescribes; playback that starts behind the loop does not enter it".into(),
        "positions within 1e-4 frames of a boundary (more for high buffer sample rates) may be moved to it".into(),
        "between the last frame and the end of a buffer that is not looped any value between silence and linear extrapolation is accepted".into(),
        "loops of at least 0.05 frames; buffers of 1-700 frames, rates up to 160, 2-7 quanta".into(),
    ];
    r.suite("playback", 800_000, 5_000_000, strategy, check);
}
