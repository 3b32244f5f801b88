//! C14: start and stop times of scheduled sources, ended events
use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use web_audio_api::context::*;
use web_audio_api::node::*;
use web_audio_api::{PeriodicWave, PeriodicWaveOptions};

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
enum Kind {
    Constant,
    Oscillator,
    /// length in frames
    Buffer(usize),
    LoopedBuffer(usize),
    /// buffer source without a buffer
    NoBuffer,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    /// `None` is now
    Start(Option<f64>),
    Stop(Option<f64>),
    Drop,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    sr: f32,
    quanta: usize,
    kind: Kind,
    /// a parameter that changes with every frame
    automated: bool,
    /// before which quantum, what; times are in frames
    ops: Vec<(usize, Op)>,
}

fn time(quanta: usize) -> BoxedStrategy<f64> {
    let n = quanta * RQ;
    prop_oneof![
        3 => (0..n + 200).prop_map(|f| f as f64),
        3 => (0..n + 200, 0.05f64..0.95).prop_map(|(f, x)| f as f64 + x),
        2 => (0..=quanta, -2i64..=2).prop_map(|(q, d)| ((q * RQ) as i64 + d).max(0) as f64),
        1 => (0..n + 200).prop_map(|f| f as f64 + 0.5),
        1 => Just(0f64),
    ]
    .boxed()
}

fn strategy() -> BoxedStrategy<Case> {
    let kind = prop_oneof![
        4 => Just(Kind::Constant),
        4 => Just(Kind::Oscillator),
        4 => edge_len(1..=800).prop_map(Kind::Buffer),
        1 => (1usize..400).prop_map(Kind::LoopedBuffer),
        1 => Just(Kind::NoBuffer),
    ];
    let rate = prop_oneof![2 => Just(32768f32), 3 => sample_rate()];
    (2usize..8, kind, rate, prop::bool::weighted(0.3))
        .prop_flat_map(|(quanta, kind, sr, automated)| {
            let when = move || prop_oneof![5 => time(quanta).prop_map(Some), 1 => Just(None)];
            let at = move || prop_oneof![2 => Just(0usize), 1 => 0..quanta];
            let start = proptest::option::weighted(0.95, (at(), when()));
            let stops = proptest::collection::vec((at(), when()), 0..4);
            let dropped = proptest::option::weighted(0.3, 0..quanta);
            (Just((quanta, kind, sr, automated)), start, stops, dropped)
        })
        .prop_map(|((quanta, kind, sr, automated), start, stops, dropped)| {
            let mut ops = vec![];
            if let Some((q, mut t)) = start {
                // whether less than a frame ago is in the past is a matter of taste
                let now = (q * RQ) as f64;
                if t.is_some_and(|t| t < now && t > now - 1.) {
                    t = Some(now);
                }
                ops.push((q, Op::Start(t)));
                // stopping is possible only after starting
                ops.extend(stops.into_iter().map(|(s, t)| (s.max(q), Op::Stop(t))));
            }
            ops.sort_by_key(|o| o.0);
            if let Some(d) = dropped {
                let last = ops.last().map_or(0, |o| o.0);
                ops.push((d.max(last), Op::Drop));
            }
            Case {
                sr,
                quanta,
                kind,
                automated,
                ops,
            }
        })
        .boxed()
}

enum Node {
    Constant(ConstantSourceNode),
    Oscillator(OscillatorNode),
    Buffer(AudioBufferSourceNode),
}

macro_rules! each {
    ($n:expr, $x:ident => $e:expr) => {
        match $n {
            Node::Constant($x) => $e,
            Node::Oscillator($x) => $e,
            Node::Buffer($x) => $e,
        }
    };
}

fn apply(node: &mut Option<Node>, op: &Op, sr: f64) {
    match op {
        Op::Drop => *node = None,
        Op::Start(Some(t)) => each!(node.as_mut().unwrap(), n => n.start_at(t / sr)),
        Op::Start(None) => each!(node.as_mut().unwrap(), n => n.start()),
        Op::Stop(Some(t)) => each!(node.as_mut().unwrap(), n => n.stop_at(t / sr)),
        Op::Stop(None) => each!(node.as_mut().unwrap(), n => n.stop()),
    }
}

fn check(case: &Case, obs: &mut Obs) -> CaseResult {
    let frames = case.quanta * RQ;
    let sr = case.sr as f64;
    let mut ctx = offline(1, frames, case.sr);
    // at most a fifth of a period: never zero
    let freq = 0.2 * case.sr / frames as f32;
    let node = match case.kind {
        Kind::Constant => {
            let c = ctx.create_constant_source();
            if case.automated {
                c.offset().set_value_at_time(1., 0.);
                c.offset()
                    .linear_ramp_to_value_at_time(2., frames as f64 / sr);
            }
            c.connect(&ctx.destination());
            Node::Constant(c)
        }
        Kind::Oscillator => {
            let wave = PeriodicWave::new(
                &ctx,
                PeriodicWaveOptions {
                    real: Some(vec![0., 1.]),
                    imag: None,
                    disable_normalization: false,
                },
            );
            let o = OscillatorNode::new(
                &ctx,
                OscillatorOptions {
                    frequency: freq,
                    periodic_wave: Some(wave),
                    ..Default::default()
                },
            );
            if case.automated {
                o.detune().set_value_at_time(0., 0.);
                o.detune()
                    .linear_ramp_to_value_at_time(1e-3, frames as f64 / sr);
            }
            o.connect(&ctx.destination());
            Node::Oscillator(o)
        }
        Kind::Buffer(_) | Kind::LoopedBuffer(_) | Kind::NoBuffer => {
            let mut b = ctx.create_buffer_source();
            if let Kind::Buffer(len) | Kind::LoopedBuffer(len) = case.kind {
                let sig = Sig {
                    channels: 1,
                    len,
                    kind: SigKind::Const,
                    amp: 1.,
                };
                b.set_buffer(sig.buffer(case.sr));
            }
            b.set_loop(matches!(case.kind, Kind::LoopedBuffer(_)));
            b.connect(&ctx.destination());
            Node::Buffer(b)
        }
    };
    let ended = Arc::new(AtomicUsize::new(0));
    let counter = ended.clone();
    each!(&node, n => n.set_onended(move |_| {
        counter.fetch_add(1, Ordering::SeqCst);
    }));
    let node = Arc::new(Mutex::new(Some(node)));
    // what was fired at the beginning of each quantum
    let fired = Arc::new(Mutex::new(vec![]));
    for q in 0..case.quanta {
        let ops: Vec<Op> = case
            .ops
            .iter()
            .filter(|o| o.0 == q)
            .map(|o| o.1.clone())
            .collect();
        let (node, fired, ended) = (node.clone(), fired.clone(), ended.clone());
        let at = (q * RQ) as f64 - if q > 0 { 64. } else { 0. };
        ctx.suspend_sync(at / sr, move |_| {
            fired.lock().unwrap().push(ended.load(Ordering::SeqCst));
            let mut node = node.lock().unwrap();
            for op in &ops {
                apply(&mut node, op, sr);
            }
        });
    }
    let out = ctx.start_rendering_sync();
    let out = out.get_channel_data(0);
    fired.lock().unwrap().push(ended.load(Ordering::SeqCst));
    let fired = fired.lock().unwrap();

    // model: times in frames, those of calls are rounded like the caller's division does
    let exact = case.sr == 32768.;
    let eps = if exact { 0. } else { 1e-6 };
    // the interpolation of the last frame may leave a rounding error
    let quiet = match case.kind {
        Kind::Buffer(_) => 1e-9,
        _ => 0.,
    };
    let mut start: Option<f64> = None;
    let mut stop: Option<f64> = None;
    // frame (not necessarily an integer) after which nothing is heard any more
    let mut end: Option<f64> = None;
    let mut heard = 0;
    let mut cut = false;
    let mut late_call = false;
    // the stop was too close to a call that changes it
    for q in 0..case.quanta {
        let now = (q * RQ) as f64;
        let over = |s: Option<f64>| s.is_some_and(|s| s <= now);
        // where rounding decides whether it has already stopped
        let unsure = |s: Option<f64>| s.is_some_and(|s| (s - now).abs() <= eps && eps > 0.);
        if end.is_none() && over(stop) {
            end = stop;
        }
        for op in case.ops.iter().filter(|o| o.0 == q) {
            if end.is_some() || (q > 0 && unsure(stop)) {
                if unsure(stop) && eps > 0. && matches!(op.1, Op::Stop(_)) {
                    obs.label("ambiguous by rounding");
                    return Ok(());
                }
                continue;
            }
            match op.1 {
                // starting in the past is starting now
                Op::Start(t) => start = Some(t.unwrap_or(now).max(now)),
                Op::Stop(t) => {
                    late_call |= q > 0;
                    stop = Some(t.unwrap_or(now).max(now))
                }
                Op::Drop => (),
            }
        }
        if case.kind == Kind::NoBuffer && start.is_some() && end.is_none() {
            end = Some(now);
        }
        for i in 0..RQ {
            let f = q * RQ + i;
            let t = f as f64;
            if end.is_none() {
                if stop.is_some_and(|s| s <= t) {
                    end = stop;
                    cut |= start.is_some_and(|s| s < stop.unwrap());
                } else if let (Some(s), Kind::Buffer(len)) = (start, case.kind) {
                    if t - s >= len as f64 - 1e-9 {
                        end = Some(s + len as f64);
                    }
                }
            }
            let on = end.is_none() && start.is_some_and(|s| s <= t);
            let expect = if !on {
                0.
            } else {
                match case.kind {
                    Kind::Constant if case.automated => 1. + t / frames as f64,
                    Kind::Oscillator => {
                        ((t - start.unwrap()) / sr * freq as f64 * std::f64::consts::TAU).cos()
                    }
                    _ => 1.,
                }
            };
            heard += on as usize;
            // between the last frame and the end of the buffer
            if let (true, Kind::Buffer(len)) = (on, case.kind) {
                if t - start.unwrap() > len as f64 - 1. + 1e-6 {
                    ensure!(
                        out[f] >= 0. && out[f] <= 1.001,
                        "frame {f}: {} after the last frame",
                        out[f]
                    );
                    continue;
                }
            }
            ensure!(
                (out[f] as f64 - expect).abs() < 1e-4 && (on || out[f].abs() <= quiet),
                "frame {f}: {} expected {expect} (start {start:?}, stop {stop:?}, ended {end:?})",
                out[f]
            );
            obs.comparisons += 1;
        }
        // the event is fired at the latest one quantum after the end
        let n = fired[q + 1];
        let last = q + 1 == case.quanta;
        let now = ((q + 1) * RQ) as f64;
        let bound = end.or(stop).unwrap_or(f64::MAX);
        let (lo, hi) = if last {
            // all sources that have been started end with the rendering
            let begun = |e: f64| start.is_some_and(|s| s <= now + e) || bound <= now + e;
            (begun(-eps) as usize, begun(eps) as usize)
        } else {
            (
                (end.is_some() && bound <= now - RQ as f64) as usize,
                (bound <= now + eps) as usize,
            )
        };
        let hi = match case.kind {
            // exhausted at the very end of the quantum
            Kind::Buffer(len) if start.is_some_and(|s| s + len as f64 <= now + eps) => 1,
            _ => hi,
        };
        ensure!(
            lo <= n && n <= hi,
            "after quantum {q}: ended event fired {n} times, expected {lo}..={hi} (start {start:?}, stop {stop:?}, ended {end:?})"
        );
    }
    obs.nontrivial_if(heard > 0 && heard < frames);
    obs.label(match case.kind {
        Kind::Constant => "constant",
        Kind::Oscillator => "oscillator",
        Kind::Buffer(_) => "buffer",
        Kind::LoopedBuffer(_) => "looped buffer",
        Kind::NoBuffer => "no buffer",
    });
    obs.label_if(start.is_none(), "never started");
    obs.label_if(cut, "stopped while playing");
    obs.label_if(late_call, "stop called while rendering");
    obs.label_if(
        stop.zip(start).is_some_and(|(a, b)| a <= b),
        "stop not after start",
    );
    Ok(())
}

pub fn run(r: &mut Runner) {
    r.rule = "some but not all frames are expected to be audible".into();
    r.assumptions = vec![
        "the first stop time that passes ends the source for good, later calls of stop have no effect".into(),
        "the end of an offline rendering ends all sources that have been started".into(),
        "the ended event may be delivered up to one render quantum after the end".into(),
        "2-7 quanta; frame times are frame / sample rate".into(),
    ];
    r.suite("schedule", 1_000_000, 5_000_000, strategy, check);
}
