//! C08: suspensions of offline rendering
use crate::program::*;
use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use web_audio_api::context::*;
use web_audio_api::node::*;

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    program: Program,
    /// times in frames, in the order of scheduling
    pauses: Vec<f64>,
    frames: usize,
}

fn rates() -> BoxedStrategy<f32> {
    prop_oneof![3 => Just(32768f32), 1 => Just(65536f32), 1 => Just(8192f32), 3 => Just(44100f32), 2 => Just(48000f32)].boxed()
}

fn strategy() -> BoxedStrategy<Case> {
    program(Shape {
        profile: Profile::All,
        max_quanta: 16,
        drops: true,
        loops: true,
        wild: false,
        sr: rates,
    })
    .prop_flat_map(|p| {
        let n = p.quanta * RQ;
        (
            Just(p),
            prop::collection::vec(
                prop_oneof![
                    2 => (0..n * 64).prop_map(|t| t as f64 / 64.),
                    2 => (0..n / RQ).prop_map(|q| (q * RQ) as f64),
                    1 => (0..n / RQ, prop::sample::select(vec![0.015625f64, 1., 127., 127.984375]))
                        .prop_map(|(q, d)| (q * RQ) as f64 + d),
                ],
                1..8,
            ),
            edge_len(RQ + 1..=n),
        )
    })
    .prop_map(|(program, mut pauses, frames)| {
        // boundaries are exact only for some sample rates
        if program.sr as u32 % 8192 != 0 {
            pauses.retain(|t| *t == 0. || *t >= 1.);
            for t in pauses.iter_mut() {
                if (*t / RQ as f64).fract() < 1e-3 && *t >= 1. {
                    *t -= 0.5;
                }
            }
        }
        pauses.retain(|t| ((t / RQ as f64).ceil() as usize) * RQ < frames);
        Case {
            program,
            pauses,
            frames,
        }
    })
    .boxed()
}

fn check(case: &Case, obs: &mut Obs) -> CaseResult {
    let p = &case.program;
    let run = |pauses: &[f64], async_: bool| {
        render(
            p,
            &Run {
                frames: Some(case.frames),
                async_,
                pauses: pauses.to_vec(),
                ..Default::default()
            },
        )
    };
    let plain = run(&[], false);
    let paused = run(&case.pauses, false);
    let other = run(&case.pauses, true);
    // quanta at which something is done
    let mut stops: Vec<usize> = case
        .pauses
        .iter()
        .map(|t| (t / RQ as f64).ceil() as usize)
        .collect();
    stops.extend(
        p.ops
            .iter()
            .map(|(q, _)| *q)
            .filter(|q| *q > 0 && q * RQ < case.frames),
    );
    stops.sort();
    stops.dedup();
    for (r, what) in [(&paused, "callbacks"), (&other, "asynchronous")] {
        let seen: Vec<usize> = r.suspensions.iter().map(|s| s.0).collect();
        ensure!(
            seen == stops,
            "{what}: suspended at quanta {seen:?}, expected {stops:?}"
        );
        for (q, t, state) in &r.suspensions {
            ensure!(
                *state == AudioContextState::Suspended,
                "{what}: state {state:?} in quantum {q}"
            );
            let want = (q * RQ) as f64 / p.sr as f64;
            ensure!(
                (t - want).abs() <= 1e-12 * want,
                "{what}: time {t} in quantum {q}, expected {want}"
            );
            obs.comparisons += 1;
        }
    }
    obs.comparisons += identical("with versus without suspensions", &paused.data, &plain.data)?;
    obs.comparisons += identical("callbacks versus asynchronous", &paused.data, &other.data)?;
    obs.nontrivial_if(stops.len() > 1 && peak(&plain.data) > 1e-4);
    obs.label_if(p.ops.iter().any(|(q, _)| *q > 0), "changed while suspended");
    Ok(())
}

/// Sources started and connected during suspensions
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Starts {
    sr: f32,
    frames: usize,
    /// suspension, first frame after the suspension, frames, value, how
    sounds: Vec<(f64, usize, usize, f32, u8)>,
    /// times that must be rejected or accepted
    extra: Vec<f64>,
    async_: bool,
}

fn starts() -> BoxedStrategy<Starts> {
    (3usize..12)
        .prop_flat_map(|quanta| {
            let n = quanta * RQ;
            let time = move || {
                prop_oneof![
                    1 => (0..n * 4).prop_map(|t| t as f64 / 4.),
                    1 => (0..quanta).prop_map(|q| (q * RQ) as f64),
                ]
            };
            (
                prop::sample::select(vec![32768f32, 65536., 16384.]),
                edge_len(RQ + 1..=n),
                prop::collection::vec((time(), 0..300usize, 1..500usize, 0.1f32..1., 0u8..3), 1..5),
                prop::collection::vec(
                    prop_oneof![3 => time(), 1 => Just(n as f64), 1 => Just(-1f64), 1 => (n as f64)..1e6],
                    0..4,
                ),
                any::<bool>(),
            )
        })
        .prop_map(|(sr, frames, sounds, extra, async_)| Starts { sr, frames, sounds, extra, async_ })
        .boxed()
}

fn sound(ctx: &OfflineAudioContext, s: &(f64, usize, usize, f32, u8)) {
    let (_, after, len, value, how) = *s;
    let sr = ctx.sample_rate() as f64;
    let now = ctx.current_time();
    match how {
        0 => {
            let mut src = ctx.create_constant_source();
            src.offset().set_value(value);
            src.connect(&ctx.destination());
            src.start_at(now + after as f64 / sr);
            src.stop_at(now + (after + len) as f64 / sr);
        }
        1 => {
            let b = web_audio_api::AudioBuffer::from(vec![vec![value; len]], sr as f32);
            let mut src = ctx.create_buffer_source();
            src.set_buffer(b);
            src.connect(&ctx.destination());
            src.start_at(now + after as f64 / sr);
        }
        // through a gain that is automated
        _ => {
            let mut src = ctx.create_constant_source();
            let gain = ctx.create_gain();
            gain.gain().set_value(0.);
            gain.gain()
                .set_value_at_time(value, now + after as f64 / sr);
            gain.gain()
                .set_value_at_time(0., now + (after + len) as f64 / sr);
            src.connect(&gain);
            gain.connect(&ctx.destination());
            src.start();
        }
    }
}

fn check_starts(case: &Starts, obs: &mut Obs) -> CaseResult {
    let sr = case.sr as f64;
    let mut ctx = offline(1, case.frames, case.sr);
    let ran: std::sync::Arc<std::sync::Mutex<Vec<usize>>> = Default::default();
    let states = std::sync::Arc::new(std::sync::Mutex::new(0));
    {
        let states = states.clone();
        ctx.set_onstatechange(move |_| *states.lock().unwrap() += 1);
    }
    let mut used: Vec<usize> = vec![];
    let mut expect = vec![0f32; case.frames];
    let mut plan = vec![];
    // frames the sounds begin at; times that cannot be scheduled are rejected
    let all = case
        .sounds
        .iter()
        .map(|s| (s.0, Some(*s)))
        .chain(case.extra.iter().map(|t| (*t, None)));
    let mut rejected = 0;
    for (t, s) in all {
        let q = (t / RQ as f64).ceil();
        let valid =
            t >= 0. && q * (RQ as f64) < case.frames as f64 && !used.contains(&(q as usize));
        plan.push((t, s, valid));
        if !valid {
            rejected += 1;
            continue;
        }
        let q = q as usize;
        used.push(q);
        if let Some(s) = s {
            let first = q * RQ + s.1;
            for v in expect.iter_mut().skip(first).take(s.2) {
                *v += s.3;
            }
        }
    }
    let buffer = if case.async_ {
        let mut futures: Vec<std::pin::Pin<Box<dyn std::future::Future<Output = ()> + '_>>> =
            vec![];
        for (t, s, valid) in &plan {
            let (ctx, ran) = (&ctx, ran.clone());
            let (t, s) = (*t, *s);
            let mut f: std::pin::Pin<Box<dyn std::future::Future<Output = ()> + '_>> =
                Box::pin(async move {
                    ctx.suspend(t / sr).await;
                    ran.lock()
                        .unwrap()
                        .push((ctx.current_time() * sr) as usize / RQ);
                    if let Some(s) = s {
                        sound(ctx, &s);
                    }
                    ctx.resume().await;
                });
            // schedule now
            let r = accepts(|| {
                let waker = futures::task::noop_waker();
                let mut cx = std::task::Context::from_waker(&waker);
                f.as_mut().poll(&mut cx).is_pending()
            });
            ensure!(
                r.is_ok() == *valid,
                "suspension at frame {t}: {r:?}, valid: {valid}"
            );
            if *valid {
                futures.push(f);
            }
        }
        let all = futures::future::join_all(futures);
        futures::executor::block_on(async { futures::join!(all, ctx.start_rendering()).1 })
    } else {
        for (t, s, valid) in &plan {
            let ran = ran.clone();
            let s = *s;
            let r = accepts(|| {
                ctx.suspend_sync(t / sr, move |ctx| {
                    ran.lock()
                        .unwrap()
                        .push((ctx.current_time() * sr) as usize / RQ);
                    if let Some(s) = s {
                        sound(ctx, &s);
                    }
                })
            });
            ensure!(
                r.is_ok() == *valid,
                "suspension at frame {t}: {r:?}, valid: {valid}"
            );
        }
        ctx.start_rendering_sync()
    };
    used.sort();
    let ran = ran.lock().unwrap().clone();
    ensure!(
        ran == used,
        "suspended at quanta {ran:?}, expected {used:?}"
    );
    // running, suspended and running again every time, closed
    let states = *states.lock().unwrap();
    ensure!(
        states == 2 + 2 * used.len(),
        "{states} statechange events for {} suspensions",
        used.len()
    );
    let want = vec![expect.iter().map(|v| *v as f64).collect()];
    obs.comparisons += compare("sounds", &to_vecs(&buffer), &want, 1e-6, 1e-6)?;
    obs.nontrivial_if(!used.is_empty() && expect.iter().any(|v| *v != 0.));
    obs.label_if(case.async_, "asynchronous");
    obs.label_if(rejected > 0, "rejected");
    Ok(())
}

pub fn run(r: &mut Runner) {
    r.rule = "programs: generated programs of all kinds of nodes rendered without and with additional suspensions at arbitrary times in arbitrary order of scheduling, with callbacks and asynchronously: same audio bit for bit, suspensions at the expected quanta in order with the right state and time. starts: sounds of known position started during suspensions must appear at exactly those frames, the state changes twice for every suspension, suspensions that cannot happen are rejected. Non-trivial: at least two suspensions (one for starts) and audible output".into();
    r.assumptions = vec!["a suspension whose quantized time is not before the end, or for which another one is scheduled, is rejected as documented".into()];
    r.suite("programs", 20_000, 500_000, strategy, check);
    r.suite("starts", 100_000, 1_000_000, starts, check_starts);
}
