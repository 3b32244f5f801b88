//! C40: render and playback statistics add up
use crate::live::*;
use crate::runner::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::mpsc;
use std::time::Duration;
use web_audio_api::context::*;
use web_audio_api::*;

const SR: f32 = 3000.;
/// frames of a callback that is never late
const LONG: usize = 12800;

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    /// duration and budget of a callback in nanoseconds, repeated
    Callback(u64, u64, u8),
    /// seconds; negative and non-finite ones are encoded
    Latency(f64),
    Odd(u8),
    Reset,
    Read,
    /// read one value only
    Get(u8),
    /// request audio
    Render(u8),
    /// until values are updated
    Wait,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    ops: Vec<Op>,
}

fn budget() -> BoxedStrategy<u64> {
    prop_oneof![
        4 => Just(2_666_667u64),
        2 => prop::sample::select(vec![2_902_494u64, 1_000_000, 10_000_000, 333_333_333, 1, 7]),
        1 => 0u64..50_000_000,
        1 => Just(0u64),
    ]
    .boxed()
}

fn callback() -> BoxedStrategy<(u64, u64, u8)> {
    (
        budget(),
        prop_oneof![
            4 => (0f64..1.).prop_map(|u| (u, 0i64)),
            4 => (1f64..3.).prop_map(|u| (u, 0)),
            2 => (-2i64..3).prop_map(|d| (1., d)),
            1 => (0f64..1000.).prop_map(|u| (u, 0)),
        ],
        prop_oneof![3 => Just(1u8), 1 => 1u8..5],
    )
        .prop_map(|(b, (u, d), n)| (((b as f64 * u).round() as i64 + d).max(0) as u64, b, n))
        .boxed()
}

fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        8 => callback().prop_map(|(r, b, n)| Op::Callback(r, b, n)),
        4 => prop_oneof![
            0f64..0.5,
            Just(0.),
            Just(0.01),
            0f64..1e-8,
            0f64..1000.,
        ]
        .prop_map(Op::Latency),
        1 => (0u8..6).prop_map(Op::Odd),
        2 => Just(Op::Reset),
        2 => Just(Op::Read),
        1 => (0u8..6).prop_map(Op::Get),
        1 => (1u8..3).prop_map(Op::Render),
    ]
    .boxed()
}

fn strategy() -> BoxedStrategy<Case> {
    prop::collection::vec(op(), 1..60)
        .prop_map(|mut ops| {
            ops.push(Op::Reset);
            Case { ops }
        })
        .boxed()
}

fn waiting() -> BoxedStrategy<Case> {
    (
        prop::collection::vec(op(), 1..20),
        prop::collection::vec(op(), 1..20),
    )
        .prop_map(|(mut ops, more)| {
            ops.push(Op::Read);
            ops.extend(more);
            ops.push(Op::Wait);
            ops.push(Op::Read);
            Case { ops }
        })
        .boxed()
}

#[derive(Debug, Clone, Default, PartialEq)]
struct Values {
    /// nanoseconds
    underrun: u128,
    events: u64,
    /// seconds
    time: f64,
    /// nanoseconds
    latencies: Vec<u64>,
}

impl Values {
    fn check(&self, s: &AudioPlaybackStatsSnapshot) -> Result<(), String> {
        let near = |what: &str, got: f64, expect: f64, abs: f64| {
            ensure!(
                got.is_finite() && (got - expect).abs() <= abs + 1e-12 * expect.abs(),
                "{what} is {got}, expected {expect}"
            );
            Ok(())
        };
        let seconds = |ns: f64| ns / 1e9;
        let underrun = seconds(self.underrun as f64);
        near("underrun duration", s.underrun_duration, underrun, 0.)?;
        ensure!(
            s.underrun_events == self.events,
            "{} underrun events, expected {}",
            s.underrun_events,
            self.events
        );
        near("total duration", s.total_duration, underrun + self.time, 0.)?;
        let n = self.latencies.len().max(1) as f64;
        let sum: f64 = self.latencies.iter().map(|l| *l as f64).sum();
        // in whole nanoseconds
        near(
            "average latency",
            s.average_latency,
            seconds(sum / n),
            1.1e-9,
        )?;
        let min = self.latencies.iter().min().copied().unwrap_or(0);
        let max = self.latencies.iter().max().copied().unwrap_or(0);
        near(
            "minimum latency",
            s.minimum_latency,
            seconds(min as f64),
            0.,
        )?;
        near(
            "maximum latency",
            s.maximum_latency,
            seconds(max as f64),
            0.,
        )
    }
}

fn snapshot(stats: &AudioPlaybackStats) -> AudioPlaybackStatsSnapshot {
    stats.to_json()
}

fn check(case: &Case, obs: &mut Obs) -> CaseResult {
    let mut live = open(SR, 1);
    live.callback(LONG);
    let stats = live.ctx.playback_stats();
    // everything recorded, and what has been read last
    let mut now = Values {
        time: live.ctx.current_time(),
        ..Values::default()
    };
    ensure!(
        (now.time - LONG as f64 / SR as f64).abs() < 1e-9,
        "time {} after {LONG} frames",
        now.time
    );
    let mut seen: Option<Values> = None;
    let mut late = false;
    let mut waited = false;
    let (mut runs, mut resets) = (0, 0);
    for (i, op) in case.ops.iter().enumerate() {
        match op {
            Op::Callback(r, b, n) => {
                for _ in 0..*n {
                    live.sink.record_render_callback(*r, *b);
                    let over = r.saturating_sub(*b);
                    now.underrun += over as u128;
                    if over > 0 && !late {
                        now.events += 1;
                        runs += 1;
                    }
                    late = over > 0;
                }
            }
            Op::Latency(l) => {
                live.sink.record_latency_seconds(*l);
                now.latencies.push((l * 1e9).round() as u64);
            }
            // not a latency, nothing is recorded
            Op::Odd(k) => live.sink.record_latency_seconds(
                [
                    f64::NAN,
                    f64::INFINITY,
                    f64::NEG_INFINITY,
                    -1.,
                    -1e-3,
                    -1e300,
                ][*k as usize % 6],
            ),
            Op::Reset => {
                stats.reset_latency();
                // the interval starts with the current latency
                let last = now.latencies.last().copied();
                now.latencies = last.into_iter().collect();
                seen = Some(now.clone());
                now.check(&snapshot(&stats))
                    .map_err(|e| format!("after reset {i}: {e}"))?;
                resets += 1;
                obs.comparisons += 6;
            }
            Op::Read | Op::Get(_) => {
                let s = snapshot(&stats);
                let single = match op {
                    Op::Get(k) => {
                        let (a, b) = match k % 6 {
                            0 => (stats.underrun_duration(), s.underrun_duration),
                            1 => (stats.underrun_events() as f64, s.underrun_events as f64),
                            2 => (stats.total_duration(), s.total_duration),
                            3 => (stats.average_latency(), s.average_latency),
                            4 => (stats.minimum_latency(), s.minimum_latency),
                            _ => (stats.maximum_latency(), s.maximum_latency),
                        };
                        Some((a, b))
                    }
                    _ => None,
                };
                // values are updated once per second, so those of the last read are fine
                let fresh = now.check(&s);
                let old = match &seen {
                    Some(v) if !waited => v.check(&s),
                    _ => Err(String::new()),
                };
                match (fresh, old) {
                    (Ok(()), _) => seen = Some(now.clone()),
                    (_, Ok(())) => (),
                    (Err(e), _) => return Err(format!("read {i}: {e}")),
                }
                if let Some((a, b)) = single {
                    // may have been updated in between
                    ensure!(
                        a == b || waited || snapshot(&stats).total_duration != s.total_duration,
                        "read {i}: single value {a}, {b} in the record"
                    );
                }
                waited = false;
                obs.comparisons += 6;
            }
            Op::Render(n) => {
                for _ in 0..*n {
                    live.callback(LONG);
                    // it is in time
                    late = false;
                }
                now.time = live.ctx.current_time();
                ensure!(
                    (now.time - live.frames as f64 / SR as f64).abs() < 1e-9,
                    "time {} after {} frames",
                    now.time,
                    live.frames
                );
            }
            Op::Wait => {
                std::thread::sleep(Duration::from_millis(1100));
                waited = true;
            }
        }
    }
    obs.nontrivial_if(runs > 0 && now.latencies.len() + resets > 1);
    obs.label_if(runs > 1, "several underruns");
    obs.label_if(resets > 1, "resets");
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Load {
    /// callbacks in each interval
    windows: Vec<Vec<(u64, u64, u8)>>,
    /// callbacks before the measurement starts and after it was stopped
    before: Vec<(u64, u64, u8)>,
    after: Vec<(u64, u64, u8)>,
    restart: bool,
}

fn load_strategy() -> BoxedStrategy<Load> {
    let some = |n: std::ops::Range<usize>| prop::collection::vec(callback(), n);
    (
        prop::collection::vec(some(1..30), 1..4),
        some(0..5),
        some(0..3),
        prop::bool::weighted(0.3),
    )
        .prop_map(|(windows, before, after, restart)| Load {
            windows,
            before,
            after,
            restart,
        })
        .boxed()
}

fn measure(case: &Load, interval: f64, obs: &mut Obs) -> CaseResult {
    let mut live = open(SR, 1);
    live.callback(LONG);
    let record = |live: &Live, calls: &[(u64, u64, u8)]| {
        for (r, b, n) in calls {
            for _ in 0..*n {
                live.sink.record_render_callback(*r, *b);
            }
        }
    };
    record(&live, &case.before);
    let capacity = live.ctx.render_capacity();
    let (send, recv) = mpsc::channel();
    capacity.set_onupdate(move |e| {
        let _ = send.send(e);
    });
    let options = || AudioRenderCapacityOptions {
        update_interval: interval,
    };
    capacity.start(options());
    for (w, calls) in case.windows.iter().enumerate() {
        if w > 0 && case.restart {
            capacity.start(options());
        }
        record(&live, calls);
        let e = match recv.recv_timeout(Duration::from_secs_f64(interval * 20. + 5.)) {
            Ok(e) => e,
            Err(_) => return Err(format!("no report in interval {w}")),
        };
        let all = calls.iter().flat_map(|c| (0..c.2).map(move |_| (c.0, c.1)));
        let n = all.clone().count() as f64;
        let spent: f64 = all.clone().map(|c| c.0 as f64).sum();
        let allowed: f64 = all.clone().map(|c| c.1 as f64).sum();
        let late = all.clone().filter(|c| c.0 > c.1).count() as f64 / n;
        let average = if allowed > 0. { spent / allowed } else { 0. };
        let peak = all
            .filter(|c| c.1 > 0)
            .map(|c| c.0 as f64 / c.1 as f64)
            .fold(0f64, f64::max);
        ensure!(
            (e.average_load - average).abs() <= 0.00501 + 1e-9 * average,
            "interval {w}: average load {}, expected {average}",
            e.average_load
        );
        ensure!(
            (e.peak_load - peak).abs() <= 0.00501 + 1e-9 * peak,
            "interval {w}: peak load {}, expected {peak}",
            e.peak_load
        );
        // rounded up
        ensure!(
            e.underrun_ratio >= late - 1e-9 && e.underrun_ratio <= late + 0.01 + 1e-9,
            "interval {w}: underrun ratio {}, expected {late}",
            e.underrun_ratio
        );
        ensure!(
            (e.timestamp - live.frames as f64 / SR as f64).abs() < 1e-9,
            "interval {w}: time stamp {}",
            e.timestamp
        );
        obs.comparisons += 4;
        obs.label_if(late > 0. && late < 1., "some late");
    }
    capacity.stop();
    record(&live, &case.after);
    if !case.after.is_empty() {
        if let Ok(e) = recv.recv_timeout(Duration::from_secs_f64(interval * 2.)) {
            return Err(format!("report after the measurement was stopped: {e:?}"));
        }
    }
    Ok(())
}

fn load(case: &Load, obs: &mut Obs) -> CaseResult {
    obs.nontrivial_if(case.windows.iter().any(|w| w.len() > 1));
    // callbacks are recorded right after the interval has started, but nobody guarantees that it
    // is not over before: longer intervals decide
    let mut last = Ok(());
    for interval in [0.03, 0.3, 2.] {
        last = measure(case, interval, obs);
        if last.is_ok() {
            break;
        }
    }
    last
}

pub fn run(r: &mut Runner) {
    r.rule = "playback: a late callback and several latencies or resets; load: an interval with more than one callback".into();
    r.assumptions = vec![
        "callback durations and latencies are recorded by the test (hook verif_hooks)".into(),
        "latencies up to 1000 s, callbacks up to a minute".into(),
        "a callback with 4 s of audio is never late".into(),
        "the load of an interval is decided with an interval of up to 2 s".into(),
    ];
    r.suite("playback", 30_000, 300_000, strategy, check);
    r.suite_n("waiting", 128, 512, 32, waiting, check);
    r.suite_n("load", 1_500, 10_000, 32, load_strategy, load);
}
