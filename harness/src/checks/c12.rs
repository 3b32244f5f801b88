//! C12: modulation, range and NaN handling of parameters
use crate::automation::*;
use crate::capture::*;
use crate::mix::*;
use crate::rig::*;
use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::{Arc, Mutex};
use web_audio_api::node::*;
use web_audio_api::worklet::*;
use web_audio_api::{AudioParamDescriptor, AutomationRate};

const QUANTA: usize = 4;
const PARAMS: usize = 3;

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Modulator {
    part: Part,
    /// sample (frame, channel, kind) that is not a number or infinite
    odd: Vec<(usize, usize, u8)>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct P {
    min: f32,
    max: f32,
    default: f32,
    k_rate: bool,
    base: Option<f32>,
    calls: Vec<Call>,
    modulators: Vec<Modulator>,
    /// automation rate set before a quantum: k-rate or a-rate
    #[serde(default)]
    rates: Vec<(usize, bool)>,
}

impl P {
    fn k_rate_at(&self, q: usize) -> bool {
        let last = self.rates.iter().rfind(|r| r.0 <= q);
        last.map_or(self.k_rate, |r| r.1)
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    sr: f32,
    params: Vec<P>,
    /// number of the parameter in a chain of names, to check that they are not mixed up
    reads: Vec<usize>,
}

fn modulator() -> BoxedStrategy<Modulator> {
    let odd = prop_oneof![
        2 => Just(vec![]),
        1 => proptest::collection::vec((0..QUANTA * RQ, 0usize..6, 0u8..3), 1..4),
    ];
    (
        sig(
            prop_oneof![3 => 1usize..=2, 1 => 3usize..=6],
            1..=QUANTA * RQ,
        ),
        prop_oneof![Just(0usize), 0..QUANTA * RQ],
        odd,
        prop_oneof![1 => Just(1f32), 1 => Just(1e3f32), 1 => Just(1e38f32), 2 => Just(0.1f32)],
    )
        .prop_map(|(mut sig, at, odd, by)| {
            sig.amp *= by;
            Modulator {
                part: Part { sig, at },
                odd,
            }
        })
        .boxed()
}

fn param() -> BoxedStrategy<P> {
    let range = prop_oneof![
        2 => Just((f32::MIN, f32::MAX)),
        2 => (-2f32..0., 0f32..2.),
        1 => Just((0f32, 1f32)),
        1 => Just((0f32, f32::MAX)),
        1 => (-5f32..5.).prop_map(|v| (v, v)),
        1 => (0.5f32..1., 1f32..1e5),
    ];
    (
        range,
        0f32..=1.,
        any::<bool>(),
        proptest::option::of(any_value()),
        prop_oneof![
            2 => Just(vec![]),
            1 => proptest::collection::vec(schedule(0, QUANTA * RQ), 1..3)
        ],
        proptest::collection::vec(modulator(), 0..3),
    )
        .prop_map(|((min, max), d, k_rate, base, calls, modulators)| P {
            min,
            max,
            default: if min < -1e30 || max > 1e30 {
                min.max(-1.).max(d * 7.)
            } else {
                (min + (max - min) * d).clamp(min, max)
            },
            k_rate,
            base,
            calls,
            modulators,
            rates: vec![],
        })
        .boxed()
}

/// The rate changes. Only events whose values do not depend on the rate at which they are read.
fn rated() -> BoxedStrategy<Case> {
    let call = (0..QUANTA * RQ, any_value(), any::<bool>()).prop_map(|(t, v, ramp)| {
        let t = t as f64;
        if ramp {
            Call::Lin(t, v)
        } else {
            Call::Set(t, v)
        }
    });
    let param = (
        param(),
        proptest::collection::vec(call, 0..3),
        proptest::collection::btree_map(0..QUANTA, any::<bool>(), 1..3),
    )
        .prop_map(|(p, calls, rates)| P {
            calls,
            rates: rates.into_iter().collect(),
            ..p
        });
    (sample_rate(), proptest::collection::vec(param, 1..=PARAMS))
        .prop_map(|(sr, params)| Case {
            sr,
            params,
            reads: vec![],
        })
        .boxed()
}

fn strategy() -> BoxedStrategy<Case> {
    (
        sample_rate(),
        proptest::collection::vec(param(), 1..=PARAMS),
        proptest::collection::vec(1..QUANTA, 0..3),
    )
        .prop_map(|(sr, params, reads)| Case { sr, params, reads })
        .boxed()
}

thread_local! {
    static DESC: std::cell::RefCell<Vec<AudioParamDescriptor>> = const { std::cell::RefCell::new(vec![]) };
}

type Log = Arc<Mutex<Vec<Vec<Vec<f32>>>>>;
struct Proc {
    log: Log,
    n: usize,
}
impl AudioWorkletProcessor for Proc {
    type ProcessorOptions = (Log, usize);
    fn constructor((log, n): (Log, usize)) -> Self {
        Self { log, n }
    }
    fn parameter_descriptors() -> Vec<AudioParamDescriptor> {
        DESC.with(|d| d.borrow().clone())
    }
    fn process<'a, 'b>(
        &mut self,
        _inputs: &'b [&'a [&'a [f32]]],
        _outputs: &'b mut [&'a mut [&'a mut [f32]]],
        params: AudioParamValues<'b>,
        _scope: &'b AudioWorkletGlobalScope,
    ) -> bool {
        let q = (0..self.n)
            .map(|i| params.get(&format!("p{i}")).to_vec())
            .collect();
        self.log.lock().unwrap().push(q);
        true
    }
}

fn check(case: &Case, obs: &mut Obs) -> CaseResult {
    let sr = case.sr as f64;
    let mut ctx = offline(1, QUANTA * RQ, case.sr);
    DESC.with(|d| {
        *d.borrow_mut() = case
            .params
            .iter()
            .enumerate()
            .map(|(i, p)| AudioParamDescriptor {
                name: format!("p{i}"),
                automation_rate: if p.k_rate {
                    AutomationRate::K
                } else {
                    AutomationRate::A
                },
                default_value: p.default,
                min_value: p.min,
                max_value: p.max,
            })
            .collect()
    });
    let log = Log::default();
    let node = AudioWorkletNode::new::<Proc>(
        &ctx,
        AudioWorkletNodeOptions {
            number_of_inputs: 1,
            number_of_outputs: 0,
            output_channel_count: vec![],
            parameter_data: Default::default(),
            processor_options: (log.clone(), case.params.len()),
            audio_node_options: AudioNodeOptions::default(),
        },
    );
    let mut keep = vec![];
    let mut taps = vec![];
    let mut probes = vec![];
    for (i, p) in case.params.iter().enumerate() {
        let param = node.parameters().get(&format!("p{i}")).unwrap();
        ensure!(
            param.min_value() == p.min
                && param.max_value() == p.max
                && param.default_value() == p.default,
            "range of param {i}"
        );
        ensure!(
            param.value() == p.default,
            "value of param {i} is {} at first, default {}",
            param.value(),
            p.default
        );
        // the timeline alone, on a parameter without limits
        let probe = Probe::bare(&ctx, p.k_rate && p.rates.is_empty());
        let mut line = Timeline::new(0.);
        probe.param().set_value(p.base.unwrap_or(p.default));
        line.call(&Call::Value(p.base.unwrap_or(p.default)), 0.);
        if let Some(b) = p.base {
            param.set_value(b);
            let v = param.value();
            ensure!(
                v == b.max(p.min).min(p.max),
                "value of param {i} is {v} after it has been set to {b}"
            );
        }
        for c in &p.calls {
            if line.valid(c, 0., sr) {
                line.call(c, 0.);
                c.apply(param, sr);
                c.apply(probe.param(), sr);
            }
        }
        probes.push(probe);
        let mut t = vec![];
        for m in &p.modulators {
            let mut buf = m.part.sig.buffer(case.sr);
            for &(f, c, kind) in &m.odd {
                let (f, c) = (f % buf.length(), c % buf.number_of_channels());
                buf.get_channel_data_mut(c)[f] = match kind {
                    0 => f32::NAN,
                    1 => f32::INFINITY,
                    _ => f32::NEG_INFINITY,
                };
            }
            let s = play(&ctx, buf, m.part.at);
            s.connect(param);
            t.push(observe(&ctx, &s, 0));
            keep.push(s);
        }
        taps.push(t);
    }
    // values read while rendering
    let seen = Arc::new(Mutex::new(vec![]));
    let mut reads = case.reads.clone();
    reads.sort();
    reads.dedup();
    for q in reads.iter().copied() {
        let params: Vec<_> = (0..case.params.len())
            .map(|i| node.parameters().get(&format!("p{i}")).unwrap().clone())
            .collect();
        let seen = seen.clone();
        ctx.suspend_sync((q * RQ - 64) as f64 / sr, move |_| {
            let mut seen = seen.lock().unwrap();
            for (i, p) in params.iter().enumerate() {
                seen.push((q, i, p.value()));
            }
        });
    }
    for q in 0..QUANTA {
        let due: Vec<_> = (0..case.params.len())
            .filter_map(|i| {
                let rate = case.params[i].rates.iter().find(|r| r.0 == q)?.1;
                let param = node.parameters().get(&format!("p{i}")).unwrap().clone();
                Some((
                    param,
                    if rate {
                        AutomationRate::K
                    } else {
                        AutomationRate::A
                    },
                ))
            })
            .collect();
        let set = move || {
            due.iter()
                .for_each(|(p, rate)| p.set_automation_rate(*rate))
        };
        if q == 0 {
            set();
        } else if !reads.contains(&q) {
            ctx.suspend_sync((q * RQ - 64) as f64 / sr, move |_| set());
        }
    }
    let _ = ctx.start_rendering_sync();
    drop(keep);

    let log = log.lock().unwrap();
    ensure!(
        log.len() == QUANTA,
        "{} of {QUANTA} quanta processed",
        log.len()
    );
    let (mut clamped, mut nans, mut modulated, mut switched) = (false, false, false, false);
    let mut bases = vec![];
    for (i, p) in case.params.iter().enumerate() {
        let base = probes[i].values(f32::MIN, f32::MAX);
        let inputs: Vec<_> = taps[i].iter().map(|t| blocks(&t.1)).collect();
        for q in 0..QUANTA {
            let got = &log[q][i];
            let k_rate = p.k_rate_at(q);
            switched |= q > 0 && k_rate != p.k_rate_at(q - 1) && got.len() != log[q - 1][i].len();
            ensure!(
                got.len() == 1 || (got.len() == RQ && !k_rate),
                "param {i} has {} values in quantum {q}",
                got.len()
            );
            for f in 0..if k_rate { 1 } else { RQ } {
                let v = got[if got.len() == 1 { 0 } else { f }];
                // connections are mixed with the number of channels of each
                let mut sum = 0f64;
                let mut tol = 0f64;
                for inp in &inputs {
                    let frame: Vec<_> = inp[q].iter().map(|c| vec![c[f] as f64]).collect();
                    tol += frame
                        .iter()
                        .map(|v| v[0].abs())
                        .filter(|v| v.is_finite())
                        .sum::<f64>()
                        * 4e-7;
                    sum += mix(&frame, 1, true)[0][0];
                }
                modulated |= sum != 0.;
                let b = base[q][f] as f64;
                let total = b + sum;
                tol += 4e-7 * b.abs();
                obs.comparisons += 1;
                ensure!(
                    v >= p.min && v <= p.max,
                    "param {i} frame {}: {v} is outside of {}..{}",
                    q * RQ + f,
                    p.min,
                    p.max
                );
                // sums beyond the range of single precision may have become infinite or NaN
                let big = inputs
                    .iter()
                    .flat_map(|i| &i[q])
                    .any(|c| c[f].abs() > 1e37 && c[f].is_finite());
                if big {
                    obs.label("nearly infinite (range only)");
                    continue;
                }
                if total.is_nan() {
                    nans = true;
                    ensure!(
                        v == p.default,
                        "param {i} frame {}: {v} for NaN, default {}",
                        q * RQ + f,
                        p.default
                    );
                    continue;
                }
                let (lo, hi) = (p.min as f64, p.max as f64);
                clamped |= total < lo || total > hi;
                let e = total.max(lo).min(hi);
                ensure!(
                    (v as f64 - e).abs() <= tol + 1e-9 || v as f64 == e,
                    "param {i} frame {}: {v}, expected {e} ({b} and modulation {sum})",
                    q * RQ + f
                );
            }
        }
        bases.push(base);
    }
    for &(q, i, v) in seen.lock().unwrap().iter() {
        let p = &case.params[i];
        ensure!(
            v >= p.min && v <= p.max,
            "value of param {i} reads {v} after quantum {q}, outside of {}..{}",
            p.min,
            p.max
        );
        // without events in this quantum, reads the (limited) timeline value
        let b = &bases[i];
        let all = b[q - 1]
            .iter()
            .chain(&b[q - 1])
            .chain(if q > 1 { &b[q - 2] } else { &b[0] });
        let (lo, hi) = all.fold((f32::MAX, f32::MIN), |a, v| (a.0.min(*v), a.1.max(*v)));
        let (from, to) = ((q as f64 - 2.) * 128., q as f64 * 128.);
        let quiet = p.calls.iter().all(|c| match c {
            Call::Set(t, _) | Call::Lin(t, _) | Call::Exp(t, _) | Call::Target(t, _, _) => {
                *t < from || *t > to
            }
            Call::Curve(t, _, d) => t + d < from || *t > to,
            _ => false,
        });
        if lo == hi && quiet {
            let e = lo.max(p.min).min(p.max);
            ensure!(
                v == e,
                "value of param {i} reads {v} after quantum {q}, expected {e}"
            );
            obs.label("read back");
        }
    }
    obs.label_if(clamped, "limited to the range");
    obs.label_if(nans, "NaN");
    obs.label_if(modulated, "modulated");
    obs.label_if(switched, "rate switched");
    obs.nontrivial_if(modulated || switched);
    Ok(())
}

pub fn run(r: &mut Runner) {
    r.rule = "some parameter is modulated by a signal that is not silent, or switches between one and 128 values".into();
    r.assumptions = vec![
        "the timeline value is that of an unlimited parameter with the same automation (C11)"
            .into(),
        "modulation signals are those the sources deliver, as seen by a capture node".into(),
        "sums with finite terms above 1e37 are only checked for their range".into(),
    ];
    r.suite("rates", 40_000, 400_000, rated, check);
    r.suite("modulation", 400_000, 4_000_000, strategy, check);
}
