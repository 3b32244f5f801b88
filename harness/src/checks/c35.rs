//! C35: custom processors
use crate::capture::{observe, Log};
use crate::mix;
use crate::rig::{blocks, compare_blocks};
use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::any::Any;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use web_audio_api::context::*;
use web_audio_api::node::*;
use web_audio_api::worklet::*;
use web_audio_api::{AudioParamDescriptor, AutomationRate};

const SR: f32 = 32768.;
const PARAMS: [(&str, f32, f32, f32, bool); 3] = [
    ("first", 0.25, -2., 2., false),
    ("second", 0.5, -1., 1., true),
    ("third", -0.75, -4., 4., false),
];

/// What the processor does
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Plan {
    seed: u32,
    /// per quantum: outputs that are written (bits)
    writes: Vec<u8>,
    /// per quantum: the return value
    returns: Vec<bool>,
    /// per quantum: number of messages posted
    posts: Vec<u8>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    inputs: usize,
    /// channels of all outputs, or default channel counts
    outputs: usize,
    counts: Option<Vec<usize>>,
    count: usize,
    mode: Mode,
    speakers: bool,
    plan: Plan,
    /// signal, first frame, input
    sources: Vec<(Sig, usize, usize)>,
    /// initial values
    data: Vec<Option<f32>>,
    /// param, frame, value
    values: Vec<(usize, usize, f32)>,
    /// quantum of creation of the node
    created: usize,
    /// quantum, number of messages
    messages: Vec<(usize, usize)>,
    /// quantum at which the handle of the node is dropped
    dropped: Option<usize>,
    quanta: usize,
    asynchronous: bool,
}

fn strategy() -> BoxedStrategy<Case> {
    let shape = prop_oneof![
        4 => Just((1usize, 1usize)),
        4 => (0usize..4, 1usize..4),
        1 => (1usize..5, Just(0usize)),
    ];
    (shape, 3usize..14)
        .prop_flat_map(|((inputs, outputs), quanta)| {
            let n = quanta * RQ;
            let at = prop_oneof![2 => Just(0usize), 1 => 0..n];
            let src = (sig(channels_small(), 1..=n), at, 0..inputs.max(1));
            let sources = if inputs == 0 { 0..1usize } else { 0..5 };
            let plan = (
                any::<u16>(),
                prop::collection::vec(prop_oneof![3 => Just(255u8), 1 => any::<u8>()], quanta),
                prop_oneof![
                    Just(vec![true; quanta]),
                    Just(vec![false; quanta]),
                    (0..quanta).prop_map(move |k| (0..quanta).map(|q| q < k).collect::<Vec<_>>()),
                    prop::collection::vec(any::<bool>(), quanta),
                ],
                prop::collection::vec(prop_oneof![2 => Just(0u8), 1 => 0u8..4], quanta),
            )
                .prop_map(|(seed, writes, returns, posts)| Plan {
                    seed: seed as u32,
                    writes,
                    returns,
                    posts,
                });
            (
                prop::option::of(prop::collection::vec(channels_small(), outputs..=outputs)),
                (channels_small(), mode(), any::<bool>()),
                plan,
                prop::collection::vec(src, sources),
                prop::collection::vec(prop::option::of(-1f32..1.), 3),
                prop::collection::vec((0usize..3, 0..n, -1f32..1.), 0..5),
                (
                    prop_oneof![3 => Just(0usize), 1 => 0..quanta],
                    prop::collection::vec((0..quanta, 1usize..5), 0..5),
                    prop::option::of(0..quanta),
                    any::<bool>(),
                ),
            )
                .prop_map(
                    move |(counts, (count, mode, speakers), plan, sources, data, values, x)| {
                        let (created, messages, dropped, asynchronous) = x;
                        // times in the past are covered elsewhere
                        let values: Vec<_> = values
                            .into_iter()
                            .filter(|v: &(usize, usize, f32)| v.1 >= created * RQ)
                            .collect();
                        Case {
                            inputs,
                            outputs,
                            counts: counts.filter(|c| !c.is_empty()),
                            count,
                            mode,
                            speakers,
                            plan,
                            sources,
                            data,
                            values,
                            created,
                            messages,
                            dropped: dropped.filter(|d| *d > created),
                            quanta,
                            asynchronous,
                        }
                    },
                )
        })
        .boxed()
}

struct Call {
    frame: u64,
    time: f64,
    rate: f32,
    inputs: Vec<Vec<Vec<f32>>>,
    outputs: Vec<Vec<usize>>,
    /// sum of what the outputs contained
    dirty: bool,
    params: Vec<Vec<f32>>,
    names: Vec<String>,
}

#[derive(Default)]
struct Diary {
    constructed: usize,
    calls: Vec<Call>,
    /// number of calls before, message
    messages: Vec<(usize, usize)>,
    posted: usize,
    dropped: usize,
}

struct Probe {
    plan: Plan,
    diary: Arc<Mutex<Diary>>,
}

/// What the processor writes
fn written(seed: u32, output: usize, ch: usize, frame: u64) -> f32 {
    noise(seed + output as u32 * 77, ch, frame as usize)
}

impl Drop for Probe {
    fn drop(&mut self) {
        self.diary.lock().unwrap().dropped += 1;
    }
}

impl AudioWorkletProcessor for Probe {
    type ProcessorOptions = (Plan, Arc<Mutex<Diary>>);
    fn constructor((plan, diary): Self::ProcessorOptions) -> Self {
        diary.lock().unwrap().constructed += 1;
        Self { plan, diary }
    }
    fn parameter_descriptors() -> Vec<AudioParamDescriptor> {
        PARAMS
            .iter()
            .map(
                |(name, default_value, min_value, max_value, k)| AudioParamDescriptor {
                    name: name.to_string(),
                    automation_rate: if *k {
                        AutomationRate::K
                    } else {
                        AutomationRate::A
                    },
                    default_value: *default_value,
                    min_value: *min_value,
                    max_value: *max_value,
                },
            )
            .collect()
    }
    fn process<'a, 'b>(
        &mut self,
        inputs: &'b [&'a [&'a [f32]]],
        outputs: &'b mut [&'a mut [&'a mut [f32]]],
        params: AudioParamValues<'b>,
        scope: &'b AudioWorkletGlobalScope,
    ) -> bool {
        let mut diary = self.diary.lock().unwrap();
        let q = scope.current_frame as usize / RQ;
        let mut names: Vec<String> = params.keys().map(|k| k.to_string()).collect();
        names.sort();
        diary.calls.push(Call {
            frame: scope.current_frame,
            time: scope.current_time,
            rate: scope.sample_rate,
            inputs: inputs
                .iter()
                .map(|i| i.iter().map(|c| c.to_vec()).collect())
                .collect(),
            outputs: outputs
                .iter()
                .map(|o| o.iter().map(|c| c.len()).collect())
                .collect(),
            dirty: outputs
                .iter()
                .any(|o| o.iter().any(|c| c.iter().any(|v| *v != 0.))),
            params: PARAMS.iter().map(|p| params.get(p.0).to_vec()).collect(),
            names,
        });
        for (o, out) in outputs.iter_mut().enumerate() {
            if self.plan.writes[q] >> o & 1 == 1 {
                for (c, ch) in out.iter_mut().enumerate() {
                    for (i, v) in ch.iter_mut().enumerate() {
                        *v = written(self.plan.seed, o, c, scope.current_frame + i as u64);
                    }
                }
            }
        }
        for _ in 0..self.plan.posts[q] {
            scope.post_message(Box::new(diary.posted));
            diary.posted += 1;
        }
        self.plan.returns[q]
    }
    fn onmessage(&mut self, msg: &mut dyn Any) {
        let mut diary = self.diary.lock().unwrap();
        let calls = diary.calls.len();
        diary
            .messages
            .push((calls, *msg.downcast_ref::<usize>().unwrap()));
    }
}

#[derive(Default)]
struct Stage {
    node: Option<AudioWorkletNode>,
    keep: Vec<AudioWorkletNode>,
    logs: Vec<Log>,
    sent: usize,
    /// per message: number of quanta rendered before
    sent_at: Vec<usize>,
}

fn act(
    case: &Case,
    ctx: &OfflineAudioContext,
    q: usize,
    stage: &mut Stage,
    diary: &Arc<Mutex<Diary>>,
    heard: &Arc<Mutex<Vec<usize>>>,
) {
    if q == case.created {
        let node = AudioWorkletNode::new::<Probe>(
            ctx,
            AudioWorkletNodeOptions {
                number_of_inputs: case.inputs,
                number_of_outputs: case.outputs,
                output_channel_count: case.counts.clone().unwrap_or_default(),
                parameter_data: PARAMS
                    .iter()
                    .zip(&case.data)
                    .filter_map(|(p, v)| v.map(|v| (p.0.to_string(), v as f64)))
                    .collect::<HashMap<_, _>>(),
                processor_options: (case.plan.clone(), diary.clone()),
                audio_node_options: node_opts(case.count, case.mode, case.speakers),
            },
        );
        for (s, at, input) in &case.sources {
            let src = play(ctx, s.buffer(SR), *at);
            src.connect_from_output_to_input(&node, 0, *input);
        }
        for (p, frame, v) in &case.values {
            let param = &node.parameters()[PARAMS[*p].0];
            param.set_value_at_time(*v, *frame as f64 / SR as f64);
        }
        for o in 0..case.outputs {
            let (n, log) = observe(ctx, &node, o);
            stage.keep.push(n);
            stage.logs.push(log);
        }
        let heard = heard.clone();
        node.port().set_onmessage(move |m| {
            heard.lock().unwrap().push(*m.downcast::<usize>().unwrap());
        });
        stage.node = Some(node);
    }
    if let Some(node) = &stage.node {
        for (_, n) in case.messages.iter().filter(|m| m.0 == q) {
            for _ in 0..*n {
                node.port().post_message(stage.sent);
                stage.sent_at.push(q);
                stage.sent += 1;
            }
        }
    }
    if case.dropped == Some(q) {
        stage.node = None;
    }
}

fn check(case: &Case, obs: &mut Obs) -> CaseResult {
    let len = case.quanta * RQ;
    let mut ctx = offline(1, len, SR);
    let stage: Arc<Mutex<Stage>> = Default::default();
    let diary: Arc<Mutex<Diary>> = Default::default();
    let heard: Arc<Mutex<Vec<usize>>> = Default::default();
    let mut stops: Vec<usize> = case.messages.iter().map(|m| m.0).collect();
    stops.push(case.created);
    stops.extend(case.dropped);
    stops.sort();
    stops.dedup();
    if stops.first() == Some(&0) {
        act(case, &ctx, 0, &mut stage.lock().unwrap(), &diary, &heard);
        stops.remove(0);
    }
    let time = |q: usize| (q * RQ - RQ / 2) as f64 / SR as f64;
    if case.asynchronous {
        let pauses = stops.iter().map(|q| {
            let ctx = &ctx;
            let (stage, diary, heard) = (&stage, &diary, &heard);
            async move {
                ctx.suspend(time(*q)).await;
                act(case, ctx, *q, &mut stage.lock().unwrap(), diary, heard);
                ctx.resume().await;
            }
        });
        let pauses = futures::future::join_all(pauses);
        futures::executor::block_on(async { futures::join!(pauses, ctx.start_rendering()) });
    } else {
        for q in stops {
            let (case, stage, diary, heard) =
                (case.clone(), stage.clone(), diary.clone(), heard.clone());
            ctx.suspend_sync(time(q), move |ctx| {
                act(&case, ctx, q, &mut stage.lock().unwrap(), &diary, &heard)
            });
        }
        let _ = ctx.start_rendering_sync();
    }
    let stage = stage.lock().unwrap();
    let diary = diary.lock().unwrap();

    // life time
    let last_sound = case
        .sources
        .iter()
        .map(|(s, at, _)| (at.max(&(case.created * RQ)) + s.len).min(len))
        .max()
        .map_or(0, |end| end.div_ceil(RQ));
    let finished = |from: usize| (from..case.quanta).find(|q| !case.plan.returns[*q]);
    // without outputs there is nothing to return true for
    let (at_least, at_most) = match case.dropped {
        None => (case.quanta, case.quanta),
        Some(d) => {
            let from = d.max(last_sound);
            if case.outputs == 0 {
                (last_sound.max(d), case.quanta.min(from + 3))
            } else {
                // the quantum that returned false was rendered
                let end = |f: usize| finished(f).map_or(case.quanta, |q| q + 1);
                (end(from.min(case.quanta)), end((from + 2).min(case.quanta)))
            }
        }
    };
    let calls = diary.calls.len() + case.created;
    ensure!(
        calls >= at_least.min(case.quanta),
        "called until quantum {calls}, expected at least {at_least}"
    );
    ensure!(
        calls <= at_most.max(case.created),
        "called until quantum {calls}, expected at most {at_most}"
    );
    ensure!(
        diary.constructed == 1,
        "constructed {} times",
        diary.constructed
    );
    ensure!(diary.dropped == 1, "dropped {} times", diary.dropped);

    // time and shape
    let mut names: Vec<String> = PARAMS.iter().map(|p| p.0.to_string()).collect();
    names.sort();
    for (k, c) in diary.calls.iter().enumerate() {
        let q = case.created + k;
        ensure!(
            c.frame == (q * RQ) as u64,
            "call {k}: frame {}, expected {}",
            c.frame,
            q * RQ
        );
        ensure!(
            c.time == (q * RQ) as f64 / SR as f64,
            "call {k}: time {}",
            c.time
        );
        ensure!(c.rate == SR, "call {k}: sample rate {}", c.rate);
        ensure!(c.names == names, "call {k}: params {:?}", c.names);
        ensure!(
            c.inputs.len() == case.inputs,
            "call {k}: {} inputs",
            c.inputs.len()
        );
        ensure!(
            c.outputs.len() == case.outputs,
            "call {k}: {} outputs",
            c.outputs.len()
        );
        ensure!(!c.dirty, "call {k}: the outputs do not contain silence");
        for (o, shape) in c.outputs.iter().enumerate() {
            let n = match &case.counts {
                Some(c) => c[o],
                None if case.inputs == 1 && case.outputs == 1 => c.inputs[0].len(),
                None => 1,
            };
            ensure!(
                shape.len() == n && shape.iter().all(|l| *l == RQ),
                "call {k}: output {o} has channels of {shape:?} frames, expected {n} channels"
            );
            obs.comparisons += 1;
        }
    }

    // inputs
    for input in 0..case.inputs {
        let got: Vec<Vec<Vec<f32>>> = diary
            .calls
            .iter()
            .map(|c| c.inputs[input].clone())
            .collect();
        let expect: Vec<Vec<Vec<f64>>> = (case.created..calls)
            .map(|q| {
                let parts: Vec<Vec<Vec<f64>>> = case
                    .sources
                    .iter()
                    .filter(|(_, _, i)| *i == input)
                    .map(|(s, at, _)| (s, *at.max(&(case.created * RQ))))
                    .filter(|(s, at)| *at < (q + 1) * RQ && at + s.len > q * RQ)
                    .map(|(s, at)| {
                        (0..s.channels)
                            .map(|c| {
                                (q * RQ..(q + 1) * RQ)
                                    .map(|f| {
                                        if f >= at && f < at + s.len {
                                            s.at(c, f - at) as f64
                                        } else {
                                            0.
                                        }
                                    })
                                    .collect()
                            })
                            .collect()
                    })
                    .collect();
                if parts.is_empty() {
                    vec![vec![0.; RQ]]
                } else {
                    mix::junction(&parts, case.count, case.mode, case.speakers)
                }
            })
            .collect();
        obs.comparisons += compare_blocks(&format!("input {input}"), &got, &expect, 1e-6, 1e-6)?;
    }

    // params
    for (p, (name, default, _, _, k_rate)) in PARAMS.iter().enumerate() {
        let mut steps: Vec<(usize, f32)> = case
            .values
            .iter()
            .filter(|v| v.0 == p)
            .map(|v| (v.1, v.2))
            .collect();
        steps.sort_by_key(|s| s.0);
        let initial = case.data[p].unwrap_or(*default);
        let at = |f: usize| {
            steps
                .iter()
                .rev()
                .find(|s| s.0 <= f)
                .map_or(initial, |s| s.1)
        };
        for (k, c) in diary.calls.iter().enumerate() {
            let q = case.created + k;
            let got = &c.params[p];
            ensure!(
                got.len() == RQ || got.len() == 1,
                "call {k}: param {name} has {} values",
                got.len()
            );
            for i in 0..RQ {
                let want = at(if *k_rate { q * RQ } else { q * RQ + i });
                let v = got[if got.len() == 1 { 0 } else { i }];
                ensure!(
                    v == want,
                    "call {k}: param {name} at frame {i} is {v}, expected {want}"
                );
            }
            obs.comparisons += 1;
        }
    }

    // outputs
    for (o, log) in stage.logs.iter().enumerate() {
        let got = blocks(log);
        let expect: Vec<Vec<Vec<f64>>> = (case.created..case.quanta)
            .map(|q| {
                if q >= calls || case.plan.writes[q] >> o & 1 == 0 {
                    return vec![vec![0.; RQ]];
                }
                (0..diary.calls[q - case.created].outputs[o].len())
                    .map(|c| {
                        (q * RQ..(q + 1) * RQ)
                            .map(|f| written(case.plan.seed, o, c, f as u64) as f64)
                            .collect()
                    })
                    .collect()
            })
            .collect();
        obs.comparisons += compare_blocks(&format!("output {o}"), &got, &expect, 0., 0.)?;
    }

    // messages to the processor
    let arrived: Vec<usize> = diary.messages.iter().map(|m| m.1).collect();
    ensure!(
        arrived == (0..stage.sent).collect::<Vec<_>>(),
        "messages {arrived:?} arrived, {} were sent",
        stage.sent
    );
    for ((before, m), q) in diary.messages.iter().zip(&stage.sent_at) {
        ensure!(
            *before + case.created == *q,
            "message {m} sent before quantum {q} arrived before quantum {}",
            before + case.created
        );
        obs.comparisons += 1;
    }
    // messages from the processor
    let heard = heard.lock().unwrap();
    ensure!(
        *heard == (0..diary.posted).collect::<Vec<_>>(),
        "messages {heard:?} were delivered, {} were posted",
        diary.posted
    );
    obs.comparisons += heard.len() as u64;
    obs.nontrivial_if(!case.sources.is_empty() || stage.sent > 0 || diary.posted > 0);
    obs.label_if(case.dropped.is_some() && calls < case.quanta, "released");
    obs.label_if(
        case.dropped.is_some() && calls > case.dropped.unwrap_or(0) + 1,
        "outlived its handle",
    );
    obs.label_if(stage.sent > 0, "messages to the processor");
    obs.label_if(diary.posted > 0, "messages from the processor");
    obs.label_if(
        case.counts.is_none() && case.inputs == 1 && case.outputs == 1,
        "channels follow the input",
    );
    Ok(())
}

pub fn run(r: &mut Runner) {
    r.rule = "worklet nodes with 0-4 inputs and 0-3 outputs, all channel settings, initial and scheduled parameter values, generated input signals, a plan of what the processor writes, returns and posts, and messages, creation and dropped handles at any quantum; the processor's diary is compared with the program; non-trivial: has sources or messages".into();
    r.assumptions = vec![
        "quanta of silence may have any number of channels".into(),
        "released nodes may be called up to two quanta longer than necessary".into(),
    ];
    r.suite("processors", 40_000, 1_000_000, strategy, check);
}
