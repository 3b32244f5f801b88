//! C33: failing custom processors
use crate::program::*;
use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::any::Any;
use std::sync::{Arc, Mutex};
use web_audio_api::context::*;
use web_audio_api::node::*;
use web_audio_api::worklet::*;

fn strategy() -> BoxedStrategy<Program> {
    let custom = || {
        (
            any::<u16>(),
            prop_oneof![1 => 0usize..2, 4 => 1usize..14],
            0u8..3,
            0f32..1.,
        )
            .prop_map(|(a, b, c, d)| Spec::Custom(a, b, c, d))
    };
    (
        program(Shape {
            profile: Profile::All,
            max_quanta: 16,
            drops: true,
            loops: true,
            wild: false,
            sr: sample_rate,
        }),
        (1usize..=2, any::<bool>()),
        prop::collection::vec((any::<u16>(), custom()), 1..4),
    )
        .prop_map(|(mut p, explicit, customs)| {
            // the number of channels of silence is not specified
            p.explicit.get_or_insert(explicit);
            p.ops
                .retain(|(_, o)| !matches!(o, Op::Attr(_, k, _) if k % 4 == 0));
            // replace some of the processing nodes
            for (n, spec) in customs {
                let inner: Vec<usize> = (0..p.ops.len())
                    .filter(|i| {
                        matches!(&p.ops[*i].1, Op::Create(s)
                            if !s.is_source() && s.inputs() == 1 && s.outputs() == 1)
                    })
                    .collect();
                if let Some(i) = inner.get(n as usize % inner.len().max(1)) {
                    p.ops[*i].1 = Op::Create(spec);
                }
            }
            p
        })
        .boxed()
}

fn check(p: &Program, obs: &mut Obs) -> CaseResult {
    obs.allow_panics = true;
    let muted = Run {
        mute: true,
        ..Default::default()
    };
    let expect = render(p, &muted);
    if !(peak(&expect.data) < 1e6) {
        obs.label("too loud");
        return Ok(());
    }
    let before = take_panics();
    ensure!(before.is_empty(), "contained {}", before[0]);
    let run = Run::default();
    let got = render(p, &run);
    let panics = take_panics();
    if let Some(m) = panics
        .iter()
        .find(|p| !p.contains("planned failure") && !p.contains("non-string panic"))
    {
        return Err(format!("contained {m}"));
    }
    let specs: Vec<(u16, usize, u8)> = p
        .ops
        .iter()
        .filter_map(|(_, o)| match o {
            Op::Create(Spec::Custom(seed, fails, kind, _)) => Some((*seed, *fails, *kind)),
            _ => None,
        })
        .collect();
    let diary = run.diary.lock().unwrap();
    let reference = muted.diary.lock().unwrap();
    let mut failures = 0;
    for (i, (seed, fails, kind)) in specs.iter().enumerate() {
        // a node of a quantum that does not exist
        let Some(calls) = diary.calls.get(i) else {
            break;
        };
        let fails = (*fails).max(1);
        // processors without input may be released
        let most = reference.calls[i].min(fails);
        ensure!(
            *calls == most || (*calls < most && specs.len() > 1),
            "processor {i} was called {calls} times, expected {most}"
        );
        let failed = *calls >= fails;
        failures += failed as usize;
        let errors = &diary.errors[i];
        ensure!(
            errors.len() == failed as usize,
            "processor {i}: errors {errors:?}, failed: {failed}"
        );
        if failed {
            match kind % 3 {
                0 => ensure!(
                    errors[0].contains(&failure(*seed)),
                    "processor {i}: {errors:?}"
                ),
                1 => ensure!(errors[0] == "planned failure", "processor {i}: {errors:?}"),
                _ => (),
            }
        }
        obs.comparisons += 2;
    }
    // signals may be added in a different order, and convolvers need not compute the rounding
    // errors that silence has in the frequency domain
    let tolerance = 1e-5 * peak(&expect.data).max(1.) as f64;
    obs.comparisons += compare(
        "failing versus silent",
        &got.data,
        &to64(&expect.data),
        tolerance,
        0.,
    )?;
    obs.nontrivial_if(failures > 0 && peak(&expect.data) > 1e-4);
    obs.label_if(failures > 1, "several failures");
    Ok(())
}

/// Processors that fail when they get a message
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Messages {
    quanta: usize,
    /// fails at the constructor, fails at this message, fails at this call, number of outputs
    processors: Vec<(bool, usize, usize, usize)>,
    /// quantum, processor, how many
    sent: Vec<(usize, usize, usize)>,
}

struct Listening {
    index: usize,
    fails: (bool, usize, usize, usize),
    /// messages, calls
    counts: Arc<Mutex<Vec<(usize, usize)>>>,
}

impl AudioWorkletProcessor for Listening {
    type ProcessorOptions = Listening;
    fn constructor(l: Listening) -> Self {
        if l.fails.0 {
            panic!("planned failure of {}", l.index);
        }
        l
    }
    fn process<'a, 'b>(
        &mut self,
        _: &'b [&'a [&'a [f32]]],
        outputs: &'b mut [&'a mut [&'a mut [f32]]],
        _: AudioParamValues<'b>,
        _: &'b AudioWorkletGlobalScope,
    ) -> bool {
        for (i, o) in outputs.iter_mut().enumerate() {
            o[0].fill(((i + 1) << self.index) as f32);
        }
        let count = {
            let counts = &mut self.counts.lock().unwrap()[self.index];
            counts.1 += 1;
            counts.1
        };
        if count == self.fails.2 {
            let index = self.index;
            std::panic::panic_any(format!("planned failure of {index}"));
        }
        true
    }
    fn onmessage(&mut self, _: &mut dyn Any) {
        let count = {
            let counts = &mut self.counts.lock().unwrap()[self.index];
            counts.0 += 1;
            counts.0
        };
        if count == self.fails.1 {
            panic!("planned failure of {}", self.index);
        }
    }
}

fn messages(c: &Messages, obs: &mut Obs) -> CaseResult {
    const SR: f32 = 32768.;
    obs.allow_panics = true;
    let n = c.processors.len();
    let counts = Arc::new(Mutex::new(vec![(0, 0); n]));
    let errors = Arc::new(Mutex::new(vec![]));
    let mut ctx = offline(1, c.quanta * RQ, SR);
    let nodes: Vec<AudioWorkletNode> = (0..n)
        .map(|index| {
            let node = AudioWorkletNode::new::<Listening>(
                &ctx,
                AudioWorkletNodeOptions {
                    number_of_inputs: 0,
                    number_of_outputs: c.processors[index].3,
                    output_channel_count: vec![1; c.processors[index].3],
                    parameter_data: Default::default(),
                    processor_options: Listening {
                        index,
                        fails: c.processors[index],
                        counts: Arc::clone(&counts),
                    },
                    audio_node_options: AudioNodeOptions::default(),
                },
            );
            let errors = Arc::clone(&errors);
            node.set_onprocessorerror(Box::new(move |e| {
                errors.lock().unwrap().push((index, e.message.clone()));
            }));
            for o in 0..c.processors[index].3 {
                node.connect_from_output_to_input(&ctx.destination(), o, 0);
            }
            node
        })
        .collect();
    // which processors sound, messages and calls
    let mut sound = vec![];
    let mut expect = vec![(0, 0); n];
    let mut failed = vec![false; n];
    for q in 0..c.quanta {
        for (_, i, many) in c.sent.iter().filter(|s| s.0 == q) {
            for _ in 0..*many {
                if !failed[*i] {
                    failed[*i] |= c.processors[*i].0;
                    if !failed[*i] {
                        expect[*i].0 += 1;
                        failed[*i] = expect[*i].0 == c.processors[*i].1;
                    }
                }
            }
        }
        let mut sum = 0.;
        for i in 0..n {
            if !failed[i] {
                failed[i] |= c.processors[i].0;
                if !failed[i] {
                    expect[i].1 += 1;
                    failed[i] = expect[i].1 == c.processors[i].2;
                }
                if !failed[i] {
                    let outputs = c.processors[i].3;
                    sum += ((outputs * (outputs + 1) / 2) << i) as f32;
                }
            }
        }
        sound.push(sum);
    }
    let nodes = Arc::new(nodes);
    for q in 0..c.quanta {
        let now: Vec<_> = c.sent.iter().filter(|s| s.0 == q).cloned().collect();
        let nodes = Arc::clone(&nodes);
        let send = move || {
            for (_, i, many) in &now {
                for _ in 0..*many {
                    nodes[*i].port().post_message(7u8);
                }
            }
        };
        if q == 0 {
            send();
        } else {
            ctx.suspend_sync((q * RQ - RQ / 2) as f64 / SR as f64, move |_| send());
        }
    }
    let out = ctx.start_rendering_sync();
    if let Some(m) = take_panics()
        .iter()
        .find(|p| !p.contains("planned failure"))
    {
        return Err(format!("contained {m}"));
    }
    for (i, v) in out.get_channel_data(0).iter().enumerate() {
        ensure!(
            *v == sound[i / RQ],
            "frame {i} is {v}, expected {}",
            sound[i / RQ]
        );
    }
    obs.comparisons += (c.quanta * RQ) as u64;
    let counts = counts.lock().unwrap();
    ensure!(
        *counts == expect,
        "messages and calls {counts:?}, expected {expect:?}"
    );
    let mut errors = errors.lock().unwrap().clone();
    errors.sort();
    let expect: Vec<_> = (0..n)
        .filter(|i| failed[*i])
        .map(|i| (i, format!("planned failure of {i}")))
        .collect();
    ensure!(errors == expect, "errors {errors:?}, expected {expect:?}");
    obs.nontrivial_if(
        failed
            .iter()
            .zip(counts.iter().zip(&c.processors))
            .any(|(f, (n, p))| *f && n.0 == p.1),
    );
    obs.label_if(c.processors.iter().any(|p| p.0), "failing constructor");
    Ok(())
}

fn messages_strategy() -> BoxedStrategy<Messages> {
    (1usize..6, 1usize..5)
        .prop_flat_map(|(quanta, n)| {
            (
                prop::collection::vec(
                    (
                        prop::bool::weighted(0.1),
                        1usize..5,
                        1usize..12,
                        prop_oneof![2 => Just(1usize), 1 => 2usize..5],
                    ),
                    n..=n,
                ),
                prop::collection::vec((0..quanta, 0..n, 1usize..3), 0..8),
            )
                .prop_map(move |(processors, sent)| Messages {
                    quanta,
                    processors,
                    sent,
                })
        })
        .boxed()
}

pub fn run(r: &mut Runner) {
    r.rule = "generated programs of all kinds of nodes in which one to three nodes are custom processors that fail in their constructor or at any call, executed with failing processors and with processors that are silent from then on (same audio, one error event with the right message, no further calls); messages: up to four processors with up to four outputs that fail at any message or call, with an exact prediction of sound, calls, messages and errors; non-trivial: a processor failed and the rest is audible, or it failed at a message".into();
    r.assumptions = vec!["all nodes have a constant explicit channel count, as the number of channels of silence is not specified".into(), "tolerance 1e-5 of the peak (order of additions, rounding errors of silence in convolvers)".into()];
    r.suite("messages", 60_000, 1_000_000, messages_strategy, messages);
    r.suite("programs", 30_000, 1_000_000, strategy, check);
}
