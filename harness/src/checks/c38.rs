//! C38: script processors
use crate::capture::{capture, observe, signal};
use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::{Arc, Mutex};
use web_audio_api::context::*;
use web_audio_api::node::*;
use web_audio_api::AudioBuffer;

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum Handler {
    /// the input times a factor plus noise, written in place or copied into the buffer
    Write(f32, bool),
    /// writes every other block only
    Half(f32),
    /// only looks
    Nothing,
    /// replaces the output buffer by one of another shape; what is heard is not specified
    Replace(usize, usize),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    sr: f32,
    size: usize,
    ins: usize,
    outs: usize,
    sources: Vec<(Sig, usize)>,
    /// quantum, handler that is set or cleared
    actions: Vec<(usize, Option<Handler>)>,
    created: usize,
    quanta: usize,
}

fn strategy() -> BoxedStrategy<Case> {
    let handler = prop_oneof![
        6 => (-2f32..2., any::<bool>()).prop_map(|(g, c)| Handler::Write(g, c)),
        2 => (-2f32..2.).prop_map(Handler::Half),
        1 => Just(Handler::Nothing),
        1 => (1usize..5, 1usize..1000).prop_map(|(c, n)| Handler::Replace(c, n)),
    ];
    (
        prop_oneof![
            12 => Just(0usize), 10 => Just(256usize), 6 => Just(512), 4 => Just(1024), 2 => Just(2048),
            1 => Just(4096), 1 => Just(8192), 1 => Just(16384)
        ],
        3usize..8,
        0usize..8,
    )
        .prop_flat_map(move |(size, blocks, extra)| {
            let n = if size == 0 { 256 } else { size } / RQ;
            let quanta = blocks * n + extra;
            (
                sample_rate(),
                prop_oneof![1 => Just(0usize), 8 => channels_small()],
                prop_oneof![1 => Just(0usize), 8 => channels_small()],
                prop::collection::vec(
                    (sig(channels_small(), 1..=quanta * RQ), 0..quanta * RQ / 2),
                    0..3,
                ),
                prop::collection::vec(
                    (
                        prop_oneof![1 => Just(0usize), 1 => 0..quanta],
                        prop::option::weighted(0.8, handler.clone()),
                    ),
                    0..4,
                ),
                prop_oneof![3 => Just(0usize), 1 => 0..quanta],
            )
                .prop_map(move |(sr, ins, outs, sources, mut actions, created)| {
                    actions.sort_by_key(|a| a.0);
                    Case {
                        sr,
                        size,
                        ins,
                        outs: if ins == 0 { outs.max(1) } else { outs },
                        sources,
                        actions,
                        created,
                        quanta,
                    }
                })
        })
        .boxed()
}

struct Block {
    input: Vec<Vec<f32>>,
    time: f64,
    /// shape of the output buffer
    shape: (usize, usize),
    handler: Handler,
    /// number of the call of this handler
    call: usize,
    instance: usize,
}

/// What a handler writes for a block
fn answer(h: Handler, call: usize, input: &[Vec<f32>], outs: usize) -> Vec<Vec<f32>> {
    let n = input[0].len();
    let (g, on) = match h {
        Handler::Write(g, _) => (g, true),
        Handler::Half(g) => (g, call % 2 == 0),
        _ => (0., false),
    };
    (0..outs)
        .map(|c| {
            (0..n)
                .map(|i| {
                    if on {
                        input[c % input.len()][i] * g + noise(call as u32 + 5, c, i)
                    } else {
                        0.
                    }
                })
                .collect()
        })
        .collect()
}

struct Setup {
    node: ScriptProcessorNode,
    seen: crate::capture::Log,
    out: crate::capture::Log,
    _keep: (
        web_audio_api::worklet::AudioWorkletNode,
        web_audio_api::worklet::AudioWorkletNode,
    ),
}

fn check(case: &Case, obs: &mut Obs) -> CaseResult {
    let n = if case.size == 0 { 256 } else { case.size } / RQ;
    let mut ctx = offline(1, case.quanta * RQ, case.sr);
    let mix = ctx.create_gain();
    for (s, at) in &case.sources {
        play(&ctx, s.buffer(case.sr), *at).connect(&mix);
    }
    let setup: Arc<Mutex<Option<Setup>>> = Default::default();
    let blocks: Arc<Mutex<Vec<Block>>> = Default::default();
    let errors: Arc<Mutex<Vec<String>>> = Default::default();

    let create = {
        let (setup, case, errors) = (setup.clone(), case.clone(), errors.clone());
        move |ctx: &OfflineAudioContext| {
            let node = ctx.create_script_processor(case.size, case.ins, case.outs);
            node.set_onprocessorerror(Box::new(move |e| errors.lock().unwrap().push(e.message)));
            let opts = node_opts(case.ins.max(1), Mode::Explicit, true);
            let (c, seen) = capture(ctx, 1, opts);
            mix.connect(&node);
            mix.connect(&c);
            let (o, out) = observe(ctx, &node, 0);
            *setup.lock().unwrap() = Some(Setup {
                node,
                seen,
                out,
                _keep: (c, o),
            });
        }
    };
    let instances = Arc::new(Mutex::new(0));
    let act = {
        let (setup, blocks, instances) = (setup.clone(), blocks.clone(), instances.clone());
        let outs = case.outs;
        move |h: Option<Handler>| {
            let setup = setup.lock().unwrap();
            let Some(s) = setup.as_ref() else { return };
            let Some(h) = h else {
                s.node.clear_onaudioprocess();
                return;
            };
            *instances.lock().unwrap() += 1;
            let instance = *instances.lock().unwrap();
            let blocks = blocks.clone();
            let mut call = 0;
            s.node.set_onaudioprocess(move |mut e| {
                let input = to_vecs(&e.input_buffer);
                let shape = (
                    e.output_buffer.number_of_channels(),
                    e.output_buffer.length(),
                );
                if let Handler::Replace(c, n) = h {
                    let sr = e.output_buffer.sample_rate();
                    e.output_buffer = AudioBuffer::from(vec![vec![0.5; n]; c], sr);
                } else if outs > 0 {
                    let data = answer(h, call, &input, outs);
                    for (c, d) in data.iter().enumerate() {
                        match h {
                            Handler::Write(_, true) => e.output_buffer.copy_to_channel(d, c),
                            Handler::Nothing => (),
                            _ => e.output_buffer.get_channel_data_mut(c).copy_from_slice(d),
                        }
                    }
                }
                blocks.lock().unwrap().push(Block {
                    input,
                    time: e.playback_time,
                    shape,
                    handler: h,
                    call,
                    instance,
                });
                call += 1;
            });
        }
    };
    let mut stops: Vec<usize> = case.actions.iter().map(|a| a.0).collect();
    stops.push(case.created);
    stops.sort();
    stops.dedup();
    let mut create = Some(create);
    for q in stops {
        let c = if q == case.created {
            create.take()
        } else {
            None
        };
        let actions: Vec<_> = case
            .actions
            .iter()
            .filter(|a| a.0 == q)
            .map(|a| a.1)
            .collect();
        let act = act.clone();
        let all = move |ctx: &OfflineAudioContext| {
            if let Some(c) = c {
                c(ctx);
            }
            for h in actions {
                act(h);
            }
        };
        if q == 0 {
            all(&ctx);
        } else {
            let time = (q as f64 - 0.5) * RQ as f64 / case.sr as f64;
            ctx.suspend_sync(time, move |ctx| all(ctx));
        }
    }
    let _ = ctx.start_rendering_sync();
    let setup = setup.lock().unwrap();
    let s = setup.as_ref().unwrap();
    ensure!(
        s.node.buffer_size() == n * RQ,
        "buffer size {}",
        s.node.buffer_size()
    );
    let errors = errors.lock().unwrap();
    ensure!(errors.is_empty(), "processor error {:?}", errors[0]);
    let seen = s.seen.lock().unwrap();
    let total = case.quanta - case.created;
    ensure!(seen.len() == total, "capture failed");

    // which handler gets which block
    let mut instance = 0;
    let mut current: Option<(Handler, usize, usize)> = None;
    let mut actions = case
        .actions
        .iter()
        .filter(|a| a.0 >= case.created)
        .peekable();
    let mut expected: Vec<Option<(Handler, usize, usize)>> = vec![];
    for b in 0..total / n {
        let last = case.created + (b + 1) * n - 1;
        while actions.peek().is_some_and(|a| a.0 <= last) {
            current = actions.next().unwrap().1.map(|h| {
                instance += 1;
                (h, instance, 0)
            });
        }
        expected.push(current);
        if let Some(c) = current.as_mut() {
            c.2 += 1;
        }
    }
    let blocks = blocks.lock().unwrap();
    let due = expected.iter().filter(|e| e.is_some()).count();
    ensure!(
        blocks.len() == due,
        "{} blocks handled, expected {due}",
        blocks.len()
    );

    let outs = case.outs.max(1);
    let mut expect = vec![vec![0f32; case.quanta * RQ]; outs];
    let mut unspecified = vec![false; case.quanta];
    let mut next = blocks.iter();
    for (b, e) in expected.iter().enumerate() {
        let Some((_, inst, call)) = e else { continue };
        let block = next.next().unwrap();
        ensure!(
            block.instance == *inst && block.call == *call,
            "block {b} was given to call {} of handler {}, expected call {call} of handler {inst}",
            block.call,
            block.instance
        );
        let input: Vec<Vec<f32>> = (0..case.ins.max(1))
            .map(|c| {
                (b * n..(b + 1) * n)
                    .flat_map(|q| seen[q].inputs[0][c].clone())
                    .collect()
            })
            .collect();
        if case.ins > 0 {
            obs.comparisons += identical(&format!("input of block {b}"), &block.input, &input)?;
        }
        let heard = case.created + (b + 2) * n;
        let time = (heard * RQ) as f64 / case.sr as f64;
        ensure!(
            (block.time - time).abs() < 1e-9 * (1. + time),
            "playback time {} of block {b}, heard at {time}",
            block.time
        );
        if case.outs > 0 {
            ensure!(
                block.shape == (case.outs, n * RQ),
                "output buffer of {:?} (channels, frames)",
                block.shape
            );
        }
        let data = answer(block.handler, block.call, &block.input, outs);
        for q in heard..(heard + n).min(case.quanta) {
            if matches!(block.handler, Handler::Replace(..)) {
                unspecified[q] = true;
            }
            if case.outs > 0 {
                for (x, d) in expect.iter_mut().zip(&data) {
                    let o = (q - heard) * RQ;
                    x[q * RQ..(q + 1) * RQ].copy_from_slice(&d[o..o + RQ]);
                }
            }
        }
    }
    let mut got = signal("output", &s.out, outs)?;
    for c in got.iter_mut() {
        let mut full = vec![0.; case.created * RQ];
        full.append(c);
        *c = full;
    }
    for (q, u) in unspecified.iter().enumerate() {
        if *u {
            for x in expect.iter_mut().chain(got.iter_mut()) {
                x[q * RQ..(q + 1) * RQ].fill(0.);
            }
        }
    }
    obs.comparisons += identical("output", &got, &expect)?;
    obs.nontrivial_if(peak(&expect) > 0.);
    obs.label_if(
        peak(&expect) > 0. && case.created > 0,
        "created while rendering",
    );
    obs.label_if(
        case.outs == 0 || case.ins == 0,
        "no input or output channels",
    );
    Ok(())
}

pub fn run(r: &mut Runner) {
    r.rule = "script processors of all channel counts and buffer sizes, created before or while rendering, with handlers that write, write sometimes or only look, set, replaced and cleared while rendering; input blocks, playback times, handler calls and the output are compared with a recording of the input; non-trivial: a handler's answer is heard".into();
    r.assumptions = vec![
        "offline rendering, where a handler is done before the next quantum".into(),
        "what is heard when a handler replaces its output buffer is not specified".into(),
    ];
    r.suite("blocks", 120_000, 1_500_000, strategy, check);
}
