//! C09: live output does not depend on the size of the backend buffers
use crate::live::*;
use crate::program::*;
use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use web_audio_api::context::BaseAudioContext;
use web_audio_api::node::AudioNode;

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    program: Program,
    /// channels of the sink
    channels: usize,
    /// sizes of the callbacks, repeated
    sizes: Vec<usize>,
    /// callbacks made, limited by the length of the program
    callbacks: usize,
}

fn size() -> BoxedStrategy<usize> {
    prop_oneof![
        3 => 1usize..=3 * RQ,
        2 => prop::sample::select(vec![
            1, 2, 63, 64, 65, 127, 128, 129, 192, 255, 256, 257, 384, 441, 480, 512, 1000, 1024,
        ]),
        1 => 1usize..=10 * RQ,
    ]
    .boxed()
}

fn strategy() -> BoxedStrategy<Case> {
    (
        program(Shape {
            profile: Profile::All,
            max_quanta: 24,
            drops: true,
            loops: true,
            wild: false,
            sr: sample_rate,
        }),
        prop_oneof![Just(0usize), Just(0), 0..30usize],
        prop_oneof![
            size().prop_map(|s| vec![s]),
            prop::collection::vec(size(), 1..6),
            prop::collection::vec(size(), 1..20),
        ],
        1usize..200,
    )
        .prop_map(|(program, extra, sizes, callbacks)| Case {
            channels: program.channels + extra,
            program,
            sizes,
            callbacks,
        })
        .boxed()
}

/// Upper bound of the number of messages, the channel to the render thread has room for 256
fn messages(op: &Op) -> usize {
    match op {
        Op::Create(Spec::Panner(..)) => 34,
        Op::Create(_) => 16,
        Op::Disconnect(_) | Op::Drop(_) => 16,
        _ => 2,
    }
}

fn check(case: &Case, obs: &mut Obs) -> CaseResult {
    let p = &case.program;
    let total = p.quanta * RQ;
    let run = Run::default();
    let mut live = open(p.sr, case.channels);
    live.ctx.destination().set_channel_count(p.channels);

    let mut state = State::default();
    let mut executed: Vec<(usize, Op)> = vec![];
    let mut rest = &p.ops[..];
    let mut got: Vec<Vec<f32>> = vec![vec![]; case.channels];
    let mut unaligned = false;
    let mut late = false;
    for k in 0..case.callbacks {
        let left = total - live.frames;
        if left == 0 {
            break;
        }
        // the quantum that is rendered next
        let next = live.frames.div_ceil(RQ);
        let mut room = 240;
        while let Some((q, op)) = rest.first() {
            if *q > next {
                break;
            }
            rest = &rest[1..];
            if messages(op) > room {
                continue;
            }
            room -= messages(op);
            late |= next > 0 && live.frames % RQ > 0;
            state.exec(p, &run, &live.ctx, next, op);
            executed.push((next, op.clone()));
        }
        let n = case.sizes[k % case.sizes.len()].min(left);
        unaligned |= n % RQ > 0;
        for (all, new) in got.iter_mut().zip(live.callback(n)) {
            all.extend(new);
        }
        let time = (live.frames.div_ceil(RQ) * RQ) as f64 / p.sr as f64;
        ensure!(
            live.ctx.current_time() == time,
            "current time {} after {} frames, expected {time}",
            live.ctx.current_time(),
            live.frames
        );
    }
    let frames = live.frames;
    let offline = render(
        &Program {
            ops: executed,
            ..p.clone()
        },
        &Run {
            frames: Some(frames.div_ceil(RQ) * RQ),
            ..Run::default()
        },
    );
    let expect: Vec<Vec<f32>> = (0..case.channels)
        .map(|c| match offline.data.get(c) {
            Some(d) => d[..frames].to_vec(),
            None => vec![0.; frames],
        })
        .collect();
    for (c, d) in got.iter().enumerate() {
        if let Some(i) = d.iter().position(|v| v.to_bits() == UNWRITTEN) {
            return Err(format!("frame {i} of channel {c} has not been written"));
        }
    }
    obs.comparisons += identical("live and offline", &got, &expect)?;
    obs.nontrivial_if(unaligned && peak(&expect) > 0.);
    obs.label_if(late, "operations in the middle of a quantum");
    obs.label_if(
        case.channels > p.channels,
        "more channels than the destination",
    );
    obs.label_if(peak(&expect) > 0., "audible");
    obs.label_if(case.sizes.iter().any(|s| *s > 2 * RQ), "large buffers");
    Ok(())
}

pub fn run(r: &mut Runner) {
    r.rule =
        "the rendering is audible and a buffer size is not a multiple of the render quantum".into();
    r.assumptions = vec![
        "the audio callback is called by the test (hook verif_hooks), samples are 32 bit floats"
            .into(),
        "operations are executed between callbacks, up to 240 messages at a time".into(),
        "the offline rendering of the same operations at the same quanta is the reference".into(),
    ];
    r.suite("callbacks", 40_000, 300_000, strategy, check);
}
