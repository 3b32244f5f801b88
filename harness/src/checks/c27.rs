//! C27: channel splitter and merger
use crate::capture::*;
use crate::mix;
use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use web_audio_api::context::*;
use web_audio_api::node::*;

fn ports() -> BoxedStrategy<usize> {
    prop_oneof![4 => 1usize..=6, 1 => 7usize..=32].boxed()
}

fn chans() -> BoxedStrategy<usize> {
    prop_oneof![3 => 1usize..=6, 1 => 7usize..=32].boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Split {
    sig: Sig,
    /// first frame of the signal
    at: usize,
    outputs: usize,
    quanta: usize,
}

fn split_strategy() -> BoxedStrategy<Split> {
    (
        sig(chans(), 1..=4 * RQ),
        prop_oneof![2 => Just(0usize), 1 => 0usize..300],
        ports(),
        1usize..6,
    )
        .prop_map(|(sig, at, outputs, quanta)| Split {
            sig,
            at,
            outputs,
            quanta,
        })
        .boxed()
}

fn check_split(case: &Split, obs: &mut Obs) -> CaseResult {
    let sr = 32768.;
    let mut ctx = offline(1, case.quanta * RQ, sr);
    let src = play(&ctx, case.sig.buffer(sr), case.at);
    let split = ctx.create_channel_splitter(case.outputs);
    src.connect(&split);
    let seen: Vec<_> = (0..case.outputs)
        .map(|o| observe(&ctx, &split, o))
        .collect();
    let _ = ctx.start_rendering_sync();
    let mut heard = 0;
    for (o, (_, log)) in seen.iter().enumerate() {
        let got = signal(&format!("output {o}"), log, 1)?;
        let expect: Vec<f32> = (0..case.quanta * RQ)
            .map(|i| {
                if o < case.sig.channels && i >= case.at {
                    case.sig.at(o, i - case.at)
                } else {
                    0.
                }
            })
            .collect();
        heard += expect.iter().any(|v| *v != 0.) as usize;
        obs.comparisons += identical(&format!("output {o}"), &got, &[expect])?;
    }
    obs.nontrivial_if(heard > 1 || (heard == 1 && case.outputs > 1));
    obs.label_if(
        case.outputs > case.sig.channels,
        "more outputs than channels",
    );
    obs.label_if(
        case.outputs < case.sig.channels,
        "fewer outputs than channels",
    );
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Merge {
    sigs: Vec<(Sig, usize)>,
    inputs: usize,
    /// (signal, input)
    wires: Vec<(usize, usize)>,
    quanta: usize,
}

fn merge_strategy() -> BoxedStrategy<Merge> {
    (
        prop::collection::vec(
            (
                sig(chans(), 1..=4 * RQ),
                prop_oneof![2 => Just(0usize), 1 => 0usize..300],
            ),
            1..5,
        ),
        ports(),
        prop::collection::btree_set((any::<u16>(), any::<u16>()), 1..8),
        1usize..6,
    )
        .prop_map(|(sigs, inputs, wires, quanta)| {
            let mut w: Vec<(usize, usize)> = wires
                .iter()
                .map(|(a, b)| (*a as usize % sigs.len(), *b as usize % inputs))
                .collect();
            w.sort();
            w.dedup();
            Merge {
                wires: w,
                sigs,
                inputs,
                quanta,
            }
        })
        .boxed()
}

fn check_merge(case: &Merge, obs: &mut Obs) -> CaseResult {
    let sr = 32768.;
    let len = case.quanta * RQ;
    let mut ctx = offline(1, len, sr);
    let merge = ctx.create_channel_merger(case.inputs);
    let srcs: Vec<_> = case
        .sigs
        .iter()
        .map(|(s, at)| play(&ctx, s.buffer(sr), *at))
        .collect();
    for (s, i) in &case.wires {
        srcs[*s].connect_from_output_to_input(&merge, 0, *i);
    }
    let (_n, log) = observe(&ctx, &merge, 0);
    let _ = ctx.start_rendering_sync();
    let got = signal("merger", &log, case.inputs)?;
    let mut expect = vec![vec![0f64; len]; case.inputs];
    let mut level = 0f64;
    for (s, i) in &case.wires {
        let (sig, at) = &case.sigs[*s];
        let data: Vec<Vec<f64>> = (0..sig.channels)
            .map(|c| {
                (0..len)
                    .map(|f| {
                        if f >= *at {
                            sig.at(c, f - at) as f64
                        } else {
                            0.
                        }
                    })
                    .collect()
            })
            .collect();
        level = level.max(peak64(&data));
        let mono = mix::mix(&data, 1, true);
        for (e, m) in expect[*i].iter_mut().zip(&mono[0]) {
            *e += m;
        }
    }
    obs.comparisons += compare("merger", &got, &expect, 1e-6 * level * 4., 1e-6)?;
    // channels without a wire are exactly silent
    for (c, g) in got.iter().enumerate() {
        if !case.wires.iter().any(|(_, i)| *i == c) {
            ensure!(
                g.iter().all(|v| *v == 0.),
                "unconnected input {c} is not silent"
            );
        }
    }
    obs.nontrivial_if(case.inputs > 1 && peak64(&expect) > 0.);
    obs.label_if(case.wires.len() < case.inputs, "unconnected inputs");
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Route {
    sig: Sig,
    outputs: usize,
    inputs: usize,
    wires: Vec<(usize, usize)>,
}

fn route_strategy() -> BoxedStrategy<Route> {
    (
        sig(chans(), 3 * RQ..=3 * RQ),
        ports(),
        ports(),
        prop::collection::vec((any::<u16>(), any::<u16>()), 0..10),
        any::<bool>(),
    )
        .prop_map(|(sig, outputs, inputs, wires, straight)| {
            let mut w: Vec<(usize, usize)> = if straight {
                // restores the signal
                (0..sig.channels).map(|c| (c, c)).collect()
            } else {
                wires
                    .iter()
                    .map(|(a, b)| (*a as usize % outputs, *b as usize % inputs))
                    .collect()
            };
            w.sort();
            w.dedup();
            let (outputs, inputs) = if straight {
                (sig.channels, sig.channels)
            } else {
                (outputs, inputs)
            };
            Route {
                sig,
                outputs,
                inputs,
                wires: w,
            }
        })
        .boxed()
}

fn check_route(case: &Route, obs: &mut Obs) -> CaseResult {
    let sr = 44100.;
    let len = case.sig.len;
    let mut ctx = offline(case.inputs, len, sr);
    ctx.destination()
        .set_channel_interpretation(ChannelInterpretation::Discrete);
    let src = play(&ctx, case.sig.buffer(sr), 0);
    let split = ctx.create_channel_splitter(case.outputs);
    let merge = ctx.create_channel_merger(case.inputs);
    src.connect(&split);
    for (o, i) in &case.wires {
        split.connect_from_output_to_input(&merge, *o, *i);
    }
    merge.connect(&ctx.destination());
    let got = to_vecs(&ctx.start_rendering_sync());
    let mut expect = vec![vec![0f64; len]; case.inputs];
    for (o, i) in &case.wires {
        if *o < case.sig.channels {
            for (f, e) in expect[*i].iter_mut().enumerate() {
                *e += case.sig.at(*o, f) as f64;
            }
        }
    }
    obs.comparisons += compare(
        "routed",
        &got,
        &expect,
        1e-6 * case.sig.amp as f64 * 4.,
        1e-6,
    )?;
    obs.nontrivial_if(case.wires.len() > 1 && peak64(&expect) > 0.);
    Ok(())
}

pub fn run(r: &mut Runner) {
    r.rule = "generated signals of 1-32 channels through splitters and mergers of 1-32 ports with generated wiring; outputs compared sample by sample with the routed channels (exactly for the splitter, f32 summation tolerance for mergers); non-trivial: at least two ports involved and an audible signal".into();
    r.suite("split", 40_000, 800_000, split_strategy, check_split);
    r.suite("merge", 60_000, 1_000_000, merge_strategy, check_merge);
    r.suite("route", 60_000, 1_000_000, route_strategy, check_route);
}
