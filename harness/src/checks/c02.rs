//! C02: channel up- and down-mixing
use crate::capture::*;
use crate::mix;
use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use web_audio_api::context::*;
use web_audio_api::node::*;

/// How a source signal is produced
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Src {
    /// buffer source with this many channels
    Direct(Sig),
    /// mono buffer source, passed through a gain node working with two channels
    MonoAsStereo(Sig, f32),
    /// mono buffer source connected to all inputs of a merger
    MergedSame(Sig, usize),
    /// mono source split over chosen inputs of a merger with `n` inputs
    MergedSome(Sig, Vec<usize>, usize),
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
struct Config {
    count: usize,
    mode: Mode,
    speakers: bool,
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
enum Recv {
    Capture,
    Gain(f32),
    Analyser,
    Destination,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    srcs: Vec<Src>,
    recv: Recv,
    config: Config,
    /// quanta at which the configuration is changed
    changes: Vec<(usize, Config)>,
    quanta: usize,
}

fn config() -> BoxedStrategy<Config> {
    (channels32(), mode(), prop::bool::weighted(0.65))
        .prop_map(|(count, mode, speakers)| Config {
            count,
            mode,
            speakers,
        })
        .boxed()
}

fn long_sig(ch: BoxedStrategy<usize>) -> BoxedStrategy<Sig> {
    (ch, sig_kind(), amp())
        .prop_map(|(channels, kind, amp)| Sig {
            channels,
            len: 128 * 6,
            kind,
            amp,
        })
        .boxed()
}

fn strategy() -> BoxedStrategy<Case> {
    let mono = || long_sig(Just(1usize).boxed());
    let src = prop_oneof![
        6 => long_sig(channels32()).prop_map(Src::Direct),
        1 => (mono(), prop_oneof![Just(1f32), 0.1f32..2.]).prop_map(|(s, g)| Src::MonoAsStereo(s, g)),
        1 => (mono(), channels32()).prop_map(|(s, n)| Src::MergedSame(s, n)),
        1 => (mono(), prop::collection::vec(0usize..8, 1..4), 2usize..9)
            .prop_map(|(s, v, n)| Src::MergedSome(s, v, n)),
    ];
    let recv = prop_oneof![
        3 => Just(Recv::Capture),
        1 => Just(Recv::Gain(1.)),
        1 => (0.1f32..2.).prop_map(Recv::Gain),
        1 => Just(Recv::Analyser),
        1 => Just(Recv::Destination),
    ];
    (
        prop::collection::vec(src, 1..5),
        recv,
        config(),
        prop::collection::vec((0usize..6, config()), 0..3),
    )
        .prop_map(|(srcs, recv, config, mut changes)| {
            changes.sort_by_key(|c| c.0);
            changes.dedup_by_key(|c| c.0);
            Case {
                srcs,
                recv,
                config,
                changes,
                quanta: 6,
            }
        })
        .boxed()
}

fn check(case: &Case, obs: &mut Obs) -> CaseResult {
    let sr = 48000.;
    let len = case.quanta * RQ;
    let dest = case.recv == Recv::Destination;
    // an offline destination has a fixed configuration: explicit, speakers
    let (config, changes) = if dest {
        (
            Config {
                count: case.config.count,
                mode: Mode::Explicit,
                speakers: true,
            },
            vec![],
        )
    } else {
        (case.config, case.changes.clone())
    };
    let n_out = if dest { config.count } else { 1 };
    let mut ctx = offline(n_out, len, sr);

    // the node whose input is observed
    let opts = node_opts(config.count, config.mode, config.speakers);
    let max = node_opts(2, Mode::Max, true);
    let mut keep: Vec<Box<dyn AudioNode>> = vec![];
    let (sink, log): (Box<dyn AudioNode + Send + Sync>, Option<Log>) = match case.recv {
        Recv::Capture => {
            let (n, l) = capture(&ctx, 1, opts);
            (Box::new(n), Some(l))
        }
        Recv::Gain(g) => {
            let n = GainNode::new(
                &ctx,
                GainOptions {
                    gain: g,
                    audio_node_options: opts,
                },
            );
            let (c, l) = capture(&ctx, 1, max);
            n.connect(&c);
            keep.push(Box::new(c));
            (Box::new(n), Some(l))
        }
        Recv::Analyser => {
            let n = AnalyserNode::new(
                &ctx,
                AnalyserOptions {
                    audio_node_options: opts,
                    ..Default::default()
                },
            );
            let (c, l) = capture(&ctx, 1, max);
            n.connect(&c);
            keep.push(Box::new(c));
            (Box::new(n), Some(l))
        }
        Recv::Destination => (Box::new(ctx.destination()), None),
    };

    let mut signals: Vec<Vec<Vec<f64>>> = vec![];
    for s in &case.srcs {
        match s {
            Src::Direct(sig) => {
                let src = play(&ctx, sig.buffer(sr), 0);
                src.connect(&*sink);
                signals.push(to64(&sig.data()));
                keep.push(Box::new(src));
            }
            Src::MonoAsStereo(sig, g) => {
                let src = play(&ctx, sig.buffer(sr), 0);
                let gain = GainNode::new(
                    &ctx,
                    GainOptions {
                        gain: *g,
                        audio_node_options: node_opts(2, Mode::Explicit, true),
                    },
                );
                src.connect(&gain);
                gain.connect(&*sink);
                let d: Vec<f64> = sig.data()[0].iter().map(|x| (x * g) as f64).collect();
                signals.push(vec![d.clone(), d]);
                keep.push(Box::new(src));
                keep.push(Box::new(gain));
            }
            Src::MergedSame(sig, n) => {
                let src = play(&ctx, sig.buffer(sr), 0);
                let m = ctx.create_channel_merger(*n);
                for i in 0..*n {
                    src.connect_from_output_to_input(&m, 0, i);
                }
                m.connect(&*sink);
                signals.push(vec![to64(&sig.data())[0].clone(); *n]);
                keep.push(Box::new(src));
                keep.push(Box::new(m));
            }
            Src::MergedSome(sig, ports, n) => {
                let src = play(&ctx, sig.buffer(sr), 0);
                let m = ctx.create_channel_merger(*n);
                let mut v = vec![vec![0f64; len]; *n];
                for p in ports {
                    let p = p % n;
                    if v[p].iter().all(|x| *x == 0.) {
                        src.connect_from_output_to_input(&m, 0, p);
                        v[p] = to64(&sig.data())[0].clone();
                    }
                }
                m.connect(&*sink);
                signals.push(v);
                keep.push(Box::new(src));
                keep.push(Box::new(m));
            }
        }
    }

    let sink = std::sync::Arc::new(sink);
    for (q, c) in &changes {
        let (sink, c) = (sink.clone(), *c);
        // any time in the quantum before
        let t = if *q == 0 {
            0.
        } else {
            ((*q * RQ) as f64 - 60.) / sr as f64
        };
        ctx.suspend_sync(t, move |_| {
            sink.set_channel_count(c.count);
            sink.set_channel_count_mode(c.mode.api());
            sink.set_channel_interpretation(interp_api(c.speakers));
        });
    }

    let out = to_vecs(&ctx.start_rendering_sync());

    let gain = if let Recv::Gain(g) = case.recv {
        g as f64
    } else {
        1.
    };
    let mut sizes: Vec<usize> = signals.iter().map(|s| s.len()).collect();
    sizes.sort();
    sizes.dedup();
    let amp: f64 = signals.iter().map(|s| peak64(s)).sum::<f64>() * gain.max(1.);
    let tol = 1e-6 * amp.max(1e-3) * 4.;
    let mut current = config;
    let captured = log.map(|l| concat(&l, 0));
    if let Some(c) = &captured {
        crate::ensure!(
            c.len() == case.quanta,
            "observed {} quanta of {}",
            c.len(),
            case.quanta
        );
    }
    for q in 0..case.quanta {
        if let Some((_, c)) = changes.iter().find(|c| c.0 == q) {
            current = *c;
        }
        let range = q * RQ..(q + 1) * RQ;
        let ins: Vec<Vec<Vec<f64>>> = signals
            .iter()
            .map(|s| s.iter().map(|c| c[range.clone()].to_vec()).collect())
            .collect();
        let mut expect = mix::junction(&ins, current.count, current.mode, current.speakers);
        for c in expect.iter_mut().flatten() {
            *c *= gain;
        }
        let got: Vec<Vec<f32>> = match &captured {
            Some(c) => c[q].clone(),
            None => out.iter().map(|c| c[range.clone()].to_vec()).collect(),
        };
        // a gain node may pass silence of any layout on as mono silence
        if matches!(case.recv, Recv::Gain(_)) && peak64(&expect) == 0. && peak(&got) == 0. {
            continue;
        }
        obs.comparisons += compare(
            &format!("quantum {q} with {current:?}"),
            &got,
            &expect,
            tol,
            1e-6,
        )?;
        let n = expect.len();
        obs.nontrivial_if(sizes.iter().any(|s| *s != n));
        if sizes.iter().any(|s| *s < n) {
            obs.label("up-mix");
        }
        if sizes.iter().any(|s| *s > n) {
            obs.label("down-mix");
        }
    }
    obs.label_if(sizes.len() > 1, "different layouts at one input");
    obs.label_if(!changes.is_empty(), "configuration changed while rendering");
    obs.label_if(
        case.srcs.iter().any(|s| !matches!(s, Src::Direct(_))),
        "shared channel data",
    );
    Ok(())
}

pub fn run(r: &mut Runner) {
    r.rule = "generated sets of 1-4 sources of 1-32 channels feeding one input with generated channel count, mode and interpretation, changed while rendering; non-trivial: some source needs up- or down-mixing".into();
    r.suite("junction", 150_000, 150000, strategy, check);
}
