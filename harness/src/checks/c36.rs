//! C36: media stream tracks as sources and destinations
use crate::capture::{capture, observe, signal};
use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::{Arc, Mutex};
use web_audio_api::context::*;
use web_audio_api::media_streams::*;
use web_audio_api::node::*;
use web_audio_api::AudioBuffer;

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Chunk {
    len: usize,
    /// sample rate in Hertz
    rate: f32,
    fails: bool,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    sr: f32,
    channels: usize,
    chunks: Vec<Chunk>,
    seed: u32,
    /// a track source instead of a stream source
    track: bool,
    /// quantum in which the node is created
    created: usize,
    /// quantum in which the track is closed
    closed: Option<usize>,
    /// the handle is dropped at once
    dropped: bool,
    /// a second node plays the same track; only for chunks of one quantum
    second: bool,
    quanta: usize,
}

fn strategy() -> BoxedStrategy<Case> {
    let rate = prop_oneof![
        6 => Just(1f32),
        1 => Just(2f32),
        1 => Just(0.5f32),
        2 => 0.2f32..4.,
    ];
    let chunk = (
        prop_oneof![
            3 => edge_len(1..=400),
            2 => 1usize..20,
            1 => Just(0usize),
            2 => Just(RQ),
        ],
        rate,
        prop::bool::weighted(0.06),
    )
        .prop_map(|(len, rate, fails)| Chunk { len, rate, fails });
    (
        sample_rate(),
        channels_small(),
        prop::collection::vec(chunk, 0..12),
        any::<u16>(),
        any::<bool>(),
        prop_oneof![3 => Just(0usize), 1 => 0usize..5],
        prop::option::weighted(0.2, 0usize..10),
        any::<bool>(),
        prop::bool::weighted(0.15),
    )
        .prop_map(
            |(sr, channels, mut chunks, seed, track, created, closed, dropped, second)| {
                for c in chunks.iter_mut() {
                    let r = (sr * c.rate).clamp(3000., 768000.);
                    // rates that are nearly equal are taken as equal
                    c.rate = if (r - sr).abs() < 1. { sr } else { r };
                    if second {
                        c.len = RQ;
                        c.rate = sr;
                    }
                }
                let frames: f64 = chunks
                    .iter()
                    .map(|c| c.len as f64 * (sr / c.rate) as f64)
                    .sum();
                Case {
                    sr,
                    channels,
                    quanta: created + (frames / RQ as f64) as usize + 4,
                    chunks,
                    seed: seed as u32,
                    track,
                    created,
                    closed,
                    dropped,
                    second,
                }
            },
        )
        .boxed()
}

/// Linear interpolation that keeps the first and the last sample
fn resampled(x: &[f32], from: f32, to: f32) -> Vec<f64> {
    if from == to || x.is_empty() {
        return x.iter().map(|v| *v as f64).collect();
    }
    let n = (x.len() as f64 * (to as f64 / from as f64)).ceil() as usize;
    (0..n)
        .map(|i| {
            let p = if n == 1 {
                0.
            } else {
                i as f64 * (x.len() - 1) as f64 / (n - 1) as f64
            };
            let k = (p.floor() as usize).min(x.len() - 1);
            let (a, b) = (x[k] as f64, x[(k + 1).min(x.len() - 1)] as f64);
            a + (b - a) * (p - k as f64)
        })
        .collect()
}

fn check(case: &Case, obs: &mut Obs) -> CaseResult {
    let n = case.quanta * RQ;
    let data: Vec<Vec<Vec<f32>>> = case
        .chunks
        .iter()
        .enumerate()
        .map(|(k, c)| {
            (0..case.channels)
                .map(|ch| {
                    (0..c.len)
                        .map(|i| noise(case.seed + 977 * k as u32, ch, i))
                        .collect()
                })
                .collect()
        })
        .collect();
    let pulled = Arc::new(Mutex::new(0usize));
    let items: Vec<_> = case
        .chunks
        .iter()
        .zip(&data)
        .map(|(c, d)| (c.fails, d.clone(), c.rate))
        .collect();
    let track = {
        let pulled = pulled.clone();
        MediaStreamTrack::from_iter(items.into_iter().map(move |(fails, d, rate)| {
            *pulled.lock().unwrap() += 1;
            if fails {
                Err("broken".into())
            } else {
                Ok(AudioBuffer::from(d, rate))
            }
        }))
    };
    ensure!(
        track.ready_state() == MediaStreamTrackState::Live,
        "a new track is not live"
    );

    let mut ctx = offline(case.channels, n, case.sr);
    type Slot = Arc<Mutex<Vec<(crate::capture::Log, Box<dyn std::any::Any + Send>)>>>;
    let slot: Slot = Default::default();
    let create = {
        let (slot, track, case) = (slot.clone(), track.clone(), case.clone());
        move |ctx: &OfflineAudioContext| {
            for _ in 0..1 + case.second as usize {
                let node: Box<dyn AudioNode + Send> = if case.track {
                    let media_stream_track = &track;
                    let opts = MediaStreamTrackAudioSourceOptions { media_stream_track };
                    Box::new(MediaStreamTrackAudioSourceNode::new(ctx, opts))
                } else {
                    let stream = MediaStream::from_tracks(vec![track.clone()]);
                    let media_stream = &stream;
                    let opts = MediaStreamAudioSourceOptions { media_stream };
                    Box::new(MediaStreamAudioSourceNode::new(ctx, opts))
                };
                let (watch, log) = observe(ctx, &*node, 0);
                node.connect(&ctx.destination());
                let mut keep: Vec<Box<dyn AudioNode + Send>> = vec![Box::new(watch)];
                if !case.dropped {
                    keep.push(node);
                }
                slot.lock().unwrap().push((log, Box::new(keep)));
            }
        }
    };
    // exact times in the middle of a quantum
    let time = |q: usize| (q as f64 - 0.5) * RQ as f64 / case.sr as f64;
    let closed = case
        .closed
        .filter(|q| *q < case.quanta && *q > case.created);
    if case.created == 0 {
        create(&ctx);
    } else {
        ctx.suspend_sync(time(case.created), move |ctx| create(ctx));
    }
    if let Some(q) = closed {
        let track = track.clone();
        ctx.suspend_sync(time(q), move |_| track.close());
    }
    let out = to_vecs(&ctx.start_rendering_sync());

    // the concatenation up to the first error
    let mut expect: Vec<Vec<f64>> = vec![vec![]; case.channels];
    let mut failed = false;
    for (c, d) in case.chunks.iter().zip(&data) {
        if c.fails {
            failed = true;
            break;
        }
        for (e, d) in expect.iter_mut().zip(d) {
            e.extend(resampled(d, c.rate, case.sr));
        }
    }
    let total = expect[0].len();
    for e in expect.iter_mut() {
        e.resize(total.max(n), 0.);
        e.truncate(n - case.created * RQ);
    }
    let same_rate = case.chunks.iter().all(|c| c.rate == case.sr);
    let tol = if same_rate { 0. } else { 1e-6 };

    let slots = slot.lock().unwrap();
    for (log, _) in slots.iter() {
        let got = signal("track", log, case.channels)?;
        // a node without an output may be removed
        let got: Vec<Vec<f32>> = got
            .into_iter()
            .map(|mut c| {
                c.resize(n - case.created * RQ, 0.);
                c
            })
            .collect();
        // what is certain: everything before the track was closed; full quanta before an error
        let mut certain = n - case.created * RQ;
        if let Some(q) = closed {
            certain = certain.min((q - case.created) * RQ);
        }
        if failed {
            certain = certain.min(total / RQ * RQ);
        }
        let cut = |v: &[Vec<f64>], a: usize, b: usize| -> Vec<Vec<f64>> {
            v.iter().map(|c| c[a..b].to_vec()).collect()
        };
        let cutf = |v: &[Vec<f32>], a: usize, b: usize| -> Vec<Vec<f32>> {
            v.iter().map(|c| c[a..b].to_vec()).collect()
        };
        obs.comparisons += compare(
            "track",
            &cutf(&got, 0, certain),
            &cut(&expect, 0, certain),
            tol,
            0.,
        )?;
        // and after that the remainder up to some frame, and silence
        let len = got[0].len();
        let sounding = (certain..len)
            .rev()
            .find(|i| got.iter().any(|c| c[*i] != 0.))
            .map_or(certain, |i| i + 1);
        obs.comparisons += compare(
            "remainder of the track",
            &cutf(&got, certain, sounding),
            &cut(&expect, certain, sounding),
            tol,
            0.,
        )?;
    }
    // the destination hears all of it
    let mix: Vec<Vec<f64>> = (0..case.channels)
        .map(|c| {
            let mut v = vec![0f64; n];
            for (log, _) in slots.iter() {
                let got = signal("track", log, case.channels).unwrap_or_default();
                for (i, x) in got[c].iter().enumerate() {
                    v[case.created * RQ + i] += *x as f64;
                }
            }
            v
        })
        .collect();
    obs.comparisons += compare("destination", &out, &mix, 1e-6, 0.)?;

    let ended = track.ready_state() == MediaStreamTrackState::Ended;
    let pulled = *pulled.lock().unwrap();
    if closed.is_none() {
        if pulled < case.chunks.len() {
            ensure!(
                !ended,
                "the track ended after {pulled} of {} items",
                case.chunks.len()
            );
        } else if !failed {
            ensure!(ended, "the track has not ended");
        }
    }
    obs.nontrivial_if(total >= RQ || (total > 0 && case.chunks.len() > 1));
    obs.label_if(failed, "error");
    obs.label_if(closed.is_some(), "closed");
    obs.label_if(!same_rate, "resampled");
    obs.label_if(case.chunks.iter().any(|c| c.len == 0), "empty chunk");
    Ok(())
}

// ------------------------------------------------------------------------------------------------

#[derive(Debug, Clone, Serialize, Deserialize)]
struct DestCase {
    sr: f32,
    sources: Vec<(Sig, usize)>,
    count: usize,
    mode: Mode,
    speakers: bool,
    /// quanta after which the stream is read
    reads: Vec<usize>,
    quanta: usize,
}

fn dest_strategy() -> BoxedStrategy<DestCase> {
    (3usize..10)
        .prop_flat_map(|quanta| {
            (
                sample_rate(),
                prop::collection::vec((sig(channels_small(), 1..=600), 0..600usize), 0..3),
                channels_small(),
                mode(),
                any::<bool>(),
                prop_oneof![
                    2 => Just((1..quanta).collect::<Vec<_>>()),
                    1 => prop::sample::subsequence((1..quanta).collect::<Vec<_>>(), 1..quanta),
                ],
                Just(quanta),
            )
        })
        .prop_map(
            |(sr, sources, count, mode, speakers, reads, quanta)| DestCase {
                sr,
                sources,
                count,
                mode,
                speakers,
                reads,
                quanta,
            },
        )
        .boxed()
}

fn check_dest(case: &DestCase, obs: &mut Obs) -> CaseResult {
    let mut ctx = offline(1, case.quanta * RQ, case.sr);
    let opts = node_opts(case.count, case.mode, case.speakers);
    let dest = MediaStreamAudioDestinationNode::new(&ctx, opts.clone());
    let (watch, log) = capture(&ctx, 1, opts);
    for (s, at) in &case.sources {
        let src = play(&ctx, s.buffer(case.sr), *at);
        src.connect(&dest);
        src.connect(&watch);
    }
    let track = dest.stream().get_tracks()[0].clone();
    ensure!(dest.stream().get_tracks().len() == 1, "one track expected");
    let got: Arc<Mutex<Vec<_>>> = Default::default();
    let iter: Arc<Mutex<Box<dyn Iterator<Item = _> + Send>>> =
        Arc::new(Mutex::new(Box::new(track.iter())));
    for q in case.reads.iter().copied() {
        let (got, iter) = (got.clone(), iter.clone());
        let time = (q as f64 - 0.5) * RQ as f64 / case.sr as f64;
        ctx.suspend_sync(time, move |_| {
            let item = iter.lock().unwrap().next();
            got.lock().unwrap().push((q, item));
        });
    }
    let _ = ctx.start_rendering_sync();
    let seen = log.lock().unwrap();
    let got = got.lock().unwrap();
    ensure!(
        got.len() == case.reads.len(),
        "{} of {} reads",
        got.len(),
        case.reads.len()
    );
    for (q, item) in got.iter() {
        let Some(Ok(buffer)) = item else {
            return Err(format!("no audio of quantum {}", q - 1));
        };
        ensure!(
            buffer.sample_rate() == case.sr,
            "sample rate {}",
            buffer.sample_rate()
        );
        obs.comparisons += identical(
            &format!("stream in quantum {}", q - 1),
            &to_vecs(buffer),
            &seen[q - 1].inputs[0],
        )?;
    }
    obs.nontrivial_if(seen.iter().any(|s| peak(&s.inputs[0]) > 0.));
    obs.label_if(case.reads.len() < case.quanta - 1, "quanta not read");
    Ok(())
}

/// Several consumers of one track
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Shared {
    chunks: usize,
    /// chunk that is an error
    error: Option<usize>,
    /// a new consumer (of a clone of the track), or the next chunk for a consumer
    steps: Vec<Option<u8>>,
}

fn shared_strategy() -> BoxedStrategy<Shared> {
    (
        0usize..12,
        prop::option::weighted(0.3, 0usize..12),
        prop::collection::vec(prop::option::weighted(0.85, any::<u8>()), 1..40),
    )
        .prop_map(|(chunks, error, steps)| Shared {
            chunks,
            error,
            steps,
        })
        .boxed()
}

fn check_shared(case: &Shared, obs: &mut Obs) -> CaseResult {
    let error = case.error;
    let pulled = Arc::new(Mutex::new(0usize));
    let count = pulled.clone();
    let track = MediaStreamTrack::from_iter((0..case.chunks).map(move |i| {
        *count.lock().unwrap() += 1;
        if error == Some(i) {
            return Err("planned error".into());
        }
        Ok(AudioBuffer::from(vec![vec![i as f32; 1 + i % 3]], 48000.))
    }));
    let mut consumers = vec![track.iter()];
    // number of chunks that were requested, the latest that each consumer got (from one)
    let (mut latest, mut ended) = (0, false);
    let mut at = vec![0];
    for step in &case.steps {
        let Some(k) = step else {
            consumers.push(track.clone().iter());
            at.push(0);
            continue;
        };
        let k = *k as usize % consumers.len();
        let got = consumers[k].next();
        if !ended && at[k] == latest {
            // this consumer has got everything so far
            if latest == case.chunks {
                ended = true;
            } else {
                latest += 1;
            }
        }
        if ended {
            ensure!(got.is_none(), "consumer {k}: {got:?} after the end");
        } else {
            at[k] = latest;
            match got {
                None => return Err(format!("consumer {k}: end at chunk {latest}")),
                Some(Err(e)) => ensure!(
                    error == Some(latest - 1) && e.to_string().contains("planned error"),
                    "consumer {k}: error {e} at chunk {latest}"
                ),
                Some(Ok(b)) => ensure!(
                    error != Some(latest - 1)
                        && b.length() == 1 + (latest - 1) % 3
                        && b.get_channel_data(0)[0] == (latest - 1) as f32,
                    "consumer {k}: {b:?}, expected chunk {latest}"
                ),
            }
        }
        obs.comparisons += 1;
        let pulled = *pulled.lock().unwrap();
        ensure!(
            pulled == latest,
            "{pulled} chunks requested, expected {latest}"
        );
    }
    obs.nontrivial_if(consumers.len() > 1 && at.iter().filter(|a| **a > 0).count() > 1);
    obs.label_if(ended, "ended");
    Ok(())
}

pub fn run(r: &mut Runner) {
    r.rule = "suite source: tracks of up to twelve chunks of any length, also empty, at any sample rate, with errors, closed while playing, played by stream and track sources created before or while rendering; compared with the concatenation of the linearly interpolated chunks; non-trivial: more than a quantum of audio or several chunks. suite destination: the stream of a destination read after some of the quanta, compared with a recording of the same input; non-trivial: the input is not silent. suite shared: several consumers of a track take chunks in any order: none sees a chunk twice, or an old one, or requests a chunk before it has seen the latest; non-trivial: two consumers got chunks".into();
    r.assumptions = vec![
        "all chunks of a track have the same number of channels".into(),
        "several nodes play the same track only if its chunks last one quantum, as the track keeps just the latest chunk".into(),
        "audio of an incomplete quantum before an error may be lost; after a track is closed any part of what it had already delivered may follow".into(),
    ];
    r.suite("source", 250_000, 3_000_000, strategy, check);
    r.suite("shared", 100_000, 1_000_000, shared_strategy, check_shared);
    r.suite("destination", 150_000, 2_000_000, dest_strategy, check_dest);
}
