//! C30: audio buffers
use crate::capture::*;
use crate::rig::*;
use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::{Arc, Mutex};
use web_audio_api::context::*;
use web_audio_api::node::*;
use web_audio_api::worklet::AudioWorkletNode;
use web_audio_api::{AudioBuffer, AudioBufferOptions};

/// Indices of buffers are taken modulo the number of existing ones, channels modulo one more than
/// the buffer has: the last one is rejected
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    Silent(usize, usize, bool),
    /// channels, length, seed
    From(usize, usize, u32),
    Clone(usize),
    Drop(usize),
    /// buffer, channel, offset, length, seed, without offset
    CopyTo(usize, usize, usize, usize, u32, bool),
    CopyFrom(usize, usize, usize, usize, bool),
    Write(usize, usize, usize, f32),
    /// a clone given to a new source: by the options, by set_buffer
    Source(usize, bool),
    Convolver(usize),
    /// take the buffer of the nth source back
    Fetch(usize),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    ops: Vec<Op>,
    /// operations during the rendering
    late: Vec<Op>,
    at: usize,
}

const MAX_LEN: usize = 300;
const QUANTA: usize = 4;
const SR: f32 = 32768.;

fn op() -> BoxedStrategy<Op> {
    let len = || prop_oneof![2 => 1usize..20, 1 => 1usize..MAX_LEN, 1 => Just(128usize)];
    let offset = || prop_oneof![4 => 0usize..20, 1 => 0usize..2 * MAX_LEN, 1 => Just(usize::MAX)];
    let ch = || prop_oneof![3 => 0usize..2, 1 => 0usize..8];
    prop_oneof![
        1 => (1usize..=4, len(), any::<bool>()).prop_map(|(c, n, f)| Op::Silent(c, n, f)),
        1 => (1usize..=4, len(), any::<u32>()).prop_map(|(c, n, s)| Op::From(c, n, s)),
        3 => (0usize..8).prop_map(Op::Clone),
        1 => (0usize..8).prop_map(Op::Drop),
        4 => (0usize..8, ch(), offset(), 0usize..40, any::<u32>(), prop::bool::weighted(0.3))
            .prop_map(|(b, c, o, n, s, x)| Op::CopyTo(b, c, o, n, s, x)),
        2 => (0usize..8, ch(), offset(), 0usize..400, prop::bool::weighted(0.3))
            .prop_map(|(b, c, o, n, x)| Op::CopyFrom(b, c, o, n, x)),
        3 => (0usize..8, ch(), 0usize..MAX_LEN, -1f32..1.).prop_map(|(b, c, i, v)| Op::Write(b, c, i, v)),
        2 => (0usize..8, any::<bool>()).prop_map(|(b, o)| Op::Source(b, o)),
        1 => (0usize..8).prop_map(Op::Convolver),
        1 => (0usize..8).prop_map(Op::Fetch),
    ]
    .boxed()
}

fn strategy() -> BoxedStrategy<Case> {
    (
        proptest::collection::vec(op(), 1..24),
        proptest::collection::vec(op(), 0..10),
        1..QUANTA,
    )
        .prop_map(|(ops, late, at)| Case { ops, late, at })
        .boxed()
}

fn noise(seed: u32, n: usize) -> Vec<f32> {
    let mut x = seed | 1;
    (0..n)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 17;
            x ^= x << 5;
            (x >> 8) as f32 / (1 << 23) as f32 - 1.
        })
        .collect()
}

type Model = Vec<Vec<f32>>;

#[derive(Default)]
struct World {
    buffers: Vec<(AudioBuffer, Model)>,
    sources: Vec<(AudioBufferSourceNode, Model)>,
    convolvers: Vec<(ConvolverNode, Model)>,
    recorded: Vec<(AudioWorkletNode, Log, Model, usize)>,
    error: Option<String>,
    comparisons: u64,
    shared_writes: usize,
    rejected: usize,
}

fn same(b: &AudioBuffer, m: &Model) -> CaseResult {
    ensure!(
        b.number_of_channels() == m.len() && b.length() == m[0].len(),
        "{} channels of {} frames, expected {} of {}",
        b.number_of_channels(),
        b.length(),
        m.len(),
        m[0].len()
    );
    ensure!(
        b.sample_rate() == SR && b.duration() == m[0].len() as f64 / SR as f64,
        "sample rate {}, duration {}",
        b.sample_rate(),
        b.duration()
    );
    for (c, m) in m.iter().enumerate() {
        ensure!(
            b.get_channel_data(c) == &m[..],
            "channel {c} differs from what was written"
        );
    }
    Ok(())
}

impl World {
    fn verify(&mut self, what: &str) -> CaseResult {
        for (i, (b, m)) in self.buffers.iter().enumerate() {
            same(b, m).map_err(|e| format!("{what}, buffer {i}: {e}"))?;
        }
        for (i, (s, m)) in self.sources.iter().enumerate() {
            same(s.buffer().unwrap(), m)
                .map_err(|e| format!("{what}, buffer of source {i}: {e}"))?;
        }
        for (i, (s, m)) in self.convolvers.iter().enumerate() {
            same(s.buffer().unwrap(), m)
                .map_err(|e| format!("{what}, buffer of convolver {i}: {e}"))?;
        }
        self.comparisons += (self.buffers.len() + self.sources.len()) as u64;
        Ok(())
    }

    fn perform<C: BaseAudioContext>(&mut self, ctx: &C, op: &Op, quantum: usize) -> CaseResult {
        match op {
            Op::Silent(c, n, factory) => {
                let b = if *factory {
                    ctx.create_buffer(*c, *n, SR)
                } else {
                    AudioBuffer::new(AudioBufferOptions {
                        number_of_channels: *c,
                        length: *n,
                        sample_rate: SR,
                    })
                };
                self.buffers.push((b, vec![vec![0.; *n]; *c]));
                return Ok(());
            }
            Op::From(c, n, seed) => {
                let m: Model = (0..*c)
                    .map(|i| noise(seed.wrapping_add(i as u32 * 977), *n))
                    .collect();
                self.buffers.push((AudioBuffer::from(m.clone(), SR), m));
                return Ok(());
            }
            Op::Fetch(i) if !self.sources.is_empty() => {
                let (s, m) = &self.sources[i % self.sources.len()];
                self.buffers.push((s.buffer().unwrap().clone(), m.clone()));
                return Ok(());
            }
            _ => (),
        }
        if self.buffers.is_empty() {
            return Ok(());
        }
        let n = self.buffers.len();
        let aliases = n + self.sources.len() + self.convolvers.len();
        match op {
            Op::Clone(i) => {
                let b = self.buffers[i % n].clone();
                self.buffers.push(b);
            }
            Op::Drop(i) => {
                self.buffers.remove(i % n);
            }
            Op::CopyTo(i, c, offset, len, seed, simple) => {
                let (b, m) = &mut self.buffers[i % n];
                let c = c % (m.len() + 1);
                let data = noise(*seed, *len);
                let offset = if *simple { 0 } else { *offset };
                let r = accepts(|| {
                    if *simple {
                        b.copy_to_channel(&data, c)
                    } else {
                        b.copy_to_channel_with_offset(&data, c, offset)
                    }
                });
                ensure!(
                    r.is_ok() == (c < m.len()),
                    "copy to channel {c} of {}: {r:?}",
                    m.len()
                );
                match m.get_mut(c) {
                    Some(m) => {
                        for (m, d) in m.iter_mut().skip(offset).zip(&data) {
                            *m = *d;
                        }
                        self.shared_writes += (aliases > 1) as usize;
                    }
                    None => self.rejected += 1,
                }
            }
            Op::CopyFrom(i, c, offset, len, simple) => {
                let (b, m) = &self.buffers[i % n];
                let c = c % (m.len() + 1);
                let mut data = noise(5, *len);
                let mut want = data.clone();
                let offset = if *simple { 0 } else { *offset };
                let r = accepts(|| {
                    if *simple {
                        b.copy_from_channel(&mut data, c)
                    } else {
                        b.copy_from_channel_with_offset(&mut data, c, offset)
                    }
                });
                ensure!(
                    r.is_ok() == (c < m.len()),
                    "copy from channel {c} of {}: {r:?}",
                    m.len()
                );
                match m.get(c) {
                    Some(m) => {
                        for (w, m) in want.iter_mut().zip(m.iter().skip(offset)) {
                            *w = *m;
                        }
                    }
                    None => self.rejected += 1,
                }
                ensure!(data == want, "copied {data:?}, expected {want:?}");
            }
            Op::Write(i, c, index, v) => {
                let (b, m) = &mut self.buffers[i % n];
                let c = c % (m.len() + 1);
                let index = index % m[0].len();
                let r = accepts(|| b.get_channel_data_mut(c)[index] = *v);
                ensure!(
                    r.is_ok() == (c < m.len()),
                    "write to channel {c} of {}: {r:?}",
                    m.len()
                );
                let r = accepts(|| b.get_channel_data(c).len());
                ensure!(
                    r.is_ok() == (c < m.len()),
                    "read channel {c} of {}: {r:?}",
                    m.len()
                );
                match m.get_mut(c) {
                    Some(m) => {
                        m[index] = *v;
                        self.shared_writes += (aliases > 1) as usize;
                    }
                    None => self.rejected += 1,
                }
            }
            Op::Source(i, options) => {
                let (b, m) = self.buffers[i % n].clone();
                let mut s = if *options {
                    AudioBufferSourceNode::new(
                        ctx,
                        AudioBufferSourceOptions {
                            buffer: Some(b),
                            ..Default::default()
                        },
                    )
                } else {
                    let mut s = ctx.create_buffer_source();
                    s.set_buffer(b);
                    s
                };
                s.start_at(0.);
                let (cap, log) = observe(ctx, &s, 0);
                self.recorded.push((cap, log, m.clone(), quantum));
                self.sources.push((s, m));
            }
            Op::Convolver(i) => {
                let (b, m) = self.buffers[i % n].clone();
                let ok = [1, 2, 4].contains(&m.len());
                let mut conv = ctx.create_convolver();
                let r = accepts(|| conv.set_buffer(b));
                ensure!(
                    r.is_ok() == ok,
                    "convolver with {} channels: {r:?}",
                    m.len()
                );
                if ok {
                    self.convolvers.push((conv, m));
                }
            }
            _ => (),
        }
        Ok(())
    }

    fn run<C: BaseAudioContext>(&mut self, ctx: &C, ops: &[Op], quantum: usize) -> CaseResult {
        for (i, op) in ops.iter().enumerate() {
            self.perform(ctx, op, quantum)
                .and_then(|_| self.verify("afterwards"))
                .map_err(|e| format!("operation {i} {op:?}: {e}"))?;
        }
        Ok(())
    }
}

fn check(case: &Case, obs: &mut Obs) -> CaseResult {
    let mut ctx = offline(1, QUANTA * RQ, SR);
    let mut world = World::default();
    world.run(&ctx, &case.ops, 0)?;
    let world = Arc::new(Mutex::new(world));
    let (w, late, at) = (world.clone(), case.late.clone(), case.at);
    ctx.suspend_sync((at * RQ - 64) as f64 / SR as f64, move |ctx| {
        let mut w = w.lock().unwrap();
        if let Err(e) = w.run(ctx, &late, at) {
            w.error = Some(e);
        }
    });
    let _ = ctx.start_rendering_sync();
    let mut w = world.lock().unwrap();
    if let Some(e) = w.error.take() {
        return Err(e);
    }
    w.verify("after rendering")?;
    for (i, (_, log, m, from)) in w.recorded.iter().enumerate() {
        for (q, b) in blocks(log).iter().enumerate() {
            for f in 0..RQ {
                let pos = q * RQ + f;
                for (c, m) in m.iter().enumerate() {
                    let want = m.get(pos).copied().unwrap_or(0.);
                    let got = b.get(c).map_or(0., |c| c[f]);
                    ensure!(
                        got == want,
                        "source {i} plays {got} at frame {pos} of channel {c}, expected {want} (from quantum {from})"
                    );
                }
            }
        }
    }
    obs.comparisons += w.comparisons + w.recorded.len() as u64;
    obs.nontrivial_if(w.shared_writes > 0);
    obs.label_if(w.rejected > 0, "rejected");
    obs.label_if(!w.sources.is_empty(), "played");
    obs.label_if(!case.late.is_empty(), "during rendering");
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Make {
    channels: usize,
    length: usize,
    sr: f32,
    unequal: bool,
}

fn make() -> BoxedStrategy<Make> {
    (
        prop_oneof![2 => 1usize..=32, 1 => Just(0usize), 1 => 33usize..40],
        prop_oneof![3 => 1usize..50, 1 => Just(0usize)],
        prop_oneof![
            3 => 3000f32..768_000.,
            1 => prop::sample::select(vec![3000f32, 768_000., 2999., 768_001., 0., -44100., f32::MAX, 1e-30])
        ],
        prop::bool::weighted(0.2),
    )
        .prop_map(|(channels, length, sr, unequal)| Make {
            channels,
            length,
            sr,
            unequal,
        })
        .boxed()
}

fn check_make(case: &Make, obs: &mut Obs) -> CaseResult {
    let valid = (1..=32).contains(&case.channels) && (3000. ..=768_000.).contains(&case.sr);
    let ctx = offline(1, RQ, SR);
    let options = || AudioBufferOptions {
        number_of_channels: case.channels,
        length: case.length,
        sample_rate: case.sr,
    };
    for r in [
        accepts(|| AudioBuffer::new(options())),
        accepts(|| ctx.create_buffer(case.channels, case.length, case.sr)),
    ] {
        let ok = valid && case.length > 0;
        ensure!(r.is_ok() == ok, "{case:?}: accepted {}", r.is_ok());
        if let Ok(b) = r {
            ensure!(
                b.number_of_channels() == case.channels
                    && b.length() == case.length
                    && b.sample_rate() == case.sr
                    && b.duration() == case.length as f64 / case.sr as f64,
                "{case:?}: {b:?}"
            );
            for c in 0..case.channels {
                ensure!(
                    b.get_channel_data(c) == &vec![0.; case.length][..],
                    "channel {c} is not silent"
                );
            }
        }
    }
    let mut data: Vec<Vec<f32>> = (0..case.channels)
        .map(|c| noise(c as u32 + 3, case.length))
        .collect();
    let unequal = case.unequal && case.channels > 1;
    if unequal {
        data[case.channels - 1].push(1.);
    }
    let r = accepts(|| AudioBuffer::from(data.clone(), case.sr));
    let ok = valid && !unequal;
    // there is no rule for data without any frames
    if case.length > 0 {
        ensure!(r.is_ok() == ok, "{case:?}: accepted {}", r.is_ok());
    }
    if let Ok(b) = r {
        for (c, d) in data.iter().enumerate() {
            ensure!(b.get_channel_data(c) == &d[..], "channel {c} differs");
        }
    }
    obs.comparisons += 3;
    obs.nontrivial_if(!valid || unequal || case.length == 0);
    Ok(())
}

pub fn run(r: &mut Runner) {
    r.rule = "histories: a buffer is written to while other buffers or nodes exist; construction: the arguments are not acceptable".into();
    r.assumptions = vec![
        "all buffers, and those held by sources and convolvers, are compared after every operation; sources are played without resampling".into(),
    ];
    r.suite("history", 150_000, 1_000_000, strategy, check);
    r.suite("construction", 20_000, 100_000, make, check_make);
}
