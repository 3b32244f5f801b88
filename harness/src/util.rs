//! Signals, strategies and helpers shared by all checks.
#![allow(dead_code)]

use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use web_audio_api::context::{BaseAudioContext, OfflineAudioContext};
use web_audio_api::node::*;
use web_audio_api::{AudioBuffer, AudioBufferOptions};

pub const RQ: usize = 128;

/// Deterministic noise in [-1, 1): a pure function of (seed, channel, frame)
pub fn noise(seed: u32, ch: usize, i: usize) -> f32 {
    let mut z = (seed as u64) << 32 ^ (ch as u64) << 24 ^ i as u64 ^ 0x5bd1_e995;
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^= z >> 31;
    // 24 bits
    ((z >> 40) as f32 / (1u32 << 23) as f32) - 1.
}

/// A generated multi-channel test signal
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct Sig {
    pub channels: usize,
    pub len: usize,
    pub kind: SigKind,
    pub amp: f32,
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum SigKind {
    /// the channel number plus one, constant
    Const,
    /// impulse at a frame (scaled per channel)
    Impulse(usize),
    /// sine of a period in frames
    Sine(u32),
    /// white noise
    Noise(u32),
    /// noise that is zero in some blocks of 64 frames
    Gappy(u32),
    /// ramp
    Ramp,
    /// sine of a period in frames with a raised cosine envelope
    Burst(u32),
}

impl Sig {
    pub fn at(&self, ch: usize, i: usize) -> f32 {
        if i >= self.len {
            return 0.;
        }
        let v = match self.kind {
            SigKind::Const => (ch as f32 + 1.) / self.channels as f32,
            SigKind::Impulse(p) => {
                if i == p % self.len.max(1) {
                    (ch as f32 + 1.) / self.channels as f32
                } else {
                    0.
                }
            }
            SigKind::Sine(p) => {
                let p = p.max(2) as f64;
                ((i as f64 + ch as f64 * 3.) * std::f64::consts::TAU / p).sin() as f32
            }
            SigKind::Noise(s) => noise(s, ch, i),
            SigKind::Gappy(s) => {
                if noise(s ^ 0x77, 0, i / 64) > 0. {
                    noise(s, ch, i)
                } else {
                    0.
                }
            }
            SigKind::Burst(p) => {
                let env =
                    0.5 - 0.5 * ((i as f64 + 0.5) * std::f64::consts::TAU / self.len as f64).cos();
                (env * ((i as f64 + ch as f64 * 3.) * std::f64::consts::TAU / p as f64).sin())
                    as f32
            }
            SigKind::Ramp => (i + 1) as f32 / self.len as f32 * if ch % 2 == 0 { 1. } else { -1. },
        };
        v * self.amp
    }
    pub fn data(&self) -> Vec<Vec<f32>> {
        (0..self.channels)
            .map(|c| (0..self.len).map(|i| self.at(c, i)).collect())
            .collect()
    }
    pub fn buffer(&self, sample_rate: f32) -> AudioBuffer {
        AudioBuffer::from(self.data(), sample_rate)
    }
}

pub fn sig_kind() -> BoxedStrategy<SigKind> {
    prop_oneof![
        1 => Just(SigKind::Const),
        2 => (0usize..2000).prop_map(SigKind::Impulse),
        2 => (2u32..200).prop_map(SigKind::Sine),
        5 => any::<u16>().prop_map(|s| SigKind::Noise(s as u32)),
        2 => any::<u16>().prop_map(|s| SigKind::Gappy(s as u32)),
        1 => Just(SigKind::Ramp),
    ]
    .boxed()
}

pub fn amp() -> BoxedStrategy<f32> {
    prop_oneof![4 => Just(1f32), 2 => 0.01f32..1., 1 => 1f32..4., 1 => Just(1e-4f32)].boxed()
}

/// Signals with a number of channels from `chs` and a length in `len`
pub fn sig(
    chs: impl Strategy<Value = usize> + 'static,
    len: std::ops::RangeInclusive<usize>,
) -> BoxedStrategy<Sig> {
    (chs, edge_len(len), sig_kind(), amp())
        .prop_map(|(channels, len, kind, amp)| Sig {
            channels,
            len,
            kind,
            amp,
        })
        .boxed()
}

/// Lengths biased to block boundaries
pub fn edge_len(r: std::ops::RangeInclusive<usize>) -> BoxedStrategy<usize> {
    let (lo, hi) = (*r.start(), *r.end());
    let qlo = lo.div_ceil(RQ);
    let qhi = hi / RQ;
    if qhi > qlo {
        prop_oneof![
            3 => lo..=hi,
            1 => (qlo..=qhi).prop_map(move |q| (q * RQ).clamp(lo, hi)),
            1 => (qlo..=qhi, -2i64..=2).prop_map(move |(q, d)| ((q * RQ) as i64 + d).clamp(lo as i64, hi as i64) as usize),
        ]
        .boxed()
    } else {
        (lo..=hi).boxed()
    }
}

pub fn sample_rate() -> BoxedStrategy<f32> {
    prop_oneof![
        4 => Just(44100f32),
        3 => Just(48000f32),
        1 => Just(8000f32),
        1 => Just(3000f32),
        1 => Just(96000f32),
        1 => Just(192000f32),
        1 => Just(32768f32),
        1 => (3000u32..100000).prop_map(|r| r as f32),
    ]
    .boxed()
}

/// Number of channels, biased to the layouts with speaker rules
pub fn channels32() -> BoxedStrategy<usize> {
    prop_oneof![
        3 => Just(1usize), 3 => Just(2usize), 2 => Just(4usize), 2 => Just(6usize),
        1 => Just(3usize), 1 => Just(5usize), 1 => 7usize..=32,
    ]
    .boxed()
}

pub fn channels_small() -> BoxedStrategy<usize> {
    prop_oneof![3 => Just(1usize), 3 => Just(2usize), 1 => 3usize..=6].boxed()
}

/// A source that plays `buf` from `frame` on (`frame` exact)
pub fn play<C: BaseAudioContext>(ctx: &C, buf: AudioBuffer, frame: usize) -> AudioBufferSourceNode {
    let mut src = AudioBufferSourceNode::new(
        ctx,
        AudioBufferSourceOptions {
            buffer: Some(buf),
            ..Default::default()
        },
    );
    if frame == 0 {
        src.start();
    } else {
        src.start_at(frame as f64 / ctx.sample_rate() as f64);
    }
    src
}

pub fn offline(channels: usize, len: usize, sr: f32) -> OfflineAudioContext {
    OfflineAudioContext::new(channels, len, sr)
}

pub fn to_vecs(b: &AudioBuffer) -> Vec<Vec<f32>> {
    (0..b.number_of_channels())
        .map(|c| b.get_channel_data(c).to_vec())
        .collect()
}

pub fn empty_buffer(ch: usize, len: usize, sr: f32) -> AudioBuffer {
    AudioBuffer::new(AudioBufferOptions {
        number_of_channels: ch,
        length: len,
        sample_rate: sr,
    })
}

/// Compare with an absolute tolerance plus a tolerance relative to the expected value
pub fn close(actual: f32, expected: f64, abs: f64, rel: f64) -> bool {
    let a = actual as f64;
    if a.is_nan() || expected.is_nan() {
        return a.is_nan() && expected.is_nan();
    }
    if a == expected {
        return true;
    }
    (a - expected).abs() <= abs + rel * expected.abs()
}

/// Compare a rendering with the expected samples
pub fn compare(
    what: &str,
    actual: &[Vec<f32>],
    expected: &[Vec<f64>],
    abs: f64,
    rel: f64,
) -> Result<u64, String> {
    if actual.len() != expected.len() {
        return Err(format!(
            "{what}: {} channels, expected {}",
            actual.len(),
            expected.len()
        ));
    }
    let mut n = 0;
    for (c, (a, e)) in actual.iter().zip(expected).enumerate() {
        if a.len() != e.len() {
            return Err(format!(
                "{what}: channel {c} has {} frames, expected {}",
                a.len(),
                e.len()
            ));
        }
        for (i, (x, y)) in a.iter().zip(e).enumerate() {
            n += 1;
            if !close(*x, *y, abs, rel) {
                let around: Vec<String> = (i.saturating_sub(2)..(i + 4).min(a.len()))
                    .map(|k| format!("{k}: {} / {}", a[k], e[k]))
                    .collect();
                return Err(format!(
                    "{what}: channel {c} frame {i} (quantum {}, offset {}): rendered {x:e}, expected {y:e}; around (rendered / expected): {}",
                    i / RQ,
                    i % RQ,
                    around.join(", ")
                ));
            }
        }
    }
    Ok(n)
}

/// Bit-for-bit comparison of two renderings (0 and -0 are equal, NaN equals NaN)
pub fn identical(what: &str, a: &[Vec<f32>], b: &[Vec<f32>]) -> Result<u64, String> {
    if a.len() != b.len() {
        return Err(format!("{what}: {} versus {} channels", a.len(), b.len()));
    }
    let mut n = 0;
    for (c, (x, y)) in a.iter().zip(b).enumerate() {
        if x.len() != y.len() {
            return Err(format!(
                "{what}: channel {c}: {} versus {} frames",
                x.len(),
                y.len()
            ));
        }
        for (i, (p, q)) in x.iter().zip(y).enumerate() {
            n += 1;
            if !(p == q || (p.is_nan() && q.is_nan())) {
                return Err(format!(
                    "{what}: channel {c} frame {i} (quantum {}, offset {}): {p:e} versus {q:e}",
                    i / RQ,
                    i % RQ
                ));
            }
        }
    }
    Ok(n)
}

pub fn to64(v: &[Vec<f32>]) -> Vec<Vec<f64>> {
    v.iter()
        .map(|c| c.iter().map(|x| *x as f64).collect())
        .collect()
}

pub fn peak(v: &[Vec<f32>]) -> f32 {
    v.iter().flatten().fold(0f32, |m, x| m.max(x.abs()))
}

pub fn peak64(v: &[Vec<f64>]) -> f64 {
    v.iter().flatten().fold(0f64, |m, x| m.max(x.abs()))
}

/// Serialisable channel count mode
#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
pub enum Mode {
    Max,
    ClampedMax,
    Explicit,
}
impl Mode {
    pub fn api(self) -> ChannelCountMode {
        match self {
            Mode::Max => ChannelCountMode::Max,
            Mode::ClampedMax => ChannelCountMode::ClampedMax,
            Mode::Explicit => ChannelCountMode::Explicit,
        }
    }
}
pub fn mode() -> BoxedStrategy<Mode> {
    prop_oneof![
        Just(Mode::Max),
        Just(Mode::ClampedMax),
        Just(Mode::Explicit)
    ]
    .boxed()
}
pub fn interp_api(speakers: bool) -> ChannelInterpretation {
    if speakers {
        ChannelInterpretation::Speakers
    } else {
        ChannelInterpretation::Discrete
    }
}

pub fn node_opts(count: usize, mode: Mode, speakers: bool) -> AudioNodeOptions {
    AudioNodeOptions {
        channel_count: count,
        channel_count_mode: mode.api(),
        channel_interpretation: interp_api(speakers),
    }
}
