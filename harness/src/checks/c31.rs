//! C31: decoding
use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{Error, ErrorKind, Read};
use web_audio_api::context::*;
use web_audio_api::AudioBuffer;

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
enum Format {
    U8,
    S16,
    S24,
    S32,
    F32,
    F64,
    ALaw,
    MuLaw,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct File {
    format: Format,
    /// big-endian AIFF instead of WAV; only for the integer formats
    aiff: bool,
    /// the format chunk is of the extensible kind
    extensible: bool,
    /// size of an additional chunk before and after the samples
    extra: (Option<usize>, Option<usize>),
    rate: u32,
    channels: usize,
    frames: usize,
    seed: u32,
}

fn format() -> BoxedStrategy<Format> {
    prop_oneof![
        1 => Just(Format::U8),
        2 => Just(Format::S16),
        1 => Just(Format::S24),
        1 => Just(Format::S32),
        2 => Just(Format::F32),
        1 => Just(Format::F64),
        1 => Just(Format::ALaw),
        1 => Just(Format::MuLaw),
    ]
    .boxed()
}

fn file(frames: BoxedStrategy<usize>, rate: BoxedStrategy<u32>) -> BoxedStrategy<File> {
    (
        format(),
        prop::bool::weighted(0.2),
        any::<bool>(),
        (
            prop::option::weighted(0.3, 0usize..60),
            prop::option::weighted(0.2, 0usize..60),
        ),
        rate,
        prop_oneof![4 => 1usize..=2, 1 => 3usize..=8],
        frames,
        any::<u16>(),
    )
        .prop_map(
            |(format, aiff, extensible, extra, rate, channels, frames, seed)| {
                let aiff = aiff
                    && !matches!(
                        format,
                        Format::F32 | Format::F64 | Format::ALaw | Format::MuLaw
                    );
                let extensible =
                    (extensible || channels > 2) && !matches!(format, Format::ALaw | Format::MuLaw);
                File {
                    format,
                    aiff,
                    extensible,
                    extra,
                    rate,
                    channels: if matches!(format, Format::ALaw | Format::MuLaw) {
                        channels.min(2)
                    } else {
                        channels
                    },
                    frames,
                    seed: seed as u32,
                }
            },
        )
        .boxed()
}

/// ITU-T G.711
fn a_law(b: u8) -> f64 {
    let b = b ^ 0x55;
    let (e, m) = ((b >> 4) & 7, (b & 15) as i32);
    let v = if e == 0 {
        (m << 4) + 8
    } else {
        ((m << 4) + 0x108) << (e - 1)
    };
    (if b & 0x80 != 0 { v } else { -v }) as f64 / 32768.
}

fn mu_law(b: u8) -> f64 {
    let b = !b;
    let (e, m) = ((b >> 4) & 7, (b & 15) as i32);
    let v = (((m << 3) + 0x84) << e) - 0x84;
    (if b & 0x80 != 0 { -v } else { v }) as f64 / 32768.
}

impl File {
    fn bytes_per_sample(&self) -> usize {
        match self.format {
            Format::U8 | Format::ALaw | Format::MuLaw => 1,
            Format::S16 => 2,
            Format::S24 => 3,
            Format::S32 | Format::F32 => 4,
            Format::F64 => 8,
        }
    }

    /// The little-endian bytes of a sample and its value
    fn sample(&self, c: usize, i: usize) -> (Vec<u8>, f64) {
        let x = noise(self.seed, c, i) as f64;
        // extreme values as well
        let x = match (i + self.seed as usize) % 19 {
            3 => 1.,
            7 => -1.,
            _ => x,
        };
        let int = |bits: u32| -> i64 {
            let m = (1i64 << (bits - 1)) as f64;
            (x * m).clamp(-m, m - 1.) as i64
        };
        match self.format {
            Format::U8 => {
                let v = int(8);
                if self.aiff {
                    (vec![v as i8 as u8], v as f64 / 128.)
                } else {
                    (vec![(v + 128) as u8], v as f64 / 128.)
                }
            }
            Format::S16 => {
                let v = int(16);
                (v.to_le_bytes()[..2].to_vec(), v as f64 / 32768.)
            }
            Format::S24 => {
                let v = int(24);
                (v.to_le_bytes()[..3].to_vec(), v as f64 / 8388608.)
            }
            Format::S32 => {
                let v = int(32);
                (v.to_le_bytes()[..4].to_vec(), v as f64 / 2147483648.)
            }
            Format::F32 => {
                let v = (x * 3.) as f32;
                (v.to_le_bytes().to_vec(), v as f64)
            }
            Format::F64 => {
                let v = x * 1.37;
                (v.to_le_bytes().to_vec(), v)
            }
            Format::ALaw => {
                let b = (noise(self.seed, c, i) * 127.9) as i8 as u8;
                (vec![b], a_law(b))
            }
            Format::MuLaw => {
                let b = (noise(self.seed, c, i) * 127.9) as i8 as u8;
                (vec![b], mu_law(b))
            }
        }
    }

    fn samples(&self) -> Vec<Vec<f64>> {
        (0..self.channels)
            .map(|c| (0..self.frames).map(|i| self.sample(c, i).1).collect())
            .collect()
    }

    fn bytes(&self) -> Vec<u8> {
        let mut data = vec![];
        for i in 0..self.frames {
            for c in 0..self.channels {
                let mut b = self.sample(c, i).0;
                if self.aiff {
                    b.reverse();
                }
                data.extend(b);
            }
        }
        let mut chunks: Vec<(&[u8; 4], Vec<u8>)> = vec![];
        let bps = self.bytes_per_sample();
        let junk = |n: usize| (0..n).map(|i| (i * 37 + 11) as u8).collect::<Vec<_>>();
        if self.aiff {
            let mut comm = vec![];
            comm.extend((self.channels as u16).to_be_bytes());
            comm.extend((self.frames as u32).to_be_bytes());
            comm.extend((bps as u16 * 8).to_be_bytes());
            // 80 bit float
            let e = 31 - self.rate.leading_zeros();
            comm.extend((16383 + e as u16).to_be_bytes());
            comm.extend(((self.rate as u64) << (63 - e)).to_be_bytes());
            chunks.push((b"COMM", comm));
            if let Some(n) = self.extra.0 {
                chunks.push((b"ANNO", junk(n)));
            }
            let mut ssnd = vec![0; 8];
            ssnd.extend(data);
            chunks.push((b"SSND", ssnd));
        } else {
            let tag: u16 = match self.format {
                Format::F32 | Format::F64 => 3,
                Format::ALaw => 6,
                Format::MuLaw => 7,
                _ => 1,
            };
            let block = bps * self.channels;
            let mut fmt = vec![];
            fmt.extend(if self.extensible { 0xfffe } else { tag }.to_le_bytes());
            fmt.extend((self.channels as u16).to_le_bytes());
            fmt.extend(self.rate.to_le_bytes());
            fmt.extend((self.rate.wrapping_mul(block as u32)).to_le_bytes());
            fmt.extend((block as u16).to_le_bytes());
            fmt.extend((bps as u16 * 8).to_le_bytes());
            if self.extensible {
                fmt.extend(22u16.to_le_bytes());
                fmt.extend((bps as u16 * 8).to_le_bytes());
                fmt.extend(((1u32 << self.channels) - 1).to_le_bytes());
                fmt.extend(tag.to_le_bytes());
                fmt.extend([0, 0, 0, 0, 0x10, 0, 0x80, 0, 0, 0xaa, 0, 0x38, 0x9b, 0x71]);
            } else if tag == 6 || tag == 7 {
                fmt.extend(0u16.to_le_bytes());
            }
            chunks.push((b"fmt ", fmt));
            if tag != 1 {
                chunks.push((b"fact", (self.frames as u32).to_le_bytes().to_vec()));
            }
            if let Some(n) = self.extra.0 {
                chunks.push((b"junk", junk(n)));
            }
            chunks.push((b"data", data));
        }
        if let Some(n) = self.extra.1 {
            chunks.push((if self.aiff { b"AUTH" } else { b"junk" }, junk(n)));
        }
        let size = 4 + chunks
            .iter()
            .map(|c| 8 + c.1.len() + c.1.len() % 2)
            .sum::<usize>();
        let u32b = |n: usize| {
            if self.aiff {
                (n as u32).to_be_bytes()
            } else {
                (n as u32).to_le_bytes()
            }
        };
        let mut out = vec![];
        out.extend(if self.aiff { b"FORM" } else { b"RIFF" });
        out.extend(u32b(size));
        out.extend(if self.aiff { b"AIFF" } else { b"WAVE" });
        for (id, body) in chunks {
            out.extend(id);
            out.extend(u32b(body.len()));
            out.extend(&body);
            if body.len() % 2 == 1 {
                out.push(0);
            }
        }
        out
    }
}

/// A reader that returns pieces of the data, and may fail at some position
struct Pieces {
    data: Vec<u8>,
    at: usize,
    sizes: Vec<usize>,
    turn: usize,
    fail: Option<(usize, ErrorKind)>,
}

impl Read for Pieces {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let mut end = self.data.len();
        if let Some((p, kind)) = self.fail {
            if self.at >= p {
                return Err(Error::new(kind, "broken"));
            }
            end = end.min(p);
        }
        let mut n = buf.len().min(end - self.at);
        if !self.sizes.is_empty() {
            n = n.min(self.sizes[self.turn % self.sizes.len()]);
            self.turn += 1;
        }
        buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

fn sizes() -> BoxedStrategy<Vec<usize>> {
    prop_oneof![
        2 => Just(vec![]),
        1 => prop::collection::vec(1usize..5, 1..4),
        1 => prop::collection::vec(1usize..2000, 1..6),
    ]
    .boxed()
}

fn decode(
    sr: f32,
    input: Pieces,
    asynchronous: bool,
) -> Result<AudioBuffer, Box<dyn std::error::Error + Send + Sync>> {
    let ctx = OfflineAudioContext::new(1, 128, sr);
    if asynchronous {
        let future = ctx.decode_audio_data(input);
        drop(ctx);
        futures::executor::block_on(future)
    } else {
        ctx.decode_audio_data_sync(input)
    }
}

// ------------------------------------------------------------------------------------------------

#[derive(Debug, Clone, Serialize, Deserialize)]
struct PcmCase {
    file: File,
    sr: f32,
    sizes: Vec<usize>,
    asynchronous: bool,
}

fn rate() -> BoxedStrategy<u32> {
    prop_oneof![
        Just(8000u32),
        Just(44100),
        Just(48000),
        Just(96000),
        3000u32..200_000,
    ]
    .boxed()
}

fn pcm_strategy() -> BoxedStrategy<PcmCase> {
    let frames = prop_oneof![
        2 => 0usize..10,
        3 => 1usize..500,
        2 => 500usize..6000,
    ]
    .boxed();
    (
        file(frames, rate()),
        prop::option::weighted(0.5, sample_rate()),
        sizes(),
        any::<bool>(),
    )
        .prop_map(|(file, sr, sizes, asynchronous)| {
            let mut sr = sr.unwrap_or(file.rate as f32);
            // nearly equal rates are taken as equal
            if (sr - file.rate as f32).abs() < 1. {
                sr = file.rate as f32;
            }
            PcmCase {
                sr,
                file,
                sizes,
                asynchronous,
            }
        })
        .boxed()
}

/// Linear interpolation that keeps the first and the last sample
fn resampled(x: &[f64], from: f32, to: f32) -> Vec<f64> {
    if from == to || x.is_empty() {
        return x.to_vec();
    }
    let n = (x.len() as f64 * (to as f64 / from as f64)).ceil() as usize;
    (0..n)
        .map(|i| {
            let p = i as f64 * (x.len() - 1) as f64 / (n - 1).max(1) as f64;
            let k = (p.floor() as usize).min(x.len() - 1);
            let (a, b) = (x[k], x[(k + 1).min(x.len() - 1)]);
            a + (b - a) * (p - k as f64)
        })
        .collect()
}

fn check_pcm(case: &PcmCase, obs: &mut Obs) -> CaseResult {
    let input = Pieces {
        data: case.file.bytes(),
        at: 0,
        sizes: case.sizes.clone(),
        turn: 0,
        fail: None,
    };
    let buffer = match decode(case.sr, input, case.asynchronous) {
        Ok(b) => b,
        // a file without samples has nothing to decode
        Err(_) if case.file.frames == 0 => return Ok(()),
        Err(e) => return Err(format!("not decoded: {e}")),
    };
    ensure!(
        buffer.sample_rate() == case.sr,
        "sample rate {}",
        buffer.sample_rate()
    );
    if case.file.frames == 0 {
        ensure!(buffer.length() == 0, "{} frames", buffer.length());
        return Ok(());
    }
    let expect: Vec<Vec<f64>> = case
        .file
        .samples()
        .iter()
        .map(|c| resampled(c, case.file.rate as f32, case.sr))
        .collect();
    obs.comparisons += compare("decoded", &to_vecs(&buffer), &expect, 1e-6, 1e-6)?;
    obs.nontrivial_if(case.file.frames > 1);
    obs.label_if(case.sr != case.file.rate as f32, "resampled");
    obs.label(match case.file.format {
        Format::U8 => "8 bit",
        Format::S16 => "16 bit",
        Format::S24 => "24 bit",
        Format::S32 => "32 bit",
        Format::F32 | Format::F64 => "float",
        Format::ALaw | Format::MuLaw => "G.711",
    });
    obs.label_if(case.file.aiff, "AIFF");
    Ok(())
}

// ------------------------------------------------------------------------------------------------

#[derive(Debug, Clone, Serialize, Deserialize)]
struct FaultCase {
    file: File,
    sizes: Vec<usize>,
    /// position in thousandths of the file
    position: usize,
    /// the data ends, or the reader fails
    kind: u8,
    asynchronous: bool,
}

fn fault_strategy() -> BoxedStrategy<FaultCase> {
    let frames = prop_oneof![2 => 1usize..200, 1 => 200usize..20000].boxed();
    (
        file(frames, rate()),
        sizes(),
        prop_oneof![3 => 0usize..1000, 1 => 0usize..100],
        0u8..6,
        any::<bool>(),
    )
        .prop_map(|(file, sizes, position, kind, asynchronous)| FaultCase {
            file,
            sizes,
            position,
            kind,
            asynchronous,
        })
        .boxed()
}

fn check_fault(case: &FaultCase, obs: &mut Obs) -> CaseResult {
    let mut data = case.file.bytes();
    let p = data.len() * case.position / 1000;
    let kind = match case.kind {
        0 => None,
        1 => Some(ErrorKind::UnexpectedEof),
        2 => Some(ErrorKind::ConnectionReset),
        3 => Some(ErrorKind::TimedOut),
        4 => Some(ErrorKind::InvalidData),
        _ => Some(ErrorKind::Other),
    };
    if kind.is_none() {
        data.truncate(p);
    }
    let input = Pieces {
        data,
        at: 0,
        sizes: case.sizes.clone(),
        turn: 0,
        fail: kind.map(|k| (p, k)),
    };
    match decode(case.file.rate as f32, input, case.asynchronous) {
        Err(_) => obs.label("error"),
        Ok(buffer) => {
            let n = buffer.length();
            ensure!(
                case.kind < 2 || n == case.file.frames,
                "the error {kind:?} at byte {p} was ignored, {n} frames decoded"
            );
            if n > 0 {
                // what was read may be used, nothing else
                let most = p / (case.file.bytes_per_sample() * case.file.channels);
                ensure!(n <= most.min(case.file.frames), "{n} frames from {p} bytes");
                let expect: Vec<Vec<f64>> = case
                    .file
                    .samples()
                    .into_iter()
                    .map(|c| c[..n].to_vec())
                    .collect();
                obs.comparisons += compare("decoded", &to_vecs(&buffer), &expect, 1e-6, 1e-6)?;
                obs.label("part of the audio");
                obs.nontrivial_if(true);
            } else {
                obs.label("no audio");
            }
        }
    }
    obs.comparisons += 1;
    obs.nontrivial_if(p > 50);
    Ok(())
}

// ------------------------------------------------------------------------------------------------

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Edit {
    /// position (modulo the length), value
    Byte(usize, u8),
    Flip(usize, u8),
    Word(usize, u32),
    Remove(usize, usize),
    Insert(usize, Vec<u8>),
    Repeat(usize, usize),
    Truncate(usize),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct BytesCase {
    file: Option<File>,
    edits: Vec<Edit>,
    sizes: Vec<usize>,
}

fn bytes_strategy() -> BoxedStrategy<BytesCase> {
    // most of the positions are in the header
    let pos = || prop_oneof![4 => 0usize..100, 1 => 0usize..1000];
    let word = prop_oneof![
        Just(0u32),
        Just(1),
        Just(u32::MAX),
        Just(0x7fff_ffff),
        Just(0x8000_0000),
        any::<u32>(),
        0u32..100_000,
    ];
    let edit = prop_oneof![
        4 => (pos(), any::<u8>()).prop_map(|(p, v)| Edit::Byte(p, v)),
        2 => (pos(), 0u8..8).prop_map(|(p, v)| Edit::Flip(p, v)),
        2 => (pos(), word).prop_map(|(p, v)| Edit::Word(p, v)),
        1 => (pos(), 1usize..20).prop_map(|(p, n)| Edit::Remove(p, n)),
        1 => (pos(), prop::collection::vec(any::<u8>(), 1..20)).prop_map(|(p, v)| Edit::Insert(p, v)),
        1 => (pos(), 1usize..60).prop_map(|(p, n)| Edit::Repeat(p, n)),
        1 => pos().prop_map(Edit::Truncate),
    ];
    (
        prop::option::weighted(0.9, file((0usize..60).boxed(), rate())),
        prop::collection::vec(edit, 1..6),
        sizes(),
    )
        .prop_map(|(file, edits, sizes)| BytesCase { file, edits, sizes })
        .boxed()
}

fn apply(data: &mut Vec<u8>, edits: &[Edit]) {
    for e in edits {
        let n = data.len();
        if n == 0 {
            data.extend([1, 2, 3, 4, 5, 6, 7, 8]);
            continue;
        }
        match e {
            Edit::Byte(p, v) => data[p % n] = *v,
            Edit::Flip(p, b) => data[p % n] ^= 1 << b,
            Edit::Word(p, v) => {
                for (i, b) in v.to_le_bytes().iter().enumerate() {
                    data[(p + i) % n] = *b;
                }
            }
            Edit::Remove(p, k) => {
                let p = p % n;
                data.drain(p..(p + k).min(n));
            }
            Edit::Insert(p, v) => {
                let p = p % n;
                data.splice(p..p, v.iter().copied());
            }
            Edit::Repeat(p, k) => {
                let p = p % n;
                let part = data[p..(p + k).min(n)].to_vec();
                data.splice(p..p, part);
            }
            Edit::Truncate(p) => data.truncate(*p),
        }
    }
}

fn check_bytes(case: &BytesCase, obs: &mut Obs) -> CaseResult {
    let mut data = case.file.as_ref().map(|f| f.bytes()).unwrap_or_default();
    apply(&mut data, &case.edits);
    let run = |asynchronous| {
        decode(
            4000.,
            Pieces {
                data: data.clone(),
                at: 0,
                sizes: if asynchronous {
                    case.sizes.clone()
                } else {
                    vec![]
                },
                turn: 0,
                fail: None,
            },
            asynchronous,
        )
    };
    // the decoders of third parties may panic as long as the call returns an error
    obs.allow_panics = true;
    let (a, b) = (run(false), run(true));
    for r in [&a, &b] {
        match r {
            Ok(b) => {
                ensure!(b.sample_rate() == 4000., "sample rate {}", b.sample_rate());
                obs.label("decoded");
            }
            Err(_) => obs.label("error"),
        }
    }
    obs.comparisons += 1;
    obs.nontrivial_if(data.len() > 12);
    Ok(())
}

// ------------------------------------------------------------------------------------------------

const SAMPLES: [&str; 8] = [
    "major-scale.ogg",
    "sample-aac.m4a",
    "sample-alac.m4a",
    "sample.aiff",
    "sample.flac",
    "sample.mp3",
    "sample.webm",
    "white.ogg",
];

#[derive(Debug, Clone, Serialize, Deserialize)]
struct SampleCase {
    file: usize,
    /// `None` is the intact file
    length: Option<usize>,
    edits: Vec<(usize, u8)>,
    /// position in thousandths and size of a removed part
    removed: Option<(usize, usize)>,
    sizes: Vec<usize>,
}

fn sample_strategy() -> BoxedStrategy<SampleCase> {
    (
        0..SAMPLES.len(),
        prop::option::weighted(0.9, 1000usize..12_000),
        prop::collection::vec(
            (
                prop_oneof![1 => 0usize..300, 1 => 0usize..12_000],
                any::<u8>(),
            ),
            0..6,
        ),
        prop::option::weighted(0.2, (0usize..1000, 1usize..500)),
        prop::collection::vec(1usize..5000, 1..4),
    )
        .prop_map(|(file, length, edits, removed, sizes)| SampleCase {
            file,
            edits: if length.is_some() { edits } else { vec![] },
            removed: if length.is_some() { removed } else { None },
            length,
            sizes,
        })
        .boxed()
}

fn check_sample(case: &SampleCase, obs: &mut Obs) -> CaseResult {
    let path = format!("/repo/samples/{}", SAMPLES[case.file]);
    let Ok(mut data) = std::fs::read(path) else {
        obs.label("file missing");
        return Ok(());
    };
    data.truncate(case.length.unwrap_or(usize::MAX));
    if let Some((p, n)) = case.removed {
        let p = data.len() * p / 1000;
        data.drain(p..(p + n).min(data.len()));
    }
    for (p, v) in &case.edits {
        let n = data.len();
        data[p % n] = *v;
    }
    obs.allow_panics = true;
    let run = |sizes: &[usize]| {
        decode(
            8000.,
            Pieces {
                data: data.clone(),
                at: 0,
                sizes: sizes.to_vec(),
                turn: 0,
                fail: None,
            },
            false,
        )
    };
    match (run(&[]), run(&case.sizes)) {
        (Ok(a), Ok(b)) => {
            if case.length.is_none() {
                obs.comparisons += identical("decoded in pieces", &to_vecs(&a), &to_vecs(&b))?;
                obs.label("intact");
            }
            ensure!(a.sample_rate() == 8000., "sample rate {}", a.sample_rate());
            obs.label("decoded");
            obs.nontrivial_if(a.length() > 0);
        }
        (a, b) => {
            let e = a.err().or(b.err()).unwrap();
            // the codec of this file is not supported
            let unsupported = SAMPLES[case.file] == "sample.webm";
            ensure!(
                case.length.is_some() || unsupported,
                "{} is not decoded: {e}",
                SAMPLES[case.file]
            );
            obs.label("error");
        }
    }
    Ok(())
}

pub fn run(r: &mut Runner) {
    r.rule = "suite pcm: WAV and AIFF files of all sample formats, one to eight channels, additional chunks, read in pieces, decoded at the rate of the file or another; compared with the samples or their linear interpolation; non-trivial: more than one frame. suite fault: the reader ends or fails at some position; the result is an error or a prefix of the samples; non-trivial: after the header. suite bytes: edited files and random bytes, decoded at once and in pieces; non-trivial: more than twelve bytes. suite formats: the compressed sample files of the repository, intact, where reading in pieces makes no difference, or cut and edited; non-trivial: some audio was decoded".into();
    r.assumptions = vec!["formats other than PCM are decoded by a third party library and not compared with a reference".into()];
    r.suite("pcm", 30_000, 300_000, pcm_strategy, check_pcm);
    r.suite("fault", 30_000, 300_000, fault_strategy, check_fault);
    r.suite("formats", 4_000, 60_000, sample_strategy, check_sample);
    r.suite("bytes", 200_000, 1_000_000, bytes_strategy, check_bytes);
}
