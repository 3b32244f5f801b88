//! C37: media recorder
use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::mpsc;
use std::sync::Mutex;
use web_audio_api::media_recorder::*;
use web_audio_api::media_streams::*;
use web_audio_api::AudioBuffer;

#[derive(Debug, Clone, Serialize, Deserialize)]
enum End {
    /// the stream ends
    Ends,
    /// the stream fails, and has more items
    Fails,
    /// the recorder is stopped (a number of times) before the stream ends, fails or goes on
    Stopped(u8, Box<End>),
    /// the stream has more chunks
    More(Vec<usize>),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    sr: f32,
    channels: usize,
    chunks: Vec<usize>,
    end: End,
    seed: u32,
    /// handlers for data, error and stop: absent, present, cleared again, replaced
    handlers: [u8; 3],
    /// stop is called before the start
    early: bool,
    wav: bool,
}

fn strategy() -> BoxedStrategy<Case> {
    let len = || {
        prop_oneof![
            4 => edge_len(1..=400),
            2 => 1usize..10,
            1 => Just(0usize),
            1 => 8000usize..40000,
        ]
    };
    let end = prop_oneof![
        4 => Just(End::Ends),
        3 => Just(End::Fails),
        1 => (1u8..3).prop_map(|n| End::Stopped(n, Box::new(End::Ends))),
        1 => (1u8..3).prop_map(|n| End::Stopped(n, Box::new(End::Fails))),
        1 => (1u8..3, prop::collection::vec(len(), 1..4))
            .prop_map(|(n, c)| End::Stopped(n, Box::new(End::More(c)))),
    ];
    let handler = || prop_oneof![8 => Just(1u8), 1 => Just(0u8), 1 => Just(2u8), 1 => Just(3u8)];
    (
        sample_rate(),
        channels_small(),
        prop::collection::vec(len(), 0..8),
        end,
        any::<u16>(),
        [handler(), handler(), handler()],
        prop::bool::weighted(0.1),
        any::<bool>(),
    )
        .prop_map(
            |(sr, channels, chunks, end, seed, handlers, early, wav)| Case {
                sr,
                channels,
                chunks,
                end,
                seed: seed as u32,
                handlers,
                early,
                wav,
            },
        )
        .boxed()
}

#[derive(Debug)]
enum Event {
    /// data, timecode
    Data(Vec<u8>, f64),
    Error(String),
    Stop,
    /// a handler that was cleared or replaced
    Dead(&'static str),
}

type Item = Result<AudioBuffer, Box<dyn std::error::Error + Send + Sync>>;

/// The header and the samples of a file of 32-bit floats
fn parse(b: &[u8]) -> Result<(usize, u32, Vec<f32>), String> {
    let u16at = |i: usize| u16::from_le_bytes([b[i], b[i + 1]]);
    let u32at = |i: usize| u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]);
    ensure!(b.len() >= 12, "only {} bytes", b.len());
    ensure!(
        &b[0..4] == b"RIFF" && &b[8..12] == b"WAVE",
        "no RIFF WAVE header"
    );
    let mut i = 12;
    let mut format = None;
    loop {
        ensure!(b.len() >= i + 8, "no data chunk");
        let (id, len) = (&b[i..i + 4], u32at(i + 4) as usize);
        i += 8;
        if id == b"data" {
            break;
        }
        ensure!(b.len() >= i + len, "chunk exceeds the file");
        if id == b"fmt " {
            let mut tag = u16at(i);
            if tag == 0xfffe {
                tag = u16at(i + 24);
            }
            ensure!(tag == 3, "format {tag} is not float");
            let (channels, rate) = (u16at(i + 2) as usize, u32at(i + 4));
            ensure!(u16at(i + 14) == 32, "{} bits per sample", u16at(i + 14));
            ensure!(
                u16at(i + 12) as usize == 4 * channels,
                "block of {} bytes",
                u16at(i + 12)
            );
            ensure!(
                u32at(i + 8) == rate * 4 * channels as u32,
                "byte rate {}",
                u32at(i + 8)
            );
            format = Some((channels, rate));
        }
        i += len + len % 2;
    }
    let Some((channels, rate)) = format else {
        return Err("no format chunk".into());
    };
    ensure!((b.len() - i) % 4 == 0, "{} bytes of samples", b.len() - i);
    let samples = b[i..]
        .chunks(4)
        .map(|c| f32::from_le_bytes([c[0], c[1], c[2], c[3]]))
        .collect();
    Ok((channels, rate, samples))
}

fn check(case: &Case, obs: &mut Obs) -> CaseResult {
    let chunk = |k: usize, len: usize| -> Vec<Vec<f32>> {
        (0..case.channels)
            .map(|c| {
                (0..len)
                    .map(|i| noise(case.seed + 977 * k as u32, c, i))
                    .collect()
            })
            .collect()
    };
    // every pull is announced, and gets the item that is sent then
    let (pull, pulled) = mpsc::channel::<()>();
    let (give, given) = mpsc::channel::<Option<Item>>();
    let source = Mutex::new((pull, given));
    let track = MediaStreamTrack::from_iter(std::iter::from_fn(move || {
        let s = source.lock().unwrap();
        s.0.send(()).ok()?;
        s.1.recv().ok()?
    }));
    let stream = MediaStream::from_tracks(vec![track]);
    let mut options = MediaRecorderOptions::default();
    if case.wav {
        options.mime_type = "audio/wav".into();
    }
    let recorder = MediaRecorder::new(&stream, options);
    drop(stream);
    let (tell, events) = mpsc::channel::<Event>();
    let times = |h: u8| if h == 3 { 2 } else { (h != 0) as usize };
    for n in 0..times(case.handlers[0]) {
        let tell = tell.clone();
        let live = n + 1 == times(case.handlers[0]) && case.handlers[0] != 2;
        recorder.set_ondataavailable(move |e| {
            let size = e.blob.size();
            assert!(size == e.blob.data.len() && e.blob.type_() == "audio/wav");
            let _ = tell.send(if live {
                Event::Data(e.blob.data, e.timecode)
            } else {
                Event::Dead("data")
            });
        });
    }
    for n in 0..times(case.handlers[1]) {
        let tell = tell.clone();
        let live = n + 1 == times(case.handlers[1]) && case.handlers[1] != 2;
        recorder.set_onerror(move |e| {
            let _ = tell.send(if live {
                Event::Error(e.message)
            } else {
                Event::Dead("error")
            });
        });
    }
    for n in 0..times(case.handlers[2]) {
        let tell = tell.clone();
        let live = n + 1 == times(case.handlers[2]) && case.handlers[2] != 2;
        recorder.set_onstop(move |_| {
            let _ = tell.send(if live {
                Event::Stop
            } else {
                Event::Dead("stop")
            });
        });
    }
    drop(tell);
    if case.handlers[0] == 2 {
        recorder.clear_ondataavailable();
    }
    if case.handlers[1] == 2 {
        recorder.clear_onerror();
    }
    if case.handlers[2] == 2 {
        recorder.clear_onstop();
    }

    let feed = |k: usize, len: usize| -> CaseResult {
        pulled
            .recv()
            .map_err(|_| format!("chunk {k} is not requested"))?;
        let _ = give.send(Some(Ok(AudioBuffer::from(chunk(k, len), case.sr))));
        Ok(())
    };
    if case.early {
        // not started yet
        recorder.stop();
    }
    recorder.start();
    for (k, len) in case.chunks.iter().enumerate() {
        feed(k, *len)?;
    }
    let mut end = &case.end;
    let mut recorder = Some(recorder);
    let mut stopped = false;
    loop {
        match end {
            End::Stopped(n, then) => {
                // the recorder has dealt with all chunks so far, and waits for the next
                pulled.recv().map_err(|_| "no further chunk is requested")?;
                stopped = true;
                let r = recorder.take().unwrap();
                for _ in 0..*n {
                    r.stop();
                }
                drop(r);
                match &**then {
                    End::More(lens) => {
                        for (k, len) in lens.iter().enumerate() {
                            let _ = give
                                .send(Some(Ok(AudioBuffer::from(chunk(100 + k, *len), case.sr))));
                        }
                        let _ = give.send(None);
                    }
                    End::Fails => {
                        let _ = give.send(Some(Err("broken".into())));
                        let _ = give.send(None);
                    }
                    _ => {
                        let _ = give.send(None);
                    }
                }
                break;
            }
            End::Ends => {
                let _ = give.send(None);
                break;
            }
            End::Fails => {
                let _ = give.send(Some(Err("broken".into())));
                let _ = give.send(Some(Ok(AudioBuffer::from(chunk(99, 10), case.sr))));
                let _ = give.send(None);
                break;
            }
            End::More(_) => end = &End::Ends,
        }
    }
    drop(recorder);
    drop(give);
    // the handlers are dropped when the recorder is done
    let events: Vec<Event> = events.iter().collect();

    let fails = matches!(case.end, End::Fails);
    let mut data = vec![];
    let mut phase = 0;
    let mut last = 0.;
    let mut counts = [0, 0, 0];
    for e in &events {
        match e {
            Event::Data(d, t) => {
                ensure!(phase == 0, "data after the error or stop event");
                ensure!(t.is_finite() && *t >= last, "time {t} after {last}");
                last = *t;
                data.extend_from_slice(d);
                counts[0] += 1;
            }
            Event::Error(m) => {
                ensure!(phase == 0 && fails, "unexpected error event");
                ensure!(m.contains("broken"), "error message {m}");
                phase = 1;
                counts[1] += 1;
            }
            Event::Stop => {
                ensure!(phase < 2, "second stop event");
                phase = 2;
                counts[2] += 1;
            }
            Event::Dead(what) => return Err(format!("the {what} handler was removed")),
        }
    }
    let live = |k: usize| case.handlers[k] % 2 == 1;
    if live(1) {
        ensure!(counts[1] == fails as usize, "{} error events", counts[1]);
    }
    if live(2) {
        ensure!(counts[2] == 1, "{} stop events", counts[2]);
    }
    if live(0) {
        if case.chunks.is_empty() {
            // a header may be written
            ensure!(
                data.is_empty() || parse(&data)?.2.is_empty(),
                "data of an empty stream"
            );
        } else {
            let (channels, rate, samples) = parse(&data)?;
            ensure!(channels == case.channels, "{channels} channels in the file");
            ensure!(
                (rate as f32 - case.sr).abs() <= 1.,
                "sample rate {rate} in the file, expected {}",
                case.sr
            );
            let mut expect = vec![];
            for (k, len) in case.chunks.iter().enumerate() {
                let c = chunk(k, *len);
                for i in 0..*len {
                    expect.extend(c.iter().map(|c| c[i]));
                }
            }
            obs.comparisons += identical("samples", &[samples], &[expect])?;
        }
    }
    obs.comparisons += events.len() as u64;
    obs.nontrivial_if(live(0) && data.len() > 100);
    obs.label_if(counts[0] > 1, "several blobs");
    obs.label_if(stopped, "stopped");
    obs.label_if(fails, "error");
    obs.label_if(case.chunks.is_empty(), "empty stream");
    Ok(())
}

pub fn run(r: &mut Runner) {
    r.rule = "streams of up to eight chunks of any length, also empty, that end, fail, or are stopped between chunks, with the handlers present, absent, cleared or replaced; the events of the recorder up to the end of its thread are checked, and the concatenated data is parsed and compared with the samples; non-trivial: audio was recorded".into();
    r.assumptions = vec![
        "all chunks of a stream have the same number of channels and the same sample rate".into(),
        "the recorder is stopped while it waits for the next chunk, as it is not specified which part of a chunk is recorded otherwise".into(),
    ];
    r.suite("recorder", 30_000, 300_000, strategy, check);
}
