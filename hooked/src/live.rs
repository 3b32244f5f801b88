//! Live contexts whose audio callback is driven by the test
use crate::util::RQ;
use std::sync::mpsc;
use std::time::Duration;
use web_audio_api::context::*;
use web_audio_api::verif_hooks::{self, ManualSink};

pub struct Live {
    pub ctx: AudioContext,
    pub sink: ManualSink,
    pub channels: usize,
    /// frames requested
    pub frames: usize,
}

pub fn open(sample_rate: f32, channels: usize) -> Live {
    verif_hooks::drive_sinks(Some(channels));
    let ctx = AudioContext::new(AudioContextOptions {
        sample_rate: Some(sample_rate),
        sink_id: "none".into(),
        ..Default::default()
    });
    let sink = verif_hooks::take_sink().expect("sink of the context");
    Live {
        ctx,
        sink,
        channels,
        frames: 0,
    }
}

/// A value no rendering produces: marks frames that have not been written
pub const UNWRITTEN: u32 = 0x7fc0_1234;

impl Live {
    /// One callback, returns the channels
    pub fn callback(&mut self, frames: usize) -> Vec<Vec<f32>> {
        let mut buffer = vec![f32::from_bits(UNWRITTEN); frames * self.channels];
        self.sink.render(&mut buffer);
        self.frames += frames;
        (0..self.channels)
            .map(|c| {
                buffer
                    .iter()
                    .skip(c)
                    .step_by(self.channels)
                    .copied()
                    .collect()
            })
            .collect()
    }

    pub fn quanta(&mut self, n: usize) {
        for _ in 0..n {
            self.callback(RQ);
        }
    }

    /// Report of the render graph, taken at the next callback (of one quantum)
    pub fn report(&mut self) -> AudioContextDiagnostics {
        let (send, recv) = mpsc::channel();
        self.ctx.run_diagnostics(move |d| {
            let _ = send.send(d);
        });
        self.callback(RQ);
        recv.recv_timeout(Duration::from_secs(60))
            .unwrap_or_else(|_| {
                eprintln!("no diagnostic report within a minute (inconclusive)");
                std::process::exit(3)
            })
    }
}
