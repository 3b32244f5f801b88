//! Custom processors that record what they are given.
#![allow(dead_code)]
use std::sync::{Arc, Mutex};
use web_audio_api::context::BaseAudioContext;
use web_audio_api::node::AudioNodeOptions;
use web_audio_api::worklet::*;

/// What a capture node saw in one quantum
#[derive(Debug, Clone)]
pub struct Seen {
    pub frame: u64,
    pub time: f64,
    /// [input][channel][sample]
    pub inputs: Vec<Vec<Vec<f32>>>,
}

pub type Log = Arc<Mutex<Vec<Seen>>>;

pub struct Capture {
    log: Log,
}

impl AudioWorkletProcessor for Capture {
    type ProcessorOptions = Log;
    fn constructor(log: Log) -> Self {
        Self { log }
    }
    fn process<'a, 'b>(
        &mut self,
        inputs: &'b [&'a [&'a [f32]]],
        outputs: &'b mut [&'a mut [&'a mut [f32]]],
        _params: AudioParamValues<'b>,
        scope: &'b AudioWorkletGlobalScope,
    ) -> bool {
        self.log.lock().unwrap().push(Seen {
            frame: scope.current_frame,
            time: scope.current_time,
            inputs: inputs
                .iter()
                .map(|i| i.iter().map(|c| c.to_vec()).collect())
                .collect(),
        });
        // silent outputs
        for o in outputs.iter_mut() {
            for c in o.iter_mut() {
                c.fill(0.);
            }
        }
        false
    }
}

/// A node with `inputs` inputs and no outputs that records its inputs
pub fn capture<C: BaseAudioContext>(
    ctx: &C,
    inputs: usize,
    opts: AudioNodeOptions,
) -> (AudioWorkletNode, Log) {
    let log: Log = Default::default();
    let node = AudioWorkletNode::new::<Capture>(
        ctx,
        AudioWorkletNodeOptions {
            number_of_inputs: inputs,
            number_of_outputs: 0,
            output_channel_count: vec![],
            parameter_data: Default::default(),
            processor_options: log.clone(),
            audio_node_options: opts,
        },
    );
    (node, log)
}

/// Concatenate what was seen at one input into channels; quanta with fewer channels than `n` are
/// an error unless they are mono silence
pub fn concat(log: &Log, input: usize) -> Vec<Vec<Vec<f32>>> {
    log.lock()
        .unwrap()
        .iter()
        .map(|s| s.inputs[input].clone())
        .collect()
}

/// Record one output of a node with its own number of channels. Keep the returned node.
pub fn observe<C: BaseAudioContext>(
    ctx: &C,
    node: &dyn web_audio_api::node::AudioNode,
    output: usize,
) -> (AudioWorkletNode, Log) {
    let (n, log) = capture(ctx, 1, AudioNodeOptions::default());
    node.connect_from_output_to_input(&n, output, 0);
    (n, log)
}

/// The recorded signal. Quanta that contain only zeros may have any number of channels (inactive
/// nodes output one channel of silence), all others must have `n` channels.
pub fn signal(what: &str, log: &Log, n: usize) -> Result<Vec<Vec<f32>>, String> {
    let mut out = vec![vec![]; n];
    for (q, s) in log.lock().unwrap().iter().enumerate() {
        let i = &s.inputs[0];
        if i.len() != n {
            if i.iter().flatten().any(|v| *v != 0.) {
                return Err(format!(
                    "{what}: {} channels in quantum {q}, expected {n}",
                    i.len()
                ));
            }
            for o in out.iter_mut() {
                o.extend([0.; 128]);
            }
        } else {
            for (o, c) in out.iter_mut().zip(i) {
                o.extend_from_slice(c);
            }
        }
    }
    Ok(out)
}
