//! A test bench for single nodes: generated input signals and parameter automation whose effective
//! values are recorded next to the node under test, so that its model can be fed with them.
#![allow(dead_code)]
use crate::capture::*;
use crate::util::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::{Arc, Mutex};
use web_audio_api::context::*;
use web_audio_api::node::*;
use web_audio_api::worklet::*;
use web_audio_api::{AudioParam, AudioParamDescriptor, AutomationRate};

/// A signal that starts at a frame
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct Part {
    pub sig: Sig,
    pub at: usize,
}

/// What is connected to the input of the node under test
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct Input {
    pub parts: Vec<Part>,
}

/// Inputs of one to three signals (of `chs` channels) that start and end at various frames
pub fn input(chs: fn() -> BoxedStrategy<usize>, quanta: usize) -> BoxedStrategy<Input> {
    let n = quanta * RQ;
    let part = move || {
        (
            sig(chs(), 1..=n),
            prop_oneof![2 => Just(0usize), 1 => (0..quanta).prop_map(|q| q * RQ), 2 => 0..n],
        )
            .prop_map(|(sig, at)| Part { sig, at })
    };
    prop_oneof![
        4 => proptest::collection::vec(part(), 1..=1),
        2 => proptest::collection::vec(part(), 2..=3),
    ]
    .prop_map(|parts| Input { parts })
    .boxed()
}

impl Input {
    pub fn sources<C: BaseAudioContext>(&self, ctx: &C) -> Vec<AudioBufferSourceNode> {
        self.parts
            .iter()
            .map(|p| play(ctx, p.sig.buffer(ctx.sample_rate()), p.at))
            .collect()
    }
}

/// Play `input` into `node` and record what a node with the same channel options receives
pub fn feed<C: BaseAudioContext>(
    ctx: &C,
    input: &Input,
    node: &dyn AudioNode,
    opts: AudioNodeOptions,
) -> (Vec<AudioBufferSourceNode>, AudioWorkletNode, Log) {
    let (cap, log) = capture(ctx, 1, opts);
    let sources = input.sources(ctx);
    for s in &sources {
        s.connect(node);
        s.connect(&cap);
    }
    (sources, cap, log)
}

/// Per quantum: [channel][sample]
pub fn blocks(log: &Log) -> Vec<Vec<Vec<f32>>> {
    concat(log, 0)
}

pub fn zero(b: &[Vec<f32>]) -> bool {
    b.iter().flatten().all(|v| *v == 0.)
}

/// Compare recorded with expected blocks. Blocks of zeros may have any number of channels.
pub fn compare_blocks(
    what: &str,
    got: &[Vec<Vec<f32>>],
    expect: &[Vec<Vec<f64>>],
    abs: f64,
    rel: f64,
) -> Result<u64, String> {
    if got.len() != expect.len() {
        return Err(format!(
            "{what}: {} quanta, expected {}",
            got.len(),
            expect.len()
        ));
    }
    let mut n = 0;
    for (q, (g, e)) in got.iter().zip(expect).enumerate() {
        if zero(g) {
            let z = vec![vec![0f32; RQ]; e.len()];
            n += compare(
                &format!("{what}, quantum {q} (output is zero)"),
                &z,
                e,
                abs,
                rel,
            )?;
        } else if e.iter().flatten().all(|v| *v == 0.) {
            let z = vec![vec![0f64; RQ]; g.len()];
            n += compare(&format!("{what}, quantum {q}"), g, &z, abs, rel)?;
        } else {
            n += compare(&format!("{what}, quantum {q}"), g, e, abs, rel)?;
        }
    }
    Ok(n)
}

/// One automation event; times are in frames
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum Ev {
    Set(f64, f32),
    Lin(f64, f32),
    Exp(f64, f32),
    Target(f64, f32, f64),
    Curve(f64, Vec<f32>, f64),
}

/// What is done to a parameter
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct Auto {
    pub base: f32,
    pub k_rate: bool,
    pub events: Vec<Ev>,
    /// something connected to it
    pub modulation: Option<Part>,
}

impl Auto {
    pub fn constant(base: f32) -> Self {
        Self {
            base,
            k_rate: false,
            events: vec![],
            modulation: None,
        }
    }
    pub fn is_constant(&self) -> bool {
        self.events.is_empty() && self.modulation.is_none()
    }
    /// Apply to a parameter; keep the returned nodes
    pub fn apply<C: BaseAudioContext>(
        &self,
        ctx: &C,
        p: &AudioParam,
    ) -> Vec<AudioBufferSourceNode> {
        let sr = ctx.sample_rate() as f64;
        let rate = if self.k_rate {
            AutomationRate::K
        } else {
            AutomationRate::A
        };
        if p.automation_rate() != rate {
            p.set_automation_rate(rate);
        }
        p.set_value(self.base);
        for e in &self.events {
            match e {
                Ev::Set(t, v) => p.set_value_at_time(*v, t / sr),
                Ev::Lin(t, v) => p.linear_ramp_to_value_at_time(*v, t / sr),
                Ev::Exp(t, v) => p.exponential_ramp_to_value_at_time(*v, t / sr),
                Ev::Target(t, v, c) => p.set_target_at_time(*v, t / sr, c / sr),
                Ev::Curve(t, v, d) => p.set_value_curve_at_time(v, t / sr, d / sr),
            };
        }
        self.modulation
            .iter()
            .map(|m| {
                let s = play(ctx, m.sig.buffer(ctx.sample_rate()), m.at);
                s.connect(p);
                s
            })
            .collect()
    }
}

/// Events in time order with values from `value`, in `frames` frames. With `exp`, exponential
/// ramps are included (then all values must be positive).
pub fn events(
    value: fn() -> BoxedStrategy<f32>,
    frames: usize,
    exp: bool,
) -> BoxedStrategy<Vec<Ev>> {
    let f = frames as f64;
    let time = move || prop_oneof![1 => 0. ..f, 1 => (0..frames).prop_map(|t| t as f64)];
    let kinds = if exp { 4usize } else { 3 };
    proptest::collection::vec((time(), value(), 0..kinds, 1f64..300.), 0..4)
        .prop_map(|mut v| {
            v.sort_by(|a, b| a.0.total_cmp(&b.0));
            v.into_iter()
                .map(|(t, v, k, c)| match k {
                    0 => Ev::Set(t, v),
                    1 => Ev::Lin(t, v),
                    2 => Ev::Target(t, v, c),
                    _ => Ev::Exp(t, v),
                })
                .collect()
        })
        .boxed()
}

/// Constant, automated and modulated parameters with base values from `value`
pub fn auto(
    value: fn() -> BoxedStrategy<f32>,
    depth: std::ops::Range<f32>,
    frames: usize,
    exp: bool,
    k_rate: bool,
) -> BoxedStrategy<Auto> {
    let m = (sig(1usize..=2, 1..=frames), 0..frames, depth).prop_map(|(mut sig, at, d)| {
        sig.amp *= d;
        Part { sig, at }
    });
    let k = if k_rate {
        any::<bool>().boxed()
    } else {
        Just(false).boxed()
    };
    prop_oneof![
        2 => value().prop_map(Auto::constant),
        2 => (value(), events(value, frames, exp), k.clone())
            .prop_map(|(base, events, k_rate)| Auto { base, k_rate, events, modulation: None }),
        2 => (value(), m, k)
            .prop_map(|(base, m, k_rate)| Auto { base, k_rate, events: vec![], modulation: Some(m) }),
    ]
    .boxed()
}

/// Values a parameter had, per quantum
pub type Values = Arc<Mutex<Vec<Vec<f32>>>>;

struct ProbeProcessor {
    log: Values,
}

impl AudioWorkletProcessor for ProbeProcessor {
    type ProcessorOptions = Values;
    fn constructor(log: Values) -> Self {
        Self { log }
    }
    fn parameter_descriptors() -> Vec<AudioParamDescriptor> {
        vec![AudioParamDescriptor {
            name: "p".into(),
            automation_rate: AutomationRate::A,
            default_value: 0.,
            min_value: f32::MIN,
            max_value: f32::MAX,
        }]
    }
    fn process<'a, 'b>(
        &mut self,
        _inputs: &'b [&'a [&'a [f32]]],
        _outputs: &'b mut [&'a mut [&'a mut [f32]]],
        params: AudioParamValues<'b>,
        _scope: &'b AudioWorkletGlobalScope,
    ) -> bool {
        let v = params.get("p");
        let v = if v.len() == 1 {
            vec![v[0]; RQ]
        } else {
            v.to_vec()
        };
        self.log.lock().unwrap().push(v);
        true
    }
}

/// Records the (unlimited) values of an automation
pub struct Probe {
    node: AudioWorkletNode,
    keep: Vec<AudioBufferSourceNode>,
    log: Values,
}

impl Probe {
    pub fn new<C: BaseAudioContext>(ctx: &C, auto: &Auto) -> Self {
        let mut probe = Self::bare(ctx, false);
        probe.keep = auto.apply(ctx, probe.param());
        probe
    }
    /// a parameter left at its default of zero
    pub fn bare<C: BaseAudioContext>(ctx: &C, k_rate: bool) -> Self {
        let log = Values::default();
        let node = AudioWorkletNode::new::<ProbeProcessor>(
            ctx,
            AudioWorkletNodeOptions {
                number_of_inputs: 1,
                number_of_outputs: 0,
                output_channel_count: vec![],
                parameter_data: Default::default(),
                processor_options: log.clone(),
                audio_node_options: AudioNodeOptions::default(),
            },
        );
        let probe = Self {
            node,
            keep: vec![],
            log,
        };
        if k_rate {
            probe.param().set_automation_rate(AutomationRate::K);
        }
        probe
    }
    pub fn param(&self) -> &AudioParam {
        self.node.parameters().get("p").unwrap()
    }
    /// values per quantum, limited to a range
    pub fn values(&self, min: f32, max: f32) -> Vec<Vec<f32>> {
        self.log
            .lock()
            .unwrap()
            .iter()
            .map(|q| q.iter().map(|v| v.max(min).min(max)).collect())
            .collect()
    }
}

/// Automate a parameter of the node under test and record its values
pub struct Driven {
    pub probe: Probe,
    keep: Vec<AudioBufferSourceNode>,
    range: (f32, f32),
}

impl Driven {
    pub fn new<C: BaseAudioContext>(ctx: &C, auto: &Auto, param: &AudioParam) -> Self {
        let keep = auto.apply(ctx, param);
        Self {
            probe: Probe::new(ctx, auto),
            keep,
            range: (param.min_value(), param.max_value()),
        }
    }
    pub fn values(&self) -> Vec<Vec<f32>> {
        self.probe.values(self.range.0, self.range.1)
    }
}

/// Automation with all values scaled
pub fn scaled(a: &Auto, k: f32) -> Auto {
    let mut a = a.clone();
    a.base *= k;
    for e in a.events.iter_mut() {
        match e {
            Ev::Set(_, v) | Ev::Lin(_, v) | Ev::Exp(_, v) | Ev::Target(_, v, _) => *v *= k,
            Ev::Curve(_, v, _) => v.iter_mut().for_each(|v| *v *= k),
        }
    }
    if let Some(m) = &mut a.modulation {
        m.sig.amp *= k;
    }
    a
}

/// Parts of the same number of channels, or of different ones
pub fn input_layouts(quanta: usize) -> BoxedStrategy<Input> {
    (
        input(
            || prop_oneof![3 => 1usize..=2, 1 => 3usize..=8].boxed(),
            quanta,
        ),
        prop::bool::weighted(0.6),
    )
        .prop_map(|(mut i, same)| {
            let n = i.parts[0].sig.channels;
            if same {
                i.parts.iter_mut().for_each(|p| p.sig.channels = n);
            }
            i
        })
        .boxed()
}

impl Input {
    /// Number of channels that every part has
    pub fn common_channels(&self) -> usize {
        self.parts.iter().map(|p| p.sig.channels).min().unwrap()
    }
    pub fn uniform(&self) -> bool {
        let n = self.parts[0].sig.channels;
        self.parts.iter().all(|p| p.sig.channels == n)
    }
}
