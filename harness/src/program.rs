//! Generated programs: nodes of all kinds that are created, connected, automated, started, stopped
//! and dropped before and while an offline context renders. Used for properties that compare
//! several executions of the same program.
#![allow(dead_code)]
use crate::util::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::{Arc, Mutex};
use web_audio_api::context::*;
use web_audio_api::node::*;
use web_audio_api::worklet::*;
use web_audio_api::{
    AudioParam, AudioParamDescriptor, AutomationRate, PeriodicWave, PeriodicWaveOptions,
};

/// A node; numbers without a unit are fractions that are mapped to the range of the parameter
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Spec {
    Constant(f32),
    /// type (the last is a custom wave), frequency, detune
    Osc(u8, f32, f32),
    /// samples, relative sample rate, playback rate, detune, loop
    Player(Sig, f32, f32, f32, Option<(f64, f64)>),
    Gain(f32),
    /// maximum in frames, delay
    Delay(usize, f32),
    /// type, frequency, Q, gain, detune
    Biquad(u8, [f32; 4]),
    Iir(Vec<f64>, Vec<f64>),
    Convolver(Sig, bool),
    Compressor([f32; 5]),
    /// HRTF, distance model, position and orientation, cone
    Panner(bool, u8, [f32; 6], bool),
    StereoPan(f32),
    Shaper(Vec<f32>, u8),
    Split(usize),
    Merge(usize),
    Analyser,
    /// custom processor: seed, the call that fails (0 is the constructor), kind of failure, factor
    Custom(u16, usize, u8, f32),
}

impl Spec {
    pub fn is_source(&self) -> bool {
        matches!(self, Spec::Constant(_) | Spec::Osc(..) | Spec::Player(..))
    }
    pub fn outputs(&self) -> usize {
        match self {
            Spec::Split(n) => *n,
            _ => 1,
        }
    }
    pub fn inputs(&self) -> usize {
        match self {
            s if s.is_source() => 0,
            Spec::Merge(n) => *n,
            _ => 1,
        }
    }
    /// Wide ranges of the parameters that do not amplify beyond what can be represented
    pub fn wide(&self, sr: f32) -> Vec<(f32, f32)> {
        let top = sr / 2.;
        match self {
            Spec::Constant(_) => vec![(-100., 100.)],
            Spec::Osc(..) => vec![(-top, top), (-153600., 153600.)],
            Spec::Player(..) => vec![(-1e9, 1e9), (-153600., 153600.)],
            Spec::Gain(_) | Spec::Custom(..) => vec![(-100., 100.)],
            Spec::Delay(max, _) => vec![(0., *max as f32 / sr)],
            Spec::Biquad(k, _) if (2..6).contains(&(k % 8)) => {
                vec![(0., top), (1e-4, 1000.), (-80., 80.), (-153600., 153600.)]
            }
            Spec::Biquad(..) => vec![(0., top), (-60., 60.), (-80., 80.), (-153600., 153600.)],
            Spec::Compressor(_) => vec![(0., 1.), (0., 40.), (1., 20.), (0., 1.), (-100., 0.)],
            Spec::Panner(..) => vec![(-1e6, 1e6); 6],
            Spec::StereoPan(_) => vec![(-1., 1.)],
            _ => vec![],
        }
    }
    /// Moderate ranges of the parameters
    pub fn ranges(&self, sr: f32) -> Vec<(f32, f32)> {
        let top = sr * 0.4;
        match self {
            Spec::Constant(_) => vec![(-1., 1.)],
            Spec::Osc(..) => vec![(20., top), (-1200., 1200.)],
            Spec::Player(..) => vec![(0.25, 2.), (-600., 600.)],
            Spec::Gain(_) | Spec::Custom(..) => vec![(-1.5, 1.5)],
            Spec::Delay(max, _) => vec![(0., *max as f32 / sr)],
            Spec::Biquad(..) => vec![(50., top), (-5., 10.), (-10., 10.), (-600., 600.)],
            Spec::Compressor(_) => vec![(0., 0.3), (0., 40.), (1., 20.), (0.01, 1.), (-60., 0.)],
            Spec::Panner(..) => vec![(-3., 3.); 6],
            Spec::StereoPan(_) => vec![(-1., 1.)],
            _ => vec![],
        }
    }
}

/// Value at a fraction of a range; with `wild` most values are near the middle
pub fn value(range: (f32, f32), u: f32, wild: bool) -> f32 {
    if wild {
        let x = 2. * u - 1.;
        lerp(range, 0.5 + 0.5 * x.abs().powi(7) * x.signum())
    } else {
        lerp(range, u)
    }
}

pub fn lerp(r: (f32, f32), u: f32) -> f32 {
    r.0 + (r.1 - r.0) * u
}

/// Automation with a value that is a fraction of the range
#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
pub enum Ramp {
    Now,
    Set,
    Lin,
    Exp,
    /// time constant in frames
    Target(f64),
    Cancel,
    Hold,
}

/// Things done to a program. Nodes are numbered in the order of creation, all numbers are taken
/// modulo what exists. Times are in frames after the moment the operation is executed.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Op {
    Create(Spec),
    /// source, time
    Start(u16, f64),
    Stop(u16, f64),
    /// from, output, to, input
    Connect(u16, u16, u16, u16),
    /// from, output, to, parameter
    Modulate(u16, u16, u16, u16),
    Disconnect(u16),
    Automate(u16, u16, Ramp, f64, f32),
    /// node, attribute, value
    Attr(u16, u8, f32),
    Drop(u16),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Program {
    pub sr: f32,
    /// channels of the destination
    pub channels: usize,
    pub quanta: usize,
    /// channel count and interpretation of all nodes, or the default modes
    pub explicit: Option<(usize, bool)>,
    /// extreme parameter values
    pub wild: bool,
    /// connections may lead to earlier delay nodes
    pub loops: bool,
    /// quantum, operation; in order
    pub ops: Vec<(usize, Op)>,
}

pub enum Node {
    Constant(ConstantSourceNode),
    Osc(OscillatorNode),
    Player(AudioBufferSourceNode),
    Gain(GainNode),
    Delay(DelayNode),
    Biquad(BiquadFilterNode),
    Iir(IIRFilterNode),
    Convolver(ConvolverNode),
    Compressor(DynamicsCompressorNode),
    Panner(PannerNode),
    StereoPan(StereoPannerNode),
    Shaper(WaveShaperNode),
    Split(ChannelSplitterNode),
    Merge(ChannelMergerNode),
    Analyser(AnalyserNode),
    Custom(AudioWorkletNode),
}

impl Node {
    pub fn audio(&self) -> &dyn AudioNode {
        match self {
            Node::Constant(n) => n,
            Node::Osc(n) => n,
            Node::Player(n) => n,
            Node::Gain(n) => n,
            Node::Delay(n) => n,
            Node::Biquad(n) => n,
            Node::Iir(n) => n,
            Node::Convolver(n) => n,
            Node::Compressor(n) => n,
            Node::Panner(n) => n,
            Node::StereoPan(n) => n,
            Node::Shaper(n) => n,
            Node::Split(n) => n,
            Node::Merge(n) => n,
            Node::Analyser(n) => n,
            Node::Custom(n) => n,
        }
    }
    pub fn params(&self) -> Vec<&AudioParam> {
        match self {
            Node::Constant(n) => vec![n.offset()],
            Node::Osc(n) => vec![n.frequency(), n.detune()],
            Node::Player(n) => vec![n.playback_rate(), n.detune()],
            Node::Gain(n) => vec![n.gain()],
            Node::Delay(n) => vec![n.delay_time()],
            Node::Biquad(n) => vec![n.frequency(), n.q(), n.gain(), n.detune()],
            Node::Compressor(n) => {
                vec![n.attack(), n.knee(), n.ratio(), n.release(), n.threshold()]
            }
            Node::Panner(n) => vec![
                n.position_x(),
                n.position_y(),
                n.position_z(),
                n.orientation_x(),
                n.orientation_y(),
                n.orientation_z(),
            ],
            Node::StereoPan(n) => vec![n.pan()],
            Node::Custom(n) => vec![&n.parameters()["factor"]],
            _ => vec![],
        }
    }
    /// Change some attribute; with `explicit`, the channel count mode is kept
    pub fn attribute(&mut self, k: u8, u: f32, explicit: bool) {
        let pick = |n: usize| ((u * n as f32) as usize).min(n - 1);
        match (self, k % 4) {
            (Node::Split(_) | Node::Merge(_), _) => (),
            (h, 0) => {
                let n = h.audio();
                n.set_channel_count(1 + pick(2));
            }
            (h, 1) if !explicit => {
                let n = h.audio();
                let mode = match (pick(3), &*h) {
                    (0, Node::Panner(_) | Node::StereoPan(_) | Node::Compressor(_)) => 1,
                    (0, Node::Convolver(_)) => 1,
                    (m, _) => m,
                };
                n.set_channel_count_mode(
                    [
                        ChannelCountMode::Max,
                        ChannelCountMode::ClampedMax,
                        ChannelCountMode::Explicit,
                    ][mode],
                );
            }
            (Node::Osc(n), _) => n.set_type(
                [
                    OscillatorType::Sine,
                    OscillatorType::Square,
                    OscillatorType::Sawtooth,
                    OscillatorType::Triangle,
                ][pick(4)],
            ),
            (Node::Player(n), 1) => n.set_loop(u < 0.5),
            (Node::Player(n), 2) => n.set_loop_start(u as f64 * 0.01),
            (Node::Player(n), _) => n.set_loop_end(u as f64 * 0.02),
            (Node::Biquad(n), _) => n.set_type(
                [
                    BiquadFilterType::Lowpass,
                    BiquadFilterType::Highpass,
                    BiquadFilterType::Lowshelf,
                    BiquadFilterType::Highshelf,
                ][pick(4)],
            ),
            (Node::Panner(n), 1) => n.set_distance_model(
                [
                    DistanceModelType::Linear,
                    DistanceModelType::Inverse,
                    DistanceModelType::Exponential,
                ][pick(3)],
            ),
            (Node::Panner(n), 2) => n.set_cone_outer_gain(u as f64),
            (Node::Panner(n), _) => n.set_rolloff_factor(u as f64),
            (Node::Shaper(n), _) => n.set_oversample(
                [OverSampleType::None, OverSampleType::X2, OverSampleType::X4][pick(3)],
            ),
            (Node::Analyser(n), _) => n.set_fft_size(32 << pick(8)),
            _ => (),
        }
    }
    pub fn start(&mut self, t: f64) {
        match self {
            Node::Constant(n) => n.start_at(t),
            Node::Osc(n) => n.start_at(t),
            Node::Player(n) => n.start_at(t),
            _ => (),
        }
    }
    pub fn stop(&mut self, t: f64) {
        match self {
            Node::Constant(n) => n.stop_at(t),
            Node::Osc(n) => n.stop_at(t),
            Node::Player(n) => n.stop_at(t),
            _ => (),
        }
    }
}

pub fn build<C: BaseAudioContext>(
    ctx: &C,
    spec: &Spec,
    explicit: Option<(usize, bool)>,
    wild: bool,
    run: &Run,
) -> Node {
    let sr = ctx.sample_rate();
    let r = if wild { spec.wide(sr) } else { spec.ranges(sr) };
    let at = |i: usize, u: f32| value(r[i], u, wild);
    let mut clamped = AudioNodeOptions {
        channel_count: 2,
        channel_count_mode: ChannelCountMode::ClampedMax,
        channel_interpretation: ChannelInterpretation::Speakers,
    };
    let mut opts = AudioNodeOptions::default();
    if let Some((n, speakers)) = explicit {
        opts = node_opts(n, Mode::Explicit, speakers);
        clamped = node_opts(n.min(2), Mode::Explicit, speakers);
    }
    match spec {
        Spec::Constant(v) => Node::Constant(ConstantSourceNode::new(
            ctx,
            ConstantSourceOptions { offset: at(0, *v) },
        )),
        Spec::Osc(kind, f, d) => {
            let type_ = [
                OscillatorType::Sine,
                OscillatorType::Square,
                OscillatorType::Sawtooth,
                OscillatorType::Triangle,
                OscillatorType::Custom,
            ][*kind as usize % 5];
            let periodic_wave = (type_ == OscillatorType::Custom).then(|| {
                PeriodicWave::new(
                    ctx,
                    PeriodicWaveOptions {
                        real: Some(vec![0., 0.5, 0.25]),
                        imag: Some(vec![0., 0.3, -0.6]),
                        disable_normalization: false,
                    },
                )
            });
            Node::Osc(OscillatorNode::new(
                ctx,
                OscillatorOptions {
                    type_,
                    frequency: at(0, *f),
                    detune: at(1, *d),
                    periodic_wave,
                    ..Default::default()
                },
            ))
        }
        Spec::Player(sig, rate, p, d, l) => {
            let bsr = (sr * rate).round().clamp(3000., 768000.);
            let n = AudioBufferSourceNode::new(
                ctx,
                AudioBufferSourceOptions {
                    buffer: Some(sig.buffer(bsr)),
                    playback_rate: at(0, *p),
                    detune: at(1, *d),
                    loop_: l.is_some(),
                    loop_start: l.map_or(0., |l| l.0 * sig.len as f64 / bsr as f64),
                    loop_end: l.map_or(0., |l| l.1 * sig.len as f64 / bsr as f64),
                    ..Default::default()
                },
            );
            Node::Player(n)
        }
        Spec::Gain(v) => Node::Gain(GainNode::new(
            ctx,
            GainOptions {
                gain: at(0, *v),
                audio_node_options: opts,
            },
        )),
        Spec::Delay(max, v) => Node::Delay(DelayNode::new(
            ctx,
            DelayOptions {
                max_delay_time: (*max).max(1) as f64 / sr as f64,
                delay_time: at(0, *v) as f64,
                audio_node_options: opts,
            },
        )),
        Spec::Biquad(kind, v) => Node::Biquad(BiquadFilterNode::new(
            ctx,
            BiquadFilterOptions {
                type_: [
                    BiquadFilterType::Lowpass,
                    BiquadFilterType::Highpass,
                    BiquadFilterType::Bandpass,
                    BiquadFilterType::Notch,
                    BiquadFilterType::Allpass,
                    BiquadFilterType::Peaking,
                    BiquadFilterType::Lowshelf,
                    BiquadFilterType::Highshelf,
                ][*kind as usize % 8],
                frequency: at(0, v[0]),
                q: match kind % 8 {
                    // quality factors of resonances are positive
                    2..=5 if !wild => lerp((0.1, 10.), v[1]),
                    _ => at(1, v[1]),
                },
                gain: at(2, v[2]),
                detune: at(3, v[3]),
                audio_node_options: opts,
            },
        )),
        Spec::Iir(ff, fb) => Node::Iir(IIRFilterNode::new(
            ctx,
            IIRFilterOptions {
                feedforward: ff.clone(),
                feedback: fb.clone(),
                audio_node_options: opts,
            },
        )),
        Spec::Convolver(sig, normalize) => Node::Convolver(ConvolverNode::new(
            ctx,
            ConvolverOptions {
                buffer: Some(sig.buffer(sr)),
                disable_normalization: !normalize,
                audio_node_options: clamped,
            },
        )),
        Spec::Compressor(v) => Node::Compressor(DynamicsCompressorNode::new(
            ctx,
            DynamicsCompressorOptions {
                attack: at(0, v[0]),
                knee: at(1, v[1]),
                ratio: at(2, v[2]),
                release: at(3, v[3]),
                threshold: at(4, v[4]),
                audio_node_options: clamped,
            },
        )),
        Spec::Panner(hrtf, model, v, cone) => Node::Panner(PannerNode::new(
            ctx,
            PannerOptions {
                panning_model: if *hrtf {
                    PanningModelType::HRTF
                } else {
                    PanningModelType::EqualPower
                },
                distance_model: [
                    DistanceModelType::Linear,
                    DistanceModelType::Inverse,
                    DistanceModelType::Exponential,
                ][*model as usize % 3],
                position_x: at(0, v[0]),
                position_y: at(1, v[1]),
                position_z: at(2, v[2]),
                orientation_x: at(3, v[3]),
                orientation_y: at(4, v[4]),
                orientation_z: at(5, v[5]),
                cone_inner_angle: if *cone { 60. } else { 360. },
                cone_outer_angle: if *cone { 200. } else { 360. },
                cone_outer_gain: 0.3,
                audio_node_options: clamped,
                ..Default::default()
            },
        )),
        Spec::StereoPan(v) => Node::StereoPan(StereoPannerNode::new(
            ctx,
            StereoPannerOptions {
                pan: at(0, *v),
                audio_node_options: clamped,
            },
        )),
        Spec::Shaper(curve, over) => Node::Shaper(WaveShaperNode::new(
            ctx,
            WaveShaperOptions {
                curve: Some(curve.clone()),
                oversample: [OverSampleType::None, OverSampleType::X2, OverSampleType::X4]
                    [*over as usize % 3],
                audio_node_options: opts,
            },
        )),
        Spec::Split(n) => Node::Split(ChannelSplitterNode::new(
            ctx,
            ChannelSplitterOptions {
                number_of_outputs: *n,
                ..Default::default()
            },
        )),
        Spec::Merge(n) => Node::Merge(ChannelMergerNode::new(
            ctx,
            ChannelMergerOptions {
                number_of_inputs: *n,
                ..Default::default()
            },
        )),
        Spec::Analyser => Node::Analyser(AnalyserNode::new(
            ctx,
            AnalyserOptions {
                audio_node_options: opts,
                ..Default::default()
            },
        )),
        Spec::Custom(seed, fails, kind, factor) => {
            let index = {
                let mut diary = run.diary.lock().unwrap();
                diary.calls.push(0);
                diary.errors.push(vec![]);
                diary.calls.len() - 1
            };
            let n = AudioWorkletNode::new::<Custom>(
                ctx,
                AudioWorkletNodeOptions {
                    number_of_inputs: 1,
                    number_of_outputs: 1,
                    output_channel_count: vec![],
                    parameter_data: [("factor".to_string(), at(0, *factor) as f64)].into(),
                    processor_options: Custom {
                        index,
                        seed: *seed,
                        fails: *fails,
                        kind: *kind,
                        mute: run.mute,
                        diary: run.diary.clone(),
                    },
                    audio_node_options: opts,
                },
            );
            let diary = run.diary.clone();
            n.set_onprocessorerror(Box::new(move |e| {
                diary.lock().unwrap().errors[index].push(e.message)
            }));
            Node::Custom(n)
        }
    }
}

/// What happened to the custom processors, in order of creation
#[derive(Debug, Default)]
pub struct CustomDiary {
    pub calls: Vec<usize>,
    pub errors: Vec<Vec<String>>,
}

struct Custom {
    index: usize,
    seed: u16,
    fails: usize,
    kind: u8,
    mute: bool,
    diary: Arc<Mutex<CustomDiary>>,
}

pub fn failure(seed: u16) -> String {
    format!("planned failure {seed}")
}

impl Custom {
    fn fail(&self) {
        match self.kind % 3 {
            0 => panic!("{}", failure(self.seed)),
            1 => std::panic::panic_any("planned failure"),
            _ => std::panic::panic_any(self.seed),
        }
    }
}

impl AudioWorkletProcessor for Custom {
    type ProcessorOptions = Custom;
    fn constructor(c: Custom) -> Self {
        if c.fails == 0 && !c.mute {
            c.diary.lock().unwrap().calls[c.index] += 1;
            c.fail();
        }
        c
    }
    fn parameter_descriptors() -> Vec<AudioParamDescriptor> {
        vec![AudioParamDescriptor {
            name: "factor".into(),
            automation_rate: AutomationRate::A,
            default_value: 1.,
            min_value: f32::MIN,
            max_value: f32::MAX,
        }]
    }
    fn process<'a, 'b>(
        &mut self,
        inputs: &'b [&'a [&'a [f32]]],
        outputs: &'b mut [&'a mut [&'a mut [f32]]],
        params: AudioParamValues<'b>,
        _scope: &'b AudioWorkletGlobalScope,
    ) -> bool {
        let call = {
            let calls = &mut self.diary.lock().unwrap().calls[self.index];
            *calls += 1;
            *calls
        };
        let failed = call >= self.fails;
        let factor = params.get("factor");
        // sounds without input
        let source = self.seed % 3 > 0;
        for (c, out) in outputs[0].iter_mut().enumerate() {
            let half = out.len() / 2;
            for (i, v) in out.iter_mut().enumerate() {
                let n = noise(self.seed as u32, c, call * RQ + i);
                *v = factor[if factor.len() == 1 { 0 } else { i }] * inputs[0][c][i];
                if source {
                    *v += 0.1 * n;
                }
                if failed && self.mute {
                    *v = 0.;
                }
                // the failure may happen after something has been written
                if failed && !self.mute && (self.seed % 2 == 0 || i == half) {
                    self.fail();
                }
            }
        }
        source
    }
}

/// How a program is executed
#[derive(Debug, Clone, Default)]
pub struct Run {
    /// keep the handles that are dropped
    pub keep: bool,
    /// execute everything later
    pub shift: usize,
    /// render fewer quanta and frames
    pub frames: Option<usize>,
    /// use the asynchronous calls
    pub async_: bool,
    /// suspend at these times (in frames), too; scheduled in this order
    pub pauses: Vec<f64>,
    /// custom processors are silent instead of failing
    pub mute: bool,
    pub diary: Arc<Mutex<CustomDiary>>,
}

#[derive(Default)]
pub struct State {
    nodes: Vec<(Spec, Option<Node>, bool)>,
    grave: Vec<Node>,
    /// times at which suspensions ran, and whether the state was as expected
    seen: Vec<(usize, f64, AudioContextState)>,
    audible: bool,
}

impl State {
    pub fn exec<C: BaseAudioContext>(
        &mut self,
        p: &Program,
        run: &Run,
        ctx: &C,
        q: usize,
        op: &Op,
    ) {
        let sr = p.sr as f64;
        let now = ((q + run.shift) * RQ) as f64;
        let total = self.nodes.len();
        match op {
            Op::Create(spec) => {
                let node = build(ctx, spec, p.explicit, p.wild, run);
                self.nodes.push((spec.clone(), Some(node), false));
                return;
            }
            _ if total == 0 => return,
            _ => (),
        }
        let pick = |i: &u16| *i as usize % total;
        match op {
            Op::Create(_) => (),
            Op::Start(n, t) | Op::Stop(n, t) => {
                // the next source that can be started or stopped
                let sources: Vec<usize> = (0..total)
                    .filter(|i| {
                        let (s, h, started) = &self.nodes[*i];
                        s.is_source() && h.is_some() && *started == matches!(op, Op::Stop(..))
                    })
                    .collect();
                if sources.is_empty() {
                    return;
                }
                let i = sources[*n as usize % sources.len()];
                let (_, h, started) = &mut self.nodes[i];
                let src = h.as_mut().unwrap();
                let t = (now + t) / sr;
                if *started {
                    src.stop(t);
                } else {
                    src.start(t);
                    *started = true;
                }
            }
            Op::Connect(from, out, to, input) => {
                let i = pick(from);
                // forwards, to the destination, or backwards to a delay
                let usable = |j: &usize| {
                    let (s, h, _) = &self.nodes[*j];
                    h.is_some()
                        && s.inputs() > 0
                        && (*j > i || (p.loops && matches!(s, Spec::Delay(..))))
                };
                let mut targets: Vec<Option<usize>> =
                    (i + 1..total).filter(usable).map(Some).collect();
                targets.push(None);
                targets.extend((0..=i).filter(usable).map(Some));
                let (spec, h, _) = &self.nodes[i];
                let Some(h) = h else { return };
                let out = *out as usize % spec.outputs();
                match targets[*to as usize % targets.len()] {
                    None => {
                        h.audio()
                            .connect_from_output_to_input(&ctx.destination(), out, 0);
                    }
                    Some(j) => {
                        let (s, t, _) = &self.nodes[j];
                        h.audio().connect_from_output_to_input(
                            t.as_ref().unwrap().audio(),
                            out,
                            *input as usize % s.inputs(),
                        );
                    }
                }
            }
            Op::Modulate(from, out, to, param) => {
                let i = pick(from);
                let targets: Vec<usize> = (i + 1..total)
                    .filter(|j| {
                        let (s, h, _) = &self.nodes[*j];
                        h.is_some() && !s.ranges(p.sr).is_empty()
                    })
                    .collect();
                let (spec, h, _) = &self.nodes[i];
                let (Some(h), false) = (h, targets.is_empty()) else {
                    return;
                };
                let t = self.nodes[targets[*to as usize % targets.len()]]
                    .1
                    .as_ref()
                    .unwrap();
                let params = t.params();
                h.audio().connect_from_output_to_input(
                    params[*param as usize % params.len()],
                    *out as usize % spec.outputs(),
                    0,
                );
            }
            Op::Disconnect(n) => {
                if let Some(h) = &self.nodes[pick(n)].1 {
                    h.audio().disconnect();
                }
            }
            Op::Automate(n, param, ramp, t, u) => {
                let (spec, h, _) = &self.nodes[pick(n)];
                let ranges = spec.ranges(p.sr);
                let (Some(h), false) = (h, ranges.is_empty()) else {
                    return;
                };
                let k = *param as usize % ranges.len();
                let v = if p.wild {
                    value(spec.wide(p.sr)[k], *u, true)
                } else {
                    lerp(ranges[k], *u)
                };
                let target = h.params()[k];
                let t = (now + t) / sr;
                match ramp {
                    Ramp::Now => target.set_value(v),
                    Ramp::Set => target.set_value_at_time(v, t),
                    Ramp::Lin => target.linear_ramp_to_value_at_time(v, t),
                    Ramp::Exp if v > 0. => target.exponential_ramp_to_value_at_time(v, t),
                    Ramp::Exp => target.linear_ramp_to_value_at_time(v, t),
                    Ramp::Target(c) => target.set_target_at_time(v, t, c / sr),
                    Ramp::Cancel => target.cancel_scheduled_values(t),
                    Ramp::Hold => target.cancel_and_hold_at_time(t),
                };
            }
            Op::Attr(n, k, u) => {
                let i = pick(n);
                let explicit = p.explicit.is_some();
                if let Some(h) = self.nodes[i].1.as_mut() {
                    h.attribute(*k, *u, explicit);
                }
            }
            Op::Drop(n) => {
                let h = self.nodes[pick(n)].1.take();
                if run.keep {
                    self.grave.extend(h);
                }
            }
        }
    }
}

pub struct Rendering {
    pub data: Vec<Vec<f32>>,
    pub sr: f32,
    /// quantum, current time and state at every suspension
    pub suspensions: Vec<(usize, f64, AudioContextState)>,
    /// state and time at the end
    pub end: (AudioContextState, f64),
}

/// Time that is rounded up to a quantum
fn at(q: usize, sr: f32) -> f64 {
    if q == 0 {
        0.
    } else {
        (q * RQ - RQ / 2) as f64 / sr as f64
    }
}

pub fn render(p: &Program, run: &Run) -> Rendering {
    let frames = run.frames.unwrap_or((p.quanta + run.shift) * RQ);
    let mut ctx = offline(p.channels, frames, p.sr);
    let state = Arc::new(Mutex::new(State::default()));
    let program = Arc::new(p.clone());
    let run = Arc::new(run.clone());
    // the last quantum has a boundary before the end
    let reachable = |q: usize| (q + run.shift) * RQ < frames;
    for (_, op) in p.ops.iter().filter(|(q, _)| *q == 0 && run.shift == 0) {
        state.lock().unwrap().exec(p, &run, &ctx, 0, op);
    }
    // quantum and time of all suspensions
    let mut stops: Vec<(usize, f64)> = vec![];
    for f in &run.pauses {
        let q = (f / RQ as f64).ceil() as usize;
        if !stops.iter().any(|s| s.0 == q) {
            stops.push((q, f / p.sr as f64));
        }
    }
    for (q, _) in &p.ops {
        if !stops.iter().any(|s| s.0 == *q) && q + run.shift > 0 {
            stops.push((*q, at(q + run.shift, p.sr)));
        }
    }
    stops.retain(|(q, _)| reachable(*q));
    let execute = {
        let (state, program, run) = (state.clone(), program.clone(), run.clone());
        move |ctx: &OfflineAudioContext, q: usize| {
            let mut s = state.lock().unwrap();
            s.seen.push((q, ctx.current_time(), ctx.state()));
            // those of quantum zero have been executed before
            let first = run.shift == 0 && q == 0;
            for (_, op) in program.ops.iter().filter(|(at, _)| *at == q && !first) {
                s.exec(&program, &run, ctx, q, op);
            }
        }
    };
    let buffer = if run.async_ {
        let pauses = stops.iter().map(|(q, t)| {
            let (ctx, execute) = (&ctx, execute.clone());
            let (q, t) = (*q, *t);
            async move {
                ctx.suspend(t).await;
                execute(ctx, q);
                ctx.resume().await;
            }
        });
        let pauses = futures::future::join_all(pauses);
        futures::executor::block_on(async { futures::join!(pauses, ctx.start_rendering()).1 })
    } else {
        for (q, t) in stops {
            let execute = execute.clone();
            ctx.suspend_sync(t, move |ctx| execute(ctx, q));
        }
        ctx.start_rendering_sync()
    };
    let mut s = state.lock().unwrap();
    Rendering {
        data: to_vecs(&buffer),
        sr: buffer.sample_rate(),
        suspensions: std::mem::take(&mut s.seen),
        end: (ctx.state(), ctx.current_time()),
    }
}

// ---------------------------------------------------------------------------------------------
// generation

fn unit() -> BoxedStrategy<f32> {
    prop_oneof![4 => 0f32..1., 1 => Just(0.5f32), 1 => Just(0f32), 1 => Just(1f32)].boxed()
}

#[derive(Clone, Copy, PartialEq)]
pub enum Profile {
    /// everything
    All,
    /// only nodes whose output is linear in the sources
    Linear,
}

pub fn source(profile: Profile, frames: usize) -> BoxedStrategy<Spec> {
    let player = (
        sig(1usize..=2, 1..=frames),
        prop_oneof![3 => Just(1f32), 1 => 0.4f32..2.],
        prop_oneof![2 => Just(3. / 7f32), 1 => unit()],
        prop_oneof![2 => Just(0.5f32), 1 => unit()],
        prop::option::weighted(0.3, (0f64..0.6, 0.6f64..1.)),
    )
        .prop_map(|(s, r, p, d, l)| Spec::Player(s, r, p, d, l));
    if profile == Profile::Linear {
        return player.boxed();
    }
    prop_oneof![
        2 => unit().prop_map(Spec::Constant),
        3 => (0u8..5, unit(), unit()).prop_map(|(k, f, d)| Spec::Osc(k, f * 0.3, d)),
        5 => player,
    ]
    .boxed()
}

/// Stable feedback coefficients from conjugate pairs of poles inside of the unit circle
pub fn iir() -> BoxedStrategy<Spec> {
    (
        prop::collection::vec(-1f64..1., 1..4),
        prop::collection::vec((0f64..0.9, 0f64..3.1), 0..3),
    )
        .prop_map(|(mut ff, poles)| {
            if ff.iter().all(|v| *v == 0.) {
                ff[0] = 1.;
            }
            let mut fb = vec![1f64];
            for (r, a) in poles {
                let f = [1., -2. * r * a.cos(), r * r];
                let mut next = vec![0.; fb.len() + 2];
                for (i, x) in fb.iter().enumerate() {
                    for (j, y) in f.iter().enumerate() {
                        next[i + j] += x * y;
                    }
                }
                fb = next;
            }
            Spec::Iir(ff, fb)
        })
        .boxed()
}

pub fn inner(profile: Profile) -> BoxedStrategy<Spec> {
    let linear = prop_oneof![
        6 => unit().prop_map(Spec::Gain),
        4 => (1usize..700, unit()).prop_map(|(m, v)| Spec::Delay(m, v)),
        4 => (0u8..8, [unit(), unit(), unit(), unit()]).prop_map(|(k, v)| Spec::Biquad(k, v)),
        2 => iir(),
        2 => (sig(1usize..=2, 1..=700), any::<bool>()).prop_map(|(mut s, n)| {
            // of moderate loudness
            s.amp = 0.2;
            Spec::Convolver(s, n)
        }),
        2 => unit().prop_map(Spec::StereoPan),
        2 => (0u8..3, [unit(), unit(), unit(), unit(), unit(), unit()], any::<bool>())
            .prop_map(|(m, v, c)| Spec::Panner(false, m, v, c)),
        1 => (1usize..4).prop_map(Spec::Split),
        1 => (1usize..4).prop_map(Spec::Merge),
        1 => Just(Spec::Analyser),
    ];
    if profile == Profile::Linear {
        return linear.boxed();
    }
    prop_oneof![
        24 => linear,
        2 => [unit(), unit(), unit(), unit(), unit()].prop_map(Spec::Compressor),
        2 => (prop::collection::vec(-1f32..1., 1..6), prop_oneof![2 => Just(0u8), 1 => 1u8..3])
            .prop_map(|(c, o)| Spec::Shaper(c, o)),
    ]
    .boxed()
}

fn delta(frames: usize) -> BoxedStrategy<f64> {
    prop_oneof![
        2 => Just(0f64),
        // exact in binary
        2 => (0..frames * 64).prop_map(|t| t as f64 / 64.),
        2 => (0..frames).prop_map(|t| t as f64),
        1 => (0..frames / RQ + 1).prop_map(|q| (q * RQ) as f64),
    ]
    .boxed()
}

fn ramp() -> BoxedStrategy<Ramp> {
    prop_oneof![
        2 => Just(Ramp::Now),
        3 => Just(Ramp::Set),
        3 => Just(Ramp::Lin),
        2 => Just(Ramp::Exp),
        2 => (1f64..500.).prop_map(Ramp::Target),
        1 => Just(Ramp::Cancel),
        1 => Just(Ramp::Hold),
    ]
    .boxed()
}

pub struct Shape {
    pub profile: Profile,
    pub max_quanta: usize,
    pub drops: bool,
    pub loops: bool,
    pub wild: bool,
    pub sr: fn() -> BoxedStrategy<f32>,
}

/// Programs that start with a few connected nodes and go on with arbitrary operations
pub fn program(shape: Shape) -> BoxedStrategy<Program> {
    let Shape {
        profile,
        max_quanta,
        drops,
        loops,
        wild,
        sr,
    } = shape;
    (4..=max_quanta)
        .prop_flat_map(move |quanta| {
            let frames = quanta * RQ;
            let op = {
                let automate = (any::<u16>(), any::<u16>(), ramp(), delta(frames), unit())
                    .prop_map(|(n, p, r, t, u)| Op::Automate(n, p, r, t, u));
                let connect = (any::<u16>(), any::<u16>(), any::<u16>(), any::<u16>())
                    .prop_map(|(a, b, c, d)| Op::Connect(a, b, c, d));
                let modulate = (any::<u16>(), any::<u16>(), any::<u16>(), any::<u16>())
                    .prop_map(|(a, b, c, d)| Op::Modulate(a, b, c, d));
                let mut v: Vec<(u32, BoxedStrategy<Op>)> = vec![
                    (2, source(profile, frames).prop_map(Op::Create).boxed()),
                    (3, inner(profile).prop_map(Op::Create).boxed()),
                    (
                        3,
                        (any::<u16>(), delta(frames / 2))
                            .prop_map(|(n, t)| Op::Start(n, t))
                            .boxed(),
                    ),
                    (
                        2,
                        (any::<u16>(), delta(frames))
                            .prop_map(|(n, t)| Op::Stop(n, t))
                            .boxed(),
                    ),
                    (7, connect.boxed()),
                    (1, any::<u16>().prop_map(Op::Disconnect).boxed()),
                    (4, automate.boxed()),
                    (
                        2,
                        (any::<u16>(), any::<u8>(), unit())
                            .prop_map(|(n, k, u)| Op::Attr(n, k, u))
                            .boxed(),
                    ),
                ];
                if profile == Profile::All {
                    v.push((2, modulate.boxed()));
                }
                if drops {
                    v.push((5, any::<u16>().prop_map(Op::Drop).boxed()));
                }
                proptest::strategy::Union::new_weighted(v)
            };
            (
                prop::collection::vec(source(profile, frames), 1..3),
                prop::collection::vec(inner(profile), 1..5),
                prop::collection::vec(
                    (any::<u16>(), any::<u16>(), any::<u16>(), any::<u16>()),
                    0..4,
                ),
                prop::collection::vec(delta(frames / 2), 2..=2),
                prop::collection::vec((prop_oneof![2 => Just(0), 3 => 0..quanta], op), 0..14),
                1usize..=2,
                prop::option::weighted(0.7, (1usize..=2, any::<bool>())),
                (sr)(),
                Just(quanta),
            )
        })
        .prop_map(
            move |(sources, rest, extra, starts, mut later, channels, explicit, sr, quanta)| {
                later.sort_by_key(|(q, _)| *q);
                let (s, n) = (sources.len(), sources.len() + rest.len());
                let mut ops: Vec<Op> = sources.into_iter().chain(rest).map(Op::Create).collect();
                for t in starts.into_iter().take(s) {
                    ops.push(Op::Start(0, t));
                }
                // every source feeds the first inner node and each inner node the next one
                for i in 0..s {
                    ops.push(Op::Connect(i as u16, 0, 0, 0));
                }
                for i in s..n {
                    ops.push(Op::Connect(i as u16, 0, 0, 0));
                }
                ops.extend(
                    extra
                        .into_iter()
                        .map(|(a, b, c, d)| Op::Connect(a, b, c, d)),
                );
                let mut ops: Vec<(usize, Op)> = ops.into_iter().map(|o| (0, o)).collect();
                ops.extend(later);
                Program {
                    sr,
                    channels,
                    quanta,
                    explicit,
                    wild,
                    loops,
                    ops,
                }
            },
        )
        .boxed()
}
