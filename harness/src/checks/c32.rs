//! C32: invalid arguments
use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::{Arc, Mutex};
use web_audio_api::context::*;
use web_audio_api::node::*;
use web_audio_api::worklet::*;
use web_audio_api::*;

const SR: f32 = 32768.;
const QUANTA: usize = 6;
const RQ: usize = 128;

/// A number that JSON may not be able to represent
#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
struct Num(u8, f64);

impl Num {
    fn get(self) -> f64 {
        match self.0 {
            0 => self.1,
            1 => f64::NAN,
            2 => f64::INFINITY,
            _ => f64::NEG_INFINITY,
        }
    }
    fn f32(self) -> f32 {
        self.get() as f32
    }
}

/// Numbers around those given
fn num(around: &'static [f64]) -> BoxedStrategy<Num> {
    let edge = prop::sample::select(around);
    prop_oneof![
        4 => edge.clone().prop_map(|x| Num(0, x)),
        2 => (edge.clone(), any::<bool>()).prop_map(|(x, up)| {
            Num(0, if up { x.next_up() } else { x.next_down() })
        }),
        3 => (edge, -1.0..1f64).prop_map(|(x, d)| Num(0, x + d * x.abs().max(0.01))),
        2 => (1u8..4).prop_map(|k| Num(k, 0.)),
    ]
    .boxed()
}

fn time() -> BoxedStrategy<Num> {
    num(&[0., -0., 0., 0.005, 0.01, 0.02, -1e-3, -5., 1e5])
}

fn value() -> BoxedStrategy<Num> {
    num(&[0., 1., -1., 0.5, 100., 440., -1e3, 1e5, 3e38, -1e300])
}

fn count() -> BoxedStrategy<usize> {
    prop_oneof![
        8 => 1usize..=6,
        3 => prop::sample::select(vec![0, 31, 32, 33, 64, 1000, usize::MAX]),
    ]
    .boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum ParamCall {
    Value(Num),
    At(Num, Num),
    Linear(Num, Num),
    Exponential(Num, Num),
    Target(Num, Num, Num),
    Cancel(Num),
    Hold(Num),
    Curve(usize, Num, Num),
    Rate(bool),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum New {
    Gain(Num),
    Constant(Num),
    Biquad(Num, Num),
    Oscillator(u8, Num, bool),
    Delay(Num, Num),
    Iir(Vec<u8>, Vec<u8>),
    Analyser(usize, Num, Num, Num),
    Merger(usize),
    Splitter(usize),
    Script(usize, usize, usize),
    Panner(Num, Num, Num, Num),
    StereoPanner(Num),
    Compressor(Num),
    Convolver(usize, bool),
    Shaper(Option<usize>),
    BufferSource(Num, Num),
    Worklet(usize, usize, Vec<usize>),
    Wave(Option<usize>, Option<usize>),
    Context(usize, usize, Num),
    Buffer(usize, usize, Num),
    BufferFrom(Vec<usize>, Num),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Call {
    Count(usize, usize),
    Mode(usize, Mode),
    Speakers(usize, bool),
    /// node, output, node, input
    Connect(usize, usize, usize, usize),
    ConnectParam(usize, usize, usize, usize),
    ConnectForeign(usize),
    Disconnect(usize, Option<usize>, Option<usize>, usize),
    DisconnectAll(usize),
    DisconnectOutput(usize, usize),
    DisconnectForeign(usize),
    Param(usize, ParamCall),
    Start(usize, Num),
    StartOffset(Num, Num, Num),
    Stop(usize, Num),
    SourceBuffer(bool),
    FftSize(usize),
    Smoothing(Num),
    MinDecibels(Num),
    MaxDecibels(Num),
    RefDistance(Num),
    MaxDistance(Num),
    Rolloff(Num),
    ConeGain(Num),
    ShaperCurve(usize),
    /// channels, right rate
    Impulse(usize, bool),
    OscillatorType(u8),
    /// frequencies, magnitudes, phases, of the biquad filter
    Response(usize, usize, usize, bool),
    /// which operation, channel, offset
    Buffer(u8, usize, usize),
    /// before rendering only
    Suspend(Num),
    New(New, usize, Mode, bool),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    channels: usize,
    /// when, what
    calls: Vec<(usize, Call)>,
}

/// number of inputs and outputs
const NODES: [(&str, usize, usize); 18] = [
    ("gain", 1, 1),
    ("biquad", 1, 1),
    ("iir", 1, 1),
    ("delay", 1, 1),
    ("shaper", 1, 1),
    ("convolver", 1, 1),
    ("compressor", 1, 1),
    ("panner", 1, 1),
    ("stereo panner", 1, 1),
    ("analyser", 1, 1),
    ("merger", 3, 1),
    ("splitter", 1, 3),
    ("script", 1, 1),
    ("worklet", 2, 2),
    ("oscillator", 0, 1),
    ("constant", 0, 1),
    ("source", 0, 1),
    ("destination", 1, 0),
];
const DESTINATION: usize = 17;
const PARAMS: usize = 11;

struct Copy;

impl AudioWorkletProcessor for Copy {
    type ProcessorOptions = ();

    fn constructor(_: ()) -> Self {
        Self
    }

    fn process<'a, 'b>(
        &mut self,
        inputs: &'b [&'a [&'a [f32]]],
        outputs: &'b mut [&'a mut [&'a mut [f32]]],
        _: AudioParamValues<'b>,
        _: &'b AudioWorkletGlobalScope,
    ) -> bool {
        for (i, o) in inputs.iter().zip(outputs) {
            for (i, o) in i.iter().zip(o.iter_mut()) {
                o.copy_from_slice(i);
            }
        }
        true
    }
}

struct World {
    gain: GainNode,
    biquad: BiquadFilterNode,
    iir: IIRFilterNode,
    delay: DelayNode,
    shaper: WaveShaperNode,
    convolver: ConvolverNode,
    compressor: DynamicsCompressorNode,
    panner: PannerNode,
    stereo: StereoPannerNode,
    analyser: AnalyserNode,
    merger: ChannelMergerNode,
    splitter: ChannelSplitterNode,
    script: ScriptProcessorNode,
    worklet: AudioWorkletNode,
    oscillator: OscillatorNode,
    constant: ConstantSourceNode,
    source: AudioBufferSourceNode,
    destination: AudioDestinationNode,
    listener: AudioListener,
    buffer: AudioBuffer,
    foreign: GainNode,
    kept: Vec<Box<dyn AudioNode + Send>>,
    // the model
    channels: usize,
    config: Vec<(usize, Mode, bool)>,
    edges: Vec<(usize, usize, usize, usize)>,
    started: [bool; 3],
    has_buffer: bool,
    has_curve: bool,
    suspended: Vec<usize>,
    fft: usize,
    smoothing: f64,
    decibels: (f64, f64),
    distances: [f64; 4],
}

fn coefficient(k: u8) -> f64 {
    k as f64 / 64. - 1.
}

fn rate_ok(sr: f32) -> bool {
    (3000. ..=768000.).contains(&sr)
}

fn count_ok(v: usize) -> bool {
    (1..=32).contains(&v)
}

impl World {
    fn new(ctx: &OfflineAudioContext, channels: usize) -> Self {
        let buffer = AudioBuffer::from(
            (0..2)
                .map(|c| (0..300).map(|i| noise(3, c, i) * 0.5).collect())
                .collect(),
            SR,
        );
        let mut main = ctx.create_buffer_source();
        main.set_buffer(buffer.clone());
        main.set_loop(true);
        main.start();
        let foreign = offline(1, 1, SR);
        let mut w = World {
            gain: ctx.create_gain(),
            biquad: ctx.create_biquad_filter(),
            iir: ctx.create_iir_filter(vec![0.3, 0.1], vec![1., -0.2]),
            delay: ctx.create_delay(0.5),
            shaper: ctx.create_wave_shaper(),
            convolver: ctx.create_convolver(),
            compressor: ctx.create_dynamics_compressor(),
            panner: ctx.create_panner(),
            stereo: ctx.create_stereo_panner(),
            analyser: ctx.create_analyser(),
            merger: ctx.create_channel_merger(3),
            splitter: ctx.create_channel_splitter(3),
            script: ctx.create_script_processor(256, 2, 2),
            worklet: AudioWorkletNode::new::<Copy>(
                ctx,
                AudioWorkletNodeOptions {
                    number_of_inputs: 2,
                    number_of_outputs: 2,
                    output_channel_count: vec![2, 1],
                    parameter_data: Default::default(),
                    processor_options: (),
                    audio_node_options: AudioNodeOptions::default(),
                },
            ),
            oscillator: ctx.create_oscillator(),
            constant: ctx.create_constant_source(),
            source: ctx.create_buffer_source(),
            destination: ctx.destination(),
            listener: ctx.listener(),
            buffer,
            foreign: foreign.create_gain(),
            kept: vec![],
            channels,
            config: (0..NODES.len())
                .map(|i| match NODES[i].0 {
                    "convolver" | "compressor" | "panner" | "stereo panner" => {
                        (2, Mode::ClampedMax, true)
                    }
                    "merger" => (1, Mode::Explicit, true),
                    "splitter" => (3, Mode::Explicit, false),
                    "script" => (2, Mode::Explicit, true),
                    "destination" => (channels, Mode::Explicit, true),
                    _ => (2, Mode::Max, true),
                })
                .collect(),
            edges: vec![],
            started: [false; 3],
            has_buffer: false,
            has_curve: false,
            suspended: vec![],
            fft: 2048,
            smoothing: 0.8,
            decibels: (-100., -30.),
            distances: [1., 10000., 1., 0.],
        };
        w.delay.delay_time().set_value(0.004);
        w.stereo.pan().set_value(0.3);
        w.panner.position_x().set_value(2.);
        for i in 0..DESTINATION {
            for input in 0..NODES[i].1 {
                main.connect_from_output_to_input(w.node(i), 0, input);
            }
            for output in 0..NODES[i].2 {
                w.node(i)
                    .connect_from_output_to_input(w.node(DESTINATION), output, 0);
                w.edges.push((i, output, DESTINATION, 0));
            }
        }
        w.kept.push(Box::new(main));
        w
    }

    fn node(&self, i: usize) -> &dyn AudioNode {
        match i {
            0 => &self.gain,
            1 => &self.biquad,
            2 => &self.iir,
            3 => &self.delay,
            4 => &self.shaper,
            5 => &self.convolver,
            6 => &self.compressor,
            7 => &self.panner,
            8 => &self.stereo,
            9 => &self.analyser,
            10 => &self.merger,
            11 => &self.splitter,
            12 => &self.script,
            13 => &self.worklet,
            14 => &self.oscillator,
            15 => &self.constant,
            16 => &self.source,
            _ => &self.destination,
        }
    }

    /// with its range and whether the automation rate is fixed
    fn param(&self, i: usize) -> (&AudioParam, f32, f32, bool) {
        let most = f32::MAX;
        match i {
            0 => (self.gain.gain(), -most, most, false),
            1 => (self.biquad.frequency(), 0., SR / 2., false),
            2 => (self.delay.delay_time(), 0., 0.5, false),
            3 => (self.panner.position_x(), -most, most, false),
            4 => (self.oscillator.frequency(), -SR / 2., SR / 2., false),
            5 => (self.constant.offset(), -most, most, false),
            6 => (self.stereo.pan(), -1., 1., false),
            7 => (self.compressor.threshold(), -100., 0., true),
            8 => (self.source.playback_rate(), -most, most, true),
            9 => (self.biquad.q(), -most, most, false),
            _ => (self.listener.position_x(), -most, most, false),
        }
    }

    /// Whether the call has to be accepted. None: not specified.
    fn valid(&self, call: &Call) -> Option<bool> {
        let t = |n: &Num| n.get().is_finite() && n.get() >= 0.;
        let f = |n: &Num| n.f32().is_finite();
        Some(match call {
            Call::Count(n, v) => match NODES[*n].0 {
                "convolver" | "compressor" | "panner" | "stereo panner" => *v == 1 || *v == 2,
                "merger" | "splitter" | "script" | "destination" => *v == self.config[*n].0,
                _ => count_ok(*v),
            },
            Call::Mode(n, m) => match NODES[*n].0 {
                "convolver" | "compressor" | "panner" | "stereo panner" => *m != Mode::Max,
                "merger" | "splitter" | "script" | "destination" => *m == Mode::Explicit,
                _ => true,
            },
            Call::Speakers(n, s) => NODES[*n].0 != "splitter" || !*s,
            Call::Connect(a, o, b, i) => *o < NODES[*a].2 && *i < NODES[*b].1,
            Call::ConnectParam(a, o, _, i) => *o < NODES[*a].2 && *i == 0,
            Call::ConnectForeign(_) | Call::DisconnectForeign(_) => false,
            Call::Disconnect(a, o, i, b) => self.edges.iter().any(|e| {
                e.0 == *a && e.2 == *b && o.is_none_or(|o| o == e.1) && i.is_none_or(|i| i == e.3)
            }),
            Call::DisconnectAll(_) => true,
            Call::DisconnectOutput(a, o) => *o < NODES[*a].2,
            Call::Param(p, c) => match c {
                ParamCall::Value(v) => f(v),
                ParamCall::At(v, at) | ParamCall::Linear(v, at) => f(v) && t(at),
                ParamCall::Exponential(v, at) => f(v) && v.f32() != 0. && t(at),
                ParamCall::Target(v, at, tau) => f(v) && t(at) && t(tau),
                ParamCall::Cancel(at) | ParamCall::Hold(at) => t(at),
                ParamCall::Curve(n, at, d) => *n >= 2 && t(at) && t(d) && d.get() > 0.,
                ParamCall::Rate(a) => {
                    let (param, _, _, fixed) = self.param(*p);
                    !fixed || (param.automation_rate() == AutomationRate::A) == *a
                }
            },
            Call::Start(s, at) => !self.started[*s] && t(at),
            Call::StartOffset(at, o, d) => !self.started[2] && t(at) && t(o) && t(d),
            Call::Stop(s, at) => self.started[*s] && t(at),
            Call::SourceBuffer(_) => !self.has_buffer,
            Call::FftSize(n) => n.is_power_of_two() && (32..=32768).contains(n),
            Call::Smoothing(x) => (0. ..=1.).contains(&x.get()),
            Call::MinDecibels(x) if x.get().is_infinite() => return None,
            Call::MaxDecibels(x) if x.get().is_infinite() => return None,
            Call::MinDecibels(x) => x.get() < self.decibels.1,
            Call::MaxDecibels(x) => x.get() > self.decibels.0,
            Call::RefDistance(x) | Call::MaxDistance(x) | Call::Rolloff(x)
                if x.get() == f64::INFINITY =>
            {
                return None
            }
            Call::RefDistance(x) | Call::Rolloff(x) => x.get() >= 0.,
            Call::MaxDistance(x) => x.get() > 0.,
            Call::ConeGain(x) => (0. ..=1.).contains(&x.get()),
            Call::ShaperCurve(_) => !self.has_curve,
            Call::Impulse(n, rate) => *rate && [1, 2, 4].contains(n),
            Call::OscillatorType(k) => *k % 5 != 4,
            Call::Response(a, b, c, _) => a == b && b == c,
            Call::Buffer(_, channel, _) => *channel < 2,
            Call::Suspend(at) => {
                let at = at.get();
                let quantum = (at * SR as f64 / RQ as f64).ceil();
                // now is neither in the future nor in the past
                if quantum == 0. {
                    return None;
                }
                at >= 0. && quantum < QUANTA as f64 && !self.suspended.contains(&(quantum as usize))
            }
            Call::New(new, count, mode, speakers) => {
                let limited = (1..=2).contains(count) && *mode != Mode::Max;
                match new {
                    New::Gain(v) => f(v) && count_ok(*count),
                    New::Constant(v) => f(v),
                    New::Biquad(a, b) => f(a) && f(b) && count_ok(*count),
                    New::Oscillator(k, v, wave) => {
                        f(v) && count_ok(*count) && (*k % 5 != 4 || *wave)
                    }
                    New::Delay(most, d) => {
                        let most = most.get();
                        most > 0. && most < 180. && d.f32().is_finite() && count_ok(*count)
                    }
                    New::Iir(a, b) => {
                        (1..=20).contains(&a.len())
                            && (1..=20).contains(&b.len())
                            && a.iter().any(|k| coefficient(*k) != 0.)
                            && coefficient(b[0]) != 0.
                            && count_ok(*count)
                    }
                    New::Analyser(n, s, a, b) => {
                        if a.get().is_infinite() || b.get().is_infinite() {
                            return None;
                        }
                        n.is_power_of_two()
                            && (32..=32768).contains(n)
                            && (0. ..=1.).contains(&s.get())
                            && a.get() < b.get()
                            && count_ok(*count)
                    }
                    New::Merger(n) => count_ok(*n) && *count == 1 && *mode == Mode::Explicit,
                    New::Splitter(n) => {
                        // 6 is the default
                        count_ok(*n)
                            && (count == n || *count == 6)
                            && *mode == Mode::Explicit
                            && !*speakers
                    }
                    New::Script(size, i, o) => {
                        [0, 256, 512, 1024, 2048, 4096, 8192, 16384].contains(size)
                            && (*i > 0 || *o > 0)
                            && *i <= 32
                            && *o <= 32
                    }
                    New::Panner(a, b, c, d) => {
                        if [a, b, c].iter().any(|x| x.get() == f64::INFINITY) {
                            return None;
                        }
                        a.get() >= 0.
                            && b.get() > 0.
                            && c.get() >= 0.
                            && (0. ..=1.).contains(&d.get())
                            && limited
                    }
                    New::StereoPanner(v) | New::Compressor(v) => f(v) && limited,
                    New::Convolver(n, rate) => *rate && [1, 2, 4].contains(n) && limited,
                    New::Shaper(_) => count_ok(*count),
                    New::BufferSource(a, b) => f(a) && f(b),
                    New::Worklet(i, o, counts) => {
                        (*i > 0 || *o > 0)
                            && (counts.is_empty()
                                || (counts.len() == *o && counts.iter().all(|c| count_ok(*c))))
                            && count_ok(*count)
                    }
                    New::Wave(a, b) => {
                        let ok = |n: &Option<usize>| n.is_none_or(|n| n >= 2);
                        let same = match (a, b) {
                            (Some(a), Some(b)) => a == b,
                            _ => true,
                        };
                        ok(a) && ok(b) && same
                    }
                    New::Context(c, n, sr) | New::Buffer(c, n, sr) => {
                        count_ok(*c) && *n > 0 && rate_ok(sr.f32())
                    }
                    New::BufferFrom(n, sr) => {
                        count_ok(n.len()) && n.iter().all(|a| *a == n[0]) && rate_ok(sr.f32())
                    }
                }
            }
        })
    }

    /// Perform the call, whatever it does
    fn perform(&mut self, ctx: &mut OfflineAudioContext, call: &Call) {
        match call {
            Call::Count(n, v) => self.node(*n).set_channel_count(*v),
            Call::Mode(n, m) => self.node(*n).set_channel_count_mode(m.api()),
            Call::Speakers(n, s) => self.node(*n).set_channel_interpretation(interp_api(*s)),
            Call::Connect(a, o, b, i) => {
                self.node(*a)
                    .connect_from_output_to_input(self.node(*b), *o, *i);
            }
            Call::ConnectParam(a, o, p, i) => {
                let param = self.param(*p).0;
                self.node(*a).connect_from_output_to_input(param, *o, *i);
            }
            Call::ConnectForeign(a) => {
                self.node(*a).connect(&self.foreign);
            }
            Call::Disconnect(a, o, i, b) => {
                let (a, b) = (self.node(*a), self.node(*b));
                match (o, i) {
                    (Some(o), Some(i)) => a.disconnect_dest_from_output_to_input(b, *o, *i),
                    (Some(o), None) => a.disconnect_dest_from_output(b, *o),
                    _ => a.disconnect_dest(b),
                }
            }
            Call::DisconnectAll(a) => self.node(*a).disconnect(),
            Call::DisconnectOutput(a, o) => self.node(*a).disconnect_output(*o),
            Call::DisconnectForeign(a) => self.node(*a).disconnect_dest(&self.foreign),
            Call::Param(p, c) => {
                let param = self.param(*p).0;
                match c {
                    ParamCall::Value(v) => {
                        param.set_value(v.f32());
                    }
                    ParamCall::At(v, t) => {
                        param.set_value_at_time(v.f32(), t.get());
                    }
                    ParamCall::Linear(v, t) => {
                        param.linear_ramp_to_value_at_time(v.f32(), t.get());
                    }
                    ParamCall::Exponential(v, t) => {
                        param.exponential_ramp_to_value_at_time(v.f32(), t.get());
                    }
                    ParamCall::Target(v, t, tau) => {
                        param.set_target_at_time(v.f32(), t.get(), tau.get());
                    }
                    ParamCall::Cancel(t) => {
                        param.cancel_scheduled_values(t.get());
                    }
                    ParamCall::Hold(t) => {
                        param.cancel_and_hold_at_time(t.get());
                    }
                    ParamCall::Curve(n, t, d) => {
                        let curve: Vec<f32> = (0..*n).map(|i| i as f32 * 0.1).collect();
                        param.set_value_curve_at_time(&curve, t.get(), d.get());
                    }
                    ParamCall::Rate(a) => param.set_automation_rate(if *a {
                        AutomationRate::A
                    } else {
                        AutomationRate::K
                    }),
                }
            }
            Call::Start(0, t) => self.oscillator.start_at(t.get()),
            Call::Start(1, t) => self.constant.start_at(t.get()),
            Call::Start(_, t) => self.source.start_at(t.get()),
            Call::StartOffset(t, o, d) => {
                self.source
                    .start_at_with_offset_and_duration(t.get(), o.get(), d.get())
            }
            Call::Stop(0, t) => self.oscillator.stop_at(t.get()),
            Call::Stop(1, t) => self.constant.stop_at(t.get()),
            Call::Stop(_, t) => self.source.stop_at(t.get()),
            Call::SourceBuffer(long) => {
                let len = if *long { 400 } else { 3 };
                let data = vec![(0..len).map(|i| i as f32 * 1e-3).collect()];
                self.source.set_buffer(AudioBuffer::from(data, SR))
            }
            Call::FftSize(n) => self.analyser.set_fft_size(*n),
            Call::Smoothing(x) => self.analyser.set_smoothing_time_constant(x.get()),
            Call::MinDecibels(x) => self.analyser.set_min_decibels(x.get()),
            Call::MaxDecibels(x) => self.analyser.set_max_decibels(x.get()),
            Call::RefDistance(x) => self.panner.set_ref_distance(x.get()),
            Call::MaxDistance(x) => self.panner.set_max_distance(x.get()),
            Call::Rolloff(x) => self.panner.set_rolloff_factor(x.get()),
            Call::ConeGain(x) => self.panner.set_cone_outer_gain(x.get()),
            Call::ShaperCurve(n) => self
                .shaper
                .set_curve((0..*n).map(|i| (i as f32).sin()).collect()),
            Call::Impulse(n, rate) => {
                let sr = if *rate { SR } else { 44100. };
                self.convolver
                    .set_buffer(AudioBuffer::from(vec![vec![0.2, 0.1]; *n], sr))
            }
            Call::OscillatorType(k) => self.oscillator.set_type((*k as u32 % 5).into()),
            Call::Response(a, b, c, iir) => {
                let f = vec![100.; *a];
                let (mut b, mut c) = (vec![0.; *b], vec![0.; *c]);
                if *iir {
                    self.iir.get_frequency_response(&f, &mut b, &mut c)
                } else {
                    self.biquad.get_frequency_response(&f, &mut b, &mut c)
                }
            }
            Call::Buffer(k, channel, offset) => {
                let b = &mut self.buffer;
                let mut data = [1.; 5];
                match k {
                    0 => {
                        b.get_channel_data(*channel);
                    }
                    1 => b.get_channel_data_mut(*channel)[7] = 3.,
                    2 => b.copy_from_channel(&mut data, *channel),
                    3 => b.copy_from_channel_with_offset(&mut data, *channel, *offset),
                    4 => b.copy_to_channel(&data, *channel),
                    _ => b.copy_to_channel_with_offset(&data, *channel, *offset),
                }
            }
            Call::Suspend(t) => ctx.suspend_sync(t.get(), |_| ()),
            Call::New(new, count, mode, speakers) => {
                let options = node_opts(*count, *mode, *speakers);
                self.construct(ctx, new, options)
            }
        }
    }

    fn construct(
        &mut self,
        ctx: &OfflineAudioContext,
        new: &New,
        audio_node_options: AudioNodeOptions,
    ) {
        let buffer = |n: usize, ok: bool| {
            AudioBuffer::from(vec![vec![0.5, 0.2]; n], if ok { SR } else { 44100. })
        };
        let close = |what, a: f64, b: f64| {
            assert!(
                (a - b).abs() <= 1e-6 * b.abs() + 1e-37,
                "getter: {what} is {a}, expected {b}"
            )
        };
        let node: Box<dyn AudioNode + Send> = match new {
            New::Gain(v) => {
                let n = GainNode::new(
                    ctx,
                    GainOptions {
                        gain: v.f32(),
                        audio_node_options,
                    },
                );
                close("gain", n.gain().value() as f64, v.f32() as f64);
                Box::new(n)
            }
            New::Constant(v) => {
                let n = ConstantSourceNode::new(ctx, ConstantSourceOptions { offset: v.f32() });
                close("offset", n.offset().value() as f64, v.f32() as f64);
                Box::new(n)
            }
            New::Biquad(a, b) => {
                let n = BiquadFilterNode::new(
                    ctx,
                    BiquadFilterOptions {
                        frequency: a.f32(),
                        q: b.f32(),
                        audio_node_options,
                        ..Default::default()
                    },
                );
                let a = a.f32().clamp(0., SR / 2.);
                close("frequency", n.frequency().value() as f64, a as f64);
                close("q", n.q().value() as f64, b.f32() as f64);
                Box::new(n)
            }
            New::Oscillator(k, v, wave) => {
                let n = OscillatorNode::new(
                    ctx,
                    OscillatorOptions {
                        type_: (*k as u32 % 5).into(),
                        frequency: v.f32(),
                        periodic_wave: wave
                            .then(|| PeriodicWave::new(ctx, PeriodicWaveOptions::default())),
                        audio_node_options,
                        ..Default::default()
                    },
                );
                let v = v.f32().clamp(-SR / 2., SR / 2.);
                close("frequency", n.frequency().value() as f64, v as f64);
                let k = if *wave { 4 } else { *k as u32 % 5 };
                assert_eq!(n.type_(), k.into(), "getter: type");
                Box::new(n)
            }
            New::Delay(most, d) => {
                let n = DelayNode::new(
                    ctx,
                    DelayOptions {
                        max_delay_time: most.get(),
                        delay_time: d.get(),
                        audio_node_options,
                    },
                );
                let d = d.get().clamp(0., most.get());
                close("delay", n.delay_time().value() as f64, d);
                Box::new(n)
            }
            New::Iir(a, b) => Box::new(IIRFilterNode::new(
                ctx,
                IIRFilterOptions {
                    feedforward: a.iter().map(|k| coefficient(*k)).collect(),
                    feedback: b.iter().map(|k| coefficient(*k)).collect(),
                    audio_node_options,
                },
            )),
            New::Analyser(n, s, a, b) => {
                let node = AnalyserNode::new(
                    ctx,
                    AnalyserOptions {
                        fft_size: *n,
                        smoothing_time_constant: s.get(),
                        min_decibels: a.get(),
                        max_decibels: b.get(),
                        audio_node_options,
                    },
                );
                assert_eq!(node.fft_size(), *n, "getter: size");
                assert_eq!(node.frequency_bin_count(), n / 2, "getter: bins");
                close("smoothing", node.smoothing_time_constant(), s.get());
                close("min", node.min_decibels(), a.get());
                close("max", node.max_decibels(), b.get());
                Box::new(node)
            }
            New::Merger(n) => {
                let node = ChannelMergerNode::new(
                    ctx,
                    ChannelMergerOptions {
                        number_of_inputs: *n,
                        audio_node_options,
                    },
                );
                assert_eq!(node.number_of_inputs(), *n, "getter: inputs");
                Box::new(node)
            }
            New::Splitter(n) => {
                let node = ChannelSplitterNode::new(
                    ctx,
                    ChannelSplitterOptions {
                        number_of_outputs: *n,
                        audio_node_options,
                    },
                );
                assert_eq!(node.number_of_outputs(), *n, "getter: outputs");
                assert_eq!(node.channel_count(), *n, "getter: count");
                Box::new(node)
            }
            New::Script(size, i, o) => {
                let node = ctx.create_script_processor(*size, *i, *o);
                if *size > 0 {
                    assert_eq!(node.buffer_size(), *size, "getter: size");
                }
                Box::new(node)
            }
            New::Panner(a, b, c, d) => {
                let n = PannerNode::new(
                    ctx,
                    PannerOptions {
                        ref_distance: a.get(),
                        max_distance: b.get(),
                        rolloff_factor: c.get(),
                        cone_outer_gain: d.get(),
                        audio_node_options,
                        ..Default::default()
                    },
                );
                close("ref distance", n.ref_distance(), a.get());
                close("max distance", n.max_distance(), b.get());
                close("rolloff", n.rolloff_factor(), c.get());
                close("cone gain", n.cone_outer_gain(), d.get());
                Box::new(n)
            }
            New::StereoPanner(v) => {
                let n = StereoPannerNode::new(
                    ctx,
                    StereoPannerOptions {
                        pan: v.f32(),
                        audio_node_options,
                    },
                );
                let v = v.f32().clamp(-1., 1.);
                close("pan", n.pan().value() as f64, v as f64);
                Box::new(n)
            }
            New::Compressor(v) => {
                let n = DynamicsCompressorNode::new(
                    ctx,
                    DynamicsCompressorOptions {
                        threshold: v.f32(),
                        audio_node_options,
                        ..Default::default()
                    },
                );
                let v = v.f32().clamp(-100., 0.);
                close("threshold", n.threshold().value() as f64, v as f64);
                Box::new(n)
            }
            New::Convolver(n, rate) => {
                let node = ConvolverNode::new(
                    ctx,
                    ConvolverOptions {
                        buffer: Some(buffer(*n, *rate)),
                        audio_node_options,
                        ..Default::default()
                    },
                );
                assert!(node.buffer().is_some(), "getter: buffer");
                Box::new(node)
            }
            New::Shaper(curve) => {
                let n = WaveShaperNode::new(
                    ctx,
                    WaveShaperOptions {
                        curve: curve.map(|n| vec![0.5; n]),
                        audio_node_options,
                        ..Default::default()
                    },
                );
                assert_eq!(n.curve().map(|c| c.len()), *curve, "getter: curve");
                Box::new(n)
            }
            New::BufferSource(a, b) => {
                let n = AudioBufferSourceNode::new(
                    ctx,
                    AudioBufferSourceOptions {
                        playback_rate: a.f32(),
                        detune: b.f32(),
                        ..Default::default()
                    },
                );
                close("rate", n.playback_rate().value() as f64, a.f32() as f64);
                close("detune", n.detune().value() as f64, b.f32() as f64);
                Box::new(n)
            }
            New::Worklet(i, o, counts) => {
                let n = AudioWorkletNode::new::<Copy>(
                    ctx,
                    AudioWorkletNodeOptions {
                        number_of_inputs: *i,
                        number_of_outputs: *o,
                        output_channel_count: counts.clone(),
                        parameter_data: Default::default(),
                        processor_options: (),
                        audio_node_options,
                    },
                );
                assert_eq!(n.number_of_inputs(), *i, "getter: inputs");
                assert_eq!(n.number_of_outputs(), *o, "getter: outputs");
                Box::new(n)
            }
            New::Wave(a, b) => {
                PeriodicWave::new(
                    ctx,
                    PeriodicWaveOptions {
                        real: a.map(|n| vec![0.5; n]),
                        imag: b.map(|n| vec![0.5; n]),
                        disable_normalization: false,
                    },
                );
                return;
            }
            New::Context(c, n, sr) => {
                let ctx = OfflineAudioContext::new(*c, *n, sr.f32());
                assert_eq!(ctx.sample_rate(), sr.f32(), "getter: rate");
                assert_eq!(ctx.length(), *n, "getter: length");
                assert_eq!(ctx.destination().channel_count(), *c, "getter: count");
                return;
            }
            New::Buffer(c, n, sr) => {
                let b = ctx.create_buffer(*c, *n, sr.f32());
                assert_eq!(b.sample_rate(), sr.f32(), "getter: rate");
                assert_eq!(b.length(), *n, "getter: length");
                assert_eq!(b.number_of_channels(), *c, "getter: count");
                return;
            }
            New::BufferFrom(n, sr) => {
                let b = AudioBuffer::from(n.iter().map(|n| vec![0.; *n]).collect(), sr.f32());
                assert_eq!(b.sample_rate(), sr.f32(), "getter: rate");
                assert_eq!(b.length(), n[0], "getter: length");
                assert_eq!(b.number_of_channels(), n.len(), "getter: count");
                return;
            }
        };
        self.kept.push(node);
    }

    /// What the accepted call changes, and whether the getters tell
    fn accepted(&mut self, call: &Call, ctx: &OfflineAudioContext) -> CaseResult {
        match call {
            Call::Count(n, v) => self.config[*n].0 = *v,
            Call::Mode(n, m) => self.config[*n].1 = *m,
            Call::Speakers(n, s) => self.config[*n].2 = *s,
            Call::Connect(a, o, b, i) => self.edges.push((*a, *o, *b, *i)),
            Call::Disconnect(a, o, i, b) => self.edges.retain(|e| {
                !(e.0 == *a
                    && e.2 == *b
                    && o.is_none_or(|o| o == e.1)
                    && i.is_none_or(|i| i == e.3))
            }),
            Call::DisconnectAll(a) => self.edges.retain(|e| e.0 != *a),
            Call::DisconnectOutput(a, o) => self.edges.retain(|e| e.0 != *a || e.1 != *o),
            Call::Param(p, ParamCall::Value(v)) => {
                let (param, low, high, _) = self.param(*p);
                let expect = v.f32().clamp(low, high);
                ensure!(
                    param.value() == expect,
                    "value {} after setting {}",
                    param.value(),
                    v.f32()
                );
            }
            Call::Param(p, ParamCall::Rate(a)) => ensure!(
                (self.param(*p).0.automation_rate() == AutomationRate::A) == *a,
                "automation rate not reflected"
            ),
            Call::Start(s, _) => self.started[*s] = true,
            Call::StartOffset(..) => self.started[2] = true,
            Call::SourceBuffer(_) => {
                self.has_buffer = true;
                ensure!(self.source.buffer().is_some(), "no buffer");
            }
            Call::FftSize(n) => self.fft = *n,
            Call::Smoothing(x) => self.smoothing = x.get(),
            Call::MinDecibels(x) => self.decibels.0 = x.get(),
            Call::MaxDecibels(x) => self.decibels.1 = x.get(),
            Call::RefDistance(x) => self.distances[0] = x.get(),
            Call::MaxDistance(x) => self.distances[1] = x.get(),
            Call::Rolloff(x) => self.distances[2] = x.get(),
            Call::ConeGain(x) => self.distances[3] = x.get(),
            Call::ShaperCurve(n) => {
                self.has_curve = true;
                ensure!(
                    self.shaper.curve().map(|c| c.len()) == Some(*n),
                    "curve not reflected"
                );
            }
            Call::Impulse(n, _) => ensure!(
                self.convolver.buffer().map(|b| b.number_of_channels()) == Some(*n),
                "impulse response not reflected"
            ),
            Call::OscillatorType(k) => ensure!(
                self.oscillator.type_() == (*k as u32 % 5).into(),
                "type not reflected"
            ),
            Call::Suspend(t) => {
                let quantum = (t.get() * SR as f64 / RQ as f64).ceil() as usize;
                self.suspended.push(quantum);
            }
            Call::New(
                New::Gain(_)
                | New::Biquad(..)
                | New::Oscillator(..)
                | New::Delay(..)
                | New::Iir(..)
                | New::Analyser(..)
                | New::Merger(..)
                | New::Panner(..)
                | New::StereoPanner(..)
                | New::Compressor(..)
                | New::Convolver(..)
                | New::Shaper(..)
                | New::Worklet(..),
                count,
                mode,
                speakers,
            ) => {
                let n = self.kept.last().unwrap();
                let got = (
                    n.channel_count(),
                    n.channel_count_mode(),
                    n.channel_interpretation(),
                );
                let expect = (*count, mode.api(), interp_api(*speakers));
                ensure!(got == expect, "configuration {got:?}, expected {expect:?}");
                if let (0, n @ 1..) = (n.number_of_inputs(), n.number_of_outputs()) {
                    ensure!(n == 1 || n <= 3, "{n} outputs");
                }
            }
            _ => (),
        }
        let _ = ctx;
        Ok(())
    }

    /// All getters
    fn verify(&self) -> CaseResult {
        for (i, (count, mode, speakers)) in self.config.iter().enumerate() {
            let n = self.node(i);
            let got = (
                n.channel_count(),
                n.channel_count_mode(),
                n.channel_interpretation(),
            );
            let expect = (*count, mode.api(), interp_api(*speakers));
            ensure!(
                got == expect,
                "{}: configuration {got:?}, expected {expect:?}",
                NODES[i].0
            );
        }
        let a = &self.analyser;
        let got = (
            a.fft_size(),
            a.smoothing_time_constant(),
            a.min_decibels(),
            a.max_decibels(),
        );
        let expect = (self.fft, self.smoothing, self.decibels.0, self.decibels.1);
        ensure!(got == expect, "analyser {got:?}, expected {expect:?}");
        let p = &self.panner;
        let got = [
            p.ref_distance(),
            p.max_distance(),
            p.rolloff_factor(),
            p.cone_outer_gain(),
        ];
        ensure!(
            got == self.distances,
            "panner {got:?}, expected {:?}",
            self.distances
        );
        Ok(())
    }
}

/// Returns the number of rejected calls
fn perform(
    world: &mut World,
    ctx: &mut OfflineAudioContext,
    calls: &[(usize, Call)],
    phase: usize,
    all: bool,
) -> Result<(usize, usize), String> {
    let mut counts = (0, 0);
    for (i, (when, call)) in calls.iter().enumerate() {
        if *when != phase || (phase > 0 && matches!(call, Call::Suspend(_))) {
            continue;
        }
        let Some(valid) = world.valid(call) else {
            continue;
        };
        if !valid && !all {
            continue;
        }
        let before = world.kept.len();
        let result = accepts(|| world.perform(ctx, call));
        match (valid, result) {
            (true, Ok(())) => {
                counts.0 += 1;
                world
                    .accepted(call, ctx)
                    .map_err(|e| format!("call {i}: {e}"))?
            }
            (true, Err(e)) => return Err(format!("call {i} was rejected: {e}")),
            (false, Ok(())) => return Err(format!("call {i} was accepted")),
            (false, Err(e)) => {
                counts.1 += 1;
                ensure!(
                    !e.contains("getter:") && world.kept.len() == before,
                    "call {i} was accepted: {e}"
                );
            }
        }
        world.verify().map_err(|e| format!("after call {i}: {e}"))?;
    }
    Ok(counts)
}

type Outcome = (Vec<Vec<f32>>, Vec<f32>, (usize, usize));

fn render(c: &Case, all: bool) -> Result<Outcome, String> {
    let mut ctx = offline(c.channels, QUANTA * RQ, SR);
    let mut world = World::new(&ctx, c.channels);
    let mut counts = perform(&mut world, &mut ctx, &c.calls, 0, all)?;
    let shared = Arc::new(Mutex::new((world, Ok((0, 0)))));
    for phase in 1..QUANTA {
        if !c.calls.iter().any(|(p, _)| *p == phase) {
            continue;
        }
        if shared.lock().unwrap().0.suspended.contains(&phase) {
            continue;
        }
        let shared = Arc::clone(&shared);
        let calls = c.calls.clone();
        ctx.suspend_sync((phase * RQ - RQ / 2) as f64 / SR as f64, move |ctx| {
            let mut guard = shared.lock().unwrap();
            let (world, result) = &mut *guard;
            if result.is_ok() {
                let new = perform(world, ctx, &calls, phase, all);
                *result = match (&*result, new) {
                    (Ok(a), Ok(b)) => Ok((a.0 + b.0, a.1 + b.1)),
                    (_, e) => e.map_err(|e| format!("during rendering: {e}")),
                };
            }
            if phase == QUANTA - 1 {
                // whatever happened, the context remains usable
                let probe = ctx.create_gain();
                let mut source = ctx.create_constant_source();
                source.offset().set_value(0.125);
                source.connect(&probe).connect(&ctx.destination());
                source.start();
                world.kept.push(Box::new(probe));
                world.kept.push(Box::new(source));
            }
        });
    }
    let out = ctx.start_rendering_sync();
    ensure!(
        accepts(|| ctx.start_rendering_sync()).is_err(),
        "rendering was started twice"
    );
    let mut guard = shared.lock().unwrap();
    let (world, result) = &mut *guard;
    let later = std::mem::replace(result, Ok((0, 0)))?;
    counts.0 += later.0;
    counts.1 += later.1;
    world.verify()?;
    let mut values = vec![0.; 64];
    world.analyser.get_float_time_domain_data(&mut values);
    values.extend((0..PARAMS).map(|p| world.param(p).0.value()));
    values.extend_from_slice(&world.buffer.get_channel_data(1)[..16]);
    Ok((to_vecs(&out), values, counts))
}

fn check(c: &Case, obs: &mut Obs) -> CaseResult {
    let (out, values, counts) = render(c, true)?;
    let (expect, expect_values, _) = render(c, false).map_err(|e| format!("twin: {e}"))?;
    obs.comparisons += (counts.0 + counts.1) as u64;
    obs.nontrivial_if(counts.1 > 0);
    obs.label_if(counts.0 > 0, "accepted calls");
    obs.label_if(counts.1 > 0, "rejected calls");
    obs.label_if(counts.1 > 2, "more than two rejected calls");
    // new nodes have other ids, signals may be added in a different order
    let bits = |v: &[Vec<f32>]| {
        v.iter()
            .map(|v| v.iter().map(|x| x.to_bits()).collect::<Vec<_>>())
            .collect::<Vec<_>>()
    };
    if bits(&out) != bits(&expect) {
        obs.label("not identical");
        let loud = peak(&expect);
        if !(loud < 1e6) {
            obs.label("too loud");
            return Ok(());
        }
        obs.comparisons += compare(
            "with and without rejected calls",
            &out,
            &to64(&expect),
            1e-6 * loud.max(1.) as f64,
            0.,
        )?;
    } else {
        obs.comparisons += (out.len() * out[0].len()) as u64;
    }
    for (i, (a, b)) in values.iter().zip(&expect_values).enumerate() {
        let ok = a.to_bits() == b.to_bits() || (a - b).abs() <= 1e-6 * b.abs().max(1.);
        ensure!(ok, "value {i} is {a} with, and {b} without rejected calls");
    }
    Ok(())
}

fn param_call() -> BoxedStrategy<ParamCall> {
    prop_oneof![
        3 => value().prop_map(ParamCall::Value),
        1 => (value(), time()).prop_map(|(v, t)| ParamCall::At(v, t)),
        1 => (value(), time()).prop_map(|(v, t)| ParamCall::Linear(v, t)),
        1 => (value(), time()).prop_map(|(v, t)| ParamCall::Exponential(v, t)),
        1 => (value(), time(), time()).prop_map(|(v, t, c)| ParamCall::Target(v, t, c)),
        1 => time().prop_map(ParamCall::Cancel),
        1 => time().prop_map(ParamCall::Hold),
        2 => (0usize..4, time(), time()).prop_map(|(n, t, c)| ParamCall::Curve(n, t, c)),
        2 => any::<bool>().prop_map(ParamCall::Rate),
    ]
    .boxed()
}

fn new() -> BoxedStrategy<New> {
    const RATES: &[f64] = &[3000., 768000., 0., -44100., 44100., 8000., 2999., 768001.];
    let decibels = || num(&[-100., -30., 0., -50.]);
    let fft = prop_oneof![
        3 => (0u32..18).prop_map(|k| 1usize << k),
        1 => prop::sample::select(vec![0, 33, 48, 1000, 32767, 65536, usize::MAX]),
    ];
    let unit = || num(&[0., 1., 0.5]);
    let small = || prop::option::weighted(0.7, 0usize..5);
    let coefs = || {
        prop_oneof![
            6 => prop::collection::vec(prop_oneof![1 => Just(64u8), 3 => any::<u8>()], 0..5),
            1 => prop::collection::vec(any::<u8>(), 18..24),
            1 => prop::collection::vec(Just(64u8), 1..4),
        ]
    };
    prop_oneof![
        value().prop_map(New::Gain),
        value().prop_map(New::Constant),
        (value(), value()).prop_map(|(a, b)| New::Biquad(a, b)),
        (0u8..5, value(), any::<bool>()).prop_map(|(a, b, c)| New::Oscillator(a, b, c)),
        (num(&[0., 0.1, 1., 180., 179.]), time()).prop_map(|(a, b)| {
            // long delay lines are expensive
            if (1.1..179.).contains(&a.get()) {
                return New::Delay(Num(0, 1.), b);
            }
            New::Delay(a, b)
        }),
        (coefs(), coefs()).prop_map(|(a, b)| New::Iir(a, b)),
        (fft, unit(), decibels(), decibels()).prop_map(|(a, b, c, d)| New::Analyser(a, b, c, d)),
        count().prop_map(New::Merger),
        count().prop_map(New::Splitter),
        (
            prop::sample::select(vec![0, 1, 255, 256, 257, 300, 512, 768, 1024, 16384, 32768]),
            prop_oneof![1 => Just(0), 3 => count()],
            prop_oneof![1 => Just(0), 3 => count()]
        )
            .prop_map(|(a, b, c)| New::Script(a, b, c)),
        (num(&[0., 1.]), num(&[0., 1.]), num(&[0., 1.]), unit())
            .prop_map(|(a, b, c, d)| New::Panner(a, b, c, d)),
        value().prop_map(New::StereoPanner),
        value().prop_map(New::Compressor),
        (1usize..6, prop::bool::weighted(0.8)).prop_map(|(a, b)| New::Convolver(a, b)),
        small().prop_map(New::Shaper),
        (value(), value()).prop_map(|(a, b)| New::BufferSource(a, b)),
        (0usize..3, 0usize..3, prop::collection::vec(count(), 0..3))
            .prop_map(|(a, b, c)| New::Worklet(a, b, c)),
        (small(), small()).prop_map(|(a, b)| New::Wave(a, b)),
        (count(), 0usize..3, num(RATES)).prop_map(|(a, b, c)| New::Context(a, b, c)),
        (count(), 0usize..3, num(RATES)).prop_map(|(a, b, c)| New::Buffer(a, b, c)),
        (
            prop_oneof![
                3 => (0usize..35, 1usize..3).prop_map(|(n, l)| vec![l; n]),
                1 => prop::collection::vec(1usize..3, 1..4),
            ],
            num(RATES)
        )
            .prop_map(|(a, b)| New::BufferFrom(a, b)),
    ]
    .boxed()
}

fn call() -> BoxedStrategy<Call> {
    let any_node = || 0..NODES.len();
    let inner = || 0..DESTINATION;
    let port = || prop_oneof![5 => 0usize..4, 1 => Just(usize::MAX), 1 => 4usize..40];
    let unit = || num(&[0., 1., 0.5]);
    prop_oneof![
        3 => (any_node(), count()).prop_map(|(a, b)| Call::Count(a, b)),
        3 => (any_node(), mode()).prop_map(|(a, b)| Call::Mode(a, b)),
        2 => (any_node(), any::<bool>()).prop_map(|(a, b)| Call::Speakers(a, b)),
        2 => (inner(), port(), any_node(), port()).prop_map(|(a, b, c, d)| Call::Connect(a, b, c, d)),
        1 => (inner(), port(), 0..PARAMS, port())
            .prop_map(|(a, b, c, d)| Call::ConnectParam(a, b, c, d)),
        1 => inner().prop_map(Call::ConnectForeign),
        2 => (
            inner(),
            prop::option::of(0usize..3),
            prop::option::of(0usize..3),
            prop_oneof![1 => Just(DESTINATION), 1 => any_node()]
        )
            .prop_map(|(a, o, i, b)| Call::Disconnect(a, o, i.filter(|_| o.is_some()), b)),
        1 => inner().prop_map(Call::DisconnectAll),
        1 => (inner(), port()).prop_map(|(a, b)| Call::DisconnectOutput(a, b)),
        1 => inner().prop_map(Call::DisconnectForeign),
        10 => (0..PARAMS, param_call()).prop_map(|(a, b)| Call::Param(a, b)),
        3 => (0usize..3, time()).prop_map(|(a, b)| Call::Start(a, b)),
        2 => (time(), time(), time()).prop_map(|(a, b, c)| Call::StartOffset(a, b, c)),
        3 => (0usize..3, time()).prop_map(|(a, b)| Call::Stop(a, b)),
        2 => any::<bool>().prop_map(Call::SourceBuffer),
        1 => prop_oneof![
            3 => (0u32..18).prop_map(|k| 1usize << k),
            1 => prop::sample::select(vec![0, 33, 48, 1000, 32767, 65536, usize::MAX]),
        ]
        .prop_map(Call::FftSize),
        1 => unit().prop_map(Call::Smoothing),
        1 => num(&[-100., -30., 0.]).prop_map(Call::MinDecibels),
        1 => num(&[-100., -30., 0.]).prop_map(Call::MaxDecibels),
        1 => unit().prop_map(Call::RefDistance),
        1 => num(&[0., 5., 10000.]).prop_map(Call::MaxDistance),
        1 => unit().prop_map(Call::Rolloff),
        1 => unit().prop_map(Call::ConeGain),
        1 => (0usize..4).prop_map(Call::ShaperCurve),
        2 => (1usize..6, prop::bool::weighted(0.8)).prop_map(|(a, b)| Call::Impulse(a, b)),
        2 => (0u8..5).prop_map(Call::OscillatorType),
        1 => (0usize..3, 0usize..3, 0usize..3, any::<bool>())
            .prop_map(|(a, b, c, d)| Call::Response(a, b, c, d)),
        2 => (0u8..6, prop_oneof![3 => 0usize..4, 1 => Just(usize::MAX)], 0usize..400)
            .prop_map(|(a, b, c)| Call::Buffer(a, b, c)),
        2 => prop_oneof![
            2 => (1i32..9).prop_map(|q| Num(0, (q * 128 - 64) as f64 / SR as f64)),
            1 => num(&[-0.1, -1e-9, 0.1, 0.0234375]),
        ]
        .prop_map(Call::Suspend),
        20 => (
            new(),
            prop_oneof![4 => Just(2), 1 => Just(1), 2 => count()],
            prop_oneof![2 => Just(Mode::ClampedMax), 1 => Just(Mode::Explicit), 1 => mode()],
            any::<bool>()
        )
            .prop_map(|(a, b, c, d)| Call::New(a, b, c, d)),
    ]
    .boxed()
}

fn strategy() -> BoxedStrategy<Case> {
    (
        1usize..4,
        prop::collection::vec(
            (prop_oneof![2 => Just(0), 3 => 1usize..QUANTA], call()),
            1..14,
        ),
        prop::option::of(0..PARAMS),
    )
        .prop_map(|(channels, mut calls, focus)| {
            for (_, call) in &mut calls {
                if let (Call::Param(p, _), Some(focus)) = (call, focus) {
                    *p = focus;
                }
            }
            Case { channels, calls }
        })
        .boxed()
}

/// Automation events in units of 8 frames
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Timeline {
    /// time since the end of the previous event, event, duration of a curve
    events: Vec<(usize, u8, usize)>,
    /// the order in which the events are scheduled
    order: Vec<u8>,
    /// the event that overlaps: before which one it is scheduled, the event that it overlaps with
    extra: (usize, usize, u8, usize, usize),
}

fn schedule(param: &AudioParam, kind: u8, at: usize, length: usize) {
    let time = |frames: usize| (frames * 8) as f64 / SR as f64;
    let t = time(at);
    let v = 0.25 + (at % 7) as f32 * 0.125;
    match kind % 6 {
        0 => param.set_value_at_time(v, t),
        1 => param.linear_ramp_to_value_at_time(v, t),
        2 => param.exponential_ramp_to_value_at_time(v, t),
        3 => param.set_target_at_time(v, t, 0.003),
        _ => param.set_value_curve_at_time(&[v, 0.1, v * 0.5], t, time(length)),
    };
}

fn overlap(c: &Timeline, obs: &mut Obs) -> CaseResult {
    let mut now = 0;
    let mut events = vec![];
    for (gap, kind, length) in &c.events {
        now += gap;
        events.push((now, *kind, *length));
        if kind % 6 > 3 {
            now += length;
        }
        now += 1;
    }
    let mut order: Vec<usize> = (0..events.len()).collect();
    order.sort_by_key(|i| c.order.get(*i).copied().unwrap_or(0));
    // an event inside a curve, or a curve around an event
    let (position, other, kind, a, b) = c.extra;
    let position = position % events.len();
    let (at, other_kind, length) = events[order[other % (position + 1)]];
    let (kind, at, length) = if other_kind % 6 > 3 && length >= 2 {
        let inside = at + 1 + a % (length - 1);
        obs.label("inside a curve");
        (kind, inside, 1 + b)
    } else if at > 0 {
        let before = 1 + a % at;
        obs.label("around an event");
        (4, at - before, before + 1 + b)
    } else {
        return Ok(());
    };
    // a curve from a curve's inside to beyond its end overlaps only if the start does, which the
    // rules do not say
    if kind % 6 > 3 && other_kind % 6 > 3 {
        return Ok(());
    }
    obs.nontrivial = true;
    let play = |extra: bool| -> Result<Vec<Vec<f32>>, String> {
        let mut ctx = offline(1, 8 * RQ, SR);
        let mut source = ctx.create_constant_source();
        source.start();
        let gain = ctx.create_gain();
        source.connect(&gain).connect(&ctx.destination());
        for (i, event) in order.iter().enumerate() {
            let (t, k, l) = events[*event];
            schedule(gain.gain(), k, t, l);
            if extra && i == position {
                // may be rejected now or later
                let _ = accepts(|| schedule(gain.gain(), kind, at, length));
            }
        }
        Ok(to_vecs(&ctx.start_rendering_sync()))
    };
    obs.comparisons += identical("with and without overlap", &play(true)?, &play(false)?)?;
    Ok(())
}

fn timeline() -> BoxedStrategy<Timeline> {
    (
        prop::collection::vec((0usize..20, any::<u8>(), 1usize..40), 1..6),
        prop::collection::vec(any::<u8>(), 0..6),
        (0usize..6, 0usize..6, any::<u8>(), 0usize..40, 0usize..40),
    )
        .prop_map(|(events, order, extra)| Timeline {
            events,
            order,
            extra,
        })
        .boxed()
}

pub fn run(r: &mut Runner) {
    r.rule = "calls of the constructors, setters, scheduling, automation and connection functions of all nodes, of buffers and contexts, with arguments at, next to, inside and outside the limits or not finite, before and while a graph with one node of each kind renders; whether a call is accepted is compared with the documented domain, all getters with the accepted calls, and the rendering with one in which the rejected calls were not made; overlap: an automation event inside a value curve, or a value curve around an event, must leave the rendering unchanged; non-trivial: a call was rejected or had to be".into();
    r.assumptions = vec![
        "what is not documented is not called: infinite distances and decibels, suspension at the current time, non-finite coefficients".into(),
        "the sum of several inputs may be computed in another order, 1e-6 of the loudest sample".into(),
    ];
    r.suite("overlap", 60_000, 600_000, timeline, overlap);
    r.suite("calls", 25_000, 200_000, strategy, check);
}
