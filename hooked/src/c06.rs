//! C06: finished and unreachable nodes are reclaimed, live ones never are
use crate::live::*;
use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::sync::Mutex;
use web_audio_api::context::*;
use web_audio_api::node::*;
use web_audio_api::*;

const SR: f32 = 8000.;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Kind {
    Constant,
    Oscillator,
    /// length in frames, zero: no buffer
    Buffer(usize),
    Gain,
    Biquad,
    Iir,
    /// frames
    Delay(usize),
    Convolver(usize),
    Compressor,
    Panner(bool),
    Stereo,
    /// oversampling
    Shaper(u8),
    Merger,
    Splitter,
    Analyser,
    StreamDestination,
}

impl Kind {
    fn source(self) -> bool {
        matches!(self, Kind::Constant | Kind::Oscillator | Kind::Buffer(_))
    }
    fn inputs(self) -> usize {
        match self {
            k if k.source() => 0,
            Kind::Merger => 3,
            _ => 1,
        }
    }
    fn outputs(self) -> usize {
        match self {
            Kind::Splitter => 3,
            Kind::StreamDestination => 0,
            _ => 1,
        }
    }
    /// the kind with the same nodes in the render graph
    fn class(self) -> Kind {
        match self {
            Kind::Buffer(_) => Kind::Buffer(1),
            Kind::Delay(_) => Kind::Delay(1),
            Kind::Convolver(_) => Kind::Convolver(1),
            Kind::Shaper(_) => Kind::Shaper(0),
            Kind::Panner(_) => Kind::Panner(false),
            k => k,
        }
    }
}

enum Handle {
    Constant(ConstantSourceNode),
    Oscillator(OscillatorNode),
    Buffer(AudioBufferSourceNode),
    Gain(GainNode),
    Biquad(BiquadFilterNode),
    Delay(DelayNode),
    Compressor(DynamicsCompressorNode),
    Panner(Box<PannerNode>),
    Stereo(StereoPannerNode),
    Other(Box<dyn AudioNode>),
}

impl Handle {
    fn audio(&self) -> &dyn AudioNode {
        match self {
            Handle::Constant(n) => n,
            Handle::Oscillator(n) => n,
            Handle::Buffer(n) => n,
            Handle::Gain(n) => n,
            Handle::Biquad(n) => n,
            Handle::Delay(n) => n,
            Handle::Compressor(n) => n,
            Handle::Panner(n) => n.as_ref(),
            Handle::Stereo(n) => n,
            Handle::Other(n) => n.as_ref(),
        }
    }
    fn param(&self) -> Option<&AudioParam> {
        Some(match self {
            Handle::Constant(n) => n.offset(),
            Handle::Oscillator(n) => n.frequency(),
            Handle::Buffer(n) => n.detune(),
            Handle::Gain(n) => n.gain(),
            Handle::Delay(n) => n.delay_time(),
            Handle::Stereo(n) => n.pan(),
            Handle::Panner(n) => n.position_x(),
            _ => return None,
        })
    }
    fn start(&mut self, t: f64) {
        match self {
            Handle::Constant(n) => n.start_at(t),
            Handle::Oscillator(n) => n.start_at(t),
            Handle::Buffer(n) => n.start_at(t),
            _ => unreachable!(),
        }
    }
    fn stop(&mut self, t: f64) {
        match self {
            Handle::Constant(n) => n.stop_at(t),
            Handle::Oscillator(n) => n.stop_at(t),
            Handle::Buffer(n) => n.stop_at(t),
            _ => unreachable!(),
        }
    }
}

fn build(ctx: &AudioContext, kind: Kind) -> Handle {
    match kind {
        Kind::Constant => Handle::Constant(ctx.create_constant_source()),
        Kind::Oscillator => Handle::Oscillator(ctx.create_oscillator()),
        Kind::Buffer(n) => {
            let mut src = ctx.create_buffer_source();
            if n > 0 {
                src.set_buffer(AudioBuffer::from(vec![vec![0.5; n]; 1 + n % 2], SR));
            }
            Handle::Buffer(src)
        }
        Kind::Gain => Handle::Gain(ctx.create_gain()),
        Kind::Biquad => {
            let n = ctx.create_biquad_filter();
            n.frequency().set_value(1500.);
            Handle::Biquad(n)
        }
        Kind::Iir => Handle::Other(Box::new(
            ctx.create_iir_filter(vec![1., 0.5], vec![1., 0.3]),
        )),
        Kind::Delay(n) => {
            let n = n as f64 / SR as f64;
            let node = ctx.create_delay(n + 0.001);
            node.delay_time().set_value(n as f32);
            Handle::Delay(node)
        }
        Kind::Convolver(n) => {
            let mut node = ctx.create_convolver();
            node.set_buffer(AudioBuffer::from(vec![vec![0.1; n]], SR));
            Handle::Other(Box::new(node))
        }
        Kind::Compressor => Handle::Compressor(ctx.create_dynamics_compressor()),
        Kind::Panner(hrtf) => {
            let mut node = ctx.create_panner();
            if hrtf {
                node.set_panning_model(PanningModelType::HRTF);
            }
            Handle::Panner(Box::new(node))
        }
        Kind::Stereo => Handle::Stereo(ctx.create_stereo_panner()),
        Kind::Shaper(o) => {
            let mut node = ctx.create_wave_shaper();
            node.set_curve(vec![-0.5, 0., 0.5]);
            node.set_oversample(match o % 3 {
                0 => OverSampleType::None,
                1 => OverSampleType::X2,
                _ => OverSampleType::X4,
            });
            Handle::Other(Box::new(node))
        }
        Kind::Merger => Handle::Other(Box::new(ctx.create_channel_merger(3))),
        Kind::Splitter => Handle::Other(Box::new(ctx.create_channel_splitter(3))),
        Kind::Analyser => Handle::Other(Box::new(ctx.create_analyser())),
        Kind::StreamDestination => Handle::Other(Box::new(ctx.create_media_stream_destination())),
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    Create(Kind),
    /// from, output, to (or the destination), input
    Connect(u16, u16, u16, u16),
    Modulate(u16, u16, u16),
    Disconnect(u16),
    /// source, frames from now
    Start(u16, u16),
    Stop(u16, u16),
    Drop(u16),
    Render(u8),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    ops: Vec<Op>,
    /// handles that are kept at the end: bits
    keep: u32,
}

fn kind() -> BoxedStrategy<Kind> {
    prop_oneof![
        3 => Just(Kind::Constant),
        3 => Just(Kind::Oscillator),
        3 => (0usize..600).prop_map(Kind::Buffer),
        4 => Just(Kind::Gain),
        1 => Just(Kind::Biquad),
        1 => Just(Kind::Iir),
        2 => (0usize..500).prop_map(Kind::Delay),
        1 => (1usize..500).prop_map(Kind::Convolver),
        1 => Just(Kind::Compressor),
        1 => prop::bool::weighted(0.1).prop_map(Kind::Panner),
        1 => Just(Kind::Stereo),
        1 => (0u8..3).prop_map(Kind::Shaper),
        1 => Just(Kind::Merger),
        1 => Just(Kind::Splitter),
        1 => Just(Kind::Analyser),
        1 => Just(Kind::StreamDestination),
    ]
    .boxed()
}

fn strategy() -> BoxedStrategy<Case> {
    let op = prop_oneof![
        4 => kind().prop_map(Op::Create),
        6 => (any::<u16>(), any::<u16>(), any::<u16>(), any::<u16>())
            .prop_map(|(a, b, c, d)| Op::Connect(a, b, c, d)),
        1 => (any::<u16>(), any::<u16>(), any::<u16>()).prop_map(|(a, b, c)| Op::Modulate(a, b, c)),
        1 => any::<u16>().prop_map(Op::Disconnect),
        3 => (any::<u16>(), 0u16..600).prop_map(|(n, t)| Op::Start(n, t)),
        2 => (any::<u16>(), 0u16..900).prop_map(|(n, t)| Op::Stop(n, t)),
        4 => any::<u16>().prop_map(Op::Drop),
        3 => (0u8..8).prop_map(Op::Render),
    ];
    (
        prop::collection::vec(op, 1..40),
        prop_oneof![1 => Just(0u32), 2 => any::<u32>(), 1 => (any::<u32>(), any::<u32>()).prop_map(|(a, b)| a & b)],
    )
        .prop_map(|(ops, keep)| Case { ops, keep })
        .boxed()
}

#[derive(Clone)]
struct Model {
    kind: Kind,
    live: bool,
    /// start and stop, in frames
    start: Option<usize>,
    stop: Option<usize>,
    /// target, or the destination; connections to parameters, too
    edges: Vec<Option<usize>>,
    /// those that carry audio
    audio: Vec<Option<usize>>,
}

impl Model {
    fn end(&self) -> Option<usize> {
        let start = self.start?;
        let natural = match self.kind {
            Kind::Buffer(0) => 0,
            Kind::Buffer(n) => start + n + 1,
            _ => usize::MAX,
        };
        Some(natural.min(self.stop.unwrap_or(usize::MAX)))
    }
    /// sounds forever
    fn plays(&self) -> bool {
        self.end() == Some(usize::MAX)
    }
}

/// Nodes that have to be and nodes that may be in the graph when all tails are over
fn bounds(nodes: &[Model]) -> (Vec<bool>, Vec<bool>) {
    let n = nodes.len();
    // something downstream may still use the output; edges lead forward
    let mut useful = vec![false; n];
    let mut heard = vec![false; n];
    for i in (0..n).rev() {
        useful[i] = nodes[i].live
            || matches!(nodes[i].kind, Kind::Delay(_) | Kind::StreamDestination)
            || nodes[i].edges.iter().any(|e| e.map_or(true, |j| useful[j]));
        heard[i] = nodes[i].audio.iter().any(|e| e.map_or(true, |j| heard[j]));
    }
    let mut may = vec![false; n];
    let mut must = vec![false; n];
    for i in 0..n {
        if nodes[i].live {
            must[i] = true;
        } else {
            must[i] = (must[i] || nodes[i].plays()) && heard[i];
        }
        may[i] |= nodes[i].plays();
        may[i] = nodes[i].live || (may[i] && useful[i]);
        for e in nodes[i].edges.iter().flatten() {
            may[*e] |= may[i];
        }
        // fed by a node that stays
        for e in nodes[i].audio.iter().flatten() {
            must[*e] |= must[i];
        }
    }
    (must, may)
}

/// A context whose listener is part of the graph already, it is added with the first panner
fn open_graph() -> Live {
    let mut live = open(SR, 2);
    drop(live.ctx.create_panner());
    live.quanta(8);
    live
}

/// Nodes of the render graph per node, measured once
fn cost(kind: Kind) -> usize {
    static COSTS: Mutex<Option<HashMap<Kind, usize>>> = Mutex::new(None);
    let kind = kind.class();
    if let Some(c) = COSTS
        .lock()
        .unwrap()
        .get_or_insert_default()
        .get(&kind)
        .copied()
    {
        return c;
    }
    let mut live = open_graph();
    let before = live.report().graph.node_count;
    let _node = build(&live.ctx, kind);
    live.quanta(1);
    let c = live.report().graph.node_count - before;
    COSTS
        .lock()
        .unwrap()
        .get_or_insert_default()
        .insert(kind, c);
    c
}

/// Quanta after which all tails are over
const TAIL: usize = 400;

fn check(case: &Case, obs: &mut Obs) -> CaseResult {
    let mut live = open_graph();
    let base = live.report().graph.node_count;
    let mut nodes: Vec<Model> = vec![];
    let mut handles: Vec<Option<Handle>> = vec![];
    let mut messages = 0;
    let mut freed_early = 0;
    // what has handles has to be there at any time
    let verify_live = |live: &mut Live, nodes: &[Model], when: &str| -> Result<(), String> {
        let report = live.report();
        let expect: usize = nodes.iter().filter(|m| m.live).map(|m| cost(m.kind)).sum();
        let kept = report
            .graph
            .nodes
            .iter()
            .filter(|n| !n.control_handle_dropped)
            .count();
        ensure!(
            kept == base + expect,
            "{when}: the handles that are alive stand for {} nodes of the graph, but {kept} are in it",
            base + expect
        );
        ensure!(
            report.graph.nodes.len() == report.graph.node_count,
            "{when}: node count {} of a list of {}",
            report.graph.node_count,
            report.graph.nodes.len()
        );
        Ok(())
    };
    for (k, op) in case.ops.iter().enumerate() {
        let total = nodes.len();
        // the channel to the render thread has room for 256 messages
        messages += match op {
            Op::Create(_) => 40,
            Op::Drop(_) | Op::Disconnect(_) => 20,
            _ => 3,
        };
        if messages > 200 {
            live.quanta(1);
            messages = 0;
        }
        let now = live.frames;
        match op {
            Op::Create(kind) => {
                handles.push(Some(build(&live.ctx, *kind)));
                nodes.push(Model {
                    kind: *kind,
                    live: true,
                    start: None,
                    stop: None,
                    edges: vec![],
                    audio: vec![],
                });
            }
            Op::Render(n) => {
                live.quanta(*n as usize);
                verify_live(&mut live, &nodes, &format!("operation {k}"))?;
                messages = 0;
            }
            _ if total == 0 => (),
            Op::Connect(from, out, to, input) => {
                let i = *from as usize % total;
                let Some(h) = &handles[i] else { continue };
                if nodes[i].kind.outputs() == 0 {
                    continue;
                }
                let out = *out as usize % nodes[i].kind.outputs();
                let mut targets: Vec<Option<usize>> = (i + 1..total)
                    .filter(|j| handles[*j].is_some() && nodes[*j].kind.inputs() > 0)
                    .map(Some)
                    .collect();
                targets.push(None);
                let target = targets[*to as usize % targets.len()];
                match target {
                    None => {
                        h.audio()
                            .connect_from_output_to_input(&live.ctx.destination(), out, 0);
                    }
                    Some(j) => {
                        h.audio().connect_from_output_to_input(
                            handles[j].as_ref().unwrap().audio(),
                            out,
                            *input as usize % nodes[j].kind.inputs(),
                        );
                    }
                }
                nodes[i].edges.push(target);
                nodes[i].audio.push(target);
            }
            Op::Modulate(from, out, to) => {
                let i = *from as usize % total;
                let Some(h) = &handles[i] else { continue };
                if nodes[i].kind.outputs() == 0 {
                    continue;
                }
                let out = *out as usize % nodes[i].kind.outputs();
                let targets: Vec<usize> = (i + 1..total)
                    .filter(|j| handles[*j].as_ref().is_some_and(|h| h.param().is_some()))
                    .collect();
                if targets.is_empty() {
                    continue;
                }
                let j = targets[*to as usize % targets.len()];
                let param = handles[j].as_ref().unwrap().param().unwrap();
                h.audio().connect_from_output_to_input(param, out, 0);
                nodes[i].edges.push(Some(j));
            }
            Op::Disconnect(n) => {
                let i = *n as usize % total;
                if let Some(h) = &handles[i] {
                    h.audio().disconnect();
                    nodes[i].edges.clear();
                    nodes[i].audio.clear();
                }
            }
            Op::Start(n, t) | Op::Stop(n, t) => {
                let stop = matches!(op, Op::Stop(..));
                let usable: Vec<usize> = (0..total)
                    .filter(|i| {
                        nodes[*i].live
                            && nodes[*i].kind.source()
                            && nodes[*i].start.is_some() == stop
                    })
                    .collect();
                if usable.is_empty() {
                    continue;
                }
                let i = usable[*n as usize % usable.len()];
                let at = now + *t as usize;
                let h = handles[i].as_mut().unwrap();
                if stop {
                    h.stop(at as f64 / SR as f64);
                    nodes[i].stop = Some(at);
                } else {
                    h.start(at as f64 / SR as f64);
                    nodes[i].start = Some(at);
                }
            }
            Op::Drop(n) => {
                let i = *n as usize % total;
                handles[i] = None;
                freed_early += usize::from(nodes[i].live);
                nodes[i].live = false;
            }
        }
    }
    live.quanta(1);
    for (i, h) in handles.iter_mut().enumerate() {
        if case.keep >> (i % 32) & 1 == 0 {
            *h = None;
            nodes[i].live = false;
            if i % 8 == 7 {
                live.quanta(1);
            }
        }
    }
    let end = nodes
        .iter()
        .filter_map(|m| m.end())
        .filter(|e| *e < usize::MAX)
        .max()
        .unwrap_or(0);
    live.quanta(end.saturating_sub(live.frames).div_ceil(RQ) + TAIL);
    verify_live(&mut live, &nodes, "at the end")?;
    let (must, may) = bounds(&nodes);
    let sum = |v: &[bool]| -> usize {
        nodes
            .iter()
            .zip(v)
            .filter(|(_, b)| **b)
            .map(|(m, _)| cost(m.kind))
            .sum()
    };
    let report = live.report();
    let count = report.graph.node_count - base;
    let (low, high) = (sum(&must), sum(&may));
    let names = || {
        let mut v: Vec<String> = report
            .graph
            .nodes
            .iter()
            .filter(|n| n.control_handle_dropped)
            .map(|n| n.processor.clone())
            .collect();
        v.sort();
        v.join(", ")
    };
    ensure!(
        count <= high,
        "{count} nodes of the graph when everything is over, at most {high} have a use; without handle: {}",
        names()
    );
    ensure!(
        count >= low,
        "{count} nodes of the graph, but {low} are in use; without handle: {}",
        names()
    );
    let gone = may.iter().filter(|m| !**m).count();
    obs.nontrivial_if(gone > 0 && nodes.len() > 2);
    obs.label_if(may.iter().any(|m| *m), "some stay");
    obs.label_if(
        must.iter().zip(&nodes).any(|(m, n)| *m && !n.live),
        "plays without handles",
    );
    obs.label_if(low == high, "exact");
    obs.label_if(freed_early > 0, "dropped early");
    obs.comparisons += 2;
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Churn {
    kinds: Vec<Kind>,
    /// connect to the next one and the last one to the destination
    connect: bool,
    start: bool,
    rounds: usize,
    quanta: usize,
}

fn churn_strategy() -> BoxedStrategy<Churn> {
    (
        prop::collection::vec(kind(), 1..6),
        any::<bool>(),
        any::<bool>(),
        20usize..80,
        1usize..4,
    )
        .prop_map(|(kinds, connect, start, rounds, quanta)| Churn {
            kinds,
            connect,
            start,
            rounds,
            quanta,
        })
        .boxed()
}

/// A context that creates and drops nodes all the time does not grow
fn churn(case: &Churn, obs: &mut Obs) -> CaseResult {
    let mut live = open_graph();
    let first = live.report().graph;
    let base = first.node_count;
    let top = |g: &AudioGraphDiagnostics| g.nodes.iter().map(|n| n.id).max().unwrap_or(0);
    let per_round: usize = case.kinds.iter().map(|k| cost(*k)).sum();
    let mut worst = 0;
    let mut settled = 0;
    for round in 0..case.rounds {
        {
            let mut nodes: Vec<Handle> = case.kinds.iter().map(|k| build(&live.ctx, *k)).collect();
            if case.connect {
                for i in 0..nodes.len() {
                    if case.kinds[i].outputs() == 0 {
                        continue;
                    }
                    match nodes.get(i + 1) {
                        Some(n) if case.kinds[i + 1].inputs() > 0 => {
                            nodes[i].audio().connect(n.audio());
                        }
                        _ => {
                            nodes[i].audio().connect(&live.ctx.destination());
                        }
                    }
                }
            }
            if case.start {
                let now = live.ctx.current_time();
                for (n, k) in nodes.iter_mut().zip(&case.kinds) {
                    if k.source() {
                        n.start(now);
                        n.stop(now + 0.01);
                    }
                }
            }
            live.quanta(case.quanta);
        }
        live.quanta(case.quanta);
        let g = live.report().graph;
        worst = worst.max(g.node_count - base);
        if round + 1 == case.rounds {
            live.quanta(TAIL);
            settled = live.report().graph.node_count - base;
        }
        // identifiers are recycled: no more than were in use at the same time, and some on the way
        let limit = top(&first) as usize + 2 * worst + 2 * per_round + 64;
        ensure!(
            (top(&g) as usize) < limit,
            "identifier {} in round {round} although there were never more than {worst} nodes",
            top(&g)
        );
    }
    ensure!(
        settled == 0,
        "{settled} nodes are left over after {} rounds",
        case.rounds
    );
    // tails of a few seconds at most
    let limit = per_round * (TAIL / case.quanta / 2 + 2);
    ensure!(
        worst <= limit,
        "{worst} nodes at the same time, {per_round} per round of {} quanta",
        2 * case.quanta
    );
    obs.nontrivial_if(per_round * case.rounds > 200);
    obs.label_if(case.connect && case.start, "used");
    obs.comparisons += case.rounds as u64;
    Ok(())
}

pub fn run(r: &mut Runner) {
    r.rule = "histories: more than two nodes, some of which have to be reclaimed; churn: more than 200 nodes of the graph were created".into();
    r.assumptions = vec![
        "observed through the diagnostic report of a live context whose audio callback is called by the test".into(),
        format!("tails of the generated nodes are over after {TAIL} render quanta"),
        "connections lead forward: no feedback loops".into(),
    ];
    r.suite("histories", 60_000, 500_000, strategy, check);
    r.suite("churn", 4_000, 30_000, churn_strategy, churn);
}
