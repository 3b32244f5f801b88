//! A small set of node kinds with an obviously correct quantum-by-quantum evaluator, and the
//! construction of the same graph in a real context.
#![allow(dead_code)]

use crate::mix;
use crate::util::*;
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;
use web_audio_api::context::*;
use web_audio_api::node::*;
use web_audio_api::AudioParam;

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum K {
    /// buffer source, plays from the start
    Src(Sig),
    /// constant source, plays from the start
    Const(f32),
    Gain {
        g: f32,
        count: usize,
        mode: Mode,
        speakers: bool,
    },
    /// wave shaper without oversampling
    Shaper(Vec<f32>),
    Split(usize),
    Merge(usize),
    /// mono delay by a number of frames, with room for at least 2 quanta more
    Delay(usize),
    Analyser,
    Dest(usize),
}

impl K {
    pub fn inputs(&self) -> usize {
        match self {
            K::Src(_) | K::Const(_) => 0,
            K::Merge(n) => *n,
            _ => 1,
        }
    }
    pub fn outputs(&self) -> usize {
        match self {
            K::Split(n) => *n,
            _ => 1,
        }
    }
    pub fn has_param(&self) -> bool {
        matches!(self, K::Gain { .. } | K::Const(_))
    }
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Port {
    In(usize),
    Param,
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Edge {
    pub from: usize,
    pub out: usize,
    pub to: usize,
    pub port: Port,
}

/// One block of audio: channels x 128. `silent`: no signal at all (layout irrelevant)
#[derive(Debug, Clone)]
pub struct Block {
    pub ch: Vec<Vec<f64>>,
    pub silent: bool,
}

impl Block {
    pub fn silence() -> Self {
        Block {
            ch: vec![vec![0.; RQ]],
            silent: true,
        }
    }
    pub fn is_zero(&self) -> bool {
        self.ch.iter().flatten().all(|v| v.abs() < 1e-37)
    }
    pub fn of(ch: Vec<Vec<f64>>) -> Self {
        Block { ch, silent: false }
    }
}

/// Evaluates a graph one quantum at a time
pub struct Model {
    pub nodes: Vec<K>,
    delay_lines: Vec<VecDeque<f64>>, // newest last
    /// delays that are or have been in a loop: they keep the minimum delay of one quantum
    looped: Vec<bool>,
    /// largest magnitude seen anywhere
    pub peak: f64,
    /// Whether a node that outputs only zeros counts as inactive (mono silence)
    pub lenient: bool,
}

fn same_block(a: &Block, b: &Block) -> bool {
    (a.is_zero() && b.is_zero()) || a.ch == b.ch
}

/// The destination's samples for connections that do not change. `None` if they depend on
/// whether nodes that output only zeros are considered active (which affects the number of
/// channels of their outputs, and which is not specified for every node).
pub fn evaluate(
    nodes: &[K],
    quanta: usize,
    edges: impl Fn(usize) -> Vec<Edge>,
) -> Option<(Vec<Vec<f64>>, f64)> {
    let mut strict = Model::new(nodes);
    let mut lenient = Model::new(nodes);
    lenient.lenient = true;
    let d = nodes.len() - 1;
    let K::Dest(ch) = nodes[d] else {
        unreachable!()
    };
    let mut expect = vec![vec![]; ch];
    for q in 0..quanta {
        let edges = edges(q);
        let a = strict.step(q, &edges);
        let b = lenient.step(q, &edges);
        if !a
            .iter()
            .flatten()
            .zip(b.iter().flatten())
            .all(|(a, b)| same_block(a, b))
        {
            return None;
        }
        let b = &a[d][0];
        for (c, e) in expect.iter_mut().enumerate() {
            e.extend(b.ch.get(c).cloned().unwrap_or(vec![0.; RQ]));
        }
    }
    Some((expect, strict.peak))
}

pub fn shape(curve: &[f32], x: f64) -> f64 {
    if curve.is_empty() {
        return 0.;
    }
    let n = curve.len();
    let v = (n - 1) as f64 / 2. * (x + 1.);
    if v <= 0. {
        curve[0] as f64
    } else if v >= (n - 1) as f64 {
        curve[n - 1] as f64
    } else {
        let k = v.floor();
        let f = v - k;
        let k = k as usize;
        (1. - f) * curve[k] as f64 + f * curve[k + 1] as f64
    }
}

impl Model {
    pub fn new(nodes: &[K]) -> Self {
        let delay_lines = nodes
            .iter()
            .map(|k| match k {
                K::Delay(f) => std::iter::repeat_n(0., f + 2 * RQ).collect(),
                _ => VecDeque::new(),
            })
            .collect();
        let looped = vec![false; nodes.len()];
        Self {
            nodes: nodes.to_vec(),
            delay_lines,
            looped,
            peak: 0.,
            lenient: false,
        }
    }

    /// Which nodes can reach themselves, using only some of the edges
    fn in_loop(&self, edges: &[Edge], use_edge: impl Fn(&Edge) -> bool) -> Vec<bool> {
        let n = self.nodes.len();
        let mut reach = vec![vec![false; n]; n];
        for e in edges.iter().filter(|e| use_edge(e)) {
            reach[e.from][e.to] = true;
        }
        for k in 0..n {
            for i in 0..n {
                if reach[i][k] {
                    for j in 0..n {
                        if reach[k][j] {
                            reach[i][j] = true;
                        }
                    }
                }
            }
        }
        (0..n).map(|i| reach[i][i]).collect()
    }

    /// Nodes in a loop that no delay node is part of (loops through delay nodes are cut at the
    /// delay)
    pub fn muted(&self, edges: &[Edge]) -> Vec<bool> {
        let delay = |i: usize| matches!(self.nodes[i], K::Delay(_));
        self.in_loop(edges, |e| !delay(e.from) && !delay(e.to))
    }

    /// Delays of less than a quantum whose only loops pass through muted nodes: it is not specified
    /// if the minimum delay applies to them
    pub fn unclear(&self, edges: &[Edge]) -> bool {
        let muted = self.muted(edges);
        let all = self.loops(edges);
        let clear = self.in_loop(edges, |e| !muted[e.from] && !muted[e.to]);
        (0..self.nodes.len())
            .any(|i| matches!(self.nodes[i], K::Delay(f) if f < RQ) && all[i] && !clear[i])
    }

    /// Nodes in any loop
    pub fn loops(&self, edges: &[Edge]) -> Vec<bool> {
        self.in_loop(edges, |_| true)
    }

    /// Evaluate quantum `q` with these connections; returns every node's outputs
    pub fn step(&mut self, q: usize, edges: &[Edge]) -> Vec<Vec<Block>> {
        let n = self.nodes.len();
        let muted = self.muted(edges);
        for (i, l) in self.loops(edges).into_iter().enumerate() {
            self.looped[i] |= l;
        }
        let mut out: Vec<Option<Vec<Block>>> = vec![None; n];
        // delays of at least one quantum do not depend on the current quantum
        for i in 0..n {
            if let K::Delay(f) = self.nodes[i] {
                let f = if self.looped[i] { f.max(RQ) } else { f };
                if f >= RQ {
                    let line = &self.delay_lines[i];
                    // output frame j = input frame j - f; line ends with input frame -1
                    let ch: Vec<f64> = (0..RQ).map(|j| line[line.len() + j - f]).collect();
                    let mut b = Block::of(vec![ch]);
                    b.silent = self.lenient && b.is_zero();
                    out[i] = Some(vec![b]);
                }
            }
            if muted[i] {
                out[i] = Some(vec![Block::silence(); self.nodes[i].outputs()]);
            }
        }
        let ins = |i: usize, port: Port, out: &Vec<Option<Vec<Block>>>| -> Option<Vec<Block>> {
            edges
                .iter()
                .filter(|e| e.to == i && e.port == port)
                .map(|e| out[e.from].as_ref().map(|o| o[e.out].clone()))
                .collect()
        };
        let mut pending: Vec<usize> = (0..n).collect();
        let mut written: Vec<Option<Vec<f64>>> = vec![None; n];
        loop {
            let before = pending.len();
            pending.retain(|&i| {
                let kind = self.nodes[i].clone();
                // all input ports available?
                let mut ports = vec![];
                for p in 0..kind.inputs() {
                    match ins(i, Port::In(p), &out) {
                        Some(v) => ports.push(v),
                        None => return true,
                    }
                }
                let param = match ins(i, Port::Param, &out) {
                    Some(v) => v,
                    None => return true,
                };
                let (count, mode, speakers) = match &kind {
                    K::Gain {
                        count,
                        mode,
                        speakers,
                        ..
                    } => (*count, *mode, *speakers),
                    K::Merge(_) => (1, Mode::Explicit, true),
                    K::Split(n) => (*n, Mode::Explicit, false),
                    K::Delay(_) => (1, Mode::Explicit, true),
                    K::Dest(n) => (*n, Mode::Explicit, true),
                    _ => (2, Mode::Max, true),
                };
                let mixed: Vec<Block> = ports
                    .iter()
                    .map(|sigs| {
                        if sigs.is_empty() {
                            return Block::silence();
                        }
                        let silent = sigs.iter().all(|b| b.silent);
                        let layouts: Vec<Vec<Vec<f64>>> =
                            sigs.iter().map(|b| b.ch.clone()).collect();
                        Block {
                            ch: mix::junction(&layouts, count, mode, speakers),
                            silent,
                        }
                    })
                    .collect();
                let modulation: Vec<f64> = if param.is_empty() {
                    vec![0.; RQ]
                } else {
                    let layouts: Vec<Vec<Vec<f64>>> = param.iter().map(|b| b.ch.clone()).collect();
                    mix::junction(&layouts, 1, Mode::Explicit, true)[0].clone()
                };
                let o = match &kind {
                    K::Src(sig) => {
                        let start = q * RQ;
                        if start >= sig.len {
                            vec![Block::silence()]
                        } else {
                            vec![Block::of(
                                (0..sig.channels)
                                    .map(|c| (0..RQ).map(|j| sig.at(c, start + j) as f64).collect())
                                    .collect(),
                            )]
                        }
                    }
                    K::Const(v) => vec![Block::of(vec![modulation
                        .iter()
                        .map(|m| *v as f64 + m)
                        .collect()])],
                    K::Gain { g, .. } => {
                        let b = &mixed[0];
                        if b.silent {
                            vec![Block::silence()]
                        } else {
                            vec![Block::of(
                                b.ch.iter()
                                    .map(|c| {
                                        c.iter()
                                            .zip(&modulation)
                                            .map(|(x, m)| x * (*g as f64 + m))
                                            .collect()
                                    })
                                    .collect(),
                            )]
                        }
                    }
                    K::Shaper(curve) => vec![Block::of(
                        mixed[0]
                            .ch
                            .iter()
                            .map(|c| c.iter().map(|x| shape(curve, *x)).collect())
                            .collect(),
                    )],
                    K::Analyser => vec![mixed[0].clone()],
                    K::Split(n) => (0..*n)
                        .map(|c| match mixed[0].ch.get(c) {
                            Some(d) if !mixed[0].silent => {
                                // channels beyond those really present are silence
                                let present =
                                    ports[0].iter().map(|b| b.ch.len()).max().unwrap_or(0);
                                if c < present {
                                    Block::of(vec![d.clone()])
                                } else {
                                    Block::silence()
                                }
                            }
                            _ => Block::silence(),
                        })
                        .collect(),
                    K::Merge(_) => {
                        if mixed.iter().all(|b| b.silent) {
                            vec![Block::silence()]
                        } else {
                            vec![Block::of(mixed.iter().map(|b| b.ch[0].clone()).collect())]
                        }
                    }
                    K::Delay(f) => {
                        written[i] = Some(mixed[0].ch[0].clone());
                        match &out[i] {
                            Some(o) => o.clone(),
                            None => {
                                let line = &self.delay_lines[i];
                                let cur = &mixed[0].ch[0];
                                let ch = (0..RQ)
                                    .map(|j| {
                                        if j >= *f {
                                            cur[j - f]
                                        } else {
                                            line[line.len() + j - f]
                                        }
                                    })
                                    .collect();
                                vec![Block::of(vec![ch])]
                            }
                        }
                    }
                    K::Dest(_) => vec![mixed[0].clone()],
                };
                if !muted[i] {
                    let mut o = o;
                    if self.lenient {
                        for b in o.iter_mut() {
                            if b.is_zero() {
                                *b = Block::silence();
                            }
                        }
                    }
                    out[i] = Some(o);
                }
                false
            });
            if pending.is_empty() {
                break;
            }
            assert!(pending.len() < before, "reference evaluation is stuck");
        }
        for i in 0..n {
            if let (K::Delay(_), Some(w)) = (&self.nodes[i], &written[i]) {
                for v in w {
                    self.delay_lines[i].push_back(*v);
                    self.delay_lines[i].pop_front();
                }
            }
        }
        let out: Vec<Vec<Block>> = out.into_iter().map(|o| o.unwrap()).collect();
        for b in out.iter().flatten() {
            self.peak = self.peak.max(peak64(&b.ch));
        }
        out
    }
}

/// A node of a real context
pub struct Real {
    pub node: Box<dyn AudioNode + Send + Sync>,
    pub param: Option<AudioParam>,
}

pub fn build<C: BaseAudioContext>(ctx: &C, k: &K) -> Real {
    let sr = ctx.sample_rate();
    match k {
        K::Src(sig) => Real {
            node: Box::new(play(ctx, sig.buffer(sr), 0)),
            param: None,
        },
        K::Const(v) => {
            let mut n = ConstantSourceNode::new(ctx, ConstantSourceOptions { offset: *v });
            n.start();
            let p = n.offset().clone();
            Real {
                node: Box::new(n),
                param: Some(p),
            }
        }
        K::Gain {
            g,
            count,
            mode,
            speakers,
        } => {
            let n = GainNode::new(
                ctx,
                GainOptions {
                    gain: *g,
                    audio_node_options: node_opts(*count, *mode, *speakers),
                },
            );
            let p = n.gain().clone();
            Real {
                node: Box::new(n),
                param: Some(p),
            }
        }
        K::Shaper(curve) => Real {
            node: Box::new(WaveShaperNode::new(
                ctx,
                WaveShaperOptions {
                    curve: Some(curve.clone()),
                    ..Default::default()
                },
            )),
            param: None,
        },
        K::Split(n) => Real {
            node: Box::new(ctx.create_channel_splitter(*n)),
            param: None,
        },
        K::Merge(n) => Real {
            node: Box::new(ctx.create_channel_merger(*n)),
            param: None,
        },
        K::Delay(f) => {
            let dt = *f as f64 / sr as f64;
            let n = DelayNode::new(
                ctx,
                DelayOptions {
                    max_delay_time: (f + 2 * RQ) as f64 / sr as f64,
                    delay_time: dt,
                    audio_node_options: node_opts(1, Mode::Explicit, true),
                },
            );
            Real {
                node: Box::new(n),
                param: None,
            }
        }
        K::Analyser => Real {
            node: Box::new(ctx.create_analyser()),
            param: None,
        },
        K::Dest(_) => Real {
            node: Box::new(ctx.destination()),
            param: None,
        },
    }
}

pub fn connect(nodes: &[Real], e: &Edge) {
    connect_to(&nodes[e.from], &nodes[e.to], e)
}

pub fn connect_to(from: &Real, to: &Real, e: &Edge) {
    match e.port {
        Port::In(i) => {
            from.node.connect_from_output_to_input(&*to.node, e.out, i);
        }
        Port::Param => {
            from.node
                .connect_from_output_to_input(to.param.as_ref().unwrap(), e.out, 0);
        }
    }
}

pub fn disconnect(nodes: &[Real], e: &Edge) {
    let (from, to) = (&nodes[e.from], &nodes[e.to]);
    match e.port {
        Port::In(i) => from
            .node
            .disconnect_dest_from_output_to_input(&*to.node, e.out, i),
        Port::Param => {
            from.node
                .disconnect_dest_from_output_to_input(to.param.as_ref().unwrap(), e.out, 0)
        }
    }
}
