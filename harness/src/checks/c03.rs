//! C03: connect and disconnect histories
use super::c01::{gain, source, tolerance};
use crate::refgraph::*;
use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::sync::{Arc, Mutex};
use web_audio_api::context::*;

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
enum Op {
    Connect(Edge),
    /// everything
    Disconnect(usize),
    /// one destination: node, destination, its parameter instead of itself
    Dest(usize, usize, bool),
    Output(usize, usize),
    DestFromOutput(usize, usize, bool, usize),
    /// one output to one input
    Exact(Edge),
    /// drop the handle of a node
    Drop(usize),
    /// connect to a node of another context
    Foreign(usize),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    nodes: Vec<K>,
    /// per quantum: operations just before it is rendered
    ops: Vec<Vec<Op>>,
}

fn kind(quanta: usize) -> BoxedStrategy<K> {
    prop_oneof![
        3 => source(quanta),
        5 => gain(),
        2 => (1usize..5).prop_map(K::Split),
        2 => (1usize..5).prop_map(K::Merge),
        1 => (0usize..300).prop_map(K::Delay),
        1 => Just(K::Analyser),
    ]
    .boxed()
}

type Raw = (u8, u16, u16, u16, u16, bool);

/// Turn raw numbers into an operation; nearly always one that makes sense
fn resolve(nodes: &[K], live: &BTreeSet<Edge>, dropped: &[bool], raw: Raw) -> Option<Op> {
    let (kind, a, b, c, d, param) = raw;
    let n = nodes.len();
    let from = a as usize % (n - 1);
    if dropped[from] {
        return None;
    }
    let some = |only: &dyn Fn(&&Edge) -> bool| -> Option<Edge> {
        let v: Vec<&Edge> = live
            .iter()
            .filter(|e| !dropped[e.from] && !dropped[e.to])
            .filter(only)
            .collect();
        if v.is_empty() {
            None
        } else {
            Some(*v[b as usize % v.len()])
        }
    };
    let arbitrary = || -> Option<Edge> {
        let to = from + 1 + b as usize % (n - 1 - from);
        if dropped[to] {
            return None;
        }
        let k = &nodes[to];
        let port = if k.has_param() && (param || k.inputs() == 0) {
            Port::Param
        } else if k.inputs() > 0 {
            // sometimes out of range
            Port::In(if d % 16 == 0 {
                k.inputs() + d as usize / 16 % 2
            } else {
                d as usize % k.inputs()
            })
        } else {
            // sources without a parameter: any port is out of range
            Port::In(0)
        };
        let outs = nodes[from].outputs();
        let out = if c % 16 == 0 {
            outs + c as usize / 16 % 2
        } else {
            c as usize % outs
        };
        Some(Edge {
            from,
            out,
            to,
            port,
        })
    };
    // mostly edges that exist
    let existing = || {
        if d % 5 == 4 {
            arbitrary()
        } else {
            some(&|_| true).or_else(arbitrary)
        }
    };
    match kind % 20 {
        0..=9 => arbitrary().map(Op::Connect),
        10 => existing().map(Op::Connect),
        11 => Some(Op::Disconnect(from)),
        12 | 13 => existing().map(|e| Op::Dest(e.from, e.to, e.port == Port::Param)),
        14 => existing().map(|e| Op::Output(e.from, e.out)),
        15 => existing().map(|e| Op::DestFromOutput(e.from, e.to, e.port == Port::Param, e.out)),
        16 | 17 => existing().map(Op::Exact),
        18 => match nodes[from] {
            K::Gain { .. } | K::Merge(_) | K::Split(_) | K::Analyser => Some(Op::Drop(from)),
            _ => None,
        },
        _ => Some(Op::Foreign(from)),
    }
}

/// What the operation does to the set of connections; None: rejected
fn apply(nodes: &[K], live: &mut BTreeSet<Edge>, op: &Op) -> Option<usize> {
    let port_ok = |e: &Edge| match e.port {
        Port::In(i) => i < nodes[e.to].inputs(),
        Port::Param => true,
    };
    let remove = |live: &mut BTreeSet<Edge>, f: &dyn Fn(&Edge) -> bool| -> usize {
        let before = live.len();
        live.retain(|e| !f(e));
        before - live.len()
    };
    match *op {
        Op::Connect(e) => {
            if e.out >= nodes[e.from].outputs() || !port_ok(&e) {
                return None;
            }
            Some(live.insert(e) as usize)
        }
        Op::Disconnect(n) => Some(remove(live, &|e| e.from == n)),
        Op::Output(n, o) => {
            if o >= nodes[n].outputs() {
                return None;
            }
            Some(remove(live, &|e| e.from == n && e.out == o))
        }
        Op::Dest(n, to, param) => {
            let c = remove(live, &|e| {
                e.from == n && e.to == to && (e.port == Port::Param) == param
            });
            (c > 0).then_some(c)
        }
        Op::DestFromOutput(n, to, param, o) => {
            let c = remove(live, &|e| {
                e.from == n && e.out == o && e.to == to && (e.port == Port::Param) == param
            });
            (c > 0).then_some(c)
        }
        Op::Exact(x) => {
            let c = remove(live, &|e| *e == x);
            (c > 0).then_some(c)
        }
        Op::Drop(_) => Some(0),
        Op::Foreign(_) => None,
    }
}

fn strategy() -> BoxedStrategy<Case> {
    let raw = (
        any::<u8>(),
        any::<u16>(),
        any::<u16>(),
        any::<u16>(),
        any::<u16>(),
        prop::bool::weighted(0.2),
    );
    (2usize..7)
        .prop_flat_map(move |quanta| {
            (
                source(quanta),
                prop::collection::vec(kind(quanta), 1..7),
                channels_small(),
                prop::collection::vec(raw.clone(), 4..16),
                prop::collection::vec(prop::collection::vec(raw.clone(), 0..6), quanta - 1),
            )
        })
        .prop_map(|(first, rest, dest, start, later)| {
            let mut nodes = vec![first];
            nodes.extend(rest);
            nodes.push(K::Dest(dest));
            let mut live = BTreeSet::new();
            let mut dropped = vec![false; nodes.len()];
            let mut ops = vec![];
            // the tail of the chain is connected to begin with
            for (q, raws) in std::iter::once(start).chain(later).enumerate() {
                let mut list = vec![];
                if q == 0 {
                    for i in 0..nodes.len() - 1 {
                        let to = if nodes[i + 1].inputs() > 0 {
                            i + 1
                        } else {
                            nodes.len() - 1
                        };
                        let op = Op::Connect(Edge {
                            from: i,
                            out: 0,
                            to,
                            port: Port::In(0),
                        });
                        apply(&nodes, &mut live, &op);
                        list.push(op);
                    }
                }
                for r in raws {
                    if let Some(op) = resolve(&nodes, &live, &dropped, r) {
                        apply(&nodes, &mut live, &op);
                        if let Op::Drop(n) = op {
                            dropped[n] = true;
                        }
                        list.push(op);
                    }
                }
                ops.push(list);
            }
            Case { nodes, ops }
        })
        .boxed()
}

fn perform(nodes: &mut [Option<Real>], op: &Op, foreign: &OfflineAudioContext) {
    let n = |i: usize| nodes[i].as_ref().unwrap();
    match *op {
        Op::Connect(e) => connect_to(n(e.from), n(e.to), &e),
        Op::Disconnect(a) => n(a).node.disconnect(),
        Op::Output(a, o) => n(a).node.disconnect_output(o),
        Op::Dest(a, b, false) => n(a).node.disconnect_dest(&*n(b).node),
        Op::Dest(a, b, true) => n(a).node.disconnect_dest(n(b).param.as_ref().unwrap()),
        Op::DestFromOutput(a, b, false, o) => n(a).node.disconnect_dest_from_output(&*n(b).node, o),
        Op::DestFromOutput(a, b, true, o) => n(a)
            .node
            .disconnect_dest_from_output(n(b).param.as_ref().unwrap(), o),
        Op::Exact(e) => match e.port {
            Port::In(i) => {
                n(e.from)
                    .node
                    .disconnect_dest_from_output_to_input(&*n(e.to).node, e.out, i)
            }
            Port::Param => n(e.from).node.disconnect_dest_from_output_to_input(
                n(e.to).param.as_ref().unwrap(),
                e.out,
                0,
            ),
        },
        Op::Drop(a) => {
            nodes[a].take();
        }
        Op::Foreign(a) => {
            n(a).node.connect(&foreign.destination());
        }
    }
}

fn check(case: &Case, obs: &mut Obs) -> CaseResult {
    let sr = 32768.;
    let quanta = case.ops.len();
    let K::Dest(ch) = case.nodes[case.nodes.len() - 1] else {
        unreachable!()
    };
    let mut ctx = offline(ch, quanta * RQ, sr);
    let foreign = Arc::new(offline(1, RQ, sr));
    let real: Arc<Mutex<Vec<Option<Real>>>> = Arc::new(Mutex::new(
        case.nodes.iter().map(|k| Some(build(&ctx, k))).collect(),
    ));
    let problems: Arc<Mutex<Vec<String>>> = Default::default();

    // expected connections per quantum and which calls are rejected
    let mut live = BTreeSet::new();
    let mut sets: Vec<Vec<Edge>> = vec![];
    let mut removed = 0;
    let mut again = 0;
    for (q, ops) in case.ops.iter().enumerate() {
        let mut plan: Vec<(Op, bool)> = vec![];
        for op in ops {
            let r = apply(&case.nodes, &mut live, op);
            match (op, r) {
                (Op::Connect(_), Some(0)) => again += 1,
                (Op::Drop(_), _) => obs.label("handle dropped"),
                (Op::Connect(_), _) => {}
                (_, Some(k)) => removed += k,
                _ => {}
            }
            if r.is_none() {
                obs.label("rejected call");
            }
            plan.push((*op, r.is_none()));
        }
        sets.push(live.iter().cloned().collect());
        let run = {
            let (real, foreign, problems) = (real.clone(), foreign.clone(), problems.clone());
            move || {
                let mut nodes = real.lock().unwrap();
                for (op, rejected) in &plan {
                    let res = accepts(std::panic::AssertUnwindSafe(|| {
                        perform(&mut nodes, op, &foreign)
                    }));
                    if res.is_err() != *rejected {
                        problems.lock().unwrap().push(match res {
                            Ok(()) => format!(
                                "before quantum {q}: {op:?} was accepted, expected a rejection"
                            ),
                            Err(e) => format!("before quantum {q}: {op:?} was rejected: {e}"),
                        });
                    }
                }
            }
        };
        if q == 0 {
            run();
        } else {
            ctx.suspend_sync((q * RQ - RQ / 2) as f64 / sr as f64, move |_| run());
        }
    }
    let got = to_vecs(&ctx.start_rendering_sync());
    if let Some(p) = problems.lock().unwrap().first() {
        return Err(p.clone());
    }
    obs.label_if(removed > 0, "disconnection");
    obs.label_if(again > 0, "already connected");
    let Some((expect, level)) = evaluate(&case.nodes, quanta, |q| sets[q].clone()) else {
        obs.label("depends on the layout of zeros");
        return Ok(());
    };
    obs.comparisons += compare(
        "destination",
        &got,
        &expect,
        tolerance(&case.nodes, level),
        1e-5,
    )?;
    obs.nontrivial_if(removed > 0 && peak64(&expect) > 0. && sets.windows(2).any(|w| w[0] != w[1]));
    Ok(())
}

pub fn run(r: &mut Runner) {
    r.rule = "generated sequences of connect/disconnect calls (all variants, existing and missing connections, in and out of range ports, parameters, dropped handles) before and while rendering 2-6 quanta, compared with an f64 evaluation of the expected set of connections in each quantum, plus expected rejection of each call; non-trivial: audible, at least one connection removed, connections differ between quanta".into();
    r.suite("history", 150_000, 3_000_000, strategy, check);
}
