//! C04: loops with and without delays
use super::c01::{gain, pick_edge, source, tolerance};
use crate::refgraph::*;
use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::sync::Arc;

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    nodes: Vec<K>,
    /// connections during each quantum
    edges: Vec<Vec<Edge>>,
}

fn kind() -> BoxedStrategy<K> {
    prop_oneof![
        8 => gain(),
        1 => (1usize..4).prop_map(K::Split),
        2 => (1usize..4).prop_map(K::Merge),
        5 => (0usize..600).prop_map(K::Delay),
        1 => Just(K::Delay(128)),
        1 => Just(K::Delay(0)),
        1 => Just(K::Analyser),
    ]
    .boxed()
}

fn strategy() -> BoxedStrategy<Case> {
    let raw = (
        any::<u16>(),
        any::<u16>(),
        any::<u16>(),
        any::<u16>(),
        prop::bool::weighted(0.15),
    );
    (3usize..14)
        .prop_flat_map(move |quanta| {
            (
                prop::collection::vec(source(quanta), 1..3),
                prop::collection::vec(kind(), 2..7),
                prop_oneof![3 => Just(1usize), 1 => channels_small()],
                prop::collection::vec(raw.clone(), 3..10),
                // changes: quantum, add or remove, edge
                prop::collection::vec((1..quanta, any::<bool>(), raw.clone()), 0..6),
                Just(quanta),
            )
        })
        .prop_map(|(src, mut rest, dest, start, changes, quanta)| {
            // with several delays in a loop it is not specified which of them cannot be shorter
            // than a quantum
            let delays = rest.iter().filter(|k| matches!(k, K::Delay(_))).count();
            if delays > 1 {
                for k in rest.iter_mut() {
                    if let K::Delay(f) = k {
                        *f = (*f).max(RQ);
                    }
                }
            }
            let s = src.len();
            let mut nodes = src;
            nodes.extend(rest);
            nodes.push(K::Dest(dest));
            let d = nodes.len() - 1;
            let inner = d - s;
            let edge = |r: &(u16, u16, u16, u16, bool)| -> Edge {
                let (a, b, c, dd, param) = *r;
                // any node to any inner node, or the destination
                let from = a as usize % d;
                let to = if b % 5 == 0 {
                    d
                } else {
                    s + (b / 5) as usize % inner
                };
                pick_edge(&nodes, from, c, to, dd, param)
            };
            let mut set: BTreeSet<Edge> = BTreeSet::new();
            // sources feed something, something is heard
            for i in 0..s {
                set.insert(Edge {
                    from: i,
                    out: 0,
                    to: s + i % inner,
                    port: Port::In(0),
                });
            }
            set.insert(Edge {
                from: d - 1,
                out: 0,
                to: d,
                port: Port::In(0),
            });
            set.extend(start.iter().map(edge));
            let mut edges = vec![];
            for q in 0..quanta {
                for (at, add, r) in &changes {
                    if *at == q {
                        if *add || set.is_empty() {
                            set.insert(edge(r));
                        } else {
                            let e = *set.iter().nth(r.0 as usize % set.len()).unwrap();
                            set.remove(&e);
                        }
                    }
                }
                edges.push(set.iter().cloned().collect());
            }
            Case { nodes, edges }
        })
        .boxed()
}

fn check(case: &Case, obs: &mut Obs) -> CaseResult {
    let sr = 32768.;
    let quanta = case.edges.len();
    let K::Dest(ch) = case.nodes[case.nodes.len() - 1] else {
        unreachable!()
    };
    let mut ctx = offline(ch, quanta * RQ, sr);
    let real: Arc<Vec<Real>> = Arc::new(case.nodes.iter().map(|k| build(&ctx, k)).collect());
    for e in &case.edges[0] {
        connect(&real, e);
    }
    for q in 1..quanta {
        let (old, new) = (case.edges[q - 1].clone(), case.edges[q].clone());
        if old == new {
            continue;
        }
        let real = real.clone();
        ctx.suspend_sync((q * RQ - RQ / 2) as f64 / sr as f64, move |_| {
            for e in old.iter().filter(|e| !new.contains(e)) {
                disconnect(&real, e);
            }
            for e in new.iter().filter(|e| !old.contains(e)) {
                connect(&real, e);
            }
        });
    }
    let got = to_vecs(&ctx.start_rendering_sync());
    let m = Model::new(&case.nodes);
    let mut with_delay = false;
    let mut without = false;
    let mut broken = false;
    let mut before = (false, false);
    for e in &case.edges {
        let muted = m.muted(e);
        let delay_loop = m
            .loops(e)
            .iter()
            .zip(&muted)
            .zip(&case.nodes)
            .any(|((l, m), k)| *l && !*m && matches!(k, K::Delay(_)));
        let now = (delay_loop, muted.contains(&true));
        broken |= (before.0 && !now.0) || (before.1 && !now.1);
        with_delay |= now.0;
        without |= now.1;
        before = now;
        if m.unclear(e) {
            obs.label("delay in a muted loop");
            return Ok(());
        }
    }
    obs.label_if(with_delay, "loop with delay");
    obs.label_if(without, "loop without delay");
    obs.label_if(broken, "loop broken");
    let Some((expect, level)) = evaluate(&case.nodes, quanta, |q| case.edges[q].clone()) else {
        obs.label("depends on the layout of zeros");
        return Ok(());
    };
    if level > 1e6 {
        obs.label("too loud");
        return Ok(());
    }
    obs.comparisons += compare(
        "destination",
        &got,
        &expect,
        tolerance(&case.nodes, level),
        2e-5,
    )?;
    obs.nontrivial_if((with_delay || without) && peak64(&expect) > 0.);
    Ok(())
}

pub fn run(r: &mut Runner) {
    r.rule = "generated graphs with arbitrary connections (loops with and without delay nodes, several loops, self loops, loops through parameters), connections added and removed while rendering 3-13 quanta, compared with an f64 evaluation in which delays in loops are at least one quantum and nodes in loops without a delay are silent; non-trivial: some loop and audible output".into();
    r.suite("loops", 150_000, 3_000_000, strategy, check);
}
