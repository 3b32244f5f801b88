//! C01: acyclic graphs
use crate::refgraph::*;
use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use web_audio_api::context::*;

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    /// nodes in topological order, the last one is the destination
    pub nodes: Vec<K>,
    pub edges: Vec<Edge>,
    /// order in which the nodes are created / connections are made
    pub create: Vec<usize>,
    pub quanta: usize,
}

pub fn kind(quanta: usize) -> BoxedStrategy<K> {
    prop_oneof![
        8 => source(quanta),
        10 => gain(),
        2 => prop::collection::vec(-1f32..1., 2..6).prop_map(K::Shaper),
        4 => (1usize..7).prop_map(K::Split),
        4 => (1usize..7).prop_map(K::Merge),
        1 => (7usize..=32).prop_map(K::Split),
        1 => (7usize..=32).prop_map(K::Merge),
        2 => (0usize..500).prop_map(K::Delay),
        2 => Just(K::Analyser),
    ]
    .boxed()
}

pub fn gain() -> BoxedStrategy<K> {
    (
        prop_oneof![2 => Just(1f32), 4 => 0.2f32..1.5, 2 => -1.5f32..-0.2],
        channels_small(),
        prop_oneof![4 => Just(Mode::Max), 1 => Just(Mode::ClampedMax), 1 => Just(Mode::Explicit)],
        prop::bool::weighted(0.8),
    )
        .prop_map(|(g, count, mode, speakers)| K::Gain {
            g,
            count,
            mode,
            speakers,
        })
        .boxed()
}

pub fn source(quanta: usize) -> BoxedStrategy<K> {
    prop_oneof![
        4 => (channels_small(), sig_kind(), amp(), prop::bool::weighted(0.25), 1..=quanta * RQ).prop_map(move |(channels, kind, amp, short, len)| {
            K::Src(Sig { channels, len: if short { len } else { quanta * RQ }, kind, amp })
        }),
        1 => (-1f32..1.).prop_map(K::Const),
    ]
    .boxed()
}

/// keys -> permutation
pub fn perm(keys: &[u16]) -> Vec<usize> {
    let mut v: Vec<usize> = (0..keys.len()).collect();
    v.sort_by_key(|i| (keys[*i], *i));
    v
}

pub fn pick_edge(nodes: &[K], from: usize, out: u16, to: usize, port: u16, param: bool) -> Edge {
    let k = &nodes[to];
    let port = if k.inputs() == 0 || (param && k.has_param()) {
        Port::Param
    } else {
        Port::In(port as usize % k.inputs())
    };
    Edge {
        from,
        out: out as usize % nodes[from].outputs(),
        to,
        port,
    }
}

fn strategy_n(max_nodes: usize, quanta: usize) -> BoxedStrategy<Case> {
    let edge = (
        any::<u16>(),
        any::<u16>(),
        any::<u16>(),
        prop::bool::weighted(0.15),
    );
    let node = (
        kind(quanta),
        prop::collection::vec(edge, 1..4),
        any::<u16>(),
    );
    (
        source(quanta),
        prop::collection::vec(node, 1..max_nodes),
        channels_small(),
        prop::collection::vec(any::<u16>(), 1..5),
        prop::collection::vec(any::<u16>(), max_nodes * 4 + 6),
    )
        .prop_map(move |(first, rest, dest, dest_in, keys)| {
            let mut nodes = vec![first];
            let mut shapers = 0;
            let mut raw = vec![];
            for (k, e, _) in &rest {
                let mut k = k.clone();
                if matches!(k, K::Shaper(_)) {
                    shapers += 1;
                    if shapers > 2 {
                        k = K::Analyser;
                    }
                }
                nodes.push(k);
                raw.push(e.clone());
            }
            nodes.push(K::Dest(dest));
            let mut edges: BTreeSet<Edge> = BTreeSet::new();
            let mut order: Vec<Edge> = vec![];
            for (i, es) in raw.iter().enumerate() {
                let to = i + 1;
                for (f, o, p, param) in es {
                    let k = &nodes[to];
                    if k.inputs() == 0 && !(k.has_param() && *param) {
                        continue;
                    }
                    let e = pick_edge(&nodes, *f as usize % to, *o, to, *p, *param);
                    if edges.insert(e) {
                        order.push(e);
                    }
                }
            }
            let d = nodes.len() - 1;
            for f in &dest_in {
                // mostly the later nodes
                let from = d - 1 - (*f as usize % d) * (*f as usize / 256 % 3) % d;
                let e = pick_edge(&nodes, from, *f, d, 0, false);
                if edges.insert(e) {
                    order.push(e);
                }
            }
            let n = nodes.len();
            let create = perm(&keys[..n]);
            let ek: Vec<u16> = (0..order.len())
                .map(|i| keys[(i * 7 + n) % keys.len()].wrapping_mul(i as u16 + 1))
                .collect();
            let edges = perm(&ek).into_iter().map(|i| order[i]).collect();
            Case {
                nodes,
                edges,
                create,
                quanta,
            }
        })
        .boxed()
}

fn strategy() -> BoxedStrategy<Case> {
    strategy_n(10, 4)
}

fn strategy_big() -> BoxedStrategy<Case> {
    strategy_n(40, 6)
}

/// Build and render; returns the destination
pub fn render(case: &Case) -> Vec<Vec<f32>> {
    let sr = 32768.;
    let K::Dest(ch) = case.nodes[case.nodes.len() - 1] else {
        unreachable!()
    };
    let mut ctx = offline(ch, case.quanta * RQ, sr);
    let mut real: Vec<Option<Real>> = case.nodes.iter().map(|_| None).collect();
    for i in &case.create {
        real[*i] = Some(build(&ctx, &case.nodes[*i]));
    }
    let real: Vec<Real> = real.into_iter().map(|r| r.unwrap()).collect();
    for e in &case.edges {
        connect(&real, e);
    }
    let _ = ctx.state();
    let out = ctx.start_rendering_sync();
    to_vecs(&out)
}

/// f32 rounding of sums; a shaper maps its input to the curve at a resolution of 1e-7 whatever the
/// input's level, and multiplies that by the slope of the curve
pub fn tolerance(nodes: &[K], level: f64) -> f64 {
    let floor = if nodes.iter().any(|k| matches!(k, K::Shaper(_))) {
        2.
    } else {
        1e-2
    };
    1.6e-5 * level.max(floor)
}

fn check(case: &Case, obs: &mut Obs) -> CaseResult {
    let got = render(case);
    let Some((expect, level)) = evaluate(&case.nodes, case.quanta, |_| case.edges.clone()) else {
        obs.label("depends on the layout of zeros");
        return Ok(());
    };
    let tol = tolerance(&case.nodes, level);
    obs.comparisons += compare("destination", &got, &expect, tol, 1e-5)?;

    let mut indeg = vec![0; case.nodes.len()];
    let mut outdeg = vec![0; case.nodes.len()];
    for e in &case.edges {
        indeg[e.to] += 1;
        outdeg[e.from] += 1;
    }
    obs.nontrivial_if(peak64(&expect) > 0. && indeg.iter().any(|d| *d > 1) && case.nodes.len() > 3);
    obs.label_if(outdeg.iter().any(|d| *d > 1), "fan-out");
    obs.label_if(indeg.iter().any(|d| *d > 1), "fan-in");
    obs.label_if(
        case.edges.iter().any(|e| e.port == Port::Param),
        "modulated parameter",
    );
    obs.label_if(
        case.create.windows(2).any(|w| w[0] > w[1]),
        "not created in signal order",
    );
    obs.label_if(peak64(&expect) > 0., "audible");
    Ok(())
}

/// Same graph, other creation and connection order: same audio up to summation order
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Reorder {
    case: Case,
    keys: Vec<u16>,
}

fn strategy_reorder() -> BoxedStrategy<Reorder> {
    (strategy_n(24, 4), prop::collection::vec(any::<u16>(), 120))
        .prop_map(|(case, keys)| Reorder { case, keys })
        .boxed()
}

fn check_reorder(r: &Reorder, obs: &mut Obs) -> CaseResult {
    let a = render(&r.case);
    let mut other = r.case.clone();
    other.create = perm(&r.keys[..other.nodes.len()]);
    let n = other.edges.len();
    let ek: Vec<u16> = (0..n)
        .map(|i| r.keys[i % r.keys.len()] ^ (i as u16))
        .collect();
    other.edges = perm(&ek).into_iter().map(|i| r.case.edges[i]).collect();
    let b = render(&other);
    let Some((_, level)) = evaluate(&r.case.nodes, r.case.quanta, |_| r.case.edges.clone()) else {
        obs.label("depends on the layout of zeros");
        return Ok(());
    };
    let tol = tolerance(&r.case.nodes, level);
    obs.comparisons += compare("reordered construction", &b, &to64(&a), tol, 1e-5)?;
    obs.nontrivial_if(peak(&a) > 0. && other.create != r.case.create);
    Ok(())
}

pub fn run(r: &mut Runner) {
    r.rule = "generated acyclic graphs (3-41 nodes: sources, gains, shapers, splitters, mergers, delays, analysers, modulated parameters) with generated creation and connection order, compared with an f64 evaluation of the graph; non-trivial: audible, more than 3 nodes, some input with several connections".into();
    r.suite("small", 200_000, 1_000_000, strategy, check);
    r.suite("large", 30_000, 200_000, strategy_big, check);
    r.suite("reorder", 15_000, 100_000, strategy_reorder, check_reorder);
}
