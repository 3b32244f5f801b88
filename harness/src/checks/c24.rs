//! C24: panner with the equal-power model
use crate::capture::*;
use crate::rig::*;
use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::{Arc, Mutex};
use web_audio_api::context::*;
use web_audio_api::node::*;
use web_audio_api::{AudioListener, AudioParam};

const QUANTA: usize = 5;

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
pub(super) enum Model {
    Linear,
    Inverse,
    Exponential,
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
pub(super) struct Settings {
    model: Model,
    reference: f64,
    max: f64,
    rolloff: f64,
    inner: f64,
    outer: f64,
    gain: f64,
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
pub(super) enum Change {
    Model(Model),
    Reference(f64),
    Max(f64),
    Rolloff(f64),
    Inner(f64),
    Outer(f64),
    Gain(f64),
    Position([f32; 3]),
    Orientation([f32; 3]),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub(super) struct Case {
    pub(super) sr: f32,
    pub(super) input: Input,
    pub(super) settings: Settings,
    /// source position and orientation, listener position, forward and up
    pub(super) geometry: [[f32; 3]; 5],
    /// index of a coordinate and its automation
    pub(super) automated: Vec<(usize, Auto)>,
    pub(super) changes: Vec<(usize, Change)>,
}

fn coordinate() -> BoxedStrategy<f32> {
    prop_oneof![
        4 => prop::sample::select(vec![0f32, 1., -1., 2., -2., 0.5]),
        4 => -10f32..10.,
        1 => -1000f32..1000.,
        1 => -0.01f32..0.01,
    ]
    .boxed()
}

fn position() -> BoxedStrategy<[f32; 3]> {
    prop_oneof![
        1 => Just([0f32; 3]),
        6 => (coordinate(), coordinate(), coordinate()).prop_map(|(a, b, c)| [a, b, c]),
        1 => ([-1f32..1., -1f32..1., -1f32..1.], prop::sample::select(vec![1e-10f32, 1e6, 1e20, 8e37]))
            .prop_map(|(v, k)| v.map(|x| x * k)),
    ]
    .boxed()
}

fn direction() -> BoxedStrategy<[f32; 3]> {
    let axis = (0usize..3, any::<bool>()).prop_map(|(i, neg)| {
        let mut v = [0f32; 3];
        v[i] = if neg { -1. } else { 1. };
        v
    });
    prop_oneof![
        5 => axis,
        4 => [-1f32..1., -1f32..1., -1f32..1.],
        1 => Just([0f32; 3]),
        1 => ([-1f32..1., -1f32..1., -1f32..1.], prop::sample::select(vec![1e-6f32, 1e6, 1e18, 1e36]))
            .prop_map(|(v, k)| v.map(|x| x * k)),
    ]
    .boxed()
}

fn geometry() -> BoxedStrategy<[[f32; 3]; 5]> {
    (
        position(),
        direction(),
        prop_oneof![3 => Just([0f32; 3]), 2 => position()],
        prop_oneof![2 => Just([0f32, 0., -1.]), 3 => direction()],
        prop_oneof![2 => Just([0f32, 1., 0.]), 3 => direction()],
        0u8..24,
    )
        .prop_map(|(mut sp, mut so, lp, lf, mut lu, special)| {
            match special {
                // same position
                0 => sp = lp,
                // dependent listener vectors
                1 => lu = lf.map(|x| x * 0.5),
                2 => lu = lf.map(|x| x * -2.),
                // above or ahead of the listener
                3 => sp = [lp[0] + lu[0] * 4., lp[1] + lu[1] * 4., lp[2] + lu[2] * 4.],
                4 => sp = [lp[0] + lf[0] * 4., lp[1] + lf[1] * 4., lp[2] + lf[2] * 4.],
                // facing (away from) the listener
                5 => so = [sp[0] - lp[0], sp[1] - lp[1], sp[2] - lp[2]],
                6 => so = [lp[0] - sp[0], lp[1] - sp[1], lp[2] - sp[2]],
                _ => (),
            }
            [sp, so, lp, lf, lu].map(|v| v.map(|x| x.clamp(f32::MIN, f32::MAX)))
        })
        .boxed()
}

fn model() -> BoxedStrategy<Model> {
    prop::sample::select(vec![Model::Linear, Model::Inverse, Model::Exponential]).boxed()
}
fn reference() -> BoxedStrategy<f64> {
    prop_oneof![2 => Just(1f64), 1 => Just(0f64), 4 => 0f64..20., 1 => 0f64..2000.].boxed()
}
fn max() -> BoxedStrategy<f64> {
    prop_oneof![2 => Just(10000f64), 1 => Just(1f64), 4 => 0.1f64..20., 1 => 0.1f64..2000.].boxed()
}
fn rolloff() -> BoxedStrategy<f64> {
    prop_oneof![2 => Just(1f64), 1 => Just(0f64), 4 => 0f64..3., 1 => 0f64..30.].boxed()
}
fn angle() -> BoxedStrategy<f64> {
    prop_oneof![
        3 => prop::sample::select(vec![360f64, 0., 180., 90., 270., -90., 30.]),
        4 => 0f64..360.,
        1 => -1000f64..1000.,
    ]
    .boxed()
}
fn outer_gain() -> BoxedStrategy<f64> {
    prop_oneof![2 => Just(0f64), 1 => Just(1f64), 4 => 0f64..=1.].boxed()
}

fn settings() -> BoxedStrategy<Settings> {
    (
        model(),
        reference(),
        max(),
        rolloff(),
        angle(),
        angle(),
        outer_gain(),
        0u8..10,
    )
        .prop_map(
            |(model, reference, max, rolloff, inner, outer, gain, special)| {
                let mut s = Settings {
                    model,
                    reference,
                    max,
                    rolloff,
                    inner,
                    outer,
                    gain,
                };
                match special {
                    0 => s.reference = s.max,
                    1 => s.outer = s.inner,
                    2 => (s.inner, s.outer) = (360., 360.),
                    3 => s.inner = s.outer / 3.,
                    4 => s.inner = s.outer / 2.,
                    _ => (),
                }
                s
            },
        )
        .boxed()
}

fn change() -> BoxedStrategy<Change> {
    prop_oneof![
        model().prop_map(Change::Model),
        reference().prop_map(Change::Reference),
        max().prop_map(Change::Max),
        rolloff().prop_map(Change::Rolloff),
        angle().prop_map(Change::Inner),
        angle().prop_map(Change::Outer),
        outer_gain().prop_map(Change::Gain),
        position().prop_map(Change::Position),
        direction().prop_map(Change::Orientation),
    ]
    .boxed()
}

fn strategy() -> BoxedStrategy<Case> {
    cases(QUANTA, sample_rate())
}

pub(super) fn cases(quanta: usize, rates: BoxedStrategy<f32>) -> BoxedStrategy<Case> {
    let automated = (
        0usize..15,
        auto(coordinate, 0.01..5., quanta * RQ, false, true),
    );
    (
        rates,
        input(
            || prop_oneof![2 => Just(1usize), 2 => Just(2usize), 1 => 3usize..=6].boxed(),
            quanta,
        ),
        settings(),
        geometry(),
        prop_oneof![
            2 => Just(vec![]).boxed(),
            3 => proptest::collection::vec(automated, 1..=3).boxed(),
        ],
        prop_oneof![
            2 => Just(vec![]).boxed(),
            1 => proptest::collection::vec((0..quanta, change()), 1..=4).boxed(),
        ],
    )
        .prop_map(
            |(sr, input, settings, geometry, mut automated, mut changes)| {
                automated.sort_by_key(|a| a.0);
                automated.dedup_by_key(|a| a.0);
                changes.sort_by_key(|c| c.0);
                // values are set on parameters without automation only
                let busy = |v: usize| automated.iter().any(|a| a.0 / 3 == v);
                let (p, o) = (busy(0), busy(1));
                changes.retain(|c| match c.1 {
                    Change::Position(_) => !p,
                    Change::Orientation(_) => !o,
                    _ => true,
                });
                Case {
                    sr,
                    input,
                    settings,
                    geometry,
                    automated,
                    changes,
                }
            },
        )
        .boxed()
}

pub(super) type V = [f64; 3];
pub(super) fn sub(a: V, b: V) -> V {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub(super) fn dot(a: V, b: V) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub(super) fn scale(a: V, k: f64) -> V {
    a.map(|x| x * k)
}
pub(super) fn cross(a: V, b: V) -> V {
    [
        a[1] * b[2] - a[2] * b[1],
        a[2] * b[0] - a[0] * b[2],
        a[0] * b[1] - a[1] * b[0],
    ]
}
pub(super) fn len(a: V) -> f64 {
    dot(a, a).sqrt()
}
pub(super) fn unit(a: V) -> V {
    scale(a, 1. / len(a))
}
/// only one coordinate is not zero
fn aligned(a: V) -> bool {
    a.iter().filter(|x| **x != 0.).count() == 1
}

/// Azimuth wrapped to -90..90 degrees and its uncertainty; None: any
fn azimuth(sp: V, lp: V, lf: V, lu: V) -> Option<(f64, f64)> {
    let rel = sub(sp, lp);
    if len(rel) == 0. {
        return Some((0., 0.));
    }
    let rel_unit = unit(rel);
    let right = cross(lf, lu);
    if len(right) == 0. {
        return Some((0., 0.));
    }
    let sine = len(right) / len(lf) / len(lu);
    if sine < 1e-4 {
        return None;
    }
    let (right, forward) = (unit(right), unit(lf));
    let up = cross(right, forward);
    let projected = sub(rel_unit, scale(up, dot(rel_unit, up)));
    let l = len(projected);
    let exact = aligned(rel) && aligned(lf) && aligned(lu);
    if exact && l < 1e-9 {
        return Some((0., 0.));
    }
    if l < 1e-4 {
        return None;
    }
    let projected = unit(projected);
    // signed angle of the source from straight ahead, mirrored to the front
    let x = dot(projected, right).clamp(-1., 1.);
    let a = x.asin().to_degrees();
    let mut err = 1e-4 / sine / l;
    if x.abs() > 0.999 {
        err += 0.05;
    }
    Some((a, err))
}

fn distance_gain(s: &Settings, d: f64) -> f64 {
    match s.model {
        Model::Linear => {
            let (near, far) = (s.reference.min(s.max), s.reference.max(s.max));
            let f = s.rolloff.clamp(0., 1.);
            if near == far {
                1. - f
            } else {
                1. - f * (d.clamp(near, far) - near) / (far - near)
            }
        }
        Model::Inverse | Model::Exponential if s.reference == 0. => 0.,
        Model::Inverse => {
            s.reference / (s.reference + s.rolloff * (d.max(s.reference) - s.reference))
        }
        Model::Exponential => (d.max(s.reference) / s.reference).powf(-s.rolloff),
    }
}

/// Range of the cone gain
fn cone_gain(s: &Settings, sp: V, so: V, lp: V) -> (f64, f64) {
    let (inner, outer) = (s.inner.abs() / 2., s.outer.abs() / 2.);
    if inner >= 180. && outer >= 180. {
        return (1., 1.);
    }
    let rel = sub(sp, lp);
    let at = |a: f64| {
        if a < inner {
            1.
        } else if a >= outer {
            s.gain
        } else {
            let x = (a - inner) / (outer - inner);
            (1. - x) + s.gain * x
        }
    };
    if len(so) == 0. || len(rel) == 0. {
        let g = at(0.);
        return (g.min(1.), g.max(1.));
    }
    let c = dot(unit(rel), unit(so)).clamp(-1., 1.);
    let a = c.acos().to_degrees();
    let err = if c.abs() > 0.999 { 0.05 } else { 1e-3 };
    let v = [a - err, a, a + err].map(|a| at(a.clamp(0., 180.)));
    (
        v.iter().copied().fold(f64::MAX, f64::min),
        v.iter().copied().fold(f64::MIN, f64::max),
    )
}

/// Gains from (left, right) to left and right
fn ears(mono: bool, az: f64) -> [(f64, f64); 2] {
    let q = std::f64::consts::FRAC_PI_2;
    if mono {
        let x = (az + 90.) / 180.;
        [((x * q).cos(), 0.), (0., (x * q).sin())]
    } else if az <= 0. {
        let x = (az + 90.) / 90.;
        [(1., (x * q).cos()), (0., (x * q).sin())]
    } else {
        let x = az / 90.;
        [((x * q).cos(), 0.), ((x * q).sin(), 1.)]
    }
}

/// Distance gain, its uncertainty and the range of the cone gain
pub(super) fn gains(s: &Settings, g: &[V; 5]) -> (f64, f64, f64, f64) {
    let [sp, so, lp, _, _] = *g;
    let far = len(sub(sp, lp));
    let d = distance_gain(s, far);
    // distances and the settings of the model are rounded to single precision
    let around = [1. - 1e-6, 1. + 1e-6].map(|k| (distance_gain(s, far * k) - d).abs());
    let (c_lo, c_hi) = cone_gain(s, sp, so, lp);
    (d, 2. * around[0].max(around[1]), c_lo, c_hi)
}

/// Sum of ranges of the output for the two ears
fn expected(s: &Settings, g: &[V; 5], l: f64, r: f64, mono: bool) -> [(f64, f64); 2] {
    let [sp, _, lp, lf, lu] = *g;
    let (d, blur, c_lo, c_hi) = gains(s, g);
    let tol = (l.abs() + r.abs()) * (2e-6 * d.abs() + blur + 1e-37) + 1e-37;
    let az: Vec<f64> = match azimuth(sp, lp, lf, lu) {
        Some((a, e)) => [a - e, a, a + e]
            .iter()
            .map(|a| a.clamp(-90., 90.))
            .collect(),
        None => (-90..=90).step_by(10).map(|a| a as f64).collect(),
    };
    let loose = az.len() > 3;
    let mut out = [(f64::MAX, f64::MIN); 2];
    for a in az {
        for (o, e) in out.iter_mut().zip(ears(mono, a)) {
            for c in [c_lo, c_hi] {
                let v = (e.0 * l + e.1 * r) * d * c;
                *o = (o.0.min(v), o.1.max(v));
            }
        }
    }
    let extra = if loose {
        0.2 * (l.abs() + r.abs()) * d.abs()
    } else {
        0.
    };
    out.map(|(lo, hi)| (lo - tol - extra, hi + tol + extra))
}

fn param<'a>(node: &'a PannerNode, listener: &'a AudioListener, i: usize) -> &'a AudioParam {
    match i {
        0 => node.position_x(),
        1 => node.position_y(),
        2 => node.position_z(),
        3 => node.orientation_x(),
        4 => node.orientation_y(),
        5 => node.orientation_z(),
        6 => listener.position_x(),
        7 => listener.position_y(),
        8 => listener.position_z(),
        9 => listener.forward_x(),
        10 => listener.forward_y(),
        11 => listener.forward_z(),
        12 => listener.up_x(),
        13 => listener.up_y(),
        _ => listener.up_z(),
    }
}

fn api(m: Model) -> DistanceModelType {
    match m {
        Model::Linear => DistanceModelType::Linear,
        Model::Inverse => DistanceModelType::Inverse,
        Model::Exponential => DistanceModelType::Exponential,
    }
}

fn opts() -> AudioNodeOptions {
    PannerOptions::default().audio_node_options
}

pub(super) struct Rendered {
    pub input: Vec<Vec<Vec<f32>>>,
    pub output: Vec<Vec<Vec<f32>>>,
    /// index of an automated coordinate and its values
    pub values: Vec<(usize, Vec<Vec<f32>>)>,
}

pub(super) fn render(
    case: &Case,
    panning_model: PanningModelType,
    quanta: usize,
) -> Result<Rendered, String> {
    let sr = case.sr as f64;
    let mut ctx = offline(1, quanta * RQ, case.sr);
    let s = case.settings;
    let [sp, so, lp, lf, lu] = case.geometry;
    let node = PannerNode::new(
        &ctx,
        PannerOptions {
            panning_model,
            distance_model: api(s.model),
            position_x: sp[0],
            position_y: sp[1],
            position_z: sp[2],
            orientation_x: so[0],
            orientation_y: so[1],
            orientation_z: so[2],
            ref_distance: s.reference,
            max_distance: s.max,
            rolloff_factor: s.rolloff,
            cone_inner_angle: s.inner,
            cone_outer_angle: s.outer,
            cone_outer_gain: s.gain,
            audio_node_options: opts(),
        },
    );
    let listener = ctx.listener();
    for (i, v) in lp.iter().chain(&lf).chain(&lu).enumerate() {
        param(&node, &listener, 6 + i).set_value(*v);
    }
    let driven: Vec<(usize, Driven)> = case
        .automated
        .iter()
        .map(|(i, a)| (*i, Driven::new(&ctx, a, param(&node, &listener, *i))))
        .collect();
    let (_src, _cap, input) = feed(&ctx, &case.input, &node, opts());
    let (_out, output) = observe(&ctx, &node, 0);
    let node = Arc::new(Mutex::new(node));
    let mut at: Vec<usize> = case.changes.iter().map(|c| c.0).collect();
    at.dedup();
    for q in at {
        let (node, changes) = (node.clone(), case.changes.clone());
        let t = (q * RQ) as f64 - if q > 0 { 64. } else { 0. };
        ctx.suspend_sync(t / sr, move |_| {
            let mut node = node.lock().unwrap();
            for c in changes.iter().filter(|c| c.0 == q) {
                match c.1 {
                    Change::Model(m) => node.set_distance_model(api(m)),
                    Change::Reference(v) => node.set_ref_distance(v),
                    Change::Max(v) => node.set_max_distance(v),
                    Change::Rolloff(v) => node.set_rolloff_factor(v),
                    Change::Inner(v) => node.set_cone_inner_angle(v),
                    Change::Outer(v) => node.set_cone_outer_angle(v),
                    Change::Gain(v) => node.set_cone_outer_gain(v),
                    Change::Position([x, y, z]) => node.set_position(x, y, z),
                    Change::Orientation([x, y, z]) => node.set_orientation(x, y, z),
                }
            }
        });
    }
    let _ = ctx.start_rendering_sync();
    let (input, output) = (blocks(&input), blocks(&output));
    ensure!(
        output.len() == quanta && input.len() == quanta,
        "{} quanta rendered",
        output.len()
    );
    let values = driven.iter().map(|(i, d)| (*i, d.values())).collect();
    Ok(Rendered {
        input,
        output,
        values,
    })
}

/// Apply the changes made before a quantum
pub(super) fn advance(case: &Case, q: usize, s: &mut Settings, g: &mut [V; 5]) {
    for c in case.changes.iter().filter(|c| c.0 == q) {
        match c.1 {
            Change::Model(v) => s.model = v,
            Change::Reference(v) => s.reference = v,
            Change::Max(v) => s.max = v,
            Change::Rolloff(v) => s.rolloff = v,
            Change::Inner(v) => s.inner = v,
            Change::Outer(v) => s.outer = v,
            Change::Gain(v) => s.gain = v,
            Change::Position(v) => g[0] = v.map(|x| x as f64),
            Change::Orientation(v) => g[1] = v.map(|x| x as f64),
        }
    }
}

fn check(case: &Case, obs: &mut Obs) -> CaseResult {
    let Rendered {
        input,
        output,
        values,
    } = render(case, PanningModelType::EqualPower, QUANTA)?;
    let mut s = case.settings;
    let mut g: [V; 5] = case.geometry.map(|v| v.map(|x| x as f64));
    let mut clear = 0;
    for q in 0..QUANTA {
        advance(case, q, &mut s, &mut g);
        let (inp, out) = (&input[q], &output[q]);
        ensure!(
            out.len() == 2 || zero(out),
            "quantum {q}: {} channels",
            out.len()
        );
        let mono = inp.len() == 1;
        for i in 0..RQ {
            for (p, v) in &values {
                g[p / 3][p % 3] = v[q][i] as f64;
            }
            let l = inp[0][i] as f64;
            let r = inp[inp.len() - 1][i] as f64;
            if l == 0. && r == 0. {
                for (ch, o) in out.iter().enumerate() {
                    ensure!(
                        o[i] == 0.,
                        "quantum {q}, frame {i}, channel {ch}: {} from zeros",
                        o[i]
                    );
                }
                continue;
            }
            let want = expected(&s, &g, l, r, mono);
            for (ch, (lo, hi)) in want.iter().enumerate() {
                let got = out.get(ch).map_or(0., |c| c[i]) as f64;
                ensure!(
                    got >= *lo && got <= *hi,
                    "quantum {q}, frame {i}, channel {ch}: {got}, expected {lo}..{hi} (input {l}, {r}, {g:?}, {s:?})"
                );
                obs.comparisons += 1;
                clear += (hi - lo < 1e-3 * (l.abs() + r.abs()) && (*lo > 0. || *hi < 0.)) as usize;
            }
        }
    }
    obs.nontrivial_if(clear > 64);
    obs.label(match case.settings.model {
        Model::Linear => "linear",
        Model::Inverse => "inverse",
        Model::Exponential => "exponential",
    });
    let moving = |r: std::ops::Range<usize>| {
        case.automated
            .iter()
            .any(|a| r.contains(&a.0) && !a.1.is_constant())
    };
    obs.label_if(moving(0..6), "moving source");
    obs.label_if(moving(6..15), "moving listener");
    obs.label_if(!case.changes.is_empty(), "changed while rendering");
    obs.label_if(
        case.settings.inner.abs() < 360. && case.settings.outer.abs() < 360.,
        "cone",
    );
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Hrtf {
    /// azimuth plane and height
    position: [f32; 3],
    stereo: bool,
    first: Part,
    second: Part,
    drop: bool,
}

const HQ: usize = 24;

fn hrtf() -> BoxedStrategy<Hrtf> {
    let part =
        || (sig(1usize..=1, 1..=3 * RQ), 2 * RQ..HQ * RQ).prop_map(|(sig, at)| Part { sig, at });
    (
        [-5f32..5., -5f32..5., -5f32..5.],
        any::<bool>(),
        part(),
        part(),
        any::<bool>(),
    )
        .prop_map(|(position, stereo, mut first, mut second, drop)| {
            for p in [&mut first, &mut second] {
                p.sig.channels = 1 + stereo as usize;
            }
            Hrtf {
                position,
                stereo,
                first,
                second,
                drop,
            }
        })
        .boxed()
}

fn check_hrtf(case: &Hrtf, obs: &mut Obs) -> CaseResult {
    let render = |parts: &[&Part], drop_node: bool| {
        let mut ctx = offline(2, HQ * RQ, 44100.);
        let [x, y, z] = case.position;
        let node = PannerNode::new(
            &ctx,
            PannerOptions {
                panning_model: PanningModelType::HRTF,
                position_x: x,
                position_y: y,
                position_z: z,
                ..Default::default()
            },
        );
        node.connect(&ctx.destination());
        let mut keep = vec![];
        // the gain fades in with the first sound
        let first = Sig {
            channels: 1 + case.stereo as usize,
            len: RQ,
            ..case.first.sig.clone()
        };
        for p in std::iter::once(&Part { sig: first, at: 0 }).chain(parts.iter().copied()) {
            let s = play(&ctx, p.sig.buffer(44100.), p.at);
            s.connect(&node);
            keep.push(s);
        }
        let node = (!drop_node).then_some(node);
        let b = ctx.start_rendering_sync();
        std::mem::drop(node);
        (0..2)
            .map(|c| b.get_channel_data(c).to_vec())
            .collect::<Vec<_>>()
    };
    let none = render(&[], false);
    let a = render(&[&case.first], false);
    let b = render(&[&case.second], false);
    let ab = render(&[&case.first, &case.second], case.drop);
    let mut sounding = 0;
    for c in 0..2 {
        for i in 0..HQ * RQ {
            let want = a[c][i] as f64 + b[c][i] as f64 - none[c][i] as f64;
            let got = ab[c][i] as f64;
            let size = a[c][i].abs().max(b[c][i].abs()) as f64;
            ensure!(
                (got - want).abs() <= 1e-4 * (1. + size),
                "frame {i}, channel {c}: {got}, but the separate sounds sum up to {want}"
            );
            obs.comparisons += 1;
            sounding += (want.abs() > 1e-2) as usize;
        }
    }
    obs.nontrivial_if(sounding > 100);
    obs.label_if(case.drop, "handle dropped");
    Ok(())
}

pub fn run(r: &mut Runner) {
    r.rule = "equal power: more than 64 samples are expected in a narrow range away from zero; HRTF: more than 100 samples sound".into();
    r.assumptions = vec![
        "coordinates are those of a custom processor's parameter with the same automation at the same time".into(),
        "directions within 1e-4 of a degenerate one are only bounded, unless they are exactly degenerate".into(),
        "angles are compared to 1e-4 degrees (0.05 where the arc cosine is ill-conditioned)".into(),
    ];
    r.suite("equal power", 300_000, 1_000_000, strategy, check);
    r.suite("hrtf", 400, 10_000, hrtf, check_hrtf);
}
