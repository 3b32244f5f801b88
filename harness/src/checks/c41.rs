//! C41: panner with the HRTF model
use super::c24::{advance, cases, cross, dot, gains, len, render, sub, unit, Case, V};
use crate::capture::*;
use crate::rig::*;
use crate::runner::*;
use crate::util::*;
use hrtf::{HrirSphere, HrtfContext, HrtfProcessor, Vec3};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::sync::Mutex;
use web_audio_api::context::*;
use web_audio_api::node::*;

const QUANTA: usize = 14;

/// The measured responses, resampled to a rate; their length
fn sphere(sr: f32) -> (HrtfProcessor, usize) {
    static CACHE: Mutex<Option<HashMap<u32, (HrtfProcessor, usize)>>> = Mutex::new(None);
    let rate = sr as u32;
    let mut cache = CACHE.lock().unwrap();
    cache
        .get_or_insert_with(HashMap::new)
        .entry(rate)
        .or_insert_with(|| {
            let data = include_bytes!("../../data/IRC_1003_C.bin");
            let sphere = HrirSphere::new(&data[..], rate).unwrap();
            let n = sphere.len();
            (HrtfProcessor::new(sphere, 1, RQ), n)
        })
        .clone()
}

/// Responses of both ears to an impulse from a direction (right, up, forward)
fn response(sr: f32, dir: V) -> [Vec<f64>; 2] {
    let (mut processor, n) = sphere(sr);
    let v = Vec3::new(dir[0] as f32, dir[2] as f32, dir[1] as f32);
    let (mut left, mut right) = (vec![], vec![]);
    let mut out = [vec![], vec![]];
    let mut source = vec![0f32; RQ];
    source[0] = 1.;
    while out[0].len() < n {
        let mut block = vec![(0f32, 0f32); RQ];
        processor.process_samples(HrtfContext {
            source: &source[..],
            output: &mut block,
            new_sample_vector: v,
            prev_sample_vector: v,
            prev_left_samples: &mut left,
            prev_right_samples: &mut right,
            new_distance_gain: 1.,
            prev_distance_gain: 1.,
        });
        for (l, r) in block {
            out[0].push(l as f64);
            out[1].push(r as f64);
        }
        source[0] = 0.;
    }
    out
}

/// Whether a direction is about on an edge between measured directions. There the hrtf crate may
/// miss both neighbouring faces of its sphere, and go on with an earlier response.
fn on_edge(sr: f32, dir: V) -> bool {
    const STEP: f64 = 1e-3;
    let here = response(sr, dir);
    let size: f64 = here.iter().flatten().map(|v| v.abs()).sum();
    let other = if dir[0].abs() < 0.7 {
        [1., 0., 0.]
    } else {
        [0., 1., 0.]
    };
    let u = unit(cross(dir, other));
    let v = cross(dir, u);
    size == 0.
        || (0..8).any(|k| {
            let (s, c) = (k as f64 * std::f64::consts::PI / 8.).sin_cos();
            let at = |step: f64| {
                let to = [0, 1, 2].map(|i| dir[i] + step * (c * u[i] + s * v[i]));
                response(sr, unit(to))
            };
            let (a, b) = (at(STEP), at(-STEP));
            let bend: f64 = (0..2)
                .flat_map(|e| (0..here[e].len()).map(move |i| (e, i)))
                .map(|(e, i)| (a[e][i] + b[e][i] - 2. * here[e][i]).abs())
                .sum();
            bend > 5e-5 * size
        })
}

/// Direction of the source as (right, up, forward); None: too close to a degenerate one
fn direction(g: &[V; 5]) -> Option<V> {
    let [sp, _, lp, lf, lu] = *g;
    let ahead = Some([0., 0., 1.]);
    let rel = sub(sp, lp);
    let right = cross(lf, lu);
    if len(rel) == 0. || len(right) == 0. {
        return ahead;
    }
    if len(right) / len(lf) / len(lu) < 1e-4 || len(rel) < 1e-30 {
        return None;
    }
    let (rel, right, forward) = (unit(rel), unit(right), unit(lf));
    let up = cross(right, forward);
    Some([dot(rel, right), dot(rel, up), dot(rel, forward)])
}

fn rates() -> BoxedStrategy<f32> {
    prop::sample::select(vec![44100f32, 48000., 88200., 96000., 192000.]).boxed()
}

fn check(case: &Case, obs: &mut Obs) -> CaseResult {
    let r = render(case, PanningModelType::HRTF, QUANTA)?;
    let mut s = case.settings;
    let mut g: [V; 5] = case.geometry.map(|v| v.map(|x| x as f64));
    // a stereo signal counts as the sum of its channels
    let x: Vec<f64> = r
        .input
        .iter()
        .flat_map(|b| (0..RQ).map(|i| b.iter().map(|c| c[i] as f64).sum()))
        .collect();
    let top = x.iter().fold(0f64, |a, v| a.max(v.abs()));
    let mut known: Option<(V, [Vec<f64>; 2])> = None;
    // largest gain so far: the hrtf crate interpolates from that of the last quantum it processed
    let mut before = 0f64;
    let (mut clear, mut after, mut moved) = (0, 0, 0);
    for q in 0..QUANTA {
        advance(case, q, &mut s, &mut g);
        for (p, v) in &r.values {
            g[p / 3][p % 3] = v[q][0] as f64;
        }
        let out = &r.output[q];
        ensure!(
            out.len() == 2 || zero(out),
            "quantum {q}: {} channels",
            out.len()
        );
        ensure!(
            out.iter().flatten().all(|v| v.is_finite()),
            "quantum {q}: output is not finite"
        );
        let (d, blur, c_lo, c_hi) = gains(&s, &g);
        let gain = d.abs() * c_hi.abs().max(c_lo.abs());
        let loud = before;
        before = before.max(gain);
        let Some(dir) = direction(&g) else { continue };
        if known.as_ref().is_none_or(|k| k.0 != dir) {
            moved += known.is_some() as usize;
            known = Some((dir, response(case.sr, dir)));
        }
        let (_, ears) = known.as_ref().unwrap();
        let (mut wrong, mut sure, mut late) = (None, 0, 0);
        for (ch, h) in ears.iter().enumerate() {
            let size: f64 = h.iter().map(|v| v.abs()).sum();
            let tol = top * size * (1e-4 * gain + 1e-6 * loud + blur) + 1e-30;
            for i in 0..RQ {
                let n = q * RQ + i;
                let y: f64 = (0..h.len().min(n + 1)).map(|k| h[k] * x[n - k]).sum();
                let (a, b) = (y * d * c_lo, y * d * c_hi);
                let (lo, hi) = (a.min(b) - tol, a.max(b) + tol);
                let got = out.get(ch).map_or(0., |c| c[i]) as f64;
                if !(got >= lo && got <= hi) && wrong.is_none() {
                    wrong = Some(format!("quantum {q}, frame {i}, ear {ch}: {got}, expected {lo}..{hi} (direction {dir:?}, {g:?}, {s:?})"));
                }
                obs.comparisons += 1;
                let narrow = hi - lo < 1e-2 * top && (lo > 0. || hi < 0.);
                sure += narrow as usize;
                late += (narrow && zero(&r.input[q])) as usize;
            }
        }
        match wrong {
            Some(_) if on_edge(case.sr, dir) => obs.label("undefined response"),
            Some(w) => return Err(w),
            None => {
                clear += sure;
                after += late;
            }
        }
    }
    obs.nontrivial_if(clear > 64);
    obs.label_if(after > 16, "tail");
    obs.label_if(moved > 0, "direction changed");
    obs.label_if(r.input.iter().any(|b| b.len() == 2), "stereo");
    obs.label_if(case.sr > 44100., "resampled");
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Side {
    sr: f32,
    /// degrees clockwise from straight ahead, degrees above the horizon
    azimuth: f32,
    elevation: f32,
    distance: f32,
    /// turn of the listener
    heading: f32,
    left: bool,
}

fn sides() -> BoxedStrategy<Side> {
    (
        rates(),
        40f32..140.,
        -20f32..20.,
        0.1f32..20.,
        -180f32..180.,
        any::<bool>(),
    )
        .prop_map(|(sr, azimuth, elevation, distance, heading, left)| Side {
            sr,
            azimuth,
            elevation,
            distance,
            heading,
            left,
        })
        .boxed()
}

/// The ear on the side of the source hears it louder
fn check_sides(case: &Side, obs: &mut Obs) -> CaseResult {
    let mut ctx = offline(1, 10 * RQ, case.sr);
    let az = if case.left {
        -case.azimuth
    } else {
        case.azimuth
    };
    let (a, e) = (
        (az + case.heading).to_radians(),
        case.elevation.to_radians(),
    );
    let at = [a.sin() * e.cos(), e.sin(), -a.cos() * e.cos()].map(|v| v * case.distance);
    let node = PannerNode::new(
        &ctx,
        PannerOptions {
            panning_model: PanningModelType::HRTF,
            position_x: at[0],
            position_y: at[1],
            position_z: at[2],
            ..Default::default()
        },
    );
    let h = case.heading.to_radians();
    let listener = ctx.listener();
    listener.forward_x().set_value(h.sin());
    listener.forward_z().set_value(-h.cos());
    let input = Input {
        parts: vec![Part {
            sig: Sig {
                channels: 1,
                len: 2 * RQ,
                amp: 1.,
                kind: SigKind::Noise(1),
            },
            at: 0,
        }],
    };
    let _sources: Vec<_> = input
        .sources(&ctx)
        .into_iter()
        .inspect(|s| {
            s.connect(&node);
        })
        .collect();
    let (_out, output) = observe(&ctx, &node, 0);
    let _ = ctx.start_rendering_sync();
    let mut power = [0f64; 2];
    for b in blocks(&output) {
        for (p, c) in power.iter_mut().zip(&b) {
            *p += c.iter().map(|v| (*v as f64).powi(2)).sum::<f64>();
        }
    }
    let (near, far) = if case.left {
        (power[0], power[1])
    } else {
        (power[1], power[0])
    };
    ensure!(
        near > 1.2 * far && near > 0.,
        "power {near} at the near ear, {far} at the other"
    );
    obs.comparisons += 1;
    obs.nontrivial_if(true);
    obs.label(if case.left { "left" } else { "right" });
    Ok(())
}

pub fn run(r: &mut Runner) {
    r.rule = "more than 64 samples are expected in a narrow range away from zero".into();
    r.assumptions = vec![
        "the responses are those of the measured sphere that comes with the library, interpolated by the hrtf crate".into(),
        "coordinates are those of a custom processor's parameter with the same automation, at the first frame of the quantum".into(),
        "directions within 1e-4 of a degenerate one only have to give finite output, unless they are exactly degenerate".into(),
        "sample rates from 44100: below, the hrtf crate's responses are longer than its blocks".into(),
        "directions within 1e-3 of an edge between measured directions may give another response".into(),
        "compared to 1e-4 of the largest possible sum".into(),
    ];
    r.suite(
        "convolution",
        3_000,
        100_000,
        || cases(QUANTA, rates()),
        check,
    );
    r.suite("sides", 1_000, 20_000, sides, check_sides);
}
