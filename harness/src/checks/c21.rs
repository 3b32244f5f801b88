//! C21: convolver
use crate::capture::*;
use crate::rig::*;
use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::{Arc, Mutex};
use web_audio_api::node::*;

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    sr: f32,
    quanta: usize,
    input: Input,
    count: usize,
    explicit: bool,
    response: Option<Sig>,
    normalize: bool,
    /// pass the response to the constructor, or set it afterwards
    late: bool,
    /// another response (with this normalization) from this quantum on
    then: Option<(usize, Sig, bool)>,
    drop: bool,
}

fn response() -> BoxedStrategy<Sig> {
    let len = prop_oneof![4 => 1usize..300, 2 => 300usize..1400, 1 => Just(1024usize), 1 => Just(128usize), 1 => Just(1usize), 1 => 1400usize..3000];
    (
        prop_oneof![Just(1usize), Just(2usize), Just(4usize)],
        len,
        sig_kind(),
        prop_oneof![3 => Just(1f32), 1 => 0.01f32..2., 1 => Just(1e-4f32)],
    )
        .prop_map(|(channels, len, kind, amp)| Sig {
            channels,
            len,
            kind,
            amp,
        })
        .boxed()
}

fn strategy() -> BoxedStrategy<Case> {
    prop_oneof![3 => 3usize..12, 2 => 12usize..30]
        .prop_flat_map(|quanta| {
            (
                prop_oneof![3 => Just(44100f32), 2 => Just(48000f32), 1 => Just(8000f32), 1 => Just(96000f32)],
                Just(quanta),
                input(|| Just(1usize).boxed(), quanta),
                1usize..=2,
                (1usize..=2, prop::bool::weighted(0.3)),
                prop::option::weighted(0.9, response()),
                (any::<bool>(), any::<bool>()),
                prop::option::weighted(0.15, (1..quanta, response(), any::<bool>())),
                prop::bool::weighted(0.3),
            )
        })
        .prop_map(|(sr, quanta, mut input, n, (count, explicit), response, (normalize, late), then, drop)| {
            input.parts.iter_mut().for_each(|p| p.sig.channels = n);
            Case { sr, quanta, input, count, explicit, response, normalize, late, then, drop }
        })
        .boxed()
}

fn scale(s: &Sig, sr: f32) -> f64 {
    let d = s.data();
    let sum: f64 = d.iter().flatten().map(|v| (*v as f64).powi(2)).sum();
    let mut power = (sum / (s.channels * s.len) as f64).sqrt();
    if !power.is_finite() || power < 0.000125 {
        power = 0.000125;
    }
    0.00125 / power * 44100. / sr as f64 * if s.channels == 4 { 0.5 } else { 1. }
}

/// Convolve frames from.. of x with h, add to out
fn convolve(out: &mut [f64], x: &[f64], from: usize, h: &[f64]) {
    for (i, x) in x.iter().enumerate().skip(from) {
        if *x != 0. {
            for (k, h) in h.iter().enumerate() {
                if i + k >= out.len() {
                    break;
                }
                out[i + k] += x * h;
            }
        }
    }
}

fn check(case: &Case, obs: &mut Obs) -> CaseResult {
    let n = case.quanta * RQ;
    let mut ctx = offline(1, n, case.sr);
    let mode = if case.explicit {
        Mode::Explicit
    } else {
        Mode::ClampedMax
    };
    let opts = node_opts(case.count, mode, true);
    let mut node = ConvolverNode::new(
        &ctx,
        ConvolverOptions {
            buffer: if case.late {
                None
            } else {
                case.response.as_ref().map(|s| s.buffer(case.sr))
            },
            disable_normalization: if case.late {
                case.normalize
            } else {
                !case.normalize
            },
            audio_node_options: opts.clone(),
        },
    );
    if case.late {
        node.set_normalize(case.normalize);
        if let Some(s) = &case.response {
            node.set_buffer(s.buffer(case.sr));
        }
    }
    let (src, _cap, input) = feed(&ctx, &case.input, &node, opts);
    let (_cap2, output) = observe(&ctx, &node, 0);
    let mut keep = Some((src, Arc::new(Mutex::new(Some(node)))));
    if let Some((q, s, norm)) = case.then.clone() {
        let node = keep.as_ref().unwrap().1.clone();
        let (sr, drop) = (case.sr, case.drop);
        ctx.suspend_sync((q * RQ - 64) as f64 / case.sr as f64, move |_| {
            let mut n = node.lock().unwrap();
            let c = n.as_mut().unwrap();
            c.set_normalize(norm);
            c.set_buffer(s.buffer(sr));
            if drop {
                *n = None;
            }
        });
    } else if case.drop {
        keep = None;
    }
    let _ = ctx.start_rendering_sync();
    drop(keep);

    let input = blocks(&input);
    let got = blocks(&output);
    ensure!(got.len() == case.quanta, "{} quanta", got.len());
    // the channels of the input while it sounds
    let channels = input
        .iter()
        .filter(|b| !zero(b))
        .map(|b| b.len())
        .max()
        .unwrap_or(1);
    if input.iter().any(|b| !zero(b) && b.len() != channels) {
        return Ok(());
    }
    let x: Vec<Vec<f64>> = (0..channels)
        .map(|c| {
            input
                .iter()
                .flat_map(|b| {
                    if b.len() == channels {
                        b[c].clone()
                    } else {
                        vec![0.; RQ]
                    }
                })
                .map(|v| v as f64)
                .collect()
        })
        .collect();

    // phases between changes of the response
    let mut phases = vec![(0, case.response.clone(), case.normalize)];
    if let Some((q, s, norm)) = &case.then {
        phases.push((*q, Some(s.clone()), *norm));
    }
    let mut heard = false;
    for (k, (from, resp, norm)) in phases.iter().enumerate() {
        let to = phases.get(k + 1).map(|p| p.0).unwrap_or(case.quanta);
        let (a, b) = (from * RQ, to * RQ);
        let (expect, tol) = match resp {
            None => (x.iter().map(|c| c[a..b].to_vec()).collect::<Vec<_>>(), 0.),
            Some(s) => {
                let scale = if *norm { scale(s, case.sr) } else { 1. };
                let h: Vec<Vec<f64>> = s
                    .data()
                    .iter()
                    .map(|c| c.iter().map(|v| *v as f64 * scale).collect())
                    .collect();
                let outs = if channels == 1 && s.channels == 1 {
                    1
                } else {
                    2
                };
                let mut e = vec![vec![0f64; b]; outs];
                for (o, e) in e.iter_mut().enumerate() {
                    // input channel 0 / 1 through response channel ...
                    match (channels, s.channels) {
                        (1, 1) => convolve(e, &x[0][..b], a, &h[0]),
                        (1, 2) => convolve(e, &x[0][..b], a, &h[o]),
                        (2, 1) => convolve(e, &x[o][..b], a, &h[0]),
                        (2, 2) => convolve(e, &x[o][..b], a, &h[o]),
                        (i, _) => {
                            convolve(e, &x[0][..b], a, &h[o]);
                            convolve(e, &x[i - 1][..b], a, &h[o + 2]);
                        }
                    }
                }
                let hn = h
                    .iter()
                    .map(|c| c.iter().map(|v| v * v).sum::<f64>().sqrt())
                    .fold(0., f64::max);
                let xn = x
                    .iter()
                    .map(|c| c[..b].iter().map(|v| v * v).sum::<f64>().sqrt())
                    .fold(0., f64::max);
                // trailing coefficients below 1e-6 may be cut off
                let cut: f64 = h
                    .iter()
                    .map(|c| {
                        c.iter()
                            .rev()
                            .take_while(|v| v.abs() < 1.1e-6)
                            .map(|v| v.abs())
                            .sum::<f64>()
                    })
                    .fold(0., f64::max);
                let sum = if *norm {
                    6e-8 * (s.len * s.channels) as f64 * peak64(&e)
                } else {
                    0.
                };
                let tol = 4e-6 * hn * xn + sum + cut * 2. * peak64(&x);
                (e.iter().map(|c| c[a..b].to_vec()).collect(), tol)
            }
        };
        heard |= peak64(&expect) > 10. * tol && peak64(&expect) > 0.;
        let eb: Vec<Vec<Vec<f64>>> = (0..to - from)
            .map(|q| {
                expect
                    .iter()
                    .map(|c| c[q * RQ..(q + 1) * RQ].to_vec())
                    .collect()
            })
            .collect();
        // one channel stands for two equal ones where the input is mono silence
        let g: Vec<Vec<Vec<f32>>> = got[*from..to].to_vec();
        for (q, (g, e)) in g.iter().zip(&eb).enumerate() {
            obs.comparisons += compare_blocks(
                &format!("from quantum {}", from + q),
                std::slice::from_ref(g),
                std::slice::from_ref(e),
                tol,
                0.,
            )
            .or_else(|m| {
                // equal channels may be output as one
                if g.len() == 1 && e.len() == 2 {
                    compare_blocks(
                        &m,
                        &[vec![g[0].clone(), g[0].clone()]],
                        std::slice::from_ref(e),
                        tol,
                        0.,
                    )
                } else {
                    Err(m)
                }
            })?;
        }
    }
    obs.nontrivial_if(heard);
    obs.label_if(case.response.is_none(), "no response at first");
    obs.label_if(case.then.is_some(), "response replaced while rendering");
    obs.label_if(channels == 2, "stereo input");
    if let Some(s) = &case.response {
        obs.label_if(s.channels == 2, "stereo response");
        obs.label_if(s.channels == 4, "true stereo response");
        obs.label_if(s.len > 1024, "response longer than 1024 frames");
        obs.label_if(case.normalize, "normalized");
    }
    obs.label_if(case.drop, "handles dropped");
    Ok(())
}

pub fn run(r: &mut Runner) {
    r.rule = "the expected output rises to ten times the tolerance".into();
    r.assumptions = vec![
        "the mixed input is what a custom processor with the same channel options receives".into(),
        "the input has one number of channels while it sounds".into(),
        "when the response is replaced, the convolution starts afresh with the audio from that quantum on".into(),
        "tolerance: 4e-6 of the product of the norms of signal and response; when normalizing, 6e-8 of the peak per response sample (single precision sum of squares); trailing response samples below 1e-6 may be ignored".into(),
    ];
    r.suite("convolution", 60_000, 200_000, strategy, check);
}
