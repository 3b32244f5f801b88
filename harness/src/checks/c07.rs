//! C07: offline rendering is deterministic and causal
use crate::program::*;
use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use web_audio_api::context::AudioContextState;

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    program: Program,
    /// frames of the long and the short rendering
    frames: usize,
    short: usize,
    /// execute the second rendering on another thread at the same time
    threads: bool,
}

fn strategy() -> BoxedStrategy<Case> {
    program(Shape {
        profile: Profile::All,
        max_quanta: 20,
        drops: true,
        loops: true,
        wild: false,
        sr: sample_rate,
    })
    .prop_flat_map(|p| {
        let n = p.quanta * RQ;
        (
            Just(p),
            edge_len(RQ + 1..=n),
            0f64..1.,
            edge_len(1..=n),
            prop::bool::weighted(0.1),
        )
    })
    .prop_map(|(program, frames, u, short, threads)| Case {
        program,
        frames,
        short: if u < 0.5 {
            short.min(frames)
        } else {
            (frames as f64 * u) as usize
        }
        .max(1),
        threads,
    })
    .boxed()
}

fn check(case: &Case, obs: &mut Obs) -> CaseResult {
    let p = &case.program;
    let run = |frames: usize, async_: bool| {
        render(
            p,
            &Run {
                frames: Some(frames),
                async_,
                ..Default::default()
            },
        )
    };
    let first = run(case.frames, false);
    let (again, other) = if case.threads {
        std::thread::scope(|s| {
            let t = s.spawn(|| quietly(|| run(case.frames, false)));
            let other = run(case.frames, true);
            (t.join(), other)
        })
    } else {
        (Ok(run(case.frames, false)), run(case.frames, true))
    };
    let Ok(again) = again else {
        return Err("rendering panicked on another thread only".into());
    };
    let short = run(case.short, false);
    for (r, n, what) in [
        (&first, case.frames, "rendering"),
        (&other, case.frames, "asynchronous rendering"),
        (&short, case.short, "short rendering"),
    ] {
        ensure!(
            r.data.len() == p.channels,
            "{what}: {} channels",
            r.data.len()
        );
        for c in &r.data {
            ensure!(c.len() == n, "{what}: {} frames instead of {n}", c.len());
        }
        ensure!(r.sr == p.sr, "{what}: sample rate {}", r.sr);
        ensure!(
            r.end.0 == AudioContextState::Closed,
            "{what}: state {:?} at the end",
            r.end.0
        );
        let end = (n.div_ceil(RQ) * RQ) as f64 / p.sr as f64;
        ensure!(
            (r.end.1 - end).abs() <= 1e-12 * end,
            "{what}: time {} at the end, expected {end}",
            r.end.1
        );
    }
    obs.comparisons += identical("first versus second rendering", &first.data, &again.data)?;
    obs.comparisons += identical("blocking versus asynchronous", &first.data, &other.data)?;
    let head: Vec<Vec<f32>> = first
        .data
        .iter()
        .map(|c| c[..case.short].to_vec())
        .collect();
    obs.comparisons += identical("beginning versus short rendering", &head, &short.data)?;
    obs.nontrivial_if(peak(&head) > 1e-4);
    obs.label_if(case.threads, "concurrent");
    obs.label_if(case.frames % RQ != 0, "partial quantum");
    obs.label_if(p.ops.iter().any(|(q, _)| *q > 0), "changed while rendering");
    Ok(())
}

pub fn run(r: &mut Runner) {
    r.rule = "generated programs of all kinds of nodes, changed while rendering up to 20 quanta, rendered twice with the blocking call (at times concurrently), once with the asynchronous call and once with fewer frames; all must agree bit for bit; non-trivial: the shorter rendering has sound".into();
    r.assumptions = vec!["0 and -0 are equal".into()];
    r.suite("programs", 25_000, 500_000, strategy, check);
}
