//! C29: time shift and linearity
use crate::program::*;
use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Shift {
    program: Program,
    shift: usize,
}

fn exact() -> BoxedStrategy<f32> {
    prop_oneof![4 => Just(32768f32), 1 => Just(16384f32), 1 => Just(65536f32)].boxed()
}

fn shifts() -> BoxedStrategy<Shift> {
    (
        program(Shape {
            profile: Profile::All,
            max_quanta: 20,
            drops: true,
            loops: true,
            wild: false,
            sr: exact,
        }),
        prop_oneof![4 => 1usize..10, 1 => 10usize..60],
    )
        .prop_map(|(program, shift)| Shift { program, shift })
        .boxed()
}

fn check_shift(case: &Shift, obs: &mut Obs) -> CaseResult {
    let p = &case.program;
    let plain = render(p, &Run::default());
    let later = render(
        p,
        &Run {
            shift: case.shift,
            ..Default::default()
        },
    );
    let n = case.shift * RQ;
    for (c, d) in later.data.iter().enumerate() {
        if let Some(i) = d[..n].iter().position(|v| *v != 0.) {
            return Err(format!(
                "channel {c} frame {i}: {} before the program starts",
                d[i]
            ));
        }
    }
    let tail: Vec<Vec<f32>> = later.data.iter().map(|c| c[n..].to_vec()).collect();
    obs.comparisons += identical("later versus original", &tail, &plain.data)?;
    obs.nontrivial_if(peak(&plain.data) > 1e-4);
    obs.label_if(p.ops.iter().any(|(q, _)| *q > 0), "changed while rendering");
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Linear {
    program: Program,
    /// power of two
    scale: i32,
}

fn linear() -> BoxedStrategy<Linear> {
    (
        program(Shape {
            profile: Profile::Linear,
            max_quanta: 20,
            drops: true,
            loops: true,
            wild: false,
            sr: sample_rate,
        }),
        (1usize..=2, any::<bool>()),
        prop_oneof![(-8i32..=8), Just(-1i32), Just(1i32)],
    )
        .prop_map(|(mut program, explicit, scale)| {
            // the number of channels must not depend on what is audible
            program.explicit.get_or_insert(explicit);
            Linear { program, scale }
        })
        .boxed()
}

/// The program with the signals of the n-th player scaled by `f(n)`
fn scaled(p: &Program, f: impl Fn(usize) -> f32) -> Program {
    let mut p = p.clone();
    let mut n = 0;
    for (_, op) in p.ops.iter_mut() {
        if let Op::Create(Spec::Player(sig, ..)) = op {
            sig.amp *= f(n);
            n += 1;
        }
    }
    p
}

fn check_linear(case: &Linear, obs: &mut Obs) -> CaseResult {
    let p = &case.program;
    let plain = render(p, &Run::default());
    let level = peak(&plain.data) as f64;
    if !(level < 1e6) {
        obs.label("too loud");
        return Ok(());
    }
    let k = 2f32.powi(case.scale);
    let loud = render(&scaled(p, |_| k), &Run::default());
    let want: Vec<Vec<f64>> = plain
        .data
        .iter()
        .map(|c| c.iter().map(|v| *v as f64 * k as f64).collect())
        .collect();
    obs.comparisons += compare("scaled", &loud.data, &want, 1e-30, 0.)?;
    let (even, odd) = (
        render(
            &scaled(p, |n| if n % 2 == 0 { 1. } else { 0. }),
            &Run::default(),
        ),
        render(
            &scaled(p, |n| if n % 2 == 1 { 1. } else { 0. }),
            &Run::default(),
        ),
    );
    // what is rendered may be the difference of louder signals
    let sources: f64 = p
        .ops
        .iter()
        .filter_map(|(_, op)| match op {
            Op::Create(Spec::Player(sig, ..)) => Some(sig.amp.abs() as f64),
            _ => None,
        })
        .sum();
    let both = peak(&even.data).max(peak(&odd.data)) as f64;
    let sum: Vec<Vec<f64>> = even
        .data
        .iter()
        .zip(&odd.data)
        .map(|(a, b)| {
            a.iter()
                .zip(b)
                .map(|(a, b)| *a as f64 + *b as f64)
                .collect()
        })
        .collect();
    obs.comparisons += compare(
        "sum",
        &plain.data,
        &sum,
        2e-5 * both.max(level).max(sources),
        1e-5,
    )?;
    obs.nontrivial_if(level > 1e-4);
    obs.label_if(
        peak(&even.data) > 1e-4 && peak(&odd.data) > 1e-4,
        "several sources",
    );
    Ok(())
}

pub fn run(r: &mut Runner) {
    r.rule = "shift: generated programs of all kinds of nodes, changed while rendering, executed once from the beginning and once 1-59 quanta later (bit-identical after the shift, zeros before); linear: programs of linear nodes, with all sources scaled by a power of two (exact) and with the sources split into two groups (sum); non-trivial: audible output".into();
    r.assumptions = vec![
        "shifts: sample rates are powers of two and times multiples of 1/64 frame, so that all times are exact".into(),
        "sums: tolerance 2e-5 of the peak of the output and the sources; all nodes have an explicit channel count as the number of channels decides on the panning algorithm".into(),
    ];
    r.suite("shift", 30_000, 1_000_000, shifts, check_shift);
    r.suite("linear", 20_000, 500_000, linear, check_linear);
}
