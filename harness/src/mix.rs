//! Reference model of the Web Audio channel mixing rules.
#![allow(dead_code)]
use crate::util::Mode;

/// Mix one frame-major signal (channels x frames) to `n` channels
pub fn mix(input: &[Vec<f64>], n: usize, speakers: bool) -> Vec<Vec<f64>> {
    let m = input.len();
    let len = input.first().map_or(0, |c| c.len());
    if m == n {
        return input.to_vec();
    }
    let zero = || vec![0f64; len];
    let discrete = || {
        (0..n)
            .map(|c| if c < m { input[c].clone() } else { zero() })
            .collect::<Vec<_>>()
    };
    if !speakers {
        return discrete();
    }
    let s = |f: &dyn Fn(usize) -> f64| (0..len).map(f).collect::<Vec<f64>>();
    let h = std::f64::consts::FRAC_1_SQRT_2;
    let i = input;
    match (m, n) {
        // up-mixing
        (1, 2) => vec![i[0].clone(), i[0].clone()],
        (1, 4) => vec![i[0].clone(), i[0].clone(), zero(), zero()],
        (1, 6) => vec![zero(), zero(), i[0].clone(), zero(), zero(), zero()],
        (2, 4) => vec![i[0].clone(), i[1].clone(), zero(), zero()],
        (2, 6) => vec![i[0].clone(), i[1].clone(), zero(), zero(), zero(), zero()],
        // not in the Web Audio tables, but documented in the implementation: L, R, C = 0, SL, SR
        (4, 5) => vec![
            i[0].clone(),
            i[1].clone(),
            zero(),
            i[2].clone(),
            i[3].clone(),
        ],
        (4, 6) => vec![
            i[0].clone(),
            i[1].clone(),
            zero(),
            zero(),
            i[2].clone(),
            i[3].clone(),
        ],
        // down-mixing
        (2, 1) => vec![s(&|k| 0.5 * (i[0][k] + i[1][k]))],
        (4, 1) => vec![s(&|k| 0.25 * (i[0][k] + i[1][k] + i[2][k] + i[3][k]))],
        (6, 1) => vec![s(&|k| {
            h * (i[0][k] + i[1][k]) + i[2][k] + 0.5 * (i[4][k] + i[5][k])
        })],
        (4, 2) => vec![
            s(&|k| 0.5 * (i[0][k] + i[2][k])),
            s(&|k| 0.5 * (i[1][k] + i[3][k])),
        ],
        (6, 2) => vec![
            s(&|k| i[0][k] + h * (i[2][k] + i[4][k])),
            s(&|k| i[1][k] + h * (i[2][k] + i[5][k])),
        ],
        (6, 4) => vec![
            s(&|k| i[0][k] + h * i[2][k]),
            s(&|k| i[1][k] + h * i[2][k]),
            i[4].clone(),
            i[5].clone(),
        ],
        _ => discrete(),
    }
}

/// The number of channels an input computes with
pub fn computed(max_in: usize, count: usize, mode: Mode) -> usize {
    match mode {
        Mode::Max => max_in,
        Mode::ClampedMax => max_in.min(count),
        Mode::Explicit => count,
    }
}

/// Sum of all connections to one input. The list must not be empty.
pub fn junction(
    inputs: &[Vec<Vec<f64>>],
    count: usize,
    mode: Mode,
    speakers: bool,
) -> Vec<Vec<f64>> {
    let max_in = inputs.iter().map(|i| i.len()).max().unwrap_or(1).max(1);
    let n = computed(max_in, count, mode);
    let len = inputs.first().map_or(0, |i| i[0].len());
    let mut out = vec![vec![0f64; len]; n];
    for i in inputs {
        let m = mix(i, n, speakers);
        for (o, c) in out.iter_mut().zip(&m) {
            for (a, b) in o.iter_mut().zip(c) {
                *a += b;
            }
        }
    }
    out
}
