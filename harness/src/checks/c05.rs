//! C05: dropping handles is inaudible
use crate::program::*;
use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;

fn rates() -> BoxedStrategy<f32> {
    prop_oneof![
        Just(44100f32),
        Just(48000f32),
        Just(32768f32),
        Just(8000f32)
    ]
    .boxed()
}

fn strategy() -> BoxedStrategy<Program> {
    program(Shape {
        profile: Profile::All,
        max_quanta: 24,
        drops: true,
        loops: true,
        wild: false,
        sr: rates,
    })
    .prop_map(|mut p| {
        // The number of channels of silence is not specified and a node that is gone has none. So
        // either all nodes fix the number of channels or everything is mono.
        if p.explicit.is_none() {
            for (_, op) in p.ops.iter_mut() {
                if let Op::Create(s) = op {
                    match s {
                        Spec::Player(sig, ..) | Spec::Convolver(sig, _) => sig.channels = 1,
                        Spec::Panner(..) | Spec::StereoPan(_) | Spec::Split(_) | Spec::Merge(_) => {
                            *s = Spec::Gain(0.8)
                        }
                        _ => (),
                    }
                }
            }
        }
        // drop something
        let quanta = p.quanta;
        if !p.ops.iter().any(|(_, o)| matches!(o, Op::Drop(_))) {
            p.ops.push((quanta / 2, Op::Drop(1)));
            p.ops.sort_by_key(|(q, _)| *q);
        }
        p
    })
    .boxed()
}

/// A short sound, a chain of nodes with a memory, and a long silence
fn tails() -> BoxedStrategy<Program> {
    let node = prop_oneof![
        3 => (1usize..3000, 0f32..=1.).prop_map(|(m, v)| Spec::Delay(m, v)),
        2 => (0u8..8, [0f32..=1., 0f32..=1., 0f32..=1., 0f32..=1.])
            .prop_map(|(k, v)| Spec::Biquad(k, v)),
        2 => iir(),
        2 => (1usize..=12, -0.9f64..0.9, prop::collection::vec(prop_oneof![1 => Just(0f64), 1 => -1f64..1.], 0..8)).prop_map(|(n, g, mut ff)| {
            // echoes
            let mut fb = vec![0.; n];
            fb[0] = 1.;
            fb.push(g);
            ff.push(1.);
            Spec::Iir(ff, fb)
        }),
        3 => (sig(1usize..=1, 1..=2000), any::<bool>()).prop_map(|(mut s, n)| {
            s.amp = 0.2;
            Spec::Convolver(s, n)
        }),
        2 => [0f32..=1., 0f32..=1., 0f32..=1., 0f32..=1., 0f32..=1.].prop_map(Spec::Compressor),
        1 => (prop::collection::vec(-1f32..1., 1..6), 0u8..3).prop_map(|(c, o)| Spec::Shaper(c, o)),
        1 => (0f32..=1.).prop_map(Spec::Gain),
    ];
    (
        sig(1usize..=1, 1..=500),
        prop::collection::vec((node, 0usize..8), 1..4),
        (0usize..8, 0usize..300),
        prop::option::weighted(0.5, (1usize..=2, any::<bool>())),
        rates(),
        8usize..40,
    )
        .prop_map(|(sig, nodes, (at, start), explicit, sr, quanta)| {
            let mut ops = vec![(0, Op::Create(Spec::Player(sig, 0.5, 0.5, 0.5, None)))];
            ops.extend(nodes.iter().map(|(s, _)| (0, Op::Create(s.clone()))));
            ops.push((0, Op::Start(0, start as f64)));
            for i in 0..=nodes.len() {
                ops.push((0, Op::Connect(i as u16, 0, 0, 0)));
            }
            ops.push((at, Op::Drop(0)));
            for (i, (_, at)) in nodes.iter().enumerate() {
                ops.push((*at, Op::Drop(i as u16 + 1)));
            }
            ops.sort_by_key(|(q, _)| *q);
            Program {
                sr,
                channels: 1,
                quanta,
                explicit,
                wild: false,
                loops: false,
                ops,
            }
        })
        .boxed()
}

fn check(p: &Program, obs: &mut Obs) -> CaseResult {
    let dropped = render(p, &Run::default());
    let kept = render(
        p,
        &Run {
            keep: true,
            ..Default::default()
        },
    );
    let level = peak(&kept.data) as f64;
    if !(level < 1e4) {
        obs.label("too loud");
        return Ok(());
    }
    // sums may be evaluated in another order
    obs.comparisons += compare(
        "dropped versus kept handles",
        &dropped.data,
        &to64(&kept.data),
        1e-5 * level,
        1e-5,
    )?;
    let first = p
        .ops
        .iter()
        .find(|(_, o)| matches!(o, Op::Drop(_)))
        .map_or(p.quanta, |(q, _)| *q);
    let after = kept.data.iter().any(|c| {
        c[(first * RQ).min(c.len())..]
            .iter()
            .any(|v| v.abs() > 1e-4)
    });
    obs.nontrivial_if(after);
    obs.label_if(p.explicit.is_none(), "mono");
    obs.label_if(p.loops, "loops");
    Ok(())
}

pub fn run(r: &mut Runner) {
    r.rule = "generated programs of all kinds of nodes (created, connected, automated, started, stopped and dropped before and while rendering 4-24 quanta) are rendered once with the handles dropped and once with them kept; non-trivial: there is sound after the first drop".into();
    r.assumptions = vec![
        "outputs may differ by 1e-5 of the peak (order of summation)".into(),
        "all nodes have an explicit channel count, or all signals are mono, as the number of channels of silence is not specified".into(),
    ];
    r.suite("programs", 40_000, 1_000_000, strategy, check);
    r.suite("tails", 20_000, 500_000, tails, check);
}
