//! C39: graphs may be built from many threads at once
use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering};
use std::sync::{mpsc, Arc, Barrier};
use std::time::{Duration, Instant};
use web_audio_api::context::*;
use web_audio_api::node::*;
use web_audio_api::worklet::*;
use web_audio_api::AudioParam;

/// Operations of one thread. Nodes are numbered per thread, in the order of creation; numbers are
/// taken modulo what exists. All signals are small whole numbers.
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    /// value, start frame
    Constant(i8, u16),
    /// samples, start frame
    Player(Vec<i8>, u16),
    Gain(i8),
    /// frames
    Delay(u8),
    Custom,
    Panner,
    Analyser,
    /// a number of nodes that are not used, and dropped
    Junk(u8),
    /// to a later node, or one of the shared nodes (bit 0)
    Wire(u8, u8),
    /// to the parameter of a shared node
    Modulate(u8, u8),
    /// remove one connection or all of them
    Unwire(u8, Option<u8>),
    /// frame
    Stop(u8, u16),
    /// shared node, quantum (every thread uses a frame of its own)
    Schedule(u8, u8, i8),
    Drop(u8),
    Spin(u16),
}

fn op(live: bool) -> BoxedStrategy<Op> {
    let frame = move || {
        if live {
            Just(0u16).boxed()
        } else {
            (0u16..1500).boxed()
        }
    };
    let factor = || prop_oneof![Just(-1i8), Just(1i8), Just(2i8)];
    let mut v = vec![
        (
            4,
            (-9i8..10, frame())
                .prop_map(|(v, t)| Op::Constant(v, t))
                .boxed(),
        ),
        (3, factor().prop_map(Op::Gain).boxed()),
        (1, (0u8..200).prop_map(Op::Delay).boxed()),
        (1, Just(Op::Custom).boxed()),
        (1, Just(Op::Panner).boxed()),
        (1, Just(Op::Analyser).boxed()),
        (2, (1u8..8).prop_map(Op::Junk).boxed()),
        (
            9,
            (any::<u8>(), any::<u8>())
                .prop_map(|(a, b)| Op::Wire(a, b))
                .boxed(),
        ),
        (
            3,
            (any::<u8>(), any::<Option<u8>>())
                .prop_map(|(a, b)| Op::Unwire(a, b))
                .boxed(),
        ),
        (
            1,
            (any::<u8>(), frame())
                .prop_map(|(a, t)| Op::Stop(a, t))
                .boxed(),
        ),
        (2, any::<u8>().prop_map(Op::Drop).boxed()),
        (1, (0u16..3000).prop_map(Op::Spin).boxed()),
        (
            1,
            (any::<u8>(), any::<u8>())
                .prop_map(|(a, b)| Op::Modulate(a, b))
                .boxed(),
        ),
    ];
    if !live {
        v.push((
            2,
            (prop::collection::vec(-9i8..10, 1..300), frame())
                .prop_map(|(v, t)| Op::Player(v, t))
                .boxed(),
        ));
        v.push((
            2,
            (any::<u8>(), 0u8..12, -3i8..4)
                .prop_map(|(h, q, v)| Op::Schedule(h, q, v))
                .boxed(),
        ));
    }
    prop::strategy::Union::new_weighted(v).boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    shared: usize,
    /// operations of every thread, in every phase
    phases: Vec<Vec<Vec<Op>>>,
}

fn case(live: bool) -> BoxedStrategy<Case> {
    (2usize..6, 1usize..4, 1usize..5)
        .prop_flat_map(move |(threads, phases, shared)| {
            let ops = prop::collection::vec(op(live), 3..30);
            let phase = prop::collection::vec(ops, threads);
            (Just(shared), prop::collection::vec(phase, phases))
        })
        .prop_map(|(shared, phases)| Case { shared, phases })
        .boxed()
}

fn offline_case() -> BoxedStrategy<Case> {
    case(false)
}

fn live_case() -> BoxedStrategy<Case> {
    case(true)
}

struct Pass;

impl AudioWorkletProcessor for Pass {
    type ProcessorOptions = ();
    fn constructor(_: ()) -> Self {
        Self
    }
    fn process<'a, 'b>(
        &mut self,
        inputs: &'b [&'a [&'a [f32]]],
        outputs: &'b mut [&'a mut [&'a mut [f32]]],
        _params: AudioParamValues<'b>,
        _scope: &'b AudioWorkletGlobalScope,
    ) -> bool {
        for (o, i) in outputs[0].iter_mut().zip(inputs[0]) {
            o.copy_from_slice(i);
        }
        false
    }
}

enum Kind {
    Constant(ConstantSourceNode),
    Player(AudioBufferSourceNode),
    Gain(GainNode),
    Delay(DelayNode),
    Custom(AudioWorkletNode),
    Panner(PannerNode),
    Analyser(AnalyserNode),
}

impl Kind {
    fn node(&self) -> &dyn AudioNode {
        match self {
            Kind::Constant(n) => n,
            Kind::Player(n) => n,
            Kind::Gain(n) => n,
            Kind::Delay(n) => n,
            Kind::Custom(n) => n,
            Kind::Panner(n) => n,
            Kind::Analyser(n) => n,
        }
    }
}

/// Nodes that are used by all threads
struct Shared {
    hubs: Vec<GainNode>,
    ended: Arc<AtomicUsize>,
}

impl Shared {
    /// The shared nodes are the channels of the output
    fn new<C: BaseAudioContext>(ctx: &C, n: usize, to: &dyn AudioNode) -> Self {
        let merger = ctx.create_channel_merger(n.max(1));
        let hubs = (0..n)
            .map(|i| {
                let mut g = ctx.create_gain();
                g.set_channel_count(1);
                g.set_channel_count_mode(ChannelCountMode::Explicit);
                g.connect_from_output_to_input(&merger, 0, i);
                g
            })
            .collect();
        merger.connect(to);
        Self {
            hubs,
            ended: Default::default(),
        }
    }
    fn param(&self, k: u8) -> &AudioParam {
        self.hubs[k as usize % self.hubs.len()].gain()
    }
}

/// What a thread knows
#[derive(Default)]
struct Mine {
    /// node, playing
    nodes: Vec<Option<(Kind, bool)>>,
    /// connections: from, to (own node)
    wires: Vec<(usize, Target)>,
    ops: usize,
    /// sources that were stopped
    stopped: usize,
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Target {
    Own(usize),
    Hub(usize),
    Param(usize),
}

impl Mine {
    fn pick(&self, k: u8) -> Option<usize> {
        let n = self.nodes.len();
        if n == 0 {
            return None;
        }
        let i = k as usize % n;
        self.nodes[i].is_some().then_some(i)
    }

    /// Returns the nodes that are dropped by someone else
    fn exec<C: BaseAudioContext>(
        &mut self,
        ctx: &C,
        shared: &Shared,
        thread: usize,
        live: bool,
        op: &Op,
    ) -> Option<Kind> {
        let sr = ctx.sample_rate() as f64;
        self.ops += 1;
        let mut add = |k: Kind, playing: bool| self.nodes.push(Some((k, playing)));
        match op {
            Op::Constant(v, t) => {
                let mut n = ctx.create_constant_source();
                n.offset().set_value(*v as f32);
                let ended = shared.ended.clone();
                n.set_onended(move |_| {
                    ended.fetch_add(1, Ordering::SeqCst);
                });
                n.start_at(*t as f64 / sr);
                add(Kind::Constant(n), true);
            }
            Op::Player(v, t) => {
                let data: Vec<f32> = v.iter().map(|v| *v as f32).collect();
                let mut b = ctx.create_buffer(1, data.len(), ctx.sample_rate());
                b.copy_to_channel(&data, 0);
                let mut n = ctx.create_buffer_source();
                n.set_buffer(b);
                let ended = shared.ended.clone();
                n.set_onended(move |_| {
                    ended.fetch_add(1, Ordering::SeqCst);
                });
                n.start_at(*t as f64 / sr);
                add(Kind::Player(n), true);
            }
            Op::Gain(v) => {
                let n = ctx.create_gain();
                n.gain().set_value(*v as f32);
                add(Kind::Gain(n), false);
            }
            Op::Delay(f) => {
                let n = ctx.create_delay(1000. / sr);
                n.delay_time().set_value((*f as f64 / sr) as f32);
                add(Kind::Delay(n), false);
            }
            Op::Custom => {
                let n = AudioWorkletNode::new::<Pass>(ctx, AudioWorkletNodeOptions::default());
                add(Kind::Custom(n), false);
            }
            Op::Panner => {
                let n = ctx.create_panner();
                n.position_x().set_value(thread as f32 - 1.);
                add(Kind::Panner(n), false);
            }
            Op::Analyser => add(Kind::Analyser(ctx.create_analyser()), false),
            Op::Junk(k) => {
                for i in 0..*k {
                    let g = ctx.create_gain();
                    if i % 2 == 0 {
                        g.connect(&shared.hubs[i as usize % shared.hubs.len()]);
                    }
                }
            }
            Op::Wire(a, b) => {
                let from = self.pick(*a)?;
                let to = if b & 1 == 1 {
                    let k = (*b as usize / 2) % shared.hubs.len();
                    Target::Hub(k)
                } else {
                    let k = from + 1 + (*b as usize / 2) % 4;
                    match self.nodes.get(k)?.as_ref()?.0 {
                        Kind::Constant(_) | Kind::Player(_) => return None,
                        _ => Target::Own(k),
                    }
                };
                let node = self.nodes[from].as_ref().unwrap().0.node();
                match to {
                    Target::Own(k) => node.connect(self.nodes[k].as_ref().unwrap().0.node()),
                    Target::Hub(k) | Target::Param(k) => node.connect(&shared.hubs[k]),
                };
                if !self.wires.contains(&(from, to)) {
                    self.wires.push((from, to));
                }
            }
            Op::Modulate(a, b) => {
                let from = self.pick(*a)?;
                let k = *b as usize % shared.hubs.len();
                // only sources, the result would grow too much
                let (kind, _) = self.nodes[from].as_ref().unwrap();
                if matches!(kind, Kind::Constant(_)) {
                    kind.node().connect(shared.param(*b));
                    if !self.wires.contains(&(from, Target::Param(k))) {
                        self.wires.push((from, Target::Param(k)));
                    }
                }
            }
            Op::Unwire(a, which) => {
                let from = self.pick(*a)?;
                let node = self.nodes[from].as_ref().unwrap().0.node();
                let mine: Vec<usize> = (0..self.wires.len())
                    .filter(|i| self.wires[*i].0 == from)
                    .collect();
                match which {
                    Some(k) if !mine.is_empty() => {
                        let i = mine[*k as usize % mine.len()];
                        match self.wires[i].1 {
                            Target::Own(k) => {
                                // the handle is required
                                let (to, _) = self.nodes[k].as_ref()?;
                                node.disconnect_dest(to.node())
                            }
                            Target::Hub(k) => node.disconnect_dest(&shared.hubs[k]),
                            Target::Param(k) => node.disconnect_dest(shared.param(k as u8)),
                        }
                        self.wires.remove(i);
                    }
                    _ => {
                        node.disconnect();
                        self.wires.retain(|w| w.0 != from);
                    }
                }
            }
            Op::Stop(a, t) => {
                let i = self.pick(*a)?;
                let (kind, playing) = self.nodes[i].as_mut().unwrap();
                if *playing {
                    *playing = false;
                    self.stopped += 1;
                    match kind {
                        Kind::Constant(n) => n.stop_at(*t as f64 / sr),
                        Kind::Player(n) => n.stop_at(*t as f64 / sr),
                        _ => (),
                    }
                }
            }
            Op::Schedule(h, q, v) => {
                // the order of the calls does not matter for different times
                let frame = (*q as usize * 16 + thread) * 8 + 1;
                shared
                    .param(*h)
                    .set_value_at_time(*v as f32, frame as f64 / sr);
            }
            Op::Drop(a) => {
                let i = self.pick(*a)?;
                if live {
                    // sources that play forever are never freed
                    if let Some((Kind::Constant(n), true)) = self.nodes[i].as_mut() {
                        n.stop();
                        self.stopped += 1;
                    }
                }
                let (kind, _) = self.nodes[i].take().unwrap();
                self.wires.retain(|w| w.0 != i);
                return Some(kind);
            }
            Op::Spin(n) => {
                for i in 0..*n {
                    std::hint::black_box(i);
                }
            }
        }
        None
    }
}

/// Run the operations of a phase, either at once or one thread after the other
fn phase<C: BaseAudioContext + Sync>(
    ctx: &C,
    shared: &Shared,
    mine: &mut [Mine],
    ops: &[Vec<Op>],
    live: bool,
    together: bool,
) -> CaseResult {
    if !together {
        for (t, (m, ops)) in mine.iter_mut().zip(ops).enumerate() {
            for op in ops {
                drop(m.exec(ctx, shared, t, live, op));
            }
        }
        return Ok(());
    }
    let barrier = Barrier::new(ops.len());
    std::thread::scope(|s| {
        // another thread drops half of the nodes
        let (bin, rubbish) = mpsc::channel::<Kind>();
        s.spawn(move || {
            quietly(|| {
                for k in rubbish {
                    drop(k);
                }
            })
        });
        let handles: Vec<_> = mine
            .iter_mut()
            .zip(ops)
            .enumerate()
            .map(|(t, (m, ops))| {
                let (barrier, bin) = (&barrier, bin.clone());
                s.spawn(move || {
                    quietly(|| {
                        barrier.wait();
                        catch_unwind(AssertUnwindSafe(|| {
                            for (i, op) in ops.iter().enumerate() {
                                if let Some(k) = m.exec(ctx, shared, t, live, op) {
                                    if i % 2 == 0 {
                                        let _ = bin.send(k);
                                    }
                                }
                            }
                        }))
                        .map_err(|_| format!("an operation panicked: {:?}", take_panics()))
                    })
                })
            })
            .collect();
        drop(bin);
        for h in handles {
            h.join().map_err(|_| "thread panicked".to_string())??;
        }
        Ok(())
    })
}

const PATIENCE: Duration = Duration::from_secs(30);

/// Run on a thread of its own, to notice when it gets stuck
fn contained<C: Clone + Send + 'static>(
    case: &C,
    obs: &mut Obs,
    f: impl Fn(&C, &mut Obs) -> CaseResult + Send + 'static,
) -> CaseResult {
    let (send, recv) = mpsc::channel();
    let case = case.clone();
    std::thread::spawn(move || {
        quietly(|| {
            let mut o = Obs::default();
            let r = catch_unwind(AssertUnwindSafe(|| f(&case, &mut o)));
            let panics = take_panics();
            let r = match r {
                Ok(r) => r.and_then(|()| {
                    ensure!(panics.is_empty(), "contained panics: {panics:?}");
                    Ok(())
                }),
                Err(_) => Err(format!("panicked: {panics:?}")),
            };
            let _ = send.send((r, o));
        })
    });
    match recv.recv_timeout(PATIENCE) {
        Ok((r, o)) => {
            *obs = o;
            r
        }
        Err(_) => Err(format!("the threads are stuck (for {PATIENCE:?})")),
    }
}

const FRAMES: usize = 16 * RQ;

fn build(case: &Case, together: bool) -> Result<(Vec<Vec<f32>>, usize, usize), String> {
    let sr = 32768.;
    let mut ctx = OfflineAudioContext::new(case.shared, FRAMES, sr);
    let shared = Shared::new(&ctx, case.shared, &ctx.destination());
    let threads = case.phases[0].len();
    let mine: Vec<Mine> = (0..threads).map(|_| Mine::default()).collect();
    let ended = shared.ended.clone();
    let all = Arc::new(std::sync::Mutex::new((shared, mine, Ok(()))));
    for (i, ops) in case.phases.iter().enumerate().skip(1) {
        let (all, ops) = (all.clone(), ops.clone());
        ctx.suspend_sync((i * 4 * RQ - 64) as f64 / sr as f64, move |ctx| {
            let mut all = all.lock().unwrap();
            let (shared, mine, result) = &mut *all;
            if result.is_ok() {
                *result = phase(ctx, shared, mine, &ops, false, together);
            }
        });
    }
    {
        let mut all = all.lock().unwrap();
        let (shared, mine, result) = &mut *all;
        *result = phase(&ctx, shared, mine, &case.phases[0], false, together);
        result.clone()?;
    }
    let data = to_vecs(&ctx.start_rendering_sync());
    let all = all.lock().unwrap();
    all.2.clone()?;
    let ops = all.1.iter().map(|m| m.ops).sum();
    Ok((data, ended.load(Ordering::SeqCst), ops))
}

fn check_offline(case: &Case, obs: &mut Obs) -> CaseResult {
    let (expect, ended, _) = build(case, false)?;
    let (got, ended2, ops) = build(case, true)?;
    let p = peak(&expect).max(1.) as f64;
    // what is lost are whole numbers (or the gains of a panner), only the order of sums differs
    obs.comparisons += compare(
        "built by threads versus one after the other",
        &got,
        &to64(&expect),
        1e-5 * p,
        0.,
    )?;
    ensure!(ended == ended2, "{ended2} sources ended, expected {ended}");
    obs.nontrivial_if(peak(&expect) > 0. && ops >= 8);
    obs.label_if(case.phases.len() > 1, "while rendering");
    obs.label_if(ended > 0, "ended events");
    Ok(())
}

// ---------------------------------------------------------------------------------------------

#[derive(Clone, Default)]
struct Watch {
    blocks: Arc<AtomicUsize>,
    values: Arc<[AtomicU32; 8]>,
}

struct Observer(Watch);

impl AudioWorkletProcessor for Observer {
    type ProcessorOptions = Watch;
    fn constructor(w: Watch) -> Self {
        Self(w)
    }
    fn process<'a, 'b>(
        &mut self,
        inputs: &'b [&'a [&'a [f32]]],
        _outputs: &'b mut [&'a mut [&'a mut [f32]]],
        _params: AudioParamValues<'b>,
        _scope: &'b AudioWorkletGlobalScope,
    ) -> bool {
        for (c, v) in self.0.values.iter().enumerate() {
            let x = inputs[0].get(c).and_then(|c| c.last()).copied();
            v.store(x.unwrap_or(0.).to_bits(), Ordering::SeqCst);
        }
        self.0.blocks.fetch_add(1, Ordering::SeqCst);
        true
    }
}

fn wait_for(what: &str, mut f: impl FnMut() -> bool) -> CaseResult {
    let start = Instant::now();
    while !f() {
        ensure!(start.elapsed() < PATIENCE / 2, "{what}");
        std::thread::sleep(Duration::from_micros(50));
    }
    Ok(())
}

fn node_count(ctx: &AudioContext) -> Result<usize, String> {
    let (send, recv) = mpsc::channel();
    ctx.run_diagnostics(move |d| {
        let _ = send.send(d.graph.nodes.len());
    });
    recv.recv_timeout(PATIENCE / 2)
        .map_err(|_| "no diagnostic report".to_string())
}

fn check_live(case: &Case, obs: &mut Obs) -> CaseResult {
    // the steady state of the same graph
    let last = case.phases.len();
    let sr = 768_000.;
    let mut steady = OfflineAudioContext::new(case.shared, 40 * RQ, sr);
    let threads = case.phases[0].len();
    let mut mine: Vec<Mine> = (0..threads).map(|_| Mine::default()).collect();
    let s = Shared::new(&steady, case.shared, &steady.destination());
    for p in &case.phases {
        phase(&steady, &s, &mut mine, p, true, false)?;
    }
    let ended = mine.iter().map(|m| m.stopped).sum();
    let expect: Vec<f32> = to_vecs(&steady.start_rendering_sync())
        .iter()
        .map(|c| *c.last().unwrap())
        .collect();

    let ctx = AudioContext::new(AudioContextOptions {
        sample_rate: Some(sr),
        sink_id: "none".into(),
        ..Default::default()
    });
    let result = live(case, &ctx, &expect, ended, obs);
    ctx.close_sync();
    result?;
    obs.nontrivial_if(expect.iter().any(|v| *v != 0.));
    obs.label_if(last > 1, "several phases");
    Ok(())
}

fn live(
    case: &Case,
    ctx: &AudioContext,
    expect: &[f32],
    ended: usize,
    obs: &mut Obs,
) -> CaseResult {
    // the listener is added with the first panner
    drop(ctx.create_panner());
    let watch = Watch::default();
    let observer = AudioWorkletNode::new::<Observer>(
        ctx,
        AudioWorkletNodeOptions {
            processor_options: watch.clone(),
            ..Default::default()
        },
    );
    observer.connect(&ctx.destination());
    let settle = |what: &str| {
        let from = watch.blocks.load(Ordering::SeqCst);
        wait_for(&format!("{what}: nothing is rendered"), || {
            watch.blocks.load(Ordering::SeqCst) >= from + 30
        })
    };
    settle("at the start")?;
    let baseline = node_count(ctx)?;
    let mut mine: Vec<Mine> = case.phases[0].iter().map(|_| Mine::default()).collect();
    let shared = Shared::new(ctx, case.shared, &observer);
    for p in &case.phases {
        phase(ctx, &shared, &mut mine, p, true, true)?;
    }
    settle("at the end")?;
    for (c, e) in expect.iter().enumerate() {
        let got = f32::from_bits(watch.values[c].load(Ordering::SeqCst));
        ensure!(
            (got - e).abs() <= 1e-5 * e.abs().max(100.),
            "shared node {c}: rendered {got}, expected {e}"
        );
        obs.comparisons += 1;
    }
    let seen = || shared.ended.load(Ordering::SeqCst);
    wait_for(
        &format!("{ended} sources ended, not all were reported"),
        || seen() >= ended,
    )?;
    ensure!(
        seen() == ended,
        "{} sources ended, expected {ended}",
        seen()
    );
    // everything is freed, from several threads again
    for (i, n) in mine.iter_mut().flat_map(|m| m.nodes.iter_mut()).enumerate() {
        if let Some((Kind::Constant(n), true)) = n {
            n.stop();
        }
        // sparing the message channel is not required, waiting for it is fine
        obs.label_if(i > 200, "many nodes");
    }
    std::thread::scope(|s| {
        for m in mine {
            s.spawn(|| drop(m));
        }
        s.spawn(|| drop(shared));
    });
    let mut count = 0;
    wait_for("", || {
        count = node_count(ctx).unwrap_or(usize::MAX);
        count <= baseline
    })
    .map_err(|_| format!("{count} nodes left after all have been dropped, expected {baseline}"))?;
    ensure!(
        count == baseline,
        "{count} nodes left after all have been dropped, expected {baseline}"
    );
    Ok(())
}

pub fn run(r: &mut Runner) {
    r.rule = "at least 8 operations and audible".into();
    r.assumptions = vec![
        "interleavings are those the scheduler of the machine produces".into(),
        "threads that do not finish within 30 s are stuck".into(),
        "different orders of summation: 1e-5 of the peak (the smallest lost operation is larger)"
            .into(),
    ];
    r.suite_n("offline", 12_000, 100_000, 6, offline_case, |c, o| {
        contained(c, o, check_offline)
    });
    r.suite_n("live", 4_000, 30_000, 6, live_case, |c, o| {
        contained(c, o, check_live)
    });
}
