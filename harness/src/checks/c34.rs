//! C34: event handlers
use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use web_audio_api::context::*;
use web_audio_api::node::*;
use web_audio_api::worklet::*;

const SR: f32 = 32768.;

/// What emits events. The events of a node happen only in quanta that are congruent to its number
/// modulo the number of nodes, so that the order of all events is known.
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Emitter {
    /// number of messages per period
    Messages(Vec<u8>),
    /// starts, period of the end
    Source(bool, usize, u8),
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum Action {
    /// install the handler
    Set(usize, usize),
    Clear(usize),
    /// create a source that sounds from the next quantum on
    Sound(f32),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    /// emitter, periods in which its handle is created and dropped
    emitters: Vec<(Emitter, usize, Option<usize>)>,
    /// handlers: number of the event, action
    handlers: Vec<Vec<(usize, Action)>>,
    /// quantum, action
    actions: Vec<(usize, Action)>,
    complete: u8,
    periods: usize,
    asynchronous: bool,
}

fn strategy() -> BoxedStrategy<Case> {
    (1usize..6, 1usize..5, 3usize..8)
        .prop_flat_map(|(n, h, periods)| {
            let action = move || {
                prop_oneof![
                    5 => (0..n, 0..h).prop_map(|(a, b)| Action::Set(a, b)),
                    3 => (0..n).prop_map(Action::Clear),
                    2 => (0.01f32..1.).prop_map(Action::Sound),
                ]
            };
            let emitter = prop_oneof![
                3 => prop::collection::vec(0u8..4, periods).prop_map(Emitter::Messages),
                2 => (prop::bool::weighted(0.8), 0..periods, 0u8..3)
                    .prop_map(|(s, e, k)| Emitter::Source(s, e, k)),
            ];
            (
                prop::collection::vec(
                    (
                        emitter,
                        prop_oneof![2 => Just(0usize), 1 => 0..periods],
                        prop::option::weighted(0.4, 0..periods),
                    ),
                    n,
                ),
                prop::collection::vec(prop::collection::vec((1usize..5, action()), 0..4), h),
                prop::collection::vec((0..n * periods, action()), 1..12),
                0u8..3,
                any::<bool>(),
                Just(periods),
            )
        })
        .prop_map(
            |(emitters, handlers, mut actions, complete, asynchronous, periods)| {
                actions.sort_by_key(|a| a.0);
                Case {
                    emitters,
                    handlers,
                    actions,
                    complete,
                    periods,
                    asynchronous,
                }
            },
        )
        .boxed()
}

/// Posts messages
struct Poster {
    counts: Vec<u8>,
    phase: usize,
    n: usize,
    next: usize,
    dropped: Arc<AtomicBool>,
}

impl AudioWorkletProcessor for Poster {
    type ProcessorOptions = Poster;
    fn constructor(p: Poster) -> Self {
        p
    }
    fn process<'a, 'b>(
        &mut self,
        _: &'b [&'a [&'a [f32]]],
        _: &'b mut [&'a mut [&'a mut [f32]]],
        _: AudioParamValues<'b>,
        scope: &'b AudioWorkletGlobalScope,
    ) -> bool {
        let q = scope.current_frame as usize / RQ;
        if q % self.n == self.phase && !self.dropped.load(Ordering::SeqCst) {
            for _ in 0..self.counts[q / self.n] {
                scope.post_message(Box::new(self.next));
                self.next += 1;
            }
        }
        false
    }
}

enum Handle {
    Worklet(AudioWorkletNode, Arc<AtomicBool>),
    Constant(ConstantSourceNode),
    Osc(OscillatorNode),
    Player(AudioBufferSourceNode),
}

/// emitter, handler, instance of the handler, value
type Entry = (usize, usize, usize, usize);

#[derive(Default)]
struct World {
    handles: Vec<Option<Handle>>,
    instances: usize,
    log: Vec<Entry>,
    base: Option<GainNode>,
}

type Shared = Arc<Mutex<World>>;

/// The handler of an event; called without holding the lock
fn handler(
    case: &Arc<Case>,
    world: &Shared,
    slot: usize,
    id: usize,
    instance: usize,
) -> impl FnMut(usize) + Send + 'static {
    let (case, world) = (case.clone(), world.clone());
    let mut count = 0;
    move |value| {
        world.lock().unwrap().log.push((slot, id, instance, value));
        count += 1;
        for (n, action) in &case.handlers[id] {
            if *n == count {
                perform(&case, &world, *action);
            }
        }
    }
}

fn perform(case: &Arc<Case>, world: &Shared, action: Action) {
    match action {
        Action::Set(slot, id) => {
            let instance = {
                let mut w = world.lock().unwrap();
                w.instances += 1;
                w.instances
            };
            let mut f = handler(case, world, slot, id, instance);
            match &world.lock().unwrap().handles[slot] {
                None => (),
                Some(Handle::Worklet(n, _)) => n
                    .port()
                    .set_onmessage(move |m| f(*m.downcast::<usize>().unwrap())),
                Some(Handle::Constant(n)) => n.set_onended(move |_| f(0)),
                Some(Handle::Osc(n)) => n.set_onended(move |_| f(0)),
                Some(Handle::Player(n)) => n.set_onended(move |_| f(0)),
            }
        }
        Action::Clear(slot) => match &world.lock().unwrap().handles[slot] {
            None => (),
            Some(Handle::Worklet(n, _)) => n.port().clear_onmessage(),
            Some(Handle::Constant(n)) => n.clear_onended(),
            Some(Handle::Osc(n)) => n.clear_onended(),
            Some(Handle::Player(n)) => n.clear_onended(),
        },
        Action::Sound(v) => {
            let w = world.lock().unwrap();
            let base = w.base.as_ref().unwrap();
            let mut src = base.context().create_constant_source();
            src.offset().set_value(v);
            src.connect(base);
            src.start();
        }
    }
}

/// What happens before quantum `q`
fn before(case: &Arc<Case>, world: &Shared, ctx: &OfflineAudioContext, q: usize) {
    let n = case.emitters.len();
    for (i, (e, created, dropped)) in case.emitters.iter().enumerate() {
        if q == created * n {
            let end = |p: usize| ((p * n + i) as f64 + 0.5) * RQ as f64 / SR as f64;
            let handle = match e {
                Emitter::Messages(counts) => {
                    let dropped = Arc::new(AtomicBool::new(false));
                    let node = AudioWorkletNode::new::<Poster>(
                        ctx,
                        AudioWorkletNodeOptions {
                            number_of_inputs: 1,
                            number_of_outputs: 1,
                            output_channel_count: vec![],
                            parameter_data: Default::default(),
                            processor_options: Poster {
                                counts: counts.clone(),
                                phase: i,
                                n,
                                next: 0,
                                dropped: dropped.clone(),
                            },
                            audio_node_options: AudioNodeOptions::default(),
                        },
                    );
                    Handle::Worklet(node, dropped)
                }
                Emitter::Source(started, stop, kind) => {
                    // a node that is not started has no end; one that is not connected may be
                    // removed as soon as its handle is dropped
                    let silent = ctx.create_gain();
                    silent.gain().set_value(0.);
                    silent.connect(&ctx.destination());
                    macro_rules! source {
                        ($n:expr, $v:path) => {{
                            let mut s = $n;
                            if *started && stop >= created {
                                s.connect(&silent);
                                s.start();
                                s.stop_at(end(*stop));
                            }
                            $v(s)
                        }};
                    }
                    match kind {
                        0 => source!(ctx.create_constant_source(), Handle::Constant),
                        1 => source!(ctx.create_oscillator(), Handle::Osc),
                        _ => source!(
                            {
                                let mut s = ctx.create_buffer_source();
                                s.set_buffer(empty_buffer(1, 16, SR));
                                s.set_loop(true);
                                s
                            },
                            Handle::Player
                        ),
                    }
                }
            };
            world.lock().unwrap().handles[i] = Some(handle);
        }
        if *dropped == Some(q / n) && q % n == 0 {
            let handle = world.lock().unwrap().handles[i].take();
            if let Some(Handle::Worklet(_, flag)) = &handle {
                flag.store(true, Ordering::SeqCst);
            }
        }
    }
    for (_, action) in case.actions.iter().filter(|a| a.0 == q) {
        perform(case, world, *action);
    }
}

#[derive(Default)]
struct Model {
    alive: Vec<bool>,
    /// handler, instance, number of calls
    current: Vec<Option<(usize, usize, usize)>>,
    instances: usize,
    log: Vec<Entry>,
    level: f64,
}

impl Model {
    fn perform(&mut self, action: Action) {
        match action {
            Action::Set(slot, id) => {
                self.instances += 1;
                if self.alive[slot] {
                    self.current[slot] = Some((id, self.instances, 0));
                }
            }
            Action::Clear(slot) => {
                if self.alive[slot] {
                    self.current[slot] = None;
                }
            }
            Action::Sound(v) => self.level += v as f64,
        }
    }
    fn emit(&mut self, case: &Case, slot: usize, value: usize, once: bool) {
        let Some((id, instance, count)) = self.current[slot] else {
            return;
        };
        self.log.push((slot, id, instance, value));
        self.current[slot] = if once {
            None
        } else {
            Some((id, instance, count + 1))
        };
        for (n, action) in &case.handlers[id] {
            if *n == count + 1 {
                self.perform(*action);
            }
        }
    }
}

fn check(case: &Case, obs: &mut Obs) -> CaseResult {
    let n = case.emitters.len();
    let quanta = n * case.periods;
    let shared = Arc::new(case.clone());

    // the model
    let mut m = Model {
        alive: vec![false; n],
        current: vec![None; n],
        ..Default::default()
    };
    let mut levels = vec![];
    let mut next = vec![0usize; n];
    for q in 0..quanta {
        for (i, (_, created, dropped)) in case.emitters.iter().enumerate() {
            if q == created * n {
                m.alive[i] = true;
            }
            if q % n == 0 && *dropped == Some(q / n) {
                m.alive[i] = false;
            }
        }
        for (_, a) in case.actions.iter().filter(|a| a.0 == q) {
            m.perform(*a);
        }
        levels.push(m.level);
        let (i, p) = (q % n, q / n);
        let (e, created, _) = &case.emitters[i];
        match e {
            Emitter::Messages(counts) => {
                if m.alive[i] {
                    for _ in 0..counts[p] {
                        let v = next[i];
                        next[i] += 1;
                        m.emit(case, i, v, false);
                    }
                }
            }
            Emitter::Source(started, stop, _) => {
                if *started && *stop == p && p >= *created {
                    m.emit(case, i, 0, true);
                }
            }
        }
    }

    // the program
    let mut ctx = offline(1, quanta * RQ, SR);
    let world: Shared = Default::default();
    let gain = ctx.create_gain();
    gain.connect(&ctx.destination());
    {
        let mut w = world.lock().unwrap();
        w.handles = (0..n).map(|_| None).collect();
        w.base = Some(gain);
    }
    let completed: Arc<Mutex<Vec<(usize, usize, Vec<f32>)>>> = Default::default();
    for k in 0..case.complete as usize {
        let (completed, world) = (completed.clone(), world.clone());
        ctx.set_oncomplete(move |e| {
            let calls = world.lock().unwrap().log.len();
            let data = e.rendered_buffer.get_channel_data(0).to_vec();
            completed.lock().unwrap().push((k, calls, data));
        });
    }
    let states = Arc::new(Mutex::new(0));
    {
        let states = states.clone();
        ctx.set_onstatechange(move |_| *states.lock().unwrap() += 1);
    }
    let mut stops: Vec<usize> = case.actions.iter().map(|a| a.0).collect();
    for (_, created, dropped) in &case.emitters {
        stops.push(created * n);
        stops.extend(dropped.map(|d| d * n));
    }
    stops.sort();
    stops.dedup();
    if stops.first() == Some(&0) {
        before(&shared, &world, &ctx, 0);
        stops.remove(0);
    }
    let suspensions = stops.len();
    let time = |q: usize| (q * RQ - RQ / 2) as f64 / SR as f64;
    let buffer = if case.asynchronous {
        let pauses = stops.iter().map(|q| {
            let (ctx, shared, world) = (&ctx, &shared, &world);
            async move {
                ctx.suspend(time(*q)).await;
                before(shared, world, ctx, *q);
                ctx.resume().await;
            }
        });
        let pauses = futures::future::join_all(pauses);
        futures::executor::block_on(async { futures::join!(pauses, ctx.start_rendering()).1 })
    } else {
        for q in stops {
            let (shared, world) = (shared.clone(), world.clone());
            ctx.suspend_sync(time(q), move |ctx| before(&shared, &world, ctx, q));
        }
        ctx.start_rendering_sync()
    };

    let log = std::mem::take(&mut world.lock().unwrap().log);
    if let Some(i) = (0..log.len().max(m.log.len())).find(|i| log.get(*i) != m.log.get(*i)) {
        return Err(format!(
            "call {i}: {:?}, expected {:?} (node, handler, instance, value); all {log:?}, expected {:?}",
            log.get(i),
            m.log.get(i),
            m.log
        ));
    }
    obs.comparisons += log.len() as u64 + 1;
    let data = buffer.get_channel_data(0).to_vec();
    let expect: Vec<f64> = levels.iter().flat_map(|l| vec![*l; RQ]).collect();
    obs.comparisons += compare("output", &[data.clone()], &[expect], 1e-4, 0.)?;
    let completed = completed.lock().unwrap();
    if case.complete == 0 {
        ensure!(completed.is_empty(), "complete event without a handler");
    } else {
        ensure!(completed.len() == 1, "{} complete events", completed.len());
        let (k, calls, rendered) = &completed[0];
        ensure!(
            *k + 1 == case.complete as usize,
            "complete handler {k} was replaced"
        );
        ensure!(
            *calls == log.len(),
            "complete event after {calls} of {} others",
            log.len()
        );
        ensure!(*rendered == data, "the complete event has different audio");
    }
    let states = *states.lock().unwrap();
    ensure!(
        states == 2 + 2 * suspensions,
        "{states} statechange events for {suspensions} suspensions"
    );
    obs.comparisons += 2;
    obs.nontrivial_if(!log.is_empty());
    obs.label_if(
        log.iter().any(|e| !case.handlers[e.1].is_empty()),
        "handlers that act",
    );
    obs.label_if(m.level > 0., "sound");
    Ok(())
}

pub fn run(r: &mut Runner) {
    r.rule = "one to five nodes that post messages or end, created and dropped at any time, whose handlers are installed, replaced and cleared before and while rendering, also from inside of themselves and of other handlers, which also create sounding nodes; the log of all handler calls, the audio, the complete and the statechange events are compared with a model; non-trivial: a handler was called".into();
    r.assumptions = vec!["at most one node emits events in each quantum, as the order of the events of different nodes in the same quantum is not specified".into()];
    r.suite("handlers", 250_000, 3_000_000, strategy, check);
}
