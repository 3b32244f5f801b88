//! C10: live context lifecycle follows suspend, resume, close and sink changes
use crate::live::UNWRITTEN;
use crate::program::*;
use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicUsize, Ordering};
use std::sync::{mpsc, Arc, Mutex};
use std::task::{Context, Poll};
use std::time::{Duration, Instant};
use web_audio_api::context::*;
use web_audio_api::node::*;
use web_audio_api::verif_hooks::{self, ManualSink};
use web_audio_api::worklet::*;

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
enum Call {
    Suspend,
    Resume,
    Close,
}

fn call() -> BoxedStrategy<Call> {
    prop_oneof![6 => Just(Call::Suspend), 6 => Just(Call::Resume), 1 => Just(Call::Close)].boxed()
}

/// What a context is doing
#[derive(Debug, Clone, Copy, PartialEq)]
enum Phase {
    /// the graph has not been delivered yet, the state is `Suspended` until then
    Booting,
    Running,
    Suspended,
    Closed,
}

impl Phase {
    fn after(self, call: Call) -> Phase {
        match (self, call) {
            (Phase::Closed, _) | (_, Call::Close) => Phase::Closed,
            (_, Call::Suspend) => Phase::Suspended,
            (_, Call::Resume) => Phase::Running,
        }
    }
    fn state(self) -> AudioContextState {
        match self {
            Phase::Running => AudioContextState::Running,
            Phase::Closed => AudioContextState::Closed,
            _ => AudioContextState::Suspended,
        }
    }
}

/// name of the sink, and whether it can be opened
fn sink_name(k: u8) -> (String, bool) {
    match k % 10 {
        // the one that is active
        0 => ("none".into(), true),
        1 => ("there is no such sink".into(), false),
        // the default device: there is none
        2 => ("".into(), false),
        k => (format!("none-{k}"), true),
    }
}

/// Longest time anything may take as long as the audio callback is called
const PATIENCE: Duration = Duration::from_secs(15);

// ---------------------------------------------------------------------------------------------
// one thread: asynchronous calls, polled between callbacks

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Step {
    Call(Call),
    /// second call while the first one is pending, with some graph changes in between
    Overlap(Call, u8, Call),
    /// the future is dropped
    Abandon(Call),
    Sink(u8),
    /// execute some operations of the program
    Graph(u8),
    /// frames, when the stream is playing
    Callback(u16),
    /// frames, always
    Late(u16),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    program: Program,
    channels: usize,
    steps: Vec<Step>,
}

fn frames() -> BoxedStrategy<u16> {
    prop_oneof![2 => Just(RQ as u16), 2 => 1u16..500, 1 => Just(512u16), 1 => Just(2u16 * 128)]
        .boxed()
}

fn strategy() -> BoxedStrategy<Case> {
    let step = prop_oneof![
        6 => call().prop_map(Step::Call),
        2 => (call(), 0u8..4, call()).prop_map(|(a, g, b)| Step::Overlap(a, g, b)),
        1 => call().prop_map(Step::Abandon),
        2 => any::<u8>().prop_map(Step::Sink),
        5 => (1u8..5).prop_map(Step::Graph),
        6 => frames().prop_map(Step::Callback),
        1 => frames().prop_map(Step::Late),
    ];
    (
        program(Shape {
            profile: Profile::All,
            max_quanta: 16,
            drops: true,
            loops: true,
            wild: false,
            sr: sample_rate,
        }),
        0usize..2,
        prop::collection::vec(step, 1..24),
    )
        .prop_map(|(program, extra, steps)| Case {
            channels: program.channels + extra,
            program,
            steps,
        })
        .boxed()
}

type Fut<'a> = Pin<Box<dyn Future<Output = ()> + 'a>>;

fn begin(ctx: &AudioContext, call: Call) -> Fut<'_> {
    match call {
        Call::Suspend => Box::pin(ctx.suspend()),
        Call::Resume => Box::pin(ctx.resume()),
        Call::Close => Box::pin(ctx.close()),
    }
}

fn poll(f: &mut Fut<'_>) -> bool {
    let waker = futures::task::noop_waker();
    f.as_mut().poll(&mut Context::from_waker(&waker)) == Poll::Ready(())
}

struct Stage {
    ctx: Arc<AudioContext>,
    sink: ManualSink,
    channels: usize,
    sr: f32,
    /// quanta rendered and frames delivered
    rendered: usize,
    delivered: usize,
    /// position and data of what has been delivered
    segments: Vec<(usize, Vec<Vec<f32>>)>,
    /// room in the channel to the render thread
    room: usize,
    state: State,
    executed: Vec<(usize, Op)>,
    next: usize,
    /// a sink change is going on
    stuck: bool,
    /// it is not known when the changes took effect
    ambiguous: bool,
}

impl Stage {
    fn playing(&mut self) -> bool {
        self.sink.poll() == Some(true)
    }

    /// returns the number of quanta rendered
    fn callback(&mut self, n: usize) -> Result<usize, String> {
        let mut buffer = vec![f32::from_bits(UNWRITTEN); n * self.channels];
        let before = self.ctx.current_time();
        self.sink.render(&mut buffer);
        let time = self.ctx.current_time();
        ensure!(time >= before, "time goes back from {before} to {time}");
        let frame = (time * self.sr as f64).round() as usize;
        ensure!(
            frame % RQ == 0 && (frame as f64 / self.sr as f64) == time,
            "time {time} is not at a quantum"
        );
        ensure!(
            frame / RQ >= self.rendered,
            "time {time} is earlier than what was rendered ({} quanta)",
            self.rendered
        );
        let new = frame / RQ - self.rendered;
        let left = (self.rendered * RQ - self.delivered).min(n);
        let stored = if new == 0 {
            left
        } else {
            ensure!(
                new == (n - left).div_ceil(RQ),
                "{new} quanta rendered for {} frames",
                n - left
            );
            self.room = 200;
            n
        };
        let data: Vec<Vec<f32>> = (0..self.channels)
            .map(|c| {
                let ch = buffer.iter().skip(c).step_by(self.channels);
                ch.copied().collect()
            })
            .collect();
        for d in &data {
            ensure!(
                d[stored..].iter().all(|v| *v == 0.),
                "not silent although nothing was rendered"
            );
        }
        let part = data.iter().map(|d| d[..stored].to_vec()).collect();
        self.segments.push((self.delivered, part));
        self.delivered += stored;
        self.rendered += new;
        Ok(new)
    }

    fn graph(&mut self, p: &Program, n: usize) {
        for _ in 0..n {
            let Some((_, op)) = p.ops.get(self.next) else {
                return;
            };
            self.next += 1;
            let cost = messages(op);
            if cost > self.room {
                continue;
            }
            self.room -= cost;
            self.state
                .exec(p, &Run::default(), &*self.ctx, self.rendered, op);
            self.executed.push((self.rendered, op.clone()));
        }
    }

    /// Let the audio callback run until all calls have returned
    fn finish(&mut self, futures: &mut [Fut<'_>], mut done: Vec<bool>, what: &str) -> CaseResult {
        for _ in 0..8 {
            for (f, d) in futures.iter_mut().zip(done.iter_mut()) {
                if !*d {
                    *d = poll(f);
                }
            }
            if done.iter().all(|d| *d) {
                return Ok(());
            }
            if self.playing() {
                self.callback(RQ)?;
            }
        }
        Err(format!(
            "{what} does not return although the audio callback was called several times (stream playing: {})",
            self.playing()
        ))
    }

    /// A full channel blocks when the nodes are dropped
    fn leave(mut self) {
        let ctx = self.ctx.clone();
        let mut f = begin(&ctx, Call::Close);
        for _ in 0..4 {
            if ctx.state() == AudioContextState::Closed || poll(&mut f) {
                return;
            }
            self.sink.poll();
            let _ = self.callback(2 * RQ);
        }
        std::mem::forget(self.state);
    }

    /// The stream plays until it has rendered something
    fn boot(&mut self) -> CaseResult {
        for _ in 0..3 {
            if self.playing() && self.callback(RQ)? > 0 {
                return Ok(());
            }
        }
        Err("the context does not render after it was started".into())
    }
}

fn messages(op: &Op) -> usize {
    match op {
        Op::Create(Spec::Panner(..)) => 34,
        Op::Create(_) => 16,
        Op::Disconnect(_) | Op::Drop(_) => 16,
        _ => 2,
    }
}

fn open_context(sr: f32) -> Arc<AudioContext> {
    Arc::new(AudioContext::new(AudioContextOptions {
        sample_rate: Some(sr),
        sink_id: "none".into(),
        ..Default::default()
    }))
}

/// Events that have to be and may be reported
#[derive(Debug, Default)]
struct Events {
    min: usize,
    max: usize,
}

impl Events {
    fn add(&mut self, n: usize) {
        self.min += n;
        self.max += n;
    }
}

fn wait_for(what: &str, mut f: impl FnMut() -> bool) -> CaseResult {
    let start = Instant::now();
    let mut n = 0u32;
    while !f() {
        ensure!(
            start.elapsed() < PATIENCE,
            "{what} (waited for {:?})",
            PATIENCE
        );
        n += 1;
        if n < 100 {
            std::thread::yield_now();
        } else {
            std::thread::sleep(Duration::from_micros(100));
        }
    }
    Ok(())
}

fn check(case: &Case, obs: &mut Obs) -> CaseResult {
    let p = &case.program;
    verif_hooks::drive_sinks(Some(case.channels));
    let ctx = open_context(p.sr);
    let sink = verif_hooks::take_sink().expect("sink of the context");
    let count = Arc::new(AtomicUsize::new(0));
    let c = count.clone();
    ctx.set_onstatechange(move |_| {
        c.fetch_add(1, Ordering::SeqCst);
    });
    ctx.destination().set_channel_count(p.channels);
    let mut s = Stage {
        ctx: ctx.clone(),
        sink,
        channels: case.channels,
        sr: p.sr,
        rendered: 0,
        delivered: 0,
        segments: vec![],
        room: 200,
        state: State::default(),
        executed: vec![],
        next: 0,
        stuck: false,
        ambiguous: false,
    };
    let r = play(case, obs, &mut s, &count);
    if s.stuck {
        std::mem::forget(s);
    } else {
        s.leave();
    }
    r
}

fn play(case: &Case, obs: &mut Obs, s: &mut Stage, count: &AtomicUsize) -> CaseResult {
    let p = &case.program;
    let ctx = s.ctx.clone();
    // the first few operations build a graph
    let initial = p.ops.iter().take_while(|(q, _)| *q == 0).count();
    s.graph(p, initial);
    let mut phase = Phase::Booting;
    let mut events = Events::default();
    let mut applied = 0;
    let mut while_suspended = false;
    let (mut overlaps, mut swaps) = (0, 0);
    for (i, step) in case.steps.iter().enumerate() {
        let was = phase;
        let named = |e: String| format!("step {i} ({step:?}) while {was:?}: {e}");
        match step {
            Step::Call(call) => {
                applied += usize::from(was.after(*call) != was);
                let mut f = [begin(&ctx, *call)];
                s.finish(&mut f, vec![false], "the call").map_err(named)?;
                phase = was.after(*call);
                events.add(match (was, phase) {
                    (a, b) if a == b => 0,
                    (Phase::Booting, Phase::Suspended) => 2,
                    _ => 1,
                });
            }
            Step::Overlap(a, n, b) => {
                let mut first = begin(&ctx, *a);
                let d0 = poll(&mut first);
                s.graph(p, *n as usize);
                let mut second = begin(&ctx, *b);
                let d1 = poll(&mut second);
                s.finish(
                    &mut [first, second],
                    vec![d0, d1],
                    "one of two overlapping calls",
                )
                .map_err(named)?;
                phase = was.after(*a).after(*b);
                if a != b && *a != Call::Close && *b != Call::Close && was != Phase::Closed {
                    // the second call may have noticed the first one or not
                    phase = match ctx.state() {
                        AudioContextState::Running => Phase::Running,
                        AudioContextState::Suspended => Phase::Suspended,
                        s => return Err(named(format!("state {s:?}"))),
                    };
                }
                events.min += usize::from(was.state() != phase.state());
                events.max += if was == Phase::Closed { 0 } else { 3 };
                overlaps += usize::from(was != Phase::Closed);
            }
            Step::Abandon(call) => {
                let mut f = begin(&ctx, *call);
                poll(&mut f);
                drop(f);
                if s.playing() {
                    s.callback(2 * RQ).map_err(named)?;
                }
                phase = was.after(*call);
                events.add(match (was, phase) {
                    (a, b) if a == b => 0,
                    (Phase::Booting, Phase::Suspended) => 2,
                    _ => 1,
                });
                // a callback of a context that has not been touched starts it
                if was == Phase::Booting && phase == Phase::Booting {
                    phase = Phase::Running;
                    events.add(1);
                }
            }
            Step::Sink(k) => {
                let (name, valid) = sink_name(*k);
                let same = ctx.sink_id() == name;
                // changes that are under way when a running stream is replaced may be delayed by
                // the quanta that are still rendered: request no frames in that case
                let pending = s.room < 200;
                let left = s.rendered * RQ - s.delivered;
                if matches!(was, Phase::Running) && pending && left > 0 {
                    s.callback(left + RQ).map_err(named)?;
                }
                let pending = s.room < 200;
                let (send, recv) = mpsc::channel();
                let (c, n) = (ctx.clone(), name.clone());
                let channels = case.channels;
                std::thread::spawn(move || {
                    quietly(|| {
                        verif_hooks::drive_sinks(Some(channels));
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            c.set_sink_id_sync(n).map_err(|e| e.to_string())
                        }));
                        let _ = send.send((r.map_err(|_| take_panics()), verif_hooks::take_sink()));
                    })
                });
                // the old stream goes on in the meantime
                let start = Instant::now();
                s.stuck = true;
                let (r, new) = loop {
                    if let Ok(r) = recv.recv_timeout(Duration::from_micros(20)) {
                        break r;
                    }
                    ensure!(
                        start.elapsed() < PATIENCE,
                        "step {i} ({step:?}) while {was:?}: the sink change does not return"
                    );
                    if s.playing() {
                        if was != Phase::Suspended && pending && start.elapsed() < PATIENCE / 8 {
                            s.sink.render(&mut []);
                        } else {
                            let new = s.callback(RQ).map_err(named)?;
                            s.ambiguous |= pending && new > 0;
                        }
                    }
                };
                s.stuck = false;
                let r = r.map_err(|e| named(format!("the sink change panicked: {e:?}")))?;
                ensure!(
                    r.is_ok() == (valid || same || was == Phase::Closed && name.is_empty()),
                    "step {i}: changing the sink to {name:?} while {was:?}: {r:?}"
                );
                if let Some(new) = new {
                    s.sink = new;
                    s.delivered = s.rendered * RQ;
                    swaps += 1;
                }
                if was == Phase::Booting {
                    // it may have been started in the meantime
                    events.max += 2;
                    if ctx.state() == AudioContextState::Running {
                        events.min += 1;
                        events.max -= 1;
                        phase = Phase::Running;
                    }
                }
                if !same && was == Phase::Running {
                    if valid {
                        events.add(1);
                        phase = Phase::Booting;
                    } else if ctx.state() != AudioContextState::Running {
                        // opened again
                        events.max += 1;
                        events.min += 1;
                        phase = Phase::Booting;
                    } else {
                        events.max += 2;
                    }
                }
            }
            Step::Graph(n) => {
                let from = s.executed.len();
                s.graph(p, *n as usize);
                while_suspended |= was == Phase::Suspended && s.executed.len() > from;
            }
            Step::Callback(n) => {
                if s.playing() {
                    let left = s.rendered * RQ - s.delivered;
                    let new = s.callback(*n as usize).map_err(named)?;
                    let expect = match was {
                        Phase::Running | Phase::Booting => *n as usize > left,
                        _ => false,
                    };
                    ensure!(
                        (new > 0) == expect,
                        "step {i}: {new} quanta rendered while {was:?}"
                    );
                    if was == Phase::Booting && expect {
                        phase = Phase::Running;
                        events.add(1);
                    }
                } else {
                    ensure!(
                        matches!(was, Phase::Suspended | Phase::Closed),
                        "step {i}: the stream is not playing while {was:?}"
                    );
                }
            }
            Step::Late(n) => {
                if matches!(was, Phase::Suspended | Phase::Closed) {
                    s.playing();
                    let new = s.callback(*n as usize).map_err(named)?;
                    ensure!(new == 0, "step {i}: {new} quanta rendered while {was:?}");
                }
            }
        }
        ensure!(
            ctx.state() == phase.state(),
            "step {i} ({step:?}) while {was:?}: state {:?}, expected {phase:?}",
            ctx.state()
        );
    }
    // everything goes on where it was
    if phase != Phase::Closed {
        if phase == Phase::Suspended {
            let mut f = [begin(&ctx, Call::Resume)];
            s.finish(&mut f, vec![false], "the last resume")?;
            events.add(1);
        }
        if phase == Phase::Booting {
            events.add(1);
        }
        s.boot()?;
        for _ in 0..3 {
            s.callback(RQ)?;
        }
        ensure!(
            ctx.state() == AudioContextState::Running,
            "state {:?} at the end",
            ctx.state()
        );
    }
    let seen = || count.load(Ordering::SeqCst);
    wait_for(
        &format!("{} state changes, some were not reported", events.min),
        || seen() >= events.min,
    )?;
    ensure!(
        seen() <= events.max,
        "{} state changes reported, there were at most {}",
        seen(),
        events.max
    );
    obs.label_if(s.ambiguous, "ambiguous");
    if s.ambiguous {
        return Ok(());
    }
    // the audio is the one of the same graph without interruptions
    let rendered = s.rendered.max(1);
    let offline = render(
        &Program {
            ops: s.executed.clone(),
            quanta: rendered,
            ..p.clone()
        },
        &Run {
            frames: Some(rendered * RQ),
            ..Run::default()
        },
    );
    for (at, data) in &s.segments {
        let n = data[0].len();
        let expect: Vec<Vec<f32>> = (0..case.channels)
            .map(|c| match offline.data.get(c) {
                Some(d) => d[*at..at + n].to_vec(),
                None => vec![0.; n],
            })
            .collect();
        obs.comparisons += identical(&format!("rendering from frame {at}"), data, &expect)?;
    }
    obs.nontrivial_if(applied > 0 && peak(&offline.data) > 0.);
    obs.label_if(while_suspended, "graph changes while suspended");
    obs.label_if(overlaps > 0, "overlapping calls");
    obs.label_if(swaps > 0, "sink changes");
    obs.label_if(phase == Phase::Closed, "closed");
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// threads: blocking and asynchronous calls while an audio thread is running

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Change {
    /// a source
    Add,
    /// some nodes without a purpose
    Decoys(u8),
    Stop(u8),
    Disconnect(u8),
    Reconnect(u8),
    /// another value
    Set(u8),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Act {
    Call(Call, bool),
    Sink(u8),
    Change(Vec<Change>),
    /// at the same time
    During(Vec<Change>, Box<Act>),
    /// two calls at the same time
    Both(Call, bool, Box<Act>),
    Pause(u8),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Story {
    /// sizes of the buffers; none: the audio thread of the library
    sizes: Vec<u16>,
    /// wait until it is running
    started: bool,
    acts: Vec<Act>,
}

fn change() -> BoxedStrategy<Change> {
    prop_oneof![
        4 => Just(Change::Add),
        1 => (1u8..60).prop_map(Change::Decoys),
        1 => any::<u8>().prop_map(Change::Stop),
        2 => any::<u8>().prop_map(Change::Disconnect),
        2 => any::<u8>().prop_map(Change::Reconnect),
        2 => any::<u8>().prop_map(Change::Set),
    ]
    .boxed()
}

fn act() -> BoxedStrategy<Act> {
    let changes = || prop::collection::vec(change(), 1..5);
    let calls = || {
        prop_oneof![
            4 => (call(), any::<bool>()).prop_map(|(c, b)| Act::Call(c, b)),
            2 => any::<u8>().prop_map(Act::Sink),
        ]
    };
    prop_oneof![
        5 => calls(),
        3 => changes().prop_map(Act::Change),
        2 => (changes(), calls()).prop_map(|(c, a)| Act::During(c, Box::new(a))),
        2 => (call(), any::<bool>(), calls()).prop_map(|(c, b, a)| Act::Both(c, b, Box::new(a))),
        1 => (0u8..20).prop_map(Act::Pause),
    ]
    .boxed()
}

fn story(manual: bool) -> BoxedStrategy<Story> {
    (
        prop::collection::vec(frames(), 1..6),
        any::<bool>(),
        prop::collection::vec(act(), 1..12),
    )
        .prop_map(move |(sizes, started, acts)| Story {
            started,
            sizes: if manual { sizes } else { vec![] },
            acts,
        })
        .boxed()
}

fn story_manual() -> BoxedStrategy<Story> {
    story(true)
}

fn story_library() -> BoxedStrategy<Story> {
    story(false)
}

#[derive(Clone, Default)]
struct Watch {
    blocks: Arc<AtomicUsize>,
    value: Arc<AtomicU32>,
}

struct Observer(Watch);

impl AudioWorkletProcessor for Observer {
    type ProcessorOptions = Watch;
    fn constructor(w: Watch) -> Self {
        Self(w)
    }
    fn process<'a, 'b>(
        &mut self,
        inputs: &'b [&'a [&'a [f32]]],
        _outputs: &'b mut [&'a mut [&'a mut [f32]]],
        _params: AudioParamValues<'b>,
        _scope: &'b AudioWorkletGlobalScope,
    ) -> bool {
        let v = inputs[0]
            .first()
            .and_then(|c| c.last())
            .copied()
            .unwrap_or(0.);
        self.0.value.store(v.to_bits(), Ordering::SeqCst);
        self.0.blocks.fetch_add(1, Ordering::SeqCst);
        true
    }
}

#[derive(Default)]
struct Sources {
    list: Vec<(ConstantSourceNode, Part)>,
}

#[derive(Clone, Copy)]
struct Part {
    value: f32,
    playing: bool,
    connected: bool,
}

impl Sources {
    fn apply(&mut self, ctx: &AudioContext, collector: &dyn AudioNode, c: &Change) {
        let n = self.list.len();
        match c {
            Change::Add => {
                if n < 20 {
                    let mut src = ctx.create_constant_source();
                    let value = (1u32 << n) as f32;
                    src.offset().set_value(value);
                    src.connect(collector);
                    src.start();
                    self.list.push((
                        src,
                        Part {
                            value,
                            playing: true,
                            connected: true,
                        },
                    ));
                }
            }
            Change::Decoys(k) => {
                for _ in 0..*k {
                    ctx.create_gain().connect(collector);
                }
            }
            _ if n == 0 => (),
            Change::Stop(k) => {
                let (src, p) = &mut self.list[*k as usize % n];
                if p.playing {
                    src.stop();
                    p.playing = false;
                }
            }
            Change::Disconnect(k) => {
                let (src, p) = &mut self.list[*k as usize % n];
                src.disconnect();
                p.connected = false;
            }
            Change::Reconnect(k) => {
                let (src, p) = &mut self.list[*k as usize % n];
                src.connect(collector);
                p.connected = true;
            }
            Change::Set(k) => {
                let (src, p) = &mut self.list[*k as usize % n];
                p.value = -p.value;
                src.offset().set_value(p.value);
            }
        }
    }
    fn expect(&self) -> f32 {
        self.list
            .iter()
            .filter(|(_, p)| p.playing && p.connected)
            .map(|(_, p)| p.value)
            .sum()
    }
}

/// Audio thread of the test
struct Driver {
    send: mpsc::Sender<ManualSink>,
    stop: Arc<AtomicBool>,
    thread: Option<std::thread::JoinHandle<Vec<String>>>,
}

impl Driver {
    fn new(sizes: Vec<u16>) -> Self {
        let (send, recv) = mpsc::channel::<ManualSink>();
        let stop = Arc::new(AtomicBool::new(false));
        let s = stop.clone();
        let thread = std::thread::spawn(move || {
            quietly(|| {
                let mut sinks: Vec<ManualSink> = vec![];
                let mut k = 0;
                while !s.load(Ordering::SeqCst) {
                    sinks.extend(recv.try_iter());
                    sinks.retain_mut(|sink| match sink.poll() {
                        None => false,
                        Some(true) => {
                            let mut buffer = vec![0f32; 2 * sizes[k % sizes.len()] as usize];
                            k += 1;
                            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                                sink.render(&mut buffer)
                            }));
                            r.is_ok()
                        }
                        Some(false) => true,
                    });
                    std::thread::sleep(Duration::from_micros(20));
                }
                take_panics()
            })
        });
        Self {
            send,
            stop,
            thread: Some(thread),
        }
    }
}

fn tell(story: &Story, obs: &mut Obs) -> CaseResult {
    let manual = !story.sizes.is_empty();
    let hooks = manual.then_some(2);
    verif_hooks::drive_sinks(hooks);
    let ctx = open_context(if manual { 48000. } else { 768_000. });
    let count = Arc::new(AtomicUsize::new(0));
    let c = count.clone();
    ctx.set_onstatechange(move |_| {
        c.fetch_add(1, Ordering::SeqCst);
    });
    let mut driver = manual.then(|| {
        let d = Driver::new(story.sizes.clone());
        d.send.send(verif_hooks::take_sink().unwrap()).unwrap();
        d
    });
    let watch = Watch::default();
    let collector = ctx.create_gain();
    let observer = AudioWorkletNode::new::<Observer>(
        &*ctx,
        AudioWorkletNodeOptions {
            processor_options: watch.clone(),
            ..Default::default()
        },
    );
    collector.connect(&observer);
    observer.connect(&ctx.destination());
    let collector = Arc::new(collector);
    let sources = Arc::new(Mutex::new(Sources::default()));

    let result = run_story(
        story,
        &ctx,
        &watch,
        &collector,
        &sources,
        driver.as_ref().map(|d| &d.send),
        hooks,
        &count,
        obs,
    );
    // no threads are left behind
    let closing = ctx.clone();
    let (send, recv) = mpsc::channel();
    std::thread::spawn(move || {
        quietly(|| closing.close_sync());
        let _ = send.send(());
    });
    let stuck = result
        .as_ref()
        .is_err_and(|e| e.contains("does not return"));
    let closed = recv.recv_timeout(if stuck { Duration::ZERO } else { PATIENCE });
    if closed.is_err() {
        // dropping them blocks as well
        std::mem::forget((sources.clone(), collector.clone(), observer));
    }
    if let Some(d) = driver.as_mut() {
        d.stop.store(true, Ordering::SeqCst);
        let panics = d.thread.take().unwrap().join().unwrap_or_default();
        result.and_then(|()| {
            ensure!(panics.is_empty(), "the audio callback panicked: {panics:?}");
            Ok(())
        })?;
    } else {
        result?;
    }
    ensure!(closed.is_ok(), "the last close does not return");
    Ok(())
}

fn apply(ctx: &AudioContext, collector: &GainNode, sources: &Mutex<Sources>, changes: &[Change]) {
    let mut s = sources.lock().unwrap();
    for c in changes {
        s.apply(ctx, collector, c);
    }
}

#[allow(clippy::too_many_arguments)]
fn run_story(
    story: &Story,
    ctx: &Arc<AudioContext>,
    watch: &Watch,
    collector: &Arc<GainNode>,
    sources: &Arc<Mutex<Sources>>,
    sinks: Option<&mpsc::Sender<ManualSink>>,
    hooks: Option<usize>,
    count: &Arc<AtomicUsize>,
    obs: &mut Obs,
) -> CaseResult {
    // everything that was sent is in effect
    let settled = |what: &str| -> CaseResult {
        let from = watch.blocks.load(Ordering::SeqCst);
        wait_for(&format!("{what}: nothing is rendered"), || {
            watch.blocks.load(Ordering::SeqCst) > from + 12
        })?;
        let expect = sources.lock().unwrap().expect();
        let got = f32::from_bits(watch.value.load(Ordering::SeqCst));
        ensure!(got == expect, "{what}: rendered {got}, expected {expect}");
        Ok(())
    };
    let mut phase = Phase::Running;
    // the handler may have been set too late for the first one
    let mut minimum = usize::from(hooks.is_some());
    if story.started {
        settled("at the start")?;
    }
    let (mut changed, mut during) = (0, false);
    let blocking =
        |act: &Act| -> Result<mpsc::Receiver<Result<Result<(), String>, Vec<String>>>, String> {
            let (send, recv) = mpsc::channel();
            let ctx = ctx.clone();
            let act = act.clone();
            let sinks = sinks.cloned();
            std::thread::spawn(move || {
                quietly(|| {
                    verif_hooks::drive_sinks(hooks);
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match act {
                        Act::Call(c, true) => {
                            match c {
                                Call::Suspend => ctx.suspend_sync(),
                                Call::Resume => ctx.resume_sync(),
                                Call::Close => ctx.close_sync(),
                            };
                            Ok(())
                        }
                        Act::Call(c, false) => {
                            futures::executor::block_on(begin(&ctx, c));
                            Ok(())
                        }
                        Act::Sink(k) => ctx
                            .set_sink_id_sync(sink_name(k).0)
                            .map_err(|e| e.to_string()),
                        _ => Ok(()),
                    }));
                    if let (Some(s), Some(sink)) = (sinks, verif_hooks::take_sink()) {
                        let _ = s.send(sink);
                    }
                    let _ = send.send(r.map_err(|_| take_panics()));
                })
            });
            Ok(recv)
        };
    for (i, act) in story.acts.iter().enumerate() {
        let was = phase;
        let (inner, changes, second) = match act {
            Act::During(c, a) => (a.as_ref(), Some(c), None),
            Act::Both(c, b, a) => (a.as_ref(), None, Some((*c, Act::Call(*c, *b)))),
            a => (a, None, None),
        };
        match inner {
            Act::Call(..) | Act::Sink(_) => {
                let same = matches!(inner, Act::Sink(k) if ctx.sink_id() == sink_name(*k).0);
                let recv = blocking(inner)?;
                let second = match second {
                    Some((c, act)) => Some((c, blocking(&act)?)),
                    None => None,
                };
                let other = changes.map(|c| {
                    during = true;
                    let (send, recv) = mpsc::channel();
                    let (ctx, c) = (ctx.clone(), c.clone());
                    let (sources, collector) = (sources.clone(), collector.clone());
                    std::thread::spawn(move || {
                        quietly(|| {
                            apply(&ctx, &collector, &sources, &c);
                            let _ = send.send(());
                            drop((sources, collector));
                        })
                    });
                    recv
                });
                let r = recv
                    .recv_timeout(PATIENCE)
                    .map_err(|_| format!("act {i} ({act:?}) while {was:?} does not return"))?
                    .map_err(|e| format!("act {i} ({act:?}) while {was:?} panicked: {e:?}"))?;
                if let Some(other) = other {
                    other.recv_timeout(PATIENCE).map_err(|_| {
                        format!("act {i}: changing the graph during {inner:?} while {was:?} does not return")
                    })?;
                }
                let second = match second {
                    Some((c, recv)) => {
                        recv.recv_timeout(PATIENCE)
                            .map_err(|_| {
                                format!("act {i} ({act:?}) while {was:?} does not return")
                            })?
                            .map_err(|e| {
                                format!("act {i} ({act:?}) while {was:?} panicked: {e:?}")
                            })?
                            .ok();
                        Some(c)
                    }
                    None => None,
                };
                let adopt = |phase| match (phase, ctx.state()) {
                    (Phase::Closed, _) => Phase::Closed,
                    (_, AudioContextState::Suspended) => Phase::Suspended,
                    _ => Phase::Running,
                };
                match (inner, second) {
                    // they happened in any order, or one did not notice the other
                    (Act::Call(a, _), Some(b)) => {
                        phase = was.after(*a).after(b);
                        if *a != b {
                            phase = adopt(phase);
                        }
                        minimum += usize::from(phase != was && (i > 0 || story.started));
                        changed += usize::from(phase != was);
                    }
                    (Act::Sink(_), Some(b)) => {
                        phase = was.after(b);
                        minimum += usize::from(phase != was && (i > 0 || story.started));
                        changed += usize::from(phase != was);
                    }
                    _ => (),
                }
                match inner {
                    _ if second.is_some() => (),
                    Act::Call(c, _) => {
                        phase = was.after(*c);
                        // a context that is closed before it has started does not start
                        minimum += usize::from(phase != was && (i > 0 || story.started));
                        changed += usize::from(phase != was);
                    }
                    Act::Sink(k) => {
                        let (name, valid) = sink_name(*k);
                        ensure!(
                            r.is_ok() == (valid || same || was == Phase::Closed && name.is_empty()),
                            "act {i}: changing the sink to {name:?} while {was:?}: {r:?}"
                        );
                        changed += usize::from(r.is_ok() && !same && was != Phase::Closed);
                    }
                    _ => (),
                }
            }
            Act::Change(c) => apply(ctx, collector, sources, c),
            Act::Pause(n) => std::thread::sleep(Duration::from_micros(*n as u64 * 50)),
            Act::During(..) | Act::Both(..) => (),
        }
        let what = format!("act {i} ({act:?}) while {was:?}");
        match phase {
            Phase::Running | Phase::Booting => {
                settled(&what)?;
                ensure!(
                    ctx.state() == AudioContextState::Running,
                    "{what}: state {:?}",
                    ctx.state()
                );
            }
            _ => {
                let time = ctx.current_time();
                let blocks = watch.blocks.load(Ordering::SeqCst);
                ensure!(
                    ctx.state() == phase.state(),
                    "{what}: state {:?}",
                    ctx.state()
                );
                std::thread::sleep(Duration::from_micros(500));
                ensure!(
                    ctx.current_time() == time && watch.blocks.load(Ordering::SeqCst) == blocks,
                    "{what}: still rendering"
                );
                ensure!(
                    ctx.state() == phase.state(),
                    "{what}: state {:?} a moment later",
                    ctx.state()
                );
            }
        }
    }
    if phase == Phase::Suspended {
        let recv = blocking(&Act::Call(Call::Resume, true))?;
        recv.recv_timeout(PATIENCE)
            .map_err(|_| "the last resume does not return".to_string())?
            .map_err(|e| format!("the last resume panicked: {e:?}"))?
            .ok();
        minimum += 1;
        settled("after the last resume")?;
    }
    wait_for(
        &format!("{minimum} state changes, some were not reported"),
        || count.load(Ordering::SeqCst) >= minimum,
    )?;
    obs.nontrivial_if(changed > 0 && !sources.lock().unwrap().list.is_empty());
    obs.label_if(during, "changes during a call");
    obs.label_if(phase == Phase::Closed, "closed");
    obs.comparisons += story.acts.len() as u64;
    Ok(())
}

pub fn run(r: &mut Runner) {
    r.rule = "steps: a call changed the state and the rendering is audible; stories: a call or sink change took effect and there are sources".into();
    r.assumptions = vec![
        "no audio hardware: streams of the no-output backend, driven by the test or by the library"
            .into(),
        "calls overlap in pairs; suspend and resume at the same time may end either way".into(),
        "a call that does not return within 20 s while the audio callback is called never will"
            .into(),
    ];
    r.suite("steps", 50_000, 400_000, strategy, check);
    r.suite_n("threads", 10_000, 80_000, 16, story_manual, tell);
    r.suite_n("library", 6_000, 60_000, 16, story_library, tell);
}
