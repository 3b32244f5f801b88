//! Reference model of parameter automation. Times are in frames.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use web_audio_api::AudioParam;

/// An automation call
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Call {
    Value(f32),
    Set(f64, f32),
    Lin(f64, f32),
    Exp(f64, f32),
    Target(f64, f32, f64),
    Curve(f64, Vec<f32>, f64),
    Cancel(f64),
    Hold(f64),
}

impl Call {
    pub fn apply(&self, p: &AudioParam, sr: f64) {
        match self {
            Call::Value(v) => p.set_value(*v),
            Call::Set(t, v) => p.set_value_at_time(*v, t / sr),
            Call::Lin(t, v) => p.linear_ramp_to_value_at_time(*v, t / sr),
            Call::Exp(t, v) => p.exponential_ramp_to_value_at_time(*v, t / sr),
            Call::Target(t, v, c) => p.set_target_at_time(*v, t / sr, c / sr),
            Call::Curve(t, v, d) => p.set_value_curve_at_time(v, t / sr, d / sr),
            Call::Cancel(t) => p.cancel_scheduled_values(t / sr),
            Call::Hold(t) => p.cancel_and_hold_at_time(t / sr),
        };
    }
}

#[derive(Debug, Clone)]
enum Kind {
    Set,
    Lin,
    Exp,
    /// exponential ramp that cannot be computed and has been cut short
    Flat,
    /// time constant
    Target(f64),
    /// values, duration, cut off at
    Curve(Vec<f32>, f64, Option<f64>),
}

#[derive(Debug, Clone)]
struct Event {
    t: f64,
    v: f64,
    /// error bound of the value
    e: f64,
    kind: Kind,
}

impl Event {
    fn is_ramp(&self) -> bool {
        matches!(self.kind, Kind::Lin | Kind::Exp | Kind::Flat)
    }
    /// [start, end) of a curve
    fn curve(&self) -> Option<(f64, f64)> {
        match &self.kind {
            Kind::Curve(_, d, cut) => Some((self.t, cut.unwrap_or(self.t + d))),
            _ => None,
        }
    }
}

#[derive(Debug, Clone)]
enum Shape {
    Hold(f64),
    Lin(f64, f64, f64, f64),
    Exp(f64, f64, f64, f64),
    Target(f64, f64, f64, f64),
    Curve(f64, f64, Vec<f32>),
}

/// A piece of the value over time, starting at `from` up to the next segment
#[derive(Debug, Clone)]
struct Segment {
    from: f64,
    shape: Shape,
    /// error of the values carried in from before
    err: f64,
}

impl Segment {
    fn value(&self, t: f64) -> (f64, f64) {
        let (v, e) = match &self.shape {
            Shape::Hold(v) => (*v, 1e-7 * v.abs()),
            Shape::Lin(t0, v0, t1, v1) => {
                let x = if t1 > t0 {
                    ((t - t0) / (t1 - t0)).clamp(0., 1.)
                } else {
                    1.
                };
                (v0 + (v1 - v0) * x, 4e-7 * (v0.abs() + v1.abs()))
            }
            Shape::Exp(t0, v0, t1, v1) => {
                let x = if t1 > t0 {
                    ((t - t0) / (t1 - t0)).clamp(0., 1.)
                } else {
                    1.
                };
                let r = v1 / v0;
                let v = v0 * r.powf(x);
                let e = v.abs() * (4e-7 * (1. + r.ln().abs()));
                // an error of the first value scales along
                return (v, e + v.abs() * self.err / v0.abs());
            }
            Shape::Target(t0, v0, v1, c) => {
                let x = (-(t - t0).max(0.) / c).exp();
                (
                    v1 + (v0 - v1) * x,
                    4e-7 * (v0.abs() + v1.abs()) * (1. + (t - t0).max(0.) / c * x) + 2e-10,
                )
            }
            Shape::Curve(t0, d, values) => {
                let n = values.len();
                let p = ((n - 1) as f64 * (t - t0) / d).clamp(0., (n - 1) as f64);
                let k = (p as usize).min(n - 2);
                let (a, b) = (values[k] as f64, values[k + 1] as f64);
                let big = values.iter().fold(0f32, |m, v| m.max(v.abs())) as f64;
                (a + (b - a) * (p - k as f64), 4e-7 * big)
            }
        };
        (v, e + self.err)
    }
}

/// Acceptable values at a frame
#[derive(Debug, Clone, Copy)]
pub struct Range {
    pub lo: f64,
    pub hi: f64,
}

#[derive(Debug, Clone)]
pub struct Timeline {
    initial: f64,
    events: Vec<Event>,
    /// new events are accepted after these
    holds: Vec<f64>,
}

impl Timeline {
    pub fn new(initial: f32) -> Self {
        Self {
            initial: initial as f64,
            events: vec![],
            holds: vec![],
        }
    }

    fn insert(&mut self, e: Event) {
        let at = self.events.partition_point(|o| o.t <= e.t);
        self.events.insert(at, e);
    }

    /// Whether the call follows the rules at this time (no events inside of curves, nothing in the
    /// past and nothing before a point of time where the value is to be held)
    pub fn valid(&self, call: &Call, now: f64, sr: f64) -> bool {
        let t = match call {
            Call::Value(_) => now,
            Call::Set(t, _)
            | Call::Lin(t, _)
            | Call::Exp(t, _)
            | Call::Target(t, _, _)
            | Call::Curve(t, _, _) => *t,
            Call::Cancel(t) | Call::Hold(t) => {
                // an event at the same time as both the cancellation and the call may have been
                // applied already
                let rounded = sr != 32768.
                    && (now > 0. && (t - now).abs() < 1e-3
                        || now > 0. && self.events.iter().any(|e| (e.t - now).abs() < 1e-3)
                        || self
                            .events
                            .iter()
                            .any(|e| e.curve().is_some_and(|(_, b)| (t - b).abs() < 1e-3)));
                // whether a target event before a curve goes on after the curve has been removed
                let resumed = matches!(call, Call::Cancel(_))
                    && self.events.windows(2).any(|w| {
                        matches!(w[0].kind, Kind::Target(_))
                            && w[1].t < now
                            && w[1].curve().is_some_and(|(_, b)| *t <= b)
                    });
                return *t >= now
                    && !rounded
                    && !resumed
                    && !self.holds.iter().any(|h| (t - h).abs() < 1e-3)
                    && !(*t <= now && self.events.iter().any(|e| (e.t - t).abs() < 1e-3));
            }
        };
        if t < now || self.holds.iter().any(|h| t < *h) {
            return false;
        }
        // times in seconds may be rounded differently
        if sr != 32768. && (t - now).abs() < 1e-3 && !matches!(call, Call::Value(_)) && now > 0. {
            return false;
        }
        if sr != 32768.
            && matches!(call, Call::Value(_))
            && self.events.iter().any(|e| {
                (e.t - now).abs() < 1e-3 || e.curve().is_some_and(|(_, b)| (b - now).abs() < 1e-3)
            })
            && now > 0.
        {
            return false;
        }
        // not specified: new events between the present time and the end of a ramp that has
        // started already
        let next = self.events.partition_point(|e| e.t <= now);
        let immediate = matches!(call, Call::Value(_) | Call::Set(..)) && t == now;
        if next > 0
            && self
                .events
                .get(next)
                .is_some_and(|e| e.is_ramp() && t < e.t)
            && self.events[next - 1].t < now
            && !immediate
        {
            return false;
        }
        for e in &self.events {
            if let Some((a, b)) = e.curve() {
                // also in seconds, because of rounding
                let end = match e.kind {
                    Kind::Curve(_, d, None) => e.t / sr + d / sr,
                    _ => b / sr,
                };
                if t >= a && (t < b || t / sr < end) {
                    return false;
                }
                if let Call::Curve(_, _, d) = call {
                    if t < b && t + d > a {
                        return false;
                    }
                }
            }
            if let Call::Curve(_, _, d) = call {
                if e.t > t && (e.t < t + d || e.t / sr < t / sr + d / sr) {
                    return false;
                }
            }
        }
        true
    }

    /// A call made just before the quantum at `now` is rendered
    pub fn call(&mut self, call: &Call, now: f64) {
        let ev = |t: f64, v: f32, kind: Kind| Event {
            t,
            v: v as f64,
            e: 0.,
            kind,
        };
        let e = match call {
            Call::Value(v) => ev(now, *v, Kind::Set),
            Call::Set(t, v) => ev(*t, *v, Kind::Set),
            Call::Target(t, v, c) if *c == 0. => ev(*t, *v, Kind::Set),
            Call::Lin(t, v) => ev(*t, *v, Kind::Lin),
            Call::Exp(t, v) => ev(*t, *v, Kind::Exp),
            Call::Target(t, v, c) => ev(*t, *v, Kind::Target(*c)),
            Call::Curve(t, v, d) => ev(*t, v[v.len() - 1], Kind::Curve(v.clone(), *d, None)),
            Call::Cancel(t) => {
                self.events
                    .retain(|e| e.t < *t && e.curve().is_none_or(|(_, b)| *t > b));
                self.holds.retain(|h| h < t);
                return;
            }
            Call::Hold(t) => return self.hold(*t, now),
        };
        if e.is_ramp() && self.events.first().is_none_or(|f| f.t > e.t) {
            let (v, err) = self.at(now);
            self.insert(Event {
                t: now,
                v,
                e: err,
                kind: Kind::Set,
            });
        }
        self.insert(e);
    }

    fn hold(&mut self, t: f64, now: f64) {
        let next = self.events.partition_point(|e| e.t <= t);
        let mut line = self.clone();
        if next > 0 && self.replaced(next - 1) {
            line.commit(next - 1, now);
        }
        let (v, e) = line.at(t);
        let in_curve = next > 0 && self.events[next - 1].curve().is_some_and(|c| t <= c.1);
        if !in_curve && self.events.get(next).is_some_and(|e| e.is_ramp()) {
            // end the ramp here
            let flat = match self.events[next].kind {
                Kind::Exp => {
                    line.events.retain(|e| e.t <= t);
                    let v0 = line.at(f64::MAX).0;
                    v0 == 0. || v0 * self.events[next].v < 0.
                }
                _ => false,
            };
            let r = &mut self.events[next];
            r.t = t;
            r.v = v;
            r.e = e;
            if flat {
                r.kind = Kind::Flat;
            }
            self.events.truncate(next + 1);
        } else {
            self.events.truncate(next);
            if let Some(e1) = self.events.last_mut() {
                match &mut e1.kind {
                    Kind::Target(_) => self.events.push(Event {
                        t,
                        v,
                        e,
                        kind: Kind::Set,
                    }),
                    Kind::Curve(_, d, cut) => {
                        if t <= cut.unwrap_or(e1.t + *d) {
                            *cut = Some(t);
                        }
                    }
                    _ => (),
                }
            }
        }
        self.holds.retain(|h| *h < t);
        self.holds.push(t);
    }

    /// A ramp after a target event replaces it
    fn commit(&mut self, i: usize, now: f64) {
        let e = self.events[i].clone();
        let mut before = self.clone();
        if e.t >= now {
            before.events.truncate(i);
            let (v, err) = before.at(e.t);
            self.events[i] = Event {
                t: e.t,
                v,
                e: err + 2e-7 * (v.abs() + e.v.abs()),
                kind: Kind::Set,
            };
        } else {
            before.events.truncate(i + 1);
            let (v, err) = before.at(now);
            let set = Event {
                t: now,
                v,
                e: err,
                kind: Kind::Set,
            };
            self.events.insert(i + 1, set);
        }
    }

    fn replaced(&self, i: usize) -> bool {
        matches!(self.events[i].kind, Kind::Target(_))
            && self.events.get(i + 1).is_some_and(|e| e.is_ramp())
    }

    /// Start of a quantum
    pub fn quantum(&mut self, now: f64, len: f64) {
        let mut i = 0;
        while i < self.events.len() {
            if self.replaced(i) && self.events[i].t < now + len {
                self.commit(i, now);
            }
            i += 1;
        }
    }

    fn segments(&self) -> Vec<Segment> {
        let mut out = vec![];
        let (mut t, mut v, mut err) = (f64::MIN, self.initial, 0f64);
        for (i, e) in self.events.iter().enumerate() {
            let next = self.events.get(i + 1);
            let hold = |t: f64, v: f64, err: f64| Segment {
                from: t,
                shape: Shape::Hold(v),
                err,
            };
            match &e.kind {
                Kind::Set | Kind::Flat => {
                    out.push(hold(t, v, err));
                    (t, v, err) = (e.t, e.v, e.e);
                }
                Kind::Lin => {
                    out.push(Segment {
                        from: t,
                        shape: Shape::Lin(t, v, e.t, e.v),
                        err,
                    });
                    (t, v, err) = (e.t, e.v, e.e);
                }
                Kind::Exp => {
                    if v == 0. || v * e.v < 0. {
                        out.push(hold(t, v, err));
                    } else {
                        out.push(Segment {
                            from: t,
                            shape: Shape::Exp(t, v, e.t, e.v),
                            err,
                        });
                    }
                    (t, v, err) = (e.t, e.v, e.e);
                }
                Kind::Target(c) => {
                    out.push(hold(t, v, err));
                    t = e.t;
                    if !next.is_some_and(|n| n.is_ramp()) {
                        let s = Segment {
                            from: t,
                            shape: Shape::Target(t, v, e.v, *c),
                            err,
                        };
                        t = next.map_or(f64::MAX, |n| n.t);
                        (v, err) = s.value(t);
                        out.push(s);
                    }
                }
                Kind::Curve(values, d, cut) => {
                    out.push(hold(t, v, err));
                    let s = Segment {
                        from: e.t,
                        shape: Shape::Curve(e.t, *d, values.clone()),
                        err: 0.,
                    };
                    t = cut.unwrap_or(e.t + d);
                    (v, err) = s.value(t);
                    out.push(s);
                }
            }
        }
        out.push(Segment {
            from: t,
            shape: Shape::Hold(v),
            err,
        });
        out
    }

    /// value and error bound at a time
    fn at(&self, t: f64) -> (f64, f64) {
        let s = self.segments();
        let i = s.partition_point(|s| s.from <= t).max(1) - 1;
        s[i].value(t)
    }

    /// Whether the sign of a value an exponential ramp starts from is not certain
    pub fn unsure(&self) -> bool {
        let s = self.segments();
        s.windows(2).any(|w| {
            let exp = matches!(w[1].shape, Shape::Exp(..));
            let v = match &w[1].shape {
                Shape::Exp(_, v0, _, _) => *v0,
                _ => return false,
            };
            exp && w[1].err > 0. && v.abs() < w[1].err * 4. + 1e-9
        }) || self.events.windows(2).any(|w| {
            // hold at a value near zero before an exponential ramp
            matches!(w[1].kind, Kind::Exp) && w[0].e > 0. && w[0].v.abs() < w[0].e * 4. + 1e-9
        })
    }

    /// Acceptable values of the frames `from..from + n`. With `exact`, sample times are exact in
    /// floating point.
    pub fn frames(&self, from: usize, n: usize, exact: bool) -> Vec<Range> {
        let s = self.segments();
        let get = |t: f64| {
            let i = s.partition_point(|s| s.from <= t).max(1) - 1;
            s[i].value(t)
        };
        (from..from + n)
            .map(|f| {
                let t = f as f64;
                let (v, e) = get(t);
                let mut r = Range {
                    lo: v - e,
                    hi: v + e,
                };
                let add = |r: &mut Range, (v, e): (f64, f64)| {
                    r.lo = r.lo.min(v - e);
                    r.hi = r.hi.max(v + e);
                };
                let i = s.partition_point(|s| s.from <= t).max(1) - 1;
                // rounding of times
                add(&mut r, s[i].value(t - 1e-6));
                add(&mut r, s[i].value(t + 1e-6));
                // an event between two frames may be applied at either of them
                for b in s.iter().map(|s| s.from) {
                    if b <= t - 1. || b >= t + 1. {
                        continue;
                    }
                    let on_grid = (b - b.round()).abs() < 1e-6;
                    if on_grid && exact && b == t {
                        continue;
                    }
                    if on_grid && (b - t).abs() > 0.5 {
                        continue;
                    }
                    if on_grid && !exact {
                        let i = s.partition_point(|s| s.from < b).max(1) - 1;
                        // only the start of a curve depends on the rounding of sample times
                        let curve = s
                            .iter()
                            .any(|s| s.from == b && matches!(s.shape, Shape::Curve(..)));
                        if (b - t).abs() < 1e-5 && !curve && b.fract() == 0. {
                            continue;
                        }
                        for k in i..s.len() {
                            if s[k].from <= b {
                                add(&mut r, s[k].value(b));
                            }
                        }
                        continue;
                    }
                    for k in 0..s.len() {
                        let next = s.get(k + 1).map_or(f64::MAX, |s| s.from);
                        if s[k].from >= t + 1. || next <= t - 1. {
                            continue;
                        }
                        let (a, z) = (s[k].from.max(t - 1.), next.min(t + 1.));
                        for x in [a, z, t.clamp(a, z)] {
                            add(&mut r, s[k].value(x));
                        }
                    }
                }
                r
            })
            .collect()
    }
}

pub fn any_value() -> BoxedStrategy<f32> {
    prop_oneof![
        4 => -10f32..10.,
        2 => Just(0f32),
        1 => Just(1f32),
        1 => 0.01f32..1.,
        1 => -1e6f32..1e6,
        1 => prop_oneof![Just(1e-6f32), Just(1e6f32), Just(-1e-6f32)],
    ]
    .boxed()
}

fn nonzero() -> BoxedStrategy<f32> {
    any_value()
        .prop_map(|v| if v == 0. { 0.5 } else { v })
        .boxed()
}

/// Times in frames: on frames, on quantum boundaries, between frames
pub fn time(from: usize, to: usize) -> BoxedStrategy<f64> {
    let (a, b) = (from as f64, to as f64);
    let (qa, qb) = (from.div_ceil(128), to / 128);
    prop_oneof![
        3 => (from..to).prop_map(|t| t as f64),
        2 => (qa..=qb.max(qa)).prop_map(|q| (q * 128) as f64),
        2 => a..b,
        1 => (from..to, prop_oneof![Just(0.5), Just(0.25), Just(0.75), Just(0.499), Just(0.501)])
            .prop_map(|(t, x)| t as f64 + x),
    ]
    .boxed()
}

/// Calls without cancellation, with times in the range
pub fn schedule(from: usize, to: usize) -> BoxedStrategy<Call> {
    let dur = || {
        prop_oneof![
            2 => 1f64..400.,
            2 => (1usize..400).prop_map(|d| d as f64),
            1 => (1usize..4).prop_map(|d| (d * 128) as f64),
            1 => 0.1f64..3.,
        ]
    };
    let constant = prop_oneof![
        4 => 1f64..300.,
        1 => 0.05f64..1.,
        1 => 300f64..5000.,
        1 => Just(0f64),
    ];
    prop_oneof![
        3 => (time(from, to), any_value()).prop_map(|(t, v)| Call::Set(t, v)),
        3 => (time(from, to), any_value()).prop_map(|(t, v)| Call::Lin(t, v)),
        3 => (time(from, to), nonzero()).prop_map(|(t, v)| Call::Exp(t, v)),
        3 => (time(from, to), any_value(), constant).prop_map(|(t, v, c)| Call::Target(t, v, c)),
        3 => (time(from, to), proptest::collection::vec(any_value(), 2..8), dur())
            .prop_map(|(t, v, d)| Call::Curve(t, v, d)),
        1 => any_value().prop_map(Call::Value),
    ]
    .boxed()
}

/// All calls, with times in the range
pub fn any_call(from: usize, to: usize) -> BoxedStrategy<Call> {
    prop_oneof![
        5 => schedule(from, to),
        2 => time(from, to).prop_map(Call::Cancel),
        2 => time(from, to).prop_map(Call::Hold),
    ]
    .boxed()
}
