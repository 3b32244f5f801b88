HEAD = """
# Deciding the properties by generated-input search

Technique family: property-based testing and fuzzing (proptest 1.12 generators and shrinking, Rust).

## Method

* `harness/` (binary `wa-harness`) has a path dependency on the crate in `/repo` with `default-features = false`
  and the `diagnostics` feature, so that no audio hardware is needed. `hooked/` (binary `wa-hooked`) contains the checks
  that need the audio callback of a live context; it is built with `--cfg verif_hooks`. One subcommand per property.
  `check.sh ID` rebuilds the binary from the current tree into `target/` and runs it.
* Every case is a plain serialisable value, constructed by the generators (no filtering). The number of cases per tier
  is fixed; they are generated in shards whose seeds are functions of `VERIF_SEED`, the property, the suite and the shard.
* A failing case is shrunk by proptest and written to `replays/<id>-<hash>.json`;
  `check.sh <id> --replay FILE` executes exactly that case.
* Panics on any thread that a case does not announce are violations, including those the library catches itself.
* Exit codes: 0 held, 1 violation; 2, 3 or a signal: build failure, watchdog, exhausted memory - an error, never a violation.
  C10 and C39 run cases on contained threads: there a call that has not returned after 15 s (30 s) although the audio
  callback keeps being called is the violation itself.
* The evidence file counts generated cases, distinct non-trivial cases (by the stated rule), comparisons with the
  oracle, and classes of cases, and shows samples.
* Oracles are written from the Web Audio text and the documentation of the crate in f64, or are metamorphic
  relations, or models of histories. None of them calls the code it judges, with one deliberate exception: several
  node checks take the mixed input and the computed parameter values from a custom processor that is connected in the same way
  (their correctness is the subject of C02 and C11-C13).

## Hooks

Commit 3c33ee4 adds, under `cfg(verif_hooks)` only, a way to take over the callback of the no-output sink: sinks opened by a
thread that asked for it spawn no thread of their own, the test requests the audio itself, chooses the number of channels of the
stream and can record durations in the statistics. Without the flag (apart from one `allow` attribute for the
name of the flag) nothing is compiled in and the test suite passes.
Checks that use them: C06, C09, C10, C39, C40.
"""
TAIL = """
## False alarms that were fixed in the checks

* C01, C03: the number of channels of silence is not specified; where it decides on the result (up-mix of zeros) the
  frames are labelled and both are accepted. Rounding of a steep shaper curve.
* C02: 4 to 5 channels has a rule of its own; mono silence.
* C04: delays whose only loops pass through muted nodes.
* C11-C13: order of events at the same time, ramps after reached targets, values scheduled in the past.
* C14, C15: residue of interpolation at the last frame, loop changes exactly at the wrap.
* C16: tolerance at jumps of saw and square. C17: subnormal tables.
* C19: underflow of the frequency with extreme detune, rounding close to Nyquist, rounding of coefficients.
* C21: sum of squares in single precision. C22: layout changes of oversampled audio, latency of 128 frames.
* C24: coordinates above 1e38, distances blurred by rounding, flushed subnormals.
* C25: constrained rates, sign of rounding in `reduction`. C26: short arrays, rounding of smoothing and small magnitudes.
* C28: loops with modulated parameters may grow. C29: tolerance in proportion to the sources, not the output.
* C31: reading in pieces only has to make no difference for intact files; third-party decoders may fail on damaged ones.
* C32: getters of values that single precision rounds. C33: layouts constant, as silence has no number of channels.
* C34: sources that are not connected need not be processed. C35: values scheduled in the past.
* C37: the announcement channel was closed by the test itself.
* C06: listener nodes are added with the first panner; a modulated parameter keeps its node in use.
* C10: graph changes that are pending when a running stream is replaced may take effect later; the test itself was blocked
  by a full channel; handlers installed after the start; contexts closed before they started.
* C41: below 44.1 kHz the hrtf crate's resampled responses are longer than its blocks; on the edges between measured
  directions it may miss both faces and keep an earlier response; rounding when the gain drops by many orders of magnitude.
* C39: offline rendering also counts ended events of sources that still play at the end.

## Limits

* No audio hardware and no network: the cpal and cubeb backends, device enumeration and microphone input are not
  executed. Live contexts use the no-output backend and the hooked backend.
* Interleavings of threads (C10, C39) are those the scheduler produces; a rare race may need more cases than the quick tier has.
  A hang is decided by wall-clock patience in the suites with threads; the `steps` suite of C10 counts callbacks instead.
* Compressed formats are decoded by a third-party library: only robustness and independence of read sizes are checked (C31).
* HRTF panning (C41) takes the interpolated head response of a direction from the hrtf crate, a dependency; what the
  library does with it is checked from 44.1 kHz on, where these responses are usable.
* `MediaElement` is driven by a thread of its own with real-time pacing and is not covered.
* No property is listed as not applicable; the technique decides all of them within the bounds above.
"""
