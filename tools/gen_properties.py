#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os, sys
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if hook: a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

G="src/render/graph.rs"; Q="src/render/quantum.rs"; T="src/render/thread.rs"; CB="src/context/concrete_base.rs"
OFF="src/context/offline.rs"; ON="src/context/online.rs"; PA="src/param.rs"; EV="src/events.rs"; AN="src/node/audio_node.rs"

p("C01","Acyclic graph renders as the sum of all its signal paths",
  "For every acyclic graph of audio nodes, each node input receives the sum of all outputs connected to it, each connection contributing exactly once and only once per render quantum, after up- or down-mixing to the channel count that input works with. The rendered destination therefore equals a node-by-node evaluation of the graph and does not depend on the order in which nodes or connections were created; nodes with no path to the destination contribute nothing to it.",
  ["programs","inputs"],"all acyclic graphs of sources, gains, shapers, splitters, mergers, modulated parameters, with fan-in, fan-out, multi-output/multi-input connections and any creation order",
  "Existing tests render two or three hand-written graphs; ordering bugs and dropped or doubled edges only show for particular topologies and creation orders.",
  [G,CB,"src/node/channel_merger.rs","src/node/channel_splitter.rs","src/node/gain.rs"],
  [("topological ordering by depth-first visit",G+" order_nodes/visit"),("edge mixing into inputs",G+" render"),("connection bookkeeping",CB+" connect")])
p("C02","Channel up- and down-mixing follows the channel rules of each input",
  "For every input signal of 1 to 32 channels, every channel count, count mode and channel interpretation of the receiving node (set at construction or changed later), and every number of simultaneous connections, the node receives exactly the number of channels its count mode prescribes. The samples are mixed with the Web Audio speaker matrices for mono, stereo, quad and 5.1 layouts, and by plain channel drop or zero-fill for discrete interpretation and for any other layout (except that the rear channels of quad become the last two of five).",
  ["inputs","configurations"],"all pairs of channel layouts 1..32, all count modes and interpretations, one or several connections, including changes while rendering",
  "Unit tests cover selected pairs of layouts with a single constant value; the space of layout pairs, modes and simultaneous inputs is far larger.",
  [Q,G,AN],[("mix matrices",Q+" mix"),("summing junction",Q+" add"),("computed number of channels",G+" render / ChannelConfig")])
p("C03","Connect and disconnect histories leave exactly the requested connections",
  "After any sequence of connect and disconnect calls (all variants: everything, one destination, one output, one output to one destination, one output to one input, and audio parameters), interleaved with rendering, the audio of each following render quantum reflects exactly the set of connections then in place. Connecting an already connected pair again changes nothing, and a disconnect call that names a connection that does not exist, or an out-of-range input or output, is rejected without altering any connection.",
  ["histories"],"all sequences of connect/disconnect calls over small graphs, interleaved with rendered quanta",
  "Tests exercise single connect/disconnect pairs; stale, duplicated or over-removed edges depend on the history.",
  [CB,AN,G],[("connection set",CB+" connect/disconnect*"),("edge list",G+" add_edge/remove_edge")])
p("C04","Feedback loops work through a delay and are silent without one",
  "A loop that contains a delay node renders as the recursive delay equation with an effective loop delay of at least one render quantum (128 frames), whatever other nodes are in the loop. Nodes in a loop without any delay node output silence while the loop exists, without affecting nodes outside of it beyond that silence, and all rendering returns to normal once the loop is broken.",
  ["programs","histories"],"all small graphs with loops, with or without delay nodes, loops being closed and opened while rendering",
  "Only a couple of fixed loops are tested; ordering of loop members and stale loop flags depend on topology and history.",
  [G,"src/node/delay.rs"],[("cycle detection and cycle breaker",G+" visit/mark_cycle_breaker"),("in-cycle minimum delay","src/node/delay.rs DelayReader")])
p("C05","Dropping node handles never changes what is heard",
  "Dropping the control handle of any node at any time never changes the rendered audio compared with keeping the handle alive: scheduled sources keep playing to their end, filters, delays, convolvers and compressors keep processing while they have input and ring out completely afterwards. The handle's release also never affects any other node, including nodes created later.",
  ["histories","programs"],"all node types, graphs and moments at which handles are dropped",
  "Lifecycle bugs need a particular node, tail length and drop time; tests only drop a few handles.",
  [G,T,"src/context/mod.rs","src/node/delay.rs","src/node/convolver.rs","src/node/dynamics_compressor.rs"],
  [("lifecycle of nodes without handle",G+" can_free"),("tail time result of processors","src/node/*.rs process return value")])
p("C06","Finished and unreachable nodes are reclaimed, live ones never are",
  "When the handles of nodes are dropped and those nodes can no longer produce or influence any audio (sources ended or never started and unconnected processing nodes whose tail is over), they are removed from the render graph within a bounded number of render quanta, so a context that repeatedly creates and drops nodes does not grow without bound (nodes on feedback loops aside). Nodes whose handle is alive or that still produce sound stay in the graph.",
  ["histories"],"all histories that create, connect, start, stop and drop nodes, observed through the node count of the diagnostic report",
  "A leak or an early release is invisible to tests that render a fixed graph for a short while.",
  [G,CB,"src/context/mod.rs","src/context/diagnostics.rs"],[("can_free rules",G+" Node::can_free"),("id recycling",G+" reclaim_id_channel")],
  ["diagnostics report node list"])
p("C07","Offline rendering is deterministic, causal and exactly the requested size",
  "Rendering the same offline program twice, or once with the blocking and once with the asynchronous call, yields bit-identical buffers with exactly the requested number of channels, frames and sample rate. Rendering fewer frames yields exactly the beginning of the longer rendering.",
  ["programs","configurations"],"all programs over all node types, all lengths (including non-multiples of 128), channel counts and sample rates",
  "Tests compare against constants for a few programs; nondeterminism and block-boundary effects need varied programs and lengths.",
  [OFF,T,G],[("offline render loops",T+" render_audiobuffer*"),("partial last quantum",T+" render_offline_quantum")])
p("C08","Offline suspensions run at their exact quantum and do not disturb audio",
  "Every suspension scheduled before rendering at a time inside the rendering runs exactly once, in time order, at the first render quantum boundary at or after that time; there the context reports the suspended state and exactly that current time, afterwards it is running again, and every change of the state is reported by an event. Suspending without changing anything leaves the rendered audio identical, and graph changes made during a suspension take effect from exactly that frame on, identically for the callback and the asynchronous variants.",
  ["schedules","histories","inputs"],"all sets of suspension times, any registration order, any actions in them",
  "Tests suspend once or twice at handpicked times; rounding, ordering and end-of-render handling depend on the times.",
  [OFF,T],[("suspend scheduling",OFF+" calculate_suspend_frame/suspend/suspend_sync"),("render loops",T+" render_audiobuffer*")])
p("C09","Live output does not depend on the size of the backend buffers",
  "The audio stream a live context delivers is the same sequence of frames for every sequence of buffer sizes in which the audio backend requests it, and equals the offline rendering of the same graph (channels beyond the destination's are silent). Every requested frame is written exactly once.",
  ["schedules","inputs"],"all sequences of callback buffer sizes (1 frame to many quanta), channel counts, and message arrival between callbacks",
  "There is no hardware in tests; the leftover handling between callbacks is only reached with buffer sizes that are not multiples of 128.",
  [T,"src/io/mod.rs"],[("leftover frames",T+" render_inner buffer_offset")],None,"manual backend that lets a test request buffers of any size")
p("C10","Live context lifecycle follows suspend, resume, close and sink changes",
  "For every sequence of suspend, resume, close and sink change calls (blocking or asynchronous), each call returns, the context state afterwards is the one the sequence implies (closed is final), and state change events report each change. Time advances only while running, never goes backwards, and a suspended or closed context neither advances nor renders; graph changes made while suspended or during a sink change are applied when rendering continues, none lost.",
  ["histories","schedules"],"all sequences of lifecycle calls on contexts running on the no-output backend, with graph changes in between",
  "Tests run a few fixed sequences; lost messages and wrong states depend on the order of calls.",
  [ON,T,"src/io/none.rs",CB],[("control messages Suspend/Resume/Close/CloseAndRecycle",T+" handle_control_message"),("message queue while suspended",CB+" suspend_control_msgs/resume_control_msgs")])
p("C11","Parameter automation follows the scheduled event timeline",
  "For every list of valid automation events (set value at time, linear ramp, exponential ramp, set target, value curve) scheduled in any call order before rendering, the value of a sample-accurate parameter at every sample frame equals the Web Audio formula for the event list sorted by time, holding the last value between and after events. A control-rate parameter has, during each render quantum, the value its timeline has at the first frame of that quantum.",
  ["inputs","histories"],"all event lists, times (on, off and between sample frames, past, equal times), values, both automation rates, all sample rates",
  "Tests check single events or short handpicked lists; interactions between event kinds, block boundaries and equal times are unbounded.",
  [PA],[("event timeline computation",PA+" compute_buffer / compute_*_automation")])
p("C12","Computed parameter values are modulated, clamped to range and never NaN",
  "At every frame the effective value of a parameter is its timeline value plus the mono down-mix of everything connected to it, replaced by its default when that sum is not a number, then clamped to the parameter's nominal range. A control-rate parameter uses the first frame of each quantum of its timeline and modulation input. A change of the automation rate, at any moment and with any automation scheduled, takes effect from the next quantum on. Reading the value back never yields anything outside the nominal range.",
  ["inputs","programs"],"all parameters ranges and rates, modulation by any multichannel signal including infinite and NaN samples",
  "Tests modulate with one constant; clamping, down-mix and NaN handling need adversarial signals.",
  [PA,G],[("mix_to_output / clamp",PA+" AudioParamProcessor::mix_to_output"),("param value share",PA+" AudioParamInner current_value")])
p("C13","Cancelling and rescheduling automation only affects the future",
  "Cancelling scheduled values removes exactly the events at or after the cancel time, and any value curve the cancel time falls into; the parameter then follows the remaining events, so that a ramp or curve removed half way gives back the value from before it. Cancel-and-hold leaves all values before the cancel time unchanged and freezes the parameter from then on at the value it has at that time, until later events. Automation calls made while rendering is under way only change values from that moment on, and immediate value changes take effect at the next quantum.",
  ["histories","inputs"],"all automation histories with cancellations, issued before rendering or at any suspension",
  "Cancellation interacts with whatever event is active; tests cover one case per event type.",
  [PA],[("cancel handling",PA+" handle_incoming_event CancelScheduledValues/CancelAndHoldAtTime")])
p("C14","Scheduled sources play exactly their scheduled interval and end once",
  "A constant, oscillator or buffer source outputs silence before its start time, its signal from the first frame at or after the start time, and silence from the first frame at or after its stop time, for every start and stop time including the past, equal, non-frame-aligned and repeatedly set stop times. Its ended event fires exactly once, after it stopped, was exhausted or the rendering is over, and not before; a source that is never started stays silent.",
  ["inputs","histories"],"all source kinds, start/stop times, sample rates and calls made while rendering",
  "Tests use a few frame-aligned times; rounding at block boundaries needs many times and rates.",
  ["src/node/constant_source.rs","src/node/oscillator.rs","src/node/audio_buffer_source.rs","src/node/scheduled_source.rs",EV],
  [("schedule check","process of each source"),("ended event","send_ended_event")])
p("C15","Buffer playback interpolates, loops, offsets and stops as specified",
  "For every buffer (length, channels, sample rate), playback rate and detune (positive, zero or negative), loop setting and loop points, start time, offset and duration, the output of a buffer source equals linear interpolation of the buffer at the playback position, which advances by the computed playback rate per frame, wraps inside the effective loop region when looping, and stops after the duration of buffer content or at the buffer's end. Frames outside the buffer are silent and every channel of the buffer is played on its own output channel.",
  ["inputs","configurations"],"all combinations of buffer content, rates, loops, offsets, durations, start times",
  "The existing tests compare handpicked configurations; the fast and slow playback paths differ only for some combinations.",
  ["src/node/audio_buffer_source.rs"],[("fast and slow track","src/node/audio_buffer_source.rs process")])
p("C16","Oscillators keep exact phase and waveform under any frequency automation",
  "For every waveform, constant or automated frequency and detune (including negative, zero and beyond the Nyquist frequency), and any start time, the oscillator output at each frame is the waveform evaluated at the phase accumulated since the exact start time, at the computed frequency; it is silent wherever the computed frequency is at or above the Nyquist frequency in magnitude, without losing phase. The output stays within the waveform's amplitude and has no discontinuity at quantum boundaries.",
  ["inputs"],"all waveforms, frequencies, detunes, automations, start times, sample rates, long renderings",
  "Tests compare some fixed frequencies for a few hundred samples; phase drift and wrap errors need long and varied runs.",
  ["src/node/oscillator.rs"],[("phase accumulation","src/node/oscillator.rs OscillatorRenderer")])
p("C17","Custom periodic waves reproduce their Fourier series",
  "An oscillator with a custom periodic wave outputs the sum of the given cosine and sine terms (ignoring the constant term) at its phase, scaled to a peak of one unless normalization is disabled, for every coefficient list. Missing real or imaginary lists count as zeros, both missing as a sine, and lists of unequal or too short length or of more than 8192 terms are rejected, as is the custom type without a wave.",
  ["inputs"],"all coefficient lists and normalization settings",
  "Tests check one or two small waves.",
  ["src/periodic_wave.rs","src/node/oscillator.rs"],[("wavetable generation","src/periodic_wave.rs generate_wavetable"),("table lookup","src/node/oscillator.rs generate_custom")])
p("C18","Delay node outputs its input delayed by exactly the delay time",
  "For every input signal of any (changing) channel count, maximum delay and constant or automated delay time, the output at each frame equals the input at that frame minus the delay time (limited to zero and the maximum delay), linearly interpolated between frames, with silence before the input began. Nothing is lost, repeated or attenuated, and the last delayed samples are still output after the input has ended.",
  ["inputs"],"all maximum delays, delay times, automations, channel count changes, sample rates, input signals with gaps",
  "Tests use some frame-aligned delays; ring-buffer wrap-around, interpolation and channel changes need varied sizes.",
  ["src/node/delay.rs"],[("shared ring buffer","src/node/delay.rs DelayWriter/DelayReader")])
p("C19","Biquad filters realise their published transfer function",
  "For every filter type, frequency, detune, Q and gain (constant or automated), the output is the second-order difference equation with the Web Audio coefficients for the parameter values of each frame, per channel, with state kept across quanta. The frequency response query returns the magnitude and phase of that transfer function, not a number for frequencies outside zero to Nyquist, and the measured response of the running filter agrees with it.",
  ["inputs","configurations"],"all types and parameter values, automations, multichannel inputs with gaps, frequency arrays",
  "Tests compare coefficients of a handful of settings with constants.",
  ["src/node/biquad_filter.rs"],[("coefficients and difference equation","src/node/biquad_filter.rs calculate_coefs/process")])
p("C20","IIR filters realise their difference equation and response",
  "For every stable or unstable list of feedforward and feedback coefficients (1 to 20, any lengths, not normalised), the output is the corresponding difference equation applied per channel with state kept across quanta, and the frequency response query returns that transfer function. Coefficient lists that are empty, too long, all zero feedforward or with a zero first feedback coefficient are rejected.",
  ["inputs"],"all coefficient lists, multichannel inputs, gaps",
  "Tests check a few lists.",
  ["src/node/iir_filter.rs"],[("filter state","src/node/iir_filter.rs IirFilterRenderer")])
p("C21","Convolver output is the linear convolution with its impulse response",
  "For every impulse response of 1, 2 or 4 channels and any length, with or without normalization, and mono or stereo input, the output equals the direct linear convolution routed per the Web Audio convolver channel matrix and scaled by the published normalization, including the complete tail after the input has ended. Without an impulse response the input passes through unchanged.",
  ["inputs","configurations"],"all impulse response lengths and channels, input signals with gaps, normalization flags",
  "Partitioned convolution errors appear only at certain lengths and block offsets.",
  ["src/node/convolver.rs"],[("partitioned FFT convolution","src/node/convolver.rs ConvolverRenderer")])
p("C22","Wave shaper applies its curve to every sample",
  "For every curve and input signal, without oversampling, each output sample is the linear interpolation of the curve at the input sample mapped from [-1, 1] to the curve's extent, inputs beyond the range give the end values, per channel, including for silent or disconnected input when the curve maps zero to a non-zero value. With 2x or 4x oversampling the output is finite, keeps the channel count, depends only on past input and matches the plain shaper for a linear curve up to the resampler's delay and passband error; without a curve the input passes unchanged.",
  ["inputs"],"all curves (1 to many points), inputs in and out of range, multichannel, all oversampling settings",
  "Tests use a couple of curves.",
  ["src/node/waveshaper.rs"],[("curve lookup","src/node/waveshaper.rs apply_curve")])
p("C23","Stereo panner follows the equal-power panning law",
  "For every mono or stereo input and constant or automated pan value, the stereo output equals the Web Audio equal-power stereo panning formula evaluated at the pan value of each frame, limited to [-1, 1]. Mono power is preserved, and the output always has two channels.",
  ["inputs"],"all pan values and automations, mono/stereo inputs and changes between them",
  "Tests check a few pan positions.",
  ["src/node/stereo_panner.rs"],[("panning gains","src/node/stereo_panner.rs process")])
p("C24","Equal-power spatialisation follows geometry, distance and cone models",
  "For every listener and source position and orientation (static, automated per sample or changed while rendering), distance model with its settings, cone settings and mono or stereo input, the equal-power panner output equals the Web Audio azimuth panning formula multiplied by the distance and cone gains of each frame. The output is finite for all finite settings, including coincident positions, degenerate orientations and equal reference and maximum distances.",
  ["inputs","configurations"],"all positions, orientations, distance models, cones, automations, inputs",
  "Tests check a few directions; degenerate geometry and automation need generated inputs.",
  ["src/node/panner.rs","src/spatial.rs"],[("azimuth, distance and cone","src/spatial.rs, src/node/panner.rs PannerRenderer")])
p("C25","Dynamics compressor applies its documented gain curve with fixed look-ahead",
  "For every parameter setting and input, the compressor output is the input delayed by a fixed look-ahead and multiplied by a common gain for all channels that follows the Web Audio compression curve (threshold, knee, ratio), the attack/release envelope and the make-up gain. The reported reduction is never positive, silence stays silence, and the delayed signal is output completely after the input ends.",
  ["inputs","configurations"],"all thresholds, knees, ratios, attack and release times, input signals and channel counts",
  "Tests compare a couple of renderings.",
  ["src/node/dynamics_compressor.rs"],[("gain computer and envelope","src/node/dynamics_compressor.rs DynamicsCompressorRenderer")])
p("C26","Analyser reports the most recent audio and passes it through unchanged",
  "At any moment the analyser's time-domain data are the most recent frames of the mono down-mix of its input (zeros before any), as many as fit the array and at most fftSize, in order; its frequency data are the smoothed Blackman-windowed Fourier magnitudes of the most recent fftSize frames in decibels, and byte data are the documented clamped scalings of both, computed once per render quantum. Its output equals its input, and only the first array elements up to the available size are written.",
  ["inputs","histories"],"all FFT sizes, smoothing constants, decibel ranges, input signals, query times and array sizes, size changes in between",
  "Tests query once or twice after a fixed signal; ring wrap-around and repeated queries need histories.",
  ["src/analysis.rs","src/node/analyser.rs"],[("ring buffer and FFT","src/analysis.rs Analyser")])
p("C27","Channel splitting and merging is lossless and positional",
  "Splitting a signal yields at each output exactly the corresponding channel (silence for channels the input does not have) and merging yields at each channel exactly the mono signal of the corresponding input, for 1 to 32 channels and any subset of connected ports; splitting and merging in the same order restores the signal. Unconnected merger inputs are silent channels, and signals on one port never leak into another.",
  ["inputs","programs"],"all numbers of ports, all port permutations and subsets, changing connections",
  "Tests use two to six ports in order.",
  ["src/node/channel_splitter.rs","src/node/channel_merger.rs",G],[("port routing",G+" render")])
p("C28","Every valid program renders finite audio without processor failure",
  "For all built-in nodes, with any accepted construction options, attribute and parameter values, automation and connections, and finite bounded input signals, rendering never panics, never raises a processor error, and never outputs NaN or infinite samples (recursive filters with unstable coefficients excepted).",
  ["programs","inputs","configurations"],"all built-in node types with extreme but accepted settings, in chains and feedback loops",
  "Crashes and NaN come from rare combinations (zero sizes, extreme rates, degenerate geometry) no test lists.",
  ["src/node",G,PA],[("panic containment",G+" render catch_unwind"),("numerical guards","src/node/*.rs")])
p("C29","Time shift and gain scaling commute with rendering",
  "Delaying a whole program (all start, stop and automation times) by a whole number of render quanta delays its output by exactly as many frames and changes nothing else. For programs made only of linear nodes, scaling or adding source signals scales or adds the outputs.",
  ["programs"],"all programs over all node types, shifts and scale factors",
  "Metamorphic relations over whole programs are not in the test-suite; hidden state or absolute-time dependence only shows under shifts.",
  ["src/node",PA,G],[("block time handling","all processors")])
p("C30","Audio buffers hold their data independently and copy within bounds",
  "Reading back an audio buffer yields exactly what was written by construction, copy-to-channel, copy-from-channel with any offset (copying only the overlapping frames) or mutable access; clones, and buffers handed to nodes, are never affected by later writes to the original and vice versa. Duration, length, channels and sample rate are consistent, and out-of-range channels, lengths and sample rates are rejected.",
  ["histories","inputs"],"all histories of buffer operations over several aliases",
  "Copy-on-write aliasing depends on the history of clones and writes.",
  ["src/buffer.rs","src/node/audio_buffer_source.rs"],[("copy-on-write channels","src/buffer.rs ChannelData")])
p("C31","Decoding restores PCM audio and survives arbitrary bytes",
  "Decoding a WAV file of any supported sample format, channel count, length and sample rate yields exactly its samples (to quantisation) when its sample rate equals the context's and their linear resampling at the context's rate otherwise, independent of how the reader splits the bytes and of using the blocking or asynchronous call. Arbitrary, truncated or corrupted bytes produce either a decoded buffer or an error, never a panic, and a failing reader never produces made-up audio.",
  ["inputs","fault_sequences"],"all PCM files, all byte strings near valid files, all short-read patterns and I/O errors",
  "Tests decode a few sample files.",
  ["src/decoding.rs","src/context/base.rs","src/buffer.rs"],[("decoder loop","src/decoding.rs MediaDecoder"),("resample","src/buffer.rs resample")])
p("C32","Invalid arguments are rejected up front and change nothing",
  "Constructors, setters, scheduling and automation calls accept every value in their documented range, reflecting it in the corresponding getter, and reject (panic on the calling thread) every value outside it. A rejected call has no effect: the context remains usable and renders exactly as if the call had not been made.",
  ["inputs","histories"],"all API entry points with boundary, non-finite and random arguments, before and during rendering",
  "Tests check some invalid values one at a time and never the context afterwards.",
  ["src/lib.rs","src/node",PA,OFF],[("argument assertions","assert_valid_* functions")])
p("C33","A failing custom processor is contained",
  "When a user-defined processor panics at any quantum, exactly one processor error event naming the failure is delivered to its node, its output is silent from that quantum on and it is never called again. All other nodes render exactly as if the failing node produced silence, and the control handle of the failed node stays usable without disturbing rendering.",
  ["fault_sequences","programs"],"all graphs with one or more processors failing at any quantum, at any position, also in message handlers and constructors",
  "One test panics one node once.",
  [G,"src/worklet.rs",EV],[("catch_unwind around process",G+" render")])
p("C34","Event handlers fire exactly once per event and can be replaced safely",
  "Every event (ended, state change, complete, processor error, sink change) is delivered to the handler registered for it when it fires, exactly once and in the order emitted, before rendering completes for an offline context. Replacing a handler makes only the new one run, clearing makes none run, also when done from inside a handler, and a handler may use the context freely.",
  ["histories","schedules"],"all histories of registering, replacing and clearing handlers, also within handlers",
  "Tests register one handler and fire it once.",
  [EV,"src/node/scheduled_source.rs",OFF],[("handler table and event loop",EV+" EventLoop")])
p("C35","Custom processors see the right audio, parameters, time and messages",
  "At every render quantum a user-defined processor is called exactly once with all its inputs mixed as configured, output buffers of the configured channel counts, the parameter values of that quantum and the current frame and time, and what it writes is its output. Messages posted to it arrive exactly once, in order and before the next quantum it renders, and its return value decides how long it lives after its inputs are gone.",
  ["programs","histories"],"all input/output counts, channel configurations, parameters, message histories",
  "Tests use a single fixed processor.",
  ["src/worklet.rs","src/message_port.rs",G],[("slice regrouping","src/worklet.rs process"),("message routing",G+" route_message")])
p("C36","Media stream tracks feed the graph gaplessly and in order",
  "A media stream (track) source node outputs the concatenation of the buffers its track yields, of any sizes, channel counts kept, linearly resampled to the context rate, padded with silence at the end, and then silence for ever; an error item ends the output. Consumers that share a track get the latest chunk, each of them at most once, and a further chunk is requested only by a consumer that has seen the latest. A media stream destination yields, for each render quantum consumed, exactly the audio at its input.",
  ["inputs","fault_sequences"],"all chunk size sequences, sample rates, error positions",
  "Tests use one chunk size.",
  ["src/resampling.rs","src/media_streams/mod.rs","src/node/mod.rs","src/node/media_stream_destination.rs"],[("chunk re-splitting","src/resampling.rs Resampler")])
p("C37","Media recorder output is a lossless WAV of the recorded stream",
  "The concatenated data blobs of a recorder form a valid 32-bit float WAV whose samples are exactly the recorded stream's samples in order, none lost or duplicated, however the stream is chunked; the stop event fires exactly once at the end and nothing is delivered after it, and a stream error delivers the data so far, then one error event, then stop.",
  ["inputs","fault_sequences"],"all track contents, chunk sizes, channel counts, error positions",
  "Tests record a tiny stream.",
  ["src/media_recorder/mod.rs","src/media_streams/mod.rs"],[("encode and flush","src/media_recorder/mod.rs RecordedData/MediaRecorderInner")])
p("C38","Script processor exchanges complete, ordered blocks with fixed latency",
  "A script processor hands its handler the input audio in consecutive blocks of exactly the buffer size, in order, none lost or duplicated, with the playback time at which the answer will be heard, and the block written by the handler is output at exactly that time. Without a handler its output is silent.",
  ["inputs","histories"],"all buffer sizes, channel counts, rendering lengths, handlers",
  "One test per feature.",
  ["src/node/script_processor.rs",EV],[("double buffering","src/node/script_processor.rs ScriptProcessorRenderer")])
p("C39","Graphs may be built from many threads at once",
  "Nodes may be created, connected, scheduled and dropped concurrently from any number of threads on the same context; every such operation takes effect exactly once, and the rendered audio equals that of performing each thread's operations in its own order in any sequential interleaving. No operation deadlocks, panics or is lost.",
  ["schedules","programs"],"all interleavings of several threads' construction programs whose results are order independent",
  "Tests are single threaded apart from smoke tests.",
  [CB,"src/context/base.rs",G],[("id issuing and message channel",CB+" register/connect")])
p("C40","Render and playback statistics add up",
  "The playback statistics and render capacity reports account for every backend callback exactly once: loads, underrun durations, underrun events (one per uninterrupted run of late callbacks) and latency minimum, average and maximum are consistent with the sequence of callbacks and latencies recorded. Values never decrease except for latencies after a reset, and stay finite.",
  ["histories","inputs"],"all sequences of callback durations, budgets, latencies, resets and reads",
  "Tests use two short sequences.",
  ["src/stats.rs","src/playback_stats.rs","src/capacity.rs"],[("counters","src/stats.rs AudioStats")],None,"access to the statistics recorder")
p("C41","HRTF panning convolves with the head response of the source's direction",
  "With the HRTF panning model, for every listener and source position and orientation (static, automated or changed while rendering), distance model, cone and mono or stereo input, at sample rates from 44.1 kHz, each quantum of the panner's stereo output is the input (the sum of both channels of stereo input) convolved with the left and right measured head responses for the source's direction (right, up, forward) relative to the listener at the first frame of that quantum, multiplied by the distance and cone gains of that frame. The response to input that ends is output completely. The ear on the source's side hears more, and the output is finite for all finite settings.",
  ["inputs","configurations"],"all positions, orientations, distance models, cones, automations, inputs; sample rates from 44100 Hz",
  "Tests check that some samples are not zero.",
  ["src/node/panner.rs","src/spatial.rs","resources/IRC_1003_C.bin"],[("HRTF rendering, tail and stereo input","src/node/panner.rs HrtfState, PannerRenderer")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
