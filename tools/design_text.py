# Hand-written part of DESIGN.md: property -> (what is generated, oracle, why it reaches beyond the tests)
TEXT = {
"C01": ("Acyclic graphs of 3-41 nodes (sources, gains, shapers, splitters, mergers, delays, analysers, modulated parameters) with arbitrary fan-in and fan-out and independently permuted creation and connection orders; suite `reorder` builds the same graph twice in different orders.",
        "f64 evaluation of the whole graph, quantum by quantum (`refgraph.rs`), written from the Web Audio text and not from the render code.",
        "The unit tests of the graph look at the order of a handful of fixed topologies, never at the audio of arbitrary ones."),
"C02": ("1-4 sources of 1-32 channels into one input; all channel counts, modes and interpretations, changed while rendering; sources that share channel data by pointer.",
        "Mixing matrices of the specification in f64 (`mix.rs`).",
        "Tests mix one buffer at a time; sums of different layouts and the pointer-equality fast path are not reached."),
"C03": ("Histories of connect and disconnect calls of all variants, valid and invalid, on nodes and parameters, before and while rendering, with handles dropped in between.",
        "A set of connections kept by the test; the audio of each quantum is evaluated in f64; calls that must be rejected are predicted.",
        "Tests check single calls; not what earlier calls left behind."),
"C04": ("Graphs with arbitrary connections: several loops, self loops, loops with and without delays, loops through parameters; edges added and removed while rendering.",
        "f64 evaluation: delays in loops last at least one quantum, nodes in a loop without a delay are silent.",
        "Tests have one loop of fixed shape."),
"C05": ("Programs over all kinds of nodes (`program.rs`) whose handles are dropped at generated times; `tails`: a sound of arbitrary length into a chain of nodes with tails, nothing kept.",
        "Metamorphic: the same program with all handles kept.",
        "The lifetime of tails (filters, convolver, delay, compressor, HRTF) is hardly tested, and only by node counts."),
"C06": ("Histories on a live context (creation, connection, dropping, ending) and long churn of nodes whose ids are recycled; the audio callback is called by the test.",
        "Reachability model over the connection set; compared with the diagnostic report: nodes that must be gone are gone, nodes that must stay are present.",
        "Needs the callback of a live context (hook), which the tests cannot call."),
"C07": ("Programs changed while rendering; lengths that are no multiple of the quantum.",
        "Metamorphic: repeated, concurrent, asynchronous and shorter renderings agree bit for bit.",
        "Tests render once."),
"C08": ("Programs with additional suspensions in any order of scheduling, blocking and asynchronous; sounds started in suspensions; invalid suspensions; events of state changes.",
        "Metamorphic (no suspension) and a direct prediction of frames, states and times.",
        "Tests suspend once or twice at whole quanta."),
"C09": ("Programs played through callbacks of arbitrary sizes and channel counts; operations between callbacks.",
        "Offline rendering of the same operations at the same quanta.",
        "Needs the audio callback (hook); the tests use the default size only."),
"C10": ("`steps`: suspend, resume, close, sink change, abandoned and overlapping calls as polled futures between generated callbacks. `threads`, `library`: blocking calls from several threads with the callback driven by a thread or by the library.",
        "State machine of the context (states, events, time, what is heard against a twin offline rendering); calls must return.",
        "Tests make single calls in a fixed order with generous sleeps; races and abandoned futures are never exercised."),
"C11": ("Up to a dozen automation calls in any order and at any time, before and while rendering, both rates.",
        "Event timeline evaluated in f64 with an interval for times between frames.",
        "Tests schedule two or three events in order."),
"C12": ("Parameters of narrow and wide ranges with automation and modulation, including NaN and infinite modulation; automation rates switched while rendering.",
        "Timeline value plus captured modulation, limited to the range; the default for NaN.",
        "Tests do not modulate with special values."),
"C13": ("As C11 plus cancel_scheduled_values, cancel_and_hold_at_time and value changes, before and during rendering.",
        "The same timeline model extended by cancelling; nothing before the cancel time changes.",
        "Interactions of cancelling with curves, targets and holds are tested in few places."),
"C14": ("All scheduled sources with start and stop times on, near and between frames, repeated stop calls, late starts.",
        "Interval arithmetic on frame times; exact count and time of ended events.",
        "Tests use a few well-aligned times."),
"C15": ("Buffers of any rate and length with offset, duration, loop points, negative and automated rates, loop changes while playing.",
        "Playback algorithm of the specification in f64 with tolerance at boundaries.",
        "Combinations of loops, negative rates and resampling are not tested."),
"C16": ("All built-in waveforms under automated frequency and detune, also beyond the Nyquist frequency and negative, start between frames; long runs.",
        "Phase integral in f64, waveform formulas.",
        "Tests disable band limiting and use constant frequencies."),
"C17": ("Cosine and sine terms up to 80, normalised or not, replaced while playing; unacceptable lists.",
        "Fourier series in f64.",
        "Tests use a handful of terms."),
"C18": ("Delays from zero to the maximum, automated, layouts changing, handles dropped.",
        "Delay line in f64 with linear interpolation and mixing rules.",
        "Tests use constant delays and one or two layouts."),
"C19": ("All types with automated frequency, detune, Q and gain, type changes, inputs whose number of channels changes, tails.",
        "Difference equation in f64 with the published coefficients; frequency response.",
        "Tests compare a few stored responses."),
"C20": ("Coefficients of order 1-20, not normalised, stable and unstable, echoes; inputs whose number of channels changes; invalid lists.",
        "Difference equation in f64; response as quotient of polynomials.",
        "Tests cover low orders."),
"C21": ("Responses of 1, 2 and 4 channels and up to several partitions, normalised or not, replaced while playing; tails.",
        "Direct convolution in f64.",
        "Tests use short responses and impulses."),
"C22": ("Curves of 0 to many points, set while rendering; oversampling with smooth signals.",
        "Piecewise linear curve in f64; for oversampling at the latency of the resamplers.",
        "Oversampled output is not compared with anything in the tests."),
"C23": ("Mono and stereo signals with constant and automated pan at both rates.", "Panning formula in f64.", "Tests use three positions."),
"C24": ("Moving sources and listeners, all distance and cone models, degenerate geometry; HRTF tails.",
        "Geometry in f64 with an interval for rounding of angles.",
        "Tests use positions on the axes."),
"C25": ("Signals of several channels with all parameters automated.", "Gain curve, detector and look-ahead in f64.", "Tests check defaults."),
"C26": ("Queries of waveform and spectrum at any moment, with changing FFT sizes, smoothing, decibel ranges and array lengths.", "Windowed DFT and smoothing in f64, last frames.", "Tests use one query."),
"C27": ("Signals of 1-32 channels through splitters and mergers with any wiring.", "Channel routing, exact.", "Tests use up to 4 ports."),
"C28": ("Programs with moderate and extreme accepted settings.", "No panic on any thread, finite samples.", "Fuzzing of the whole render path; tests are examples."),
"C29": ("Programs executed later; linear programs with scaled and split sources.", "Metamorphic: shift, power-of-two scaling, additivity.", "No test relates two renderings."),
"C30": ("Histories of buffer operations while nodes and renderings share the data; constructor arguments.", "Vectors kept by the test.", "Copy-on-write sharing is not tested."),
"C31": ("WAV and AIFF files of all sample formats written by the test, read in pieces; failing readers; edited files and random bytes; repository samples.", "The written samples; error or prefix; no panic.", "Tests decode some intact files."),
"C32": ("Calls of the public functions with arguments at, near and beyond their limits, before and while rendering.", "Documented domain; getters; rendering without the rejected calls.", "Tests check one wrong argument per function and not what it leaves behind."),
"C33": ("Programs with custom processors that fail in the constructor, at any call or message, with one to four outputs.", "Metamorphic: silent from then on; one error event; no further calls.", "Unit tests rethrow such failures, so that the containment itself is hardly tested."),
"C34": ("Handlers installed, replaced and cleared before and during rendering, also from handlers; ids recycled.", "Model of all handler calls.", "Tests install one handler."),
"C35": ("Worklet nodes of all shapes with plans of writing, returning and posting.", "The processor's diary against the program.", "Tests have one input and output."),
"C36": ("Tracks of chunks of any length and rate, errors, closing; tracks shared by several consumers; streams of destinations.", "Concatenation of the interpolated chunks; recording of the same input.", "Tests use equal chunks."),
"C37": ("Streams that end, fail or are stopped, with handlers changed.", "WAV parser of the test; lossless.", "Tests record one fixed stream."),
"C38": ("All channel counts and buffer sizes, handlers changed while rendering.", "Recording of the input, block arithmetic.", "Tests use one buffer size."),
"C39": ("2-6 threads create, connect, automate, start and drop nodes at the same time, before rendering, in suspensions and on a running context.", "One thread after the other: same audio, events and node count.", "No test builds a graph from several threads."),
"C40": ("Recorded callback durations, latencies, resets and waiting times.", "Sums kept by the test; rounding as specified.", "Tests look at two or three records."),
"C41": ("Moving sources and listeners, all distance and cone models, degenerate geometry, mono and stereo noise and tones that start and end.", "Direct convolution in f64 with the hrtf crate's response for the direction of each quantum, which the test computes; power at both ears for sources to the left and right.", "Tests look for non-zero samples."),
}
