From 6d3d3883ff9ba5c4177d96c8b3e67bef451a0210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:16:31 +0000
Subject: [PATCH 01/88] fix: keep all channels when mixing layouts with
 identical channel data

The summing junction of an audio node input treats a signal as an upmixed
mono signal when all its channels share the same data. This is only valid
for mono and stereo. A source merged into three or more channels lost all
but one channel, and an upmixed stereo signal moved to the center channel
of a 5.1 layout.
---
 src/render/quantum.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/render/quantum.rs b/src/render/quantum.rs
index 2b25c5a..eed8eca 100644
--- a/src/render/quantum.rs
+++ b/src/render/quantum.rs
@@ -546,8 +546,11 @@ impl AudioRenderQuantum {
             ChannelCountMode::ClampedMax => max_channels.min(count),
         };
 
-        // fast path if both buffers are upmixed mono signals
+        // fast path if both buffers are mono signals, or mono signals upmixed to stereo (only for
+        // layouts where upmixing the mono signal is the same as upmixing the stereo signal)
         if interpretation == ChannelInterpretation::Speakers
+            && max_channels <= 2
+            && matches!(new_channels, 1 | 2 | 4)
             && self.all_channels_identical()
             && other.all_channels_identical()
         {
-- 
2.43.0


From 5ce302a7a66d9812496db92e62e890f75a930189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:16:56 +0000
Subject: [PATCH 02/88] fix: do not pile up input of nodes muted in a cycle

Nodes in a cycle without delay node are not rendered, but their inputs
kept accumulating. All that audio was emitted in a single render quantum
when the cycle was broken.
---
 src/render/graph.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/render/graph.rs b/src/render/graph.rs
index 6364f34..642a26e 100644
--- a/src/render/graph.rs
+++ b/src/render/graph.rs
@@ -525,6 +525,8 @@ impl Graph {
                 .iter()
                 // audio params are connected to the 'hidden' usize::MAX output, ignore them here
                 .filter(|edge| edge.other_index != usize::MAX)
+                // nodes that are muted because they are part of a cycle will not consume the input
+                .filter(|edge| !self.in_cycle.contains(&edge.other_id))
                 .for_each(|edge| {
                     let mut output_node = self.nodes.get_unchecked(edge.other_id).borrow_mut();
                     output_node.has_inputs_connected = true;
-- 
2.43.0


From 418570e50635679c3995e231ed9af55aa136eca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:30 +0000
Subject: [PATCH 03/88] fix: mix inputs to the channel count of all their
 connections

The number of channels of an input was determined connection by
connection. With connections of different layouts the result depended on
the render order: a mono signal was upmixed to stereo first and to 5.1
afterwards, so it ended up in the left and right channel instead of the
center channel.
---
 src/render/graph.rs | 43 ++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 40 insertions(+), 3 deletions(-)

diff --git a/src/render/graph.rs b/src/render/graph.rs
index 642a26e..53a4b57 100644
--- a/src/render/graph.rs
+++ b/src/render/graph.rs
@@ -49,6 +49,8 @@ pub struct Node {
     processor: Box<dyn AudioProcessor>,
     /// Reusable input buffers
     inputs: Vec<AudioRenderQuantum>,
+    /// Signals connected to the inputs in the current render quantum, not mixed yet
+    input_signals: Vec<Vec<AudioRenderQuantum>>,
     /// Reusable output buffers, consumed by subsequent Nodes in this graph
     outputs: Vec<AudioRenderQuantum>,
     /// Channel configuration: determines up/down-mixing of inputs
@@ -83,6 +85,37 @@ impl Node {
             .process(&self.inputs[..], &mut self.outputs[..], params, scope)
     }
 
+    /// Mix the connected signals into the input buffers
+    ///
+    /// The computed number of channels depends on all connections to the input, so this can only
+    /// be done when all of them are known.
+    fn mix_inputs(&mut self) {
+        let config = &self.channel_config;
+
+        self.inputs
+            .iter_mut()
+            .zip(self.input_signals.iter_mut())
+            .for_each(|(input, signals)| {
+                let max_channels = signals
+                    .iter()
+                    .map(AudioRenderQuantum::number_of_channels)
+                    .max()
+                    .unwrap_or(1);
+
+                let mut computed_config = config.clone();
+                computed_config.count_mode = ChannelCountMode::Explicit;
+                computed_config.count = match config.count_mode {
+                    ChannelCountMode::Max => max_channels,
+                    ChannelCountMode::Explicit => config.count,
+                    ChannelCountMode::ClampedMax => max_channels.min(config.count),
+                };
+
+                signals
+                    .drain(..)
+                    .for_each(|signal| input.add(&signal, &computed_config));
+            });
+    }
+
     /// Determine if this node is done playing and can be removed from the audio graph
     fn can_free(&self, tail_time: bool) -> bool {
         // Only drop when the Control thread has dropped its handle.
@@ -245,6 +278,7 @@ impl Graph {
         // necessary
         let inputs = vec![AudioRenderQuantum::from(self.alloc.silence()); number_of_inputs];
         let outputs = vec![AudioRenderQuantum::from(self.alloc.silence()); number_of_outputs];
+        let input_signals = vec![vec![]; number_of_inputs];
 
         self.nodes.insert(
             index,
@@ -252,6 +286,7 @@ impl Graph {
                 reclaim_id: Some(reclaim_id),
                 processor,
                 inputs,
+                input_signals,
                 outputs,
                 channel_config,
                 outgoing_edges: smallvec![],
@@ -501,6 +536,9 @@ impl Graph {
             // acquire a mutable borrow of the current processing node
             let mut node = self.nodes.get_unchecked(*index).borrow_mut();
 
+            // mix all signals that are connected to the inputs of this node
+            node.mix_inputs();
+
             // let the current node process (catch any panics that may occur)
             let params = AudioParamValues::from(&self.nodes);
             scope.node_id.set(*index);
@@ -530,10 +568,9 @@ impl Graph {
                 .for_each(|edge| {
                     let mut output_node = self.nodes.get_unchecked(edge.other_id).borrow_mut();
                     output_node.has_inputs_connected = true;
-                    let signal = &node.outputs[edge.self_index];
-                    let channel_config = &output_node.channel_config.clone();
+                    let signal = node.outputs[edge.self_index].clone();
 
-                    output_node.inputs[edge.other_index].add(signal, channel_config);
+                    output_node.input_signals[edge.other_index].push(signal);
                 });
 
             let can_free = !success || node.can_free(tail_time);
-- 
2.43.0


From b8cc142dbfdbbf85b51680737b1720320d88baf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:52 +0000
Subject: [PATCH 04/88] fix: down-mix signals connected to an audio param

---
 src/param.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/param.rs b/src/param.rs
index 296dcb9..85d5aa2 100644
--- a/src/param.rs
+++ b/src/param.rs
@@ -308,7 +308,7 @@ impl AudioNode for AudioParam {
             AudioNodeOptions {
                 channel_count: 1,
                 channel_count_mode: ChannelCountMode::Explicit,
-                channel_interpretation: ChannelInterpretation::Discrete,
+                channel_interpretation: ChannelInterpretation::Speakers,
             }
             .into()
         })
-- 
2.43.0


From fd4cf6252cfeb3429beb059d5f48bbfdf10d8fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:02 +0000
Subject: [PATCH 05/88] fix: ignore connections that are already in place

---
 src/context/concrete_base.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/context/concrete_base.rs b/src/context/concrete_base.rs
index cba7aa9..06dbe59 100644
--- a/src/context/concrete_base.rs
+++ b/src/context/concrete_base.rs
@@ -441,11 +441,15 @@ impl ConcreteBaseAudioContext {
 
     /// Connects the output of the `from` audio node to the input of the `to` audio node
     pub(crate) fn connect(&self, from: AudioNodeId, to: AudioNodeId, output: usize, input: usize) {
-        self.inner
+        let is_new = self
+            .inner
             .connections
             .lock()
             .unwrap()
             .insert((from, output, to, input));
+        if !is_new {
+            return; // connecting twice has no effect
+        }
         let message = ControlMessage::ConnectNode {
             from,
             to,
-- 
2.43.0


From 1705d7ad7c482be255f98acbe2347f073eace47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:38 +0000
Subject: [PATCH 06/88] fix: disconnect from nodes whose handle has been
 dropped

---
 src/context/concrete_base.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/context/concrete_base.rs b/src/context/concrete_base.rs
index 06dbe59..6d7b607 100644
--- a/src/context/concrete_base.rs
+++ b/src/context/concrete_base.rs
@@ -37,11 +37,18 @@ impl AudioNodeIdProvider {
         }
     }
 
+    #[cfg(test)]
     fn get(&self) -> AudioNodeId {
+        self.get_or_recycle().0
+    }
+
+    /// Returns an id and whether it has been used before
+    fn get_or_recycle(&self) -> (AudioNodeId, bool) {
         if let Some(available_id) = self.id_consumer.lock().unwrap().pop() {
-            llq::Node::into_inner(available_id)
+            (llq::Node::into_inner(available_id), true)
         } else {
-            AudioNodeId(self.id_inc.fetch_add(1, Ordering::Relaxed))
+            let id = self.id_inc.fetch_add(1, Ordering::Relaxed);
+            (AudioNodeId(id), false)
         }
     }
 }
@@ -237,7 +244,15 @@ impl ConcreteBaseAudioContext {
         f: F,
     ) -> T {
         // create a unique id for this node
-        let id = self.inner.audio_node_id_provider.get();
+        let (id, recycled) = self.inner.audio_node_id_provider.get_or_recycle();
+        if recycled {
+            // Forget the connections to the decommissioned node
+            self.inner
+                .connections
+                .lock()
+                .unwrap()
+                .retain(|&(_from, _output, to, _input)| to != id);
+        }
         let registration = AudioContextRegistration {
             id,
             context: self.clone(),
@@ -338,12 +353,13 @@ impl ConcreteBaseAudioContext {
         let message = ControlMessage::ControlHandleDropped { id };
         self.send_control_msg(message);
 
-        // Clear the connection administration for this node, the node id may be recycled later
+        // Clear the connection administration for this node, the node id may be recycled later.
+        // Connections to this node stay in place and can still be removed by their source node.
         self.inner
             .connections
             .lock()
             .unwrap()
-            .retain(|&(from, _output, to, _input)| from != id && to != id);
+            .retain(|&(from, _output, _to, _input)| from != id);
     }
 
     /// Inform render thread that this node can act as a cycle breaker
-- 
2.43.0


From 2838972e7a772e507831141f82b55620a113e44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:51 +0000
Subject: [PATCH 07/88] fix: forget connections of a dropped node before its id
 can be recycled

---
 src/context/concrete_base.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/context/concrete_base.rs b/src/context/concrete_base.rs
index 6d7b607..18bfe22 100644
--- a/src/context/concrete_base.rs
+++ b/src/context/concrete_base.rs
@@ -349,10 +349,6 @@ impl ConcreteBaseAudioContext {
             return;
         }
 
-        // Inform render thread that the control thread AudioNode no longer has any handles
-        let message = ControlMessage::ControlHandleDropped { id };
-        self.send_control_msg(message);
-
         // Clear the connection administration for this node, the node id may be recycled later.
         // Connections to this node stay in place and can still be removed by their source node.
         self.inner
@@ -360,6 +356,10 @@ impl ConcreteBaseAudioContext {
             .lock()
             .unwrap()
             .retain(|&(from, _output, _to, _input)| from != id);
+
+        // Inform render thread that the control thread AudioNode no longer has any handles
+        let message = ControlMessage::ControlHandleDropped { id };
+        self.send_control_msg(message);
     }
 
     /// Inform render thread that this node can act as a cycle breaker
-- 
2.43.0


From d0c2917b2cbea3cd620b76d34d8b1bc7775bc832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:50:21 +0000
Subject: [PATCH 08/88] fix: mute all nodes of connected cycles without a delay

---
 src/render/graph.rs | 43 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/src/render/graph.rs b/src/render/graph.rs
index 53a4b57..412bb88 100644
--- a/src/render/graph.rs
+++ b/src/render/graph.rs
@@ -436,6 +436,37 @@ impl Graph {
         false
     }
 
+    /// Helper function for `order_nodes` - check if there is a path from a node to itself that does
+    /// not pass through a cycle breaker
+    fn reaches_itself(
+        &self,
+        node_id: AudioNodeId,
+        marked: &mut Vec<AudioNodeId>,
+        todo: &mut Vec<AudioNodeId>,
+    ) -> bool {
+        marked.clear();
+        todo.clear();
+        todo.push(node_id);
+
+        while let Some(id) = todo.pop() {
+            let node = self.nodes.get_unchecked(id).borrow();
+            if node.cycle_breaker {
+                continue; // a path through a delay is not a problem
+            }
+            for edge in node.outgoing_edges.iter() {
+                if edge.other_id == node_id {
+                    return true;
+                }
+                if !marked.contains(&edge.other_id) {
+                    marked.push(edge.other_id);
+                    todo.push(edge.other_id);
+                }
+            }
+        }
+
+        false
+    }
+
     /// Determine the order of the audio nodes for rendering
     ///
     /// By inspecting the audio node connections, we can determine which nodes should render before
@@ -505,6 +536,18 @@ impl Graph {
             break;
         }
 
+        // The depth first traversal finds at least one node of every cycle, but nodes that were
+        // already visited can be part of another cycle too
+        if !in_cycle.is_empty() {
+            for &node_id in ordered.iter() {
+                if !in_cycle.contains(&node_id)
+                    && self.reaches_itself(node_id, &mut marked, &mut marked_temp)
+                {
+                    in_cycle.push(node_id);
+                }
+            }
+        }
+
         // Remove nodes from the ordering if they are part of a cycle. The spec mandates that their
         // outputs should be silenced, but with our rendering algorithm that is not necessary.
         // `retain` leaves the ordering in place
-- 
2.43.0


From 214f8eca181154a093740f1961a09ddb72a2d1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:26 +0000
Subject: [PATCH 09/88] fix: keep a biquad frequency of zero at zero for any
 detune

---
 src/node/biquad_filter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/node/biquad_filter.rs b/src/node/biquad_filter.rs
index 5e92d80..8e0b3cf 100644
--- a/src/node/biquad_filter.rs
+++ b/src/node/biquad_filter.rs
@@ -365,7 +365,8 @@ fn calculate_coefs(
 
 // frequency is clamped between 0 and nyquist later in the algorithm
 fn get_computed_freq(freq: f32, detune: f32) -> f32 {
-    if detune != 0. {
+    // an extreme detune factor may overflow, zero times that is still zero
+    if detune != 0. && freq != 0. {
         freq * (detune / 1200.).exp2()
     } else {
         freq
-- 
2.43.0


From facc04c61447af52510d70f21685a1c7f35ad566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:26 +0000
Subject: [PATCH 10/88] fix: accept an empty wave shaper curve on the render
 side

---
 src/node/waveshaper.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/node/waveshaper.rs b/src/node/waveshaper.rs
index 92c1a13..572e2a3 100644
--- a/src/node/waveshaper.rs
+++ b/src/node/waveshaper.rs
@@ -497,7 +497,10 @@ impl AudioProcessor for WaveShaperRenderer {
 
             // We can propagate silent input only if the center of the curve is zero
             self.can_propagate_silence = if let Some(curve) = &self.curve {
-                if curve.len() % 2 == 1 {
+                if curve.is_empty() {
+                    // an empty curve maps everything to zero
+                    true
+                } else if curve.len() % 2 == 1 {
                     curve[curve.len() / 2].abs() < 1e-9
                 } else {
                     let a = curve[curve.len() / 2 - 1];
-- 
2.43.0


From a3efc5303bc1960f26f5f4c917a8a6393906d853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:45 +0000
Subject: [PATCH 11/88] fix: do not repeat old audio of a delay whose handle
 has been dropped

---
 src/node/delay.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/node/delay.rs b/src/node/delay.rs
index 1697f7b..d62af06 100644
--- a/src/node/delay.rs
+++ b/src/node/delay.rs
@@ -349,6 +349,7 @@ impl DelayNode {
             let writer_render = DelayWriter {
                 ring_buffer: shared_ring_buffer,
                 index: 0,
+                silent_quanta: usize::MAX,
                 last_written_index,
                 latest_frame_written,
             };
@@ -376,6 +377,8 @@ impl DelayNode {
 struct DelayWriter {
     ring_buffer: Rc<RefCell<Vec<AudioRenderQuantum>>>,
     index: usize,
+    // number of silent quanta written since the last one with signal
+    silent_quanta: usize,
     latest_frame_written: Rc<Cell<u64>>,
     last_written_index: Rc<Cell<Option<usize>>>,
 }
@@ -444,6 +447,12 @@ impl AudioProcessor for DelayWriter {
         // side as Reader do not access the "real" input
         self.check_ring_buffer_up_down_mix(&input);
 
+        if input.is_silent() {
+            self.silent_quanta = self.silent_quanta.saturating_add(1);
+        } else {
+            self.silent_quanta = 0;
+        }
+
         // populate ring buffer
         let mut buffer = self.ring_buffer.borrow_mut();
         buffer[self.index] = input;
@@ -456,8 +465,9 @@ impl AudioProcessor for DelayWriter {
         // clear the buffer so that it can be reused
         output.make_silent();
 
-        // let the node be decommisioned if it has no input left
-        false
+        // let the node be decommisioned if it has no input left, but not before all
+        // signal in the ring buffer is overwritten, so that the reader won't repeat it
+        self.silent_quanta < buffer.capacity()
     }
 
     fn has_side_effects(&self) -> bool {
-- 
2.43.0


From 86d95c1f4fe1aa753c4fed267b91e5dc9d783bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:44 +0000
Subject: [PATCH 12/88] fix: play the tail of both convolver channels after
 stereo input

---
 src/node/convolver.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/node/convolver.rs b/src/node/convolver.rs
index 23d4482..f44b208 100644
--- a/src/node/convolver.rs
+++ b/src/node/convolver.rs
@@ -225,6 +225,7 @@ impl ConvolverNode {
                 impulse_length: 0,
                 impulse_number_of_channels: 0,
                 tail_count: 0,
+                stereo_tail_count: usize::MAX,
             };
 
             let node = Self {
@@ -338,6 +339,8 @@ struct ConvolverRenderer {
     impulse_length: usize,
     impulse_number_of_channels: usize,
     tail_count: usize,
+    /// Number of frames since the last stereo input
+    stereo_tail_count: usize,
 }
 
 impl AudioProcessor for ConvolverRenderer {
@@ -374,8 +377,25 @@ impl AudioProcessor for ConvolverRenderer {
             Some(convolvers) => convolvers,
         };
 
+        let stereo_tail = self.stereo_tail_count < self.impulse_length;
+        if input.number_of_channels() == 2 {
+            self.stereo_tail_count = 0;
+        } else {
+            self.stereo_tail_count = self.stereo_tail_count.saturating_add(RENDER_QUANTUM_SIZE);
+        }
+
         // https://webaudio.github.io/web-audio-api/#Convolution-channel-configurations
         match (input.number_of_channels(), self.impulse_number_of_channels) {
+            (1, 1) if stereo_tail => {
+                // the response to an earlier stereo input is not complete yet
+                output.set_number_of_channels(2);
+
+                let i = &input.channel_data(0)[..];
+                let o_left = &mut output.channel_data_mut(0)[..];
+                let _ = convolvers[0].process(i, o_left);
+                let o_right = &mut output.channel_data_mut(1)[..];
+                let _ = convolvers[1].process(i, o_right);
+            }
             (1, 1) => {
                 output.set_number_of_channels(1);
 
-- 
2.43.0


From ae2ca1dcbc06962a63f5e51288a2380c6921b1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:44 +0000
Subject: [PATCH 13/88] fix: play the tail of an oversampling wave shaper

---
 src/node/waveshaper.rs | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/node/waveshaper.rs b/src/node/waveshaper.rs
index 572e2a3..b841eb9 100644
--- a/src/node/waveshaper.rs
+++ b/src/node/waveshaper.rs
@@ -378,8 +378,14 @@ struct WaveShaperRenderer {
     // check if silence can be propagated, i.e. if curve if None or if
     // it's output value for zero signal is zero (i.e. < 1e-9)
     can_propagate_silence: bool,
+    // number of silent quanta the up/down samplers still have to process to play out
+    // the signal they hold
+    tail_quanta: usize,
 }
 
+// the up and the down sampler each hold back one block of samples
+const OVERSAMPLING_TAIL_QUANTA: usize = 2;
+
 impl AudioProcessor for WaveShaperRenderer {
     fn process(
         &mut self,
@@ -392,13 +398,34 @@ impl AudioProcessor for WaveShaperRenderer {
         let input = &inputs[0];
         let output = &mut outputs[0];
 
-        if input.is_silent() && self.can_propagate_silence {
-            output.make_silent();
-            return false;
+        let in_tail = input.is_silent() && self.tail_quanta > 0;
+
+        if input.is_silent() {
+            if self.can_propagate_silence && !in_tail {
+                output.make_silent();
+                return false;
+            }
+            self.tail_quanta = self.tail_quanta.saturating_sub(1);
+        } else {
+            let oversampled = self.curve.is_some() && self.oversample != OverSampleType::None;
+            self.tail_quanta = if oversampled {
+                OVERSAMPLING_TAIL_QUANTA
+            } else {
+                0
+            };
         }
 
         *output = input.clone();
 
+        if in_tail {
+            // play out the tail with the number of channels of the signal
+            match self.oversample {
+                OverSampleType::X2 => output.set_number_of_channels(self.channels_x2),
+                OverSampleType::X4 => output.set_number_of_channels(self.channels_x4),
+                OverSampleType::None => (),
+            }
+        }
+
         if let Some(curve) = &self.curve {
             match self.oversample {
                 OverSampleType::None => {
@@ -482,8 +509,7 @@ impl AudioProcessor for WaveShaperRenderer {
             }
         }
 
-        // @tbc - rubato::FftFixedInOut doesn't seem to introduce any latency
-        false
+        self.tail_quanta > 0
     }
 
     fn onmessage(&mut self, msg: &mut dyn Any) {
@@ -551,6 +577,7 @@ impl WaveShaperRenderer {
             downsampler_x2,
             downsampler_x4,
             can_propagate_silence: true,
+            tail_quanta: 0,
         }
     }
 }
-- 
2.43.0


From d72908f9348266811d5b3d08d0659b3571095e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:17:22 +0000
Subject: [PATCH 14/88] fix: start ramps scheduled before all other events at
 the current value

A ramp or target event whose time precedes all queued events had no event
to start from, which made the param processor panic.
---
 src/param.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/param.rs b/src/param.rs
index 85d5aa2..7aa31c0 100644
--- a/src/param.rs
+++ b/src/param.rs
@@ -1001,8 +1001,13 @@ impl AudioParamProcessor {
         // with intrinsic value and calling time.
         // cf. https://www.w3.org/TR/webaudio/#dom-audioparam-linearramptovalueattime
         // cf. https://www.w3.org/TR/webaudio/#dom-audioparam-exponentialramptovalueattime
-        if self.event_timeline.is_empty()
-            && self.last_event.is_none()
+        let has_preceding_event = self.last_event.is_some()
+            || self
+                .event_timeline
+                .iter()
+                .any(|queued| queued.time <= event.time);
+
+        if !has_preceding_event
             && (event.event_type == AudioParamEventType::LinearRampToValueAtTime
                 || event.event_type == AudioParamEventType::ExponentialRampToValueAtTime)
         {
@@ -1024,9 +1029,7 @@ impl AudioParamProcessor {
         // for SetTarget, this behavior is not per se specified, but it allows
         // to make sure we have a stable start_value available without having
         // to store it elsewhere.
-        if self.event_timeline.is_empty()
-            && event.event_type == AudioParamEventType::SetTargetAtTime
-        {
+        if !has_preceding_event && event.event_type == AudioParamEventType::SetTargetAtTime {
             let set_value_event = AudioParamEvent {
                 event_type: AudioParamEventType::SetValue,
                 value: self.intrinsic_value,
-- 
2.43.0


From 5ab23efc44ce1c130ee871f32cfb9be84f654ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:17:49 +0000
Subject: [PATCH 15/88] fix: hold the param value until a target or curve event
 has started

When such an event was reached in an earlier block than the one it starts
in, its curve was evaluated for times before its start.
---
 src/param.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/param.rs b/src/param.rs
index 7aa31c0..1bccae4 100644
--- a/src/param.rs
+++ b/src/param.rs
@@ -1281,12 +1281,30 @@ impl AudioParamProcessor {
         false
     }
 
+    // For events where `time` is the start time: if the event does not start
+    // within this block, hold the current value and return `true`
+    fn hold_until_event_start(&mut self, infos: &BlockInfos) -> bool {
+        let not_reached = self.event_timeline.peek().unwrap().time >= infos.next_block_time;
+
+        if not_reached && infos.is_a_rate {
+            for _ in self.buffer.len()..infos.count {
+                self.buffer.push(self.intrinsic_value);
+            }
+        }
+
+        not_reached
+    }
+
     // https://webaudio.github.io/web-audio-api/#dom-audioparam-settargetattime
     // 𝑣(𝑡) = 𝑉1 + (𝑉0 − 𝑉1) * 𝑒^−((𝑡−𝑇0) / 𝜏)
     // Note that as SetTarget never resolves on an end value, a `SetTarget` event
     // is inserted in the timeline when the value is close enough to the target.
     // cf. `SNAP_TO_TARGET`
     fn compute_set_target_automation(&mut self, infos: &BlockInfos) -> bool {
+        if self.hold_until_event_start(infos) {
+            return true;
+        }
+
         let event = self.event_timeline.peek().unwrap();
         let mut end_time = infos.next_block_time;
         let mut ended = false;
@@ -1310,7 +1328,7 @@ impl AudioParamProcessor {
                     // 𝑇0 is the current context time, and 𝑉0 is
                     // the current SetTarget automation value at time 𝑇0.
                     // In both cases, the automation curve is continuous.
-                    end_time = infos.block_time;
+                    end_time = infos.block_time.max(event.time);
                     ended = true;
                 }
                 _ => {
@@ -1429,6 +1447,10 @@ impl AudioParamProcessor {
     }
 
     fn compute_set_value_curve_automation(&mut self, infos: &BlockInfos) -> bool {
+        if self.hold_until_event_start(infos) {
+            return true;
+        }
+
         let event = self.event_timeline.peek().unwrap();
         let start_time = event.time;
         let duration = event.duration.unwrap();
-- 
2.43.0


From 53725abad1ca98596a5b007c0feb4798209a057e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:18:24 +0000
Subject: [PATCH 16/88] fix: never evaluate ramps before their start or with
 zero duration

Ramps starting between two frames could overshoot at the first frame, and
ramps without duration at the end of a block gave NaN.
---
 src/param.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/param.rs b/src/param.rs
index 1bccae4..74a040a 100644
--- a/src/param.rs
+++ b/src/param.rs
@@ -61,6 +61,18 @@ fn assert_sequence_length(values: &[f32]) {
     );
 }
 
+// (𝑡−𝑇0) / (𝑇1−𝑇0)
+// - the sample a ramp starts at may be slightly before its start time
+// - ramps without duration are at their end
+#[inline(always)]
+fn compute_ramp_phase(start_time: f64, duration: f64, time: f64) -> f32 {
+    if duration > 0. {
+        ((time - start_time) / duration).max(0.) as f32
+    } else {
+        1.
+    }
+}
+
 // 𝑣(𝑡) = 𝑉0 + (𝑉1−𝑉0) * ((𝑡−𝑇0) / (𝑇1−𝑇0))
 #[inline(always)]
 fn compute_linear_ramp_sample(
@@ -70,8 +82,8 @@ fn compute_linear_ramp_sample(
     diff: f32, // end_value - start_value
     time: f64,
 ) -> f32 {
-    let phase = (time - start_time) / duration;
-    diff.mul_add(phase as f32, start_value)
+    let phase = compute_ramp_phase(start_time, duration, time);
+    diff.mul_add(phase, start_value)
 }
 
 // v(t) = v1 * (v2/v1)^((t-t1) / (t2-t1))
@@ -83,8 +95,8 @@ fn compute_exponential_ramp_sample(
     ratio: f32, // end_value / start_value
     time: f64,
 ) -> f32 {
-    let phase = (time - start_time) / duration;
-    start_value * ratio.powf(phase as f32)
+    let phase = compute_ramp_phase(start_time, duration, time);
+    start_value * ratio.powf(phase)
 }
 
 // 𝑣(𝑡) = 𝑉1 + (𝑉0 − 𝑉1) * 𝑒^−((𝑡−𝑇0) / 𝜏)
-- 
2.43.0


From dd89b209faa4036fa768fa1ac4aa93c32bb4075b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:20 +0000
Subject: [PATCH 17/88] fix: give control rate params the timeline value at the
 start of each block

Events at the very start of a block were applied one block late for k-rate
params, unless they could be anticipated in the previous block.
---
 src/param.rs | 198 ++++++++++++++++++++++++---------------------------
 1 file changed, 95 insertions(+), 103 deletions(-)

diff --git a/src/param.rs b/src/param.rs
index 74a040a..4ba5abc 100644
--- a/src/param.rs
+++ b/src/param.rs
@@ -676,11 +676,28 @@ impl AudioParam {
 struct BlockInfos {
     block_time: f64,
     dt: f64,
-    count: usize,
+    count: usize, // number of values to compute, 1 for k-rate
     is_a_rate: bool,
     next_block_time: f64,
 }
 
+impl BlockInfos {
+    // index of the first sample in this block that is affected by an event at `time`
+    fn sample_index(&self, time: f64) -> usize {
+        let position = (time - self.block_time).max(0.) / self.dt;
+
+        if self.is_a_rate {
+            // TODO use ceil() or round() when `time` is between two samples?
+            // <https://github.com/orottier/web-audio-api-rs/pull/460>
+            position.round() as usize
+        } else {
+            // k-rate params use the value at the start of the block, allow for
+            // rounding errors of events scheduled at exactly that time
+            (position - 1e-7).ceil() as usize
+        }
+    }
+}
+
 #[derive(Debug)]
 pub(crate) struct AudioParamProcessor {
     default_value: f32, // immutable
@@ -1077,13 +1094,11 @@ impl AudioParamProcessor {
         }
 
         // fill buffer with current intrinsic value until `event.time`
-        if infos.is_a_rate {
-            let end_index = ((time - infos.block_time).max(0.) / infos.dt).round() as usize;
-            let end_index_clipped = end_index.min(infos.count);
+        let end_index = infos.sample_index(time);
+        let end_index_clipped = end_index.min(infos.count);
 
-            for _ in self.buffer.len()..end_index_clipped {
-                self.buffer.push(self.intrinsic_value);
-            }
+        for _ in self.buffer.len()..end_index_clipped {
+            self.buffer.push(self.intrinsic_value);
         }
 
         // event time is not reached within this block, we are done
@@ -1126,27 +1141,22 @@ impl AudioParamProcessor {
         let end_value = event.value;
         let diff = end_value - start_value;
 
-        if infos.is_a_rate {
-            let start_index = self.buffer.len();
-            // TODO use ceil() or round() when `end_time` is between two samples?
-            // <https://github.com/orottier/web-audio-api-rs/pull/460>
-            let end_index = ((end_time - infos.block_time).max(0.) / infos.dt).round() as usize;
-            let end_index_clipped = end_index.min(infos.count);
-
-            // compute "real" value according to `t` then clamp it
-            // cf. Example 7 https://www.w3.org/TR/webaudio/#computation-of-value
-            if end_index_clipped > start_index {
-                let mut time = (start_index as f64).mul_add(infos.dt, infos.block_time);
-
-                let mut value = 0.;
-                for _ in start_index..end_index_clipped {
-                    value =
-                        compute_linear_ramp_sample(start_time, duration, start_value, diff, time);
-                    self.buffer.push(value);
-                    time += infos.dt;
-                }
-                self.intrinsic_value = value;
+        let start_index = self.buffer.len();
+        let end_index = infos.sample_index(end_time);
+        let end_index_clipped = end_index.min(infos.count);
+
+        // compute "real" value according to `t` then clamp it
+        // cf. Example 7 https://www.w3.org/TR/webaudio/#computation-of-value
+        if end_index_clipped > start_index {
+            let mut time = (start_index as f64).mul_add(infos.dt, infos.block_time);
+
+            let mut value = 0.;
+            for _ in start_index..end_index_clipped {
+                value = compute_linear_ramp_sample(start_time, duration, start_value, diff, time);
+                self.buffer.push(value);
+                time += infos.dt;
             }
+            self.intrinsic_value = value;
         }
 
         // Event will continue in next tick:
@@ -1227,32 +1237,23 @@ impl AudioParamProcessor {
             return false;
         }
 
-        if infos.is_a_rate {
-            let start_index = self.buffer.len();
-            // TODO use ceil() or round() when `end_time` is between two samples?
-            // <https://github.com/orottier/web-audio-api-rs/pull/460>
-            let end_index = ((end_time - infos.block_time).max(0.) / infos.dt).round() as usize;
-            let end_index_clipped = end_index.min(infos.count);
-
-            if end_index_clipped > start_index {
-                let mut time = (start_index as f64).mul_add(infos.dt, infos.block_time);
-
-                let mut value = 0.;
-                for _ in start_index..end_index_clipped {
-                    value = compute_exponential_ramp_sample(
-                        start_time,
-                        duration,
-                        start_value,
-                        ratio,
-                        time,
-                    );
+        let start_index = self.buffer.len();
+        let end_index = infos.sample_index(end_time);
+        let end_index_clipped = end_index.min(infos.count);
 
-                    self.buffer.push(value);
+        if end_index_clipped > start_index {
+            let mut time = (start_index as f64).mul_add(infos.dt, infos.block_time);
 
-                    time += infos.dt;
-                }
-                self.intrinsic_value = value;
+            let mut value = 0.;
+            for _ in start_index..end_index_clipped {
+                value =
+                    compute_exponential_ramp_sample(start_time, duration, start_value, ratio, time);
+
+                self.buffer.push(value);
+
+                time += infos.dt;
             }
+            self.intrinsic_value = value;
         }
 
         // Event will continue in next tick:
@@ -1298,7 +1299,7 @@ impl AudioParamProcessor {
     fn hold_until_event_start(&mut self, infos: &BlockInfos) -> bool {
         let not_reached = self.event_timeline.peek().unwrap().time >= infos.next_block_time;
 
-        if not_reached && infos.is_a_rate {
+        if not_reached {
             for _ in self.buffer.len()..infos.count {
                 self.buffer.push(self.intrinsic_value);
             }
@@ -1371,30 +1372,26 @@ impl AudioParamProcessor {
         let diff = start_value - end_value;
         let time_constant = event.time_constant.unwrap();
 
-        if infos.is_a_rate {
-            let start_index = self.buffer.len();
-            // TODO use ceil() or round() when `end_time` is between two samples?
-            // <https://github.com/orottier/web-audio-api-rs/pull/460>
-            let end_index = ((end_time - infos.block_time).max(0.) / infos.dt).round() as usize;
-            let end_index_clipped = end_index.min(infos.count);
+        let start_index = self.buffer.len();
+        let end_index = infos.sample_index(end_time);
+        let end_index_clipped = end_index.min(infos.count);
 
-            if end_index_clipped > start_index {
-                let mut time = (start_index as f64).mul_add(infos.dt, infos.block_time);
+        if end_index_clipped > start_index {
+            let mut time = (start_index as f64).mul_add(infos.dt, infos.block_time);
 
-                let mut value = 0.;
-                for _ in start_index..end_index_clipped {
-                    // check if we have reached start_time
-                    value = if time - start_time < 0. {
-                        self.intrinsic_value
-                    } else {
-                        compute_set_target_sample(start_time, time_constant, end_value, diff, time)
-                    };
+            let mut value = 0.;
+            for _ in start_index..end_index_clipped {
+                // check if we have reached start_time
+                value = if time - start_time < 0. {
+                    self.intrinsic_value
+                } else {
+                    compute_set_target_sample(start_time, time_constant, end_value, diff, time)
+                };
 
-                    self.buffer.push(value);
-                    time += infos.dt;
-                }
-                self.intrinsic_value = value;
+                self.buffer.push(value);
+                time += infos.dt;
             }
+            self.intrinsic_value = value;
         }
 
         if !ended {
@@ -1476,31 +1473,27 @@ impl AudioParamProcessor {
             end_time = cancel_time;
         }
 
-        if infos.is_a_rate {
-            let start_index = self.buffer.len();
-            // TODO use ceil() or round() when `end_time` is between two samples?
-            // <https://github.com/orottier/web-audio-api-rs/pull/460>
-            let end_index = ((end_time - infos.block_time).max(0.) / infos.dt).round() as usize;
-            let end_index_clipped = end_index.min(infos.count);
+        let start_index = self.buffer.len();
+        let end_index = infos.sample_index(end_time);
+        let end_index_clipped = end_index.min(infos.count);
 
-            if end_index_clipped > start_index {
-                let mut time = (start_index as f64).mul_add(infos.dt, infos.block_time);
+        if end_index_clipped > start_index {
+            let mut time = (start_index as f64).mul_add(infos.dt, infos.block_time);
 
-                let mut value = 0.;
-                for _ in start_index..end_index_clipped {
-                    // check if we have reached start_time
-                    value = if time < start_time {
-                        self.intrinsic_value
-                    } else {
-                        compute_set_value_curve_sample(start_time, duration, values, time)
-                    };
+            let mut value = 0.;
+            for _ in start_index..end_index_clipped {
+                // check if we have reached start_time
+                value = if time < start_time {
+                    self.intrinsic_value
+                } else {
+                    compute_set_value_curve_sample(start_time, duration, values, time)
+                };
 
-                    self.buffer.push(value);
+                self.buffer.push(value);
 
-                    time += infos.dt;
-                }
-                self.intrinsic_value = value;
+                time += infos.dt;
             }
+            self.intrinsic_value = value;
         }
 
         // event will continue in next tick
@@ -1577,14 +1570,15 @@ impl AudioParamProcessor {
             }
         };
 
-        if !is_a_rate || is_constant_block {
-            self.buffer.push(self.intrinsic_value);
+        if is_constant_block {
             // nothing to compute in timeline, for both k-rate and a-rate
-            if is_constant_block {
-                return;
-            }
+            self.buffer.push(self.intrinsic_value);
+            return;
         }
 
+        // k-rate params only need the value at the first frame of the block
+        let count = if is_a_rate { count } else { 1 };
+
         // pack block infos for automation methods
         let block_infos = BlockInfos {
             block_time,
@@ -1599,13 +1593,11 @@ impl AudioParamProcessor {
 
             let exit_loop = match next_event_type {
                 None => {
-                    if is_a_rate {
-                        // we use `count` rather then `buffer.remaining_capacity`
-                        // to correctly handle unit tests where `count` is lower than
-                        // RENDER_QUANTUM_SIZE
-                        for _ in self.buffer.len()..count {
-                            self.buffer.push(self.intrinsic_value);
-                        }
+                    // we use `count` rather then `buffer.remaining_capacity`
+                    // to correctly handle unit tests where `count` is lower than
+                    // RENDER_QUANTUM_SIZE
+                    for _ in self.buffer.len()..count {
+                        self.buffer.push(self.intrinsic_value);
                     }
                     true
                 }
-- 
2.43.0


From 51b0e517dd8a0e23659eefdf39fb5498747c6584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:21:01 +0000
Subject: [PATCH 18/88] fix: stay within the values of a param curve at its
 very end

Rounding could give the position past the last value, which made the param
processor panic.
---
 src/param.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/param.rs b/src/param.rs
index 4ba5abc..ea6aabe 100644
--- a/src/param.rs
+++ b/src/param.rs
@@ -126,8 +126,9 @@ fn compute_set_value_curve_sample(
     }
 
     let position = (values.len() - 1) as f64 * (time - start_time) / duration;
-    let k = position as usize;
-    let phase = (position - position.floor()) as f32;
+    // `position` may be rounded to the very last index
+    let k = (position as usize).min(values.len() - 2);
+    let phase = (position - k as f64) as f32;
     (values[k + 1] - values[k]).mul_add(phase, values[k])
 }
 
-- 
2.43.0


From 94b58ebdec035edb6a3132b37f8334230779acaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:00 +0000
Subject: [PATCH 19/88] fix: keep ramps and targets that are held in time order
 with later events

After cancel_and_hold_at_time, ramps were still sorted and cancelled by their
original end time, targets were not held when followed by another event and
curves still blocked the time after their end.
---
 src/param.rs | 92 ++++++++++++++++++++++++++++++++--------------------
 1 file changed, 57 insertions(+), 35 deletions(-)

diff --git a/src/param.rs b/src/param.rs
index ea6aabe..14772e0 100644
--- a/src/param.rs
+++ b/src/param.rs
@@ -184,6 +184,25 @@ pub(crate) struct AudioParamEvent {
     values: Option<Box<[f32]>>, // populated by `SetValueCurveAtTime` events
 }
 
+impl AudioParamEvent {
+    // position of the event in the timeline, ramps are cut short by `CancelAndHoldAtTime`
+    fn position(&self) -> f64 {
+        match self.event_type {
+            AudioParamEventType::LinearRampToValueAtTime
+            | AudioParamEventType::ExponentialRampToValueAtTime => {
+                self.cancel_time.unwrap_or(self.time)
+            }
+            _ => self.time,
+        }
+    }
+
+    // end of a `SetValueCurveAtTime` event
+    fn curve_end(&self) -> f64 {
+        self.cancel_time
+            .unwrap_or(self.time + self.duration.unwrap_or(0.))
+    }
+}
+
 // Event queue that contains `AudioParamEvent`s, most of the time, events must be
 // ordered (using stable sort), some operation may break this ordering (e.g. `push`)
 // in which cases `sort` must be called explicitly.
@@ -263,7 +282,7 @@ impl AudioParamEventTimeline {
 
     fn sort(&mut self) {
         self.inner
-            .sort_by(|a, b| a.time.partial_cmp(&b.time).unwrap());
+            .sort_by(|a, b| a.position().partial_cmp(&b.position()).unwrap());
         self.dirty = false;
     }
 
@@ -880,7 +899,7 @@ impl AudioParamProcessor {
                             // inserted implicitly), so if the ramp is the next
                             // event that means that at least one event has
                             // already been processed.
-                            if current_event.time >= event.time => {
+                            if current_event.position() >= event.time => {
                                 let last_event = self.last_event.as_ref().unwrap();
                                 self.intrinsic_value = last_event.value;
                             }
@@ -892,7 +911,15 @@ impl AudioParamProcessor {
             // remove all events in queue where event.time >= cancel_time
             // i.e. keep all events where event.time < cancel_time
             self.event_timeline
-                .retain(|queued| queued.time < event.time);
+                .retain(|queued| queued.position() < event.time);
+
+            // [spec] Any hold values scheduled by `cancelAndHoldAtTime()` are also
+            // removed if the hold time occurs after `cancelTime`
+            for queued in self.event_timeline.iter_mut() {
+                if queued.cancel_time.is_some_and(|time| time >= event.time) {
+                    queued.cancel_time = None;
+                }
+            }
             return; // cancel_values events are not inserted in queue
         }
 
@@ -911,36 +938,39 @@ impl AudioParamProcessor {
             for queued in self.event_timeline.iter_mut() {
                 // closest before cancel time: if several events at same time,
                 // we want the last one
-                if queued.time >= t1 && queued.time <= event.time {
-                    t1 = queued.time;
+                let position = queued.position();
+                if position >= t1 && position <= event.time {
+                    t1 = position;
                     e1 = Some(queued);
                     // closest after cancel time: if several events at same time,
                     // we want the first one
-                } else if queued.time < t2 && queued.time > event.time {
-                    t2 = queued.time;
+                } else if position < t2 && position > event.time {
+                    t2 = position;
                     e2 = Some(queued);
                 }
             }
 
-            // If 𝐸2 exists:
-            if let Some(matched) = e2 {
-                // If 𝐸2 is a linear or exponential ramp,
+            // If 𝐸2 exists and is a linear or exponential ramp:
+            let e2_ramp = e2.filter(|matched| {
+                matched.event_type == AudioParamEventType::LinearRampToValueAtTime
+                    || matched.event_type == AudioParamEventType::ExponentialRampToValueAtTime
+            });
+
+            if let Some(matched) = e2_ramp {
                 // Effectively rewrite 𝐸2 to be the same kind of ramp ending
                 // at time 𝑡𝑐 with an end value that would be the value of the
                 // original ramp at time 𝑡𝑐.
                 // @note - this is done during the actual computation of the
                 //  ramp using the cancel_time
-                if matched.event_type == AudioParamEventType::LinearRampToValueAtTime
-                    || matched.event_type == AudioParamEventType::ExponentialRampToValueAtTime
-                {
-                    matched.cancel_time = Some(event.time);
-                }
+                matched.cancel_time = Some(event.time);
             } else if let Some(matched) = e1 {
                 if matched.event_type == AudioParamEventType::SetTargetAtTime {
                     // Implicitly insert a setValueAtTime event at time 𝑡𝑐 with
                     // the value that the setTarget would
                     // @note - same strategy as for ramps
-                    matched.cancel_time = Some(event.time);
+                    if matched.cancel_time.is_none_or(|time| event.time < time) {
+                        matched.cancel_time = Some(event.time);
+                    }
                 } else if matched.event_type == AudioParamEventType::SetValueCurveAtTime {
                     // If 𝐸1 is a setValueCurve with a start time of 𝑡3 and a duration of 𝑑
                     // If 𝑡𝑐 <= 𝑡3 + 𝑑 :
@@ -951,25 +981,15 @@ impl AudioParamProcessor {
                     // one computed using a different duration. (That would cause
                     // sampling of the value curve in a slightly different way,
                     // producing different results.)
-                    let start_time = matched.time;
-                    let duration = matched.duration.unwrap();
-
-                    if event.time <= start_time + duration {
+                    if event.time <= matched.curve_end() {
                         matched.cancel_time = Some(event.time);
                     }
                 }
             }
 
             // [spec] Remove all events with time greater than 𝑡𝑐.
-            self.event_timeline.retain(|queued| {
-                let mut time = queued.time;
-                // if the event has a `cancel_time` we use it instead of `time`
-                if let Some(cancel_time) = queued.cancel_time {
-                    time = cancel_time;
-                }
-
-                time <= event.time
-            });
+            self.event_timeline
+                .retain(|queued| queued.position() <= event.time);
             return; // cancel_and_hold events are not inserted timeline
         }
 
@@ -990,7 +1010,7 @@ impl AudioParamProcessor {
 
             for queued in self.event_timeline.iter() {
                 assert!(
-                    queued.time <= start_time || queued.time >= end_time,
+                    queued.position() <= start_time || queued.position() >= end_time,
                     "NotSupportedError - scheduling SetValueCurveAtTime ({:?}) at time of another automation event ({:?})",
                     event, queued,
                 );
@@ -1010,7 +1030,7 @@ impl AudioParamProcessor {
             for queued in self.event_timeline.iter() {
                 if queued.event_type == AudioParamEventType::SetValueCurveAtTime {
                     let start_time = queued.time;
-                    let end_time = start_time + queued.duration.unwrap();
+                    let end_time = queued.curve_end();
 
                     assert!(
                         event.time <= start_time || event.time >= end_time,
@@ -1035,7 +1055,7 @@ impl AudioParamProcessor {
             || self
                 .event_timeline
                 .iter()
-                .any(|queued| queued.time <= event.time);
+                .any(|queued| queued.position() <= event.time);
 
         if !has_preceding_event
             && (event.event_type == AudioParamEventType::LinearRampToValueAtTime
@@ -1329,7 +1349,9 @@ impl AudioParamProcessor {
         if let Some(next_event) = some_next_event {
             match next_event.event_type {
                 AudioParamEventType::LinearRampToValueAtTime
-                | AudioParamEventType::ExponentialRampToValueAtTime => {
+                | AudioParamEventType::ExponentialRampToValueAtTime
+                    if event.cancel_time.is_none() =>
+                {
                     // [spec] If the preceding event is a SetTarget
                     // event, 𝑇0 and 𝑉0 are chosen from the current
                     // time and value of SetTarget automation. That
@@ -1348,8 +1370,8 @@ impl AudioParamProcessor {
                 _ => {
                     // For all other events, the SetTarget
                     // event ends at the time of the next event.
-                    if next_event.time < infos.next_block_time {
-                        end_time = next_event.time;
+                    if next_event.position() < infos.next_block_time {
+                        end_time = next_event.position();
                         ended = true;
                     }
                 }
-- 
2.43.0


From 55423eb9e0696c5bdfba49ce55bc86eca967039b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:58 +0000
Subject: [PATCH 20/88] fix: hold the start value of a cancelled ramp across
 zero

Cancelling and holding an exponential ramp that cannot be computed jumped to
its end value.
---
 src/param.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/param.rs b/src/param.rs
index 14772e0..6aa4b71 100644
--- a/src/param.rs
+++ b/src/param.rs
@@ -1247,7 +1247,12 @@ impl AudioParamProcessor {
             let event = AudioParamEvent {
                 event_type: AudioParamEventType::SetValueAtTime,
                 time: end_time,
-                value: end_value,
+                // the start value is held when the event has been cancelled
+                value: if event.cancel_time.is_some() {
+                    start_value
+                } else {
+                    end_value
+                },
                 time_constant: None,
                 cancel_time: None,
                 duration: None,
-- 
2.43.0


From 2a0a09aba813d789f8a961d5dabfd6c8a5f9e8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:11 +0000
Subject: [PATCH 21/88] fix: remove param curves that are cancelled half way

Curves that had started before the cancel time went on playing.
---
 src/param.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/param.rs b/src/param.rs
index 6aa4b71..febebd0 100644
--- a/src/param.rs
+++ b/src/param.rs
@@ -903,6 +903,14 @@ impl AudioParamProcessor {
                                 let last_event = self.last_event.as_ref().unwrap();
                                 self.intrinsic_value = last_event.value;
                             }
+                        // we are possibly in the middle of a curve
+                        AudioParamEventType::SetValueCurveAtTime
+                            if current_event.curve_end() >= event.time => {
+                                self.intrinsic_value = match &self.last_event {
+                                    Some(last_event) => last_event.value,
+                                    None => self.default_value,
+                                };
+                            }
                         _ => (),
                     }
                 }
@@ -910,8 +918,13 @@ impl AudioParamProcessor {
 
             // remove all events in queue where event.time >= cancel_time
             // i.e. keep all events where event.time < cancel_time
-            self.event_timeline
-                .retain(|queued| queued.position() < event.time);
+            // [spec] For a `setValueCurveAtTime()`, the event is also removed if
+            // `cancelTime` is in the range [𝑇0, 𝑇0+𝑇𝐷]
+            self.event_timeline.retain(|queued| {
+                queued.position() < event.time
+                    && (queued.event_type != AudioParamEventType::SetValueCurveAtTime
+                        || queued.curve_end() < event.time)
+            });
 
             // [spec] Any hold values scheduled by `cancelAndHoldAtTime()` are also
             // removed if the hold time occurs after `cancelTime`
-- 
2.43.0


From 3cbf071ff59075960d8d665914ce34cd5c0c20ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:16 +0000
Subject: [PATCH 22/88] fix: keep ramps across zero and ramps after a held
 curve intact

Ramps that hold their start value were turned into a value change for good,
even if their start value was set afterwards. A hold inside of a curve must
cut the curve, not the ramp that follows it.
---
 src/param.rs | 36 ++++++++++++------------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/src/param.rs b/src/param.rs
index febebd0..05fef8a 100644
--- a/src/param.rs
+++ b/src/param.rs
@@ -247,7 +247,7 @@ impl AudioParamEventTimeline {
         self.inner.retain(func);
     }
 
-    // Only used to handle special cases in `ExponentialRampToValueAtTime`:
+    // Only used to handle special cases in `SetTargetAtTime`:
     // as the replaced item has the same time, order is preserved.
     // If the method turned out to be used elsewhere, this could maybe
     // become wrong, be careful here.
@@ -964,7 +964,12 @@ impl AudioParamProcessor {
             }
 
             // If 𝐸2 exists and is a linear or exponential ramp:
-            let e2_ramp = e2.filter(|matched| {
+            // (unless 𝐸1 is a curve that is still active, then 𝐸2 has not started)
+            let in_curve = e1.as_ref().is_some_and(|matched| {
+                matched.event_type == AudioParamEventType::SetValueCurveAtTime
+                    && event.time <= matched.curve_end()
+            });
+            let e2_ramp = e2.filter(|_| !in_curve).filter(|matched| {
                 matched.event_type == AudioParamEventType::LinearRampToValueAtTime
                     || matched.event_type == AudioParamEventType::ExponentialRampToValueAtTime
             });
@@ -1247,34 +1252,17 @@ impl AudioParamProcessor {
 
         let start_value = last_event.value;
         let end_value = event.value;
-        let ratio = end_value / start_value;
-
         // Handle edge cases:
         // > If 𝑉0 and 𝑉1 have opposite signs or if 𝑉0 is zero,
         // > then 𝑣(𝑡)=𝑉0 for 𝑇0≤𝑡<𝑇1.
         // as:
         // > If there are no more events after this ExponentialRampToValue
         // > event then for 𝑡≥𝑇1, 𝑣(𝑡)=𝑉1.
-        // this should thus behave as a SetValue
-        if start_value == 0. || start_value * end_value < 0. {
-            let event = AudioParamEvent {
-                event_type: AudioParamEventType::SetValueAtTime,
-                time: end_time,
-                // the start value is held when the event has been cancelled
-                value: if event.cancel_time.is_some() {
-                    start_value
-                } else {
-                    end_value
-                },
-                time_constant: None,
-                cancel_time: None,
-                duration: None,
-                values: None,
-            };
-
-            self.event_timeline.replace_peek(event);
-            return false;
-        }
+        let ratio = if start_value == 0. || start_value * end_value < 0. {
+            1.
+        } else {
+            end_value / start_value
+        };
 
         let start_index = self.buffer.len();
         let end_index = infos.sample_index(end_time);
-- 
2.43.0


From 12176c3dbfde573390c185beced67806b4bcbfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:21 +0000
Subject: [PATCH 23/88] fix: apply immediate param values after earlier events

Setting the value lost against events scheduled for the present time, and
did not end a target automation.
---
 src/param.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/param.rs b/src/param.rs
index 05fef8a..efd1e41 100644
--- a/src/param.rs
+++ b/src/param.rs
@@ -728,6 +728,7 @@ pub(crate) struct AudioParamProcessor {
     current_value: Arc<AtomicF32>,
     event_timeline: AudioParamEventTimeline,
     last_event: Option<AudioParamEvent>,
+    next_block_time: f64, // start of the next block to be computed
     buffer: ArrayVec<f32, RENDER_QUANTUM_SIZE>,
 }
 
@@ -845,7 +846,7 @@ impl AudioParamProcessor {
         }
     }
 
-    fn handle_incoming_event(&mut self, event: AudioParamEvent) {
+    fn handle_incoming_event(&mut self, mut event: AudioParamEvent) {
         // cf. https://www.w3.org/TR/webaudio/#computation-of-value
         // 1. paramIntrinsicValue will be calculated at each time, which is either the
         // value set directly to the value attribute, or, if there are any automation
@@ -1060,7 +1061,20 @@ impl AudioParamProcessor {
         }
 
         // handle SetValue - param intrinsic value must be updated from event value
+        // the event happens at the start of the next block, i.e. after all events
+        // before and at that time (it has no effect during `SetValueCurveAtTime`)
         if event.event_type == AudioParamEventType::SetValue {
+            let time = self.next_block_time;
+            let in_curve = self.event_timeline.iter().any(|queued| {
+                queued.event_type == AudioParamEventType::SetValueCurveAtTime
+                    && queued.time < time
+                    && time < queued.curve_end()
+            });
+            if in_curve {
+                return;
+            }
+
+            event.time = time;
             self.intrinsic_value = event.value;
         }
 
@@ -1573,6 +1587,7 @@ impl AudioParamProcessor {
 
         let is_a_rate = self.automation_rate.is_a_rate();
         let next_block_time = dt.mul_add(count as f64, block_time);
+        self.next_block_time = next_block_time;
 
         // Check if we can safely return a buffer of length 1 even for a-rate params.
         // Several cases allow us to do so:
@@ -1705,6 +1720,7 @@ pub(crate) fn audio_param_pair(
         automation_rate,
         event_timeline: AudioParamEventTimeline::new(),
         last_event: None,
+        next_block_time: 0.,
         buffer: ArrayVec::new(),
     };
 
-- 
2.43.0


From f3734d1334dae9776d4b43269880674154b023d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:28:46 +0000
Subject: [PATCH 24/88] fix: start the first target event of a param at the
 value of that time

The value at the time of the call was remembered as an event, which was then
taken for the start of ramps.
---
 src/param.rs | 38 +++++++++++++++-----------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/src/param.rs b/src/param.rs
index efd1e41..be091ee 100644
--- a/src/param.rs
+++ b/src/param.rs
@@ -1108,25 +1108,6 @@ impl AudioParamProcessor {
             self.event_timeline.push(set_value_event);
         }
 
-        // for SetTarget, this behavior is not per se specified, but it allows
-        // to make sure we have a stable start_value available without having
-        // to store it elsewhere.
-        if !has_preceding_event && event.event_type == AudioParamEventType::SetTargetAtTime {
-            let set_value_event = AudioParamEvent {
-                event_type: AudioParamEventType::SetValue,
-                value: self.intrinsic_value,
-                // make sure the event is applied before any other event, time
-                // will be replaced by the block timestamp during event processing
-                time: 0.,
-                time_constant: None,
-                cancel_time: None,
-                duration: None,
-                values: None,
-            };
-
-            self.event_timeline.push(set_value_event);
-        }
-
         self.event_timeline.push(event);
         self.event_timeline.sort();
     }
@@ -1407,10 +1388,21 @@ impl AudioParamProcessor {
         }
 
         let start_time = event.time;
-        // if SetTarget is the first event registered, we implicitly
-        // insert a SetValue event just before just as for Ramps.
-        // Therefore we are sure last_event exists
-        let start_value = self.last_event.as_ref().unwrap().value;
+        // if SetTarget is the first event to be processed, it starts from the
+        // current value
+        let intrinsic_value = self.intrinsic_value;
+        let start_value = self
+            .last_event
+            .get_or_insert_with(|| AudioParamEvent {
+                event_type: AudioParamEventType::SetValue,
+                value: intrinsic_value,
+                time: start_time,
+                time_constant: None,
+                cancel_time: None,
+                duration: None,
+                values: None,
+            })
+            .value;
         let end_value = event.value;
         let diff = start_value - end_value;
         let time_constant = event.time_constant.unwrap();
-- 
2.43.0


From 0b7efcc7ee5307b4fa6e5c6e77e6bb20c5b9cfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:28 +0000
Subject: [PATCH 25/88] fix: treat a target that has been reached like one that
 is being approached

Ramps added after a target had been reached started at that time instead of
the present, and holding had no effect on them.
---
 src/param.rs | 58 ++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 49 insertions(+), 9 deletions(-)

diff --git a/src/param.rs b/src/param.rs
index be091ee..93bb0fb 100644
--- a/src/param.rs
+++ b/src/param.rs
@@ -196,6 +196,12 @@ impl AudioParamEvent {
         }
     }
 
+    // `SetTargetAtTime` events that are close to their target are replaced by
+    // `SetValueAtTime`, but never end on their own
+    fn is_reached_target(&self) -> bool {
+        self.event_type == AudioParamEventType::SetValueAtTime && self.time_constant.is_some()
+    }
+
     // end of a `SetValueCurveAtTime` event
     fn curve_end(&self) -> f64 {
         self.cancel_time
@@ -922,7 +928,7 @@ impl AudioParamProcessor {
             // [spec] For a `setValueCurveAtTime()`, the event is also removed if
             // `cancelTime` is in the range [𝑇0, 𝑇0+𝑇𝐷]
             self.event_timeline.retain(|queued| {
-                queued.position() < event.time
+                (queued.position() < event.time || queued.is_reached_target())
                     && (queued.event_type != AudioParamEventType::SetValueCurveAtTime
                         || queued.curve_end() < event.time)
             });
@@ -944,6 +950,7 @@ impl AudioParamProcessor {
             // smallest number satisfying 𝑡𝑐 < 𝑡2.
             let mut e1: Option<&mut AudioParamEvent> = None;
             let mut e2: Option<&mut AudioParamEvent> = None;
+            let mut hold_value = None;
             let mut t1 = f64::MIN;
             let mut t2 = f64::MAX;
             // we need a sorted timeline here to find siblings
@@ -965,12 +972,15 @@ impl AudioParamProcessor {
             }
 
             // If 𝐸2 exists and is a linear or exponential ramp:
-            // (unless 𝐸1 is a curve that is still active, then 𝐸2 has not started)
-            let in_curve = e1.as_ref().is_some_and(|matched| {
-                matched.event_type == AudioParamEventType::SetValueCurveAtTime
-                    && event.time <= matched.curve_end()
+            // (unless 𝐸1 has a known end and is still active, then 𝐸2 has not started)
+            let e1_active = e1.as_ref().is_some_and(|matched| match matched.event_type {
+                AudioParamEventType::SetValueCurveAtTime => event.time <= matched.curve_end(),
+                AudioParamEventType::SetTargetAtTime => {
+                    matched.cancel_time.is_some_and(|time| event.time <= time)
+                }
+                _ => false,
             });
-            let e2_ramp = e2.filter(|_| !in_curve).filter(|matched| {
+            let e2_ramp = e2.filter(|_| !e1_active).filter(|matched| {
                 matched.event_type == AudioParamEventType::LinearRampToValueAtTime
                     || matched.event_type == AudioParamEventType::ExponentialRampToValueAtTime
             });
@@ -982,6 +992,13 @@ impl AudioParamProcessor {
                 // @note - this is done during the actual computation of the
                 //  ramp using the cancel_time
                 matched.cancel_time = Some(event.time);
+            } else if e1
+                .as_deref()
+                .or(self.last_event.as_ref())
+                .is_some_and(AudioParamEvent::is_reached_target)
+            {
+                // as below, the value has been reached already
+                hold_value = Some(e1.map_or(self.intrinsic_value, |matched| matched.value));
             } else if let Some(matched) = e1 {
                 if matched.event_type == AudioParamEventType::SetTargetAtTime {
                     // Implicitly insert a setValueAtTime event at time 𝑡𝑐 with
@@ -1009,6 +1026,13 @@ impl AudioParamProcessor {
             // [spec] Remove all events with time greater than 𝑡𝑐.
             self.event_timeline
                 .retain(|queued| queued.position() <= event.time);
+
+            if let Some(value) = hold_value {
+                event.event_type = AudioParamEventType::SetValueAtTime;
+                event.value = value;
+                self.event_timeline.push(event);
+                self.event_timeline.sort();
+            }
             return; // cancel_and_hold events are not inserted timeline
         }
 
@@ -1159,6 +1183,8 @@ impl AudioParamProcessor {
     // cf. https://www.w3.org/TR/webaudio/#dom-audioparam-linearramptovalueattime
     // 𝑣(𝑡) = 𝑉0 + (𝑉1−𝑉0) * ((𝑡−𝑇0) / (𝑇1−𝑇0))
     fn compute_linear_ramp_automation(&mut self, infos: &BlockInfos) -> bool {
+        self.end_reached_target(infos);
+
         let event = self.event_timeline.peek().unwrap();
         let last_event = self.last_event.as_ref().unwrap();
 
@@ -1233,6 +1259,8 @@ impl AudioParamProcessor {
     // cf. https://www.w3.org/TR/webaudio/#dom-audioparam-exponentialramptovalueattime
     // v(t) = v1 * (v2/v1)^((t-t1) / (t2-t1))
     fn compute_exponential_ramp_automation(&mut self, infos: &BlockInfos) -> bool {
+        self.end_reached_target(infos);
+
         let event = self.event_timeline.peek().unwrap();
         let last_event = self.last_event.as_ref().unwrap();
 
@@ -1316,6 +1344,17 @@ impl AudioParamProcessor {
         false
     }
 
+    // A ramp that follows a target starts at the time it has been added, even
+    // if the target has been reached
+    fn end_reached_target(&mut self, infos: &BlockInfos) {
+        if let Some(last_event) = &mut self.last_event {
+            if last_event.is_reached_target() {
+                last_event.time = last_event.time.max(infos.block_time);
+                last_event.time_constant = None;
+            }
+        }
+    }
+
     // For events where `time` is the start time: if the event does not start
     // within this block, hold the current value and return `true`
     fn hold_until_event_start(&mut self, infos: &BlockInfos) -> bool {
@@ -1443,8 +1482,9 @@ impl AudioParamProcessor {
 
             let diff = (end_value - value).abs();
 
-            // abort event if diff is below SNAP_TO_TARGET
-            if diff < SNAP_TO_TARGET {
+            // abort event if diff is below SNAP_TO_TARGET (not if it still has to be
+            // held at some time)
+            if diff < SNAP_TO_TARGET && event.cancel_time.is_none() {
                 self.intrinsic_value = end_value;
 
                 // if end_value is zero, the buffer might contain
@@ -1461,7 +1501,7 @@ impl AudioParamProcessor {
                     event_type: AudioParamEventType::SetValueAtTime,
                     time: infos.next_block_time,
                     value: end_value,
-                    time_constant: None,
+                    time_constant: Some(time_constant), // see `is_reached_target`
                     cancel_time: None,
                     duration: None,
                     values: None,
-- 
2.43.0


From 7798a9811a7d81a971917d8dee4bcad2d6109237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:54:28 +0000
Subject: [PATCH 26/88] fix: keep ended constant sources and oscillators silent
 when stop is called again

---
 src/node/constant_source.rs | 6 ++++++
 src/node/oscillator.rs      | 3 ++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/node/constant_source.rs b/src/node/constant_source.rs
index d1174e0..bf8c913 100644
--- a/src/node/constant_source.rs
+++ b/src/node/constant_source.rs
@@ -198,6 +198,12 @@ impl AudioProcessor for ConstantSourceRenderer {
         // single output node
         let output = &mut outputs[0];
 
+        // once ended, a source never plays again, even if the stop time is changed afterwards
+        if self.ended_triggered {
+            output.make_silent();
+            return false;
+        }
+
         let dt = 1. / scope.sample_rate as f64;
         let next_block_time = scope.current_time + dt * RENDER_QUANTUM_SIZE as f64;
 
diff --git a/src/node/oscillator.rs b/src/node/oscillator.rs
index 8fe3649..8ff18a7 100644
--- a/src/node/oscillator.rs
+++ b/src/node/oscillator.rs
@@ -379,7 +379,8 @@ impl AudioProcessor for OscillatorRenderer {
         let num_frames = RENDER_QUANTUM_SIZE;
         let next_block_time = scope.current_time + dt * num_frames as f64;
 
-        if self.stop_time <= scope.current_time {
+        // once ended, a source never plays again, even if the stop time is changed afterwards
+        if self.ended_triggered || self.stop_time <= scope.current_time {
             output.make_silent();
 
             if !self.ended_triggered {
-- 
2.43.0


From 1a2dbd065f30adc641928ff7ec7dd7ffeb8243a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:54:37 +0000
Subject: [PATCH 27/88] fix: start and stop constant sources and oscillators at
 the exact frame

---
 src/node/constant_source.rs | 10 +++++-----
 src/node/oscillator.rs      | 24 +++++++++++++-----------
 2 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/node/constant_source.rs b/src/node/constant_source.rs
index bf8c913..100e67c 100644
--- a/src/node/constant_source.rs
+++ b/src/node/constant_source.rs
@@ -237,12 +237,14 @@ impl AudioProcessor for ConstantSourceRenderer {
             output_channel.fill(offset[0]);
         } else {
             // sample accurate path
-            let mut current_time = scope.current_time;
-
             output_channel
                 .iter_mut()
                 .zip(offset.iter().cycle())
-                .for_each(|(o, &value)| {
+                .zip(scope.current_frame..)
+                .for_each(|((o, &value), frame)| {
+                    // do not accumulate `dt`, its rounding errors would shift the start and stop
+                    let current_time = frame as f64 / scope.sample_rate as f64;
+
                     if current_time < self.start_time || current_time >= self.stop_time {
                         *o = 0.;
                     } else {
@@ -251,8 +253,6 @@ impl AudioProcessor for ConstantSourceRenderer {
                         // copying the values to their right place.
                         *o = value;
                     }
-
-                    current_time += dt;
                 });
         }
 
diff --git a/src/node/oscillator.rs b/src/node/oscillator.rs
index 8ff18a7..cbff216 100644
--- a/src/node/oscillator.rs
+++ b/src/node/oscillator.rs
@@ -410,7 +410,7 @@ impl AudioProcessor for OscillatorRenderer {
         let frequency_values = params.get(&self.frequency);
         let detune_values = params.get(&self.detune);
 
-        let mut current_time = scope.current_time;
+        let current_time = scope.current_time;
 
         // Prevent scheduling in the past
         //
@@ -440,22 +440,26 @@ impl AudioProcessor for OscillatorRenderer {
                     self.phase = Self::unroll_phase(self.phase + phase_incr);
                 });
             } else {
-                channel_data.iter_mut().for_each(|output| {
-                    current_time =
+                channel_data
+                    .iter_mut()
+                    .zip(scope.current_frame..)
+                    .for_each(|(output, frame)| {
+                        let current_time = frame as f64 / sample_rate;
                         self.generate_sample(output, outside_nyquist, phase_incr, current_time, dt);
-                });
+                    });
             }
         } else {
             channel_data
                 .iter_mut()
                 .zip(frequency_values.iter().cycle())
                 .zip(detune_values.iter().cycle())
-                .for_each(|((output, &freq), &detune)| {
+                .zip(scope.current_frame..)
+                .for_each(|(((output, &freq), &detune), frame)| {
                     let computed_freq = get_computed_freq(freq, detune);
                     let phase_incr = computed_freq / sample_rate;
                     let outside_nyquist = computed_freq.abs() >= nyquist;
-                    current_time =
-                        self.generate_sample(output, outside_nyquist, phase_incr, current_time, dt)
+                    let current_time = frame as f64 / sample_rate;
+                    self.generate_sample(output, outside_nyquist, phase_incr, current_time, dt);
                 });
         }
 
@@ -518,10 +522,10 @@ impl OscillatorRenderer {
         phase_incr: f64,
         current_time: f64,
         dt: f64,
-    ) -> f64 {
+    ) {
         if current_time < self.start_time || current_time >= self.stop_time {
             *output = 0.;
-            return current_time + dt;
+            return;
         }
 
         // first sample to render
@@ -554,8 +558,6 @@ impl OscillatorRenderer {
         } else {
             Self::unroll_phase(self.phase + phase_incr)
         };
-
-        current_time + dt
     }
 
     #[inline]
-- 
2.43.0


From 8593ae3a339ce158b9d6d40298ccd8ed7d28abab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:55:33 +0000
Subject: [PATCH 28/88] fix: stop buffer sources at the exact frame

---
 src/node/audio_buffer_source.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node/audio_buffer_source.rs b/src/node/audio_buffer_source.rs
index a5565ac..777c387 100644
--- a/src/node/audio_buffer_source.rs
+++ b/src/node/audio_buffer_source.rs
@@ -644,7 +644,7 @@ impl AudioProcessor for AudioBufferSourceRenderer {
 
             // compute position for each sample and store into `self.positions`
             for (i, playback_info) in playback_infos.iter_mut().enumerate() {
-                let current_time = block_time + i as f64 * dt;
+                let current_time = (scope.current_frame + i as u64) as f64 / sample_rate;
 
                 // Sticky behavior to handle floating point errors due to start time computation
                 // cf. test_subsample_buffer_stitching
-- 
2.43.0


From 0dd9c35f690a19da2ca72ade6561cdfc54163494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:35 +0000
Subject: [PATCH 29/88] fix: keep the sub-sample start of sources that start
 right before a render quantum

---
 src/node/audio_buffer_source.rs | 5 ++++-
 src/node/oscillator.rs          | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/node/audio_buffer_source.rs b/src/node/audio_buffer_source.rs
index 777c387..7a20170 100644
--- a/src/node/audio_buffer_source.rs
+++ b/src/node/audio_buffer_source.rs
@@ -513,7 +513,10 @@ impl AudioProcessor for AudioBufferSourceRenderer {
         // If 0 is passed in for this value or if the value is less than
         // currentTime, then the sound will start playing immediately
         // cf. https://webaudio.github.io/web-audio-api/#dom-audioscheduledsourcenode-start-when-when
-        if !self.render_state.started && self.start_time < block_time {
+        // A start time between the last frame of the previous block and this one is not in the
+        // past, this block's first frame is the first one to play (at a sub-sample offset).
+        let previous_frame_time = (scope.current_frame as f64 - 1.) / sample_rate;
+        if !self.render_state.started && self.start_time <= previous_frame_time {
             self.start_time = block_time;
         }
 
diff --git a/src/node/oscillator.rs b/src/node/oscillator.rs
index cbff216..9648acf 100644
--- a/src/node/oscillator.rs
+++ b/src/node/oscillator.rs
@@ -417,7 +417,10 @@ impl AudioProcessor for OscillatorRenderer {
         // [spec] If 0 is passed in for this value or if the value is less than
         // currentTime, then the sound will start playing immediately
         // cf. https://webaudio.github.io/web-audio-api/#dom-audioscheduledsourcenode-start-when-when
-        if !self.started && self.start_time < current_time {
+        // A start time between the last frame of the previous block and this one is not in the
+        // past, this block's first frame is the first one to play (at a sub-sample offset).
+        let previous_frame_time = (scope.current_frame as f64 - 1.) / sample_rate;
+        if !self.started && self.start_time <= previous_frame_time {
             self.start_time = current_time;
         }
 
-- 
2.43.0


From c780d614bf4a7b84e165557462e781dcbc8ff335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:54 +0000
Subject: [PATCH 30/88] fix: interpolate looped buffers at their end with the
 frame at the loop start

---
 src/node/audio_buffer_source.rs | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/src/node/audio_buffer_source.rs b/src/node/audio_buffer_source.rs
index 7a20170..0df8b56 100644
--- a/src/node/audio_buffer_source.rs
+++ b/src/node/audio_buffer_source.rs
@@ -778,24 +778,13 @@ impl AudioProcessor for AudioBufferSourceRenderer {
                                         // End of buffer
                                         None => {
                                             if is_looping {
-                                                if playback_rate >= 0. {
-                                                    let start_playhead =
-                                                        actual_loop_start * sample_rate;
-                                                    let start_index = if start_playhead.floor()
-                                                        == start_playhead
-                                                    {
-                                                        start_playhead as usize
-                                                    } else {
-                                                        start_playhead as usize + 1
-                                                    };
-
-                                                    buffer_channel[start_index] as f64
-                                                } else {
-                                                    let end_playhead =
-                                                        actual_loop_end * sample_rate;
-                                                    let end_index = end_playhead as usize;
-                                                    buffer_channel[end_index] as f64
-                                                }
+                                                // continue at the loop start
+                                                let start_playhead =
+                                                    actual_loop_start * buffer.sample_rate() as f64;
+                                                let start_index = start_playhead.ceil() as usize;
+
+                                                buffer_channel[start_index.min(buffer_length - 1)]
+                                                    as f64
                                             } else {
                                                 // Handle 2 edge cases:
                                                 // 1. We are in a case where buffer time is below buffer
-- 
2.43.0


From 777c255ff0fa3d21e75bc7aa30f6875cc757248d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:58:52 +0000
Subject: [PATCH 31/88] fix: end looped buffer sources at their duration

---
 src/node/audio_buffer_source.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node/audio_buffer_source.rs b/src/node/audio_buffer_source.rs
index 0df8b56..b18e8a4 100644
--- a/src/node/audio_buffer_source.rs
+++ b/src/node/audio_buffer_source.rs
@@ -548,7 +548,7 @@ impl AudioProcessor for AudioBufferSourceRenderer {
         // If some user defined end of rendering, i.e. explicit stop_time or duration,
         // is within this render quantum force slow track as well. It might imply
         // resampling e.g. if stop_time is between 2 samples
-        if buffer_time + block_duration > self.duration
+        if self.render_state.buffer_time_elapsed + block_duration > self.duration
             || block_time + block_duration > self.stop_time
         {
             self.render_state.is_aligned = false;
-- 
2.43.0


From 43a9580340364415777f49449f4f71df198ae119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:31 +0000
Subject: [PATCH 32/88] fix: do not stick to loop points when a buffer is
 played slowly

---
 src/node/audio_buffer_source.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/node/audio_buffer_source.rs b/src/node/audio_buffer_source.rs
index b18e8a4..97fb23b 100644
--- a/src/node/audio_buffer_source.rs
+++ b/src/node/audio_buffer_source.rs
@@ -645,17 +645,21 @@ impl AudioProcessor for AudioBufferSourceRenderer {
             // according to the source buffer. (prev_sample_index, k)
             let mut playback_infos = [None; RENDER_QUANTUM_SIZE];
 
+            // Times that differ only by floating point errors, i.e. much less than the duration of
+            // a sample at any time, so that slow playback rates do not stick to a boundary.
+            let almost_equal = |a: f64, b: f64| (a - b).abs() * sample_rate < 1e-6;
+
             // compute position for each sample and store into `self.positions`
             for (i, playback_info) in playback_infos.iter_mut().enumerate() {
                 let current_time = (scope.current_frame + i as u64) as f64 / sample_rate;
 
                 // Sticky behavior to handle floating point errors due to start time computation
                 // cf. test_subsample_buffer_stitching
-                if !self.render_state.started && almost::equal(current_time, self.start_time) {
+                if !self.render_state.started && almost_equal(current_time, self.start_time) {
                     self.start_time = current_time;
                 }
 
-                if almost::equal(self.render_state.buffer_time_elapsed, self.duration) {
+                if almost_equal(self.render_state.buffer_time_elapsed, self.duration) {
                     self.render_state.buffer_time_elapsed = self.duration;
                 }
 
@@ -694,11 +698,11 @@ impl AudioProcessor for AudioBufferSourceRenderer {
                 }
 
                 if is_looping {
-                    if almost::equal(buffer_time, actual_loop_end) {
+                    if almost_equal(buffer_time, actual_loop_end) {
                         buffer_time = actual_loop_end;
                     }
 
-                    if almost::equal(buffer_time, actual_loop_start) {
+                    if almost_equal(buffer_time, actual_loop_start) {
                         buffer_time = actual_loop_start;
                     }
 
@@ -726,7 +730,7 @@ impl AudioProcessor for AudioBufferSourceRenderer {
                     }
                 }
 
-                if almost::zero(buffer_time) {
+                if almost_equal(buffer_time, 0.) {
                     buffer_time = 0.
                 }
 
-- 
2.43.0


From 20af806bc5334276b3d8786cd794c4f7e6b8b0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:02:18 +0000
Subject: [PATCH 33/88] fix: wrap exactly at the loop points of looped buffers

---
 src/node/audio_buffer_source.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/node/audio_buffer_source.rs b/src/node/audio_buffer_source.rs
index 97fb23b..ae5c55e 100644
--- a/src/node/audio_buffer_source.rs
+++ b/src/node/audio_buffer_source.rs
@@ -720,12 +720,16 @@ impl AudioProcessor for AudioBufferSourceRenderer {
 
                     // check loop boundaries
                     if self.render_state.entered_loop {
-                        while buffer_time >= actual_loop_end {
-                            buffer_time -= actual_loop_end - actual_loop_start;
+                        while buffer_time < actual_loop_start
+                            && !almost_equal(buffer_time, actual_loop_start)
+                        {
+                            buffer_time += actual_loop_end - actual_loop_start;
                         }
 
-                        while buffer_time < actual_loop_start {
-                            buffer_time += actual_loop_end - actual_loop_start;
+                        while buffer_time >= actual_loop_end
+                            || almost_equal(buffer_time, actual_loop_end)
+                        {
+                            buffer_time -= actual_loop_end - actual_loop_start;
                         }
                     }
                 }
-- 
2.43.0


From 9f1ff807345bdf791145c05aef508bc502d88220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:02:55 +0000
Subject: [PATCH 34/88] fix: find the loop start frame of looped buffers
 despite rounding

---
 src/node/audio_buffer_source.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/node/audio_buffer_source.rs b/src/node/audio_buffer_source.rs
index ae5c55e..deb4269 100644
--- a/src/node/audio_buffer_source.rs
+++ b/src/node/audio_buffer_source.rs
@@ -789,7 +789,9 @@ impl AudioProcessor for AudioBufferSourceRenderer {
                                                 // continue at the loop start
                                                 let start_playhead =
                                                     actual_loop_start * buffer.sample_rate() as f64;
-                                                let start_index = start_playhead.ceil() as usize;
+                                                // tolerate floating point errors
+                                                let start_index =
+                                                    (start_playhead - 1e-6).ceil() as usize;
 
                                                 buffer_channel[start_index.min(buffer_length - 1)]
                                                     as f64
-- 
2.43.0


From dd3ac344cb2fbe098bfdcdf8bcc8e8a0713f58b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:03:24 +0000
Subject: [PATCH 35/88] fix: remember that a loop was entered when playing
 without interpolation

---
 src/node/audio_buffer_source.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/node/audio_buffer_source.rs b/src/node/audio_buffer_source.rs
index deb4269..7457b08 100644
--- a/src/node/audio_buffer_source.rs
+++ b/src/node/audio_buffer_source.rs
@@ -561,6 +561,8 @@ impl AudioProcessor for AudioBufferSourceRenderer {
             if self.start_time == block_time {
                 self.render_state.started = true;
             }
+            // the loop, if any, is the entire buffer
+            self.render_state.entered_loop = is_looping;
 
             // buffer ends within this block
             if buffer_time + block_duration > buffer_duration {
-- 
2.43.0


From f595dc240e820de0083d3cc1b93ab822670ec342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:03:45 +0000
Subject: [PATCH 36/88] fix: play the first frame of reversed buffers

---
 src/node/audio_buffer_source.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/node/audio_buffer_source.rs b/src/node/audio_buffer_source.rs
index 7457b08..921cb6a 100644
--- a/src/node/audio_buffer_source.rs
+++ b/src/node/audio_buffer_source.rs
@@ -554,6 +554,10 @@ impl AudioProcessor for AudioBufferSourceRenderer {
             self.render_state.is_aligned = false;
         }
 
+        // Times that differ only by floating point errors, i.e. much less than the duration of
+        // a sample at any time, so that slow playback rates do not stick to a boundary.
+        let almost_equal = |a: f64, b: f64| (a - b).abs() * sample_rate < 1e-6;
+
         if self.render_state.is_aligned {
             // ---------------------------------------------------------------
             // Fast track
@@ -647,10 +651,6 @@ impl AudioProcessor for AudioBufferSourceRenderer {
             // according to the source buffer. (prev_sample_index, k)
             let mut playback_infos = [None; RENDER_QUANTUM_SIZE];
 
-            // Times that differ only by floating point errors, i.e. much less than the duration of
-            // a sample at any time, so that slow playback rates do not stick to a boundary.
-            let almost_equal = |a: f64, b: f64| (a - b).abs() * sample_rate < 1e-6;
-
             // compute position for each sample and store into `self.positions`
             for (i, playback_info) in playback_infos.iter_mut().enumerate() {
                 let current_time = (scope.current_frame + i as u64) as f64 / sample_rate;
@@ -839,7 +839,9 @@ impl AudioProcessor for AudioBufferSourceRenderer {
             || self.render_state.buffer_time_elapsed >= self.duration
             || !is_looping
                 && (computed_playback_rate > 0. && buffer_time >= buffer_duration
-                    || computed_playback_rate < 0. && buffer_time < 0.)
+                    || computed_playback_rate < 0.
+                        && buffer_time < 0.
+                        && !almost_equal(buffer_time, 0.))
         {
             self.render_state.ended = true;
             scope.send_ended_event();
-- 
2.43.0


From 55da27d5965a4f487dca88f60e609f8af2eff0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:29:50 +0000
Subject: [PATCH 37/88] fix: keep oscillator phase below one for tiny negative
 frequencies

---
 src/node/oscillator.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/node/oscillator.rs b/src/node/oscillator.rs
index 9648acf..9901fe8 100644
--- a/src/node/oscillator.rs
+++ b/src/node/oscillator.rs
@@ -666,10 +666,11 @@ impl OscillatorRenderer {
 
     #[inline]
     fn unroll_phase(phase: f64) -> f64 {
+        let phase = if phase < 0. { phase + 1. } else { phase };
+
+        // the sum of one and a tiny negative phase may round to exactly one
         if phase >= 1. {
             phase - 1.
-        } else if phase < 0. {
-            phase + 1.
         } else {
             phase
         }
@@ -677,7 +678,7 @@ impl OscillatorRenderer {
 
     #[inline]
     fn unroll_phase_unbounded(phase: f64) -> f64 {
-        phase.rem_euclid(1.)
+        Self::unroll_phase(phase.rem_euclid(1.))
     }
 }
 
-- 
2.43.0


From 1309eb8846d94c85091d90ef8b345ac0644e7f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:31:03 +0000
Subject: [PATCH 38/88] fix: keep square oscillator within its range at the
 falling edge

---
 src/node/oscillator.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/node/oscillator.rs b/src/node/oscillator.rs
index 9901fe8..c44044d 100644
--- a/src/node/oscillator.rs
+++ b/src/node/oscillator.rs
@@ -602,10 +602,14 @@ impl OscillatorRenderer {
 
     #[inline]
     fn generate_square(&mut self, phase_incr: f64) -> f32 {
-        let mut sample = if self.phase < 0.5 { 1.0 } else { -1.0 };
+        // the shifted phase must be on the same side of the falling edge as the
+        // sample, also when the sum is rounded to one
+        let (mut sample, shift_phase) = if self.phase < 0.5 {
+            (1.0, self.phase + 0.5)
+        } else {
+            (-1.0, self.phase - 0.5)
+        };
         sample += Self::poly_blep(self.phase, phase_incr, cfg!(test));
-
-        let shift_phase = Self::unroll_phase(self.phase + 0.5);
         sample -= Self::poly_blep(shift_phase, phase_incr, cfg!(test));
 
         sample as f32
-- 
2.43.0


From ba2a95ef59c5a1545814548a530d1b6c20c14ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:37:04 +0000
Subject: [PATCH 39/88] fix: default periodic wave is a sine wave

---
 src/periodic_wave.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/periodic_wave.rs b/src/periodic_wave.rs
index f69825b..8157b73 100644
--- a/src/periodic_wave.rs
+++ b/src/periodic_wave.rs
@@ -68,11 +68,23 @@ pub struct PeriodicWaveOptions {
 /// - `cargo run --release --example oscillators`
 ///
 // Basically a wrapper around Arc<Vec<f32>>, so `PeriodicWave`s are cheap to clone
-#[derive(Debug, Clone, Default)]
+#[derive(Debug, Clone)]
 pub struct PeriodicWave {
     wavetable: Arc<Vec<f32>>,
 }
 
+impl Default for PeriodicWave {
+    /// Returns a sine wave
+    fn default() -> Self {
+        let wavetable =
+            Self::generate_wavetable(&[0., 0.], &[0., 1.], true, PERIODIC_WAVE_TABLE_LENGTH);
+
+        Self {
+            wavetable: Arc::new(wavetable),
+        }
+    }
+}
+
 const PERIODIC_WAVE_TABLE_LENGTH: usize = 8192;
 
 impl PeriodicWave {
-- 
2.43.0


From bb27ffd00c3cd8518c166619382e4fdd6c0af976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:37:20 +0000
Subject: [PATCH 40/88] fix: reject custom oscillator type without a periodic
 wave

---
 src/node/oscillator.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/node/oscillator.rs b/src/node/oscillator.rs
index c44044d..8edc5a6 100644
--- a/src/node/oscillator.rs
+++ b/src/node/oscillator.rs
@@ -207,6 +207,10 @@ impl OscillatorNode {
     ///
     /// * `context` - The `AudioContext`
     /// * `options` - The OscillatorOptions
+    ///
+    /// # Panics
+    ///
+    /// Will panic if the type is `OscillatorType::Custom` and no periodic wave is given
     pub fn new<C: BaseAudioContext>(context: &C, options: OscillatorOptions) -> Self {
         let OscillatorOptions {
             type_,
@@ -216,6 +220,11 @@ impl OscillatorNode {
             periodic_wave,
         } = options;
 
+        assert!(
+            type_ != OscillatorType::Custom || periodic_wave.is_some(),
+            "InvalidStateError - Custom type requires a periodic wave"
+        );
+
         let mut node = context.base().register(move |registration| {
             let sample_rate = context.sample_rate();
             let nyquist = sample_rate / 2.;
-- 
2.43.0


From cc4b3228fa176b7a8ba81e4e8f383c510c2e2df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:37:35 +0000
Subject: [PATCH 41/88] fix: reject periodic waves with too many components as
 documented

---
 src/periodic_wave.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/periodic_wave.rs b/src/periodic_wave.rs
index 8157b73..1d39514 100644
--- a/src/periodic_wave.rs
+++ b/src/periodic_wave.rs
@@ -158,6 +158,11 @@ impl PeriodicWave {
             _ => (vec![0., 0.], vec![0., 1.]),
         };
 
+        assert!(
+            real.len() <= PERIODIC_WAVE_TABLE_LENGTH,
+            "IndexSizeError - `real` and `imag` length should be at most {PERIODIC_WAVE_TABLE_LENGTH}"
+        );
+
         let normalize = !disable_normalization;
         // [spec] A conforming implementation MUST support PeriodicWave up to at least 8192 elements.
         let wavetable =
-- 
2.43.0


From 9566163551be5c95bac83d24f87c6b092794058d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:09 +0000
Subject: [PATCH 42/88] fix: normalize periodic waves with tiny coefficients

---
 src/periodic_wave.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/periodic_wave.rs b/src/periodic_wave.rs
index 1d39514..c2e7565 100644
--- a/src/periodic_wave.rs
+++ b/src/periodic_wave.rs
@@ -217,10 +217,9 @@ impl PeriodicWave {
 
         // prevent division by 0. (nothing to normalize anyway...)
         if max > 0. {
-            let norm_factor = 1. / max;
-
+            // the reciprocal of a subnormal peak would overflow
             for sample in wavetable.iter_mut() {
-                *sample *= norm_factor;
+                *sample /= max;
             }
         }
     }
-- 
2.43.0


From 5f02cf993240f339792666cc53e678aab4ba96d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:53:26 +0000
Subject: [PATCH 43/88] fix: apply a-rate automation of the panner position and
 orientation

---
 src/node/panner.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/node/panner.rs b/src/node/panner.rs
index 3cc7f0f..de97e0a 100644
--- a/src/node/panner.rs
+++ b/src/node/panner.rs
@@ -831,7 +831,13 @@ impl AudioProcessor for PannerRenderer {
             // EqualPower panning
 
             // Optimize for static Panner & Listener
-            let single_valued = listener_position_x.len() == 1
+            let single_valued = source_position_x.len() == 1
+                && source_position_y.len() == 1
+                && source_position_z.len() == 1
+                && source_orientation_x.len() == 1
+                && source_orientation_y.len() == 1
+                && source_orientation_z.len() == 1
+                && listener_position_x.len() == 1
                 && listener_position_y.len() == 1
                 && listener_position_z.len() == 1
                 && listener_forward_x.len() == 1
-- 
2.43.0


From 6f3a13d4c9a563247b31fbb434c7cd8854068f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:53:43 +0000
Subject: [PATCH 44/88] fix: define distance gain for zero reference distance
 and equal distances

---
 src/node/panner.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/node/panner.rs b/src/node/panner.rs
index de97e0a..f0474c1 100644
--- a/src/node/panner.rs
+++ b/src/node/panner.rs
@@ -969,9 +969,18 @@ impl PannerRenderer {
                 let max_distance = self.max_distance;
                 let d2ref = ref_distance.min(max_distance);
                 let d2max = ref_distance.max(max_distance);
-                let d_clamped = distance.clamp(d2ref, d2max);
-                1. - rolloff_factor * (d_clamped - d2ref) / (d2max - d2ref)
+                if d2ref == d2max {
+                    // [spec] In the case where d'ref = d'max, the value of the linear model
+                    // is taken to be 1 - f.
+                    1. - rolloff_factor
+                } else {
+                    let d_clamped = distance.clamp(d2ref, d2max);
+                    1. - rolloff_factor * (d_clamped - d2ref) / (d2max - d2ref)
+                }
             }
+            // [spec] In the case where dref = 0, the value of the inverse and the exponential
+            // model is taken to be 0, irrespective of the value of d and f.
+            DistanceModelType::Inverse | DistanceModelType::Exponential if ref_distance == 0. => 0.,
             DistanceModelType::Inverse => {
                 let rolloff_factor = self.rolloff_factor.max(0.);
                 if distance > 0. {
-- 
2.43.0


From 979d7968ba8f44ca80b613a896db47d509032ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:53:58 +0000
Subject: [PATCH 45/88] fix: output the whole tail of HRTF panners after every
 sound

---
 src/node/panner.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/node/panner.rs b/src/node/panner.rs
index f0474c1..6ae3d00 100644
--- a/src/node/panner.rs
+++ b/src/node/panner.rs
@@ -708,6 +708,8 @@ impl AudioProcessor for PannerRenderer {
             }
 
             self.tail_time_counter += RENDER_QUANTUM_SIZE;
+        } else {
+            self.tail_time_counter = 0;
         }
 
         // for borrow reasons, take the hrtf_state out of self
-- 
2.43.0


From c29c22b86908400fc7cd74464d6d80b8be76a9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:54:57 +0000
Subject: [PATCH 46/88] fix: keep the gain of stereo input for the tail of HRTF
 panners

---
 src/node/panner.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/node/panner.rs b/src/node/panner.rs
index 6ae3d00..91e114b 100644
--- a/src/node/panner.rs
+++ b/src/node/panner.rs
@@ -809,10 +809,14 @@ impl AudioProcessor for PannerRenderer {
             // usually double the output volume as compared to mono-to-stereo.  Hence we double
             // the input signal for stereo inputs to correct for our lack of implementation.
             *output = input.clone();
-            let mut overall_gain_correction = 1.;
             if output.number_of_channels() == 2 {
-                overall_gain_correction *= 2.; // stereo-to-stereo panning typically doubles volume
                 output.mix(1, ChannelInterpretation::Speakers);
+                // stereo-to-stereo panning typically doubles volume - apply this to the input so
+                // it lasts for the tail, when the input is mono silence
+                output
+                    .channel_data_mut(0)
+                    .iter_mut()
+                    .for_each(|sample| *sample *= 2.);
             }
 
             let output_interleaved =
@@ -826,8 +830,8 @@ impl AudioProcessor for PannerRenderer {
                 .zip(&mut left[..])
                 .zip(&mut right[..])
                 .for_each(|((p, l), r)| {
-                    *l = overall_gain_correction * p.0;
-                    *r = overall_gain_correction * p.1;
+                    *l = p.0;
+                    *r = p.1;
                 });
         } else {
             // EqualPower panning
-- 
2.43.0


From c54984db102ade09bef81830940fdd352a0ee249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:56:52 +0000
Subject: [PATCH 47/88] fix: no NaN angles for panners due to rounding and
 extreme distances

---
 src/spatial.rs | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/spatial.rs b/src/spatial.rs
index 10e3449..77dc33d 100644
--- a/src/spatial.rs
+++ b/src/spatial.rs
@@ -11,7 +11,7 @@ use crate::render::{
     AudioParamValues, AudioProcessor, AudioRenderQuantum, AudioWorkletGlobalScope,
 };
 
-use std::f32::consts::PI;
+use std::f64::consts::PI;
 use std::sync::OnceLock;
 
 /// AudioParam settings for the cartesian coordinates
@@ -201,6 +201,16 @@ use vecmath::{
     vec3_cross, vec3_dot, vec3_len, vec3_normalized, vec3_scale, vec3_square_len, vec3_sub, Vector3,
 };
 
+/// Calculate in double precision: squared lengths of finite vectors neither overflow nor underflow
+fn widen(v: Vector3<f32>) -> Vector3<f64> {
+    v.map(f64::from)
+}
+
+/// Angle in degrees of a cosine that may be slightly outside of [-1, 1] due to rounding
+fn acos_degrees(cosine: f64) -> f64 {
+    180. * cosine.clamp(-1., 1.).acos() / PI
+}
+
 /// Direction to source position measured from listener in 3D
 pub fn azimuth_and_elevation(
     source_position: Vector3<f32>,
@@ -208,10 +218,12 @@ pub fn azimuth_and_elevation(
     listener_forward: Vector3<f32>,
     listener_up: Vector3<f32>,
 ) -> (f32, f32) {
-    let relative_pos = vec3_sub(source_position, listener_position);
+    let relative_pos = vec3_sub(widen(source_position), widen(listener_position));
+    let listener_forward = widen(listener_forward);
+    let listener_up = widen(listener_up);
 
     // Handle degenerate case if source and listener are at the same point.
-    if vec3_square_len(relative_pos) <= f32::MIN_POSITIVE {
+    if vec3_square_len(relative_pos) <= f64::MIN_POSITIVE {
         return (0., 0.);
     }
 
@@ -233,7 +245,7 @@ pub fn azimuth_and_elevation(
     let up = vec3_cross(listener_right_norm, listener_forward_norm);
 
     // Determine elevation first
-    let mut elevation = 90. - 180. * vec3_dot(source_listener, up).acos() / PI;
+    let mut elevation = 90. - acos_degrees(vec3_dot(source_listener, up));
     if elevation > 90. {
         elevation = 180. - elevation;
     } else if elevation < -90. {
@@ -246,11 +258,11 @@ pub fn azimuth_and_elevation(
     // this case is not handled by the spec, so I stole the solution from
     // https://hg.mozilla.org/mozilla-central/rev/1100a5bc013b541c635bc42bd753531e95c952e4
     if vec3_square_len(projected_source) == 0. {
-        return (0., elevation);
+        return (0., elevation as f32);
     }
     let projected_source = vec3_normalized(projected_source);
 
-    let mut azimuth = 180. * vec3_dot(projected_source, listener_right_norm).acos() / PI;
+    let mut azimuth = acos_degrees(vec3_dot(projected_source, listener_right_norm));
 
     // Source in front or behind the listener.
     let front_back = vec3_dot(projected_source, listener_forward_norm);
@@ -266,12 +278,12 @@ pub fn azimuth_and_elevation(
         azimuth = 450. - azimuth;
     }
 
-    (azimuth, elevation)
+    (azimuth as f32, elevation as f32)
 }
 
 /// Distance between two points in 3D
 pub fn distance(source_position: Vector3<f32>, listener_position: Vector3<f32>) -> f32 {
-    vec3_len(vec3_sub(source_position, listener_position))
+    vec3_len(vec3_sub(widen(source_position), widen(listener_position))) as f32
 }
 
 /// Angle between two vectors in 3D
@@ -281,21 +293,21 @@ pub fn angle(
     listener_position: Vector3<f32>,
 ) -> f32 {
     // handle edge case of missing source orientation
+    let source_orientation = widen(source_orientation);
     if vec3_square_len(source_orientation) == 0. {
         return 0.;
     }
     let normalized_source_orientation = vec3_normalized(source_orientation);
 
-    let relative_pos = vec3_sub(source_position, listener_position);
+    let relative_pos = vec3_sub(widen(source_position), widen(listener_position));
     // Handle degenerate case if source and listener are at the same point.
-    if vec3_square_len(relative_pos) <= f32::MIN_POSITIVE {
+    if vec3_square_len(relative_pos) <= f64::MIN_POSITIVE {
         return 0.;
     }
     // Calculate the source-listener vector.
     let source_listener = vec3_normalized(relative_pos);
 
-    let angle = 180. * vec3_dot(source_listener, normalized_source_orientation).acos() / PI;
-    angle.abs()
+    acos_degrees(vec3_dot(source_listener, normalized_source_orientation)) as f32
 }
 
 #[cfg(test)]
-- 
2.43.0


From bddac799536079fc273766a372cc8b4101d27c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:57:41 +0000
Subject: [PATCH 48/88] fix: leave excess elements alone in
 get_byte_time_domain_data

---
 src/analysis.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index f68d7d4..8133865 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -265,7 +265,8 @@ impl Analyser {
 
     pub fn get_byte_time_domain_data(&self, dst: &mut [u8]) {
         let fft_size = self.fft_size();
-        let mut tmp = vec![0.; dst.len()];
+        // ignore excess elements of `dst`
+        let mut tmp = vec![0.; dst.len().min(fft_size)];
         self.ring_buffer.read(&mut tmp, fft_size);
 
         dst.iter_mut().zip(tmp.iter()).for_each(|(o, i)| {
-- 
2.43.0


From d85b13edacfddda534fbace72ecbf1efc6fc791d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:57:55 +0000
Subject: [PATCH 49/88] fix: recompute the frequency data after a change of the
 fft size

---
 src/analysis.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/analysis.rs b/src/analysis.rs
index 8133865..a83486d 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -216,6 +216,7 @@ impl Analyser {
         if current_fft_size != fft_size {
             // reset last fft buffer
             self.last_fft_output.iter_mut().for_each(|v| *v = 0.);
+            self.last_fft_time = f64::NEG_INFINITY;
             // generate blackman window
             self.blackman.clear();
             generate_blackman(fft_size).for_each(|v| self.blackman.push(v));
-- 
2.43.0


From 150d2bba7665e358c035e2509f0801724f575dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:58:09 +0000
Subject: [PATCH 50/88] fix: exclude the make-up gain from the reduction of the
 compressor

---
 src/node/dynamics_compressor.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/node/dynamics_compressor.rs b/src/node/dynamics_compressor.rs
index a9466de..915d42c 100644
--- a/src/node/dynamics_compressor.rs
+++ b/src/node/dynamics_compressor.rs
@@ -390,7 +390,6 @@ impl AudioProcessor for DynamicsCompressorRenderer {
 
         let mut prev_detector_value = self.prev_detector_value;
 
-        let mut reduction_gain = 0.; // dB
         let mut reduction_gains = [0.; 128]; // lin
         let mut detector_values = [0.; 128]; // lin
 
@@ -437,9 +436,9 @@ impl AudioProcessor for DynamicsCompressorRenderer {
 
             detector_values[i] = detector_value;
             // cdB = -yL + make up gain
-            reduction_gain = -detector_value + makeup_gain;
+            let gain = -detector_value + makeup_gain;
             // convert to lin now, so we just to multiply samples later
-            reduction_gains[i] = db_to_lin(reduction_gain);
+            reduction_gains[i] = db_to_lin(gain);
             // update prev_detector_value for next sample
             prev_detector_value = detector_value;
         }
@@ -447,7 +446,8 @@ impl AudioProcessor for DynamicsCompressorRenderer {
         // update prev_detector_value for next block
         self.prev_detector_value = prev_detector_value;
         // update reduction shared w/ main thread
-        self.reduction.store(reduction_gain, Ordering::Relaxed);
+        self.reduction
+            .store(-prev_detector_value, Ordering::Relaxed);
 
         // store input in delay line
         self.ring_buffer[self.ring_index] = input;
-- 
2.43.0


From 7738675e01fc7e77637e366af9e67fc5ccd5bb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:58:24 +0000
Subject: [PATCH 51/88] fix: apply the knee to the make-up gain of the
 compressor

---
 src/node/dynamics_compressor.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/node/dynamics_compressor.rs b/src/node/dynamics_compressor.rs
index 915d42c..89268e0 100644
--- a/src/node/dynamics_compressor.rs
+++ b/src/node/dynamics_compressor.rs
@@ -372,6 +372,18 @@ impl AudioProcessor for DynamicsCompressorRenderer {
         // pre-compute for this block the constant part of the formula of the knee
         let knee_partial = (1. / ratio - 1.) / (2. * knee);
 
+        // Gain Computer stage - var yG - eq. 4 in paper
+        // if knee == 0. (hard knee), the `else if` branch is bypassed
+        let compression_curve = |db: f32| {
+            if db <= threshold - half_knee {
+                db
+            } else if db <= threshold + half_knee {
+                db + (db - threshold + half_knee).powi(2) * knee_partial
+            } else {
+                threshold + (db - threshold) / ratio
+            }
+        };
+
         // compute time constants for attack and release - eq. (7) in paper
         let attack = params.get(&self.attack)[0];
         let release = params.get(&self.release)[0];
@@ -384,7 +396,7 @@ impl AudioProcessor for DynamicsCompressorRenderer {
         // - Return the result of taking the 0.6 power of full range makeup gain.
         // @note: this should be confirmed / simplified, maybe could do all this in dB
         // seems coherent with chrome implementation
-        let full_range_gain = threshold + (-threshold / ratio);
+        let full_range_gain = compression_curve(0.);
         let full_range_makeup = 1. / db_to_lin(full_range_gain);
         let makeup_gain = lin_to_db(full_range_makeup.powf(0.6));
 
@@ -411,15 +423,7 @@ impl AudioProcessor for DynamicsCompressorRenderer {
 
             // Gain Computer stage
             // ------------------------------------------------
-            // var yG - eq. 4 in paper
-            // if knee == 0. (hard knee), the `else if` branch is bypassed
-            let sample_attenuated = if sample_db <= threshold - half_knee {
-                sample_db
-            } else if sample_db <= threshold + half_knee {
-                sample_db + (sample_db - threshold + half_knee).powi(2) * knee_partial
-            } else {
-                threshold + (sample_db - threshold) / ratio
-            };
+            let sample_attenuated = compression_curve(sample_db);
             // variable xL in paper
             let sample_attenuation = sample_db - sample_attenuated;
 
-- 
2.43.0


From 9a5806e5ccc339a6fae341fa15d427fe8eb51c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:58:39 +0000
Subject: [PATCH 52/88] fix: keep the compressor alive until its look-ahead
 delay is played

---
 src/node/dynamics_compressor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/node/dynamics_compressor.rs b/src/node/dynamics_compressor.rs
index 89268e0..b8a93d2 100644
--- a/src/node/dynamics_compressor.rs
+++ b/src/node/dynamics_compressor.rs
@@ -465,10 +465,10 @@ impl AudioProcessor for DynamicsCompressorRenderer {
         *output = delayed.clone();
 
         // if delayed signal is silent, there is no compression to apply
-        // thus we can consider the node has reach is tail time. (TBC)
+        // thus we can consider the node has reach is tail time when the whole delay line is silent
         if output.is_silent() {
             output.make_silent(); // truncate to 1 channel if needed
-            return false;
+            return !self.ring_buffer.iter().all(AudioRenderQuantum::is_silent);
         }
 
         output.channels_mut().iter_mut().for_each(|channel| {
-- 
2.43.0


From b026696501ab9ad0968dcde8a6e0fcd91a5ce7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:22:36 +0000
Subject: [PATCH 53/88] fix: render the whole graph after adding an unconnected
 node

---
 src/render/graph.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/render/graph.rs b/src/render/graph.rs
index 412bb88..1712c25 100644
--- a/src/render/graph.rs
+++ b/src/render/graph.rs
@@ -298,7 +298,10 @@ impl Graph {
 
         // add to ordered list (some nodes should be processed even if not connected)
         // if the node is connected later the ordered list will be recomputed
-        self.ordered.push(index);
+        // when the current ordering is void, the next render will determine a new one
+        if !self.ordered.is_empty() {
+            self.ordered.push(index);
+        }
     }
 
     pub fn add_edge(&mut self, source: (AudioNodeId, usize), dest: (AudioNodeId, usize)) {
-- 
2.43.0


From 54bba8acb691311b42b9c3c92817a52eb4919812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:23:06 +0000
Subject: [PATCH 54/88] fix: keep offline contexts usable after a rejected
 suspension

---
 src/context/offline.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/context/offline.rs b/src/context/offline.rs
index 6cc9c0e..d9186f2 100644
--- a/src/context/offline.rs
+++ b/src/context/offline.rs
@@ -303,12 +303,15 @@ impl OfflineAudioContext {
                 .as_mut()
                 .expect("InvalidStateError - cannot suspend when rendering has already started");
 
-            let insert_pos = renderer
+            let search = renderer
                 .suspend_promises
-                .binary_search_by_key(&quantum, |&(q, _)| q)
-                .expect_err(
-                    "InvalidStateError - cannot suspend multiple times at the same render quantum",
-                );
+                .binary_search_by_key(&quantum, |&(q, _)| q);
+            let Err(insert_pos) = search else {
+                drop(lock); // do not poison the renderer
+                panic!(
+                    "InvalidStateError - cannot suspend multiple times at the same render quantum"
+                )
+            };
 
             renderer
                 .suspend_promises
@@ -368,12 +371,13 @@ impl OfflineAudioContext {
             .as_mut()
             .expect("InvalidStateError - cannot suspend when rendering has already started");
 
-        let insert_pos = renderer
+        let search = renderer
             .suspend_callbacks
-            .binary_search_by_key(&quantum, |(q, _c)| *q)
-            .expect_err(
-                "InvalidStateError - cannot suspend multiple times at the same render quantum",
-            );
+            .binary_search_by_key(&quantum, |(q, _c)| *q);
+        let Err(insert_pos) = search else {
+            drop(lock); // do not poison the renderer
+            panic!("InvalidStateError - cannot suspend multiple times at the same render quantum")
+        };
 
         let boxed_callback = Box::new(|ctx: &mut OfflineAudioContext| {
             ctx.base().set_state(AudioContextState::Suspended);
-- 
2.43.0


From 5ade5aeb7571af64307a57d3222161c2f81986d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:23:22 +0000
Subject: [PATCH 55/88] fix: reject offline suspensions that would never happen

---
 src/context/offline.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/context/offline.rs b/src/context/offline.rs
index d9186f2..603b547 100644
--- a/src/context/offline.rs
+++ b/src/context/offline.rs
@@ -247,7 +247,13 @@ impl OfflineAudioContext {
             suspend_time < self.length as f64 / self.sample_rate() as f64,
             "InvalidStateError: suspendTime cannot be greater than or equal to the total render duration"
         );
-        (suspend_time * self.base.sample_rate() as f64 / RENDER_QUANTUM_SIZE as f64).ceil() as usize
+        let quantum = (suspend_time * self.base.sample_rate() as f64 / RENDER_QUANTUM_SIZE as f64)
+            .ceil() as usize;
+        assert!(
+            quantum * RENDER_QUANTUM_SIZE < self.length,
+            "InvalidStateError: quantized suspendTime cannot be greater than or equal to the total render duration"
+        );
+        quantum
     }
 
     /// Schedules a suspension of the time progression in the audio context at the specified time
-- 
2.43.0


From 45f2cdcad41f767468a28b7f4ab85831bfebe689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:24:53 +0000
Subject: [PATCH 56/88] fix: honour explicit channel counts of unconnected
 inputs

---
 src/render/graph.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/render/graph.rs b/src/render/graph.rs
index 1712c25..52d73ec 100644
--- a/src/render/graph.rs
+++ b/src/render/graph.rs
@@ -110,6 +110,11 @@ impl Node {
                     ChannelCountMode::ClampedMax => max_channels.min(config.count),
                 };
 
+                // an explicit number of channels also holds when nothing is connected
+                if signals.is_empty() && config.count_mode == ChannelCountMode::Explicit {
+                    input.mix(config.count, config.interpretation);
+                }
+
                 signals
                     .drain(..)
                     .for_each(|signal| input.add(&signal, &computed_config));
-- 
2.43.0


From c6e1bbff01ae131d2f0e26acaf6884c29636cab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:27:33 +0000
Subject: [PATCH 57/88] fix: keep wave shapers that turn silence into sound
 alive

---
 src/node/waveshaper.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/node/waveshaper.rs b/src/node/waveshaper.rs
index b841eb9..4630694 100644
--- a/src/node/waveshaper.rs
+++ b/src/node/waveshaper.rs
@@ -509,7 +509,8 @@ impl AudioProcessor for WaveShaperRenderer {
             }
         }
 
-        self.tail_quanta > 0
+        // a curve that does not map silence to silence sounds until the node is disconnected
+        !self.can_propagate_silence || self.tail_quanta > 0
     }
 
     fn onmessage(&mut self, msg: &mut dyn Any) {
-- 
2.43.0


From 3df81c10ea9248c58238daf8f31ab1970009da8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:34:23 +0000
Subject: [PATCH 58/88] fix: order immediate values of params created while
 rendering

---
 src/param.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/param.rs b/src/param.rs
index 93bb0fb..baedc70 100644
--- a/src/param.rs
+++ b/src/param.rs
@@ -7,7 +7,7 @@ use std::sync::{Arc, Mutex, OnceLock};
 
 use arrayvec::ArrayVec;
 
-use crate::context::AudioContextRegistration;
+use crate::context::{AudioContextRegistration, BaseAudioContext};
 use crate::node::{
     AudioNode, AudioNodeOptions, ChannelConfig, ChannelCountMode, ChannelInterpretation,
 };
@@ -1730,6 +1730,8 @@ pub(crate) fn audio_param_pair(
     );
 
     let current_value = Arc::new(AtomicF32::new(default_value));
+    // the param may be created while rendering
+    let next_block_time = BaseAudioContext::current_time(registration.context());
 
     let param = AudioParam {
         registration: registration.into(),
@@ -1752,7 +1754,7 @@ pub(crate) fn audio_param_pair(
         automation_rate,
         event_timeline: AudioParamEventTimeline::new(),
         last_event: None,
-        next_block_time: 0.,
+        next_block_time,
         buffer: ArrayVec::new(),
     };
 
-- 
2.43.0


From 02cb31469eedd3a04283f4c906f65b5078fad41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:52:38 +0000
Subject: [PATCH 59/88] fix: loop audio buffers at any playback rate in bounded
 time

---
 src/node/audio_buffer_source.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/node/audio_buffer_source.rs b/src/node/audio_buffer_source.rs
index 921cb6a..5a01ad1 100644
--- a/src/node/audio_buffer_source.rs
+++ b/src/node/audio_buffer_source.rs
@@ -722,6 +722,15 @@ impl AudioProcessor for AudioBufferSourceRenderer {
 
                     // check loop boundaries
                     if self.render_state.entered_loop {
+                        // skip large numbers of repetitions at once
+                        let loop_duration = actual_loop_end - actual_loop_start;
+                        let loop_time = buffer_time - actual_loop_start;
+                        if !loop_time.is_finite() {
+                            buffer_time = actual_loop_start;
+                        } else if loop_time.abs() > 100. * loop_duration {
+                            buffer_time = actual_loop_start + loop_time.rem_euclid(loop_duration);
+                        }
+
                         while buffer_time < actual_loop_start
                             && !almost_equal(buffer_time, actual_loop_start)
                         {
-- 
2.43.0


From bcecea66ae3509da5c2643707c281c7bd128869c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:04:54 +0000
Subject: [PATCH 60/88] fix: keep oversampling wave shapers running on
 non-finite samples

---
 src/node/waveshaper.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/node/waveshaper.rs b/src/node/waveshaper.rs
index 4630694..8389095 100644
--- a/src/node/waveshaper.rs
+++ b/src/node/waveshaper.rs
@@ -427,6 +427,15 @@ impl AudioProcessor for WaveShaperRenderer {
         }
 
         if let Some(curve) = &self.curve {
+            if self.oversample != OverSampleType::None {
+                // the up sampler cannot process samples that are not representable in its filters
+                output.modify_channels(|channel| {
+                    if channel.iter().any(|s| bounded(*s) != *s) {
+                        channel.iter_mut().for_each(|s| *s = bounded(*s));
+                    }
+                });
+            }
+
             match self.oversample {
                 OverSampleType::None => {
                     output.modify_channels(|channel| {
@@ -454,7 +463,7 @@ impl AudioProcessor for WaveShaperRenderer {
                     self.upsampler_x2.process(channels);
                     for channel in self.upsampler_x2.samples_out_mut().iter_mut() {
                         for s in channel.iter_mut() {
-                            *s = apply_curve(curve, *s);
+                            *s = bounded(apply_curve(curve, *s));
                         }
                     }
 
@@ -491,7 +500,7 @@ impl AudioProcessor for WaveShaperRenderer {
 
                     for channel in self.upsampler_x4.samples_out_mut().iter_mut() {
                         for s in channel.iter_mut() {
-                            *s = apply_curve(curve, *s);
+                            *s = bounded(apply_curve(curve, *s));
                         }
                     }
 
@@ -603,6 +612,16 @@ fn apply_curve(curve: &[f32], input: f32) -> f32 {
     }
 }
 
+/// Limit a sample to what the resamplers can process
+#[inline(always)]
+fn bounded(sample: f32) -> f32 {
+    if sample.is_nan() {
+        0.
+    } else {
+        sample.clamp(-1e30, 1e30)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use float_eq::assert_float_eq;
-- 
2.43.0


From 9b5722adf6ebaf8e41e20e90c0530fabb18b26dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:21:53 +0000
Subject: [PATCH 61/88] fix: clear outputs before calling a custom processor

---
 src/worklet.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/worklet.rs b/src/worklet.rs
index 9c38106..6e4c15c 100644
--- a/src/worklet.rs
+++ b/src/worklet.rs
@@ -388,6 +388,11 @@ impl<P: AudioWorkletProcessor> AudioProcessor for AudioWorkletRenderer<P> {
             inputs_flat = right;
         }
 
+        // The processor may rely on the outputs being silent
+        outputs
+            .iter_mut()
+            .for_each(AudioRenderQuantum::make_silent);
+
         // Set the proper channel count for the outputs
         if !outputs.is_empty() && self.output_channel_count.is_empty() {
             // special case - single input/output - inherit channel count from input
-- 
2.43.0


From 3caf431984ae6d93aeb8d5e47da914f991648136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:21:53 +0000
Subject: [PATCH 62/88] fix: keep failed nodes in the graph until their handle
 is dropped

---
 src/render/graph.rs     | 29 +++++++++++++++++++++++------
 src/render/processor.rs |  2 +-
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/render/graph.rs b/src/render/graph.rs
index 52d73ec..38dfa39 100644
--- a/src/render/graph.rs
+++ b/src/render/graph.rs
@@ -63,6 +63,8 @@ pub struct Node {
     has_inputs_connected: bool,
     /// Indicates if the node can act as a cycle breaker (only DelayNode for now)
     cycle_breaker: bool,
+    /// Indicates if the processor has panicked, it outputs silence for the rest of its lifetime
+    failed: bool,
 }
 
 impl std::fmt::Debug for Node {
@@ -129,6 +131,11 @@ impl Node {
             return false;
         }
 
+        // A failed processor will never yield output.
+        if self.failed {
+            return true;
+        }
+
         // When the nodes has no incoming connections:
         if !self.has_inputs_connected {
             // Drop when the processor reports it won't yield output.
@@ -298,6 +305,7 @@ impl Graph {
                 control_handle_dropped: false,
                 has_inputs_connected: false,
                 cycle_breaker: false,
+                failed: false,
             }),
         );
 
@@ -363,7 +371,10 @@ impl Graph {
     }
 
     pub fn route_message(&mut self, index: AudioNodeId, msg: &mut dyn Any) {
-        self.nodes.get_unchecked_mut(index).processor.onmessage(msg);
+        let node = self.nodes.get_unchecked_mut(index);
+        if !node.failed {
+            node.processor.onmessage(msg);
+        }
     }
 
     /// Helper function for `order_nodes` - traverse node and outgoing edges
@@ -593,18 +604,24 @@ impl Graph {
             // let the current node process (catch any panics that may occur)
             let params = AudioParamValues::from(&self.nodes);
             scope.node_id.set(*index);
-            let (success, tail_time) = {
+            let tail_time = if node.failed {
+                false
+            } else {
                 // We are abusing AssertUnwindSafe here, we cannot guarantee it upholds.
                 // This may lead to logic bugs later on, but it is the best that we can do.
                 // The alternative is to crash and reboot the render thread.
                 let catch_me = AssertUnwindSafe(|| node.process(params, scope));
 
                 match panic::catch_unwind(catch_me) {
-                    Ok(tail_time) => (true, tail_time),
+                    Ok(tail_time) => tail_time,
                     Err(e) => {
-                        node.outgoing_edges.clear();
+                        // keep the node, the control thread may still refer to it
+                        node.failed = true;
+                        node.outputs
+                            .iter_mut()
+                            .for_each(AudioRenderQuantum::make_silent);
                         scope.report_error(e);
-                        (false, false)
+                        false
                     }
                 }
             };
@@ -624,7 +641,7 @@ impl Graph {
                     output_node.input_signals[edge.other_index].push(signal);
                 });
 
-            let can_free = !success || node.can_free(tail_time);
+            let can_free = node.can_free(tail_time);
 
             // Node is not dropped.
             if !can_free {
diff --git a/src/render/processor.rs b/src/render/processor.rs
index cc567fd..575d38c 100644
--- a/src/render/processor.rs
+++ b/src/render/processor.rs
@@ -86,7 +86,7 @@ impl AudioWorkletGlobalScope {
             type_name_of_val(&error).to_string()
         };
         eprintln!(
-            "Panic occurred in Audio Processor: '{}'. Removing node from graph.",
+            "Panic occurred in Audio Processor: '{}'. The node outputs silence from now on.",
             &message
         );
 
-- 
2.43.0


From 0a73789f8bd54d7c44b87a5657433b8d917ca676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:22:35 +0000
Subject: [PATCH 63/88] fix: dispatch a single statechange event when offline
 rendering starts

---
 src/render/thread.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/render/thread.rs b/src/render/thread.rs
index c684954..6ac2831 100644
--- a/src/render/thread.rs
+++ b/src/render/thread.rs
@@ -532,10 +532,12 @@ impl RenderThread {
     }
 
     fn set_state(&self, state: AudioContextState) {
-        self.state.store(state as u8, Ordering::Relaxed);
-        self.event_sender
-            .try_send(EventDispatch::state_change(state))
-            .ok();
+        // Do not dispatch an event if the control thread has set this state already
+        if self.state.swap(state as u8, Ordering::Relaxed) != state as u8 {
+            self.event_sender
+                .try_send(EventDispatch::state_change(state))
+                .ok();
+        }
     }
 }
 
-- 
2.43.0


From 88c3782f043f5aa66ba4fa5e3ff6a5c0525cdb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:24:04 +0000
Subject: [PATCH 64/88] fix: keep event handlers set or cleared by the running
 handler

---
 src/events.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/events.rs b/src/events.rs
index 069e9f3..42d690e 100644
--- a/src/events.rs
+++ b/src/events.rs
@@ -169,6 +169,8 @@ impl EventDispatch {
 pub(crate) enum EventHandler {
     Once(Box<dyn FnOnce(EventPayload) + Send + 'static>),
     Multiple(Box<dyn FnMut(EventPayload) + Send + 'static>),
+    /// Placeholder for a handler which is currently running
+    Running,
 }
 
 #[derive(Clone)]
@@ -204,7 +206,12 @@ impl EventLoop {
         }
 
         let mut event_handler_lock = self.event_handlers.lock().unwrap();
-        let callback_option = event_handler_lock.remove(&event.type_);
+        let callback_option = match event_handler_lock.get_mut(&event.type_) {
+            Some(f @ EventHandler::Multiple(_)) => {
+                Some(std::mem::replace(f, EventHandler::Running))
+            }
+            _ => event_handler_lock.remove(&event.type_),
+        };
         drop(event_handler_lock); // release Mutex while running callback
 
         if let Some(callback) = callback_option {
@@ -212,11 +219,15 @@ impl EventLoop {
                 EventHandler::Once(f) => (f)(event.payload),
                 EventHandler::Multiple(mut f) => {
                     (f)(event.payload);
-                    self.event_handlers
-                        .lock()
-                        .unwrap()
-                        .insert(event.type_, EventHandler::Multiple(f));
+                    // restore the handler, unless the callback has replaced or cleared it
+                    let mut event_handler_lock = self.event_handlers.lock().unwrap();
+                    if let Some(handler @ EventHandler::Running) =
+                        event_handler_lock.get_mut(&event.type_)
+                    {
+                        *handler = EventHandler::Multiple(f);
+                    }
                 }
+                EventHandler::Running => (),
             };
         }
 
-- 
2.43.0


From 7abe8d4cc2137b0f459a3a5a0a68f07934fa711b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:26:38 +0000
Subject: [PATCH 65/88] fix: do not run event handlers of decommissioned nodes
 for new nodes

---
 src/context/concrete_base.rs |   2 +
 src/events.rs                | 101 +++++++++++++++++++++++++++++++----
 src/render/graph.rs          |   3 +-
 3 files changed, 95 insertions(+), 11 deletions(-)

diff --git a/src/context/concrete_base.rs b/src/context/concrete_base.rs
index 18bfe22..a86570f 100644
--- a/src/context/concrete_base.rs
+++ b/src/context/concrete_base.rs
@@ -252,6 +252,8 @@ impl ConcreteBaseAudioContext {
                 .lock()
                 .unwrap()
                 .retain(|&(_from, _output, to, _input)| to != id);
+            // Forget the event handlers of the decommissioned node
+            self.inner.event_loop.recycle(id, &self.inner.event_send);
         }
         let registration = AudioContextRegistration {
             id,
diff --git a/src/events.rs b/src/events.rs
index 42d690e..3e62bc0 100644
--- a/src/events.rs
+++ b/src/events.rs
@@ -5,12 +5,12 @@ use crate::context::{AudioContextState, AudioNodeId};
 use crate::{AudioBuffer, AudioRenderCapacityEvent};
 
 use std::any::Any;
-use std::collections::HashMap;
+use std::collections::{HashMap, VecDeque};
 use std::hash::Hash;
 use std::ops::ControlFlow;
 use std::sync::{Arc, Mutex};
 
-use crossbeam_channel::Receiver;
+use crossbeam_channel::{Receiver, Sender};
 
 /// The Event interface
 #[derive(Debug, Clone)]
@@ -31,6 +31,22 @@ pub(crate) enum EventType {
     Message(AudioNodeId),
     Complete,
     AudioProcessing(AudioNodeId),
+    /// The id of a decommissioned node is assigned to a new node
+    Recycled(AudioNodeId),
+}
+
+impl EventType {
+    /// The node this event originates from, if any
+    fn node_id(&self) -> Option<AudioNodeId> {
+        match self {
+            Self::Ended(id)
+            | Self::ProcessorError(id)
+            | Self::Message(id)
+            | Self::AudioProcessing(id)
+            | Self::Recycled(id) => Some(*id),
+            _ => None,
+        }
+    }
 }
 
 /// The Error Event interface
@@ -164,6 +180,13 @@ impl EventDispatch {
             payload: EventPayload::AudioProcessing(value),
         }
     }
+
+    pub fn recycled(id: AudioNodeId) -> Self {
+        EventDispatch {
+            type_: EventType::Recycled(id),
+            payload: EventPayload::None,
+        }
+    }
 }
 
 pub(crate) enum EventHandler {
@@ -173,10 +196,29 @@ pub(crate) enum EventHandler {
     Running,
 }
 
+#[derive(Default)]
+struct EventHandlers {
+    current: HashMap<EventType, EventHandler>,
+    /// Handlers of decommissioned nodes of which the id has been recycled, while their last events
+    /// may still be pending
+    recycled: HashMap<AudioNodeId, VecDeque<HashMap<EventType, EventHandler>>>,
+}
+
+impl EventHandlers {
+    /// The handlers that apply to a pending event
+    fn select(&mut self, event: &EventType) -> &mut HashMap<EventType, EventHandler> {
+        event
+            .node_id()
+            .and_then(|id| self.recycled.get_mut(&id))
+            .and_then(VecDeque::front_mut)
+            .unwrap_or(&mut self.current)
+    }
+}
+
 #[derive(Clone)]
 pub(crate) struct EventLoop {
     event_recv: Receiver<EventDispatch>,
-    event_handlers: Arc<Mutex<HashMap<EventType, EventHandler>>>,
+    event_handlers: Arc<Mutex<EventHandlers>>,
 }
 
 impl EventLoop {
@@ -205,12 +247,18 @@ impl EventLoop {
             panic!("Rethrowing exception during tests: {:?}", e);
         }
 
+        if let EventType::Recycled(id) = event.type_ {
+            self.forget_recycled(id);
+            return result;
+        }
+
         let mut event_handler_lock = self.event_handlers.lock().unwrap();
-        let callback_option = match event_handler_lock.get_mut(&event.type_) {
+        let handlers = event_handler_lock.select(&event.type_);
+        let callback_option = match handlers.get_mut(&event.type_) {
             Some(f @ EventHandler::Multiple(_)) => {
                 Some(std::mem::replace(f, EventHandler::Running))
             }
-            _ => event_handler_lock.remove(&event.type_),
+            _ => handlers.remove(&event.type_),
         };
         drop(event_handler_lock); // release Mutex while running callback
 
@@ -221,9 +269,8 @@ impl EventLoop {
                     (f)(event.payload);
                     // restore the handler, unless the callback has replaced or cleared it
                     let mut event_handler_lock = self.event_handlers.lock().unwrap();
-                    if let Some(handler @ EventHandler::Running) =
-                        event_handler_lock.get_mut(&event.type_)
-                    {
+                    let handlers = event_handler_lock.select(&event.type_);
+                    if let Some(handler @ EventHandler::Running) = handlers.get_mut(&event.type_) {
                         *handler = EventHandler::Multiple(f);
                     }
                 }
@@ -266,10 +313,44 @@ impl EventLoop {
     }
 
     pub fn set_handler(&self, event: EventType, callback: EventHandler) {
-        self.event_handlers.lock().unwrap().insert(event, callback);
+        let mut handlers = self.event_handlers.lock().unwrap();
+        let _previous = handlers.current.insert(event, callback);
+        drop(handlers); // release Mutex before dropping the previous callback
     }
 
     pub fn clear_handler(&self, event: EventType) {
-        self.event_handlers.lock().unwrap().remove(&event);
+        let mut handlers = self.event_handlers.lock().unwrap();
+        let _previous = handlers.current.remove(&event);
+        drop(handlers); // release Mutex before dropping the previous callback
+    }
+
+    /// Set apart the handlers of a decommissioned node, they should not run for the new node with
+    /// the same id
+    pub fn recycle(&self, id: AudioNodeId, event_send: &Sender<EventDispatch>) {
+        let mut handlers = self.event_handlers.lock().unwrap();
+        let (stale, current) = std::mem::take(&mut handlers.current)
+            .into_iter()
+            .partition(|(event, _)| event.node_id() == Some(id));
+        handlers.current = current;
+        handlers.recycled.entry(id).or_default().push_back(stale);
+        drop(handlers);
+
+        if event_send.try_send(EventDispatch::recycled(id)).is_err() {
+            self.forget_recycled(id);
+        }
+    }
+
+    /// Remove the handlers of a decommissioned node, all of its events have been handled
+    fn forget_recycled(&self, id: AudioNodeId) {
+        let mut handlers = self.event_handlers.lock().unwrap();
+        let mut stale = None;
+        if let Some(queue) = handlers.recycled.get_mut(&id) {
+            stale = queue.pop_front();
+            if queue.is_empty() {
+                handlers.recycled.remove(&id);
+            }
+        }
+        drop(handlers); // release Mutex before dropping the callbacks
+        drop(stale);
     }
 }
diff --git a/src/render/graph.rs b/src/render/graph.rs
index 38dfa39..a62d328 100644
--- a/src/render/graph.rs
+++ b/src/render/graph.rs
@@ -660,9 +660,10 @@ impl Graph {
             if can_free {
                 // Node is dropped, remove it from the node list
                 let mut node = self.nodes.remove(*index).into_inner();
+                node.processor.before_drop(scope);
+                // The id may be recycled from now on, all events of the node have been sent
                 self.reclaim_id_channel
                     .push(node.reclaim_id.take().unwrap());
-                node.processor.before_drop(scope);
                 drop(node);
 
                 // And remove it from the ordering after we have processed all nodes
-- 
2.43.0


From 4fc2a06269aab5b42592f733de809cb8820dcd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:29:35 +0000
Subject: [PATCH 66/88] fix: do not resume media streams after an error

---
 src/node/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index 9a13eaf..988b383 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -83,6 +83,12 @@ impl<R: AudioBufferIter> AudioProcessor for MediaStreamRenderer<R> {
         // single output node
         let output = &mut outputs[0];
 
+        // do not resume playback after an error
+        if self.finished {
+            output.make_silent();
+            return false;
+        }
+
         // @note - maybe we need to disciminate between a paused and depleted term
         match self.stream.next() {
             Some(Ok(buffer)) => {
-- 
2.43.0


From 5315fb7d6023fa9acb41814fa80163411fc848fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:31:35 +0000
Subject: [PATCH 67/88] fix: resample audio buffers to a single sample

---
 src/buffer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 60561b1..781fbb7 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -334,7 +334,8 @@ impl AudioBuffer {
         resampled.resize_with(num_channels, || Vec::<f32>::with_capacity(target_length));
 
         for i in 0..target_length {
-            let position = i as f64 / (target_length - 1) as f64; // [0., 1.]
+            // a single sample is the first one
+            let position = i as f64 / (target_length - 1).max(1) as f64; // [0., 1.]
             let playhead = position * (source_length - 1) as f64;
             let playhead_floored = playhead.floor();
             let prev_index = playhead_floored as usize;
-- 
2.43.0


From 3ac7aacb742cd76dadf5bc858ce35071b1d94ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:33:23 +0000
Subject: [PATCH 68/88] fix: deliver nothing after a media recorder has
 stopped, and stop on empty streams

---
 src/media_recorder/mod.rs | 69 ++++++++++++++++++++-------------------
 1 file changed, 36 insertions(+), 33 deletions(-)

diff --git a/src/media_recorder/mod.rs b/src/media_recorder/mod.rs
index 016573e..b6955dd 100644
--- a/src/media_recorder/mod.rs
+++ b/src/media_recorder/mod.rs
@@ -71,34 +71,44 @@ struct MediaRecorderInner {
 impl MediaRecorderInner {
     fn record(&self, buf: AudioBuffer) {
         let mut recorded_data = self.recorded_data.lock().unwrap();
+        if !self.active.load(Ordering::SeqCst) {
+            return; // recording has stopped
+        }
 
         recorded_data.encode_next(buf);
 
         if recorded_data.blob.len() > 128 * 1024 {
-            drop(recorded_data);
-            self.flush();
+            self.flush(&mut recorded_data);
         }
     }
 
-    fn handle_error(&self, error: Box<dyn Error + Send + Sync>) {
-        self.flush();
-
-        if let Some(f) = self.error_callback.lock().unwrap().take() {
-            (f)(ErrorEvent {
-                message: error.to_string(),
-                error: Box::new(error),
-                event: Event {
-                    type_: "ErrorEvent",
-                },
-            })
+    /// Deliver the remaining data and stop, unless the recording has already stopped
+    fn finish(&self, error: Option<Box<dyn Error + Send + Sync>>) {
+        let mut recorded_data = self.recorded_data.lock().unwrap();
+        if !self.active.swap(false, Ordering::SeqCst) {
+            return;
+        }
+        self.flush(&mut recorded_data);
+        drop(recorded_data);
+
+        if let Some(error) = error {
+            if let Some(f) = self.error_callback.lock().unwrap().take() {
+                (f)(ErrorEvent {
+                    message: error.to_string(),
+                    error: Box::new(error),
+                    event: Event {
+                        type_: "ErrorEvent",
+                    },
+                })
+            }
         }
 
-        self.stop();
+        if let Some(f) = self.stop_callback.lock().unwrap().take() {
+            (f)(Event { type_: "StopEvent" })
+        }
     }
 
-    fn flush(&self) {
-        let mut recorded_data = self.recorded_data.lock().unwrap();
-
+    fn flush(&self, recorded_data: &mut RecordedData) {
         let timecode = recorded_data
             .current_timecode
             .duration_since(recorded_data.start_timecode)
@@ -120,14 +130,6 @@ impl MediaRecorderInner {
 
         recorded_data.current_timecode = Instant::now();
     }
-
-    fn stop(&self) {
-        self.active.store(false, Ordering::SeqCst);
-
-        if let Some(f) = self.stop_callback.lock().unwrap().take() {
-            (f)(Event { type_: "StopEvent" })
-        }
-    }
 }
 
 #[non_exhaustive]
@@ -263,9 +265,12 @@ impl MediaRecorder {
             // for now, only record single track
             let mut stream_iter = inner.stream.get_tracks()[0].iter();
             let buf = match stream_iter.next() {
-                None => return,
+                None => {
+                    inner.finish(None);
+                    return;
+                }
                 Some(Err(error)) => {
-                    inner.handle_error(error);
+                    inner.finish(Some(error));
                     return;
                 }
                 Some(Ok(first)) => first,
@@ -276,14 +281,14 @@ impl MediaRecorder {
             *inner.recorded_data.lock().unwrap() = recorded_data;
 
             for item in stream_iter {
-                if !inner.active.load(Ordering::Relaxed) {
+                if !inner.active.load(Ordering::SeqCst) {
                     return; // recording has stopped
                 }
 
                 let buf = match item {
                     Ok(buf) => buf,
                     Err(error) => {
-                        inner.handle_error(error);
+                        inner.finish(Some(error));
                         return;
                     }
                 };
@@ -291,14 +296,12 @@ impl MediaRecorder {
                 inner.record(buf);
             }
 
-            inner.flush();
-            inner.stop();
+            inner.finish(None);
         });
     }
 
     pub fn stop(&self) {
-        self.inner.flush();
-        self.inner.stop();
+        self.inner.finish(None);
     }
 }
 
-- 
2.43.0


From 86ce0b2eec380d0eec43cbd358e63b58ab90fc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:35:59 +0000
Subject: [PATCH 69/88] fix: report the time at which script processor output
 is played

---
 src/node/script_processor.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/node/script_processor.rs b/src/node/script_processor.rs
index 7667118..d1cc165 100644
--- a/src/node/script_processor.rs
+++ b/src/node/script_processor.rs
@@ -238,8 +238,11 @@ impl AudioProcessor for ScriptProcessorRenderer {
             let output_buffer = AudioBuffer::from(output_samples, scope.sample_rate);
 
             // emit event to control thread
-            let playback_time =
-                scope.current_time + self.buffer_size as f64 / scope.sample_rate as f64;
+            // the response will be played after the current output buffer, which starts at the
+            // next render quantum
+            let playback_frame =
+                scope.current_frame + (RENDER_QUANTUM_SIZE + self.buffer_size) as u64;
+            let playback_time = playback_frame as f64 / scope.sample_rate as f64;
             scope.send_audio_processing_event(input_buffer, output_buffer, playback_time);
 
             // clear existing input buffer
-- 
2.43.0


From 97c726bf2305e7fe3a4ed7bfc226f33cda98a1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:36:34 +0000
Subject: [PATCH 70/88] fix: support script processors without output channels
 and any response buffer

---
 src/node/script_processor.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/node/script_processor.rs b/src/node/script_processor.rs
index d1cc165..97a3607 100644
--- a/src/node/script_processor.rs
+++ b/src/node/script_processor.rs
@@ -234,7 +234,9 @@ impl AudioProcessor for ScriptProcessorRenderer {
             let input_buffer = AudioBuffer::from(input_samples, scope.sample_rate);
 
             // create a suitable output AudioBuffer
-            let output_samples = vec![vec![0.; self.buffer_size]; self.number_of_output_channels];
+            // (it has a single unused channel when there are no output channels)
+            let output_channels = self.number_of_output_channels.max(1);
+            let output_samples = vec![vec![0.; self.buffer_size]; output_channels];
             let output_buffer = AudioBuffer::from(output_samples, scope.sample_rate);
 
             // emit event to control thread
@@ -253,7 +255,7 @@ impl AudioProcessor for ScriptProcessorRenderer {
 
             // fill next output buffer with silence (with the right channel count)
             let mut silent_quantum = silence;
-            silent_quantum.set_number_of_channels(self.number_of_output_channels);
+            silent_quantum.set_number_of_channels(output_channels);
             self.next_output_buffer.clear();
             self.next_output_buffer
                 .resize(number_of_quanta, silent_quantum);
@@ -264,11 +266,16 @@ impl AudioProcessor for ScriptProcessorRenderer {
 
     fn onmessage(&mut self, msg: &mut dyn Any) {
         if let Some(buffer) = msg.downcast_mut::<AudioBuffer>() {
-            buffer.channels().iter().enumerate().for_each(|(i, c)| {
+            // the event handler may have replaced the buffer with one of another shape
+            let channels = buffer
+                .channels()
+                .iter()
+                .take(self.number_of_output_channels);
+            channels.enumerate().for_each(|(i, c)| {
                 c.as_slice()
                     .chunks(RENDER_QUANTUM_SIZE)
                     .zip(self.next_output_buffer.iter_mut())
-                    .for_each(|(s, o)| o.channel_data_mut(i).copy_from_slice(s))
+                    .for_each(|(s, o)| o.channel_data_mut(i)[..s.len()].copy_from_slice(s))
             });
             return;
         };
-- 
2.43.0


From 62714836817837ae365197bc0b76f1c902dd5d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:41:28 +0000
Subject: [PATCH 71/88] fix: return an error when a decoder panics on malformed
 input

---
 src/decoding.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/decoding.rs b/src/decoding.rs
index 7bc4136..17659c9 100644
--- a/src/decoding.rs
+++ b/src/decoding.rs
@@ -1,5 +1,6 @@
 use std::error::Error;
 use std::io::{Read, Seek, SeekFrom};
+use std::panic::{catch_unwind, AssertUnwindSafe};
 
 use crate::buffer::{AudioBuffer, ChannelData};
 
@@ -15,6 +16,20 @@ use symphonia::core::meta::MetadataOptions;
 pub(crate) fn decode_media_data<R: std::io::Read + Send + Sync + 'static>(
     input: R,
     target_sample_rate: f32,
+) -> Result<AudioBuffer, Box<dyn std::error::Error + Send + Sync>> {
+    // The decoders may panic on malformed input
+    let decode = AssertUnwindSafe(|| decode_media_data_inner(input, target_sample_rate));
+    catch_unwind(decode).unwrap_or_else(|_| {
+        Err(Box::new(std::io::Error::new(
+            std::io::ErrorKind::InvalidData,
+            "decoder panicked on malformed input",
+        )))
+    })
+}
+
+fn decode_media_data_inner<R: std::io::Read + Send + Sync + 'static>(
+    input: R,
+    target_sample_rate: f32,
 ) -> Result<AudioBuffer, Box<dyn std::error::Error + Send + Sync>> {
     let mut sample_rate = None;
     let mut buffer: Option<AudioBuffer> = None;
-- 
2.43.0


From 030cbd60cea165db08b630237e29a512dbe99b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:52:49 +0000
Subject: [PATCH 72/88] fix: reject script processor buffer sizes that are not
 a power of two

---
 src/node/script_processor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node/script_processor.rs b/src/node/script_processor.rs
index 97a3607..c1cb0a6 100644
--- a/src/node/script_processor.rs
+++ b/src/node/script_processor.rs
@@ -84,7 +84,7 @@ impl ScriptProcessorNode {
         let buffer_size = if buffer_size == 0 { 256 } else { buffer_size };
 
         assert!(
-            (buffer_size / 256).is_power_of_two() && buffer_size <= 16384,
+            buffer_size.is_power_of_two() && (256..=16384).contains(&buffer_size),
             "IndexSizeError - bufferSize must be 0 or one of: 256, 512, 1024, 2048, 4096, 8192, 16384",
         );
 
-- 
2.43.0


From 2ab179906f4d12d57f3a837450ebee2dceefa1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:54:11 +0000
Subject: [PATCH 73/88] fix: keep rendering after a node could not be
 constructed

---
 src/render/node_collection.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/render/node_collection.rs b/src/render/node_collection.rs
index 592eeb7..7f94fc1 100644
--- a/src/render/node_collection.rs
+++ b/src/render/node_collection.rs
@@ -72,7 +72,8 @@ impl NodeCollection {
 
     #[inline(always)]
     pub fn get_mut(&mut self, index: AudioNodeId) -> Option<&mut RefCell<Node>> {
-        self.nodes[index.0 as usize].as_mut()
+        // ids of nodes that could not be constructed are never inserted
+        self.nodes.get_mut(index.0 as usize)?.as_mut()
     }
 
     #[track_caller]
-- 
2.43.0


From 5da9ca9f1df7e68ba4c0f3101070dce6d53a4331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:55:20 +0000
Subject: [PATCH 74/88] fix: ignore automation events that overlap with a value
 curve instead of crashing the renderer

---
 src/param.rs | 94 +++++++++++++++++++++++++++-------------------------
 1 file changed, 48 insertions(+), 46 deletions(-)

diff --git a/src/param.rs b/src/param.rs
index baedc70..0352cd7 100644
--- a/src/param.rs
+++ b/src/param.rs
@@ -764,6 +764,15 @@ impl AudioProcessor for AudioParamProcessor {
         }
 
         if let Some(event) = msg.downcast_mut::<AudioParamEvent>() {
+            // The control thread does not know the timeline, so it is too late to throw. Events
+            // that overlap with a value curve have no effect.
+            if let Some(queued) = self.find_overlapping_event(event) {
+                log::error!(
+                    "NotSupportedError - ignoring automation event ({event:?}) that overlaps with ({queued:?})"
+                );
+                return;
+            }
+
             // Avoid deallocation of the event by replacing it with a tombstone.
             let tombstone_event = AudioParamEvent {
                 event_type: AudioParamEventType::SetValue,
@@ -852,6 +861,40 @@ impl AudioParamProcessor {
         }
     }
 
+    // Find the event in the timeline with which a new event may not be combined
+    // @note - These rules argue in favor of having events inserted in
+    // the control thread
+    fn find_overlapping_event(&self, event: &AudioParamEvent) -> Option<&AudioParamEvent> {
+        match event.event_type {
+            // [spec] If setValueCurveAtTime() is called for time 𝑇 and duration 𝐷
+            // and there are any events having a time strictly greater than 𝑇, but
+            // strictly less than 𝑇+𝐷, then a NotSupportedError exception MUST be thrown.
+            // In other words, it’s not ok to schedule a value curve during a time period
+            // containing other events, but it’s ok to schedule a value curve exactly
+            // at the time of another event.
+            AudioParamEventType::SetValueCurveAtTime => {
+                let start_time = event.time;
+                let end_time = start_time + event.duration.unwrap();
+
+                self.event_timeline
+                    .inner
+                    .iter()
+                    .find(|queued| queued.position() > start_time && queued.position() < end_time)
+            }
+            // @note - Cancel methods are not automation methods
+            AudioParamEventType::CancelScheduledValues
+            | AudioParamEventType::CancelAndHoldAtTime => None,
+            // [spec] Similarly a NotSupportedError exception MUST be thrown if any
+            // automation method is called at a time which is contained in [𝑇,𝑇+𝐷), 𝑇
+            // being the time of the curve and 𝐷 its duration.
+            _ => self.event_timeline.inner.iter().find(|queued| {
+                queued.event_type == AudioParamEventType::SetValueCurveAtTime
+                    && event.time > queued.time
+                    && event.time < queued.curve_end()
+            }),
+        }
+    }
+
     fn handle_incoming_event(&mut self, mut event: AudioParamEvent) {
         // cf. https://www.w3.org/TR/webaudio/#computation-of-value
         // 1. paramIntrinsicValue will be calculated at each time, which is either the
@@ -1036,52 +1079,11 @@ impl AudioParamProcessor {
             return; // cancel_and_hold events are not inserted timeline
         }
 
-        // handle SetValueCurveAtTime
-        // @note - These rules argue in favor of having events inserted in
-        // the control thread, let's panic for now
-        //
-        // [spec] If setValueCurveAtTime() is called for time 𝑇 and duration 𝐷
-        // and there are any events having a time strictly greater than 𝑇, but
-        // strictly less than 𝑇+𝐷, then a NotSupportedError exception MUST be thrown.
-        // In other words, it’s not ok to schedule a value curve during a time period
-        // containing other events, but it’s ok to schedule a value curve exactly
-        // at the time of another event.
-        if event.event_type == AudioParamEventType::SetValueCurveAtTime {
-            // check if we don't try to insert at the time of another event
-            let start_time = event.time;
-            let end_time = start_time + event.duration.unwrap();
-
-            for queued in self.event_timeline.iter() {
-                assert!(
-                    queued.position() <= start_time || queued.position() >= end_time,
-                    "NotSupportedError - scheduling SetValueCurveAtTime ({:?}) at time of another automation event ({:?})",
-                    event, queued,
-                );
-            }
-        }
-
-        // [spec] Similarly a NotSupportedError exception MUST be thrown if any
-        // automation method is called at a time which is contained in [𝑇,𝑇+𝐷), 𝑇
-        // being the time of the curve and 𝐷 its duration.
-        // @note - Cancel methods are not automation methods
-        if event.event_type == AudioParamEventType::SetValueAtTime
-            || event.event_type == AudioParamEventType::SetValue
-            || event.event_type == AudioParamEventType::LinearRampToValueAtTime
-            || event.event_type == AudioParamEventType::ExponentialRampToValueAtTime
-            || event.event_type == AudioParamEventType::SetTargetAtTime
-        {
-            for queued in self.event_timeline.iter() {
-                if queued.event_type == AudioParamEventType::SetValueCurveAtTime {
-                    let start_time = queued.time;
-                    let end_time = queued.curve_end();
-
-                    assert!(
-                        event.time <= start_time || event.time >= end_time,
-                        "NotSupportedError - scheduling automation event ({:?}) during SetValueCurveAtTime ({:?})",
-                        event, queued,
-                    );
-                }
-            }
+        if let Some(queued) = self.find_overlapping_event(&event) {
+            panic!(
+                "NotSupportedError - scheduling automation event ({:?}) overlaps with ({:?})",
+                event, queued,
+            );
         }
 
         // handle SetValue - param intrinsic value must be updated from event value
-- 
2.43.0


From 9019650cafcee2e7db189019098552fa8c8130bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:59:29 +0000
Subject: [PATCH 75/88] fix: contain panics of message handlers of custom
 processors

---
 src/render/graph.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/render/graph.rs b/src/render/graph.rs
index a62d328..44b6cdb 100644
--- a/src/render/graph.rs
+++ b/src/render/graph.rs
@@ -65,6 +65,8 @@ pub struct Node {
     cycle_breaker: bool,
     /// Indicates if the processor has panicked, it outputs silence for the rest of its lifetime
     failed: bool,
+    /// The panic of the message handler of this node, if it has not been reported yet
+    message_error: Option<Box<dyn Any + Send>>,
 }
 
 impl std::fmt::Debug for Node {
@@ -306,6 +308,7 @@ impl Graph {
                 has_inputs_connected: false,
                 cycle_breaker: false,
                 failed: false,
+                message_error: None,
             }),
         );
 
@@ -372,8 +375,10 @@ impl Graph {
 
     pub fn route_message(&mut self, index: AudioNodeId, msg: &mut dyn Any) {
         let node = self.nodes.get_unchecked_mut(index);
-        if !node.failed {
-            node.processor.onmessage(msg);
+        if !node.failed && node.message_error.is_none() {
+            // The failure is reported when the node would be rendered
+            let catch_me = AssertUnwindSafe(|| node.processor.onmessage(msg));
+            node.message_error = panic::catch_unwind(catch_me).err();
         }
     }
 
@@ -610,9 +615,15 @@ impl Graph {
                 // We are abusing AssertUnwindSafe here, we cannot guarantee it upholds.
                 // This may lead to logic bugs later on, but it is the best that we can do.
                 // The alternative is to crash and reboot the render thread.
+                let message_error = node.message_error.take();
                 let catch_me = AssertUnwindSafe(|| node.process(params, scope));
 
-                match panic::catch_unwind(catch_me) {
+                let result = match message_error {
+                    Some(e) => Err(e),
+                    None => panic::catch_unwind(catch_me),
+                };
+
+                match result {
                     Ok(tail_time) => tail_time,
                     Err(e) => {
                         // keep the node, the control thread may still refer to it
-- 
2.43.0


From 3c33ee472d037be5f17045d6f59f81a52bd1fa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:08:41 +0000
Subject: [PATCH 76/88] Add verif_hooks cfg to drive the none sink from a test

---
 src/context/online.rs |  5 +++
 src/io/mod.rs         |  6 ++++
 src/io/none.rs        | 42 +++++++++++++++++++++++
 src/lib.rs            |  4 +++
 src/render/thread.rs  |  5 +++
 src/verif_hooks.rs    | 78 +++++++++++++++++++++++++++++++++++++++++++
 6 files changed, 140 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/context/online.rs b/src/context/online.rs
index a461db9..df73e90 100644
--- a/src/context/online.rs
+++ b/src/context/online.rs
@@ -24,6 +24,11 @@ use futures_channel::oneshot;
 ///
 /// It should be "", "none" or a valid output `sinkId` returned from [`enumerate_devices_sync`]
 fn is_valid_sink_id(sink_id: &str) -> bool {
+    #[cfg(verif_hooks)]
+    if sink_id.starts_with("none") {
+        return true;
+    }
+
     if sink_id.is_empty() || sink_id == "none" {
         true
     } else {
diff --git a/src/io/mod.rs b/src/io/mod.rs
index a132c48..cdb30cf 100644
--- a/src/io/mod.rs
+++ b/src/io/mod.rs
@@ -157,6 +157,12 @@ pub(crate) fn build_output(
         return Ok(Box::new(backend));
     }
 
+    #[cfg(verif_hooks)]
+    if options.sink_id.starts_with("none") {
+        let backend = NoneBackend::build_output(options, render_thread_init)?;
+        return Ok(Box::new(backend));
+    }
+
     #[cfg(feature = "cubeb")]
     {
         let backend = cubeb::CubebBackend::build_output(options, render_thread_init)?;
diff --git a/src/io/none.rs b/src/io/none.rs
index 2cda2e8..70f0bc5 100644
--- a/src/io/none.rs
+++ b/src/io/none.rs
@@ -74,6 +74,24 @@ impl Callback {
     }
 }
 
+#[cfg(verif_hooks)]
+impl crate::verif_hooks::SinkCallback for Callback {
+    fn poll(&mut self) -> Option<bool> {
+        while let Ok(msg) = self.receiver.try_recv() {
+            match msg {
+                NoneBackendMessage::Close => return None,
+                NoneBackendMessage::Resume => self.running = true,
+                NoneBackendMessage::Suspend => self.running = false,
+            }
+        }
+        Some(self.running)
+    }
+
+    fn render(&mut self, buffer: &mut [f32]) {
+        self.render_thread.render(buffer);
+    }
+}
+
 impl AudioBackendManager for NoneBackend {
     /// Setup a new output stream (speakers)
     fn build_output(
@@ -94,6 +112,9 @@ impl AudioBackendManager for NoneBackend {
             event_send,
         } = render_thread_init;
 
+        #[cfg(verif_hooks)]
+        let stats_for_hooks = stats.clone();
+
         let mut render_thread = RenderThread::new(
             sample_rate,
             MAX_CHANNELS,
@@ -104,6 +125,10 @@ impl AudioBackendManager for NoneBackend {
             event_send,
         );
         render_thread.set_startup_pending(startup_pending);
+        #[cfg(verif_hooks)]
+        if let Some(channels) = crate::verif_hooks::channels() {
+            render_thread.set_number_of_channels(channels);
+        }
         render_thread.spawn_garbage_collector_thread();
 
         // Use a bounded channel for real-time safety. A maximum of 32 control messages (resume,
@@ -119,6 +144,18 @@ impl AudioBackendManager for NoneBackend {
             running: true,
         };
 
+        #[cfg(verif_hooks)]
+        if crate::verif_hooks::channels().is_some() {
+            crate::verif_hooks::put_sink(crate::verif_hooks::ManualSink::new(
+                Box::new(callback),
+                stats_for_hooks,
+            ));
+            return Ok(Self {
+                sender,
+                sample_rate,
+            });
+        }
+
         thread::spawn(move || callback.run());
 
         Ok(Self {
@@ -192,6 +229,11 @@ impl AudioBackendManager for NoneBackend {
 
     /// Number of channels of the stream
     fn number_of_channels(&self) -> usize {
+        #[cfg(verif_hooks)]
+        if let Some(channels) = crate::verif_hooks::channels() {
+            return channels;
+        }
+
         MAX_CHANNELS
     }
 
diff --git a/src/lib.rs b/src/lib.rs
index 70d9a77..96e79ce 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -9,6 +9,7 @@
 #![deny(trivial_numeric_casts)]
 #![deny(missing_debug_implementations)]
 #![deny(unsafe_op_in_unsafe_fn)]
+#![allow(unexpected_cfgs)] // for `verif_hooks`
 
 use std::error::Error;
 use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};
@@ -58,6 +59,9 @@ pub use spatial::AudioListener;
 
 mod io;
 
+#[cfg(verif_hooks)]
+pub mod verif_hooks;
+
 mod analysis;
 mod message;
 
diff --git a/src/render/thread.rs b/src/render/thread.rs
index 6ac2831..93b2d73 100644
--- a/src/render/thread.rs
+++ b/src/render/thread.rs
@@ -107,6 +107,11 @@ impl RenderThread {
         }
     }
 
+    #[cfg(verif_hooks)]
+    pub(crate) fn set_number_of_channels(&mut self, number_of_channels: usize) {
+        self.number_of_channels = number_of_channels;
+    }
+
     pub(crate) fn set_startup_pending(&mut self, startup_pending: Arc<AtomicBool>) {
         self.startup_pending = Some(startup_pending);
     }
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..2305ad0
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,78 @@
+//! Test hooks, only compiled with `--cfg verif_hooks`
+//!
+//! Lets a test take the place of the system audio callback: `none` sinks that are opened by a
+//! thread that called [`drive_sinks`] do not spawn a thread of their own, the test fetches them
+//! with [`take_sink`] and requests the audio itself.
+
+use std::cell::{Cell, RefCell};
+
+use crate::stats::AudioStats;
+
+/// The audio callback of a sink
+pub(crate) trait SinkCallback: Send {
+    /// Handle the stream messages, returns if the stream is playing or `None` when it is closed
+    fn poll(&mut self) -> Option<bool>;
+    /// Fill the interleaved buffer
+    fn render(&mut self, buffer: &mut [f32]);
+}
+
+/// Sink that is driven by the test
+pub struct ManualSink {
+    callback: Box<dyn SinkCallback>,
+    stats: AudioStats,
+}
+
+impl std::fmt::Debug for ManualSink {
+    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        f.debug_struct("ManualSink").finish_non_exhaustive()
+    }
+}
+
+impl ManualSink {
+    pub(crate) fn new(callback: Box<dyn SinkCallback>, stats: AudioStats) -> Self {
+        Self { callback, stats }
+    }
+
+    /// Returns if the stream is playing or `None` when it is closed
+    pub fn poll(&mut self) -> Option<bool> {
+        self.callback.poll()
+    }
+
+    /// Request audio, in interleaved format
+    pub fn render(&mut self, buffer: &mut [f32]) {
+        self.callback.render(buffer);
+    }
+
+    /// Record a callback duration in the statistics of the context
+    pub fn record_render_callback(&self, render_ns: u64, budget_ns: u64) {
+        self.stats.record_render_callback(render_ns, budget_ns);
+    }
+
+    /// Record an output latency in the statistics of the context
+    pub fn record_latency_seconds(&self, latency: f64) {
+        self.stats.record_latency_seconds(latency);
+    }
+}
+
+thread_local! {
+    static CHANNELS: Cell<Option<usize>> = const { Cell::new(None) };
+    static SINK: RefCell<Option<ManualSink>> = const { RefCell::new(None) };
+}
+
+/// Drive all `none` sinks opened by this thread manually, with the given number of channels
+pub fn drive_sinks(channels: Option<usize>) {
+    CHANNELS.with(|c| c.set(channels));
+}
+
+/// The sink opened most recently by this thread
+pub fn take_sink() -> Option<ManualSink> {
+    SINK.with(|s| s.borrow_mut().take())
+}
+
+pub(crate) fn channels() -> Option<usize> {
+    CHANNELS.with(Cell::get)
+}
+
+pub(crate) fn put_sink(sink: ManualSink) {
+    SINK.with(|s| *s.borrow_mut() = Some(sink));
+}
-- 
2.43.0


From c96382f66f434b08e78a7966abadaec668107990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:18:28 +0000
Subject: [PATCH 77/88] fix: do not count a latency of zero before the first
 one was recorded

---
 src/stats.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/stats.rs b/src/stats.rs
index c959bf1..12959f1 100644
--- a/src/stats.rs
+++ b/src/stats.rs
@@ -124,6 +124,10 @@ impl AudioStats {
     }
 
     pub(crate) fn reset_latency(&self) {
+        if self.inner.latency_count.load(Ordering::Relaxed) == 0 {
+            return; // there is no current latency to restart with
+        }
+
         let current = self.inner.latest_latency_ns.load(Ordering::Relaxed);
         self.inner.latency_sum_ns.store(current, Ordering::Relaxed);
         self.inner.latency_count.store(1, Ordering::Relaxed);
-- 
2.43.0


From 2cf8f0d73841dd684dd4b7225c1a136b490829b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:47:10 +0000
Subject: [PATCH 78/88] fix: do not deadlock when messages are pending during a
 sink change

---
 src/context/online.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/context/online.rs b/src/context/online.rs
index df73e90..d506beb 100644
--- a/src/context/online.rs
+++ b/src/context/online.rs
@@ -442,10 +442,10 @@ impl AudioContext {
         let message = ControlMessage::Startup { graph };
         ctrl_msg_send.send(message).unwrap();
 
-        // flush the cached msgs
+        // flush the cached msgs, the sender is locked so we cannot use `send_control_msg` for this
         pending_msgs
             .into_iter()
-            .for_each(|m| self.base().send_control_msg(m));
+            .for_each(|m| ctrl_msg_send.send(m).unwrap());
 
         // explicitly release the lock to prevent concurrent render threads
         drop(backend_manager_guard);
-- 
2.43.0


From 17d6685fa7376161feef496091c802700f10b354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:47:10 +0000
Subject: [PATCH 79/88] fix: return to the original sink when a sink change
 fails

---
 src/context/online.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/context/online.rs b/src/context/online.rs
index d506beb..1b8e385 100644
--- a/src/context/online.rs
+++ b/src/context/online.rs
@@ -423,14 +423,25 @@ impl AudioContext {
         backend_manager_guard.close()?;
 
         // hotswap the backend
-        let options = AudioContextOptions {
+        let original_sink_id = backend_manager_guard.sink_id().to_owned();
+        let mut options = AudioContextOptions {
             sample_rate: Some(self.sample_rate()),
             latency_hint: AudioContextLatencyCategory::default(), // todo reuse existing setting
             sink_id,
             render_size_hint: AudioContextRenderSizeCategory::default(), // todo reuse existing setting
         };
         log::debug!("SinkChange: starting audio stream");
-        *backend_manager_guard = io::build_output(options, self.render_thread_init.clone())?;
+        let mut result = Ok(());
+        let backend = io::build_output(options.clone(), self.render_thread_init.clone());
+        *backend_manager_guard = match backend {
+            Ok(backend) => backend,
+            Err(e) => {
+                log::debug!("SinkChange: failed, returning to the original sink");
+                result = Err(e);
+                options.sink_id = original_sink_id;
+                io::build_output(options, self.render_thread_init.clone())?
+            }
+        };
 
         // if the previous backend state was suspend, suspend the new one before shipping the graph
         if original_state == AudioContextState::Suspended {
@@ -450,6 +461,8 @@ impl AudioContext {
         // explicitly release the lock to prevent concurrent render threads
         drop(backend_manager_guard);
 
+        result?;
+
         // trigger event when all the work is done
         let _ = self.base.send_event(EventDispatch::sink_change());
 
-- 
2.43.0


From 317b0b26bc13374ed05be0cb271366d78ae578a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:47:10 +0000
Subject: [PATCH 80/88] fix: keep an audio context running or suspended over
 sink changes

---
 src/context/offline.rs |  5 ++++-
 src/context/online.rs  | 16 ++++++++++------
 src/message.rs         |  8 ++++----
 src/render/thread.rs   |  9 ++++++---
 4 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/context/offline.rs b/src/context/offline.rs
index 603b547..47a6e84 100644
--- a/src/context/offline.rs
+++ b/src/context/offline.rs
@@ -86,7 +86,10 @@ impl OfflineAudioContext {
 
         let (node_id_producer, node_id_consumer) = llq::Queue::new().split();
         let graph = crate::render::graph::Graph::new(node_id_producer);
-        let message = crate::message::ControlMessage::Startup { graph };
+        let message = crate::message::ControlMessage::Startup {
+            graph,
+            suspended: false,
+        };
         sender.send(message).unwrap();
 
         // track number of frames - synced from render thread to control thread
diff --git a/src/context/online.rs b/src/context/online.rs
index 1b8e385..7ff2219 100644
--- a/src/context/online.rs
+++ b/src/context/online.rs
@@ -268,7 +268,10 @@ impl AudioContext {
         // Construct the audio Graph and hand it to the render thread
         let (node_id_producer, node_id_consumer) = llq::Queue::new().split();
         let graph = Graph::new(node_id_producer);
-        let message = ControlMessage::Startup { graph };
+        let message = ControlMessage::Startup {
+            graph,
+            suspended: false,
+        };
         ctrl_msg_send.send(message).unwrap();
 
         // Set up the event loop thread that handles the events spawned by the render thread
@@ -394,14 +397,14 @@ impl AudioContext {
         let mut pending_msgs: Vec<_> = self.render_thread_init.ctrl_msg_recv.try_iter().collect();
 
         // Acquire the active audio graph from the current render thread, shutting it down
-        let graph = if matches!(pending_msgs.first(), Some(ControlMessage::Startup { .. })) {
+        let (graph, suspended) = if matches!(pending_msgs.first(), Some(ControlMessage::Startup { .. })) {
             // Handle the edge case where the previous backend was suspended for its entire lifetime.
             // In this case, the `Startup` control message was never processed.
             log::debug!("SinkChange: recover unstarted graph");
 
             let msg = pending_msgs.remove(0);
             match msg {
-                ControlMessage::Startup { graph } => graph,
+                ControlMessage::Startup { graph, suspended } => (graph, suspended),
                 _ => unreachable!(),
             }
         } else {
@@ -443,14 +446,15 @@ impl AudioContext {
             }
         };
 
-        // if the previous backend state was suspend, suspend the new one before shipping the graph
-        if original_state == AudioContextState::Suspended {
+        // if the graph was suspended, suspend the new backend before shipping the graph
+        if suspended {
             log::debug!("SinkChange: suspending audio stream");
             backend_manager_guard.suspend()?;
         }
 
         // send the audio graph to the new render thread
-        let message = ControlMessage::Startup { graph };
+        self.startup_pending.store(!suspended, Ordering::Release);
+        let message = ControlMessage::Startup { graph, suspended };
         ctrl_msg_send.send(message).unwrap();
 
         // flush the cached msgs, the sender is locked so we cannot use `send_control_msg` for this
diff --git a/src/message.rs b/src/message.rs
index cd766fc..537557a 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -43,13 +43,13 @@ pub(crate) enum ControlMessage {
     /// Mark node as a cycle breaker (DelayNode only)
     MarkCycleBreaker { id: AudioNodeId },
 
-    /// Shut down and recycle the audio graph
+    /// Shut down and recycle the audio graph, also sends if it was suspended
     CloseAndRecycle {
-        sender: crossbeam_channel::Sender<Graph>,
+        sender: crossbeam_channel::Sender<(Graph, bool)>,
     },
 
-    /// Start rendering with given audio graph
-    Startup { graph: Graph },
+    /// Start with given audio graph, rendering right away if it is not suspended
+    Startup { graph: Graph, suspended: bool },
 
     /// Suspend and pause audio processing
     Suspend { notify: OneshotNotify },
diff --git a/src/render/thread.rs b/src/render/thread.rs
index 93b2d73..249dbad 100644
--- a/src/render/thread.rs
+++ b/src/render/thread.rs
@@ -189,17 +189,20 @@ impl RenderThread {
             }
             CloseAndRecycle { sender } => {
                 self.set_state(AudioContextState::Suspended);
-                let _ = sender.send(self.graph.take().unwrap());
+                let _ = sender.send((self.graph.take().unwrap(), self.suspended));
                 self.receiver = None;
                 return ControlFlow::Break(()); // no further handling of ctrl msgs
             }
-            Startup { graph } => {
+            Startup { graph, suspended } => {
                 debug_assert!(self.graph.is_none());
                 self.graph = Some(graph);
+                self.suspended = suspended;
                 if let Some(startup_pending) = self.startup_pending.as_ref() {
                     startup_pending.store(false, Ordering::Release);
                 }
-                self.set_state(AudioContextState::Running);
+                if !suspended {
+                    self.set_state(AudioContextState::Running);
+                }
             }
             NodeMessage { id, mut msg } => {
                 self.graph.as_mut().unwrap().route_message(id, msg.as_mut());
-- 
2.43.0


From 546747c083db1f4ef6a885c4e0cfcd92fd6eda66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:47:10 +0000
Subject: [PATCH 81/88] fix: stop rendering when suspended or recycled halfway
 an audio callback

---
 src/render/thread.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/render/thread.rs b/src/render/thread.rs
index 249dbad..ec13cf6 100644
--- a/src/render/thread.rs
+++ b/src/render/thread.rs
@@ -482,17 +482,17 @@ impl RenderThread {
         // handle addition/removal of nodes/edges
         self.handle_control_messages();
 
-        // if the thread is still booting, suspended, or shutting down, fill with silence
-        if self.suspended || !self.graph.as_ref().is_some_and(Graph::is_active) {
-            output_buffer.fill(S::from_sample_(0.));
-            return;
-        }
-
         // The audio graph is rendered in chunks of RENDER_QUANTUM_SIZE frames.  But some audio backends
         // may not be able to emit chunks of this size.
         let chunk_size = RENDER_QUANTUM_SIZE * self.number_of_channels;
 
         for data in output_buffer.chunks_mut(chunk_size) {
+            // if the thread is still booting, suspended, or shutting down, fill with silence
+            if self.suspended || !self.graph.as_ref().is_some_and(Graph::is_active) {
+                data.fill(S::from_sample_(0.));
+                continue;
+            }
+
             // update time
             let current_frame = self
                 .frames_played
-- 
2.43.0


From 31787dab51c7c3bac6dcd3e104763ea45052ecfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:47:10 +0000
Subject: [PATCH 82/88] fix: keep the messages staged by an earlier suspend
 call

---
 src/context/concrete_base.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/context/concrete_base.rs b/src/context/concrete_base.rs
index a86570f..b510b5c 100644
--- a/src/context/concrete_base.rs
+++ b/src/context/concrete_base.rs
@@ -308,7 +308,11 @@ impl ConcreteBaseAudioContext {
 
     pub(crate) fn suspend_control_msgs(&self, msg: ControlMessage) {
         let sender = self.inner.render_channel.read().unwrap();
-        *self.inner.suspended_messages.lock().unwrap() = Some(Vec::new());
+        self.inner
+            .suspended_messages
+            .lock()
+            .unwrap()
+            .get_or_insert_default();
         if sender.send(msg).is_err() {
             log::warn!("Discarding control message - render thread is closed");
         }
-- 
2.43.0


From 02b283f5a9dd4f9035e4b901569b15c6742f89d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:47:10 +0000
Subject: [PATCH 83/88] fix: end the thread of the none backend when its
 context is dropped

---
 src/io/none.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/io/none.rs b/src/io/none.rs
index 70f0bc5..645d927 100644
--- a/src/io/none.rs
+++ b/src/io/none.rs
@@ -11,7 +11,7 @@ use crate::media_devices::MediaDeviceInfo;
 use crate::render::RenderThread;
 use crate::{MAX_CHANNELS, RENDER_QUANTUM_SIZE};
 
-use crossbeam_channel::{Receiver, Sender};
+use crossbeam_channel::{Receiver, RecvTimeoutError, Sender};
 
 enum NoneBackendMessage {
     Resume,
@@ -53,15 +53,18 @@ impl Callback {
 
         loop {
             // poll the receiver as long as the deadline is in the future
-            while let Ok(msg) = self.receiver.recv_deadline(deadline) {
-                match msg {
-                    NoneBackendMessage::Close => return,
-                    NoneBackendMessage::Resume => {
+            loop {
+                match self.receiver.recv_deadline(deadline) {
+                    // the audio context is dropped
+                    Err(RecvTimeoutError::Disconnected) => return,
+                    Err(RecvTimeoutError::Timeout) => break,
+                    Ok(NoneBackendMessage::Close) => return,
+                    Ok(NoneBackendMessage::Resume) => {
                         self.running = true;
                         deadline = Instant::now().checked_add(interval).unwrap();
                         break; // start processing right away
                     }
-                    NoneBackendMessage::Suspend => self.running = false,
+                    Ok(NoneBackendMessage::Suspend) => self.running = false,
                 }
             }
 
-- 
2.43.0


From 7a41561358cf0534e6df51b7f163f71d1d6c2b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:11:18 +0000
Subject: [PATCH 84/88] fix: do not take pending messages from the render
 thread during a sink change

---
 src/context/online.rs | 47 +++++++++++++------------------------------
 1 file changed, 14 insertions(+), 33 deletions(-)

diff --git a/src/context/online.rs b/src/context/online.rs
index 7ff2219..b25d688 100644
--- a/src/context/online.rs
+++ b/src/context/online.rs
@@ -369,7 +369,7 @@ impl AudioContext {
     ///
     /// This function operates synchronously and might block the current thread. An async version
     /// is currently not implemented.
-    #[allow(clippy::needless_collect, clippy::missing_panics_doc)]
+    #[allow(clippy::missing_panics_doc)]
     pub fn set_sink_id_sync(&self, sink_id: String) -> Result<(), Box<dyn Error>> {
         log::debug!("SinkChange requested");
         if self.sink_id() == sink_id {
@@ -393,34 +393,20 @@ impl AudioContext {
         log::debug!("SinkChange: locking message channel");
         let ctrl_msg_send = self.base.lock_control_msg_sender();
 
-        // Flush out the ctrl msg receiver, cache
-        let mut pending_msgs: Vec<_> = self.render_thread_init.ctrl_msg_recv.try_iter().collect();
-
-        // Acquire the active audio graph from the current render thread, shutting it down
-        let (graph, suspended) = if matches!(pending_msgs.first(), Some(ControlMessage::Startup { .. })) {
-            // Handle the edge case where the previous backend was suspended for its entire lifetime.
-            // In this case, the `Startup` control message was never processed.
-            log::debug!("SinkChange: recover unstarted graph");
+        if original_state == AudioContextState::Suspended {
+            // We must wake up the render thread to be able to handle the shutdown.
+            // No new audio will be produced because the audio graph is suspended.
+            backend_manager_guard.resume()?;
+        }
 
-            let msg = pending_msgs.remove(0);
-            match msg {
-                ControlMessage::Startup { graph, suspended } => (graph, suspended),
-                _ => unreachable!(),
-            }
-        } else {
-            // Acquire the audio graph from the current render thread, shutting it down
-            log::debug!("SinkChange: recover graph from render thread");
-
-            let (graph_send, graph_recv) = crossbeam_channel::bounded(1);
-            let message = ControlMessage::CloseAndRecycle { sender: graph_send };
-            ctrl_msg_send.send(message).unwrap();
-            if original_state == AudioContextState::Suspended {
-                // We must wake up the render thread to be able to handle the shutdown.
-                // No new audio will be produced because it will receive the shutdown command first.
-                backend_manager_guard.resume()?;
-            }
-            graph_recv.recv().unwrap()
-        };
+        // Acquire the audio graph from the current render thread, shutting it down. All pending
+        // messages (possibly including `Startup`) are handled before that. We should not receive
+        // these here because the render thread is doing the same.
+        log::debug!("SinkChange: recover graph from render thread");
+        let (graph_send, graph_recv) = crossbeam_channel::bounded(1);
+        let message = ControlMessage::CloseAndRecycle { sender: graph_send };
+        ctrl_msg_send.send(message).unwrap();
+        let (graph, suspended) = graph_recv.recv().unwrap();
 
         log::debug!("SinkChange: closing audio stream");
         backend_manager_guard.close()?;
@@ -457,11 +443,6 @@ impl AudioContext {
         let message = ControlMessage::Startup { graph, suspended };
         ctrl_msg_send.send(message).unwrap();
 
-        // flush the cached msgs, the sender is locked so we cannot use `send_control_msg` for this
-        pending_msgs
-            .into_iter()
-            .for_each(|m| ctrl_msg_send.send(m).unwrap());
-
         // explicitly release the lock to prevent concurrent render threads
         drop(backend_manager_guard);
 
-- 
2.43.0


From 13f9e0807ff5073eecda3d06bf20e38392667153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:12:41 +0000
Subject: [PATCH 85/88] fix: deliver staged messages in order when other
 threads send messages during a resume

---
 src/context/concrete_base.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/context/concrete_base.rs b/src/context/concrete_base.rs
index b510b5c..09ab839 100644
--- a/src/context/concrete_base.rs
+++ b/src/context/concrete_base.rs
@@ -320,15 +320,10 @@ impl ConcreteBaseAudioContext {
 
     pub(crate) fn resume_control_msgs(&self, msg: ControlMessage) {
         let sender = self.inner.render_channel.read().unwrap();
-        let messages = self
-            .inner
-            .suspended_messages
-            .lock()
-            .unwrap()
-            .take()
-            .unwrap_or_default();
+        // Hold the lock, other threads should not send messages ahead of the staged ones
+        let mut suspended_messages = self.inner.suspended_messages.lock().unwrap();
 
-        for msg in messages {
+        for msg in suspended_messages.take().unwrap_or_default() {
             if sender.send(msg).is_err() {
                 log::warn!("Discarding control message - render thread is closed");
                 return;
-- 
2.43.0


From 9f2b80972dafb70fef21ce50585ab3950826572a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:15:09 +0000
Subject: [PATCH 86/88] fix: let calls that overlap with closing an audio
 context return, and stay closed

---
 src/context/concrete_base.rs |  13 ++++
 src/context/online.rs        | 138 ++++++++++++++++++++++-------------
 src/render/thread.rs         |  18 ++++-
 3 files changed, 116 insertions(+), 53 deletions(-)

diff --git a/src/context/concrete_base.rs b/src/context/concrete_base.rs
index 09ab839..a481734 100644
--- a/src/context/concrete_base.rs
+++ b/src/context/concrete_base.rs
@@ -318,6 +318,19 @@ impl ConcreteBaseAudioContext {
         }
     }
 
+    /// Returns true when messages are staged, i.e. in between suspending and resuming
+    pub(crate) fn control_msgs_suspended(&self) -> bool {
+        self.inner.suspended_messages.lock().unwrap().is_some()
+    }
+
+    /// Send a control message to the render thread, even when it is about to be suspended
+    pub(crate) fn send_control_msg_unstaged(&self, msg: ControlMessage) {
+        let sender = self.inner.render_channel.read().unwrap();
+        if sender.send(msg).is_err() {
+            log::warn!("Discarding control message - render thread is closed");
+        }
+    }
+
     pub(crate) fn resume_control_msgs(&self, msg: ControlMessage) {
         let sender = self.inner.render_channel.read().unwrap();
         // Hold the lock, other threads should not send messages ahead of the staged ones
diff --git a/src/context/online.rs b/src/context/online.rs
index b25d688..92e7149 100644
--- a/src/context/online.rs
+++ b/src/context/online.rs
@@ -151,6 +151,8 @@ pub struct AudioContext {
     playback_stats: AudioPlaybackStats,
     /// true while the render thread has not yet processed its initial Startup message
     startup_pending: std::sync::Arc<AtomicBool>,
+    /// true when the context is being closed
+    closing: AtomicBool,
     /// Initializer for the render thread (when restart is required)
     render_thread_init: RenderThreadInit,
 }
@@ -305,6 +307,7 @@ impl AudioContext {
             render_capacity,
             playback_stats,
             startup_pending,
+            closing: AtomicBool::new(false),
             render_thread_init,
         })
     }
@@ -384,7 +387,7 @@ impl AudioContext {
         log::debug!("SinkChange: locking backend manager");
         let mut backend_manager_guard = self.backend_manager.lock().unwrap();
         let original_state = self.state();
-        if original_state == AudioContextState::Closed {
+        if self.closing.load(Ordering::Acquire) {
             log::debug!("SinkChange: context is closed");
             return Ok(());
         }
@@ -524,38 +527,47 @@ impl AudioContext {
     /// * The audio device is not available
     /// * For a `BackendSpecificError`
     pub async fn suspend(&self) {
-        // Don't lock the backend manager because we can't hold is across the await point
-        log::debug!("Suspend called");
+        let (sender, receiver) = oneshot::channel();
 
-        let state = self.state();
-        if state == AudioContextState::Closed {
-            log::debug!("Suspend no-op - context is closed");
-            return;
-        }
+        {
+            // Lock the backend manager mutex to avoid concurrent calls
+            log::debug!("Suspend called, locking backend manager");
+            let _backend_manager_guard = self.backend_manager.lock().unwrap();
 
-        if state != AudioContextState::Running && !self.startup_pending.load(Ordering::Acquire) {
-            log::debug!("Suspend no-op - context is not running");
-            return;
-        }
+            if self.closing.load(Ordering::Acquire) {
+                log::debug!("Suspend no-op - context is closed");
+                return;
+            }
 
-        // Pause rendering via a control message
-        let (sender, receiver) = oneshot::channel();
-        let notify = OneshotNotify::Async(sender);
-        self.base
-            .suspend_control_msgs(ControlMessage::Suspend { notify });
+            if self.state() != AudioContextState::Running
+                && !self.startup_pending.load(Ordering::Acquire)
+            {
+                log::debug!("Suspend no-op - context is not running");
+                return;
+            }
+
+            // Pause rendering via a control message
+            let notify = OneshotNotify::Async(sender);
+            self.base
+                .suspend_control_msgs(ControlMessage::Suspend { notify });
+
+            // Drop the Mutex guard so we won't hold it across an await point
+        }
 
         // Wait for the render thread to have processed the suspend message.
         // The AudioContextState will be updated by the render thread.
         log::debug!("Suspending audio graph, waiting for signal..");
-        receiver.await.unwrap();
+        receiver.await.ok();
 
-        // Then ask the audio host to suspend the stream
+        // Then ask the audio host to suspend the stream, unless the context has been resumed or
+        // closed in the meantime
         log::debug!("Suspended audio graph. Suspending audio stream..");
-        self.backend_manager
-            .lock()
-            .unwrap()
-            .suspend()
-            .unwrap_or_else(|e| panic!("InvalidStateError - {e}"));
+        let backend_manager_guard = self.backend_manager.lock().unwrap();
+        if !self.closing.load(Ordering::Acquire) && self.base.control_msgs_suspended() {
+            backend_manager_guard
+                .suspend()
+                .unwrap_or_else(|e| panic!("InvalidStateError - {e}"));
+        }
 
         log::debug!("Suspended audio stream");
     }
@@ -577,7 +589,8 @@ impl AudioContext {
             log::debug!("Resume called, locking backend manager");
             let backend_manager_guard = self.backend_manager.lock().unwrap();
 
-            if self.state() != AudioContextState::Suspended {
+            if self.state() != AudioContextState::Suspended || self.closing.load(Ordering::Acquire)
+            {
                 log::debug!("Resume no-op - context is not suspended");
                 return;
             }
@@ -598,7 +611,7 @@ impl AudioContext {
 
         // Wait for the render thread to have processed the resume message
         // The AudioContextState will be updated by the render thread.
-        receiver.await.unwrap();
+        receiver.await.ok();
         log::debug!("Resumed audio graph");
     }
 
@@ -611,32 +624,40 @@ impl AudioContext {
     ///
     /// Will panic when this function is called multiple times
     pub async fn close(&self) {
-        // Don't lock the backend manager because we can't hold is across the await point
-        log::debug!("Close called");
+        let (sender, receiver) = oneshot::channel();
 
-        if self.state() == AudioContextState::Closed {
-            log::debug!("Close no-op - context is already closed");
-            return;
-        }
+        {
+            // Lock the backend manager mutex to avoid concurrent calls
+            log::debug!("Close called, locking backend manager");
+            let _backend_manager_guard = self.backend_manager.lock().unwrap();
 
-        // Stop AudioRenderCapacity before closing so no capacity events are queued during shutdown.
-        self.render_capacity.stop();
+            if self.closing.swap(true, Ordering::AcqRel) {
+                log::debug!("Close no-op - context is already closed");
+                return;
+            }
 
-        if self.state() == AudioContextState::Running {
-            // First, stop rendering via a control message
-            let (sender, receiver) = oneshot::channel();
-            let notify = OneshotNotify::Async(sender);
-            self.base.send_control_msg(ControlMessage::Close { notify });
+            // Stop AudioRenderCapacity before closing so no capacity events are queued during shutdown.
+            self.render_capacity.stop();
+
+            if self.state() == AudioContextState::Running {
+                // First, stop rendering via a control message
+                let notify = OneshotNotify::Async(sender);
+                self.base
+                    .send_control_msg_unstaged(ControlMessage::Close { notify });
+            } else {
+                // if the context is not running, change the state manually
+                self.base.set_state(AudioContextState::Closed);
+                drop(sender);
+            }
 
-            // Wait for the render thread to have processed the suspend message.
-            // The AudioContextState will be updated by the render thread.
-            log::debug!("Suspending audio graph, waiting for signal..");
-            receiver.await.unwrap();
-        } else {
-            // if the context is not running, change the state manually
-            self.base.set_state(AudioContextState::Closed);
+            // Drop the Mutex guard so we won't hold it across an await point
         }
 
+        // Wait for the render thread to have processed the close message.
+        // The AudioContextState will be updated by the render thread.
+        log::debug!("Suspending audio graph, waiting for signal..");
+        receiver.await.ok();
+
         // Then ask the audio host to close the stream
         log::debug!("Suspended audio graph. Closing audio stream..");
         self.backend_manager
@@ -644,6 +665,7 @@ impl AudioContext {
             .unwrap()
             .close()
             .unwrap_or_else(|e| panic!("InvalidStateError - {e}"));
+        self.discard_control_msgs();
 
         log::debug!("Closed audio stream");
     }
@@ -667,13 +689,14 @@ impl AudioContext {
         log::debug!("Suspend_sync called, locking backend manager");
         let backend_manager_guard = self.backend_manager.lock().unwrap();
 
-        let state = self.state();
-        if state == AudioContextState::Closed {
+        if self.closing.load(Ordering::Acquire) {
             log::debug!("Suspend_sync no-op - context is closed");
             return;
         }
 
-        if state != AudioContextState::Running && !self.startup_pending.load(Ordering::Acquire) {
+        if self.state() != AudioContextState::Running
+            && !self.startup_pending.load(Ordering::Acquire)
+        {
             log::debug!("Suspend_sync no-op - context is not running");
             return;
         }
@@ -715,7 +738,7 @@ impl AudioContext {
         log::debug!("Resume_sync called, locking backend manager");
         let backend_manager_guard = self.backend_manager.lock().unwrap();
 
-        if self.state() != AudioContextState::Suspended {
+        if self.state() != AudioContextState::Suspended || self.closing.load(Ordering::Acquire) {
             log::debug!("Resume no-op - context is not suspended");
             return;
         }
@@ -754,7 +777,7 @@ impl AudioContext {
         log::debug!("Close_sync called, locking backend manager");
         let backend_manager_guard = self.backend_manager.lock().unwrap();
 
-        if self.state() == AudioContextState::Closed {
+        if self.closing.swap(true, Ordering::AcqRel) {
             log::debug!("Close no-op - context is already closed");
             return;
         }
@@ -766,7 +789,8 @@ impl AudioContext {
         if self.state() == AudioContextState::Running {
             let (sender, receiver) = crossbeam_channel::bounded(0);
             let notify = OneshotNotify::Sync(sender);
-            self.base.send_control_msg(ControlMessage::Close { notify });
+            self.base
+                .send_control_msg_unstaged(ControlMessage::Close { notify });
 
             // Wait for the render thread to have processed the suspend message.
             // The AudioContextState will be updated by the render thread.
@@ -782,10 +806,20 @@ impl AudioContext {
         backend_manager_guard
             .close()
             .unwrap_or_else(|e| panic!("InvalidStateError - {e}"));
+        self.discard_control_msgs();
 
         log::debug!("Closed audio stream");
     }
 
+    /// Discard the messages that were not handled before closing, to release callers that are
+    /// waiting for them
+    fn discard_control_msgs(&self) {
+        self.render_thread_init
+            .ctrl_msg_recv
+            .try_iter()
+            .for_each(drop);
+    }
+
     /// Creates a [`MediaStreamAudioSourceNode`](node::MediaStreamAudioSourceNode) from a
     /// [`MediaStream`]
     #[must_use]
diff --git a/src/render/thread.rs b/src/render/thread.rs
index ec13cf6..0d505a6 100644
--- a/src/render/thread.rs
+++ b/src/render/thread.rs
@@ -131,6 +131,10 @@ impl RenderThread {
         }
 
         while let Ok(msg) = self.receiver.as_ref().unwrap().try_recv() {
+            // Once closed, the control thread takes messages from the channel too
+            if self.is_closed() {
+                continue;
+            }
             let result = self.handle_control_message(msg);
             if result.is_break() {
                 return; // stop processing
@@ -488,7 +492,10 @@ impl RenderThread {
 
         for data in output_buffer.chunks_mut(chunk_size) {
             // if the thread is still booting, suspended, or shutting down, fill with silence
-            if self.suspended || !self.graph.as_ref().is_some_and(Graph::is_active) {
+            if self.suspended
+                || self.is_closed()
+                || !self.graph.as_ref().is_some_and(Graph::is_active)
+            {
                 data.fill(S::from_sample_(0.));
                 continue;
             }
@@ -539,7 +546,16 @@ impl RenderThread {
         }
     }
 
+    fn is_closed(&self) -> bool {
+        self.state.load(Ordering::Acquire) == AudioContextState::Closed as u8
+    }
+
     fn set_state(&self, state: AudioContextState) {
+        // The control thread may close the context while it is not running, this is final
+        if self.is_closed() {
+            return;
+        }
+
         // Do not dispatch an event if the control thread has set this state already
         if self.state.swap(state as u8, Ordering::Relaxed) != state as u8 {
             self.event_sender
-- 
2.43.0


From 277e0b845e77a43cfb7391fac2cca83368fd2224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:23:28 +0000
Subject: [PATCH 87/88] fix: do not ignore a suspend call right when an audio
 context starts

---
 src/context/online.rs |  8 ++++----
 src/render/thread.rs  | 18 +++++++++++-------
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/context/online.rs b/src/context/online.rs
index 92e7149..7b87faf 100644
--- a/src/context/online.rs
+++ b/src/context/online.rs
@@ -539,8 +539,8 @@ impl AudioContext {
                 return;
             }
 
-            if self.state() != AudioContextState::Running
-                && !self.startup_pending.load(Ordering::Acquire)
+            if !self.startup_pending.load(Ordering::Acquire)
+                && self.state() != AudioContextState::Running
             {
                 log::debug!("Suspend no-op - context is not running");
                 return;
@@ -694,8 +694,8 @@ impl AudioContext {
             return;
         }
 
-        if self.state() != AudioContextState::Running
-            && !self.startup_pending.load(Ordering::Acquire)
+        if !self.startup_pending.load(Ordering::Acquire)
+            && self.state() != AudioContextState::Running
         {
             log::debug!("Suspend_sync no-op - context is not running");
             return;
diff --git a/src/render/thread.rs b/src/render/thread.rs
index 0d505a6..ebda3b0 100644
--- a/src/render/thread.rs
+++ b/src/render/thread.rs
@@ -201,12 +201,13 @@ impl RenderThread {
                 debug_assert!(self.graph.is_none());
                 self.graph = Some(graph);
                 self.suspended = suspended;
-                if let Some(startup_pending) = self.startup_pending.as_ref() {
-                    startup_pending.store(false, Ordering::Release);
-                }
                 if !suspended {
                     self.set_state(AudioContextState::Running);
                 }
+                // Only after the state change, the control thread relies on either of them
+                if let Some(startup_pending) = self.startup_pending.as_ref() {
+                    startup_pending.store(false, Ordering::Release);
+                }
             }
             NodeMessage { id, mut msg } => {
                 self.graph.as_mut().unwrap().route_message(id, msg.as_mut());
@@ -552,12 +553,15 @@ impl RenderThread {
 
     fn set_state(&self, state: AudioContextState) {
         // The control thread may close the context while it is not running, this is final
-        if self.is_closed() {
-            return;
-        }
+        let closed = AudioContextState::Closed as u8;
+        let previous = self
+            .state
+            .fetch_update(Ordering::AcqRel, Ordering::Acquire, |s| {
+                (s != closed).then_some(state as u8)
+            });
 
         // Do not dispatch an event if the control thread has set this state already
-        if self.state.swap(state as u8, Ordering::Relaxed) != state as u8 {
+        if previous.is_ok_and(|s| s != state as u8) {
             self.event_sender
                 .try_send(EventDispatch::state_change(state))
                 .ok();
-- 
2.43.0


From ced91e801b3025909852de9022c87fe229b948ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:29:09 +0000
Subject: [PATCH 88/88] fix: let concurrent suspend calls return

---
 src/context/online.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/context/online.rs b/src/context/online.rs
index 7b87faf..1befc8e 100644
--- a/src/context/online.rs
+++ b/src/context/online.rs
@@ -560,10 +560,14 @@ impl AudioContext {
         receiver.await.ok();
 
         // Then ask the audio host to suspend the stream, unless the context has been resumed or
-        // closed in the meantime
+        // closed in the meantime. When there are messages left, a concurrent call is waiting for
+        // one of these and will suspend the stream when it has been handled.
         log::debug!("Suspended audio graph. Suspending audio stream..");
         let backend_manager_guard = self.backend_manager.lock().unwrap();
-        if !self.closing.load(Ordering::Acquire) && self.base.control_msgs_suspended() {
+        if !self.closing.load(Ordering::Acquire)
+            && self.base.control_msgs_suspended()
+            && self.render_thread_init.ctrl_msg_recv.is_empty()
+        {
             backend_manager_guard
                 .suspend()
                 .unwrap_or_else(|e| panic!("InvalidStateError - {e}"));
-- 
2.43.0

