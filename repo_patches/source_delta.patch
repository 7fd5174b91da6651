From d03b1f7815df384ead74884949af886f1a6a8571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:44 +0000
Subject: [PATCH 001/122] fix: voice allocator left a reused voice assigned to
 the note that ended on it

A voice that ended by itself kept its old note in noteToVoice, so a later
note off (or note on) of that note released (retriggered) the voice while it
played another note.
---
 pkg/framework/voice/allocator.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pkg/framework/voice/allocator.go b/pkg/framework/voice/allocator.go
index 07871fa..8649f7f 100644
--- a/pkg/framework/voice/allocator.go
+++ b/pkg/framework/voice/allocator.go
@@ -234,11 +234,27 @@ func (a *Allocator) noteOnPoly(note uint8, velocity uint8) {
 		}
 	}
 
-	// Allocate the voice
+	// Allocate the voice; a note that ended on it without a note off loses it
+	a.unassignVoice(voiceIdx)
 	a.voices[voiceIdx].TriggerNote(note, velocity)
 	a.noteToVoice[note] = []int{voiceIdx}
 }
 
+// unassignVoice removes a voice from the note it was last assigned to
+func (a *Allocator) unassignVoice(voiceIdx int) {
+	for note, voices := range a.noteToVoice {
+		for i, idx := range voices {
+			if idx == voiceIdx {
+				a.noteToVoice[note] = append(voices[:i], voices[i+1:]...)
+				if len(a.noteToVoice[note]) == 0 {
+					delete(a.noteToVoice, note)
+				}
+				break
+			}
+		}
+	}
+}
+
 // noteOffPoly handles poly mode note off
 func (a *Allocator) noteOffPoly(note uint8, velocity uint8) {
 	if voices, exists := a.noteToVoice[note]; exists {
-- 
2.43.0


From 206ffb0a06d2aaecbd68e125b9aebdb9c448444b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:44 +0000
Subject: [PATCH 002/122] fix: lifting the sustain pedal released keys that had
 been pressed again

---
 pkg/framework/voice/allocator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/framework/voice/allocator.go b/pkg/framework/voice/allocator.go
index 8649f7f..e7b2f73 100644
--- a/pkg/framework/voice/allocator.go
+++ b/pkg/framework/voice/allocator.go
@@ -145,6 +145,9 @@ func (a *Allocator) ProcessEvent(event midi.Event) {
 
 // NoteOn handles a note on event
 func (a *Allocator) NoteOn(note uint8, velocity uint8) {
+	// The key is down again: lifting the pedal must not release it
+	delete(a.sustainedNotes, note)
+
 	switch a.mode {
 	case ModePoly:
 		a.noteOnPoly(note, velocity)
-- 
2.43.0


From b66d56115ad18eb7c27ca735ba5459915ace493a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:44 +0000
Subject: [PATCH 003/122] fix: voices above a lowered polyphony limit kept
 sounding and could get stuck

---
 pkg/framework/voice/allocator.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/framework/voice/allocator.go b/pkg/framework/voice/allocator.go
index e7b2f73..1a76173 100644
--- a/pkg/framework/voice/allocator.go
+++ b/pkg/framework/voice/allocator.go
@@ -112,6 +112,12 @@ func (a *Allocator) SetMaxVoices(max int) {
 		max = 1
 	}
 	a.maxVoices = max
+
+	// Voices above the limit are no longer managed: stop them
+	for i := max; i < len(a.voices); i++ {
+		a.voices[i].Stop()
+		a.unassignVoice(i)
+	}
 }
 
 // SetUnisonDetune sets the detune amount for unison mode (in cents)
-- 
2.43.0


From 5cdaa0020ac60729d0f2bd7b665cc0d388959400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:44 +0000
Subject: [PATCH 004/122] fix: legato mode retriggered over a held note 0 and
 stayed silent after a voice that ended by itself

---
 pkg/framework/voice/allocator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/framework/voice/allocator.go b/pkg/framework/voice/allocator.go
index 1a76173..72697ba 100644
--- a/pkg/framework/voice/allocator.go
+++ b/pkg/framework/voice/allocator.go
@@ -291,7 +291,7 @@ func (a *Allocator) noteOnMono(note uint8, velocity uint8) {
 
 // noteOnLegato handles legato mode note on
 func (a *Allocator) noteOnLegato(note uint8, velocity uint8) {
-	if a.currentNote == 0 {
+	if len(a.noteToVoice) == 0 || !a.voices[0].IsActive() {
 		// First note, trigger normally
 		a.noteOnMono(note, velocity)
 	} else {
-- 
2.43.0


From 86fc35c46a862dd81ec896fd476c36816321da69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:57 +0000
Subject: [PATCH 005/122] fix: parameter changes at the same sample offset
 could be reordered

SortParameterChanges used an unstable sort, so with more than a dozen queued
changes two changes of one parameter at one offset could swap and leave the
older value in effect.
---
 pkg/framework/process/context.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/framework/process/context.go b/pkg/framework/process/context.go
index 2671989..6dd8ccf 100644
--- a/pkg/framework/process/context.go
+++ b/pkg/framework/process/context.go
@@ -248,7 +248,8 @@ func (c *Context) ResetParameterChanges() {
 func (c *Context) SortParameterChanges() {
 	if c.changeCount > 1 {
 		// Sort only the active portion of the slice
-		sort.Slice(c.paramChanges[:c.changeCount], func(i, j int) bool {
+		// Stable: changes at the same offset stay in the order the host sent them
+		sort.SliceStable(c.paramChanges[:c.changeCount], func(i, j int) bool {
 			return c.paramChanges[i].SampleOffset < c.paramChanges[j].SampleOffset
 		})
 	}
-- 
2.43.0


From f17f847b1011f30cbe18472a9eae234cfe185784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:15 +0000
Subject: [PATCH 006/122] fix: setting a parameter to NaN stored a value
 outside 0..1

---
 pkg/framework/param/parameter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/framework/param/parameter.go b/pkg/framework/param/parameter.go
index 8922c92..17c929a 100644
--- a/pkg/framework/param/parameter.go
+++ b/pkg/framework/param/parameter.go
@@ -48,8 +48,8 @@ func (p *Parameter) GetValue() float64 {
 
 // SetValue sets the normalized value (0-1)
 func (p *Parameter) SetValue(value float64) {
-	// Clamp to 0-1
-	if value < 0 {
+	// Clamp to 0-1 (NaN becomes 0)
+	if !(value > 0) {
 		value = 0
 	} else if value > 1 {
 		value = 1
-- 
2.43.0


From e96fce3f086808c470f46a75376781705323e46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:15 +0000
Subject: [PATCH 007/122] fix: automatic parameter IDs collided with IDs taken
 explicitly

---
 pkg/framework/param/registry_auto.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/framework/param/registry_auto.go b/pkg/framework/param/registry_auto.go
index 5a9a8a4..ed56821 100644
--- a/pkg/framework/param/registry_auto.go
+++ b/pkg/framework/param/registry_auto.go
@@ -46,6 +46,9 @@ func (r *AutoRegistry) Register(params ...*Parameter) error {
 		// Assign new ID if auto-enabled and ID is 0
 		if r.autoEnabled && p.ID == 0 {
 			p.ID = r.nextID.Add(1) - 1
+			for r.params[p.ID] != nil { // taken by an explicit ID
+				p.ID = r.nextID.Add(1) - 1
+			}
 		}
 		
 		// Check for ID conflicts
-- 
2.43.0


From 8d004daaf5248215697754764bd64988a85f453e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:15 +0000
Subject: [PATCH 008/122] fix: reserved parameter IDs could be handed out again
 when registering concurrently

---
 pkg/framework/param/registry_auto.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/framework/param/registry_auto.go b/pkg/framework/param/registry_auto.go
index ed56821..f32e4f7 100644
--- a/pkg/framework/param/registry_auto.go
+++ b/pkg/framework/param/registry_auto.go
@@ -126,6 +126,8 @@ func (r *AutoRegistry) Clear() {
 
 // Reserve reserves a range of IDs for manual assignment
 func (r *AutoRegistry) Reserve(count uint32) uint32 {
+	r.mu.Lock()
+	defer r.mu.Unlock()
 	return r.nextID.Add(count) - count
 }
 
-- 
2.43.0


From bd95d61db2cabd981aa768ba7dbc085762c7c70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:02 +0000
Subject: [PATCH 009/122] fix: state saved while parameters are added declared
 a wrong parameter count

---
 pkg/framework/state/manager.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/framework/state/manager.go b/pkg/framework/state/manager.go
index 7b3eacf..2835ab2 100644
--- a/pkg/framework/state/manager.go
+++ b/pkg/framework/state/manager.go
@@ -59,13 +59,13 @@ func (m *Manager) Save(w io.Writer) error {
 	}
 
 	// Write parameter count
-	paramCount := m.registry.Count()
-	if err := binary.Write(w, binary.LittleEndian, paramCount); err != nil {
+	params := m.registry.All()
+	if err := binary.Write(w, binary.LittleEndian, int32(len(params))); err != nil {
 		return err
 	}
 
 	// Write each parameter
-	for _, param := range m.registry.All() {
+	for _, param := range params {
 		// Write ID
 		if err := binary.Write(w, binary.LittleEndian, param.ID); err != nil {
 			return err
-- 
2.43.0


From 45842e19fb941ada562d6f2fbeefafc9ddf637f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:04 +0000
Subject: [PATCH 010/122] fix: loading a truncated state overwrote part of the
 parameters before failing

---
 pkg/framework/state/manager.go | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/pkg/framework/state/manager.go b/pkg/framework/state/manager.go
index 2835ab2..50c4100 100644
--- a/pkg/framework/state/manager.go
+++ b/pkg/framework/state/manager.go
@@ -120,22 +120,21 @@ func (m *Manager) Load(r io.Reader) error {
 	}
 
 	// Read each parameter
+	type entry struct {
+		id    uint32
+		value float64
+	}
+	var entries []entry
 	for i := int32(0); i < paramCount; i++ {
-		var id uint32
-		if err := binary.Read(r, binary.LittleEndian, &id); err != nil {
+		var e entry
+		if err := binary.Read(r, binary.LittleEndian, &e.id); err != nil {
 			return err
 		}
 
-		var value float64
-		if err := binary.Read(r, binary.LittleEndian, &value); err != nil {
+		if err := binary.Read(r, binary.LittleEndian, &e.value); err != nil {
 			return err
 		}
-
-		// Set parameter value if it exists
-		if param := m.registry.Get(id); param != nil {
-			param.SetValue(value)
-		}
-		// Ignore unknown parameters for forward compatibility
+		entries = append(entries, e)
 	}
 
 	// Check for custom data
@@ -144,6 +143,15 @@ func (m *Manager) Load(r io.Reader) error {
 		return err
 	}
 
+	// Apply the values only now that the whole list was readable
+	for _, e := range entries {
+		// Set parameter value if it exists
+		if param := m.registry.Get(e.id); param != nil {
+			param.SetValue(e.value)
+		}
+		// Ignore unknown parameters for forward compatibility
+	}
+
 	if hasCustom != 0 {
 		if m.customLoad != nil {
 			return m.customLoad(r)
-- 
2.43.0


From 7cc890714c3f64e2067bf134c20c7f5a11985eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:38 +0000
Subject: [PATCH 011/122] fix: linear and logarithmic smoothing never finished
 when the value was already at the target

---
 pkg/framework/param/smoother.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/framework/param/smoother.go b/pkg/framework/param/smoother.go
index a903d0b..c37985f 100644
--- a/pkg/framework/param/smoother.go
+++ b/pkg/framework/param/smoother.go
@@ -59,6 +59,8 @@ func (s *Smoother) SetTarget(target float64) {
 		// Calculate step size for linear smoothing
 		if s.rate > 0 {
 			s.step = (target - s.current) / s.rate
+		} else {
+			s.step = 0 // no time to smooth over: the next value is the target
 		}
 		
 	case LogarithmicSmoothing:
@@ -79,6 +81,8 @@ func (s *Smoother) SetTarget(target float64) {
 		
 		if s.rate > 0 {
 			s.logStep = (s.logTarget - s.logCurrent) / s.rate
+		} else {
+			s.logStep = 0
 		}
 	}
 }
@@ -105,7 +109,7 @@ func (s *Smoother) Next() float64 {
 		s.current += s.step
 		
 		// Check if we've reached or passed the target
-		if (s.step > 0 && s.current >= s.target) || (s.step < 0 && s.current <= s.target) {
+		if (s.step >= 0 && s.current >= s.target) || (s.step <= 0 && s.current <= s.target) {
 			s.current = s.target
 			s.isSmoothing = false
 		}
@@ -115,7 +119,7 @@ func (s *Smoother) Next() float64 {
 		s.logCurrent += s.logStep
 		
 		// Check if we've reached the target
-		if (s.logStep > 0 && s.logCurrent >= s.logTarget) || (s.logStep < 0 && s.logCurrent <= s.logTarget) {
+		if (s.logStep >= 0 && s.logCurrent >= s.logTarget) || (s.logStep <= 0 && s.logCurrent <= s.logTarget) {
 			s.current = s.target
 			s.isSmoothing = false
 		} else {
-- 
2.43.0


From 839ad07a01c58f5bd1c26702b2b94d69b03efe77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:38 +0000
Subject: [PATCH 012/122] fix: enabling smoothing again returned a value set
 long ago

---
 pkg/framework/param/smoother.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/framework/param/smoother.go b/pkg/framework/param/smoother.go
index c37985f..2b9b478 100644
--- a/pkg/framework/param/smoother.go
+++ b/pkg/framework/param/smoother.go
@@ -202,8 +202,9 @@ func (sp *SmoothedParameter) GetSmoothedValue() float64 {
 
 // SetSmoothing enables or disables smoothing.
 func (sp *SmoothedParameter) SetSmoothing(enabled bool) {
+	resync := !enabled || !sp.enabled
 	sp.enabled = enabled
-	if !enabled {
+	if resync {
 		sp.smoother.Reset(sp.GetPlainValue())
 	}
 }
-- 
2.43.0


From 46e1f62d48ac397b48213e7cbcb80a7a5c5172b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:39 +0000
Subject: [PATCH 013/122] fix: a plain value set on a smoothed parameter never
 reached the smoother

---
 pkg/framework/param/smoother.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/framework/param/smoother.go b/pkg/framework/param/smoother.go
index 2b9b478..ca254ed 100644
--- a/pkg/framework/param/smoother.go
+++ b/pkg/framework/param/smoother.go
@@ -192,6 +192,14 @@ func (sp *SmoothedParameter) SetValue(value float64) {
 	}
 }
 
+// SetPlainValue sets the parameter from a plain value and updates the smoother target.
+func (sp *SmoothedParameter) SetPlainValue(plain float64) {
+	sp.Parameter.SetPlainValue(plain)
+	if sp.enabled {
+		sp.smoother.SetTarget(sp.GetPlainValue())
+	}
+}
+
 // GetSmoothedValue returns the current smoothed value.
 func (sp *SmoothedParameter) GetSmoothedValue() float64 {
 	if sp.enabled {
-- 
2.43.0


From c641ec198a12b45923de92d57caff2beeb7d6e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:21 +0000
Subject: [PATCH 014/122] fix: using a bus builder further changed the
 configurations built before

---
 pkg/framework/bus/builder.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/framework/bus/builder.go b/pkg/framework/bus/builder.go
index 03e17d6..fa125f0 100644
--- a/pkg/framework/bus/builder.go
+++ b/pkg/framework/bus/builder.go
@@ -225,7 +225,11 @@ func (b *Builder) Build() (*Configuration, error) {
 	if err := b.Validate(); err != nil {
 		return nil, err
 	}
-	return b.config, nil
+	// Hand out a copy: using the builder further must not change what was built
+	return &Configuration{
+		audioBuses: append([]Info{}, b.config.audioBuses...),
+		eventBuses: append([]Info{}, b.config.eventBuses...),
+	}, nil
 }
 
 // MustBuild returns the built configuration or panics on error
-- 
2.43.0


From b104154e467408d0df88aebe9f27433967450eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:19 +0000
Subject: [PATCH 015/122] fix: summing buffers of different lengths read or
 wrote out of range

---
 pkg/dsp/mix/mix.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dsp/mix/mix.go b/pkg/dsp/mix/mix.go
index 8f7c0eb..a55e160 100644
--- a/pkg/dsp/mix/mix.go
+++ b/pkg/dsp/mix/mix.go
@@ -108,7 +108,7 @@ func Sum(buffers [][]float32, dst []float32) {
 	// Sum all buffers
 	for _, buffer := range buffers {
 		bufLen := len(buffer)
-		if bufLen < length {
+		if bufLen > length {
 			bufLen = length
 		}
 		
@@ -139,7 +139,7 @@ func SumWeighted(buffers [][]float32, gains []float32, dst []float32) {
 		}
 		
 		bufLen := len(buffer)
-		if bufLen < length {
+		if bufLen > length {
 			bufLen = length
 		}
 		
-- 
2.43.0


From a4b58f889c936849b47caec7d65a4ab053d8f5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:47 +0000
Subject: [PATCH 016/122] fix: soft clipping flipped the sign of negative
 samples below the threshold

---
 pkg/dsp/buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dsp/buffer.go b/pkg/dsp/buffer.go
index b46bd6e..6039b72 100644
--- a/pkg/dsp/buffer.go
+++ b/pkg/dsp/buffer.go
@@ -106,7 +106,7 @@ func SoftClip(buffer []float32, threshold float32) {
 		if sample > threshold {
 			buffer[i] = threshold + (1.0-threshold)*float32(math.Tanh(float64(sample-threshold)))
 		} else if sample < -threshold {
-			buffer[i] = -threshold + (-1.0+threshold)*float32(math.Tanh(float64(sample+threshold)))
+			buffer[i] = -threshold + (1.0-threshold)*float32(math.Tanh(float64(sample+threshold)))
 		}
 	}
 }
-- 
2.43.0


From 5495ec584d7d2eadb9be53b9db7f73c694a644ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:53 +0000
Subject: [PATCH 017/122] fix: resetting a comb delay kept its damping state

---
 pkg/dsp/delay/delay.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/dsp/delay/delay.go b/pkg/dsp/delay/delay.go
index 5824f83..b52b672 100644
--- a/pkg/dsp/delay/delay.go
+++ b/pkg/dsp/delay/delay.go
@@ -154,6 +154,12 @@ func NewComb(maxDelaySeconds, sampleRate float64) *CombDelay {
 	}
 }
 
+// Reset clears the delay buffer and the damping state
+func (c *CombDelay) Reset() {
+	c.Line.Reset()
+	c.dampVal = 0
+}
+
 // SetFeedback sets the comb feedback
 func (c *CombDelay) SetFeedback(feedback float32) {
 	c.feedback = feedback
-- 
2.43.0


From 8c495a0f838195d2df792494cf37f4d5f0f8c340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:53 +0000
Subject: [PATCH 018/122] fix: resetting a modulated delay kept its modulation
 phase

---
 pkg/dsp/delay/delay.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/dsp/delay/delay.go b/pkg/dsp/delay/delay.go
index b52b672..1ac9193 100644
--- a/pkg/dsp/delay/delay.go
+++ b/pkg/dsp/delay/delay.go
@@ -259,6 +259,12 @@ func NewModulated(maxDelaySeconds, sampleRate float64) *ModulatedDelay {
 	}
 }
 
+// Reset clears the delay buffer and restarts the modulation
+func (m *ModulatedDelay) Reset() {
+	m.Line.Reset()
+	m.lfoPhase = 0
+}
+
 // SetLFO configures the modulation
 func (m *ModulatedDelay) SetLFO(rateHz, depthMs float64) {
 	m.lfoRate = rateHz
-- 
2.43.0


From 0dd70009cf02cab29bf9d1d9d9e3aed9d7ebdd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:57 +0000
Subject: [PATCH 019/122] fix: stereo FDN reverb panicked whenever a delay line
 wrapped around

---
 pkg/dsp/reverb/fdn.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pkg/dsp/reverb/fdn.go b/pkg/dsp/reverb/fdn.go
index 28950dc..e07939e 100644
--- a/pkg/dsp/reverb/fdn.go
+++ b/pkg/dsp/reverb/fdn.go
@@ -375,15 +375,17 @@ func (f *FDN) ProcessStereo(inputL, inputR float32) (outputL, outputR float32) {
 	// Add some stereo width by phase inverting some of the signal
 	if f.numDelays >= 2 {
 		// Get two delay outputs for stereo decorrelation
-		delay1 := f.delayLines[0][f.writeIndices[0]-1]
-		if f.writeIndices[0]-1 < 0 {
-			delay1 = f.delayLines[0][len(f.delayLines[0])-1]
+		last1 := f.writeIndices[0] - 1
+		if last1 < 0 {
+			last1 = len(f.delayLines[0]) - 1
 		}
+		delay1 := f.delayLines[0][last1]
 
-		delay2 := f.delayLines[1][f.writeIndices[1]-1]
-		if f.writeIndices[1]-1 < 0 {
-			delay2 = f.delayLines[1][len(f.delayLines[1])-1]
+		last2 := f.writeIndices[1] - 1
+		if last2 < 0 {
+			last2 = len(f.delayLines[1]) - 1
 		}
+		delay2 := f.delayLines[1][last2]
 
 		// Add decorrelated signals to create width
 		spread := float32(0.3)
-- 
2.43.0


From fdf2fbaf811e12f6d175c44f55ad8cbae65e7adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:57 +0000
Subject: [PATCH 020/122] fix: FDN reverb allocated memory for every sample

---
 pkg/dsp/reverb/fdn.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/dsp/reverb/fdn.go b/pkg/dsp/reverb/fdn.go
index e07939e..4badfbb 100644
--- a/pkg/dsp/reverb/fdn.go
+++ b/pkg/dsp/reverb/fdn.go
@@ -41,6 +41,10 @@ type FDN struct {
 	modDepth  float64
 	modRate   float64
 
+	// Scratch space for one sample
+	delayOutputs   []float32
+	feedbackInputs []float32
+
 	sampleRate float64
 }
 
@@ -89,6 +93,8 @@ func NewFDN(numDelays int, sampleRate float64) *FDN {
 		dampingFilters: make([]*DampingFilter, numDelays),
 		modLFOs:        make([]float64, numDelays),
 		modPhases:      make([]float64, numDelays),
+		delayOutputs:   make([]float32, numDelays),
+		feedbackInputs: make([]float32, numDelays),
 		decay:          0.5,
 		damping:        0.5,
 		diffusion:      0.5,
@@ -275,7 +281,7 @@ func (f *FDN) updateInternalParameters() {
 // Process processes a mono input sample
 func (f *FDN) Process(input float32) float32 {
 	// Read outputs from all delay lines
-	delayOutputs := make([]float32, f.numDelays)
+	delayOutputs := f.delayOutputs
 
 	for i := 0; i < f.numDelays; i++ {
 		// Calculate modulated read position
@@ -311,7 +317,7 @@ func (f *FDN) Process(input float32) float32 {
 	}
 
 	// Apply feedback matrix to create new inputs
-	feedbackInputs := make([]float32, f.numDelays)
+	feedbackInputs := f.feedbackInputs
 	decayScale := float32(0.4 + f.decay*0.58)
 
 	for i := 0; i < f.numDelays; i++ {
-- 
2.43.0


From 2b5e6343e8e0a76402cb504ca5fccc430d7a9c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:57 +0000
Subject: [PATCH 021/122] fix: the feedback matrix of an FDN reverb with 8
 delays was not orthogonal and let the tail grow without bound

---
 pkg/dsp/reverb/fdn.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/dsp/reverb/fdn.go b/pkg/dsp/reverb/fdn.go
index 4badfbb..310170a 100644
--- a/pkg/dsp/reverb/fdn.go
+++ b/pkg/dsp/reverb/fdn.go
@@ -2,6 +2,7 @@ package reverb
 
 import (
 	"math"
+	"math/bits"
 	"math/rand"
 )
 
@@ -162,12 +163,11 @@ func (f *FDN) createHadamardMatrix() {
 			}
 		}
 	} else if n == 8 {
-		// 8x8 Hadamard matrix (simplified)
+		// 8x8 Hadamard matrix: the sign is the parity of the common bits of row and column
 		scale := 1.0 / math.Sqrt(8.0)
 		for i := 0; i < 8; i++ {
 			for j := 0; j < 8; j++ {
-				// Create a pattern that provides good diffusion
-				if (i+j)%2 == 0 {
+				if bits.OnesCount(uint(i&j))%2 == 0 {
 					f.feedbackMatrix[i][j] = scale
 				} else {
 					f.feedbackMatrix[i][j] = -scale
-- 
2.43.0


From 2a67eecb53e5da238cdd9b07ce23fc533648e3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:10 +0000
Subject: [PATCH 022/122] fix: an FDN reverb of other sizes than 4 and 8 drew a
 new random feedback matrix on every parameter change

---
 pkg/dsp/reverb/fdn.go | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/pkg/dsp/reverb/fdn.go b/pkg/dsp/reverb/fdn.go
index 310170a..e2ccaf9 100644
--- a/pkg/dsp/reverb/fdn.go
+++ b/pkg/dsp/reverb/fdn.go
@@ -3,7 +3,6 @@ package reverb
 import (
 	"math"
 	"math/bits"
-	"math/rand"
 )
 
 // FDN implements a Feedback Delay Network reverb
@@ -184,18 +183,11 @@ func (f *FDN) createHadamardMatrix() {
 func (f *FDN) createHouseholderMatrix() {
 	n := f.numDelays
 
-	// Create a random unit vector
+	// Reflect at the diagonal: the matrix must stay the same when it is
+	// rebuilt for a parameter change
 	v := make([]float64, n)
-	sum := 0.0
 	for i := 0; i < n; i++ {
-		v[i] = rand.Float64() - 0.5
-		sum += v[i] * v[i]
-	}
-
-	// Normalize
-	norm := math.Sqrt(sum)
-	for i := 0; i < n; i++ {
-		v[i] /= norm
+		v[i] = 1.0 / math.Sqrt(float64(n))
 	}
 
 	// Create Householder matrix: H = I - 2*v*v^T
-- 
2.43.0


From e22fce009077907720942a779bf81136a993a8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:11 +0000
Subject: [PATCH 023/122] fix: the channels of a stereo bitcrusher shared one
 sample-and-hold

---
 pkg/dsp/distortion/bitcrusher.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pkg/dsp/distortion/bitcrusher.go b/pkg/dsp/distortion/bitcrusher.go
index 140f56c..81423be 100644
--- a/pkg/dsp/distortion/bitcrusher.go
+++ b/pkg/dsp/distortion/bitcrusher.go
@@ -25,8 +25,8 @@ type Bitcrusher struct {
 	originalSampleRate float64
 
 	// Sample rate reduction state
-	sampleHoldCounter float64
-	lastSample        float64
+	sampleHoldCounter [2]float64 // Stereo
+	lastSample        [2]float64
 
 	// Anti-aliasing filter state (simple one-pole)
 	filterState [2]float64 // Stereo
@@ -84,7 +84,7 @@ func (b *Bitcrusher) processChannel(input float64, channel int) float64 {
 	}
 
 	// Sample rate reduction
-	processed = b.applySampleRateReduction(processed)
+	processed = b.applySampleRateReduction(processed, channel)
 
 	// Bit depth reduction
 	processed = b.applyBitReduction(processed)
@@ -129,25 +129,25 @@ func (b *Bitcrusher) applyBitReduction(x float64) float64 {
 	return math.Max(-1.0, math.Min(1.0, quantized))
 }
 
-func (b *Bitcrusher) applySampleRateReduction(x float64) float64 {
+func (b *Bitcrusher) applySampleRateReduction(x float64, channel int) float64 {
 	if b.sampleRateReduce <= 1.0 {
 		return x
 	}
 
 	// Check if we should update the held sample
-	if b.sampleHoldCounter == 0.0 {
-		b.lastSample = x
+	if b.sampleHoldCounter[channel] == 0.0 {
+		b.lastSample[channel] = x
 	}
 
 	// Increment counter
-	b.sampleHoldCounter += 1.0
+	b.sampleHoldCounter[channel] += 1.0
 
 	// Reset counter when we reach the reduction factor
-	if b.sampleHoldCounter >= b.sampleRateReduce {
-		b.sampleHoldCounter = 0.0
+	if b.sampleHoldCounter[channel] >= b.sampleRateReduce {
+		b.sampleHoldCounter[channel] = 0.0
 	}
 
-	return b.lastSample
+	return b.lastSample[channel]
 }
 
 func (b *Bitcrusher) applyAntiAliasFilter(x float64, channel int) float64 {
@@ -183,8 +183,8 @@ func (b *Bitcrusher) generateDither() float64 {
 }
 
 func (b *Bitcrusher) Reset() {
-	b.sampleHoldCounter = 0.0
-	b.lastSample = 0.0
+	b.sampleHoldCounter = [2]float64{}
+	b.lastSample = [2]float64{}
 	b.filterState[0] = 0.0
 	b.filterState[1] = 0.0
 	b.ditherState = 0.0
-- 
2.43.0


From f2d2e9af31a2753b305aaa0f1252aaa4799e6f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:11 +0000
Subject: [PATCH 024/122] fix: the channels of a stereo tube saturation shared
 their filter and hysteresis state

---
 pkg/dsp/distortion/tube.go | 54 ++++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 25 deletions(-)

diff --git a/pkg/dsp/distortion/tube.go b/pkg/dsp/distortion/tube.go
index 192fd7a..0b566b4 100644
--- a/pkg/dsp/distortion/tube.go
+++ b/pkg/dsp/distortion/tube.go
@@ -13,12 +13,12 @@ type TubeSaturation struct {
 	output     float64
 
 	// Internal state for hysteresis
-	prevInput  float64
-	prevOutput float64
+	prevInput  [2]float64 // Stereo
+	prevOutput [2]float64
 
 	// Pre-emphasis/de-emphasis filters for warmth
-	preEmphasisState float64
-	deEmphasisState  float64
+	preEmphasisState [2]float64 // Stereo
+	deEmphasisState  [2]float64
 }
 
 func NewTubeSaturation() *TubeSaturation {
@@ -57,20 +57,24 @@ func (t *TubeSaturation) SetOutput(output float64) {
 }
 
 func (t *TubeSaturation) Process(input float64) float64 {
+	return t.processChannel(input, 0)
+}
+
+func (t *TubeSaturation) processChannel(input float64, channel int) float64 {
 	// Pre-emphasis for warmth (boost highs before saturation)
-	emphasized := t.preEmphasis(input)
+	emphasized := t.preEmphasis(input, channel)
 
 	// Apply tube bias
 	biased := emphasized + t.bias*0.1
 
 	// Apply hysteresis (magnetic-like behavior)
-	withHysteresis := t.applyHysteresis(biased)
+	withHysteresis := t.applyHysteresis(biased, channel)
 
 	// Tube saturation with harmonic generation
 	saturated := t.tubeSaturate(withHysteresis)
 
 	// De-emphasis (reduce highs after saturation for warmth)
-	deEmphasized := t.deEmphasis(saturated)
+	deEmphasized := t.deEmphasis(saturated, channel)
 
 	// Mix with dry signal
 	mixed := deEmphasized*t.mix + input*(1.0-t.mix)
@@ -86,8 +90,8 @@ func (t *TubeSaturation) ProcessBlock(input, output []float64) {
 
 func (t *TubeSaturation) ProcessStereo(inputL, inputR, outputL, outputR []float64) {
 	for i := range inputL {
-		outputL[i] = t.Process(inputL[i])
-		outputR[i] = t.Process(inputR[i])
+		outputL[i] = t.processChannel(inputL[i], 0)
+		outputR[i] = t.processChannel(inputR[i], 1)
 	}
 }
 
@@ -148,47 +152,47 @@ func (t *TubeSaturation) tubeCompressionCurve(x float64) float64 {
 	return math.Copysign(compressed, x)
 }
 
-func (t *TubeSaturation) applyHysteresis(x float64) float64 {
+func (t *TubeSaturation) applyHysteresis(x float64, channel int) float64 {
 	// Simple hysteresis model
-	diff := x - t.prevInput
+	diff := x - t.prevInput[channel]
 
 	// Hysteresis effect based on input change direction
 	if diff > 0 {
 		// Rising input
-		t.prevOutput = t.prevOutput + (x-t.prevOutput)*(1.0-t.hysteresis*0.3)
+		t.prevOutput[channel] = t.prevOutput[channel] + (x-t.prevOutput[channel])*(1.0-t.hysteresis*0.3)
 	} else {
 		// Falling input
-		t.prevOutput = t.prevOutput + (x-t.prevOutput)*(1.0-t.hysteresis*0.5)
+		t.prevOutput[channel] = t.prevOutput[channel] + (x-t.prevOutput[channel])*(1.0-t.hysteresis*0.5)
 	}
 
-	t.prevInput = x
-	return t.prevOutput
+	t.prevInput[channel] = x
+	return t.prevOutput[channel]
 }
 
-func (t *TubeSaturation) preEmphasis(x float64) float64 {
+func (t *TubeSaturation) preEmphasis(x float64, channel int) float64 {
 	// Simple high-frequency boost before saturation
 	// First-order high-pass filter
 	cutoff := 0.1 + t.warmth*0.4 // Higher warmth = higher cutoff = more pre-emphasis
 
-	output := x - t.preEmphasisState
-	t.preEmphasisState += output * cutoff
+	output := x - t.preEmphasisState[channel]
+	t.preEmphasisState[channel] += output * cutoff
 
 	// Mix between filtered and original based on warmth
 	return x + output*t.warmth*0.5
 }
 
-func (t *TubeSaturation) deEmphasis(x float64) float64 {
+func (t *TubeSaturation) deEmphasis(x float64, channel int) float64 {
 	// Simple high-frequency cut after saturation
 	// First-order low-pass filter
 	cutoff := 0.9 - t.warmth*0.6 // Higher warmth = lower cutoff = more de-emphasis
 
-	t.deEmphasisState += (x - t.deEmphasisState) * cutoff
-	return t.deEmphasisState
+	t.deEmphasisState[channel] += (x - t.deEmphasisState[channel]) * cutoff
+	return t.deEmphasisState[channel]
 }
 
 func (t *TubeSaturation) Reset() {
-	t.prevInput = 0.0
-	t.prevOutput = 0.0
-	t.preEmphasisState = 0.0
-	t.deEmphasisState = 0.0
+	t.prevInput = [2]float64{}
+	t.prevOutput = [2]float64{}
+	t.preEmphasisState = [2]float64{}
+	t.deEmphasisState = [2]float64{}
 }
-- 
2.43.0


From 0537a9a4db6ce4aad3164abd93054b510e5e44a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:12 +0000
Subject: [PATCH 025/122] fix: the channels of a stereo tape saturation shared
 their compressor and flutter delay

---
 pkg/dsp/distortion/tape.go | 86 +++++++++++++++++++++-----------------
 1 file changed, 47 insertions(+), 39 deletions(-)

diff --git a/pkg/dsp/distortion/tape.go b/pkg/dsp/distortion/tape.go
index 53056fb..fb73562 100644
--- a/pkg/dsp/distortion/tape.go
+++ b/pkg/dsp/distortion/tape.go
@@ -26,12 +26,13 @@ type TapeSaturation struct {
 	flutterRate  float64
 
 	// Delay buffer for flutter effect
-	delayBuffer     []float64
+	delayBuffer     [2][]float64 // Stereo
 	delayBufferSize int
-	delayWritePos   int
+	delayWritePos   [2]int
+	flutterDelay    float64
 
 	// Compression state
-	envelope float64
+	envelope [2]float64 // Stereo
 
 	// Noise generator for tape hiss
 	noiseLevel float64
@@ -48,7 +49,7 @@ func NewTapeSaturation(sampleRate float64) *TapeSaturation {
 		mix:             1.0,
 		output:          1.0,
 		sampleRate:      sampleRate,
-		delayBuffer:     make([]float64, bufferSize),
+		delayBuffer:     [2][]float64{make([]float64, bufferSize), make([]float64, bufferSize)},
 		delayBufferSize: bufferSize,
 		flutterRate:     0.3 + rand.Float64()*0.2, // 0.3-0.5 Hz
 		noiseLevel:      0.0001,
@@ -88,13 +89,13 @@ func (t *TapeSaturation) processChannel(input float64, channel int) float64 {
 	emphasized := t.preEmphasis(input, channel)
 
 	// Apply tape compression
-	compressed := t.tapeCompress(emphasized)
+	compressed := t.tapeCompress(emphasized, channel)
 
 	// Apply tape saturation
 	saturated := t.tapeSaturate(compressed)
 
 	// Apply flutter (pitch modulation)
-	fluttered := t.applyFlutter(saturated)
+	fluttered := t.applyFlutter(saturated, channel)
 
 	// Add subtle tape noise
 	withNoise := fluttered + (rand.Float64()*2.0-1.0)*t.noiseLevel*t.saturation
@@ -138,7 +139,7 @@ func (t *TapeSaturation) tapeSaturate(x float64) float64 {
 	return saturated*0.8 + third*0.2*t.saturation
 }
 
-func (t *TapeSaturation) tapeCompress(x float64) float64 {
+func (t *TapeSaturation) tapeCompress(x float64, channel int) float64 {
 	// Tape-style compression (program-dependent)
 
 	// Update envelope follower
@@ -146,21 +147,21 @@ func (t *TapeSaturation) tapeCompress(x float64) float64 {
 	attack := 0.01
 	release := 0.1
 
-	if absX > t.envelope {
-		t.envelope += (absX - t.envelope) * attack
+	if absX > t.envelope[channel] {
+		t.envelope[channel] += (absX - t.envelope[channel]) * attack
 	} else {
-		t.envelope += (absX - t.envelope) * release
+		t.envelope[channel] += (absX - t.envelope[channel]) * release
 	}
 
 	// Calculate compression
 	threshold := 0.5
 	ratio := 2.0 + t.compression*3.0 // 2:1 to 5:1
 
-	if t.envelope > threshold {
+	if t.envelope[channel] > threshold {
 		// Calculate gain reduction
-		excess := t.envelope - threshold
+		excess := t.envelope[channel] - threshold
 		compressedExcess := excess / ratio
-		gainReduction := (threshold + compressedExcess) / t.envelope
+		gainReduction := (threshold + compressedExcess) / t.envelope[channel]
 
 		// Apply compression
 		return x * gainReduction
@@ -169,45 +170,50 @@ func (t *TapeSaturation) tapeCompress(x float64) float64 {
 	return x
 }
 
-func (t *TapeSaturation) applyFlutter(x float64) float64 {
+func (t *TapeSaturation) applyFlutter(x float64, channel int) float64 {
 	if t.flutter < 0.01 {
 		return x
 	}
 
 	// Write to delay buffer
-	t.delayBuffer[t.delayWritePos] = x
-	t.delayWritePos = (t.delayWritePos + 1) % t.delayBufferSize
-
-	// Calculate flutter modulation
-	t.flutterPhase += 2.0 * math.Pi * t.flutterRate / t.sampleRate
-	if t.flutterPhase > 2.0*math.Pi {
-		t.flutterPhase -= 2.0 * math.Pi
-		// Occasionally change flutter rate slightly
-		if rand.Float64() < 0.1 {
-			t.flutterRate = 0.3 + rand.Float64()*0.2
+	delayBuffer := t.delayBuffer[channel]
+	delayBuffer[t.delayWritePos[channel]] = x
+	t.delayWritePos[channel] = (t.delayWritePos[channel] + 1) % t.delayBufferSize
+
+	// Both channels run on the same tape: the flutter moves on once per sample
+	if channel == 0 {
+		// Calculate flutter modulation
+		t.flutterPhase += 2.0 * math.Pi * t.flutterRate / t.sampleRate
+		if t.flutterPhase > 2.0*math.Pi {
+			t.flutterPhase -= 2.0 * math.Pi
+			// Occasionally change flutter rate slightly
+			if rand.Float64() < 0.1 {
+				t.flutterRate = 0.3 + rand.Float64()*0.2
+			}
 		}
-	}
 
-	// Flutter modulation depth in samples
-	modDepth := t.flutter * 3.0 // Max 3 samples
-	modulation := math.Sin(t.flutterPhase) * modDepth
+		// Flutter modulation depth in samples
+		modDepth := t.flutter * 3.0 // Max 3 samples
+		modulation := math.Sin(t.flutterPhase) * modDepth
 
-	// Add some randomness for more realistic flutter
-	modulation += (rand.Float64()*2.0 - 1.0) * modDepth * 0.3
+		// Add some randomness for more realistic flutter
+		modulation += (rand.Float64()*2.0 - 1.0) * modDepth * 0.3
 
-	// Calculate delayed position
-	delaySamples := 5.0 + modulation // Base delay + modulation
+		// Calculate delayed position
+		t.flutterDelay = 5.0 + modulation // Base delay + modulation
+	}
+	delaySamples := t.flutterDelay
 
 	// Linear interpolation for fractional delay
 	delayInt := int(delaySamples)
 	delayFrac := delaySamples - float64(delayInt)
 
 	// Read from delay buffer with interpolation
-	readPos1 := (t.delayWritePos - delayInt + t.delayBufferSize) % t.delayBufferSize
+	readPos1 := (t.delayWritePos[channel] - delayInt + t.delayBufferSize) % t.delayBufferSize
 	readPos2 := (readPos1 - 1 + t.delayBufferSize) % t.delayBufferSize
 
-	sample1 := t.delayBuffer[readPos1]
-	sample2 := t.delayBuffer[readPos2]
+	sample1 := delayBuffer[readPos1]
+	sample2 := delayBuffer[readPos2]
 
 	return sample1*(1.0-delayFrac) + sample2*delayFrac
 }
@@ -241,12 +247,14 @@ func (t *TapeSaturation) Reset() {
 	t.preEmphasisState[1] = 0.0
 	t.deEmphasisState[0] = 0.0
 	t.deEmphasisState[1] = 0.0
-	t.envelope = 0.0
+	t.envelope = [2]float64{}
 	t.flutterPhase = 0.0
-	t.delayWritePos = 0
+	t.delayWritePos = [2]int{}
 
 	// Clear delay buffer
-	for i := range t.delayBuffer {
-		t.delayBuffer[i] = 0.0
+	for channel := range t.delayBuffer {
+		for i := range t.delayBuffer[channel] {
+			t.delayBuffer[channel][i] = 0.0
+		}
 	}
 }
-- 
2.43.0


From a3f3a61c8bcea7c839a0ea5c155abff149329bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:12 +0000
Subject: [PATCH 026/122] fix: the right channel of a stereo flanger applied
 the wet level twice

---
 pkg/dsp/modulation/flanger.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dsp/modulation/flanger.go b/pkg/dsp/modulation/flanger.go
index 94040ad..98ec6fd 100644
--- a/pkg/dsp/modulation/flanger.go
+++ b/pkg/dsp/modulation/flanger.go
@@ -179,7 +179,7 @@ func (f *Flanger) ProcessStereo(inputL, inputR float32) (outputL, outputR float3
 
 	// Create right channel with inverted wet signal
 	outputL = flangedL
-	outputR = inputR*(1-float32(f.mix)) - wetL*float32(f.mix)
+	outputR = inputR*(1-float32(f.mix)) - wetL
 
 	return outputL, outputR
 }
-- 
2.43.0


From dac0d0579e373ad7859bd76421b3f761b1289d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:13 +0000
Subject: [PATCH 027/122] fix: a phaser ignored its depth until another setting
 was changed

---
 pkg/dsp/modulation/phaser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/dsp/modulation/phaser.go b/pkg/dsp/modulation/phaser.go
index a51780a..e336bc5 100644
--- a/pkg/dsp/modulation/phaser.go
+++ b/pkg/dsp/modulation/phaser.go
@@ -104,6 +104,7 @@ func (p *Phaser) SetRate(hz float64) {
 // SetDepth sets the modulation depth (0-1)
 func (p *Phaser) SetDepth(depth float64) {
 	p.depth = math.Max(0.0, math.Min(1.0, depth))
+	p.updateFrequencyRange()
 }
 
 // SetCenterFrequency sets the center frequency for modulation
-- 
2.43.0


From 696dd0e9af7ee291386704608ede0a0d4f6502f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:48 +0000
Subject: [PATCH 028/122] fix: the damping filter of the FDN reverb worked the
 wrong way round

---
 pkg/dsp/reverb/fdn.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/dsp/reverb/fdn.go b/pkg/dsp/reverb/fdn.go
index e2ccaf9..8585803 100644
--- a/pkg/dsp/reverb/fdn.go
+++ b/pkg/dsp/reverb/fdn.go
@@ -66,7 +66,8 @@ func NewDampingFilter() *DampingFilter {
 func (d *DampingFilter) SetDamping(damping float64) {
 	// Convert damping to lowpass coefficient
 	// Higher damping = lower cutoff frequency
-	d.coeff = 1.0 - math.Max(0.0, math.Min(1.0, damping))
+	// (kept below 1, where the filter would hold its output forever)
+	d.coeff = math.Max(0.0, math.Min(0.99, damping))
 }
 
 // Process applies the damping filter
-- 
2.43.0


From a25da5fcda316b3c3d18ac9a28370343aab51a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:49 +0000
Subject: [PATCH 029/122] fix: the FDN reverb applied decay and diffusion twice

---
 pkg/dsp/reverb/fdn.go | 27 +--------------------------
 1 file changed, 1 insertion(+), 26 deletions(-)

diff --git a/pkg/dsp/reverb/fdn.go b/pkg/dsp/reverb/fdn.go
index 8585803..e40f647 100644
--- a/pkg/dsp/reverb/fdn.go
+++ b/pkg/dsp/reverb/fdn.go
@@ -243,32 +243,7 @@ func (f *FDN) updateInternalParameters() {
 		f.dampingFilters[i].SetDamping(f.damping)
 	}
 
-	// Scale feedback matrix by decay amount
-	// Higher decay = more feedback = longer reverb tail
-	decayScale := 0.4 + f.decay*0.58 // Range from 0.4 to 0.98
-
-	// Apply diffusion by mixing with identity matrix
-	// Low diffusion = more parallel delays, high diffusion = more mixing
-	diffusionMix := f.diffusion
-	
-	// Create base Hadamard matrix
-	f.createHadamardMatrix()
-	
-	// Apply decay and diffusion scaling to feedback matrix
-	for i := 0; i < f.numDelays; i++ {
-		for j := 0; j < f.numDelays; j++ {
-			// Store original Hadamard value
-			hadamardValue := f.feedbackMatrix[i][j]
-			
-			if i == j {
-				// Mix between identity (no diffusion) and Hadamard (full diffusion)
-				f.feedbackMatrix[i][j] = decayScale * ((1.0-diffusionMix) + diffusionMix*hadamardValue)
-			} else {
-				// Off-diagonal elements scaled by diffusion
-				f.feedbackMatrix[i][j] = decayScale * diffusionMix * hadamardValue
-			}
-		}
-	}
+	// Decay and diffusion are applied to the feedback matrix in Process
 }
 
 // Process processes a mono input sample
-- 
2.43.0


From 591038099f0c9a519c02e67cb176a46418aa168a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:54 +0000
Subject: [PATCH 030/122] fix: a compressor with lookahead did not delay stereo
 signals

---
 pkg/dsp/dynamics/compressor.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pkg/dsp/dynamics/compressor.go b/pkg/dsp/dynamics/compressor.go
index 8597208..08c6529 100644
--- a/pkg/dsp/dynamics/compressor.go
+++ b/pkg/dsp/dynamics/compressor.go
@@ -36,6 +36,7 @@ type Compressor struct {
 
 	// Lookahead delay line
 	delayBuffer  []float32
+	delayBufferR []float32 // Right channel in stereo processing
 	delayIndex   int
 	delaySamples int
 
@@ -107,9 +108,11 @@ func (c *Compressor) SetLookahead(seconds float64) {
 		c.delaySamples = newDelaySamples
 		if c.delaySamples > 0 {
 			c.delayBuffer = make([]float32, c.delaySamples)
+			c.delayBufferR = make([]float32, c.delaySamples)
 			c.delayIndex = 0
 		} else {
 			c.delayBuffer = nil
+			c.delayBufferR = nil
 		}
 	}
 }
@@ -202,6 +205,14 @@ func (c *Compressor) ProcessStereo(inputL, inputR, outputL, outputR []float32) {
 		// Get max of both channels for linked compression
 		maxInput := float32(math.Max(math.Abs(float64(inputL[i])), math.Abs(float64(inputR[i]))))
 
+		// Handle lookahead delay
+		processL, processR := inputL[i], inputR[i]
+		if c.delaySamples > 0 && c.delayBuffer != nil {
+			processL, c.delayBuffer[c.delayIndex] = c.delayBuffer[c.delayIndex], processL
+			processR, c.delayBufferR[c.delayIndex] = c.delayBufferR[c.delayIndex], processR
+			c.delayIndex = (c.delayIndex + 1) % c.delaySamples
+		}
+
 		// Get envelope from combined signal
 		envelope := c.detector.Detect(maxInput)
 
@@ -220,8 +231,8 @@ func (c *Compressor) ProcessStereo(inputL, inputR, outputL, outputR []float32) {
 		gain := float32(math.Pow(10.0, totalGainDB/20.0))
 
 		// Apply same gain to both channels
-		outputL[i] = inputL[i] * gain
-		outputR[i] = inputR[i] * gain
+		outputL[i] = processL * gain
+		outputR[i] = processR * gain
 	}
 }
 
@@ -258,6 +269,7 @@ func (c *Compressor) Reset() {
 	if c.delayBuffer != nil {
 		for i := range c.delayBuffer {
 			c.delayBuffer[i] = 0
+			c.delayBufferR[i] = 0
 		}
 	}
 }
-- 
2.43.0


From 90a17341dab55d92e698b6b71a354511cea4d8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:56 +0000
Subject: [PATCH 031/122] fix: a compressor amplified signals in the lower half
 of its soft knee and let those in the width of a hard knee pass

---
 pkg/dsp/dynamics/compressor.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/dsp/dynamics/compressor.go b/pkg/dsp/dynamics/compressor.go
index 08c6529..645b26a 100644
--- a/pkg/dsp/dynamics/compressor.go
+++ b/pkg/dsp/dynamics/compressor.go
@@ -124,13 +124,16 @@ func (c *Compressor) GetGainReduction() float64 {
 
 // computeGain calculates the gain reduction for a given input level
 func (c *Compressor) computeGain(inputDB float64) float64 {
-	// Below threshold - knee: no compression
+	// Below threshold - knee (and below the threshold at any rate): no compression
+	if inputDB <= c.threshold {
+		return 0.0
+	}
 	if inputDB < c.threshold-c.kneeWidth/2 {
 		return 0.0
 	}
 
-	// Above threshold + knee: full compression
-	if inputDB > c.threshold+c.kneeWidth/2 {
+	// Above threshold + knee, or without a soft knee: full compression
+	if inputDB > c.threshold+c.kneeWidth/2 || c.kneeType == KneeHard {
 		// Gain reduction formula: reduction = (input - threshold) * (1 - 1/ratio)
 		return (inputDB - c.threshold) * (1.0 - 1.0/c.ratio)
 	}
-- 
2.43.0


From 44532bbe8e25bdc0f7f9d3e0ce92319ff9dafc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:57 +0000
Subject: [PATCH 032/122] fix: a limiter ignored lookahead and true peaks of
 the right channel in stereo

---
 pkg/dsp/dynamics/limiter.go | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/pkg/dsp/dynamics/limiter.go b/pkg/dsp/dynamics/limiter.go
index e93ed4a..7db2c21 100644
--- a/pkg/dsp/dynamics/limiter.go
+++ b/pkg/dsp/dynamics/limiter.go
@@ -22,11 +22,13 @@ type Limiter struct {
 
 	// Lookahead delay
 	delayBuffer  []float32
+	delayBufferR []float32 // Right channel in stereo processing
 	delayIndex   int
 	delaySamples int
 
 	// True peak oversampling (simple 2x for now)
-	lastSample float32
+	lastSample  float32
+	lastSampleR float32 // Right channel in stereo processing
 
 	// State
 	gainReduction float64 // Current gain reduction in dB
@@ -90,9 +92,11 @@ func (l *Limiter) updateLookahead() {
 		l.delaySamples = newDelaySamples
 		if l.delaySamples > 0 {
 			l.delayBuffer = make([]float32, l.delaySamples)
+			l.delayBufferR = make([]float32, l.delaySamples)
 			l.delayIndex = 0
 		} else {
 			l.delayBuffer = nil
+			l.delayBufferR = nil
 		}
 	}
 }
@@ -103,16 +107,16 @@ func (l *Limiter) GetGainReduction() float64 {
 }
 
 // estimateTruePeak estimates the true peak using simple linear interpolation
-func (l *Limiter) estimateTruePeak(current float32) float32 {
+func (l *Limiter) estimateTruePeak(last *float32, current float32) float32 {
 	// Simple 2x oversampling estimation
 	// Interpolate between last and current sample
-	midSample := (l.lastSample + current) * 0.5
+	midSample := (*last + current) * 0.5
 
 	// Find peak among last, mid, and current
-	peak := float32(math.Max(math.Abs(float64(l.lastSample)), math.Abs(float64(current))))
+	peak := float32(math.Max(math.Abs(float64(*last)), math.Abs(float64(current))))
 	peak = float32(math.Max(float64(peak), math.Abs(float64(midSample))))
 
-	l.lastSample = current
+	*last = current
 	return peak
 }
 
@@ -121,7 +125,7 @@ func (l *Limiter) Process(input float32) float32 {
 	// Detection signal (with true peak if enabled)
 	detectionSignal := input
 	if l.truePeak {
-		detectionSignal = l.estimateTruePeak(input)
+		detectionSignal = l.estimateTruePeak(&l.lastSample, input)
 	}
 
 	// Handle lookahead
@@ -180,10 +184,8 @@ func (l *Limiter) ProcessStereo(inputL, inputR, outputL, outputR []float32) {
 		peakR := inputR[i]
 
 		if l.truePeak {
-			peakL = l.estimateTruePeak(inputL[i])
-			// Need separate true peak estimation for right channel
-			// For simplicity, using max of both
-			peakR = float32(math.Max(math.Abs(float64(inputR[i])), float64(peakR)))
+			peakL = l.estimateTruePeak(&l.lastSample, inputL[i])
+			peakR = l.estimateTruePeak(&l.lastSampleR, inputR[i])
 		}
 
 		// Use maximum for detection
@@ -192,10 +194,15 @@ func (l *Limiter) ProcessStereo(inputL, inputR, outputL, outputR []float32) {
 		// Process with lookahead
 		var processL, processR float32 = inputL[i], inputR[i]
 		if l.delaySamples > 0 && l.delayBuffer != nil {
-			// We need stereo delay buffers for proper stereo processing
-			// For now, using mono detection with stereo processing
-			processL = inputL[i]
-			processR = inputR[i]
+			processL, l.delayBuffer[l.delayIndex] = l.delayBuffer[l.delayIndex], processL
+			processR, l.delayBufferR[l.delayIndex] = l.delayBufferR[l.delayIndex], processR
+			l.delayIndex = (l.delayIndex + 1) % l.delaySamples
+
+			// As in Process, the peak of the delayed signal counts too
+			if l.truePeak {
+				delayed := float32(math.Max(math.Abs(float64(processL)), math.Abs(float64(processR))))
+				maxPeak = float32(math.Max(float64(maxPeak), math.Abs(float64(l.peakDetector.Detect(delayed)))))
+			}
 		}
 
 		// Detect from combined peak
@@ -226,12 +233,14 @@ func (l *Limiter) Reset() {
 	l.peakDetector.Reset()
 	l.gainReduction = 0.0
 	l.lastSample = 0.0
+	l.lastSampleR = 0.0
 	l.delayIndex = 0
 
 	// Clear delay buffer
 	if l.delayBuffer != nil {
 		for i := range l.delayBuffer {
 			l.delayBuffer[i] = 0
+			l.delayBufferR[i] = 0
 		}
 	}
 }
-- 
2.43.0


From 1b4496d228e45755a104cd223f21e39a883fa28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:58 +0000
Subject: [PATCH 033/122] fix: a brick-wall limiter let the start of a peak
 through above its ceiling

---
 pkg/dsp/dynamics/limiter.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pkg/dsp/dynamics/limiter.go b/pkg/dsp/dynamics/limiter.go
index 7db2c21..657f588 100644
--- a/pkg/dsp/dynamics/limiter.go
+++ b/pkg/dsp/dynamics/limiter.go
@@ -164,11 +164,24 @@ func (l *Limiter) Process(input float32) float32 {
 	l.gainReduction = gainReductionDB
 
 	// Apply gain reduction
-	gain := float32(math.Pow(10.0, -gainReductionDB/20.0))
+	gain := l.ceilingGain(gainReductionDB, processSignal, processSignal)
 
 	return processSignal * gain
 }
 
+// ceilingGain converts the gain reduction to linear. The envelope takes a
+// moment to follow the signal: what would still exceed the ceiling is reduced
+// further.
+func (l *Limiter) ceilingGain(reductionDB float64, left, right float32) float32 {
+	gain := math.Pow(10.0, -reductionDB/20.0)
+	ceiling := math.Pow(10.0, l.threshold/20.0)
+	if peak := math.Max(math.Abs(float64(left)), math.Abs(float64(right))); peak*gain > ceiling {
+		gain = ceiling / peak
+		l.gainReduction = -20.0 * math.Log10(gain)
+	}
+	return float32(gain)
+}
+
 // ProcessBuffer processes a buffer of samples
 func (l *Limiter) ProcessBuffer(input, output []float32) {
 	for i := range input {
@@ -221,7 +234,7 @@ func (l *Limiter) ProcessStereo(inputL, inputR, outputL, outputR []float32) {
 		l.gainReduction = gainReductionDB
 
 		// Apply same gain to both channels
-		gain := float32(math.Pow(10.0, -gainReductionDB/20.0))
+		gain := l.ceilingGain(gainReductionDB, processL, processR)
 		outputL[i] = processL * gain
 		outputR[i] = processR * gain
 	}
-- 
2.43.0


From b52346eca1ceb8984fbf71c55a119ccb41832937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:07 +0000
Subject: [PATCH 034/122] fix: the dither of a bitcrusher was arbitrary bits
 read as a number, infinite and NaN included, drawn from state shared by all
 instances

---
 pkg/dsp/distortion/bitcrusher.go | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/pkg/dsp/distortion/bitcrusher.go b/pkg/dsp/distortion/bitcrusher.go
index 81423be..dc8bed4 100644
--- a/pkg/dsp/distortion/bitcrusher.go
+++ b/pkg/dsp/distortion/bitcrusher.go
@@ -32,7 +32,7 @@ type Bitcrusher struct {
 	filterState [2]float64 // Stereo
 
 	// Dithering state
-	ditherState float64
+	ditherState uint64
 }
 
 func NewBitcrusher(sampleRate float64) *Bitcrusher {
@@ -44,6 +44,7 @@ func NewBitcrusher(sampleRate float64) *Bitcrusher {
 		mix:                1.0,
 		output:             1.0,
 		originalSampleRate: sampleRate,
+		ditherState:        ditherSeed,
 	}
 }
 
@@ -166,16 +167,19 @@ func (b *Bitcrusher) applyAntiAliasFilter(x float64, channel int) float64 {
 }
 
 func (b *Bitcrusher) generateDither() float64 {
+	// One quantization step: the levels cover the range -1 to 1
+	step := 2.0 / math.Pow(2.0, b.bitDepth)
+
 	switch b.dither {
 	case DitherWhite:
 		// White noise dither
-		return (math.Float64frombits(randomBits()) - 0.5) * 2.0 / math.Pow(2.0, b.bitDepth)
+		return (b.randomUniform() - 0.5) * 2.0 * step
 
 	case DitherTriangular:
 		// Triangular dither (sum of two uniform random values)
-		r1 := math.Float64frombits(randomBits()) - 0.5
-		r2 := math.Float64frombits(randomBits()) - 0.5
-		return (r1 + r2) / math.Pow(2.0, b.bitDepth)
+		r1 := b.randomUniform() - 0.5
+		r2 := b.randomUniform() - 0.5
+		return (r1 + r2) * step
 
 	default:
 		return 0.0
@@ -187,16 +191,17 @@ func (b *Bitcrusher) Reset() {
 	b.lastSample = [2]float64{}
 	b.filterState[0] = 0.0
 	b.filterState[1] = 0.0
-	b.ditherState = 0.0
+	b.ditherState = ditherSeed
 }
 
-// Simple random number generator for dithering
-var randomState uint64 = 1
+// ditherSeed starts the random numbers of every instance
+const ditherSeed = 7
 
-func randomBits() uint64 {
-	// Simple linear congruential generator
-	randomState = randomState*6364136223846793005 + 1442695040888963407
-	return randomState
+// randomUniform is a simple random number generator for dithering, uniform in [0, 1)
+func (b *Bitcrusher) randomUniform() float64 {
+	// Simple linear congruential generator; the upper bits are the good ones
+	b.ditherState = b.ditherState*6364136223846793005 + 1442695040888963407
+	return float64(b.ditherState>>11) / (1 << 53)
 }
 
 // Utility functions for specific bit-crushing effects
-- 
2.43.0


From 5f785b0b017dc2e903e750418d1a697f4b4bc173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:08 +0000
Subject: [PATCH 035/122] fix: foldback distortion never returned for an
 infinite input or a threshold of zero

---
 pkg/dsp/distortion/bitcrusher.go | 24 ++++++++++++++++++------
 pkg/dsp/distortion/waveshaper.go | 10 +---------
 2 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/pkg/dsp/distortion/bitcrusher.go b/pkg/dsp/distortion/bitcrusher.go
index dc8bed4..7faeeb5 100644
--- a/pkg/dsp/distortion/bitcrusher.go
+++ b/pkg/dsp/distortion/bitcrusher.go
@@ -221,12 +221,24 @@ func QuantizeToSteps(x float64, steps int) float64 {
 
 func FoldbackDistortion(x float64, threshold float64) float64 {
 	// Similar to waveshaper foldback but specific to bit-crushing context
-	for x > threshold || x < -threshold {
-		if x > threshold {
-			x = 2*threshold - x
-		} else if x < -threshold {
-			x = -2*threshold - x
-		}
+	if !(threshold > 0) {
+		return 0.0
+	}
+	if x >= -threshold && x <= threshold {
+		return x
+	}
+
+	// The folds repeat every four thresholds
+	x = math.Mod(x, 4*threshold)
+	if x > 2*threshold {
+		x -= 4 * threshold
+	} else if x < -2*threshold {
+		x += 4 * threshold
+	}
+	if x > threshold {
+		x = 2*threshold - x
+	} else if x < -threshold {
+		x = -2*threshold - x
 	}
 	return x
 }
diff --git a/pkg/dsp/distortion/waveshaper.go b/pkg/dsp/distortion/waveshaper.go
index 836515b..c9cfe38 100644
--- a/pkg/dsp/distortion/waveshaper.go
+++ b/pkg/dsp/distortion/waveshaper.go
@@ -114,15 +114,7 @@ func (w *Waveshaper) saturate(x float64) float64 {
 
 func (w *Waveshaper) foldback(x float64) float64 {
 	// Foldback distortion - wraps signal back when it exceeds threshold
-	threshold := 1.0
-	for x > threshold || x < -threshold {
-		if x > threshold {
-			x = 2*threshold - x
-		} else if x < -threshold {
-			x = -2*threshold - x
-		}
-	}
-	return x
+	return FoldbackDistortion(x, 1.0)
 }
 
 func (w *Waveshaper) asymmetric(x float64) float64 {
-- 
2.43.0


From 68adb891e5964ec270a00ca6b35913ee4ae0cccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:27 +0000
Subject: [PATCH 036/122] fix: resetting a chorus brought all its voices into
 the same phase

---
 pkg/dsp/modulation/chorus.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/dsp/modulation/chorus.go b/pkg/dsp/modulation/chorus.go
index f6d7b64..4e3a5e4 100644
--- a/pkg/dsp/modulation/chorus.go
+++ b/pkg/dsp/modulation/chorus.go
@@ -236,8 +236,9 @@ func (c *Chorus) Reset() {
 	}
 
 	// Reset LFOs
-	for _, lfo := range c.lfos {
+	for i, lfo := range c.lfos {
 		lfo.Reset()
+		lfo.SetPhase(float64(i) / float64(c.voices))
 	}
 
 	c.delayIndex = 0
-- 
2.43.0


From 03eb64970abd581bee85b963f5ef91c10c670093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:29 +0000
Subject: [PATCH 037/122] fix: chorus and flanger cut off a modulation depth
 set after the delay

---
 pkg/dsp/modulation/chorus.go  | 5 +++--
 pkg/dsp/modulation/flanger.go | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/dsp/modulation/chorus.go b/pkg/dsp/modulation/chorus.go
index 4e3a5e4..a60c70a 100644
--- a/pkg/dsp/modulation/chorus.go
+++ b/pkg/dsp/modulation/chorus.go
@@ -106,8 +106,9 @@ func (c *Chorus) SetVoices(voices int) {
 
 // updateDelayLines updates the delay line buffers
 func (c *Chorus) updateDelayLines() {
-	// Calculate maximum delay needed (base + modulation depth)
-	maxDelayMs := c.delay + c.depth
+	// Calculate maximum delay needed (base + largest modulation depth, which
+	// may be set at any time)
+	maxDelayMs := c.delay + 10.0
 	c.maxDelaySamples = int(maxDelayMs * c.sampleRate / 1000.0)
 
 	// Add some headroom
diff --git a/pkg/dsp/modulation/flanger.go b/pkg/dsp/modulation/flanger.go
index 98ec6fd..a04dc44 100644
--- a/pkg/dsp/modulation/flanger.go
+++ b/pkg/dsp/modulation/flanger.go
@@ -94,8 +94,9 @@ func (f *Flanger) SetManualMode(enabled bool) {
 
 // updateDelayLine updates the delay line buffer size
 func (f *Flanger) updateDelayLine() {
-	// Calculate maximum delay needed
-	maxDelayMs := f.delay + f.depth
+	// Calculate maximum delay needed (base + largest modulation depth, which
+	// may be set at any time)
+	maxDelayMs := f.delay + 10.0
 	f.maxDelaySamples = int(maxDelayMs * f.sampleRate / 1000.0)
 
 	// Add some headroom
-- 
2.43.0


From 6883f4c97388565936fea0a1f306a898488b8ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:30 +0000
Subject: [PATCH 038/122] fix: a ring modulator kept the last modulated
 frequency when its LFO was switched off

---
 pkg/dsp/modulation/ringmod.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/dsp/modulation/ringmod.go b/pkg/dsp/modulation/ringmod.go
index 493a34e..c726191 100644
--- a/pkg/dsp/modulation/ringmod.go
+++ b/pkg/dsp/modulation/ringmod.go
@@ -65,6 +65,9 @@ func (rm *RingModulator) SetWaveform(waveform Waveform) {
 // EnableLFO enables/disables LFO modulation of carrier frequency
 func (rm *RingModulator) EnableLFO(enabled bool) {
 	rm.lfoEnabled = enabled
+	if !enabled {
+		rm.updatePhaseIncrement()
+	}
 }
 
 // SetLFORate sets the LFO modulation rate in Hz
-- 
2.43.0


From 3f492c7290e57855afb9f01cb041e3e6305c1d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:19 +0000
Subject: [PATCH 039/122] fix: parallel chain allocated its branch buffers on
 every block

---
 pkg/framework/dsp/chain.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pkg/framework/dsp/chain.go b/pkg/framework/dsp/chain.go
index 4fc898b..4d04e17 100644
--- a/pkg/framework/dsp/chain.go
+++ b/pkg/framework/dsp/chain.go
@@ -168,6 +168,7 @@ func (c *StereoChain) SetBypass(bypass bool) {
 type ParallelChain struct {
 	chains []Processor
 	gains  []float32
+	temp   [][]float32 // one scratch buffer per chain, kept between blocks
 	name   string
 	bypass bool
 }
@@ -194,10 +195,16 @@ func (p *ParallelChain) Process(buffer []float32) {
 		return
 	}
 	
-	// Create temporary buffers for each chain
-	tempBuffers := make([][]float32, len(p.chains))
+	// Temporary buffers for each chain, grown only when a block needs more
+	for len(p.temp) < len(p.chains) {
+		p.temp = append(p.temp, nil)
+	}
+	tempBuffers := p.temp
 	for i := range tempBuffers {
-		tempBuffers[i] = make([]float32, len(buffer))
+		if cap(tempBuffers[i]) < len(buffer) {
+			tempBuffers[i] = make([]float32, len(buffer))
+		}
+		tempBuffers[i] = tempBuffers[i][:len(buffer)]
 		copy(tempBuffers[i], buffer)
 	}
 	
-- 
2.43.0


From cb5786aeda04e46ceb618ea66fcd2fd585d414ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:44 +0000
Subject: [PATCH 040/122] fix: an ADSR envelope whose sustain level was lowered
 during the decay never left the decay

---
 pkg/dsp/envelope/envelope.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/dsp/envelope/envelope.go b/pkg/dsp/envelope/envelope.go
index 1541dfd..958a757 100644
--- a/pkg/dsp/envelope/envelope.go
+++ b/pkg/dsp/envelope/envelope.go
@@ -71,6 +71,9 @@ func (e *ADSR) SetDecay(seconds float64) {
 // SetSustain sets the sustain level (0-1)
 func (e *ADSR) SetSustain(level float64) {
 	e.sustain = math.Max(0.0, math.Min(1.0, level))
+	if e.stage == StageDecay {
+		e.target = e.sustain
+	}
 }
 
 // SetRelease sets the release time in seconds
@@ -83,7 +86,7 @@ func (e *ADSR) SetRelease(seconds float64) {
 func (e *ADSR) SetADSR(attack, decay, sustain, release float64) {
 	e.attack = math.Max(0.001, attack)
 	e.decay = math.Max(0.001, decay)
-	e.sustain = math.Max(0.0, math.Min(1.0, sustain))
+	e.SetSustain(sustain)
 	e.release = math.Max(0.001, release)
 	e.updateCoefficients()
 }
-- 
2.43.0


From 775ed0e183ce5c3ba87365386990fe8b5cafdfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:47 +0000
Subject: [PATCH 041/122] fix: rounding made the RMS envelope of a signal that
 turned quiet NaN for good

---
 pkg/dsp/envelope/detector.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/dsp/envelope/detector.go b/pkg/dsp/envelope/detector.go
index 3d62dcf..3d87944 100644
--- a/pkg/dsp/envelope/detector.go
+++ b/pkg/dsp/envelope/detector.go
@@ -173,6 +173,9 @@ func (d *Detector) Detect(input float32) float32 {
 		oldValue := d.rmsWindow[d.rmsIndex]
 		d.rmsWindow[d.rmsIndex] = squared
 		d.rmsSum += squared - oldValue
+		if d.rmsSum < 0 { // rounding, when a loud signal turns quiet
+			d.rmsSum = 0
+		}
 		d.rmsIndex = (d.rmsIndex + 1) % d.rmsWindowLen
 
 		// Calculate RMS
-- 
2.43.0


From b35f571ba974094ee2430c9f0fca15cd9b76a24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:14 +0000
Subject: [PATCH 042/122] fix: a gate whose range was set while it was closing
 closed to the old range

---
 pkg/dsp/dynamics/gate.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/dsp/dynamics/gate.go b/pkg/dsp/dynamics/gate.go
index 314d691..ab145df 100644
--- a/pkg/dsp/dynamics/gate.go
+++ b/pkg/dsp/dynamics/gate.go
@@ -122,6 +122,8 @@ func (g *Gate) SetRange(dB float64) {
 		g.currentGain = math.Pow(10.0, g.range_/20.0)
 		g.targetGain = g.currentGain
 		g.gainReduction = g.range_
+	} else if g.state == gateStateRelease {
+		g.targetGain = math.Pow(10.0, g.range_/20.0)
 	}
 }
 
-- 
2.43.0


From cb43f7b44bac22846e6fa00dabc324b3828f4cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:43 +0000
Subject: [PATCH 043/122] fix: an expander amplified in the upper half of its
 knee and exceeded its range in the lower half

---
 pkg/dsp/dynamics/expander.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/dsp/dynamics/expander.go b/pkg/dsp/dynamics/expander.go
index 119d0f6..f6d6ae7 100644
--- a/pkg/dsp/dynamics/expander.go
+++ b/pkg/dsp/dynamics/expander.go
@@ -109,8 +109,8 @@ func (e *Expander) updateTimeConstants() {
 
 // computeGain calculates the gain for a given input level
 func (e *Expander) computeGain(inputDB float64) float64 {
-	// Above threshold: no expansion
-	if inputDB > e.threshold+e.knee/2 {
+	// Above threshold: no expansion (and no gain in the upper half of the knee)
+	if inputDB >= e.threshold {
 		return 0.0
 	}
 
@@ -137,8 +137,8 @@ func (e *Expander) computeGain(inputDB float64) float64 {
 		// Calculate full expansion at this level
 		fullGain := (inputDB - e.threshold) * (e.ratio - 1.0)
 
-		// Quadratic interpolation
-		return kneePos * kneePos * fullGain
+		// Quadratic interpolation, limited to range
+		return math.Max(e.range_, kneePos*kneePos*fullGain)
 	}
 
 	return 0.0
-- 
2.43.0


From de9440b39a5bff6f2094a1b28077ec923713c25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:45 +0000
Subject: [PATCH 044/122] fix: a compressor with lookahead did not delay
 signals compressed by a side chain

---
 pkg/dsp/dynamics/compressor.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/dsp/dynamics/compressor.go b/pkg/dsp/dynamics/compressor.go
index 645b26a..2ba7987 100644
--- a/pkg/dsp/dynamics/compressor.go
+++ b/pkg/dsp/dynamics/compressor.go
@@ -245,6 +245,13 @@ func (c *Compressor) ProcessSidechain(input, sidechain, output []float32) {
 		// Detect from sidechain
 		envelope := c.detector.Detect(sidechain[i])
 
+		// Handle lookahead delay
+		processSignal := input[i]
+		if c.delaySamples > 0 && c.delayBuffer != nil {
+			processSignal, c.delayBuffer[c.delayIndex] = c.delayBuffer[c.delayIndex], processSignal
+			c.delayIndex = (c.delayIndex + 1) % c.delaySamples
+		}
+
 		// Convert to dB
 		inputDB := float64(-96.0)
 		if envelope > 0 {
@@ -258,7 +265,7 @@ func (c *Compressor) ProcessSidechain(input, sidechain, output []float32) {
 		// Apply to input signal
 		totalGainDB := -gainReductionDB + c.makeupGain
 		gain := float32(math.Pow(10.0, totalGainDB/20.0))
-		output[i] = input[i] * gain
+		output[i] = processSignal * gain
 	}
 }
 
-- 
2.43.0


From 100a3b0f445f93bc29ff8eb9a62f2684f4e9ed45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:48 +0000
Subject: [PATCH 045/122] fix: the frequency of a note named another note for a
 quarter of the notes, and was up to 7 cents off

---
 pkg/midi/events.go | 34 +++-------------------------------
 1 file changed, 3 insertions(+), 31 deletions(-)

diff --git a/pkg/midi/events.go b/pkg/midi/events.go
index 255ef3e..2f1ae2f 100644
--- a/pkg/midi/events.go
+++ b/pkg/midi/events.go
@@ -2,6 +2,7 @@ package midi
 
 import (
 	"fmt"
+	"math"
 )
 
 type EventType uint8
@@ -226,18 +227,7 @@ func NoteToFrequency(note uint8, tuningA4 float64) float64 {
 }
 
 func pow2(x float64) float64 {
-	// Fast approximation of 2^x
-	if x >= 0 {
-		whole := int(x)
-		frac := x - float64(whole)
-		// 2^whole * 2^frac
-		// Use Taylor series approximation for fractional part
-		fracPow := 1.0 + frac*(0.693147 + frac*(0.240227 + frac*0.055504))
-		return float64(uint64(1)<<uint(whole)) * fracPow
-	} else {
-		// For negative x, use 2^x = 1 / 2^(-x)
-		return 1.0 / pow2(-x)
-	}
+	return math.Exp2(x)
 }
 
 func FrequencyToNote(freq, tuningA4 float64) uint8 {
@@ -255,28 +245,10 @@ func FrequencyToNote(freq, tuningA4 float64) uint8 {
 }
 
 func log2(x float64) float64 {
-	// Fast approximation of log2(x)
 	if x <= 0 {
 		return -1000.0 // Return a very negative number for invalid input
 	}
-	
-	// Normalize x to [1, 2) range
-	exp := 0
-	for x >= 2.0 {
-		x /= 2.0
-		exp++
-	}
-	for x < 1.0 {
-		x *= 2.0
-		exp--
-	}
-	
-	// Now x is in [1, 2), use polynomial approximation
-	// log2(x) ≈ (x-1) * (1.4427 - 0.7213*(x-1) + 0.4821*(x-1)^2)
-	t := x - 1.0
-	frac := t * (1.4427 - t*(0.7213 - t*0.4821))
-	
-	return float64(exp) + frac
+	return math.Log2(x)
 }
 
 func NoteNumberToName(note uint8) string {
-- 
2.43.0


From 3b82018b2e654d32158eb88809f4a59cb4c82b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:49 +0000
Subject: [PATCH 046/122] fix: B# and Cb parsed to a note an octave off

---
 pkg/framework/param/formatters.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/framework/param/formatters.go b/pkg/framework/param/formatters.go
index 0d50798..c95a89e 100644
--- a/pkg/framework/param/formatters.go
+++ b/pkg/framework/param/formatters.go
@@ -171,7 +171,7 @@ func NoteParser(str string) (float64, error) {
 	str = strings.ToUpper(strings.TrimSpace(str))
 
 	noteMap := map[string]int{
-		"C": 0, "B#": 0,
+		"C": 0, "B#": 12, // B# is the C of the next octave
 		"C#": 1, "DB": 1,
 		"D":  2,
 		"D#": 3, "EB": 3,
@@ -182,7 +182,7 @@ func NoteParser(str string) (float64, error) {
 		"G#": 8, "AB": 8,
 		"A":  9,
 		"A#": 10, "BB": 10,
-		"B": 11, "CB": 11,
+		"B": 11, "CB": -1, // Cb is the B of the octave before
 	}
 
 	// Find where the octave number starts
-- 
2.43.0


From 592acbc1d0d20e51bf8dabf284a0a8e87d820711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:51 +0000
Subject: [PATCH 047/122] fix: the texts of Q and knee parameters could not be
 parsed back

---
 pkg/framework/param/builders.go      | 6 +++++-
 pkg/framework/param/registry_auto.go | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/framework/param/builders.go b/pkg/framework/param/builders.go
index 26afb08..051ce94 100644
--- a/pkg/framework/param/builders.go
+++ b/pkg/framework/param/builders.go
@@ -175,7 +175,11 @@ func QParameter(id uint32, name string, minQ, maxQ, defaultQ float64) *Builder {
 		Default(defaultQ).
 		Formatter(func(v float64) string {
 			return fmt.Sprintf("Q: %.2f", v)
-		}, nil)
+		}, func(s string) (float64, error) {
+			s = strings.TrimSpace(strings.ToLower(s))
+			s = strings.TrimSpace(strings.TrimPrefix(strings.TrimPrefix(s, "q"), ":"))
+			return parseFloat(s)
+		})
 }
 
 // PanParameter creates a stereo pan parameter
diff --git a/pkg/framework/param/registry_auto.go b/pkg/framework/param/registry_auto.go
index f32e4f7..95c9221 100644
--- a/pkg/framework/param/registry_auto.go
+++ b/pkg/framework/param/registry_auto.go
@@ -191,7 +191,7 @@ func (r *AutoRegistry) RegisterCompressorControls() error {
 		Add(New(0, "Knee").
 			Range(0, 10).
 			Default(2).
-			Formatter(func(v float64) string { return fmt.Sprintf("%.1f dB", v) }, nil).
+			Formatter(func(v float64) string { return fmt.Sprintf("%.1f dB", v) }, DecibelParser).
 			Build()).
 		Add(BypassParameter(0, "Auto Gain").Build()).
 		Build()
-- 
2.43.0


From b5ebe4b570d3f8be600915cff1de6fc2901a0fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:53 +0000
Subject: [PATCH 048/122] fix: choices, notes and types were displayed as their
 lower neighbour when conversion rounded down, and a choice declared a step
 too many

---
 pkg/framework/param/builders.go     | 24 ++++++++----------------
 pkg/framework/param/filter_types.go |  5 +++--
 pkg/framework/param/formatters.go   |  5 +++--
 3 files changed, 14 insertions(+), 20 deletions(-)

diff --git a/pkg/framework/param/builders.go b/pkg/framework/param/builders.go
index 051ce94..573e5b4 100644
--- a/pkg/framework/param/builders.go
+++ b/pkg/framework/param/builders.go
@@ -2,6 +2,7 @@ package param
 
 import (
 	"fmt"
+	"math"
 	"strings"
 )
 
@@ -14,25 +15,16 @@ type ChoiceOption struct {
 
 // Choice creates a parameter builder for a multiple choice parameter
 func Choice(id uint32, name string, options []ChoiceOption) *Builder {
-	// Create name list for formatter
-	names := make([]string, len(options))
-	for i, opt := range options {
-		names[i] = opt.Name
-	}
-
 	// Create formatter
 	formatter := func(value float64) string {
-		for _, opt := range options {
-			if opt.Value == value {
-				return opt.Name
+		// The option nearest to the value: conversion from the normalized value may round
+		nearest := 0
+		for i, opt := range options {
+			if math.Abs(opt.Value-value) < math.Abs(options[nearest].Value-value) {
+				nearest = i
 			}
 		}
-		// Fallback to index-based lookup for integer values
-		index := int(value)
-		if index >= 0 && index < len(names) {
-			return names[index]
-		}
-		return "Unknown"
+		return options[nearest].Name
 	}
 
 	// Create parser
@@ -64,7 +56,7 @@ func Choice(id uint32, name string, options []ChoiceOption) *Builder {
 
 	return New(id, name).
 		Range(minVal, maxVal).
-		Steps(int32(len(options))).
+		Steps(int32(len(options) - 1)). // one step fewer than options, as with Toggle
 		Default(options[0].Value).
 		Formatter(formatter, parser)
 }
diff --git a/pkg/framework/param/filter_types.go b/pkg/framework/param/filter_types.go
index f0ea307..371c3a0 100644
--- a/pkg/framework/param/filter_types.go
+++ b/pkg/framework/param/filter_types.go
@@ -2,6 +2,7 @@ package param
 
 import (
 	"fmt"
+	"math"
 	"strings"
 )
 
@@ -36,7 +37,7 @@ var FilterTypeNames = []string{
 
 // FilterTypeFormatter formats filter type values
 func FilterTypeFormatter(value float64) string {
-	index := int(value)
+	index := int(math.Round(value))
 	if index >= 0 && index < len(FilterTypeNames) {
 		return FilterTypeNames[index]
 	}
@@ -118,7 +119,7 @@ var GateTypeNames = []string{
 
 // GateTypeFormatter formats gate type values
 func GateTypeFormatter(value float64) string {
-	index := int(value)
+	index := int(math.Round(value))
 	if index >= 0 && index < len(GateTypeNames) {
 		return GateTypeNames[index]
 	}
diff --git a/pkg/framework/param/formatters.go b/pkg/framework/param/formatters.go
index c95a89e..fe2fc42 100644
--- a/pkg/framework/param/formatters.go
+++ b/pkg/framework/param/formatters.go
@@ -161,8 +161,9 @@ func PanParser(str string) (float64, error) {
 // NoteFormatter formats MIDI note numbers
 func NoteFormatter(noteNumber float64) string {
 	notes := []string{"C", "C#", "D", "D#", "E", "F", "F#", "G", "G#", "A", "A#", "B"}
-	note := int(noteNumber) % 12
-	octave := int(noteNumber)/12 - 1
+	number := int(math.Round(noteNumber))
+	note := number % 12
+	octave := number/12 - 1
 	return fmt.Sprintf("%s%d", notes[note], octave)
 }
 
-- 
2.43.0


From de6ca4289590dc505991028c10e462250172f909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:37 +0000
Subject: [PATCH 049/122] fix: a default outside the range of a parameter was
 declared as a normalised value outside 0..1

---
 pkg/framework/param/builder.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/framework/param/builder.go b/pkg/framework/param/builder.go
index 46f16e0..2bae6ae 100644
--- a/pkg/framework/param/builder.go
+++ b/pkg/framework/param/builder.go
@@ -37,8 +37,7 @@ func (b *Builder) Range(minVal, maxVal float64) *Builder {
 func (b *Builder) Default(value float64) *Builder {
 	// Convert to normalized
 	if b.param.Max > b.param.Min {
-		normalized := (value - b.param.Min) / (b.param.Max - b.param.Min)
-		b.param.DefaultValue = normalized
+		b.param.DefaultValue = b.param.Normalize(value)
 	}
 	return b
 }
-- 
2.43.0


From 60580c3263e4ba4a9a7561ea60d8abd6eb5ef24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:06 +0000
Subject: [PATCH 050/122] fix: an oscillator with a negative frequency left its
 range

---
 pkg/dsp/oscillator/oscillator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dsp/oscillator/oscillator.go b/pkg/dsp/oscillator/oscillator.go
index 99ee311..2cd47b8 100644
--- a/pkg/dsp/oscillator/oscillator.go
+++ b/pkg/dsp/oscillator/oscillator.go
@@ -40,7 +40,7 @@ func (o *Oscillator) Reset() {
 // updatePhase advances the phase and wraps it
 func (o *Oscillator) updatePhase() {
 	o.phase += o.phaseInc
-	if o.phase >= 1.0 {
+	if o.phase >= 1.0 || o.phase < 0.0 {
 		o.phase -= math.Floor(o.phase)
 	}
 }
-- 
2.43.0


From 8d666e2b3ed5777fcd5379ab0686ab1b6dbc49bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:07 +0000
Subject: [PATCH 051/122] fix: the band-limited oscillators played twice the
 frequency with aliases, and the sawtooth was an impulse train

---
 pkg/dsp/oscillator/oscillator.go | 46 +++++++++++++-------------------
 1 file changed, 18 insertions(+), 28 deletions(-)

diff --git a/pkg/dsp/oscillator/oscillator.go b/pkg/dsp/oscillator/oscillator.go
index 2cd47b8..26a0bcc 100644
--- a/pkg/dsp/oscillator/oscillator.go
+++ b/pkg/dsp/oscillator/oscillator.go
@@ -165,22 +165,16 @@ func (b *BLITOscillator) SetFrequency(freq float64) {
 
 // BLIT generates a band-limited impulse train sample
 func (b *BLITOscillator) BLIT() float32 {
-	// Generate BLIT using closed-form solution
-	phase2pi := 2.0 * math.Pi * b.phase
-
-	var sample float64
-	if b.phase < b.phaseInc || b.phase > (1.0-b.phaseInc) {
-		// Near discontinuity, use limit value
-		sample = b.a
-	} else {
-		// Normal BLIT formula
-		denom := math.Sin(phase2pi)
-		if math.Abs(denom) > 1e-10 {
-			num := math.Sin(float64(2*b.m+1) * phase2pi)
-			sample = b.a * num / denom
-		} else {
-			sample = b.a
-		}
+	// Generate BLIT using closed-form solution: the first m harmonics
+	// of one impulse per cycle
+	phasePi := math.Pi * b.phase
+
+	// At the impulse, use limit value
+	sample := 1.0
+	denom := math.Sin(phasePi)
+	if math.Abs(denom) > 1e-10 {
+		num := math.Sin(float64(2*b.m+1) * phasePi)
+		sample = b.a * num / denom
 	}
 
 	// Update phase
@@ -194,10 +188,9 @@ func (b *BLITOscillator) BLIT() float32 {
 
 // BandLimitedSaw generates an alias-free sawtooth using integrated BLIT
 type BandLimitedSaw struct {
-	blit    *BLITOscillator
-	leaky   float64 // leaky integrator coefficient
-	state   float64 // integrator state
-	dcBlock float64 // DC blocking filter state
+	blit  *BLITOscillator
+	leaky float64 // leaky integrator coefficient
+	state float64 // integrator state
 }
 
 // NewBandLimitedSaw creates a new band-limited sawtooth oscillator
@@ -218,15 +211,12 @@ func (s *BandLimitedSaw) Next() float32 {
 	// Get BLIT sample
 	blit := float64(s.blit.BLIT())
 
-	// Leaky integration
-	s.state = s.leaky*s.state + blit
-
-	// DC blocking
-	output := s.state - s.dcBlock
-	s.dcBlock = s.state * 0.999
+	// Leaky integration, without the mean of the impulse train
+	s.state = s.leaky*s.state + blit - s.blit.a
 
-	// Scale to [-1, 1]
-	return float32(output * s.blit.phaseInc * 4.0)
+	// Scale to [-1, 1]: the integral jumps up once per cycle and falls in
+	// between, the sawtooth rises
+	return float32(-2.0 * s.state * s.blit.phaseInc / s.blit.a)
 }
 
 // Process fills buffer with band-limited sawtooth - no allocations
-- 
2.43.0


From 46313d4708219c6c3646eebd8b2179fed93bd229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:09 +0000
Subject: [PATCH 052/122] fix: all LFOs of the process shared one random state
 without synchronisation

---
 pkg/dsp/modulation/lfo.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pkg/dsp/modulation/lfo.go b/pkg/dsp/modulation/lfo.go
index c1845a1..f961b6b 100644
--- a/pkg/dsp/modulation/lfo.go
+++ b/pkg/dsp/modulation/lfo.go
@@ -43,6 +43,7 @@ type LFO struct {
 	currentRandom float64
 	randomCounter int
 	randomPeriod  int
+	randState     uint32
 }
 
 // NewLFO creates a new LFO
@@ -54,6 +55,7 @@ func NewLFO(sampleRate float64) *LFO {
 		depth:      1.0,
 		offset:     0.0,
 		phase:      0.0,
+		randState:  1,
 	}
 
 	lfo.updatePhaseIncrement()
@@ -72,7 +74,7 @@ func (l *LFO) SetWaveform(waveform Waveform) {
 	if waveform == WaveformRandom {
 		l.updateRandomPeriod()
 		// Generate initial random value
-		l.currentRandom = 2.0*randFloat() - 1.0
+		l.currentRandom = 2.0*l.randFloat() - 1.0
 		l.randomCounter = 0
 	}
 }
@@ -148,7 +150,7 @@ func (l *LFO) generateWaveform() float64 {
 		if l.randomCounter >= l.randomPeriod {
 			l.randomCounter = 0
 			// Generate new random value between -1 and 1
-			l.currentRandom = 2.0*randFloat() - 1.0
+			l.currentRandom = 2.0*l.randFloat() - 1.0
 		}
 		l.randomCounter++
 		return l.currentRandom
@@ -196,10 +198,8 @@ func (l *LFO) Reset() {
 }
 
 // Simple random number generator (can be replaced with better RNG)
-var randState uint32 = 1
-
-func randFloat() float64 {
+func (l *LFO) randFloat() float64 {
 	// Simple linear congruential generator
-	randState = randState*1664525 + 1013904223
-	return float64(randState) / float64(1<<32)
+	l.randState = l.randState*1664525 + 1013904223
+	return float64(l.randState) / float64(1<<32)
 }
-- 
2.43.0


From e7de635ace746830a4bb9117d599c336dda80008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:10 +0000
Subject: [PATCH 053/122] fix: an LFO synchronised to phase 1 left the range of
 its phase and began with the end of the cycle

---
 pkg/dsp/modulation/lfo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dsp/modulation/lfo.go b/pkg/dsp/modulation/lfo.go
index f961b6b..919844d 100644
--- a/pkg/dsp/modulation/lfo.go
+++ b/pkg/dsp/modulation/lfo.go
@@ -103,7 +103,7 @@ func (l *LFO) EnableSync(enabled bool, resetPhase float64) {
 // Sync resets the LFO phase (for tempo sync or note retrigger)
 func (l *LFO) Sync() {
 	if l.syncEnabled {
-		l.phase = l.syncPhase
+		l.SetPhase(l.syncPhase)
 	}
 }
 
-- 
2.43.0


From cbc98e2aa25f8a082aa734d075abab341f643554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:12 +0000
Subject: [PATCH 054/122] fix: violet noise overwrote the state of the blue
 noise it is made from

---
 pkg/dsp/utility/noise.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/dsp/utility/noise.go b/pkg/dsp/utility/noise.go
index 677d9d2..c6a73e1 100644
--- a/pkg/dsp/utility/noise.go
+++ b/pkg/dsp/utility/noise.go
@@ -35,8 +35,9 @@ type NoiseGenerator struct {
 	// Brown noise state
 	brownState float32
 	
-	// Blue/Violet noise state  
-	blueState float32
+	// Blue/Violet noise state
+	blueState   float32
+	violetState float32
 	
 	// Random source
 	rand *rand.Rand
@@ -104,6 +105,7 @@ func (n *NoiseGenerator) GenerateAdd(buffer []float32, gain float32) {
 func (n *NoiseGenerator) Reset() {
 	n.brownState = 0
 	n.blueState = 0
+	n.violetState = 0
 	n.pinkIndex = 0
 	n.pinkRunningSum = 0
 	for i := range n.pinkRows {
@@ -191,8 +193,8 @@ func (n *NoiseGenerator) generateBlue() float32 {
 func (n *NoiseGenerator) generateViolet() float32 {
 	// Violet noise has even more high frequency content
 	blue := n.generateBlue()
-	output := blue - n.blueState
-	n.blueState = blue
+	output := blue - n.violetState
+	n.violetState = blue
 	
 	// Scale to maintain amplitude
 	return output * 0.25
-- 
2.43.0


From e7c444ee138bf00793f5b8d1802d89132fe33517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:13 +0000
Subject: [PATCH 055/122] fix: pink noise carried a constant offset, another
 one after every reset

---
 pkg/dsp/utility/noise.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/pkg/dsp/utility/noise.go b/pkg/dsp/utility/noise.go
index c6a73e1..fb581c9 100644
--- a/pkg/dsp/utility/noise.go
+++ b/pkg/dsp/utility/noise.go
@@ -51,11 +51,6 @@ func NewNoiseGenerator(noiseType NoiseType) *NoiseGenerator {
 		pinkScalar: 1.0 / 20.0, // Normalization for pink noise
 	}
 	
-	// Initialize pink noise rows
-	for i := range gen.pinkRows {
-		gen.pinkRows[i] = gen.randomFloat()
-	}
-	
 	return gen
 }
 
@@ -109,7 +104,7 @@ func (n *NoiseGenerator) Reset() {
 	n.pinkIndex = 0
 	n.pinkRunningSum = 0
 	for i := range n.pinkRows {
-		n.pinkRows[i] = n.randomFloat()
+		n.pinkRows[i] = 0
 	}
 }
 
-- 
2.43.0


From 9969025b854d69486e0f95edfc6b7f51e2cfe1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:15 +0000
Subject: [PATCH 056/122] fix: the all-pass interpolator passed its input
 without any delay

---
 pkg/dsp/interpolation/interpolation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dsp/interpolation/interpolation.go b/pkg/dsp/interpolation/interpolation.go
index f998baf..cbb97f4 100644
--- a/pkg/dsp/interpolation/interpolation.go
+++ b/pkg/dsp/interpolation/interpolation.go
@@ -117,7 +117,7 @@ func (ap *AllPass) Process(input, frac float32) float32 {
 	a := (1 - frac) / (1 + frac)
 	
 	// All-pass filter
-	output := input + a*ap.x1 - a*ap.y1
+	output := a*input + ap.x1 - a*ap.y1
 	
 	// Update state
 	ap.x1 = input
-- 
2.43.0


From f2f985bfcd77021e7aebef47cca6a8f28f269774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:16 +0000
Subject: [PATCH 057/122] fix: sinc interpolation faded out between two
 samples, its window did not move with the position

---
 pkg/dsp/interpolation/interpolation.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/dsp/interpolation/interpolation.go b/pkg/dsp/interpolation/interpolation.go
index cbb97f4..4b9c371 100644
--- a/pkg/dsp/interpolation/interpolation.go
+++ b/pkg/dsp/interpolation/interpolation.go
@@ -55,14 +55,14 @@ func Sinc(buffer []float32, index int, frac float32, windowSize int) float32 {
 		x := float32(i) - frac
 		if x == 0 {
 			result += buffer[idx]
-		} else {
+		} else if math.Abs(float64(x)) < float64(halfWindow) {
 			// Sinc function with Blackman window
 			pi_x := math.Pi * float64(x)
 			sinc := float32(math.Sin(pi_x) / pi_x)
 			
-			// Blackman window
-			w := 0.42 - 0.5*math.Cos(2*math.Pi*(float64(i+halfWindow))/float64(windowSize)) +
-				0.08*math.Cos(4*math.Pi*(float64(i+halfWindow))/float64(windowSize))
+			// Blackman window around the interpolated position
+			w := 0.42 + 0.5*math.Cos(pi_x/float64(halfWindow)) +
+				0.08*math.Cos(2*pi_x/float64(halfWindow))
 			
 			result += buffer[idx] * sinc * float32(w)
 		}
-- 
2.43.0


From 53344bf213ac98c4e5d0825ced6896445ab56ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:02 +0000
Subject: [PATCH 058/122] fix: anti-aliasing of a bitcrusher that barely
 reduces the sample rate was unstable

---
 pkg/dsp/distortion/bitcrusher.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/dsp/distortion/bitcrusher.go b/pkg/dsp/distortion/bitcrusher.go
index 7faeeb5..d400d4f 100644
--- a/pkg/dsp/distortion/bitcrusher.go
+++ b/pkg/dsp/distortion/bitcrusher.go
@@ -158,7 +158,8 @@ func (b *Bitcrusher) applyAntiAliasFilter(x float64, channel int) float64 {
 	cutoffFreq := newSampleRate * 0.45 // Just below Nyquist
 
 	// Calculate filter coefficient
-	omega := 2.0 * math.Pi * cutoffFreq / b.originalSampleRate
+	// From a quarter of the sample rate upwards it lets everything through
+	omega := math.Min(2.0*math.Pi*cutoffFreq/b.originalSampleRate, math.Pi/2.0)
 	alpha := math.Sin(omega) / (math.Sin(omega) + math.Cos(omega))
 
 	// Apply filter
-- 
2.43.0


From 181a42def965aad915531dd2ab122dfd357acb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:04 +0000
Subject: [PATCH 059/122] fix: exponential curve jumped where it reaches full
 scale

---
 pkg/dsp/distortion/waveshaper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dsp/distortion/waveshaper.go b/pkg/dsp/distortion/waveshaper.go
index c9cfe38..1d0bc73 100644
--- a/pkg/dsp/distortion/waveshaper.go
+++ b/pkg/dsp/distortion/waveshaper.go
@@ -143,7 +143,7 @@ func (w *Waveshaper) exponential(x float64) float64 {
 	if absX > 1.0 {
 		return sign
 	}
-	return sign * (1.0 - math.Exp(-3.0*absX))
+	return sign * (1.0 - math.Exp(-3.0*absX)) / (1.0 - math.Exp(-3.0))
 }
 
 // Utility functions for different curve shapes
-- 
2.43.0


From 4615eb73bd73e4a4125c6f40f0b0ffbeae46b82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:05 +0000
Subject: [PATCH 060/122] fix: tube compression got quieter within its knee as
 the input got louder

---
 pkg/dsp/distortion/tube.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/dsp/distortion/tube.go b/pkg/dsp/distortion/tube.go
index 0b566b4..75eb61c 100644
--- a/pkg/dsp/distortion/tube.go
+++ b/pkg/dsp/distortion/tube.go
@@ -141,14 +141,14 @@ func (t *TubeSaturation) tubeCompressionCurve(x float64) float64 {
 	// Soft knee region
 	knee := 0.1
 	if absX < threshold+knee {
-		// Quadratic interpolation in knee region
-		factor := (absX - threshold) / knee
-		compression := 1.0 + (1.0/ratio-1.0)*factor*factor
-		return math.Copysign(threshold+(absX-threshold)*compression, x)
+		// Quadratic interpolation in knee region: the slope goes from 1 to 1/ratio
+		excess := absX - threshold
+		return math.Copysign(absX+(1.0/ratio-1.0)*excess*excess/(2.0*knee), x)
 	}
 
 	// Above knee: full compression
-	compressed := threshold + (absX-threshold)/ratio
+	kneeEnd := threshold + knee*(1.0+1.0/ratio)/2.0
+	compressed := kneeEnd + (absX-threshold-knee)/ratio
 	return math.Copysign(compressed, x)
 }
 
-- 
2.43.0


From ed17726a5e6b0f7899ae1a2ffefde2f2c0d318f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:06 +0000
Subject: [PATCH 061/122] fix: tape saturation turned the sign of loud samples
 over

---
 pkg/dsp/distortion/tape.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/dsp/distortion/tape.go b/pkg/dsp/distortion/tape.go
index fb73562..ac4ee24 100644
--- a/pkg/dsp/distortion/tape.go
+++ b/pkg/dsp/distortion/tape.go
@@ -132,8 +132,10 @@ func (t *TapeSaturation) tapeSaturate(x float64) float64 {
 	// Soft clipping with tape-like curve
 	saturated := math.Tanh(driven * 0.7)
 
-	// Add subtle 3rd harmonic
-	third := driven - 0.1*driven*driven*driven
+	// Add subtle 3rd harmonic, which saturates where its curve would turn over
+	limit := math.Sqrt(10.0 / 3.0)
+	limited := math.Max(-limit, math.Min(limit, driven))
+	third := limited - 0.1*limited*limited*limited
 
 	// Mix original and harmonics
 	return saturated*0.8 + third*0.2*t.saturation
-- 
2.43.0


From c45e80b9e7fc82ae9137e4cf55a8526f76692cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:58 +0000
Subject: [PATCH 062/122] fix: blocks with more than one bus, or more than 16
 channels in one, were dropped

---
 pkg/plugin/component.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/pkg/plugin/component.go b/pkg/plugin/component.go
index b634180..5810009 100644
--- a/pkg/plugin/component.go
+++ b/pkg/plugin/component.go
@@ -270,15 +270,16 @@ func (c *componentImpl) Process(data unsafe.Pointer) error {
 
 	// Map input buffers
 	if processData.numInputs > 0 && processData.inputs != nil {
-		inputBuses := (*[1]C.struct_Steinberg_Vst_AudioBusBuffers)(unsafe.Pointer(processData.inputs))[:processData.numInputs:processData.numInputs]
-		for _, bus := range inputBuses {
-			channelBuffers32 := getChannelBuffers32(&bus)
+		inputBuses := unsafe.Slice(processData.inputs, int(processData.numInputs))
+		for i := range inputBuses {
+			bus := &inputBuses[i]
+			channelBuffers32 := getChannelBuffers32(bus)
 			if bus.numChannels > 0 && channelBuffers32 != nil {
-				channels := (*[16]*float32)(unsafe.Pointer(channelBuffers32))[:bus.numChannels:bus.numChannels]
+				channels := unsafe.Slice((**float32)(unsafe.Pointer(channelBuffers32)), int(bus.numChannels))
 				for _, channel := range channels {
 					if channel != nil {
 						// Create slice from pointer without allocation
-						samples := (*[vst3.MaxArraySize]float32)(unsafe.Pointer(channel))[:numSamples:numSamples]
+						samples := unsafe.Slice(channel, numSamples)
 						c.processCtx.Input = append(c.processCtx.Input, samples)
 					}
 				}
@@ -288,15 +289,16 @@ func (c *componentImpl) Process(data unsafe.Pointer) error {
 
 	// Map output buffers
 	if processData.numOutputs > 0 && processData.outputs != nil {
-		outputBuses := (*[1]C.struct_Steinberg_Vst_AudioBusBuffers)(unsafe.Pointer(processData.outputs))[:processData.numOutputs:processData.numOutputs]
-		for _, bus := range outputBuses {
-			channelBuffers32 := getChannelBuffers32(&bus)
+		outputBuses := unsafe.Slice(processData.outputs, int(processData.numOutputs))
+		for i := range outputBuses {
+			bus := &outputBuses[i]
+			channelBuffers32 := getChannelBuffers32(bus)
 			if bus.numChannels > 0 && channelBuffers32 != nil {
-				channels := (*[16]*float32)(unsafe.Pointer(channelBuffers32))[:bus.numChannels:bus.numChannels]
+				channels := unsafe.Slice((**float32)(unsafe.Pointer(channelBuffers32)), int(bus.numChannels))
 				for _, channel := range channels {
 					if channel != nil {
 						// Create slice from pointer without allocation
-						samples := (*[vst3.MaxArraySize]float32)(unsafe.Pointer(channel))[:numSamples:numSamples]
+						samples := unsafe.Slice(channel, numSamples)
 						c.processCtx.Output = append(c.processCtx.Output, samples)
 					}
 				}
-- 
2.43.0


From 250c90b27f5127daf6169e0be53dfb4ff58e65dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:56 +0000
Subject: [PATCH 063/122] fix: notes were lost, doubled or late when automation
 split their block, or came back in later blocks

---
 pkg/plugin/component.go | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/pkg/plugin/component.go b/pkg/plugin/component.go
index 5810009..6d7ca1c 100644
--- a/pkg/plugin/component.go
+++ b/pkg/plugin/component.go
@@ -7,6 +7,7 @@ import "C"
 import (
 	"bytes"
 	"fmt"
+	"math"
 	"sync"
 	"unsafe"
 
@@ -309,11 +310,6 @@ func (c *componentImpl) Process(data unsafe.Pointer) error {
 	// Reset parameter changes for this processing block
 	c.processCtx.ResetParameterChanges()
 
-	// Process input events (MIDI)
-	if processData.inputEvents != nil {
-		c.processInputEvents(processData.inputEvents)
-	}
-
 	// Collect parameter changes for sample-accurate automation
 	if processData.inputParameterChanges != nil {
 		// Get parameter count using C helper function
@@ -351,12 +347,18 @@ func (c *componentImpl) Process(data unsafe.Pointer) error {
 		c.processCtx.SortParameterChanges()
 
 		// Process audio in chunks between parameter changes
-		c.processSampleAccurate()
+		c.processSampleAccurate(processData.inputEvents)
 	} else {
 		// No parameter changes - process entire block
+		c.processInputEvents(processData.inputEvents, 0, math.MaxInt32)
 		c.processor.ProcessAudio(c.processCtx)
 	}
 
+	// Events belong to the block they came with
+	if numSamples > 0 {
+		c.processCtx.ClearInputEvents()
+	}
+
 	return nil
 }
 
@@ -364,8 +366,9 @@ func (c *componentImpl) GetTailSamples() uint32 {
 	return uint32(c.processor.GetTailSamples())
 }
 
-// processInputEvents processes MIDI events from the host
-func (c *componentImpl) processInputEvents(eventList *C.struct_Steinberg_Vst_IEventList) {
+// processInputEvents queues the host's MIDI events in [startSample, endSample),
+// with offsets relative to startSample
+func (c *componentImpl) processInputEvents(eventList *C.struct_Steinberg_Vst_IEventList, startSample, endSample int) {
 	if eventList == nil {
 		return
 	}
@@ -380,7 +383,11 @@ func (c *componentImpl) processInputEvents(eventList *C.struct_Steinberg_Vst_IEv
 	for i := C.int32_t(0); i < eventCount; i++ {
 		var event C.struct_Steinberg_Vst_Event
 		if C.getEvent(unsafe.Pointer(eventList), i, &event) == 0 { // kResultOk
-			c.processSingleEvent(&event)
+			offset := int(event.sampleOffset)
+			if offset >= startSample && offset < endSample {
+				event.sampleOffset = C.Steinberg_int32(offset - startSample)
+				c.processSingleEvent(&event)
+			}
 		}
 	}
 }
@@ -524,7 +531,7 @@ func (c *componentImpl) SetParamNormalizedWithNotification(id uint32, value floa
 }
 
 // processSampleAccurate processes audio with sample-accurate parameter automation
-func (c *componentImpl) processSampleAccurate() {
+func (c *componentImpl) processSampleAccurate(eventList *C.struct_Steinberg_Vst_IEventList) {
 	changes := c.processCtx.GetParameterChanges()
 	numSamples := c.processCtx.NumSamples()
 	lastOffset := 0
@@ -565,8 +572,10 @@ func (c *componentImpl) processSampleAccurate() {
 				}
 			}
 
-			// Process this chunk
+			// Process this chunk, with the events that fall into it
+			c.processInputEvents(eventList, lastOffset, change.SampleOffset)
 			c.processor.ProcessAudio(c.processCtx)
+			c.processCtx.ClearInputEvents()
 
 			lastOffset = change.SampleOffset
 		}
@@ -601,7 +610,8 @@ func (c *componentImpl) processSampleAccurate() {
 			}
 		}
 
-		// Process final chunk
+		// Process final chunk, with the events that fall into it
+		c.processInputEvents(eventList, lastOffset, numSamples)
 		c.processor.ProcessAudio(c.processCtx)
 	}
 
-- 
2.43.0


From f5a58c71c0808a697a3d84d51a5682657b636ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:58 +0000
Subject: [PATCH 064/122] fix: automation past the end of a block made calls
 without any channels

---
 pkg/plugin/component.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/plugin/component.go b/pkg/plugin/component.go
index 6d7ca1c..b09e0fd 100644
--- a/pkg/plugin/component.go
+++ b/pkg/plugin/component.go
@@ -542,6 +542,10 @@ func (c *componentImpl) processSampleAccurate(eventList *C.struct_Steinberg_Vst_
 
 	// Process each chunk between parameter changes
 	for _, change := range changes {
+		// Changes past the end apply after the last sample
+		if change.SampleOffset > numSamples {
+			change.SampleOffset = numSamples
+		}
 		if change.SampleOffset > lastOffset {
 			// Process chunk from lastOffset to change.SampleOffset
 			chunkSize := change.SampleOffset - lastOffset
-- 
2.43.0


From f4d56d3042c3627cb5e27fcd12900f9ebfc8d73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:00 +0000
Subject: [PATCH 065/122] fix: automation allocated and printed on the audio
 thread

---
 pkg/plugin/component.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/pkg/plugin/component.go b/pkg/plugin/component.go
index b09e0fd..dc96fb9 100644
--- a/pkg/plugin/component.go
+++ b/pkg/plugin/component.go
@@ -28,6 +28,8 @@ type componentImpl struct {
 	processing   bool
 	mu           sync.RWMutex
 	wrapper      *componentWrapper // Reference to wrapper for notifications
+	chunkInput   [][]float32       // Sub-slices of the block's channels between parameter changes
+	chunkOutput  [][]float32
 }
 
 // newComponent creates a new component implementation
@@ -540,6 +542,14 @@ func (c *componentImpl) processSampleAccurate(eventList *C.struct_Steinberg_Vst_
 	origInput := c.processCtx.Input
 	origOutput := c.processCtx.Output
 
+	// Room for the sub-slices of every channel, kept from block to block
+	if cap(c.chunkInput) < len(origInput) {
+		c.chunkInput = make([][]float32, 0, len(origInput))
+	}
+	if cap(c.chunkOutput) < len(origOutput) {
+		c.chunkOutput = make([][]float32, 0, len(origOutput))
+	}
+
 	// Process each chunk between parameter changes
 	for _, change := range changes {
 		// Changes past the end apply after the last sample
@@ -551,8 +561,8 @@ func (c *componentImpl) processSampleAccurate(eventList *C.struct_Steinberg_Vst_
 			chunkSize := change.SampleOffset - lastOffset
 
 			// Temporarily update context buffers to point to sub-slices (no allocation)
-			c.processCtx.Input = nil
-			c.processCtx.Output = nil
+			c.processCtx.Input = c.chunkInput[:0]
+			c.processCtx.Output = c.chunkOutput[:0]
 
 			// Set up input sub-slices
 			for ch := 0; ch < len(origInput); ch++ {
@@ -586,19 +596,13 @@ func (c *componentImpl) processSampleAccurate(eventList *C.struct_Steinberg_Vst_
 
 		// Apply the parameter change
 		c.processCtx.ApplyParameterChange(change)
-
-		// Debug output
-		if p := c.processor.GetParameters().Get(change.ParamID); p != nil {
-			fmt.Printf("[SAMPLE_ACCURATE] Applied param %d change at sample %d: value=%.6f, plain=%.1f\n",
-				change.ParamID, change.SampleOffset, change.Value, p.GetPlainValue())
-		}
 	}
 
 	// Process final chunk if there are samples remaining
 	if lastOffset < numSamples {
 		// Temporarily update context buffers for final chunk
-		c.processCtx.Input = nil
-		c.processCtx.Output = nil
+		c.processCtx.Input = c.chunkInput[:0]
+		c.processCtx.Output = c.chunkOutput[:0]
 
 		// Set up input sub-slices for final chunk
 		for ch := 0; ch < len(origInput); ch++ {
-- 
2.43.0


From 66b27d6805d232b79fc19b3d213a07793c66a3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 066/122] fix: offering more than 16 bus arrangements brought
 the host down

---
 pkg/plugin/wrapper_audio.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/plugin/wrapper_audio.go b/pkg/plugin/wrapper_audio.go
index 7ac10ed..23d8beb 100644
--- a/pkg/plugin/wrapper_audio.go
+++ b/pkg/plugin/wrapper_audio.go
@@ -21,12 +21,12 @@ func GoAudioSetBusArrangements(componentPtr unsafe.Pointer, inputs unsafe.Pointe
 	// Convert arrangements
 	var inputArrs []int64
 	if numIns > 0 && inputs != nil {
-		inputArrs = (*[16]int64)(inputs)[:numIns:numIns]
+		inputArrs = unsafe.Slice((*int64)(inputs), int(numIns))
 	}
 
 	var outputArrs []int64
 	if numOuts > 0 && outputs != nil {
-		outputArrs = (*[16]int64)(outputs)[:numOuts:numOuts]
+		outputArrs = unsafe.Slice((*int64)(outputs), int(numOuts))
 	}
 
 	err := wrapper.component.SetBusArrangements(inputArrs, outputArrs)
-- 
2.43.0


From 023d8663d1b1da111ca15b5dc54096615228bc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:42 +0000
Subject: [PATCH 067/122] fix: titles, units and bus names outside ASCII
 reached the host garbled

---
 pkg/plugin/wrapper.go            |  9 +--------
 pkg/plugin/wrapper_controller.go | 27 +++------------------------
 2 files changed, 4 insertions(+), 32 deletions(-)

diff --git a/pkg/plugin/wrapper.go b/pkg/plugin/wrapper.go
index dc100d9..f3180f5 100644
--- a/pkg/plugin/wrapper.go
+++ b/pkg/plugin/wrapper.go
@@ -353,14 +353,7 @@ func GoComponentGetBusInfo(componentPtr unsafe.Pointer, mediaType, dir, index C.
 	cBus.channelCount = C.Steinberg_int32(info.ChannelCount)
 
 	// Copy name
-	nameBytes := []byte(info.Name)
-	if len(nameBytes) > 127 {
-		nameBytes = nameBytes[:127]
-	}
-	for i, b := range nameBytes {
-		cBus.name[i] = C.Steinberg_char16(b)
-	}
-	cBus.name[len(nameBytes)] = 0
+	copyStringToTChar(info.Name, &cBus.name[0], len(cBus.name))
 
 	cBus.busType = C.Steinberg_Vst_BusType(info.BusType)
 	cBus.flags = C.Steinberg_uint32(info.Flags)
diff --git a/pkg/plugin/wrapper_controller.go b/pkg/plugin/wrapper_controller.go
index 0f5f581..f01a3b7 100644
--- a/pkg/plugin/wrapper_controller.go
+++ b/pkg/plugin/wrapper_controller.go
@@ -56,34 +56,13 @@ func GoEditControllerGetParameterInfo(componentPtr unsafe.Pointer, paramIndex C.
 	cInfo.id = C.Steinberg_Vst_ParamID(paramInfo.ID)
 
 	// Copy title
-	titleBytes := []byte(paramInfo.Title)
-	if len(titleBytes) > 127 {
-		titleBytes = titleBytes[:127]
-	}
-	for i, b := range titleBytes {
-		cInfo.title[i] = C.Steinberg_char16(b)
-	}
-	cInfo.title[len(titleBytes)] = 0
+	copyStringToTChar(paramInfo.Title, &cInfo.title[0], len(cInfo.title))
 
 	// Copy short title
-	shortTitleBytes := []byte(paramInfo.ShortTitle)
-	if len(shortTitleBytes) > 127 {
-		shortTitleBytes = shortTitleBytes[:127]
-	}
-	for i, b := range shortTitleBytes {
-		cInfo.shortTitle[i] = C.Steinberg_char16(b)
-	}
-	cInfo.shortTitle[len(shortTitleBytes)] = 0
+	copyStringToTChar(paramInfo.ShortTitle, &cInfo.shortTitle[0], len(cInfo.shortTitle))
 
 	// Copy units
-	unitsBytes := []byte(paramInfo.Units)
-	if len(unitsBytes) > 127 {
-		unitsBytes = unitsBytes[:127]
-	}
-	for i, b := range unitsBytes {
-		cInfo.units[i] = C.Steinberg_char16(b)
-	}
-	cInfo.units[len(unitsBytes)] = 0
+	copyStringToTChar(paramInfo.Units, &cInfo.units[0], len(cInfo.units))
 
 	cInfo.stepCount = C.Steinberg_int32(paramInfo.StepCount)
 	cInfo.defaultNormalizedValue = C.Steinberg_Vst_ParamValue(paramInfo.DefaultValue)
-- 
2.43.0


From 10fa1200688eeabe955e6712befd3c089e8290d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:44 +0000
Subject: [PATCH 068/122] fix: characters beyond the basic plane were garbled
 to and from the host

---
 pkg/plugin/helpers.go | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/pkg/plugin/helpers.go b/pkg/plugin/helpers.go
index 142d277..18ba12f 100644
--- a/pkg/plugin/helpers.go
+++ b/pkg/plugin/helpers.go
@@ -8,7 +8,10 @@ package plugin
 //     return bus->Steinberg_Vst_AudioBusBuffers_channelBuffers32;
 // }
 import "C"
-import "unsafe"
+import (
+	"unicode/utf16"
+	"unsafe"
+)
 
 // getChannelBuffers32 extracts the 32-bit channel buffers from an audio bus
 func getChannelBuffers32(bus *C.struct_Steinberg_Vst_AudioBusBuffers) **C.float {
@@ -17,17 +20,20 @@ func getChannelBuffers32(bus *C.struct_Steinberg_Vst_AudioBusBuffers) **C.float
 
 // copyStringToTChar copies a Go string to a VST3 TChar (UTF16) buffer
 func copyStringToTChar(src string, dst *C.Steinberg_Vst_TChar, maxLen int) {
-	// Convert to runes for proper Unicode handling
-	runes := []rune(src)
-	n := len(runes)
+	units := utf16.Encode([]rune(src))
+	n := len(units)
 	if n > maxLen-1 {
 		n = maxLen - 1
+		// Don't cut a surrogate pair in half
+		if units[n] >= 0xDC00 && units[n] <= 0xDFFF {
+			n--
+		}
 	}
 
-	// Copy runes as UTF16
+	// Copy as UTF16
 	for i := 0; i < n; i++ {
-		*(*C.Steinberg_char16)(unsafe.Pointer(
-			uintptr(unsafe.Pointer(dst)) + uintptr(i*2))) = C.Steinberg_char16(runes[i])
+		*(*uint16)(unsafe.Pointer(
+			uintptr(unsafe.Pointer(dst)) + uintptr(i*2))) = units[i]
 	}
 
 	// Null terminate
@@ -53,11 +59,5 @@ func stringFromTChar(src *C.Steinberg_Vst_TChar) string {
 	}
 
 	// Convert to runes
-	runes := make([]rune, length)
-	for i := 0; i < length; i++ {
-		runes[i] = rune(*(*C.Steinberg_char16)(unsafe.Pointer(
-			uintptr(unsafe.Pointer(src)) + uintptr(i*2))))
-	}
-
-	return string(runes)
+	return string(utf16.Decode(unsafe.Slice((*uint16)(unsafe.Pointer(src)), length)))
 }
-- 
2.43.0


From 1213b2a7de93d0766026259c420fe6b4535636d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:12 +0000
Subject: [PATCH 069/122] fix: every bus, and ones that are not there, was
 announced to the host as stereo

---
 pkg/plugin/component.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/pkg/plugin/component.go b/pkg/plugin/component.go
index dc96fb9..53efbd9 100644
--- a/pkg/plugin/component.go
+++ b/pkg/plugin/component.go
@@ -159,8 +159,26 @@ func (c *componentImpl) SetBusArrangements(inputs, outputs []int64) error {
 }
 
 func (c *componentImpl) GetBusArrangement(direction, index int32) (int64, error) {
-	// Return stereo by default
-	return int64(3), nil // Left + Right
+	info := c.processor.GetBuses().GetBusInfo(bus.MediaTypeAudio, bus.Direction(direction), index)
+	if info == nil {
+		return 0, vst3.ErrInvalidArgument
+	}
+
+	switch info.ChannelCount {
+	case 1:
+		return 1 << 19, nil // Mono
+	case 2:
+		return 0x3, nil // Left + Right
+	case 4:
+		return 0x33, nil // Left + Right + surrounds
+	case 6:
+		return 0x3F, nil // 5.1
+	case 8:
+		return 0x63F, nil // 7.1
+	default:
+		// One speaker for each channel
+		return int64(1)<<uint(info.ChannelCount) - 1, nil
+	}
 }
 
 func (c *componentImpl) CanProcessSampleSize(symbolicSampleSize int32) error {
-- 
2.43.0


From 7b422759173cd94299b23297b736151b61d7a0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:58 +0000
Subject: [PATCH 070/122] fix: a state the host took only part of was reported
 as saved

---
 pkg/vst3/stream.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/pkg/vst3/stream.go b/pkg/vst3/stream.go
index 98ce451..32bbd1f 100644
--- a/pkg/vst3/stream.go
+++ b/pkg/vst3/stream.go
@@ -54,18 +54,19 @@ func (s *StreamWrapper) Read(buffer []byte) (int32, error) {
 	return int32(numBytesRead), nil
 }
 
-// Write writes data to the stream
+// Write writes all data to the stream, which may take it in pieces
 func (s *StreamWrapper) Write(buffer []byte) (int32, error) {
-	if len(buffer) == 0 {
-		return 0, nil
-	}
-
-	var numBytesWritten C.Steinberg_int32
-	result := C.stream_write(s.stream, unsafe.Pointer(&buffer[0]), C.Steinberg_int32(len(buffer)), &numBytesWritten)
-	if result != 0 {
-		return 0, ErrNotImplemented
+	written := int32(0)
+	for len(buffer) > 0 {
+		var numBytesWritten C.Steinberg_int32
+		result := C.stream_write(s.stream, unsafe.Pointer(&buffer[0]), C.Steinberg_int32(len(buffer)), &numBytesWritten)
+		if result != 0 || numBytesWritten <= 0 {
+			return written, ErrNotImplemented
+		}
+		written += int32(numBytesWritten)
+		buffer = buffer[numBytesWritten:]
 	}
-	return int32(numBytesWritten), nil
+	return written, nil
 }
 
 // WriteInt32 writes an int32 to the stream
-- 
2.43.0


From 71ccb0a759bbef02308420bff087e802c31dbfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:00 +0000
Subject: [PATCH 071/122] fix: data a stream gave in pieces was taken for its
 end

---
 pkg/vst3/stream.go | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/pkg/vst3/stream.go b/pkg/vst3/stream.go
index 32bbd1f..224b5f8 100644
--- a/pkg/vst3/stream.go
+++ b/pkg/vst3/stream.go
@@ -54,6 +54,22 @@ func (s *StreamWrapper) Read(buffer []byte) (int32, error) {
 	return int32(numBytesRead), nil
 }
 
+// readFull reads until the buffer is full or the stream ends
+func (s *StreamWrapper) readFull(buffer []byte) (int32, error) {
+	total := int32(0)
+	for int(total) < len(buffer) {
+		n, err := s.Read(buffer[total:])
+		if err != nil {
+			return total, err
+		}
+		if n <= 0 {
+			break // End of stream
+		}
+		total += n
+	}
+	return total, nil
+}
+
 // Write writes all data to the stream, which may take it in pieces
 func (s *StreamWrapper) Write(buffer []byte) (int32, error) {
 	written := int32(0)
@@ -80,7 +96,7 @@ func (s *StreamWrapper) WriteInt32(value int32) error {
 // ReadInt32 reads an int32 from the stream
 func (s *StreamWrapper) ReadInt32() (int32, error) {
 	buf := make([]byte, 4)
-	n, err := s.Read(buf)
+	n, err := s.readFull(buf)
 	if err != nil {
 		return 0, err
 	}
@@ -101,7 +117,7 @@ func (s *StreamWrapper) WriteFloat64(value float64) error {
 // ReadFloat64 reads a float64 from the stream
 func (s *StreamWrapper) ReadFloat64() (float64, error) {
 	buf := make([]byte, 8)
-	n, err := s.Read(buf)
+	n, err := s.readFull(buf)
 	if err != nil {
 		return 0, err
 	}
@@ -138,7 +154,7 @@ func (s *StreamWrapper) ReadString() (string, error) {
 	}
 	// Read string data
 	buf := make([]byte, length)
-	n, err := s.Read(buf)
+	n, err := s.readFull(buf)
 	if err != nil {
 		return "", err
 	}
@@ -184,7 +200,7 @@ func (s *StreamWrapper) ReadAll() ([]byte, error) {
 
 	// Read all remaining data
 	buffer := make([]byte, remaining)
-	n, err := s.Read(buffer)
+	n, err := s.readFull(buffer)
 	if err != nil {
 		return nil, err
 	}
@@ -199,7 +215,7 @@ func (s *StreamWrapper) readAllChunked() ([]byte, error) {
 
 	for {
 		chunk := make([]byte, chunkSize)
-		n, err := s.Read(chunk)
+		n, err := s.readFull(chunk)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 6b7a3190a3127acf5610c8369ad0e3cbd4753aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:22 +0000
Subject: [PATCH 072/122] fix: a string with a corrupted, negative length in a
 stream brought the host down

---
 pkg/vst3/stream.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/vst3/stream.go b/pkg/vst3/stream.go
index 224b5f8..def6fed 100644
--- a/pkg/vst3/stream.go
+++ b/pkg/vst3/stream.go
@@ -149,6 +149,9 @@ func (s *StreamWrapper) ReadString() (string, error) {
 	if err != nil {
 		return "", err
 	}
+	if length < 0 {
+		return "", ErrInvalidArgument
+	}
 	if length == 0 {
 		return "", nil
 	}
-- 
2.43.0


From ba8024ab95bfbf1e7f2cb1438ae4b396f0e3ff47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:08 +0000
Subject: [PATCH 073/122] fix: a string with a corrupted length in a stream
 allocated up to 2 GB

---
 pkg/vst3/stream.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/pkg/vst3/stream.go b/pkg/vst3/stream.go
index def6fed..27d9ed0 100644
--- a/pkg/vst3/stream.go
+++ b/pkg/vst3/stream.go
@@ -155,14 +155,20 @@ func (s *StreamWrapper) ReadString() (string, error) {
 	if length == 0 {
 		return "", nil
 	}
-	// Read string data
-	buf := make([]byte, length)
-	n, err := s.readFull(buf)
-	if err != nil {
-		return "", err
-	}
-	if n != length {
-		return "", ErrNotImplemented
+	// Read string data piece by piece, so that a corrupted length
+	// doesn't allocate more than the stream holds
+	var buf []byte
+	for remaining := length; remaining > 0; {
+		chunk := make([]byte, min(remaining, 4096))
+		n, err := s.readFull(chunk)
+		if err != nil {
+			return "", err
+		}
+		if int(n) != len(chunk) {
+			return "", ErrNotImplemented
+		}
+		buf = append(buf, chunk...)
+		remaining -= n
 	}
 	return string(buf), nil
 }
-- 
2.43.0


From 007cd82faea3d282b8f2780de55c45b81b15740c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:19 +0000
Subject: [PATCH 074/122] fix: the factory was used after it was freed when a
 host asked for it again

---
 bridge/bridge.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bridge/bridge.c b/bridge/bridge.c
index 6427f2f..8b83086 100644
--- a/bridge/bridge.c
+++ b/bridge/bridge.c
@@ -49,6 +49,9 @@ struct Steinberg_IPluginFactory* GetPluginFactory() {
         globalFactory->vtbl = &factoryVtbl;
         globalFactory->refCount = 1;
         DBG_LOG("GetPluginFactory: Created factory at %p", globalFactory);
+    } else {
+        // Every caller owns a reference of its own
+        factory_addRef(globalFactory);
     }
     return (struct Steinberg_IPluginFactory*)globalFactory;
 }
@@ -98,6 +101,7 @@ static Steinberg_uint32 SMTG_STDMETHODCALLTYPE factory_addRef(void* thisInterfac
 static Steinberg_uint32 SMTG_STDMETHODCALLTYPE factory_release(void* thisInterface) {
     PluginFactory* factory = (PluginFactory*)thisInterface;
     if (--factory->refCount == 0) {
+        globalFactory = NULL;
         free(factory);
         return 0;
     }
-- 
2.43.0


From b05f02598319567396c6b9751c4f17d1e9d3b265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:20 +0000
Subject: [PATCH 075/122] fix: createInstance gave out the component whatever
 interface was asked for

---
 bridge/bridge.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bridge/bridge.c b/bridge/bridge.c
index 8b83086..5002596 100644
--- a/bridge/bridge.c
+++ b/bridge/bridge.c
@@ -137,8 +137,11 @@ static Steinberg_tresult SMTG_STDMETHODCALLTYPE factory_createInstance(void* thi
     }
     
     DBG_LOG("factory_createInstance: Created instance at %p", instance);
-    *obj = instance;
-    return ((Steinberg_tresult)0);
+    // Hand out the interface that was asked for, which holds the only reference
+    struct Steinberg_FUnknown* unknown = (struct Steinberg_FUnknown*)instance;
+    Steinberg_tresult result = unknown->lpVtbl->queryInterface(unknown, iid, obj);
+    unknown->lpVtbl->release(unknown);
+    return result;
 }
 
 // Parameter automation helper functions implementation
-- 
2.43.0


From b5da802f785b4c5e5fedfd0787d838f0e2a47138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:21 +0000
Subject: [PATCH 076/122] fix: a class with a negative index was reported as
 described

---
 bridge/bridge.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bridge/bridge.c b/bridge/bridge.c
index 5002596..9b09ca8 100644
--- a/bridge/bridge.c
+++ b/bridge/bridge.c
@@ -119,7 +119,7 @@ static Steinberg_int32 SMTG_STDMETHODCALLTYPE factory_countClasses(void* thisInt
 }
 
 static Steinberg_tresult SMTG_STDMETHODCALLTYPE factory_getClassInfo(void* thisInterface, Steinberg_int32 index, struct Steinberg_PClassInfo* info) {
-    if (index >= GoCountClasses()) {
+    if (index < 0 || index >= GoCountClasses()) {
         return ((Steinberg_tresult)1);
     }
     GoGetClassInfo(index, (char*)info->cid, &info->cardinality, info->category, info->name);
-- 
2.43.0


From f0e69535fec9d86adc7ecc5b4f47fb8944cb2e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:23 +0000
Subject: [PATCH 077/122] fix: long vendor, URL, e-mail or plugin names were
 written past the end of the host's memory

---
 pkg/plugin/helpers.go | 16 ++++++++++++++++
 pkg/plugin/wrapper.go | 12 +++++++-----
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/pkg/plugin/helpers.go b/pkg/plugin/helpers.go
index 18ba12f..f06f0d2 100644
--- a/pkg/plugin/helpers.go
+++ b/pkg/plugin/helpers.go
@@ -10,9 +10,25 @@ package plugin
 import "C"
 import (
 	"unicode/utf16"
+	"unicode/utf8"
 	"unsafe"
 )
 
+// copyStringToChar8 copies a string to a fixed-size char buffer, cutting it
+// between characters where it does not fit
+func copyStringToChar8(src string, dst *C.char, size int) {
+	n := len(src)
+	if n > size-1 {
+		n = size - 1
+		for n > 0 && !utf8.RuneStart(src[n]) {
+			n--
+		}
+	}
+	buf := unsafe.Slice((*byte)(unsafe.Pointer(dst)), size)
+	copy(buf, src[:n])
+	buf[n] = 0
+}
+
 // getChannelBuffers32 extracts the 32-bit channel buffers from an audio bus
 func getChannelBuffers32(bus *C.struct_Steinberg_Vst_AudioBusBuffers) **C.float {
 	return C.getChannelBuffers32(bus)
diff --git a/pkg/plugin/wrapper.go b/pkg/plugin/wrapper.go
index f3180f5..07aaf4f 100644
--- a/pkg/plugin/wrapper.go
+++ b/pkg/plugin/wrapper.go
@@ -172,9 +172,10 @@ func (w *componentWrapper) notifyParamEndEdit(paramID uint32) {
 
 //export GoGetFactoryInfo
 func GoGetFactoryInfo(vendor, url, email *C.char, flags *C.int32_t) {
-	C.strcpy(vendor, C.CString(globalFactoryInfo.Vendor))
-	C.strcpy(url, C.CString(globalFactoryInfo.URL))
-	C.strcpy(email, C.CString(globalFactoryInfo.Email))
+	var info C.struct_Steinberg_PFactoryInfo
+	copyStringToChar8(globalFactoryInfo.Vendor, vendor, len(info.vendor))
+	copyStringToChar8(globalFactoryInfo.URL, url, len(info.url))
+	copyStringToChar8(globalFactoryInfo.Email, email, len(info.email))
 	*flags = C.Steinberg_PFactoryInfo_FactoryFlags_kUnicode
 }
 
@@ -202,8 +203,9 @@ func GoGetClassInfo(index C.int32_t, cid *C.char, cardinality *C.int32_t, catego
 	*cardinality = C.Steinberg_PClassInfo_ClassCardinality_kManyInstances
 
 	// Set category and name
-	C.strcpy(category, C.CString("Audio Module Class"))
-	C.strcpy(name, C.CString(info.Name))
+	var classInfo C.struct_Steinberg_PClassInfo
+	copyStringToChar8("Audio Module Class", category, len(classInfo.category))
+	copyStringToChar8(info.Name, name, len(classInfo.name))
 }
 
 //export GoCreateInstance
-- 
2.43.0


From f57d022f7c7732bbf6800933a6b62127b4d01941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:24 +0000
Subject: [PATCH 078/122] fix: references taken and given back by several
 threads were miscounted

---
 bridge/bridge.c    | 7 ++++---
 bridge/component.c | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/bridge/bridge.c b/bridge/bridge.c
index 9b09ca8..6285e10 100644
--- a/bridge/bridge.c
+++ b/bridge/bridge.c
@@ -95,17 +95,18 @@ static Steinberg_tresult SMTG_STDMETHODCALLTYPE factory_queryInterface(void* thi
 
 static Steinberg_uint32 SMTG_STDMETHODCALLTYPE factory_addRef(void* thisInterface) {
     PluginFactory* factory = (PluginFactory*)thisInterface;
-    return ++factory->refCount;
+    return __atomic_add_fetch(&factory->refCount, 1, __ATOMIC_RELAXED);
 }
 
 static Steinberg_uint32 SMTG_STDMETHODCALLTYPE factory_release(void* thisInterface) {
     PluginFactory* factory = (PluginFactory*)thisInterface;
-    if (--factory->refCount == 0) {
+    int refCount = __atomic_sub_fetch(&factory->refCount, 1, __ATOMIC_ACQ_REL);
+    if (refCount == 0) {
         globalFactory = NULL;
         free(factory);
         return 0;
     }
-    return factory->refCount;
+    return refCount;
 }
 
 // IPluginFactory implementation - these will call into Go
diff --git a/bridge/component.c b/bridge/component.c
index 88278e2..a9f118c 100644
--- a/bridge/component.c
+++ b/bridge/component.c
@@ -205,18 +205,19 @@ static Steinberg_tresult SMTG_STDMETHODCALLTYPE component_queryInterface(void* t
 
 static Steinberg_uint32 SMTG_STDMETHODCALLTYPE component_addRef(void* thisInterface) {
     Component* component = (Component*)thisInterface;
-    return ++component->refCount;
+    return __atomic_add_fetch(&component->refCount, 1, __ATOMIC_RELAXED);
 }
 
 static Steinberg_uint32 SMTG_STDMETHODCALLTYPE component_release(void* thisInterface) {
     Component* component = (Component*)thisInterface;
-    if (--component->refCount == 0) {
+    int refCount = __atomic_sub_fetch(&component->refCount, 1, __ATOMIC_ACQ_REL);
+    if (refCount == 0) {
         // Release Go component
         GoReleaseComponent(component->goComponent);
         free(component);
         return 0;
     }
-    return component->refCount;
+    return refCount;
 }
 
 // IPluginBase implementation
-- 
2.43.0


From ce93f1f7bf277eb32d9036f100b562de2bee056c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:27 +0000
Subject: [PATCH 079/122] fix: a plugin that panicked was reported to the host
 as working

---
 pkg/plugin/wrapper.go       | 14 ++++++++------
 pkg/plugin/wrapper_audio.go |  4 ++--
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/pkg/plugin/wrapper.go b/pkg/plugin/wrapper.go
index 07aaf4f..b3ce419 100644
--- a/pkg/plugin/wrapper.go
+++ b/pkg/plugin/wrapper.go
@@ -85,9 +85,11 @@ func SetFactoryInfo(info FactoryInfo) {
 	globalFactoryInfo = info
 }
 
-// recoverPanic is a helper to recover from panics in callbacks
-func recoverPanic(operation string) {
+// recoverPanic is a helper to recover from panics in callbacks and report
+// the failure to the host
+func recoverPanic(operation string, result *C.Steinberg_tresult) {
 	if r := recover(); r != nil {
+		*result = C.Steinberg_tresult(vst3.ResultFalse)
 		// Log the panic but don't propagate it to C code
 		_ = r
 	}
@@ -270,8 +272,8 @@ func GoReleaseComponent(componentPtr unsafe.Pointer) {
 // All the IComponent callbacks
 //
 //export GoComponentInitialize
-func GoComponentInitialize(componentPtr unsafe.Pointer, context unsafe.Pointer) C.Steinberg_tresult {
-	defer recoverPanic("GoComponentInitialize")
+func GoComponentInitialize(componentPtr unsafe.Pointer, context unsafe.Pointer) (result C.Steinberg_tresult) {
+	defer recoverPanic("GoComponentInitialize", &result)
 
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
@@ -286,8 +288,8 @@ func GoComponentInitialize(componentPtr unsafe.Pointer, context unsafe.Pointer)
 }
 
 //export GoComponentTerminate
-func GoComponentTerminate(componentPtr unsafe.Pointer) C.Steinberg_tresult {
-	defer recoverPanic("GoComponentTerminate")
+func GoComponentTerminate(componentPtr unsafe.Pointer) (result C.Steinberg_tresult) {
+	defer recoverPanic("GoComponentTerminate", &result)
 
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
diff --git a/pkg/plugin/wrapper_audio.go b/pkg/plugin/wrapper_audio.go
index 23d8beb..616ea86 100644
--- a/pkg/plugin/wrapper_audio.go
+++ b/pkg/plugin/wrapper_audio.go
@@ -114,8 +114,8 @@ func GoAudioSetProcessing(componentPtr unsafe.Pointer, state C.int32_t) C.Steinb
 }
 
 //export GoAudioProcess
-func GoAudioProcess(componentPtr unsafe.Pointer, data unsafe.Pointer) C.Steinberg_tresult {
-	defer recoverPanic("GoAudioProcess")
+func GoAudioProcess(componentPtr unsafe.Pointer, data unsafe.Pointer) (result C.Steinberg_tresult) {
+	defer recoverPanic("GoAudioProcess", &result)
 
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
-- 
2.43.0


From 214d8a3f4bc8c876c0a2c91af654baf982b6469a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:43 +0000
Subject: [PATCH 080/122] fix: a time signature of no beats gave a bar number
 of no meaning

---
 pkg/framework/process/context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/framework/process/context.go b/pkg/framework/process/context.go
index 6dd8ccf..4dc4875 100644
--- a/pkg/framework/process/context.go
+++ b/pkg/framework/process/context.go
@@ -53,7 +53,7 @@ type TransportInfo struct {
 
 // GetBarsBeats returns the current position in bars and beats
 func (t *TransportInfo) GetBarsBeats() (bars int, beats float64) {
-	if !t.HasMusicalTime || !t.HasTimeSignature || t.TimeSigDenominator == 0 {
+	if !t.HasMusicalTime || !t.HasTimeSignature || t.TimeSigNumerator <= 0 || t.TimeSigDenominator <= 0 {
 		return 0, 0
 	}
 
-- 
2.43.0


From a2b3f6b91dbaadf65edf60a21c70aff92fbe977e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:44 +0000
Subject: [PATCH 081/122] fix: before the start of the project the position in
 the beat was negative

---
 pkg/framework/process/context.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/framework/process/context.go b/pkg/framework/process/context.go
index 4dc4875..0a6ef7e 100644
--- a/pkg/framework/process/context.go
+++ b/pkg/framework/process/context.go
@@ -3,6 +3,7 @@ package process
 
 import (
 	"fmt"
+	"math"
 	"sort"
 
 	"github.com/justyntemme/vst3go/pkg/framework/param"
@@ -62,7 +63,7 @@ func (t *TransportInfo) GetBarsBeats() (bars int, beats float64) {
 	quarterNotesPerBeat := 4.0 / float64(t.TimeSigDenominator)
 	totalBeats := t.ProjectTimeMusic / quarterNotesPerBeat
 
-	bars = int(totalBeats / beatsPerBar)
+	bars = int(math.Floor(totalBeats / beatsPerBar)) // down, also before the start
 	beats = totalBeats - float64(bars)*beatsPerBar
 
 	return bars, beats
@@ -92,11 +93,11 @@ func (t *TransportInfo) GetBeatPosition() float64 {
 	if t.HasTimeSignature && t.TimeSigDenominator > 0 {
 		quarterNotesPerBeat := 4.0 / float64(t.TimeSigDenominator)
 		beatPosition := (positionInBar / quarterNotesPerBeat)
-		return beatPosition - float64(int(beatPosition)) // Get fractional part
+		return beatPosition - math.Floor(beatPosition) // Get fractional part
 	}
 
 	// Default to quarter note = beat
-	return positionInBar - float64(int(positionInBar))
+	return positionInBar - math.Floor(positionInBar)
 }
 
 // IsOnBeat returns true if the current position is at the start of a beat
-- 
2.43.0


From 243238292e9595ca410a5f74bc0240bf9ef241de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:45 +0000
Subject: [PATCH 082/122] fix: a panic in the plugin outside Initialize,
 Terminate and Process ended the host

---
 pkg/plugin/wrapper.go            | 20 ++++++++++++++++----
 pkg/plugin/wrapper_audio.go      |  4 +++-
 pkg/plugin/wrapper_controller.go |  8 ++++++--
 3 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/pkg/plugin/wrapper.go b/pkg/plugin/wrapper.go
index b3ce419..a3d3b7f 100644
--- a/pkg/plugin/wrapper.go
+++ b/pkg/plugin/wrapper.go
@@ -211,7 +211,13 @@ func GoGetClassInfo(index C.int32_t, cid *C.char, cardinality *C.int32_t, catego
 }
 
 //export GoCreateInstance
-func GoCreateInstance(cid *C.char, iid *C.char) unsafe.Pointer {
+func GoCreateInstance(cid *C.char, iid *C.char) (instance unsafe.Pointer) {
+	defer func() {
+		if r := recover(); r != nil {
+			instance = nil
+		}
+	}()
+
 	if globalPlugin == nil {
 		return nil
 	}
@@ -380,7 +386,9 @@ func GoComponentActivateBus(componentPtr unsafe.Pointer, mediaType, dir, index,
 }
 
 //export GoComponentSetActive
-func GoComponentSetActive(componentPtr unsafe.Pointer, state C.int32_t) C.Steinberg_tresult {
+func GoComponentSetActive(componentPtr unsafe.Pointer, state C.int32_t) (result C.Steinberg_tresult) {
+	defer recoverPanic("GoComponentSetActive", &result)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return C.Steinberg_tresult(vst3.ResultFalse)
@@ -394,7 +402,9 @@ func GoComponentSetActive(componentPtr unsafe.Pointer, state C.int32_t) C.Steinb
 }
 
 //export GoComponentSetState
-func GoComponentSetState(componentPtr unsafe.Pointer, state unsafe.Pointer) C.Steinberg_tresult {
+func GoComponentSetState(componentPtr unsafe.Pointer, state unsafe.Pointer) (result C.Steinberg_tresult) {
+	defer recoverPanic("GoComponentSetState", &result)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return C.Steinberg_tresult(vst3.ResultFalse)
@@ -420,7 +430,9 @@ func GoComponentSetState(componentPtr unsafe.Pointer, state unsafe.Pointer) C.St
 }
 
 //export GoComponentGetState
-func GoComponentGetState(componentPtr unsafe.Pointer, state unsafe.Pointer) C.Steinberg_tresult {
+func GoComponentGetState(componentPtr unsafe.Pointer, state unsafe.Pointer) (result C.Steinberg_tresult) {
+	defer recoverPanic("GoComponentGetState", &result)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return C.Steinberg_tresult(vst3.ResultFalse)
diff --git a/pkg/plugin/wrapper_audio.go b/pkg/plugin/wrapper_audio.go
index 616ea86..c36a1ec 100644
--- a/pkg/plugin/wrapper_audio.go
+++ b/pkg/plugin/wrapper_audio.go
@@ -77,7 +77,9 @@ func GoAudioGetLatencySamples(componentPtr unsafe.Pointer) C.uint32_t {
 }
 
 //export GoAudioSetupProcessing
-func GoAudioSetupProcessing(componentPtr unsafe.Pointer, setup unsafe.Pointer) C.Steinberg_tresult {
+func GoAudioSetupProcessing(componentPtr unsafe.Pointer, setup unsafe.Pointer) (result C.Steinberg_tresult) {
+	defer recoverPanic("GoAudioSetupProcessing", &result)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return C.Steinberg_tresult(vst3.ResultFalse)
diff --git a/pkg/plugin/wrapper_controller.go b/pkg/plugin/wrapper_controller.go
index f01a3b7..1bfed7a 100644
--- a/pkg/plugin/wrapper_controller.go
+++ b/pkg/plugin/wrapper_controller.go
@@ -76,7 +76,9 @@ func GoEditControllerGetParameterInfo(componentPtr unsafe.Pointer, paramIndex C.
 }
 
 //export GoEditControllerGetParamStringByValue
-func GoEditControllerGetParamStringByValue(componentPtr unsafe.Pointer, id C.Steinberg_Vst_ParamID, valueNormalized C.Steinberg_Vst_ParamValue, string *C.Steinberg_Vst_TChar) C.Steinberg_tresult {
+func GoEditControllerGetParamStringByValue(componentPtr unsafe.Pointer, id C.Steinberg_Vst_ParamID, valueNormalized C.Steinberg_Vst_ParamValue, string *C.Steinberg_Vst_TChar) (result C.Steinberg_tresult) {
+	defer recoverPanic("GoEditControllerGetParamStringByValue", &result)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return C.Steinberg_tresult(vst3.ResultFalse)
@@ -95,7 +97,9 @@ func GoEditControllerGetParamStringByValue(componentPtr unsafe.Pointer, id C.Ste
 }
 
 //export GoEditControllerGetParamValueByString
-func GoEditControllerGetParamValueByString(componentPtr unsafe.Pointer, id C.Steinberg_Vst_ParamID, string *C.Steinberg_Vst_TChar, valueNormalized *C.Steinberg_Vst_ParamValue) C.Steinberg_tresult {
+func GoEditControllerGetParamValueByString(componentPtr unsafe.Pointer, id C.Steinberg_Vst_ParamID, string *C.Steinberg_Vst_TChar, valueNormalized *C.Steinberg_Vst_ParamValue) (result C.Steinberg_tresult) {
+	defer recoverPanic("GoEditControllerGetParamValueByString", &result)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return C.Steinberg_tresult(vst3.ResultFalse)
-- 
2.43.0


From 353a12367213e5e1061b66e8b45ae340a9538315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:25 +0000
Subject: [PATCH 083/122] fix: after a block the plugin panicked in, its notes
 and buffers were left over for the next

---
 pkg/plugin/component.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/pkg/plugin/component.go b/pkg/plugin/component.go
index 53efbd9..ce673cb 100644
--- a/pkg/plugin/component.go
+++ b/pkg/plugin/component.go
@@ -285,6 +285,11 @@ func (c *componentImpl) Process(data unsafe.Pointer) error {
 	// Set input/output buffers (slicing pre-allocated arrays, no allocation)
 	numSamples := int(processData.numSamples)
 
+	// Events belong to the block they came with, also when it fails
+	if numSamples > 0 {
+		defer c.processCtx.ClearInputEvents()
+	}
+
 	// Clear slices (no allocation, just updating slice headers)
 	c.processCtx.Input = c.processCtx.Input[:0]
 	c.processCtx.Output = c.processCtx.Output[:0]
@@ -374,11 +379,6 @@ func (c *componentImpl) Process(data unsafe.Pointer) error {
 		c.processor.ProcessAudio(c.processCtx)
 	}
 
-	// Events belong to the block they came with
-	if numSamples > 0 {
-		c.processCtx.ClearInputEvents()
-	}
-
 	return nil
 }
 
@@ -559,6 +559,11 @@ func (c *componentImpl) processSampleAccurate(eventList *C.struct_Steinberg_Vst_
 	// Store original buffers
 	origInput := c.processCtx.Input
 	origOutput := c.processCtx.Output
+	defer func() {
+		// Restore original buffers
+		c.processCtx.Input = origInput
+		c.processCtx.Output = origOutput
+	}()
 
 	// Room for the sub-slices of every channel, kept from block to block
 	if cap(c.chunkInput) < len(origInput) {
@@ -640,8 +645,4 @@ func (c *componentImpl) processSampleAccurate(eventList *C.struct_Steinberg_Vst_
 		c.processInputEvents(eventList, lastOffset, numSamples)
 		c.processor.ProcessAudio(c.processCtx)
 	}
-
-	// Restore original buffers
-	c.processCtx.Input = origInput
-	c.processCtx.Output = origOutput
 }
-- 
2.43.0


From c9263b2f48bc2df6b3b40692e232240291f7779d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:50 +0000
Subject: [PATCH 084/122] fix: sorting the parameter changes of a block
 allocated on the audio thread

---
 pkg/framework/process/context.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pkg/framework/process/context.go b/pkg/framework/process/context.go
index 0a6ef7e..6462442 100644
--- a/pkg/framework/process/context.go
+++ b/pkg/framework/process/context.go
@@ -4,7 +4,6 @@ package process
 import (
 	"fmt"
 	"math"
-	"sort"
 
 	"github.com/justyntemme/vst3go/pkg/framework/param"
 	"github.com/justyntemme/vst3go/pkg/midi"
@@ -248,11 +247,17 @@ func (c *Context) ResetParameterChanges() {
 // SortParameterChanges sorts parameter changes by sample offset for processing
 func (c *Context) SortParameterChanges() {
 	if c.changeCount > 1 {
-		// Sort only the active portion of the slice
+		// Sort only the active portion of the slice, in place
 		// Stable: changes at the same offset stay in the order the host sent them
-		sort.SliceStable(c.paramChanges[:c.changeCount], func(i, j int) bool {
-			return c.paramChanges[i].SampleOffset < c.paramChanges[j].SampleOffset
-		})
+		changes := c.paramChanges[:c.changeCount]
+		for i := 1; i < len(changes); i++ {
+			change := changes[i]
+			j := i
+			for ; j > 0 && changes[j-1].SampleOffset > change.SampleOffset; j-- {
+				changes[j] = changes[j-1]
+			}
+			changes[j] = change
+		}
 	}
 }
 
-- 
2.43.0


From c679fae1643596b24a04b298f60587daf76ceda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:51 +0000
Subject: [PATCH 085/122] fix: SetParameterAtOffset printed, and allocated, on
 the audio thread

---
 pkg/framework/process/context.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/pkg/framework/process/context.go b/pkg/framework/process/context.go
index 6462442..c967661 100644
--- a/pkg/framework/process/context.go
+++ b/pkg/framework/process/context.go
@@ -2,7 +2,6 @@
 package process
 
 import (
-	"fmt"
 	"math"
 
 	"github.com/justyntemme/vst3go/pkg/framework/param"
@@ -218,10 +217,6 @@ func (c *Context) SetParameterAtOffset(paramID uint32, value float64, sampleOffs
 	if param := c.params.Get(paramID); param != nil {
 		// For backward compatibility, apply the change immediately
 		param.SetValue(value)
-
-		// Debug output for parameter changes
-		fmt.Printf("[PARAM_AUTOMATION] SetParameterAtOffset: id=%d, value=%.6f, offset=%d, plain=%.1f\n",
-			paramID, value, sampleOffset, param.GetPlainValue())
 	}
 }
 
-- 
2.43.0


From 9367166cdc9b2f1755648d6e8b64bb49a73ba729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:53 +0000
Subject: [PATCH 086/122] fix: ProcessSamples allocated two slices for every
 block

---
 pkg/framework/process/context.go |  4 ++++
 pkg/framework/process/helpers.go | 15 +++++++++++----
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/pkg/framework/process/context.go b/pkg/framework/process/context.go
index c967661..88849b4 100644
--- a/pkg/framework/process/context.go
+++ b/pkg/framework/process/context.go
@@ -114,6 +114,10 @@ type Context struct {
 	workBuffer []float32
 	tempBuffer []float32
 
+	// One sample of every channel, for ProcessSamples
+	sampleInputs  []float32
+	sampleOutputs []float32
+
 	// Parameter access
 	params *param.Registry
 
diff --git a/pkg/framework/process/helpers.go b/pkg/framework/process/helpers.go
index fe4976f..85c4e02 100644
--- a/pkg/framework/process/helpers.go
+++ b/pkg/framework/process/helpers.go
@@ -43,10 +43,17 @@ func (ctx *Context) ProcessSamples(fn func(sample int, inputs, outputs []float32
 	
 	numSamples := ctx.NumSamples()
 	
-	// Temporary slices to avoid allocations
-	inputs := make([]float32, numChannels)
-	outputs := make([]float32, numChannels)
-	
+	// Slices kept in the context to avoid allocations
+	if cap(ctx.sampleInputs) < numChannels {
+		ctx.sampleInputs = make([]float32, numChannels)
+		ctx.sampleOutputs = make([]float32, numChannels)
+	}
+	inputs := ctx.sampleInputs[:numChannels]
+	outputs := ctx.sampleOutputs[:numChannels]
+	for ch := range outputs {
+		outputs[ch] = 0
+	}
+
 	for s := 0; s < numSamples; s++ {
 		// Gather inputs
 		for ch := 0; ch < numChannels; ch++ {
-- 
2.43.0


From 5200832d24451f25d396fe81f1e5e2029dcd0470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:54 +0000
Subject: [PATCH 087/122] fix: every automation point of a block was allocated
 on the audio thread

---
 pkg/plugin/component.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pkg/plugin/component.go b/pkg/plugin/component.go
index ce673cb..81f6440 100644
--- a/pkg/plugin/component.go
+++ b/pkg/plugin/component.go
@@ -30,6 +30,8 @@ type componentImpl struct {
 	wrapper      *componentWrapper // Reference to wrapper for notifications
 	chunkInput   [][]float32       // Sub-slices of the block's channels between parameter changes
 	chunkOutput  [][]float32
+	pointOffset  C.int32_t // The automation point being read, kept here so that C can fill it in
+	pointValue   C.double
 }
 
 // newComponent creates a new component implementation
@@ -352,14 +354,11 @@ func (c *componentImpl) Process(data unsafe.Pointer) error {
 
 				// Process all automation points for this parameter
 				for j := C.int32_t(0); j < pointCount; j++ {
-					var sampleOffset C.int32_t
-					var value C.double
-
 					// Get the automation point
-					result := C.getPoint(paramQueue, j, &sampleOffset, &value)
+					result := C.getPoint(paramQueue, j, &c.pointOffset, &c.pointValue)
 					if result == 0 { // kResultOk
 						// Add parameter change for sample-accurate processing
-						c.processCtx.AddParameterChange(uint32(paramID), float64(value), int(sampleOffset))
+						c.processCtx.AddParameterChange(uint32(paramID), float64(c.pointValue), int(c.pointOffset))
 					}
 				}
 			}
-- 
2.43.0


From fc1de3c46cd4f4d77ac0fef36276849a974c85b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:49 +0000
Subject: [PATCH 088/122] fix: a reader of the event queue let others in
 between sorting it and reading it

---
 pkg/midi/queue.go | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/pkg/midi/queue.go b/pkg/midi/queue.go
index 44b1bcb..4b41065 100644
--- a/pkg/midi/queue.go
+++ b/pkg/midi/queue.go
@@ -39,15 +39,11 @@ func (q *EventQueue) AddMultiple(events []Event) {
 }
 
 func (q *EventQueue) GetEventsInRange(startSample, endSample int32) []Event {
-	q.mu.RLock()
-	defer q.mu.RUnlock()
+	q.mu.Lock()
+	defer q.mu.Unlock()
 
 	if !q.sorted {
-		q.mu.RUnlock()
-		q.mu.Lock()
 		q.sortEvents()
-		q.mu.Unlock()
-		q.mu.RLock()
 	}
 
 	if len(q.events) == 0 {
@@ -80,15 +76,11 @@ func (q *EventQueue) GetEventsInRange(startSample, endSample int32) []Event {
 }
 
 func (q *EventQueue) GetAllEvents() []Event {
-	q.mu.RLock()
-	defer q.mu.RUnlock()
+	q.mu.Lock()
+	defer q.mu.Unlock()
 
 	if !q.sorted {
-		q.mu.RUnlock()
-		q.mu.Lock()
 		q.sortEvents()
-		q.mu.Unlock()
-		q.mu.RLock()
 	}
 
 	result := make([]Event, len(q.events))
-- 
2.43.0


From 32215cd46e0f1d4a7d42bf7a8c29b4104843bb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:33 +0000
Subject: [PATCH 089/122] fix: the balance in decibels of a signal on one side
 only was that of a centred one

---
 pkg/dsp/analysis/correlation.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/dsp/analysis/correlation.go b/pkg/dsp/analysis/correlation.go
index 2755f56..4ec54d9 100644
--- a/pkg/dsp/analysis/correlation.go
+++ b/pkg/dsp/analysis/correlation.go
@@ -342,6 +342,12 @@ func (bm *BalanceMeter) GetBalanceDB() float64 {
 	if bm.powerL > 0 && bm.powerR > 0 {
 		return 10.0 * math.Log10(bm.powerR/bm.powerL)
 	}
+	if bm.powerL > 0 {
+		return math.Inf(-1)
+	}
+	if bm.powerR > 0 {
+		return math.Inf(1)
+	}
 	return 0
 }
 
-- 
2.43.0


From 6b8ab221bf28cf6f79ad57b4c00841d9ca90055d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:35 +0000
Subject: [PATCH 090/122] fix: the width in decibels of a signal without a mid
 part was that of a mono one

---
 pkg/dsp/analysis/correlation.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/dsp/analysis/correlation.go b/pkg/dsp/analysis/correlation.go
index 4ec54d9..48d93ac 100644
--- a/pkg/dsp/analysis/correlation.go
+++ b/pkg/dsp/analysis/correlation.go
@@ -420,5 +420,8 @@ func (swm *StereoWidthMeter) GetWidthDB() float64 {
 	if swm.midPower > 0 && swm.sidePower > 0 {
 		return 10.0 * math.Log10(swm.sidePower/swm.midPower)
 	}
+	if swm.sidePower > 0 {
+		return math.Inf(1)
+	}
 	return -math.Inf(1)
 }
\ No newline at end of file
-- 
2.43.0


From c36e70575d8bf569b2426c30373d23771b56d48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:36 +0000
Subject: [PATCH 091/122] fix: a reset correlation meter started with a worst
 correlation it had not seen

---
 pkg/dsp/analysis/correlation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dsp/analysis/correlation.go b/pkg/dsp/analysis/correlation.go
index 48d93ac..86fbaba 100644
--- a/pkg/dsp/analysis/correlation.go
+++ b/pkg/dsp/analysis/correlation.go
@@ -225,7 +225,7 @@ func (cm *CorrelationMeter) Reset() {
 	cm.writePos = 0
 	cm.count = 0
 	cm.correlation = 0
-	cm.peakHold = 0
+	cm.peakHold = 1.0
 	cm.peakHoldCount = 0
 }
 
-- 
2.43.0


From 41990b6eace8853f74539c7512d92d0b164c7d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:38 +0000
Subject: [PATCH 092/122] fix: how long the worst correlation was held depended
 on the block size

---
 pkg/dsp/analysis/correlation.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/dsp/analysis/correlation.go b/pkg/dsp/analysis/correlation.go
index 86fbaba..4a30f13 100644
--- a/pkg/dsp/analysis/correlation.go
+++ b/pkg/dsp/analysis/correlation.go
@@ -82,11 +82,11 @@ func (cm *CorrelationMeter) Process(samplesL, samplesR []float64) {
 		cm.correlation = cm.correlation*cm.averaging + corr*(1-cm.averaging)
 		
 		// Update peak hold (for most negative correlation)
-		if corr < cm.peakHold {
+		if corr <= cm.peakHold {
 			cm.peakHold = corr
-			cm.peakHoldCount = int(cm.peakHoldTime * cm.sampleRate / float64(cm.windowSize))
+			cm.peakHoldCount = int(cm.peakHoldTime * cm.sampleRate)
 		} else {
-			cm.peakHoldCount--
+			cm.peakHoldCount -= len(samplesL)
 			if cm.peakHoldCount <= 0 {
 				cm.peakHold = cm.correlation
 				cm.peakHoldCount = 0
-- 
2.43.0


From 281872b51078d0ddc258c735382b370a03e4d32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:39 +0000
Subject: [PATCH 093/122] fix: the peak of a steady signal was not held once it
 ended

---
 pkg/dsp/analysis/meters.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dsp/analysis/meters.go b/pkg/dsp/analysis/meters.go
index b8ccad2..8d3cbc3 100644
--- a/pkg/dsp/analysis/meters.go
+++ b/pkg/dsp/analysis/meters.go
@@ -64,7 +64,7 @@ func (pm *PeakMeter) Process(samples []float64) {
 	}
 	
 	// Update hold
-	if blockPeak > pm.hold {
+	if blockPeak >= pm.hold {
 		pm.hold = blockPeak
 		pm.holdCount = int(pm.holdTime * pm.sampleRate)
 	} else {
-- 
2.43.0


From 9ec70e87149b31565cd408721b76a7d689a2e0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:41 +0000
Subject: [PATCH 094/122] fix: the RMS of silence after a signal could be not a
 number

---
 pkg/dsp/analysis/meters.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dsp/analysis/meters.go b/pkg/dsp/analysis/meters.go
index 8d3cbc3..4bd3229 100644
--- a/pkg/dsp/analysis/meters.go
+++ b/pkg/dsp/analysis/meters.go
@@ -164,8 +164,8 @@ func (rm *RMSMeter) GetRMS() float64 {
 	rm.mu.Lock()
 	defer rm.mu.Unlock()
 	
-	if rm.count == 0 {
-		return 0
+	if rm.count == 0 || rm.sum <= 0 {
+		return 0 // nothing, or rounding left of what has passed
 	}
 	
 	return math.Sqrt(rm.sum / float64(rm.count))
-- 
2.43.0


From ff6810784065f7415231590d62d288b280a4c77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:17 +0000
Subject: [PATCH 095/122] fix: the cross-correlation of two signals was
 computed from half the spectrum of the second

---
 pkg/dsp/analysis/fft.go | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/pkg/dsp/analysis/fft.go b/pkg/dsp/analysis/fft.go
index 0667a32..d28cfb5 100644
--- a/pkg/dsp/analysis/fft.go
+++ b/pkg/dsp/analysis/fft.go
@@ -313,23 +313,22 @@ func CrossCorrelation(a, b []float64) []float64 {
 	fft := NewFFT(size, RectangularWindow)
 	
 	// Zero-pad inputs
-	paddedA := make([]float64, size)
-	paddedB := make([]float64, size)
-	copy(paddedA, a)
-	copy(paddedB, b)
+	paddedA := make([]complex128, size)
+	paddedB := make([]complex128, size)
+	for i := 0; i < n; i++ {
+		paddedA[i] = complex(a[i], 0)
+		paddedB[i] = complex(b[i], 0)
+	}
 	
 	// Forward FFT
-	magA, phaseA := fft.Forward(paddedA)
-	magB, phaseB := fft.Forward(paddedB)
+	specA := fft.ForwardComplex(paddedA)
+	specB := fft.ForwardComplex(paddedB)
 	
-	// Multiply A with conjugate of B
+	// Multiply B with conjugate of A, so that a delay of B shows as a positive lag
 	realResult := make([]float64, size)
 	imagResult := make([]float64, size)
 	for i := 0; i < size; i++ {
-		// Convert to complex, multiply, then back to real/imag
-		aComplex := cmplx.Rect(magA[i%len(magA)], phaseA[i%len(phaseA)])
-		bComplex := cmplx.Rect(magB[i%len(magB)], -phaseB[i%len(phaseB)]) // conjugate
-		result := aComplex * bComplex
+		result := cmplx.Conj(specA[i]) * specB[i]
 		realResult[i] = real(result)
 		imagResult[i] = imag(result)
 	}
-- 
2.43.0


From e8e98d80c715ddb89e3d69e73e42365d8480a10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:18 +0000
Subject: [PATCH 096/122] fix: an inverse transform of fewer bins took the
 others from the transform before

---
 pkg/dsp/analysis/fft.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/dsp/analysis/fft.go b/pkg/dsp/analysis/fft.go
index d28cfb5..830f8c6 100644
--- a/pkg/dsp/analysis/fft.go
+++ b/pkg/dsp/analysis/fft.go
@@ -164,9 +164,13 @@ func (f *FFT) ForwardComplex(input []complex128) []complex128 {
 
 // Inverse performs an inverse FFT
 func (f *FFT) Inverse(real, imag []float64) []float64 {
-	// Copy input
-	copy(f.real, real)
-	copy(f.imag, imag)
+	// Copy input, padded with zeros if it is shorter than the FFT size
+	for i := copy(f.real, real); i < f.size; i++ {
+		f.real[i] = 0.0
+	}
+	for i := copy(f.imag, imag); i < f.size; i++ {
+		f.imag[i] = 0.0
+	}
 	
 	// Conjugate
 	for i := 0; i < f.size; i++ {
-- 
2.43.0


From caba7216c323c6c033d29e689bd01d681b61e654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:20 +0000
Subject: [PATCH 097/122] fix: the bin at half the sample rate was left out of
 every frequency range

---
 pkg/dsp/analysis/spectrum.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dsp/analysis/spectrum.go b/pkg/dsp/analysis/spectrum.go
index 27032e4..8881ec7 100644
--- a/pkg/dsp/analysis/spectrum.go
+++ b/pkg/dsp/analysis/spectrum.go
@@ -108,8 +108,8 @@ func (sa *SpectrumAnalyzer) updateFrequencyRange() {
 	sa.minBin = int(sa.minFreq / binWidth)
 	sa.maxBin = int(sa.maxFreq/binWidth) + 1
 	
-	if sa.maxBin > sa.fftSize/2 {
-		sa.maxBin = sa.fftSize / 2
+	if sa.maxBin > sa.fftSize/2+1 {
+		sa.maxBin = sa.fftSize/2 + 1
 	}
 }
 
-- 
2.43.0


From 8cba8cbe683e093658ac05149774856061ccef2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:33 +0000
Subject: [PATCH 098/122] fix: the loudness meter counted DC and the lowest
 frequencies in full

---
 pkg/dsp/analysis/meters.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/dsp/analysis/meters.go b/pkg/dsp/analysis/meters.go
index 4bd3229..4916360 100644
--- a/pkg/dsp/analysis/meters.go
+++ b/pkg/dsp/analysis/meters.go
@@ -308,9 +308,9 @@ func (lm *LUFSMeter) createKWeightingPreFilter() *BiquadFilter {
 	}
 }
 
-// createKWeightingHighShelf creates the K-weighting high shelf filter
+// createKWeightingHighShelf creates the second stage of the K-weighting (RLB high-pass)
 func (lm *LUFSMeter) createKWeightingHighShelf() *BiquadFilter {
-	// ITU-R BS.1770-4 high shelf coefficients
+	// ITU-R BS.1770-4 RLB filter coefficients
 	f0 := 38.13547087602444
 	Q := 0.5003270373238773
 	K := math.Tan(math.Pi * f0 / lm.sampleRate)
@@ -318,9 +318,9 @@ func (lm *LUFSMeter) createKWeightingHighShelf() *BiquadFilter {
 	a0 := 1.0 + K/Q + K*K
 	
 	return &BiquadFilter{
-		b0: (1.0 + math.Sqrt(2.0)*K + K*K) / a0,
-		b1: 2.0 * (K*K - 1.0) / a0,
-		b2: (1.0 - math.Sqrt(2.0)*K + K*K) / a0,
+		b0: 1.0,
+		b1: -2.0,
+		b2: 1.0,
 		a1: 2.0 * (K*K - 1.0) / a0,
 		a2: (1.0 - K/Q + K*K) / a0,
 	}
-- 
2.43.0


From 06bc8b1db08b4bd4d7ff9f2817d71a6f04dd1967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:35 +0000
Subject: [PATCH 099/122] fix: the loudness meter weighted the LFE as a
 surround channel and the right surround as a front one

---
 pkg/dsp/analysis/meters.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/pkg/dsp/analysis/meters.go b/pkg/dsp/analysis/meters.go
index 4916360..977fd90 100644
--- a/pkg/dsp/analysis/meters.go
+++ b/pkg/dsp/analysis/meters.go
@@ -484,6 +484,21 @@ func (lm *LUFSMeter) GetIntegratedLUFS() float64 {
 	return 10.0 * math.Log10(sum/float64(count))
 }
 
+// channelWeight returns the weight of a channel's power
+func (lm *LUFSMeter) channelWeight(ch int) float64 {
+	if lm.channels > 5 {
+		switch ch {
+		case 3:
+			return 0.0 // LFE
+		case 4, 5:
+			return 1.41 // Surround channels
+		}
+	} else if lm.channels > 2 && ch >= 3 {
+		return 1.41 // Surround channels
+	}
+	return 1.0
+}
+
 // calculateBlockLoudness calculates loudness for a measurement block
 func (lm *LUFSMeter) calculateBlockLoudness(block *LUFSBlock) float64 {
 	// Sum channel powers with channel weighting
@@ -496,14 +511,7 @@ func (lm *LUFSMeter) calculateBlockLoudness(block *LUFSBlock) float64 {
 			// Apply channel weighting (ITU-R BS.1770-4)
 			// For stereo: both channels have weight 1.0
 			// For 5.1: L/R = 1.0, C = 1.0, Ls/Rs = 1.41, LFE = 0
-			weight := 1.0
-			if lm.channels > 2 && ch >= 3 && ch <= 4 {
-				weight = 1.41 // Surround channels
-			} else if lm.channels > 5 && ch == 3 {
-				weight = 0.0 // LFE
-			}
-			
-			blockPower += weight * power
+			blockPower += lm.channelWeight(ch) * power
 		}
 		
 		if blockPower > 0 {
-- 
2.43.0


From f92ab740dd9de722c39906dd0a0b4197c1d564c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:37 +0000
Subject: [PATCH 100/122] fix: the integrated loudness depended on the block
 size, and was never measured with blocks under 100 ms

---
 pkg/dsp/analysis/meters.go | 36 +++++++++++++-----------------------
 1 file changed, 13 insertions(+), 23 deletions(-)

diff --git a/pkg/dsp/analysis/meters.go b/pkg/dsp/analysis/meters.go
index 977fd90..1b6d1fc 100644
--- a/pkg/dsp/analysis/meters.go
+++ b/pkg/dsp/analysis/meters.go
@@ -361,29 +361,6 @@ func (lm *LUFSMeter) Process(samples []float64) {
 	// Update momentary and short-term blocks
 	lm.updateBlock(lm.momentary, filtered)
 	lm.updateBlock(lm.shortTerm, filtered)
-	
-	// Update integrated measurement (every 100ms of new data)
-	samplesFor100ms := int(0.1 * lm.sampleRate * float64(lm.channels))
-	if len(filtered) >= samplesFor100ms {
-		// Calculate mean square for this block
-		meanSquare := 0.0
-		for ch := 0; ch < lm.channels; ch++ {
-			chPower := 0.0
-			count := 0
-			for i := ch; i < len(filtered); i += lm.channels {
-				chPower += filtered[i] * filtered[i]
-				count++
-			}
-			if count > 0 {
-				meanSquare += chPower / float64(count)
-			}
-		}
-		
-		if meanSquare > 0 {
-			loudness := -0.691 + 10.0*math.Log10(meanSquare)
-			lm.integrated.blocks = append(lm.integrated.blocks, loudness)
-		}
-	}
 }
 
 // updateBlock updates a loudness measurement block
@@ -412,6 +389,19 @@ func (lm *LUFSMeter) updateBlock(block *LUFSBlock, filtered []float64) {
 			copy(block.blocks[block.writePos], lm.channelPower)
 			block.writePos = (block.writePos + 1) % len(block.blocks)
 			
+			// The gating blocks of the integrated measurement are the
+			// momentary ones: 400ms, every 100ms
+			if block == lm.momentary {
+				meanSquare := 0.0
+				for ch, power := range lm.channelPower {
+					meanSquare += lm.channelWeight(ch) * power
+				}
+				if meanSquare > 0 {
+					loudness := -0.691 + 10.0*math.Log10(meanSquare)
+					lm.integrated.blocks = append(lm.integrated.blocks, loudness)
+				}
+			}
+			
 			// Shift buffer by (blockSize - overlap)
 			shift := block.blockSize - block.overlap
 			copy(block.buffer, block.buffer[shift*lm.channels:])
-- 
2.43.0


From e57944e0004b28acfd072b23835718e1844aa0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:38 +0000
Subject: [PATCH 101/122] fix: silence lowered the relative gate of the
 integrated loudness

---
 pkg/dsp/analysis/meters.go | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/pkg/dsp/analysis/meters.go b/pkg/dsp/analysis/meters.go
index 1b6d1fc..83d47d1 100644
--- a/pkg/dsp/analysis/meters.go
+++ b/pkg/dsp/analysis/meters.go
@@ -281,7 +281,7 @@ func NewLUFSMeter(sampleRate float64, channels int) *LUFSMeter {
 	lm.integrated = &LUFSIntegrated{
 		blocks:       make([]float64, 0, 1000), // Pre-allocate for efficiency
 		absoluteGate: -70.0,                    // LUFS
-		relativeGate: -10.0,                    // dB below ungated loudness
+		relativeGate: -10.0,                    // dB below absolute-gated loudness
 	}
 	
 	return lm
@@ -435,15 +435,8 @@ func (lm *LUFSMeter) GetIntegratedLUFS() float64 {
 		return -math.Inf(1)
 	}
 	
-	// First pass: calculate ungated loudness
-	sum := 0.0
-	for _, block := range lm.integrated.blocks {
-		sum += math.Pow(10.0, block/10.0)
-	}
-	ungatedLoudness := 10.0 * math.Log10(sum/float64(len(lm.integrated.blocks)))
-	
 	// Apply absolute gate (-70 LUFS)
-	sum = 0.0
+	sum := 0.0
 	count := 0
 	for _, block := range lm.integrated.blocks {
 		if block >= lm.integrated.absoluteGate {
@@ -456,8 +449,8 @@ func (lm *LUFSMeter) GetIntegratedLUFS() float64 {
 		return -math.Inf(1)
 	}
 	
-	// Apply relative gate (10 dB below ungated)
-	relativeThreshold := ungatedLoudness + lm.integrated.relativeGate
+	// Apply relative gate (10 dB below the loudness after the absolute gate)
+	relativeThreshold := 10.0*math.Log10(sum/float64(count)) + lm.integrated.relativeGate
 	sum = 0.0
 	count = 0
 	for _, block := range lm.integrated.blocks {
-- 
2.43.0


From c98e052e6d193378911793ac73f943a2c95a425b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:40 +0000
Subject: [PATCH 102/122] fix: the short-term loudness was that of the last six
 seconds instead of three

---
 pkg/dsp/analysis/meters.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dsp/analysis/meters.go b/pkg/dsp/analysis/meters.go
index 83d47d1..47348a2 100644
--- a/pkg/dsp/analysis/meters.go
+++ b/pkg/dsp/analysis/meters.go
@@ -269,7 +269,7 @@ func NewLUFSMeter(sampleRate float64, channels int) *LUFSMeter {
 	lm.shortTerm = &LUFSBlock{
 		blockSize:    shortTermSize,
 		overlap:      shortTermOverlap,
-		blocks:       make([][]float64, 30), // Store 30 blocks for 3s
+		blocks:       make([][]float64, 1),
 		buffer:       make([]float64, shortTermSize*channels),
 		gatingThresh: -math.Inf(1), // No gating for short-term
 	}
-- 
2.43.0


From 07fdbc058f50ce122f8fa431d41c76507e7af71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:52 +0000
Subject: [PATCH 103/122] fix: a message with an argument that logs itself
 blocked the logger for good

---
 pkg/framework/debug/logger.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pkg/framework/debug/logger.go b/pkg/framework/debug/logger.go
index b6223d2..b9d2059 100644
--- a/pkg/framework/debug/logger.go
+++ b/pkg/framework/debug/logger.go
@@ -161,12 +161,18 @@ func (l *Logger) IsEnabled() bool {
 // log writes a log message at the specified level.
 func (l *Logger) log(level LogLevel, format string, args ...interface{}) {
 	l.mu.Lock()
-	defer l.mu.Unlock()
-	
-	if !l.enabled || level < l.level {
+	silent := !l.enabled || level < l.level
+	l.mu.Unlock()
+	if silent {
 		return
 	}
-	
+
+	// Arguments may log themselves while they are formatted
+	msg := fmt.Sprintf(format, args...)
+
+	l.mu.Lock()
+	defer l.mu.Unlock()
+
 	// Build the log message
 	var sb strings.Builder
 	
@@ -197,7 +203,6 @@ func (l *Logger) log(level LogLevel, format string, args ...interface{}) {
 	}
 	
 	// Add the actual message
-	msg := fmt.Sprintf(format, args...)
 	sb.WriteString(msg)
 	
 	// Ensure newline
-- 
2.43.0


From e29c43d9b11f564bd5e18137b384fcb2455fd83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:53 +0000
Subject: [PATCH 104/122] fix: messages logged through the package functions
 named the logger as the place they came from

---
 pkg/framework/debug/logger.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pkg/framework/debug/logger.go b/pkg/framework/debug/logger.go
index b9d2059..d360284 100644
--- a/pkg/framework/debug/logger.go
+++ b/pkg/framework/debug/logger.go
@@ -274,27 +274,28 @@ func SetEnabled(enabled bool) {
 
 // Debug logs a debug message using the default logger.
 func Debug(format string, args ...interface{}) {
-	defaultLogger.Debug(format, args...)
+	defaultLogger.log(LogLevelDebug, format, args...)
 }
 
 // Info logs an informational message using the default logger.
 func Info(format string, args ...interface{}) {
-	defaultLogger.Info(format, args...)
+	defaultLogger.log(LogLevelInfo, format, args...)
 }
 
 // Warn logs a warning message using the default logger.
 func Warn(format string, args ...interface{}) {
-	defaultLogger.Warn(format, args...)
+	defaultLogger.log(LogLevelWarn, format, args...)
 }
 
 // Error logs an error message using the default logger.
 func Error(format string, args ...interface{}) {
-	defaultLogger.Error(format, args...)
+	defaultLogger.log(LogLevelError, format, args...)
 }
 
 // Fatal logs a fatal error message using the default logger and panics.
 func Fatal(format string, args ...interface{}) {
-	defaultLogger.Fatal(format, args...)
+	defaultLogger.log(LogLevelFatal, format, args...)
+	panic(fmt.Sprintf(format, args...))
 }
 
 // Conditional logging helpers
@@ -302,20 +303,20 @@ func Fatal(format string, args ...interface{}) {
 // DebugIf logs a debug message if the condition is true.
 func DebugIf(condition bool, format string, args ...interface{}) {
 	if condition {
-		defaultLogger.Debug(format, args...)
+		defaultLogger.log(LogLevelDebug, format, args...)
 	}
 }
 
 // WarnIf logs a warning message if the condition is true.
 func WarnIf(condition bool, format string, args ...interface{}) {
 	if condition {
-		defaultLogger.Warn(format, args...)
+		defaultLogger.log(LogLevelWarn, format, args...)
 	}
 }
 
 // ErrorIf logs an error message if the condition is true.
 func ErrorIf(condition bool, format string, args ...interface{}) {
 	if condition {
-		defaultLogger.Error(format, args...)
+		defaultLogger.log(LogLevelError, format, args...)
 	}
 }
\ No newline at end of file
-- 
2.43.0


From 4a0e90a6b58706ec88835e2d25da1b6d86b1d417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:43 +0000
Subject: [PATCH 105/122] fix: the copy of a measurement went on changing while
 it was read

---
 pkg/framework/debug/profiler.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pkg/framework/debug/profiler.go b/pkg/framework/debug/profiler.go
index c85f486..20da0fe 100644
--- a/pkg/framework/debug/profiler.go
+++ b/pkg/framework/debug/profiler.go
@@ -115,9 +115,7 @@ func (p *Profiler) GetMeasurement(name string) (*Measurement, bool) {
 		return nil, false
 	}
 	
-	// Return a copy to avoid race conditions
-	copy := *m
-	return &copy, true
+	return m.clone(), true
 }
 
 // GetAllMeasurements returns all measurements.
@@ -127,8 +125,7 @@ func (p *Profiler) GetAllMeasurements() map[string]*Measurement {
 	
 	result := make(map[string]*Measurement)
 	for k, v := range p.measurements {
-		copy := *v
-		result[k] = &copy
+		result[k] = v.clone()
 	}
 	return result
 }
@@ -173,6 +170,13 @@ func (p *Profiler) Report() string {
 
 // Measurement methods
 
+// clone returns a copy that later measurements leave alone.
+func (m *Measurement) clone() *Measurement {
+	c := *m
+	c.samples = append([]time.Duration(nil), m.samples...)
+	return &c
+}
+
 // Average returns the average time for this measurement.
 func (m *Measurement) Average() time.Duration {
 	if m.count == 0 {
-- 
2.43.0


From f30f555e0cdb8db116fe3e152b104b1d9e96f3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:44 +0000
Subject: [PATCH 106/122] fix: the percentiles of a measurement were those of
 the order the sections ran in

---
 pkg/framework/debug/profiler.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/framework/debug/profiler.go b/pkg/framework/debug/profiler.go
index 20da0fe..8816471 100644
--- a/pkg/framework/debug/profiler.go
+++ b/pkg/framework/debug/profiler.go
@@ -3,6 +3,7 @@ package debug
 
 import (
 	"fmt"
+	"sort"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -203,7 +204,9 @@ func (m *Measurement) Percentile(p float64) time.Duration {
 		return 0
 	}
 	
-	// Simple percentile calculation (not fully accurate but fast)
+	sort.Slice(validSamples, func(i, j int) bool { return validSamples[i] < validSamples[j] })
+
+	// Simple percentile calculation, without interpolation
 	index := int(float64(len(validSamples)-1) * p / 100.0)
 	return validSamples[index]
 }
-- 
2.43.0


From fc91c70f464f57f72c683b580385ff892a49a38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:07 +0000
Subject: [PATCH 107/122] fix: allocations went undetected where the garbage
 collector ran among them

---
 pkg/dsp/debug/buffer_debug.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/dsp/debug/buffer_debug.go b/pkg/dsp/debug/buffer_debug.go
index f707296..6e9ba01 100644
--- a/pkg/dsp/debug/buffer_debug.go
+++ b/pkg/dsp/debug/buffer_debug.go
@@ -191,8 +191,9 @@ func DetectAllocation(fn func()) {
 	
 	runtime.ReadMemStats(&m2)
 	
-	if m2.Alloc > m1.Alloc {
-		panic(fmt.Sprintf("Allocation detected! %d bytes allocated", m2.Alloc-m1.Alloc))
+	// Alloc falls when memory is freed; TotalAlloc counts every allocation
+	if m2.TotalAlloc > m1.TotalAlloc {
+		panic(fmt.Sprintf("Allocation detected! %d bytes allocated", m2.TotalAlloc-m1.TotalAlloc))
 	}
 }
 
-- 
2.43.0


From e91ed40b800e080ae17d33a2619a053831d9f25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:18 +0000
Subject: [PATCH 108/122] fix: a buffer with NaN compared as identical to any
 other

---
 pkg/framework/debug/audio.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/framework/debug/audio.go b/pkg/framework/debug/audio.go
index 0a3d445..2dffa50 100644
--- a/pkg/framework/debug/audio.go
+++ b/pkg/framework/debug/audio.go
@@ -193,7 +193,10 @@ func CompareBuffers(a, b []float32, tolerance float32) string {
 			diff = -diff
 		}
 		
-		if diff > tolerance {
+		// NaN, where there is no number on one side, is a difference too
+		isNaN := math.IsNaN(float64(diff)) && a[i] != b[i]
+
+		if diff > tolerance || isNaN {
 			diffCount++
 			totalDiff += float64(diff)
 			
-- 
2.43.0


From 6f29dd63346902e5f3fd07117cbbf4527576de57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:20 +0000
Subject: [PATCH 109/122] fix: a negative sample after a leading NaN counted as
 a zero crossing

---
 pkg/framework/debug/audio.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/framework/debug/audio.go b/pkg/framework/debug/audio.go
index 2dffa50..82d786d 100644
--- a/pkg/framework/debug/audio.go
+++ b/pkg/framework/debug/audio.go
@@ -54,8 +54,9 @@ func (a *AudioAnalyzer) Analyze(buffer []float32) AnalysisResult {
 	
 	var sum, sumSquares, dcSum float64
 	var lastSample float32
+	hasLast := false
 	
-	for i, sample := range buffer {
+	for _, sample := range buffer {
 		// Check for NaN
 		if a.detectNaN && math.IsNaN(float64(sample)) {
 			result.HasNaN = true
@@ -86,10 +87,11 @@ func (a *AudioAnalyzer) Analyze(buffer []float32) AnalysisResult {
 		dcSum += float64(absSample)
 		
 		// Count zero crossings
-		if i > 0 && ((lastSample < 0 && sample >= 0) || (lastSample >= 0 && sample < 0)) {
+		if hasLast && ((lastSample < 0 && sample >= 0) || (lastSample >= 0 && sample < 0)) {
 			result.ZeroCrossings++
 		}
 		lastSample = sample
+		hasLast = true
 	}
 	
 	// Calculate RMS
-- 
2.43.0


From cfa2816bf19dfe7049b04db56adf2d5abe0b25b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:21 +0000
Subject: [PATCH 110/122] fix: the dump of a buffer drew no bar for a
 full-scale sample

---
 pkg/framework/debug/audio.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/framework/debug/audio.go b/pkg/framework/debug/audio.go
index 82d786d..335d025 100644
--- a/pkg/framework/debug/audio.go
+++ b/pkg/framework/debug/audio.go
@@ -280,6 +280,9 @@ func DumpBuffer(buffer []float32, maxSamples int) string {
 		}
 		
 		barPos := int((normalized + 1.0) * float32(barWidth) / 2.0)
+		if barPos == barWidth {
+			barPos = barWidth - 1 // full scale
+		}
 		bar := strings.Repeat(" ", barWidth)
 		if barPos >= 0 && barPos < barWidth {
 			bar = bar[:barPos] + "|" + bar[barPos+1:]
-- 
2.43.0


From 3ce83cd742d8f5cacdf4d1e82b5f7907858bfc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 111/122] fix: hard right, the left gain of constant-power
 panning was below zero

---
 pkg/dsp/pan/pan.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/dsp/pan/pan.go b/pkg/dsp/pan/pan.go
index e379622..44a63bc 100644
--- a/pkg/dsp/pan/pan.go
+++ b/pkg/dsp/pan/pan.go
@@ -103,9 +103,9 @@ func linearPan(pan float32) (left, right float32) {
 // constantPowerPan implements equal power panning using sine/cosine.
 func constantPowerPan(pan float32) (left, right float32) {
 	// Convert pan from [-1, 1] to [0, π/2]
-	angle := (pan + 1.0) * math.Pi / 4.0
-	left = float32(math.Cos(float64(angle)))
-	right = float32(math.Sin(float64(angle)))
+	angle := (float64(pan) + 1.0) * math.Pi / 4.0
+	left = float32(math.Cos(angle))
+	right = float32(math.Sin(angle))
 	return
 }
 
-- 
2.43.0


From 171e5a116e60a36a9fd35b47eb83c54f6865c30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 112/122] fix: balanced panning turned down the sides instead
 of the center

---
 pkg/dsp/pan/pan.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dsp/pan/pan.go b/pkg/dsp/pan/pan.go
index 44a63bc..6c21b57 100644
--- a/pkg/dsp/pan/pan.go
+++ b/pkg/dsp/pan/pan.go
@@ -120,7 +120,7 @@ func balancedPan(pan float32) (left, right float32) {
 	// centerGain := float32(0.595 / 0.707)
 	
 	// Interpolate compensation based on pan position
-	compensation := 1.0 - (pan*pan)*0.159 // Approximation for smooth transition
+	compensation := 1.0 - (1.0-pan*pan)*0.159 // Approximation for smooth transition
 	
 	left *= compensation
 	right *= compensation
-- 
2.43.0


From 6147ed1f6a309d3cc08a043716d2cc701b922cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 113/122] fix: the stereo phase of a running tremolo was not
 relative to its left side

---
 pkg/dsp/modulation/tremolo.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dsp/modulation/tremolo.go b/pkg/dsp/modulation/tremolo.go
index 4834625..63a0ffa 100644
--- a/pkg/dsp/modulation/tremolo.go
+++ b/pkg/dsp/modulation/tremolo.go
@@ -117,9 +117,9 @@ func (t *Tremolo) updateLFOs() {
 
 	// Set phase offset for stereo
 	if t.stereo {
-		t.lfoR.SetPhase(t.phase)
+		t.lfoR.SetPhase(t.lfoL.GetPhase() + t.phase)
 	} else {
-		t.lfoR.SetPhase(0.0) // Same phase as left
+		t.lfoR.SetPhase(t.lfoL.GetPhase()) // Same phase as left
 	}
 }
 
-- 
2.43.0


From 91fe78e7605758454afcc20e8cb041670f8dd935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 114/122] fix: the current gain of a tremolo without smoothing
 was always 1

---
 pkg/dsp/modulation/tremolo.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/dsp/modulation/tremolo.go b/pkg/dsp/modulation/tremolo.go
index 63a0ffa..615ca9b 100644
--- a/pkg/dsp/modulation/tremolo.go
+++ b/pkg/dsp/modulation/tremolo.go
@@ -157,6 +157,8 @@ func (t *Tremolo) Process(input float32) float32 {
 	if t.smoothing {
 		t.smoothedGainL = gain + (t.smoothedGainL-gain)*t.smoothCoeff
 		gain = t.smoothedGainL
+	} else {
+		t.smoothedGainL = gain
 	}
 
 	// Apply amplitude modulation
@@ -192,6 +194,9 @@ func (t *Tremolo) ProcessStereo(inputL, inputR float32) (outputL, outputR float3
 		t.smoothedGainR = gainR + (t.smoothedGainR-gainR)*t.smoothCoeff
 		gainL = t.smoothedGainL
 		gainR = t.smoothedGainR
+	} else {
+		t.smoothedGainL = gainL
+		t.smoothedGainR = gainR
 	}
 
 	// Apply amplitude modulation
-- 
2.43.0


From fc0b8500a4e96d0b001a2c7c2851c4034b557d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:18 +0000
Subject: [PATCH 115/122] fix: at full damping the Schroeder and Freeverb
 reverbs held an offset forever

---
 pkg/dsp/reverb/schroeder.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/dsp/reverb/schroeder.go b/pkg/dsp/reverb/schroeder.go
index 537f76b..a201e18 100644
--- a/pkg/dsp/reverb/schroeder.go
+++ b/pkg/dsp/reverb/schroeder.go
@@ -35,8 +35,9 @@ func (c *CombFilter) SetFeedback(feedback float64) {
 
 // SetDamping sets the damping amount (0-1)
 func (c *CombFilter) SetDamping(damping float64) {
-	c.damp1 = damping
-	c.damp2 = 1.0 - damping
+	// Kept below 1, where the filter would hold its output forever
+	c.damp1 = math.Max(0.0, math.Min(0.99, damping))
+	c.damp2 = 1.0 - c.damp1
 }
 
 // Process processes a single sample through the comb filter
-- 
2.43.0


From 5ce250999031acb2939b031c0d4905f8442945fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:19 +0000
Subject: [PATCH 116/122] fix: the stereo FDN reverb applied its wet and dry
 levels twice

---
 pkg/dsp/reverb/fdn.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pkg/dsp/reverb/fdn.go b/pkg/dsp/reverb/fdn.go
index e40f647..d923138 100644
--- a/pkg/dsp/reverb/fdn.go
+++ b/pkg/dsp/reverb/fdn.go
@@ -248,6 +248,14 @@ func (f *FDN) updateInternalParameters() {
 
 // Process processes a mono input sample
 func (f *FDN) Process(input float32) float32 {
+	output := f.processWet(input)
+
+	// Apply wet/dry mix
+	return input*float32(f.dryLevel) + output*float32(f.wetLevel)
+}
+
+// processWet runs a sample through the network and returns the reverberation alone
+func (f *FDN) processWet(input float32) float32 {
 	// Read outputs from all delay lines
 	delayOutputs := f.delayOutputs
 
@@ -326,8 +334,7 @@ func (f *FDN) Process(input float32) float32 {
 		output += delayOutputs[i] * float32(f.outputGains[i])
 	}
 
-	// Apply wet/dry mix
-	return input*float32(f.dryLevel) + output*float32(f.wetLevel)
+	return output
 }
 
 // ProcessStereo processes stereo input
@@ -336,7 +343,7 @@ func (f *FDN) ProcessStereo(inputL, inputR float32) (outputL, outputR float32) {
 	mono := (inputL + inputR) * 0.5
 
 	// Process through FDN
-	processed := f.Process(mono)
+	processed := f.processWet(mono)
 
 	// Create stereo output by using different combinations of delay outputs
 	// This is a simplified approach - a full implementation would have
@@ -363,8 +370,8 @@ func (f *FDN) ProcessStereo(inputL, inputR float32) (outputL, outputR float32) {
 
 		// Add decorrelated signals to create width
 		spread := float32(0.3)
-		outputL += delay1 * spread * float32(f.wetLevel)
-		outputR += delay2 * spread * float32(f.wetLevel)
+		outputL += delay1 * spread
+		outputR += delay2 * spread
 	}
 
 	// Apply final wet/dry mix
-- 
2.43.0


From a383e369f5cf70603235dec9d6f0d1d0e9e43625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:38 +0000
Subject: [PATCH 117/122] fix: a default given to a parameter builder before
 the range was read in another range

---
 pkg/framework/param/builder.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pkg/framework/param/builder.go b/pkg/framework/param/builder.go
index 2bae6ae..122504d 100644
--- a/pkg/framework/param/builder.go
+++ b/pkg/framework/param/builder.go
@@ -3,6 +3,9 @@ package param
 // Builder provides a fluent API for creating parameters
 type Builder struct {
 	param *Parameter
+
+	// The default value asked for, in plain range
+	plainDefault *float64
 }
 
 // New creates a new parameter builder
@@ -30,15 +33,18 @@ func (b *Builder) ShortName(name string) *Builder {
 func (b *Builder) Range(minVal, maxVal float64) *Builder {
 	b.param.Min = minVal
 	b.param.Max = maxVal
+	if b.plainDefault != nil {
+		b.param.DefaultValue = b.param.Normalize(*b.plainDefault)
+	}
 	return b
 }
 
 // Default sets the default value (in plain range, not normalized)
 func (b *Builder) Default(value float64) *Builder {
+	b.plainDefault = &value
+
 	// Convert to normalized
-	if b.param.Max > b.param.Min {
-		b.param.DefaultValue = b.param.Normalize(value)
-	}
+	b.param.DefaultValue = b.param.Normalize(value)
 	return b
 }
 
@@ -66,6 +72,7 @@ func (b *Builder) Toggle() *Builder {
 	b.param.Max = 1
 	b.param.StepCount = 1
 	b.param.DefaultValue = 0
+	b.plainDefault = nil
 	return b
 }
 
-- 
2.43.0


From 20df9689295f1fd7fe0895e4dfff62e54471bf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:39 +0000
Subject: [PATCH 118/122] fix: logarithmic smoothing ignored its time when the
 sample rate was updated

---
 pkg/framework/param/smoother.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/framework/param/smoother.go b/pkg/framework/param/smoother.go
index ca254ed..fb94d7c 100644
--- a/pkg/framework/param/smoother.go
+++ b/pkg/framework/param/smoother.go
@@ -225,7 +225,7 @@ func (sp *SmoothedParameter) SetSmoothingRate(rate float64) {
 
 // Update smoothing rate based on sample rate for time-based smoothing.
 func (sp *SmoothedParameter) UpdateSampleRate(sampleRate float64, targetTimeMs float64) {
-	if sp.smoother.smoothingType == LinearSmoothing {
+	if sp.smoother.smoothingType == LinearSmoothing || sp.smoother.smoothingType == LogarithmicSmoothing {
 		// Convert time to samples
 		samples := sampleRate * targetTimeMs / 1000.0
 		sp.SetSmoothingRate(samples)
-- 
2.43.0


From 2a0f918e8ee97d934bb6a72b36d4e57fd4d02b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:20 +0000
Subject: [PATCH 119/122] fix: the ready-made dynamics chain had an attack of
 10 seconds and a release of 100

---
 pkg/framework/dsp/adapters.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/framework/dsp/adapters.go b/pkg/framework/dsp/adapters.go
index 0304021..f104de2 100644
--- a/pkg/framework/dsp/adapters.go
+++ b/pkg/framework/dsp/adapters.go
@@ -114,8 +114,8 @@ func CreateDynamicsChain(sampleRate float64) (*Chain, error) {
 	comp := dynamics.NewCompressor(sampleRate)
 	comp.SetThreshold(-20)
 	comp.SetRatio(4)
-	comp.SetAttack(10)
-	comp.SetRelease(100)
+	comp.SetAttack(0.010) // seconds
+	comp.SetRelease(0.100)
 	
 	return NewBuilder("Dynamics Chain").
 		WithProcessor(NewGateAdapter(gate)).
-- 
2.43.0


From 4594dab9aae6f741a022a38df42a034af85c7073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:34 +0000
Subject: [PATCH 120/122] fix: using a chain builder further changed the chains
 it had built

---
 pkg/framework/dsp/chain.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/framework/dsp/chain.go b/pkg/framework/dsp/chain.go
index 4d04e17..efb9a32 100644
--- a/pkg/framework/dsp/chain.go
+++ b/pkg/framework/dsp/chain.go
@@ -276,7 +276,9 @@ func (b *Builder) Build() (*Chain, error) {
 	if b.chain.IsEmpty() {
 		return nil, fmt.Errorf("chain is empty")
 	}
-	return b.chain, nil
+	built := *b.chain // the builder may go on without changing what it built
+	built.processors = append([]Processor(nil), b.chain.processors...)
+	return &built, nil
 }
 
 // StereoBuilder provides a fluent API for building stereo DSP chains.
@@ -311,5 +313,7 @@ func (b *StereoBuilder) Build() (*StereoChain, error) {
 	if len(b.chain.processors) == 0 {
 		return nil, fmt.Errorf("stereo chain is empty")
 	}
-	return b.chain, nil
+	built := *b.chain
+	built.processors = append([]StereoProcessor(nil), b.chain.processors...)
+	return &built, nil
 }
\ No newline at end of file
-- 
2.43.0


From 3646ba6a364a7876963299e3b9b191cb815b8fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:36 +0000
Subject: [PATCH 121/122] fix: a load whose custom data failed left the
 parameters changed

---
 pkg/framework/state/manager.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/framework/state/manager.go b/pkg/framework/state/manager.go
index 50c4100..9a8b6b7 100644
--- a/pkg/framework/state/manager.go
+++ b/pkg/framework/state/manager.go
@@ -144,9 +144,11 @@ func (m *Manager) Load(r io.Reader) error {
 	}
 
 	// Apply the values only now that the whole list was readable
+	before := make([]entry, 0, len(entries))
 	for _, e := range entries {
 		// Set parameter value if it exists
 		if param := m.registry.Get(e.id); param != nil {
+			before = append(before, entry{e.id, param.GetValue()})
 			param.SetValue(e.value)
 		}
 		// Ignore unknown parameters for forward compatibility
@@ -154,7 +156,14 @@ func (m *Manager) Load(r io.Reader) error {
 
 	if hasCustom != 0 {
 		if m.customLoad != nil {
-			return m.customLoad(r)
+			if err := m.customLoad(r); err != nil {
+				// A load that fails leaves the parameters as they were
+				for i := len(before) - 1; i >= 0; i-- {
+					m.registry.Get(before[i].id).SetValue(before[i].value)
+				}
+				return err
+			}
+			return nil
 		}
 		// Skip custom data if no load function is provided
 		// This allows forward compatibility with states that have custom data
-- 
2.43.0


From caedf98a712ca11522d5bb28a22123b6e18d7a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:38 +0000
Subject: [PATCH 122/122] fix: using a parameter builder further changed the
 parameters it had built

---
 pkg/framework/param/builder.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/framework/param/builder.go b/pkg/framework/param/builder.go
index 122504d..e7e3b0f 100644
--- a/pkg/framework/param/builder.go
+++ b/pkg/framework/param/builder.go
@@ -102,9 +102,12 @@ func (b *Builder) Formatter(format func(float64) string, parse func(string) (flo
 	return b
 }
 
-// Build returns the configured parameter
+// Build returns the configured parameter. It is a copy: using the builder
+// further does not change the parameters it has built.
 func (b *Builder) Build() *Parameter {
+	built := *b.param
+
 	// Initialize with default value
-	b.param.SetValue(b.param.DefaultValue)
-	return b.param
+	built.SetValue(built.DefaultValue)
+	return &built
 }
-- 
2.43.0

