From 1d63a5c245699c4d8d71450982c7f75f199e9d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:46 +0000
Subject: [PATCH 01/81] fix: accept a tab after a note, rest, octave, repeat or
 seconds length

---
 client/parser/scanner.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/client/parser/scanner.go b/client/parser/scanner.go
index b4434e0..bdbeec0 100644
--- a/client/parser/scanner.go
+++ b/client/parser/scanner.go
@@ -352,7 +352,7 @@ type noteLength struct {
 
 func terminatesNoteLength(c rune) bool {
 	switch c {
-	case ' ', '\r', '\n', '/', '~', ']', '}':
+	case ' ', '\t', '\r', '\n', '/', '~', ']', '}':
 		return true
 	}
 
@@ -477,6 +477,7 @@ func (s *scanner) parseRepeat() error {
 	s.consumeDigits()
 
 	if c := s.peek(); c != ' ' &&
+		c != '\t' &&
 		c != '\r' &&
 		c != '\n' &&
 		c != ']' &&
@@ -497,7 +498,8 @@ func (s *scanner) parseOctaveSet() error {
 
 	s.consumeDigits()
 
-	if c := s.peek(); c != ' ' && c != '\r' && c != '\n' && !s.reachedEOF() {
+	if c := s.peek(); c != ' ' && c != '\t' && c != '\r' && c != '\n' &&
+		!s.reachedEOF() {
 		return s.unexpectedCharError(c, "in octave set", s.line, s.column)
 	}
 
@@ -630,8 +632,8 @@ func followsNoteLetter(c rune) bool {
 	}
 
 	switch c {
-	case '#', ' ', '\r', '\n', '+', '-', '_', '/', '~', '*', '\'', '}', ']', '<',
-		'>':
+	case '#', ' ', '\t', '\r', '\n', '+', '-', '_', '/', '~', '*', '\'', '}', ']',
+		'<', '>':
 		return true
 	}
 
@@ -644,7 +646,7 @@ func followsRestLetter(c rune) bool {
 	}
 
 	switch c {
-	case '#', ' ', '\r', '\n', '/', '~', '*', '\'', '}', ']', '<', '>':
+	case '#', ' ', '\t', '\r', '\n', '/', '~', '*', '\'', '}', ']', '<', '>':
 		return true
 	}
 
-- 
2.43.0


From 106dd78260d0fff1bba092a6832a44782ed8c8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:51 +0000
Subject: [PATCH 02/81] fix: report an unexpected character in an alias instead
 of skipping it

---
 client/parser/scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/parser/scanner.go b/client/parser/scanner.go
index bdbeec0..52914c9 100644
--- a/client/parser/scanner.go
+++ b/client/parser/scanner.go
@@ -573,7 +573,7 @@ func (s *scanner) parseAlias() error {
 	}
 
 	if c := s.peek(); c != '"' {
-		s.unexpectedCharError(c, "in alias", s.line, s.column)
+		return s.unexpectedCharError(c, "in alias", s.line, s.column)
 	}
 
 	// Consume the closing ".
-- 
2.43.0


From add8aff6ad30a315f7f2808b4474c44e4e93d0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 03/81] fix: reject an octave letter without a number at the
 end of the input

---
 client/parser/scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/parser/scanner.go b/client/parser/scanner.go
index 52914c9..fc0089d 100644
--- a/client/parser/scanner.go
+++ b/client/parser/scanner.go
@@ -753,7 +753,7 @@ func (s *scanner) scanToken() error {
 				s.addToken(NoteLetter, c)
 			case isRestLetter(c) && (followsRestLetter(n) || s.reachedEOF()):
 				s.addToken(RestLetter, nil)
-			case isOctaveLetter(c) && (isDigit(n) || s.reachedEOF()):
+			case isOctaveLetter(c) && isDigit(n):
 				err = s.parseOctaveSet()
 			case isVoiceLetter(c) && isDigit(n):
 				err = s.parseVoiceMarker()
-- 
2.43.0


From 37db3b5a3ad4dfda92ccffee26317bd668a7b0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:00 +0000
Subject: [PATCH 04/81] fix: don't crash on an empty cram expression

---
 client/parser/parser.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/client/parser/parser.go b/client/parser/parser.go
index 817c83e..e89fb3b 100644
--- a/client/parser/parser.go
+++ b/client/parser/parser.go
@@ -900,9 +900,15 @@ func (p *parser) cram() (ASTNode, error) {
 		return ASTNode{}, err
 	}
 
+	// An empty cram expression has no first event to take the context from.
+	eventsContext := p.sourceContext(cramOpenToken)
+	if len(allEvents) > 0 {
+		eventsContext = allEvents[0].SourceContext
+	}
+
 	eventsNode := ASTNode{
 		Type:          EventSequenceNode,
-		SourceContext: allEvents[0].SourceContext,
+		SourceContext: eventsContext,
 		Children:      allEvents,
 	}
 
-- 
2.43.0


From 4b47cc2b94f25b9bdbf292b947e6e2bd5919406b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:05 +0000
Subject: [PATCH 05/81] fix: repeat a note, rest or chord zero times when that
 is what is written

---
 client/parser/parser.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/client/parser/parser.go b/client/parser/parser.go
index e89fb3b..4311f16 100644
--- a/client/parser/parser.go
+++ b/client/parser/parser.go
@@ -705,9 +705,8 @@ func (p *parser) noteRestOrChord() (ASTNode, error) {
 		times         int32
 	}
 
-	// We're essentially using this as a nil value. Below, we check whether
-	// `repeat.times` > 0, which will be true if we don't reassign `repeat`.
-	repeat := maybeRepeat{}
+	// This remains nil unless there is a repeat operator.
+	var repeat *maybeRepeat
 
 	for {
 		noteOrRest, err := p.noteOrRest()
@@ -717,7 +716,7 @@ func (p *parser) noteRestOrChord() (ASTNode, error) {
 
 		if token, matched := p.match(Repeat); matched {
 			allNodes = append(allNodes, noteOrRest)
-			repeat = maybeRepeat{
+			repeat = &maybeRepeat{
 				sourceContext: p.sourceContext(token),
 				times:         token.literal.(int32),
 			}
@@ -794,7 +793,7 @@ func (p *parser) noteRestOrChord() (ASTNode, error) {
 		}
 	}
 
-	if repeat.times > 0 {
+	if repeat != nil {
 		if len(allNodes) != 1 {
 			panic(fmt.Sprintf("Expected a single node in %#v", allNodes))
 		}
-- 
2.43.0


From e6c4139d0d7636343dda2a1a07cf4aa6e7a274de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:42 +0000
Subject: [PATCH 06/81] fix: restore the repetition number of the outer repeat
 after an inner repeat

---
 client/model/repeat.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/client/model/repeat.go b/client/model/repeat.go
index d30d53f..b95bf57 100644
--- a/client/model/repeat.go
+++ b/client/model/repeat.go
@@ -30,7 +30,16 @@ func (repeat Repeat) JSON() *json.Container {
 
 // UpdateScore implements ScoreUpdate.UpdateScore by repeatedly updating the
 // score with an event a specified number of times.
+//
+// A repeat can occur within another repeat, so we restore each part's previous
+// repetition number at the end.
 func (repeat Repeat) UpdateScore(score *Score) error {
+	// Voices can begin and end within the repeat, so we go by a part's origin.
+	previousRepetitions := map[*Part]int32{}
+	for _, part := range score.CurrentParts {
+		previousRepetitions[part.origin] = part.currentRepetition
+	}
+
 	for repetition := int32(1); repetition <= repeat.Times; repetition++ {
 		for _, part := range score.CurrentParts {
 			part.currentRepetition = repetition
@@ -41,6 +50,10 @@ func (repeat Repeat) UpdateScore(score *Score) error {
 		}
 	}
 
+	for _, part := range score.CurrentParts {
+		part.currentRepetition = previousRepetitions[part.origin]
+	}
+
 	return nil
 }
 
@@ -48,12 +61,15 @@ func (repeat Repeat) UpdateScore(score *Score) error {
 // of the event being repeated the specified number of times.
 func (repeat Repeat) DurationMs(part *Part) float64 {
 	durationMs := 0.0
+	previousRepetition := part.currentRepetition
 
 	for repetition := int32(1); repetition <= repeat.Times; repetition++ {
 		part.currentRepetition = repetition
 		durationMs += repeat.Event.DurationMs(part)
 	}
 
+	part.currentRepetition = previousRepetition
+
 	return durationMs
 }
 
-- 
2.43.0


From 1ecdca8ac505257e6f7cc2fa23cb584f87fd802b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:49 +0000
Subject: [PATCH 07/81] fix: play an event on its repetitions once when there
 are several current parts

---
 client/model/repetitions.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/client/model/repetitions.go b/client/model/repetitions.go
index e2d98f6..a5931e9 100644
--- a/client/model/repetitions.go
+++ b/client/model/repetitions.go
@@ -62,10 +62,10 @@ func (or OnRepetitions) AppliesTo(repetition int32) bool {
 // on a relevant repetition.
 func (or OnRepetitions) UpdateScore(score *Score) error {
 	for _, part := range score.CurrentParts {
+		// The current parts are all on the same repetition, and updating the score
+		// with the event updates all of them.
 		if or.AppliesTo(part.currentRepetition) {
-			if err := score.Update(or.Event); err != nil {
-				return err
-			}
+			return score.Update(or.Event)
 		}
 	}
 
-- 
2.43.0


From 83efaabc782141e9094974f0d7ec8d21235c5f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:54 +0000
Subject: [PATCH 08/81] fix: use the current repetition number when continuing
 or ending voices

---
 client/model/voice.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client/model/voice.go b/client/model/voice.go
index 8a15214..b6ac2c6 100644
--- a/client/model/voice.go
+++ b/client/model/voice.go
@@ -95,6 +95,8 @@ func (vm VoiceMarker) UpdateScore(score *Score) error {
 
 	for _, part := range score.CurrentParts {
 		voice := part.GetVoice(vm.VoiceNumber)
+		// The voice might have been created on an earlier repetition.
+		voice.currentRepetition = part.currentRepetition
 
 		for i, currentPart := range score.CurrentParts {
 			if currentPart.origin == part.origin {
@@ -160,6 +162,7 @@ func (VoiceGroupEndMarker) UpdateScore(score *Score) error {
 			}
 		}
 
+		lastVoiceToFinish.currentRepetition = part.currentRepetition
 		lastVoiceToFinish.voices = NewVoices()
 		lastVoiceToFinish.voiceTemplate = nil
 
-- 
2.43.0


From f2d8572ffb3b623e7b4eee875c48a038b4d50857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:03 +0000
Subject: [PATCH 09/81] fix: restore the length and time scale of a part when
 voices occur in a cram

---
 client/model/cram.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/client/model/cram.go b/client/model/cram.go
index 13809c9..9cf0534 100644
--- a/client/model/cram.go
+++ b/client/model/cram.go
@@ -94,11 +94,12 @@ func timeScale(cram Cram, part *Part) (float64, error) {
 //
 // * Restore the part's previous TimeScale value.
 func (cram Cram) UpdateScore(score *Score) error {
+	// Voices can begin and end within the cram, so we go by a part's origin.
 	previousDurations := map[*Part]Duration{}
 	previousTimeScales := map[*Part]float64{}
 	for _, part := range score.CurrentParts {
-		previousDurations[part] = part.Duration
-		previousTimeScales[part] = part.TimeScale
+		previousDurations[part.origin] = part.Duration
+		previousTimeScales[part.origin] = part.TimeScale
 	}
 
 	for _, part := range score.CurrentParts {
@@ -124,9 +125,9 @@ func (cram Cram) UpdateScore(score *Score) error {
 		if cram.Duration.Components != nil {
 			part.Duration = cram.Duration
 		} else {
-			part.Duration = previousDurations[part]
+			part.Duration = previousDurations[part.origin]
 		}
-		part.TimeScale = previousTimeScales[part]
+		part.TimeScale = previousTimeScales[part.origin]
 	}
 
 	return nil
-- 
2.43.0


From d5095cac38ee101c1e29def2b86b599bc944ad77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:08 +0000
Subject: [PATCH 10/81] fix: consider the length of a nested cram when tallying
 what follows it

---
 client/model/cram.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/client/model/cram.go b/client/model/cram.go
index 9cf0534..8376523 100644
--- a/client/model/cram.go
+++ b/client/model/cram.go
@@ -136,8 +136,22 @@ func (cram Cram) UpdateScore(score *Score) error {
 // DurationMs implements ScoreUpdate.DurationMs by returning the effective
 // duration of the Cram expression, i.e. either the specified duration of the
 // Cram expression or the part's default duration.
+//
+// Also updates the part in the same way that the Cram expression does, so that
+// the duration of subsequent events can be tallied correctly: attribute changes
+// inside of the Cram expression remain in effect, and the default duration is
+// that of the Cram expression.
 func (cram Cram) DurationMs(part *Part) float64 {
-	return effectiveDuration(cram.Duration, part).Ms(part.Tempo)
+	duration := effectiveDuration(cram.Duration, part)
+	durationMs := duration.Ms(part.Tempo)
+
+	for _, event := range cram.Events {
+		event.DurationMs(part)
+	}
+
+	part.Duration = duration
+
+	return durationMs
 }
 
 // VariableValue implements ScoreUpdate.VariableValue by returning a version of
-- 
2.43.0


From da7a78262e2c2075b980aa0f5b9a1fc0b883c030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:14 +0000
Subject: [PATCH 11/81] fix: consider attribute changes inside of a cram when
 tallying its events

---
 client/model/attributes.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/client/model/attributes.go b/client/model/attributes.go
index bc53be3..fc50ce7 100644
--- a/client/model/attributes.go
+++ b/client/model/attributes.go
@@ -47,7 +47,14 @@ func (au AttributeUpdate) UpdateScore(score *Score) error {
 
 // DurationMs implements ScoreUpdate.DurationMs by returning 0, since an
 // attribute update is conceptually instantaneous.
+//
+// Also updates the part, because the attribute (e.g. tempo, note length) can
+// affect the duration of subsequent events.
 func (au AttributeUpdate) DurationMs(part *Part) float64 {
+	// If there is an error, it will come up again in UpdateScore. So, we can
+	// safely ignore it here.
+	_ = au.PartUpdate.updatePart(part, true)
+
 	return 0
 }
 
-- 
2.43.0


From 696728d6fc4b77f26afa51d89d13b33be421e502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 12/81] fix: end a chord with its shortest note, however the
 note is written

---
 client/model/chord.go | 37 +++++++++----------------------------
 client/model/note.go  |  7 ++++++-
 client/model/score.go |  3 +++
 3 files changed, 18 insertions(+), 29 deletions(-)

diff --git a/client/model/chord.go b/client/model/chord.go
index af8363f..1cef93e 100644
--- a/client/model/chord.go
+++ b/client/model/chord.go
@@ -43,43 +43,24 @@ func (chord Chord) UpdateScore(score *Score) error {
 		return err
 	}
 
-	shortestDurationMs := map[*Part]float64{}
-	for _, part := range score.CurrentParts {
-		shortestDurationMs[part] = math.MaxFloat64
-	}
-
+	// Notes/rests in a chord can have different durations. Following a chord, the
+	// next note/rest is placed after the shortest note/rest in the chord.
+	//
+	// In "chord mode," notes all start at the same offset, and the duration of
+	// the shortest note/rest is kept track of for each part.
+	score.shortestInChordMs = map[*Part]float64{}
 	score.chordMode = true
-	for _, event := range chord.Events {
-		// Notes/rests in a chord can have different durations. Following a chord, the
-		// next note/rest is placed after the shortest note/rest in the chord.
-		//
-		// Here, we take note of the event's duration so that we can keep track of
-		// which one is the shortest.
-		var specifiedDuration Duration
-		switch event := event.(type) {
-		case Note:
-			specifiedDuration = event.Duration
-		case Rest:
-			specifiedDuration = event.Duration
-		}
-
-		for _, part := range score.CurrentParts {
-			duration := effectiveDuration(specifiedDuration, part)
-			durationMs := duration.Ms(part.Tempo) * part.TimeScale
-			shortestDurationMs[part] = math.Min(shortestDurationMs[part], durationMs)
-		}
+	defer func() { score.chordMode = false }()
 
-		// Now, we update the score with the event, in "chord mode," which means
-		// that notes all start at the same offset.
+	for _, event := range chord.Events {
 		if err := event.UpdateScore(score); err != nil {
 			return err
 		}
 	}
-	score.chordMode = false
 
 	for _, part := range score.CurrentParts {
 		part.LastOffset = part.CurrentOffset
-		part.CurrentOffset += shortestDurationMs[part]
+		part.CurrentOffset += score.shortestInChordMs[part]
 	}
 
 	return nil
diff --git a/client/model/note.go b/client/model/note.go
index d32f7ea..4b65bfb 100644
--- a/client/model/note.go
+++ b/client/model/note.go
@@ -170,7 +170,12 @@ func addNoteOrRest(score *Score, noteOrRest ScoreUpdate) error {
 			}
 		}
 
-		if !score.chordMode {
+		if score.chordMode {
+			shortestMs, hit := score.shortestInChordMs[part]
+			if !hit || durationMs < shortestMs {
+				score.shortestInChordMs[part] = durationMs
+			}
+		} else {
 			part.LastOffset = part.CurrentOffset
 			part.CurrentOffset += durationMs
 		}
diff --git a/client/model/score.go b/client/model/score.go
index 0473d9d..7ee3717 100644
--- a/client/model/score.go
+++ b/client/model/score.go
@@ -59,6 +59,9 @@ type Score struct {
 	// When true, notes/rests added to the score are placed at the same offset.
 	// Otherwise, they are appended sequentially.
 	chordMode bool
+	// In chord mode, the duration of the shortest note/rest so far for each
+	// current part.
+	shortestInChordMs map[*Part]float64
 }
 
 // JSON implements RepresentableAsJSON.JSON.
-- 
2.43.0


From 238b60e165e2df72d234137afe950df2f6ccf30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:58 +0000
Subject: [PATCH 13/81] fix: let every local attribute change win over a
 simultaneous global one

---
 client/model/attributes.go | 60 ++++++++++++++++++++++++++------------
 client/model/part.go       | 11 +++++--
 2 files changed, 50 insertions(+), 21 deletions(-)

diff --git a/client/model/attributes.go b/client/model/attributes.go
index fc50ce7..b60c6ab 100644
--- a/client/model/attributes.go
+++ b/client/model/attributes.go
@@ -10,6 +10,22 @@ import (
 	log "alda.io/client/logging"
 )
 
+// attributeName returns a name that identifies the attribute that is changed by
+// an update. Different types of update can change the same attribute, e.g. a
+// dynamic marking sets the volume.
+func attributeName(update PartUpdate) string {
+	switch update.(type) {
+	case TempoSet, MetricModulation:
+		return "tempo"
+	case OctaveSet, OctaveUp, OctaveDown:
+		return "octave"
+	case VolumeSet, DynamicMarking:
+		return "volume"
+	default:
+		return reflect.TypeOf(update).Name()
+	}
+}
+
 // AttributeUpdate updates the value of an attribute for all current parts.
 type AttributeUpdate struct {
 	SourceContext AldaSourceContext
@@ -39,7 +55,8 @@ func (au AttributeUpdate) UpdateScore(score *Score) error {
 		// This is so that we can track the case where a local attribute change is
 		// applied at the exact same time as a global attribute change, and we want
 		// the local attribute change to take precedence.
-		part.localAttributeOverride = au.PartUpdate
+		part.localAttributeOverrides[attributeName(au.PartUpdate)] =
+			part.CurrentOffset
 	}
 
 	return nil
@@ -119,24 +136,24 @@ func (ga *GlobalAttributes) Record(offset float64, update PartUpdate) {
 	}
 }
 
-// InWindow returns the list of global attribute updates that fall within the
-// window between `startOffset` and `endOffset`.
-func (ga GlobalAttributes) InWindow(
+// offsetsInWindow returns the list of offsets with global attribute updates
+// that fall within the window between `startOffset` and `endOffset`.
+func (ga GlobalAttributes) offsetsInWindow(
 	startOffset float64, endOffset float64,
-) []PartUpdate {
-	updates := []PartUpdate{}
+) []float64 {
+	offsets := []float64{}
 
 	for _, offset := range ga.offsets {
 		if offset > endOffset {
-			return updates
+			return offsets
 		}
 
 		if offset > startOffset {
-			updates = append(updates, ga.itinerary[offset]...)
+			offsets = append(offsets, offset)
 		}
 	}
 
-	return updates
+	return offsets
 }
 
 // ApplyGlobalAttributes uses a score's itinerary of global attribute updates to
@@ -146,17 +163,22 @@ func (ga GlobalAttributes) InWindow(
 // LastOffset and CurrentOffset are applied.
 func (score *Score) ApplyGlobalAttributes() error {
 	for _, part := range score.CurrentParts {
-		for _, update := range score.GlobalAttributes.InWindow(
+		for _, offset := range score.GlobalAttributes.offsetsInWindow(
 			part.LastOffset, part.CurrentOffset,
 		) {
-			if reflect.TypeOf(part.localAttributeOverride) == reflect.TypeOf(update) {
-				log.Debug().
-					Str("part", part.Name).
-					Interface("globalUpdate", update).
-					Interface("localUpdate", part.localAttributeOverride).
-					Msg("Skipping global attribute update. " +
-						"Overridden by local attribute update.")
-			} else {
+			for _, update := range score.GlobalAttributes.itinerary[offset] {
+				overrideOffset, overridden :=
+					part.localAttributeOverrides[attributeName(update)]
+
+				if overridden && offset <= overrideOffset {
+					log.Debug().
+						Str("part", part.Name).
+						Interface("globalUpdate", update).
+						Msg("Skipping global attribute update. " +
+							"Overridden by local attribute update.")
+					continue
+				}
+
 				log.Debug().
 					Str("part", part.Name).
 					Interface("update", update).
@@ -168,7 +190,7 @@ func (score *Score) ApplyGlobalAttributes() error {
 			}
 		}
 
-		part.localAttributeOverride = nil
+		part.localAttributeOverrides = map[string]float64{}
 	}
 
 	return nil
diff --git a/client/model/part.go b/client/model/part.go
index a925f04..706ffa7 100644
--- a/client/model/part.go
+++ b/client/model/part.go
@@ -70,8 +70,9 @@ type Part struct {
 	TempoValues map[float64]float64
 	// Used in order to track the case where a part overrides a global attribute
 	// change with a local attribute change just for that part, at the exact same
-	// offset.
-	localAttributeOverride PartUpdate
+	// offset. A map of the names of the attributes that the part has changed since
+	// its last note to the offsets where it changed them.
+	localAttributeOverrides map[string]float64
 	// Used for conditionally playing or not playing an event based on how many
 	// times through a repeated sequence the part has played so far.
 	//
@@ -147,6 +148,10 @@ func (part *Part) Clone() *Part {
 	clone.voiceTemplate = part.voiceTemplate
 	clone.voices = part.voices
 	clone.score = part.score
+	clone.localAttributeOverrides = map[string]float64{}
+	for attribute, offset := range part.localAttributeOverrides {
+		clone.localAttributeOverrides[attribute] = offset
+	}
 
 	return clone
 }
@@ -181,6 +186,8 @@ func (score *Score) NewPart(name string) (*Part, error) {
 		ReferencePitch: 440.0,
 		voices:         NewVoices(),
 		score:          score,
+
+		localAttributeOverrides: map[string]float64{},
 	}
 
 	part.origin = part
-- 
2.43.0


From 5162807875af90d20d7423ebbf5285e16c7d4ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:04 +0000
Subject: [PATCH 14/81] fix: identify a part by the same ID in events, parts
 and aliases

---
 client/model/part.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/client/model/part.go b/client/model/part.go
index 706ffa7..00e5e4a 100644
--- a/client/model/part.go
+++ b/client/model/part.go
@@ -98,9 +98,10 @@ func (part *Part) RecordTempoValue() {
 	part.TempoValues[part.CurrentOffset] = part.Tempo
 }
 
-// ID returns a unique identifier to the part.
+// ID returns a unique identifier to the part. It is the same for all voices of
+// the part.
 func (part *Part) ID() string {
-	return fmt.Sprintf("%p", part)
+	return fmt.Sprintf("%p", part.origin)
 }
 
 // JSON implements RepresentableAsJSON.JSON.
-- 
2.43.0


From 81843fd4eec6418b3ecd38f4bcbba50a5f7972af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:10 +0000
Subject: [PATCH 15/81] fix: report the current offset of a part after its
 voices

---
 client/model/score.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/model/score.go b/client/model/score.go
index 7ee3717..99352bc 100644
--- a/client/model/score.go
+++ b/client/model/score.go
@@ -165,7 +165,7 @@ func (score *Score) PartOffsets() map[*Part]float64 {
 	offsets := map[*Part]float64{}
 
 	for _, part := range score.Parts {
-		offsets[part.origin] = part.origin.CurrentOffset
+		offsets[part.origin] = part.CurrentOffset
 	}
 
 	return offsets
-- 
2.43.0


From fe8bddf44b2057070ac3c750aecb1befd90db6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:56 +0000
Subject: [PATCH 16/81] fix: report an empty S-expression and a quote without
 an argument

---
 client/model/lisp.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/client/model/lisp.go b/client/model/lisp.go
index c8965fc..ef0cfa1 100644
--- a/client/model/lisp.go
+++ b/client/model/lisp.go
@@ -1671,6 +1671,10 @@ func (l LispList) Eval() (LispForm, error) {
 		}
 	}
 
+	if len(l.Elements) == 0 {
+		return nil, sourceError(fmt.Errorf("missing operator: ()"))
+	}
+
 	operator, err := l.Elements[0].Eval()
 	if err != nil {
 		return nil, err
@@ -1680,10 +1684,10 @@ func (l LispList) Eval() (LispForm, error) {
 	// TODO: consider turning this into an interface?
 	switch operator.(type) {
 	case LispSpecialFormQuote:
-		if len(l.Elements[1:]) > 1 {
-			return nil, fmt.Errorf(
+		if len(l.Elements[1:]) != 1 {
+			return nil, sourceError(fmt.Errorf(
 				"expected 1 argument to quote, got %d", len(l.Elements[1:]),
-			)
+			))
 		}
 
 		return l.Elements[1], nil
-- 
2.43.0


From 83632bb4c453a80cf346e651ab9bf72f4a501106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:03 +0000
Subject: [PATCH 17/81] fix: reject a note length string that ends in garbage
 or is zero

---
 client/model/lisp.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/client/model/lisp.go b/client/model/lisp.go
index ef0cfa1..33582b8 100644
--- a/client/model/lisp.go
+++ b/client/model/lisp.go
@@ -537,11 +537,16 @@ func noteLength(str string) (NoteLength, error) {
 
 	// At this point, we should be at the end of the string. If there's anything
 	// left over, consider the string invalid.
-	if i < len(chars)-1 {
+	if i < len(chars) {
 		return NoteLength{}, fmt.Errorf("invalid note length: %q", str)
 	}
 
-	return NoteLength{Denominator: denominator, Dots: int32(dots)}, nil
+	length := NoteLength{Denominator: denominator, Dots: int32(dots)}
+	if err := length.Validate(); err != nil {
+		return NoteLength{}, err
+	}
+
+	return length, nil
 }
 
 func duration(form LispForm) (Duration, error) {
-- 
2.43.0


From f7fee6b132655222e9436c09bf4b4a59118caa55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:10 +0000
Subject: [PATCH 18/81] fix: accept positive numbers below 1 where a positive
 number is expected

---
 client/model/lisp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/model/lisp.go b/client/model/lisp.go
index 33582b8..c4c667e 100644
--- a/client/model/lisp.go
+++ b/client/model/lisp.go
@@ -418,7 +418,7 @@ func defattribute(names []string, signatures ...attributeFunctionSignature) {
 func positiveNumber(form LispForm) (float64, error) {
 	number := form.(LispNumber)
 
-	if number.Value < 1 {
+	if number.Value <= 0 {
 		return 0, &AldaSourceError{
 			Context: number.SourceContext,
 			Err:     fmt.Errorf("expected positive number, got %f", number.Value),
-- 
2.43.0


From 229965f4c4b1fbdb989468760cc95ab799de2694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:17 +0000
Subject: [PATCH 19/81] fix: reject key signature letters that are longer than
 a letter

---
 client/model/lisp.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client/model/lisp.go b/client/model/lisp.go
index c4c667e..695a6a0 100644
--- a/client/model/lisp.go
+++ b/client/model/lisp.go
@@ -734,6 +734,10 @@ func keySignatureFromAccidentals(forms []LispForm) (KeySignature, error) {
 		switch form := forms[i]; form.(type) {
 		case LispSymbol:
 			chars := []rune(form.(LispSymbol).Name)
+			if len(chars) > 1 {
+				return KeySignature{}, validityError
+			}
+
 			ltr, err := NewNoteLetter(chars[0])
 			if err != nil {
 				return KeySignature{}, err
-- 
2.43.0


From dacc4c739da137bbe7c39f621e65def4fc34b394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 20/81] fix: reject a cram expression with a length of zero

---
 client/model/cram.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client/model/cram.go b/client/model/cram.go
index 8376523..878fea7 100644
--- a/client/model/cram.go
+++ b/client/model/cram.go
@@ -94,6 +94,10 @@ func timeScale(cram Cram, part *Part) (float64, error) {
 //
 // * Restore the part's previous TimeScale value.
 func (cram Cram) UpdateScore(score *Score) error {
+	if err := cram.Duration.Validate(); err != nil {
+		return err
+	}
+
 	// Voices can begin and end within the cram, so we go by a part's origin.
 	previousDurations := map[*Part]Duration{}
 	previousTimeScales := map[*Part]float64{}
-- 
2.43.0


From c785f30d9afa1cfd121c62d5419c89c2aa697c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:59 +0000
Subject: [PATCH 21/81] fix: scan a minus sign as a number only if a digit
 follows

---
 client/parser/scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/parser/scanner.go b/client/parser/scanner.go
index fc0089d..3380a47 100644
--- a/client/parser/scanner.go
+++ b/client/parser/scanner.go
@@ -688,7 +688,7 @@ func (s *scanner) scanToken() error {
 			err = s.parseString()
 		default:
 			switch {
-			case c == '-' || isDigit(c):
+			case isDigit(c) || (c == '-' && isDigit(s.peek())):
 				s.parseNumber()
 			case isValidSymbolChar(c):
 				s.parseSymbol()
-- 
2.43.0


From 07e308e84567389417a9522f653c1b857161b634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:29 +0000
Subject: [PATCH 22/81] fix: end the voices when V0: doesn't directly follow a
 voice

---
 client/parser/gen.go    |  7 +++++++
 client/parser/parser.go | 11 ++++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/client/parser/gen.go b/client/parser/gen.go
index 828c765..7630795 100644
--- a/client/parser/gen.go
+++ b/client/parser/gen.go
@@ -348,6 +348,13 @@ func mapInnerEvents(updates []model.ScoreUpdate) ([]ASTNode, error) {
 			currentNode = &currentVoiceGroup.Children[currIndex].Children[1]
 
 		case model.VoiceGroupEndMarker:
+			if currentVoiceGroup == nil {
+				dummyNode.Children = append(dummyNode.Children,
+					ASTNode{Type: VoiceGroupEndMarkerNode},
+				)
+				continue
+			}
+
 			currentVoiceGroup.Children = append(currentVoiceGroup.Children,
 				ASTNode{Type: VoiceGroupEndMarkerNode},
 			)
diff --git a/client/parser/parser.go b/client/parser/parser.go
index 4311f16..59770bc 100644
--- a/client/parser/parser.go
+++ b/client/parser/parser.go
@@ -1050,7 +1050,16 @@ func (p *parser) innerEvent() (ASTNode, error) {
 		return p.cram()
 	}
 
-	if _, matched := p.match(VoiceMarker); matched {
+	if token, matched := p.match(VoiceMarker); matched {
+		// The voices might have been written elsewhere, e.g. in an event sequence
+		// or in a previous line of input in a REPL session.
+		if token.literal.(int32) == 0 {
+			return ASTNode{
+				Type:          VoiceGroupEndMarkerNode,
+				SourceContext: p.sourceContext(token),
+			}, nil
+		}
+
 		return p.voiceGroup()
 	}
 
-- 
2.43.0


From b95c9b4dc58ae03bf82b8808eeecb7df668699f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:56 +0000
Subject: [PATCH 23/81] fix: reject an unnamed instrument in a group if there
 are named instances of it

---
 client/model/part.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/client/model/part.go b/client/model/part.go
index 00e5e4a..b724e88 100644
--- a/client/model/part.go
+++ b/client/model/part.go
@@ -380,6 +380,13 @@ func determineParts(decl PartDeclaration, score *Score) ([]*Part, error) {
 		unnamed := score.UnnamedParts(name)
 		if len(named) > 0 {
 			namedParts = append(namedParts, named...)
+		} else if decl.Alias == "" && len(score.AliasedStockInstruments(name)) > 0 {
+			// Can't use both unnamed and named instances of the same instrument.
+			return nil, fmt.Errorf(
+				"ambiguous instrument reference \"%s\": can't use both unnamed and "+
+					"named instances of the same instrument in a score",
+				name,
+			)
 		} else if len(unnamed) > 0 {
 			stockParts = append(stockParts, unnamed...)
 		} else {
-- 
2.43.0


From eccf72f9d1964fea28f6f5fc520a1556488eb46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:02 +0000
Subject: [PATCH 24/81] fix: reject a group that includes one stock instrument
 by two names

---
 client/model/part.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/client/model/part.go b/client/model/part.go
index b724e88..e3e40d4 100644
--- a/client/model/part.go
+++ b/client/model/part.go
@@ -360,13 +360,21 @@ func determineParts(decl PartDeclaration, score *Score) ([]*Part, error) {
 		return []*Part{part}, nil
 	}
 
-	// Guard against duplicate names, e.g. piano/piano, foo/foo.
+	// Guard against duplicate names, e.g. piano/piano, foo/foo, as well as
+	// different names of the same stock instrument, e.g. piano/midi-piano.
 	seen := map[string]bool{}
 	for _, name := range decl.Names {
-		if seen[name] {
+		identifier := name
+		if len(score.NamedParts(name)) == 0 {
+			if stock, err := stockInstrumentName(name); err == nil {
+				identifier = stock
+			}
+		}
+
+		if seen[identifier] {
 			return nil, fmt.Errorf("Name included multiple times in group: %s", name)
 		}
-		seen[name] = true
+		seen[identifier] = true
 	}
 
 	// If we've gotten this far, there are multiple names, e.g.:
-- 
2.43.0


From 7d15bc3a18e5f207c184134c056323465746e81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:09 +0000
Subject: [PATCH 25/81] fix: include the name of the variable in the JSON of
 its definition

---
 client/model/variable.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/model/variable.go b/client/model/variable.go
index 42e99ab..a1cc324 100644
--- a/client/model/variable.go
+++ b/client/model/variable.go
@@ -51,7 +51,7 @@ func (vd VariableDefinition) JSON() *json.Container {
 
 	return json.Object(
 		"type", "variable-definition",
-		"value", json.Object("events", events),
+		"value", json.Object("name", vd.VariableName, "events", events),
 	)
 }
 
-- 
2.43.0


From 3b849ae76900450ddf1e2f6a4b9f6ebeb914b800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:13 +0000
Subject: [PATCH 26/81] fix: keep pitches far outside the MIDI range from
 wrapping around into it

---
 client/model/pitch.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/client/model/pitch.go b/client/model/pitch.go
index c541064..1de3a2f 100644
--- a/client/model/pitch.go
+++ b/client/model/pitch.go
@@ -2,6 +2,7 @@ package model
 
 import (
 	"fmt"
+	"math"
 
 	"alda.io/client/json"
 )
@@ -164,8 +165,8 @@ func (laa LetterAndAccidentals) JSON() *json.Container {
 func (laa LetterAndAccidentals) CalculateMidiNote(
 	octave int32, keySignature KeySignature, transposition int32,
 ) int32 {
-	baseMidiNoteNumber := ((octave + 1) * 12) +
-		NoteLetterIntervals[laa.NoteLetter]
+	baseMidiNoteNumber := ((int64(octave) + 1) * 12) +
+		int64(NoteLetterIntervals[laa.NoteLetter])
 
 	var accidentals []Accidental
 	if laa.Accidentals == nil {
@@ -183,7 +184,21 @@ func (laa LetterAndAccidentals) CalculateMidiNote(
 		}
 	}
 
-	return baseMidiNoteNumber + transposition
+	return clampMidiNote(baseMidiNoteNumber + int64(transposition))
+}
+
+// Restricts a calculated MIDI note number to the int32 range, so that a number
+// that is far outside of the 0-127 range doesn't wrap around into it.
+func clampMidiNote(midiNote int64) int32 {
+	if midiNote > math.MaxInt32 {
+		return math.MaxInt32
+	}
+
+	if midiNote < math.MinInt32 {
+		return math.MinInt32
+	}
+
+	return int32(midiNote)
 }
 
 // MidiNoteNumber specifies a pitch as a MIDI note number.
@@ -201,5 +216,5 @@ func (mnn MidiNoteNumber) JSON() *json.Container {
 func (mnn MidiNoteNumber) CalculateMidiNote(
 	octave int32, keySignature KeySignature, transposition int32,
 ) int32 {
-	return mnn.MidiNote + transposition
+	return clampMidiNote(int64(mnn.MidiNote) + int64(transposition))
 }
-- 
2.43.0


From 53d0018effcb306fdba1711342c7acb19fd956ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:18 +0000
Subject: [PATCH 27/81] fix: reject numbers that are too large instead of
 altering them

---
 client/parser/scanner.go | 98 +++++++++++++++++++++++++++++-----------
 1 file changed, 72 insertions(+), 26 deletions(-)

diff --git a/client/parser/scanner.go b/client/parser/scanner.go
index 3380a47..ccb9064 100644
--- a/client/parser/scanner.go
+++ b/client/parser/scanner.go
@@ -332,17 +332,37 @@ func (s *scanner) consumeSpaces() {
 // This function is meant to be called after consuming a bunch of digits. It
 // reads from the start index up until the current index and parses the result
 // as an integer.
-func (s *scanner) parseIntegerFrom(startIndex int) int32 {
-	integer, _ := strconv.ParseInt(string(s.input[startIndex:s.current]), 10, 32)
-	return int32(integer)
+//
+// Returns an error if the integer is too large to be represented.
+func (s *scanner) parseIntegerFrom(startIndex int) (int32, error) {
+	digits := string(s.input[startIndex:s.current])
+	integer, err := strconv.ParseInt(digits, 10, 32)
+	if err != nil {
+		return 0, s.numberOutOfRangeError(digits)
+	}
+
+	return int32(integer), nil
+}
+
+func (s *scanner) numberOutOfRangeError(digits string) error {
+	return s.errorAtPosition(
+		s.startLine, s.startColumn, fmt.Sprintf("Number out of range: %s", digits),
+	)
 }
 
 // This function is meant to be called after consuming a bunch of digits, then
 // optionally a period and a bunch more digits. It reads from the start index up
 // until the current index and parses the result as a float.
-func (s *scanner) parseFloatFrom(startIndex int) float64 {
-	number, _ := strconv.ParseFloat(string(s.input[s.start:s.current]), 64)
-	return number
+//
+// Returns an error if the number is too large to be represented.
+func (s *scanner) parseFloatFrom(startIndex int) (float64, error) {
+	digits := string(s.input[startIndex:s.current])
+	number, err := strconv.ParseFloat(digits, 64)
+	if err != nil {
+		return 0, s.numberOutOfRangeError(digits)
+	}
+
+	return number, nil
 }
 
 type noteLength struct {
@@ -359,7 +379,7 @@ func terminatesNoteLength(c rune) bool {
 	return false
 }
 
-func (s *scanner) parseNoteLength() {
+func (s *scanner) parseNoteLength() error {
 	// NB: This assumes that the first digit has already been consumed.
 
 	// Consume the rest of the digits.
@@ -373,7 +393,10 @@ func (s *scanner) parseNoteLength() {
 		s.consumeDigits()
 	}
 
-	number := s.parseFloatFrom(s.start)
+	number, err := s.parseFloatFrom(s.start)
+	if err != nil {
+		return err
+	}
 
 	c := s.peek()
 	n := s.peekNext()
@@ -381,7 +404,7 @@ func (s *scanner) parseNoteLength() {
 		// consume 's'
 		s.advance()
 		s.addToken(NoteLengthSeconds, number)
-		return
+		return nil
 	}
 
 	if c == 'm' && n == 's' {
@@ -389,7 +412,7 @@ func (s *scanner) parseNoteLength() {
 		s.advance()
 		s.advance()
 		s.addToken(NoteLengthMs, number)
-		return
+		return nil
 	}
 
 	dots := 0
@@ -400,11 +423,12 @@ func (s *scanner) parseNoteLength() {
 	}
 
 	s.addToken(NoteLength, noteLength{denominator: number, dots: int32(dots)})
+	return nil
 }
 
 // This assumes that the initial digit (or minus sign, if it's a negative
 // number) was already consumed.
-func (s *scanner) parseNumber() {
+func (s *scanner) parseNumber() error {
 	// Parse numbers before the period.
 	s.consumeDigits()
 
@@ -416,7 +440,13 @@ func (s *scanner) parseNumber() {
 	// Parse numbers after the period.
 	s.consumeDigits()
 
-	s.addToken(Number, s.parseFloatFrom(s.start))
+	number, err := s.parseFloatFrom(s.start)
+	if err != nil {
+		return err
+	}
+
+	s.addToken(Number, number)
+	return nil
 }
 
 func (s *scanner) parseRepetitions() error {
@@ -433,7 +463,11 @@ func (s *scanner) parseRepetitions() error {
 		// Parse the "first" number of the range.
 		startNumber := s.current
 		s.consumeDigits()
-		first := s.parseIntegerFrom(startNumber)
+		first, err := s.parseIntegerFrom(startNumber)
+		if err != nil {
+			return err
+		}
+
 		er := model.RepetitionRange{First: first}
 
 		// Either parse the "last" number of the range, or make the first number
@@ -446,7 +480,10 @@ func (s *scanner) parseRepetitions() error {
 
 			startNumber := s.current
 			s.consumeDigits()
-			er.Last = s.parseIntegerFrom(startNumber)
+			er.Last, err = s.parseIntegerFrom(startNumber)
+			if err != nil {
+				return err
+			}
 		} else {
 			er.Last = first
 		}
@@ -486,9 +523,12 @@ func (s *scanner) parseRepeat() error {
 		return s.unexpectedCharError(c, "in repeat", s.line, s.column)
 	}
 
-	digits := s.input[startDigits:s.current]
-	times, _ := strconv.ParseInt(string(digits), 10, 32)
-	s.addToken(Repeat, int32(times))
+	times, err := s.parseIntegerFrom(startDigits)
+	if err != nil {
+		return err
+	}
+
+	s.addToken(Repeat, times)
 
 	return nil
 }
@@ -504,9 +544,12 @@ func (s *scanner) parseOctaveSet() error {
 	}
 
 	// Trim the initial 'o'
-	digits := s.input[s.start+1 : s.current]
-	octaveNumber, _ := strconv.ParseInt(string(digits), 10, 32)
-	s.addToken(OctaveSet, int32(octaveNumber))
+	octaveNumber, err := s.parseIntegerFrom(s.start + 1)
+	if err != nil {
+		return err
+	}
+
+	s.addToken(OctaveSet, octaveNumber)
 
 	return nil
 }
@@ -520,13 +563,16 @@ func (s *scanner) parseVoiceMarker() error {
 		return s.unexpectedCharError(c, "in voice marker", s.line, s.column)
 	}
 
+	// Trim the initial 'V'
+	voiceNumber, err := s.parseIntegerFrom(s.start + 1)
+	if err != nil {
+		return err
+	}
+
 	// Consume the final ':'
 	s.advance()
 
-	// Trim the surrounding 'V' and ':'.
-	digits := s.input[s.start+1 : s.current-1]
-	voiceNumber, _ := strconv.ParseInt(string(digits), 10, 32)
-	s.addToken(VoiceMarker, int32(voiceNumber))
+	s.addToken(VoiceMarker, voiceNumber)
 
 	return nil
 }
@@ -689,7 +735,7 @@ func (s *scanner) scanToken() error {
 		default:
 			switch {
 			case isDigit(c) || (c == '-' && isDigit(s.peek())):
-				s.parseNumber()
+				err = s.parseNumber()
 			case isValidSymbolChar(c):
 				s.parseSymbol()
 			default:
@@ -743,7 +789,7 @@ func (s *scanner) scanToken() error {
 	default:
 		switch {
 		case isDigit(c):
-			s.parseNoteLength()
+			err = s.parseNoteLength()
 		case isLetter(c):
 			n := s.peek()
 			switch {
-- 
2.43.0


From 00403964c329d4cefc20c8cab7c244560e7bef97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:20 +0000
Subject: [PATCH 28/81] fix: reject note lengths and tempos that are not finite

---
 client/model/attributes.go | 22 +++++++++++++++++++++-
 client/model/lisp.go       |  5 ++++-
 client/model/note.go       | 25 +++++++++++++++++++++++++
 3 files changed, 50 insertions(+), 2 deletions(-)

diff --git a/client/model/attributes.go b/client/model/attributes.go
index b60c6ab..f93398f 100644
--- a/client/model/attributes.go
+++ b/client/model/attributes.go
@@ -2,6 +2,7 @@ package model
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 	"sort"
 
@@ -266,7 +267,21 @@ func (ts TempoSet) JSON() *json.Container {
 	return json.Object("attribute", "tempo", "value", ts.Tempo)
 }
 
+// A tempo is only usable if it's a positive number for which the length of a
+// beat is finite.
+func validateTempo(tempo float64) error {
+	if !(tempo > 0) || math.IsInf(tempo, 0) || math.IsInf(60000/tempo, 0) {
+		return help.UserFacingErrorf(`Tempo out of range: %g`, tempo)
+	}
+
+	return nil
+}
+
 func (ts TempoSet) updatePart(part *Part, globalUpdate bool) error {
+	if err := validateTempo(ts.Tempo); err != nil {
+		return err
+	}
+
 	part.Tempo = ts.Tempo
 
 	// Global updates are recorded separately, and we would end up getting
@@ -295,7 +310,12 @@ func (mm MetricModulation) JSON() *json.Container {
 }
 
 func (mm MetricModulation) updatePart(part *Part, globalUpdate bool) error {
-	part.Tempo *= mm.Ratio
+	tempo := part.Tempo * mm.Ratio
+	if err := validateTempo(tempo); err != nil {
+		return err
+	}
+
+	part.Tempo = tempo
 
 	// Global updates are recorded separately, and we would end up getting
 	// incorrect results anyway if we recorded the tempo at the part's current
diff --git a/client/model/lisp.go b/client/model/lisp.go
index 695a6a0..4bba500 100644
--- a/client/model/lisp.go
+++ b/client/model/lisp.go
@@ -526,7 +526,10 @@ func noteLength(str string) (NoteLength, error) {
 		}
 	}
 
-	denominator, _ := strconv.ParseFloat(string(denominatorChars), 64)
+	denominator, err := strconv.ParseFloat(string(denominatorChars), 64)
+	if err != nil {
+		return NoteLength{}, fmt.Errorf("invalid note length: %q", str)
+	}
 
 	// Any periods remaining are treated as dots.
 	dots := 0
diff --git a/client/model/note.go b/client/model/note.go
index 4b65bfb..f3d9d1b 100644
--- a/client/model/note.go
+++ b/client/model/note.go
@@ -1,6 +1,8 @@
 package model
 
 import (
+	"math"
+
 	"alda.io/client/help"
 	"alda.io/client/json"
 	log "alda.io/client/logging"
@@ -88,6 +90,20 @@ func updateDefaultDuration(part *Part, duration Duration) {
 	}
 }
 
+// Something that lasts longer than can be expressed as a number of milliseconds
+// can't be placed in the score.
+func validateTimespan(offset float64, durationMs float64) error {
+	end := offset + durationMs
+
+	if math.IsNaN(end) || math.IsInf(end, 0) {
+		return help.UserFacingErrorf(
+			`The length of a note or rest at offset %g is out of range.`, offset,
+		)
+	}
+
+	return nil
+}
+
 func addNoteOrRest(score *Score, noteOrRest ScoreUpdate) error {
 	// Avoid applying the same global attribute change multiple times if we're in
 	// a chord.
@@ -116,6 +132,10 @@ func addNoteOrRest(score *Score, noteOrRest ScoreUpdate) error {
 		duration := effectiveDuration(specifiedDuration, part)
 		durationMs := duration.Ms(part.Tempo) * part.TimeScale
 
+		if err := validateTimespan(part.CurrentOffset, durationMs); err != nil {
+			return err
+		}
+
 		switch noteOrRest := noteOrRest.(type) {
 		case Note:
 			audibleDurationMs := durationMs
@@ -123,6 +143,11 @@ func addNoteOrRest(score *Score, noteOrRest ScoreUpdate) error {
 				audibleDurationMs *= part.Quantization
 			}
 
+			err := validateTimespan(part.CurrentOffset, audibleDurationMs)
+			if err != nil {
+				return err
+			}
+
 			if audibleDurationMs > 0 {
 				midiNote := noteOrRest.Pitch.CalculateMidiNote(
 					part.Octave, part.KeySignature, part.Transposition,
-- 
2.43.0


From b87427ffdb6909a2d744fe85253d580077f0eaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:18 +0000
Subject: [PATCH 29/81] fix: keep large time markings from overflowing

---
 client/model/score.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/client/model/score.go b/client/model/score.go
index 99352bc..70e7a79 100644
--- a/client/model/score.go
+++ b/client/model/score.go
@@ -187,9 +187,13 @@ func (score *Score) InterpretOffsetReference(
 	captured := re.FindStringSubmatch(reference)
 	if len(captured) == 3 {
 		// captured[0] is the full string, e.g. "0:10"
-		minutes, _ := strconv.Atoi(captured[1])
-		seconds, _ := strconv.Atoi(captured[2])
-		return (float64)(minutes*60*1000) + (float64)(seconds*1000), nil
+		//
+		// The numbers are parsed as floats because there is no limit to the number
+		// of digits. The only possible error is that a number is out of range, in
+		// which case the result is infinity.
+		minutes, _ := strconv.ParseFloat(captured[1], 64)
+		seconds, _ := strconv.ParseFloat(captured[2], 64)
+		return minutes*60*1000 + seconds*1000, nil
 	}
 
 	offset, hit := score.Markers[reference]
-- 
2.43.0


From f7c1622140e5eda77cfdfe161a221261681bf994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:35 +0000
Subject: [PATCH 30/81] fix: apply a global metric modulation to the master
 tempo in force

---
 client/model/score.go | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/client/model/score.go b/client/model/score.go
index 70e7a79..d6ddad9 100644
--- a/client/model/score.go
+++ b/client/model/score.go
@@ -243,25 +243,27 @@ func (score *Score) TempoItinerary() map[float64]float64 {
 	// if the parts happen to be playing at different tempos. Unlike a global
 	// tempo change, it isn't clear what tempo to record in the tempo itinerary.
 	//
-	// This isn't an amazing solution, but it's the best thing I could come up
-	// with, and I think it will work in 99% of use cases where this is likely to
-	// come up. In scores where there is a global metric modulation, it's probably
-	// pretty safe to assume that there was a preceding global tempo update
-	// earlier in the score, and that that's probably the tempo that all of the
-	// parts are at at the point in the score when the metric modulation occurs.
-	// So, if we're operating under that assumption, then we can just keep track
-	// of the last global tempo change that we saw and apply the metric modulation
-	// to that tempo, and we'll probably be right. Hopefully.
-	lastGlobalTempo := 120.0
+	// We apply the metric modulation to the master tempo at that point in time,
+	// i.e. the tempo of the most recent entry in the itinerary.
+	masterTempo := func(offset float64) float64 {
+		latestOffset := 0.0
+
+		for tempoOffset := range itinerary {
+			if tempoOffset > latestOffset && tempoOffset <= offset {
+				latestOffset = tempoOffset
+			}
+		}
+
+		return itinerary[latestOffset]
+	}
 
 	for _, offset := range score.GlobalAttributes.offsets {
 		for _, update := range score.GlobalAttributes.itinerary[offset] {
 			switch update := update.(type) {
 			case TempoSet:
-				lastGlobalTempo = update.Tempo
 				itinerary[offset] = update.Tempo
 			case MetricModulation:
-				itinerary[offset] = lastGlobalTempo * update.Ratio
+				itinerary[offset] = masterTempo(offset) * update.Ratio
 			}
 		}
 	}
-- 
2.43.0


From ea23cc6e8569a93b8c6588f3613ea3f56d53f482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:36 +0000
Subject: [PATCH 31/81] fix: MusicXML numbers above 127 (divisions, MIDI
 program and pitch 128) are not cut to 127

---
 client/interop/musicxml/importer/handlers.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/client/interop/musicxml/importer/handlers.go b/client/interop/musicxml/importer/handlers.go
index b419111..3e8632d 100644
--- a/client/interop/musicxml/importer/handlers.go
+++ b/client/interop/musicxml/importer/handlers.go
@@ -124,7 +124,7 @@ func scorePartHandler(element *etree.Element, importer *musicXMLImporter) {
 		// midi-percussion instruments
 		for _, instrument := range midiInstruments {
 			instrumentNumber, _ := strconv.ParseInt(
-				instrument.FindElement("midi-unpitched").Text(), 10, 8,
+				instrument.FindElement("midi-unpitched").Text(), 10, 32,
 			)
 
 			instrumentId := instrument.SelectAttrValue("id", "")
@@ -137,7 +137,7 @@ func scorePartHandler(element *etree.Element, importer *musicXMLImporter) {
 		var instrumentIDs []int64
 		for _, instrument := range midiInstruments {
 			instrumentID, _ := strconv.ParseInt(
-				instrument.FindElement("midi-program").Text(), 10, 8,
+				instrument.FindElement("midi-program").Text(), 10, 32,
 			)
 			instrumentIDs = append(instrumentIDs, instrumentID)
 		}
@@ -292,7 +292,7 @@ func measureHandler(element *etree.Element, importer *musicXMLImporter) {
 	for _, child := range element.ChildElements() {
 		// We handle voice switching at the measure level
 		if voice := child.FindElement("voice"); voice != nil {
-			voiceNumber, _ := strconv.ParseInt(voice.Text(), 10, 8)
+			voiceNumber, _ := strconv.ParseInt(voice.Text(), 10, 32)
 			importer.currentPart.currentVoice =
 				importer.part().voices[int32(voiceNumber)]
 
@@ -516,7 +516,7 @@ func dynamicsHandler(element *etree.Element, importer *musicXMLImporter) {
 func divisionsHandler(element *etree.Element, importer *musicXMLImporter) {
 	// Due to our management of Alda durations and beats, we do not need to
 	// maintain history for division changes
-	value, _ := strconv.ParseInt(element.Text(), 10, 8)
+	value, _ := strconv.ParseInt(element.Text(), 10, 32)
 	importer.part().divisions = int(value)
 }
 
-- 
2.43.0


From 09c8643f322dcfb82fd2cf4e10d1e407e626eea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:54 +0000
Subject: [PATCH 32/81] fix: MusicXML notes without an alteration are imported
 as natural whatever the key signature

---
 client/interop/musicxml/importer/handlers.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/client/interop/musicxml/importer/handlers.go b/client/interop/musicxml/importer/handlers.go
index 3e8632d..bbcc9b6 100644
--- a/client/interop/musicxml/importer/handlers.go
+++ b/client/interop/musicxml/importer/handlers.go
@@ -634,6 +634,14 @@ func translateNote(
 			}
 		}
 
+		// In MusicXML, the pitch does not depend on the key signature, and a
+		// natural is only displayed where needed. In Alda, a note without an
+		// accidental follows the key signature.
+		keySignature := importer.part().opt.currentKeySignature
+		if len(accidentals) == 0 && len(keySignature[noteLetter]) > 0 {
+			accidentals = []model.Accidental{model.Natural}
+		}
+
 		// Octaves
 		octave := pitch.FindElement("octave")
 		octaveVal, _ := strconv.ParseInt(octave.Text(), 10, 8)
-- 
2.43.0


From 2fb60d64e36aa2a8471c7d4d64b5cb9d08483105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:07 +0000
Subject: [PATCH 33/81] fix: MusicXML parts without voices, without voice 1 or
 with unusual voice numbers are imported

---
 client/interop/musicxml/importer/handlers.go | 27 +++++++---
 client/interop/musicxml/importer/importer.go | 56 ++++++++++++--------
 2 files changed, 55 insertions(+), 28 deletions(-)

diff --git a/client/interop/musicxml/importer/handlers.go b/client/interop/musicxml/importer/handlers.go
index bbcc9b6..1968e7f 100644
--- a/client/interop/musicxml/importer/handlers.go
+++ b/client/interop/musicxml/importer/handlers.go
@@ -225,6 +225,17 @@ func addBarline(importer *musicXMLImporter) {
 	}
 }
 
+// voiceNumber returns the number of the voice a voice element refers to
+// MusicXML voices are arbitrary text, but in practice they are positive numbers
+// Alda voices must be positive numbers, so anything else becomes voice 1
+func voiceNumber(element *etree.Element) int32 {
+	number, err := strconv.ParseInt(strings.TrimSpace(element.Text()), 10, 32)
+	if err != nil || number < 1 {
+		return 1
+	}
+	return int32(number)
+}
+
 func partHandler(element *etree.Element, importer *musicXMLImporter) {
 	// Set current part in importer
 	id := element.SelectAttr("id")
@@ -236,9 +247,7 @@ func partHandler(element *etree.Element, importer *musicXMLImporter) {
 	var recursivelyCreateVoices func(element *etree.Element)
 	recursivelyCreateVoices = func(element *etree.Element) {
 		if element.Tag == "voice" {
-			voiceNumber, _ := strconv.ParseInt(element.Text(), 10, 32)
-			voice := newMusicXMLVoice()
-			importer.part().voices[int32(voiceNumber)] = voice
+			importer.part().voices[voiceNumber(element)] = newMusicXMLVoice()
 		}
 
 		for _, child := range element.ChildElements() {
@@ -247,7 +256,14 @@ func partHandler(element *etree.Element, importer *musicXMLImporter) {
 	}
 
 	recursivelyCreateVoices(element)
-	importer.currentPart.currentVoice = importer.part().voices[1]
+
+	// Voices are optional, a part without any has a single voice
+	if len(importer.part().voices) == 0 {
+		importer.part().voices[1] = newMusicXMLVoice()
+	}
+
+	importer.currentPart.currentVoice =
+		importer.part().voices[importer.part().voiceNumbers()[0]]
 
 	for i, child := range element.ChildElements() {
 		handle(child, importer)
@@ -292,9 +308,8 @@ func measureHandler(element *etree.Element, importer *musicXMLImporter) {
 	for _, child := range element.ChildElements() {
 		// We handle voice switching at the measure level
 		if voice := child.FindElement("voice"); voice != nil {
-			voiceNumber, _ := strconv.ParseInt(voice.Text(), 10, 32)
 			importer.currentPart.currentVoice =
-				importer.part().voices[int32(voiceNumber)]
+				importer.part().voices[voiceNumber(voice)]
 
 			// We pad the voice with rests as necessary to align beats
 			padVoiceToPresent(child, importer)
diff --git a/client/interop/musicxml/importer/importer.go b/client/interop/musicxml/importer/importer.go
index a8ce6f2..810174e 100644
--- a/client/interop/musicxml/importer/importer.go
+++ b/client/interop/musicxml/importer/importer.go
@@ -45,43 +45,55 @@ func newMusicXMLPart() *musicXMLPart {
 	}
 }
 
+// voiceNumbers returns the numbers of the part's voices in order
+func (part *musicXMLPart) voiceNumbers() []int32 {
+	var voiceNumbers []int32
+	for voiceNumber := range part.voices {
+		voiceNumbers = append(voiceNumbers, voiceNumber)
+	}
+	sort.Slice(voiceNumbers, func(i, j int) bool {
+		return voiceNumbers[i] < voiceNumbers[j]
+	})
+	return voiceNumbers
+}
+
 func (part *musicXMLPart) collapseVoices(end bool) {
-	if len(part.voices) == 1 {
+	voiceNumbers := part.voiceNumbers()
+
+	if len(voiceNumbers) == 1 {
 		// For a single voice, we don't include a voice marker
 		if !part.currentVoice.isEffectivelyEmpty() {
 			part.updates = append(part.updates,
 				part.opt.optimize(part.currentVoice.getScoreUpdates())...,
 			)
-			part.voices[1] = newMusicXMLVoice()
-			part.voices[1].octave = -1 // force re-setting of octave
+			part.currentVoice = newMusicXMLVoice()
+			part.currentVoice.octave = -1 // force re-setting of octave
+			part.voices[voiceNumbers[0]] = part.currentVoice
 			part.beats = 0
 		}
 	} else {
 		// Process voices in order of voice number
-		var voiceNumber int32 = 1
 		anyVoiceUpdates := false
-		for voicesLeft := len(part.voices); voicesLeft > 0; voiceNumber++ {
-			if voice, ok := part.voices[voiceNumber]; ok {
-				voiceMarker := model.VoiceMarker{
-					VoiceNumber: voiceNumber,
-				}
-				if !voice.isEffectivelyEmpty() {
-					anyVoiceUpdates = true
-					part.updates = append(part.updates,
-						voiceMarker,
-					)
-					part.updates = append(part.updates,
-						part.opt.optimize(voice.getScoreUpdates())...,
-					)
-					part.voices[voiceNumber] = newMusicXMLVoice()
-					part.voices[voiceNumber].octave = -1
-				}
-				voicesLeft--
+		for _, voiceNumber := range voiceNumbers {
+			voice := part.voices[voiceNumber]
+			voiceMarker := model.VoiceMarker{
+				VoiceNumber: voiceNumber,
+			}
+			if !voice.isEffectivelyEmpty() {
+				anyVoiceUpdates = true
+				part.updates = append(part.updates,
+					voiceMarker,
+				)
+				part.updates = append(part.updates,
+					part.opt.optimize(voice.getScoreUpdates())...,
+				)
+				part.voices[voiceNumber] = newMusicXMLVoice()
+				part.voices[voiceNumber].octave = -1
 			}
 		}
 
 		if anyVoiceUpdates {
-			part.currentVoice = part.voices[1]
+			part.currentVoice = part.voices[voiceNumbers[0]]
 			part.beats = 0
 			if end {
 				part.updates = append(part.updates, model.VoiceGroupEndMarker{})
-- 
2.43.0


From b2afd2e41b0b796fe49c2f3df8e55a73478225dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:10 +0000
Subject: [PATCH 34/81] fix: MusicXML endings after a forward repeat all start
 in the octave of the first

---
 client/interop/musicxml/importer/handlers.go | 35 +++++++++++---------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/client/interop/musicxml/importer/handlers.go b/client/interop/musicxml/importer/handlers.go
index 1968e7f..508428e 100644
--- a/client/interop/musicxml/importer/handlers.go
+++ b/client/interop/musicxml/importer/handlers.go
@@ -355,6 +355,19 @@ func barlineHandler(element *etree.Element, importer *musicXMLImporter) {
 		importer.append(model.OnRepetitions{Event: model.EventSequence{}})
 	}
 
+	countEndings := func() int {
+		repeat, _ := importer.findLast(filterType(repeatType))
+		repeatEvents := repeat.(model.Repeat).Event.(model.EventSequence).Events
+
+		count := 0
+		for _, update := range repeatEvents {
+			if reflect.TypeOf(update) == repetitionType {
+				count++
+			}
+		}
+		return count
+	}
+
 	if ending == nil && repeatDirection == "forward" {
 		// (1) Repeat starting (no ending start)
 		startRepeat()
@@ -372,24 +385,16 @@ func barlineHandler(element *etree.Element, importer *musicXMLImporter) {
 		importer.setAll([]model.ScoreUpdate{repeatUpdate})
 		startEnding()
 	} else if endingType == "start" && isRepeatOngoing {
-		// (4) Ending starting, but already have repeat and previous ending
-		importer.append(model.OnRepetitions{Event: model.EventSequence{}})
-	}
-
-	// Dealing with conclusion of repeats & endings
-	countEndings := func() int {
-		repeat, _ := importer.findLast(filterType(repeatType))
-		repeatEvents := repeat.(model.Repeat).Event.(model.EventSequence).Events
-
-		count := 0
-		for _, update := range repeatEvents {
-			if reflect.TypeOf(update) == repetitionType {
-				count++
-			}
+		// (4) Ending starting, but already have repeat
+		if countEndings() == 0 {
+			startEnding()
+		} else {
+			// All endings start in the octave the first one started in
+			importer.append(model.OnRepetitions{Event: model.EventSequence{}})
 		}
-		return count
 	}
 
+	// Dealing with conclusion of repeats & endings
 	maintainRepeatOctaveIntegrity := func() {
 		for importer.voice().octave > importer.voice().sectionStartOctave {
 			importer.append(
-- 
2.43.0


From 00a65b27c5319e070d22d5f8d56090cfb0c9725b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:16 +0000
Subject: [PATCH 35/81] fix: MusicXML percussion pitches do not depend on the
 key signature and may be low

---
 client/interop/musicxml/importer/optimizer.go | 6 ++++++
 client/interop/musicxml/importer/util.go      | 6 ++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/client/interop/musicxml/importer/optimizer.go b/client/interop/musicxml/importer/optimizer.go
index 3969663..505fa31 100644
--- a/client/interop/musicxml/importer/optimizer.go
+++ b/client/interop/musicxml/importer/optimizer.go
@@ -202,6 +202,12 @@ func (opt *optimizer) translateMidiNotePitches(
 				midiNoteNumber := typedUpdate.Pitch.(model.MidiNoteNumber)
 				laa, octave := toLetterAndAccidentalsAndOctave(midiNoteNumber)
 
+				// Without an accidental, the note would follow the key signature
+				if len(laa.Accidentals) == 0 &&
+					len(opt.currentKeySignature[laa.NoteLetter]) > 0 {
+					laa.Accidentals = []model.Accidental{model.Natural}
+				}
+
 				typedUpdate.Pitch = laa
 				update = typedUpdate
 
diff --git a/client/interop/musicxml/importer/util.go b/client/interop/musicxml/importer/util.go
index 746aeec..3266443 100644
--- a/client/interop/musicxml/importer/util.go
+++ b/client/interop/musicxml/importer/util.go
@@ -271,10 +271,8 @@ func percussionPartNameToAlias(name string) string {
 func toLetterAndAccidentalsAndOctave(
 	number model.MidiNoteNumber,
 ) (model.LetterAndAccidentals, int32) {
-	quotient := (number.MidiNote - 24) / 12
-	remainder := (number.MidiNote - 24) % 12
-
-	octave := quotient + 1
+	octave := number.MidiNote/12 - 1
+	remainder := number.MidiNote % 12
 
 	// Find the closest letter than is above the current remainder
 	noteLetter := model.C
-- 
2.43.0


From 226a069db835f8adca83cd38b3732c24cff23daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:00 +0000
Subject: [PATCH 36/81] fix: MusicXML voices that follow earlier music and
 begin with a rest or repeat set their octave

---
 client/interop/musicxml/importer/handlers.go |  8 +++++++-
 client/interop/musicxml/importer/importer.go | 14 ++++++++++++--
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/client/interop/musicxml/importer/handlers.go b/client/interop/musicxml/importer/handlers.go
index 508428e..ae79827 100644
--- a/client/interop/musicxml/importer/handlers.go
+++ b/client/interop/musicxml/importer/handlers.go
@@ -396,6 +396,11 @@ func barlineHandler(element *etree.Element, importer *musicXMLImporter) {
 
 	// Dealing with conclusion of repeats & endings
 	maintainRepeatOctaveIntegrity := func() {
+		if importer.voice().sectionStartOctave == unknownOctave {
+			// The first note of the section sets the octave
+			return
+		}
+
 		for importer.voice().octave > importer.voice().sectionStartOctave {
 			importer.append(
 				model.AttributeUpdate{PartUpdate: model.OctaveDown{}},
@@ -668,7 +673,8 @@ func translateNote(
 		var octaveUpdates []model.ScoreUpdate
 		octaveDifference := octaveVal - importer.voice().octave
 		if octaveDifference != 0 {
-			if len(importer.voice().getScoreUpdates()) == 0 {
+			if len(importer.voice().getScoreUpdates()) == 0 ||
+				importer.voice().octave == unknownOctave {
 				// If this is the first note, we will use an octave set
 				octaveUpdates = []model.ScoreUpdate{model.AttributeUpdate{
 					PartUpdate: model.OctaveSet{OctaveNumber: int32(octaveVal)},
diff --git a/client/interop/musicxml/importer/importer.go b/client/interop/musicxml/importer/importer.go
index 810174e..0b01973 100644
--- a/client/interop/musicxml/importer/importer.go
+++ b/client/interop/musicxml/importer/importer.go
@@ -67,7 +67,7 @@ func (part *musicXMLPart) collapseVoices(end bool) {
 				part.opt.optimize(part.currentVoice.getScoreUpdates())...,
 			)
 			part.currentVoice = newMusicXMLVoice()
-			part.currentVoice.octave = -1 // force re-setting of octave
+			part.currentVoice.forgetOctave() // force re-setting of octave
 			part.voices[voiceNumbers[0]] = part.currentVoice
 			part.beats = 0
 		}
@@ -88,7 +88,7 @@ func (part *musicXMLPart) collapseVoices(end bool) {
 					part.opt.optimize(voice.getScoreUpdates())...,
 				)
 				part.voices[voiceNumber] = newMusicXMLVoice()
-				part.voices[voiceNumber].octave = -1
+				part.voices[voiceNumber].forgetOctave()
 			}
 		}
 
@@ -145,6 +145,16 @@ func newMusicXMLVoice() *musicXMLVoice {
 	}
 }
 
+// unknownOctave is the octave of a voice that follows earlier music, until its
+// first note sets the octave
+const unknownOctave = -1
+
+func (voice *musicXMLVoice) forgetOctave() {
+	voice.octave = unknownOctave
+	voice.sectionStartOctave = unknownOctave
+	voice.endingStartOctave = unknownOctave
+}
+
 func (voice *musicXMLVoice) getScoreUpdates() []model.ScoreUpdate {
 	return voice.updates[0].(model.EventSequence).Events
 }
-- 
2.43.0


From 0e1de9fc3f4dc29c5d52050a1f3d23da6556c5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:06 +0000
Subject: [PATCH 37/81] fix: MusicXML repeats and endings apply to all voices,
 and a measure lasts as long as its longest voice

---
 client/interop/musicxml/importer/handlers.go | 38 ++++++++++++++++----
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/client/interop/musicxml/importer/handlers.go b/client/interop/musicxml/importer/handlers.go
index ae79827..7f7852a 100644
--- a/client/interop/musicxml/importer/handlers.go
+++ b/client/interop/musicxml/importer/handlers.go
@@ -268,10 +268,12 @@ func partHandler(element *etree.Element, importer *musicXMLImporter) {
 	for i, child := range element.ChildElements() {
 		handle(child, importer)
 		// Between each measure, we do cleanup
-		for _, voice := range importer.part().voices {
+		// The measure ends where its longest voice ends
+		moveToLongestVoice(importer)
+		for _, number := range importer.part().voiceNumbers() {
 			// We pad each voice with rests
 			// This is because we can never backup to before a measure
-			importer.currentPart.currentVoice = voice
+			importer.currentPart.currentVoice = importer.part().voices[number]
 			padVoiceToPresent(child, importer)
 
 			// We add barlines to create more idiomatic Alda
@@ -282,6 +284,14 @@ func partHandler(element *etree.Element, importer *musicXMLImporter) {
 	}
 }
 
+// moveToLongestVoice moves the part-level beats counter forwards to the end of
+// the longest voice, when that is further on
+func moveToLongestVoice(importer *musicXMLImporter) {
+	for _, voice := range importer.part().voices {
+		importer.part().beats = math.Max(importer.part().beats, voice.beats)
+	}
+}
+
 // padVoiceToPresent fills the current voice with rests to catch up to the
 // current beats counter
 func padVoiceToPresent(element *etree.Element, importer *musicXMLImporter) {
@@ -318,7 +328,26 @@ func measureHandler(element *etree.Element, importer *musicXMLImporter) {
 	}
 }
 
+// barlineHandler handles a barline for all voices, as it applies to the part
 func barlineHandler(element *etree.Element, importer *musicXMLImporter) {
+	if element.FindElement("ending") == nil &&
+		element.FindElement("repeat") == nil {
+		// No significant barline attributes, just continue
+		return
+	}
+
+	currentVoice := importer.voice()
+	moveToLongestVoice(importer)
+	for _, number := range importer.part().voiceNumbers() {
+		importer.currentPart.currentVoice = importer.part().voices[number]
+		padVoiceToPresent(element, importer)
+		voiceBarlineHandler(element, importer)
+	}
+	importer.currentPart.currentVoice = currentVoice
+}
+
+// voiceBarlineHandler handles a barline for the current voice
+func voiceBarlineHandler(element *etree.Element, importer *musicXMLImporter) {
 	// Obtaining information helpful for barline handling
 	ending := element.FindElement("ending")
 	endingType := ""
@@ -339,11 +368,6 @@ func barlineHandler(element *etree.Element, importer *musicXMLImporter) {
 	importTo, _ := importer.findLast(filterNestedImportableUpdate)
 	isRepeatOngoing := reflect.TypeOf(importTo) == repeatType
 
-	// No significant barline attributes, just continue
-	if ending == nil && repeat == nil {
-		return
-	}
-
 	// Dealing with start of repeats & endings
 	startRepeat := func() {
 		importer.voice().sectionStartOctave = importer.voice().octave
-- 
2.43.0


From a7768d49feee47be15764de7f372370c83f4d08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:04 +0000
Subject: [PATCH 38/81] fix: MusicXML parts of the same instrument are told
 apart however many, by valid aliases

---
 client/interop/musicxml/importer/handlers.go | 20 +------------
 client/interop/musicxml/importer/importer.go | 31 ++++++++++++++++++++
 client/interop/musicxml/importer/util.go     | 15 +++++++---
 3 files changed, 43 insertions(+), 23 deletions(-)

diff --git a/client/interop/musicxml/importer/handlers.go b/client/interop/musicxml/importer/handlers.go
index 7f7852a..7355ed1 100644
--- a/client/interop/musicxml/importer/handlers.go
+++ b/client/interop/musicxml/importer/handlers.go
@@ -116,7 +116,7 @@ func scorePartHandler(element *etree.Element, importer *musicXMLImporter) {
 		part.instruments = []string{"midi-percussion"}
 
 		// part.alias will be the Alda alias for the midi-percussion instrument
-		part.alias = percussionPartNameToAlias(
+		part.alias = nameToAlias(
 			element.FindElement("part-name").Text(),
 		)
 
@@ -150,24 +150,6 @@ func scorePartHandler(element *etree.Element, importer *musicXMLImporter) {
 
 		part.instruments = instruments
 	}
-
-	// If there is an existing importer part with the same instruments + alias
-	// Then we must make this newer part unique by incorporating id into alias
-	for k, v := range importer.parts {
-		if k != id.Value &&
-			reflect.DeepEqual(v.instruments, part.instruments) &&
-			v.alias == part.alias {
-			addIdToAlias := func(alias string, id string) string {
-				if alias == "" {
-					return id
-				} else {
-					return alias + fmt.Sprintf("_%s", id)
-				}
-			}
-			v.alias = addIdToAlias(v.alias, k)
-			part.alias = addIdToAlias(part.alias, id.Value)
-		}
-	}
 }
 
 // addBarline adds a barline to represent a measure passing
diff --git a/client/interop/musicxml/importer/importer.go b/client/interop/musicxml/importer/importer.go
index 0b01973..fe3e695 100644
--- a/client/interop/musicxml/importer/importer.go
+++ b/client/interop/musicxml/importer/importer.go
@@ -4,6 +4,7 @@ import (
 	log "alda.io/client/logging"
 	"fmt"
 	"sort"
+	"strings"
 
 	"alda.io/client/color"
 	"alda.io/client/help"
@@ -202,6 +203,8 @@ func (importer *musicXMLImporter) generateScoreUpdates() []model.ScoreUpdate {
 
 	sort.Strings(partIDs)
 
+	importer.distinguishParts(partIDs)
+
 	for _, id := range partIDs {
 		part := importer.parts[id]
 		updates = append(updates, part.generateScoreUpdates()...)
@@ -210,6 +213,34 @@ func (importer *musicXMLImporter) generateScoreUpdates() []model.ScoreUpdate {
 	return updates
 }
 
+// distinguishParts makes parts with the same instruments + alias unique by
+// incorporating their ids into their aliases
+func (importer *musicXMLImporter) distinguishParts(partIDs []string) {
+	describe := func(part *musicXMLPart) string {
+		instruments := strings.Join(part.instruments, "/")
+		if instruments == "piano" {
+			instruments = model.InstrumentsList()[0]
+		}
+		return fmt.Sprintf("%s %q", instruments, part.alias)
+	}
+
+	similarParts := make(map[string]int)
+	for _, id := range partIDs {
+		similarParts[describe(importer.parts[id])]++
+	}
+
+	for _, id := range partIDs {
+		part := importer.parts[id]
+		if similarParts[describe(part)] > 1 {
+			idAlias := nameToAlias(id)
+			if part.alias != "" {
+				idAlias = part.alias + "_" + idAlias
+			}
+			part.alias = idAlias
+		}
+	}
+}
+
 func (importer *musicXMLImporter) part() *musicXMLPart {
 	return importer.currentPart
 }
diff --git a/client/interop/musicxml/importer/util.go b/client/interop/musicxml/importer/util.go
index 3266443..7a541e0 100644
--- a/client/interop/musicxml/importer/util.go
+++ b/client/interop/musicxml/importer/util.go
@@ -258,10 +258,17 @@ func filterType(requiredType reflect.Type) func(update model.ScoreUpdate) bool {
 	}
 }
 
-// percussionPartNameToAlias translates a MusicXML instrument part name into a
-// format acceptable for Alda instrument alias
-func percussionPartNameToAlias(name string) string {
-	return strings.Join(strings.Split(name, " "), "_")
+// nameToAlias translates a MusicXML name or id into a format acceptable for an
+// Alda instrument alias
+func nameToAlias(name string) string {
+	return strings.Map(func(c rune) rune {
+		switch {
+		case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c >= '0' && c <= '9',
+			strings.ContainsRune("_-+'()", c):
+			return c
+		}
+		return '_'
+	}, name)
 }
 
 // toLetterAndAccidentalsAndOctave translates a MidiNoteNumber to an equivalent
-- 
2.43.0


From 99567a4d3e62388462d3b7f3f6db74995e473b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:38 +0000
Subject: [PATCH 39/81] fix: MusicXML cue notes are imported as rests, as
 intended, and not lost

---
 client/interop/musicxml/importer/handlers.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/client/interop/musicxml/importer/handlers.go b/client/interop/musicxml/importer/handlers.go
index 7355ed1..d1b6da5 100644
--- a/client/interop/musicxml/importer/handlers.go
+++ b/client/interop/musicxml/importer/handlers.go
@@ -606,13 +606,23 @@ func translateNote(
 		// Cue notes are category (3) as they do not change music sound directly
 		// That being said, we cannot ignore cue notes as they have duration
 		// So we can handle cue notes by using a rest with the same duration
+		if cue == nil {
+			cue = noteType
+		}
 		unsupportedHandler("cue notes", true)(cue, importer)
-		return nil, 0, 0, 0
+		duration, durationValue := translateDuration(element, importer)
+		return []model.ScoreUpdate{model.Rest{Duration: duration}},
+			importer.voice().octave,
+			durationValue,
+			0
 	} else if grace := element.FindElement("grace"); grace != nil ||
 		noteType != nil && noteType.SelectAttrValue("type", "full") == "grace" {
 		// Grace notes are category (2), as they can technically be imported
 		// into Alda by "stealing time"
 		// This is unnecessarily difficult, and is not planned to be handled
+		if grace == nil {
+			grace = noteType
+		}
 		unsupportedHandler("grace notes", false)(grace, importer)
 		return nil, 0, 0, 0
 	}
-- 
2.43.0


From 351d44bd9afd95dd9d2de802adddcf03c81d630a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:27 +0000
Subject: [PATCH 40/81] fix: MusicXML endings for several repetitions are
 played on each of them

---
 client/interop/musicxml/importer/handlers.go | 47 +++++++++++++++++---
 1 file changed, 41 insertions(+), 6 deletions(-)

diff --git a/client/interop/musicxml/importer/handlers.go b/client/interop/musicxml/importer/handlers.go
index d1b6da5..7df3daa 100644
--- a/client/interop/musicxml/importer/handlers.go
+++ b/client/interop/musicxml/importer/handlers.go
@@ -422,12 +422,47 @@ func voiceBarlineHandler(element *etree.Element, importer *musicXMLImporter) {
 		}
 	}
 
+	// lastRepetition returns the last repetition that has an ending
+	lastRepetition := func() int32 {
+		repeat, _ := importer.findLast(filterType(repeatType))
+		repeatEvents := repeat.(model.Repeat).Event.(model.EventSequence).Events
+
+		var last int32
+		for _, update := range repeatEvents {
+			if ending, ok := update.(model.OnRepetitions); ok {
+				for _, repetitions := range ending.Repetitions {
+					if repetitions.Last > last {
+						last = repetitions.Last
+					}
+				}
+			}
+		}
+		return last
+	}
+
 	setEndingRepetitions := func() {
-		endingNumber := countEndings()
-		repetitionRange := []model.RepetitionRange{{
-			First: int32(endingNumber),
-			Last:  int32(endingNumber),
-		}}
+		// An ending can be for several repetitions, e.g. number="1, 2"
+		var repetitionRange []model.RepetitionRange
+		for _, text := range strings.FieldsFunc(
+			ending.SelectAttrValue("number", ""),
+			func(c rune) bool { return c == ',' || c == ' ' },
+		) {
+			number, err := strconv.ParseInt(text, 10, 32)
+			if err == nil && number > 0 {
+				repetitionRange = append(repetitionRange, model.RepetitionRange{
+					First: int32(number),
+					Last:  int32(number),
+				})
+			}
+		}
+
+		if len(repetitionRange) == 0 {
+			endingNumber := countEndings()
+			repetitionRange = []model.RepetitionRange{{
+				First: int32(endingNumber),
+				Last:  int32(endingNumber),
+			}}
+		}
 
 		// Find the repetition corresponding to this ending
 		_, ni := importer.findLast(filterNestedImportableUpdate)
@@ -480,7 +515,7 @@ func voiceBarlineHandler(element *etree.Element, importer *musicXMLImporter) {
 		// Note how we don't have to maintain any octave information because
 		// we just continue on playing after this point
 		setEndingRepetitions()
-		setRepeatTimes(int32(countEndings()))
+		setRepeatTimes(lastRepetition())
 	} else if endingType == "stop" && repeatDirection == "backward" {
 		// (3) Both ending and repeat concluding
 		// This means this is not the last ending
-- 
2.43.0


From 3746b696e0937243792ac1edcad99ea6aec4cb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:33 +0000
Subject: [PATCH 41/81] fix: MusicXML transposition by octaves is imported

---
 client/interop/musicxml/importer/handlers.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/client/interop/musicxml/importer/handlers.go b/client/interop/musicxml/importer/handlers.go
index 7df3daa..5045a91 100644
--- a/client/interop/musicxml/importer/handlers.go
+++ b/client/interop/musicxml/importer/handlers.go
@@ -591,6 +591,12 @@ func transposeHandler(element *etree.Element, importer *musicXMLImporter) {
 		element.FindElement("chromatic").Text(), 10, 8,
 	)
 
+	// Octaves are not included in the chromatic transposition
+	if octaveChange := element.FindElement("octave-change"); octaveChange != nil {
+		octaves, _ := strconv.ParseInt(octaveChange.Text(), 10, 8)
+		semitones += 12 * octaves
+	}
+
 	transposeSet := model.AttributeUpdate{
 		PartUpdate: model.TranspositionSet{Semitones: int32(semitones)},
 	}
-- 
2.43.0


From f8a1d22bae01b24e5ce67cd89a9e9d09031130a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:50 +0000
Subject: [PATCH 42/81] fix: MusicXML dynamics do not undo a preceding forward
 or backup

---
 client/interop/musicxml/importer/handlers.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client/interop/musicxml/importer/handlers.go b/client/interop/musicxml/importer/handlers.go
index 5045a91..ee9723a 100644
--- a/client/interop/musicxml/importer/handlers.go
+++ b/client/interop/musicxml/importer/handlers.go
@@ -570,9 +570,13 @@ func keyHandler(element *etree.Element, importer *musicXMLImporter) {
 func dynamicsHandler(element *etree.Element, importer *musicXMLImporter) {
 	for _, marking := range element.ChildElements() {
 		if _, ok := model.DynamicVolumes[marking.Tag]; ok {
+			// Dynamics take no time, so the current position in the part stays
+			// the same, even if it's ahead of the current voice
+			beats := importer.part().beats
 			importer.append(model.AttributeUpdate{
 				PartUpdate: model.DynamicMarking{Marking: marking.Tag},
 			})
+			importer.part().beats = beats
 		} else {
 			unsupportedHandler("dynamics", false)(marking, importer)
 		}
-- 
2.43.0


From b6424e3b0cf5caf6cdd48a2e695544ad846fd98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:09 +0000
Subject: [PATCH 43/81] fix: a MusicXML measure also lasts as long as a forward
 at the end of a voice

---
 client/interop/musicxml/importer/handlers.go | 8 +++++++-
 client/interop/musicxml/importer/importer.go | 5 +++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/client/interop/musicxml/importer/handlers.go b/client/interop/musicxml/importer/handlers.go
index ee9723a..6593f5f 100644
--- a/client/interop/musicxml/importer/handlers.go
+++ b/client/interop/musicxml/importer/handlers.go
@@ -267,8 +267,11 @@ func partHandler(element *etree.Element, importer *musicXMLImporter) {
 }
 
 // moveToLongestVoice moves the part-level beats counter forwards to the end of
-// the longest voice, when that is further on
+// the longest voice (including any final forwards), when that is further on
 func moveToLongestVoice(importer *musicXMLImporter) {
+	importer.part().beats = math.Max(
+		importer.part().beats, importer.part().furthestBeats,
+	)
 	for _, voice := range importer.part().voices {
 		importer.part().beats = math.Max(importer.part().beats, voice.beats)
 	}
@@ -543,6 +546,9 @@ func forwardHandler(element *etree.Element, importer *musicXMLImporter) {
 	// This is because when switching voices, we pad to present
 	duration, _ := translateDuration(element, importer)
 	importer.part().beats += getBeats(model.Rest{Duration: duration})
+	importer.part().furthestBeats = math.Max(
+		importer.part().furthestBeats, importer.part().beats,
+	)
 }
 
 func keyHandler(element *etree.Element, importer *musicXMLImporter) {
diff --git a/client/interop/musicxml/importer/importer.go b/client/interop/musicxml/importer/importer.go
index fe3e695..dcee746 100644
--- a/client/interop/musicxml/importer/importer.go
+++ b/client/interop/musicxml/importer/importer.go
@@ -20,6 +20,9 @@ type musicXMLPart struct {
 	// State
 	divisions int
 	beats     float64
+	// furthestBeats is the furthest position reached by moving forward, which
+	// may be ahead of all voices
+	furthestBeats float64
 
 	// Imported updates
 	updates      []model.ScoreUpdate
@@ -71,6 +74,7 @@ func (part *musicXMLPart) collapseVoices(end bool) {
 			part.currentVoice.forgetOctave() // force re-setting of octave
 			part.voices[voiceNumbers[0]] = part.currentVoice
 			part.beats = 0
+			part.furthestBeats = 0
 		}
 	} else {
 		// Process voices in order of voice number
@@ -96,6 +100,7 @@ func (part *musicXMLPart) collapseVoices(end bool) {
 		if anyVoiceUpdates {
 			part.currentVoice = part.voices[voiceNumbers[0]]
 			part.beats = 0
+			part.furthestBeats = 0
 			if end {
 				part.updates = append(part.updates, model.VoiceGroupEndMarker{})
 			}
-- 
2.43.0


From a24c2a08741503cbcd8a171337092ec6f8c69267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:22 +0000
Subject: [PATCH 44/81] fix: MusicXML percussion parts with and without a name
 can be mixed

---
 client/interop/musicxml/importer/importer.go | 37 ++++++++++++--------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/client/interop/musicxml/importer/importer.go b/client/interop/musicxml/importer/importer.go
index dcee746..1807659 100644
--- a/client/interop/musicxml/importer/importer.go
+++ b/client/interop/musicxml/importer/importer.go
@@ -4,7 +4,6 @@ import (
 	log "alda.io/client/logging"
 	"fmt"
 	"sort"
-	"strings"
 
 	"alda.io/client/color"
 	"alda.io/client/help"
@@ -218,30 +217,40 @@ func (importer *musicXMLImporter) generateScoreUpdates() []model.ScoreUpdate {
 	return updates
 }
 
-// distinguishParts makes parts with the same instruments + alias unique by
+// distinguishParts makes parts that share an instrument + alias unique by
 // incorporating their ids into their aliases
+// Alda does not allow a mix of parts with and without an alias for the same
+// instrument either, so then all of them get an alias
 func (importer *musicXMLImporter) distinguishParts(partIDs []string) {
-	describe := func(part *musicXMLPart) string {
-		instruments := strings.Join(part.instruments, "/")
-		if instruments == "piano" {
-			instruments = model.InstrumentsList()[0]
+	instrumentKey := func(instrument string) string {
+		if instrument == "piano" {
+			return model.InstrumentsList()[0]
 		}
-		return fmt.Sprintf("%s %q", instruments, part.alias)
+		return instrument
 	}
 
-	similarParts := make(map[string]int)
+	partsWithInstrument := make(map[string]int)
+	partsWithAlias := make(map[string]int)
 	for _, id := range partIDs {
-		similarParts[describe(importer.parts[id])]++
+		part := importer.parts[id]
+		for _, instrument := range part.instruments {
+			partsWithInstrument[instrumentKey(instrument)]++
+		}
+		partsWithAlias[part.alias]++
 	}
 
 	for _, id := range partIDs {
 		part := importer.parts[id]
-		if similarParts[describe(part)] > 1 {
-			idAlias := nameToAlias(id)
-			if part.alias != "" {
-				idAlias = part.alias + "_" + idAlias
+		if part.alias != "" {
+			if partsWithAlias[part.alias] > 1 {
+				part.alias += "_" + nameToAlias(id)
+			}
+			continue
+		}
+		for _, instrument := range part.instruments {
+			if partsWithInstrument[instrumentKey(instrument)] > 1 {
+				part.alias = nameToAlias(id)
 			}
-			part.alias = idAlias
 		}
 	}
 }
-- 
2.43.0


From 36082847fc31d8fc3a9ab12e862eea5ceb6c2931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 45/81] fix: MusicXML durations are not rounded by up to a
 thirtieth of a beat

---
 client/interop/musicxml/importer/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/interop/musicxml/importer/util.go b/client/interop/musicxml/importer/util.go
index 7a541e0..f3a1180 100644
--- a/client/interop/musicxml/importer/util.go
+++ b/client/interop/musicxml/importer/util.go
@@ -358,7 +358,7 @@ func idiomaticDuration(aldaDuration float64, dots int32) model.Duration {
 		remaining := aldaDuration
 		decomp := make(map[float64]int)
 		for i := 0; i < len(normal); {
-			if math.Abs(remaining-normal[i]) < 0.01 {
+			if roundIfCloseEnough(remaining) == normal[i] {
 				decomp[normal[i]] = decomp[normal[i]] + 1
 				remaining = 0
 				break
-- 
2.43.0


From 1553a9aa4e582e71136bd06083b23b826a574e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 46/81] fix: MusicXML ties to chord notes inside repeats are
 found

---
 client/interop/musicxml/importer/handlers.go |  4 ++--
 client/interop/musicxml/importer/importer.go | 16 ++++++++++++----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/client/interop/musicxml/importer/handlers.go b/client/interop/musicxml/importer/handlers.go
index 6593f5f..114eea4 100644
--- a/client/interop/musicxml/importer/handlers.go
+++ b/client/interop/musicxml/importer/handlers.go
@@ -926,10 +926,10 @@ func noteHandler(element *etree.Element, importer *musicXMLImporter) {
 				// We can allow a single element, no more
 				_, lastLastDurationNI := importer.findLastFrom(
 					filterUpdateWithDuration,
-					lastDurationNI.last(),
+					lastDurationNI,
 				)
 
-				if !lastDurationNI.valid(importer) {
+				if !lastLastDurationNI.valid(importer) {
 					isAdjacentTie = true
 				} else {
 					indexDiff = lastDiff(lastLastDurationNI, tieStartNI)
diff --git a/client/interop/musicxml/importer/importer.go b/client/interop/musicxml/importer/importer.go
index 1807659..1b06a7e 100644
--- a/client/interop/musicxml/importer/importer.go
+++ b/client/interop/musicxml/importer/importer.go
@@ -397,14 +397,22 @@ func (importer *musicXMLImporter) findLast(
 }
 
 // findLastFrom finds the last update that passes filter, but starting from a
-// specific index in flatUpdates
+// specific nestedIndex, searching the slice of updates that it is part of
 func (importer *musicXMLImporter) findLastFrom(
 	filter func(update model.ScoreUpdate) bool,
-	startIndex int,
+	start nestedIndex,
 ) (model.ScoreUpdate, nestedIndex) {
-	found, ni := findLastRecursive(importer.flatUpdates()[:startIndex], filter)
+	outer := start.indices[:len(start.indices)-1]
+	updates := importer.voice().updates
+	for _, index := range outer {
+		updates, _ = getNestedUpdates(updates[index], false)
+	}
+
+	found, ni := findLastRecursive(updates[:start.last()], filter)
 	if len(ni.indices) > 0 {
-		return found, nestedIndex{indices: append([]int{0}, ni.indices...)}
+		return found, nestedIndex{
+			indices: append(append([]int{}, outer...), ni.indices...),
+		}
 	}
 	return found, ni
 }
-- 
2.43.0


From 823982bde184a0250d94487dead9ae19aa413679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 47/81] fix: key signatures are written in the same order every
 time

---
 client/model/key.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/client/model/key.go b/client/model/key.go
index 9e71c43..ee25a97 100644
--- a/client/model/key.go
+++ b/client/model/key.go
@@ -49,7 +49,12 @@ type KeySignature map[NoteLetter][]Accidental
 func (ks KeySignature) String() string {
 	laas := []string{}
 
-	for note, accidentals := range ks {
+	for _, note := range []NoteLetter{A, B, C, D, E, F, G} {
+		accidentals, ok := ks[note]
+		if !ok {
+			continue
+		}
+
 		laa := strings.Builder{}
 		laa.WriteRune(rune(note + 'a'))
 
-- 
2.43.0


From b2521364e8390a32298c7722745c290fcd8154bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 48/81] fix: MusicXML voices are not padded with rests that
 come from rounding

---
 client/interop/musicxml/importer/handlers.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/client/interop/musicxml/importer/handlers.go b/client/interop/musicxml/importer/handlers.go
index 114eea4..280ca0a 100644
--- a/client/interop/musicxml/importer/handlers.go
+++ b/client/interop/musicxml/importer/handlers.go
@@ -280,7 +280,10 @@ func moveToLongestVoice(importer *musicXMLImporter) {
 // padVoiceToPresent fills the current voice with rests to catch up to the
 // current beats counter
 func padVoiceToPresent(element *etree.Element, importer *musicXMLImporter) {
-	beatDifference := importer.part().beats - importer.voice().beats
+	// We round so that floating point arithmetic issues don't lead to a rest
+	beatDifference := roundIfCloseEnough(
+		importer.part().beats - importer.voice().beats,
+	)
 
 	if beatDifference < 0 {
 		// We make an assumption that this cannot happen
-- 
2.43.0


From a86ca99fc205327c0f5f109c13ea51afbfa71b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 49/81] fix: invalid MusicXML is an ordinary error instead of a
 crash or hang

---
 client/interop/musicxml/importer/handlers.go | 102 ++++++++++++-------
 client/interop/musicxml/importer/importer.go |  25 +++++
 client/interop/musicxml/importer/util.go     |  55 +++++++++-
 3 files changed, 146 insertions(+), 36 deletions(-)

diff --git a/client/interop/musicxml/importer/handlers.go b/client/interop/musicxml/importer/handlers.go
index 280ca0a..1f43c0f 100644
--- a/client/interop/musicxml/importer/handlers.go
+++ b/client/interop/musicxml/importer/handlers.go
@@ -101,10 +101,10 @@ func recurseHandler(element *etree.Element, importer *musicXMLImporter) {
 
 func scorePartHandler(element *etree.Element, importer *musicXMLImporter) {
 	// Create the part
-	id := element.SelectAttr("id")
+	id := requireAttr(element, "id")
 
 	part := newMusicXMLPart()
-	importer.parts[id.Value] = part
+	importer.parts[id] = part
 
 	midiInstruments := element.FindElements("midi-instrument")
 	if len(midiInstruments) == 0 {
@@ -116,16 +116,16 @@ func scorePartHandler(element *etree.Element, importer *musicXMLImporter) {
 		part.instruments = []string{"midi-percussion"}
 
 		// part.alias will be the Alda alias for the midi-percussion instrument
-		part.alias = nameToAlias(
-			element.FindElement("part-name").Text(),
-		)
+		part.alias = nameToAlias(requireElement(element, "part-name").Text())
 
 		// part.unpitched will be a map that tells us the MIDI pitches for the
 		// midi-percussion instruments
 		for _, instrument := range midiInstruments {
-			instrumentNumber, _ := strconv.ParseInt(
-				instrument.FindElement("midi-unpitched").Text(), 10, 32,
-			)
+			midiUnpitched := instrument.FindElement("midi-unpitched")
+			if midiUnpitched == nil {
+				continue
+			}
+			instrumentNumber := requireInt(midiUnpitched, 1, 128)
 
 			instrumentId := instrument.SelectAttrValue("id", "")
 
@@ -136,10 +136,15 @@ func scorePartHandler(element *etree.Element, importer *musicXMLImporter) {
 		// We use midi-program to identify what MIDI instrument is referenced
 		var instrumentIDs []int64
 		for _, instrument := range midiInstruments {
-			instrumentID, _ := strconv.ParseInt(
-				instrument.FindElement("midi-program").Text(), 10, 32,
+			midiProgram := instrument.FindElement("midi-program")
+			if midiProgram == nil {
+				// If no program is specified, we default to a piano
+				instrumentIDs = append(instrumentIDs, 1)
+				continue
+			}
+			instrumentIDs = append(
+				instrumentIDs, requireInt(midiProgram, 1, 128),
 			)
-			instrumentIDs = append(instrumentIDs, instrumentID)
 		}
 
 		var instruments []string
@@ -220,8 +225,10 @@ func voiceNumber(element *etree.Element) int32 {
 
 func partHandler(element *etree.Element, importer *musicXMLImporter) {
 	// Set current part in importer
-	id := element.SelectAttr("id")
-	part := importer.parts[id.Value]
+	part, ok := importer.parts[requireAttr(element, "id")]
+	if !ok {
+		failWhileParsing(element, "is not in the part-list")
+	}
 	importer.currentPart = part
 
 	// Do a pass through all content and create all voices
@@ -356,6 +363,11 @@ func voiceBarlineHandler(element *etree.Element, importer *musicXMLImporter) {
 	importTo, _ := importer.findLast(filterNestedImportableUpdate)
 	isRepeatOngoing := reflect.TypeOf(importTo) == repeatType
 
+	// An ending has to stop before anything else starts or stops
+	if reflect.TypeOf(importTo) == repetitionType && endingType != "stop" {
+		failWhileParsing(element, "is inside of an ending that has not stopped")
+	}
+
 	// Dealing with start of repeats & endings
 	startRepeat := func() {
 		importer.voice().sectionStartOctave = importer.voice().octave
@@ -499,9 +511,12 @@ func voiceBarlineHandler(element *etree.Element, importer *musicXMLImporter) {
 		// (1) A normal repeat with no endings
 		maintainRepeatOctaveIntegrity()
 
-		times, _ := strconv.ParseInt(
-			repeat.SelectAttrValue("times", "2"), 10, 8,
+		times, err := strconv.ParseInt(
+			repeat.SelectAttrValue("times", "2"), 10, 32,
 		)
+		if err != nil || times < 1 {
+			failWhileParsing(repeat, "must have a positive number of times")
+		}
 
 		if isRepeatOngoing {
 			setRepeatTimes(int32(times))
@@ -564,9 +579,7 @@ func keyHandler(element *etree.Element, importer *musicXMLImporter) {
 		)(element, importer)
 	} else {
 		// traditional-key
-		fifths, _ := strconv.ParseInt(
-			element.FindElement("fifths").Text(), 10, 8,
-		)
+		fifths := requireInt(requireElement(element, "fifths"), -128, 127)
 		keySignature := model.KeySignatureFromCircleOfFifths(int(fifths))
 		keySignatureSet := model.AttributeUpdate{
 			PartUpdate: model.KeySignatureSet{KeySignature: keySignature},
@@ -595,19 +608,15 @@ func dynamicsHandler(element *etree.Element, importer *musicXMLImporter) {
 func divisionsHandler(element *etree.Element, importer *musicXMLImporter) {
 	// Due to our management of Alda durations and beats, we do not need to
 	// maintain history for division changes
-	value, _ := strconv.ParseInt(element.Text(), 10, 32)
-	importer.part().divisions = int(value)
+	importer.part().divisions = int(requireInt(element, 1, math.MaxInt32))
 }
 
 func transposeHandler(element *etree.Element, importer *musicXMLImporter) {
-	semitones, _ := strconv.ParseInt(
-		element.FindElement("chromatic").Text(), 10, 8,
-	)
+	semitones := requireInt(requireElement(element, "chromatic"), -128, 127)
 
 	// Octaves are not included in the chromatic transposition
 	if octaveChange := element.FindElement("octave-change"); octaveChange != nil {
-		octaves, _ := strconv.ParseInt(octaveChange.Text(), 10, 8)
-		semitones += 12 * octaves
+		semitones += 12 * requireInt(octaveChange, -10, 10)
 	}
 
 	transposeSet := model.AttributeUpdate{
@@ -631,7 +640,15 @@ func translateDuration(
 	// 2 dot - total duration = 1.75x
 	// This can be represented by sum from i = 0 to i = dots of (1/2)^dots
 	// This is a geometric series with sum (1 - r^(n + 1)) / (1 - r), r = 1/2
-	duration, _ := strconv.ParseFloat(element.FindElement("duration").Text(), 64)
+	durationElement := requireElement(element, "duration")
+	duration, err := strconv.ParseFloat(
+		strings.TrimSpace(durationElement.Text()), 64,
+	)
+	if err != nil || !(duration > 0 && duration <= math.MaxInt32) {
+		failWhileParsing(durationElement, fmt.Sprintf(
+			"must be a positive number, but is %q", durationElement.Text(),
+		))
+	}
 	if dots > 0 {
 		divisor := (1 - math.Pow(0.5, float64(dots+1))) / 0.5
 		duration = duration / divisor
@@ -703,11 +720,18 @@ func translateNote(
 	// A full note can be pitched, unpitched, or a rest
 	if pitch := element.FindElement("pitch"); pitch != nil {
 		// Note letter
-		step := pitch.FindElement("step")
+		step := requireElement(pitch, "step")
+		stepText := strings.TrimSpace(step.Text())
+		if len(stepText) != 1 {
+			failWhileParsing(step, fmt.Sprintf("is not a note: %q", step.Text()))
+		}
 
-		noteLetter, _ := model.NewNoteLetter(
-			[]rune(strings.ToLower(step.Text()))[0],
+		noteLetter, err := model.NewNoteLetter(
+			[]rune(strings.ToLower(stepText))[0],
 		)
+		if err != nil {
+			failWhileParsing(step, fmt.Sprintf("is not a note: %q", step.Text()))
+		}
 
 		// Accidentals
 		var accidentals []model.Accidental
@@ -715,7 +739,16 @@ func translateNote(
 			accidental.Text() == "natural" {
 			accidentals = []model.Accidental{model.Natural}
 		} else if alter := pitch.FindElement("alter"); alter != nil {
-			alterAmount, _ := strconv.ParseInt(alter.Text(), 10, 8)
+			// Microtones have no representation in Alda
+			alterValue, err := strconv.ParseFloat(
+				strings.TrimSpace(alter.Text()), 64,
+			)
+			if err != nil || !(math.Abs(alterValue) < 128) {
+				failWhileParsing(alter, fmt.Sprintf(
+					"must be a number of semitones, but is %q", alter.Text(),
+				))
+			}
+			alterAmount := int64(alterValue)
 
 			var accidental model.Accidental
 			if alterAmount > 0 {
@@ -738,8 +771,7 @@ func translateNote(
 		}
 
 		// Octaves
-		octave := pitch.FindElement("octave")
-		octaveVal, _ := strconv.ParseInt(octave.Text(), 10, 8)
+		octaveVal := requireInt(requireElement(pitch, "octave"), -1, 10)
 		var octaveUpdates []model.ScoreUpdate
 		octaveDifference := octaveVal - importer.voice().octave
 		if octaveDifference != 0 {
@@ -793,8 +825,10 @@ func translateNote(
 			0
 	} else {
 		// Unpitched note
-		instrument := element.FindElement("instrument")
-		instrumentId := instrument.SelectAttrValue("id", "")
+		instrumentId := ""
+		if instrument := element.FindElement("instrument"); instrument != nil {
+			instrumentId = instrument.SelectAttrValue("id", "")
+		}
 		if instrumentNumber, ok := importer.part().unpitched[instrumentId]; ok {
 			note := model.Note{
 				Pitch: model.MidiNoteNumber{
diff --git a/client/interop/musicxml/importer/importer.go b/client/interop/musicxml/importer/importer.go
index 1b06a7e..a2b255d 100644
--- a/client/interop/musicxml/importer/importer.go
+++ b/client/interop/musicxml/importer/importer.go
@@ -520,6 +520,31 @@ func ImportMusicXML(b []byte) ([]model.ScoreUpdate, error) {
 		))
 	}
 
+	return importScorePartwise(scorePartwise)
+}
+
+// importScorePartwise imports the root element of a MusicXML file
+// The handlers assume that the elements are the ones MusicXML allows, in places
+// where MusicXML allows them. When that isn't the case, we return an error.
+func importScorePartwise(
+	scorePartwise *etree.Element,
+) (updates []model.ScoreUpdate, err error) {
+	defer func() {
+		if issue := recover(); issue != nil {
+			updates = nil
+			if importErr, ok := issue.(importError); ok {
+				err = importErr.error
+				return
+			}
+			log.Debug().
+				Interface("issue", issue).
+				Msg("Unexpected structure of MusicXML.")
+			err = help.UserFacingErrorf(
+				"Issue importing MusicXML: the structure of the input is invalid.",
+			)
+		}
+	}()
+
 	importer := newMusicXMLImporter()
 	handle(scorePartwise, importer)
 
diff --git a/client/interop/musicxml/importer/util.go b/client/interop/musicxml/importer/util.go
index f3a1180..93e4836 100644
--- a/client/interop/musicxml/importer/util.go
+++ b/client/interop/musicxml/importer/util.go
@@ -1,10 +1,14 @@
 package importer
 
 import (
+	"fmt"
 	"math"
 	"reflect"
+	"strconv"
 	"strings"
 
+	"alda.io/client/color"
+	"alda.io/client/help"
 	log "alda.io/client/logging"
 	"alda.io/client/model"
 	"github.com/beevik/etree"
@@ -34,6 +38,52 @@ func warnWhileParsing(element *etree.Element, message string) {
 		Msg("Issue parsing tag")
 }
 
+// importError is what a handler panics with when it can't handle its element
+// ImportMusicXML returns it as an ordinary error
+type importError struct {
+	error
+}
+
+// failWhileParsing stops the import because of an element
+func failWhileParsing(element *etree.Element, issue string) {
+	panic(importError{help.UserFacingErrorf(
+		"Issue importing MusicXML: element %s %s.",
+		color.Aurora.BrightYellow(element.Tag),
+		issue,
+	)})
+}
+
+// requireElement finds an element that has to be there
+func requireElement(element *etree.Element, path string) *etree.Element {
+	found := element.FindElement(path)
+	if found == nil {
+		failWhileParsing(element, "has no "+path)
+	}
+	return found
+}
+
+// requireAttr returns the value of an attribute that has to be there
+func requireAttr(element *etree.Element, key string) string {
+	attr := element.SelectAttr(key)
+	if attr == nil {
+		failWhileParsing(element, "has no "+key)
+	}
+	return attr.Value
+}
+
+// requireInt returns the number an element consists of
+// Most of the numbers in MusicXML may be written as decimals, e.g. 2.0
+func requireInt(element *etree.Element, min int64, max int64) int64 {
+	number, err := strconv.ParseFloat(strings.TrimSpace(element.Text()), 64)
+	if err != nil || number != math.Trunc(number) ||
+		number < float64(min) || number > float64(max) {
+		failWhileParsing(element, fmt.Sprintf(
+			"must be a whole number from %d to %d, but is %q", min, max, element.Text(),
+		))
+	}
+	return int64(number)
+}
+
 // getNestedUpdates facilitates recursing on nested slices of updates in Alda IR
 // getNestedUpdates abstracts recursive update properties from the importer
 // getNestedUpdates returns the nested updates, and whether the update is nested
@@ -350,8 +400,9 @@ func isOrContainsBarline(update model.ScoreUpdate) bool {
 func idiomaticDuration(aldaDuration float64, dots int32) model.Duration {
 	aldaDuration = roundIfCloseEnough(aldaDuration)
 
-	// We preserve actual dotted notes to not cause any confusion
-	if dots == 0 {
+	// We preserve actual dotted notes to not cause any confusion, and there is
+	// nothing idiomatic about a great number of tied whole notes
+	if dots == 0 && aldaDuration > 0.01 {
 		// Otherwise, we try to decompose the duration into "normal" durations
 		normal := []float64{1, 2, 4, 8, 16}
 
-- 
2.43.0


From 2748cebad163980c02a4a57ca530d833447fd461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 50/81] fix: MusicXML notes and drums at the ends of the range,
 chords and endings out of place

---
 client/interop/musicxml/importer/handlers.go  | 32 +++++++++++++++++--
 client/interop/musicxml/importer/optimizer.go | 20 ++++++++++--
 2 files changed, 47 insertions(+), 5 deletions(-)

diff --git a/client/interop/musicxml/importer/handlers.go b/client/interop/musicxml/importer/handlers.go
index 1f43c0f..937300b 100644
--- a/client/interop/musicxml/importer/handlers.go
+++ b/client/interop/musicxml/importer/handlers.go
@@ -771,7 +771,7 @@ func translateNote(
 		}
 
 		// Octaves
-		octaveVal := requireInt(requireElement(pitch, "octave"), -1, 10)
+		octaveVal := requireInt(requireElement(pitch, "octave"), 0, 9)
 		var octaveUpdates []model.ScoreUpdate
 		octaveDifference := octaveVal - importer.voice().octave
 		if octaveDifference != 0 {
@@ -861,6 +861,31 @@ func translateNote(
 	}
 }
 
+// isInCurrentMeasure returns whether an update belongs to the measure and the
+// slice of updates that we are currently importing into
+func isInCurrentMeasure(ni nestedIndex, importer *musicXMLImporter) bool {
+	_, importNI := importer.findLast(filterNestedImportableUpdate)
+	if len(ni.indices) != len(importNI.indices)+1 {
+		return false
+	}
+	for i, index := range importNI.indices {
+		if ni.indices[i] != index {
+			return false
+		}
+	}
+
+	for _, update := range importer.updates()[ni.last():] {
+		if chord, ok := update.(model.Chord); ok && len(chord.Events) > 0 {
+			// The last note of a chord is the one to contain a barline
+			update = chord.Events[len(chord.Events)-1]
+		}
+		if isOrContainsBarline(update) {
+			return false
+		}
+	}
+	return true
+}
+
 func noteHandler(element *etree.Element, importer *musicXMLImporter) {
 	noteUpdates, newOctave, _, slurChange := translateNote(
 		element, importer,
@@ -998,8 +1023,9 @@ func noteHandler(element *etree.Element, importer *musicXMLImporter) {
 			filterUpdateWithDuration,
 		)
 
-		if !lastDurationNI.valid(importer) {
-			// We continue by considering the note as not part of a chord
+		if !lastDurationNI.valid(importer) || !isInCurrentMeasure(
+			lastDurationNI, importer,
+		) {
 			warnWhileParsing(
 				element, `Note found in chord with no starting note. The note will be ignored.`,
 			)
diff --git a/client/interop/musicxml/importer/optimizer.go b/client/interop/musicxml/importer/optimizer.go
index 505fa31..7617d3f 100644
--- a/client/interop/musicxml/importer/optimizer.go
+++ b/client/interop/musicxml/importer/optimizer.go
@@ -1,6 +1,7 @@
 package importer
 
 import (
+	"math"
 	"reflect"
 
 	"alda.io/client/model"
@@ -48,7 +49,8 @@ func (opt *optimizer) resetDuration() {
 }
 
 func (opt *optimizer) resetOctave() {
-	opt.currentOctave = -1
+	// Unpitched percussion goes down to octave -1
+	opt.currentOctave = math.MinInt32
 }
 
 func (opt *optimizer) softReset() {
@@ -241,8 +243,17 @@ func (opt *optimizer) translateMidiNotePitches(
 
 	// Insert all octave sets
 	for i := len(octaveSetIndices) - 1; i >= 0; i-- {
+		octave := octaveSetOctaves[i]
+
+		// Octave -1 can't be written as an octave set, it is below octave 0
+		if octave < 0 {
+			octaveDown := model.AttributeUpdate{PartUpdate: model.OctaveDown{}}
+			updates = insert(octaveDown, updates, octaveSetIndices[i])
+			octave = 0
+		}
+
 		octaveSet := model.AttributeUpdate{PartUpdate: model.OctaveSet{
-			OctaveNumber: octaveSetOctaves[i],
+			OctaveNumber: octave,
 		}}
 
 		updates = insert(octaveSet, updates, octaveSetIndices[i])
@@ -254,6 +265,7 @@ func (opt *optimizer) translateMidiNotePitches(
 // handleUnfinishedRepeats deals with repeats that are not closed
 // These repeats have Times == 0 (i.e. no repeat end set the proper value)
 // Currently, we set Times to 1 to showcase that there is repeat information
+// Endings that are not closed have no repetitions, so they are always played
 func (opt *optimizer) handleUnfinishedRepeats(
 	updates []model.ScoreUpdate,
 ) []model.ScoreUpdate {
@@ -264,6 +276,10 @@ func (opt *optimizer) handleUnfinishedRepeats(
 				r.Times = 1
 				return r
 			}
+		case model.OnRepetitions:
+			if len(r.Repetitions) == 0 {
+				return r.Event
+			}
 		}
 		return update
 	}
-- 
2.43.0


From e599d3e16069436eef38f7049dc3df2d854f2c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 51/81] fix: MusicXML attributes in the middle of a measure
 keep voices together, aliases of parts are unique

---
 client/interop/musicxml/importer/handlers.go |  4 +--
 client/interop/musicxml/importer/importer.go | 29 ++++++++++++++++----
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/client/interop/musicxml/importer/handlers.go b/client/interop/musicxml/importer/handlers.go
index 937300b..c56e5b8 100644
--- a/client/interop/musicxml/importer/handlers.go
+++ b/client/interop/musicxml/importer/handlers.go
@@ -584,7 +584,7 @@ func keyHandler(element *etree.Element, importer *musicXMLImporter) {
 		keySignatureSet := model.AttributeUpdate{
 			PartUpdate: model.KeySignatureSet{KeySignature: keySignature},
 		}
-		importer.appendPartAttrs(keySignatureSet)
+		importer.appendPartAttrs(element, keySignatureSet)
 	}
 	// key-octave tags are purely for appearance, and are thus category (3)
 }
@@ -623,7 +623,7 @@ func transposeHandler(element *etree.Element, importer *musicXMLImporter) {
 		PartUpdate: model.TranspositionSet{Semitones: int32(semitones)},
 	}
 
-	importer.appendPartAttrs(transposeSet)
+	importer.appendPartAttrs(element, transposeSet)
 }
 
 // translateDuration translates a MusicXML element with a duration to an Alda
diff --git a/client/interop/musicxml/importer/importer.go b/client/interop/musicxml/importer/importer.go
index a2b255d..5cbe26d 100644
--- a/client/interop/musicxml/importer/importer.go
+++ b/client/interop/musicxml/importer/importer.go
@@ -239,19 +239,26 @@ func (importer *musicXMLImporter) distinguishParts(partIDs []string) {
 		partsWithAlias[part.alias]++
 	}
 
+	taken := make(map[string]bool)
 	for _, id := range partIDs {
 		part := importer.parts[id]
 		if part.alias != "" {
 			if partsWithAlias[part.alias] > 1 {
 				part.alias += "_" + nameToAlias(id)
 			}
-			continue
-		}
-		for _, instrument := range part.instruments {
-			if partsWithInstrument[instrumentKey(instrument)] > 1 {
-				part.alias = nameToAlias(id)
+		} else {
+			for _, instrument := range part.instruments {
+				if partsWithInstrument[instrumentKey(instrument)] > 1 {
+					part.alias = nameToAlias(id)
+				}
 			}
 		}
+
+		// Names and ids may still lead to the same alias
+		for part.alias != "" && taken[part.alias] {
+			part.alias += "_"
+		}
+		taken[part.alias] = true
 	}
 }
 
@@ -301,7 +308,17 @@ func (importer *musicXMLImporter) append(newUpdates ...model.ScoreUpdate) {
 
 // appendPartAttrs appends attribute updates to the current part
 // We make these apply to the entire part by closing out any ongoing voices
-func (importer *musicXMLImporter) appendPartAttrs(update model.ScoreUpdate) {
+// Voices that end before the current position have to be filled up to it
+func (importer *musicXMLImporter) appendPartAttrs(
+	element *etree.Element, update model.ScoreUpdate,
+) {
+	currentVoice := importer.voice()
+	for _, number := range importer.part().voiceNumbers() {
+		importer.currentPart.currentVoice = importer.part().voices[number]
+		padVoiceToPresent(element, importer)
+	}
+	importer.currentPart.currentVoice = currentVoice
+
 	importer.currentPart.collapseVoices(true)
 	importer.currentPart.updates = append(importer.currentPart.updates,
 		// We optimize the single attr update to catch key signature changes
-- 
2.43.0


From 3077daa87f5ecb4cebe88e64bc604a8a06d5f20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:40 +0000
Subject: [PATCH 52/81] fix: a rejected input leaves the REPL session as it was

---
 client/repl/server.go | 129 +++++++++++++++++++++++++++---------------
 1 file changed, 83 insertions(+), 46 deletions(-)

diff --git a/client/repl/server.go b/client/repl/server.go
index b783404..284edc8 100644
--- a/client/repl/server.go
+++ b/client/repl/server.go
@@ -42,6 +42,9 @@ type Server struct {
 	// The string of input that is built up over time as clients submit code, line
 	// by line, to be evaluated and added to the score.
 	input string
+	// The pieces that make up the string of input above, i.e. every piece of code
+	// that was successfully evaluated and added to the score.
+	inputs []string
 	// The stateful score object that should correspond to the input received so
 	// far.
 	score *model.Score
@@ -116,6 +119,7 @@ func (server *Server) resetState() error {
 	}
 
 	server.input = ""
+	server.inputs = nil
 	server.score = model.NewScore()
 	server.eventIndex = 0
 
@@ -558,9 +562,53 @@ func (server *Server) handleRequests() {
 	}
 }
 
+// Parses a string of `input` and applies the resulting updates to `score`.
+func updateScore(score *model.Score, input string) error {
+	ast, err := parser.ParseString(input)
+	if err != nil {
+		return err
+	}
+
+	scoreUpdates, err := ast.Updates()
+	if err != nil {
+		return err
+	}
+
+	return score.Update(scoreUpdates...)
+}
+
+// When an update fails, the updates (or parts of an update) that precede the
+// error have already been applied to the score. To get back to the state before
+// the failed update, we evaluate the input that we had before once more.
+func (server *Server) restoreScore() {
+	score := model.NewScore()
+
+	for _, input := range server.inputs {
+		if err := updateScore(score, input); err != nil {
+			log.Warn().Err(err).Msg("Failed to restore score.")
+		}
+	}
+
+	server.score = score
+}
+
+// Adds the provided `input`, which has been evaluated successfully, to our
+// total string of input representing the entire score.
+func (server *Server) addInput(input string) {
+	server.inputs = append(server.inputs, input)
+	server.input += strings.TrimSpace(input) + "\n"
+
+	// Update the starting index so that the next invocation of `evalAndPlay` for
+	// this same score will result in only playing newly added events.
+	server.eventIndex = len(server.score.Events)
+}
+
 // Parses a string of `input`, updates the server's score and related state, and
 // returns a list of transmission options that would make it so that we're
 // transmitting only the new events that resulted from this string of input.
+//
+// If there is an error, the server's score and related state are left as they
+// were.
 func (server *Server) updateScoreWithInput(
 	input string,
 ) ([]transmitter.TransmissionOption, error) {
@@ -573,27 +621,12 @@ func (server *Server) updateScoreWithInput(
 	// playing from when we want to play the new events.
 	eventIndex := server.eventIndex
 
-	ast, err := parser.ParseString(input)
-	if err != nil {
-		return nil, err
-	}
-
-	scoreUpdates, err := ast.Updates()
-	if err != nil {
-		return nil, err
-	}
-
-	if err := server.score.Update(scoreUpdates...); err != nil {
+	if err := updateScore(server.score, input); err != nil {
+		server.restoreScore()
 		return nil, err
 	}
 
-	// Add the provided `input` to our total string of input representing the
-	// entire score.
-	server.input += strings.TrimSpace(input) + "\n"
-
-	// Update the starting index so that the next invocation of `evalAndPlay` for
-	// this same score will result in only playing newly added events.
-	server.eventIndex = len(server.score.Events)
+	server.addInput(input)
 
 	return []transmitter.TransmissionOption{
 		// Transmit only the new events, i.e. events added as a result of parsing
@@ -638,44 +671,48 @@ func (server *Server) evalAndPlay(
 }
 
 func (server *Server) load(input string) error {
+	// We evaluate the input before we do anything else, so that if there is an
+	// error, we still have the score that we had before.
+	score := model.NewScore()
+	if err := updateScore(score, input); err != nil {
+		return err
+	}
+
 	if err := server.resetState(); err != nil {
 		return err
 	}
 
-	return server.withTransmitter(
-		func(t transmitter.OSCTransmitter) error {
-			transmitOpts, err := server.updateScoreWithInput(input)
-			if err != nil {
-				return err
-			}
+	server.score = score
+	server.addInput(input)
 
-			transmitOpts = append(transmitOpts, transmitter.LoadOnly())
+	return server.withTransmitter(server.loadScore)
+}
 
-			log.Info().
-				Interface("player", server.player).
-				Msg("Transmitting score to player.")
+// Loads the current score into a (fresh) player process, without playing it.
+func (server *Server) loadScore(t transmitter.OSCTransmitter) error {
+	log.Info().
+		Interface("player", server.player).
+		Msg("Transmitting score to player.")
 
-			err = t.TransmitScore(server.score, transmitOpts...)
-			if err != nil {
-				return err
-			}
+	err := t.TransmitScore(server.score, transmitter.LoadOnly())
+	if err != nil {
+		return err
+	}
 
-			newOffset := int32(0)
-			for _, offset := range server.score.PartOffsets() {
-				offsetRounded := int32(math.Round(offset))
-				if offsetRounded > newOffset {
-					newOffset = offsetRounded
-				}
-			}
+	newOffset := int32(0)
+	for _, offset := range server.score.PartOffsets() {
+		offsetRounded := int32(math.Round(offset))
+		if offsetRounded > newOffset {
+			newOffset = offsetRounded
+		}
+	}
 
-			log.Info().
-				Interface("player", server.player).
-				Int32("newOffset", newOffset).
-				Msg("Transmitting new offset to player.")
+	log.Info().
+		Interface("player", server.player).
+		Int32("newOffset", newOffset).
+		Msg("Transmitting new offset to player.")
 
-			return t.TransmitOffsetMessage(newOffset)
-		},
-	)
+	return t.TransmitOffsetMessage(newOffset)
 }
 
 func (server *Server) reload() error {
-- 
2.43.0


From 7d3023d3db7a4ae7c6a916b659603a562c800707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:11 +0000
Subject: [PATCH 53/81] fix: replaying or exporting a REPL session's score
 keeps the score, whatever happens

---
 client/repl/server.go | 67 +++++++++++++++++++++++++++----------------
 1 file changed, 42 insertions(+), 25 deletions(-)

diff --git a/client/repl/server.go b/client/repl/server.go
index 284edc8..01e7925 100644
--- a/client/repl/server.go
+++ b/client/repl/server.go
@@ -648,9 +648,7 @@ func (server *Server) updateScoreWithInput(
 	}, nil
 }
 
-func (server *Server) evalAndPlay(
-	input string, additionalTransmitOpts ...transmitter.TransmissionOption,
-) error {
+func (server *Server) evalAndPlay(input string) error {
 	return server.withTransmitter(
 		func(transmitter transmitter.OSCTransmitter) error {
 			transmitOpts, err := server.updateScoreWithInput(input)
@@ -662,10 +660,7 @@ func (server *Server) evalAndPlay(
 				Interface("player", server.player).
 				Msg("Sending OSC messages to player.")
 
-			return transmitter.TransmitScore(
-				server.score,
-				(append(transmitOpts, additionalTransmitOpts...))...,
-			)
+			return transmitter.TransmitScore(server.score, transmitOpts...)
 		},
 	)
 }
@@ -715,38 +710,57 @@ func (server *Server) loadScore(t transmitter.OSCTransmitter) error {
 	return t.TransmitOffsetMessage(newOffset)
 }
 
-func (server *Server) reload() error {
-	return server.load(server.input)
+// Shuts down the player process, so that the `managePlayers` loop finds a fresh
+// one to replace it. In the meantime, `server.withTransmitter` waits until a
+// player process is available.
+//
+// The score and everything else about the server state stays as it is.
+func (server *Server) replacePlayer() error {
+	if !server.hasPlayer() {
+		return nil
+	}
+
+	return server.shutdownPlayer()
 }
 
 func (server *Server) replay(
 	transmitOpts ...transmitter.TransmissionOption,
 ) error {
-	// `input` is the one thing about the server state that we DON'T want to
-	// reset, so we keep track of it here. After we reset the state, we invoke
-	// `server.evalAndPlay` on this input, which has the effect of both playing it
-	// and re-adding it to the state of the server.
-	input := server.input
-
-	// We reset the server state here so that we can re-transmit the score "from
-	// scratch" (or just re-transmit the part that we want to hear, if `from`
-	// and/or `to` parameters are provided). This makes it so that what we hear
-	// corresponds more directly to the input entered so far.
+	// Before we do anything else, make sure that the score can be transmitted
+	// with these options, e.g. that the markers that they refer to exist.
+	if _, err := (transmitter.OSCTransmitter{}).ScoreToOSCBundle(
+		server.score, transmitOpts...,
+	); err != nil {
+		return err
+	}
+
+	// We switch to another player process here so that we can re-transmit the
+	// score "from scratch" (or just re-transmit the part that we want to hear, if
+	// `from` and/or `to` parameters are provided). This makes it so that what we
+	// hear corresponds more directly to the input entered so far.
 	//
 	// An alternative would be to tell the player to rewind to offset 0 and play
 	// the sequence from the beginning, but that would preserve the pauses in
 	// between the user entering each line of REPL input, which we are presuming
 	// is not what the user wants. (This would also be a departure from the
 	// behavior of `:play` in the Alda v1 REPL.)
-	if err := server.resetState(); err != nil {
+	if err := server.replacePlayer(); err != nil {
 		return err
 	}
 
 	// At this point, the `managePlayers` loop should find a replacement for the
-	// player, and this should generally happen quickly. `server.evalAndPlay` will
+	// player, and this should generally happen quickly. `withTransmitter` will
 	// handle the case that a player process isn't immediately available, so it's
-	// OK for us to call it immediately after resetting the state.
-	return server.evalAndPlay(input, transmitOpts...)
+	// OK for us to call it immediately.
+	return server.withTransmitter(
+		func(transmitter transmitter.OSCTransmitter) error {
+			log.Info().
+				Interface("player", server.player).
+				Msg("Sending OSC messages to player.")
+
+			return transmitter.TransmitScore(server.score, transmitOpts...)
+		},
+	)
 }
 
 // Reloads the score into a fresh player, sends a "MIDI export" message to the
@@ -761,10 +775,13 @@ func (server *Server) export() ([]byte, error) {
 	// When we're evaluating Alda code interactively at the REPL, we suppress
 	// tempo messages because they serve no immediate purpose.
 	//
-	// When it comes time to export the score, we reload the input into the MIDI
+	// When it comes time to export the score, we reload the score into the MIDI
 	// sequencer, which does include sending tempo messages, so that the MIDI
 	// sequence includes tempo changes in the places where we want them.
-	if err := server.reload(); err != nil {
+	if err := server.replacePlayer(); err != nil {
+		return nil, err
+	}
+	if err := server.withTransmitter(server.loadScore); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From 6b6396b65f1beeeddd79d1b6188f094f1aafc317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:16 +0000
Subject: [PATCH 54/81] fix: the REPL server reads all the messages of a client
 and survives malformed ones

---
 client/repl/messages.go | 132 ++++++++++++++++++++++++++++++++++++++++
 client/repl/server.go   |   7 ++-
 2 files changed, 138 insertions(+), 1 deletion(-)
 create mode 100644 client/repl/messages.go

diff --git a/client/repl/messages.go b/client/repl/messages.go
new file mode 100644
index 0000000..30adedc
--- /dev/null
+++ b/client/repl/messages.go
@@ -0,0 +1,132 @@
+package repl
+
+import (
+	"bufio"
+	"bytes"
+	"fmt"
+	"io"
+	"strconv"
+	"strings"
+
+	bencode "github.com/jackpal/bencode-go"
+)
+
+// Limits on the messages that the server is willing to receive. These are far
+// beyond what any client needs to send.
+const maxMessageLength = 64 * 1024 * 1024
+const maxMessageDepth = 100
+
+// Reads the number that ends with `delim`, including `delim`.
+func readNumber(r *bufio.Reader, delim byte) (string, error) {
+	// There is no number of more than 20 characters that fits into 64 bits.
+	digits := strings.Builder{}
+
+	for digits.Len() <= 20 {
+		c, err := r.ReadByte()
+		if err != nil {
+			return "", err
+		}
+
+		if c == delim {
+			return digits.String(), nil
+		}
+
+		digits.WriteByte(c)
+	}
+
+	return "", fmt.Errorf("number too long: %s", digits.String())
+}
+
+// Reads the bytes of one bencoded value and appends them to `message`.
+//
+// Returns an error if the value isn't valid.
+func readValue(r *bufio.Reader, message *bytes.Buffer, depth int) error {
+	if depth > maxMessageDepth {
+		return fmt.Errorf("message nested too deeply")
+	}
+
+	c, err := r.ReadByte()
+	if err != nil {
+		return err
+	}
+
+	switch {
+	case c == 'i':
+		number, err := readNumber(r, 'e')
+		if err != nil {
+			return err
+		}
+
+		fmt.Fprintf(message, "i%se", number)
+
+	case c == 'l' || c == 'd':
+		message.WriteByte(c)
+
+		for {
+			next, err := r.Peek(1)
+			if err != nil {
+				return err
+			}
+
+			if next[0] == 'e' {
+				r.ReadByte()
+				break
+			}
+
+			if err := readValue(r, message, depth+1); err != nil {
+				return err
+			}
+		}
+
+		message.WriteByte('e')
+
+	case c >= '0' && c <= '9':
+		r.UnreadByte()
+
+		number, err := readNumber(r, ':')
+		if err != nil {
+			return err
+		}
+
+		length, err := strconv.ParseUint(number, 10, 31)
+		if err != nil {
+			return err
+		}
+
+		if message.Len()+int(length) > maxMessageLength {
+			return fmt.Errorf("message too long")
+		}
+
+		fmt.Fprintf(message, "%s:", number)
+
+		if _, err := io.CopyN(message, r, int64(length)); err != nil {
+			return err
+		}
+
+	default:
+		return fmt.Errorf("unexpected character: %q", c)
+	}
+
+	if message.Len() > maxMessageLength {
+		return fmt.Errorf("message too long")
+	}
+
+	return nil
+}
+
+// Reads one bencoded message from a client.
+//
+// We can't just leave this up to `bencode.Decode` because it trusts the client:
+// it allocates strings of any length, panics if a length is negative, and
+// follows any amount of nesting.
+//
+// Returns `io.EOF` if the client disconnected.
+func readMessage(r *bufio.Reader) (interface{}, error) {
+	message := &bytes.Buffer{}
+
+	if err := readValue(r, message, 0); err != nil {
+		return nil, err
+	}
+
+	return bencode.Decode(message)
+}
diff --git a/client/repl/server.go b/client/repl/server.go
index 01e7925..37fadef 100644
--- a/client/repl/server.go
+++ b/client/repl/server.go
@@ -1,6 +1,7 @@
 package repl
 
 import (
+	"bufio"
 	encjson "encoding/json"
 	"fmt"
 	"io"
@@ -295,8 +296,12 @@ func (server *Server) listen(l net.Listener) {
 		go func() {
 			defer conn.Close()
 
+			// There has to be one reader for the whole connection, because more than
+			// one message can be read at once.
+			reader := bufio.NewReader(conn)
+
 			for {
-				decoded, err := bencode.Decode(conn)
+				decoded, err := readMessage(reader)
 
 				// I think this means the client disconnected? So assuming I'm right
 				// about that, we should stop reading and close the connection.
-- 
2.43.0


From 0f2471a366fd720638f33e85d7fba20fb6504a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:21 +0000
Subject: [PATCH 55/81] fix: REPL responses are complete and independent of
 each other, and don't wait for clients forever

---
 client/repl/server.go | 43 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/client/repl/server.go b/client/repl/server.go
index 37fadef..3b5a3a7 100644
--- a/client/repl/server.go
+++ b/client/repl/server.go
@@ -2,6 +2,7 @@ package repl
 
 import (
 	"bufio"
+	"bytes"
 	encjson "encoding/json"
 	"fmt"
 	"io"
@@ -29,6 +30,10 @@ import (
 
 const midiExportTimeout = 20 * time.Second
 
+// If a client doesn't read our responses, we can't wait for it forever because
+// there are other clients to serve.
+const responseTimeout = 5 * time.Second
+
 type nREPLRequest struct {
 	conn net.Conn
 	msg  map[string]interface{}
@@ -68,24 +73,44 @@ func (server *Server) stateFile() string {
 func (server *Server) respond(
 	req nREPLRequest, status []string, data map[string]interface{},
 ) {
-	if data == nil {
-		data = make(map[string]interface{})
+	// We add to a copy of the data because the data can be used for more than one
+	// response.
+	response := map[string]interface{}{"status": status}
+	for k, v := range data {
+		response[k] = v
 	}
 
-	data["status"] = status
-
 	if session, present := req.msg["session"]; present {
-		data["session"] = session
+		response["session"] = session
 	}
 
 	if id, present := req.msg["id"]; present {
-		data["id"] = id
+		response["id"] = id
 	}
 
-	log.Info().Interface("data", data).Msg("Sending response.")
+	log.Info().Interface("data", response).Msg("Sending response.")
+
+	// The connection receives the response as a whole or not at all.
+	message := &bytes.Buffer{}
+	if err := bencode.Marshal(message, response); err != nil {
+		log.Warn().
+			Err(err).
+			Interface("data", response).
+			Msg("Failed to serialize response.")
+		return
+	}
+
+	req.conn.SetWriteDeadline(time.Now().Add(responseTimeout))
+
+	if _, err := req.conn.Write(message.Bytes()); err != nil {
+		log.Warn().
+			Err(err).
+			Interface("data", response).
+			Msg("Failed to send response.")
 
-	if err := bencode.Marshal(req.conn, data); err != nil {
-		log.Warn().Interface("data", data).Msg("Failed to send response.")
+		// Part of the response may have been sent, so there is nothing that we
+		// could send to this client after that.
+		req.conn.Close()
 	}
 }
 
-- 
2.43.0


From 8f893a868abadb099a96320faeb2c4e6afbff5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:25 +0000
Subject: [PATCH 56/81] fix: the REPL server answers requests of clients that
 send nothing more, and messages that are no requests

---
 client/repl/server.go | 67 ++++++++++++++++++++++++++++++-------------
 1 file changed, 47 insertions(+), 20 deletions(-)

diff --git a/client/repl/server.go b/client/repl/server.go
index 3b5a3a7..fc2ac79 100644
--- a/client/repl/server.go
+++ b/client/repl/server.go
@@ -13,6 +13,7 @@ import (
 	"path/filepath"
 	"strconv"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/google/uuid"
@@ -37,6 +38,8 @@ const responseTimeout = 5 * time.Second
 type nREPLRequest struct {
 	conn net.Conn
 	msg  map[string]interface{}
+	// Called when the request has been handled.
+	done func()
 }
 
 // Server is a stateful Alda REPL server object.
@@ -319,7 +322,20 @@ func (server *Server) listen(l net.Listener) {
 		// asynchronous, even though we proceed to process the messages
 		// synchronously by putting them onto a queue.
 		go func() {
-			defer conn.Close()
+			// Even if the client isn't going to send anything else, we can't close the
+			// connection until its requests have been answered.
+			pending := &sync.WaitGroup{}
+			defer func() {
+				pending.Wait()
+				conn.Close()
+			}()
+
+			enqueue := func(msg map[string]interface{}) {
+				pending.Add(1)
+				server.requestQueue <- nREPLRequest{
+					conn: conn, msg: msg, done: pending.Done,
+				}
+			}
 
 			// There has to be one reader for the whole connection, because more than
 			// one message can be read at once.
@@ -351,6 +367,10 @@ func (server *Server) listen(l net.Listener) {
 					log.Warn().
 						Msg("Unable to process request; it isn't a map[string]interface{}")
 
+					// The client is waiting for a response nonetheless. An empty request
+					// is answered with an error.
+					enqueue(map[string]interface{}{})
+
 				case map[string]interface{}:
 					// Strings seem to become byte arrays somewhere in the process of
 					// marshaling and unmarshaling to bencode. I don't have a use-case for
@@ -367,7 +387,7 @@ func (server *Server) listen(l net.Listener) {
 						Interface("decodedRequest", msg).
 						Msg("Request received.")
 
-					server.requestQueue <- nREPLRequest{conn: conn, msg: msg}
+					enqueue(msg)
 				}
 			}
 		}()
@@ -567,28 +587,35 @@ var ops = map[string]func(*Server, nREPLRequest){
 	},
 }
 
+// Handles a single request.
+func (server *Server) handleRequest(req nREPLRequest) {
+	defer req.done()
+
+	errors := validateRequest(
+		req.msg,
+		requestFieldSpec{name: "op", valueType: typeString, required: true},
+	)
+	if len(errors) > 0 {
+		server.respondErrors(req, errors, nil)
+		return
+	}
+
+	op := req.msg["op"].(string)
+
+	handler, supported := ops[op]
+	if !supported {
+		server.respond(req, []string{"done", "error", "unknown-op"}, nil)
+		return
+	}
+
+	handler(server, req)
+}
+
 // Runs in a loop, handling requests from the queue as they come in in a
 // synchronous fashion, one at a time.
 func (server *Server) handleRequests() {
 	for req := range server.requestQueue {
-		errors := validateRequest(
-			req.msg,
-			requestFieldSpec{name: "op", valueType: typeString, required: true},
-		)
-		if len(errors) > 0 {
-			server.respondErrors(req, errors, nil)
-			continue
-		}
-
-		op := req.msg["op"].(string)
-
-		handler, supported := ops[op]
-		if !supported {
-			server.respond(req, []string{"done", "error", "unknown-op"}, nil)
-			continue
-		}
-
-		handler(server, req)
+		server.handleRequest(req)
 	}
 }
 
-- 
2.43.0


From 681bced8d80bb4973cbb85ba1e0bd9ff4e89dd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:30 +0000
Subject: [PATCH 57/81] fix: a panic in handling a REPL request fails only that
 request

---
 client/repl/server.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/client/repl/server.go b/client/repl/server.go
index fc2ac79..9f7e5f4 100644
--- a/client/repl/server.go
+++ b/client/repl/server.go
@@ -11,6 +11,7 @@ import (
 	"net"
 	"os"
 	"path/filepath"
+	"runtime/debug"
 	"strconv"
 	"strings"
 	"sync"
@@ -588,9 +589,23 @@ var ops = map[string]func(*Server, nREPLRequest){
 }
 
 // Handles a single request.
+//
+// If something goes horribly wrong in the process, only this request fails.
 func (server *Server) handleRequest(req nREPLRequest) {
 	defer req.done()
 
+	defer func() {
+		if problem := recover(); problem != nil {
+			log.Error().
+				Interface("problem", problem).
+				Str("stack", string(debug.Stack())).
+				Msg("Failed to handle request.")
+
+			server.restoreScore()
+			server.respondError(req, fmt.Sprintf("internal error: %v", problem), nil)
+		}
+	}()
+
 	errors := validateRequest(
 		req.msg,
 		requestFieldSpec{name: "op", valueType: typeString, required: true},
-- 
2.43.0


From c00544858b11c5fe241594da3b318e8e0ca23ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:35 +0000
Subject: [PATCH 58/81] fix: exporting a REPL session's score leaves no
 temporary files and open files behind

---
 client/repl/server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client/repl/server.go b/client/repl/server.go
index 9f7e5f4..6a6f4df 100644
--- a/client/repl/server.go
+++ b/client/repl/server.go
@@ -861,6 +861,7 @@ func (server *Server) export() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer os.RemoveAll(tmpdir)
 
 	midiFilename := filepath.Join(
 		tmpdir, fmt.Sprintf(
@@ -895,5 +896,7 @@ func (server *Server) export() ([]byte, error) {
 		return nil, err
 	}
 
+	defer midiFile.Close()
+
 	return io.ReadAll(midiFile)
 }
-- 
2.43.0


From 7852c04f7158aa2cb2857e7c1f48cb3c9c990bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:06 +0000
Subject: [PATCH 59/81] fix: the REPL server doesn't go back to a player that
 it has shut down

---
 client/repl/player_management.go | 57 +++++++++++++++++++++++---------
 client/repl/server.go            | 16 +++++----
 2 files changed, 51 insertions(+), 22 deletions(-)

diff --git a/client/repl/player_management.go b/client/repl/player_management.go
index 06d24a1..d43aa93 100644
--- a/client/repl/player_management.go
+++ b/client/repl/player_management.go
@@ -38,12 +38,14 @@ func findAvailablePlayer() (system.PlayerState, error) {
 }
 
 func (server *Server) transmitter() (transmitter.OSCTransmitter, error) {
-	if !server.hasPlayer() {
+	player := server.currentPlayer()
+
+	if player.Port == 0 {
 		return transmitter.OSCTransmitter{},
 			fmt.Errorf("no player process is available")
 	}
 
-	return transmitter.OSCTransmitter{Port: server.player.Port}, nil
+	return transmitter.OSCTransmitter{Port: player.Port}, nil
 }
 
 // Player management happens asynchronously (see the loop in `managePlayers`),
@@ -84,7 +86,28 @@ func (server *Server) withTransmitter(
 // For practical purposes, if Port is 0, then we can be reasonably certain that
 // the server doesn't have a player to talk to.
 func (server *Server) hasPlayer() bool {
-	return server.player.Port != 0
+	return server.currentPlayer().Port != 0
+}
+
+func (server *Server) currentPlayer() system.PlayerState {
+	server.playerMutex.Lock()
+	defer server.playerMutex.Unlock()
+
+	return server.player
+}
+
+// Sets the player to the `updated` state, provided that the server is still
+// using the player with the ID `id`.
+//
+// Otherwise, a request has been handled in the meantime that shut down that
+// player process, and the server must not go back to using it.
+func (server *Server) updatePlayer(id string, updated system.PlayerState) {
+	server.playerMutex.Lock()
+	defer server.playerMutex.Unlock()
+
+	if server.player.ID == id {
+		server.player = updated
+	}
 }
 
 // The `managePlayers` loop regularly checks to see if the player process that
@@ -97,6 +120,9 @@ func (server *Server) hasPlayer() bool {
 // will return false, and the player process will be replaced and
 // `server.player` will be set to the current state of the new player process.
 func (server *Server) unsetPlayer() {
+	server.playerMutex.Lock()
+	defer server.playerMutex.Unlock()
+
 	server.player = system.PlayerState{}
 }
 
@@ -133,8 +159,8 @@ func (server *Server) managePlayers() {
 
 		// If the server already has a player process that it's using, fetch updated
 		// state information about that player process.
-		if server.hasPlayer() {
-			updatedState, err := system.FindPlayerByID(server.player.ID)
+		if player := server.currentPlayer(); player.Port != 0 {
+			updatedState, err := system.FindPlayerByID(player.ID)
 
 			// FIXME: We are brittly depending on the verbiage in the error messages
 			// returned by `system.FindPlayerByID`.
@@ -142,15 +168,15 @@ func (server *Server) managePlayers() {
 			// TODO: Maybe UserFacingErrors could have an optional error code that we
 			// can depend on here?
 			if err == nil {
-				server.player = updatedState
+				server.updatePlayer(player.ID, updatedState)
 			} else if strings.HasPrefix(err.Error(), "No player was found") {
 				// If the state information tells us that the player process no longer
 				// exists, then we forget about that player process and a new one will be
 				// found to replace it shortly.
 				log.Warn().
-					Interface("player", server.player).
+					Interface("player", player).
 					Msg("Player process is offline.")
-				server.unsetPlayer()
+				server.updatePlayer(player.ID, system.PlayerState{})
 			} else {
 				log.Warn().Err(err).Msg("Failed to update player state information.")
 			}
@@ -162,14 +188,13 @@ func (server *Server) managePlayers() {
 				log.Warn().Err(err).Msg("No player processes available.")
 			} else {
 				log.Info().Interface("player", player).Msg("Found player process.")
-				server.player = player
+				server.updatePlayer("", player)
 			}
 		}
 
-		if server.hasPlayer() && now.Sub(lastPing) > pingInterval {
-			// We can safely ignore `err` here because it should always be nil, given
-			// that we just checked that `server.hasPlayer()` is true.
-			transmitter, _ := server.transmitter()
+		if player := server.currentPlayer(); player.Port != 0 &&
+			now.Sub(lastPing) > pingInterval {
+			transmitter := transmitter.OSCTransmitter{Port: player.Port}
 
 			if err := util.Await(
 				func() error { return transmitter.TransmitPingMessage() },
@@ -177,13 +202,13 @@ func (server *Server) managePlayers() {
 			); err != nil {
 				log.Warn().
 					Err(err).
-					Interface("player", server.player).
+					Interface("player", player).
 					Msg("Player process unreachable.")
 
-				server.unsetPlayer()
+				server.updatePlayer(player.ID, system.PlayerState{})
 			} else {
 				log.Debug().
-					Interface("player", server.player).
+					Interface("player", player).
 					Msg("Sent ping to player process.")
 			}
 
diff --git a/client/repl/server.go b/client/repl/server.go
index 6a6f4df..9c02b14 100644
--- a/client/repl/server.go
+++ b/client/repl/server.go
@@ -62,7 +62,11 @@ type Server struct {
 	// any new events that are added to the score when input is added.
 	eventIndex int
 	// The server's most recent information about the player process it is using.
-	player system.PlayerState
+	//
+	// Requests are handled in a different routine from the one that manages
+	// players, hence the mutex.
+	player      system.PlayerState
+	playerMutex sync.Mutex
 	// A queue onto which bdecoded messages from clients are placed in one
 	// routine. In another routine, the messages are handled synchronously, one at
 	// a time. Therefore, messages can be received asynchronously, but results are
@@ -575,7 +579,7 @@ var ops = map[string]func(*Server, nREPLRequest){
 		if err := server.withTransmitter(
 			func(transmitter transmitter.OSCTransmitter) error {
 				log.Info().
-					Interface("player", server.player).
+					Interface("player", server.currentPlayer()).
 					Msg("Sending \"stop\" message to player process.")
 				return transmitter.TransmitStopMessage()
 			},
@@ -729,7 +733,7 @@ func (server *Server) evalAndPlay(input string) error {
 			}
 
 			log.Info().
-				Interface("player", server.player).
+				Interface("player", server.currentPlayer()).
 				Msg("Sending OSC messages to player.")
 
 			return transmitter.TransmitScore(server.score, transmitOpts...)
@@ -758,7 +762,7 @@ func (server *Server) load(input string) error {
 // Loads the current score into a (fresh) player process, without playing it.
 func (server *Server) loadScore(t transmitter.OSCTransmitter) error {
 	log.Info().
-		Interface("player", server.player).
+		Interface("player", server.currentPlayer()).
 		Msg("Transmitting score to player.")
 
 	err := t.TransmitScore(server.score, transmitter.LoadOnly())
@@ -775,7 +779,7 @@ func (server *Server) loadScore(t transmitter.OSCTransmitter) error {
 	}
 
 	log.Info().
-		Interface("player", server.player).
+		Interface("player", server.currentPlayer()).
 		Int32("newOffset", newOffset).
 		Msg("Transmitting new offset to player.")
 
@@ -827,7 +831,7 @@ func (server *Server) replay(
 	return server.withTransmitter(
 		func(transmitter transmitter.OSCTransmitter) error {
 			log.Info().
-				Interface("player", server.player).
+				Interface("player", server.currentPlayer()).
 				Msg("Sending OSC messages to player.")
 
 			return transmitter.TransmitScore(server.score, transmitOpts...)
-- 
2.43.0


From b73ab557d1ac3f321c810e0979e8c607a1ecc7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:43 +0000
Subject: [PATCH 60/81] fix: the clean-up of renamed executables leaves files
 alone whose names only contain such a name

---
 client/system/dirs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/system/dirs.go b/client/system/dirs.go
index 1737590..bb60d03 100644
--- a/client/system/dirs.go
+++ b/client/system/dirs.go
@@ -53,7 +53,7 @@ func RenamedExecutable(path string) string {
 // "alda.1615061099.2081.old") looks like it's a renamed Alda executable.
 func IsRenamedExecutable(basename string) bool {
 	return regexp.MustCompile(
-		`alda(-player)?(\.exe)?\.\d+\.\d+\.old`,
+		`\Aalda(-player)?(\.exe)?\.\d+\.\d+\.old\z`,
 	).MatchString(basename)
 }
 
-- 
2.43.0


From 0b00dbc468ab19a1ba755fd281cebddb2633268b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:58 +0000
Subject: [PATCH 61/81] fix: files that aren't player states or don't describe
 a player are not taken for players

---
 client/system/process_management.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/client/system/process_management.go b/client/system/process_management.go
index 2630ac1..f6efda5 100644
--- a/client/system/process_management.go
+++ b/client/system/process_management.go
@@ -154,6 +154,13 @@ func processFiles(
 
 	for _, file := range files {
 		filename := file.Name()
+
+		// Anything else in this directory isn't a state file, e.g. a temporary file
+		// of a program that is about to replace one.
+		if filepath.Ext(filename) != ".json" {
+			continue
+		}
+
 		filepath := filepath.Join(directory, filename)
 		contents, readError := os.ReadFile(filepath)
 		process(filename, contents, readError)
@@ -172,9 +179,10 @@ func processFiles(
 // directory and returns a list of player state structs describing the current
 // state of each player process.
 //
-// In the event that a state file is unreadable or cannot be parsed as JSON, we
-// skip that file. The goal is that we end up with a list of only known, valid
-// player states.
+// In the event that a state file is unreadable, cannot be parsed as JSON or
+// doesn't say what the state of the player is and how to reach it, we skip that
+// file. The goal is that we end up with a list of only known, valid player
+// states.
 //
 // Returns an error if something goes horribly wrong, e.g. we cannot list the
 // files in the directory for some reason.
@@ -217,7 +225,14 @@ func ReadPlayerStates() ([]PlayerState, error) {
 				return
 			}
 
-			state.ID = strings.Replace(filename, ".json", "", 1)
+			if state.State == "" || state.Port == 0 {
+				log.Warn().
+					Str("filename", filename).
+					Msg("Incomplete player state")
+				return
+			}
+
+			state.ID = strings.TrimSuffix(filename, ".json")
 
 			states = append(states, state)
 		},
@@ -274,7 +289,7 @@ func ReadREPLServerStates() ([]REPLServerState, error) {
 				return
 			}
 
-			state.ID = strings.Replace(filename, ".json", "", 1)
+			state.ID = strings.TrimSuffix(filename, ".json")
 
 			states = append(states, state)
 		},
-- 
2.43.0


From 4a498998e15e7f2fd7a32a395ffcb774672bb504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:59 +0000
Subject: [PATCH 62/81] fix: unpausing reaches every player even when one of
 them can't be reached

---
 client/cmd/play.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/client/cmd/play.go b/client/cmd/play.go
index c196ba5..bbeedae 100644
--- a/client/cmd/play.go
+++ b/client/cmd/play.go
@@ -283,6 +283,10 @@ var playCmd = &cobra.Command{
 			Str("action", action).
 			Msg("Sending messages to players.")
 
+		// A player that can't be reached (e.g. one that died and left its state
+		// behind) doesn't keep us from sending the messages to the others.
+		var firstError error
+
 		for _, player := range players {
 			xmitter := transmitter.OSCTransmitter{Port: player.Port}
 
@@ -298,7 +302,16 @@ var playCmd = &cobra.Command{
 				)
 			}
 			if transmissionError != nil {
-				return transmissionError
+				log.Warn().
+					Interface("player", player).
+					Err(transmissionError).
+					Msg("Failed to send OSC messages to player.")
+
+				if firstError == nil {
+					firstError = transmissionError
+				}
+
+				continue
 			}
 
 			log.Info().
@@ -306,6 +319,10 @@ var playCmd = &cobra.Command{
 				Msg("Sent OSC messages to player.")
 		}
 
+		if firstError != nil {
+			return firstError
+		}
+
 		// We don't have to print something here, but it's a good idea because it
 		// indicates to the user that we did what they asked. Otherwise, it might
 		// not be obvious that we did anything, especially in cases where there is
-- 
2.43.0


From eff9665b0ed8632c4deb503aca8d8f63b2d4b8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:27 +0000
Subject: [PATCH 63/81] fix: export writes to the relative path given with -o

---
 client/cmd/export.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/client/cmd/export.go b/client/cmd/export.go
index 1017df9..1c804d3 100644
--- a/client/cmd/export.go
+++ b/client/cmd/export.go
@@ -207,7 +207,11 @@ Currently, the only supported output format is %s.`,
 
 		var targetFilename string
 		if outputFilename != "" {
-			targetFilename = outputFilename
+			// The player process was started in a different directory, most likely.
+			targetFilename, err = filepath.Abs(outputFilename)
+			if err != nil {
+				return err
+			}
 		} else {
 			targetFilename = tmpFilename
 		}
-- 
2.43.0


From a9940ee4cf4bd8e8761938826b6760c96bc79628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:41 +0000
Subject: [PATCH 64/81] fix: export waits until the MIDI file has been written
 to the end, and fails if it hasn't

---
 client/cmd/export.go       | 32 +++++++-------
 client/repl/server.go      | 22 +---------
 client/system/midi_file.go | 88 ++++++++++++++++++++++++++++++++++++++
 3 files changed, 105 insertions(+), 37 deletions(-)
 create mode 100644 client/system/midi_file.go

diff --git a/client/cmd/export.go b/client/cmd/export.go
index 1c804d3..0b228a9 100644
--- a/client/cmd/export.go
+++ b/client/cmd/export.go
@@ -1,8 +1,8 @@
 package cmd
 
 import (
+	"errors"
 	"fmt"
-	"io"
 	"math/rand"
 	"os"
 	"path/filepath"
@@ -216,6 +216,11 @@ Currently, the only supported output format is %s.`,
 			targetFilename = tmpFilename
 		}
 
+		previous, err := os.Stat(targetFilename)
+		if err != nil && !errors.Is(err, os.ErrNotExist) {
+			return err
+		}
+
 		err = transmitter.TransmitMidiExportMessage(targetFilename)
 		if err != nil {
 			return err
@@ -235,27 +240,22 @@ Currently, the only supported output format is %s.`,
 		// "hanging."
 		fmt.Fprintln(os.Stderr, "Exporting...")
 
-		var midiFile *os.File
-
-		if err := util.Await(
-			func() error {
-				mf, err := os.Open(targetFilename)
-				if err != nil {
-					return err
-				}
+		var midi []byte
 
-				midiFile = mf
-				return nil
-			},
-			midiExportTimeout,
-		); err != nil {
-			return nil
+		// There is nothing to read back from e.g. a named pipe or a device.
+		if previous == nil || previous.Mode().IsRegular() {
+			midi, err = system.AwaitMidiFile(
+				targetFilename, previous, midiExportTimeout,
+			)
+			if err != nil {
+				return err
+			}
 		}
 
 		if outputFilename != "" {
 			fmt.Fprintf(os.Stderr, "Exported score to %s\n", outputFilename)
 		} else {
-			if _, err := io.Copy(os.Stdout, midiFile); err != nil {
+			if _, err := os.Stdout.Write(midi); err != nil {
 				return err
 			}
 		}
diff --git a/client/repl/server.go b/client/repl/server.go
index 9c02b14..af1aa48 100644
--- a/client/repl/server.go
+++ b/client/repl/server.go
@@ -27,7 +27,6 @@ import (
 	"alda.io/client/parser"
 	"alda.io/client/system"
 	"alda.io/client/transmitter"
-	"alda.io/client/util"
 )
 
 const midiExportTimeout = 20 * time.Second
@@ -883,24 +882,5 @@ func (server *Server) export() ([]byte, error) {
 		return nil, err
 	}
 
-	var midiFile *os.File
-
-	if err := util.Await(
-		func() error {
-			mf, err := os.Open(midiFilename)
-			if err != nil {
-				return err
-			}
-
-			midiFile = mf
-			return nil
-		},
-		midiExportTimeout,
-	); err != nil {
-		return nil, err
-	}
-
-	defer midiFile.Close()
-
-	return io.ReadAll(midiFile)
+	return system.AwaitMidiFile(midiFilename, nil, midiExportTimeout)
 }
diff --git a/client/system/midi_file.go b/client/system/midi_file.go
new file mode 100644
index 0000000..5e6335e
--- /dev/null
+++ b/client/system/midi_file.go
@@ -0,0 +1,88 @@
+package system
+
+import (
+	"encoding/binary"
+	"fmt"
+	"os"
+	"time"
+
+	"alda.io/client/util"
+)
+
+// isCompleteMidiFile returns whether the contents are those of a MIDI file that
+// has been written to the end, i.e. whether the header and all of the tracks it
+// announces are there.
+func isCompleteMidiFile(contents []byte) bool {
+	// Returns the contents of the next chunk, or nil if it isn't all there.
+	nextChunk := func(chunkType string) []byte {
+		if len(contents) < 8 || string(contents[:4]) != chunkType {
+			return nil
+		}
+
+		length := uint64(binary.BigEndian.Uint32(contents[4:8]))
+		if uint64(len(contents)-8) < length {
+			return nil
+		}
+
+		chunk := contents[8 : 8+length]
+		contents = contents[8+length:]
+		return chunk
+	}
+
+	header := nextChunk("MThd")
+	if len(header) < 6 {
+		return false
+	}
+
+	for i := binary.BigEndian.Uint16(header[2:4]); i > 0; i-- {
+		if nextChunk("MTrk") == nil {
+			return false
+		}
+	}
+
+	return true
+}
+
+// AwaitMidiFile waits until a player process has written the MIDI file that it
+// has been told to write, and returns the contents of the file.
+//
+// `previous` describes the file that existed by that name before the player was
+// told to write the file. (nil if there was no such file.)
+//
+// Returns an error if the file hasn't been written, or not to the end, before
+// the timeout.
+func AwaitMidiFile(
+	filename string, previous os.FileInfo, timeout time.Duration,
+) ([]byte, error) {
+	var contents []byte
+
+	err := util.Await(
+		func() error {
+			info, err := os.Stat(filename)
+			if err != nil {
+				return err
+			}
+
+			if previous != nil &&
+				os.SameFile(previous, info) &&
+				previous.Size() == info.Size() &&
+				previous.ModTime().Equal(info.ModTime()) {
+				return fmt.Errorf("the MIDI file was not written: %s", filename)
+			}
+
+			contents, err = os.ReadFile(filename)
+			if err != nil {
+				return err
+			}
+
+			if !isCompleteMidiFile(contents) {
+				return fmt.Errorf("the MIDI file is not complete: %s", filename)
+			}
+
+			return nil
+		},
+		timeout,
+	)
+
+	return contents, err
+}
-- 
2.43.0


From 578b6f0aa04bac2f4ce2cc5899e7a4dd07d88a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:43 +0000
Subject: [PATCH 65/81] fix: export to stdout leaves no temporary file behind

---
 client/cmd/export.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client/cmd/export.go b/client/cmd/export.go
index 0b228a9..44b74e0 100644
--- a/client/cmd/export.go
+++ b/client/cmd/export.go
@@ -195,6 +195,7 @@ Currently, the only supported output format is %s.`,
 			if err != nil {
 				return err
 			}
+			defer os.RemoveAll(tmpdir)
 
 			tmpFilename = filepath.Join(
 				tmpdir, fmt.Sprintf(
-- 
2.43.0


From 2cceced92ecf71118dd838d2dee54f5129ddb58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:08 +0000
Subject: [PATCH 66/81] fix: format and import don't lose the existing file
 when they can't write the new contents

---
 client/cmd/format.go   | 44 ++++++++++++++----------
 client/cmd/import.go   | 23 +++++++------
 client/system/files.go | 78 ++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 116 insertions(+), 29 deletions(-)
 create mode 100644 client/system/files.go

diff --git a/client/cmd/format.go b/client/cmd/format.go
index da5a827..d029844 100644
--- a/client/cmd/format.go
+++ b/client/cmd/format.go
@@ -5,6 +5,8 @@ import (
 	"alda.io/client/help"
 	log "alda.io/client/logging"
 	"alda.io/client/parser"
+	"alda.io/client/system"
+	"bytes"
 	"fmt"
 	"github.com/spf13/cobra"
 	"io"
@@ -70,25 +72,6 @@ Currently, formatting cannot handle comments (i.e. all comments are dropped)
 			return err
 		}
 
-		var out io.Writer
-		if formatOverwrite {
-			f, err := os.OpenFile(
-				formatInputFile,
-				os.O_WRONLY|os.O_TRUNC,
-				0664, // default rw-rw-r perms
-			)
-			if err != nil {
-				return help.UserFacingErrorf(
-					`Issue opening file %s.`,
-					color.Aurora.BrightYellow(outputAldaFilename),
-				)
-			}
-			defer f.Close()
-			out = f
-		} else {
-			out = os.Stdout
-		}
-
 		if formatConfiguredWrapLen < 0 {
 			return help.UserFacingErrorf(
 				`Configured line wrap length %d must be positive.`,
@@ -96,6 +79,14 @@ Currently, formatting cannot handle comments (i.e. all comments are dropped)
 			)
 		}
 
+		// When overwriting the input file, we don't touch it until we know what to
+		// replace it with.
+		formatted := bytes.Buffer{}
+		var out io.Writer = os.Stdout
+		if formatOverwrite {
+			out = &formatted
+		}
+
 		if formatConfiguredWrapLen > 0 && len(formatConfiguredIndentText) > 0 {
 			err = parser.FormatASTToCode(
 				root,
@@ -126,6 +117,21 @@ Currently, formatting cannot handle comments (i.e. all comments are dropped)
 			)
 		}
 
+		if formatOverwrite {
+			err := system.WriteFile(
+				formatInputFile,
+				formatted.Bytes(),
+				0664, // default rw-rw-r perms
+			)
+			if err != nil {
+				return help.UserFacingErrorf(
+					`Issue writing file %s: %s.`,
+					color.Aurora.BrightYellow(formatInputFile),
+					err.Error(),
+				)
+			}
+		}
+
 		return nil
 	},
 }
diff --git a/client/cmd/import.go b/client/cmd/import.go
index a8da784..c41b162 100644
--- a/client/cmd/import.go
+++ b/client/cmd/import.go
@@ -7,6 +7,7 @@ import (
 	"alda.io/client/model"
 	"alda.io/client/parser"
 	"alda.io/client/system"
+	"bytes"
 	"fmt"
 	"github.com/spf13/cobra"
 	"os"
@@ -136,23 +137,25 @@ Currently, the only supported input format is %s.`,
 				)
 			}
 		} else {
-			out, err := os.OpenFile(
-				outputAldaFilename,
-				os.O_WRONLY|os.O_CREATE|os.O_TRUNC,
-				0664, // default rw-rw-r perms
-			)
+			out := bytes.Buffer{}
+
+			err = parser.FormatASTToCode(root, &out)
 			if err != nil {
 				return help.UserFacingErrorf(
-					`Issue opening output file %s.`,
-					color.Aurora.BrightYellow(outputAldaFilename),
+					`Issue formatting imported Alda: %s.`,
+					err.Error(),
 				)
 			}
-			defer out.Close()
 
-			err = parser.FormatASTToCode(root, out)
+			err = system.WriteFile(
+				outputAldaFilename,
+				out.Bytes(),
+				0664, // default rw-rw-r perms
+			)
 			if err != nil {
 				return help.UserFacingErrorf(
-					`Issue formatting imported Alda: %s.`,
+					`Issue writing output file %s: %s.`,
+					color.Aurora.BrightYellow(outputAldaFilename),
 					err.Error(),
 				)
 			}
diff --git a/client/system/files.go b/client/system/files.go
new file mode 100644
index 0000000..84588bf
--- /dev/null
+++ b/client/system/files.go
@@ -0,0 +1,78 @@
+package system
+
+import (
+	"errors"
+	"os"
+	"path/filepath"
+)
+
+// WriteFile writes the contents into the named file, which is created with the
+// provided permissions if it doesn't exist yet.
+//
+// If there is already a file by that name, it is replaced once all of the
+// contents have been written. If that isn't possible (e.g. because the disk is
+// full), the existing file stays as it was.
+func WriteFile(
+	filename string, contents []byte, permissions os.FileMode,
+) (err error) {
+	// If the file is a symbolic link, we want to replace the file it refers to.
+	if target, err := filepath.EvalSymlinks(filename); err == nil {
+		filename = target
+	}
+
+	// This also ensures that we're allowed to write to the file, as opposed to
+	// only being allowed to put another file in its place.
+	file, err := os.OpenFile(filename, os.O_WRONLY, 0)
+	if errors.Is(err, os.ErrNotExist) {
+		return os.WriteFile(filename, contents, permissions)
+	}
+	if err != nil {
+		return err
+	}
+	defer file.Close()
+
+	info, err := file.Stat()
+	if err != nil {
+		return err
+	}
+
+	// e.g. a device or a named pipe
+	if !info.Mode().IsRegular() {
+		_, err := file.Write(contents)
+		return err
+	}
+
+	replacement, err := os.CreateTemp(
+		filepath.Dir(filename), "."+filepath.Base(filename)+".*",
+	)
+	// We may write to the file, but not put another one in its place.
+	if errors.Is(err, os.ErrPermission) {
+		return os.WriteFile(filename, contents, permissions)
+	}
+	if err != nil {
+		return err
+	}
+	defer func() {
+		replacement.Close()
+		if err != nil {
+			os.Remove(replacement.Name())
+		}
+	}()
+
+	if _, err := replacement.Write(contents); err != nil {
+		return err
+	}
+
+	if err := replacement.Chmod(info.Mode().Perm()); err != nil {
+		return err
+	}
+
+	if err := replacement.Close(); err != nil {
+		return err
+	}
+
+	// Not all operating systems allow us to replace a file that is open.
+	file.Close()
+
+	return os.Rename(replacement.Name(), filename)
+}
-- 
2.43.0


From 4e1694a3c618372f8af2268b6ed2dd3a1bb06835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:51 +0000
Subject: [PATCH 67/81] fix: a choice to disable telemetry isn't lost when the
 status can't be read or is written at the same time

---
 client/cmd/telemetry.go | 74 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 65 insertions(+), 9 deletions(-)

diff --git a/client/cmd/telemetry.go b/client/cmd/telemetry.go
index a8c353c..aebd89b 100644
--- a/client/cmd/telemetry.go
+++ b/client/cmd/telemetry.go
@@ -3,6 +3,7 @@ package cmd
 import (
 	"bytes"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io"
 	"net/http"
@@ -93,12 +94,17 @@ func readTelemetryStatus() (TelemetryStatus, error) {
 	}
 }
 
-func writeTelemetryStatus(status string) error {
+// prepareTelemetryStatusFile writes the status into a temporary file next to
+// the telemetry status file, which the caller is expected to put in place, so
+// that other processes never see a status file that is only partly written.
+//
+// Returns the path to the temporary file and the path to the status file.
+func prepareTelemetryStatusFile(status string) (string, string, error) {
 	telemetryStatusFilepath := system.ConfigPath(telemetryStatusFileName)
 
 	err := os.MkdirAll(filepath.Dir(telemetryStatusFilepath), os.ModePerm)
 	if err != nil {
-		return err
+		return "", "", err
 	}
 
 	log.Debug().
@@ -106,7 +112,58 @@ func writeTelemetryStatus(status string) error {
 		Str("filepath", telemetryStatusFilepath).
 		Msg("Writing telemetry status file.")
 
-	return os.WriteFile(telemetryStatusFilepath, []byte(status), 0644)
+	file, err := os.CreateTemp(
+		filepath.Dir(telemetryStatusFilepath), "."+telemetryStatusFileName+".*",
+	)
+	if err != nil {
+		return "", "", err
+	}
+
+	_, err = file.WriteString(status)
+	if err == nil {
+		err = file.Chmod(0644)
+	}
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+	if err != nil {
+		os.Remove(file.Name())
+		return "", "", err
+	}
+
+	return file.Name(), telemetryStatusFilepath, nil
+}
+
+// Writes the status that the user has chosen.
+func writeTelemetryStatus(status string) error {
+	temporary, destination, err := prepareTelemetryStatusFile(status)
+	if err != nil {
+		return err
+	}
+
+	if err := os.Rename(temporary, destination); err != nil {
+		os.Remove(temporary)
+		return err
+	}
+
+	return nil
+}
+
+// Writes the status that applies when the user hasn't chosen one. Leaves the
+// status alone if there already is one, e.g. because another Alda process has
+// just been told to disable telemetry.
+func writeInitialTelemetryStatus(status string) error {
+	temporary, destination, err := prepareTelemetryStatusFile(status)
+	if err != nil {
+		return err
+	}
+	defer os.Remove(temporary)
+
+	err = os.Link(temporary, destination)
+	if errors.Is(err, os.ErrExist) {
+		return nil
+	}
+	return err
 }
 
 func informUserOfTelemetry() {
@@ -125,19 +182,18 @@ If you wish to disable anonymous usage reporting, you can run:
 		)+"\n\n",
 	)
 
-	if err := enableTelemetry(); err != nil {
+	if err := writeInitialTelemetryStatus("enabled"); err != nil {
 		log.Warn().Err(err).Msg("Failed to enable telemetry.")
 	}
 }
 
 func informUserOfTelemetryIfNeeded() {
-	var status TelemetryStatus
-
+	// If we can't read the telemetry status file for some reason, then the user
+	// may well have chosen to disable telemetry, so we leave it at that. Telemetry
+	// isn't sent in this case.
 	status, err := readTelemetryStatus()
 	if err != nil {
-		// If we can't read the telemetry status file for some reason, the only
-		// reasonable thing we can do is assume they still need to be informed.
-		status = TelemetryNotInformed
+		return
 	}
 
 	if status == TelemetryNotInformed {
-- 
2.43.0


From 797d034a4c25164e7eb2a584a74c7c4c9be117ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:20 +0000
Subject: [PATCH 68/81] fix: a :load or :save that fails doesn't change which
 file :save writes, nor lose what is in the file

---
 client/repl/client.go | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/client/repl/client.go b/client/repl/client.go
index fff59ec..7fff174 100644
--- a/client/repl/client.go
+++ b/client/repl/client.go
@@ -113,7 +113,7 @@ func init() {
 				}
 				binaryData := []byte(res["binary-data"].(string))
 
-				return os.WriteFile(filename, binaryData, 0644)
+				return system.WriteFile(filename, binaryData, 0644)
 			},
 		},
 
@@ -213,23 +213,25 @@ file into the REPL server.`,
 					return err
 				}
 
+				filepath := client.inputFilepath
+
 				switch len(args) {
 				case 0:
-					if client.inputFilepath == "" {
+					if filepath == "" {
 						return fmt.Errorf("please specify the path to a file to load")
 					}
 				case 1:
-					client.inputFilepath = args[0]
+					filepath = args[0]
 				default:
 					return invalidArgsError(args)
 				}
 
-				contents, err := os.ReadFile(client.inputFilepath)
+				contents, err := os.ReadFile(filepath)
 				if err != nil {
 					return err
 				}
 
-				_, err = client.sendRequest(
+				res, err := client.sendRequest(
 					map[string]interface{}{
 						"op":   "load",
 						"code": string(contents)},
@@ -238,6 +240,13 @@ file into the REPL server.`,
 					return err
 				}
 
+				// If the score in the file wasn't loaded, then the working score is still
+				// the one that belongs to the previous file, and that's where a
+				// subsequent `:save` needs to put it.
+				if len(ResponseErrors(res)) == 0 {
+					client.inputFilepath = filepath
+				}
+
 				return nil
 			},
 		},
@@ -361,13 +370,15 @@ arguments will save the updated score to the same file.`,
 					return err
 				}
 
+				filepath := client.inputFilepath
+
 				switch len(args) {
 				case 0:
-					if client.inputFilepath == "" {
+					if filepath == "" {
 						return fmt.Errorf("please specify the path to a file")
 					}
 				case 1:
-					client.inputFilepath = args[0]
+					filepath = args[0]
 				default:
 					return invalidArgsError(args)
 				}
@@ -377,7 +388,15 @@ arguments will save the updated score to the same file.`,
 					return err
 				}
 
-				return os.WriteFile(client.inputFilepath, []byte(scoreText), 0644)
+				if err := system.WriteFile(
+					filepath, []byte(scoreText), 0644,
+				); err != nil {
+					return err
+				}
+
+				client.inputFilepath = filepath
+
+				return nil
 			},
 		},
 
-- 
2.43.0


From 0905cac8abb02aea9122b9042b66a44cbd636351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:24 +0000
Subject: [PATCH 69/81] fix: the REPL client remains usable after a response
 that came too late

---
 client/repl/client.go | 43 +++++++++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/client/repl/client.go b/client/repl/client.go
index 7fff174..ce5b6b1 100644
--- a/client/repl/client.go
+++ b/client/repl/client.go
@@ -1,6 +1,7 @@
 package repl
 
 import (
+	"bufio"
 	"fmt"
 	"io"
 	"net"
@@ -52,6 +53,10 @@ type Client struct {
 	// The current connection to the server with which the client is
 	// communicating.
 	serverConn net.Conn
+	// Reads the responses that come in on the connection above.
+	responses *bufio.Reader
+	// The IDs of requests whose responses we have stopped waiting for.
+	abandonedRequests map[string]bool
 	// The current session ID that is sent to the server on every request.
 	// Following the nREPL protocol, the client makes an initial "clone" request
 	// to the server and the response from the server contains the session ID that
@@ -588,6 +593,8 @@ func (client *Client) connect() error {
 			}
 
 			client.serverConn = conn
+			client.responses = bufio.NewReader(conn)
+			client.abandonedRequests = map[string]bool{}
 			return nil
 		},
 		serverConnectTimeout,
@@ -672,20 +679,32 @@ func (client *Client) sendRequest(
 	// Avoid hanging forever if the server doesn't respond.
 	client.serverConn.SetReadDeadline(time.Now().Add(30 * time.Second))
 
-	response, err := bencode.Decode(client.serverConn)
-	if err != nil {
-		return nil, err
-	}
+	var res map[string]interface{}
 
-	switch response.(type) {
-	case map[string]interface{}: // OK to continue
-	default:
-		return nil,
-			fmt.Errorf("response could not be decoded into the expected type")
-	}
-	res := response.(map[string]interface{})
+	for {
+		response, err := bencode.Decode(client.responses)
+		if err != nil {
+			client.abandonedRequests[messageID] = true
+			return nil, err
+		}
 
-	log.Debug().Interface("response", res).Msg("Received response.")
+		var ok bool
+		res, ok = response.(map[string]interface{})
+		if !ok {
+			return nil,
+				fmt.Errorf("response could not be decoded into the expected type")
+		}
+
+		log.Debug().Interface("response", res).Msg("Received response.")
+
+		// This might be the response to an earlier request, one that took the
+		// server too long to handle.
+		id, ok := res["id"].(string)
+		if !ok || !client.abandonedRequests[id] {
+			break
+		}
+		delete(client.abandonedRequests, id)
+	}
 
 	if res["id"] != messageID {
 		return nil,
-- 
2.43.0


From 63c43aa42a1fe894a5e683a20f55e062d05bfdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:07 +0000
Subject: [PATCH 70/81] fix: a panic doesn't end the WebAssembly module; the
 promise is rejected

---
 client/wasm/main.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/client/wasm/main.go b/client/wasm/main.go
index 7968b13..84b6606 100644
--- a/client/wasm/main.go
+++ b/client/wasm/main.go
@@ -20,6 +20,7 @@ import (
 	"alda.io/client/parser"
 	"alda.io/client/transmitter"
 
+	"fmt"
 	"syscall/js"
 )
 
@@ -44,7 +45,9 @@ func safeFunction(f func([]js.Value) interface{}) js.Func {
 		// If Alda panics, recover and log the error to the console.
 		defer func() {
 			if err := recover(); err != nil {
-				js.Global().Get("console").Call("error", err)
+				// Not every value that can be recovered can be converted to a JS value,
+				// so we convert it to a string.
+				js.Global().Get("console").Call("error", fmt.Sprint(err))
 			}
 		}()
 
@@ -69,6 +72,13 @@ func safePromiseFunction(f func([]js.Value) (interface{}, error)) js.Func {
 				resolve := promiseArgs[0]
 				reject := promiseArgs[1]
 
+				// This is a JS function of its own, so a panic has to be recovered here.
+				defer func() {
+					if err := recover(); err != nil {
+						reject.Invoke(js.Global().Get("Error").New(fmt.Sprint(err)))
+					}
+				}()
+
 				value, err := f(args)
 				if err != nil {
 					reject.Invoke(js.Global().Get("Error").New(err.Error()))
-- 
2.43.0


From 361a96cbce637b2667ec36cff0542c44d9329da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:20 +0000
Subject: [PATCH 71/81] fix: a question that is never answered isn't confirmed,
 instead of a crash

---
 client/text/interaction.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/client/text/interaction.go b/client/text/interaction.go
index 01d6ff4..9964ee8 100644
--- a/client/text/interaction.go
+++ b/client/text/interaction.go
@@ -19,17 +19,22 @@ func PromptForConfirmation(prompt string, defaultToYes bool) bool {
 		fmt.Printf("%s %s ", prompt, options)
 
 		response, err := reader.ReadString('\n')
-		if err != nil {
-			panic(err)
-		}
 
 		switch strings.ToLower(strings.TrimSpace(response)) {
 		case "":
-			return defaultToYes
+			if err == nil {
+				return defaultToYes
+			}
 		case "y", "yes":
 			return true
 		case "n", "no":
 			return false
 		}
+
+		// There won't be an answer, so there is no confirmation.
+		if err != nil {
+			fmt.Println()
+			return false
+		}
 	}
 }
-- 
2.43.0


From 9bab78e94b0e2bbd4b85738dd9d5f6075c4ef38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:24 +0000
Subject: [PATCH 72/81] fix: alda update --version asks for exactly that
 version

---
 client/cmd/update.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/client/cmd/update.go b/client/cmd/update.go
index 064231f..a0ef8b1 100644
--- a/client/cmd/update.go
+++ b/client/cmd/update.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"net/http"
+	"net/url"
 	"os"
 	"path/filepath"
 	"runtime"
@@ -441,7 +442,7 @@ func fetchReleaseInfo(version string) (*json.Container, error) {
 	fmt.Println()
 
 	response, err := (&http.Client{Timeout: 30 * time.Second}).Get(
-		aldaApiUrl("/release/" + version),
+		aldaApiUrl("/release/" + url.PathEscape(version)),
 	)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From a9fc1aed29a6e906bcdb026c98776fb5d6e4466e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:29 +0000
Subject: [PATCH 73/81] fix: alda update doesn't go on when no version is
 selected

---
 client/cmd/update.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/client/cmd/update.go b/client/cmd/update.go
index a0ef8b1..7a34a8f 100644
--- a/client/cmd/update.go
+++ b/client/cmd/update.go
@@ -567,13 +567,15 @@ func checkForUpdates() error {
 
 		selectedVersion := ""
 
-		survey.AskOne(
+		if err := survey.AskOne(
 			&survey.Select{
 				Message: "Which version would you like to install?",
 				Options: options,
 			},
 			&selectedVersion,
-		)
+		); err != nil {
+			return err
+		}
 
 		fmt.Println()
 
-- 
2.43.0


From ac0d7b7c1c67ec23ab1d763be532615b5e112548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:36 +0000
Subject: [PATCH 74/81] fix: a download that breaks off is an error instead of
 a hang

---
 client/cmd/update.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/client/cmd/update.go b/client/cmd/update.go
index 7a34a8f..0fd6736 100644
--- a/client/cmd/update.go
+++ b/client/cmd/update.go
@@ -107,9 +107,11 @@ func downloadAssets(assets []releaseAsset) (assetsDir string, err error) {
 		mpb.WithWaitGroup(&waitGroup),
 	)
 
-	var downloadError error
+	downloadErrors := make([]error, len(assets))
+
+	for i, asset := range assets {
+		i := i
 
-	for _, asset := range assets {
 		client := &http.Client{Timeout: 10 * time.Second}
 		response, err := client.Get(asset.assetUrl)
 		if err != nil {
@@ -163,15 +165,20 @@ func downloadAssets(assets []releaseAsset) (assetsDir string, err error) {
 			defer waitGroup.Done()
 
 			if _, err := io.Copy(out, proxyReader); err != nil {
-				downloadError = err
+				downloadErrors[i] = err
+
+				// Otherwise, we would wait forever for the progress bar to complete.
+				bar.Abort(false)
 			}
 		}()
 	}
 
 	progress.Wait()
 
-	if downloadError != nil {
-		return "", downloadError
+	for _, err := range downloadErrors {
+		if err != nil {
+			return "", err
+		}
 	}
 
 	return outdir, nil
-- 
2.43.0


From c9aee81f4d9f0e7aaf9fbbbcece3666ef75720e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:56 +0000
Subject: [PATCH 75/81] fix: alda update leaves no temporary files behind

---
 client/cmd/update.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/client/cmd/update.go b/client/cmd/update.go
index 0fd6736..8edbbaa 100644
--- a/client/cmd/update.go
+++ b/client/cmd/update.go
@@ -89,6 +89,11 @@ func downloadAssets(assets []releaseAsset) (assetsDir string, err error) {
 	if err != nil {
 		return "", err
 	}
+	defer func() {
+		if err != nil {
+			_ = os.RemoveAll(outdir)
+		}
+	}()
 
 	maxAssetNameLength := -1
 	for _, asset := range assets {
@@ -262,11 +267,6 @@ func installAsset(indir string, asset releaseAsset) error {
 		return err
 	}
 
-	// The copy was successful, so now we can remove the temporary file that we
-	// copied in. (It isn't really a problem if this fails, because it's a temp
-	// file, so we're ignoring `err` here.)
-	_ = os.Remove(inpath)
-
 	if runtime.GOOS != "windows" {
 		// Here, we make the file executable. The code below should be equivalent to
 		// running `chmod +x ...` on the file, i.e. ensuring that the "execute" bit
@@ -314,6 +314,9 @@ func downloadAndInstallAssets(assets []releaseAsset) error {
 	if err != nil {
 		return err
 	}
+	// (It isn't really a problem if this fails, because these are temp files, so
+	// we're ignoring the error here.)
+	defer func() { _ = os.RemoveAll(assetsDir) }()
 
 	for _, asset := range assets {
 		fmt.Println()
-- 
2.43.0


From 96acbb3f145f52986e086e5a11fddbb7799f8ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:31 +0000
Subject: [PATCH 76/81] fix: alda update installs a whole release or nothing,
 and never half a program

---
 client/cmd/update.go | 172 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 129 insertions(+), 43 deletions(-)

diff --git a/client/cmd/update.go b/client/cmd/update.go
index 8edbbaa..cb19ff9 100644
--- a/client/cmd/update.go
+++ b/client/cmd/update.go
@@ -189,16 +189,42 @@ func downloadAssets(assets []releaseAsset) (assetsDir string, err error) {
 	return outdir, nil
 }
 
-func installAsset(indir string, asset releaseAsset) error {
-	if asset.assetType != "executable" {
-		return fmt.Errorf(
-			"unexpected asset type: %s (%s)", asset.assetType, asset.assetName,
-		)
+// checkAssets returns an error if the assets include something that we wouldn't
+// know how to install.
+func checkAssets(assets []releaseAsset) error {
+	for _, asset := range assets {
+		if asset.assetType != "executable" {
+			return fmt.Errorf(
+				"unexpected asset type: %s (%s)", asset.assetType, asset.assetName,
+			)
+		}
+
+		// Assets are installed into the directory where `alda` is, and nowhere else.
+		switch name := asset.assetName; {
+		case name == "." || name == ".." || name != filepath.Base(name):
+			return fmt.Errorf("unexpected asset name: %s", name)
+		}
 	}
 
+	return nil
+}
+
+// A stagedAsset is an asset that has been copied into the directory where it
+// is to be installed, but hasn't taken the place of the old version yet.
+type stagedAsset struct {
+	path       string // where it will be
+	stagedPath string // where it is
+	oldPath    string // where the old version is put, if there is one
+}
+
+// stageAsset copies an asset into the directory where `alda` is, and makes it
+// executable.
+func stageAsset(indir string, asset releaseAsset) (
+	staged stagedAsset, err error,
+) {
 	aldaPath, err := system.AldaExecutablePath()
 	if err != nil {
-		return err
+		return stagedAsset{}, err
 	}
 
 	outdir := filepath.Dir(aldaPath)
@@ -208,38 +234,11 @@ func installAsset(indir string, asset releaseAsset) error {
 		color.Aurora.Bold(fmt.Sprintf("Installing %s...", asset.assetName)),
 	)
 
-	// Naïvely, you would think we could simply replace `alda` with the new
-	// version that we downloaded. However, this doesn't always work, especially
-	// given that we're currently _running_ the old version in this very process.
-	//
-	// We're doing something safer here, following the advice here:
-	// https://stackoverflow.com/a/7198760/2338327
-	//
-	// (That StackOverflow question is specifically about Windows, but this is a
-	// safer method in general, and it works regardless of OS.)
-
 	inpath := filepath.Join(indir, asset.assetName)
-	outpath := filepath.Join(outdir, asset.assetName)
+	path := filepath.Join(outdir, asset.assetName)
 
-	oldRenamed := system.RenamedExecutable(outpath)
-
-	// Move the old (and probably currently running) executable, giving it a new
-	// name that also designates it as an old version to be cleaned up.
-	//
-	// NOTE: The Alda CLI checks for the existence of these old executable
-	// versions and cleans them up on each run.
-	log.Debug().
-		Str("old-name", outpath).
-		Str("new-name", oldRenamed).
-		Msg("Renaming existing executable.")
-
-	err = os.Rename(outpath, oldRenamed)
-	if err != nil && !errors.Is(err, os.ErrNotExist) {
-		return err
-	}
-
-	// Now that we've moved the existing executable, we create a new one at the
-	// same location and copy the new version into it.
+	oldRenamed := system.RenamedExecutable(path)
+	outpath := strings.TrimSuffix(oldRenamed, ".old") + ".new"
 
 	log.Debug().
 		Str("source", inpath).
@@ -247,7 +246,7 @@ func installAsset(indir string, asset releaseAsset) error {
 
 	in, err := os.Open(inpath)
 	if err != nil {
-		return err
+		return stagedAsset{}, err
 	}
 	defer in.Close()
 
@@ -257,14 +256,20 @@ func installAsset(indir string, asset releaseAsset) error {
 
 	out, err := os.Create(outpath)
 	if err != nil {
-		return err
+		return stagedAsset{}, err
 	}
 	defer out.Close()
 
+	defer func() {
+		if err != nil {
+			_ = os.Remove(outpath)
+		}
+	}()
+
 	log.Debug().Msg("Copying file.")
 
 	if _, err := io.Copy(out, in); err != nil {
-		return err
+		return stagedAsset{}, err
 	}
 
 	if runtime.GOOS != "windows" {
@@ -281,7 +286,7 @@ func installAsset(indir string, asset releaseAsset) error {
 		// operand.
 		fileInfo, err := out.Stat()
 		if err != nil {
-			return err
+			return stagedAsset{}, err
 		}
 		perms := fileInfo.Mode().Perm()
 
@@ -291,12 +296,12 @@ func installAsset(indir string, asset releaseAsset) error {
 			Msg("Before making file executable")
 
 		if err := os.Chmod(outpath, perms|0111); err != nil {
-			return err
+			return stagedAsset{}, err
 		}
 
 		fileInfo, err = out.Stat()
 		if err != nil {
-			return err
+			return stagedAsset{}, err
 		}
 		perms = fileInfo.Mode().Perm()
 
@@ -306,10 +311,73 @@ func installAsset(indir string, asset releaseAsset) error {
 			Msg("After making file executable")
 	}
 
+	return stagedAsset{
+		path:       path,
+		stagedPath: outpath,
+		oldPath:    oldRenamed,
+	}, nil
+}
+
+// install replaces the old version (if there is one) with the new version.
+func (asset stagedAsset) install() error {
+	// Naïvely, you would think we could simply replace `alda` with the new
+	// version that we downloaded. However, this doesn't always work, especially
+	// given that we're currently _running_ the old version in this very process.
+	//
+	// We're doing something safer here, following the advice here:
+	// https://stackoverflow.com/a/7198760/2338327
+	//
+	// (That StackOverflow question is specifically about Windows, but this is a
+	// safer method in general, and it works regardless of OS.)
+
+	// Move the old (and probably currently running) executable, giving it a new
+	// name that also designates it as an old version to be cleaned up.
+	//
+	// NOTE: The Alda CLI checks for the existence of these old executable
+	// versions and cleans them up on each run.
+	log.Debug().
+		Str("old-name", asset.path).
+		Str("new-name", asset.oldPath).
+		Msg("Renaming existing executable.")
+
+	err := os.Rename(asset.path, asset.oldPath)
+	if err != nil && !errors.Is(err, os.ErrNotExist) {
+		return err
+	}
+
+	// Now that we've moved the existing executable, the new version can take its
+	// place.
+	if err := os.Rename(asset.stagedPath, asset.path); err != nil {
+		asset.restore()
+		return err
+	}
+
 	return nil
 }
 
+// restore puts the old version (if there is one) back in its place.
+func (asset stagedAsset) restore() {
+	err := os.Rename(asset.oldPath, asset.path)
+	if errors.Is(err, os.ErrNotExist) {
+		err = os.Remove(asset.path)
+	}
+
+	if err != nil && !errors.Is(err, os.ErrNotExist) {
+		log.Error().
+			Err(err).
+			Str("old-name", asset.oldPath).
+			Str("new-name", asset.path).
+			Msg("Failed to restore executable.")
+	}
+}
+
+// downloadAndInstallAssets either installs all of the assets or, if something
+// goes wrong, none of them.
 func downloadAndInstallAssets(assets []releaseAsset) error {
+	if err := checkAssets(assets); err != nil {
+		return err
+	}
+
 	assetsDir, err := downloadAssets(assets)
 	if err != nil {
 		return err
@@ -318,9 +386,27 @@ func downloadAndInstallAssets(assets []releaseAsset) error {
 	// we're ignoring the error here.)
 	defer func() { _ = os.RemoveAll(assetsDir) }()
 
+	stagedAssets := []stagedAsset{}
+	defer func() {
+		for _, staged := range stagedAssets {
+			_ = os.Remove(staged.stagedPath)
+		}
+	}()
+
 	for _, asset := range assets {
 		fmt.Println()
-		if err := installAsset(assetsDir, asset); err != nil {
+		staged, err := stageAsset(assetsDir, asset)
+		if err != nil {
+			return err
+		}
+		stagedAssets = append(stagedAssets, staged)
+	}
+
+	for i, staged := range stagedAssets {
+		if err := staged.install(); err != nil {
+			for _, installed := range stagedAssets[:i] {
+				installed.restore()
+			}
 			return err
 		}
 	}
-- 
2.43.0


From c10aaa44ad38ad1cc3059e9467946104eff82d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:28 +0000
Subject: [PATCH 77/81] fix: a player that the REPL server has shut down isn't
 offered again while it exits

---
 client/repl/player_management.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/client/repl/player_management.go b/client/repl/player_management.go
index d43aa93..160ce29 100644
--- a/client/repl/player_management.go
+++ b/client/repl/player_management.go
@@ -220,6 +220,8 @@ func (server *Server) managePlayers() {
 }
 
 func (server *Server) shutdownPlayer() error {
+	player := server.currentPlayer()
+
 	if err := server.withTransmitter(
 		func(transmitter transmitter.OSCTransmitter) error {
 			return transmitter.TransmitShutdownMessage(0)
@@ -228,6 +230,17 @@ func (server *Server) shutdownPlayer() error {
 		return err
 	}
 
+	// The player process deletes its own state file as it exits, but that can take
+	// a moment. If the player was still in the "ready" state, it would be offered
+	// as an available player process in the meantime, so we make sure that it
+	// isn't listed anymore.
+	if err := system.DeletePlayerStateFile(player.ID); err != nil {
+		log.Warn().
+			Err(err).
+			Interface("player", player).
+			Msg("Failed to delete player state file.")
+	}
+
 	// Now we un-set the player so that we don't accidentally keep trying to use
 	// the same player process while it's in the process of shutting down. (This
 	// might also speed up the process of the `managePlayers` loop discovering
-- 
2.43.0


From 16448b4a99d07ff861c6f1518b21f3a0c3259011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:20 +0000
Subject: [PATCH 78/81] fix: alda repl ends when it is interrupted or
 terminated, instead of serving on unlisted

---
 client/cmd/repl.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client/cmd/repl.go b/client/cmd/repl.go
index 12598c3..749e848 100644
--- a/client/cmd/repl.go
+++ b/client/cmd/repl.go
@@ -186,6 +186,7 @@ Examples:
 				go func() {
 					<-signals
 					server.Close()
+					os.Exit(0)
 				}()
 			} else {
 				<-signals
-- 
2.43.0


From c9e617beb61b96a5a34e5b120d6f107a54eba8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:33 +0000
Subject: [PATCH 79/81] fix: a REPL server that ends leaves the port file of
 another server alone

---
 client/repl/server.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/client/repl/server.go b/client/repl/server.go
index af1aa48..56f2ade 100644
--- a/client/repl/server.go
+++ b/client/repl/server.go
@@ -247,8 +247,13 @@ func (server *Server) manageStateFile() {
 	}
 }
 
+// Another server might have been started in the same directory since then, in
+// which case the file says how to reach that one.
 func (server *Server) removePortFile() {
-	os.Remove(nREPLPortFile)
+	contents, err := os.ReadFile(nREPLPortFile)
+	if err == nil && string(contents) == strconv.Itoa(server.Port) {
+		os.Remove(nREPLPortFile)
+	}
 }
 
 func (server *Server) removeStateFile() {
-- 
2.43.0


From 0de1c9f1cede55e00eb3afa87e56e98cb19bc182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:38 +0000
Subject: [PATCH 80/81] fix: a REPL server whose state file was cleaned up
 writes it anew

---
 client/repl/server.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/client/repl/server.go b/client/repl/server.go
index 56f2ade..0e7ea9b 100644
--- a/client/repl/server.go
+++ b/client/repl/server.go
@@ -227,7 +227,16 @@ func (server *Server) writeStateFile() {
 func (server *Server) touchStateFile() {
 	now := time.Now()
 
-	if err := os.Chtimes(server.stateFile(), now, now); err != nil {
+	err := os.Chtimes(server.stateFile(), now, now)
+
+	// The file is gone if it was considered stale, e.g. because the computer was
+	// asleep for a while.
+	if os.IsNotExist(err) {
+		server.writeStateFile()
+		return
+	}
+
+	if err != nil {
 		log.Warn().
 			Err(err).
 			Msg("Failed to touch REPL server state file.")
-- 
2.43.0


From 5cc9bdcd0162661df60ccfc1f5546ad7380ca173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:31 +0000
Subject: [PATCH 81/81] fix: don't start the missing players twice when a REPL
 server starts

---
 client/repl/player_management.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/client/repl/player_management.go b/client/repl/player_management.go
index 160ce29..e97c08e 100644
--- a/client/repl/player_management.go
+++ b/client/repl/player_management.go
@@ -140,7 +140,10 @@ func (server *Server) unsetPlayer() {
 //     the server is responsible for recovering by switching to use another
 //     player process.
 func (server *Server) managePlayers() {
-	playerPoolLastFilled := time.Unix(0, 0)
+	// The player pool is already being filled by the command that started the
+	// server. If we filled it here at the same time, both would start the players
+	// that are missing.
+	playerPoolLastFilled := time.Now()
 	lastPing := time.Unix(0, 0)
 
 	for {
-- 
2.43.0

