package lang

import (
	"errors"
	"fmt"
	"math"
	"sort"

	"alda.io/client/logging"
	"alda.io/client/model"
	"alda.io/client/parser"
)

func init() { logging.SetGlobalLevel("error") }

// Got is what alda made of a text.
type Got struct {
	Ups      []model.ScoreUpdate
	ParseErr error
	Score    *model.Score
	EvalErr  error
}

// Eval parses and evaluates a text with alda.
func Eval(text string) *Got {
	g := &Got{}
	node, err := parser.ParseString(text)
	if err != nil {
		g.ParseErr = err
		return g
	}
	g.Ups, err = node.Updates()
	if err != nil {
		g.ParseErr = err
		return g
	}
	g.Score = model.NewScore()
	g.EvalErr = g.Score.Update(g.Ups...)
	return g
}

// Err is the error that ended the evaluation, if any.
func (g *Got) Err() error {
	if g.ParseErr != nil {
		return g.ParseErr
	}
	return g.EvalErr
}

// Notes lists the notes of a score; Inst is the index of the part.
func Notes(s *model.Score) ([]NoteOut, error) {
	tracks := s.Tracks()
	out := []NoteOut{}
	for _, e := range s.Events {
		n, ok := e.(model.NoteEvent)
		if !ok {
			return nil, fmt.Errorf("unexpected event %T", e)
		}
		t, ok := tracks[n.Part]
		if !ok {
			return nil, fmt.Errorf("note of a part without a track")
		}
		out = append(out, NoteOut{Inst: int(t) - 1, Off: n.Offset, Dur: n.Duration, Aud: n.AudibleDuration,
			Pitch: int(n.MidiNote), Vol: n.Volume, TVol: n.TrackVolume, Pan: n.Panning})
	}
	return out, nil
}

// SameNotes compares two multisets of notes, part by part.
func SameNotes(want, got []NoteOut) error { return sameNotes(want, got, nil) }

// SameNotesBut compares notes, ignoring the given qualities.
func SameNotesBut(want, got []NoteOut, ignore string) error {
	ig := map[rune]bool{}
	for _, c := range ignore {
		ig[c] = true
	}
	return sameNotes(want, got, ig)
}

func sameNotes(want, got []NoteOut, ig map[rune]bool) error {
	eq := func(a, b NoteOut) bool {
		return a.Inst == b.Inst && (ig['p'] || a.Pitch == b.Pitch) && Near(a.Off, b.Off) && Near(a.Dur, b.Dur) &&
			(ig['a'] || Near(a.Aud, b.Aud)) && (ig['v'] || Near(a.Vol, b.Vol)) && (ig['v'] || Near(a.TVol, b.TVol)) &&
			(ig['v'] || Near(a.Pan, b.Pan))
	}
	used := make([]bool, len(got))
	lo := 0
	var missing *NoteOut
	for i := range want {
		found := false
		for lo < len(got) && used[lo] {
			lo++
		}
		for j := lo; j < len(got); j++ {
			if !used[j] && eq(want[i], got[j]) {
				used[j] = true
				found = true
				break
			}
		}
		if !found {
			missing = &want[i]
			break
		}
	}
	if missing == nil && len(want) == len(got) {
		return nil
	}
	msg := fmt.Sprintf("%d notes expected, %d notes made", len(want), len(got))
	if missing != nil {
		// The nearest note that is not expected helps to understand the failure.
		var best *NoteOut
		for j := range got {
			if used[j] {
				continue
			}
			if best == nil || dist(*missing, got[j]) < dist(*missing, *best) {
				best = &got[j]
			}
		}
		msg += "; no note like " + ShowNote(*missing)
		if best != nil {
			msg += "; unexpected " + ShowNote(*best)
		}
	} else {
		for j := range got {
			if !used[j] {
				msg += "; unexpected " + ShowNote(got[j])
				break
			}
		}
	}
	return errors.New(msg)
}

func dist(a, b NoteOut) float64 {
	d := math.Abs(a.Off - b.Off)
	if a.Inst != b.Inst {
		d += 1e9
	}
	if a.Pitch != b.Pitch {
		d += 100
	}
	return d
}

// ShowNote is a note in readable form.
func ShowNote(n NoteOut) string {
	return fmt.Sprintf("{part %d at %.4f ms, length %.4f, sounding %.4f, pitch %d, volume %.4f, track volume %.4f, panning %.4f}",
		n.Inst, n.Off, n.Dur, n.Aud, n.Pitch, n.Vol, n.TVol, n.Pan)
}

// KeyMap turns a key signature into semitones per letter.
func KeyMap(k model.KeySignature) map[string]int {
	out := map[string]int{}
	for l, as := range k {
		n := 0
		for _, a := range as {
			switch a {
			case model.Sharp:
				n++
			case model.Flat:
				n--
			}
		}
		if n != 0 {
			out[letterOf(l)] = n
		}
	}
	return out
}

func sameKey(a, b map[string]int) bool {
	for l := range semis {
		if a[l] != b[l] {
			return false
		}
	}
	return true
}

// SameParts compares the parts and their final states. Parts with voices that
// were not joined are compared by name only.
func SameParts(ref *Score, s *model.Score) error {
	if len(ref.Insts) != len(s.Parts) {
		return fmt.Errorf("%d parts expected, %d parts made", len(ref.Insts), len(s.Parts))
	}
	for i, in := range ref.Insts {
		p := s.Parts[i]
		if p.Name != in.Name || p.StockInstrument.Name() != in.Stock {
			return fmt.Errorf("part %d: %s (%s) expected, %s (%s) made", i, in.Name, in.Stock, p.Name, p.StockInstrument.Name())
		}
		if in.OpenVoices() {
			continue
		}
		if err := SameState(in.PS, p); err != nil {
			return fmt.Errorf("part %d (%s): %v", i, in.Name, err)
		}
	}
	return nil
}

// SameState compares a part's state with the reference.
func SameState(w *PS, p *model.Part) error {
	num := func(what string, a, b float64) error {
		if !Near(a, b) {
			return fmt.Errorf("final %s is %v, expected %v", what, b, a)
		}
		return nil
	}
	for _, e := range []error{
		num("time", w.Off, p.CurrentOffset),
		num("octave", float64(w.Oct), float64(p.Octave)),
		num("tempo", w.Tempo, p.Tempo),
		num("volume", w.Vol, p.Volume),
		num("track volume", w.TVol, p.TrackVolume),
		num("panning", w.Pan, p.Panning),
		num("quantization", w.Quant, p.Quantization),
		num("transposition", float64(w.Tr), float64(p.Transposition)),
		num("reference pitch", w.Ref, p.ReferencePitch),
		num("default length", w.Dur.ms(w.Tempo), p.Duration.Ms(p.Tempo)),
	} {
		if e != nil {
			return e
		}
	}
	if !sameKey(w.Key, KeyMap(p.KeySignature)) {
		return fmt.Errorf("final key signature is %v, expected %v", p.KeySignature, w.Key)
	}
	return nil
}

// Current lists the indices of the parts being written, sorted.
func Current(s *model.Score) ([]int, error) {
	byID := map[string]int{}
	for i, p := range s.Parts {
		byID[p.ID()] = i
	}
	out := []int{}
	for _, p := range s.CurrentParts {
		i, ok := byID[p.ID()]
		if !ok {
			return nil, fmt.Errorf("a current part is not among the parts")
		}
		out = append(out, i)
	}
	sort.Ints(out)
	return out, nil
}

// CurrentIdx lists the indices of the reference's current instances, sorted.
func (s *Score) CurrentIdx() []int {
	out := []int{}
	for _, in := range s.Cur {
		out = append(out, in.Idx)
	}
	sort.Ints(out)
	return out
}

// Check compares what alda made of a text with the reference.
func Check(ref *Score, refErr error, g *Got) error {
	if g.ParseErr != nil {
		return fmt.Errorf("rejected: %v", g.ParseErr)
	}
	if refErr != nil {
		if g.EvalErr == nil {
			return fmt.Errorf("accepted, but must be rejected (%v)", refErr)
		}
		return nil
	}
	if g.EvalErr != nil {
		return fmt.Errorf("rejected: %v", g.EvalErr)
	}
	ns, err := Notes(g.Score)
	if err != nil {
		return err
	}
	if err := SameNotes(ref.Notes, ns); err != nil {
		return err
	}
	return SameParts(ref, g.Score)
}
