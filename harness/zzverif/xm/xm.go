// Package xm compares what a player is told with the notes of a score.
package xm

import (
	"fmt"
	"math"
	"regexp"
	"strconv"

	"alda.io/client/model"
	"alda.io/client/zzverif/lang"
	"alda.io/client/zzverif/oscd"
)

// Want is a note which the messages have to carry.
type Want struct {
	Track, Pitch, Ch, Patch int
	Off, Dur, Aud           float64
	Vel, Vol, Pan           float64
}

func (n Want) String() string {
	return fmt.Sprintf("track %d channel %d at %g pitch %d length %g/%g velocity %g (patch %d, volume %g, panning %g)",
		n.Track, n.Ch, n.Off, n.Pitch, n.Dur, n.Aud, n.Vel, n.Patch, n.Vol, n.Pan)
}

// Wants lists the notes of a score.
func Wants(s *model.Score, tracks map[*model.Part]int32) ([]Want, error) {
	used := map[int32]bool{}
	for _, t := range tracks {
		if used[t] {
			return nil, fmt.Errorf("two parts have track %d", t)
		}
		used[t] = true
	}
	out := []Want{}
	for _, e := range s.Events {
		n, ok := e.(model.NoteEvent)
		if !ok {
			return nil, fmt.Errorf("event of type %T", e)
		}
		t, ok := tracks[n.Part]
		if !ok {
			return nil, fmt.Errorf("a note's part has no track")
		}
		patch, ok := lang.Program(n.Part.StockInstrument.Name())
		if !ok {
			patch = -1
		}
		out = append(out, Want{int(t), int(n.MidiNote), int(n.MidiChannel), patch, n.Offset, n.Duration, n.AudibleDuration,
			n.Volume * 127, n.TrackVolume * 127, n.Panning * 127})
	}
	return out, nil
}

// round says whether i is x rounded, whichever way halves go.
func round(x float64, i int) bool { return math.Abs(x-float64(i)) <= 0.5+1e-6 }

func fits(a Want, b oscd.Note) bool {
	return a.Track == b.Track && a.Pitch == b.Pitch && a.Ch == b.Chan && round(a.Off, b.Off) && round(a.Dur, b.Dur) &&
		round(a.Aud, b.Aud) && round(a.Vel, b.Vel) && round(a.Vol, b.Volume) && round(a.Pan, b.Panning) &&
		(a.Patch < 0 || a.Patch == b.Patch)
}

// Match finds a pairing of all the notes (Kuhn's algorithm).
func Match(ws []Want, ns []oscd.Note) error {
	of := make([]int, len(ns))
	for i := range of {
		of[i] = -1
	}
	var seen []bool
	var try func(i int) bool
	try = func(i int) bool {
		for j := range ns {
			if !seen[j] && fits(ws[i], ns[j]) {
				seen[j] = true
				if of[j] < 0 || try(of[j]) {
					of[j] = i
					return true
				}
			}
		}
		return false
	}
	for i := range ws {
		seen = make([]bool, len(ns))
		if !try(i) {
			near := ""
			for _, n := range ns {
				if n.Pitch == ws[i].Pitch && math.Abs(float64(n.Off)-ws[i].Off) < 2 {
					near += "\n  sent: " + n.String()
				}
			}
			return fmt.Errorf("%d notes are sent, %d are expected; no message for the note %v%s", len(ns), len(ws), ws[i], near)
		}
	}
	if len(ns) != len(ws) {
		for j := range ns {
			if of[j] < 0 {
				return fmt.Errorf("%d notes are sent, %d are expected; %v is sent but not in the score", len(ns), len(ws), ns[j])
			}
		}
	}
	return nil
}

// AudibleEnd is when the last note falls silent.
func AudibleEnd(ws []Want) float64 {
	e := 0.0
	for _, n := range ws {
		e = math.Max(e, n.Off+n.Aud)
	}
	return e
}

var timeRE = regexp.MustCompile(`\A([0-9]+):([0-9]+)\z`)

// Point is the oracle for a reference to a point in time. Whole minutes and
// seconds, or a marker.
func Point(ref string, markers map[string]float64) (float64, bool) {
	if m := timeRE.FindStringSubmatch(ref); m != nil {
		a, _ := strconv.ParseFloat(m[1], 64)
		b, _ := strconv.ParseFloat(m[2], 64)
		return a*60000 + b*1000, true
	}
	x, ok := markers[ref]
	return x, ok
}
