package plang

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"alda.io/client/model"
	"alda.io/client/zzverif/lang"
	"alda.io/client/zzverif/vp"
	"pgregory.net/rapid"
)

// Case is a score and the choices of its layout.
type Case struct {
	E   []*lang.Ev
	Lay []int `json:",omitempty"`
}

func layout(t *rapid.T) []int {
	return rapid.SliceOfN(rapid.IntRange(0, 255), 0, 12).Draw(t, "layout")
}

// judge evaluates a score with the reference; ok is false if the outcome is
// not judged.
func judge(c Case, r *vp.R) (ref *lang.Score, err error, ok bool) {
	lang.ResetCaptured()
	ref = lang.NewScore()
	err = ref.Run(c.E)
	if err == lang.ErrTooBig {
		r.Label("too big")
		return ref, err, false
	}
	if ref.Ambiguous {
		r.Label("not judged: rounding decides")
		return ref, err, false
	}
	for f := range ref.Facts {
		r.Label(f)
	}
	if err != nil {
		r.Label("to be rejected")
	}
	return ref, err, true
}

func diff(c Case, r *vp.R, nontrivial func(ref *lang.Score) bool) error {
	txt := lang.Render(c.E, c.Lay)
	r.Sample(txt.S)
	ref, err, ok := judge(c, r)
	if !ok {
		return nil
	}
	if nontrivial(ref) {
		r.NonTrivial()
	}
	g := lang.Eval(txt.S)
	if e := lang.Check(ref, err, g); e != nil {
		return fmt.Errorf("%v", e)
	}
	return nil
}

// differ registers a comparison of alda with the reference.
func differ(prop, name string, quick, thorough int, gen func(t *rapid.T) []*lang.Ev, nontrivial func(ref *lang.Score, c Case) bool) {
	vp.Add(prop, name, quick, thorough, func(t *rapid.T) Case {
		return Case{E: gen(t), Lay: layout(t)}
	}, func(c Case, r *vp.R) error {
		return diff(c, r, func(s *lang.Score) bool { return nontrivial(s, c) })
	})
}

func w(kv ...interface{}) map[string]int {
	m := map[string]int{}
	for i := 0; i < len(kv); i += 2 {
		m[kv[i].(string)] = kv[i+1].(int)
	}
	return m
}

func notes3(s *lang.Score, c Case) bool { return len(s.Notes) >= 3 }

func with(fact string) func(s *lang.Score, c Case) bool {
	return func(s *lang.Score, c Case) bool { return len(s.Notes) >= 3 && s.Facts[fact] > 0 }
}

// wide lets octaves and transpositions leave the keyboard.
func wide(t *rapid.T, evs []*lang.Ev) []*lang.Ev {
	n := 0
	lang.Walk(evs, func(e *lang.Ev, d int) {
		if e.K == "o" {
			n++
			if rapid.IntRange(0, 1).Draw(t, "wide") == 1 {
				e.N = rapid.IntRange(0, 10).Draw(t, "octave")
				if rapid.IntRange(0, 15).Draw(t, "far") == 15 {
					e.N = rapid.SampledFrom([]int{357913941, 357913946, 715827882, 2147483647, 178956970}).Draw(t, "octave")
				}
			}
		}
		if e.K == "(" && strings.HasPrefix(e.X.Kids[0].V, "transpos") && rapid.IntRange(0, 1).Draw(t, "wide") == 1 {
			e.X.Kids[1] = lang.Num(strconv.Itoa(rapid.IntRange(-70, 70).Draw(t, "semitones")))
		}
		if e.K == "(" && e.X.Kids[0].V == "octave" && rapid.IntRange(0, 1).Draw(t, "wide") == 1 {
			e.X.Kids[1] = lang.Num(strconv.Itoa(rapid.IntRange(-2, 11).Draw(t, "octave")))
		}
	})
	return evs
}

// Key is a tonic with a mode.
type Key struct {
	L, Mode string
	Acc     int
	O       int
	How     int
	Tr      int
}

var modeNames = []string{"major", "minor", "ionian", "dorian", "phrygian", "lydian", "mixolydian", "aeolian", "locrian"}

// Cut is a score of which only a part is kept or changed.
type Cut struct {
	Case
	At, B int
	X     *lang.Ev
}

func isOctave(e *lang.Ev) bool { return e.K == "<" || e.K == ">" || e.K == "o" }

// Par is a voice group between two passages.
type Par struct {
	Pre, Post []*lang.Ev
	V         [][]*lang.Ev
	Num       []int
	Lay       []int
}

func render(evs []*lang.Ev, lay []int) string { return lang.Render(evs, lay).S }

func evalOK(text string) (*lang.Got, error) {
	g := lang.Eval(text)
	if g.Err() != nil {
		return nil, fmt.Errorf("rejected: %v\n%s", g.Err(), text)
	}
	return g, nil
}

func init() {
	//
	// P07
	//
	timing := lang.Prof{N: 12, Blocks: 2, W: w("n", 30, "r", 10, "(", 10, "|", 4, "m", 2),
		Attrs: []string{"quant", "tempo", "set-duration", "set-note-length", "set-duration-ms", "metric"},
		Ms:    true, Slur: true, Bars: true}
	differ("P07", "timing", 8000, 400000, func(t *rapid.T) []*lang.Ev { return lang.Gen(t, timing) }, notes3)
	differ("P07", "all", 6000, 400000, func(t *rapid.T) []*lang.Ev { return lang.Gen(t, lang.Base()) }, notes3)
	differ("P07", "zero", 3000, 100000, func(t *rapid.T) []*lang.Ev {
		p := lang.Base().With("{", 12)
		p.Ms = true
		e := lang.Gen(t, p)
		at := []*lang.DC{}
		lang.Walk(e, func(x *lang.Ev, d int) {
			for i := range x.D {
				at = append(at, &x.D[i])
			}
			if strings.Contains("nr{", x.K) && len(x.D) == 0 && rapid.IntRange(0, 3).Draw(t, "add") == 3 {
				x.D = []lang.DC{{U: rapid.SampledFrom([]string{"n", "ms", "s"}).Draw(t, "unit"), V: "4"}}
				at = append(at, &x.D[0])
			}
		})
		if len(at) > 0 {
			d := at[rapid.IntRange(0, len(at)-1).Draw(t, "which")]
			d.V = rapid.SampledFrom([]string{"0", "0.0", "00"}).Draw(t, "zero")
		}
		return e
	}, func(s *lang.Score, c Case) bool { return lang.Count(c.E, "nr{") >= 3 })
	vp.Add("P07", "chain", 5000, 200000, func(t *rapid.T) Case {
		p := timing
		p.Blocks, p.N = 1, 16
		return Case{E: lang.Gen(t, p), Lay: layout(t)}
	}, func(c Case, r *vp.R) error {
		// Without the reference: in a part of notes and rests only, the next note
		// starts where the previous one ended, if no rest lies between them.
		text := render(c.E, c.Lay)
		r.Sample(text)
		g, err := evalOK(text)
		if err != nil {
			return err
		}
		k, rest, prevSlur := 0, false, false
		var prev *model.NoteEvent
		for _, e := range c.E {
			switch e.K {
			case "r":
				rest = true
			case "n":
				if k >= len(g.Score.Events) {
					return nil // quantized away
				}
				n := g.Score.Events[k].(model.NoteEvent)
				k++
				if n.Duration <= 0 || n.AudibleDuration <= 0 {
					return fmt.Errorf("a note of length %v sounds for %v", n.Duration, n.AudibleDuration)
				}
				if prev != nil {
					end := prev.Offset + prev.Duration
					if !rest && !lang.Near(end, n.Offset) {
						return fmt.Errorf("note %d starts at %v, but note %d ended at %v", k-1, n.Offset, k-2, end)
					}
					if rest && n.Offset <= end {
						return fmt.Errorf("note %d starts at %v, but it follows a rest after %v", k-1, n.Offset, end)
					}
				}
				if e.S && !lang.Near(n.AudibleDuration, n.Duration) {
					return fmt.Errorf("slurred note %d of length %v sounds for %v", k-1, n.Duration, n.AudibleDuration)
				}
				prev, rest, prevSlur = &n, false, e.S
			case "(":
				if strings.HasPrefix(e.X.Kids[0].V, "quant") && e.X.Kids[1].V == "0" {
					return nil // notes that do not sound are not listed
				}
			}
		}
		_ = prevSlur
		if k >= 3 {
			r.NonTrivial()
		}
		return nil
	})

	//
	// P08
	//
	pitchW := lang.Prof{N: 14, Blocks: 2, Depth: 1, W: w("n", 30, "m", 8, "o", 6, "(", 12, "c", 6, "[", 3),
		Attrs: []string{"key", "transpose", "octave", "ref-pitch", "key", "transpose"}}
	differ("P08", "pitches", 8000, 400000, func(t *rapid.T) []*lang.Ev { return lang.Gen(t, pitchW) },
		func(s *lang.Score, c Case) bool { return len(s.Notes) >= 3 && s.Facts["key-used"] > 0 })
	differ("P08", "range", 6000, 300000, func(t *rapid.T) []*lang.Ev {
		p := pitchW
		p.Blocks, p.N = 1, 8
		return wide(t, lang.GenAny(t, p))
	}, func(s *lang.Score, c Case) bool {
		for _, n := range s.Notes {
			if n.Pitch < 12 || n.Pitch > 115 {
				return true
			}
		}
		return false
	})
	vp.Add("P08", "keys", 3000, 60000, func(t *rapid.T) Key {
		return Key{L: rapid.SampledFrom([]string{"c", "d", "e", "f", "g", "a", "b"}).Draw(t, "l"),
			Mode: rapid.SampledFrom(modeNames).Draw(t, "m"), Acc: []int{-1, 0, 1, -2, 2, -3, 3}[rapid.IntRange(0, 6).Draw(t, "a")],
			O: rapid.IntRange(1, 6).Draw(t, "o"), How: rapid.IntRange(0, 2).Draw(t, "how"), Tr: rapid.IntRange(-12, 12).Draw(t, "tr")}
	}, func(c Key, r *vp.R) error {
		key := lang.KeyOf(c.L, c.Acc, c.Mode)
		acc := ""
		for i := 0; i < c.Acc; i++ {
			acc += " sharp"
		}
		for i := 0; i > c.Acc; i-- {
			acc += " flat"
		}
		sig := ""
		switch c.How {
		case 0:
			sig = fmt.Sprintf("'(%s%s %s)", c.L, acc, c.Mode)
		case 1:
			for _, l := range strings.Split("cdefgab", "") {
				if k := key[l]; k > 0 {
					sig += " " + l + strings.Repeat("+", k)
				} else if k < 0 {
					sig += " " + l + strings.Repeat("-", -k)
				}
			}
			sig = "\"" + strings.TrimSpace(sig) + "\""
		case 2:
			for _, l := range strings.Split("bagfedc", "") {
				if k := key[l]; k > 0 {
					sig += " " + l + " (" + strings.TrimSpace(strings.Repeat(" sharp", k)) + ")"
				} else if k < 0 {
					sig += " " + l + " (" + strings.TrimSpace(strings.Repeat(" flat", -k)) + ")"
				}
			}
			if sig == "" {
				return nil
			}
			sig = "'(" + strings.TrimSpace(sig) + ")"
		}
		if len(key) > 0 {
			r.NonTrivial()
		}
		// The scale is written from its tonic upwards, crossing an octave at c.
		text := fmt.Sprintf("piano: (key-signature %s) (transpose %d) o%d", sig, c.Tr, c.O)
		at := strings.Index("cdefgab", c.L)
		for i := 0; i < 8; i++ {
			if at+i == 7 {
				text += " >"
			}
			text += " " + string("cdefgab"[(at+i)%7])
		}
		r.Sample(text)
		g, err := evalOK(text)
		if err != nil {
			return err
		}
		ns, err := lang.Notes(g.Score)
		if err != nil || len(ns) != 8 {
			return fmt.Errorf("%d notes, %v", len(ns), err)
		}
		steps := map[string][]int{"major": {0, 2, 4, 5, 7, 9, 11}, "dorian": {0, 2, 3, 5, 7, 9, 10}, "phrygian": {0, 1, 3, 5, 7, 8, 10},
			"lydian": {0, 2, 4, 6, 7, 9, 11}, "mixolydian": {0, 2, 4, 5, 7, 9, 10}, "minor": {0, 2, 3, 5, 7, 8, 10}, "locrian": {0, 1, 3, 5, 6, 8, 10}}
		m := c.Mode
		switch m {
		case "ionian":
			m = "major"
		case "aeolian":
			m = "minor"
		}
		base := (c.O+1)*12 + map[string]int{"c": 0, "d": 2, "e": 4, "f": 5, "g": 7, "a": 9, "b": 11}[c.L] + c.Acc + c.Tr
		for i, n := range ns {
			want := base + 12
			if i < 7 {
				want = base + steps[m][i]
			}
			if n.Pitch != want {
				return fmt.Errorf("degree %d of %s%s %s is %d, but it must be %d", i+1, c.L, acc, c.Mode, n.Pitch, want)
			}
		}
		return nil
	})

	//
	// P09
	//
	chordW := lang.Prof{N: 10, Blocks: 2, Depth: 2, Multi: true, W: w("n", 14, "r", 5, "c", 30, "m", 3, "(", 5, "[", 3, "*", 4, "{", 4, "V", 2),
		Attrs: []string{"octave", "volume", "key", "transpose", "quant", "panning", "track-volume", "set-duration", "tempo"},
		Ms:    true, Slur: true, Reps: []int{1, 2, 3}, GlobalPct: 15, Globals: []string{"volume", "panning", "quant", "transpose"}}
	differ("P09", "diff", 8000, 400000, func(t *rapid.T) []*lang.Ev { return lang.Gen(t, chordW) }, with("chord"))
	vp.Add("P09", "together", 5000, 200000, func(t *rapid.T) Case {
		p := lang.Prof{N: 9, Blocks: 1, W: w("n", 10, "c", 30, "(", 4), Attrs: []string{"volume", "key", "panning", "octave"}, Ms: true, Slur: true}
		return Case{E: lang.Gen(t, p), Lay: layout(t)}
	}, func(c Case, r *vp.R) error {
		// Without the reference: all notes of a chord share their start, and the
		// next thing starts when the shortest one ends.
		text := render(c.E, c.Lay)
		r.Sample(text)
		g, err := evalOK(text)
		if err != nil {
			return err
		}
		ns, err := lang.Notes(g.Score)
		if err != nil {
			return err
		}
		k, chords := 0, 0
		end, known := 0.0, true
		for _, e := range c.E {
			members := []*lang.Ev{}
			rests := false
			switch e.K {
			case "n":
				members = append(members, e)
			case "c":
				for _, x := range e.E {
					if x.K == "n" {
						members = append(members, x)
					}
					rests = rests || x.K == "r"
				}
				chords++
			}
			if len(members) == 0 {
				if e.K == "c" {
					known = false
				}
				continue
			}
			if k+len(members) > len(ns) {
				return fmt.Errorf("%d notes made, more written", len(ns))
			}
			at, short := ns[k].Off, math.Inf(1)
			for _, n := range ns[k : k+len(members)] {
				if !lang.Near(n.Off, at) {
					return fmt.Errorf("notes of one chord start at %v and %v", at, n.Off)
				}
				short = math.Min(short, n.Dur)
			}
			k += len(members)
			if known && !lang.Near(at, end) {
				return fmt.Errorf("note %d starts at %v, but the note or chord before it ended at %v", k-1, at, end)
			}
			end, known = at+short, !rests
		}
		if chords >= 2 {
			r.NonTrivial()
		}
		return nil
	})

	//
	// P10
	//
	cramW := lang.Prof{N: 8, Blocks: 2, Depth: 3, Multi: true, W: w("n", 16, "r", 5, "{", 26, "c", 4, "m", 3, "(", 4, "[", 5, "*", 5, "'", 4, "v", 4, "=", 3, "V", 1, "o", 2),
		Attrs: []string{"tempo", "set-duration", "set-note-length", "octave", "volume", "quant", "transpose"},
		Ms:    true, Slur: true, Reps: []int{1, 2, 3}, Head: true}
	differ("P10", "diff", 8000, 400000, func(t *rapid.T) []*lang.Ev { return lang.Gen(t, cramW) }, with("cram"))
	vp.Add("P10", "scaled", 6000, 250000, func(t *rapid.T) Cut {
		p := lang.Prof{N: 6, Blocks: 1, Depth: 2, W: w("n", 24, "r", 5, "c", 5, "[", 4, "*", 3, "m", 3, "{", 6, "(", 3), Attrs: []string{"volume", "octave", "quant", "key"}, Ms: true, Slur: true, Reps: []int{1, 2, 3}}
		e := lang.Gen(t, p)
		p2 := lang.Prof{N: 1, Blocks: 1, W: w("n", 1)}
		d := lang.Gen(t, p2)
		dd := d[len(d)-1].D
		if dd == nil || rapid.IntRange(0, 2).Draw(t, "nodur") == 0 {
			dd = nil
		}
		return Cut{Case: Case{E: e, Lay: layout(t)}, X: &lang.Ev{K: "{", D: dd}, B: rapid.IntRange(40, 240).Draw(t, "tempo")}
	}, func(c Cut, r *vp.R) error {
		// The same events outside and inside a cram: all times scale alike.
		if len(c.E) < 2 || c.E[0].K != "p" {
			return nil
		}
		body := []*lang.Ev{}
		for _, e := range c.E[1:] {
			if e.K == "p" {
				return nil
			}
			body = append(body, e)
		}
		head := []*lang.Ev{c.E[0], lang.Call("tempo", lang.Num(strconv.Itoa(c.B)))}
		c.X.E = lang.Clone(body)
		plain := render(append(append([]*lang.Ev{}, head...), body...), c.Lay)
		cram := render(append(append([]*lang.Ev{}, head...), c.X, &lang.Ev{K: "o", N: 4}, &lang.Ev{K: "n", L: "c"}), c.Lay)
		r.Sample(cram)
		a, err := evalOK(plain)
		if err != nil {
			return err
		}
		total := a.Score.Parts[0].CurrentOffset
		if total <= 0 {
			return nil
		}
		b, err := evalOK(cram)
		if err != nil {
			return err
		}
		na, _ := lang.Notes(a.Score)
		nb, _ := lang.Notes(b.Score)
		beat := 60000 / float64(c.B)
		span := beat
		if c.X.D != nil {
			x := render([]*lang.Ev{head[0], head[1], {K: "r", D: c.X.D}}, nil)
			g, err := evalOK(x)
			if err != nil {
				return err
			}
			span = g.Score.Parts[0].CurrentOffset
		}
		if len(na) >= 2 {
			r.NonTrivial()
		}
		if len(nb) != len(na)+1 {
			if len(nb) == len(na) && b.Score.Parts[0].Quantization == 0 {
				return nil
			}
			return fmt.Errorf("%d notes in the cram, %d notes outside of it", len(nb)-1, len(na))
		}
		f := span / total
		for i, n := range na {
			m := nb[i]
			if !lang.Near(m.Off, n.Off*f) || !lang.Near(m.Dur, n.Dur*f) || !lang.Near(m.Aud, n.Aud*f) || m.Pitch != n.Pitch {
				return fmt.Errorf("cram of %v ms over %v ms: %s became %s", span, total, lang.ShowNote(n), lang.ShowNote(m))
			}
		}
		if last := nb[len(nb)-1]; !lang.Near(last.Off, span) || !lang.Near(last.Dur, span) {
			return fmt.Errorf("after a cram of %v ms, %s", span, lang.ShowNote(last))
		}
		return nil
	})

	//
	// P11
	//
	repW := lang.Prof{N: 7, Blocks: 2, Depth: 4, Multi: true, W: w("n", 20, "r", 3, "*", 18, "'", 22, "[", 6, "c", 4, "m", 3, "{", 3, "V", 3, "v", 4, "=", 4, "(", 4, "|", 2),
		Attrs: []string{"volume", "octave", "tempo", "transpose", "key"}, Bars: true, Reps: []int{1, 2, 0, 3, 4, 5, 12}, Slur: true, Head: true}
	differ("P11", "diff", 8000, 400000, func(t *rapid.T) []*lang.Ev { return lang.Gen(t, repW) },
		func(s *lang.Score, c Case) bool { return s.Facts["ending-played"] > 0 && s.Facts["ending-skipped"] > 0 })
	vp.Add("P11", "expand", 6000, 300000, func(t *rapid.T) Case {
		p := repW
		p = p.With("v", 0).With("=", 0)
		p.Head = false
		return Case{E: lang.Gen(t, p), Lay: layout(t)}
	}, func(c Case, r *vp.R) error {
		if s := lang.NewScore(); s.Run(c.E) != nil || s.Ambiguous {
			return nil
		}
		text := render(c.E, c.Lay)
		r.Sample(text)
		full := lang.Expand(c.E, 0)
		if lang.Has(c.E, "'") && lang.Has(c.E, "*") {
			r.NonTrivial()
		}
		a, err := evalOK(text)
		if err != nil {
			return err
		}
		b, err := evalOK(render(full, nil))
		if err != nil {
			return err
		}
		return lang.SameAldaNotes(a.Score, b.Score)
	})

	//
	// P12
	//
	varW := lang.Prof{N: 10, Blocks: 3, Depth: 3, Multi: true, W: w("n", 16, "r", 3, "=", 16, "v", 22, "[", 4, "*", 5, "'", 3, "c", 3, "m", 4, "{", 3, "(", 5, "V", 2, "o", 2),
		Attrs: []string{"volume", "octave", "tempo", "transpose", "key", "quant"}, GlobalPct: 10, Globals: []string{"volume", "panning", "quant"}, Reps: []int{1, 2, 3}, Slur: true, Head: true}
	used := func(s *lang.Score, c Case) bool { return s.Facts["var-used"] >= 2 }
	differ("P12", "diff", 8000, 400000, func(t *rapid.T) []*lang.Ev { return lang.Gen(t, varW) }, used)
	differ("P12", "undefined", 4000, 200000, func(t *rapid.T) []*lang.Ev {
		e := lang.GenAny(t, varW)
		uses := []*lang.Ev{}
		lang.Walk(e, func(x *lang.Ev, d int) {
			if x.K == "v" || x.K == "=" {
				uses = append(uses, x)
			}
		})
		if len(uses) > 0 {
			uses[rapid.IntRange(0, len(uses)-1).Draw(t, "which")].Nm = rapid.SampledFrom([]string{"nope", "theme", "riff", "bar2", "verse_1"}).Draw(t, "to")
		}
		return e
	}, func(s *lang.Score, c Case) bool { return lang.Has(c.E, "v") })
	vp.Add("P12", "substitute", 6000, 300000, func(t *rapid.T) Case {
		return Case{E: lang.Gen(t, varW), Lay: layout(t)}
	}, func(c Case, r *vp.R) error {
		lang.ResetCaptured()
		s := lang.NewScore()
		if s.Run(c.E) == lang.ErrTooBig || s.Ambiguous {
			return nil
		}
		text := render(c.E, c.Lay)
		r.Sample(text)
		if used(s, c) {
			r.NonTrivial()
		}
		a, err := evalOK(text)
		if err != nil {
			return err
		}
		b, err := evalOK(render(lang.Substitute(c.E, map[string][]*lang.Ev{}), nil))
		if err != nil {
			return err
		}
		return lang.SameAldaNotes(a.Score, b.Score)
	})

	//
	// P13
	//
	voiceW := lang.Prof{N: 8, Blocks: 3, Depth: 3, Multi: true, W: w("n", 20, "r", 5, "V", 18, "m", 4, "o", 3, "c", 3, "(", 6, "[", 4, "*", 5, "'", 3, "{", 3, "v", 3, "=", 2),
		Attrs: []string{"volume", "octave", "tempo", "transpose", "key", "quant", "panning", "set-duration", "metric", "track-volume"},
		Ms:    true, Slur: true, Reps: []int{1, 2, 3}, Head: true}
	differ("P13", "diff", 8000, 400000, func(t *rapid.T) []*lang.Ev { return lang.Gen(t, voiceW) }, with("voices-joined"))
	bandW := voiceW
	bandW.Band, bandW.Blocks, bandW.N, bandW.Depth = true, 7, 5, 1
	bandW = bandW.With("V", 30)
	differ("P13", "band", 5000, 250000, func(t *rapid.T) []*lang.Ev { return lang.Gen(t, bandW) }, with("voices-joined"))
	vp.Add("P13", "alone", 5000, 200000, func(t *rapid.T) Par {
		seg := func(n int) []*lang.Ev {
			p := lang.Prof{N: n, Blocks: 1, Depth: 2, W: w("n", 20, "r", 4, "m", 4, "o", 2, "c", 3, "(", 6, "[", 2, "*", 3, "{", 2),
				Attrs: []string{"volume", "tempo", "transpose", "key", "quant", "panning", "set-duration"}, Ms: true, Slur: true, Reps: []int{1, 2}, Names: []string{"piano"}}
			return lang.Gen(t, p)[1:]
		}
		c := Par{Pre: seg(4), Lay: layout(t)}
		for i := rapid.IntRange(2, 5).Draw(t, "voices"); i > 0; i-- {
			c.V = append(c.V, seg(4))
			c.Num = append(c.Num, rapid.IntRange(1, 4).Draw(t, "number"))
		}
		c.Post = seg(4)
		return c
	}, func(c Par, r *vp.R) error {
		// Each voice sounds as if it were the only one, and what follows is placed
		// after the longest.
		build := func(only int, post bool) []*lang.Ev {
			e := append([]*lang.Ev{{K: "p", Nms: []string{"piano"}}}, c.Pre...)
			for i, v := range c.V {
				if only == 0 || c.Num[i] == only {
					e = append(e, &lang.Ev{K: "V", N: c.Num[i]})
					e = append(e, v...)
				}
			}
			e = append(e, &lang.Ev{K: "V", N: 0})
			if post {
				e = append(e, &lang.Ev{K: "n", L: "c"})
			}
			return e
		}
		for _, n := range []int{0, 1, 2, 3, 4} {
			s := lang.NewScore()
			if err := s.Run(build(n, true)); err != nil {
				return nil
			}
		}
		text := render(build(0, true), c.Lay)
		r.Sample(text)
		all, err := evalOK(text)
		if err != nil {
			return err
		}
		pre, err := evalOK(render(append([]*lang.Ev{{K: "p", Nms: []string{"piano"}}}, c.Pre...), nil))
		if err != nil {
			return err
		}
		want, err := lang.Notes(pre.Score)
		if err != nil {
			return err
		}
		npre, end := len(want), 0.0
		seen := map[int]bool{}
		for _, n := range c.Num {
			if seen[n] {
				continue
			}
			seen[n] = true
			g, err := evalOK(render(build(n, false), nil))
			if err != nil {
				return err
			}
			ns, _ := lang.Notes(g.Score)
			want = append(want, ns[npre:]...)
			end = math.Max(end, g.Score.Parts[0].CurrentOffset)
		}
		got, _ := lang.Notes(all.Score)
		if len(seen) > 1 {
			r.NonTrivial()
		}
		// the note after the group
		if len(got) == len(want)+1 {
			last := got[len(got)-1]
			if !lang.Near(last.Off, end) {
				return fmt.Errorf("after voices that end at %v, %s", end, lang.ShowNote(last))
			}
			got = got[:len(got)-1]
		}
		return lang.SameNotes(want, got)
	})

	//
	// P14
	//
	few := []string{"piano", "violin", "cello", "midi-violin", "midi-percussion"}
	genDecls := func(t *rapid.T) []*lang.Ev {
		names := few
		if rapid.IntRange(0, 3).Draw(t, "names") == 0 {
			names = lang.Names
		}
		out := []*lang.Ev{}
		for _, d := range lang.Decls(t, rapid.IntRange(1, 12).Draw(t, "calls"), names) {
			out = append(out, d)
			if rapid.IntRange(0, 3).Draw(t, "attr") == 0 {
				out = append(out, lang.GenAttr(t, rapid.SampledFrom(lang.AllAttrs).Draw(t, "kind"), false))
			}
			for i := rapid.IntRange(0, 2).Draw(t, "notes"); i > 0; i-- {
				out = append(out, &lang.Ev{K: "n", L: rapid.SampledFrom([]string{"c", "d", "e"}).Draw(t, "l")})
			}
		}
		return out
	}
	vp.Add("P14", "calls", 6000, 300000, func(t *rapid.T) Case {
		return Case{E: genDecls(t)}
	}, func(c Case, r *vp.R) error {
		r.Sample(render(c.E, nil))
		calls := 0
		for i := 1; i <= len(c.E); i++ {
			if c.E[i-1].K == "p" {
				calls++
			} else if i < len(c.E) {
				continue
			}
			s := lang.NewScore()
			err := s.Run(c.E[:i])
			g := lang.Eval(render(c.E[:i], c.Lay))
			if i == len(c.E) {
				for f := range s.Facts {
					r.Label(f)
				}
				if err != nil {
					r.Label("to be rejected")
				}
			}
			if e := lang.Check(s, err, g); e != nil {
				return fmt.Errorf("after call %d: %v", calls, e)
			}
			if err != nil {
				break
			}
			cur, e := lang.Current(g.Score)
			if e != nil {
				return fmt.Errorf("after call %d: %v", calls, e)
			}
			if fmt.Sprint(cur) != fmt.Sprint(s.CurrentIdx()) {
				return fmt.Errorf("call %d selects parts %v, but it must select %v", calls, cur, s.CurrentIdx())
			}
		}
		if calls >= 3 {
			r.NonTrivial()
		}
		return nil
	})
	declW := lang.Base()
	declW.Blocks, declW.N, declW.GlobalPct = 7, 4, 0
	bandD := declW
	bandD.Band, bandD.Blocks, bandD.N = true, 8, 3
	differ("P14", "band", 4000, 200000, func(t *rapid.T) []*lang.Ev { return lang.Gen(t, bandD) },
		func(s *lang.Score, c Case) bool { return len(s.Insts) >= 2 && len(s.Notes) >= 4 })
	differ("P14", "music", 4000, 200000, func(t *rapid.T) []*lang.Ev { return lang.Gen(t, declW) },
		func(s *lang.Score, c Case) bool { return len(s.Insts) >= 2 && len(s.Notes) >= 4 })

	//
	// P15
	//
	attrW := lang.Prof{N: 12, Blocks: 3, Depth: 1, Multi: true, W: w("n", 24, "r", 2, "(", 24, "m", 4, "o", 3, "c", 4, "[", 2, "V", 2, "*", 2),
		Attrs: lang.AllAttrs, Slur: true, Reps: []int{2}}
	differ("P15", "diff", 8000, 400000, func(t *rapid.T) []*lang.Ev { return lang.Gen(t, attrW) }, func(s *lang.Score, c Case) bool {
		return len(s.Notes) >= 3 && lang.Count(c.E, "(") >= 2
	})
	vp.Add("P15", "invalid", 6000, 300000, func(t *rapid.T) Cut {
		return Cut{Case: Case{E: lang.Gen(t, attrW), Lay: layout(t)}, At: rapid.IntRange(0, 40).Draw(t, "at"), X: genBadAttr(t)}
	}, func(c Cut, r *vp.R) error {
		if _, err := lang.EvalLisp(c.X.X); err == nil {
			return nil
		}
		cut := 1 + c.At%len(c.E)
		pre, post := c.E[:cut], c.E[cut:]
		parseAll := func(evs []*lang.Ev) []model.ScoreUpdate {
			ups, _, err := parse(render(evs, nil))
			if err != nil {
				panic(err)
			}
			return ups
		}
		r.Sample(render(append(append(append([]*lang.Ev{}, pre...), c.X), post...), nil))
		bad, _, err := parse(render([]*lang.Ev{c.X}, nil))
		if err != nil {
			r.Label("rejected by the parser")
			return nil
		}
		a, b := model.NewScore(), model.NewScore()
		for _, s := range []*model.Score{a, b} {
			if err := s.Update(parseAll(pre)...); err != nil {
				return fmt.Errorf("rejected: %v", err)
			}
		}
		r.NonTrivial()
		r.Label(c.X.X.Kids[0].V)
		if err := b.Update(bad...); err == nil {
			return fmt.Errorf("%s is accepted", render([]*lang.Ev{c.X}, nil))
		}
		for _, s := range []*model.Score{a, b} {
			if err := s.Update(parseAll(post)...); err != nil {
				return fmt.Errorf("rejected: %v", err)
			}
		}
		if err := lang.SameAlda(a, b); err != nil {
			return fmt.Errorf("the rejected attribute had an effect: %v", err)
		}
		return nil
	})
	vp.Add("P15", "only", 5000, 250000, func(t *rapid.T) Cut {
		p := attrW
		p.Multi = false
		return Cut{Case: Case{E: lang.Gen(t, p), Lay: layout(t)}, At: rapid.IntRange(0, 40).Draw(t, "at"), X: lang.GenAttr(t, rapid.SampledFrom([]string{"volume", "dynamic", "track-volume", "panning", "transpose", "quant"}).Draw(t, "kind"), false)}
	}, func(c Cut, r *vp.R) error {
		// Inserting one attribute change leaves everything before it, every other
		// part, and every other quality as it was.
		cut := 1 + c.At%len(c.E)
		with := append(append(append([]*lang.Ev{}, c.E[:cut]...), c.X), c.E[cut:]...)
		pre, s1, s2 := lang.NewScore(), lang.NewScore(), lang.NewScore()
		if pre.Run(c.E[:cut]) != nil || s1.Run(c.E) != nil || s2.Run(with) != nil {
			return nil
		}
		text := render(with, c.Lay)
		r.Sample(text)
		a, err := evalOK(render(c.E, nil))
		if err != nil {
			return err
		}
		b, err := evalOK(text)
		if err != nil {
			return err
		}
		na, _ := lang.Notes(a.Score)
		nb, _ := lang.Notes(b.Score)
		kind := ""
		switch n := strings.TrimSuffix(c.X.X.Kids[0].V, "!"); {
		case strings.HasPrefix(n, "tra") && strings.Contains(n, "pos"):
			kind = "pitch"
		case strings.HasPrefix(n, "quant"):
			kind = "sounding"
		case strings.HasPrefix(n, "pan"):
			kind = "panning"
		case strings.HasPrefix(n, "track"):
			kind = "track volume"
		default:
			kind = "volume"
		}
		if kind == "sounding" {
			if c.X.X.Kids[1].V == "0" || len(na) != len(nb) {
				return nil
			}
		}
		if len(na) != len(nb) {
			return fmt.Errorf("%d notes became %d notes", len(na), len(nb))
		}
		// the part that is being written
		cur := pre.CurrentIdx()
		changed := 0
		for i := range na {
			x, y := na[i], nb[i]
			mine := false
			for _, k := range cur {
				mine = mine || k == x.Inst
			}
			same := func(what string, p, q float64) error {
				if lang.Near(p, q) {
					return nil
				}
				if what == kind && mine && i >= len(pre.Notes) {
					changed++
					return nil
				}
				return fmt.Errorf("%s changes the %s of note %d (part %d, %d notes before the change, written part %v) from %v to %v", render([]*lang.Ev{c.X}, nil), what, i, x.Inst, len(pre.Notes), cur, p, q)
			}
			for _, e := range []error{same("start", x.Off, y.Off), same("length", x.Dur, y.Dur), same("sounding", x.Aud, y.Aud),
				same("pitch", float64(x.Pitch), float64(y.Pitch)), same("volume", x.Vol, y.Vol), same("track volume", x.TVol, y.TVol),
				same("panning", x.Pan, y.Pan), same("part", float64(x.Inst), float64(y.Inst))} {
				if e != nil {
					return e
				}
			}
		}
		if changed > 0 {
			r.NonTrivial()
		}
		return nil
	})

	//
	// P16
	//
	globW := lang.Base().With("(", 24).With("%", 5).With("@", 5)
	globW.GlobalPct = 60
	globW.Blocks = 4
	globW.N = 6
	globW.Depth = 2
	globW.Globals = []string{"volume", "dynamic", "track-volume", "panning", "quant", "tempo", "set-duration", "set-note-length", "transpose", "key", "octave", "ref-pitch", "metric"}
	differ("P16", "diff", 10000, 500000, func(t *rapid.T) []*lang.Ev { return lang.Gen(t, globW) }, with("global-applied"))
	globS := lang.Prof{N: 8, Blocks: 4, Multi: true, W: w("n", 20, "r", 6, "(", 16, "%", 3, "@", 3, "c", 2, "V", 2), Depth: 1, GlobalPct: 50,
		Attrs: []string{"volume", "panning", "transpose", "quant", "octave", "tempo"}, Globals: []string{"volume", "panning", "transpose", "quant", "octave", "tempo"}, Names: []string{"piano", "violin", "cello"}}
	differ("P16", "override", 8000, 400000, func(t *rapid.T) []*lang.Ev { return lang.Gen(t, globS) }, with("override"))

	//
	// P17
	//
	markW := lang.Base().With("%", 14).With("@", 16).With("(", 4).With("V", 4)
	markW.Blocks, markW.N, markW.GlobalPct, markW.Depth = 4, 8, 4, 2
	markers := func(c Case, r *vp.R) error {
		text := render(c.E, c.Lay)
		r.Sample(text)
		ref, err, ok := judge(c, r)
		if !ok {
			return nil
		}
		if ref.Facts["jump"] > 0 && len(ref.Notes) > 2 || err != nil && strings.HasPrefix(err.Error(), "marker") {
			r.NonTrivial()
		}
		g := lang.Eval(text)
		if e := lang.Check(ref, err, g); e != nil || err != nil {
			return e
		}
		if len(ref.Markers) != len(g.Score.Markers) {
			return fmt.Errorf("markers %v expected, markers %v made", ref.Markers, g.Score.Markers)
		}
		for m, o := range ref.Markers {
			if p, ok := g.Score.Markers[m]; !ok || !lang.Near(p, o) {
				return fmt.Errorf("marker %s is at %v, expected at %v", m, p, o)
			}
		}
		return nil
	}
	vp.Add("P17", "diff", 8000, 400000, func(t *rapid.T) Case { return Case{E: lang.Gen(t, markW), Lay: layout(t)} }, markers)
	vp.Add("P17", "reject", 5000, 250000, func(t *rapid.T) Case {
		e := lang.GenAny(t, markW)
		lang.Walk(e, func(x *lang.Ev, d int) {
			if x.K == "@" && rapid.IntRange(0, 5).Draw(t, "other") == 0 {
				x.Nm = rapid.SampledFrom([]string{"nowhere", "verse", "m1", "chorus-2"}).Draw(t, "name")
			}
		})
		return Case{E: e, Lay: layout(t)}
	}, markers)
}
