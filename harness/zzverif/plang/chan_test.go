package plang

import (
	"fmt"
	"math"
	"strings"

	"alda.io/client/model"
	"alda.io/client/zzverif/lang"
	"alda.io/client/zzverif/vp"
	"pgregory.net/rapid"
)

type channelled struct {
	lang.NoteOut
	ch int
}

func channels(s *model.Score) ([]channelled, error) {
	ns, err := lang.Notes(s)
	if err != nil {
		return nil, err
	}
	out := []channelled{}
	for i, n := range ns {
		out = append(out, channelled{n, int(s.Events[i].(model.NoteEvent).MidiChannel)})
	}
	return out, nil
}

// overlap tells for how long two notes sound together.
func overlap(a, b lang.NoteOut) float64 {
	return math.Min(a.Off+a.Aud, b.Off+b.Aud) - math.Max(a.Off, b.Off)
}

func channelCheck(c Case, r *vp.R) error {
	text := render(c.E, c.Lay)
	r.Sample(text)
	ref, refErr, ok := judge(c, r)
	if !ok {
		return nil
	}
	g := lang.Eval(text)
	if g.ParseErr != nil {
		return fmt.Errorf("rejected: %v", g.ParseErr)
	}
	got, err := channels(g.Score)
	if err != nil {
		return err
	}
	perc := func(i int) bool { return ref.Insts[i].Perc }
	shared := false
	for i, a := range got {
		if a.ch < 0 || a.ch > 15 {
			return fmt.Errorf("note %d has channel %d", i, a.ch)
		}
		if a.Inst < len(ref.Insts) && perc(a.Inst) != (a.ch == 9) {
			return fmt.Errorf("note %d of %s has channel %d", i, ref.Insts[a.Inst].Name, a.ch)
		}
		for j, b := range got[:i] {
			if a.Inst == b.Inst || a.ch != b.ch || a.ch == 9 {
				continue
			}
			shared = true
			if overlap(a.NoteOut, b.NoteOut) > 1e-6 {
				return fmt.Errorf("notes %d and %d of parts %d and %d are both on channel %d:\n%s\n%s", i, j, a.Inst, b.Inst, a.ch, lang.ShowNote(a.NoteOut), lang.ShowNote(b.NoteOut))
			}
		}
	}
	if shared {
		r.Label("channel shared")
		r.NonTrivial()
	}
	// the notes in the order of each part
	per := map[int][]channelled{}
	for _, a := range got {
		per[a.Inst] = append(per[a.Inst], a)
	}
	seen := map[int]int{}
	var failed []lang.NoteOut
	for _, n := range ref.Notes {
		k := seen[n.Inst]
		if k >= len(per[n.Inst]) {
			if len(failed) == 0 || failed[0].Ev == n.Ev {
				failed = append(failed, n)
			}
			continue
		}
		seen[n.Inst]++
		if n.Chan >= 0 && !perc(n.Inst) {
			r.Label("explicit channel")
			r.NonTrivial()
			if ch := per[n.Inst][k].ch; ch != n.Chan {
				return fmt.Errorf("note %d of part %d is on channel %d, but channel %d was asked for", k, n.Inst, ch, n.Chan)
			}
		}
	}
	if refErr != nil {
		if g.EvalErr == nil {
			return fmt.Errorf("accepted, but must be rejected (%v)", refErr)
		}
		return nil
	}
	if g.EvalErr == nil {
		return lang.Check(ref, nil, g)
	}
	r.Label("rejected for lack of a channel")
	r.NonTrivial()
	if len(failed) == 0 {
		return fmt.Errorf("rejected, though all notes have channels: %v", g.EvalErr)
	}
	why := ""
	for _, f := range failed {
		if perc(f.Inst) {
			continue
		}
		taken := map[int]bool{}
		for _, a := range got {
			if a.Inst != f.Inst && overlap(a.NoteOut, f) > -1e-6 {
				taken[a.ch] = true
			}
		}
		free := []int{}
		for ch := 0; ch < 16; ch++ {
			if ch == 9 || taken[ch] || f.Chan >= 0 && f.Chan != ch {
				continue
			}
			free = append(free, ch)
		}
		if len(free) == 0 {
			return nil
		}
		why = fmt.Sprintf("channels %v are free for %s", free, lang.ShowNote(f))
	}
	return fmt.Errorf("rejected (%v), but %s", g.EvalErr, why)
}

// Wild is a text to evaluate.
type Wild struct{ S string }

var wildNums = []string{"0", "1", "4", "0.5", "0.001", "1000000", "99999999999999999999", "0.0000000001", "128", "-1", "255", "1e9", strings.Repeat("9", 307), strings.Repeat("9", 309), "0." + strings.Repeat("0", 306) + "1", "0." + strings.Repeat("0", 330) + "1"}

func genWild(t *rapid.T) Wild {
	n := func(lo, hi int) int { return rapid.IntRange(lo, hi).Draw(t, "n") }
	switch n(0, 3) {
	case 0: // events of any kind in any order
		return Wild{render(lang.GenTree(t, 22), layout(t))}
	case 1: // a sound score with something odd in it
		p := lang.Base()
		p.Ms = true
		e := wide(t, lang.GenAny(t, p))
		lang.Walk(e, func(x *lang.Ev, d int) {
			if x.K == "(" && n(0, 5) == 0 {
				x.X = genBadAttr(t).X
			}
			if len(x.D) > 0 && n(0, 12) == 0 {
				x.D[0].V = rapid.SampledFrom([]string{"0", "0.001", "1000", "99999", "0.5"}).Draw(t, "v")
			}
		})
		return Wild{render(e, layout(t))}
	case 2: // an odd token in a sound score
		return Wild{genSoup(t).S}
	}
	var b strings.Builder
	b.WriteString("piano: ")
	for _, k := range rapid.SliceOfN(rapid.SampledFrom([]string{"c", "d4", "e8.", "f+", "g~8", "r", "r2", "o4", "o0", "o9", ">", "<", "|", "[c d]*3", "[c '1 d]*2", "[[c]*2 d]*2", "{c d}4",
		"{}4", "{r}", "{o5}4", "{{c d} e}2", "{c {d}0.5}", "{c4 d500ms}", "c/e/g", "c1/r4", "c/>e", "V1:", "V2:", "V0:", "%m", "@m", "%n", "@n", "violin:", "piano:", "piano/violin:", "midi-percussion:", "x = c d", "x",
		"y = x x", "y", "(tempo 0.5)", "(tempo 999999)", "(tempo! 7)", "(vol 0)", "(vol! 100)", "(quant 0)", "(quant 10000)", "(pan 100)", "(octave -3)", "(octave 100)", "(octave! 'up)",
		"(transpose 60)", "(transpose! -60)", "(set-duration 0.0001)", "(set-duration-ms 10000)", "(metric-modulation 1 64)", "(key-sig \"c+++++ f-----\")", "(midi-channel 3)", "(midi-channel 9)", "(midi-channel! 4)",
		"(note (midi-note 60))", "(pause (ms 100))", "(slur (note (pitch '(c))))", "(list 1 2)", "(ms 3)", "c*0", "[c]*0", "c0.0001", "c100000000", "c1ms", "c0.1ms", "c99999s", "{c}99999", "{%z c}4", "{V1: c V2: d e V0:}2", "{@m c}",
		"c~4~~8", "c~|4", "[V1: c V2: d]*2", "[V1: c V2: d", "V3: c]", "{c}", "{[c d]*2}4", "'1 c", "[c]'2*3"}), 1, 16).Draw(t, "toks") {
		b.WriteString(k)
		b.WriteByte(' ')
	}
	s := b.String()
	if n(0, 6) == 0 {
		at := strings.Index(s[7:], rapid.SampledFrom([]string{"4", "1", "0", "2", "10"}).Draw(t, "digit"))
		if at >= 0 {
			s = s[:7+at] + rapid.SampledFrom(wildNums).Draw(t, "num") + s[8+at:]
		}
	}
	return Wild{s}
}

func sane(s *model.Score) error {
	for i, e := range s.Events {
		n, ok := e.(model.NoteEvent)
		if !ok {
			return fmt.Errorf("event %d is a %T", i, e)
		}
		if n.MidiNote < 0 || n.MidiNote > 127 || n.MidiChannel < 0 || n.MidiChannel > 15 {
			return fmt.Errorf("note %d has pitch %d on channel %d", i, n.MidiNote, n.MidiChannel)
		}
		for _, f := range []float64{n.Offset, n.Duration, n.AudibleDuration} {
			if math.IsNaN(f) || math.IsInf(f, 0) || f < 0 {
				return fmt.Errorf("note %d starts at %v, lasts %v, sounds for %v", i, n.Offset, n.Duration, n.AudibleDuration)
			}
		}
		for _, f := range []float64{n.Volume, n.TrackVolume, n.Panning} {
			if !(f >= 0 && f <= 1) {
				return fmt.Errorf("note %d has volume %v, track volume %v, panning %v", i, n.Volume, n.TrackVolume, n.Panning)
			}
		}
	}
	return nil
}

// heavy tells whether a text asks for a great many notes.
func heavy(s string) bool {
	prod, num, in, star := 1.0, 0.0, false, false
	for i := 0; i <= len(s); i++ {
		ch := byte(' ')
		if i < len(s) {
			ch = s[i]
		}
		if ch == '*' {
			star = true
			continue
		}
		if star && ch >= '0' && ch <= '9' {
			num, in = num*10+float64(ch-'0'), true
			continue
		}
		if in {
			prod *= math.Max(1, num)
			num, in, star = 0, false, false
		} else if ch != ' ' {
			star = false
		}
	}
	return prod > 20000
}

func init() {
	vp.Add("P18", "auto", 3000, 150000, func(t *rapid.T) Case { return Case{E: lang.GenBand(t, false)} }, channelCheck)
	vp.Add("P18", "explicit", 4000, 200000, func(t *rapid.T) Case { return Case{E: lang.GenBand(t, true)} }, channelCheck)

	vp.Add("P19", "wild", 10000, 600000, genWild, func(c Wild, r *vp.R) error {
		r.Sample(c.S)
		if heavy(c.S) {
			r.Label("too many repeats")
			return nil
		}
		g := lang.Eval(c.S)
		if g.ParseErr != nil {
			r.Label("does not parse")
			return nil
		}
		if err := sane(g.Score); err != nil {
			return err
		}
		if g.EvalErr != nil {
			r.Label("rejected")
			r.NonTrivial()
			line, col, ok := position(g.EvalErr)
			if !ok || line < 1 || col < 1 || !inside(c.S, line, col) {
				return fmt.Errorf("rejected at %d:%d (%v): %v", line, col, ok, g.EvalErr)
			}
		} else {
			r.Label("accepted")
			if len(g.Score.Events) > 0 {
				r.NonTrivial()
			}
		}
		h := lang.Eval(c.S)
		if (h.EvalErr == nil) != (g.EvalErr == nil) || g.EvalErr != nil && g.EvalErr.Error() != h.EvalErr.Error() {
			return fmt.Errorf("the same text gives %v, and then %v", g.EvalErr, h.EvalErr)
		}
		if len(g.Score.Events) != len(h.Score.Events) {
			return fmt.Errorf("the same text gives %d notes, and then %d", len(g.Score.Events), len(h.Score.Events))
		}
		a, err := channels(g.Score)
		if err != nil {
			return err
		}
		b, err := channels(h.Score)
		if err != nil {
			return err
		}
		for i := range a {
			a[i].Ev, b[i].Ev = nil, nil
			if a[i] != b[i] {
				return fmt.Errorf("note %d differs when evaluating the same text again: %v, %v", i, a[i], b[i])
			}
		}
		return nil
	})
}
