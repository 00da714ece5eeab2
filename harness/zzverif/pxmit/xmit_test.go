package pxmit

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"alda.io/client/model"
	"alda.io/client/transmitter"
	"alda.io/client/zzverif/lang"
	"alda.io/client/zzverif/oscd"
	"alda.io/client/zzverif/vp"
	"alda.io/client/zzverif/xm"
	"pgregory.net/rapid"
)

// Case is a score and how it is sent.
type Case struct {
	E        []*lang.Ev
	Lay      []int  `json:",omitempty"`
	From, To string `json:",omitempty"`
	Load     bool   `json:",omitempty"`
	OneOff   bool   `json:",omitempty"`
	At       int    `json:",omitempty"`
}

func layout(t *rapid.T) []int {
	return rapid.SliceOfN(rapid.IntRange(0, 255), 0, 8).Draw(t, "layout")
}

func w(kv ...interface{}) map[string]int {
	m := map[string]int{}
	for i := 0; i < len(kv); i += 2 {
		m[kv[i].(string)] = kv[i+1].(int)
	}
	return m
}

func options(c Case) []transmitter.TransmissionOption {
	o := []transmitter.TransmissionOption{}
	if c.From != "" {
		o = append(o, transmitter.TransmitFrom(c.From))
	}
	if c.To != "" {
		o = append(o, transmitter.TransmitTo(c.To))
	}
	if c.Load {
		o = append(o, transmitter.LoadOnly())
	}
	if c.OneOff {
		o = append(o, transmitter.OneOff())
	}
	return o
}

func send(s *model.Score, o ...transmitter.TransmissionOption) (*oscd.Plan, error) {
	b, err := transmitter.OSCTransmitter{Port: 1}.ScoreToOSCBundle(s, o...)
	if err != nil {
		return nil, err
	}
	raw, err := b.MarshalBinary()
	if err != nil {
		return nil, fmt.Errorf("the messages can't be encoded: %v", err)
	}
	ms, err := oscd.Decode(raw)
	if err != nil {
		return nil, err
	}
	return oscd.Read(ms)
}

func eval(c Case, r *vp.R) *model.Score {
	text := lang.Render(c.E, c.Lay).S
	r.Sample(strings.TrimSpace(text + fmt.Sprintf("   # from %q to %q", c.From, c.To)))
	g := lang.Eval(text)
	if g.Err() != nil {
		r.Label("rejected")
		return nil
	}
	for _, e := range g.Score.Events {
		if e.EventOffset() > 1e9 {
			r.Label("too long")
			return nil
		}
	}
	return g.Score
}

// actions checks what else the player is told.
func actions(p *oscd.Plan, c Case, end float64) error {
	exp := []string{}
	if !c.Load {
		exp = append(exp, "/system/play")
	}
	if c.OneOff {
		exp = append(exp, "/system/shutdown")
	}
	got := []string{}
	for _, a := range p.Actions {
		got = append(got, a.Addr)
		if a.Addr == "/system/shutdown" && float64(a.Arg.(int)) < end {
			return fmt.Errorf("the player is told to shut down at %v, the last note sounds until %g", a.Arg, end)
		}
	}
	if fmt.Sprint(exp) != fmt.Sprint(got) {
		return fmt.Errorf("actions %v, expected %v", got, exp)
	}
	return nil
}

// tempos is the reference's account of the tempo over time: the changes of the
// first part and the global ones, by time. Where several of them fall together
// the order is not defined, and until is the time up to which that lasts.
type change struct {
	off   float64
	tempo float64
	vague bool
}

func tempos(ref *lang.Score) []change {
	type one struct {
		off    float64
		local  bool
		metric bool
		v      float64
	}
	all := []one{}
	if len(ref.Insts) > 0 {
		for o, v := range ref.Insts[0].Final().TempoVals {
			all = append(all, one{o, true, false, v})
		}
	}
	for _, g := range ref.Globals() {
		switch g.Attr.Kind {
		case "tempo", "metric":
			all = append(all, one{g.Off, false, g.Attr.Kind == "metric", g.Attr.F})
		}
	}
	sort.SliceStable(all, func(i, j int) bool { return all[i].off < all[j].off })
	out := []change{{off: 0, tempo: 120}}
	cur, vague := 120.0, false
	for i := 0; i < len(all); {
		j := i
		locals, globals, metric := 0, 0, false
		for ; j < len(all) && lang.Near(all[j].off, all[i].off); j++ {
			if all[j].local {
				locals++
			} else {
				globals++
			}
			metric = metric || all[j].metric
			if all[j].metric {
				cur *= all[j].v
			} else {
				cur = all[j].v
			}
		}
		if locals > 0 && globals > 0 {
			vague = true
		} else if !metric {
			vague = false
		}
		out = append(out, change{all[i].off, cur, vague})
		i = j
	}
	return out
}

func init() {
	base := lang.Base()
	base.N, base.Blocks = 8, 3
	base.Ms = true
	base.Attrs = []string{"volume", "dynamic", "track-volume", "panning", "quant", "tempo", "transpose", "octave", "track-volume", "panning"}
	bandP := base
	bandP.Band = true

	scores := func(t *rapid.T) []*lang.Ev {
		switch rapid.IntRange(0, 3).Draw(t, "kind") {
		case 0:
			return lang.GenBand(t, rapid.Bool().Draw(t, "explicit"))
		case 1:
			return lang.Gen(t, bandP)
		}
		return lang.Gen(t, base)
	}

	//
	// P21
	//
	vp.Add("P21", "all", 5000, 300000, func(t *rapid.T) Case {
		return Case{E: scores(t), Lay: layout(t), Load: rapid.IntRange(0, 3).Draw(t, "load") == 3, OneOff: rapid.Bool().Draw(t, "oneoff")}
	}, func(c Case, r *vp.R) error {
		s := eval(c, r)
		if s == nil {
			return nil
		}
		tracks := s.Tracks()
		ws, err := xm.Wants(s, tracks)
		if err != nil {
			return err
		}
		chans := map[int]map[int]bool{}
		for _, n := range ws {
			if chans[n.Ch] == nil {
				chans[n.Ch] = map[int]bool{}
			}
			chans[n.Ch][n.Patch] = true
		}
		for _, m := range chans {
			if len(m) > 1 {
				r.Label("several instruments on a channel")
			}
		}
		if len(ws) >= 3 {
			r.NonTrivial()
		}
		p, err := send(s, options(c)...)
		if err != nil {
			return err
		}
		if p.Late {
			return fmt.Errorf("part of the score is sent after the order to play it")
		}
		if err := actions(p, c, xm.AudibleEnd(ws)); err != nil {
			return err
		}
		return xm.Match(ws, p.Notes)
	})
	vp.Add("P21", "twice", 2000, 100000, func(t *rapid.T) Case {
		return Case{E: scores(t), Lay: layout(t)}
	}, func(c Case, r *vp.R) error {
		// Sending a score does not change what is sent the next time.
		s := eval(c, r)
		if s == nil {
			return nil
		}
		ws, err := xm.Wants(s, s.Tracks())
		if err != nil {
			return err
		}
		if len(ws) >= 3 {
			r.NonTrivial()
		}
		for i := 0; i < 2; i++ {
			p, err := send(s)
			if err != nil {
				return err
			}
			if err := xm.Match(ws, p.Notes); err != nil {
				return fmt.Errorf("time %d: %v", i+1, err)
			}
		}
		return nil
	})
	vp.Add("P21", "slices", 4000, 200000, func(t *rapid.T) Case {
		return Case{E: scores(t), Lay: layout(t), At: rapid.IntRange(0, 60).Draw(t, "at")}
	}, func(c Case, r *vp.R) error {
		// A score that grows is sent in two pieces, the second relative to where
		// the parts were.
		cut := 1
		if len(c.E) > 1 {
			cut = 1 + c.At%(len(c.E)-1)
		}
		for cut < len(c.E) && c.E[cut].K == "V" {
			cut++
		}
		pre, post := lang.Eval(lang.Render(c.E[:cut], c.Lay).S), lang.Eval(lang.Render(c.E[cut:], c.Lay).S)
		r.Sample(lang.Render(c.E[:cut], c.Lay).S + " ;; " + lang.Render(c.E[cut:], c.Lay).S)
		if pre.ParseErr != nil || post.ParseErr != nil || pre.EvalErr != nil {
			return nil
		}
		s := model.NewScore()
		if err := s.Update(pre.Ups...); err != nil {
			return err
		}
		k := len(s.Events)
		at := s.PartOffsets()
		tracks1 := s.Tracks()
		if err := s.Update(post.Ups...); err != nil {
			r.Label("rejected")
			return nil
		}
		tracks2 := s.Tracks()
		for p, t := range tracks1 {
			if tracks2[p] != t {
				return fmt.Errorf("the track of %s changes from %d to %d", p.Name, t, tracks2[p])
			}
		}
		byTrack := map[int]float64{}
		for p, o := range at {
			byTrack[int(tracks2[p])] = o
		}
		ws, err := xm.Wants(s, tracks2)
		if err != nil {
			return err
		}
		if k > len(ws) {
			return fmt.Errorf("events vanish")
		}
		if k > 0 && len(ws) > k {
			r.NonTrivial()
		}
		p1, err := send(s, transmitter.TransmitToIndex(k))
		if err != nil {
			return err
		}
		p2, err := send(s, transmitter.TransmitFromIndex(k), transmitter.SyncOffsets(at))
		if err != nil {
			return err
		}
		strip := func(ns []oscd.Note) []oscd.Note { return ns }
		if err := xm.Match(ws[:k], strip(p1.Notes)); err != nil {
			return fmt.Errorf("first piece: %v", err)
		}
		// Parts that share a channel are moved by different amounts, so only the
		// notes are compared.
		moved := append([]xm.Want{}, ws[k:]...)
		for i := range moved {
			moved[i].Off -= byTrack[moved[i].Track]
			if moved[i].Off < -1e-6 {
				r.Label("before the sync point")
			}
		}
		got := append([]oscd.Note{}, p2.Notes...)
		for i := range got {
			got[i].Volume, got[i].Panning, got[i].Patch = 0, 0, 0
		}
		for i := range moved {
			moved[i].Vol, moved[i].Pan, moved[i].Patch = 0, 0, -1
		}
		if err := xm.Match(moved, got); err != nil {
			return fmt.Errorf("second piece: %v", err)
		}
		return nil
	})

	//
	// P22
	//
	win := base
	win.W = w("n", 30, "r", 5, "c", 5, "(", 5, "%", 10, "[", 4, "*", 4, "V", 2, "m", 3, "@", 1)
	win.N = 10
	genRef := func(t *rapid.T, evs []*lang.Ev) string {
		ms := []string{}
		lang.Walk(evs, func(e *lang.Ev, d int) {
			if e.K == "%" {
				ms = append(ms, e.Nm)
			}
		})
		x := rapid.IntRange(0, 19).Draw(t, "ref")
		switch {
		case x < 4:
			return ""
		case x < 11 && len(ms) > 0:
			return rapid.SampledFrom(ms).Draw(t, "marker")
		case x < 17:
			return fmt.Sprintf("0:%02d", rapid.IntRange(0, 9).Draw(t, "s"))
		case x == 17:
			return rapid.SampledFrom([]string{"0:2", "00:3", "0:004", "0:61", "1:0", "0:0", "0:90", "2:00", "000:1", "99999999999:00", "9223372036854775808:00", "0:18446744073709551616", "200000000000000000:00"}).Draw(t, "time")
		}
		return rapid.SampledFrom([]string{"nowhere", "0:", ":30", "0:30.5", "30", "0:3a", "1:2:3", "-1:00", "0:-1", " 0:01", "0:01 ", "0:01\n", "+0:01", "0;01", "０:０１", "0:1e1", "verse ", "Verse", "0x1:00", "1_0:00", "%verse", "@verse", "."}).Draw(t, "junk")
	}
	vp.Add("P22", "window", 8000, 400000, func(t *rapid.T) Case {
		e := lang.Gen(t, win)
		if rapid.IntRange(0, 1).Draw(t, "straight") == 1 { // notes exactly at whole seconds
			p := win
			p.Attrs = []string{"volume", "panning", "track-volume"}
			p.Ms = false
			p.GlobalPct = 0
			e = lang.Gen(t, p)
		}
		return Case{E: e, Lay: layout(t), From: genRef(t, e), To: genRef(t, e), Load: rapid.Bool().Draw(t, "load"), OneOff: rapid.Bool().Draw(t, "oneoff")}
	}, func(c Case, r *vp.R) error {
		s := eval(c, r)
		if s == nil {
			return nil
		}
		lang.ResetCaptured()
		ref := lang.NewScore()
		if ref.Run(c.E) != nil || ref.Ambiguous {
			return nil
		}
		for m, o := range ref.Markers {
			if !lang.Near(o, s.Markers[m]) {
				return fmt.Errorf("marker %s is at %g, expected %g", m, s.Markers[m], o)
			}
		}
		from, to := 0.0, math.Inf(1)
		good := true
		for _, x := range []struct {
			ref string
			at  *float64
		}{{c.From, &from}, {c.To, &to}} {
			if x.ref == "" {
				continue
			}
			v, ok := xm.Point(x.ref, s.Markers)
			*x.at, good = v, good && ok
		}
		ws, err := xm.Wants(s, s.Tracks())
		if err != nil {
			return err
		}
		p, err := send(s, options(c)...)
		if !good {
			r.NonTrivial()
			r.Label("bad reference")
			if err == nil {
				return fmt.Errorf("the range from %q to %q is accepted", c.From, c.To)
			}
			return nil
		}
		if err != nil {
			if from > 1e12 || (to > 1e12 && c.To != "") {
				return nil
			}
			return fmt.Errorf("the range is rejected: %v", err)
		}
		in := []xm.Want{}
		for _, n := range ws {
			if n.Off >= from && n.Off < to {
				if n.Off == from || n.Off == to {
					r.Label("at the edge")
				}
				n.Off -= from
				in = append(in, n)
			}
		}
		if len(in) > 0 && len(in) < len(ws) {
			r.NonTrivial()
			r.Label("cut")
		}
		if err := actions(p, c, xm.AudibleEnd(in)); err != nil {
			return err
		}
		if err := xm.Match(in, p.Notes); err != nil {
			return fmt.Errorf("from %g to %g: %v", from, to, err)
		}
		return nil
	})

	//
	// P23
	//
	tempoP := lang.Prof{N: 14, Blocks: 3, Depth: 2, Multi: true, Head: true, MaxInst: 6,
		W:     w("n", 20, "r", 5, "(", 14, "[", 4, "*", 4, "{", 2, "%", 3, "c", 2),
		Attrs: []string{"tempo", "tempo", "metric", "volume"}, GlobalPct: 35, Globals: []string{"tempo", "tempo", "metric", "volume"},
		Ms: true, Reps: []int{1, 2, 3}}
	genGood := func(t *rapid.T, evs []*lang.Ev) string {
		ms := []string{}
		lang.Walk(evs, func(e *lang.Ev, d int) {
			if e.K == "%" {
				ms = append(ms, e.Nm)
			}
		})
		switch x := rapid.IntRange(0, 5).Draw(t, "ref"); {
		case x == 5 && len(ms) > 0:
			return rapid.SampledFrom(ms).Draw(t, "marker")
		case x >= 4:
			return fmt.Sprintf("0:%02d", rapid.IntRange(0, 20).Draw(t, "s"))
		}
		return ""
	}
	vp.Add("P23", "map", 8000, 400000, func(t *rapid.T) Case {
		e := lang.Gen(t, tempoP)
		return Case{E: e, Lay: layout(t), From: genGood(t, e), To: genGood(t, e), Load: rapid.Bool().Draw(t, "load")}
	}, func(c Case, r *vp.R) error {
		s := eval(c, r)
		if s == nil {
			return nil
		}
		lang.ResetCaptured()
		ref := lang.NewScore()
		if ref.Run(c.E) != nil || ref.Ambiguous {
			r.Label("not judged: rounding decides")
			return nil
		}
		from, to := 0.0, math.Inf(1)
		for _, x := range []struct {
			ref string
			at  *float64
		}{{c.From, &from}, {c.To, &to}} {
			if x.ref == "" {
				continue
			}
			v, ok := xm.Point(x.ref, s.Markers)
			if !ok || v > 1e9 {
				return nil
			}
			*x.at = v
		}
		if from >= to {
			r.Label("empty window")
			return nil
		}
		cs := tempos(ref)
		p, err := send(s, options(c)...)
		if err != nil {
			return err
		}
		if len(cs) > 2 {
			r.NonTrivial()
		}
		// Look at every moment that matters: the beginning, and the middle of each
		// span between changes.
		for i, x := range cs {
			end := to
			if i+1 < len(cs) && cs[i+1].off < end {
				end = cs[i+1].off
			}
			begin := math.Max(x.off, from)
			if x.vague {
				r.Label("not judged: simultaneous")
				continue
			}
			if math.IsInf(end, 1) {
				end = begin + 100000
			}
			if end-begin < 3 {
				continue
			}
			for _, at := range []int{int(math.Ceil(begin-from)) + 1, int((begin+end)/2 - from), int(math.Floor(end-from)) - 1} {
				got, ok := p.At(at)
				if !ok {
					return fmt.Errorf("no tempo at %d ms of the window from %g", at, from)
				}
				if math.Abs(got-x.tempo) > 1e-4*x.tempo {
					return fmt.Errorf("the tempo at %d ms of the window from %g is %g, expected %g (messages %v)", at, from, got, x.tempo, p.Tempos)
				}
			}
			if begin == from && (c.From != "" || i+1 == len(cs) || cs[i+1].off > 1) {
				got, ok := p.At(0)
				if !ok || math.Abs(got-x.tempo) > 1e-4*x.tempo {
					return fmt.Errorf("the tempo at the beginning (%g) is %g, expected %g (messages %v)", from, got, x.tempo, p.Tempos)
				}
			}
		}
		return nil
	})
}
