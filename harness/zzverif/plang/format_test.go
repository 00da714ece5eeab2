package plang

import (
	"bytes"
	"fmt"
	"math"
	"sort"
	"strings"

	ajson "alda.io/client/json"
	"alda.io/client/model"
	"alda.io/client/parser"
	"alda.io/client/zzverif/lang"
	"alda.io/client/zzverif/vp"
	"pgregory.net/rapid"
)

// Two is a score in two layouts, with bar lines added in the second.
type Two struct {
	E    []*lang.Ev
	L, M []int
	Bars []int
}

// withBars adds bar lines between events.
func withBars(evs []*lang.Ev, pick []int, i *int, top bool) []*lang.Ev {
	return withBarsIn(evs, pick, i, top, false)
}

func withBarsIn(evs []*lang.Ev, pick []int, i *int, top, def bool) []*lang.Ev {
	next := func() bool {
		if len(pick) == 0 {
			return false
		}
		*i++
		return pick[*i%len(pick)] == 0
	}
	out := []*lang.Ev{}
	for n, e := range evs {
		if (n > 0 || !top) && next() && !(def && n == 0) {
			out = append(out, &lang.Ev{K: "|"})
		}
		switch e.K {
		case "[", "{", "=":
			c := *e
			c.E = withBarsIn(e.E, pick, i, false, e.K == "=")
			e = &c
		case "*", "'":
			c := *e
			if k := e.E[0].K; k == "[" || k == "{" || k == "*" || k == "'" {
				c.E = []*lang.Ev{withBars(e.E, nil, i, true)[0]}
				in := *e.E[0]
				if k == "[" || k == "{" {
					in.E = withBars(in.E, pick, i, false)
				}
				c.E = []*lang.Ev{&in}
			}
			e = &c
		}
		if len(e.D) > 1 {
			c := *e
			c.D = append([]lang.DC(nil), e.D...)
			for k := 0; k < len(c.D)-1; k++ {
				if next() {
					if k%2 == 0 {
						c.D[k].B1++
					} else {
						c.D[k].B2++
					}
				}
			}
			e = &c
		}
		out = append(out, e)
	}
	if !top && next() {
		out = append(out, &lang.Ev{K: "|"})
	}
	return out
}

func layout1(t *rapid.T, name string) []int {
	return rapid.SliceOfN(rapid.IntRange(0, 255), 1, 16).Draw(t, name)
}

// Fmt is a score and the settings to format it with.
type Fmt struct {
	Case
	W   int
	Ind string
}

func format(root parser.ASTNode, w int, ind string) (string, error) {
	var b bytes.Buffer
	err := parser.FormatASTToCode(root, &b, parser.ConfigureSoftWrapLen(w), parser.ConfigureIndentText(ind))
	return b.String(), err
}

// evaluated replaces attribute changes written in Lisp by the changes they
// denote, where alda has a way of writing these.
func evaluated(ups []model.ScoreUpdate, attrs *int) []model.ScoreUpdate {
	out := []model.ScoreUpdate{}
	one := func(u model.ScoreUpdate) model.ScoreUpdate { return evaluated([]model.ScoreUpdate{u}, attrs)[0] }
	for _, u := range ups {
		switch v := u.(type) {
		case model.Chord:
			v.Events = evaluated(v.Events, attrs)
			u = v
		case model.EventSequence:
			v.Events = evaluated(v.Events, attrs)
			u = v
		case model.Cram:
			v.Events = evaluated(v.Events, attrs)
			u = v
		case model.VariableDefinition:
			v.Events = evaluated(v.Events, attrs)
			u = v
		case model.Repeat:
			v.Event = one(v.Event)
			u = v
		case model.OnRepetitions:
			v.Event = one(v.Event)
			u = v
		case model.LispList:
			if r, err := v.Eval(); err == nil {
				if su, ok := r.(model.LispScoreUpdate); ok {
					if au, ok := su.ScoreUpdate.(model.AttributeUpdate); ok {
						switch au.PartUpdate.(type) {
						case model.OctaveSet, model.OctaveUp, model.OctaveDown, model.DynamicMarking, model.KeySignatureSet, model.TranspositionSet:
							*attrs++
							u = au
						}
					}
				}
			}
		}
		out = append(out, u)
	}
	return out
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := i - 60
	if lo < 0 {
		lo = 0
	}
	cut := func(s string) string {
		hi := i + 80
		if hi > len(s) {
			hi = len(s)
		}
		if lo > len(s) {
			return ""
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("…%s… and …%s…", cut(a), cut(b))
}

func init() {
	vp.Add("P03", "layout", 3000, 150000, func(t *rapid.T) Two {
		p := lang.Base()
		p.Ms = true
		e := lang.Gen(t, p)
		if rapid.IntRange(0, 9).Draw(t, "bad") == 9 {
			e = lang.Spoil(t, e)
		}
		return Two{E: e, L: layout(t), M: layout1(t, "other"), Bars: rapid.SliceOfN(rapid.IntRange(0, 3), 0, 8).Draw(t, "bars")}
	}, func(c Two, r *vp.R) error {
		i := 0
		a := lang.Render(c.E, c.L)
		b := lang.Render(withBars(c.E, c.Bars, &i, true), c.M)
		r.Sample(a.S + "\n----\n" + b.S)
		if a.S == b.S {
			return nil
		}
		ga, gb := lang.Eval(a.S), lang.Eval(b.S)
		if (ga.Err() == nil) != (gb.Err() == nil) {
			return fmt.Errorf("one is accepted and the other is not: %v, %v", ga.Err(), gb.Err())
		}
		if ga.Err() != nil {
			r.Label("both rejected")
			return nil
		}
		if len(ga.Score.Events) >= 3 {
			r.NonTrivial()
		}
		if strings.Contains(b.S, "#") {
			r.Label("with comments")
		}
		return lang.SameAlda(ga.Score, gb.Score)
	})

	vp.Add("P04", "format", 4000, 200000, func(t *rapid.T) Fmt {
		c := Fmt{Case: genText(t)}
		c.W = rapid.SampledFrom([]int{80, 40, 20, 10, 5, 1, 0, -1, 120, 1000, 60, 30, 15, 79, 7}).Draw(t, "width")
		c.Ind = rapid.SampledFrom([]string{"  ", "", " ", "    ", "\t", "\t\t", " \t", "        "}).Draw(t, "indent")
		return c
	}, func(c Fmt, r *vp.R) error {
		txt := lang.Render(c.E, c.Lay).S
		r.Sample(txt)
		ups, root, err := parse(txt)
		if err != nil {
			return nil // decided by P01
		}
		if kinds(c.E) >= 4 {
			r.NonTrivial()
		}
		r.Label(fmt.Sprintf("width %d", c.W))
		out, err := format(root, c.W, c.Ind)
		if err != nil {
			return fmt.Errorf("formatting failed: %v", err)
		}
		r.Sample(txt + "\n----\n" + out)
		ups2, root2, err := parse(out)
		if err != nil {
			return fmt.Errorf("the formatted text is rejected: %v", err)
		}
		e1, err := lang.FromUpdates(ups)
		if err != nil {
			return err
		}
		e2, err := lang.FromUpdates(ups2)
		if err != nil {
			return err
		}
		if err := lang.SameCanon(e1, e2); err != nil {
			return fmt.Errorf("meaning changed: %v", err)
		}
		again, err := format(root2, c.W, c.Ind)
		if err != nil {
			return fmt.Errorf("formatting the formatted text failed: %v", err)
		}
		if again != out {
			return fmt.Errorf("formatting again changes the text: %s", firstDiff(out, again))
		}
		return nil
	})
	vp.Add("P04", "music", 1500, 80000, func(t *rapid.T) Fmt {
		p := lang.Base()
		p.Ms = true
		c := Fmt{Case: Case{E: lang.Gen(t, p), Lay: layout(t)}}
		c.W = rapid.IntRange(-2, 100).Draw(t, "width")
		c.Ind = rapid.StringOfN(rapid.SampledFrom([]rune{' ', '\t'}), 0, 4, -1).Draw(t, "indent")
		return c
	}, func(c Fmt, r *vp.R) error {
		txt := lang.Render(c.E, c.Lay).S
		r.Sample(txt)
		ga := lang.Eval(txt)
		if ga.Err() != nil {
			return nil // decided by P07
		}
		_, root, _ := parse(txt)
		out, err := format(root, c.W, c.Ind)
		if err != nil {
			return fmt.Errorf("formatting failed: %v", err)
		}
		r.Sample(txt + "\n----\n" + out)
		if len(ga.Score.Events) >= 3 {
			r.NonTrivial()
		}
		gb := lang.Eval(out)
		if gb.Err() != nil {
			return fmt.Errorf("the formatted text is rejected: %v", gb.Err())
		}
		return lang.SameAlda(ga.Score, gb.Score)
	})

	vp.Add("P05", "generate", 5000, 250000, func(t *rapid.T) Fmt {
		c := Fmt{Case: genText(t)}
		if rapid.IntRange(0, 1).Draw(t, "attrs") == 1 {
			p := lang.Base()
			p.Ms = true
			p.Attrs = []string{"dynamic", "key", "transpose", "octave"}
			p.GlobalPct = 0
			c.E = lang.OpenVoices(lang.GenAny(t, p.With("(", 20)), c.Lay)
		}
		c.W = rapid.SampledFrom([]int{80, 20, 1, 200}).Draw(t, "width")
		c.Ind = "  "
		return c
	}, func(c Fmt, r *vp.R) error {
		txt := lang.Render(c.E, c.Lay).S
		r.Sample(txt)
		ups, _, err := parse(txt)
		if err != nil {
			return nil
		}
		attrs := 0
		ups = evaluated(ups, &attrs)
		if kinds(c.E) >= 4 {
			r.NonTrivial()
		}
		if attrs > 0 {
			r.Label("with evaluated attributes")
		}
		root, err := parser.GenerateASTFromScoreUpdates(ups)
		if err != nil {
			return fmt.Errorf("no code generated: %v", err)
		}
		out, err := format(root, c.W, c.Ind)
		if err != nil {
			return fmt.Errorf("no code generated: %v", err)
		}
		r.Sample(txt + "\n----\n" + out)
		back, _, err := parse(out)
		if err != nil {
			return fmt.Errorf("the generated code is rejected: %v", err)
		}
		n := 0
		a, b := lang.Dump(norm(ups)), lang.Dump(norm(evaluated(back, &n)))
		if a != b {
			return fmt.Errorf("the generated code denotes other events: %s", firstDiff(a, b))
		}
		return nil
	})

	vp.Add("P06", "tree", 4000, 150000, genText, func(c Case, r *vp.R) error {
		txt := lang.Render(c.E, c.Lay).S
		r.Sample(txt)
		ups, root, err := parse(txt)
		if err != nil {
			return nil
		}
		if kinds(c.E) >= 4 {
			r.NonTrivial()
		}
		s := root.JSON().String()
		v, err := jsonOf(s)
		if err != nil {
			return fmt.Errorf("the tree is not valid JSON: %v", err)
		}
		if err := sameTree(root, v); err != nil {
			return err
		}
		cont, err := ajson.ParseJSON([]byte(s))
		if err != nil {
			return err
		}
		if err := sameLines(v, parser.HumanReadableAST(cont)); err != nil {
			return err
		}
		evs := ajson.Array()
		for _, u := range ups {
			evs.ArrayAppend(u.JSON())
		}
		ev, err := jsonOf(evs.String())
		if err != nil {
			return fmt.Errorf("the events are not valid JSON: %v", err)
		}
		got, err := lang.FromJSON(ev)
		if err != nil {
			return fmt.Errorf("events output: %v", err)
		}
		if err := lang.SameCanon(c.E, got); err != nil {
			return fmt.Errorf("events output: %v", err)
		}
		return nil
	})
	vp.Add("P06", "score", 4000, 150000, func(t *rapid.T) Case {
		lay := layout(t)
		p := lang.Base()
		p.Ms = true
		return Case{E: lang.OpenVoices(lang.Gen(t, p), lay), Lay: lay}
	}, func(c Case, r *vp.R) error {
		txt := lang.Render(c.E, c.Lay).S
		r.Sample(txt)
		g := lang.Eval(txt)
		if g.Err() != nil {
			return nil
		}
		if len(g.Score.Events) >= 3 && len(g.Score.Parts) >= 2 {
			r.NonTrivial()
		}
		v, err := jsonOf(g.Score.JSON().String())
		if err != nil {
			return fmt.Errorf("the score is not valid JSON: %v", err)
		}
		return sameScore(g.Score, v)
	})
}

// norm drops what two spellings of the same event differ in.
func norm(ups []model.ScoreUpdate) []model.ScoreUpdate {
	out := []model.ScoreUpdate{}
	for _, u := range ups {
		switch v := u.(type) {
		case model.Chord:
			v.Events = norm(v.Events)
			u = v
		case model.EventSequence:
			v.Events = norm(v.Events)
			u = v
		case model.Cram:
			v.Events = norm(v.Events)
			u = v
		case model.VariableDefinition:
			v.Events = norm(v.Events)
			u = v
		case model.Repeat:
			v.Event = norm([]model.ScoreUpdate{v.Event})[0]
			u = v
		case model.OnRepetitions:
			v.Event = norm([]model.ScoreUpdate{v.Event})[0]
			u = v
		case model.AttributeUpdate:
			if k, ok := v.PartUpdate.(model.KeySignatureSet); ok {
				m := lang.KeyMap(k.KeySignature)
				ls := []string{}
				for l, n := range m {
					ls = append(ls, fmt.Sprintf("%s%d", l, n))
				}
				sort.Strings(ls)
				u = model.Marker{Name: "key " + strings.Join(ls, " ")}
			}
		}
		out = append(out, u)
	}
	return out
}

func sameTree(n parser.ASTNode, v interface{}) error {
	o, ok := v.(map[string]interface{})
	if !ok {
		return fmt.Errorf("a node is %T in JSON", v)
	}
	if o["type"] != n.Type.String() {
		return fmt.Errorf("node %v is of type %v in JSON", n.Type, o["type"])
	}
	switch l := n.Literal.(type) {
	case nil:
		if o["literal"] != nil {
			return fmt.Errorf("%v has literal %v in JSON", n.Type, o["literal"])
		}
	case string:
		if o["literal"] != l {
			return fmt.Errorf("%v %q has literal %v in JSON", n.Type, l, o["literal"])
		}
	case rune: // also int32
		want := interface{}(float64(l))
		if n.Type == parser.NoteLetterNode {
			want = string(l)
		}
		if o["literal"] != want {
			return fmt.Errorf("%v %v has literal %v in JSON", n.Type, want, o["literal"])
		}
	case float64:
		if o["literal"] != l {
			return fmt.Errorf("%v %v has literal %v in JSON", n.Type, l, o["literal"])
		}
	default:
		if fmt.Sprint(o["literal"]) != fmt.Sprint(l) {
			return fmt.Errorf("%v %v has literal %v in JSON", n.Type, l, o["literal"])
		}
	}
	if n.SourceContext.Line > 0 {
		sc, _ := o["source-context"].(map[string]interface{})
		if sc == nil || sc["line"] != float64(n.SourceContext.Line) || sc["column"] != float64(n.SourceContext.Column) {
			return fmt.Errorf("%v at %d:%d is at %v in JSON", n.Type, n.SourceContext.Line, n.SourceContext.Column, o["source-context"])
		}
	}
	kids, _ := o["children"].([]interface{})
	if len(kids) != len(n.Children) {
		return fmt.Errorf("%v with %d children has %d in JSON", n.Type, len(n.Children), len(kids))
	}
	for i, k := range n.Children {
		if err := sameTree(k, kids[i]); err != nil {
			return err
		}
	}
	return nil
}

// sameLines compares the human-readable tree with the JSON tree.
func sameLines(v interface{}, human string) error {
	lines := strings.Split(human, "\n")
	i := 0
	unit := -1
	var walk func(v interface{}, depth int) error
	walk = func(v interface{}, depth int) error {
		o := v.(map[string]interface{})
		if i >= len(lines) {
			return fmt.Errorf("the readable tree ends before %v", o["type"])
		}
		line := lines[i]
		i++
		body := strings.TrimLeft(line, " \t")
		ind := len(line) - len(body)
		if depth == 1 && unit < 0 {
			unit = ind
		}
		if unit == 0 || depth > 0 && ind != unit*depth || depth == 0 && ind != 0 {
			return fmt.Errorf("the readable tree has %q at depth %d", line, depth)
		}
		if !strings.HasPrefix(body, o["type"].(string)) {
			return fmt.Errorf("the readable tree has %q in place of %v", line, o["type"])
		}
		body = strings.TrimPrefix(body, o["type"].(string))
		if sc, ok := o["source-context"].(map[string]interface{}); ok {
			pos := fmt.Sprintf("%v:%v", sc["line"], sc["column"])
			if !strings.Contains(body, pos) {
				return fmt.Errorf("the readable tree has %q, not at %s", line, pos)
			}
			body = body[strings.Index(body, pos)+len(pos):]
		}
		if l := o["literal"]; l != nil {
			if !strings.Contains(body, fmt.Sprintf("%#v", l)) {
				return fmt.Errorf("the readable tree has %q, without %v", line, l)
			}
		} else if strings.Contains(body, ":") {
			return fmt.Errorf("the readable tree has %q, with more than its type and position", line)
		}
		kids, _ := o["children"].([]interface{})
		for _, k := range kids {
			if err := walk(k, depth+1); err != nil {
				return err
			}
		}
		return nil
	}
	if err := walk(v, 0); err != nil {
		return err
	}
	if i != len(lines) {
		return fmt.Errorf("the readable tree has %d lines more than nodes", len(lines)-i)
	}
	return nil
}

func sameScore(s *model.Score, v interface{}) error {
	o, ok := v.(map[string]interface{})
	if !ok {
		return fmt.Errorf("score is %T", v)
	}
	num := func(m map[string]interface{}, key string, want float64) error {
		f, ok := m[key].(float64)
		if !ok || math.Abs(f-want) > 1e-9*math.Max(1, math.Abs(want)) {
			return fmt.Errorf("%s is %v, in JSON %v", key, want, m[key])
		}
		return nil
	}
	parts, _ := o["parts"].(map[string]interface{})
	if len(parts) != len(s.Parts) {
		return fmt.Errorf("%d parts, in JSON %d", len(s.Parts), len(parts))
	}
	for _, p := range s.Parts {
		m, ok := parts[p.ID()].(map[string]interface{})
		if !ok {
			return fmt.Errorf("no part %s in JSON", p.ID())
		}
		if m["name"] != p.Name || m["stock-instrument"] != p.StockInstrument.Name() {
			return fmt.Errorf("part %s (%s) is %v (%v) in JSON", p.Name, p.StockInstrument.Name(), m["name"], m["stock-instrument"])
		}
		for _, e := range []error{
			num(m, "tempo", p.Tempo), num(m, "transposition", float64(p.Transposition)), num(m, "reference-pitch", p.ReferencePitch),
			num(m, "current-offset", p.CurrentOffset), num(m, "octave", float64(p.Octave)), num(m, "volume", p.Volume),
			num(m, "track-volume", p.TrackVolume), num(m, "panning", p.Panning), num(m, "midi-channel", float64(p.MidiChannel)),
			num(m, "quantization", p.Quantization), num(m, "time-scale", p.TimeScale),
		} {
			if e != nil {
				return fmt.Errorf("part %s: %v", p.Name, e)
			}
		}
		key := map[string]int{}
		km, _ := m["key-signature"].(map[string]interface{})
		for l, as := range km {
			list, _ := as.([]interface{})
			for _, a := range list {
				switch a {
				case "sharp":
					key[strings.ToLower(l)]++
				case "flat":
					key[strings.ToLower(l)]--
				}
			}
		}
		for l, n := range lang.KeyMap(p.KeySignature) {
			if key[l] != n {
				return fmt.Errorf("part %s: key %v, in JSON %v", p.Name, p.KeySignature, km)
			}
		}
	}
	cur, _ := o["current-parts"].([]interface{})
	if len(cur) != len(s.CurrentParts) {
		return fmt.Errorf("%d current parts, in JSON %d", len(s.CurrentParts), len(cur))
	}
	for i, p := range s.CurrentParts {
		if cur[i] != p.ID() {
			return fmt.Errorf("current part %s, in JSON %v", p.ID(), cur[i])
		}
		if parts[p.ID()] == nil {
			return fmt.Errorf("current part %s is not among the parts in JSON", p.ID())
		}
	}
	als, _ := o["aliases"].(map[string]interface{})
	if len(als) != len(s.Aliases) {
		return fmt.Errorf("%d aliases, in JSON %d", len(s.Aliases), len(als))
	}
	for al, ps := range s.Aliases {
		list, _ := als[al].([]interface{})
		if len(list) != len(ps) {
			return fmt.Errorf("alias %s has %d parts, in JSON %d", al, len(ps), len(list))
		}
		for i, p := range ps {
			if list[i] != p.ID() || parts[p.ID()] == nil {
				return fmt.Errorf("alias %s: part %s, in JSON %v", al, p.ID(), list[i])
			}
		}
	}
	evs, _ := o["events"].([]interface{})
	if len(evs) != len(s.Events) {
		return fmt.Errorf("%d events, in JSON %d", len(s.Events), len(evs))
	}
	tracks := s.Tracks()
	byTrack := map[int32]*model.Part{}
	for i, p := range s.Parts {
		byTrack[int32(i+1)] = p
	}
	for i, e := range s.Events {
		n := e.(model.NoteEvent)
		m, _ := evs[i].(map[string]interface{})
		if m == nil {
			return fmt.Errorf("event %d is %T in JSON", i, evs[i])
		}
		p := byTrack[tracks[n.Part]]
		if p == nil || m["part"] != p.ID() {
			return fmt.Errorf("note %d is of part %v in JSON, which is not its part", i, m["part"])
		}
		for _, e := range []error{
			num(m, "midi-channel", float64(n.MidiChannel)), num(m, "midi-note", float64(n.MidiNote)), num(m, "offset", n.Offset),
			num(m, "duration", n.Duration), num(m, "audible-duration", n.AudibleDuration), num(m, "volume", n.Volume),
			num(m, "track-volume", n.TrackVolume), num(m, "panning", n.Panning),
		} {
			if e != nil {
				return fmt.Errorf("note %d: %v", i, e)
			}
		}
	}
	mk, _ := o["markers"].(map[string]interface{})
	if len(mk) != len(s.Markers) {
		return fmt.Errorf("%d markers, in JSON %d", len(s.Markers), len(mk))
	}
	for name, off := range s.Markers {
		if err := num(mk, name, off); err != nil {
			return fmt.Errorf("marker %v", err)
		}
	}
	vars, _ := o["variables"].(map[string]interface{})
	if len(vars) != len(s.Variables) {
		return fmt.Errorf("%d variables, in JSON %d", len(s.Variables), len(vars))
	}
	for name, us := range s.Variables {
		list, _ := vars[name].([]interface{})
		if len(list) != len(us) {
			return fmt.Errorf("variable %s has %d events, in JSON %d", name, len(us), len(list))
		}
	}
	return nil
}
