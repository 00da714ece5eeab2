package plang

import (
	"strconv"
	"strings"

	"alda.io/client/zzverif/lang"
	"alda.io/client/zzverif/vp"
	"pgregory.net/rapid"
)

// anyForm draws a Lisp value of any kind.
func anyForm(t *rapid.T, depth int) *lang.Lx {
	switch rapid.IntRange(0, 7).Draw(t, "form") {
	case 0, 1:
		return lang.Num(rapid.SampledFrom([]string{"0", "1", "-1", "50", "100", "101", "100.5", "-0.5", "0.5", "127", "128", "1000", "3.7", "15", "16", "9", "99999999999"}).Draw(t, "num"))
	case 2:
		return lang.Str(rapid.SampledFrom([]string{"", "4", "4.", "f+", "f+ c+", "x", "4~8", "0", "c", "f", "f+c+", "h+", "up", "1x", "4.5.5", "~", "4~", "-4", "f# c#", "8 8", "f+ q"}).Draw(t, "str"))
	case 3:
		return lang.Quote(lang.Sym(rapid.SampledFrom([]string{"up", "down", "c", "sharp", "major", "x", "quote"}).Draw(t, "sym")))
	case 4:
		kids := []*lang.Lx{}
		for i := rapid.IntRange(0, 4).Draw(t, "kids"); i > 0; i-- {
			switch rapid.IntRange(0, 2).Draw(t, "kid") {
			case 0:
				kids = append(kids, lang.Sym(rapid.SampledFrom([]string{"c", "f", "flat", "sharp", "natural", "major", "minor", "dorian", "h", "wild", "Major", "ff", "cc", "sharpish"}).Draw(t, "sym")))
			case 1:
				kids = append(kids, lang.Lst(lang.Sym(rapid.SampledFrom([]string{"sharp", "flat", "c"}).Draw(t, "sym"))))
			default:
				kids = append(kids, lang.Num("1"))
			}
		}
		if len(kids) == 0 {
			return lang.Quote(lang.Sym("c"))
		}
		return lang.Quote(lang.Lst(kids...))
	case 5:
		return lang.Sym(rapid.SampledFrom([]string{"tempo", "up", "nonsense", "quant", "note", "mf"}).Draw(t, "sym"))
	case 6:
		if depth > 0 {
			kids := []*lang.Lx{lang.Sym(rapid.SampledFrom([]string{"ms", "note-length", "duration", "pitch", "midi-note", "note", "pause", "tempo", "list", "nonsense"}).Draw(t, "fn"))}
			for i := rapid.IntRange(0, 2).Draw(t, "args"); i > 0; i-- {
				kids = append(kids, anyForm(t, depth-1))
			}
			return lang.Lst(kids...)
		}
	}
	return lang.Num(rapid.SampledFrom([]string{"0", "1", "-1", "50", "100", "101", "2"}).Draw(t, "num"))
}

var attrFns = []string{"volume", "vol", "track-volume", "track-vol", "panning", "pan", "quant", "quantize", "quantization", "tempo", "metric-modulation",
	"octave", "set-duration", "set-duration-ms", "set-note-length", "key-signature", "key-sig", "transpose", "transposition", "reference-pitch", "tuning-constant", "midi-channel", "mf", "pppppp", "ff"}

// genBadAttr draws an attribute call which is mostly invalid.
func genBadAttr(t *rapid.T) *lang.Ev {
	f := rapid.SampledFrom(attrFns).Draw(t, "attribute")
	if rapid.IntRange(0, 2).Draw(t, "global") == 0 {
		f += "!"
	}
	args := []*lang.Lx{}
	for i := rapid.IntRange(0, 3).Draw(t, "args"); i > 0; i-- {
		args = append(args, anyForm(t, 1))
	}
	return lang.Call(f, args...)
}

// Spelled is a score and the choices of how to spell its events in Lisp.
type Spelled struct {
	Case
	Pick []int
}

type speller struct {
	pick []int
	i, n int
	kind map[string]bool
}

func (s *speller) next(n int) int {
	if len(s.pick) == 0 {
		return 0
	}
	s.i++
	return s.pick[s.i%len(s.pick)] % n
}

func (s *speller) duration(d []lang.DC) *lang.Lx {
	one := func(c lang.DC) *lang.Lx {
		switch c.U {
		case "ms":
			return lang.Lst(lang.Sym("ms"), lang.Num(c.V))
		case "s":
			return lang.Lst(lang.Sym("ms"), lang.Num(strconv.FormatFloat(lang.NumVal(c.V)*1000, 'f', -1, 64)))
		}
		if c.Dots == 0 && s.next(2) == 0 {
			return lang.Lst(lang.Sym("note-length"), lang.Num(c.V))
		}
		return lang.Lst(lang.Sym("note-length"), lang.Str(c.V+strings.Repeat(".", c.Dots)))
	}
	if len(d) == 1 && s.next(3) > 0 {
		return one(d[0])
	}
	kids := []*lang.Lx{lang.Sym("duration")}
	for _, c := range d {
		kids = append(kids, one(c))
	}
	return lang.Lst(kids...)
}

func (s *speller) quote(x *lang.Lx) *lang.Lx {
	if s.next(3) == 0 {
		return lang.Lst(lang.Sym("quote"), x)
	}
	return lang.Quote(x)
}

var otherNames = map[string][]string{
	"volume": {"vol", "volume"}, "track-volume": {"track-vol", "track-volume"}, "panning": {"pan", "panning"},
	"quant": {"quantize", "quantization", "quant"}, "key-signature": {"key-sig", "key-signature"}, "transpose": {"transposition", "transpose"},
	"reference-pitch": {"tuning-constant", "reference-pitch"},
}

// spell rewrites events into equivalent spellings.
func (s *speller) spell(evs []*lang.Ev, chord bool) []*lang.Ev {
	out := []*lang.Ev{}
	for _, e := range evs {
		e = e.Clone()
		if e.E != nil {
			e.E = s.spell(e.E, e.K == "c")
		}
		if s.next(4) > 0 {
			if x := s.event(e, chord); x != nil {
				s.n++
				out = append(out, x)
				continue
			}
		}
		out = append(out, e)
	}
	return out
}

func (s *speller) event(e *lang.Ev, chord bool) *lang.Ev {
	is := func(k string) { s.kind[k] = true }
	switch e.K {
	case "n":
		if chord {
			return nil
		}
		is("note")
		p := []*lang.Lx{lang.Sym(e.L)}
		for _, a := range e.A {
			p = append(p, lang.Sym(map[rune]string{'+': "sharp", '-': "flat", '_': "natural"}[a]))
		}
		kids := []*lang.Lx{lang.Sym("note"), lang.Lst(lang.Sym("pitch"), s.quote(lang.Lst(p...)))}
		if len(e.D) > 0 {
			kids = append(kids, s.duration(e.D))
		}
		x := lang.Lst(kids...)
		if e.S {
			is("slur")
			x = lang.Lst(lang.Sym("slur"), x)
		}
		return &lang.Ev{K: "(", X: x}
	case "r":
		if chord {
			return nil
		}
		is("pause")
		if len(e.D) == 0 {
			return lang.Call("pause")
		}
		return lang.Call("pause", s.duration(e.D))
	case "o":
		is("octave")
		return lang.Call("octave", lang.Num(strconv.Itoa(e.N)))
	case ">":
		is("octave")
		return lang.Call("octave", s.quote(lang.Sym("up")))
	case "<":
		is("octave")
		return lang.Call("octave", s.quote(lang.Sym("down")))
	case "(":
		f := e.X.Kids[0].V
		bang := ""
		if strings.HasSuffix(f, "!") {
			f, bang = f[:len(f)-1], "!"
		}
		for k, l := range otherNames {
			if l[0] == f {
				f = k
			}
		}
		for k, l := range otherNames {
			if f == k || (k == "quant" && (f == "quantize" || f == "quantization")) {
				is("abbreviation")
				e.X.Kids[0] = lang.Sym(l[s.next(len(l))] + bang)
				if k == "key-signature" {
					e.X.Kids[1] = s.key(e.X.Kids[1])
				}
				return e
			}
		}
		switch f {
		case "tempo":
			v := lang.NumVal(e.X.Kids[len(e.X.Kids)-1].V)
			if len(e.X.Kids) == 3 {
				if e.X.Kids[1].T == "n" {
					e.X.Kids[1] = lang.Str(e.X.Kids[1].V)
					is("tempo")
					return e
				}
				return nil
			}
			is("tempo")
			num := func(f float64) *lang.Lx { return lang.Num(strconv.FormatFloat(f, 'f', -1, 64)) }
			switch s.next(4) {
			case 0:
				return lang.Call("tempo"+bang, lang.Num("4"), num(v))
			case 1:
				return lang.Call("tempo"+bang, lang.Str("4"), num(v))
			case 2:
				return lang.Call("tempo"+bang, lang.Num("2"), num(v/2))
			default:
				return lang.Call("tempo"+bang, lang.Str("8"), num(v*2))
			}
		case "set-note-length":
			is("length")
			d := e.X.Kids[1]
			if d.T == "n" {
				return lang.Call("set-note-length"+bang, lang.Str(d.V))
			}
			return nil
		case "set-duration":
			is("length")
			switch e.X.Kids[1].V {
			case "1":
				return lang.Call("set-note-length"+bang, lang.Num("4"))
			case "2":
				return lang.Call("set-note-length"+bang, lang.Str("2"))
			case "1.5":
				return lang.Call("set-note-length"+bang, lang.Str("4."))
			case "2.5":
				return lang.Call("set-note-length"+bang, lang.Str("2~8"))
			}
		case "metric-modulation":
			if e.X.Kids[1].T == "n" {
				is("metric")
				return lang.Call("metric-modulation"+bang, lang.Str(e.X.Kids[1].V), lang.Str(e.X.Kids[2].V))
			}
		}
	}
	return nil
}

// key rewrites a key signature.
func (s *speller) key(x *lang.Lx) *lang.Lx {
	v, err := lang.EvalLisp(lang.Lst(lang.Sym("key-sig"), x))
	if err != nil || len(v.Attr.Key) == 0 {
		return x
	}
	if s.next(2) == 0 {
		p := []string{}
		for _, l := range strings.Split("abcdefg", "") {
			if n := v.Attr.Key[l]; n > 0 {
				p = append(p, l+strings.Repeat("+", n))
			} else if n < 0 {
				p = append(p, l+strings.Repeat("-", -n))
			}
		}
		return lang.Str(strings.Join(p, " "))
	}
	kids := []*lang.Lx{}
	for _, l := range strings.Split("gfedcba", "") {
		n := v.Attr.Key[l]
		as := []*lang.Lx{}
		for ; n > 0; n-- {
			as = append(as, lang.Sym("sharp"))
		}
		for ; n < 0; n++ {
			as = append(as, lang.Sym("flat"))
		}
		if len(as) > 0 {
			kids = append(kids, lang.Sym(l), lang.Lst(as...))
		}
	}
	return s.quote(lang.Lst(kids...))
}

// genForm draws a form that is close to a valid event.
func genForm(t *rapid.T) *lang.Lx {
	n := func(lo, hi int) int { return rapid.IntRange(lo, hi).Draw(t, "n") }
	any := func(p int) bool { return n(0, 99) >= 100-p }
	var dur func() *lang.Lx
	dur = func() *lang.Lx {
		if any(8) {
			return anyForm(t, 1)
		}
		switch n(0, 3) {
		case 0:
			return lang.Lst(lang.Sym("ms"), lang.Num(rapid.SampledFrom([]string{"100", "0.5", "333", "0", "-3"}).Draw(t, "ms")))
		case 1:
			return lang.Lst(lang.Sym("note-length"), lang.Str(rapid.SampledFrom([]string{"4", "4.", "8..", "0.5", "0.5.", "", "x", "4x", "4~4", "0", "-4", "4 "}).Draw(t, "len")))
		case 2:
			kids := []*lang.Lx{lang.Sym("duration")}
			for i := n(1, 3); i > 0; i-- {
				kids = append(kids, dur())
			}
			return lang.Lst(kids...)
		}
		return lang.Lst(lang.Sym("note-length"), lang.Num(rapid.SampledFrom([]string{"4", "8", "1", "0.5", "0", "-1", "3"}).Draw(t, "len")))
	}
	pitch := func() *lang.Lx {
		if any(8) {
			return anyForm(t, 1)
		}
		if n(0, 2) == 2 {
			return lang.Lst(lang.Sym("midi-note"), lang.Num(rapid.SampledFrom([]string{"60", "0", "127", "128", "-1", "60.5"}).Draw(t, "midi")))
		}
		kids := []*lang.Lx{lang.Sym(rapid.SampledFrom([]string{"c", "f", "b", "h", "cc"}).Draw(t, "letter"))}
		for i := n(0, 2); i > 0; i-- {
			kids = append(kids, lang.Sym(rapid.SampledFrom([]string{"sharp", "flat", "natural", "sharpish"}).Draw(t, "acc")))
		}
		return lang.Lst(lang.Sym("pitch"), lang.Quote(lang.Lst(kids...)))
	}
	note := func() *lang.Lx {
		kids := []*lang.Lx{lang.Sym("note"), pitch()}
		if any(60) {
			kids = append(kids, dur())
		}
		if any(4) {
			kids = append(kids, anyForm(t, 1))
		}
		return lang.Lst(kids...)
	}
	switch n(0, 6) {
	case 6: // a key signature
		kids := []*lang.Lx{}
		for i := n(1, 3); i > 0; i-- {
			as := []*lang.Lx{}
			for k := n(1, 2); k > 0; k-- {
				as = append(as, lang.Sym(rapid.SampledFrom([]string{"sharp", "flat", "sharp", "flat", "natural", "sharpish", "Sharp", "f"}).Draw(t, "acc")))
			}
			x := lang.Lst(as...)
			if any(10) {
				x = as[0]
			}
			kids = append(kids, lang.Sym(rapid.SampledFrom([]string{"c", "d", "e", "f", "g", "a", "b", "c", "f", "b", "h", "cc", "fis", "F"}).Draw(t, "letter")))
			if !any(6) {
				kids = append(kids, x)
			}
		}
		if any(30) {
			return lang.Lst(lang.Sym("key-sig"), lang.Str(rapid.SampledFrom([]string{"f+", "f+ c+", "f++", "b- e-", "", " ", "h+", "ff+", "f", "f+c+", "f+  c+", "f + ", "F+", "f_", "f+-", "b--"}).Draw(t, "str")))
		}
		return lang.Lst(lang.Sym("key-sig"), lang.Quote(lang.Lst(kids...)))
	case 0, 1:
		return note()
	case 2:
		x := note()
		if any(10) {
			x = anyForm(t, 1)
		}
		return lang.Lst(lang.Sym("slur"), x)
	case 3:
		kids := []*lang.Lx{lang.Sym("pause")}
		if any(70) {
			kids = append(kids, dur())
		}
		if any(6) {
			kids = append(kids, dur())
		}
		return lang.Lst(kids...)
	case 4:
		return genBadAttr(t).X
	}
	return lang.Lst(anyForm(t, 2), anyForm(t, 2))
}

func init() {
	spellW := lang.Prof{N: 10, Blocks: 2, Depth: 3, Multi: true, W: w("n", 24, "r", 6, "(", 10, "m", 6, "o", 5, "c", 4, "[", 4, "*", 5, "'", 3, "{", 4, "V", 3, "=", 3, "v", 4),
		Attrs: append([]string{"tempo", "key", "set-note-length", "set-duration", "metric", "quant"}, lang.AllAttrs...), Ms: true, Slur: true, Reps: []int{1, 2, 3}, Head: true,
		GlobalPct: 10, Globals: []string{"volume", "tempo", "panning", "transpose", "quant"}}
	vp.Add("P20", "spelling", 6000, 300000, func(t *rapid.T) Spelled {
		return Spelled{Case: Case{E: lang.Gen(t, spellW), Lay: layout(t)}, Pick: layout1(t, "pick")}
	}, func(c Spelled, r *vp.R) error {
		lang.ResetCaptured()
		if s := lang.NewScore(); s.Run(c.E) != nil || s.Ambiguous {
			return nil
		}
		s := &speller{pick: c.Pick, kind: map[string]bool{}}
		other := s.spell(c.E, false)
		text := render(other, c.Lay)
		r.Sample(text)
		for k := range s.kind {
			r.Label(k)
		}
		if s.n >= 2 {
			r.NonTrivial()
		}
		a, err := evalOK(render(c.E, nil))
		if err != nil {
			return err
		}
		b, err := evalOK(text)
		if err != nil {
			return err
		}
		return lang.SameAldaNotes(a.Score, b.Score)
	})
	vp.Add("P20", "forms", 8000, 400000, func(t *rapid.T) Case {
		e := []*lang.Ev{{K: "p", Nms: []string{"piano"}}}
		for i := rapid.IntRange(0, 2).Draw(t, "before"); i > 0; i-- {
			e = append(e, lang.GenAttr(t, rapid.SampledFrom(lang.AllAttrs).Draw(t, "kind"), false))
		}
		e = append(e, &lang.Ev{K: "(", X: genForm(t)})
		return Case{E: append(e, &lang.Ev{K: "n", L: "d"})}
	}, func(c Case, r *vp.R) error {
		text := render(c.E, nil)
		if _, _, err := parse(text); err != nil {
			r.Label("rejected by the parser")
			return nil
		}
		if strings.Contains(text, "(duration)") {
			return nil // what a duration of nothing means is not documented
		}
		return diff(c, r, func(s *lang.Score) bool { return true })
	})
}
