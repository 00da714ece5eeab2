package pbin

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"alda.io/client/zzverif/lang"
	"alda.io/client/zzverif/vp"
	"pgregory.net/rapid"
)

func layout(t *rapid.T) []int {
	return rapid.SliceOfN(rapid.IntRange(0, 255), 0, 8).Draw(t, "layout")
}

func genScore(t *rapid.T) []*lang.Ev {
	p := lang.Base()
	p.N, p.Blocks = 7, 3
	switch rapid.IntRange(0, 4).Draw(t, "kind") {
	case 0:
		return lang.GenBand(t, rapid.Bool().Draw(t, "explicit"))
	case 1:
		p.Band = true
	case 2:
		p = lang.Music()
		p.N, p.Blocks = 6, 3
	case 3:
		p.Ms, p.GlobalPct = true, 25
		p.Attrs = []string{"volume", "track-volume", "panning", "tempo", "quant", "transpose", "octave"}
	}
	return lang.Gen(t, p)
}

// cut splits a score into inputs. A voice group, to its end, is one event.
// Unless anywhere is set, that is: then it can be cut too.
func cut(t *rapid.T, evs []*lang.Ev, pct int, anywhere bool) []string {
	lay := layout(t)
	out := []string{}
	piece := []*lang.Ev{}
	voices := false
	flush := func() {
		if len(piece) == 0 {
			return
		}
		s := lang.Render(piece, lay).S
		switch rapid.IntRange(0, 7).Draw(t, "pad") {
		case 6:
			s = "\n  " + s + " \n\n"
		case 7:
			s += " # " + s[:strings.IndexByte(s+"\n", '\n')]
		}
		out = append(out, s)
		piece = nil
	}
	for _, e := range evs {
		if e.K == "p" {
			voices = false
		}
		if (!voices || anywhere) && rapid.IntRange(0, 99).Draw(t, "cut") >= 100-pct {
			flush()
		}
		if e.K == "V" {
			voices = e.N != 0
		}
		piece = append(piece, e)
	}
	flush()
	return out
}

// genBad makes an input out of a piece that is most likely to be rejected.
func genBad(t *rapid.T, evs []*lang.Ev) string {
	lay := layout(t)
	switch rapid.IntRange(0, 7).Draw(t, "how") {
	case 0: // a broken end
		s := lang.Render(evs, lay).S
		return s + rapid.SampledFrom([]string{" )", " ]", " [c d", " {c", " (foo", " (", " \"", " *3", " h", " c4 'x", " undefined", " @nowhere", " V", " o", " =", " (volume 101)", " (volume \"x\")", " []1", " {}", "\nnosuch: c"}).Draw(t, "end")
	case 1: // cut off somewhere
		s := lang.Render(evs, lay).S
		if len(s) == 0 {
			return s
		}
		i := rapid.IntRange(0, len(s)-1).Draw(t, "at")
		for i > 0 && !utf8.RuneStart(s[i]) {
			i--
		}
		return s[:i]
	case 2: // a stray character
		s := lang.Render(evs, lay).S
		if len(s) == 0 {
			return "]"
		}
		i := rapid.IntRange(0, len(s)-1).Draw(t, "at")
		for i > 0 && !utf8.RuneStart(s[i]) {
			i--
		}
		return s[:i] + rapid.SampledFrom([]string{"]", "}", ")", "(", "[", "{", "\"", "/", "~", "=", "h", "^", "é", "\x00", "*0"}).Draw(t, "c") + s[i:]
	case 3: // declarations that cannot be
		return lang.Render(evs, lay).S + "\n" + rapid.SampledFrom([]string{"nosuchthing:", "piano/nosuch \"xx\":", "piano/piano:", "piano \"piano\":", "piano \"aa\": c violin \"aa\": c",
			"piano \"bb\": c piano:", "cc.piano: c", "piano/violin \"dd\": c dd.cello: c", "piano \"ee\": violin \"ff\": ee/ff \"gg\": gg.ff.x:"}).Draw(t, "decl") + " c"
	}
	return lang.Render(lang.Spoil(t, evs), lay).S
}

// open says whether a text may leave a voice group open.
func open(code string) bool {
	i := strings.LastIndex(code, "V")
	return i >= 0 && !strings.HasPrefix(code[i:], "V0:")
}

func genRef(t *rapid.T, evs []*lang.Ev) string {
	ms := []string{}
	lang.Walk(evs, func(e *lang.Ev, d int) {
		if e.K == "%" {
			ms = append(ms, e.Nm)
		}
	})
	switch x := rapid.IntRange(0, 9).Draw(t, "ref"); {
	case x < 4:
		return ""
	case x < 7 && len(ms) > 0:
		return rapid.SampledFrom(ms).Draw(t, "marker")
	case x == 9:
		return rapid.SampledFrom([]string{"nowhere", "0:", "12", "0:-1", "a:b", " 0:01"}).Draw(t, "junk")
	}
	return fmt.Sprintf("0:%02d", rapid.IntRange(0, 9).Draw(t, "s"))
}

// genHist makes a session. badPct is how often a bad input comes between.
func genHist(t *rapid.T, badPct, otherPct int) Hist {
	evs := genScore(t)
	pieces := cut(t, evs, 40, false)
	h := Hist{}
	add := func(o Op) { h.Ops = append(h.Ops, o) }
	pct := func(p int, what string) bool { return rapid.IntRange(0, 99).Draw(t, what) >= 100-p }
	small := lang.Base()
	small.N, small.Blocks = 3, 2
	junk := func() {
		var e []*lang.Ev
		if pct(50, "own") {
			e = lang.Clone(evs)
		} else {
			e = lang.Gen(t, small)
		}
		code := genBad(t, e)
		if open(code) {
			return
		}
		op := "eval-and-play"
		if pct(25, "load") {
			op = "load"
		}
		add(Op{Op: op, Code: code})
	}
	for i, p := range pieces {
		if pct(badPct, "bad") {
			junk()
		}
		op := "eval-and-play"
		if i > 0 && pct(otherPct, "other") {
			switch rapid.IntRange(0, 11).Draw(t, "which") {
			case 0, 1, 2:
				add(Op{Op: "replay", From: genRef(t, evs), To: genRef(t, evs)})
			case 3:
				add(Op{Op: "export"})
			case 4:
				add(Op{Op: "stop"})
			case 5:
				add(Op{Op: "eval", Code: p})
			case 6:
				add(Op{Op: "score-ast"})
			case 7:
				add(Op{Op: "score-events"})
			case 8:
				op = "load"
			case 9:
				add(Op{Op: "new-score"})
			default:
				add(Op{Op: "eval-and-play", Code: rapid.SampledFrom([]string{"", " ", "# nothing", "\n\n", "|"}).Draw(t, "blank")})
			}
		}
		add(Op{Op: op, Code: p})
	}
	if pct(badPct, "bad") {
		junk()
		add(Op{Op: "eval-and-play", Code: rapid.SampledFrom([]string{"c d", "o5 [c e]2 d8", "piano: c", "c:1 d"}).Draw(t, "after")})
	}
	if pct(otherPct, "finally") {
		add(Op{Op: rapid.SampledFrom([]string{"replay", "export", "score-ast", "score-events"}).Draw(t, "last")})
	}
	return h
}

func init() {
	vp.Add("P24", "split", 3000, 60000, func(t *rapid.T) Hist {
		h := Hist{}
		for _, p := range cut(t, genScore(t), rapid.SampledFrom([]int{20, 50, 100}).Draw(t, "pct"), false) {
			h.Ops = append(h.Ops, Op{Op: "eval-and-play", Code: p})
		}
		return h
	}, func(h Hist, r *vp.R) error {
		if len(h.Ops) >= 3 {
			r.NonTrivial()
		}
		return run(h, r)
	}, vp.Flaky())
	vp.Add("P24", "voices", 1500, 40000, func(t *rapid.T) Hist {
		h := Hist{Apart: true}
		p := lang.Music()
		p.N, p.Blocks = 7, 2
		p.Band = rapid.Bool().Draw(t, "band")
		for _, p := range cut(t, lang.Gen(t, p.With("V", 30)), rapid.SampledFrom([]int{20, 50, 100}).Draw(t, "pct"), true) {
			h.Ops = append(h.Ops, Op{Op: "eval-and-play", Code: p})
		}
		return h
	}, func(h Hist, r *vp.R) error {
		within := false
		for i, o := range h.Ops {
			if i+1 < len(h.Ops) && open(o.Code) {
				within = true
			}
		}
		if within {
			r.NonTrivial()
		}
		return run(h, r)
	}, vp.Flaky())
	vp.Add("P24", "history", 1500, 40000, func(t *rapid.T) Hist { return genHist(t, 0, 35) }, func(h Hist, r *vp.R) error {
		if len(h.Ops) >= 4 {
			r.NonTrivial()
		}
		return run(h, r)
	}, vp.Flaky())
	vp.Add("P25", "reject", 3000, 60000, func(t *rapid.T) Hist { return genHist(t, 60, 10) }, func(h Hist, r *vp.R) error {
		r2 := &vp.R{}
		err := run(h, r2)
		r.Sample(h.String())
		if r2.Labelled("rejected") > 0 && len(h.Ops) >= 3 {
			r.NonTrivial()
		}
		return err
	}, vp.Flaky())
}
