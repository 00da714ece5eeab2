package pimp

import (
	"pgregory.net/rapid"
)

// Prof says what generated scores may contain.
type Prof struct {
	Voices, Repeats, Endings, Attrs, Ties, Partial, Slurs, Percussion, Gaps, Cues, NoVoice bool
}

// All is everything that is supported.
var All = Prof{true, true, true, true, true, false, true, true, true, true, true}

type gen struct {
	t     *rapid.T
	p     Prof
	trans bool // the part may be transposed
}

func (g *gen) n(lo, hi int, label string) int { return rapid.IntRange(lo, hi).Draw(g.t, label) }
func (g *gen) one(in int, label string) bool  { return g.n(0, in-1, label) == in-1 }

type length struct{ num, den, dots int }

var lengths = []length{{1, 1, 0}, {1, 2, 0}, {2, 1, 0}, {3, 2, 1}, {3, 4, 1}, {1, 4, 0}, {4, 1, 0}, {3, 1, 1}, {7, 2, 2}, {7, 4, 2},
	{2, 3, 0}, {1, 3, 0}, {1, 6, 0}, {1, 8, 0}, {4, 3, 0}, {1, 5, 0}, {2, 5, 0}, {5, 1, 0}, {5, 2, 0}, {7, 8, 2}, {1, 16, 0}, {15, 8, 3}, {6, 1, 1}, {8, 1, 0}, {10, 1, 0}, {9, 1, 0}, {14, 1, 0}, {12, 1, 1}, {11, 2, 0}, {9, 2, 0}}

var names = []string{"Flute", "Violin I", "Drumset", "Wood Blocks", "Tom-Tom 1", "Drums (L)", "", "Große Trommel", "5 Congas", "Piano",
	"timpani", "a", "Bass Drum", "Caisse \"claire\"", "Tambourin, cymbale", "X", "A/B", "drum.kit"}

// Gen draws a score.
func Gen(t *rapid.T, p Prof) *Score {
	g := &gen{t: t, p: p}
	s := &Score{Noise: g.n(0, 10, "noise"), IDs: g.n(0, 4, "ids")}
	type plan struct {
		times, ends int
		fwd, attr   bool
		body        []int // lengths in quarters
		nums        [][]int
		endb        [][]int
		disc        bool
	}
	small := g.n(0, 3, "size") < 3
	bars := func(hi int) []int {
		if small {
			hi = 1
		}
		out := []int{}
		k := g.n(1, hi, "measures")
		for i := 0; i < k; i++ {
			out = append(out, []int{4, 3, 2, 4, 1, 5, 6, 9, 16}[g.n(0, 8, "metre")])
		}
		return out
	}
	plans := []plan{}
	sections := 4
	if small {
		sections = 2
	}
	k := g.n(1, sections, "sections")
	for i := 0; i < k; i++ {
		pl := plan{body: bars(3)}
		kind := g.n(0, 3, "kind")
		switch {
		case kind == 2 && p.Repeats:
			pl.times = []int{2, 2, 3, 4, 1}[g.n(0, 4, "times")]
			pl.fwd = i > 0 || !g.one(3, "implicit")
			pl.attr = g.one(3, "attr")
		case kind == 3 && p.Endings:
			pl.fwd = i > 0 || !g.one(3, "implicit")
			pl.ends = g.n(2, 3, "endings")
			pl.disc = g.one(2, "discontinue")
			next := 1
			for e := 0; e < pl.ends; e++ {
				nums := []int{next}
				next++
				if e < pl.ends-1 && g.one(5, "more numbers") {
					nums = append(nums, next)
					next++
				}
				pl.nums = append(pl.nums, nums)
				pl.endb = append(pl.endb, bars(2))
			}
		}
		plans = append(plans, pl)
	}
	np := []int{1, 1, 1, 2, 2, 3, 4, 11}[g.n(0, 7, "parts")]
	if small && np > 1 && !g.one(4, "many parts") {
		np = 1
	}
	progs := []int{1, 0, 74, 128, 41, 1, 41, 100}
	for i := 0; i < np; i++ {
		pt := &Part{Name: names[g.n(0, len(names)-1, "name")]}
		if g.p.Percussion && g.one(4, "percussion") {
			pt.Prog = -1
			for d := g.n(1, 3, "drums"); d > 0; d-- {
				n := []int{36, 39, 77, 81, 82, 50, 13, 128, 24, 25, 35, 60, 1, 12, 5, 0}[g.n(0, 15, "drum")]
				if n == 0 {
					n = g.n(1, 128, "any drum")
				}
				dup := false
				for _, x := range pt.Drums {
					dup = dup || x == n
				}
				if !dup {
					pt.Drums = append(pt.Drums, n)
				}
			}
		} else {
			pt.Prog = progs[g.n(0, len(progs)-1, "program")]
		}
		pt.Div = []int{1, 2, 4, 6, 8, 12, 16, 24, 48, 96, 120, 60, 480, 960, 10080}[g.n(0, 14, "divisions")]
		short := np > 4
		g.trans = pt.Prog >= 0 && g.one(3, "transposed")
		nums := []int{1}
		if g.p.Voices {
			nums = [][]int{{1}, {1}, {1, 2}, {1, 5}, {1, 2, 5}, {2, 3}, {0}, {2}}[g.n(0, 7, "voices")]
			if nums[0] == 0 && !g.p.NoVoice {
				nums = []int{1}
			}
		}
		first := true
		fill := func(bars []int, attrs bool) []*Measure {
			out := []*Measure{}
			for j, q := range bars {
				if short && j > 0 {
					continue
				}
				m := &Measure{Len: q * pt.Div}
				if (first && g.one(2, "first key")) || (attrs && g.one(5, "key")) {
					f := g.n(-7, 7, "fifths")
					m.Key = &f
				}
				if g.trans && ((first && g.one(2, "first transposition")) || (attrs && g.one(4, "transposition"))) {
					f := g.n(-12, 12, "chromatic")
					m.Trans = &f
					if g.one(3, "octave-change?") {
						m.Oct = g.n(-1, 1, "octave-change")
					}
				}
				first = false
				for vi, vn := range nums {
					if vi > 0 && g.one(3, "voice absent") {
						continue
					}
					m.V = append(m.V, g.voice(pt, m, vn))
				}
				full := false
				for _, v := range m.V {
					full = full || v.Tail || v.length() == m.Len
				}
				if !full {
					m.V[len(m.V)-1].Tail = true
				}
				out = append(out, m)
			}
			return out
		}
		attrs := func(pl plan) bool { return g.p.Attrs && pl.times == 0 && pl.ends == 0 }
		for _, pl := range plans {
			st := &Sect{Fwd: pl.fwd, Times: pl.times, Attr: pl.attr, Body: fill(pl.body, attrs(pl))}
			for e := 0; e < pl.ends; e++ {
				st.Ends = append(st.Ends, &End{Nums: pl.nums[e], Ms: fill(pl.endb[e], false), Disc: pl.disc && e == pl.ends-1})
			}
			g.link(pt, st.Body)
			for _, e := range st.Ends {
				g.link(pt, e.Ms)
			}
			if len(pt.Sects) > 0 && g.one(3, "within a measure") {
				st.Body[0].Join = true
			}
			if pl.ends > 0 && g.one(5, "ending within a measure") {
				st.Ends[0].Ms[0].Join = true
			}
			pt.Sects = append(pt.Sects, st)
		}
		s.Parts = append(s.Parts, pt)
	}
	return s
}

func (g *gen) voice(p *Part, m *Measure, n int) *Voice {
	v := &Voice{N: n}
	at := 0
	can := func(l length) int {
		if l.num*p.Div%l.den != 0 {
			return 0
		}
		d := l.num * p.Div / l.den
		if at+d > m.Len {
			return 0
		}
		return d
	}
	gaps := g.p.Gaps && n != 0
	if gaps && g.one(8, "skip") {
		if d := can(lengths[g.n(0, 5, "skip length")]); d > 0 && d < m.Len {
			v.Skip = d
			at = d
		}
	}
	stop := false
	for at < m.Len && !stop {
		var opts []length
		for _, l := range lengths {
			if can(l) > 0 {
				opts = append(opts, l)
			}
		}
		if len(opts) == 0 {
			v.Items = append(v.Items, &Item{Len: m.Len - at, Kind: "rest"})
			break
		}
		l := opts[g.n(0, len(opts)-1, "length")]
		it := &Item{Len: can(l), Dots: l.dots, Kind: "note"}
		switch k := g.n(0, 19, "item"); {
		case k >= 18 && gaps:
			it.Kind, it.Dots = "gap", 0
			if at == 0 || at+it.Len == m.Len {
				it.Kind = "rest" // the ends of measures are Skip and Tail
			}
		case k >= 15:
			it.Kind = "rest"
			if g.one(4, "no dots") {
				it.Dots = 0
			}
		case k == 14 && g.p.Cues:
			it.Kind = "cue"
			it.P = []*Pitch{g.pitch(p)}
		case k == 13 && gaps && at > 0:
			stop = true
			v.Tail = g.one(2, "tail")
			continue
		case k == 12:
			it.Dyn = []string{"p", "mf", "ff", "ppp"}[g.n(0, 3, "dynamics")]
			fallthrough
		default:
			c := []int{1, 1, 1, 2, 3}[g.n(0, 4, "notes")]
			for i := 0; i < c; i++ {
				q := g.pitch(p)
				dup := false
				for _, o := range it.P {
					dup = dup || same(o, q)
				}
				if !dup {
					it.P = append(it.P, q)
				}
			}
		}
		v.Items = append(v.Items, it)
		at += it.Len
	}
	return v
}

func midi(q *Pitch) int { return 12*q.Oct + steps[q.Step] + q.Alter }

// same tells whether two pitches look or sound alike.
func same(a, b *Pitch) bool {
	if a.Step == "" {
		return a.Drum == b.Drum
	}
	return midi(a) == midi(b) || a.Step == b.Step && a.Oct == b.Oct
}

func (g *gen) pitch(p *Part) *Pitch {
	if p.Prog < 0 {
		return &Pitch{Drum: g.n(0, len(p.Drums)-1, "which drum")}
	}
	q := &Pitch{Step: []string{"C", "D", "E", "F", "G", "A", "B"}[g.n(0, 6, "step")],
		Alter: []int{0, 0, 0, 0, 1, -1, 2, -2}[g.n(0, 7, "alter")],
		Oct:   []int{4, 4, 5, 3, 5, 2, 6, 7, 1, 0, 8, 9}[g.n(0, 11, "octave")]}
	if n := 12*(q.Oct+1) + steps[q.Step] + q.Alter; n > 127 {
		q.Oct = 8
	} else if n < 0 {
		q.Oct = 1
	}
	if g.trans && q.Oct > 6 {
		q.Oct = 6
	} else if g.trans && q.Oct < 2 {
		q.Oct = 2
	}
	q.Zero = q.Alter == 0 && g.one(6, "alter 0")
	q.Acc = g.one(3, "displayed")
	return q
}

// link ties notes to the next and slurs them.
func (g *gen) link(p *Part, ms []*Measure) {
	type prev struct {
		it  *Item
		end bool
	}
	last := map[int]*Item{}
	slur := map[int]*Item{}
	for _, m := range ms {
		if m.Key != nil || m.Trans != nil {
			last = map[int]*Item{}
		}
		seen := map[int]bool{}
		for _, v := range m.V {
			seen[v.N] = true
			cur := last[v.N]
			if v.Skip > 0 {
				cur = nil
			}
			at := v.Skip
			for _, it := range v.Items {
				at += it.Len
				if it.Kind != "note" {
					cur = nil
					continue
				}
				if cur != nil && g.p.Ties && g.one(5, "tie") {
					g.tie(p, cur, it)
				}
				if g.p.Slurs {
					if slur[v.N] == nil && g.one(8, "slur") {
						it.Slur = "start"
						slur[v.N] = it
					} else if slur[v.N] != nil && g.one(2, "slur ends") {
						it.Slur = "stop"
						slur[v.N] = nil
					}
				}
				cur = it
			}
			if at < m.Len {
				cur = nil
			}
			last[v.N] = cur
		}
		for n := range last {
			if !seen[n] {
				last[n] = nil
			}
		}
	}
	for _, it := range slur {
		if it != nil {
			it.Slur = ""
		}
	}
}

func (g *gen) tie(p *Part, a, b *Item) {
	if g.p.Partial && g.one(3, "some only") {
		i := g.n(0, len(a.P)-1, "which note")
		for _, q := range b.P {
			if q.Tied || same(q, a.P[i]) {
				return
			}
		}
		c := *a.P[i]
		c.Tie, c.Tied = false, true
		a.P[i].Tie = true
		at := g.n(0, len(b.P), "where")
		b.P = append(b.P[:at], append([]*Pitch{&c}, b.P[at:]...)...)
		return
	}
	b.P = nil
	for _, q := range a.P {
		c := *q
		c.Tie, c.Tied = false, true
		c.Acc = false
		q.Tie = true
		b.P = append(b.P, &c)
	}
}

func (v *Voice) length() int {
	at := v.Skip
	for _, it := range v.Items {
		at += it.Len
	}
	return at
}
