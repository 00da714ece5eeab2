package lang

import (
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// Prof says what a generated score may contain.
type Prof struct {
	N         int            // events per part section
	Depth     int            // nesting
	W         map[string]int // weights of the kinds of events
	Band      bool           // begin with an aliased group, and call it and its members often
	Blocks    int            // part sections
	Multi     bool           // groups, aliases, member access
	Names     []string       // instrument names to use
	Attrs     []string       // kinds of attributes in Lisp events
	GlobalPct int            // how many of them are global
	Globals   []string       // kinds of global attributes
	Ms        bool           // lengths in ms and s
	Slur      bool
	Bars      bool
	Reps      []int
	CramPlain bool // only notes and rests in crams
	NoMs      bool
	Head      bool // definitions and attributes before the first part
	MaxInst   int
	Exotic    bool // long ties, unusual lengths
}

// With returns a profile with one weight changed.
func (p Prof) With(kind string, w int) Prof {
	m := map[string]int{}
	for k, v := range p.W {
		m[k] = v
	}
	m[kind] = w
	p.W = m
	return p
}

// AllAttrs lists the attributes a part can set, except MIDI channels.
var AllAttrs = []string{"volume", "dynamic", "track-volume", "panning", "quant", "tempo", "set-duration",
	"set-note-length", "transpose", "key", "octave", "ref-pitch", "metric", "set-duration-ms"}

// Base is a profile with something of everything.
func Base() Prof {
	return Prof{
		N: 9, Depth: 3, Blocks: 3, Multi: true,
		W: map[string]int{"n": 30, "r": 6, "c": 6, "[": 6, "*": 7, "'": 5, "{": 5, "=": 3, "v": 5, "V": 3,
			"%": 2, "@": 2, "(": 8, "o": 4, "m": 5, "|": 3},
		Attrs: AllAttrs, GlobalPct: 12, Globals: []string{"volume", "track-volume", "panning", "quant", "tempo", "transpose"},
		Ms: false, Slur: true, Bars: true, Reps: []int{1, 2, 3, 4}, CramPlain: false, Head: true, MaxInst: 9,
	}
}

// Music is Base without anything that interacts through time between parts.
func Music() Prof {
	p := Base()
	p.GlobalPct = 0
	p.Ms = true
	return p
}

type gctx struct {
	cram, rep, vardef, seq, voice bool
	mult                          int
}

type gen struct {
	t     *rapid.T
	p     Prof
	vars  map[string]int // sizes
	vlist []string
	marks []string
	left  int
	decls []*Ev
	vn    int
}

func (g *gen) n(lo, hi int) int { return rapid.IntRange(lo, hi).Draw(g.t, "n") }

// pct is true in about p percent of the draws, and false in the simplest case.
func (g *gen) pct(p int) bool { return rapid.IntRange(0, 99).Draw(g.t, "p") >= 100-p }

func (g *gen) pick(s []string) string { return s[g.n(0, len(s)-1)] }

var lens = []string{"4", "8", "2", "1", "16", "3", "6", "12", "5", "32", "7", "24"}
var exoticLens = []string{"0.5", "1.5", "64", "10", "9", "100", "0.25", "2.75"}
var msLens = []string{"500", "250", "1000", "333", "50", "1200", "0.5", "37.5"}
var sLens = []string{"1", "0.5", "2", "0.25", "1.5"}

func (g *gen) dur(p int) []DC {
	if !g.pct(p) {
		return nil
	}
	k := 1
	if g.pct(15) {
		k = 2
		if g.pct(30) {
			k = 3
		}
	}
	out := []DC{}
	for i := 0; i < k; i++ {
		c := DC{U: "n"}
		switch {
		case g.p.Ms && g.pct(12):
			c.U, c.V = "ms", g.pick(msLens)
			if g.pct(10) {
				c.V = g.decimal(3000)
			}
		case g.p.Ms && g.pct(8):
			c.U, c.V = "s", g.pick(sLens)
			if g.pct(10) {
				c.V = g.decimal(4)
			}
		case g.pct(10):
			c.V = g.pick(exoticLens)
			if g.pct(25) {
				c.V = g.decimal(100)
			}
		default:
			c.V = g.pick(lens)
		}
		if c.U == "n" && g.pct(18) {
			c.Dots = g.n(1, 3)
			if g.pct(5) {
				c.Dots = g.n(4, 12)
			}
		}
		if g.p.Bars && k > 1 && i < k-1 {
			if g.pct(15) {
				c.B1 = 1
			} else if g.pct(15) {
				c.B2 = g.n(1, 2)
			}
		}
		out = append(out, c)
	}
	return out
}

// decimal is a number of up to hi with many digits.
func (g *gen) decimal(hi int) string {
	f := float64(g.n(1, hi*1000))/1000 + float64(g.n(0, 999999999))*1e-12
	return strconv.FormatFloat(f, 'f', g.n(3, 12), 64)
}

// respace puts other white space into the key signatures outside of variable
// definitions, which have to stay on their line.
func (g *gen) respace(es []*Ev) {
	for _, e := range es {
		if e.K == "=" {
			continue
		}
		if e.K == "(" && e.X != nil && len(e.X.Kids) > 1 && strings.HasPrefix(e.X.Kids[0].V, "key") {
			for _, k := range e.X.Kids[1:] {
				if k.T == "s" && g.pct(20) {
					k.V = strings.Replace(k.V, " ", g.pick([]string{"\t", "\n", "  ", "\n\n ", "\r\n"}), g.n(1, 3))
				}
			}
		}
		g.respace(e.E)
	}
}

func (g *gen) note(chord bool) *Ev {
	e := &Ev{K: "n", L: string(letters[g.n(0, 6)])}
	if g.pct(20) {
		e.A = g.pick([]string{"+", "-", "_", "++", "--", "+-"})
	}
	e.D = g.dur(40)
	if g.p.Slur && g.pct(10) {
		e.S = true
	}
	return e
}

func (g *gen) rest() *Ev { return &Ev{K: "r", D: g.dur(40)} }

// GenAttr draws an attribute change of a kind; every value is valid.
func GenAttr(t *rapid.T, kind string, global bool) *Ev {
	g := &gen{t: t}
	return g.attr(kind, global)
}

func (g *gen) num(lo, hi int) *Lx {
	v := g.n(lo, hi)
	if g.pct(15) {
		return Num(strconv.Itoa(v) + "." + g.pick([]string{"5", "25", "0", "125"}))
	}
	return Num(strconv.Itoa(v))
}

// Tonics of keys, as letter and accidental.
var modes = []string{"major", "minor", "ionian", "dorian", "phrygian", "lydian", "mixolydian", "aeolian", "locrian"}

func (g *gen) attr(kind string, global bool) *Ev {
	bang := ""
	if global {
		bang = "!"
	}
	call := func(names string, a ...*Lx) *Ev {
		return Call(names+bang, a...)
	}
	switch kind {
	case "volume":
		return call(g.pick([]string{"volume", "vol"}), g.num(0, 99))
	case "dynamic":
		return call(g.pick([]string{"mf", "p", "f", "pp", "ff", "mp", "ppp", "fff", "pppp", "ffff", "ppppp", "fffff", "pppppp", "ffffff"}))
	case "track-volume":
		return call(g.pick([]string{"track-volume", "track-vol"}), g.num(0, 99))
	case "panning":
		return call(g.pick([]string{"panning", "pan"}), g.num(0, 99))
	case "quant":
		if g.pct(5) {
			return call("quant", Num("0"))
		}
		return call(g.pick([]string{"quant", "quantize", "quantization"}), g.num(5, 130))
	case "tempo":
		switch g.n(0, 5) {
		case 4:
			return call("tempo", Num(g.pick([]string{"2", "8", "4"})), g.num(20, 200))
		case 5:
			return call("tempo", Str(g.pick([]string{"4.", "2", "8~16", "2..", "0.5"})), g.num(20, 200))
		}
		return call("tempo", g.num(20, 300))
	case "metric":
		a := [][2]string{{"4", "2"}, {"4.", "2"}, {"2", "4."}, {"8", "4"}}[g.n(0, 3)]
		if g.pct(50) && a[0] != "4." && a[1] != "4." {
			return call("metric-modulation", Num(a[0]), Num(a[1]))
		}
		return call("metric-modulation", Str(a[0]), Str(a[1]))
	case "set-duration":
		return call("set-duration", Num(g.pick([]string{"1", "2", "3", "1.5", "4", "2.5"})))
	case "set-duration-ms":
		return call("set-duration-ms", Num(g.pick([]string{"500", "250", "1000", "62.5"})))
	case "set-note-length":
		if g.pct(50) {
			return call("set-note-length", Str(g.pick([]string{"8", "4.", "2~8", "1..", "0.5"})))
		}
		return call("set-note-length", Num(g.pick([]string{"8", "4", "2", "16", "1"})))
	case "transpose":
		return call(g.pick([]string{"transpose", "transposition"}), Num(strconv.Itoa(g.semitones())))
	case "ref-pitch":
		return call(g.pick([]string{"reference-pitch", "tuning-constant"}), g.num(400, 460))
	case "octave":
		return call("octave", Num(strconv.Itoa(g.octave())))
	case "key":
		return call(g.pick([]string{"key-signature", "key-sig"}), g.key())
	}
	panic("attr kind " + kind)
}

func (g *gen) key() *Lx {
	switch g.n(0, 2) {
	case 1: // accidentals
		kids := []*Lx{}
		for i := 0; i < 7; i++ {
			if g.pct(35) {
				a := g.pick([]string{"flat", "sharp"})
				accs := []*Lx{Sym(a)}
				if g.pct(10) {
					accs = append(accs, Sym(a))
				}
				kids = append(kids, Sym(string(letters[i])), Lst(accs...))
			}
		}
		if len(kids) == 0 {
			kids = []*Lx{Sym("f"), Lst(Sym("sharp"))}
		}
		return Quote(Lst(kids...))
	case 2: // tonic and mode
		kids := []*Lx{Sym(string(letters[g.n(0, 6)]))}
		if g.pct(40) {
			a := g.pick([]string{"flat", "sharp"})
			kids = append(kids, Sym(a))
			for i := 0; i < 2 && g.pct(15); i++ {
				kids = append(kids, Sym(a))
			}
		}
		kids = append(kids, Sym(g.pick(modes)))
		return Quote(Lst(kids...))
	}
	s := ""
	for i := 0; i < 7; i++ {
		if g.pct(35) {
			if s != "" {
				s += " "
			}
			s += string(letters[i]) + g.pick([]string{"+", "-", "++", "--"})
		}
	}
	if s == "" {
		s = "f+"
	}
	return Str(s)
}

func (g *gen) attrEv(c gctx) *Ev {
	if g.p.GlobalPct > 0 && !c.cram && g.pct(g.p.GlobalPct) {
		return g.attr(g.pick(g.p.Globals), true)
	}
	return g.attr(g.pick(g.p.Attrs), false)
}

// octave moves are paired so that the octave stays within the keyboard.
type octState struct{ net int }

func (g *gen) chord(c gctx, o *octState) *Ev {
	k := 2
	if g.pct(50) {
		k = g.n(2, 4)
	}
	e := &Ev{K: "c"}
	for i := 0; i < k; i++ {
		if i > 0 && g.pct(30) {
			m := 1
			if g.pct(20) {
				m = 2
			}
			for j := 0; j < m; j++ {
				switch x := g.n(0, 3); {
				case x <= 1 && (g.p.W["m"] > 0):
					e.E = append(e.E, g.move(o))
				case x == 2 && g.p.W["o"] > 0:
					e.E = append(e.E, &Ev{K: "o", N: g.octave()})
					o.net = 0
				case g.p.W["("] > 0:
					e.E = append(e.E, g.attrEv(c))
				}
			}
		}
		if g.pct(15) {
			e.E = append(e.E, g.rest())
		} else {
			e.E = append(e.E, g.note(true))
		}
	}
	return e
}

func (g *gen) move(o *octState) *Ev {
	up := g.pct(50)
	if o.net >= 1 {
		up = false
	} else if o.net <= -1 {
		up = true
	}
	if up {
		o.net++
		return &Ev{K: ">"}
	}
	o.net--
	return &Ev{K: "<"}
}

// octave is mostly one in the middle of the keyboard.
func (g *gen) octave() int {
	if g.pct(12) {
		return g.n(0, 9)
	}
	return g.n(2, 6)
}

func (g *gen) semitones() int {
	if g.pct(10) {
		return g.n(-70, 70)
	}
	return g.n(-7, 7)
}

// excursion goes up or down by octaves, perhaps beyond the keyboard, and back.
func (g *gen) excursion(c gctx, o *octState) []*Ev {
	there, back := ">", "<"
	if g.pct(60) {
		there, back = back, there
	}
	out := []*Ev{}
	k := g.n(1, 9)
	for i := 0; i < k; i++ {
		out = append(out, &Ev{K: there})
	}
	if g.p.W["("] > 0 && g.pct(30) {
		out = append(out, g.attrEv(c))
	} else if g.pct(30) {
		out = append(out, g.note(false))
	}
	for i := 0; i < k; i++ {
		out = append(out, &Ev{K: back})
	}
	return out
}

func balance(evs []*Ev, o *octState) []*Ev {
	for o.net > 0 {
		evs = append(evs, &Ev{K: "<"})
		o.net--
	}
	for o.net < 0 {
		evs = append(evs, &Ev{K: ">"})
		o.net++
	}
	return evs
}

var kindOrder = []string{"n", "r", "c", "m", "o", "|", "(", "[", "*", "'", "{", "v", "=", "%", "@", "V"}

func (g *gen) kind(c gctx, depth int) string {
	total := 0
	w := func(k string) int {
		x := g.p.W[k]
		switch k {
		case "[", "*", "{":
			if depth <= 0 {
				return 0
			}
		case "'":
			if !c.seq || !c.rep || c.voice {
				return 0
			}
			if c.cram {
				return x / 2
			}
		case "=":
			if c.vardef || c.seq || c.cram || c.rep || c.voice {
				return 0
			}
		case "v":
			if len(g.vlist) == 0 {
				return 0
			}
		case "V":
			if c.cram || c.voice || depth <= 0 || c.vardef {
				return 0
			}
		case "%":
			if c.cram || c.vardef {
				return 0
			}
		case "@":
			if c.cram || len(g.marks) == 0 || c.vardef {
				return 0
			}
		}
		if c.cram && g.p.CramPlain && k != "n" && k != "r" && k != "{" && k != "|" {
			return 0
		}
		return x
	}
	for _, k := range kindOrder {
		total += w(k)
	}
	x := g.n(0, total-1)
	for _, k := range kindOrder {
		if x < w(k) {
			return k
		}
		x -= w(k)
	}
	return "n"
}

// events generates the contents of a container.
func (g *gen) events(n, depth int, c gctx) []*Ev {
	o := &octState{}
	out := []*Ev{}
	sounding := false
	for i := 0; i < n; i++ {
		if g.left <= 0 && len(out) > 0 {
			break
		}
		es := g.event(depth, c, o)
		for _, e := range es {
			if e.K == "n" || e.K == "r" || e.K == "c" {
				sounding = true
			}
		}
		out = append(out, es...)
	}
	if c.cram && !sounding {
		out = append(out, g.note(false))
	}
	return balance(out, o)
}

func size(evs []*Ev) int {
	n := 0
	for _, e := range evs {
		k := 1 + size(e.E)
		if e.K == "*" {
			k *= e.N
		}
		n += k
	}
	return n
}

func (g *gen) count(c gctx) int {
	hi := 4
	return g.n(1, hi)
}

func (g *gen) event(depth int, c gctx, o *octState) []*Ev {
	g.left--
	one := func(e *Ev) []*Ev { return []*Ev{e} }
	inner := c
	inner.voice = false
	switch k := g.kind(c, depth); k {
	case "n":
		return one(g.note(false))
	case "r":
		return one(g.rest())
	case "c":
		return one(g.chord(c, o))
	case "m":
		if g.pct(8) { // there and back again
			return g.excursion(c, o)
		}
		return one(g.move(o))
	case "o":
		o.net = 0
		return one(&Ev{K: "o", N: g.octave()})
	case "|":
		if !g.p.Bars {
			return one(g.note(false))
		}
		return one(&Ev{K: "|"})
	case "(":
		return one(g.attrEv(c))
	case "[":
		inner.seq = true
		return one(&Ev{K: "[", E: g.events(g.count(c), depth-1, inner)})
	case "{":
		inner.cram = true
		inner.seq = false
		return one(&Ev{K: "{", E: g.events(g.count(c), depth-1, inner), D: g.dur(60)})
	case "*":
		times := g.p.Reps[g.n(0, len(g.p.Reps)-1)]
		if c.mult*times > 64 || times == 0 && c.cram {
			times = 1
		}
		inner.mult = c.mult * times
		var e *Ev
		switch x := g.n(0, 9); {
		case x <= 5:
			inner.seq, inner.rep = true, true
			e = &Ev{K: "[", E: g.events(g.count(c)+1, depth-1, inner)}
		case x == 6:
			e = g.note(false)
		case x == 7 && g.p.W["c"] > 0:
			co := &octState{}
			e = g.chord(c, co)
			if co.net != 0 { // keep repeated chords in place
				e = &Ev{K: "[", E: balance([]*Ev{e}, co)}
			}
		case x == 8 && g.p.W["{"] > 0:
			inner.cram, inner.seq = true, false
			inner.rep = true
			e = &Ev{K: "{", E: g.events(g.count(c), depth-1, inner), D: g.dur(60)}
		case x == 9 && len(g.vlist) > 0:
			v := g.pick(g.vlist)
			e = &Ev{K: "v", Nm: v}
		default:
			e = g.rest()
		}
		return one(&Ev{K: "*", N: times, E: []*Ev{e}})
	case "'":
		// The event of an ending: anything that may stand in a sequence.
		var ev *Ev
		for try := 0; ; try++ {
			oo := &octState{}
			es := g.event(depth, noEndings(c), oo)
			if len(es) == 1 && oo.net == 0 && es[0].K != "|" && es[0].K != "V" && es[0].K != "=" {
				ev = es[0]
				break
			}
			if try > 3 {
				ev = g.note(false)
				break
			}
		}
		n := 1
		if g.pct(30) {
			n = g.n(1, 3)
		}
		rs := [][2]int{}
		for i := 0; i < n; i++ {
			a := g.n(1, 4)
			b := a
			if g.pct(30) {
				b = a + g.n(0, 2)
			}
			rs = append(rs, [2]int{a, b})
		}
		return one(&Ev{K: "'", E: []*Ev{ev}, R: rs})
	case "v":
		v := g.pick(g.vlist)
		if g.vars[v]*c.mult > 600 {
			return one(g.note(false))
		}
		return one(&Ev{K: "v", Nm: v})
	case "=":
		name := ""
		if len(g.vlist) > 0 && g.pct(30) {
			name = g.pick(g.vlist)
		} else {
			name = []string{"theme", "riff", "bar2", "verse_1", "la-la", "xs"}[g.vn%6]
			g.vn++
		}
		inner.vardef = true
		inner.mult = 4
		body := g.events(g.count(c), depth-1, inner)
		total := size(body)
		Walk(body, func(e *Ev, d int) {
			if e.K == "v" {
				total += g.vars[e.Nm]
			}
		})
		known := false
		for _, v := range g.vlist {
			known = known || v == name
		}
		if !known {
			g.vlist = append(g.vlist, name)
		}
		if total > g.vars[name] {
			g.vars[name] = total
		}
		return one(&Ev{K: "=", Nm: name, E: body})
	case "%":
		m := g.pick([]string{"verse", "m1", "chorus-2", "x_y"})
		g.marks = append(g.marks, m)
		return one(&Ev{K: "%", Nm: m})
	case "@":
		return one(&Ev{K: "@", Nm: g.pick(g.marks)})
	case "V":
		out := balance([]*Ev{}, o)
		inner.voice = true
		nv := 2
		if g.pct(40) {
			nv = g.n(1, 4)
		}
		nums := []int{}
		for i := 0; i < nv; i++ {
			num := i + 1
			if len(nums) > 0 && g.pct(20) {
				num = nums[g.n(0, len(nums)-1)]
			} else if g.pct(10) {
				num = g.n(1, 9)
			}
			nums = append(nums, num)
			out = append(out, &Ev{K: "V", N: num})
			out = append(out, g.events(g.count(c), depth-1, inner)...)
		}
		return append(out, &Ev{K: "V", N: 0})
	}
	return one(g.note(false))
}

func noEndings(c gctx) gctx {
	c.voice = true // neither endings nor voices directly inside an ending
	return c
}

var defaultNames = []string{"piano", "violin", "guitar", "trumpet", "cello", "midi-percussion", "midi-harpsichord", "percussion", "midi-acoustic-grand-piano"}

// decl draws a part declaration that is acceptable after those before it.
func (g *gen) decl(first bool) *Ev {
	names := g.p.Names
	if names == nil {
		names = defaultNames
	}
	sh := NewScore()
	sh.Run(g.decls)
	aliases := []string{}
	for _, d := range g.decls {
		if d.Al != "" {
			aliases = append(aliases, d.Al)
		}
	}
	max := g.p.MaxInst
	if max == 0 {
		max = 9
	}
	for try := 0; try < 6; try++ {
		e := &Ev{K: "p"}
		if !g.p.Multi {
			e.Nms = []string{g.pick(names)}
		} else {
			e = g.anyDecl(sh, names, aliases)
		}
		cp := NewScore()
		if cp.Run(append(append([]*Ev{}, g.decls...), e)) != nil || len(cp.Insts) > max {
			continue
		}
		return e
	}
	if len(g.decls) > 0 {
		d := g.decls[len(g.decls)-1]
		if d.Al != "" {
			return &Ev{K: "p", Nms: []string{d.Al}}
		}
		return d.Clone()
	}
	return &Ev{K: "p", Nms: []string{names[0]}}
}

// anyDecl draws any instrument call, acceptable or not.
func (g *gen) anyDecl(sh *Score, names, aliases []string) *Ev {
	e := &Ev{K: "p"}
	newAlias := func() string { return []string{"al", "foo", "bar-x", "solo", "zed", "qu", "ww_1", "kk"}[g.n(0, 7)] }
	member := func(a string) string {
		opts := []string{}
		for _, in := range sh.Aliases[a] {
			opts = append(opts, a+"."+in.Name)
		}
		for _, b := range aliases {
			if b != a && len(sh.Aliases[a+"."+b]) > 0 {
				opts = append(opts, a+"."+b)
			}
		}
		if len(opts) == 0 {
			return a
		}
		return g.pick(opts)
	}
	x := g.n(0, 9)
	if g.p.Band && len(aliases) == 0 {
		for i := g.n(2, 4); i > 0; i-- {
			e.Nms = append(e.Nms, names[(g.n(0, len(names)-1)/5*5+i)%len(names)])
		}
		e.Al = newAlias()
		return e
	}
	if g.p.Band && g.pct(75) {
		e.Nms = []string{g.pick(aliases)}
		if x >= 3 {
			e.Nms[0] = member(e.Nms[0])
		}
		return e
	}
	switch {
	case x <= 2 || (len(aliases) == 0 && x >= 6):
		e.Nms = []string{g.pick(names)}
	case x == 3:
		e.Nms = []string{g.pick(names)}
		e.Al = newAlias()
	case x == 4:
		e.Nms = []string{g.pick(names), g.pick(names)}
		if g.pct(30) {
			e.Nms = append(e.Nms, g.pick(names))
		}
	case x == 5:
		e.Nms = []string{g.pick(names), g.pick(names)}
		for len(e.Nms) < 4 && g.pct(30) {
			e.Nms = append(e.Nms, g.pick(names))
		}
		e.Al = newAlias()
	case x <= 7:
		e.Nms = []string{g.pick(aliases)}
	case x == 8:
		e.Nms = []string{member(g.pick(aliases))}
	default:
		e.Nms = []string{g.pick(aliases), g.pick(aliases)}
		if g.pct(30) {
			e.Nms[1] = member(e.Nms[1])
		}
		if g.pct(50) {
			e.Al = newAlias()
		}
	}
	return e
}

// Decls draws a history of instrument calls, most of them acceptable.
func Decls(t *rapid.T, n int, names []string) []*Ev {
	g := &gen{t: t, p: Prof{Multi: true, Names: names}}
	out := []*Ev{}
	sh := NewScore()
	aliases := []string{}
	for i := 0; i < n; i++ {
		e := g.anyDecl(sh, names, aliases)
		cp := NewScore()
		if cp.Run(append(Clone(out), e)) != nil {
			// an unacceptable call ends the history, usually
			if !g.pct(12) {
				continue
			}
			return append(out, e)
		}
		if len(cp.Insts) > 14 { // there are only so many channels
			continue
		}
		sh = cp
		out = append(out, e)
		if e.Al != "" {
			aliases = append(aliases, e.Al)
		}
	}
	return out
}

// Gen draws a score of a profile. The reference accepts it.
func Gen(t *rapid.T, p Prof) []*Ev {
	return Repair(GenAny(t, p))
}

// GenAny draws a score of a profile without making sure that it is accepted.
func GenAny(t *rapid.T, p Prof) []*Ev {
	g := &gen{t: t, p: p, vars: map[string]int{}}
	out := []*Ev{}
	if p.Head && g.pct(25) {
		k := g.n(1, 3)
		for i := 0; i < k; i++ {
			if p.GlobalPct > 0 && g.pct(40) {
				out = append(out, g.attr(g.pick(p.Globals), true))
			} else if p.W["="] > 0 {
				g.left = 6
				inner := gctx{vardef: true, mult: 4}
				name := []string{"theme", "riff", "bar2", "verse_1", "la-la", "xs"}[g.vn%6]
				g.vn++
				body := g.events(g.n(1, 3), 1, inner)
				g.vlist = append(g.vlist, name)
				g.vars[name] = size(body) * 4
				out = append(out, &Ev{K: "=", Nm: name, E: body})
			}
		}
	}
	blocks := 1
	if p.Blocks > 1 {
		blocks = g.n(1, p.Blocks)
	}
	for b := 0; b < blocks; b++ {
		d := g.decl(b == 0)
		g.decls = append(g.decls, d)
		out = append(out, d)
		g.left = p.N * 4
		out = append(out, g.events(g.n(1, p.N), p.Depth, gctx{mult: 1})...)
	}
	g.respace(out)
	return out
}

// Repair removes events which the reference rejects, so that the rest is a
// valid score of bounded size.
func Repair(evs []*Ev) []*Ev {
	for try := 0; try < 60; try++ {
		ResetCaptured()
		s := NewScore()
		err := s.Run(evs)
		if err == nil {
			return evs
		}
		bad := -1
		if ee, ok := err.(*EvalErr); ok {
			top := ee.Ev
			if len(ee.Path) > 0 {
				top = ee.Path[0]
			}
			for i, e := range evs {
				if e == top {
					bad = i
				}
			}
		}
		if bad < 0 {
			bad = len(evs) - 1
		}
		evs = append(append([]*Ev{}, evs[:bad]...), evs[bad+1:]...)
	}
	return []*Ev{{K: "p", Nms: []string{"piano"}}, {K: "n", L: "c"}}
}
