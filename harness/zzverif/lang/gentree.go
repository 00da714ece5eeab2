package lang

import (
	"strconv"

	"pgregory.net/rapid"
)

// GenTree draws a score that is well formed by the grammar; whether it can be
// evaluated does not matter.
func GenTree(t *rapid.T, n int) []*Ev {
	g := &treeGen{gen: &gen{t: t, p: Prof{Ms: true, Slur: true, Bars: true}}, left: n}
	out := []*Ev{}
	if g.pct(70) {
		out = append(out, g.decl())
	}
	out = append(out, g.top(g.n(0, n))...)
	for g.pct(40) && g.left > 0 {
		out = append(out, g.decl())
		out = append(out, g.top(g.n(0, n))...)
	}
	if len(out) == 0 {
		out = append(out, g.note(false))
	}
	g.respaceAll(out)
	return out
}

// respaceAll puts white space into the strings outside of variable definitions.
func (g *treeGen) respaceAll(es []*Ev) {
	var form func(x *Lx)
	form = func(x *Lx) {
		if x.T == "s" && g.pct(20) {
			x.V = x.V + g.pick([]string{"\t", "\n", " ", "\n\n ", "\r\n", "\n#", "\n(", "|"}) + x.V
		}
		for _, k := range x.Kids {
			form(k)
		}
	}
	for _, e := range es {
		if e.K == "=" {
			continue
		}
		if e.X != nil {
			form(e.X)
		}
		g.respaceAll(e.E)
	}
}

type treeGen struct {
	*gen
	left int
}

var treeNames = []string{"piano", "xy", "foo", "ba_r", "a-b", "theme1", "verse'", "ab(c)", "x.y", "Violin", "rr", "oo4", "cc", "VV", "ms", "fis+", "la.la.2"}

func (g *treeGen) name() string {
	for {
		s := g.pick(treeNames)
		if isLetterB(s[0]) && isLetterB(s[1]) {
			return s
		}
	}
}

func isLetterB(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }

func (g *treeGen) decl() *Ev {
	e := &Ev{K: "p", Nms: []string{g.name()}}
	for g.pct(30) && len(e.Nms) < 4 {
		e.Nms = append(e.Nms, g.name())
	}
	if g.pct(30) {
		e.Al = g.name()
	}
	return e
}

func (g *treeGen) top(n int) []*Ev {
	out := []*Ev{}
	for i := 0; i < n && g.left > 0; i++ {
		switch x := g.n(0, 19); {
		case x == 0:
			g.left--
			e := &Ev{K: "=", Nm: g.name(), E: []*Ev{g.ev(2, false)}}
			for g.pct(50) && len(e.E) < 5 {
				e.E = append(e.E, g.ev(2, false))
			}
			out = append(out, e)
		case x == 1:
			k := g.n(1, 3)
			for j := 0; j < k; j++ {
				out = append(out, &Ev{K: "V", N: g.n(1, 12)})
				m := g.n(0, 3)
				for l := 0; l < m; l++ {
					out = append(out, g.ev(2, false))
				}
			}
			out = append(out, &Ev{K: "V"})
		default:
			out = append(out, g.ev(3, false))
		}
	}
	return out
}

func (g *treeGen) evs(depth int, seq bool) []*Ev {
	out := []*Ev{}
	k := g.n(0, 4)
	for i := 0; i < k; i++ {
		out = append(out, g.ev(depth, seq))
	}
	return out
}

func (g *treeGen) ev(depth int, seq bool) *Ev {
	g.left--
	if g.left < 0 {
		return g.note(false)
	}
	e := g.single(depth, seq)
	switch e.K {
	case "n", "r", "c", "[", "{", "v", "(":
		if g.pct(8) {
			e = &Ev{K: "*", N: []int{0, 1, 2, 3, 12, 100, 2147483647}[g.n(0, 6)], E: []*Ev{e}}
		}
	}
	if seq && e.K != "|" && e.K != "V" && g.pct(12) {
		e = &Ev{K: "'", E: []*Ev{e}}
		for i := g.n(1, 3); i > 0; i-- {
			a := g.n(1, 12)
			e.R = append(e.R, [2]int{a, a + g.n(0, 3)})
		}
	}
	return e
}

func (g *treeGen) single(depth int, seq bool) *Ev {
	x := g.n(0, 25)
	if depth <= 0 && x >= 19 {
		x = g.n(0, 18)
	}
	switch {
	case x <= 7:
		n := g.note(false)
		if g.pct(10) {
			n.A = g.pick([]string{"+++", "_-+", "----", "_"})
		}
		if len(n.D) > 0 && g.pct(15) {
			n.D[0].V = g.pick([]string{"1000000", "0.001", "128", "7.125", "3.3333333"})
		}
		return n
	case x <= 9:
		return g.rest()
	case x == 10:
		return &Ev{K: "o", N: []int{0, 1, 4, 9, 10, 127, 2147483647}[g.n(0, 6)]}
	case x == 11:
		return &Ev{K: g.pick([]string{"<", ">"})}
	case x == 12:
		return &Ev{K: "|"}
	case x == 13:
		return &Ev{K: "%", Nm: g.mark()}
	case x == 14:
		return &Ev{K: "@", Nm: g.mark()}
	case x <= 16:
		return &Ev{K: "v", Nm: g.name()}
	case x <= 18:
		return &Ev{K: "(", X: g.list(2, true)}
	case x <= 20:
		e := &Ev{K: "c", E: []*Ev{g.note(true)}}
		for i := g.n(1, 3); i > 0; i-- {
			if g.pct(30) {
				switch g.n(0, 2) {
				case 0:
					e.E = append(e.E, &Ev{K: g.pick([]string{"<", ">"})})
				case 1:
					e.E = append(e.E, &Ev{K: "o", N: g.n(0, 9)})
				case 2:
					e.E = append(e.E, &Ev{K: "(", X: g.list(1, true)})
				}
			}
			if g.pct(15) {
				e.E = append(e.E, g.rest())
			} else {
				e.E = append(e.E, g.note(true))
			}
		}
		return e
	case x <= 23:
		return &Ev{K: "[", E: g.evs(depth-1, true)}
	}
	e := &Ev{K: "{", E: g.evs(depth-1, false), D: g.dur(60)}
	if len(e.E) == 0 {
		e.E = []*Ev{g.note(false)}
	}
	return e
}

func (g *treeGen) mark() string {
	return g.pick([]string{"m", "verse", "1", "a-b", "x'", "(q)", "2nd", "_", "m.1", "+"})
}

func (g *treeGen) list(depth int, call bool) *Lx {
	x := &Lx{T: "l"}
	k := g.n(0, 4)
	if call {
		x.Kids = append(x.Kids, Sym(g.sym()))
		k = g.n(0, 3)
	}
	for i := 0; i < k; i++ {
		x.Kids = append(x.Kids, g.form(depth-1))
	}
	return x
}

func (g *treeGen) sym() string {
	return g.pick([]string{"tempo", "volume!", "quant", "x", "a-b", "o", "c", "V1:", "key-signature", "*", "list", "mf", "up", "a'b", "%m", "x=y", "<", "ünï", "a/b", "~", "|", "+"})
}

func (g *treeGen) form(depth int) *Lx {
	x := g.n(0, 9)
	if depth <= 0 && x >= 7 {
		x = g.n(0, 6)
	}
	switch {
	case x <= 1:
		return Num(strconv.Itoa(g.n(-200, 400)))
	case x == 2:
		return Num(g.pick([]string{"0.5", "-0.25", "100", "3.14159", "1000000", "0", "12345.678", "0.001"}))
	case x <= 4:
		return Str(g.pick([]string{"", "8", "f+ c+", "a b c", "piano: [c", "# no comment", "2.~4", "ünïcødé", "'(x)"}))
	case x <= 6:
		return Sym(g.sym())
	case x == 7:
		return g.list(depth, false)
	}
	switch g.n(0, 2) {
	case 0:
		return Quote(Sym(g.sym()))
	case 1:
		return Quote(g.list(depth, false))
	}
	return Quote(Num("4"))
}

// OpenVoices leaves out some of the ends of voice groups that are followed by
// a part or the end.
func OpenVoices(evs []*Ev, lay []int) []*Ev {
	out := []*Ev{}
	for i, e := range evs {
		last := i == len(evs)-1 || evs[i+1].K == "p"
		if e.K == "V" && e.N == 0 && last && len(lay)%2 == 1 {
			continue
		}
		out = append(out, e)
	}
	return out
}
