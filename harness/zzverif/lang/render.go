package lang

import (
	"fmt"
	"strconv"
	"strings"
)

// Tok is one written token and where it is.
type Tok struct {
	Kind      string
	Text      string
	Ev        *Ev // the construct whose anchor this token is, if any
	X         *Lx
	Line, Col int
	Off       int  // in bytes
	strict    bool // never separated from the previous token
	tight     bool // by default not separated from the previous token
	locked    bool // no line break allowed before this token
	freshLine bool // must be preceded by a line break
}

// Text is a rendered score.
type Text struct {
	S     string
	Toks  []*Tok
	spans map[*Ev][2]int
}

// Span returns the first and the last token of a construct, or nil.
func (t *Text) Span(e *Ev) (*Tok, *Tok) {
	s, ok := t.spans[e]
	if !ok || s[0] >= s[1] {
		return nil, nil
	}
	return t.Toks[s[0]], t.Toks[s[1]-1]
}

// Within lists the tokens of a construct.
func (t *Text) Within(e *Ev) []*Tok {
	s, ok := t.spans[e]
	if !ok {
		return nil
	}
	return t.Toks[s[0]:s[1]]
}

// At returns the position of the anchor of a construct.
func (t *Text) At(e *Ev) *Tok {
	for _, k := range t.Toks {
		if k.Ev == e {
			return k
		}
	}
	return nil
}

type tokenizer struct {
	toks      []*Tok
	locked    bool
	freshNext bool
	lay       *layout
	spans     map[*Ev][2]int
}

func (z *tokenizer) add(kind, text string, ev *Ev) *Tok {
	t := &Tok{Kind: kind, Text: text, Ev: ev, locked: z.locked}
	if z.freshNext {
		t.freshLine = true
		z.freshNext = false
	}
	z.toks = append(z.toks, t)
	return t
}

func (z *tokenizer) dur(d []DC, first bool) {
	for i, c := range d {
		kind, text := "D", c.V+strings.Repeat(".", c.Dots)
		switch c.U {
		case "ms":
			kind, text = "M", c.V+"ms"
		case "s":
			kind, text = "S", c.V+"s"
		}
		t := z.add(kind, text, nil)
		if i == 0 {
			t.strict = true
		} else {
			t.tight = true
		}
		for j := 0; j < c.B1; j++ {
			z.add("B", "|", nil)
		}
		if i < len(d)-1 {
			z.add("T", "~", nil).tight = true
			for j := 0; j < c.B2; j++ {
				z.add("B", "|", nil)
			}
			if c.B2 > 0 && z.lay.next(4) == 3 {
				z.add("T", "~", nil) // a redundant tie on the other side of the bar line
			}
		}
	}
}

func (z *tokenizer) lisp(x *Lx, ev *Ev) {
	var t *Tok
	switch x.T {
	case "l":
		t = z.add("(", "(", ev)
		t.X = x
		for i, k := range x.Kids {
			n := len(z.toks)
			z.lisp(k, nil)
			if i == 0 {
				z.toks[n].tight = true
			}
		}
		z.add(")", ")", nil).tight = true
	case "q":
		t = z.add("q", "'", ev)
		n := len(z.toks)
		z.lisp(x.Kids[0], nil)
		z.toks[n].strict = true
		t.X = x
	case "y":
		z.add("y", x.V, ev).X = x
	case "n":
		z.add("m", x.V, ev).X = x
	case "s":
		z.add("s", "\""+x.V+"\"", ev).X = x
	}
}

func (z *tokenizer) events(evs []*Ev) {
	for _, e := range evs {
		z.event(e)
	}
}

func isBracket(e *Ev) bool {
	for e.K == "*" {
		e = e.E[0]
	}
	return e.K == "[" || e.K == "{"
}

func (z *tokenizer) event(e *Ev) {
	start := len(z.toks)
	defer func() { z.spans[e] = [2]int{start, len(z.toks)} }()
	switch e.K {
	case "n":
		z.add("L", e.L, e)
		for _, a := range e.A {
			z.add("A", string(a), nil).strict = true
		}
		z.dur(e.D, true)
		if e.S {
			z.add("T", "~", nil).tight = true
		}
	case "r":
		z.add("R", "r", e)
		z.dur(e.D, true)
	case "c":
		need := false
		for i, k := range e.E {
			// The separator may stand before or after the changes between notes.
			if i > 0 {
				prevNote := e.E[i-1].K == "n" || e.E[i-1].K == "r"
				if prevNote {
					need = true
				}
				isNote := k.K == "n" || k.K == "r"
				if need && (isNote || z.lay.next(2) == 0) {
					z.add("/", "/", nil).tight = true
					need = false
				}
			}
			n := len(z.toks)
			z.event(k)
			if i == 0 {
				z.toks[n].Ev = e // the chord is anchored at its first note
			} else {
				z.toks[n].tight = true
			}
		}
	case "o":
		z.add("O", "o"+strconv.Itoa(e.N), e)
	case ">", "<":
		z.add("U", e.K, e)
	case "[":
		z.add("[", "[", e)
		n := len(z.toks)
		z.events(e.E)
		if n < len(z.toks) {
			z.toks[n].tight = true
		}
		z.add("]", "]", nil).tight = true
	case "{":
		z.add("{", "{", e)
		n := len(z.toks)
		z.events(e.E)
		if n < len(z.toks) {
			z.toks[n].tight = true
		}
		z.add("}", "}", nil).tight = true
		z.dur(e.D, true)
	case "*":
		z.event(e.E[0])
		sp := ""
		if z.lay.next(5) == 4 {
			sp = " "
		}
		z.add("X", "*"+sp+strconv.Itoa(e.N), e)
	case "'":
		z.event(e.E[0])
		rs := []string{}
		for _, r := range e.R {
			if r[0] == r[1] && z.lay.next(4) != 3 {
				rs = append(rs, strconv.Itoa(r[0]))
			} else {
				rs = append(rs, fmt.Sprintf("%d-%d", r[0], r[1]))
			}
		}
		z.add("Y", "'"+strings.Join(rs, ","), e).tight = true
	case "=":
		outer := z.locked
		z.add("W", e.Nm, nil)
		z.locked = true
		z.add("=", "=", e)
		for i, k := range e.E {
			if i == len(e.E)-1 && isBracket(k) && !outer {
				// Only the opening bracket has to stand on the definition's line.
				n := len(z.toks)
				z.locked = false
				z.event(k)
				for j := n; j < len(z.toks); j++ {
					if z.toks[j].Kind == "[" || z.toks[j].Kind == "{" {
						z.toks[j].locked = true
						break
					}
				}
			} else {
				z.event(k)
			}
		}
		z.locked = outer
		z.freshNext = true
	case "v":
		z.add("W", e.Nm, e)
	case "V":
		z.add("V", "V"+strconv.Itoa(e.N)+":", e)
	case "%", "@":
		z.add("K", e.K+e.Nm, e)
	case "|":
		z.add("B", "|", e)
	case "(":
		z.lisp(e.X, e)
	case "p":
		z.add("P", e.Nms[0], e)
		for _, n := range e.Nms[1:] {
			z.add("/", "/", nil).tight = true
			z.add("P", n, nil).tight = true
		}
		if e.Al != "" {
			z.add("Q", "\""+e.Al+"\"", nil)
		}
		z.add(":", ":", nil).tight = true
	default:
		panic("render: unknown kind " + e.K)
	}
}

func in(s string, list ...string) bool {
	for _, l := range list {
		if s == l {
			return true
		}
	}
	return false
}

// mayGlue tells whether two tokens can be written without white space between
// them. It is deliberately narrower than what the scanner accepts.
func mayGlue(a, b *Tok) bool {
	k := b.Kind
	switch a.Kind {
	case "L":
		return in(k, "A", "D", "M", "S", "T", "/", "X", "Y", "]", "}", "U")
	case "R":
		return in(k, "D", "M", "S", "T", "/", "X", "Y", "]", "}", "U")
	case "A":
		return in(k, "A", "D", "M", "S", "T", "/", "X", "Y", "]", "}", "U", "B", "[", "{", "(")
	case "D", "M":
		return in(k, "T", "/", "X", "Y", "]", "}", "U", "B", "[", "{", "(", "K")
	case "S":
		return in(k, "T", "/", "]", "}")
	case "O":
		return false
	case "X":
		return in(k, "]", "}")
	case "Y":
		return in(k, "]", "}", "U", "B")
	case "W", "P":
		return in(k, "/", ":", "Q", "=", "[", "{", "]", "}", "U", "B", "X")
	case "K":
		return in(k, "[", "{", "]", "}", "U", "B")
	case "y", "m":
		return in(k, ")", "(")
	case "s":
		return in(k, ")", "(")
	case "q", "(":
		return true
	case "T":
		return k != "T"
	}
	return true
}

type layout struct {
	b []int
	i int
}

// next returns a choice in [0,n); 0 is the plain one.
func (l *layout) next(n int) int {
	if len(l.b) == 0 {
		return 0
	}
	v := l.b[l.i%len(l.b)]
	l.i++
	if v < 0 {
		v = -v
	}
	return v % n
}

var comments = []string{
	"# c4 d e", "#", "# \"quoted\" (tempo 200) [", "#~~ o5 | piano: ]*2", "# ünïcødé ♭♯", "#### ' } {",
}

// Render writes the events as text. The same events with different layout
// choices give texts that differ only in insignificant ways. An empty layout
// is the plain style: one line, single spaces.
func Render(evs []*Ev, lay []int) *Text {
	l := &layout{b: lay}
	z := &tokenizer{lay: l, spans: map[*Ev][2]int{}}
	z.events(evs)
	var b strings.Builder
	line, col := 1, 1
	write := func(s string) {
		for _, r := range s {
			b.WriteRune(r)
			if r == '\n' {
				line++
				col = 1
			} else {
				col++
			}
		}
	}
	sep := func(prev, t *Tok, atEnd bool) string {
		c := l.next(16)
		plain := " "
		if prev == nil {
			plain = ""
		} else if t != nil && (t.strict || t.tight) && mayGlue(prev, t) {
			plain = ""
		}
		locked := t != nil && t.locked
		s := plain
		switch c {
		case 1, 2:
			if prev == nil || atEnd || (t != nil && mayGlue(prev, t)) {
				s = ""
			}
		case 3, 4:
			s = " "
		case 5:
			s = "  "
		case 6, 7:
			s = "\n"
		case 8:
			s = "\t"
		case 9:
			s = "\r\n"
		case 10:
			s = " " + comments[l.next(len(comments))] + "\n"
		case 11:
			s = "\n\n   "
		case 12:
			s = " \t "
		case 13:
			s = "\n" + comments[l.next(len(comments))] + "\r\n  "
		}
		if t != nil && t.freshLine && !strings.Contains(s, "\n") {
			s = "\n"
		}
		if locked && strings.Contains(s, "\n") {
			s = " "
		}
		return s
	}
	var prev *Tok
	for _, t := range z.toks {
		if !(t.strict && prev != nil) {
			if t.tight && l.next(3) != 1 && (prev == nil || mayGlue(prev, t)) {
				// leave tight
			} else {
				write(sep(prev, t, false))
			}
		}
		t.Line, t.Col, t.Off = line, col, b.Len()
		write(t.Text)
		prev = t
	}
	if len(lay) > 0 {
		s := sep(prev, nil, true)
		if l.next(6) == 5 {
			s += " # the end"
		}
		write(s)
	}
	return &Text{S: b.String(), Toks: z.toks, spans: z.spans}
}
