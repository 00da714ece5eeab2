// Package lang is an independent model of the Alda language: a syntax tree of
// its own, generators, a renderer with free choice of layout, and a reference
// interpreter written from the documentation.
package lang

import (
	"fmt"
	"strings"
)

// DC is one component of a written duration, followed by bar lines written
// before (B1) and after (B2) the tie that leads to the next component.
type DC struct {
	U    string // "n" note length, "ms", "s"
	V    string // number as written
	Dots int    `json:",omitempty"`
	B1   int    `json:",omitempty"`
	B2   int    `json:",omitempty"`
}

// Lx is a Lisp form.
type Lx struct {
	T    string // "l" list, "y" symbol, "n" number, "s" string, "q" quoted
	V    string `json:",omitempty"`
	Kids []*Lx  `json:",omitempty"`
}

// Ev is one construct of a score.
//
//	n note (L letter, A accidentals, D duration, S slur)   r rest (D)
//	c chord (E)            o octave set (N)  > <  octave up / down
//	[ sequence (E)         * repeat (E[0], N times)
//	' on repetitions (E[0], R ranges)
//	{ cram (E, D)          = variable definition (Nm, E)   v variable use (Nm)
//	V voice marker (N; 0 ends the group)
//	% marker (Nm)  @ at-marker (Nm)  | bar line   ( Lisp form (X)
//	p part declaration (Nms, Al)
type Ev struct {
	K   string
	L   string   `json:",omitempty"`
	A   string   `json:",omitempty"`
	D   []DC     `json:",omitempty"`
	S   bool     `json:",omitempty"`
	N   int      `json:",omitempty"`
	Nm  string   `json:",omitempty"`
	Nms []string `json:",omitempty"`
	Al  string   `json:",omitempty"`
	E   []*Ev    `json:",omitempty"`
	R   [][2]int `json:",omitempty"`
	X   *Lx      `json:",omitempty"`
}

// Builders.

func Sym(s string) *Lx    { return &Lx{T: "y", V: s} }
func Num(s string) *Lx    { return &Lx{T: "n", V: s} }
func Str(s string) *Lx    { return &Lx{T: "s", V: s} }
func Quote(x *Lx) *Lx     { return &Lx{T: "q", Kids: []*Lx{x}} }
func Lst(kids ...*Lx) *Lx { return &Lx{T: "l", Kids: kids} }
func Call(f string, a ...*Lx) *Ev {
	return &Ev{K: "(", X: Lst(append([]*Lx{Sym(f)}, a...)...)}
}

// Clone copies a list of events deeply.
func Clone(evs []*Ev) []*Ev {
	out := make([]*Ev, 0, len(evs))
	for _, e := range evs {
		out = append(out, e.Clone())
	}
	return out
}

// Clone copies an event deeply.
func (e *Ev) Clone() *Ev {
	c := *e
	c.D = append([]DC(nil), e.D...)
	c.Nms = append([]string(nil), e.Nms...)
	c.R = append([][2]int(nil), e.R...)
	if e.E != nil {
		c.E = Clone(e.E)
	}
	if e.X != nil {
		c.X = e.X.Clone()
	}
	return &c
}

// Clone copies a form deeply.
func (x *Lx) Clone() *Lx {
	c := *x
	c.Kids = nil
	for _, k := range x.Kids {
		c.Kids = append(c.Kids, k.Clone())
	}
	return &c
}

// Walk visits every event, outermost first.
func Walk(evs []*Ev, f func(e *Ev, depth int)) { walk(evs, f, 0) }

func walk(evs []*Ev, f func(e *Ev, depth int), d int) {
	for _, e := range evs {
		f(e, d)
		walk(e.E, f, d+1)
	}
}

// Count tells how many events of the given kinds occur.
func Count(evs []*Ev, kinds string) int {
	n := 0
	Walk(evs, func(e *Ev, d int) {
		if strings.Contains(kinds, e.K) {
			n++
		}
	})
	return n
}

// lexString is the Lisp form in canonical spelling.
func (x *Lx) lexString() string {
	switch x.T {
	case "l":
		p := []string{}
		for _, k := range x.Kids {
			p = append(p, k.lexString())
		}
		return "(" + strings.Join(p, " ") + ")"
	case "q":
		return "'" + x.Kids[0].lexString()
	case "s":
		return "\"" + x.V + "\""
	case "n":
		return canonNum(x.V)
	}
	return x.V
}

// Canon lists the constructs in textual order, one string per construct;
// bar lines inside durations appear at their place. Two sequences of events
// denote the same constructs exactly if their canonical lists are equal.
func Canon(evs []*Ev) []string {
	out := []string{}
	for _, e := range evs {
		e.canon(&out)
	}
	return out
}

func canonDur(d []DC, out *[]string) {
	for i, c := range d {
		*out = append(*out, fmt.Sprintf("len %s%s%s", canonNum(c.V), c.U, strings.Repeat(".", c.Dots)))
		for j := 0; j < c.B1; j++ {
			*out = append(*out, "|")
		}
		if i < len(d)-1 {
			*out = append(*out, "tie")
			for j := 0; j < c.B2; j++ {
				*out = append(*out, "|")
			}
		}
	}
}

func (e *Ev) canon(out *[]string) {
	add := func(f string, a ...interface{}) { *out = append(*out, fmt.Sprintf(f, a...)) }
	kids := func() {
		for _, k := range e.E {
			k.canon(out)
		}
	}
	switch e.K {
	case "n":
		add("note %s%s", e.L, e.A)
		canonDur(e.D, out)
		if e.S {
			add("slur")
		}
	case "r":
		add("rest")
		canonDur(e.D, out)
	case "c":
		add("chord")
		kids()
		add("/chord")
	case "o":
		add("octave %d", e.N)
	case ">", "<", "|":
		add("%s", e.K)
	case "[":
		add("[")
		kids()
		add("]")
	case "*":
		add("repeat %d", e.N)
		kids()
		add("/repeat")
	case "'":
		add("on %v", e.R)
		kids()
		add("/on")
	case "{":
		add("{")
		kids()
		add("}")
		canonDur(e.D, out)
	case "=":
		add("define %s", e.Nm)
		kids()
		add("/define")
	case "v":
		add("var %s", e.Nm)
	case "V":
		add("voice %d", e.N)
	case "%", "@":
		add("%s%s", e.K, e.Nm)
	case "(":
		add("lisp %s", e.X.lexString())
	case "p":
		add("part %s alias %q", strings.Join(e.Nms, "/"), e.Al)
	default:
		add("?%s", e.K)
	}
}

// canonBarsAfter moves nothing: in textual order a bar line following a
// duration is the same whether it is taken as part of the duration or not.
// The only structural difference is which container holds it; a bar line that
// directly follows the last duration of a repeat's event cannot occur.
