package lang

import (
	"fmt"
	"math"
	"strings"
)

// Reference semantics of the inline Lisp, from doc/attributes.md and the
// documentation of the functions.

// Dur is a duration as the reference sees it: beats plus milliseconds.
type Dur struct {
	Beats, Ms float64
	Inexact   bool   // the sum involves rounding
	h         uint64 // how it was written
}

func mix(h, x uint64) uint64 {
	h = (h ^ x) * 1099511628211
	return h ^ h>>29
}

func exact(f float64) bool { f *= 1 << 20; return f == math.Trunc(f) }

func (d *Dur) add(x Dur) {
	d.h = mix(d.h, x.h+1)
	d.Beats += x.Beats
	d.Ms += x.Ms
	d.Inexact = d.Inexact || x.Inexact || !exact(x.Beats) || !exact(x.Ms)
}

func (d Dur) ms(tempo float64) float64 { return d.Beats*(60000/tempo) + d.Ms }

func dcDur(c DC) (Dur, error) {
	v := NumVal(c.V)
	if !(v > 0) || math.IsInf(v, 0) {
		return Dur{}, fmt.Errorf("length not positive")
	}
	switch c.U {
	case "ms":
		return Dur{Ms: v}, nil
	case "s":
		return Dur{Ms: v * 1000}, nil
	case "b":
		return Dur{Beats: v}, nil
	}
	beats, add := 4/v, 4/v
	for i := 0; i < c.Dots; i++ {
		add /= 2
		beats += add
	}
	return Dur{Beats: beats, Inexact: !exact(4 / v), h: mix(math.Float64bits(v), uint64(c.Dots))}, nil
}

func dcsDur(cs []DC) (Dur, error) {
	t := Dur{}
	for _, c := range cs {
		d, err := dcDur(c)
		if err != nil {
			return Dur{}, err
		}
		t.add(d)
	}
	return t, nil
}

// Attr is an attribute change.
type Attr struct {
	Kind string // octave octave-up octave-down tempo metric quant volume track-volume panning duration key transpose ref-pitch channel
	F    float64
	I    int
	D    Dur
	Key  map[string]int // letter -> semitones
}

// slot is the quality that an attribute change sets.
func (a Attr) slot() string {
	switch a.Kind {
	case "octave-up", "octave-down":
		return "octave"
	case "metric":
		return "tempo"
	}
	return a.Kind
}

// Val is a Lisp value.
type Val struct {
	T     string // num str sym list dur pitch attr note rest fn
	F     float64
	S     string
	L     []*Lx
	V     []Val
	Attr  Attr
	Glob  bool
	D     *Dur
	Pitch *pitch
	Slur  bool
}

type pitch struct {
	letter string
	accs   []string // nil: none given
	midi   int
	isMidi bool
}

var dynamics = map[string]float64{
	"pppppp": 0.00787, "ppppp": 0.08419, "pppp": 0.16051, "ppp": 0.23683, "pp": 0.31314,
	"p": 0.38946, "mp": 0.46578, "mf": 0.54210, "f": 0.61841, "ff": 0.69473, "fff": 0.77105,
	"ffff": 0.84737, "fffff": 0.92368, "ffffff": 1.00000,
}

var lispErr = fmt.Errorf("lisp error")

func lerr(f string, a ...interface{}) error { return fmt.Errorf("lisp: "+f, a...) }

// parseLen parses a note length as in "4", "2.", "0.5", "8..".
func parseLen(s string) (Dur, error) {
	i := 0
	for i < len(s) && s[i] >= '0' && s[i] <= '9' {
		i++
	}
	if i == 0 {
		return Dur{}, lerr("invalid note length %q", s)
	}
	if i+1 < len(s) && s[i] == '.' && s[i+1] >= '0' && s[i+1] <= '9' {
		i++
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			i++
		}
	}
	num := s[:i]
	dots := 0
	for i < len(s) && s[i] == '.' {
		dots++
		i++
	}
	if i != len(s) {
		return Dur{}, lerr("invalid note length %q", s)
	}
	d, err := dcDur(DC{U: "n", V: num, Dots: dots})
	if err != nil {
		return Dur{}, lerr("note length %q", s)
	}
	return d, nil
}

func parseLens(s string) (Dur, error) {
	t := Dur{}
	for _, p := range strings.Split(s, "~") {
		d, err := parseLen(p)
		if err != nil {
			return Dur{}, err
		}
		t.add(d)
	}
	return t, nil
}

const letters = "cdefgab"

var semis = map[string]int{"c": 0, "d": 2, "e": 4, "f": 5, "g": 7, "a": 9, "b": 11}

func isLetter(s string) bool { return len(s) == 1 && strings.Contains(letters, s) }

// modeSteps gives the scale of each mode in semitones above the tonic.
var modeSteps = map[string][7]int{
	"major": {0, 2, 4, 5, 7, 9, 11}, "ionian": {0, 2, 4, 5, 7, 9, 11},
	"dorian":     {0, 2, 3, 5, 7, 9, 10},
	"phrygian":   {0, 1, 3, 5, 7, 8, 10},
	"lydian":     {0, 2, 4, 6, 7, 9, 11},
	"mixolydian": {0, 2, 4, 5, 7, 9, 10},
	"minor":      {0, 2, 3, 5, 7, 8, 10}, "aeolian": {0, 2, 3, 5, 7, 8, 10},
	"locrian": {0, 1, 3, 5, 6, 8, 10},
}

// KeyOf spells the scale of a mode on a tonic with one letter per degree.
func KeyOf(letter string, acc int, mode string) map[string]int {
	steps := modeSteps[mode]
	idx := strings.Index(letters, letter)
	tonic := semis[letter] + acc
	key := map[string]int{}
	for i := 0; i < 7; i++ {
		l := string(letters[(idx+i)%7])
		natural := semis[l]
		if idx+i >= 7 {
			natural += 12
		}
		if a := tonic + steps[i] - natural; a != 0 {
			key[l] = a
		}
	}
	return key
}

func keyFromString(s string) (map[string]int, error) {
	key := map[string]int{}
	for _, p := range strings.Fields(s) {
		if len(p) < 2 || !isLetter(p[:1]) {
			return nil, lerr("key %q", p)
		}
		n := 0
		for _, c := range p[1:] {
			switch c {
			case '+':
				n++
			case '-':
				n--
			default:
				return nil, lerr("key %q", p)
			}
		}
		key[p[:1]] = n
	}
	return key, nil
}

func keyFromList(l []*Lx) (map[string]int, error) {
	if len(l) == 0 {
		return map[string]int{}, nil
	}
	if len(l) < 2 || l[0].T != "y" || !isLetter(l[0].V) {
		return nil, lerr("key list")
	}
	key := map[string]int{}
	if l[1].T == "l" {
		if len(l)%2 != 0 {
			return nil, lerr("key pairs")
		}
		for i := 0; i < len(l); i += 2 {
			if l[i].T != "y" || !isLetter(l[i].V) || l[i+1].T != "l" {
				return nil, lerr("key pairs")
			}
			n := 0
			for _, a := range l[i+1].Kids {
				switch {
				case a.T == "y" && a.V == "flat":
					n--
				case a.T == "y" && a.V == "sharp":
					n++
				default:
					return nil, lerr("key accidental")
				}
			}
			key[l[i].V] = n
		}
		return key, nil
	}
	acc, i := 0, 1
	for ; i < len(l); i++ {
		if l[i].T != "y" {
			return nil, lerr("key scale")
		}
		if l[i].V == "flat" {
			acc--
		} else if l[i].V == "sharp" {
			acc++
		} else if l[i].V != "natural" {
			break
		}
	}
	if i != len(l)-1 {
		return nil, lerr("key scale")
	}
	if _, ok := modeSteps[l[i].V]; !ok {
		return nil, lerr("key mode %s", l[i].V)
	}
	return KeyOf(l[0].V, acc, l[i].V), nil
}

// EvalLisp evaluates a form.
func EvalLisp(x *Lx) (Val, error) {
	switch x.T {
	case "n":
		return Val{T: "num", F: NumVal(x.V)}, nil
	case "s":
		return Val{T: "str", S: x.V}, nil
	case "q":
		return quoted(x.Kids[0]), nil
	case "y":
		if x.V == "quote" || isFn(x.V) {
			return Val{T: "fn", S: x.V}, nil
		}
		return Val{}, lerr("unresolvable symbol %s", x.V)
	}
	if len(x.Kids) == 0 {
		return Val{}, lerr("empty list")
	}
	op, err := EvalLisp(x.Kids[0])
	if err != nil {
		return Val{}, err
	}
	if op.T != "fn" {
		return Val{}, lerr("not an operator")
	}
	if op.S == "quote" {
		if len(x.Kids) != 2 {
			return Val{}, lerr("quote arity")
		}
		return quoted(x.Kids[1]), nil
	}
	args := []Val{}
	for _, k := range x.Kids[1:] {
		v, err := EvalLisp(k)
		if err != nil {
			return Val{}, err
		}
		args = append(args, v)
	}
	return apply(op.S, args)
}

func quoted(x *Lx) Val {
	switch x.T {
	case "n":
		return Val{T: "num", F: NumVal(x.V)}
	case "s":
		return Val{T: "str", S: x.V}
	case "y":
		return Val{T: "sym", S: x.V}
	case "q":
		return Val{T: "quoted"}
	}
	return Val{T: "list", L: x.Kids}
}

var attrNames = map[string]string{
	"octave": "octave", "tempo": "tempo", "metric-modulation": "metric",
	"quantization": "quant", "quantize": "quant", "quant": "quant",
	"volume": "volume", "vol": "volume", "track-volume": "track-volume", "track-vol": "track-volume",
	"panning": "panning", "pan": "panning",
	"set-duration": "set-duration", "set-duration-ms": "set-duration-ms", "set-note-length": "set-note-length",
	"key-signature": "key", "key-sig": "key",
	"transposition": "transpose", "transpose": "transpose",
	"reference-pitch": "ref-pitch", "tuning-constant": "ref-pitch",
	"midi-channel": "channel",
}

var otherFns = map[string]bool{"list": true, "ms": true, "note-length": true, "duration": true,
	"midi-note": true, "pitch": true, "note": true, "pause": true, "slur": true}

func isFn(s string) bool {
	if otherFns[s] {
		return true
	}
	b := strings.TrimSuffix(s, "!")
	if _, ok := attrNames[b]; ok {
		return true
	}
	_, ok := dynamics[b]
	return ok
}

func sig(args []Val) string {
	s := []string{}
	for _, a := range args {
		s = append(s, a.T)
	}
	return strings.Join(s, " ")
}

func isInt(f float64) bool { return f == math.Trunc(f) && math.Abs(f) <= 2147483647 }

func apply(fn string, a []Val) (Val, error) {
	base := strings.TrimSuffix(fn, "!")
	glob := base != fn
	s := sig(a)
	bad := func() (Val, error) { return Val{}, lerr("bad arguments to %s: %s", fn, s) }
	attr := func(at Attr) (Val, error) { return Val{T: "attr", Attr: at, Glob: glob}, nil }
	if v, ok := dynamics[base]; ok {
		if len(a) != 0 {
			return bad()
		}
		return attr(Attr{Kind: "volume", F: v})
	}
	if kind, ok := attrNames[base]; ok {
		switch kind {
		case "octave":
			switch {
			case s == "num" && isInt(a[0].F):
				return attr(Attr{Kind: "octave", I: int(a[0].F)})
			case s == "sym" && a[0].S == "up":
				return attr(Attr{Kind: "octave-up"})
			case s == "sym" && a[0].S == "down":
				return attr(Attr{Kind: "octave-down"})
			}
		case "tempo":
			switch {
			case s == "num" && a[0].F > 0:
				return attr(Attr{Kind: "tempo", F: a[0].F})
			case s == "num num" && a[0].F > 0 && a[1].F > 0:
				return attr(Attr{Kind: "tempo", F: 4 / a[0].F * a[1].F})
			case s == "str num" && a[1].F > 0:
				d, err := parseLens(a[0].S)
				if err != nil {
					return Val{}, err
				}
				return attr(Attr{Kind: "tempo", F: d.Beats * a[1].F})
			}
		case "metric":
			if len(a) != 2 {
				return bad()
			}
			b := [2]float64{}
			for i, v := range a {
				switch {
				case v.T == "num" && v.F > 0:
					b[i] = 4 / v.F
				case v.T == "str":
					d, err := parseLens(v.S)
					if err != nil {
						return Val{}, err
					}
					b[i] = d.Beats
				default:
					return bad()
				}
			}
			return attr(Attr{Kind: "metric", F: b[1] / b[0]})
		case "quant":
			if s == "num" && a[0].F >= 0 {
				return attr(Attr{Kind: "quant", F: a[0].F / 100})
			}
		case "volume", "track-volume", "panning":
			if s == "num" && a[0].F >= 0 && a[0].F <= 100 {
				return attr(Attr{Kind: kind, F: a[0].F / 100})
			}
		case "set-duration":
			if s == "num" && a[0].F > 0 {
				return attr(Attr{Kind: "duration", D: Dur{Beats: a[0].F}})
			}
		case "set-duration-ms":
			if s == "num" && a[0].F > 0 {
				return attr(Attr{Kind: "duration", D: Dur{Ms: a[0].F}})
			}
		case "set-note-length":
			switch {
			case s == "num" && a[0].F > 0:
				return attr(Attr{Kind: "duration", D: Dur{Beats: 4 / a[0].F}})
			case s == "str":
				d, err := parseLens(a[0].S)
				if err != nil {
					return Val{}, err
				}
				return attr(Attr{Kind: "duration", D: d})
			}
		case "key":
			switch s {
			case "str":
				k, err := keyFromString(a[0].S)
				if err != nil {
					return Val{}, err
				}
				return attr(Attr{Kind: "key", Key: k})
			case "list":
				if a[0].L == nil && a[0].V != nil {
					// a list made by (list ...) holds evaluated values
					return bad()
				}
				k, err := keyFromList(a[0].L)
				if err != nil {
					return Val{}, err
				}
				return attr(Attr{Kind: "key", Key: k})
			}
		case "transpose":
			if s == "num" && isInt(a[0].F) {
				return attr(Attr{Kind: "transpose", I: int(a[0].F)})
			}
		case "ref-pitch":
			if s == "num" && a[0].F > 0 {
				return attr(Attr{Kind: "ref-pitch", F: a[0].F})
			}
		case "channel":
			if s == "num" && isInt(a[0].F) && a[0].F >= 0 && a[0].F <= 15 {
				return attr(Attr{Kind: "channel", I: int(a[0].F)})
			}
		}
		return bad()
	}
	switch fn {
	case "list":
		return Val{T: "list", V: a}, nil
	case "ms":
		if s == "num" && a[0].F > 0 {
			return Val{T: "dur", D: &Dur{Ms: a[0].F}}, nil
		}
	case "note-length":
		if s == "num" && a[0].F > 0 {
			return Val{T: "dur", D: &Dur{Beats: 4 / a[0].F}}, nil
		}
		if s == "str" {
			d, err := parseLen(a[0].S)
			if err != nil {
				return Val{}, err
			}
			return Val{T: "dur", D: &d}, nil
		}
	case "duration":
		t := Dur{}
		for _, v := range a {
			if v.T != "dur" {
				return bad()
			}
			t.add(*v.D)
		}
		return Val{T: "dur", D: &t}, nil
	case "midi-note":
		if s == "num" && isInt(a[0].F) {
			return Val{T: "pitch", Pitch: &pitch{isMidi: true, midi: int(a[0].F)}}, nil
		}
	case "pitch":
		if s == "list" && len(a[0].L) > 0 {
			l := a[0].L
			if l[0].T != "y" || !isLetter(l[0].V) {
				return bad()
			}
			p := &pitch{letter: l[0].V}
			for _, k := range l[1:] {
				if k.T != "y" || (k.V != "flat" && k.V != "sharp" && k.V != "natural") {
					return bad()
				}
				p.accs = append(p.accs, k.V)
			}
			return Val{T: "pitch", Pitch: p}, nil
		}
	case "note":
		if s == "pitch" {
			return Val{T: "note", Pitch: a[0].Pitch}, nil
		}
		if s == "pitch dur" {
			return Val{T: "note", Pitch: a[0].Pitch, D: a[1].D}, nil
		}
	case "pause":
		if s == "" {
			return Val{T: "rest"}, nil
		}
		if s == "dur" {
			return Val{T: "rest", D: a[0].D}, nil
		}
	case "slur":
		if s == "note" {
			v := a[0]
			v.Slur = true
			return v, nil
		}
	}
	return bad()
}
