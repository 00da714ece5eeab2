package lang

import (
	"fmt"
	"strconv"

	"alda.io/client/model"
)

func fnum(f float64) string { return strconv.FormatFloat(f, 'g', -1, 64) }

func letterOf(l model.NoteLetter) string {
	switch l {
	case model.A:
		return "a"
	case model.B:
		return "b"
	case model.C:
		return "c"
	case model.D:
		return "d"
	case model.E:
		return "e"
	case model.F:
		return "f"
	case model.G:
		return "g"
	}
	return "?"
}

func accsOf(as []model.Accidental) string {
	s := ""
	for _, a := range as {
		switch a {
		case model.Sharp:
			s += "+"
		case model.Flat:
			s += "-"
		case model.Natural:
			s += "_"
		default:
			s += "?"
		}
	}
	return s
}

func durOf(d model.Duration) ([]DC, error) {
	out := []DC{}
	bars := 0 // bar lines since the last component
	for _, c := range d.Components {
		switch c := c.(type) {
		case model.NoteLength:
			out = append(out, DC{U: "n", V: fnum(c.Denominator), Dots: int(c.Dots)})
			bars = 0
		case model.NoteLengthMs:
			out = append(out, DC{U: "ms", V: fnum(c.Quantity)})
			bars = 0
		case model.NoteLengthSeconds:
			out = append(out, DC{U: "s", V: fnum(c.Quantity)})
			bars = 0
		case model.NoteLengthBeats:
			out = append(out, DC{U: "b", V: fnum(c.Quantity)})
			bars = 0
		case model.Barline:
			if len(out) == 0 {
				return nil, fmt.Errorf("duration begins with a bar line")
			}
			bars++
			out[len(out)-1].B1 = bars
		case model.Duration:
			in, err := durOf(c)
			if err != nil {
				return nil, err
			}
			out = append(out, in...)
			bars = 0
		default:
			return nil, fmt.Errorf("unknown duration component %T", c)
		}
	}
	return out, nil
}

func lxOf(f model.LispForm) (*Lx, error) {
	switch f := f.(type) {
	case model.LispList:
		x := &Lx{T: "l"}
		for _, k := range f.Elements {
			kx, err := lxOf(k)
			if err != nil {
				return nil, err
			}
			x.Kids = append(x.Kids, kx)
		}
		return x, nil
	case model.LispQuotedForm:
		k, err := lxOf(f.Form)
		if err != nil {
			return nil, err
		}
		return Quote(k), nil
	case model.LispSymbol:
		return Sym(f.Name), nil
	case model.LispNumber:
		return Num(fnum(f.Value)), nil
	case model.LispString:
		return Str(f.Value), nil
	}
	return nil, fmt.Errorf("unknown Lisp form %T", f)
}

// FromUpdates converts what the parser produced into the harness's own tree.
// Attributes that have native syntax come out as that syntax; any other
// attribute update comes out as an event of kind "A" with a description.
func FromUpdates(ups []model.ScoreUpdate) ([]*Ev, error) {
	out := []*Ev{}
	for _, u := range ups {
		e, err := fromUpdate(u)
		if err != nil {
			return nil, err
		}
		out = append(out, e)
	}
	return out, nil
}

func fromUpdate(u model.ScoreUpdate) (*Ev, error) {
	switch u := u.(type) {
	case model.Note:
		e := &Ev{K: "n", S: u.Slurred}
		switch p := u.Pitch.(type) {
		case model.LetterAndAccidentals:
			e.L, e.A = letterOf(p.NoteLetter), accsOf(p.Accidentals)
		default:
			return nil, fmt.Errorf("unexpected pitch %T", p)
		}
		d, err := durOf(u.Duration)
		e.D = d
		return e, err
	case model.Rest:
		d, err := durOf(u.Duration)
		return &Ev{K: "r", D: d}, err
	case model.Chord:
		k, err := FromUpdates(u.Events)
		return &Ev{K: "c", E: k}, err
	case model.EventSequence:
		k, err := FromUpdates(u.Events)
		return &Ev{K: "[", E: k}, err
	case model.Repeat:
		k, err := fromUpdate(u.Event)
		return &Ev{K: "*", N: int(u.Times), E: []*Ev{k}}, err
	case model.OnRepetitions:
		k, err := fromUpdate(u.Event)
		e := &Ev{K: "'", E: []*Ev{k}}
		for _, r := range u.Repetitions {
			e.R = append(e.R, [2]int{int(r.First), int(r.Last)})
		}
		return e, err
	case model.Cram:
		k, err := FromUpdates(u.Events)
		if err != nil {
			return nil, err
		}
		d, err := durOf(u.Duration)
		return &Ev{K: "{", E: k, D: d}, err
	case model.VariableDefinition:
		k, err := FromUpdates(u.Events)
		return &Ev{K: "=", Nm: u.VariableName, E: k}, err
	case model.VariableReference:
		return &Ev{K: "v", Nm: u.VariableName}, nil
	case model.VoiceMarker:
		return &Ev{K: "V", N: int(u.VoiceNumber)}, nil
	case model.VoiceGroupEndMarker:
		return &Ev{K: "V", N: 0}, nil
	case model.Marker:
		return &Ev{K: "%", Nm: u.Name}, nil
	case model.AtMarker:
		return &Ev{K: "@", Nm: u.Name}, nil
	case model.Barline:
		return &Ev{K: "|"}, nil
	case model.PartDeclaration:
		return &Ev{K: "p", Nms: append([]string(nil), u.Names...), Al: u.Alias}, nil
	case model.LispList:
		x, err := lxOf(u)
		return &Ev{K: "(", X: x}, err
	case model.AttributeUpdate:
		switch p := u.PartUpdate.(type) {
		case model.OctaveSet:
			return &Ev{K: "o", N: int(p.OctaveNumber)}, nil
		case model.OctaveUp:
			return &Ev{K: ">"}, nil
		case model.OctaveDown:
			return &Ev{K: "<"}, nil
		}
		return nil, fmt.Errorf("unexpected attribute update %T", u.PartUpdate)
	}
	return nil, fmt.Errorf("unexpected update %T", u)
}

// CanonSame normalises canonical lists: a bar line written directly before
// the end of a chord, definition, repeat or repetition is the same text as one
// written directly after it.
func CanonNorm(c []string) []string {
	out := append([]string(nil), c...)
	for i := len(out) - 2; i >= 0; i-- {
		j := i
		for j < len(out)-1 && out[j] == "|" {
			switch out[j+1] {
			case "/chord", "/define", "/repeat", "/on":
				out[j], out[j+1] = out[j+1], out[j]
				j++
				continue
			}
			break
		}
	}
	// Ties are implied by consecutive components; drop them.
	res := out[:0]
	for _, s := range out {
		if s != "tie" {
			res = append(res, s)
		}
	}
	return res
}

// SameCanon compares two event lists construct by construct.
func SameCanon(want, got []*Ev) error {
	a, b := CanonNorm(Canon(want)), CanonNorm(Canon(got))
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "(end)", "(end)"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return fmt.Errorf("construct %d: written %q, parsed %q", i, x, y)
		}
	}
	return nil
}
