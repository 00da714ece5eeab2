package lang

import (
	"fmt"
	"strings"
)

// FromJSON converts the JSON form of events (already decoded) into the
// harness's tree.
func FromJSON(v interface{}) ([]*Ev, error) {
	list, ok := v.([]interface{})
	if !ok {
		return nil, fmt.Errorf("events are %T, not a list", v)
	}
	out := []*Ev{}
	for _, x := range list {
		e, err := evFromJSON(x)
		if err != nil {
			return nil, err
		}
		out = append(out, e)
	}
	return out, nil
}

type obj = map[string]interface{}

func field(o interface{}, path ...string) (interface{}, error) {
	for _, p := range path {
		m, ok := o.(obj)
		if !ok {
			return nil, fmt.Errorf("no object around %q", p)
		}
		o, ok = m[p]
		if !ok {
			return nil, fmt.Errorf("no field %q", p)
		}
	}
	return o, nil
}

func str(o interface{}, path ...string) (string, error) {
	x, err := field(o, path...)
	if err != nil {
		return "", err
	}
	s, ok := x.(string)
	if !ok {
		return "", fmt.Errorf("%v is %T, not a string", path, x)
	}
	return s, nil
}

func num(o interface{}, path ...string) (float64, error) {
	x, err := field(o, path...)
	if err != nil {
		return 0, err
	}
	s, ok := x.(float64)
	if !ok {
		return 0, fmt.Errorf("%v is %T, not a number", path, x)
	}
	return s, nil
}

func durFromJSON(o interface{}) ([]DC, error) {
	x, err := field(o, "components")
	if err != nil {
		return nil, err
	}
	list, ok := x.([]interface{})
	if !ok {
		return nil, fmt.Errorf("components are %T", x)
	}
	out := []DC{}
	for _, c := range list {
		m, ok := c.(obj)
		if !ok {
			return nil, fmt.Errorf("component is %T", c)
		}
		if m["type"] == "barline" {
			if len(out) == 0 {
				return nil, fmt.Errorf("duration begins with a bar line")
			}
			out[len(out)-1].B1++
			continue
		}
		d := DC{}
		switch {
		case m["ms"] != nil:
			q, err := num(m, "ms")
			if err != nil {
				return nil, err
			}
			d = DC{U: "ms", V: fnum(q)}
		case m["s"] != nil:
			q, err := num(m, "s")
			if err != nil {
				return nil, err
			}
			d = DC{U: "s", V: fnum(q)}
		default:
			q, err := num(m, "denominator")
			if err != nil {
				return nil, err
			}
			dots, err := num(m, "dots")
			if err != nil {
				return nil, err
			}
			d = DC{U: "n", V: fnum(q), Dots: int(dots)}
		}
		out = append(out, d)
	}
	return out, nil
}

func lxFromJSON(o interface{}) (*Lx, error) {
	typ, err := str(o, "type")
	if err != nil {
		return nil, err
	}
	v, err := field(o, "value")
	if err != nil {
		return nil, err
	}
	switch typ {
	case "list":
		list, ok := v.([]interface{})
		if !ok {
			return nil, fmt.Errorf("list value is %T", v)
		}
		x := &Lx{T: "l"}
		for _, k := range list {
			kx, err := lxFromJSON(k)
			if err != nil {
				return nil, err
			}
			x.Kids = append(x.Kids, kx)
		}
		return x, nil
	case "quoted-form":
		k, err := lxFromJSON(v)
		if err != nil {
			return nil, err
		}
		return Quote(k), nil
	case "symbol", "string":
		s, ok := v.(string)
		if !ok {
			return nil, fmt.Errorf("%s value is %T", typ, v)
		}
		if typ == "string" {
			return Str(s), nil
		}
		return Sym(s), nil
	case "number":
		f, ok := v.(float64)
		if !ok {
			return nil, fmt.Errorf("number value is %T", v)
		}
		return Num(fnum(f)), nil
	}
	return nil, fmt.Errorf("unknown form type %q", typ)
}

func evFromJSON(o interface{}) (*Ev, error) {
	typ, err := str(o, "type")
	if err != nil {
		return nil, err
	}
	events := func(path ...string) ([]*Ev, error) {
		x, err := field(o, path...)
		if err != nil {
			return nil, err
		}
		return FromJSON(x)
	}
	dur := func() ([]DC, error) {
		v, err := field(o, "value")
		if err != nil {
			return nil, err
		}
		m, ok := v.(obj)
		if !ok {
			return nil, fmt.Errorf("value of %s is %T", typ, v)
		}
		if m["duration"] == nil {
			return nil, nil
		}
		return durFromJSON(m["duration"])
	}
	name := func(k string) (*Ev, error) {
		n, err := str(o, "value", "name")
		return &Ev{K: k, Nm: n}, err
	}
	switch typ {
	case "note":
		l, err := str(o, "value", "pitch", "letter")
		if err != nil {
			return nil, err
		}
		e := &Ev{K: "n", L: strings.ToLower(l)}
		as, err := field(o, "value", "pitch", "accidentals")
		if err != nil {
			return nil, err
		}
		list, ok := as.([]interface{})
		if !ok {
			return nil, fmt.Errorf("accidentals are %T", as)
		}
		for _, a := range list {
			switch a {
			case "flat":
				e.A += "-"
			case "sharp":
				e.A += "+"
			case "natural":
				e.A += "_"
			default:
				return nil, fmt.Errorf("accidental %v", a)
			}
		}
		v, _ := field(o, "value")
		e.S = v.(obj)["slurred?"] == true
		e.D, err = dur()
		return e, err
	case "rest":
		d, err := dur()
		return &Ev{K: "r", D: d}, err
	case "chord":
		k, err := events("value", "events")
		return &Ev{K: "c", E: k}, err
	case "event-sequence":
		k, err := events("value", "events")
		return &Ev{K: "[", E: k}, err
	case "cram":
		k, err := events("value", "events")
		if err != nil {
			return nil, err
		}
		d, err := dur()
		return &Ev{K: "{", E: k, D: d}, err
	case "repeat", "on-repetitions":
		in, err := field(o, "value", "event")
		if err != nil {
			return nil, err
		}
		k, err := evFromJSON(in)
		if err != nil {
			return nil, err
		}
		if typ == "repeat" {
			n, err := num(o, "value", "times")
			return &Ev{K: "*", N: int(n), E: []*Ev{k}}, err
		}
		rs, err := field(o, "value", "repetitions")
		if err != nil {
			return nil, err
		}
		list, ok := rs.([]interface{})
		if !ok {
			return nil, fmt.Errorf("repetitions are %T", rs)
		}
		e := &Ev{K: "'", E: []*Ev{k}}
		for _, r := range list {
			a, err := num(r, "first")
			if err != nil {
				return nil, err
			}
			b, err := num(r, "last")
			if err != nil {
				return nil, err
			}
			e.R = append(e.R, [2]int{int(a), int(b)})
		}
		return e, nil
	case "variable-definition":
		k, err := events("value", "events")
		if err != nil {
			return nil, err
		}
		n, err := str(o, "value", "name")
		return &Ev{K: "=", Nm: n, E: k}, err
	case "variable-reference":
		return name("v")
	case "marker":
		return name("%")
	case "at-marker":
		return name("@")
	case "voice-marker":
		n, err := num(o, "value", "number")
		return &Ev{K: "V", N: int(n)}, err
	case "voice-group-end-marker":
		return &Ev{K: "V"}, nil
	case "barline":
		return &Ev{K: "|"}, nil
	case "part-declaration":
		ns, err := field(o, "value", "names")
		if err != nil {
			return nil, err
		}
		list, ok := ns.([]interface{})
		if !ok {
			return nil, fmt.Errorf("names are %T", ns)
		}
		e := &Ev{K: "p"}
		for _, n := range list {
			s, ok := n.(string)
			if !ok {
				return nil, fmt.Errorf("name is %T", n)
			}
			e.Nms = append(e.Nms, s)
		}
		v, _ := field(o, "value")
		if a, ok := v.(obj)["alias"].(string); ok {
			e.Al = a
		}
		return e, nil
	case "list":
		x, err := lxFromJSON(o)
		return &Ev{K: "(", X: x}, err
	case "attribute-update":
		a, err := str(o, "attribute")
		if err != nil {
			return nil, err
		}
		v, err := field(o, "value")
		if err != nil {
			return nil, err
		}
		if a == "octave" {
			switch v := v.(type) {
			case float64:
				return &Ev{K: "o", N: int(v)}, nil
			case string:
				if v == "up" {
					return &Ev{K: ">"}, nil
				}
				if v == "down" {
					return &Ev{K: "<"}, nil
				}
			}
		}
		return nil, fmt.Errorf("attribute update %s %v", a, v)
	}
	return nil, fmt.Errorf("unknown event type %q", typ)
}
