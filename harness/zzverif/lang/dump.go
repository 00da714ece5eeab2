package lang

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"alda.io/client/model"
)

// Dump writes a value of alda's model in full, except for source positions.
func Dump(v interface{}) string {
	var b strings.Builder
	dump(&b, reflect.ValueOf(v), 0)
	return b.String()
}

func dump(b *strings.Builder, v reflect.Value, depth int) {
	if depth > 200 {
		b.WriteString("…")
		return
	}
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	if v.Type() == reflect.TypeOf(model.AldaSourceContext{}) {
		b.WriteString("@")
		return
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		dump(b, v.Elem(), depth+1)
	case reflect.Struct:
		b.WriteString(v.Type().Name() + "{")
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).Type == reflect.TypeOf(model.AldaSourceContext{}) {
				continue
			}
			fmt.Fprintf(b, "%s:", v.Type().Field(i).Name)
			dump(b, v.Field(i), depth+1)
			b.WriteString(" ")
		}
		b.WriteString("}")
	case reflect.Slice, reflect.Array:
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			dump(b, v.Index(i), depth+1)
			b.WriteString("; ")
		}
		b.WriteString("]")
	case reflect.Map:
		lines := []string{}
		for _, k := range v.MapKeys() {
			var kb strings.Builder
			dump(&kb, k, depth+1)
			kb.WriteString("=>")
			dump(&kb, v.MapIndex(k), depth+1)
			lines = append(lines, kb.String())
		}
		sort.Strings(lines)
		b.WriteString("map[" + strings.Join(lines, ", ") + "]")
	case reflect.Func:
		b.WriteString("func")
	case reflect.Float64, reflect.Float32:
		b.WriteString(fnum(v.Float()))
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprint(b, v.Uint())
	default:
		fmt.Fprintf(b, "?%s", v.Kind())
	}
}

// SameAlda compares two evaluated scores: notes, parts with their state,
// current parts, aliases, markers and variables.
func SameAlda(a, b *model.Score) error { return sameAlda(a, b, true) }

// SameAldaNotes compares the notes and the parts of two evaluated scores.
func SameAldaNotes(a, b *model.Score) error { return sameAlda(a, b, false) }

func sameAlda(a, b *model.Score, all bool) error {
	na, err := Notes(a)
	if err != nil {
		return err
	}
	nb, err := Notes(b)
	if err != nil {
		return err
	}
	if err := SameNotes(na, nb); err != nil {
		return err
	}
	if len(a.Parts) != len(b.Parts) {
		return fmt.Errorf("%d parts, and %d parts", len(a.Parts), len(b.Parts))
	}
	for i, p := range a.Parts {
		q := b.Parts[i]
		if p.Name != q.Name || p.StockInstrument.Name() != q.StockInstrument.Name() {
			return fmt.Errorf("part %d is %s (%s), and %s (%s)", i, p.Name, p.StockInstrument.Name(), q.Name, q.StockInstrument.Name())
		}
		for _, f := range []struct {
			what string
			x, y float64
		}{
			{"time", p.CurrentOffset, q.CurrentOffset}, {"octave", float64(p.Octave), float64(q.Octave)},
			{"tempo", p.Tempo, q.Tempo}, {"volume", p.Volume, q.Volume}, {"track volume", p.TrackVolume, q.TrackVolume},
			{"panning", p.Panning, q.Panning}, {"quantization", p.Quantization, q.Quantization},
			{"transposition", float64(p.Transposition), float64(q.Transposition)},
			{"reference pitch", p.ReferencePitch, q.ReferencePitch},
			{"default length", p.Duration.Ms(p.Tempo), q.Duration.Ms(q.Tempo)},
			{"time scale", p.TimeScale, q.TimeScale},
		} {
			if !Near(f.x, f.y) {
				return fmt.Errorf("part %d: final %s is %v, and %v", i, f.what, f.x, f.y)
			}
		}
		if !sameKey(KeyMap(p.KeySignature), KeyMap(q.KeySignature)) {
			return fmt.Errorf("part %d: final key signature is %v, and %v", i, p.KeySignature, q.KeySignature)
		}
	}
	ca, err := Current(a)
	if err != nil {
		return err
	}
	cb, err := Current(b)
	if err != nil {
		return err
	}
	if fmt.Sprint(ca) != fmt.Sprint(cb) {
		return fmt.Errorf("current parts are %v, and %v", ca, cb)
	}
	if !all {
		return nil
	}
	if len(a.Markers) != len(b.Markers) {
		return fmt.Errorf("%d markers, and %d markers", len(a.Markers), len(b.Markers))
	}
	for m, o := range a.Markers {
		o2, ok := b.Markers[m]
		if !ok || !Near(o, o2) {
			return fmt.Errorf("marker %s is at %v, and at %v", m, o, o2)
		}
	}
	if err := sameAliases(a, b); err != nil {
		return err
	}
	va, vb := names(a.Variables), names(b.Variables)
	if va != vb {
		return fmt.Errorf("variables %s, and %s", va, vb)
	}
	return nil
}

func names(m map[string][]model.ScoreUpdate) string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

func sameAliases(a, b *model.Score) error {
	x, y := AliasMap(a), AliasMap(b)
	if fmt.Sprint(x) != fmt.Sprint(y) {
		return fmt.Errorf("aliases %v, and %v", x, y)
	}
	return nil
}

// AliasMap lists the part indices of each alias.
func AliasMap(s *model.Score) map[string][]int {
	idx := map[string]int{}
	for i, p := range s.Parts {
		idx[p.ID()] = i
	}
	out := map[string][]int{}
	for al, ps := range s.Aliases {
		l := []int{}
		for _, p := range ps {
			i, ok := idx[p.ID()]
			if !ok {
				i = -1
			}
			l = append(l, i)
		}
		sort.Ints(l)
		out[al] = l
	}
	return out
}
