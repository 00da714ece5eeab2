package pimp

import (
	"bytes"
	"fmt"
	"math"
	"strings"

	"alda.io/client/interop/musicxml/importer"
	"alda.io/client/parser"
	"alda.io/client/zzverif/lang"
	"alda.io/client/zzverif/vp"
	"pgregory.net/rapid"
)

// toAlda imports a text and writes it as Alda code, as `alda import` does.
func toAlda(xml string) (string, error, error) {
	ups, err := importer.ImportMusicXML([]byte(xml))
	if err != nil {
		return "", err, nil
	}
	root, err := parser.GenerateASTFromScoreUpdates(ups)
	if err != nil {
		return "", nil, err
	}
	var b bytes.Buffer
	if err := parser.FormatASTToCode(root, &b); err != nil {
		return "", nil, err
	}
	return b.String(), nil, nil
}

// sameNotes compares notes; lengths pass through decimal fractions and sums of
// beats, which alda rounds at a ten-thousandth.
func sameNotes(ws, gs []Note) error {
	used := make([]bool, len(gs))
	near := func(a, b float64) bool { return math.Abs(a-b) < 0.002 }
	for _, w := range ws {
		found := false
		for j, g := range gs {
			if !used[j] && g.Pitch == w.Pitch && near(g.Off, w.Off) && near(g.Dur, w.Dur) {
				used[j], found = true, true
				break
			}
		}
		if !found {
			s := ""
			for j, g := range gs {
				if !used[j] && math.Abs(g.Off-w.Off) < 1 {
					s += fmt.Sprintf("; unexpected %v", g)
				}
			}
			return fmt.Errorf("%d notes expected, %d made; none like {off, length, pitch} %v%s", len(ws), len(gs), w, s)
		}
	}
	for j, g := range gs {
		if !used[j] {
			return fmt.Errorf("%d notes expected, %d made; unexpected %v", len(ws), len(gs), g)
		}
	}
	return nil
}

func sound(s *Score, r *vp.R) error {
	xml := s.XML()
	r.Sample(xml)
	code, err, werr := toAlda(xml)
	if err != nil {
		return fmt.Errorf("not imported: %v", err)
	}
	if werr != nil {
		return fmt.Errorf("not written: %v", werr)
	}
	r.Sample(xml + code)
	g := lang.Eval(code)
	if g.Err() != nil {
		return fmt.Errorf("the imported score is rejected: %v\n%s", g.Err(), code)
	}
	ord := s.order()
	if len(g.Score.Parts) != len(ord) {
		return fmt.Errorf("%d parts, %d expected\n%s", len(g.Score.Parts), len(ord), code)
	}
	got, err := lang.Notes(g.Score)
	if err != nil {
		return err
	}
	total := 0
	for i, k := range ord {
		p := s.Parts[k]
		prog, ok := lang.Program(g.Score.Parts[i].StockInstrument.Name())
		want := p.Prog - 1
		if p.Prog == 0 {
			want = 0
		}
		if p.Prog < 0 && g.Score.Parts[i].StockInstrument.Name() != "midi-percussion" || p.Prog >= 0 && (!ok || prog != want) {
			return fmt.Errorf("part %s: instrument %s\n%s", s.ID(k), g.Score.Parts[i].StockInstrument.Name(), code)
		}
		var gs []Note
		for _, n := range got {
			if n.Inst == i {
				gs = append(gs, Note{n.Off / 500, n.Dur / 500, n.Pitch})
			}
		}
		ws := p.Perform()
		total += len(ws)
		if err := sameNotes(ws, gs); err != nil {
			return fmt.Errorf("part %s: %v\n%s", s.ID(k), err, code)
		}
	}
	if total >= 3 {
		r.NonTrivial()
	}
	return nil
}

// again checks that importing twice gives the same.
func again(s *Score, r *vp.R) error {
	xml := s.XML()
	first := ""
	for i := 0; i < 4; i++ {
		code, err, werr := toAlda(xml)
		res := fmt.Sprint(code, err, werr)
		if i > 0 && res != first {
			return fmt.Errorf("importing again gives something else:\n%s\n---\n%s", first, res)
		}
		first = res
		if err != nil || werr != nil {
			return fmt.Errorf("not imported: %v %v", err, werr)
		}
		if g := lang.Eval(code); g.Err() != nil {
			return fmt.Errorf("the imported score is rejected: %v\n%s", g.Err(), code)
		}
	}
	r.Sample(first)
	if strings.Count(first, "\n") > 2 {
		r.NonTrivial()
	}
	return nil
}

func init() {
	vp.Add("P27", "valid", 500, 8000, func(t *rapid.T) *Score { return Gen(t, All) }, again)
	vp.Add("P28", "all", 4000, 100000, func(t *rapid.T) *Score { return Gen(t, All) }, sound)
}
