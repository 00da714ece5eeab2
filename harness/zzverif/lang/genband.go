package lang

import (
	"strconv"

	"pgregory.net/rapid"
)

// GenBand draws a score of many instances.
func GenBand(t *rapid.T, explicit bool) []*Ev {
	n := func(lo, hi int) int { return rapid.IntRange(lo, hi).Draw(t, "n") }
	pct := func(p int) bool { return n(0, 99) >= 100-p }
	pool := Names[:40]
	insts := n(2, 24)
	if pct(50) {
		insts = n(14, 24)
	}
	calls := []*Ev{}
	made := 0
	for k := 0; made < insts; k++ {
		e := &Ev{K: "p", Nms: []string{pool[(k*7+n(0, 2))%len(pool)]}, Al: "a" + string(rune('a'+k)) + "x"}
		switch {
		case pct(10):
			e.Nms = []string{"midi-percussion"}
		case pct(25):
			e.Nms = append(e.Nms, pool[(k*7+3)%len(pool)])
			if e.Nms[0] == e.Nms[1] {
				e.Nms = e.Nms[:1]
			}
		}
		made += len(e.Nms)
		calls = append(calls, e)
	}
	again := []string{}
	out := []*Ev{}
	dur := func() []DC {
		if !pct(50) {
			return nil
		}
		return []DC{{U: "n", V: rapid.SampledFrom([]string{"4", "8", "2", "1", "16"}).Draw(t, "len")}}
	}
	event := func() *Ev {
		switch x := n(0, 9); {
		case x <= 3:
			return &Ev{K: "n", L: rapid.SampledFrom([]string{"c", "e", "g"}).Draw(t, "l"), D: dur(), S: pct(30)}
		case x <= 6:
			return &Ev{K: "r", D: dur()}
		case x == 7:
			return &Ev{K: "c", E: []*Ev{{K: "n", L: "c", D: dur()}, {K: "n", L: "e", D: dur()}}}
		case x == 8 && explicit:
			f := "midi-channel"
			if pct(10) {
				f += "!"
			}
			ch := n(0, 15)
			if ch == 9 && !pct(15) {
				ch = 10
			}
			return Call(f, Num(strconv.Itoa(ch)))
		case x == 9 && pct(50):
			return Call("quant", Num(rapid.SampledFrom([]string{"100", "50", "90", "150"}).Draw(t, "quant")))
		}
		return &Ev{K: "n", L: "d"}
	}
	blocks := len(calls) + n(0, 6)
	for b := 0; b < blocks; b++ {
		if b < len(calls) {
			out = append(out, calls[b])
			again = append(again, calls[b].Al)
		} else {
			e := &Ev{K: "p", Nms: []string{again[n(0, len(again)-1)]}}
			if pct(30) {
				e.Nms = append(e.Nms, again[n(0, len(again)-1)])
				if e.Nms[0] == e.Nms[1] {
					e.Nms = e.Nms[:1]
				}
			}
			out = append(out, e)
		}
		if pct(10) {
			for v := 1; v <= n(1, 3); v++ {
				out = append(out, &Ev{K: "V", N: v}, event(), event())
			}
			out = append(out, &Ev{K: "V", N: 0})
		}
		for i := n(1, 4); i > 0; i-- {
			out = append(out, event())
		}
	}
	return out
}
