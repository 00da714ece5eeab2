package lang

// Expand writes out repeats and alternate endings. rep is the current pass of
// the innermost repeat, or 0.
func Expand(evs []*Ev, rep int) []*Ev {
	out := []*Ev{}
	for _, e := range evs {
		switch e.K {
		case "*":
			for i := 1; i <= e.N; i++ {
				out = append(out, Expand(e.E, i)...)
			}
		case "'":
			for _, r := range e.R {
				if r[0] <= rep && rep <= r[1] {
					out = append(out, Expand(e.E, rep)...)
					break
				}
			}
		default:
			c := e.Clone()
			if e.E != nil {
				c.E = Expand(e.E, rep)
			}
			out = append(out, c)
		}
	}
	return out
}

// Substitute writes out variables: each use is replaced by a sequence of the
// events of the definition in force, and definitions are dropped.
func Substitute(evs []*Ev, vars map[string][]*Ev) []*Ev {
	out := []*Ev{}
	for _, e := range evs {
		switch e.K {
		case "=":
			vars[e.Nm] = Substitute(e.E, vars)
		case "v":
			if v, ok := vars[e.Nm]; ok {
				out = append(out, &Ev{K: "[", E: Clone(v)})
			} else {
				out = append(out, e.Clone())
			}
		default:
			c := e.Clone()
			if e.E != nil {
				c.E = Substitute(e.E, vars)
			}
			out = append(out, c)
		}
	}
	return out
}

// Has tells whether an event of one of the kinds occurs.
func Has(evs []*Ev, kinds string) bool { return Count(evs, kinds) > 0 }
