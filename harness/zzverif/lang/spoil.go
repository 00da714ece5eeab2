package lang

import "pgregory.net/rapid"

// Spoil puts something that cannot be evaluated somewhere into a score.
func Spoil(t *rapid.T, evs []*Ev) []*Ev {
	bad := []*Ev{
		{K: "v", Nm: "undefined"},
		{K: "@", Nm: "nowhere"},
		{K: "[", E: []*Ev{{K: "o", N: 12}, {K: "n", L: "c"}}},
		Call("volume", Num("101")),
		Call("no-such-thing", Num("1")),
		Call("tempo", Str("x")),
		Call("key-signature", Str("h+")),
		Call("quant"),
		Call("note", Call("pitch", Num("1")).X),
	}
	x := bad[rapid.IntRange(0, len(bad)-1).Draw(t, "bad")]
	lists := []*[]*Ev{}
	var find func(l *[]*Ev)
	find = func(l *[]*Ev) {
		lists = append(lists, l)
		for _, e := range *l {
			switch e.K {
			case "[", "{":
				find(&e.E)
			case "*":
				if e.E[0].K == "[" {
					find(&e.E[0].E)
				}
			}
		}
	}
	find(&evs)
	l := lists[rapid.IntRange(0, len(lists)-1).Draw(t, "list")]
	i := rapid.IntRange(1, 99).Draw(t, "where")
	if i > len(*l) {
		i = len(*l)
	}
	*l = append(append(append([]*Ev{}, (*l)[:i]...), x), (*l)[i:]...)
	return evs
}
