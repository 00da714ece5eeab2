// Package pimp checks the import of MusicXML. This file holds a small model of
// a MusicXML score, which writes itself as XML and can be performed.
package pimp

import (
	"fmt"
	"sort"
	"strings"
)

// Score is a MusicXML score made of supported elements.
type Score struct {
	Parts []*Part
	Noise int `json:",omitempty"` // appearance-only elements strewn in
	IDs   int `json:",omitempty"` // the way parts are named
}

// Part is one part. Lengths are in ticks of 1/Div of a quarter.
type Part struct {
	Prog  int   // 0: no midi-instrument; 1..128; -1: percussion
	Drums []int `json:",omitempty"` // midi-unpitched numbers
	Name  string
	Div   int
	Sects []*Sect
}

// Sect is a stretch of measures: plain, repeated, or repeated with endings.
type Sect struct {
	Fwd   bool `json:",omitempty"` // has a forward repeat barline
	Times int  `json:",omitempty"` // a repeat without endings
	Attr  bool `json:",omitempty"` // the times are written out
	Body  []*Measure
	Ends  []*End `json:",omitempty"`
}

// End is an alternate ending.
type End struct {
	Nums []int
	Ms   []*Measure
	Disc bool `json:",omitempty"` // "discontinue" instead of "stop"
}

// Measure has the same length in all its voices.
type Measure struct {
	Len   int
	Key   *int `json:",omitempty"`
	Trans *int `json:",omitempty"`
	Oct   int  `json:",omitempty"` // octave-change
	Join  bool `json:",omitempty"` // part of the same measure element as the one before
	V     []*Voice
}

// Voice is what one voice does in a measure.
type Voice struct {
	N     int  // 0: no voice elements
	Skip  int  `json:",omitempty"` // forward before the first item
	Tail  bool `json:",omitempty"` // forward to the end of the measure
	Items []*Item
}

// Item is a note, chord or rest.
type Item struct {
	Len  int
	Dots int      `json:",omitempty"`
	Kind string   // note, rest, cue, gap (a forward)
	P    []*Pitch `json:",omitempty"`
	Dyn  string   `json:",omitempty"`
	Slur string   `json:",omitempty"` // start, stop
}

// Pitch is a pitch, or (percussion) an index into the drums.
type Pitch struct {
	Step  string `json:",omitempty"`
	Alter int    `json:",omitempty"`
	Zero  bool   `json:",omitempty"` // an alter of 0 is written
	Acc   bool   `json:",omitempty"` // the accidental is displayed
	Oct   int    `json:",omitempty"`
	Drum  int    `json:",omitempty"`
	Tie   bool   `json:",omitempty"` // tied to the next note of that pitch
	Tied  bool   `json:",omitempty"` // tied to the previous one
}

// ID is the id of the i-th part.
func (s *Score) ID(i int) string {
	switch s.IDs {
	case 1:
		return fmt.Sprintf("P%d", 12-i)
	case 2:
		return []string{"Flute", "Oboe", "Tuba", "Cello", "Zither", "Alto", "part.one", "x-1", "_2", "Ba_ss", "Q"}[i%11]
	}
	return fmt.Sprintf("P%d", i+1)
}

// order is the order in which alda arranges the parts.
func (s *Score) order() []int {
	ix := []int{}
	for i := range s.Parts {
		ix = append(ix, i)
	}
	sort.Slice(ix, func(a, b int) bool { return s.ID(ix[a]) < s.ID(ix[b]) })
	return ix
}

type xw struct {
	s     *Score
	b     strings.Builder
	noise int
}

func (x *xw) f(format string, a ...interface{}) { fmt.Fprintf(&x.b, format, a...) }

func (x *xw) extra(s string) {
	x.noise = (x.noise*7 + 3) % 11
	if x.noise > 7 {
		x.b.WriteString(s)
	}
}

var esc = strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", "\"", "&quot;")

// XML writes the score.
func (s *Score) XML() string {
	x := &xw{s: s, noise: s.Noise}
	x.f("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<!DOCTYPE score-partwise PUBLIC \"-//Recordare//DTD MusicXML 3.1 Partwise//EN\" \"http://www.musicxml.org/dtds/partwise.dtd\">\n")
	x.f("<score-partwise version=\"3.1\">\n")
	x.extra("<work><work-title>Title</work-title></work>")
	x.f("<part-list>\n")
	for i, p := range s.Parts {
		x.f("<score-part id=%q><part-name>%s</part-name>\n", s.ID(i), esc.Replace(p.Name))
		switch {
		case p.Prog > 0:
			x.f("<score-instrument id=\"%s-I1\"><instrument-name>%s</instrument-name></score-instrument>", s.ID(i), esc.Replace(p.Name))
			x.f("<midi-instrument id=\"%s-I1\"><midi-channel>%d</midi-channel><midi-program>%d</midi-program><volume>78.7402</volume><pan>0</pan></midi-instrument>\n", s.ID(i), i%9+1, p.Prog)
		case p.Prog < 0:
			for _, d := range p.Drums {
				x.f("<score-instrument id=\"%s-I%d\"><instrument-name>drum</instrument-name></score-instrument>", s.ID(i), d)
			}
			for _, d := range p.Drums {
				x.f("<midi-instrument id=\"%s-I%d\"><midi-channel>10</midi-channel><midi-program>1</midi-program><midi-unpitched>%d</midi-unpitched></midi-instrument>\n", s.ID(i), d, d)
			}
		}
		x.f("</score-part>\n")
	}
	x.f("</part-list>\n")
	for i, p := range s.Parts {
		x.f("<part id=%q>\n", s.ID(i))
		n := 0
		// a measure that is joined to has to be filled by its last voice
		fill := map[*Measure]bool{}
		var prev *Measure
		for _, st := range p.Sects {
			ms := append([]*Measure{}, st.Body...)
			for _, e := range st.Ends {
				ms = append(ms, e.Ms...)
			}
			for _, m := range ms {
				if m.Join && prev != nil {
					fill[prev] = true
				}
				prev = m
			}
		}
		meas := func(m *Measure, left, right string) {
			n++
			if n == 1 || !m.Join {
				if n > 1 {
					x.f("</measure>\n")
				}
				x.f("<measure number=\"%d\">\n", n)
				x.extra("<print><system-layout><system-distance>3</system-distance></system-layout></print>")
			}
			x.b.WriteString(left)
			x.measure(p, i, m, n == 1, fill[m])
			x.b.WriteString(right)
		}
		for _, st := range p.Sects {
			for k, m := range st.Body {
				left, right := "", ""
				if k == 0 && st.Fwd {
					left = "<barline location=\"left\"><bar-style>heavy-light</bar-style><repeat direction=\"forward\"/></barline>\n"
				}
				if k == len(st.Body)-1 && len(st.Ends) == 0 && st.Times > 0 {
					times := ""
					if st.Attr || st.Times != 2 {
						times = fmt.Sprintf(" times=\"%d\"", st.Times)
					}
					right = fmt.Sprintf("<barline location=\"right\"><bar-style>light-heavy</bar-style><repeat direction=\"backward\"%s/></barline>\n", times)
				}
				meas(m, left, right)
			}
			for e, en := range st.Ends {
				nums := strings.Trim(strings.Replace(fmt.Sprint(en.Nums), " ", ", ", -1), "[]")
				for k, m := range en.Ms {
					left, right := "", ""
					if k == 0 {
						left = fmt.Sprintf("<barline location=\"left\"><ending number=\"%s\" type=\"start\"/></barline>\n", nums)
					}
					if k == len(en.Ms)-1 {
						stop := "stop"
						if en.Disc {
							stop = "discontinue"
						}
						rep := "<repeat direction=\"backward\"/>"
						if e == len(st.Ends)-1 {
							rep = ""
						}
						right = fmt.Sprintf("<barline location=\"right\"><ending number=\"%s\" type=\"%s\"/>%s</barline>\n", nums, stop, rep)
					}
					meas(m, left, right)
				}
			}
		}
		x.f("</measure>\n</part>\n")
	}
	x.f("</score-partwise>\n")
	return x.b.String()
}

func (x *xw) measure(p *Part, pi int, m *Measure, first, fill bool) {
	if first || m.Key != nil || m.Trans != nil {
		x.f("<attributes>")
		if first {
			x.f("<divisions>%d</divisions>", p.Div)
		}
		if m.Key != nil {
			x.f("<key><fifths>%d</fifths></key>", *m.Key)
		}
		x.extra("<time><beats>4</beats><beat-type>4</beat-type></time>")
		x.extra("<clef><sign>G</sign><line>2</line></clef>")
		if m.Trans != nil {
			x.f("<transpose><diatonic>0</diatonic><chromatic>%d</chromatic>", *m.Trans)
			if m.Oct != 0 {
				x.f("<octave-change>%d</octave-change>", m.Oct)
			}
			x.f("</transpose>")
		}
		x.f("</attributes>\n")
	}
	for i, v := range m.V {
		at := 0
		voice := ""
		if v.N > 0 {
			voice = fmt.Sprintf("<voice>%d</voice>", v.N)
		}
		if v.Skip > 0 {
			x.f("<forward><duration>%d</duration></forward>\n", v.Skip)
			at += v.Skip
		}
		for _, it := range v.Items {
			x.item(p, pi, it, voice)
			at += it.Len
		}
		if (v.Tail || fill && i == len(m.V)-1) && at < m.Len {
			x.f("<forward><duration>%d</duration></forward>\n", m.Len-at)
			at = m.Len
		}
		if i < len(m.V)-1 {
			x.f("<backup><duration>%d</duration></backup>\n", at)
		}
	}
}

var accName = map[int]string{-2: "flat-flat", -1: "flat", 0: "natural", 1: "sharp", 2: "double-sharp"}

func (x *xw) item(p *Part, pi int, it *Item, voice string) {
	if it.Dyn != "" {
		x.f("<direction placement=\"below\"><direction-type><dynamics><%s/></dynamics></direction-type></direction>\n", it.Dyn)
	}
	dots := strings.Repeat("<dot/>", it.Dots)
	switch it.Kind {
	case "gap":
		x.f("<forward><duration>%d</duration></forward>\n", it.Len)
		return
	case "rest":
		x.f("<note><rest/><duration>%d</duration>%s%s</note>\n", it.Len, voice, dots)
		return
	}
	for i, q := range it.P {
		x.f("<note>")
		if it.Kind == "cue" {
			x.f("<cue/>")
		}
		if i > 0 {
			x.f("<chord/>")
		}
		if p.Prog < 0 {
			x.f("<unpitched><display-step>C</display-step><display-octave>5</display-octave></unpitched>")
		} else {
			x.f("<pitch><step>%s</step>", q.Step)
			if q.Alter != 0 || q.Zero {
				x.f("<alter>%d</alter>", q.Alter)
			}
			x.f("<octave>%d</octave></pitch>", q.Oct)
		}
		x.f("<duration>%d</duration>", it.Len)
		if q.Tied {
			x.f("<tie type=\"stop\"/>")
		}
		if q.Tie {
			x.f("<tie type=\"start\"/>")
		}
		if p.Prog < 0 {
			x.f("<instrument id=\"%s-I%d\"/>", x.s.ID(pi), p.Drums[q.Drum])
		}
		x.f("%s", voice)
		x.extra("<type>quarter</type>")
		x.f("%s", dots)
		if q.Acc && p.Prog >= 0 {
			x.f("<accidental>%s</accidental>", accName[q.Alter])
		}
		x.extra("<stem>up</stem>")
		if i == 0 && it.Slur != "" {
			x.f("<notations><slur type=\"%s\" number=\"1\"/></notations>", it.Slur)
		}
		x.f("</note>\n")
	}
}

// Note is a note as it sounds; times in quarters.
type Note struct {
	Off, Dur float64
	Pitch    int
}

var steps = map[string]int{"C": 0, "D": 2, "E": 4, "F": 5, "G": 7, "A": 9, "B": 11}

// played lists the measures of a part in the order of performance.
func (p *Part) played() []*Measure {
	out := []*Measure{}
	for _, st := range p.Sects {
		if len(st.Ends) == 0 {
			n := 1
			if st.Times > 0 {
				n = st.Times
			}
			for i := 0; i < n; i++ {
				out = append(out, st.Body...)
			}
			continue
		}
		last := 0
		for _, e := range st.Ends {
			for _, k := range e.Nums {
				if k > last {
					last = k
				}
			}
		}
		for k := 1; k <= last; k++ {
			out = append(out, st.Body...)
			for _, e := range st.Ends {
				for _, j := range e.Nums {
					if j == k {
						out = append(out, e.Ms...)
					}
				}
			}
		}
	}
	return out
}

// transAt tells the transposition of each measure in written order.
func (p *Part) transpositions() map[*Measure]int {
	out := map[*Measure]int{}
	cur := 0
	do := func(ms []*Measure) {
		for _, m := range ms {
			if m.Trans != nil {
				cur = *m.Trans + 12*m.Oct
			}
			out[m] = cur
		}
	}
	for _, st := range p.Sects {
		do(st.Body)
		for _, e := range st.Ends {
			do(e.Ms)
		}
	}
	return out
}

// Perform lists the notes of a part.
func (p *Part) Perform() []Note {
	out := []Note{}
	tr := p.transpositions()
	type key struct{ voice, pitch int }
	tied := map[key]int{} // note being prolonged
	at := 0
	q := func(t int) float64 { return float64(t) / float64(p.Div) }
	for _, m := range p.played() {
		for _, v := range m.V {
			t := at + v.Skip
			for _, it := range v.Items {
				if it.Kind == "note" {
					for _, pt := range it.P {
						n := 0
						if p.Prog < 0 {
							n = p.Drums[pt.Drum] - 1 + tr[m]
						} else {
							n = 12*(pt.Oct+1) + steps[pt.Step] + pt.Alter + tr[m]
						}
						k := key{v.N, n}
						i, on := tied[k]
						if pt.Tied && on {
							out[i].Dur += q(it.Len)
						} else {
							out = append(out, Note{q(t), q(it.Len), n})
							i = len(out) - 1
						}
						delete(tied, k)
						if pt.Tie {
							tied[k] = i
						}
					}
				}
				t += it.Len
			}
		}
		at += m.Len
	}
	return out
}
