package lang

import (
	"fmt"
	"math"
	"sort"
	"strings"
)

// PS is the state of one part (or one voice of it).
type PS struct {
	Off, Last                    float64
	Oct, Tr, Chan                int
	HasChan                      bool
	Tempo, Vol, TVol, Pan, Quant float64
	Ref, Scale                   float64
	Dur                          Dur
	Key                          map[string]int
	// How the time was arrived at. Times that should be equal but were arrived at
	// differently can differ by rounding, unless they are exact.
	hist      uint64
	inexact   bool
	last      moment
	relative  map[string]bool // attributes that had a relative change since the last note
	over      map[string]float64
	TempoVals map[float64]float64
}

func newPS() *PS {
	return &PS{Last: -1, Oct: 4, Tempo: 120, Vol: dynamics["mf"], TVol: 100.0 / 127, Pan: 0.5, Quant: 0.9,
		Ref: 440, Scale: 1, Dur: Dur{Beats: 1}, Chan: -1, last: moment{off: -1}, relative: map[string]bool{},
		Key: map[string]int{}, over: map[string]float64{}, TempoVals: map[float64]float64{}}
}

func (p *PS) copy() *PS {
	c := *p
	c.over = map[string]float64{}
	for k, v := range p.over {
		c.over[k] = v
	}
	c.relative = map[string]bool{}
	for k, v := range p.relative {
		c.relative[k] = v
	}
	c.TempoVals = map[float64]float64{}
	for k, v := range p.TempoVals {
		c.TempoVals[k] = v
	}
	return &c
}

type voiceGroup struct {
	tmpl   *PS
	voices map[int]*PS
	order  []int
}

// Inst is one instance of an instrument.
type Inst struct {
	Idx   int
	Name  string // as written when created
	Stock string
	Perc  bool
	PS    *PS
	vg    *voiceGroup
	// main is the state outside voices: what the part had when the group began.
	main *PS
}

// NoteOut is one performed note.
type NoteOut struct {
	Inst           int
	Off, Dur, Aud  float64
	Pitch          int
	Vol, TVol, Pan float64
	Chan           int // the channel asked for, or -1
	Ev             *Ev
}

type global struct {
	moment
	attr Attr
	seq  int
}

// moment is a time and how it was arrived at.
type moment struct {
	off     float64
	hist    uint64
	inexact bool
}

func (p *PS) now() moment { return moment{p.Off, p.hist, p.inexact} }

// tie notes that the outcome depends on whether two moments are equal: if that
// is a matter of rounding then the case is not judged.
func (s *Score) tie(a, b moment) {
	if Near(a.off, b.off) && a.hist != b.hist && (a.inexact || b.inexact) {
		s.Ambiguous = true
	}
}

func (p *PS) advance(ms, tempo float64) {
	p.Off += ms
	p.note()
	for _, f := range []float64{ms, tempo, p.Scale} {
		p.hist = mix(p.hist, math.Float64bits(f))
	}
}

// note records whether the length in force involves rounding.
func (p *PS) note() {
	if d := p.Dur; d.Inexact || !exact(d.Beats) || !exact(d.Ms) || !exact(60000/p.Tempo) || !exact(p.Scale) {
		p.inexact = true
	}
	p.hist = mix(p.hist, p.Dur.h)
}

// Score is the reference's evaluation state.
type Score struct {
	Insts   []*Inst
	Cur     []*Inst
	Aliases map[string][]*Inst
	Notes   []NoteOut
	Markers map[string]float64
	markers map[string]moment
	Vars    map[string][]*Ev
	globals []global
	reps    []int
	chord   bool
	minDur  map[*Inst]float64
	dry     bool
	steps   int
	// Ambiguous says that the outcome is a matter of rounding, or of the order of
	// changes that the language does not define.
	Ambiguous bool
	// Facts about what happened, for classification.
	Facts map[string]int
}

// NewScore returns an empty score.
func NewScore() *Score {
	return &Score{Aliases: map[string][]*Inst{}, Markers: map[string]float64{}, markers: map[string]moment{}, Vars: map[string][]*Ev{}, Facts: map[string]int{}}
}

// EvalErr is a predicted rejection.
type EvalErr struct {
	Kind string // pitch var marker marker-offset global-offset decl lisp length
	Ev   *Ev
	Path []*Ev // enclosing events, outermost first
	Msg  string
}

func (e *EvalErr) Error() string { return e.Kind + ": " + e.Msg }

// ErrTooBig says that the case is too large to evaluate; it is not a verdict.
var ErrTooBig = fmt.Errorf("reference: too many steps")

const maxSteps = 60000

// Run evaluates events in order.
func (s *Score) Run(evs []*Ev) error {
	for _, e := range evs {
		if err := s.ev(e); err != nil {
			if ee, ok := err.(*EvalErr); ok && ee.Ev != e {
				ee.Path = append([]*Ev{e}, ee.Path...)
			}
			return err
		}
	}
	return nil
}

func (s *Score) fact(k string) {
	if !s.dry {
		s.Facts[k]++
	}
}

// window applies the global attributes which a part has reached.
func (s *Score) window(e *Ev) error {
	if s.dry {
		return nil
	}
	for _, in := range s.Cur {
		p := in.PS
		for _, g := range s.globals {
			s.tie(g.moment, p.now())
			s.tie(g.moment, p.last)
			if g.off > p.Last && g.off <= p.Off {
				if _, ok := p.over[g.attr.slot()]; p.relative[g.attr.slot()] || (ok && g.attr.relative()) {
					s.Ambiguous = true
				}
				if o, ok := p.over[g.attr.slot()]; ok && g.off <= o {
					s.fact("override")
					continue
				}
				if err := s.applyAttr(in, g.attr, true); err != nil {
					return &EvalErr{Kind: "lisp", Ev: e, Msg: err.Error()}
				}
				s.fact("global-applied")
			}
		}
		p.over = map[string]float64{}
		p.relative = map[string]bool{}
	}
	return nil
}

// relative attribute changes depend on the previous value.
func (a Attr) relative() bool {
	return a.Kind == "octave-up" || a.Kind == "octave-down" || a.Kind == "metric"
}

func (s *Score) applyAttr(in *Inst, a Attr, glob bool) error {
	p := in.PS
	if math.Abs(float64(p.Oct)) > 1<<30 && (a.Kind == "octave-up" || a.Kind == "octave-down") {
		s.Ambiguous = true // octaves beyond what alda can count
	}
	switch a.Kind {
	case "octave":
		p.Oct = a.I
	case "octave-up":
		p.Oct++
	case "octave-down":
		p.Oct--
	case "tempo", "metric":
		if a.Kind == "tempo" {
			p.Tempo = a.F
		} else {
			p.Tempo *= a.F
		}
		if !glob && !s.dry {
			p.TempoVals[p.Off] = p.Tempo
		}
	case "quant":
		p.Quant = a.F
	case "volume":
		p.Vol = a.F
	case "track-volume":
		p.TVol = a.F
	case "panning":
		p.Pan = a.F
	case "duration":
		p.Dur = a.D
	case "key":
		p.Key = a.Key
	case "transpose":
		p.Tr = a.I
	case "ref-pitch":
		p.Ref = a.F
	case "channel":
		if a.I == 9 && !in.Perc {
			return fmt.Errorf("channel 9")
		}
		p.Chan, p.HasChan = a.I, true
	}
	return nil
}

func (s *Score) note(e *Ev, p *pitch, isRest bool, d *Dur, slur bool) error {
	if !s.chord {
		if err := s.window(e); err != nil {
			return err
		}
	}
	if d != nil && !(d.Beats > 0 || d.Ms > 0) {
		return &EvalErr{Kind: "length", Ev: e}
	}
	for _, in := range s.Cur {
		ps := in.PS
		if d != nil {
			ps.Dur = *d
		}
		ms := ps.Dur.ms(ps.Tempo) * ps.Scale
		if !isRest {
			aud := ms
			if !slur {
				aud *= ps.Quant
			}
			if aud > 0 {
				n := 0
				if p.isMidi {
					n = p.midi
				} else {
					n = (ps.Oct+1)*12 + semis[p.letter]
					if p.accs == nil {
						n += ps.Key[p.letter]
						if ps.Key[p.letter] != 0 {
							s.fact("key-used")
						}
					} else {
						for _, a := range p.accs {
							switch a {
							case "sharp":
								n++
							case "flat":
								n--
							}
						}
					}
				}
				n += ps.Tr
				if n < 0 || n > 127 {
					if s.dry {
						n = 0
					} else {
						return &EvalErr{Kind: "pitch", Ev: e, Msg: fmt.Sprint(n)}
					}
				}
				if !s.dry {
					s.Notes = append(s.Notes, NoteOut{Inst: in.Idx, Off: ps.Off, Dur: ms, Aud: aud, Pitch: n,
						Vol: ps.Vol, TVol: ps.TVol, Pan: ps.Pan, Chan: ps.Chan, Ev: e})
					if slur {
						s.fact("slurred")
					}
				}
			}
		}
		if s.chord {
			ps.note()
			s.minDur[in] = math.Min(s.minDur[in], ms)
		} else {
			ps.Last, ps.last = ps.Off, ps.now()
			ps.advance(ms, ps.Tempo)
		}
	}
	return nil
}

func accNames(a string) []string {
	var out []string
	for _, c := range a {
		switch c {
		case '+':
			out = append(out, "sharp")
		case '-':
			out = append(out, "flat")
		case '_':
			out = append(out, "natural")
		}
	}
	return out
}

func durPtr(d []DC) (*Dur, error) {
	if len(d) == 0 {
		return nil, nil
	}
	x, err := dcsDur(d)
	if err != nil {
		return nil, err
	}
	return &x, nil
}

func (s *Score) ev(e *Ev) error {
	s.steps++
	if s.steps > maxSteps {
		return ErrTooBig
	}
	fail := func(kind, f string, a ...interface{}) error {
		return &EvalErr{Kind: kind, Ev: e, Msg: fmt.Sprintf(f, a...)}
	}
	switch e.K {
	case "|":
		return nil
	case "n", "r":
		d, err := durPtr(e.D)
		if err != nil {
			return fail("length", "%v", err)
		}
		return s.note(e, &pitch{letter: e.L, accs: accNames(e.A)}, e.K == "r", d, e.S)
	case "o":
		return s.local(e, Attr{Kind: "octave", I: e.N})
	case ">":
		return s.local(e, Attr{Kind: "octave-up"})
	case "<":
		return s.local(e, Attr{Kind: "octave-down"})
	case "(":
		v, err := EvalLisp(e.X)
		if err != nil {
			return fail("lisp", "%v", err)
		}
		return s.value(e, v)
	case "A": // captured value
		return s.value(e, *captured[e.N])
	case "c":
		if err := s.window(e); err != nil {
			return err
		}
		s.chord = true
		s.minDur = map[*Inst]float64{}
		for _, in := range s.Cur {
			s.minDur[in] = math.MaxFloat64
		}
		err := s.Run(e.E)
		s.chord = false
		if err != nil {
			return err
		}
		for _, in := range s.Cur {
			in.PS.Last, in.PS.last = in.PS.Off, in.PS.now()
			in.PS.advance(s.minDur[in], in.PS.Tempo)
		}
		s.fact("chord")
		return nil
	case "[":
		return s.Run(e.E)
	case "*":
		s.reps = append(s.reps, 0)
		defer func() { s.reps = s.reps[:len(s.reps)-1] }()
		for i := 1; i <= e.N; i++ {
			s.reps[len(s.reps)-1] = i
			if err := s.Run(e.E); err != nil {
				return err
			}
		}
		s.fact("repeat")
		return nil
	case "'":
		rep := 0
		if len(s.reps) > 0 {
			rep = s.reps[len(s.reps)-1]
		}
		for _, r := range e.R {
			if r[0] <= rep && rep <= r[1] {
				s.fact("ending-played")
				// The event's own repeats count for itself only.
				return s.Run(e.E)
			}
		}
		s.fact("ending-skipped")
		return nil
	case "{":
		return s.cram(e)
	case "=":
		val, err := s.capture(e.E)
		if err != nil {
			if ee, ok := err.(*EvalErr); ok {
				ee.Path = append([]*Ev{e}, ee.Path...)
			}
			return err
		}
		if !s.dry {
			if _, had := s.Vars[e.Nm]; had {
				s.fact("redefined")
			}
			s.Vars[e.Nm] = val
		}
		return nil
	case "v":
		val, ok := s.Vars[e.Nm]
		if !ok {
			if s.dry {
				return nil
			}
			return fail("var", "%s", e.Nm)
		}
		s.fact("var-used")
		return s.Run(val)
	case "V":
		if e.N == 0 {
			s.endVoices()
			return nil
		}
		for _, in := range s.Cur {
			if in.vg == nil {
				in.vg = &voiceGroup{tmpl: in.PS.copy(), voices: map[int]*PS{}}
				in.main = in.PS
			}
			v, ok := in.vg.voices[e.N]
			if !ok {
				v = in.vg.tmpl.copy()
				in.vg.voices[e.N] = v
				in.vg.order = append(in.vg.order, e.N)
			} else {
				s.fact("voice-resumed")
			}
			in.PS = v
		}
		s.fact("voice")
		return nil
	case "%":
		at, same := s.here()
		if !same {
			return fail("marker-offset", "%s", e.Nm)
		}
		if !s.dry {
			s.Markers[e.Nm] = at.off
			s.markers[e.Nm] = at
		}
		return nil
	case "@":
		if err := s.window(e); err != nil {
			return err
		}
		off, ok := s.Markers[e.Nm]
		if !ok {
			if s.dry {
				return nil
			}
			return fail("marker", "%s", e.Nm)
		}
		for _, in := range s.Cur {
			in.PS.Last, in.PS.last = in.PS.Off, in.PS.now()
			m := s.markers[e.Nm]
			in.PS.Off, in.PS.hist, in.PS.inexact = off, m.hist, m.inexact
		}
		s.fact("jump")
		return nil
	case "p":
		s.endVoices()
		return s.decl(e)
	}
	panic("interp: unknown kind " + e.K)
}

// here is the moment at which the current instances are, if they agree.
func (s *Score) here() (moment, bool) {
	at := moment{}
	for i, in := range s.Cur {
		if i == 0 {
			at = in.PS.now()
			continue
		}
		s.tie(at, in.PS.now())
		if !Near(in.PS.Off, at.off) {
			return at, false
		}
	}
	return at, true
}

func (s *Score) local(e *Ev, a Attr) error {
	for _, in := range s.Cur {
		if err := s.applyAttr(in, a, false); err != nil {
			return &EvalErr{Kind: "lisp", Ev: e, Msg: err.Error()}
		}
		in.PS.over[a.slot()] = in.PS.Off
		if a.relative() {
			in.PS.relative[a.slot()] = true
		} else {
			delete(in.PS.relative, a.slot())
		}
	}
	return nil
}

func (s *Score) value(e *Ev, v Val) error {
	switch v.T {
	case "attr":
		if !v.Glob {
			return s.local(e, v.Attr)
		}
		at, same := s.here()
		if !same {
			return &EvalErr{Kind: "global-offset", Ev: e}
		}
		if !s.dry {
			s.globals = append(s.globals, global{at, v.Attr, len(s.globals)})
			sort.SliceStable(s.globals, func(i, j int) bool { return s.globals[i].off < s.globals[j].off })
		}
		return nil
	case "note":
		return s.note(e, v.Pitch, false, v.D, v.Slur)
	case "rest":
		return s.note(e, nil, true, v.D, false)
	}
	return nil // any other value has no effect
}

// InnerLength is how long the events take for one part, outside any cram.
func (s *Score) innerLength(evs []*Ev, in *Inst) (float64, error) {
	sub := &Score{Insts: s.Insts, Aliases: s.Aliases, Markers: s.Markers, Vars: s.Vars, reps: append([]int(nil), s.reps...), dry: true, steps: s.steps, markers: s.markers, Facts: s.Facts}
	cp := *in
	cp.PS = in.PS.copy()
	cp.PS.Scale = 1
	cp.vg = nil
	sub.Cur = []*Inst{&cp}
	start := cp.PS.Off
	err := sub.Run(evs)
	s.steps = sub.steps
	if sub.Ambiguous {
		s.Ambiguous = true
	}
	if err == ErrTooBig {
		return 0, err
	}
	sub.endVoices()
	return cp.PS.Off - start, nil
}

func (s *Score) cram(e *Ev) error {
	d, err := durPtr(e.D)
	if err != nil {
		return &EvalErr{Kind: "length", Ev: e, Msg: err.Error()}
	}
	type saved struct {
		dur   Dur
		scale float64
	}
	before := map[*Inst]saved{}
	for _, in := range s.Cur {
		ps := in.PS
		before[in] = saved{ps.Dur, ps.Scale}
		outer := ps.Dur
		if d != nil {
			outer = *d
		}
		inner, err := s.innerLength(e.E, in)
		if err != nil {
			return err
		}
		if ps.Off > 1e5*inner {
			s.Ambiguous = true // the length of the contents is a matter of rounding
		}
		ps.Scale = ps.Scale * outer.ms(ps.Tempo) / inner
	}
	if err := s.Run(e.E); err != nil {
		return err
	}
	for _, in := range s.Cur {
		in.PS.Dur = before[in].dur
		if d != nil {
			in.PS.Dur = *d
		}
		in.PS.Scale = before[in].scale
	}
	s.fact("cram")
	return nil
}

func (s *Score) endVoices() {
	for _, in := range s.Cur {
		if in.vg == nil {
			continue
		}
		last := in.vg.voices[in.vg.order[len(in.vg.order)-1]]
		for _, n := range in.vg.order[:len(in.vg.order)-1] {
			v := in.vg.voices[n]
			s.tie(v.now(), last.now())
			if v.Off > last.Off {
				last = v
			}
		}
		in.PS = last
		in.vg = nil
		in.main = nil
		s.fact("voices-joined")
	}
}

// captured holds Lisp values captured in variables.
var captured []*Val

// capture computes the events that a definition stores.
func (s *Score) capture(evs []*Ev) ([]*Ev, error) {
	out := []*Ev{}
	for _, e := range evs {
		switch e.K {
		case "v":
			val, ok := s.Vars[e.Nm]
			if !ok {
				return nil, &EvalErr{Kind: "var", Ev: e}
			}
			out = append(out, &Ev{K: "[", E: val})
		case "(":
			v, err := EvalLisp(e.X)
			if err != nil {
				return nil, &EvalErr{Kind: "lisp", Ev: e, Msg: err.Error()}
			}
			captured = append(captured, &v)
			out = append(out, &Ev{K: "A", N: len(captured) - 1})
		case "p":
			return nil, &EvalErr{Kind: "decl", Ev: e}
		default:
			if len(e.E) == 0 {
				out = append(out, e)
				continue
			}
			k, err := s.capture(e.E)
			if err != nil {
				if ee, ok := err.(*EvalErr); ok {
					ee.Path = append([]*Ev{e}, ee.Path...)
				}
				return nil, err
			}
			c := *e
			c.E = k
			out = append(out, &c)
		}
	}
	return out, nil
}

// ResetCaptured forgets captured values; call it between cases.
func ResetCaptured() { captured = nil }

func (s *Score) unnamed(stock string) []*Inst {
	out := []*Inst{}
	for _, in := range s.Insts {
		named := false
		for _, as := range s.Aliases {
			for _, x := range as {
				if x == in {
					named = true
				}
			}
		}
		if !named && in.Stock == stock {
			out = append(out, in)
		}
	}
	return out
}

func (s *Score) hasNamed(stock string) bool {
	for _, as := range s.Aliases {
		if len(as) == 1 && as[0].Stock == stock {
			return true
		}
	}
	return false
}

func newInst(name string) *Inst {
	stock := Stock(name)
	return &Inst{Name: name, Stock: stock, Perc: stock == "midi-percussion", PS: newPS()}
}

// decl implements doc/instance-and-group-assignment.md.
func (s *Score) decl(e *Ev) error {
	bad := func(f string, a ...interface{}) error {
		return &EvalErr{Kind: "decl", Ev: e, Msg: fmt.Sprintf(f, a...)}
	}
	var sel, fresh []*Inst
	if len(e.Nms) == 1 {
		name := e.Nms[0]
		known := s.Aliases[name]
		stock := Stock(name)
		if e.Al != "" {
			switch {
			case len(known) > 0:
				return bad("alias for a named instance")
			case stock == "":
				return bad("unknown instrument %s", name)
			case len(s.Aliases[e.Al]) > 0:
				return bad("alias taken")
			case len(s.unnamed(stock)) > 0:
				return bad("unnamed instance exists")
			}
			fresh = []*Inst{newInst(name)}
			s.fact("decl-new-named")
		} else if len(known) > 0 {
			sel = known
			s.fact("decl-by-name")
		} else {
			switch {
			case stock == "":
				return bad("unknown instrument %s", name)
			case s.hasNamed(stock):
				return bad("named instance exists")
			}
			if u := s.unnamed(stock); len(u) > 0 {
				sel = u
				s.fact("decl-again")
			} else {
				fresh = []*Inst{newInst(name)}
				s.fact("decl-new")
			}
		}
	} else {
		seen := map[string]bool{}
		nNamed, nStock := 0, 0
		for _, n := range e.Nms {
			key := n
			if len(s.Aliases[n]) > 0 {
				nNamed++
			} else if st := Stock(n); st != "" {
				nStock++
				key = "stock " + st
			} else {
				return bad("unknown instrument %s", n)
			}
			if seen[key] {
				return bad("duplicate %s", n)
			}
			seen[key] = true
		}
		if nNamed > 0 && nStock > 0 {
			return bad("mixed group")
		}
		in := map[*Inst]bool{}
		if nNamed > 0 {
			for _, n := range e.Nms {
				for _, x := range s.Aliases[n] {
					if !in[x] {
						in[x] = true
						sel = append(sel, x)
					}
				}
			}
			s.fact("group-of-named")
		} else if e.Al != "" {
			for _, n := range e.Nms {
				fresh = append(fresh, newInst(n))
			}
			s.fact("group-new")
		} else {
			for _, n := range e.Nms {
				if s.hasNamed(Stock(n)) {
					return bad("named instance exists")
				}
			}
			for _, n := range e.Nms {
				if u := s.unnamed(Stock(n)); len(u) > 0 {
					sel = append(sel, u...)
				} else {
					x := newInst(n)
					sel = append(sel, x)
					fresh = append(fresh, x)
				}
			}
			s.fact("group-stock")
		}
	}
	for _, x := range fresh {
		x.Idx = len(s.Insts)
		s.Insts = append(s.Insts, x)
	}
	if sel == nil {
		sel = fresh
	}
	if e.Al != "" {
		old := map[*Inst][]string{}
		for a, xs := range s.Aliases {
			if len(xs) == 1 {
				old[xs[0]] = append(old[xs[0]], a)
			}
		}
		s.Aliases[e.Al] = sel
		for _, x := range sel {
			s.Aliases[e.Al+"."+x.Name] = []*Inst{x}
			for _, a := range old[x] {
				s.Aliases[e.Al+"."+a] = []*Inst{x}
			}
		}
	}
	s.Cur = append([]*Inst(nil), sel...)
	return nil
}

// Final is the state in which a part is left: voices that were not joined
// leave the part as it was when the group began.
func (in *Inst) Final() *PS {
	if in.vg != nil {
		return in.main
	}
	return in.PS
}

// OpenVoices tells whether a voice group has not been ended.
func (in *Inst) OpenVoices() bool { return in.vg != nil }

// End is the time at which the part is over, over all its voices.
func (in *Inst) End() float64 {
	end := in.PS.Off
	if in.vg != nil {
		for _, v := range in.vg.voices {
			end = math.Max(end, v.Off)
		}
	}
	return end
}

// Near compares times and levels with a tolerance for rounding.
func Near(a, b float64) bool {
	if a == b {
		return true
	}
	d := math.Abs(a - b)
	return d <= 1e-6 || d <= 1e-9*math.Max(math.Abs(a), math.Abs(b))
}

// Stock maps an instrument name to its stock instrument, or "".
func Stock(name string) string {
	return stockNames[name]
}

// Globals lists the recorded global attribute changes.
func (s *Score) Globals() []struct {
	Off  float64
	Attr Attr
} {
	out := []struct {
		Off  float64
		Attr Attr
	}{}
	for _, g := range s.globals {
		out = append(out, struct {
			Off  float64
			Attr Attr
		}{g.off, g.attr})
	}
	return out
}

// Describe shows notes for error messages.
func Describe(ns []NoteOut) string {
	p := []string{}
	for _, n := range ns {
		p = append(p, fmt.Sprintf("#%d@%.3f+%.3f/%.3f p%d", n.Inst, n.Off, n.Dur, n.Aud, n.Pitch))
	}
	return strings.Join(p, "; ")
}
