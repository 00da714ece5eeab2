package pbin

import (
	"fmt"
	"math"
	"os"
	"strings"
	"sync"
	"time"

	"alda.io/client/model"
	"alda.io/client/parser"
	"alda.io/client/zzverif/box"
	"alda.io/client/zzverif/lang"
	"alda.io/client/zzverif/oscd"
	"alda.io/client/zzverif/vp"
	"alda.io/client/zzverif/xm"
)

// Op is a request to the REPL server.
type Op struct {
	Op       string
	Code     string `json:",omitempty"`
	From, To string `json:",omitempty"`
}

// Hist is a sequence of requests.
type Hist struct {
	Ops []Op
	// Apart says that inputs can end within voices. Where the music of such an
	// input begins is not laid down, so times are not compared.
	Apart bool `json:",omitempty"`
}

func (h Hist) String() string {
	l := []string{}
	for _, o := range h.Ops {
		s := o.Op
		if o.Code != "" {
			s += fmt.Sprintf(" %q", o.Code)
		}
		if o.From+o.To != "" {
			s += fmt.Sprintf(" from %q to %q", o.From, o.To)
		}
		l = append(l, s)
	}
	return strings.Join(l, " ;; ")
}

// rig is a server with two players, shared by the cases of a worker.
type rig struct {
	home *box.Home
	srv  *box.Server
	pls  []*box.Player
	cur  int // the player of the session, if known, or -1
	mu   sync.Mutex
	file []byte // what the player writes when it exports
	slow bool   // and how
	n    int
	// how requests get to the server, if not directly
	via func(op string, kv ...string) (map[string]interface{}, bool, error)
}

func (g *rig) close() {
	for _, p := range g.pls {
		p.Close()
	}
}

// take returns what the players have been sent since the last time. The
// session is played by one player; another one can take over only where the
// first one is shut down.
func (g *rig) take() ([]oscd.Msg, error) {
	l := make([][]oscd.Msg, len(g.pls))
	for i, p := range g.pls {
		ms, err := p.Take()
		if err != nil {
			return nil, err
		}
		l[i] = ms
	}
	ended := func(ms []oscd.Msg) bool { return len(ms) > 0 && ms[len(ms)-1].Addr == "/system/shutdown" }
	first := g.cur
	if first < 0 {
		for i := range l {
			if ended(l[i]) {
				first = i
			}
		}
	}
	all := []oscd.Msg{}
	if first >= 0 {
		all = append(all, l[first]...)
		if ended(all) {
			g.cur = -1
		} else if len(all) > 0 {
			g.cur = first
		}
	}
	for i := range l {
		if i == first || len(l[i]) == 0 {
			continue
		}
		if g.cur >= 0 {
			return nil, fmt.Errorf("another player than the one that plays the session is sent %v", l[i])
		}
		g.cur = i
		all = append(all, l[i]...)
	}
	return all, nil
}

var shared *rig

// fresh returns a running server with an empty score.
func fresh() (*rig, *box.Conn, error) {
	if shared != nil && !shared.srv.Alive() {
		shared.close()
		shared = nil
	}
	if shared == nil {
		h := box.NewHome("repl")
		g := &rig{home: h, cur: -1}
		for _, id := range []string{"abc", "def"} {
			p := box.NewPlayer(h.Cache(), id, "ready")
			p.Lives = 1
			p.Export = func(f string) {
				if !strings.HasPrefix(f, h.Dir) {
					return
				}
				g.mu.Lock()
				b, slow := g.file, g.slow
				g.mu.Unlock()
				if slow {
					box.WriteSlowly(f, b, 60*time.Millisecond)
				} else {
					os.WriteFile(f, b, 0644)
				}
			}
			g.pls = append(g.pls, p)
		}
		g.srv = box.StartServer(h)
		shared = g
	}
	c, err := shared.srv.Dial()
	if err != nil {
		return nil, nil, err
	}
	m, err := c.Ask(map[string]interface{}{"op": "new-score"})
	if err == nil && !box.Has(m, "done") {
		err = fmt.Errorf("new-score: %v", m)
	}
	if err != nil {
		c.Close()
		return nil, nil, err
	}
	if _, err := shared.take(); err != nil {
		c.Close()
		return nil, nil, err
	}
	return shared, c, nil
}

// drop gives up the shared server, because its state is unknown.
func drop() {
	if shared != nil {
		shared.srv.Kill()
		shared.close()
		shared = nil
	}
}

// ask sends a request with an id and checks the envelope of the reply.
func (g *rig) ask(c *box.Conn, op string, kv ...string) (map[string]interface{}, bool, error) {
	g.n++
	if g.via != nil {
		return g.via(op, kv...)
	}
	id := fmt.Sprintf("id-%d", g.n)
	req := map[string]interface{}{"op": op, "id": id, "session": "s" + id}
	for i := 0; i < len(kv); i += 2 {
		req[kv[i]] = kv[i+1]
	}
	m, err := c.Ask(req)
	if err != nil {
		return nil, false, err
	}
	if m["id"] != id || m["session"] != "s"+id {
		return nil, false, fmt.Errorf("the reply to %s has id %v and session %v, expected %s and s%s", op, m["id"], m["session"], id, id)
	}
	if !box.Has(m, "done") {
		return nil, false, fmt.Errorf("the status of the reply to %s is %v", op, box.Status(m))
	}
	bad := box.Has(m, "error")
	if bad && strings.TrimSpace(strings.Join(box.Problems(m), "")) == "" {
		return nil, false, fmt.Errorf("%s fails without naming a problem: %v", op, m)
	}
	if !bad && len(box.Problems(m)) > 0 {
		return nil, false, fmt.Errorf("%s succeeds with problems: %v", op, m)
	}
	return m, !bad, nil
}

// at evaluates a whole text.
func at(text string) (*model.Score, error) {
	g := lang.Eval(text)
	if g.Err() != nil {
		return nil, g.Err()
	}
	return g.Score, nil
}

// accepts says whether an input can be added to a text: it has to be correct by
// itself, and the score has to be correct with it.
func accepts(text, code string) (*model.Score, error) {
	root, err := parser.ParseString(code)
	if err != nil {
		return nil, err
	}
	if _, err := root.Updates(); err != nil {
		return nil, err
	}
	return at(text + strings.TrimSpace(code) + "\n")
}

func long(s *model.Score) bool {
	for _, e := range s.Events {
		if e.EventOffset() > 1e9 {
			return true
		}
	}
	for _, o := range s.PartOffsets() {
		if o > 1e9 {
			return true
		}
	}
	return false
}

func jsonText(s *model.Score) string { return s.JSON().String() }

// ends says where the parts of a score have got to, by track: it is where
// another note of the part would be.
func ends(text string, s *model.Score) map[int]float64 {
	out := map[int]float64{}
	for i, p := range s.Parts {
		out[i+1] = p.CurrentOffset
		name := p.Name
		for a, ps := range s.Aliases {
			if len(ps) == 1 && s.Tracks()[ps[0]] == int32(i+1) {
				name = a
			}
		}
		more, err := at(text + "\n" + name + ": c")
		if err != nil || len(more.Parts) != len(s.Parts) || len(more.Events) != len(s.Events)+1 {
			continue
		}
		n, ok := more.Events[len(s.Events)].(model.NoteEvent)
		if ok && more.Tracks()[n.Part] == int32(i+1) {
			out[i+1] = n.Offset
		}
	}
	return out
}

// delta is what the player has to be told about an input.
func delta(text string, before, after *model.Score) ([]xm.Want, error) {
	tracks := after.Tracks()
	ws, err := xm.Wants(after, tracks)
	if err != nil {
		return nil, err
	}
	// Parts of the two scores correspond by their tracks.
	pos := ends(text, before)
	k := len(before.Events)
	if k > len(ws) {
		return nil, fmt.Errorf("events vanish")
	}
	out := append([]xm.Want{}, ws[k:]...)
	for i := range out {
		out[i].Off -= pos[out[i].Track]
	}
	return out, nil
}

// compare matches what was sent; where several tracks share a channel what the
// channel is set to is left out, since the tracks are moved separately.
func compare(ws []xm.Want, ns []oscd.Note) error {
	chans := map[int]map[int]bool{}
	for _, w := range ws {
		if chans[w.Ch] == nil {
			chans[w.Ch] = map[int]bool{}
		}
		chans[w.Ch][w.Track] = true
	}
	for i := range ws {
		if len(chans[ws[i].Ch]) > 1 {
			ws[i].Vol, ws[i].Pan, ws[i].Patch = 0, 0, -1
		}
	}
	ns = append([]oscd.Note{}, ns...)
	for i := range ns {
		if len(chans[ns[i].Chan]) > 1 {
			ns[i].Volume, ns[i].Panning, ns[i].Patch = 0, 0, -1
		}
	}
	return xm.Match(ws, ns)
}

func names(as []oscd.Action) []string {
	out := []string{}
	for _, a := range as {
		out = append(out, strings.TrimPrefix(a.Addr, "/system/"))
	}
	return out
}

// wantActions compares the messages that are not about the music. A shutdown
// at the front is the end of the previous player, if there was one.
func sent(ms []oscd.Msg, reset bool, actions ...string) (*oscd.Plan, error) {
	if reset && len(ms) > 0 && ms[0].Addr == "/system/shutdown" {
		ms = ms[1:]
	}
	p, err := oscd.Read(ms)
	if err != nil {
		return nil, err
	}
	if got := names(p.Actions); strings.Join(got, " ") != strings.Join(actions, " ") {
		return nil, fmt.Errorf("the player is told %v, expected %v", got, actions)
	}
	if p.Late {
		return nil, fmt.Errorf("notes are sent after the orders %v", actions)
	}
	return p, nil
}

// model of a session
type sess struct {
	text  string
	score *model.Score
	apart bool
}

func empty() *sess {
	s, _ := at("")
	return &sess{text: "", score: s}
}

// step performs a request and judges it.
func (g *rig) step(c *box.Conn, o Op, s *sess, r *vp.R) error {
	fail := func(f string, a ...interface{}) error {
		return fmt.Errorf("%s: %s", Hist{Ops: []Op{o}}, fmt.Sprintf(f, a...))
	}
	take := g.take
	switch o.Op {
	case "eval-and-play", "load":
		base := s
		if o.Op == "load" {
			base = empty()
		}
		after, bad := accepts(base.text, o.Code)
		if bad == nil && long(after) {
			return nil
		}
		m, ok, err := g.ask(c, o.Op, "code", o.Code)
		if err != nil {
			return err
		}
		ms, err := take()
		if err != nil {
			return err
		}
		if bad != nil {
			r.Label("rejected")
			if ok {
				return fail("accepted, but evaluating it says: %v", bad)
			}
			if len(ms) > 0 {
				return fail("rejected, and yet the player is sent %v", ms)
			}
			return nil
		}
		if !ok {
			return fail("rejected: %v", box.Problems(m))
		}
		if o.Op == "load" {
			p, err := sent(ms, true, "offset")
			if err != nil {
				return fail("%v", err)
			}
			ws, err := xm.Wants(after, after.Tracks())
			if err != nil {
				return err
			}
			if err := xm.Match(ws, p.Notes); err != nil {
				return fail("%v", err)
			}
			end := 0.0
			for _, x := range ends(strings.TrimSpace(o.Code)+"\n", after) {
				end = math.Max(end, x)
			}
			if x := float64(p.Actions[0].Arg.(int)); math.Abs(x-end) > 0.5+1e-6 {
				return fail("the player is moved to %g, the score ends at %g", x, end)
			}
		} else {
			p, err := sent(ms, false, "play")
			if err != nil {
				return fail("%v", err)
			}
			ws, err := delta(s.text, s.score, after)
			if err != nil {
				return err
			}
			ns := p.Notes
			if s.apart {
				ns = append([]oscd.Note{}, ns...)
				for i := range ns {
					ns[i].Off, ns[i].Volume, ns[i].Panning, ns[i].Patch = 0, 0, 0, -1
				}
				for i := range ws {
					ws[i].Off, ws[i].Vol, ws[i].Pan, ws[i].Patch = 0, 0, 0, -1
				}
			}
			if err := compare(ws, ns); err != nil {
				return fail("%v", err)
			}
		}
		s.text, s.score = base.text+strings.TrimSpace(o.Code)+"\n", after
	case "new-score":
		_, ok, err := g.ask(c, o.Op)
		if err != nil {
			return err
		}
		if !ok {
			return fail("refused")
		}
		ms, err := take()
		if err != nil {
			return err
		}
		if _, err := sent(ms, true); err != nil {
			return fail("%v", err)
		}
		*s = *empty()
	case "stop":
		_, ok, err := g.ask(c, o.Op)
		if err != nil {
			return err
		}
		if !ok {
			return fail("refused")
		}
		ms, err := take()
		if err != nil {
			return err
		}
		if _, err := sent(ms, false, "stop"); err != nil {
			return fail("%v", err)
		}
	case "replay":
		from, to, good := 0.0, math.Inf(1), true
		kv := []string{}
		for _, x := range []struct {
			name, ref string
			at        *float64
		}{{"from", o.From, &from}, {"to", o.To, &to}} {
			if x.ref == "" {
				continue
			}
			kv = append(kv, x.name, x.ref)
			v, ok := xm.Point(x.ref, s.score.Markers)
			*x.at, good = v, good && ok
		}
		m, ok, err := g.ask(c, o.Op, kv...)
		if err != nil {
			return err
		}
		ms, err := take()
		if err != nil {
			return err
		}
		if !good {
			r.Label("bad range")
			if ok {
				return fail("accepted")
			}
			if _, err := sent(ms, true); err != nil {
				return fail("refused, and yet: %v", err)
			}
			return nil
		}
		if !ok {
			return fail("refused: %v", box.Problems(m))
		}
		p, err := sent(ms, true, "play")
		if err != nil {
			return fail("%v", err)
		}
		ws, err := xm.Wants(s.score, s.score.Tracks())
		if err != nil {
			return err
		}
		in := []xm.Want{}
		for _, n := range ws {
			if n.Off >= from && n.Off < to {
				n.Off -= from
				in = append(in, n)
			}
		}
		if err := xm.Match(in, p.Notes); err != nil {
			return fail("%v", err)
		}
	case "export":
		g.mu.Lock()
		g.file, g.slow = box.Midi(1+g.n%4, 3+g.n*7%9000), g.n%3 == 0
		g.mu.Unlock()
		m, ok, err := g.ask(c, o.Op)
		if err != nil {
			return err
		}
		if !ok {
			return fail("refused: %v", box.Problems(m))
		}
		ms, err := take()
		if err != nil {
			return err
		}
		p, err := sent(ms, true, "offset", "midi/export")
		if err != nil {
			return fail("%v", err)
		}
		ws, err := xm.Wants(s.score, s.score.Tracks())
		if err != nil {
			return err
		}
		if err := xm.Match(ws, p.Notes); err != nil {
			return fail("%v", err)
		}
		if m["binary-data"] != string(g.file) {
			return fail("the data is not what the player wrote")
		}
	case "eval", "describe", "instruments", "clone", "score-text", "score-data", "score-events", "score-ast":
		m, ok, err := g.ask(c, o.Op)
		if err != nil {
			return err
		}
		if !ok {
			return fail("refused: %v", m)
		}
		ms, err := take()
		if err != nil {
			return err
		}
		if len(ms) > 0 {
			return fail("the player is sent %v", ms)
		}
		return g.shown(o.Op, m, s)
	default:
		return fmt.Errorf("no such operation: %s", o.Op)
	}
	return nil
}

// shown checks what the server says about the score.
func (g *rig) shown(op string, m map[string]interface{}, s *sess) error {
	switch op {
	case "score-text":
		if m["text"] != s.text {
			return fmt.Errorf("the text is %q, expected %q", m["text"], s.text)
		}
	case "score-data":
		d, _ := m["data"].(string)
		if err := box.SameState(jsonText(s.score), d); err != nil {
			return fmt.Errorf("the score: %v", err)
		}
	case "score-events", "score-ast":
		root, err := parser.ParseString(s.text)
		if err != nil {
			return fmt.Errorf("the text does not parse: %v", err)
		}
		if op == "score-ast" {
			if m["ast"] != root.JSON().String() {
				return fmt.Errorf("the AST is %v, expected %s", m["ast"], root.JSON().String())
			}
			return nil
		}
		ups, err := root.Updates()
		if err != nil {
			return err
		}
		l := []string{}
		for _, u := range ups {
			l = append(l, u.JSON().String())
		}
		if want := "[" + strings.Join(l, ",") + "]"; m["events"] != want {
			return fmt.Errorf("the events are %v, expected %s", m["events"], want)
		}
	}
	return nil
}

// look compares the state of the session.
func (g *rig) look(c *box.Conn, s *sess, ops ...string) error {
	for _, op := range ops {
		m, ok, err := g.ask(c, op)
		if err != nil {
			return err
		}
		if !ok {
			return fmt.Errorf("%s is refused: %v", op, box.Problems(m))
		}
		if err := g.shown(op, m, s); err != nil {
			return err
		}
	}
	return nil
}

// run performs a history.
func run(h Hist, r *vp.R) (err error) {
	r.Sample(h.String())
	g, c, err := fresh()
	if err != nil {
		drop()
		return err
	}
	defer c.Close()
	defer func() {
		if err != nil {
			drop()
		}
	}()
	s := empty()
	s.apart = h.Apart
	for i, o := range h.Ops {
		if err := g.step(c, o, s, r); err != nil {
			return fmt.Errorf("request %d: %w", i+1, err)
		}
		if err := g.look(c, s, "score-data", "score-text"); err != nil {
			return fmt.Errorf("after request %d (%v): %w", i+1, Hist{Ops: []Op{o}}, err)
		}
	}
	return nil
}
