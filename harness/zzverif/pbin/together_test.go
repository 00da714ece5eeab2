package pbin

import (
	"fmt"
	"strings"
	"sync"

	"alda.io/client/zzverif/box"
	"alda.io/client/zzverif/oscd"
	"alda.io/client/zzverif/vp"
	"alda.io/client/zzverif/xm"
	"pgregory.net/rapid"
)

// Turns is several clients of one session at once. What each of them sends is
// told apart by a comment.
type Turns struct {
	C [][]Op
}

func (c Turns) String() string {
	l := []string{}
	for _, ops := range c.C {
		l = append(l, Hist{Ops: ops}.String())
	}
	return strings.Join(l, " || ")
}

// together checks that what clients of one session do at once comes out as if
// they had taken turns.
func together(c Turns, r *vp.R) (err error) {
	r.Sample(c.String())
	g, conn, err := fresh()
	if err != nil {
		drop()
		return err
	}
	defer conn.Close()
	defer func() {
		if err != nil {
			drop()
		}
	}()
	type answer struct {
		ok         bool
		text, data string
	}
	answers := make([][]answer, len(c.C))
	errs := make([]error, len(c.C))
	start := make(chan bool)
	var wg sync.WaitGroup
	for i := range c.C {
		k, err := g.srv.Dial()
		if err != nil {
			close(start)
			wg.Wait()
			return err
		}
		defer k.Close()
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			for j, o := range c.C[i] {
				req := map[string]interface{}{"op": o.Op, "id": fmt.Sprintf("%d/%d", i, j), "session": fmt.Sprint(i)}
				if o.Code != "" {
					req["code"] = o.Code
				}
				m, err := k.Ask(req)
				if err == nil {
					err = envelope(req, m)
				}
				if err != nil {
					errs[i] = fmt.Errorf("client %d, request %d: %w", i, j+1, err)
					return
				}
				a := answer{ok: !box.Has(m, "error")}
				a.text, _ = m["text"].(string)
				a.data, _ = m["data"].(string)
				answers[i] = append(answers[i], a)
			}
		}(i)
	}
	close(start)
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	ms, err := g.take()
	if err != nil {
		return err
	}
	m, ok, err := g.ask(conn, "score-text")
	if err != nil || !ok {
		return fmt.Errorf("score-text: %v %v", m, err)
	}
	text, _ := m["text"].(string)

	// Every input that was accepted is there once, in the order of its client.
	left, turns, last := text, 0, -1
	next := make([]int, len(c.C))
	for left != "" {
		found := false
		for i, ops := range c.C {
			j := next[i]
			for j < len(ops) && (ops[j].Op != "eval-and-play" || !answers[i][j].ok) {
				j++
			}
			if next[i] = j; j == len(ops) {
				continue
			}
			if x := strings.TrimSpace(ops[j].Code) + "\n"; strings.HasPrefix(left, x) {
				left, found = left[len(x):], true
				next[i]++
				if last != i {
					turns++
				}
				last = i
				break
			}
		}
		if !found {
			return fmt.Errorf("the text of the session is %q; %q isn't an input that was accepted and whose turn it was", text, left)
		}
	}
	for i, ops := range c.C {
		for j := next[i]; j < len(ops); j++ {
			if ops[j].Op == "eval-and-play" && answers[i][j].ok {
				return fmt.Errorf("the input %q was accepted, the text of the session is %q", ops[j].Code, text)
			}
		}
	}
	if turns > len(c.C) {
		r.NonTrivial()
	}

	// What a client was shown is the session after some of the inputs, the
	// client's own ones included.
	states := map[string]bool{}
	lines := strings.SplitAfter(text, "\n")
	prefix := ""
	asked := false
	for _, ops := range c.C {
		for _, o := range ops {
			asked = asked || o.Op == "score-data"
		}
	}
	for n := 0; n <= len(lines); n++ {
		if asked {
			if s, err := at(prefix); err == nil {
				states[box.Canonical(jsonText(s))] = true
			}
		}
		if n < len(lines) {
			prefix += lines[n]
		}
	}
	for i, ops := range c.C {
		mine := []string{}
		for j, o := range ops {
			switch {
			case o.Op == "eval-and-play" && answers[i][j].ok:
				mine = append(mine, strings.TrimSpace(o.Code)+"\n")
			case o.Op == "score-text":
				seen := answers[i][j].text
				if !strings.HasPrefix(text, seen) || (seen != "" && !strings.HasSuffix(seen, "\n")) {
					return fmt.Errorf("client %d is shown the text %q on the way, in the end it is %q", i, seen, text)
				}
				for _, x := range mine {
					if !strings.Contains(seen, x) {
						return fmt.Errorf("client %d has had %q accepted, and is shown the text %q", i, x, seen)
					}
				}
			case o.Op == "score-data":
				if !states[box.Canonical(answers[i][j].data)] {
					return fmt.Errorf("client %d is shown a score that was never that of the session, whose text becomes %q: %.2000s", i, text, answers[i][j].data)
				}
			}
		}
	}

	// The score is that of the text, and each of its notes has been sent once.
	s, err := at(text)
	if err != nil {
		return fmt.Errorf("the text of the session %q: %w", text, err)
	}
	if err := g.look(conn, &sess{text: text, score: s}, "score-data"); err != nil {
		return fmt.Errorf("%q: %w", text, err)
	}
	ws, err := xm.Wants(s, s.Tracks())
	if err != nil {
		return err
	}
	plan, err := oscd.Read(ms)
	if err != nil {
		return err
	}
	ns := append([]oscd.Note{}, plan.Notes...)
	for i := range ns {
		ns[i].Off, ns[i].Volume, ns[i].Panning, ns[i].Patch = 0, 0, 0, -1
	}
	for i := range ws {
		ws[i].Off, ws[i].Vol, ws[i].Pan, ws[i].Patch = 0, 0, 0, -1
	}
	if err := xm.Match(ws, ns); err != nil {
		return fmt.Errorf("%q: %w", text, err)
	}
	return nil
}

func init() {
	vp.Add("P24", "together", 500, 15000, func(t *rapid.T) Turns {
		c := Turns{}
		names := []string{"piano:", "violin:", `cello "low":`, "low:", "piano/violin:", "", ""}
		for n := rapid.IntRange(2, 6).Draw(t, "clients"); n > 0; n-- {
			ops := []Op{}
			for k := rapid.IntRange(1, 10).Draw(t, "n"); k > 0; k-- {
				o := Op{Op: rapid.SampledFrom([]string{"eval-and-play", "eval-and-play", "eval-and-play", "score-text", "score-data"}).Draw(t, "op")}
				if o.Op == "eval-and-play" {
					l := []string{rapid.SampledFrom(names).Draw(t, "part")}
					for n := rapid.IntRange(1, 3).Draw(t, "events"); n > 0; n-- {
						l = append(l, rapid.SampledFrom([]string{"c", "d8", "e2.", "o5", "<", "(volume 30)", "(tempo 90)", "(tempo! 150)", "{c d e}2", "c/e/g",
							"V1: c V2: e4 d V0:", "%here", "@here", "theme", "[c16 d]*60", "(key-sig '(g major))", ")"}).Draw(t, "event"))
					}
					if rapid.IntRange(0, 5).Draw(t, "define") == 0 {
						l = []string{"theme = [" + rapid.SampledFrom([]string{"c d", "e", "[f g]*2 a"}).Draw(t, "theme") + "]"}
					}
					o.Code = strings.TrimSpace(strings.Join(l, " ")) + fmt.Sprintf(" # %d-%d", len(c.C), len(ops))
				}
				ops = append(ops, o)
			}
			c.C = append(c.C, ops)
		}
		return c
	}, together, vp.Flaky())
}
