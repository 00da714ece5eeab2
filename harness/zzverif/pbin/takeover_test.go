package pbin

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"alda.io/client/zzverif/box"
	"alda.io/client/zzverif/oscd"
	"alda.io/client/zzverif/vp"
	"pgregory.net/rapid"
)

// Move is a request to a server whose players come and go.
type Move struct {
	Op    string
	Notes int // how many notes are added
	Pause int // ms to wait before
}

// Moves is a session of those.
type Moves struct {
	T      []Move
	Others int // other players that there are
	Linger int // ms which a player that is shut down is still listed
}

func (c Moves) String() string {
	l := []string{fmt.Sprintf("%d others, lingering %d ms:", c.Others, c.Linger)}
	for _, t := range c.T {
		l = append(l, fmt.Sprintf("[%d ms] %s %d", t.Pause, t.Op, t.Notes))
	}
	return strings.Join(l, " ")
}

func takeover(c Moves, r *vp.R) error {
	r.Sample(c.String())
	h := box.NewHome("takeover")
	defer os.RemoveAll(h.Dir)
	pls := []*box.Player{}
	defer func() {
		for _, p := range pls {
			p.Close()
		}
	}()
	for i := 0; i < len(c.T)+4; i++ {
		p := box.NewPlayer(h.Cache(), fmt.Sprintf("%c%c%c", 'b'+i/20, 'a'+i%20, 'x'), "ready")
		p.Mortal, p.Linger = true, time.Duration(c.Linger)*time.Millisecond
		pls = append(pls, p)
	}
	dead := box.NewDead()
	defer dead.Close()
	for i := 0; i < c.Others; i++ {
		box.Record(h.Cache(), fmt.Sprintf("z%03d", i), "active", dead.Port)
	}
	srv := box.StartServer(h)
	defer srv.Kill()
	conn, err := srv.Dial()
	if err != nil {
		return err
	}
	defer conn.Close()
	g := &rig{home: h, srv: srv}
	ended := map[*box.Player]bool{}
	total := 0
	for i, t := range c.T {
		time.Sleep(time.Duration(t.Pause) * time.Millisecond)
		kv, want := []string{}, 0
		code := "piano:" + strings.Repeat(" c", t.Notes)
		switch t.Op {
		case "eval-and-play":
			kv, want, total = []string{"code", code}, t.Notes, total+t.Notes
		case "load":
			kv, want, total = []string{"code", code}, t.Notes, t.Notes
		case "new-score":
			total = 0
		case "replay":
			want = total
		}
		m, ok, err := g.ask(conn, t.Op, kv...)
		if err != nil {
			return fmt.Errorf("request %d: %w", i+1, err)
		}
		if !ok {
			return fmt.Errorf("request %d (%s) fails: %v", i+1, t.Op, box.Problems(m))
		}
		got, by := 0, []string{}
		for _, p := range pls {
			ms, err := p.Take()
			if err != nil {
				return err
			}
			if len(ms) == 0 {
				continue
			}
			if ended[p] {
				return fmt.Errorf("request %d (%s): player %s has been shut down, and yet it is sent %v", i+1, t.Op, p.ID, ms)
			}
			if ms[len(ms)-1].Addr == "/system/shutdown" {
				ended[p] = true
				ms = ms[:len(ms)-1]
			}
			plan, err := oscd.Read(ms)
			if err != nil {
				return err
			}
			if len(plan.Notes) > 0 {
				got += len(plan.Notes)
				by = append(by, p.ID)
			}
		}
		if got != want || len(by) > 1 {
			return fmt.Errorf("request %d (%s): %d notes are sent to %v, expected %d", i+1, t.Op, got, by, want)
		}
	}
	if len(ended) >= 2 {
		r.NonTrivial()
	}
	// The server leaves the other players alone.
	if l, _ := filepath.Glob(filepath.Join(box.StateDir(h.Cache()), "z*.json")); len(l) != c.Others {
		return fmt.Errorf("%d other players are listed instead of %d", len(l), c.Others)
	}
	return nil
}

func init() {
	vp.Add("P24", "takeover", 120, 4000, func(t *rapid.T) Moves {
		c := Moves{Others: rapid.SampledFrom([]int{0, 10, 2500, 2500, 5000}).Draw(t, "others"), Linger: rapid.SampledFrom([]int{0, 20, 300}).Draw(t, "linger")}
		for i := rapid.IntRange(2, 10).Draw(t, "turns"); i > 0; i-- {
			c.T = append(c.T, Move{Op: rapid.SampledFrom([]string{"eval-and-play", "eval-and-play", "new-score", "replay", "load"}).Draw(t, "op"),
				Notes: rapid.IntRange(1, 3).Draw(t, "notes"), Pause: rapid.SampledFrom([]int{0, 0, 0, 20, 70, 130}).Draw(t, "pause")})
		}
		return c
	}, takeover, vp.Flaky())
}
