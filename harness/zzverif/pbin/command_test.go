package pbin

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"alda.io/client/model"
	"alda.io/client/parser"
	"alda.io/client/zzverif/box"
	"alda.io/client/zzverif/lang"
	"alda.io/client/zzverif/oscd"
	"alda.io/client/zzverif/vp"
	"alda.io/client/zzverif/xm"
	"pgregory.net/rapid"
)

// Pl is a player of a population.
type Pl struct {
	ID, State string
	Dead      bool `json:",omitempty"`
}

// Do is one command.
type Do struct {
	Op       string // play, unpause, export, stop, shutdown
	Code     string `json:",omitempty"`
	Valid    bool   `json:",omitempty"`
	Chan     string `json:",omitempty"` // -f, -c or a pipe; "none": a file that isn't there
	From, To string `json:",omitempty"`
	Port     bool   `json:",omitempty"` // the player is chosen by its port
	Near     int    `json:",omitempty"` // whose ID the one that doesn't exist is like, and how
	At       int    `json:",omitempty"` // which player is chosen: 0 none, else its number; more: one that doesn't exist
	Out      string `json:",omitempty"` // export: the file
	Pause    int    `json:",omitempty"` // export: how slowly the player writes
	Args     int    `json:",omitempty"`
}

// Commands is a history of commands with a population of players.
type Commands struct {
	P []Pl
	D []Do
}

func genPoint(t *rapid.T, code string) string {
	ms := []string{}
	for _, w := range strings.Fields(code) {
		if strings.HasPrefix(w, "%") && len(w) > 2 {
			ms = append(ms, w[1:])
		}
	}
	switch x := rapid.IntRange(0, 15).Draw(t, "ref"); {
	case x < 9:
		return ""
	case x < 12 && len(ms) > 0:
		return rapid.SampledFrom(ms).Draw(t, "marker")
	case x < 14:
		return fmt.Sprintf("0:%02d", rapid.IntRange(0, 6).Draw(t, "s"))
	}
	return rapid.SampledFrom([]string{"nowhere", "0:", ":30", "30", "1:2:3", "0:3a", "verse ", "%verse", "0:00", "1:30"}).Draw(t, "junk")
}

func genSource(t *rapid.T, d *Do) {
	if rapid.IntRange(0, 3).Draw(t, "marked") == 3 {
		p := lang.Base()
		p.N, p.Blocks = 8, 2
		p.W = map[string]int{"n": 30, "r": 5, "c": 5, "%": 10, "[": 4, "m": 3, "(": 3}
		d.Code = lang.Render(lang.Gen(t, p), layout(t)).S
		d.Valid = true
	} else {
		d.Code, d.Valid = genText(t)
	}
	d.Chan = rapid.SampledFrom([]string{"-f", "-c", "pipe", "-f", "-c", "pipe", "-f", "none"}).Draw(t, "channel")
	if strings.ContainsAny(d.Code, "\x00") || d.Code == "" {
		d.Chan = "-f"
	}
	d.From, d.To = genPoint(t, d.Code), genPoint(t, d.Code)
}

func genDo(t *rapid.T, n int) Do {
	d := Do{Args: rapid.IntRange(0, 3).Draw(t, "args")}
	d.Op = rapid.SampledFrom([]string{"play", "play", "play", "export", "unpause", "stop", "shutdown"}).Draw(t, "op")
	if d.Op == "play" || d.Op == "export" {
		genSource(t, &d)
	}
	if d.Op == "export" {
		d.Out = rapid.SampledFrom([]string{"", "out.mid", "sub/out.mid", "abs", "old.mid", "./x y.mid"}).Draw(t, "out")
		d.Pause = rapid.SampledFrom([]int{0, 0, 5, 60, 120}).Draw(t, "pause")
	} else if rapid.IntRange(0, 2).Draw(t, "chosen") == 2 {
		d.Port = rapid.Bool().Draw(t, "port")
		d.At = rapid.IntRange(1, n+2).Draw(t, "which")
		if d.At > n && !d.Port {
			d.Near = rapid.IntRange(0, 29).Draw(t, "near")
		}
	}
	return d
}

func genCommands(t *rapid.T) *Commands {
	c := &Commands{}
	ids := rapid.Permutation([]string{"abc", "abd", "xyz", "json", "a1b", "zzz", "ab", "abcd", "bc", "z"}).Draw(t, "ids")
	for i, n := 0, rapid.IntRange(0, 4).Draw(t, "players"); i < n; i++ {
		c.P = append(c.P, Pl{ids[i], rapid.SampledFrom([]string{"ready", "active", "active", "starting"}).Draw(t, "state"), false})
		if c.P[i].State != "ready" {
			c.P[i].Dead = rapid.IntRange(0, 3).Draw(t, "dead") == 3
		}
	}
	// There has to be someone to play.
	c.P = append(c.P, Pl{ids[4], "ready", false})
	for i, n := 0, rapid.IntRange(1, 3).Draw(t, "commands"); i < n; i++ {
		c.D = append(c.D, genDo(t, len(c.P)))
	}
	return c
}

// crew runs a population.
type crew struct {
	h    *box.Home
	ps   []Pl
	at   []*box.Player
	dead []*box.Dead
	port []int
}

func hire(h *box.Home, ps []Pl) *crew {
	k := &crew{h: h, ps: ps}
	for _, p := range ps {
		if p.Dead {
			d := box.NewDead()
			k.dead = append(k.dead, d)
			k.at = append(k.at, nil)
			k.port = append(k.port, d.Port)
			box.Record(h.Cache(), p.ID, p.State, d.Port)
			continue
		}
		b := box.NewPlayer(h.Cache(), p.ID, p.State)
		k.at = append(k.at, b)
		k.port = append(k.port, b.Port)
	}
	return k
}

// almost is an ID that no player has, but one that is like some player's.
func (k *crew) almost(n int) string {
	x := k.ps[n/6%len(k.ps)].ID
	id := []string{"nop", x[:len(x)-1], x[1:], strings.ToUpper(x), x + "x", x + ".json"}[n%6]
	for _, p := range k.ps {
		if p.ID == id || id == "" {
			return "nop"
		}
	}
	return id
}

func (k *crew) close() {
	for _, d := range k.dead {
		d.Close()
	}
	for _, p := range k.at {
		if p != nil {
			p.Close()
		}
	}
}

// evaluated is the score of a text, if it is one.
func evaluated(code string) (*model.Score, error) {
	ast, err := parser.ParseString(code)
	if err != nil {
		return nil, err
	}
	ups, err := ast.Updates()
	if err != nil {
		return nil, err
	}
	s := model.NewScore()
	if err := s.Update(ups...); err != nil {
		return nil, err
	}
	return s, nil
}

// run performs one command and judges it.
func (k *crew) run(i int, d Do, r *vp.R) error {
	dir := k.h.Sub("work")
	name := fmt.Sprintf("command %d (%s)", i+1, d.Op)
	cmd := box.Cmd{Args: []string{d.Op}}
	if d.Op == "unpause" {
		cmd.Args[0] = "play"
	}
	opts := []string{}
	good := true
	why := ""
	bad := func(s string) { good, why = false, s }
	var score *model.Score
	from, to := 0.0, math.Inf(1)
	if d.Op == "play" || d.Op == "export" {
		var err error
		score, err = evaluated(d.Code)
		switch {
		case err != nil && d.Valid:
			return fmt.Errorf("a valid score is rejected: %v", err)
		case err != nil:
			bad(err.Error())
		}
		switch d.Chan {
		case "-f":
			put(filepath.Join(dir, "score.alda"), d.Code)
			opts = append(opts, "-f", "score.alda")
		case "none":
			opts = append(opts, "-f", "nothing.alda")
			bad("there is no such file")
		case "-c":
			opts = append(opts, "-c", d.Code)
		default:
			cmd.Stdin = &d.Code
		}
		for _, x := range []struct {
			flag, ref string
			at        *float64
		}{{"-F", d.From, &from}, {"-T", d.To, &to}} {
			if x.ref == "" {
				continue
			}
			opts = append(opts, x.flag, x.ref)
			if score != nil {
				v, ok := xm.Point(x.ref, score.Markers)
				if !ok {
					bad("no such point: " + x.ref)
				}
				*x.at = v
			}
		}
	}
	// Who should be told.
	any := []int{} // one of these
	all := []int{} // these
	if d.At > len(k.ps) {
		if d.Port {
			x := box.NewDead()
			defer x.Close()
			opts = append(opts, "-p", fmt.Sprint(x.Port))
			if d.Op != "stop" && d.Op != "shutdown" {
				bad("nobody is there")
			}
		} else {
			id := k.almost(d.Near)
			opts = append(opts, "-i", id)
			bad("there is no such player")
		}
	} else if d.At > 0 {
		p := d.At - 1
		if d.Port {
			opts = append(opts, "-p", fmt.Sprint(k.port[p]))
		} else {
			opts = append(opts, "-i", k.ps[p].ID)
		}
		if !k.ps[p].Dead {
			all = append(all, p)
		} else if d.Op != "stop" && d.Op != "shutdown" {
			bad("the player doesn't answer")
		}
	} else {
		for p, x := range k.ps {
			if x.Dead {
				continue
			}
			switch d.Op {
			case "play", "export":
				if x.State == "ready" {
					any = append(any, p)
				}
			case "unpause":
				if x.State == "active" {
					all = append(all, p)
				}
			default:
				all = append(all, p)
			}
		}
	}
	target, isDead := "", false
	if d.Op == "unpause" && d.At == 0 {
		for _, x := range k.ps {
			isDead = isDead || x.Dead && x.State == "active"
		}
	}
	data := box.Midi(1+i%3, 50+977*(len(d.Code)%40))
	if d.Op == "export" {
		target = filepath.Join(dir, d.Out)
		switch d.Out {
		case "":
			target = ""
		case "abs":
			target = filepath.Join(dir, "abs.mid")
			opts = append(opts, "-o", target)
		case "old.mid":
			put(target, "MThd what was there before")
			opts = append(opts, "-o", d.Out)
		default:
			os.MkdirAll(filepath.Dir(target), 0755)
			opts = append(opts, "-o", d.Out)
		}
		where := k.h.Sub("home") // players work elsewhere
		for _, p := range k.at {
			if p != nil {
				p.SetExport(func(f string) {
					if !filepath.IsAbs(f) {
						f = filepath.Join(where, f)
					}
					box.WriteSlowly(f, data, time.Duration(d.Pause)*time.Millisecond)
				})
			}
		}
	}
	if d.Args&1 == 1 {
		for j := range opts {
			if j%2 == 0 {
				opts[j] = map[string]string{"-f": "--file", "-c": "--code", "-F": "--from", "-T": "--to", "-p": "--port", "-i": "--player-id", "-o": "--output"}[opts[j]]
			}
		}
	}
	if d.Args&2 == 2 {
		joined := []string{}
		for j := 0; j+1 < len(opts); j += 2 {
			s := "="
			if !strings.HasPrefix(opts[j], "--") {
				s = ""
			}
			if opts[j+1] == "" || strings.HasPrefix(opts[j+1], "=") {
				joined = append(joined, opts[j], opts[j+1])
				continue
			}
			joined = append(joined, opts[j]+s+opts[j+1])
		}
		opts = joined
	}
	cmd.Args = append(cmd.Args, opts...)
	before, temp := box.Files(dir), box.Files(k.h.Sub("tmp"))
	res := k.h.Run(cmd)
	fail := func(f string, a ...interface{}) error {
		return fmt.Errorf("%s, alda %.300q: %s (%v)", name, cmd.Args, fmt.Sprintf(f, a...), res)
	}
	got := map[int][]oscd.Msg{}
	told := []int{}
	for p, x := range k.at {
		if x == nil {
			continue
		}
		ms, err := x.Take()
		if err != nil {
			return fail("%v", err)
		}
		if len(ms) > 0 {
			got[p] = ms
			told = append(told, p)
		}
	}
	sort.Ints(told)
	if !good {
		r.Label("fails")
		if res.Code == 0 {
			return fail("it should fail: %s", why)
		}
		if strings.TrimSpace(res.Err) == "" || res.Dead || strings.Contains(res.Err, "goroutine ") {
			return fail("it should fail with a message")
		}
		if len(told) > 0 {
			return fail("it should fail (%s), but player %d is told %v", why, told[0]+1, got[told[0]])
		}
		return box.SameFiles(before, box.Files(dir))
	}
	if res.Code != 0 && !isDead {
		return fail("it should succeed")
	}
	if err := box.SameFiles(temp, box.Files(k.h.Sub("tmp"))); err != nil {
		return fail("among the temporary files: %v", err)
	}
	if len(any) > 0 {
		if len(told) != 1 {
			return fail("players %v are told something, expected one of %v", told, any)
		}
		ok := false
		for _, p := range any {
			ok = ok || p == told[0]
		}
		if !ok {
			return fail("player %d is chosen, expected one of %v", told[0], any)
		}
		all = told
	}
	if fmt.Sprint(all) != fmt.Sprint(told) {
		return fail("players %v are told something, expected %v", told, all)
	}
	for _, p := range all {
		pl, err := oscd.Read(got[p])
		if err != nil {
			return fail("%v", err)
		}
		exp := ""
		switch d.Op {
		case "play":
			exp = "play shutdown"
		case "unpause":
			exp = "play"
		case "export":
			exp = "midi/export shutdown"
		default:
			exp = d.Op
		}
		if g := strings.Join(names(pl.Actions), " "); g != exp {
			return fail("the player is told %q, expected %q", g, exp)
		}
		if pl.Late {
			return fail("notes are sent after the orders")
		}
		if d.Op != "play" && d.Op != "export" {
			if len(pl.Notes) > 0 || len(got[p]) > 1 {
				return fail("the player is told more: %v", got[p])
			}
			if d.Op == "shutdown" && pl.Actions[0].Arg != 0 {
				return fail("the player is to shut down after %v ms", pl.Actions[0].Arg)
			}
			continue
		}
		ws, err := xm.Wants(score, score.Tracks())
		if err != nil {
			return err
		}
		in := []xm.Want{}
		for _, n := range ws {
			if n.Off >= from && n.Off < to {
				n.Off -= from
				in = append(in, n)
			}
		}
		if err := xm.Match(in, pl.Notes); err != nil {
			return fail("%v", err)
		}
		off := pl.Actions[1].Arg.(int)
		if d.Op == "play" {
			if float64(off) < xm.AudibleEnd(in) {
				return fail("the player is to shut down at %d, the last note sounds until %g", off, xm.AudibleEnd(in))
			}
			continue
		}
		if off != 0 {
			return fail("the player is to shut down after %v ms", off)
		}
		if d.Out == "" {
			if res.Out != string(data) {
				return fail("%d bytes are put out, the player wrote %d", len(res.Out), len(data))
			}
		} else {
			if f := pl.Actions[0].Arg.(string); filepath.Clean(f) != target {
				return fail("the player is to write %q, expected %q", f, target)
			}
			b, err := os.ReadFile(target)
			if err != nil {
				return fail("%v", err)
			}
			if string(b) != string(data) {
				return fail("success is claimed when %d bytes of %d are written", len(b), len(data))
			}
			rel, _ := filepath.Rel(dir, target)
			before[rel] = box.Files(dir)[rel]
		}
	}
	return box.SameFiles(before, box.Files(dir))
}

func commands(c *Commands, r *vp.R) error {
	h := home("commands")
	k := hire(h, c.P)
	defer k.close()
	desc := []string{}
	for _, p := range c.P {
		s := p.ID + " " + p.State
		if p.Dead {
			s += " (doesn't answer)"
		}
		desc = append(desc, s)
	}
	ops := []string{}
	for _, d := range c.D {
		ops = append(ops, fmt.Sprintf("%s %s %.60q from %q to %q player %d", d.Op, d.Chan, d.Code, d.From, d.To, d.At))
	}
	r.Sample(fmt.Sprintf("players %v; %v", desc, ops))
	if len(c.P) > 1 {
		r.NonTrivial()
	}
	for i, d := range c.D {
		r.Label(d.Op)
		if err := k.run(i, d, r); err != nil {
			return err
		}
	}
	return nil
}

// genFew draws populations where those who seem ready are not.
func genFew(t *rapid.T) *Commands {
	c := &Commands{}
	ids := rapid.Permutation([]string{"abc", "abd", "xyz", "json", "a1b", "zzz", "ab", "abcd", "bc", "z"}).Draw(t, "ids")
	dead := rapid.IntRange(0, 1).Draw(t, "dead")
	for i, n := 0, rapid.IntRange(0, 2).Draw(t, "others"); i < n; i++ {
		c.P = append(c.P, Pl{ids[i], rapid.SampledFrom([]string{"active", "starting"}).Draw(t, "state"), rapid.IntRange(0, 3).Draw(t, "gone") == 3})
	}
	if dead == 1 {
		c.P = append(c.P, Pl{ids[3], "ready", true})
	}
	if rapid.Bool().Draw(t, "one") {
		c.P = append(c.P, Pl{ids[4], "ready", false})
	}
	d := genDo(t, len(c.P))
	for d.Op != "play" && d.Op != "export" {
		d.Op = "play"
		genSource(t, &d)
		d.At = 0
	}
	d.At = 0
	c.D = []Do{d}
	return c
}

// Few is several of these at once, since they take long.
type Few struct{ C []*Commands }

func few(f *Few, r *vp.R) error {
	errs := make(chan error, len(f.C))
	r.NonTrivial()
	s := []string{}
	for i, c := range f.C {
		s = append(s, fmt.Sprintf("%v: %s", c.P, c.D[0].Op))
		go func(i int, c *Commands) {
			h := home(fmt.Sprintf("few%d", i))
			k := hire(h, c.P)
			defer k.close()
			ready := false
			for _, p := range c.P {
				ready = ready || p.State == "ready" && !p.Dead
			}
			d := c.D[0]
			if ready {
				errs <- k.run(0, d, &vp.R{})
				return
			}
			// Nobody can play.
			d.Code, d.Valid, d.Chan, d.From, d.To = "piano: c", true, "-c", "", ""
			errs <- k.none(d)
		}(i, c)
	}
	r.Sample(strings.Join(s, "; "))
	var first error
	for range f.C {
		if err := <-errs; err != nil && first == nil {
			first = err
		}
	}
	return first
}

// none runs a command for which there is no player.
func (k *crew) none(d Do) error {
	args := []string{d.Op, "-c", d.Code}
	if d.Op == "export" {
		args = append(args, "-o", "out.mid")
	}
	before := box.Files(k.h.Sub("work"))
	res := k.h.Run(box.Cmd{Args: args})
	for p, x := range k.at {
		if x == nil {
			continue
		}
		ms, err := x.Take()
		if err != nil {
			return err
		}
		if len(ms) > 0 {
			return fmt.Errorf("no player is ready, but alda %q tells player %v %v", args, k.ps[p], ms)
		}
	}
	if err := honest(fmt.Sprintf("alda %q without a player", args), false, res); err != nil {
		return err
	}
	return box.SameFiles(before, box.Files(k.h.Sub("work")))
}

func init() {
	vp.Add("P30", "commands", 1200, 30000, genCommands, commands, vp.Flaky())
	vp.Add("P30", "unreachable", 1, 8, func(t *rapid.T) *Few {
		f := &Few{}
		for i := 0; i < 6; i++ {
			f.C = append(f.C, genFew(t))
		}
		return f
	}, few, vp.Flaky())
}
