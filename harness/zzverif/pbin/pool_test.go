package pbin

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"alda.io/client/generated"
	"alda.io/client/zzverif/box"
	"alda.io/client/zzverif/vp"
	"pgregory.net/rapid"
)

// Stub describes the alda-player that is installed.
type Stub struct {
	Info string // what "alda-player info" prints
	Code int    // and its exit status
	Err  bool   // it is printed as an error
	Path string // "", none, text (not executable), dir, second (behind such a one)
	Reg  string // the state in which a new player registers, if it does
}

// runs says whether players can be started.
func (s Stub) runs() bool {
	return s.version() != "" && s.Path != "none" && s.Path != "text" && s.Path != "dir"
}

func (s Stub) version() string {
	if s.Code != 0 || s.Err {
		return ""
	}
	for _, l := range strings.FieldsFunc(s.Info, func(c rune) bool { return c == '\n' || c == '\r' }) {
		if strings.HasPrefix(l, "alda-player ") {
			return strings.TrimPrefix(l, "alda-player ")
		}
	}
	return ""
}

// pool is a home with such a player.
type pool struct {
	h   *box.Home
	dir string
}

func newPool(name string, s Stub) *pool {
	h := box.NewHome(name)
	p := &pool{h, h.Sub("stub")}
	for _, d := range []string{"bin", "first", "spare"} {
		if err := os.MkdirAll(filepath.Join(p.dir, d), 0755); err != nil {
			vp.Infra(err)
		}
	}
	put(filepath.Join(p.dir, "info"), s.Info)
	put(filepath.Join(p.dir, "log"), "")
	to := ""
	if s.Err {
		to = ">&2"
	}
	players := box.StateDir(h.Cache())
	reg := ""
	if s.Reg == "spare" {
		// The stand-ins are there already, only their records are not.
		reg = fmt.Sprintf("mkdir -p '%[2]s'; for f in '%[1]s'/spare/*.json; do mv \"$f\" '%[2]s' 2>/dev/null && break; done\n", p.dir, players)
	} else if s.Reg != "" {
		put(filepath.Join(p.dir, "reg"), fmt.Sprintf(`{"state":%q,"port":%d,"expiry":%d,"pid":77}`, s.Reg, 1, time.Now().Add(time.Hour).UnixMilli()))
		reg = fmt.Sprintf("mkdir -p '%[2]s'; cp '%[1]s/reg' '%[2]s/stub'$$.tmp && mv '%[2]s/stub'$$.tmp '%[2]s/stub'$$.json\n", p.dir, players)
	}
	script := fmt.Sprintf("#!/bin/sh\nif [ \"$1\" = info ]; then cat '%s/info' %s; exit %d; fi\nprintf '%%s\\n' \"$*\" >> '%s/log'\n%s", p.dir, to, s.Code, p.dir, reg)
	bin, first := filepath.Join(p.dir, "bin", "alda-player"), filepath.Join(p.dir, "first", "alda-player")
	path := filepath.Join(p.dir, "bin") + ":/usr/bin:/bin"
	switch s.Path {
	case "none":
		path = filepath.Join(p.dir, "first") + ":/usr/bin:/bin"
	case "dir":
		os.Mkdir(bin, 0755)
	case "second":
		path = filepath.Join(p.dir, "first") + ":" + path
		put(first, "#!/bin/sh\necho first >> '"+p.dir+"/log'\n")
	}
	if s.Path != "dir" {
		put(bin, script)
	}
	if s.Path != "text" && s.Path != "dir" {
		if err := os.Chmod(bin, 0755); err != nil {
			vp.Infra(err)
		}
	}
	h.More = []string{"PATH=" + path, "ALDA_DISABLE_SPAWNING=no"}
	return p
}

// started lists how players were started.
func (p *pool) started() []string {
	b, err := os.ReadFile(filepath.Join(p.dir, "log"))
	if err != nil {
		vp.Infra(err)
	}
	return strings.FieldsFunc(string(b), func(c rune) bool { return c == '\n' })
}

func (p *pool) all(n int) error {
	for _, l := range p.started()[n:] {
		if l != "run" {
			return fmt.Errorf("a player is started with %q", l)
		}
	}
	return nil
}

// Step is a command, after something has happened to the records.
type Step struct {
	Args  []string
	Stdin string
	Off   string // what ALDA_DISABLE_SPAWNING says
	What  string // what happens to a record: gone, old, or its new state
	At    int
}

// Pool is a history of commands over a population of players.
type Pool struct {
	S Stub
	R []Rec
	D []Step
}

func genStub(t *rapid.T) Stub {
	s := Stub{Reg: rapid.SampledFrom([]string{"", "starting", "starting", "ready", "active", "exiting"}).Draw(t, "reg")}
	v := generated.ClientVersion
	switch x := rapid.IntRange(0, 9).Draw(t, "info"); {
	case x < 6:
		s.Info = "alda-player " + v
	case x < 8:
		s.Info = "alda-player " + rapid.SampledFrom([]string{"1.99.0", "9.0.0", v + "-dev", v + "0", "0"}).Draw(t, "version")
	case x == 8:
		s.Info = rapid.SampledFrom([]string{"", "alda-player", "alda " + v, v, "no Java here", "alda_player " + v}).Draw(t, "junk")
	default:
		s.Info = "alda-player " + v
		if s.Err = rapid.Bool().Draw(t, "err"); !s.Err {
			s.Code = rapid.IntRange(1, 3).Draw(t, "code")
		}
	}
	s.Info = rapid.SampledFrom([]string{"", "", "", "Picked up _JAVA_OPTIONS: -Xmx64m\n", "\n", "\r\n"}).Draw(t, "before") + s.Info +
		rapid.SampledFrom([]string{"\n", "\n", "\r\n", "", "\nlog path: /tmp/x.log\n", "\n\nalda-players\n"}).Draw(t, "after")
	s.Path = rapid.SampledFrom([]string{"", "", "", "", "", "second", "none", "text", "dir"}).Draw(t, "path")
	return s
}

var poolCommands = [][]string{
	{}, {"--help"}, {"help"}, {"help", "play"}, {"help", "nothing"}, {"bogus"}, {"paly", "-c", "piano: c"}, {"--bogus"}, {"-v", "9", "version"},
	{"version"}, {"version", "--bogus"}, {"version", "--help"}, {"instruments"}, {"instruments", "extra"}, {"telemetry"}, {"telemetry", "--bogus"}, {"completion", "bash"},
	{"parse", "-c", "piano: c", "-o", "ast"}, {"parse", "-c", "(tempo! 90)"}, {"parse", "-c", "piano: ["}, {"parse", "-c", "bogus: c"}, {"parse", "-c", "piano: c", "-o", "nothing"}, {"parse", "--bogus"}, {"parse", "--help"},
	{"parse", "-f", "nothing.alda"}, {"parse"}, {"format", "-c", "piano: c"}, {"format", "-f", "nothing.alda"}, {"format", "-c", "piano: ["}, {"import", "-i", "musicxml", "-c", "nothing"},
	{"play", "-c", "piano: ["}, {"play", "-c", "bogus: c"}, {"play", "--bogus"}, {"play", "-i", "nobody", "-c", "piano: c"}, {"export", "--help"}, {"export", "-c", "piano: [", "-o", "x.mid"}, {"stop", "-i", "nobody"}, {"repl", "--bogus"}, {"repl", "--message", "{"},
	{"ps"}, {"ps"}, {"ps"}, {"ps", "-v", "2"}, {"shutdown", "-i", "nobody"}, {"shutdown", "-i", "nobody"}, {"doctor", "--no-audio"},
}

func genPool(t *rapid.T) *Pool {
	c := &Pool{S: genStub(t)}
	ids := rapid.Permutation([]string{"abc", "abd", "xyz", "jso", "a1b", "zzz", "json", "q.j", "x-y", "000"}).Draw(t, "ids")
	for i, n := 0, rapid.IntRange(0, 5).Draw(t, "records"); i < n; i++ {
		x := genRec(t, ids[i])
		if rapid.IntRange(0, 1).Draw(t, "plain") == 1 {
			// Most of them should count.
			x = Rec{Dir: "players/" + generated.ClientVersion, Name: ids[i] + ".json", State: rapid.SampledFrom([]string{"ready", "starting", "active"}).Draw(t, "counts"), Port: 1}
			x.Text = fmt.Sprintf(`{"state":%q,"port":1,"expiry":1,"pid":2}`, x.State)
		}
		c.R = append(c.R, x)
	}
	for n := rapid.IntRange(1, 4).Draw(t, "commands"); n > 0; n-- {
		s := Step{Args: rapid.SampledFrom(poolCommands).Draw(t, "command"), Off: rapid.SampledFrom([]string{"", "", "", "", "", "", "no", "yes"}).Draw(t, "off")}
		if len(s.Args) > 0 && s.Args[0] == "doctor" {
			// It ends at the question what to do about the version.
			if s.Stdin = "n\n"; c.S.version() == "" || c.S.version() == generated.ClientVersion {
				s.Args = []string{"ps"}
			}
			// It would also wait for all players that are there.
			if len(c.R) > 0 || len(c.D) > 0 || c.S.Path == "none" || c.S.Path == "text" || c.S.Path == "dir" {
				s.Args = []string{"ps"}
			}
		}
		s.What = rapid.SampledFrom([]string{"", "", "gone", "old", "ready", "starting", "active", "finished"}).Draw(t, "what")
		s.At = rapid.IntRange(0, 9).Draw(t, "at")
		c.D = append(c.D, s)
	}
	return c
}

func (c Pool) String() string {
	l := []string{fmt.Sprintf("player %+v", c.S)}
	for _, x := range c.R {
		l = append(l, fmt.Sprintf("record %s/%s %d s old: %q", x.Dir, x.Name, x.Age, x.Text))
	}
	for _, d := range c.D {
		l = append(l, fmt.Sprintf("(%s %d) alda %q %q off: %q", d.What, d.At, d.Args, d.Stdin, d.Off))
	}
	return strings.Join(l, "; ")
}

func poolRun(c *Pool, r *vp.R) error {
	r.Sample(c.String())
	p := newPool("pool", c.S)
	h := p.h
	defer os.RemoveAll(h.Dir)
	st := h.Sub("cache", "alda", "state")
	counts := map[string]bool{} // the records that count
	names := []string{}
	for _, x := range c.R {
		f := filepath.Join(st, x.Dir, x.Name)
		if err := os.MkdirAll(filepath.Dir(f), 0755); err != nil {
			vp.Infra(err)
		}
		put(f, x.Text)
		at := time.Now().Add(-time.Duration(x.Age) * time.Second)
		if err := os.Chtimes(f, at, at); err != nil {
			vp.Infra(err)
		}
		if x.Dir == "players/"+generated.ClientVersion && x.Age <= 120 && (x.State == "ready" || x.State == "starting") {
			counts[f] = true
		}
		if x.Dir == "players/"+generated.ClientVersion && strings.HasSuffix(x.Name, ".json") && x.Age <= 120 {
			names = append(names, f)
		}
	}
	for i, d := range c.D {
		if d.What != "" && len(names) > 0 {
			f := names[d.At%len(names)]
			switch d.What {
			case "gone":
				os.Remove(f)
				delete(counts, f)
			case "old":
				at := time.Now().Add(-time.Hour)
				os.Chtimes(f, at, at)
				delete(counts, f)
			default:
				put(f, fmt.Sprintf(`{"state":%q,"port":1,"expiry":1,"pid":2}`, d.What))
				if delete(counts, f); d.What == "ready" || d.What == "starting" {
					counts[f] = true
				}
			}
		}
		what := fmt.Sprintf("command %d, alda %q", i+1, d.Args)
		name := ""
		if len(d.Args) > 0 {
			name = d.Args[0]
		}
		// What it does without players, to compare with.
		ref := h.Run(box.Cmd{Args: d.Args, Stdin: &d.Stdin, Env: []string{"ALDA_DISABLE_SPAWNING=yes"}, All: true})
		if err := honest(what, ref.Code == 0, ref); err != nil && name != "doctor" {
			return err
		}
		n := len(p.started())
		if d.Off == "yes" && n > 0 {
			r.Label("disabled")
		}
		env := []string{}
		if d.Off != "" {
			env = append(env, "ALDA_DISABLE_SPAWNING="+d.Off)
		}
		res := h.Run(box.Cmd{Args: d.Args, Stdin: &d.Stdin, Env: env, All: true})
		if res.Code != ref.Code || name != "ps" && res.Out != ref.Out {
			return fmt.Errorf("%s: %v; with ALDA_DISABLE_SPAWNING=yes: %v", what, res, ref)
		}
		want := 0
		if name != "ps" && name != "shutdown" && name != "doctor" && d.Off != "yes" {
			if want = 3 - len(counts); want < 0 || !c.S.runs() {
				want = 0
			}
			if !c.S.runs() || c.S.version() != generated.ClientVersion {
				if len(res.Err) <= len(ref.Err) {
					return fmt.Errorf("%s: there is no word about the player (%+v): %v", what, c.S, res)
				}
			}
		}
		if err := p.all(n); err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
		if got := len(p.started()) - n; got != want {
			return fmt.Errorf("%s starts %d players, not %d (records that count: %v)", what, got, want, counts)
		}
		if want > 0 && len(counts) > 0 {
			r.NonTrivial()
		}
		// The new ones.
		fs, _ := filepath.Glob(filepath.Join(box.StateDir(h.Cache()), "stub*.json"))
		if c.S.Reg != "" && c.S.runs() && len(fs) != len(p.started()) {
			have := map[string]bool{}
			for _, f := range fs {
				have[f] = true
			}
			gone := 0
			for _, f := range names {
				if strings.Contains(filepath.Base(f), "stub") && !have[f] {
					gone++
				}
			}
			if len(fs)+gone != len(p.started()) {
				return fmt.Errorf("%s: %d players have been started, %d are registered", what, len(p.started()), len(fs))
			}
		}
		known := map[string]bool{}
		for _, f := range names {
			known[f] = true
		}
		for _, f := range fs {
			if !known[f] {
				names = append(names, f)
				if c.S.Reg == "ready" || c.S.Reg == "starting" {
					counts[f] = true
				}
			}
		}
	}
	return nil
}

// First is a command that needs a player, when maybe none is there.
type First struct {
	Have []string // states of the players that are there
	Turn int      // one that is starting becomes ready after so many milliseconds
	Op   int
	N    int  // notes
	Late int  // how long a new player takes, in milliseconds
	Lost bool `json:",omitempty"` // there is one that seems ready, but is dead
}

func genFirst(t *rapid.T) First {
	c := First{Op: rapid.IntRange(0, 3).Draw(t, "op"), N: rapid.IntRange(1, 9).Draw(t, "n"), Late: rapid.SampledFrom([]int{0, 0, 50, 200, 500}).Draw(t, "late")}
	for n := rapid.IntRange(0, 4).Draw(t, "have"); n > 0; n-- {
		c.Have = append(c.Have, rapid.SampledFrom([]string{"active", "starting", "active", "ready"}).Draw(t, "state"))
	}
	c.Turn = rapid.SampledFrom([]int{10, 100, 400}).Draw(t, "turn")
	return c
}

func first(c First, r *vp.R) error {
	r.Sample(fmt.Sprintf("%+v", c))
	return firstIn("first", c, r)
}

func firstIn(name string, c First, r *vp.R) error {
	p := newPool(name, Stub{Info: "alda-player " + generated.ClientVersion + "\n", Reg: "spare"})
	h := p.h
	defer os.RemoveAll(h.Dir)
	if c.Late > 0 {
		// The new players take their time.
		f := filepath.Join(p.dir, "bin", "alda-player")
		b, err := os.ReadFile(f)
		if err != nil {
			vp.Infra(err)
		}
		put(f, strings.Replace(string(b), "mkdir -p", fmt.Sprintf("sleep 0.%03d; mkdir -p", c.Late), 1))
	}
	ps := []*box.Player{}
	defer func() {
		for _, p := range ps {
			p.Close()
		}
	}()
	want, ready := 3, false
	var turn *box.Player
	for i, s := range c.Have {
		x := box.NewPlayer(h.Cache(), fmt.Sprintf("old%d", i), s)
		ps = append(ps, x)
		if s != "active" {
			want--
		}
		if s == "ready" {
			ready = true
		}
		if s == "starting" && turn == nil {
			turn = x
		}
	}
	if want < 0 {
		want = 0
	}
	if want == 0 && !ready && turn == nil {
		return nil
	}
	dead := ""
	if c.Lost {
		x := box.NewDead()
		defer x.Close()
		// It is the first one to be asked, and counts until it doesn't answer.
		dead = box.Record(h.Cache(), "aaa", "ready", x.Port)
	}
	spare := h.Sub("spare")
	for i := 0; i < 3; i++ {
		x := box.NewPlayer(spare, fmt.Sprintf("new%d", i), "ready")
		if err := os.Rename(x.File, filepath.Join(p.dir, "spare", filepath.Base(x.File))); err != nil {
			vp.Infra(err)
		}
		ps = append(ps, x)
	}
	midi := box.Midi(1, 40)
	for _, x := range ps {
		x.SetExport(func(file string) { os.WriteFile(file, midi, 0644) })
	}
	if turn != nil {
		t := time.AfterFunc(time.Duration(c.Turn)*time.Millisecond, func() {
			turn.State = "ready"
			turn.Register()
		})
		defer t.Stop()
	}
	code := "piano: " + strings.Repeat("c ", c.N)
	args := [][]string{{"play", "-c", code}, {"play", "-c", code}, {"export", "-c", code, "-o", "out.mid"}, {"play"}}[c.Op]
	what := fmt.Sprintf("alda %q with players %v", args, c.Have)
	if c.Op == 3 {
		// There is nothing to do for new players.
		ready = true
	}
	if !ready && want > 0 && len(c.Have) > 0 {
		r.NonTrivial()
	}
	res := h.Run(box.Cmd{Args: args, All: true})
	if err := honest(what, true, res); err != nil {
		return err
	}
	if err := p.all(0); err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	if dead != "" {
		if _, err := os.Stat(dead); err == nil {
			return fmt.Errorf("%s: the dead player is still listed", what)
		}
	}
	if n := len(p.started()); n != want {
		return fmt.Errorf("%s starts %d players, not %d", what, n, want)
	}
	used := 0
	for i, x := range ps {
		ms, err := x.Take()
		if err != nil {
			return fmt.Errorf("%s: what a player gets: %v", what, err)
		}
		notes := 0
		for _, m := range ms {
			if strings.HasSuffix(m.Addr, "/midi/note") {
				notes++
			}
		}
		if c.Op == 3 {
			active := i < len(c.Have) && c.Have[i] == "active"
			if active != (len(ms) > 0) {
				return fmt.Errorf("%s: player %d gets %d messages", what, i, len(ms))
			}
			continue
		}
		if len(ms) == 0 {
			continue
		}
		if used++; notes != c.N {
			return fmt.Errorf("%s: a player is to play %d notes, not %d", what, notes, c.N)
		}
		if i < len(c.Have) && c.Have[i] == "active" {
			return fmt.Errorf("%s: an active player is used", what)
		}
	}
	if c.Op != 3 && used != 1 {
		return fmt.Errorf("%s uses %d players", what, used)
	}
	return nil
}

// Kept is a pool which a server keeps.
type Kept struct {
	Have  int  // players that are waiting at first
	Busy  int  // that are not any more, then
	Gone  int  // whose records disappear, then
	Typed bool // a server with a prompt
}

func kept(cs []Kept, r *vp.R) error {
	r.Sample(fmt.Sprintf("%+v", cs))
	errs := make(chan error)
	if len(cs) > 1 {
		r.NonTrivial()
	}
	for i, c := range cs {
		go func(i int, c Kept) {
			defer func() {
				if x := recover(); x != nil {
					errs <- fmt.Errorf("panic: %v", x)
				}
			}()
			for try := 0; ; try++ {
				err := keep(i, c)
				if try < 3 && err != nil && strings.Contains(err.Error(), "address already in use") {
					continue // someone else was given the port that was free
				}
				errs <- err
				return
			}
		}(i, c)
	}
	var bad error
	for range cs {
		if err := <-errs; err != nil {
			bad = err
		}
	}
	return bad
}

func keep(i int, c Kept) error {
	p := newPool(fmt.Sprintf("kept%d", i), Stub{Info: "alda-player " + generated.ClientVersion + "\n", Reg: "starting"})
	h := p.h
	defer os.RemoveAll(h.Dir)
	for k := 0; k < c.Have; k++ {
		box.Record(h.Cache(), fmt.Sprintf("old%d", k), "starting", 1)
	}
	args := []string{"repl", "--server"}
	if c.Typed {
		args = []string{"repl"}
	}
	s := h.Launch(h.Sub("work"), h.Sub("log"), args...)
	defer s.Kill()
	what := fmt.Sprintf("alda %q with %d players waiting", args, c.Have)
	total := 0
	reach := func() error {
		for end := time.Now().Add(box.Patience); len(p.started()) < total; time.Sleep(50 * time.Millisecond) {
			if s.Ended(0) {
				return fmt.Errorf("%s: the server ends: %s", what, s.Output())
			}
			if time.Now().After(end) {
				return fmt.Errorf("%s has started %d players, not %d", what, len(p.started()), total)
			}
		}
		for k := 0; k < 24; k++ {
			time.Sleep(500 * time.Millisecond)
			if n := len(p.started()); n > total {
				return fmt.Errorf("%s has started %d players, not %d", what, n, total)
			}
		}
		return p.all(0)
	}
	if total = 3 - c.Have; total < 0 {
		total = 0
	}
	waiting := c.Have + total
	if err := reach(); err != nil {
		return err
	}
	fs, _ := filepath.Glob(filepath.Join(box.StateDir(h.Cache()), "*.json"))
	if len(fs) != waiting {
		return fmt.Errorf("%s: %d records, not %d", what, len(fs), waiting)
	}
	now := time.Now()
	for k, f := range fs {
		switch {
		case k < c.Busy:
			tmp := h.Sub("tmp", "busy")
			put(tmp, `{"state":"active","port":1,"expiry":1,"pid":2}`)
			if err := os.Rename(tmp, f); err != nil {
				vp.Infra(err)
			}
			waiting--
		case k < c.Busy+c.Gone:
			os.Remove(f)
			waiting--
		default:
			os.Chtimes(f, now, now)
		}
	}
	what += fmt.Sprintf(", then %d", waiting)
	if waiting < 3 {
		total += 3 - waiting
	}
	return reach()
}

func init() {
	vp.Add("P37", "pool", 2400, 40000, genPool, poolRun, vp.Flaky())
	vp.Add("P37", "first", 720, 12000, genFirst, first, vp.Flaky())
	vp.Add("P37", "lost", 12, 120, func(t *rapid.T) []First {
		cs := []First{}
		for n := rapid.IntRange(3, 5).Draw(t, "n"); n > 0; n-- {
			c := genFirst(t)
			c.Lost, c.Op = true, c.Op%3
			cs = append(cs, c)
		}
		return cs
	}, func(cs []First, r *vp.R) error {
		r.Sample(fmt.Sprintf("%+v", cs))
		r.NonTrivial()
		errs := make(chan error)
		for i, c := range cs {
			go func(i int, c First) {
				defer func() {
					if x := recover(); x != nil {
						errs <- fmt.Errorf("panic: %v", x)
					}
				}()
				errs <- firstIn(fmt.Sprintf("lost%d", i), c, &vp.R{})
			}(i, c)
		}
		var bad error
		for range cs {
			if err := <-errs; err != nil {
				bad = err
			}
		}
		return bad
	}, vp.Flaky())
	vp.Add("P37", "kept", 12, 60, func(t *rapid.T) []Kept {
		cs := []Kept{}
		for n := rapid.IntRange(3, 6).Draw(t, "n"); n > 0; n-- {
			cs = append(cs, Kept{rapid.IntRange(0, 5).Draw(t, "have"), rapid.IntRange(0, 3).Draw(t, "busy"), rapid.IntRange(0, 2).Draw(t, "gone"), rapid.Bool().Draw(t, "typed")})
		}
		return cs
	}, kept, vp.Flaky())
}
