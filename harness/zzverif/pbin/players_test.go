package pbin

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"alda.io/client/generated"
	"alda.io/client/zzverif/box"
	"alda.io/client/zzverif/vp"
	"pgregory.net/rapid"
)

// Rec is a file in the directory of state records.
type Rec struct {
	Dir   string // below state
	Name  string
	Text  string
	State string // of a player, if the record is complete
	Port  int
	Pid   int
	Age   int // seconds since it was touched
}

// Records is a population of state records.
type Records struct {
	R    []Rec
	Cmd  int
	Home int
}

func genRec(t *rapid.T, id string) Rec {
	r := Rec{Name: id + ".json", Dir: "players/" + generated.ClientVersion}
	r.Age = rapid.SampledFrom([]int{0, 0, 0, 1, 30, 60, 90, -60, 150, 200, 3600, 1000000}).Draw(t, "age")
	switch rapid.IntRange(0, 7).Draw(t, "where") {
	case 5:
		r.Dir = "players/" + rapid.SampledFrom([]string{"1.0.0", "2.2.9", generated.ClientVersion + "-1", "0"}).Draw(t, "version")
	case 6:
		r.Dir = "repl-servers"
	case 7:
		r.Dir = rapid.SampledFrom([]string{"players", "other", "", "players/" + generated.ClientVersion + "/deeper"}).Draw(t, "dir")
	}
	r.State = rapid.SampledFrom([]string{"ready", "active", "starting", "ready", "Ready", "finished"}).Draw(t, "state")
	r.Port = rapid.IntRange(1, 65535).Draw(t, "port")
	r.Pid = rapid.IntRange(1, 99999).Draw(t, "pid")
	m := map[string]interface{}{"state": r.State, "port": r.Port, "expiry": time.Now().Add(time.Hour).UnixMilli(), "pid": r.Pid}
	if r.Dir == "repl-servers" {
		m = map[string]interface{}{"port": r.Port, "id": id, "pid": r.Pid}
	}
	switch rapid.IntRange(0, 15).Draw(t, "kind") {
	case 10: // not ready for reading
		b, _ := json.Marshal(m)
		r.Text = string(b[:rapid.IntRange(0, len(b)-1).Draw(t, "cut")])
		r.State = ""
		return r
	case 11:
		r.Text = rapid.SampledFrom([]string{"", "\n", "null", "[]", "{}", "\"ready\"", "1", "{\"state\":", "\x00\x00\x00", "{}{}", "not json"}).Draw(t, "junk")
		r.State = ""
		return r
	case 12:
		delete(m, rapid.SampledFrom([]string{"state", "port"}).Draw(t, "missing"))
		r.State = ""
	case 13:
		m[rapid.SampledFrom([]string{"state", "port", "pid", "expiry"}).Draw(t, "wrong")] = rapid.SampledFrom([]interface{}{[]int{1}, map[string]int{"a": 1}, true}).Draw(t, "value")
		r.State = ""
	case 14:
		if r.Dir == "repl-servers" || strings.HasPrefix(r.Dir, "other") || r.Dir == "" {
			break
		}
		// Somebody's file, or one that is just being written.
		r.Name = id + rapid.SampledFrom([]string{".tmp", ".json.tmp", ".json~", "", ".txt", ".jsonx"}).Draw(t, "name")
		r.State = ""
		if r.Age > 100 {
			r.Age = 5
		}
	case 15:
		m["version"] = "new"
	}
	b, _ := json.Marshal(m)
	r.Text = string(b)
	return r
}

func genRecords(t *rapid.T) *Records {
	c := &Records{Cmd: rapid.IntRange(0, 2).Draw(t, "cmd")}
	ids := rapid.Permutation([]string{"abc", "abd", "xyz", "jso", "a1b", "zzz", "json", "q.j", "x-y", "000"}).Draw(t, "ids")
	for i, n := 0, rapid.IntRange(1, 9).Draw(t, "records"); i < n; i++ {
		c.R = append(c.R, genRec(t, ids[i]))
	}
	return c
}

func tree(dir string) []string {
	out := []string{}
	for k := range box.Files(dir) {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func records(c *Records, r *vp.R) error {
	h := home("records")
	st := h.Sub("cache", "alda", "state")
	want := map[string]bool{}
	keep, gone := map[string]bool{}, map[string]bool{}
	desc := []string{}
	for _, x := range c.R {
		f := filepath.Join(st, x.Dir, x.Name)
		if err := os.MkdirAll(filepath.Dir(f), 0755); err != nil {
			vp.Infra(err)
		}
		put(f, x.Text)
		at := time.Now().Add(-time.Duration(x.Age) * time.Second)
		if err := os.Chtimes(f, at, at); err != nil {
			vp.Infra(err)
		}
		desc = append(desc, fmt.Sprintf("%s/%s %d s old: %q", x.Dir, x.Name, x.Age, x.Text))
		rel, _ := filepath.Rel(h.Dir, f)
		cleaned := strings.HasPrefix(x.Dir, "players") || x.Dir == "repl-servers"
		if x.Age > 120 && cleaned {
			gone[rel] = true
		} else {
			keep[rel] = true
			if x.State != "" && x.Dir == "players/"+generated.ClientVersion {
				want[fmt.Sprintf("%s %d %s player %d", strings.TrimSuffix(x.Name, ".json"), x.Port, x.State, x.Pid)] = true
			}
		}
	}
	// Other things of the user's, old ones.
	for _, f := range []string{"cache/alda/logs/alda-player.log", "cache/state/players/abc.json", "config/alda/notes.json", "work/state/players/x.json", "home/.cache/alda/state/players/y.json", "cache/alda/state.json"} {
		p := h.Sub(f)
		os.MkdirAll(filepath.Dir(p), 0755)
		put(p, "{}")
		at := time.Now().Add(-time.Hour)
		os.Chtimes(p, at, at)
		keep[f] = true
	}
	before := tree(h.Dir)
	r.Sample(strings.Join(desc, "; "))
	if len(want) > 0 && len(c.R) > len(want) {
		r.NonTrivial()
	}
	if len(gone) > 0 {
		r.Label("stale records")
	}
	what := "alda ps"
	var res box.Result
	switch c.Cmd {
	case 0, 1:
		res = h.Run(box.Cmd{Args: []string{"ps"}})
	case 2:
		what = "alda stop -i nobody"
		res = h.Run(box.Cmd{Args: []string{"stop", "-i", "nobody"}})
	}
	after := map[string]bool{}
	for _, k := range tree(h.Dir) {
		after[k] = true
	}
	for _, k := range before {
		if !after[k] && !gone[k] {
			return fmt.Errorf("%s deletes %s (%s)", what, k, strings.Join(desc, "; "))
		}
		if after[k] && gone[k] {
			return fmt.Errorf("%s leaves %s, which is stale (%s)", what, k, strings.Join(desc, "; "))
		}
	}
	if c.Cmd == 2 {
		return honest(what, false, res)
	}
	if res.Code != 0 {
		return fmt.Errorf("%s fails: %v", what, res)
	}
	got := map[string]bool{}
	for i, line := range strings.Split(strings.TrimRight(res.Out, "\n"), "\n") {
		f := strings.Split(line, "\t")
		if i == 0 {
			continue
		}
		if len(f) != 6 {
			return fmt.Errorf("%s prints %q", what, line)
		}
		if f[4] == "player" {
			k := fmt.Sprintf("%s %s %s player %s", f[0], f[1], f[2], f[5])
			if got[k] {
				return fmt.Errorf("%s lists %q twice", what, k)
			}
			got[k] = true
		}
	}
	for k := range want {
		if !got[k] {
			return fmt.Errorf("%s does not list the player %q: %s (%s)", what, k, res.Out, strings.Join(desc, "; "))
		}
	}
	for k := range got {
		if !want[k] {
			return fmt.Errorf("%s lists %q, which is no player: %s (%s)", what, k, res.Out, strings.Join(desc, "; "))
		}
	}
	return nil
}

// Beside is what lies beside the program.
type Beside struct {
	Old   []string // old versions of it
	Other []string
	Dirs  []string
	Link  bool
	Where string
}

func genBeside(t *rapid.T) *Beside {
	b := &Beside{Link: rapid.Bool().Draw(t, "link"), Where: rapid.SampledFrom([]string{"bin", "my alda", "alda.1.2.old", "x/alda"}).Draw(t, "where")}
	num := func() string {
		return fmt.Sprint(rapid.IntRange(0, 2000000000).Draw(t, "number"))
	}
	used := map[string]bool{"alda": true}
	add := func(l *[]string, s string) {
		if !used[s] {
			used[s] = true
			*l = append(*l, s)
		}
	}
	for n := rapid.IntRange(0, 3).Draw(t, "old"); n > 0; n-- {
		add(&b.Old, rapid.SampledFrom([]string{"alda", "alda-player", "alda.exe", "alda-player.exe"}).Draw(t, "exe")+"."+num()+"."+num()+".old")
	}
	for n := rapid.IntRange(0, 6).Draw(t, "others"); n > 0; n-- {
		s := rapid.SampledFrom([]string{"alda", "alda-player", "alda.exe"}).Draw(t, "exe")
		full := s + "." + num() + "." + num() + ".old"
		switch rapid.IntRange(0, 13).Draw(t, "kind") {
		case 0:
			full = "my-" + full
		case 1:
			full += rapid.SampledFrom([]string{"-backup", ".txt", "er", "~", ".alda", " ", "\n"}).Draw(t, "end")
		case 2:
			full = s + "." + num() + ".old"
		case 3:
			full = s + "." + num() + "." + num()
		case 4:
			full = s + ".a" + num() + "." + num() + ".old"
		case 5:
			full = "score." + full
		case 6:
			full = s + "-" + num() + "." + num() + ".old"
		case 7:
			full = strings.Replace(full, "alda", rapid.SampledFrom([]string{"Alda", "alda-editor", "aldaa", "alda_player", "alda-player-2"}).Draw(t, "name"), 1)
		case 8:
			full = s + "." + num() + "." + num() + "." + num() + ".old"
		case 9:
			full = s + "." + num() + ".-" + num() + ".old"
		case 10:
			full = rapid.SampledFrom([]string{"alda.old", "alda.1.2.OLD", "alda-player", "score.alda", "alda.1.2.bak", ".1.2.old", "alda1.2.old", "alda.1..old", "alda..1.old", "alda.1.2old"}).Draw(t, "name")
		case 11:
			full = "." + full
		case 12:
			full = s + "x" + num() + "x" + num() + "xold"
		default:
			add(&b.Dirs, full)
			continue
		}
		add(&b.Other, full)
	}
	return b
}

func beside(b *Beside, r *vp.R) error {
	h := home("beside")
	dir := h.Sub(b.Where)
	if err := os.MkdirAll(dir, 0755); err != nil {
		vp.Infra(err)
	}
	exe := filepath.Join(dir, "alda")
	if err := os.Link(box.Alda(), exe); err != nil {
		// Another file system.
		in, err := os.Open(box.Alda())
		if err != nil {
			vp.Infra(err)
		}
		defer in.Close()
		out, err := os.OpenFile(exe, os.O_CREATE|os.O_WRONLY, 0755)
		if err != nil {
			vp.Infra(err)
		}
		if _, err := io.Copy(out, in); err != nil {
			vp.Infra(err)
		}
		out.Close()
	}
	defer os.RemoveAll(h.Dir)
	for _, f := range append(append([]string{}, b.Old...), b.Other...) {
		put(filepath.Join(dir, f), "contents")
	}
	for _, f := range b.Dirs {
		os.MkdirAll(filepath.Join(dir, f), 0755)
		put(filepath.Join(dir, f, "alda.1.2.old"), "contents")
	}
	// The same names elsewhere are none of its business.
	link := h.Sub("tmp", "alda")
	for _, f := range append(append([]string{}, b.Old...), "alda.1.2.old") {
		put(h.Sub("tmp", f), "contents")
		put(h.Sub("work", f), "contents")
		put(h.Sub("home", f), "contents")
	}
	if err := os.Symlink(exe, link); err != nil {
		vp.Infra(err)
	}
	run := exe
	if b.Link {
		run = link
	}
	before := tree(h.Dir)
	r.Sample(fmt.Sprintf("old: %q, other: %q, directories: %q", b.Old, b.Other, b.Dirs))
	if len(b.Old) > 0 && len(b.Other)+len(b.Dirs) > 0 {
		r.NonTrivial()
	}
	res := h.Run(box.Cmd{Args: []string{"version"}, Exe: run})
	if res.Code != 0 {
		return fmt.Errorf("alda version fails: %v", res)
	}
	after := map[string]bool{}
	for _, k := range tree(h.Dir) {
		after[k] = true
	}
	old := map[string]bool{}
	for _, f := range b.Old {
		old[filepath.Join(b.Where, f)] = true
	}
	for _, k := range before {
		if !after[k] && !old[k] {
			return fmt.Errorf("alda deletes the file %q", k)
		}
		if after[k] && old[k] {
			return fmt.Errorf("alda does not delete the old executable %q", k)
		}
	}
	return nil
}

// Choice is some populations with players who only seem to be ready.
type Choice struct{ P [][]Pl }

func genChoice(t *rapid.T) *Choice {
	c := &Choice{}
	for k := 0; k < 8; k++ {
		ids := rapid.Permutation([]string{"abc", "abd", "xyz", "json", "a1b", "zzz"}).Draw(t, "ids")
		ps := []Pl{}
		n := rapid.IntRange(1, 5).Draw(t, "players")
		dead := 0
		for i := 0; i < n; i++ {
			p := Pl{ids[i], rapid.SampledFrom([]string{"ready", "ready", "active", "starting"}).Draw(t, "state"), rapid.Bool().Draw(t, "dead")}
			if p.Dead && p.State == "ready" {
				if dead == 2 { // Each costs 20 seconds.
					p.Dead = false
				}
				dead++
			}
			ps = append(ps, p)
		}
		c.P = append(c.P, ps)
	}
	return c
}

func choice(c *Choice, r *vp.R) error {
	r.NonTrivial()
	r.Sample(fmt.Sprint(c.P))
	errs := make(chan error, len(c.P))
	for i := range c.P {
		go func(i int) { errs <- choose(fmt.Sprintf("choice%d", i), c.P[i]) }(i)
	}
	var first error
	for range c.P {
		if err := <-errs; err != nil && first == nil {
			first = err
		}
	}
	return first
}

func choose(name string, ps []Pl) error {
	h := home(name)
	k := hire(h, ps)
	defer k.close()
	ready := false
	for _, p := range ps {
		ready = ready || p.State == "ready" && !p.Dead
	}
	res := h.Run(box.Cmd{Args: []string{"play", "-c", "piano: c"}})
	fail := func(f string, a ...interface{}) error {
		return fmt.Errorf("players %v: %s (%v)", ps, fmt.Sprintf(f, a...), res)
	}
	told := 0
	for i, x := range k.at {
		if x == nil {
			continue
		}
		ms, err := x.Take()
		if err != nil {
			return fail("%v", err)
		}
		if len(ms) == 0 {
			continue
		}
		told++
		if ps[i].State != "ready" {
			return fail("%s is offered, which is %s", ps[i].ID, ps[i].State)
		}
	}
	if ready && (res.Code != 0 || told != 1) {
		return fail("there is a player that is ready and answers, but %d are told to play", told)
	}
	if !ready && (res.Code == 0 || told != 0) {
		return fail("nobody can play, but %d are told to", told)
	}
	// Those who don't answer are dropped, at least when all have been tried.
	for _, p := range ps {
		_, err := os.Stat(filepath.Join(box.StateDir(h.Cache()), p.ID+".json"))
		listed := err == nil
		hopeless := p.Dead && p.State == "ready"
		if !listed && !hopeless {
			return fail("the record of %s is gone", p.ID)
		}
		if listed && hopeless && !ready {
			return fail("the record of %s is still there", p.ID)
		}
	}
	return nil
}

func init() {
	vp.Add("P29", "records", 1200, 40000, genRecords, records, vp.Flaky())
	vp.Add("P29", "executables", 600, 16000, genBeside, beside, vp.Flaky())
	vp.Add("P29", "choice", 12, 96, genChoice, choice, vp.Flaky())
}
