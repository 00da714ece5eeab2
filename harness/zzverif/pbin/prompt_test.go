package pbin

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strings"

	ajson "alda.io/client/json"
	"alda.io/client/model"
	"alda.io/client/parser"
	"alda.io/client/zzverif/box"
	"alda.io/client/zzverif/lang"
	"alda.io/client/zzverif/vp"
	"pgregory.net/rapid"
)

// Typed is one line typed at the prompt.
type Typed struct {
	Do       string
	Code     string `json:",omitempty"`
	From, To string `json:",omitempty"`
	File     string `json:",omitempty"` // "" is the current one
	Quote    int    `json:",omitempty"` // how names are quoted
}

// Talk is a session at the prompt. Files are what there is in the directory.
type Talk struct {
	Files map[string]string
	T     []Typed
	Quit  string
}

func quoted(s string, how int) string {
	plain := true
	for _, c := range s {
		if !strings.ContainsRune("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_./:+,@%", c) {
			plain = false
		}
	}
	switch {
	case plain && how != 1:
		return s
	case how == 2:
		out := ""
		for _, c := range s {
			if strings.ContainsRune(" '\"\\#", c) {
				out += "\\"
			}
			out += string(c)
		}
		return out
	case !strings.Contains(s, "'"):
		return "'" + s + "'"
	}
	return `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(s) + `"`
}

// line is what is typed.
func (a Typed) line() string {
	switch a.Do {
	case "eval-and-play":
		return a.Code
	case "load", "save", "export":
		if a.File == "" {
			return ":" + a.Do
		}
		return ":" + a.Do + " " + quoted(a.File, a.Quote)
	case "replay":
		s := ":play"
		f, t := "", ""
		if a.From != "" {
			f = " from " + quoted(a.From, a.Quote)
		}
		if a.To != "" {
			t = " to " + quoted(a.To, a.Quote)
		}
		if a.Quote == 1 {
			return s + t + f
		}
		return s + f + t
	case "new-score":
		return ":new"
	case "stop":
		return ":stop"
	}
	return a.Do
}

func (c *Talk) String() string {
	l := []string{}
	for _, a := range c.T {
		s := a.line()
		if a.Do == "load" && a.Code != "" {
			s += fmt.Sprintf(" [%q]", a.Code)
		}
		l = append(l, s)
	}
	return fmt.Sprintf("%q; files %q", l, c.Files)
}

var complaint = regexp.MustCompile(`(?m)^ERRORS?:`)

// lineOf makes a line of a piece of score, if that is possible.
func lineOf(s string) (string, bool) {
	if strings.Contains(s, "#") {
		return "", false
	}
	s = strings.Map(func(r rune) rune {
		if r == '\n' || r == '\r' || r == '\t' {
			return ' '
		}
		return r
	}, s)
	for _, r := range s {
		if r < 32 || r == 127 || r == 0xfffd {
			return "", false
		}
	}
	x := strings.TrimSpace(s)
	if strings.HasPrefix(x, ":") || x == "quit" || x == "exit" || x == "bye" {
		return "", false
	}
	return s, true
}

var fileNames = []string{"a.alda", "b.alda", "sub dir/c d.alda", "it's.alda", "link.alda", "a \"b\".alda", "./a.alda"}
var badNames = []string{"nodir/x.alda", "adir", "adir/", "/proc/x.alda", "a.alda/x"}

func genTalk(t *rapid.T) *Talk {
	evs := genScore(t)
	c := &Talk{Files: map[string]string{}, Quit: rapid.SampledFrom([]string{"quit", ":quit", "exit", "bye", " bye ", ":quit now"}).Draw(t, "quit")}
	small := lang.Base()
	small.N, small.Blocks = 4, 2
	text := func() string {
		e := lang.Gen(t, small)
		if rapid.IntRange(0, 3).Draw(t, "text") == 3 {
			s := genBad(t, e)
			if open(s) {
				return "]"
			}
			return s
		}
		s := lang.Render(e, layout(t)).S
		if rapid.Bool().Draw(t, "end") {
			s += "\n"
		}
		return s
	}
	for _, n := range []string{"a.alda", "b.alda", "it's.alda"} {
		if rapid.IntRange(0, 2).Draw(t, "exists") > 0 {
			c.Files[n] = text()
		}
	}
	pieces := cut(t, evs, 40, false)
	file := func(bad int) string {
		if rapid.IntRange(0, 99).Draw(t, "bad name") >= 100-bad {
			return rapid.SampledFrom(badNames).Draw(t, "name")
		}
		return rapid.SampledFrom(fileNames).Draw(t, "name")
	}
	add := func(a Typed) {
		a.Quote = rapid.IntRange(0, 2).Draw(t, "quote")
		c.T = append(c.T, a)
	}
	other := func() {
		switch rapid.IntRange(0, 25).Draw(t, "which") {
		case 0, 1, 2, 3:
			add(Typed{Do: "save", File: file(20)})
		case 4, 5:
			add(Typed{Do: "save"})
		case 6, 7, 8:
			add(Typed{Do: "load", File: file(15)})
		case 9:
			add(Typed{Do: "load"})
		case 10, 11:
			f := file(20)
			if rapid.Bool().Draw(t, "mid") {
				f = "out.mid"
			}
			add(Typed{Do: "export", File: f})
		case 12:
			add(Typed{Do: "new-score"})
		case 13, 14:
			add(Typed{Do: "replay", From: genRef(t, evs), To: genRef(t, evs)})
		case 15:
			add(Typed{Do: "stop"})
		case 16, 17, 18, 19, 20:
			add(Typed{Do: rapid.SampledFrom([]string{":score", ":score text", ":score data", ":score events", ":score ast", ":score info", ":parts"}).Draw(t, "show")})
		case 21:
			add(Typed{Do: rapid.SampledFrom([]string{":version", ":instruments", ":help", ":help save", ":help play", "", "  "}).Draw(t, "tell")})
		case 22, 23:
			add(Typed{Do: rapid.SampledFrom([]string{":nosuch", ":", ":score nosuch", ":score text data", ":play from", ":play from 0:01 from 0:02", ":play 0:01", ":play to 0:01 to 0:02", ":save a.alda b.alda", ":load a.alda b.alda", ":export", ":export a.mid b.mid",
				":load 'a.alda", ":save \"a.alda", ":export 'x", ":help nosuch", ":Save a.alda", ":play 'from 0:01", ":score 'x", ":save: a.alda", ":load\ta.alda"}).Draw(t, "wrong")})
		default:
			s := genBad(t, lang.Gen(t, small))
			if x, ok := lineOf(s); ok && !open(s) && strings.TrimSpace(x) != "" {
				add(Typed{Do: "eval-and-play", Code: x})
			}
		}
	}
	for _, p := range pieces {
		for rapid.IntRange(0, 99).Draw(t, "other") >= 45 && len(c.T) < 30 {
			other()
		}
		if x, ok := lineOf(p); ok {
			add(Typed{Do: "eval-and-play", Code: x})
		}
	}
	for i, n := 0, rapid.IntRange(1, 5).Draw(t, "finally"); i < n; i++ {
		other()
	}
	return c
}

// decoded compares two texts as JSON.
func sameJSON(want, got string) error {
	var w, g interface{}
	if err := json.Unmarshal([]byte(want), &w); err != nil {
		return err
	}
	if err := json.Unmarshal([]byte(got), &g); err != nil {
		return fmt.Errorf("%.300q is no JSON: %v", got, err)
	}
	if !reflect.DeepEqual(w, g) {
		return fmt.Errorf("%.600q, expected %.600q", got, want)
	}
	return nil
}

func sameLines(want []string, got string) error {
	g := strings.Split(strings.TrimRight(got, "\n"), "\n")
	w := append([]string{}, want...)
	sort.Strings(g)
	sort.Strings(w)
	if strings.Join(g, "\n") != strings.Join(w, "\n") {
		return fmt.Errorf("it prints %q, expected %q", got, want)
	}
	return nil
}

// sections splits what :score info prints.
func sections(out string) map[string][]string {
	m := map[string][]string{}
	cur := ""
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "  ") {
			m[cur] = append(m[cur], l)
		} else if l != "" {
			cur = l
			m[cur] = m[cur][:0]
		}
	}
	return m
}

// display judges what the prompt shows.
func (g *rig) display(c *box.Conn, do, out string, s *sess) error {
	switch do {
	case ":score", ":score text":
		if out != s.text+"\n" {
			return fmt.Errorf("%s prints %q, expected %q", do, out, s.text)
		}
	case ":score data":
		if err := box.SameState(jsonText(s.score), out); err != nil {
			return fmt.Errorf("%s: %v", do, err)
		}
	case ":score events", ":score ast":
		root, err := parser.ParseString(s.text)
		if err != nil {
			return fmt.Errorf("the text does not parse: %v", err)
		}
		if do == ":score ast" {
			j, err := ajson.ParseJSON([]byte(root.JSON().String()))
			if err != nil {
				return err
			}
			if want := parser.HumanReadableAST(j) + "\n"; out != want {
				return fmt.Errorf("%s prints %q, expected %q", do, out, want)
			}
			return nil
		}
		ups, err := root.Updates()
		if err != nil {
			return err
		}
		l := []string{}
		for _, u := range ups {
			l = append(l, u.JSON().String())
		}
		if err := sameJSON("["+strings.Join(l, ",")+"]", out); err != nil {
			return fmt.Errorf("%s: %v", do, err)
		}
	case ":parts", ":score info":
		// The ids of the parts are the server's.
		m, ok, err := g.ask(c, "score-data")
		if err != nil || !ok {
			return fmt.Errorf("score-data: %v %v", m, err)
		}
		var d struct {
			Parts   map[string]map[string]interface{} `json:"parts"`
			Current []string                          `json:"current-parts"`
		}
		text, _ := m["data"].(string)
		if err := json.Unmarshal([]byte(text), &d); err != nil {
			return fmt.Errorf("score-data: %v", err)
		}
		parts, cur := []string{}, []string{}
		for id, p := range d.Parts {
			parts = append(parts, fmt.Sprintf("  %s (%v)", id, p["stock-instrument"]))
		}
		for _, id := range d.Current {
			cur = append(cur, fmt.Sprintf("  %s (%v)", id, d.Parts[id]["stock-instrument"]))
		}
		if len(parts) == 0 {
			parts = []string{"  (none)"}
		}
		if len(cur) == 0 {
			cur = []string{"  (none)"}
		}
		got := sections(out)
		if err := sameLines(parts, strings.Join(got["Parts:"], "\n")); err != nil {
			return fmt.Errorf("%s, parts: %v", do, err)
		}
		if do == ":parts" {
			return nil
		}
		if err := sameLines(cur, strings.Join(got["Current parts:"], "\n")); err != nil {
			return fmt.Errorf("%s, current parts: %v", do, err)
		}
		if x := strings.Join(got["Events:"], "\n"); x != fmt.Sprintf("  %d", len(s.score.Events)) {
			return fmt.Errorf("%s says there are %q events, but there are %d", do, x, len(s.score.Events))
		}
		ms := []string{}
		last := -1.0
		for _, l := range got["Markers:"] {
			i := strings.LastIndex(l, " (")
			if i < 2 {
				continue
			}
			at := s.score.Markers[l[2:i]]
			if at < last {
				return fmt.Errorf("%s does not list the markers in order: %q", do, got["Markers:"])
			}
			last = at
		}
		for n, at := range s.score.Markers {
			ms = append(ms, fmt.Sprintf("  %s (%f)", n, at))
		}
		if len(ms) == 0 {
			ms = []string{"  (none)"}
		}
		if err := sameLines(ms, strings.Join(got["Markers:"], "\n")); err != nil {
			return fmt.Errorf("%s, markers: %v", do, err)
		}
	case ":version":
		if n := strings.Count(out, "Client version: "); n != 1 || strings.Count(out, "Server version: ") != 1 {
			return fmt.Errorf("%s prints %q", do, out)
		}
	case ":instruments":
		if err := sameLines(model.InstrumentsList(), out); err != nil {
			return fmt.Errorf("%s: %v", do, err)
		}
	case ":help":
		for _, w := range []string{":export", ":help", ":instruments", ":load", ":new", ":parts", ":play", ":quit", ":save", ":score", ":stop", ":version"} {
			if !strings.Contains(out, w+" ") {
				return fmt.Errorf("%s does not mention %s: %q", do, w, out)
			}
		}
	case ":help save", ":help play":
		if !strings.Contains(out, ":"+do[6:]) {
			return fmt.Errorf("%s prints %q", do, out)
		}
	}
	return nil
}

func isFile(p string) bool {
	fi, err := os.Stat(p)
	return err == nil && fi.Mode().IsRegular()
}

// can says whether a file can be written.
func can(p string) bool {
	if fi, err := os.Stat(p); err == nil {
		return fi.Mode().IsRegular() && !strings.HasSuffix(p, "/")
	}
	fi, err := os.Stat(filepath.Dir(p))
	return err == nil && fi.IsDir() && !strings.HasSuffix(p, "/") && !strings.HasPrefix(p, "/proc")
}

func prompt(c *Talk, r *vp.R) (err error) {
	r.Sample(c.String())
	g, conn, err := fresh()
	if err != nil {
		drop()
		return err
	}
	defer conn.Close()
	h := g.home
	work := h.Sub("work")
	if err := os.RemoveAll(work); err != nil {
		vp.Infra(err)
	}
	for _, d := range []string{work, work + "/sub dir", work + "/adir"} {
		if err := os.Mkdir(d, 0755); err != nil {
			vp.Infra(err)
		}
	}
	put(work+"/other.alda", "piano: c")
	if err := os.Symlink("a.alda", work+"/link.alda"); err != nil {
		vp.Infra(err)
	}
	for n, s := range c.Files {
		put(work+"/"+n, s)
	}
	p := h.StartPrompt(g.srv.Port)
	defer func() {
		g.via = nil
		p.Kill()
		if err != nil {
			drop()
		}
	}()
	if out, err := p.Do(":help"); err != nil || complaint.MatchString(out) {
		return fmt.Errorf("at the start: %v %q", err, out)
	}
	s := empty()
	cur := ""
	for i, a := range c.T {
		if err := g.typed(conn, p, a, s, &cur, r); err != nil {
			return fmt.Errorf("line %d (%q): %w", i+1, a.line(), err)
		}
		g.via = nil
		if err := g.look(conn, s, "score-data", "score-text"); err != nil {
			return fmt.Errorf("after line %d (%q): %w", i+1, a.line(), err)
		}
	}
	return p.Quit(c.Quit)
}

// typed types a line and judges what happens.
func (g *rig) typed(conn *box.Conn, p *box.Prompt, a Typed, s *sess, cur *string, r *vp.R) error {
	work := g.home.Sub("work")
	path := func(n string) string {
		if filepath.IsAbs(n) {
			return n
		}
		return work + "/" + n
	}
	before := box.Files(work)
	want := map[string]string{}
	for k, v := range before {
		want[k] = v
	}
	// wrote says that a file now has a content.
	wrote := func(n, content string) {
		rel, _ := filepath.Rel(work, path(n))
		if rel == "link.alda" {
			rel = "a.alda"
		}
		mode := "-rw-r--r--"
		if x, ok := before[rel]; ok && x != "directory" {
			mode = x[:10]
		}
		want[rel] = mode + ":" + content
	}
	line := a.line()
	var out string
	do := func() (bool, error) {
		var err error
		out, err = p.Do(line)
		return !complaint.MatchString(out), err
	}
	var err error
	switch a.Do {
	case "eval-and-play", "replay", "new-score", "stop":
		g.via = func(op string, kv ...string) (map[string]interface{}, bool, error) {
			ok, err := do()
			if ok && strings.TrimSpace(out) != "" {
				return nil, ok, fmt.Errorf("it prints %q", out)
			}
			return map[string]interface{}{"printed": out}, ok, err
		}
		err = g.step(conn, Op{Op: a.Do, Code: a.Code, From: a.From, To: a.To}, s, r)
	case "load":
		f := a.File
		if f == "" {
			f = *cur
		}
		if f == "" || !isFile(path(f)) {
			ok, err := do()
			if err != nil {
				return err
			}
			if ok {
				return fmt.Errorf("there is no such file, and no error is reported: %q", out)
			}
			r.Label("failed")
			break
		}
		b, _ := os.ReadFile(path(f))
		if strings.ContainsRune(string(b), 'V') && open(string(b)) {
			return nil
		}
		g.via = func(op string, kv ...string) (map[string]interface{}, bool, error) {
			ok, err := do()
			if ok {
				*cur = f
			}
			return map[string]interface{}{"printed": out}, ok, err
		}
		err = g.step(conn, Op{Op: "load", Code: string(b)}, s, r)
	case "save":
		f := a.File
		if f == "" {
			f = *cur
		}
		good := f != "" && can(path(f))
		ok, e := do()
		if e != nil {
			return e
		}
		if ok != good {
			return fmt.Errorf("the file %q can be written: %v; the prompt says %q", f, good, out)
		}
		if good {
			*cur = f
			wrote(f, s.text)
			r.Label("saved")
		} else {
			r.Label("failed")
		}
	case "export":
		if a.File == "" || !can(path(a.File)) {
			// The export takes place and cannot be written.
			g.mu.Lock()
			g.file, g.slow = box.Midi(1, 3), false
			g.mu.Unlock()
			ok, e := do()
			if e != nil {
				return e
			}
			if ok {
				return fmt.Errorf("%q cannot be written, and no error is reported: %q", a.File, out)
			}
			if _, err := g.take(); err != nil {
				return err
			}
			r.Label("failed")
			break
		}
		g.via = func(op string, kv ...string) (map[string]interface{}, bool, error) {
			ok, err := do()
			if ok {
				wrote(a.File, string(g.file))
			}
			return map[string]interface{}{"binary-data": string(g.file), "problems": []interface{}{out}}, ok, err
		}
		err = g.step(conn, Op{Op: "export"}, s, r)
	default:
		ok, e := do()
		if e != nil {
			return e
		}
		switch a.Do {
		case ":score", ":score text", ":score data", ":score events", ":score ast", ":score info", ":parts", ":version", ":instruments", ":help", ":help save", ":help play":
			if !ok {
				return fmt.Errorf("it fails: %q", out)
			}
			err = g.display(conn, a.Do, out, s)
		case "", "  ":
			if a.Do != "" {
				s.text += "\n"
			}
			if strings.TrimSpace(out) != "" {
				return fmt.Errorf("it prints %q", out)
			}
			_, err = g.take()
		default:
			r.Label("failed")
			if ok {
				return fmt.Errorf("no error is reported: %q", out)
			}
			ms, e := g.take()
			if e != nil {
				return e
			}
			if len(ms) > 0 {
				return fmt.Errorf("the player is sent %v", ms)
			}
		}
	}
	if err != nil {
		return err
	}
	if err := box.SameFiles(want, box.Files(work)); err != nil {
		return err
	}
	return nil
}

func init() {
	vp.Add("P33", "talk", 800, 20000, genTalk, func(c *Talk, r *vp.R) error {
		r2 := &vp.R{}
		err := prompt(c, r2)
		r.Sample(c.String())
		for _, l := range []string{"saved", "failed", "rejected", "bad range"} {
			if r2.Labelled(l) > 0 {
				r.Label(l)
			}
		}
		if len(c.T) >= 5 && r2.Labelled("saved") > 0 {
			r.NonTrivial()
		}
		return err
	}, vp.Flaky())
}
