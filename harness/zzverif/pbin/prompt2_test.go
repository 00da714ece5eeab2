package pbin

import (
	"bufio"
	"fmt"
	"net"
	"os"
	"strings"
	"sync"
	"time"

	"alda.io/client/zzverif/box"
	"alda.io/client/zzverif/vp"
	"pgregory.net/rapid"
)

// Gone is a session whose server ends.
type Gone struct {
	Before, After []Typed
	Files         map[string]string
}

func gone(c *Gone, r *vp.R) error {
	l := []string{}
	for _, a := range c.After {
		l = append(l, a.line())
	}
	r.Sample(fmt.Sprintf("%d lines, then without a server: %q", len(c.Before), l))
	if len(l) >= 3 {
		r.NonTrivial()
	}
	h := box.NewHome("gone")
	pl := box.NewPlayer(h.Cache(), "abc", "ready")
	defer pl.Close()
	pl.SetExport(func(f string) {
		if strings.HasPrefix(f, h.Dir) {
			os.WriteFile(f, box.Midi(1, 3), 0644)
		}
	})
	s := box.StartServer(h)
	defer s.Kill()
	work := h.Sub("work")
	os.Mkdir(work+"/adir", 0755)
	os.Mkdir(work+"/sub dir", 0755)
	for n, x := range c.Files {
		put(work+"/"+n, x)
	}
	p := h.StartPrompt(s.Port)
	defer p.Kill()
	for _, a := range c.Before {
		if _, err := p.Do(a.line()); err != nil {
			return err
		}
	}
	s.Kill()
	want := box.Files(work)
	for _, a := range c.After {
		out, err := p.Do(a.line())
		if err != nil {
			return fmt.Errorf("the server has ended: %v", err)
		}
		local := strings.HasPrefix(a.Do, ":help") && a.Do != ":help nosuch" || a.Do == ""
		if complaint.MatchString(out) == local {
			return fmt.Errorf("the server has ended, and %q prints %q", a.line(), out)
		}
		if err := box.SameFiles(want, box.Files(work)); err != nil {
			return fmt.Errorf("the server has ended, and after %q %v", a.line(), err)
		}
	}
	return p.Quit("quit")
}

// fake is a server that answers in its own time.
type fake struct {
	ln   net.Listener
	mu   sync.Mutex
	hold int // so many more requests are not answered yet
	held [][]byte
	glue bool // late answers come together with the next one
	conn net.Conn
	n    int
}

func (f *fake) serve() {
	for {
		c, err := f.ln.Accept()
		if err != nil {
			return
		}
		f.mu.Lock()
		f.conn = c
		f.mu.Unlock()
		go func() {
			defer c.Close()
			rd := bufio.NewReader(c)
			for {
				v, err := box.Decode(rd)
				if err != nil {
					return
				}
				m, ok := v.(map[string]interface{})
				if !ok {
					return
				}
				f.mu.Lock()
				f.n++
				rep := map[string]interface{}{"id": m["id"], "status": []interface{}{"done"}}
				if x, ok := m["session"]; ok {
					rep["session"] = x
				}
				switch m["op"] {
				case "clone":
					rep["new-session"] = "abc"
				case "describe":
					rep["versions"] = map[string]interface{}{"alda": map[string]interface{}{"version-string": fmt.Sprintf("v%d", f.n)}}
					rep["ops"] = map[string]interface{}{"eval-and-play": map[string]interface{}{}}
				case "score-text":
					rep["text"] = fmt.Sprintf("text %d", f.n)
				case "instruments":
					rep["instruments"] = []interface{}{fmt.Sprintf("i%d", f.n)}
				case "eval-and-play", "load":
					rep["status"] = []interface{}{"done", "error"}
					rep["problems"] = []interface{}{fmt.Sprintf("problem %d", f.n)}
				}
				b := box.Encode(rep)
				if f.hold > 0 {
					f.hold--
					f.held = append(f.held, b)
				} else {
					if f.glue {
						x := []byte{}
						for _, h := range f.held {
							x = append(x, h...)
						}
						b = append(x, b...)
						f.held = nil
					}
					c.Write(b)
				}
				f.mu.Unlock()
			}
		}()
	}
}

// Late is a session in which answers come too late.
type Late struct {
	Ask  []string // the requests that are answered late
	Then []string
	Glue bool // the late answers come with the first one that isn't
}

func (c Late) run(h *box.Home, k int) error {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		vp.Infra(err)
	}
	defer ln.Close()
	f := &fake{ln: ln, glue: c.Glue}
	go f.serve()
	p := h.StartPrompt(ln.Addr().(*net.TCPAddr).Port)
	defer p.Kill()
	line := func(s string) string { return strings.Replace(s, "FILE", fmt.Sprintf("f%d.alda", k), 1) }
	// good types a line and looks for the answer to it.
	good := func(s string) error {
		out, err := p.Do(line(s))
		if err != nil {
			return err
		}
		f.mu.Lock()
		n := f.n
		f.mu.Unlock()
		want := ""
		switch s {
		case ":score":
			want = fmt.Sprintf("text %d\n", n)
		case ":instruments":
			want = fmt.Sprintf("i%d\n", n)
		case "c d e":
			want = fmt.Sprintf("ERROR: problem %d\n", n)
		case ":version":
			if !strings.HasSuffix(out, fmt.Sprintf("Server version: v%d\n", n)) {
				return fmt.Errorf("%q prints %q, which is not the answer", s, out)
			}
			return nil
		case ":save FILE":
			b, _ := os.ReadFile(h.Sub("work", fmt.Sprintf("f%d.alda", k)))
			if string(b) != fmt.Sprintf("text %d", n) {
				return fmt.Errorf("%q writes %q, expected %q", s, b, fmt.Sprintf("text %d", n))
			}
		}
		if out != want {
			return fmt.Errorf("%q prints %q, expected %q", s, out, want)
		}
		return nil
	}
	if out, err := p.Do(":help help"); err != nil || complaint.MatchString(out) {
		return fmt.Errorf("at the start: %v %q", err, out)
	}
	if err := good(":save FILE"); err != nil {
		return err
	}
	f.mu.Lock()
	f.hold = len(c.Ask)
	f.mu.Unlock()
	for _, s := range c.Ask {
		before := box.Files(h.Sub("work"))[fmt.Sprintf("f%d.alda", k)]
		out, err := p.Do(line(s))
		if err != nil {
			return err
		}
		if !complaint.MatchString(out) {
			return fmt.Errorf("%q is not answered in time, and no error is reported: %q", s, out)
		}
		if x := box.Files(h.Sub("work"))[fmt.Sprintf("f%d.alda", k)]; x != before {
			return fmt.Errorf("%q is not answered in time, and the file is now %q", s, x)
		}
	}
	if !c.Glue {
		f.mu.Lock()
		for _, b := range f.held {
			f.conn.Write(b)
			time.Sleep(time.Millisecond)
		}
		f.held = nil
		f.mu.Unlock()
	}
	for _, s := range c.Then {
		if err := good(s); err != nil {
			return fmt.Errorf("after %q, answered too late (together with the next answer: %v): %v", c.Ask, c.Glue, err)
		}
	}
	return p.Quit("quit")
}

func init() {
	vp.Add("P33", "gone", 48, 600, func(t *rapid.T) *Gone {
		talk := genTalk(t)
		c := &Gone{Files: talk.Files}
		for i, a := range talk.T {
			if i%3 == 0 && len(c.Before) < 4 {
				c.Before = append(c.Before, a)
			}
		}
		c.Before = append(c.Before, Typed{Do: "save", File: "a.alda"})
		for i, n := 0, rapid.IntRange(1, 6).Draw(t, "after"); i < n; i++ {
			a := Typed{Do: rapid.SampledFrom([]string{"save", "save", "load", "export", "new-score", "replay", "stop", ":score", ":score data", ":score info", ":parts", ":version", ":instruments", ":help", "eval-and-play", ":help nosuch", ""}).Draw(t, "do")}
			switch a.Do {
			case "save", "load":
				a.File = rapid.SampledFrom([]string{"", "a.alda", "b.alda", "new.alda", "sub dir/x.alda"}).Draw(t, "file")
			case "export":
				a.File = rapid.SampledFrom([]string{"a.mid", "a.alda"}).Draw(t, "file")
			case "eval-and-play":
				a.Code = rapid.SampledFrom([]string{"piano: c", "c", "]", "violin: c d e"}).Draw(t, "code")
			}
			c.After = append(c.After, a)
		}
		return c
	}, gone, vp.Flaky())
	vp.Add("P33", "unanswered", 1, 12, func(t *rapid.T) []Late {
		out := []Late{}
		lines := []string{":score", ":instruments", "c d e", ":version", ":save FILE"}
		for i := 0; i < 4; i++ {
			c := Late{Glue: i%2 == 0}
			n := 1
			if i == 3 && vp.Thorough() {
				n = 2
			}
			for k := 0; k < n; k++ {
				c.Ask = append(c.Ask, rapid.SampledFrom(append(lines, ":new", ":stop", ":play")).Draw(t, "ask"))
			}
			c.Then = rapid.SliceOfN(rapid.SampledFrom(lines), 2, 5).Draw(t, "then")
			out = append(out, c)
		}
		return out
	}, func(cs []Late, r *vp.R) error {
		r.Sample(fmt.Sprintf("%v", cs))
		r.NonTrivial()
		h := box.NewHome("late")
		pl := box.NewPlayer(h.Cache(), "abc", "ready")
		defer pl.Close()
		errs := make([]error, len(cs))
		var wg sync.WaitGroup
		for i := range cs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				errs[i] = cs[i].run(h, i)
			}(i)
		}
		wg.Wait()
		for _, err := range errs {
			if err != nil {
				return err
			}
		}
		return nil
	}, vp.Flaky())
}
