package pbin

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"alda.io/client/zzverif/box"
	"alda.io/client/zzverif/vp"
	"pgregory.net/rapid"
)

// Birth is something that happens to the servers.
type Birth struct {
	Do  string
	Dir int
	How int
}

// Life is a history of servers that start and end.
type Life struct {
	T []Birth
}

func (c Life) String() string {
	l := []string{}
	for _, t := range c.T {
		l = append(l, fmt.Sprintf("%s %d/%d", t.Do, t.Dir, t.How))
	}
	return strings.Join(l, "; ")
}

type living struct {
	p    *box.Proc
	dir  int
	port int
	id   string
	both bool
}

// listed are the servers that alda ps lists, by process.
func listed(h *box.Home) (map[int][]string, error) {
	res := h.Run(box.Cmd{Args: []string{"ps"}})
	if res.Code != 0 || strings.TrimSpace(res.Err) != "" {
		return nil, fmt.Errorf("alda ps: %v", res)
	}
	out := map[int][]string{}
	for i, l := range strings.Split(strings.TrimSuffix(res.Out, "\n"), "\n") {
		f := strings.Split(l, "\t")
		if i == 0 || len(f) != 6 || f[4] != "repl-server" {
			continue
		}
		pid, err := strconv.Atoi(f[5])
		if err != nil || out[pid] != nil {
			return nil, fmt.Errorf("alda ps: %v", res)
		}
		out[pid] = f
	}
	return out, nil
}

const portFile = ".alda-nrepl-port"

func lifecycle(c Life, r *vp.R) error {
	r.Sample(c.String())
	h := box.NewHome("life")
	defer os.RemoveAll(h.Dir)
	dirs := []string{}
	for i := 0; i < 3; i++ {
		dirs = append(dirs, h.Sub("work", fmt.Sprintf("d%d", i)))
		if err := os.Mkdir(dirs[i], 0755); err != nil {
			vp.Infra(err)
		}
	}
	alive, killed := []*living{}, map[int]bool{}
	defer func() {
		for _, s := range alive {
			s.p.Kill()
		}
	}()
	files := map[int]string{} // what the port files should be
	n := 0
	start := func(t Birth) error {
		for try := 0; ; try++ {
			port, args := 0, []string{"repl"}
			if t.Do == "serve" {
				args = append(args, "--server")
			} else if t.How&1 != 0 {
				args = append(args, "--server", "--client")
			}
			if t.How&2 != 0 {
				port = box.FreePort()
				args = append(args, "--port", fmt.Sprint(port))
			}
			n++
			s := &living{p: h.Launch(dirs[t.Dir], h.Sub(fmt.Sprintf("log%d", n)), args...), dir: t.Dir, both: t.Do == "both"}
			alive = append(alive, s)
			for end := time.Now().Add(box.Patience); ; time.Sleep(10 * time.Millisecond) {
				l, err := listed(h)
				if err != nil {
					return err
				}
				if f := l[s.p.Pid()]; f != nil {
					s.id = f[0]
					s.port, err = strconv.Atoi(f[1])
					if err != nil || s.port <= 0 || port != 0 && s.port != port {
						return fmt.Errorf("alda %v: it is listed as %v", args, f)
					}
					break
				}
				if s.p.Ended(0) {
					break
				}
				if time.Now().After(end) {
					return fmt.Errorf("alda %v: it isn't listed, and prints %.500q", args, s.p.Output())
				}
			}
			if s.port == 0 {
				alive = alive[:len(alive)-1]
				if strings.Contains(s.p.Output(), "address already in use") {
					if try == 5 {
						vp.Infra(fmt.Errorf("no port is free: %s", s.p.Output()))
					}
					continue
				}
				return fmt.Errorf("alda %v: it ends (%v) and prints %.500q", args, s.p.Err(), s.p.Output())
			}
			files[t.Dir] = fmt.Sprint(s.port)
			return nil
		}
	}
	look := func() error {
		l, err := listed(h)
		if err != nil {
			return err
		}
		ids := map[string]bool{}
		for _, s := range alive {
			f := l[s.p.Pid()]
			if f == nil {
				if ids[s.id] {
					return nil // two servers with the same ID: one in 17576
				}
				return fmt.Errorf("the server of process %d isn't listed: %v", s.p.Pid(), l)
			}
			if f[0] != s.id || f[1] != fmt.Sprint(s.port) {
				return fmt.Errorf("the server of process %d with ID %s and port %d is listed as %v", s.p.Pid(), s.id, s.port, f)
			}
			ids[s.id] = true
			delete(l, s.p.Pid())
			if err := well(&box.Server{Home: h, Port: s.port}); err != nil {
				if s.p.Ended(time.Second) {
					return fmt.Errorf("the server of process %d has ended (%v): %.1000s", s.p.Pid(), s.p.Err(), s.p.Output())
				}
				return fmt.Errorf("port %d, which is listed: %w", s.port, err)
			}
		}
		for pid, f := range l {
			if !killed[pid] {
				return fmt.Errorf("%v is listed, and no such server is running", f)
			}
		}
		for i, d := range dirs {
			have := []string{}
			fs, _ := os.ReadDir(d)
			for _, f := range fs {
				b, _ := os.ReadFile(filepath.Join(d, f.Name()))
				have = append(have, f.Name()+": "+string(b))
			}
			sort.Strings(have)
			want := ""
			if files[i] != "" {
				want = portFile + ": " + files[i]
			}
			if x := strings.Join(have, ", "); x != want {
				return fmt.Errorf("directory %d should have [%s] in it, and has [%s]", i, want, x)
			}
		}
		return nil
	}
	ends := 0
	for i, t := range c.T {
		what := fmt.Sprintf("step %d (%s)", i+1, Life{[]Birth{t}})
		switch t.Do {
		case "serve", "both":
			if err := start(t); err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
		case "busy":
			if len(alive) == 0 {
				continue
			}
			args := []string{"repl", "--port", fmt.Sprint(alive[t.How%len(alive)].port)}
			if t.How&16 != 0 {
				args = append(args, "--server")
			}
			none := ""
			res := h.Run(box.Cmd{Args: args, Dir: dirs[t.Dir], Stdin: &none})
			if err := honest(fmt.Sprintf("alda %v, where the port is taken,", args), false, res); err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
		case "end":
			if len(alive) == 0 {
				continue
			}
			k := t.Dir * 7 % len(alive)
			s := alive[k]
			clean, how := true, ""
			ways := []string{"SIGTERM", "SIGINT", "SIGKILL"}
			if s.both {
				ways = append(ways, "EOF", ":quit", "quit", "exit", "bye", ":quit", "EOF")
			}
			switch how = ways[t.How%len(ways)]; how {
			case "SIGTERM":
				s.p.Signal(syscall.SIGTERM)
			case "SIGINT":
				s.p.Signal(syscall.SIGINT)
			case "SIGKILL":
				s.p.Signal(syscall.SIGKILL)
				clean = false
			case "EOF":
				s.p.EOF()
			default:
				s.p.Type(how + "\n")
			}
			if !s.p.Ended(box.Patience) {
				if !box.Idle(s.p.Pid()) {
					vp.Infra(fmt.Errorf("the server is busy and doesn't end"))
				}
				return fmt.Errorf("%s: a server (with a prompt: %v) isn't ended by %s", what, s.both, how)
			}
			if s.p.Err() != nil && !strings.HasPrefix(how, "SIG") {
				return fmt.Errorf("%s: %s ends it with %v: %.500q", what, how, s.p.Err(), s.p.Output())
			}
			if x := s.p.Output(); strings.Contains(x, "goroutine ") {
				return fmt.Errorf("%s: %s ends it so: %.1500s", what, how, x)
			}
			alive = append(alive[:k:k], alive[k+1:]...)
			if clean {
				ends++
				if files[s.dir] == fmt.Sprint(s.port) {
					files[s.dir] = ""
				}
			} else {
				killed[s.p.Pid()] = true
			}
		}
		if err := look(); err != nil {
			return fmt.Errorf("after %s: %w", what, err)
		}
	}
	if ends > 0 && len(alive) > 0 {
		r.NonTrivial()
	}
	return nil
}

// renewal checks that the record of a server that runs doesn't become stale.
func renewal(c Life, r *vp.R) error {
	r.Sample(c.String())
	r.NonTrivial()
	h := box.NewHome("life")
	defer os.RemoveAll(h.Dir)
	ps, was := []*box.Proc{}, map[int]string{}
	defer func() {
		for _, p := range ps {
			p.Kill()
		}
	}()
	for i, t := range c.T {
		args := []string{"repl"}
		if t.Do == "serve" {
			args = append(args, "--server")
		}
		ps = append(ps, h.Launch(h.Sub("work"), h.Sub(fmt.Sprintf("log%d", i)), args...))
	}
	row := func(i int) (string, error) {
		for end := time.Now().Add(box.Patience); ; time.Sleep(50 * time.Millisecond) {
			l, err := listed(h)
			if err != nil {
				return "", err
			}
			if f := l[ps[i].Pid()]; f != nil {
				return strings.Join(f, " "), nil
			}
			if ps[i].Ended(0) {
				if strings.Contains(ps[i].Output(), "address already in use") {
					vp.Infra(fmt.Errorf("no port is free: %s", ps[i].Output()))
				}
				return "", fmt.Errorf("server %d ends (%v) and prints %.500q", i, ps[i].Err(), ps[i].Output())
			}
			if time.Now().After(end) {
				return "", fmt.Errorf("server %d (%v) runs and isn't listed: %v", i, c.T[i], l)
			}
		}
	}
	record := func(i int) string {
		return filepath.Join(h.Cache(), "alda", "state", "repl-servers", strings.Fields(was[i])[0]+".json")
	}
	ids := map[string]bool{}
	for i := range ps {
		x, err := row(i)
		if err != nil {
			return err
		}
		was[i] = x
		if ids[strings.Fields(x)[0]] {
			return nil // one in 17576
		}
		ids[strings.Fields(x)[0]] = true
	}
	time.Sleep(200 * time.Millisecond)
	for i, t := range c.T {
		old := time.Now().Add(-time.Duration([]int{30, 100, 1000, 86400}[t.How%4]) * time.Second)
		os.Chtimes(record(i), old, old)
	}
	// Those that are stale are cleaned up by this.
	if _, err := listed(h); err != nil {
		return err
	}
	for i, t := range c.T {
		for end := time.Now().Add(box.Patience); ; time.Sleep(100 * time.Millisecond) {
			st, err := os.Stat(record(i))
			if err == nil && time.Since(st.ModTime()) < 25*time.Second {
				break
			}
			if time.Now().After(end) {
				return fmt.Errorf("server %d (%v) runs, and its record isn't renewed", i, t)
			}
		}
		x, err := row(i)
		if err != nil {
			return err
		}
		if x != was[i] {
			return fmt.Errorf("server %d (%v) is listed as %s, before that as %s", i, t, x, was[i])
		}
	}
	return nil
}

func init() {
	vp.Add("P36", "lifecycle", 240, 6000, func(t *rapid.T) Life {
		c := Life{}
		for n := rapid.IntRange(2, 10).Draw(t, "n"); n > 0; n-- {
			c.T = append(c.T, Birth{Do: rapid.SampledFrom([]string{"serve", "both", "both", "end", "end", "end", "busy"}).Draw(t, "do"),
				Dir: rapid.IntRange(0, 2).Draw(t, "dir"), How: rapid.IntRange(0, 31).Draw(t, "how")})
		}
		return c
	}, lifecycle, vp.Flaky())
	vp.Add("P36", "renewal", 8, 80, func(t *rapid.T) Life {
		c := Life{}
		for n := rapid.IntRange(4, 8).Draw(t, "n"); n > 0; n-- {
			c.T = append(c.T, Birth{Do: rapid.SampledFrom([]string{"serve", "both"}).Draw(t, "do"), How: rapid.IntRange(0, 3).Draw(t, "how")})
		}
		return c
	}, renewal, vp.Flaky())
}
