package box

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"alda.io/client/zzverif/vp"
)

// Result is what a run of the program came to.
type Result struct {
	Code     int
	Out, Err string
	Dead     bool // ended by a signal
}

func (r Result) String() string {
	cut := func(s string) string {
		if len(s) > 400 {
			return s[:400] + "…"
		}
		return s
	}
	return fmt.Sprintf("exit status %d, output %q, errors %q", r.Code, cut(r.Out), cut(r.Err))
}

// Cmd is one run of the program.
type Cmd struct {
	Args  []string
	Stdin *string // nil: nothing is piped in
	Env   []string
	Dir   string
	Exe   string // another copy of the program
	User  int    // the user that runs it, if not 0
	Limit int    // a limit for the size of files, in KiB (0: none, -1: nothing can be written)
	All   bool   // wait for what it has started, too
}

// Run runs the program to its end.
func (h *Home) Run(c Cmd) Result {
	ctx, cancel := context.WithTimeout(context.Background(), 3*Patience)
	defer cancel()
	exe := c.Exe
	if exe == "" {
		exe = Alda()
	}
	args := append([]string{exe}, c.Args...)
	if c.Limit != 0 {
		k := c.Limit
		if k < 0 {
			k = 0
		}
		args = append([]string{"/bin/bash", "-c", fmt.Sprintf(`ulimit -c 0; ulimit -f %d; exec "$@"`, k), "sh"}, args...)
	}
	cmd := exec.CommandContext(ctx, args[0], args[1:]...)
	cmd.Env = h.Env(append([]string{"ALDA_DISABLE_TELEMETRY=yes"}, c.Env...)...)
	cmd.Dir = c.Dir
	if cmd.Dir == "" {
		cmd.Dir = h.Sub("work")
	}
	if c.User != 0 {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: uint32(c.User), Gid: uint32(c.User)}}
	}
	if c.All {
		adopt()
		if cmd.SysProcAttr == nil {
			cmd.SysProcAttr = &syscall.SysProcAttr{}
		}
		cmd.SysProcAttr.Setpgid = true
	}
	if c.Stdin != nil {
		cmd.Stdin = strings.NewReader(*c.Stdin)
	}
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	cmd.WaitDelay = 5 * time.Second
	err := cmd.Start()
	if err == nil {
		idle := make(chan bool)
		late := time.AfterFunc(2*Patience, func() {
			if Idle(cmd.Process.Pid) {
				close(idle)
				cmd.Process.Kill()
			}
		})
		err = cmd.Wait()
		late.Stop()
		select {
		case <-idle:
			panic(fmt.Errorf("alda %.200q does not end, it waits for nothing: output %.500q, errors %.500q", c.Args, out.String(), errs.String()))
		default:
		}
	}
	r := Result{Out: out.String(), Err: errs.String()}
	if ctx.Err() != nil {
		vp.Infra(fmt.Errorf("alda %.200q does not end", c.Args))
	}
	if c.All {
		for {
			if _, err := syscall.Wait4(-cmd.Process.Pid, nil, 0, nil); err != nil && err != syscall.EINTR {
				break
			}
		}
	}
	if err != nil {
		ee, ok := err.(*exec.ExitError)
		if !ok {
			vp.Infra(err)
		}
		r.Code = ee.ExitCode()
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			r.Dead = true
		}
	}
	return r
}

// adopt makes this process the parent of what its children leave behind.
func adopt() {
	const PR_SET_CHILD_SUBREAPER = 36
	if _, _, e := syscall.RawSyscall6(syscall.SYS_PRCTL, PR_SET_CHILD_SUBREAPER, 1, 0, 0, 0, 0); e != 0 {
		vp.Infra(e)
	}
}

// Idle watches a process for some time and says whether it did next to nothing,
// although the machine would have let it.
func Idle(pid int) bool {
	used := func() float64 {
		b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
		if err != nil {
			return -1
		}
		f := strings.Fields(string(b[bytes.LastIndexByte(b, ')')+1:]))
		if len(f) < 13 || f[0] == "R" || f[0] == "D" || f[0] == "T" || f[0] == "Z" {
			return -1
		}
		var u, s float64
		fmt.Sscan(f[11], &u)
		fmt.Sscan(f[12], &s)
		return (u + s) / 100
	}
	before := used()
	for i := 0; i < 200; i++ {
		t := time.Now()
		time.Sleep(50 * time.Millisecond)
		if time.Since(t) > time.Second {
			return false
		}
	}
	after := used()
	return before >= 0 && after >= 0 && after-before < 0.3
}

// Both runs commands at the same time.
func (h *Home) Both(cs ...Cmd) []Result {
	out := make([]Result, len(cs))
	done := make(chan interface{})
	for i := range cs {
		go func(i int) {
			defer func() { done <- recover() }()
			out[i] = h.Run(cs[i])
		}(i)
	}
	var bad interface{}
	for range cs {
		if x := <-done; x != nil {
			bad = x
		}
	}
	if bad != nil {
		panic(bad)
	}
	return out
}

// Files lists what is below a directory, with contents.
func Files(dir string) map[string]string {
	out := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || p == dir {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		switch {
		case fi.IsDir():
			out[rel] = "directory"
		case fi.Mode()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			out[rel] = "link to " + l
		default:
			b, _ := os.ReadFile(p)
			out[rel] = fmt.Sprintf("%v:%s", fi.Mode().Perm(), b)
		}
		return nil
	})
	return out
}

// SameFiles compares the contents of directories, except for some.
func SameFiles(want, got map[string]string, except ...string) error {
	ks := []string{}
	for k := range want {
		ks = append(ks, k)
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
next:
	for _, k := range ks {
		for _, x := range except {
			if k == x {
				continue next
			}
		}
		w, ok := want[k]
		if !ok {
			return fmt.Errorf("there is a new file %q", k)
		}
		g, ok := got[k]
		if !ok {
			return fmt.Errorf("the file %q is gone", k)
		}
		if w != g {
			return fmt.Errorf("the file %q has changed from %.300q to %.300q", k, w, g)
		}
	}
	return nil
}
