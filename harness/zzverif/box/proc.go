package box

import (
	"io"
	"os"
	"os/exec"
	"time"

	"alda.io/client/zzverif/vp"
)

// Proc is a run of the program that goes on.
type Proc struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	log  string
	gone chan bool
	err  error
}

// Launch starts the program in a directory. What it prints goes to a file.
func (h *Home) Launch(dir, log string, args ...string) *Proc {
	p := &Proc{log: log, gone: make(chan bool)}
	f, err := os.Create(log)
	if err != nil {
		vp.Infra(err)
	}
	defer f.Close()
	p.cmd = exec.Command(Alda(), args...)
	p.cmd.Env, p.cmd.Dir, p.cmd.Stdout, p.cmd.Stderr = h.Env("ALDA_DISABLE_TELEMETRY=yes"), dir, f, f
	if p.in, err = p.cmd.StdinPipe(); err != nil {
		vp.Infra(err)
	}
	if err := p.cmd.Start(); err != nil {
		vp.Infra(err)
	}
	go func() {
		p.err = p.cmd.Wait()
		close(p.gone)
	}()
	return p
}

// Pid is its process ID.
func (p *Proc) Pid() int { return p.cmd.Process.Pid }

// Signal sends it a signal.
func (p *Proc) Signal(s os.Signal) { p.cmd.Process.Signal(s) }

// Type writes to its input.
func (p *Proc) Type(s string) { io.WriteString(p.in, s) }

// EOF ends its input.
func (p *Proc) EOF() { p.in.Close() }

// Output is what it has printed.
func (p *Proc) Output() string {
	b, _ := os.ReadFile(p.log)
	return string(b)
}

// Ended says whether it has ended after some time.
func (p *Proc) Ended(d time.Duration) bool {
	select {
	case <-p.gone:
		return true
	default:
	}
	select {
	case <-p.gone:
		return true
	case <-time.After(d):
		return false
	}
}

// Err is how it ended.
func (p *Proc) Err() error { return p.err }

// Kill ends it.
func (p *Proc) Kill() {
	p.cmd.Process.Kill()
	<-p.gone
	p.in.Close()
}
