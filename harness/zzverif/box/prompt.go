package box

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"time"

	"alda.io/client/zzverif/vp"
)

// Prompt is a running `alda repl --client`, whose lines are typed by us.
type Prompt struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  chan string
	gone chan bool
	err  error
	n    int
	log  []string
}

// StartPrompt runs a client of the server at a port.
func (h *Home) StartPrompt(port int) *Prompt {
	p := &Prompt{out: make(chan string, 100000), gone: make(chan bool)}
	p.cmd = exec.Command(Alda(), "repl", "--client", "--port", fmt.Sprint(port))
	p.cmd.Env, p.cmd.Dir = h.Env("ALDA_DISABLE_TELEMETRY=yes"), h.Sub("work")
	r, w, err := os.Pipe()
	if err != nil {
		vp.Infra(err)
	}
	p.cmd.Stdout, p.cmd.Stderr = w, w
	if p.in, err = p.cmd.StdinPipe(); err != nil {
		vp.Infra(err)
	}
	if err := p.cmd.Start(); err != nil {
		vp.Infra(err)
	}
	w.Close()
	go func() {
		b := bufio.NewReader(r)
		for {
			s, err := b.ReadString('\n')
			if s != "" {
				p.out <- s
			}
			if err != nil {
				break
			}
		}
		r.Close()
		p.err = p.cmd.Wait()
		close(p.out)
		close(p.gone)
	}()
	return p
}

// Do types a line and returns what is printed until the prompt takes another.
func (p *Prompt) Do(line string) (string, error) {
	p.n++
	mark := fmt.Sprintf("vpmark%d", p.n)
	if _, err := io.WriteString(p.in, line+"\n:help "+mark+"\n"); err != nil {
		return "", fmt.Errorf("the prompt has ended: %v", err)
	}
	out := ""
	end := time.After(3 * Patience)
	for {
		select {
		case s, ok := <-p.out:
			if !ok {
				return "", fmt.Errorf("the prompt ended (%v) after %q and printed %.1500q", p.err, line, out)
			}
			if strings.Contains(s, "no documentation available for '"+mark+"'") {
				return out, nil
			}
			out += s
		case <-end:
			return "", fmt.Errorf("the prompt does not take another line after %q; it printed %.1500q", line, out)
		}
	}
}

// Quit types a line that ends the prompt, and waits.
func (p *Prompt) Quit(line string) error {
	io.WriteString(p.in, line+"\n")
	defer p.Kill()
	select {
	case <-p.gone:
		if p.err != nil {
			return fmt.Errorf("%q ends the prompt with %v", line, p.err)
		}
		return nil
	case <-time.After(Patience):
		return fmt.Errorf("%q does not end the prompt", line)
	}
}

// Kill ends it.
func (p *Prompt) Kill() {
	p.in.Close()
	p.cmd.Process.Kill()
	for range p.out {
	}
	<-p.gone
}
