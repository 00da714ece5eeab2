package box

import (
	"bufio"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"alda.io/client/zzverif/vp"
)

// Patience is how long an answer may take before it counts as missing. The
// machine may be busy, so it is long.
const Patience = 40 * time.Second

// Home is a scratch directory tree for one alda user.
type Home struct {
	Dir  string
	More []string // what else is in the environment
}

// NewHome makes a fresh one.
func NewHome(name string) *Home {
	d := filepath.Join(os.Getenv("VP_DIR"), fmt.Sprintf("box-%s-%s", os.Getenv("VP_WORKER"), name))
	if err := os.RemoveAll(d); err != nil {
		vp.Infra(err)
	}
	for _, s := range []string{"cache", "config", "data", "home", "work", "tmp"} {
		if err := os.MkdirAll(filepath.Join(d, s), 0755); err != nil {
			vp.Infra(err)
		}
	}
	return &Home{Dir: d}
}

// Sub is a path below the home.
func (h *Home) Sub(s ...string) string { return filepath.Join(append([]string{h.Dir}, s...)...) }

// Cache is the XDG cache directory.
func (h *Home) Cache() string { return h.Sub("cache") }

// Env is the environment for alda.
func (h *Home) Env(more ...string) []string {
	return append([]string{"PATH=/usr/bin:/bin", "HOME=" + h.Sub("home"), "LANG=C.UTF-8", "TERM=dumb", "NO_COLOR=1",
		"TMPDIR=" + h.Sub("tmp"), "XDG_CACHE_HOME=" + h.Sub("cache"), "XDG_CONFIG_HOME=" + h.Sub("config"),
		"XDG_DATA_HOME=" + h.Sub("data"), "ALDA_DISABLE_SPAWNING=yes", "GOTRACEBACK=single"}, append(append([]string{}, h.More...), more...)...)
}

// Alda is the program.
func Alda() string { return os.Getenv("VP_ALDA") }

// FreePort finds a port nobody listens on.
func FreePort() int {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		vp.Infra(err)
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}

// Server is a running `alda repl --server`.
type Server struct {
	Home *Home
	Port int
	cmd  *exec.Cmd
	log  string
	gone chan bool
	err  error
}

// StartServer runs a server and waits until it can be reached.
func StartServer(h *Home) *Server {
	for try := 0; ; try++ {
		s := &Server{Home: h, Port: FreePort(), log: h.Sub("server.log"), gone: make(chan bool)}
		f, err := os.Create(s.log)
		if err != nil {
			vp.Infra(err)
		}
		s.cmd = exec.Command(Alda(), "repl", "--server", "--port", fmt.Sprint(s.Port))
		s.cmd.Env, s.cmd.Dir = h.Env("ALDA_DISABLE_TELEMETRY=yes"), h.Sub("work")
		s.cmd.Stdout, s.cmd.Stderr = f, f
		if err := s.cmd.Start(); err != nil {
			vp.Infra(err)
		}
		f.Close()
		go func() {
			s.err = s.cmd.Wait()
			close(s.gone)
		}()
		for end := time.Now().Add(Patience); time.Now().Before(end) && s.Alive(); time.Sleep(5 * time.Millisecond) {
			if c, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", s.Port)); err == nil {
				c.Close()
				if s.Alive() {
					return s
				}
			}
		}
		s.Kill()
		if try == 4 {
			b, _ := os.ReadFile(s.log)
			vp.Infra(fmt.Errorf("the server does not start: %s", b))
		}
	}
}

// Alive says whether the process runs.
func (s *Server) Alive() bool {
	select {
	case <-s.gone:
		return false
	default:
		return true
	}
}

// Wait waits for the process to end.
func (s *Server) Wait(d time.Duration) bool {
	select {
	case <-s.gone:
		return true
	case <-time.After(d):
		return false
	}
}

// Kill ends the process.
func (s *Server) Kill() {
	s.cmd.Process.Kill()
	<-s.gone
}

// Signal sends a signal to the process.
func (s *Server) Signal(sig os.Signal) { s.cmd.Process.Signal(sig) }

// Death describes how the process ended.
func (s *Server) Death() error {
	b, _ := os.ReadFile(s.log)
	t := string(b)
	if i := strings.Index(t, "panic:"); i >= 0 {
		t = t[i:]
	} else if i := strings.Index(t, "fatal error:"); i >= 0 {
		t = t[i:]
	}
	if len(t) > 1500 {
		t = t[:1500]
	}
	return fmt.Errorf("the server died (%v): %s", s.err, t)
}

// Conn is a client's connection.
type Conn struct {
	S *Server
	c net.Conn
	r *bufio.Reader
}

// Dial connects.
func (s *Server) Dial() (*Conn, error) {
	c, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", s.Port))
	if err != nil {
		if s.Wait(time.Second) {
			return nil, s.Death()
		}
		return nil, fmt.Errorf("cannot connect to the server: %v", err)
	}
	return &Conn{s, c, bufio.NewReader(c)}, nil
}

// Close disconnects.
func (c *Conn) Close() { c.c.Close() }

// Write sends raw bytes.
func (c *Conn) Write(b []byte) error {
	c.c.SetWriteDeadline(time.Now().Add(Patience))
	_, err := c.c.Write(b)
	return err
}

// Read waits for one message.
func (c *Conn) Read(d time.Duration) (map[string]interface{}, error) {
	c.c.SetReadDeadline(time.Now().Add(d))
	v, err := Decode(c.r)
	if err != nil {
		if c.S.Wait(200 * time.Millisecond) {
			return nil, c.S.Death()
		}
		return nil, err
	}
	m, ok := v.(map[string]interface{})
	if !ok {
		return nil, fmt.Errorf("the reply is no map but %T", v)
	}
	return m, nil
}

// Quiet checks that nothing is there to be read.
func (c *Conn) Quiet() error {
	c.c.SetReadDeadline(time.Now().Add(2 * time.Millisecond))
	b, err := c.r.Peek(1)
	if err == nil {
		return fmt.Errorf("an unexpected byte %q from the server", b)
	}
	return nil
}

// Ask sends a request and waits for the reply.
func (c *Conn) Ask(req map[string]interface{}) (map[string]interface{}, error) {
	if err := c.Write(Encode(req)); err != nil {
		if c.S.Wait(time.Second) {
			return nil, c.S.Death()
		}
		return nil, fmt.Errorf("cannot send the request: %v", err)
	}
	m, err := c.Read(Patience)
	if err != nil {
		return nil, fmt.Errorf("no reply to %v: %w", req["op"], err)
	}
	return m, nil
}

// Status is the list of a reply's status words.
func Status(m map[string]interface{}) []string {
	out := []string{}
	l, _ := m["status"].([]interface{})
	for _, x := range l {
		s, _ := x.(string)
		out = append(out, s)
	}
	return out
}

// Has says whether a reply has a status word.
func Has(m map[string]interface{}, w string) bool {
	for _, s := range Status(m) {
		if s == w {
			return true
		}
	}
	return false
}

// Problems are what a reply complains about.
func Problems(m map[string]interface{}) []string {
	out := []string{}
	l, _ := m["problems"].([]interface{})
	for _, x := range l {
		s, _ := x.(string)
		out = append(out, s)
	}
	return out
}

// CloseWrite tells the server that no more requests will come.
func (c *Conn) CloseWrite() { c.c.(*net.TCPConn).CloseWrite() }

// Reset breaks the connection.
func (c *Conn) Reset() {
	c.c.(*net.TCPConn).SetLinger(0)
	c.c.Close()
}
