package box

import (
	"encoding/json"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"alda.io/client/generated"
	"alda.io/client/zzverif/oscd"
	"alda.io/client/zzverif/vp"
)

// Player stands in for an alda-player process: it listens for messages and
// writes down what it is told.
type Player struct {
	ID, File string
	dir      string
	Port     int
	State    string
	ln       net.Listener
	mu       sync.Mutex
	msgs     []oscd.Msg
	bad      error
	pings    int
	n        int
	stop     chan bool
	// Export, when set, is what the player does when told to export.
	Export func(file string)
	// Lives makes the player do as a real one does: it is active once it has
	// something to play, and when it is shut down, another one takes its place
	// (which listens to the same port, to keep things simple).
	Lives int
	// Mortal makes the player disappear when it is shut down, after some time.
	// It still writes down what it is told.
	Mortal bool
	Linger time.Duration
}

// StateDir is where players of this version register.
func StateDir(cache string) string {
	return filepath.Join(cache, "alda", "state", "players", generated.ClientVersion)
}

// NewPlayer starts a player which registers below an XDG cache directory.
func NewPlayer(cache, id, state string) *Player {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		vp.Infra(err)
	}
	p := &Player{ID: id, State: state, ln: ln, Port: ln.Addr().(*net.TCPAddr).Port, stop: make(chan bool)}
	p.dir = StateDir(cache)
	p.Register()
	go p.serve()
	go func() {
		for {
			select {
			case <-p.stop:
				return
			case <-time.After(10 * time.Second):
				now := time.Now()
				p.mu.Lock()
				os.Chtimes(p.File, now, now)
				p.mu.Unlock()
			}
		}
	}()
	return p
}

// Register writes the player's state record.
func (p *Player) Register() {
	b, _ := json.Marshal(map[string]interface{}{"state": p.State, "port": p.Port, "expiry": time.Now().Add(time.Hour).UnixMilli(), "pid": os.Getpid()})
	if err := os.MkdirAll(p.dir, 0755); err != nil {
		vp.Infra(err)
	}
	p.File = filepath.Join(p.dir, p.ID+".json")
	tmp := filepath.Join(filepath.Dir(filepath.Dir(p.dir)), p.ID+".tmp")
	if err := os.WriteFile(tmp, b, 0644); err != nil {
		vp.Infra(err)
	}
	if err := os.Rename(tmp, p.File); err != nil {
		vp.Infra(err)
	}
}

// Close ends the player and its record.
func (p *Player) Close() {
	close(p.stop)
	p.ln.Close()
	os.Remove(p.File)
}

func (p *Player) serve() {
	for {
		c, err := p.ln.Accept()
		if err != nil {
			return
		}
		c.SetReadDeadline(time.Now().Add(20 * time.Second))
		b, err := io.ReadAll(c)
		c.Close()
		var ms []oscd.Msg
		if err == nil && len(b) > 0 {
			ms, err = oscd.Decode(b)
		}
		p.mu.Lock()
		if err != nil && p.bad == nil {
			p.bad = fmt.Errorf("the player received something that is no message: %v", err)
		}
		for _, m := range ms {
			if m.Addr == "/ping" {
				p.pings++
				continue
			}
			if m.Addr == "/system/midi/export" && len(m.Args) == 1 && p.Export != nil {
				if f, ok := m.Args[0].(string); ok {
					go p.Export(f)
				}
			}
			p.msgs = append(p.msgs, m)
			if p.Mortal && !strings.HasPrefix(m.Addr, "/vp/") {
				if m.Addr == "/system/shutdown" {
					f := p.File
					time.AfterFunc(p.Linger, func() { os.Remove(f) })
				} else if p.State == "ready" {
					p.State = "active"
					p.Register()
				}
			}
			if p.Lives > 0 && !strings.HasPrefix(m.Addr, "/vp/") {
				if m.Addr == "/system/shutdown" {
					os.Remove(p.File)
					p.Lives++
					p.ID, p.State = fmt.Sprintf("%s%d", p.ID[:3], p.Lives), "ready"
					p.Register()
				} else if p.State == "ready" {
					p.State = "active"
					p.Register()
				}
			}
		}
		p.mu.Unlock()
	}
}

// SetExport says what the player does when told to export.
func (p *Player) SetExport(f func(file string)) {
	p.mu.Lock()
	p.Export = f
	p.mu.Unlock()
}

// Pings says how many pings were received.
func (p *Player) Pings() int {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.pings
}

// Take returns all that was received before now, except pings.
func (p *Player) Take() ([]oscd.Msg, error) {
	p.mu.Lock()
	p.n++
	mark := fmt.Sprintf("/vp/%d", p.n)
	p.mu.Unlock()
	c, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", p.Port))
	if err != nil {
		vp.Infra(err)
	}
	pad := func(s string) string {
		s += "\x00"
		for len(s)%4 != 0 {
			s += "\x00"
		}
		return s
	}
	c.Write([]byte(pad(mark) + pad(",")))
	c.Close()
	for end := time.Now().Add(60 * time.Second); ; time.Sleep(200 * time.Microsecond) {
		p.mu.Lock()
		for i, m := range p.msgs {
			if m.Addr == mark {
				out := append([]oscd.Msg{}, p.msgs[:i]...)
				p.msgs = append([]oscd.Msg{}, p.msgs[i+1:]...)
				bad := p.bad
				p.bad = nil
				p.mu.Unlock()
				// Marks of other calls are left out.
				keep := out[:0]
				for _, m := range out {
					if !strings.HasPrefix(m.Addr, "/vp/") {
						keep = append(keep, m)
					}
				}
				return keep, bad
			}
		}
		p.mu.Unlock()
		if time.Now().After(end) {
			vp.Infra(fmt.Errorf("the stand-in player is stuck"))
		}
	}
}

// Dead is a port which is taken, but where nobody answers.
type Dead struct {
	fd   int
	Port int
}

// NewDead takes a port.
func NewDead() *Dead {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err == nil {
		err = syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}})
	}
	var sa syscall.Sockaddr
	if err == nil {
		sa, err = syscall.Getsockname(fd)
	}
	if err != nil {
		vp.Infra(err)
	}
	return &Dead{fd, sa.(*syscall.SockaddrInet4).Port}
}

// Close frees the port.
func (d *Dead) Close() { syscall.Close(d.fd) }

// Record writes a state record.
func Record(cache, id, state string, port int) string {
	b, _ := json.Marshal(map[string]interface{}{"state": state, "port": port, "expiry": time.Now().Add(time.Hour).UnixMilli(), "pid": os.Getpid()})
	if err := os.MkdirAll(StateDir(cache), 0755); err != nil {
		vp.Infra(err)
	}
	f := filepath.Join(StateDir(cache), id+".json")
	if err := os.WriteFile(f, b, 0644); err != nil {
		vp.Infra(err)
	}
	return f
}

// Midi is a MIDI file with some tracks.
func Midi(tracks, size int) []byte {
	b := []byte{'M', 'T', 'h', 'd', 0, 0, 0, 6, 0, 1, byte(tracks >> 8), byte(tracks), 0, 128}
	for i := 0; i < tracks; i++ {
		d := []byte{}
		for len(d) < size {
			d = append(d, 0, 0x90, 60, byte(len(d)%127), 10, 0x80, 60, 0)
		}
		d = append(d, 0, 0xff, 0x2f, 0)
		b = append(b, 'M', 'T', 'r', 'k', byte(len(d)>>24), byte(len(d)>>16), byte(len(d)>>8), byte(len(d)))
		b = append(b, d...)
	}
	return b
}

// WriteSlowly writes a file in steps, as a player does.
func WriteSlowly(file string, data []byte, pause time.Duration) {
	f, err := os.Create(file)
	if err != nil {
		return
	}
	defer f.Close()
	for k := 0; k < 3; k++ {
		time.Sleep(pause)
		f.Write(data[len(data)*k/3 : len(data)*(k+1)/3])
	}
}
