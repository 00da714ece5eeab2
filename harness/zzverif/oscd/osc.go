// Package oscd decodes Open Sound Control packets, independently of the library
// alda uses, and models what a player does with the messages.
package oscd

import (
	"encoding/binary"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

// Msg is one OSC message.
type Msg struct {
	Addr string
	Args []interface{} // int32, float32 or string
}

func (m Msg) String() string { return fmt.Sprintf("%s %v", m.Addr, m.Args) }

func str(b []byte) (string, []byte, error) {
	i := 0
	for i < len(b) && b[i] != 0 {
		i++
	}
	if i == len(b) {
		return "", nil, fmt.Errorf("osc: string without end")
	}
	n := i/4*4 + 4
	if n > len(b) {
		return "", nil, fmt.Errorf("osc: string without padding")
	}
	return string(b[:i]), b[n:], nil
}

// Decode reads a packet: a message or a bundle, with its bundles flattened.
func Decode(b []byte) ([]Msg, error) {
	if len(b) >= 8 && string(b[:8]) == "#bundle\x00" {
		if len(b) < 16 {
			return nil, fmt.Errorf("osc: bundle without time")
		}
		b = b[16:]
		out := []Msg{}
		for len(b) > 0 {
			if len(b) < 4 {
				return nil, fmt.Errorf("osc: size cut off")
			}
			n := int(binary.BigEndian.Uint32(b))
			b = b[4:]
			if n > len(b) || n < 0 {
				return nil, fmt.Errorf("osc: element of %d bytes in %d", n, len(b))
			}
			ms, err := Decode(b[:n])
			if err != nil {
				return nil, err
			}
			out = append(out, ms...)
			b = b[n:]
		}
		return out, nil
	}
	addr, b, err := str(b)
	if err != nil {
		return nil, err
	}
	m := Msg{Addr: addr}
	if len(b) == 0 {
		return []Msg{m}, nil
	}
	tags, b, err := str(b)
	if err != nil {
		return nil, err
	}
	if !strings.HasPrefix(tags, ",") {
		return nil, fmt.Errorf("osc: type tags %q", tags)
	}
	for _, t := range tags[1:] {
		switch t {
		case 'i', 'f':
			if len(b) < 4 {
				return nil, fmt.Errorf("osc: argument cut off")
			}
			u := binary.BigEndian.Uint32(b)
			b = b[4:]
			if t == 'i' {
				m.Args = append(m.Args, int32(u))
			} else {
				m.Args = append(m.Args, math.Float32frombits(u))
			}
		case 's':
			s, rest, err := str(b)
			if err != nil {
				return nil, err
			}
			m.Args = append(m.Args, s)
			b = rest
		default:
			return nil, fmt.Errorf("osc: type %c", t)
		}
	}
	if len(b) != 0 {
		return nil, fmt.Errorf("osc: %d bytes left over", len(b))
	}
	return []Msg{m}, nil
}

// Note is a note as the player is told to perform it.
type Note struct {
	Track, Chan, Off, Pitch, Dur, Aud, Vel int
	// What the channel is set to when the note starts; -1 if never set.
	Patch, Volume, Panning int
}

func (n Note) String() string {
	return fmt.Sprintf("track %d channel %d at %d pitch %d length %d/%d velocity %d (patch %d, volume %d, panning %d)",
		n.Track, n.Chan, n.Off, n.Pitch, n.Dur, n.Aud, n.Vel, n.Patch, n.Volume, n.Panning)
}

// Tempo is a tempo message.
type Tempo struct {
	Off   int
	Tempo float64
}

// Action is a message that is not about the music.
type Action struct {
	Addr string
	Arg  interface{}
}

// Plan is what a sequence of messages asks a player to do.
type Plan struct {
	Notes   []Note
	Tempos  []Tempo
	Actions []Action // play, stop, shutdown, offset, export, ping, in order
	// Late says that something about the music came after the first action.
	Late bool
}

type ev struct {
	off, seq int
	kind     string
	ch, v    int
	note     int
}

// Read interprets messages.
func Read(ms []Msg) (*Plan, error) {
	p := &Plan{}
	evs := []ev{}
	ints := func(m Msg, n int) ([]int, error) {
		if len(m.Args) != n {
			return nil, fmt.Errorf("%v: %d arguments, expected %d", m, len(m.Args), n)
		}
		out := []int{}
		for _, a := range m.Args {
			i, ok := a.(int32)
			if !ok {
				return nil, fmt.Errorf("%v: argument of type %T", m, a)
			}
			out = append(out, int(i))
		}
		return out, nil
	}
	for seq, m := range ms {
		f := strings.Split(m.Addr, "/")
		switch {
		case m.Addr == "/system/tempo":
			if len(m.Args) != 2 {
				return nil, fmt.Errorf("%v: wrong arguments", m)
			}
			o, ok := m.Args[0].(int32)
			t, ok2 := m.Args[1].(float32)
			if !ok || !ok2 {
				return nil, fmt.Errorf("%v: wrong types", m)
			}
			p.Tempos = append(p.Tempos, Tempo{int(o), float64(t)})
			p.Late = p.Late || len(p.Actions) > 0
		case len(f) == 5 && f[0] == "" && f[1] == "track" && f[3] == "midi":
			tr, err := strconv.Atoi(f[2])
			if err != nil || tr < 1 {
				return nil, fmt.Errorf("%v: bad track", m)
			}
			p.Late = p.Late || len(p.Actions) > 0
			if f[4] == "note" {
				a, err := ints(m, 6)
				if err != nil {
					return nil, err
				}
				if a[0] < 0 || a[0] > 15 || a[2] < 0 || a[2] > 127 || a[5] < 0 || a[5] > 127 {
					return nil, fmt.Errorf("%v: out of range", m)
				}
				p.Notes = append(p.Notes, Note{Track: tr, Chan: a[0], Off: a[1], Pitch: a[2], Dur: a[3], Aud: a[4], Vel: a[5]})
				evs = append(evs, ev{a[1], seq, "note", a[0], 0, len(p.Notes) - 1})
				continue
			}
			a, err := ints(m, 3)
			if err != nil {
				return nil, err
			}
			if a[0] < 0 || a[0] > 15 || a[2] < 0 || a[2] > 127 {
				return nil, fmt.Errorf("%v: out of range", m)
			}
			if f[4] != "patch" && f[4] != "volume" && f[4] != "panning" {
				return nil, fmt.Errorf("%v: unknown message", m)
			}
			evs = append(evs, ev{a[1], seq, f[4], a[0], a[2], 0})
		default:
			switch m.Addr {
			case "/ping", "/system/play", "/system/stop":
				if len(m.Args) != 0 {
					return nil, fmt.Errorf("%v: arguments", m)
				}
				p.Actions = append(p.Actions, Action{m.Addr, nil})
			case "/system/shutdown", "/system/offset":
				a, err := ints(m, 1)
				if err != nil {
					return nil, err
				}
				p.Actions = append(p.Actions, Action{m.Addr, a[0]})
			case "/system/midi/export":
				if len(m.Args) != 1 {
					return nil, fmt.Errorf("%v: wrong arguments", m)
				}
				s, ok := m.Args[0].(string)
				if !ok {
					return nil, fmt.Errorf("%v: wrong type", m)
				}
				p.Actions = append(p.Actions, Action{m.Addr, s})
			default:
				return nil, fmt.Errorf("%v: unknown message", m)
			}
		}
	}
	// Channels are set in the order of time, and of the messages at equal times.
	sort.SliceStable(evs, func(i, j int) bool { return evs[i].off < evs[j].off })
	type chstate struct{ patch, volume, panning int }
	st := map[int]*chstate{}
	for _, e := range evs {
		c := st[e.ch]
		if c == nil {
			c = &chstate{-1, -1, -1}
			st[e.ch] = c
		}
		switch e.kind {
		case "patch":
			c.patch = e.v
		case "volume":
			c.volume = e.v
		case "panning":
			c.panning = e.v
		case "note":
			n := &p.Notes[e.note]
			n.Patch, n.Volume, n.Panning = c.patch, c.volume, c.panning
		}
	}
	return p, nil
}

// At is the tempo in force at a time, according to the messages.
func (p *Plan) At(t int) (float64, bool) {
	best, found := Tempo{}, false
	for _, x := range p.Tempos {
		if x.Off <= t && (!found || x.Off >= best.Off) {
			best, found = x, true
		}
	}
	return best.Tempo, found
}
