package pbin

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"
	"sync"
	"time"

	"alda.io/client/zzverif/box"
	"alda.io/client/zzverif/lang"
	"alda.io/client/zzverif/vp"
	"pgregory.net/rapid"
)

// Reqs are requests from one client, with what each is about.
type Reqs struct {
	R      []Val
	Chunks []int `json:",omitempty"`
	Half   bool  `json:",omitempty"` // the client says it will send no more
	Code   string
}

// Val is a value that can be written in bencoding.
type Val struct {
	S *string `json:",omitempty"` // Go string with bytes as Latin-1 runes
	I *int    `json:",omitempty"`
	L []Val   `json:",omitempty"`
	D []KV    `json:",omitempty"`
	T string  `json:",omitempty"` // "l" or "d" if empty
}

// KV is an entry of a map.
type KV struct {
	K string
	V Val
}

func str(s string) Val { return Val{S: &s} }
func num(i int) Val    { return Val{I: &i} }

func latin(s string) string {
	b := []byte{}
	for _, r := range s {
		b = append(b, byte(r))
	}
	return string(b)
}

// raw is the value for the encoder. Strings marked with T "b" stand for bytes.
func (v Val) raw() interface{} {
	switch {
	case v.S != nil && v.T == "b":
		return latin(*v.S)
	case v.S != nil:
		return *v.S
	case v.I != nil:
		return *v.I
	case v.T == "d" || len(v.D) > 0:
		m := map[string]interface{}{}
		for _, e := range v.D {
			m[e.K] = e.V.raw()
		}
		return m
	}
	l := []interface{}{}
	for _, x := range v.L {
		l = append(l, x.raw())
	}
	return l
}

// plain is the value as the decoder of replies gives it.
func plain(v interface{}) interface{} {
	switch x := v.(type) {
	case int:
		return int64(x)
	case []interface{}:
		l := []interface{}{}
		for _, y := range x {
			l = append(l, plain(y))
		}
		return l
	case map[string]interface{}:
		m := map[string]interface{}{}
		for k, y := range x {
			m[k] = plain(y)
		}
		return m
	}
	return v
}

func genVal(t *rapid.T, depth int) Val {
	switch x := rapid.IntRange(0, 9).Draw(t, "type"); {
	case x < 4:
		return str(rapid.SampledFrom([]string{"", "1", "a", "piano: c d e", "describe", "done", "e", "i1e", "0:", "\x00", "é", strings.Repeat("x", 5000)}).Draw(t, "s"))
	case x == 4:
		v := str(rapid.StringOfN(rapid.RuneFrom(nil, latin1), 0, 12, -1).Draw(t, "bytes"))
		v.T = "b"
		return v
	case x < 7 || depth == 0:
		return num(rapid.SampledFrom([]int{0, 1, -1, 42, 1 << 40, -(1 << 62), 1<<63 - 1}).Draw(t, "i"))
	case x < 9:
		v := Val{T: "l"}
		for n := rapid.IntRange(0, 3).Draw(t, "n"); n > 0; n-- {
			v.L = append(v.L, genVal(t, depth-1))
		}
		return v
	}
	v := Val{T: "d"}
	for _, k := range rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"a", "b", "op", "id", "", "status"}), 0, 3, rapid.ID[string]).Draw(t, "keys") {
		v.D = append(v.D, KV{k, genVal(t, depth-1)})
	}
	return v
}

var opNames = []string{"clone", "describe", "eval", "eval-and-play", "instruments", "load", "new-score", "replay", "score-data",
	"score-events", "score-ast", "score-text", "stop"}

func genCode(t *rapid.T) string {
	small := lang.Base()
	small.N, small.Blocks = 4, 2
	switch rapid.IntRange(0, 5).Draw(t, "code") {
	case 0:
		return rapid.SampledFrom([]string{"", "c", "piano: c d e", "piano:", "xx = [c d]", "(tempo! 90)", "piano: (", "nosuch: c", "\x00", "piano: c 'x", "\xff\xfe", "piano: o99 c", "piano: c1s d500ms", "()", "piano: {}4"}).Draw(t, "fixed")
	case 1, 2:
		return genBad(t, lang.Gen(t, small))
	}
	return lang.Render(lang.Gen(t, small), layout(t)).S
}

// genReq makes a request; odd ones have fields of any type.
func genReq(t *rapid.T, odd bool) Val {
	v := Val{T: "d"}
	pct := func(p int) bool { return rapid.IntRange(0, 99).Draw(t, "p") >= 100-p }
	op := rapid.SampledFrom(opNames).Draw(t, "op")
	if pct(4) {
		op = "export"
	}
	if odd && pct(12) {
		op = rapid.SampledFrom([]string{"", "Describe", "close", "ls-sessions", "interrupt", "op", "\x00", "eval_and_play", "stdin"}).Draw(t, "unknown")
	}
	ov := str(op)
	if odd && pct(10) {
		ov = genVal(t, 2)
	}
	if !odd || !pct(6) {
		v.D = append(v.D, KV{"op", ov})
	}
	if (op == "eval-and-play" || op == "load" || op == "eval") && !(odd && pct(15)) {
		c := str(genCode(t))
		if odd && pct(15) {
			c = genVal(t, 2)
		}
		v.D = append(v.D, KV{"code", c})
	}
	if op == "replay" || (odd && pct(5)) {
		for _, k := range []string{"from", "to"} {
			if pct(50) {
				x := str(rapid.SampledFrom([]string{"0:00", "0:01", "0:05", "nowhere", "mm", "1:", ""}).Draw(t, "ref"))
				if odd && pct(25) {
					x = genVal(t, 1)
				}
				v.D = append(v.D, KV{k, x})
			}
		}
	}
	if odd {
		for _, k := range rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"status", "problems", "data", "text", "", "new-session", "ns", "file"}), 0, 2, rapid.ID[string]).Draw(t, "extra") {
			v.D = append(v.D, KV{k, genVal(t, 2)})
		}
		if pct(50) {
			v.D = append(v.D, KV{"session", genVal(t, 2)})
		}
		if pct(60) {
			v.D = append(v.D, KV{"id", genVal(t, 2)})
		}
	}
	return v
}

// envelope checks a reply against its request.
func envelope(req, m map[string]interface{}) error {
	for _, k := range []string{"id", "session"} {
		w, has := req[k]
		g, got := m[k]
		if has != got {
			return fmt.Errorf("the %s is %v in the request (given: %v) and %v in the reply (given: %v)", k, w, has, g, got)
		}
		if has && !reflect.DeepEqual(plain(w), g) {
			return fmt.Errorf("the %s is %#v in the request, %#v in the reply", k, w, g)
		}
	}
	if !box.Has(m, "done") {
		return fmt.Errorf("the status is %v", m["status"])
	}
	bad := box.Has(m, "error")
	op, isStr := req["op"].(string)
	known := op == "export"
	for _, n := range opNames {
		known = known || n == op
	}
	_, code := req["code"].(string)
	must, mustnt := false, false
	switch {
	case !isStr:
		must = true
	case !known:
		must = true
		if !box.Has(m, "unknown-op") {
			return fmt.Errorf("unknown operation, but the status is %v", m["status"])
		}
		return nil
	case op == "eval-and-play" || op == "load":
		must = !code
	case op == "replay":
	default:
		mustnt = true
	}
	if must && !bad {
		return fmt.Errorf("no error is reported, status %v", m["status"])
	}
	if mustnt && bad {
		return fmt.Errorf("an error is reported: %v", m)
	}
	if bad && strings.TrimSpace(strings.Join(box.Problems(m), "")) == "" {
		return fmt.Errorf("an error is reported without a problem: %v", m)
	}
	switch {
	case bad:
	case op == "clone":
		if s, _ := m["new-session"].(string); s == "" {
			return fmt.Errorf("no new session")
		}
	case op == "describe":
		if d, _ := m["ops"].(map[string]interface{}); len(d) == 0 {
			return fmt.Errorf("no operations are described")
		}
		if d, _ := m["versions"].(map[string]interface{}); len(d) == 0 {
			return fmt.Errorf("no versions are described")
		}
	}
	return nil
}

func show(vs []Val) string {
	b := []string{}
	for _, v := range vs {
		b = append(b, fmt.Sprintf("%.200q", box.Encode(v.raw())))
	}
	return strings.Join(b, " ")
}

// well checks that the server serves a new client.
func well(s *box.Server) error {
	c, err := s.Dial()
	if err != nil {
		return err
	}
	defer c.Close()
	req := map[string]interface{}{"op": "describe", "id": "well"}
	m, err := c.Ask(req)
	if err != nil {
		return fmt.Errorf("another client: %w", err)
	}
	return envelope(req, m)
}

// Raw is a message that is none, after some requests.
type Raw struct {
	R    []Val
	B    string // Latin-1
	Deep int    `json:",omitempty"` // that many more list openings
	Wait bool   `json:",omitempty"` // the client waits instead of leaving
}

var latin1 = latin1Table()

func init() {
	guard := func(f func(g *rig, c *box.Conn) error) (err error) {
		g, c, err := fresh()
		if err != nil {
			drop()
			return err
		}
		defer c.Close()
		g.mu.Lock()
		g.file, g.slow = box.Midi(1, 3), false
		g.mu.Unlock()
		if err = f(g, c); err == nil {
			err = well(g.srv)
		}
		if err != nil {
			drop()
		}
		return err
	}

	vp.Add("P26", "requests", 3000, 100000, func(t *rapid.T) Reqs {
		c := Reqs{}
		for n := rapid.IntRange(1, 12).Draw(t, "n"); n > 0; n-- {
			c.R = append(c.R, genReq(t, true))
		}
		return c
	}, func(c Reqs, r *vp.R) error {
		r.Sample(show(c.R))
		return guard(func(g *rig, cn *box.Conn) error {
			for i, v := range c.R {
				req := v.raw().(map[string]interface{})
				m, err := cn.Ask(req)
				if err != nil {
					return fmt.Errorf("request %d: %w", i+1, err)
				}
				if err := envelope(req, m); err != nil {
					return fmt.Errorf("request %d (%s): %w", i+1, show([]Val{v}), err)
				}
				if box.Has(m, "error") {
					r.NonTrivial()
				}
			}
			return cn.Quiet()
		})
	}, vp.Flaky())

	vp.Add("P26", "stream", 2000, 60000, func(t *rapid.T) Reqs {
		c := Reqs{Half: rapid.Bool().Draw(t, "half")}
		for n := rapid.IntRange(2, 10).Draw(t, "n"); n > 0; n-- {
			v := genReq(t, false)
			v.D = append(v.D, KV{"id", num(len(c.R))})
			c.R = append(c.R, v)
		}
		c.Chunks = rapid.SliceOfN(rapid.SampledFrom([]int{1, 2, 3, 10, 40, 200, 4096, 0}), 0, 10).Draw(t, "chunks")
		return c
	}, func(c Reqs, r *vp.R) error {
		// Requests are sent without waiting for replies, in pieces of any size.
		r.Sample(show(c.R))
		r.NonTrivial()
		return guard(func(g *rig, cn *box.Conn) error {
			all := []byte{}
			for _, v := range c.R {
				all = append(all, box.Encode(v.raw())...)
			}
			for _, n := range c.Chunks {
				if n > len(all) {
					n = len(all)
				}
				if n == 0 {
					time.Sleep(time.Millisecond)
				} else if err := cn.Write(all[:n]); err != nil {
					return err
				}
				all = all[n:]
			}
			if err := cn.Write(all); err != nil {
				return err
			}
			if c.Half {
				cn.CloseWrite()
			}
			seen := map[int64]bool{}
			for range c.R {
				m, err := cn.Read(box.Patience)
				if err != nil {
					return fmt.Errorf("%d of %d requests have replies, then: %w", len(seen), len(c.R), err)
				}
				id, ok := m["id"].(int64)
				if !ok || id < 0 || int(id) >= len(c.R) || seen[id] {
					return fmt.Errorf("a reply has the id %v", m["id"])
				}
				seen[id] = true
				if err := envelope(c.R[id].raw().(map[string]interface{}), m); err != nil {
					return fmt.Errorf("request %s: %w", show(c.R[id:id+1]), err)
				}
			}
			return cn.Quiet()
		})
	}, vp.Flaky())

	vp.Add("P26", "malformed", 3000, 100000, func(t *rapid.T) Raw {
		c := Raw{Wait: rapid.Bool().Draw(t, "wait")}
		for n := rapid.IntRange(0, 2).Draw(t, "n"); n > 0; n-- {
			v := genReq(t, false)
			c.R = append(c.R, v)
		}
		switch rapid.IntRange(0, 5).Draw(t, "how") {
		case 0:
			c.B = rapid.StringOfN(rapid.RuneFrom(nil, latin1), 1, 30, -1).Draw(t, "bytes")
		case 1:
			c.B = rapid.SampledFrom([]string{"-1:", "-9223372036854775808:", "9223372036854775807:", "99999999999:", "1099511627776:x", "2147483648:", "18446744073709551616:x",
				"i", "ie", "i-e", "i1", "i99999999999999999999e", "i1.5e", "d", "d1:a", "d1:ae", "di1ei2ee", "dlelee", "le", "i3e", "0:", "4:abcd", "d2:opi1e", "d2:op-1:", "d-5:", "l-1:", "de", "e", ":", "1", "00003:abc",
				"d2:op8:describe2:op4:stope", "d2:opd2:opd2:op", "\xff\xff\xff\xff", "GET / HTTP/1.1\r\n\r\n", "{\"op\": \"describe\"}\n"}).Draw(t, "fixed")
		case 2:
			c.B = rapid.SampledFrom([]string{"", "d1:a", "d2:op"}).Draw(t, "before")
			c.Deep = rapid.SampledFrom([]int{10, 99, 101, 1000, 20000, 300000, 8000000}).Draw(t, "deep")
		default: // a broken request
			b := box.Encode(genReq(t, true).raw())
			l := []rune{}
			for _, x := range b {
				l = append(l, rune(x))
			}
			for n := rapid.IntRange(1, 3).Draw(t, "edits"); n > 0 && len(l) > 0; n-- {
				i := rapid.IntRange(0, len(l)-1).Draw(t, "at")
				x := rapid.SampledFrom([]rune("0123456789:-ielde\x00\xff")).Draw(t, "x")
				switch rapid.IntRange(0, 3).Draw(t, "edit") {
				case 0:
					l = l[:i]
				case 1:
					l[i] = x
				case 2:
					l = append(l[:i:i], l[i+1:]...)
				case 3:
					l = append(append(append([]rune{}, l[:i]...), x), l[i:]...)
				}
			}
			c.B = string(l)
		}
		return c
	}, func(c Raw, r *vp.R) error {
		r.Sample(show(c.R) + fmt.Sprintf(" %.300q + %d l", c.B, c.Deep))
		r.NonTrivial()
		return guard(func(g *rig, cn *box.Conn) error {
			all := []byte{}
			for _, v := range c.R {
				all = append(all, box.Encode(v.raw())...)
			}
			all = append(all, latin(c.B)...)
			all = append(all, bytes.Repeat([]byte("l"), c.Deep)...)
			cn.Write(all) // the server may hang up
			for i, v := range c.R {
				m, err := cn.Read(box.Patience)
				if err != nil {
					// A connection that is closed because of what came later may be
					// reset before the replies are read.
					if !g.srv.Alive() {
						return g.srv.Death()
					}
					r.Label("reset")
					break
				}
				if err := envelope(v.raw().(map[string]interface{}), m); err != nil {
					return fmt.Errorf("request %d: %w", i+1, err)
				}
			}
			if c.Wait {
				if err := well(g.srv); err != nil {
					return err
				}
			}
			cn.Close()
			return well(g.srv)
		})
	}, vp.Flaky())

	type Clients struct {
		C     []Reqs
		Abort []int // clients that go away after so many requests; -1: stays
	}
	vp.Add("P26", "clients", 600, 20000, func(t *rapid.T) Clients {
		c := Clients{}
		for n := rapid.IntRange(2, 6).Draw(t, "clients"); n > 0; n-- {
			q := Reqs{}
			for n := rapid.IntRange(1, 8).Draw(t, "n"); n > 0; n-- {
				v := genReq(t, false)
				v.D = append(v.D, KV{"id", str(fmt.Sprintf("%d/%d", len(c.C), len(q.R)))}, KV{"session", num(len(c.C))})
				q.R = append(q.R, v)
			}
			c.C = append(c.C, q)
			a := -1
			if rapid.IntRange(0, 3).Draw(t, "abort") == 3 {
				a = rapid.IntRange(0, len(q.R)).Draw(t, "after")
			}
			c.Abort = append(c.Abort, a)
		}
		return c
	}, func(c Clients, r *vp.R) error {
		l := []string{}
		for _, q := range c.C {
			l = append(l, show(q.R))
		}
		r.Sample(strings.Join(l, " || "))
		r.NonTrivial()
		return guard(func(g *rig, cn *box.Conn) error {
			errs := make([]error, len(c.C))
			var wg sync.WaitGroup
			for i := range c.C {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					k, err := g.srv.Dial()
					if err != nil {
						errs[i] = err
						return
					}
					defer k.Close()
					for j, v := range c.C[i].R {
						req := v.raw().(map[string]interface{})
						if j == c.Abort[i] {
							k.Write(box.Encode(req))
							k.Reset()
							return
						}
						m, err := k.Ask(req)
						if err == nil {
							err = envelope(req, m)
						}
						if err != nil {
							errs[i] = fmt.Errorf("client %d, request %d: %w", i, j+1, err)
							return
						}
					}
					errs[i] = k.Quiet()
				}(i)
			}
			wg.Wait()
			for _, err := range errs {
				if err != nil {
					return err
				}
			}
			return nil
		})
	}, vp.Flaky())

	type Deaf struct {
		Size, N int
	}
	vp.Add("P26", "deaf", 12, 200, func(t *rapid.T) Deaf {
		return Deaf{rapid.SampledFrom([]int{100, 20000, 300000}).Draw(t, "size"), rapid.SampledFrom([]int{20, 100, 400}).Draw(t, "n")}
	}, func(c Deaf, r *vp.R) error {
		// A client that does not read its replies does not keep others waiting.
		r.Sample(fmt.Sprint(c))
		return guard(func(g *rig, cn *box.Conn) error {
			m, err := cn.Ask(map[string]interface{}{"op": "eval-and-play", "code": "piano: c # " + strings.Repeat("x", c.Size)})
			if err != nil || box.Has(m, "error") {
				return fmt.Errorf("%v %v", m, err)
			}
			req := box.Encode(map[string]interface{}{"op": "score-text"})
			done := make(chan bool)
			go func() {
				cn.Write(bytes.Repeat(req, c.N))
				close(done)
			}()
			time.Sleep(20 * time.Millisecond)
			if c.Size*c.N > 8<<20 {
				r.NonTrivial()
			}
			err = well(g.srv)
			cn.Close()
			<-done
			return err
		})
	}, vp.Flaky())
}
