package pbin

import (
	"encoding/json"
	"fmt"
	"strings"

	"alda.io/client/zzverif/box"
	"alda.io/client/zzverif/vp"
	"pgregory.net/rapid"
)

// Script is a session by messages that are given to alda repl as JSON.
type Script struct {
	H    Hist
	Odd  []string // what is given before a request, if anything
	Form []int    // how the requests are spelled
}

func (c Script) String() string {
	l := []string{}
	for i, o := range c.H.Ops {
		if c.Odd[i] != "" {
			l = append(l, "<"+c.Odd[i]+">")
		}
		l = append(l, Hist{Ops: []Op{o}}.String())
	}
	return strings.Join(l, " ;; ")
}

// told runs alda repl with a message and judges what it owes in any case.
func (g *rig) told(msg string, form int) (map[string]interface{}, error) {
	args := []string{"repl", "--port", fmt.Sprint(g.srv.Port), "--message", msg}
	switch form % 4 {
	case 1:
		args = []string{"repl", "-m", msg, "-p", fmt.Sprint(g.srv.Port)}
	case 2:
		args = append(args, "--client", "--host", "localhost")
	case 3:
		args = []string{"repl", "-c", "-H", "127.0.0.1", "-p", fmt.Sprint(g.srv.Port), "-m", msg}
	}
	res := g.home.Run(box.Cmd{Args: args})
	what := fmt.Sprintf("alda %.300q", args)
	quiet := res
	quiet.Out = ""
	if err := honest(what, res.Code == 0, quiet); err != nil {
		return nil, err
	}
	if res.Out == "" {
		if res.Code == 0 {
			return nil, fmt.Errorf("%s prints nothing", what)
		}
		return nil, nil
	}
	m := map[string]interface{}{}
	d := json.NewDecoder(strings.NewReader(res.Out))
	if err := d.Decode(&m); err != nil || d.More() || strings.Count(res.Out, "\n") != 1 || !strings.HasSuffix(res.Out, "\n") {
		return nil, fmt.Errorf("%s doesn't print the answer as a line of JSON: %v", what, res)
	}
	for _, k := range []string{"id", "session"} {
		if s, _ := m[k].(string); s == "" {
			return nil, fmt.Errorf("%s: the answer has no %s: %v", what, k, res)
		}
	}
	if !box.Has(m, "done") {
		return nil, fmt.Errorf("%s: the status is %v", what, box.Status(m))
	}
	if bad := box.Has(m, "error"); bad != (res.Code != 0) {
		return nil, fmt.Errorf("%s: the status is %v, and yet %v", what, box.Status(m), res)
	}
	return m, nil
}

func script(c Script, r *vp.R) (err error) {
	r.Sample(c.String())
	g, conn, err := fresh()
	if err != nil {
		drop()
		return err
	}
	defer conn.Close()
	defer func() {
		g.via = nil
		if err != nil {
			drop()
		}
	}()
	s := empty()
	for i, o := range c.H.Ops {
		if x := c.Odd[i]; x != "" {
			m, err := g.told(x, c.Form[i])
			if err != nil {
				return err
			}
			if m != nil && !box.Has(m, "error") {
				return fmt.Errorf("the message %q succeeds: %v", x, m)
			}
			ms, err := g.take()
			if err != nil {
				return err
			}
			if len(ms) > 0 {
				return fmt.Errorf("the message %q fails, and the player is sent %v", x, ms)
			}
			r.Label("odd")
		}
		g.via = func(op string, kv ...string) (map[string]interface{}, bool, error) {
			req := map[string]interface{}{"op": op}
			for i := 0; i < len(kv); i += 2 {
				req[kv[i]] = kv[i+1]
			}
			if c.Form[i]&4 != 0 {
				req["id"], req["session"] = "mine", "mine"
			}
			var b []byte
			if c.Form[i]&8 != 0 {
				b, _ = json.MarshalIndent(req, "", "  ")
			} else {
				b, _ = json.Marshal(req)
			}
			m, err := g.told(string(b), c.Form[i])
			if err == nil && m == nil {
				err = fmt.Errorf("the message %s isn't sent", b)
			}
			if err != nil {
				return nil, false, err
			}
			return m, !box.Has(m, "error"), nil
		}
		if o.Op == "export" {
			// JSON can't carry the bytes of a file.
			g.via = nil
		}
		if err := g.step(conn, o, s, r); err != nil {
			return fmt.Errorf("message %d: %w", i+1, err)
		}
		ops := []string{"score-text"}
		if c.Form[i]&16 != 0 {
			ops = append(ops, "score-data")
		} else {
			g.via = nil
		}
		if err := g.look(conn, s, ops...); err != nil {
			return fmt.Errorf("after message %d (%v): %w", i+1, Hist{Ops: []Op{o}}, err)
		}
		g.via = nil
	}
	return nil
}

func init() {
	vp.Add("P33", "script", 240, 6000, func(t *rapid.T) Script {
		c := Script{H: genHist(t, 20, 35)}
		odd := []string{"[1]", `"x"`, "{", "{}", "null", "3", `{"op": "nope"}`, `{"op": null}`, `{"op": 3}`, `{"op": ["new-score"]}`, `{"code": "piano: c"}`,
			`{"op": "eval-and-play"}`, `{"op": "eval-and-play", "code": null}`, `{"op": "eval-and-play", "code": 1}`, `{"op": "eval-and-play", "code": true}`,
			`{"op": "load"}`, `{"op": "load", "code": {"a": "piano: c"}}`, `{"op": "load", "code": ["piano: c"]}`, `{"op": "eval-and-play", "code": "piano: c" "x": 1}`,
			`{"op": "new-score"} {"op": "new-score"}`, `{"op": "new-score"`, " x", "{'op': 'new-score'}", `{"op": "new-score ", "x": "y"}`, `{"op": "eval-and-play", "code": "piano: c %"}`,
			`{"op": "load", "code": "nothing: c"}`, `{"Op": "new-score"}`, `{"op": ""}`}
		for range c.H.Ops {
			x := ""
			if rapid.IntRange(0, 3).Draw(t, "odd?") == 0 {
				x = rapid.SampledFrom(odd).Draw(t, "odd")
			}
			c.Odd = append(c.Odd, x)
			c.Form = append(c.Form, rapid.IntRange(0, 31).Draw(t, "form"))
		}
		return c
	}, func(c Script, r *vp.R) error {
		r2 := &vp.R{}
		err := script(c, r2)
		r.Sample(c.String())
		if r2.Labelled("odd") > 0 && len(c.H.Ops) >= 3 {
			r.NonTrivial()
		}
		return err
	}, vp.Flaky())
}
