package pbin

import (
	"bufio"
	"bytes"
	"context"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"time"

	"alda.io/client/generated"
	"alda.io/client/model"
	"alda.io/client/parser"
	"alda.io/client/transmitter"
	"alda.io/client/zzverif/box"
	"alda.io/client/zzverif/oscd"
	"alda.io/client/zzverif/vp"
	"pgregory.net/rapid"
)

// Call is something that a web page does with the module.
type Call struct {
	Kind string // osc, junk (something else than a text), none (no argument), level
	Text string
	Arg  json.RawMessage `json:",omitempty"`
	Wait bool            // until all that was started before has ended
}

// Page is a history of calls.
type Page struct{ C []Call }

// The driver reads calls and prints what becomes of them.
const driver = `
const fs = require("fs");
globalThis.require = require; globalThis.fs = fs; globalThis.path = require("path");
require(process.env.VP_WASM_EXEC);
const say = x => fs.writeSync(1, JSON.stringify(x) + "\n");
const calls = JSON.parse(fs.readFileSync(0));
const go = new Go();
const text = e => e instanceof Error ? String(e.message) : String(e);
console.error = (...a) => say({log: a.map(String).join(" ").slice(0, 300)});
WebAssembly.instantiate(fs.readFileSync(process.env.VP_WASM), go.importObject).then(async r => {
  go.run(r.instance).then(() => say({exited: true}), e => say({exited: true, err: text(e)}));
  say({version: String(globalThis.Alda.VERSION)});
  let open = [];
  for (let i = 0; i < calls.length; i++) {
    const c = calls[i];
    if (c.Wait) { await Promise.all(open); open = []; }
    let p;
    try {
      switch (c.Kind) {
      case "osc": p = Alda.toOSCBytes(c.Text); break;
      case "junk": p = Alda.toOSCBytes(c.Arg); break;
      case "none": p = Alda.toOSCBytes(); break;
      case "level": p = Alda.setLogLevel(c.Text); say({i, level: p === undefined || p === null}); continue;
      }
    } catch (e) { say({i, threw: text(e)}); continue; }
    if (!p || typeof p.then != "function") { say({i, odd: String(p)}); continue; }
    open.push(p.then(b => say({i, kind: Object.prototype.toString.call(b), hex: b instanceof Uint8Array ? Buffer.from(b).toString("hex") : ""}),
                     e => say({i, isError: e instanceof Error, rejected: text(e)})));
  }
  await Promise.all(open);
  say({done: true});
  process.exit(0);
}).catch(e => { say({driver: text(e)}); process.exit(3); });
`

// answer is a line that the driver prints.
type answer struct {
	I                    *int
	Version, Driver, Log string
	Exited, Done, Level  bool
	IsError              bool
	Threw, Odd, Rejected *string
	Kind, Hex            string
}

func genPage(t *rapid.T) *Page {
	p := &Page{}
	for i, n := 0, rapid.IntRange(1, 5).Draw(t, "calls"); i < n; i++ {
		c := Call{Kind: "osc", Wait: rapid.IntRange(0, 2).Draw(t, "wait") > 0}
		switch rapid.IntRange(0, 11).Draw(t, "call") {
		case 8:
			c.Kind, c.Text = "level", rapid.SampledFrom([]string{"error", "warn", "fatal", "panic", "nosuch", ""}).Draw(t, "level")
		case 9:
			c.Kind = "none"
		case 10:
			c.Kind, c.Arg = "junk", json.RawMessage(rapid.SampledFrom([]string{"null", "5", "{}", "[]", "[\"piano: c\"]", "true", "-1.5"}).Draw(t, "junk"))
		case 11:
			c.Text = rapid.SampledFrom([]string{"", " ", "piano: c", "piano: V1: c d V2: e f", "c"}).Draw(t, "short")
		default:
			c.Text, _ = genText(t)
			c.Text = bulky(t, strings.ToValidUTF8(c.Text, "?"))
		}
		p.C = append(p.C, c)
	}
	return p
}

// messages is what a player has to be told to load a score.
func messages(text string) (ms []oscd.Msg, err error) {
	ast, err := parser.ParseString(text)
	if err != nil {
		return nil, err
	}
	ups, err := ast.Updates()
	if err != nil {
		return nil, err
	}
	s := model.NewScore()
	if err := s.Update(ups...); err != nil {
		return nil, err
	}
	b, err := transmitter.OSCTransmitter{}.ScoreToOSCBundle(s, transmitter.LoadOnly())
	if err != nil {
		return nil, err
	}
	raw, err := b.MarshalBinary()
	if err != nil {
		return nil, err
	}
	return oscd.Decode(raw)
}

func sorted(ms []oscd.Msg) []string {
	out := []string{}
	for _, m := range ms {
		out = append(out, m.String())
	}
	sort.Strings(out)
	return out
}

func page(p *Page, r *vp.R) error {
	in, err := json.Marshal(p.C)
	if err != nil {
		vp.Infra(err)
	}
	r.Sample(fmt.Sprintf("%.600s", in))
	h := home("page")
	ctx, cancel := context.WithTimeout(context.Background(), 4*box.Patience)
	defer cancel()
	cmd := exec.CommandContext(ctx, "node", "-e", driver)
	cmd.Env = h.Env("VP_WASM="+os.Getenv("VP_WASM"), "VP_WASM_EXEC="+os.Getenv("VP_WASM_EXEC"))
	cmd.Dir = h.Sub("work")
	cmd.Stdin = bytes.NewReader(in)
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	err = cmd.Run()
	if ctx.Err() != nil && out.Len() == 0 {
		vp.Infra(fmt.Errorf("node does nothing: %.500s", errs.String()))
	}
	got := map[int]answer{}
	version, done := "", false
	sc := bufio.NewReader(&out)
	logs := ""
	for {
		line, rerr := sc.ReadString('\n')
		if strings.HasPrefix(line, "{") && strings.HasSuffix(line, "}\n") {
			var a answer
			if err := json.Unmarshal([]byte(line), &a); err == nil {
				switch {
				case a.Driver != "":
					return fmt.Errorf("the module can't be used: %s %s", a.Driver, logs)
				case a.Version != "":
					version = a.Version
				case a.Exited:
					return fmt.Errorf("the module ends: %s %.1500s", logs, errs.String())
				case a.Done:
					done = true
				case a.I != nil:
					if _, twice := got[*a.I]; twice {
						return fmt.Errorf("call %d is answered twice", *a.I+1)
					}
					got[*a.I] = a
				}
			}
		} else {
			logs += line
		}
		if rerr != nil {
			break
		}
	}
	if version == "" && err != nil {
		vp.Infra(fmt.Errorf("node: %v %.1000s", err, errs.String()))
	}
	if version != generated.ClientVersion {
		return fmt.Errorf("the version is %q", version)
	}
	rich := false
	for i, c := range p.C {
		a, ok := got[i]
		name := fmt.Sprintf("call %d (%s %.100q)", i+1, c.Kind, c.Text)
		if !ok {
			return fmt.Errorf("%s is not answered (%v): %s %.1500s", name, err, logs, errs.String())
		}
		switch c.Kind {
		case "level":
			if a.Threw == nil && !a.Level {
				return fmt.Errorf("%s gives a value", name)
			}
			continue
		case "none", "junk":
			continue
		}
		if a.Threw != nil || a.Odd != nil {
			return fmt.Errorf("%s gives no promise", name)
		}
		want, werr := messages(c.Text)
		if werr != nil {
			r.Label("rejected")
			if a.Rejected == nil {
				return fmt.Errorf("%s should be rejected: %v", name, werr)
			}
			if !a.IsError || *a.Rejected != werr.Error() {
				return fmt.Errorf("%s is rejected with %q, not %q", name, *a.Rejected, werr)
			}
			continue
		}
		if a.Rejected != nil {
			return fmt.Errorf("%s is rejected: %s", name, *a.Rejected)
		}
		if a.Kind != "[object Uint8Array]" {
			return fmt.Errorf("%s gives a %s", name, a.Kind)
		}
		raw, herr := hex.DecodeString(a.Hex)
		if herr != nil {
			vp.Infra(herr)
		}
		ms, derr := oscd.Decode(raw)
		if derr != nil {
			return fmt.Errorf("%s: %v", name, derr)
		}
		x, y := sorted(want), sorted(ms)
		if !reflect.DeepEqual(x, y) {
			return fmt.Errorf("%s gives other messages than the program: %s", name, firstDifference(strings.Join(x, "\n"), strings.Join(y, "\n")))
		}
		rich = rich || len(ms) > 3
	}
	if !done {
		return fmt.Errorf("the page does not come to its end (%v)", err)
	}
	if rich {
		r.NonTrivial()
	}
	return nil
}

// Narrow is a use of the program for 32-bit processors.
type Narrow struct {
	Text   string
	Output string
}

var huge = regexp.MustCompile("[0-9]{9}")

func narrow(n *Narrow, r *vp.R) error {
	r.Sample(fmt.Sprintf("alda parse -o %s: %s", n.Output, n.Text))
	if huge.MatchString(n.Text) {
		r.Label("numbers out of range")
		return nil
	}
	h := home("narrow")
	want, werr := parsed(n.Text, n.Output)
	t0 := time.Now()
	res := h.Run(box.Cmd{Exe: os.Getenv("VP_ALDA386"), Args: []string{"parse", "-o", n.Output}, Stdin: &n.Text})
	if err := honest(fmt.Sprintf("parsing with the 32-bit program (%v)", time.Since(t0).Round(time.Second)), werr == nil, res); err != nil {
		return err
	}
	if werr != nil {
		r.Label("rejected")
		if !strings.Contains(res.Err, werr.Error()) {
			return fmt.Errorf("the 32-bit program complains about something else: %q, not %q", res.Err, werr)
		}
		return nil
	}
	if len(n.Text) > 10 {
		r.NonTrivial()
	}
	got := strings.TrimRight(res.Out, "\n")
	if n.Output == "data" {
		return box.SameState(want, got)
	}
	if got != strings.TrimRight(want, "\n") {
		return fmt.Errorf("the 32-bit program gives something else: %s", firstDifference(want, got))
	}
	return nil
}

func init() {
	vp.Add("P34", "page", 480, 8000, genPage, page, vp.Flaky())
	vp.Add("P34", "narrow", 1200, 20000, func(t *rapid.T) *Narrow {
		n := &Narrow{Output: rapid.SampledFrom([]string{"data", "data", "events", "ast"}).Draw(t, "output")}
		n.Text, _ = genText(t)
		// far into a score, counts of milliseconds and less are large
		n.Text = rapid.SampledFrom([]string{"", "", "", "", "piano: r3000s ", "violin \"far\": c90000s\n", "(tempo! 0.01)\n"}).Draw(t, "far") + n.Text
		return n
	}, narrow)
}
