package pbin

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strings"
	"time"

	"alda.io/client/generated"
	"alda.io/client/zzverif/box"
	"alda.io/client/zzverif/vp"
	"pgregory.net/rapid"
)

// Turn is one thing that happens to the user's consent.
type Turn struct {
	Args []string
	Cmd  string // the command's name
	Env  string // ALDA_DISABLE_TELEMETRY
	Fail int    // 1: nothing can be written
	Pipe *string
	Mark *string // what the record of the choice becomes before the command
}

// Consent is a history of commands.
type Consent struct{ T []Turn }

const secret = "qzxjw"

func genTurn(t *rapid.T) Turn {
	u := Turn{Env: rapid.SampledFrom([]string{"", "", "", "", "", "yes", "no"}).Draw(t, "env")}
	switch k := rapid.IntRange(0, 13).Draw(t, "turn"); k {
	case 0, 1, 2:
		u.Cmd, u.Args = "telemetry", []string{"telemetry", "--disable"}
		u.Fail = rapid.SampledFrom([]int{0, 0, 0, 0, 1}).Draw(t, "fail")
	case 3, 4:
		u.Cmd, u.Args = "telemetry", []string{"telemetry", "--enable"}
		u.Fail = rapid.SampledFrom([]int{0, 0, 0, 0, 1}).Draw(t, "fail")
	case 5:
		u.Cmd, u.Args = "telemetry", [][]string{{"telemetry", "--status"}, {"telemetry"}, {"telemetry", "--enable", "--disable"}}[rapid.IntRange(0, 2).Draw(t, "which")]
	case 6:
		u.Cmd, u.Args = "version", []string{"version"}
	case 7:
		u.Cmd, u.Args = "parse", []string{"parse", "-c", "piano: " + secret + " = c"}
	case 8:
		u.Cmd, u.Args = "parse", []string{"parse", "-f", secret + ".alda", "-o", rapid.SampledFrom([]string{"ast", "events", secret}).Draw(t, "out")}
	case 9:
		s := "piano \"" + secret + "\": c d e"
		u.Cmd, u.Args, u.Pipe = "format", []string{"format", "-f", secret + ".alda"}, &s
	case 10:
		u.Cmd, u.Args = "instruments", []string{"instruments", secret}
	case 11:
		u.Cmd, u.Args = "stop", []string{"stop", "-i", secret}
	case 12:
		u.Args = [][]string{{}, {"--help"}, {"parse", "--help"}, {secret}, {"parse", "--" + secret}, {"help", "play"}, {"help"}, {"completion", "bash"}}[rapid.IntRange(0, 7).Draw(t, "which")]
	default:
		u.Cmd, u.Args = "play", []string{"play", "-p", "1", "-c", secret}
		if rapid.Bool().Draw(t, "ps") {
			u.Cmd, u.Args = "ps", []string{"ps"}
		}
	}
	if u.Fail == 0 && rapid.IntRange(0, 7).Draw(t, "unwritable") == 7 {
		u.Fail = 1
	}
	if rapid.IntRange(0, 7).Draw(t, "damaged") == 7 {
		s := rapid.SampledFrom([]string{"", "disabled\n", "off", "DISABLED", " disabled", "disable", "\xef\xbb\xbfdisabled", "no", "\x00", "dir"}).Draw(t, "mark")
		u.Mark = &s
	}
	if rapid.IntRange(0, 5).Draw(t, "verbose") == 5 {
		u.Args = append([]string{"-v", rapid.SampledFrom([]string{"0", "2", "3", "7"}).Draw(t, "level")}, u.Args...)
	}
	return u
}

// commandNames are all that a report may say was run.
var commandNames = " doctor export format import instruments parse play ps repl shutdown stop telemetry update version help completion bash zsh fish powershell "

// announced checks what is in a report.
func announced(rep box.Report, h *box.Home, cmd string) error {
	if rep.Host != "api.alda.io:443" || rep.Method != "POST" || rep.Path != "/telemetry" {
		return fmt.Errorf("an unannounced request: %s %s%s %s", rep.Method, rep.Host, rep.Path, rep.Raw)
	}
	var m map[string]interface{}
	if err := json.Unmarshal([]byte(rep.Body), &m); err != nil {
		return fmt.Errorf("the report is no map: %q", rep.Body)
	}
	want := map[string]interface{}{"os": runtime.GOOS, "arch": runtime.GOARCH, "version": generated.ClientVersion}
	for k, v := range m {
		if k == "command" {
			s, ok := v.(string)
			if !ok || s == "" || !strings.Contains(commandNames, " "+s+" ") || cmd != "" && s != cmd {
				return fmt.Errorf("the report says that the command is %v, it is %q", v, cmd)
			}
		} else if want[k] == nil {
			return fmt.Errorf("the report also contains %q: %v", k, v)
		} else if want[k] != v {
			return fmt.Errorf("the report says that %q is %v, not %v", k, v, want[k])
		}
	}
	host, _ := os.Hostname()
	for _, s := range []string{secret, h.Dir, host} {
		if len(s) > 3 && strings.Contains(rep.Raw, s) {
			return fmt.Errorf("the report contains %q: %s", s, rep.Raw)
		}
	}
	for _, line := range strings.Split(strings.SplitN(rep.Raw, "\r\n\r\n", 2)[0], "\r\n")[1:] {
		k := strings.ToLower(strings.SplitN(line, ":", 2)[0])
		if !strings.Contains(" host user-agent content-length content-type accept-encoding accept connection ", " "+k+" ") {
			return fmt.Errorf("the report has an unannounced header: %s", line)
		}
	}
	return nil
}

func consent(c *Consent, r *vp.R) error {
	h := home("consent")
	post := box.NewPost()
	defer post.Close()
	env := post.Env(h)
	no := false // the user has said no
	known := false
	dir := false // the record is a directory
	said := ""
	desc := []string{}
	put(h.Sub("work", secret+".alda"), "piano \""+secret+"\": c d e")
	for i, u := range c.T {
		desc = append(desc, fmt.Sprintf("%q (env %q, fail %d)", u.Args, u.Env, u.Fail))
		r.Sample(strings.Join(desc, "; "))
		cmd := box.Cmd{Args: u.Args, Env: append([]string{"ALDA_DISABLE_TELEMETRY=" + u.Env}, env...), Stdin: u.Pipe}
		if u.Fail == 1 {
			cmd.Limit = -1
		}
		if f := h.Sub("config", "alda", "telemetry-status"); u.Mark != nil && there(f) {

			// Whatever it says now, it isn't the user who enabled telemetry.
			os.RemoveAll(f)
			if *u.Mark == "dir" {
				os.Mkdir(f, 0755)
			} else {
				put(f, *u.Mark)
			}
			known, dir = false, *u.Mark == "dir"
			r.Label("damaged")
			desc = append(desc, fmt.Sprintf("the record becomes %q", *u.Mark))
		}
		before := box.Files(h.Sub("config"))
		res := h.Run(cmd)
		fail := func(f string, a ...interface{}) error {
			return fmt.Errorf("command %d of %s: %s (status file: %v, then %v; %v)", i+1, strings.Join(desc, "; "), fmt.Sprintf(f, a...), before, box.Files(h.Sub("config")), res)
		}
		got := post.Take()
		dis := len(u.Args) > 1 && u.Args[len(u.Args)-1] == "--disable" && u.Args[len(u.Args)-2] == "telemetry"
		ena := len(u.Args) > 1 && u.Args[len(u.Args)-1] == "--enable" && u.Args[len(u.Args)-2] == "telemetry"
		if len(got) > 0 {
			r.Label("sent")
			if u.Env == "yes" {
				return fail("a report is sent in spite of the environment: %s", got[0].Raw)
			}
			if no && !ena {
				return fail("a report is sent although the user has disabled telemetry: %s", got[0].Raw)
			}
			if len(got) > 1 {
				return fail("%d reports are sent", len(got))
			}
			if err := announced(got[0], h, u.Cmd); err != nil {
				return fail("%v", err)
			}
		} else if no || u.Env == "yes" {
			r.Label("held back")
			r.NonTrivial()
		}
		if dis {
			if res.Code == 0 {
				no, known, said = true, true, "disabled"
			} else if u.Fail == 0 && !strings.Contains(strings.Join(u.Args, " "), "7") && !dir {
				return fail("telemetry cannot be disabled")
			}
		}
		if ena {
			if res.Code == 0 {
				no, known, said = false, true, "enabled"
			} else if u.Fail == 0 && !strings.Contains(strings.Join(u.Args, " "), "7") && !dir {
				return fail("telemetry cannot be enabled")
			} else {
				known = false
			}
		}
		if res.Code == 0 && len(u.Args) > 0 && (u.Args[len(u.Args)-1] == "--status" || u.Args[len(u.Args)-1] == "telemetry") {
			want := said
			if u.Env == "yes" {
				want = "disabled"
			}
			if (known || u.Env == "yes") && !strings.Contains(res.Out, "Telemetry is "+want) {
				return fail("the status should be %s", want)
			}
		}
	}
	return nil
}

// Crowd is a number of commands that run at the same time as the user disables
// telemetry.
type Crowd struct {
	First  int   // 0: never informed, 1 enabled, 2 disabled
	Rounds int   // how often
	Delay  []int // when the commands start, in units of 100 microseconds
	When   int   // when the user disables telemetry
}

func crowd(c *Crowd, r *vp.R) error {
	h := home("crowd")
	post := box.NewPost()
	defer post.Close()
	env := append([]string{"ALDA_DISABLE_TELEMETRY="}, post.Env(h)...)
	r.Sample(fmt.Sprintf("%d commands while telemetry is disabled, %d times, state %d", len(c.Delay), c.Rounds, c.First))
	r.NonTrivial()
	for n := 0; n < c.Rounds; n++ {
		os.RemoveAll(h.Sub("config", "alda"))
		switch c.First {
		case 1:
			h.Run(box.Cmd{Args: []string{"telemetry", "--enable"}, Env: env})
		case 2:
			h.Run(box.Cmd{Args: []string{"telemetry", "--disable"}, Env: env})
		}
		post.Take()
		done := make(chan bool)
		start := func(d int, args ...string) {
			go func() {
				time.Sleep(time.Duration(d) * 100 * time.Microsecond)
				h.Run(box.Cmd{Args: args, Env: env})
				done <- true
			}()
		}
		for i, d := range c.Delay {
			if i%2 == 0 {
				start(d, "version")
			} else {
				start(d, "ps")
			}
		}
		start(c.When, "telemetry", "--disable")
		for range c.Delay {
			<-done
		}
		<-done
		got := post.Take()
		if c.First == 2 && len(got) > 0 {
			return fmt.Errorf("telemetry was disabled, and is being disabled again, and a report is sent: %s", got[0].Raw)
		}
		for _, rep := range got {
			if err := announced(rep, h, ""); err != nil {
				return err
			}
		}
		res := h.Run(box.Cmd{Args: []string{"version"}, Env: env})
		if got := post.Take(); len(got) > 0 {
			return fmt.Errorf("round %d: after telemetry was disabled while other commands ran, a report is sent: %s (status file %v, %v)", n+1, got[0].Raw, box.Files(h.Sub("config")), res)
		}
	}
	return nil
}

func init() {
	vp.Add("P32", "history", 1200, 30000, func(t *rapid.T) *Consent {
		c := &Consent{}
		n := rapid.IntRange(1, 8).Draw(t, "turns")
		for i := 0; i < n; i++ {
			c.T = append(c.T, genTurn(t))
		}
		return c
	}, consent, vp.Flaky())
	vp.Add("P32", "concurrent", 144, 3000, func(t *rapid.T) *Crowd {
		return &Crowd{First: rapid.IntRange(0, 2).Draw(t, "first"), Rounds: 4, When: rapid.IntRange(0, 40).Draw(t, "when"),
			Delay: rapid.SliceOfN(rapid.IntRange(0, 60), 2, 6).Draw(t, "delays")}
	}, crowd)
}

func there(file string) bool {
	_, err := os.Lstat(file)
	return err == nil
}
