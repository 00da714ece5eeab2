package pbin

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"alda.io/client/interop/musicxml/importer"
	ajson "alda.io/client/json"
	"alda.io/client/model"
	"alda.io/client/parser"
	"alda.io/client/zzverif/box"
	"alda.io/client/zzverif/lang"
	"alda.io/client/zzverif/pimp"
	"alda.io/client/zzverif/vp"
	"pgregory.net/rapid"
)

// home is the scratch directory of the worker, emptied for each case.
func home(name string) *box.Home { return box.NewHome(name) }

func put(file, text string) {
	if err := os.WriteFile(file, []byte(text), 0644); err != nil {
		vp.Infra(err)
	}
}

// honest checks what any run owes: a result, or a failure with a message.
func honest(what string, ok bool, r box.Result) error {
	if r.Dead || strings.Contains(r.Err, "goroutine ") {
		return fmt.Errorf("%s: the program crashed: %v", what, r)
	}
	if ok && r.Code != 0 {
		return fmt.Errorf("%s should succeed, but: %v", what, r)
	}
	if !ok && r.Code == 0 {
		return fmt.Errorf("%s should fail, but: %v", what, r)
	}
	if !ok && strings.TrimSpace(r.Err) == "" {
		return fmt.Errorf("%s fails without a message on standard error: %v", what, r)
	}
	if !ok && r.Out != "" {
		return fmt.Errorf("%s fails, but there is output: %v", what, r)
	}
	return nil
}

// genText draws Alda code, most of it valid.
var group = regexp.MustCompile(`[a-z0-9-]{2}\s*/\s*[a-z]{2}`)

func genText(t *rapid.T) (string, bool) {
	evs := genScore(t)
	if len(evs) > 14 {
		evs = lang.Repair(evs[:14])
	}
	switch rapid.IntRange(0, 9).Draw(t, "text") {
	case 5:
		return lang.Render(lang.Spoil(t, evs), layout(t)).S, false
	case 6, 7:
		return genBad(t, evs), false
	case 8:
		return rapid.SampledFrom([]string{" ", "\n", "# only this", "# c\npiano: # d\n c # e", "piano:\r\n c d\r\n", "\ufeffpiano: c", "piano: c \u266f", "pi\xffano: c", "piano: c\x01", "-", "--", "-f", "piano: c\n\n\n", "(volume 50", "c d e", "piano: (foo 1)", "flöte: c"}).Draw(t, "odd"), false
	}
	s := lang.Render(evs, layout(t)).S
	// A choice of channels may turn out to be impossible, and so may a group of
	// instruments that turn out to be the same by two names.
	return s, !strings.Contains(s, "midi-channel") && !group.MatchString(s)
}

// bulky makes some texts long, or some of their lines.
func bulky(t *rapid.T, text string) string {
	if rapid.IntRange(0, 9).Draw(t, "bulky") < 9 {
		return text
	}
	n := rapid.SampledFrom([]int{4096, 32768, 65536, 131072, 262144}).Draw(t, "bulk") + rapid.IntRange(-30, 30).Draw(t, "more")
	pad := rapid.SampledFrom([]string{"x", "\u00e9", " ", "\n", "\t", "\r\n", "x\n# "}).Draw(t, "pad")
	pad = strings.Repeat(pad, n/len(pad))
	if strings.Contains(pad[:1], "x") || pad[0] > 127 {
		pad = "# " + pad
	}
	if rapid.Bool().Draw(t, "after") {
		return text + "\n" + pad + "\n"
	}
	return pad + "\n" + text
}

// Parsing is a use of alda parse.
type Parsing struct {
	Text   string
	Valid  bool
	Output string
	Args   int // the order of the options
}

func genParsing(t *rapid.T) *Parsing {
	p := &Parsing{Output: rapid.SampledFrom([]string{"data", "events", "ast", "ast-human", "", "datum"}).Draw(t, "output")}
	p.Text, p.Valid = genText(t)
	p.Text = bulky(t, p.Text)
	p.Args = rapid.IntRange(0, 7).Draw(t, "args")
	return p
}

// flags writes options in one of the ways they can be written.
func flags(n int, opts ...string) []string {
	long := map[string]string{"-f": "--file", "-c": "--code", "-o": "--output", "-i": "--import-format", "-w": "--wrap"}
	out := []string{}
	for i := 0; i+1 < len(opts); i += 2 {
		k, v := opts[i], opts[i+1]
		one := []string{k, v}
		if n&1 == 1 && long[k] != "" {
			one = []string{long[k], v}
			if n&2 == 2 {
				one = []string{long[k] + "=" + v}
			}
		}
		if n&4 == 4 {
			out = append(one, out...)
		} else {
			out = append(out, one...)
		}
	}
	return out
}

// parsed is what alda parse should print.
func parsed(text, output string) (string, error) {
	ast, err := parser.ParseString(text)
	if err != nil {
		return "", err
	}
	switch output {
	case "ast":
		return ast.JSON().String(), nil
	case "ast-human":
		o, err := ajson.ParseJSON([]byte(ast.JSON().String()))
		if err != nil {
			return "", err
		}
		return parser.HumanReadableAST(o), nil
	}
	ups, err := ast.Updates()
	if err != nil {
		return "", err
	}
	if output == "events" {
		l := ajson.Array()
		for _, u := range ups {
			l.ArrayAppend(u.JSON())
		}
		return l.String(), nil
	}
	s := model.NewScore()
	if err := s.Update(ups...); err != nil {
		return "", err
	}
	return s.JSON().String(), nil
}

func parsing(p *Parsing, r *vp.R) error {
	h := home("parse")
	r.Sample(fmt.Sprintf("alda parse -o %s, by file, argument and pipe: %s", p.Output, p.Text))
	put(h.Sub("work", "score.alda"), p.Text)
	before := box.Files(h.Sub("work"))
	want, werr := parsed(p.Text, p.Output)
	if p.Output == "datum" {
		werr = fmt.Errorf("no such output")
	} else if p.Valid && werr != nil {
		return fmt.Errorf("a valid score is rejected: %v", werr)
	}
	opts := func(more ...string) []string {
		if p.Output != "" {
			more = append(more, "-o", p.Output)
		}
		return append([]string{"parse"}, flags(p.Args, more...)...)
	}
	cs := []box.Cmd{{Args: opts("-f", "score.alda")}, {Args: opts(), Stdin: &p.Text}}
	names := []string{"parsing the file", "parsing what is piped in"}
	if p.Text != "" && len(p.Text) < 120000 && !strings.Contains(p.Text, "\x00") {
		cs, names = append(cs, box.Cmd{Args: opts("-c", p.Text)}), append(names, "parsing the argument")
	}
	rs := h.Both(cs...)
	if werr != nil {
		r.Label("rejected")
	}
	if len(p.Text) > 10 {
		r.NonTrivial()
	}
	for i, res := range rs {
		if err := honest(names[i], werr == nil, res); err != nil {
			if werr != nil {
				err = fmt.Errorf("%v (the reason to fail: %v)", err, werr)
			}
			return err
		}
		if werr != nil {
			continue
		}
		if !strings.HasSuffix(res.Out, "\n") {
			return fmt.Errorf("%s: the output does not end with a line break: %v", names[i], res)
		}
		got := strings.TrimSuffix(res.Out, "\n")
		if p.Output == "data" || p.Output == "" {
			if err := box.SameState(want, got); err != nil {
				return fmt.Errorf("%s: %v", names[i], err)
			}
		} else if strings.TrimRight(got, "\n") != strings.TrimRight(want, "\n") {
			return fmt.Errorf("%s gives %.500q, not %.500q", names[i], got, want)
		}
	}
	if werr != nil {
		msg := func(res box.Result) string { return strings.ReplaceAll(res.Err, "score.alda", "<no file>") }
		for i := range rs {
			if msg(rs[i]) != msg(rs[0]) {
				return fmt.Errorf("%s fails with %q, but %s with %q", names[i], rs[i].Err, names[0], rs[0].Err)
			}
		}
	}
	if err := box.SameFiles(before, box.Files(h.Sub("work"))); err != nil {
		return err
	}
	return nil
}

// Formatting is a use of alda format.
type Formatting struct {
	Text   string
	Valid  bool
	Wrap   string
	Indent string
	Over   bool
	Limit  int `json:",omitempty"`
	Link   int `json:",omitempty"`
	Args   int
}

func genFormatting(t *rapid.T) *Formatting {
	f := &Formatting{Over: rapid.IntRange(0, 3).Draw(t, "over") > 0}
	f.Text, f.Valid = genText(t)
	f.Wrap = rapid.SampledFrom([]string{"", "", "", "80", "20", "1", "200", "0", "-1", "-80", "x", "2.5"}).Draw(t, "wrap")
	f.Indent = rapid.SampledFrom([]string{"", "", "", "  ", "\t", "    "}).Draw(t, "indent")
	f.Args = rapid.IntRange(0, 7).Draw(t, "args")
	if f.Over {
		f.Link = rapid.IntRange(0, 5).Draw(t, "link")
		if f.Valid && rapid.IntRange(0, 5).Draw(t, "limited") == 5 {
			f.Limit = 1
			for n := rapid.IntRange(100, 400).Draw(t, "length"); n > 0; n-- {
				f.Text += "\npiano: c d e f g a b"
			}
		}
	}
	return f
}

// evals says whether two texts are the same score, or both none.
func evals(a, b string) error {
	x, ex := parsed(a, "events")
	y, ey := parsed(b, "events")
	if ex != nil {
		return nil // Formatting needs no more than a tree.
	}
	if ey != nil {
		return fmt.Errorf("the formatted score is rejected: %v", ey)
	}
	if x != y {
		return fmt.Errorf("the formatted score has other events: %s", firstDifference(x, y))
	}
	return nil
}

func firstDifference(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string {
		lo, hi := i-80, i+80
		if lo < 0 {
			lo = 0
		}
		if hi > len(s) {
			hi = len(s)
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("%q, not %q", cut(b), cut(a))
}

func formatting(f *Formatting, r *vp.R) error {
	h := home("format")
	r.Sample(fmt.Sprintf("alda format -w %q -i %q, overwriting: %v, write limit %d KiB: %.300s", f.Wrap, f.Indent, f.Over, f.Limit, f.Text))
	real := h.Sub("work", "score.alda")
	put(real, f.Text)
	put(h.Sub("work", "other.alda"), "piano: c")
	name := "score.alda"
	mode := os.FileMode(0644)
	switch f.Link {
	case 1:
		name = "link.alda"
		if err := os.Symlink("score.alda", h.Sub("work", name)); err != nil {
			vp.Infra(err)
		}
	case 2:
		os.Chmod(real, 0600)
		mode = 0600
	case 3:
		name = h.Sub("work", "score.alda")
	}
	before := box.Files(h.Sub("work"))
	opts := []string{"-f", name}
	if f.Wrap != "" {
		opts = append(opts, "-w", f.Wrap)
	}
	if f.Indent != "" {
		opts = append(opts, "--indent", f.Indent)
	}
	args := append([]string{"format"}, flags(f.Args, opts...)...)
	// What it should come to.
	root, werr := parser.ParseString(f.Text)
	if f.Valid && werr != nil {
		return fmt.Errorf("a valid score is rejected: %v", werr)
	}
	if werr == nil && (strings.HasPrefix(f.Wrap, "-") || f.Wrap == "x" || f.Wrap == "2.5") {
		werr = fmt.Errorf("bad length of lines")
	}
	over := append(append([]string{}, args...), "-o")
	if f.Args&4 == 4 {
		over = append([]string{"format", "--overwrite"}, args[1:]...)
	}
	plain := h.Run(box.Cmd{Args: args})
	if err := honest("formatting", werr == nil, plain); err != nil {
		return err
	}
	if err := box.SameFiles(before, box.Files(h.Sub("work"))); err != nil {
		return fmt.Errorf("after formatting to the standard output: %v", err)
	}
	if len(f.Text) > 10 && (f.Over || werr == nil) {
		r.NonTrivial()
	}
	if werr == nil {
		w := 0
		fmt.Sscan(f.Wrap, &w)
		var b bytes.Buffer
		var err error
		switch {
		case w > 0 && f.Indent != "":
			err = parser.FormatASTToCode(root, &b, parser.ConfigureSoftWrapLen(w), parser.ConfigureIndentText(f.Indent))
		case w > 0:
			err = parser.FormatASTToCode(root, &b, parser.ConfigureSoftWrapLen(w))
		case f.Indent != "":
			err = parser.FormatASTToCode(root, &b, parser.ConfigureIndentText(f.Indent))
		default:
			err = parser.FormatASTToCode(root, &b)
		}
		if err != nil {
			return fmt.Errorf("the library cannot format this: %v", err)
		}
		if b.String() != plain.Out {
			return fmt.Errorf("formatting with these options gives other text: %s", firstDifference(b.String(), plain.Out))
		}
		if err := evals(f.Text, plain.Out); err != nil {
			return err
		}
	}
	if !f.Over {
		return nil
	}
	res := h.Run(box.Cmd{Args: over, Limit: f.Limit})
	now, _ := os.ReadFile(real)
	if f.Limit > 0 {
		r.Label("cannot write")
		// It may fail in any way, but not lose anything, nor claim success.
		if string(now) != f.Text && string(now) != plain.Out {
			return fmt.Errorf("when it could not write %d bytes, formatting left a file of %d bytes: %.200q (%v)", len(plain.Out), len(now), now, res)
		}
		if res.Code == 0 && string(now) != plain.Out {
			return fmt.Errorf("formatting claims to have succeeded, but it left the file alone: %v", res)
		}
		return nil
	}
	if err := honest("formatting in place", werr == nil, res); err != nil {
		return err
	}
	if res.Out != "" {
		return fmt.Errorf("formatting in place prints %.200q", res.Out)
	}
	want := map[string]string{}
	for k, v := range before {
		want[k] = v
	}
	if werr == nil {
		r.Label("overwritten")
		want["score.alda"] = fmt.Sprintf("%v:%s", mode, plain.Out)
	} else {
		r.Label("rejected")
	}
	if err := box.SameFiles(want, box.Files(h.Sub("work"))); err != nil {
		return fmt.Errorf("after formatting in place (%v): %v", res, err)
	}
	return nil
}

// Importing is a use of alda import.
type Importing struct {
	XML    string
	Valid  bool
	Kind   string
	Target int // 0 none, 1 new file, 2 existing file, 3 through a link, 4 nowhere
	Limit  int
	Args   int
}

func genImporting(t *rapid.T) *Importing {
	m := &Importing{Valid: true, Kind: "musicxml"}
	m.XML = pimp.Gen(t, pimp.All).XML()
	if i := strings.LastIndex(m.XML, "</score-partwise>"); i > 0 && rapid.IntRange(0, 11).Draw(t, "bulky") == 11 {
		n := rapid.SampledFrom([]int{4096, 32768, 65536, 131072, 262144}).Draw(t, "bulk") + rapid.IntRange(-30, 30).Draw(t, "more")
		m.XML = m.XML[:i] + "<!-- " + strings.Repeat(rapid.SampledFrom([]string{"x", " ", "x\n"}).Draw(t, "pad"), n) + "-->" + m.XML[i:]
	}
	switch rapid.IntRange(0, 9).Draw(t, "how") {
	case 6: // cut off
		m.Valid = false
		m.XML = m.XML[:rapid.IntRange(0, len(m.XML)-1).Draw(t, "cut")]
	case 7:
		m.Valid = false
		m.XML = rapid.SampledFrom([]string{"", "piano: c d e", "<a/>", "<score-partwise/>", "<score-partwise><part/></score-partwise>", "not xml", "<?xml version=\"1.0\"?>", "<score-timewise></score-timewise>"}).Draw(t, "xml")
	case 8:
		m.Valid = false
		from := rapid.SampledFrom([]string{"<step>", "<octave>", "</measure>", "<duration>", "<divisions>", "<part-name", "<part id="}).Draw(t, "tag")
		m.XML = strings.Replace(m.XML, from, rapid.SampledFrom([]string{"", "<x>", from + "q", "<duration>"}).Draw(t, "with"), 1)
	case 9:
		m.Kind = rapid.SampledFrom([]string{"midi", "", "MusicXML"}).Draw(t, "kind")
	}
	m.Target = rapid.IntRange(0, 5).Draw(t, "target")
	if m.Target == 2 && rapid.IntRange(0, 3).Draw(t, "limited") == 3 {
		m.Limit = 1
	}
	m.Args = rapid.IntRange(0, 7).Draw(t, "args")
	return m
}

func importing(m *Importing, r *vp.R) error {
	h := home("import")
	r.Sample(fmt.Sprintf("alda import -i %s, target %d: %.300s", m.Kind, m.Target, m.XML))
	ups, werr := importer.ImportMusicXML([]byte(m.XML))
	var b bytes.Buffer
	if werr == nil {
		root, err := parser.GenerateASTFromScoreUpdates(ups)
		if err == nil {
			err = parser.FormatASTToCode(root, &b)
		}
		werr = err
	}
	if m.Valid && werr != nil {
		return fmt.Errorf("a valid score is rejected: %v", werr)
	}
	if m.Kind != "musicxml" {
		werr = fmt.Errorf("no such kind")
	}
	want := b.String()
	if m.Target == 4 {
		r.Label("target cannot be written")
	}
	opts := func(more ...string) []string {
		if m.Kind != "" {
			more = append(more, "-i", m.Kind)
		}
		switch m.Target {
		case 1, 2:
			more = append(more, "-o", "out.alda")
		case 3:
			more = append(more, "-o", "link.alda")
		case 4:
			more = append(more, "-o", "nowhere/out.alda")
		}
		return append([]string{"import"}, flags(m.Args, more...)...)
	}
	type use struct {
		name string
		cmd  box.Cmd
	}
	uses := []use{{"importing the file", box.Cmd{Args: opts("-f", "in.musicxml")}},
		{"importing what is piped in", box.Cmd{Args: opts(), Stdin: &m.XML}}}
	if m.XML != "" && len(m.XML) < 100000 && !strings.Contains(m.XML, "\x00") {
		uses = append(uses, use{"importing the argument", box.Cmd{Args: opts("-c", m.XML)}})
	}
	for i, u := range uses {
		put(h.Sub("work", "in.musicxml"), m.XML)
		target := h.Sub("work", "out.alda")
		const old = "piano: c d e # what was there"
		os.Remove(target)
		if m.Target == 2 || m.Target == 3 {
			put(target, old)
		}
		if m.Target == 3 && i == 0 {
			if err := os.Symlink("out.alda", h.Sub("work", "link.alda")); err != nil {
				vp.Infra(err)
			}
		}
		before := box.Files(h.Sub("work"))
		u.cmd.Limit = m.Limit
		res := h.Run(u.cmd)
		if m.Limit > 0 && len(want) > 1024 && werr == nil {
			r.Label("cannot write")
			now, _ := os.ReadFile(target)
			if string(now) != old && string(now) != want {
				return fmt.Errorf("%s: when it could not write %d bytes, it left a file of %d bytes (%v)", u.name, len(want), len(now), res)
			}
			if res.Code == 0 && string(now) != want {
				return fmt.Errorf("%s claims to have succeeded, but it left the file alone: %v", u.name, res)
			}
			for p := range box.Files(h.Sub("work")) {
				if before[p] == "" {
					os.Remove(h.Sub("work", p))
				}
			}
			continue
		}
		ok := werr == nil && m.Target != 4
		if err := honest(u.name, ok, res); err != nil {
			if werr != nil {
				err = fmt.Errorf("%v (the reason to fail: %v)", err, werr)
			}
			return err
		}
		expect := map[string]string{}
		for k, v := range before {
			expect[k] = v
		}
		out := ""
		if ok {
			if m.Target == 0 || m.Target == 5 {
				out = want
			} else {
				now, _ := os.ReadFile(target)
				if string(now) != want {
					return fmt.Errorf("%s: the file written is wrong: %s", u.name, firstDifference(want, string(now)))
				}
				expect["out.alda"] = box.Files(h.Sub("work"))["out.alda"]
			}
		}
		if res.Out != out {
			return fmt.Errorf("%s: the output is wrong: %s", u.name, firstDifference(out, res.Out))
		}
		if err := box.SameFiles(expect, box.Files(h.Sub("work"))); err != nil {
			return fmt.Errorf("after %s (%v): %v", u.name, res, err)
		}
	}
	if werr != nil {
		r.Label("rejected")
	}
	if len(m.XML) > 10 {
		r.NonTrivial()
	}
	return nil
}

// Misuse is a command line that cannot work.
type Misuse struct {
	Args  []string
	Stdin *string `json:",omitempty"`
}

func genMisuse(t *rapid.T) *Misuse {
	m := &Misuse{}
	cmd := rapid.SampledFrom([]string{"parse", "import", "format", "play", "export"}).Draw(t, "command")
	m.Args = []string{cmd}
	if cmd == "import" {
		m.Args = append(m.Args, "-i", "musicxml")
	}
	if cmd == "export" {
		m.Args = append(m.Args, "-o", "out.mid")
	}
	good := "score.alda"
	if cmd == "import" {
		good = "in.musicxml"
	}
	switch rapid.IntRange(0, 8).Draw(t, "how") {
	case 0:
		m.Args = append(m.Args, "-f", rapid.SampledFrom([]string{"nofile", "nodir/x", "score.alda/x", "dir", "loop"}).Draw(t, "file"))
		if cmd == "format" && rapid.Bool().Draw(t, "overwrite") {
			m.Args = append(m.Args, "-o")
		}
	case 1:
		m.Args = append(m.Args, "-f", good, "--nosuch")
	case 2:
		m.Args = append(m.Args, "-f", good, "-v", rapid.SampledFrom([]string{"4", "-1", "x", "99"}).Draw(t, "level"))
	case 3:
		if cmd == "format" || cmd == "play" {
			m.Args[0] = "parse"
		}
		// Nothing is piped in.
	case 4:
		m.Args[0] = rapid.SampledFrom([]string{"pars", "formt", "Play", "nosuch"}).Draw(t, "word")
	case 5:
		m.Args = append(m.Args, "-f")
	case 6:
		m.Args = []string{"export", "-f", "score.alda", "-o", "out.mid", "-O", rapid.SampledFrom([]string{"musicxml", "MIDI", "mid", "-"}).Draw(t, "output format")}
	case 7:
		m.Args = []string{"play", rapid.SampledFrom([]string{"score.alda", "c d e", "-f score.alda"}).Draw(t, "arg")}
	case 8:
		m.Args = []string{"telemetry", "--enable", "--disable"}
	}
	if rapid.Bool().Draw(t, "extra") {
		m.Args = append([]string{"-v", "0"}, m.Args...)
	}
	return m
}

func misuse(m *Misuse, r *vp.R) error {
	h := home("misuse")
	r.Sample(fmt.Sprintf("alda %q", m.Args))
	put(h.Sub("work", "score.alda"), "piano: c d e")
	put(h.Sub("work", "in.musicxml"), "<score-partwise version=\"4.0\"><part-list><score-part id=\"P1\"><part-name>Piano</part-name></score-part></part-list><part id=\"P1\"><measure number=\"1\"><attributes><divisions>1</divisions></attributes><note><pitch><step>C</step><octave>4</octave></pitch><duration>4</duration></note></measure></part></score-partwise>")
	os.Mkdir(h.Sub("work", "dir"), 0755)
	os.Symlink("loop", h.Sub("work", "loop"))
	put(filepath.Join(h.Sub("work", "dir"), "x"), "x")
	before := box.Files(h.Sub("work"))
	res := h.Run(box.Cmd{Args: m.Args, Stdin: m.Stdin})
	r.NonTrivial()
	if err := honest(fmt.Sprintf("alda %q", m.Args), false, res); err != nil {
		return err
	}
	return box.SameFiles(before, box.Files(h.Sub("work")))
}

func init() {
	vp.Add("P31", "parse", 800, 20000, genParsing, parsing, vp.Flaky())
	vp.Add("P31", "format", 800, 20000, genFormatting, formatting, vp.Flaky())
	vp.Add("P31", "import", 600, 15000, genImporting, importing, vp.Flaky())
	vp.Add("P31", "misuse", 240, 3000, genMisuse, misuse, vp.Flaky())
}
