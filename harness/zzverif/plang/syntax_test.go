package plang

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"strings"
	"unicode/utf8"

	"alda.io/client/model"
	"alda.io/client/parser"
	"alda.io/client/zzverif/lang"
	"alda.io/client/zzverif/vp"
	"pgregory.net/rapid"
)

// genText draws a well-formed score in one of several ways.
func genText(t *rapid.T) Case {
	lay := layout(t)
	var e []*lang.Ev
	switch rapid.IntRange(0, 3).Draw(t, "how") {
	case 0, 1:
		e = lang.GenTree(t, 18)
	case 2:
		e = lang.GenAny(t, lang.Base())
	case 3:
		p := lang.Base()
		p.Ms = true
		e = lang.GenAny(t, p)
	}
	return Case{E: lang.OpenVoices(e, lay), Lay: lay}
}

func parse(text string) ([]model.ScoreUpdate, parser.ASTNode, error) {
	root, err := parser.ParseString(text)
	if err != nil {
		return nil, root, err
	}
	ups, err := root.Updates()
	return ups, root, err
}

// position returns the innermost known position of an error.
func position(err error) (line, col int, ok bool) {
	var ase *model.AldaSourceError
	for errors.As(err, &ase) {
		if ase.Context.Line != 0 {
			line, col, ok = ase.Context.Line, ase.Context.Column, true
		}
		err = ase.Err
	}
	return
}

// inside tells whether a position exists in a text: every character has one,
// and so has the end.
func inside(text string, line, col int) bool {
	l, c := 1, 1
	for _, r := range text {
		if l == line && c == col {
			return true
		}
		if r == '\n' {
			l, c = l+1, 1
		} else {
			c++
		}
	}
	return l == line && c == col
}

func kinds(evs []*lang.Ev) int {
	m := map[string]bool{}
	lang.Walk(evs, func(e *lang.Ev, d int) { m[e.K] = true })
	return len(m)
}

// Soup is arbitrary input text.
type Soup struct{ S string }

var soupToks = []string{"c", "d4", "e8.", "f+", "g-", "a_", "b~", "r", "r2", "o4", ">", "<", "|", "/", "[", "]", "{", "}",
	"(", ")", "(tempo 120)", "(volume", "'", "'1", "'1-3,5", "*2", "*", "*0", "~", "1", "16.", "500ms", "2s", "0.5", "V1:", "V0:", "V2",
	"%m", "@m", "%", "piano:", "piano \"x\":", "x/y:", "violin", "foo", "foo =", "=", "\n", "\"", "#", "# x\n", ":", "!", "-", "+", "_", "\t", " ", "  ",
	"\r\n", "é", "♭", "\x00", "'(", "(key-signature \"f+\")", "(quote a)", "(mf)", "mf", "(vol! 3)", "-1", "(-)", "1/2", "{c d}4", "[c d]*3", "c/e/g", "c1~2", "()", "99999999999999999999", "1e9", ".", "..", ",", "V", "o", "V1", "cc", "x", "(note (pitch '(c)))"}

func genSoup(t *rapid.T) Soup {
	switch rapid.IntRange(0, 4).Draw(t, "soup") {
	case 0:
		return Soup{rapid.StringN(0, 60, -1).Draw(t, "s")}
	case 1, 2:
		var b strings.Builder
		for _, k := range rapid.SliceOfN(rapid.SampledFrom(soupToks), 0, 30).Draw(t, "toks") {
			b.WriteString(k)
			if rapid.IntRange(0, 2).Draw(t, "sp") > 0 {
				b.WriteByte(' ')
			}
		}
		return Soup{b.String()}
	}
	c := genText(t)
	s := lang.Render(c.E, c.Lay).S
	for i := rapid.IntRange(1, 3).Draw(t, "edits"); i > 0 && len(s) > 0; i-- {
		at := rapid.IntRange(0, len(s)-1).Draw(t, "at")
		for at > 0 && !utf8.RuneStart(s[at]) {
			at--
		}
		_, w := utf8.DecodeRuneInString(s[at:])
		switch rapid.IntRange(0, 3).Draw(t, "edit") {
		case 0: // delete
			s = s[:at] + s[at+w:]
		case 1: // insert
			s = s[:at] + rapid.SampledFrom(soupToks).Draw(t, "tok") + s[at:]
		case 2: // cut off
			s = s[:at]
		case 3: // duplicate a stretch
			end := at + rapid.IntRange(1, 12).Draw(t, "len")
			if end > len(s) {
				end = len(s)
			}
			for end < len(s) && !utf8.RuneStart(s[end]) {
				end++
			}
			s = s[:end] + s[at:]
		}
	}
	return Soup{s}
}

func lispDepth(toks []*lang.Tok, i int) int {
	d := 0
	for _, k := range toks[:i] {
		switch k.Kind {
		case "(":
			d++
		case ")":
			d--
		}
	}
	return d
}

// Inject is a score with one foreign piece of text in it.
type Inject struct {
	E  []*lang.Ev
	At int
	S  string
}

var foreign = []string{"$", "?", "&", ";", "^", "\\", "é", "♯", ",", "!", "`", ".", "\x00", "H", "h", "x", "Z", "]", "}", ")", "[", "{", "("}

// junk is what can stand nowhere between two events.
var junk = []string{"/ /", "= =", ": :", "*", "* *", "%", "@ ", "'", "' '", "V", "V1", "o", "o ", "\"\"", "~ | ~ ~", "piano \"a b\":", "piano/:", "piano \"ab!:", "piano \"ab :", "piano/violin \"ab:", "piano \"ab!\":", "piano \"!ab\":", "\"x", "(tempo 120", "[c", "{c", "c/ |", "''", "*-1", "*x", "'x", "'0-", "o-1", "V-1:", "(')", "(tempo '", "x y z =", ".5",
	"o99999999999", "V99999999999:", "c*99999999999", "[c '99999999999]", "[c '1-99999999999]", "c" + strings.Repeat("9", 400), "r" + strings.Repeat("9", 320) + "ms", "(volume " + strings.Repeat("9", 330) + ")"}

func inject(c Inject) (text string, tok *lang.Tok, line, col int, toks []*lang.Tok, idx int) {
	txt := lang.Render(c.E, nil)
	i := c.At % (len(txt.Toks) + 1)
	if i < 0 {
		i = 0
	}
	if i == len(txt.Toks) {
		line, col = 1, 1
		for _, r := range txt.S {
			if r == '\n' {
				line, col = line+1, 1
			} else {
				col++
			}
		}
		return txt.S + " " + c.S, nil, line, col + 1, txt.Toks, i
	}
	k := txt.Toks[i]
	return txt.S[:k.Off] + " " + c.S + " " + txt.S[k.Off:], k, k.Line, k.Col + 1, txt.Toks, i
}

func balanced(s string) bool { return !strings.ContainsAny(s, "[]{}()") }

func init() {
	vp.Add("P01", "tree", 6000, 300000, genText, func(c Case, r *vp.R) error {
		txt := lang.Render(c.E, c.Lay)
		r.Sample(txt.S)
		if kinds(c.E) >= 4 {
			r.NonTrivial()
		}
		ups, _, err := parse(txt.S)
		if err != nil {
			return fmt.Errorf("well-formed score rejected: %v", err)
		}
		got, err := lang.FromUpdates(ups)
		if err != nil {
			return err
		}
		return lang.SameCanon(c.E, got)
	})
	vp.Add("P01", "soup", 8000, 600000, genSoup, func(c Soup, r *vp.R) error {
		r.Sample(c.S)
		ups, root, err := parse(c.S)
		ups2, root2, err2 := parse(c.S)
		if (err == nil) != (err2 == nil) || err != nil && err.Error() != err2.Error() {
			return fmt.Errorf("the same text gives %v, and then %v", err, err2)
		}
		if err == nil {
			r.Label("accepted")
			if len(ups) > 0 {
				r.NonTrivial()
			}
			if root.JSON().String() != root2.JSON().String() || lang.Dump(ups) != lang.Dump(ups2) {
				return fmt.Errorf("the same text gives different results")
			}
		} else {
			r.Label("rejected")
			if _, _, ok := position(err); ok {
				r.NonTrivial()
			}
			if strings.TrimSpace(err.Error()) == "" {
				return fmt.Errorf("rejected without a message")
			}
		}
		return nil
	})
	vp.Add("P01", "reject", 4000, 200000, func(t *rapid.T) Inject {
		e := lang.GenTree(t, 12)
		return Inject{E: e, At: rapid.IntRange(0, 400).Draw(t, "at"), S: rapid.SampledFrom(foreign).Draw(t, "what")}
	}, func(c Inject, r *vp.R) error {
		text, _, _, _, toks, i := inject(c)
		if lispDepth(toks, i) > 0 && (balanced(c.S) || c.S == ")") {
			return nil // within Lisp, it is a symbol, or makes what follows a name
		}
		r.NonTrivial()
		r.Sample(text)
		if _, _, err := parse(text); err == nil {
			return fmt.Errorf("accepted, though %q cannot stand there", c.S)
		}
		return nil
	})
	vp.Add("P01", "junk", 4000, 200000, func(t *rapid.T) Inject {
		e := lang.GenTree(t, 12)
		return Inject{E: e, At: rapid.IntRange(0, 400).Draw(t, "at"), S: rapid.SampledFrom(junk).Draw(t, "what")}
	}, func(c Inject, r *vp.R) error {
		// between two events of the outermost level
		txt := lang.Render(c.E, nil)
		i := c.At % (len(c.E) + 1)
		text := ""
		if i == len(c.E) {
			text = txt.S + " " + c.S
		} else {
			first, _ := txt.Span(c.E[i])
			text = txt.S[:first.Off] + " " + c.S + " " + txt.S[first.Off:]
		}
		r.NonTrivial()
		r.Sample(text)
		if _, _, err := parse(text); err == nil {
			return fmt.Errorf("accepted, though %q cannot stand there", c.S)
		}
		return nil
	})

	vp.Add("P02", "events", 5000, 250000, genText, func(c Case, r *vp.R) error {
		txt := lang.Render(c.E, c.Lay)
		r.Sample(txt.S)
		if strings.Count(txt.S, "\n") >= 1 && kinds(c.E) >= 4 {
			r.NonTrivial()
		}
		ups, _, err := parse(txt.S)
		if err != nil {
			return nil // decided by P01
		}
		return positions(txt, c.E, ups)
	})
	vp.Add("P02", "tree", 5000, 250000, genText, func(c Case, r *vp.R) error {
		txt := lang.Render(c.E, c.Lay)
		r.Sample(txt.S)
		if strings.Count(txt.S, "\n") >= 1 && kinds(c.E) >= 4 {
			r.NonTrivial()
		}
		_, root, err := parse(txt.S)
		if err != nil {
			return nil
		}
		lines := strings.Split(txt.S, "\n")
		return nodePositions(root, lines)
	})
	vp.Add("P02", "bad-characters", 3000, 150000, func(t *rapid.T) Inject {
		e := lang.GenTree(t, 14)
		return Inject{E: e, At: rapid.IntRange(0, 400).Draw(t, "at"), S: rapid.SampledFrom([]string{"$", "?", "&", ";", "^", "\\", "é", "♯", "!", "`", "\x00"}).Draw(t, "what")}
	}, func(c Inject, r *vp.R) error {
		text, _, line, col, toks, i := inject(c)
		if lispDepth(toks, i) > 0 {
			return nil
		}
		r.Sample(text)
		r.NonTrivial()
		_, _, err := parse(text)
		if err == nil {
			return nil // decided by P01
		}
		l, co, ok := position(err)
		if !ok {
			return fmt.Errorf("error without a position: %v", err)
		}
		if l != line || co != col {
			return fmt.Errorf("the unacceptable character is at %d:%d, reported at %d:%d: %v", line, col, l, co, err)
		}
		return nil
	})
	vp.Add("P02", "soup", 5000, 300000, genSoup, func(c Soup, r *vp.R) error {
		r.Sample(c.S)
		g := func() (err error) {
			defer func() {
				if recover() != nil {
					err = nil // decided by P01 and P19
				}
			}()
			_, _, err = parse(c.S)
			return
		}()
		if g == nil {
			return nil
		}
		r.NonTrivial()
		l, co, ok := position(g)
		if !ok {
			return fmt.Errorf("error without a position: %v", g)
		}
		if !inside(c.S, l, co) {
			return fmt.Errorf("the error is reported at %d:%d, which is not in the text: %v", l, co, g)
		}
		return nil
	})
	vp.Add("P02", "evaluation", 4000, 200000, func(t *rapid.T) Case {
		p := lang.Base()
		p.Ms = true
		return Case{E: lang.Spoil(t, lang.GenAny(t, p)), Lay: layout(t)}
	}, evalError)
}

// positions compares the positions of events with where they were written.
func positions(txt *lang.Text, evs []*lang.Ev, ups []model.ScoreUpdate) error {
	var bad error
	check := func(what string, ctx model.AldaSourceContext, toks []*lang.Tok) {
		if bad != nil {
			return
		}
		for _, k := range toks {
			if k.Line == ctx.Line && k.Col == ctx.Column {
				return
			}
		}
		bad = fmt.Errorf("%s was written at %d:%d, its position is given as %d:%d", what, toks[0].Line, toks[0].Col, ctx.Line, ctx.Column)
	}
	var lx func(x *lang.Lx, f model.LispForm)
	anchor := map[*lang.Lx]*lang.Tok{}
	for _, k := range txt.Toks {
		if k.X != nil {
			anchor[k.X] = k
		}
	}
	lx = func(x *lang.Lx, f model.LispForm) {
		hs, ok := f.(model.HasSourceContext)
		if ok && anchor[x] != nil {
			check("Lisp form "+anchor[x].Text, hs.GetSourceContext(), []*lang.Tok{anchor[x]})
		}
		switch f := f.(type) {
		case model.LispList:
			for i, k := range f.Elements {
				if i < len(x.Kids) {
					lx(x.Kids[i], k)
				}
			}
		case model.LispQuotedForm:
			lx(x.Kids[0], f.Form)
		}
	}
	var walk func(evs []*lang.Ev, ups []model.ScoreUpdate)
	skip := func(evs []*lang.Ev) []*lang.Ev {
		out := []*lang.Ev{}
		for _, e := range evs {
			if e.K != "|" {
				out = append(out, e)
			}
		}
		return out
	}
	one := func(e *lang.Ev, u model.ScoreUpdate) {
		hs, ok := u.(model.HasSourceContext)
		if !ok {
			return
		}
		ctx := hs.GetSourceContext()
		toks := txt.Within(e)
		first := toks[:1]
		what := "event " + first[0].Text
		switch u := u.(type) {
		case model.Chord:
			check(what, ctx, first)
			walk(e.E, u.Events)
		case model.EventSequence:
			check(what, ctx, first)
			walk(e.E, u.Events)
		case model.Cram:
			check(what, ctx, first)
			walk(e.E, u.Events)
		case model.Repeat:
			check("repeat", ctx, toks)
			walk(e.E, []model.ScoreUpdate{u.Event})
		case model.OnRepetitions:
			check("event on repetitions", ctx, toks)
			walk(e.E, []model.ScoreUpdate{u.Event})
		case model.VariableDefinition:
			check("definition", ctx, toks[:2])
			walk(e.E, u.Events)
		case model.LispList:
			check(what, ctx, first)
			lx(e.X, u)
		default:
			check(what, ctx, first)
		}
	}
	walk = func(evs []*lang.Ev, ups []model.ScoreUpdate) {
		evs = skip(evs)
		us := []model.ScoreUpdate{}
		for _, u := range ups {
			if _, ok := u.(model.Barline); !ok {
				us = append(us, u)
			}
		}
		if len(evs) != len(us) {
			return // decided by P01
		}
		for i := range evs {
			one(evs[i], us[i])
		}
	}
	walk(evs, ups)
	if bad != nil {
		return bad
	}
	// Bar lines, wherever they went.
	bars := []*lang.Tok{}
	for _, k := range txt.Toks {
		if k.Kind == "B" {
			bars = append(bars, k)
		}
	}
	got := []model.AldaSourceContext{}
	collectBars(ups, &got)
	if len(got) == len(bars) {
		for i, k := range bars {
			check("bar line", got[i], []*lang.Tok{k})
		}
	}
	return bad
}

func collectBars(ups []model.ScoreUpdate, out *[]model.AldaSourceContext) {
	dur := func(d model.Duration) {
		for _, c := range d.Components {
			if b, ok := c.(model.Barline); ok {
				*out = append(*out, b.SourceContext)
			}
		}
	}
	for _, u := range ups {
		switch u := u.(type) {
		case model.Barline:
			*out = append(*out, u.SourceContext)
		case model.Note:
			dur(u.Duration)
		case model.Rest:
			dur(u.Duration)
		case model.Chord:
			collectBars(u.Events, out)
		case model.EventSequence:
			collectBars(u.Events, out)
		case model.Cram:
			collectBars(u.Events, out)
			dur(u.Duration)
		case model.Repeat:
			collectBars([]model.ScoreUpdate{u.Event}, out)
		case model.OnRepetitions:
			collectBars([]model.ScoreUpdate{u.Event}, out)
		case model.VariableDefinition:
			collectBars(u.Events, out)
		}
	}
}

// startsWith gives the text that each kind of node must stand at.
func startsWith(n parser.ASTNode) string {
	s, _ := n.Literal.(string)
	switch n.Type {
	case parser.NoteLetterNode:
		if c, ok := n.Literal.(rune); ok {
			return string(c)
		}
	case parser.RestNode:
		return "r"
	case parser.FlatNode:
		return "-"
	case parser.SharpNode:
		return "+"
	case parser.NaturalNode:
		return "_"
	case parser.TieNode:
		return "~"
	case parser.BarlineNode:
		return "|"
	case parser.OctaveSetNode:
		return fmt.Sprintf("o%v", n.Literal)
	case parser.OctaveUpNode:
		return ">"
	case parser.OctaveDownNode:
		return "<"
	case parser.PartNameNode, parser.VariableNameNode, parser.VariableReferenceNode, parser.LispSymbolNode:
		return s
	case parser.PartAliasNode, parser.LispStringNode:
		return "\"" + s + "\""
	case parser.LispListNode:
		return "("
	case parser.LispQuotedFormNode:
		return "'"
	case parser.MarkerNode:
		return "%" + s
	case parser.AtMarkerNode:
		return "@" + s
	case parser.CramNode:
		return "{"
	}
	return ""
}

func nodePositions(n parser.ASTNode, lines []string) error {
	if n.SourceContext.Line > 0 {
		l, c := n.SourceContext.Line, n.SourceContext.Column
		if l > len(lines) || c < 1 || c > len([]rune(lines[l-1]))+1 {
			return fmt.Errorf("%v is at %d:%d, outside of the text", n.Type, l, c)
		}
		rest := string([]rune(lines[l-1])[c-1:])
		if w := startsWith(n); w != "" && !strings.Contains(w, "\n") && !strings.HasPrefix(rest, w) {
			return fmt.Errorf("%v %v is said to be at %d:%d, where the text is %q", n.Type, n.Literal, l, c, rest)
		}
		digit := strings.ContainsAny(rest[:min(1, len(rest))], "-0123456789")
		switch n.Type {
		case parser.NoteLengthNode, parser.NoteLengthMsNode, parser.NoteLengthSecondsNode, parser.LispNumberNode:
			if !digit {
				return fmt.Errorf("%v is said to be at %d:%d, where the text is %q", n.Type, l, c, rest)
			}
		}
	} else {
		switch n.Type {
		case parser.NoteNode, parser.RestNode, parser.LispListNode, parser.LispSymbolNode, parser.LispNumberNode, parser.LispStringNode, parser.PartNameNode,
			parser.VariableReferenceNode, parser.MarkerNode, parser.AtMarkerNode, parser.OctaveSetNode, parser.OctaveUpNode, parser.OctaveDownNode, parser.NoteLetterNode,
			parser.CramNode, parser.ChordNode, parser.RepeatNode, parser.PartDeclarationNode, parser.BarlineNode, parser.NoteLengthNode:
			return fmt.Errorf("%v %v has no position", n.Type, n.Literal)
		}
	}
	for _, k := range n.Children {
		if err := nodePositions(k, lines); err != nil {
			return err
		}
	}
	return nil
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func evalError(c Case, r *vp.R) error {
	lang.ResetCaptured()
	txt := lang.Render(c.E, c.Lay)
	r.Sample(txt.S)
	ref := lang.NewScore()
	err := ref.Run(c.E)
	ee, ok := err.(*lang.EvalErr)
	if !ok || ref.Ambiguous {
		return nil
	}
	g := lang.Eval(txt.S)
	if g.ParseErr != nil || g.EvalErr == nil {
		return nil // decided elsewhere
	}
	r.NonTrivial()
	r.Label(ee.Kind)
	l, co, ok := position(g.EvalErr)
	if !ok {
		return fmt.Errorf("error without a position: %v", g.EvalErr)
	}
	cand := []*lang.Tok{}
	if f := txt.Within(ee.Ev); len(f) > 0 {
		if ee.Ev.K == "(" {
			cand = append(cand, f...)
		} else {
			cand = append(cand, f[0])
		}
	}
	for _, e := range ee.Path {
		if e.K == "[" && len(cand) > 0 {
			continue
		}
		if f := txt.Within(e); len(f) > 0 {
			cand = append(cand, f[0])
			if e.K == "'" || e.K == "*" {
				cand = append(cand, f[len(f)-1])
			}
		}
	}
	for _, k := range cand {
		if k.Line == l && k.Col == co {
			if k == cand[0] {
				r.Label("exact")
			}
			return nil
		}
	}
	if len(cand) == 0 {
		if !inside(txt.S, l, co) {
			return fmt.Errorf("reported at %d:%d, outside of the text: %v", l, co, g.EvalErr)
		}
		return nil
	}
	return fmt.Errorf("the error (%v) is caused at %d:%d, reported at %d:%d: %v", ee, cand[0].Line, cand[0].Col, l, co, g.EvalErr)
}

func jsonOf(s string) (interface{}, error) {
	d := json.NewDecoder(bytes.NewReader([]byte(s)))
	var v interface{}
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	if d.More() {
		return nil, fmt.Errorf("more than one JSON value")
	}
	return v, nil
}
