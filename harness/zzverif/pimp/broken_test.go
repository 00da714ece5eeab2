package pimp

import (
	"encoding/xml"
	"fmt"
	"strings"

	"alda.io/client/parser"
	"alda.io/client/zzverif/vp"
	"pgregory.net/rapid"
)

// node is an XML element with its text before the children.
type node struct {
	tag, text string
	attrs     []xml.Attr
	kids      []*node
}

func tree(text string) *node {
	d := xml.NewDecoder(strings.NewReader(text))
	d.Strict = false
	root := &node{}
	stack := []*node{root}
	for {
		tok, err := d.RawToken()
		if err != nil {
			return root
		}
		top := stack[len(stack)-1]
		switch x := tok.(type) {
		case xml.StartElement:
			n := &node{tag: x.Name.Local, attrs: append([]xml.Attr{}, x.Attr...)}
			top.kids = append(top.kids, n)
			stack = append(stack, n)
		case xml.EndElement:
			stack = stack[:len(stack)-1]
		case xml.CharData:
			top.text += strings.TrimSpace(string(x))
		}
	}
}

func (n *node) copy() *node {
	c := &node{tag: n.tag, text: n.text, attrs: append([]xml.Attr{}, n.attrs...)}
	for _, k := range n.kids {
		c.kids = append(c.kids, k.copy())
	}
	return c
}

func (n *node) write(b *strings.Builder) {
	if n.tag != "" {
		b.WriteString("<" + n.tag)
		for _, a := range n.attrs {
			fmt.Fprintf(b, " %s=\"%s\"", a.Name.Local, esc.Replace(a.Value))
		}
		b.WriteString(">")
	}
	b.WriteString(esc.Replace(n.text))
	for _, k := range n.kids {
		k.write(b)
	}
	if n.tag != "" {
		b.WriteString("</" + n.tag + ">")
		if len(n.kids) > 0 || n.tag == "note" {
			b.WriteString("\n")
		}
	}
}

func (n *node) all() []*node {
	out := []*node{}
	for _, k := range n.kids {
		out = append(out, k)
		out = append(out, k.all()...)
	}
	return out
}

var texts = []string{"", "0", "-1", "1", "2", "3", "7", "12", "127", "128", "129", "200", "-128", "1.5", "2.0", "-0.5", "1e9",
	"NaN", "Inf", "-Inf", "x", "é", " 3 ", "99999999999999999999", "4294967297", "2147483647", "0.0000001", "1e-300", "1e300", "C", "H", "BB", "sharp", "1, 2", "1,,3", "2147483648",
	"0x10", "1_0", "+4", "\u0664", "\t", "&", "stop", "start", "forward", "backward", "discontinue", "no"}

var tags = []string{"note", "chord", "rest", "pitch", "step", "alter", "octave", "duration", "tie", "voice", "dot", "accidental", "notations", "slur",
	"unpitched", "instrument", "grace", "cue", "measure", "part", "barline", "ending", "repeat", "attributes", "divisions", "key", "fifths", "key-step", "transpose",
	"chromatic", "octave-change", "backup", "forward", "direction", "direction-type", "dynamics", "p", "ff", "zz", "score-part", "part-list", "part-name",
	"midi-instrument", "midi-program", "midi-unpitched", "score-partwise", "score-timewise"}

func spoil(t *rapid.T, root *node) string {
	all := root.all()
	pick := func() *node {
		// the names of elements first, so that rare ones are hit as well
		names := []string{}
		seen := map[string]bool{}
		for _, n := range all {
			if !seen[n.tag] {
				seen[n.tag] = true
				names = append(names, n.tag)
			}
		}
		name := rapid.SampledFrom(names).Draw(t, "name")
		of := []*node{}
		for _, n := range all {
			if n.tag == name {
				of = append(of, n)
			}
		}
		return of[rapid.IntRange(0, len(of)-1).Draw(t, "which")]
	}
	parent := func(n *node) (*node, int) {
		for _, p := range append([]*node{root}, all...) {
			for i, k := range p.kids {
				if k == n {
					return p, i
				}
			}
		}
		return root, -1
	}
	cut := func(n *node) {
		if p, i := parent(n); i >= 0 {
			p.kids = append(append([]*node{}, p.kids[:i]...), p.kids[i+1:]...)
		}
	}
	put := func(p *node, i int, n *node) {
		ks := append([]*node{}, p.kids[:i]...)
		ks = append(ks, n)
		p.kids = append(ks, p.kids[i:]...)
	}
	within := func(n, x *node) bool {
		if n == x {
			return true
		}
		for _, k := range n.all() {
			if k == x {
				return true
			}
		}
		return false
	}
	for i := rapid.IntRange(1, 4).Draw(t, "n"); i > 0 && len(all) > 0; i-- {
		n := pick()
		switch k := rapid.IntRange(0, 9).Draw(t, "k"); k {
		case 0, 1:
			// drop
			cut(n)
		case 2:
			// double
			if p, i := parent(n); i >= 0 {
				put(p, i, n.copy())
			}
		case 3, 4:
			// text
			n.text = rapid.SampledFrom(texts).Draw(t, "text")
		case 5:
			// attr
			if len(n.attrs) > 0 {
				j := rapid.IntRange(0, len(n.attrs)-1).Draw(t, "attr")
				if rapid.Bool().Draw(t, "gone") {
					n.attrs = append(n.attrs[:j:j], n.attrs[j+1:]...)
				} else {
					n.attrs[j].Value = rapid.SampledFrom(texts).Draw(t, "value")
				}
			} else {
				n.attrs = append(n.attrs, xml.Attr{Name: xml.Name{Local: rapid.SampledFrom([]string{"times", "number", "type", "id", "direction"}).Draw(t, "key")}, Value: rapid.SampledFrom(texts).Draw(t, "value")})
			}
		case 6:
			// rename
			n.tag = rapid.SampledFrom(tags).Draw(t, "tag")
		case 7:
			// move
			m := pick()
			if !within(n, m) {
				cut(n)
				put(m, rapid.IntRange(0, len(m.kids)).Draw(t, "at"), n)
			}
		case 8:
			// add
			put(n, rapid.IntRange(0, len(n.kids)).Draw(t, "at"), &node{tag: rapid.SampledFrom(tags).Draw(t, "tag"), text: rapid.SampledFrom(texts).Draw(t, "text")})
		default:
			// unwrap
			if p, i := parent(n); i >= 0 && p != root {
				cut(n)
				for _, k := range n.kids {
					put(p, i, k)
					i++
				}
			}
		}
		all = root.all()
	}
	var b strings.Builder
	root.write(&b)
	return b.String()
}

// Doc is an input of import.
type Doc struct {
	Text  string `json:",omitempty"`
	Bytes []byte `json:",omitempty"`
}

func clean(d *Doc, r *vp.R) error {
	text := d.Text
	if d.Bytes != nil {
		text = string(d.Bytes)
	}
	first := ""
	for i := 0; i < 3; i++ {
		code, err, werr := toAlda(text)
		res := fmt.Sprintf("%q %v %v", code, err, werr)
		if i == 0 {
			first = res
			if err == nil {
				r.Label("accepted")
			}
			if err != nil && strings.Contains(err.Error(), "element") || err == nil {
				r.NonTrivial()
			}
			if werr != nil {
				return fmt.Errorf("imported, but not written: %v", werr)
			}
			if err != nil && strings.TrimSpace(err.Error()) == "" {
				return fmt.Errorf("empty error message")
			}
			if err == nil {
				if _, perr := parser.ParseString(code); perr != nil {
					return fmt.Errorf("what was imported is not Alda code: %v\n%s", perr, code)
				}
			}
			r.Sample(text)
		} else if res != first {
			return fmt.Errorf("importing again gives something else:\n%s\n---\n%s", first, res)
		}
	}
	return nil
}

func genBroken(t *rapid.T) *Doc {
	return &Doc{Text: spoil(t, tree(Gen(t, All).XML()))}
}

func genBytes(t *rapid.T) *Doc {
	b := []byte{}
	switch rapid.IntRange(0, 3).Draw(t, "kind") {
	case 0:
		b = rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "bytes")
	case 1:
		for i := rapid.IntRange(0, 30).Draw(t, "n"); i > 0; i-- {
			w := rapid.SampledFrom([]string{"<", ">", "</", "/>", "<!--", "-->", "<![CDATA[", "]]>", "<?xml", "?>", "&", ";", "&amp;", "&#0;", "\"", "=", "'", " ", "\n", "\xff", "\x00", "<!DOCTYPE", "<!ENTITY a \"&a;\">", "xmlns"}).Draw(t, "p")
			if rapid.Bool().Draw(t, "tag") {
				w = rapid.SampledFrom(tags).Draw(t, "w")
			}
			b = append(b, w...)
		}
	default:
		b = []byte(Gen(t, All).XML())
		for i := rapid.IntRange(1, 3).Draw(t, "n"); i > 0 && len(b) > 0; i-- {
			at := rapid.IntRange(0, len(b)-1).Draw(t, "at")
			switch rapid.IntRange(0, 3).Draw(t, "how") {
			case 0:
				b = b[:at]
			case 1:
				b[at] = rapid.Byte().Draw(t, "byte")
			case 2:
				to := at + rapid.IntRange(0, 40).Draw(t, "cut")
				if to > len(b) {
					to = len(b)
				}
				b = append(append([]byte{}, b[:at]...), b[to:]...)
			default:
				b = append(append(append([]byte{}, b[:at]...), rapid.SliceOfN(rapid.Byte(), 1, 4).Draw(t, "in")...), b[at:]...)
			}
		}
	}
	if b == nil {
		b = []byte{}
	}
	return &Doc{Bytes: b}
}

func init() {
	vp.Add("P27", "broken", 2000, 40000, genBroken, clean)
	vp.Add("P27", "bytes", 2000, 40000, genBytes, clean)
}
