package box

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
)

// Canon brings the JSON of a score into a form that does not depend on the
// identifiers of its parts: parts are ordered by what they are and
// play. The order of the notes is left out, since it means nothing.
func Canon(text string) (map[string]interface{}, error) {
	var m map[string]interface{}
	if err := json.Unmarshal([]byte(text), &m); err != nil {
		return nil, fmt.Errorf("the score's data is not a JSON object: %v", err)
	}
	bars(m)
	parts, ok := m["parts"].(map[string]interface{})
	if !ok {
		return nil, fmt.Errorf("the score's data has no parts")
	}
	own := map[string][]string{}
	events, _ := m["events"].([]interface{})
	for i, e := range events {
		em, _ := e.(map[string]interface{})
		id, ok := em["part"].(string)
		if !ok || parts[id] == nil {
			return nil, fmt.Errorf("event %d is of part %v, which is not listed", i, em["part"])
		}
		delete(em, "part")
		b, _ := json.Marshal(em)
		own[id] = append(own[id], string(b))
	}
	refs := func(id string, v interface{}) int {
		l, _ := v.([]interface{})
		n := 0
		for _, x := range l {
			if x == id {
				n++
			}
		}
		return n
	}
	key := map[string]string{}
	ids := []string{}
	for id, p := range parts {
		ids = append(ids, id)
		b, _ := json.Marshal(p)
		sort.Strings(own[id])
		k := string(b) + strings.Join(own[id], " ")
		if al, ok := m["aliases"].(map[string]interface{}); ok {
			names := []string{}
			for n, v := range al {
				if c := refs(id, v); c > 0 {
					names = append(names, fmt.Sprintf("%s*%d", n, c))
				}
			}
			sort.Strings(names)
			k += strings.Join(names, " ")
		}
		k += fmt.Sprint(refs(id, m["current-parts"]))
		key[id] = k
	}
	sort.Slice(ids, func(i, j int) bool { return key[ids[i]] < key[ids[j]] })
	num := map[string]string{}
	out := map[string]interface{}{}
	list := []interface{}{}
	for i, id := range ids {
		num[id] = fmt.Sprintf("part %d", i)
		list = append(list, parts[id], own[id])
	}
	rename := func(v interface{}) (interface{}, error) {
		l, _ := v.([]interface{})
		s := []string{}
		for _, x := range l {
			id, _ := x.(string)
			if num[id] == "" {
				return nil, fmt.Errorf("part %v is not listed", x)
			}
			s = append(s, num[id])
		}
		sort.Strings(s)
		return s, nil
	}
	for k, v := range m {
		out[k] = v
	}
	out["parts"] = list
	delete(out, "events")
	var err error
	if out["current-parts"], err = rename(m["current-parts"]); err != nil {
		return nil, err
	}
	al := map[string]interface{}{}
	if a, ok := m["aliases"].(map[string]interface{}); ok {
		for n, v := range a {
			if al[n], err = rename(v); err != nil {
				return nil, err
			}
		}
	}
	out["aliases"] = al
	return out, nil
}

// bars leaves out bar lines, which may be kept with the duration before them
// and mean nothing.
func bars(v interface{}) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		for k := range x {
			x[k] = bars(x[k])
		}
	case []interface{}:
		out := []interface{}{}
		for _, y := range x {
			if m, ok := y.(map[string]interface{}); ok && m["type"] == "barline" {
				continue
			}
			out = append(out, bars(y))
		}
		return out
	}
	return v
}

// SameState compares two scores' JSON.
func SameState(want, got string) error {
	a, err := Canon(want)
	if err != nil {
		return fmt.Errorf("reference: %v", err)
	}
	b, err := Canon(got)
	if err != nil {
		return err
	}
	keys := map[string]bool{}
	for k := range a {
		keys[k] = true
	}
	for k := range b {
		keys[k] = true
	}
	ks := []string{}
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		x, _ := json.Marshal(a[k])
		y, _ := json.Marshal(b[k])
		if string(x) != string(y) {
			return fmt.Errorf("%s: %s", k, where(string(x), string(y)))
		}
	}
	return nil
}

func where(want, got string) string {
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}
	cut := func(s string) string {
		lo, hi := i-60, i+60
		if lo < 0 {
			lo = 0
		}
		if hi > len(s) {
			hi = len(s)
		}
		if lo > len(s) {
			lo = len(s)
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("expected …%s…, it is …%s…", cut(want), cut(got))
}

// Canonical is the same for two states that are the same.
func Canonical(state string) string {
	a, err := Canon(state)
	if err != nil {
		return "unreadable: " + state
	}
	b, _ := json.Marshal(a)
	return string(b)
}
