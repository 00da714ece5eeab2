// Package box drives the alda program from outside: its REPL server, its
// prompt and its commands, with a stand-in for the player process.
package box

import (
	"bufio"
	"fmt"
	"io"
	"sort"
	"strconv"
)

// Encode writes a value in bencoding. Strings, byte strings, integers, lists
// and maps are allowed.
func Encode(v interface{}) []byte {
	switch x := v.(type) {
	case string:
		return []byte(strconv.Itoa(len(x)) + ":" + x)
	case int:
		return []byte("i" + strconv.Itoa(x) + "e")
	case int64:
		return []byte("i" + strconv.FormatInt(x, 10) + "e")
	case float64: // from JSON
		return []byte("i" + strconv.FormatInt(int64(x), 10) + "e")
	case []interface{}:
		b := []byte("l")
		for _, y := range x {
			b = append(b, Encode(y)...)
		}
		return append(b, 'e')
	case map[string]interface{}:
		ks := []string{}
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		b := []byte("d")
		for _, k := range ks {
			b = append(b, Encode(k)...)
			b = append(b, Encode(x[k])...)
		}
		return append(b, 'e')
	}
	panic(fmt.Sprintf("bencode: %T", v))
}

// Decode reads a value: string, int64, []interface{} or map.
func Decode(r *bufio.Reader) (interface{}, error) {
	c, err := r.ReadByte()
	if err != nil {
		return nil, err
	}
	switch {
	case c == 'i':
		s, err := r.ReadString('e')
		if err != nil {
			return nil, err
		}
		n, err := strconv.ParseInt(s[:len(s)-1], 10, 64)
		return n, err
	case c == 'l':
		out := []interface{}{}
		for {
			if b, err := r.Peek(1); err != nil {
				return nil, err
			} else if b[0] == 'e' {
				r.ReadByte()
				return out, nil
			}
			v, err := Decode(r)
			if err != nil {
				return nil, err
			}
			out = append(out, v)
		}
	case c == 'd':
		out := map[string]interface{}{}
		for {
			if b, err := r.Peek(1); err != nil {
				return nil, err
			} else if b[0] == 'e' {
				r.ReadByte()
				return out, nil
			}
			k, err := Decode(r)
			if err != nil {
				return nil, err
			}
			ks, ok := k.(string)
			if !ok {
				return nil, fmt.Errorf("bencode: key of type %T", k)
			}
			v, err := Decode(r)
			if err != nil {
				return nil, err
			}
			if _, twice := out[ks]; twice {
				return nil, fmt.Errorf("bencode: key %q twice", ks)
			}
			out[ks] = v
		}
	case c >= '0' && c <= '9':
		s, err := r.ReadString(':')
		if err != nil {
			return nil, err
		}
		n, err := strconv.Atoi(string(c) + s[:len(s)-1])
		if err != nil || n < 0 || n > 1<<28 {
			return nil, fmt.Errorf("bencode: length %q", string(c)+s)
		}
		b := make([]byte, n)
		if _, err := io.ReadFull(r, b); err != nil {
			return nil, err
		}
		return string(b), nil
	}
	return nil, fmt.Errorf("bencode: unexpected byte %q", c)
}
