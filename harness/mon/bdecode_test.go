package mon

import (
	"errors"
	"fmt"
	"strconv"
)

// bdict keeps keys in the order written.
type bdict struct {
	Keys []string
	Vals []any
}

func (d *bdict) Get(k string) (any, bool) {
	for i := range d.Keys {
		if d.Keys[i] == k {
			return d.Vals[i], true
		}
	}
	return nil, false
}

var errShort = errors.New("truncated")

// bdecodeAll decodes exactly one bencoded value with nothing after it.
func bdecodeAll(b []byte) (any, error) {
	v, rest, err := bdecode(b, 0)
	if err != nil {
		return nil, err
	}
	if len(rest) != 0 {
		return nil, fmt.Errorf("%d bytes after the value", len(rest))
	}
	return v, nil
}

// keysProblem says which dictionary has keys that are not sorted or occur twice.
func keysProblem(v any) string {
	switch v := v.(type) {
	case []any:
		for _, e := range v {
			if p := keysProblem(e); p != "" {
				return p
			}
		}
	case *bdict:
		for i, k := range v.Keys {
			if i > 0 && v.Keys[i-1] >= k {
				return fmt.Sprintf("key %q behind %q", k, v.Keys[i-1])
			}
			if p := keysProblem(v.Vals[i]); p != "" {
				return p
			}
		}
	}
	return ""
}

func bdecode(b []byte, depth int) (any, []byte, error) {
	if len(b) == 0 {
		return nil, nil, errShort
	}
	if depth > 200 {
		return nil, nil, errors.New("too deep")
	}
	switch {
	case b[0] == 'i':
		i := 1
		for i < len(b) && b[i] != 'e' {
			i++
		}
		if i == len(b) {
			return nil, nil, errShort
		}
		s := string(b[1:i])
		if s == "-0" || (len(s) > 1 && s[0] == '0') || (len(s) > 2 && s[:2] == "-0") || s == "" || s[0] == '+' {
			return nil, nil, fmt.Errorf("bad integer %q", s)
		}
		n, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			u, err := strconv.ParseUint(s, 10, 64)
			if err != nil {
				return nil, nil, fmt.Errorf("bad integer %q", s)
			}
			return u, b[i+1:], nil
		}
		return n, b[i+1:], nil
	case b[0] == 'l':
		b = b[1:]
		list := []any{}
		for {
			if len(b) == 0 {
				return nil, nil, errShort
			}
			if b[0] == 'e' {
				return list, b[1:], nil
			}
			v, rest, err := bdecode(b, depth+1)
			if err != nil {
				return nil, nil, err
			}
			list = append(list, v)
			b = rest
		}
	case b[0] == 'd':
		b = b[1:]
		d := &bdict{}
		for {
			if len(b) == 0 {
				return nil, nil, errShort
			}
			if b[0] == 'e' {
				return d, b[1:], nil
			}
			k, rest, err := bstring(b)
			if err != nil {
				return nil, nil, err
			}
			v, rest, err := bdecode(rest, depth+1)
			if err != nil {
				return nil, nil, err
			}
			d.Keys = append(d.Keys, k)
			d.Vals = append(d.Vals, v)
			b = rest
		}
	default:
		s, rest, err := bstring(b)
		return s, rest, err
	}
}

func bstring(b []byte) (string, []byte, error) {
	i := 0
	for i < len(b) && b[i] >= '0' && b[i] <= '9' {
		i++
	}
	if i == 0 || i == len(b) || b[i] != ':' || (b[0] == '0' && i > 1) || i > 10 {
		return "", nil, fmt.Errorf("bad string at %.20q", b)
	}
	n, _ := strconv.Atoi(string(b[:i]))
	b = b[i+1:]
	if n > len(b) {
		return "", nil, errShort
	}
	return string(b[:n]), b[n:], nil
}
