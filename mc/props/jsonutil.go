package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type (
	obj = map[string]interface{}
	arr = []interface{}
)

// strictDecode decodes JSON keeping numbers exact and rejecting duplicate member names.
func strictDecode(b []byte) (interface{}, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	v, err := strictValue(d)
	if err != nil {
		return nil, err
	}
	if _, err := d.Token(); err == nil {
		return nil, fmt.Errorf("trailing data")
	}
	return v, nil
}

func strictValue(d *json.Decoder) (interface{}, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch t := t.(type) {
	case json.Delim:
		switch t {
		case '{':
			m := obj{}
			for d.More() {
				k, err := d.Token()
				if err != nil {
					return nil, err
				}
				ks := k.(string)
				if _, dup := m[ks]; dup {
					return nil, fmt.Errorf("duplicate member %q", ks)
				}
				v, err := strictValue(d)
				if err != nil {
					return nil, err
				}
				m[ks] = v
			}
			_, err := d.Token()
			return m, err
		case '[':
			a := arr{}
			for d.More() {
				v, err := strictValue(d)
				if err != nil {
					return nil, err
				}
				a = append(a, v)
			}
			_, err := d.Token()
			return a, err
		}
		return nil, fmt.Errorf("unexpected %v", t)
	default:
		return t, nil
	}
}

// norm converts any Go value to its strict JSON tree.
func norm(v interface{}) interface{} {
	b, err := json.Marshal(v)
	if err != nil {
		panic("engine: norm: " + err.Error())
	}
	r, err := strictDecode(b)
	if err != nil {
		panic("engine: norm: " + err.Error())
	}
	return r
}

// jsonDiff returns a description of the first difference or "".
func jsonDiff(path string, want, got interface{}) string {
	switch w := want.(type) {
	case obj:
		g, ok := got.(obj)
		if !ok {
			return fmt.Sprintf("%s: want object, got %s", path, js(got))
		}
		for _, k := range keys(w) {
			gv, ok := g[k]
			if !ok {
				return fmt.Sprintf("%s: member %q is missing (want %s)", path, k, js(w[k]))
			}
			if d := jsonDiff(path+"/"+k, w[k], gv); d != "" {
				return d
			}
		}
		for _, k := range keys(g) {
			if _, ok := w[k]; !ok {
				return fmt.Sprintf("%s: unexpected member %q: %s", path, k, js(g[k]))
			}
		}
		return ""
	case arr:
		g, ok := got.(arr)
		if !ok {
			return fmt.Sprintf("%s: want array, got %s", path, js(got))
		}
		if len(w) != len(g) {
			return fmt.Sprintf("%s: want %d items, got %d (%s vs %s)", path, len(w), len(g), js(w), js(g))
		}
		for i := range w {
			if d := jsonDiff(path+"/"+strconv.Itoa(i), w[i], g[i]); d != "" {
				return d
			}
		}
		return ""
	}
	if wn, ok := num(want); ok {
		gn, ok2 := num(got)
		if !ok2 || wn.Cmp(gn) != 0 {
			return fmt.Sprintf("%s: want %s, got %s", path, js(want), js(got))
		}
		return ""
	}
	if want != got {
		switch got.(type) {
		case obj, arr:
			return fmt.Sprintf("%s: want %s, got %s", path, js(want), js(got))
		}
		return fmt.Sprintf("%s: want %s, got %s", path, js(want), js(got))
	}
	return ""
}

func num(v interface{}) (*big.Rat, bool) {
	var s string
	switch n := v.(type) {
	case json.Number:
		s = string(n)
	case float64:
		s = strconv.FormatFloat(n, 'g', -1, 64)
	case int:
		s = strconv.Itoa(n)
	case int64:
		s = strconv.FormatInt(n, 10)
	default:
		return nil, false
	}
	r, ok := new(big.Rat).SetString(s)
	return r, ok
}

func js(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprint(v)
	}
	return string(b)
}

func keys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func clone(v interface{}) interface{} {
	switch x := v.(type) {
	case obj:
		m := make(obj, len(x))
		for k, e := range x {
			m[k] = clone(e)
		}
		return m
	case arr:
		a := make(arr, len(x))
		for i, e := range x {
			a[i] = clone(e)
		}
		return a
	}
	return v
}

// lookup resolves a JSON pointer-ish path (already unescaped segments).
func lookup(v interface{}, segs ...string) (interface{}, bool) {
	for _, s := range segs {
		switch x := v.(type) {
		case obj:
			e, ok := x[s]
			if !ok {
				return nil, false
			}
			v = e
		case arr:
			i, err := strconv.Atoi(s)
			if err != nil || i < 0 || i >= len(x) {
				return nil, false
			}
			v = x[i]
		default:
			return nil, false
		}
	}
	return v, true
}

func pointer(segs []string) string {
	r := strings.NewReplacer("~", "~0", "/", "~1")
	s := "#"
	for _, x := range segs {
		s += "/" + r.Replace(x)
	}
	return s
}
