package props

import (
	"encoding/json"
	"fmt"
	"math"
	"regexp"
	"strings"
	"unicode/utf8"
)

// validator is a small reference validator of JSON values.
type validator struct {
	v30   bool // semantics of OpenAPI 3.0, JSON Schema otherwise
	refs  func(ref string) (interface{}, bool)
	stack map[string]bool
}

func numOf(v interface{}) (float64, bool) {
	switch x := v.(type) {
	case json.Number:
		f, err := x.Float64()
		return f, err == nil
	case int:
		return float64(x), true
	case float64:
		return x, true
	}
	return 0, false
}

func typeOf(v interface{}) string {
	switch v.(type) {
	case nil:
		return "null"
	case bool:
		return "boolean"
	case string:
		return "string"
	case arr:
		return "array"
	case obj:
		return "object"
	}
	return "number"
}

func hasType(t string, v interface{}) bool {
	k := typeOf(v)
	if k == t {
		return true
	}
	f, ok := numOf(v)
	return t == "integer" && ok && f == math.Trunc(f)
}

// accepts tells if the schema accepts the value. Both are normalized with norm.
func (d *validator) accepts(schema, v interface{}) bool {
	if b, ok := schema.(bool); ok {
		return b
	}
	s := schema.(obj)
	if r, ok := s["$ref"].(string); ok {
		t, known := d.refs(r)
		k := r + " " + js(v)
		if known && !d.stack[k] { // unknown is reported elsewhere
			d.stack[k] = true
			accepts := d.accepts(t, v)
			delete(d.stack, k)
			if !accepts {
				return false
			}
		}
		if d.v30 {
			return true // siblings of references are ignored
		}
	}
	all := func(a interface{}) (n, total int) {
		l, _ := a.(arr)
		for _, e := range l {
			if d.accepts(e, v) {
				n++
			}
		}
		return n, len(l)
	}
	if t, ok := s["type"]; ok {
		ok := false
		ts, isArr := t.(arr)
		if !isArr {
			ts = arr{t}
		}
		for _, x := range ts {
			ok = ok || hasType(x.(string), v)
		}
		if d.v30 && s["nullable"] == true && v == nil {
			ok = true
		}
		if !ok {
			return false
		}
	}
	if e, ok := s["enum"].(arr); ok {
		found := false
		for _, x := range e {
			found = found || jsonDiff("", x, v) == ""
		}
		if !found {
			return false
		}
	}
	if c, ok := s["const"]; ok && !d.v30 && jsonDiff("", c, v) != "" {
		return false
	}
	if n, ok := s["not"]; ok && d.accepts(n, v) {
		return false
	}
	if n, total := all(s["allOf"]); n != total {
		return false
	}
	if n, total := all(s["anyOf"]); total > 0 && n == 0 {
		return false
	}
	if n, total := all(s["oneOf"]); total > 0 && n != 1 {
		return false
	}
	if c, ok := s["if"]; ok && !d.v30 {
		k := "else"
		if d.accepts(c, v) {
			k = "then"
		}
		if t, ok := s[k]; ok && !d.accepts(t, v) {
			return false
		}
	}
	lim := func(k string) (float64, bool) { return numOf(s[k]) }
	if f, ok := numOf(v); ok {
		if m, ok := lim("multipleOf"); ok && f/m != math.Trunc(f/m) {
			return false
		}
		if m, ok := lim("maximum"); ok && (f > m || f == m && s["exclusiveMaximum"] == true) {
			return false
		}
		if m, ok := lim("minimum"); ok && (f < m || f == m && s["exclusiveMinimum"] == true) {
			return false
		}
		if m, ok := lim("exclusiveMaximum"); ok && f >= m {
			return false
		}
		if m, ok := lim("exclusiveMinimum"); ok && f <= m {
			return false
		}
	}
	size := func(n int, k string) bool {
		if m, ok := lim("min" + k); ok && float64(n) < m {
			return false
		}
		if m, ok := lim("max" + k); ok && float64(n) > m {
			return false
		}
		return true
	}
	switch x := v.(type) {
	case string:
		if !size(utf8.RuneCountInString(x), "Length") {
			return false
		}
		if p, ok := s["pattern"].(string); ok && !regexp.MustCompile(p).MatchString(x) {
			return false
		}
	case arr:
		if !size(len(x), "Items") {
			return false
		}
		if s["uniqueItems"] == true {
			seen := map[string]bool{}
			for _, e := range x {
				if seen[js(e)] {
					return false
				}
				seen[js(e)] = true
			}
		}
		for i, e := range x {
			it, ok := s["items"]
			if pi, isArr := s["prefixItems"].(arr); isArr && i < len(pi) {
				it, ok = pi[i], true
			}
			if ia, isArr := it.(arr); isArr {
				it, ok = s["additionalItems"]
				if i < len(ia) {
					it, ok = ia[i], true
				}
			}
			if ok && !d.accepts(it, e) {
				return false
			}
		}
		if c, ok := s["contains"]; ok && !d.v30 {
			found := false
			for _, e := range x {
				found = found || d.accepts(c, e)
			}
			if !found {
				return false
			}
		}
	case obj:
		if !size(len(x), "Properties") {
			return false
		}
		if req, ok := s["required"].(arr); ok {
			for _, r := range req {
				if _, ok := x[r.(string)]; !ok {
					return false
				}
			}
		}
		for _, k := range keys(x) {
			known := false
			if p, ok := sub(s, "properties")[k]; ok {
				known = true
				if !d.accepts(p, x[k]) {
					return false
				}
			}
			pp := sub(s, "patternProperties")
			for _, re := range keys(pp) {
				if regexp.MustCompile(re).MatchString(k) {
					known = true
					if !d.accepts(pp[re], x[k]) {
						return false
					}
				}
			}
			if ap, ok := s["additionalProperties"]; ok && !known && !d.accepts(ap, x[k]) {
				return false
			}
			if pn, ok := s["propertyNames"]; ok && !d.v30 && !d.accepts(pn, k) {
				return false
			}
			for _, dep := range []string{"dependencies", "dependentSchemas"} {
				if ds, ok := sub(s, dep)[k]; ok {
					if _, isArr := ds.(arr); !isArr && !d.accepts(ds, x) {
						return false
					}
				}
			}
		}
	}
	return true
}

// valueUniverse is a finite universe of values that tell schemas apart.
var valueUniverse = func() (res []interface{}) {
	for _, s := range strings.Fields(`null true false 0 1 2 3 4 5 -1 1.5 2.5 "" "a" "b" "ab" "ba" "abc" [] [1] [2] ["a"] ["ab"] [null] [1,1] [1,2] [2,"a"] ["a","a"] [[1]] [{}] [{"a":1}] [1,2,3] {} {"a":1} {"a":2} {"a":"a"} {"a":"ab"} {"a":null} {"b":1} {"b":"a"} {"b":null} {"c":1} {"c":"a"} {"a":1,"b":"a"} {"a":"a","b":1} {"a":1,"c":null} {"a":1,"b":2,"c":3} {"a":{"a":1}} {"a":{"b":"a"}} {"a":[1]} {"a":["a"]} {"b":{"a":"a"}} {"a":{"a":{"a":1}}} {"a":{"a":{"a":"a"}}} [[[1]]] [[["a"]]] {"a":[{"a":"a"}]} {"a":{}}`) {
		v, err := strictDecode([]byte(s))
		if err != nil {
			panic("engine: " + err.Error() + s)
		}
		res = append(res, v)
	}
	return
}()

// signature lists which values of the universe a schema accepts.
func signature(v30 bool, schema interface{}, refs func(string) (interface{}, bool)) string {
	b := make([]byte, len(valueUniverse))
	for i, v := range valueUniverse {
		d := &validator{v30: v30, refs: refs, stack: map[string]bool{}}
		b[i] = '0'
		if d.accepts(schema, v) {
			b[i] = '1'
		}
	}
	return string(b)
}

func sigDiff(a, b string) string {
	for i := range a {
		if a[i] != b[i] {
			return fmt.Sprintf("%s is accepted by one and rejected by the other (%c, %c)", js(valueUniverse[i]), a[i], b[i])
		}
	}
	return ""
}
