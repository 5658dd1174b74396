package props

import (
	"encoding/json"
	"fmt"
	"net/http"
	"reflect"
	"sort"
	"strings"

	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"
	"verif/mc/engine"
)

// P19: setters set exactly their own member.

// setter is a fluent method of an entity.
type setter struct {
	name  string
	index int // of the method
	field int
	kind  byte // 'W' sets a member, 'I' adds an item, 'E' ensures a member
	arg   reflect.Type
}

// entity is a structure with fluent methods.
type entity struct {
	ver     string
	t       reflect.Type
	setters []setter
}

// entities finds all types with fluent methods that are reachable from the specification.
func entities(ver string) (res []entity) {
	root := tOf(openapi3.Spec{})
	if ver == "3.1" {
		root = tOf(openapi31.Spec{})
	}
	seen := map[reflect.Type]bool{}
	var visit func(t reflect.Type)
	visit = func(t reflect.Type) {
		switch t.Kind() {
		case reflect.Ptr, reflect.Slice, reflect.Map, reflect.Array:
			if t.Name() == "" {
				visit(t.Elem())
				return
			}
		}
		if t.PkgPath() != root.PkgPath() || seen[t] {
			return
		}
		seen[t] = true
		if t.Kind() == reflect.Struct {
			e := entity{ver: ver, t: t}
			for i := 0; i < t.NumField(); i++ {
				if t.Field(i).IsExported() {
					visit(t.Field(i).Type)
				}
			}
			p := reflect.PtrTo(t)
			for i := 0; i < p.NumMethod(); i++ {
				m := p.Method(i)
				for k := 1; k < m.Type.NumIn(); k++ {
					visit(m.Type.In(k))
				}
				for k := 0; k < m.Type.NumOut(); k++ {
					visit(m.Type.Out(k))
				}
				s := setter{name: m.Name, index: i, field: -1}
				field := func(n string) bool {
					f, ok := t.FieldByName(n)
					if ok && len(f.Index) == 1 {
						s.field = f.Index[0]
						return true
					}
					return false
				}
				with := strings.TrimPrefix(m.Name, "With")
				switch {
				case with != m.Name && m.Type.NumIn() == 2 && m.Type.NumOut() == 1 && field(with):
					s.kind, s.arg = 'W', m.Type.In(1)
				case with != m.Name && m.Type.NumIn() == 3 && m.Type.NumOut() == 1 && strings.HasSuffix(with, "Item") && field(strings.TrimSuffix(with, "Item")):
					s.kind, s.arg = 'I', m.Type.In(2)
				case strings.HasSuffix(m.Name, "Ens") && m.Type.NumIn() == 1 && m.Type.NumOut() == 1 && field(strings.TrimSuffix(m.Name, "Ens")):
					s.kind = 'E'
				default:
					continue
				}
				e.setters = append(e.setters, s)
			}
			if len(e.setters) > 0 {
				res = append(res, e)
			}
		}
	}
	visit(root)
	sort.Slice(res, func(i, j int) bool { return res[i].t.Name() < res[j].t.Name() })
	return res
}

var enumWords = []string{"v", "w", "query", "header", "path", "cookie", "form", "simple", "deepObject", "spaceDelimited", "http", "basic", "bearer", "apiKey", "string", "object", "integer", "oauth2", "openIdConnect", "mutualTLS", "label", "matrix"}

// sample makes a value of a type, n selects one of few.
func sample(t reflect.Type, n, depth int) reflect.Value {
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(n != 1)
	case reflect.Int, reflect.Int64:
		v.SetInt(int64(n))
	case reflect.Float64:
		v.SetFloat(float64(n) / 2)
	case reflect.String:
		var ok []string
		for _, w := range enumWords {
			v.SetString(w)
			if _, err := json.Marshal(v.Interface()); err == nil {
				ok = append(ok, w)
			}
		}
		v.SetString("")
		if _, err := json.Marshal(v.Interface()); err == nil && n == 1 {
			break // empty
		}
		if len(ok) > 0 {
			v.SetString(ok[n%len(ok)])
		}
	case reflect.Interface:
		if x := []interface{}{"any", nil, map[string]interface{}{"a": []interface{}{1.0, nil}}}[n%3]; x != nil && tOf(x).AssignableTo(t) {
			v.Set(reflect.ValueOf(x))
		}
	case reflect.Ptr:
		if depth > 0 && n != 1 {
			p := reflect.New(t.Elem())
			p.Elem().Set(sample(t.Elem(), n, depth-1))
			v.Set(p)
		}
	case reflect.Slice:
		for i := 0; i < []int{1, 0, 2}[n%3]; i++ {
			v = reflect.Append(v, sample(t.Elem(), 2*i, depth-1))
		}
		if n%3 == 1 {
			v = reflect.MakeSlice(t, 0, 0)
		}
	case reflect.Map:
		v = reflect.MakeMap(t)
		for i := 0; i < []int{1, 0, 2}[n%3]; i++ {
			v.SetMapIndex(reflect.ValueOf(fmt.Sprintf("x-m%d", i)).Convert(t.Key()), sample(t.Elem(), 2*i, depth-1))
		}
	case reflect.Struct:
		// Strings without a valid zero value, and the first members of some samples.
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if !f.IsExported() {
				continue
			}
			switch {
			case f.Type.Kind() == reflect.String:
				k := 1
				if n == 2 {
					k = 2
				}
				v.Field(i).Set(sample(f.Type, k, depth-1))
			case f.Type.Kind() == reflect.Ptr && n == 0 && depth > 1 && f.Tag.Get("json") != "-" || f.Type.Kind() == reflect.Struct && depth > 0:
				v.Field(i).Set(sample(f.Type, 0, depth-2))
			case f.Type.Kind() == reflect.Ptr && f.Tag.Get("json") == "-" && depth > 0 && unset(v):
				v.Field(i).Set(sample(f.Type, 0, depth-1))
			}
		}
	}
	return v
}

func unset(v reflect.Value) bool {
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Kind() == reflect.Ptr && !v.Field(i).IsNil() {
			return false
		}
	}
	return true
}

// copyOf is a deep copy of a value.
func copyOf(v reflect.Value) reflect.Value {
	r := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			r.Set(reflect.New(v.Type().Elem()))
			r.Elem().Set(copyOf(v.Elem()))
		}
	case reflect.Interface:
		if !v.IsNil() {
			r.Set(copyOf(v.Elem()))
		}
	case reflect.Slice:
		if !v.IsNil() {
			r.Set(reflect.MakeSlice(v.Type(), v.Len(), v.Len()))
			for i := 0; i < v.Len(); i++ {
				r.Index(i).Set(copyOf(v.Index(i)))
			}
		}
	case reflect.Map:
		if !v.IsNil() {
			r.Set(reflect.MakeMap(v.Type()))
			for _, k := range v.MapKeys() {
				r.SetMapIndex(k, copyOf(v.MapIndex(k)))
			}
		}
	case reflect.Struct:
		r.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				r.Field(i).Set(copyOf(v.Field(i)))
			}
		}
	default:
		r.Set(v)
	}
	return r
}

// valueOf is the value of a member that was set to v.
func valueOf(field reflect.Type, v reflect.Value) reflect.Value {
	if v.Type() != field && field.Kind() == reflect.Ptr && v.Type() == field.Elem() {
		p := reflect.New(v.Type())
		p.Elem().Set(v)
		return p
	}
	return v
}

// jsonOf is the document of an entity by its members, ok is false if it has none.
func jsonOf(v reflect.Value) (obj, bool) {
	t := v.Type()
	res := obj{}
	var merge []obj
	dec := func(x interface{}) (interface{}, bool) {
		b, err := json.Marshal(x)
		if err != nil {
			return nil, false
		}
		d, err := lenientDecode(b)
		return d, err == nil
	}
	// Constant members.
	proto := reflect.New(t)
	for i := 0; i < t.NumField(); i++ {
		if t.Field(i).Type.Kind() == reflect.String {
			proto.Elem().Field(i).Set(sample(t.Field(i).Type, 0, 1))
		}
	}
	if b, err := json.Marshal(proto.Interface()); err == nil {
		if d, err := lenientDecode(b); err == nil {
			if o, ok := d.(obj); ok {
				res = o
			}
		}
	}
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		tag := f.Tag.Get("json")
		if !f.IsExported() || tag == "" {
			continue
		}
		fv := v.Field(i)
		if tag != "-" {
			name := strings.Split(tag, ",")[0]
			delete(res, name)
			empty := false
			switch fv.Kind() {
			case reflect.Ptr, reflect.Interface:
				empty = fv.IsNil()
			case reflect.Slice, reflect.Map, reflect.String:
				empty = fv.Len() == 0
			case reflect.Bool, reflect.Int64, reflect.Float64:
				empty = fv.IsZero()
			}
			if name == "security" && t.Name() == "Operation" {
				empty = fv.IsNil() // an empty one disables the security of the specification
			}
			if strings.Contains(tag, "omitempty") && empty {
				continue
			}
			d, ok := dec(fv.Interface())
			if !ok {
				return nil, false
			}
			res[name] = d
			continue
		}
		switch fv.Kind() {
		case reflect.Map:
			o := obj{}
			for _, k := range fv.MapKeys() {
				d, ok := dec(fv.MapIndex(k).Interface())
				if !ok {
					return nil, false
				}
				o[k.String()] = d
			}
			merge = append(merge, o)
		case reflect.Ptr:
			if fv.IsNil() {
				continue
			}
			if f.Type.Elem().Kind() != reflect.Struct {
				return nil, false
			}
			d, ok := dec(fv.Interface())
			o, isObj := d.(obj)
			if !ok || !isObj {
				return nil, false
			}
			merge = append(merge, o)
		case reflect.Interface:
		default:
			return nil, false
		}
	}
	for _, m := range merge {
		for k, x := range m {
			if _, ok := res[k]; ok {
				return nil, false
			}
			res[k] = x
		}
	}
	return res, true
}

func setterScenario(ver string, n int, small bool) *engine.Scenario {
	es := entities(ver)
	total := 0
	for _, e := range es {
		total += len(e.setters)
	}
	name := fmt.Sprintf("%s setters %d", ver, n)
	bound := fmt.Sprintf("all sequences of up to %d calls of %d fluent methods of %d entities with 3 values each, on an empty and on a complete entity", n, total, len(es))
	if small {
		bound += " (entities with up to 12 members)"
	}
	return &engine.Scenario{Name: name, Bound: bound, Run: func(c *engine.Ctx) {
		e := engine.Pick(c, "entity", es)
		if small && len(e.setters) > 20 {
			c.Skip()
		}
		p := reflect.New(e.t)
		desc := e.t.Name()
		if c.Bool("complete") {
			desc += " complete"
			for i := 0; i < e.t.NumField(); i++ {
				if e.t.Field(i).IsExported() {
					p.Elem().Field(i).Set(sample(e.t.Field(i).Type, 0, 3))
				}
			}
		}
		for i := 0; i < n; i++ {
			k := c.Choose("method", len(e.setters)+1)
			if k == 0 {
				break
			}
			s := e.setters[k-1]
			want := copyOf(p.Elem())
			f := want.Field(s.field)
			desc += "." + s.name
			var args []reflect.Value
			if s.kind != 'E' {
				val := c.Choose("value", 3)
				desc += fmt.Sprintf("(%d)", val)
				v := sample(s.arg, val, 3)
				if s.kind == 'I' {
					key := reflect.ValueOf([]string{"x-m0", "x-k"}[c.Choose("key", 2)])
					if f.IsNil() {
						f.Set(reflect.MakeMap(f.Type()))
					}
					args = append(args, key, v)
					f.SetMapIndex(key, valueOf(f.Type().Elem(), copyOf(v)))
				} else {
					args = append(args, v)
					f.Set(valueOf(f.Type(), copyOf(v)))
				}
			} else if f.IsNil() {
				if f.Kind() == reflect.Map {
					f.Set(reflect.MakeMap(f.Type()))
				} else {
					f.Set(reflect.New(f.Type().Elem()))
				}
			}
			old := p.Elem().Field(s.field)
			var before interface{}
			if old.Kind() == reflect.Ptr && !old.IsNil() {
				before = old.Interface()
			}
			m := p.Method(s.index)
			var out []reflect.Value
			if m.Type().IsVariadic() {
				out = m.CallSlice(args)
			} else {
				out = m.Call(args)
			}
			c.Step(1)
			if s.kind == 'E' {
				got := p.Elem().Field(s.field)
				if out[0].Kind() != reflect.Ptr || out[0].Pointer() != got.Pointer() {
					c.Failf(e.ver+" ensured", "%s does not return the member", desc)
				}
				if again := m.Call(nil)[0]; again.Pointer() != out[0].Pointer() {
					c.Failf(e.ver+" ensured", "%s returns different instances", desc)
				}
				if before != nil && reflect.ValueOf(before).Pointer() != out[0].Pointer() {
					c.Failf(e.ver+" ensured", "%s replaces the member", desc)
				}
			} else if out[0].Kind() != reflect.Ptr || out[0].Pointer() != p.Pointer() {
				c.Failf(e.ver+" receiver", "%s does not return the receiver", desc)
			}
			for k := 0; k < e.t.NumField(); k++ {
				if !e.t.Field(k).IsExported() {
					continue
				}
				if w, g := want.Field(k).Interface(), p.Elem().Field(k).Interface(); !reflect.DeepEqual(w, g) {
					c.Failf(e.ver+" members", "%s: member %s: want %s, got %s", desc, e.t.Field(k).Name, js(w), js(g))
				}
			}
		}
		c.Outcome(e.t.Name())
		doc, ok := jsonOf(p.Elem())
		if !ok {
			return
		}
		b, err := json.Marshal(p.Interface())
		if err != nil {
			c.Logf("%s: %v", desc, err)
			return
		}
		d, err := strictDecode(b)
		if err != nil {
			c.Failf(e.ver+" saved", "%s: %v: %s", desc, err, b)
		}
		c.StateBytes(append([]byte(e.t.Name()), b...))
		if df := jsonDiff("#", norm(doc), d); df != "" {
			c.Failf(e.ver+" saved", "%s: %s: want %s, got %s", desc, df, js(doc), b)
		}
	}}
}

// specialSetters are methods that are not named after one member.
func specialSetters() []*engine.Scenario {
	methods := []string{"GET", "PUT", "POST", "DELETE", "OPTIONS", "HEAD", "PATCH", "TRACE"}
	spell := func(c *engine.Ctx, m string) string {
		return []string{m, strings.ToLower(m), m[:1] + strings.ToLower(m[1:])}[c.Choose("spelling", 3)]
	}
	return []*engine.Scenario{
		{Name: "3.1 operations of path items", Bound: "all sequences of 3 calls of SetOperation over 8 methods in 3 spellings and wrong ones, and 3 operations", Run: func(c *engine.Ctx) {
			ops := []*openapi31.Operation{nil, (&openapi31.Operation{}).WithSummary("a"), (&openapi31.Operation{}).WithSummary("b")}
			pi := (&openapi31.PathItem{}).WithSummary("s")
			want := map[string]*openapi31.Operation{}
			for i := 0; i < 3; i++ {
				k := c.Choose("method", 10)
				op := engine.Pick(c, "operation", ops)
				if k >= 8 {
					if err := pi.SetOperation([]string{"CONNECT", ""}[k-8], op); err == nil {
						c.Failf("method", "wrong method is accepted")
					}
					if _, err := pi.Operation([]string{"CONNECT", ""}[k-8]); err == nil {
						c.Failf("method", "wrong method is found")
					}
					continue
				}
				m := spell(c, methods[k])
				if err := pi.SetOperation(m, op); err != nil {
					c.Failf("method", "%s: %v", m, err)
				}
				want[methods[k]] = op
				c.Step(1)
			}
			w := openapi31.PathItem{Get: want[http.MethodGet], Put: want[http.MethodPut], Post: want[http.MethodPost], Delete: want[http.MethodDelete], Options: want[http.MethodOptions], Head: want[http.MethodHead], Patch: want[http.MethodPatch], Trace: want[http.MethodTrace]}
			w.WithSummary("s")
			if !reflect.DeepEqual(&w, pi) {
				c.Failf("members", "want %s, got %s", js(w), js(*pi))
			}
			for _, m := range methods {
				for _, s := range []string{m, strings.ToLower(m)} {
					if op, err := pi.Operation(s); err != nil || op != want[m] {
						c.Failf("operation", "%s: %v %v", s, op, err)
					}
				}
			}
			c.State(js(*pi))
			if u := pi.PathItemOrReference(); u.PathItem != pi || u.Reference != nil {
				c.Failf("union", "%s", js(u))
			}
		}},
		{Name: "3.0 operations of path items", Bound: "all sequences of 3 calls of WithOperation over 8 methods in 3 spellings, and 2 operations", Run: func(c *engine.Ctx) {
			pi := (&openapi3.PathItem{}).WithSummary("s")
			want := obj{"summary": "s"}
			for i := 0; i < 3; i++ {
				m := engine.Pick(c, "method", methods)
				s := engine.Pick(c, "summary", []string{"a", "b"})
				if pi.WithOperation(spell(c, m), *(&openapi3.Operation{}).WithSummary(s)) != pi {
					c.Failf("receiver", "%s does not return the receiver", m)
				}
				want[strings.ToLower(m)] = obj{"summary": s, "responses": obj{}}
				c.Step(1)
			}
			b, err := pi.MarshalJSON()
			if err != nil {
				c.Failf("save", "%v", err)
			}
			d, err := strictDecode(b)
			if err != nil {
				c.Failf("save", "%v", err)
			}
			c.StateBytes(b)
			if df := jsonDiff("#", norm(want), d); df != "" {
				c.Failf("members", "%s", df)
			}
		}},
		{Name: "references", Bound: "SetReference of responses and request bodies of both versions with and without content, up to 2 calls; unions of parameters", Run: func(c *engine.Ctx) {
			content, calls := c.Bool("content"), 1+c.Choose("calls", 2)
			var x interface {
				SetReference(ref string)
				MarshalJSON() ([]byte, error)
			}
			switch c.Choose("type", 4) {
			case 0:
				v := &openapi3.ResponseOrRef{}
				if content {
					v.WithResponse(*(&openapi3.Response{}).WithDescription("d"))
				}
				x = &unionRef{set: v.SetReference, save: func() ([]byte, error) { return json.Marshal(v) }, empty: func() bool { return v.Response == nil }}
			case 1:
				v := &openapi3.RequestBodyOrRef{}
				if content {
					v.WithRequestBody(*(&openapi3.RequestBody{}).WithDescription("d"))
				}
				x = &unionRef{set: v.SetReference, save: func() ([]byte, error) { return json.Marshal(v) }, empty: func() bool { return v.RequestBody == nil }}
			case 2:
				v := &openapi31.ResponseOrReference{}
				if content {
					v.WithResponse(*(&openapi31.Response{}).WithDescription("d"))
				}
				x = &unionRef{set: v.SetReference, save: func() ([]byte, error) { return json.Marshal(v) }, empty: func() bool { return v.Response == nil }}
			default:
				v := &openapi31.RequestBodyOrReference{}
				if content {
					v.WithRequestBody(*(&openapi31.RequestBody{}).WithDescription("d"))
				}
				x = &unionRef{set: v.SetReference, save: func() ([]byte, error) { return json.Marshal(v) }, empty: func() bool { return v.RequestBody == nil }}
			}
			for i := 0; i < calls; i++ {
				x.SetReference(fmt.Sprintf("#/r%d", i))
				c.Step(1)
			}
			b, err := x.MarshalJSON()
			if err != nil || string(b) != fmt.Sprintf(`{"$ref":"#/r%d"}`, calls-1) {
				c.Failf("reference", "%s %v", b, err)
			}
			if !x.(*unionRef).empty() {
				c.Failf("reference", "content is left next to the reference")
			}
			p3 := openapi3.Parameter{Name: "n", In: openapi3.ParameterInQuery}
			p31 := openapi31.Parameter{Name: "n", In: openapi31.ParameterInQuery}
			u3, u31 := p3.ToParameterOrRef(), p31.ToParameterOrRef()
			if u3.ParameterReference != nil || !reflect.DeepEqual(*u3.Parameter, p3) || u31.Reference != nil || !reflect.DeepEqual(*u31.Parameter, p31) {
				c.Failf("parameter", "%s %s", js(u3), js(u31))
			}
		}},
	}
}

type unionRef struct {
	set   func(ref string)
	save  func() ([]byte, error)
	empty func() bool
}

func (u *unionRef) SetReference(ref string)      { u.set(ref) }
func (u *unionRef) MarshalJSON() ([]byte, error) { return u.save() }

func init() {
	register(&Property{ID: "P19", Scenarios: func(tier string) (res []*engine.Scenario) {
		for _, ver := range versions {
			res = append(res, setterScenario(ver, 2, false))
			if tier == "thorough" {
				res = append(res, setterScenario(ver, 3, true))
			}
		}
		return append(res, specialSetters()...)
	}})
}
