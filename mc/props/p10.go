package props

import (
	"fmt"
	"reflect"
	"regexp"
	"strings"

	"github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go"
	"verif/mc/engine"
	dup1 "verif/mc/props/u1/dup"
	dup2 "verif/mc/props/u2/dup"
)

// P10: references resolve, names do not collide.

type (
	uPlain struct {
		A int    `json:"a"`
		B string `json:"b"`
	}
	uNest struct {
		P uPlain            `json:"p"`
		Q *uPlain           `json:"q"`
		L []uPlain          `json:"l"`
		M map[string]uPlain `json:"m"`
	}
	uEnum  string
	uList  []uPlain
	uMap   map[string]uPlain
	uNamed struct {
		E uEnum `json:"e"`
		L uList `json:"l"`
		M uMap  `json:"m"`
	}
	uRec struct {
		Next *uRec  `json:"next"`
		Kids []uRec `json:"kids"`
	}
	uA struct {
		B *uB `json:"b"`
	}
	uB struct {
		A []uA `json:"a"`
	}
	uÖA struct { //nolint
		C int `json:"c"`
	}
	uEmb struct {
		uPlain
		C bool `json:"c"`
	}
	uGen[T any] struct {
		V T `json:"v"`
	}
	uPair[A, B any] struct {
		A A `json:"a"`
		B B `json:"b"`
	}
	uOne  struct{}
	uPrep struct {
		A int `json:"a"`
	}
	uForm struct {
		A int     `formData:"a"`
		N uFormIn `formData:"n"`
	}
	uFormIn struct {
		B string `formData:"b"`
	}
	uBoth struct {
		A int `json:"j" formData:"f"`
	}
	uDeep struct {
		X int   `query:"x"`
		E uEnum `query:"e"`
	}
	uQuery struct {
		D uDeep   `query:"d"`
		E uEnum   `query:"e"`
		L []uEnum `query:"l"`
	}
	uQueryJSON struct {
		P uPlain `query:"p"`
		R uRec   `query:"r" collectionFormat:"json"`
	}
)

// JSONSchemaOneOf exposes alternatives.
func (uOne) JSONSchemaOneOf() []interface{} { return []interface{}{uPlain{}, uRec{}, 1} }

// PrepareJSONSchema customizes schema.
func (uPrep) PrepareJSONSchema(s *jsonschema.Schema) error {
	s.WithTitle("prepared")
	return nil
}

// Enum lists values.
func (uEnum) Enum() []interface{} { return []interface{}{"x", "y"} }

func local1() interface{} {
	type local struct {
		A int `json:"a"`
	}
	return local{}
}

func local2() interface{} {
	type local struct {
		B string `json:"b"`
	}
	return local{}
}

func both(a, b interface{}) interface{} {
	return reflect.New(reflect.StructOf([]reflect.StructField{
		{Name: "A", Type: reflect.TypeOf(a), Tag: `json:"la"`},
		{Name: "B", Type: reflect.TypeOf(b), Tag: `json:"lb"`},
	})).Interface()
}

func typ(key string) obj { return obj{"$ref": "type:" + key} }

func nullObj(items obj) obj {
	return obj{"type": arr{"object", "null"}, "additionalProperties": items}
}

func genOf(v obj) obj { return objSchema(nil, obj{"v": v}) }

// shapes are schemas of the types in the dialect of 3.1, with references to types.
var shapes = map[string]obj{
	"uPlain":       objSchema(nil, obj{"a": sInt, "b": sStr}),
	"uNest":        objSchema(nil, obj{"p": typ("uPlain"), "q": typ("uPlain"), "l": nullArr(typ("uPlain")), "m": nullObj(typ("uPlain"))}),
	"uEnum":        {"type": "string", "enum": arr{"x", "y"}},
	"uList":        {"null": "maybe", "type": "array", "items": typ("uPlain")},
	"uMap":         {"null": "maybe", "type": "object", "additionalProperties": typ("uPlain")},
	"uNamed":       objSchema(nil, obj{"e": typ("uEnum"), "l": typ("uList"), "m": typ("uMap")}),
	"uRec":         objSchema(nil, obj{"next": typ("uRec"), "kids": nullArr(typ("uRec"))}),
	"uA":           objSchema(nil, obj{"b": typ("uB")}),
	"uB":           objSchema(nil, obj{"a": nullArr(typ("uA"))}),
	"uÖA":          objSchema(nil, obj{"c": sInt}),
	"uEmb":         objSchema(nil, obj{"a": sInt, "b": sStr, "c": obj{"type": "boolean"}}),
	"dup1.T":       objSchema(nil, obj{"x": sInt}),
	"dup2.T":       objSchema(nil, obj{"y": sStr}),
	"dup1.L":       {"null": "maybe", "type": "array", "items": typ("dup1.T")},
	"dup2.L":       {"null": "maybe", "type": "array", "items": typ("dup2.T")},
	"local1":       objSchema(nil, obj{"a": sInt}),
	"local2":       objSchema(nil, obj{"b": sStr}),
	"uOne":         {"type": "object", "oneOf": arr{typ("uPlain"), typ("uRec"), sInt}},
	"uPrep":        {"type": "object", "title": "prepared", "properties": obj{"a": sInt}},
	"uBoth":        objSchema(nil, obj{"j": sInt}),
	"form uBoth":   objSchema(nil, obj{"f": sInt}),
	"form uForm":   objSchema(nil, obj{"a": sInt, "n": typ("form uFormIn")}),
	"form uFormIn": objSchema(nil, obj{"b": sStr}),
	"form dup1.F":  objSchema(nil, obj{"x": sInt}),
	"form dup2.F":  objSchema(nil, obj{"y": sStr}),
	"uDeep":        objSchema(nil, obj{"x": sInt, "e": typ("uEnum")}),
	"dup1.Q":       objSchema(nil, obj{"x": sInt}),
	"dup2.Q":       objSchema(nil, obj{"y": sStr}),

	"uGen[int]":          genOf(sInt),
	"uGen[[]int]":        genOf(nullArr(sInt)),
	"uGen[uPlain]":       genOf(typ("uPlain")),
	"uGen[[]uPlain]":     genOf(nullArr(typ("uPlain"))),
	"uGen[*uPlain]":      genOf(typ("uPlain")),
	"uGen[map]":          genOf(nullObj(typ("uPlain"))),
	"uGen[uGen[uPlain]]": genOf(typ("uGen[uPlain]")),
	"uGen[dup1.T]":       genOf(typ("dup1.T")),
	"uGen[dup2.T]":       genOf(typ("dup2.T")),
	"uPair[int,string]":  objSchema(nil, obj{"a": sInt, "b": sStr}),
	"uPair[dup]":         objSchema(nil, obj{"a": typ("dup1.T"), "b": typ("dup2.T")}),
	"uPair[gen]":         objSchema(nil, obj{"a": typ("uGen[[]uPlain]"), "b": typ("uGen[uPlain]")}),
}

// use is a type used in a role, with the schemas expected at places of the operation.
type use struct {
	name  string
	v     interface{}
	role  string // req, form, resp, param
	want  obj    // schema of the body in 3.1 dialect
	param map[string]obj
	json  bool // parameter p has JSON content
}

func uses() (res []use) {
	js := []struct {
		v    interface{}
		want obj
	}{
		{new(uNest), typ("uNest")}, {uPlain{}, typ("uPlain")}, {new(uNamed), typ("uNamed")}, {uList{}, typ("uList")}, {uMap{}, typ("uMap")},
		{uRec{}, typ("uRec")}, {new(uA), typ("uA")}, {new(uB), typ("uB")}, {uÖA{}, typ("uÖA")}, {new(uEmb), typ("uEmb")},
		{dup1.T{}, typ("dup1.T")}, {new(dup2.T), typ("dup2.T")}, {dup1.L{}, typ("dup1.L")}, {dup2.L{}, typ("dup2.L")}, {local1(), typ("local1")}, {local2(), typ("local2")},
		{both(local1(), local2()), objSchema(nil, obj{"la": typ("local1"), "lb": typ("local2")})},
		{both(dup1.T{}, dup2.T{}), objSchema(nil, obj{"la": typ("dup1.T"), "lb": typ("dup2.T")})},
		{uPrep{}, typ("uPrep")}, {[]uA{}, obj{"type": "array", "items": typ("uA")}}, {map[string]uRec{}, obj{"type": "object", "additionalProperties": typ("uRec")}},
		{uGen[int]{}, typ("uGen[int]")}, {uGen[[]int]{}, typ("uGen[[]int]")}, {uGen[uPlain]{}, typ("uGen[uPlain]")}, {uGen[[]uPlain]{}, typ("uGen[[]uPlain]")}, {uGen[*uPlain]{}, typ("uGen[*uPlain]")},
		{uGen[map[string]uPlain]{}, typ("uGen[map]")}, {uGen[uGen[uPlain]]{}, typ("uGen[uGen[uPlain]]")}, {uGen[dup1.T]{}, typ("uGen[dup1.T]")}, {uGen[dup2.T]{}, typ("uGen[dup2.T]")},
		{uPair[int, string]{}, typ("uPair[int,string]")}, {uPair[dup1.T, dup2.T]{}, typ("uPair[dup]")}, {uPair[uGen[[]uPlain], uGen[uPlain]]{}, typ("uPair[gen]")},
	}
	for _, j := range js {
		res = append(res, use{name: fmt.Sprintf("request %T", j.v), v: j.v, role: "req", want: j.want}, use{name: fmt.Sprintf("response %T", j.v), v: j.v, role: "resp", want: j.want})
	}
	res = append(res, use{name: "response uOne", v: uOne{}, role: "resp", want: typ("uOne")}, use{name: "response uBoth", v: uBoth{}, role: "resp", want: typ("uBoth")})
	for _, f := range []struct {
		v    interface{}
		want obj
	}{{uForm{}, typ("form uForm")}, {uFormIn{}, typ("form uFormIn")}, {uBoth{}, typ("form uBoth")}, {dup1.F{}, typ("form dup1.F")}, {dup2.F{}, typ("form dup2.F")}} {
		res = append(res, use{name: fmt.Sprintf("form %T", f.v), v: f.v, role: "form", want: f.want})
	}
	type qd struct {
		A dup1.Q `query:"p"`
		B dup2.Q `query:"r"`
	}
	res = append(res,
		use{name: "query", v: uQuery{}, role: "param", param: map[string]obj{"d": typ("uDeep"), "e": typ("uEnum"), "l": nullArr(typ("uEnum"))}},
		use{name: "query dup", v: qd{}, role: "param", param: map[string]obj{"p": typ("dup1.Q"), "r": typ("dup2.Q")}},
		use{name: "query json", v: uQueryJSON{}, role: "param", json: true, param: map[string]obj{"p": typ("uPlain"), "r": typ("uRec")}},
	)
	return
}

// binder matches schemas of the document with types.
type binder struct {
	c    *engine.Ctx
	ver  string
	d    obj
	name map[string]string // type to component
	typ  map[string]string // component to type
	done map[string]bool
	hist []string

	key    string            // of any failure
	inline map[string]bool   // types that are inlined by option
	mapped map[string]string // types that are replaced by option
}

func (b *binder) fail(key, f string, args ...interface{}) {
	key = b.ver + " " + key
	if b.key != "" {
		key = b.key
	}
	b.c.Failf(key, "%v: "+f, append([]interface{}{b.hist}, args...)...)
}

var nameRegex = regexp.MustCompile(`^[a-zA-Z0-9._-]+$`)

// match compares schema got with the expected one.
func (b *binder) match(path string, want, got interface{}) {
	switch w := want.(type) {
	case obj:
		g, ok := got.(obj)
		if !ok {
			b.fail("shape "+strings.Split(path, "/")[0], "%s: want %s, got %s", path, js(want), js(got))
		}
		if r, ok := w["$ref"].(string); ok {
			key := strings.TrimPrefix(r, "type:")
			if k, ok := b.mapped[key]; ok {
				key = k
			}
			if b.inline[key] {
				w := clone(shapes[key]).(obj)
				w["null"] = "maybe" // of a pointer
				b.match(path, norm(inDialect(b.ver, w)), got)
				return
			}
			gr, _ := g["$ref"].(string)
			n := strings.TrimPrefix(gr, "#/components/schemas/")
			if gr == "" || n == gr {
				b.fail("reference", "%s: want a reference to the component of %s, got %s", path, key, js(got))
			}
			if prev, ok := b.name[key]; ok && prev != n {
				b.fail("two components"+b.localNote(key), "%s: %s has components %q and %q", path, key, prev, n)
			}
			if prev, ok := b.typ[n]; ok && prev != key {
				b.fail("shared component"+b.localNote(key), "%s: component %q is shared by %s and %s", path, n, prev, key)
			}
			b.name[key], b.typ[n] = n, key
			if b.done[key] {
				return
			}
			b.done[key] = true
			comp, ok := sub(b.d, "components", "schemas")[n]
			if !ok {
				b.fail("dangling", "%s: component %q of %s does not exist", path, n, key)
			}
			b.match("component "+n, norm(inDialect(b.ver, shapes[key])), comp)
			return
		}
		maybeNull := w["null"] != nil
		for _, k := range keys(w) {
			if k == "null" {
				continue
			}
			gv, ok := g[k]
			if !ok {
				b.fail("shape "+strings.Split(path, "/")[0], "%s: no %s in %s, want %s", path, k, js(got), js(want))
			}
			if k == "properties" {
				wp, gp := w[k].(obj), sub(g, k)
				if len(wp) != len(gp) {
					b.fail("shape "+strings.Split(path, "/")[0], "%s: want %s, got %s", path, js(want), js(got))
				}
				for _, p := range keys(wp) {
					b.match(path+"/properties/"+p, wp[p], gp[p])
				}
				continue
			}
			if d := ""; k == "type" {
				if a, ok := gv.(arr); ok && maybeNull {
					gv = without(a, "null")
				}
				if d = jsonDiff("", canon(obj{"type": w[k]}), canon(obj{"type": gv})); d != "" {
					b.fail("shape "+strings.Split(path, "/")[0], "%s: want %s, got %s", path, js(want), js(got))
				}
				continue
			}
			b.match(path+"/"+k, w[k], gv)
		}
		for _, k := range keys(g) {
			if _, ok := w[k]; !ok && !(k == "nullable" && maybeNull) {
				b.fail("shape "+strings.Split(path, "/")[0], "%s: unexpected %s in %s, want %s", path, k, js(got), js(want))
			}
		}
	case arr:
		g, ok := got.(arr)
		if !ok || len(g) != len(w) {
			b.fail("shape "+strings.Split(path, "/")[0], "%s: want %s, got %s", path, js(want), js(got))
		}
		for i := range w {
			b.match(fmt.Sprintf("%s/%d", path, i), w[i], g[i])
		}
	default:
		if jsonDiff("", want, got) != "" {
			b.fail("shape "+strings.Split(path, "/")[0], "%s: want %s, got %s", path, js(want), js(got))
		}
	}
}

// localNote marks types that are declared in functions and mentioned in one structure.
func (b *binder) localNote(key string) string {
	if strings.Contains(fmt.Sprint(b.hist), "props.local \"json") && strings.HasPrefix(key, "local") {
		return " of local types"
	}
	return ""
}

// check verifies the document after a step.
func (b *binder) check(a api, us []use) {
	d, raw, err := docOf(a.spec())
	if err != nil {
		b.fail("save", "%v", err)
	}
	b.c.StateBytes(raw)
	b.d, b.done = d, map[string]bool{}
	comps := sub(d, "components", "schemas")
	for _, n := range keys(comps) {
		if !nameRegex.MatchString(n) {
			b.fail("name", "component name %q is not allowed", n)
		}
		if len(comps[n].(obj)) == 0 {
			b.fail("empty component", "component %q is empty", n)
		}
	}
	for _, r := range refsOf(d, nil) {
		n := strings.TrimPrefix(r, "#/components/schemas/")
		if _, ok := comps[n]; !ok || n == r {
			b.fail("dangling", "reference %q does not resolve\n%s", r, raw)
		}
	}
	for i, u := range us {
		op := sub(d, "paths", fmt.Sprintf("/p%d", i), "post")
		want := inDialect(b.ver, u.want)
		switch u.role {
		case "req":
			b.match(u.name, norm(want), sub(op, "requestBody", "content", ctJSON)["schema"])
		case "form":
			b.match(u.name, norm(want), sub(op, "requestBody", "content", ctForm)["schema"])
		case "resp":
			b.match(u.name, norm(want), sub(op, "responses", "200", "content", ctJSON)["schema"])
		case "param":
			ps, _ := op["parameters"].(arr)
			if len(ps) != len(u.param) {
				b.fail("parameters", "%s: %s", u.name, js(ps))
			}
			for _, p := range ps {
				po := p.(obj)
				s := po["schema"]
				if u.json {
					s = sub(po, "content", ctJSON)["schema"]
				}
				w := norm(inDialect(b.ver, u.param[po["name"].(string)])).(obj)
				delete(w, "nullable") // not rendered for parameters of 3.0
				b.match(u.name, w, s)
			}
		}
	}
	b.c.Outcome(fmt.Sprint(len(comps)))
}

func (u use) add(a api, i int) error {
	oc, err := a.refl().NewOperationContext("POST", fmt.Sprintf("/p%d", i))
	if err != nil {
		return err
	}
	if u.role == "resp" {
		oc.AddRespStructure(u.v)
	} else {
		oc.AddReqStructure(u.v)
	}
	return a.refl().AddOperation(oc)
}

type reflOption struct {
	name   string
	set    func(r *jsonschema.Reflector)
	inline map[string]bool
	mapped map[string]string
}

func defaultOption(o func(*jsonschema.ReflectContext)) func(r *jsonschema.Reflector) {
	return func(r *jsonschema.Reflector) { r.DefaultOptions = append(r.DefaultOptions, o) }
}

var reflOptions = []reflOption{
	{name: "default", set: func(*jsonschema.Reflector) {}},
	{name: "prefix is stripped", set: defaultOption(jsonschema.StripDefinitionNamePrefix("Props", "Dup"))},
	{name: "one name for all", set: defaultOption(jsonschema.InterceptDefName(func(reflect.Type, string) string { return "X" }))},
	{name: "bad characters", set: defaultOption(jsonschema.InterceptDefName(func(t reflect.Type, n string) string { return "/{é} " + n + "ü " }))},
	{name: "inlined type", set: func(r *jsonschema.Reflector) { r.InlineDefinition(uPlain{}); r.InlineDefinition(dup2.T{}) }, inline: map[string]bool{"uPlain": true, "dup2.T": true}},
	{name: "mapped type", set: func(r *jsonschema.Reflector) { r.AddTypeMapping(uPlain{}, dup1.T{}) }, mapped: map[string]string{"uPlain": "dup1.T"}},
}

func newBinder(c *engine.Ctx, o reflOption, ver string) (*binder, api) {
	a := newAPI(ver)
	o.set(a.jsr())
	return &binder{c: c, ver: ver, name: map[string]string{}, typ: map[string]string{}, hist: []string{o.name}, inline: o.inline, mapped: o.mapped}, a
}

func usesScenario(ver, name string, us []use, depth int, opts []reflOption) *engine.Scenario {
	return &engine.Scenario{
		Name:  fmt.Sprintf("%s %s", ver, name),
		Bound: fmt.Sprintf("all histories of %d operations with %d uses of types, %d naming options; the document is checked after every operation", depth, len(us), len(opts)),
		Run: func(c *engine.Ctx) {
			b, a := newBinder(c, engine.Pick(c, "options", opts), ver)
			var done []use
			for i := 0; i < depth; i++ {
				u := engine.Pick(c, "use", us)
				done = append(done, u)
				b.hist = append(b.hist, u.name)
				c.Step(1)
				if err := u.add(a, i); err != nil {
					b.fail("add", "%v", err)
				}
				b.check(a, done)
			}
		},
	}
}

// A type that is used in several roles.
type (
	uMulti struct {
		A int    `json:"j" query:"q" header:"h" cookie:"c" formData:"f"`
		B string `json:"b"`
	}
	uMultiNoForm struct {
		A int    `json:"j" query:"q" header:"h" cookie:"c"`
		B string `json:"b"`
	}
)

// A type that has the other form tag.
type uMultiForm struct {
	A int    `json:"j" form:"f"`
	B string `json:"b"`
}

// bodyUses are the uses of the type in bodies.
func bodyUses() []use {
	key := "uMultiForm"
	return []use{
		{name: "request", v: struct {
			V uMultiForm `json:"v"`
		}{}, role: "req", want: objSchema(nil, obj{"v": typ(key)})},
		{name: "response", v: struct {
			V uMultiForm `json:"v"`
		}{}, role: "resp", want: objSchema(nil, obj{"v": typ(key)})},
		{name: "form", v: struct {
			V uMultiForm `formData:"v"`
		}{}, role: "form", want: objSchema(nil, obj{"v": typ("form " + key)})},
		{name: "list in form", v: struct {
			L []uMultiForm `formData:"l"`
		}{}, role: "form", want: objSchema(nil, obj{"l": obj{"type": arr{"array", "null"}, "items": typ("form " + key)}})},
	}
}

func roleUses(tagged bool) []use {
	v, key := interface{}(uMultiNoForm{}), "uMultiNoForm"
	if tagged {
		v, key = uMulti{}, "uMulti"
	}
	one := func(tag string) interface{} {
		return reflect.New(reflect.StructOf([]reflect.StructField{{Name: "V", Type: reflect.TypeOf(v), Tag: reflect.StructTag(tag + `:"v"`)}})).Interface()
	}
	us := []use{
		{name: "request", v: one("json"), role: "req", want: objSchema(nil, obj{"v": typ(key)})},
		{name: "response", v: one("json"), role: "resp", want: objSchema(nil, obj{"v": typ(key)})},
		{name: "form", v: one("formData"), role: "form", want: objSchema(nil, obj{"v": typ("form " + key)})},
	}
	for _, in := range []string{"query", "header", "cookie"} {
		us = append(us, use{name: in, v: one(in), role: "param", param: map[string]obj{"v": typ(in + " " + key)}})
	}
	return us
}

func init() {
	for _, key := range []string{"uMulti", "uMultiNoForm"} {
		shapes[key] = objSchema(nil, obj{"j": sInt, "b": sStr})
		shapes["form "+key] = objSchema(nil, obj{"f": sInt})
		shapes["query "+key] = objSchema(nil, obj{"q": sInt})
		shapes["header "+key] = objSchema(nil, obj{"h": sInt})
		shapes["cookie "+key] = objSchema(nil, obj{"c": sInt})
	}
	shapes["uMultiForm"] = objSchema(nil, obj{"j": sInt, "b": sStr})
	shapes["form uMultiForm"] = objSchema(nil, obj{"f": sInt})
	shapes["form uMultiNoForm"] = objSchema(nil, nil)
}

// rolesScenario uses one type in two roles with different tags.
func rolesScenario(ver string) *engine.Scenario {
	return &engine.Scenario{
		Name:  ver + " roles",
		Bound: "a structure with and without form tags as a property in all ordered pairs of 6 roles, in two operations",
		Run: func(c *engine.Ctx) {
			tagged := c.Bool("form tags")
			us := roleUses(tagged)
			b, a := newBinder(c, reflOptions[0], ver)
			u1 := engine.Pick(c, "first", us)
			u2 := engine.Pick(c, "second", us)
			b.hist = append(b.hist, u1.name, u2.name)
			if err := u1.add(a, 0); err != nil {
				b.fail("add", "%v", err)
			}
			b.check(a, []use{u1})
			c.Step(2)
			if err := u2.add(a, 1); err != nil {
				b.fail("add", "%v", err)
			}
			x, y := u1.name, u2.name
			if x > y {
				x, y = y, x
			}
			if key := strings.ReplaceAll(x+" and "+y, "response", "request"); key != "request and request" {
				b.key = ver + " roles " + key
				if tagged {
					b.key += " with form tags"
				}
			}
			b.check(a, []use{u1, u2})
		},
	}
}

// nullableScenario mentions a named list or map in two places.
func nullableScenario(ver string) *engine.Scenario {
	type place struct {
		name string
		v    interface{}
	}
	lists := [][]place{
		{{"value", uList{}}, {"pointer", new(uList)}, {"property", struct {
			P uList `json:"p"`
		}{}}, {"pointer property", struct {
			P *uList `json:"p"`
		}{}}, {"optional property", struct {
			P uList `json:"p,omitempty"`
		}{}}, {"item", []uList{}}},
		{{"value", uMap{}}, {"pointer", new(uMap)}, {"property", struct {
			P uMap `json:"p"`
		}{}}, {"pointer property", struct {
			P *uMap `json:"p"`
		}{}}, {"optional property", struct {
			P uMap `json:"p,omitempty"`
		}{}}, {"item", []uMap{}}},
	}
	return &engine.Scenario{
		Name:  ver + " nullable",
		Bound: "a named list and a named map mentioned in all ordered pairs of 6 kinds of places, compared with both orders",
		Run: func(c *engine.Ctx) {
			ps := engine.Pick(c, "type", lists)
			i := c.Choose("first", len(ps))
			j := c.Choose("second", len(ps))
			var comps []obj
			for _, order := range [][2]int{{i, j}, {j, i}} {
				a := newAPI(ver)
				for n, k := range order {
					c.Step(1)
					if err := (use{v: ps[k].v, role: "req"}).add(a, n); err != nil {
						c.Failf(ver+" add", "%v", err)
					}
				}
				d, _, err := docOf(a.spec())
				if err != nil {
					c.Failf(ver+" save", "%v", err)
				}
				comps = append(comps, sub(d, "components", "schemas"))
			}
			if d := jsonDiff("#", comps[0], comps[1]); d != "" {
				strip := func(o obj) interface{} {
					r := clone(o).(obj)
					for _, v := range r {
						s := v.(obj)
						delete(s, "nullable")
						s["type"] = without(s["type"], "null")
					}
					return r
				}
				key := ver + " order"
				if jsonDiff("#", strip(comps[0]), strip(comps[1])) == "" {
					key = ver + " nullability of a named list or map"
				}
				c.Failf(key, "%s, %s: component depends on the order: %s", ps[i].name, ps[j].name, d)
			}
			c.Outcome(js(comps[0]))
		},
	}
}

// unitsScenario has several uses in one operation.
func unitsScenario(ver string, us []use, n int) *engine.Scenario {
	return &engine.Scenario{
		Name:  fmt.Sprintf("%s %d units", ver, n),
		Bound: fmt.Sprintf("all sequences of %d response structures of %d in one operation, as responses 200, 201, 202", n, len(us)),
		Run: func(c *engine.Ctx) {
			b, a := newBinder(c, engine.Pick(c, "options", reflOptions[:1]), ver)
			oc, err := a.refl().NewOperationContext("POST", "/p")
			if err != nil {
				b.fail("context", "%v", err)
			}
			var units []use
			for i := 0; i < n; i++ {
				u := engine.Pick(c, "use", us)
				units = append(units, u)
				b.hist = append(b.hist, u.name)
				oc.AddRespStructure(u.v, openapi.WithHTTPStatus(200+i))
			}
			c.Step(1)
			if err := a.refl().AddOperation(oc); err != nil {
				b.fail("add", "%v", err)
			}
			b.check(a, nil)
			for i, u := range units {
				b.match(u.name, norm(inDialect(ver, u.want)), sub(b.d, "paths", "/p", "post", "responses", fmt.Sprint(200+i), "content", ctJSON)["schema"])
			}
		},
	}
}

// optionRefs adds an operation and another one in a different role with the same options.
func optionRefs(ver string, pairs bool) *engine.Scenario {
	return optionScenario(func(c *engine.Ctx, ver string, p program) {
		named := func(p program) bool { // A named interface has a component that is empty.
			return strings.Contains(p.String(), "optFile") && strings.Contains(p.String(), "without tags")
		}
		if named(p) {
			c.Skip()
		}
		a := p.newAPI(ver)
		b := &binder{c: c, ver: ver, name: map[string]string{}, typ: map[string]string{}, hist: []string{p.String()}}
		c.Step(1)
		if err := p.add(a.refl()); err != nil {
			c.Outcome("rejected")
			return
		}
		b.check(a, nil)
		v := engine.Pick(c, "other structure", optValues)
		q := program{method: "PUT", path: "/q", units: []opUnit{{desc: fmt.Sprintf("%T", v), addTo: func(oc openapi.OperationContext) {
			oc.AddReqStructure(v)
			oc.AddRespStructure(v)
		}}}}
		b.hist = append(b.hist, q.String())
		q.options = p.options
		if named(q) {
			c.Skip()
		}
		c.Step(1)
		if err := q.add(a.refl()); err != nil {
			c.Outcome("second is rejected")
			return
		}
		b.check(a, nil)
	}, ver, pairs)
}

func init() {
	register(&Property{ID: "P10", Scenarios: func(tier string) (res []*engine.Scenario) {
		all := uses()
		var resp, some []use
		for i, u := range all {
			if u.role == "resp" {
				resp = append(resp, u)
			}
			if u.role != "resp" && (i%4 == 0 || u.role != "req") {
				some = append(some, u)
			}
		}
		for _, ver := range versions {
			res = append(res, usesScenario(ver, "2 operations", all, 2, reflOptions), rolesScenario(ver), nullableScenario(ver), usesScenario(ver, "uses in bodies", bodyUses(), 3, reflOptions[:2]), optionRefs(ver, tier == "thorough"))
			if tier == "thorough" {
				res = append(res, usesScenario(ver, "3 operations", all, 3, reflOptions[:2]), usesScenario(ver, "4 operations", some, 4, reflOptions[:1]), unitsScenario(ver, resp, 3))
			} else {
				res = append(res, usesScenario(ver, "3 operations", some, 3, reflOptions[:1]), unitsScenario(ver, resp, 2))
			}
		}
		return res
	}})
}
