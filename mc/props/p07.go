package props

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"
	"verif/mc/engine"
)

// P07: fields of request structures become parameters.

var paramLocs = []string{"query", "path", "header", "cookie"}

// paramName tells the name of the parameter a field has in a location.
func paramName(f fieldSpec, in string, mapping map[string]string) (string, bool) {
	if n, ok := mapping[f.goName]; ok {
		return n, true
	}
	n, ok := f.tag(in)
	if !ok && in == "query" {
		n, ok = f.tag("form")
	}
	if !ok || n == "-" {
		return "", false
	}
	n = strings.Split(n, ",")[0]
	if n == "" {
		n = f.goName
	}
	return n, true
}

func omitEmpty(f fieldSpec, in string) bool {
	n, ok := f.tag(in)
	if !ok && in == "query" {
		n, _ = f.tag("form")
	}
	return strings.Contains(n, ",omitempty")
}

// fieldSchema is the schema of an inline field with modifiers in the dialect of 3.1.
func fieldSchema(f fieldSpec, omitEmpty bool) obj {
	s := clone(f.typ.schema).(obj)
	if omitEmpty && !f.typ.ptr {
		s["type"] = without(s["type"], "null")
		if s["type"] == nil {
			delete(s, "type")
		}
	}
	for _, m := range f.mods {
		if m.schema != nil {
			m.schema(f.typ, s)
		}
	}
	return s
}

// expectedParam is the model of a parameter.
func expectedParam(ver string, f fieldSpec, in, name string, mapped bool) obj {
	p := obj{"name": name, "in": in}
	s := fieldSchema(f, !mapped && omitEmpty(f, in))
	isJSON := f.typ.kind == "json"
	for _, m := range f.mods {
		if m.tag == "collectionFormat" && m.val == "json" {
			isJSON = true
		}
	}
	switch {
	case isJSON:
		// Content schema does not have the tags of the field: it describes the type.
		t := clone(f.typ.schema).(obj)
		if ver == "3.0" {
			t = dialect30(t).(obj)
		}
		p["content"] = obj{"application/json": obj{"schema": t}}
	default:
		if ver == "3.0" {
			s = dialect30(s).(obj)
			if f.typ.t.Kind() != reflect.Ptr {
				delete(s, "nullable")
			}
		}
		p["schema"] = s
		if f.typ.kind == "object" || f.typ.kind == "objref" {
			p["style"], p["explode"] = "deepObject", true
		}
	}
	for _, m := range f.mods {
		if m.param != nil {
			m.param(ver, in, p)
		}
	}
	if in == "path" {
		p["required"] = true
	}
	return p
}

type unit07 struct {
	fields  []fieldSpec // embedded ones are flattened by flat()
	mapping map[string]map[string]string
}

func (u unit07) flat() (res []fieldSpec) {
	for _, f := range u.fields {
		if f.embed == nil {
			res = append(res, f)
			continue
		}
		t := f.embed
		if t.Kind() == reflect.Ptr {
			t = t.Elem()
		}
		switch t.Name() {
		case "EmbA":
			res = append(res, fieldSpec{goName: "EA", typ: typeSpecs[0], tags: [][2]string{{"query", "ea"}}},
				fieldSpec{goName: "EH", typ: typeSpecs[0], tags: [][2]string{{"header", "eh"}}},
				fieldSpec{goName: "EJ", typ: typeSpecs[0], tags: [][2]string{{"json", "ej"}}})
		case "EmbB":
			res = append(res, fieldSpec{goName: "EB", typ: typeSpecs[1], tags: [][2]string{{"query", "eb"}}, mods: modSpecs[:1]},
				fieldSpec{goName: "EI", typ: typeSpecs[4], tags: [][2]string{{"query", "ei"}}})
		}
	}
	return
}

// paramCheck decides a property of an operation with parameters.
type paramCheck func(c *engine.Ctx, ver, method string, units []unit07)

func checkParams(c *engine.Ctx, ver, method string, units []unit07) {
	want := map[string]obj{}
	accept := true
	path := "/p"
	for _, u := range units {
		for _, in := range paramLocs {
			for _, f := range u.flat() {
				name, ok := paramName(f, in, u.mapping[in])
				if !ok {
					continue
				}
				_, mapped := u.mapping[in][f.goName]
				k := in + " " + name
				if want[k] != nil {
					accept = false
				}
				want[k] = expectedParam(ver, f, in, name, mapped)
				if in == "path" && !strings.Contains(path, "/{"+name+"}") {
					path += "/{" + name + "}"
				}
			}
		}
	}
	a := newAPI(ver)
	oc, err := a.refl().NewOperationContext(method, path)
	if err != nil {
		c.Failf("context", "%v", err)
	}
	desc := ""
	for _, u := range units {
		u := u
		st := makeStruct(u.fields)
		oc.AddReqStructure(st, func(cu *openapi.ContentUnit) {
			for in, m := range u.mapping {
				cu.SetFieldMapping(openapi.In(in), m)
			}
		})
		desc += fmt.Sprintf("%v mapping=%v; ", u.fields, u.mapping)
	}
	c.Step(1)
	err = a.refl().AddOperation(oc)
	c.Logf("%s %s %s %s -> %v", ver, method, path, desc, err)
	if accept != (err == nil) {
		c.Failf(fmt.Sprintf("accept=%v", accept), "%s %s %s %s: want accepted=%v, got error: %v", ver, method, path, desc, accept, err)
	}
	if !accept {
		c.Outcome("duplicate")
		return
	}
	d, b, err := docOf(a.spec())
	if err != nil {
		c.Failf("save", "%v", err)
	}
	c.StateBytes(b)
	ps, _ := sub(d, "paths", path, strings.ToLower(method))["parameters"].(arr)
	got := map[string]obj{}
	for _, p := range ps {
		o := p.(obj)
		k := fmt.Sprint(o["in"], " ", o["name"])
		if got[k] != nil {
			c.Failf("twice", "%s: parameter %s is declared twice: %s", ver, k, b)
		}
		got[k] = o
	}
	for _, k := range keys(want) {
		if got[k] == nil {
			c.Failf("missing", "%s %s: parameter %s is missing for %s\n%s", ver, method, k, desc, js(ps))
		}
		w := want[k]
		if s, ok := w["schema"].(obj); ok && len(s) == 0 && got[k]["schema"] == nil {
			delete(w, "schema") // unconstrained schema may be omitted
		}
		if x := jsonDiff("#", canon(norm(w)), canon(got[k])); x != "" {
			c.Failf("parameter "+ver, "%s %s: parameter %s of %s: %s\nwant %s\ngot  %s", ver, method, k, desc, x, js(w), js(got[k]))
		}
		for _, r := range refsOf(got[k], nil) {
			n := strings.TrimPrefix(r, "#/components/schemas/")
			w := components[n]
			if ver == "3.0" {
				w = dialect30(w).(obj)
			}
			if x := jsonDiff("#", canon(norm(w)), canon(sub(d, "components", "schemas")[n])); x != "" {
				c.Failf("component "+ver, "%s: component %s: %s\n%s", ver, n, x, b)
			}
		}
	}
	for k := range got {
		if want[k] == nil {
			c.Failf("unexpected", "%s %s: unexpected parameter %s for %s: %s", ver, method, k, desc, js(got[k]))
		}
	}
	c.Outcome(js(ps))
}

// refsOf collects references.
func refsOf(v interface{}, acc []string) []string {
	switch x := v.(type) {
	case obj:
		for _, k := range keys(x) {
			if s, ok := x[k].(string); ok && k == "$ref" {
				acc = append(acc, s)
				continue
			}
			acc = refsOf(x[k], acc)
		}
	case arr:
		for _, e := range x {
			acc = refsOf(e, acc)
		}
	}
	return acc
}

func tagSets(name string) [][][2]string {
	return [][][2]string{
		{{"query", name}}, {{"path", name}}, {{"header", name}}, {{"cookie", name}}, {{"form", name}}, {{"query", name + ",omitempty"}}, {{"formData", name}},
		{{"json", name}}, {}, {{"query", "-"}}, {{"query", name}, {"header", "X-" + name}}, {{"query", name}, {"form", "f" + name}}, {{"query", name}, {"json", name}},
		{{"header", ""}}, {{"path", name}, {"query", "q" + name}},
	}
}

func typeAllowed(t typeSpec, tags [][2]string) bool {
	if t.kind == "json" && inForm(tags) {
		return false
	}
	if t.in == "" {
		return true
	}
	return len(tags) == 1 && tags[0][0] == t.in
}

// inForm tells fields that are form data as well: a structure described by its json tags would
// be described by its form tags there, see P10 for types used in different roles.
func inForm(tags [][2]string) bool {
	for _, t := range tags {
		if t[0] == "form" || t[0] == "formData" {
			return true
		}
	}
	return false
}

func singleField(check paramCheck, ver string, mods int) *engine.Scenario {
	return &engine.Scenario{
		Name:  ver + " field",
		Bound: fmt.Sprintf("all structures of one field: %d types, 15 sets of name tags, up to %d of %d modifiers, mapping, 2 methods", len(typeSpecs), mods, len(modSpecs)),
		Run: func(c *engine.Ctx) {
			method := engine.Pick(c, "method", []string{"GET", "POST"})
			t := engine.Pick(c, "type", typeSpecs)
			tags := engine.Pick(c, "tags", tagSets("n"))
			if !typeAllowed(t, tags) {
				c.Skip()
			}
			u := unit07{mapping: map[string]map[string]string{}}
			if t.in == "" {
				if k := c.Choose("mapping", 5); k > 0 {
					u.mapping[paramLocs[k-1]] = map[string]string{"F": "mapped"}
				}
			}
			f := fieldSpec{goName: "F", tags: tags, typ: t, mods: chooseMods(c, t, mods, modSpecs)}
			u.fields = []fieldSpec{f}
			check(c, ver, method, []unit07{u})
		},
	}
}

func manyFields(check paramCheck, ver string, n int, types []typeSpec, mods []modSpec) *engine.Scenario {
	return &engine.Scenario{
		Name:  fmt.Sprintf("%s %d fields", ver, n),
		Bound: fmt.Sprintf("all structures of %d fields: %d types, 15 sets of name tags or embedding, names from a set of 2, up to 1 of %d modifiers, split in one or two content units", n, len(types), len(mods)),
		Run: func(c *engine.Ctx) {
			u := unit07{mapping: map[string]map[string]string{}}
			embedded := map[string]bool{}
			for i := 0; i < n; i++ {
				f := fieldSpec{goName: fmt.Sprintf("F%d", i)}
				k := c.Choose("form", 15+4)
				if k >= 15 {
					f.embed = []reflect.Type{tOf(EmbA{}), tOf(&EmbA{}), tOf(EmbB{}), tOf(&EmbB{})}[k-15]
					n := f.structField().Name
					if embedded[n] {
						c.Skip() // Go does not allow it
					}
					embedded[n] = true
				} else {
					f.tags = tagSets([]string{"n", "m"}[c.Choose("name", 2)])[k]
					f.typ = engine.Pick(c, "type", types)
					if !typeAllowed(f.typ, f.tags) {
						c.Skip()
					}
					f.mods = chooseMods(c, f.typ, 1, mods)
				}
				u.fields = append(u.fields, f)
			}
			units := []unit07{u}
			if c.Bool("two units") {
				units = []unit07{{fields: u.fields[:1]}, {fields: u.fields[1:]}}
			}
			check(c, ver, "POST", units)
		},
	}
}

// Structures that forbid unknown parameters.
type (
	forbidQuery struct {
		A string   `query:"a"`
		_ struct{} `query:"_" additionalProperties:"false"`
	}
	forbidHeader struct {
		A string   `header:"a"`
		_ struct{} `header:"_" additionalProperties:"false"`
	}
	forbidCookie struct {
		_ struct{} `cookie:"_" additionalProperties:"false"`
	}
	forbidForm struct {
		A string   `form:"a"`
		_ struct{} `form:"_" additionalProperties:"false"`
	}
	forbidJSON struct {
		A string   `json:"a" query:"b"`
		_ struct{} `json:"_" additionalProperties:"false"`
	}
	forbidAll struct {
		A string   `query:"q" header:"h"`
		_ struct{} `query:"_" header:"_" cookie:"_" path:"_" additionalProperties:"false"`
	}
	forbidTrue struct {
		_ struct{} `query:"_" additionalProperties:"true"`
	}
	forbidNone struct {
		A string   `query:"a" header:"a"`
		_ struct{} `additionalProperties:"false"`
	}
	// As in ExampleReflector_AddOperation: embedding does not matter.
	forbidEmb struct {
		forbidQuery
		B string `header:"b"`
	}
)

func forbidScenario(ver string) *engine.Scenario {
	cases := []struct {
		v    interface{}
		want string
	}{{forbidQuery{}, "query"}, {forbidHeader{}, "header"}, {forbidCookie{}, "cookie"}, {forbidForm{}, "query"}, {forbidJSON{}, ""}, {forbidAll{}, "query header cookie path"},
		{forbidTrue{}, ""}, {forbidNone{}, ""}, {forbidEmb{}, "query"}, {struct{}{}, ""}, {[]string{}, ""}, {nil, ""}}
	return &engine.Scenario{
		Name:  ver + " unknown parameters",
		Bound: fmt.Sprintf("all ordered pairs of %d structures that forbid unknown parameters in different locations, 2 methods", len(cases)),
		Run: func(c *engine.Ctx) {
			method := engine.Pick(c, "method", []string{"GET", "POST"})
			a := newAPI(ver)
			oc, _ := a.refl().NewOperationContext(method, "/p")
			want := map[string]bool{}
			desc := ""
			var used []int
			for i := 0; i < 2; i++ {
				k := c.Choose("structure", len(cases))
				for _, u := range used {
					if u == k {
						c.Skip()
					}
				}
				used = append(used, k)
				oc.AddReqStructure(cases[k].v)
				desc += fmt.Sprintf("%T ", cases[k].v)
				for _, l := range strings.Fields(cases[k].want) {
					want[l] = true
				}
			}
			c.Step(1)
			if err := a.refl().AddOperation(oc); err != nil {
				if strings.Contains(err.Error(), "already defined") {
					c.Skip()
				}
				c.Failf("unknown add", "%s %s: %v", ver, desc, err)
			}
			d, b, err := docOf(a.spec())
			if err != nil {
				c.Failf("save", "%v", err)
			}
			c.StateBytes(b)
			op := sub(d, "paths", "/p", strings.ToLower(method))
			for _, in := range []string{"query", "path", "header", "cookie", "formData", "body"} {
				_, has := op["x-forbid-unknown-"+in]
				if has != want[in] || oc.UnknownParamsAreForbidden(openapi.In(in)) != want[in] {
					c.Failf("unknown", "%s %s %s: unknown parameters in %s: document %v, context %v, want forbidden=%v\n%s", ver, method, desc, in, has, oc.UnknownParamsAreForbidden(openapi.In(in)), want[in], b)
				}
			}
			c.Outcome(fmt.Sprint(want))
		},
	}
}

// forbidReadScenario reads the marks of operations that were loaded or edited.
func forbidReadScenario(ver string) *engine.Scenario {
	values := []interface{}{nil, true, false, "true", 1.0}
	locations := []string{"query", "path", "header", "cookie"}
	return &engine.Scenario{
		Name:  ver + " reading unknown parameters",
		Bound: fmt.Sprintf("all assignments of %d values to the marks of %d locations, loaded from a document and set to a context", len(values), len(locations)),
		Run: func(c *engine.Ctx) {
			op := obj{"responses": obj{"204": obj{"description": "d"}}}
			want := map[string]bool{}
			for _, in := range locations {
				v := engine.Pick(c, "mark", values)
				if v != nil {
					op["x-forbid-unknown-"+in] = v
				}
				want[in] = v == true
			}
			c.Step(1)
			read := map[string]func(in string) bool{}
			doc := obj{"openapi": "3.0.3", "info": obj{"title": "t", "version": "v"}, "paths": obj{"/p": obj{"get": op}}}
			a := newAPI(ver)
			oc, err := a.refl().NewOperationContext("GET", "/q")
			if err != nil {
				c.Failf("context", "%v", err)
			}
			if ver == "3.1" {
				doc["openapi"] = "3.1.0"
			}
			if err := a.load([]byte(js(doc)), false); err != nil {
				c.Failf("load", "%v", err)
			}
			read["context"] = func(in string) bool { return oc.UnknownParamsAreForbidden(openapi.In(in)) }
			switch s := a.spec().(type) {
			case *openapi3.Spec:
				o := s.Paths.MapOfPathItemValues["/p"].MapOfOperationValues["get"]
				read["document"] = func(in string) bool { return o.UnknownParamIsForbidden(openapi3.ParameterIn(in)) }
				oc.(openapi3.OperationExposer).Operation().MapOfAnything = o.MapOfAnything
			case *openapi31.Spec:
				o := s.Paths.MapOfPathItemValues["/p"].Get
				read["document"] = func(in string) bool { return o.UnknownParamIsForbidden(openapi31.ParameterIn(in)) }
				oc.(openapi31.OperationExposer).Operation().MapOfAnything = o.MapOfAnything
			}
			for _, by := range keys(read) {
				for _, in := range append([]string{"formData", "body"}, locations...) {
					if got := read[by](in); got != want[in] {
						c.Failf("reading unknown", "%s: unknown parameters in %s of the %s are forbidden: %v, want %v, operation %s", ver, in, by, got, want[in], js(op))
					}
				}
			}
			c.State(js(op))
			c.Outcome(fmt.Sprint(want))
		},
	}
}

func init() {
	register(&Property{ID: "P07", Scenarios: func(tier string) (res []*engine.Scenario) {
		fewTypes := []typeSpec{typeSpecs[0], typeSpecs[2]}
		fewMods := []modSpec{modSpecs[0], modSpecs[24]}
		for _, ver := range versions {
			if tier == "thorough" {
				res = append(res, singleField(checkParams, ver, 3), manyFields(checkParams, ver, 2, typeSpecs[:14], modSpecs), manyFields(checkParams, ver, 3, fewTypes, fewMods))
			} else {
				res = append(res, singleField(checkParams, ver, 2), manyFields(checkParams, ver, 2, append(fewTypes, typeSpecs[13], typeSpecs[19]), []modSpec{modSpecs[0], modSpecs[2]}), manyFields(checkParams, ver, 3, typeSpecs[:1], nil))
			}
			res = append(res, forbidScenario(ver), forbidReadScenario(ver))
		}
		return res
	}})
}
