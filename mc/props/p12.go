package props

import (
	"errors"
	"fmt"
	"net/http"
	"reflect"
	"sort"
	"strings"

	"github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"
	"verif/mc/engine"
)

// P12: walking schemas of a content unit agrees with the document of an operation with that unit.

type walker interface {
	WalkRequestJSONSchemas(method string, cu openapi.ContentUnit, cb openapi.JSONSchemaCallback, done func(oc openapi.OperationContext)) error
	WalkResponseJSONSchemas(cu openapi.ContentUnit, cb openapi.JSONSchemaCallback, done func(oc openapi.OperationContext)) error
}

var (
	_ walker = &openapi3.Reflector{}
	_ walker = &openapi31.Reflector{}
)

// visit is a call of the callback.
type visit struct {
	in, name string
	required bool
	schema   interface{} // nil if there was none
}

func (v visit) String() string {
	return fmt.Sprintf("%s %s required=%v %s", v.in, v.name, v.required, js(v.schema))
}

// jsonDialect converts a schema of the document to JSON schema.
func jsonDialect(ver string, v interface{}) interface{} {
	if ver == "3.1" {
		return v
	}
	switch x := v.(type) {
	case arr:
		r := arr{}
		for _, e := range x {
			r = append(r, jsonDialect(ver, e))
		}
		return r
	case obj:
		r := obj{}
		for k, e := range x {
			switch k {
			case "enum", "default", "example", "required", "examples":
				r[k] = e
			case "properties":
				m := obj{}
				for n, p := range e.(obj) {
					m[n] = jsonDialect(ver, p)
				}
				r[k] = m
			default:
				r[k] = jsonDialect(ver, e)
			}
		}
		if r["nullable"] == true && r["type"] != nil {
			r["type"] = arr{r["type"], "null"}
		}
		delete(r, "nullable")
		for _, l := range []string{"imum"} {
			for ex, lim := range map[string]string{"exclusiveMax": "max", "exclusiveMin": "min"} {
				if b, ok := r[ex+l].(bool); ok {
					delete(r, ex+l)
					if b {
						r[ex+l] = r[lim+l]
						delete(r, lim+l)
					}
				}
			}
		}
		if e, ok := r["example"]; ok {
			r["examples"] = arr{e}
			delete(r, "example")
		}
		return r
	}
	return v
}

// documented derives the calls from the document of the operation.
func documented(ver string, d obj, p program) (res []visit) {
	op := sub(d, "paths", p.path, strings.ToLower(p.method))
	comps := sub(d, "components", "schemas")
	deref := func(s interface{}) obj {
		o, _ := s.(obj)
		for i := 0; o["$ref"] != nil && i < 10; i++ {
			o, _ = comps[strings.TrimPrefix(o["$ref"].(string), "#/components/schemas/")].(obj)
		}
		return o
	}
	conv := func(s interface{}) interface{} {
		if s == nil {
			return nil
		}
		return jsonDialect(ver, s)
	}
	if p.units[0].resp {
		for k, r := range sub(op, "responses") {
			if k == "204" && js(r) == `{"description":"No Content"}` {
				continue
			}
			for name, h := range sub(r, "headers") {
				ho := h.(obj)
				if ho["schema"] != nil {
					res = append(res, visit{"header", http.CanonicalHeaderKey(name), ho["required"] == true, conv(ho["schema"])})
				}
			}
			for _, m := range sub(r, "content") {
				if s, ok := m.(obj)["schema"]; ok {
					res = append(res, visit{"body", "body", false, conv(s)})
				}
			}
		}
		return
	}
	ps, _ := op["parameters"].(arr)
	for _, x := range ps {
		po := x.(obj)
		s := po["schema"]
		if s == nil {
			s = sub(po, "content", ctJSON)["schema"]
		}
		res = append(res, visit{po["in"].(string), po["name"].(string), po["required"] == true, conv(s)})
	}
	for ct, m := range sub(op, "requestBody", "content") {
		s := m.(obj)["schema"]
		switch ct {
		case ctJSON:
			res = append(res, visit{"body", "body", false, conv(s)})
		case ctForm:
			o := deref(s)
			req, _ := o["required"].(arr)
			for name, ps := range sub(o, "properties") {
				r := false
				for _, n := range req {
					r = r || n == name
				}
				res = append(res, visit{"formData", name, r, conv(ps)})
			}
		}
	}
	return
}

// walkOf walks the schemas of the unit; the callback fails at a position, if it is not negative.
func walkOf(w walker, p program, cu openapi.ContentUnit, failAt int, withDone bool) (vs []visit, calls, doneCalls int, doneOC openapi.OperationContext, err error) {
	cb := func(in openapi.In, name string, schema *jsonschema.SchemaOrBool, required bool) error {
		calls++
		if calls-1 == failAt {
			return errWalk
		}
		v := visit{in: string(in), name: name, required: required}
		if schema != nil {
			b, err := schema.MarshalJSON()
			if err != nil {
				panic(err)
			}
			v.schema, err = lenientDecode(b)
			if err != nil {
				panic(err)
			}
		}
		vs = append(vs, v)
		return nil
	}
	var done func(openapi.OperationContext)
	if withDone {
		done = func(oc openapi.OperationContext) {
			doneCalls++
			doneOC = oc
		}
	}
	if p.units[0].resp {
		err = w.WalkResponseJSONSchemas(cu, cb, done)
	} else {
		err = w.WalkRequestJSONSchemas(p.method, cu, cb, done)
	}
	return
}

var errWalk = errors.New("walk is stopped")

// selfContained checks the references of a visited schema and takes the components away.
func selfContained(c *engine.Ctx, ver string, p program, v visit, comps obj) interface{} {
	o, ok := v.schema.(obj)
	if !ok {
		return v.schema
	}
	carried := sub(o, "components", "schemas")
	r := obj{}
	for k, x := range o {
		if k != "components" {
			r[k] = x
		}
	}
	queue := refsOf(r, nil)
	seen := map[string]bool{}
	for len(queue) > 0 {
		n := strings.TrimPrefix(queue[0], "#/components/schemas/")
		if n == queue[0] {
			c.Failf(ver+" reference", "%v: %v: reference %q", p, v, queue[0])
		}
		queue = queue[1:]
		if seen[n] {
			continue
		}
		seen[n] = true
		s, ok := carried[n]
		if !ok {
			c.Failf(ver+" self-contained", "%v: schema of %s %s refers to %q and does not carry it: %s", p, v.in, v.name, n, js(v.schema))
		}
		queue = append(queue, refsOf(s, nil)...)
	}
	for n, s := range carried {
		want, ok := comps[n]
		if !ok {
			c.Failf(ver+" carried", "%v: schema of %s %s carries %q that is not in the document", p, v.in, v.name, n)
		}
		if d := jsonDiff("#", canon(jsonDialect(ver, want)), canon(s)); d != "" {
			c.Failf(ver+" carried", "%v: schema of %s %s carries %q: %s\nwant %s\ngot  %s", p, v.in, v.name, n, d, js(jsonDialect(ver, want)), js(s))
		}
	}
	if ref, ok := r["$ref"].(string); ok && len(r) == 1 {
		return carried[strings.TrimPrefix(ref, "#/components/schemas/")]
	}
	return r
}

func checkWalk(c *engine.Ctx, ver string, p program) {
	order := c.Choose("order", 3)
	a := p.newAPI(ver)
	oc, err := p.context(a.refl())
	if err != nil {
		c.Failf("context", "%v", err)
	}
	var cu openapi.ContentUnit
	if p.units[0].resp {
		cu = oc.Response()[0]
	} else {
		cu = oc.Request()[0]
	}
	// 0: two reflectors, 1: the operation is added first, 2: the walk is first.
	b := a
	if order == 0 {
		b = p.newAPI(ver)
	}
	var (
		vs     []visit
		n      int
		dones  int
		doneOC openapi.OperationContext
		wErr   error
	)
	walk := func() {
		vs, n, dones, doneOC, wErr = walkOf(b.refl().(walker), p, cu, -1, true)
		c.Step(1)
	}
	if order == 2 {
		walk()
	}
	c.Step(1)
	addErr := a.refl().AddOperation(oc)
	if order != 2 {
		walk()
	}
	c.Logf("%s %v order=%d -> add %v, walk %v %v", ver, p, order, addErr, wErr, vs)
	if dones != 1 {
		c.Failf(ver+" done", "%v: the completion hook ran %d times", p, dones)
	}
	if (addErr == nil) != (wErr == nil) {
		c.Failf(ver+" error", "%v: adding: %v, walking: %v", p, addErr, wErr)
	}
	if addErr != nil {
		if n > 0 {
			c.Failf(ver+" error", "%v: %d calls before error %v", p, n, wErr)
		}
		c.Outcome("rejected")
		return
	}
	for _, in := range []openapi.In{"query", "path", "header", "cookie", "formData", "body"} {
		if !p.units[0].resp && doneOC.UnknownParamsAreForbidden(in) != oc.UnknownParamsAreForbidden(in) {
			c.Failf(ver+" forbidden", "%v: unknown parameters in %s", p, in)
		}
	}
	d, raw, err := docOf(a.spec())
	if err != nil {
		c.Failf("save", "%v", err)
	}
	c.StateBytes(raw)
	comps := sub(d, "components", "schemas")
	want := documented(ver, d, p)
	render := func(v visit) string {
		if v.schema == nil || len(v.schema.(obj)) == 0 {
			v.schema = nil
		} else {
			v.schema = canon(norm(v.schema))
		}
		return v.String()
	}
	var ws, gs []string
	for _, v := range want {
		if o, ok := v.schema.(obj); ok && len(o) == 1 && o["$ref"] != nil {
			v.schema = jsonDialect(ver, comps[strings.TrimPrefix(o["$ref"].(string), "#/components/schemas/")])
		}
		ws = append(ws, render(v))
	}
	for _, v := range vs {
		v.schema = selfContained(c, ver, p, v, comps)
		gs = append(gs, render(v))
	}
	sort.Strings(ws)
	sort.Strings(gs)
	if !reflect.DeepEqual(ws, gs) {
		c.Failf(ver+" calls", "%v: calls\nwant %s\ngot  %s", p, strings.Join(ws, "\n     "), strings.Join(gs, "\n     "))
	}
	// The callback fails at every position.
	for i := 0; i < n; i++ {
		_, calls, dones, _, err := walkOf(p.newAPI(ver).refl().(walker), p, cu, i, true)
		c.Step(1)
		if !errors.Is(err, errWalk) {
			c.Failf(ver+" callback error", "%v: the error of call %d is not returned: %v", p, i, err)
		}
		if calls != i+1 {
			c.Failf(ver+" callback stop", "%v: %d calls after the error of call %d", p, calls-i-1, i)
		}
		if dones != 1 {
			c.Failf(ver+" callback done", "%v: the completion hook ran %d times after the error of call %d", p, dones, i)
		}
	}
	if _, calls, _, _, err := walkOf(p.newAPI(ver).refl().(walker), p, cu, -1, false); err != nil || calls != n {
		c.Failf(ver+" without done", "%v: without completion hook: %d calls, %v", p, calls, err)
	}
	c.Outcome(strings.Join(gs, "; "))
}

func init() {
	register(&Property{ID: "P12", Scenarios: func(tier string) (res []*engine.Scenario) {
		for _, ver := range versions {
			res = append(res, opScenarios(func(c *engine.Ctx, ver string, p program) {
				if len(p.units) != 1 || p.setup != nil || p.units[0].resp && p.method != "GET" {
					c.Skip()
				}
				checkWalk(c, ver, p)
			}, ver, tier, false)...)
			n := 2
			if tier == "thorough" {
				n = 3
			}
			res = append(res, customScenario(checkWalk, ver, n), optionScenario(checkWalk, ver, tier == "thorough"))
		}
		return res
	}})
}
