package props

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"
	"verif/mc/engine"
)

// P13: hooks see the operation that is processed.

// hookMonitor observes the hooks of a reflector and marks schemas with what the hooks see.
type hookMonitor struct {
	calls   []string                   // what every call with an operation saw
	bad     string                     // first wrong observation
	current []openapi.OperationContext // operations being added, innermost last
	nested  func()                     // run once from a hook
	probes  int                        // calls without operation
	readers int
}

func (m *hookMonitor) see(rc *jsonschema.ReflectContext, hook, what string) string {
	oc, ok := openapi.OperationCtx(rc)
	if !ok {
		m.probes++
		return ""
	}
	s := fmt.Sprintf("%s %s response=%v in=%s", oc.Method(), oc.PathPattern(), oc.IsProcessingResponse(), oc.ProcessingIn())
	m.calls = append(m.calls, hook+" "+what+": "+s)
	if len(m.current) == 0 {
		m.bad = "operation seen outside of adding: " + s
	} else if cur := m.current[len(m.current)-1]; oc.Method() != cur.Method() || oc.PathPattern() != cur.PathPattern() || oc.ID() != cur.ID() {
		m.bad = fmt.Sprintf("%s %s: hook sees %s while %s %s is added", hook, what, s, cur.Method(), cur.PathPattern())
	}
	if n := m.nested; n != nil && m.bad == "" {
		m.nested = nil
		n()
		// State of this operation is not changed by the other operation.
		if t := fmt.Sprintf("%s %s response=%v in=%s", oc.Method(), oc.PathPattern(), oc.IsProcessingResponse(), oc.ProcessingIn()); t != s {
			m.bad = fmt.Sprintf("hook sees %s and then %s after another operation was added", s, t)
		}
	}
	return s
}

func (m *hookMonitor) install(r *jsonschema.Reflector) {
	mark := func(s *jsonschema.Schema, hook, seen string) {
		if s != nil && seen != "" {
			s.WithExtraPropertiesItem("x-"+hook, seen)
		}
	}
	r.DefaultOptions = append(r.DefaultOptions,
		jsonschema.InterceptSchema(func(p jsonschema.InterceptSchemaParams) (bool, error) {
			h := "schema-before"
			if p.Processed {
				h = "schema-after"
			}
			mark(p.Schema, h, m.see(p.Context, h, p.Value.Type().String()))
			return false, nil
		}),
		jsonschema.InterceptProp(func(p jsonschema.InterceptPropParams) error {
			h := "prop-before"
			if p.Processed {
				h = "prop-after"
			}
			seen := m.see(p.Context, h, p.Name)
			if p.Processed {
				mark(p.PropertySchema, h, seen)
			}
			return nil
		}),
		jsonschema.InterceptNullability(func(p jsonschema.InterceptNullabilityParams) {
			mark(p.Schema, "null", m.see(p.Context, "null", p.Type.String()))
		}),
	)
}

// add adds an operation under observation.
func (m *hookMonitor) add(r openapi.Reflector, oc openapi.OperationContext) error {
	m.current = append(m.current, oc)
	defer func() { m.current = m.current[:len(m.current)-1] }()
	return r.AddOperation(oc)
}

// seenAt checks marks of the schemas at a place, components are collected with the marks they may have.
func seenAt(c *engine.Ctx, ver, desc string, v interface{}, want string, comps map[string]map[string]bool) (n int) {
	switch x := v.(type) {
	case arr:
		for _, e := range x {
			n += seenAt(c, ver, desc, e, want, comps)
		}
	case obj:
		for _, k := range keys(x) {
			if s, ok := x[k].(string); ok && k == "$ref" {
				name := strings.TrimPrefix(s, "#/components/schemas/")
				if comps[name] == nil {
					comps[name] = map[string]bool{}
				}
				comps[name][want] = true
			}
			switch k {
			case "x-schema-before", "x-schema-after", "x-prop-after", "x-null":
				n++
				if x[k] != want {
					c.Failf(ver+" seen", "%s: hook %s saw %q, the schema is at %q: %s", desc, k, x[k], want, js(x))
				}
			default:
				n += seenAt(c, ver, desc, x[k], want, comps)
			}
		}
	}
	return n
}

// checkSeen compares marks of all schemas of the document with their places.
func checkSeen(c *engine.Ctx, ver string, d obj, desc string, p program) {
	comps := map[string]map[string]bool{}
	// Customization, another unit of the same media type or another field of the same name replaces a part of a body.
	replaced := map[string]bool{}
	if len(p.units) > 1 || strings.Contains(desc, "customize=2") || strings.Contains(desc, "[F0 ") {
		for _, u := range p.units {
			replaced[fmt.Sprintf("%s %s response=%v in=body", strings.ToLower(p.method), p.path, u.resp)] = true
		}
	}
	for path, pi := range sub(d, "paths") {
		for method, o := range pi.(obj) {
			op := o.(obj)
			at := func(resp bool, in string) string {
				return fmt.Sprintf("%s %s response=%v in=%s", method, path, resp, in)
			}
			ps, _ := op["parameters"].(arr)
			for _, p := range ps {
				po := p.(obj)
				place := desc + " parameter " + js(po["name"])
				n := seenAt(c, ver, place, po, at(false, po["in"].(string)), comps)
				if s := sub(po, "schema"); n == 0 && s["$ref"] == nil && po["content"] == nil && len(s) > 0 {
					c.Failf(ver+" unseen", "%s: no hook saw the schema: %s", place, js(po))
				}
			}
			seenAt(c, ver, desc+" request body", op["requestBody"], at(false, "body"), comps)
			for _, r := range sub(op, "responses") {
				seenAt(c, ver, desc+" response headers", sub(r, "headers"), at(true, "header"), comps)
				n := seenAt(c, ver, desc+" response body", sub(r, "content"), at(true, "body"), comps)
				if s := sub(r, "content", ctJSON, "schema"); n == 0 && len(s) > 0 && len(refsOf(s, nil)) == 0 && s["example"] == nil && js(s) != `{"type":"string"}` {
					c.Failf(ver+" unseen", "%s: no hook saw the response body: %s", desc, js(s))
				}
			}
		}
	}
	// A component is processed in one of the places that mention it, directly or through other components.
	schemas := sub(d, "components", "schemas")
	for changed := true; changed; {
		changed = false
		for _, n := range keys(schemas) {
			for _, r := range refsOf(schemas[n], nil) {
				m := strings.TrimPrefix(r, "#/components/schemas/")
				if comps[m] == nil {
					comps[m] = map[string]bool{}
				}
				for w := range comps[n] {
					if !comps[m][w] {
						comps[m][w] = true
						changed = true
					}
				}
			}
		}
	}
	for _, n := range keys(schemas) {
		if len(comps[n]) == 0 {
			continue
		}
		found := ""
		var scan func(v interface{})
		scan = func(v interface{}) {
			switch x := v.(type) {
			case arr:
				for _, e := range x {
					scan(e)
				}
			case obj:
				for k, e := range x {
					switch k {
					case "x-schema-before", "x-schema-after", "x-prop-after", "x-null":
						s, _ := e.(string)
						if !comps[n][s] && !replaced[s] {
							c.Failf(ver+" seen component", "%s: component %s was processed for %q, it is mentioned at %v", desc, n, s, keys(comps[n]))
						}
						if found != "" && found != s {
							c.Failf(ver+" mixed component", "%s: component %s was processed for %q and %q", desc, n, s, found)
						}
						found = s
					default:
						scan(e)
					}
				}
			}
		}
		scan(schemas[n])
		if found == "" {
			c.Failf(ver+" unseen component", "%s: no hook saw component %s: %s", desc, n, js(schemas[n]))
		}
	}
}

// otherPrograms are added next to the operation.
func otherPrograms() []program {
	return []program{
		{method: "put", path: "/other", units: []opUnit{{desc: "other request", addTo: func(oc openapi.OperationContext) { oc.AddReqStructure(new(bJSON)) }}}},
		{method: "get", path: "/other/{p}", units: []opUnit{{desc: "other parameters", addTo: func(oc openapi.OperationContext) {
			oc.AddReqStructure(struct {
				P int    `path:"p"`
				Q string `query:"q"`
			}{})
		}}, {resp: true, desc: "other response", addTo: func(oc openapi.OperationContext) { oc.AddRespStructure(new(rBody)) }}}},
	}
}

// hooksCheck adds an operation in the given modes: 0 alone, 1-2 prepared before and added after or before another one,
// 3-4 with another one added from a hook to the same or another reflector.
func hooksCheck(c *engine.Ctx, ver string, p program, modes, others int) {
	a := p.newAPI(ver)
	m := &hookMonitor{}
	m.install(a.jsr())
	mode, other := 3, otherPrograms()[1]
	if modes > 1 {
		mode = c.Choose("mode", modes)
		if mode > 0 {
			other = otherPrograms()[c.Choose("other", others)]
		}
	}
	oc, err := p.context(a.refl())
	if err != nil {
		c.Failf("context", "%v", err)
	}
	oc.SetID("main")
	addOther := func() {
		o, err := other.context(a.refl())
		if err != nil {
			c.Failf("context", "%v", err)
		}
		o.SetID("other")
		if err := m.add(a.refl(), o); err != nil {
			c.Failf("other", "%v: %v", other, err)
		}
	}
	switch mode {
	case 1:
		addOther()
	case 3:
		m.nested = addOther
	case 4:
		b := newAPI(ver)
		m2 := &hookMonitor{}
		m2.install(b.jsr())
		m.nested = func() {
			o, err := other.context(b.refl())
			if err != nil {
				c.Failf("context", "%v", err)
			}
			if err := m2.add(b.refl(), o); err != nil {
				c.Failf("other", "%v: %v", other, err)
			}
			m.bad = m2.bad
		}
	}
	c.Step(1)
	err = m.add(a.refl(), oc)
	if mode == 2 {
		addOther()
	}
	desc := fmt.Sprintf("%v mode=%d", p, mode)
	c.Logf("%s %s -> %v %v", ver, desc, err, m.calls)
	if m.bad != "" {
		c.Failf(ver+" operation", "%s: %s", desc, m.bad)
	}
	if err != nil {
		c.Outcome("rejected")
		return
	}
	d, raw, err := docOf(a.spec())
	if err != nil {
		c.Failf("save", "%v", err)
	}
	c.StateBytes(raw)
	checkSeen(c, ver, d, desc, p)
	c.Outcome(strings.Join(m.calls, ";"))
}

// ---- values of the context

type ctxPreparer struct{ A int }

// SetupContentUnit implements openapi.ContentUnitPreparer.
func (ctxPreparer) SetupContentUnit(cu *openapi.ContentUnit) {
	cu.Structure = "prepared"
	cu.ContentType = "text/prepared"
	cu.HTTPStatus = 418
	cu.SetFieldMapping(openapi.InQuery, map[string]string{"A": "a"})
}

// ctxModel is a record of the values of a context.
type ctxModel struct {
	id, summary, description string
	tags                     []string
	deprecated               bool
	req, resp                []openapi.ContentUnit
	security                 []interface{}
	method, path             string
	isResp                   bool
	in                       openapi.In
}

func contextScenario(ver string, depth int) *engine.Scenario {
	structs := []interface{}{nil, "text", new(bJSON), ctxPreparer{}}
	custom := func(openapi.ContentOrReference) {}
	opts := [][]openapi.ContentOption{nil, {openapi.WithContentType("text/a")}, {openapi.WithHTTPStatus(404), openapi.WithContentType("text/b")}, {openapi.WithCustomize(custom)},
		{func(cu *openapi.ContentUnit) { cu.Description = "D"; cu.Format = "F"; cu.IsDefault = true }},
		{func(cu *openapi.ContentUnit) {
			cu.SetFieldMapping(openapi.InHeader, map[string]string{"H": "x"})
			cu.SetFieldMapping(openapi.InPath, nil)
			cu.SetFieldMapping(openapi.InHeader, map[string]string{})
		}}}
	apply := func(s interface{}, os []openapi.ContentOption) openapi.ContentUnit {
		cu := openapi.ContentUnit{Structure: s}
		if _, ok := s.(ctxPreparer); ok {
			cu = openapi.ContentUnit{Structure: "prepared", ContentType: "text/prepared", HTTPStatus: 418}
			cu.SetFieldMapping(openapi.InQuery, map[string]string{"A": "a"})
		}
		for _, o := range os {
			o(&cu)
		}
		return cu
	}
	return &engine.Scenario{
		Name:  ver + " context",
		Bound: fmt.Sprintf("all sequences of %d calls of setters on two operation contexts of one reflector, readers are compared with a record model after every call", depth),
		Run: func(c *engine.Ctx) {
			a := newAPI(ver)
			var ocs [2]openapi.OperationContext
			var ms [2]ctxModel
			for i, m := range []string{"Get", "POST"} {
				oc, err := a.refl().NewOperationContext(m, "/a/{b:[0-9]+}")
				if err != nil {
					c.Failf("context", "%v", err)
				}
				ocs[i] = oc
			}
			var hist []string
			for i := 0; i < depth; i++ {
				k := c.Choose("context", 2)
				oc, m := ocs[k], &ms[k]
				x := fmt.Sprintf("v%d", c.Choose("value", 2))
				f := c.Choose("setter", 12)
				switch f {
				case 0:
					oc.SetID(x)
					m.id = x
				case 1:
					oc.SetSummary(x)
					m.summary = x
				case 2:
					oc.SetDescription(x)
					m.description = x
				case 3:
					ts := []string{x, "t"}
					oc.SetTags(ts...)
					m.tags = []string{x, "t"}
				case 4:
					oc.SetTags()
					m.tags = nil
				case 5:
					oc.SetIsDeprecated(x == "v0")
					m.deprecated = x == "v0"
				case 6:
					oc.AddSecurity(x)
					m.security = append(m.security, obj{x: arr{}})
				case 7:
					oc.AddSecurity(x, "read", "write")
					m.security = append(m.security, obj{x: arr{"read", "write"}})
				case 10:
					t, ok := oc.(interface {
						SetMethod(method string)
						SetPathPattern(pattern string)
					})
					if !ok {
						c.Skip()
					}
					t.SetMethod("put" + x)
					t.SetPathPattern("/" + x)
					m.method, m.path = "put"+x, "/"+x
				case 11:
					oc.SetIsProcessingResponse(x == "v0")
					oc.SetProcessingIn(openapi.In(x))
					m.isResp, m.in = x == "v0", openapi.In(x)
				case 8, 9:
					s := engine.Pick(c, "structure", structs)
					os := engine.Pick(c, "options", opts)
					cu := apply(s, os)
					if f == 8 {
						oc.AddReqStructure(s, os...)
						m.req = append(m.req, cu)
					} else {
						oc.AddRespStructure(s, os...)
						m.resp = append(m.resp, cu)
					}
				}
				c.Step(1)
				hist = append(hist, fmt.Sprintf("%d.%d(%s)", k, f, x))
				for k, oc := range ocs {
					m := ms[k]
					path, method := "/a/{b}", []string{"get", "post"}[k]
					if m.method != "" {
						path, method = m.path, m.method
					}
					if oc.IsProcessingResponse() != m.isResp || oc.ProcessingIn() != m.in {
						c.Failf(ver+" processing", "%v: %v %q, want %v %q", hist, oc.IsProcessingResponse(), oc.ProcessingIn(), m.isResp, m.in)
					}
					if oc.Method() != method || oc.PathPattern() != path {
						c.Failf(ver+" method", "%v: %s %s", hist, oc.Method(), oc.PathPattern())
					}
					if oc.ID() != m.id || oc.Summary() != m.summary || oc.Description() != m.description || oc.IsDeprecated() != m.deprecated || fmt.Sprint(oc.Tags()) != fmt.Sprint(m.tags) {
						c.Failf(ver+" reader", "%v: got %q %q %q %v %v, want %+v", hist, oc.ID(), oc.Summary(), oc.Description(), oc.IsDeprecated(), oc.Tags(), m)
					}
					for name, us := range map[string][2][]openapi.ContentUnit{"request": {m.req, oc.Request()}, "response": {m.resp, oc.Response()}} {
						if len(us[0]) != len(us[1]) {
							c.Failf(ver+" units", "%v: %s units: want %d, got %d", hist, name, len(us[0]), len(us[1]))
						}
						for i := range us[0] {
							w, g := us[0][i], us[1][i]
							if (w.Customize == nil) != (g.Customize == nil) {
								c.Failf(ver+" unit", "%v: %s unit %d: customization", hist, name, i)
							}
							w.Customize, g.Customize = nil, nil
							if !reflect.DeepEqual(w, g) {
								c.Failf(ver+" unit", "%v: %s unit %d: want %+v, got %+v", hist, name, i, w, g)
							}
						}
					}
				}
				c.StateBytes([]byte(fmt.Sprintf("%+v", ms)))
			}
			// What was set on the operation is in the document.
			for k, oc := range ocs {
				op, err := operationDoc(ver, oc)
				if err != nil {
					c.Failf("save", "%v", err)
				}
				m := ms[k]
				w := obj{}
				for n, v := range map[string]string{"operationId": m.id, "summary": m.summary, "description": m.description} {
					if v != "" {
						w[n] = v
					}
				}
				if len(m.tags) > 0 {
					w["tags"] = arr{m.tags[0], m.tags[1]}
				}
				if _, ok := op["deprecated"]; ok || m.deprecated {
					w["deprecated"] = m.deprecated
				}
				if len(m.security) > 0 {
					w["security"] = m.security
				}
				delete(op, "responses")
				if d := jsonDiff("#", norm(w), op); d != "" {
					c.Failf(ver+" operation members", "%v: %s", hist, d)
				}
				c.Outcome(js(op))
			}
		},
	}
}

// operationDoc is the JSON of the operation of a context.
func operationDoc(ver string, oc openapi.OperationContext) (obj, error) {
	var (
		b   []byte
		err error
	)
	if ver == "3.0" {
		b, err = oc.(openapi3.OperationExposer).Operation().MarshalJSON()
	} else {
		b, err = oc.(openapi31.OperationExposer).Operation().MarshalJSON()
	}
	if err != nil {
		return nil, err
	}
	v, err := strictDecode(b)
	if err != nil {
		return nil, err
	}
	return v.(obj), nil
}

func init() {
	register(&Property{ID: "P13", Scenarios: func(tier string) (res []*engine.Scenario) {
		depth := 2
		if tier == "thorough" {
			depth = 3
		}
		for _, ver := range versions {
			res = append(res, contextScenario(ver, depth), optionScenario(func(c *engine.Ctx, ver string, p program) {
				if strings.Contains(p.options.name, "replaced") {
					c.Skip() // The option stops the hooks.
				}
				hooksCheck(c, ver, p, 1, 1)
			}, ver, tier == "thorough"))
			full := opScenarios(func(c *engine.Ctx, ver string, p program) { hooksCheck(c, ver, p, 5, 2) }, ver, tier, true)
			one := opScenarios(func(c *engine.Ctx, ver string, p program) { hooksCheck(c, ver, p, 1, 1) }, ver, tier, true)
			for i, s := range full {
				if tier != "thorough" && (strings.Contains(s.Name, "field") || strings.Contains(s.Name, "2 units")) {
					s = one[i]
				}
				res = append(res, s)
			}
		}
		return res
	}})
}
