package props

import (
	"fmt"
	"strings"

	"github.com/swaggest/openapi-go"
	"verif/mc/engine"
)

// P17: builders of both versions agree.

// commonSchema is the schema of a document in JSON schema dialect; root is set for the schema of a parameter,
// a header or a response, which are not nullable in OpenAPI 3.0.
func commonSchema(ver string, s interface{}, root bool) interface{} {
	s = clone(jsonDialect(ver, s))
	var walk func(s interface{})
	walk = func(s interface{}) {
		switch x := s.(type) {
		case arr:
			for _, e := range x {
				walk(e)
			}
		case obj:
			// OpenAPI 3.0 does not have siblings of references.
			if _, ok := x["$ref"].(string); ok && ver == "3.1" {
				for k := range x {
					if k != "$ref" {
						delete(x, k)
					}
				}
			}
			// File content.
			if x["type"] == "string" && x["format"] == "binary" {
				delete(x, "format")
				x["contentMediaType"] = "application/octet-stream"
			}
			if t, ok := x["type"].(arr); ok && len(t) == 1 {
				x["type"] = t[0]
			}
			for k, e := range x {
				switch k {
				case "enum", "default", "required", "examples":
				case "properties":
					for _, p := range e.(obj) {
						walk(p)
					}
				default:
					walk(e)
				}
			}
		}
	}
	walk(s)
	if o, ok := s.(obj); ok && root {
		if ts, ok := o["type"].(arr); ok {
			for _, t := range ts {
				if t != "null" {
					o["type"] = t
				}
			}
		}
	}
	return s
}

// common is the document without the differences of dialects.
func common(ver string, d obj) obj {
	d = clone(d).(obj)
	delete(d, "openapi")
	media := func(v interface{}, root bool) {
		for _, m := range sub(v, "content") {
			mt := m.(obj)
			if s, ok := mt["schema"]; ok {
				mt["schema"] = commonSchema(ver, s, root)
			}
		}
	}
	header := func(v interface{}) {
		h, ok := v.(obj)
		if !ok {
			return
		}
		media(h, false)
		s := commonSchema(ver, h["schema"], true)
		delete(h, "schema")
		// 3.1 leaves out a schema without constraints, 3.0 has an empty one.
		if o, ok := s.(obj); ok && len(o) > 0 {
			h["schema"] = s
		}
		// Only 3.0 keeps the style of the tag, see P07.
		delete(h, "style")
	}
	for _, pi := range sub(d, "paths") {
		for _, m := range pi.(obj) {
			op, ok := m.(obj)
			if !ok {
				continue
			}
			ps, _ := op["parameters"].(arr)
			for _, p := range ps {
				header(p)
			}
			media(op["requestBody"], false)
			for _, r := range sub(op, "responses") {
				media(r, true)
				for _, h := range sub(r, "headers") {
					header(h)
					if h, ok := h.(obj); ok {
						// Not members of a header in 3.1.
						delete(h, "allowEmptyValue")
						delete(h, "allowReserved")
					}
				}
			}
			// Responses are required in 3.0.
			if len(sub(op, "responses")) == 0 {
				delete(op, "responses")
			}
		}
	}
	// Paths are required in 3.0.
	if len(sub(d, "paths")) == 0 {
		delete(d, "paths")
	}
	for n, s := range sub(d, "components", "schemas") {
		sub(d, "components", "schemas")[n] = commonSchema(ver, s, false)
	}
	return d
}

func agree(c *engine.Ctx, desc string, docs [2]obj) {
	a, b := common("3.0", docs[0]), common("3.1", docs[1])
	if d := jsonDiff("#", canon(a), canon(b)); d != "" {
		c.Failf("documents", "%s: %s\n3.0 %s\n3.1 %s", desc, d, js(docs[0]), js(docs[1]))
	}
	c.State(js(docs[0]))
}

func checkAgree(c *engine.Ctx, _ string, p program) {
	second := 0
	if len(p.units) == 1 {
		second = c.Choose("second operation", 3)
	}
	var (
		docs [2]obj
		errs [2][]string
	)
	for i, ver := range versions {
		a := p.newAPI(ver)
		err := p.add(a.refl())
		errs[i] = append(errs[i], fmt.Sprint(err != nil))
		if second > 0 {
			q := p
			if second == 1 {
				q.method = map[bool]string{true: "POST", false: "PUT"}[p.method == "PUT"]
			} else {
				q.path += "/q"
			}
			errs[i] = append(errs[i], fmt.Sprint(q.add(a.refl()) != nil))
		}
		d, b, err := docOf(a.spec())
		if err != nil {
			c.Failf("save", "%v: %v: %s", p, err, b)
		}
		docs[i] = d
		c.Step(1)
	}
	if e, f := strings.Join(errs[0], " "), strings.Join(errs[1], " "); e != f {
		c.Failf("rejected", "%v: rejected by 3.0: %s, by 3.1: %s", p, e, f)
	}
	c.Outcome(errs[0][0])
	agree(c, p.String(), docs)
}

// agreeHistory runs the same calls on both versions.
func agreeHistory(n int) *engine.Scenario {
	steps := func() (r [2][]buildStep) {
		for i, v := range versions {
			for _, s := range buildSteps(v) {
				if !strings.HasPrefix(s.name, "webhook") && s.name != "spec webhook" {
					r[i] = append(r[i], s)
				}
			}
		}
		if len(r[0]) != len(r[1]) {
			panic("engine: steps differ")
		}
		return
	}
	ss := steps()
	return &engine.Scenario{Name: fmt.Sprintf("histories of %d calls", n), Bound: fmt.Sprintf("all histories of %d of %d calls of all kinds", n, len(ss[0])), Run: func(c *engine.Ctx) {
		var is []int
		for i := 0; i < n; i++ {
			is = append(is, c.Choose(fmt.Sprintf("step %d", i), len(ss[0])))
		}
		var (
			docs [2]obj
			errs [2]string
			desc []string
		)
		for v, ver := range versions {
			a := newAPI(ver)
			for _, i := range is {
				errs[v] += fmt.Sprint(ss[v][i].do(a) != nil) + " "
				if v == 0 {
					desc = append(desc, ss[v][i].name)
				}
			}
			d, b, err := docOf(a.spec())
			if err != nil {
				c.Failf("save", "%v: %v: %s", desc, err, b)
			}
			docs[v] = d
			c.Step(n)
		}
		if errs[0] != errs[1] {
			c.Failf("rejected", "%q: rejected by 3.0: %s, by 3.1: %s", desc, errs[0], errs[1])
		}
		c.Outcome(errs[0])
		agree(c, strings.Join(desc, ", "), docs)
	}}
}

// agreePairs adds operations that share types in both versions.
func agreePairs(n int, ps []program, name string) *engine.Scenario {
	return &engine.Scenario{Name: name, Bound: fmt.Sprintf("all sequences of %d of %d operations at different paths, and at one path", n, len(ps)), Run: func(c *engine.Ctx) {
		var sel []program
		for i := 0; i < n; i++ {
			sel = append(sel, engine.Pick(c, fmt.Sprintf("operation %d", i), ps))
		}
		sel = place(sel, c.Bool("one path"))
		if sel == nil {
			c.Skip()
		}
		agreePrograms(c, sel)
	}}
}

func agreePrograms(c *engine.Ctx, ps []program) {
	var (
		docs [2]obj
		errs [2]string
	)
	for i, ver := range versions {
		a := newAPI(ver)
		for _, p := range ps {
			errs[i] += fmt.Sprint(p.add(a.refl()) != nil) + " "
		}
		d, b, err := docOf(a.spec())
		if err != nil {
			c.Failf("save", "%v: %v: %s", ps, err, b)
		}
		docs[i] = d
		c.Step(len(ps))
	}
	if errs[0] != errs[1] {
		c.Failf("rejected", "%v: rejected by 3.0: %s, by 3.1: %s", ps, errs[0], errs[1])
	}
	c.Outcome(errs[0])
	agree(c, fmt.Sprint(ps), docs)
}

// agreeAttributes sets members of the operation, at paths and methods in all forms.
func agreeAttributes(n int) *engine.Scenario {
	type attr struct {
		name string
		set  func(oc openapi.OperationContext)
	}
	attrs := []attr{
		{"id", func(oc openapi.OperationContext) { oc.SetID("i") }},
		{"no id", func(oc openapi.OperationContext) { oc.SetID("") }},
		{"summary", func(oc openapi.OperationContext) { oc.SetSummary("s") }},
		{"no summary", func(oc openapi.OperationContext) { oc.SetSummary("") }},
		{"description", func(oc openapi.OperationContext) { oc.SetDescription("d") }},
		{"no description", func(oc openapi.OperationContext) { oc.SetDescription("") }},
		{"tags", func(oc openapi.OperationContext) { oc.SetTags("t", "u", "t") }},
		{"no tags", func(oc openapi.OperationContext) { oc.SetTags() }},
		{"deprecated", func(oc openapi.OperationContext) { oc.SetIsDeprecated(true) }},
		{"not deprecated", func(oc openapi.OperationContext) { oc.SetIsDeprecated(false) }},
		{"security", func(oc openapi.OperationContext) { oc.AddSecurity("k") }},
		{"security scopes", func(oc openapi.OperationContext) { oc.AddSecurity("o", "a", "b") }},
		{"request", func(oc openapi.OperationContext) { oc.AddReqStructure(new(attrReq)) }},
		{"response", func(oc openapi.OperationContext) { oc.AddRespStructure(new(attrReq)) }},
		{"nil response", func(oc openapi.OperationContext) { oc.AddRespStructure(nil, openapi.WithHTTPStatus(205)) }},
		{"default", func(oc openapi.OperationContext) {
			oc.AddRespStructure(nil, func(cu *openapi.ContentUnit) { cu.IsDefault = true })
		}},
	}
	paths := []string{"/p", "", "p", "/p/{id}", "/{id:[0-9]+}/p", "/{id}/{id2}", "/p?x={id}", "/p/{id", "/{ID}"}
	methods := []string{"GET", "post", "Put", "DELETE", "HEAD", "OPTIONS", "TRACE", "PATCH", "CONNECT", ""}
	return &engine.Scenario{Name: fmt.Sprintf("attributes %d", n), Bound: fmt.Sprintf("all sequences of up to %d of %d setters of an operation, %d paths, %d methods", n, len(attrs), len(paths), len(methods)), Run: func(c *engine.Ctx) {
		p := program{method: engine.Pick(c, "method", methods), path: engine.Pick(c, "path", paths)}
		for i := 0; i < n; i++ {
			k := c.Choose("setter", len(attrs)+1)
			if k == 0 {
				break
			}
			p.units = append(p.units, opUnit{desc: attrs[k-1].name, addTo: attrs[k-1].set})
		}
		agreePrograms(c, []program{p, p})
	}}
}

type attrReq struct {
	ID  int    `path:"id" query:"q" json:"id" header:"X-ID" required:"true" description:"the id" example:"1"`
	ID2 string `path:"id2" json:"-" deprecated:"true"`
}

func init() {
	register(&Property{ID: "P17", Scenarios: func(tier string) (res []*engine.Scenario) {
		res = append(res, opScenarios(checkAgree, "3.1", tier, true)...)
		res = append(res, customScenario(checkAgree, "3.1", 2), optionScenario(func(c *engine.Ctx, ver string, p program) {
			if strings.Contains(p.options.name, "enveloped") {
				c.Skip() // OpenAPI 3.0 has no null type.
			}
			checkAgree(c, ver, p)
		}, "3.1", tier == "thorough"))
		n := 2
		if tier == "thorough" {
			n = 3
		}
		for i := 1; i <= n; i++ {
			res = append(res, agreeHistory(i))
		}
		sharing, ops := sharingPrograms(), operations()
		if tier == "thorough" {
			res = append(res, agreeAttributes(3), agreePairs(3, append(sharing[:len(sharing):len(sharing)], richPrograms()...), "three operations"), agreePairs(2, ops, "two operations"))
		} else {
			res = append(res, agreeAttributes(2), agreePairs(3, sharing, "three operations"), agreePairs(2, ops, "two operations"))
		}
		return
	}})
}
