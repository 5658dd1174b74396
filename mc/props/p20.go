package props

import (
	"fmt"
	"strings"

	"github.com/swaggest/openapi-go"
	"verif/mc/engine"
)

// P20: metadata and security are recorded as set.

func (a *api30) schema() openapi.SpecSchema { return a.r.SpecSchema() }
func (a *api31) schema() openapi.SpecSchema { return a.r.SpecSchema() }

// metaCall is a call with its effect on the record.
type metaCall struct {
	name string
	do   func(c *engine.Ctx, a api) api
	rec  func(d obj)
}

func ensure(d obj, segs ...string) obj {
	for _, s := range segs {
		n, _ := d[s].(obj)
		if n == nil {
			n = obj{}
			d[s] = n
		}
		d = n
	}
	return d
}

func schemeDoc(kind string, a ...string) obj {
	d := obj{}
	switch kind {
	case "basic":
		d = obj{"type": "http", "scheme": "basic", "description": a[0]}
	case "bearer":
		d = obj{"type": "http", "scheme": "bearer", "description": a[1]}
		if a[0] != "" {
			d["bearerFormat"] = a[0]
		}
	case "apiKey":
		d = obj{"type": "apiKey", "name": a[0], "in": a[1], "description": a[2]}
	}
	return d
}

type requirement struct {
	name   string
	scopes []string
}

func (r requirement) doc() obj {
	ss := arr{}
	for _, s := range r.scopes {
		ss = append(ss, s)
	}
	return obj{r.name: ss}
}

func requirementsDoc(rs []requirement) (res arr) {
	for _, r := range rs {
		res = append(res, r.doc())
	}
	return
}

var securityNames = []string{"one", "x-two"}

func metaCalls(ver string) (res []metaCall) {
	simple := func(name string, f func(s openapi.SpecSchema), rec func(d obj)) {
		res = append(res, metaCall{name, func(c *engine.Ctx, a api) api {
			if x, ok := a.(*api30); ok {
				f(x.schema())
			} else {
				f(a.(*api31).schema())
			}
			return a
		}, rec})
	}
	for _, v := range []string{"a", "b: \"c\"\n#d", ""} {
		v := v
		simple(fmt.Sprintf("SetTitle(%q)", v), func(s openapi.SpecSchema) { s.SetTitle(v) }, func(d obj) { ensure(d, "info")["title"] = v })
		simple(fmt.Sprintf("SetVersion(%q)", v), func(s openapi.SpecSchema) { s.SetVersion(v) }, func(d obj) { ensure(d, "info")["version"] = v })
		simple(fmt.Sprintf("SetDescription(%q)", v), func(s openapi.SpecSchema) { s.SetDescription(v) }, func(d obj) { ensure(d, "info")["description"] = v })
	}
	for _, n := range securityNames {
		n := n
		rec := func(s obj) func(d obj) {
			return func(d obj) { ensure(d, "components", "securitySchemes")[n] = clone(s) }
		}
		for _, descr := range []string{"", "y"} {
			descr := descr
			simple(fmt.Sprintf("SetHTTPBasicSecurity(%q, %q)", n, descr), func(s openapi.SpecSchema) { s.SetHTTPBasicSecurity(n, descr) }, rec(schemeDoc("basic", descr)))
			for _, format := range []string{"", "JWT"} {
				format := format
				simple(fmt.Sprintf("SetHTTPBearerTokenSecurity(%q, %q, %q)", n, format, descr), func(s openapi.SpecSchema) { s.SetHTTPBearerTokenSecurity(n, format, descr) }, rec(schemeDoc("bearer", format, descr)))
			}
		}
		for i, in := range []openapi.In{openapi.InHeader, openapi.InQuery, openapi.InCookie} {
			in, field, descr := in, []string{"F", "f.g", "c"}[i], []string{"z", "", "y"}[i]
			simple(fmt.Sprintf("SetAPIKeySecurity(%q, %q, %q, %q)", n, field, in, descr), func(s openapi.SpecSchema) { s.SetAPIKeySecurity(n, field, in, descr) }, rec(schemeDoc("apiKey", field, string(in), descr)))
		}
	}
	for i, rs := range [][]requirement{
		{{"one", nil}},
		{{"one", []string{"r", "w"}}, {"x-two", []string{}}},
		{{"x-two", []string{"r"}}, {"one", nil}, {"x-two", []string{"w", "r", "r"}}},
	} {
		rs, path := rs, fmt.Sprintf("/p%d", i)
		res = append(res, metaCall{fmt.Sprintf("AddOperation(%s, %v)", path, rs), func(c *engine.Ctx, a api) api {
			oc, err := a.refl().NewOperationContext("POST", path)
			if err != nil {
				return a
			}
			for _, r := range rs {
				oc.AddSecurity(r.name, r.scopes...)
			}
			_ = a.refl().AddOperation(oc)
			return a
		}, func(d obj) {
			if len(sub(d, "paths", path)) == 0 {
				ensure(d, "paths", path)["post"] = obj{"responses": obj{"204": obj{"description": "No Content"}}, "security": requirementsDoc(rs)}
			}
		}})
	}
	res = append(res, metaCall{"AddOperation with schemas", func(c *engine.Ctx, a api) api {
		oc, err := a.refl().NewOperationContext("GET", "/s")
		if err != nil {
			return a
		}
		oc.AddRespStructure(new(namedOnly))
		_ = a.refl().AddOperation(oc)
		return a
	}, func(d obj) {
		if len(sub(d, "paths", "/s")) == 0 {
			ensure(d, "paths", "/s")["get"] = obj{"responses": obj{"200": obj{"description": "OK", "content": obj{"application/json": obj{"schema": obj{"$ref": "#/components/schemas/PropsNamedOnly"}}}}}}
			ensure(d, "components", "schemas")["PropsNamedOnly"] = obj{"type": "object", "properties": obj{"a": obj{"type": "string"}}}
		}
	}})
	for how, name := range map[int]string{resumeJSON: "JSON", resumeYAML: "YAML"} {
		how := how
		res = append(res, metaCall{"save and load " + name, func(c *engine.Ctx, a api) api { return resume(c, a, how, false) }, func(d obj) {}})
	}
	return res
}

type namedOnly struct {
	A string `json:"a"`
}

func startDocs(ver string) []string {
	v := map[string]string{"3.0": "3.0.3", "3.1": "3.1.0"}[ver]
	return []string{
		"",
		`{"openapi":"` + v + `","info":{"title":"t","version":"v","description":"d","contact":{"name":"n"},"x-i":1},"paths":{"/q":{"get":{"security":[{"one":[]},{}],"responses":{"200":{"description":"d"}}}}},
		"components":{"securitySchemes":{"one":{"type":"apiKey","name":"k","in":"query","description":"e"},"three":{"type":"oauth2","flows":{"implicit":{"authorizationUrl":"https://a","scopes":{"s":"t"}}}},
		"four":{"type":"openIdConnect","openIdConnectUrl":"https://b"},"five":{"$ref":"#/components/securitySchemes/one"}},"responses":{"R":{"description":"r"}}},"security":[{"one":[]},{"three":["s"]}],"x-r":{"security":[]}}`,
		`{"openapi":"` + v + `","info":{"title":"","version":"1"},"paths":{},"components":{"schemas":{"A":{"type":"string"}}}}`,
	}
}

// plainDescriptions removes empty descriptions of info and security schemes.
func plainDescriptions(d obj) {
	info, _ := d["info"].(obj)
	if info["description"] == "" {
		delete(info, "description")
	}
	for _, s := range sub(d, "components", "securitySchemes") {
		if o, ok := s.(obj); ok {
			if o["description"] == "" {
				delete(o, "description")
			}
			if s, ok := o["scheme"].(string); ok {
				o["scheme"] = strings.ToLower(s)
			}
		}
	}
	if ps, ok := d["paths"].(obj); ok && len(ps) == 0 {
		delete(d, "paths")
	}
}

func checkRecord(c *engine.Ctx, a api, want obj, seq []string) {
	var s openapi.SpecSchema
	if x, ok := a.(*api30); ok {
		s = x.schema()
	} else {
		s = a.(*api31).schema()
	}
	info := sub(want, "info")
	str := func(k string) string { v, _ := info[k].(string); return v }
	if s.Title() != str("title") || s.Version() != str("version") || s.Description() != str("description") {
		c.Failf(a.ver()+" accessor", "%v: title %q, version %q, description %q, want %v", seq, s.Title(), s.Version(), s.Description(), js(info))
	}
	d, b, err := docOf(a.spec())
	if err != nil {
		c.Failf(a.ver()+" save", "%v: %v", seq, err)
	}
	w := clone(want).(obj)
	plainDescriptions(w)
	plainDescriptions(d)
	if diff := jsonDiff("#", norm(w), norm(d)); diff != "" {
		c.Failf(a.ver()+" document", "%v: %s\n%s", seq, diff, b)
	}
	c.StateBytes(b)
}

func metaScenario(ver string, start, depth int, calls []metaCall) *engine.Scenario {
	return &engine.Scenario{
		Name:  fmt.Sprintf("%s specification from document %d, %d calls", ver, start, depth),
		Bound: fmt.Sprintf("all sequences of %d of %d calls of setters, operations with requirements, saving and loading", depth, len(calls)),
		Run: func(c *engine.Ctx) {
			a := newAPI(ver)
			want := obj{"openapi": map[string]string{"3.0": "3.0.3", "3.1": "3.1.0"}[ver], "info": obj{"title": "", "version": ""}}
			if src := startDocs(ver)[start]; src != "" {
				if err := a.load([]byte(src), false); err != nil {
					c.Failf("load", "%v", err)
				}
				v, err := strictDecode([]byte(src))
				if err != nil {
					panic("engine: " + err.Error())
				}
				want = v.(obj)
			}
			var seq []string
			for i := 0; i < depth; i++ {
				m := engine.Pick(c, "call", calls)
				seq = append(seq, m.name)
				a = m.do(c, a)
				m.rec(want)
				c.Step(1)
				if i == depth-1 || c.Verbose() {
					checkRecord(c, a, want, seq)
				}
			}
			c.Logf("%v", seq)
			a = resume(c, a, resumeBoth, true)
			checkRecord(c, a, want, append(seq, "reload"))
			c.Outcome(seq[len(seq)-1])
		},
	}
}

// infoCall is a call on an operation.
type infoCall struct {
	name string
	do   func(oc openapi.OperationContext)
	rec  func(d obj)
}

func infoCalls() (res []infoCall) {
	for _, s := range []string{"a", "b: c", ""} {
		s := s
		set := func(k string) func(d obj) { return func(d obj) { d[k] = s } }
		res = append(res,
			infoCall{fmt.Sprintf("SetSummary(%q)", s), func(oc openapi.OperationContext) { oc.SetSummary(s) }, set("summary")},
			infoCall{fmt.Sprintf("SetDescription(%q)", s), func(oc openapi.OperationContext) { oc.SetDescription(s) }, set("description")},
			infoCall{fmt.Sprintf("SetID(%q)", s), func(oc openapi.OperationContext) { oc.SetID(s) }, set("operationId")})
	}
	for _, b := range []bool{true, false} {
		b := b
		res = append(res, infoCall{fmt.Sprintf("SetIsDeprecated(%v)", b), func(oc openapi.OperationContext) { oc.SetIsDeprecated(b) }, func(d obj) { d["deprecated"] = b }})
	}
	for _, ts := range [][]string{nil, {"t"}, {"u", "t", "u"}} {
		ts := ts
		res = append(res, infoCall{fmt.Sprintf("SetTags(%v)", ts), func(oc openapi.OperationContext) { oc.SetTags(ts...) }, func(d obj) {
			l := arr{}
			for _, t := range ts {
				l = append(l, t)
			}
			d["tags"] = l
		}})
	}
	for _, r := range []requirement{{"one", nil}, {"one", []string{"r", "w"}}, {"x-two", []string{}}, {"two", []string{"w"}}} {
		r := r
		res = append(res, infoCall{fmt.Sprintf("AddSecurity(%q, %v)", r.name, r.scopes), func(oc openapi.OperationContext) { oc.AddSecurity(r.name, r.scopes...) }, func(d obj) {
			l, _ := d["security"].(arr)
			d["security"] = append(l[:len(l):len(l)], r.doc())
		}})
	}
	return res
}

func plainInfo(d obj) obj {
	d = clone(d).(obj)
	for _, k := range []string{"summary", "description", "operationId"} {
		if d[k] == "" {
			delete(d, k)
		}
	}
	if d["deprecated"] == false {
		delete(d, "deprecated")
	}
	if l, ok := d["tags"].(arr); ok && len(l) == 0 {
		delete(d, "tags")
	}
	return d
}

func infoScenario(ver string, depth int, calls []infoCall) *engine.Scenario {
	return &engine.Scenario{
		Name:  fmt.Sprintf("%s operation, %d calls", ver, depth),
		Bound: fmt.Sprintf("all sequences of up to %d of %d calls on an operation context, with or without structures, with another operation next to it, as operation and as webhook", depth, len(calls)),
		Run: func(c *engine.Ctx) {
			a := newAPI(ver)
			withStructures := c.Bool("structures")
			kind := 0
			if a.hasWebhooks() {
				kind = c.Choose("webhook", 2)
			}
			oc, err := a.refl().NewOperationContext("put", []string{"/p", "hook"}[kind])
			if err != nil {
				c.Failf("context", "%v", err)
			}
			other, err := a.refl().NewOperationContext("get", []string{"/p", "other"}[kind])
			if err != nil {
				c.Failf("context", "%v", err)
			}
			other.SetSummary("other")
			other.SetTags("z")
			want := obj{}
			var seq []string
			for i := 0; i < depth; i++ {
				k := c.Choose("call", len(calls)+1)
				if k == 0 {
					break
				}
				m := calls[k-1]
				seq = append(seq, m.name)
				m.do(oc)
				m.rec(want)
				c.Step(1)
				str := func(k string) string { v, _ := want[k].(string); return v }
				dep, _ := want["deprecated"].(bool)
				tags := arr{}
				for _, t := range oc.Tags() {
					tags = append(tags, t)
				}
				wantTags, _ := want["tags"].(arr)
				if oc.Summary() != str("summary") || oc.Description() != str("description") || oc.ID() != str("operationId") || oc.IsDeprecated() != dep || js(tags) != js(append(arr{}, wantTags...)) {
					c.Failf(ver+" accessor", "%v: summary %q, description %q, id %q, deprecated %v, tags %v; want %s", seq, oc.Summary(), oc.Description(), oc.ID(), oc.IsDeprecated(), oc.Tags(), js(want))
				}
			}
			if withStructures {
				oc.AddReqStructure(new(namedOnly))
				oc.AddRespStructure(new(namedOnly))
			}
			for _, x := range []openapi.OperationContext{oc, other} {
				if kind == 1 {
					err = a.webhook(x)
				} else {
					err = a.refl().AddOperation(x)
				}
				if err != nil {
					c.Failf("add", "%v: %v", seq, err)
				}
			}
			a = resume(c, a, c.Choose("resume", 2)*resumeBoth, false)
			d, b, err := docOf(a.spec())
			if err != nil {
				c.Failf("save", "%v: %v", seq, err)
			}
			got, gotOther := sub(d, "paths", "/p", "put"), sub(d, "paths", "/p", "get")
			if kind == 1 {
				got, gotOther = sub(d, "webhooks", "hook", "put"), sub(d, "webhooks", "other", "get")
			}
			w := plainInfo(want)
			w["responses"] = got["responses"]
			if withStructures {
				w["requestBody"] = got["requestBody"]
			}
			if diff := jsonDiff("#", norm(w), norm(plainInfo(got))); diff != "" {
				c.Failf(ver+" operation", "%v: %s\n%s", seq, diff, b)
			}
			wo := obj{"summary": "other", "tags": arr{"z"}, "responses": obj{"204": obj{"description": "No Content"}}}
			if diff := jsonDiff("#", norm(wo), norm(gotOther)); diff != "" {
				c.Failf(ver+" other operation", "%v: %s\n%s", seq, diff, b)
			}
			c.Logf("%v %s", seq, b)
			c.StateBytes(b)
			c.Outcome(js(keysOf(got)))
		},
	}
}

func keysOf(d obj) (res arr) {
	for _, k := range keys(d) {
		res = append(res, k)
	}
	return
}

func init() {
	register(&Property{ID: "P20", Scenarios: func(tier string) (res []*engine.Scenario) {
		n, k := 3, 3
		if tier == "thorough" {
			n, k = 4, 4
		}
		for _, ver := range versions {
			calls := metaCalls(ver)
			few := calls
			if tier != "thorough" {
				few = nil
				for i, m := range calls {
					if i%2 == 0 || i > len(calls)-5 {
						few = append(few, m)
					}
				}
			}
			for start := range startDocs(ver) {
				res = append(res, metaScenario(ver, start, 1, calls), metaScenario(ver, start, 2, calls), metaScenario(ver, start, n, few))
			}
			res = append(res, infoScenario(ver, k, infoCalls()))
		}
		return res
	}})
}
