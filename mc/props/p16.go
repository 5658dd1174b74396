package props

import (
	"encoding/json"
	"errors"
	"fmt"
	"strings"
	"sync"

	"github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"
	"verif/mc/engine"
)

// P16: a specification can be saved and resumed at any point.

// buildStep is an action of a building history.
type buildStep struct {
	name string
	do   func(a api) error
}

func (s buildStep) String() string { return s.name }

func programStep(p program, webhook bool) buildStep {
	if webhook {
		return buildStep{"webhook " + p.String(), func(a api) error {
			oc, err := p.context(a.refl())
			if err != nil {
				return err
			}
			return a.webhook(oc)
		}}
	}
	return buildStep{"add " + p.String(), func(a api) error { return p.add(a.refl()) }}
}

var errStep = errors.New("step fails")

// buildSteps are actions of all kinds that meet at the same paths, names and types.
func buildSteps(ver string) (res []buildStep) {
	add := func(name string, do func(a api) error) { res = append(res, buildStep{name, do}) }
	schema := func(name string, f func(s openapi.SpecSchema)) {
		add(name, func(a api) error { f(a.refl().SpecSchema()); return nil })
	}
	for i, p := range sharingPrograms() {
		if i < 5 || i == 7 || i == 12 {
			p.path = "/o"
			res = append(res, programStep(p, false))
		}
	}
	rich := richPrograms()
	res = append(res, programStep(rich[0], false), programStep(rich[2], false), programStep(rich[4], false))
	add("spec add", func(a api) error { return a.specAdd("GET", "/o", opSpec{summary: "s", status: "default"}) })
	add("spec add parameters", func(a api) error {
		return a.specAdd("Post", "/x/{a:[0-9]+}/{b}", opSpec{params: [][2]string{{"path", "a"}, {"path", "b"}, {"query", "a"}}, status: "204", refParams: 1})
	})
	add("setup", func(a api) error {
		return a.setup("get", "/o", func(set func(opSpec)) error {
			set(opSpec{summary: "setup", params: [][2]string{{"query", "z"}}})
			return nil
		})
	})
	add("setup fails", func(a api) error {
		return a.setup("get", "/f", func(set func(opSpec)) error { set(opSpec{summary: "failing"}); return errStep })
	})
	schema("title", func(s openapi.SpecSchema) { s.SetTitle("the: \"title\"\n# 1") })
	schema("version", func(s openapi.SpecSchema) { s.SetVersion("1.10") })
	schema("description", func(s openapi.SpecSchema) { s.SetDescription("  multi\nline: 'x'\n") })
	schema("no description", func(s openapi.SpecSchema) { s.SetDescription("") })
	schema("bearer", func(s openapi.SpecSchema) { s.SetHTTPBearerTokenSecurity("sec", "JWT", "d") })
	schema("api key", func(s openapi.SpecSchema) { s.SetAPIKeySecurity("sec", "X-Key", openapi.InHeader, "") })
	schema("basic", func(s openapi.SpecSchema) { s.SetHTTPBasicSecurity("true", "no") })
	add("entities", func(a api) error {
		switch s := a.spec().(type) {
		case *openapi3.Spec:
			s.WithTags(append(s.Tags, *(&openapi3.Tag{}).WithName("null").WithDescription("~"))...)
			s.WithServers(append(s.Servers, *(&openapi3.Server{}).WithURL("/{v}").WithVariablesItem("v", *(&openapi3.ServerVariable{}).WithDefault("1e3").WithEnum("1e3", "yes")))...)
			s.WithMapOfAnythingItem("x-ext", map[string]interface{}{"a": []interface{}{1, "1", nil, 1.5, true}})
		case *openapi31.Spec:
			s.WithTags(append(s.Tags, *(&openapi31.Tag{}).WithName("null").WithDescription("~"))...)
			s.WithServers(append(s.Servers, *(&openapi31.Server{}).WithURL("/{v}").WithVariablesItem("v", *(&openapi31.ServerVariable{}).WithDefault("1e3").WithEnum("1e3", "yes")))...)
			s.WithMapOfAnythingItem("x-ext", map[string]interface{}{"a": []interface{}{1, "1", nil, 1.5, true}})
		}
		return nil
	})
	add("components are edited", func(a api) error {
		switch s := a.spec().(type) {
		case *openapi3.Spec:
			if s.Components == nil || s.Components.Schemas == nil {
				return nil
			}
			for _, sor := range s.Components.Schemas.MapOfSchemaOrRefValues {
				if sor.Schema != nil {
					sor.Schema.WithDescription("edited").WithMapOfAnythingItem("x-edited", true)
				}
			}
		case *openapi31.Spec:
			if s.Components == nil {
				return nil
			}
			for _, m := range s.Components.Schemas {
				m["description"] = "edited"
				m["x-edited"] = true
			}
		}
		return nil
	})
	if ver == "3.1" {
		p := anyProgram("POST", []interface{}{sharedReq}, []interface{}{sharedResp})
		p.path = "hook"
		res = append(res, programStep(p, true))
		p = anyProgram("GET", nil, []interface{}{uNest{}})
		p.path = "hook"
		res = append(res, programStep(p, true))
		add("spec webhook", func(a api) error { return a.specWebhook("get", "hook", opSpec{summary: "s", status: "200"}) })
	}
	return
}

const (
	resumeJSON = 1 + iota
	resumeYAML
	resumeBoth
)

// resume saves and loads the specification.
func resume(c *engine.Ctx, a api, how int, fresh bool) api {
	for _, yaml := range [][]bool{nil, {false}, {true}, {false, true}}[how] {
		b, err := a.spec().MarshalJSON()
		if yaml {
			b, err = a.spec().MarshalYAML()
		}
		if err != nil {
			c.Failf("save", "%v", err)
		}
		if fresh {
			a = newAPI(a.ver())
		}
		if err := a.load(b, yaml); err != nil {
			c.Failf("load", "%v: %s", err, b)
		}
	}
	return a
}

// readers are the answers of the functions that read the specification.
func readers(a api) (res []string) {
	add := func(format string, v ...interface{}) { res = append(res, fmt.Sprintf(format, v...)) }
	locations := []string{"query", "path", "header", "cookie"}
	s := a.refl().SpecSchema()
	add("title %q version %q description %q", s.Title(), s.Version(), s.Description())
	switch s := a.spec().(type) {
	case *openapi3.Spec:
		for _, path := range keys(s.Paths.MapOfPathItemValues) {
			for _, m := range keys(s.Paths.MapOfPathItemValues[path].MapOfOperationValues) {
				o := s.Paths.MapOfPathItemValues[path].MapOfOperationValues[m]
				for _, in := range locations {
					add("%s %s forbids unknown in %s: %v", m, path, in, o.UnknownParamIsForbidden(openapi3.ParameterIn(in)))
				}
			}
		}
	case *openapi31.Spec:
		items := map[string]openapi31.PathItem{}
		if s.Paths != nil {
			for k, v := range s.Paths.MapOfPathItemValues {
				items[k] = v
			}
		}
		for k, v := range s.Webhooks {
			if v.PathItem != nil {
				items["webhook "+k] = *v.PathItem
			}
		}
		for _, path := range keys(items) {
			for _, m := range []string{"get", "PUT", "post", "Delete", "options", "head", "patch", "trace"} {
				o, err := items[path].Operation(m)
				add("%s %s: %v %v", m, path, o != nil, err)
				for _, in := range locations {
					if o != nil {
						add("%s %s forbids unknown in %s: %v", m, path, in, o.UnknownParamIsForbidden(openapi31.ParameterIn(in)))
					}
				}
			}
		}
	}
	for _, n := range append(a.schemaNames(), "missing") {
		sch, found := a.refl().ResolveJSONSchemaRef("#/components/schemas/" + n)
		b, err := json.Marshal(sch)
		add("schema %s: %v %s %v", n, found, b, err)
	}
	return
}

// resumedDocs are documents that were loaded from YAML with the same result.
var resumedDocs sync.Map

func resumed(c *engine.Ctx, ver string, steps []buildStep, points []int, fresh bool) {
	a, b := newAPI(ver), newAPI(ver)
	var want, got []string
	for i, s := range steps {
		want = append(want, errText(s.do(a)))
		b = resume(c, b, points[i], fresh)
		c.Step(1)
		got = append(got, errText(s.do(b)))
		if want[i] != got[i] {
			c.Failf(ver+" call", "%v resumed at %v (1 JSON, 2 YAML, 3 both; new reflector: %v): call %d: %s, without interruption: %s", steps, points, fresh, i, got[i], want[i])
		}
	}
	x, err1 := a.spec().MarshalJSON()
	y, err2 := b.spec().MarshalJSON()
	c.Logf("%v resumed at %v: %v %s", steps, points, got, y)
	if fresh && strings.Contains(string(x), "Type2") {
		c.Skip() // names of different types of one name are known to the reflector only
	}
	if err1 != nil || err2 != nil {
		c.Failf(ver+" save", "%v resumed at %v: %v %v", steps, points, err1, err2)
	}
	if string(x) != string(y) {
		v, err1 := strictDecode(x)
		w, err2 := strictDecode(y)
		if err1 != nil || err2 != nil {
			c.Failf(ver+" save", "%v resumed at %v: %v %v", steps, points, err1, err2)
		}
		spellDefaults("", v, w)
		if d := jsonDiff("#", v, w); d != "" {
			c.Failf(ver+" document", "%v resumed at %v (1 JSON, 2 YAML, 3 both; new reflector: %v): %s\n%s\nwithout interruption:\n%s", steps, points, fresh, d, y, x)
		}
	}
	// Readers, and the saved document in its YAML form.
	told := readers(a)
	last := b
	done := fmt.Sprint(ver, fresh, string(y))
	if _, ok := resumedDocs.Load(done); !ok { // once per document
		last = resume(c, b, resumeYAML, fresh)
	}
	for _, b := range []api{b, last} {
		for i, r := range readers(b) {
			if i >= len(told) || r != told[i] {
				c.Failf(ver+" reader", "%v resumed at %v (1 JSON, 2 YAML, 3 both; new reflector: %v), loaded at the end: %v: %s, without interruption: %v", steps, points, fresh, b == last, r, told)
			}
		}
	}
	z, err := last.spec().MarshalJSON()
	if err != nil {
		c.Failf(ver+" save", "%v resumed at %v: %v", steps, points, err)
	}
	if string(z) != string(y) {
		v, _ := strictDecode(y)
		w, _ := strictDecode(z)
		spellDefaults("", v, w)
		if d := jsonDiff("#", v, w); d != "" {
			c.Failf(ver+" YAML", "%v resumed at %v (1 JSON, 2 YAML, 3 both; new reflector: %v): through YAML: %s\n%s\nJSON:\n%s", steps, points, fresh, d, z, y)
		}
	}
	resumedDocs.Store(done, true)
	c.StateBytes(y)
	c.Outcome(fmt.Sprint(got))
}

func resumeScenario(ver, name string, n int, steps func(i int) []buildStep, kinds int) *engine.Scenario {
	return &engine.Scenario{
		Name:  fmt.Sprintf("%s %d of %s", ver, n, name),
		Bound: fmt.Sprintf("all sequences of %d of %d actions, interrupted before any of them but the first in %d ways; continued with the same reflector or a new one", n, len(steps(0)), kinds),
		Run: func(c *engine.Ctx) {
			fresh := c.Bool("new reflector")
			var (
				seq    []buildStep
				points []int
				some   bool
			)
			for i := 0; i < n; i++ {
				k := 0
				if i > 0 {
					if k = c.Choose("interruption", kinds+1); kinds == 1 && k == 1 && fresh {
						k = resumeYAML
					}
				}
				some = some || k > 0
				points = append(points, k)
				seq = append(seq, engine.Pick(c, "action", steps(i)))
			}
			if !some {
				c.Skip()
			}
			resumed(c, ver, seq, points, fresh)
		},
	}
}

func init() {
	register(&Property{ID: "P16", Scenarios: func(tier string) (res []*engine.Scenario) {
		for _, ver := range versions {
			mixed := buildSteps(ver)
			ops := operations()
			steps := func(i int) (res []buildStep) {
				for _, p := range ops {
					p.path = fmt.Sprint("/o", i)
					res = append(res, programStep(p, false))
				}
				return
			}
			all := [][]buildStep{steps(0), steps(1), steps(2)}
			n := func(ss []buildStep) func(int) []buildStep { return func(int) []buildStep { return ss } }
			if tier == "thorough" {
				res = append(res, resumeScenario(ver, "operations", 2, func(i int) []buildStep { return all[i] }, 3), resumeScenario(ver, "operations", 3, func(i int) []buildStep { return all[i][:40] }, 2),
					resumeScenario(ver, "mixed actions", 3, n(mixed), 3), resumeScenario(ver, "mixed actions", 4, n(mixed), 2))
				continue
			}
			var some []buildStep
			for i, s := range mixed {
				if i%2 == 0 || i > 20 {
					some = append(some, s)
				}
			}
			few := append([]buildStep(nil), all[1][:16]...)
			for i := 16; i < len(all[1]); i += 4 {
				few = append(few, all[1][i])
			}
			res = append(res, resumeScenario(ver, "operations", 2, func(i int) []buildStep { return [][]buildStep{all[0], few}[i] }, 2), resumeScenario(ver, "mixed actions", 2, n(mixed), 3), resumeScenario(ver, "mixed actions", 3, n(some), 1))
		}
		return res
	}})
}
