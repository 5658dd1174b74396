package props

import (
	"bytes"
	"encoding/json"
	"fmt"

	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"
	"verif/mc/engine"
)

type specDoc interface {
	json.Marshaler
	json.Unmarshaler
	MarshalYAML() ([]byte, error)
	UnmarshalYAML([]byte) error
}

func newSpec(v string) specDoc {
	if v == "3.0" {
		return &openapi3.Spec{}
	}
	return &openapi31.Spec{}
}

func roundTrip(c *engine.Ctx, ver, fname string, doc obj) {
	in := []byte(js(doc))
	want, err := strictDecode(in)
	if err != nil {
		panic("engine: " + err.Error())
	}
	c.Logf("document %s", in)
	key := ver + "/" + fname
	s := newSpec(ver)
	c.Step(1)
	if err := s.UnmarshalJSON(in); err != nil {
		c.Failf(key+"/load "+errClass(err), "valid document is rejected: %v\n%s", err, in)
	}
	c.Step(1)
	out, err := s.MarshalJSON()
	if err != nil {
		c.Failf(key+"/save", "loaded document can not be saved: %v\n%s", err, in)
	}
	c.StateBytes(out)
	got, err := strictDecode(out)
	if err != nil {
		c.Failf(key+"/strict "+errClass(err), "saved document is not strict JSON: %v\nin:  %s\nout: %s", err, in, out)
	}
	spellDefaults("", want, got)
	if d := jsonDiff("#", want, got); d != "" {
		c.Failf(key+"/diff "+errClass(fmt.Errorf("%s", d)), "document changed by load and save: %s\nin:  %s\nout: %s", d, in, out)
	}
	s2 := newSpec(ver)
	c.Step(2)
	if err := s2.UnmarshalJSON(out); err != nil {
		c.Failf(key+"/reload", "saved document can not be loaded: %v", err)
	}
	out2, err := s2.MarshalJSON()
	if err != nil {
		c.Failf(key+"/resave", "reloaded document can not be saved: %v", err)
	}
	again, err := strictDecode(out2)
	if err != nil {
		c.Failf(key+"/resave strict", "document saved again is not strict JSON: %v\n%s", err, out2)
	}
	first, _ := strictDecode(out)
	spellDefaults("", first, again)
	if d := jsonDiff("#", first, again); d != "" {
		c.Failf(key+"/resave diff", "document changed by second load and save: %s\n%s\n%s", d, out, out2)
	}
	if out3, err := s2.MarshalJSON(); err != nil || !bytes.Equal(out2, out3) {
		c.Failf(key+"/stable", "saving the same specification twice differs: %v\n%s\n%s", err, out2, out3)
	}
	c.Outcome("ok")
}

// spellDefaults accepts that the library spells out the default style of header objects,
// header parameters and cookie parameters: the meaning of the document is the same.
func spellDefaults(parent string, want, got interface{}) {
	switch w := want.(type) {
	case obj:
		g, ok := got.(obj)
		if !ok {
			return
		}
		if _, has := w["style"]; !has {
			st := g["style"]
			isRef := w["$ref"] != nil
			if !isRef && (st == "simple" && (w["in"] == "header" || parent == "headers") || st == "form" && w["in"] == "cookie") {
				delete(g, "style")
			}
		}
		for k, v := range w {
			if m, ok := v.(obj); ok && k == "headers" {
				for n, h := range m {
					if gm, ok := g[k].(obj); ok {
						spellDefaults("headers", h, gm[n])
					}
				}
				continue
			}
			spellDefaults("", v, g[k])
		}
	case arr:
		g, ok := got.(arr)
		if !ok {
			return
		}
		for i := range w {
			if i < len(g) {
				spellDefaults("", w[i], g[i])
			}
		}
	}
}

func errClass(err error) string {
	s := err.Error()
	if len(s) > 60 {
		s = s[:60]
	}
	return s
}

func docScenarios(ver string, gr grammar, fs []focus, budget func(string) int) (res []*engine.Scenario) {
	for _, f := range fs {
		f := f
		b := budget(f.name)
		res = append(res, &engine.Scenario{
			Name:  ver + " " + f.name,
			Bound: fmt.Sprintf("all documents within %d deviations from the minimal %s", b, f.name),
			Run: func(c *engine.Ctx) {
				roundTrip(c, ver, f.name, f.document(c, gr, b))
			},
		})
	}
	return res
}

// heavyFoci have so many members that the documents within 3 deviations take long.
var heavyFoci = map[string]bool{"Schema": true, "PathItem": true, "Components": true, "Operation": true, "HeaderSchema": true,
	"SchemaOrRef": true, "Callback": true, "SpecNoPaths": true, "Spec": true, "Paths": true,
	"Param:query:schema": true, "Param:path:schema": true, "Param:header:schema": true, "Param:cookie:schema": true}

func docBudget(tier string) func(string) int {
	return func(name string) int {
		b := 3
		if heavyFoci[name] {
			b = 2
		}
		if tier == "thorough" {
			b++
		}
		return b
	}
}

// presetScenario loads documents into the specification of a fresh reflector, which has members
// set before the load: the result must be the same as with an empty specification.
func presetScenario(ver string, gr grammar, fs []focus) *engine.Scenario {
	return &engine.Scenario{
		Name:  ver + " preset",
		Bound: "all documents within 1 deviation of every focus, loaded into the specification of a new reflector and into an empty one",
		Run: func(c *engine.Ctx) {
			f := engine.Pick(c, "focus", fs)
			in := []byte(js(f.document(c, gr, 1)))
			c.Logf("document %s", in)
			c.Step(2)
			a, b := newSpec(ver), presetSpec(ver)
			if err := a.UnmarshalJSON(in); err != nil {
				c.Failf(ver+"/"+f.name+"/load", "valid document is rejected: %v\n%s", err, in)
			}
			if err := b.UnmarshalJSON(in); err != nil {
				c.Failf(ver+"/"+f.name+"/preset load", "valid document is rejected when loaded into the specification of a new reflector: %v\n%s", err, in)
			}
			x, err1 := a.MarshalJSON()
			y, err2 := b.MarshalJSON()
			if err1 != nil || err2 != nil || !bytes.Equal(x, y) {
				c.Failf(ver+"/"+f.name+"/preset", "specification of a new reflector differs after load: %v %v\n%s\n%s", err1, err2, x, y)
			}
			c.StateBytes(y)
			c.Outcome(f.name)
		},
	}
}

func presetSpec(ver string) specDoc {
	if ver == "3.0" {
		return openapi3.NewReflector().Spec
	}
	return openapi31.NewReflector().Spec
}

// knownGaps31 has the documents that OpenAPI 3.1 allows and the types of this library can not hold.
func knownGaps31() *engine.Scenario {
	return &engine.Scenario{Name: "3.1 known gaps", Bound: "boolean schemas at every position of a schema object, non-string link parameters",
		Run: func(c *engine.Ctx) {
			base := obj{"openapi": "3.1.0", "info": obj{"title": "t", "version": "v"}, "paths": obj{}}
			if c.Bool("link") {
				val := engine.Pick(c, "value", []interface{}{1.5, true, obj{"a": 1.5}, arr{"x"}})
				base["components"] = obj{"links": obj{"L": obj{"operationId": "o", "parameters": obj{"p": val}}}}
				gapCheck(c, base, "non-string link parameter")
				return
			}
			sch := c.Choose("bool", 2) == 0
			pos := engine.Pick(c, "position", []string{"component", "parameter", "header", "media type"})
			switch pos {
			case "component":
				base["components"] = obj{"schemas": obj{"S": sch}}
			case "parameter":
				base["components"] = obj{"parameters": obj{"P": obj{"name": "p", "in": "query", "schema": sch}}}
			case "header":
				base["components"] = obj{"headers": obj{"H": obj{"schema": sch}}}
			case "media type":
				base["components"] = obj{"requestBodies": obj{"B": obj{"content": obj{"a/b": obj{"schema": sch}}}}}
			}
			gapCheck(c, base, "boolean schema: "+pos)
		}}
}

func gapCheck(c *engine.Ctx, doc obj, key string) {
	in := []byte(js(doc))
	s := newSpec("3.1")
	c.Step(1)
	if err := s.UnmarshalJSON(in); err != nil {
		c.Failf(key, "valid document is rejected: %v\n%s", err, in)
	}
	roundTrip(c, "3.1", "gap "+key, doc)
}

func init() {
	reg := func(id, ver string, mk func() (grammar, []focus)) {
		register(&Property{ID: id, Scenarios: func(tier string) []*engine.Scenario {
			g, fs := mk()
			res := append(docScenarios(ver, g, fs, docBudget(tier)), presetScenario(ver, g, fs))
			if ver == "3.1" {
				res = append(res, knownGaps31())
			}
			return res
		}})
	}
	reg("P01", "3.0", grammar30)
	reg("P02", "3.1", grammar31)
}
