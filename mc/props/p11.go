package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"

	"github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"
	"verif/mc/engine"
)

// P11: conversion of schemas.

// kw is a keyword with a value.
type kw struct {
	name string
	vals []interface{} // subSchema stands for a schema
}

type subWrap func(s interface{}) interface{}

// Keywords that both formats have, in the dialect of JSON schema.
func schemaKeywords(ver string) []kw {
	wrap := func(f func(s interface{}) interface{}) subWrap { return f }
	ks := []kw{
		{"type", []interface{}{"string", "integer", "number", "boolean", "array", "object", arr{"string", "null"}, arr{"null", "object"}, arr{"array", "null"}, arr{"integer", "null"}}},
		{"enum", []interface{}{arr{1, "a", nil}, arr{"a"}, arr{obj{"a": 1}, arr{1}}}},
		{"multipleOf", []interface{}{2, 0.5}},
		{"maximum", []interface{}{2, 0}},
		{"exclusiveMaximum", []interface{}{2, 0}},
		{"minimum", []interface{}{2, 0}},
		{"exclusiveMinimum", []interface{}{2, 0}},
		{"maxLength", []interface{}{1, 0}},
		{"minLength", []interface{}{2}},
		{"pattern", []interface{}{"^a"}},
		{"maxItems", []interface{}{1, 0}},
		{"minItems", []interface{}{2}},
		{"uniqueItems", []interface{}{true, false}},
		{"maxProperties", []interface{}{1, 0}},
		{"minProperties", []interface{}{2}},
		{"required", []interface{}{arr{"a"}, arr{"a", "b"}}},
		{"properties", []interface{}{wrap(func(s interface{}) interface{} { return obj{"a": s} }), wrap(func(s interface{}) interface{} { return obj{"a": s, "b": obj{"type": "string"}} })}},
		{"additionalProperties", []interface{}{false, true, wrap(func(s interface{}) interface{} { return s })}},
		{"items", []interface{}{wrap(func(s interface{}) interface{} { return s })}},
		{"not", []interface{}{wrap(func(s interface{}) interface{} { return s })}},
		{"allOf", []interface{}{wrap(func(s interface{}) interface{} { return arr{s} }), wrap(func(s interface{}) interface{} { return arr{obj{"minLength": 1}, s} })}},
		{"oneOf", []interface{}{wrap(func(s interface{}) interface{} { return arr{s, obj{"type": "number"}} })}},
		{"anyOf", []interface{}{wrap(func(s interface{}) interface{} { return arr{s, obj{"type": "number"}} })}},
		{"title", []interface{}{"T"}},
		{"description", []interface{}{"D", ""}},
		{"format", []interface{}{"date"}},
		{"default", []interface{}{1, "a", nil, false, obj{"a": 1}}},
		{"readOnly", []interface{}{true, false}},
		{"writeOnly", []interface{}{true}},
		{"deprecated", []interface{}{true}},
		{"examples", []interface{}{arr{1}, arr{nil}}},
		{"x-e", []interface{}{1, obj{"a": nil}}},
	}
	if ver == "3.1" {
		ks = append(ks,
			kw{"const", []interface{}{1, nil, "a"}},
			kw{"if", []interface{}{wrap(func(s interface{}) interface{} { return s })}},
			kw{"then", []interface{}{wrap(func(s interface{}) interface{} { return s })}},
			kw{"else", []interface{}{wrap(func(s interface{}) interface{} { return s })}},
			kw{"contains", []interface{}{wrap(func(s interface{}) interface{} { return s })}},
			kw{"propertyNames", []interface{}{wrap(func(s interface{}) interface{} { return s })}},
			kw{"patternProperties", []interface{}{wrap(func(s interface{}) interface{} { return obj{"^a": s} })}},
			kw{"dependentSchemas", []interface{}{wrap(func(s interface{}) interface{} { return obj{"a": s} })}},
			kw{"prefixItems", []interface{}{wrap(func(s interface{}) interface{} { return arr{obj{"type": "integer"}, s} })}},
			kw{"unevaluatedProperties", []interface{}{false, wrap(func(s interface{}) interface{} { return s })}},
			kw{"contentMediaType", []interface{}{"text/plain"}},
			kw{"$comment", []interface{}{"C"}},
			kw{"$ref", []interface{}{"#/components/schemas/S", "#/components/schemas/I", "#/components/schemas/R"}},
		)
	}
	return ks
}

// schemaComponents are components that generated schemas refer to.
var schemaComponents = map[string]obj{
	"S": {"type": "string", "minLength": 2},
	"I": {"type": "integer", "properties": obj{"a": obj{"$ref": "#/components/schemas/S"}}},
	"R": {"type": "object", "properties": obj{"a": obj{"$ref": "#/components/schemas/R"}, "b": obj{"$ref": "#/components/schemas/S"}}},
}

var leafSchemas = []interface{}{
	obj{"type": "string"}, obj{}, obj{"$ref": "#/components/schemas/S"}, obj{"$ref": "#/components/schemas/R"}, obj{"type": "integer", "exclusiveMinimum": 1}, obj{"enum": arr{"a", 1, nil}}, obj{"type": arr{"array", "null"}, "items": obj{"type": "integer"}},
	obj{"$ref": "#/components/schemas/I"}, obj{"type": "object", "required": arr{"a"}, "additionalProperties": false, "properties": obj{"a": obj{}}}, obj{"not": obj{}}, false, true,
}

// genSchema chooses up to n keywords.
func genSchema(c *engine.Ctx, ks []kw, leaves []interface{}, n, depth int) obj {
	s := obj{}
	from := 0
	for len(s) < n {
		k := c.Choose("keyword", len(ks)-from+1)
		if k == 0 {
			break
		}
		w := ks[from+k-1]
		from += k
		v := engine.Pick(c, w.name, w.vals)
		if f, ok := v.(subWrap); ok {
			var sch interface{}
			l := len(leaves)
			if depth > 0 {
				l++
			}
			if i := c.Choose("subschema", l); i < len(leaves) {
				sch = leaves[i]
			} else {
				sch = genSchema(c, ks, leaves, 1, depth-1)
			}
			v = f(sch)
		}
		s[w.name] = v
	}
	return s
}

// to30 converts schema from JSON schema to the dialect of OpenAPI 3.0 exactly.
func to30(v interface{}) interface{} {
	switch x := v.(type) {
	case bool:
		return debool(x)
	case obj:
		return dialect30(x)
	}
	return v
}

func refsIn(schemas obj) func(string) (interface{}, bool) {
	return func(r string) (interface{}, bool) {
		v, ok := schemas[strings.TrimPrefix(r, "#/components/schemas/")]
		return v, ok
	}
}

func toSchemas(ver string, comps map[string]obj) obj {
	res := obj{}
	for k, v := range comps {
		res[k] = norm(inDialect(ver, v))
	}
	return res
}

// convert runs the conversion to JSON schema and checks it against the schema in the document.
func convert(c *engine.Ctx, ver, class string, schema interface{}, schemas obj) obj {
	fail := func(key, f string, args ...interface{}) {
		c.Failf(ver+" "+class+" "+key, "%s: "+f, append([]interface{}{js(schema)}, args...)...)
	}
	doc := obj{"openapi": "3.0.3", "info": obj{"title": "t", "version": "v"}, "paths": obj{}, "components": obj{"schemas": schemas}}
	if ver == "3.1" {
		doc["openapi"] = "3.1.0"
	}
	var (
		out  jsonschema.SchemaOrBool
		save func() ([]byte, error)
	)
	c.Logf("%s with %s", js(schema), js(schemas))
	before := ""
	check := func() string {
		b, err := save()
		if err != nil {
			fail("save", "%v", err)
		}
		return string(b)
	}
	c.Step(1)
	if ver == "3.0" {
		s := &openapi3.Spec{}
		if err := s.UnmarshalJSON([]byte(js(doc))); err != nil {
			fail("load", "%v", err)
		}
		save = s.MarshalJSON
		before = check()
		var sor openapi3.SchemaOrRef
		if err := sor.UnmarshalJSON([]byte(js(schema))); err != nil {
			fail("load", "%v", err)
		}
		out = sor.ToJSONSchema(s)
		b, err := sor.MarshalJSON()
		if err != nil {
			fail("save", "%v", err)
		}
		if v, _ := lenientDecode(b); jsonDiff("", norm(schema), v) != "" {
			fail("modified", "conversion changed the schema to %s", b)
		}
	} else {
		s := &openapi31.Spec{}
		if err := s.UnmarshalJSON([]byte(js(doc))); err != nil {
			fail("load", "%v", err)
		}
		save = s.MarshalJSON
		before = check()
		m, _ := clone(norm(schema)).(obj)
		out = openapi31.ToJSONSchema(m, s)
		if jsonDiff("", norm(schema), norm(m)) != "" {
			fail("modified", "conversion changed the schema to %s", js(m))
		}
	}
	if after := check(); after != before {
		fail("specification", "conversion changed the specification from %s to %s", before, after)
	}
	b, err := out.JSONSchemaBytes()
	if err != nil {
		fail("encode", "%v", err)
	}
	c.StateBytes(b)
	v, err := lenientDecode(b)
	if err != nil {
		fail("decode", "%v: %s", err, b)
	}
	res, ok := v.(obj)
	if !ok {
		res = obj{}
		if v == false {
			res = obj{"not": obj{}}
		}
	}
	carried := sub(res, "components", "schemas")
	for _, r := range schemaRefs(res, nil) {
		n := strings.TrimPrefix(r, "#/components/schemas/")
		_, exists := schemas[n]
		if _, ok := carried[n]; !ok && exists {
			fail("self-contained", "%q is not carried by %s", r, b)
		}
	}
	want := signature(ver == "3.0", norm(schema), refsIn(schemas))
	got := signature(false, res, refsIn(carried))
	if d := sigDiff(want, got); d != "" {
		fail("values", "%s: %s", d, b)
	}
	c.Outcome(want)
	return res
}

// schemaRefs lists references of schemas, not of values.
func schemaRefs(v interface{}, res []string) []string {
	switch x := v.(type) {
	case obj:
		for _, k := range keys(x) {
			switch k {
			case "enum", "default", "examples", "example", "const", "x-e":
				continue
			case "$ref":
				if s, ok := x[k].(string); ok {
					res = append(res, s)
					continue
				}
			}
			res = schemaRefs(x[k], res)
		}
	case arr:
		for _, e := range x {
			res = schemaRefs(e, res)
		}
	}
	return res
}

// plain drops members that say nothing.
func plain(v interface{}) interface{} {
	x, ok := v.(obj)
	if !ok {
		return v
	}
	r := obj{}
	for k, e := range x {
		switch k {
		case "components":
			continue
		case "enum", "default", "examples", "example", "x-e":
			r[k] = e
			continue
		case "nullable", "exclusiveMaximum", "exclusiveMinimum":
			if e == false {
				continue
			}
		case "minLength", "minItems", "minProperties":
			if f, ok := numOf(e); ok && f == 0 {
				continue
			}
		}
		switch y := e.(type) {
		case obj:
			if k == "properties" {
				m := obj{}
				for n, p := range y {
					m[n] = plain(p)
				}
				r[k] = m
				continue
			}
			r[k] = plain(y)
		case arr:
			a := arr{}
			for _, i := range y {
				a = append(a, plain(i))
			}
			r[k] = a
		default:
			r[k] = e
		}
	}
	return canon(r)
}

// roundTrip30 converts JSON schema to OpenAPI 3.0 and back.
func roundTrip30(c *engine.Ctx, schema obj, schemas obj) {
	fail := func(key, f string, args ...interface{}) {
		c.Failf("3.0 "+key, "%s: "+f, append([]interface{}{js(schema)}, args...)...)
	}
	var in jsonschema.SchemaOrBool
	if err := in.UnmarshalJSON([]byte(js(schema))); err != nil {
		panic("engine: " + err.Error() + js(schema))
	}
	var sor openapi3.SchemaOrRef
	c.Step(1)
	sor.FromJSONSchema(in)
	b, err := sor.MarshalJSON()
	if err != nil {
		fail("encode", "%v", err)
	}
	v, err := lenientDecode(b)
	if err != nil {
		fail("decode", "%v: %s", err, b)
	}
	if after, _ := in.JSONSchemaBytes(); jsonDiff("", plain(norm(schema)), plain(mustDecode(after))) != "" {
		fail("from modified", "conversion changed the schema to %s", after)
	}
	s30 := toSchemas("3.0", schemaComponents)
	if d := sigDiff(signature(false, norm(schema), refsIn(schemas)), signature(true, v, refsIn(s30))); d != "" {
		fail("from values", "%s: %s", d, b)
	}
	// OpenAPI 3.0 schema has one limit.
	both := hasBoth(schema, "exclusiveMaximum", "maximum") || hasBoth(schema, "exclusiveMinimum", "minimum")
	if d := jsonDiff("#", plain(norm(to30(norm(schema)))), plain(v)); d != "" && !both {
		fail("from members", "%s: %s", d, b)
	}
	back := sor.ToJSONSchema(nil)
	bb, err := back.JSONSchemaBytes()
	if err != nil {
		fail("back", "%v", err)
	}
	if d := jsonDiff("#", deboolAll(plain(norm(schema))), deboolAll(plain(mustDecode(bb)))); d != "" && !both {
		fail("round trip", "%s: %s", d, bb)
	}
	// Second trip keeps everything.
	var again openapi3.SchemaOrRef
	again.FromJSONSchema(back)
	b2, _ := again.MarshalJSON()
	if d := jsonDiff("#", plain(v), plain(mustDecode(b2))); d != "" {
		fail("second trip", "%s: %s, %s", d, b, b2)
	}
}

// deboolAll replaces boolean subschemas with objects.
func deboolAll(v interface{}) interface{} {
	x, ok := v.(obj)
	if !ok {
		return v
	}
	r := obj{}
	for k, e := range x {
		switch k {
		case "items", "not":
			r[k] = deboolAll(debool(e))
		case "additionalProperties":
			r[k] = deboolAll(e)
		case "properties":
			m := obj{}
			for n, p := range e.(obj) {
				m[n] = deboolAll(debool(p))
			}
			r[k] = m
		case "allOf", "anyOf", "oneOf":
			a := arr{}
			for _, i := range e.(arr) {
				a = append(a, deboolAll(debool(i)))
			}
			r[k] = a
		default:
			r[k] = e
		}
	}
	return r
}

func mustDecode(b []byte) interface{} {
	v, err := lenientDecode(b)
	if err != nil {
		panic("engine: " + err.Error() + string(b))
	}
	return v
}

// lenientDecode tolerates repeated members, jsonschema-go repeats writeOnly of a decoded schema.
func lenientDecode(b []byte) (v interface{}, err error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	err = d.Decode(&v)
	return v, err
}

func hasBoth(s obj, a, b string) bool { return s[a] != nil && s[b] != nil }

func keywordScenario(ver string, n, depth, leaves int) *engine.Scenario {
	ks := schemaKeywords(ver)
	return &engine.Scenario{
		Name:  fmt.Sprintf("%s %d keywords, depth %d", ver, n, depth),
		Bound: fmt.Sprintf("all schemas of up to %d of %d keywords with all of their values, %d kinds of subschemas, nested %d times with one keyword; %d values", n, len(ks), leaves, depth, len(valueUniverse)),
		Run: func(c *engine.Ctx) {
			s := genSchema(c, ks, leafSchemas[:leaves], n, depth)
			if ver == "3.1" {
				schemas := toSchemas(ver, schemaComponents)
				res := convert(c, ver, "schema", s, schemas)
				if s["$ref"] != nil && len(s) == 1 {
					return // The component might be inlined.
				}
				if d := jsonDiff("#", plain(norm(s)), plain(res)); d != "" {
					c.Failf("3.1 members", "%s: %s: %s", js(s), d, js(res))
				}
				return
			}
			if ext, ok := s["examples"]; ok && len(ext.(arr)) > 1 {
				c.Skip()
			}
			roundTrip30(c, s, toSchemas("3.1", schemaComponents))
			convert(c, ver, "schema", norm(to30(norm(s))), toSchemas("3.0", schemaComponents))
		},
	}
}

// own30 has members of OpenAPI 3.0 without a JSON schema counterpart.
func own30Scenario(n int) *engine.Scenario {
	items := []kw{
		{"type", []interface{}{"string", "integer", "array", "object"}},
		{"nullable", []interface{}{true, false}},
		{"maximum", []interface{}{2}}, {"exclusiveMaximum", []interface{}{true, false}}, {"minimum", []interface{}{2, 0}}, {"exclusiveMinimum", []interface{}{true, false}},
		{"minLength", []interface{}{0, 1}}, {"minItems", []interface{}{0, 1}}, {"minProperties", []interface{}{0, 1}},
		{"enum", []interface{}{arr{1, "a"}, arr{nil, "a"}}},
		{"allOf", []interface{}{arr{obj{"$ref": "#/components/schemas/S"}}, arr{obj{"type": "string"}, obj{"nullable": true}}}},
		{"oneOf", []interface{}{arr{obj{"$ref": "#/components/schemas/S"}, obj{"type": "string", "nullable": true}}}},
		{"items", []interface{}{obj{"nullable": true}, obj{"type": "string", "nullable": true}}},
		{"properties", []interface{}{obj{"a": obj{"nullable": true, "allOf": arr{obj{"$ref": "#/components/schemas/R"}}}}, obj{"a": obj{"type": "number", "maximum": 2, "exclusiveMaximum": true}}}},
		{"additionalProperties", []interface{}{false, true, obj{}, obj{"nullable": true}}},
		{"not", []interface{}{obj{}, obj{"nullable": true}, obj{"type": "string", "nullable": true}}},
		{"discriminator", []interface{}{obj{"propertyName": "a"}}}, {"xml", []interface{}{obj{"name": "x"}}}, {"externalDocs", []interface{}{obj{"url": "/"}}},
		{"example", []interface{}{1, nil}},
	}
	return &engine.Scenario{
		Name:  fmt.Sprintf("3.0 %d members", n),
		Bound: fmt.Sprintf("all OpenAPI 3.0 schemas of up to %d of %d members that differ from JSON schema; %d values", n, len(items), len(valueUniverse)),
		Run: func(c *engine.Ctx) {
			s := genSchema(c, items, nil, n, 0)
			convert(c, "3.0", "own", norm(s), toSchemas("3.0", schemaComponents))
		},
	}
}

// graphScenario has all graphs of references over components.
func graphScenario(ver string, n int, positions []string, edges int) *engine.Scenario {
	names := []string{"A", "B", "C", "D"}[:n]
	place := func(s obj, pos, target string, i int) {
		r := obj{"$ref": "#/components/schemas/" + target}
		p := []string{"a", "b", "c", "d"}[i]
		switch pos {
		case "properties", "dependentSchemas", "dependencies", "definitions", "$defs":
			if s[pos] == nil {
				s[pos] = obj{}
			}
			s[pos].(obj)[p] = r
		case "patternProperties":
			if s[pos] == nil {
				s[pos] = obj{}
			}
			s[pos].(obj)["^"+p] = r
		case "allOf", "anyOf", "oneOf", "prefixItems":
			a, _ := s[pos].(arr)
			s[pos] = append(a, r)
		case "sibling":
			if s["$ref"] == nil {
				s["$ref"] = r["$ref"]
				return
			}
			a, _ := s["allOf"].(arr)
			s["allOf"] = append(a, r)
		case "alias":
			for k := range s {
				delete(s, k)
			}
			s["$ref"] = r["$ref"]
		default:
			if s[pos] == nil {
				s[pos] = r
				return
			}
			s[pos] = obj{"anyOf": arr{s[pos], r}}
		}
	}
	roots := 4
	if ver == "3.1" {
		roots = 6
	}
	return &engine.Scenario{
		Name:  fmt.Sprintf("%s graphs of %d", ver, n),
		Bound: fmt.Sprintf("all graphs with up to %d references between %d components and a missing one, at %d kinds of places, and %d kinds of root", edges, n, len(positions), roots),
		Run: func(c *engine.Ctx) {
			targets := append(append([]string{}, names...), "Missing")
			schemas := obj{}
			left := edges
			for i, from := range names {
				s := obj{"title": from}
				if i == n-1 {
					s["type"] = arr{"object", "array", "string"}
					if ver == "3.0" {
						s["type"] = "object"
					}
				}
				alias := false
				for j, to := range targets {
					if left == 0 || alias {
						break
					}
					k := c.Choose(from+" to "+to, len(positions)+1)
					if k == 0 {
						continue
					}
					left--
					place(s, positions[k-1], to, j%4)
					alias = positions[k-1] == "alias"
				}
				schemas[from] = s
			}
			schemas = norm(schemas).(obj)
			var root obj
			switch c.Choose("root", roots) {
			case 0:
				root = obj{"$ref": "#/components/schemas/A"}
			case 1:
				root = obj{"properties": obj{"a": obj{"$ref": "#/components/schemas/A"}}}
			case 2:
				root = obj{"items": obj{"$ref": "#/components/schemas/B"}}
			case 3:
				root = obj{"allOf": arr{obj{"$ref": "#/components/schemas/A"}, obj{"$ref": "#/components/schemas/B"}}, "title": "x"}
			case 4:
				root = obj{"$ref": "#/components/schemas/A", "not": obj{"$ref": "#/components/schemas/B"}}
			case 5:
				root = obj{"$ref": "#/components/schemas/A", "minProperties": 1}
			}
			convert(c, ver, "graph", norm(root), schemas)
		},
	}
}

func init() {
	register(&Property{ID: "P11", Scenarios: func(tier string) (res []*engine.Scenario) {
		common := []string{"properties", "items", "allOf", "oneOf", "anyOf", "not", "additionalProperties", "alias"}
		wide := append([]string{"patternProperties", "if", "then", "else", "contains", "propertyNames", "dependencies", "definitions", "prefixItems", "dependentSchemas", "$defs", "unevaluatedProperties", "unevaluatedItems", "additionalItems", "sibling"}, common...)
		th := tier == "thorough"
		for _, ver := range versions {
			ps := common
			if ver == "3.1" {
				ps = wide
			}
			if th {
				res = append(res, keywordScenario(ver, 3, 0, 2), keywordScenario(ver, 2, 1, 4), keywordScenario(ver, 1, 3, len(leafSchemas)), graphScenario(ver, 2, ps, 4), graphScenario(ver, 3, ps[:1], 12), graphScenario(ver, 3, common, 4))
			} else {
				res = append(res, keywordScenario(ver, 2, 0, 4), keywordScenario(ver, 1, 2, len(leafSchemas)), graphScenario(ver, 2, ps, 2), graphScenario(ver, 3, []string{"properties", "alias"}, 4))
			}
		}
		n := 3
		if th {
			n = 5
		}
		return append(res, own30Scenario(n))
	}})
}
