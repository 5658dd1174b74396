package props

import (
	"fmt"
	"regexp"
	"strings"

	"verif/mc/engine"
)

// P03: malformed documents.

// notEnforced has the classes of mutations after which a document is still acceptable: either
// the member is required only in some of the cases (and JSON schema that the entities are
// generated from has it optional), or the mutation does not make the document malformed.
// Such a document has to be saved without damage.
var notEnforced = map[string]*regexp.Regexp{
	// References without $ref are inline objects; header needs schema or content.
	"3.0": regexp.MustCompile(`^(.*\.\$ref required|Callback\.\{.* required|Header(Schema|Content)?\.(schema|content) required|Responses\.200 required)$`),
	// Schemas are free-form; parameters and headers need schema or content; path parameters are
	// always required; responses are optional; links need an operation.
	"3.1": regexp.MustCompile(`^(Schema[. ].*|.*\.\$ref required|Callback\.\{.* required|(Header.*|Param.*)\.(schema|content) required|Param:path:.*\.required required|Responses\.200 required|Operation\.responses required|Link.*\.operation(Id|Ref) required|Spec.*\.(paths|webhooks) required|.* unknown)$`),
}

func checkMalformed(c *engine.Ctx, ver, fname string, doc obj, class string) {
	if class == "" {
		c.Skip() // no mutation was made
	}
	in := []byte(js(doc))
	c.Logf("%s: %s", class, in)
	s := newSpec(ver)
	c.Step(1)
	err := s.UnmarshalJSON(in)
	if err != nil {
		c.Outcome("rejected: " + errClass(err))
		return
	}
	key := ver + " " + class
	out, err := s.MarshalJSON()
	if !notEnforced[ver].MatchString(class) {
		c.Failf(key, "malformed document (%s) is accepted\n%s\nand saved as %s %v", class, in, out, err)
	}
	if class == "Schema.title required" {
		c.Skip() // an empty schema
	}
	if err != nil {
		c.Failf(key+" save", "document (%s) is accepted and can not be saved: %v\n%s", class, err, in)
	}
	got, err := strictDecode(out)
	if err != nil {
		c.Failf(key+" strict", "document (%s) is accepted and saved as broken JSON: %v\n%s\n%s", class, err, in, out)
	}
	want, _ := strictDecode(in)
	if ver == "3.1" && strings.HasSuffix(class, " unknown") && !strings.HasPrefix(class, "Schema") {
		dropMember(want, "unknownMember") // ignored
	}
	spellDefaults("", want, got)
	if d := jsonDiff("#", want, got); d != "" {
		c.Failf(key+" damage", "document (%s) is accepted and damaged: %s\n%s\n%s", class, d, in, out)
	}
	c.Outcome("accepted " + class)
}

func dropMember(v interface{}, name string) {
	switch x := v.(type) {
	case obj:
		delete(x, name)
		for _, e := range x {
			dropMember(e, name)
		}
	case arr:
		for _, e := range x {
			dropMember(e, name)
		}
	}
}

// brokenText has texts that are no JSON document of a specification.
func brokenText(ver string, g grammar, fs []focus) *engine.Scenario {
	texts := []string{"", " ", "null", "true", "1", `"s"`, "[]", "[{}]", "{}", "{", "}", `{"openapi"}`, `{"openapi":"3.0.3"`, "\x00", "\xff\xfe", "{\"openapi\":\"\xff\"}", `{"openapi":"3.0.3","info":{},"paths":{}}`, `{"openapi":"3.0.3","info":{"title":"t","version":"v"},"paths":{}}}`}
	return &engine.Scenario{
		Name:  ver + " text",
		Bound: "the minimal document and the document with all members of every focus cut at every byte, with a byte doubled or replaced at every position, and fixed texts that are no documents",
		Run: func(c *engine.Ctx) {
			var in []byte
			must := true
			if k := c.Choose("text", len(texts)+1); k > 0 {
				in = []byte(texts[k-1])
			} else {
				f := engine.Pick(c, "focus", fs)
				doc := []byte(js(f.document(c, g, 0)))
				at := c.Choose("at", len(doc))
				switch c.Choose("edit", 4) {
				case 0:
					in = doc[:at]
				case 1:
					in = append(append(append([]byte{}, doc[:at]...), doc[at]), doc[at:]...)
					must = false
				case 2:
					in = append(append(append([]byte{}, doc[:at]...), '}'), doc[at+1:]...)
					must = false
				case 3:
					in = append(append(append([]byte{}, doc[:at]...), '0'), doc[at+1:]...)
					must = false
				}
			}
			c.Logf("%q", in)
			s := newSpec(ver)
			c.Step(1)
			err := s.UnmarshalJSON(in)
			if err == nil && must {
				c.Failf(ver+" text", "text is accepted as a document: %q", in)
			}
			if err == nil {
				if _, err := s.MarshalJSON(); err != nil {
					c.Failf(ver+" text save", "document is accepted and can not be saved: %v: %q", err, in)
				}
			}
			// The specification can be used for another document after a failure.
			c.Outcome(fmt.Sprint(err == nil))
		},
	}
}

// wrongKeys has names that OpenAPI 3.0 does not allow.
func wrongKeys() *engine.Scenario {
	comp := []string{"schemas", "responses", "parameters", "examples", "requestBodies", "headers", "securitySchemes", "links", "callbacks"}
	vals := map[string]obj{
		"schemas": {"type": "string"}, "responses": {"description": "d"}, "parameters": {"name": "p", "in": "query", "schema": obj{"type": "string"}}, "examples": {"value": "v"}, "requestBodies": {"content": obj{"a/b": obj{}}},
		"headers": {"schema": obj{"type": "string"}}, "securitySchemes": {"type": "http", "scheme": "basic"}, "links": {"operationId": "o"}, "callbacks": {"{$url}": obj{}},
	}
	return &engine.Scenario{
		Name:  "3.0 keys",
		Bound: "7 invalid names in each of 9 component containers, 5 invalid paths, 7 invalid response keys, each alone and next to a valid one",
		Run: func(c *engine.Ctx) {
			doc := obj{"openapi": "3.0.3", "info": obj{"title": "t", "version": "v"}, "paths": obj{}}
			both := c.Bool("next to a valid one")
			put := func(m obj, bad, good string, v interface{}) obj {
				m[bad] = v
				if both {
					m[good] = v
				}
				return m
			}
			class := ""
			switch k := c.Choose("container", len(comp)+2); {
			case k < len(comp):
				n := engine.Pick(c, "name", []string{"", "a b", "a/b", "ä", "a{", "$ref", "a~1"})
				doc["components"] = obj{comp[k]: put(obj{}, n, "Good", vals[comp[k]])}
				class = comp[k]
			case k == len(comp):
				n := engine.Pick(c, "path", []string{"", "a", "a/", "{id}", "get"})
				doc["paths"] = put(obj{}, n, "/good", obj{})
				class = "paths"
			default:
				n := engine.Pick(c, "status", []string{"", "600", "2xx", "20", "2000", "6XX", "Default"})
				doc["paths"] = obj{"/p": obj{"get": obj{"responses": put(obj{}, n, "200", obj{"description": "d"})}}}
				class = "responses"
			}
			in := []byte(js(doc))
			c.Logf("%s", in)
			s := newSpec("3.0")
			c.Step(1)
			if err := s.UnmarshalJSON(in); err == nil {
				out, err := s.MarshalJSON()
				c.Failf("3.0 key "+class, "document with an invalid name is accepted: %s\nand saved as %s %v", in, out, err)
			}
			c.Outcome("rejected " + class)
		},
	}
}

func init() {
	register(&Property{ID: "P03", Scenarios: func(tier string) (res []*engine.Scenario) {
		for _, ver := range versions {
			ver := ver
			g, fs := grammar30()
			if ver == "3.1" {
				g, fs = grammar31()
			}
			for _, f := range fs {
				f := f
				b := 2
				if heavyFoci[f.name] {
					b = 1
				}
				if tier == "thorough" {
					b++
				}
				res = append(res, &engine.Scenario{
					Name:  ver + " " + f.name,
					Bound: fmt.Sprintf("all documents within %d deviations from the minimal %s, and with all of its members, with one mutation at every position", b, f.name),
					Run: func(c *engine.Ctx) {
						d, class := f.malformed(c, g, b)
						checkMalformed(c, ver, f.name, d, class)
					},
				})
			}
			res = append(res, brokenText(ver, g, fs))
		}
		return append(res, wrongKeys())
	}})
}
