package props

import (
	"fmt"
	"mime/multipart"
	"reflect"
	"sort"
	"strings"

	"github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go"
	"verif/mc/engine"
)

// Operations of a reflector with default options.

type (
	OptSub struct {
		S     string `json:"s" formData:"s" required:"true"`
		N     *int   `json:"n,omitempty" formData:"n"`
		Loose string
	}
	OptObj struct {
		X int    `query:"x" header:"x" cookie:"x" path:"x" form:"x"`
		Y string `json:"y"`
	}
	optAll struct {
		J      OptSub             `json:"j"`
		P      *OptSub            `json:"p" title:"pointer"`
		L      []OptSub           `json:"l" nullable:"true"`
		M      map[string]*OptSub `json:"m"`
		Q      []string           `query:"q" default:"[\"x\"]"`
		O      OptObj             `query:"o"`
		OP     *OptObj            `query:"op" description:"object"`
		HO     OptSub             `header:"X-Obj"`
		H      int                `header:"X-H" example:"5"`
		HN     *string            `header:"x-n" required:"true"`
		C      []int              `cookie:"c" collectionFormat:"csv"`
		Loose  string             `title:"loose"`
		Hidden string             `json:"-"`
		low    string
	}
	optLoose struct {
		A string
		B *OptSub
		D []OptObj
	}
	optForm struct {
		F string  `formData:"f"`
		G *OptSub `formData:"g"`
		Q int     `query:"q"`
		N *int    `form:"n"`
	}
	optFile struct {
		U  multipart.File          `formData:"u"`
		UH []*multipart.FileHeader `formData:"uh"`
		G  OptSub                  `formData:"g"`
	}
	optEmb struct {
		OptSub
		X int `json:"x"`
	}
	optRefer struct {
		OptSub  `refer:"true"`
		*OptObj `refer:"true"`
		X       int `json:"x"`
	}
	optFunc struct {
		A string      `json:"a" query:"a" header:"a" formData:"a"`
		F func()      `json:"f" query:"f" header:"f" formData:"f"`
		C chan string `json:"c"`
	}
	optSlice struct {
		Q int `query:"q" header:"X-Q"`
		OptList
	}
	OptList []OptSub
	optEnum string
)

func (optEnum) Enum() []interface{} { return []interface{}{"a", "b"} }

// optValues are the structures that do not recurse.
var optValues = []interface{}{
	OptSub{}, new(OptSub), optAll{}, new(optAll), optLoose{}, optForm{}, optFile{}, optEmb{}, optRefer{}, optFunc{}, optSlice{}, OptList{}, []*OptSub{}, map[string]OptSub{}, map[string]*optLoose{},
	"", new(int), optEnum(""), new(optEnum), struct{}{}, struct {
		V *optEnum `json:"v" query:"v" header:"v"`
		T OptSub   `query:"t" json:"t"`
	}{}, dyn, jsonschema.Struct{DefName: "DynSub", Fields: []jsonschema.Field{{Name: "Foo", Value: OptSub{}, Tag: `json:"foo"`}, {Name: "Bar", Value: 1, Tag: `query:"bar"`}, {Name: "Baz", Value: ""}}},
}

func ctxOption(name string, f func(rc *jsonschema.ReflectContext)) reflOption {
	return reflOption{name: name, set: defaultOption(f)}
}

var optOptions = []reflOption{
	{name: "none", set: func(*jsonschema.Reflector) {}},
	ctxOption("fields without tags", jsonschema.ProcessWithoutTags),
	ctxOption("inline references", jsonschema.InlineRefs),
	ctxOption("enveloped nullability", func(rc *jsonschema.ReflectContext) { rc.EnvelopNullability = true }),
	ctxOption("nullable root", jsonschema.RootNullable),
	ctxOption("references to roots", jsonschema.RootRef),
	ctxOption("unsupported properties are skipped", jsonschema.SkipUnsupportedProperties),
	ctxOption("no defaults and examples", func(rc *jsonschema.ReflectContext) { rc.SkipNonConstraints = true }),
	ctxOption("no embedded maps and slices", jsonschema.SkipEmbeddedMapsSlices),
	ctxOption("no prefix", jsonschema.StripDefinitionNamePrefix("Props")),
	ctxOption("bad characters", jsonschema.InterceptDefName(func(_ reflect.Type, n string) string { return "/{é} " + n + "ü " })),
	{name: "inlined types", set: func(r *jsonschema.Reflector) { r.InlineDefinition(OptSub{}); r.InlineDefinition(OptObj{}) }},
	{name: "mapped types", set: func(r *jsonschema.Reflector) {
		r.AddTypeMapping(OptSub{}, "")
		r.AddTypeMapping(new(OptObj), optEnum(""))
	}},
	{name: "properties and types are titled", set: func(r *jsonschema.Reflector) {
		r.DefaultOptions = append(r.DefaultOptions, jsonschema.InterceptProp(func(p jsonschema.InterceptPropParams) error {
			if p.Processed {
				p.PropertySchema.WithTitle("property " + p.Name)
			}
			return nil
		}), jsonschema.InterceptSchema(func(p jsonschema.InterceptSchemaParams) (bool, error) {
			if p.Processed {
				p.Schema.WithDescription("type " + p.Value.Type().String())
			}
			return false, nil
		}), jsonschema.InterceptNullability(func(p jsonschema.InterceptNullabilityParams) {
			p.Schema.WithExtraPropertiesItem("x-null", p.NullAdded)
		}))
	}},
	{name: "strings are dropped", set: defaultOption(jsonschema.InterceptProp(func(p jsonschema.InterceptPropParams) error {
		if p.Field.Type.Kind() == reflect.String {
			return jsonschema.ErrSkipProperty
		}
		return nil
	}))},
	{name: "strings are replaced", set: defaultOption(jsonschema.InterceptSchema(func(p jsonschema.InterceptSchemaParams) (bool, error) {
		if !p.Processed && p.Value.Kind() == reflect.String {
			p.Schema.WithType(jsonschema.Integer.Type())
			return true, nil
		}
		return false, nil
	}))},
}

// optionScenario are the operations with one content unit and a reflector with one or two options.
func optionScenario(check opCheck, ver string, pairs bool) *engine.Scenario {
	what := "each"
	if pairs {
		what = "all pairs"
	}
	return &engine.Scenario{Name: ver + " reflector options", Bound: fmt.Sprintf("a request (POST, GET) or a response of %d structures, %s of %d options of the reflector", len(optValues), what, len(optOptions)), Run: func(c *engine.Ctx) {
		v := engine.Pick(c, "structure", optValues)
		first := c.Choose("first option", len(optOptions))
		second := first
		if pairs {
			second += c.Choose("second option", len(optOptions)-first)
		}
		o := optOptions[first]
		if second != first {
			one, two := optOptions[first], optOptions[second]
			o = reflOption{name: one.name + ", " + two.name, set: func(r *jsonschema.Reflector) {
				one.set(r)
				two.set(r)
			}}
		}
		p := program{method: "POST", path: "/p", options: &o}
		resp := c.Bool("response")
		if resp || c.Bool("GET") {
			p.method = "GET"
		}
		p.units = []opUnit{{resp: resp, desc: fmt.Sprintf("%T", v), addTo: func(oc openapi.OperationContext) {
			if resp {
				oc.AddRespStructure(v)
			} else {
				oc.AddReqStructure(v)
			}
		}}}
		check(c, ver, p)
	}}
}

// looseTags are the tags of fields for reflectors that process fields without tags.
var looseTags = []string{"", `json:"j"`, `json:"-"`, `json:",omitempty"`, `query:"q"`, `header:"X-H"`, `cookie:"c"`, `form:"f"`, `formData:"d"`, `json:"jq" query:"jq"`, `json:"jh" header:"Jh"`}

// looseScenario checks the names of parameters and properties if the reflector processes fields without tags.
func looseScenario(ver string, n int, resp bool) *engine.Scenario {
	types := []reflect.Type{reflect.TypeOf(""), reflect.TypeOf(new(int)), reflect.TypeOf(optLoose{})}
	return &engine.Scenario{Name: ver + " fields without tags", Bound: fmt.Sprintf("all structures of up to %d fields of %d types with %d tags, 3 methods", n, len(types), len(looseTags)), Run: func(c *engine.Ctx) {
		var fs []reflect.StructField
		var js, form, params, headers []string
		hasForm := false
		used := map[string]bool{}
		for i := 0; i < n; i++ {
			k := c.Choose("tag", len(looseTags)+1)
			if k == 0 {
				break
			}
			f := reflect.StructField{Name: string(rune('A' + i)), Type: engine.Pick(c, "type", types), Tag: reflect.StructTag(looseTags[k-1])}
			if used[looseTags[k-1]] && k > 1 {
				c.Skip()
			}
			used[looseTags[k-1]] = true
			fs = append(fs, f)
			switch name := strings.Split(f.Tag.Get("json"), ",")[0]; name {
			case "-":
			case "":
				js = append(js, f.Name)
			default:
				js = append(js, name)
			}
			for _, in := range []string{"query", "header", "cookie", "form"} {
				if name, ok := f.Tag.Lookup(in); ok {
					if in == "header" {
						headers = append(headers, name)
					}
					if in == "form" {
						in = "query"
					}
					params = append(params, in+" "+name)
				}
			}
			for _, in := range []string{"form", "formData"} {
				if name, ok := f.Tag.Lookup(in); ok {
					hasForm = true
					form = append(form, name)
				}
			}
		}
		v := reflect.New(reflect.StructOf(fs)).Interface()
		a := newAPI(ver)
		o := a.jsr().DefaultOptions
		a.jsr().DefaultOptions = append(o, jsonschema.ProcessWithoutTags)
		method := "GET"
		if !resp {
			method = engine.Pick(c, "method", []string{"POST", "GET", "PATCH"})
		}
		desc := fmt.Sprintf("%s %s %T", ver, method, v)
		oc, err := a.refl().NewOperationContext(method, "/p")
		if err != nil {
			c.Failf("context", "%v", err)
		}
		if resp {
			oc.AddRespStructure(v)
		} else {
			oc.AddReqStructure(v)
		}
		c.Step(1)
		if err := a.refl().AddOperation(oc); err != nil {
			c.Failf("add", "%s: %v", desc, err)
		}
		d, raw, err := docOf(a.spec())
		if err != nil {
			c.Failf("save", "%v", err)
		}
		c.StateBytes(raw)
		op := sub(d, "paths", "/p", strings.ToLower(method))
		properties := func(content obj, media string) []string {
			s := sub(content, media, "schema")
			if r, ok := s["$ref"].(string); ok {
				s = sub(d, "components", "schemas", strings.TrimPrefix(r, "#/components/schemas/"))
			}
			return keys(sub(s, "properties"))
		}
		same := func(what string, want, got []string) {
			sort.Strings(want)
			sort.Strings(got)
			if strings.Join(want, ", ") != strings.Join(got, ", ") {
				c.Failf("loose "+what, "%s: %s: want %q, got %q\n%s", desc, what, want, got, raw)
			}
		}
		content := sub(op, "requestBody", "content")
		if resp {
			r := sub(op, "responses", "200")
			content = sub(r, "content")
			same("headers", headers, keys(sub(r, "headers")))
			hasForm, method, params = false, "POST", nil
		}
		var got []string
		ps, _ := op["parameters"].(arr)
		for _, p := range ps {
			got = append(got, fmt.Sprint(p.(obj)["in"], " ", p.(obj)["name"]))
		}
		same("parameters", params, got)
		var media []string
		switch {
		case method == "GET":
		case hasForm:
			media = []string{ctForm}
			got = nil
			for _, n := range properties(content, ctForm) {
				for _, f := range form {
					if f == n {
						got = append(got, n) // Other fields are not documented to be left out.
					}
				}
			}
			same("form fields", form, got)
		case len(js) > 0:
			media = []string{ctJSON}
			same("JSON properties", js, properties(content, ctJSON))
		case len(content) == 1 && !resp:
			media = []string{ctJSON} // An empty structure is an object without properties.
		}
		same("media types", media, keys(content))
		c.Outcome(fmt.Sprint(js, params, media))
	}}
}
