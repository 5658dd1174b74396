package props

import (
	"fmt"
	"mime/multipart"
	"reflect"
	"strings"

	"github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"
	"verif/mc/engine"
)

// P08: request bodies.

const (
	ctJSON  = "application/json"
	ctForm  = "application/x-www-form-urlencoded"
	ctMulti = "multipart/form-data"
)

func bodyAllowed(method string) bool {
	switch strings.ToUpper(method) {
	case "GET", "HEAD", "DELETE", "TRACE":
		return false
	}
	return true
}

// bodyUnit is a content unit with the facts the decision table needs.
type bodyUnit struct {
	desc      string
	v         interface{}
	json      obj // schema of JSON body in the dialect of 3.1, nil if there is none
	form      obj // schema of form body
	files     bool
	hasForm   bool // has form or formData tags
	enforce   bool // implements RequestBodyEnforcer
	enforceJS bool // implements RequestJSONBodyEnforcer
	raw       []string

	contentType, format, description string
	mapping                          map[string]string
	customize                        int // 0 none, 1 description, 2 reference
}

type want08 struct {
	content     map[string]obj
	description string
	ref         bool
	required    bool
}

// expectBody is the decision table.
func expectBody(method string, units []bodyUnit) (w want08) {
	w.content = map[string]obj{}
	has := false
	put := func(ct string, s obj) {
		w.content[ct] = s
		has = true
	}
	str := obj{"type": "string"}
	for _, u := range units {
		allowed := bodyAllowed(method) || u.enforce
		formBody := func() {
			if allowed && u.form != nil && (u.hasForm || len(u.mapping) > 0) {
				if u.files {
					put(ctMulti, u.form)
				} else {
					put(ctForm, u.form)
				}
			}
		}
		jsonBody := func() {
			if allowed && u.json != nil && (!u.hasForm || u.enforceJS) {
				put(ctJSON, u.json)
			}
		}
		switch u.contentType {
		case "":
			formBody()
			jsonBody()
			for _, ct := range u.raw {
				put(ct, str)
			}
		case ctJSON:
			jsonBody()
		case ctForm, ctMulti:
			formBody()
		default:
			s := clone(str).(obj)
			if u.format != "" {
				s["format"] = u.format
			}
			put(u.contentType, s)
		}
		if has {
			if u.description != "" {
				w.description = u.description
			}
			switch u.customize {
			case 1:
				w.description = "customized"
				w.required = true
			case 2:
				w.ref = true
			}
		}
	}
	if !has {
		w.content = nil
	}
	return
}

func customizer(kind int) func(cor openapi.ContentOrReference) {
	switch kind {
	case 1:
		return func(cor openapi.ContentOrReference) {
			switch x := cor.(type) {
			case *openapi3.RequestBodyOrRef:
				x.RequestBody.WithDescription("customized").WithRequired(true)
			case *openapi31.RequestBodyOrReference:
				x.RequestBody.WithDescription("customized").WithRequired(true)
			case *openapi3.ResponseOrRef:
				x.Response.WithDescription("customized")
			case *openapi31.ResponseOrReference:
				x.Response.WithDescription("customized")
			default:
				panic(fmt.Sprintf("engine: unexpected entity %T", cor))
			}
		}
	}
	return nil
}

func (u bodyUnit) addTo(oc openapi.OperationContext) {
	var opts []openapi.ContentOption
	if u.contentType != "" {
		opts = append(opts, openapi.WithContentType(u.contentType))
	}
	switch u.customize {
	case 1:
		opts = append(opts, openapi.WithCustomize(customizer(1)))
	case 2:
		opts = append(opts, openapi.WithReference("#/components/requestBodies/R"))
	}
	opts = append(opts, func(cu *openapi.ContentUnit) {
		cu.Format = u.format
		cu.Description = u.description
		if len(u.mapping) > 0 {
			cu.SetFieldMapping(openapi.InFormData, u.mapping)
		}
	})
	oc.AddReqStructure(u.v, opts...)
}

func (u bodyUnit) String() string {
	return fmt.Sprintf("{%s ct=%q format=%q description=%q mapping=%v customize=%d}", u.desc, u.contentType, u.format, u.description, u.mapping, u.customize)
}

// inDialect converts an expected schema.
func inDialect(ver string, s interface{}) interface{} {
	if ver == "3.0" {
		return dialect30(s)
	}
	return s
}

// component08 has components of this file in addition to the common ones.
func componentOf(ver, name string) interface{} {
	c, ok := components[name]
	if !ok {
		c, ok = bodyComponents[name]
	}
	if !ok {
		return nil
	}
	if ver == "3.1" && strings.HasPrefix(name, "MultipartFile") {
		return obj{"type": "string", "format": "binary", "contentMediaType": "application/octet-stream"}
	}
	return inDialect(ver, c)
}

// checkComponents compares all components reachable from v and returns how many.
func checkComponents(c *engine.Ctx, ver string, d obj, v interface{}, b []byte) {
	seen := map[string]bool{}
	queue := refsOf(v, nil)
	for len(queue) > 0 {
		r := queue[0]
		queue = queue[1:]
		n := strings.TrimPrefix(r, "#/components/schemas/")
		if n == r || seen[n] {
			continue
		}
		seen[n] = true
		w := componentOf(ver, n)
		if w == nil {
			c.Failf("unexpected component", "%s: unexpected reference to component %q\n%s", ver, n, b)
		}
		got := sub(d, "components", "schemas")[n]
		if x := jsonDiff("#", canon(norm(w)), canon(got)); x != "" {
			c.Failf("component "+ver, "%s: component %s: %s\nwant %s\ngot  %s", ver, n, x, js(w), js(got))
		}
		queue = append(queue, refsOf(got, nil)...)
	}
}

// bodyCheck decides a property of an operation with request bodies.
type bodyCheck func(c *engine.Ctx, ver, method string, units []bodyUnit)

func checkBody(c *engine.Ctx, ver, method string, units []bodyUnit) {
	a := newAPI(ver)
	oc, err := a.refl().NewOperationContext(method, "/p")
	if err != nil {
		c.Failf("context", "%v", err)
	}
	for _, u := range units {
		u.addTo(oc)
	}
	c.Step(1)
	err = a.refl().AddOperation(oc)
	c.Logf("%s %s %v -> %v", ver, method, units, err)
	if err != nil {
		if strings.Contains(err.Error(), "already defined") {
			c.Skip()
		}
		c.Failf("add", "%s %s %v: %v", ver, method, units, err)
	}
	d, b, err := docOf(a.spec())
	if err != nil {
		c.Failf("save", "%v", err)
	}
	c.StateBytes(b)
	w := expectBody(method, units)
	op := sub(d, "paths", "/p", strings.ToLower(method))
	got := op["requestBody"]
	var want interface{}
	switch {
	case w.ref:
		want = obj{"$ref": "#/components/requestBodies/R"}
	case w.content != nil:
		cont := obj{}
		for ct, s := range w.content {
			cont[ct] = obj{"schema": inDialect(ver, s)}
		}
		o := obj{"content": cont}
		if w.description != "" {
			o["description"] = w.description
		}
		if w.required {
			o["required"] = true
		}
		want = o
	}
	if x := jsonDiff("#", canon(norm(want)), canon(got)); x != "" {
		c.Failf("body "+ver, "%s %s %v: request body: %s\nwant %s\ngot  %s", ver, method, units, x, js(want), js(got))
	}
	checkComponents(c, ver, d, got, b)
	c.Outcome(js(got))
}

// ---- pool of named structures

type (
	bJSON struct {
		A int       `json:"a" required:"true"`
		B *JSONObj  `json:"b,omitempty"`
		C []JSONObj `json:"c,omitempty" minItems:"1"`
		Q string    `query:"q"`
		N int
	}
	bForm struct {
		A int    `formData:"a" required:"true"`
		B string `formData:"b" minLength:"2"`
		Q string `query:"q"`
	}
	bForm2 struct {
		A int    `form:"a"`
		J string `json:"j"`
	}
	bFile struct {
		F multipart.File          `formData:"f"`
		H *multipart.FileHeader   `formData:"h" required:"true"`
		S []multipart.File        `formData:"s"`
		T []*multipart.FileHeader `formData:"t"`
		A string                  `formData:"a"`
	}
	bFileOne struct {
		F multipart.File `formData:"f"`
	}
	bFiles struct {
		T []*multipart.FileHeader `formData:"t"`
	}
	bForce struct {
		A int `json:"a"`
	}
	bForceForm struct {
		A int `formData:"a"`
	}
	bForceJS struct {
		A int `formData:"a"`
		J int `json:"j"`
	}
	bForceJSForm struct {
		A int `formData:"a" json:"a"`
	}
	bForceNone struct {
		Q string `query:"q"`
	}
	bForceAll struct {
		A int `form:"a"`
		J int `json:"j"`
	}
	bRaw struct {
		Q string `query:"q"`
		R []byte `contentType:"text/csv"`
	}
	bRaw2 struct {
		R string `contentType:"text/plain"`
		S string `contentType:"text/html"`
	}
	bRawJSON struct {
		J string `json:"j"`
		R string `contentType:"text/csv"`
	}
	bNone struct {
		A int
		B string
	}
	bQuery struct {
		Q string `query:"q"`
	}
	bRec struct {
		Next *bRec  `json:"next,omitempty"`
		Kids []bRec `json:"kids,omitempty"`
	}
	bSlice []JSONObj
	bEmbed struct {
		Q string `query:"q"`
		bSlice
	}
	// BEmbedded is embedded.
	BEmbedded struct {
		E string `json:"e"`
		F string `formData:"f"`
	}
	bEmbJSON struct {
		BEmb2
		A int `json:"a"`
	}
	BEmb2 struct {
		E2 string `json:"e2" required:"true"`
	}
	bEmbForm struct {
		BEmb3
		Q string `query:"q"`
	}
	BEmb3 struct {
		E3 string `formData:"e3"`
	}
	bDyn struct {
		jsonschema.Struct
	}
	bDynQ struct {
		Q string `query:"q"`
		jsonschema.Struct
	}
	bGen[T any] struct {
		V T `json:"v"`
	}
)

func (bForce) ForceRequestBody()           {}
func (bForceForm) ForceRequestBody()       {}
func (bForceNone) ForceRequestBody()       {}
func (bForceJS) ForceJSONRequestBody()     {}
func (bForceJSForm) ForceJSONRequestBody() {}
func (bForceAll) ForceRequestBody()        {}
func (bForceAll) ForceJSONRequestBody()    {}

func objSchema(required []string, props obj) obj {
	o := obj{"type": "object"}
	if len(props) > 0 {
		o["properties"] = props
	}
	if len(required) > 0 {
		r := arr{}
		for _, s := range required {
			r = append(r, s)
		}
		o["required"] = r
	}
	return o
}

var (
	sInt  = obj{"type": "integer"}
	sStr  = obj{"type": "string"}
	sFile = refTo("")
)

func nullArr(items obj) obj { return obj{"type": arr{"array", "null"}, "items": items} }

func refComp(name string) obj { return obj{"$ref": "#/components/schemas/" + name} }

var bodyComponents = map[string]obj{
	"PropsBJSON":                   objSchema([]string{"a"}, obj{"a": sInt, "b": refTo("JSONObj"), "c": obj{"type": "array", "items": refTo("JSONObj"), "minItems": 1}}),
	"FormDataPropsBForm":           objSchema([]string{"a"}, obj{"a": sInt, "b": obj{"type": "string", "minLength": 2}}),
	"FormDataPropsBForm2":          objSchema(nil, obj{"a": sInt}),
	"PropsBForm2":                  objSchema(nil, obj{"j": sStr}),
	"MultipartFile":                {"type": "string", "format": "binary"},
	"MultipartFileHeader":          {"type": "string", "format": "binary"},
	"FormDataPropsBFile":           objSchema([]string{"h"}, obj{"f": refComp("MultipartFile"), "h": refComp("MultipartFileHeader"), "s": obj{"type": "array", "items": refComp("MultipartFile")}, "t": obj{"type": "array", "items": refComp("MultipartFileHeader")}, "a": sStr}),
	"FormDataPropsBFileOne":        objSchema(nil, obj{"f": refComp("MultipartFile")}),
	"FormDataPropsBFiles":          objSchema(nil, obj{"t": obj{"type": "array", "items": refComp("MultipartFileHeader")}}),
	"PropsBForce":                  objSchema(nil, obj{"a": sInt}),
	"FormDataPropsBForceForm":      objSchema(nil, obj{"a": sInt}),
	"FormDataPropsBForceJS":        objSchema(nil, obj{"a": sInt}),
	"PropsBForceJS":                objSchema(nil, obj{"j": sInt}),
	"FormDataPropsBForceJSForm":    objSchema(nil, obj{"a": sInt}),
	"PropsBForceJSForm":            objSchema(nil, obj{"a": sInt}),
	"FormDataPropsBForceAll":       objSchema(nil, obj{"a": sInt}),
	"PropsBForceAll":               objSchema(nil, obj{"j": sInt}),
	"PropsBRawJSON":                objSchema(nil, obj{"j": sStr}),
	"PropsBRec":                    objSchema(nil, obj{"next": refTo("BRec"), "kids": obj{"type": "array", "items": refTo("BRec")}}),
	"PropsBSlice":                  {"type": "array", "items": refTo("JSONObj")},
	"PropsBEmbed":                  {"type": "array", "items": refTo("JSONObj")},
	"PropsBEmbJSON":                objSchema([]string{"e2"}, obj{"a": sInt, "e2": sStr}),
	"FormDataPropsBEmbForm":        objSchema(nil, obj{"e3": sStr}),
	"PropsBGenInt":                 objSchema(nil, obj{"v": sInt}),
	"PropsBGenVerifMcPropsJSONObj": objSchema(nil, obj{"v": refTo("JSONObj")}),
	"PropsBForm":                   objSchema(nil, nil),
	"DynStruct":                    objSchema(nil, obj{"foo": sInt}),
}

var dyn = jsonschema.Struct{DefName: "DynStruct", Fields: []jsonschema.Field{{Name: "Foo", Value: 1, Tag: `json:"foo"`}}}

var bodyPool = []bodyUnit{
	{v: new(bJSON), json: refTo("BJSON")},
	{v: new(bForm), form: refComp("FormDataPropsBForm"), hasForm: true},
	{v: new(bForm2), form: refComp("FormDataPropsBForm2"), hasForm: true, json: refTo("BForm2")},
	{v: new(bFile), form: refComp("FormDataPropsBFile"), hasForm: true, files: true},
	{v: nil},
	{v: bForce{}, json: refTo("BForce"), enforce: true},
	{v: bForceForm{}, form: refComp("FormDataPropsBForceForm"), hasForm: true, enforce: true},
	{v: bForceJS{}, form: refComp("FormDataPropsBForceJS"), hasForm: true, json: refTo("BForceJS"), enforceJS: true},
	{v: new(bForceJSForm), form: refComp("FormDataPropsBForceJSForm"), hasForm: true, json: refTo("BForceJSForm"), enforceJS: true},
	{v: new(bForceAll), form: refComp("FormDataPropsBForceAll"), hasForm: true, json: refTo("BForceAll"), enforceJS: true, enforce: true},
	{v: bForceNone{}, enforce: true},
	{v: []JSONObj{}, json: obj{"type": "array", "items": refTo("JSONObj")}},
	{v: map[string]JSONObj{}, json: obj{"type": "object", "additionalProperties": refTo("JSONObj")}},
	{v: new([]string), json: nullArr(sStr)},
	{v: bJSON{}, json: refTo("BJSON")},
	{v: bFileOne{}, form: refComp("FormDataPropsBFileOne"), hasForm: true, files: true},
	{v: new(bFiles), form: refComp("FormDataPropsBFiles"), hasForm: true, files: true},
	{v: new(bRaw), raw: []string{"text/csv"}},
	{v: bRaw2{}, raw: []string{"text/plain", "text/html"}},
	{v: bRawJSON{}, raw: []string{"text/csv"}, json: refTo("BRawJSON")},
	{v: bNone{}},
	{v: new(bQuery)},
	{v: new(bRec), json: refTo("BRec")},
	{v: bSlice{}, json: refTo("BSlice")},
	{v: bEmbed{}, json: refTo("BEmbed")},
	{v: new(bEmbJSON), json: refTo("BEmbJSON")},
	{v: bEmbForm{}, form: refComp("FormDataPropsBEmbForm"), hasForm: true},
	{v: bGen[int]{}, json: refTo("BGenInt")},
	{v: new(bGen[JSONObj]), json: refTo("BGenVerifMcPropsJSONObj")},
	{v: "text"},
	{v: 0},
	{v: struct{}{}},
	{v: bDyn{Struct: dyn}, json: refComp("DynStruct")},
	{v: &bDyn{Struct: dyn}, json: refComp("DynStruct")},
	{v: bDynQ{Struct: dyn}, json: refComp("DynStruct")},
}

var cts = []struct{ ct, format string }{{"", ""}, {ctJSON, ""}, {ctForm, ""}, {ctMulti, ""}, {"text/plain", ""}, {"application/octet-stream", "binary"}}

func poolScenario(check bodyCheck, ver string, n int, pool []bodyUnit, methods []string) *engine.Scenario {
	return &engine.Scenario{
		Name:  fmt.Sprintf("%s %d units", ver, n),
		Bound: fmt.Sprintf("all sequences of %d content units: %d structures, 6 content types, description, customization; %d methods", n, len(pool), len(methods)),
		Run: func(c *engine.Ctx) {
			method := engine.Pick(c, "method", methods)
			var units []bodyUnit
			for i := 0; i < n; i++ {
				u := engine.Pick(c, "structure", pool)
				u.desc = fmt.Sprintf("%T", u.v)
				ct := engine.Pick(c, "content type", cts)
				u.contentType, u.format = ct.ct, ct.format
				switch k := c.Choose("options", 4); k {
				case 1:
					u.description = fmt.Sprintf("d%d", i)
				case 2, 3:
					u.customize = k - 1
				}
				if u.customize == 2 && i < n-1 {
					c.Skip() // a reference replaces the body, nothing can follow it
				}
				if len(u.raw) > 0 && !bodyAllowed(method) {
					c.Skip()
				}
				if (u.contentType == ctForm || u.contentType == ctMulti || u.contentType == ctJSON) && u.format != "" {
					c.Skip()
				}
				units = append(units, u)
			}
			check(c, ver, method, units)
		},
	}
}

// ---- generated structures

var bodyTypes = []typeSpec{typeSpecs[0], typeSpecs[1], typeSpecs[2], typeSpecs[3], typeSpecs[11], typeSpecs[12], typeSpecs[13], typeSpecs[14], typeSpecs[19], typeSpecs[20],
	{name: "file", t: tOf(new(multipart.File)).Elem(), schema: refComp("MultipartFile"), kind: "file"},
	{name: "[]*fileheader", t: tOf([]*multipart.FileHeader{}), schema: obj{"type": "array", "items": refComp("MultipartFileHeader")}, kind: "file"},
	{name: "[]JSONObj", t: tOf([]JSONObj{}), schema: nullArr(refTo("JSONObj")), kind: "array"},
	{name: "map[string]JSONObj", t: tOf(map[string]JSONObj{}), schema: obj{"type": arr{"object", "null"}, "additionalProperties": refTo("JSONObj")}, kind: "object"},
	{name: "[2]int", t: tOf([2]int{}), schema: nullArr(sInt), kind: "fixed"},
	{name: "[][]string", t: tOf([][]string{}), schema: nullArr(obj{"type": "array", "items": sStr}), kind: "array"},
}

func bodyTagSets(n string) [][][2]string {
	return [][][2]string{
		{{"json", n}}, {{"formData", n}}, {{"form", n}}, {{"json", n + ",omitempty"}}, {{"query", n}}, {}, {{"json", "-"}}, {{"json", n}, {"query", n}},
		{{"json", n}, {"formData", "f" + n}}, {{"formData", n}, {"form", "g" + n}}, {{"header", n}}, {{"formData", "-"}}, {{"contentType", "text/" + n}},
	}
}

func (t typeSpec) usesJSON() bool { return strings.Contains(t.name, "JSONObj") }

// bodyName tells the name of the property a field has in a body.
func bodyName(f fieldSpec, form bool, mapping map[string]string) (name string, omit, ok bool) {
	if form {
		if n, ok := mapping[f.goName]; ok {
			return n, false, true
		}
		for _, t := range []string{"formData", "form"} {
			if n, ok := f.tag(t); ok && n != "-" {
				return strings.Split(n, ",")[0], strings.Contains(n, ",omitempty"), true
			}
		}
		return "", false, false
	}
	n, ok := f.tag("json")
	if !ok || n == "-" {
		return "", false, false
	}
	return strings.Split(n, ",")[0], strings.Contains(n, ",omitempty"), true
}

// unitOf derives facts of a generated structure.
func unitOf(c *engine.Ctx, fields []fieldSpec, mapping map[string]string) bodyUnit {
	u := bodyUnit{v: makeStruct(fields), desc: fmt.Sprint(fields), mapping: mapping}
	for _, form := range []bool{false, true} {
		props := obj{}
		var req []string
		var all []fieldSpec
		for _, f := range fields {
			if f.embed == nil {
				all = append(all, f)
				continue
			}
			all = append(all, fieldSpec{goName: "E", typ: typeSpecs[0], tags: [][2]string{{"json", "e"}}}, fieldSpec{goName: "F", typ: typeSpecs[0], tags: [][2]string{{"formData", "f"}}})
		}
		for _, f := range all {
			name, omit, ok := bodyName(f, form, mapping)
			if !ok {
				continue
			}
			if props[name] != nil {
				c.Skip() // two fields with one name
			}
			for _, t := range []string{"formData", "form"} {
				if n, tagged := f.tag(t); tagged && n != "-" && form {
					u.hasForm = true
				}
			}
			if form && f.typ.usesJSON() {
				c.Skip() // see P10
			}
			if f.typ.kind == "file" {
				if !form {
					c.Skip()
				}
				u.files = true
			}
			props[name] = fieldSchema(f, omit)
			for _, m := range f.mods {
				if m.tag == "required" && m.val == "true" {
					req = append(req, name)
				}
			}
		}
		s := objSchema(req, props)
		switch {
		case form && (u.hasForm || len(mapping) > 0):
			u.form = s
		case !form && len(props) > 0:
			u.json = s
		}
	}
	for _, f := range fields {
		if ct, ok := f.tag("contentType"); ok {
			u.raw = append(u.raw, ct)
		}
		// A field that is left out of the form still has the tag.
		for _, t := range []string{"formData", "form"} {
			if n, ok := f.tag(t); ok && n == "-" && !u.hasForm && u.json != nil {
				c.Skip()
			}
		}
	}
	return u
}

func generatedScenario(check bodyCheck, ver string, n int, types []typeSpec, mods []modSpec, maxMods int, methods []string) *engine.Scenario {
	return &engine.Scenario{
		Name:  fmt.Sprintf("%s %d fields", ver, n),
		Bound: fmt.Sprintf("all structures of %d fields: %d types, 13 sets of name tags or embedding, up to %d of %d modifiers, form mapping, 4 content types, %d methods", n, len(types), maxMods, len(mods), len(methods)),
		Run: func(c *engine.Ctx) {
			method := engine.Pick(c, "method", methods)
			var fields []fieldSpec
			emb := false
			for i := 0; i < n; i++ {
				f := fieldSpec{goName: fmt.Sprintf("F%d", i)}
				k := c.Choose("form", 13+2)
				if k >= 13 {
					if emb {
						c.Skip()
					}
					emb = true
					f.embed = []reflect.Type{tOf(BEmbedded{}), tOf(&BEmbedded{})}[k-13]
				} else {
					f.tags = bodyTagSets(fmt.Sprintf("n%d", i))[k]
					f.typ = engine.Pick(c, "type", types)
					if _, raw := f.tag("contentType"); raw && (f.typ.name != "string" || !bodyAllowed(method)) {
						c.Skip()
					}
					if _, hdr := f.tag("header"); hdr && f.typ.name != "string" {
						c.Skip()
					}
					if _, q := f.tag("query"); q && f.typ.kind == "file" {
						c.Skip()
					}
					if f.typ.kind != "file" {
						f.mods = chooseMods(c, f.typ, maxMods, mods)
					}
				}
				fields = append(fields, f)
			}
			var mapping map[string]string
			if k := c.Choose("mapping", n+1); k > 0 && fields[k-1].embed == nil {
				mapping = map[string]string{fields[k-1].goName: "mapped"}
			}
			u := unitOf(c, fields, mapping)
			u.contentType = []string{"", ctJSON, ctForm, "text/plain"}[c.Choose("content type", 4)]
			check(c, ver, method, []bodyUnit{u})
		},
	}
}

func init() {
	register(&Property{ID: "P08", Scenarios: func(tier string) (res []*engine.Scenario) {
		all := []string{"POST", "GET", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "TRACE"}
		few := []string{"POST", "GET"}
		for _, ver := range versions {
			loose := 2
			if tier == "thorough" {
				loose = 3
			}
			res = append(res, looseScenario(ver, loose, false))
			res = append(res, poolScenario(checkBody, ver, 1, bodyPool, all))
			if tier == "thorough" {
				res = append(res, poolScenario(checkBody, ver, 2, bodyPool, all), poolScenario(checkBody, ver, 3, bodyPool[:8], few), generatedScenario(checkBody, ver, 1, bodyTypes, modSpecs, 3, all), generatedScenario(checkBody, ver, 2, bodyTypes, modSpecs[:8], 1, few), generatedScenario(checkBody, ver, 3, bodyTypes[:2], modSpecs[:1], 1, few))
			} else {
				res = append(res, poolScenario(checkBody, ver, 2, bodyPool[:14], few), generatedScenario(checkBody, ver, 1, bodyTypes, modSpecs, 1, all), generatedScenario(checkBody, ver, 2, []typeSpec{bodyTypes[0], bodyTypes[2], bodyTypes[8], bodyTypes[10]}, modSpecs[:1], 1, few))
			}
		}
		return res
	}})
}
