package props

import (
	"fmt"
	"net/http"
	"reflect"
	"strconv"
	"strings"

	"github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"
	"verif/mc/engine"
)

// P09: responses.

type (
	rBody struct {
		A int    `json:"a" required:"true"`
		H string `header:"X-H" json:"-"`
	}
	rHdr struct {
		H string `header:"X-H" description:"dH"`
		N int    `header:"X-N" required:"true"`
	}
	rHdr2 struct {
		H int      `header:"X-H" deprecated:"true"`
		L []string `header:"X-L,omitempty"`
	}
	rDesc struct {
		A int `json:"a"`
	}
	rDescHdr struct {
		H string `header:"X-D"`
	}
	// RCommon is embedded.
	RCommon struct {
		Trace string `header:"X-Trace" json:"-"`
		Code  int    `json:"code"`
	}
	rEmb struct {
		RCommon
		B string `json:"b,omitempty"`
	}
	rRaw struct {
		H string `header:"X-R" json:"-"`
		R []byte `contentType:"text/csv" json:"-"`
	}
	rNone struct{ A int }
)

// Description of a response.
func (rDesc) Description() string { return "described" }

// Description of a response without body.
func (rDescHdr) Description() string { return "described headers" }

func init() {
	for k, v := range map[string]obj{
		"PropsRBody":     objSchema([]string{"a"}, obj{"a": sInt}),
		"PropsRDesc":     {"type": "object", "properties": obj{"a": sInt}, "description": "described"},
		"PropsRMetaBody": {"type": "object", "title": "titled", "description": "meta", "properties": obj{"j": sInt}},
		"PropsREmb":      objSchema(nil, obj{"code": sInt, "b": sStr}),
	} {
		bodyComponents[k] = v
	}
}

// respUnit is a content unit of a response with the facts the model needs.
type respUnit struct {
	desc       string
	v          interface{}
	json       obj
	headers    map[string]obj // dialect of 3.1
	fieldNames map[string]string
	raw        []string
	schemaDesc string // description of the body schema
	hdrDesc    string // description of the structure when there is no body

	status      int
	isDefault   bool
	contentType string
	format      string
	description string
	mapping     map[string]string
	customize   int
}

func (u respUnit) String() string {
	return fmt.Sprintf("{%s status=%d default=%v ct=%q format=%q description=%q mapping=%v customize=%d}", u.desc, u.status, u.isDefault, u.contentType, u.format, u.description, u.mapping, u.customize)
}

func (u respUnit) addTo(oc openapi.OperationContext) {
	var opts []openapi.ContentOption
	if u.contentType != "" {
		opts = append(opts, openapi.WithContentType(u.contentType))
	}
	switch u.customize {
	case 1:
		opts = append(opts, openapi.WithCustomize(customizer(1)))
	case 2:
		opts = append(opts, openapi.WithReference("#/components/responses/R"))
	}
	if u.status != 0 {
		opts = append(opts, openapi.WithHTTPStatus(u.status))
	}
	opts = append(opts, func(cu *openapi.ContentUnit) {
		cu.Format = u.format
		cu.Description = u.description
		cu.IsDefault = u.isDefault
		if len(u.mapping) > 0 {
			cu.SetFieldMapping(openapi.InHeader, u.mapping)
		}
	})
	oc.AddRespStructure(u.v, opts...)
}

func (u respUnit) key() string {
	switch {
	case u.isDefault:
		return "default"
	case u.status == 0:
		return "200"
	case u.status < 6:
		return strconv.Itoa(u.status) + "XX"
	}
	return strconv.Itoa(u.status)
}

type respModel struct {
	description string
	content     map[string]obj // media types
	headers     map[string]obj
	ref         bool
}

// hdrDoc is the header object of a header model in a version.
func hdrDoc(ver string, h obj) obj {
	r := obj{}
	for k, v := range h {
		if k == "schema" {
			v = inDialect(ver, v)
		}
		if ver == "3.1" && (k == "allowEmptyValue" || k == "allowReserved") {
			continue
		}
		r[k] = v
	}
	return r
}

func expectResponses(ver, method string, units []respUnit, preset map[string]*respModel) map[string]*respModel {
	res := map[string]*respModel{}
	for k, v := range preset {
		m := &respModel{description: v.description, content: map[string]obj{}, headers: map[string]obj{}}
		for n, x := range v.content {
			m.content[n] = clone(x).(obj)
		}
		for n, x := range v.headers {
			m.headers[n] = x
		}
		res[k] = m
	}
	for _, u := range units {
		r := res[u.key()]
		if r == nil {
			r = &respModel{content: map[string]obj{}, headers: map[string]obj{}}
			res[u.key()] = r
		}
		r.ref = false
		ct := strings.Split(u.contentType, ";")[0]
		if method != "HEAD" {
			if u.json != nil {
				t := ct
				if t == "" {
					t = ctJSON
				}
				m := r.content[t]
				if m == nil {
					m = obj{}
				}
				s := clone(u.json).(obj)
				if ver == "3.0" {
					s = dialect30(s).(obj)
					delete(s, "nullable")
				}
				m["schema"] = s
				r.content[t] = m
				if r.description == "" {
					r.description = u.schemaDesc
				}
			}
			str := func(t, format string) {
				if r.content[t] == nil {
					s := obj{"type": "string"}
					if format != "" {
						s["format"] = format
					}
					r.content[t] = obj{"schema": s}
				}
			}
			for _, t := range u.raw {
				str(t, "")
			}
			if ct != "" {
				str(ct, u.format)
			}
		}
		for n, h := range u.headers {
			f := u.fieldNames[n]
			if m, ok := u.mapping[f]; ok {
				n = m
			}
			r.headers[n] = hdrDoc(ver, h)
		}
		if r.description == "" {
			r.description = u.hdrDesc
		}
		if u.description != "" {
			r.description = u.description
		}
		if r.description == "" {
			s := u.status
			if s == 0 && !u.isDefault {
				s = 200
			}
			r.description = http.StatusText(s)
		}
		switch u.customize {
		case 1:
			r.description = "customized"
		case 2:
			r.ref = true
		}
	}
	return res
}

// presetResponse is what a user may have put to the operation before.
var presetModels = map[string]*respModel{"201": {description: "preset", content: map[string]obj{ctJSON: {"example": "E"}, "text/preset": {"schema": obj{"type": "string"}}}, headers: map[string]obj{"X-P": {"description": "P"}}}}

func presetResponses(oc openapi.OperationContext) {
	ex := interface{}("E")
	d := "P"
	switch x := oc.(type) {
	case openapi3.OperationExposer:
		r := openapi3.Response{Description: "preset"}
		r.WithContentItem(ctJSON, openapi3.MediaType{Example: &ex})
		r.WithContentItem("text/preset", openapi3.MediaType{Schema: &openapi3.SchemaOrRef{Schema: (&openapi3.Schema{}).WithType(openapi3.SchemaTypeString)}})
		r.WithHeadersItem("X-P", openapi3.HeaderOrRef{Header: &openapi3.Header{Description: &d}})
		x.Operation().Responses.WithMapOfResponseOrRefValuesItem("201", openapi3.ResponseOrRef{Response: &r})
	case openapi31.OperationExposer:
		r := openapi31.Response{Description: "preset"}
		r.WithContentItem(ctJSON, openapi31.MediaType{Example: &ex})
		r.WithContentItem("text/preset", openapi31.MediaType{Schema: obj{"type": "string"}})
		r.WithHeadersItem("X-P", openapi31.HeaderOrReference{Header: &openapi31.Header{Description: &d}})
		x.Operation().ResponsesEns().WithMapOfResponseOrReferenceValuesItem("201", openapi31.ResponseOrReference{Response: &r})
	}
}

// respCheck decides a property of an operation with responses.
type respCheck func(c *engine.Ctx, ver, method string, units []respUnit, preset bool)

func checkResponses(c *engine.Ctx, ver, method string, units []respUnit, withPreset bool) {
	a := newAPI(ver)
	oc, err := a.refl().NewOperationContext(method, "/p")
	if err != nil {
		c.Failf("context", "%v", err)
	}
	var preset map[string]*respModel
	if withPreset {
		presetResponses(oc)
		preset = presetModels
	}
	for _, u := range units {
		u.addTo(oc)
	}
	c.Step(1)
	err = a.refl().AddOperation(oc)
	c.Logf("%s %s preset=%v %v -> %v", ver, method, withPreset, units, err)
	if err != nil {
		c.Failf("add", "%s %s %v: %v", ver, method, units, err)
	}
	d, b, err := docOf(a.spec())
	if err != nil {
		c.Failf("save", "%v", err)
	}
	c.StateBytes(b)
	want := obj{}
	for k, r := range expectResponses(ver, method, units, preset) {
		if r.ref {
			want[k] = obj{"$ref": "#/components/responses/R"}
			continue
		}
		o := obj{"description": r.description}
		if len(r.content) > 0 {
			cont := obj{}
			for n, m := range r.content {
				cont[n] = m
			}
			o["content"] = cont
		}
		if len(r.headers) > 0 {
			h := obj{}
			for n, m := range r.headers {
				h[n] = m
			}
			o["headers"] = h
		}
		want[k] = o
	}
	if len(want) == 0 {
		want["204"] = obj{"description": "No Content"}
	}
	op := sub(d, "paths", "/p", strings.ToLower(method))
	for _, r := range sub(op, "responses") {
		for _, h := range sub(r, "headers") {
			if h, ok := h.(obj); ok && h["style"] == "simple" {
				delete(h, "style") // the default may be spelled out
			}
		}
	}
	if x := jsonDiff("#", canon(norm(want)), canon(op["responses"])); x != "" {
		c.Failf("responses "+ver, "%s %s preset=%v %v: responses: %s\nwant %s\ngot  %s", ver, method, withPreset, units, x, js(want), js(op["responses"]))
	}
	checkComponents(c, ver, d, op["responses"], b)
	c.Outcome(js(op["responses"]))
}

func hdr(s obj, kv ...interface{}) obj {
	h := obj{"schema": s}
	for i := 0; i < len(kv); i += 2 {
		h[kv[i].(string)] = kv[i+1]
	}
	return h
}

var respPool = []respUnit{
	{v: new(rBody), json: refTo("RBody"), headers: map[string]obj{"X-H": hdr(sStr)}, fieldNames: map[string]string{"X-H": "H"}},
	{v: nil},
	{v: rHdr{}, headers: map[string]obj{"X-H": hdr(obj{"type": "string", "description": "dH"}, "description", "dH"), "X-N": hdr(sInt, "required", true)}, fieldNames: map[string]string{"X-H": "H", "X-N": "N"}},
	{v: new(rHdr2), headers: map[string]obj{"X-H": hdr(obj{"type": "integer", "deprecated": true}, "deprecated", true), "X-L": hdr(obj{"type": "array", "items": sStr})}, fieldNames: map[string]string{"X-H": "H", "X-L": "L"}},
	{v: rDesc{}, json: refTo("RDesc"), hdrDesc: "described"},
	{v: new(rRaw), raw: []string{"text/csv"}, headers: map[string]obj{"X-R": hdr(sStr)}, fieldNames: map[string]string{"X-R": "H"}},
	{v: []JSONObj{}, json: obj{"type": "array", "items": refTo("JSONObj")}},
	{v: rDescHdr{}, headers: map[string]obj{"X-D": hdr(sStr)}, fieldNames: map[string]string{"X-D": "H"}, hdrDesc: "described headers"},
	{v: rEmb{}, json: refTo("REmb"), headers: map[string]obj{"X-Trace": hdr(sStr)}, fieldNames: map[string]string{"X-Trace": "Trace"}},
	{v: new(JSONObj), json: refTo("JSONObj")},
	{v: map[string]JSONObj{}, json: obj{"type": "object", "additionalProperties": refTo("JSONObj")}},
	{v: "", json: sStr},
	{v: 0, json: sInt},
	{v: new([]string), json: nullArr(sStr)},
	{v: EnumT(""), json: refTo("EnumT")},
	{v: struct{}{}},
	{v: new(rNone)},
	{v: bRec{}, json: refTo("BRec")},
	{v: bDyn{Struct: dyn}, json: refComp("DynStruct")},
	{v: jsonschema.OneOf(JSONObj{}, bForce{}), json: obj{"oneOf": arr{refTo("JSONObj"), refTo("BForce")}}},
	{v: bGen[JSONObj]{}, json: refTo("BGenVerifMcPropsJSONObj")},
	{v: bSlice{}, json: refTo("BSlice")},
	{v: rTitle{}, headers: map[string]obj{"X-T": hdr(sStr)}, fieldNames: map[string]string{"X-T": "T"}},
	{v: new(rMeta), headers: map[string]obj{"X-M": hdr(sStr)}, fieldNames: map[string]string{"X-M": "M"}, hdrDesc: "meta"},
	{v: rComment{}},
	{v: new(interface{})},
	{v: rMetaBody{}, json: refTo("RMetaBody"), hdrDesc: "meta"},
}

// Titles, comments, examples and so on do not make a body.
type (
	rTitle struct {
		T string `header:"X-T"`
	}
	rMeta struct {
		M string `header:"X-M"`
	}
	rComment  struct{}
	rMetaBody struct {
		J int `json:"j"`
	}
)

func (rTitle) Title() string { return "titled" }

func prepareMeta(s *jsonschema.Schema) error {
	s.WithTitle("meta title").WithDescription("meta").WithComment("c").WithID("urn:x").WithExamples(obj{}).WithExtraPropertiesItem("x-a", 1)
	return nil
}

func (rMeta) PrepareJSONSchema(s *jsonschema.Schema) error { return prepareMeta(s) }

func (rComment) PrepareJSONSchema(s *jsonschema.Schema) error {
	s.WithComment("c")
	return nil
}

func (rMetaBody) Title() string { return "titled" }

func (rMetaBody) Description() string { return "meta" }

type respStatus struct {
	st  int
	def bool
}

var statuses = []respStatus{{0, false}, {201, false}, {0, true}, {2, false}, {404, false}, {5, false}, {204, false}, {599, false}, {1, false}, {404, true}}

var respCTs = []struct{ ct, format string }{{"", ""}, {ctJSON, ""}, {"text/plain", ""}, {"application/xml; charset=utf-8", ""}, {"application/octet-stream", "binary"}, {"text/csv; charset=utf-8; header=present", ""}}

// respSameScenario has all units under the same key.
func respSameScenario(check respCheck, ver string, n int, pool []respUnit, nct int, methods []string) *engine.Scenario {
	s := respPoolScenario(check, ver, n, pool, len(statuses), nct, methods)
	s.Name = fmt.Sprintf("%s %d units same status", ver, n)
	s.Bound += "; all units with the same status"
	return s
}

func respPoolScenario(check respCheck, ver string, n int, pool []respUnit, nst, nct int, methods []string) *engine.Scenario {
	same := nst == len(statuses) && n > 1
	return &engine.Scenario{
		Name:  fmt.Sprintf("%s %d units", ver, n),
		Bound: fmt.Sprintf("all sequences of %d response units: %d structures, %d statuses, %d content types, description, customization, header mapping, preset response; methods %v", n, len(pool), nst, nct, methods),
		Run: func(c *engine.Ctx) {
			method := engine.Pick(c, "method", methods)
			preset := c.Bool("preset")
			var units []respUnit
			for i := 0; i < n; i++ {
				u := engine.Pick(c, "structure", pool)
				u.desc = fmt.Sprintf("%T", u.v)
				ct := engine.Pick(c, "content type", respCTs[:nct])
				u.contentType, u.format = ct.ct, ct.format
				var st respStatus
				if same && i > 0 {
					st = respStatus{units[0].status, units[0].isDefault}
				} else {
					st = engine.Pick(c, "status", statuses[:nst])
				}
				u.status, u.isDefault = st.st, st.def
				switch k := c.Choose("options", 5); k {
				case 1:
					u.description = fmt.Sprintf("d%d", i)
				case 2, 3:
					u.customize = k - 1
				case 4:
					if u.fieldNames == nil {
						c.Skip()
					}
					u.mapping = map[string]string{"H": "X-Mapped", "N": "X-Mapped2", "Trace": "X-Mapped3"}
				}
				for _, p := range units {
					if p.key() == u.key() && p.customize == 2 {
						c.Skip() // nothing can be added to a reference
					}
				}
				units = append(units, u)
			}
			check(c, ver, method, units, preset)
		},
	}
}

var respTypes = []typeSpec{typeSpecs[0], typeSpecs[1], typeSpecs[2], typeSpecs[3], typeSpecs[4], typeSpecs[5], typeSpecs[10], typeSpecs[12],
	{name: "EnumT", t: tOf(EnumT("")), schema: refTo("EnumT"), kind: "ref"}, typeSpecs[14]}

func respTagSets(n string) [][][2]string {
	return [][][2]string{
		{{"json", n}}, {{"header", "X-" + n}}, {{"header", "X-" + n}, {"json", "-"}}, {{"json", n}, {"header", "X-" + n}}, {{"json", n + ",omitempty"}}, {{"header", "X-" + n + ",omitempty"}},
		{}, {{"json", "-"}}, {{"header", "-"}}, {{"query", n}}, {{"formData", n}}, {{"contentType", "text/" + n}},
	}
}

// respUnitOf derives facts of a generated structure.
func respUnitOf(c *engine.Ctx, ver string, fields []fieldSpec, mapping map[string]string) respUnit {
	u := respUnit{v: makeStruct(fields), desc: fmt.Sprint(fields), mapping: mapping, headers: map[string]obj{}}
	props := obj{}
	var req []string
	for _, f := range fields {
		if f.embed != nil {
			props["code"] = sInt
			u.headers["X-Trace"] = hdr(sStr)
			continue
		}
		if ct, ok := f.tag("contentType"); ok {
			u.raw = append(u.raw, ct)
		}
		if name, omit, ok := bodyName(f, false, nil); ok {
			props[name] = fieldSchema(f, omit)
			for _, m := range f.mods {
				if m.tag == "required" && m.val == "true" {
					req = append(req, name)
				}
			}
		}
		name, ok := f.tag("header")
		omit := strings.Contains(name, ",omitempty")
		name = strings.TrimSuffix(name, ",omitempty")
		if m, mok := mapping[f.goName]; mok {
			name, ok, omit = m, true, false
		}
		if !ok || name == "-" {
			continue
		}
		s := fieldSchema(f, omit)
		if f.typ.kind == "ref" {
			s = clone(components["Props"+f.typ.name]).(obj)
		}
		h := hdr(s)
		for _, m := range f.mods {
			if m.param != nil && (m.tag == "required" || m.tag == "description" || m.tag == "deprecated" || m.tag == "explode" || m.tag == "allowEmptyValue" || m.tag == "allowReserved") {
				m.param(ver, "header", h)
			}
		}
		u.headers[name] = h
	}
	u.mapping = mapping
	u.fieldNames = map[string]string{}
	if len(props) > 0 {
		u.json = objSchema(req, props)
	}
	return u
}

func respGenerated(check respCheck, ver string, n int, types []typeSpec, mods []modSpec, maxMods int) *engine.Scenario {
	return &engine.Scenario{
		Name:  fmt.Sprintf("%s %d fields", ver, n),
		Bound: fmt.Sprintf("all response structures of %d fields: %d types, 12 sets of name tags or embedding, up to %d of %d modifiers, header mapping, 3 content types, GET and HEAD", n, len(types), maxMods, len(mods)),
		Run: func(c *engine.Ctx) {
			method := engine.Pick(c, "method", []string{"GET", "HEAD"})
			var fields []fieldSpec
			emb := false
			for i := 0; i < n; i++ {
				f := fieldSpec{goName: fmt.Sprintf("F%d", i)}
				k := c.Choose("form", 12+2)
				if k >= 12 {
					if emb {
						c.Skip()
					}
					emb = true
					f.embed = []reflect.Type{tOf(RCommon{}), tOf(&RCommon{})}[k-12]
				} else {
					f.tags = respTagSets(fmt.Sprintf("n%d", i))[k]
					f.typ = engine.Pick(c, "type", types)
					if _, raw := f.tag("contentType"); raw && f.typ.name != "string" {
						c.Skip()
					}
					f.mods = chooseMods(c, f.typ, maxMods, mods)
				}
				fields = append(fields, f)
			}
			var mapping map[string]string
			if k := c.Choose("mapping", n+1); k > 0 {
				if fields[k-1].embed != nil {
					c.Skip()
				}
				mapping = map[string]string{fields[k-1].goName: "X-Mapped"}
			}
			u := respUnitOf(c, ver, fields, mapping)
			u.contentType = []string{"", "application/xml", "text/n0"}[c.Choose("content type", 3)]
			if u.contentType == "text/n0" && len(u.raw) > 0 && u.json != nil {
				c.Skip() // one media type is described twice
			}
			u.status = 200
			check(c, ver, method, []respUnit{u}, false)
		},
	}
}

func init() {
	register(&Property{ID: "P09", Scenarios: func(tier string) (res []*engine.Scenario) {
		all := []string{"GET", "HEAD", "POST", "DELETE"}
		few := []string{"GET", "HEAD"}
		for _, ver := range versions {
			loose := 2
			if tier == "thorough" {
				loose = 3
			}
			res = append(res, looseScenario(ver, loose, true))
			res = append(res, respPoolScenario(checkResponses, ver, 1, respPool, len(statuses), len(respCTs), all))
			if tier == "thorough" {
				res = append(res, respPoolScenario(checkResponses, ver, 2, respPool, 5, len(respCTs), few), respPoolScenario(checkResponses, ver, 3, respPool[:5], 2, 2, few), respSameScenario(checkResponses, ver, 2, respPool, len(respCTs), few), respSameScenario(checkResponses, ver, 3, respPool[:4], 2, few), respGenerated(checkResponses, ver, 1, respTypes, modSpecs, 3), respGenerated(checkResponses, ver, 2, respTypes, modSpecs[:8], 1), respGenerated(checkResponses, ver, 3, respTypes[:2], modSpecs[:1], 1))
			} else {
				res = append(res, respPoolScenario(checkResponses, ver, 2, respPool[:6], 3, 2, few), respSameScenario(checkResponses, ver, 2, respPool[:4], 2, few), respGenerated(checkResponses, ver, 1, respTypes, modSpecs, 2), respGenerated(checkResponses, ver, 2, []typeSpec{respTypes[0], respTypes[2], respTypes[8]}, modSpecs[:1], 1))
			}
		}
		return res
	}})
}
