package props

import (
	"encoding/json"
	"fmt"
	"mime/multipart"
	"reflect"
	"sort"
	"strings"
	"time"

	"verif/mc/engine"
)

// Universe of named types. The name of a component is "Props" + name of the type.

type (
	EnumT string
	DeepQ struct {
		A int    `query:"a"`
		B string `query:"b,omitempty"`
	}
	DeepH struct {
		A int `header:"a"`
	}
	DeepC struct {
		A int `cookie:"a"`
	}
	JSONObj struct {
		A int    `json:"a"`
		B string `json:"b"`
	}
	Named int
	EmbA  struct {
		EA string `query:"ea"`
		EH string `header:"eh"`
		EJ string `json:"ej"`
	}
	EmbB struct {
		EB int `query:"eb" required:"true"`
		EmbInner
	}
	EmbInner struct {
		EI bool `query:"ei"`
	}
)

// Enum lists values.
func (EnumT) Enum() []interface{} { return []interface{}{"x", "y"} }

// typeSpec is a type of a field with its JSON schema in the dialect of OpenAPI 3.1.
type typeSpec struct {
	name   string
	t      reflect.Type
	schema obj
	kind   string // string, number, integer, boolean, array, object, ref, json, any
	in     string // only in this location
	ptr    bool
}

func tOf(v interface{}) reflect.Type { return reflect.TypeOf(v) }

var anyType = reflect.TypeOf((*interface{})(nil)).Elem()

func refTo(name string) obj { return obj{"$ref": "#/components/schemas/Props" + name} }

var typeSpecs = []typeSpec{
	{name: "string", t: tOf(""), schema: obj{"type": "string"}, kind: "string"},
	{name: "int", t: tOf(0), schema: obj{"type": "integer"}, kind: "integer"},
	{name: "[]string", t: tOf([]string{}), schema: obj{"type": arr{"array", "null"}, "items": obj{"type": "string"}}, kind: "array"},
	{name: "*string", t: tOf(new(string)), schema: obj{"type": arr{"string", "null"}}, kind: "string", ptr: true},
	{name: "bool", t: tOf(false), schema: obj{"type": "boolean"}, kind: "boolean"},
	{name: "int64", t: tOf(int64(0)), schema: obj{"type": "integer", "format": "int64"}, kind: "integer"},
	{name: "int32", t: tOf(int32(0)), schema: obj{"type": "integer", "format": "int32"}, kind: "integer"},
	{name: "uint", t: tOf(uint(0)), schema: obj{"type": "integer", "minimum": 0}, kind: "integer"},
	{name: "float32", t: tOf(float32(0)), schema: obj{"type": "number", "format": "float"}, kind: "number"},
	{name: "*bool", t: tOf(new(bool)), schema: obj{"type": arr{"boolean", "null"}}, kind: "boolean", ptr: true},
	{name: "[]int64", t: tOf([]int64{}), schema: obj{"type": arr{"array", "null"}, "items": obj{"type": "integer", "format": "int64"}}, kind: "array"},
	{name: "map", t: tOf(map[string]int{}), schema: obj{"type": arr{"object", "null"}, "additionalProperties": obj{"type": "integer"}}, kind: "object"},
	{name: "time", t: tOf(time.Time{}), schema: obj{"type": "string", "format": "date-time"}, kind: "string"},
	{name: "EnumT", t: tOf(EnumT("")), schema: refTo("EnumT"), kind: "ref"},
	{name: "Named", t: tOf(Named(0)), schema: obj{"type": "integer"}, kind: "integer"},
	{name: "DeepQ", t: tOf(DeepQ{}), schema: refTo("DeepQ"), kind: "objref", in: "query"},
	{name: "*DeepQ", t: tOf(new(DeepQ)), schema: refTo("DeepQ"), kind: "objref", in: "query", ptr: true},
	{name: "DeepH", t: tOf(DeepH{}), schema: refTo("DeepH"), kind: "objref", in: "header"},
	{name: "DeepC", t: tOf(DeepC{}), schema: refTo("DeepC"), kind: "objref", in: "cookie"},
	{name: "JSONObj", t: tOf(JSONObj{}), schema: refTo("JSONObj"), kind: "json"},
	{name: "*JSONObj", t: tOf(new(JSONObj)), schema: refTo("JSONObj"), kind: "json", ptr: true},
	{name: "any", t: anyType, schema: obj{}, kind: "any"},
}

// components are schemas of the named types in the dialect of OpenAPI 3.1.
var components = map[string]obj{
	"PropsEnumT":   {"type": "string", "enum": arr{"x", "y"}},
	"PropsDeepQ":   {"type": "object", "properties": obj{"a": obj{"type": "integer"}, "b": obj{"type": "string"}}},
	"PropsDeepH":   {"type": "object", "properties": obj{"a": obj{"type": "integer"}}},
	"PropsDeepC":   {"type": "object", "properties": obj{"a": obj{"type": "integer"}}},
	"PropsJSONObj": {"type": "object", "properties": obj{"a": obj{"type": "integer"}, "b": obj{"type": "string"}}},
}

// modSpec is a modifier tag with its effect on the schema (3.1 dialect) and the parameter.
type modSpec struct {
	tag    string // name of the tag
	val    string
	kinds  string // kinds of types it applies to, space separated; "*" for all inline ones, "**" for all
	schema func(t typeSpec, s obj)
	param  func(ver, in string, p obj)
}

func setSchema(k string, v interface{}) func(typeSpec, obj) {
	return func(_ typeSpec, s obj) { s[k] = v }
}

func typedVal(kind string) (string, interface{}) {
	switch kind {
	case "integer":
		return "7", 7
	case "number":
		return "7.5", 7.5
	case "boolean":
		return "true", true
	}
	return "v", "v"
}

func setParam(kv ...interface{}) func(string, string, obj) {
	return func(_, _ string, p obj) {
		for i := 0; i < len(kv); i += 2 {
			p[kv[i].(string)] = kv[i+1]
		}
	}
}

var modSpecs = []modSpec{
	{tag: "required", val: "true", kinds: "**", param: func(_, in string, p obj) { p["required"] = true }},
	{tag: "required", val: "false", kinds: "**", param: func(_, in string, p obj) { p["required"] = in == "path" }},
	{tag: "description", val: "D é", kinds: "*", schema: setSchema("description", "D é"), param: setParam("description", "D é")},
	{tag: "deprecated", val: "true", kinds: "*", schema: setSchema("deprecated", true), param: setParam("deprecated", true)},
	{tag: "title", val: "T", kinds: "*", schema: setSchema("title", "T")},
	{tag: "format", val: "uri", kinds: "string", schema: setSchema("format", "uri")},
	{tag: "pattern", val: "^a", kinds: "string", schema: setSchema("pattern", "^a")},
	{tag: "minLength", val: "2", kinds: "string", schema: setSchema("minLength", 2)},
	{tag: "maxLength", val: "3", kinds: "string", schema: setSchema("maxLength", 3)},
	{tag: "minimum", val: "-2", kinds: "integer number", schema: setSchema("minimum", -2)},
	{tag: "maximum", val: "9", kinds: "integer number", schema: setSchema("maximum", 9)},
	{tag: "multipleOf", val: "3", kinds: "integer number", schema: setSchema("multipleOf", 3)},
	{tag: "minItems", val: "1", kinds: "array", schema: setSchema("minItems", 1)},
	{tag: "uniqueItems", val: "true", kinds: "array", schema: setSchema("uniqueItems", true)},
	{tag: "readOnly", val: "true", kinds: "*", schema: setSchema("readOnly", true)},
	{tag: "default", val: "v", kinds: "string", schema: setSchema("default", "v")},
	{tag: "default", val: "7", kinds: "integer", schema: setSchema("default", 7)},
	{tag: "default", val: "true", kinds: "boolean", schema: setSchema("default", true)},
	{tag: "example", val: "v", kinds: "string", schema: setSchema("examples", arr{"v"})},
	{tag: "example", val: "7", kinds: "integer", schema: setSchema("examples", arr{7})},
	{tag: "enum", val: "a,b", kinds: "string", schema: setSchema("enum", arr{"a", "b"})},
	{tag: "explode", val: "false", kinds: "string array", param: setParam("explode", false)},
	{tag: "allowEmptyValue", val: "true", kinds: "**", param: setParam("allowEmptyValue", true)},
	{tag: "allowReserved", val: "true", kinds: "**", param: setParam("allowReserved", true)},
	{tag: "collectionFormat", val: "csv", kinds: "array", param: setParam("style", "form", "explode", false)},
	{tag: "collectionFormat", val: "ssv", kinds: "array", param: setParam("style", "spaceDelimited", "explode", false)},
	{tag: "collectionFormat", val: "pipes", kinds: "array", param: setParam("style", "pipeDelimited", "explode", false)},
	{tag: "collectionFormat", val: "multi", kinds: "array", param: setParam("style", "form", "explode", true)},
	{tag: "collectionFormat", val: "json", kinds: "array object json"},
	{tag: "nullable", val: "false", kinds: "string array", schema: func(t typeSpec, s obj) { s["type"] = without(s["type"], "null") }},
}

func without(t interface{}, x string) interface{} {
	a, ok := t.(arr)
	if !ok {
		return t
	}
	r := arr{}
	for _, e := range a {
		if e != x {
			r = append(r, e)
		}
	}
	if len(r) == 1 {
		return r[0]
	}
	return r
}

func (m modSpec) applies(t typeSpec) bool {
	switch m.kinds {
	case "**":
		return true
	case "*":
		return t.kind != "ref" && t.kind != "objref" && t.kind != "json"
	}
	for _, k := range strings.Fields(m.kinds) {
		if k == t.kind {
			return true
		}
	}
	return false
}

// dialect30 converts a JSON schema in the dialect of 3.1 to the dialect of 3.0.
func dialect30(v interface{}) interface{} {
	s, ok := v.(obj)
	if !ok {
		return v
	}
	if r, ok := s["$ref"]; ok {
		return obj{"$ref": r}
	}
	res := obj{}
	for k, x := range s {
		switch k {
		case "type":
			ts, ok := x.(arr)
			if !ok {
				res[k] = x
				continue
			}
			for _, t := range ts {
				if t == "null" {
					res["nullable"] = true
				} else {
					res[k] = t
				}
			}
		case "examples":
			res["example"] = x.(arr)[0]
		case "exclusiveMinimum":
			res["minimum"], res[k] = x, true
		case "exclusiveMaximum":
			res["maximum"], res[k] = x, true
		case "contentMediaType", "const":
		case "additionalProperties":
			res[k] = dialect30(x)
		case "items", "not":
			res[k] = dialect30(debool(x))
		case "properties":
			m := obj{}
			for n, e := range x.(obj) {
				m[n] = dialect30(debool(e))
			}
			res[k] = m
		case "allOf", "oneOf", "anyOf":
			a := arr{}
			for _, e := range x.(arr) {
				a = append(a, dialect30(debool(e)))
			}
			res[k] = a
		default:
			res[k] = x
		}
	}
	return res
}

// debool replaces a boolean schema with an object.
func debool(v interface{}) interface{} {
	switch v {
	case true:
		return obj{}
	case false:
		return obj{"not": obj{}}
	}
	return v
}

// canon makes types and required lists comparable as sets.
func canon(v interface{}) interface{} {
	switch x := v.(type) {
	case obj:
		m := obj{}
		for k, e := range x {
			if a, ok := e.(arr); ok && (k == "type" || k == "required") {
				ss := []string{}
				for _, s := range a {
					ss = append(ss, fmt.Sprint(s))
				}
				sort.Strings(ss)
				b := arr{}
				for _, s := range ss {
					b = append(b, s)
				}
				m[k] = b
				continue
			}
			m[k] = canon(e)
		}
		return m
	case arr:
		a := arr{}
		for _, e := range x {
			a = append(a, canon(e))
		}
		return a
	case int:
		return json.Number(fmt.Sprint(x))
	}
	return v
}

// fieldSpec is a field of a generated structure.
type fieldSpec struct {
	goName string
	tags   [][2]string // name tags
	typ    typeSpec
	mods   []modSpec
	embed  reflect.Type
}

func (f fieldSpec) structField() reflect.StructField {
	if f.embed != nil {
		t := f.embed
		n := t.Name()
		if t.Kind() == reflect.Ptr {
			n = t.Elem().Name()
		}
		return reflect.StructField{Name: n, Type: t, Anonymous: true}
	}
	tag := ""
	for _, t := range f.tags {
		tag += fmt.Sprintf("%s:%q ", t[0], t[1])
	}
	for _, m := range f.mods {
		tag += fmt.Sprintf("%s:%q ", m.tag, m.val)
	}
	return reflect.StructField{Name: f.goName, Type: f.typ.t, Tag: reflect.StructTag(strings.TrimSpace(tag))}
}

func (f fieldSpec) tag(name string) (string, bool) {
	for _, t := range f.tags {
		if t[0] == name {
			return t[1], true
		}
	}
	return "", false
}

func (f fieldSpec) String() string {
	sf := f.structField()
	return fmt.Sprintf("%s %s `%s`", sf.Name, sf.Type, sf.Tag)
}

func makeStruct(fs []fieldSpec) interface{} {
	var sf []reflect.StructField
	for _, f := range fs {
		sf = append(sf, f.structField())
	}
	return reflect.New(reflect.StructOf(sf)).Interface()
}

var _ = multipart.File(nil)

// chooseMods picks up to max modifiers that apply to the type and do not exclude each other.
func chooseMods(c *engine.Ctx, t typeSpec, max int, ms []modSpec) (res []modSpec) {
	from := 0
	for len(res) < max {
		var cand []int
		for i := from; i < len(ms); i++ {
			ok := ms[i].applies(t)
			for _, r := range res {
				if r.tag == ms[i].tag || r.tag == "collectionFormat" && ms[i].tag == "explode" || r.tag == "explode" && ms[i].tag == "collectionFormat" {
					ok = false
				}
			}
			if ok {
				cand = append(cand, i)
			}
		}
		k := c.Choose("modifier", len(cand)+1)
		if k == 0 {
			return
		}
		res = append(res, ms[cand[k-1]])
		from = cand[k-1] + 1
	}
	return
}
