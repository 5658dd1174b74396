package props

import (
	"fmt"
	"strings"

	"github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"
	"verif/mc/engine"
)

// Customized content units: the user edits the prepared request body or response.

type custSub struct {
	S string `json:"s" formData:"s" required:"true"`
}

type custAll struct {
	J custSub `json:"j" formData:"f"`
	H int     `header:"X-H"`
	Q string  `query:"q"`
}

// custom edits a request body or a response.
type custom struct {
	name string
	v3   func(b *openapi3.RequestBody, r *openapi3.Response)
	v31  func(b *openapi31.RequestBody, r *openapi31.Response)
}

func (u custom) apply(cor openapi.ContentOrReference) {
	switch x := cor.(type) {
	case *openapi3.RequestBodyOrRef:
		if x.RequestBody != nil && u.v3 != nil {
			u.v3(x.RequestBody, nil)
		}
	case *openapi3.ResponseOrRef:
		if x.Response != nil && u.v3 != nil {
			u.v3(nil, x.Response)
		}
	case *openapi31.RequestBodyOrReference:
		if x.RequestBody != nil && u.v31 != nil {
			u.v31(x.RequestBody, nil)
		}
	case *openapi31.ResponseOrReference:
		if x.Response != nil && u.v31 != nil {
			u.v31(nil, x.Response)
		}
	default:
		panic(fmt.Sprintf("unexpected %T", cor))
	}
	if u.v3 == nil {
		cor.SetReference("#/components/x/" + u.name)
	}
}

// customMedia sets a media type without schema or with the schema.
func customMedia(name, mime string, schema obj) custom {
	mt3 := openapi3.MediaType{}
	mt31 := openapi31.MediaType{}
	if schema != nil {
		mt3.Schema = &openapi3.SchemaOrRef{}
		if err := mt3.Schema.UnmarshalJSON([]byte(js(schema))); err != nil {
			panic(err)
		}
		mt31.Schema = schema
	}
	return custom{name, func(b *openapi3.RequestBody, r *openapi3.Response) {
		if b != nil {
			b.WithContentItem(mime, mt3)
		} else {
			r.WithContentItem(mime, mt3)
		}
	}, func(b *openapi31.RequestBody, r *openapi31.Response) {
		if b != nil {
			b.WithContentItem(mime, mt31)
		} else {
			r.WithContentItem(mime, mt31)
		}
	}}
}

func customs(resp bool) []custom {
	object := obj{"type": "object", "required": arr{"z"}, "properties": obj{"z": obj{"type": "string"}, "y": obj{"type": "integer"}}}
	res := []custom{
		{name: "reference"},
		customMedia("JSON without schema", ctJSON, nil),
		customMedia("form without schema", ctForm, nil),
		customMedia("text without schema", "text/x", nil),
		customMedia("JSON string", ctJSON, obj{"type": "string"}),
		customMedia("form object", ctForm, object),
		customMedia("form of all", ctForm, obj{"allOf": arr{object}}),
		customMedia("text object", "text/x", object),
		{"no JSON", func(b *openapi3.RequestBody, r *openapi3.Response) {
			if b != nil {
				delete(b.Content, ctJSON)
			} else {
				delete(r.Content, ctJSON)
			}
		}, func(b *openapi31.RequestBody, r *openapi31.Response) {
			if b != nil {
				delete(b.Content, ctJSON)
			} else {
				delete(r.Content, ctJSON)
			}
		}},
		{"description", func(b *openapi3.RequestBody, r *openapi3.Response) {
			if b != nil {
				b.WithDescription("custom").WithRequired(true)
			} else {
				r.WithDescription("custom")
			}
		}, func(b *openapi31.RequestBody, r *openapi31.Response) {
			if b != nil {
				b.WithDescription("custom").WithRequired(true)
			} else {
				r.WithDescription("custom")
			}
		}},
	}
	if !resp {
		return res
	}
	header := func(name, key, doc string) custom {
		h3, h31 := openapi3.HeaderOrRef{}, openapi31.HeaderOrReference{}
		if err := h3.UnmarshalJSON([]byte(doc)); err != nil {
			panic(err)
		}
		if err := h31.UnmarshalJSON([]byte(doc)); err != nil {
			panic(err)
		}
		return custom{name, func(_ *openapi3.RequestBody, r *openapi3.Response) {
			r.WithHeadersItem(key, h3)
		}, func(_ *openapi31.RequestBody, r *openapi31.Response) {
			r.WithHeadersItem(key, h31)
		}}
	}
	return append(res,
		header("header reference", "X-Ref", `{"$ref":"#/components/headers/h"}`),
		header("header content", "X-Content", `{"content":{"application/json":{"schema":{"type":"integer"}}}}`),
		header("header required", "x-req", `{"required":true,"schema":{"type":"integer"}}`),
		header("header replaced", "X-H", `{"schema":{"type":"boolean"}}`),
		custom{"no headers", func(_ *openapi3.RequestBody, r *openapi3.Response) { r.Headers = nil },
			func(_ *openapi31.RequestBody, r *openapi31.Response) { r.Headers = nil }},
	)
}

// customScenario are the operations with a content unit that has up to n customizations.
func customScenario(check opCheck, ver string, n int) *engine.Scenario {
	return &engine.Scenario{Name: ver + " customized", Bound: fmt.Sprintf("a request or a response (3 statuses) of 3 structures with all sequences of up to %d of 10 (15) customizations", n), Run: func(c *engine.Ctx) {
		resp := c.Bool("response")
		p := program{method: "POST", path: "/p"}
		if resp {
			p.method = "GET"
		}
		v := engine.Pick(c, "structure", []interface{}{nil, custAll{}, custSub{}})
		status := 0
		if resp {
			status = []int{0, 404, 4}[c.Choose("status", 3)]
		}
		all := customs(resp)
		var chosen []custom
		var names []string
		for i := 0; i < n; i++ {
			k := c.Choose("customization", len(all)+1)
			if k == 0 {
				break
			}
			chosen = append(chosen, all[k-1])
			names = append(names, all[k-1].name)
		}
		edit := func(cu *openapi.ContentUnit) {
			cu.HTTPStatus = status
			cu.Customize = func(cor openapi.ContentOrReference) {
				for _, u := range chosen {
					u.apply(cor)
				}
			}
		}
		p.units = []opUnit{{resp: resp, desc: fmt.Sprintf("%T %d customized: %s", v, status, strings.Join(names, ", ")), addTo: func(oc openapi.OperationContext) {
			if resp {
				oc.AddRespStructure(v, edit)
			} else {
				oc.AddReqStructure(v, edit)
			}
		}}}
		check(c, ver, p)
	}}
}
