package props

import (
	"github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"
)

var versions = []string{"3.0", "3.1"}

// opSpec describes an operation given directly to the specification.
type opSpec struct {
	summary   string
	params    [][2]string // in, name
	status    string      // response key, "" for none
	refParams int
}

// api is the common surface of both versions.
type api interface {
	ver() string
	refl() openapi.Reflector
	spec() specDoc
	load(b []byte, yaml bool) error
	specAdd(method, path string, o opSpec) error
	setup(method, path string, fs ...func(set func(opSpec)) error) error
	webhook(oc openapi.OperationContext) error
	specWebhook(method, name string, o opSpec) error
	hasWebhooks() bool
	schemaNames() []string
	jsr() *jsonschema.Reflector
}

func newAPI(ver string) api {
	if ver == "3.0" {
		return &api30{openapi3.NewReflector()}
	}
	return &api31{openapi31.NewReflector()}
}

type (
	api30 struct{ r *openapi3.Reflector }
	api31 struct{ r *openapi31.Reflector }
)

func (a *api30) ver() string                { return "3.0" }
func (a *api31) ver() string                { return "3.1" }
func (a *api30) refl() openapi.Reflector    { return a.r }
func (a *api31) refl() openapi.Reflector    { return a.r }
func (a *api30) spec() specDoc              { return a.r.SpecEns() }
func (a *api31) spec() specDoc              { return a.r.SpecEns() }
func (a *api30) jsr() *jsonschema.Reflector { return a.r.JSONSchemaReflector() }
func (a *api31) jsr() *jsonschema.Reflector { return a.r.JSONSchemaReflector() }
func (a *api30) hasWebhooks() bool          { return false }
func (a *api31) hasWebhooks() bool          { return true }

func (a *api30) load(b []byte, yaml bool) error {
	s := &openapi3.Spec{}
	f := s.UnmarshalJSON
	if yaml {
		f = s.UnmarshalYAML
	}
	if err := f(b); err != nil {
		return err
	}
	a.r.Spec = s
	return nil
}

func (a *api31) load(b []byte, yaml bool) error {
	s := &openapi31.Spec{}
	f := s.UnmarshalJSON
	if yaml {
		f = s.UnmarshalYAML
	}
	if err := f(b); err != nil {
		return err
	}
	a.r.Spec = s
	return nil
}

func (a *api30) schemaNames() []string {
	if a.r.Spec == nil || a.r.Spec.Components == nil || a.r.Spec.Components.Schemas == nil {
		return nil
	}
	return keys(a.r.Spec.Components.Schemas.MapOfSchemaOrRefValues)
}

func (a *api31) schemaNames() []string {
	if a.r.Spec == nil || a.r.Spec.Components == nil {
		return nil
	}
	return keys(a.r.Spec.Components.Schemas)
}

func (o opSpec) apply30(op *openapi3.Operation) {
	if o.summary != "" {
		op.WithSummary(o.summary)
	}
	for _, p := range o.params {
		pp := openapi3.Parameter{Name: p[1], In: openapi3.ParameterIn(p[0]), Schema: &openapi3.SchemaOrRef{Schema: (&openapi3.Schema{}).WithType(openapi3.SchemaTypeString)}}
		if p[0] == "path" {
			pp.WithRequired(true)
		}
		op.Parameters = append(op.Parameters, pp.ToParameterOrRef())
	}
	for i := 0; i < o.refParams; i++ {
		op.Parameters = append(op.Parameters, openapi3.ParameterOrRef{ParameterReference: &openapi3.ParameterReference{Ref: "#/components/parameters/P"}})
	}
	if o.status != "" {
		ror := openapi3.ResponseOrRef{Response: &openapi3.Response{Description: "given"}}
		if o.status == "default" {
			op.Responses.WithDefault(ror)
		} else {
			op.Responses.WithMapOfResponseOrRefValuesItem(o.status, ror)
		}
	}
}

func (o opSpec) apply31(op *openapi31.Operation) {
	if o.summary != "" {
		op.WithSummary(o.summary)
	}
	for _, p := range o.params {
		pp := openapi31.Parameter{Name: p[1], In: openapi31.ParameterIn(p[0]), Schema: obj{"type": "string"}}
		if p[0] == "path" {
			pp.WithRequired(true)
		}
		op.Parameters = append(op.Parameters, pp.ToParameterOrRef())
	}
	for i := 0; i < o.refParams; i++ {
		op.Parameters = append(op.Parameters, openapi31.ParameterOrReference{Reference: &openapi31.Reference{Ref: "#/components/parameters/P"}})
	}
	if o.status != "" {
		ror := openapi31.ResponseOrReference{Response: &openapi31.Response{Description: "given"}}
		if o.status == "default" {
			op.ResponsesEns().WithDefault(ror)
		} else {
			op.ResponsesEns().WithMapOfResponseOrReferenceValuesItem(o.status, ror)
		}
	}
}

// doc is the JSON of the operation.
func (o opSpec) doc() obj {
	d := obj{}
	if o.summary != "" {
		d["summary"] = o.summary
	}
	ps := arr{}
	for _, p := range o.params {
		m := obj{"name": p[1], "in": p[0], "schema": obj{"type": "string"}}
		if p[0] == "path" {
			m["required"] = true
		}
		ps = append(ps, m)
	}
	for i := 0; i < o.refParams; i++ {
		ps = append(ps, obj{"$ref": "#/components/parameters/P"})
	}
	if len(ps) > 0 {
		d["parameters"] = ps
	}
	if o.status != "" {
		d["responses"] = obj{o.status: obj{"description": "given"}}
	}
	return d
}

func (a *api30) specAdd(method, path string, o opSpec) error {
	op := openapi3.Operation{}
	o.apply30(&op)
	return a.r.SpecEns().AddOperation(method, path, op)
}

func (a *api31) specAdd(method, path string, o opSpec) error {
	op := openapi31.Operation{}
	o.apply31(&op)
	return a.r.SpecEns().AddOperation(method, path, op)
}

func (a *api30) setup(method, path string, fs ...func(set func(opSpec)) error) error {
	var setups []func(*openapi3.Operation) error
	for _, f := range fs {
		f := f
		setups = append(setups, func(op *openapi3.Operation) error {
			return f(func(o opSpec) { o.apply30(op) })
		})
	}
	return a.r.SpecEns().SetupOperation(method, path, setups...)
}

func (a *api31) setup(method, path string, fs ...func(set func(opSpec)) error) error {
	var setups []func(*openapi31.Operation) error
	for _, f := range fs {
		f := f
		setups = append(setups, func(op *openapi31.Operation) error {
			return f(func(o opSpec) { o.apply31(op) })
		})
	}
	return a.r.SpecEns().SetupOperation(method, path, setups...)
}

func (a *api30) webhook(openapi.OperationContext) error    { panic("engine: no webhooks") }
func (a *api30) specWebhook(string, string, opSpec) error  { panic("engine: no webhooks") }
func (a *api31) webhook(oc openapi.OperationContext) error { return a.r.AddWebhook(oc) }
func (a *api31) specWebhook(method, name string, o opSpec) error {
	op := openapi31.Operation{}
	o.apply31(&op)
	return a.r.SpecEns().AddWebhook(method, name, op)
}

// docOf saves the specification and decodes it strictly.
func docOf(s specDoc) (obj, []byte, error) {
	b, err := s.MarshalJSON()
	if err != nil {
		return nil, nil, err
	}
	v, err := strictDecode(b)
	if err != nil {
		return nil, b, err
	}
	return v.(obj), b, nil
}

func sub(v interface{}, segs ...string) obj {
	r, ok := lookup(v, segs...)
	if !ok {
		return obj{}
	}
	o, _ := r.(obj)
	if o == nil {
		return obj{}
	}
	return o
}

// applyTo customizes the operation of the context.
func applyTo(oc openapi.OperationContext, o opSpec) {
	switch x := oc.(type) {
	case openapi3.OperationExposer:
		o.apply30(x.Operation())
	case openapi31.OperationExposer:
		o.apply31(x.Operation())
	default:
		panic("engine: operation is not exposed")
	}
}
