package props

import (
	"fmt"
	"net/http"
	"reflect"
	"strings"

	"github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/openapi3"
	"verif/mc/engine"
)

// P21: deprecated entry points of OpenAPI 3.0 are equal to the current ones.

// oldHooks record what hooks see through the deprecated accessor.
type oldHooks struct {
	calls []string
	bad   string
	req   []openapi.ContentUnit
	resp  []openapi.ContentUnit
}

func (h *oldHooks) see(rc *jsonschema.ReflectContext, what string) {
	oc, ok := openapi.OperationCtx(rc)
	old, okOld := openapi3.OperationCtx(rc)
	if ok != okOld {
		h.bad = fmt.Sprintf("%s: operation is found by the current accessor: %v, by the deprecated one: %v", what, ok, okOld)
	}
	if !ok || !okOld {
		h.calls = append(h.calls, what+" without operation")
		return
	}
	h.calls = append(h.calls, fmt.Sprintf("%s %s response=%v in=%s", what, strings.ToUpper(old.HTTPMethod), old.ProcessingResponse, old.ProcessingIn))
	w := openapi3.OperationContext{HTTPMethod: oc.Method(), ProcessingResponse: oc.IsProcessingResponse(), ProcessingIn: string(oc.ProcessingIn())}
	if us := oc.Request(); len(us) > 0 {
		w.Input = us[0].Structure
		w.ReqQueryMapping, w.ReqPathMapping, w.ReqCookieMapping = us[0].FieldMapping(openapi.InQuery), us[0].FieldMapping(openapi.InPath), us[0].FieldMapping(openapi.InCookie)
		w.ReqHeaderMapping, w.ReqFormDataMapping = us[0].FieldMapping(openapi.InHeader), us[0].FieldMapping(openapi.InFormData)
	}
	if us := oc.Response(); len(us) > 0 {
		w.Output, w.HTTPStatus, w.RespContentType, w.RespHeaderMapping = us[0].Structure, us[0].HTTPStatus, us[0].ContentType, us[0].FieldMapping(openapi.InHeader)
	}
	if !reflect.DeepEqual(w, old) {
		h.bad = fmt.Sprintf("%s: deprecated accessor has %+v, current one %+v", what, old, w)
	}
}

func (h *oldHooks) install(r *jsonschema.Reflector) {
	r.DefaultOptions = append(r.DefaultOptions,
		jsonschema.InterceptSchema(func(p jsonschema.InterceptSchemaParams) (bool, error) {
			h.see(p.Context, fmt.Sprintf("schema %v %v", p.Processed, p.Value.Type()))
			return false, nil
		}),
		jsonschema.InterceptProp(func(p jsonschema.InterceptPropParams) error {
			h.see(p.Context, fmt.Sprintf("property %v %s", p.Processed, p.Name))
			return nil
		}))
}

func expressible(oc openapi.OperationContext) bool {
	for _, us := range [][]openapi.ContentUnit{oc.Request(), oc.Response()} {
		for _, cu := range us {
			if cu.Description != "" || cu.Customize != nil || cu.Format != "" || cu.IsDefault {
				return false
			}
		}
	}
	for _, cu := range oc.Request() {
		if cu.ContentType != "" {
			return false
		}
	}
	for _, cu := range oc.Response() {
		for _, in := range []openapi.In{openapi.InQuery, openapi.InPath, openapi.InCookie, openapi.InFormData} {
			if cu.FieldMapping(in) != nil {
				return false
			}
		}
	}
	return true
}

// setUpOld adds an operation with deprecated functions.
func setUpOld(r *openapi3.Reflector, p program, oc openapi.OperationContext, way int) error {
	op := *oc.(openapi3.OperationExposer).Operation()
	method := []string{strings.ToUpper(p.method), strings.ToLower(p.method), strings.ToUpper(p.method), p.method}[way]
	if req, resp := oc.Request(), oc.Response(); way == 3 && len(req) == 1 && len(resp) == 1 {
		// One context has both.
		c := openapi3.OperationContext{
			Operation: &op, Input: req[0].Structure, HTTPMethod: method,
			ReqQueryMapping: req[0].FieldMapping(openapi.InQuery), ReqPathMapping: req[0].FieldMapping(openapi.InPath), ReqCookieMapping: req[0].FieldMapping(openapi.InCookie),
			ReqHeaderMapping: req[0].FieldMapping(openapi.InHeader), ReqFormDataMapping: req[0].FieldMapping(openapi.InFormData),
			Output: resp[0].Structure, HTTPStatus: resp[0].HTTPStatus, RespContentType: resp[0].ContentType, RespHeaderMapping: resp[0].FieldMapping(openapi.InHeader),
		}
		if err := r.SetupRequest(c); err != nil {
			return err
		}
		if err := r.SetupResponse(c); err != nil {
			return err
		}
		return r.SpecEns().AddOperation(p.method, p.path, op)
	}
	for _, cu := range oc.Request() {
		c := openapi3.OperationContext{
			Operation: &op, Input: cu.Structure, HTTPMethod: method,
			ReqQueryMapping: cu.FieldMapping(openapi.InQuery), ReqPathMapping: cu.FieldMapping(openapi.InPath), ReqCookieMapping: cu.FieldMapping(openapi.InCookie),
			ReqHeaderMapping: cu.FieldMapping(openapi.InHeader), ReqFormDataMapping: cu.FieldMapping(openapi.InFormData),
		}
		var err error
		if way == 2 && c.ReqQueryMapping == nil && c.ReqPathMapping == nil && c.ReqCookieMapping == nil && c.ReqHeaderMapping == nil && c.ReqFormDataMapping == nil {
			err = r.SetRequest(&op, cu.Structure, method)
		} else {
			err = r.SetupRequest(c)
		}
		if err != nil {
			return err
		}
	}
	resp := oc.Response()
	if len(resp) == 0 {
		resp = []openapi.ContentUnit{{HTTPStatus: http.StatusNoContent}}
	}
	for _, cu := range resp {
		var err error
		switch {
		case way == 2 && cu.Structure == nil && cu.FieldMapping(openapi.InHeader) == nil && p.method != http.MethodHead:
			err = r.SetStringResponse(&op, cu.HTTPStatus, cu.ContentType)
		case way == 2 && cu.ContentType == "" && cu.FieldMapping(openapi.InHeader) == nil && p.method != http.MethodHead:
			err = r.SetJSONResponse(&op, cu.Structure, cu.HTTPStatus)
		default:
			err = r.SetupResponse(openapi3.OperationContext{Operation: &op, Output: cu.Structure, HTTPMethod: method, HTTPStatus: cu.HTTPStatus, RespContentType: cu.ContentType, RespHeaderMapping: cu.FieldMapping(openapi.InHeader)})
		}
		if err != nil {
			return err
		}
	}
	return r.SpecEns().AddOperation(p.method, p.path, op)
}

func checkOld(c *engine.Ctx, ver string, p program) {
	run := func(way int) (obj, error, *oldHooks) {
		r := openapi3.NewReflector()
		h := &oldHooks{}
		h.install(&r.Reflector)
		oc, err := p.context(r)
		if err != nil {
			c.Failf("context", "%v", err)
		}
		if !expressible(oc) {
			c.Skip()
		}
		if way < 0 {
			err = r.AddOperation(oc)
		} else {
			err = setUpOld(r, p, oc, way)
		}
		d, b, derr := docOf(r.SpecEns())
		if derr != nil {
			c.Failf("save", "%v: %v: %s", p, derr, b)
		}
		c.StateBytes(b)
		c.Step(1)
		return d, err, h
	}
	want, wantErr, wantHooks := run(-1)
	ways := 3
	if strings.Contains(p.String(), "request ") && strings.Contains(p.String(), "response ") {
		ways = 4
	}
	way := c.Choose("way", ways)
	got, gotErr, gotHooks := run(way)
	desc := fmt.Sprintf("%v way %d", p, way)
	c.Logf("%s -> %v", desc, gotErr)
	if (wantErr == nil) != (gotErr == nil) {
		c.Failf("error", "%s: current: %v, deprecated: %v", desc, wantErr, gotErr)
	}
	for _, h := range []*oldHooks{wantHooks, gotHooks} {
		if h.bad != "" {
			c.Failf("accessor", "%s: %s", desc, h.bad)
		}
	}
	if wantErr != nil {
		c.Outcome("rejected")
		return
	}
	if d := jsonDiff("#", want, got); d != "" {
		c.Failf("document", "%s: %s\ncurrent    %s\ndeprecated %s", desc, d, js(want), js(got))
	}
	w, g := strings.Join(wantHooks.calls, "\n"), strings.Join(gotHooks.calls, "\n")
	if way == 2 {
		// SetJSONResponse and SetStringResponse do not know the method.
		w, g = withoutMethod(wantHooks.calls), withoutMethod(gotHooks.calls)
	}
	if w != g {
		c.Failf("hooks", "%s: hooks of current functions see\n%s\nof deprecated ones\n%s", desc, w, g)
	}
	c.Outcome(w)
}

func withoutMethod(calls []string) string {
	var r []string
	for _, s := range calls {
		if i := strings.Index(s, " response="); i > 0 {
			k := strings.LastIndex(s[:i], " ")
			s = s[:k] + s[i:]
		}
		r = append(r, s)
	}
	return strings.Join(r, "\n")
}

func init() {
	register(&Property{ID: "P21", Scenarios: func(tier string) (res []*engine.Scenario) {
		res = opScenarios(checkOld, "3.0", tier, true)
		ps := append(append(sharingPrograms(), faultPrograms()...), richPrograms()...)
		for i := range ps {
			if ps[i].path == "" {
				ps[i].path = "/p"
			}
		}
		both := func(c *engine.Ctx) {
			req, resp := engine.Pick(c, "request", bodyPool), engine.Pick(c, "response", respPool)
			resp.status = []int{0, 201, 404, 4}[c.Choose("status", 4)]
			resp.contentType = []string{"", "text/csv"}[c.Choose("content type", 2)]
			m := engine.Pick(c, "method", []string{"POST", "GET", "HEAD", "DELETE"})
			p := bodyProgram(m, []bodyUnit{req})
			p.units = append(p.units, respProgram(m, []respUnit{resp}, false).units...)
			checkOld(c, "3.0", p)
		}
		res = append(res, &engine.Scenario{Name: "3.0 request and response", Bound: "all requests and responses of the pools, 4 statuses, 2 content types, 4 methods", Run: both})
		return append(res, &engine.Scenario{Name: "3.0 operations", Bound: fmt.Sprintf("%d operations with several units", len(ps)), Run: func(c *engine.Ctx) {
			checkOld(c, "3.0", engine.Pick(c, "program", ps))
		}})
	}})
}
