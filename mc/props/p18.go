package props

import (
	"bytes"
	"errors"
	"fmt"
	"runtime"
	"strconv"
	"strings"
	"sync"

	"github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go"
	"verif/mc/engine"
)

// P18: a failing user hook is reported and contained.

var errFault = errors.New("hook fails here")

// faults decides which invocations of hooks fail.
type faults struct {
	calls int
	from  int    // first failing invocation, -1 for none
	once  bool   // only this invocation fails
	also  int    // another failing invocation if not 0
	where string // what failed
	log   []string
}

func (f *faults) fail(hook, what string) error {
	f.calls++
	i := f.calls - 1
	if f.log != nil {
		f.log = append(f.log, hook+" "+what)
	}
	if f.from >= 0 && (i == f.from || !f.once && i > f.from || f.also > 0 && i == f.from+f.also) {
		if f.where == "" {
			f.where = hook + " " + what
		}
		return errFault
	}
	return nil
}

func (f *faults) install(r *jsonschema.Reflector) {
	phase := map[bool]string{false: "before", true: "after"}
	r.DefaultOptions = append(r.DefaultOptions,
		jsonschema.InterceptSchema(func(p jsonschema.InterceptSchemaParams) (bool, error) {
			if err := f.fail("schema "+phase[p.Processed], p.Value.Type().String()); err != nil {
				return false, err
			}
			return false, nil
		}),
		jsonschema.InterceptProp(func(p jsonschema.InterceptPropParams) error {
			return f.fail("property "+phase[p.Processed], p.Name)
		}))
}

// Methods of types find faults of the run by the goroutine.
var typeFaults sync.Map

func goid() int64 {
	var b [64]byte
	s := bytes.TrimPrefix(b[:runtime.Stack(b[:], false)], []byte("goroutine "))
	n, err := strconv.ParseInt(string(s[:bytes.IndexByte(s, ' ')]), 10, 64)
	if err != nil {
		panic(err)
	}
	return n
}

func typeFault(what string) error {
	if f, ok := typeFaults.Load(goid()); ok {
		return f.(*faults).fail("method", what)
	}
	return nil
}

type (
	fPrep struct {
		A int `json:"a"`
	}
	fPrepQ struct {
		A int `query:"a"`
	}
	fPrepF struct {
		A int `formData:"a"`
	}
	fPrepStr string
	fExpose  struct{ B int }
	fRaw     struct{ C int }
	fRawList []string
	fNested  struct {
		P  fPrep            `json:"p"`
		E  *fExpose         `json:"e"`
		R  []fRaw           `json:"r"`
		M  map[string]fPrep `json:"m"`
		S  fPrepStr         `json:"s"`
		In struct {
			L fRawList `json:"l"`
		} `json:"in"`
	}
	fParams struct {
		Q  fPrepStr `query:"q"`
		QE fExpose  `query:"qe"`
		QR []fRaw   `query:"qr" collectionFormat:"json"`
		QP fPrepQ   `query:"qp"`
		H  fPrepStr `header:"X-H"`
		C  fRaw     `cookie:"c"`
		ID fPrepStr `path:"id"`
	}
	fForm struct {
		F  fPrepStr  `formData:"f"`
		FE fExpose   `formData:"fe"`
		FR []fPrepF  `formData:"fr"`
		H  *fPrepStr `header:"X-H"`
	}
	fMixed struct {
		Q fPrepStr `query:"q"`
		E fExpose  `json:"e"`
	}
	fResp struct {
		H fPrepStr `header:"X-H"`
		R fRaw     `header:"X-R"`
		P fPrep    `json:"p"`
	}
	fHeaders struct {
		H fPrepStr `header:"X-H"`
		E fExpose  `header:"X-E"`
	}
	fOneOf struct{ A int }
	fEmb   struct {
		fPrep
		B fPrepStr `json:"b"`
	}
)

func (fPrep) PrepareJSONSchema(s *jsonschema.Schema) error {
	s.WithDescription("prepared")
	return typeFault("fPrep")
}

func (fPrepQ) PrepareJSONSchema(s *jsonschema.Schema) error {
	s.WithDescription("prepared")
	return typeFault("fPrepQ")
}

func (fPrepF) PrepareJSONSchema(s *jsonschema.Schema) error {
	s.WithDescription("prepared")
	return typeFault("fPrepF")
}

func (fPrepStr) PrepareJSONSchema(s *jsonschema.Schema) error {
	s.WithMinLength(3)
	return typeFault("fPrepStr")
}

func (fExpose) JSONSchema() (jsonschema.Schema, error) {
	s := jsonschema.Schema{}
	s.AddType(jsonschema.Integer)
	return s, typeFault("fExpose")
}

func (fRaw) JSONSchemaBytes() ([]byte, error) {
	return []byte(`{"type":"string","format":"raw"}`), typeFault("fRaw")
}

func (fRawList) JSONSchemaBytes() ([]byte, error) {
	return []byte(`{"type":"array","items":{"type":"boolean"}}`), typeFault("fRawList")
}

func (fOneOf) JSONSchemaOneOf() []interface{} { return []interface{}{fPrep{}, fExpose{}, fRaw{}} }

// faultPrograms have types with failing methods in all roles.
func faultPrograms() (ps []program) {
	for _, v := range []interface{}{fPrep{}, new(fPrep), fExpose{}, fRaw{}, fRawList{}, []fPrep{}, map[string]fExpose{}, fNested{}, fOneOf{}, fResp{}, fHeaders{}, fEmb{}, jsonschema.OneOf(fPrep{}, fRaw{})} {
		ps = append(ps, anyProgram("POST", []interface{}{v}, nil), anyProgram("GET", nil, []interface{}{v}))
	}
	params := anyProgram("POST", []interface{}{fParams{}, fForm{}}, []interface{}{fResp{}, fHeaders{}})
	params.path = "/{id}"
	ps = append(ps, params, anyProgram("POST", []interface{}{fForm{}}, []interface{}{fPrep{}}), anyProgram("PUT", []interface{}{fMixed{}}, []interface{}{fNested{}, nil}),
		anyProgram("GET", []interface{}{fPrep{}, fEmb{}}, []interface{}{[]fResp{}}))
	// Several structures of one response.
	type plain struct {
		H string `header:"X-Plain"`
		J string `json:"j"`
	}
	for _, method := range []string{"GET", "HEAD"} {
		for _, vs := range [][]interface{}{{plain{}, fHeaders{}}, {fHeaders{}, plain{}}, {plain{}, nil, fResp{}}, {fPrep{}, fEmb{}}} {
			p := program{method: method}
			for i, v := range vs {
				v, i := v, i
				p.units = append(p.units, opUnit{resp: true, desc: fmt.Sprintf("%T of one status", v), addTo: func(oc openapi.OperationContext) {
					oc.AddRespStructure(v, func(cu *openapi.ContentUnit) {
						cu.HTTPStatus = 404
						cu.ContentType = []string{"", "application/problem+json", "text/json"}[i]
					})
				}})
			}
			ps = append(ps, p)
		}
	}
	for i := range ps {
		if ps[i].path == "" {
			ps[i].path = "/p"
		}
	}
	return ps
}

type faultFree struct {
	n   int
	log []string
	doc obj
	err error
}

var faultBases sync.Map

// prior are operations that are there before.
func prior(ver string, kind int, p program) (r program, ok bool) {
	switch kind {
	case 0:
		return r, false
	case 1:
		r = sharingPrograms()[0]
	case 2:
		r = anyProgram("POST", []interface{}{fNested{}, fForm{}}, []interface{}{fResp{}, fOneOf{}})
	case 4:
		r = anyProgram("POST", []interface{}{uPlain{}}, []interface{}{[]uPlain{}})
	default:
		r = p
		r.method = map[bool]string{true: "PUT", false: "POST"}[p.method == "POST"]
		return r, true
	}
	r.path, r.method = "/prior", "POST"
	return r, true
}

func addFault(a api, p program, hook bool) error {
	oc, err := p.placedContext(a, hook)
	if err != nil {
		return err
	}
	return addPlaced(a, oc, hook)
}

// faultRun prepares a specification and adds the program with failing hooks.
func faultRun(c *engine.Ctx, ver string, p program, kind int, hook bool, f *faults) (a api, before obj, err error) {
	a = newAPI(ver)
	if q, ok := prior(ver, kind, p); ok {
		// Operations with parameters in the path are rejected in some programs.
		_ = addFault(a, q, hook)
	}
	before, b, derr := docOf(a.spec())
	if derr != nil {
		c.Failf("save", "%v: %v: %s", p, derr, b)
	}
	f.install(a.jsr())
	typeFaults.Store(goid(), f)
	defer typeFaults.Delete(goid())
	return a, before, addFault(a, p, hook)
}

func faultCheck(c *engine.Ctx, ver string, p program, kinds []int, modes int, hook bool) {
	kind := engine.Pick(c, "prior operation", kinds)
	key := c.Scope + fmt.Sprint(c.TraceVector())
	bi, ok := faultBases.Load(key)
	if !ok {
		f := &faults{from: -1, log: []string{}}
		a, _, err := faultRun(c, ver, p, kind, hook, f)
		d, raw, derr := docOf(a.spec())
		if derr != nil {
			c.Failf("save", "%v: %v: %s", p, derr, raw)
		}
		bi = faultFree{n: f.calls, log: f.log, doc: d, err: err}
		faultBases.Store(key, bi)
	}
	base := bi.(faultFree)
	if base.err != nil {
		c.Outcome("rejected without fault")
		return
	}
	if base.n == 0 {
		c.Outcome("no hooks")
		return
	}
	f := &faults{from: c.Choose("invocation", base.n)}
	switch mode := c.Choose("failure", modes); {
	case mode == 1:
		f.once = true
	case mode > 1:
		f.once, f.also = true, mode-1
	}
	at := fmt.Sprintf("%s %v, prior %d, %+v", ver, p, kind, *f)
	a, before, err := faultRun(c, ver, p, kind, hook, f)
	c.Step(1)
	c.Logf("%s: %s fails -> %v", at, f.where, err)
	if f.where == "" {
		c.Failf(ver+" invocations", "%s: hooks were invoked %d times, and %d times without the failure %v", at, f.calls, base.n, base.log)
	}
	at += " (" + f.where + ")"
	after, raw, derr := docOf(a.spec())
	if derr != nil {
		c.Failf("save", "%s: %v: %s", at, derr, raw)
	}
	if err == nil {
		c.Failf(ver+" not reported", "%s: a failure of a hook is not reported: %s", at, raw)
	}
	c.Outcome("reported")
	if !errors.Is(err, errFault) && !strings.Contains(err.Error(), errFault.Error()) {
		c.Failf(ver+" error", "%s: the error does not tell what failed: %v", at, err)
	}
	// Paths and webhooks are as before.
	for _, m := range []string{"paths", "webhooks"} {
		if d := jsonDiff("#/"+m, norm(sub(before, m)), norm(sub(after, m))); d != "" {
			c.Failf(ver+" contained", "%s: %s", at, d)
		}
	}
	for n, s := range sub(before, "components", "schemas") {
		if d := jsonDiff("#/components/schemas/"+n, s, sub(after, "components", "schemas")[n]); d != "" {
			c.Failf(ver+" components", "%s: %s", at, d)
		}
	}
	f.from = -1
	if err := addFault(a, p, hook); err != nil {
		c.Failf(ver+" again", "%s: adding again fails: %v", at, err)
	}
	d, raw, derr := docOf(a.spec())
	if derr != nil {
		c.Failf("save", "%s: %v", at, derr)
	}
	c.StateBytes(raw)
	if w, g := places(base.doc), places(d); w != g {
		c.Failf(ver+" again", "%s: added again:\nwant %s\ngot  %s\ndocument %s", at, w, g, raw)
	}
}

// places are all operations and webhooks with the components they mention.
func places(d obj) string {
	var res []string
	for _, m := range []string{"paths", "webhooks"} {
		for _, p := range keys(sub(d, m)) {
			for _, o := range keys(sub(d, m, p)) {
				res = append(res, m+" "+p+" "+o+" "+canonical(sub(d, m, p)[o], sub(d, "components", "schemas")))
			}
		}
	}
	return strings.Join(res, "\n")
}

func faultScenario(ver, name string, ps []program, kinds []int, modes int, hook bool) *engine.Scenario {
	return &engine.Scenario{Name: ver + " faults " + name, Bound: fmt.Sprintf("%d programs, a failure at every invocation of a hook, %d ways to fail, %d prior operations", len(ps), modes, len(kinds)), Run: func(c *engine.Ctx) {
		p := engine.Pick(c, "program", ps)
		if p.path == "" {
			p.path = "/p"
		}
		faultCheck(c, ver, p, kinds, modes, hook)
	}}
}

// walkFaults fail hooks while schemas are walked.
func walkFaults(ver, name string, ps []program) *engine.Scenario {
	return &engine.Scenario{Name: ver + " faults of walks, " + name, Bound: fmt.Sprintf("%d programs, a failure at every invocation of a hook during a walk", len(ps)), Run: func(c *engine.Ctx) {
		p := engine.Pick(c, "program", ps)
		if p.path == "" {
			p.path = "/p"
		}
		if len(p.units) == 0 {
			return
		}
		i := c.Choose("unit", len(p.units))
		p.units = p.units[i : i+1]
		if !p.units[0].resp && c.Bool("get") {
			p.method = "GET"
		}
		run := func(f *faults) (int, error) {
			a := newAPI(ver)
			f.install(a.jsr())
			typeFaults.Store(goid(), f)
			defer typeFaults.Delete(goid())
			oc, err := p.context(a.refl())
			if err != nil {
				c.Failf("context", "%v", err)
			}
			cu := append(oc.Request(), oc.Response()...)[0]
			vs, _, _, _, err := walkOf(a.refl().(walker), p, cu, -1, false)
			return len(vs), err
		}
		b := &faults{from: -1, log: []string{}}
		_, err := run(b)
		if err != nil || b.calls == 0 {
			c.Outcome("rejected or no hooks")
			return
		}
		f := &faults{from: c.Choose("invocation", b.calls), once: c.Bool("once")}
		at := fmt.Sprintf("%s walk of %v, %+v", ver, p, *f)
		n, err := run(f)
		c.Step(1)
		if err == nil {
			c.Failf(ver+" walk", "%s (%s): a failure of a hook is not reported", at, f.where)
		}
		c.StateBytes([]byte(fmt.Sprint(f.where, n)))
		if !errors.Is(err, errFault) && !strings.Contains(err.Error(), errFault.Error()) {
			c.Failf(ver+" walk error", "%s: the error does not tell what failed: %v", at, err)
		}
		c.Outcome("reported")
	}}
}

func init() {
	register(&Property{ID: "P18", Scenarios: func(tier string) (res []*engine.Scenario) {
		modes, opKinds := 2, []int{3}
		if tier == "thorough" {
			modes, opKinds = 5, []int{1, 3}
		}
		var ops []program
		for _, p := range append(operations(), richPrograms()...) {
			// Structures with JSON tags and a mapping have two schemas for a component, see P10.
			if !strings.Contains(p.String(), "mapped to formData") && !strings.Contains(p.String(), "[request props.ordMapped response") {
				ops = append(ops, p)
			}
		}
		check := func(c *engine.Ctx, ver string, p program) {
			if strings.Contains(p.String(), "formData:") {
				c.Skip() // as above
			}
			faultCheck(c, ver, p, []int{4}, modes, false)
		}
		bc := func(c *engine.Ctx, ver, method string, units []bodyUnit) { check(c, ver, bodyProgram(method, units)) }
		rc := func(c *engine.Ctx, ver, method string, units []respUnit, preset bool) {
			check(c, ver, respProgram(method, units, preset))
		}
		pc := func(c *engine.Ctx, ver, method string, units []unit07) {
			if method == "GET" && tier != "thorough" {
				c.Skip()
			}
			check(c, ver, paramProgram(method, units))
		}
		for _, ver := range versions {
			res = append(res,
				faultScenario(ver, "methods", faultPrograms(), []int{0, 1, 2, 3}, modes, false),
				faultScenario(ver, "operations", ops, opKinds, modes, false),
				walkFaults(ver, "methods", faultPrograms()), walkFaults(ver, "operations", ops))
			if ver == "3.1" {
				res = append(res, faultScenario(ver, "webhooks", append(faultPrograms(), ops[:16]...), []int{0, 1, 2}, modes, true))
			}
			if tier == "thorough" {
				res = append(res, opScenarios(check, ver, "quick", true)...)
				continue
			}
			res = append(res, singleField(pc, ver, 0), generatedScenario(bc, ver, 1, bodyTypes, modSpecs[:1], 0, []string{"POST"}), respGenerated(rc, ver, 1, respTypes, nil, 0))
		}
		names := map[string]bool{}
		for _, s := range res {
			if names[s.Name] {
				s.Name += " of responses"
			}
			names[s.Name] = true
			// Results without faults are kept by the choices of the scenario.
			s, run := s, s.Run
			s.Run = func(c *engine.Ctx) {
				c.Scope = s.Name
				run(c)
			}
		}
		return
	}})
}
