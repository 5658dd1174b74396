package props

import (
	"fmt"
	"reflect"
	"strings"
	"sync/atomic"

	"github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go"
	"verif/mc/engine"
	dup1 "verif/mc/props/u1/dup"
	dup2 "verif/mc/props/u2/dup"
)

// P15: operations are independent of their order and of each other.

var (
	sharedMapping = map[string]string{"A": "ma", "B": "mb", "E": "me"}
	sharedHeaders = map[string]string{"A": "HA"}
	sharedScopes  = append(make([]string, 0, 8), "read", "write")
	sharedTags    = append(make([]string, 0, 8), "x", "y")
	sharedReq     = &ordSub{}
	sharedResp    = &ordResp{}
)

// anyProgram wraps structures for requests and responses.
func anyProgram(method string, reqs, resps []interface{}) program {
	p := program{method: method}
	for _, s := range reqs {
		s := s
		p.units = append(p.units, opUnit{desc: fmt.Sprintf("%T", s), addTo: func(oc openapi.OperationContext) { oc.AddReqStructure(s) }})
	}
	for i, s := range resps {
		s, i := s, i
		p.units = append(p.units, opUnit{resp: true, desc: fmt.Sprintf("%T", s), addTo: func(oc openapi.OperationContext) { oc.AddRespStructure(s, openapi.WithHTTPStatus(200+i)) }})
	}
	return p
}

// sharingPrograms share types, values, maps and slices.
func sharingPrograms() []program {
	mapped := func(method string, in openapi.In, m map[string]string) program {
		return program{method: method, units: []opUnit{{desc: fmt.Sprintf("mapped to %s", in), addTo: func(oc openapi.OperationContext) {
			oc.AddReqStructure(ordMapped{}, func(cu *openapi.ContentUnit) { cu.SetFieldMapping(in, m) })
		}}}}
	}
	attrs := func(n int) func(oc openapi.OperationContext) {
		return func(oc openapi.OperationContext) {
			oc.SetTags(sharedTags...)
			for i := 0; i <= n; i++ {
				oc.AddSecurity("s", sharedScopes[:i+1]...)
			}
			oc.SetSummary(fmt.Sprint("summary", n))
			oc.SetDescription(fmt.Sprint("description", n))
			oc.SetIsDeprecated(n == 1)
		}
	}
	ps := []program{
		anyProgram("POST", []interface{}{sharedReq}, []interface{}{sharedResp}),
		anyProgram("PUT", []interface{}{uNest{}}, []interface{}{uNest{}, []uPlain{}}),
		anyProgram("GET", []interface{}{uQuery{}}, []interface{}{sharedResp, uOne{}}),
		anyProgram("GET", []interface{}{uQueryJSON{}}, []interface{}{uPlain{}}),
		anyProgram("POST", []interface{}{ordForm{}}, []interface{}{ordSub{}, nil}),
		mapped("POST", openapi.InQuery, sharedMapping),
		mapped("GET", openapi.InQuery, sharedMapping),
		mapped("POST", openapi.InFormData, sharedMapping),
		mapped("PUT", openapi.InHeader, sharedHeaders),
		mapped("PUT", openapi.InCookie, sharedHeaders),
		anyProgram("POST", []interface{}{both(dup1.T{}, dup2.T{})}, []interface{}{dup2.T{}}),
		anyProgram("PATCH", []interface{}{dup2.T{}}, []interface{}{uPair[dup1.T, dup2.T]{}}),
		anyProgram("GET", nil, []interface{}{uA{}, uB{}}),
		anyProgram("POST", []interface{}{uB{}}, []interface{}{uRec{}}),
		anyProgram("POST", []interface{}{bFiles{}}, []interface{}{rHdr{}}),
		rawProgram("PUT", "text/csv", ""),
		rawProgram("POST", "application/octet-stream", "binary"),
		anyProgram("DELETE", []interface{}{bForce{}}, []interface{}{rDesc{}, jsonschema.OneOf(JSONObj{}, bForce{})}),
	}
	for i := range ps {
		if i%3 < 2 {
			ps[i].setup = attrs(i % 3)
		}
	}
	return ps
}

// rawProgram has unstructured content.
func rawProgram(method, ct, format string) program {
	unit := func(cu *openapi.ContentUnit) { cu.ContentType, cu.Format = ct, format }
	return program{method: method, units: []opUnit{
		{desc: ct, addTo: func(oc openapi.OperationContext) { oc.AddReqStructure(nil, unit) }},
		{desc: ct, resp: true, addTo: func(oc openapi.OperationContext) { oc.AddRespStructure(nil, unit) }},
	}}
}

var edits atomic.Int64

// edit changes everything that belongs to the operations of the specification, but values of the user.
func edit(spec interface{}) {
	n := int(edits.Add(1))
	seen := map[uintptr]bool{}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr:
			if !v.IsNil() && !seen[v.Pointer()] {
				seen[v.Pointer()] = true
				walk(v.Elem())
			}
		case reflect.Interface:
			walk(v.Elem())
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Map:
			if m, ok := v.Interface().(map[string]interface{}); ok {
				for _, e := range m {
					walk(reflect.ValueOf(e))
				}
				if m != nil {
					m["x-edited"] = n
				}
				return
			}
			for _, k := range v.MapKeys() {
				e := reflect.New(v.Type().Elem()).Elem()
				e.Set(v.MapIndex(k))
				walk(e)
				v.SetMapIndex(k, e)
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				f, name := v.Field(i), v.Type().Field(i).Name
				switch {
				case !v.Type().Field(i).IsExported() || !f.CanSet():
				case name == "Enum" || name == "Default" || name == "Example" || name == "Examples" || name == "ReflectType" || name == "Security" || name == "Tags":
				case name == "MapOfAnything":
					if f.IsNil() {
						f.Set(reflect.MakeMap(f.Type()))
					}
					f.SetMapIndex(reflect.ValueOf("x-edited"), reflect.ValueOf(n))
				case name == "Description" && f.Kind() == reflect.Ptr:
					d := fmt.Sprint("edited ", n)
					f.Set(reflect.ValueOf(&d))
				default:
					walk(f)
				}
			}
		}
	}
	for _, section := range []string{"Paths", "Webhooks"} {
		if f := reflect.ValueOf(spec).Elem().FieldByName(section); f.IsValid() {
			walk(f)
		}
	}
}

// operations are programs that are accepted on their own; the path of the program is set by its position.
func operations() (ps []program) {
	ps = sharingPrograms()
	for _, u := range uses() {
		ps = append(ps, useProgram(u, 0))
	}
	for _, u := range bodyPool {
		ps = append(ps, bodyProgram("POST", []bodyUnit{u}))
	}
	for _, u := range respPool {
		u.status = 0
		ps = append(ps, respProgram("GET", []respUnit{u}, false))
	}
	return
}

// place puts programs at paths and methods.
func place(ps []program, samePath bool) (res []program) {
	used := map[string]bool{}
	for i, p := range ps {
		p.path = fmt.Sprintf("/o%d", i)
		if samePath {
			p.path = "/o"
			others := []string{"GET", "OPTIONS", "TRACE", "DELETE"}
			if p.method == "POST" || p.method == "PUT" || p.method == "PATCH" {
				others = []string{"POST", "PUT", "PATCH"}
			}
			for k := 0; used[p.method] && k < len(others); k++ {
				p.method = others[k]
			}
			if used[p.method] {
				return nil
			}
			used[p.method] = true
		}
		res = append(res, p)
	}
	return
}

// withoutNull takes nullability away: that of the component of a named list or map depends on its first mention, see P10.
func withoutNull(schema interface{}) interface{} {
	s, ok := schema.(obj)
	if !ok {
		return schema
	}
	r := obj{}
	for k, v := range s {
		if k == "nullable" {
			continue
		}
		if ts, ok := v.(arr); ok && k == "type" && len(ts) == 2 && ts[1] == "null" {
			v = ts[0]
		}
		r[k] = v
	}
	if r["type"] != "array" && r["additionalProperties"] == nil {
		return s
	}
	return r
}

// canonical is an operation with the components it mentions, without their names.
func canonical(op interface{}, comps obj) string {
	index := map[string]int{}
	var queue []string
	var walk func(v interface{}) interface{}
	walk = func(v interface{}) interface{} {
		switch x := v.(type) {
		case arr:
			r := arr{}
			for _, e := range x {
				r = append(r, walk(e))
			}
			return r
		case obj:
			r := obj{}
			for _, k := range keys(x) {
				s, ok := x[k].(string)
				if name := strings.TrimPrefix(s, "#/components/schemas/"); ok && k == "$ref" && name != s {
					if _, seen := index[name]; !seen {
						index[name] = len(index)
						queue = append(queue, name)
					}
					r[k] = fmt.Sprint("T", index[name])
					continue
				}
				r[k] = walk(x[k])
			}
			return r
		}
		return v
	}
	res := arr{walk(op)}
	for i := 0; i < len(queue); i++ {
		res = append(res, walk(withoutNull(comps[queue[i]])))
	}
	return js(res)
}

// opAt is the operation of a placed program in the document.
func opAt(d obj, p program, hook bool) interface{} {
	if hook {
		v, _ := lookup(d, "webhooks", p.path[1:], strings.ToLower(p.method))
		return v
	}
	v, _ := lookup(d, "paths", p.path, strings.ToLower(p.method))
	return v
}

func addPlaced(a api, oc openapi.OperationContext, hook bool) error {
	if hook {
		return a.webhook(oc)
	}
	return a.refl().AddOperation(oc)
}

func (p program) placedContext(a api, hook bool) (openapi.OperationContext, error) {
	if hook {
		p.path = p.path[1:]
	}
	return p.context(a.refl())
}

var independentModes = []string{"one after another", "contexts are prepared first", "saved and walked between", "same path", "prepared in the opposite order, same path", "webhooks", "operations are edited afterwards", "webhooks are edited afterwards"}

// independent adds programs and compares every operation and component with those of the operation alone.
func independent(c *engine.Ctx, ver string, ps []program, mode int) {
	hook := mode == 5 || mode == 7
	if hook && ver == "3.0" {
		c.Skip()
	}
	a := newAPI(ver)
	var (
		placed = place(ps, mode == 3 || mode == 4)
		ocs    = make([]openapi.OperationContext, len(ps))
		alone  []obj
		null   string
	)
	if placed == nil {
		c.Skip()
	}
	for i, p := range placed {
		b := newAPI(ver)
		oc, err := p.placedContext(b, hook)
		if err != nil {
			c.Failf("context", "%v: %v", p, err)
		}
		if err := addPlaced(b, oc, hook); err != nil {
			c.Logf("%v alone: %v", p, err)
			c.Skip()
		}
		d, _, err := docOf(b.spec())
		if err != nil {
			c.Failf("save", "%v: %v", p, err)
		}
		alone = append(alone, d)
		if opAt(d, p, hook) == nil {
			c.Failf("alone", "%v is not in %s", placed[i], js(d))
		}
	}
	prepare := func(i int) {
		oc, err := placed[i].placedContext(a, hook)
		if err != nil {
			c.Failf(ver+" context", "%v: %v", placed[i], err)
		}
		ocs[i] = oc
	}
	switch mode {
	case 1:
		for i := range ps {
			prepare(i)
		}
	case 4:
		for i := len(ps) - 1; i >= 0; i-- {
			prepare(i)
		}
	}
	desc := fmt.Sprintf("%v %s", placed, independentModes[mode])
	var before obj
	edited := map[int]string{}
	for i, p := range placed {
		if ocs[i] == nil {
			prepare(i)
		}
		c.Step(1)
		if err := addPlaced(a, ocs[i], hook); err != nil {
			c.Failf(ver+" rejected", "%s: operation %d, which is accepted alone: %v", desc, i, err)
		}
		d, raw, err := docOf(a.spec())
		if err != nil {
			c.Failf("save", "%v", err)
		}
		c.StateBytes(raw)
		comps := sub(d, "components", "schemas")
		if mode == 2 {
			walked(a.refl().(walker), placed[(i+1)%len(placed)])
			walked(a.refl().(walker), p)
			// Components of the walked schemas may appear, operations do not change.
			d2, _, err := docOf(a.spec())
			if err != nil || js(d2["paths"]) != js(d["paths"]) {
				c.Failf(ver+" walked", "%s: walking after %d changed operations from %s to %s", desc, i, js(d["paths"]), js(d2["paths"]))
			}
			for n, s := range comps {
				if js(withoutNull(sub(d2, "components", "schemas")[n])) != js(withoutNull(s)) {
					c.Failf(ver+" walked", "%s: walking after %d changed component %q", desc, i, n)
				}
			}
			d = d2
			comps = sub(d, "components", "schemas")
		}
		c.Logf("%s added %v: %s", ver, p, raw)
		for n, s := range sub(before, "components", "schemas") {
			if js(comps[n]) != js(s) {
				null = fmt.Sprintf("%s: adding operation %d changed nullability of component %q from %s to %s", desc, i, n, js(s), js(comps[n]))
			}
			if js(withoutNull(comps[n])) != js(withoutNull(s)) {
				c.Failf(ver+" component", "%s: adding operation %d changed component %q from %s to %s", desc, i, n, js(s), js(comps[n]))
			}
		}
		before = d
		for k, p := range placed[:i+1] {
			want := canonical(opAt(alone[k], p, hook), sub(alone[k], "components", "schemas"))
			if e, ok := edited[k]; ok {
				want = e
			}
			if got := canonical(opAt(d, p, hook), comps); got != want {
				c.Failf(ver+" operation", "%s: after operation %d: operation %d is %s, alone it is %s", desc, i, k, got, want)
			}
		}
		if mode >= 6 {
			edit(a.spec())
			d, _, err := docOf(a.spec())
			if err != nil {
				c.Failf("save", "%v", err)
			}
			if js(d["components"]) != js(before["components"]) {
				c.Failf(ver+" edited component", "%s: editing operations changed components from %s to %s", desc, js(before["components"]), js(d["components"]))
			}
			for k, p := range placed[:i+1] {
				edited[k] = canonical(opAt(d, p, hook), comps)
			}
		}
	}
	if mode >= 6 {
		c.Outcome("edited")
		return
	}
	if null != "" {
		c.Failf(ver+" nullability of a named list or map", "%s", null)
	}
	// Without conflicts of names the document is the union of those of the operations.
	union := obj{}
	for _, d := range alone {
		for n, s := range sub(d, "components", "schemas") {
			if t, ok := union[n]; ok && js(withoutNull(t)) != js(withoutNull(s)) {
				c.Outcome("conflict")
				return
			}
			union[n] = s
		}
	}
	comps := sub(before, "components", "schemas")
	for n := range comps {
		if union[n] == nil && strings.HasSuffix(n, "Type2") {
			c.Outcome("conflict")
			return
		}
	}
	if mode != 2 && fmt.Sprint(keys(union)) != fmt.Sprint(keys(comps)) {
		c.Failf(ver+" union", "%s: components are %v, want %v", desc, keys(comps), keys(union))
	}
	n := 0
	for _, section := range []string{"paths", "webhooks"} {
		for _, pi := range sub(before, section) {
			n += len(pi.(obj))
		}
	}
	if n != len(placed) {
		c.Failf(ver+" union", "%s: %d operations: %s", desc, n, js(before))
	}
	for i, p := range placed {
		if got, want := js(opAt(before, p, hook)), js(opAt(alone[i], p, hook)); got != want {
			c.Failf(ver+" union", "%s: operation %d is %s, alone it is %s", desc, i, got, want)
		}
	}
	for _, m := range []string{"openapi", "info", "tags", "servers", "security"} {
		if js(before[m]) != js(alone[0][m]) {
			c.Failf(ver+" members", "%s: %s is %s, want %s", desc, m, js(before[m]), js(alone[0][m]))
		}
	}
	c.Outcome(js(before["paths"]))
}

func independentScenario(ver, name string, n int, ps []program, modes []int) *engine.Scenario {
	return &engine.Scenario{
		Name:  fmt.Sprintf("%s %d of %s", ver, n, name),
		Bound: fmt.Sprintf("all sequences (with all orders) of %d operations from %d, in %d modes of building", n, len(ps), len(modes)),
		Run: func(c *engine.Ctx) {
			mode := engine.Pick(c, "mode", modes)
			var seq []program
			for i := 0; i < n; i++ {
				seq = append(seq, engine.Pick(c, "operation", ps))
			}
			independent(c, ver, seq, mode)
		},
	}
}

func init() {
	register(&Property{ID: "P15", Scenarios: func(tier string) (res []*engine.Scenario) {
		all, sharing := operations(), sharingPrograms()
		for _, ver := range versions {
			ver := ver
			res = append(res, &engine.Scenario{
				Name:  ver + " operations twice",
				Bound: fmt.Sprintf("each of %d operations added twice, in 2 modes of building", len(all)),
				Run: func(c *engine.Ctx) {
					mode := engine.Pick(c, "mode", []int{6, 7})
					p := engine.Pick(c, "operation", all)
					independent(c, ver, []program{p, p}, mode)
				},
			})
			if tier == "thorough" {
				res = append(res, independentScenario(ver, "operations", 2, all, []int{0, 1, 2, 3, 4, 5}), independentScenario(ver, "operations", 3, all[:60], []int{0}),
					independentScenario(ver, "sharing operations", 3, sharing, []int{0, 1, 2, 3, 4, 5, 6, 7}), independentScenario(ver, "sharing operations", 4, sharing, []int{0, 4}))
				continue
			}
			res = append(res, independentScenario(ver, "operations", 2, all, []int{0, 4}), independentScenario(ver, "sharing operations", 2, sharing, []int{0, 1, 2, 3, 4, 5, 6, 7}), independentScenario(ver, "sharing operations", 3, sharing, []int{0, 4}))
		}
		return res
	}})
}
