package props

import (
	"fmt"
	"strings"

	"github.com/swaggest/openapi-go"
	"verif/mc/engine"
)

// opUnit is a content unit of an operation program.
type opUnit struct {
	resp  bool
	desc  string
	addTo func(oc openapi.OperationContext)
}

func (u opUnit) String() string {
	if u.resp {
		return "response " + u.desc
	}
	return "request " + u.desc
}

// program is an operation to be added.
type program struct {
	method, path string
	units        []opUnit
	setup        func(oc openapi.OperationContext)
	options      *reflOption
}

// newAPI makes a builder with the options of the program.
func (p program) newAPI(ver string) api {
	a := newAPI(ver)
	if p.options != nil {
		p.options.set(a.jsr())
	}
	return a
}

func (p program) String() string {
	s := fmt.Sprintf("%s %s %v", p.method, p.path, p.units)
	if p.options != nil {
		s += " with option: " + p.options.name
	}
	return s
}

// context prepares the operation.
func (p program) context(r openapi.Reflector) (openapi.OperationContext, error) {
	oc, err := r.NewOperationContext(p.method, p.path)
	if err != nil {
		return nil, err
	}
	if p.setup != nil {
		p.setup(oc)
	}
	for _, u := range p.units {
		u.addTo(oc)
	}
	return oc, nil
}

// add adds the operation.
func (p program) add(r openapi.Reflector) error {
	oc, err := p.context(r)
	if err != nil {
		return err
	}
	return r.AddOperation(oc)
}

// opCheck decides a property of an operation program.
type opCheck func(c *engine.Ctx, ver string, p program)

func bodyProgram(method string, units []bodyUnit) program {
	p := program{method: method, path: "/p"}
	for _, u := range units {
		p.units = append(p.units, opUnit{desc: u.String(), addTo: u.addTo})
	}
	return p
}

func respProgram(method string, units []respUnit, preset bool) program {
	p := program{method: method, path: "/p"}
	for _, u := range units {
		p.units = append(p.units, opUnit{desc: u.String(), addTo: u.addTo, resp: true})
	}
	if preset {
		p.setup = presetResponses
	}
	return p
}

func paramProgram(method string, units []unit07) program {
	p := program{method: method, path: "/p"}
	for _, u := range units {
		u := u
		for _, f := range u.flat() {
			if name, ok := paramName(f, "path", u.mapping["path"]); ok && !strings.Contains(p.path, "/{"+name+"}") {
				p.path += "/{" + name + "}"
			}
		}
		p.units = append(p.units, opUnit{desc: fmt.Sprintf("%v mapping=%v", u.fields, u.mapping), addTo: func(oc openapi.OperationContext) {
			oc.AddReqStructure(makeStruct(u.fields), func(cu *openapi.ContentUnit) {
				for in, m := range u.mapping {
					cu.SetFieldMapping(openapi.In(in), m)
				}
			})
		}})
	}
	return p
}

func useProgram(u use, i int) program {
	return program{method: "POST", path: fmt.Sprintf("/p%d", i), units: []opUnit{{resp: u.role == "resp", desc: u.name, addTo: func(oc openapi.OperationContext) {
		if u.role == "resp" {
			oc.AddRespStructure(u.v)
		} else {
			oc.AddReqStructure(u.v)
		}
	}}}}
}

// opScenarios are all operations of one content unit of the bounded grammars, or of two if pairs is set.
func opScenarios(check opCheck, ver, tier string, pairs bool) (res []*engine.Scenario) {
	all := []string{"POST", "GET", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "TRACE"}
	few := []string{"POST", "GET"}
	bc := func(c *engine.Ctx, ver, method string, units []bodyUnit) { check(c, ver, bodyProgram(method, units)) }
	rc := func(c *engine.Ctx, ver, method string, units []respUnit, preset bool) {
		check(c, ver, respProgram(method, units, preset))
	}
	pc := func(c *engine.Ctx, ver, method string, units []unit07) { check(c, ver, paramProgram(method, units)) }
	us := append(uses(), roleUses(false)...)
	us = append(us, roleUses(true)...)
	res = append(res, poolScenario(bc, ver, 1, bodyPool, all), respPoolScenario(rc, ver, 1, respPool, len(statuses), len(respCTs), []string{"GET"}),
		&engine.Scenario{Name: ver + " uses", Bound: fmt.Sprintf("all %d uses of types in roles", len(us)), Run: func(c *engine.Ctx) {
			check(c, ver, useProgram(engine.Pick(c, "use", us), 0))
		}},
		&engine.Scenario{Name: ver + " forbid", Bound: "structures that forbid unknown parameters, 2 methods", Run: func(c *engine.Ctx) {
			v := engine.Pick(c, "structure", []interface{}{forbidQuery{}, forbidHeader{}, forbidCookie{}, forbidForm{}, forbidJSON{}, forbidTrue{}, forbidNone{}, forbidEmb{}})
			check(c, ver, program{method: engine.Pick(c, "method", few), path: "/p", units: []opUnit{{desc: fmt.Sprintf("%T", v), addTo: func(oc openapi.OperationContext) { oc.AddReqStructure(v) }}}})
		}})
	if tier == "thorough" {
		res = append(res, singleField(pc, ver, 2), manyFields(pc, ver, 2, []typeSpec{typeSpecs[0], typeSpecs[2], typeSpecs[13], typeSpecs[15], typeSpecs[19]}, modSpecs[:3]),
			generatedScenario(bc, ver, 1, bodyTypes, modSpecs, 2, few), generatedScenario(bc, ver, 2, bodyTypes, modSpecs[:1], 1, few),
			respGenerated(rc, ver, 1, respTypes, modSpecs, 2), respGenerated(rc, ver, 2, respTypes, modSpecs[:1], 1))
	} else {
		res = append(res, singleField(pc, ver, 1), manyFields(pc, ver, 2, []typeSpec{typeSpecs[0], typeSpecs[13]}, modSpecs[:1]),
			generatedScenario(bc, ver, 1, bodyTypes, modSpecs, 1, few), generatedScenario(bc, ver, 2, []typeSpec{bodyTypes[0], bodyTypes[2], bodyTypes[8], bodyTypes[10]}, modSpecs[:1], 0, []string{"POST"}),
			respGenerated(rc, ver, 1, respTypes, modSpecs, 1), respGenerated(rc, ver, 2, []typeSpec{respTypes[0], respTypes[2], respTypes[8]}, nil, 0))
	}
	if pairs {
		if tier == "thorough" {
			res = append(res, poolScenario(bc, ver, 2, bodyPool[:14], few), respPoolScenario(rc, ver, 2, respPool[:6], 3, 2, []string{"GET", "HEAD"}), respSameScenario(rc, ver, 2, respPool[:6], 2, []string{"GET"}))
		} else {
			res = append(res, poolScenario(bc, ver, 2, bodyPool[:5], few), respPoolScenario(rc, ver, 2, respPool[:4], 2, 2, []string{"GET"}), respSameScenario(rc, ver, 2, respPool[:3], 2, []string{"GET"}))
		}
	}
	res = append(res, &engine.Scenario{Name: ver + " mappings", Bound: "all sets of field mappings of a request, of a response (3 statuses, 3 content types) or of both, 4 methods (2 for both)", Run: func(c *engine.Ctx) {
		check(c, ver, mappedProgram(c, pairs))
	}})
	for i, s := range res {
		s.Name = fmt.Sprintf("%s #%d", s.Name, i)
	}
	return res
}

// mappedProgram chooses an operation with custom field mappings of the request, of the response or of both.
func mappedProgram(c *engine.Ctx, pairs bool) program {
	parts := []string{"request", "response"}
	if pairs {
		parts = append(parts, "both")
	}
	part := engine.Pick(c, "part", parts)
	p := program{method: "POST", path: "/p"}
	if part == "both" {
		p.method = engine.Pick(c, "method", []string{"POST", "HEAD"})
	} else {
		p.method = engine.Pick(c, "method", []string{"POST", "GET", "HEAD", "PUT"})
	}
	mappings := map[openapi.In]map[string]string{}
	var (
		headers map[string]string
		status  int
		ct      string
	)
	for _, m := range []struct {
		in openapi.In
		m  map[string]string
	}{
		{openapi.InQuery, map[string]string{"A": "qa", "B": "qb", "E": "qe"}},
		{openapi.InPath, map[string]string{"C": "c", "D": "d"}},
		{openapi.InHeader, map[string]string{"A": "HA", "B": "HB"}},
		{openapi.InCookie, map[string]string{"A": "ca", "E": "ce"}},
		{openapi.InFormData, map[string]string{"A": "fa", "B": "fb"}},
	} {
		if part != "response" && c.Bool("maps "+string(m.in)) {
			mappings[m.in] = m.m
			if m.in == openapi.InPath {
				p.path += "/{c}/{d}"
			}
		}
	}
	if part != "request" {
		headers = engine.Pick(c, "headers", []map[string]string{nil, {"A": "X-A", "E": "X-E"}})
		status = []int{0, 201, 4}[c.Choose("status", 3)]
		ct = []string{"", "text/csv", "application/json"}[c.Choose("content type", 3)]
	}
	p.units = []opUnit{
		{desc: fmt.Sprintf("mapped %v", mappings), addTo: func(oc openapi.OperationContext) {
			oc.AddReqStructure(ordMapped{}, func(cu *openapi.ContentUnit) {
				for in, m := range mappings {
					cu.SetFieldMapping(in, m)
				}
			})
		}},
		{resp: true, desc: fmt.Sprintf("mapped %v %d %s", headers, status, ct), addTo: func(oc openapi.OperationContext) {
			oc.AddRespStructure(ordMapped{}, func(cu *openapi.ContentUnit) {
				cu.SetFieldMapping(openapi.InHeader, headers)
				cu.HTTPStatus, cu.ContentType = status, ct
			})
		}},
	}
	switch part {
	case "request":
		p.units = p.units[:1]
	case "response":
		p.units = p.units[1:]
	}
	return p
}
