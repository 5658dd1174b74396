package props

import (
	"errors"
	"fmt"
	"strings"

	"github.com/swaggest/openapi-go"
	"verif/mc/engine"
)

// P05: registry of operations. The model is a map of operations by clean path and method.

type (
	in05 struct {
		ID string `path:"id"`
	}
	in05Query struct {
		ID string `query:"id"`
	}
)

// parsePath is an independent parser of path patterns: names of placeholders in order and the
// path without regular expressions.
func parsePath(p string) (clean string, names []string) {
	var sb strings.Builder
	for i := 0; i < len(p); {
		if p[i] != '{' {
			sb.WriteByte(p[i])
			i++
			continue
		}
		depth, j := 0, i
		for ; j < len(p); j++ {
			if p[j] == '{' {
				depth++
			}
			if p[j] == '}' {
				depth--
				if depth == 0 {
					break
				}
			}
		}
		if j == len(p) {
			sb.WriteString(p[i:])
			break
		}
		name := p[i+1 : j]
		if k := strings.IndexByte(name, ':'); k >= 0 {
			name = name[:k]
		}
		names = append(names, name)
		sb.WriteString("{" + name + "}")
		i = j + 1
	}
	return sb.String(), names
}

var validMethods = map[string]bool{"get": true, "put": true, "post": true, "delete": true, "options": true, "head": true, "patch": true, "trace": true}

// paramsMatch is the rule of path parameters.
func paramsMatch(params [][2]string, placeholders []string) bool {
	want := map[string]bool{}
	for _, n := range placeholders {
		want[n] = true
	}
	seen := map[[2]string]bool{}
	for _, p := range params {
		if seen[p] {
			return false
		}
		seen[p] = true
		if p[0] == "path" && !want[p[1]] {
			return false
		}
	}
	for n := range want {
		if !seen[[2]string{"path", n}] {
			return false
		}
	}
	return true
}

type regModel struct {
	paths obj // clean path -> method -> operation
	hooks obj // name -> method -> operation
}

type pending struct {
	oc     openapi.OperationContext
	method string
	path   string
	o      opSpec
}

type regState struct {
	c    *engine.Ctx
	a    api
	m    regModel
	pend []pending
	last *pending
	n    int
}

func (s *regState) get(method, path string) obj {
	o, _ := sub(s.m.paths, path)[method].(obj)
	return o
}

func (s *regState) put(method, path string, d obj) {
	pi, ok := s.m.paths[path].(obj)
	if !ok {
		pi = obj{}
		s.m.paths[path] = pi
	}
	pi[method] = d
}

// withDefaults is the document of an accepted operation.
func (s *regState) withDefaults(o opSpec) obj {
	d := o.doc()
	if d["responses"] == nil {
		d["responses"] = obj{"204": obj{"description": "No Content"}}
	}
	return d
}

func (s *regState) result(what string, err error, accept bool) {
	s.c.Step(1)
	if accept && err != nil {
		s.c.Failf("rejected "+what, "%s: %s must be accepted, failed with: %v", s.a.ver(), what, err)
	}
	if !accept && err == nil {
		s.c.Failf("accepted "+what, "%s: %s must be rejected", s.a.ver(), what)
	}
	s.c.Logf("%s -> accepted=%v", what, accept)
}

func (s *regState) mark() string {
	s.n++
	return fmt.Sprintf("op%d", s.n)
}

// newCtx creates an operation context.
func (s *regState) newCtx(method, path string, params [][2]string, status string) *pending {
	clean, _ := parsePath(path)
	lm := strings.ToLower(method)
	accept := validMethods[lm] && s.get(lm, clean) == nil
	oc, err := s.a.refl().NewOperationContext(method, path)
	s.result(fmt.Sprintf("NewOperationContext(%q,%q)", method, path), err, accept)
	if err != nil {
		return nil
	}
	p := pending{oc: oc, method: method, path: path, o: opSpec{summary: s.mark(), params: params, status: status}}
	oc.SetSummary(p.o.summary)
	for _, pp := range params {
		if pp[0] == "path" {
			oc.AddReqStructure(new(in05))
		} else {
			oc.AddReqStructure(new(in05Query))
		}
	}
	switch status {
	case "":
	case "default":
		oc.AddRespStructure(nil, func(cu *openapi.ContentUnit) { cu.IsDefault = true; cu.Description = "given" })
	default:
		oc.AddRespStructure(nil, openapi.WithHTTPStatus(atoi(status)), func(cu *openapi.ContentUnit) { cu.Description = "given" })
	}
	return &p
}

func atoi(s string) (n int) {
	fmt.Sscan(s, &n)
	return
}

func (s *regState) commit(p *pending, again bool) {
	clean, names := parsePath(p.path)
	lm := strings.ToLower(p.method)
	accept := s.get(lm, clean) == nil && paramsMatch(p.o.params, names)
	if again && len(p.o.params) > 0 {
		accept = false // parameters are already defined
	}
	err := s.a.refl().AddOperation(p.oc)
	what := fmt.Sprintf("AddOperation(%q,%q,params %v,again=%v)", p.method, p.path, p.o.params, again)
	s.result(what, err, accept)
	if accept {
		s.put(lm, clean, s.withDefaults(p.o))
	}
	s.last = p
}

func (s *regState) specAdd(method, path string, params [][2]string, status string) {
	clean, names := parsePath(path)
	lm := strings.ToLower(method)
	o := opSpec{summary: s.mark(), params: params, status: status}
	accept := validMethods[lm] && s.get(lm, clean) == nil && paramsMatch(params, names)
	err := s.a.specAdd(method, path, o)
	s.result(fmt.Sprintf("Spec.AddOperation(%q,%q,params %v)", method, path, params), err, accept)
	if accept {
		s.put(lm, clean, s.withDefaults(o))
	}
}

var errHook = errors.New("hook failure")

func (s *regState) setup(method, path, kind string) {
	clean, names := parsePath(path)
	lm := strings.ToLower(method)
	var o opSpec
	switch kind {
	case "mark", "fail", "two", "failtwo", "failfirst":
		o = opSpec{summary: s.mark()}
	case "id", "failid":
		o = opSpec{params: [][2]string{{"path", "id"}}}
	case "noop", "zero":
	case "three":
		o = opSpec{summary: s.mark()}
	case "resp":
		o = opSpec{status: "202"}
	}
	cur := s.get(lm, clean)
	next, _ := clone(cur).(obj)
	if cur == nil {
		next = obj{}
		if s.a.ver() == "3.0" {
			next["responses"] = obj{}
		}
	}
	d := o.doc()
	if o.summary != "" {
		next["summary"] = o.summary
	}
	if kind == "three" {
		d = opSpec{status: "203"}.doc()
		next["summary"] = "touched"
	}
	if d["parameters"] != nil {
		ps, _ := next["parameters"].(arr)
		next["parameters"] = append(append(arr{}, ps...), d["parameters"].(arr)...)
	}
	if d["responses"] != nil {
		rs := obj{}
		for k, v := range sub(next, "responses") {
			rs[k] = v
		}
		for k, v := range d["responses"].(obj) {
			rs[k] = v
		}
		next["responses"] = rs
	}
	var params [][2]string
	if ps, ok := next["parameters"].(arr); ok {
		for _, p := range ps {
			params = append(params, [2]string{p.(obj)["in"].(string), p.(obj)["name"].(string)})
		}
	}
	accept := validMethods[lm] && !strings.HasPrefix(kind, "fail") && paramsMatch(params, names)
	called := 0
	first := func(set func(opSpec)) error {
		called++
		set(o)
		if strings.HasPrefix(kind, "fail") {
			return errHook
		}
		return nil
	}
	fs := []func(set func(opSpec)) error{first}
	touch := func(set func(opSpec)) error {
		if len(fs) == 3 && called != 1 {
			s.c.Failf("setup order", "setup functions are called out of order")
		}
		set(opSpec{summary: "touched"})
		return nil
	}
	wantCalls := 1
	switch kind {
	case "two", "failtwo": // The function is applied after another one.
		fs = []func(set func(opSpec)) error{func(set func(opSpec)) error {
			set(opSpec{summary: "first", params: o.params})
			return nil
		}, first}
	case "three": // The function is applied between two others.
		fs = []func(set func(opSpec)) error{touch, first, touch}
		fs[0] = func(set func(opSpec)) error { set(opSpec{status: "203"}); return nil }
	case "failfirst": // The functions after a failure are not applied.
		fs = append(fs, func(func(opSpec)) error {
			s.c.Failf("setup after failure", "setup function is called after another one has failed")
			return nil
		})
	case "zero":
		fs, wantCalls = nil, 0
	}
	err := s.a.setup(method, path, fs...)
	what := fmt.Sprintf("Spec.SetupOperation(%q,%q,%s)", method, path, kind)
	s.result(what, err, accept)
	if validMethods[lm] && called != wantCalls {
		s.c.Failf("setup calls", "%s: setup function was called %d times", what, called)
	}
	if strings.HasPrefix(kind, "fail") && validMethods[lm] && !errors.Is(err, errHook) {
		s.c.Failf("setup error", "%s: error of the setup function is not returned: %v", what, err)
	}
	if accept {
		s.put(lm, clean, next)
	}
}

func (s *regState) hook(method, name string, viaReflector bool) {
	lm := strings.ToLower(method)
	_, exists := s.m.hooks[name]
	if viaReflector {
		p := s.newCtx(method, name, nil, "")
		if p == nil {
			return
		}
		err := s.a.webhook(p.oc)
		s.result(fmt.Sprintf("AddWebhook(%q,%q)", method, name), err, !exists)
		if !exists {
			s.m.hooks[name] = obj{lm: s.withDefaults(p.o)}
		}
		return
	}
	o := opSpec{summary: s.mark()}
	accept := validMethods[lm] && !exists
	err := s.a.specWebhook(method, name, o)
	s.result(fmt.Sprintf("Spec.AddWebhook(%q,%q)", method, name), err, accept)
	if accept {
		s.m.hooks[name] = obj{lm: s.withDefaults(o)}
	}
}

func (s *regState) check(after string) {
	d, b, err := docOf(s.a.spec())
	if err != nil {
		s.c.Failf("save", "after %s: %v", after, err)
	}
	s.c.StateBytes(b)
	if x := jsonDiff("#/paths", obj(s.m.paths), obj(sub(d, "paths"))); x != "" {
		s.c.Failf("paths "+s.a.ver(), "after %s: %s\n%s", after, x, b)
	}
	if x := jsonDiff("#/webhooks", obj(s.m.hooks), obj(sub(d, "webhooks"))); x != "" {
		s.c.Failf("webhooks "+s.a.ver(), "after %s: %s\n%s", after, x, b)
	}
}

type regAction struct {
	name string
	run  func(s *regState)
}

func regActions(ver string, methods, paths []string, full bool) (as []regAction) {
	add := func(name string, f func(s *regState)) { as = append(as, regAction{name, f}) }
	none, id := [][2]string(nil), [][2]string{{"path", "id"}}
	for _, m := range methods {
		for _, p := range paths {
			m, p := m, p
			for _, ps := range [][][2]string{none, id} {
				ps := ps
				add(fmt.Sprintf("add %s %s %v", m, p, ps), func(s *regState) {
					if x := s.newCtx(m, p, ps, ""); x != nil {
						s.commit(x, false)
					}
				})
				add(fmt.Sprintf("spec add %s %s %v", m, p, ps), func(s *regState) { s.specAdd(m, p, ps, "") })
			}
			kinds := []string{"mark", "id", "fail"}
			if full {
				kinds = append(kinds, "noop", "resp", "failid", "two", "three", "failtwo", "failfirst", "zero")
			}
			for _, k := range kinds {
				k := k
				add(fmt.Sprintf("setup %s %s %s", m, p, k), func(s *regState) { s.setup(m, p, k) })
			}
			add(fmt.Sprintf("context %s %s", m, p), func(s *regState) {
				_, names := parsePath(p)
				ps := none
				if len(names) > 0 {
					ps = id
				}
				if x := s.newCtx(m, p, ps, "201"); x != nil {
					s.pend = append(s.pend, *x)
				}
			})
		}
	}
	add("commit", func(s *regState) {
		if len(s.pend) == 0 {
			s.c.Skip()
		}
		p := s.pend[0]
		s.pend = s.pend[1:]
		s.commit(&p, false)
	})
	add("commit again", func(s *regState) {
		if s.last == nil {
			s.c.Skip()
		}
		s.commit(s.last, true)
	})
	add("spec add with default response", func(s *regState) { s.specAdd("get", "/a", nil, "default") })
	add("spec add with response", func(s *regState) { s.specAdd("post", "/a", nil, "200") })
	if ver == "3.1" {
		for _, m := range []string{"POST", "get", "BREW"} {
			for _, n := range []string{"hook", "hook2"} {
				m, n := m, n
				if n == "hook2" && m == "BREW" {
					continue
				}
				add("webhook "+m+" "+n, func(s *regState) { s.hook(m, n, true) })
				add("spec webhook "+m+" "+n, func(s *regState) { s.hook(m, n, false) })
			}
		}
	}
	return as
}

func historyScenario(ver, name string, depth int, as []regAction, initial ...obj) *engine.Scenario {
	return &engine.Scenario{
		Name:  ver + " " + name,
		Bound: fmt.Sprintf("all histories of %d calls over %d calls, state compared after each call", depth, len(as)),
		Run: func(c *engine.Ctx) {
			s := &regState{c: c, a: newAPI(ver), m: regModel{paths: obj{}, hooks: obj{}}}
			for _, doc := range initial {
				if err := s.a.load([]byte(js(doc)), false); err != nil {
					c.Failf("load", "%v", err)
				}
				doc = norm(doc).(obj)
				s.m.paths = sub(doc, "paths")
				s.m.hooks = sub(doc, "webhooks")
				s.n = 100
			}
			for i := 0; i < depth; i++ {
				x := as[c.Choose("call", len(as))]
				x.run(s)
				s.check(x.name)
			}
			c.Outcome(js(s.m.paths) + js(s.m.hooks))
		},
	}
}

func init() {
	register(&Property{ID: "P05", Scenarios: func(tier string) (res []*engine.Scenario) {
		for _, ver := range versions {
			small := regActions(ver, []string{"GET", "post"}, []string{"/a", "/a/{id:[0-9]+}"}, false)
			mid := regActions(ver, []string{"GET", "get", "post"}, []string{"/a", "/a/{id}", "/a/{id:[0-9]+}", "/a/{name}"}, true)
			mid = append(mid, regActions(ver, []string{"BREW", ""}, []string{"/a"}, true)...)
			if tier == "thorough" {
				res = append(res, historyScenario(ver, "wide", 3, mid), historyScenario(ver, "deep", 4, small))
			} else {
				res = append(res, historyScenario(ver, "wide", 2, mid), historyScenario(ver, "deep", 3, small))
			}
			resp := obj{"200": obj{"description": "d"}}
			initial := obj{"openapi": "3.0.3", "info": obj{"title": "t", "version": "v"}, "paths": obj{
				"/a":      obj{"summary": "path", "x-p": obj{"y": 1}, "get": obj{"summary": "old", "responses": resp, "x-o": 1}, "parameters": arr{obj{"name": "q", "in": "query", "schema": obj{"type": "string"}}}},
				"/a/{id}": obj{"description": "path", "servers": arr{obj{"url": "/"}}, "get": obj{"responses": resp, "parameters": arr{obj{"name": "id", "in": "path", "required": true, "schema": obj{"type": "string"}}}}},
				"/z":      obj{"delete": obj{"responses": resp, "operationId": "z"}}}}
			if ver == "3.1" {
				initial["openapi"] = "3.1.0"
				initial["webhooks"] = obj{"hook": obj{"summary": "hook", "put": obj{"responses": resp}}}
			}
			res = append(res, historyScenario(ver, "preloaded", 2, mid, initial), methodScenario(ver))
		}
		return res
	}})
}

// methodScenario registers two operations on a path for all methods in three spellings.
func methodScenario(ver string) *engine.Scenario {
	var ms []string
	for _, m := range keys(validMethods) {
		ms = append(ms, m, strings.ToUpper(m), strings.ToUpper(m[:1])+m[1:])
	}
	ms = append(ms, "", "connect", "GETX", " get", "ge", "parameters", "summary")
	return &engine.Scenario{
		Name:  ver + " methods",
		Bound: fmt.Sprintf("all pairs of calls with %d method spellings through three entry points", len(ms)),
		Run: func(c *engine.Ctx) {
			s := &regState{c: c, a: newAPI(ver), m: regModel{paths: obj{}, hooks: obj{}}}
			for i := 0; i < 2; i++ {
				m := engine.Pick(c, "method", ms)
				switch c.Choose("entry", 3) {
				case 0:
					if x := s.newCtx(m, "/p", nil, "201"); x != nil {
						s.commit(x, false)
					}
				case 1:
					s.specAdd(m, "/p", nil, "")
				case 2:
					s.setup(m, "/p", "mark")
				}
				s.check(m)
			}
			c.Outcome(js(s.m.paths))
		},
	}
}
