package props

import (
	"fmt"
	"sort"
	"strings"
	"sync"

	"github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"
	"verif/mc/engine"
	dup1 "verif/mc/props/u1/dup"
	dup2 "verif/mc/props/u2/dup"
)

// P14: results do not depend on the order of iteration over maps.

// orderIter is an iteration of a map in the library: its place and size of the map.
type orderIter struct {
	site uintptr
	used uint64
}

// orderRun has decisions about the iterations of a run, which it records: iterations of the plan, and those at a site, have
// the given order, others that of insertion. If all is set, it is the order of every iteration.
type orderRun struct {
	iters []orderIter
	at    [2]int
	ord   [2]int
	n     int
	site  uintptr
	all   int
}

func (r *orderRun) next(used uint64, site uintptr) uint64 {
	i := len(r.iters)
	if i == cap(r.iters) || site == 0 {
		if r.site != 0 {
			return packOrder(used, 0)
		}
		return packOrder(used, r.all)
	}
	r.iters = append(r.iters, orderIter{site, used})
	v := 0
	if r.site == 0 || r.site == site {
		v = r.all
	}
	for k := 0; k < r.n; k++ {
		if r.at[k] == i {
			v = r.ord[k]
		}
	}
	return packOrder(used, v)
}

// orders is the number of orders explored for a map of the size: all permutations of up to 3 elements (4 in the thorough
// tier), rotations, the reversal and exchanges of neighbours for up to 8, offsets for larger maps.
func orders(used uint64, thorough bool) int {
	switch {
	case used > 8:
		return 16
	case used <= 3 || used == 4 && thorough:
		f := 1
		for i := 2; i <= int(used); i++ {
			f *= i
		}
		return f
	default:
		return 2 * int(used)
	}
}

// packOrder encodes order number v for the iterator, number 0 is the order of insertion. It does not allocate.
func packOrder(used uint64, v int) uint64 {
	if used > 8 {
		return 1<<32 | uint64(v)
	}
	var p [8]uint64
	n := int(used)
	for i := range p {
		p[i] = uint64(i)
	}
	switch f := [...]int{1, 1, 2, 6, 24}; {
	case n <= 4:
		for k := n; k > 1; k-- {
			j := (v / f[k-1]) % k
			x := p[n-k+j]
			copy(p[n-k+1:n-k+j+1], p[n-k:n-k+j])
			p[n-k] = x
		}
	default:
		v %= 2 * n
		switch {
		case v < n:
			for i := 0; i < n; i++ {
				p[i] = uint64((i + v) % n)
			}
		case v == n:
			for i := 0; i < n; i++ {
				p[i] = uint64(n - 1 - i)
			}
		default:
			i := v - n - 1
			p[i], p[i+1] = p[i+1], p[i]
		}
	}
	r := uint64(0)
	for i := 0; i < n; i++ {
		r |= p[i] << (3 * i)
	}
	return r
}

const (
	maxIterations   = 1 << 14
	firstIterations = 3
)

var orderBufs sync.Pool

// ordered runs f with the orders of the run.
func ordered(r *orderRun, f func() string) (res string) {
	buf, _ := orderBufs.Get().([]orderIter)
	if buf == nil {
		buf = make([]orderIter, 0, maxIterations)
	}
	r.iters = buf[:0]
	controlled(r, func() { res = f() })
	iters := append([]orderIter(nil), r.iters...)
	orderBufs.Put(r.iters)
	r.iters = iters
	return
}

type orderBase struct {
	res   string
	iters []orderIter
	sites []orderIter // with the largest map
	first []int       // the first iterations at every site
}

var (
	orderBaseMu sync.Mutex
	orderBases  = map[string]orderBase{}
)

// baseline is the run with orders of insertion, repeated until caches of the process are warm.
func baseline(c *engine.Ctx, key string, f func() string) orderBase {
	orderBaseMu.Lock()
	b, ok := orderBases[key]
	if len(orderBases) > 256 {
		orderBases = map[string]orderBase{}
	}
	orderBaseMu.Unlock()
	if ok {
		return b
	}
	for i := 0; ; i++ {
		var r orderRun
		res := ordered(&r, f)
		if i > 0 && fmt.Sprint(r.iters) == fmt.Sprint(b.iters) {
			if res != b.res {
				c.Failf("repeated", "%s: two runs with the same orders give\n%s\n%s", key, b.res, res)
			}
			break
		}
		if i > 5 {
			panic("engine: iterations differ between runs of " + key)
		}
		b = orderBase{res: res, iters: r.iters}
	}
	if len(b.iters) == maxIterations {
		panic("engine: too many iterations")
	}
	count := map[uintptr]int{}
	for i, it := range b.iters {
		if count[it.site] == 0 {
			b.sites = append(b.sites, it)
		}
		if count[it.site]++; count[it.site] <= firstIterations {
			b.first = append(b.first, i)
		}
		for k := range b.sites {
			if x := &b.sites[k]; x.site == it.site && x.used < it.used {
				x.used = it.used
			}
		}
	}
	orderBaseMu.Lock()
	orderBases[key] = b
	orderBaseMu.Unlock()
	return b
}

// orderCheck explores orders of iterations of f.
func orderCheck(c *engine.Ctx, tier, key string, f func() string) {
	thorough := tier == "thorough"
	b := baseline(c, fmt.Sprint(key, " ", c.TraceVector()), f)
	c.Logf("%s: %d iterations: %s", key, len(b.iters), b.res)
	var r orderRun
	n := len(b.iters)
	order := func(i int) int { return 1 + c.Choose("order", orders(b.iters[i].used, thorough)-1) }
	modes := 3
	if thorough {
		modes = 4
	}
	switch c.Choose("deviation", modes) {
	case 0: // every iteration
		r.all = c.Choose("order", 16)
	case 1: // every iteration at one place
		if n == 0 {
			c.Skip()
		}
		s := engine.Pick(c, "site", b.sites)
		r.site = s.site
		r.all = 1 + c.Choose("order", orders(s.used, thorough)-1)
	case 2: // one iteration
		switch {
		case n == 0:
			c.Skip()
		case thorough:
			r.at[0] = c.Choose("iteration", n)
		default:
			r.at[0] = engine.Pick(c, "iteration", b.first)
		}
		r.n = 1
		r.ord[0] = order(r.at[0])
	case 3: // two iterations of those that are close are reversed
		if n < 2 || n > 300 {
			c.Skip()
		}
		r.n = 2
		r.at[0] = c.Choose("iteration", n-1)
		d := n - 1 - r.at[0]
		if d > 12 {
			d = 12
		}
		r.at[1] = r.at[0] + 1 + c.Choose("distance", d)
		for k, i := range r.at {
			r.ord[k] = orders(b.iters[i].used, true) - 1
			if s := b.iters[i].used; s > 4 && s <= 8 {
				r.ord[k] = int(s)
			}
		}
	}
	c.Step(1)
	res := ordered(&r, f)
	c.State(fmt.Sprint(key, r.site, r.all, r.at, r.ord))
	if res != b.res {
		what := ""
		for k := 0; k < r.n; k++ {
			it := b.iters[r.at[k]]
			what += fmt.Sprintf(" iteration %d (%s) of a map of %d elements in order %d,", r.at[k], siteName(it.site), it.used, r.ord[k])
		}
		switch {
		case r.site != 0:
			what = fmt.Sprintf(" order %d at %s,", r.all, siteName(r.site))
		case r.n == 0:
			what = fmt.Sprintf(" order %d everywhere,", r.all)
		}
		x, y := b.res, res
		i := 0
		for i < len(x) && i < len(y) && x[i] == y[i] {
			i++
		}
		i -= 60
		if i < 0 {
			i = 0
		}
		c.Failf(strings.Fields(key)[0]+" order", "%s:%s results differ at %d: %.200q and %.200q", key, what, i, x[i:], y[i:])
	}
	c.Outcome(b.res)
}

func errText(err error) string {
	if err == nil {
		return "ok"
	}
	return err.Error()
}

func saved(s specDoc) string {
	j, err1 := s.MarshalJSON()
	y, err2 := s.MarshalYAML()
	return fmt.Sprintf("%s %s\n%s %s", j, errText(err1), y, errText(err2))
}

// walked is the set of walked schemas.
func walked(w walker, p program) string {
	var res []string
	for _, u := range p.units {
		var cu openapi.ContentUnit
		oc, err := newAPI("3.0").refl().NewOperationContext(p.method, p.path)
		if err != nil {
			continue
		}
		u.addTo(oc)
		if u.resp {
			cu = oc.Response()[0]
		} else {
			cu = oc.Request()[0]
		}
		one := program{method: p.method, path: p.path, units: []opUnit{u}}
		vs, n, dones, _, err := walkOf(w, one, cu, -1, true)
		var l []string
		for _, v := range vs {
			l = append(l, v.String())
		}
		sort.Strings(l)
		res = append(res, fmt.Sprint(l, n, dones, err))
	}
	return strings.Join(res, "\n")
}

// runPrograms adds operations, saves and walks.
func runPrograms(ver string, ps ...program) string {
	a := newAPI(ver)
	var sb strings.Builder
	for _, p := range ps {
		fmt.Fprintln(&sb, errText(p.add(a.refl())))
	}
	sb.WriteString(saved(a.spec()))
	for _, p := range ps {
		sb.WriteString(walked(newAPI(ver).refl().(walker), p))
	}
	return sb.String()
}

// ---- operations with several things of each kind

type (
	ordSub struct {
		A  int             `json:"a"`
		B  *ordSub         `json:"b"`
		C  []ordEnum       `json:"c"`
		D  map[string]int  `json:"d"`
		E  uGen[uPlain]    `json:"e"`
		F  dup1.T          `json:"f"`
		G  dup2.T          `json:"g"`
		Hi func() struct{} `json:"-"`
	}
	ordEnum string
	ordReq  struct {
		P1 int      `path:"p1"`
		P2 string   `path:"p2"`
		P3 ordEnum  `path:"p3"`
		Q1 []int    `query:"q1"`
		Q2 ordSub   `query:"q2"`
		Q3 ordEnum  `query:"q3"`
		H1 int      `header:"H1"`
		H2 ordEnum  `header:"H2"`
		C1 int      `cookie:"c1"`
		C2 ordEnum  `cookie:"c2"`
		X1 ordSub   `json:"x1" required:"true"`
		X2 *ordSub  `json:"x2" required:"true"`
		X3 ordEnum  `json:"x3"`
		X4 []uPlain `json:"x4"`
		_  struct{} `query:"_" additionalProperties:"false"`
	}
	ordForm struct {
		A ordEnum   `formData:"a" required:"true"`
		B ordFormIn `formData:"b" required:"true"`
		C []ordEnum `formData:"c"`
	}
	ordFormIn struct {
		X int     `formData:"x"`
		Y ordEnum `formData:"y"`
	}
	ordMapped struct {
		A int    `json:"a"`
		B string `json:"b"`
		C ordEnum
		D int
		E string
	}
	ordPlain struct {
		A int
		B string
		C ordEnum
	}
	ordResp struct {
		H1 int     `header:"X-H1"`
		H2 ordEnum `header:"X-H2"`
		H3 string  `header:"X-H3"`
		A  ordSub  `json:"a"`
		B  ordEnum `json:"b"`
		C  uNest   `json:"c"`
	}
	ordBad struct {
		X int `path:"x1"`
		Y int `path:"x2"`
		Z int `path:"x3"`
	}
)

func (ordEnum) Enum() []interface{} { return []interface{}{"x", "y"} }

func richPrograms() []program {
	req := func(s interface{}, m map[openapi.In]map[string]string) opUnit {
		return opUnit{desc: fmt.Sprintf("%T", s), addTo: func(oc openapi.OperationContext) {
			oc.AddReqStructure(s, func(cu *openapi.ContentUnit) {
				for in, x := range m {
					cu.SetFieldMapping(in, x)
				}
			})
		}}
	}
	resp := func(s interface{}, status int, ct string) opUnit {
		return opUnit{resp: true, desc: fmt.Sprintf("%T %d %s", s, status, ct), addTo: func(oc openapi.OperationContext) {
			oc.AddRespStructure(s, func(cu *openapi.ContentUnit) { cu.HTTPStatus = status; cu.ContentType = ct })
		}}
	}
	security := func(oc openapi.OperationContext) {
		oc.AddSecurity("a", "r", "w")
		oc.AddSecurity("b")
		oc.SetTags("x", "y")
	}
	return []program{
		{method: "POST", path: "/r/{p1}/{p2}/{p3}", units: []opUnit{req(ordReq{}, nil), resp(ordResp{}, 200, ""), resp(ordSub{}, 404, ""), resp(nil, 400, "text/plain"), resp("", 400, "text/html"), resp(uNest{}, 5, "")}, setup: security},
		{method: "POST", path: "/f", units: []opUnit{req(ordForm{}, nil), req(ordSub{}, nil), resp(ordResp{}, 201, ""), resp(uNest{}, 201, "application/vnd.x")}},
		{method: "PUT", path: "/m/{c}/{d}", units: []opUnit{req(ordMapped{}, map[openapi.In]map[string]string{openapi.InPath: {"C": "c", "D": "d"}, openapi.InQuery: {"A": "qa", "B": "qb", "E": "qe"}, openapi.InHeader: {"A": "HA", "B": "HB"}, openapi.InCookie: {"A": "ca", "B": "cb"}}), resp(uOne{}, 200, "")}},
		{method: "PUT", path: "/m2", units: []opUnit{req(ordMapped{}, map[openapi.In]map[string]string{openapi.InFormData: {"A": "fa", "B": "fb", "C": "fc"}}), resp([]ordSub{}, 200, "")}},
		{method: "GET", path: "/m3", units: []opUnit{req(ordPlain{}, map[openapi.In]map[string]string{openapi.InQuery: {"A": "id", "B": "id"}})}},
		{method: "POST", path: "/m4", units: []opUnit{req(ordPlain{}, map[openapi.In]map[string]string{openapi.InFormData: {"A": "id", "B": "id", "C": "c"}})}},
		{method: "GET", path: "/m5", units: []opUnit{{resp: true, desc: "mapped headers", addTo: func(oc openapi.OperationContext) {
			oc.AddRespStructure(ordPlain{}, func(cu *openapi.ContentUnit) {
				cu.SetFieldMapping(openapi.InHeader, map[string]string{"A": "X-Id", "B": "X-Id", "C": "x-id"})
			})
		}}}},
		{method: "GET", path: "/bad/{a}/{b}/{c}/{d}", units: []opUnit{req(ordBad{}, nil), req(ordBad{}, nil)}},
		{method: "GET", path: "/un/{a}/{b}/{c}"},
		{method: "GET", path: "/rec", units: []opUnit{resp(uA{}, 200, ""), resp(uNamed{}, 201, ""), resp(uPair[uGen[[]uPlain], uGen[uPlain]]{}, 202, ""), resp(both(local1(), local2()), 203, "")}},
		{method: "GET", path: "/q", units: []opUnit{req(uQueryJSON{}, nil), req(uQuery{}, nil), resp(map[string]ordSub{}, 200, ""), resp(dup1.L{}, 3, ""), resp(dup2.L{}, 3, "")}},
	}
}

func orderPrograms(ver, tier string) *engine.Scenario {
	n := 1
	if tier == "thorough" {
		n = 2
	}
	rich := richPrograms()
	return &engine.Scenario{
		Name:  fmt.Sprintf("%s %d rich operations", ver, n),
		Bound: fmt.Sprintf("all sequences of %d of %d operations with several parameters, bodies, statuses, headers and components", n, len(rich)),
		Run: func(c *engine.Ctx) {
			var ps []program
			for i := 0; i < n; i++ {
				ps = append(ps, engine.Pick(c, "operation", rich))
			}
			orderCheck(c, tier, ver+" "+fmt.Sprint(ps), func() string { return runPrograms(ver, ps...) })
		},
	}
}

// orderHistory builds a specification with many members.
func orderHistory(ver, tier string) *engine.Scenario {
	rich := richPrograms()
	return &engine.Scenario{
		Name:  ver + " history",
		Bound: "a history of operations, webhooks, metadata and security with saving, loading and conversion, JSON or YAML",
		Run: func(c *engine.Ctx) {
			yaml := c.Bool("yaml")
			two := c.Choose("prefix", 4)
			orderCheck(c, tier, fmt.Sprintf("%s history %v %d", ver, yaml, two), func() string {
				a := newAPI(ver)
				var sb strings.Builder
				note := func(f string, args ...interface{}) { fmt.Fprintf(&sb, f+"\n", args...) }
				a.refl().SpecSchema().SetTitle("t")
				for _, n := range []string{"a", "b", "c"} {
					a.refl().SpecSchema().SetHTTPBearerTokenSecurity(n, "JWT", "d")
				}
				for i, p := range rich[:3+two] {
					note("%s", errText(p.add(a.refl())))
					if a.hasWebhooks() && i < 3 {
						oc, err := a.refl().NewOperationContext(p.method, fmt.Sprint("hook", i))
						if err != nil {
							note("%v", err)
							continue
						}
						oc.AddRespStructure(ordResp{})
						note("%s", errText(a.webhook(oc)))
					}
				}
				note("%s", errText(a.specAdd("delete", "/x/{a}/{b}/{c}", opSpec{params: [][2]string{{"path", "z"}, {"path", "y"}}, status: "200"})))
				note("%s", errText(a.specAdd("get", "/s", opSpec{status: "204"})))
				note("%s", saved(a.spec()))
				b, err := a.spec().MarshalJSON()
				if yaml {
					b, err = a.spec().MarshalYAML()
				}
				note("%s", errText(err))
				a2 := newAPI(ver)
				note("%s", errText(a2.load(b, yaml)))
				note("%s", errText(rich[6].add(a2.refl())))
				note("%s", saved(a2.spec()))
				return sb.String()
			})
		},
	}
}

func orderDocs(ver, tier string, gr grammar, fs []focus) []*engine.Scenario {
	budget := 1
	run := func(in []byte, yaml bool) string {
		s := newSpec(ver)
		f := s.UnmarshalJSON
		if yaml {
			f = s.UnmarshalYAML
		}
		if err := f(in); err != nil {
			return "rejected"
		}
		return saved(s)
	}
	return []*engine.Scenario{
		{Name: ver + " documents", Bound: fmt.Sprintf("all documents within %d deviations of the minimal one of %d objects, and those with all members, loaded from JSON or YAML and saved", budget, len(fs)), Run: func(c *engine.Ctx) {
			f := engine.Pick(c, "focus", fs)
			yaml := c.Bool("yaml")
			in := []byte(js(f.document(c, gr, budget)))
			orderCheck(c, tier, fmt.Sprintf("%s yaml=%v %s", ver, yaml, in), func() string { return run(in, yaml) })
		}},
		{Name: ver + " malformed documents", Bound: fmt.Sprintf("documents with one mutation of each of %d objects", len(fs)), Run: func(c *engine.Ctx) {
			f := engine.Pick(c, "focus", fs)
			doc, class := f.malformed(c, gr, 0)
			if class == "" {
				c.Skip()
			}
			in := []byte(js(doc))
			orderCheck(c, tier, fmt.Sprintf("%s %s", ver, in), func() string { return run(in, false) })
		}},
	}
}

// orderConversions converts schemas between the dialects.
func orderConversions(ver, tier string) *engine.Scenario {
	ks := schemaKeywords(ver)
	n := 2
	comps := toSchemas(ver, schemaComponents)
	return &engine.Scenario{
		Name:  ver + " conversions",
		Bound: fmt.Sprintf("all schemas of up to %d of %d keywords, converted to JSON schema and back", n, len(ks)),
		Run: func(c *engine.Ctx) {
			s := genSchema(c, ks, leafSchemas[:1], n, 0)
			var schema interface{} = norm(s)
			if ver == "3.0" {
				schema = to30(schema)
			}
			if len(mustObj(schema)) == 0 {
				c.Skip()
			}
			in := []byte(js(schema))
			orderCheck(c, tier, ver+" "+string(in), func() string { return conversions(ver, in, comps) })
		},
	}
}

func conversions(ver string, in []byte, comps obj) string {
	doc := []byte(js(obj{"openapi": ver + ".0", "info": obj{"title": "t", "version": "v"}, "paths": obj{}, "components": obj{"schemas": comps}}))
	if ver == "3.0" {
		s := &openapi3.Spec{}
		if err := s.UnmarshalJSON(doc); err != nil {
			return "rejected"
		}
		var sor openapi3.SchemaOrRef
		if err := sor.UnmarshalJSON(in); err != nil {
			return "rejected"
		}
		out := sor.ToJSONSchema(s)
		b, err := out.JSONSchemaBytes()
		var back openapi3.SchemaOrRef
		back.FromJSONSchema(out)
		b2, err2 := back.MarshalJSON()
		return fmt.Sprintf("%s %s\n%s %s", b, errText(err), b2, errText(err2))
	}
	s := &openapi31.Spec{}
	if err := s.UnmarshalJSON(doc); err != nil {
		return "rejected"
	}
	v, err := lenientDecode(in)
	if err != nil {
		return "rejected"
	}
	out := openapi31.ToJSONSchema(v.(obj), s)
	b, err := out.JSONSchemaBytes()
	return fmt.Sprintf("%s %s", b, errText(err))
}

func init() {
	register(&Property{ID: "P14", Scenarios: func(tier string) (res []*engine.Scenario) {
		if !orderControlled {
			return []*engine.Scenario{{Name: "order", Run: func(*engine.Ctx) { controlled(nil, nil) }}}
		}
		check := func(c *engine.Ctx, ver string, p program) {
			orderCheck(c, tier, ver+" "+p.String(), func() string { return runPrograms(ver, p) })
		}
		for _, ver := range versions {
			gr, fs := grammar30()
			if ver == "3.1" {
				gr, fs = grammar31()
			}
			res = append(res, orderPrograms(ver, tier), orderHistory(ver, tier), orderConversions(ver, tier))
			res = append(res, orderDocs(ver, tier, gr, fs)...)
			for _, s := range opScenarios(check, ver, tier, true) {
				if tier != "thorough" && (strings.Contains(s.Name, "field") || strings.Contains(s.Name, "2 units")) {
					continue
				}
				res = append(res, s)
			}
		}
		return res
	}})
}
