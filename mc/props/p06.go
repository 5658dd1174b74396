package props

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/swaggest/openapi-go"
	"verif/mc/engine"
)

// P06: placeholders of the path pattern against declared path parameters.

var segs06 = []string{
	"/a", "/{id}", "/{id:[0-9]+}", "/{id:[0-9]{3}}", "/{idx}", "{name}", "-{i}.", "/{id:a:b}", "/{name:(a|{1,2}b){2}}", "/{x-y_1.z}", "/", "/{Ünï:.*}", "/:id", "/*",
	"/{id:id}", "/{a b}",
}

var cleanScenario = func(max int) *engine.Scenario {
	return &engine.Scenario{
		Name:  "clean",
		Bound: fmt.Sprintf("all paths of up to %d segments of %d", max, len(segs06)),
		Run: func(c *engine.Ctx) {
			n := 1 + c.Choose("segments", max)
			p := ""
			for i := 0; i < n; i++ {
				p += engine.Pick(c, "segment", segs06)
			}
			m := engine.Pick(c, "method", []string{"GET", "options", "Trace"})
			want, names := parsePath(p)
			c.Step(1)
			method, clean, params, err := openapi.SanitizeMethodPath(m, p)
			if err != nil {
				c.Failf("reject", "path %q is rejected: %v", p, err)
			}
			if method != strings.ToLower(m) || clean != want || len(params) != len(names) || len(names) > 0 && !reflect.DeepEqual(params, names) {
				c.Failf("clean", "path %q of %s: got %q %q %q, want %q %q", p, m, method, clean, params, want, names)
			}
			// Cleaning is idempotent.
			_, again, params2, err := openapi.SanitizeMethodPath(method, clean)
			if err != nil || again != clean || !reflect.DeepEqual(params, params2) {
				c.Failf("idempotent", "clean path %q of %q cleans to %q %q %v", clean, p, again, params2, err)
			}
			c.StateBytes([]byte(clean))
			c.Outcome(clean)
		},
	}
}

var (
	paths06 = []string{"/a", "/{id}", "/{id:[0-9]+}/{name}", "/{id}/{id}", "/{idx}", "/{id}/x/{idx:[a-z]{2}}", "/{name}{id}"}
	decl06  = [][2]string{{"path", "id"}, {"path", "name"}, {"path", "idx"}, {"query", "id"}, {"header", "id"}, {"query", "idpath"}, {"cookie", "name"}}
)

// structOf makes a request structure with one string field for every parameter.
func structOf(params [][2]string) interface{} {
	var fs []reflect.StructField
	for i, p := range params {
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: reflect.TypeOf(""), Tag: reflect.StructTag(fmt.Sprintf("%s:%q", p[0], p[1]))})
	}
	return reflect.New(reflect.StructOf(fs)).Interface()
}

// matchScenario declares all small multisets of parameters, in several forms.
func matchScenario(ver string, max int) *engine.Scenario {
	return &engine.Scenario{
		Name:  ver + " match",
		Bound: fmt.Sprintf("%d paths, all multisets of up to %d of %d parameters, 6 forms of declaration, up to 2 references to parameters", len(paths06), max, len(decl06)),
		Run: func(c *engine.Ctx) {
			path := engine.Pick(c, "path", paths06)
			n := c.Choose("params", max+1)
			var params [][2]string
			from := 0
			for i := 0; i < n; i++ {
				k := from + c.Choose("param", len(decl06)-from)
				from = k
				params = append(params, decl06[k])
			}
			method := engine.Pick(c, "method", []string{"GET", "POST"})
			form := engine.Pick(c, "form", []string{"struct", "structs", "operation", "mixed", "spec", "setup"})
			clean, names := parsePath(path)
			accept := paramsMatch(params, names)
			refs := 0 // References to parameters are not known by name.
			if form != "struct" && form != "structs" && n > 0 {
				refs = c.Choose("references", 3)
			}
			a := newAPI(ver)
			var err error
			switch form {
			case "spec":
				err = a.specAdd(method, path, opSpec{params: params, refParams: refs})
			case "setup":
				err = a.setup(method, path, func(set func(opSpec)) error {
					set(opSpec{params: params, refParams: refs})
					return nil
				})
			default:
				oc, err1 := a.refl().NewOperationContext(method, path)
				if err1 != nil {
					c.Failf("context", "%v", err1)
				}
				switch form {
				case "struct":
					if len(params) > 0 {
						oc.AddReqStructure(structOf(params))
					}
				case "structs":
					for _, p := range params {
						oc.AddReqStructure(structOf([][2]string{p}))
					}
				case "operation":
					applyTo(oc, opSpec{params: params, refParams: refs})
				case "mixed":
					if len(params) > 0 {
						applyTo(oc, opSpec{params: params[:1], refParams: refs})
						if len(params) > 1 {
							oc.AddReqStructure(structOf(params[1:]))
						}
					}
				}
				err = a.refl().AddOperation(oc)
			}
			c.Step(1)
			c.Logf("%s %s %s %v: accept=%v err=%v", form, method, path, params, accept, err)
			if accept && err != nil {
				c.Failf("rejected", "%s: %s %s with %v (%s) must be accepted: %v", ver, method, path, params, form, err)
			}
			if !accept && err == nil {
				c.Failf("accepted", "%s: %s %s with %v (%s) must be rejected", ver, method, path, params, form)
			}
			d, b, err := docOf(a.spec())
			if err != nil {
				c.Failf("save", "%v", err)
			}
			c.StateBytes(b)
			op := sub(d, "paths", clean, strings.ToLower(method))
			if accept != (len(sub(d, "paths")) == 1) {
				c.Failf("presence", "%s: accepted=%v, document: %s", ver, accept, b)
			}
			if accept {
				got := map[[2]string]int{}
				ps, _ := op["parameters"].(arr)
				for _, p := range ps {
					o := p.(obj)
					if o["$ref"] != nil {
						got[[2]string{"$ref", ""}]++
						continue
					}
					got[[2]string{o["in"].(string), o["name"].(string)}]++
				}
				for _, p := range params {
					if got[p] != 1 {
						c.Failf("params", "%s: parameter %v is declared %d times: %s", ver, p, got[p], b)
					}
				}
				if len(ps) != len(params)+refs || got[[2]string{"$ref", ""}] != refs {
					c.Failf("params count", "%s: want %v, got %s", ver, params, js(ps))
				}
			}
			c.Outcome(fmt.Sprint(accept, path, len(params), form))
		},
	}
}

func init() {
	register(&Property{ID: "P06", Scenarios: func(tier string) (res []*engine.Scenario) {
		n, k := 4, 3
		if tier == "thorough" {
			n, k = 5, 5
		}
		res = append(res, cleanScenario(n))
		for _, ver := range versions {
			res = append(res, matchScenario(ver, k))
		}
		return res
	}})
}
