package props

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"
	"verif/mc/engine"
)

// P22: independent specifications do not influence each other.
//
// Every execution is a process of its own: it runs one or two programs, which share nothing but types, under a scheduler that
// lets one of them run at a time and changes the running program at points of the plan: between calls, in hooks and other
// callbacks, and at accesses of package variables, where the sources are instrumented.

const (
	atCall = iota
	atHook
	atVar
)

// pairRun is the job of a process.
type pairRun struct {
	Progs []int `json:"progs"`
	Plan  []int `json:"plan"`  // number of points after which the running program is suspended, for each segment
	Level int   `json:"level"` // points of up to this level count
	Free  bool  `json:"free"`  // no scheduler
	Big   bool  `json:"big"`   // programs with hooks have all operations
}

type pairResult struct {
	Results [][]string `json:"results"`
	Points  [3]int     `json:"points"` // of the first program, by level, cumulative
	Blocked bool       `json:"blocked"`
}

// scheduler lets one program run at a time.
type scheduler struct {
	plan    []int
	level   int
	cur     atomic.Int32
	seg     atomic.Int32
	n       [2]atomic.Int32
	all     [2][3]atomic.Int32
	done    [2]atomic.Bool
	free    atomic.Bool
	moves   atomic.Int64
	resume  [2]chan struct{}
	two     bool
	blocked atomic.Bool
}

func (s *scheduler) point(level int) {
	raceOff()
	defer raceOn()
	s.moves.Add(1)
	me := int(s.cur.Load())
	if s.free.Load() {
		return
	}
	for l := level; l <= atVar; l++ {
		s.all[me][l].Add(1)
	}
	if !s.two || level > s.level {
		return
	}
	n := int(s.n[me].Add(1))
	seg := int(s.seg.Load())
	if seg >= len(s.plan) || n != s.plan[seg] || s.done[1-me].Load() {
		return
	}
	s.seg.Add(1)
	s.hand(me)
	<-s.resume[me]
}

// hand lets the other program run.
func (s *scheduler) hand(me int) {
	s.cur.Store(int32(1 - me))
	s.resume[1-me] <- struct{}{}
}

func (s *scheduler) finished(me int) {
	raceOff()
	defer raceOn()
	s.done[me].Store(true)
	s.moves.Add(1)
	if s.two && !s.done[1-me].Load() && !s.free.Load() {
		s.hand(me)
	}
}

// watch sets programs free if the running one waits for the suspended one.
func (s *scheduler) watch(stop chan struct{}) {
	last, since := int64(-1), time.Now()
	for {
		select {
		case <-stop:
			return
		case <-time.After(100 * time.Millisecond):
		}
		if m := s.moves.Load(); m != last {
			last, since = m, time.Now()
		} else if time.Since(since) > 3*time.Second {
			s.blocked.Store(true)
			s.free.Store(true)
			for i := range s.resume {
				select {
				case s.resume[i] <- struct{}{}:
				default:
				}
			}
			return
		}
	}
}

// indep is a program with its results.
type indep struct {
	name string
	run  func(k *keeper)
}

// keeper has results of a program as they were returned, and points of it.
type keeper struct {
	variant int
	big     bool
	s       *scheduler
	parts   []interface{} // string or []byte
}

func (k *keeper) point()               { k.s.point(atCall) }
func (k *keeper) hook()                { k.s.point(atHook) }
func (k *keeper) note(s string)        { k.parts = append(k.parts, s); k.point() }
func (k *keeper) keep(b []byte)        { k.parts = append(k.parts, b); k.point() }
func (k *keeper) err(err error)        { k.note(errText(err)) }
func (k *keeper) name(s string) string { return fmt.Sprint(s, k.variant) }

func (k *keeper) save(s specDoc) {
	b, err := s.MarshalJSON()
	k.keep(b)
	k.err(err)
	b, err = s.MarshalYAML()
	k.keep(b)
	k.err(err)
}

// install adds hooks with points, which tell the programs apart.
func (k *keeper) install(a api) {
	r := a.jsr()
	r.DefaultOptions = append(r.DefaultOptions,
		jsonschema.InterceptSchema(func(p jsonschema.InterceptSchemaParams) (bool, error) {
			k.hook()
			if oc, ok := openapi.OperationCtx(p.Context); ok && p.Processed && p.Value.Kind() == reflect.String {
				p.Schema.WithTitle(fmt.Sprint(k.variant, oc.Method(), oc.PathPattern(), oc.ProcessingIn(), oc.IsProcessingResponse()))
			}
			return false, nil
		}),
		jsonschema.InterceptProp(func(p jsonschema.InterceptPropParams) error {
			k.hook()
			if p.Processed {
				p.PropertySchema.WithExtraPropertiesItem("x-by", k.name(p.Name))
			}
			return nil
		}))
}

// pausing is a value that is suspended while it is saved.
type pausing struct{ k *keeper }

func (p pausing) MarshalJSON() ([]byte, error) {
	p.k.hook()
	return []byte(fmt.Sprintf(`{"v":[%d,"%s"]}`, p.k.variant, strings.Repeat(string(rune('a'+p.k.variant)), 40))), nil
}

func independentPrograms() (res []indep) {
	add := func(name string, f func(k *keeper)) { res = append(res, indep{name, f}) }
	order := func(k *keeper) []program {
		ps := richPrograms()
		if k.variant == 1 {
			for i := 0; i < len(ps)/2; i++ {
				ps[i], ps[len(ps)-1-i] = ps[len(ps)-1-i], ps[i]
			}
		}
		if !k.big {
			ps = ps[:5]
		}
		return ps
	}
	// Programs with hooks have few operations, for there are many points in them.
	hooked := func(k *keeper) []program {
		if k.big {
			return order(k)
		}
		ps := richPrograms()
		return [][]program{{ps[1], ps[2], ps[4]}, {ps[3], ps[1], ps[2]}}[k.variant]
	}
	for _, ver := range versions {
		ver := ver
		build := func(k *keeper, a api) {
			s := a.refl().SpecSchema()
			s.SetTitle(k.name("title"))
			s.SetVersion(k.name("v"))
			s.SetDescription(k.name("d"))
			s.SetAPIKeySecurity("a", k.name("f"), openapi.InQuery, k.name("e"))
			s.SetHTTPBearerTokenSecurity(k.name("b"), "", "")
			for i, p := range order(k) {
				k.err(p.add(a.refl()))
				if a.hasWebhooks() && i%3 == 0 {
					p.path = fmt.Sprint("hook", i)
					oc, err := p.context(a.refl())
					if err == nil {
						err = a.webhook(oc)
					}
					k.err(err)
				}
			}
		}
		few := func(k *keeper, a api) {
			a.refl().SpecSchema().SetTitle(k.name("title"))
			for _, p := range hooked(k) {
				k.err(p.add(a.refl()))
			}
		}
		add(ver+" operations", func(k *keeper) {
			a := newAPI(ver)
			build(k, a)
			k.save(a.spec())
			k.note(strings.Join(a.schemaNames(), " "))
		})
		add(ver+" operations with hooks", func(k *keeper) {
			a := newAPI(ver)
			k.install(a)
			few(k, a)
			k.save(a.spec())
		})
		add(ver+" configured", func(k *keeper) {
			a := newAPI(ver)
			r := a.jsr()
			switch k.variant {
			case 0:
				r.InterceptDefName(func(t reflect.Type, name string) string { k.hook(); return "Own" + name })
				r.AddTypeMapping(uPlain{}, "")
				r.InlineDefinition(ordEnum(""))
			default:
				r.DefaultOptions = append(r.DefaultOptions, jsonschema.StripDefinitionNamePrefix("Props"), jsonschema.PropertyNameTag("form"))
				r.AddTypeMapping(ordSub{}, uPlain{})
				r.InlineDefinition(uNest{})
			}
			few(k, a)
			k.save(a.spec())
		})
		add(ver+" load", func(k *keeper) {
			a := newAPI(ver)
			few(k, a)
			b, _ := a.spec().MarshalJSON()
			y, _ := a.spec().MarshalYAML()
			docs := [][]byte{[]byte(startDocs(ver)[1]), b, []byte(strings.Replace(string(b), `"title":`, `"titel":`, 1)), []byte(`{`)}
			if k.variant == 1 {
				docs[0], docs[1], docs[3] = docs[1], docs[0], []byte(`{"openapi":1}`)
			}
			if !k.big {
				docs = [][]byte{docs[k.variant], docs[2+k.variant]}
			}
			for _, d := range docs {
				x := newAPI(ver)
				k.err(x.load(d, false))
				if x.spec() != nil {
					k.save(x.spec())
				}
			}
			x := newAPI(ver)
			k.err(x.load(y, true))
			k.save(x.spec())
		})
		add(ver+" convert", func(k *keeper) {
			comps := toSchemas(ver, schemaComponents)
			if k.variant == 1 {
				for _, n := range keys(comps)[1:] {
					comps[n] = obj{"type": "boolean", "description": k.name("d")}
				}
			}
			for _, n := range keys(comps) {
				k.note(conversions(ver, []byte(`{"$ref":"#/components/schemas/`+n+`"}`), comps))
				k.note(conversions(ver, []byte(js(comps[n])), comps))
			}
		})
		add(ver+" walk", func(k *keeper) {
			for _, p := range hooked(k) {
				a := newAPI(ver)
				k.install(a)
				k.note(walked(a.refl().(walker), p))
			}
		})
		add(ver+" values", func(k *keeper) {
			a := newAPI(ver)
			v := pausing{k}
			switch x := a.(type) {
			case *api30:
				x.r.SpecEns().WithMapOfAnythingItem("x-m", v)
				x.r.SpecEns().Info.WithMapOfAnythingItem("x-i", v)
				x.r.SpecEns().ComponentsEns().ExamplesEns().WithMapOfExampleOrRefValuesItem("e", openapi3.ExampleOrRef{Example: (&openapi3.Example{}).WithValue(v)})
			case *api31:
				x.r.SpecEns().WithMapOfAnythingItem("x-m", v)
				x.r.SpecEns().Info.WithMapOfAnythingItem("x-i", v)
				x.r.SpecEns().ComponentsEns().WithExamplesItem("e", openapi31.ExampleOrReference{Example: (&openapi31.Example{}).WithValue(v)})
			}
			k.save(a.spec())
			oc, err := a.refl().NewOperationContext("POST", "/"+k.name("v"))
			k.err(err)
			type in struct {
				A string `json:"a" description:"d"`
			}
			oc.AddReqStructure(in{A: k.name("a")}, func(cu *openapi.ContentUnit) {
				cu.Customize = func(cor openapi.ContentOrReference) { k.hook() }
				cu.Description = k.name("c")
			})
			oc.AddRespStructure(in{}, openapi.WithCustomize(func(cor openapi.ContentOrReference) {
				k.hook()
				cor.SetReference("#/components/responses/" + k.name("r"))
			}))
			k.err(a.refl().AddOperation(oc))
			k.save(a.spec())
		})
	}
	add("3.0 deprecated", func(k *keeper) {
		for way := 0; way < 4; way++ {
			if !k.big && way%2 == k.variant {
				continue
			}
			r := openapi3.NewReflector()
			h := &oldHooks{}
			h.install(&r.Reflector)
			for _, p := range hooked(k) {
				oc, err := p.context(r)
				if err != nil {
					k.err(err)
					continue
				}
				k.err(setUpOld(r, p, oc, way))
			}
			k.note(saved(r.SpecEns()))
			k.note(strings.Join(h.calls, "\n") + h.bad)
		}
	})
	return res
}

// RunPair is the process of an execution.
func RunPair(job string) int {
	var j pairRun
	if err := json.Unmarshal([]byte(job), &j); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	progs := independentPrograms()
	s := &scheduler{plan: j.Plan, level: j.Level, two: len(j.Progs) == 2}
	s.resume = [2]chan struct{}{make(chan struct{}), make(chan struct{})}
	s.free.Store(j.Free)
	setPoints(func() { s.point(atVar) })
	var ks []*keeper
	var wg sync.WaitGroup
	stop := make(chan struct{})
	if !j.Free {
		go s.watch(stop)
	}
	for i, p := range j.Progs {
		k := &keeper{variant: p % 2, s: s, big: j.Big}
		ks = append(ks, k)
		wg.Add(1)
		i, p := i, p
		go func() {
			defer wg.Done()
			if i == 1 && !j.Free {
				raceOff()
				<-s.resume[1]
				raceOn()
			}
			progs[p/2].run(k)
			s.finished(i)
		}()
	}
	wg.Wait()
	close(stop)
	res := pairResult{Blocked: s.blocked.Load()}
	for l := range res.Points {
		res.Points[l] = int(s.all[0][l].Load())
	}
	for _, k := range ks {
		var parts []string
		for _, p := range k.parts {
			if b, ok := p.([]byte); ok {
				parts = append(parts, string(b))
			} else {
				parts = append(parts, p.(string))
			}
		}
		res.Results = append(res.Results, parts)
	}
	if err := json.NewEncoder(os.Stdout).Encode(res); err != nil {
		return 2
	}
	return 0
}

// runProcess runs the job in a process.
func runProcess(c *engine.Ctx, j pairRun, what string) pairResult {
	b, err := json.Marshal(j)
	if err != nil {
		panic("engine: " + err.Error())
	}
	self, err := os.Executable()
	if err != nil {
		panic("engine: " + err.Error())
	}
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, self)
	cmd.Env = append(os.Environ(), "MC_PAIR="+string(b), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "GOMAXPROCS=2", "GOGC=off")
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	err = cmd.Run()
	msg := errs.String()
	if len(msg) > 3000 {
		msg = msg[:3000]
	}
	var res pairResult
	switch {
	case err == nil:
		if err := json.Unmarshal(out.Bytes(), &res); err != nil {
			panic("engine: " + err.Error())
		}
	case ctx.Err() != nil:
		c.Failf("does not end", "%s: does not end", what)
	case cmd.ProcessState != nil && cmd.ProcessState.ExitCode() == 66:
		c.Failf("data race", "%s: unsynchronized access of shared memory:\n%s", what, msg)
	case cmd.ProcessState != nil && cmd.ProcessState.ExitCode() == 2:
		c.Failf("panic", "%s: %s", what, msg)
	default:
		panic(fmt.Sprintf("engine: process: %v %s", err, msg))
	}
	c.Step(1)
	return res
}

type aloneResult struct {
	once sync.Once
	res  pairResult
	bad  interface{}
}

var aloneResults sync.Map

// alone is the result of the program in a process of its own.
func alone(c *engine.Ctx, p int, name string) pairResult {
	v, _ := aloneResults.LoadOrStore(p, &aloneResult{})
	r := v.(*aloneResult)
	r.once.Do(func() {
		defer func() { r.bad = recover() }()
		r.res = runProcess(c, pairRun{Progs: []int{p}, Big: c.Tier == "thorough"}, name+" alone")
	})
	if r.bad != nil {
		panic(r.bad)
	}
	return r.res
}

func firstDiff(want, got []string) string {
	for i := range want {
		if i >= len(got) {
			return "results are missing"
		}
		if want[i] != got[i] {
			n := 0
			for n < len(want[i]) && n < len(got[i]) && want[i][n] == got[i][n] {
				n++
			}
			if n > 60 {
				n -= 60
			} else {
				n = 0
			}
			cut := func(s string) string {
				if s = s[n:]; len(s) > 300 {
					s = s[:300]
				}
				return s
			}
			return fmt.Sprintf("result %d is ...%s\nalone it is ...%s", i, cut(got[i]), cut(want[i]))
		}
	}
	if len(got) != len(want) {
		return "there are more results"
	}
	return ""
}

func pairNames(ps []indep) (res []string) {
	for _, p := range ps {
		res = append(res, p.name+" A", p.name+" B")
	}
	return
}

func checkPair(c *engine.Ctx, names []string, j pairRun) {
	what := fmt.Sprintf("%s and %s, suspended after points %v of level %d, free: %v", names[j.Progs[0]], names[j.Progs[1]], j.Plan, j.Level, j.Free)
	c.Logf("%s", what)
	want := []pairResult{alone(c, j.Progs[0], names[j.Progs[0]]), alone(c, j.Progs[1], names[j.Progs[1]])}
	j.Big = c.Tier == "thorough"
	got := runProcess(c, j, what)
	for i := range want {
		if d := firstDiff(want[i].Results[0], got.Results[i]); d != "" {
			c.Failf("result", "%s: of %s, %s", what, names[j.Progs[i]], d)
		}
		for _, s := range got.Results[i] {
			c.State(s)
		}
	}
	c.Outcome(fmt.Sprint(names[j.Progs[0]], len(got.Results[0]), names[j.Progs[1]], len(got.Results[1])))
}

func init() {
	register(&Property{ID: "P22", Assumptions: []string{
		fmt.Sprintf("race monitor: %v, points at accesses of package variables: %v", raceMonitored, instrumented),
		"code between two points is atomic for the scheduler; accesses of shared memory there are left to the race monitor, which does not see the synchronization of the scheduler",
	}, Scenarios: func(tier string) (res []*engine.Scenario) {
		names := pairNames(independentPrograms())
		pairs := func(c *engine.Ctx) (j pairRun) {
			n := len(names)
			j.Progs = []int{c.Choose("first", n), c.Choose("second", n)}
			return
		}
		// suspend chooses the points.
		suspend := func(c *engine.Ctx, j *pairRun, level int) {
			j.Level = level
			for i := range j.Progs {
				n := alone(c, j.Progs[i], names[j.Progs[i]]).Points[level]
				if i == len(j.Progs)-1 && level != atCall {
					break
				}
				if n == 0 {
					c.Skip()
				}
				j.Plan = append(j.Plan, c.Choose("point", n)+1)
			}
		}
		res = append(res, &engine.Scenario{Name: "one after another", Bound: fmt.Sprintf("all ordered pairs of %d programs in new processes, one after another or both running free", len(names)), Run: func(c *engine.Ctx) {
			j := pairs(c)
			j.Free = c.Bool("free")
			checkPair(c, names, j)
		}})
		near := func(j pairRun) bool {
			a, b := j.Progs[0], j.Progs[1]
			if tier == "thorough" {
				return true
			}
			x, y := strings.TrimLeft(names[a], "3.01"), strings.TrimLeft(names[b], "3.01")
			return a%2 == 0 && b%2 == 1 && strings.TrimRight(x, "AB") == strings.TrimRight(y, "AB")
		}
		res = append(res, &engine.Scenario{Name: "suspended once", Bound: "pairs of programs of the same kind (all in the thorough tier), the first suspended at every call, hook, callback or access of a package variable", Run: func(c *engine.Ctx) {
			j := pairs(c)
			if !near(j) {
				c.Skip()
			}
			suspend(c, &j, atVar)
			checkPair(c, names, j)
		}})
		if tier == "thorough" {
			res = append(res, &engine.Scenario{Name: "both suspended in callbacks", Bound: "pairs of programs with values of the user, both suspended once at every call, hook, callback or access of a package variable", Run: func(c *engine.Ctx) {
				j := pairs(c)
				if !strings.Contains(names[j.Progs[0]], "values") || !strings.Contains(names[j.Progs[1]], "values") {
					c.Skip()
				}
				suspend(c, &j, atVar)
				j.Plan = append(j.Plan, c.Choose("point", alone(c, j.Progs[1], names[j.Progs[1]]).Points[atVar])+1)
				checkPair(c, names, j)
			}})
		}
		return append(res, &engine.Scenario{Name: "both suspended", Bound: "the two variants of every program (all pairs in the thorough tier), both suspended once between any two calls", Run: func(c *engine.Ctx) {
			j := pairs(c)
			if !near(j) || tier != "thorough" && j.Progs[0]+1 != j.Progs[1] {
				c.Skip()
			}
			suspend(c, &j, atCall)
			checkPair(c, names, j)
		}})
	}})
}
