// Package engine is a small stateless model checker: a scenario is a nondeterministic
// program that resolves every nondeterministic decision through Ctx.Choose; the explorer
// enumerates all decision vectors depth first, runs the real code on every one of them and
// lets the scenario compare it with its reference model.
package engine

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Scenario is one nondeterministic program over the code under test.
type Scenario struct {
	Name string
	// Bound is a human description of the bound of the enumeration.
	Bound string
	Run   func(c *Ctx)
	// Serial scenarios may not run concurrently with anything else.
	Serial bool
}

type choice struct {
	n, i  int
	label string
}

// Ctx is the decision context of one execution.
type Ctx struct {
	prefix  []int
	trace   []choice
	verbose bool
	log     []string
	steps   int64
	states  []uint64
	outcome uint64
	outName string
	Tier    string
	aborted bool
	Scope   string // for scenarios that keep results between executions
}

type failure struct{ key, msg string }
type skip struct{}

// Choose resolves a decision among n alternatives.
func (c *Ctx) Choose(label string, n int) int {
	if n <= 0 {
		panic("engine: Choose with no alternatives: " + label)
	}
	p := len(c.trace)
	i := 0
	if p < len(c.prefix) {
		i = c.prefix[p]
		if i >= n {
			panic(fmt.Sprintf("engine: nondeterministic scenario: choice %d (%s) has %d alternatives, %d requested", p, label, n, i))
		}
	}
	c.trace = append(c.trace, choice{n, i, label})
	return i
}

// Bool is a binary decision (false first).
func (c *Ctx) Bool(label string) bool { return c.Choose(label, 2) == 1 }

// Pick chooses one element.
func Pick[T any](c *Ctx, label string, xs []T) T { return xs[c.Choose(label, len(xs))] }

// Subset chooses a subset of size at most max of 0..n-1.
func (c *Ctx) Subset(label string, n, max int) []int {
	var res []int
	for i := 0; i < n && len(res) < max; i++ {
		if c.Choose(label, 2) == 1 {
			res = append(res, i)
		}
	}
	return res
}

// Logf records a line of the scenario script (kept only in replays).
func (c *Ctx) Logf(f string, a ...interface{}) {
	if c.verbose {
		c.log = append(c.log, fmt.Sprintf(f, a...))
	}
}

// Verbose tells whether the log is kept.
func (c *Ctx) Verbose() bool { return c.verbose }

// Step counts transitions (calls of the code under test).
func (c *Ctx) Step(n int) { c.steps += int64(n) }

// State records an observed state.
func (c *Ctx) State(s string) { c.states = append(c.states, hash(s)) }

// StateBytes records an observed state.
func (c *Ctx) StateBytes(s []byte) {
	h := fnv.New64a()
	h.Write(s)
	c.states = append(c.states, h.Sum64())
}

// Outcome labels the final outcome of an execution.
func (c *Ctx) Outcome(s string) { c.outcome = hash(s); c.outName = s }

// Failf reports a violation of the property; key identifies the failing input for known findings.
func (c *Ctx) Failf(key, f string, a ...interface{}) {
	panic(failure{key, fmt.Sprintf(f, a...)})
}

// Skip abandons an execution that is outside of the property's domain.
func (c *Ctx) Skip() { panic(skip{}) }

func hash(s string) uint64 { h := fnv.New64a(); h.Write([]byte(s)); return h.Sum64() }

// Violation describes a failed execution.
type Violation struct {
	Property string   `json:"property"`
	Scenario string   `json:"scenario"`
	Key      string   `json:"key"`
	Message  string   `json:"message"`
	Choices  []int    `json:"choices"`
	Labels   []string `json:"labels"`
	Script   []string `json:"script"`
	Tier     string   `json:"tier"`
	Repro    string   `json:"reproduced"`
	Crash    bool     `json:"crash,omitempty"`
}

// Result is a summary of exploration of one scenario.
type Result struct {
	Name        string  `json:"scenario"`
	Bound       string  `json:"bound"`
	Executions  int64   `json:"executions"`
	Skipped     int64   `json:"skipped_out_of_domain"`
	Transitions int64   `json:"transitions"`
	States      int64   `json:"states"`
	Outcomes    int64   `json:"distinct_outcomes"`
	MaxDepth    int     `json:"max_decisions"`
	Exhaustive  bool    `json:"exhaustive"`
	WallS       float64 `json:"wall_s"`
	sampleOut   []string
	samples     []string
	violations  []*Violation
}

// Samples returns rendered example executions.
func (r *Result) Samples() []string { return r.samples }

// Violations returns found violations.
func (r *Result) Violations() []*Violation { return r.violations }

// RunOne executes the scenario for the decision prefix.
func RunOne(s *Scenario, prefix []int, tier string, verbose bool) (c *Ctx, v *Violation, skipped bool) {
	c = &Ctx{prefix: prefix, verbose: verbose, Tier: tier}
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch x := r.(type) {
		case skip:
			skipped = true
			return
		case failure:
			v = &Violation{Scenario: s.Name, Key: x.key, Message: x.msg}
		default:
			msg := fmt.Sprint(r)
			if strings.HasPrefix(msg, "engine: ") {
				panic(r)
			}
			st := string(debug.Stack())
			v = &Violation{Scenario: s.Name, Key: "panic", Message: "panic: " + msg + "\n" + trimStack(st)}
		}
		for _, t := range c.trace {
			v.Choices = append(v.Choices, t.i)
			v.Labels = append(v.Labels, t.label)
		}
		v.Script = c.log
		v.Tier = tier
	}()
	s.Run(c)
	return c, nil, false
}

func trimStack(st string) string {
	var keep []string
	for _, l := range strings.Split(st, "\n") {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "/mc/props") {
			keep = append(keep, strings.TrimSpace(l))
		}
		if len(keep) > 12 {
			break
		}
	}
	return strings.Join(keep, "\n")
}

// Breadcrumb receives the decision vector each worker is about to run.
type Breadcrumb func(worker int, scenario string, prefix []int, done bool)

// Options of exploration.
type Options struct {
	Property string
	Tier     string
	Workers  int
	Deadline time.Time
	MaxViol  int
	Crumb    Breadcrumb
	Known    func(key string) bool
}

// Explore enumerates all executions of the scenario.
func Explore(s *Scenario, o Options) *Result {
	start := time.Now()
	res := &Result{Name: s.Name, Bound: s.Bound, Exhaustive: true}
	if o.Workers <= 0 {
		o.Workers = runtime.GOMAXPROCS(0)
	}
	if s.Serial {
		o.Workers = 1
	}
	if o.MaxViol == 0 {
		o.MaxViol = 5
	}

	// Replay determinism: the first executions are run twice and must decide and observe the same.
	var (
		mu     sync.Mutex
		cond   = sync.NewCond(&mu)
		stack  = [][]int{{}}
		active int
		stop   atomic.Bool
	)
	type shard struct {
		mu sync.Mutex
		m  map[uint64]struct{}
	}
	const shards = 64
	var states, outs [shards]shard
	for i := range states {
		states[i].m = map[uint64]struct{}{}
		outs[i].m = map[uint64]struct{}{}
	}
	add := func(sh *[shards]shard, h uint64) bool {
		x := &sh[h%shards]
		x.mu.Lock()
		_, ok := x.m[h]
		if !ok {
			x.m[h] = struct{}{}
		}
		x.mu.Unlock()
		return !ok
	}
	seenViol := map[string]int{}
	var execs, skipped, trans int64
	var maxDepth int64

	var wg sync.WaitGroup
	for w := 0; w < o.Workers; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			local := make([][]int, 0, 1024)
			for {
				var p []int
				if len(local) > 0 {
					p = local[len(local)-1]
					local = local[:len(local)-1]
				} else {
					mu.Lock()
					for len(stack) == 0 && active > 0 && !stop.Load() {
						cond.Wait()
					}
					if len(stack) == 0 || stop.Load() {
						mu.Unlock()
						cond.Broadcast()
						return
					}
					p = stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					active++
					mu.Unlock()
				}
				if !o.Deadline.IsZero() && time.Now().After(o.Deadline) {
					stop.Store(true)
				}
				if stop.Load() {
					mu.Lock()
					res.Exhaustive = false
					active = 0
					mu.Unlock()
					cond.Broadcast()
					return
				}
				if o.Crumb != nil {
					o.Crumb(w, s.Name, p, false)
				}
				c, v, sk := RunOne(s, p, o.Tier, false)
				if o.Crumb != nil {
					o.Crumb(w, s.Name, p, true)
				}
				n := atomic.AddInt64(&execs, 1)
				if sk {
					atomic.AddInt64(&skipped, 1)
				}
				atomic.AddInt64(&trans, c.steps)
				for {
					d := atomic.LoadInt64(&maxDepth)
					if int64(len(c.trace)) <= d || atomic.CompareAndSwapInt64(&maxDepth, d, int64(len(c.trace))) {
						break
					}
				}
				for _, h := range c.states {
					add(&states, h)
				}
				if c.outName != "" && add(&outs, c.outcome) {
					mu.Lock()
					if len(res.sampleOut) < 12 {
						res.sampleOut = append(res.sampleOut, cut(c.outName, 400))
					}
					mu.Unlock()
				}
				if v == nil && !sk && (n == 1 || n == 100 || n == 10000) {
					c2, _, _ := RunOne(s, choicesOf(c), o.Tier, true)
					mu.Lock()
					res.samples = append(res.samples, fmt.Sprintf("execution %d decisions=%v :: %s => %s", n, choicesOf(c), strings.Join(c2.log, " ; "), cut(c2.outName, 400)))
					mu.Unlock()
				}
				if v != nil {
					mu.Lock()
					seenViol[v.Key]++
					cnt := seenViol[v.Key]
					known := o.Known != nil && o.Known(v.Key)
					if cnt <= 1 {
						v.Property = o.Property
						res.violations = append(res.violations, v)
					}
					nonKnown := 0
					for k := range seenViol {
						if o.Known == nil || !o.Known(k) {
							nonKnown++
						}
					}
					if !known && nonKnown >= o.MaxViol {
						stop.Store(true)
					}
					mu.Unlock()
				}
				// Push alternatives of the decisions this execution took by default.
				full := choicesOf(c)
				for i := len(p); i < len(c.trace); i++ {
					for a := c.trace[i].n - 1; a >= 1; a-- {
						q := make([]int, i+1)
						copy(q, full[:i])
						q[i] = a
						local = append(local, q)
					}
				}
				if len(local) > 1 {
					// Share work when someone is idle.
					mu.Lock()
					if len(stack) == 0 {
						h := (len(local) + 1) / 2
						stack = append(stack, local[:h]...)
						local = append(local[:0:0], local[h:]...)
						cond.Broadcast()
					}
					mu.Unlock()
				}
				if len(local) == 0 {
					mu.Lock()
					active--
					if active <= 0 && len(stack) == 0 {
						cond.Broadcast()
					}
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	if stop.Load() {
		res.Exhaustive = false
	}
	res.Executions, res.Skipped, res.Transitions = execs, skipped, trans
	res.MaxDepth = int(maxDepth)
	for i := range states {
		res.States += int64(len(states[i].m))
		res.Outcomes += int64(len(outs[i].m))
	}
	res.WallS = time.Since(start).Seconds()

	// Shrink and confirm violations.
	for _, v := range res.violations {
		min := shrink(s, v, o)
		rep := 0
		const again = 5
		for i := 0; i < again; i++ {
			_, v2, _ := RunOne(s, min, o.Tier, true)
			if v2 != nil {
				rep++
				if v2.Key == v.Key {
					v.Choices, v.Labels, v.Script, v.Message = v2.Choices, v2.Labels, v2.Script, v2.Message
				}
			}
		}
		v.Repro = fmt.Sprintf("%d/%d", rep, again)
	}
	sort.Slice(res.violations, func(i, j int) bool { return res.violations[i].Key < res.violations[j].Key })
	return res
}

// shrink greedily resets decisions to their defaults while the same violation persists.
func shrink(s *Scenario, v *Violation, o Options) []int {
	best := append([]int(nil), v.Choices...)
	deadline := time.Now().Add(10 * time.Second)
	for changed := true; changed; {
		changed = false
		for i := range best {
			if best[i] == 0 || time.Now().After(deadline) {
				continue
			}
			for _, alt := range []int{0, best[i] - 1} {
				if alt == best[i] {
					continue
				}
				q := append([]int(nil), best...)
				q[i] = alt
				var v2 *Violation
				func() {
					defer func() { _ = recover() }()
					_, v2, _ = RunOne(s, q, o.Tier, false)
				}()
				if v2 != nil && v2.Key == v.Key && len(v2.Choices) <= len(best)+4 && sum(v2.Choices) < sum(best) {
					best = v2.Choices
					changed = true
					break
				}
			}
			if changed {
				break
			}
		}
	}
	return best
}

func sum(a []int) (s int) {
	for _, x := range a {
		s += x
	}
	return
}

func choicesOf(c *Ctx) []int {
	r := make([]int, len(c.trace))
	for i, t := range c.trace {
		r[i] = t.i
	}
	return r
}

// Trace returns the decision vector of the execution.
func (c *Ctx) TraceVector() []int { return choicesOf(c) }

// Outcome name of the execution.
func (c *Ctx) OutcomeName() string { return c.outName }

// StatesSeen returns state hashes.
func (c *Ctx) StatesSeen() []uint64 { return c.states }

// Log returns the script.
func (c *Ctx) Log() []string { return c.log }

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// OutcomesSample returns examples of outcomes.
func (r *Result) OutcomesSample() []string { return r.sampleOut }

// WriteJSON writes v to the file.
func WriteJSON(path string, v interface{}) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	tmp := path + ".tmp"
	if err := os.WriteFile(tmp, append(b, '\n'), 0o644); err != nil {
		return err
	}
	return os.Rename(tmp, path)
}
