// Command mc runs the bounded exhaustive exploration of one property over the real code in /repo.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"slices"
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"verif/mc/engine"
	"verif/mc/props"
)

const (
	slotSize  = 8192
	maxSlots  = 64
	exitOK    = 0
	exitViol  = 1
	exitCrash = 3
)

var (
	prop     = flag.String("prop", "", "property id")
	tier     = flag.String("tier", "quick", "quick or thorough")
	out      = flag.String("out", "/verif/out", "directory for replay artefacts")
	evidence = flag.String("evidence", "", "evidence file")
	known    = flag.String("known", "", "known findings file")
	replay   = flag.String("replay", "", "replay file to run")
	child    = flag.String("child", "", "internal: breadcrumb file")
	one      = flag.String("one", "", "internal: run a single execution (replay file), exit 1 on violation")
	deadline = flag.Int("deadline", 0, "seconds after which the exploration stops (non exhaustive)")
	only     = flag.String("scenario", "", "run only scenarios with this substring")
	maxViol  = flag.Int("maxviol", 0, "number of violations per scenario after which the exploration stops")
	list     = flag.Bool("list", false, "list properties")
)

func main() {
	if job := os.Getenv("MC_PAIR"); job != "" {
		os.Exit(props.RunPair(job))
	}
	flag.Parse()
	debug.SetMaxStack(256 << 20)
	switch {
	case *list:
		for _, id := range props.IDs() {
			fmt.Println(id)
		}
	case *replay != "" || *one != "":
		os.Exit(runReplay())
	case *child != "":
		os.Exit(runChild())
	default:
		os.Exit(supervise())
	}
}

// ---- known findings

type finding struct{ prop, key, what string }

func loadKnown() (res []finding) {
	if *known == "" {
		return
	}
	b, err := os.ReadFile(*known)
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		// finding: property=<id> key=<key> :: <what fails>
		rest := strings.TrimSpace(strings.TrimPrefix(l, "finding:"))
		parts := strings.SplitN(rest, " :: ", 2)
		if len(parts) != 2 {
			continue
		}
		f := finding{what: parts[1]}
		head := strings.SplitN(parts[0], " key=", 2)
		if len(head) != 2 {
			continue
		}
		f.prop = strings.TrimPrefix(strings.TrimSpace(head[0]), "property=")
		f.key = strings.TrimSpace(head[1])
		res = append(res, f)
	}
	return
}

// ---- child: explores

type childReport struct {
	Results []*engine.Result       `json:"results"`
	Viol    []*engine.Violation    `json:"violations"`
	Samples []string               `json:"samples"`
	Outs    []string               `json:"outcome_samples"`
	Determ  int                    `json:"determinism_replays"`
	Extra   map[string]interface{} `json:"extra"`
}

func runChild() int {
	p := props.Get(*prop)
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		return 2
	}
	f, err := os.OpenFile(*child, os.O_RDWR, 0)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	mem, err := syscall.Mmap(int(f.Fd()), 0, slotSize*maxSlots, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	crumb := func(w int, scenario string, prefix []int, done bool) {
		if w >= maxSlots {
			return
		}
		s := mem[w*slotSize : (w+1)*slotSize]
		cnt := (*uint64)(unsafe.Pointer(&s[0]))
		*cnt++
		if done {
			s[8] = 0
			return
		}
		n := copy(s[16:200], scenario)
		s[9] = byte(n)
		k := len(prefix)
		if k > (slotSize-256)/2 {
			k = (slotSize - 256) / 2
		}
		*(*uint16)(unsafe.Pointer(&s[10])) = uint16(k)
		for i := 0; i < k; i++ {
			*(*uint16)(unsafe.Pointer(&s[256+2*i])) = uint16(prefix[i])
		}
		s[8] = 1
	}
	kn := loadKnown()
	isKnown := func(key string) bool {
		for _, k := range kn {
			if k.prop == *prop && k.key == key {
				return true
			}
		}
		return false
	}
	var dl time.Time
	if *deadline > 0 {
		dl = time.Now().Add(time.Duration(*deadline) * time.Second)
	}
	rep := childReport{}
	for _, s := range p.Scenarios(*tier) {
		s := s
		if *only != "" && !strings.Contains(s.Name, *only) {
			continue
		}
		// Determinism of the scenario: the default execution twice.
		crumb(0, s.Name, nil, false)
		c1, v1, _ := engine.RunOne(s, nil, *tier, true)
		c2, v2, _ := engine.RunOne(s, nil, *tier, true)
		crumb(0, s.Name, nil, true)
		if v1 == nil && v2 == nil {
			if fmt.Sprint(c1.TraceVector(), c1.OutcomeName(), c1.Log()) == fmt.Sprint(c2.TraceVector(), c2.OutcomeName(), c2.Log()) {
				rep.Determ++
			}
		}
		r := engine.Explore(s, engine.Options{Property: *prop, Tier: *tier, Deadline: dl, Crumb: crumb, Known: isKnown, MaxViol: *maxViol})
		rep.Results = append(rep.Results, r)
		rep.Viol = append(rep.Viol, r.Violations()...)
		rep.Samples = append(rep.Samples, r.Samples()...)
		for _, o := range r.OutcomesSample() {
			rep.Outs = append(rep.Outs, s.Name+": "+o)
		}
		fmt.Fprintf(os.Stderr, "%s/%s: executions=%d skipped=%d transitions=%d states=%d outcomes=%d depth=%d exhaustive=%v violations=%d %.1fs\n",
			*prop, s.Name, r.Executions, r.Skipped, r.Transitions, r.States, r.Outcomes, r.MaxDepth, r.Exhaustive, len(r.Violations()), r.WallS)
		if *maxViol == 1 && slices.ContainsFunc(r.Violations(), func(v *engine.Violation) bool { return !isKnown(v.Key) }) {
			break // The first violation is asked for.
		}
	}
	if err := engine.WriteJSON(*child+".json", rep); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	return 0
}

// ---- replay

func runReplay() int {
	file := *replay
	if file == "" {
		file = *one
	}
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v engine.Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := props.Get(v.Property)
	if p == nil {
		return 2
	}
	for _, s := range p.Scenarios(v.Tier) {
		if s.Name != v.Scenario {
			continue
		}
		c, v2, _ := engine.RunOne(s, v.Choices, v.Tier, true)
		for _, l := range c.Log() {
			fmt.Println("  ", l)
		}
		if v2 != nil {
			fmt.Printf("violated: [%s] %s\n", v2.Key, v2.Message)
			return 1
		}
		fmt.Println("property holds on this execution:", c.OutcomeName())
		return 0
	}
	fmt.Fprintln(os.Stderr, "scenario not found:", v.Scenario)
	return 2
}

// ---- supervisor

func supervise() int {
	start := time.Now()
	p := props.Get(*prop)
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		return 2
	}
	dir := filepath.Join(*out, *prop)
	_ = os.MkdirAll(dir, 0o755)
	tmp, err := os.CreateTemp(dir, "crumb-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.Remove(tmp.Name())
	defer os.Remove(tmp.Name() + ".json")
	if err := tmp.Truncate(slotSize * maxSlots); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	self, _ := os.Executable()
	args := []string{"-child", tmp.Name(), "-prop", *prop, "-tier", *tier, "-known", *known, "-deadline", fmt.Sprint(*deadline), "-maxviol", fmt.Sprint(*maxViol)}
	if *only != "" {
		args = append(args, "-scenario", *only)
	}
	var tail tailWriter
	cmd := exec.Command(self, args...)
	cmd.Stdout = os.Stdout
	cmd.Stderr = &tail
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	mem, _ := syscall.Mmap(int(tmp.Fd()), 0, slotSize*maxSlots, syscall.PROT_READ, syscall.MAP_SHARED)
	hung := false
	var werr error
	last := make([]uint64, maxSlots)
	since := make([]time.Time, maxSlots)
loop:
	for {
		select {
		case werr = <-done:
			break loop
		case <-time.After(2 * time.Second):
			for w := 0; w < maxSlots; w++ {
				s := mem[w*slotSize : (w+1)*slotSize]
				n := *(*uint64)(unsafe.Pointer(&s[0]))
				if n != last[w] || s[8] == 0 {
					last[w] = n
					since[w] = time.Now()
					continue
				}
				if time.Since(since[w]) > 150*time.Second {
					hung = true
					_ = cmd.Process.Kill()
					werr = <-done
					break loop
				}
			}
		}
	}
	var rep childReport
	crashed := false
	if b, err := os.ReadFile(tmp.Name() + ".json"); werr == nil && err == nil {
		if err := json.Unmarshal(b, &rep); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	} else {
		crashed = true
		fmt.Fprintf(os.Stderr, "%s: exploring process ended abnormally: %v hung=%v\n%s\n", *prop, werr, hung, tail.head())
		// Which of the executions in flight brings the process down on its own?
		for w := 0; w < maxSlots; w++ {
			s := mem[w*slotSize : (w+1)*slotSize]
			if s[8] == 0 {
				continue
			}
			v := &engine.Violation{Property: *prop, Scenario: string(s[16 : 16+int(s[9])]), Key: "crash", Tier: *tier, Crash: true}
			k := int(*(*uint16)(unsafe.Pointer(&s[10])))
			for i := 0; i < k; i++ {
				v.Choices = append(v.Choices, int(*(*uint16)(unsafe.Pointer(&s[256+2*i]))))
			}
			fn := filepath.Join(dir, fmt.Sprintf("crash-%d.json", w))
			_ = engine.WriteJSON(fn, v)
			bad := 0
			for i := 0; i < 2; i++ {
				code, msg := runOneChild(self, fn, 100*time.Second)
				if code != 0 {
					bad++
					v.Message = msg
				}
			}
			if bad == 2 {
				v.Repro = "2/2"
				_ = engine.WriteJSON(fn, v)
				rep.Viol = append(rep.Viol, v)
				break
			}
			_ = os.Remove(fn)
		}
	}

	kn := loadKnown()
	code := exitOK
	seenKnown := map[string]bool{}
	nviol := 0
	for i, v := range rep.Viol {
		k := -1
		for j, f := range kn {
			if f.prop == *prop && f.key == v.Key {
				k = j
			}
		}
		if k >= 0 {
			if !seenKnown[v.Key] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, kn[k].what)
			}
			seenKnown[v.Key] = true
			continue
		}
		nviol++
		fn := filepath.Join(dir, fmt.Sprintf("violation-%d.json", i))
		_ = engine.WriteJSON(fn, v)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, fn)
		fmt.Printf("  scenario=%s key=%s reproduced=%s\n  %s\n", v.Scenario, v.Key, v.Repro, indent(v.Message))
		for _, l := range v.Script {
			fmt.Println("   |", l)
		}
		code = exitViol
	}
	if crashed && nviol == 0 {
		fmt.Fprintln(os.Stderr, "no execution in flight crashes on its own; no verdict")
		code = exitCrash
	}
	// A finding that no longer fails is only worth a note.
	for _, f := range kn {
		if f.prop == *prop && !seenKnown[f.key] && !crashed && *only == "" {
			fmt.Fprintf(os.Stderr, "note: known finding %q was not observed\n", f.key)
		}
	}
	if *evidence != "" {
		writeEvidence(p, &rep, start, nviol, len(seenKnown))
	}
	if code == exitOK {
		var ex int64
		exh := true
		for _, r := range rep.Results {
			ex += r.Executions
			exh = exh && r.Exhaustive
		}
		fmt.Printf("OK property=%s tier=%s executions=%d exhaustive=%v wall=%.1fs\n", *prop, *tier, ex, exh, time.Since(start).Seconds())
	}
	return code
}

func runOneChild(self, fn string, timeout time.Duration) (int, string) {
	cmd := exec.Command(self, "-one", fn, "-prop", *prop)
	var tw tailWriter
	cmd.Stdout, cmd.Stderr = &tw, &tw
	if err := cmd.Start(); err != nil {
		return 0, ""
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		if err == nil {
			return 0, ""
		}
		return 1, tw.head()
	case <-time.After(timeout):
		_ = cmd.Process.Kill()
		<-done
		return 1, "execution does not end"
	}
}

func writeEvidence(p *props.Property, rep *childReport, start time.Time, nviol, nknown int) {
	var ex, sk, tr, st, outc int64
	exh := len(rep.Results) > 0
	depth := 0
	var bounds []string
	for _, r := range rep.Results {
		ex += r.Executions
		sk += r.Skipped
		tr += r.Transitions
		st += r.States
		outc += r.Outcomes
		exh = exh && r.Exhaustive
		if r.MaxDepth > depth {
			depth = r.MaxDepth
		}
		bounds = append(bounds, r.Name+": "+r.Bound)
	}
	sort.Strings(bounds)
	if tr == 0 {
		tr = ex
	}
	samples := []interface{}{}
	for i, s := range rep.Samples {
		if i < 12 {
			if len(s) > 2000 {
				s = s[:2000] + "..."
			}
			samples = append(samples, s)
		}
	}
	ev := map[string]interface{}{
		"property": *prop,
		"tier":     *tier,
		"seed":     1,
		"level":    "model_checking",
		"coverage": map[string]interface{}{
			"states":                        st,
			"transitions":                   tr,
			"executions":                    ex,
			"executions_out_of_domain":      sk,
			"traces_validated_against_impl": ex - sk,
			"distinct_outcomes":             outc,
			"max_decisions_per_execution":   depth,
			"exhaustive":                    exh,
			"bounds":                        bounds,
			"scenarios":                     rep.Results,
			"outcome_samples":               rep.Outs,
			"samples":                       samples,
			"deterministic_replays":         rep.Determ,
			"known_findings_observed":       nknown,
			"how":                           "every execution runs the real code of /repo (rebuilt from the working tree) under a decision-enumerating explorer and is compared with the reference model step by step; there is no abstract model separate from the implementation",
		},
		"wall_s":      time.Since(start).Seconds(),
		"violations":  nviol,
		"assumptions": p.Assumptions,
	}
	_ = os.MkdirAll(filepath.Dir(*evidence), 0o755)
	if err := engine.WriteJSON(*evidence, ev); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}

func indent(s string) string {
	if len(s) > 6000 {
		s = s[:6000] + "..."
	}
	return strings.ReplaceAll(s, "\n", "\n  ")
}

// tailWriter keeps the beginning of what was written and passes short lines on.
type tailWriter struct {
	buf []byte
}

func (t *tailWriter) Write(b []byte) (int, error) {
	if len(t.buf) < 8000 {
		t.buf = append(t.buf, b...)
		if len(t.buf) <= 8000 {
			_, _ = os.Stderr.Write(b)
		}
	}
	return len(b), nil
}

func (t *tailWriter) head() string {
	s := string(t.buf)
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}
