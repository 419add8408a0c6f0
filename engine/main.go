package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type natResult struct {
	Failed  []string    `json:"failed"`
	Panic   string      `json:"panic"`
	Obs     [][2]string `json:"obs"`
	Assume  bool        `json:"assume"`
	Crashed string      `json:"crashed"`
}

type harnessStats struct {
	Jobs, Paths, Forks, Merges int
	Asserts, AssertQ           int
	Discharged, Queries        int
	Steps                      uint64
	SolverS, MaxQueryS, CpuS   float64
	Incomplete                 int
	Covered, NotCovered        int
	Reached                    map[string]bool
	wall                       time.Duration
}

type driver struct {
	prop, tier  string
	repo, verif string
	seed        int
	prog        *Prog
	nat         string
	tmp         string
	deadline    time.Time
	only        string
	verbose     bool
	race        string

	mu          sync.Mutex
	cond        *sync.Cond
	queue       []*Job
	active      int
	stop        bool
	stats       map[string]*harnessStats
	incompletes map[string]int
	unknown     int
	timeouts    int
	funcs       map[string]bool
	confirmed   []*confirmedT
	known       map[string]*confirmedT
	spurious    map[string]int
	validated   int
	mismatches  []string
	samples     []any
	labels      map[string]bool
	tried       map[string]int
	knownList   []knownEntry
}

type confirmedT struct {
	s    *Sample
	res  natResult
	path string
	what string
}

type knownEntry struct {
	prop, label, what string
}

func (d *driver) loadKnown() {
	b, _ := os.ReadFile(d.verif + "/known-findings.txt")
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=<id> label="<label>" <what fails>
		m := regexp.MustCompile(`^known: property=(\S+) label=("(?:[^"\\]|\\.)*") (.*)$`).FindStringSubmatch(l)
		if m == nil || m[1] != d.prop {
			continue
		}
		label, err := strconv.Unquote(m[2])
		if err != nil {
			continue
		}
		d.knownList = append(d.knownList, knownEntry{m[1], label, m[3]})
	}
}

func goEnv() []string {
	env := os.Environ()
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GONOSUMDB=*", "GOWORK=off", "CGO_ENABLED=0", "GOTOOLCHAIN=local")
}

var harnessRE = regexp.MustCompile(`^C\d\d_`)

// buildNative builds the harnesses along with the code being checked.
func (d *driver) buildNative() error {
	var names []string
	files, _ := filepath.Glob(d.verif + "/harness/*.go")
	fre := regexp.MustCompile(`(?m)^func (C\d\d_\w+)\(\)`)
	ov := map[string]string{}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		for _, m := range fre.FindAllStringSubmatch(string(b), -1) {
			names = append(names, m[1])
		}
		ov[filepath.Join(d.repo, harnessDir, filepath.Base(f))] = f
	}
	var sb strings.Builder
	sb.WriteString("package main\n\nfunc init() {\n")
	for _, n := range names {
		fmt.Fprintf(&sb, "\ttable[%q] = %s\n", n, n)
	}
	sb.WriteString("}\n")
	tf := d.tmp + "/zz_table.go"
	if err := os.WriteFile(tf, []byte(sb.String()), 0o644); err != nil {
		return err
	}
	ov[filepath.Join(d.repo, harnessDir, "zz_table.go")] = tf
	j, _ := json.Marshal(map[string]any{"Replace": ov})
	if err := os.WriteFile(d.tmp+"/overlay.json", j, 0o644); err != nil {
		return err
	}
	d.nat = d.tmp + "/zzverif"
	cmd := exec.Command("go", "build", "-overlay", d.tmp+"/overlay.json", "-o", d.nat, "./"+harnessDir)
	cmd.Dir, cmd.Env = d.repo, goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("%v\n%s", err, out)
	}
	return nil
}

// raceBinary is the harness with the race detector.
func (d *driver) raceBinary() string {
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.race != "" {
		return d.race
	}
	bin := d.tmp + "/zzverif.race"
	cmd := exec.Command("go", "build", "-race", "-overlay", d.tmp+"/overlay.json", "-o", bin, "./"+harnessDir)
	cmd.Dir, cmd.Env = d.repo, append(goEnv(), "CGO_ENABLED=1")
	if out, err := cmd.CombinedOutput(); err != nil {
		fmt.Fprintf(os.Stderr, "race build: %v\n%s\n", err, out)
		bin = "none"
	}
	d.race = bin
	return bin
}

func (d *driver) native(bin string, s *Sample) natResult {
	j, _ := json.Marshal(s)
	cmd := exec.Command(bin)
	cmd.Stdin = bytes.NewReader(j)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	var r natResult
	if err := cmd.Start(); err != nil {
		r.Crashed = err.Error()
		return r
	}
	t := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	t.Stop()
	if e := json.Unmarshal(out.Bytes(), &r); e != nil || err != nil {
		msg := errb.String()
		if len(msg) > 2000 {
			msg = msg[:2000]
		}
		r.Crashed = fmt.Sprintf("%v: %s", err, msg)
	}
	return r
}

// confirm replays a counterexample against the real code.
func (d *driver) confirm(s *Sample, label string) (natResult, bool) {
	bin := d.nat
	if strings.HasPrefix(label, "shared ") {
		if b := d.raceBinary(); b != "none" {
			bin = b
		}
	}
	for try := 0; try < 3; try++ {
		c := *s
		c.Runs = 1
		if try > 0 {
			c.Runs = 100
		}
		r := d.native(bin, &c)
		if strings.Contains(r.Crashed, "DATA RACE") || strings.Contains(r.Crashed, "concurrent map") {
			r.Failed = append(r.Failed, label)
			return r, true
		}
		for _, f := range r.Failed {
			if f == label || label == "" {
				return r, true
			}
		}
		if r.Panic != "" && (label == "" || strings.HasPrefix(label, "panic: ")) {
			return r, true
		}
		if r.Crashed != "" && strings.HasPrefix(label, "panic: ") {
			return r, true
		}
		// any failure of the property on this input will do.
		if len(r.Failed) > 0 && try > 0 {
			return r, true
		}
		if label == "" {
			return r, false
		}
	}
	return natResult{}, false
}

func (d *driver) knownFor(label string) *knownEntry {
	for i := range d.knownList {
		if d.knownList[i].label == label {
			return &d.knownList[i]
		}
	}
	return nil
}

func (d *driver) record(s *Sample, r natResult, label string) {
	d.mu.Lock()
	defer d.mu.Unlock()
	c := &confirmedT{s: s, res: r, what: label}
	if k := d.knownFor(label); k != nil {
		d.known[label] = c
		return
	}
	d.confirmed = append(d.confirmed, c)
	d.stop = true
	halt.Store(true)
	d.cond.Broadcast()
}

func (d *driver) worker() {
	w := newW(d.prog)
	defer func() {
		if w.sol != nil {
			w.sol.Close()
		}
	}()
	for {
		d.mu.Lock()
		for len(d.queue) == 0 && d.active > 0 && !d.stop {
			d.cond.Wait()
		}
		if d.stop || len(d.queue) == 0 {
			d.cond.Broadcast()
			d.mu.Unlock()
			return
		}
		j := d.queue[0]
		d.queue = d.queue[1:]
		d.active++
		d.mu.Unlock()
		j.limit = time.Until(d.deadline)
		var res *JobResult
		if j.limit <= 0 || halt.Load() {
			res = &JobResult{Timeout: true}
		} else {
			res = w.runJob(j)
		}
		d.finish(j, res)
		d.mu.Lock()
		d.active--
		d.cond.Broadcast()
		d.mu.Unlock()
	}
}

func (d *driver) finish(j *Job, res *JobResult) {
	if res.need != nil {
		var subs []*Job
		for i := 0; i < res.need.n; i++ {
			s := *j
			s.cases = map[string]int{res.need.name: i}
			for k, v := range j.cases {
				s.cases[k] = v
			}
			subs = append(subs, &s)
		}
		d.mu.Lock()
		d.queue = append(subs, d.queue...)
		d.mu.Unlock()
		return
	}
	if d.verbose {
		fmt.Fprintf(os.Stderr, "%-50s paths=%d forks=%d merges=%d asserts=%d/%d queries=%d steps=%d solver=%.2fs wall=%.2fs inc=%d viol=%d timeout=%v\n",
			j.name(), res.Paths, res.Forks, res.Merges, res.AssertQ, res.Asserts, res.Queries, res.Steps, res.SolverTime.Seconds(), res.Wall.Seconds(), len(res.incompletes), len(res.violations), res.Timeout)
	}
	d.mu.Lock()
	st := d.stats[j.fn.Name()]
	if st == nil {
		st = &harnessStats{Reached: map[string]bool{}}
		d.stats[j.fn.Name()] = st
	}
	st.Jobs++
	st.Paths += res.Paths
	st.Forks += res.Forks
	st.Merges += res.Merges
	st.Asserts += res.Asserts
	st.AssertQ += res.AssertQ
	st.Discharged += res.Discharged
	st.Queries += res.Queries
	st.Steps += res.Steps
	st.SolverS += res.SolverTime.Seconds()
	st.CpuS += res.Wall.Seconds()
	st.MaxQueryS = max(st.MaxQueryS, res.SolverMax.Seconds())
	switch res.covered {
	case "unsat":
		st.Covered++
	case "sat":
		st.NotCovered++
		d.mismatches = append(d.mismatches, j.name()+": the paths do not cover all values")
	}
	for k := range res.reached {
		st.Reached[k] = true
	}
	for k := range res.funcs {
		d.funcs[k] = true
	}
	for k, n := range res.incompletes {
		d.incompletes[k] += n
		st.Incomplete += n
	}
	d.unknown += res.UnknownQ
	if res.Timeout {
		d.timeouts++
		st.Incomplete++
	}
	d.mu.Unlock()
	for _, v := range res.violations {
		d.mu.Lock()
		_, isKnown := d.known[v.label]
		skip := d.stop || isKnown || d.tried[v.label] > 20
		d.tried[v.label]++
		d.mu.Unlock()
		if skip {
			continue
		}
		if r, ok := d.confirm(v, v.label); ok {
			d.record(v, r, v.label)
		} else {
			d.mu.Lock()
			d.spurious[v.label]++
			if d.verbose {
				b, _ := json.Marshal(v)
				fmt.Fprintf(os.Stderr, "not reproduced: %s %s\n", v.label, b)
			}
			d.mu.Unlock()
		}
	}
	// inputs of paths that could not be followed.
	n := 0
	for _, s := range res.suspects {
		if d.stopped() || n >= 4 {
			break
		}
		n++
		if r, ok := d.confirm(s, ""); ok {
			label := ""
			if len(r.Failed) > 0 {
				label = r.Failed[0]
			} else {
				label = "panic: " + r.Panic
			}
			if d.knownFor(label) == nil {
				d.record(s, r, label)
			}
		}
	}
	// agreement of the engine and the real code.
	for _, s := range res.samples {
		d.mu.Lock()
		skip := d.stop || st.Jobs > 40 && d.validated > 150 && len(d.mismatches) == 0
		d.mu.Unlock()
		if skip {
			break
		}
		r := d.native(d.nat, s)
		bad := ""
		viol := false
		switch {
		case r.Crashed != "":
			bad = "crashed: " + r.Crashed
		case r.Assume:
			bad = "assumption fails natively"
		case r.Panic != "":
			bad, viol = "panics natively: "+r.Panic, true
		case len(r.Failed) > 0:
			if d.knownFor(r.Failed[0]) == nil {
				bad, viol = "fails natively: "+r.Failed[0], true
			}
		case fmt.Sprint(r.Obs) != fmt.Sprint(s.obs):
			bad = fmt.Sprintf("observed %v, natively %v", s.obs, r.Obs)
		}
		d.mu.Lock()
		if bad != "" {
			b, _ := json.Marshal(s)
			d.mismatches = append(d.mismatches, fmt.Sprintf("%s: %s (input %s)", j.name(), bad, b))
		} else {
			d.validated++
			if len(d.samples) < 6 && (len(d.samples) == 0 || st.Jobs%7 == 0) {
				d.samples = append(d.samples, map[string]any{"harness": s.Fn, "cases": s.Cases, "values": trimVals(s.Vals), "observed": r.Obs})
			}
		}
		d.mu.Unlock()
		if viol {
			label := strings.TrimPrefix(bad, "fails natively: ")
			d.record(s, r, label)
		}
	}
}

func trimVals(m map[string]uint64) map[string]uint64 {
	if len(m) <= 40 {
		return m
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := map[string]uint64{}
	for _, k := range ks[:40] {
		out[k] = m[k]
	}
	return out
}

func (d *driver) stopped() bool {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.stop
}

func main() {
	d := &driver{stats: map[string]*harnessStats{}, incompletes: map[string]int{}, funcs: map[string]bool{},
		known: map[string]*confirmedT{}, spurious: map[string]int{}, labels: map[string]bool{}, tried: map[string]int{}}
	d.cond = sync.NewCond(&d.mu)
	var workers int
	var limit float64
	var replay string
	var checkOnly bool
	var cases string
	flag.StringVar(&d.prop, "prop", "", "property")
	flag.StringVar(&d.tier, "tier", "quick", "tier")
	flag.StringVar(&d.repo, "repo", "/repo", "repository")
	flag.StringVar(&d.verif, "verif", "/verif", "verification directory")
	flag.StringVar(&d.only, "fn", "", "harness function")
	flag.StringVar(&cases, "cases", "", "name=value,... fixed cases")
	flag.BoolVar(&d.verbose, "v", false, "verbose")
	flag.IntVar(&workers, "j", runtime.NumCPU(), "workers")
	flag.Float64Var(&limit, "limit", 0, "seconds")
	flag.StringVar(&replay, "replay", "", "replay a counterexample")
	flag.BoolVar(&checkOnly, "warm", false, "load and build only")
	noMerge := flag.Bool("nomerge", false, "do not merge")
	flag.Parse()
	t0 := time.Now()
	d.seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	if limit == 0 {
		limit = 420
		if d.tier == "thorough" {
			limit = 5400
		}
	}
	d.deadline = t0.Add(time.Duration(limit * float64(time.Second)))
	var err error
	d.tmp, err = os.MkdirTemp("", "verif")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	code := 2
	defer func() {
		os.RemoveAll(d.tmp)
		os.Exit(code)
	}()
	d.loadKnown()
	natErr := make(chan error, 1)
	go func() { natErr <- d.buildNative() }()
	if replay != "" {
		if err := <-natErr; err != nil {
			fmt.Println("native build:", err)
			return
		}
		b, err := os.ReadFile(replay)
		if err != nil {
			fmt.Println(err)
			return
		}
		var s Sample
		var x struct {
			Input *Sample
			Label string
		}
		json.Unmarshal(b, &x)
		s = *x.Input
		r, ok := d.confirm(&s, x.Label)
		o, _ := json.MarshalIndent(r, "", " ")
		fmt.Println(string(o))
		code = 0
		if ok {
			code = 1
		}
		return
	}
	d.prog, err = load(d.repo, d.verif)
	if err != nil {
		fmt.Println("load:", err)
		<-natErr
		return
	}
	loadT := time.Since(t0)
	if err := <-natErr; err != nil {
		fmt.Println("native build:", err)
		return
	}
	buildT := time.Since(t0)
	if checkOnly {
		fmt.Printf("loaded in %.1fs, built in %.1fs\n", loadT.Seconds(), buildT.Seconds())
		code = 0
		return
	}
	var names []string
	for n, m := range d.prog.harness.Members {
		if _, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, d.prop+"_") && (d.only == "" || d.only == n) {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	if len(names) == 0 {
		fmt.Println("no harness for", d.prop)
		return
	}
	fixed := map[string]int{}
	for _, kv := range strings.Split(cases, ",") {
		if k, v, ok := strings.Cut(kv, "="); ok {
			fixed[k], _ = strconv.Atoi(v)
		}
	}
	for _, n := range names {
		d.queue = append(d.queue, &Job{fn: d.prog.harness.Func(n), cases: fixed, maxForks: 5_000_000, merge: !*noMerge, thorough: d.tier == "thorough"})
	}
	go watchMemory(20 << 30)
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			d.worker()
		}()
	}
	wg.Wait()
	code = d.report(t0, loadT, names)
}

func (d *driver) report(t0 time.Time, loadT time.Duration, names []string) int {
	var tot harnessStats
	var reached []string
	inc := 0
	for n, s := range d.stats {
		tot.Jobs += s.Jobs
		tot.Paths += s.Paths
		tot.Forks += s.Forks
		tot.Merges += s.Merges
		tot.Asserts += s.Asserts
		tot.AssertQ += s.AssertQ
		tot.Discharged += s.Discharged
		tot.Queries += s.Queries
		tot.Steps += s.Steps
		tot.SolverS += s.SolverS
		tot.CpuS += s.CpuS
		tot.MaxQueryS = max(tot.MaxQueryS, s.MaxQueryS)
		tot.Covered += s.Covered
		inc += s.Incomplete
		for r := range s.Reached {
			reached = append(reached, n+": "+r)
		}
	}
	sort.Strings(reached)
	var funcs []string
	for f := range d.funcs {
		funcs = append(funcs, strings.ReplaceAll(f, modulePath, "negotiator"))
	}
	sort.Strings(funcs)
	var incs []string
	for k, n := range d.incompletes {
		incs = append(incs, fmt.Sprintf("%d× %s", n, k))
	}
	sort.Strings(incs)
	if len(incs) > 15 {
		incs = incs[:15]
	}
	var spur []string
	for k, n := range d.spurious {
		spur = append(spur, fmt.Sprintf("%d× %s", n, k))
	}
	sort.Strings(spur)
	os.MkdirAll(d.verif+"/evidence/replay", 0o755)
	code := 0
	var viol []string
	for i, c := range d.confirmed {
		p := fmt.Sprintf("%s/evidence/replay/%s-%d.json", d.verif, d.prop, i+1)
		b, _ := json.MarshalIndent(map[string]any{"property": d.prop, "label": c.what, "input": c.s, "native": c.res}, "", " ")
		os.WriteFile(p, b, 0o644)
		fmt.Printf("%s: %+q\n  input: %v %v\n  native: %q\n", c.s.Fn, c.what, c.s.Cases, trimVals(c.s.Vals), fmt.Sprint(c.res))
		fmt.Printf("VIOLATION property=%s replay=%s\n", d.prop, p)
		viol = append(viol, c.s.Fn+": "+c.what)
		code = 1
		if i >= 4 {
			break
		}
	}
	for _, k := range d.knownList {
		if c := d.known[k.label]; c != nil {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", d.prop, k.what)
		}
	}
	mm := d.mismatches
	if len(mm) > 5 {
		mm = mm[:5]
	}
	for i := range mm {
		if len(mm[i]) > 1500 {
			mm[i] = mm[i][:1500]
		}
	}
	if code == 0 {
		for _, s := range incs {
			fmt.Println("INCOMPLETE:", s)
		}
		for _, s := range spur {
			fmt.Println("NOT REPRODUCED:", s)
		}
		for _, s := range mm {
			fmt.Println("MISMATCH:", s)
		}
		if d.timeouts > 0 {
			fmt.Println("TIMEOUT: jobs", d.timeouts)
		}
	}
	bounds := d.bounds(names)
	wall := time.Since(t0)
	ev := map[string]any{
		"property": d.prop, "tier": d.tier, "seed": d.seed, "level": "model_checking", "wall_s": round2(wall.Seconds()), "violations": len(d.confirmed),
		"coverage": map[string]any{
			"states":                            tot.Paths + tot.Merges,
			"transitions":                       tot.Forks,
			"traces_validated_against_impl":     d.validated,
			"samples":                           d.samples,
			"exhaustive":                        code == 0 && inc == 0 && d.unknown == 0 && len(d.spurious) == 0 && len(d.mismatches) == 0,
			"rule":                              "states: symbolic paths executed to their end plus those merged into others; transitions: branches on symbolic conditions of which both sides are feasible; every path is executed on the SSA of the current source and every assertion decided for all values of the symbolic variables on the path",
			"jobs":                              tot.Jobs,
			"symbolic_paths_completed":          tot.Paths,
			"paths_merged":                      tot.Merges,
			"ssa_instructions_executed":         tot.Steps,
			"assertions_evaluated":              tot.Asserts,
			"assertions_decided_by_the_solver":  tot.AssertQ,
			"assertions_proved_unsat":           tot.Discharged,
			"jobs_whose_paths_cover_all_values": tot.Covered,
			"solver":                            "z3 (QF_BV)",
			"solver_queries":                    tot.Queries,
			"solver_time_s":                     round2(tot.SolverS),
			"longest_solver_s":                  round2(tot.MaxQueryS),
			"solver_unknown":                    d.unknown,
			"cpu_s":                             round2(tot.CpuS),
			"load_s":                            round2(loadT.Seconds()),
			"functions_encoded":                 funcs,
			"functions_encoded_count":           len(funcs),
			"harnesses":                         names,
			"bounds":                            bounds,
			"reached":                           reached,
			"incomplete_paths":                  inc,
			"incomplete_reasons":                incs,
			"counterexamples_not_reproduced":    spur,
			"mismatches":                        mm,
			"violations":                        viol,
		},
		"assumptions": []string{
			"go/ssa translation and the executor's semantics of Go; sampled paths are executed natively and their observations compared",
			"models of fmt, errors.Is/As, strconv.ParseFloat/FormatFloat, sync primitives and serializers as listed in DESIGN.md",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(d.verif+"/evidence", 0o755)
	os.WriteFile(d.verif+"/evidence/"+d.prop+".json", append(b, '\n'), 0o644)
	fmt.Printf("%s %s: %d jobs, %d paths (+%d merged), %d assertions (%d by the solver), %d queries, solver %.1fs, covered %d, validated %d, incomplete %d, %.1fs\n",
		d.prop, d.tier, tot.Jobs, tot.Paths, tot.Merges, tot.Asserts, tot.AssertQ, tot.Queries, tot.SolverS, tot.Covered, d.validated, inc, wall.Seconds())
	return code
}

func round2(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

// bounds are the comments of the harnesses.
func (d *driver) bounds(names []string) map[string]string {
	out := map[string]string{}
	for _, n := range names {
		fn := d.prog.harness.Func(n)
		out[n] = docOf(fn)
	}
	return out
}
