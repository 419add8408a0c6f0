package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Job is the exploration of a harness, for the choice of some of its cases.
type Job struct {
	fn       *ssa.Function
	cases    map[string]int
	maxForks int
	merge    bool
	thorough bool
	limit    time.Duration
}

func (j *Job) name() string {
	s := j.fn.Name()
	var ks []string
	for k := range j.cases {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		s += fmt.Sprintf(" %s=%d", k, j.cases[k])
	}
	return s
}

// Sample is an assignment of the variables of a job.
type Sample struct {
	Fn       string            `json:"fn"`
	Cases    map[string]int    `json:"cases"`
	Vals     map[string]uint64 `json:"vals"`
	Runs     int               `json:"runs,omitempty"`
	Thorough bool              `json:"thorough,omitempty"`

	label string
	obs   [][2]string
	why   string
}

type JobResult struct {
	Paths, Dead, Forks, Merges int
	UnknownQ                   int
	Asserts, AssertQ           int
	Discharged                 int
	Queries                    int
	Steps                      uint64
	SolverTime, Wall           time.Duration
	SolverMax                  time.Duration
	Timeout                    bool
	need                       *needCase
	incompletes                map[string]int
	violations                 []*Sample
	suspects                   []*Sample
	samples                    []*Sample
	reached                    map[string]bool
	funcs                      map[string]bool
	perLabel                   map[string]int
	leaves                     []*Term
	covered                    string // whether the paths cover all values: unsat when they do
}

const maxLeaves = 20000

// leaf records the condition of a path that has ended.
func (w *W) leaf(extra *Term) {
	r := w.run_
	if len(r.leaves) > maxLeaves {
		return
	}
	t := w.ts.And(w.pc...)
	if extra != nil {
		t = w.ts.And(t, extra)
	}
	r.leaves = append(r.leaves, t)
}

// cover decides whether the paths cover all values of the variables.
func (w *W) cover() string {
	r := w.run_
	if r.Timeout || r.need != nil || len(r.leaves) > maxLeaves || len(r.incompletes) > 0 {
		return "skipped"
	}
	nots := make([]*Term, 0, len(r.leaves))
	for _, t := range r.leaves {
		nots = append(nots, w.ts.Not(t))
	}
	res, m := w.solver().Check(nots, nil, nil)
	if res == "sat" && w.debug {
		fmt.Fprintln(os.Stderr, "not covered:", w.values(m))
	}
	return res
}

func newW(p *Prog) *W {
	w := &W{prog: p, ty: NewTypes(), funcs: map[*ssa.Function]*Func{}, globals: map[*ssa.Global]*Obj{},
		inited: map[*ssa.Package]int{}, methodCache: map[methodKey]*Func{}, ifaceTypes: map[string]*TInfo{},
		bodies: map[string]*Func{}, epoch: 1}
	w.debug = os.Getenv("VERIF_DEBUG") != ""
	return w
}

func (w *W) values(m []uint64) map[string]uint64 {
	out := map[string]uint64{}
	for i, v := range w.ts.vars {
		x := v.lo
		if i < len(m) {
			x = m[i]
		}
		out[v.name] = x
	}
	return out
}

func (w *W) sample(m []uint64) *Sample {
	return &Sample{Fn: w.job.fn.Name(), Cases: w.job.cases, Vals: w.values(m), Thorough: w.job.thorough}
}

func (w *W) violation(label string, m []uint64) {
	w.run_.perLabel[label]++
	if w.run_.perLabel[label] > 3 {
		return
	}
	s := w.sample(m)
	s.label = label
	w.run_.violations = append(w.run_.violations, s)
	// confirm it soon, however many paths there are.
	if soon := time.Now().Add(15 * time.Second); soon.Before(w.deadline) {
		w.deadline = soon
	}
}

func (w *W) uncaught(v V) {
	if !w.modelOK {
		w.findModel()
	}
	w.violation("panic: "+w.describe(v), w.model)
}

// incomplete records that a path could not be followed to its end. An input
// that takes the path is kept, to be run natively.
func (w *W) incomplete(msg string) {
	where := ""
	func() {
		defer func() { recover() }()
		where = w.where()
	}()
	if len(where) > 300 {
		where = where[:300]
	}
	w.run_.incompletes[msg+where]++
	if len(w.run_.suspects) < 20 {
		func() {
			defer func() { recover() }()
			if !w.modelOK {
				w.findModel()
			}
			s := w.sample(w.model)
			s.why = msg
			w.run_.suspects = append(w.run_.suspects, s)
		}()
	}
}

const samplesPerJob = 2

func (w *W) pathDone(ev event) {
	w.run_.Paths++
	w.leaf(nil)
	for n := w.nd.reached; n != nil; n = n.next {
		w.run_.reached[n.name] = true
	}
	if w.run_.Paths > samplesPerJob && w.run_.Paths&(w.run_.Paths-1) != 0 {
		return
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(deadPath); !ok {
				panic(r)
			}
		}
	}()
	if !w.modelOK {
		w.findModel()
	}
	// an arbitrary model, rather than one of the first path that was merged.
	s := w.sample(w.model)
	for n := w.nd.obs; n != nil; n = n.next {
		s.obs = append(s.obs, [2]string{n.name, w.concreteStr(n.val, n.kind)})
	}
	for i, j := 0, len(s.obs)-1; i < j; i, j = i+1, j-1 {
		s.obs[i], s.obs[j] = s.obs[j], s.obs[i]
	}
	if len(w.run_.samples) >= samplesPerJob {
		w.run_.samples[w.run_.Paths%samplesPerJob] = s
	} else {
		w.run_.samples = append(w.run_.samples, s)
	}
}

func (w *W) concreteStr(v V, k Kind) string {
	if k == KInt {
		if t, ok := v.p.(*Term); ok {
			return fmt.Sprint(int64(w.ts.Eval(t, w.model)))
		}
		return fmt.Sprint(int64(v.n))
	}
	b, sy := strParts(v)
	out := append([]byte(nil), b...)
	for i, t := range sy {
		if t != nil {
			out[i] = byte(w.ts.Eval(t, w.model))
		}
	}
	return string(out)
}

// runJob explores the job.
func (w *W) runJob(j *Job) (res *JobResult) {
	res = &JobResult{incompletes: map[string]int{}, reached: map[string]bool{}, perLabel: map[string]int{}, funcs: map[string]bool{}}
	w.run_, w.job = res, j
	w.ts = NewTerms()
	if w.sol != nil {
		w.sol.Reset(w.ts)
	}
	w.pc, w.known, w.dom, w.domTr, w.knTr, w.complexN = nil, map[uint32]bool{}, nil, nil, nil, nil
	w.model, w.modelOK = nil, true
	w.stack, w.watch, w.watchOff, w.watched = nil, 0, 0, nil
	w.goq = nil
	w.nd = ndState{}
	w.trail = nil
	w.epoch++
	w.deadline = time.Now().Add(j.limit)
	for _, f := range w.funcs {
		f.entered = false
	}
	for _, f := range w.bodies {
		f.entered = false
	}
	t0, s0 := time.Now(), w.steps
	var q0 int
	var st0 time.Duration
	if w.sol != nil {
		q0, st0 = w.sol.Queries, w.sol.Time
		w.sol.maxTime = 0
	}
	base := w.snap(0)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if d, ok := r.(deadPath); ok {
					_ = d
					return
				}
				if u, ok := r.(Unsupported); ok {
					w.incomplete(u.msg)
					return
				}
				w.incomplete(fmt.Sprintf("engine: %v", r))
				if w.debug {
					fmt.Fprintf(os.Stderr, "%v\n%s\n", r, debug.Stack())
				}
			}
		}()
		w.push(w.funcOf(j.fn), nil, nil)
		w.explore(stopAt{0, -1}, nil)
	}()
	w.initing = 0
	w.restore(base, true)
	res.covered = w.cover()
	res.leaves = nil
	res.Wall = time.Since(t0)
	res.Steps = w.steps - s0
	if w.sol != nil {
		res.Queries, res.SolverTime = w.sol.Queries-q0, w.sol.Time-st0
		res.SolverMax = w.sol.maxTime
	}
	for _, f := range w.funcs {
		if f.entered && f.inRepo {
			res.funcs[f.name] = true
		}
	}
	return res
}

// halt ends every job: a violation was confirmed, or memory runs low.
var halt atomic.Bool

// watchMemory halts when the heap has grown too large.
func watchMemory(limit uint64) {
	for range time.Tick(2 * time.Second) {
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.HeapAlloc > limit {
			halt.Store(true)
		}
	}
}

func (p *Prog) funcByName(pkg, name string) *ssa.Function {
	q := p.prog.ImportedPackage(pkg)
	if q == nil {
		return nil
	}
	return q.Func(name)
}

var _ = types.Typ
