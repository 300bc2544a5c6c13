package main

import (
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

func hostStack() string { return string(debug.Stack()) }

type WorkItem struct {
	prefix []uint64
	model  Model
}

type Input struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	term *Term
	Val  uint64 `json:"val"`
}

type Violation struct {
	Harness string   `json:"harness"`
	Msg     string   `json:"msg"`
	Kind    string   `json:"kind"` // assert, panic, deadlock
	Inputs  []Input  `json:"inputs"`
	Sched   bool     `json:"sched"`
	Trace   string   `json:"trace"`
	Notes   []string `json:"notes"`
}

type Stats struct {
	Paths, Infeasible, Unsupported, Limit, Unknown int
	Asserts, AssertQueries                         int
	Decisions                                      int
	Queries, Sat, Unsat, UnknownQ, FPQueries       int
	SolverS                                        float64
	Steps                                          int64
	Covers                                         map[string]int
	Funcs                                          map[string]int
	Reasons                                        map[string]int
	Exhausted                                      bool
	WallS                                          float64
	MaxPC                                          int
	SolverErrors                                   int
}

type Explorer struct {
	races     map[string]bool
	p         *Program
	harness   *ssa.Function
	name      string
	mu        sync.Mutex
	cond      *sync.Cond
	queue     []WorkItem
	active    int
	stop      bool
	deadline  time.Time
	finding   bool      // violations are expected, explore on
	softEnd   time.Time // set once there is something to report
	maxPaths  int
	maxViol   int
	viols     []Violation
	seenViol  map[string]int
	st        Stats
	params    map[string]int
	maxSteps  int64
	verbose   bool
	rng       *rand.Rand
	seed      int64
	wit       [][]Input // inputs of a few completed paths
	nextWit   int
	replay    []uint64 // concrete replay of inputs inside the interpreter
	replaying bool
}

// W is a worker: one interpreter with its own heap, terms and solver.
type W struct {
	p       *Program
	ex      *Explorer
	tb      *TB
	sol     *Solver
	globals map[*ssa.Global]*any
	inited  map[*ssa.Package]bool
	trail   []trailEnt
	noTrail bool
	inInit  int

	implCache map[implKey]bool

	// per path
	pc               []*Term
	pcSet            map[int]bool
	prefix           []uint64
	pos              int
	dec              []uint64
	model            Model
	ev               *Evaluator
	nvar             int
	inputs           []Input
	steps            int64
	maxSteps         int64
	maxAlloc         int64
	gs               []*G
	curG             *G
	nGo, maxG        int
	result           *pathEnd
	finish           chan struct{}
	wg               sync.WaitGroup
	locks            map[*any]*lockState
	pools            map[*any][]any
	side             map[any]any
	preempt          int
	race             *raceState
	lifo             bool // goroutines that have not run yet start last in, first out
	pickFork         bool // fork over which goroutine runs next when one blocks
	trailPreempt     int
	sched            bool
	covers           map[string]int
	funcs            map[*cfunc]bool
	notes            []string
	symtab           []any
	mapPerm          bool
	asserts, assertQ int
	incomplete       string
	observe          []string
}

func newWorker(ex *Explorer) *W {
	w := &W{p: ex.p, ex: ex, tb: NewTB(), globals: map[*ssa.Global]*any{}, inited: map[*ssa.Package]bool{},
		implCache: map[implKey]bool{}, maxSteps: ex.maxSteps, maxAlloc: 1 << 22, maxG: 20000, funcs: map[*cfunc]bool{}}
	w.sol = NewSolver(w.tb)
	return w
}

func (w *W) touch(c *cfunc) {
	if !w.funcs[c] {
		w.funcs[c] = true
	}
}

func (w *W) addPC(c *Term) {
	if c.isTrue() {
		return
	}
	if w.pcSet[c.id] {
		return
	}
	w.pcSet[c.id] = true
	w.pc = append(w.pc, c)
}

func (w *W) replayMode() bool { return w.pos < len(w.prefix) }

// branch decides a condition, forking when both sides are feasible.
func (w *W) branch(v any) bool {
	switch x := v.(type) {
	case bool:
		return x
	case *Term:
		if x.isConst() {
			return x.k == 1
		}
		return w.branchT(x)
	case nil:
		return false
	}
	panic(unsupported(fmt.Sprintf("branch on %T", v)))
}

func (w *W) branchT(c *Term) bool {
	if w.pcSet[c.id] {
		return true
	}
	n := w.tb.Not(c)
	if w.pcSet[n.id] {
		return false
	}
	if w.pos < len(w.prefix) {
		d := w.prefix[w.pos]
		w.pos++
		w.dec = append(w.dec, d)
		if d == 1 {
			w.addPC(c)
			return true
		}
		w.addPC(n)
		return false
	}
	taken := w.ev.Eval(c) == 1
	other := c
	if taken {
		other = n
	}
	r, m := w.sol.Check(w.pc, other)
	switch r {
	case Sat:
		alt := append(append([]uint64(nil), w.dec...), b2u(!taken))
		w.ex.push(WorkItem{alt, m})
	case Unknown:
		w.incomplete = "solver unknown on a branch"
	}
	w.pos++
	w.prefix = append(w.prefix, b2u(taken))
	w.dec = append(w.dec, b2u(taken))
	if taken {
		w.addPC(c)
	} else {
		w.addPC(n)
	}
	return taken
}

// concretize forks over the feasible values of t.
func (w *W) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.k
	}
	for n := 0; ; n++ {
		if n > 5000 {
			panic(pathEnd{"limit", "too many values for a symbolic size or index"})
		}
		var v uint64
		if w.pos < len(w.prefix) {
			v = w.prefix[w.pos]
		} else {
			v = w.ev.Eval(t)
			w.prefix = append(w.prefix, v)
		}
		w.pos++
		w.dec = append(w.dec, v)
		if w.branchT2(w.tb.Eq(t, w.tb.Const(t.sort, v))) {
			return v
		}
	}
}

// branchT2 is branchT without the pc shortcut (decision count must be stable).
func (w *W) branchT2(c *Term) bool {
	if c.isConst() {
		return c.k == 1
	}
	return w.branchT(c)
}

// choice makes a fresh variable in [0,n) and forks over its values.
func (w *W) choice(name string, n int, input bool) int {
	kind := "choice"
	if name == "sched" || name == "maporder" {
		kind = "sched"
	}
	if n <= 1 {
		if input {
			w.inputs = append(w.inputs, Input{Name: name, Kind: kind, term: w.tb.Const(BV(16), 0)})
		}
		return 0
	}
	t := w.fresh(name, BV(16))
	if input {
		w.inputs = append(w.inputs, Input{Name: name, Kind: kind, term: t})
	}
	var v uint64
	if w.pos < len(w.prefix) {
		v = w.prefix[w.pos]
	} else {
		for k := n - 1; k >= 1; k-- {
			m := Model{}
			for a, b := range w.model {
				m[a] = b
			}
			m[t.name] = uint64(k)
			w.ex.push(WorkItem{append(append([]uint64(nil), w.dec...), uint64(k)), m})
		}
		v = 0
		w.setModelVar(t.name, 0)
		w.prefix = append(w.prefix, 0)
	}
	w.pos++
	w.dec = append(w.dec, v)
	w.addPC(w.tb.Eq(t, w.tb.Const(BV(16), v)))
	return int(v)
}

func (w *W) setModelVar(name string, v uint64) {
	if w.model[name] != v {
		m := Model{}
		for a, b := range w.model {
			m[a] = b
		}
		m[name] = v
		w.setModel(m)
	}
}

func (w *W) setModel(m Model) {
	w.model = m
	w.ev = NewEval(m)
}

func (w *W) schedChoice(n int) int {
	w.sched = true
	return w.choice("sched", n, true)
}

func (w *W) mapOrder(m *Map) []int {
	if !w.mapPerm || m == nil || m.live < 2 || m.live > 4 || w.inInit > 0 {
		return nil
	}
	w.sched = true
	var live []int
	for i, e := range m.ents {
		if !e.dead {
			live = append(live, i)
		}
	}
	var ord []int
	for len(live) > 0 {
		k := w.choice("maporder", len(live), true)
		ord = append(ord, live[k])
		live = append(live[:k:k], live[k+1:]...)
	}
	// dead entries at the end so that indices stay aligned
	seen := map[int]bool{}
	for _, i := range ord {
		seen[i] = true
	}
	for i := range m.ents {
		if !seen[i] {
			ord = append(ord, i)
		}
	}
	return ord
}

func (w *W) fresh(name string, s Sort) *Term {
	w.nvar++
	return w.tb.Var(s, fmt.Sprintf("%s!%d.%d", sanitize(name), w.nvar, int(s)))
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r == '|' || r == '\\' || r == ' ' || r == '(' || r == ')' {
			return '_'
		}
		return r
	}, s)
}

func (w *W) assume(v any) {
	switch x := v.(type) {
	case bool:
		if !x {
			panic(pathEnd{"infeasible", ""})
		}
		return
	case *Term:
		if x.isConst() {
			if x.k == 0 {
				panic(pathEnd{"infeasible", ""})
			}
			return
		}
		if w.ev.Eval(x) != 1 {
			r, m := w.sol.Check(w.pc, x)
			switch r {
			case Unsat:
				panic(pathEnd{"infeasible", ""})
			case Unknown:
				panic(pathEnd{"unknown", "solver unknown on an assumption"})
			}
			// keep variables the solver did not mention
			nm := Model{}
			for a, b := range w.model {
				nm[a] = b
			}
			for a, b := range m {
				nm[a] = b
			}
			w.setModel(nm)
		}
		w.addPC(x)
	}
}

func (w *W) assert(g *G, v any, msg string) {
	w.asserts++
	if w.inInit > 0 {
		return
	}
	var c *Term
	switch x := v.(type) {
	case bool:
		if x {
			return
		}
		w.violation("assert", msg, w.model, g.trace(g.callerFr))
		panic(pathEnd{"violation", msg})
	case *Term:
		c = x
	}
	if c.isTrue() {
		return
	}
	if w.pos < len(w.prefix) {
		return // already decided on the parent path with the same path condition
	}
	if w.ev.Eval(c) == 0 {
		w.violation("assert", msg, w.model, g.trace(g.callerFr))
		panic(pathEnd{"violation", msg})
	}
	w.assertQ++
	r, m := w.sol.Check(w.pc, w.tb.Not(c))
	switch r {
	case Sat:
		w.violation("assert", msg, m, g.trace(g.callerFr))
	case Unknown:
		w.incomplete = "solver unknown on an assertion: " + msg
	}
}

func (w *W) violation(kind, msg string, m Model, trace string) {
	v := Violation{Harness: w.ex.name, Msg: msg, Kind: kind, Trace: trace, Sched: w.sched, Notes: append([]string(nil), w.notes...)}
	ev := NewEval(m)
	for _, in := range w.inputs {
		in.Val = ev.Eval(in.term)
		v.Inputs = append(v.Inputs, in)
	}
	w.ex.addViolation(v)
}

func (ex *Explorer) addViolation(v Violation) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	key := v.Msg
	if i := strings.IndexByte(key, '\n'); i >= 0 {
		key = key[:i]
	}
	if ex.seenViol[key] < 3 {
		ex.seenViol[key]++
		ex.viols = append(ex.viols, v)
		if ex.softEnd.IsZero() && !ex.finding {
			ex.softEnd = time.Now().Add(20 * time.Second)
		}
	}
	if len(ex.viols) >= ex.maxViol {
		ex.stop = true
		ex.cond.Broadcast()
	}
}

func (ex *Explorer) push(it WorkItem) {
	ex.mu.Lock()
	ex.queue = append(ex.queue, it)
	ex.st.Decisions++
	ex.cond.Signal()
	ex.mu.Unlock()
}

func (ex *Explorer) pop() (WorkItem, bool) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stop {
			return WorkItem{}, false
		}
		if time.Now().After(ex.deadline) || !ex.softEnd.IsZero() && time.Now().After(ex.softEnd) || ex.maxPaths > 0 && ex.st.Paths >= ex.maxPaths {
			if len(ex.queue) > 0 || ex.active > 0 {
				ex.st.Exhausted = false
				ex.st.Reasons["budget"]++
			}
			ex.stop = true
			ex.cond.Broadcast()
			return WorkItem{}, false
		}
		if n := len(ex.queue); n > 0 {
			// mostly depth first; a random pick now and then keeps a run that
			// hits its budget from staying in one corner
			k := n - 1
			if n > 64 && ex.rng.Intn(4) == 0 {
				k = ex.rng.Intn(n)
			}
			it := ex.queue[k]
			ex.queue[k] = ex.queue[n-1]
			ex.queue = ex.queue[:n-1]
			ex.active++
			return it, true
		}
		if ex.active == 0 {
			ex.cond.Broadcast()
			return WorkItem{}, false
		}
		ex.cond.Wait()
	}
}

func (w *W) runPath(it WorkItem) {
	w.pc = w.pc[:0]
	w.pcSet = map[int]bool{}
	w.prefix = append([]uint64(nil), it.prefix...)
	w.pos = 0
	w.dec = w.dec[:0:0]
	w.setModel(it.model)
	w.nvar = 0
	w.inputs = nil
	w.steps = 0
	w.maxSteps = w.ex.maxSteps
	w.gs = nil
	w.nGo = 0
	w.result = nil
	w.finish = make(chan struct{}, 1)
	w.locks = map[*any]*lockState{}
	w.pools = map[*any][]any{}
	w.side = map[any]any{}
	w.preempt = 0
	w.race = nil
	w.pickFork = false
	w.lifo = false
	w.trailPreempt = 0
	w.sched = false
	w.covers = map[string]int{}
	w.notes = nil
	w.symtab = nil
	w.mapPerm = false
	w.incomplete = ""
	w.observe = nil
	g := &G{w: w, id: 0, resume: make(chan bool)}
	w.gs = []*G{g}
	w.wg.Add(1)
	w.curG = g
	go g.main(func() { g.call(w.ex.harness, nil, nil, nil) })
	g.resume <- true
	<-w.finish
	for _, x := range w.gs {
		if !x.done {
			x.resume <- false
		}
	}
	w.wg.Wait()
	w.undoAll()
}

func (ex *Explorer) worker() {
	w := newWorker(ex)
	defer w.sol.Close()
	for {
		it, ok := ex.pop()
		if !ok {
			break
		}
		w.runPath(it)
		ex.mu.Lock()
		ex.active--
		r := w.result
		if r.kind == "ok" && len(ex.wit) < 6 && ex.st.Paths >= ex.nextWit {
			ex.nextWit = ex.nextWit*6 + 1
			var in []Input
			for _, i := range w.inputs {
				i.Val = w.ev.Eval(i.term)
				in = append(in, i)
			}
			ex.wit = append(ex.wit, in)
		}
		switch r.kind {
		case "ok", "violation":
			ex.st.Paths++
		case "infeasible":
			ex.st.Infeasible++
		case "unsupported":
			ex.st.Unsupported++
			k := r.msg
			if len(k) > 3000 {
				k = k[:3000]
			}
			ex.st.Reasons["unsupported: "+k]++
		case "limit", "hang":
			ex.st.Limit++
			ex.st.Reasons["limit: "+r.msg]++
		case "unknown":
			ex.st.Unknown++
			ex.st.Reasons["unknown: "+r.msg]++
		case "panic", "deadlock":
			ex.st.Paths++
		default:
			ex.st.Reasons["? "+r.kind+" "+r.msg]++
		}
		if w.incomplete != "" {
			ex.st.Unknown++
			ex.st.Reasons["incomplete: "+w.incomplete]++
		}
		ex.st.Steps += w.steps
		for k, n := range w.covers {
			ex.st.Covers[k] += n
		}
		if len(w.pc) > ex.st.MaxPC {
			ex.st.MaxPC = len(w.pc)
		}
		if len(ex.queue) == 0 && ex.active == 0 {
			ex.cond.Broadcast()
		}
		ex.mu.Unlock()
		if r.kind == "hang" {
			w.violation("hang", "does not end: "+r.msg, w.model, r.msg)
		}
		if r.kind == "panic" || r.kind == "deadlock" {
			w.violation(r.kind, r.msg, w.model, r.msg)
		}
		if ex.verbose {
			fmt.Fprintf(os.Stderr, "path %s %s dec=%v\n", r.kind, firstLine(r.msg), w.dec)
		}
		if len(w.tb.tab) > 3000000 { // bound memory: fresh terms and solver
			w.sol.Close()
			ex.mergeSolver(w)
			w.tb = NewTB()
			old := w.sol
			w.sol = NewSolver(w.tb)
			_ = old
		}
	}
	ex.mu.Lock()
	ex.st.Asserts += w.asserts
	ex.st.AssertQueries += w.assertQ
	for c := range w.funcs {
		ex.st.Funcs[c.name]++
	}
	ex.mu.Unlock()
	ex.mergeSolver(w)
}

func (ex *Explorer) mergeSolver(w *W) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	s := w.sol
	ex.st.Queries += s.Queries
	ex.st.Sat += s.SatN
	ex.st.Unsat += s.UnsatN
	ex.st.UnknownQ += s.UnknownN
	ex.st.FPQueries += s.FPQueries
	ex.st.SolverS += s.Time.Seconds()
	ex.st.SolverErrors += s.Errors
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func (ex *Explorer) Run(workers int) {
	t0 := time.Now()
	ex.cond = sync.NewCond(&ex.mu)
	ex.rng = rand.New(rand.NewSource(ex.seed))
	ex.st.Covers = map[string]int{}
	ex.st.Funcs = map[string]int{}
	ex.st.Reasons = map[string]int{}
	ex.st.Exhausted = true
	ex.seenViol = map[string]int{}
	ex.queue = []WorkItem{{nil, Model{}}}
	go func() { // wake waiters at the deadline
		time.Sleep(time.Until(ex.deadline) + 50*time.Millisecond)
		ex.mu.Lock()
		ex.cond.Broadcast()
		ex.mu.Unlock()
	}()
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); ex.worker() }()
	}
	wg.Wait()
	ex.st.WallS = time.Since(t0).Seconds()
	if ex.st.Unsupported > 0 || ex.st.Limit > 0 || ex.st.Unknown > 0 {
		ex.st.Exhausted = false
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
