package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Common parts of the contracts decided by engine A.

type scenario struct {
	r   *Report
	x   *interp
	key string
	fn  *ssa.Function
	n   int // results looked at
	// instances of fixed size
	conc bool
	vec  []int
	at   int

	cands  []string
	unsure string

	mode  string        // analyses tried: a (affine relations), c (cells), s (phases), e (exactly)
	limit time.Duration // for each of them
}

// inMode is an option of a scenario.
func inMode(m string, limit time.Duration) func(*scenario) {
	return func(s *scenario) { s.mode, s.limit = m, limit }
}

// scenario runs one analysis; unsupported constructs leave it undecided.
func (w *World) scenario(r *Report, key string, fn *ssa.Function, f func(s *scenario), opts ...func(*scenario)) {
	key = r.family + key
	if o := os.Getenv("VG_ONLY"); o != "" && !strings.Contains(key, o) {
		return
	}
	r.wg.Add(1)
	go func() {
		defer r.wg.Done()
		workers <- struct{}{}
		defer func() { <-workers }()
		w.runScenario(r, key, fn, f, opts...)
	}()
}

var workers = make(chan struct{}, runtime.NumCPU())

// runScenario analyses one scenario for inputs of every size. If that does not
// show the contract, instances of the scenario with small fixed sizes are
// followed exactly: only what fails for one of these is reported.
func (w *World) runScenario(r *Report, key string, fn *ssa.Function, f func(s *scenario), opts ...func(*scenario)) {
	s := &scenario{r: r, x: newInterp(w), key: key, fn: fn, mode: "a"}
	for _, o := range opts {
		o(s)
	}
	if os.Getenv("VG_TIME") != "" {
		t0 := time.Now()
		defer func() { fmt.Printf("TIME %6.2fs steps %d %s\n", time.Since(t0).Seconds(), s.x.steps, key) }()
	}
	mode := s.mode
	if m := os.Getenv("VG_MODE"); m != "" {
		mode = m
	}
	why, tried := "", s
	for i, m := range mode {
		a := s
		if i > 0 {
			a = &scenario{r: r, x: newInterp(w), key: key, fn: fn}
		}
		a.x.cells = m == 'c'
		a.x.phases = m == 's'
		if m == 'e' { // the scenario fixes all lengths
			a.x.concrete, a.x.most = true, maxExactSteps
			a.x.pick = func() int { undec("an unknown length"); return 0 }
		}
		a.x.deadline = r.start.Add(abstractTime)
		if d := time.Now().Add(s.limit); s.limit > 0 && d.Before(a.x.deadline) {
			a.x.deadline = d
		}
		w := a.attempt(f)
		if a.n == 0 && w == "" {
			w = "no final state"
		}
		if i == 0 || w == "" && len(a.cands) == 0 {
			why, tried = w, a
		}
		if w == "" && len(a.cands) == 0 {
			break
		}
	}
	s = tried
	r.mu.Lock()
	add := func(k string, n int) {
		m, _ := r.Cov[k].(int)
		r.Cov[k] = m + n
	}
	add("abstract_steps", s.x.steps)
	add("scenarios", 1)
	add("final_states", s.n)
	fs, _ := r.Cov["functions"].(map[string]bool)
	if fs == nil {
		fs = map[string]bool{}
	}
	for f := range s.x.funcs {
		if !isHarness(f) {
			fs[fnName(f)] = true
		}
	}
	r.Cov["functions"] = fs
	r.mu.Unlock()
	if why == "" && len(s.cands) == 0 {
		if cand := w.lateRuns(r, s, key, fn, f); cand != "" {
			r.bad(key, w.where(fn), "when the goroutines run last first: %s", cand)
			return
		}
		r.ok(key, w.where(fn))
		return
	}
	if len(s.cands) > 0 {
		why = s.cands[0]
	}
	if os.Getenv("VG_NOCONC") == "" {
		runs, budget := 0, 0
		for _, vec := range append(vectors(), s.x.thresholds()...) {
			r.mu.Lock()
			stop := r.confirmed >= 6 || time.Since(r.start) > 6*time.Minute+30*time.Second
			r.mu.Unlock()
			if stop || budget > 3*maxSteps {
				break
			}
			c := &scenario{r: r, x: newInterp(w), key: key, fn: fn, conc: true, vec: vec}
			c.x.concrete = true
			if mode == "e" {
				c.x.most = maxExactSteps
			}
			c.x.pick = c.pick
			cw := c.attempt(f)
			if os.Getenv("VG_DEBUG") != "" {
				fmt.Printf("instance %v of %s: steps %d, %s %v\n", vec, key, c.x.steps, cw, c.cands)
			}
			budget += c.x.steps
			runs++
			if len(c.cands) > 0 {
				r.mu.Lock()
				r.confirmed++
				r.mu.Unlock()
				r.bad(key, w.where(fn), "%s", c.cands[0])
				return
			}
		}
		r.mu.Lock()
		add("instances_followed", runs)
		r.mu.Unlock()
	}
	r.unknown(key, w.where(fn), "%s", why)
}

// memLimit: beyond it, analyses are given up one after another.
const memLimit = 5 << 30

var memShort, hardStop atomic.Bool

func watchMemory() {
	m := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(500 * time.Millisecond)
		metrics.Read(m)
		if time.Since(started) > hardTime {
			hardStop.Store(true)
		}
		if m[0].Value.Uint64() > memLimit*3/2 && memShort.CompareAndSwap(false, true) {
			time.Sleep(5 * time.Second)
		}
	}
}

// abstractTime bounds the analyses for inputs of every size.
const abstractTime = 5 * time.Minute

// hardTime ends every analysis.
const hardTime = 9 * time.Minute

var started = time.Now()

// attempt runs the scenario once; the result tells why it is undecided.
func (s *scenario) attempt(f func(s *scenario)) (why string) {
	defer func() {
		if e := recover(); e != nil {
			if u, ok := e.(undecidedErr); ok {
				why = u.msg
				return
			}
			if u, ok := e.(fatal); ok {
				why = u.msg
				return
			}
			if os.Getenv("VG_DEBUG") != "" {
				fmt.Printf("%v\n%s\n", e, debug.Stack())
			}
			why = fmt.Sprintf("internal error: %v", e)
		}
	}()
	f(s)
	return s.unsure
}

// vectors are the sizes tried: all equal, one or two different ones, mixed.
func vectors() (out [][]int) {
	out = append(out, []int{0}, []int{1})
	const k = 9
	for _, base := range []int{0, 1} {
		for i := 0; i < k; i++ {
			v := make([]int, k)
			for j := range v {
				v[j] = base
			}
			v[i] = 1 - base
			out = append(out, v)
		}
	}
	out = append(out, []int{2})
	for i := 0; i < k; i++ {
		v := make([]int, k)
		v[i] = 2
		out = append(out, v)
	}
	for i := 0; i < k; i++ {
		for j := i + 1; j < k; j++ {
			v := make([]int, k)
			v[i], v[j] = 1, 1
			out = append(out, v)
		}
	}
	out = append(out, []int{3}, []int{0, 5, 0, 0}, []int{5, 0, 0, 0}, []int{6})
	return
}

// lateRuns follows the scenario for a few sizes with the other extreme
// schedule: goroutines run only when they are waited for, the last one first.
// The analysis for every size takes each goroutine at its start.
func (w *World) lateRuns(r *Report, s *scenario, key string, fn *ssa.Function, f func(s *scenario)) string {
	starts := false
	for g := range s.x.funcs {
		if !isHarness(g) && startsGoroutine(g) {
			starts = true
		}
	}
	if !starts {
		return ""
	}
	vecs := [][]int{{2}, {3}}
	for i := 0; i < 6; i++ {
		v := make([]int, 7)
		v[i] = 2
		vecs = append(vecs, v)
	}
	n := 0
	for _, vec := range vecs {
		r.mu.Lock()
		stop := r.confirmed >= 6 || time.Since(r.start) > 4*time.Minute
		r.mu.Unlock()
		if stop {
			break
		}
		c := &scenario{r: r, x: newInterp(w), key: key, fn: fn, conc: true, vec: vec}
		c.x.concrete, c.x.late, c.x.most = true, true, 20000
		c.x.pick = c.pick
		why := c.attempt(f)
		if os.Getenv("VG_DEBUG") != "" {
			fmt.Printf("late %v of %s: steps %d finals %d %s %v\n", vec, key, c.x.steps, c.n, why, c.cands)
		}
		n++
		if len(c.cands) > 0 {
			r.mu.Lock()
			r.confirmed++
			r.mu.Unlock()
			return c.cands[0]
		}
	}
	r.mu.Lock()
	k, _ := r.Cov["late_schedules"].(int)
	r.Cov["late_schedules"] = k + n
	r.mu.Unlock()
	return ""
}

func startsGoroutine(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Go); ok {
				return true
			}
		}
	}
	return false
}

// thresholds are sizes around the numbers the analysed functions compare
// with: what a limit changes shows beyond it.
func (x *interp) thresholds() (out [][]int) {
	set := map[int]bool{}
	for f := range x.funcs {
		if isHarness(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Convert); ok {
					if b, ok := c.Type().Underlying().(*types.Basic); ok {
						switch b.Kind() {
						case types.Int8:
							set[1<<7-1] = true
						case types.Uint8:
							set[1<<8-1] = true
						}
					}
				}
				c, ok := in.(*ssa.BinOp)
				if !ok {
					continue
				}
				for _, v := range []ssa.Value{c.X, c.Y} {
					k, ok := v.(*ssa.Const)
					if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
						continue
					}
					if n, ok := constant.Int64Val(k.Value); ok && n > 3 && n <= maxThreshold {
						set[int(n)] = true
					}
				}
			}
		}
	}
	var ks []int
	for n := range set {
		ks = append(ks, n)
	}
	sort.Ints(ks)
	if len(ks) > 4 {
		ks = ks[:4]
	}
	for _, n := range ks {
		for i := 0; i < 6; i++ {
			for _, base := range []int{0, 1} {
				v := []int{base, base, base, base, base, base, base}
				v[i] = n + 1
				out = append(out, v)
			}
		}
	}
	return
}

const maxThreshold = 1100

func (s *scenario) pick() int {
	n := 0
	if s.at < len(s.vec) {
		n = s.vec[s.at]
	} else {
		n = s.vec[len(s.vec)-1]
	}
	s.at++
	return n
}

// fresh is an arbitrary size.
func (s *scenario) fresh() Lin {
	if s.conc {
		return lc(s.pick())
	}
	return fresh()
}

func (w *World) where(fn *ssa.Function) string {
	if fn == nil {
		return "-"
	}
	return w.pos(fn.Pos())
}

// fail reports a final state that breaks the contract.
func (s *scenario) fail(st *state, f string, a ...any) {
	if !s.r.crashes {
		s.failed(st, f, a...)
	}
}

func (s *scenario) failed(st *state, f string, a ...any) {
	msg := fmt.Sprintf(f, a...)
	if st != nil && st.impr != "" {
		s.unsureOf("%s (in an imprecise state: %s)", msg, st.impr)
		return
	}
	s.cands = append(s.cands, msg)
	if *verbose && st != nil {
		fmt.Println("----", s.conc, s.vec, s.key, msg)
		fmt.Println(st)
	}
}

// doubt: the analysis does not know.
func (s *scenario) doubt(f string, a ...any) {
	if !s.r.crashes {
		s.unsureOf(f, a...)
	}
}

func (s *scenario) unsureOf(f string, a ...any) {
	if s.unsure == "" {
		s.unsure = fmt.Sprintf(f, a...)
	}
}

// mismatch reports a value that is not the wanted one, unless it is unknown.
func (s *scenario) mismatch(st *state, got V, f string, a ...any) {
	if hasTop(got) {
		s.doubt("unknown value: "+f, a...)
		return
	}
	s.fail(st, f, a...)
}

func (s *scenario) mismatchW(st *state, got []seg, f string, a ...any) {
	for _, g := range got {
		if hasTop(g.v) {
			s.doubt("unknown content: "+f, a...)
			return
		}
	}
	s.fail(st, f, a...)
}

func hasTop(v V) bool {
	top := false
	scanV(v, func(y V) {
		switch y.(type) {
		case vTop, vRange:
			top = true
		}
	})
	return top || v == nil
}

// run analyses a call; panics end in failures unless wanted.
func (s *scenario) run(fn *ssa.Function, st *state, args ...V) []res {
	var out []res
	for _, r := range s.x.exec(fn, args, nil, st) {
		s.n++
		if r.pan != "" {
			if r.st.loose {
				// the lookups of one member may disagree
				s.unsureOf("crashes: %s at %s", r.pan, r.at)
			} else {
				s.failed(r.st, "crashes: %s at %s", r.pan, r.at)
			}
			continue
		}
		out = append(out, r)
	}
	return out
}

// runQuiet ignores panics.
func (s *scenario) runQuiet(fn *ssa.Function, st *state, args ...V) []res {
	var out []res
	for _, r := range s.x.exec(fn, args, nil, st) {
		if r.pan == "" {
			out = append(out, r)
		}
	}
	return out
}

// words ------------------------------------------------------------------------

func (st *state) array(w ...seg) V {
	n := Lin{}
	for _, g := range w {
		n = n.add(g.n)
	}
	id := st.alloc(&obj{kind: 'a', w: append([]seg{}, w...)})
	return vSlice{obj: id, hi: n, full: true}
}

// content of a slice value, normalised; ok is false for unknown content.
func (st *state) content(v V) ([]seg, bool) {
	switch v := v.(type) {
	case vNil:
		return nil, true
	case vSlice:
		o := st.heap[v.obj]
		if o == nil || o.kind != 'a' {
			return nil, false
		}
		lo, hi := st.n(v.lo), st.n(v.hi)
		w := st.normWord(o.w)
		if lo.eq(Lin{}) && st.eqLin(hi, st.wlen(w)) {
			return w, true
		}
		// boundaries must fall between segments
		var out []seg
		cum := Lin{}
		in := false
		if st.eqLin(cum, lo) {
			in = true
		}
		if in && st.eqLin(cum, hi) {
			return nil, true
		}
		for _, g := range w {
			end := st.n(cum.add(g.n))
			if in {
				if st.ge0(hi.sub(end)) {
					out = append(out, g)
				} else if st.ge0(end.sub(hi)) && st.ge0(hi.sub(cum)) {
					out = append(out, seg{g.v, st.n(hi.sub(cum))})
					return st.normWord(out), true
				} else {
					return nil, false
				}
				if st.eqLin(end, hi) {
					return st.normWord(out), true
				}
			} else if st.ge0(end.sub(lo)) && st.ge0(lo.sub(cum)) {
				in = true
				if !st.eqLin(end, lo) {
					if st.ge0(hi.sub(end)) {
						out = append(out, seg{g.v, st.n(end.sub(lo))})
					} else {
						return nil, false
					}
				}
				if st.eqLin(end, hi) {
					return st.normWord(out), true
				}
			}
			cum = end
		}
		return nil, false
	}
	return nil, false
}

func mentions(v V, y V) bool {
	k := vkey(y)
	f := false
	scanV(v, func(x V) {
		if vkey(x) == k {
			f = true
		}
	})
	return f
}

// choices are the alternatives of summarised content.
func choices(v V) []V {
	if c, ok := v.(vChoice); ok {
		var r []V
		for _, y := range c {
			r = append(r, choices(y)...)
		}
		return r
	}
	return []V{v}
}

func (st *state) wordString(w []seg) string {
	var p []string
	for _, g := range w {
		n := st.n(g.n)
		if n.isConst() && n.C == 1 {
			p = append(p, vkey(g.v))
		} else {
			p = append(p, fmt.Sprintf("%s*(%s)", vkey(g.v), n))
		}
	}
	return "[" + strings.Join(p, " ") + "]"
}

// sameWord compares contents up to splitting of equal neighbours.
func (st *state) sameWord(a, b []seg) bool {
	a, b = st.normWord(a), st.normWord(b)
	merge := func(w []seg) []seg {
		var out []seg
		for _, g := range w {
			if k := len(out) - 1; k >= 0 && vkey(out[k].v) == vkey(g.v) {
				out[k].n = st.n(out[k].n.add(g.n))
				continue
			}
			out = append(out, seg{st.nv(g.v), st.n(g.n)})
		}
		return out
	}
	a, b = merge(a), merge(b)
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if vkey(a[i].v) != vkey(b[i].v) || !st.eqLin(a[i].n, b[i].n) {
			return false
		}
	}
	return true
}

// focusSeq is the sequence of the segments selected by pick; others must be
// accepted by allow.
func (st *state) focusSeq(w []seg, pick func(V) bool, allow func(V) bool) (seq []seg, stray V) {
	for _, g := range w {
		for _, c := range choices(g.v) {
			if pick(c) {
				if _, multi := g.v.(vChoice); multi {
					return nil, g.v
				}
				seq = append(seq, g)
			} else if !allow(c) {
				return nil, c
			}
		}
	}
	return seq, nil
}

// findField looks for a value of a type in a structure reachable from v.
func (x *interp) findField(st *state, v V, t types.Type, want func(types.Type) bool, depth int) []vPtr {
	var out []vPtr
	if depth > 4 {
		return nil
	}
	p, ok := v.(vPtr)
	if !ok {
		return nil
	}
	o := st.heap[p.obj]
	if o == nil || o.kind != 'c' {
		return nil
	}
	var rec func(t types.Type, cur V, path []pstep)
	rec = func(t types.Type, cur V, path []pstep) {
		if want(t) {
			out = append(out, vPtr{p.obj, append(append([]pstep{}, p.path...), path...)})
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			if isSyncPkg(t) {
				return
			}
			for i := 0; i < u.NumFields(); i++ {
				rec(u.Field(i).Type(), getField(cur, i), append(append([]pstep{}, path...), pstep{field: i}))
			}
		case *types.Pointer:
			if isSyncPkg(u.Elem()) {
				return
			}
			out = append(out, x.findField(st, cur, u.Elem(), want, depth+1)...)
		}
	}
	rec(t, fieldsOf(o.v, p.path), nil)
	return out
}

func isSyncPkg(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync"
}

func (st *state) at(p vPtr) V { return fieldsOf(st.heap[p.obj].v, p.path) }
